//! Topological sort.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::algorithms::{toposort, toposort_filtered, TopoSort};
use std::collections::HashSet;

/// The links in traversal direction, as (near end, far end).
fn turned(m: &MM, out: bool) -> Vec<(EP, EP)> {
    m.links.iter().map(|l| if out { *l } else { (l.1, l.0) }).collect()
}
/// Kahn's algorithm from `src`: nodes whose links all come from visited ones.
fn kahn(m: &MM, out: bool, src: &[bool]) -> Vec<bool> {
    let l = turned(m, out);
    let mut r = src.to_vec();
    loop {
        let mut more = false;
        for v in 0..r.len() {
            if r[v] { continue; }
            let mut any = false;
            let mut all = true;
            for x in &l {
                if m.node(x.1 .0) == v { any = true; all &= r[m.node(x.0 .0)]; }
            }
            if any && all { r[v] = true; more = true; }
        }
        if !more { return r; }
    }
}
/// checks a traversal: each item a wanted node, once, after all its predecessors unless a source
struct Run {
    seen: Vec<bool>,
    n: usize,
}
impl Run {
    fn new(n: usize) -> Run { Run { seen: vec![false; n], n: 0 } }
    fn item(&mut self, m: &MM, out: bool, src: &[bool], v: usize) {
        ck!(v < self.seen.len() && !self.seen[v]);
        if !src[v] {
            for x in turned(m, out) {
                if m.node(x.1 .0) == v { ck!(self.seen[m.node(x.0 .0)]); }
            }
        }
        self.seen[v] = true;
        self.n += 1;
        obs(v);
    }
}
fn full<T: Iterator<Item = N>>(mut it: T, m: &MM, out: bool, src: &[bool]) -> Run {
    let want = kahn(m, out, src);
    let total = want.iter().filter(|x| **x).count();
    let mut r = Run::new(src.len());
    loop {
        let (lo, hi) = it.size_hint();
        let left = total - r.n;
        ck!(lo <= left && hi.map_or(true, |h| h >= left));
        match it.next() {
            Some(v) => { let v = v.index(); r.item(m, out, src, v); ck!(want[v]); }
            None => break,
        }
        ck!(r.n <= total);
    }
    ck!(r.n == total);
    ck!(it.next().is_none());
    r
}
/// any set of source nodes, in increasing or decreasing order
fn sources(n: usize) -> (Vec<bool>, Vec<usize>) {
    let c = choose(below(1 << n));
    let s: Vec<bool> = (0..n).map(|k| c >> k & 1 == 1).collect();
    let mut l: Vec<usize> = (0..n).filter(|&k| s[k]).collect();
    if l.len() > 1 && any_bool() { l.reverse(); }
    (s, l)
}
fn list(v: &[usize]) -> Vec<N> { v.iter().map(|&n| ni(n)).collect() }
/// nodes without links against the direction
fn initial(m: &MM, out: bool) -> Vec<bool> {
    let l = turned(m, out);
    (0..m.b.nodes.len()).map(|v| m.b.alive(v) && !l.iter().any(|x| m.node(x.1 .0) == v)).collect()
}
fn filtered<T: Iterator<Item = N>>(it: T, m: &MM, out: bool, s: &[bool], nodes: &[bool], ports: &[bool]) -> usize {
    let n = s.len();
    let l = turned(m, out);
    let ok = |x: &(EP, EP)| ports[x.0 .0] && ports[x.1 .0];
    let (mut may, mut must) = (vec![false; n], vec![false; n]);
    for v in 0..n { may[v] = s[v] && nodes[v]; must[v] = may[v]; }
    for _ in 0..n {
        for x in &l { if ok(x) && may[m.node(x.0 .0)] && nodes[m.node(x.1 .0)] { may[m.node(x.1 .0)] = true; } }
        for v in 0..n {
            if must[v] || !nodes[v] { continue; }
            let mut any = false;
            let mut all = true;
            for x in &l {
                if m.node(x.1 .0) != v || !ports[x.1 .0] { continue; }
                if must[m.node(x.0 .0)] && ports[x.0 .0] { any = true; } else { all = false; }
            }
            if any && all { must[v] = true; }
        }
    }
    let mut pos = vec![NONE; n];
    let mut k = 0;
    for v in it {
        let v = v.index();
        ck!(v < n && may[v] && pos[v] == NONE);
        pos[v] = k;
        k += 1;
    }
    for v in 0..n {
        if must[v] { ck!(pos[v] != NONE); }
        if pos[v] == NONE || s[v] { continue; }
        for x in &l {
            let u = m.node(x.0 .0);
            if m.node(x.1 .0) == v && ok(x) && pos[u] != NONE { ck!(pos[u] < pos[v]); }
        }
    }
    k
}
harnesses! {
p22_digraph, covers = 3, bounds = "every directed graph on 4 nodes without self-links, from all nodes without predecessors, in both directions: every reachable node once, after all its predecessors; ports remain exactly if there is a cycle", {
    let (g, m) = digraph(4, |i, j| i != j);
    let m = of(&m);
    let out = choose(below(2)) == 1;
    let s = initial(&m, out);
    let src: Vec<N> = (0..4).filter(|&n| s[n]).map(ni).collect();
    let mut t: TopoSort<_> = toposort(&g, src.iter().copied(), dir(out));
    let r = full(&mut t, &m, out, &s);
    let a = acyclic(4, &m.arcs());
    ck!((r.n == 4) == a);
    ck!(t.ports_remaining().next().is_none() == a);
    if a && m.links.len() == 6 { cover(0); }
    if !a && r.n == 1 { cover(1); }
    if r.n == 0 { cover(2); }
}
p22_sources, covers = 2, bounds = "PortGraph of 3 nodes with 2 ports each way, every set of 2 (thorough 3) links (parallel and self-links), any sources, both directions, three workspace map types", {
    let (g, m) = square(3, 2, tier(2, 3));
    let m = of(&m);
    let (s, l) = sources(3);
    let out = any_bool();
    match choose(below(3)) {
        0 => { full::<TopoSort<_>>(toposort(&g, list(&l), dir(out)), &m, out, &s); }
        1 => { full::<TopoSort<_, HashSet<P>>>(toposort(&g, list(&l), dir(out)), &m, out, &s); }
        _ => { full::<TopoSort<_, UnmanagedDenseMap<P, bool>>>(toposort(&g, list(&l), dir(out)), &m, out, &s); }
    }
    let k = kahn(&m, out, &s).iter().filter(|x| **x).count();
    if k == 3 && l.len() == 1 { cover(0); }
    if k == 1 { cover(1); }
}
p22_multi, covers = 2, bounds = "MultiPortGraph of 4 nodes with one port each way, every choice of 3 (thorough 4) links, repeated ones included, any sources, both directions", {
    let (g, m) = msquare(4, tier(3, 4), true);
    let c = choose(below(16));
    let s: Vec<bool> = (0..4).map(|k| c >> k & 1 == 1).collect();
    let out = any_bool();
    let src: Vec<N> = (0..4).filter(|&n| s[n]).map(ni).collect();
    let mut t: TopoSort<_> = toposort(&g, src, dir(out));
    let r = full(&mut t, &m, out, &s);
    if c == 3 && r.n == 3 { cover(0); }
    if c == 1 && r.n == 4 { cover(1); }
}
p22_add, covers = 3, bounds = "PortGraph of 4 nodes (one without ports, the others with 1, thorough 2, each way) with 2 links, any sources, up to 2 steps, any further sources: no node twice, all sources, others after their predecessors", {
    let (mut g, mut m) = square(3, tier(1, 2), 2);
    m.add(&mut g, 0, 0);
    let m = of(&m);
    let (mut s, l) = sources(4);
    let out = any_bool();
    let mut t: TopoSort<_> = toposort(&g, list(&l), dir(out));
    let mut r = Run::new(4);
    for _ in 0..choose(below(3)) {
        match t.next() { Some(v) => r.item(&m, out, &s, v.index()), None => break }
    }
    let (s2, l2) = sources(4);
    for v in 0..4 { s[v] |= s2[v]; }
    if l2.iter().any(|&v| r.seen[v]) { cover(0); }
    if s2[3] && !r.seen[3] { cover(2); }
    t.add_sources(list(&l2));
    let want = kahn(&m, out, &s);
    let total = want.iter().filter(|x| **x).count();
    for _ in 0..5 {
        let (lo, hi) = t.size_hint();
        ck!(lo <= total - r.n && hi.map_or(true, |h| h >= total - r.n));
        match t.next() { Some(v) => r.item(&m, out, &s, v.index()), None => break }
    }
    ck!(r.n == total);
    if r.n == 4 { cover(1); }
}
p22_add_join, covers = 2, bounds = "PortGraph of 3 nodes with 2 ports each way, any 2 (thorough 3) links; one source, up to 2 steps, then one further source", {
    let (g, m) = square(3, 2, tier(2, 3));
    let m = of(&m);
    let a = choose(below(3));
    let mut s = vec![false; 3];
    s[a] = true;
    let out = any_bool();
    let mut t: TopoSort<_> = toposort(&g, [ni(a)], dir(out));
    let mut r = Run::new(3);
    for _ in 0..choose(below(3)) {
        match t.next() { Some(v) => r.item(&m, out, &s, v.index()), None => break }
    }
    let b = choose(below(3));
    // an input of the new source has been reached already, another not
    let l = turned(&m, out);
    if !r.seen[b] && l.iter().any(|x| m.node(x.1 .0) == b && r.seen[m.node(x.0 .0)]) { cover(0); }
    s[b] = true;
    t.add_sources([ni(b)]);
    let total = kahn(&m, out, &s).iter().filter(|x| **x).count();
    for _ in 0..4 {
        match t.next() { Some(v) => r.item(&m, out, &s, v.index()), None => break }
    }
    ck!(r.n == total);
    if r.n == 3 { cover(1); }
}
p22_filtered, covers = 2, bounds = "PortGraph of 3 nodes with 2 ports each way, every set of 2 (thorough 3) links, any sources, any filtered node (or none), every set of filtered ports, both directions: nothing filtered or only reachable through filtered ones, everything all of whose unfiltered predecessors are visited, in order", {
    let (g, m) = square(3, 2, tier(2, 3));
    let m = of(&m);
    let c = choose(below(8));
    let s: Vec<bool> = (0..3).map(|k| c >> k & 1 == 1).collect();
    let hn = (1 << choose(below(4))) & 7;
    let hp = below(1 << m.b.ports.len());
    let nodes: Vec<bool> = (0..3).map(|k| hn >> k & 1 == 0).collect();
    let ports: Vec<bool> = (0..m.b.ports.len()).map(|k| m.port_links(k).is_empty() || hp >> k & 1 == 0).collect();
    let out = any_bool();
    let src: Vec<N> = (0..3).filter(|&n| s[n]).map(ni).collect();
    let t: TopoSort<_> = toposort_filtered(&g, src, dir(out), |n| nodes[n.index()], |n, p| { ck!(m.node(p.index()) == n.index()); ports[p.index()] });
    let k = filtered(t, &m, out, &s, &nodes, &ports);
    obs(k);
    if k == 3 && c == 1 { cover(0); }
    if k == 1 && hn == 0 && c == 1 { cover(1); }
}
p22_filtered_multi, covers = 1, bounds = "every set of filtered nodes and ports on a MultiPortGraph of 3 nodes with one port each way and 3 links, repeated ones included", {
    let (g, m) = msquare(3, 3, true);
    let c = choose(below(8));
    let s: Vec<bool> = (0..3).map(|k| c >> k & 1 == 1).collect();
    let hn = choose(below(8));
    let hp = below(1 << m.b.ports.len());
    let nodes: Vec<bool> = (0..3).map(|k| hn >> k & 1 == 0).collect();
    let ports: Vec<bool> = (0..m.b.ports.len()).map(|k| m.port_links(k).is_empty() || hp >> k & 1 == 0).collect();
    let out = any_bool();
    let src: Vec<N> = (0..3).filter(|&n| s[n]).map(ni).collect();
    let t: TopoSort<_> = toposort_filtered(&g, src, dir(out), |n| nodes[n.index()], |_, p| ports[p.index()]);
    let k = filtered(t, &m, out, &s, &nodes, &ports);
    obs(k);
    if k == 3 && c == 1 { cover(0); }
}
p22_long, covers = 3, bounds = "a line of 9 nodes, each of 9 skipping links and 3 back links there or not (PortGraph), numbered along the line or against it, both directions, from the initial nodes or from any two", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..9 { m.add(&mut g, 9, 9); }
    let against = any_bool();
    let at = |i: usize| if against { 8 - i } else { i };
    let mut add = |i: usize, j: usize| {
        let (i, j) = (at(i), at(j));
        let (a, b) = (m.port(i, true, j), m.port(j, false, i));
        ck!(m.link(&mut g, a, b));
    };
    for i in 0..8 { if i != 4 { add(i, i + 1); } }
    for (i, j) in [(0, 8), (0, 4), (3, 5), (1, 7), (2, 6), (4, 8), (6, 8), (4, 5), (8, 7), (6, 1)] { if any_bool() { add(i, j); } }
    let m = of(&m);
    let out = against ^ (m.links.len() % 2 == 0);
    let two = any_bool();
    let s = if two { bits(0b100001001 >> (m.links.len() % 3), 9) } else { initial(&m, out) };
    let src: Vec<N> = (0..9).filter(|&n| s[n]).map(ni).collect();
    let mut t: TopoSort<_> = toposort(&g, src.iter().copied(), dir(out));
    let r = full(&mut t, &m, out, &s);
    let a = acyclic(9, &m.arcs());
    if !two { ck!((r.n == 9) == a && t.ports_remaining().next().is_none() == a); }
    if a && m.links.len() > 13 { cover(0); }
    if !a && r.n > 3 { cover(1); }
    if two && r.n == 9 { cover(2); }
}
p22_wide, covers = 2, bounds = "MultiPortGraph of 8 nodes: links of one output to 6 others and of these to one input, each there or not, repeated ones, links among them; both directions; from the initial nodes", {
    let out = choose(below(2)) == 1;
    let mut g = MG::new();
    let mut m = MM::new();
    for _ in 0..8 { m.add(&mut g, 1, 1); }
    let mut add = |x: usize, y: usize| {
        let (a, b) = (m.b.port(x, out, 0), m.b.port(y, !out, 0));
        ck!(m.link(&mut g, a, b));
    };
    for k in 1..7 { add(7, k); if any_bool() { add(k, 0); } }
    for (x, y) in [(7, 3), (1, 5), (1, 5), (5, 2), (6, 5)] { if any_bool() { add(x, y); } }
    let s = initial(&m, out);
    let src: Vec<N> = (0..8).filter(|&n| s[n]).map(ni).collect();
    let r = full::<TopoSort<_>>(toposort(&g, src, dir(out)), &m, out, &s);
    ck!(r.n == 8);
    if m.links.len() == 17 { cover(0); }
    if m.links.len() == 6 { cover(1); }
}
}
