//! Convexity by line partition.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::boundary::Boundary;
use ::portgraph::algorithms::convex::{LineIndex, LineIntervals};
use ::portgraph::algorithms::{ConvexChecker, CreateConvexChecker, LineConvexChecker};
use ::portgraph::view::filter::NodeFiltered;

/// intervals as sorted (line, min, max)
fn iv(i: &LineIntervals) -> Vec<(u32, u32, u32)> {
    let mut v: Vec<_> = i.iter().map(|(l, x)| (l.0, x.min.0, x.max.0)).collect();
    v.sort();
    v
}
/// The lines: strictly increasing positions, and each link is one step of one line.
struct Lines {
    at: Vec<Vec<usize>>,
    pos: Vec<usize>,
}
fn lines<L: LinkView>(t: &LineConvexChecker<L>, m: &MM) -> Lines {
    let n = m.b.nodes.len();
    let mut at: Vec<Vec<usize>> = vec![];
    let mut pos = vec![0; n];
    for v in 0..n {
        if !m.b.alive(v) { continue; }
        pos[v] = t.get_position(ni(v)).0 as usize;
        let ls = t.get_lines(ni(v));
        ck!(!ls.is_empty());
        for (k, l) in ls.iter().enumerate() {
            ck!(!ls[..k].contains(l));
            let l = l.0 as usize;
            ck!(l < 64);
            while at.len() <= l { at.push(vec![]); }
            at[l].push(v);
        }
    }
    for l in &mut at {
        l.sort_by_key(|&v| pos[v]);
        for w in l.windows(2) { ck!(pos[w[0]] < pos[w[1]]); }
    }
    Lines { at, pos }
}
/// every step of a line is a link of its own, and these are all links
fn steps<L: LinkView>(t: &LineConvexChecker<L>, m: &MM, x: &Lines) {
    let mut used = vec![false; m.links.len()];
    for (k, l) in x.at.iter().enumerate() {
        ck!(!l.is_empty());
        let k = LineIndex(k as u32);
        for w in l.windows(2) {
            let u = (0..used.len()).find(|&i| {
                let (p, q) = (m.links[i].0 .0, m.links[i].1 .0);
                !used[i] && m.node(p) == w[0] && m.node(q) == w[1]
                    && t.lines_at_port(pi(p)).contains(&k) && t.lines_at_port(pi(q)).contains(&k)
            });
            ck!(u.is_some());
            used[u.unwrap()] = true;
        }
    }
    ck!(used.iter().all(|u| *u));
    for p in 0..m.b.ports.len() {
        if m.b.palive(p) { ck!(t.lines_at_port(pi(p)).len() == m.port_links(p).len()); }
    }
}
impl Lines {
    /// the intervals of the set, if contiguous on every line
    fn intervals(&self, s: &[bool]) -> Option<Vec<(u32, u32, u32)>> {
        let mut r = vec![];
        for (k, l) in self.at.iter().enumerate() {
            let h: Vec<usize> = (0..l.len()).filter(|&i| s[l[i]]).collect();
            if h.is_empty() { continue; }
            let (a, b) = (h[0], h[h.len() - 1]);
            if b - a + 1 != h.len() { return None; }
            r.push((k as u32, self.pos[l[a]] as u32, self.pos[l[b]] as u32));
        }
        Some(r)
    }
}
/// everything about the intervals of one set
fn judge<L: LinkView>(t: &LineConvexChecker<L>, m: &MM, x: &Lines, s: &[bool], l: Vec<N>) -> bool {
    let i = t.get_intervals_from_nodes(l);
    ck!(i.as_ref().map(iv) == x.intervals(s));
    let Some(i) = i else { return false };
    ck!(i.is_empty() == !s.contains(&true));
    ck!(t.is_convex_by_intervals(&i) == convex(m, s));
    let mut seen = vec![false; s.len()];
    let mut last = 0;
    for v in t.nodes_in_intervals(&i) {
        let v = v.index();
        ck!(s[v] && !seen[v] && x.pos[v] >= last);
        seen[v] = true;
        last = x.pos[v];
    }
    ck!(seen == s);
    true
}
fn extend<L: LinkView>(t: &LineConvexChecker<L>, m: &MM, x: &Lines, s: &[bool]) -> (bool, bool) {
    let Some(i) = t.get_intervals_from_nodes(members(s)) else { return (false, false) };
    let (mut yes, mut no) = (false, false);
    for v in 0..s.len() {
        if !m.b.alive(v) { continue; }
        let mut s2 = s.to_vec();
        s2[v] = true;
        let mut j = i.clone();
        match x.intervals(&s2) {
            Some(w) => { ck!(t.try_extend_intervals(&mut j, ni(v))); ck!(iv(&j) == w); yes = true; }
            None => { ck!(!t.try_extend_intervals(&mut j, ni(v))); ck!(iv(&j) == iv(&i)); no = true; }
        }
    }
    (yes, no)
}
harnesses! {
p27_dag, covers = 2, bounds = "every graph on 5 nodes acyclic by one of 2 (thorough 5) orders, every node set (the empty one included), given in either order", {
    let r = ranks(choose(below(tier(2, 5))), 5);
    let (g, m) = digraph(5, |i, j| r[i] < r[j]);
    let m = of(&m);
    let t = LineConvexChecker::new(&g);
    ck!(std::ptr::eq(*CreateConvexChecker::graph(&t), &g));
    let mut k = 0;
    for c in 0..32 {
        let s = bits(c, 5);
        let mut l = members(&s);
        if c & 1 == 0 { l.reverse(); }
        let w = convex(&m, &s);
        ck!(t.is_node_convex(l) == w);
        if w { k += 1; }
    }
    obs(k);
    if k == 32 && m.links.len() == 4 { cover(0); }
    if k < 18 { cover(1); }
}
p27_lines, covers = 3, bounds = "every graph on 4 nodes (thorough 5) acyclic by one order, every node set: lines partition the links, intervals of the set exactly if contiguous, their nodes and convexity, extension by any node", {
    let n = tier(4, 5);
    let (g, m) = digraph(n, |i, j| if n == 5 { ranks(1, 5)[i] < ranks(1, 5)[j] } else { i > j });
    let m = of(&m);
    let mut t = LineConvexChecker::new(&g);
    let x = lines(&t, &m);
    steps(&t, &m, &x);
    t.shrink_to_fit();
    for c in 0..1 << n {
        let s = bits(c, n);
        let mut l = members(&s);
        if c & 1 == 0 { l.reverse(); }
        if !judge(&t, &m, &x, &s, l) { cover(0); }
        let (y, n) = extend(&t, &m, &x, &s);
        if y { cover(1); }
        if n { cover(2); }
    }
    obs(x.at.len());
}
p27_ports, covers = 2, bounds = "acyclic PortGraph of 3 nodes with 2 ports each way (optionally one removed and another added) and 3 (thorough 4) links, parallel ones included, every node set, every set of its linked ports as inputs and outputs; lines and intervals", {
    let (mut g, mut m) = square(3, 2, tier(3, 4));
    if choose(below(2)) == 1 {
        let x = choose(below(3));
        m.remove(&mut g, x);
        m.add(&mut g, 1, 0);
        m.add(&mut g, 0, 0);
    }
    let m = of(&m);
    let n = m.b.nodes.len();
    assume(acyclic(n, &m.arcs()));
    let s = bits(choose(below(1 << n)), n);
    assume((0..n).all(|k| !s[k] || m.b.alive(k)));
    let t = LineConvexChecker::new_convex_checker(&g);
    let x = lines(&t, &m);
    steps(&t, &m, &x);
    judge(&t, &m, &x, &s, members(&s));
    let (i, o, direct) = any_io(&m, &s);
    let w = convex(&m, &s) && !direct;
    ck!(t.is_convex(members(&s), i, o) == w);
    obs(w as usize);
    if direct && convex(&m, &s) { cover(0); }
    if !direct && !w { cover(1); }
}
p27_multi, covers = 2, bounds = "acyclic MultiPortGraph of 4 nodes with one port each way and 3 (thorough 4) links, repeated ones included, every node set, every set of its linked ports as inputs and outputs; lines, intervals and extension", {
    let (g, m) = msquare(4, tier(3, 4), true);
    assume(acyclic(4, &m.arcs()));
    let s = bits(choose(below(16)), 4);
    let t = LineConvexChecker::new(&g);
    let x = lines(&t, &m);
    steps(&t, &m, &x);
    judge(&t, &m, &x, &s, members(&s));
    extend(&t, &m, &x, &s);
    let (i, o, direct) = any_io(&m, &s);
    let w = convex(&m, &s) && !direct;
    ck!(t.is_convex(members(&s), i, o) == w);
    obs(w as usize);
    if direct && convex(&m, &s) { cover(0); }
    if !direct && !w { cover(1); }
}
p27_long, covers = 2, bounds = "a chain of 10 (thorough 20) nodes whose links all run from one side, with one link skipping from any node to any later one and one spur from any node: any node set of two intervals, intervals and convexity", {
    let n = tier(10, 20);
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..n { m.add(&mut g, 2, 3); }
    m.add(&mut g, 1, 0);
    for k in 1..n { let (a, b) = (m.port(k - 1, true, 1), m.port(k, false, 1)); ck!(m.link(&mut g, a, b)); }
    let a = choose(below(n - 2));
    let b = choose(range(a + 1, n - 1));
    assume(b > a);
    let (p, q) = (m.port(a, true, 0), m.port(b, false, 0));
    ck!(m.link(&mut g, p, q));
    let c = choose(below(tier(2, n)));
    let c = if DEEP { c } else { c * 5 };
    let (p, q) = (m.port(c, true, 2), m.port(n, false, 0));
    ck!(m.link(&mut g, p, q));
    let m = of(&m);
    let t = LineConvexChecker::new(&g);
    let x = lines(&t, &m);
    let mut s = vec![false; n + 1];
    let lo = choose(below(n));
    let hi = choose(range(lo, n - 1));
    assume(hi >= lo);
    for k in lo..=hi { s[k] = true; }
    s[n] = any_bool();
    if any_bool() { s[a] = true; s[b] = true; }
    if !judge(&t, &m, &x, &s, members(&s)) { cover(0); }
    let w = convex(&m, &s);
    ck!(t.is_node_convex(members(&s)) == w);
    if w && hi > lo { cover(1); }
    obs(w as usize);
}
p27_gaps, covers = 1, bounds = "a chain of 7 nodes with two links from any places of a side chain of 9 to any of its nodes (lines with uneven gaps between positions): every node set of one interval of the chain plus any one node", {
    let (n, k) = (7, 9);
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..n + k { m.add(&mut g, 3, 3); }
    for i in (1..n + k).filter(|&i| i != n) { let (a, b) = (m.port(i - 1, true, 1), m.port(i, false, 1)); ck!(m.link(&mut g, a, b)); }
    let mut low = 1;
    for e in 0..2 {
        let (i, j) = (choose(range(low, n - 1)), choose(below(k)));
        assume(DEEP || (j + e) % 2 == 1);
        low = i;
        let (a, b) = (m.port(n + j, true, 2 * e), m.port(i, false, 2 * e));
        ck!(m.link(&mut g, a, b));
    }
    let m = of(&m);
    let t = LineConvexChecker::new(&g);
    let x = lines(&t, &m);
    if x.at.iter().any(|l| l.windows(2).filter(|w| x.pos[w[1]] > x.pos[w[0]] + 1).count() > 1) { cover(0); }
    for lo in 0..n {
        for hi in lo..n {
            let mut s = vec![false; n + k];
            for v in lo..=hi { s[v] = true; }
            s[(lo * 7 + hi * 5) % (n + k)] = true;
            judge(&t, &m, &x, &s, members(&s));
        }
    }
    obs(x.at.len());
}
p27_boundary, covers = 1, bounds = "every graph on 4 nodes acyclic by one order, every node set all of which is connected to its boundary: intervals from its boundary ports or boundary, again after those of any other set and after shrinking", {
    let (g, m) = digraph(4, |i, j| i > j);
    let m = of(&m);
    let s = bits(choose(below(16)), 4);
    let t = LineConvexChecker::new(&g);
    let x = lines(&t, &m);
    let edge: Vec<usize> = (0..m.b.ports.len()).filter(|&p| s[m.node(p)] && m.port_links(p).iter().any(|l| !s[m.node(l.1 .0)])).collect();
    let mut r = vec![false; 4];
    for &p in &edge { r[m.node(p)] = true; }
    for _ in 0..4 {
        for l in &m.links {
            let (a, b) = (m.node(l.0 .0), m.node(l.1 .0));
            if s[a] && s[b] && (r[a] || r[b]) { r[a] = true; r[b] = true; }
        }
    }
    assume(r == s && !edge.is_empty());
    ck!(t.get_intervals_from_boundary_ports(edge.iter().map(|&p| pi(p))).as_ref().map(iv) == x.intervals(&s));
    let b = Boundary::from_ports(&g, edge.iter().map(|&p| pi(p)));
    ck!(t.get_intervals_from_boundary(&b).as_ref().map(iv) == x.intervals(&s));
    // another set with the same checker, also after giving back its scratch space
    let mut t = t;
    if any_bool() { t.shrink_to_fit(); }
    let w = bits(choose(below(16)), 4);
    ck!(t.get_intervals_from_nodes(members(&w)).as_ref().map(iv) == x.intervals(&w));
    ck!(t.get_intervals_from_boundary(&b).as_ref().map(iv) == x.intervals(&s));
    if x.intervals(&s).is_none() { cover(0); }
    obs(edge.len());
}
p27_view, covers = 1, bounds = "a graph without one of its 5 nodes (filtered out), acyclic otherwise; every set of visible nodes", {
    let h = choose(below(5));
    let r = ranks(1, 5);
    let (g, m) = digraph(5, |i, j| i == h && j == 0 || r[i] < r[j] && (DEEP || r[j] - r[i] != 2));
    let hidden = ni(h);
    let v: NodeFiltered<&G, fn(N, &N) -> bool, N> = NodeFiltered::new_node_filtered(&g, |n, h| n != *h, hidden);
    let mut m = of(&m);
    m.links.retain(|l| m.b.ports[l.0 .0].unwrap().node != h && m.b.ports[l.1 .0].unwrap().node != h);
    let t = LineConvexChecker::new(&v);
    let mut k = 0;
    for c in 0..32 {
        if c >> h & 1 == 1 { continue; }
        let s = bits(c, 5);
        let w = convex(&m, &s);
        ck!(t.is_node_convex(members(&s)) == w);
        if w { k += 1; }
    }
    obs(k);
    if k < 13 { cover(0); }
}
}
