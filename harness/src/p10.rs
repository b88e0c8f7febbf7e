//! insert_graph: an isomorphic copy, next to what was there.
use crate::forest::*;
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::view::filter::{LinkFilter, NodeFilter};
use ::portgraph::view::{FilteredGraph, FlatRegion, Region, Subgraph};
use std::collections::HashMap;

type Pair = (usize, usize);
fn pairs_of(m: &MM) -> Vec<Pair> {
    let mut v: Vec<Pair> = m.links.iter().map(|l| (l.0 .0, l.1 .0)).collect();
    v.sort();
    v
}
/// all links of a graph as (output, input)
fn real_links<V: LinkView<PortOffsetBase = u16>>(v: &V) -> Vec<Pair> {
    let mut r = vec![];
    for n in v.nodes_iter() {
        for (a, b) in v.output_links(n) {
            let (a, b): (P, P) = (a.into(), b.into());
            r.push((a.index(), b.index()));
        }
    }
    r.sort();
    r
}
/// `g` holds what `m` had, and a copy of the shown part of `src` under `map`.
fn judge<V: LinkView<PortOffsetBase = u16>>(g: &V, m: &MM, src: &Part, map: &HashMap<N, N>) {
    let c = src.count();
    ck!(map.len() == c);
    ck!(g.node_count() == m.b.node_count() + c);
    ck!(g.port_count() == m.b.port_count() + src.nports());
    // the new nodes are new and distinct
    let mut to = vec![NONE; src.nodes.len()];
    for n in 0..src.nodes.len() {
        if !src.has(n) { continue; }
        let Some(x) = map.get(&ni(n)) else { ck!(false); return };
        let x = x.index();
        ck!(!m.b.alive(x) && !to.contains(&x) && g.contains_node(ni(x)));
        to[n] = x;
        for out in [false, true] { ck!(g.num_ports(ni(x), dir(out)) == src.m.b.nports(n, out)); }
    }
    for n in 0..m.b.nodes.len() {
        if m.b.alive(n) {
            for out in [false, true] {
                ck!(g.num_ports(ni(n), dir(out)) == m.b.nports(n, out));
                for k in 0..m.b.nports(n, out) { ck!(pidx(g.port_index(ni(n), po(out, k))) == m.b.port(n, out, k)); }
            }
        }
    }
    let at = |p: usize| {
        let i = src.m.b.ports[p].unwrap();
        let i_out = i.out;
        let k = (0..src.m.b.nports(i.node, i_out)).find(|&k| src.m.b.port(i.node, i_out, k) == p).unwrap();
        pidx(g.port_index(ni(to[i.node]), po(i_out, k)))
    };
    let mut want = pairs_of(m);
    for l in &src.m.links { want.push((at(l.0 .0), at(l.1 .0))); }
    want.sort();
    ck!(g.link_count() == want.len());
    ck!(real_links(g) == want);
}
/// a target graph with holes (reused from the highest or from the lowest) and a link
fn target() -> (G, Model) {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    m.add(&mut g, 0, 2);
    let out = m.port(0, true, 0);
    let inp = m.port(2, false, 1);
    m.link(&mut g, out, inp);
    match choose(below(3)) {
        0 => {}
        1 => { m.remove(&mut g, 1); m.remove(&mut g, 3); }
        _ => { m.remove(&mut g, 3); m.remove(&mut g, 1); }
    }
    (g, m)
}
fn mtarget() -> (MG, MM) {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    let out = m.b.port(0, true, 0);
    let i0 = m.b.port(0, false, 0);
    let i2 = m.b.port(2, false, 0);
    m.link(&mut g, out, i2);
    m.link(&mut g, out, i0);
    match choose(below(3)) {
        0 => {}
        1 => { m.remove(&mut g, 1); m.remove(&mut g, 3); }
        _ => { m.remove(&mut g, 3); m.remove(&mut g, 1); }
    }
    (g, m)
}
#[derive(Clone, Copy)]
struct Ctx { n: usize, p: usize }
fn nf(n: N, c: &Ctx) -> bool { c.n >> n.index() & 1 == 1 }
fn pf(p: P, c: &Ctx) -> bool { c.p >> p.index() & 1 == 1 }
type FG<'a> = FilteredGraph<&'a G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx>;
harnesses! {
p10_plain, covers = 2, bounds = "a PortGraph of 3 (thorough 4) nodes with 3 links (self-links included), optionally one node removed, into a PortGraph with no or two free slots, the lower or the higher one reused first", {
    let (mut s, mut sm) = plain(3);
    sm.remove(&mut s, choose(below(sm.nodes.len() + 1)));
    let sm = of(&sm);
    let (mut g, m) = target();
    let r = g.insert_graph(&s);
    let Ok(map) = r else { ck!(false); return };
    let part = Part::new(&sm, (0..sm.b.nodes.len()).map(|n| sm.b.alive(n)).collect(), |_| true);
    judge(&g, &of(&m), &part, &map);
    if sm.links.iter().any(|l| sm.node(l.0 .0) == sm.node(l.1 .0)) { cover(0); }
    if part.count() == 2 { cover(1); }
    part.obs();
}
p10_filtered, covers = 1, bounds = "a filtered view of a PortGraph of 3 (thorough 4) nodes with 2 links, every set of hidden nodes and ports, into a PortGraph", {
    let (s, sm) = plain(2);
    let sm = of(&sm);
    let c = Ctx { n: choose(below(1 << sm.b.nodes.len())), p: below(1 << sm.b.ports.len()) };
    let v: FG = FilteredGraph::new(&s, nf, pf, c);
    let part = Part::new(&sm, (0..sm.b.nodes.len()).map(|n| c.n >> n & 1 == 1).collect(), |l| c.p >> l.0 .0 & 1 == 1 && c.p >> l.1 .0 & 1 == 1);
    let (mut g, m) = target();
    let Ok(map) = g.insert_graph(&v) else { ck!(false); return };
    judge(&g, &of(&m), &part, &map);
    if part.count() == 2 && part.m.links.len() == 1 { cover(0); }
    part.obs();
}
p10_views, covers = 3, bounds = "a Region, FlatRegion or Subgraph of a PortGraph of 3 (thorough 4) nodes with 2 links, every forest or node set, into a MultiPortGraph", {
    let (s, sm) = plain(2);
    let sm = of(&sm);
    let n = sm.b.nodes.len();
    let (mut g, m) = mtarget();
    let which = choose(below(4));
    let nodes: Vec<bool>;
    let r;
    if which == 3 {
        let c = choose(below(1 << n));
        nodes = (0..n).map(|k| c >> k & 1 == 1).collect();
        r = g.insert_graph(&Subgraph::with_nodes(&s, (0..n).filter(|&k| nodes[k]).map(ni)));
        cover(0);
    } else {
        let mut h = Hierarchy::new();
        let mut f = F::new(n);
        for j in 1..n {
            let p = choose(below(j + 1));
            if p < j { f.push(&mut h, j, p, false); }
        }
        let root = choose(below(n));
        let mut v = if which == 0 { f.bfs(root) } else { f.kids[root].clone() };
        if which == 1 { v.push(root); }
        nodes = (0..n).map(|k| v.contains(&k)).collect();
        r = match which {
            0 => g.insert_graph(&Region::new(&s, &h, ni(root))),
            1 => g.insert_graph(&FlatRegion::new_with_root(&s, &h, ni(root))),
            _ => g.insert_graph(&FlatRegion::new_without_root(&s, &h, ni(root))),
        };
        cover(1);
    }
    let Ok(map) = r else { ck!(false); return };
    let part = Part::new(&sm, nodes, |_| true);
    judge(&g, &m, &part, &map);
    if part.m.links.len() == 2 { cover(2); }
    part.obs();
}
p10_multi, covers = 1, bounds = "a MultiPortGraph of 3 nodes with 3 links from any output to any input into a MultiPortGraph", {
    let (s, sm) = multi(3);
    let (mut g, m) = mtarget();
    let Ok(map) = g.insert_graph(&s) else { ck!(false); return };
    let part = Part::new(&sm, vec![true; 3], |_| true);
    judge(&g, &m, &part, &map);
    if sm.links.iter().all(|l| l.0 .0 == sm.links[0].0 .0) { cover(0); }
    part.obs();
}
p10_into_plain, covers = 2, bounds = "a MultiPortGraph of 3 nodes with 2 links into a PortGraph: a copy, or AlreadyLinked exactly if a port has several links; existing nodes and links untouched either way", {
    let (s, sm) = multi(2);
    let (mut g, m) = target();
    let m = of(&m);
    let many = (0..sm.b.ports.len()).any(|p| sm.port_links(p).len() > 1);
    let part = Part::new(&sm, vec![true; 3], |_| true);
    match g.insert_graph(&s) {
        Ok(map) => { ck!(!many); judge(&g, &m, &part, &map); cover(0); }
        Err(e) => {
            ck!(many && matches!(e, LinkError::AlreadyLinked { .. }));
            for l in &m.links { ck!(pidx(g.port_link(pi(l.0 .0))) == l.1 .0 && pidx(g.port_link(pi(l.1 .0))) == l.0 .0); }
            cover(1);
        }
    }
    part.obs();
}
p10_large, covers = 3, bounds = "PortGraph of 8 nodes in a chain with skipping links and a self-link, every set of nodes removed, its shown part under any of 8 hidden sets, into a PortGraph or MultiPortGraph of 6 nodes three of which were removed", {
    let mut s = G::new();
    let mut sm = Model::new();
    for k in 0..8 { sm.add(&mut s, 2, 2 + k % 2); }
    for k in 0..7 { let (a, b) = (sm.port(k, true, 0), sm.port(k + 1, false, 0)); sm.link(&mut s, a, b); }
    for (x, y) in [(0, 2), (5, 1), (4, 4), (7, 6)] { let (a, b) = (sm.port(x, true, 1), sm.port(y, false, 1)); sm.link(&mut s, a, b); }
    let c = choose(below(256));
    for k in 0..8 { if c >> k & 1 == 1 { sm.remove(&mut s, k); } }
    let n = [255, 0b1010_1111, 0b0111_0110][choose(below(3))];
    let ctx = Ctx { n, p: usize::MAX };
    let v: FG = FilteredGraph::new(&s, nf, pf, ctx);
    let sm = of(&sm);
    let part = Part::new(&sm, (0..8).map(|k| n >> k & 1 == 1 && sm.b.alive(k)).collect(), |_| true);
    let gone = [[1, 2, 4], [5, 3, 1]][choose(below(2))];
    let ok = if choose(below(2)) == 0 {
        let mut g = G::new();
        let mut m = Model::new();
        for k in 0..6 { m.add(&mut g, 1 + k % 2, 2); }
        for k in 0..5 { let (a, b) = (m.port(k, true, 1), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
        for k in gone { m.remove(&mut g, k); }
        match g.insert_graph(&v) { Ok(map) => { judge(&g, &of(&m), &part, &map); true } Err(_) => false }
    } else {
        let mut g = MG::new();
        let mut m = MM::new();
        for k in 0..6 { m.add(&mut g, 1 + k % 2, 2); }
        for k in 0..5 { let (a, b) = (m.b.port(k, true, 1), m.b.port(k + 1, false, 0)); m.link(&mut g, a, b); m.link(&mut g, b, a); }
        for k in gone { m.remove(&mut g, k); }
        match g.insert_graph(&v) { Ok(map) => { judge(&g, &m, &part, &map); true } Err(_) => false }
    };
    ck!(ok);
    if part.count() == 8 { cover(0); }
    if part.count() == 0 { cover(1); }
    if part.m.links.len() == 6 { cover(2); }
    part.obs();
}
}
