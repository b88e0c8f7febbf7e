//! Subgraph::copy_in_parent.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::view::CopySubgraphError;
use ::portgraph::view::Subgraph;
use std::collections::HashMap;

type Pair = (usize, usize);
fn real_links<V: LinkView<PortOffsetBase = u16>>(v: &V) -> Vec<Pair> {
    let mut r = vec![];
    for n in v.nodes_iter() {
        for (a, b) in v.output_links(n) {
            let (a, b): (P, P) = (a.into(), b.into());
            r.push((a.index(), b.index()));
        }
    }
    r.sort();
    r
}
fn judge<V: LinkView<PortOffsetBase = u16>>(g: &V, m: &MM, s: &[bool], map: &HashMap<N, N>) {
    let b = &m.b;
    let c = s.iter().filter(|x| **x).count();
    ck!(map.len() == c);
    ck!(g.node_count() == b.node_count() + c);
    let mut to = vec![NONE; s.len()];
    for n in 0..s.len() {
        if !s[n] { continue; }
        let Some(x) = map.get(&ni(n)) else { ck!(false); return };
        let x = x.index();
        ck!(!b.alive(x) && !to.contains(&x) && g.contains_node(ni(x)));
        to[n] = x;
        for out in [false, true] { ck!(g.num_ports(ni(x), dir(out)) == b.nports(n, out)); }
    }
    for n in 0..b.nodes.len() {
        for out in [false, true] {
            if b.alive(n) { for k in 0..b.nports(n, out) { ck!(pidx(g.port_index(ni(n), po(out, k))) == b.port(n, out, k)); } }
        }
    }
    let at = |p: usize| {
        let i = b.ports[p].unwrap();
        if !s[i.node] { return p; }
        let k = (0..b.nports(i.node, i.out)).find(|&k| b.port(i.node, i.out, k) == p).unwrap();
        pidx(g.port_index(ni(to[i.node]), po(i.out, k)))
    };
    let mut want: Vec<Pair> = m.links.iter().map(|l| (l.0 .0, l.1 .0)).collect();
    for l in &m.links {
        if s[m.node(l.0 .0)] || s[m.node(l.1 .0)] { want.push((at(l.0 .0), at(l.1 .0))); }
    }
    want.sort();
    ck!(g.link_count() == want.len());
    ck!(real_links(g) == want);
}
fn set(n: usize) -> Vec<bool> {
    let c = choose(below(1 << n));
    (0..n).map(|k| c >> k & 1 == 1).collect()
}
harnesses! {
p21_plain, covers = 3, bounds = "PortGraph of 3 (thorough 4) nodes, 3 links; every set of nodes; two hash orders: an isomorphic copy, or CantCopyBoundary exactly if a link crosses, which leaves nodes and links unchanged", {
    seed(choose(below(2)) * 0x36 + 0x11);
    let (mut g, mut m0) = plain(3);
    let m = of(&m0);
    let s = set(m.b.nodes.len());
    let cross = m.links.iter().any(|l| s[m.node(l.0 .0)] != s[m.node(l.1 .0)]);
    let r = Subgraph::with_nodes(&mut g, (0..s.len()).filter(|&n| s[n]).map(ni)).copy_in_parent();
    match r {
        Ok(map) => {
            ck!(!cross);
            judge(&g, &m, &s, &map);
            cover(0);
            if m.links.iter().any(|l| s[m.node(l.0 .0)] && m.node(l.0 .0) == m.node(l.1 .0)) { cover(2); }
        }
        Err(e) => {
            let CopySubgraphError::CantCopyBoundary { internal, external } = e else { ck!(false); return };
            let (i, x) = (internal.index(), external.index());
            ck!(m.links.iter().any(|l| (l.0 .0 == i && l.1 .0 == x) || (l.1 .0 == i && l.0 .0 == x)));
            ck!(s[m.node(i)] && !s[m.node(x)]);
            cover(1);
            m0.verify(&g);
            // and later use is unaffected
            m0.add(&mut g, 1, 0);
            m0.verify(&g);
        }
    }
    obs(cross as usize);
    obs_graph(&m0);
}
p21_wide, covers = 2, bounds = "PortGraph of 6 (thorough 7) nodes (1,1) in a chain, its ends linked or not, and one of the links missing or not; every set of nodes; two hash orders", {
    seed(choose(below(2)) * 0x36 + 0x11);
    let n = tier(6, 7);
    let mut g = G::new();
    let mut m0 = Model::new();
    for _ in 0..n { m0.add(&mut g, 1, 1); }
    let skip = choose(below(n));
    for k in 0..n - 1 { if k != skip { m0.link(&mut g, 2 * k + 1, 2 * k + 2); } }
    if any_bool() { m0.link(&mut g, 2 * n - 1, 0); }
    let m = of(&m0);
    let s = set(n);
    let cross = m.links.iter().any(|l| s[m.node(l.0 .0)] != s[m.node(l.1 .0)]);
    let r = Subgraph::with_nodes(&mut g, (0..n).filter(|&n| s[n]).map(ni)).copy_in_parent();
    ck!(r.is_err() == cross);
    match r {
        Ok(map) => { judge(&g, &m, &s, &map); if map.len() == 3 { cover(0); } }
        Err(_) => { m0.verify(&g); if s.iter().filter(|x| **x).count() == 4 { cover(1); } }
    }
    obs(cross as usize);
}
p21_multi, covers = 2, bounds = "MultiPortGraph of 3 nodes, 3 links from any output to any input; every set of nodes; two hash orders: copies of the inner links, and of the crossing links to the same outer port", {
    seed(choose(below(2)) * 0x36 + 0x11);
    let (mut g, m) = multi(3);
    let s = set(3);
    let r = Subgraph::with_nodes(&mut g, (0..3).filter(|&n| s[n]).map(ni)).copy_in_parent();
    let Ok(map) = r else { ck!(false); return };
    judge(&g, &m, &s, &map);
    if s[0] && s[1] && m.links.iter().all(|l| m.node(l.0 .0) == 0 && m.node(l.1 .0) == 1) { cover(0); }
    if m.links.iter().all(|l| s[m.node(l.0 .0)] && !s[m.node(l.1 .0)]) { cover(1); }
    m.obs();
}
p21_links, covers = 3, bounds = "PortGraph of nodes (4,4) (4,4) (1,1): each output of the first two linked to any input of its own offset or the opposite one of either, or not; every set of nodes; two hash orders", {
    seed(choose(below(2)) * 0x36 + 0x11);
    let mut g = G::new();
    let mut m0 = Model::new();
    for s in [4, 4, 1] { m0.add(&mut g, s, s); }
    let flip = any_bool();
    for k in 0..8 {
        let (x, i) = (k % 2, k / 2);
        let (a, y) = (m0.port(x, true, i), choose(below(3)));
        if y == 2 { continue; }
        let b = m0.port(y, false, if flip { 3 - i } else { i });
        assume(m0.link[b] == NONE);
        ck!(m0.link(&mut g, a, b));
    }
    let m = of(&m0);
    let s = [[true, true, false], [true, false, true], [false, true, false], [true, true, true]][choose(below(4))];
    let cross = m.links.iter().any(|l| s[m.node(l.0 .0)] != s[m.node(l.1 .0)]);
    let r = Subgraph::with_nodes(&mut g, (0..3).filter(|&n| s[n]).map(ni)).copy_in_parent();
    ck!(r.is_err() == cross);
    match r {
        Ok(map) => { judge(&g, &m, &s, &map); if m.links.len() == 8 { cover(0); } else if !s[1] && m.links.len() > 3 { cover(1); } }
        Err(_) => { m0.verify(&g); cover(2); }
    }
    obs(cross as usize);
}
p21_fan, covers = 2, bounds = "MultiPortGraph of 5 nodes (1,1): 5 links on one output and 4 on one input to any of 2 nodes each, double and self-links; every set of nodes; two hash orders", {
    seed(choose(below(2)) * 0x36 + 0x11);
    let mut g = MG::new();
    let mut m = MM::new();
    for _ in 0..5 { m.add(&mut g, 1, 1); }
    let mut add = |x: usize, y: usize| { let (a, b) = (m.b.port(x, true, 0), m.b.port(y, false, 0)); ck!(m.link(&mut g, a, b)); };
    for _ in 0..3 { add(2, 1 + choose(below(2))); }
    add(2, 4);
    add(2, 2);
    for _ in 0..3 { add(3 + choose(below(2)), 1); }
    add(0, 1);
    let s = set(5);
    let r = Subgraph::with_nodes(&mut g, (0..5).filter(|&n| s[n]).map(ni)).copy_in_parent();
    let Ok(map) = r else { ck!(false); return };
    judge(&g, &m, &s, &map);
    if map.len() == 5 { cover(0); }
    if map.len() == 1 && s[2] { cover(1); }
    m.obs();
}
}
