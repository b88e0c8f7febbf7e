//! Convexity by topological order.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::algorithms::{ConvexChecker, CreateConvexChecker, TopoConvexChecker};
use ::portgraph::view::filter::NodeFiltered;

harnesses! {
p26_dag, covers = 2, bounds = "every graph on 5 nodes acyclic by one of 2 (thorough 5) orders, every node set, given in either order", {
    let r = ranks(choose(below(tier(2, 5))), 5);
    let (g, m) = digraph(5, |i, j| r[i] < r[j]);
    let m = of(&m);
    let t = TopoConvexChecker::new(&g);
    ck!(std::ptr::eq(*CreateConvexChecker::graph(&t), &g));
    let mut k = 0;
    for c in 0..32 {
        let s = bits(c, 5);
        let mut l = members(&s);
        if c & 1 == 0 { l.reverse(); }
        let w = convex(&m, &s);
        ck!(t.is_node_convex(l) == w);
        if w { k += 1; }
    }
    obs(k);
    if k == 32 && m.links.len() == 4 { cover(0); }
    if k < 18 { cover(1); }
}
p26_ports, covers = 2, bounds = "acyclic PortGraph of 3 nodes with 2 ports each way (optionally one removed and another added) and 3 (thorough 4) links, parallel ones included, every node set, every set of its linked ports as inputs and outputs", {
    let (mut g, mut m) = square(3, 2, tier(3, 4));
    if choose(below(2)) == 1 {
        let x = choose(below(3));
        m.remove(&mut g, x);
        m.add(&mut g, 1, 0);
        m.add(&mut g, 0, 0);
    }
    let m = of(&m);
    let n = m.b.nodes.len();
    assume(acyclic(n, &m.arcs()));
    let s = bits(choose(below(1 << n)), n);
    assume((0..n).all(|k| !s[k] || m.b.alive(k)));
    let (i, o, direct) = any_io(&m, &s);
    let t = TopoConvexChecker::new_convex_checker(&g);
    let w = convex(&m, &s) && !direct;
    ck!(t.is_convex(members(&s), i, o) == w);
    obs(w as usize);
    if direct && convex(&m, &s) { cover(0); }
    if !direct && !w { cover(1); }
}
p26_multi, covers = 2, bounds = "acyclic MultiPortGraph of 4 nodes with one port each way and 3 (thorough 4) links, repeated ones included, every node set, every set of its linked ports as inputs and outputs", {
    let (g, m) = msquare(4, tier(3, 4), true);
    assume(acyclic(4, &m.arcs()));
    let s = bits(choose(below(16)), 4);
    let (i, o, direct) = any_io(&m, &s);
    let t = TopoConvexChecker::new(&g);
    let w = convex(&m, &s) && !direct;
    ck!(t.is_convex(members(&s), i, o) == w);
    obs(w as usize);
    if direct && convex(&m, &s) { cover(0); }
    if !direct && !w { cover(1); }
}
p26_view, covers = 1, bounds = "a graph without one of its 5 nodes (filtered out), acyclic otherwise; every set of visible nodes", {
    let h = choose(below(5));
    let r = ranks(1, 5);
    let (g, m) = digraph(5, |i, j| i == h && j == 0 || r[i] < r[j] && (DEEP || r[j] - r[i] != 2));
    let hidden = ni(h);
    let v: NodeFiltered<&G, fn(N, &N) -> bool, N> = NodeFiltered::new_node_filtered(&g, |n, h| n != *h, hidden);
    let mut m = of(&m);
    m.links.retain(|l| m.b.ports[l.0 .0].unwrap().node != h && m.b.ports[l.1 .0].unwrap().node != h);
    let t = TopoConvexChecker::new(&v);
    let mut k = 0;
    for c in 0..32 {
        if c >> h & 1 == 1 { continue; }
        let s = bits(c, 5);
        let w = convex(&m, &s);
        ck!(t.is_node_convex(members(&s)) == w);
        if w { k += 1; }
    }
    obs(k);
    if k < 13 { cover(0); }
}
p26_long, covers = 2, bounds = "PortGraph of 10 nodes in a line by one of 3 orders, each of 5 skipping links there or not: the sets of any one interval, of two intervals, and of every second node", {
    let r = match choose(below(3)) { 0 => (0..10).collect::<Vec<_>>(), 1 => (0..10).rev().collect(), _ => vec![3, 8, 1, 9, 0, 4, 7, 2, 6, 5] };
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..10 { m.add(&mut g, 10, 10); }
    let mut add = |i: usize, j: usize| {
        let (a, b) = (m.port(r[i], true, j), m.port(r[j], false, i));
        ck!(m.link(&mut g, a, b));
    };
    for k in 0..9 { if k != 6 { add(k, k + 1); } }
    for (i, j) in [(0, 9), (2, 5), (1, 7), (6, 8), (6, 7)] { if choose(below(2)) == 1 { add(i, j); } }
    let m = of(&m);
    let t = TopoConvexChecker::new(&g);
    let (mut yes, mut no) = (0, 0);
    let mut ask = |s: &[bool]| {
        let mut q = vec![false; 10];
        for k in 0..10 { if s[k] { q[r[k]] = true; } }
        let w = convex(&m, &q);
        ck!(t.is_node_convex(members(&q)) == w);
        if w { yes += 1 } else { no += 1 }
    };
    for a in 0..10 {
        for b in a..10 {
            let s: Vec<bool> = (0..10).map(|k| a <= k && k <= b).collect();
            ask(&s);
            let t: Vec<bool> = (0..10).map(|k| s[k] || k == (a + b) % 10).collect();
            if t != s { ask(&t); }
            let t: Vec<bool> = (0..10).map(|k| s[k] && k % 2 == b % 2).collect();
            ask(&t);
        }
    }
    obs(yes);
    if yes > 85 { cover(0); }
    if no > 60 { cover(1); }
}
}
