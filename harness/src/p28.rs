//! Convexity with an order kept up to date.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::algorithms::{ConvexChecker, DynamicTopoConvexChecker};

type D = DynamicTopoConvexChecker<G>;
/// every node set: convex exactly if no path leaves and re-enters it
fn sets<L: PortView + LinkView>(d: &DynamicTopoConvexChecker<L>, m: &MM) -> usize {
    let n = m.b.nodes.len();
    let mut k = 0;
    for c in 0..1 << n {
        let s = bits(c, n);
        let live = (0..n).all(|v| !s[v] || m.b.alive(v));
        // sets with absent nodes are never convex
        let w = live && convex(m, &s);
        ck!(d.is_convex(members(&s), [], []) == w);
        if w { k += 1; }
    }
    obs(k);
    k
}
fn path(m: &MM, a: usize, b: usize) -> bool {
    let mut r = vec![false; m.b.nodes.len()];
    r[a] = true;
    for _ in 0..r.len() {
        for (x, y) in m.arcs() { if r[x] { r[y] = true; } }
    }
    r[b]
}
/// Link `p` and `q` (any order) in checker and model; panics exactly for a cycle.
fn link(d: &mut D, m: &mut Model, p: usize, q: usize) -> bool {
    let (a, b) = if m.ports[p].unwrap().out { (p, q) } else { (q, p) };
    let free = m.link[p] == NONE && m.link[q] == NONE;
    let ok = free && m.ports[p].unwrap().out != m.ports[q].unwrap().out;
    let cyc = path(&of(m), m.ports[b].unwrap().node, m.ports[a].unwrap().node);
    // a refused link that would also close a cycle may do either
    assume(ok || !cyc);
    if cyc {
        expect_panic(true);
        let _ = d.link_ports(pi(p), pi(q));
        expect_panic(false);
        ck!(false);
    }
    let r = d.link_ports(pi(p), pi(q));
    ck!(r.is_ok() == ok);
    if ok { m.set_link(p, q); }
    ok
}
/// the graph below is the model
fn verify(d: &D, m: &Model) {
    m.verify_basic(d);
    m.verify_links(d);
}
fn op(d: &mut D, m: &mut Model, k: usize) -> bool {
    match k {
        0 => {
            let (p, q) = (choose(below(m.ports.len())), choose(below(m.ports.len())));
            assume(p != q && m.palive(p) && m.palive(q));
            link(d, m, p, q);
        }
        1 => {
            let p = choose(below(m.ports.len()));
            assume(m.palive(p));
            let was = m.link[p];
            ck!(pidx(d.unlink_port(pi(p))) == was);
            if was != NONE { m.cut(p); }
        }
        2 => {
            // any node, absent or unknown ones included
            let x = choose(below(m.nodes.len() + 1));
            d.remove_node(ni(x));
            if m.alive(x) { m.removed(x); }
        }
        3 => {
            let n = d.add_node(1, 1);
            m.added(&*d, n.index(), 1, 1);
        }
        4 => {
            let (a, b) = (choose(below(m.nodes.len())), choose(below(m.nodes.len())));
            d.swap_nodes(ni(a), ni(b));
            m.swapped(a, b);
        }
        5 => {
            let mut ren = vec![];
            d.compact_nodes(|a, b| ren.push((a.index(), b.index())));
            m.nodes_compacted(&ren);
        }
        6 => {
            let mut ren = vec![];
            d.compact_ports(|a, b| ren.push((a.index(), b.index())));
            m.ports_compacted(&ren);
        }
        7 => { d.clear(); m.clear(); }
        8 => {
            let x = choose(below(m.nodes.len()));
            assume(m.alive(x));
            let (i, o) = shape(choose(below(3)));
            let (mut moved, mut gone) = (vec![], vec![]);
            d.set_num_ports(ni(x), i, o, |p, op| match op {
                PortOperation::Removed { old_link } => gone.push((p.index(), pidx(old_link))),
                PortOperation::Moved { new_index } => moved.push((p.index(), new_index.index())),
            });
            m.resized(&*d, x, i, o, &moved, &gone, true);
        }
        _ => { d.reserve(2, 3); d.shrink_to_fit(); }
    }
    true
}
harnesses! {
p28_new, covers = 2, bounds = "checker made of every graph on 4 nodes acyclic by one of 3 (thorough 5 nodes, 5) orders: every node set", {
    let n = tier(4, 5);
    let r = if n == 5 { ranks(choose(below(5)), 5) } else { match choose(below(3)) { 0 => vec![0, 1, 2, 3], 1 => vec![3, 2, 1, 0], _ => vec![2, 0, 3, 1] } };
    let (g, m) = digraph(n, |i, j| r[i] < r[j]);
    let m = of(&m);
    let k = sets(&DynamicTopoConvexChecker::new(&g), &m);
    if k == 1 << n && m.links.len() > 2 { cover(0); }
    if k == n * (n + 1) / 2 + 1 { cover(1); }
}
p28_links, covers = 3, bounds = "4 nodes with 1 port each way (thorough 2 out), any 2 (thorough 3) links from free ports, by either end, then one of any two ports (linked or of equal directions too): a cycle panics, otherwise links as without checker; every node set after each", {
    let mut d = D::new(G::new());
    let mut m = Model::new();
    for _ in 0..4 {
        let n = d.add_node(1, tier(1, 2));
        m.added(&d, n.index(), 1, tier(1, 2));
    }
    for k in 0..tier(2, 3) {
        let (p, q) = (choose(below(m.ports.len())), choose(below(m.ports.len())));
        assume(m.link[p] == NONE && m.link[q] == NONE && m.ports[p].unwrap().out && !m.ports[q].unwrap().out);
        if k == 0 { link(&mut d, &mut m, q, p) } else { link(&mut d, &mut m, p, q) };
        sets(&d, &of(&m));
    }
    let before = m.link_count();
    op(&mut d, &mut m, 0);
    sets(&d, &of(&m));
    if m.link_count() == before { cover(0); }
    verify(&d, &m);
    if m.link_count() >= 3 { cover(1); }
    if m.link_count() == 2 { cover(2); }
}
p28_order, covers = 2, bounds = "5 nodes, every sequence of 4 (thorough 5) different links out of those acyclic by one order (thorough: any of 4) which is not that of the nodes: every node set at the end", {
    let r = ranks(1 + choose(below(tier(1, 4))), 5);
    let mut d = D::new(G::new());
    let mut m = Model::new();
    for _ in 0..5 { let n = d.add_node(5, 5); m.added(&d, n.index(), 5, 5); }
    for _ in 0..tier(4, 5) {
        let x = choose(below(10));
        // x-th pair by rank
        let mut y = x;
        let mut a = 0;
        while y >= 4 - a { y -= 4 - a; a += 1; }
        let at = |k: usize| (0..5).find(|&i| r[i] == k).unwrap();
        let (i, j) = (at(a), at(a + 1 + y));
        let (p, q) = (m.port(i, true, j), m.port(j, false, i));
        assume(m.link[p] == NONE);
        ck!(link(&mut d, &mut m, p, q));
    }
    let k = sets(&d, &of(&m));
    if k == 32 { cover(0); }
    if k < 24 { cover(1); }
}
p28_history, covers = 2, bounds = "3 linked nodes in a chain or apart, 2 operations out of linking, unlinking, removing, adding, swapping, compacting, clearing, resizing, reserving, then one link: graph as without checker, every node set after each", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..3 { m.add(&mut g, 1, 1); }
    if any_bool() {
        let (p, q) = (m.port(2, true, 0), m.port(0, false, 0));
        ck!(m.link(&mut g, p, q));
        let (p, q) = (m.port(0, true, 0), m.port(1, false, 0));
        ck!(m.link(&mut g, p, q));
    }
    let mut d = D::new(g);
    for _ in 0..tier(2, 3) {
        let k = choose(below(10));
        op(&mut d, &mut m, k);
        verify(&d, &m);
        sets(&d, &of(&m));
    }
    // one more link out of the first free ports
    let (p, q) = (choose(below(m.ports.len())), choose(below(m.ports.len())));
    assume(m.palive(p) && m.palive(q) && m.ports[p].unwrap().out && !m.ports[q].unwrap().out && m.link[p] == NONE && m.link[q] == NONE);
    ck!(link(&mut d, &mut m, p, q));
    verify(&d, &m);
    let k = sets(&d, &of(&m));
    if k == 8 { cover(0); }
    if k == 7 && m.nodes.len() == 3 { cover(1); }
}
p28_io, covers = 2, bounds = "acyclic MultiPortGraph of 4 nodes with one port each way and 3 (thorough 4) links, repeated ones included, every node set, every set of its linked ports as inputs and outputs", {
    let (g, m) = msquare(4, tier(3, 4), true);
    assume(acyclic(4, &m.arcs()));
    let s = bits(choose(below(16)), 4);
    let (i, o, direct) = any_io(&m, &s);
    let d = DynamicTopoConvexChecker::new(&g);
    let w = convex(&m, &s) && !direct;
    ck!(d.is_convex(members(&s), i, o) == w);
    obs(w as usize);
    if direct && convex(&m, &s) { cover(0); }
    if !direct && !w { cover(1); }
}
p28_large, covers = 2, bounds = "8 nodes linked to a line in one of 4 orders of linking and of numbering, with each of 4 skipping links between; then one link cut or a node removed, and a link the other way where possible: every set of one interval, with one more node, or every second", {
    let mut d = D::new(G::new());
    let mut m = Model::new();
    for _ in 0..8 { let n = d.add_node(3, 3); m.added(&d, n.index(), 3, 3); }
    let r: Vec<usize> = match choose(below(4)) { 0 => (0..8).collect(), 1 => (0..8).rev().collect(), 2 => vec![3, 7, 1, 5, 0, 4, 6, 2], _ => vec![4, 0, 5, 1, 6, 2, 7, 3] };
    let o: [usize; 7] = [[0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [3, 0, 6, 1, 5, 2, 4], [1, 3, 5, 0, 2, 4, 6]][choose(below(4))];
    let add = |d: &mut D, m: &mut Model, i: usize, j: usize, k: usize| { let (a, b) = (m.port(r[i], true, k), m.port(r[j], false, k)); ck!(link(d, m, a, b)); };
    let c = any_bits(4);
    for (n, k) in o.into_iter().enumerate() {
        add(&mut d, &mut m, k, k + 1, 0);
        if n % 2 == 0 && c >> (n / 2) & 1 == 1 { let (i, j) = [(0, 7), (3, 5), (2, 4), (1, 6)][n / 2]; add(&mut d, &mut m, i, j, 1); }
    }
    let w = choose(below(3));
    let at = 1 + c % 6;
    if w == 1 { let p = m.port(r[at], true, 0); ck!(pidx(d.unlink_port(pi(p))) == m.link[p]); m.cut(p); }
    if w == 2 { d.remove_node(ni(r[at])); m.removed(r[at]); }
    if w > 0 {
        let (a, b) = (r[7], r[0]);
        if !path(&of(&m), b, a) { let (p, q) = (m.port(a, true, 2), m.port(b, false, 2)); ck!(link(&mut d, &mut m, p, q)); cover(0); }
    }
    verify(&d, &m);
    let m = of(&m);
    let mut yes = 0;
    for a in 0..8 {
        for b in a..8 {
            for more in [0, 1, 2] {
                let mut s = vec![false; 8];
                for k in a..=b { if more < 2 || k % 2 == b % 2 { s[r[k]] = true; } }
                if more == 1 { s[r[(a + b) % 8]] = true; }
                let want = (0..8).all(|v| !s[v] || m.b.alive(v)) && convex(&m, &s);
                ck!(d.is_convex(members(&s), [], []) == want);
                if want { yes += 1; }
            }
        }
    }
    obs(yes);
    if w == 0 && yes > 60 { cover(1); }
}
}
