//! Hierarchy: renaming nodes, capacity.
use crate::forest::*;
use crate::sym::*;
use crate::util::*;
use ::portgraph::Hierarchy;
harnesses! {
p15_swap, covers = 1, bounds = "any ordered forest on 4 nodes, any two nodes swapped (also equal ones or one never used); then any two again", {
    let mut h = Hierarchy::new();
    let mut f = F::new(5);
    grow(&mut h, &mut f, 3);
    for _ in 0..2 {
        let (a, b) = (choose(below(5)), choose(below(5)));
        f.swap(&mut h, a, b);
    }
    f.verify(&h);
    cover(0);
    f.obs();
}
p15_rekey, covers = 2, bounds = "any ordered forest on 4 nodes (or a node detached again), any node renamed to any other slot: panics exactly on an occupied one", {
    let mut h = Hierarchy::new();
    let mut f = F::new(6);
    grow(&mut h, &mut f, 3);
    if choose(below(2)) == 1 { f.remove(&mut h, choose(below(4))); }
    let (a, b) = (choose(below(6)), choose(below(6)));
    if a != b && !f.free(b) { expect_panic(true); cover(0); }
    f.rekey(&mut h, a, b);
    expect_panic(false);
    f.verify(&h);
    cover(1);
    f.obs();
}
p15_shrink, covers = 2, bounds = "any ordered forest on 4 nodes, shrink_to(0..=5) and/or ensure_capacity(5 | 9): exactly the nodes beyond are disconnected; then one more attachment attempt", {
    let mut h = Hierarchy::new();
    let mut f = F::new(4);
    grow(&mut h, &mut f, 3);
    let e = [0, 5, 9][choose(below(3))];
    if e > 0 { h.ensure_capacity(e); f.verify(&h); }
    let c = choose(below(6));
    h.shrink_to(c);
    for n in (c..4).rev() { f.orphan(n); f.cut(n); }
    f.verify(&h);
    if c < 4 { cover(0); }
    any_attach(&mut h, &mut f);
    f.verify(&h);
    cover(1);
    f.obs();
}
p15_follow, covers = 1, bounds = "a graph of 4 nodes with a hierarchy over it (any ordered forest), up to two nodes removed from both, then compact_nodes propagated with rekey and shrink_to: the hierarchy keeps its shape under the renaming", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..4 { m.add(&mut g, 1, 0); }
    let mut h = Hierarchy::new();
    let mut f = F::new(4);
    grow(&mut h, &mut f, 3);
    for _ in 0..2 {
        let r = choose(below(5));
        if r < 4 { g.remove_node(ni(r)); f.remove(&mut h, r); m.removed(r); }
    }
    let mut map: Vec<usize> = (0..4).collect();
    g.compact_nodes(|a, b| { h.rekey(a, b); map[a.index()] = b.index(); });
    h.shrink_to(g.node_count());
    let k = g.node_count();
    let mut f2 = F::new(k);
    for n in 0..4 {
        if !m.alive(n) { continue; }
        f2.parent[map[n]] = if f.parent[n] == NONE { NONE } else { map[f.parent[n]] };
        f2.kids[map[n]] = f.kids[n].iter().map(|&c| map[c]).collect();
    }
    f2.verify(&h);
    cover(0);
    f2.obs();
}
p15_eq, covers = 2, bounds = "two ordered forests on 3 nodes (second one built in either way, with spare capacity or a node attached and detached again): equal exactly when they describe the same forest; clones are equal and independent", {
    let (mut h1, mut h2) = (Hierarchy::new(), Hierarchy::new());
    let (mut f1, mut f2) = (F::new(4), F::new(4));
    grow(&mut h1, &mut f1, 2);
    grow(&mut h2, &mut f2, 2);
    match choose(below(4)) {
        0 => {}
        1 => h2.ensure_capacity(7),
        2 => h2.shrink_to(3),
        _ => { f2.push(&mut h2, 3, 0, false); f2.detach(&mut h2, 3); }
    }
    let eq = f1.parent == f2.parent && f1.kids == f2.kids;
    ck!((h1 == h2) == eq);
    if eq { cover(0); } else { cover(1); }
    let mut c = h1.clone();
    ck!(c == h1);
    c.remove(ni(choose(below(3))));
    f1.verify(&h1);
    f1.obs();
}
p15_large, covers = 3, bounds = "a tree of 12 nodes, 5 children below the root and a chain 5 deep, 3 free slots: any two slots swapped, then any node renamed to any free slot; or shrunk to any size", {
    let mut h = Hierarchy::new();
    let mut f = F::new(15);
    for (k, p) in [(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 1), (7, 6), (8, 7), (9, 8), (10, 3), (11, 3)] { f.push(&mut h, k, p, k % 3 == 0); }
    if choose(below(2)) == 0 {
        let (a, b) = (choose(below(15)), choose(below(13)));
        f.swap(&mut h, a, b);
        f.verify(&h);
        let (a, b) = (choose(below(13)), 12 + choose(below(3)));
        assume(f.free(b));
        f.rekey(&mut h, a, b);
        f.verify(&h);
        if a == 0 { cover(0); }
        if f.kids[a].len() == 0 && f.kids[b].len() == 5 { cover(1); }
    } else {
        let c = choose(below(16));
        h.shrink_to(c);
        for n in c..15 { f.orphan(n); f.cut(n); }
        f.verify(&h);
        h.ensure_capacity(15);
        f.verify(&h);
        if c == 4 { cover(2); }
    }
    f.obs();
}
p15_follow_large, covers = 1, bounds = "a graph of 10 nodes with a hierarchy over it (one of two trees), every set of nodes removed from both, then compact_nodes propagated with rekey and shrink_to: the hierarchy keeps its shape", {
    let mut g = G::new();
    for _ in 0..10 { g.add_node(1, 0); }
    let mut h = Hierarchy::new();
    let mut f = F::new(10);
    if any_bool() { for (k, p) in [(1, 0), (2, 1), (3, 2), (4, 3), (5, 0), (6, 5), (7, 5), (8, 3), (9, 8)] { f.push(&mut h, k, p, k % 2 == 0); } }
    else { for (k, p) in [(8, 9), (7, 9), (6, 8), (5, 7), (0, 5), (1, 5), (2, 5), (3, 2), (4, 9)] { f.push(&mut h, k, p, k % 2 == 0); } }
    let c = any_bits(10);
    for r in 0..10 { if c >> r & 1 == 1 { g.remove_node(ni(r)); f.remove(&mut h, r); } }
    let mut map: Vec<usize> = (0..10).collect();
    g.compact_nodes(|a, b| { h.rekey(a, b); map[a.index()] = b.index(); });
    let k = g.node_count();
    h.shrink_to(k);
    let mut f2 = F::new(k);
    for n in 0..10 {
        if c >> n & 1 == 1 { continue; }
        f2.parent[map[n]] = if f.parent[n] == NONE { NONE } else { map[f.parent[n]] };
        f2.kids[map[n]] = f.kids[n].iter().map(|&c| map[c]).collect();
    }
    f2.verify(&h);
    if k == 5 { cover(0); }
    f2.obs();
}
}
