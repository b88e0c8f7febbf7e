//! Compaction and shrinking.
use crate::sym::*;
use crate::util::*;

fn compact(g: &mut G, m: &mut Model, how: usize) {
    match how {
        0 => m.compact_nodes(g),
        1 => m.compact_ports(g),
        2 => {
            m.compact_nodes(g);
            m.verify(g);
            m.compact_ports(g);
        }
        3 => {
            m.compact_ports(g);
            m.verify(g);
            m.compact_nodes(g);
        }
        _ => g.shrink_to_fit(),
    }
}

harnesses! {
p06_compact, covers = 3, bounds = "4 nodes (1,1) (2,0) (0,0) (1,2); L (quick 2, thorough 3) symbolic links; every subset of the nodes removed; compact nodes, ports, both in either order, or shrink; compared in full with the model through the reported renamings; then a node is added and any node removed", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 0);
    m.add(&mut g, 0, 0);
    m.add(&mut g, 1, 2);
    for _ in 0..tier(2, 3) { any_link(&mut g, &mut m); }
    let mask = choose(below(16));
    for n in 0..4 {
        if mask >> n & 1 == 1 { m.remove(&mut g, n); }
    }
    let links = m.link_count();
    compact(&mut g, &mut m, choose(below(5)));
    m.verify(&g);
    ck!(g.link_count() == links);
    if links == 2 { cover(0); }
    m.add(&mut g, 1, 1);
    m.verify(&g);
    m.verify_iters(&g);
    let r = choose(below(3));
    m.remove(&mut g, r);
    m.add(&mut g, 2, 0);
    m.verify(&g);
    cover(1);
    if mask == 5 { cover(2); }
    obs_graph(&m);
}
p06_resized, covers = 1, bounds = "3 nodes, one of them resized to any of 6 shapes (slack and freed slabs), 2 symbolic links, one node or none removed; compaction as above; then any node resized and one added", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    m.add(&mut g, 1, 1);
    let n = choose(below(3));
    let (i, o) = shape(choose(below(6)));
    m.set_ports(&mut g, n, i, o);
    for _ in 0..tier(1, 2) { any_link(&mut g, &mut m); }
    let r = choose(below(4));
    m.remove(&mut g, r);
    compact(&mut g, &mut m, choose(below(4)));
    m.verify(&g);
    let n = choose(below(2));
    let (i, o) = shape(choose(below(3)));
    m.set_ports(&mut g, n, i, o);
    m.verify(&g);
    m.add(&mut g, 1, 2);
    m.verify(&g);
    m.verify_iters(&g);
    cover(0);
    obs_graph(&m);
}
p06_again, covers = 1, bounds = "K (quick 3, thorough 4) operations from the full alphabet (add, remove, link, unlink, resize, clear, reserve+shrink, compact) between two compactions", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    any_link(&mut g, &mut m);
    m.remove(&mut g, choose(below(3)));
    compact(&mut g, &mut m, choose(below(4)));
    for _ in 0..tier(1, 2) { any_op(&mut g, &mut m, 5); }
    compact(&mut g, &mut m, choose(below(4)));
    m.verify(&g);
    m.verify_iters(&g);
    cover(0);
    obs_graph(&m);
}
p06_large, covers = 2, bounds = "9 nodes (1,1) (2,2) (0,1) in turn, in a chain of links with some double ones, two of them resized (spare capacity); every set of them removed; compacted in the 4 ways; then two nodes added", {
    let mut g = G::new();
    let mut m = Model::new();
    for k in 0..9 { let (i, o) = [(1, 1), (2, 2), (1, 2)][k % 3]; m.add(&mut g, i, o); }
    for k in 0..8 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    for (x, y) in [(1, 4), (4, 7), (7, 1)] { let (a, b) = (m.port(x, true, 1), m.port(y, false, 1)); m.link(&mut g, a, b); }
    m.set_ports(&mut g, 3, 3, 3);
    m.set_ports(&mut g, 7, 1, 3);
    let c = any_bits(9);
    for k in 0..9 { if c >> k & 1 == 1 { m.remove(&mut g, k); } }
    compact(&mut g, &mut m, choose(below(4)));
    m.verify(&g);
    m.add(&mut g, 2, 2);
    m.add(&mut g, 1, 1);
    m.verify(&g);
    m.verify_iters(&g);
    if c == 0b101010 { cover(0); }
    if c == 0 { cover(1); }
}
}
