//! Swapping two node indices.
use crate::sym::*;
use crate::util::*;

harnesses! {
p07_swap, covers = 3, bounds = "4 nodes (2,1) (1,1) (0,0) (1,2); one symbolic link; every subset removed in either order; any two slots swapped (free or not), twice; then nodes added into the free slots and one removed", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 0);
    m.add(&mut g, 1, 2);
    any_link(&mut g, &mut m);
    let mask = choose(below(16));
    let rev = choose(below(2)) == 1;
    for n in 0..4 {
        let n = if rev { 3 - n } else { n };
        if mask >> n & 1 == 1 { m.remove(&mut g, n); }
    }
    let (a, b) = (choose(below(4)), choose(below(4)));
    m.swap(&mut g, a, b);
    m.verify(&g);
    m.verify_iters(&g);
    if m.link_count() == 1 && a != b { cover(0); }
    // a second swap (free list already rearranged by the first)
    let c = choose(below(4));
    let d = choose(below(c + 1));
    m.swap(&mut g, c, d);
    for _ in 0..tier(2, 3) { m.add(&mut g, 1, 0); }
    m.verify(&g);
    if !rev && DEEP {
        let r = choose(below(4));
        m.remove(&mut g, r);
        m.add(&mut g, 2, 0);
        m.verify(&g);
    }
    cover(1);
    if mask == 6 { cover(2); }
    obs_graph(&m);
}
p07_history, covers = 1, bounds = "3 nodes, one symbolic link, then K (quick 4, thorough 5) steps each one of: swap any two of 4 slots, remove any node, add a node; model compared after each", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    m.add(&mut g, 1, 0);
    any_link(&mut g, &mut m);
    for _ in 0..tier(4, 5) {
        match choose(below(3)) {
            0 => {
                let c = m.nodes.len();
                let a = choose(below(c));
                let b = choose(below(a + 1));
                m.swap(&mut g, a, b);
            }
            1 => {
                let c = m.nodes.len();
                m.remove(&mut g, choose(below(c)));
            }
            _ => { m.add(&mut g, 1, 1); }
        }
        m.verify_basic(&g);
    }
    m.verify(&g);
    m.verify_iters(&g);
    cover(0);
    obs_graph(&m);
}
p07_resized, covers = 1, bounds = "3 nodes, one resized to any of 6 shapes, one symbolic link, any node or none removed, any two slots swapped, then any node resized to any of 6 shapes", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    m.add(&mut g, 1, 1);
    let n = choose(below(3));
    let (i, o) = shape(choose(below(6)));
    m.set_ports(&mut g, n, i, o);
    any_link(&mut g, &mut m);
    m.remove(&mut g, choose(below(4)));
    m.swap(&mut g, choose(below(3)), choose(below(3)));
    m.verify(&g);
    let n = choose(below(3));
    let (i, o) = shape(choose(below(tier(3, 6))));
    m.set_ports(&mut g, n, i, o);
    m.verify(&g);
    cover(0);
    obs_graph(&m);
}
p07_large, covers = 2, bounds = "8 nodes in a chain of links; every set of up to 4 of them removed upwards or downwards; any two slots swapped; nodes added into all free slots", {
    let mut g = G::new();
    let mut m = Model::new();
    for k in 0..8 { m.add(&mut g, 1 + k % 2, 1); }
    for k in 0..7 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    let c = choose(below(256));
    assume(c.count_ones() <= 4 && c.count_ones() != 1);
    let up = c % 3 == 0;
    for k in 0..8 {
        let k = if up { k } else { 7 - k };
        if c >> k & 1 == 1 { m.remove(&mut g, k); }
    }
    let a = choose(below(8));
    let b = choose(below(a + 1));
    m.swap(&mut g, a, b);
    m.verify(&g);
    for _ in 0..c.count_ones() + 1 { m.add(&mut g, 1, 1); }
    m.verify(&g);
    m.verify_iters(&g);
    if c.count_ones() == 4 && c >> a & 1 == 1 && c >> b & 1 == 1 && a != b { cover(0); }
    if c == 0 && a != b { cover(1); }
}
}
