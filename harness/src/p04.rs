//! Removal: exactly the node's own ports and links disappear, indices of
//! everything else stay, freed slots come back empty.
use crate::sym::*;
use crate::util::*;

harnesses! {
p04_remove, covers = 2, bounds = "4 nodes (2,1) (1,2) (1,1) (0,0); 3 (thorough 4) symbolic links; any node removed, then any again; then two nodes of arbitrary shape (6 shapes) added", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 1);
    m.add(&mut g, 1, 2);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 0);
    for _ in 0..tier(2, 3) { any_link(&mut g, &mut m); }
    let r = choose(below(5));
    m.remove(&mut g, r);
    m.verify(&g);
    if m.link_count() == 2 { cover(0); }
    let r = choose(below(5));
    m.remove(&mut g, r);
    m.verify(&g);
    let (i, o) = shape(choose(below(6)));
    m.add(&mut g, i, o);
    let (i, o) = shape(choose(below(3)));
    m.add(&mut g, i, o);
    // new ports start unlinked, old links survive: both are part of verify
    m.verify(&g);
    m.verify_iters(&g);
    cover(1);
    obs_graph(&m);
}
p04_reuse, covers = 1, bounds = "3 nodes of equal shape (1,1), then K (quick 3, thorough 4) steps each removing any node or adding one of 3 shapes; a symbolic link after each add", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 2);
    any_link(&mut g, &mut m);
    for _ in 0..tier(3, 4) {
        let c = choose(below(6));
        if c < 3 {
            m.remove(&mut g, c);
        } else {
            let (i, o) = shape([0, 3, 2][c - 3]);
            m.add(&mut g, i, o);
        }
        m.verify(&g);
    }
    any_link(&mut g, &mut m);
    m.verify(&g);
    m.verify_iters(&g);
    cover(0);
    obs_graph(&m);
}
p04_resized, covers = 1, bounds = "a node resized twice to any of 5 shapes, linked, then removed; slabs of different sizes are then reused by 2 new nodes of any of 6 shapes", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 2);
    let n = choose(below(2));
    let (i, o) = shape(choose(below(6)));
    m.set_ports(&mut g, n, i, o);
    any_link(&mut g, &mut m);
    let (i, o) = shape(choose(below(6)));
    m.set_ports(&mut g, n, i, o);
    let r = choose(below(2));
    m.remove(&mut g, r);
    m.verify(&g);
    for _ in 0..2 {
        let (i, o) = shape(choose(below(6)));
        m.add(&mut g, i, o);
    }
    m.verify(&g);
    cover(0);
    obs_graph(&m);
}
p04_large, covers = 2, bounds = "9 nodes (1,1) (2,0) (3,2) in turn, in a chain of links; every set of them removed, upwards or downwards; then as many added again as were removed and one more, all of the same shapes or the other way round", {
    let mut g = G::new();
    let mut m = Model::new();
    let s = |k: usize| [(1, 1), (2, 1), (3, 2)][k % 3];
    for k in 0..9 { m.add(&mut g, s(k).0, s(k).1); }
    for k in 0..8 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    let c = any_bits(9);
    let up = any_bool();
    let mut gone = vec![];
    for k in 0..9 {
        let k = if up { k } else { 8 - k };
        if c >> k & 1 == 1 { m.remove(&mut g, k); gone.push(k); }
    }
    m.verify(&g);
    if any_bool() { gone.reverse(); }
    for k in &gone { m.add(&mut g, s(*k).0, s(*k).1); }
    m.add(&mut g, 3, 2);
    m.verify(&g);
    m.verify_iters(&g);
    if m.link_count() == 0 && gone.len() < 6 { cover(0); }
    if gone.len() == 9 { cover(1); }
}
}
