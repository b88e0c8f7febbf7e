//! Changing the number of ports of a node.
use crate::sym::*;
use crate::util::*;

harnesses! {
p05_once, covers = 3, bounds = "node of every shape (0..=2, 0..=2) next to a node (2,2), L (quick 2, thorough 3) symbolic links incl. self-links; resized to every (0..=3, 0..=3)", {
    let mut g = G::new();
    let mut m = Model::new();
    let n = m.add(&mut g, choose(below(3)), choose(below(3)));
    m.add(&mut g, 2, 2);
    for _ in 0..tier(2, 3) { any_link(&mut g, &mut m); }
    let before = m.link_count();
    m.set_ports(&mut g, n, choose(below(4)), choose(below(4)));
    m.verify(&g);
    if m.link_count() < before { cover(0); }
    if m.link_count() == 2 { cover(1); }
    cover(2);
    obs_graph(&m);
}
p05_twice, covers = 2, bounds = "node (1,1) resized to every (0..=3, 0..=3) (slack capacity), one symbolic link, resized again to every (0..=3, 0..=3), then a node (1,1) added and linked", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    m.set_ports(&mut g, 0, choose(below(4)), choose(below(4)));
    any_link(&mut g, &mut m);
    m.set_ports(&mut g, 0, choose(below(4)), choose(below(4)));
    m.verify(&g);
    m.add(&mut g, 1, 1);
    any_link(&mut g, &mut m);
    m.verify(&g);
    m.verify_iters(&g);
    if m.link_count() == 2 { cover(0); }
    cover(1);
    obs_graph(&m);
}
p05_thrice, covers = 1, bounds = "two nodes resized alternately 3 (thorough 4) times to any of 6 shapes, one symbolic link in between", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 1);
    m.add(&mut g, 1, 1);
    any_link(&mut g, &mut m);
    for _ in 0..tier(3, 4) {
        let n = choose(below(2));
        let (i, o) = shape(choose(below(6)));
        m.set_ports(&mut g, n, i, o);
    }
    m.verify(&g);
    m.verify_iters(&g);
    cover(0);
    obs_graph(&m);
}
p05_wide, covers = 1, bounds = "node with up to 9 ports: from every (i,o) in {0,3,5}x{0,2,4} to every (0..=5, 0..=4); one symbolic link; then every (1|4, 0|3)", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    let n = m.add(&mut g, [0, 3, 5][choose(below(3))], [0, 2, 4][choose(below(3))]);
    any_link(&mut g, &mut m);
    m.set_ports(&mut g, n, choose(below(6)), choose(below(5)));
    m.verify(&g);
    m.set_ports(&mut g, n, [1, 4][choose(below(2))], [0, 3][choose(below(2))]);
    m.verify(&g);
    cover(0);
    obs_graph(&m);
}
p05_after_compact, covers = 1, bounds = "resize, compact_ports (capacity tight), resize again; 6 shapes each; one symbolic link", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 1);
    m.add(&mut g, 1, 1);
    let (i, o) = shape(choose(below(6)));
    m.set_ports(&mut g, 0, i, o);
    any_link(&mut g, &mut m);
    m.compact_ports(&mut g);
    let (i, o) = shape(choose(below(6)));
    m.set_ports(&mut g, 0, i, o);
    m.verify(&g);
    let (i, o) = shape(choose(below(6)));
    m.set_ports(&mut g, 1, i, o);
    m.verify(&g);
    cover(0);
    obs_graph(&m);
}
p05_limits, covers = 2, bounds = "set_num_ports with any usize counts on a live or dead node: panics exactly beyond the limits; below them only (0..=2, 0..=2) on a live node are performed", {
    let mut g = G::new();
    g.add_node(1, 1);
    let (i, o) = (any_u64() as usize, any_u64() as usize);
    let max = PortOffset::<u16>::max_offset();
    if i > max || o > max {
        expect_panic(true);
        cover(0);
    } else {
        assume(i <= 2 && o <= 2);
        cover(1);
    }
    g.set_num_ports(ni(0), i, o, |_, _| {});
    expect_panic(false);
    ck!(i <= max && o <= max);
    ck!(g.num_inputs(ni(0)) == i && g.num_outputs(ni(0)) == o && g.port_count() == i + o);
}
p05_big, covers = 1, bounds = "boundary counts: (i,o) with i, o in {0, 16384, 32766} (thorough also 1, 16383), from and to", {
    let c = |k: usize| if DEEP { [0, 1, 16383, 16384, 32766][k] } else { [0, 16384, 32766][k] };
    let w = tier(3, 5);
    let mut g = G::new();
    let (a, b) = (c(choose(below(w))), c(choose(below(w))));
    let n = g.add_node(a, b);
    let m = g.add_node(1, 1);
    if a > 0 { ck!(g.link_nodes(m, 0, n, a - 1).is_ok()); }
    if b > 0 { ck!(g.link_nodes(n, b - 1, m, 0).is_ok()); }
    let (x, y) = (c(choose(below(w))), c(choose(below(w))));
    let (mut mv, mut rm) = (0, 0);
    g.set_num_ports(n, x, y, |_, op| match op { PortOperation::Moved { .. } => mv += 1, _ => rm += 1 });
    ck!(rm == a.saturating_sub(x) + b.saturating_sub(y));
    ck!(mv <= a.min(x) + b.min(y));
    ck!(g.num_inputs(n) == x && g.num_outputs(n) == y && g.port_count() == x + y + 2);
    ck!(g.port_index(n, po(false, x)).is_none() && g.port_index(n, po(true, y)).is_none());
    if x > 0 {
        let p = g.input(n, x - 1).unwrap();
        ck!(g.port_offset(p) == Some(po(false, x - 1)) && g.port_node(p) == Some(n));
    }
    if y > 0 {
        let p = g.output(n, y - 1).unwrap();
        ck!(g.port_offset(p) == Some(po(true, y - 1)) && g.port_node(p) == Some(n));
        if x > 0 { ck!(p != g.input(n, x - 1).unwrap()); }
    }
    let li = a > 0 && x >= a;
    let lo = b > 0 && y >= b;
    ck!(g.link_count() == li as usize + lo as usize);
    ck!(g.port_link(g.output(m, 0).unwrap()) == if li { g.input(n, a - 1) } else { None });
    ck!(g.port_link(g.input(m, 0).unwrap()) == if lo { g.output(n, b - 1) } else { None });
    cover(0);
}
p05_large, covers = 1, bounds = "node (i,o) with i, o in {1, 6, 10}, beside a node (10,10), linked on every port that fits, self-links at both ends; resized to i, o in {0, 4, 7, 12}, then to i, o in {2, 11}", {
    let mut g = G::new();
    let mut m = Model::new();
    let (i, o) = ([1, 6, 10][choose(below(3))], [1, 6, 10][choose(below(3))]);
    m.add(&mut g, i, o);
    m.add(&mut g, 10, 10);
    let (a, b) = (m.port(0, true, o - 1), m.port(0, false, 0));
    m.link(&mut g, a, b);
    if i > 1 && o > 1 { let (a, b) = (m.port(0, true, 0), m.port(0, false, i - 1)); m.link(&mut g, a, b); }
    for k in 1..i.max(2) - 1 { let (a, b) = (m.port(1, true, k), m.port(0, false, k)); m.link(&mut g, a, b); }
    for k in 1..o.max(2) - 1 { let (a, b) = (m.port(0, true, k), m.port(1, false, 9 - k)); m.link(&mut g, a, b); }
    m.set_ports(&mut g, 0, [0, 4, 7, 12][choose(below(4))], [0, 4, 7, 12][choose(below(4))]);
    m.verify(&g);
    m.set_ports(&mut g, 0, [2, 11][choose(below(2))], [2, 11][choose(below(2))]);
    m.verify(&g);
    m.add(&mut g, 3, 3);
    m.verify(&g);
    m.verify_iters(&g);
    cover(0);
}
}
