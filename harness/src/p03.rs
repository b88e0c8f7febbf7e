//! Nodes and ports over arbitrary histories of operations.
use crate::sym::*;
use crate::util::*;

harnesses! {
p03_history, covers = 3, bounds = "from 2 nodes (1,1) (2,1) with one symbolic link: K (quick 3, thorough 4) operations, each any of add (4 shapes), remove, link, unlink, set_num_ports (5 shapes), clear, reserve+shrink, with arbitrary indices (live, freed and never allocated)", {
    let mut g = G::with_capacity(1, 2);
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    any_link(&mut g, &mut m);
    for _ in 0..tier(3, 4) { any_op(&mut g, &mut m, 6); }
    m.verify(&g);
    m.verify_iters(&g);
    if m.link_count() == 2 { cover(0); }
    if m.node_count() == 4 { cover(1); }
    if m.node_count() == 0 { cover(2); }
    obs_graph(&m);
}
p03_all_ops, covers = 2, bounds = "from 3 nodes, one symbolic link, one removed node: K (quick 2, thorough 3) operations, also compaction of nodes and ports and swapping any two node slots, then one add", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 2);
    m.add(&mut g, 2, 1);
    any_link(&mut g, &mut m);
    let r = choose(below(4));
    m.remove(&mut g, r);
    for _ in 0..tier(2, 3) { any_op(&mut g, &mut m, 9); }
    m.verify(&g);
    m.add(&mut g, 1, 1);
    m.verify(&g);
    m.verify_iters(&g);
    if m.link_count() == 2 { cover(0); }
    if m.node_count() == 1 { cover(1); }
    obs_graph(&m);
}
p03_long, covers = 2, bounds = "from the empty graph: K (quick 6, thorough 7) operations, each add (1,1) or (0,1), remove any node, clear, compact nodes, compact ports, or link the last output to the first input; then two additions", {
    let mut g = G::new();
    let mut m = Model::new();
    let mut full = false;
    for _ in 0..tier(6, 7) {
        let c = m.nodes.len().min(3);
        let k = choose(below(6 + c));
        match k {
            0 => { m.add(&mut g, 1, 1); }
            1 => { m.add(&mut g, 0, 1); }
            2 => { g.clear(); m.clear(); }
            3 => m.compact_nodes(&mut g),
            4 => m.compact_ports(&mut g),
            5 => {
                let p = (0..m.ports.len()).rev().find(|&p| m.palive(p) && m.ports[p].unwrap().out);
                let q = (0..m.ports.len()).find(|&p| m.palive(p) && !m.ports[p].unwrap().out);
                if let (Some(p), Some(q)) = (p, q) { m.link(&mut g, p, q); }
            }
            _ => {
                let n = m.nodes.len();
                m.remove(&mut g, n - 1 - (k - 6));
            }
        }
        if m.node_count() == 3 { full = true; }
    }
    m.verify(&g);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    m.verify(&g);
    if full && m.node_count() == 2 { cover(0); }
    if m.link_count() == 1 { cover(1); }
    obs_graph(&m);
}
p03_shapes, covers = 1, bounds = "3 nodes with every pair of counts (inputs, outputs) in 0..=S (quick 2, thorough 3), one of them removed and re-added with any counts", {
    let s = tier(2, 3) + 1;
    let mut g = G::new();
    let mut m = Model::new();
    let (a, b) = (choose(below(s)), choose(below(s)));
    m.add(&mut g, a, b);
    let (a, b) = (choose(below(s)), choose(below(s)));
    m.add(&mut g, a, b);
    m.verify(&g);
    let r = choose(below(2));
    m.remove(&mut g, r);
    m.verify(&g);
    let (a, b) = (choose(below(s)), choose(below(s)));
    m.add(&mut g, a, b);
    m.verify(&g);
    m.verify_iters(&g);
    cover(0);
    obs_graph(&m);
}
p03_limits, covers = 2, bounds = "add_node with any usize counts: panics exactly beyond the limits (32766 per side by the 15-bit offset, 65534 in total); below them only (0..=2, 0..=2) are built", {
    let mut g = G::new();
    let (i, o) = (any_u64() as usize, any_u64() as usize);
    let max = PortOffset::<u16>::max_offset();
    if i > max || o > max {
        expect_panic(true);
        cover(0);
    } else {
        assume(i <= 2 && o <= 2);
        cover(1);
    }
    let n = g.add_node(i, o);
    expect_panic(false);
    ck!(i <= max && o <= max);
    ck!(g.num_inputs(n) == i && g.num_outputs(n) == o && g.port_count() == i + o);
}
p03_large, covers = 3, bounds = "8 nodes (2,2) linked in a chain; 2 rounds of removing any set out of 8 from them, compacting or not, and adding three nodes of sizes which are new or fit the gaps: counts and all queries after each round", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..8 { m.add(&mut g, 2, 2); }
    for k in 0..7 { let (a, b) = (m.port(k, true, k % 2), m.port(k + 1, false, 1 - k % 2)); m.link(&mut g, a, b); }
    for round in 0..2 {
        let c = [0, 0b1, 0b10, 0b10010, 0b1101, 0b111000, 0b1010101, 0b11111111][choose(below(8))];
        let up = any_bool();
        for k in 0..8 {
            let k = if up { k } else { 7 - k };
            if c >> k & 1 == 1 { m.remove(&mut g, k); }
        }
        let w = choose(below(3));
        if w == 1 { m.compact_nodes(&mut g); }
        if w == 2 { m.compact_ports(&mut g); }
        for s in [[1, 3, 0], [4, 1, 2]][(c + round) % 2] {
            let n = m.add(&mut g, s, 4 - s);
            let q = (0..m.ports.len()).find(|&q| m.palive(q) && !m.ports[q].unwrap().out && m.link[q] == NONE);
            if let (true, Some(q)) = (s < 4, q) { let p = m.port(n, true, 0); m.link(&mut g, p, q); }
        }
        m.verify(&g);
        if m.node_count() == 14 { cover(0); }
        if m.node_count() == 3 && up { cover(1); }
        if m.link_count() == 12 { cover(2); }
    }
    m.verify_iters(&g);
    obs_graph(&m);
}
}
