//! MultiPortGraph: removal, resizing, compaction, swapping.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;

fn start(links: usize) -> (MG, MM) {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    for _ in 0..links { out_in(&mut g, &mut m); }
    (g, m)
}
fn change(g: &mut MG, m: &mut MM) {
    match choose(below(7)) {
        0 => { let n = m.b.nodes.len(); let r = choose(below(n)); assume(m.b.alive(r)); m.remove(g, r); }
        1 => {
            let n = m.b.nodes.len();
            let r = choose(below(n));
            assume(m.b.alive(r));
            let (i, o) = shape(choose(below(6)));
            m.set_ports(g, r, i, o);
        }
        2 => m.compact_nodes(g),
        3 => m.compact_ports(g),
        4 => {
            let n = m.b.nodes.len();
            let (a, b) = (choose(below(n)), choose(below(n)));
            assume(m.b.alive(a) && m.b.alive(b));
            m.swap(g, a, b);
        }
        5 => { g.reserve(2, 2); g.shrink_to_fit(); }
        _ => { m.add(g, 1, 1); }
    }
}

harnesses! {
p13_change, covers = 1, bounds = "2 nodes (1,1) (2,1), L (quick 3, thorough 4) links from any output to any input, then one of: remove, resize (6 shapes), compact nodes/ports, swap, shrink, add; then one more link; every view query", {
    let (mut g, mut m) = start(tier(3, 4));
    change(&mut g, &mut m);
    m.verify(&g);
    m.verify_queries(&g);
    if choose(below(2)) == 0 { out_in(&mut g, &mut m); }
    m.verify(&g);
    cover(0);
    m.obs();
}
p13_two, covers = 1, bounds = "1 (thorough 2) links, one change, 1 (thorough 2) links, another change (same alphabet), verified in full", {
    let (mut g, mut m) = start(tier(1, 2));
    change(&mut g, &mut m);
    out_in(&mut g, &mut m);
    if DEEP { out_in(&mut g, &mut m); }
    change(&mut g, &mut m);
    m.verify(&g);
    m.verify_queries(&g);
    cover(0);
    m.obs();
}
p13_history, covers = 2, bounds = "nodes (1,1) (0,1) (1,0): two links from any output to any input, then K (quick 3, thorough 4) operations, each remove any node, add (1,1), compact nodes, compact ports, swap the first and last slot, resize the second node to (1,1), (0,2) or (0,0), or one more link; then an addition and a link", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    m.add(&mut g, 1, 0);
    for _ in 0..2 { out_in(&mut g, &mut m); }
    let mut gone = false;
    for _ in 0..tier(3, 4) {
        match choose(below(7)) {
            0 => { let n = m.b.nodes.len(); let r = choose(below(n)); assume(m.b.alive(r)); m.remove(&mut g, r); gone = true; }
            1 => { m.add(&mut g, 1, 1); }
            2 => m.compact_nodes(&mut g),
            3 => m.compact_ports(&mut g),
            4 => {
                let l: Vec<usize> = (0..m.b.nodes.len()).filter(|&n| m.b.alive(n)).collect();
                assume(l.len() > 1);
                m.swap(&mut g, l[0], l[l.len() - 1]);
            }
            5 => {
                let l: Vec<usize> = (0..m.b.nodes.len()).filter(|&n| m.b.alive(n)).collect();
                assume(l.len() > 1);
                let (i, o) = [(1, 1), (0, 2), (0, 0)][choose(below(3))];
                m.set_ports(&mut g, l[1], i, o);
            }
            _ => {
                let o = (0..m.b.ports.len()).rev().find(|&p| m.b.palive(p) && m.out(p));
                let i = (0..m.b.ports.len()).find(|&p| m.b.palive(p) && !m.out(p));
                assume(o.is_some() && i.is_some());
                ck!(m.link(&mut g, o.unwrap(), i.unwrap()));
            }
        }
    }
    m.verify(&g);
    let n = m.add(&mut g, 1, 1);
    let (p, q) = (m.b.port(n, true, 0), m.b.port(n, false, 0));
    ck!(m.link(&mut g, p, q));
    m.verify(&g);
    m.verify_queries(&g);
    if gone && m.links.len() == 3 { cover(0); }
    if m.links.len() == 6 { cover(1); }
    m.obs();
}
p13_resize, covers = 1, bounds = "node (2,2) beside (1,1), resized to a larger shape (spare capacity), 3 links out to in, then resized to every (0..=3, 0..=3)", {
    let mut g = MG::new();
    let mut m = MM::new();
    let n = m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    if choose(below(2)) == 1 { m.set_ports(&mut g, n, 3, 2); } else { m.set_ports(&mut g, n, 2, 2); }
    let k = m.b.port(1, true, 0);
    for _ in 0..2 {
        let q = choose(below(m.b.nports(n, false)));
        let q = m.b.port(n, false, q);
        ck!(m.link(&mut g, k, q));
    }
    for _ in 0..2 { 
        let (p, q) = (choose(below(m.b.nports(n, true))), choose(below(2)));
        let p = m.b.port(n, true, p);
        let q = if q == 0 { m.b.port(n, false, 0) } else { m.b.port(1, false, 0) };
        ck!(m.link(&mut g, p, q));
    }
    m.set_ports(&mut g, n, choose(below(4)), choose(below(4)));
    m.verify(&g);
    m.verify_queries(&g);
    cover(0);
    m.obs();
}
p13_clear, covers = 1, bounds = "3 links, clear, then a fresh history of 2 nodes and 2 links", {
    let (mut g, _) = start(3);
    g.clear();
    let mut m = MM::new();
    m.verify(&g);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    for _ in 0..2 { out_in(&mut g, &mut m); }
    m.verify(&g);
    m.verify_queries(&g);
    cover(0);
    m.obs();
}
p13_remove_all, covers = 1, bounds = "3 nodes, L (quick 3, thorough 4) links, nodes removed one by one in any order until none is left, verified after each", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    m.add(&mut g, 1, 0);
    for _ in 0..tier(3, 4) { out_in(&mut g, &mut m); }
    for _ in 0..3 {
        let r = choose(below(3));
        assume(m.b.alive(r));
        m.remove(&mut g, r);
        m.verify(&g);
        m.verify_queries(&g);
    }
    ck!(g.as_portgraph().node_count() == 0 && g.as_portgraph().port_count() == 0);
    cover(0);
    m.obs();
}
p13_large, covers = 3, bounds = "a hub with links to and from 6 nodes (one port carrying 6 links each way), double links and a self-link: every set of the nodes removed, up or down, the hub resized or not, nodes and ports compacted in either order; then a node added and linked to the hub twice", {
    let mut g = MG::new();
    let mut m = MM::new();
    for k in 0..7 { m.add(&mut g, 1, 1 + (k == 3) as usize); }
    let h = 3;
    for k in 0..7 {
        if k == h { continue; }
        let (a, b) = (m.b.port(h, true, 0), m.b.port(k, false, 0));
        ck!(m.link(&mut g, a, b));
        let (a, b) = (m.b.port(k, true, 0), m.b.port(h, false, 0));
        ck!(m.link(&mut g, b, a));
    }
    for (x, y) in [(h, h), (0, 1), (0, 1), (6, 6)] { let (a, b) = (m.b.port(x, true, 0), m.b.port(y, false, 0)); ck!(m.link(&mut g, a, b)); }
    let c = choose(below(128));
    let up = any_bool();
    for k in 0..7 {
        let k = if up { k } else { 6 - k };
        if c >> k & 1 == 1 { m.remove(&mut g, k); }
    }
    m.verify(&g);
    if m.b.alive(h) && c % 3 == 0 { m.set_ports(&mut g, h, 2, 1); m.verify(&g); }
    let w = choose(below(3));
    if w == 1 { m.compact_nodes(&mut g); m.compact_ports(&mut g); }
    if w == 2 { m.compact_ports(&mut g); m.compact_nodes(&mut g); }
    m.verify(&g);
    let n = m.add(&mut g, 1, 1);
    if let Some(k) = (0..m.b.nodes.len()).find(|&k| m.b.alive(k) && k != n) {
        for _ in 0..2 {
            let (a, b) = (m.b.port(n, true, 0), m.b.port(k, false, 0));
            ck!(m.link(&mut g, a, b));
        }
    }
    m.verify(&g);
    m.verify_queries(&g);
    if c == 127 { cover(0); }
    if m.links.len() == 18 { cover(1); }
    if c.count_ones() == 6 && c >> h & 1 == 0 && m.links.len() == 3 { cover(2); }
    m.obs();
}
p13_stale, covers = 3, bounds = "nodes (1,1) (1,2) (1,1), any of the last two removed; 3 links from any output to any input of what is left, so that internal nodes reuse the slots; then one of remove, resize (2, thorough 6 shapes), unlink, link (thorough: of any two), swap, with any index, those of the internal nodes and ports included; then another link: nothing happens for what is not a node or port of the graph", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 2);
    m.add(&mut g, 1, 1);
    let gone = 1 + choose(below(2));
    m.remove(&mut g, gone);
    for _ in 0..3 { out_in(&mut g, &mut m); }
    let nn = g.as_portgraph().node_capacity().max(3) + 1;
    let np = g.as_portgraph().port_capacity().max(7) + 1;
    match choose(below(5)) {
        0 => {
            let r = choose(below(nn));
            if m.b.alive(r) { m.remove(&mut g, r); } else { g.remove_node(ni(r)); if r == gone { cover(0); } }
        }
        1 => {
            let r = choose(below(nn));
            let (i, o) = shape(choose(below(tier(2, 6))));
            if m.b.alive(r) { m.set_ports(&mut g, r, i, o); } else { g.set_num_ports(ni(r), i, o, |_, _| ck!(false)); if r == gone { cover(1); } }
        }
        2 => {
            let p = choose(below(np));
            if m.b.palive(p) { m.unlink(&mut g, p); } else { ck!(g.unlink_port(pi(p)).is_none()); cover(2); }
        }
        3 => { let (a, b) = (choose(below(3)), choose(below(3))); m.swap(&mut g, a, b); }
        _ => {
            let p = choose(below(np));
            let q = if DEEP { choose(below(np)) } else { (p + choose(below(3))) % np };
            if m.b.palive(p) && m.b.palive(q) { m.link(&mut g, p, q); } else { ck!(g.link_ports(pi(p), pi(q)).is_err()); }
        }
    }
    m.verify(&g);
    if m.b.alive(0) && m.b.nports(0, true) > 0 && m.b.nports(0, false) > 0 {
        let (p, q) = (m.b.port(0, true, 0), m.b.port(0, false, 0));
        ck!(m.link(&mut g, p, q));
        m.verify(&g);
    }
    m.verify_queries(&g);
    m.obs();
}
}
