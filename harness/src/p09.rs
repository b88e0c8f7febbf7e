//! Iterators obey the iterator protocol whatever the graph.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;

pub fn all_iters(g: &impl LinkView<LinkEndpoint = P, PortOffsetBase = u16>, cap: usize, np: usize) {
    iter_protocol(g.nodes_iter(), 16);
    iter_protocol(g.ports_iter(), 16);
    for n in 0..cap + 1 {
        let n = ni(n);
        iter_protocol(g.all_ports(n), 16);
        iter_protocol(g.all_port_offsets(n), 16);
        for d in Direction::BOTH {
            iter_protocol(g.ports(n, d), 16);
            iter_protocol(g.port_offsets(n, d), 16);
            iter_protocol(g.links(n, d), 16);
            iter_protocol(g.neighbours(n, d), 16);
        }
        iter_protocol(g.all_links(n), 16);
        iter_protocol(g.all_neighbours(n), 16);
        for t in 0..cap {
            iter_protocol(g.get_connections(n, ni(t)), 16);
        }
    }
    for p in 0..np {
        if g.contains_port(pi(p)) {
            iter_protocol(g.port_links(pi(p)), 4);
        }
    }
}

harnesses! {
p09_iters, covers = 2, bounds = "3 nodes (2,2) (0,1) (2,1), two arbitrary links, any node or none removed; every iterator of the graph stepped, counted, cloned, skipped with nth, folded", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 2);
    m.add(&mut g, 0, 1);
    m.add(&mut g, 2, 1);
    for _ in 0..tier(1, 2) { any_link(&mut g, &mut m); }
    m.remove(&mut g, choose(below(4)));
    all_iters(&g, 3, m.ports.len());
    cover(0);
    if m.link_count() == 1 { cover(1); }
    obs_graph(&m);
}
p09_resized, covers = 1, bounds = "2 nodes, one resized to every (0..=2, 0..=2), one arbitrary link, then all iterators", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.set_ports(&mut g, 0, choose(below(3)), choose(below(3)));
    any_link(&mut g, &mut m);
    all_iters(&g, 2, m.ports.len());
    cover(0);
    obs_graph(&m);
}
p09_multi, covers = 2, bounds = "MultiPortGraph, 2 nodes (1,1) (1,2), 3 links from any output to any input, one port or node or none unlinked/removed; every iterator including port_links and subports", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 2);
    for _ in 0..tier(2, 3) { out_in(&mut g, &mut m); }
    match choose(below(3)) {
        0 => { let p = choose(below(5)); m.unlink(&mut g, p); }
        1 => m.remove(&mut g, 0),
        _ => {}
    }
    iter_protocol(g.nodes_iter(), 16);
    iter_protocol(g.ports_iter(), 16);
    for n in 0..2 {
        if !m.b.alive(n) { continue; }
        let n = ni(n);
        iter_protocol(g.all_ports(n), 16);
        iter_protocol(g.all_port_offsets(n), 16);
        for d in Direction::BOTH {
            iter_protocol(g.links(n, d), 16);
            iter_protocol(g.neighbours(n, d), 16);
            iter_protocol(g.subports(n, d), 16);
        }
        iter_protocol(g.all_links(n), 16);
        iter_protocol(g.all_neighbours(n), 16);
        iter_protocol(g.all_subports(n), 16);
        for t in 0..2 { iter_protocol(g.get_connections(n, ni(t)), 16); }
    }
    for p in 0..m.b.ports.len() {
        if m.b.palive(p) {
            iter_protocol(g.port_links(pi(p)), 8);
            if m.port_links(p).is_empty() { cover(0); }
        }
    }
    cover(1);
    m.obs();
}
p09_large, covers = 2, bounds = "6 nodes (5,5) (1,1) (0,3) (4,4) (1,1) (2,0); links between the first and the fourth, self-links, each of 8 links there or not; any of four nodes removed or none; every iterator of the first nodes", {
    let mut g = G::new();
    let mut m = Model::new();
    for (i, o) in [(5, 5), (1, 1), (0, 3), (4, 4), (1, 1), (2, 0)] { m.add(&mut g, i, o); }
    for (x, i, y, j) in [(0, 0, 3, 3), (0, 1, 3, 2), (0, 4, 0, 0), (3, 0, 0, 4), (3, 3, 3, 0), (2, 2, 5, 1), (0, 3, 5, 0), (1, 0, 0, 2)] {
        if (x + i + y) % 3 == 0 || any_bool() {
            let (a, b) = (m.port(x, true, i), m.port(y, false, j));
            m.link(&mut g, a, b);
        }
    }
    let r = choose(below(5));
    if r > 0 { m.remove(&mut g, [0, 1, 2, 4, 5][r]); }
    iter_protocol(g.nodes_iter(), 16);
    iter_protocol(g.ports_iter(), 40);
    for n in [0, 3] {
        let n = ni(n);
        iter_protocol(g.all_ports(n), 16);
        iter_protocol(g.all_port_offsets(n), 16);
        for d in Direction::BOTH {
            iter_protocol(g.ports(n, d), 16);
            iter_protocol(g.port_offsets(n, d), 16);
            iter_protocol(g.links(n, d), 16);
            iter_protocol(g.neighbours(n, d), 16);
        }
        iter_protocol(g.all_links(n), 16);
        iter_protocol(g.all_neighbours(n), 16);
        for t in [0, 3, 5] { iter_protocol(g.get_connections(n, ni(t)), 16); }
    }
    if m.link_count() == 8 { cover(0); }
    if r == 3 { cover(1); }
}
}
