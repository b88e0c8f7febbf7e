//! Linking and unlinking ports of a `PortGraph`.
use crate::sym::*;
use crate::util::*;

/// Judge `link_offsets` / `link_nodes` against the model.
fn by_offset(g: &mut G, m: &mut Model, a: usize, oa: PortOffset<u16>, b: usize, ob: PortOffset<u16>, nodes: bool) {
    let at = |m: &Model, n: usize, o: PortOffset<u16>| -> usize {
        let out = o.direction() == OUT;
        if m.alive(n) && o.index() < m.nports(n, out) {
            m.port(n, out, o.index())
        } else {
            NONE
        }
    };
    let (p, q) = (at(m, a, oa), at(m, b, ob));
    let r = if nodes { g.link_nodes(ni(a), oa.index(), ni(b), ob.index()) } else { g.link_offsets(ni(a), oa, ni(b), ob) };
    match r {
        Ok((x, y)) => {
            ck!(p != NONE && q != NONE);
            ck!(x.index() == p && y.index() == q);
            ck!(oa.direction() != ob.direction());
            ck!(m.link[p] == NONE && m.link[q] == NONE);
            m.set_link(p, q);
            cover(1);
        }
        Err(LinkError::UnknownOffset { node, offset }) => {
            let x = node.index();
            ck!((x == a && offset == oa && p == NONE) || (x == b && offset == ob && q == NONE));
        }
        Err(LinkError::IncompatibleDirections { port_a, port_b, dir }) => {
            ck!(p != NONE && q != NONE);
            ck!(port_a.index() == p && port_b.index() == q);
            ck!(oa.direction() == ob.direction() && dir == oa.direction());
        }
        Err(LinkError::AlreadyLinked { port }) => {
            let x = port.index();
            ck!(p != NONE && q != NONE);
            ck!((x == p && m.link[p] != NONE) || (x == q && m.link[q] != NONE));
        }
        Err(LinkError::UnknownPort { .. }) => ck!(false),
    }
}

harnesses! {
p02_links, covers = 2, bounds = "3 nodes (2,2) (1,1) and one removed; K link_ports calls (quick 3, thorough 4) with arbitrary port indices, including free and never allocated ones; one unlink of an arbitrary index; one more link", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 2);
    let r = m.add(&mut g, 1, 0);
    m.add(&mut g, 1, 1);
    m.remove(&mut g, r);
    let n = m.ports.len();
    for _ in 0..tier(2, 3) {
        m.link(&mut g, below(n + 1), below(n + 1));
        m.verify_links(&g);
    }
    m.unlink(&mut g, below(n + 1));
    m.verify_links(&g);
    if m.link(&mut g, below(n + 1), below(n + 1)) {
        cover(0);
    }
    m.verify(&g);
    if m.link_count() == 2 { cover(1); }
    obs_graph(&m);
}
p02_any_index, covers = 2, bounds = "link_ports/unlink_port/queries on any pair of 31-bit port indices and any node index, on a graph with two nodes (1,1), linked or not", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    if any_bool() { let p = below(4); let q = below(4); m.link(&mut g, p, q); }
    let max = P::max_index();
    let p = range(0, max);
    let q = range(0, max);
    let n = ni(range(0, max));
    ck!(g.contains_port(pi(p)) == (p < 4));
    ck!(g.port_node(pi(p)).is_some() == (p < 4));
    ck!(g.port_offset(pi(p)).is_some() == (p < 4));
    ck!(g.contains_node(n) == (n.index() < 2));
    ck!(g.num_inputs(n) == (n.index() < 2) as usize);
    ck!(g.port_index(n, po(any_bool(), range(0, PortOffset::<u16>::max_offset()))).is_some() <= (n.index() < 2));
    if p >= 4 || q >= 4 {
        m.link(&mut g, p, q);
        m.verify(&g);
        cover(0);
    } else {
        m.unlink(&mut g, p);
        m.verify(&g);
        cover(1);
    }
}
p02_offsets, covers = 2, bounds = "3 nodes (2,1) (1,2), one removed; two symbolic links; link_offsets / link_nodes with arbitrary node indices 0..4 and offsets 0..3 in either direction", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 1);
    let r = m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 2);
    m.remove(&mut g, r);
    for _ in 0..tier(1, 2) { any_link(&mut g, &mut m); }
    let nodes = any_bool();
    let (a, b) = (choose(below(4)), choose(below(4)));
    let (da, db) = if nodes { (true, false) } else { (choose(below(2)) == 1, choose(below(2)) == 1) };
    let (x, y) = (below(4), below(4));
    by_offset(&mut g, &mut m, a, po(da, x), b, po(db, y), nodes);
    m.verify(&g);
    cover(0);
}
p02_relink, covers = 1, bounds = "2 nodes (2,2): K (quick 5, thorough 6) steps, each linking or unlinking arbitrary ports; links verified after each", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 2);
    m.add(&mut g, 1, 1);
    for _ in 0..tier(4, 5) {
        let p = below(5);
        if any_bool() { m.link(&mut g, p, below(5)); } else { m.unlink(&mut g, p); }
        m.verify_links(&g);
    }
    if m.link_count() == 2 { cover(0); }
    m.verify_basic(&g);
    obs_graph(&m);
}
p02_large, covers = 3, bounds = "6 nodes (5,5), 12 links in place (5 of them on one pair of nodes, 2 self-links); unlink of any of 9 places, then link_ports of any two of 62 symbolic port indices", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..6 { m.add(&mut g, 5, 5); }
    for k in 0..5 { let (a, b) = (m.port(1, true, k), m.port(4, false, 4 - k)); m.link(&mut g, a, b); }
    for (x, i, y, j) in [(2, 4, 2, 0), (3, 0, 3, 4), (0, 3, 5, 1), (5, 1, 0, 0), (5, 4, 1, 3), (4, 2, 3, 3), (2, 0, 0, 4)] {
        let (a, b) = (m.port(x, true, i), m.port(y, false, j));
        m.link(&mut g, b, a);
    }
    let c = choose(below(9));
    let x = [m.port(1, true, 0), m.port(4, false, 0), m.port(2, true, 4), m.port(3, false, 4), m.port(0, true, 3), m.port(0, false, 0), m.port(4, false, 1), m.port(5, true, 4), m.port(2, true, 2)];
    m.unlink(&mut g, x[c]);
    if c == 8 { cover(0); }
    let r = m.link(&mut g, below(62), below(62));
    if r && c == 8 { cover(1); }
    if r && c == 1 { cover(2); }
    m.verify_links(&g);
}
}
