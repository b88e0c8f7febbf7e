//! Link and neighbour queries against the link relation.
use crate::sym::*;
use crate::util::*;

/// the links of `n` in direction `out`, in port order
fn links_of(m: &Model, n: usize, out: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for k in 0..m.nports(n, out) {
        let p = m.port(n, out, k);
        if m.link[p] != NONE {
            v.push((p, m.link[p]));
        }
    }
    v
}
fn pairs(it: impl Iterator<Item = (P, P)>, want: &[(usize, usize)]) {
    let mut k = 0;
    for (a, b) in it {
        ck!(k < want.len());
        ck!(a.index() == want[k].0 && b.index() == want[k].1);
        k += 1;
    }
    ck!(k == want.len());
}
fn nodes(it: impl Iterator<Item = N>, m: &Model, want: &[(usize, usize)]) {
    let mut k = 0;
    for a in it {
        ck!(k < want.len());
        ck!(a.index() == m.ports[want[k].1].unwrap().node);
        k += 1;
    }
    ck!(k == want.len());
}
pub fn queries(g: &G, m: &Model) {
    for n in 0..m.nodes.len() + 1 {
        let i = links_of(m, n, false);
        let o = links_of(m, n, true);
        pairs(g.links(ni(n), IN), &i);
        pairs(g.links(ni(n), OUT), &o);
        pairs(g.input_links(ni(n)), &i);
        pairs(g.output_links(ni(n)), &o);
        nodes(g.neighbours(ni(n), IN), m, &i);
        nodes(g.neighbours(ni(n), OUT), m, &o);
        nodes(g.input_neighbours(ni(n)), m, &i);
        nodes(g.output_neighbours(ni(n)), m, &o);
        // all links: every link of the node once, inputs and outputs, a self-link counted once
        let selfs = o.iter().filter(|l| m.ports[l.1].unwrap().node == n).count();
        let mut seen: Vec<(usize, usize)> = vec![];
        for (a, b) in g.all_links(ni(n)) {
            let (a, b) = (choose(a.index()), choose(b.index()));
            ck!(m.palive(a) && m.ports[a].unwrap().node == n && m.link[a] == b);
            for s in &seen {
                ck!(s.0 != a && s.0 != b);
            }
            seen.push((a, b));
        }
        ck!(seen.len() == i.len() + o.len() - selfs);
        // neighbours: one entry per link, in the same order
        nodes(g.all_neighbours(ni(n)), m, &seen);
        for t in 0..m.nodes.len() + 1 {
            let w: Vec<(usize, usize)> = o.iter().copied().filter(|l| m.ports[l.1].unwrap().node == t).collect();
            pairs(g.get_connections(ni(n), ni(t)), &w);
            ck!(g.connected(ni(n), ni(t)) == !w.is_empty());
            let c = g.get_connection(ni(n), ni(t)).map(|(a, b)| (a.index(), b.index()));
            ck!(c == w.first().copied());
        }
    }
    for p in 0..m.ports.len() {
        if m.palive(p) {
            let l = m.link[p];
            let w: &[(usize, usize)] = if l == NONE { &[] } else { &[(p, l)] };
            pairs(g.port_links(pi(p)), w);
            ck!(pidx(g.port_link(pi(p))) == l);
        }
    }
    ck!(g.link_count() == m.link_count());
}
harnesses! {
p08_queries, covers = 2, bounds = "3 nodes (2,2) (1,2) (2,1), L (quick 2, thorough 3) links between any output and input (multi-edges and self-links included), every query on every node pair", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 2);
    m.add(&mut g, 1, 2);
    m.add(&mut g, 2, 1);
    for _ in 0..tier(2, 3) { any_link(&mut g, &mut m); }
    queries(&g, &m);
    if g.connected(ni(0), ni(0)) { cover(0); }
    if g.get_connections(ni(1), ni(2)).count() == 2 { cover(1); }
    obs_graph(&m);
}
p08_changed, covers = 1, bounds = "3 nodes, 2 links, then one arbitrary operation (add, remove, link, unlink, resize, clear/shrink, compact, swap), every query after it", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 2);
    m.add(&mut g, 2, 1);
    for _ in 0..tier(1, 2) { any_link(&mut g, &mut m); }
    any_op(&mut g, &mut m, 9);
    queries(&g, &m);
    cover(0);
    obs_graph(&m);
}
p08_resized, covers = 1, bounds = "node (2,2) beside (1,1), resized to every (0..=3, 0..=3) with 2 links incl. self-links, every query afterwards", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 2);
    m.add(&mut g, 1, 1);
    for _ in 0..2 { any_link(&mut g, &mut m); }
    m.set_ports(&mut g, 0, choose(below(4)), choose(below(4)));
    queries(&g, &m);
    cover(0);
    obs_graph(&m);
}
p08_large, covers = 2, bounds = "node (6,6) and nodes (3,3), (3,3): each output of the first linked to its own input (the same or the opposite place), to one of the others, or free; every query", {
    let mut g = G::new();
    let mut m = Model::new();
    for s in [6, 3, 3] { m.add(&mut g, s, s); }
    let flip = any_bool();
    for k in 0..6 {
        let a = m.port(0, true, k);
        let b = match choose(below(3)) {
            0 => m.port(0, false, if flip { 5 - k } else { k }),
            1 => m.port(1 + k % 2, false, k / 2),
            _ => continue,
        };
        m.link(&mut g, a, b);
    }
    for k in 0..2 { let (a, b) = (m.port(1 + k, true, 2), m.port(2 - k, false, 2)); m.link(&mut g, a, b); }
    queries(&g, &m);
    if m.link_count() == 8 { cover(0); }
    if m.link_count() == 2 { cover(1); }
}
}
