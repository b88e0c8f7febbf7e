//! A graph used through a reference is the same graph.
use crate::forest::*;
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::multiportgraph::SubportIndex;
use ::portgraph::portgraph::PortOperation;
use ::portgraph::view::filter::{LinkFilter, NodeFilter};
use ::portgraph::view::{FilteredGraph, FlatRegion, MultiMut, MultiView, Region, Subgraph};

fn nf(n: N, c: &(u64, u64)) -> bool { c.0 >> n.index() & 1 == 1 }
fn pf(p: P, c: &(u64, u64)) -> bool { c.1 >> p.index() & 1 == 1 }

fn eq<T: PartialEq>(mut a: impl Iterator<Item = T> + Clone, mut b: impl Iterator<Item = T> + Clone) {
    loop {
        let (x, y) = (a.next(), b.next());
        let end = x.is_none();
        ck!(x == y);
        if end { break }
    }
}
/// every query of `b` (a reference) answers as that of `a`
fn same_ports<A: PortView<PortOffsetBase = u16>, B: PortView<PortOffsetBase = u16>>(a: &A, b: &B, nodes: usize, ports: usize) {
    ck!(b.node_capacity() >= b.node_count() && b.port_capacity() >= b.port_count());
    ck!(a.node_count() == b.node_count() && a.port_count() == b.port_count() && a.is_empty() == b.is_empty());
    eq(a.nodes_iter(), b.nodes_iter());
    eq(a.ports_iter(), b.ports_iter());
    for n in 0..nodes + 1 {
        let n = ni(n);
        ck!(a.contains_node(n) == b.contains_node(n));
        if !a.contains_node(n) { continue }
        ck!(a.node_port_capacity(n) == b.node_port_capacity(n));
        ck!(a.num_inputs(n) == b.num_inputs(n) && a.num_outputs(n) == b.num_outputs(n));
        eq(a.all_ports(n), b.all_ports(n));
        eq(a.all_port_offsets(n), b.all_port_offsets(n));
        eq(a.inputs(n), b.inputs(n));
        eq(a.outputs(n), b.outputs(n));
        eq(a.input_offsets(n), b.input_offsets(n));
        eq(a.output_offsets(n), b.output_offsets(n));
        for d in [IN, OUT] {
            ck!(a.num_ports(n, d) == b.num_ports(n, d));
            eq(a.ports(n, d), b.ports(n, d));
            eq(a.port_offsets(n, d), b.port_offsets(n, d));
            for o in 0..4 {
                let off = PortOffset::new(d, o);
                ck!(a.port_index(n, off) == b.port_index(n, off));
                ck!(a.input(n, o) == b.input(n, o) && a.output(n, o) == b.output(n, o));
            }
        }
    }
    for p in 0..ports + 1 {
        let p = pi(p);
        ck!(a.contains_port(p) == b.contains_port(p));
        if !a.contains_port(p) { continue }
        ck!(a.port_direction(p) == b.port_direction(p) && a.port_node(p) == b.port_node(p) && a.port_offset(p) == b.port_offset(p));
    }
}
fn same_links<A, B>(a: &A, b: &B, nodes: usize, ports: usize)
where
    A: LinkView<PortOffsetBase = u16>,
    B: LinkView<PortOffsetBase = u16, LinkEndpoint = A::LinkEndpoint>,
    A::LinkEndpoint: PartialEq,
{
    ck!(a.link_count() == b.link_count());
    for n in (0..nodes + 1).map(ni) {
        if !a.contains_node(n) { continue }
        eq(a.all_links(n), b.all_links(n));
        eq(a.all_neighbours(n), b.all_neighbours(n));
        eq(a.input_links(n), b.input_links(n));
        eq(a.output_links(n), b.output_links(n));
        eq(a.input_neighbours(n), b.input_neighbours(n));
        eq(a.output_neighbours(n), b.output_neighbours(n));
        for d in [IN, OUT] {
            eq(a.links(n, d), b.links(n, d));
            eq(a.neighbours(n, d), b.neighbours(n, d));
        }
        for q in (0..nodes + 1).map(ni) {
            if !a.contains_node(q) { continue }
            eq(a.get_connections(n, q), b.get_connections(n, q));
            ck!(a.get_connection(n, q) == b.get_connection(n, q));
            ck!(a.connected(n, q) == b.connected(n, q));
        }
    }
    for p in (0..ports + 1).map(pi) {
        if !a.contains_port(p) { continue }
        eq(a.port_links(p), b.port_links(p));
    }
}
fn same_multi<A, B>(a: &A, b: &B, nodes: usize)
where
    A: MultiView<PortOffsetBase = u16>,
    B: MultiView<PortOffsetBase = u16, LinkEndpoint = A::LinkEndpoint>,
    A::LinkEndpoint: PartialEq,
{
    for n in (0..nodes + 1).map(ni) {
        if !a.contains_node(n) { continue }
        eq(a.all_subports(n), b.all_subports(n));
        eq(a.subport_inputs(n), b.subport_inputs(n));
        eq(a.subport_outputs(n), b.subport_outputs(n));
        for d in [IN, OUT] { eq(a.subports(n, d), b.subports(n, d)); }
        for s in a.all_subports(n) { ck!(a.subport_link(s) == b.subport_link(s)); }
    }
}
/// one operation; what it returns and reports
fn change<M: LinkMut<PortOffsetBase = u16>>(mut g: M, op: usize, a: usize, b: usize, e: impl Fn(M::LinkEndpoint) -> EP) -> Vec<usize> {
    let mut r = vec![];
    match op {
        0 => r.push(g.add_node(a, b).index()),
        1 => g.remove_node(ni(a)),
        2 => g.clear(),
        3 => { g.reserve(2 * a + 20, 4 * b + 40); r.push(g.node_capacity()); r.push(g.port_capacity()); }
        4 => { g.shrink_to_fit(); r.push(g.node_capacity()); r.push(g.port_capacity()); }
        5 => g.swap_nodes(ni(a), ni(b)),
        6 => g.compact_nodes(|x, y| { r.push(x.index()); r.push(y.index()); }),
        7 => g.compact_ports(|x, y| { r.push(x.index()); r.push(y.index()); }),
        8 => g.set_num_ports(ni(1), a, b, |p, o| {
            r.push(p.index());
            match o {
                PortOperation::Removed { old_link } => r.push(100 + old_link.map_or(99, |l| l.index())),
                PortOperation::Moved { new_index } => r.push(new_index.index()),
            }
        }),
        9 => match g.link_ports(pi(a), pi(b)) {
            Ok((x, y)) => { r.push(e(x).0); r.push(e(x).1); r.push(e(y).0); r.push(e(y).1); }
            Err(_) => r.push(1000),
        },
        10 => match g.unlink_port(pi(a)) {
            Some(x) => { r.push(e(x).0); r.push(e(x).1); }
            None => r.push(1000),
        },
        11 => match g.link_nodes(ni(a), 0, ni(b), 0) {
            Ok((x, y)) => { r.push(e(x).0); r.push(e(x).1); r.push(e(y).0); r.push(e(y).1); }
            Err(_) => r.push(1000),
        },
        _ => match g.link_offsets(ni(a), PortOffset::new(OUT, 0), ni(b), PortOffset::new(IN, 0)) {
            Ok((x, y)) => { r.push(e(x).0); r.push(e(x).1); r.push(e(y).0); r.push(e(y).1); }
            Err(_) => r.push(1000),
        },
    }
    r
}
fn sub_change<M: MultiMut<PortOffsetBase = u16, LinkEndpoint = SubportIndex>>(mut g: M, cut: bool, a: EP, b: EP) -> usize {
    if cut {
        g.unlink_subport(sp(a)).map_or(1000, |x| ep(x).0 * 8 + ep(x).1)
    } else {
        g.link_subports(sp(a), sp(b)).is_ok() as usize
    }
}
harnesses! {
p34_plain, covers = 2, bounds = "PortGraph of 3 (thorough 4) nodes with 2 links between any free ports, one node removed or none; through &, &mut and references to these: every query as on the graph, and as the link relation says", {
    let (mut g, mut m) = plain(2);
    m.remove(&mut g, choose(below(4)));
    let (nn, np) = (m.nodes.len(), m.ports.len());
    let part = Part::new(&of(&m), vec![true; nn], |_| true);
    let r = &g;
    part.verify_ports(&r);
    part.verify_links(&r, e1);
    same_ports(&g, &r, nn, np);
    same_links(&g, &r, nn, np);
    same_ports(&g, &&r, nn, np);
    same_links(&g, &&r, nn, np);
    ck!(r.node_capacity() == g.node_capacity() && (&r).port_capacity() == g.port_capacity());
    let (h, caps) = (g.clone(), (g.node_capacity(), g.port_capacity()));
    let w = &mut g;
    part.verify_ports(&w);
    part.verify_links(&w, e1);
    same_ports(&h, &w, nn, np);
    same_links(&h, &w, nn, np);
    ck!((w.node_capacity(), w.port_capacity()) == caps);
    let w = &w;
    same_ports(&h, w, nn, np);
    same_links(&h, &w, nn, np);
    if m.link_count() == 2 { cover(0); }
    if m.node_count() < 3 { cover(1); }
    part.obs();
}
p34_multi, covers = 2, bounds = "MultiPortGraph of 3 nodes with 3 links from any output to any input; through &, &mut and references to these: every query incl. subports as on the graph, and as the link relation says", {
    let (mut g, m) = multi(3);
    let (nn, np) = (m.b.nodes.len(), m.b.ports.len());
    let part = Part::new(&m, vec![true; nn], |_| true);
    let h = g.clone();
    let r = &h;
    part.verify_ports(&r);
    part.verify_links(&r, ep);
    part.verify_multi(&r, &h);
    same_ports(&h, &&r, nn, np);
    same_links(&h, &&r, nn, np);
    same_multi(&h, &&r, nn);
    let w = &mut g;
    part.verify_ports(&w);
    part.verify_links(&w, ep);
    part.verify_multi(&w, &h);
    same_ports(&h, &w, nn, np);
    same_links(&h, &w, nn, np);
    same_multi(&h, &w, nn);
    if m.links.len() == 3 { cover(0); }
    if m.links.iter().any(|l| l.0 .1 > 1) { cover(1); }
    part.obs();
}
p34_views, covers = 1, bounds = "a filtered graph (any hidden nodes and ports), subgraph (any nodes), region or flat region (any root, every forest) of a PortGraph of 3 (thorough 4) nodes with 2 links, through a reference", {
    let (g, m) = plain(2);
    let (nn, np) = (m.nodes.len(), m.ports.len());
    let kind = choose(below(4));
    if kind < 2 {
        let c = choose(below(1 << nn));
        let s = bits(c, nn);
        if kind == 0 {
            let v: FilteredGraph<&G, NodeFilter<(u64, u64)>, LinkFilter<(u64, u64)>, (u64, u64)> = FilteredGraph::new(&g, nf, pf, (c as u64, below(1 << np) as u64));
            same_ports(&v, &&v, nn, np);
            same_links(&v, &&v, nn, np);
        } else {
            let v = Subgraph::with_nodes(&g, members(&s));
            same_ports(&v, &&v, nn, np);
            same_links(&v, &&v, nn, np);
        }
    } else {
        let (mut h, mut f) = (::portgraph::Hierarchy::new(), F::new(nn));
        grow(&mut h, &mut f, nn - 1);
        let root = ni(choose(below(nn)));
        if kind == 2 {
            let v = Region::new(&g, &h, root);
            same_ports(&v, &&v, nn, np);
            same_links(&v, &&v, nn, np);
        } else {
            let v = FlatRegion::new(&g, &h, root);
            same_ports(&v, &&v, nn, np);
            same_links(&v, &&v, nn, np);
        }
    }
    cover(0);
    m.link_count();
    obs_graph(&m);
}
p34_change, covers = 2, bounds = "PortGraph of 3 nodes with 1 (thorough 2) links, one node removed or none: any of 13 operations with any small arguments, directly and through a reference (once and twice): same result, same callbacks, equal graphs", {
    let (mut g, mut m) = plain(tier(1, 2));
    m.remove(&mut g, choose(below(4)));
    let op = choose(below(13));
    let np = m.ports.len();
    let (a, b) = match op {
        0 | 3 | 8 => (choose(below(4)), choose(below(3))),
        1 => (choose(below(4)), 0),
        5 => (choose(below(m.nodes.len())), choose(below(m.nodes.len()))),
        11 | 12 => (choose(below(4)), choose(below(4))),
        9 => (choose(below(np + 1)), choose(below(np + 1))),
        10 => (choose(below(np + 1)), 0),
        _ => (0, 0),
    };
    let (mut h, mut k) = (g.clone(), g.clone());
    let x = change(&mut h, op, a, b, e1);
    let y = change(&mut &mut k, op, a, b, e1);
    // the direct calls
    let mut z = vec![];
    match op {
        0 => z.push(g.add_node(a, b).index()),
        1 => g.remove_node(ni(a)),
        2 => g.clear(),
        3 => { g.reserve(2 * a + 20, 4 * b + 40); z.push(g.node_capacity()); z.push(g.port_capacity()); }
        4 => { g.shrink_to_fit(); z.push(g.node_capacity()); z.push(g.port_capacity()); }
        5 => g.swap_nodes(ni(a), ni(b)),
        6 => g.compact_nodes(|x, y| { z.push(x.index()); z.push(y.index()); }),
        7 => g.compact_ports(|x, y| { z.push(x.index()); z.push(y.index()); }),
        8 => g.set_num_ports(ni(1), a, b, |p, o| {
            z.push(p.index());
            match o {
                PortOperation::Removed { old_link } => z.push(100 + old_link.map_or(99, |l| l.index())),
                PortOperation::Moved { new_index } => z.push(new_index.index()),
            }
        }),
        9 => match g.link_ports(pi(a), pi(b)) { Ok((x, y)) => z.extend([x.index(), 0, y.index(), 0]), Err(_) => z.push(1000) },
        10 => match g.unlink_port(pi(a)) { Some(x) => z.extend([x.index(), 0]), None => z.push(1000) },
        11 => match g.link_nodes(ni(a), 0, ni(b), 0) { Ok((x, y)) => z.extend([x.index(), 0, y.index(), 0]), Err(_) => z.push(1000) },
        _ => match g.link_offsets(ni(a), PortOffset::new(OUT, 0), ni(b), PortOffset::new(IN, 0)) { Ok((x, y)) => z.extend([x.index(), 0, y.index(), 0]), Err(_) => z.push(1000) },
    }
    ck!(x == z && y == z);
    ck!(g == h && g == k);
    if op == 8 { cover(0); }
    if x.first() == Some(&1000) { cover(1); }
    for v in z { obs(v); }
}
p34_multi_change, covers = 3, bounds = "MultiPortGraph of 2 nodes (1,1) (2,1) with 2 links from any output to any input: any of 13 operations or linking or unlinking any subports, directly and through references: same result, same callbacks, equal graphs", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    for _ in 0..2 { out_in(&mut g, &mut m); }
    let op = choose(below(15));
    let np = 5;
    let (mut h, mut k) = (g.clone(), g.clone());
    if op >= 13 {
        let (p, q) = (choose(below(np)), choose(below(np)));
        let (a, b) = (m.any_subport(&g, p), m.any_subport(&g, q));
        let x = sub_change(&mut h, op == 13, a, b);
        let y = sub_change(&mut &mut k, op == 13, a, b);
        let z = if op == 13 { g.unlink_subport(sp(a)).map_or(1000, |x| ep(x).0 * 8 + ep(x).1) } else { g.link_subports(sp(a), sp(b)).is_ok() as usize };
        ck!(x == z && y == z);
        cover(op as u32 - 13);
        obs(z);
    } else {
        let (a, b) = match op {
            0 | 3 | 8 => (choose(below(4)), choose(below(3))),
            1 => (choose(below(2)), 0),
            5 | 11 | 12 => (choose(below(2)), choose(below(2))),
            9 => (choose(below(np + 1)), choose(below(np + 1))),
            10 => (choose(below(np)), 0),
            _ => (0, 0),
        };
        let x = change(&mut h, op, a, b, ep);
        let y = change(&mut &mut k, op, a, b, ep);
        let mut z = vec![];
        match op {
            0 => z.push(g.add_node(a, b).index()),
            1 => g.remove_node(ni(a)),
            2 => g.clear(),
            3 => { g.reserve(2 * a + 20, 4 * b + 40); z.push(g.node_capacity()); z.push(g.port_capacity()); }
            4 => { g.shrink_to_fit(); z.push(g.node_capacity()); z.push(g.port_capacity()); }
            5 => g.swap_nodes(ni(a), ni(b)),
            6 => g.compact_nodes(|x, y| { z.push(x.index()); z.push(y.index()); }),
            7 => g.compact_ports(|x, y| { z.push(x.index()); z.push(y.index()); }),
            8 => g.set_num_ports(ni(1), a, b, |p, o| {
                z.push(p.index());
                match o {
                    PortOperation::Removed { old_link } => z.push(100 + old_link.map_or(99, |l| l.index())),
                    PortOperation::Moved { new_index } => z.push(new_index.index()),
                }
            }),
            9 => match g.link_ports(pi(a), pi(b)) { Ok((x, y)) => z.extend([ep(x).0, ep(x).1, ep(y).0, ep(y).1]), Err(_) => z.push(1000) },
            10 => match g.unlink_port(pi(a)) { Some(x) => z.extend([ep(x).0, ep(x).1]), None => z.push(1000) },
            11 => match g.link_nodes(ni(a), 0, ni(b), 0) { Ok((x, y)) => z.extend([ep(x).0, ep(x).1, ep(y).0, ep(y).1]), Err(_) => z.push(1000) },
            _ => match g.link_offsets(ni(a), PortOffset::new(OUT, 0), ni(b), PortOffset::new(IN, 0)) { Ok((x, y)) => z.extend([ep(x).0, ep(x).1, ep(y).0, ep(y).1]), Err(_) => z.push(1000) },
        }
        ck!(x == z && y == z);
        for v in z { obs(v); }
    }
    ck!(g == h && g == k);
    cover(2);
}
p34_small, covers = 2, bounds = "PortGraph or MultiPortGraph of 0 to 2 nodes with 0 or 1 ports per side, any of them removed, linked or not; every query, also about absent nodes and ports, through & and &mut", {
    fn all<A, B>(a: &A, b: &B)
    where
        A: MultiView<PortOffsetBase = u16>,
        B: MultiView<PortOffsetBase = u16, LinkEndpoint = A::LinkEndpoint>,
        A::LinkEndpoint: PartialEq,
    {
        plain_all(a, b);
        same_multi(a, b, 3);
    }
    fn plain_all<A, B>(a: &A, b: &B)
    where
        A: LinkView<PortOffsetBase = u16>,
        B: LinkView<PortOffsetBase = u16, LinkEndpoint = A::LinkEndpoint>,
        A::LinkEndpoint: PartialEq,
    {
        same_ports(a, b, 3, 5);
        same_links(a, b, 3, 5);
        for n in (0..4).map(ni) {
            if a.contains_node(n) { continue }
            ck!(a.num_inputs(n) == b.num_inputs(n) && a.num_outputs(n) == b.num_outputs(n) && a.node_port_capacity(n) == b.node_port_capacity(n));
            eq(a.all_ports(n), b.all_ports(n));
            eq(a.all_port_offsets(n), b.all_port_offsets(n));
            ck!(a.input(n, 0) == b.input(n, 0) && a.output(n, 0) == b.output(n, 0));
            for d in [IN, OUT] {
                eq(a.ports(n, d), b.ports(n, d));
                eq(a.port_offsets(n, d), b.port_offsets(n, d));
                eq(a.links(n, d), b.links(n, d));
                eq(a.neighbours(n, d), b.neighbours(n, d));
                ck!(a.port_index(n, PortOffset::new(d, 0)) == b.port_index(n, PortOffset::new(d, 0)));
            }
            eq(a.all_links(n), b.all_links(n));
            eq(a.all_neighbours(n), b.all_neighbours(n));
            eq(a.get_connections(n, n), b.get_connections(n, n));
        }
        for p in (0..6).map(pi) {
            if a.contains_port(p) { continue }
            ck!(a.port_direction(p) == b.port_direction(p) && a.port_node(p) == b.port_node(p) && a.port_offset(p) == b.port_offset(p));
        }
    }
    fn build<M: LinkMut<PortOffsetBase = u16>>(g: &mut M) {
        let n = choose(below(3));
        for _ in 0..n { g.add_node(choose(below(2)), choose(below(2))); }
        if any_bool() { let _ = g.link_nodes(ni(0), 0, ni(choose(below(2))), 0); }
        for i in 0..n { if any_bool() { g.remove_node(ni(i)); } }
        cover(g.is_empty() as u32);
    }
    if any_bool() {
        let mut g: G = G::new();
        build(&mut g);
        let h = g.clone();
        plain_all(&h, &&h);
        plain_all(&h, &&mut g);
    } else {
        let mut g = MG::new();
        build(&mut g);
        let h = g.clone();
        all(&h, &&h);
        all(&h, &&mut g);
    }
}}
