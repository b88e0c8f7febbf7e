//! Weights and secondary maps follow their nodes and ports when the renaming
//! callbacks are propagated as the documentation shows.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use ::portgraph::{SecondaryMap, UnmanagedDenseMap, Weights};
use bitvec::vec::BitVec;

type W = Weights<u64, u64>;
fn fill(w: &mut W, m: &Model) -> (Vec<u64>, Vec<u64>) {
    let (mut nw, mut pw) = (vec![0; m.nodes.len()], vec![0; m.ports.len()]);
    for n in 0..nw.len() { if m.alive(n) { let x = any_u64(); assume(x != 0); nw[n] = x; w[ni(n)] = x; } }
    for p in 0..pw.len() { if m.palive(p) { let x = any_u64(); assume(x != 0); pw[p] = x; w[pi(p)] = x; } }
    (nw, pw)
}
/// weights of every (node, direction, offset) before a change, compared after it
fn follow(m0: &Model, m1: &Model, w: &W, nw: &[u64], pw: &[u64], node: impl Fn(usize) -> usize, fresh: bool) {
    for n in 0..m0.nodes.len() {
        if !m0.alive(n) { continue; }
        let n1 = node(n);
        ck!(w[ni(n1)] == nw[n]);
        for out in [false, true] {
            let (a, b) = (m0.nports(n, out), m1.nports(n1, out));
            for k in 0..a.min(b) { ck!(w[pi(m1.port(n1, out, k))] == pw[m0.port(n, out, k)]); }
            if fresh { for k in a..b { ck!(w[pi(m1.port(n1, out, k))] == 0); } }
        }
    }
}
fn graph() -> (G, Model) {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 2);
    m.add(&mut g, 1, 0);
    (g, m)
}
harnesses! {
p17_resize_rekey, covers = 1, bounds = "3 nodes with any non-zero weights on nodes and ports; one optionally resized first (slack); then any node resized to every (0..=3, 0..=3), propagated with rekey(old, op.new_index()): surviving ports keep their weight, new ones have the default", {
    let (mut g, mut m) = graph();
    if choose(below(2)) == 1 { m.set_ports(&mut g, 1, 1, 1); }
    if choose(below(2)) == 1 { m.remove(&mut g, 2); }
    let mut w = W::new();
    let (nw, pw) = fill(&mut w, &m);
    let m0 = m.clone();
    let (n, i, o) = (choose(below(2)), choose(below(4)), choose(below(4)));
    let (mut mv, mut rm) = (vec![], vec![]);
    g.set_num_ports(ni(n), i, o, |old, op| {
        w.ports.rekey(old, op.new_index());
        match op { PortOperation::Moved { new_index } => mv.push((old.index(), new_index.index())), PortOperation::Removed { old_link } => rm.push((old.index(), pidx(old_link))) }
    });
    m.resized(&g, n, i, o, &mv, &rm, true);
    follow(&m0, &m, &w, &nw, &pw, |x| x, true);
    cover(0);
}
p17_resize_swap, covers = 1, bounds = "as above, propagated with swap(old, new) as in the module documentation: surviving ports keep their weight", {
    let (mut g, mut m) = graph();
    if choose(below(2)) == 1 { m.set_ports(&mut g, 1, 1, 1); }
    if choose(below(2)) == 1 { m.remove(&mut g, 2); }
    let mut w = W::new();
    let (nw, pw) = fill(&mut w, &m);
    let m0 = m.clone();
    let (n, i, o) = (choose(below(2)), choose(below(4)), choose(below(4)));
    let (mut mv, mut rm) = (vec![], vec![]);
    g.set_num_ports(ni(n), i, o, |old, op| {
        op.new_index().map(|new| w.ports.swap(old, new));
        match op { PortOperation::Moved { new_index } => mv.push((old.index(), new_index.index())), PortOperation::Removed { old_link } => rm.push((old.index(), pidx(old_link))) }
    });
    m.resized(&g, n, i, o, &mv, &rm, true);
    follow(&m0, &m, &w, &nw, &pw, |x| x, false);
    cover(0);
}
p17_compact, covers = 1, bounds = "4 nodes with any weights, any two (or fewer) removed, compact_nodes and compact_ports in either order propagated with rekey, then shrink_to the counts", {
    let (mut g, mut m) = graph();
    m.add(&mut g, 0, 2);
    for _ in 0..2 { let r = choose(below(5)); m.remove(&mut g, r); }
    any_link(&mut g, &mut m);
    let mut w = W::with_capacity(2, 9);
    let (nw, pw) = fill(&mut w, &m);
    let m0 = m.clone();
    let mut map: Vec<usize> = (0..5).collect();
    for step in 0..2 {
        if (choose(below(2)) == 1) == (step == 0) {
            let mut ren = vec![];
            g.compact_nodes(|a, b| { w.nodes.rekey(a, Some(b)); ren.push((a.index(), b.index())); });
            for r in &ren { for x in map.iter_mut() { if *x == r.0 { *x = r.1; break; } } }
            m.nodes_compacted(&ren);
        } else {
            let mut ren = vec![];
            g.compact_ports(|a, b| { w.ports.rekey(a, Some(b)); ren.push((a.index(), b.index())); });
            m.ports_compacted(&ren);
        }
    }
    w.nodes.shrink_to(m.nodes.len());
    w.ports.shrink_to(m.ports.len());
    let live: Vec<usize> = (0..4).filter(|&n| m0.alive(n)).collect();
    for &n in &live {
        // compaction keeps the order, so the node's new index is found through its weight's owner
        ck!(m.alive(map[n]));
    }
    follow(&m0, &m, &w, &nw, &pw, |x| map[x], true);
    cover(0);
}
p17_multi, covers = 1, bounds = "MultiPortGraph of 2 nodes with 2 links between any ports, any weights; any node resized to every (0..=3, 0..=2) with rekey, then compact_nodes and compact_ports with rekey", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    for _ in 0..2 { out_in(&mut g, &mut m); }
    let mut w = W::new();
    let (nw, pw) = fill(&mut w, &m.b);
    let m0 = m.b.clone();
    let (n, i, o) = (choose(below(2)), choose(below(4)), choose(below(3)));
    let (mut mv, mut rm) = (vec![], vec![]);
    g.set_num_ports(ni(n), i, o, |old, op| {
        w.ports.rekey(old, op.new_index());
        match op { PortOperation::Moved { new_index } => mv.push((old.index(), new_index.index())), PortOperation::Removed { old_link } => rm.push((old.index(), pidx(old_link))) }
    });
    m.b.resized(&g, n, i, o, &mv, &rm, false);
    follow(&m0, &m.b, &w, &nw, &pw, |x| x, true);
    let mut ren = vec![];
    g.compact_ports(|a, b| { w.ports.rekey(a, Some(b)); ren.push((a.index(), b.index())); });
    ren.retain(|r| m.b.palive(r.0));
    m.b.rename_ports(&ren);
    for l in m.b.nodes.iter_mut().flatten() { for d in 0..2 { for p in l[d].iter_mut() { if let Some(r) = ren.iter().find(|r| r.0 == *p) { *p = r.1; } } } }
    follow(&m0, &m.b, &w, &nw, &pw, |x| x, true);
    let mut map: Vec<usize> = (0..2).collect();
    let mut ren = vec![];
    g.compact_nodes(|a, b| { w.nodes.rekey(a, Some(b)); if a.index() < 2 { map[a.index()] = b.index(); } ren.push((a.index(), b.index())); });
    ren.retain(|r| m.b.alive(r.0));
    m.b.rename_nodes(&ren);
    follow(&m0, &m.b, &w, &nw, &pw, |x| map[x], true);
    cover(0);
}
p17_weights, covers = 1, bounds = "Weights of any capacity: node and port weights of any keys below 4 set to any values do not interfere; unset ones read the default", {
    let mut w = if any_bool() { W::new() } else { W::with_capacity(3, 3) };
    let (a, b, x, y) = (below(4), below(4), any_u64(), any_u64());
    w[ni(a)] = x;
    w[pi(b)] = y;
    for k in 0..5 {
        ck!(w[ni(k)] == if k == a { x } else { 0 });
        ck!(w[pi(k)] == if k == b { y } else { 0 });
    }
    let d = W::default();
    ck!(d[ni(a)] == 0 && d[pi(b)] == 0);
    cover(0);
}
p17_large, covers = 2, bounds = "10 nodes with any weights in a chain of links, two of them resized (propagated), every set of nodes removed, compact_nodes and compact_ports in either order propagated with rekey, then shrink_to the counts", {
    let mut g = G::new();
    let mut m = Model::new();
    for k in 0..10 { m.add(&mut g, 1 + (k == 4) as usize, 1 + k % 2); }
    for k in 0..9 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    let mut w = W::new();
    let (nw, mut pw) = fill(&mut w, &m);
    for (n, i, o) in [(2, 2, 3), (7, 0, 1)] {
        let m0 = m.clone();
        let (mut mv, mut rm) = (vec![], vec![]);
        g.set_num_ports(ni(n), i, o, |old, op| {
            w.ports.rekey(old, op.new_index());
            match op { PortOperation::Moved { new_index } => mv.push((old.index(), new_index.index())), PortOperation::Removed { old_link } => rm.push((old.index(), pidx(old_link))) }
        });
        m.resized(&g, n, i, o, &mv, &rm, true);
        follow(&m0, &m, &w, &nw, &pw, |x| x, true);
        pw = (0..m.ports.len()).map(|p| w[pi(p)]).collect();
    }
    let c = any_bits(10);
    for k in 0..10 { if c >> k & 1 == 1 { m.remove(&mut g, k); } }
    let m0 = m.clone();
    let mut map: Vec<usize> = (0..10).collect();
    let first = c % 3 == 0;
    for step in 0..2 {
        if first == (step == 0) {
            let mut ren = vec![];
            g.compact_nodes(|a, b| { w.nodes.rekey(a, Some(b)); ren.push((a.index(), b.index())); });
            for r in &ren { map[r.0] = r.1; }
            m.nodes_compacted(&ren);
        } else {
            let mut ren = vec![];
            g.compact_ports(|a, b| { w.ports.rekey(a, Some(b)); ren.push((a.index(), b.index())); });
            m.ports_compacted(&ren);
        }
    }
    w.nodes.shrink_to(m.nodes.len());
    w.ports.shrink_to(m.ports.len());
    follow(&m0, &m, &w, &nw, &pw, |x| map[x], true);
    for k in m.nodes.len()..11 { ck!(w[ni(k)] == 0); }
    for k in m.ports.len()..40 { ck!(w[pi(k)] == 0); }
    if c == 0b1010101010 { cover(0); }
    if c == 1023 { cover(1); }
}
}
