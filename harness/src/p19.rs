//! Subgraph: views of node sets with their boundary.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::algorithms::{LineConvexChecker, TopoConvexChecker};
use ::portgraph::view::Subgraph;

/// links crossing from or into the set
fn crossing(m: &MM, s: &[bool]) -> Vec<(EP, EP)> {
    m.links.iter().copied().filter(|l| s[m.node(l.0 .0)] != s[m.node(l.1 .0)]).collect()
}
/// ports of set members with a link to the outside
fn edge(m: &MM, s: &[bool], p: usize) -> bool {
    s[m.node(p)] && crossing(m, s).iter().any(|l| l.0 .0 == p || l.1 .0 == p)
}
/// do all links of the ports of `b` leave the set?
fn clean(m: &MM, s: &[bool], b: &[usize]) -> bool {
    m.links.iter().all(|l| !(s[m.node(l.0 .0)] && s[m.node(l.1 .0)]) || !(b.contains(&l.0 .0) || b.contains(&l.1 .0)))
}
fn set(n: usize) -> Vec<bool> {
    let c = choose(below(1 << n));
    (0..n).map(|k| c >> k & 1 == 1).collect()
}
/// members connected to `from` inside the set
fn component(m: &MM, s: &[bool], from: &[usize]) -> Vec<bool> {
    let mut r = vec![false; s.len()];
    for &n in from { r[n] = true; }
    for _ in 0..s.len() {
        for l in &m.links {
            let (a, b) = (m.node(l.0 .0), m.node(l.1 .0));
            if s[a] && s[b] && (r[a] || r[b]) { r[a] = true; r[b] = true; }
        }
    }
    r
}
fn acyclic(m: &MM) -> bool {
    let n = m.b.nodes.len();
    let mut done = vec![false; n];
    for _ in 0..n {
        for x in 0..n {
            if !m.links.iter().any(|l| m.node(l.1 .0) == x && !done[m.node(l.0 .0)]) { done[x] = true; }
        }
    }
    done.iter().all(|d| *d)
}
fn list(s: &[bool]) -> Vec<usize> {
    (0..s.len()).filter(|&n| s[n]).collect()
}
/// the boundary lists exactly the ports with links leaving the set, by node in the given order
fn check_boundary(b: &Boundary, m: &MM, s: &[bool], order: &[usize]) {
    for out in [false, true] {
        let got = if out { b.output_indices() } else { b.input_indices() };
        let mut k = 0;
        for &n in order {
            for j in 0..m.b.nports(n, out) {
                let p = m.b.port(n, out, j);
                if edge(m, s, p) {
                    ck!(k < got.len() && got[k].index() == p);
                    k += 1;
                }
            }
        }
        ck!(k == got.len());
    }
}
/// boundary ports of the set, in an order picked by the solver
fn boundary(m: &MM, s: &[bool], flip: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..m.b.ports.len()).filter(|&p| m.b.palive(p) && edge(m, s, p)).collect();
    if flip { v.reverse(); }
    v
}
fn from_boundary(m: &MM, s: &[bool], b: &[usize]) -> Vec<bool> {
    if b.is_empty() { return (0..s.len()).map(|n| m.b.alive(n)).collect(); }
    let at: Vec<usize> = b.iter().map(|&p| m.node(p)).collect();
    component(m, s, &at)
}
harnesses! {
p19_nodes, covers = 3, bounds = "with_nodes on a PortGraph of 3 (thorough 4) nodes with 2 ports each way, every set of 3 links; every set of nodes, listed up or down: all queries, boundary, convexity (against path search; also with cycles absent)", {
    let (g, m) = square(tier(3, 4), 2, 3);
    let m = of(&m);
    let s = set(m.b.nodes.len());
    let mut order = list(&s);
    if any_bool() { order.reverse(); }
    let v = Subgraph::with_nodes(&g, order.iter().map(|&n| ni(n)));
    let part = Part::new(&m, s.clone(), |_| true);
    part.verify_ports(&v);
    part.verify_links(&v, e1);
    check_boundary(&v.port_boundary(), &m, &s, &order);
    if acyclic(&m) {
        let c = v.is_convex();
        ck!(c == convex(&m, &s));
        if !c { cover(0); } else if order.len() == 2 { cover(1); }
    }
    if v.port_boundary().num_ports() == 3 { cover(2); }
    part.obs();
}
p19_boundary, covers = 3, bounds = "new_subgraph on a PortGraph of 3 nodes with 2 ports each way, every set of 2 (thorough 3) links; the boundary of every set of nodes, ports listed up or down, optionally one disconnected port: shows exactly the nodes connected to the boundary within the set (all nodes if it is empty)", {
    let (g, m) = square(3, 2, tier(2, 3));
    let m = of(&m);
    let s = set(m.b.nodes.len());
    let mut b = boundary(&m, &s, any_bool());
    let x = choose(below(m.b.ports.len() + 1));
    if x < m.b.ports.len() {
        assume(s[m.node(x)] && m.port_links(x).is_empty());
        b.push(x);
        cover(0);
    }
    let bd = Boundary::from_ports(&g, b.iter().map(|&p| pi(p)));
    let nodes = from_boundary(&m, &s, &b);
    let v = Subgraph::new_subgraph(&g, bd.clone());
    ck!(*v.port_boundary() == bd);
    let part = Part::new(&m, nodes.clone(), |_| true);
    part.verify_ports(&v);
    part.verify_links(&v, e1);
    if b.is_empty() { cover(1); }
    if part.count() < list(&s).len() { cover(2); }
    part.obs();
}
p19_multi_nodes, covers = 1, bounds = "with_nodes on a MultiPortGraph of 3 nodes, 3 (thorough 4) links from any output to any input; every set of nodes; all queries incl. subports, boundary, convexity", {
    let (g, m) = multi(tier(3, 4));
    let s = set(3);
    let v = Subgraph::with_nodes(&g, list(&s).into_iter().map(ni));
    let part = Part::new(&m, s.clone(), |_| true);
    part.verify_ports(&v);
    part.verify_links(&v, ep);
    part.verify_multi(&v, &g);
    check_boundary(&v.port_boundary(), &m, &s, &list(&s));
    if acyclic(&m) {
        ck!(v.is_convex() == convex(&m, &s));
        if !convex(&m, &s) { cover(0); }
    }
    part.obs();
}
p19_multi_boundary, covers = 1, bounds = "new_subgraph on a MultiPortGraph of 4 nodes, every choice of 3 (thorough 4) links between them, repeated ones included; the boundary of every set of nodes none of whose boundary ports also has an inner link", {
    let (g, m) = msquare(4, tier(3, 4), true);
    let s = set(m.b.nodes.len());
    let b = boundary(&m, &s, false);
    assume(!b.is_empty() && clean(&m, &s, &b));
    let nodes = from_boundary(&m, &s, &b);
    let v = Subgraph::new_subgraph(&g, Boundary::from_ports(&g, b.iter().map(|&p| pi(p))));
    let part = Part::new(&m, nodes.clone(), |_| true);
    part.verify_ports(&v);
    part.verify_links(&v, ep);
    part.verify_multi(&v, &g);
    if part.m.links.len() == 2 { cover(0); }
    part.obs();
}
p19_fan, covers = 1, bounds = "new_subgraph on a MultiPortGraph of 5 nodes, one port of the first with 4 links, in or out, to any of the others, and one link between others; from a port without links of the first node: exactly the nodes connected to it", {
    let out = choose(below(2)) == 1;
    let mut g = MG::new();
    let mut m = MM::new();
    for _ in 0..5 { m.add(&mut g, 1, 1); }
    for _ in 0..4 {
        let x = 1 + choose(below(4));
        let (a, b) = (m.b.port(0, out, 0), m.b.port(x, !out, 0));
        m.link(&mut g, a, b);
    }
    let (x, y) = (1 + choose(below(4)), 1 + choose(below(4)));
    assume(x < y);
    let (a, b) = (m.b.port(x, out, 0), m.b.port(y, !out, 0));
    m.link(&mut g, a, b);
    let b = m.b.port(0, !out, 0);
    let nodes = component(&m, &[true; 5], &[0]);
    let v = Subgraph::new_subgraph(&g, Boundary::from_ports(&g, [pi(b)]));
    let part = Part::new(&m, nodes.clone(), |_| true);
    part.verify_ports(&v);
    part.verify_links(&v, ep);
    if part.count() == 5 { cover(0); }
    part.obs();
}
p19_whole, covers = 1, bounds = "new_subgraph with an empty boundary on a PortGraph of 3 (thorough 4) nodes, 3 links, one node removed: the whole graph", {
    let (mut g, mut m) = plain(3);
    m.remove(&mut g, choose(below(4)));
    let m = of(&m);
    let v = Subgraph::new_subgraph(&g, Boundary::new([], []));
    let part = Part::new(&m, (0..m.b.nodes.len()).map(|n| m.b.alive(n)).collect(), |_| true);
    part.verify_ports(&v);
    part.verify_links(&v, e1);
    cover(0);
    part.obs();
}
p19_large, covers = 3, bounds = "PortGraph of 7 nodes in a chain with two skipping links and a self-link or another: with_nodes of every set, and new_subgraph of the boundary of every set, ports up or down: nodes, links, boundary, convexity", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..7 { m.add(&mut g, 2, 2); }
    for k in 0..6 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    let cyc = any_bool();
    for (x, y) in [(0, 3), (2, 6), (4, if cyc { 4 } else { 5 })] { let (a, b) = (m.port(x, true, 1), m.port(y, false, 1)); m.link(&mut g, a, b); }
    let m = of(&m);
    let s = set(7);
    if choose(below(2)) == 0 {
        let v = Subgraph::with_nodes(&g, list(&s).into_iter().map(ni));
        let part = Part::new(&m, s.clone(), |_| true);
        part.verify_ports(&v);
        part.verify_links(&v, e1);
        check_boundary(&v.port_boundary(), &m, &s, &list(&s));
        if !cyc {
            ck!(v.is_convex() == convex(&m, &s));
            if part.count() == 6 && convex(&m, &s) { cover(2); }
        }
        if part.count() == 5 { cover(0); }
        part.obs();
    } else {
        let b = boundary(&m, &s, list(&s).len() % 2 == 0);
        let nodes = from_boundary(&m, &s, &b);
        let v = Subgraph::new_subgraph(&g, Boundary::from_ports(&g, b.iter().map(|&p| pi(p))));
        let part = Part::new(&m, nodes.clone(), |_| true);
        part.verify_ports(&v);
        part.verify_links(&v, e1);
        if part.count() == 6 { cover(1); }
        part.obs();
    }
}
p19_checkers, covers = 2, bounds = "every acyclic graph on 4 nodes by one order and every set of its nodes, also as a subgraph of a subgraph without any node: convexity with a topological or a line checker of the same graph", {
    let (g, m) = digraph(4, |a, b| a < b);
    let m = of(&m);
    let out = choose(below(5));
    let outer: Vec<bool> = (0..4).map(|n| n != out).collect();
    let s: Vec<bool> = set(4).iter().zip(&outer).map(|(a, b)| *a && *b).collect();
    let u = Subgraph::with_nodes(&g, list(&outer).into_iter().map(ni));
    let part = Part::new(&m, outer.clone(), |_| true);
    let v = Subgraph::with_nodes(&u, list(&s).into_iter().map(ni));
    let want = convex(&part.m, &s);
    let (t, l) = (TopoConvexChecker::new(&u), LineConvexChecker::new(&u));
    ck!(v.is_convex() == want);
    ck!(v.is_convex_with_checker(&t) == want);
    ck!(v.is_convex_with_checker(&l) == want);
    let inner = Part::new(&part.m, s.clone(), |_| true);
    inner.verify_ports(&v);
    inner.verify_links(&v, e1);
    if !want { cover(0); if out < 4 { cover(1); } }
    obs(want as usize);
}
}
