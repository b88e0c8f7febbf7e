//! Boundaries and the reachability order of their ports.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::boundary::{Boundary, BoundaryPort, PortOrdering};
use ::portgraph::view::Subgraph;

/// boundary ports of the set: all with links to the outside, in port order
fn crossing(m: &MM, s: &[bool]) -> Vec<usize> {
    (0..m.b.ports.len()).filter(|&p| m.b.palive(p) && s[m.node(p)] && m.port_links(p).iter().any(|l| !s[m.node(l.1 .0)])).collect()
}
/// `reach[u][v]`: v is u or can be reached from it by links inside the set, not by the ports `b`
fn inner(m: &MM, s: &[bool], b: &[usize]) -> Vec<Vec<bool>> {
    let n = s.len();
    let mut r = vec![vec![false; n]; n];
    for u in 0..n {
        r[u][u] = s[u];
        for _ in 0..n {
            for l in &m.links {
                let (x, y) = (m.node(l.0 .0), m.node(l.1 .0));
                if s[x] && s[y] && r[u][x] && !b.contains(&l.0 .0) && !b.contains(&l.1 .0) { r[u][y] = true; }
            }
        }
    }
    r
}
fn split(m: &MM, b: &[usize]) -> (Vec<usize>, Vec<usize>) {
    (b.iter().copied().filter(|&p| !m.out(p)).collect(), b.iter().copied().filter(|&p| m.out(p)).collect())
}
fn bp(b: &Boundary, p: usize, out: bool) -> BoundaryPort { b.find_port(pi(p), dir(out)) }
/// the ordering has exactly the pairs of `r`
fn judge(m: &MM, b: &Boundary, o: &PortOrdering, ports: &[usize], r: &[Vec<bool>]) -> usize {
    let (i, o2) = split(m, ports);
    let mut k = 0;
    for &x in &i {
        let got = o.reachable_ports(bp(b, x, false));
        let mut c = 0;
        for &y in &o2 {
            let w = r[m.node(x)][m.node(y)];
            ck!(got.contains(&bp(b, y, true)) == w);
            ck!(o.reaching_ports(bp(b, y, true)).contains(&bp(b, x, false)) == w);
            if w { c += 1; }
        }
        ck!(got.len() == c);
        k += c;
    }
    let total: usize = o2.iter().map(|&y| o.reaching_ports(bp(b, y, true)).len()).sum();
    ck!(total == k);
    obs(k);
    k
}
fn ports(b: &[usize]) -> Vec<P> { b.iter().map(|&p| pi(p)).collect() }
harnesses! {
p29_basic, covers = 2, bounds = "3 nodes with 2 ports each way, every list of up to 4 different ports: order kept by direction, every lookup, compatibility with every other boundary of up to 2 ports", {
    let (g, m) = square(3, 2, 0);
    let m = of(&m);
    let n = choose(below(5));
    let mut l: Vec<usize> = vec![];
    for _ in 0..n {
        let p = choose(below(12));
        assume(!l.contains(&p));
        l.push(p);
    }
    let b = Boundary::from_ports(&g, ports(&l));
    let (i, o) = split(&m, &l);
    ck!(b.num_ports() == n);
    ck!(b.input_indices() == &ports(&i)[..] && b.output_indices() == &ports(&o)[..]);
    same(b.port_indices(), |p| p.index(), &[&i[..], &o[..]].concat());
    same(b.inputs(), |p| b.port_index(&p).index(), &i);
    same(b.outputs(), |p| b.port_index(&p).index(), &o);
    for out in [false, true] {
        let w = if out { &o } else { &i };
        same(b.ports(dir(out)), |p| b.port_index(&p).index(), w);
        for (k, &p) in w.iter().enumerate() {
            let x = b.find_port(pi(p), dir(out));
            ck!(b.port_index(&x).index() == p);
            ck!(b.ports(dir(out)).nth(k) == Some(x));
        }
    }
    ck!(b == Boundary::new(ports(&i), ports(&o)));
    for (x, y) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 2)] {
        let c = Boundary::new((0..x).map(pi), (0..y).map(|k| pi(2 + k)));
        ck!(b.is_compatible(&c) == (i.len() == x && o.len() == y));
    }
    obs(n);
    if i.len() == 2 && o.len() == 2 { cover(0); }
    if o.is_empty() { cover(1); }
}
p29_subgraph, covers = 3, bounds = "every graph on 4 (thorough 5) nodes acyclic by one order, every node set as a subgraph, its boundary in either order with or without a free port each way of any node: exactly the pairs reachable inside", {
    let n = tier(4, 5);
    let (g, m) = digraph(n, |i, j| if n == 5 { ranks(1, 5)[i] < ranks(1, 5)[j] } else { [2, 0, 3, 1][i] < [2, 0, 3, 1][j] });
    let m = of(&m);
    let s = bits(choose(below(1 << n)), n);
    let sub = Subgraph::with_nodes(&g, members(&s));
    let mut b = crossing(&m, &s);
    let x = choose(below(n + 1));
    if x < n {
        assume(s[x]);
        b.insert(0, m.b.port(x, false, x));
        b.push(m.b.port(x, true, x));
    }
    if any_bool() { b.reverse(); }
    let bd = Boundary::from_ports(&g, ports(&b));
    let o = bd.port_ordering(&sub);
    let k = judge(&m, &bd, &o, &b, &inner(&m, &s, &b));
    if k == 0 && b.len() == 4 { cover(0); }
    if k >= 4 { cover(1); }
    if k == 1 && split(&m, &b).0.len() == 3 { cover(2); }
}
p29_whole, covers = 2, bounds = "as before, for every convex set and its boundary in the whole graph", {
    let n = tier(4, 5);
    let (g, m) = digraph(n, |i, j| if n == 5 { ranks(1, 5)[i] < ranks(1, 5)[j] } else { [2, 0, 3, 1][i] < [2, 0, 3, 1][j] });
    let m = of(&m);
    let s = bits(choose(below(1 << n)), n);
    assume(convex(&m, &s));
    let mut b = crossing(&m, &s);
    let x = choose(below(n + 1));
    if x < n {
        assume(s[x]);
        b.insert(0, m.b.port(x, false, x));
        b.push(m.b.port(x, true, x));
    }
    let bd = Boundary::from_ports(&g, ports(&b));
    let o = bd.port_ordering(&g);
    let k = judge(&m, &bd, &o, &b, &inner(&m, &s, &b));
    if k >= 4 { cover(0); }
    if k == 1 && split(&m, &b).0.len() == 3 { cover(1); }
}
p29_multi, covers = 2, bounds = "acyclic MultiPortGraph of 4 nodes with one port each way and 4 different links, every node set as subgraph whose boundary ports have no links inside, boundary in port order; also for convex sets in the whole graph; 2 hash orders", {
    seed(choose(below(2)) * 0x36 + 0x11);
    let (g, m) = msquare(4, 4, false);
    assume(acyclic(4, &m.arcs()));
    let s = bits(choose(below(16)), 4);
    let b = crossing(&m, &s);
    assume(b.iter().all(|&p| m.port_links(p).iter().all(|l| !s[m.node(l.1 .0)])));
    let bd = Boundary::from_ports(&g, ports(&b));
    let w = inner(&m, &s, &b);
    let sub = Subgraph::with_nodes(&g, members(&s));
    let k = judge(&m, &bd, &bd.port_ordering(&sub), &b, &w);
    if convex(&m, &s) { judge(&m, &bd, &bd.port_ordering(&g), &b, &w); cover(0); }
    if k == 2 { cover(1); }
}
p29_stronger, covers = 3, bounds = "two acyclic graphs of 2 sources and 2 sinks with a node between, every set of links in either, boundaries of the free ports of sources and sinks in any order of two: stronger exactly if no pair is missing, missing pairs exactly", {
    let mk = || digraph(5, |i, j| i < 2 && j == 2 || i == 2 && j > 2 || DEEP && (i == 0 && j == 3 || i == 1 && j == 4));
    let ((g1, m1), (g2, m2)) = (mk(), mk());
    let (m1, m2) = (of(&m1), of(&m2));
    let bd = |m: &MM, f: bool| {
        let l = [m.b.port(0, false, 0), m.b.port(1, false, 1), m.b.port(3, true, 3), m.b.port(4, true, 4)];
        if f { vec![l[1], l[0], l[2], l[3]] } else { l.to_vec() }
    };
    let flip = any_bool();
    let (l1, l2) = (bd(&m1, false), bd(&m2, flip));
    let (b1, b2) = (Boundary::from_ports(&g1, ports(&l1)), Boundary::from_ports(&g2, ports(&l2)));
    ck!(b1.is_compatible(&b2));
    let s = vec![true; 5];
    let (r1, r2) = (inner(&m1, &s, &l1), inner(&m2, &s, &l2));
    let (o1, o2) = (b1.port_ordering(&g1), b2.port_ordering(&g2));
    judge(&m1, &b1, &o1, &l1, &r1);
    judge(&m2, &b2, &o2, &l2, &r2);
    let mut miss = vec![];
    for (k1, x) in b2.inputs().enumerate() {
        for (k2, y) in b2.outputs().enumerate() {
            let has = |m: &MM, l: &[usize], r: &[Vec<bool>]| r[m.node(l[k1])][m.node(l[2 + k2])];
            if has(&m2, &l2, &r2) && !has(&m1, &l1, &r1) { miss.push((x, y)); }
        }
    }
    ck!(o1.is_stronger_than(&o2) == miss.is_empty());
    ck!(b1.is_stronger_than(&b2, &g1, &g2) == miss.is_empty());
    let mut k = 0;
    for p in o1.missing_pairs(&o2) { ck!(miss.contains(&p)); k += 1; }
    ck!(k == miss.len());
    obs(k);
    if k == 0 && !m2.links.is_empty() && m1.links.len() == 2 { cover(0); }
    if k == 1 { cover(1); }
    if k == 4 { cover(2); }
}
p29_wide, covers = 2, bounds = "two graphs of one source and 4 sinks (thorough 5), every set of links in either, boundaries of the free ports: pairs, strength and missing pairs exactly", {
    let n = tier(5, 6);
    let mk = || digraph(n, |i, j| i == 0 && j > 0);
    let ((g1, m1), (g2, m2)) = (mk(), mk());
    let (m1, m2) = (of(&m1), of(&m2));
    let bd = |m: &MM| {
        let mut l = vec![m.b.port(0, false, 1)];
        l.extend((1..n).map(|x| m.b.port(x, true, x)));
        l
    };
    let (l1, l2) = (bd(&m1), bd(&m2));
    let (b1, b2) = (Boundary::from_ports(&g1, ports(&l1)), Boundary::from_ports(&g2, ports(&l2)));
    let s = vec![true; n];
    let (r1, r2) = (inner(&m1, &s, &l1), inner(&m2, &s, &l2));
    let (o1, o2) = (b1.port_ordering(&g1), b2.port_ordering(&g2));
    judge(&m1, &b1, &o1, &l1, &r1);
    judge(&m2, &b2, &o2, &l2, &r2);
    let miss: Vec<usize> = (1..n).filter(|&x| r2[0][x] && !r1[0][x]).collect();
    ck!(o1.is_stronger_than(&o2) == miss.is_empty());
    ck!(b1.is_stronger_than(&b2, &g1, &g2) == miss.is_empty());
    let x = b2.inputs().next().unwrap();
    let mut k = 0;
    for (a, b) in o1.missing_pairs(&o2) {
        ck!(a == x && miss.iter().any(|&q| b2.port_index(&b).index() == m2.b.port(q, true, q)));
        k += 1;
    }
    ck!(k == miss.len());
    if k == 1 && m1.links.len() >= 3 && m2.links.len() >= 3 { cover(0); }
    if k == n - 1 { cover(1); }
}
p29_large, covers = 2, bounds = "a line of 8 nodes, one link missing or none, and each of 4 skipping links there or not, numbered along the line or against it: boundary of a free input and output of every node, in the whole graph and as a subgraph without one node or all", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..8 { m.add(&mut g, 3, 3); }
    let against = choose(below(2)) == 1;
    let at = |k: usize| if against { 7 - k } else { k };
    let skip = choose(below(8));
    let mut add = |i: usize, j: usize, k: usize| { let (a, b) = (m.port(at(i), true, k), m.port(at(j), false, k)); ck!(m.link(&mut g, a, b)); };
    for k in 0..7 { if k != skip { add(k, k + 1, 0); } }
    let c = any_bits(4);
    for k in 0..4 { if c >> k & 1 == 1 { let (i, j) = [(0, 7), (3, 5), (2, 4), (1, 6)][k]; add(i, j, 1); } }
    let m = of(&m);
    let x = (skip + c) % 9;
    let s: Vec<bool> = (0..8).map(|k| k != x).collect();
    let mut b: Vec<usize> = if x < 8 { crossing(&m, &s) } else { vec![] };
    for k in 0..8 { if s[k] { b.push(m.b.port(k, false, 2)); b.insert(0, m.b.port(k, true, 2)); } }
    let bd = Boundary::from_ports(&g, ports(&b));
    let w = inner(&m, &s, &b);
    let k = if x < 8 { judge(&m, &bd, &bd.port_ordering(&Subgraph::with_nodes(&g, members(&s))), &b, &w) } else { judge(&m, &bd, &bd.port_ordering(&g), &b, &w) };
    if x < 8 && convex(&m, &s) { judge(&m, &bd, &bd.port_ordering(&g), &b, &w); }
    if k == 36 { cover(0); }
    if x < 8 && k < 20 { cover(1); }
}
}
