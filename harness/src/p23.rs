//! Post-order traversal.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::algorithms::{postorder, postorder_filtered};

/// Reference: recursive depth-first search in port order.
struct Dfs<'a> {
    m: &'a MM,
    out: bool,
    nodes: &'a [bool],
    ports: &'a [bool],
    seen: Vec<bool>,
    order: Vec<usize>,
}
impl Dfs<'_> {
    fn visit(&mut self, v: usize) {
        if self.seen[v] { return; }
        self.seen[v] = true;
        for k in 0..self.m.b.nports(v, self.out) {
            let p = self.m.b.port(v, self.out, k);
            for l in self.m.port_links(p) {
                let q = l.1 .0;
                let w = self.m.node(q);
                if self.ports[p] && self.ports[q] && self.nodes[w] { self.visit(w); }
            }
        }
        self.order.push(v);
    }
}
fn run<'a>(m: &'a MM, out: bool, nodes: &'a [bool], ports: &'a [bool], src: &[usize]) -> Dfs<'a> {
    let mut d = Dfs { m, out, nodes, ports, seen: vec![false; m.b.nodes.len()], order: vec![] };
    for &s in src { if nodes[s] { d.visit(s); } }
    d
}
fn judge<T: Iterator<Item = N>>(mut it: T, want: &[usize]) {
    for k in 0..want.len() {
        let (lo, hi) = it.size_hint();
        ck!(lo <= want.len() - k && hi.map_or(true, |h| h >= want.len() - k));
        let v = it.next();
        ck!(nidx(v) == want[k]);
        obs(nidx(v));
    }
    let (lo, _) = it.size_hint();
    ck!(lo == 0);
    ck!(it.next().is_none() && it.next().is_none());
}
fn list(v: &[usize]) -> Vec<N> { v.iter().map(|&n| ni(n)).collect() }
/// one source, or two (possibly equal) ones, or none
fn sources(n: usize) -> Vec<usize> {
    let k = choose(below(3));
    (0..k).map(|_| choose(below(n))).collect()
}
harnesses! {
p23_digraph, covers = 2, bounds = "every directed graph on 3 (thorough 4) nodes (self-links included, out ports in node order), every source list of up to 2 nodes, both directions: exactly the depth-first order by ports", {
    let (g, m) = digraph(tier(3, 4), |i, j| !DEEP || i != j);
    let m = of(&m);
    let n = m.b.nodes.len();
    let src = sources(n);
    let out = choose(below(2)) == 1;
    let (a, b) = (vec![true; n], vec![true; m.b.ports.len()]);
    let d = run(&m, out, &a, &b, &src);
    judge(postorder(&g, list(&src), dir(out)), &d.order);
    if d.order.len() == n && src.len() == 1 && m.links.len() == n { cover(0); }
    if src.len() == 2 && d.order.len() == 2 && m.links.is_empty() { cover(1); }
}
p23_dag, covers = 1, bounds = "every acyclic graph on 5 nodes (links to larger nodes), sources 0 and any other, both directions: exactly the depth-first order", {
    let (g, m) = digraph(5, |i, j| i < j);
    let m = of(&m);
    let out = choose(below(2)) == 1;
    let src = if out { vec![0, choose(below(5))] } else { vec![4, choose(below(5))] };
    let (a, b) = (vec![true; 5], vec![true; m.b.ports.len()]);
    let d = run(&m, out, &a, &b, &src);
    judge(postorder(&g, list(&src), dir(out)), &d.order);
    if d.order.len() == 5 && m.links.len() == 4 { cover(0); }
}
p23_ports, covers = 1, bounds = "PortGraph of 3 nodes with 2 ports each way (optionally one removed), every set of 3 (thorough 4) links, every source, both directions", {
    let (mut g, mut m) = square(3, 2, tier(3, 4));
    let x = choose(below(4));
    m.remove(&mut g, x);
    let m = of(&m);
    let s = choose(below(3));
    assume(s != x);
    let out = any_bool();
    let (a, b) = (vec![true; 3], vec![true; m.b.ports.len()]);
    let d = run(&m, out, &a, &b, &[s]);
    judge(postorder(&g, [ni(s)], dir(out)), &d.order);
    if d.order.len() == 3 { cover(0); }
}
p23_filtered, covers = 2, bounds = "PortGraph of 3 nodes with 2 ports each way, every set of 2 (thorough 3) links, up to 2 sources, every set of filtered nodes and ports: the depth-first order of what is left", {
    let (g, m) = square(3, 2, tier(2, 3));
    let m = of(&m);
    let src = { let s = choose(below(3)); if any_bool() { vec![s] } else { vec![s, (s + 1) % 3] } };
    let hn = choose(below(8));
    let hp = below(1 << m.b.ports.len());
    let nodes: Vec<bool> = (0..3).map(|k| hn >> k & 1 == 0).collect();
    let ports: Vec<bool> = (0..m.b.ports.len()).map(|k| m.port_links(k).is_empty() || hp >> k & 1 == 0).collect();
    let out = choose(below(2)) == 1;
    let d = run(&m, out, &nodes, &ports, &src);
    judge(postorder_filtered(&g, list(&src), dir(out), |n| nodes[n.index()], |n, p| { ck!(m.node(p.index()) == n.index()); ports[p.index()] }), &d.order);
    if d.order.len() == 3 && src.len() == 1 { cover(0); }
    if d.order.len() == 1 && hn == 0 && src.len() == 1 { cover(1); }
}
p23_long, covers = 2, bounds = "PortGraph of 9 nodes in a chain, closed to a cycle or not, with each of 5 chords and one node filtered or none, from any node, both directions, chords before or after the chain in port order", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..9 { m.add(&mut g, 3, 3); }
    let first = any_bool();
    let c = if first { [2, 1, 0] } else { [0, 1, 2] };
    for k in 0..8 { let (a, b) = (m.port(k, true, c[0]), m.port(k + 1, false, c[0])); m.link(&mut g, a, b); }
    for (x, y, j) in [(8, 0, 2), (7, 2, 1), (1, 6, 1), (0, 8, 1), (5, 5, 1), (6, 3, 2)] {
        if any_bool() { let (a, b) = (m.port(x, true, c[j]), m.port(y, false, c[j])); m.link(&mut g, a, b); }
    }
    let m = of(&m);
    let s = choose(below(3)) * 4;
    let out = choose(below(2)) == 1;
    let h = choose(below(3)) * 3 + 1;
    let nodes: Vec<bool> = (0..9).map(|k| k != h || h > 4).collect();
    let ports = vec![true; m.b.ports.len()];
    let d = run(&m, out, &nodes, &ports, &[s]);
    if h > 4 { judge(postorder(&g, [ni(s)], dir(out)), &d.order); }
    else { judge(postorder_filtered(&g, [ni(s)], dir(out), |n| nodes[n.index()], |_, _| true), &d.order); }
    if d.order.len() == 9 && m.links.len() == 14 { cover(0); }
    if h <= 4 && d.order.len() == 8 { cover(1); }
}
p23_wide, covers = 2, bounds = "PortGraph of 9 nodes: the first with links to 8 others, each there or not, links among them, and any of them as further sources; both directions", {
    let out = choose(below(2)) == 1;
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..9 { m.add(&mut g, 9, 9); }
    let up = any_bool();
    let mut link = |x: usize, i: usize, y: usize, j: usize| {
        let (a, b) = (m.port(x, out, i), m.port(y, !out, j));
        m.link(&mut g, a, b);
    };
    for k in 1..9 { let k = if up { k } else { 9 - k }; if k % 4 == 2 || any_bool() { link(0, k, k, 0); } }
    for (x, y) in [(1, 3), (5, 3), (3, 8), (7, 1), (8, 5)] { link(x, 1, y, x); }
    let m = of(&m);
    let s = [vec![0], vec![3, 0], vec![8, 0, 8, 4]][choose(below(3))].clone();
    let (a, b) = (vec![true; 9], vec![true; m.b.ports.len()]);
    let d = run(&m, out, &a, &b, &s);
    judge(postorder(&g, list(&s), dir(out)), &d.order);
    if d.order.len() == 9 { cover(0); }
    if d.order.len() == 3 { cover(1); }
}
}
