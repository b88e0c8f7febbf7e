//! petgraph's view of the graphs.
use crate::forest::*;
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::view::filter::{LinkFilter, NodeFilter};
use ::portgraph::view::{FilteredGraph, FlatRegion, Region, Subgraph};
use petgraph::visit::*;

/// links as (source end, target end), each exactly once
fn edges<R: EdgeRef<NodeId = N, EdgeId = (L, L)>, L: Copy>(mut it: impl Iterator<Item = R>, m: &MM, e: fn(L) -> EP, want: &[(EP, EP)]) {
    let mut used = vec![false; want.len()];
    let mut left = want.len();
    loop {
        let (lo, hi) = it.size_hint();
        ck!(lo <= left && hi.map_or(true, |h| h >= left));
        let Some(r) = it.next() else { break };
        let id = (e(r.id().0), e(r.id().1));
        ck!(r.source().index() == m.node(id.0 .0) && r.target().index() == m.node(id.1 .0));
        let k = (0..want.len()).find(|&k| !used[k] && want[k] == id);
        ck!(k.is_some());
        used[k.unwrap()] = true;
        left -= 1;
    }
    ck!(left == 0);
}
fn nodes(it: impl Iterator<Item = N>, want: &[usize]) {
    let mut l: Vec<usize> = it.map(|n| choose(n.index())).collect();
    let mut w = want.to_vec();
    l.sort();
    w.sort();
    ck!(l == w);
}
fn judge<'g, V, L: Copy>(v: &'g V, part: &Part, e: fn(L) -> EP)
where
    V: GraphBase<NodeId = N, EdgeId = (L, L)> + NodeCount + EdgeCount + NodeIndexable + Visitable + GetAdjacencyMatrix,
    V::Map: VisitMap<N>,
    &'g V: GraphBase<NodeId = N, EdgeId = (L, L)> + IntoNodeIdentifiers + IntoNodeReferences<NodeRef = N> + IntoNeighborsDirected + IntoEdgesDirected,
{
    let m = &part.m;
    let shown: Vec<usize> = (0..part.nodes.len()).filter(|&n| part.has(n)).collect();
    ck!(NodeCount::node_count(v) == shown.len());
    ck!(EdgeCount::edge_count(v) == m.links.len());
    nodes(v.node_identifiers(), &shown);
    nodes(v.node_references().map(|r| r.id()), &shown);
    edges(v.edge_references(), m, e, &m.links);
    ck!(v.edge_references().count() == m.links.len());
    let a = v.adjacency_matrix();
    for &n in &shown {
        ck!(v.node_bound() > NodeIndexable::to_index(v, ni(n)));
        ck!(NodeIndexable::from_index(v, NodeIndexable::to_index(v, ni(n))) == ni(n));
        let out: Vec<(EP, EP)> = m.links.iter().copied().filter(|l| m.node(l.0 .0) == n).collect();
        let inn: Vec<(EP, EP)> = m.links.iter().copied().filter(|l| m.node(l.1 .0) == n).collect();
        edges(v.edges(ni(n)), m, e, &out);
        ck!(v.edges(ni(n)).count() == out.len());
        edges(v.edges_directed(ni(n), petgraph::Direction::Outgoing), m, e, &out);
        edges(v.edges_directed(ni(n), petgraph::Direction::Incoming), m, e, &inn);
        let to: Vec<usize> = out.iter().map(|l| m.node(l.1 .0)).collect();
        let from: Vec<usize> = inn.iter().map(|l| m.node(l.0 .0)).collect();
        nodes(v.neighbors(ni(n)), &to);
        nodes(v.neighbors_directed(ni(n), petgraph::Direction::Outgoing), &to);
        nodes(v.neighbors_directed(ni(n), petgraph::Direction::Incoming), &from);
        for &x in &shown { ck!(v.is_adjacent(&a, ni(n), ni(x)) == to.contains(&x)); }
    }
    let mut map = v.visit_map();
    for &n in &shown { ck!(!map.is_visited(&ni(n))); }
    for k in 0..2 {
        let mut seen = vec![false; part.nodes.len()];
        // visit and unvisit in a scrambled order, twice
        for s in 0..3 * shown.len() {
            let n = shown[(s * 2 + s / shown.len() + k) % shown.len()];
            if s % 4 == 3 { ck!(map.unvisit(ni(n)) == seen[n]); seen[n] = false; }
            else { ck!(map.visit(ni(n)) == !seen[n]); seen[n] = true; }
            for &x in &shown { ck!(map.is_visited(&ni(x)) == seen[x]); }
        }
        v.reset_map(&mut map);
        for &n in &shown { ck!(!map.is_visited(&ni(n))); }
    }
}
/// petgraph's algorithms give what the links say
fn algorithms<'g, V>(v: &'g V, part: &Part)
where
    V: GraphBase<NodeId = N> + NodeCount + NodeIndexable + Visitable,
    V::Map: VisitMap<N>,
    &'g V: GraphBase<NodeId = N> + Visitable<NodeId = N, Map = V::Map> + NodeIndexable + IntoNodeIdentifiers + IntoNeighborsDirected + IntoEdgesDirected,
{
    let m = &part.m;
    let n = part.nodes.len();
    let arcs = m.arcs();
    let shown: Vec<usize> = (0..n).filter(|&n| part.has(n)).collect();
    let mut reach = vec![vec![false; n]; n];
    for &s in &shown {
        reach[s][s] = true;
        for _ in 0..n { for &(a, b) in &arcs { if reach[s][a] { reach[s][b] = true; } } }
        let mut d = Dfs::new(v, ni(s));
        let mut c = 0;
        while let Some(x) = d.next(v) { ck!(reach[s][x.index()]); c += 1; }
        ck!(c == reach[s].iter().filter(|x| **x).count());
        let mut d = Bfs::new(Reversed(v), ni(s));
        let mut c = 0;
        while let Some(_) = d.next(Reversed(v)) { c += 1; }
        let back = shown.iter().filter(|&&x| { let mut r = vec![false; n]; r[x] = true; for _ in 0..n { for &(a, b) in &arcs { if r[a] { r[b] = true; } } } r[s] }).count();
        ck!(c == back);
    }
    ck!(petgraph::algo::is_cyclic_directed(v) == !acyclic(n, &arcs));
    ck!(petgraph::algo::toposort(v, None).is_ok() == acyclic(n, &arcs));
    let mut comps = 0;
    let mut sccs = 0;
    let mut done = vec![false; n];
    for &s in &shown {
        if (0..s).all(|x| !(part.has(x) && reach[x][s] && reach[s][x])) { sccs += 1; }
        if !done[s] {
            comps += 1;
            done[s] = true;
            for _ in 0..n { for &(a, b) in &arcs { if done[a] || done[b] { done[a] = true; done[b] = true; } } }
        }
    }
    // components seen so far absorb everything linked to them
    ck!(petgraph::algo::kosaraju_scc(v).len() == sccs);
    ck!(petgraph::algo::tarjan_scc(v).len() == sccs);
    obs(comps);
    obs(sccs);
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ctx {
    n: u64,
    p: u64,
}
fn nf(n: N, c: &Ctx) -> bool { c.n >> n.index() & 1 == 1 }
fn pf(p: P, c: &Ctx) -> bool { c.p >> p.index() & 1 == 1 }
fn whole(m: &MM) -> Part { Part::new(m, vec![true; m.b.nodes.len()], |_| true) }
harnesses! {
p30_plain, covers = 2, bounds = "PortGraph of 3 nodes with 2 ports each way and any 2 (thorough 3) links, any node removed or swapped with an absent one: nodes, edges, neighbours, bounds, adjacency, visit maps", {
    let (mut g, mut m) = square(3, 2, tier(2, 3));
    let x = choose(below(4));
    m.remove(&mut g, x);
    if x < 2 && any_bool() { m.swap(&mut g, x, 2); cover(0); }
    let part = whole(&of(&m));
    judge(&g, &part, e1);
    if part.m.links.len() == 2 && part.m.links[0].0 .0 + 2 > part.m.links[1].0 .0 { cover(1); }
    part.obs();
}
p30_multi, covers = 2, bounds = "MultiPortGraph of 3 nodes with one port each way and any 3 (thorough 4) links, repeated ones included, any node removed, one more added: nodes, edges, neighbours, bounds, adjacency, visit maps", {
    let (mut g, mut m) = msquare(3, tier(3, 4), true);
    let x = choose(below(4));
    if x < 3 { m.remove(&mut g, x); }
    if any_bool() { m.add(&mut g, 1, 1); cover(0); }
    let part = whole(&m);
    judge(&g, &part, ep);
    if part.m.links.len() == 3 && m.b.nodes.len() > 3 { cover(1); }
    part.obs();
}
p30_filtered, covers = 2, bounds = "filtered PortGraph of 3 nodes with 2 ports each way and any 2 links, and filtered MultiPortGraph of 3 nodes with any 2 links; every set of hidden nodes and ports", {
    if choose(below(2)) == 0 {
        let (g, m) = square(3, 2, 2);
        let m = of(&m);
        let c = Ctx { n: choose(below(8)) as u64, p: below(1 << m.b.ports.len()) as u64 };
        let v: FilteredGraph<&G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&g, nf, pf, c);
        let part = Part::new(&m, bits(c.n as usize, 3), |l| c.p >> l.0 .0 & 1 == 1 && c.p >> l.1 .0 & 1 == 1);
        judge(&v, &part, e1);
        if part.m.links.len() == 1 { cover(0); }
    } else {
        let (g, m) = msquare(3, 2, true);
        let c = Ctx { n: choose(below(8)) as u64, p: below(1 << m.b.ports.len()) as u64 };
        let v: FilteredGraph<&MG, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&g, nf, pf, c);
        let part = Part::new(&m, bits(c.n as usize, 3), |l| c.p >> l.0 .0 & 1 == 1 && c.p >> l.1 .0 & 1 == 1);
        judge(&v, &part, ep);
        if part.m.links.len() == 2 { cover(1); }
    }
}
p30_views, covers = 3, bounds = "subgraph (any node set), region and flat region (any root, a chain or a star) of a PortGraph of 4 nodes with any 2 (thorough 3) links", {
    let (g, m) = square(4, 1, tier(2, 3));
    let m = of(&m);
    let mut h = Hierarchy::new();
    let mut f = F::new(4);
    let chain = choose(below(2)) == 1;
    for k in 1..4 { f.push(&mut h, 3 - k, if chain { 4 - k } else { 3 }, false); }
    match choose(below(3)) {
        0 => {
            let s = bits(choose(below(16)), 4);
            let v = Subgraph::with_nodes(&g, members(&s));
            let part = Part::new(&m, s, |_| true);
            judge(&v, &part, e1);
            if part.m.links.len() == 1 { cover(0); }
        }
        k => {
            let r = choose(below(4));
            let mut s = vec![false; 4];
            if k == 1 {
                for x in f.bfs(r) { s[x] = true; }
                let v = Region::new(&g, &h, ni(r));
                let part = Part::new(&m, s, |_| true);
                judge(&v, &part, e1);
                if part.m.links.len() == 1 { cover(1); }
            } else {
                for &x in &f.kids[r] { s[x] = true; }
                s[r] = true;
                let v = FlatRegion::new_with_root(&g, &h, ni(r));
                let part = Part::new(&m, s, |_| true);
                judge(&v, &part, e1);
                if part.m.links.len() == 1 { cover(2); }
            }
        }
    }
}
p30_algorithms, covers = 3, bounds = "every directed graph on 3 (thorough 4) nodes with self-links, any node removed: depth-first and (reversed) breadth-first search, cycles, topological sort, strongly connected components by petgraph", {
    let (mut g, mut m) = digraph(tier(3, 4), |i, j| !DEEP || i != j);
    m.remove(&mut g, choose(below(4)));
    let part = whole(&of(&m));
    algorithms(&g, &part);
    let n = part.count();
    if n == 3 && acyclic(3, &part.m.arcs()) { cover(0); }
    if n == 2 { cover(1); }
    if part.m.links.len() == 5 { cover(2); }
}
p30_algorithms_multi, covers = 2, bounds = "as before for a MultiPortGraph of 3 (thorough 4) nodes with one port each way and any 3 links, repeated ones included, and its subgraph without any node", {
    let (g, m) = msquare(tier(3, 4), 3, true);
    let n = m.b.nodes.len();
    if any_bool() {
        algorithms(&g, &whole(&m));
        cover(0);
    } else {
        let mut s = vec![true; n];
        s[choose(below(n))] = false;
        let v = Subgraph::with_nodes(&g, members(&s));
        algorithms(&v, &Part::new(&m, s, |_| true));
        cover(1);
    }
}
p30_large, covers = 3, bounds = "PortGraph of 70 nodes, some removed, with 10 links between far and near nodes (each there or not), also seen through a subgraph of every third node: counts, edges, neighbours, adjacency and visit maps of 12 of them", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..70 { m.add(&mut g, 1, 1); }
    for (x, y) in [(0, 69), (69, 64), (64, 63), (63, 0), (1, 66), (66, 1), (33, 33), (31, 32), (32, 65), (3, 6)] {
        if (x + y) % 3 == 0 || any_bool() { let (a, b) = (m.port(x, true, 0), m.port(y, false, 0)); m.link(&mut g, a, b); }
    }
    for x in [5, 64, 68] { if x == 5 || choose(below(2)) == 1 { m.remove(&mut g, x); } }
    let m = of(&m);
    let part = whole(&m);
    let at: Vec<usize> = [0, 1, 3, 6, 31, 32, 33, 63, 64, 65, 66, 69].into_iter().filter(|&n| m.b.alive(n)).collect();
    let arcs = m.arcs();
    ck!(NodeCount::node_count(&&g) == part.count() && EdgeCount::edge_count(&&g) == arcs.len() && NodeIndexable::node_bound(&&g) >= 70);
    nodes((&g).node_identifiers(), &(0..70).filter(|&n| m.b.alive(n)).collect::<Vec<_>>());
    edges((&g).edge_references(), &m, e1, &m.links);
    let a = (&&g).adjacency_matrix();
    for &x in &at {
        for &y in &at { ck!((&&g).is_adjacent(&a, ni(x), ni(y)) == arcs.contains(&(x, y))); }
        nodes((&g).neighbors(ni(x)), &arcs.iter().filter(|l| l.0 == x).map(|l| l.1).collect::<Vec<_>>());
    }
    let mut map = (&&g).visit_map();
    let mut seen = vec![false; 70];
    for k in 0..2 * at.len() {
        let n = at[(k * 5) % at.len()];
        if k % 3 == 2 { ck!(map.unvisit(ni(n)) == seen[n]); seen[n] = false; } else { ck!(map.visit(ni(n)) == !seen[n]); seen[n] = true; }
        for &x in &at { ck!(map.is_visited(&ni(x)) == seen[x]); }
    }
    (&&g).reset_map(&mut map);
    for &x in &at { ck!(!map.is_visited(&ni(x))); }
    let s: Vec<bool> = (0..70).map(|k| k % 3 == 0 && m.b.alive(k)).collect();
    let v = Subgraph::with_nodes(&g, members(&s));
    let part = Part::new(&m, s.clone(), |_| true);
    ck!(NodeCount::node_count(&v) == part.count() && EdgeCount::edge_count(&v) == part.m.links.len());
    edges((&v).edge_references(), &m, e1, &part.m.links);
    let a = v.adjacency_matrix();
    let mut map = v.visit_map();
    for &x in at.iter().filter(|&&x| s[x]) {
        for &y in at.iter().filter(|&&y| s[y]) { ck!(v.is_adjacent(&a, ni(x), ni(y)) == arcs.contains(&(x, y))); }
        ck!(!map.is_visited(&ni(x)) && map.visit(ni(x)) && map.is_visited(&ni(x)));
    }
    if arcs.len() == 10 { cover(0); }
    if !m.b.alive(64) && !m.b.alive(68) { cover(1); }
    if part.m.links.len() == 4 { cover(2); }
}
}
