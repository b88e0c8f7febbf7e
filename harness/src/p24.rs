//! Dominator trees.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::algorithms::{dominators, dominators_filtered, DominatorTree};
use ::portgraph::SecondaryMap;

/// nodes reachable from `e` without passing `x`
fn reach(n: usize, arcs: &[(usize, usize)], e: usize, x: usize) -> Vec<bool> {
    let mut r = vec![false; n];
    if e == x { return r; }
    r[e] = true;
    let mut more = true;
    while more {
        more = false;
        for &(a, b) in arcs {
            if r[a] && !r[b] && b != x { r[b] = true; more = true; }
        }
    }
    r
}
/// immediate dominators by definition: d dominates v if removing d makes v
/// unreachable; the immediate one is dominated by all other strict dominators.
fn idom(n: usize, arcs: &[(usize, usize)], e: usize) -> Vec<usize> {
    let base = reach(n, arcs, e, NONE);
    let without: Vec<Vec<bool>> = (0..n).map(|x| reach(n, arcs, e, x)).collect();
    let dom = |d: usize, v: usize| d != v && base[v] && base[d] && !without[d][v];
    (0..n)
        .map(|v| (0..n).find(|&d| dom(d, v) && (0..n).all(|x| x == d || !dom(x, v) || dom(x, d))).unwrap_or(NONE))
        .collect()
}
fn judge<M: SecondaryMap<N, ::portgraph::index::MaybeNodeIndex<u32>>>(t: DominatorTree<M>, e: usize, want: &[usize]) {
    ck!(t.root().index() == e);
    for v in 0..want.len() {
        let d = nidx(t.immediate_dominator(ni(v)));
        ck!(d == want[v]);
        obs(d);
    }
    ck!(t.immediate_dominator(ni(want.len())).is_none());
}
fn turn(arcs: Vec<(usize, usize)>, out: bool) -> Vec<(usize, usize)> {
    if out { arcs } else { arcs.into_iter().map(|(a, b)| (b, a)).collect() }
}
harnesses! {
p24_digraph, covers = 3, bounds = "every directed graph on 4 nodes without self-links, every entry, both directions: immediate dominators exactly by the definition", {
    let e = choose(below(4));
    let (g, m) = digraph(4, |i, j| i != j);
    let out = choose(below(2)) == 1;
    let arcs = turn(of(&m).arcs(), out);
    let want = idom(4, &arcs, e);
    judge(dominators::<UnmanagedDenseMap<_, _>>(&g, ni(e), dir(out)), e, &want);
    let r = reach(4, &arcs, e, NONE).iter().filter(|x| **x).count();
    if r == 3 && arcs.iter().any(|a| !reach(4, &arcs, e, NONE)[a.0]) { cover(0); }
    if r == 4 && want.iter().filter(|d| **d == e).count() == 1 { cover(1); }
    if r == 1 { cover(2); }
}
p24_larger, covers = 1, bounds = "every directed graph on 5 nodes without self-links and without links into the entry 0 (thorough: also with all but two of those)", {
    let (g, m) = digraph(5, |i, j| i != j && (j != 0 || DEEP && i > 2));
    let arcs = of(&m).arcs();
    judge(dominators::<UnmanagedDenseMap<_, _>>(&g, ni(0), OUT), 0, &idom(5, &arcs, 0));
    if arcs.len() == 8 { cover(0); }
}
p24_ports, covers = 1, bounds = "PortGraph of 3 nodes with 2 ports each way, every set of 3 (thorough 4) links (parallel and self-links), one node optionally removed, every entry, both directions", {
    let (mut g, mut m) = square(3, 2, tier(3, 4));
    let x = choose(below(4));
    m.remove(&mut g, x);
    let e = choose(below(3));
    assume(e != x);
    let out = choose(below(2)) == 1;
    let arcs = turn(of(&m).arcs(), out);
    let want = idom(3, &arcs, e);
    judge(dominators::<UnmanagedDenseMap<_, _>>(&g, ni(e), dir(out)), e, &want);
    if want.iter().filter(|d| **d != NONE).count() == 2 { cover(0); }
}
p24_filtered, covers = 1, bounds = "PortGraph of 4 nodes: every set of links from a fixed choice of 8, the entry 0 kept, every set of other filtered nodes, every set of filtered ports of those links", {
    let sel = |i: usize, j: usize| matches!((i, j), (0, 1) | (0, 2) | (1, 2) | (1, 3) | (2, 3) | (3, 1)) || (DEEP && matches!((i, j), (2, 1) | (0, 3)));
    let (g, m) = digraph(4, sel);
    let m = of(&m);
    let hn = choose(below(8)) << 1;
    let mut ports = vec![true; m.b.ports.len()];
    for l in &m.links {
        match choose(below(3)) { 0 => ports[l.0 .0] = false, 1 => ports[l.1 .0] = false, _ => {} }
    }
    let arcs: Vec<(usize, usize)> = m.links.iter().filter(|l| ports[l.0 .0] && ports[l.1 .0]).map(|l| (m.node(l.0 .0), m.node(l.1 .0))).filter(|a| hn >> a.0 & 1 == 0 && hn >> a.1 & 1 == 0).collect();
    let want = idom(4, &arcs, 0);
    judge(dominators_filtered::<UnmanagedDenseMap<_, _>>(&g, ni(0), OUT, |n| hn >> n.index() & 1 == 0, |_, p| ports[p.index()]), 0, &want);
    if hn == 0 && want[3] == 0 { cover(0); }
}
p24_ladder, covers = 2, bounds = "a root and a line of 7 (thorough 8) nodes linked onwards, every set of links backwards, every set of links from the root into the line, numbered along the line or against it; both directions: graphs that need many rounds", {
    let n = tier(8, 9);
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..n { m.add(&mut g, n, n); }
    let against = any_bool();
    let at = |i: usize| if i > 0 && against { n - i } else { i };
    let mut add = |i: usize, j: usize| {
        let (i, j) = (at(i), at(j));
        let (a, b) = (m.port(i, true, j), m.port(j, false, i));
        ck!(m.link(&mut g, a, b));
    };
    for i in 1..n - 1 {
        add(i, i + 1);
        if any_bool() { add(i + 1, i); }
    }
    for i in 1..n { if any_bool() { add(0, i); } }
    let arcs = of(&m).arcs();
    let want = idom(n, &arcs, 0);
    judge(dominators::<UnmanagedDenseMap<_, _>>(&g, ni(0), OUT), 0, &want);
    if arcs.len() == 2 * n - 2 && want.iter().filter(|d| **d == 0).count() == n - 1 { cover(0); }
    if arcs.len() == 2 * n - 4 { cover(1); }
}
}
