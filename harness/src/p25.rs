//! Lowest common ancestors.
use crate::forest::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::algorithms::lca;
use ::portgraph::view::{FlatRegion, Region, Subgraph};

fn ancestors(f: &F, mut v: usize) -> Vec<usize> {
    let mut r = vec![v];
    while f.parent[v] != NONE { v = f.parent[v]; r.push(v); }
    r
}
fn world(n: usize) -> G {
    let mut g = G::new();
    for _ in 0..n { g.add_node(0, 0); }
    g
}
fn judge(g: &G, h: &Hierarchy, f: &F, skip: usize) { judge_for(g, h, f, |x| x != skip) }
fn judge_for(g: impl PortView, h: &Hierarchy, f: &F, shown: impl Fn(usize) -> bool) {
    let l = lca(g, h);
    for a in 0..f.n() {
        if !shown(a) { continue; }
        let aa = ancestors(f, a);
        ck!(l.root(ni(a)).index() == *aa.last().unwrap());
        for b in 0..f.n() {
            if !shown(b) { continue; }
            let bb = ancestors(f, b);
            ck!(l.is_ancestor(ni(a), ni(b)) == bb.contains(&a));
            let want = aa.iter().copied().find(|x| bb.contains(x)).unwrap_or(NONE);
            ck!(nidx(l.lca(ni(a), ni(b))) == want);
        }
    }
}
harnesses! {
p25_forest, covers = 2, bounds = "every forest on 6 (thorough 7) nodes (children numbered above or below their parents), every pair of nodes: ancestry, root and lowest common ancestor", {
    let n = tier(6, 7);
    let g = world(n);
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    let rev = choose(below(2)) == 1;
    for j in 1..n {
        let p = choose(below(j + 1));
        if p < j { if rev { f.push(&mut h, n - 1 - j, n - 1 - p, true) } else { f.push(&mut h, j, p, false) }; }
    }
    judge(&g, &h, &f, NONE);
    if f.parent.iter().all(|p| *p == NONE) { cover(0); }
    if (1..n).all(|j| f.parent[j] == j - 1) { cover(1); }
    f.obs();
}
p25_deep, covers = 2, bounds = "a chain of 10 (thorough 18) nodes with a second chain of any length below any of its nodes and a third below any node of these: every pair", {
    let n = tier(10, 18);
    let (a, b) = (choose(range(0, n)), choose(range(0, n)));
    let g = world(2 * n + 3);
    let mut h = Hierarchy::new();
    let mut f = F::new(2 * n + 3);
    for j in 1..n { f.push(&mut h, j, j - 1, false); }
    // chain n.. below a, b of them
    assume(a < n);
    for j in 0..b { f.push(&mut h, n + j, if j == 0 { a } else { n + j - 1 }, j % 2 == 0); }
    let top = choose(below(n + b));
    f.push(&mut h, 2 * n, top, true);
    f.push(&mut h, 2 * n + 1, 2 * n, true);
    judge(&g, &h, &f, NONE);
    if b == n && a == n - 1 { cover(0); }
    if b == n && a == 0 && top == 2 * n - 1 { cover(1); }
    f.obs();
}
p25_holes, covers = 1, bounds = "every forest of 5 nodes from which any node was removed (its children become roots), every pair of the others", {
    let n = 5;
    let mut g = world(n);
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    for j in 1..n {
        let p = choose(below(j + 1));
        if p < j { f.push(&mut h, j, p, false); }
    }
    let x = choose(below(n));
    g.remove_node(ni(x));
    f.remove(&mut h, x);
    judge(&g, &h, &f, x);
    cover(0);
    f.obs();
}
p25_views, covers = 3, bounds = "every forest on 5 (thorough 6) nodes; the graph given as a subgraph of any node set, a region or a flat region of any root: every pair of its nodes, judged by the whole hierarchy", {
    let n = tier(5, 6);
    let g = world(n);
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    let rev = choose(below(2)) == 1;
    for j in 1..n {
        let p = choose(below(j + 1));
        if p < j { if rev { f.push(&mut h, n - 1 - j, n - 1 - p, true) } else { f.push(&mut h, j, p, false) }; }
    }
    match choose(below(3)) {
        0 => {
            let s = bits(choose(below(1 << n)), n);
            judge_for(Subgraph::with_nodes(&g, members(&s)), &h, &f, |x| s[x]);
            if s.iter().filter(|x| **x).count() == 2 { cover(0); }
        }
        1 => {
            let r = choose(below(n));
            let d = f.bfs(r);
            judge_for(Region::new(&g, &h, ni(r)), &h, &f, |x| d.contains(&x));
            if f.parent[r] != NONE && d.len() > 2 { cover(1); }
        }
        _ => {
            let r = choose(below(n));
            judge_for(FlatRegion::new_without_root(&g, &h, ni(r)), &h, &f, |x| f.parent[x] == r);
            if f.kids[r].len() > 1 { cover(2); }
        }
    }
    f.obs();
}
p25_wide, covers = 2, bounds = "20 nodes: a complete binary tree of 15 numbered downwards or upwards and 5 more each below any of 3 places: every pair; also after one inner node was detached", {
    let up = any_bool();
    let n = 20;
    let g = world(n);
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    let at = |k: usize| if up { n - 1 - k } else { k };
    for k in 1..15 { f.push(&mut h, at(k), at((k - 1) / 2), k % 3 == 0); }
    for k in 15..20 {
        let p = [k - 1, 7, 2][choose(below(3))];
        f.push(&mut h, at(k), at(p), false);
    }
    let cut = any_bool();
    if cut { f.detach(&mut h, at(1)); }
    judge(&g, &h, &f, NONE);
    if f.kids[at(7)].len() == 5 { cover(0); }
    if f.above(at(15), at(19)) { cover(1); }
}
}
