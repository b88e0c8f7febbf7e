//! Region shared between two threads.
use crate::forest::*;
use crate::sym::*;
use crate::util::*;
use ::portgraph::view::Region;

const K: usize = if DEEP { 32 } else { 26 };
/// any forest of `n` nodes (children below smaller indices, or reversed)
fn world(n: usize) -> (G, Hierarchy, F) {
    let mut g = G::new();
    for _ in 0..n { g.add_node(0, 0); }
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    for j in 1..n {
        let p = choose(below(j + 1));
        if p < j { f.push(&mut h, j, p, false); }
    }
    (g, h, f)
}
fn ask(r: &Region<&G>, d: &[bool], q: usize) {
    ck!(r.is_descendant(ni(q)) == d[q]);
}
fn all(r: &Region<&G>, d: &[bool]) {
    for q in 0..d.len() { ck!(r.is_descendant(ni(q)) == d[q]); }
}
fn mem(f: &F, r: usize) -> Vec<bool> {
    let d = f.bfs(r);
    (0..f.n()).map(|x| d.contains(&x)).collect()
}
harnesses! {
p33_query_query, covers = 1, bounds = "a Region over every forest of 4 (thorough 5) nodes, every root; one thread asks about one node, then another; the other thread asks about all nodes at any point in between (any atomic operation of the first)", {
    let n = tier(4, 5);
    let (g, h, f) = world(n);
    let r = choose(below(n));
    let (q1, q2) = (choose(below(n)), choose(below(n)));
    let at = choose(below(K));
    let d = mem(&f, r);
    interleave(at, || Region::new(&g, &h, ni(r)), |v| { ask(v, &d, q1); ask(v, &d, q2); all(v, &d) }, |v| all(v, &d));
    cover(0);
    f.obs();
}
p33_clone_query, covers = 1, bounds = "as above; one thread asks about a node, the other clones the region at any point and asks the clone about every node", {
    let n = tier(4, 5);
    let (g, h, f) = world(n);
    let r = choose(below(n));
    let q1 = choose(below(n));
    let at = choose(below(K));
    let d = mem(&f, r);
    interleave(at, || Region::new(&g, &h, ni(r)), |v| { ask(v, &d, q1); all(v, &d) }, |v| { let w = v.clone(); all(&w, &d) });
    cover(0);
    f.obs();
}
p33_query_clone, covers = 1, bounds = "as above; one thread clones the region, the other asks about any node at any point during that; clone and original then answer alike", {
    let n = tier(4, 5);
    let (g, h, f) = world(n);
    let r = choose(below(n));
    let q1 = choose(below(n));
    let at = choose(below(K));
    let d = mem(&f, r);
    interleave(at, || Region::new(&g, &h, ni(r)), |v| { let w = v.clone(); all(&w, &d); all(v, &d) }, |v| ask(v, &d, q1));
    cover(0);
    f.obs();
}
p33_deep, covers = 1, bounds = "a Region over a line of 9 nodes, with any of the last three beside it (outside), rooted at any of the first two; one thread asks about any node and then all, the other about all, from the far end, at any point in between", {
    let mut g = G::new();
    for _ in 0..9 { g.add_node(0, 0); }
    let mut h = Hierarchy::new();
    let mut f = F::new(9);
    for j in 1..9 { if j < 6 || any_bool() { f.push(&mut h, j, j - 1, false); } }
    let r = choose(below(2));
    let q1 = choose(below(9));
    let at = choose(below(K));
    let d = mem(&f, r);
    interleave(at, || Region::new(&g, &h, ni(r)), |v| { ask(v, &d, q1); all(v, &d) }, |v| { for q in (0..9).rev() { ask(v, &d, q) } });
    cover(0);
}
}
