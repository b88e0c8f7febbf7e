//! Region and FlatRegion: hierarchical views.
use crate::forest::*;
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::view::{FlatRegion, Region};

fn members(n: usize, v: &[usize]) -> Vec<bool> {
    (0..n).map(|x| v.contains(&x)).collect()
}
fn order(it: impl Iterator<Item = N>, want: &[usize]) {
    same(it, |n| n.index(), want);
}
fn flat(f: &F, root: usize, with: bool) -> Vec<usize> {
    let mut v = if with { vec![root] } else { vec![] };
    v.extend(f.kids[root].iter().copied());
    v
}
fn world(links: usize) -> (G, Model, Hierarchy, F) {
    let (g, m) = plain(links);
    let n = m.nodes.len();
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    grow(&mut h, &mut f, n - 1);
    (g, m, h, f)
}
harnesses! {
p20_region, covers = 2, bounds = "Region over a PortGraph of 3 (thorough 4) nodes, 2 links, every ordered forest on them, every root; all queries, then again after cloning", {
    let (g, m, h, f) = world(2);
    let m = of(&m);
    let r = choose(below(f.n()));
    let v = Region::new(&g, &h, ni(r));
    let d = f.bfs(r);
    let part = Part::new(&m, members(f.n(), &d), |_| true);
    ck!(v.region_root().index() == r);
    order(v.nodes_iter(), &d);
    part.verify_ports(&v);
    part.verify_links(&v, e1);
    let w = v.clone();
    ck!(w == v);
    part.verify_links(&w, e1);
    if d.len() == 3 && f.kids[r].len() == 1 { cover(0); }
    if part.m.links.len() == 2 { cover(1); }
    part.obs();
}
p20_descendant, covers = 2, bounds = "Region::is_descendant on every forest of 5 (thorough 6) nodes, every root, two (thorough three) queried nodes in any order after each other (and on a clone)", {
    let n = tier(5, 6);
    let mut g = G::new();
    for _ in 0..n { g.add_node(0, 0); }
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    for j in 1..n {
        let p = choose(below(j + 1));
        if p < j { f.push(&mut h, j, p, false); }
    }
    let r = choose(below(n));
    let v = Region::new(&g, &h, ni(r));
    let d = f.bfs(r);
    for k in 0..tier(2, 3) {
        let q = choose(below(n));
        ck!(v.is_descendant(ni(q)) == d.contains(&q));
        if !d.contains(&q) { cover(0); } else if d.len() > 3 { cover(1); }
    }
    let w = v.clone();
    for q in 0..n { ck!(w.contains_node(ni(q)) == d.contains(&q)); }
    for q in (0..n).rev() { ck!(v.contains_node(ni(q)) == d.contains(&q)); }
    f.obs();
}
p20_flat, covers = 2, bounds = "FlatRegion with or without its root over a PortGraph of 3 (thorough 4) nodes, 2 links, every ordered forest, every root; all queries", {
    let (g, m, h, f) = world(2);
    let m = of(&m);
    let r = choose(below(f.n()));
    let with = choose(below(2)) == 1;
    let v = if with { FlatRegion::new_with_root(&g, &h, ni(r)) } else { FlatRegion::new_without_root(&g, &h, ni(r)) };
    ck!(v.includes_root() == with && v.region_root().index() == r);
    let d = flat(&f, r, with);
    let part = Part::new(&m, members(f.n(), &d), |_| true);
    order(v.nodes_iter(), &d);
    part.verify_ports(&v);
    part.verify_links(&v, e1);
    if d.is_empty() { cover(0); }
    if d.len() == 2 && !with { cover(1); }
    part.obs();
}
p20_multi, covers = 2, bounds = "Region and FlatRegion over a MultiPortGraph of 3 nodes, 2 links, every ordered forest, every root; all queries incl. subports", {
    let (g, m) = multi(2);
    let mut h = Hierarchy::new();
    let mut f = F::new(3);
    grow(&mut h, &mut f, 2);
    let r = choose(below(3));
    match choose(below(3)) {
        0 => {
            let v = Region::new(&g, &h, ni(r));
            let part = Part::new(&m, members(3, &f.bfs(r)), |_| true);
            part.verify_ports(&v);
            part.verify_links(&v, ep);
            part.verify_multi(&v, &g);
            if part.m.links.len() == 2 { cover(0); }
        }
        k => {
            let v = if k == 1 { FlatRegion::new_with_root(&g, &h, ni(r)) } else { FlatRegion::new_without_root(&g, &h, ni(r)) };
            let part = Part::new(&m, members(3, &flat(&f, r, k == 1)), |_| true);
            part.verify_ports(&v);
            part.verify_links(&v, ep);
            part.verify_multi(&v, &g);
            if part.m.links.len() == 1 { cover(1); }
        }
    }
    m.obs();
}
p20_deep, covers = 2, bounds = "Region over forests of 10 (thorough 12) nodes, each below its predecessor or (every second) below the one before that: depth up to 9, roots 0..=2, two queried nodes after each other; traversal order", {
    let n = tier(10, 12);
    let mut g = G::new();
    for _ in 0..n { g.add_node(0, 0); }
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    for j in 1..n {
        let up = if j % 2 == 0 && any_bool() { 2 } else { 1 };
        f.push(&mut h, j, j - up, false);
    }
    let r = choose(below(3));
    let v = Region::new(&g, &h, ni(r));
    let d = f.bfs(r);
    let (a, b) = (choose(below(n)), choose(below(n)));
    for q in [a, b] { ck!(v.is_descendant(ni(q)) == d.contains(&q)); }
    if a == b {
        order(v.nodes_iter(), &d);
        if d.len() == n - 2 { cover(1); }
    }
    if a == n - 1 && f.bfs(a - 1).len() == 2 { cover(0); }
}
p20_wide, covers = 1, bounds = "8 nodes, each under one of two heads (or unattached for two of them), Region and both FlatRegions at either head: members and order", {
    let n = 10;
    let mut g = G::new();
    for _ in 0..n { g.add_node(0, 0); }
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    for j in 2..n {
        let p = if j % 4 == 0 { choose(below(3)) } else { choose(below(2)) };
        if p < 2 { let front = j % 2 == 1; f.push(&mut h, j, p, front); }
    }
    let r = choose(below(2));
    let v = Region::new(&g, &h, ni(r));
    let d = f.bfs(r);
    order(v.nodes_iter(), &d);
    for q in 0..n { ck!(v.is_descendant(ni(q)) == d.contains(&q) && v.contains_node(ni(q)) == d.contains(&q)); }
    for with in [false, true] {
        let v = if with { FlatRegion::new_with_root(&g, &h, ni(r)) } else { FlatRegion::new_without_root(&g, &h, ni(r)) };
        let d = flat(&f, r, with);
        order(v.nodes_iter(), &d);
        ck!(v.node_count() == d.len());
        for q in 0..n { ck!(v.contains_node(ni(q)) == d.contains(&q)); }
    }
    if d.len() == 9 { cover(0); }
}
p20_large, covers = 3, bounds = "PortGraph or MultiPortGraph of 9 nodes in a chain with skipping, double and self-links; three trees over them, up to 5 deep and 5 wide; every root, Region and both FlatRegions: all queries", {
    let trees: [&[(usize, usize)]; 3] = [
        &[(1, 0), (2, 1), (3, 2), (4, 3), (5, 4), (6, 0), (7, 2), (8, 2)],
        &[(3, 8), (1, 8), (5, 8), (0, 8), (7, 8), (2, 1), (4, 1), (6, 5)],
        &[(8, 4), (7, 8), (6, 7), (0, 6), (1, 6), (2, 0), (3, 5)],
    ];
    let mut h = Hierarchy::new();
    let mut f = F::new(9);
    for &(k, p) in trees[choose(below(3))] { f.push(&mut h, k, p, k % 2 == 0); }
    let more = [(0, 2), (5, 1), (4, 4), (8, 0), (2, 6)];
    let r = choose(below(9));
    let w = choose(below(3));
    let d = if w == 0 { f.bfs(r) } else { flat(&f, r, w == 1) };
    if choose(below(2)) == 0 {
        let mut g = G::new();
        let mut m = Model::new();
        for _ in 0..9 { m.add(&mut g, 2, 2); }
        for k in 0..8 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
        for (x, y) in more { let (a, b) = (m.port(x, true, 1), m.port(y, false, 1)); m.link(&mut g, a, b); }
        let m = of(&m);
        let part = Part::new(&m, members(9, &d), |_| true);
        if w == 0 {
            let v = Region::new(&g, &h, ni(r));
            order(v.nodes_iter(), &d);
            part.verify_ports(&v);
            part.verify_links(&v, e1);
        } else {
            let v = if w == 1 { FlatRegion::new_with_root(&g, &h, ni(r)) } else { FlatRegion::new_without_root(&g, &h, ni(r)) };
            order(v.nodes_iter(), &d);
            part.verify_ports(&v);
            part.verify_links(&v, e1);
        }
        if d.len() == 9 { cover(0); }
        if w == 2 && d.len() == 5 { cover(1); }
    } else {
        let mut g = MG::new();
        let mut m = MM::new();
        for _ in 0..9 { m.add(&mut g, 1, 1); }
        for k in 0..8 { let (a, b) = (m.b.port(k, true, 0), m.b.port(k + 1, false, 0)); m.link(&mut g, a, b); }
        for (x, y) in more.into_iter().chain([(3, 4), (3, 4), (8, 5)]) { let (a, b) = (m.b.port(x, true, 0), m.b.port(y, false, 0)); m.link(&mut g, a, b); }
        let part = Part::new(&m, members(9, &d), |_| true);
        if w == 0 {
            let v = Region::new(&g, &h, ni(r));
            part.verify_ports(&v);
            part.verify_links(&v, ep);
            part.verify_multi(&v, &g);
        } else {
            let v = if w == 1 { FlatRegion::new_with_root(&g, &h, ni(r)) } else { FlatRegion::new_without_root(&g, &h, ni(r)) };
            part.verify_ports(&v);
            part.verify_links(&v, ep);
            part.verify_multi(&v, &g);
        }
        if d.len() == 6 && part.m.links.len() > 4 { cover(2); }
    }
}
}
