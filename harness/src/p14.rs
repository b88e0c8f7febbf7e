//! Hierarchy: attaching, detaching, removing.
use crate::forest::*;
use crate::sym::*;
use crate::util::*;
use ::portgraph::Hierarchy;

fn change(h: &mut Hierarchy, f: &mut F) {
    let n = f.n();
    let x = choose(below(n));
    match choose(below(3)) {
        0 => f.detach(h, x),
        1 => f.detach_children(h, x),
        _ => f.remove(h, x),
    }
}
harnesses! {
p14_attach, covers = 2, bounds = "3 nodes (thorough 4); 3 calls of push_child / push_front_child / insert_before / insert_after with any nodes, each outcome judged; every query afterwards", {
    let mut h = Hierarchy::new();
    let mut f = F::new(tier(3, 4));
    let mut k = 0;
    for _ in 0..3 { if any_attach(&mut h, &mut f) { k += 1; } }
    f.verify(&h);
    if k == 2 { cover(0); } else { cover(1); }
    f.obs();
}
p14_change, covers = 1, bounds = "any ordered forest on 4 (thorough 5) nodes, then detach / detach_children / remove of any node, then one more attachment attempt of any kind between any nodes; every query", {
    let mut h = Hierarchy::new();
    let k = tier(4, 5);
    let mut f = F::new(k);
    grow(&mut h, &mut f, k - 1);
    change(&mut h, &mut f);
    f.verify(&h);
    any_attach(&mut h, &mut f);
    f.verify(&h);
    cover(0);
    f.obs();
}
p14_wide, covers = 1, bounds = "a parent with 5 children built front and back in 4 orders; any two (thorough three) of detach/remove/reinsert anywhere; every query", {
    let mut h = Hierarchy::with_capacity(choose(below(2)) * 8);
    let mut f = F::new(6);
    for c in 1..6 { f.push(&mut h, c, 0, choose(below(2)) == 1); }
    for _ in 0..tier(2, 3) {
        let x = 1 + choose(below(5));
        if f.parent[x] == NONE {
            let y = 1 + choose(below(5));
            f.insert(&mut h, x, y, choose(below(2)) == 1);
        } else if choose(below(2)) == 0 { f.detach(&mut h, x); } else { f.remove(&mut h, x); }
    }
    f.verify(&h);
    cover(0);
    f.obs();
}
p14_iters, covers = 1, bounds = "any ordered forest on 4 (thorough 5) nodes; children (both ends interleaved in any order) and descendants obey the iterator contract", {
    let mut h = Hierarchy::new();
    let k = tier(4, 5);
    let mut f = F::new(k);
    grow(&mut h, &mut f, k - 1);
    for n in 0..k + 1 {
        iter_protocol(h.children(ni(n)), 8);
        iter_protocol(h.descendants(ni(n)), 8);
    }
    let n = choose(below(k));
    let mut it = h.children(ni(n));
    let (mut a, mut b) = (0, f.kids[n].len());
    while a < b {
        ck!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)));
        if any_bool() { ck!(nidx(it.next()) == f.kids[n][a]); a += 1; } else { b -= 1; ck!(nidx(it.next_back()) == f.kids[n][b]); }
    }
    ck!(it.len() == 0 && it.next().is_none() && it.next_back().is_none());
    cover(0);
    f.obs();
}
p14_symbolic, covers = 2, bounds = "4 nodes; 2 pushes then one detach, all node arguments symbolic (not enumerated): parents, counts and cycle refusals as recorded", {
    let n = 4;
    let mut h = Hierarchy::with_capacity(4);
    h.ensure_capacity(4);
    let mut par = [NONE; 4];
    for _ in 0..2 {
        let (a, b) = (below(n), below(n));
        let mut cyc = a == b;
        let mut x = b;
        for _ in 0..3 { x = par[x]; if x == NONE { break; } cyc |= x == a; }
        let r = h.push_child(ni(a), ni(b));
        ck!(r.is_ok() == (!cyc && par[a] == NONE));
        if r.is_ok() { par[a] = b; cover(0); }
    }
    let d = below(n);
    ck!(nidx(h.detach(ni(d))) == par[d]);
    par[d] = NONE;
    for x in 0..n {
        ck!(nidx(h.parent(ni(x))) == par[x]);
        let mut c = 0;
        for y in 0..n { c += (par[y] == x) as usize; }
        ck!(h.child_count(ni(x)) == c);
        ck!(h.children(ni(x)).count() == c);
    }
    cover(1);
}
p14_large, covers = 3, bounds = "a tree of 12 nodes, 5 children below the root and chains up to 5 deep; every node detached, removed or its children detached, or not; then any node attached beside or below any; every query", {
    let mut h = Hierarchy::new();
    let mut f = F::new(12);
    for (k, p) in [(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 1), (7, 6), (8, 7), (9, 8), (10, 3), (11, 3)] { f.push(&mut h, k, p, k % 3 == 0); }
    let x = choose(below(12));
    match choose(below(4)) {
        0 => f.detach(&mut h, x),
        1 => f.detach_children(&mut h, x),
        2 => f.remove(&mut h, x),
        _ => assume(x == 0),
    }
    let (a, b) = (choose(below(12)), choose(below(12)));
    let r = match (a + b) % 4 {
        0 => f.push(&mut h, a, b, false),
        1 => f.push(&mut h, a, b, true),
        2 => f.insert(&mut h, a, b, false),
        _ => f.insert(&mut h, a, b, true),
    };
    f.verify(&h);
    if r && f.kids[0].len() == 6 { cover(0); }
    if !r && f.parent[a] == NONE && a != b { cover(1); }
    if r && x == 0 { cover(2); }
    f.obs();
}
p14_many, covers = 2, bounds = "a parent with 9 children, every set of them detached or removed, up or down, and attached again at the front, at the end or beside a sibling; every query", {
    let mut h = Hierarchy::new();
    let mut f = F::new(10);
    for c in 1..10 { f.push(&mut h, c, 0, c % 4 == 2); }
    let c = any_bits(9);
    let (up, rm) = (any_bool(), any_bool());
    for k in 0..9 {
        let k = if up { k } else { 8 - k };
        if c >> k & 1 == 1 { if rm { f.remove(&mut h, k + 1) } else { f.detach(&mut h, k + 1) } }
    }
    f.verify(&h);
    for k in 0..9 {
        if c >> k & 1 == 0 { continue; }
        match (k + c) % 3 {
            0 => { f.push(&mut h, k + 1, 0, false); }
            1 => { f.push(&mut h, k + 1, 0, true); }
            _ => { let s = (1..10).find(|&s| f.parent[s] == 0); match s { Some(s) => f.insert(&mut h, k + 1, s, c % 2 == 0), None => f.push(&mut h, k + 1, 0, true) }; }
        }
    }
    ck!(f.kids[0].len() == 9);
    f.verify(&h);
    if c == 511 { cover(0); }
    if c == 0b10101 && up && !rm { cover(1); }
    f.obs();
}
}
