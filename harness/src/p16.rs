//! Secondary maps: total maps with a default.
use crate::sym::*;
use crate::util::*;
use ::portgraph::{SecondaryMap, UnmanagedDenseMap};
use bitvec::vec::BitVec;
use std::collections::HashSet;

type D = UnmanagedDenseMap<N, u64>;
const K: usize = tier(4, 5);

/// one arbitrary operation on a dense map with symbolic keys and values
fn dense_op(d: &mut D, v: &mut [u64; K], dflt: u64) {
    let (a, b) = (below(K), below(K));
    match choose(below(12)) {
        0 => { let x = any_u64(); SecondaryMap::set(d, ni(a), x); v[a] = x; }
        1 => { let x = any_u64(); d[ni(a)] = x; v[a] = x; }
        2 => { ck!(SecondaryMap::take(d, ni(a)) == v[a]); v[a] = dflt; }
        3 => { d.swap(ni(a), ni(b)); let t = v[a]; v[a] = v[b]; v[b] = t; }
        4 => { d.rekey(ni(a), Some(ni(b))); let t = v[a]; v[a] = dflt; v[b] = t; }
        5 => { SecondaryMap::rekey(d, ni(a), None); v[a] = dflt; }
        6 => { SecondaryMap::remove(d, ni(a)); v[a] = dflt; }
        7 => {
            let c = choose(below(K + 1));
            d.shrink_to(c);
            for k in c..K { v[k] = dflt; }
        }
        8 => {
            let c = choose(below(10));
            d.ensure_capacity(c);
            ck!(d.capacity() >= c);
        }
        9 => { let x = any_u64(); ck!(*d.get_mut(ni(a)) == v[a]); *d.get_mut(ni(a)) = x; v[a] = x; }
        10 => match d.try_get_mut(ni(a)) {
            Some(r) => { let x = any_u64(); ck!(*r == v[a]); *r = x; v[a] = x; }
            None => ck!(v[a] == dflt),
        },
        _ => {
            let before = *v;
            match d.get_disjoint_mut([ni(a), ni(b)]) {
                Some([x, y]) => {
                    ck!(a != b && *x == before[a] && *y == before[b]);
                    let (p, q) = (any_u64(), any_u64());
                    *x = p;
                    *y = q;
                    v[a] = p;
                    v[b] = q;
                }
                None => ck!(a == b),
            }
        }
    }
}
fn dense_ok(d: &D, v: &[u64; K], dflt: u64) {
    let q = below(K + 2);
    let w = if q < K { v[q] } else { dflt };
    ck!(*d.get(ni(q)) == w && d[ni(q)] == w && *SecondaryMap::get(d, ni(q)) == w);
    ck!(SecondaryMap::default_value(d) == dflt);
    // the iterator: ascending keys, right values, nothing that differs from the default is missing
    let mut next = 0;
    for (k, x) in SecondaryMap::iter(d) {
        let k = k.index();
        while next < k { ck!(next >= K || v[next] == dflt); next += 1; }
        ck!(*x == if k < K { v[k] } else { dflt });
        next = k + 1;
    }
    for k in next..K { ck!(v[k] == dflt); }
}
fn bit_ok<M: SecondaryMap<usize, bool>>(d: &M, v: &[bool; K]) {
    for k in 0..K + 2 { ck!(*d.get(k) == (k < K && v[k])); }
    ck!(!d.default_value());
    let mut seen = [false; K];
    for (k, x) in d.iter() {
        ck!(*x && k < K && v[k] && !seen[k]);
        seen[k] = true;
    }
    for k in 0..K { ck!(seen[k] == v[k]); }
}
fn bit_op<M: SecondaryMap<usize, bool>>(d: &mut M, v: &mut [bool; K], a: usize, b: usize) {
    match choose(below(7)) {
        0 => { let x = any_bool(); d.set(a, x); v[a] = x; }
        1 => { d.set(a, true); v[a] = true; }
        2 => { ck!(d.take(a) == v[a]); v[a] = false; }
        3 => { d.remove(a); v[a] = false; }
        4 => { d.rekey(a, Some(b)); let t = v[a]; v[a] = false; v[b] = t; }
        5 => { d.rekey(a, None); v[a] = false; }
        _ => { d.swap(a, b); let t = v[a]; v[a] = v[b]; v[b] = t; }
    }
}
harnesses! {
p16_dense, covers = 1, bounds = "UnmanagedDenseMap over 4 (thorough 5) keys, any u64 default, the first 0 or 3 holding any values; 2 (thorough 3) operations of twelve kinds with symbolic keys and any u64 values; every lookup and the iterator", {
    let dflt = any_u64();
    let mut d: D = if choose(below(2)) == 0 { D::with_default(dflt) } else { D::with_capacity_and_default(3, dflt) };
    let mut v = [dflt; K];
    for k in 0..choose(below(2)) * 3 { let x = any_u64(); d[ni(k)] = x; v[k] = x; }
    for _ in 0..tier(2, 3) { dense_op(&mut d, &mut v, dflt); }
    dense_ok(&d, &v, dflt);
    cover(0);
}
p16_eq, covers = 2, bounds = "two dense maps with any (possibly different) defaults, 2 operations each: equal exactly when the defaults and all lookups agree; clone equal and independent", {
    let (d1, d2) = (any_u64(), any_u64());
    let (mut a, mut b) = (D::with_default(d1), D::with_default(d2));
    let (mut v, mut w) = ([d1; K], [d2; K]);
    for _ in 0..2 {
        let (k, x) = (below(K), any_u64());
        a[ni(k)] = x;
        v[k] = x;
    }
    let (k, x) = (below(K), any_u64());
    b[ni(k)] = x;
    w[k] = x;
    if any_bool() { b.swap(ni(0), ni(K - 1)); w.swap(0, K - 1); } else { b.ensure_capacity(9); }
    let mut eq = d1 == d2;
    for k in 0..K { eq &= v[k] == w[k]; }
    ck!((a == b) == eq);
    if eq { cover(0); } else { cover(1); }
    let mut c = a.clone();
    ck!(c == a);
    c[ni(1)] = any_u64();
    ck!(*a.get(ni(1)) == v[1]);
}
p16_new, covers = 1, bounds = "fresh maps of every kind and capacity 0..=9: every key holds the default, the iterator is consistent, capacity as requested", {
    let c = choose(below(10));
    let d: D = SecondaryMap::with_capacity(c);
    dense_ok(&d, &[0; K], 0);
    ck!(d.capacity() >= c);
    dense_ok(&D::new(), &[0; K], 0);
    dense_ok(&D::default(), &[0; K], 0);
    let b: BitVec = SecondaryMap::<usize, bool>::with_capacity(c);
    bit_ok(&b, &[false; K]);
    ck!(SecondaryMap::<usize, bool>::capacity(&b) >= c);
    let h: HashSet<usize> = SecondaryMap::with_capacity(c);
    bit_ok(&h, &[false; K]);
    ck!(SecondaryMap::<usize, bool>::capacity(&h) >= c);
    cover(0);
}
p16_bits, covers = 1, bounds = "BitVec as a map over 4 (thorough 5) keys with any contents: 2 operations of seven kinds, any keys", {
    let mut d: BitVec = SecondaryMap::<usize, bool>::new();
    let mut v = [false; K];
    for k in 0..K { let x = any_bool(); SecondaryMap::set(&mut d, k, x); v[k] = x; }
    for _ in 0..2 { let (a, b) = (choose(below(K)), choose(below(K))); bit_op(&mut d, &mut v, a, b); }
    bit_ok(&d, &v);
    cover(0);
}
p16_hash, covers = 1, bounds = "HashSet as a map over 4 (thorough 5) keys: 2 (thorough 3) operations of seven kinds, any keys", {
    let mut d: HashSet<usize> = SecondaryMap::new();
    let mut v = [false; K];
    for _ in 0..tier(2, 3) { let (a, b) = (choose(below(K)), choose(below(K))); bit_op(&mut d, &mut v, a, b); }
    bit_ok(&d, &v);
    cover(0);
}
p16_capacity, covers = 1, bounds = "ensure_capacity(0..=200 in steps) after one key was set, on every kind of map: contents unchanged, capacity at least what was asked", {
    let (k, c1, c2) = (choose(below(K)), choose(below(5)) * 40, choose(below(5)) * 50);
    let mut v = [false; K];
    v[k] = true;
    let mut b: BitVec = SecondaryMap::<usize, bool>::with_capacity(c1);
    SecondaryMap::set(&mut b, k, true);
    SecondaryMap::<usize, bool>::ensure_capacity(&mut b, c2);
    ck!(SecondaryMap::<usize, bool>::capacity(&b) >= c2);
    bit_ok(&b, &v);
    let mut h: HashSet<usize> = SecondaryMap::with_capacity(c1);
    SecondaryMap::set(&mut h, k, true);
    SecondaryMap::<usize, bool>::ensure_capacity(&mut h, c2);
    ck!(SecondaryMap::<usize, bool>::capacity(&h) >= c2);
    bit_ok(&h, &v);
    let mut d: D = D::with_capacity(c1);
    d[ni(k)] = 7;
    d.ensure_capacity(c2);
    ck!(d.capacity() >= c2);
    let mut w = [0; K];
    w[k] = 7;
    dense_ok(&d, &w, 0);
    cover(0);
}
p16_iters, covers = 1, bounds = "iterators of dense maps, bit vectors and hash sets after 2 insertions: iterator contract, and both ends for the dense ones", {
    let (a, b) = (choose(below(K)), choose(below(K)));
    let mut d = D::new();
    d[ni(a)] = 3;
    d[ni(b)] = 4;
    iter_protocol(SecondaryMap::iter(&d), 8);
    let n = a.max(b) + 1;
    let mut it = SecondaryMap::iter(&d);
    let (mut lo, mut hi) = (0, n);
    while lo < hi {
        if any_bool() { ck!(it.next().unwrap().0.index() == lo); lo += 1; } else { hi -= 1; ck!(it.next_back().unwrap().0.index() == hi); }
    }
    ck!(it.next().is_none() && it.next_back().is_none());
    let mut v: BitVec = SecondaryMap::<usize, bool>::new();
    SecondaryMap::set(&mut v, a, true);
    SecondaryMap::set(&mut v, b, true);
    iter_protocol(SecondaryMap::<usize, bool>::iter(&v), 8);
    let mut it = SecondaryMap::<usize, bool>::iter(&v);
    ck!(it.next_back().map(|x| x.0) == Some(a.max(b)));
    ck!(it.next_back().map(|x| x.0) == if a == b { None } else { Some(a.min(b)) });
    let mut h: HashSet<usize> = SecondaryMap::new();
    SecondaryMap::set(&mut h, a, true);
    SecondaryMap::set(&mut h, b, true);
    iter_protocol(SecondaryMap::<usize, bool>::iter(&h), 8);
    cover(0);
}
p16_disjoint, covers = 2, bounds = "get_disjoint_mut with 5 symbolic keys of a dense map holding any values at 0 or 4 of them: None exactly when two keys coincide, otherwise each borrow is its own key's value", {
    let dflt = any_u64();
    let mut d = D::with_default(dflt);
    let mut v = [dflt; 7];
    for k in 0..choose(below(2)) * 4 { let x = any_u64(); d[ni(k)] = x; v[k] = x; }
    let k = [below(7), below(7), below(7), below(7), below(7)];
    let mut dup = false;
    for i in 0..5 { for j in 0..i { dup |= k[i] == k[j]; } }
    match d.get_disjoint_mut(k.map(ni)) {
        Some(r) => {
            ck!(!dup);
            for (i, x) in r.into_iter().enumerate() {
                ck!(*x == v[k[i]]);
                *x = i as u64;
                v[k[i]] = i as u64;
            }
            cover(0);
        }
        None => { ck!(dup); cover(1); }
    }
    let q = below(8);
    ck!(*d.get(ni(q)) == if q < 7 { v[q] } else { dflt });
}
p16_words, covers = 2, bounds = "BitVec and HashSet holding 6 keys up to 200 (across several words): any two of 14 keys on both sides of the word boundaries through any of seven operations; every lookup, the iterator and its contract", {
    let at = [0, 1, 30, 31, 32, 62, 63, 64, 65, 127, 128, 129, 191, 200];
    let (a, b) = (at[choose(below(14))], at[choose(below(14))]);
    let hash = choose(below(2)) == 1;
    let mut v = [false; 202];
    let k = choose(below(7));
    fn go<M: SecondaryMap<usize, bool>>(d: &mut M, v: &mut [bool; 202], k: usize, a: usize, b: usize) {
        for x in [0, 31, 63, 64, 128, 200] { d.set(x, true); v[x] = true; }
        match k {
            0 => { d.set(a, false); v[a] = false; }
            1 => { d.set(a, true); v[a] = true; d.set(b, true); v[b] = true; }
            2 => { ck!(d.take(a) == v[a]); v[a] = false; ck!(d.take(b) == v[b]); v[b] = false; }
            3 => { d.remove(a); v[a] = false; d.remove(b); v[b] = false; }
            4 => { d.rekey(a, Some(b)); let t = v[a]; v[a] = false; v[b] = t; }
            5 => { d.ensure_capacity(b + 150); d.rekey(a, None); v[a] = false; }
            _ => { d.swap(a, b); let t = v[a]; v[a] = v[b]; v[b] = t; }
        }
        for x in 0..202 { ck!(*d.get(x) == v[x]); }
        ck!(!*d.get(100_000));
        let mut seen = [false; 202];
        for (x, y) in d.iter() { ck!(*y && x < 202 && v[x] && !seen[x]); seen[x] = true; }
        ck!(seen == *v);
    }
    if hash {
        let mut d: HashSet<usize> = SecondaryMap::new();
        go(&mut d, &mut v, k, a, b);
        cover(0);
    } else {
        let mut d: BitVec = SecondaryMap::<usize, bool>::new();
        go(&mut d, &mut v, k, a, b);
        iter_protocol(SecondaryMap::<usize, bool>::iter(&d), 12);
        cover(1);
    }
}
}
