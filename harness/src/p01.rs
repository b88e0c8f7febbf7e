//! Index, optional index and port offset encodings.
use crate::sym::*;
use crate::util::*;
use ::portgraph::index::{MaybeNodeIndex, MaybePortIndex, Unsigned};

fn index_of<U: Unsigned>(bits: u32, x: usize, y: usize) {
    let max = NodeIndex::<U>::max_index();
    // 2^(n-1) - 2: one value is taken by "none", one bit by the flag
    ck!(max == (((1u128 << (bits - 1)) - 2) as usize));
    ck!(PortIndex::<U>::max_index() == max);
    match (NodeIndex::<U>::try_from(x), NodeIndex::<U>::try_from(y)) {
        (Ok(a), Ok(b)) => {
            ck!(x <= max && y <= max);
            ck!(a.index() == x && usize::from(a) == x);
            ck!(a == NodeIndex::new(x));
            ck!((a == b) == (x == y));
            ck!((a < b) == (x < y));
            ck!((a.cmp(&b)) == x.cmp(&y));
            let mut m: MaybeNodeIndex<U> = a.into();
            ck!(m.is_some() && !m.is_none());
            ck!(m.to_option() == Some(a) && m.unwrap() == a);
            ck!(MaybeNodeIndex::new(Some(a)) == m);
            ck!(m.as_mut().map(|q| *q) == Some(a));
            let old = m.replace(b);
            ck!(old.to_option() == Some(a) && m.to_option() == Some(b));
            ck!((old == m) == (x == y));
            let t = m.take();
            ck!(t.to_option() == Some(b) && m.is_none() && m.to_option().is_none());
            ck!(m != t);
            cover(0);
        }
        (Err(_), _) => ck!(x > max),
        (_, Err(_)) => ck!(y > max),
    }
    match PortIndex::<U>::try_from(x) {
        Ok(a) => {
            ck!(x <= max);
            ck!(a.index() == x && a == PortIndex::new(x));
            let m: MaybePortIndex<U> = Some(a).into();
            ck!(m.to_option() == Some(a));
            cover(1);
        }
        Err(_) => {
            ck!(x > max);
            cover(2);
        }
    }
    let none: MaybeNodeIndex<U> = None.into();
    ck!(none.is_none() && none.to_option().is_none() && none == MaybeNodeIndex::default());
    let none: MaybePortIndex<U> = None.into();
    ck!(none.is_none() && none.to_option().is_none() && none == MaybePortIndex::default());
}
fn new_panics<U: Unsigned>(x: usize) {
    let max = NodeIndex::<U>::max_index();
    expect_panic(x > max);
    let n = if any_bool() { NodeIndex::<U>::new(x).index() } else { PortIndex::<U>::new(x).index() };
    expect_panic(false);
    ck!(n == x && x <= max);
}
fn offset_of<U: Unsigned>(x: usize, y: usize, da: bool, db: bool) {
    let max = PortOffset::<U>::max_offset();
    expect_panic((x > max) | (y > max));
    let a = PortOffset::<U>::new(dir(da), x);
    let b = PortOffset::<U>::new(dir(db), y);
    expect_panic(false);
    ck!(x <= max && y <= max);
    ck!(a.index() == x && a.direction() == dir(da));
    ck!(a == if da { PortOffset::new_outgoing(x) } else { PortOffset::new_incoming(x) });
    ck!((a == b) == ((x == y) & (da == db)));
    let o = a.opposite();
    ck!(o.index() == x && o.direction() == dir(!da) && o.opposite() == a && o != a);
    cover(0);
}

harnesses! {
p01_index_u8, covers = 3, bounds = "all pairs of usize values, NodeIndex/PortIndex/Maybe*<u8>", { index_of::<u8>(8, any_u64() as usize, any_u64() as usize); }
p01_index_u16, covers = 3, bounds = "all pairs of usize values, <u16>", { index_of::<u16>(16, any_u64() as usize, any_u64() as usize); }
p01_index_u32, covers = 3, bounds = "all pairs of usize values, <u32>", { index_of::<u32>(32, any_u64() as usize, any_u64() as usize); }
p01_index_u64, covers = 3, bounds = "all pairs of usize values, <u64>", { index_of::<u64>(64, any_u64() as usize, any_u64() as usize); }
p01_index_usize, covers = 3, bounds = "all pairs of usize values, <usize>", { index_of::<usize>(64, any_u64() as usize, any_u64() as usize); }
p01_new, covers = 1, bounds = "all usize values; new() of NodeIndex and PortIndex, <u8>, <u16>, <u32>, <u64>", {
    let x = any_u64() as usize;
    match choose(below(4)) {
        0 => new_panics::<u8>(x),
        1 => new_panics::<u16>(x),
        2 => new_panics::<u32>(x),
        _ => new_panics::<u64>(x),
    }
    cover(0);
}
p01_offset, covers = 1, bounds = "all pairs of usize values and directions, PortOffset<u8>, <u16>, <u32>, <u64>", {
    let (x, y, a, b) = (any_u64() as usize, any_u64() as usize, any_bool(), any_bool());
    match choose(below(4)) {
        0 => offset_of::<u8>(x, y, a, b),
        1 => offset_of::<u16>(x, y, a, b),
        2 => offset_of::<u32>(x, y, a, b),
        _ => offset_of::<u64>(x, y, a, b),
    }
}
p01_direction, covers = 1, bounds = "both directions; Direction <-> usize for every usize", {
    let d = dir(any_bool());
    ck!(d.reverse() != d && d.reverse().reverse() == d);
    let i = usize::from(d);
    ck!(i < 2 && (i == 0) == (d == IN));
    ck!(Direction::BOTH[i] == d);
    let x = any_u64() as usize;
    match Direction::try_from(x) {
        Ok(e) => ck!(x < 2 && usize::from(e) == x),
        Err(_) => ck!(x >= 2),
    }
    cover(0);
}
}
