//! Hash-consed bit-vector expressions (width 1..=128) with local simplification,
//! unsigned interval and small value-set analysis, and concrete evaluation under a model.
use crate::ir::{B, P};
use std::collections::HashMap;
use std::sync::Arc;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(B, Eid, Eid),
    Cmp(P, Eid, Eid),
    Ite(Eid, Eid, Eid),
    ZExt(Eid),
    SExt(Eid),
    Extract(Eid, u8),
    /// hi, lo
    Concat(Eid, Eid),
    Not(Eid),
}

#[derive(Clone, Copy)]
struct Info {
    n: N,
    w: u8,
    lo: u128,
    hi: u128,
    size: u32,
    sup: u128,
    /// structural hash, independent of creation order
    h: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VarInfo {
    pub w: u8,
    /// values are 0..=max
    pub max: u64,
}

pub struct Arena {
    nodes: Vec<Info>,
    map: HashMap<(N, u8), Eid>,
    vsets: HashMap<Eid, Option<Arc<Vec<u64>>>>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    gen: u32,
    /// (index,width,max) -> expr ; variables are keyed by creation index along the path
    vars: HashMap<(u32, u8, u64), Eid>,
    pub varinfo: Vec<(u32, VarInfo)>, // var table: N::Var(k) -> (path index, info)
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}
pub fn fold_bin(op: B, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sx(a, w);
            if b >= w as u128 {
                (if x < 0 { -1i128 } else { 0 }) as u128
            } else {
                (x >> b) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    };
    r & m
}
pub fn fold_cmp(p: P, w: u8, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b,
        P::Ne => a != b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Ugt => a > b,
        P::Uge => a >= b,
        P::Slt => sx(a, w) < sx(b, w),
        P::Sle => sx(a, w) <= sx(b, w),
        P::Sgt => sx(a, w) > sx(b, w),
        P::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: HashMap::new(),
            vsets: HashMap::new(),
            stamp: vec![],
            val: vec![],
            gen: 1,
            vars: HashMap::new(),
            varinfo: vec![],
        };
        a.cnst(0, 1);
        a.cnst(1, 1);
        a
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn n(&self, e: Eid) -> N {
        self.nodes[e as usize].n
    }
    pub fn w(&self, e: Eid) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn h(&self, e: Eid) -> u64 {
        self.nodes[e as usize].h
    }
    /// Rebuild `e` with the variables in `fixed` replaced by their model values.
    pub fn subst(&mut self, e: Eid, fixed: u128, model: &[u64], memo: &mut HashMap<Eid, Eid>) -> Eid {
        if self.sup(e) & fixed == 0 {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let w = self.w(e);
        let r = if self.sup(e) & !fixed == 0 {
            let v = self.eval(e, model);
            self.cnst(v, w)
        } else {
            match self.n(e) {
                N::Const(_) | N::Var(_) => e,
                N::Bin(o, a, b) => {
                    let x = self.subst(a, fixed, model, memo);
                    let y = self.subst(b, fixed, model, memo);
                    self.bin(o, x, y)
                }
                N::Cmp(p, a, b) => {
                    let x = self.subst(a, fixed, model, memo);
                    let y = self.subst(b, fixed, model, memo);
                    self.cmp(p, x, y)
                }
                N::Ite(c, a, b) => {
                    let c = self.subst(c, fixed, model, memo);
                    match self.as_const(c) {
                        Some(1) => self.subst(a, fixed, model, memo),
                        Some(_) => self.subst(b, fixed, model, memo),
                        None => {
                            let x = self.subst(a, fixed, model, memo);
                            let y = self.subst(b, fixed, model, memo);
                            self.ite(c, x, y)
                        }
                    }
                }
                N::ZExt(a) => {
                    let x = self.subst(a, fixed, model, memo);
                    self.zext(x, w)
                }
                N::SExt(a) => {
                    let x = self.subst(a, fixed, model, memo);
                    self.sext(x, w)
                }
                N::Extract(a, lo) => {
                    let x = self.subst(a, fixed, model, memo);
                    self.extract(x, lo, w)
                }
                N::Concat(a, b) => {
                    let x = self.subst(a, fixed, model, memo);
                    let y = self.subst(b, fixed, model, memo);
                    self.concat(x, y)
                }
                N::Not(a) => {
                    let x = self.subst(a, fixed, model, memo);
                    self.not(x)
                }
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn size(&self, e: Eid) -> u32 {
        self.nodes[e as usize].size
    }
    /// variable support (bit per var index, saturating at 127)
    pub fn sup(&self, e: Eid) -> u128 {
        self.nodes[e as usize].sup
    }
    pub fn range(&self, e: Eid) -> (u128, u128) {
        let i = &self.nodes[e as usize];
        (i.lo, i.hi)
    }
    pub fn as_const(&self, e: Eid) -> Option<u128> {
        match self.nodes[e as usize].n {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    fn mk(&mut self, n: N, w: u8) -> Eid {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let (lo, hi) = self.interval(n, w);
        if lo == hi && !matches!(n, N::Const(_)) {
            let e = self.cnst(lo, w);
            self.map.insert((n, w), e);
            return e;
        }
        let g = |e: Eid| &self.nodes[e as usize];
        let (size, sup) = match n {
            N::Const(_) => (1, 0),
            N::Var(k) => (1, 1u128 << self.varinfo[k as usize].0.min(127)),
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => {
                (g(a).size.saturating_add(g(b).size).saturating_add(1), g(a).sup | g(b).sup)
            }
            N::Ite(a, b, c) => (
                g(a).size.saturating_add(g(b).size).saturating_add(g(c).size).saturating_add(1),
                g(a).sup | g(b).sup | g(c).sup,
            ),
            N::ZExt(a) | N::SExt(a) | N::Extract(a, _) | N::Not(a) => (g(a).size.saturating_add(1), g(a).sup),
        };
        fn mix(h: u64, v: u64) -> u64 {
            let x = (h ^ v).wrapping_mul(0x9e3779b97f4a7c15);
            x ^ (x >> 29)
        }
        let h = match n {
            N::Const(v) => mix(mix(1, v as u64), (v >> 64) as u64),
            N::Var(k) => {
                let (i, vi) = self.varinfo[k as usize];
                mix(mix(2, i as u64), vi.max)
            }
            N::Bin(o, a, b) => mix(mix(3 + 16 * o as u64, g(a).h), g(b).h),
            N::Cmp(p, a, b) => mix(mix(4 + 16 * p as u64, g(a).h), g(b).h),
            N::Ite(a, b, c) => mix(mix(mix(5, g(a).h), g(b).h), g(c).h),
            N::ZExt(a) => mix(6, g(a).h),
            N::SExt(a) => mix(7, g(a).h),
            N::Extract(a, l) => mix(mix(8, g(a).h), l as u64),
            N::Concat(a, b) => mix(mix(9, g(a).h), g(b).h),
            N::Not(a) => mix(10, g(a).h),
        };
        let h = mix(h, w as u64);
        let e = self.nodes.len() as Eid;
        self.nodes.push(Info { n, w, lo, hi, size, sup, h });
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert((n, w), e);
        e
    }
    pub fn cnst(&mut self, v: u128, w: u8) -> Eid {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, idx: u32, w: u8, max: u64) -> Eid {
        if let Some(&e) = self.vars.get(&(idx, w, max)) {
            return e;
        }
        let k = self.varinfo.len() as u32;
        self.varinfo.push((idx, VarInfo { w, max }));
        let e = self.mk(N::Var(k), w);
        self.vars.insert((idx, w, max), e);
        e
    }
    fn interval(&self, n: N, w: u8) -> (u128, u128) {
        let m = mask(w);
        let r = |e: Eid| (self.nodes[e as usize].lo, self.nodes[e as usize].hi);
        match n {
            N::Const(v) => (v, v),
            N::Var(k) => (0, self.varinfo[k as usize].1.max as u128),
            N::ZExt(a) => r(a),
            N::SExt(a) => {
                let aw = self.w(a);
                let (l, h) = r(a);
                if h < (1u128 << (aw - 1)) {
                    (l, h)
                } else {
                    (0, m)
                }
            }
            N::Ite(_, a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                (al.min(bl), ah.max(bh))
            }
            N::Extract(a, lo) => {
                let (l, h) = r(a);
                let (l, h) = (l >> lo, h >> lo);
                if h <= m {
                    (l, h)
                } else {
                    (0, m)
                }
            }
            N::Concat(a, b) => {
                let bw = self.w(b);
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if al == ah {
                    ((al << bw) | bl, (ah << bw) | bh)
                } else {
                    (al << bw, (ah << bw) | mask(bw))
                }
            }
            N::Not(_) => (0, m),
            N::Cmp(p, a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                let aw = self.w(a);
                let half = 1u128 << (aw - 1);
                let t = match p {
                    P::Eq => {
                        if ah < bl || bh < al {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    P::Ne => {
                        if ah < bl || bh < al {
                            Some(true)
                        } else {
                            None
                        }
                    }
                    P::Ult => {
                        if ah < bl {
                            Some(true)
                        } else if al >= bh {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    P::Ule => {
                        if ah <= bl {
                            Some(true)
                        } else if al > bh {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    P::Slt if ah < half && bh < half => {
                        if ah < bl {
                            Some(true)
                        } else if al >= bh {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    P::Sle if ah < half && bh < half => {
                        if ah <= bl {
                            Some(true)
                        } else if al > bh {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    P::Slt if ah < half && bl >= half => Some(false),
                    P::Slt if bh < half && al >= half => Some(true),
                    P::Sle if ah < half && bl >= half => Some(false),
                    P::Sle if bh < half && al >= half => Some(true),
                    _ => None,
                };
                match t {
                    Some(true) => (1, 1),
                    Some(false) => (0, 0),
                    None => (0, 1),
                }
            }
            N::Bin(op, a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match op {
                    B::Add => match (ah.checked_add(bh), al.checked_add(bl)) {
                        (Some(h), Some(l)) if h <= m => (l, h),
                        (Some(h), Some(l)) if w < 127 && l > m && h <= 2 * m + 1 => (l & m, h & m),
                        _ => (0, m),
                    },
                    B::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else if ah < bl {
                            // always wraps
                            ((al.wrapping_sub(bh)) & m, (ah.wrapping_sub(bl)) & m)
                        } else {
                            (0, m)
                        }
                    }
                    B::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => (0, m),
                    },
                    B::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            (0, m)
                        }
                    }
                    B::URem => {
                        if bl > 0 {
                            if ah < bl {
                                (al, ah)
                            } else {
                                (0, ah.min(bh - 1))
                            }
                        } else {
                            (0, m)
                        }
                    }
                    B::And => (0, ah.min(bh)),
                    B::Or => {
                        let top = ah | bh;
                        let bits = 128 - top.leading_zeros();
                        (al.max(bl), if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 })
                    }
                    B::Xor => {
                        let top = ah | bh;
                        let bits = 128 - top.leading_zeros();
                        (0, if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 })
                    }
                    B::Shl => {
                        if bh < w as u128 && bh < 127 && ah.leading_zeros() as u128 > bh && (ah << bh) <= m {
                            (al << bl, ah << bh)
                        } else {
                            (0, m)
                        }
                    }
                    B::LShr => {
                        let l = if bh >= w as u128 { 0 } else { al >> bh };
                        let h = if bl >= w as u128 { 0 } else { ah >> bl };
                        (l, h)
                    }
                    B::AShr if ah < (1u128 << (w - 1)) => {
                        let l = if bh >= w as u128 { 0 } else { al >> bh };
                        let h = if bl >= w as u128 { 0 } else { ah >> bl };
                        (l, h)
                    }
                    _ => (0, m),
                }
            }
        }
    }

    fn const_leaves(&self, e: Eid, fuel: &mut i32) -> bool {
        *fuel -= 1;
        if *fuel < 0 {
            return false;
        }
        match self.n(e) {
            N::Const(_) => true,
            N::Ite(_, a, b) => self.const_leaves(a, fuel) && self.const_leaves(b, fuel),
            _ => false,
        }
    }
    fn is_ite_const(&self, e: Eid) -> bool {
        matches!(self.n(e), N::Ite(..)) && self.const_leaves(e, &mut 80)
    }
    fn map_leaves(&mut self, e: Eid, f: &mut dyn FnMut(&mut Arena, Eid) -> Eid) -> Eid {
        match self.n(e) {
            N::Ite(c, a, b) => {
                let x = self.map_leaves(a, f);
                let y = self.map_leaves(b, f);
                self.ite(c, x, y)
            }
            _ => f(self, e),
        }
    }

    pub fn not(&mut self, a: Eid) -> Eid {
        debug_assert_eq!(self.w(a), 1);
        match self.n(a) {
            N::Const(v) => self.cnst(v ^ 1, 1),
            N::Not(x) => x,
            N::Cmp(p, x, y) => {
                let q = match p {
                    P::Eq => P::Ne,
                    P::Ne => P::Eq,
                    P::Ult => return self.cmp(P::Ule, y, x),
                    P::Ule => return self.cmp(P::Ult, y, x),
                    P::Slt => return self.cmp(P::Sle, y, x),
                    P::Sle => return self.cmp(P::Slt, y, x),
                    _ => unreachable!(),
                };
                self.cmp(q, x, y)
            }
            _ => self.mk(N::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(B::Or, a, b)
    }

    pub fn bin(&mut self, op: B, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {op:?}");
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cnst(fold_bin(op, w, x, y), w);
        }
        let m = mask(w);
        // commutative: constant to the right, ordered
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && (ca.is_some() || (cb.is_none() && self.h(a) > self.h(b))) {
            return self.bin_c(op, w, b, a, m);
        }
        self.bin_c(op, w, a, b, m)
    }
    fn bin_c(&mut self, op: B, w: u8, a: Eid, b: Eid, m: u128) -> Eid {
        let ca = self.as_const(a);
        if let Some(y) = self.as_const(b) {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if y == 0 => return a,
                B::Mul if y == 1 => return a,
                B::Mul if y == 0 => return b,
                B::And if y == 0 => return b,
                B::And if y == m => return a,
                B::Or if y == m => return b,
                B::UDiv if y == 1 => return a,
                B::Xor if w == 1 => return self.not(a),
                B::Sub => {
                    let k = self.cnst(y.wrapping_neg(), w);
                    return self.bin(B::Add, a, k);
                }
                B::Mul if y.is_power_of_two() => {
                    let k = self.cnst(y.trailing_zeros() as u128, w);
                    return self.bin(B::Shl, a, k);
                }
                B::UDiv if y.is_power_of_two() => {
                    let k = self.cnst(y.trailing_zeros() as u128, w);
                    return self.bin(B::LShr, a, k);
                }
                B::URem if y.is_power_of_two() => {
                    let k = self.cnst(y - 1, w);
                    return self.bin(B::And, a, k);
                }
                B::Add => {
                    if let N::Bin(B::Add, x, k) = self.n(a) {
                        if let Some(kv) = self.as_const(k) {
                            let k2 = self.cnst(kv.wrapping_add(y), w);
                            return self.bin(B::Add, x, k2);
                        }
                    }
                }
                B::And => {
                    // masks covering the whole range
                    let (_, h) = self.range(a);
                    if (y + 1).is_power_of_two() && h <= y {
                        return a;
                    }
                    if let N::Bin(B::And, x, k) = self.n(a) {
                        if let Some(kv) = self.as_const(k) {
                            let k2 = self.cnst(kv & y, w);
                            return self.bin(B::And, x, k2);
                        }
                    }
                }
                _ => {}
            }
            if self.is_ite_const(a) {
                return self.map_leaves(a, &mut |s, l| s.bin(op, l, b));
            }
        }
        if let Some(x) = ca {
            match op {
                B::Shl | B::LShr | B::AShr | B::UDiv | B::URem if x == 0 => return a,
                _ => {}
            }
            if self.is_ite_const(b) {
                return self.map_leaves(b, &mut |s, l| s.bin(op, a, l));
            }
        }
        if a == b {
            match op {
                B::And | B::Or => return a,
                B::Xor | B::Sub => return self.cnst(0, w),
                _ => {}
            }
        }
        if w == 1 {
            match op {
                B::And => {
                    let na = self.not(a);
                    if na == b {
                        return self.cnst(0, 1);
                    }
                }
                B::Or => {
                    let na = self.not(a);
                    if na == b {
                        return self.cnst(1, 1);
                    }
                }
                B::Add | B::Sub => return self.bin(B::Xor, a, b),
                B::Mul => return self.bin(B::And, a, b),
                _ => {}
            }
        }
        self.mk(N::Bin(op, a, b), w)
    }

    pub fn cmp(&mut self, p: P, a: Eid, b: Eid) -> Eid {
        match p {
            P::Ugt => return self.cmp(P::Ult, b, a),
            P::Uge => return self.cmp(P::Ule, b, a),
            P::Sgt => return self.cmp(P::Slt, b, a),
            P::Sge => return self.cmp(P::Sle, b, a),
            _ => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cnst(matches!(p, P::Eq | P::Ule | P::Sle) as u128, 1);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cnst(fold_cmp(p, w, x, y) as u128, 1);
        }
        if matches!(p, P::Eq | P::Ne) && (ca.is_some() || (cb.is_none() && self.h(a) > self.h(b))) {
            return self.cmp_c(p, b, a);
        }
        self.cmp_c(p, a, b)
    }
    fn cmp_c(&mut self, p: P, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if w == 1 && matches!(p, P::Eq | P::Ne) {
                let pos = (y == 1) == (p == P::Eq);
                return if pos { a } else { self.not(a) };
            }
            match (p, self.n(a)) {
                (P::Eq | P::Ne | P::Ult | P::Ule, N::ZExt(x)) => {
                    let xw = self.w(x);
                    if y <= mask(xw) {
                        let k = self.cnst(y, xw);
                        return self.cmp(p, x, k);
                    }
                    // y larger than any x
                    return self.cnst(!matches!(p, P::Eq) as u128, 1);
                }
                (P::Eq | P::Ne, N::Bin(B::Add, x, k)) => {
                    if let Some(kv) = self.as_const(k) {
                        let k2 = self.cnst(y.wrapping_sub(kv), w);
                        return self.cmp(p, x, k2);
                    }
                }
                (P::Eq | P::Ne, N::Concat(h, l)) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.cnst(y >> lw, hw);
                    let kl = self.cnst(y, lw);
                    let ch = self.cmp(P::Eq, h, kh);
                    let cl = self.cmp(P::Eq, l, kl);
                    let r = self.and(ch, cl);
                    return if p == P::Eq { r } else { self.not(r) };
                }
                _ => {}
            }
            if let N::Ite(..) = self.n(a) {
                if self.is_ite_const(a) {
                    return self.map_leaves(a, &mut |s, l| s.cmp(p, l, b));
                }
                // ite(c, k, x) == y with k != y  ->  !c && x == y
                if let N::Ite(c, t, f) = self.n(a) {
                    if self.as_const(t).is_some() || self.as_const(f).is_some() {
                        let ct = self.cmp(p, t, b);
                        let cf = self.cmp(p, f, b);
                        if self.as_const(ct).is_some() || self.as_const(cf).is_some() {
                            return self.ite(c, ct, cf);
                        }
                    }
                }
            }
        }
        if self.as_const(a).is_some() && self.is_ite_const(b) {
            return self.map_leaves(b, &mut |s, l| s.cmp(p, a, l));
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
            if self.w(x) == self.w(y) && matches!(p, P::Eq | P::Ne | P::Ult | P::Ule) {
                return self.cmp(p, x, y);
            }
        }
        self.mk(N::Cmp(p, a, b), 1)
    }

    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // ite(c, a, ite(d, a, y)) -> ite(c|d, a, y)
        if let N::Ite(d, x, y) = self.n(b) {
            if x == a {
                let cd = self.or(c, d);
                return self.ite(cd, a, y);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Eid, w: u8) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.cnst(v, w);
        }
        if let N::ZExt(x) = self.n(a) {
            return self.zext(x, w);
        }
        if self.is_ite_const(a) {
            return self.map_leaves(a, &mut |s, l| s.zext(l, w));
        }
        self.mk(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Eid, w: u8) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.cnst(sx(v, aw) as u128, w);
        }
        let (_, h) = self.range(a);
        if h < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        if self.is_ite_const(a) {
            return self.map_leaves(a, &mut |s, l| s.sext(l, w));
        }
        self.mk(N::SExt(a), w)
    }
    pub fn extract(&mut self, a: Eid, lo: u8, w: u8) -> Eid {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo as u32 + w as u32 <= aw as u32);
        match self.n(a) {
            N::Const(v) => return self.cnst(v >> lo, w),
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.cnst(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, w);
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            N::Extract(x, l2) => return self.extract(x, lo + l2, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let x = self.extract(l, lo, lw - lo);
                let y = self.extract(h, 0, w - (lw - lo));
                return self.concat(y, x);
            }
            N::Ite(c, x, y) => {
                if self.is_ite_const(a) {
                    return self.map_leaves(a, &mut |s, l| s.extract(l, lo, w));
                }
                let _ = (c, x, y);
            }
            N::Bin(B::LShr, x, k) => {
                if let Some(kv) = self.as_const(k) {
                    if kv + lo as u128 + w as u128 <= aw as u128 {
                        return self.extract(x, lo + kv as u8, w);
                    }
                }
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                if self.as_const(y).is_some() || lo == 0 {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return self.bin(op, p, q);
                }
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            _ => {}
        }
        let (_, h) = self.range(a);
        if lo < 128 && (h >> lo) == 0 {
            return self.cnst(0, w);
        }
        self.mk(N::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.cnst((x << lw) | y, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (N::Extract(x, hl), N::Extract(y, ll)) = (self.n(h), self.n(l)) {
            if x == y && hl == ll + lw {
                return self.extract(x, ll, w);
            }
        }
        if let N::Extract(x, hl) = self.n(h) {
            if x == l && hl == lw {
                return self.extract(x, 0, w);
            }
        }
        if let (N::Extract(x, hl), N::Extract(y, 0)) = (self.n(h), self.n(l)) {
            if x == y && hl == lw && w == self.w(x) {
                return x;
            }
        }
        self.mk(N::Concat(h, l), w)
    }

    /// Small over-approximate set of possible values (ignoring path constraints), sorted.
    pub fn vset(&mut self, e: Eid) -> Option<Arc<Vec<u64>>> {
        const MAX: usize = 96;
        if let Some(r) = self.vsets.get(&e) {
            return r.clone();
        }
        let w = self.w(e);
        let r: Option<Vec<u64>> = if w > 64 {
            None
        } else {
            match self.n(e) {
                N::Const(v) => Some(vec![v as u64]),
                N::Var(k) => {
                    let m = self.varinfo[k as usize].1.max;
                    if (m as usize) < MAX && m < 96 {
                        Some((0..=m).collect())
                    } else {
                        None
                    }
                }
                N::Cmp(..) | N::Not(_) => Some(vec![0, 1]),
                N::ZExt(a) => self.vset(a).map(|v| v.to_vec()),
                N::SExt(a) => {
                    let aw = self.w(a);
                    self.vset(a).map(|v| v.iter().map(|&x| (sx(x as u128, aw) as u128 & mask(w)) as u64).collect())
                }
                N::Extract(a, lo) => {
                    if self.w(a) > 64 {
                        None
                    } else {
                        self.vset(a).map(|v| v.iter().map(|&x| ((x >> lo) as u128 & mask(w)) as u64).collect())
                    }
                }
                N::Ite(_, a, b) => match (self.vset(a), self.vset(b)) {
                    (Some(x), Some(y)) => Some(x.iter().chain(y.iter()).copied().collect()),
                    _ => None,
                },
                N::Concat(a, b) => match (self.vset(a), self.vset(b)) {
                    (Some(x), Some(y)) if x.len() * y.len() <= 1024 => {
                        let lw = self.w(b);
                        let mut v = vec![];
                        for &p in x.iter() {
                            for &q in y.iter() {
                                v.push((p << lw) | q);
                            }
                        }
                        Some(v)
                    }
                    _ => None,
                },
                N::Bin(op, a, b) => match (self.vset(a), self.vset(b)) {
                    (Some(x), Some(y)) if x.len() * y.len() <= 1024 => {
                        let mut v = vec![];
                        for &p in x.iter() {
                            for &q in y.iter() {
                                v.push(fold_bin(op, w, p as u128, q as u128) as u64);
                            }
                        }
                        Some(v)
                    }
                    _ => None,
                },
            }
        };
        let r = r.and_then(|mut v| {
            v.sort_unstable();
            v.dedup();
            if v.len() > MAX {
                None
            } else {
                Some(Arc::new(v))
            }
        });
        self.vsets.insert(e, r.clone());
        r
    }

    /// evaluate under a model (indexed by path variable index; missing = 0)
    pub fn eval(&mut self, e: Eid, model: &[u64]) -> u128 {
        self.gen += 1;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == self.gen {
                stack.pop();
                continue;
            }
            let n = self.nodes[xi].n;
            let w = self.nodes[xi].w;
            let mut need = |s: &Self, y: Eid| -> bool {
                if s.stamp[y as usize] != s.gen {
                    stack.push(y);
                    true
                } else {
                    false
                }
            };
            let v = match n {
                N::Const(v) => v,
                N::Var(k) => {
                    let idx = self.varinfo[k as usize].0 as usize;
                    model.get(idx).copied().unwrap_or(0) as u128
                }
                N::Bin(op, a, b) => {
                    let p = need(self, a);
                    let q = need(self, b);
                    if p || q {
                        continue;
                    }
                    fold_bin(op, w, self.val[a as usize], self.val[b as usize])
                }
                N::Cmp(p, a, b) => {
                    let x = need(self, a);
                    let y = need(self, b);
                    if x || y {
                        continue;
                    }
                    fold_cmp(p, self.nodes[a as usize].w, self.val[a as usize], self.val[b as usize]) as u128
                }
                N::Ite(c, a, b) => {
                    if need(self, c) {
                        continue;
                    }
                    let t = if self.val[c as usize] == 1 { a } else { b };
                    if need(self, t) {
                        continue;
                    }
                    self.val[t as usize]
                }
                N::ZExt(a) => {
                    if need(self, a) {
                        continue;
                    }
                    self.val[a as usize]
                }
                N::SExt(a) => {
                    if need(self, a) {
                        continue;
                    }
                    sx(self.val[a as usize], self.nodes[a as usize].w) as u128 & mask(w)
                }
                N::Extract(a, lo) => {
                    if need(self, a) {
                        continue;
                    }
                    (self.val[a as usize] >> lo) & mask(w)
                }
                N::Concat(a, b) => {
                    let x = need(self, a);
                    let y = need(self, b);
                    if x || y {
                        continue;
                    }
                    (self.val[a as usize] << self.nodes[b as usize].w) | self.val[b as usize]
                }
                N::Not(a) => {
                    if need(self, a) {
                        continue;
                    }
                    self.val[a as usize] ^ 1
                }
            };
            self.val[xi] = v;
            self.stamp[xi] = self.gen;
            stack.pop();
        }
        self.val[e as usize]
    }
}
