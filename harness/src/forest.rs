//! Reference model of a `Hierarchy`: parents and ordered child lists.
#![allow(unused)]
use crate::sym::*;
use crate::util::*;
use ::portgraph::hierarchy::AttachError;
use ::portgraph::Hierarchy;
#[derive(Clone)]
pub struct F {
    pub parent: Vec<usize>,
    pub kids: Vec<Vec<usize>>,
}
impl F {
    pub fn new(n: usize) -> F {
        F { parent: vec![NONE; n], kids: vec![vec![]; n] }
    }
    pub fn n(&self) -> usize {
        self.parent.len()
    }
    /// `a` is `x` or one of its ancestors
    pub fn above(&self, a: usize, mut x: usize) -> bool {
        loop {
            if x == a {
                return true;
            }
            if x == NONE {
                return false;
            }
            x = self.parent[x];
        }
    }
    /// judge the outcome of attaching `node` beside `beside` (or nothing) under `parent`
    fn judge(&self, r: Result<(), AttachError>, node: usize, parent: usize, beside: usize) -> bool {
        let attached = self.parent[node] != NONE;
        let rootsib = beside != NONE && parent == NONE;
        let cyc = parent != NONE && self.above(node, parent);
        match r {
            Ok(()) => {
                ck!(!attached && !rootsib && !cyc);
                true
            }
            Err(AttachError::Cycle { node: a, parent: b }) => {
                ck!(cyc && a.index() == node && b.index() == parent);
                false
            }
            Err(AttachError::AlreadyAttached { node: a }) => {
                ck!(attached && a.index() == node);
                false
            }
            Err(AttachError::RootSibling { root }) => {
                ck!(rootsib && root.index() == beside);
                false
            }
        }
    }
    pub fn push(&mut self, h: &mut Hierarchy, node: usize, parent: usize, front: bool) -> bool {
        let r = if front { h.push_front_child(ni(node), ni(parent)) } else { h.push_child(ni(node), ni(parent)) };
        if !self.judge(r, node, parent, NONE) {
            return false;
        }
        self.parent[node] = parent;
        if front {
            self.kids[parent].insert(0, node);
        } else {
            self.kids[parent].push(node);
        }
        true
    }
    pub fn insert(&mut self, h: &mut Hierarchy, node: usize, at: usize, after: bool) -> bool {
        let parent = self.parent[at];
        let r = if after { h.insert_after(ni(node), ni(at)) } else { h.insert_before(ni(node), ni(at)) };
        if !self.judge(r, node, parent, at) {
            return false;
        }
        self.parent[node] = parent;
        let k = self.kids[parent].iter().position(|&x| x == at).unwrap();
        self.kids[parent].insert(k + after as usize, node);
        true
    }
    pub fn cut(&mut self, n: usize) {
        let p = self.parent[n];
        if p != NONE {
            self.kids[p].retain(|&x| x != n);
            self.parent[n] = NONE;
        }
    }
    pub fn orphan(&mut self, n: usize) {
        for c in std::mem::take(&mut self.kids[n]) {
            self.parent[c] = NONE;
        }
    }
    pub fn detach(&mut self, h: &mut Hierarchy, n: usize) {
        ck!(nidx(h.detach(ni(n))) == self.parent[n]);
        self.cut(n);
    }
    pub fn detach_children(&mut self, h: &mut Hierarchy, n: usize) {
        h.detach_children(ni(n));
        self.orphan(n);
    }
    pub fn remove(&mut self, h: &mut Hierarchy, n: usize) {
        h.remove(ni(n));
        self.orphan(n);
        self.cut(n);
    }
    /// rename nodes by a permutation given as a function
    pub fn rename(&mut self, f: impl Fn(usize) -> usize) {
        let mut new = F::new(self.n());
        for n in 0..self.n() {
            new.parent[f(n)] = if self.parent[n] == NONE { NONE } else { f(self.parent[n]) };
            new.kids[f(n)] = self.kids[n].iter().map(|&c| f(c)).collect();
        }
        *self = new;
    }
    pub fn swap(&mut self, h: &mut Hierarchy, a: usize, b: usize) {
        h.swap_nodes(ni(a), ni(b));
        self.rename(|x| if x == a { b } else if x == b { a } else { x });
    }
    /// into a free slot only
    pub fn rekey(&mut self, h: &mut Hierarchy, a: usize, b: usize) {
        h.rekey(ni(a), ni(b));
        self.rename(|x| if x == a { b } else if x == b { a } else { x });
    }
    pub fn free(&self, n: usize) -> bool {
        self.parent[n] == NONE && self.kids[n].is_empty()
    }
    /// breadth-first, the node itself first
    pub fn bfs(&self, n: usize) -> Vec<usize> {
        let mut v = vec![n];
        let mut k = 0;
        while k < v.len() {
            let x = v[k];
            k += 1;
            if x < self.n() {
                v.extend(self.kids[x].iter().copied());
            }
        }
        v
    }
    pub fn verify(&self, h: &Hierarchy) {
        for n in 0..self.n() + 1 {
            let none: Vec<usize> = vec![];
            let (p, kids) = if n < self.n() { (self.parent[n], &self.kids[n]) } else { (NONE, &none) };
            let x = ni(n);
            ck!(nidx(h.parent(x)) == p);
            ck!(h.is_root(x) == (p == NONE));
            ck!(h.child_count(x) == kids.len() && h.has_children(x) == !kids.is_empty());
            ck!(nidx(h.first(x)) == kids.first().copied().unwrap_or(NONE));
            ck!(nidx(h.last(x)) == kids.last().copied().unwrap_or(NONE));
            let (mut prev, mut next) = (NONE, NONE);
            if p != NONE {
                let s = &self.kids[p];
                let k = s.iter().position(|&y| y == n).unwrap();
                if k > 0 {
                    prev = s[k - 1];
                }
                if k + 1 < s.len() {
                    next = s[k + 1];
                }
            }
            ck!(nidx(h.prev(x)) == prev && nidx(h.next(x)) == next);
            same(h.children(x), |c| c.index(), kids);
            let rev: Vec<usize> = kids.iter().rev().copied().collect();
            same(h.children(x).rev(), |c| c.index(), &rev);
            same(h.descendants(x), |c| c.index(), &self.bfs(n));
        }
    }
    pub fn obs(&self) {
        for n in 0..self.n() {
            obs(self.parent[n]);
            for &c in &self.kids[n] {
                obs(c);
            }
        }
    }
}
/// An arbitrary structural operation, judged.
pub fn any_attach(h: &mut Hierarchy, f: &mut F) -> bool {
    let n = f.n();
    let (a, b) = (choose(below(n)), choose(below(n)));
    match choose(below(4)) {
        0 => f.push(h, a, b, false),
        1 => f.push(h, a, b, true),
        2 => f.insert(h, a, b, false),
        _ => f.insert(h, a, b, true),
    }
}
/// Any ordered forest on nodes `0..k+1` in which node `perm(j)` hangs below an
/// earlier one (or is a root), built through any of the four attaching calls;
/// `perm` is the identity or the reversal.
pub fn grow(h: &mut Hierarchy, f: &mut F, k: usize) {
    let rev = choose(below(2)) == 1;
    let perm = |j: usize| if rev { k - j } else { j };
    for j in 1..k + 1 {
        let p = choose(below(j + 1));
        if p == j {
            continue;
        }
        let (x, p) = (perm(j), perm(p));
        let w = choose(below(f.kids[p].len() + 1));
        // position w among the children, by an insertion before or after a sibling where possible
        if w == 0 && (f.kids[p].is_empty() || j % 2 == 0) {
            f.push(h, x, p, true);
        } else if w == f.kids[p].len() && j % 2 == 1 {
            f.push(h, x, p, false);
        } else if w < f.kids[p].len() {
            let s = f.kids[p][w];
            f.insert(h, x, s, false);
        } else {
            let s = f.kids[p][w - 1];
            f.insert(h, x, s, true);
        }
    }
}
