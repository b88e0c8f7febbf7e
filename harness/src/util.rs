//! Reference model of a port graph, and the comparison of a real graph with it.
#![allow(unused)]
use crate::sym::*;
pub use ::portgraph::view::{LinkMut, LinkView, MultiMut, MultiView, PortMut, PortView};
pub use ::portgraph::*;
pub use ::portgraph::portgraph::PortOperation;
pub type G = PortGraph<u32, u32, u16>;
pub type MG = MultiPortGraph<u32, u32, u16>;
pub const NONE: usize = usize::MAX;
pub type N = NodeIndex<u32>;
pub type P = PortIndex<u32>;
#[inline(always)]
pub fn ni(i: usize) -> N {
    NodeIndex::new(i)
}
#[inline(always)]
pub fn pi(i: usize) -> P {
    PortIndex::new(i)
}
pub const IN: Direction = Direction::Incoming;
pub const OUT: Direction = Direction::Outgoing;
#[inline(always)]
pub fn dir(out: bool) -> Direction {
    if out {
        OUT
    } else {
        IN
    }
}
#[inline(always)]
pub fn po(out: bool, o: usize) -> PortOffset<u16> {
    PortOffset::new(dir(out), o)
}
#[inline(always)]
pub fn pidx(p: Option<P>) -> usize {
    match p {
        Some(p) => p.index(),
        None => NONE,
    }
}
#[inline(always)]
pub fn nidx(p: Option<N>) -> usize {
    match p {
        Some(p) => p.index(),
        None => NONE,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct MPort {
    pub node: usize,
    pub out: bool,
    pub off: usize,
}
/// The reference model: plain lists, indexed by the indices the graph handed out.
#[derive(Clone, Default)]
pub struct Model {
    /// per node index: `Some([inputs, outputs])` as port indices
    pub nodes: Vec<Option<[Vec<usize>; 2]>>,
    pub ports: Vec<Option<MPort>>,
    pub link: Vec<usize>,
}

impl Model {
    pub fn new() -> Model {
        Model::default()
    }
    pub fn alive(&self, n: usize) -> bool {
        n < self.nodes.len() && self.nodes[n].is_some()
    }
    pub fn palive(&self, p: usize) -> bool {
        p < self.ports.len() && self.ports[p].is_some()
    }
    pub fn nports(&self, n: usize, out: bool) -> usize {
        if self.alive(n) {
            self.nodes[n].as_ref().unwrap()[out as usize].len()
        } else {
            0
        }
    }
    pub fn port(&self, n: usize, out: bool, off: usize) -> usize {
        self.nodes[n].as_ref().unwrap()[out as usize][off]
    }
    pub fn node_count(&self) -> usize {
        self.nodes.iter().filter(|n| n.is_some()).count()
    }
    pub fn port_count(&self) -> usize {
        self.ports.iter().filter(|n| n.is_some()).count()
    }
    pub fn link_count(&self) -> usize {
        let mut c = 0;
        for p in 0..self.ports.len() {
            if self.palive(p) && self.ports[p].unwrap().out {
                c += (self.link[p] != NONE) as usize;
            }
        }
        c
    }
    fn put_port(&mut self, p: usize, mp: MPort) {
        while self.ports.len() <= p {
            self.ports.push(None);
            self.link.push(NONE);
        }
        // a live port index is never handed out twice
        ck!(self.ports[p].is_none());
        self.ports[p] = Some(mp);
        self.link[p] = NONE;
    }
    /// Record a node created by the graph, reading the fresh indices back.
    pub fn added(&mut self, g: &impl PortView<PortOffsetBase = u16>, n: usize, i: usize, o: usize) {
        while self.nodes.len() <= n {
            self.nodes.push(None);
        }
        ck!(self.nodes[n].is_none());
        let mut lists = [vec![], vec![]];
        for out in [false, true] {
            for k in 0..(if out { o } else { i }) {
                let p = pidx(g.port_index(ni(n), po(out, k)));
                ck!(p != NONE);
                let p = choose(p);
                self.put_port(p, MPort { node: n, out, off: k });
                lists[out as usize].push(p);
            }
        }
        self.nodes[n] = Some(lists);
    }
    pub fn add(&mut self, g: &mut G, i: usize, o: usize) -> usize {
        let n = choose(g.add_node(i, o).index());
        self.added(g, n, i, o);
        n
    }
    pub fn set_link(&mut self, a: usize, b: usize) {
        self.link[a] = b;
        self.link[b] = a;
    }
    pub fn cut(&mut self, a: usize) {
        let l = self.link[a];
        if l != NONE {
            self.link[l] = NONE;
            self.link[a] = NONE;
        }
    }
    /// `g.link_ports(p, q)` with the outcome judged against the model.
    /// Returns whether the link was made.
    pub fn link(&mut self, g: &mut G, p: usize, q: usize) -> bool {
        let r = g.link_ports(pi(p), pi(q));
        let pa = self.palive(p);
        let qa = self.palive(q);
        match r {
            Ok((x, y)) => {
                ck!(pa && qa);
                ck!(x.index() == p && y.index() == q);
                ck!(self.ports[p].unwrap().out != self.ports[q].unwrap().out);
                ck!(self.link[p] == NONE && self.link[q] == NONE);
                self.set_link(p, q);
                true
            }
            Err(e) => {
                match e {
                    LinkError::UnknownPort { port } => {
                        let x = port.index();
                        ck!((x == p && !pa) || (x == q && !qa));
                    }
                    LinkError::IncompatibleDirections { port_a, port_b, dir: d } => {
                        ck!(port_a.index() == p && port_b.index() == q);
                        ck!(pa && qa);
                        let x = self.ports[p].unwrap().out;
                        let y = self.ports[q].unwrap().out;
                        ck!(x == y);
                        ck!((d == OUT) == x);
                    }
                    LinkError::AlreadyLinked { port } => {
                        let x = port.index();
                        ck!((x == p && pa && self.link[p] != NONE) || (x == q && qa && self.link[q] != NONE));
                    }
                    LinkError::UnknownOffset { .. } => ck!(false),
                }
                false
            }
        }
    }
    pub fn unlink(&mut self, g: &mut G, p: usize) {
        let r = pidx(g.unlink_port(pi(p)));
        if self.palive(p) {
            ck!(r == self.link[p]);
            self.cut(p);
        } else {
            ck!(r == NONE);
        }
    }
    pub fn remove(&mut self, g: &mut G, n: usize) {
        g.remove_node(ni(n));
        self.removed(n);
    }
    pub fn removed(&mut self, n: usize) {
        if !self.alive(n) {
            return;
        }
        let l = self.nodes[n].take().unwrap();
        for out in 0..2 {
            for &p in &l[out] {
                self.cut(p);
                self.ports[p] = None;
            }
        }
    }
    /// `set_num_ports`, with the rekey callback judged against what happened.
    pub fn set_ports(&mut self, g: &mut G, n: usize, i: usize, o: usize) {
        let mut moved: Vec<(usize, usize)> = vec![];
        let mut removed: Vec<(usize, usize)> = vec![];
        g.set_num_ports(ni(n), i, o, |p, op| match op {
            PortOperation::Moved { new_index } => moved.push((p.index(), new_index.index())),
            PortOperation::Removed { old_link } => removed.push((p.index(), pidx(old_link))),
        });
        self.resized(g, n, i, o, &moved, &removed, true);
    }
    pub fn resized(&mut self, g: &impl PortView<PortOffsetBase = u16>, n: usize, i: usize, o: usize, moved: &[(usize, usize)], removed: &[(usize, usize)], links: bool) {
        if !self.alive(n) {
            ck!(moved.is_empty() && removed.is_empty());
            return;
        }
        let lists = self.nodes[n].take().unwrap();
        // 1. the removed ports are exactly the truncated tails, each reported once, with the old link
        let mut gone: Vec<(usize, usize)> = vec![];
        for out in [false, true] {
            let want = if out { o } else { i };
            for k in want..lists[out as usize].len().max(want) {
                let p = lists[out as usize][k];
                let mut hits = 0;
                let mut rep = NONE;
                for r in removed {
                    if r.0 == p {
                        hits += 1;
                        rep = r.1;
                    }
                }
                ck!(hits == 1);
                gone.push((p, rep));
            }
        }
        ck!(removed.len() == gone.len());
        if links {
            for &(p, rep) in &gone {
                let l = self.link[p];
                let mut both = false;
                let mut other = NONE;
                for &(q, r) in &gone {
                    if q == l {
                        both = true;
                        other = r;
                    }
                }
                // both ends removed: the link is reported from at least one of them
                ck!(rep == l || (both && rep == NONE && other == p));
            }
        }
        for &(p, _) in &gone {
            self.cut(p);
            self.ports[p] = None;
        }
        // 2. surviving ports keep their offset; a port whose index changed is reported as moved
        let mut new = [vec![], vec![]];
        let mut nmoved = 0;
        let mut ren: Vec<(usize, usize)> = vec![];
        for out in [false, true] {
            let want = if out { o } else { i };
            for k in 0..want {
                let q = pidx(g.port_index(ni(n), po(out, k)));
                ck!(q != NONE);
                let q = choose(q);
                if k < lists[out as usize].len() {
                    let p = lists[out as usize][k];
                    let mut hits = 0;
                    for m in moved {
                        if m.0 == p {
                            hits += 1;
                            ck!(m.1 == q);
                        }
                    }
                    ck!(if p == q { hits <= 1 } else { hits == 1 });
                    nmoved += hits;
                    ren.push((p, q));
                }
                new[out as usize].push(q);
            }
        }
        ck!(moved.len() == nmoved);
        self.rename_ports(&ren);
        for out in [false, true] {
            for k in lists[out as usize].len()..new[out as usize].len() {
                self.put_port(new[out as usize][k], MPort { node: n, out, off: k });
            }
        }
        self.nodes[n] = Some(new);
    }
    /// Simultaneous renaming of port indices (node lists are the caller's job).
    pub fn rename_ports(&mut self, ren: &[(usize, usize)]) {
        let mut max = self.ports.len();
        for r in ren {
            max = max.max(r.1 + 1);
        }
        let mut map: Vec<usize> = (0..max).collect();
        for r in ren {
            map[r.0] = r.1;
        }
        let mut ports = vec![None; max];
        let mut link = vec![NONE; max];
        for p in 0..self.ports.len() {
            if let Some(mp) = self.ports[p] {
                let q = map[p];
                ck!(ports[q].is_none());
                ports[q] = Some(mp);
                let l = self.link[p];
                link[q] = if l == NONE { NONE } else { map[l] };
            }
        }
        self.ports = ports;
        self.link = link;
    }
    pub fn rename_nodes(&mut self, ren: &[(usize, usize)]) {
        let mut max = self.nodes.len();
        for r in ren {
            max = max.max(r.1 + 1);
        }
        let mut map: Vec<usize> = (0..max).collect();
        for r in ren {
            map[r.0] = r.1;
        }
        let mut nodes: Vec<Option<[Vec<usize>; 2]>> = vec![None; max];
        for n in 0..self.nodes.len() {
            if let Some(l) = self.nodes[n].take() {
                ck!(nodes[map[n]].is_none());
                nodes[map[n]] = Some(l);
            }
        }
        self.nodes = nodes;
        for p in self.ports.iter_mut() {
            if let Some(mp) = p {
                mp.node = map[mp.node];
            }
        }
    }
    pub fn compact_nodes(&mut self, g: &mut G) {
        let mut ren: Vec<(usize, usize)> = vec![];
        g.compact_nodes(|a, b| ren.push((a.index(), b.index())));
        self.nodes_compacted(&ren);
    }
    pub fn nodes_compacted(&mut self, ren: &[(usize, usize)]) {
        // every reported node existed, no node is reported twice, every moved node is reported
        for (k, r) in ren.iter().enumerate() {
            ck!(self.alive(r.0));
            for s in &ren[..k] {
                ck!(s.0 != r.0 && s.1 != r.1);
            }
        }
        let cnt = self.node_count();
        self.rename_nodes(ren);
        // "compacts as much as possible": the live nodes are the first `node_count` indices
        for n in 0..self.nodes.len() {
            ck!(self.alive(n) == (n < cnt));
        }
        self.nodes.truncate(cnt);
    }
    pub fn compact_ports(&mut self, g: &mut G) {
        let mut ren: Vec<(usize, usize)> = vec![];
        g.compact_ports(|a, b| ren.push((a.index(), b.index())));
        self.ports_compacted(&ren);
    }
    pub fn ports_compacted(&mut self, ren: &[(usize, usize)]) {
        for (k, r) in ren.iter().enumerate() {
            ck!(self.palive(r.0));
            for s in &ren[..k] {
                ck!(s.0 != r.0 && s.1 != r.1);
            }
        }
        let cnt = self.port_count();
        self.rename_ports(ren);
        let mut map: Vec<usize> = (0..self.ports.len().max(cnt)).collect();
        for r in ren {
            if r.0 < map.len() {
                map[r.0] = r.1;
            }
        }
        for l in self.nodes.iter_mut().flatten() {
            for d in 0..2 {
                for p in l[d].iter_mut() {
                    *p = map[*p];
                }
            }
        }
        for p in 0..self.ports.len() {
            ck!(self.palive(p) == (p < cnt));
        }
        self.ports.truncate(cnt);
        self.link.truncate(cnt);
    }
    pub fn swap(&mut self, g: &mut G, a: usize, b: usize) {
        g.swap_nodes(ni(a), ni(b));
        self.swapped(a, b);
    }
    pub fn swapped(&mut self, a: usize, b: usize) {
        self.rename_nodes(&[(a, b), (b, a)]);
    }
    pub fn clear(&mut self) {
        *self = Model::new();
    }

    // ------------------------------------------------------------ comparison
    /// Cheap: per-index accessors and counters only.
    pub fn verify_basic(&self, g: &impl PortView<PortOffsetBase = u16>) {
        ck!(g.node_count() == self.node_count());
        ck!(g.port_count() == self.port_count());
        ck!(g.is_empty() == (self.node_count() == 0));
        ck!(g.node_capacity() >= self.nodes.len() || self.node_count() == 0);
        for n in 0..self.nodes.len() + 1 {
            ck!(g.contains_node(ni(n)) == self.alive(n));
            for out in [false, true] {
                let c = self.nports(n, out);
                ck!(g.num_ports(ni(n), dir(out)) == c);
                for k in 0..c {
                    ck!(pidx(g.port_index(ni(n), po(out, k))) == self.port(n, out, k));
                }
                ck!(g.port_index(ni(n), po(out, c)).is_none());
                ck!(g.port_index(ni(n), po(out, c + 1)).is_none());
            }
            if self.alive(n) {
                ck!(g.node_port_capacity(ni(n)) >= self.nports(n, false) + self.nports(n, true));
            }
        }
        for p in 0..self.ports.len() + 2 {
            let a = self.palive(p);
            ck!(g.contains_port(pi(p)) == a);
            if a {
                let mp = self.ports[p].unwrap();
                ck!(nidx(g.port_node(pi(p))) == mp.node);
                ck!(g.port_direction(pi(p)) == Some(dir(mp.out)));
                ck!(g.port_offset(pi(p)) == Some(po(mp.out, mp.off)));
            } else {
                ck!(g.port_node(pi(p)).is_none() && g.port_direction(pi(p)).is_none() && g.port_offset(pi(p)).is_none());
            }
        }
    }
    /// Iterators over nodes and ports, exactly.
    pub fn verify_iters(&self, g: &impl PortView<PortOffsetBase = u16>) {
        let mut it = g.nodes_iter();
        for n in 0..self.nodes.len() {
            if self.alive(n) {
                ck!(nidx(it.next()) == n);
            }
        }
        ck!(it.next().is_none());
        let mut it = g.ports_iter();
        for p in 0..self.ports.len() {
            if self.palive(p) {
                ck!(pidx(it.next()) == p);
            }
        }
        ck!(it.next().is_none());
        for n in 0..self.nodes.len() + 1 {
            let mut all = g.all_ports(ni(n));
            let mut allo = g.all_port_offsets(ni(n));
            for out in [false, true] {
                let c = self.nports(n, out);
                ck!(if out { g.num_outputs(ni(n)) } else { g.num_inputs(ni(n)) } == c);
                let mut a = g.ports(ni(n), dir(out));
                let mut o = g.port_offsets(ni(n), dir(out));
                for k in 0..c {
                    let p = self.port(n, out, k);
                    ck!(pidx(a.next()) == p);
                    ck!(pidx(all.next()) == p);
                    ck!(o.next() == Some(po(out, k)));
                    ck!(allo.next() == Some(po(out, k)));
                    ck!(pidx(if out { g.output(ni(n), k) } else { g.input(ni(n), k) }) == p);
                }
                ck!(a.next().is_none() && o.next().is_none());
                if out {
                    ck!(g.outputs(ni(n)).count() == c && g.output_offsets(ni(n)).count() == c);
                    ck!(g.output(ni(n), c).is_none());
                } else {
                    ck!(g.inputs(ni(n)).count() == c && g.input_offsets(ni(n)).count() == c);
                    ck!(g.input(ni(n), c).is_none());
                }
            }
            ck!(all.next().is_none() && allo.next().is_none());
        }
    }
    /// Links, port by port: symmetric, right partner, counted once.
    pub fn verify_links(&self, g: &impl LinkView<LinkEndpoint = P>) {
        let mut c = 0;
        for p in 0..self.ports.len() {
            if self.palive(p) {
                ck!(pidx(g.port_link(pi(p))) == self.link[p]);
                if self.ports[p].unwrap().out {
                    c += (self.link[p] != NONE) as usize;
                }
            }
        }
        ck!(g.link_count() == c);
    }
    pub fn verify(&self, g: &G) {
        self.verify_basic(g);
        self.verify_links(g);
    }
}

/// `q` in the quick tier, `d` in the thorough tier.
pub const fn tier(q: usize, d: usize) -> usize {
    if cfg!(feature = "deep") {
        d
    } else {
        q
    }
}
pub const DEEP: bool = cfg!(feature = "deep");

/// Fold a value into the observation trace (compared with the native run).
pub fn obs(v: usize) {
    observe(v as u64)
}
pub fn obs_graph(m: &Model) {
    obs(m.node_count());
    obs(m.port_count());
    for p in 0..m.ports.len() {
        if m.palive(p) {
            obs(m.link[p]);
        }
    }
}
/// Arbitrary pair of live ports, linked if the graph allows it.
pub fn any_link(g: &mut G, m: &mut Model) -> bool {
    let n = m.ports.len();
    let (p, q) = (below(n), below(n));
    m.link(g, p, q)
}
/// An iterator obeys its own protocol: `size_hint` bounds what is left, `count`
/// and `nth` agree with stepping, a clone yields the same items, and it stays
/// exhausted.
pub fn iter_protocol<T: Copy + PartialEq>(it: impl Iterator<Item = T> + Clone, max: usize) {
    let mut items: Vec<T> = vec![];
    let mut a = it.clone();
    loop {
        let (lo, hi) = a.size_hint();
        let left = a.clone().count();
        ck!(lo <= left && hi.map_or(true, |h| h >= left));
        match a.next() {
            Some(x) => items.push(x),
            None => {
                ck!(left == 0);
                break;
            }
        }
        if items.len() > max {
            ck!(false);
            break;
        }
    }
    ck!(a.next().is_none());
    ck!(it.clone().count() == items.len());
    let mut b = it.clone();
    for x in &items {
        let c = b.next();
        ck!(c.is_some() && c.unwrap() == *x);
    }
    for k in 0..items.len() + 2 {
        let mut c = it.clone();
        match c.nth(k) {
            Some(x) => ck!(k < items.len() && x == items[k]),
            None => ck!(k >= items.len()),
        }
        // the rest continues right after the k-th item, or nothing is left
        ck!(c.clone().count() == items.len().saturating_sub(k + 1));
        let (lo, hi) = c.size_hint();
        ck!(lo <= items.len().saturating_sub(k + 1) && hi.map_or(true, |h| h >= items.len().saturating_sub(k + 1)));
        match c.next() {
            Some(x) => ck!(k + 1 < items.len() && x == items[k + 1]),
            None => ck!(k + 1 >= items.len()),
        }
        // however far beyond the end
        ck!(c.nth(usize::MAX).is_none() && c.next().is_none());
    }
    ck!(it.clone().last().is_some() == !items.is_empty());
    let mut folded = 0;
    it.for_each(|x| {
        ck!(folded < items.len() && x == items[folded]);
        folded += 1;
    });
    ck!(folded == items.len());
}
/// items of an iterator as indices, compared exactly (order included)
pub fn same<T>(mut it: impl Iterator<Item = T>, f: impl Fn(T) -> usize, want: &[usize]) {
    for w in want {
        match it.next() {
            Some(x) => ck!(f(x) == *w),
            None => ck!(false),
        }
    }
    ck!(it.next().is_none());
}

/// `(inputs, outputs)` number `k` of a fixed list of node shapes.
pub fn shape(k: usize) -> (usize, usize) {
    match k {
        0 => (1, 1),
        1 => (0, 0),
        2 => (2, 1),
        3 => (0, 2),
        4 => (1, 0),
        _ => (2, 2),
    }
}
/// One arbitrary operation on the graph, judged against the model.
/// `nodes`/`ports` bound the indices tried (beyond the allocated ones included).
pub fn any_op(g: &mut G, m: &mut Model, ops: usize) {
    match choose(below(ops)) {
        0 => {
            let (i, o) = shape(choose(below(tier(3, 4))));
            m.add(g, i, o);
        }
        1 => {
            let n = choose(below(m.nodes.len() + 1));
            m.remove(g, n);
        }
        2 => {
            let n = m.ports.len();
            m.link(g, below(n + 1), below(n + 1));
        }
        3 => {
            let n = m.ports.len();
            m.unlink(g, below(n + 1));
        }
        4 => {
            let n = choose(below(m.nodes.len() + 1));
            let (i, o) = shape(choose(below(tier(3, 5))));
            m.set_ports(g, n, i, o);
        }
        5 => {
            if any_bool() {
                g.clear();
                m.clear();
            } else {
                g.reserve(3, 5);
                g.shrink_to_fit();
            }
        }
        6 => m.compact_nodes(g),
        7 => m.compact_ports(g),
        _ => {
            let c = m.nodes.len();
            let (a, b) = (choose(below(c)), choose(below(c)));
            m.swap(g, a, b);
        }
    }
}
