//! Reference model of a `MultiPortGraph`, and the comparison with the real one.
#![allow(unused)]
use crate::sym::*;
use crate::util::*;
use ::portgraph::multiportgraph::SubportIndex;
pub type EP = (usize, usize);
pub fn ep(s: SubportIndex) -> EP {
    (s.port().index(), s.offset())
}
pub fn sp(e: EP) -> SubportIndex {
    SubportIndex::new_multi(pi(e.0), e.1)
}
#[derive(Clone, Default)]
pub struct MM {
    /// nodes and ports (its `link` field is unused)
    pub b: Model,
    /// (outgoing endpoint, incoming endpoint)
    pub links: Vec<(EP, EP)>,
}
impl MM {
    pub fn new() -> MM {
        MM::default()
    }
    pub fn add(&mut self, g: &mut MG, i: usize, o: usize) -> usize {
        let n = g.add_node(i, o).index();
        self.b.added(g, n, i, o);
        n
    }
    pub fn partner(&self, e: EP) -> Option<EP> {
        for l in &self.links {
            if l.0 == e {
                return Some(l.1);
            }
            if l.1 == e {
                return Some(l.0);
            }
        }
        None
    }
    pub fn out(&self, p: usize) -> bool {
        self.b.ports[p].unwrap().out
    }
    pub fn node(&self, p: usize) -> usize {
        self.b.ports[p].unwrap().node
    }
    pub fn link(&mut self, g: &mut MG, p: usize, q: usize) -> bool {
        let (pa, qa) = (self.b.palive(p), self.b.palive(q));
        match g.link_ports(pi(p), pi(q)) {
            Ok((x, y)) => {
                let (x, y) = (ep(x), ep(y));
                ck!(pa && qa);
                ck!(x.0 == p && y.0 == q);
                ck!(self.out(p) != self.out(q));
                ck!(self.partner(x).is_none() && self.partner(y).is_none());
                self.links.push(if self.out(p) { (x, y) } else { (y, x) });
                true
            }
            Err(LinkError::UnknownPort { port }) => {
                ck!((port.index() == p && !pa) || (port.index() == q && !qa));
                false
            }
            Err(LinkError::IncompatibleDirections { port_a, port_b, dir: d }) => {
                ck!(pa && qa && port_a.index() == p && port_b.index() == q);
                ck!(self.out(p) == self.out(q) && (d == OUT) == self.out(p));
                false
            }
            // a port of a multigraph is never too busy
            Err(_) => {
                ck!(false);
                false
            }
        }
    }
    pub fn cut_port(&mut self, p: usize) {
        self.links.retain(|l| l.0 .0 != p && l.1 .0 != p);
    }
    pub fn unlink(&mut self, g: &mut MG, p: usize) {
        let r = g.unlink_port(pi(p)).map(ep);
        let mut any = false;
        let mut hit = false;
        for l in &self.links {
            let o = if l.0 .0 == p {
                l.1
            } else if l.1 .0 == p {
                l.0
            } else {
                continue;
            };
            any = true;
            hit |= r == Some(o);
        }
        ck!(if any { hit } else { r.is_none() });
        self.cut_port(p);
    }
    pub fn unlink_sub(&mut self, g: &mut MG, e: EP) {
        let r = g.unlink_subport(sp(e)).map(ep);
        ck!(r == self.partner(e));
        self.links.retain(|l| l.0 != e && l.1 != e);
    }
    pub fn link_sub(&mut self, g: &mut MG, a: EP, b: EP) -> bool {
        let ok = self.partner(a).is_none() && self.partner(b).is_none() && self.out(a.0) && !self.out(b.0);
        let r = g.link_subports(sp(a), sp(b));
        if ok {
            ck!(r.is_ok());
        }
        if self.out(a.0) == self.out(b.0) || self.partner(a).is_some() || self.partner(b).is_some() {
            ck!(r.is_err());
        }
        if r.is_ok() {
            self.links.push(if self.out(a.0) { (a, b) } else { (b, a) });
        }
        r.is_ok()
    }
    pub fn remove(&mut self, g: &mut MG, n: usize) {
        g.remove_node(ni(n));
        if self.b.alive(n) {
            let l = self.b.nodes[n].clone().unwrap();
            for d in 0..2 {
                for &p in &l[d] {
                    self.cut_port(p);
                }
            }
            self.b.removed(n);
        }
    }
    pub fn set_ports(&mut self, g: &mut MG, n: usize, i: usize, o: usize) {
        let mut moved: Vec<(usize, usize)> = vec![];
        let mut removed: Vec<(usize, usize)> = vec![];
        g.set_num_ports(ni(n), i, o, |p, op| match op {
            PortOperation::Moved { new_index } => moved.push((p.index(), new_index.index())),
            PortOperation::Removed { old_link } => removed.push((p.index(), pidx(old_link))),
        });
        for r in &removed {
            self.cut_port(r.0);
        }
        self.b.resized(g, n, i, o, &moved, &removed, false);
        self.rename(&moved);
    }
    pub fn rename(&mut self, ren: &[(usize, usize)]) {
        let f = |e: &mut EP| {
            for r in ren {
                if r.0 == e.0 {
                    e.0 = r.1;
                    break;
                }
            }
        };
        for l in self.links.iter_mut() {
            f(&mut l.0);
            f(&mut l.1);
        }
    }
    pub fn compact_nodes(&mut self, g: &mut MG) {
        let mut ren: Vec<(usize, usize)> = vec![];
        g.compact_nodes(|a, b| ren.push((a.index(), b.index())));
        // internal nodes may be reported as well; the graph's own nodes are renamed consistently
        for (k, r) in ren.iter().enumerate() {
            for s in &ren[..k] {
                ck!(s.0 != r.0 && s.1 != r.1);
            }
        }
        ren.retain(|r| self.b.alive(r.0));
        self.b.rename_nodes(&ren);
    }
    pub fn compact_ports(&mut self, g: &mut MG) {
        let mut ren: Vec<(usize, usize)> = vec![];
        g.compact_ports(|a, b| ren.push((a.index(), b.index())));
        for (k, r) in ren.iter().enumerate() {
            for s in &ren[..k] {
                ck!(s.0 != r.0 && s.1 != r.1);
            }
        }
        ren.retain(|r| self.b.palive(r.0));
        self.b.rename_ports(&ren);
        for l in self.b.nodes.iter_mut().flatten() {
            for d in 0..2 {
                for p in l[d].iter_mut() {
                    if let Some(r) = ren.iter().find(|r| r.0 == *p) {
                        *p = r.1;
                    }
                }
            }
        }
        self.rename(&ren);
    }
    pub fn swap(&mut self, g: &mut MG, a: usize, b: usize) {
        g.swap_nodes(ni(a), ni(b));
        self.b.swapped(a, b);
    }
    // ------------------------------------------------------------ comparison
    /// nodes and ports, through the public view only
    pub fn verify_ports(&self, g: &MG) {
        let m = &self.b;
        ck!(g.node_count() == m.node_count());
        ck!(g.port_count() == m.port_count());
        ck!(g.is_empty() == (m.node_count() == 0));
        // everything the graph contains, including indices the model never saw
        let nn = g.as_portgraph().node_capacity() + 1;
        let np = g.as_portgraph().port_capacity() + 1;
        for n in 0..nn.max(m.nodes.len()) {
            ck!(g.contains_node(ni(n)) == m.alive(n));
        }
        for p in 0..np.max(m.ports.len()) {
            ck!(g.contains_port(pi(p)) == m.palive(p));
        }
        let mut it = g.nodes_iter();
        ck!(it.size_hint() == (m.node_count(), Some(m.node_count())));
        for n in 0..m.nodes.len() {
            if !m.alive(n) {
                continue;
            }
            ck!(nidx(it.next()) == n);
            let mut all = g.all_ports(ni(n));
            let mut allo = g.all_port_offsets(ni(n));
            for out in [false, true] {
                let c = m.nports(n, out);
                ck!(g.num_ports(ni(n), dir(out)) == c);
                let mut ps = g.ports(ni(n), dir(out));
                for k in 0..c {
                    let p = m.port(n, out, k);
                    ck!(pidx(g.port_index(ni(n), po(out, k))) == p);
                    ck!(pidx(ps.next()) == p && pidx(all.next()) == p);
                    ck!(allo.next() == Some(po(out, k)));
                    ck!(pidx(if out { g.output(ni(n), k) } else { g.input(ni(n), k) }) == p);
                    ck!(nidx(g.port_node(pi(p))) == n);
                    ck!(g.port_direction(pi(p)) == Some(dir(out)));
                    ck!(g.port_offset(pi(p)) == Some(po(out, k)));
                }
                ck!(ps.next().is_none());
                ck!(g.port_index(ni(n), po(out, c)).is_none());
            }
            ck!(all.next().is_none() && allo.next().is_none());
        }
        ck!(it.next().is_none());
        let mut it = g.ports_iter();
        for p in 0..m.ports.len() {
            if m.palive(p) {
                ck!(pidx(it.next()) == p);
            }
        }
        ck!(it.next().is_none());
    }
    /// the links of port `p`, own endpoint first, ordered by subport offset
    pub fn port_links(&self, p: usize) -> Vec<(EP, EP)> {
        let mut v: Vec<(EP, EP)> = vec![];
        for l in &self.links {
            if l.0 .0 == p {
                v.push(*l);
            } else if l.1 .0 == p {
                v.push((l.1, l.0));
            }
        }
        v.sort_by_key(|l| l.0 .1);
        v
    }
    pub fn node_links(&self, n: usize, out: bool) -> Vec<(EP, EP)> {
        let mut v = vec![];
        for k in 0..self.b.nports(n, out) {
            v.extend(self.port_links(self.b.port(n, out, k)));
        }
        v
    }
    pub fn verify_links(&self, g: &MG) {
        ck!(g.link_count() == self.links.len());
        for l in &self.links {
            ck!(g.subport_link(sp(l.0)).map(ep) == Some(l.1));
            ck!(g.subport_link(sp(l.1)).map(ep) == Some(l.0));
        }
        for p in 0..self.b.ports.len() {
            if self.b.palive(p) {
                let w = self.port_links(p);
                pairs(g.port_links(pi(p)), &w);
                ck!(g.port_link(pi(p)).is_some() == !w.is_empty());
                if let Some(x) = g.port_link(pi(p)) {
                    ck!(w.iter().any(|l| l.1 == ep(x)));
                }
            }
        }
    }
    pub fn verify_queries(&self, g: &MG) {
        for n in 0..self.b.nodes.len() {
            if !self.b.alive(n) {
                continue;
            }
            let i = self.node_links(n, false);
            let o = self.node_links(n, true);
            pairs(g.links(ni(n), IN), &i);
            pairs(g.links(ni(n), OUT), &o);
            let nb = |v: &[(EP, EP)]| -> Vec<usize> { v.iter().map(|l| self.node(l.1 .0)).collect() };
            same(g.neighbours(ni(n), IN), |x| x.index(), &nb(&i));
            same(g.neighbours(ni(n), OUT), |x| x.index(), &nb(&o));
            // every link once; a self-link once (from either end)
            let mut seen: Vec<(EP, EP)> = vec![];
            for (a, b) in g.all_links(ni(n)) {
                let (a, b) = (ep(a), ep(b));
                ck!(self.node(a.0) == n && self.partner(a) == Some(b));
                ck!(seen.iter().all(|s| s.0 != a && s.0 != b));
                seen.push((a, b));
            }
            let selfs = o.iter().filter(|l| self.node(l.1 .0) == n).count();
            ck!(seen.len() == i.len() + o.len() - selfs);
            same(g.all_neighbours(ni(n)), |x| x.index(), &nb(&seen));
            // subports: every linked one, each once, grouped by port in order; each port at least once
            let mut all: Vec<EP> = vec![];
            for out in [false, true] {
                let s: Vec<EP> = g.subports(ni(n), dir(out)).map(ep).collect();
                let mut k = 0;
                for j in 0..self.b.nports(n, out) {
                    let p = self.b.port(n, out, j);
                    ck!(k < s.len() && s[k].0 == p);
                    let mut off = 0;
                    while k < s.len() && s[k].0 == p {
                        ck!(s[k].1 == off);
                        off += 1;
                        k += 1;
                    }
                    for l in self.port_links(p) {
                        ck!(l.0 .1 < off);
                    }
                }
                ck!(k == s.len());
                for e in &s {
                    ck!(g.subport_link(sp(*e)).map(ep) == self.partner(*e));
                }
                all.extend(s);
            }
            let mut it = g.all_subports(ni(n));
            for e in all {
                ck!(it.next().map(ep) == Some(e));
            }
            ck!(it.next().is_none());
            for t in 0..self.b.nodes.len() {
                if !self.b.alive(t) {
                    continue;
                }
                let w: Vec<(EP, EP)> = o.iter().copied().filter(|l| self.node(l.1 .0) == t).collect();
                pairs(g.get_connections(ni(n), ni(t)), &w);
                ck!(g.connected(ni(n), ni(t)) == !w.is_empty());
                ck!(g.get_connection(ni(n), ni(t)).map(|(a, b)| (ep(a), ep(b))) == w.first().copied());
            }
        }
    }
    pub fn verify(&self, g: &MG) {
        self.verify_ports(g);
        self.verify_links(g);
    }
    pub fn obs(&self) {
        obs(self.b.node_count());
        obs(self.b.port_count());
        for l in &self.links {
            obs(l.0 .0 * 1000 + l.0 .1 * 100 + l.1 .0 * 10 + l.1 .1);
        }
    }
    /// a free or linked subport the graph reports for port `p`
    pub fn any_subport(&self, g: &MG, p: usize) -> EP {
        let n = self.node(p);
        let s: Vec<EP> = g.subports(ni(n), dir(self.out(p))).map(ep).filter(|e| e.0 == p).collect();
        s[choose(below(s.len()))]
    }
}
pub fn pairs(it: impl Iterator<Item = (SubportIndex, SubportIndex)>, want: &[(EP, EP)]) {
    let mut k = 0;
    for (a, b) in it {
        ck!(k < want.len());
        ck!(ep(a) == want[k].0 && ep(b) == want[k].1);
        k += 1;
    }
    ck!(k == want.len());
}
/// An arbitrary pair of ports, linked as the graph allows.
pub fn any_mlink(g: &mut MG, m: &mut MM) -> bool {
    let n = m.b.ports.len();
    let (p, q) = (choose(below(n)), choose(below(n)));
    m.link(g, p, q)
}
/// An arbitrary output and an arbitrary input, linked.
pub fn out_in(g: &mut MG, m: &mut MM) {
    let n = m.b.ports.len();
    let (p, q) = (choose(below(n)), choose(below(n)));
    assume(m.b.palive(p) && m.b.palive(q) && m.out(p) && !m.out(q));
    ck!(m.link(g, p, q));
}
