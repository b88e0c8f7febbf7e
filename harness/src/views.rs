//! Comparison of any view of a graph with the part of the model it should show.
#![allow(unused)]
use crate::multi::*;
use crate::sym::*;
use crate::util::*;

/// end points of a plain port graph, as those of a multigraph
pub fn e1(p: P) -> EP {
    (p.index(), 0)
}
/// The model of a plain graph, with its links listed.
pub fn of(m: &Model) -> MM {
    let mut r = MM { b: m.clone(), links: vec![] };
    for p in 0..m.ports.len() {
        if m.palive(p) && m.ports[p].unwrap().out && m.link[p] != NONE {
            r.links.push(((p, 0), (m.link[p], 0)));
        }
    }
    r
}
/// the part of the model a view shows
pub struct Part {
    pub m: MM,
    pub nodes: Vec<bool>,
}
impl Part {
    /// the links between shown nodes for which `keep` holds
    pub fn new(m: &MM, nodes: Vec<bool>, keep: impl Fn(&(EP, EP)) -> bool) -> Part {
        let mut r = m.clone();
        r.links.retain(|l| nodes[m.node(l.0 .0)] && nodes[m.node(l.1 .0)] && keep(l));
        Part { m: r, nodes }
    }
    pub fn has(&self, n: usize) -> bool {
        n < self.nodes.len() && self.nodes[n] && self.m.b.alive(n)
    }
    pub fn count(&self) -> usize {
        (0..self.nodes.len()).filter(|&n| self.has(n)).count()
    }
    pub fn nports(&self) -> usize {
        let b = &self.m.b;
        (0..b.ports.len()).filter(|&p| b.palive(p) && self.has(b.ports[p].unwrap().node)).count()
    }
    pub fn verify_ports<V: PortView<PortOffsetBase = u16>>(&self, v: &V) {
        let b = &self.m.b;
        ck!(v.node_count() == self.count());
        ck!(v.port_count() == self.nports());
        ck!(v.is_empty() == (self.count() == 0));
        ck!(v.node_capacity() >= self.count() && v.port_capacity() >= self.nports());
        let mut seen = vec![false; self.nodes.len()];
        for n in v.nodes_iter() {
            let n = choose(n.index());
            ck!(self.has(n) && !seen[n]);
            seen[n] = true;
        }
        ck!(seen.iter().filter(|x| **x).count() == self.count());
        let mut seen = vec![false; b.ports.len()];
        for p in v.ports_iter() {
            let p = choose(p.index());
            ck!(b.palive(p) && self.has(b.ports[p].unwrap().node) && !seen[p]);
            seen[p] = true;
        }
        ck!(seen.iter().filter(|x| **x).count() == self.nports());
        for n in 0..self.nodes.len() {
            if b.alive(n) { ck!(v.contains_node(ni(n)) == self.has(n)); }
            if !self.has(n) { continue; }
            let mut all = v.all_ports(ni(n));
            let mut allo = v.all_port_offsets(ni(n));
            for out in [false, true] {
                let c = b.nports(n, out);
                ck!(v.num_ports(ni(n), dir(out)) == c);
                ck!(if out { v.num_outputs(ni(n)) } else { v.num_inputs(ni(n)) } == c);
                let mut ps = v.ports(ni(n), dir(out));
                let mut os = v.port_offsets(ni(n), dir(out));
                for k in 0..c {
                    let p = b.port(n, out, k);
                    ck!(pidx(v.port_index(ni(n), po(out, k))) == p);
                    ck!(pidx(ps.next()) == p && pidx(all.next()) == p);
                    ck!(os.next() == Some(po(out, k)) && allo.next() == Some(po(out, k)));
                    ck!(pidx(if out { v.output(ni(n), k) } else { v.input(ni(n), k) }) == p);
                    ck!(nidx(v.port_node(pi(p))) == n);
                    ck!(v.port_direction(pi(p)) == Some(dir(out)));
                    ck!(v.port_offset(pi(p)) == Some(po(out, k)));
                }
                ck!(ps.next().is_none() && os.next().is_none());
                ck!(v.port_index(ni(n), po(out, c)).is_none());
                ck!(if out { v.output(ni(n), c) } else { v.input(ni(n), c) }.is_none());
            }
            ck!(all.next().is_none() && allo.next().is_none());
            ck!(v.node_port_capacity(ni(n)) >= b.nports(n, false) + b.nports(n, true));
        }
        for p in 0..b.ports.len() {
            if b.palive(p) { ck!(v.contains_port(pi(p)) == self.has(b.ports[p].unwrap().node)); }
        }
    }
    pub fn verify_links<V: LinkView<PortOffsetBase = u16>>(&self, v: &V, e: impl Fn(V::LinkEndpoint) -> EP) {
        let m = &self.m;
        ck!(v.link_count() == m.links.len());
        let exact = |it: &mut dyn Iterator<Item = (V::LinkEndpoint, V::LinkEndpoint)>, want: &[(EP, EP)]| {
            let mut k = 0;
            for (a, b) in it {
                ck!(k < want.len());
                ck!(e(a) == want[k].0 && e(b) == want[k].1);
                k += 1;
            }
            ck!(k == want.len());
        };
        let nb = |v: &[(EP, EP)]| -> Vec<usize> { v.iter().map(|l| m.node(l.1 .0)).collect() };
        for n in 0..self.nodes.len() {
            if !self.has(n) { continue; }
            let x = ni(n);
            let i = m.node_links(n, false);
            let o = m.node_links(n, true);
            exact(&mut v.links(x, IN), &i);
            exact(&mut v.links(x, OUT), &o);
            exact(&mut v.input_links(x), &i);
            exact(&mut v.output_links(x), &o);
            same(v.neighbours(x, IN), |y| y.index(), &nb(&i));
            same(v.neighbours(x, OUT), |y| y.index(), &nb(&o));
            same(v.input_neighbours(x), |y| y.index(), &nb(&i));
            same(v.output_neighbours(x), |y| y.index(), &nb(&o));
            let mut seen: Vec<(EP, EP)> = vec![];
            for (a, b) in v.all_links(x) {
                let (a, b) = (e(a), e(b));
                ck!(m.node(a.0) == n && m.partner(a) == Some(b));
                ck!(seen.iter().all(|s| s.0 != a && s.0 != b));
                seen.push((a, b));
            }
            let selfs = o.iter().filter(|l| m.node(l.1 .0) == n).count();
            ck!(seen.len() == i.len() + o.len() - selfs);
            same(v.all_neighbours(x), |y| y.index(), &nb(&seen));
            for t in 0..self.nodes.len() {
                if !self.has(t) { continue; }
                let w: Vec<(EP, EP)> = o.iter().copied().filter(|l| m.node(l.1 .0) == t).collect();
                exact(&mut v.get_connections(x, ni(t)), &w);
                ck!(v.connected(x, ni(t)) == !w.is_empty());
                ck!(v.get_connection(x, ni(t)).map(|(a, b)| (e(a), e(b))) == w.first().copied());
            }
        }
        for p in 0..m.b.ports.len() {
            if m.b.palive(p) && self.has(m.node(p)) {
                let w = m.port_links(p);
                exact(&mut v.port_links(pi(p)), &w);
                ck!(v.port_link(pi(p)).map(|x| e(x)) == w.first().map(|l| l.1));
            }
        }
    }
    /// subports as the whole graph `g` reports them, restricted to shown nodes
    pub fn verify_multi<V: MultiView<PortOffsetBase = u16, LinkEndpoint = ::portgraph::multiportgraph::SubportIndex>>(&self, v: &V, g: &MG) {
        for n in 0..self.nodes.len() {
            if !self.has(n) { continue; }
            let mut all = v.all_subports(ni(n));
            for out in [false, true] {
                let mut it = v.subports(ni(n), dir(out));
                for s in g.subports(ni(n), dir(out)) {
                    ck!(it.next().map(ep) == Some(ep(s)));
                    ck!(all.next().map(ep) == Some(ep(s)));
                    ck!(v.subport_link(s).map(ep) == self.m.partner(ep(s)));
                }
                ck!(it.next().is_none());
            }
            ck!(all.next().is_none());
        }
    }
    pub fn obs(&self) {
        obs(self.count());
        self.m.obs();
    }
}
/// A plain graph of 3 nodes (4 thorough) with `links` links between any ports.
pub fn plain(links: usize) -> (G, Model) {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 2, 1);
    m.add(&mut g, 1, 1);
    if DEEP { m.add(&mut g, 0, 1); }
    for _ in 0..links { plain_link(&mut g, &mut m); }
    (g, m)
}
/// one link from any free output to any free input (enumerated by the solver)
pub fn plain_link(g: &mut G, m: &mut Model) {
    let n = m.ports.len();
    let (p, q) = (choose(below(n)), choose(below(n)));
    assume(m.palive(p) && m.palive(q) && m.ports[p].unwrap().out && !m.ports[q].unwrap().out);
    assume(m.link[p] == NONE && m.link[q] == NONE);
    ck!(m.link(g, p, q));
}
pub fn multi(links: usize) -> (MG, MM) {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    for _ in 0..links { out_in(&mut g, &mut m); }
    (g, m)
}
/// `k` nodes with `io` ports each way and any set of `links` links.
pub fn square(k: usize, io: usize, links: usize) -> (G, Model) {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..k { m.add(&mut g, io, io); }
    let mut last = 0;
    for _ in 0..links {
        let (p, q) = (choose(range(last, k * io - 1)), choose(below(k * io)));
        let (a, b) = (m.port(p / io, true, p % io), m.port(q / io, false, q % io));
        assume(m.link[b] == NONE);
        last = p + 1;
        ck!(m.link(&mut g, a, b));
        if last == k * io { break; }
    }
    (g, m)
}
/// `k` nodes with one port each way and any `links` different links, or repeated ones if `rep`.
pub fn msquare(k: usize, links: usize, rep: bool) -> (MG, MM) {
    let mut g = MG::new();
    let mut m = MM::new();
    for _ in 0..k { m.add(&mut g, 1, 1); }
    let mut last = 0;
    for _ in 0..links {
        assume(last < k * k);
        let x = choose(range(last, k * k - 1));
        last = if rep { x } else { x + 1 };
        let (a, b) = (m.b.port(x / k, true, 0), m.b.port(x % k, false, 0));
        ck!(m.link(&mut g, a, b));
    }
    (g, m)
}
/// `n` nodes; every possible link i -> j for which `may(i, j)` is there or not
/// (out port j of i to in port i of j).
pub fn digraph(n: usize, may: impl Fn(usize, usize) -> bool) -> (G, Model) {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..n { m.add(&mut g, n, n); }
    for i in 0..n {
        for j in 0..n {
            if may(i, j) && any_bool() {
                let (a, b) = (m.port(i, true, j), m.port(j, false, i));
                ck!(m.link(&mut g, a, b));
            }
        }
    }
    (g, m)
}
impl MM {
    /// links as (from node, to node)
    pub fn arcs(&self) -> Vec<(usize, usize)> {
        self.links.iter().map(|l| (self.node(l.0 .0), self.node(l.1 .0))).collect()
    }
}
pub fn acyclic(n: usize, arcs: &[(usize, usize)]) -> bool {
    let mut done = vec![false; n];
    for _ in 0..n {
        for x in 0..n {
            if !done[x] && arcs.iter().all(|a| a.1 != x || done[a.0]) { done[x] = true; }
        }
    }
    done.iter().all(|d| *d)
}
/// no path between members through a non-member?
pub fn convex(m: &MM, s: &[bool]) -> bool {
    let n = s.len();
    // reachable from a member through non-members only
    let mut r = vec![false; n];
    for _ in 0..n {
        for l in &m.links {
            let (a, b) = (m.node(l.0 .0), m.node(l.1 .0));
            if !s[b] && (s[a] || r[a]) { r[b] = true; }
        }
    }
    !m.links.iter().any(|l| r[m.node(l.0 .0)] && s[m.node(l.1 .0)])
}
/// nodes 0..n with one bit each
pub fn bits(c: usize, n: usize) -> Vec<bool> {
    (0..n).map(|k| c >> k & 1 == 1).collect()
}
pub fn members(s: &[bool]) -> Vec<N> {
    (0..s.len()).filter(|&k| s[k]).map(ni).collect()
}
/// any of the links of `m`'s set members: output ports, input ports, and whether
/// some link joins a chosen output to a chosen input
pub fn any_io(m: &MM, s: &[bool]) -> (Vec<P>, Vec<P>, bool) {
    let mut chosen = vec![false; m.b.ports.len()];
    for p in 0..chosen.len() {
        if m.b.palive(p) && s[m.node(p)] && !m.port_links(p).is_empty() { chosen[p] = any_bool(); }
    }
    let pick = |out: bool| (0..chosen.len()).filter(|&p| chosen[p] && m.out(p) == out).map(pi).collect();
    (pick(false), pick(true), m.links.iter().any(|l| chosen[l.0 .0] && chosen[l.1 .0]))
}
/// a few orders of `n` nodes: rank of each node
pub fn ranks(k: usize, n: usize) -> Vec<usize> {
    (0..n).map(|i| match k { 0 => n - 1 - i, 1 => (i * 2 + 3) % n, 2 => i, 3 => (i * 3 + 1) % n, _ => (n + 2 - i) % n }).collect()
}
