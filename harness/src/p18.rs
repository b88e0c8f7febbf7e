//! FilteredGraph: hides exactly the filtered nodes and links.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::view::filter::{LinkFilter, NodeFilter};
use ::portgraph::view::{FilteredGraph, NodeFiltered};
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ctx {
    n: u64,
    p: u64,
}
fn nf(n: N, c: &Ctx) -> bool { c.n >> n.index() & 1 == 1 }
fn pf(p: P, c: &Ctx) -> bool { c.p >> p.index() & 1 == 1 }
fn part(m: &MM, c: Ctx) -> Part {
    let nodes = (0..m.b.nodes.len()).map(|n| c.n >> n & 1 == 1).collect();
    Part::new(m, nodes, |l| c.p >> l.0 .0 & 1 == 1 && c.p >> l.1 .0 & 1 == 1)
}
harnesses! {
p18_plain, covers = 2, bounds = "PortGraph of 3 (thorough 4) nodes with 3 links between any free ports; every set of hidden nodes and every set of hidden ports; all queries on shown nodes", {
    let (g, m) = plain(3);
    let c = Ctx { n: choose(below(1 << m.nodes.len())) as u64, p: below(1 << m.ports.len()) as u64 };
    let v: FilteredGraph<&G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&g, nf, pf, c);
    let part = part(&of(&m), c);
    part.verify_ports(&v);
    part.verify_links(&v, e1);
    ck!(*v.context() == c);
    if part.m.links.len() == 3 { cover(0); }
    if part.m.links.is_empty() { cover(1); }
    part.obs();
}
p18_nodes_only, covers = 1, bounds = "PortGraph of 3 (thorough 4) nodes, 3 links, one node removed; node filter only", {
    let (mut g, mut m) = plain(3);
    m.remove(&mut g, choose(below(4)));
    let c = Ctx { n: choose(below(1 << m.nodes.len())) as u64, p: u64::MAX };
    let v: NodeFiltered<&G, NodeFilter<Ctx>, Ctx> = NodeFiltered::new_node_filtered(&g, nf, c);
    let part = part(&of(&m), c);
    part.verify_ports(&v);
    part.verify_links(&v, e1);
    cover(0);
    part.obs();
}
p18_multi, covers = 1, bounds = "MultiPortGraph of 3 nodes, 2 (thorough 3) links from any output to any input; every set of hidden nodes and of hidden ports; all queries incl. subports", {
    let (g, m) = multi(tier(2, 3));
    let c = Ctx { n: choose(below(1 << m.b.nodes.len())) as u64, p: below(1 << m.b.ports.len()) as u64 };
    let v: FilteredGraph<&MG, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&g, nf, pf, c);
    let part = part(&m, c);
    part.verify_ports(&v);
    part.verify_links(&v, ep);
    part.verify_multi(&v, &g);
    cover(0);
    part.obs();
}
p18_nested, covers = 1, bounds = "a filter over a filter over a PortGraph of 3 nodes with 2 links: shows the intersection", {
    let (g, m) = plain(2);
    let w = m.nodes.len();
    let c1 = Ctx { n: choose(below(1 << w)) as u64, p: u64::MAX };
    let c2 = Ctx { n: choose(below(1 << w)) as u64, p: below(1 << m.ports.len()) as u64 };
    let v1: FilteredGraph<&G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&g, nf, pf, c1);
    let v2: FilteredGraph<&FilteredGraph<&G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx>, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&v1, nf, pf, c2);
    let part = part(&of(&m), Ctx { n: c1.n & c2.n, p: c2.p });
    part.verify_ports(&v2);
    part.verify_links(&v2, e1);
    cover(0);
    part.obs();
}
p18_large, covers = 3, bounds = "PortGraph or MultiPortGraph of 7 nodes in a chain with skipping, double and self-links: every set of hidden nodes, and all, no or every third port hidden", {
    let c = Ctx { n: choose(below(128)) as u64, p: [u64::MAX, 0, 0x5b6d_b6db_6db6_db6d, 0xb6db_6db6_db6d_b6db][choose(below(4))] };
    let more = [(0, 2), (5, 1), (4, 4), (6, 0), (2, 6)];
    if choose(below(2)) == 0 {
        let mut g = G::new();
        let mut m = Model::new();
        for _ in 0..7 { m.add(&mut g, 2, 2); }
        for k in 0..6 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
        for (x, y) in more { let (a, b) = (m.port(x, true, 1), m.port(y, false, 1)); m.link(&mut g, a, b); }
        let v: FilteredGraph<&G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&g, nf, pf, c);
        let part = part(&of(&m), c);
        part.verify_ports(&v);
        part.verify_links(&v, e1);
        if part.m.links.len() == 11 { cover(0); }
        part.obs();
    } else {
        let mut g = MG::new();
        let mut m = MM::new();
        for _ in 0..7 { m.add(&mut g, 1, 1); }
        for k in 0..6 { let (a, b) = (m.b.port(k, true, 0), m.b.port(k + 1, false, 0)); m.link(&mut g, a, b); }
        for (x, y) in more.into_iter().chain([(3, 4), (3, 4)]) { let (a, b) = (m.b.port(x, true, 0), m.b.port(y, false, 0)); m.link(&mut g, a, b); }
        let v: FilteredGraph<&MG, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> = FilteredGraph::new(&g, nf, pf, c);
        let part = part(&m, c);
        part.verify_ports(&v);
        part.verify_links(&v, ep);
        part.verify_multi(&v, &g);
        if part.m.links.len() == 13 { cover(1); }
        if part.count() == 3 && part.m.links.len() == 2 { cover(2); }
        part.obs();
    }
}
}
