//! MultiPortGraph: links, subports, queries.
use crate::multi::*;
use crate::sym::*;
use crate::util::*;

harnesses! {
p12_links, covers = 2, bounds = "2 nodes (1,2) (2,1); L (quick 3, thorough 4) link_ports calls on arbitrary port pairs (same port repeatedly, self-links, wrong directions, unknown indices); every view query", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 2);
    m.add(&mut g, 1, 1);
    for _ in 0..tier(3, 4) {
        let n = m.b.ports.len() + 1;
        let (p, q) = (choose(below(n)), choose(below(n)));
        m.link(&mut g, p, q);
    }
    m.verify(&g);
    m.verify_queries(&g);
    if m.links.len() == 3 { cover(0); }
    if m.port_links(3).len() == 2 { cover(1); }
    m.obs();
}
p12_symbolic, covers = 1, bounds = "2 nodes (0,1) (1,1): 2 link_ports calls with symbolic port indices (not split beforehand), then the link relation", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 0, 1);
    m.add(&mut g, 1, 1);
    for _ in 0..2 { m.link(&mut g, below(4), below(4)); }
    m.verify(&g);
    cover(0);
    m.obs();
}
p12_many, covers = 1, bounds = "3 nodes (1,1); L (quick 4, thorough 5) links from any output to any input, up to 5 on one port; every view query", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    for _ in 0..tier(4, 5) { out_in(&mut g, &mut m); }
    m.verify(&g);
    m.verify_queries(&g);
    if m.port_links(0).len() == 4 { cover(0); }
    m.obs();
}
p12_unlink, covers = 1, bounds = "2 nodes (1,1) (1,2): 3 links out to in, then unlink_port of any port or unlink_subport of any subport, then one more link, then link_subports of two arbitrary subports", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 2);
    for _ in 0..3 { out_in(&mut g, &mut m); }
    let p = choose(below(5));
    if choose(below(2)) == 0 {
        m.unlink(&mut g, p);
    } else {
        let e = m.any_subport(&g, p);
        m.unlink_sub(&mut g, e);
    }
    m.verify(&g);
    m.verify_queries(&g);
    if choose(below(2)) == 0 {
        out_in(&mut g, &mut m);
    } else {
        let (p, q) = (choose(below(5)), choose(below(5)));
        let (a, b) = (m.any_subport(&g, p), m.any_subport(&g, q));
        m.link_sub(&mut g, a, b);
    }
    m.verify(&g);
    cover(0);
    m.obs();
}
p12_history, covers = 2, bounds = "nodes (0,1) (2,0): two links, then K (quick 4, thorough 5) operations, each a link to any input, unlink_port of any port, unlink_subport of any subport, or link_subports of two free ones; counts and links after each", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 0, 1);
    m.add(&mut g, 2, 0);
    for _ in 0..2 { let q = 1 + choose(below(2)); ck!(m.link(&mut g, 0, q)); }
    let mut cut = false;
    for _ in 0..tier(4, 5) {
        match choose(below(4)) {
            0 => { let q = 1 + choose(below(2)); ck!(m.link(&mut g, 0, q)); }
            1 => { let p = choose(below(3)); m.unlink(&mut g, p); }
            2 => { let p = choose(below(3)); let e = m.any_subport(&g, p); m.unlink_sub(&mut g, e); cut = true; }
            _ => {
                let (a, b) = (m.any_subport(&g, 0), m.any_subport(&g, 1));
                assume(m.partner(a).is_none() && m.partner(b).is_none());
                m.link_sub(&mut g, a, b);
            }
        }
        m.verify(&g);
    }
    m.verify_queries(&g);
    if m.links.len() == 5 { cover(0); }
    if cut && m.links.is_empty() { cover(1); }
    m.obs();
}
p12_from_portgraph, covers = 1, bounds = "a PortGraph with 2 nodes (1,1), one arbitrary link and an optional removed node, converted; then 2 arbitrary links", {
    let mut pg = G::new();
    let mut b = Model::new();
    b.add(&mut pg, 1, 1);
    let r = b.add(&mut pg, 0, 1);
    b.add(&mut pg, 1, 1);
    if choose(below(2)) == 1 { b.remove(&mut pg, r); }
    let (p, q) = (choose(below(5)), choose(below(5)));
    b.link(&mut pg, p, q);
    let mut m = MM::new();
    for p in 0..b.ports.len() {
        if b.palive(p) && b.ports[p].unwrap().out && b.link[p] != NONE {
            m.links.push(((p, 0), (b.link[p], 0)));
        }
    }
    m.b = b;
    let mut g: MG = pg.into();
    m.verify(&g);
    for _ in 0..2 { any_mlink(&mut g, &mut m); }
    m.verify(&g);
    m.verify_queries(&g);
    cover(0);
    m.obs();
}
p12_large, covers = 3, bounds = "node (1,2) beside two nodes (2,1): 8 links of one output to any of 2 inputs each and 2 more; every set of up to 3 of its subports unlinked up or down, or one of the ports unlinked whole; linked again 2 times; every query", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 2);
    m.add(&mut g, 2, 1);
    m.add(&mut g, 2, 1);
    let p = m.b.port(0, true, 0);
    let pat = [0usize, 0b10110101, 0b11110000, 0b01010101][choose(below(4))];
    for k in 0..8 { let q = m.b.port(1 + k / 4, false, pat >> k & 1); ck!(m.link(&mut g, p, q)); }
    for k in 1..3 { let (a, b) = (m.b.port(k, true, 0), m.b.port(0, false, 0)); ck!(m.link(&mut g, b, a)); }
    let c = choose(below(256));
    assume(c.count_ones() <= 3);
    let up = any_bool();
    for k in 0..8 {
        let k = if up { k } else { 7 - k };
        if c >> k & 1 == 1 { m.unlink_sub(&mut g, (p, k)); }
    }
    m.verify(&g);
    if c == 0 {
        let q = choose(below(m.b.ports.len()));
        m.unlink(&mut g, q);
        m.verify(&g);
        if m.links.len() == 2 { cover(0); }
    }
    let q = m.b.port(2, false, 1);
    for _ in 0..2 { ck!(m.link(&mut g, p, q)); }
    m.verify(&g);
    m.verify_queries(&g);
    if m.links.len() == 12 { cover(1); }
    if m.links.len() == 9 && !up { cover(2); }
    m.obs();
}
}
