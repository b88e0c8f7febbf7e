//! Serialisation: reading back what was written gives the same value.
use crate::forest::*;
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use ::portgraph::index::Unsigned;
use ::portgraph::{Hierarchy, NodeIndex, PortIndex, PortOffset, SecondaryMap, UnmanagedDenseMap, Weights};
use serde::de::value::MapDeserializer;
use serde::de::{self, Deserialize, DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
use serde::Serialize;

fn pack<T: Serialize>(x: &T, named: bool) -> Vec<u8> {
    let r = if named { rmp_serde::to_vec_named(x) } else { rmp_serde::to_vec(x) };
    match r {
        Ok(v) => v,
        Err(_) => { ck!(false); vec![] }
    }
}
fn read<T: DeserializeOwned>(v: &[u8]) -> Option<T> {
    rmp_serde::from_slice(v).ok()
}
/// MessagePack, with or without field names
fn trip<T: Serialize + DeserializeOwned>(x: &T, named: bool) -> T {
    let r = read(&pack(x, named));
    ck!(r.is_some());
    r.unwrap()
}
fn json<T: Serialize + DeserializeOwned>(x: &T) -> T {
    let s = serde_json::to_vec(x).ok();
    ck!(s.is_some());
    let r: Option<T> = serde_json::from_slice(&s.unwrap()).ok();
    ck!(r.is_some());
    r.unwrap()
}
/// a format whose errors carry no text
#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Bad {}
impl de::Error for Bad { fn custom<T: std::fmt::Display>(_: T) -> Bad { Bad } }
/// a number or a word
#[derive(Clone, Copy)]
enum Tok { U(u64), W(&'static str) }
impl<'de> Deserializer<'de> for Tok {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self { Tok::U(x) => v.visit_u64(x), Tok::W(w) => v.visit_borrowed_str(w) }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        match self { Tok::U(x) => v.visit_enum((x as u32).into_deserializer()), Tok::W(w) => v.visit_enum(w.into_deserializer()) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any }
}
impl<'de> IntoDeserializer<'de, Bad> for Tok {
    type Deserializer = Tok;
    fn into_deserializer(self) -> Tok { self }
}
fn index<U: Unsigned + Serialize + DeserializeOwned>() {
    let x = any_u64() as usize;
    let n = NodeIndex::<U>::deserialize(Tok::U(x as u64)).ok();
    let p = PortIndex::<U>::deserialize(Tok::U(x as u64)).ok();
    let ok = x <= NodeIndex::<U>::max_index();
    ck!(n.is_some() == ok && p.is_some() == ok);
    if let (Some(n), Some(p)) = (n, p) {
        ck!(n.index() == x && p.index() == x && n == NodeIndex::new(x) && p == PortIndex::new(x));
        let named = any_bool();
        ck!(trip(&n, named) == n && trip(&p, named) == p);
        ck!(trip(&Some(n), named) == Some(n));
        cover(0);
    } else {
        cover(1);
    }
}
fn offset<U: Unsigned + Serialize + DeserializeOwned>() {
    let x = any_u64() as usize;
    let out = choose(below(2)) == 1;
    let d = dir(out);
    let fields = [("index", Tok::U(x as u64)), ("direction", Tok::W(if out { "Outgoing" } else { "Incoming" }))];
    let r = PortOffset::<U>::deserialize(MapDeserializer::new(fields.into_iter())).ok();
    let ok = x <= PortOffset::<U>::max_offset();
    ck!(r.is_some() == ok);
    if let Some(r) = r {
        ck!(r == PortOffset::new(d, x) && r.index() == x && r.direction() == d);
        ck!(trip(&r, any_bool()) == r);
        cover(0);
    } else {
        cover(1);
    }
}
fn again(g: &mut G, h: &mut G, m: &Model) {
    ck!(*g == *h);
    m.verify(h);
    m.verify_iters(h);
    ck!(g.node_capacity() >= m.nodes.len() && h.node_count() == m.node_count());
    // both go on in the same way
    let mut n = m.clone();
    let x = n.add(h, 1, 2);
    ck!(g.add_node(1, 2).index() == x);
    let p = choose(below(n.ports.len()));
    ck!(pidx(g.unlink_port(pi(p))) == n.link[p]);
    if n.palive(p) { n.unlink(h, p); }
    let v = choose(below(n.nodes.len()));
    g.set_num_ports(ni(v), 2, 1, |_, _| {});
    n.set_ports(h, v, 2, 1);
    let y = n.add(h, 2, 0);
    ck!(g.add_node(2, 0).index() == y);
    ck!(*g == *h);
}
harnesses! {
p31_index_u8, covers = 2, bounds = "NodeIndex/PortIndex with 8-bit storage, every 64-bit number: read back if it fits, else refused with an error; MessagePack with and without field names", { index::<u8>(); }
p31_index_u16, covers = 2, bounds = "as above with 16-bit storage", { index::<u16>(); }
p31_index_u32, covers = 2, bounds = "as above with 32-bit storage", { index::<u32>(); }
p31_index_u64, covers = 2, bounds = "as above with 64-bit storage", { index::<u64>(); }
p31_offset_u8, covers = 2, bounds = "PortOffset with 8-bit storage, both directions, every 64-bit number: read back if it fits, else refused with an error", { offset::<u8>(); }
p31_offset_u16, covers = 2, bounds = "as above with 16-bit storage", { offset::<u16>(); }
p31_offset_u32, covers = 2, bounds = "as above with 32-bit storage", { offset::<u32>(); }
p31_graph, covers = 2, bounds = "PortGraph: any history of L (quick 3, thorough 4) operations after two add_node and a link (add, remove, link, unlink, resize, clear, compaction); written and read back: equal, same queries, and the same behaviour of add_node, unlink_port and set_num_ports afterwards", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 1, 2);
    m.add(&mut g, 2, 1);
    any_link(&mut g, &mut m);
    for _ in 0..tier(2, 3) {
        let op = choose(below(4));
        match op {
            0 => { m.add(&mut g, 1, 0); }
            1 => { let n = choose(below(m.nodes.len())); m.remove(&mut g, n); }
            2 => { let n = choose(below(m.nodes.len())); let (i, o) = shape(choose(below(3))); m.set_ports(&mut g, n, i, o); }
            _ => { if any_bool() { m.compact_nodes(&mut g); m.compact_ports(&mut g); } else { g.clear(); m.clear(); } }
        }
    }
    let mut h = trip(&g, any_bool());
    again(&mut g, &mut h, &m);
    if m.link_count() == 1 { cover(0); }
    if m.node_count() == 0 { cover(1); }
    obs_graph(&m);
}
p31_graph_links, covers = 1, bounds = "PortGraph of 2 nodes with 2 ports each way, 2 links with symbolic port indices: written and read back", {
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, 2, 2);
    m.add(&mut g, 2, 2);
    for _ in 0..2 { m.link(&mut g, below(8), below(8)); }
    let h = trip(&g, any_bool());
    ck!(h == g);
    m.verify(&h);
    if m.link_count() == 2 { cover(0); }
    obs_graph(&m);
}
p31_multi, covers = 2, bounds = "MultiPortGraph of 3 nodes: L (quick 2, thorough 3) links from any output to any input (repeats included), then optionally one node removed or a link cut; written and read back: equal, same queries, same behaviour of add_node, link_ports and unlink_port afterwards", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    for _ in 0..tier(2, 3) { out_in(&mut g, &mut m); }
    match choose(below(3)) {
        0 => (),
        1 => { let n = choose(below(3)); m.remove(&mut g, n); cover(0); }
        _ => { let p = choose(below(5)); m.unlink(&mut g, p); }
    }
    let mut h = trip(&g, any_bool());
    ck!(h == g);
    m.verify(&h);
    m.verify_queries(&h);
    let mut n = m.clone();
    n.add(&mut h, 1, 1);
    g.add_node(1, 1);
    out_in(&mut h, &mut n);
    let l = *n.links.last().unwrap();
    let r = g.link_ports(pi(l.0 .0), pi(l.1 .0));
    ck!(r.is_ok());
    if let Ok((a, b)) = r { ck!((ep(a), ep(b)) == l || (ep(b), ep(a)) == l); }
    let p = l.0 .0;
    n.unlink(&mut h, p);
    g.unlink_port(pi(p));
    ck!(g == h);
    n.verify(&h);
    if m.links.len() == 2 { cover(1); }
    m.obs();
}
p31_subport, covers = 1, bounds = "the subports of 3 links from any output to any input of a MultiPortGraph", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    for _ in 0..3 { out_in(&mut g, &mut m); }
    for l in &m.links {
        ck!(ep(trip(&sp(l.0), true)) == l.0 && ep(trip(&sp(l.1), false)) == l.1);
    }
    if m.links[0].0 .1 != m.links[1].0 .1 { cover(0); }
}
p31_hierarchy, covers = 1, bounds = "every ordered forest on K+1 (quick 4, thorough 5) nodes: written and read back: equal, same queries, same behaviour of an arbitrary attach or detach", {
    const K: usize = tier(3, 4);
    let mut h = Hierarchy::new();
    let mut f = F::new(K + 1);
    grow(&mut h, &mut f, K);
    let mut r = trip(&h, any_bool());
    ck!(r == h);
    f.verify(&r);
    let mut e = f.clone();
    if choose(below(2)) == 0 { let x = choose(below(K + 1)); e.detach(&mut r, x); } else { any_attach(&mut r, &mut e); }
    e.verify(&r);
    f.verify(&h);
    cover(0);
    f.obs();
}
p31_maps, covers = 1, bounds = "UnmanagedDenseMap with any default and up to 2 arbitrary 64-bit values; written and read back: every key reads the same", {
    let (d, named) = (any_u64(), any_bool());
    let mut a: UnmanagedDenseMap<N, u64> = UnmanagedDenseMap::with_default(d);
    let k = choose(below(3));
    let v: Vec<u64> = (0..k).map(|_| any_u64()).collect();
    for j in 0..k { a[ni(j)] = v[j]; }
    let mut b = trip(&a, named);
    ck!(b == a && b.default_value() == d);
    let q = below(6);
    ck!(b[ni(q)] == if q < k { v[q] } else { d });
    b.shrink_to(0);
    ck!(b[ni(q)] == d);
    cover(0);
}
p31_weights, covers = 1, bounds = "Weights with an arbitrary 64-bit node weight and 16-bit port weight: written and read back: every key reads the same", {
    let named = any_bool();
    let mut w: Weights<u64, u16> = Weights::new();
    let (x, y) = (any_u64(), any_u64() as u16);
    let (n, p) = (choose(below(3)), choose(below(3)));
    w[ni(n)] = x;
    w[pi(p)] = y;
    let r = trip(&w, named);
    let q = below(4);
    ck!(r[ni(q)] == if q == n { x } else { 0 });
    ck!(r[pi(q)] == if q == p { y } else { 0 });
    cover(0);
}
p31_json_index, covers = 1, bounds = "JSON: every PortIndex with 8-bit storage, alone and as an option", {
    let p: PortIndex<u8> = PortIndex::new(below(PortIndex::<u8>::max_index() + 1));
    ck!(json(&p) == p);
    ck!(json(&Some(p)) == Some(p));
    cover(0);
}
p31_json, covers = 1, bounds = "JSON: PortGraph of 3 nodes with one arbitrary link and optionally a node removed, a MultiPortGraph with 2 arbitrary links, a hierarchy with an arbitrary attach: equal after reading back", {
    let mut m = Model::new();
    let mut g = G::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.add(&mut g, 0, 1);
    any_link(&mut g, &mut m);
    let n = choose(below(4));
    m.remove(&mut g, n);
    let r = json(&g);
    ck!(r == g);
    m.verify(&r);
    cover(0);
    obs_graph(&m);
}
p31_json_multi, covers = 1, bounds = "JSON: MultiPortGraph of 2 nodes, 2 links from any output to any input; a hierarchy of 3 nodes after two arbitrary attaching calls", {
    let mut g = MG::new();
    let mut m = MM::new();
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    for _ in 0..2 { out_in(&mut g, &mut m); }
    let r = json(&g);
    ck!(r == g);
    m.verify(&r);
    let mut h = Hierarchy::new();
    let mut f = F::new(3);
    any_attach(&mut h, &mut f);
    let r = json(&h);
    ck!(r == h);
    f.verify(&r);
    cover(0);
    m.obs();
}
p31_large, covers = 2, bounds = "PortGraph of 9 nodes in a chain, two of them resized (spare ports), every set of nodes removed, up or down: written and read back, and both go on in the same way through four add_node", {
    let mut g = G::new();
    let mut m = Model::new();
    for k in 0..9 { m.add(&mut g, 1 + k % 2, 1 + k % 3); }
    for k in 0..8 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    m.set_ports(&mut g, 2, 1, 1);
    m.set_ports(&mut g, 5, 3, 3);
    let c = any_bits(9);
    let up = c % 5 < 2;
    for k in 0..9 {
        let k = if up { k } else { 8 - k };
        if c >> k & 1 == 1 { m.remove(&mut g, k); }
    }
    let mut h = trip(&g, c % 2 == 0);
    ck!(g == h);
    m.verify(&h);
    for (i, o) in [(1, 1), (2, 3), (1, 2), (3, 3)] {
        let x = m.add(&mut h, i, o);
        ck!(g.add_node(i, o).index() == x);
    }
    ck!(g == h);
    m.verify(&h);
    m.verify_iters(&h);
    if m.link_count() == 8 { cover(0); }
    if c == 511 { cover(1); }
}
p31_multi_large, covers = 2, bounds = "MultiPortGraph of 6 nodes with ports of up to 5 links, double and self-links, every set of nodes removed, optionally a port unlinked; written and read back, and both go on in the same way", {
    let mut g = MG::new();
    let mut m = MM::new();
    for _ in 0..6 { m.add(&mut g, 1, 2); }
    for (x, y) in [(0, 1), (0, 2), (0, 3), (0, 3), (0, 0), (1, 3), (2, 3), (4, 5), (5, 4), (5, 5), (4, 5)] {
        let (a, b) = (m.b.port(x, true, x % 2), m.b.port(y, false, 0));
        ck!(m.link(&mut g, a, b));
    }
    let c = any_bits(6);
    for k in 0..6 { if c >> k & 1 == 1 { m.remove(&mut g, k); } }
    let p = choose(below(18));
    assume(p % 3 != 2);
    m.unlink(&mut g, p);
    let mut h = trip(&g, c % 2 == 0);
    ck!(h == g);
    m.verify(&h);
    m.verify_queries(&h);
    for _ in 0..2 {
        let n = m.add(&mut h, 1, 1);
        ck!(g.add_node(1, 1).index() == n);
        let (a, b) = (m.b.port(n, true, 0), m.b.port(n, false, 0));
        ck!(m.link(&mut h, a, b));
        ck!(g.link_ports(pi(a), pi(b)).is_ok());
    }
    ck!(g == h);
    m.verify(&h);
    if m.links.len() > 7 { cover(0); }
    if c == 63 { cover(1); }
}
p31_hierarchy_large, covers = 1, bounds = "a tree of 12 nodes, 5 wide and 5 deep, every set of 8 of them removed or detached: written and read back: equal, same queries", {
    let mut h = Hierarchy::new();
    let mut f = F::new(12);
    for (k, p) in [(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 1), (7, 6), (8, 7), (9, 8), (10, 3), (11, 3)] { f.push(&mut h, k, p, k % 3 == 0); }
    let c = any_bits(8);
    for k in 0..8 { if c >> k & 1 == 1 { let x = (k * 5 + 1) % 12; if c % 3 == 0 { f.remove(&mut h, x) } else { f.detach(&mut h, x) } } }
    let mut r = trip(&h, c % 2 == 0);
    ck!(r == h);
    f.verify(&r);
    let x = (0..12).find(|&x| f.parent[x] == NONE && !f.above(x, 11)).unwrap_or(2);
    let mut e = f.clone();
    e.push(&mut r, x, 11, true);
    e.verify(&r);
    if c == 0b1010 { cover(0); }
}
}
