//! Graphviz and Mermaid drawings, read back.
use crate::forest::*;
use crate::multi::*;
use crate::sym::*;
use crate::util::*;
use crate::views::*;
use ::portgraph::render::{DotFormat, EdgeStyle, MermaidFormat, NodeStyle, PortStyle, PresentationStyle};
use ::portgraph::view::{FlatRegion, Region, Subgraph};
use ::portgraph::{Hierarchy, Weights};

/// leading decimal number and the rest
fn num(s: &[u8]) -> Option<(usize, &[u8])> {
    let k = s.iter().take_while(|c| c.is_ascii_digit()).count();
    if k == 0 { return None; }
    let mut v = 0;
    for c in &s[..k] { v = v * 10 + (*c - b'0') as usize; }
    Some((v, &s[k..]))
}
fn after<'a>(s: &'a [u8], pat: &str) -> Option<&'a [u8]> {
    s.strip_prefix(pat.as_bytes())
}
fn find(s: &[u8], pat: &str) -> Option<usize> {
    let p = pat.as_bytes();
    (0..(s.len() + 1).saturating_sub(p.len())).find(|&k| &s[k..k + p.len()] == p)
}
fn lines(s: &str) -> impl Iterator<Item = &[u8]> {
    s.as_bytes().split(|c| *c == b'\n').map(|l| l.trim_ascii()).filter(|l| !l.is_empty())
}
#[derive(Default)]
struct Dot {
    /// node, its input cells and output cells as (offset, text)
    nodes: Vec<(usize, [Vec<(usize, Vec<u8>)>; 2], Vec<u8>)>,
    /// from (node, offset) to (node, offset), attributes
    edges: Vec<([usize; 4], Vec<u8>)>,
    hier: Vec<usize>,
    tree: Vec<(usize, usize)>,
}
fn port(s: &[u8], dir: &str) -> Option<(usize, usize)> {
    let (n, r) = num(s)?;
    let (k, r) = num(after(after(r, ":")?, dir)?)?;
    if r.is_empty() { Some((n, k)) } else { None }
}
fn read_dot(s: &str) -> Dot {
    let mut d = Dot::default();
    let mut open = false;
    let mut closed = false;
    for l in lines(s) {
        if !open { ck!(find(l, "digraph").is_some()); open = true; continue; }
        ck!(!closed);
        if l == b"}" { closed = true; continue; }
        let at = find(l, " [").or_else(|| find(l, "[")).unwrap_or(l.len());
        let (head, attr) = (l[..at].trim_ascii(), &l[at..]);
        if let Some(k) = find(head, "->") {
            let (a, b) = (head[..k].trim_ascii(), head[k + 2..].trim_ascii());
            if let (Some(a), Some(b)) = (after(a, "hier"), after(b, "hier")) {
                match (num(a), num(b)) { (Some((a, _)), Some((b, _))) => d.tree.push((a, b)), _ => ck!(false) }
            } else {
                match (port(a, "out"), port(b, "in")) {
                    (Some(a), Some(b)) => d.edges.push(([a.0, a.1, b.0, b.1], attr.to_vec())),
                    _ => ck!(false),
                }
            }
        } else if let Some(n) = after(head, "hier") {
            d.hier.push(num(n).unwrap().0);
        } else {
            let n = num(head);
            ck!(n.is_some());
            let mut cells = [vec![], vec![]];
            let mut r = attr;
            while let Some(k) = find(r, "port=\"") {
                r = &r[k + 6..];
                let (side, t) = if let Some(t) = after(r, "in") { (0, t) } else { (1, after(r, "out").unwrap()) };
                let off = num(t).unwrap().0;
                let (b, e) = (find(t, ">").unwrap(), find(t, "</td>").unwrap());
                cells[side].push((off, t[b + 1..e].to_vec()));
                r = &t[e..];
            }
            d.nodes.push((n.unwrap().0, cells, attr.to_vec()));
        }
    }
    ck!(closed);
    d
}
fn count<T: PartialEq>(v: &[T], x: &T) -> usize {
    v.iter().filter(|y| *y == x).count()
}
fn once(v: &[usize], shown: impl Fn(usize) -> bool, n: usize) {
    for x in 0..n { ck!(count(v, &x) == shown(x) as usize); }
    ck!(v.iter().all(|x| *x < n));
}
/// the links between nodes not hidden, as a drawing shows them
fn arrows(part: &Part, hidden: &[bool]) -> Vec<[usize; 4]> {
    let b = &part.m.b;
    part.m.links.iter().map(|l| {
        let (x, y) = (b.ports[l.0 .0].unwrap(), b.ports[l.1 .0].unwrap());
        let (x, y) = if x.out { (x, y) } else { (y, x) };
        [x.node, x.off, y.node, y.off]
    }).filter(|e| !hidden[e[0]] && !hidden[e[2]]).collect()
}
fn bag<T: PartialEq>(got: &[T], want: &[T]) {
    ck!(got.len() == want.len());
    for x in want { ck!(count(got, x) == count(want, x)); }
}
/// all rows of the table span the same number of columns
fn rectangle(a: &[u8]) {
    let mut width = NONE;
    let mut r = a;
    while let Some(k) = find(r, "<tr>") {
        r = &r[k + 4..];
        let mut row = &r[..find(r, "</tr>").unwrap()];
        let mut w = 0;
        while let Some(k) = find(row, "<td") {
            row = &row[k + 3..];
            let tag = &row[..find(row, ">").unwrap()];
            w += match find(tag, "colspan=\"") { Some(k) => num(&tag[k + 9..]).unwrap().0, None => 1 };
        }
        ck!(width == NONE || width == w);
        width = w;
    }
    ck!(width != NONE);
}
fn judge_dot(d: &Dot, part: &Part, hidden: &[bool], cell: impl Fn(usize) -> Option<Vec<u8>>) {
    let n = part.nodes.len();
    let b = &part.m.b;
    let ids: Vec<usize> = d.nodes.iter().map(|x| x.0).collect();
    once(&ids, |x| part.has(x) && !hidden[x], n);
    for (x, cells, table) in &d.nodes {
        rectangle(table);
        for out in [false, true] {
            let want: Vec<(usize, Vec<u8>)> = (0..b.nports(*x, out)).filter_map(|k| cell(b.port(*x, out, k)).map(|t| (k, t))).collect();
            ck!(cells[out as usize] == want);
        }
    }
    let got: Vec<[usize; 4]> = d.edges.iter().map(|e| e.0).collect();
    bag(&got, &arrows(part, hidden));
}
#[derive(Default)]
struct Mmd {
    /// node, its regions from the outside in
    nodes: Vec<(usize, Vec<usize>, Vec<u8>)>,
    boxes: Vec<usize>,
    edges: Vec<(usize, usize, Vec<usize>, Vec<u8>)>,
    /// is an end of the edge drawn only later?
    late: Vec<[bool; 2]>,
}
fn read_mmd(s: &str) -> Mmd {
    let mut d = Mmd::default();
    let mut open = false;
    let mut up: Vec<usize> = vec![];
    let mut seen: Vec<usize> = vec![];
    for l in lines(s) {
        if !open { ck!(find(l, "graph").is_some()); open = true; continue; }
        if l == b"end" { ck!(up.pop().is_some()); continue; }
        if after(l, "direction").is_some() || after(l, "style").is_some() { continue; }
        if let Some(r) = after(l, "subgraph ") {
            match num(r) {
                Some((n, r)) => { d.nodes.push((n, up.clone(), r.trim_ascii().to_vec())); d.boxes.push(n); up.push(n); seen.push(n); }
                None => ck!(false),
            }
            continue;
        }
        match num(l) {
            Some((n, r)) => {
                if r.first() == Some(&b'[') || after(r, ":::").is_some() {
                    d.nodes.push((n, up.clone(), r.to_vec()));
                    seen.push(n);
                } else {
                    let k = l.iter().rev().take_while(|c| c.is_ascii_digit()).count();
                    let m = num(&l[l.len() - k..]);
                    ck!(m.is_some() && r.len() > k);
                    let m = m.unwrap().0;
                    d.late.push([!seen.contains(&n), !seen.contains(&m)]);
                    d.edges.push((n, m, up.clone(), r[..r.len() - k].to_vec()));
                }
            }
            None => ck!(false),
        }
    }
    ck!(up.is_empty());
    d
}
/// shown ancestors from the outside in, cut at the first one not shown
fn regions(f: &F, part: &Part, mut x: usize) -> Vec<usize> {
    let mut r = vec![];
    while f.parent[x] != NONE && part.has(f.parent[x]) { x = f.parent[x]; r.insert(0, x); }
    r
}
/// is an ancestor shown although a node in between is not?
fn orphaned(f: &F, part: &Part, x: usize) -> bool {
    let all = (0..f.n()).filter(|&a| a != x && part.has(a) && f.above(a, x)).count();
    all > regions(f, part, x).len()
}
fn judge_mmd(d: &Mmd, part: &Part, f: Option<&F>, hidden: &[bool]) {
    let n = part.nodes.len();
    for x in 0..n {
        let c: Vec<&(usize, Vec<usize>, Vec<u8>)> = d.nodes.iter().filter(|e| e.0 == x).collect();
        if part.has(x) {
            ck!(c.len() == 1 || (hidden[x] && c.is_empty()));
            if c.len() == 1 { ck!(c[0].1 == match f { Some(f) => regions(f, part, x), None => vec![] }); }
        } else {
            ck!(c.is_empty());
        }
    }
    ck!(d.nodes.iter().all(|e| e.0 < n));
    let got: Vec<[usize; 2]> = d.edges.iter().map(|e| [e.0, e.1]).collect();
    let want: Vec<[usize; 2]> = arrows(part, hidden).iter().map(|e| [e[0], e[2]]).collect();
    bag(&got, &want);
    for (e, late) in d.edges.iter().zip(&d.late) {
        // comes after both its ends, which are inside all regions around it
        for (x, late) in [(e.0, late[0]), (e.1, late[1])] { ck!(!late || f.is_some_and(|f| orphaned(f, part, x))); }
        for &r in &e.2 {
            let f = f.unwrap();
            ck!(f.above(r, e.0) && f.above(r, e.1));
        }
    }
}
fn style(hidden: &[bool]) -> impl Fn(N) -> NodeStyle + '_ {
    |n| if hidden[n.index()] { NodeStyle::Hidden } else { NodeStyle::boxed(n.index()) }
}
fn digits(n: usize) -> Vec<u8> { n.to_string().into_bytes() }
fn forest(n: usize) -> (Hierarchy, F) {
    let mut h = Hierarchy::new();
    let mut f = F::new(n);
    let rev = choose(below(2)) == 1;
    for j in 1..n {
        let p = choose(below(j + 1));
        if p < j { if rev { f.push(&mut h, n - 1 - j, n - 1 - p, true) } else { f.push(&mut h, j, p, false) }; }
    }
    (h, f)
}
harnesses! {
p32_dot, covers = 2, bounds = "PortGraph of 3 nodes with 2 ports each way, any 2 (thorough 3) links, any node removed, any set of hidden nodes: one table per shown node with all its ports, one edge per link between shown nodes", {
    let (mut g, mut m) = square(3, 2, tier(2, 3));
    let x = choose(below(4));
    if x < 3 { m.remove(&mut g, x); }
    let c = choose(below(8));
    assume(x == 3 || c == 0);
    let hidden = bits(c, 3);
    let m = of(&m);
    let part = Part::new(&m, vec![true; 3], |_| true);
    let d = read_dot(&if c == 0 { g.dot_string() } else { g.dot_format().with_node_style(style(&hidden)).finish() });
    judge_dot(&d, &part, &hidden, |p| Some(digits(m.b.ports[p].unwrap().off)));
    ck!(d.hier.is_empty() && d.tree.is_empty());
    if d.edges.len() == 2 { cover(0); }
    if c == 2 { cover(1); }
    part.obs();
}
p32_dot_multi, covers = 1, bounds = "MultiPortGraph of 3 nodes with one port each way, any 3 (thorough 4) links, repeated ones included, any set of hidden nodes", {
    let (g, m) = msquare(3, tier(3, 4), true);
    let hidden = bits(choose(below(8)), 3);
    let part = Part::new(&m, vec![true; 3], |_| true);
    let d = read_dot(&g.dot_format().with_node_style(style(&hidden)).finish());
    judge_dot(&d, &part, &hidden, |p| Some(digits(m.b.ports[p].unwrap().off)));
    if d.edges.len() == 3 && d.edges[0].0 == d.edges[1].0 { cover(0); }
    part.obs();
}
p32_dot_styles, covers = 2, bounds = "PortGraph of 2 nodes with 2 ports each way and any one (thorough: 2) links; every port hidden, plain or boxed with or without label and number, edges solid, dotted, dashed or custom (one style per case), a node with all attributes: shown as asked", {
    let (g, m) = square(2, 2, tier(1, 2));
    let m = of(&m);
    let part = Part::new(&m, vec![true; 2], |_| true);
    let (p, k) = (choose(below(8)), choose(below(5)));
    let e = (p + k) % 4;
    let st = move |q: P| if q.index() != p { PortStyle::text("t", false) } else {
        match k { 0 => PortStyle::Hidden, 1 => PortStyle::text("ab", true), 2 => PortStyle::boxed("", true), 3 => PortStyle::boxed("c", false), _ => PortStyle::new("d") }
    };
    let es = move |a: P, b: P| {
        ck!(g_out(a) && !g_out(b));
        match e { 0 => EdgeStyle::Solid, 1 => EdgeStyle::Dotted.with_label("l"), 2 => EdgeStyle::Dashed, _ => EdgeStyle::Custom("bold".to_string()) }
    };
    fn g_out(p: P) -> bool { p.index() % 4 >= 2 }
    let mut at = PresentationStyle::new();
    at.color = Some("#0a0".to_string());
    at.fill = Some("#0b0".to_string());
    at.stroke = Some("#0c0".to_string());
    at.stroke_width = Some("7".to_string());
    let s = g.dot_format().with_port_style(st).with_edge_style(es)
        .with_node_style(move |n| if n.index() == 0 { NodeStyle::boxed("xyz").with_attrs(at.clone()) } else { NodeStyle::default() }).finish();
    let d = read_dot(&s);
    judge_dot(&d, &part, &[false; 2], |q| {
        let off = digits(m.b.ports[q].unwrap().off);
        if q != p { return Some(b"t".to_vec()); }
        match k { 0 => None, 1 => Some([&off[..], b": ab"].concat()), 2 => Some(off), 3 => Some(b"c".to_vec()), _ => Some([&off[..], b": d"].concat()) }
    });
    for (x, _, a) in &d.nodes {
        ck!((*x == 0) == find(a, ">xyz</td>").is_some());
        for t in ["fontcolor=\"#0a0\"", "fillcolor=\"#0b0\"", " color=\"#0c0\"", "penwidth=\"7\""] { ck!((*x == 0) == find(a, t).is_some()); }
    }
    for (_, a) in &d.edges {
        ck!(find(a, match e { 0 => "\"\"", 1 => "\"dotted\"", 2 => "\"dashed\"", _ => "\"bold\"" }).is_some());
    }
    if k == 0 { cover(0); }
    if d.edges.len() == 1 { cover(1); }
}
p32_dot_hierarchy, covers = 1, bounds = "every forest on 4 (thorough 5) nodes, any one link, the whole graph or the subgraph of any node set: the tree shows exactly the parents and children drawn", {
    let n = tier(4, 5);
    let (g, m) = square(n, 1, 1);
    let m = of(&m);
    let (h, f) = forest(n);
    let s = bits(choose(below(1 << n)), n);
    let v = Subgraph::with_nodes(&g, members(&s));
    let part = Part::new(&m, s.clone(), |_| true);
    let d = read_dot(&v.dot_format().with_hierarchy(&h).finish());
    judge_dot(&d, &part, &vec![false; n], |_| Some(b"0".to_vec()));
    once(&d.hier, |x| s[x], n);
    let want: Vec<(usize, usize)> = (0..n).filter(|&x| s[x] && f.parent[x] != NONE && s[f.parent[x]]).map(|x| (f.parent[x], x)).collect();
    bag(&d.tree, &want);
    // siblings in order
    for x in 0..n {
        let got: Vec<usize> = d.tree.iter().filter(|t| t.0 == x).map(|t| t.1).collect();
        let want: Vec<usize> = f.kids[x].iter().copied().filter(|&y| s[x] && s[y]).collect();
        ck!(got == want);
    }
    if want.len() == 3 { cover(0); }
    f.obs();
}
p32_mermaid, covers = 3, bounds = "PortGraph of 4 nodes, one port each way, any 2 links, every forest (thorough also 3 links): each node once, inside the regions of its ancestors; each link once, after its ends, inside no region without both", {
    let (g, m) = square(4, 1, tier(2, 3));
    let m = of(&m);
    let (h, f) = forest(4);
    let part = Part::new(&m, vec![true; 4], |_| true);
    let d = read_mmd(&g.mermaid_format().with_hierarchy(&h).finish());
    judge_mmd(&d, &part, Some(&f), &[false; 4]);
    ck!(d.boxes.iter().all(|&x| !f.kids[x].is_empty()));
    if d.boxes.len() == 3 { cover(0); }
    if d.edges.len() == 2 && d.edges[0].2.len() == 2 { cover(1); }
    if d.boxes.len() == 2 && d.edges.len() == 2 && d.edges[0].2.len() != d.edges[1].2.len() { cover(2); }
    f.obs();
}
p32_mermaid_flat, covers = 1, bounds = "PortGraph of 3 nodes with 2 ports each way, any 2 links, any node removed, and MultiPortGraph with any 3 links, any set of hidden nodes, without a hierarchy", {
    let c = choose(below(8));
    let hidden = bits(c, 3);
    if choose(below(2)) == 0 {
        let (mut g, mut m) = square(3, 2, 2);
        let x = choose(below(4));
        if x < 3 { m.remove(&mut g, x); }
        assume(x == 3 || c == 0);
        let m = of(&m);
        let part = Part::new(&m, vec![true; 3], |_| true);
        let d = read_mmd(&if c == 0 { g.mermaid_string() } else { g.mermaid_format().with_node_style(style(&hidden)).finish() });
        judge_mmd(&d, &part, None, &hidden);
    } else {
        let (g, m) = msquare(3, 3, true);
        let part = Part::new(&m, vec![true; 3], |_| true);
        let d = read_mmd(&g.mermaid_format().with_node_style(style(&hidden)).finish());
        judge_mmd(&d, &part, None, &hidden);
        if d.edges.len() == 3 { cover(0); }
    }
}
p32_mermaid_hidden, covers = 1, bounds = "PortGraph of 4 nodes in a chain of links, every forest, every set of hidden nodes", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..4 { m.add(&mut g, 1, 1); }
    for k in 0..3 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    let m = of(&m);
    let (h, f) = forest(4);
    let hidden = bits(choose(below(16)), 4);
    let part = Part::new(&m, vec![true; 4], |_| true);
    let d = read_mmd(&g.mermaid_format().with_hierarchy(&h).with_node_style(style(&hidden)).finish());
    judge_mmd(&d, &part, Some(&f), &hidden);
    if d.edges.len() == 1 { cover(0); }
}
p32_mermaid_view, covers = 3, bounds = "PortGraph of 4 nodes, one port each way, any 1 (thorough 2) links, every forest; drawn as the subgraph of any node set, the region or flat region of any root, with the hierarchy", {
    let (g, m) = square(4, 1, tier(1, 2));
    let m = of(&m);
    let (h, f) = forest(4);
    let mut s = vec![false; 4];
    match choose(below(3)) {
        0 => {
            s = bits(choose(below(16)), 4);
            let part = Part::new(&m, s.clone(), |_| true);
            let d = read_mmd(&Subgraph::with_nodes(&g, members(&s)).mermaid_format().with_hierarchy(&h).finish());
            judge_mmd(&d, &part, Some(&f), &[false; 4]);
            if part.count() == 3 && d.edges.len() == 1 && d.boxes.len() == 1 { cover(0); }
        }
        1 => {
            let r = choose(below(4));
            for x in f.bfs(r) { s[x] = true; }
            let part = Part::new(&m, s, |_| true);
            let d = read_mmd(&Region::new(&g, &h, ni(r)).mermaid_format().with_hierarchy(&h).finish());
            judge_mmd(&d, &part, Some(&f), &[false; 4]);
            if f.parent[r] != NONE && d.boxes.len() == 2 { cover(1); }
        }
        _ => {
            let r = choose(below(4));
            let with = choose(below(2)) == 1;
            for &x in &f.kids[r] { s[x] = true; }
            s[r] = with;
            let part = Part::new(&m, s, |_| true);
            let v = if with { FlatRegion::new_with_root(&g, &h, ni(r)) } else { FlatRegion::new_without_root(&g, &h, ni(r)) };
            let d = read_mmd(&v.mermaid_format().with_hierarchy(&h).finish());
            judge_mmd(&d, &part, Some(&f), &[false; 4]);
            if f.kids[r].len() == 2 { cover(2); }
        }
    }
}
p32_mermaid_labels, covers = 2, bounds = "2 nodes, one of them inside the other, 2 links: every label of up to 3 characters of (quote, newline, letter), on nodes and edges, every edge style: the label is quoted, can be read back, and stays on its line", {
    let (mut g, mut m) = (G::new(), Model::new());
    m.add(&mut g, 1, 1);
    m.add(&mut g, 1, 1);
    m.link(&mut g, 1, 2);
    m.link(&mut g, 3, 0);
    let m = of(&m);
    let part = Part::new(&m, vec![true; 2], |_| true);
    let mut h = Hierarchy::new();
    let mut f = F::new(2);
    if choose(below(2)) == 1 { f.push(&mut h, 1, 0, false); }
    let k = choose(below(4));
    let text: String = (0..k).map(|_| ['"', '\n', 'x'][choose(below(3))]).collect();
    let mut enc = vec![];
    for c in text.bytes() { match c { b'"' => enc.extend(b"#quot;"), b'\n' => enc.extend(b"<br>"), c => enc.push(c) } }
    let quoted = [b"\"", &enc[..], b"\""].concat();
    let e = choose(below(3));
    let (t, u) = (text.clone(), text.clone());
    let es = move |_: P, _: P| {
        let s = match e { 0 => EdgeStyle::Solid, 1 => EdgeStyle::Dotted, _ => EdgeStyle::Dashed };
        s.with_label("old").with_label(&t)
    };
    let d = read_mmd(&g.mermaid_format().with_hierarchy(&h).with_edge_style(es).with_node_style(move |n| if n.index() == 1 { NodeStyle::boxed("y") } else { NodeStyle::boxed(&u) }).finish());
    judge_mmd(&d, &part, Some(&f), &[false; 2]);
    for (x, _, r) in &d.nodes {
        let want = if *x == 1 { b"\"y\"".to_vec() } else if k == 0 { b"0".to_vec() } else { quoted.clone() };
        ck!(*r == [b"[", &want[..], b"]"].concat());
    }
    for x in &d.edges {
        let lbl = if k == 0 { vec![] } else { quoted.clone() };
        let (a, b): (&[u8], &[u8]) = if e == 0 { (b"--", b"-->") } else { (b"-.", b".->") };
        ck!(x.3 == [a, &lbl[..], b].concat());
    }
    if k == 0 { cover(0); }
    if k == 3 { cover(1); }
}
p32_wide, covers = 2, bounds = "PortGraph of nodes with i inputs and o outputs, any i, o up to 6 (thorough 8), beside a node (6,6), linked on every port that fits: the table is a rectangle with all ports, and all links are drawn; dot, and mermaid inside a common region or none", {
    let (i, o) = (choose(below(tier(7, 9))), choose(below(tier(7, 9))));
    let mut g = G::new();
    let mut m = Model::new();
    m.add(&mut g, i, o);
    m.add(&mut g, 6, 6);
    m.add(&mut g, 0, 0);
    for k in 0..i.min(6) { let (a, b) = (m.port(1, true, k), m.port(0, false, i - 1 - k)); m.link(&mut g, a, b); }
    for k in 0..o.min(6) { let (a, b) = (m.port(0, true, k), m.port(1, false, 5 - k)); m.link(&mut g, a, b); }
    let m = of(&m);
    let part = Part::new(&m, vec![true; 3], |_| true);
    let d = read_dot(&g.dot_string());
    judge_dot(&d, &part, &[false; 3], |p| Some(digits(m.b.ports[p].unwrap().off)));
    let mut h = Hierarchy::new();
    let mut f = F::new(3);
    let c = choose(below(3));
    if c > 0 { f.push(&mut h, 0, 2, false); }
    if c > 1 { f.push(&mut h, 1, 2, false); }
    let d = read_mmd(&g.mermaid_format().with_hierarchy(&h).finish());
    judge_mmd(&d, &part, Some(&f), &[false; 3]);
    if d.edges.len() == 12 && c == 2 { cover(0); }
    if i == 0 && o == 5 { cover(1); }
}
p32_many, covers = 2, bounds = "PortGraph of 14 nodes with ten and more links, in a nest of regions up to 6 deep and 5 wide, one link between any two, drawn whole or as any region", {
    let mut g = G::new();
    let mut m = Model::new();
    for _ in 0..14 { m.add(&mut g, 2, 2); }
    for k in 0..13 { let (a, b) = (m.port(k, true, 0), m.port(k + 1, false, 0)); m.link(&mut g, a, b); }
    let (x, y) = (choose(below(14)), choose(below(7)) * 2);
    let (a, b) = (m.port(x, true, 1), m.port(y, false, 1));
    m.link(&mut g, a, b);
    let m = of(&m);
    let mut h = Hierarchy::new();
    let mut f = F::new(14);
    for (k, p) in [(1, 0), (2, 1), (3, 2), (4, 3), (5, 4), (6, 5), (7, 1), (8, 1), (9, 1), (10, 1), (11, 4)] { f.push(&mut h, k, p, k % 2 == 0); }
    let part = |s: Vec<bool>| Part::new(&m, s, |_| true);
    let r = choose(below(4));
    if r == 0 {
        let p = part(vec![true; 14]);
        let d = read_mmd(&g.mermaid_format().with_hierarchy(&h).finish());
        judge_mmd(&d, &p, Some(&f), &[false; 14]);
        judge_dot(&read_dot(&g.dot_format().with_hierarchy(&h).finish()), &p, &[false; 14], |p| Some(digits(m.b.ports[p].unwrap().off)));
        if d.edges[13].2.len() == 5 || d.edges[0].2.len() == 5 { cover(0); }
    } else {
        let mut s = vec![false; 14];
        for k in f.bfs(r) { s[k] = true; }
        let p = part(s);
        let d = read_mmd(&Region::new(&g, &h, ni(r)).mermaid_format().with_hierarchy(&h).finish());
        judge_mmd(&d, &p, Some(&f), &[false; 14]);
        if r == 1 && d.boxes.len() == 5 { cover(1); }
    }
}
p32_weights, covers = 2, bounds = "PortGraph of 3 nodes with one port each way, any one link, any node removed or none; nodes and ports with any weights out of three or none: dot and mermaid show each node's and port's own weight", {
    let (mut g, mut b) = square(3, 1, 1);
    let mut w: Weights<u8, u8> = Weights::with_capacity(0, 20);
    let gone = choose(below(4));
    if gone < 3 { b.remove(&mut g, gone); }
    let (mut nw, mut pw) = ([0u8; 3], [0u8; 6]);
    for n in 0..3 { if n != gone { nw[n] = choose(below(3)) as u8 * 6; w.nodes[ni(n)] = nw[n]; } }
    for p in 0..6 { if b.palive(p) { pw[p] = ((p + nw[p / 2] as usize) % 7) as u8; if pw[p] != 0 { w.ports[pi(p)] = pw[p]; } } }
    let m = of(&b);
    let part = Part::new(&m, vec![true; 3], |_| true);
    let d = read_dot(&g.dot_format().with_weights(&w).finish());
    judge_dot(&d, &part, &[false; 3], |q| Some([&digits(m.b.ports[q].unwrap().off)[..], b": ", &digits(pw[q] as usize)[..]].concat()));
    for (x, _, a) in &d.nodes {
        let t = format!(">{}</td></tr><tr>", nw[*x]);
        ck!(find(a, &t).is_some());
    }
    let d = read_mmd(&g.mermaid_format().with_weights(&w).finish());
    judge_mmd(&d, &part, None, &[false; 3]);
    for (x, _, r) in &d.nodes {
        let lbl = r.iter().copied().filter(|c| c.is_ascii_digit()).collect::<Vec<u8>>();
        ck!(lbl == digits(nw[*x] as usize) && r.len() >= lbl.len() + 2);
    }
    if gone < 3 { cover(0); }
    if m.links.len() == 1 { cover(1); }
    part.obs();
}
}
