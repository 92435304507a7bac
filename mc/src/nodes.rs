//! C20: creating nodes, finding them, comparing them.

use svgdom::{Attribute, AttributeId as AId, AttributeQName, AttributeValue as V, Document, ElementId as EId, FilterSvg, Node, NodeEdge, NodeType, PaintFallback, QName, QNameRef};

use crate::api::space_suite;
use crate::engine::*;
use crate::model::*;
use crate::names::{ATTRIBUTES, ELEMENTS};

fn ck(ok: bool, what: &str) -> R { if ok { Ok(()) } else { Err(what.to_string()) } }

/// All handles are equal to themselves, to their clones and to what navigation returns, and to nothing else.
fn identities(h: &[Node], m: &MDoc, ctx: &mut Ctx) -> R {
    for i in 0..h.len() {
        for j in 0..h.len() {
            if (h[i] == h[j]) != (i == j) || (h[i] != h[j]) != (i != j) { return Err(format!("nodes {} and {}: wrong equality", i, j)); }
            let c = h[j].clone();
            if (h[i] == c) != (i == j) || (h[i] != c) != (i != j) { return Err(format!("nodes {} and {}: wrong equality", i, j)); }
            let (a, b) = (NodeEdge::Start(h[i].clone()), NodeEdge::Start(c.clone()));
            if (a == b) != (i == j) || a == NodeEdge::End(c) { return Err(format!("edges of nodes {} and {}: wrong equality", i, j)); }
        }
        ctx.step(h.len() as u64);
        let w = &m.n[i];
        if h[i].parent().map(|p| h.iter().position(|x| *x == p)) != w.parent.map(Some) { return Err(format!("node {}: the parent is another node", i)); }
        for (k, c) in h[i].children().enumerate() { if h.iter().position(|x| *x == c) != w.kids.get(k).cloned() { return Err(format!("node {}: child {} is another node", i, k)); } }
        for t in h[i].linked_nodes().iter() { if !h.iter().any(|x| x == t) { return Err(format!("node {}: an unknown linked node", i)); } }
    }
    ctx.compared();
    Ok(())
}

fn fresh(d: &Document, n: &Node, t: NodeType) -> R {
    ck(!n.is_detached(), "a new node does not belong to the document")?;
    ck(!n.has_parent() && n.parent().is_none() && n.next_sibling().is_none() && n.previous_sibling().is_none() && n.first_child().is_none() && n.last_child().is_none() && !n.has_children(), "a new node is in a tree")?;
    ck(!n.has_id() && n.id().is_empty() && n.attributes().is_empty() && n.linked_nodes().is_empty() && !n.is_used(), "a new node has an id, attributes or users")?;
    ck(n.node_type() == t && n.is_element() == (t == NodeType::Element) && n.is_text() == (t == NodeType::Text) && n.is_comment() == (t == NodeType::Comment) && !n.is_root(), "a new node has a wrong type")?;
    ck(n.root() == *n && *n != d.root() && d.root().is_root() && d.root().node_type() == NodeType::Root, "wrong root")
}

/// Name k: elements by identifier, elements by spelling, other strings.
fn made(name: &str, by_id: bool, ctx: &mut Ctx) -> R {
    let mut d = Document::new();
    let root = d.root();
    for round in 0..3 {
        let n = match (by_id, EId::from_str(name)) { (true, Some(e)) => d.create_element(e), _ => d.create_element(name) };
        fresh(&d, &n, NodeType::Element)?;
        let id = if by_id { EId::from_str(name) } else { None };
        ck(n.tag_id() == id && n.is_svg_element() == id.is_some(), "wrong tag identifier")?;
        ck(n.tag_name().to_string() == name && *n.text() == "", "wrong tag name or text")?;
        ck(n.has_tag_name(name) == id.is_none(), "has_tag_name of the spelling")?;
        if let Some(e) = EId::from_str(name) { ck(n.has_tag_name(e) == by_id, "has_tag_name of the identifier")?; }
        for e in [EId::G, EId::Svg, EId::Style] { if e.as_str() != name { ck(!n.has_tag_name(e) && !n.has_tag_name(e.as_str()), "has_tag_name of another name")?; } }
        ck(d.root() == root && d.root().has_children() == (round > 0), "the root changed")?;
        let r2 = &mut d.root();
        if round == 0 { r2.append(n.clone()); }
        let is_svg = by_id && name == "svg";
        ck(d.svg_element().is_some() == is_svg, "svg_element() after creation")?;
        ctx.step(4);
    }
    ctx.compared();
    ctx.outcome(hash_str(name));
    Ok(())
}

fn made_node(text: &str, t: NodeType, ctx: &mut Ctx) -> R {
    let mut d = Document::new();
    let n = d.create_node(t, text);
    fresh(&d, &n, t)?;
    ck(*n.text() == text && n.tag_id().is_none() && !n.is_svg_element(), "text or tag of a new node")?;
    let n2 = d.create_node(t, text.to_string());
    ck(n != n2 && *n2.text() == text, "the second node")?;
    d.root().append(n);
    ck(d.svg_element().is_none(), "svg_element() without elements")?;
    ctx.step(3);
    ctx.compared();
    ctx.outcome(hash_str(text));
    Ok(())
}

/// Refused calls panic and leave everything as it was.
fn refused(k: u64, ctx: &mut Ctx) -> R {
    let mut d = Document::new();
    let mut svg = d.create_element(EId::Svg);
    svg.set_id("a");
    d.root().append(svg.clone());
    let g = d.create_element("g");
    svg.append(g.clone());
    let before = snapshot(&d)?.key();
    ctx.step(1);
    ctx.compared();
    ctx.outcome(k);
    let r = match k {
        0 => guarded(|| { d.create_element(""); }),
        1 => guarded(|| { d.create_node(NodeType::Element, "a"); }),
        2 => guarded(|| { d.create_node(NodeType::Root, "a"); }),
        3 => { let mut x = svg.clone(); guarded(|| x.set_tag_name("")) }
        _ => { let mut x = g.clone(); guarded(|| x.set_tag_name("")) }
    };
    ck(r.is_err(), "an invalid call does not panic")?;
    let mut e = d.create_element(EId::Rect);
    fresh(&d, &e, NodeType::Element)?;
    e.set_id("b");
    ck(snapshot(&d)?.key() == before, "a refused call changed the document")?;
    ck(d.svg_element().as_ref() == Some(&svg) && svg.first_child().as_ref() == Some(&g), "a refused call changed the tree")
}

const TOP: usize = 8;
fn top_node(d: &mut Document, k: usize) -> Node {
    match k {
        0 => d.create_element(EId::Svg),
        1 => d.create_element(EId::G),
        2 => d.create_element("svg"),
        3 => d.create_node(NodeType::Comment, "svg"),
        4 => d.create_node(NodeType::Text, "svg"),
        5 => { let mut g = d.create_element(EId::G); let s = d.create_element(EId::Svg); g.append(s); g }
        6 => { let mut c = d.create_node(NodeType::Comment, "c"); let s = d.create_element(EId::Svg); c.append(s); c }
        _ => { let mut s = d.create_element("SVG"); let t = d.create_element(EId::Svg); s.append(t); s }
    }
}

/// svg_element() for a row of nodes below the root; then each of them renamed, detached and removed.
fn top(row: &[usize], ctx: &mut Ctx) -> R {
    let mut d = Document::new();
    let mut nodes = vec![];
    for &k in row { let n = top_node(&mut d, k); d.root().append(n.clone()); nodes.push(n); }
    let mut names: Vec<Option<bool>> = row.iter().map(|&k| match k { 0 => Some(true), 1 | 2 | 5 | 7 => Some(false), _ => None }).collect();
    let check = |d: &Document, nodes: &[Node], names: &[Option<bool>], ctx: &mut Ctx| -> R {
        let want = names.iter().position(|x| *x == Some(true));
        ctx.step(1);
        ctx.compared();
        let got = d.svg_element();
        if got.as_ref() != want.map(|k| &nodes[k]) { return Err(format!("svg_element() is child {:?}, expected {:?}", got.map(|g| nodes.iter().position(|n| *n == g)), want)); }
        let kept: Vec<EId> = d.root().children().svg().map(|(e, _)| e).collect();
        ck(kept.iter().filter(|e| **e == EId::Svg).count() == names.iter().filter(|x| **x == Some(true)).count(), "svg() over the children of the root")
    };
    check(&d, &nodes, &names, ctx)?;
    for k in 0..row.len() {
        if names[k].is_some() {
            let old = (nodes[k].tag_name().clone(), names[k]);
            for t in [EId::Svg, EId::Symbol] {
                nodes[k].set_tag_name(t);
                names[k] = Some(t == EId::Svg);
                check(&d, &nodes, &names, ctx)?;
            }
            nodes[k].set_tag_name("svg");
            names[k] = Some(false);
            check(&d, &nodes, &names, ctx)?;
            nodes[k].set_tag_name(old.0.as_ref());
            names[k] = old.1;
            check(&d, &nodes, &names, ctx)?;
        }
    }
    while let Some(n) = nodes.first().cloned() {
        if nodes.len() % 2 == 0 { let mut n = n; n.detach(); } else { d.remove_node(n); }
        nodes.remove(0);
        names.remove(0);
        check(&d, &nodes, &names, ctx)?;
    }
    Ok(())
}

fn digits(mut i: u64, base: u64, max: u32) -> Vec<usize> {
    let mut len = 0;
    while len < max { let n = base.pow(len); if i < n { break; } i -= n; len += 1; }
    (0..len).map(|_| { let x = i % base; i /= base; x as usize }).collect()
}

/// Values that are all different, links of all flavours included.
pub fn values(a: &Node, b: &Node) -> Vec<V> {
    let mut v = crate::values::samples();
    v.extend([V::String("none".into()), V::String("inherit".into()), V::String("Text".into()), V::String("text ".into()), V::String("0.25".into()), V::String("lg".into()), V::String("#lg".into()),
        V::Number(0.5), V::Number(100.0), V::Number(1.0)]);
    for n in [a, b] {
        v.push(V::Link(n.clone()));
        v.push(V::FuncLink(n.clone()));
        for f in [None, Some(PaintFallback::None), Some(PaintFallback::CurrentColor), Some(PaintFallback::Color(svgdom::Color::new(255, 0, 17))), Some(PaintFallback::Color(svgdom::Color::new(255, 0, 18)))] { v.push(V::Paint(n.clone(), f)); }
    }
    v
}

pub fn c20(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut names: Vec<(String, bool)> = vec![];
    for e in ELEMENTS.iter() { names.push((e.to_string(), true)); names.push((e.to_string(), false)); names.push((e.to_uppercase(), false)); names.push((format!("{}x", e), false)); names.push((format!("{} ", e), false)); }
    for a in ATTRIBUTES.iter() { names.push((a.to_string(), false)); }
    for s in crate::text::strings(&['a', 'S', ':', ' ', '-', '\u{e9}', '<', '\0'], tier.pick(3, 4)) { if !s.is_empty() { names.push((s, false)); } }
    for s in crate::text::words() { names.push((s, false)); }
    for n in sizes(20, 5000) { if n > 0 { names.push(("n".repeat(n), false)); } }
    let n2 = names.clone();
    v.push(Suite::new("elements", "an element created with every SVG name (as identifier and as spelling), every short string, every word of special characters and long strings, three times", names.len() as u64,
        move |i, ctx| { let (s, id) = &names[i as usize]; made(s, *id, ctx) }, move |i| format!("create_element({:?}), identifier: {}", n2[i as usize].0, n2[i as usize].1)));
    let mut st = crate::text::strings(&['a', ' ', '\n', '-', '\u{e9}', '<', '\0', '&'], tier.pick(4, 5));
    st.extend(crate::text::words());
    for n in sizes(20, 5000) { st.push("t".repeat(n)); }
    let s2 = st.clone();
    let n = st.len() as u64;
    v.push(Suite::new("nodes", "a text and a comment created with every short string, every word of special characters and long strings", n * 2,
        move |i, ctx| made_node(&st[(i % n) as usize], if i < n { NodeType::Text } else { NodeType::Comment }, ctx), move |i| format!("{} {:?}", if i < n { "text" } else { "comment" }, s2[(i % n) as usize])));
    v.push(Suite::new("invalid", "empty tag names and wrong node types panic and change nothing", 5, refused, |i| format!("call {}", i)));
    let max = tier.pick(5, 6);
    let count: u64 = (0..=max).map(|k| (TOP as u64).pow(k)).sum();
    v.push(Suite::new("svg-element", "all rows of up to 5 of 8 kinds of nodes below the root; each renamed to svg and back, then detached and removed one by one", count,
        move |i, ctx| { let r = digits(i, TOP as u64, max); ctx.outcome(hash_str(&format!("{:?}", r))); top(&r, ctx) }, move |i| format!("kinds {:?}", digits(i, TOP as u64, max))));
    // identity in all states
    let init = vec![Op::CreateElem(2), Op::CreateElem(0), Op::CreateElem(0), Op::CreateText(1), Op::Append(0, 1), Op::Append(1, 2), Op::SetId(2, 1), Op::SetId(3, 1)];
    let mut al = vec![];
    for p in [0u8, 1, 2, 3] { for c in [1u8, 2, 3, 4] { if p != c { al.push(Op::Append(p, c)); al.push(Op::Before(c, p.max(1))); } } }
    for n in 1..=4u8 { al.extend([Op::Detach(n), Op::Remove(n), Op::Copy(n), Op::CopyDeep(n)]); }
    for n in 1..=3u8 { al.extend([Op::SetTag(n, 2), Op::SetTag(n, 3), Op::SetId(n, 2), Op::Link(n, 1, 2, 3), Op::Link(n, 0, 3, 6)]); }
    al.retain(|o| !matches!(o, Op::Before(a, b) if a == b));
    al.extend([Op::CreateElem(0), Op::CreateText(1), Op::Write, Op::Drain(0, 0b10000)]);
    let sp = crate::model::explore(init, al, tier.pick(3, 4), tier.pick(20_000, 200_000), true, &|m| m.n.len() <= 9);
    v.push(space_suite("identity", "moves, copies, removals, renames, creations; all handles compared with all others, also after the document is gone", sp, std::sync::Arc::new(|_, m, r, ctx| {
        identities(&r.h, &m, ctx)?;
        let root = r.doc.root();
        ck(r.doc.root() == root && root == r.h[0], "root() is another node")?;
        let Real { doc, h } = r;
        drop(doc);
        for i in 0..h.len() { for j in 0..h.len() { if (h[i] == h[j]) != (i == j) || (h[i] == h[j].clone()) != (i == j) || (h[i].clone() == h[j]) != (i == j) || (h[i] != h[j]) == (i == j) { return Err(format!("nodes {} and {}: wrong equality after the document was dropped", i, j)); } } }
        Ok(())
    })));
    // names
    let l = ATTRIBUTES.len() as u64;
    v.push(Suite::new("attribute-names", "every two attribute names as identifiers and as spellings: equality, conversion, has_id", l * l, move |i, ctx| {
        let (a, b) = (ATTRIBUTES[(i / l) as usize], ATTRIBUTES[(i % l) as usize]);
        let (x, y) = (AId::from_str(a).ok_or("unknown")?, AId::from_str(b).ok_or("unknown")?);
        let same = i / l == i % l;
        let (p, q, s, t): (AttributeQName, AttributeQName, AttributeQName, AttributeQName) = (QName::Id(x), QName::Id(y), QName::Name(a.into()), QName::Name(b.into()));
        ck((p == q) == same && (s == t) == same && p != t && s != q, "equality of names")?;
        ck((p.as_ref() == q.as_ref()) == same && (s.as_ref() == t.as_ref()) == same && p.as_ref() != t.as_ref() && s.as_ref() != q.as_ref(), "equality of name references")?;
        ck(p.has_id(y) == same && p.as_ref().has_id(y) == same && !s.has_id(y) && !s.as_ref().has_id(y), "has_id")?;
        ck((QNameRef::from(x) == q.as_ref()) == same && (QNameRef::from(a) == t.as_ref()) == same && QNameRef::<AId>::from(a) != q.as_ref(), "conversions")?;
        ck(AttributeQName::from(p.as_ref()) == p && AttributeQName::from(s.as_ref()) == s && p.clone() == p && s.clone() == s, "copies")?;
        let (m, n) = (Attribute::new(x, V::Number(1.0)), Attribute::new(b, V::Number(1.0)));
        ck(m != n && (m == Attribute::new(y, V::Number(1.0))) == same && m != Attribute::new(x, V::Number(2.0)), "equality of attributes")?;
        ck(m.has_id(y) == same && m.id() == Some(x) && m.is_svg() && !n.has_id(y) && n.id().is_none() && !n.is_svg(), "identifier of an attribute")?;
        ctx.step(20);
        ctx.compared();
        ctx.outcome(i);
        Ok(())
    }, move |i| format!("{} and {}", ATTRIBUTES[(i / l) as usize], ATTRIBUTES[(i % l) as usize])));
    let l = ELEMENTS.len() as u64;
    v.push(Suite::new("element-names", "every two element names as identifiers and as spellings: equality, has_tag_name, renaming", l * l, move |i, ctx| {
        let (a, b) = (ELEMENTS[(i / l) as usize], ELEMENTS[(i % l) as usize]);
        let (x, y) = (EId::from_str(a).ok_or("unknown")?, EId::from_str(b).ok_or("unknown")?);
        let same = i / l == i % l;
        let mut d = Document::new();
        let mut n = d.create_element(x);
        ck(n.has_tag_name(y) == same && !n.has_tag_name(b) && !n.has_tag_name(a) && n.tag_id() == Some(x), "has_tag_name")?;
        n.set_tag_name(y);
        ck(n.has_tag_name(y) && n.has_tag_name(x) == same && n.tag_id() == Some(y) && n.is_svg_element(), "renamed")?;
        n.set_tag_name(a);
        ck(n.has_tag_name(a) && n.has_tag_name(b) == same && !n.has_tag_name(x) && !n.has_tag_name(y) && n.tag_id().is_none() && !n.is_svg_element(), "renamed to a spelling")?;
        ck(*n.tag_name() == QName::Name(a.into()) && *n.tag_name() != QName::Id(x), "tag_name()")?;
        ctx.step(8);
        ctx.compared();
        ctx.outcome(i);
        Ok(())
    }, move |i| format!("{} and {}", ELEMENTS[(i / l) as usize], ELEMENTS[(i % l) as usize])));
    let st: Vec<String> = crate::text::strings(&['a', 'A', ':', '-', ' ', '\u{e9}'], 3)[1..].to_vec();
    let k = st.len() as u64;
    let (st, s2) = (std::sync::Arc::new(st.clone()), st);
    v.push(Suite::new("custom-names", "every two custom names of up to 3 characters of 6: has_tag_name, renaming, equality", k * k, move |i, ctx| {
        let (a, b) = (st[(i / k) as usize].as_str(), st[(i % k) as usize].as_str());
        let mut d = Document::new();
        let mut n = d.create_element(a);
        ctx.step(3);
        ctx.compared();
        ctx.outcome(i);
        ck(n.has_tag_name(b) == (a == b) && n.has_tag_name(a), "has_tag_name")?;
        ck((*n.tag_name() == QName::Name(b.into())) == (a == b), "equality of tag names")?;
        n.set_tag_name(b);
        ck(n.has_tag_name(b) && n.has_tag_name(a) == (a == b) && n.tag_name().to_string() == b && n.tag_id().is_none(), "renamed")
    }, move |i| format!("{:?} and {:?}", s2[(i / k) as usize], s2[(i % k) as usize])));
    v.push(Suite::new("values", "all pairs of values of all kinds: equal exactly to themselves and their copies", 1, |_, ctx| {
        let mut d = Document::new();
        let (a, b) = (d.create_element(EId::G), d.create_element(EId::G));
        let (l, r) = (values(&a, &b), values(&a, &b));
        for i in 0..l.len() { for j in 0..r.len() {
            ctx.step(2);
            if (l[i] == r[j]) != (i == j) || (l[i].clone() == r[j].clone()) != (i == j) { return Err(format!("values {} {:?} and {} {:?}: wrong equality", i, l[i], j, r[j])); }
            let (x, y) = (Attribute::new(AId::Fill, l[i].clone()), Attribute::new(AId::Fill, r[j].clone()));
            if (x == y) != (i == j) || x.value != l[i] { return Err(format!("attributes with the values {:?} and {:?}: wrong equality", l[i], r[j])); }
            ctx.outcome((i * 1000 + j) as u64);
        } }
        ctx.compared();
        Ok(())
    }, |_| "all pairs of values".to_string()));
    let k = crate::values::dense().len() as u64;
    v.push(Suite::new("value-pairs", &format!("each of {} values of all kinds with all others: equal exactly to itself and its copy", k), k, |i, ctx| {
        let l = crate::values::dense();
        let x = &l[i as usize];
        for (j, y) in l.iter().enumerate() {
            ctx.step(2);
            if (*x == *y) != (i as usize == j) || (*x == y.clone()) != (i as usize == j) || (*y == *x) != (i as usize == j) { return Err(format!("values {} {:?} and {} {:?}: wrong equality", i, x, j, y)); }
            if (Attribute::new("a", x.clone()) == Attribute::new("a", y.clone())) != (i as usize == j) { return Err(format!("attributes with the values {:?} and {:?}: wrong equality", x, y)); }
        }
        ctx.compared();
        ctx.outcome(i);
        Ok(())
    }, |i| format!("{:?}", crate::values::dense()[i as usize])));
    v
}
