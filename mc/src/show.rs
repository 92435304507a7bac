//! C18: Display and Debug of nodes, attribute lists, attributes, names, values and errors.

use std::sync::Arc;
use svgdom::{
    Attribute, AttributeId as AId, AttributeValue as V, Color, Document, PaintFallback, ElementId as EId, Error, Node, NodeType,
    ParserError, QName, ValueWriteOptions,
};

use crate::api::space_suite;
use crate::engine::*;
use crate::model::*;
use crate::names::*;
use crate::ser::value_text;

fn aname(q: &QName<AId>) -> AName {
    match *q { QName::Id(a) => AName::Id(a), QName::Name(ref s) => AName::Name(s.clone()) }
}

fn name_text(n: &AName) -> String {
    match n {
        AName::Id(AId::Href) => "xlink:href".into(),
        AName::Id(AId::Space) => "xml:space".into(),
        AName::Id(a) => a.as_str().into(),
        AName::Name(s) => s.clone(),
    }
}

fn tag_text(t: &Tag) -> String { match t { Tag::Id(e) => e.as_str().into(), Tag::Name(s) => s.clone() } }

/// The attributes of a node as printed, in the order of the list.
fn attrs_text(m: &MDoc, i: Ix, n: &Node) -> Result<String, String> {
    let o = ValueWriteOptions::default();
    let mut v = vec![];
    for a in n.attributes().iter() {
        let name = aname(&a.name);
        let val = m.attr(i, &name).ok_or_else(|| format!("node {}: unexpected attribute {:?}", i, name))?;
        let want = format!("{}='{}'", name_text(&name), value_text(m, val, &o));
        if a.to_string() != want { return Err(format!("node {}: attribute prints as {:?}, expected {:?}", i, a.to_string(), want)); }
        if a.value.to_string() != value_text(m, val, &o) { return Err(format!("node {}: value prints as {:?}", i, a.value.to_string())); }
        if a.name.to_string() != name_text(&name) { return Err(format!("node {}: name prints as {:?}", i, a.name.to_string())); }
        if format!("{:?}{:?}{:?}", a, a.value, a.name).is_empty() { return Err("an empty Debug".into()); }
        v.push(want);
    }
    Ok(v.join(" "))
}

pub fn check_node(m: &MDoc, i: Ix, n: &Node) -> R {
    let w = &m.n[i];
    // the lists may be borrowed while the node is printed
    let list = n.attributes();
    let linked = n.linked_nodes();
    let (disp, dbg) = (format!("{}", n), format!("{:?}", n));
    let at = attrs_text(m, i, n)?;
    if list.to_string() != at { return Err(format!("node {}: attributes print as {:?}, expected {:?}", i, list.to_string(), at)); }
    if format!("{:?}", *list) != format!("Attributes({})", at) { return Err(format!("node {}: Debug of the attributes is {:?}", i, *list)); }
    let mut body = tag_text(&w.tag);
    if !w.id.is_empty() { body.push_str(&format!(" id='{}'", w.id)); }
    if !at.is_empty() { body.push(' '); body.push_str(&at); }
    let (wd, wg) = match w.kind {
        Kind::Root => (String::new(), "Root()".to_string()),
        Kind::Text => (w.text.clone(), format!("Text({})", w.text)),
        Kind::Comment => (format!("<!--{}-->", w.text), format!("Comment({})", w.text)),
        Kind::Elem => {
            // the order of the linked nodes is that of linked_nodes(), their number and ids are the model's
            let mut ids: Vec<String> = m.linked(i).iter().map(|&u| m.n[u].id.clone()).collect();
            let shown: Vec<String> = linked.iter().map(|u| u.id().clone()).collect();
            let mut sorted = shown.clone();
            sorted.sort();
            ids.sort();
            if ids != sorted { return Err(format!("node {}: linked ids {:?}, expected {:?}", i, sorted, ids)); }
            let tail = if shown.is_empty() { String::new() }
                else { format!("; linked-nodes:{}", shown.iter().map(|s| format!(" '{}'", s)).collect::<String>()) };
            (format!("<{}>", body), format!("Element({}{})", body, tail))
        }
    };
    if disp != wd { return Err(format!("node {} prints as {:?}, expected {:?}", i, disp, wd)); }
    if dbg != wg { return Err(format!("Debug of node {} is {:?}, expected {:?}", i, dbg, wg)); }
    Ok(())
}

/// All nodes, twice, with nothing changed; then again without the document.
fn check_all(m: &MDoc, r: Real, ctx: &mut Ctx) -> R {
    for _ in 0..2 {
        for (i, n) in r.h.iter().enumerate() { check_node(m, i, n)?; ctx.step(1); ctx.compared(); }
        compare_full(m, &r).map_err(|e| format!("after printing: {}", e))?;
    }
    let Real { doc, h } = r;
    drop(doc);
    let mut m = m.clone();
    for n in m.n.iter_mut() { if n.owned { n.attrs.clear(); } }
    for (i, n) in h.iter().enumerate() { check_node(&m, i, n).map_err(|e| format!("after the document was dropped: {}", e))?; ctx.step(1); ctx.compared(); }
    Ok(())
}

pub fn c18(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let post = || -> Arc<dyn Fn(&[Op], MDoc, Real, &mut Ctx) -> R + Send + Sync> { Arc::new(|_, m, r, ctx| check_all(&m, r, ctx)) };
    let tree = || vec![Op::CreateElem(2), Op::CreateElem(0), Op::CreateElem(1), Op::CreateElem(3),
         Op::Append(0, 1), Op::Append(1, 2), Op::Append(2, 3), Op::Append(1, 4)];

    // link graphs, with loops of three, removals and copies
    let mut init = tree();
    for &(n, i) in &[(2u8, 1u8), (3, 2), (4, 3)] { init.push(Op::SetId(n, i)); }
    let mut al = vec![];
    for n in 2..=4u8 {
        for t in 2..=4u8 { for &a in &[0u8, 3] { al.push(Op::Link(n, a, t, 6)); } al.push(Op::Link(n, 1, t, 3)); }
        al.push(Op::Remove(n));
        al.push(Op::Unset(n, 0));
    }
    al.push(Op::Copy(2));
    al.push(Op::CopyDeep(2));
    al.push(Op::SetId(2, 0));
    al.push(Op::SetId(3, 4));
    let sp = explore(init, al, tier.pick(4, 6), tier.pick3(2_500, 12_000, 60_000), true, &|m| m.n.len() <= 9);
    v.push(space_suite("graphs", "links between 3 elements, loops of three included, removals, copies, id changes; every node printed", sp, post()));

    // node kinds, tags, texts, ids and plain attributes
    let mut init = tree();
    init.push(Op::CreateText(1));
    init.push(Op::CreateComment(2));
    let mut al = vec![];
    for t in 0..5u8 { al.push(Op::SetTag(2, t)); }
    for t in 0..4u8 { al.push(Op::SetText(5, t)); al.push(Op::SetText(6, t)); }
    for i in 0..5u8 { al.push(Op::SetId(2, i)); al.push(Op::SetId(3, i)); }
    for a in 0..9u8 { for x in [0u8, 1, 3, 6].iter() { al.push(Op::Set(2, a, *x)); } al.push(Op::Unset(2, a)); }
    al.push(Op::Append(2, 5));
    al.push(Op::Append(2, 6));
    al.push(Op::Detach(2));
    al.push(Op::Remove(2));
    let sp = explore(init, al, tier.pick(2, 3), tier.pick3(2_500, 12_000, 60_000), true, &|_| true);
    v.push(space_suite("kinds", "node kinds, tags, ids, texts and attribute lists; every node printed", sp, post()));

    // each attribute name with each kind of value
    v.push(Suite::new("values", "each SVG attribute (and a custom one) with each kind of value", ATTRIBUTES.len() as u64 + 1,
        |i, ctx| values(i as usize, ctx), |i| format!("attribute {}", ATTRIBUTES.get(i as usize).unwrap_or(&"custom"))));
    v.push(Suite::new("tags", "each SVG element name", ELEMENTS.len() as u64, |i, ctx| {
        let name = ELEMENTS[i as usize];
        let e = EId::from_str(name).ok_or("no id")?;
        let mut doc = Document::new();
        let n = doc.create_element(e);
        ctx.step(2); ctx.compared(); ctx.outcome(i);
        if n.to_string() != format!("<{}>", name) || format!("{:?}", n) != format!("Element({})", name) || n.tag_name().to_string() != name {
            return Err(format!("<{}> prints as {} and {:?}", name, n, n));
        }
        Ok(())
    }, |i| ELEMENTS[i as usize].into()));

    // every short string as a text, id, tag, attribute name and value
    let alpha: Vec<char> = vec!['a', ' ', '\'', '"', '<', '&', '{', '}', 'é', '\n', '-', '\u{1F600}'];
    let k = alpha.len() as u64;
    let len = tier.pick(3, 4);
    let total: u64 = (1..=len).map(|l| k.pow(l)).sum();
    let strs = Arc::new((alpha, len));
    let nth = |s: &(Vec<char>, u32), mut i: u64| -> String {
        let k = s.0.len() as u64;
        let mut l = 1;
        while i >= k.pow(l) { i -= k.pow(l); l += 1; }
        (0..l).map(|_| { let c = s.0[(i % k) as usize]; i /= k; c }).collect()
    };
    let (a, b) = (strs.clone(), strs);
    v.push(Suite::new("strings", "every string over a 12 character alphabet as text, comment, id, tag name, attribute name and value", total,
        move |i, ctx| string(&nth(&a, i), ctx), move |i| format!("{:?}", nth(&b, i))));

    let st = Arc::new(crate::text::words().into_iter().chain(crate::text::long_words()).collect::<Vec<_>>());
    let s2 = st.clone();
    v.push(Suite::new("words", "words of special characters as text, comment, id, tag name, attribute name and value", st.len() as u64,
        move |i, ctx| string(&st[i as usize], ctx), move |i| format!("{:?}", s2[i as usize])));
    let list = Arc::new(sizes(tier.pick(80, 300), 1100));
    let (a, b) = (list.clone(), list.clone());
    v.push(Suite::new("scaled", "n attributes, n linked nodes, n characters", list.len() as u64, move |n, ctx| scaled(a[n as usize], ctx), move |n| format!("{}", b[n as usize])));
    let (ne, na) = (ELEMENTS.len() as u64 + 1, ATTRIBUTES.len() as u64 + 1);
    v.push(Suite::new("products", "every element x every attribute, without and with an id, alone and between others, linked and not, in and out of the tree", ne * na,
        move |i, ctx| product(ELEMENTS.get((i / na) as usize).cloned(), ATTRIBUTES.get((i % na) as usize).cloned(), ctx),
        move |i| format!("{:?} with {:?}", ELEMENTS.get((i / na) as usize), ATTRIBUTES.get((i % na) as usize))));
    v.push(Suite::new("links", "every attribute as a link from every kind of link and fallback, between elements of every kind", ne * na,
        move |i, ctx| link(ELEMENTS.get((i / na) as usize).cloned(), ATTRIBUTES.get((i % na) as usize).cloned(), ctx),
        move |i| format!("{:?} with {:?}", ELEMENTS.get((i / na) as usize), ATTRIBUTES.get((i % na) as usize))));
    v.push(Suite::new("errors", "the errors", 6, |i, ctx| errors(i, ctx), |i| format!("error {}", i)));
    v
}

fn values(i: usize, ctx: &mut Ctx) -> R {
    let name = match ATTRIBUTES.get(i) { Some(n) => AName::Id(AId::from_str(n).ok_or("no id")?), None => AName::Name("custom".into()) };
    let o = ValueWriteOptions::default();
    let none = MDoc::new();
    for val in if i % 20 == 0 || i >= ATTRIBUTES.len() { crate::values::dense() } else { crate::values::samples() } {
        let mut doc = Document::new();
        let mut n = doc.create_element(EId::Rect);
        n.set_attribute(mk_attr(&name, val.clone()));
        let mut other = Attribute::new("zz", 1);
        other.value = V::from(2.5);
        n.set_attribute(other);
        ctx.step(4);
        ctx.compared();
        let vt = value_text(&none, &MVal::Plain(val.clone()), &o);
        ctx.outcome(hash_str(&vt));
        let at = format!("{}='{}' zz='2.5'", name_text(&name), vt);
        if n.to_string() != format!("<rect {}>", at) || format!("{:?}", n) != format!("Element(rect {})", at)
            || n.attributes().to_string() != at || format!("{:?}", *n.attributes()) != format!("Attributes({})", at) {
            return Err(format!("expected the attributes {:?}, got {} {:?}", at, n, n));
        }
        if val.to_string() != vt || format!("{:?}", val).is_empty() { return Err(format!("the value {:?} prints as {:?}", vt, val.to_string())); }
        let a = mk_attr(&name, val);
        if a.to_string() != format!("{}='{}'", name_text(&name), vt) { return Err(format!("the attribute prints as {}", a)); }
    }
    Ok(())
}

fn attribute(name: Option<&'static str>) -> AName {
    match name { Some(n) => AName::Id(AId::from_str(n).unwrap()), None => AName::Name("custom".into()) }
}

fn make_elem(doc: &mut Document, name: Option<&str>) -> Node {
    match name { Some(n) => doc.create_element(EId::from_str(n).unwrap()), None => doc.create_element("custom") }
}

fn product(elem: Option<&'static str>, attr: Option<&'static str>, ctx: &mut Ctx) -> R {
    let name = attribute(attr);
    let (et, at) = (elem.unwrap_or("custom"), name_text(&name));
    for k in 0..16 {
        let mut doc = Document::new();
        let mut n = make_elem(&mut doc, elem);
        let mut list = vec![];
        let mut linked = "";
        if k & 1 == 1 { n.set_id("i"); list.push("id='i'".to_string()); }
        if k & 2 == 2 { n.set_attribute(("zz", 1)); list.push("zz='1'".to_string()); }
        n.set_attribute(mk_attr(&name, V::String("v".into())));
        list.push(format!("{}='v'", at));
        if k & 2 == 2 { n.set_attribute(("a", "")); list.push("a=''".to_string()); }
        if k & 4 == 4 { doc.root().append(n.clone()); let c = doc.create_node(NodeType::Text, "c"); n.append(c); }
        if k & 8 == 8 {
            n.set_id("i");
            if k & 1 == 0 { list.insert(0, "id='i'".into()); }
            let mut u = doc.create_element(EId::G);
            u.set_attribute((AId::Mask, n.clone()));
            linked = "; linked-nodes: ''";
        }
        ctx.step(2);
        ctx.compared();
        let all = list.join(" ");
        if n.to_string() != format!("<{} {}>", et, all) || format!("{:?}", n) != format!("Element({} {}{})", et, all, linked) {
            return Err(format!("prints as {} and {:?}, expected <{} {}> with linked nodes {:?}", n, n, et, all, linked));
        }
    }
    ctx.outcome(hash_str(&format!("{} {}", et, at)));
    Ok(())
}

fn link(elem: Option<&'static str>, attr: Option<&'static str>, ctx: &mut Ctx) -> R {
    let name = attribute(attr);
    let (et, at) = (elem.unwrap_or("custom"), name_text(&name));
    let fbs = [(None, ""), (Some(PaintFallback::None), " none"), (Some(PaintFallback::CurrentColor), " currentColor"),
        (Some(PaintFallback::Color(Color::new(17, 34, 51))), " #112233"), (Some(PaintFallback::Color(Color::new(0, 0, 0))), " #000000")];
    for k in 0..7usize {
        let mut doc = Document::new();
        let (mut t, mut u) = (make_elem(&mut doc, elem), make_elem(&mut doc, elem));
        t.set_id("t");
        let (val, fb) = match k {
            0 => (V::Link(t.clone()), ""),
            1 => (V::FuncLink(t.clone()), ""),
            k => (V::Paint(t.clone(), fbs[k - 2].0), fbs[k - 2].1),
        };
        let text = match name {
            AName::Id(AId::Href) => "#t".to_string(),
            AName::Id(AId::Fill) | AName::Id(AId::Stroke) => format!("url(#t){}", fb),
            _ => "url(#t)".to_string(),
        };
        u.set_attribute(mk_attr(&name, val));
        u.set_id("user");
        ctx.step(3);
        ctx.compared();
        let want = format!("<{} id='user' {}='{}'>", et, at, text);
        let got = u.attributes().iter().next().ok_or("no attribute")?.value.to_string();
        if u.to_string() != want || got != text || format!("{:?}", t) != format!("Element({} id='t'; linked-nodes: 'user')", et) || t.to_string() != format!("<{} id='t'>", et) {
            return Err(format!("prints as {} and {:?}, expected {}", u, t, want));
        }
    }
    ctx.outcome(hash_str(&format!("{} {}", et, at)));
    Ok(())
}

fn string(s: &str, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    ctx.step(8);
    ctx.compared();
    ctx.outcome(hash_str(s));
    let t = doc.create_node(NodeType::Text, s);
    let c = doc.create_node(NodeType::Comment, s);
    let mut want = vec![(t.to_string(), s.to_string()), (format!("{:?}", t), format!("Text({})", s)),
        (c.to_string(), format!("<!--{}-->", s)), (format!("{:?}", c), format!("Comment({})", s))];
    let mut e = doc.create_element(s);
    want.push((e.to_string(), format!("<{}>", s)));
    want.push((format!("{:?}", e), format!("Element({})", s)));
    e.set_id(s);
    want.push((e.to_string(), format!("<{} id='{}'>", s, s)));
    e.set_attribute((s, s));
    e.set_attribute((AId::Unicode, s));
    want.push((e.to_string(), format!("<{} id='{}' {}='{}' unicode='{}'>", s, s, s, s, s)));
    let mut g = doc.create_element(EId::G);
    g.set_attribute((AId::Fill, e.clone()));
    g.set_attribute((AId::Href, e.clone()));
    g.set_attribute((AId::Mask, e.clone()));
    want.push((g.to_string(), format!("<g fill='url(#{})' xlink:href='#{}' mask='url(#{})'>", s, s, s)));
    want.push((format!("{:?}", e), format!("Element({} id='{}' {}='{}' unicode='{}'; linked-nodes: '' '' '')", s, s, s, s, s)));
    g.set_id("u");
    want.push((format!("{:?}", e), format!("Element({} id='{}' {}='{}' unicode='{}'; linked-nodes: 'u' 'u' 'u')", s, s, s, s, s)));
    for (got, want) in want { if got != want { return Err(format!("prints as {:?}, expected {:?}", got, want)); } }
    Ok(())
}

fn scaled(n: usize, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut t = doc.create_element(EId::LinearGradient);
    t.set_id("t");
    let mut want = String::new();
    for i in 0..n {
        let name = format!("attr-{}", i);
        t.set_attribute((name.as_str(), i as i32));
        want.push_str(&format!(" {}='{}'", name, i));
    }
    for i in 0..n {
        let mut u = doc.create_element(EId::Rect);
        u.set_id(format!("u{}", i));
        u.set_attribute((AId::Fill, t.clone()));
    }
    let long: String = "x'é".repeat(n);
    let text = doc.create_node(NodeType::Text, long.as_str());
    ctx.step(4);
    ctx.compared();
    ctx.outcome(n as u64);
    if t.to_string() != format!("<linearGradient id='t'{}>", want) { return Err(format!("{} attributes print as {}", n, t)); }
    let dbg = format!("{:?}", t);
    let head = format!("Element(linearGradient id='t'{}; linked-nodes: '", want);
    if !dbg.starts_with(&head) || !dbg.ends_with("')") { return Err(format!("{} linked nodes print as {}", n, dbg)); }
    let mut ids: Vec<String> = dbg[head.len()..dbg.len() - 2].split("' '").map(|s| s.to_string()).collect();
    let mut all: Vec<String> = (0..n).map(|i| format!("u{}", i)).collect();
    ids.sort();
    all.sort();
    if ids != all { return Err(format!("{} linked nodes print as {}", n, dbg)); }
    // without an id and without users
    for k in 0..4 {
        let mut e = if k & 1 == 0 { doc.create_element(EId::Rect) } else { doc.create_element("c") };
        let mut all = String::new();
        for i in 0..n {
            let id = if k & 2 == 2 { ATTRIBUTES.get(i).and_then(|a| AId::from_str(a)) } else { None };
            match id {
                Some(a) => { e.set_attribute((a, i as i32)); all.push_str(&format!(" {}='{}'", name_text(&AName::Id(a)), i)); }
                None => { e.set_attribute((format!("a{}", i).as_str(), i as i32)); all.push_str(&format!(" a{}='{}'", i, i)); }
            }
        }
        let tag = if k & 1 == 0 { "rect" } else { "c" };
        ctx.step(2);
        if e.to_string() != format!("<{}{}>", tag, all) || format!("{:?}", e) != format!("Element({}{})", tag, all) { return Err(format!("{} attributes print as {} and {:?}", n, e, e)); }
        if e.attributes().to_string() != all.trim_start() { return Err(format!("a list of {} attributes prints as {}", n, *e.attributes())); }
    }
    if text.to_string() != long { return Err("a long text is printed differently".into()); }
    Ok(())
}

fn errors(i: u64, ctx: &mut Ctx) -> R {
    ctx.step(1);
    ctx.compared();
    ctx.outcome(i);
    let parse = |s: &str| -> Result<ParserError, String> { match Document::from_str(s) { Ok(_) => Err("accepted".into()), Err(e) => Ok(e) } };
    let (got, want) = match i {
        0 => (Error::ElementMustHaveAnId.to_string(), "the element must have an id".to_string()),
        1 => (Error::ElementCrosslink.to_string(), "element crosslink".to_string()),
        2 => (parse("<g xmlns='http://www.w3.org/2000/svg'/>")?.to_string(), "the document does not have an SVG element".to_string()),
        3 => (parse("<q/>")?.to_string(), "the document does not have an SVG element".to_string()),
        4 => (parse("<svg")?.to_string(), roxmltree::Document::parse("<svg").err().unwrap().to_string()),
        _ => (ParserError::from(Error::ElementCrosslink).to_string(), "element crosslink".to_string()),
    };
    if got != want { return Err(format!("the error prints as {:?}, expected {:?}", got, want)); }
    for e in [Error::ElementMustHaveAnId, Error::ElementCrosslink].iter() { if format!("{:?}", e).is_empty() { return Err("empty Debug".into()); } }
    Ok(())
}
