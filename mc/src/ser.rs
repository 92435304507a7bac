//! C14: what is written, against a serializer written from the documentation.

use svgdom::{
    AttributeId as AId, AttributeValue as V, Color, Document, ElementId as EId, Indent, NodeType, PaintFallback,
    QName, ValueWriteOptions, WriteBuffer, WriteOptions,
};

use crate::engine::*;
use crate::model::*;
use crate::names::*;
use crate::opts;
use crate::refparse::aid;

/// Builds the real document: nodes, ids, tree, attributes in order.
pub fn build(m: &MDoc) -> Document {
    let mut doc = Document::new();
    let mut h = vec![doc.root()];
    for n in &m.n[1..] {
        let mut x = match (n.kind, &n.tag) {
            (Kind::Elem, Tag::Id(e)) => doc.create_element(*e),
            (Kind::Elem, Tag::Name(s)) => doc.create_element(s.as_str()),
            (Kind::Text, _) => doc.create_node(NodeType::Text, &n.text),
            _ => doc.create_node(NodeType::Comment, &n.text),
        };
        if !n.id.is_empty() { x.set_id(n.id.clone()); }
        h.push(x);
    }
    for (i, n) in m.n.iter().enumerate() {
        for &k in &n.kids { let c = h[k].clone(); h[i].append(c); }
    }
    for (i, n) in m.n.iter().enumerate() {
        for (name, v) in &n.attrs {
            let v = match v {
                MVal::Plain(v) => v.clone(),
                MVal::Link(t) => V::Link(h[*t].clone()),
                MVal::Func(t) => V::FuncLink(h[*t].clone()),
                MVal::Paint(t, f) => V::Paint(h[*t].clone(), *f),
            };
            h[i].set_attribute(mk_attr(name, v));
        }
    }
    doc
}

/// The text of a value.
pub fn value_text(m: &MDoc, v: &MVal, o: &ValueWriteOptions) -> String {
    let color = |c: &Color| {
        let (r, g, b) = (c.red, c.green, c.blue);
        let short = |x: u8| x / 16 == x % 16;
        if o.trim_hex_colors && short(r) && short(g) && short(b) { format!("#{:x}{:x}{:x}", r % 16, g % 16, b % 16) }
        else { format!("#{:02x}{:02x}{:02x}", r, g, b) }
    };
    match v {
        MVal::Link(t) => format!("#{}", m.n[*t].id),
        MVal::Func(t) => format!("url(#{})", m.n[*t].id),
        MVal::Paint(t, f) => format!("url(#{}){}", m.n[*t].id, match f {
            None => String::new(),
            Some(PaintFallback::None) => " none".into(),
            Some(PaintFallback::CurrentColor) => " currentColor".into(),
            Some(PaintFallback::Color(c)) => format!(" {}", color(c)),
        }),
        MVal::Plain(v) => match v {
            V::None => "none".into(),
            V::Inherit => "inherit".into(),
            V::CurrentColor => "currentColor".into(),
            V::String(s) => s.clone(),
            V::Color(c) => color(c),
            V::AspectRatio(x) => x.with_write_opt(o).to_string(),
            V::Length(x) => x.with_write_opt(o).to_string(),
            V::LengthList(x) => x.with_write_opt(o).to_string(),
            V::Angle(x) => x.with_write_opt(o).to_string(),
            V::Number(x) => x.with_write_opt(o).to_string(),
            V::NumberList(x) => x.with_write_opt(o).to_string(),
            V::Path(x) => x.with_write_opt(o).to_string(),
            V::Points(x) => x.with_write_opt(o).to_string(),
            V::Transform(x) => x.with_write_opt(o).to_string(),
            V::ViewBox(x) => x.with_write_opt(o).to_string(),
            V::Link(_) | V::FuncLink(_) | V::Paint(..) => unreachable!(),
        }
    }
}

fn attr_name(n: &AName) -> String {
    match n {
        AName::Id(AId::Href) => "xlink:href".into(),
        AName::Id(AId::Space) => "xml:space".into(),
        AName::Id(a) => a.as_str().into(),
        AName::Name(s) => s.clone(),
    }
}

/// The attributes of an element as (name, raw value), in the documented order.
fn attr_list(m: &MDoc, i: Ix, o: &WriteOptions) -> Vec<(String, String)> {
    let n = &m.n[i];
    let mut v: Vec<(String, String)> = vec![];
    if n.tag == Tag::Id(EId::Svg) && n.parent == Some(0) {
        v.push(("xmlns".into(), "http://www.w3.org/2000/svg".into()));
        if m.preorder(i).iter().any(|&d| m.attr(d, &AName::Id(AId::Href)).is_some()) {
            v.push(("xmlns:xlink".into(), "http://www.w3.org/1999/xlink".into()));
        }
    }
    if !n.id.is_empty() { v.push(("id".into(), n.id.clone())); }
    let mut svg: Vec<&(AName, MVal)> = n.attrs.iter().filter(|a| matches!(a.0, AName::Id(_))).collect();
    // alphabetical by name
    svg.sort_by_key(|a| match a.0 { AName::Id(a) => ATTRIBUTES.iter().position(|x| *x == a.as_str()), _ => None });
    for a in svg.into_iter().chain(n.attrs.iter().filter(|a| matches!(a.0, AName::Name(_)))) {
        v.push((attr_name(&a.0), value_text(m, &a.1, &o.values)));
    }
    v
}

fn esc(name: &str, s: &str, o: &WriteOptions) -> String {
    if name == "unicode" { return s.chars().map(|c| format!("&#x{:x};", c as u32)).collect(); }
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '"' if !o.use_single_quote => out.push_str("&quot;"),
            '\'' if o.use_single_quote => out.push_str("&apos;"),
            '\t' => out.push_str("&#x9;"),
            '\n' => out.push_str("&#xa;"),
            '\r' => out.push_str("&#xd;"),
            c => out.push(c),
        }
    }
    out
}

fn pad(i: Indent, n: usize) -> String {
    match i { Indent::None => String::new(), Indent::Spaces(k) => " ".repeat(k as usize * n), Indent::Tabs => "\t".repeat(n) }
}

/// The written document.  Texts must not need escapes.
pub fn render(m: &MDoc, o: &WriteOptions) -> String {
    let mut s = String::new();
    let lines = o.indent != Indent::None;
    for &k in &m.n[0].kids { node(m, k, o, 0, false, lines, &mut s); }
    if lines { s.push('\n'); }
    s
}

fn node(m: &MDoc, i: Ix, o: &WriteOptions, depth: usize, in_text: bool, lines: bool, s: &mut String) {
    let n = &m.n[i];
    if !in_text {
        if lines && !s.is_empty() { s.push('\n'); }
        s.push_str(&pad(o.indent, depth));
    }
    match n.kind {
        Kind::Comment => { s.push_str(&format!("<!--{}-->", n.text)); return; }
        Kind::Text => { s.push_str(&n.text.replace('<', "&lt;")); return; }
        _ => {}
    }
    let tag = match n.tag { Tag::Id(e) => e.as_str().to_string(), Tag::Name(ref t) => t.clone() };
    s.push('<');
    s.push_str(&tag);
    let q = if o.use_single_quote { '\'' } else { '"' };
    for (name, v) in attr_list(m, i, o) {
        if o.attributes_indent == Indent::None { s.push(' '); } else {
            s.push('\n');
            if !in_text { s.push_str(&pad(o.indent, depth)); s.push_str(&pad(o.attributes_indent, 1)); }
        }
        s.push_str(&format!("{}={}{}{}", name, q, esc(&name, &v, o), q));
    }
    if n.kids.is_empty() { s.push_str("/>"); return; }
    s.push('>');
    let inside = in_text || n.tag == Tag::Id(EId::Text);
    for &k in &n.kids { node(m, k, o, depth + 1, inside, lines, s); }
    if !inside { if lines { s.push('\n'); } s.push_str(&pad(o.indent, depth)); }
    s.push_str(&format!("</{}>", tag));
}

/// Every `&` starts a reference and no `<` is inside of a quoted value.
fn strict(s: &str) -> R {
    // not in comments
    let mut bare = String::new();
    let mut rest = s;
    while let Some(p) = rest.find("<!--") {
        bare.push_str(&rest[..p]);
        rest = rest[p + 4..].split_once("-->").ok_or("a comment that does not end")?.1;
    }
    bare.push_str(rest);
    let mut rest = &bare[..];
    while let Some(p) = rest.find('&') {
        rest = &rest[p + 1..];
        let end = rest.find(';').ok_or("an ampersand that is no reference")?;
        let body = &rest[..end];
        let ok = ["amp", "lt", "gt", "quot", "apos"].contains(&body)
            || body.strip_prefix("#x").map_or(false, |h| u32::from_str_radix(h, 16).is_ok())
            || body.strip_prefix('#').map_or(false, |h| h.parse::<u32>().is_ok());
        if !ok { return Err(format!("&{}; is no reference", body)); }
    }
    Ok(())
}

/// What a parser reads is exactly the model; white space outside of text elements is layout.
fn read_back(m: &MDoc, text: &str, o: &WriteOptions) -> R {
    strict(text)?;
    let x = roxmltree::Document::parse(text).map_err(|e| format!("not well-formed: {}", e))?;
    fn rec(m: &MDoc, i: Ix, x: roxmltree::Node, in_text: bool, o: &WriteOptions) -> R {
        let kids: Vec<_> = x.children().filter(|c| in_text || !c.is_text() || !c.text().unwrap_or("").trim().is_empty()).collect();
        if kids.len() != m.n[i].kids.len() { return Err(format!("an element with {} children reads back with {}", m.n[i].kids.len(), kids.len())); }
        for (&k, c) in m.n[i].kids.iter().zip(kids) {
            let n = &m.n[k];
            match n.kind {
                Kind::Text => {
                    let t = if in_text { c.text().unwrap_or("").to_string() } else { c.text().unwrap_or("").trim().to_string() };
                    if !c.is_text() || t != n.text { return Err(format!("the text {:?} reads back as {:?}", n.text, t)); }
                }
                Kind::Comment => if !c.is_comment() || c.text() != Some(&n.text) { return Err(format!("the comment {:?} reads back as {:?}", n.text, c.text())); },
                _ => {
                    let tag = match n.tag { Tag::Id(e) => e.as_str().to_string(), Tag::Name(ref t) => t.clone() };
                    if !c.is_element() || c.tag_name().name() != tag { return Err(format!("<{}> reads back as {:?}", tag, c)); }
                    let want: Vec<(String, String)> = attr_list(m, k, o).into_iter().filter(|a| !a.0.starts_with("xmlns")).collect();
                    let got: Vec<(String, String)> = c.attributes().iter().map(|a| {
                        let p = match a.namespace() { Some("http://www.w3.org/1999/xlink") => "xlink:", Some("http://www.w3.org/XML/1998/namespace") => "xml:", _ => "" };
                        (format!("{}{}", p, a.name()), a.value().to_string())
                    }).collect();
                    if want != got { return Err(format!("attributes {:?} read back as {:?}", want, got)); }
                    rec(m, k, c, in_text || tag == "text", o)?;
                }
            }
        }
        Ok(())
    }
    rec(m, 0, x.root(), false, o)
}

/// Exact text; and, for documents with one svg element on top, what a parser reads.
fn check(m: &MDoc, list: &[WriteOptions], exact: bool, ctx: &mut Ctx) -> R {
    let d = build(m);
    for o in list {
        let got = d.to_string_with_opt(o);
        ctx.step(1);
        ctx.compared();
        ctx.outcome(hash_str(&got));
        if exact {
            let want = render(m, o);
            if got != want { return Err(format!("written with {}: {:?}, expected {:?}", opts::show(o), got, want)); }
        }
        let tops: Vec<Ix> = m.n[0].kids.iter().cloned().filter(|&k| m.n[k].kind == Kind::Elem).collect();
        if tops.len() == 1 && m.n[tops[0]].tag == Tag::Id(EId::Svg) && one_text(m) {
            read_back(m, &got, o).map_err(|e| format!("written with {}: {:?}: {}", opts::show(o), got, e))?;
        }
    }
    // writing changes nothing
    compare_doc(m, &d, &plain_eq)
}

/// No two texts side by side (they read back as one).
fn one_text(m: &MDoc) -> bool {
    m.n.iter().all(|n| n.kids.windows(2).all(|w| m.n[w[0]].kind != Kind::Text || m.n[w[1]].kind != Kind::Text))
}

fn show(m: &MDoc) -> String { format!("the tree {}", render(m, &opts::make(2, 0))) }

fn suite<G>(name: &str, about: &str, count: u64, exact: bool, g: G) -> Suite
    where G: Fn(u64) -> (MDoc, Vec<WriteOptions>) + Send + Sync + 'static
{
    let g: &'static G = Box::leak(Box::new(g));
    Suite::new(name, about, count, move |i, ctx| { let (m, o) = g(i); check(&m, &o, exact, ctx) },
        move |i| { let (m, o) = g(i); if o.len() == 1 { format!("{} with {}", show(&m), opts::show(&o[0])) } else { show(&m) } })
}

fn tag(m: &mut MDoc, e: EId) -> Ix { m.elem(e) }

fn plain(s: &str) -> MVal { MVal::Plain(V::String(s.into())) }

const KINDS: usize = 7;
const INNER: usize = 5;

fn kind_node(m: &mut MDoc, k: usize) -> Ix {
    match k {
        0 => tag(m, EId::G),
        1 => tag(m, EId::Text),
        2 => tag(m, EId::Svg),
        3 => tag(m, EId::Tspan),
        4 => m.create(Kind::Elem, Tag::Name("custom".into()), ""),
        5 => m.create(Kind::Text, Tag::Name(String::new()), "t"),
        _ => m.create(Kind::Comment, Tag::Name(String::new()), "c"),
    }
}

/// All trees: (shape, kinds); `top`: below an svg element, otherwise below the root.
fn trees(n: usize, kinds: &[usize], top: bool) -> Vec<(Vec<Option<usize>>, Vec<usize>)> {
    let mut list = vec![];
    for size in 0..=n {
        for shape in crate::trees::forests(size) {
            let inner: Vec<bool> = (0..size).map(|i| shape.contains(&Some(i))).collect();
            let mut k = vec![0usize; size];
            'all: loop {
                let ks: Vec<usize> = k.iter().map(|&x| kinds[x]).collect();
                if (0..size).all(|i| (!inner[i] || ks[i] < INNER) && (!top || shape[i].is_some() || ks[i] != 5)) { list.push((shape.clone(), ks)); }
                let mut p = 0;
                loop {
                    if p == size { break 'all; }
                    k[p] += 1;
                    if k[p] < kinds.len() { break; }
                    k[p] = 0;
                    p += 1;
                }
            }
        }
    }
    list
}

fn make_tree(t: &(Vec<Option<usize>>, Vec<usize>), top: bool) -> MDoc {
    let mut m = MDoc::new();
    let base = if top { 0 } else { let s = tag(&mut m, EId::Svg); m.append(0, s); s };
    let mut ix = vec![];
    for (k, p) in t.1.iter().zip(&t.0) {
        let n = kind_node(&mut m, *k);
        m.append(p.map_or(base, |p| ix[p]), n);
        ix.push(n);
    }
    m
}

/// A document with an svg and three elements to link to.
fn base() -> (MDoc, Ix) {
    let mut m = MDoc::new();
    let s = tag(&mut m, EId::Svg);
    m.append(0, s);
    let t = tag(&mut m, EId::LinearGradient);
    m.n[t].id = "lg".into();
    m.append(s, t);
    let g = tag(&mut m, EId::G);
    m.append(s, g);
    (m, g)
}

/// Values: the samples, then links.
fn value_count() -> u64 { crate::values::samples().len() as u64 + 7 }
fn value(m: &MDoc, name: &AName, k: u64) -> MVal {
    let s = crate::values::samples();
    if (k as usize) < s.len() { return MVal::Plain(s[k as usize].clone()); }
    let t = m.n.iter().position(|n| n.id == "lg").unwrap();
    let fb = [None, Some(PaintFallback::None), Some(PaintFallback::CurrentColor), Some(PaintFallback::Color(Color::new(0x11, 0x22, 0x33))),
        Some(PaintFallback::Color(Color::new(0x11, 0x22, 0x34))), Some(PaintFallback::Color(Color::new(0, 0, 0))), Some(PaintFallback::Color(Color::new(0xff, 0xf0, 0x0f)))];
    MDoc::link_value(name, t, fb[k as usize - s.len()])
}

fn writable(n: &AName, v: &MVal) -> bool {
    *n != AName::Id(AId::Unicode) || matches!(v, MVal::Plain(V::String(_)))
}

fn svg_names() -> Vec<AName> {
    ATTRIBUTES.iter().filter(|a| !["xmlns", "xlink", "id"].contains(a)).map(|a| AName::Id(aid(a))).collect()
}

/// Names of custom attributes, many of them like names that mean something.
const CUSTOM: [&str; 27] = ["on", "onclick", "onfoo", "Xml", "xml:lang", "xml:space", "href", "style", "class", "a", "x-", "_", "\u{e9}", "data-",
    "x.y", "fill", "Fill", "FILL", "version", "stroke-", "d", "points", "transform", "x", "width", "viewBox", "space"];

pub fn c14(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    // layout
    let all: Vec<usize> = (0..KINDS).collect();
    let lay = opts::LAYOUTS;
    let l = trees(tier.pick(4, 5), &all, false);
    let n = l.len() as u64;
    v.push(suite("layout", &format!("all {} trees of up to {} nodes (g, text, svg, tspan, custom, text nodes, comments) below an svg element x all layouts{}", n, tier.pick(4, 5), tier.pick3("", " (an eighth of them in turn for each tree)", "")),
        n, true, move |i| (make_tree(&l[i as usize], false), (0..lay).filter(|k| tier != Tier::Thorough || (k + i) % 8 == 0).map(|k| opts::make(k, 0)).collect())));
    let l = trees(tier.pick(3, 4), &all, false);
    let n = l.len() as u64;
    v.push(suite("all-layouts", &format!("all {} trees of up to {} nodes x all layouts", n, tier.pick(3, 4)), n, true, move |i| (make_tree(&l[i as usize], false), (0..lay).map(|k| opts::make(k, 0)).collect())));
    let l = trees(tier.pick(4, 5), &[0, 1, 2, 4, 5, 6], true);
    let n = l.len() as u64;
    v.push(suite("top", "all trees below the root (several elements, comments before and after) x all layouts", n, true,
        move |i| (make_tree(&l[i as usize], true), (0..lay).map(|k| opts::make(k, 0)).collect())));
    // attributes on every node
    let l = trees(tier.pick(3, 4), &[0, 1, 2, 3, 6], true);
    let n = l.len() as u64;
    v.push(suite("attributes", "all trees with ids, SVG and custom attributes on every element x all layouts", n * 3, true, move |i| {
        let mut m = make_tree(&l[(i / 3) as usize], true);
        for k in 1..m.n.len() {
            if m.n[k].kind != Kind::Elem { continue; }
            if i % 3 != 1 { m.n[k].id = format!("i{}", k); }
            if i % 3 != 0 {
                m.put(k, AName::Name("b".into()), plain("2"));
                m.put(k, AName::Id(AId::Y), plain("3"));
                m.put(k, AName::Name("a".into()), plain("1"));
                m.put(k, AName::Id(AId::Fill), MVal::Plain(V::None));
            }
        }
        (m, (0..lay).map(|k| opts::make(k, 0)).collect())
    }));
    // xlink
    let size = tier.pick(4usize, 5);
    let l = trees(size, &[0, 1, 2, 4], true);
    let per = 1u64 << size;
    let n = l.len() as u64 * per;
    v.push(suite("xlink", "all trees x all sets of elements that have a href (also as a custom attribute): namespace declarations", n * 2, true, move |i| {
        let mut m = make_tree(&l[(i / per / 2) as usize], true);
        for k in 1..m.n.len() {
            if i % per >> (k - 1) & 1 == 1 {
                let name = if i / per % 2 == 0 { AName::Id(AId::Href) } else { AName::Name("href".into()) };
                m.put(k, name, plain("u"));
            }
        }
        let few = opts::few();
        (m, vec![few.into_iter().nth((i % 5) as usize).unwrap()])
    }));
    // every attribute and value
    let names = svg_names();
    let (nn, nv) = (names.len() as u64 + 2 + CUSTOM.len() as u64, value_count());
    let all_names: Vec<AName> = names.iter().cloned().chain([AName::Name("custom".into()), AName::Name("data-x".into())])
        .chain(CUSTOM.iter().map(|s| AName::Name(s.to_string()))).collect();
    let a2 = all_names.clone();
    v.push(suite("values", "every attribute x every kind of value (links, paints and fallbacks included)", nn * nv, true, move |i| {
        let (mut m, g) = base();
        let name = all_names[(i % nn) as usize].clone();
        let val = value(&m, &name, i / nn);
        if writable(&name, &val) { m.put(g, name, val); }
        (m, opts::few())
    }));
    v.push(suite("value-options", "every kind of value x all value options", nv * opts::VALUES, true, move |i| {
        let (mut m, g) = base();
        for name in [AName::Id(AId::Fill), AName::Id(AId::Stroke), AName::Id(AId::Filter), AName::Id(AId::Href), AName::Name("x".into())] {
            let val = value(&m, &name, i % nv);
            m.put(g, name, val);
        }
        (m, vec![opts::make(i % lay, i / nv)])
    }));
    let nd = crate::values::dense().len() as u64;
    v.push(suite("many-values", "many values of every kind x value options", nd * 64, true, move |i| {
        let (mut m, g) = base();
        for name in [AName::Id(AId::Filter), AName::Id(AId::X), AName::Name("xx".into())] { m.put(g, name, MVal::Plain(crate::values::dense_at(i % nd))); }
        (m, vec![opts::make(i % lay, i / nd * 6 + i % 6)])
    }));
    let comps: Vec<u8> = tier.pick(vec![0, 1, 0x10, 0x11, 0x7f, 0xaa, 0xab, 0xff], (0..=255).step_by(15).map(|x| x as u8).collect());
    let k = comps.len() as u64;
    v.push(suite("colors", "colors of all components of a list, as a value and behind a link, x some value options", k * k * k, true, move |i| {
        let (mut m, g) = base();
        let c = Color::new(comps[(i % k) as usize], comps[(i / k % k) as usize], comps[(i / k / k) as usize]);
        let t = m.n.iter().position(|n| n.id == "lg").unwrap();
        m.put(g, AName::Id(AId::Color), MVal::Plain(V::Color(c)));
        m.put(g, AName::Id(AId::Fill), MVal::Paint(t, Some(PaintFallback::Color(c))));
        m.put(g, AName::Name("c".into()), MVal::Plain(V::Color(c)));
        (m, (0..opts::VALUES).step_by(7).map(|v| opts::make(0, v)).collect())
    }));
    // order
    let k = a2.len() as u64;
    let a3: Vec<AName> = a2[..a2.len() - CUSTOM.len()].to_vec();
    let k3 = a3.len() as u64;
    v.push(suite("pairs", "every two attributes in both orders between custom ones", k * k, true, move |i| {
        let (mut m, g) = base();
        m.put(g, AName::Name("zz".into()), plain("1"));
        m.put(g, a2[(i % k) as usize].clone(), plain("2"));
        m.put(g, AName::Name("aa".into()), plain("3"));
        // the same spelling twice is no document
        if attr_name(&a2[(i % k) as usize]) != attr_name(&a2[(i / k) as usize]) { m.put(g, a2[(i / k) as usize].clone(), plain("4")); }
        let few = opts::few();
        (m, vec![few.into_iter().nth((i % 5) as usize).unwrap()])
    }));
    v.push(suite("many", "the first n attributes in reverse, in order and interleaved", k3 * 3, true, move |i| {
        let (mut m, g) = base();
        let n = (i / 3) as usize;
        let mut idx: Vec<usize> = (0..n).collect();
        match i % 3 { 0 => idx.reverse(), 1 => {}, _ => { let (a, b): (Vec<usize>, Vec<usize>) = idx.iter().partition(|x| *x % 2 == 0); idx = b.into_iter().chain(a).collect(); } }
        for x in idx { m.put(g, a3[x].clone(), plain(&format!("v{}", x))); }
        m.n[g].id = "last".into();
        (m, opts::few())
    }));
    // attributes come and go; what is left is written in the order it was added
    let n_ops = 12u64;
    let len = tier.pick(5u32, 6);
    let count: u64 = (1..=len).map(|l| n_ops.pow(l)).sum();
    let decode = move |mut i: u64| -> Vec<(usize, bool)> {
        let mut l = 1;
        while i >= n_ops.pow(l) { i -= n_ops.pow(l); l += 1; }
        (0..l).map(|_| { let x = (i % n_ops) as usize; i /= n_ops; (x / 2, x % 2 == 0) }).collect()
    };
    let hist = [AName::Name("b".into()), AName::Name("a".into()), AName::Name("c".into()), AName::Id(AId::Y), AName::Id(AId::Fill), AName::Id(AId::Href)];
    let h2 = hist.clone();
    v.push(Suite::new("attribute-histories", &format!("all sequences of up to {} additions and removals over 3 custom and 3 SVG attributes, then written", len), count, move |i, ctx| {
        let mut m = MDoc::new();
        let s = m.elem(EId::Svg);
        m.append(0, s);
        let mut d = Document::new();
        let mut e = d.create_element(EId::Svg);
        d.root().append(e.clone());
        for (k, add) in decode(i) {
            let name = &hist[k];
            if add {
                if m.attr(s, name).is_none() { m.put(s, name.clone(), plain("v")); }
                e.set_attribute_if_none(mk_attr(name, V::String("v".into())));
            } else {
                m.remove_attr(s, name);
                rm_attr(&mut e, name);
            }
        }
        let few = opts::few();
        let o = &few[i as usize % few.len()];
        let (got, want) = (d.to_string_with_opt(o), render(&m, o));
        ctx.step(2);
        ctx.compared();
        ctx.outcome(hash_str(&got));
        if got != want { return Err(format!("written with {}: {:?}, expected {:?}", opts::show(o), got, want)); }
        Ok(())
    }, move |i| decode(i).iter().map(|(k, add)| format!("{} {:?}", if *add { "add" } else { "remove" }, h2[*k])).collect::<Vec<_>>().join(", ")));
    // escapes
    let st = crate::text::strings(&['a', '&', '<', '>', '"', '\'', '\n', '\t', '\r', ';', '#', '\u{e9}', '\u{1f600}', ' '], tier.pick(3, 4));
    let st: Vec<String> = st.into_iter().chain(crate::text::xml_words()).collect();
    let n = st.len() as u64;
    v.push(suite("escapes", "every string of special characters as id, SVG, custom and unicode attribute, link target and element text", n, true, move |i| {
        let (mut m, g) = base();
        let s = &st[i as usize];
        if !s.is_empty() { m.n[2].id = s.clone(); }
        m.put(g, AName::Id(AId::FontFamily), plain(s));
        m.put(g, AName::Name("custom".into()), plain(s));
        if !s.starts_with("&#") { m.put(g, AName::Id(AId::Unicode), plain(s)); }
        m.put(g, AName::Id(AId::Href), MVal::Link(2));
        m.put(g, AName::Id(AId::Fill), MVal::Paint(2, None));
        m.put(g, AName::Id(AId::Mask), MVal::Func(2));
        (m, vec![opts::make(0, 0), opts::make(1, 0), opts::make(18, 0)])
    }));
    let st: Vec<String> = crate::text::strings(&['a', '<', '>', '"', '\'', '\n', ';', ']', '\u{e9}', ' '], tier.pick(4, 5)).into_iter()
        // an ampersand in a text: see `ampersand`
        .chain(crate::text::xml_words().into_iter().filter(|s| !s.contains(&['&', '\r'][..]))).filter(|s| !s.is_empty()).collect();
    let n = st.len() as u64;
    v.push(suite("text-escapes", "every string of special characters as the text of a text element", n, false, move |i| {
        let (mut m, g) = base();
        m.n[g].tag = Tag::Id(EId::Text);
        let t = m.create(Kind::Text, Tag::Name(String::new()), &st[i as usize]);
        m.append(g, t);
        (m, vec![opts::make(0, 0), opts::make(1, 0)])
    }));
    // comments are written as they are
    let st: Vec<String> = crate::text::strings(&['a', '<', '>', '&', '"', '\n', '\t', ' ', '!', '\u{e9}', '-'], tier.pick(3, 4)).into_iter().chain(crate::text::xml_words().into_iter().filter(|s| !s.contains('\r')))
        .filter(|s| !s.contains("--") && !s.ends_with('-') && !s.starts_with('>') && !s.starts_with("->")).collect();
    let n = st.len() as u64;
    v.push(suite("comments", "every string of special characters as a comment before, after and in elements, alone and among others, all layouts", n * 7, true, move |i| {
        let mut m = MDoc::new();
        let comment = |m: &mut MDoc, s: &str| m.create(Kind::Comment, Tag::Name(String::new()), s);
        let c = comment(&mut m, &st[(i % n) as usize]);
        let s = m.elem(EId::Svg);
        let g = m.elem(EId::G);
        let k = i / n;
        if k == 0 { m.append(0, c); }
        m.append(0, s);
        if k == 1 { m.append(0, c); }
        if k == 2 || k == 5 { m.append(s, c); }
        if k == 6 { m.n[g].tag = Tag::Id(EId::Text); let t = m.create(Kind::Text, Tag::Name(String::new()), "t"); m.append(g, t); }
        if k != 2 { m.append(s, g); }
        if k == 3 { m.append(s, c); }
        if k == 4 || k == 6 { m.append(g, c); }
        if k == 5 { let d = comment(&mut m, "d"); m.append(s, d); }
        (m, [0, 2, 3, 9, 15, 18].iter().map(|k| opts::make(*k, 0)).collect())
    }));
    let st: Vec<&'static str> = vec!["&lt;", "&#65;", "&amp;", "x&y;", "&", "a & b"];
    v.push(suite("ampersand", "texts with an ampersand", st.len() as u64, false, move |i| {
        let (mut m, g) = base();
        m.n[g].tag = Tag::Id(EId::Text);
        let t = m.create(Kind::Text, Tag::Name(String::new()), st[i as usize]);
        m.append(g, t);
        (m, vec![opts::make(0, 0), opts::make(1, 0)])
    }));
    let st: Vec<&'static str> = vec!["&", "&#", "&#x66;", "&#65", "#", "a&#65;"];
    v.push(suite("unicode", "unicode values with an ampersand", st.len() as u64, false, move |i| {
        let (mut m, g) = base();
        m.put(g, AName::Id(AId::Unicode), plain(st[i as usize]));
        (m, vec![opts::make(0, 0), opts::make(1, 0)])
    }));
    // every width of the indentation
    v.push(suite("indents", "nodes and attributes indented by every number of spaces from 0 to 255, one or both", 3 * 256 + 17 * 17, true, move |i| {
        let mut m = MDoc::new();
        let mut p = 0;
        for e in [EId::Svg, EId::G, EId::Text, EId::Tspan] {
            let n = m.elem(e);
            m.n[n].id = "i".repeat(p + 1);
            m.put(n, AName::Id(AId::X), plain("1"));
            m.append(p, n);
            let c = m.create(Kind::Comment, Tag::Name(String::new()), "c");
            m.append(p, c);
            p = n;
        }
        use svgdom::Indent;
        let one = |i: Indent, a: Indent, q: bool| { let mut o = opts::make(0, 0); o.indent = i; o.attributes_indent = a; o.use_single_quote = q; o };
        let o = if i < 768 {
            let w = Indent::Spaces((i % 256) as u8);
            match i / 256 { 0 => one(w, Indent::None, false), 1 => one(Indent::Tabs, w, true), _ => one(w, w, false) }
        } else { one(Indent::Spaces(((i - 768) / 17) as u8), Indent::Spaces(((i - 768) % 17) as u8), false) };
        (m, vec![o])
    }));
    // growing documents
    let list = sizes(tier.pick(20, 70), tier.pick(1100, 3000));
    v.push(suite("scaled", "twelve families of documents that grow with n", list.len() as u64 * 12, true, move |i| {
        let (n, f) = (list[(i / 12) as usize], i % 12);
        let (mut m, g) = base();
        let s = m.n[g].parent.unwrap();
        let href = |m: &mut MDoc, e: Ix| { m.put(e, AName::Id(AId::Href), plain("u")); };
        let text = |m: &mut MDoc, p: Ix, t: String| { let x = m.create(Kind::Text, Tag::Name(String::new()), &t); m.append(p, x); };
        let odd: String = "a<\"b'>&\n".chars().cycle().take(n).filter(|&c| c != '&').collect();
        match f {
            0 | 1 | 2 => {
                let mut p = g;
                for k in 0..n {
                    let e = m.elem(if f == 2 && k == n / 2 { EId::Text } else { EId::G });
                    if k % 3 == 0 { m.n[e].id = format!("i{}", k); }
                    m.append(p, e);
                    p = e;
                }
                if f == 1 { href(&mut m, p); }
                text(&mut m, p, "t".into());
            }
            3 | 4 => {
                let mut last = g;
                for k in 0..n {
                    let e = m.elem(EId::Rect);
                    m.n[e].id = format!("i{}", k);
                    m.append(s, e);
                    if k % 5 == 2 { let c = m.create(Kind::Comment, Tag::Name(String::new()), "c"); m.append(s, c); }
                    last = e;
                }
                if f == 4 { href(&mut m, last); }
            }
            5 => { m.n[g].tag = Tag::Id(EId::Text); text(&mut m, g, odd.replace('>', "x")); }
            6 => { m.n[g].id = odd.clone(); m.put(g, AName::Id(AId::FontFamily), plain(&odd)); m.put(g, AName::Name("custom".into()), plain(&odd)); m.put(g, AName::Id(AId::Unicode), plain(&odd)); }
            7 => for k in 0..n { m.put(g, AName::Name(format!("a{}", k)), plain("v")); },
            8 => { m.n[g].tag = Tag::Id(EId::Text); for k in 0..n { let t = m.elem(EId::Tspan); m.append(g, t); text(&mut m, t, format!("t{}", k)); } }
            9 => { let c = m.create(Kind::Comment, Tag::Name(String::new()), &"c".repeat(n)); m.append(g, c); m.n[g].tag = Tag::Name("n".repeat(n.max(1))); }
            10 => for k in 0..n { let e = m.elem(EId::Svg); m.append(0, e); if k % 2 == 1 { href(&mut m, e); } },
            _ => for k in 0..n { let u = m.elem(EId::Use); m.append(s, u); let v = value(&m, &AName::Id(if k % 2 == 0 { AId::Fill } else { AId::Href }), crate::values::samples().len() as u64 + k as u64 % 2 * 3);
                m.put(u, AName::Id(if k % 2 == 0 { AId::Fill } else { AId::Href }), v); },
        }
        (m, vec![opts::make(0, 0), opts::make(19, 0), opts::make(2, 5)])
    }));
    let words = crate::text::long_words();
    v.push(suite("long", "texts, comments, ids, names and values of 60 to 65 537 characters", words.len() as u64, true, move |i| {
        let w = &words[i as usize];
        let (mut m, g) = base();
        m.n[g].id = w.clone();
        m.put(g, AName::Id(AId::FontFamily), plain(w));
        m.put(g, AName::Id(AId::Unicode), plain(w));
        let c = m.create(Kind::Comment, Tag::Name(String::new()), w);
        m.append(g, c);
        let e = m.elem(EId::Text);
        let x = m.create(Kind::Text, Tag::Name(String::new()), w);
        m.append(g, e);
        m.append(e, x);
        let u = m.elem(EId::Use);
        m.append(g, u);
        let v = value(&m, &AName::Id(AId::Href), crate::values::samples().len() as u64);
        m.put(u, AName::Id(AId::Href), v);
        let name: String = w.chars().filter(|c| *c == 'a').collect::<String>() + "n";
        let x = m.create(Kind::Elem, Tag::Name(name.clone()), "");
        m.append(g, x);
        m.put(x, AName::Name(name), plain("v"));
        (m, vec![opts::make(0, 0), opts::make(19, 0), opts::make(2, 5)])
    }));
    // every element
    v.push(suite("elements", "every element with and without text, all layouts", ELEMENTS.len() as u64 * 4, true, move |i| {
        let (mut m, g) = base();
        m.n[g].tag = Tag::Id(EId::from_str(ELEMENTS[(i / 4) as usize]).unwrap());
        if i & 1 == 1 { let t = m.create(Kind::Text, Tag::Name(String::new()), "t"); m.append(g, t); }
        if i & 2 == 2 { let t = tag(&mut m, EId::Tspan); m.append(g, t); let t2 = m.create(Kind::Text, Tag::Name(String::new()), "u"); m.append(t, t2); }
        (m, (0..lay).map(|k| opts::make(k, 0)).collect())
    }));
    // a node's own text form goes through the same writer: Document's Display
    v.push(Suite::new("display", "Display of a document is writing with the default options", crate::corpus::docs().len() as u64, |i, ctx| {
        if let Ok(d) = Document::from_str(crate::corpus::docs()[i as usize]) {
            let o = WriteOptions::default();
            ctx.step(3);
            ctx.compared();
            if d.to_string() != d.to_string_with_opt(&o) || format!("{}", d) != d.to_string() {
                return Err("Display differs from to_string_with_opt with the default options".into());
            }
            if d.to_string() != render(&snapshot(&d)?, &opts::make(0, 0)) { return Err(format!("{}", d)); }
        }
        Ok(())
    }, |i| crate::corpus::docs()[i as usize].to_string()));
    let _ = QName::<AId>::Name(String::new());
    v
}
