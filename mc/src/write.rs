//! C13: writing and parsing again.

use std::str::FromStr;
use svgdom::{AttributeId as AId, AttributeValue as V, Document, ElementId as EId, WriteOptions};
use svgdom::{Angle, AspectRatio, Color, Length, LengthList, NumberList, Path, PathSegment, Points, Transform, ViewBox, WriteBuffer};

use crate::engine::*;
use crate::model::*;
use crate::opts;

/// Numbers are equal up to the digits svgtypes writes.
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 2e-11 * a.abs().max(b.abs()).max(1.0) }

fn segs(p: &Path) -> Vec<(u8, bool, Vec<f64>)> {
    p.0.iter().map(|s| match *s {
        PathSegment::MoveTo { abs, x, y } => (0, abs, vec![x, y]),
        PathSegment::LineTo { abs, x, y } => (1, abs, vec![x, y]),
        PathSegment::HorizontalLineTo { abs, x } => (2, abs, vec![x]),
        PathSegment::VerticalLineTo { abs, y } => (3, abs, vec![y]),
        PathSegment::CurveTo { abs, x1, y1, x2, y2, x, y } => (4, abs, vec![x1, y1, x2, y2, x, y]),
        PathSegment::SmoothCurveTo { abs, x2, y2, x, y } => (5, abs, vec![x2, y2, x, y]),
        PathSegment::Quadratic { abs, x1, y1, x, y } => (6, abs, vec![x1, y1, x, y]),
        PathSegment::SmoothQuadratic { abs, x, y } => (7, abs, vec![x, y]),
        PathSegment::EllipticalArc { abs, rx, ry, x_axis_rotation, large_arc, sweep, x, y } =>
            (8, abs, vec![rx, ry, x_axis_rotation, large_arc as u8 as f64, sweep as u8 as f64, x, y]),
        PathSegment::ClosePath { abs } => (9, abs, vec![]),
    }).collect()
}

/// Equality of values up to the precision of written numbers.
pub fn near_eq(a: &V, b: &V) -> bool {
    let nums = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| near(*a, *b));
    match (a, b) {
        (V::Length(x), V::Length(y)) => near(x.num, y.num) && x.unit == y.unit,
        (V::LengthList(x), V::LengthList(y)) => x.0.len() == y.0.len()
            && x.0.iter().zip(&y.0).all(|(x, y)| near(x.num, y.num) && x.unit == y.unit),
        (V::Angle(x), V::Angle(y)) => near(x.num, y.num) && x.unit == y.unit,
        (V::Number(x), V::Number(y)) => near(*x, *y),
        (V::NumberList(x), V::NumberList(y)) => nums(&x.0, &y.0),
        (V::Path(x), V::Path(y)) => {
            let (x, y) = (segs(x), segs(y));
            x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && nums(&x.2, &y.2))
        }
        (V::Points(x), V::Points(y)) => x.0.len() == y.0.len() && x.0.iter().zip(&y.0).all(|(x, y)| near(x.0, y.0) && near(x.1, y.1)),
        (V::Transform(x), V::Transform(y)) => nums(&[x.a, x.b, x.c, x.d, x.e, x.f], &[y.a, y.b, y.c, y.d, y.e, y.f]),
        (V::ViewBox(x), V::ViewBox(y)) => nums(&[x.x, x.y, x.w, x.h], &[y.x, y.y, y.w, y.h]),
        _ => plain_eq(a, b),
    }
}

/// Whether svgtypes itself reads back what it writes for this value.
fn types_can(v: &V, o: &WriteOptions) -> bool {
    let o = &o.values;
    let back = |r: Option<V>| r.map_or(false, |r| near_eq(v, &r));
    match v {
        V::AspectRatio(x) => back(AspectRatio::from_str(&x.with_write_opt(o).to_string()).ok().map(V::AspectRatio)),
        V::Color(x) => back(Color::from_str(&x.with_write_opt(o).to_string()).ok().map(V::Color)),
        V::Length(x) => back(Length::from_str(&x.with_write_opt(o).to_string()).ok().map(V::Length)),
        V::LengthList(x) => back(LengthList::from_str(&x.with_write_opt(o).to_string()).ok().map(V::LengthList)),
        V::Angle(x) => back(Angle::from_str(&x.with_write_opt(o).to_string()).ok().map(V::Angle)),
        V::Number(x) => back(x.with_write_opt(o).to_string().parse().ok().map(V::Number)),
        V::NumberList(x) => back(NumberList::from_str(&x.with_write_opt(o).to_string()).ok().map(V::NumberList)),
        V::Path(x) => back(Path::from_str(&x.with_write_opt(o).to_string()).ok().map(V::Path)),
        V::Points(x) => back(Points::from_str(&x.with_write_opt(o).to_string()).ok().map(V::Points)),
        V::Transform(x) => {
            // a transform that is written as an identity is not stored by the parser
            let t = x.with_write_opt(o).to_string();
            back(Transform::from_str(&t).ok().filter(|t| !t.is_default()).map(V::Transform))
        }
        V::ViewBox(x) => back(ViewBox::from_str(&x.with_write_opt(o).to_string()).ok().map(V::ViewBox)),
        _ => true,
    }
}

fn is_text_elem(m: &MDoc, i: Ix) -> bool { m.n[i].tag == Tag::Id(EId::Text) && m.n[i].kind == Kind::Elem }

fn in_text(m: &MDoc, mut i: Ix) -> bool {
    while let Some(p) = m.n[i].parent { if is_text_elem(m, p) { return true; } i = p; }
    false
}

fn preserved(m: &MDoc, mut i: Ix) -> bool {
    while let Some(p) = m.n[i].parent {
        if let Some(MVal::Plain(V::String(s))) = m.attr(p, &AName::Id(AId::Space)) { return s == "preserve"; }
        i = p;
    }
    false
}

/// Text that the layout may legitimately change: outside of text elements and
/// not the only, collapsed content of its parent.  The children of a span in no
/// text element are indented like those of any other element, and there the
/// parser keeps white space.
fn loose(m: &MDoc) -> bool {
    (0..m.n.len()).any(|i| m.n[i].kind == Kind::Elem && (m.n[i].tag == Tag::Id(EId::Tspan) || m.n[i].tag == Tag::Id(EId::Tref)) && !in_text(m, i) && !m.n[i].kids.is_empty()) ||
    (0..m.n.len()).any(|i| m.n[i].kind == Kind::Text && !in_text(m, i)
        && (preserved(m, i) || m.n[m.n[i].parent.unwrap()].kids.len() != 1))
}

/// White space of such text is not compared.
fn normalise(m: &mut MDoc) {
    for i in 0..m.n.len() {
        if m.n[i].kind == Kind::Text && !in_text(m, i) {
            m.n[i].text.retain(|c| !" \t\r\n".contains(c));
            if m.n[i].text.is_empty() { m.detach(i); }
        }
    }
}

/// Adjacent text nodes count as one.
fn merge(m: &mut MDoc) {
    for i in 0..m.n.len() {
        let mut k = 1;
        while k < m.n[i].kids.len() {
            let (a, b) = (m.n[i].kids[k - 1], m.n[i].kids[k]);
            if m.n[a].kind == Kind::Text && m.n[b].kind == Kind::Text {
                let t = m.n[b].text.clone();
                m.n[a].text.push_str(&t);
                m.detach(b);
            } else { k += 1; }
        }
    }
}

/// The tree part of the model, with nodes named by their preorder position.
fn same_docs(a: &MDoc, b: &MDoc) -> R {
    let (pa, pb) = (a.preorder(0), b.preorder(0));
    let rank = |p: &[Ix], i: Ix| p.iter().position(|&x| x == i);
    let kind = |m: &MDoc, i: Ix| (m.n[i].kind, m.n[i].tag.clone(), m.n[i].id.clone(), m.n[i].text.clone());
    for (k, (&i, &j)) in pa.iter().zip(&pb).enumerate() {
        if kind(a, i) != kind(b, j) { return Err(format!("node {} is {:?}, expected {:?}", k, kind(b, j), kind(a, i))); }
        if a.n[i].kids.len() != b.n[j].kids.len() { return Err(format!("node {} {:?} has {} children, expected {}", k, kind(b, j), b.n[j].kids.len(), a.n[i].kids.len())); }
        let show = || format!("node {} {:?} has attributes {}, expected {}", k, kind(b, j), show_attrs(&b.n[j].attrs), show_attrs(&a.n[i].attrs));
        if a.n[i].attrs.len() != b.n[j].attrs.len() { return Err(show()); }
        for (name, v) in &a.n[i].attrs {
            let ok = match (v, b.attr(j, name)) {
                (MVal::Plain(x), Some(MVal::Plain(y))) => near_eq(x, y),
                (MVal::Link(x), Some(MVal::Link(y))) | (MVal::Func(x), Some(MVal::Func(y))) => rank(&pa, *x) == rank(&pb, *y),
                (MVal::Paint(x, f), Some(MVal::Paint(y, g))) => rank(&pa, *x) == rank(&pb, *y) && fb_eq(f, g),
                _ => false,
            };
            if !ok { return Err(show()); }
        }
    }
    if pa.len() != pb.len() { return Err(format!("{} nodes, expected {}", pb.len(), pa.len())); }
    Ok(())
}

/// Parse, write, parse, write.
pub fn roundtrip(xml: &str, list: &[WriteOptions], ctx: &mut Ctx) -> R {
    let d = match Document::from_str(xml) { Ok(d) => d, Err(_) => return Ok(()) };
    roundtrip_doc(&d, list, ctx)
}

pub fn roundtrip_doc(d: &Document, list: &[WriteOptions], ctx: &mut Ctx) -> R {
    let m = snapshot(d)?;
    roundtrip_model(d, m, list, ctx)
}

fn roundtrip_model(d: &Document, mut m: MDoc, list: &[WriteOptions], ctx: &mut Ctx) -> R {
    let loose = loose(&m);
    if loose { normalise(&mut m); }
    merge(&mut m);
    for o in list {
        if m.n.iter().any(|n| n.attrs.iter().any(|a| matches!(a.1, MVal::Plain(ref v) if !types_can(v, o)))) { continue; }
        let err = |e: String, t: &str| Err(format!("{}; written with {}: {:?}", e, opts::show(o), t));
        let t = d.to_string_with_opt(o);
        ctx.step(2);
        let d2 = match Document::from_str(&t) { Ok(d) => d, Err(e) => return err(format!("what was written cannot be parsed: {}", e), &t) };
        let mut m2 = snapshot(&d2)?;
        if loose { normalise(&mut m2); }
        merge(&mut m2);
        ctx.compared();
        ctx.outcome(hash_str(&t));
        if let Err(e) = same_docs(&m, &m2) { return err(format!("parsed again: {}", e), &t); }
        if !loose {
            let t2 = d2.to_string_with_opt(o);
            ctx.step(1);
            if t2 != t { return err(format!("written again it differs: {:?}", t2), &t); }
        }
    }
    Ok(())
}

/// The documents of another suite; each with one of `n` options in turn, or with all of them.
fn wrap(prefix: &str, s: Suite, turn: bool) -> Suite {
    let s: &'static Suite = Box::leak(Box::new(s));
    let name = if prefix.is_empty() { s.name.clone() } else { format!("{}-{}", prefix, s.name) };
    Suite::new(&name, &format!("round trips with {}: {}", if turn { "one of 5 options in turn" } else { "5 options" }, s.about), s.count, move |i, ctx| {
        let few = opts::few();
        let k = i as usize % few.len();
        roundtrip(&(s.describe)(i), if turn { &few[k..k + 1] } else { &few }, ctx)
    }, move |i| (s.describe)(i))
}

/// Documents x combinations of options.
fn with_options(name: &str, about: &str, docs: Vec<String>, layouts: u64, values: u64) -> Suite {
    let docs: &'static Vec<String> = Box::leak(Box::new(docs));
    let per = layouts * values;
    Suite::new(name, &format!("{} x {} layouts x {} value options", about, layouts, values), docs.len() as u64 * per,
        move |i, ctx| roundtrip(&docs[(i / per) as usize], &[opts::make(i % layouts, i % per / layouts)], ctx),
        move |i| format!("{} written with {}", docs[(i / per) as usize], opts::show(&opts::make(i % layouts, i % per / layouts))))
}

const S: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>";

const PATHS: [&str; 26] = [
    "M 1 2", "m 1 2", "M 1 2 3 4 5 6", "m 1 2 3 4 5 6", "M 1 2 L 3 4 5 6", "M 1 2 l 3 4 5 6", "M.5.5.5.5", "M-1-2-3-4", "M 1 2 H 3 H 4 h 5 V 6 v 7 v 8",
    "M 1 2 C 1 2 3 4 5 6 C 6 5 4 3 2 1", "m 1 2 c .1 .2 .3 .4 .5 .6 .7 .8 .9 1 1.1 1.2", "M 1 2 S 1 2 3 4 s 1 2 3 4", "M 1 2 Q 1 2 3 4 q 5 6 7 8 T 1 2 t 3 4 t 5 6",
    "M 1 2 A 1 2 30 0 1 4 5", "M 1 2 A 1 2 30 1 0 4 5 1 2 .5 0 0 .5 -5", "M 1 2 a .5 .5 0 1 1 .5 .5", "M 1 2 Z", "M 1 2 L 3 4 z M 5 6 l 7 8 Z",
    "M 1 2 z m 3 4 z", "M 1 2 M 3 4 L 5 6", "M 0 0 L 0 0", "M -0.5 0.5 L -0.5 -0.5 L 0.5 -0.5", "M 1e3 1e-3 L 0.1 0.01", "M 1 2 L 3 4 l 5 6 L 7 8 l 9 10",
    "M 10 20 A 5 6 30 0 1 7 8 A 5 6 30 0 1 7 8 a 5 6 30 1 0 -.5 .5", "M 1.5 2.5 H -.5 V .5 h .5 v -.5",
];

const TRANSFORMS: [&str; 12] = [
    "translate(1 2)", "translate(1)", "scale(2)", "scale(2 .5)", "rotate(30)", "rotate(-90)", "rotate(45 1 2)", "skewX(10)", "skewY(-.5)",
    "matrix(1 0 0 1 .5 -.5)", "matrix(.1 .2 .3 .4 .5 .6)", "translate(1 2) rotate(30) scale(.5)",
];

const OTHERS: [&str; 12] = [
    "<g fill='#aabbcc' stroke='#abc' color='#010203' stop-color='#fff'/>",
    "<g id='a'/><g fill='url(#a) #aabbcc' stroke='url(#a) none' mask='url(#a)'/>",
    "<g stroke-dasharray='.1 -.1 10 5% 1mm' stroke-width='.5em' stroke-dashoffset='-0.25px' opacity='.5'/>",
    "<text x='.1 .2 1' y='-.1,-.2' dx='1mm 2%' rotate='.5 -10 20'/>", "<polygon points='.1 .2 -.3 -.4 5 6'/><polyline points='1 2'/>",
    "<svg viewBox='.5 -.5 10 20' preserveAspectRatio='xMinYMax slice'/><svg preserveAspectRatio='none'/><svg preserveAspectRatio='defer xMidYMid'/>",
    "<marker orient='.5deg' refX='-.5'/><marker orient='auto'/><g glyph-orientation-vertical='90'/>",
    "<filter stdDeviation='.5 1' baseFrequency='.1' k1='.5'/>", "<g font-family=\"'A B', &quot;C&quot; &amp;&lt;>\" font-size='.5pt'/>",
    "<glyph unicode='&lt;&amp;&quot;a&#10;&#xe9;'/><glyph unicode=' '/>", "<g id=\"a'b&quot;c&amp;d&lt;e&#9;f&#10;g\"/><use xlink:href=\"#a'b&quot;c&amp;d&lt;e&#9;f&#10;g\"/>",
    "<text> a <tspan xml:space='preserve' fill='red' x='1'>  b  </tspan><!-- c --> d<a xlink:href='u'> e </a></text>",
];

fn in_svg(l: Vec<String>) -> Vec<String> { l.into_iter().map(|s| format!("{}{}</svg>", S, s)).collect() }

/// Special characters in texts and in `unicode`; some of these are known findings.
fn special(tier: Tier) -> Suite {
    let unis = ["&amp;", "&amp;#", "&amp;#x66;", "#", "&amp;lt;", "&#38;#65;a", "\u{1f600}", "a\u{1f600}b", "&#x10ffff;", "\u{fffd}\u{10000}", "\u{e000}\u{7f}\u{80}",
        "&gt;", "]]&gt;", "&apos;", "&quot;&apos;", "&#10;", "&#9;", "&#13;", "  ", " a ", "f i", "&#xad;", "\u{200d}\u{1f469}\u{301}"];
    let texts = crate::text::strings(&['&', ';', '#', 'x', '6', 'l', 't', '<', '>', ']', ' ', '\u{a0}'], tier.pick(4, 5));
    let l: Vec<String> = texts.iter().filter(|t| !t.is_empty()).map(|t| format!("<text>{}</text>", crate::parse::escape(t).replace('>', "&gt;")))
        .chain(["<text>&amp;amp;</text>".to_string(), "<text>&amp;#x26;amp;</text>".to_string()])
        .chain(unis.iter().map(|u| format!("<glyph unicode='{}'/>", u)))
        .chain(unis.iter().flat_map(|u| {
            let id = u.replace("&#10;", "&#10;x");
            vec![format!("<text>{}</text>", u), format!("<text xml:space='preserve'>{}<tspan>{}</tspan></text>", u, u), format!("<title>x{}y</title>", u),
                format!("<g id='{}'/><use xlink:href='#{}'/><g mask='url(#{})'/>", id, id, id), format!("<a xlink:href='{}' class='{}' font-family='{}'/>", u, u, u),
                format!("<desc>{}</desc><!--{}-->", u, u.replace("&gt;", "").replace("&", ""))]
        })).collect();
    let l = crate::text::xml_words().into_iter().filter(|w| !w.is_empty()).flat_map(|w| {
        let e = crate::parse::escape(&w).replace('>', "&gt;");
        let c = if w.contains("--") || w.ends_with('-') || w.starts_with('>') || w.contains('\r') { String::new() } else { format!("<!--{}-->", w) };
        vec![format!("<text>{}</text>", e), format!("<text xml:space='preserve'>{}<tspan>{}</tspan></text>", e, e), format!("<title>x{}y</title>", e),
            format!("<g id='{}'/><use xlink:href='#{}'/><g mask='url(#{})' fill='url(#{}) red'/>", e, e, e, e),
            format!("<a xlink:href='{}' class='{}' font-family='{}' type='{}'/>{}<glyph unicode='{}' glyph-name='{}'/>", e, e, e, e, c, e, e)]
    }).chain(l).collect();
    let docs: &'static Vec<String> = Box::leak(Box::new(in_svg(l)));
    Suite::new("special", "texts and unicode values with special characters", docs.len() as u64, move |i, ctx| roundtrip_all(&docs[i as usize], ctx), move |i| docs[i as usize].clone())
}

fn roundtrip_all(xml: &str, ctx: &mut Ctx) -> R {
    let d = Document::from_str(xml).map_err(|e| e.to_string())?;
    roundtrip_model(&d, snapshot(&d)?, &opts::few(), ctx)
}

pub fn c13(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(with_options("options", "documents that use every feature", crate::corpus::docs().iter().map(|s| s.to_string()).collect(), opts::LAYOUTS, tier.pick(24, opts::VALUES)));
    v.push(with_options("value-options", "values of every type", in_svg(OTHERS.iter().map(|s| s.to_string()).collect()), tier.pick(4, opts::LAYOUTS), opts::VALUES));
    v.push(with_options("path-options", "paths and transforms", in_svg(PATHS.iter().map(|p| format!("<path d='{}'/>", p))
        .chain(TRANSFORMS.iter().map(|t| format!("<g transform='{}' gradientTransform='{}'/>", t, t))).collect()), 1, opts::VALUES));
    v.push(wrap("", crate::text::nested(tier.pick(6, 8)), false));
    for (p, l) in [("tree", crate::parse::c09(Tier::Quick)), ("refs", crate::refs::c11(Tier::Quick)), ("css", crate::css::c10(Tier::Quick)),
                   ("text", crate::text::c12(tier)), ("values", crate::vals::c17(Tier::Quick))] {
        for s in l {
            if s.name == "long" && p != "tree" { continue; }
            let turn = tier == Tier::Quick && s.count > 30_000;
            v.push(wrap(p, s, turn));
        }
    }
    v.push(special(tier));
    let color = |r: u8, g: u8, b: u8| { let c = format!("#{:02x}{:02x}{:02x}", r, g, b);
        format!("<g fill='{0}' stroke='url(#nope) {0}' color='{0}' stop-color='{0}' flood-color='{0}' lighting-color='{0}'/><g fill='url(#t) {0}' stroke='url(#t) {0}'/><g id='t'/>", c) };
    let c3 = |l: &[u8]| { let mut v = vec![]; for &r in l { for &g in l { for &b in l { v.push(color(r, g, b)); } } } in_svg(v) };
    v.push(with_options("colors", "colors of all components 00, 01, 10, 11, ab, ff as every kind of color, with and without a link in front", c3(&[0, 1, 0x10, 0x11, 0xab, 0xff][..tier.pick(5, 6)]), 1, opts::VALUES));
    let docs: &'static Vec<String> = Box::leak(Box::new(c3(&tier.pick(vec![0, 1, 9, 0x0f, 0x10, 0x11, 0x1f, 0x80, 0x99, 0xaa, 0xab, 0xf0, 0xfe, 0xff], (0..=255).step_by(5).map(|x| x as u8).collect()))));
    v.push(Suite::new("more-colors", "colors of all components of a longer list", docs.len() as u64, move |i, ctx| roundtrip_all(&docs[i as usize], ctx), move |i| docs[i as usize].clone()));
    v
}
