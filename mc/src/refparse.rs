//! What parsing a text must give, written from the documentation and the SVG
//! specification.  XML, CSS tokens and the syntax of single values are taken
//! from roxmltree, simplecss and svgtypes; everything svgdom itself does
//! (names, namespaces, attribute types, cascade, links, text) is done here in
//! an independent way on the plain model.

use std::str::FromStr;
use svgdom::{
    Angle, AspectRatio, AttributeId as AId, AttributeValue as V, Color, ElementId as EId, Length, LengthList,
    LengthUnit, NumberList, PaintFallback, Path, Points, Transform, ViewBox,
};

use crate::model::*;
use crate::names;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reject { Xml, NoSvg }

pub const SVG: &str = "http://www.w3.org/2000/svg";
pub const XLINK: &str = "http://www.w3.org/1999/xlink";
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

/// The syntax of an attribute.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Iri, Coord, Len, NumOrPercent, InhLen, InhNum, InhUnit, Unit, Dashes, Fill, Paint, Func, Color, StopColor, Nums,
    Points, Path, Transform, FontSize, NoneInhNum, NoneInhStr, InhStr, Spacing, Shift, Orient, InhAngle,
    InhAutoAngle, ViewBox, Aspect, Str, Unicode, Dropped,
}

pub fn kind(name: &str) -> K {
    match name {
        "id" | "class" | "style" => K::Dropped,
        "href" => K::Iri,
        "x" | "y" | "dx" | "dy" => K::Coord,
        "x1" | "y1" | "x2" | "y2" | "r" | "rx" | "ry" | "cx" | "cy" | "fx" | "fy" | "refX" | "refY" | "width"
            | "height" | "markerWidth" | "markerHeight" | "startOffset" => K::Len,
        "offset" => K::NumOrPercent,
        "stroke-dashoffset" | "stroke-width" => K::InhLen,
        "stroke-miterlimit" => K::InhNum,
        "opacity" | "fill-opacity" | "flood-opacity" | "stroke-opacity" | "stop-opacity" => K::InhUnit,
        "k1" | "k2" | "k3" | "k4" => K::Unit,
        "stroke-dasharray" => K::Dashes,
        "fill" => K::Fill,
        "stroke" => K::Paint,
        "clip-path" | "filter" | "marker" | "marker-end" | "marker-mid" | "marker-start" | "mask" => K::Func,
        "color" => K::Color,
        "lighting-color" | "flood-color" | "stop-color" => K::StopColor,
        "stdDeviation" | "baseFrequency" | "rotate" => K::Nums,
        "points" => K::Points,
        "d" => K::Path,
        "transform" | "gradientTransform" | "patternTransform" => K::Transform,
        "font-size" => K::FontSize,
        "font-size-adjust" => K::NoneInhNum,
        "display" | "pointer-events" | "text-decoration" => K::NoneInhStr,
        "clip-rule" | "color-interpolation" | "color-interpolation-filters" | "color-profile" | "color-rendering"
            | "direction" | "dominant-baseline" | "enable-background" | "fill-rule" | "font-family" | "font-stretch"
            | "font-style" | "font-variant" | "font-weight" | "image-rendering" | "kerning" | "overflow"
            | "shape-rendering" | "stroke-linecap" | "stroke-linejoin" | "text-anchor" | "text-rendering"
            | "unicode-bidi" | "visibility" | "writing-mode" => K::InhStr,
        "letter-spacing" | "word-spacing" => K::Spacing,
        "baseline-shift" => K::Shift,
        "orient" => K::Orient,
        "glyph-orientation-horizontal" => K::InhAngle,
        "glyph-orientation-vertical" => K::InhAutoAngle,
        "viewBox" => K::ViewBox,
        "preserveAspectRatio" => K::Aspect,
        "unicode" => K::Unicode,
        _ => K::Str,
    }
}

/// The presentation attributes of SVG 1.1 (property index).
pub const PRESENTATION: [&str; 61] = [
    "alignment-baseline", "baseline-shift", "clip", "clip-path", "clip-rule", "color", "color-interpolation",
    "color-interpolation-filters", "color-profile", "color-rendering", "cursor", "direction", "display",
    "dominant-baseline", "enable-background", "fill", "fill-opacity", "fill-rule", "filter", "flood-color",
    "flood-opacity", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant",
    "font-weight", "glyph-orientation-horizontal", "glyph-orientation-vertical", "image-rendering", "kerning",
    "letter-spacing", "lighting-color", "marker-end", "marker-mid", "marker-start", "mask", "opacity", "overflow",
    "pointer-events", "shape-rendering", "stop-color", "stop-opacity", "stroke", "stroke-dasharray",
    "stroke-dashoffset", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-opacity",
    "stroke-width", "text-anchor", "text-decoration", "text-rendering", "unicode-bidi", "visibility",
    "word-spacing", "writing-mode", "marker", "font",
];

pub enum Parsed { Value(V), Link(String, Option<PaintFallback>), Identity, Nothing }

fn number(s: &str) -> Option<f64> {
    let mut st = svgtypes::Stream::from(s);
    let n = st.parse_number().ok()?;
    if st.at_end() { Some(n) } else { None }
}

fn unit(n: f64) -> f64 { if n > 1.0 { 1.0 } else if n < 0.0 { 0.0 } else { n } }

pub fn value(elem: &str, name: &str, raw: &str) -> Parsed {
    let k = kind(name);
    let s = if k == K::Unicode { raw } else { raw.trim() };
    match value_opt(elem, k, s) { Some(p) => p, None => Parsed::Nothing }
}

fn value_opt(elem: &str, k: K, s: &str) -> Option<Parsed> {
    use Parsed::*;
    let string = || Value(V::String(s.to_string()));
    let len = || Length::from_str(s).ok().map(|l| Value(V::Length(l)));
    let lens = || LengthList::from_str(s).ok().map(|l| if l.0.is_empty() { Nothing } else { Value(V::LengthList(l)) });
    let inherit = s == "inherit";
    let none = s == "none";
    Some(match k {
        K::Dropped => Nothing,
        K::Iri => match svgtypes::Stream::from(s).parse_iri().map(str::trim_end) {
            Ok(l) if !l.is_empty() => Link(l.to_string(), None),
            _ => string(),
        },
        K::Coord => if ["altGlyph", "text", "tref", "tspan"].contains(&elem) { lens()? } else { len()? },
        K::Len => len()?,
        K::NumOrPercent => {
            let l = Length::from_str(s).ok()?;
            if l.unit != LengthUnit::None && l.unit != LengthUnit::Percent { return None; }
            Value(V::Length(l))
        }
        K::InhLen => if inherit { Value(V::Inherit) } else { len()? },
        K::InhNum => if inherit { Value(V::Inherit) } else { Value(V::Number(number(s)?)) },
        K::InhUnit => if inherit { Value(V::Inherit) } else { Value(V::Number(unit(number(s)?))) },
        K::Unit => Value(V::Number(unit(number(s)?))),
        K::Dashes => if none { Value(V::None) } else if inherit { Value(V::Inherit) } else { lens()? },
        K::Fill if ["set", "animate", "animateColor", "animateMotion", "animateTransform"].contains(&elem) => string(),
        K::Fill | K::Paint => match svgtypes::Paint::from_str(s).ok()? {
            svgtypes::Paint::None => Value(V::None),
            svgtypes::Paint::Inherit => Value(V::Inherit),
            svgtypes::Paint::CurrentColor => Value(V::CurrentColor),
            svgtypes::Paint::Color(c) => Value(V::Color(c)),
            svgtypes::Paint::FuncIRI(l, f) => Link(l.to_string(), f),
        },
        K::Func => if none { Value(V::None) } else if inherit { Value(V::Inherit) } else {
            Link(svgtypes::Stream::from(s).parse_func_iri().ok()?.to_string(), None)
        },
        K::Color => if inherit { Value(V::Inherit) } else { Value(V::Color(Color::from_str(s).ok()?)) },
        K::StopColor => if inherit { Value(V::Inherit) } else if s == "currentColor" { Value(V::CurrentColor) }
            else { Value(V::Color(Color::from_str(s).ok()?)) },
        K::Nums => { let l = NumberList::from_str(s).ok()?; if l.0.is_empty() { Nothing } else { Value(V::NumberList(l)) } }
        K::Points => Value(V::Points(Points::from_str(s).ok()?)),
        K::Path => {
            let p: Vec<_> = svgtypes::PathParser::from(s).take_while(|t| t.is_ok()).map(|t| t.unwrap()).collect();
            if p.is_empty() { Nothing } else { Value(V::Path(Path(p))) }
        }
        K::Transform => {
            let t = Transform::from_str(s).ok()?;
            if t.is_default() { Identity } else { Value(V::Transform(t)) }
        }
        K::FontSize => len().unwrap_or_else(|| if inherit { Value(V::Inherit) } else { string() }),
        K::NoneInhNum => if none { Value(V::None) } else if inherit { Value(V::Inherit) } else { Value(V::Number(number(s)?)) },
        K::NoneInhStr => if none { Value(V::None) } else if inherit { Value(V::Inherit) } else { string() },
        K::InhStr => if inherit { Value(V::Inherit) } else { string() },
        K::Spacing => if inherit { Value(V::Inherit) } else if s == "normal" { string() } else { len()? },
        K::Shift => if inherit { Value(V::Inherit) } else if ["baseline", "sub", "super"].contains(&s) { string() } else { len()? },
        K::Orient => if s == "auto" { string() } else { Value(V::Angle(Angle::from_str(s).ok()?)) },
        K::InhAngle => if inherit { Value(V::Inherit) } else { Value(V::Angle(Angle::from_str(s).ok()?)) },
        K::InhAutoAngle => if inherit { Value(V::Inherit) } else if s == "auto" { string() } else { Value(V::Angle(Angle::from_str(s).ok()?)) },
        K::ViewBox => Value(V::ViewBox(ViewBox::from_str(s).ok()?)),
        K::Aspect => Value(V::AspectRatio(AspectRatio::from_str(s).ok()?)),
        K::Str | K::Unicode => string(),
    })
}

/// The declarations of one attribute so far.
#[derive(Clone)]
pub struct Slot { pub name: String, plain: Option<V>, link: Option<(String, Option<PaintFallback>)> }

/// The attributes of one element while its declarations are applied in cascade order.
#[derive(Clone, Default)]
pub struct Slots(Vec<Slot>);

impl Slots {
    pub fn set(&mut self, elem: &str, name: &str, raw: &str) {
        let p = value(elem, name, raw);
        if let Parsed::Nothing = p { return; }
        let i = match self.0.iter().position(|s| s.name == name) {
            Some(i) => i,
            None => { self.0.push(Slot { name: name.into(), plain: None, link: None }); self.0.len() - 1 }
        };
        match p {
            Parsed::Value(v) => { self.0[i].plain = Some(v); self.0[i].link = None; }
            Parsed::Link(l, f) => self.0[i].link = Some((l, f)),
            Parsed::Identity => { self.0.remove(i); }
            Parsed::Nothing => unreachable!(),
        }
    }

    /// A declaration of CSS.
    pub fn set_css(&mut self, elem: &str, name: &str, raw: &str) {
        if name == "marker" {
            for n in ["marker-start", "marker-mid", "marker-end"] { self.set(elem, n, raw); }
        } else if name == "transform" || PRESENTATION.contains(&name) {
            self.set(elem, name, raw);
        }
    }
}

struct CssNode<'a, 'input: 'a>(roxmltree::Node<'a, 'input>);

impl simplecss::Element for CssNode<'_, '_> {
    fn parent_element(&self) -> Option<Self> {
        self.0.parent().filter(|n| n.is_element()).map(CssNode)
    }
    fn prev_sibling_element(&self) -> Option<Self> {
        let mut n = self.0.prev_sibling();
        while let Some(x) = n { if x.is_element() { return Some(CssNode(x)); } n = x.prev_sibling(); }
        None
    }
    fn has_local_name(&self, name: &str) -> bool { self.0.tag_name().name() == name }
    fn attribute_matches(&self, name: &str, op: simplecss::AttributeOperator) -> bool {
        self.0.attributes().iter().any(|a| a.namespace().is_none() && a.name() == name && op.matches(a.value()))
    }
    fn pseudo_class_matches(&self, class: simplecss::PseudoClass) -> bool {
        class == simplecss::PseudoClass::FirstChild && self.prev_sibling_element().is_none()
    }
}

/// A link that waits for its target.
pub struct Pending { node: Ix, name: String, iri: String, fallback: Option<PaintFallback> }

struct Builder<'a> { m: MDoc, pending: Vec<Pending>, sheet: simplecss::StyleSheet<'a> }

pub fn aid(name: &str) -> AId { AId::from_str(name).unwrap_or_else(|| panic!("no id for {}", name)) }

pub fn is_known_element(ns: Option<&str>, name: &str) -> bool { ns == Some(SVG) && names::ELEMENTS.contains(&name) }

pub fn attr_ns_ok(ns: Option<&str>) -> bool {
    match ns { None => true, Some(n) => n == SVG || n == XLINK || n == XML }
}

impl<'a> Builder<'a> {
    fn element(&mut self, x: roxmltree::Node, parent: Ix, in_text: bool) {
        let name = x.tag_name().name();
        if !is_known_element(x.tag_name().namespace(), name) || name == "style" { return; }
        let e = self.m.elem(EId::from_str(name).unwrap_or_else(|| panic!("no id for {}", name)));
        self.m.append(parent, e);
        let mut slots = Slots::default();
        for a in x.attributes() {
            if !attr_ns_ok(a.namespace()) || !names::ATTRIBUTES.contains(&a.name()) { continue; }
            if a.name() == "id" { self.m.n[e].id = a.value().to_string(); }
            slots.set(name, a.name(), a.value());
        }
        for r in &self.sheet.rules {
            if r.selector.matches(&CssNode(x)) {
                for d in &r.declarations { slots.set_css(name, d.name, d.value); }
            }
        }
        if let Some(a) = x.attributes().iter().find(|a| a.namespace().is_none() && a.name() == "style") {
            for d in simplecss::DeclarationTokenizer::from(a.value()) { slots.set_css(name, d.name, d.value); }
        }
        finish(&mut self.m, e, slots, &mut self.pending);
        let in_text = in_text || ["text", "tspan", "tref"].contains(&name);
        for c in x.children() {
            if c.is_element() { self.element(c, e, in_text); }
            else { self.other(c, e, in_text); }
        }
    }

    fn other(&mut self, x: roxmltree::Node, parent: Ix, in_text: bool) {
        if x.is_comment() {
            let c = self.m.create(Kind::Comment, Tag::Name(String::new()), x.text().unwrap_or(""));
            self.m.append(parent, c);
        } else if x.is_text() {
            let t = x.text().unwrap_or("");
            if !in_text && t.trim().is_empty() { return; }
            let c = self.m.create(Kind::Text, Tag::Name(String::new()), t);
            self.m.append(parent, c);
        }
    }
}

/// Stores the declarations of an element; links wait.
pub fn finish(m: &mut MDoc, e: Ix, slots: Slots, pending: &mut Vec<Pending>) {
    for s in slots.0 {
        if let Some(v) = s.plain { m.put(e, AName::Id(aid(&s.name)), MVal::Plain(v)); }
        if let Some((iri, fallback)) = s.link { pending.push(Pending { node: e, name: s.name, iri, fallback }); }
    }
}

/// Links are set in document order; a link to itself or to an element that
/// already links back is left out.
pub fn resolve(m: &mut MDoc, pending: Vec<Pending>) {
    let order = m.preorder(0);
    for p in pending {
        let name = AName::Id(aid(&p.name));
        let target = order.iter().cloned().find(|&i| !m.n[i].id.is_empty() && m.n[i].id == p.iri);
        match target {
            Some(t) => { m.set_link(p.node, name, t, p.fallback); }
            None => {
                let v = match p.fallback {
                    Some(PaintFallback::None) => V::None,
                    Some(PaintFallback::CurrentColor) => V::CurrentColor,
                    Some(PaintFallback::Color(c)) => V::Color(c),
                    None if p.name == "fill" => V::None,
                    None if p.name == "href" => V::String(format!("#{}", p.iri)),
                    None => V::String(format!("url(#{})", p.iri)),
                };
                m.put(p.node, name, MVal::Plain(v));
            }
        }
    }
}

pub fn expected(text: &str) -> Result<MDoc, Reject> {
    let x = roxmltree::Document::parse(text).map_err(|_| Reject::Xml)?;
    let top = x.root().children().find(|n| n.is_element() && is_known_element(n.tag_name().namespace(), n.tag_name().name()));
    if top.map_or(true, |t| t.tag_name().name() != "svg") { return Err(Reject::NoSvg); }
    // comments split the content of a style element
    let mut css_texts: Vec<String> = vec![];
    for s in x.descendants().filter(|n| n.is_element() && n.tag_name().name() == "style") {
        let css = s.attributes().iter().find(|a| a.namespace().is_none() && a.name() == "type").map_or(true, |a| a.value() == "text/css");
        if css { css_texts.push(s.children().filter(|n| n.is_text()).map(|n| n.text().unwrap_or("")).collect()); }
    }
    let mut sheet = simplecss::StyleSheet::new();
    for t in &css_texts { sheet.parse_more(t); }
    let mut b = Builder { m: MDoc::new(), pending: vec![], sheet };
    for c in x.root().children() {
        if c.is_element() { b.element(c, 0, false); } else { b.other(c, 0, false); }
    }
    let Builder { mut m, pending, .. } = b;
    resolve(&mut m, pending);
    white_space(&mut m);
    Ok(m)
}

// ------------------------------------------------------------------ white space

pub fn white_space(m: &mut MDoc) {
    let kids = m.n[0].kids.clone();
    for k in kids { space_walk(m, k, false); }
    for i in 0..m.n.len() {
        if m.n[i].kind == Kind::Text && m.n[i].text.is_empty() { m.detach(i); }
    }
}

fn own_space(m: &MDoc, e: Ix, inherited: bool) -> bool {
    match m.attr(e, &AName::Id(AId::Space)) {
        Some(MVal::Plain(V::String(s))) => s == "preserve",
        _ => inherited,
    }
}

fn space_walk(m: &mut MDoc, e: Ix, inherited: bool) {
    if m.n[e].kind != Kind::Elem { return; }
    let p = own_space(m, e, inherited);
    let content = match m.n[e].tag { Tag::Id(t) => ["text", "tspan", "tref", "textPath", "altGlyph"].contains(&t.as_str()), _ => false };
    if content {
        let mut list = vec![];
        gather(m, e, p, 0, true, &mut list);
        stream(m, list);
        return;
    }
    if m.n[e].kids.first().map_or(false, |&k| m.n[k].kind == Kind::Text) {
        let mut list = vec![];
        gather(m, e, p, 0, false, &mut list);
        stream(m, list);
    }
    for k in m.n[e].kids.clone() { space_walk(m, k, p); }
}

/// (text node, preserve, depth)
fn gather(m: &MDoc, e: Ix, p: bool, depth: usize, deep: bool, out: &mut Vec<(Ix, bool, usize)>) {
    for &k in &m.n[e].kids {
        match m.n[k].kind {
            Kind::Text => out.push((k, p, depth)),
            Kind::Elem if deep => gather(m, k, own_space(m, k, p), depth + 1, deep, out),
            _ => {}
        }
    }
}

fn stream(m: &mut MDoc, list: Vec<(Ix, bool, usize)>) {
    let mut last: Option<(Ix, bool, usize)> = None;
    for (i, preserve, depth) in list {
        let mut t = String::new();
        for c in m.n[i].text.chars() {
            let c = if "\r\n\t".contains(c) { ' ' } else { c };
            if c == ' ' && !preserve && t.ends_with(' ') { continue; }
            t.push(c);
        }
        if !preserve && t.starts_with(' ') {
            match last {
                None => { t.remove(0); }
                Some((l, lp, ld)) if m.n[l].text.ends_with(' ') => {
                    if lp || ld < depth { t.remove(0); } else { m.n[l].text.pop(); }
                }
                _ => {}
            }
        }
        if !t.is_empty() { last = Some((i, preserve, depth)); }
        m.n[i].text = t;
    }
    if let Some((l, false, _)) = last {
        if m.n[l].text.ends_with(' ') { m.n[l].text.pop(); }
    }
}
