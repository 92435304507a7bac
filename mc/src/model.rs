//! The reference model of the DOM: a plain ordered forest with attribute maps.
//! It is written from the documentation and knows nothing about how svgdom
//! stores its nodes.  `Real` executes the same operations on svgdom, and
//! `compare` checks every observable of every node against the model.

use std::collections::HashMap;
use svgdom::{
    Attribute, AttributeId as AId, AttributeValue, Document, ElementId as EId, Error, Node, NodeType,
    PaintFallback, QName, Color, Length, LengthUnit,
};

pub type Ix = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { Root, Elem, Text, Comment }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tag { Id(EId), Name(String) }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum AName { Id(AId), Name(String) }

#[derive(Clone, Debug)]
pub enum MVal {
    Plain(AttributeValue),
    Link(Ix),
    Func(Ix),
    Paint(Ix, Option<PaintFallback>),
}

impl MVal {
    pub fn target(&self) -> Option<Ix> {
        match *self {
            MVal::Link(i) | MVal::Func(i) | MVal::Paint(i, _) => Some(i),
            MVal::Plain(_) => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub kind: Kind,
    pub tag: Tag,
    pub id: String,
    pub text: String,
    pub attrs: Vec<(AName, MVal)>,
    pub parent: Option<Ix>,
    pub kids: Vec<Ix>,
    /// Belongs to the document (created by it and not removed from it).
    pub owned: bool,
}

#[derive(Clone, Debug)]
pub struct MDoc {
    pub n: Vec<MNode>,
    /// Siblings without a parent (lists of at least two nodes).
    pub chains: Vec<Vec<Ix>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MErr { NoId, Cross }

#[derive(Clone, PartialEq, Debug)]
pub enum Out { Unit, Err(MErr), Count(usize) }

impl MDoc {
    pub fn new() -> MDoc {
        MDoc { n: vec![MNode { kind: Kind::Root, tag: Tag::Name(String::new()), id: String::new(),
            text: String::new(), attrs: vec![], parent: None, kids: vec![], owned: true }], chains: vec![] }
    }
    pub fn create(&mut self, kind: Kind, tag: Tag, text: &str) -> Ix {
        self.n.push(MNode { kind, tag, id: String::new(), text: text.into(), attrs: vec![],
            parent: None, kids: vec![], owned: true });
        self.n.len() - 1
    }
    pub fn elem(&mut self, e: EId) -> Ix { self.create(Kind::Elem, Tag::Id(e), "") }
    pub fn detach(&mut self, c: Ix) {
        if let Some(p) = self.n[c].parent.take() {
            self.n[p].kids.retain(|&k| k != c);
        }
        for l in &mut self.chains { l.retain(|&k| k != c); }
        self.chains.retain(|l| l.len() > 1);
    }
    /// All siblings of `n`, itself included.
    pub fn siblings(&self, n: Ix) -> Vec<Ix> {
        match self.n[n].parent {
            Some(p) => self.n[p].kids.clone(),
            None => self.chains.iter().find(|l| l.contains(&n)).cloned().unwrap_or_else(|| vec![n]),
        }
    }
    pub fn append(&mut self, p: Ix, c: Ix) {
        self.detach(c);
        self.n[c].parent = Some(p);
        self.n[p].kids.push(c);
    }
    pub fn prepend(&mut self, p: Ix, c: Ix) {
        self.detach(c);
        self.n[c].parent = Some(p);
        self.n[p].kids.insert(0, c);
    }
    pub fn insert_rel(&mut self, a: Ix, c: Ix, after: bool) {
        self.detach(c);
        let p = match self.n[a].parent {
            Some(p) => p,
            None => {
                let mut l = self.siblings(a);
                self.chains.retain(|l| !l.contains(&a));
                let pos = l.iter().position(|&k| k == a).unwrap();
                l.insert(if after { pos + 1 } else { pos }, c);
                self.chains.push(l);
                self.chains.sort();
                return;
            }
        };
        let pos = self.n[p].kids.iter().position(|&k| k == a).unwrap();
        self.n[c].parent = Some(p);
        self.n[p].kids.insert(if after { pos + 1 } else { pos }, c);
    }
    pub fn is_ancestor_or_self(&self, a: Ix, mut n: Ix) -> bool {
        loop {
            if a == n { return true; }
            match self.n[n].parent { Some(p) => n = p, None => return false }
        }
    }
    pub fn top(&self, mut n: Ix) -> Ix {
        while let Some(p) = self.n[n].parent { n = p; }
        n
    }
    pub fn preorder(&self, n: Ix) -> Vec<Ix> {
        let mut v = vec![n];
        for &k in &self.n[n].kids { v.extend(self.preorder(k)); }
        v
    }
    pub fn attr(&self, n: Ix, name: &AName) -> Option<&MVal> {
        self.n[n].attrs.iter().find(|a| a.0 == *name).map(|a| &a.1)
    }
    pub fn remove_attr(&mut self, n: Ix, name: &AName) {
        self.n[n].attrs.retain(|a| a.0 != *name);
    }
    /// Sets an attribute as is (last write wins).
    pub fn put(&mut self, n: Ix, name: AName, v: MVal) {
        self.remove_attr(n, &name);
        self.n[n].attrs.push((name, v));
    }
    /// Users of `n`: one entry for each attribute that links to it.
    pub fn linked(&self, n: Ix) -> Vec<Ix> {
        let mut v = vec![];
        for (i, m) in self.n.iter().enumerate() {
            for a in &m.attrs { if a.1.target() == Some(n) { v.push(i); } }
        }
        v
    }
    pub fn link_value(name: &AName, t: Ix, fb: Option<PaintFallback>) -> MVal {
        match *name {
            AName::Id(AId::Href) => MVal::Link(t),
            AName::Id(AId::Fill) | AName::Id(AId::Stroke) => MVal::Paint(t, fb),
            _ => MVal::Func(t),
        }
    }
    pub fn set_link(&mut self, n: Ix, name: AName, t: Ix, fb: Option<PaintFallback>) -> Out {
        if self.n[t].id.is_empty() { return Out::Err(MErr::NoId); }
        if self.n[t].id == self.n[n].id { return Out::Err(MErr::Cross); }
        if self.n[t].attrs.iter().any(|a| a.1.target() == Some(n)) { return Out::Err(MErr::Cross); }
        let v = Self::link_value(&name, t, fb);
        self.put(n, name, v);
        Out::Unit
    }
    pub fn remove_node(&mut self, n: Ix) {
        let sub = self.preorder(n);
        for m in self.n.iter_mut() { m.attrs.retain(|a| a.1.target().map_or(true, |t| !sub.contains(&t))); }
        for &s in &sub {
            self.n[s].attrs.retain(|a| a.1.target().is_none());
            self.n[s].owned = false;
        }
        self.detach(n);
        for &s in &sub { self.n[s].kids.clear(); self.n[s].parent = None; }
    }
    /// The predicate is given as the set of nodes it is true for.
    pub fn drain(&mut self, root: Ix, pred: u64) -> usize {
        let mut count = 0;
        for k in self.n[root].kids.clone() {
            if pred >> k & 1 == 1 { self.remove_node(k); count += 1; }
            else { count += self.drain(k, pred); }
        }
        count
    }
    pub fn copy(&mut self, n: Ix) -> Ix {
        let mut m = self.n[n].clone();
        m.id.clear();
        m.parent = None;
        m.kids.clear();
        m.owned = true;
        self.n.push(m);
        self.n.len() - 1
    }
    pub fn copy_deep(&mut self, n: Ix) -> Ix {
        let c = self.copy(n);
        for k in self.n[n].kids.clone() {
            let kc = self.copy_deep(k);
            self.append(c, kc);
        }
        c
    }
    /// All state a later operation or observation can depend on.
    pub fn key(&self) -> String {
        let mut s = String::new();
        for m in &self.n {
            s.push_str(&format!("{:?}{:?}|{}|{}|{:?}{:?}{}", m.kind, m.tag, m.id, m.text, m.parent, m.kids, m.owned as u8));
            let mut a: Vec<String> = m.attrs.iter().map(|(n, v)| format!("{:?}={}", n, val_key(v))).collect();
            a.sort();
            s.push_str(&a.join(","));
            s.push(';');
        }
        if !self.chains.is_empty() { s.push_str(&format!("{:?}", self.chains)); }
        s
    }
}

pub fn val_key(v: &MVal) -> String {
    match v {
        MVal::Plain(v) => format!("{:?}", v),
        MVal::Link(i) => format!("L{}", i),
        MVal::Func(i) => format!("F{}", i),
        MVal::Paint(i, f) => format!("P{}{:?}", i, f),
    }
}

// ------------------------------------------------------------------ operations

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Append(u8, u8),
    Prepend(u8, u8),
    Before(u8, u8),
    After(u8, u8),
    Detach(u8),
    Remove(u8),
    Drain(u8, u16),
    Copy(u8),
    CopyDeep(u8),
    CreateElem(u8),
    CreateText(u8),
    CreateComment(u8),
    SetId(u8, u8),
    SetTag(u8, u8),
    SetText(u8, u8),
    /// node, attribute name, value
    Set(u8, u8, u8),
    SetIfNone(u8, u8, u8),
    /// value spelled as AttributeValue link of the "wrong" flavour too: node, name, target, flavour
    Link(u8, u8, u8, u8),
    LinkIfNone(u8, u8, u8),
    Unset(u8, u8),
    /// Writes the document; must change nothing.
    Write,
}

pub const IDS: [&str; 9] = ["", "a", "b", "c", "d e", "A", " ", "a ", "\u{e9}"];
pub const TEXTS: [&str; 8] = ["", "text", "é x", "<&>", " text", "text ", " ", "\n\t"];

pub fn tags() -> Vec<Tag> {
    vec![Tag::Id(EId::G), Tag::Id(EId::Rect), Tag::Id(EId::Svg), Tag::Name("custom".into()), Tag::Id(EId::Text)]
}

pub fn anames() -> Vec<AName> {
    vec![AName::Id(AId::Href), AName::Id(AId::Fill), AName::Id(AId::ClipPath), AName::Name("data-a".into()),
         AName::Id(AId::X), AName::Name("x".into()), AName::Id(AId::Stroke), AName::Name("href".into()),
         AName::Name("fill".into())]
}

pub fn values() -> Vec<AttributeValue> {
    vec![AttributeValue::None,
         AttributeValue::String("v".into()),
         AttributeValue::Number(1.5),
         AttributeValue::Color(Color::new(1, 2, 3)),
         AttributeValue::Length(Length::new(2.0, LengthUnit::Mm)),
         AttributeValue::Inherit,
         AttributeValue::String("".into())]
}

pub fn fallbacks() -> Vec<Option<PaintFallback>> {
    vec![None, Some(PaintFallback::None), Some(PaintFallback::CurrentColor), Some(PaintFallback::Color(Color::new(9, 8, 7)))]
}

thread_local! {
    static TAGS: Vec<Tag> = tags();
    static NAMES: Vec<AName> = anames();
    static VALUES: Vec<AttributeValue> = values();
    static FALLBACKS: Vec<Option<PaintFallback>> = fallbacks();
}
pub fn tag_at(i: u8) -> Tag { TAGS.with(|t| t[i as usize].clone()) }
pub fn name_at(i: u8) -> AName { NAMES.with(|t| t[i as usize].clone()) }
pub fn value_at(i: u8) -> AttributeValue { VALUES.with(|t| t[i as usize].clone()) }
pub fn fallback_at(i: u8) -> Option<PaintFallback> { FALLBACKS.with(|t| t[i as usize]) }

impl Op {
    /// The documented preconditions; an operation outside of them is not part
    /// of the explored space.
    pub fn enabled(&self, m: &MDoc) -> bool {
        let len = m.n.len();
        let ok = |i: u8| (i as usize) < len && m.n[i as usize].owned;
        let is = |i: u8, k: Kind| m.n[i as usize].kind == k;
        let el = |i: u8| ok(i) && is(i, Kind::Elem);
        let movable = |i: u8| ok(i) && !is(i, Kind::Root);
        match *self {
            Op::Append(p, c) | Op::Prepend(p, c) =>
                ok(p) && movable(c) && !m.is_ancestor_or_self(c as usize, p as usize),
            Op::Before(a, c) | Op::After(a, c) =>
                movable(a) && movable(c) && !m.is_ancestor_or_self(c as usize, a as usize),
            Op::Detach(n) => movable(n),
            Op::Remove(n) => (n as usize) < len && !is(n, Kind::Root),
            Op::Drain(r, _) => ok(r),
            Op::Copy(n) | Op::CopyDeep(n) => {
                // link targets keep a non-empty id, see DESIGN.md
                movable(n) && m.preorder(n as usize).iter().all(|&s| m.n[s].attrs.iter()
                    .all(|a| a.1.target().map_or(true, |t| !m.n[t].id.is_empty())))
            }
            Op::CreateElem(_) | Op::CreateText(_) | Op::CreateComment(_) => true,
            Op::SetId(n, _) | Op::SetTag(n, _) => el(n),
            Op::SetText(n, _) => movable(n) && !is(n, Kind::Elem),
            Op::Set(n, _, _) | Op::SetIfNone(n, _, _) | Op::Unset(n, _) => el(n),
            Op::Link(n, _, t, _) => el(n) && el(t),
            Op::LinkIfNone(n, a, t) => {
                // panics on an error by contract, so it is enabled only when it must succeed
                el(n) && el(t) && (m.attr(n as usize, &name_at(a)).is_some()
                    || m.clone().set_link(n as usize, name_at(a), t as usize, None) == Out::Unit)
            }
            Op::Write => true,
        }
    }

    pub fn apply_model(&self, m: &mut MDoc) -> Out {
        match *self {
            Op::Append(p, c) => m.append(p as usize, c as usize),
            Op::Prepend(p, c) => m.prepend(p as usize, c as usize),
            Op::Before(a, c) => m.insert_rel(a as usize, c as usize, false),
            Op::After(a, c) => m.insert_rel(a as usize, c as usize, true),
            Op::Detach(n) => m.detach(n as usize),
            Op::Remove(n) => if m.n[n as usize].owned { m.remove_node(n as usize) },
            Op::Drain(r, p) => return Out::Count(m.drain(r as usize, p as u64)),
            Op::Copy(n) => { m.copy(n as usize); }
            Op::CopyDeep(n) => { m.copy_deep(n as usize); }
            Op::CreateElem(t) => { m.create(Kind::Elem, tag_at(t), ""); }
            Op::CreateText(t) => { m.create(Kind::Text, Tag::Name(String::new()), TEXTS[t as usize]); }
            Op::CreateComment(t) => { m.create(Kind::Comment, Tag::Name(String::new()), TEXTS[t as usize]); }
            Op::SetId(n, i) => m.n[n as usize].id = IDS[i as usize].into(),
            Op::SetTag(n, t) => m.n[n as usize].tag = tag_at(t),
            Op::SetText(n, t) => m.n[n as usize].text = TEXTS[t as usize].into(),
            Op::Set(n, a, v) => m.put(n as usize, name_at(a), MVal::Plain(value_at(v))),
            Op::SetIfNone(n, a, v) => {
                if m.attr(n as usize, &name_at(a)).is_none() {
                    m.put(n as usize, name_at(a), MVal::Plain(value_at(v)));
                }
            }
            Op::Link(n, a, t, f) => {
                let fb = if f >= 4 { None } else { fallback_at(f) };
                return m.set_link(n as usize, name_at(a), t as usize, fb);
            }
            Op::LinkIfNone(n, a, t) => {
                if m.attr(n as usize, &name_at(a)).is_none() {
                    return m.set_link(n as usize, name_at(a), t as usize, None);
                }
            }
            Op::Unset(n, a) => m.remove_attr(n as usize, &name_at(a)),
            Op::Write => {}
        }
        Out::Unit
    }
}

// -------------------------------------------------------------- the real side

pub struct Real { pub doc: Document, pub h: Vec<Node> }

pub fn mk_attr(name: &AName, v: AttributeValue) -> Attribute {
    match *name {
        AName::Id(id) => Attribute::new(id, v),
        AName::Name(ref s) => Attribute::new(s.as_str(), v),
    }
}

pub fn rm_attr(n: &mut Node, name: &AName) {
    match *name {
        AName::Id(id) => n.remove_attribute(id),
        AName::Name(ref s) => n.remove_attribute(s.as_str()),
    }
}

pub fn has_attr(n: &Node, name: &AName) -> bool {
    match *name {
        AName::Id(id) => n.has_attribute(id),
        AName::Name(ref s) => n.has_attribute(s.as_str()),
    }
}

impl Real {
    pub fn new() -> Real {
        let doc = Document::new();
        let h = vec![doc.root()];
        Real { doc, h }
    }

    pub fn apply(&mut self, op: &Op) -> Out {
        let h = |s: &Real, i: u8| s.h[i as usize].clone();
        let res = |r: Result<(), Error>| match r {
            Ok(()) => Out::Unit,
            Err(Error::ElementMustHaveAnId) => Out::Err(MErr::NoId),
            Err(Error::ElementCrosslink) => Out::Err(MErr::Cross),
        };
        match *op {
            Op::Append(p, c) => { let c = h(self, c); h(self, p).append(c) }
            Op::Prepend(p, c) => { let c = h(self, c); h(self, p).prepend(c) }
            Op::Before(a, c) => { let c = h(self, c); h(self, a).insert_before(c) }
            Op::After(a, c) => { let c = h(self, c); h(self, a).insert_after(c) }
            Op::Detach(n) => h(self, n).detach(),
            Op::Remove(n) => { let n = h(self, n); self.doc.remove_node(n) }
            Op::Drain(r, p) => {
                let r = h(self, r);
                let nodes = self.h.clone();
                let c = self.doc.drain(r, |n| {
                    nodes.iter().position(|x| x == n).map_or(false, |i| p >> i & 1 == 1)
                });
                return Out::Count(c);
            }
            Op::Copy(n) => { let n = h(self, n); let c = self.doc.copy_node(n); self.h.push(c) }
            Op::CopyDeep(n) => {
                let n = h(self, n);
                let c = self.doc.copy_node_deep(n);
                let all: Vec<Node> = c.descendants().collect();
                self.h.extend(all);
            }
            Op::CreateElem(t) => {
                let n = match tag_at(t) {
                    Tag::Id(e) => self.doc.create_element(e),
                    Tag::Name(s) => self.doc.create_element(s.as_str()),
                };
                self.h.push(n)
            }
            Op::CreateText(t) => { let n = self.doc.create_node(NodeType::Text, TEXTS[t as usize]); self.h.push(n) }
            Op::CreateComment(t) => { let n = self.doc.create_node(NodeType::Comment, TEXTS[t as usize]); self.h.push(n) }
            Op::SetId(n, i) => h(self, n).set_id(IDS[i as usize]),
            Op::SetTag(n, t) => match tag_at(t) {
                Tag::Id(e) => h(self, n).set_tag_name(e),
                Tag::Name(s) => h(self, n).set_tag_name(s.as_str()),
            },
            Op::SetText(n, t) => {
                // both ways of writing a text
                if t % 2 == 0 { h(self, n).set_text(TEXTS[t as usize]) } else { *h(self, n).text_mut() = TEXTS[t as usize].into() }
            }
            Op::Set(n, a, v) => return res(h(self, n).set_attribute_checked(mk_attr(&name_at(a), value_at(v)))),
            Op::SetIfNone(n, a, v) => h(self, n).set_attribute_if_none(mk_attr(&name_at(a), value_at(v))),
            Op::Link(n, a, t, f) => {
                let t = h(self, t);
                let name = name_at(a);
                let v = match f {
                    0..=3 => AttributeValue::Paint(t, fallback_at(f)),
                    4 => AttributeValue::Link(t),
                    5 => AttributeValue::FuncLink(t),
                    _ => {
                        // the (name, node) shorthand
                        return res(match name {
                            AName::Id(id) => h(self, n).set_attribute_checked((id, t)),
                            AName::Name(ref s) => h(self, n).set_attribute_checked((s.as_str(), t)),
                        });
                    }
                };
                return res(h(self, n).set_attribute_checked(mk_attr(&name, v)));
            }
            Op::LinkIfNone(n, a, t) => {
                let t = h(self, t);
                match name_at(a) {
                    AName::Id(id) => h(self, n).set_attribute_if_none((id, t)),
                    AName::Name(ref s) => h(self, n).set_attribute_if_none((s.as_str(), t)),
                }
            }
            Op::Unset(n, a) => rm_attr(&mut h(self, n), &name_at(a)),
            Op::Write => {
                // Text directly below the root cannot be written; not part of this operation.
                if !self.doc.root().children().any(|c| c.is_text()) {
                    let a = self.doc.to_string();
                    let b = self.doc.to_string();
                    if a != b { panic!("two writes of one document differ"); }
                }
            }
        }
        Out::Unit
    }

    pub fn ix(&self, n: &Node) -> Option<Ix> { self.h.iter().position(|x| x == n) }
}

// ------------------------------------------------------------------- compare

macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) } }

pub fn fb_eq(a: &Option<PaintFallback>, b: &Option<PaintFallback>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(PaintFallback::None), Some(PaintFallback::None)) => true,
        (Some(PaintFallback::CurrentColor), Some(PaintFallback::CurrentColor)) => true,
        (Some(PaintFallback::Color(x)), Some(PaintFallback::Color(y))) =>
            (x.red, x.green, x.blue) == (y.red, y.green, y.blue),
        _ => false,
    }
}

/// Exact equality of two values without links.
pub fn plain_eq(a: &AttributeValue, b: &AttributeValue) -> bool {
    use AttributeValue::*;
    match (a, b) {
        (None, None) | (Inherit, Inherit) | (CurrentColor, CurrentColor) => true,
        (AspectRatio(x), AspectRatio(y)) => x == y,
        (Color(x), Color(y)) => (x.red, x.green, x.blue) == (y.red, y.green, y.blue),
        (Length(x), Length(y)) => x.num.to_bits() == y.num.to_bits() && x.unit == y.unit,
        (LengthList(x), LengthList(y)) => x.0.len() == y.0.len()
            && x.0.iter().zip(&y.0).all(|(x, y)| x.num.to_bits() == y.num.to_bits() && x.unit == y.unit),
        (Angle(x), Angle(y)) => x.num.to_bits() == y.num.to_bits() && x.unit == y.unit,
        (Number(x), Number(y)) => x.to_bits() == y.to_bits(),
        (NumberList(x), NumberList(y)) => x.0.len() == y.0.len()
            && x.0.iter().zip(&y.0).all(|(x, y)| x.to_bits() == y.to_bits()),
        (Path(x), Path(y)) => x == y,
        (Points(x), Points(y)) => x.0.len() == y.0.len()
            && x.0.iter().zip(&y.0).all(|(x, y)| x == y),
        (Transform(x), Transform(y)) => (x.a, x.b, x.c, x.d, x.e, x.f) == (y.a, y.b, y.c, y.d, y.e, y.f),
        (ViewBox(x), ViewBox(y)) => (x.x, x.y, x.w, x.h) == (y.x, y.y, y.w, y.h),
        (String(x), String(y)) => x == y,
        _ => false,
    }
}

/// Compares the attributes (as a map) of node `i` with the model.
pub fn compare_attrs(m: &MDoc, i: Ix, n: &Node, ix: &dyn Fn(&Node) -> Option<Ix>,
                     veq: &dyn Fn(&AttributeValue, &AttributeValue) -> bool) -> Result<(), String>
{
    let attrs = n.attributes();
    let want = &m.n[i].attrs;
    if attrs.len() != want.len() || attrs.iter().count() != want.len() {
        fail!("node {}: attributes are '{}', expected {}", i, *attrs, show_attrs(want));
    }
    if attrs.is_empty() != want.is_empty() { fail!("node {}: is_empty() is wrong", i); }
    for (name, v) in want {
        let found = attrs.iter().filter(|a| match (&a.name, name) {
            (QName::Id(x), AName::Id(y)) => x == y,
            (QName::Name(x), AName::Name(y)) => x == y,
            _ => false,
        }).collect::<Vec<_>>();
        if found.len() != 1 {
            fail!("node {}: {} attributes named {:?} in '{}', expected {}", i, found.len(), name, *attrs, show_attrs(want));
        }
        let ok = match (&found[0].value, v) {
            (AttributeValue::Link(t), MVal::Link(j)) => ix(t) == Some(*j),
            (AttributeValue::FuncLink(t), MVal::Func(j)) => ix(t) == Some(*j),
            (AttributeValue::Paint(t, fb), MVal::Paint(j, wfb)) => ix(t) == Some(*j) && fb_eq(fb, wfb),
            (AttributeValue::Link(_), _) | (AttributeValue::FuncLink(_), _) | (AttributeValue::Paint(..), _) => false,
            (a, MVal::Plain(b)) => veq(a, b),
            _ => false,
        };
        if !ok {
            fail!("node {}: attribute {:?} is {:?}, expected {}", i, name, found[0].value, val_key(v));
        }
    }
    Ok(())
}

pub fn show_attrs(a: &[(AName, MVal)]) -> String {
    let v: Vec<String> = a.iter().map(|(n, v)| format!("{:?}={}", n, val_key(v))).collect();
    format!("[{}]", v.join(", "))
}

/// Compares linked_nodes/uses_count/is_used of node `i`; order is not specified.
pub fn compare_linked(m: &MDoc, i: Ix, n: &Node, ix: &dyn Fn(&Node) -> Option<Ix>) -> Result<(), String> {
    let mut want = m.linked(i);
    let l = n.linked_nodes();
    let mut got = Vec::new();
    for x in l.iter() {
        match ix(x) {
            Some(j) => got.push(j),
            None => fail!("node {}: linked_nodes has an unknown node {:?}", i, x.tag_name().as_ref()),
        }
    }
    got.sort();
    want.sort();
    if got != want { fail!("node {}: linked_nodes are {:?}, expected {:?}", i, got, want); }
    if n.uses_count() != want.len() { fail!("node {}: uses_count() is {}, expected {}", i, n.uses_count(), want.len()); }
    if n.is_used() != !want.is_empty() { fail!("node {}: is_used() is {}", i, n.is_used()); }
    Ok(())
}

fn same(what: &str, i: Ix, got: Option<Node>, want: Option<Ix>, ix: &dyn Fn(&Node) -> Option<Ix>) -> Result<(), String> {
    let g = match got { Some(ref n) => match ix(n) { Some(j) => Some(j), None => fail!("node {}: {} is an unknown node", i, what) }, None => None };
    if g != want { fail!("node {}: {} is {:?}, expected {:?}", i, what, g, want); }
    Ok(())
}

pub fn compare_data(m: &MDoc, i: Ix, n: &Node) -> Result<(), String> {
    let w = &m.n[i];
    let kind = match n.node_type() {
        NodeType::Root => Kind::Root, NodeType::Element => Kind::Elem,
        NodeType::Text => Kind::Text, NodeType::Comment => Kind::Comment,
    };
    if kind != w.kind { fail!("node {}: type is {:?}, expected {:?}", i, kind, w.kind); }
    if (n.is_root(), n.is_element(), n.is_text(), n.is_comment())
        != (kind == Kind::Root, kind == Kind::Elem, kind == Kind::Text, kind == Kind::Comment) {
        fail!("node {}: is_root/is_element/is_text/is_comment disagree with {:?}", i, kind);
    }
    let tag_ok = match (&*n.tag_name(), &w.tag) {
        (QName::Id(x), Tag::Id(y)) => x == y,
        (QName::Name(x), Tag::Name(y)) => x == y,
        _ => false,
    };
    if !tag_ok { fail!("node {}: tag name is {:?}, expected {:?}", i, *n.tag_name(), w.tag); }
    let (tid, svg) = match w.tag { Tag::Id(e) => (Some(e), kind == Kind::Elem), Tag::Name(_) => (None, false) };
    if n.tag_id() != tid || n.is_svg_element() != svg { fail!("node {}: tag_id/is_svg_element wrong for {:?}", i, w.tag); }
    match w.tag {
        Tag::Id(e) => {
            if !n.has_tag_name(e) || n.has_tag_name(if e == EId::Vkern { EId::G } else { EId::Vkern }) || n.has_tag_name(e.as_str()) {
                fail!("node {}: has_tag_name wrong for {:?}", i, w.tag);
            }
        }
        Tag::Name(ref s) => {
            if !n.has_tag_name(s.as_str()) || n.has_tag_name(EId::G) || n.has_tag_name("other") {
                fail!("node {}: has_tag_name wrong for {:?}", i, w.tag);
            }
        }
    }
    if *n.id() != w.id || n.has_id() == w.id.is_empty() { fail!("node {}: id is '{}', expected '{}'", i, *n.id(), w.id); }
    if *n.text() != w.text { fail!("node {}: text is {:?}, expected {:?}", i, *n.text(), w.text); }
    if n.is_detached() == w.owned { fail!("node {}: is_detached() is {}, but owned is {}", i, n.is_detached(), w.owned); }
    Ok(())
}

pub fn compare_tree(m: &MDoc, i: Ix, n: &Node, ix: &dyn Fn(&Node) -> Option<Ix>) -> Result<(), String> {
    let w = &m.n[i];
    let sib = m.siblings(i);
    let pos = sib.iter().position(|&k| k == i).unwrap();
    let prev = if pos > 0 { Some(sib[pos - 1]) } else { None };
    let next = sib.get(pos + 1).cloned();
    same("parent()", i, n.parent(), w.parent, ix)?;
    same("first_child()", i, n.first_child(), w.kids.first().cloned(), ix)?;
    same("last_child()", i, n.last_child(), w.kids.last().cloned(), ix)?;
    same("previous_sibling()", i, n.previous_sibling(), prev, ix)?;
    same("next_sibling()", i, n.next_sibling(), next, ix)?;
    same("root()", i, Some(n.root()), Some(m.top(i)), ix)?;
    if n.has_children() == w.kids.is_empty() { fail!("node {}: has_children() is {}", i, n.has_children()); }
    let hp = w.parent.map_or(false, |p| m.n[p].kind != Kind::Root);
    if n.has_parent() != hp { fail!("node {}: has_parent() is {}, expected {}", i, n.has_parent(), hp); }
    let mut k = 0;
    for c in n.children() {
        if k >= w.kids.len() { fail!("node {}: children() yields too many nodes", i); }
        same("children() item", i, Some(c), Some(w.kids[k]), ix)?;
        k += 1;
    }
    if k != w.kids.len() { fail!("node {}: children() yields {} nodes, expected {}", i, k, w.kids.len()); }
    for c in n.children().rev() {
        if k == 0 { fail!("node {}: children().rev() yields too many nodes", i); }
        k -= 1;
        same("children().rev() item", i, Some(c), Some(w.kids[k]), ix)?;
    }
    if k != 0 { fail!("node {}: children().rev() yields too few nodes", i); }
    Ok(())
}

/// Every observable of every node (also of detached and removed ones).
pub fn compare_full(m: &MDoc, r: &Real) -> Result<(), String> {
    if m.n.len() != r.h.len() { fail!("{} nodes, expected {}", r.h.len(), m.n.len()); }
    let ix = |n: &Node| r.ix(n);
    for (i, n) in r.h.iter().enumerate() {
        compare_data(m, i, n)?;
        compare_tree(m, i, n, &ix)?;
        compare_attrs(m, i, n, &ix, &plain_eq)?;
        compare_linked(m, i, n, &ix)?;
        if m.n[i].kind == Kind::Elem {
            NAMES.with(|names| -> Result<(), String> {
                for name in names {
                    if has_attr(n, name) != m.attr(i, name).is_some() {
                        fail!("node {}: has_attribute({:?}) is {}", i, name, has_attr(n, name));
                    }
                }
                Ok(())
            })?;
        }
    }
    if r.doc.root() != r.h[0] { fail!("Document::root() changed"); }
    let svg = m.n[0].kids.iter().cloned().find(|&k| m.n[k].kind == Kind::Elem && m.n[k].tag == Tag::Id(EId::Svg));
    same("svg_element()", 0, r.doc.svg_element(), svg, &ix)?;
    Ok(())
}

/// Compares a document (no handles known) with the model: first the shape from
/// the root down, then everything else.  Model nodes outside of the tree are ignored.
pub fn compare_doc(m: &MDoc, doc: &Document, veq: &dyn Fn(&AttributeValue, &AttributeValue) -> bool) -> Result<(), String> {
    let mut list: Vec<(Ix, Node)> = Vec::new();
    let root = doc.root();
    map_nodes(m, 0, &root, &mut list)?;
    // Node has no hash or address; a small linear scan is fine for small documents,
    // and larger ones have few links.
    let ix = |n: &Node| list.iter().find(|x| x.1 == *n).map(|x| x.0);
    for (i, n) in &list {
        compare_data(m, *i, n)?;
        compare_attrs(m, *i, n, &ix, veq)?;
        compare_linked(m, *i, n, &ix)?;
        if list.len() <= 64 { compare_tree(m, *i, n, &ix)?; }
    }
    Ok(())
}

fn map_nodes(m: &MDoc, i: Ix, n: &Node, list: &mut Vec<(Ix, Node)>) -> Result<(), String> {
    list.push((i, n.clone()));
    let kids: Vec<Node> = n.children().collect();
    if kids.len() != m.n[i].kids.len() {
        fail!("node {} <{:?} id='{}'>: {} children ({}), expected {} ({})", i, m.n[i].tag, m.n[i].id, kids.len(),
            kids.iter().map(brief).collect::<Vec<_>>().join(" "), m.n[i].kids.len(),
            m.n[i].kids.iter().map(|&k| brief_m(m, k)).collect::<Vec<_>>().join(" "));
    }
    for (k, c) in m.n[i].kids.iter().zip(&kids) {
        map_nodes(m, *k, c, list)?;
    }
    Ok(())
}

pub fn brief(n: &Node) -> String {
    match n.node_type() {
        NodeType::Root => "root".into(),
        NodeType::Element => format!("<{}>", *n.tag_name()),
        NodeType::Text => format!("{:?}", *n.text()),
        NodeType::Comment => format!("<!--{}-->", *n.text()),
    }
}

fn brief_m(m: &MDoc, i: Ix) -> String {
    let n = &m.n[i];
    match n.kind {
        Kind::Root => "root".into(),
        Kind::Elem => format!("<{:?}>", n.tag),
        Kind::Text => format!("{:?}", n.text),
        Kind::Comment => format!("<!--{}-->", n.text),
    }
}

// ------------------------------------------------- exploration of operations

/// A set of model states, each with the shortest history that reaches it.
pub struct Space {
    pub init: Vec<Op>,
    pub alphabet: Vec<Op>,
    /// (predecessor state, operation); state 0 is the initial one
    pub back: Vec<(u32, Op)>,
    /// all states up to this depth are in the set
    pub depth_reached: usize,
    /// the state limit was hit: only a part of the next depth is in the set
    pub capped: bool,
    pub closed: bool,
}

impl Space {
    pub fn model_at(&self, s: usize) -> MDoc {
        let mut m = MDoc::new();
        for op in &self.init { op.apply_model(&mut m); }
        for op in self.history(s) { op.apply_model(&mut m); }
        m
    }
    pub fn history(&self, mut s: usize) -> Vec<Op> {
        let mut v = vec![];
        while s != 0 { v.push(self.back[s].1); s = self.back[s].0 as usize; }
        v.reverse();
        v
    }
    pub fn states(&self) -> usize { self.back.len() }
}

/// Breadth-first search over the model.  `dedup`: merge equal states (each
/// state keeps its first, shortest history); otherwise every history is a
/// state of its own (stateless exploration, which also finds hidden state).
/// `limit` stops the growth of the model (e.g. number of nodes).
pub fn explore(init: Vec<Op>, alphabet: Vec<Op>, max_depth: usize, max_states: usize, dedup: bool,
               limit: &dyn Fn(&MDoc) -> bool) -> Space
{
    let mut m0 = MDoc::new();
    for op in &init { assert!(op.enabled(&m0)); op.apply_model(&mut m0); }
    let mut seen: HashMap<String, ()> = HashMap::new();
    seen.insert(m0.key(), ());
    let mut back = vec![(0u32, Op::Write)];
    let mut frontier = vec![(0usize, m0)];
    let mut depth = 0;
    let mut closed = false;
    let mut capped = false;
    'outer: while depth < max_depth {
        let mut next = vec![];
        for (s, m) in &frontier {
            for op in &alphabet {
                if !op.enabled(m) { continue; }
                let mut m2 = m.clone();
                op.apply_model(&mut m2);
                if !limit(&m2) { continue; }
                if dedup {
                    let k = m2.key();
                    if seen.contains_key(&k) { continue; }
                    seen.insert(k, ());
                }
                back.push((*s as u32, *op));
                next.push((back.len() - 1, m2));
                if back.len() >= max_states { capped = true; break 'outer; }
            }
        }
        if next.is_empty() { closed = true; break; }
        frontier = next;
        depth += 1;
    }
    Space { init, alphabet, back, depth_reached: depth, capped, closed }
}

pub fn show_ops(ops: &[Op]) -> String {
    ops.iter().map(show_op).collect::<Vec<_>>().join("; ")
}

pub fn show_op(op: &Op) -> String {
    match *op {
        Op::Set(n, a, v) => format!("set n{} {:?} = {:?}", n, name_at(a), value_at(v)),
        Op::SetIfNone(n, a, v) => format!("set_if_none n{} {:?} = {:?}", n, name_at(a), value_at(v)),
        Op::Link(n, a, t, f) => format!("link n{} {:?} -> n{} flavour {}", n, name_at(a), t, f),
        Op::LinkIfNone(n, a, t) => format!("link_if_none n{} {:?} -> n{}", n, name_at(a), t),
        Op::Unset(n, a) => format!("unset n{} {:?}", n, name_at(a)),
        Op::SetId(n, i) => format!("set_id n{} '{}'", n, IDS[i as usize]),
        Op::CreateElem(t) => format!("create {:?}", tag_at(t)),
        Op::CreateText(t) => format!("create text {:?}", TEXTS[t as usize]),
        Op::CreateComment(t) => format!("create comment {:?}", TEXTS[t as usize]),
        Op::Append(p, c) => format!("n{}.append(n{})", p, c),
        Op::Prepend(p, c) => format!("n{}.prepend(n{})", p, c),
        Op::Before(p, c) => format!("n{}.insert_before(n{})", p, c),
        Op::After(p, c) => format!("n{}.insert_after(n{})", p, c),
        Op::Detach(p) => format!("n{}.detach()", p),
        Op::Remove(p) => format!("remove(n{})", p),
        Op::Drain(r, p) => format!("drain(n{}, nodes {:b})", r, p),
        ref o => format!("{:?}", o),
    }
}

/// Replays a history on fresh real and model documents, comparing results of
/// each operation, and the full state at the end (and at each step if `each`).
pub fn replay(ops: &[Op], each: bool, ctx: &mut crate::engine::Ctx) -> Result<(MDoc, Real), String> {
    let mut m = MDoc::new();
    let mut r = Real::new();
    for (k, op) in ops.iter().enumerate() {
        let want = op.apply_model(&mut m);
        let got = r.apply(op);
        ctx.step(1);
        if got != want { return Err(format!("step {} ({}): result {:?}, expected {:?}", k, show_op(op), got, want)); }
        if each { ctx.compared(); compare_full(&m, &r).map_err(|e| format!("after step {} ({}): {}", k, show_op(op), e))?; }
    }
    ctx.compared();
    compare_full(&m, &r).map_err(|e| format!("after {}: {}", ops.last().map(show_op).unwrap_or_default(), e))?;
    Ok((m, r))
}

/// The model of a real document: what it shows through its API.
pub fn snapshot(doc: &Document) -> Result<MDoc, String> {
    fn collect(n: &Node, m: &mut MDoc, p: Option<Ix>, list: &mut Vec<(Ix, Node)>) {
        let i = match p {
            None => 0,
            Some(p) => {
                let kind = match n.node_type() {
                    NodeType::Root => Kind::Root, NodeType::Element => Kind::Elem,
                    NodeType::Text => Kind::Text, NodeType::Comment => Kind::Comment,
                };
                let tag = match *n.tag_name() { QName::Id(e) => Tag::Id(e), QName::Name(ref s) => Tag::Name(s.clone()) };
                let i = m.create(kind, tag, &n.text());
                m.n[i].id = n.id().clone();
                m.n[i].parent = Some(p);
                m.n[p].kids.push(i);
                i
            }
        };
        list.push((i, n.clone()));
        for c in n.children() { collect(&c, m, Some(i), list); }
    }
    let mut m = MDoc::new();
    let mut list = vec![];
    collect(&doc.root(), &mut m, None, &mut list);
    let ix = |n: &Node| list.iter().find(|x| x.1 == *n).map(|x| x.0).ok_or_else(|| "an attribute links to a node outside of the tree".to_string());
    for (i, n) in &list {
        for a in n.attributes().iter() {
            let name = match a.name { QName::Id(x) => AName::Id(x), QName::Name(ref s) => AName::Name(s.clone()) };
            let v = match a.value {
                AttributeValue::Link(ref t) => MVal::Link(ix(t)?),
                AttributeValue::FuncLink(ref t) => MVal::Func(ix(t)?),
                AttributeValue::Paint(ref t, fb) => MVal::Paint(ix(t)?, fb),
                ref v => MVal::Plain(v.clone()),
            };
            m.n[*i].attrs.push((name, v));
        }
    }
    Ok(m)
}
