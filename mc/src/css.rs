//! C10: the cascade of attributes, style sheets and style attributes, against a
//! model with its own selectors, specificity and order.

use std::sync::Arc;
use svgdom::Document;

use crate::engine::*;
use crate::model::*;
use crate::parse::escape;
use crate::refparse::{self, Slots};

#[derive(Clone, Debug)]
pub enum Sub { Class(&'static str), Id(&'static str), Has(&'static str), Is(&'static str, &'static str), Word(&'static str, &'static str), Dash(&'static str, &'static str), First, Hover }

#[derive(Clone, Debug)]
pub struct Compound { pub tag: Option<&'static str>, pub star: bool, pub subs: Vec<Sub> }

/// Compounds from left to right; the combinator in front of each but the first.
#[derive(Clone, Debug)]
pub struct Selector(pub Vec<(char, Compound)>);

#[derive(Clone, Debug)]
pub struct Rule { pub group: Vec<Selector>, pub decls: Vec<(&'static str, String)> }

/// A source element.
#[derive(Clone, Debug)]
pub struct E {
    pub tag: &'static str,
    pub attrs: Vec<(&'static str, String)>,
    pub style: Option<Vec<(&'static str, String)>>,
    pub kids: Vec<E>,
    /// what stands in front of it, see NOISE
    pub noise: usize,
}

impl Compound {
    pub fn show(&self) -> String {
        let mut s = String::new();
        if let Some(t) = self.tag { s.push_str(t); } else if self.star || self.subs.is_empty() { s.push('*'); }
        for b in &self.subs {
            s.push_str(&match b {
                Sub::Class(c) => format!(".{}", c),
                Sub::Id(c) => format!("#{}", c),
                Sub::Has(a) => format!("[{}]", a),
                Sub::Is(a, v) => format!("[{}=\"{}\"]", a, v),
                Sub::Word(a, v) => format!("[{}~=\"{}\"]", a, v),
                Sub::Dash(a, v) => format!("[{}|=\"{}\"]", a, v),
                Sub::First => ":first-child".to_string(),
                Sub::Hover => ":hover".to_string(),
            });
        }
        s
    }
    fn spec(&self) -> (usize, usize, usize) {
        let ids = self.subs.iter().filter(|s| matches!(s, Sub::Id(_))).count();
        (ids, self.subs.len() - ids, self.tag.is_some() as usize)
    }
}

impl Selector {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, (c, x)) in self.0.iter().enumerate() {
            if i > 0 { s.push_str(&match c { ' ' => " ".to_string(), c => format!(" {} ", c) }); }
            s.push_str(&x.show());
        }
        s
    }
    fn spec(&self) -> (usize, usize, usize) {
        self.0.iter().fold((0, 0, 0), |a, (_, c)| { let s = c.spec(); (a.0 + s.0, a.1 + s.1, a.2 + s.2) })
    }
}

/// A flattened element for matching: parent and previous sibling.
struct Flat<'a> { e: &'a E, parent: Option<usize>, prev: Option<usize> }

fn flatten<'a>(e: &'a E, parent: Option<usize>, prev: Option<usize>, out: &mut Vec<Flat<'a>>) -> usize {
    let me = out.len();
    out.push(Flat { e, parent, prev });
    let mut last = None;
    for k in &e.kids { last = Some(flatten(k, Some(me), last, out)); }
    me
}

fn attr<'a>(e: &'a E, name: &str) -> Option<&'a str> { e.attrs.iter().find(|a| a.0 == name).map(|a| a.1.as_str()) }

fn match_compound(c: &Compound, f: &[Flat], i: usize) -> bool {
    let e = f[i].e;
    if c.tag.map_or(false, |t| t != e.tag) { return false; }
    c.subs.iter().all(|s| match s {
        Sub::Class(c) => attr(e, "class").map_or(false, |v| v.split(' ').any(|w| w == *c)),
        Sub::Id(c) => attr(e, "id") == Some(c),
        Sub::Has(a) => attr(e, a).is_some(),
        Sub::Is(a, v) => attr(e, a) == Some(v),
        Sub::Word(a, v) => attr(e, a).map_or(false, |x| x.split(' ').any(|w| w == *v)),
        Sub::Dash(a, v) => attr(e, a).map_or(false, |x| x == *v || x.starts_with(&format!("{}-", v))),
        Sub::First => f[i].prev.is_none(),
        Sub::Hover => false,
    })
}

/// All ways to satisfy the first n compounds, the last of them at element i.
fn match_selector(s: &[(char, Compound)], f: &[Flat], i: usize) -> bool {
    let (comb, last) = match s.last() { Some(x) => (x.0, &x.1), None => return true };
    if !match_compound(last, f, i) { return false; }
    let rest = &s[..s.len() - 1];
    if rest.is_empty() { return true; }
    match comb {
        '>' => f[i].parent.map_or(false, |p| match_selector(rest, f, p)),
        '+' => f[i].prev.map_or(false, |p| match_selector(rest, f, p)),
        _ => { let mut p = f[i].parent; while let Some(x) = p { if match_selector(rest, f, x) { return true; } p = f[x].parent; } false }
    }
}

fn decls_text(d: &[(&str, String)]) -> String { d.iter().map(|(n, v)| format!("{}:{}", n, v)).collect::<Vec<_>>().join(";") }

pub fn rule_text(r: &Rule) -> String {
    format!("{}{{{}}}", r.group.iter().map(|s| s.show()).collect::<Vec<_>>().join(", "), decls_text(&r.decls))
}

/// Source text in front of an element, and whether it leaves a comment (1) or a text (2) in the tree.
const NOISE: [(&str, u8); 8] = [("", 0), ("\n", 0), ("<!--n-->", 1), (" <!--n--> ", 1), ("<?p q?>", 0), ("x", 2), ("<?p q?><!--n--><?p?>", 1), ("<![CDATA[x]]>", 2)];

fn elem_xml(e: &E, out: &mut String) {
    out.push_str(NOISE[e.noise].0);
    out.push_str(&format!("<{}", e.tag));
    for (n, v) in &e.attrs { out.push_str(&format!(" {}='{}'", if *n == "href" { "xlink:href" } else { n }, escape(v))); }
    if let Some(ref d) = e.style { out.push_str(&format!(" style='{}'", escape(&decls_text(d)))); }
    out.push('>');
    for k in &e.kids { elem_xml(k, out); }
    out.push_str(&format!("</{}>", e.tag));
}

/// Where the rules are written.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place { Front, Back, Split, Defs, Typed, Cdata, Other, Commented }
pub const PLACES: [Place; 8] = [Place::Front, Place::Back, Place::Split, Place::Defs, Place::Typed, Place::Cdata, Place::Other, Place::Commented];

fn gt(s: &str) -> String { s.replace('>', "&gt;") }

/// The document: an svg element with the style sheet, the given elements, and link targets.
pub fn document(elems: &[E], rules: &[Rule], place: Place) -> String {
    let css = rules.iter().map(rule_text).collect::<Vec<_>>();
    let all = gt(&css.join("\n"));
    let mut body = String::new();
    for e in elems { elem_xml(e, &mut body); }
    let head = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>";
    let tail = "<g id='t1'/><g id='t2'/></svg>";
    match place {
        Place::Front => format!("{}<style>{}</style>{}{}", head, all, body, tail),
        Place::Back => format!("{}{}{}", head, body, tail.replace("</svg>", &format!("<style>{}</style></svg>", all))),
        Place::Split => {
            let k = css.len() / 2;
            format!("{}<style>{}</style>{}{}", head, gt(&css[..k].join(" ")), body, tail.replace("</svg>", &format!("<style type='text/css'>{}</style></svg>", gt(&css[k..].join(" ")))))
        }
        Place::Defs => format!("{}<g><style>{}</style></g>{}{}", head, all, body, tail),
        Place::Typed => format!("{}<style type='text/css'>/* c */ {} </style>{}{}", head, all, body, tail),
        Place::Cdata => format!("{}<style type='text/css'><![CDATA[{}]]></style>{}{}", head, css.join(" "), body, tail),
        Place::Commented => format!("{}<style><!-- c -->{}<?p i?></style>{}{}", head, css.iter().map(|r| gt(r)).collect::<Vec<_>>().join("<!-- rect{fill:#987654} -->"), body, tail),
        Place::Other => format!("{}<style type='text/plain'>{}</style>{}{}", head, all, body, tail),
    }
}

/// What the document must contain.
pub fn expected(elems: &[E], rules: &[Rule], place: Place) -> MDoc {
    // the whole source tree for matching, style elements included
    let plain = |tag: &'static str, kids: Vec<E>| E { tag, attrs: vec![], style: None, kids, noise: 0 };
    let style = || plain("style", vec![]);
    let target = |id: &str| E { tag: "g", attrs: vec![("id", id.to_string())], style: None, kids: vec![], noise: 0 };
    let mut kids = vec![];
    match place {
        Place::Front | Place::Split | Place::Cdata | Place::Commented => kids.push(style()),
        Place::Typed | Place::Other => { let mut s = style(); s.attrs.push(("type", if place == Place::Typed { "text/css" } else { "text/plain" }.into())); kids.push(s); }
        Place::Defs => kids.push(plain("g", vec![style()])),
        Place::Back => {}
    }
    if place == Place::Cdata { kids[0].attrs.push(("type", "text/css".into())); }
    kids.extend(elems.iter().cloned());
    kids.push(target("t1"));
    kids.push(target("t2"));
    if place == Place::Back { kids.push(style()); }
    if place == Place::Split { let mut s = style(); s.attrs.push(("type", "text/css".into())); kids.push(s); }
    let root = plain("svg", kids);

    // every selector of a group is a rule of its own; stable order by specificity
    let mut list: Vec<(&Selector, &Rule)> = vec![];
    for r in rules { for s in &r.group { list.push((s, r)); } }
    list.sort_by_key(|x| x.0.spec());

    let mut flat = vec![];
    flatten(&root, None, None, &mut flat);
    let mut m = MDoc::new();
    let mut pending = vec![];
    let mut ids: Vec<Option<Ix>> = vec![];
    for i in 0..flat.len() {
        let e = flat[i].e;
        // style elements, elements without an SVG name, and everything in them
        if e.tag == "style" || e.tag == "foo" || flat[i].parent.map_or(false, |p| ids[p].is_none()) { ids.push(None); continue; }
        let n = m.elem(svgdom::ElementId::from_str(e.tag).unwrap());
        ids.push(Some(n));
        let p = flat[i].parent.map_or(0, |p| ids[p].unwrap());
        match NOISE[e.noise].1 {
            1 => { let c = m.create(Kind::Comment, Tag::Name(String::new()), "n"); m.append(p, c); }
            2 => { let c = m.create(Kind::Text, Tag::Name(String::new()), "x"); m.append(p, c); }
            _ => {}
        }
        m.append(p, n);
        let mut slots = Slots::default();
        for (a, v) in &e.attrs {
            if *a == "id" { m.n[n].id = v.clone(); }
            if crate::names::ATTRIBUTES.contains(a) { slots.set(e.tag, a, v); }
        }
        if place != Place::Other {
            for (s, r) in &list {
                if match_selector(&s.0, &flat, i) { for (a, v) in &r.decls { slots.set_css(e.tag, a, v); } }
            }
        }
        if let Some(ref d) = e.style { for (a, v) in d { slots.set_css(e.tag, a, v); } }
        refparse::finish(&mut m, n, slots, &mut pending);
    }
    refparse::resolve(&mut m, pending);
    m
}

pub fn check(elems: &[E], rules: &[Rule], place: Place, ctx: &mut Ctx) -> R {
    let m = expected(elems, rules, place);
    let xml = document(elems, rules, place);
    let d = Document::from_str(&xml).map_err(|e| format!("not parsed: {}", e))?;
    ctx.step(1);
    ctx.compared();
    ctx.outcome(hash_str(&m.key()));
    compare_doc(&m, &d, &plain_eq)
}

type Case = (Vec<E>, Vec<Rule>, Place);

fn suite<G>(name: &str, about: &str, count: u64, g: G) -> Suite where G: Fn(u64) -> Case + Send + Sync + 'static {
    let g = Arc::new(g);
    let g2 = g.clone();
    Suite::new(name, about, count, move |i, ctx| { let (e, r, p) = g(i); check(&e, &r, p, ctx) },
        move |i| { let (e, r, p) = g2(i); document(&e, &r, p) })
}

// ----------------------------------------------------------------- selectors

fn e(tag: &'static str, attrs: &[(&'static str, &str)], kids: Vec<E>) -> E {
    E { tag, attrs: attrs.iter().map(|a| (a.0, a.1.to_string())).collect(), style: None, kids, noise: 0 }
}

/// A tree in which every selector of the grammar can match something and miss something.
fn reference_tree() -> Vec<E> {
    let mut second = e("rect", &[("class", "b"), ("color", "v-w")], vec![]);
    second.noise = 1;
    vec![
        e("g", &[("class", "a"), ("id", "i")], vec![
            e("rect", &[("class", "a b"), ("color", "v")], vec![]),
            second,
            e("g", &[("class", "ab"), ("color", "w v x")], vec![
                e("rect", &[("id", "j")], vec![e("g", &[("class", "c")], vec![]), e("rect", &[("class", "b a")], vec![])]),
                e("path", &[("class", "a")], vec![]),
            ]),
            e("rect", &[("color", "vw")], vec![]),
        ]),
        e("rect", &[("class", " a  b ")], vec![e("rect", &[("color", "")], vec![])]),
        e("path", &[("id", "I"), ("class", "A")], vec![e("g", &[], vec![e("rect", &[("class", "a")], vec![])])]),
    ]
}

fn compounds(small: bool) -> Vec<Compound> {
    let subs: Vec<Vec<Sub>> = if small {
        vec![vec![], vec![Sub::Class("a")], vec![Sub::Id("i")], vec![Sub::First]]
    } else {
        vec![vec![], vec![Sub::Class("a")], vec![Sub::Class("b")], vec![Sub::Id("i")], vec![Sub::Id("j")], vec![Sub::Has("color")],
            vec![Sub::Is("color", "v")], vec![Sub::Word("color", "v")], vec![Sub::Dash("color", "v")], vec![Sub::First],
            vec![Sub::Class("a"), Sub::Class("b")], vec![Sub::Class("a"), Sub::Id("i")], vec![Sub::Class("b"), Sub::First],
            vec![Sub::Hover], vec![Sub::Is("color", "v"), Sub::Class("a")], vec![Sub::Has("class"), Sub::First]]
    };
    let mut v = vec![];
    for (tag, star) in [(None, true), (None, false), (Some("g"), false), (Some("rect"), false)].iter() {
        for s in &subs {
            if !*star && tag.is_none() && s.is_empty() { continue; }
            v.push(Compound { tag: *tag, star: *star, subs: s.clone() });
        }
    }
    if !small { v.push(Compound { tag: Some("svg"), star: false, subs: vec![] }); v.push(Compound { tag: Some("style"), star: false, subs: vec![] }); }
    v
}

fn simple(c: Compound) -> Selector { Selector(vec![(' ', c)]) }

fn rule(s: Selector, d: &[(&'static str, &str)]) -> Rule { Rule { group: vec![s], decls: d.iter().map(|x| (x.0, x.1.to_string())).collect() } }

// ------------------------------------------------------------------- cascade

/// Property and values: two valid ones, an invalid one, links.
const PROPS: [(&str, [&str; 5]); 13] = [
    ("fill", ["red", "none", "?", "url(#t1)", "url(#t2) blue"]),
    ("stroke", ["inherit", "#123456", "zz", "url(#t1) none", "url(#nope)"]),
    ("stroke-width", ["1", "2mm", "zz", "inherit", "3%"]),
    ("mask", ["none", "inherit", "zz", "url(#t1)", "url(#t2)"]),
    ("transform", ["scale(2)", "translate(5 6)", "zz(1)", "scale(1)", "rotate(30)"]),
    ("opacity", ["0.5", "2", "x", "inherit", "-1"]),
    ("font-size", ["5", "big", "inherit", "7em", "5%"]),
    ("marker-mid", ["none", "inherit", "zz", "url(#t1)", "url(#nope)"]),
    ("display", ["none", "inline", "inherit", "block", "zz"]),
    ("stroke-dasharray", ["1 2", "none", "z", "3", "inherit"]),
    ("x", ["1", "2", "z", "3", "4"]),
    ("width", ["1", "2", "z", "3", "4"]),
    ("stop-color", ["red", "currentColor", "zz", "inherit", "#fff"]),
];

fn match_selectors() -> Vec<Selector> {
    let c = |tag, star, subs| Compound { tag, star, subs };
    vec![
        simple(c(None, true, vec![])),
        simple(c(Some("rect"), false, vec![])),
        simple(c(None, false, vec![Sub::Class("a")])),
        simple(c(None, false, vec![Sub::Id("i")])),
        simple(c(Some("rect"), false, vec![Sub::Class("a")])),
        Selector(vec![(' ', c(Some("svg"), false, vec![])), ('>', c(Some("rect"), false, vec![]))]),
        simple(c(None, false, vec![Sub::Is("class", "a")])),
    ]
}

fn cascade(tier: Tier) -> Suite {
    let sels = Arc::new(match_selectors());
    let ns = tier.pick(6u64, 7);
    let per_rule = ns * 4;
    let len = tier.pick(2u32, 3);
    let lists: u64 = (0..=len).map(|l| per_rule.pow(l)).sum();
    let (na, nst) = (tier.pick(5u64, 5), tier.pick(7u64, 10));
    let count = PROPS.len() as u64 * na * nst * lists;
    suite("cascade", &format!("{} properties x presentation attribute absent or of {} values x all lists of up to {} rules ({} selectors of different specificity x 4 values) x style attribute with up to two declarations",
        PROPS.len(), na - 1, len, ns), count, move |i| {
        let (p, vals) = &PROPS[(i % PROPS.len() as u64) as usize];
        let mut r = i / PROPS.len() as u64;
        let a = r % na; r /= na;
        let s = r % nst; r /= nst;
        let mut l = 0;
        while r >= per_rule.pow(l) { r -= per_rule.pow(l); l += 1; }
        let mut rules = vec![];
        for _ in 0..l {
            let k = r % per_rule;
            r /= per_rule;
            rules.push(rule(sels[(k % ns) as usize].clone(), &[(p, vals[[0, 1, 2, 3][(k / ns) as usize]])]));
        }
        let mut el = e("rect", &[("class", "a"), ("id", "i")], vec![]);
        if a > 0 { el.attrs.push((p, vals[[0, 2, 3, 4][a as usize - 1]].to_string())); }
        let d: &[usize] = [&[][..], &[], &[1], &[2], &[3], &[0, 2], &[4, 1], &[1, 3], &[0, 1], &[4]][s as usize];
        if s > 0 { el.style = Some(d.iter().map(|&k| (*p, vals[k].to_string())).collect()); }
        (vec![el], rules, Place::Front)
    })
}

/// Several declarations of one property in one block.
fn blocks(tier: Tier) -> Suite {
    let len = tier.pick(3u32, 4);
    let lists: u64 = (0..=len).map(|l| 5u64.pow(l)).sum();
    let np = PROPS.len() as u64;
    suite("blocks", &format!("{} properties x attribute absent or of 4 values x all lists of up to {} declarations of the property (5 values) in one rule, in the style attribute, or in both", np, len),
        np * 5 * 3 * lists, move |i| {
        let (p, vals) = &PROPS[(i % np) as usize];
        let mut r = i / np;
        let a = r % 5; r /= 5;
        let place = r % 3; r /= 3;
        let mut l = 0;
        while r >= 5u64.pow(l) { r -= 5u64.pow(l); l += 1; }
        let mut d: Vec<(&'static str, String)> = vec![];
        // a value that is no CSS token at all ends the block; not the subject here
        for _ in 0..l { d.push((*p, vals[(r % 5) as usize].replace('?', "zz"))); r /= 5; }
        let mut el = e("rect", &[("class", "a")], vec![]);
        if a > 0 { el.attrs.push((p, vals[[0, 2, 3, 4][a as usize - 1]].to_string())); }
        let sel = simple(Compound { tag: None, star: false, subs: vec![Sub::Class("a")] });
        let mut rules = vec![];
        match place {
            0 => rules.push(Rule { group: vec![sel], decls: d }),
            1 => el.style = Some(d),
            _ => {
                let k = d.len() / 2;
                let rest = d.split_off(k);
                rules.push(Rule { group: vec![sel], decls: d });
                el.style = Some(rest);
            }
        }
        (vec![el], rules, Place::Front)
    })
}

pub fn c10(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(cascade(tier));
    v.push(blocks(tier));

    // every selector: which elements does it hit?
    let all = Arc::new(compounds(false));
    let n = all.len() as u64;
    let a1 = all.clone();
    let hit = [("fill", "red")];
    v.push(suite("selectors", "all selectors of one or two compounds x combinators on a tree of 14 elements", n + n * n * 3, move |i| {
        let s = if i < n { simple(a1[i as usize].clone()) } else {
            let r = i - n;
            Selector(vec![(' ', a1[(r % n) as usize].clone()), ([' ', '>', '+'][(r / n % 3) as usize], a1[(r / n / 3) as usize].clone())])
        };
        (reference_tree(), vec![rule(s, &hit)], Place::Front)
    }));
    let few = Arc::new(compounds(true));
    let n = few.len() as u64;
    let f1 = few.clone();
    v.push(suite("selectors-3", "all selectors of three compounds x combinators", n * n * n * 9, move |i| {
        let c = |k: u64| f1[(k % n) as usize].clone();
        let r = i / n / n / n;
        let s = Selector(vec![(' ', c(i)), ([' ', '>', '+'][(r % 3) as usize], c(i / n)), ([' ', '>', '+'][(r / 3) as usize], c(i / n / n))]);
        (reference_tree(), vec![rule(s, &hit)], Place::Back)
    }));
    // groups and the order of two selectors
    let g1 = Arc::new(if tier == Tier::Quick { compounds(true) } else { compounds(false) });
    let n = g1.len() as u64;
    v.push(suite("order", "two rules with any two compounds, or one group of them, in any place", n * n * 3 * 8, move |i| {
        let (a, b) = (simple(g1[(i % n) as usize].clone()), simple(g1[(i / n % n) as usize].clone()));
        let r = i / n / n;
        let rules = match r % 3 {
            0 => vec![rule(a, &[("fill", "red"), ("stroke", "none")]), rule(b, &[("fill", "blue")])],
            1 => vec![Rule { group: vec![a, b], decls: vec![("fill", "green".into())] }],
            _ => vec![rule(a.clone(), &[("fill", "red")]), Rule { group: vec![b, a], decls: vec![("fill", "url(#t1)".into()), ("fill", "bad bad".into())] }],
        };
        (reference_tree(), rules, PLACES[(r / 3) as usize])
    }));
    // shorthands and several declarations
    const D: [(&str, &str); 10] = [("marker", "url(#t1)"), ("marker", "none"), ("marker", "zz"), ("marker-start", "url(#t2)"), ("marker-mid", "inherit"),
        ("marker-end", "none"), ("marker-end", "zz"), ("marker-mid", "url(#t1)"), ("marker-start", "url(#nope)"), ("marker", "inherit")];
    let k = D.len() as u64 + 1;
    let slots = tier.pick(4u32, 5);
    v.push(suite("marker", "marker, marker-start, marker-mid, marker-end as attribute, in one or two rules and in the style attribute", k.pow(slots), move |i| {
        let at = |n: u32| { let x = (i / k.pow(n) % k) as usize; if x == 0 { None } else { Some(D[x - 1]) } };
        let mut el = e("path", &[], vec![]);
        let mut rules = vec![];
        let mut style = vec![];
        if let Some(d) = at(0) { el.attrs.push((d.0, d.1.into())); }
        let star = simple(Compound { tag: None, star: true, subs: vec![] });
        if let Some(d) = at(1) { rules.push(rule(star.clone(), &[d])); }
        if let Some(d) = at(2) { style.push((d.0, d.1.to_string())); }
        if let Some(d) = at(3) { style.push((d.0, d.1.to_string())); }
        if slots > 4 { if let Some(d) = at(4) { rules.push(rule(star, &[d])); } }
        if !style.is_empty() { el.style = Some(style); }
        (vec![el], rules, Place::Front)
    }));
    // every attribute by CSS: only presentation attributes and transform take effect
    let names: Vec<&'static str> = crate::names::ATTRIBUTES.iter().cloned().filter(|a| !["xmlns", "xlink"].contains(a)).chain(["foo", "Fill"].iter().cloned()).collect();
    let names = Arc::new(names);
    let k = names.len() as u64;
    v.push(suite("properties", "every attribute name as a property in a rule, a style attribute and both, with and without the attribute", k * 6 * 3, move |i| {
        let a = names[(i % k) as usize];
        let val = crate::parse::valid_value(a).trim().replace("#a", "#t1");
        let val = if val == "M 1 2 L 3 4" || val == "0 0 1 2" { val.replace(' ', ",") } else { val };
        let r = i / k;
        let mut el = e(["rect", "text", "set"][(r / 6) as usize], &[], vec![]);
        if r % 6 >= 3 && !["id", "class", "style"].contains(&a) { el.attrs.push((a, "inherit".to_string())); }
        let mut rules = vec![];
        if r % 3 != 1 { rules.push(rule(simple(Compound { tag: None, star: true, subs: vec![] }), &[(a, val.as_str())])); }
        if r % 3 != 0 { el.style = Some(vec![(a, val.clone()), ("stroke-width", "7".into())]); }
        (vec![el], rules, Place::Front)
    }));
    // every element with every property
    let tags: Vec<&'static str> = crate::names::ELEMENTS.iter().cloned().filter(|t| !["style", "text", "tspan", "tref", "textPath", "altGlyph"].contains(t)).chain(["text", "tspan", "tref", "textPath", "altGlyph"]).collect();
    let props: Vec<&'static str> = refparse::PRESENTATION.iter().cloned().chain(["transform"]).collect();
    let (nt, np) = (tags.len() as u64, props.len() as u64);
    v.push(suite("elements", "every element x every property by a rule for its name, its class, its id or its place, or by a style attribute, over an attribute", nt * np * 5, move |i| {
        let (t, a) = (tags[(i % nt) as usize], props[(i / nt % np) as usize]);
        let val = crate::parse::valid_value(a).trim().replace("#a", "#t1");
        let w = i / nt / np;
        let mut el = e(t, &[("id", "i"), ("class", "k"), (a, "inherit")], vec![]);
        let c = |tag, subs| Compound { tag, star: false, subs };
        let sel = match w {
            0 => Some(simple(c(Some(t), vec![]))),
            1 => Some(simple(c(None, vec![Sub::Class("k")]))),
            2 => Some(simple(c(None, vec![Sub::Id("i")]))),
            3 => Some(Selector(vec![(' ', c(Some("g"), vec![Sub::First])), ('>', c(None, vec![Sub::First]))])),
            _ => { el.style = Some(vec![(a, val.clone())]); None }
        };
        let rules = sel.map(|s| rule(s, &[(a, val.as_str())])).into_iter().collect();
        (vec![e("g", &[], vec![el, e("rect", &[], vec![])])], rules, Place::Back)
    }));
    // which style elements count
    const TYPES: [&str; 26] = ["text/css", "", " ", "text", "css", "TEXT/CSS", "Text/css", "text/CSS", " text/css", "text/css ", "text/css;charset=utf-8", "text/css; charset=utf-8", "text/css,text/css",
        "text/scss", "text/less", "text/cs", "text/csss", "text/", "/css", "text/plain", "application/css", "text/xml", "*/*", "all", "none", "inherit"];
    const MORE: [&str; 14] = ["", " media='all'", " media='print'", " media=''", " media='screen'", " title='a'", " id='t'", " class='b'", " disabled='disabled'", " xml:space='preserve'", " xml:lang='en'", " xlink:type='simple'", " xlink:href='a.css'", " href='b.css'"];
    const AROUND: [(&str, &str); 14] = [("", ""), ("<g>", "</g>"), ("<text>", "</text>"), ("<foo>", "</foo>"), ("<symbol><switch>", "</switch></symbol>"), ("<g display='none'>", "</g>"), ("<x:y xmlns:x='u'>", "</x:y>"),
        ("<svg>", "</svg>"), ("<style>rect{stroke:blue}</style>", ""), ("", "<style>rect{stroke:blue}</style>"), ("<title>", "</title>"), ("<metadata>", "</metadata>"), ("<!-- ", " -->"), ("<foreignObject>", "</foreignObject>")];
    v.push(crate::parse::gen_suite("style-elements", "style elements of every type x other attributes x place", 27 * 14 * 14 * 2, |i| {
        let ty = if i % 27 == 0 { String::new() } else { format!(" type='{}'", TYPES[(i % 27 - 1) as usize]) };
        let (a, b) = AROUND[(i / 27 / 14 % 14) as usize];
        let more = MORE[(i / 27 % 14) as usize];
        let attrs = if i / 27 / 14 / 14 == 0 { format!("{}{}", ty, more) } else { format!("{}{}", more, ty) };
        format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><rect fill='red' class='b'/>{}<style{}>rect{{fill:green}} style.b + *{{stroke:#010203}} .b{{opacity:0.5}}</style>{}<rect/></svg>", a, attrs, b)
    }, crate::parse::only_text));
    // what a style element contains
    const PIECES: [&str; 20] = ["rect{fill:red}", "g{stroke:red}", "rect{", "fill:blue", "}", ";", "<!--c-->", "<!--rect{fill:green}-->", "<?p i?>", "<![CDATA[rect{stroke:#111}]]>", "<![CDATA[", "]]>", "<g/>", "<g>rect{opacity:0.5}</g>",
        "/* c */", " ", "rect,g", "{stroke-width:3}", "<style>rect{color:red}</style>", "&#x72;ect"];
    let k = PIECES.len() as u64;
    let len = tier.pick(4u32, 5);
    v.push(crate::parse::gen_suite("contents", &format!("all sequences of up to {} of {} pieces (rules and parts of rules, comments, processing instructions, CDATA sections, elements, references) in a style element", len, k), (1..=len).map(|l| k.pow(l)).sum(), move |i| {
        let (mut i, mut l) = (i, 1);
        while i >= k.pow(l) { i -= k.pow(l); l += 1; }
        let mut s = String::new();
        for _ in 0..l { s.push_str(PIECES[(i % k) as usize]); i /= k; }
        format!("<svg xmlns='http://www.w3.org/2000/svg'><style>{}</style><rect/><g/></svg>", s)
    }, crate::parse::only_text));
    // several style elements and elements
    let sels = Arc::new(match_selectors());
    let k = sels.len() as u64 * 2;
    let len = tier.pick(4u32, 5);
    v.push(suite("sheets", &format!("{} rules in any order of specificity over two style elements", len), k.pow(len) , move |i| {
        let mut r = i;
        let mut rules = vec![];
        for x in 0..len {
            let q = r % k;
            r /= k;
            let c = ["red", "blue", "green", "#111111", "#222222", "#333333"][x as usize];
            rules.push(rule(sels[(q / 2) as usize].clone(), &[(if q % 2 == 0 { "fill" } else { "stroke" }, c)]));
        }
        (vec![e("rect", &[("class", "a"), ("id", "i"), ("fill", "url(#t1)")], vec![]), e("rect", &[], vec![])], rules, Place::Split)
    }));
    // what counts as a sibling
    let kinds: Vec<(&'static str, usize)> = ["rect", "foo", "style", "g"].iter().flat_map(|t| (0..NOISE.len()).map(move |n| (*t, n)))
        // the noise in front of a dropped element would be left alone in the tree: only what leaves nothing
        .filter(|(t, n)| NOISE[*n].1 == 0 || ["rect", "g"].contains(t)).collect();
    let k = kinds.len() as u64;
    let len = tier.pick(3u32, 4);
    v.push(suite("siblings", &format!("all rows of up to {} of {} kinds of elements with comments, processing instructions and texts in front of them: :first-child and adjacent siblings", len, k), (1..=len).map(|l| k.pow(l)).sum(), move |i| {
        let (mut i, mut l) = (i, 1);
        while i >= k.pow(l) { i -= k.pow(l); l += 1; }
        let mut row = vec![];
        for _ in 0..l {
            let (t, n) = kinds[(i % k) as usize];
            i /= k;
            let mut x = e(t, &[], vec![]);
            x.noise = n;
            row.push(x);
        }
        let c = |tag, subs| Compound { tag, star: false, subs };
        let adj = |a, b| Selector(vec![(' ', c(Some(a), vec![])), ('+', c(Some(b), vec![]))]);
        let rules = vec![
            rule(simple(c(None, vec![Sub::First])), &[("opacity", "0.5")]),
            rule(adj("foo", "rect"), &[("fill", "red")]),
            rule(adj("rect", "rect"), &[("stroke", "red")]),
            rule(adj("style", "rect"), &[("color", "red")]),
            rule(adj("rect", "g"), &[("stroke-width", "3")]),
            rule(Selector(vec![(' ', c(Some("rect"), vec![Sub::First])), ('+', c(None, vec![Sub::Hover])), ('+', c(Some("g"), vec![]))]), &[("stop-color", "red")]),
            rule(Selector(vec![(' ', c(None, vec![Sub::First])), ('+', Compound { tag: None, star: true, subs: vec![] }), ('+', c(Some("g"), vec![]))]), &[("flood-color", "red")]),
        ];
        (vec![e("g", &[], row)], rules, Place::Front)
    }));
    // attribute selectors
    let vals = crate::text::strings(&['v', 'w', ' ', '-', 'V', '\u{e9}'], tier.pick(4, 5));
    let k = vals.len() as u64;
    v.push(suite("values", "attribute, class and id selectors x all attribute values of up to 4 characters", k * 3, move |i| {
        let val = vals[(i % k) as usize].as_str();
        let a = ["class", "id", "font-family"][(i / k) as usize];
        let s = |subs| simple(Compound { tag: None, star: false, subs });
        let rules = vec![
            rule(s(vec![Sub::Is(a, "v")]), &[("fill", "red")]),
            rule(s(vec![Sub::Word(a, "v")]), &[("stroke", "red")]),
            rule(s(vec![Sub::Dash(a, "v")]), &[("stroke-width", "2")]),
            rule(s(vec![Sub::Has(a)]), &[("opacity", "0.5")]),
            rule(s(vec![Sub::Is(a, "v w")]), &[("color", "red")]),
            rule(s(vec![Sub::Class("v")]), &[("stop-color", "red")]),
            rule(s(vec![Sub::Id("v")]), &[("flood-color", "red")]),
            rule(s(vec![Sub::Dash(a, "v-w")]), &[("stop-opacity", "0.5")]),
        ];
        (vec![e("rect", &[(a, val)], vec![]), e("g", &[], vec![])], rules, Place::Back)
    }));
    // many different properties at once
    let plain: Vec<&'static str> = refparse::PRESENTATION.iter().cloned().collect();
    let np = plain.len() as u64;
    v.push(suite("many", "the first or last n properties in a rule, a style attribute, as attributes, and in several of these at once", np * 2 * 27, move |i| {
        let n = (i % np + 1) as usize;
        let take: Vec<&'static str> = if i / np % 2 == 0 { plain[..n].to_vec() } else { plain[plain.len() - n..].iter().rev().cloned().collect() };
        let w = i / np / 2;
        let val = |a: &str| crate::parse::valid_value(a).trim().replace("#a", "#t1");
        // nothing, one property, all of them
        let some = |k: u64| -> Vec<&'static str> { match k { 0 => vec![], 1 => vec![take[0]], _ => take.clone() } };
        let mut el = e("rect", &[], vec![]);
        for a in some(w % 3) { el.attrs.push((a, "inherit".into())); }
        let decls = some(w / 3 % 3);
        let star = Compound { tag: None, star: true, subs: vec![] };
        let rules = if decls.is_empty() { vec![] } else { vec![Rule { group: vec![simple(star)], decls: decls.iter().map(|a| (*a, val(a))).collect() }] };
        let style = some(w / 9);
        if !style.is_empty() { el.style = Some(style.iter().map(|a| (*a, if w % 2 == 0 { "inherit".into() } else { val(a) })).collect()); }
        (vec![el, e("g", &[], vec![])], rules, Place::Front)
    }));
    v.push(crate::parse::combinations(tier));
    v.push(case());
    v.push(style_attribute(tier));
    let list = sizes(70, 1100);
    v.push(suite("scaled", "n rules, n declarations in a style attribute or in a rule, n classes, n selectors in a rule", list.len() as u64 * 6, move |i| {
        let n = list[(i / 6) as usize];
        let mut el = e("rect", &[("class", &(0..n).map(|k| format!("c{}", k)).collect::<Vec<_>>().join(" "))], vec![]);
        let mut rules = vec![];
        match i % 6 {
            3 => rules.push(Rule { group: vec![simple(Compound { tag: None, star: true, subs: vec![] })], decls: (0..n).map(|k| ("stroke-width", k.to_string())).collect() }),
            4 => {
                // only the last selector of the group matches
                let mut group: Vec<Selector> = (1..n).map(|_| simple(Compound { tag: Some("foo"), star: false, subs: vec![] })).collect();
                group.push(simple(Compound { tag: Some("rect"), star: false, subs: vec![] }));
                rules.push(Rule { group, decls: vec![("stroke-width", n.to_string())] });
            }
            5 => {
                // n rules that do not match, then one
                for _ in 0..n { rules.push(rule(simple(Compound { tag: Some("foo"), star: false, subs: vec![] }), &[("stroke-width", "9")])); }
                rules.push(rule(simple(Compound { tag: Some("rect"), star: false, subs: vec![] }), &[("stroke-width", "3"), ("fill", "red")]));
            }
            0 => for k in 0..n { rules.push(rule(simple(Compound { tag: None, star: true, subs: vec![] }), &[("stroke-width", k.to_string().as_str())])); },
            1 => el.style = Some((0..n).map(|k| ("stroke-width", k.to_string())).collect()),
            _ => for k in 0..n {
                let subs = (0..(n - k) % 7).map(|_| Sub::Has("class")).collect();
                rules.push(rule(simple(Compound { tag: None, star: false, subs }), &[("stroke-width", k.to_string().as_str())]));
            },
        }
        (vec![el], rules, Place::Front)
    }));
    v
}

/// Names that are nearly `s`.
fn near(s: &str) -> Vec<String> {
    let mut cap = s.to_lowercase();
    if let Some(c) = cap.get(..1).map(str::to_uppercase) { cap.replace_range(..1, &c); }
    let mut v = vec![s.to_string(), s.to_lowercase(), s.to_uppercase(), cap, format!("{}x", s), format!("x{}", s), format!("{}-x", s), format!("-{}", s), format!("svg|{}", s), s.replace('-', "_"), s.replace('-', "")];
    if s.len() > 1 { v.push(s[..s.len() - 1].to_string()); v.push(s[1..].to_string()); }
    v.dedup();
    v
}

/// Near names of elements, classes, ids, attributes, pseudo-classes and properties.
fn case() -> Suite {
    const HEAD: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>";
    let mut docs: Vec<String> = vec![];
    for t in crate::names::ELEMENTS {
        for n in near(t) {
            docs.push(format!("{}<style>{}{{fill:red}}</style><{} class='k'><g/></{}><rect/></svg>", HEAD, n, t, t));
            docs.push(format!("{}<style>{}.k &gt; *{{fill:red}}</style><{} class='k'><g/></{}><rect/></svg>", HEAD, n, t, t));
            // an element of another name, which is not kept if it is unknown
            if !n.contains('|') && !n.starts_with('-') { docs.push(format!("{}<style>{}{{fill:red}} {} + rect{{stroke:red}}</style><{}/><rect/></svg>", HEAD, t, t, n)); }
        }
    }
    for a in crate::names::ATTRIBUTES {
        if ["xmlns", "xlink"].contains(&a) { continue; }
        for n in near(a) {
            let val = crate::parse::valid_value(a);
            docs.push(format!("{}<style>[{}]{{fill:red}}</style><g {}='{}'/><rect xlink:{}='v'/><rect/></svg>", HEAD, n, a, val, a));
            docs.push(format!("{}<style>[{}=v]{{fill:red}} [{}~='V']{{stroke:red}} [{}|=Vw]{{opacity:0.5}}</style><g {}='v'/><g {}='V v'/><rect {}='Vw-'/></svg>", HEAD, n, n, n, a, a, a));
        }
    }
    for (a, sel) in [("class", "."), ("id", "#")] {
        for w in ["k", "Cls", "a-b", "x1", "fill", "rect"] {
            for n in near(w) {
                docs.push(format!("{}<style>{}{}{{fill:red}}</style><g {}='{}'/><rect {}='{} z'/><rect {}='z {}'/></svg>", HEAD, sel, n, a, w, a, w, a, w));
                docs.push(format!("{}<style>{}{}{{fill:red}}</style><g {}='{}'/><rect {}='{}'/><rect xlink:{}='{}'/></svg>", HEAD, sel, n, a, n, if a == "id" { "class" } else { "id" }, n, a, n));
            }
        }
    }
    for ps in ["first-child", "link", "visited", "hover", "active", "focus", "lang(en)", "last-child", "root", "empty", "not(g)", "nth-child(1)", "first-line", ":before"] {
        for n in near(ps) {
            docs.push(format!("{}<style>rect:{}{{fill:red}} g{{stroke:red}}</style><g><rect xml:lang='en'/><rect/></g><a xlink:href='x'/><g/></svg>", HEAD, n));
        }
    }
    for a in refparse::PRESENTATION.iter().cloned().chain(["transform", "x", "href", "d", "class", "id", "style"]) {
        let val = crate::parse::valid_value(a).trim().to_string();
        for n in near(a) {
            docs.push(format!("{}<style>rect{{{}:{}}}</style><g style='{}:{}'/><rect/><rect {}='inherit'/></svg>", HEAD, n, val, n, val, a));
            docs.push(format!("{}<style>rect{{ {} : {} ; fill:red}}</style><g style=' {} : {} ; fill:red'/><rect/><rect {}='inherit'/></svg>", HEAD, n, val, n, val, a));
        }
    }
    crate::parse::list_suite("case", "selectors and declarations with names that are nearly those of every element, attribute, class, id, pseudo-class and property", docs, crate::parse::only_text)
}

/// What stands in a style attribute.
fn style_attribute(tier: Tier) -> Suite {
    const PIECES: [&str; 32] = ["fill:red", "fill:#0000ff", "stroke : none", "opacity:0.5", "fill:bad", "foo:bar", "-x:1", "--x:1", "-webkit-fill:red", "*fill:red", "x:1", ";", " ", ":", "&#10;", "/* c */", "/*", "!important", " !important", "@import 'x';", "{", "}",
        "fill", "red", "fill:", "url(#a)", "fill:url(#a) blue", "font-family:\"a;b\"", "font-family:'a:b", "font:12px a", "marker:none", "transform:scale(2)"];
    let k = PIECES.len() as u64;
    let len = tier.pick(3u32, 4);
    crate::parse::gen_suite("style-attribute", &format!("all sequences of up to {} of {} pieces (declarations and parts of them, vendor and unknown properties, comments, white space) in a style attribute over presentation attributes", len, k), (0..=len).map(|l| k.pow(l)).sum(), move |i| {
        let (mut i, mut l) = (i, 0);
        while i >= k.pow(l) { i -= k.pow(l); l += 1; }
        let mut s = String::new();
        for _ in 0..l { s.push_str(&PIECES[(i % k) as usize].replace('\'', "&apos;").replace('"', "&quot;")); i /= k; }
        format!("<svg xmlns='http://www.w3.org/2000/svg'><linearGradient id='a'/><g stroke='#010203' style='{}' fill='#040506'/></svg>", s)
    }, crate::parse::only_text)
}
