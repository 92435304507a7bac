//! C08 (parsing is total), C09 (structure), C11 (references), C17 (values).

use std::sync::Arc;
use svgdom::{Document, ParserError};

use crate::engine::*;
use crate::model::*;
use crate::names::*;
use crate::opts;
use crate::refparse::{self, Reject};

/// Parses with svgdom and compares verdict and document with the reference.
pub fn check_text(xml: &str, ctx: &mut Ctx) -> Result<Option<Document>, String> {
    let want = refparse::expected(xml);
    let got = Document::from_str(xml);
    ctx.step(1);
    ctx.compared();
    match (want, got) {
        (Ok(m), Ok(d)) => {
            ctx.outcome(hash_str(&m.key()));
            compare_doc(&m, &d, &plain_eq)?;
            Ok(Some(d))
        }
        (Err(Reject::Xml), Err(ParserError::RoXmlError(e))) => { let _ = format!("{}", e); ctx.outcome(1); Ok(None) }
        (Err(Reject::NoSvg), Err(ParserError::NoSvgElement)) => { ctx.outcome(2); Ok(None) }
        (Ok(_), Err(e)) => Err(format!("refused with '{}', but it is an SVG document", e)),
        (Err(r), Ok(_)) => Err(format!("accepted, but expected to be refused ({:?})", r)),
        (Err(r), Err(e)) => Err(format!("refused with '{:?}', expected {:?}", e, r)),
    }
}

/// The same, and everything accepted must be writable.
pub fn check_total(xml: &str, ctx: &mut Ctx) -> R {
    if let Some(d) = check_text(xml, ctx)? {
        for o in opts::few() {
            let s = d.to_string_with_opt(&o);
            ctx.step(1);
            if s.is_empty() { return Err("an empty text was written".into()); }
        }
    }
    Ok(())
}

/// Sequences of tokens: all of length 0..=max, around which `wrap` puts a document.
pub fn token_suite<W>(name: &str, about: &str, toks: &'static [&'static str], max: u32, wrap: W, f: fn(&str, &mut Ctx) -> R) -> Suite
    where W: Fn(&str) -> String + Send + Sync + 'static
{
    let k = toks.len() as u64;
    let count: u64 = (0..=max).map(|l| k.pow(l)).sum();
    let wrap = Arc::new(wrap);
    let mk = move |mut i: u64| {
        let mut len = 0;
        while i >= k.pow(len) { i -= k.pow(len); len += 1; }
        let mut s = String::new();
        for _ in 0..len { s.push_str(toks[(i % k) as usize]); i /= k; }
        s
    };
    let w2 = wrap.clone();
    Suite::new(name, &format!("{}; all sequences of up to {} of {} tokens {:?}", about, max, k, toks), count,
        move |i, ctx| f(&wrap(&mk(i)), ctx), move |i| w2(&mk(i)))
}

/// A list of documents.
pub fn list_suite(name: &str, about: &str, list: Vec<String>, f: fn(&str, &mut Ctx) -> R) -> Suite {
    let list = Arc::new(list);
    let l2 = list.clone();
    Suite::new(name, about, list.len() as u64, move |i, ctx| f(&list[i as usize], ctx), move |i| l2[i as usize].clone())
}

/// A computed list of documents.
pub fn gen_suite<G>(name: &str, about: &str, count: u64, g: G, f: fn(&str, &mut Ctx) -> R) -> Suite
    where G: Fn(u64) -> String + Send + Sync + 'static
{
    let g = Arc::new(g);
    let g2 = g.clone();
    Suite::new(name, about, count, move |i, ctx| f(&g(i), ctx), move |i| g2(i))
}

fn only_total(xml: &str, ctx: &mut Ctx) -> R { check_total(xml, ctx) }
pub fn only_text(xml: &str, ctx: &mut Ctx) -> R { check_text(xml, ctx).map(|_| ()) }

pub fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('\'', "&apos;").replace('\n', "&#10;").replace('\t', "&#9;").replace('\r', "&#13;")
}

const S: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>";

const XML_TOKENS: [&str; 22] = [
    "<svg xmlns='http://www.w3.org/2000/svg'>", "</svg>", "<g xmlns='http://www.w3.org/2000/svg'/>", "<svg/>", "<s:svg xmlns:s='http://www.w3.org/2000/svg'/>", "<x>", "</x>", "text", " ",
    "<!--c-->", "<?p i?>", "<?xml version='1.0'?>", "<!DOCTYPE svg>", "<![CDATA[x]]>", "&lt;", "&e;", "<", "&", "\u{feff}",
    "<!DOCTYPE svg [<!ENTITY e 'v'>]>", "<style>", "</style>",
];

const BODY_TOKENS: [&str; 21] = [
    "<g>", "</g>", "<rect/>", "<text>", "</text>", "<tspan>", "</tspan>", "<x>", "</x>", "<style>", "</style>", "a",
    " ", "<!--c-->", "<![CDATA[ b ]]>", "<svg>", "</svg>", "<use xlink:href='#a'/>", "<g id='a'/>", "*{fill:red}", "\u{e9}",
];

const CHARS: [&str; 14] = ["<", ">", "/", "s", "v", "g", "=", "'", "&", ";", " ", "!", "-", "?"];

const VALUE_TOKENS: [&str; 24] = [
    "1", "-", ".", "e", "%", "px", " ", ",", "#", "a", "(", ")", "url(#", "none", "inherit", "M", "z", "rgb(", "red",
    "\u{e9}", "\"", "translate", "+", "0",
];

const CSS_TOKENS: [&str; 24] = [
    "*", "rect", "{", "}", "fill:red", ";", ",", ".", "#", "@", "/*", "*/", ">", "+", "[", "]", "\"", " ",
    "a", "=", "url(#g)", "\u{e9}", "{fill:red}", "{stroke:blue",
];

/// One attribute of each syntax.
pub const REPR: [(&str, &str); 32] = [
    ("use", "href"), ("text", "x"), ("rect", "x"), ("rect", "width"), ("stop", "offset"), ("g", "stroke-width"),
    ("g", "stroke-miterlimit"), ("g", "opacity"), ("feComposite", "k1"), ("g", "stroke-dasharray"), ("g", "fill"),
    ("set", "fill"), ("g", "stroke"), ("g", "mask"), ("g", "color"), ("stop", "stop-color"), ("text", "rotate"),
    ("polygon", "points"), ("path", "d"), ("g", "transform"), ("g", "font-size"), ("g", "font-size-adjust"),
    ("g", "display"), ("g", "overflow"), ("g", "letter-spacing"), ("g", "baseline-shift"), ("marker", "orient"),
    ("g", "glyph-orientation-horizontal"), ("g", "glyph-orientation-vertical"), ("svg", "viewBox"),
    ("svg", "preserveAspectRatio"), ("glyph", "unicode"),
];

fn with_attr(elem: &str, attr: &str, v: &str) -> String {
    let p = if attr == "href" { "xlink:" } else { "" };
    format!("{}<{} {}{}='{}'/><g id='a'/></svg>", S, elem, p, attr, escape(v))
}


const RULE_TOKENS: [&str; 22] = [
    "fill", ":", "red", ";", "fill:red", "stroke:", "url(#a)", " none", ",", "!important", "/*", "*/", "}", "{",
    "\"", "marker:url(#a)", "\u{e9}", "x", "transform:", "scale(2)", "rect", "@",
];

fn scaled_sizes() -> Vec<usize> { let mut v = sizes(17, 1100); v.insert(0, 0); v.extend([2048, 2049, 3000]); v }

fn scaled_suite(f: fn(&str, &mut Ctx) -> R) -> Suite {
    let list = scaled_sizes();
    let k = list.len() as u64;
    gen_suite("scaled", "24 families of documents that grow with n up to 3000", k * 24, move |i| scaled(list[(i % k) as usize], (i / k) as usize), f)
}

fn scaled(n: usize, f: usize) -> String {
    let rep = |s: &str| s.repeat(n);
    let each = |g: &dyn Fn(usize) -> String| (0..n).map(|k| g(k)).collect::<String>();
    let body = match f {
        0 => format!("{}{}", rep("<g>"), rep("</g>")),
        1 => rep("<rect/>"),
        2 => format!("<path d='M 1 2{}'/>", rep(" l 3 4")),
        3 => format!("<text x='{}'>{}</text>", rep("1 "), rep("a b ")),
        4 => format!("<style>{}</style><g class='c0 c1'/>", each(&|k| format!(".c{}{{opacity:0.{}}}", k, k))),
        5 => each(&|k| format!("<g id='i{}' xlink:href='#i{}'/>", k, k + 1)),
        6 => format!("<g id='a'/>{}", rep("<use xlink:href='#a'/>")),
        7 => format!("<g id='{}'/>", rep("\u{e9}")),
        8 => format!("<text>{}x{}</text>", rep("<tspan> a"), rep(" b</tspan>")),
        9 => rep("<!--c-->"),
        10 => format!("<g style='{}'/>", rep("fill:red;")),
        11 => format!("<g transform='{}'/>", rep("translate(1) ")),
        12 => format!("{}<rect fill='url(#a)'/>{}", rep("<x>"), rep("</x>")),
        13 => format!("{}<style>*{{fill:red}}</style>{}", rep("<g>"), rep("</g>")),
        14 => format!("<g {}/>", each(&|k| format!("a{}='{}' ", k, k))),
        15 => format!("<g {}/>", ATTRIBUTES.iter().filter(|a| !["xmlns", "xlink"].contains(a)).take(n).map(|a| format!("{}='1' ", a)).collect::<String>()),
        16 => format!("<style>g {} rect{{fill:red}}</style>{}<rect/>{}", rep("> g "), rep("<g>"), rep("</g>")),
        17 => format!("<polygon points='{}'/>", rep("1 2 ")),
        18 => format!("<g stroke-dasharray='{}'/>", rep("1.5mm,")),
        19 => format!("<g fill='{}'/>", rep("red")),
        20 => format!("<text>{}</text>", rep("ab\u{e9}")),
        21 => format!("<g class='{}'/><!--{}-->", rep("c "), rep("- ")),
        22 => format!("{}<text xml:space='preserve'> a <tspan> b </tspan></text>{}", rep("<g>"), rep("</g>")),
        _ => format!("<rect x='{}1' y='1{}' width='0.{}1'/>", rep(" "), rep("0"), rep("0")),
    };
    format!("{}{}</svg>", S, body)
}

/// Deeply nested documents on a thread with a usual stack: (source, what is written without indentation, number of nodes).
fn deep_case(n: usize, f: u64) -> (String, String, usize) {
    let svg = "<svg xmlns=\"http://www.w3.org/2000/svg\">";
    let rep = |s: &str| s.repeat(n);
    let (body, want, count) = match f {
        0 => (format!("{}<rect/>{}", rep("<g>"), rep("</g>")), format!("{}<rect/>{}", rep("<g>"), rep("</g>")), n + 1),
        1 => (format!("<text>{} a {}</text>", rep("<tspan>"), rep("</tspan>")), format!("<text>{}a{}</text>", rep("<tspan>"), rep("</tspan>")), n + 2),
        2 => (format!("<text>{}{}</text>", rep("<tspan> a "), rep("</tspan>")), format!("<text>{}<tspan>a{}</text>", rep("<tspan>a ").replacen("<tspan>a ", "", 1), rep("</tspan>")), 2 * n + 1),
        3 => (format!("{}{}", rep("<x>"), rep("</x>")), String::new(), 0),
        4 => (format!("{}<style>*{{fill:red}}</style>{}", rep("<g>"), rep("</g>")), format!("{}<g fill=\"#ff0000\"/>{}", rep("<g fill=\"#ff0000\">").replacen("<g fill=\"#ff0000\">", "", 1), rep("</g>").replacen("</g>", "", 1)), n),
        5 => (format!("<text>{}<tspan xml:space='preserve'> a </tspan>{}</text>", rep("<tspan>"), rep("</tspan>")), format!("<text>{}<tspan xml:space=\"preserve\"> a </tspan>{}</text>", rep("<tspan>"), rep("</tspan>")), n + 3),
        6 => (format!("{}<text> a </text>{}", rep("<g xml:space='preserve'>"), rep("</g>")), format!("{}<text> a </text>{}", rep("<g xml:space=\"preserve\">"), rep("</g>")), n + 2),
        _ => (format!("<use xlink:href='#a'/>{}<g id='a'/>{}", rep("<g>"), rep("</g>")), format!("<use xlink:href=\"#a\"/>{}<g id=\"a\"/>{}", rep("<g>"), rep("</g>")), n + 2),
    };
    let svg_out = if f == 7 { svg.replace("2000/svg\"", "2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"") } else { svg.to_string() };
    let want = match f { 3 => svg_out.replace('>', "/>"), 4 => format!("{}{}</svg>", svg_out.replace('>', " fill=\"#ff0000\">"), want), _ => format!("{}{}</svg>", svg_out, want) };
    (format!("{}{}</svg>", S, body), want, count + 2)
}

fn deep(tier: Tier) -> Suite {
    let list: &'static [usize] = tier.pick(&[100, 1000, 3000, 8000][..], &[100, 1000, 3000, 8000, 12000, 16000][..]);
    Suite::new("deep", "eight kinds of nested elements of up to 8000 (thorough: 16000) levels on a thread with a stack of 2 MiB: parsed, counted, written, dropped", list.len() as u64 * 8, move |i, ctx| {
        let (src, want, count) = deep_case(list[(i / 8) as usize], i % 8);
        ctx.step(2);
        ctx.compared();
        ctx.outcome(i);
        small_stack(move || {
            let d = Document::from_str(&src).map_err(|e| e.to_string())?;
            let n = d.root().descendants().count();
            if n != count { return Err(format!("{} nodes, expected {}", n, count)); }
            let mut o = svgdom::WriteOptions::default();
            o.indent = svgdom::Indent::None;
            let t = d.to_string_with_opt(&o);
            if t != want {
                let k = t.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                return Err(format!("written differently from byte {} on", k));
            }
            Ok(())
        })
    }, move |i| format!("{} levels of kind {}", list[(i / 8) as usize], i % 8))
}

/// A character of each width in UTF-8 at every byte offset of a text in every place.
fn offsets(tier: Tier) -> Suite {
    const PLACES: [&str; 24] = [
        "<g fill='@'/>", "<g stroke='url(#@)'/>", "<g stroke='url(#a) @'/>", "<use xlink:href='#@'/>", "<use xlink:href='@'/>", "<g id='@'/>", "<g class='@'/>",
        "<rect x='@'/>", "<path d='M 1 2 @ 3'/>", "<g transform='@'/>", "<polygon points='1 2 @'/>", "<g stroke-dasharray='@'/>", "<svg viewBox='@'/>",
        "<g style='@'/>", "<g style='fill:@'/>", "<g style='@:red;opacity:0.5'/>", "<style>@</style><rect/>", "<style>rect{@}</style><rect/>", "<style>rect{fill:@}</style><rect/>",
        "<style>.@{fill:red}</style><rect class='@'/>", "<text>@</text>", "<!--@-->", "<text><tspan xml:space='@'> @ </tspan></text>", "<x>@</x><g @='1'/>",
    ];
    const WIDE: [&str; 4] = ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{e9}\u{20ac}\u{1f600}"];
    let list = { let mut l = sizes(tier.pick(70, 300), 1100); l.insert(0, 0); l };
    let k = list.len() as u64;
    gen_suite("offsets", "characters of 2, 3 and 4 bytes at every byte offset of a text in 24 places", k * 24 * 4 * 2, move |i| {
        let n = list[(i % k) as usize];
        let r = i / k;
        let t = format!("{}{}{}", "a".repeat(n), WIDE[(r / 24 % 4) as usize], if r / 96 == 0 { "" } else { " b" });
        format!("{}{}</svg>", S, PLACES[(r % 24) as usize].replace('@', &t))
    }, only_total)
}

/// Long texts in every place.
pub fn long() -> Suite {
    const PLACES: [&str; 20] = [
        "<text>@</text>", "<text xml:space='preserve'>@  b </text>", "<text> c <tspan xml:space='preserve'> @  b </tspan>  d</text>", "<text><tspan>@ </tspan> <tspan> @</tspan></text>", "<!--@-->", "<title>@</title>",
        "<g id='@'/><use xlink:href='#@'/><g fill='url(#@) red' mask='url(#@)'/>", "<g id='@'/><use xlink:href='#@a'/><g fill='url(#a@) red'/><g id='@b'/>", "<a xlink:href='@'/>", "<g font-family='@' class='@'/>", "<g style='font-family:@;fill:red'/>",
        "<style>rect{font-family:@;fill:red}</style><rect/>", "<style>/*@*/rect{fill:red}</style><rect/>", "<glyph unicode='@'/>", "<g foo='@' fill='red'/>", "<foo>@</foo><rect/>", "<desc>@<x/>@</desc>",
        "<text><![CDATA[@]]></text>", "<g class='@ x'/><style>.x{fill:red}</style>", "<g fill='@'/><rect x='@' stroke-dasharray='@'/><path d='M 1 2 @'/>",
    ];
    let words = crate::text::long_words();
    let k = words.len() as u64;
    gen_suite("long", "texts of 60 to 65 537 characters in 20 places", k * 20, move |i| format!("{}{}</svg>", S, PLACES[(i / k) as usize].replace('@', &words[(i % k) as usize])), only_text)
}

/// Documents whose content other properties compare: parsed and written without a panic.
fn alive(s: Suite, prefix: &str) -> Suite {
    let s: &'static Suite = Box::leak(Box::new(s));
    Suite::new(&format!("{}-{}", prefix, s.name), &format!("accepted or refused, and written: {}", s.about), s.count, move |i, ctx| {
        let few = opts::few();
        let xml = (s.describe)(i);
        if Document::from_str(&xml).is_err() { return check_text(&xml, ctx).map(|_| ()); }
        write_all(&xml, ctx, &few[i as usize % few.len()])
    }, move |i| (s.describe)(i))
}

fn write_all(xml: &str, ctx: &mut Ctx, o: &svgdom::WriteOptions) -> R {
    if let Ok(d) = Document::from_str(xml) {
        let s = d.to_string_with_opt(o);
        ctx.step(2);
        ctx.compared();
        ctx.outcome(hash_str(&s));
        if s.is_empty() { return Err("an empty text was written".into()); }
    }
    Ok(())
}

pub fn c08(tier: Tier) -> Vec<Suite> {
    let mut v = c08_own(tier);
    v.extend(borrowed());
    v
}

/// The suites of C08 that have their own documents.
pub fn c08_own(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(list_suite("corpus", "documents that use every feature", crate::corpus::docs().iter().map(|s| s.to_string()).collect(), only_total));
    v.push(token_suite("documents", "whole documents", &XML_TOKENS, tier.pick(4, 5), |s| s.to_string(), only_total));
    v.push(token_suite("bodies", "contents of an svg element", &BODY_TOKENS, tier.pick(4, 5), |s| format!("{}{}</svg>", S, s), only_total));
    v.push(token_suite("characters", "raw characters", &CHARS, tier.pick(5, 6), |s| s.to_string(), only_total));
    v.push(token_suite("after", "raw characters inside an svg element", &CHARS, tier.pick(5, 6), |s| format!("{}<g {}</svg>", S, s), only_total));
    let k = VALUE_TOKENS.len() as u64;
    let n = tier.pick(3u32, 4);
    v.push(gen_suite("values", &format!("all values of {} tokens {:?} for an attribute of each syntax", n, VALUE_TOKENS), REPR.len() as u64 * k.pow(n), move |i| {
        let (e, a) = REPR[i as usize % REPR.len()];
        let mut r = i / REPR.len() as u64;
        let mut s = String::new();
        for _ in 0..n { s.push_str(VALUE_TOKENS[(r % k) as usize]); r /= k; }
        with_attr(e, a, &s)
    }, only_total));
    v.push(token_suite("style", "style sheets", &CSS_TOKENS, tier.pick(4, 5), |s| format!("{}<style>{}</style><rect/></svg>", S, s.replace('>', "&gt;")), only_total));
    v.push(token_suite("style-body", "style rules", &RULE_TOKENS, tier.pick(4, 5), |s| format!("{}<style>rect{{{}}}</style><rect/><g id='a'/></svg>", S, s.replace('>', "&gt;")), only_total));
    v.push(token_suite("style-attr", "style attributes", &RULE_TOKENS, tier.pick(4, 5), |s| format!("{}<rect style='{}'/><g id='a'/></svg>", S, s), only_total));
    v.push(scaled_suite(only_total));
    v.push(deep(tier));
    v.push(offsets(tier));
    let docs: Vec<&'static str> = crate::corpus::docs().to_vec();
    let step = 1;
    let per = opts::LAYOUTS * opts::VALUES / step;
    let mk = move |i: u64| { let o = i % per * step; (docs[(i / per) as usize], opts::make(o % opts::LAYOUTS, o / opts::LAYOUTS)) };
    let mk2 = mk.clone();
    v.push(Suite::new("options", "documents that use every feature written with all combinations of options",
        per * crate::corpus::docs().len() as u64,
        move |i, ctx| { let (d, o) = mk(i); write_all(d, ctx, &o) },
        move |i| { let (d, o) = mk2(i); format!("{} written with {}", d, opts::show(&o)) }));
    v
}

fn borrowed() -> Vec<Suite> {
    let mut v = vec![];
    for (p, l) in [("tree", c09(Tier::Quick)), ("refs", crate::refs::c11(Tier::Quick)), ("css", crate::css::c10(Tier::Quick)),
                   ("text", crate::text::c12(Tier::Quick)), ("value", crate::vals::c17(Tier::Quick))] {
        for s in l { if s.name != "long" || p == "tree" { v.push(alive(s, p)); } }
    }
    v
}

// ------------------------------------------------------------------------ C09

/// Node kinds: (start, end); leaves have an empty end.
const NODES: [(&str, &str); 17] = [
    ("<g>", "</g>"), ("<s:rect>", "</s:rect>"), ("<foo>", "</foo>"), ("<f:g>", "</f:g>"), ("<g xmlns=''>", "</g>"),
    ("<text>", "</text>"), ("<style>", "</style>"), ("<svg>", "</svg>"),
    ("<a xmlns='http://www.w3.org/2000/svg'>", "</a>"), ("<f:style>", "</f:style>"),
    ("t", ""), (" ", ""), ("<!--c-->", ""), ("<?p i?>", ""), ("<![CDATA[ x ]]>", ""), ("&e;", ""), ("&#x20;", ""),
];
const INNER: usize = 10;

fn tree_xml(shape: &[Option<usize>], kinds: &[usize]) -> Option<String> {
    fn rec(p: Option<usize>, shape: &[Option<usize>], kinds: &[usize], out: &mut String) {
        for i in 0..shape.len() {
            if shape[i] == p {
                out.push_str(NODES[kinds[i]].0);
                rec(Some(i), shape, kinds, out);
                out.push_str(NODES[kinds[i]].1);
            }
        }
    }
    for p in shape.iter().flatten() { if kinds[*p] >= INNER { return None; } }
    let mut s = String::new();
    rec(None, shape, kinds, &mut s);
    Some(s)
}

const TOPS: [(&str, &str); 4] = [
    ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:s='http://www.w3.org/2000/svg' xmlns:f='urn:f'>", "</svg>"),
    ("<s:svg xmlns:s='http://www.w3.org/2000/svg' xmlns='http://www.w3.org/2000/svg' xmlns:f='urn:f'>", "</s:svg>"),
    ("<svg xmlns='urn:f' xmlns:s='http://www.w3.org/2000/svg' xmlns:f='http://www.w3.org/2000/svg'>", "</svg>"),
    ("<f:svg xmlns='urn:f' xmlns:s='http://www.w3.org/2000/svg' xmlns:f='http://www.w3.org/2000/svg'>", "</f:svg>"),
];

fn shapes_suite(tier: Tier) -> Suite {
    let n = tier.pick(3, 4);
    // all shapes with all kind assignments that are trees
    let mut list: Vec<(Vec<Option<usize>>, Vec<usize>)> = vec![];
    for size in 0..=n {
        for shape in crate::trees::forests(size) {
            let inner: Vec<bool> = (0..size).map(|i| shape.contains(&Some(i))).collect();
            let mut kinds = vec![0usize; size];
            'all: loop {
                list.push((shape.clone(), kinds.clone()));
                let mut k = 0;
                loop {
                    if k == size { break 'all; }
                    kinds[k] += 1;
                    if kinds[k] < if inner[k] { INNER } else { NODES.len() } { break; }
                    kinds[k] = 0;
                    k += 1;
                }
            }
        }
    }
    let tops = TOPS.len() as u64;
    let list = Arc::new(list);
    let count = list.len() as u64 * tops;
    gen_suite("trees", &format!("all trees of up to {} nodes of {} kinds (SVG elements with several namespace spellings, foreign and unknown elements, style, text, comments, CDATA, entities, processing instructions) in {} kinds of svg elements", n, NODES.len(), TOPS.len()), count, move |i| {
        let (shape, kinds) = &list[(i / tops) as usize];
        let t = TOPS[(i % tops) as usize];
        format!("<!DOCTYPE svg [<!ENTITY e 'v'>]>{}{}{}", t.0, tree_xml(shape, kinds).unwrap(), t.1)
    }, only_text)
}

/// A valid value for each syntax.
pub fn valid_value(name: &str) -> &'static str {
    use refparse::K::*;
    match refparse::kind(name) {
        Iri => "#a", Coord | Len => "10mm", NumOrPercent => "5%", InhLen => "2px", InhNum => "3", InhUnit | Unit => "0.5",
        Dashes => "1 2", Fill | Paint => "url(#a) red", Func => "url(#a)", Color | StopColor => "#123", Nums => "1 2",
        Points => "1 2 3 4", Path => "M 1 2 L 3 4", Transform => "scale(2)", FontSize => "12pt", NoneInhNum => "0.7",
        NoneInhStr => "inline", InhStr => "visible", Spacing => "normal", Shift => "sub", Orient => "45deg",
        InhAngle | InhAutoAngle => "90", ViewBox => "0 0 1 2", Aspect => "xMinYMid slice", Str | Unicode => " q ", Dropped => "zz",
    }
}

const SPELLINGS: [&str; 8] = ["", "s:", "xlink:", "xml:", "f:", "y:", "svg:", "x:"];
const ATTR_TOP: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:s='http://www.w3.org/2000/svg' xmlns:svg='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:x='http://www.w3.org/1999/xlink' xmlns:f='urn:f' xmlns:y='http://www.w3.org/2000/svg#'><g id='a'/>";

fn attr_names() -> Vec<String> {
    let mut v: Vec<String> = ATTRIBUTES.iter().filter(|a| !["xmlns", "xlink"].contains(a)).map(|s| s.to_string()).collect();
    for a in ["data-x", "X", "Fill", "filll", "fil", "_", "version2", "xlinkhref", "onClick"] { v.push(a.into()); }
    v
}

pub fn c09(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(list_suite("corpus", "documents that use every feature", crate::corpus::docs().iter().map(|s| s.to_string()).collect(), only_text));
    v.push(shapes_suite(tier));
    // all element names in all spellings, nested in each other
    let mut names: Vec<String> = ELEMENTS.iter().map(|s| s.to_string()).collect();
    for n in ["unknown", "SVG", "Rect", "recta", "rec", "tbreak", "flowRoot", "hatch"] { names.push(n.into()); }
    let names = Arc::new(names);
    let e = names.len() as u64;
    let n2 = names.clone();
    v.push(gen_suite("elements", "every element name (and some that are none) x namespace spelling x every name as parent, with text, comment and attributes", e * e * 4, move |i| {
        let p = ["", "s:", "f:", "svg:"][(i % 4) as usize];
        let (a, b) = (&n2[(i / 4 % e) as usize], &n2[(i / 4 / e) as usize]);
        format!("{}<{}{} id='p'>u<{} x='1' s:id='i'>t<!--c--></{}> v <rect/></{}{}></svg>", ATTR_TOP, p, a, b, b, p, a)
    }, only_text));
    let attrs = Arc::new(attr_names());
    let (na, ns) = (attrs.len() as u64, SPELLINGS.len() as u64);
    let a1 = attrs.clone();
    v.push(gen_suite("attributes", "every attribute name (and some that are none) x namespace spelling x every element", na * ns * ELEMENTS.len() as u64, move |i| {
        let a = &a1[(i % na) as usize];
        let e = ELEMENTS[(i / na / ns) as usize];
        format!("{}<{} {}{}='{}'/></svg>", ATTR_TOP, e, SPELLINGS[(i / na % ns) as usize], a, valid_value(a))
    }, only_text));
    let a2 = attrs.clone();
    let sp = 4u64;
    v.push(gen_suite("pairs", "every two attributes on one element", na * na * sp * sp, move |i| {
        let (a, b) = (&a2[(i % na) as usize], &a2[(i / na % na) as usize]);
        let r = i / na / na;
        let (p, q) = (SPELLINGS[(r % sp) as usize], SPELLINGS[(r / sp) as usize]);
        format!("{}<g {}{}='{}' {}{}='{}'/></svg>", ATTR_TOP, p, a, valid_value(a), q, b, valid_value(b))
    }, only_text));
    let ids = ["", "a", "A", "a b", " a ", "\u{e9}", "a&amp;b", "a&#10;b", "1", "url(#a)", "#a", "&lt;", "a'b"];
    let (k, ids) = (ids.len() as u64, ids.to_vec());
    v.push(gen_suite("ids", "ids with special characters, empty and duplicated", k * k * 2, move |i| {
        let (a, b) = (ids[(i % k) as usize], ids[(i / k % k) as usize]);
        format!("{}<g {}=\"{}\"/><g id=\"{}\" class='x' style='y'/></svg>", ATTR_TOP, if i / k / k == 0 { "id" } else { "xml:id" }, a, b)
    }, only_text));
    let words = Arc::new(crate::text::xml_words());
    let k = words.len() as u64;
    v.push(gen_suite("words", "special characters and sequences as id, text, entity, CDATA section, attribute value, class and processing instruction", k * 6, move |i| {
        let w = &words[(i % k) as usize];
        let e = escape(w).replace('>', "&gt;");
        match i / k {
            0 => format!("{}<g id='{}'/><g id='{}a'/></svg>", ATTR_TOP, e, e),
            1 => format!("{}<text>{}</text><g>{}</g><title xml:space='preserve'>{}</title></svg>", ATTR_TOP, e, e, e),
            2 => format!("{}<text>a<![CDATA[{}]]>b</text><g><![CDATA[{}]]></g></svg>", ATTR_TOP, w.replace("]", "x"), w.replace("]", "x")),
            3 => format!("{}<g class='{}' type='{}' xlink:title='{}' f:a='{}' font-family='{}'/></svg>", ATTR_TOP, e, e, e, e, e),
            4 => format!("{}<g><?p {}?><rect/></g></svg>", ATTR_TOP, w.replace('?', "!")),
            _ => format!("<!DOCTYPE svg [<!ENTITY e '{}'>]>{}<text>&e;</text><g id='&e;'/><rect>x&e;y</rect></svg>", e.replace('&', "&#38;"), ATTR_TOP),
        }
    }, only_text));
    let cs: Vec<String> = crate::text::strings(&[' ', 'a', '\n', '\t', '<', '&', '>', '!', '[', '\u{e9}'], tier.pick(4, 5)).into_iter().chain(crate::text::xml_words()).collect();
    let k = cs.len() as u64;
    v.push(gen_suite("comments", "comments of up to 4 characters of 10 at five places", k * 5, move |i| {
        let c = format!("<!--{}-->", cs[(i % k) as usize]);
        let p = |n: u64| if i / k == n { c.as_str() } else { "" };
        format!("{}<svg xmlns='http://www.w3.org/2000/svg'>{}<g>{}<rect/></g><text>a{}b</text></svg>{}", p(0), p(1), p(2), p(3), p(4))
    }, only_text));
    v.push(text_attributes());
    v.push(long());
    v.push(combinations(tier));
    v.push(scaled_suite(only_text));
    v
}

/// Every attribute on elements with text in them.
pub fn text_attributes() -> Suite {
    const ON: [&str; 8] = ["text", "tspan", "tref", "textPath", "altGlyph", "a", "g", "title"];
    const SPACES: [&str; 6] = ["", " ", "&#10;", " a ", "a", "  b  "];
    let attrs: Vec<String> = attr_names().into_iter().chain(["xml:space".to_string(), "xlink:href".to_string(), "xml:lang".to_string()]).collect();
    let (na, no, ns) = (attrs.len() as u64, ON.len() as u64, SPACES.len() as u64);
    gen_suite("text-attributes", "every attribute on every kind of element with text, around and next to spans with texts and white space", na * no * ns * ns * 2, move |i| {
        let a = &attrs[(i % na) as usize];
        let on = ON[(i / na % no) as usize];
        let (x, y) = (SPACES[(i / na / no % ns) as usize], SPACES[(i / na / no / ns % ns) as usize]);
        let val = if a == "xml:space" { "preserve" } else { valid_value(a) };
        if i / na / no / ns / ns == 0 {
            format!("{}<text>{}<{} {}='{}'>{}</{}>{}</text></svg>", ATTR_TOP, x, on, a, val, y, on, x)
        } else {
            format!("{}<{} {}='{}'>{}<tspan>{}</tspan>{}<tspan>{}</tspan></{}></svg>", ATTR_TOP, on, a, val, x, y, x, y, on)
        }
    }, only_text)
}

/// Parts of documents, one per feature.
const FEATURES: [&str; 96] = [
    "<g/>", "<g></g>", "<rect/>", "<g id='b'/>", "<g id='a'/>", "<g id=''/>", "<g id=' b'/>", "<defs/>", "<defs><g id='c'/></defs>", "<symbol id='c'><rect/></symbol>",
    "<linearGradient id='b'/>", "<linearGradient xlink:href='#b'/>", "<linearGradient id='c' xlink:href='#b'/>", "<radialGradient id='b' xlink:href='#c'/>", "<stop offset='0.5' stop-color='red'/>", "<use xlink:href='#b'/>",
    "<use href='#c'/>", "<use xlink:href='#none'/>", "<use xlink:href='b.svg#b'/>", "<g fill='url(#b)'/>", "<g fill='url(#none)'/>", "<g stroke='url(#none)'/>", "<g fill='url(#none) red'/>", "<g stroke='url(#b) none'/>",
    "<g clip-path='url(#b)'/>", "<g filter='url(#none)'/>", "<g mask='url(#c)' id='b'/>", "<g marker='url(#b)'/>", "<g style='marker:url(#b)'/>", "<g style='fill:url(#b)'/>", "<g style='fill:blue' fill='red'/>", "<g fill='red' style='fill:bad'/>",
    "<style>g{fill:green}</style>", "<style>rect{stroke:green}</style>", "<style>#b{fill:green}</style>", "<style>.k{fill:blue}</style>", "<style>g+g{fill:#010203}</style>", "<style>g g{stroke:#010203}</style>", "<style>*:first-child{opacity:0.5}</style>", "<style type='text/x'>g{fill:red}</style>",
    "<style><![CDATA[g > *{fill:#030201}]]></style>", "<style/>", "<style>g{transform:scale(2)}</style>", "<style>tspan{letter-spacing:2px}</style>", "<g class='k'/>", "<g class='k l' style=''/>", "<g transform='translate(1)'/>", "<g transform='translate(0)'/>",
    "<text/>", "<text>a</text>", "<text> a </text>", "<text xml:space='preserve'> a </text>", "<text>a<tspan>b</tspan>c</text>", "<text> a <tspan> b </tspan> c </text>", "<text><tspan> </tspan></text>", "<text>a<!--c-->b</text>",
    "<text x='1 2'>a<tref xlink:href='#b'/></text>", "<text id='b'> t <tspan id='c'/></text>", "<tspan> q </tspan>", "<tref xlink:href='#b'/>", "<textPath xlink:href='#b'> p </textPath>", "<a xlink:href='#b'> l </a>", "<title> t </title>", "<desc>\n d \n</desc>",
    "<g xml:space='preserve'/>", "<g xml:space='default'> </g>", "<g> a </g>", "a", " ", "\n", "&#10;", "&amp;", "&#x20;", "<![CDATA[ x ]]>", "<![CDATA[]]>", "<!--c-->",
    "<!---->", "<?p i?>", "<?p?>", "<foo/>", "<foo id='b'/>", "<foo><g id='b'/></foo>", "<f:g id='b'/>", "<f:foo>t</f:foo>", "<s:g/>", "<g xmlns='urn:x' id='c'/>", "<g xmlns=''/>", "<g f:id='b'/>",
    "<svg/>", "<svg id='b' viewBox='0 0 1 1'/>", "<script>x</script>", "<animate fill='freeze'/>", "<path d='M 1 2 L 3'/>", "<path d='bad'/>", "<polyline points='1 2 3'/>", "<image xlink:href='data:x' preserveAspectRatio='none'/>",
];

/// Puts a feature inside of another one, at its end.
fn inside(outer: &str, inner: &str) -> String {
    if let Some(p) = outer.rfind("</") { format!("{}{}{}", &outer[..p], inner, &outer[p..]) }
    else if outer.starts_with('<') && outer.ends_with("/>") {
        let tag: String = outer[1..].chars().take_while(|c| !" />".contains(*c)).collect();
        format!("{}>{}</{}>", &outer[..outer.len() - 2], inner, tag)
    } else { format!("{}{}", outer, inner) }
}

/// Every two features next to and inside of each other, between others.
pub fn combinations(tier: Tier) -> Suite {
    const AROUND: [(&str, &str); 4] = [("", ""), ("<g id='b'>", "</g><rect/>"), ("<text>u ", " v</text>"), ("<linearGradient id='c'/><defs>", "</defs><use xlink:href='#b' fill='url(#c)'/><style>g{stroke:red}</style>")];
    let k = FEATURES.len() as u64;
    if tier == Tier::Deep {
        return gen_suite("combinations", &format!("every three of {} features next to and inside of each other, in 4 surroundings", k), k * k * k * 4 * 4, move |i| {
            let f = |n: u32| FEATURES[(i / k.pow(n) % k) as usize];
            let r = i / k / k / k;
            let (p, q) = AROUND[(r / 4) as usize];
            let body = match r % 4 {
                0 => format!("{}{}{}", f(0), f(1), f(2)),
                1 => inside(f(0), &format!("{}{}", f(1), f(2))),
                2 => format!("{}{}", inside(f(0), f(1)), f(2)),
                _ => inside(f(0), &inside(f(1), f(2))),
            };
            format!("{}{}{}{}</svg>", ATTR_TOP, p, body, q)
        }, only_text);
    }
    gen_suite("combinations", &format!("every two of {} features next to and inside of each other, in 4 surroundings", k), k * k * 2 * 4, move |i| {
        let (a, b) = (FEATURES[(i % k) as usize], FEATURES[(i / k % k) as usize]);
        let r = i / k / k;
        let (p, q) = AROUND[(r / 2) as usize];
        let body = if r % 2 == 0 { format!("{}{}", a, b) } else { inside(a, b) };
        format!("{}{}{}{}</svg>", ATTR_TOP, p, body, q)
    }, only_text)
}
