//! C12: white space processing of text.

use std::sync::Arc;
use svgdom::{AttributeId as AId, AttributeValue, Document, Node};

use crate::engine::*;

/// A source tree: what is written into the document and what is expected of it.
#[derive(Clone, Debug)]
pub enum T {
    /// raw characters (written with references where XML needs them)
    Text(String),
    Comment,
    Elem(&'static str, Option<&'static str>, Vec<T>),
}

pub fn to_xml(t: &T, out: &mut String) {
    match *t {
        T::Text(ref s) => for c in s.chars() {
            match c {
                '\r' => out.push_str("&#13;"),
                '&' => out.push_str("&amp;"),
                '<' => out.push_str("&lt;"),
                '>' => out.push_str("&gt;"),
                c => out.push(c),
            }
        },
        T::Comment => out.push_str("<!--c-->"),
        T::Elem(name, space, ref kids) => {
            out.push('<');
            out.push_str(name);
            if name == "svg" { out.push_str(" xmlns='http://www.w3.org/2000/svg'"); }
            if let Some(s) = space { out.push_str(&format!(" xml:space='{}'", s)); }
            out.push('>');
            for k in kids { to_xml(k, out); }
            out.push_str(&format!("</{}>", name));
        }
    }
}

fn is_content(name: &str) -> bool { ["text", "tspan", "tref", "textPath", "altGlyph"].contains(&name) }

/// One text node of the source.
struct Src { text: String, preserve: bool, stream: usize }

/// Collects the text nodes in document order.  A stream is what white space is
/// processed over as one text: an outermost text content element.
fn collect(t: &T, preserve: bool, stream: Option<usize>, next: &mut usize, out: &mut Vec<Src>) {
    if let T::Elem(name, space, ref kids) = *t {
        let preserve = space.map_or(preserve, |s| s == "preserve");
        let stream = if stream.is_none() && is_content(name) { *next += 1; Some(*next) } else { stream };
        for k in kids {
            match *k {
                T::Text(ref s) => out.push(Src { text: s.clone(), preserve, stream: stream.unwrap_or(0) }),
                _ => collect(k, preserve, stream, next, out),
            }
        }
    }
}

fn spaces(s: &str) -> String { s.chars().map(|c| if c == '\t' || c == '\n' || c == '\r' { ' ' } else { c }).collect() }

fn collapse(s: &str) -> String {
    let mut o = String::new();
    for c in spaces(s).chars() { if !(c == ' ' && o.ends_with(' ')) { o.push(c); } }
    o
}

/// The text of a stream as a sequence of (character, preserved).
fn expected_stream(list: &[&Src]) -> String {
    let mut o: Vec<(char, bool)> = vec![];
    for s in list {
        for c in spaces(&s.text).chars() {
            if c == ' ' && !s.preserve {
                match o.last() {
                    None => continue,                // leading
                    Some(&(' ', _)) => continue,     // run
                    _ => {}
                }
            }
            o.push((c, s.preserve));
        }
    }
    if let Some(&(' ', false)) = o.last() { o.pop(); }
    o.into_iter().map(|x| x.0).collect()
}

/// Matches the real tree with the source and collects the resulting texts.
fn walk(t: &T, n: &Node, got: &mut Vec<String>) -> R {
    if let T::Elem(name, space, ref kids) = *t {
        if n.tag_id().map_or("", |x| x.as_str()) != name { return Err(format!("element {} instead of {}", *n.tag_name(), name)); }
        {
            let a = n.attributes();
            let ok = match (space, a.get_value(AId::Space)) {
                (None, None) => a.len() == 0,
                (Some(s), Some(AttributeValue::String(v))) => s == v && a.len() == 1,
                _ => false,
            };
            if !ok { return Err(format!("attributes of <{}> are '{}', but xml:space was {:?}", name, *a, space)); }
        }
        let real: Vec<Node> = n.children().collect();
        let mut i = 0;
        for k in kids {
            match *k {
                T::Text(_) => {
                    if i < real.len() && real[i].is_text() {
                        if real[i].text().is_empty() { return Err(format!("empty text node in <{}>", name)); }
                        got.push(real[i].text().clone());
                        i += 1;
                    } else {
                        got.push(String::new());
                    }
                }
                T::Comment => {
                    if i >= real.len() || !real[i].is_comment() || *real[i].text() != "c" { return Err(format!("a comment of <{}> is lost or changed", name)); }
                    i += 1;
                }
                T::Elem(..) => {
                    if i >= real.len() || !real[i].is_element() { return Err(format!("a child element of <{}> is lost", name)); }
                    walk(k, &real[i], got)?;
                    i += 1;
                }
            }
        }
        if i != real.len() { return Err(format!("<{}> has {} nodes more than expected", name, real.len() - i)); }
    }
    Ok(())
}

pub fn check(t: &T, ctx: &mut Ctx) -> R {
    let mut xml = String::new();
    to_xml(t, &mut xml);
    let doc = Document::from_str(&xml).map_err(|e| format!("not parsed: {}", e))?;
    ctx.step(1);
    ctx.compared();
    let mut src = vec![];
    collect(t, false, None, &mut 0, &mut src);
    let mut got = vec![];
    let tops: Vec<Node> = doc.root().children().collect();
    if tops.len() != 1 { return Err(format!("{} top level nodes", tops.len())); }
    walk(t, &tops[0], &mut got)?;
    let streams = src.iter().map(|s| s.stream).max().unwrap_or(0);
    for (s, g) in src.iter().zip(&got) {
        if s.preserve {
            if *g != spaces(&s.text) { return Err(format!("preserved text {:?} became {:?}", s.text, g)); }
        } else if s.stream != 0 {
            let c = collapse(&s.text);
            let bad = c.trim_matches(' ') != g.trim_matches(' ')
                || g.starts_with(' ') && !c.starts_with(' ') || g.ends_with(' ') && !c.ends_with(' ')
                || g.len() > c.len();
            if bad { return Err(format!("text {:?} became {:?}", s.text, g)); }
        }
    }
    for st in 1..=streams {
        let list: Vec<&Src> = src.iter().filter(|s| s.stream == st).collect();
        let want = expected_stream(&list);
        let have: String = src.iter().zip(&got).filter(|x| x.0.stream == st).map(|x| x.1.as_str()).collect();
        ctx.outcome(hash_str(&want));
        if want != have { return Err(format!("the text is {:?} (nodes {:?}), expected {:?}", have, got, want)); }
    }
    Ok(())
}

// ------------------------------------------------------------- token sequences

const PIECES: [&str; 5] = [" ", "a", " a", "a ", " a "];
// 0..=4 text, 5 tspan, 6 preserve, 7 default, 8 close, 9 comment

fn grow(len: usize, depth: usize, last_text: bool, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>, toks: &[u8]) {
    if cur.len() + depth == len || cur.len() == len {
        if cur.len() == len && depth == 0 { out.push(cur.clone()); return; }
        if cur.len() >= len { return; }
    }
    for &t in toks {
        let nd = match t { 5..=7 => depth + 1, 8 => if depth == 0 { continue } else { depth - 1 }, _ => depth };
        if t < 5 && last_text { continue; }
        if cur.len() + 1 + nd > len { continue; }
        cur.push(t);
        grow(len, nd, t < 5, cur, out, toks);
        cur.pop();
    }
}

pub fn sequences(max: usize, toks: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for len in 1..=max { grow(len, 0, false, &mut vec![], &mut out, toks); }
    out
}

fn tree_of(seq: &[u8], elem: &[&'static str]) -> Vec<T> {
    let mut stack: Vec<(usize, u8, Vec<T>)> = vec![(0, 0, vec![])];
    let mut letter = b'a';
    let mut nth = 0;
    for &t in seq {
        match t {
            0..=4 => {
                let s = PIECES[t as usize].replace('a', &(letter as char).to_string());
                letter += 1;
                stack.last_mut().unwrap().2.push(T::Text(s));
            }
            5..=7 => { stack.push((nth, t, vec![])); nth += 1; }
            8 => {
                let (n, t, kids) = stack.pop().unwrap();
                let space = match t { 6 => Some("preserve"), 7 => Some("default"), _ => None };
                stack.last_mut().unwrap().2.push(T::Elem(elem[n % elem.len()], space, kids));
            }
            _ => stack.last_mut().unwrap().2.push(T::Comment),
        }
    }
    stack.pop().unwrap().2
}

const MODES: [Option<&str>; 3] = [None, Some("preserve"), Some("default")];

fn doc_tree(seq: &[u8], m: usize, elem: &[&'static str]) -> T {
    T::Elem("svg", MODES[m / 3 % 3], vec![T::Elem("text", MODES[m % 3], tree_of(seq, elem))])
}

fn seq_suite(name: &str, about: &str, seqs: Vec<Vec<u8>>, modes: usize, elems: &'static [&'static [&'static str]]) -> Suite {
    let seqs = Arc::new(seqs);
    let n = seqs.len() as u64;
    let per = (modes * elems.len()) as u64;
    let mk = move |seqs: &[Vec<u8>], i: u64| {
        let r = (i % per) as usize;
        doc_tree(&seqs[(i / per) as usize], r % modes, elems[r / modes])
    };
    let (a, b) = (seqs.clone(), seqs);
    Suite::new(name, &format!("{}; {} token sequences", about, n), n * per,
        move |i, ctx| check(&mk(&a, i), ctx),
        move |i| { let mut s = String::new(); to_xml(&mk(&b, i), &mut s); s })
}

pub fn c12(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(seq_suite("spans", "text and nested spans with and without xml:space", sequences(tier.pick3(7, 8, 9), &[0, 1, 2, 3, 4, 5, 6, 7, 8]), 3, &[&["tspan"]]));
    v.push(seq_suite("inherit", "the same with xml:space on the text and the svg element", sequences(tier.pick3(5, 7, 8), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), 9, &[&["tspan"]]));
    v.push(seq_suite("elements", "all text content elements and links as spans, comments", sequences(tier.pick3(6, 8, 9), &[0, 2, 3, 5, 8, 9]), 2,
        &[&["textPath"], &["a"], &["tref"], &["altGlyph"], &["a", "tspan"], &["textPath", "tspan"], &["tspan", "a"]]));
    // every string of white space and other characters, alone and next to spans
    let chars = [' ', 'a', '\n', '\t', '\r', '\u{e9}', '\u{a0}', '&'];
    let n = tier.pick3(4, 6, 7);
    let one = strings(&chars, n).into_iter().map(|s| vec![T::Text(s)]).collect::<Vec<_>>();
    v.push(tree_suite("strings", "every string over space, tab, line breaks, letters, no-break space and an ampersand as the whole text", one, 3));
    let mut three = vec![];
    let small = strings(&[' ', 'a', '\n'], tier.pick(2, 3));
    for a in &small { for b in &small { for c in &small { for (_, m) in MODES.iter().enumerate() {
        let mut k = vec![];
        if !a.is_empty() { k.push(T::Text(a.clone())); }
        k.push(T::Elem("tspan", *m, if b.is_empty() { vec![] } else { vec![T::Text(b.clone())] }));
        if !c.is_empty() { k.push(T::Text(c.clone())); }
        three.push(k);
    } } } }
    v.push(tree_suite("three", "every three strings before, in and after a span", three, 3));
    let words: Vec<Vec<T>> = xml_words().into_iter().flat_map(|w| {
        let (t, u) = (T::Text(w.clone()), T::Text(format!(" {} ", w)));
        vec![vec![t.clone()], vec![t.clone(), T::Elem("tspan", None, vec![t.clone()]), t.clone()], vec![T::Elem("tspan", Some("preserve"), vec![t.clone()]), u.clone()],
            vec![u.clone(), T::Elem("tspan", Some("default"), vec![T::Elem("tspan", None, vec![t]), u])]]
    }).collect();
    v.push(tree_suite("words", "special characters and sequences as the whole text and around, in and between spans", words, 3));
    v.push(crate::parse::text_attributes());
    v.push(crate::parse::long());
    v.push(crate::parse::combinations(tier));
    v.push(outer(tier));
    v.push(spellings(tier));
    v.push(siblings(tier));
    let list = sizes(tier.pick(60, 200), 1100);
    let l2 = list.clone();
    v.push(Suite::new("scaled", "n spans side by side or nested, n spaces, n texts, n elements around or before the text", list.len() as u64 * 10, move |i, ctx| check(&scaled(l2[i as usize / 10], i % 10), ctx),
        move |i| { let mut s = String::new(); to_xml(&scaled(list[i as usize / 10], i % 10), &mut s); s }));
    v
}

/// Text elements inside of text elements.
pub fn nested(max: usize) -> Suite {
    seq_suite("nested", "text elements, spans and groups in text elements", sequences(max, &[0, 1, 3, 5, 6, 8, 9]), 3,
        &[&["text"], &["text", "tspan"], &["tspan", "text"], &["g", "text"], &["g"]])
}

/// Every character up to U+017F, and the ones beyond with a special meaning to some function: white space, controls,
/// marks, case folding, the ends of the planes.
pub fn characters() -> Vec<char> {
    let more = [0x1c4, 0x23f, 0x301, 0x345, 0x390, 0x3a3, 0x3c2, 0x660, 0x1680, 0x180e, 0x1e9e, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x20ac, 0x212a, 0x2160, 0x3000, 0x4e00, 0xac00,
        0xd7ff, 0xe000, 0xf8ff, 0xfb01, 0xfeff, 0xff11, 0xff21, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10400, 0x1d7d8, 0x1f600, 0x1f1e6, 0x20000, 0xe0001, 0xf0000, 0x10ffff];
    (0..0x180).chain(0x2000..0x2010).chain(more).filter_map(std::char::from_u32).collect()
}

/// Each of these characters alone, doubled, and before, after, between and around others.
pub fn words() -> Vec<String> {
    let mut v = vec![];
    for c in characters() {
        for f in ["@", "@@", "a@", "@a", "a@b", "a@@b", "@a@", " @", "@ ", "1@1"] { v.push(f.replace('@', &c.to_string())); }
    }
    v.extend(TOKENS.iter().map(|s| s.to_string()));
    for a in TOKENS { for b in TOKENS { v.push(format!("{}{}", a, b)); } }
    v
}

/// Long texts: around the sizes at which buffers, counters and limits change.
pub fn long_words() -> Vec<String> {
    let mut v = vec![];
    for n in crate::engine::sizes(1, 65_537) {
        if n < 60 { continue; }
        let a = "a".repeat(n);
        v.extend([a.clone(), "a ".repeat(n / 2), "\u{e9}".repeat(n), a.clone() + "  b", format!(" {}", a), a + "\u{1f600}", " b  c".repeat(n / 5)]);
    }
    v
}

/// The ones of them that XML allows.
pub fn xml_words() -> Vec<String> {
    words().into_iter().filter(|s| s.chars().all(|c| (c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}') || c == '\t' || c == '\n' || c == '\r')).collect()
}

/// Sequences that mean something somewhere.
const TOKENS: [&str; 60] = [
    "%20", "%", "&amp;", "&lt;", "&#65;", "&#x41;", "&", "<!--", "-->", "--", "<![CDATA[", "]]>", "]]", "</", "/>", "<?", "?>", "{}", "{0}", "\\n", "\\u{41}", "$1", "//", "/*", "*/",
    "url(#a)", "url(", "#a", "none", "inherit", "currentColor", "true", "null", "NaN", "inf", "-0", "1e400", "0x1f", "id", "xml", "xmlns", "xmlns:a", "xlink:href", "xml:space", "xml:", ":",
    "svg", "svg:svg", "text", "preserve", "default", "\r\n", "\n\r", "\n\n", "    ", "\t ", "!important", ";", "http://www.w3.org/2000/svg", "\u{2126}\u{e9}e\u{301}",
];

pub fn strings(chars: &[char], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to { for c in chars { let mut s = all[i].clone(); s.push(*c); all.push(s); } }
        from = to;
    }
    all
}

fn tree_suite(name: &str, about: &str, list: Vec<Vec<T>>, modes: usize) -> Suite {
    let list = Arc::new(list);
    let n = list.len() as u64;
    let mk = move |list: &[Vec<T>], i: u64| T::Elem("svg", None, vec![T::Elem("text", MODES[i as usize % modes], list[i as usize / modes].clone())]);
    let (a, b) = (list.clone(), list);
    Suite::new(name, about, n * modes as u64, move |i, ctx| check(&mk(&a, i), ctx),
        move |i| { let mut s = String::new(); to_xml(&mk(&b, i), &mut s); s })
}

/// Several text elements in groups: xml:space of one must not leak into another.
fn siblings(tier: Tier) -> Suite {
    let mut units: Vec<T> = vec![];
    for m in MODES.iter() {
        units.push(T::Elem("text", *m, vec![T::Text(" a  b ".into())]));
        for g in MODES.iter() {
            units.push(T::Elem("g", *g, vec![T::Elem("text", *m, vec![T::Text(" c ".into()), T::Elem("tspan", None, vec![T::Text(" d ".into())])])]));
        }
    }
    units.push(T::Text(" junk ".into()));
    units.push(T::Comment);
    units.push(T::Elem("title", None, vec![T::Text(" title ".into())]));
    units.push(T::Elem("rect", Some("preserve"), vec![]));
    units.push(T::Elem("a", None, vec![T::Text(" l ".into()), T::Elem("text", None, vec![T::Text(" e ".into())])]));
    units.push(T::Elem("text", None, vec![T::Elem("tspan", None, vec![T::Text("x ".into())]), T::Elem("tspan", None, vec![T::Text(" y".into())])]));
    let k = units.len() as u64;
    let len = tier.pick(3u32, 4);
    let units = Arc::new(units);
    let mk = move |u: &[T], i: u64| {
        let (mut r, svg) = (i / 3, i % 3);
        let mut kids: Vec<T> = vec![];
        for _ in 0..len {
            let t = u[(r % k) as usize].clone();
            r /= k;
            // two texts in a row are one text in XML
            if let (Some(T::Text(_)), T::Text(_)) = (kids.last(), &t) { continue; }
            kids.push(t);
        }
        T::Elem("svg", MODES[svg as usize], kids)
    };
    let (a, b) = (units.clone(), units);
    Suite::new("siblings", "several text elements, groups, titles and stray text side by side", k.pow(len) * 3,
        move |i, ctx| check(&mk(&a, i), ctx), move |i| { let mut s = String::new(); to_xml(&mk(&b, i), &mut s); s })
}

/// Values of xml:space that are not preserve, though they look like it.
fn spellings(tier: Tier) -> Suite {
    const ODD: [Option<&str>; 14] = [None, Some("preserve"), Some("default"), Some("Preserve"), Some("PRESERVE"), Some("preserved"), Some("preserv"), Some(""), Some("true"), Some("none"), Some("inherit"),
        Some("preserve default"), Some("nopreserve"), Some("Default")];
    let kids = Arc::new(sequences(tier.pick(4, 5), &[0, 2, 3, 4, 5, 8]));
    let n = kids.len() as u64;
    let mk = |seqs: &[Vec<u8>], i: u64| {
        let r = i as usize % (14 * 14 * 3);
        let (a, b) = (ODD[r % 14], ODD[r / 14 % 14]);
        let k = tree_of(&seqs[i as usize / (14 * 14 * 3)], &["tspan"]);
        match r / 196 {
            0 => T::Elem("svg", a, vec![T::Elem("text", b, k)]),
            1 => T::Elem("svg", None, vec![T::Elem("text", a, vec![T::Text(" x ".into()), T::Elem("tspan", b, k), T::Text(" y ".into())])]),
            _ => T::Elem("svg", None, vec![T::Elem("g", a, vec![T::Elem("g", b, vec![T::Elem("text", None, k)])])]),
        }
    };
    let (a, b) = (kids.clone(), kids);
    Suite::new("spellings", "14 values of xml:space on two levels", n * 14 * 14 * 3, move |i, ctx| check(&mk(&a, i), ctx), move |i| { let mut s = String::new(); to_xml(&mk(&b, i), &mut s); s })
}

/// Spans that are the outermost text content element, in the svg element or in a group or a link.
fn outer(tier: Tier) -> Suite {
    let seqs = Arc::new(sequences(tier.pick(6, 7), &[0, 1, 2, 3, 4, 5, 6, 8, 9]));
    let n = seqs.len() as u64;
    let mk = |seqs: &[Vec<u8>], i: u64| {
        let r = i as usize % 18;
        let e = T::Elem(["tspan", "tref"][r % 2], MODES[r / 2 % 3], tree_of(&seqs[i as usize / 18], &["tspan", "a"]));
        T::Elem("svg", None, vec![match r / 6 { 0 => e, 1 => T::Elem("g", Some("preserve"), vec![e]), _ => T::Elem("a", None, vec![e]) }])
    };
    let (a, b) = (seqs.clone(), seqs);
    Suite::new("outer", &format!("tspan and tref that are in no text element; {} token sequences", n), n * 18,
        move |i, ctx| check(&mk(&a, i), ctx), move |i| { let mut s = String::new(); to_xml(&mk(&b, i), &mut s); s })
}

fn scaled(n: usize, f: u64) -> T {
    let t = |s: &str| T::Text(s.into());
    let kids = match f {
        0 => (0..n).map(|k| T::Elem("tspan", MODES[k % 3], vec![t(" x ")])).collect(),
        1 => { let mut k = vec![t(" x ")]; for _ in 0..n { k = vec![t(" a "), T::Elem("tspan", None, k), t(" b ")]; } k }
        2 => vec![T::Text(" ".repeat(n)), T::Elem("tspan", None, vec![T::Text(format!("{}x{}y{}", " ".repeat(n), " ".repeat(n), "\n".repeat(n)))])],
        3 => vec![T::Text("ab ".repeat(n))],
        4 => { let mut k = vec![]; for _ in 0..n { k.push(t(" ")); k.push(T::Elem("tspan", None, vec![t(" ")])); } k.push(t("z")); k.push(T::Comment); k.push(t(" ")); k }
        6..=9 => {
            let text = T::Elem("text", None, vec![t(" x "), T::Elem("tspan", None, vec![t(" y  z ")]), t(" ")]);
            return T::Elem("svg", None, match f {
                6 => { let mut e = text; for k in 0..n { e = T::Elem("g", if k + 1 == n { Some("preserve") } else { None }, vec![e]); } vec![e] }
                7 => { let mut e = text; for k in 0..n { e = T::Elem("g", MODES[k % 3], vec![e]); } vec![e] }
                8 => { let mut v: Vec<T> = (0..n).map(|k| T::Elem("text", MODES[k % 3], vec![t(" q  "), T::Elem("tspan", MODES[k / 3 % 3], vec![t(" r ")])])).collect(); v.push(text); v }
                _ => vec![T::Elem("text", None, vec![T::Text(format!(" {} ", "\u{e9}".repeat(n))), T::Elem("tspan", None, vec![T::Text(format!(" {}", "b ".repeat(n)))]), T::Text("\t".repeat(n))])],
            });
        }
        _ => { let mut k = vec![t(" z")]; for _ in 0..n { k.push(T::Elem("tspan", None, vec![t(" ")])); k.push(T::Elem("a", None, vec![])); } k }
    };
    T::Elem("svg", None, vec![T::Elem("text", MODES[n % 3], kids)])
}
