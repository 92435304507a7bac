//! C19: several documents at once, in one thread and in several.

use std::sync::{Condvar, Mutex};
use svgdom::{Document, Node};

use crate::engine::*;
use crate::model::*;
use crate::opts;
use crate::parse::check_text;
use crate::ser::render;

/// The same ids, classes and selectors, with a different meaning in each text.
const TEXTS: [&str; 8] = [
    "<svg xmlns='http://www.w3.org/2000/svg'><linearGradient id='a'/><rect id='b' class='k' fill='url(#a)' stroke='url(#c) red'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><style>.k{fill:url(#c)} rect{stroke:#112233}</style><g class='k' id='b'/><rect fill='url(#a)' id='c'/><use xlink:href='#b'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' fill='red'><g id='c'><rect id='a' class='k' x='1' style='opacity:0.5'/></g><path d='M 1 2 L 3 4'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><g id='a' xlink:href='#b'/><g id='b' xlink:href='#a'/><g id='c' mask='url(#c)'/><g id='d' xlink:href='#zz'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' xml:space='preserve'><text>a  b<tspan> c </tspan></text><!-- k --></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><text> a <tspan> b </tspan> c </text><g id='a'/></svg>",
    // refused
    "<g xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' id='a' fill='url(#b)' stroke='url(#zz) blue' xlink:href='#c' style='marker:url(#b)' xml:space='preserve'><style>.k{opacity:0.3}</style><rect id='b' fill='url(#a)' stroke='url(#c) blue' xml:space='preserve'/><use class='k' id='c' mask='url(#b)' xlink:href='#a'/></g>",
    "<svg xmlns='http://www.w3.org/2000/svg' xml:space='preserve'><style>*{fill:red;opacity:0.1}</style><g id='a' fill='url(#b)'/><text> x <tspan></text></svg>",
];

#[derive(Clone, Copy, Debug)]
enum Act { Parse(usize), Write(usize), Do(Op), Drop }

/// One document, or none.
struct Slot { cur: Option<(MDoc, Real)> }

fn adopt(d: Document) -> Result<(MDoc, Real), String> {
    let m = snapshot(&d)?;
    let h: Vec<Node> = d.root().descendants().collect();
    Ok((m, Real { doc: d, h }))
}

impl Slot {
    fn new() -> Slot { Slot { cur: None } }
    fn run(&mut self, a: Act, ctx: &mut Ctx) -> R {
        match a {
            Act::Parse(k) => if let Some(d) = check_text(TEXTS[k], ctx)? { self.cur = Some(adopt(d)?); },
            Act::Drop => self.cur = None,
            Act::Write(o) => if let Some((m, r)) = &self.cur {
                let o = &opts::few()[o];
                for _ in 0..2 {
                    let (got, want) = (r.doc.to_string_with_opt(o), render(m, o));
                    ctx.step(1);
                    ctx.compared();
                    if got != want { return Err(format!("written with {}: {:?}, expected {:?}", opts::show(o), got, want)); }
                }
            },
            Act::Do(op) => if let Some((m, r)) = &mut self.cur {
                if !op.enabled(m) { return Ok(()); }
                let want = op.apply_model(m);
                let got = r.apply(&op);
                ctx.step(1);
                if got != want { return Err(format!("{}: result {:?}, expected {:?}", show_op(&op), got, want)); }
            },
        }
        Ok(())
    }
    fn check(&self, ctx: &mut Ctx) -> R {
        match &self.cur { Some((m, r)) => { ctx.compared(); ctx.outcome(hash_str(&m.key())); compare_full(m, r) } None => Ok(()) }
    }
}

fn full() -> Vec<Act> {
    let mut v: Vec<Act> = (0..TEXTS.len()).map(Act::Parse).collect();
    v.extend([Act::Write(0), Act::Write(3), Act::Drop,
        Act::Do(Op::Remove(2)), Act::Do(Op::Remove(3)), Act::Do(Op::CopyDeep(1)), Act::Do(Op::Link(3, 0, 2, 6)),
        Act::Do(Op::Set(2, 1, 3)), Act::Do(Op::Detach(2)), Act::Do(Op::SetId(2, 2)), Act::Do(Op::Drain(0, 0b1010)), Act::Do(Op::CreateElem(0))]);
    v
}

fn small() -> Vec<Act> {
    vec![Act::Parse(0), Act::Parse(1), Act::Parse(5), Act::Parse(7), Act::Write(3), Act::Drop, Act::Do(Op::Remove(2)), Act::Do(Op::CopyDeep(1))]
}

/// All sequences of exactly `len` actions over `slots` documents (the first one on document 0).
fn sequences(name: &str, acts: Vec<Act>, slots: u64, len: u32) -> Suite {
    let acts: &'static Vec<Act> = Box::leak(Box::new(acts));
    let k = acts.len() as u64;
    let count = k * (k * slots).pow(len - 1);
    let decode = move |mut i: u64| -> Vec<(usize, Act)> {
        let mut v = vec![(0, acts[(i % k) as usize])];
        i /= k;
        for _ in 1..len { let x = i % (k * slots); i /= k * slots; v.push(((x / k) as usize, acts[(x % k) as usize])); }
        v
    };
    Suite::new(name, &format!("all sequences of {} of {} actions (parse, write, edit, remove, copy, drop) over {} documents in one thread", len, k, slots), count, move |i, ctx| {
        let mut d: Vec<Slot> = (0..slots).map(|_| Slot::new()).collect();
        for (n, (s, a)) in decode(i).into_iter().enumerate() {
            d[s].run(a, ctx).map_err(|e| format!("step {}, document {}: {}", n, s, e))?;
            for (j, x) in d.iter().enumerate() { x.check(ctx).map_err(|e| format!("after step {}, document {}: {}", n, j, e))?; }
        }
        Ok(())
    }, move |i| decode(i).iter().map(|(s, a)| match a {
        Act::Parse(t) => format!("doc{} = parse text {} {}", s, t, TEXTS[*t]),
        Act::Do(op) => format!("doc{}: {}", s, show_op(op)),
        a => format!("doc{}: {:?}", s, a),
    }).collect::<Vec<_>>().join("; "))
}

fn programs() -> Vec<Vec<Act>> {
    vec![
        vec![Act::Parse(0), Act::Do(Op::CopyDeep(1)), Act::Write(0), Act::Do(Op::Remove(2)), Act::Drop],
        vec![Act::Parse(1), Act::Write(1), Act::Do(Op::Remove(3)), Act::Write(2), Act::Drop],
        vec![Act::Parse(7), Act::Parse(5), Act::Write(3), Act::Do(Op::Detach(2)), Act::Write(0)],
        vec![Act::Parse(3), Act::Do(Op::SetId(2, 3)), Act::Do(Op::Drain(0, 0b11000)), Act::Write(4), Act::Parse(6)],
        vec![Act::Parse(4), Act::Write(2), Act::Drop, Act::Parse(2), Act::Write(1)],
        vec![Act::Parse(2), Act::Do(Op::Link(3, 1, 2, 3)), Act::Do(Op::Set(2, 4, 2)), Act::Parse(1), Act::Write(0)],
    ]
}

/// All ways to merge sequences of the given lengths.
fn merges(lens: &[usize]) -> Vec<Vec<u8>> {
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|&x| x == 0) { out.push(cur.clone()); return; }
        for t in 0..left.len() {
            if left[t] == 0 { continue; }
            left[t] -= 1; cur.push(t as u8);
            rec(left, cur, out);
            cur.pop(); left[t] += 1;
        }
    }
    let mut out = vec![];
    rec(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

/// Runs the programs on one thread each; `order` says whose next action it is.
fn scheduled(progs: &[&[Act]], order: &[u8], ctx: &mut Ctx) -> R {
    let turn = Mutex::new(0usize);
    let cv = Condvar::new();
    let res: Vec<(R, Ctx)> = std::thread::scope(|sc| {
        let hs: Vec<_> = progs.iter().enumerate().map(|(me, p)| {
            let (turn, cv) = (&turn, &cv);
            sc.spawn(move || {
                let mut c = Ctx::new();
                let mut slot = Slot::new();
                let mut res: R = Ok(());
                for (n, a) in p.iter().enumerate() {
                    let mut g = turn.lock().unwrap();
                    while order[*g] as usize != me { g = cv.wait(g).unwrap(); }
                    if res.is_ok() {
                        let r = guarded(|| slot.run(*a, &mut c).and_then(|_| slot.check(&mut c)));
                        res = match r { Ok(r) => r, Err(e) => Err(e) }.map_err(|e| format!("thread {}, step {}: {}", me, n, e));
                    }
                    *g += 1;
                    if *g == order.len() { *g = 0; }
                    cv.notify_all();
                    if *g == 0 { break; }
                }
                (res, c)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (r, c) in res { ctx.steps += c.steps; ctx.compares += c.compares; r?; }
    Ok(())
}

fn threads(n: usize, len: usize, limit: usize) -> Suite {
    let progs: &'static Vec<Vec<Act>> = Box::leak(Box::new(programs()));
    let orders: &'static Vec<Vec<u8>> = Box::leak(Box::new(merges(&vec![len; n])));
    let combos = (progs.len() as u64).pow(n as u32).min(limit as u64);
    let no = orders.len() as u64;
    let pick = move |i: u64| -> (Vec<&'static [Act]>, &'static Vec<u8>) {
        // a stride that is prime to the number of combinations
        let mut c = (i / no) * 7 % (progs.len() as u64).pow(n as u32);
        let v = (0..n).map(|_| { let p = &progs[(c % progs.len() as u64) as usize][..len]; c /= progs.len() as u64; p }).collect();
        (v, &orders[(i % no) as usize])
    };
    Suite::new(&format!("threads-{}", n), &format!("{} combinations of {} programs of {} actions, one thread and document each, all {} interleavings", combos, n, len, no), combos * no,
        move |i, ctx| { let (p, o) = pick(i); ctx.outcome(hash_str(&format!("{:?}{:?}", p, o))); scheduled(&p, o, ctx) },
        move |i| { let (p, o) = pick(i); format!("programs {:?}, order {:?}", p, o) })
}

/// What a text parses to and how it is written.
fn facts(xml: &str, o: usize) -> Result<Option<(String, String)>, String> {
    let d = match Document::from_str(xml) { Ok(d) => d, Err(e) => return Ok(Some((e.to_string(), String::new()))) };
    let m = snapshot(&d)?;
    let o = &opts::few()[o];
    let t = d.to_string_with_opt(o);
    if d.to_string_with_opt(o) != t { return Err("written twice it differs".into()); }
    let m2 = snapshot(&d)?;
    if m.key() != m2.key() { return Err("writing changes the document".into()); }
    Ok(Some((m.key(), t)))
}

/// Parsed and written, then again after something else was parsed, written and dropped.
fn again(s: Suite, prefix: &str) -> Suite {
    let s: &'static Suite = Box::leak(Box::new(s));
    Suite::new(&format!("again-{}-{}", prefix, s.name), &format!("parsed and written again after another document: {}", s.about), s.count, move |i, ctx| {
        let xml = (s.describe)(i);
        let o = i as usize % 5;
        let a = facts(&xml, o)?;
        let other = Document::from_str(TEXTS[i as usize % TEXTS.len()]);
        if let Ok(d) = &other { let _ = d.to_string_with_opt(&opts::few()[(o + 1) % 5]); }
        let b = facts(&xml, o)?;
        drop(other);
        let c = facts(&xml, o)?;
        ctx.step(8);
        ctx.compared();
        if let Some((m, _)) = &a { ctx.outcome(hash_str(m)); }
        if a != b || a != c { return Err(format!("the second time it differs: {:?} and {:?} and {:?}", a, b, c)); }
        Ok(())
    }, move |i| (s.describe)(i))
}

/// Families of values that are almost the same: same length, same beginning, same end, other case, padding.
const NEAR: [(&str, &[&str]); 20] = [
    ("<rect x='@'/>", &["1", "1.0", "01", "1 ", "1px", "1mm", "1%", "-1", "1.00000001", "1e0", "1e1", "2", "", "1x", "100000000001", "100000000002", "100000000001px", "200000000001"]),
    ("<g fill='@'/>", &["red", "Red", "reD", "#ff0000", "#f00", "#F00", "#f01", "none", "inherit", "currentColor", "url(#a)", "url(#b)", "url(#a) red", "url(#a) none", "url(#b) red", "url(#c) red", "url(#c)", "rgb(255,0,0)", "rgb(255,0,1)", "blue"]),
    ("<g opacity='@'/>", &["0.5", "0.50", "0.51", ".5", "5", "50%", "-0.5", "inherit", "0.500000001"]),
    ("<path d='@'/>", &["M 1 2", "M 1 3", "m 1 2", "M 1 2 z", "M 1 2 L 3 4", "M 1 2 l 3 4", "M 1 2 L 3 5", "M 1 2 3 4", "M1 2", "M 1 2 L 3", "", "M 1 2 L 3 4 L 5 6 L 7 8 z", "M 1 2 L 3 4 L 5 6 L 7 9 z", "M 2 2 L 3 4 L 5 6 L 7 8 z"]),
    ("<g transform='@'/>", &["translate(1)", "translate(2)", "translate(1 1)", "scale(1)", "scale(2)", "rotate(1)", "matrix(1 0 0 1 1 0)", "matrix(1 0 0 1 2 0)", "translate(1) scale(2)", "scale(2) translate(1)", ""]),
    ("<polygon points='@'/>", &["1 2", "1 3", "1 2 3 4", "1 2 3 5", "1,2", "1 2 3", ""]),
    ("<g stroke-dasharray='@'/>", &["1 2", "1 3", "1,2", "1 2 3", "1mm 2", "none", "inherit", "1 -2"]),
    ("<g id='@'/>", &["a", "b", "A", "a ", " a", "aa", "ab", "ba", "", "longer-name-a", "longer-name-b", "b-longer-name", "\u{e9}"]),
    ("<g id='a'/><g id='b'/><use xlink:href='@'/>", &["#a", "#b", "#A", "#c", "#aa", "a", "b.svg#a", "#", "# a"]),
    ("<g id='b'/><g id='a'/><use fill='@'/>", &["url(#a)", "url(#b)", "url(#c)", "url(#a) red", "url(#b) red", "url(#a) none", "url(#c) none", "none", "red"]),
    ("<text>@</text>", &["a", "b", " a", "a ", " a ", "a  b", "a b", "ab", "", " ", "a<tspan> b</tspan>", "a <tspan> b</tspan>", "a<tspan>b </tspan>", "a<tspan xml:space='preserve'> b</tspan>", "a &lt; b"]),
    ("<text xml:space='@'> a  <tspan> b </tspan></text>", &["preserve", "default", "Preserve", "", "preserve "]),
    ("<style>@</style><rect class='c' id='i'/><g class='c d'/>", &["rect{fill:red}", "rect{fill:blue}", "g{fill:red}", ".c{fill:red}", ".d{fill:red}", "#i{fill:red}", "#j{fill:red}", "*{fill:red}", "rect{stroke:red}", "rect{fill:red!important}", "rect{fill:red", "", "@import 'x'", "g>rect{fill:red}", ".c.d{fill:red}", "rect:first-child{fill:red}", ".c{fill:red}.d{fill:blue}", ".d{fill:blue}.c{fill:red}"]),
    ("<rect style='@'/>", &["fill:red", "fill:blue", "fill: red", "stroke:red", "fill:red;stroke:red", "fill:red;stroke:blue", "fill:red !important", "fill:", "", "fil:red", "marker:none", "opacity:0.5", "opacity:0.6"]),
    ("<style>.a{fill:red} .b{fill:blue} .a-b{opacity:0.5}</style><g class='@'/>", &["a", "b", "a b", "b a", "ab", "a-b", "A", "", " a ", "c"]),
    ("<!--@--><g/>", &["a", "b", " a", "a ", "ab", "", " "]),
    ("<@ id='i'/>", &["g", "rect", "Rect", "path", "use", "foo", "bar", "g x='1'", "g x='2'", "g y='1'", "g foo='1'", "g foo='2'", "x:g xmlns:x='urn:x'", "x:g xmlns:x='http://www.w3.org/2000/svg'", "svg", "style", "text"]),
    ("<svg viewBox='@'/>", &["0 0 1 2", "0 0 1 3", "0 0 2 1", "0,0,1,2", "0 0 1", "0 0 1 0", "0 0 -1 2"]),
    ("<svg preserveAspectRatio='@'/>", &["none", "xMinYMid", "xMidYMin", "xMinYMid slice", "xMinYMid meet", "defer none", "xminymid", ""]),
    ("<g xmlns='@'><rect/></g>", &["", "http://www.w3.org/2000/svg", "http://www.w3.org/2000/svg/", "http://www.w3.org/1999/xlink", "urn:x"]),
];

/// Values that differ in one digit or letter, at every position of a long value.
fn mutants() -> Vec<(String, Vec<String>)> {
    const BASE: [(&str, &str); 24] = [
        ("<g opacity='@'/>", "0.123456789"), ("<g stroke-miterlimit='@'/>", "1234567.125"), ("<rect x='@'/>", "123456.125mm"), ("<g stroke-width='@'/>", "11.123456"),
        ("<stop offset='@'/>", "12.3456%"), ("<g fill='@'/>", "#123456"), ("<g fill='@'/>", "rgb(11,22,133)"), ("<g fill='@'/>", "url(#abcdefghij) #123123"),
        ("<g color='@'/>", "#1234de"), ("<path d='@'/>", "M 12.5 22.5 L 123.25 14 C 1 2 3 4 5 6 A 1 2 3 0 1 12 13 z"), ("<polygon points='@'/>", "11 12.5 13 14.25 15 16"),
        ("<g transform='@'/>", "matrix(1.5 2 3 4 5.5 12)"), ("<g transform='@'/>", "translate(12 13) scale(2)"), ("<g stroke-dasharray='@'/>", "11 22mm 33 4.5"),
        ("<text rotate='@'/>", "1 2 33 44"), ("<svg viewBox='@'/>", "1 2 33 44.5"), ("<g id='@'/>", "abcdef-ghijk"), ("<g class='@'/>", "abcdef ghijk"),
        ("<g id='abcdef'/><g id='abcdeg'/><use xlink:href='@'/>", "#abcdef"), ("<text>@</text>", "abcdefghi 12"), ("<!--@-->", "abcdefghij"),
        ("<g style='@'/>", "fill:#123456;opacity:0.25;stroke-width:12.5"), ("<style>@</style><rect/><g id='b'/>", "rect{fill:#123456;opacity:0.125} #b{stroke-width:12.5}"),
        ("<g font-family='@'/>", "Abcdefgh 1"),
    ];
    BASE.iter().map(|(p, v)| {
        let mut l = vec![v.to_string()];
        for (i, c) in v.char_indices() {
            let n = match c { '0'..='8' => ((c as u8) + 1) as char, '9' => '1', 'a'..='y' => ((c as u8) + 1) as char, _ => continue };
            let mut s = v[..i].to_string();
            s.push(n);
            s.push_str(&v[i + 1..]);
            l.push(s);
        }
        (p.to_string(), l)
    }).collect()
}

/// All ordered pairs (and triples) of near values of one family, one document after another on a thread of their own.
fn near(tier: Tier) -> Suite {
    let mut fams: Vec<(String, Vec<String>)> = NEAR.iter().map(|(p, v)| (p.to_string(), v.iter().map(|s| s.to_string()).collect())).collect();
    fams.extend(mutants());
    let fams: &'static Vec<(String, Vec<String>)> = Box::leak(Box::new(fams));
    let mut list: Vec<(usize, Vec<usize>)> = vec![];
    for (f, (_, vals)) in fams.iter().enumerate() {
        let n = vals.len();
        for a in 0..n { for b in 0..n {
            list.push((f, vec![a, b, a]));
            if tier != Tier::Quick { for c in 0..n { if c != a { list.push((f, vec![a, b, c])); } } }
        } }
    }
    let list = std::sync::Arc::new(list);
    let l2 = list.clone();
    let text = move |f: usize, v: usize| format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>{}</svg>", fams[f].0.replace('@', &fams[f].1[v]));
    Suite::new("near", "documents that differ in one value (44 families: almost equal spellings; every digit and letter of a long value changed), parsed and written one after another on a new thread: all pairs, the first one again after the second", list.len() as u64, move |i, ctx| {
        let (f, vs) = &list[i as usize];
        std::thread::scope(|sc| sc.spawn(|| {
            guarded(|| -> R {
                let mut keep: Vec<(Document, MDoc, String)> = vec![];
                for (k, v) in vs.iter().enumerate() {
                    let xml = text(*f, *v);
                    if let Some(d) = check_text(&xml, ctx).map_err(|e| format!("document {} {}: {}", k, xml, e))? {
                        let m = snapshot(&d)?;
                        let o = &opts::few()[k];
                        let (got, want) = (d.to_string_with_opt(o), render(&m, o));
                        if got != want { return Err(format!("document {} written {:?}, expected {:?}", k, got, want)); }
                        let key = m.key();
                        keep.push((d, m, key));
                    }
                }
                for (d, _, key) in &keep { if &snapshot(d)?.key() != key { return Err("an earlier document changed".into()); } }
                Ok(())
            })
        }).join().unwrap())?
    }, move |i| { let (f, vs) = &l2[i as usize]; vs.iter().map(|v| text(*f, *v)).collect::<Vec<_>>().join("; ") })
}

/// What a refused (or mostly ignored) document leaves behind: root element with its attributes and content.
const REFUSED: [(&str, &str); 26] = [
    ("g", ""), ("g id='a'", ""), ("g fill='url(#a)'", ""), ("g fill='url(#zz) red'", ""), ("g stroke='url(#b) none'", ""), ("use xlink:href='#a'", ""), ("g mask='url(#b)' filter='url(#a)'", ""),
    ("g style='fill:url(#a);opacity:0.5'", ""), ("g style='marker:url(#b)'", ""), ("g class='k'", "<style>.k{fill:url(#a)} *{opacity:0.5}</style>"),
    ("g", "<style>*{stroke:#010203}</style><g id='a'/>"), ("text xml:space='preserve'", " a "), ("text", " a <tspan> b </tspan> "), ("g xml:space='preserve'", "<text> a </text>"),
    ("style", "*{fill:red}"), ("g", "<use xlink:href='#a'/><g id='a'/>"), ("g transform='translate(1 2)' x='zz' d='M 1'", ""), ("x", "<svg><g id='a' fill='url(#a)'/></svg>"), ("x style='fill:url(#a)'", "<style>*{fill:red}</style>"),
    ("g id='a' xlink:href='#a'", "<!-- c -->"), ("svg", "<g>"), ("svg fill='url(#a)'", "<g id='a'/><text> a </g>"), ("svg xml:space='preserve'", "<style>*{fill:red}</style><a&b;/>"),
    ("svg", "<g id='a' fill='red' fill='blue'/>"), ("svg id='a' fill='url(#a)' xlink:href='#a'", "<g mask='url(#a)' xlink:href='#b'/><g id='b' xlink:href='#b'/><g fill='url(#b' opacity='x'/>"), ("g font-size='10%'", "<g font-size='10%'/>"),
];

const AFTER: [&str; 10] = [
    "", "<g id='a'/>", "<g id='b'/><g id='a'/>", "<path id='a' fill='url(#a)'/><g class='k' id='b'/>", "<text> a <tspan> b </tspan> c </text>", "<g class='k' fill='url(#zz)' stroke='url(#zz) red'/>",
    "<style>.k{fill:red}</style><rect class='k' opacity='0.2'/>", "<use xlink:href='#a'/><g id='a' mask='url(#b)'/><g id='b'/>", "<g xml:space='preserve'><text> a </text></g>", "<!-- d --><rect x='1' transform='scale(2)'/>",
];

/// One or two refused documents, then an accepted one, on a new thread.
fn refused() -> Suite {
    let n = REFUSED.len() as u64;
    let text = |r: &str, body: &str| format!("<{} xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>{}</{}>", r, body, r.split(' ').next().unwrap());
    let pick = move |i: u64| {
        let (a, b, g) = (i % (n + 1), i / (n + 1) % n, i / (n + 1) / n);
        let mut v = vec![];
        if a < n { v.push(text(REFUSED[a as usize].0, REFUSED[a as usize].1)); }
        v.push(text(REFUSED[b as usize].0, REFUSED[b as usize].1));
        v.push(text("svg", AFTER[g as usize]));
        v
    };
    Suite::new("refused", "one or two of 26 documents that are refused or have refused parts, then one of 10 accepted ones, on a new thread", (n + 1) * n * AFTER.len() as u64, move |i, ctx| {
        std::thread::scope(|sc| sc.spawn(|| guarded(|| -> R {
            for xml in pick(i) {
                if let Some(d) = check_text(&xml, ctx).map_err(|e| format!("{}: {}", xml, e))? {
                    let m = snapshot(&d)?;
                    for o in opts::few().iter().take(2) { if d.to_string_with_opt(o) != render(&m, o) { return Err(format!("{} is written {:?}", xml, d.to_string_with_opt(o))); } }
                }
            }
            Ok(())
        })).join().unwrap())?
    }, move |i| pick(i).join("; "))
}

/// One document parsed n times, each kept or dropped, then others.
fn many(n: usize, ctx: &mut Ctx) -> R {
    std::thread::scope(|sc| sc.spawn(|| guarded(|| -> R {
        let mut kept: Vec<(Document, String)> = vec![];
        for k in 0..n {
            let t = TEXTS[k % TEXTS.len()];
            // a value of its own in each
            let own = format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><style>.c{0}{{opacity:0.5}} #i{0}{{stroke:#{1:06x}}}</style><g id='i{0}' class='c{0}' x='{0}' transform='translate({0})'/><path d='M {0} 1 L {0} 2' style='fill:url(#i{0}) red'/><rect fill='url(#i{0})' stroke='url(#z{0}) #{1:06x}' stroke-dasharray='{0} 1'/><use xlink:href='#i{0}'/><!-- {0} --><text> a{0} <tspan xml:space='preserve'> b </tspan> <tspan> {0} </tspan></text><polygon points='1 {0}'/></svg>", k, k + 0x102030);
            for (j, x) in [t, own.as_str()].iter().enumerate() {
                if let Some(d) = check_text(x, ctx).map_err(|e| format!("document {}: {}", k, e))? {
                    let m = snapshot(&d)?;
                    let o = &opts::few()[k % 5];
                    if d.to_string_with_opt(o) != render(&m, o) { return Err(format!("document {} is written {:?}", k, d.to_string_with_opt(o))); }
                    if j == 1 && k % 3 == 0 { let key = m.key(); kept.push((d, key)); }
                }
            }
        }
        for (k, (d, key)) in kept.iter().enumerate() { if &snapshot(d)?.key() != key { return Err(format!("kept document {} changed", k)); } }
        Ok(())
    })).join().unwrap())?
}

/// Two documents of n nodes each; every change must be in what is written next.
fn large(n: usize, ctx: &mut Ctx) -> R {
    let build = |mark: &str| {
        let mut d = Document::new();
        let mut svg = d.create_element(svgdom::ElementId::Svg);
        d.root().append(svg.clone());
        for k in 0..n {
            let mut g = if k % 7 == 3 { d.create_node(svgdom::NodeType::Comment, format!("{}{}", mark, k)) } else { d.create_element(svgdom::ElementId::G) };
            if g.is_element() { g.set_id(format!("{}{}", mark, k)); }
            svg.append(g);
        }
        d
    };
    let (a, b) = (build("a"), build("b"));
    for o in opts::few().iter().take(2) {
        let written = |d: &Document, what: &str, ctx: &mut Ctx| -> R {
            let got = d.to_string_with_opt(o);
            ctx.step(1);
            ctx.compared();
            if got != render(&snapshot(d)?, o) { return Err(format!("{} is not what is written", what)); }
            Ok(())
        };
        written(&a, "the first document", ctx)?;
        written(&b, "the second document", ctx)?;
        let mut svg = a.svg_element().ok_or("no svg")?;
        let mut last = svg.children().filter(|x| x.is_element()).last().ok_or("no child")?;
        last.set_id("changed");
        written(&a, "a changed id", ctx)?;
        last.set_attribute(("x", 1));
        written(&a, "a new attribute", ctx)?;
        last.set_attribute(("x", 2));
        written(&a, "a changed attribute", ctx)?;
        if let Some(mut c) = svg.children().find(|x| x.is_comment()) { c.set_text("changed"); written(&a, "a changed text", ctx)?; }
        svg.prepend(last.clone());
        written(&a, "a changed order", ctx)?;
        last.set_tag_name(svgdom::ElementId::Rect);
        written(&a, "a changed name", ctx)?;
        written(&b, "the second document", ctx)?;
        last.remove_attribute("x");
        last.set_tag_name(svgdom::ElementId::G);
        written(&a, "a removed attribute", ctx)?;
    }
    ctx.outcome(n as u64);
    Ok(())
}

pub fn c19(tier: Tier) -> Vec<Suite> {
    let mut v = vec![
        sequences("sequences-2", full(), 2, 3),
        sequences("sequences-2-deep", small(), 2, tier.pick(4, 6)),
        sequences("sequences-3", small(), 3, tier.pick(3, 4)),
        threads(2, 5, tier.pick(36, 36)),
        threads(3, 3, tier.pick(6, 216)),
        near(tier),
        refused(),
    ];
    let list = { let mut l = sizes(3, tier.pick(5000, 70_000)); l.retain(|&n| n < 4 || n > 16); l };
    let l2 = list.clone();
    v.push(Suite::new("large", "a document of n nodes: written, changed (a value, an id, a text, an order), and written again, next to another one of the same size", list.len() as u64, move |i, ctx| large(list[i as usize], ctx), move |i| format!("{} nodes", l2[i as usize])));
    let list = sizes(tier.pick(20, 70), tier.pick(520, 5000));
    let l2 = list.clone();
    v.push(Suite::new("many", "n documents one after another in one thread, every third one kept alive", list.len() as u64, move |i, ctx| many(list[i as usize], ctx), move |i| format!("{} documents", l2[i as usize])));
    if tier != Tier::Quick { v.push(sequences("sequences-2-full", full(), 2, 4)); }
    let c08 = crate::parse::c08_own(Tier::Quick);
    for (p, l) in [("total", c08), ("tree", crate::parse::c09(Tier::Quick)), ("refs", crate::refs::c11(Tier::Quick)), ("css", crate::css::c10(Tier::Quick)),
                   ("text", crate::text::c12(Tier::Quick))] {
        for s in l { if (s.name != "long" || p == "tree") && s.count <= tier.pick(100_000, 2_000_000) { v.push(again(s, p)); } }
    }
    v
}
