//! C11: references between elements are resolved correctly.

use crate::engine::*;
use crate::parse::{gen_suite, only_text};

const S: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>";

fn href_attr(name: &str) -> &str { if name == "href" { "xlink:href" } else { name } }

fn reference(attr: &str, id: &str) -> String {
    if attr == "href" { format!("#{}", id) } else { format!("url(#{})", id) }
}

const PAIRS: [(&str, &str); 5] = [("href", "fill"), ("fill", "stroke"), ("mask", "clip-path"), ("href", "filter"), ("marker-mid", "stroke")];
const IDS: [&str; 4] = ["", "a", "b", "c"];
const SOME_IDS: [[usize; 3]; 5] = [[1, 2, 3], [1, 1, 2], [0, 1, 2], [2, 1, 1], [1, 0, 0]];

/// Three elements; two reference slots each; all targets.
fn graphs(tier: Tier) -> Suite {
    let refs = 5u64.pow(6);
    let ids = tier.pick(SOME_IDS.len() as u64, 64);
    gen_suite("graphs", "all graphs of three elements with two reference attributes each (target: none, any of three ids, a missing id) x id assignments (distinct, duplicated, absent) x attribute kinds, siblings and nested", refs * ids * PAIRS.len() as u64 * 2, move |i| {
        let (pa, pb) = PAIRS[(i % PAIRS.len() as u64) as usize];
        let mut r = i / PAIRS.len() as u64;
        let nested = r % 2 == 1; r /= 2;
        let k = r % ids; r /= ids;
        let id = if ids == 64 { [(k % 4) as usize, (k / 4 % 4) as usize, (k / 16) as usize] } else { SOME_IDS[k as usize] };
        let mut s = String::from(S);
        for n in 0..3 {
            s.push_str("<g");
            if id[n] != 0 { s.push_str(&format!(" id='{}'", IDS[id[n]])); }
            for a in [pa, pb] {
                let t = r % 5;
                r /= 5;
                if t > 0 { s.push_str(&format!(" {}='{}'", href_attr(a), reference(a, ["a", "b", "c", "missing"][t as usize - 1]))); }
            }
            s.push_str(if nested { ">" } else { "/>" });
        }
        if nested { s.push_str("</g></g></g>"); }
        s + "</svg>"
    }, only_text)
}

/// Four elements in every tree shape, one href each.
fn shapes() -> Suite {
    let forests: Vec<Vec<Option<usize>>> = crate::trees::forests(4);
    let nf = forests.len() as u64;
    let ids: &'static [[&'static str; 4]] = &[["a", "b", "c", "d"], ["a", "a", "b", "b"], ["", "a", "b", "c"], ["d", "c", "b", "a"], ["a", "b", "a", "c"]];
    let ni = ids.len() as u64;
    gen_suite("chains", "four elements in every tree shape, one href each to any of them or to nothing", 6u64.pow(4) * nf * ni, move |i| {
        let f = &forests[(i % nf) as usize];
        let id = &ids[(i / nf % ni) as usize];
        let r = i / nf / ni;
        fn rec(p: Option<usize>, f: &[Option<usize>], id: &[&str; 4], r: u64, out: &mut String) {
            for n in 0..4 {
                if f[n] != p { continue; }
                out.push_str("<g");
                if !id[n].is_empty() { out.push_str(&format!(" id='{}'", id[n])); }
                let t = r / 6u64.pow(n as u32) % 6;
                if t > 0 { out.push_str(&format!(" xlink:href='#{}'", ["a", "b", "c", "d", "zz"][t as usize - 1])); }
                out.push('>');
                rec(Some(n), f, id, r, out);
                out.push_str("</g>");
            }
        }
        let mut s = String::from(S);
        rec(None, f, id, r, &mut s);
        s + "</svg>"
    }, only_text)
}

const ATTRS: [&str; 11] = ["href", "fill", "stroke", "clip-path", "filter", "marker", "marker-start", "marker-mid", "marker-end", "mask", "cursor"];
/// How the target is written; '@' is the id.
const SPELL: [&str; 22] = [
    "url(#@)", "#@", "url( #@ )", " url(#@) ", "url(#@", "url(@)", "url (#@)", "URL(#@)", "url(#@)x", "url(#@) none", "url(#@) currentColor",
    "url(#@) red", "url(#@)   #abcdef", "url(#@) zz", "url(#@) inherit", "url('#@')", " #@ ", "a.svg#@", "http://x/#@", "#", "url(#)", "# @",
];
/// Where the target is; '@' is replaced by the referencing element.
const PLACES: [(&str, &str); 12] = [
    ("t", "<g id='t'/>@"), ("t", "@<g id='t'/>"), ("t", "<g id='t'>@</g>"), ("e", "@"), ("k", "@"), ("zz", "@<g id='t'/>"),
    ("t", "@<style id='t'/>"), ("t", "@<foo id='t'/>"), ("t", "@<g id='t'/><rect id='t'/>"), ("t", "@<g id='T'/>"),
    ("t", "<g id='t' xlink:href='#e'/>@"), ("t", "@<g id='t' xlink:href='#e'/>"),
];
/// Ways to give the value: '$' name (qualified), '~' plain name, '%' value.
const WAYS: [&str; 5] = [
    "<use id='e' $='%'><g id='k'/></use>",
    "<use id='e' style='~:%'><g id='k'/></use>",
    "<style>#e{~:%}</style><use id='e'><g id='k'/></use>",
    "<use id='e' $='none' style='~:%'><g id='k'/></use>",
    "<use id='e' $='%' opacity='0.5' transform='scale(2)'><g id='k' $='%'/></use>",
];

fn kinds() -> Suite {
    let (na, ns, np, nw) = (ATTRS.len() as u64, SPELL.len() as u64, PLACES.len() as u64, WAYS.len() as u64);
    gen_suite("kinds", "every reference attribute x spelling of the reference and of its fallback x position of the target (before, after, ancestor, self, child, missing, removed, foreign, duplicated, linking back) x attribute, style attribute or style sheet", na * ns * np * nw, move |i| {
        let a = ATTRS[(i % na) as usize];
        let (id, place) = PLACES[(i / na % np) as usize];
        let v = SPELL[(i / na / np % ns) as usize].replace('@', id);
        let w = WAYS[(i / na / np / ns) as usize];
        let v = if w.contains("~:%") { v.replace('\'', "\"") } else { v.replace('\'', "&apos;") };
        let e = w.replace('$', href_attr(a)).replace('~', a).replace('%', &v);
        format!("{}{}</svg>", S, place.replace('@', &e))
    }, only_text)
}

fn scaled(n: usize, f: u64) -> String {
    let each = |g: &dyn Fn(usize) -> String| (0..n).map(|k| g(k)).collect::<String>();
    let body = match f {
        0 => each(&|k| format!("<g id='i{}' xlink:href='#i{}'/>", k, (k + 1) % n)),
        1 => each(&|k| format!("<g id='i{}' xlink:href='#i{}'/>", k, (k + n - 1) % n)),
        2 => format!("<g id='t'/>{}", each(&|_| "<g fill='url(#t)' stroke='url(#t)' mask='url(#t)'/>".into())),
        3 => format!("{}<g id='t' xlink:href='#i0'/>", each(&|k| format!("<g id='i{}' xlink:href='#t'/>", k))),
        4 => each(&|k| format!("<g id='i{}' fill='url(#i{})'/>", k, n - 1 - k)),
        5 => each(&|k| format!("<g id='i{}' fill='url(#i{})' stroke='url(#i{})' mask='url(#i{})'/>", k / 2, (k * 7 + 3) % n, (k * 5 + 1) % n, (k * 3 + 2) % (n + 1))),
        6 => format!("{}<use xlink:href='#t'/>{}<g id='t'/>", "<g>".repeat(n), "</g>".repeat(n)),
        7 => format!("<use xlink:href='#{0}'/><g id='{0}'/>", "x".repeat(n)),
        8 => format!("<use xlink:href='#{0}b'/><use fill='url(#{0}c)'/><g id='{0}a'/><g id='{0}b'/>", "x".repeat(n)),
        9 => format!("<g id='a{0}'/><g id='b{0}'/><use xlink:href='#b{0}'/><use xlink:href='#c{0}'/><use fill='url(#a{0}) red'/><use fill='url(#c{0}) red'/>", "x".repeat(n)),
        10 => format!("<use xlink:href='#t'/>{}<g id='t'/>", each(&|k| format!("<rect id='i{}'/>", k))),
        _ => format!("<style>{}</style>{}", each(&|k| format!("#i{}{{fill:url(#i{})}}", k, (k + 1) % (n + 1))), each(&|k| format!("<rect id='i{}'/>", k))),
    };
    format!("{}{}</svg>", S, body)
}

/// Every short id in every kind of reference, to an element that has it, has it in another case, has something like it, or is not there.
fn id_strings(tier: Tier) -> Suite {
    let chars = ['a', 'B', '1', ' ', '\t', '.', '_', '-', ':', '#', '(', ')', '"', '&', '<', ';', ',', '/', '%', '\\', '\u{e9}', '\u{20ac}', '\u{1f600}', '\u{a0}', '+', '{', '*', '!'];
    let ids: Vec<String> = crate::text::strings(&chars, tier.pick3(2, 3, 4)).into_iter().chain(crate::text::xml_words()).filter(|s| !s.is_empty()).collect();
    let n = ids.len() as u64;
    const REFS: [&str; 9] = ["xlink:href='#@'", "stroke='url(#@) #abc'", "fill='url(#@)'", "fill='url(#@) red'", "mask='url(#@)'", "style='stroke:url(#@) none'", "marker-end='url( #@ )'", "filter='url(#@)'", "xlink:href=' #@ '"];
    gen_suite("id-strings", "every id of up to 2 (thorough: 3) of 28 characters, and every special character and sequence in several surroundings, x 9 ways to refer to it x the element with the id before, after or around the reference, with the other case, with a longer or shorter id, or with padding", n * 9 * 8, move |i| {
        let id = &ids[(i % n) as usize];
        let e = crate::parse::escape(id);
        let r = REFS[(i / n % 9) as usize].replace('@', &e);
        let (u, l): (String, String) = (id.to_uppercase(), id.to_lowercase());
        let other = crate::parse::escape(if &u == id { &l } else { &u });
        let rest = crate::parse::escape(&id.chars().skip(1).collect::<String>());
        let body = match i / n / 9 {
            0 => format!("<g id='{}'/><use {}/>", e, r),
            1 => format!("<use {}/><g id='{}'/>", r, e),
            2 => format!("<g id='{}'><use {}/></g>", e, r),
            3 => format!("<g id='{}'/><use {}/>", other, r),
            4 => format!("<g id='{}a'/><use {}/><g id='a{}'/>", e, r, e),
            5 => format!("<g id='{}'/><use {}/>", rest, r),
            6 => format!("<g id=' {}'/><g id='{} '/><use {}/>", e, e, r),
            _ => format!("<use id='{}' {}/>", e, r),
        };
        format!("{}{}</svg>", S, body)
    }, only_text)
}

/// Every element refers to every element.
fn elements() -> Suite {
    let tags: Vec<&'static str> = crate::names::ELEMENTS.iter().cloned().filter(|t| *t != "style").collect();
    let (n, na) = (tags.len() as u64, ATTRS.len() as u64);
    let pairs = n * n * na * 2;
    let dups = n * n * 2;
    let alone = n * na * 8;
    let with = n * na * 5 * 4;
    gen_suite("elements", "every element refers to every element by every reference attribute, before and after it; every two elements with one id; every element with a reference to nothing, and with a reference and a fallback, as an attribute, by a style attribute or by a rule", pairs + dups + alone + with, move |i| {
        let body = if i < pairs {
            let (a, b, attr) = (tags[(i % n) as usize], tags[(i / n % n) as usize], ATTRS[(i / n / n % na) as usize]);
            let user = format!("<{} id='u' {}='{}'/>", a, href_attr(attr), reference(attr, "t"));
            let target = format!("<{} id='t'/>", b);
            if i / n / n / na == 0 { user + &target } else { target + &user }
        } else if i < pairs + dups {
            let i = i - pairs;
            let (a, b) = (tags[(i % n) as usize], tags[(i / n % n) as usize]);
            let two = if i / n / n == 0 { format!("<{} id='t'/><{} id='t'/>", a, b) } else { format!("<{} id='t'><{} id='t'/></{}>", a, b, a) };
            format!("<use xlink:href='#t'/><g fill='url(#t)'/>{}<rect stroke='url(#t) red'/><g mask='url(#t)'/>", two)
        } else if i >= pairs + dups + alone {
            let i = i - pairs - dups - alone;
            let (a, attr) = (tags[(i % n) as usize], ATTRS[(i / n % na) as usize]);
            let v = format!("{}{}", reference(attr, "t"), ["", " none", " red", " currentColor", " zz"][(i / n / na % 5) as usize]);
            match i / n / na / 5 {
                0 => format!("<g id='t'/><{} id='u' {}='{}'/>", a, href_attr(attr), v),
                1 => format!("<{} id='u' style='{}:{}'/><g id='t'/>", a, attr, v),
                2 => format!("<style>{}{{{}:{}}}</style><{} id='u'/><g id='t'/>", a, attr, v, a),
                _ => format!("<style>{}{{{}:{}}}</style><{} id='u' {}='{}' style='{}:{}'/>", a, attr, v, a, href_attr(attr), v, attr, v),
            }
        } else {
            let i = i - pairs - dups;
            let (a, attr) = (tags[(i % n) as usize], ATTRS[(i / n % na) as usize]);
            let more = ["", " none", " red", " currentColor"][(i / n / na / 2) as usize];
            let user = format!("<{} id='u' {}='{}{}'/>", a, href_attr(attr), reference(attr, "t"), more);
            if i / n / na % 2 == 0 { user } else { format!("<g id='tt'/>{}<g id='T'/>", user) }
        };
        format!("{}{}</svg>", S, body)
    }, only_text)
}

pub fn c11(tier: Tier) -> Vec<Suite> {
    let list = sizes(tier.pick(17, 65), 1100);
    let k = list.len() as u64;
    vec![graphs(tier), shapes(), kinds(), id_strings(tier), elements(), crate::parse::combinations(tier), crate::parse::long(),
        gen_suite("scaled", "cycles, stars, permutations, chains and long ids of up to 1100 elements or characters", k * 12, move |i| scaled(list[(i % k) as usize], i / k), only_text)]
}
