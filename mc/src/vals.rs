//! C17: typed attribute values.

use std::sync::Arc;
use crate::engine::*;
use crate::names::*;
use crate::parse::{escape, gen_suite, only_text, REPR};
use crate::refparse;
use crate::text::strings;

const S: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><g id='a'/>";

/// Valid, borderline and invalid spellings of all types.
pub const CATALOGUE: [&str; 150] = [
    "", " ", "0", "1", "-1", "+1", "1.5", ".5", "-.5", "1.", "1e2", "1E-2", "1e", "-0", "1e400", "0.00000001", "123456789.123",
    "1 2", "1,2", "1, 2", "1 ,2", "1,,2", "1 2 3 4", "1 2 3 4 5", "1-2", "1.5.5", " 1", "1 ", "\t1\n", "1x", "x1", "1 x", "NaN", "inf",
    "5%", "5px", "5em", "5ex", "5mm", "5cm", "5in", "5pt", "5pc", "5rem", "5PX", "5 px", "1px 2mm", "1px,2%,3", "5deg", "5grad", "5rad", "5turn",
    "90deg", "-45", "auto", "auto-start-reverse", "none", "inherit", "currentColor", "NONE", "Inherit", "currentcolor", " none ", "\ninherit",
    "normal", "baseline", "sub", "super", "small", "medium", "bold", "visible", "hidden", "scroll", "inline", "block", "underline", "nonzero",
    "evenodd", "0.5", "-0.5", "1.5", "2", "0.999999999", "1.0000001", "inherit inherit", "none none", "red", "RED", "#f00", "#F00", "#ff0000", "#ff000",
    "#ggg", "rgb(1,2,3)", "rgb(1 2 3)", "rgb(10%,20%,30%)", "rgb(300,0,0)", "rgb(1,2)", "rgba(1,2,3,4)", "hsl(1,2%,3%)", "transparent", "blurple",
    "red icc-color(x)", "url(#a)", "url(#a) red", "url(#a) none", "url(#a) currentColor", "url(#zz)", "url(#zz) blue", "url(#a", "#a", "#zz", "a.png", "data:x",
    "M 1 2", "M1 2L3 4z", "m 1 2 3 4", "M 1 2 L 3 x", "L 1 2", "M 1", "M 1 2 A 1 2 3 0 1 4 5", "M 1 2 A 1 2 3 2 1 4 5", "M 1 2 Q 1 2 3 4 T 5 6 C 1 2 3 4 5 6 S 1 2 3 4 H 1 V 2 h 3 v 4",
    "scale(2)", "scale(1)", "translate(1 2)", "translate(0)", "rotate(90)", "rotate(30 1 2)", "skewX(10)", "matrix(1 0 0 1 0 0)", "matrix(1 2 3 4 5 6)",
    "matrix(1 2 3)", "scale(2) scale(0.5)", "scale(2) bad", "scale 2", "translate(1,2)scale(3)", "xMidYMid", "xMinYMax slice", "defer xMidYMid meet", "xmidymid",
    "none slice", "0 0 10 20", "0 0 -1 2", "0 0 0 0", "0,0,10,20", "\u{e9}\u{20ac}", "a 'b' \"c\" <d> &e;", "1 2 3",
];

fn value_doc(elem: &str, attr: &str, values: &[String]) -> String {
    let p = if attr == "href" { "xlink:" } else { "" };
    let mut s = String::from(S);
    for v in values { s.push_str(&format!("<{} {}{}='{}'/>", elem, p, attr, escape(v))); }
    s + "</svg>"
}

fn names() -> Vec<&'static str> {
    ATTRIBUTES.iter().cloned().filter(|a| !["xmlns", "xlink", "id"].contains(a)).collect()
}

pub fn c17(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let names = Arc::new(names());
    let na = names.len() as u64;
    let cat: Vec<String> = CATALOGUE.iter().map(|s| s.to_string()).collect();
    let cat = Arc::new(cat);
    let (n1, c1) = (names.clone(), cat.clone());
    let elems: Vec<&'static str> = if tier != Tier::Quick { ELEMENTS.iter().cloned().filter(|e| *e != "style").collect() }
        else { vec!["g", "rect", "text", "tspan", "tref", "altGlyph", "textPath", "set", "animate", "animateColor", "animateMotion", "animateTransform", "svg", "use", "filter", "stop"] };
    let ne = elems.len() as u64;
    v.push(gen_suite("catalogue", &format!("all attributes x {} elements x {} values (one element per value in a document)", ne, CATALOGUE.len()), na * ne, move |i| {
        value_doc(elems[(i / na) as usize], n1[(i % na) as usize], &c1)
    }, only_text));
    // on all elements, a few values
    let n2 = names.clone();
    let few: Vec<String> = ["1 2", "inherit", "none", "#a", "url(#a) red", "5%", "zz", " q "].iter().map(|s| s.to_string()).collect();
    v.push(gen_suite("elements", "all attributes x all elements x 8 values", na * ELEMENTS.len() as u64, move |i| {
        value_doc(ELEMENTS[(i / na) as usize], n2[(i % na) as usize], &few)
    }, only_text));
    // white space around each value
    let n3 = names.clone();
    let ws: Vec<String> = {
        let pads = ["", " ", "\n", "\t", "\r", "  ", "\u{a0}"];
        let mut l = vec![];
        for a in pads { for b in pads { l.push(format!("{}@{}", a, b)); } }
        l
    };
    v.push(gen_suite("padding", "all attributes x white space before and after a valid value", na, move |i| {
        let a = n3[i as usize];
        let l: Vec<String> = ws.iter().map(|w| w.replace('@', crate::parse::valid_value(a))).collect();
        value_doc("text", a, &l)
    }, only_text));
    // an invalid value next to others
    let n4 = names.clone();
    v.push(gen_suite("neighbours", "every attribute with a valid, an invalid and an empty value between two others", na * na, move |i| {
        let (a, b) = (n4[(i % na) as usize], n4[(i / na) as usize]);
        let q = |n: &str| if n == "href" { "xlink:href".to_string() } else { n.to_string() };
        let mut s = String::from(S);
        if a != b { for x in ["?", "", crate::parse::valid_value(a)] {
            s.push_str(&format!("<g {}='{}' {}='{}'/><g {}='{}' {}='{}'/>", q(b), crate::parse::valid_value(b), q(a), x, q(a), x, q(b), crate::parse::valid_value(b)));
        } }
        s + "</svg>"
    }, only_text));
    // all short strings for an attribute of each syntax
    let alphabets: [(&str, &[char]); 4] = [
        ("number", &['0', '1', '.', '-', '+', 'e', '%', ' ', ',', 'x']),
        ("length", &['1', 'm', 'p', 'x', 'e', 't', 'c', 'n', 'i', ' ', '-']),
        ("color", &['#', 'f', '0', 'g', 'r', 'e', 'd', ' ']),
        ("path", &['M', 'm', 'L', 'z', 'h', '1', '-', ' ', ',', 'a']),
    ];
    for (name, chars) in alphabets.iter() {
        let list = strings(chars, tier.pick3(4, 5, 6));
        let per = 64;
        let chunks: Vec<Vec<String>> = list.chunks(per).map(|c| c.to_vec()).collect();
        let nc = chunks.len() as u64;
        let chunks = Arc::new(chunks);
        v.push(gen_suite(&format!("strings-{}", name), &format!("all strings of up to {} characters {:?} for an attribute of each syntax, {} values per document", tier.pick3(4, 5, 6), chars, per), nc * REPR.len() as u64, move |i| {
            let (e, a) = REPR[(i / nc) as usize];
            value_doc(e, a, &chunks[(i % nc) as usize])
        }, only_text));
    }
    // clamping
    v.push(gen_suite("numbers", "numbers from -2 to 2 in steps of 1/64 in several notations for clamped and unclamped numbers", 257, move |i| {
        let x = i as f64 / 64.0 - 2.0;
        let mut s = String::from(S);
        for a in ["opacity", "fill-opacity", "flood-opacity", "stroke-opacity", "stop-opacity", "k1", "k2", "k3", "k4", "stroke-miterlimit", "font-size-adjust", "offset", "stroke-width", "letter-spacing"] {
            for t in [format!("{}", x), format!("{:e}", x), format!("{:.3}", x), format!("{}%", x), format!("{} ", x)] {
                s.push_str(&format!("<g {}='{}'/><g style='{}:{}'/>", a, t, a, t));
            }
        }
        s + "</svg>"
    }, only_text));
    // short lists
    const ITEMS: [&str; 12] = ["0", "1", "2", "-1", "0.5", "10", "100", "-0", "1.5px", "2%", "1mm", "x"];
    let lists = strings(&['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l'], tier.pick(3, 4));
    let mut lists: Vec<Vec<usize>> = lists.iter().map(|s| s.bytes().map(|b| (b - b'a') as usize).collect()).collect();
    // longer ones of fewer numbers
    lists.extend(strings(&['a', 'b', 'c', 'd'], tier.pick(6, 7)).iter().filter(|s| s.len() > 3).map(|s| s.bytes().map(|b| (b - b'a') as usize).collect::<Vec<_>>()));
    let chunks: Arc<Vec<Vec<Vec<usize>>>> = Arc::new(lists.chunks(64).map(|c| c.to_vec()).collect());
    let nc = chunks.len() as u64;
    const LISTS: [(&str, &str); 24] = [("polyline", "points"), ("svg", "viewBox"), ("text", "x"), ("tspan", "y"), ("tref", "dx"), ("altGlyph", "dy"), ("text", "rotate"), ("g", "stroke-dasharray"), ("feColorMatrix", "values"),
        ("feFuncR", "tableValues"), ("feConvolveMatrix", "kernelMatrix"), ("feConvolveMatrix", "order"), ("feGaussianBlur", "stdDeviation"), ("feTurbulence", "baseFrequency"), ("feMorphology", "radius"), ("animate", "keyTimes"), ("g", "enable-background"), ("g", "clip"),
        ("path", "d"), ("g", "transform"), ("g", "stroke-width"), ("g", "opacity"), ("g", "fill"), ("rect", "x")];
    v.push(gen_suite("lists", "all lists of up to 3 of 12 items and of up to 6 of four numbers, separated by spaces and commas, for every attribute with a list", nc * LISTS.len() as u64 * 2, move |i| {
        let (e, a) = LISTS[(i / nc / 2) as usize];
        let vals: Vec<String> = chunks[(i % nc) as usize].iter().map(|l| {
            let sep = if i / nc % 2 == 0 { " " } else { "," };
            let l = l.iter().map(|k| ITEMS[*k]).collect::<Vec<_>>().join(sep);
            match a { "d" => format!("M {}", l), "transform" => format!("matrix({})", l), "fill" => format!("rgb({})", l), _ => l }
        }).collect();
        value_doc(e, a, &vals)
    }, only_text));
    // special characters in every kind of value
    let words: Vec<String> = crate::text::xml_words();
    let chunks: Arc<Vec<Vec<String>>> = Arc::new(words.chunks(64).map(|c| c.to_vec()).collect());
    let nc = chunks.len() as u64;
    let nr = REPR.len() as u64;
    const WRAP: [&str; 3] = ["@", "1 @", "url(#@)"];
    v.push(gen_suite("words", "special characters and sequences for an attribute of each syntax, alone, after a number and as an id", nc * nr * WRAP.len() as u64, move |i| {
        let (e, a) = REPR[(i / nc % nr) as usize];
        let vals: Vec<String> = chunks[(i % nc) as usize].iter().map(|w| WRAP[(i / nc / nr) as usize].replace('@', w)).collect();
        value_doc(e, a, &vals)
    }, only_text));
    // numbers and everything made of them
    v.push(typed());
    // long values
    let sizes: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1023, 1024, 1025, 2049, 4097]).collect();
    let k = sizes.len() as u64;
    v.push(gen_suite("scaled", "lists, paths, points, transforms, names and padding of up to 4097 items", k * 14, move |i| {
        let n = sizes[(i % k) as usize];
        let each = |g: &dyn Fn(usize) -> String| (0..n).map(|x| g(x)).collect::<Vec<_>>().join(" ");
        let nums = each(&|x| format!("{}", x as f64 / 4.0));
        let (e, a, val) = match i / k {
            0 => ("path", "d", format!("M 1 1 {}", each(&|x| format!("L {} 2", x)))),
            1 => ("path", "d", format!("m 1 1 {} x", each(&|x| ["h 1", "V 2", "c 1 2 3 4 5 6", "z", "A 1 2 3 0 1 4 5"][x % 5].into()))),
            2 => ("path", "d", format!("M 1 1 L {}", nums.replace(' ', ","))),
            3 => ("polyline", "points", nums),
            4 => ("text", "x", each(&|x| format!("{}{}", x, ["", "px", "mm", "%"][x % 4]))),
            5 => ("tspan", "rotate", nums),
            6 => ("g", "stroke-dasharray", each(&|x| format!("{}", x + 1))),
            7 => ("g", "transform", each(&|x| format!("translate({} 1)", x))),
            8 => ("g", "font-family", "\u{e9}x ".repeat(n) + "z"),
            9 => ("glyph", "unicode", " ".repeat(n)),
            10 => ("g", "stroke-width", format!("{}7{}", " ".repeat(n), " ".repeat(n))),
            11 => ("g", "opacity", format!("0.{}1", "0".repeat(n))),
            12 => ("g", "fill", format!("url(#{}) red", "q".repeat(n))),
            _ => ("g", "mask", format!("url(#{})", "\u{e9}".repeat(n))),
        };
        value_doc(e, a, &[val])
    }, only_text));
    v.push(crate::parse::long());
    // the same through CSS
    let n5: Vec<&'static str> = refparse::PRESENTATION.iter().cloned().chain(["transform"].iter().cloned()).collect();
    let c5 = cat.clone();
    v.push(gen_suite("css", "all properties x all values of the catalogue in a style attribute and in a rule", n5.len() as u64 * CATALOGUE.len() as u64, move |i| {
        let a = n5[(i % n5.len() as u64) as usize];
        let val = escape(&c5[(i / n5.len() as u64) as usize]);
        format!("{}<style>.c{{{}:{}}}</style><rect class='c'/><rect style='{}:{}'/><set class='c'/></svg>", S, a, val.replace("&apos;", "'"), a, val)
    }, only_text));
    v
}

/// The attribute that a value of this kind belongs to.
fn home(v: &svgdom::AttributeValue) -> &'static [(&'static str, &'static str)] {
    use svgdom::AttributeValue as V;
    match v {
        V::Number(_) => &[("g", "stroke-miterlimit"), ("g", "opacity"), ("stop", "offset")],
        V::Length(_) => &[("g", "stroke-width"), ("rect", "x"), ("g", "font-size"), ("g", "letter-spacing"), ("g", "baseline-shift")],
        V::Angle(_) => &[("marker", "orient"), ("g", "glyph-orientation-horizontal"), ("g", "glyph-orientation-vertical")],
        V::Transform(_) => &[("g", "transform"), ("linearGradient", "gradientTransform"), ("pattern", "patternTransform")],
        V::ViewBox(_) => &[("svg", "viewBox")],
        V::NumberList(_) => &[("text", "rotate"), ("feGaussianBlur", "stdDeviation")],
        V::LengthList(_) => &[("text", "x"), ("tspan", "dy"), ("g", "stroke-dasharray")],
        V::Points(_) => &[("polyline", "points")],
        V::Color(_) => &[("g", "fill"), ("g", "color"), ("stop", "stop-color")],
        V::AspectRatio(_) => &[("image", "preserveAspectRatio")],
        V::Path(_) => &[("path", "d")],
        _ => &[("g", "font-family"), ("g", "display"), ("g", "fill"), ("g", "stroke-dasharray"), ("a", "href"), ("g", "stroke"), ("g", "mask")],
    }
}

/// The value as svgtypes writes it.
fn spelled(v: &svgdom::AttributeValue) -> String {
    use svgdom::AttributeValue as V;
    match v {
        V::None => "none".into(), V::Inherit => "inherit".into(), V::CurrentColor => "currentColor".into(),
        V::Number(x) => x.to_string(), V::Length(x) => x.to_string(), V::Angle(x) => x.to_string(), V::Transform(x) => x.to_string(), V::ViewBox(x) => x.to_string(),
        V::NumberList(x) => x.to_string(), V::LengthList(x) => x.to_string(), V::Points(x) => x.to_string(), V::Color(x) => x.to_string(),
        V::AspectRatio(x) => x.to_string(), V::Path(x) => x.to_string(), V::String(x) => x.clone(),
        _ => unreachable!(),
    }
}

pub fn typed() -> Suite {
    let n = crate::values::dense().len() as u64;
    gen_suite("typed", "many values of every kind, written for attributes of their kind, also by a style attribute", n, move |i| {
        let v = &crate::values::dense_at(i);
        let mut s = String::from(S);
        for (e, a) in home(v) {
            let t = escape(&spelled(v));
            s.push_str(&format!("<{} {}{}='{}'/><{} style='{}:{}'/>", e, if *a == "href" { "xlink:" } else { "" }, a, t, e, a, t));
        }
        s + "</svg>"
    }, only_text)
}
