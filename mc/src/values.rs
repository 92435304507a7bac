//! One or more samples of every kind of attribute value without a link.

use std::str::FromStr;
use svgdom::*;

pub fn samples() -> Vec<AttributeValue> {
    use svgdom::AttributeValue as V;
    vec![
        V::None, V::Inherit, V::CurrentColor,
        V::AspectRatio(AspectRatio::from_str("xMinYMax slice").unwrap()),
        V::AspectRatio(AspectRatio::from_str("none").unwrap()),
        V::Color(Color::new(255, 0, 17)),
        V::Color(Color::new(18, 52, 86)),
        V::Length(Length::new(1.5, LengthUnit::None)),
        V::Length(Length::new(-20.0, LengthUnit::Percent)),
        V::Length(Length::new(0.5, LengthUnit::Em)),
        V::LengthList(LengthList(vec![])),
        V::LengthList(LengthList(vec![Length::new(1.0, LengthUnit::Px), Length::new(-0.5, LengthUnit::Mm), Length::new(3.0, LengthUnit::None)])),
        V::Angle(Angle::new(30.0, AngleUnit::Radians)),
        V::Angle(Angle::new(30.0, AngleUnit::Degrees)),
        V::Number(0.25), V::Number(-100.0), V::Number(0.0),
        V::NumberList(NumberList(vec![])),
        V::NumberList(NumberList(vec![0.5, -1.0, 20.0])),
        V::Path(Path(vec![])),
        V::Path(Path::from_str("M 10 20 L 30 40 l 0.5 -0.5 A 5 6 30 0 1 7 8 Z").unwrap()),
        V::Points(Points::from_str("1,2 3,4").unwrap()),
        V::Transform(Transform::new(2.0, 0.0, 0.0, 3.0, 4.0, 5.0)),
        V::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, 0.0, 0.0)),
        V::ViewBox(ViewBox::new(0.0, -1.0, 20.0, 30.5)),
        V::String("text".into()), V::String("".into()), V::String("a 'b' \"c\" é".into()),
    ]
}

pub const NUMBERS: [f64; 40] = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, 7.0, 9.0, 10.0, -10.0, 11.0, 12.25, 45.0, 90.0, -90.0, 99.0, 100.0, 101.0, 127.0, 128.0, 180.0, 255.0, 256.0, -256.0, 360.0, 999.0, 1000.0,
    1024.0, 0.1, 0.01, 0.001, 0.0001, -0.001, 32768.0, 65536.5, 1000000.0, 3000000000.0, -5000000000.0];
pub const UNITS: [LengthUnit; 10] = [LengthUnit::None, LengthUnit::Em, LengthUnit::Ex, LengthUnit::Px, LengthUnit::In, LengthUnit::Cm, LengthUnit::Mm, LengthUnit::Pt, LengthUnit::Pc, LengthUnit::Percent];
pub const ANGLES: [AngleUnit; 3] = [AngleUnit::Degrees, AngleUnit::Gradians, AngleUnit::Radians];

/// Many values of every kind without a link, all different.
thread_local!(static DENSE: Vec<AttributeValue> = dense());

/// A value of `dense`, built once per thread.
pub fn dense_at(i: u64) -> AttributeValue { DENSE.with(|d| d[i as usize].clone()) }

pub fn dense() -> Vec<AttributeValue> {
    use svgdom::AttributeValue as V;
    let mut v = vec![V::None, V::Inherit, V::CurrentColor];
    for &n in &NUMBERS {
        v.push(V::Number(n));
        for &u in &UNITS { v.push(V::Length(Length::new(n, u))); }
        for &u in &ANGLES { v.push(V::Angle(Angle::new(n, u))); }
        if n != 0.0 {
            v.push(V::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, n, 0.0)));
            v.push(V::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, 0.0, n)));
            v.push(V::Transform(Transform::new(1.0, n, 0.0, 1.0, 0.0, 0.0)));
            v.push(V::Transform(Transform::new(1.0, 0.0, n, 1.0, 0.0, 0.0)));
            if n != 1.0 {
                v.push(V::Transform(Transform::new(n, 0.0, 0.0, 1.0, 0.0, 0.0)));
                v.push(V::Transform(Transform::new(1.0, 0.0, 0.0, n, 0.0, 0.0)));
                v.push(V::Transform(Transform::new(n, 0.0, 0.0, n, n, n)));
            }
            v.push(V::ViewBox(ViewBox::new(0.0, 0.0, n.abs(), 10.0)));
            v.push(V::ViewBox(ViewBox::new(n, 0.0, 0.25, n.abs())));
        }
    }
    let few = [0.0, 1.0, -1.0, 0.5, 20.0];
    let mut lists: Vec<Vec<f64>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..3 { let to = lists.len(); for i in from..to { for n in few { let mut l = lists[i].clone(); l.push(n); lists.push(l); } } from = to; }
    for l in &lists {
        v.push(V::NumberList(NumberList(l.clone())));
        v.push(V::LengthList(LengthList(l.iter().map(|n| Length::new(*n, LengthUnit::None)).collect())));
        if !l.is_empty() {
            v.push(V::LengthList(LengthList(l.iter().map(|n| Length::new(*n, LengthUnit::Mm)).collect())));
            v.push(V::LengthList(LengthList(l.iter().enumerate().map(|(i, n)| Length::new(*n, UNITS[1 + i * 4])).collect())));
        }
        v.push(V::Points(Points(l.iter().map(|n| (*n, 2.0)).collect())));
        if !l.is_empty() { v.push(V::Points(Points(l.iter().map(|n| (0.75, *n)).collect()))); }
    }
    for r in [0u8, 1, 0x11, 0xab, 0xff] { for g in [0u8, 0x10, 0x22, 0xff] { for b in [0u8, 0x0f, 0x33, 0xfe, 0xff] { v.push(V::Color(Color::new(r, g, b))); } } }
    for a in ["none", "xMinYMin", "xMidYMin", "xMaxYMin", "xMinYMid", "xMidYMid", "xMaxYMid", "xMinYMax", "xMidYMax", "xMaxYMax"] {
        for d in ["", "defer "] { for s in ["", " slice"] { v.push(V::AspectRatio(AspectRatio::from_str(&format!("{}{}{}", d, a, s)).unwrap())); } }
    }
    for p in ["M 1 2", "m 1 2", "M 1 2 L 3 4", "M 1 2 l 3 4", "M 1 2 L 3 4 L 5 6", "M 1 2 H 3", "M 1 2 h 3", "M 1 2 V 3", "M 1 2 v 3", "M 1 2 C 1 2 3 4 5 6", "M 1 2 c 1 2 3 4 5 6", "M 1 2 S 1 2 3 4", "M 1 2 s 1 2 3 4", "M 1 2 Q 1 2 3 4",
        "M 1 2 q 1 2 3 4", "M 1 2 T 3 4", "M 1 2 t 3 4", "M 1 2 A 1 2 3 0 0 4 5", "M 1 2 A 1 2 3 1 0 4 5", "M 1 2 A 1 2 3 0 1 4 5", "M 1 2 a 1 2 3 1 1 4 5", "M 1 2 Z", "M 1 2 z", "M 1 2 M 3 4", "M 1 2 m 3 4", "M 0.5 -0.5 L -0.5 0.5", "M 1 2 Z M 1 2 Z", "M 1 2 L 1 2 Z L 3 4"] {
        v.push(V::Path(Path::from_str(p).unwrap()));
    }
    for s in ["", " ", "a", "A", "a ", " a", "none", "inherit", "currentColor", "0", "1", "#fff", "url(#a)", "\u{e9}", "e\u{301}"] { v.push(V::String(s.into())); }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(format!("{:?}", x)));
    v
}

/// Numbers with many digits, very large and very small ones, the limits of smaller types.
pub const HARD: [f64; 22] = [0.123456789, -0.123456789, 1.0 / 3.0, 2.0 / 3.0, 1e-9, -1e-12, 1e-300, 5e-324, 1e10, 1e16, 9007199254740993.0, 1e300, 1.7976931348623157e308, -1.7976931348623157e308,
    16777217.0, 2147483648.0, -2147483649.0, 4294967296.5, 0.1 + 0.2, 99999999.99999999, 1234567.890625, -0.0];

/// `dense`, and values with numbers that only a full f64 holds: for what stores values and does not write them.
pub fn exact() -> Vec<AttributeValue> {
    use svgdom::AttributeValue as V;
    let mut v = dense();
    for &n in &HARD {
        v.push(V::Number(n));
        for &u in &UNITS { v.push(V::Length(Length::new(n, u))); }
        for &u in &ANGLES { v.push(V::Angle(Angle::new(n, u))); }
        v.push(V::NumberList(NumberList(vec![n, 1.0, n])));
        v.push(V::LengthList(LengthList(vec![Length::new(1.0, LengthUnit::Mm), Length::new(n, LengthUnit::Pt)])));
        v.push(V::Points(Points(vec![(n, 1.0), (1.0, n)])));
        v.push(V::Transform(Transform::new(n, n, n, n, n, n)));
        if n.abs() > 0.0 { v.push(V::ViewBox(ViewBox::new(n, n, n.abs(), n.abs()))); }
    }
    v
}
