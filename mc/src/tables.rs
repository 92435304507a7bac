//! C15 and C16: names, categories and defaults, as tables of the specification.
//! The identifier of a name is the name in camel case.

use std::collections::HashMap;
use std::sync::Arc;
use svgdom::{
    Attribute, AttributeId as AId, AttributeType, AttributeValue as V, Color, Document, ElementId as EId, ElementType,
    Length, LengthUnit, Node, NodeType, QName, QNameRef, SvgId,
};

use crate::engine::*;
use crate::model::plain_eq;
use crate::names::*;
use crate::text::strings;

pub const EIDS: [(&str, EId); 80] = [
    ("a", EId::A), ("altGlyph", EId::AltGlyph), ("altGlyphDef", EId::AltGlyphDef),
    ("altGlyphItem", EId::AltGlyphItem), ("animate", EId::Animate), ("animateColor", EId::AnimateColor),
    ("animateMotion", EId::AnimateMotion), ("animateTransform", EId::AnimateTransform), ("circle", EId::Circle),
    ("clipPath", EId::ClipPath), ("color-profile", EId::ColorProfile), ("cursor", EId::Cursor), ("defs", EId::Defs),
    ("desc", EId::Desc), ("ellipse", EId::Ellipse), ("feBlend", EId::FeBlend), ("feColorMatrix", EId::FeColorMatrix),
    ("feComponentTransfer", EId::FeComponentTransfer), ("feComposite", EId::FeComposite),
    ("feConvolveMatrix", EId::FeConvolveMatrix), ("feDiffuseLighting", EId::FeDiffuseLighting),
    ("feDisplacementMap", EId::FeDisplacementMap), ("feDistantLight", EId::FeDistantLight), ("feFlood", EId::FeFlood),
    ("feFuncA", EId::FeFuncA), ("feFuncB", EId::FeFuncB), ("feFuncG", EId::FeFuncG), ("feFuncR", EId::FeFuncR),
    ("feGaussianBlur", EId::FeGaussianBlur), ("feImage", EId::FeImage), ("feMerge", EId::FeMerge),
    ("feMergeNode", EId::FeMergeNode), ("feMorphology", EId::FeMorphology), ("feOffset", EId::FeOffset),
    ("fePointLight", EId::FePointLight), ("feSpecularLighting", EId::FeSpecularLighting),
    ("feSpotLight", EId::FeSpotLight), ("feTile", EId::FeTile), ("feTurbulence", EId::FeTurbulence),
    ("filter", EId::Filter), ("font", EId::Font), ("font-face", EId::FontFace),
    ("font-face-format", EId::FontFaceFormat), ("font-face-name", EId::FontFaceName),
    ("font-face-src", EId::FontFaceSrc), ("font-face-uri", EId::FontFaceUri), ("foreignObject", EId::ForeignObject),
    ("g", EId::G), ("glyph", EId::Glyph), ("glyphRef", EId::GlyphRef), ("hkern", EId::Hkern), ("image", EId::Image),
    ("line", EId::Line), ("linearGradient", EId::LinearGradient), ("marker", EId::Marker), ("mask", EId::Mask),
    ("metadata", EId::Metadata), ("missing-glyph", EId::MissingGlyph), ("mpath", EId::Mpath), ("path", EId::Path),
    ("pattern", EId::Pattern), ("polygon", EId::Polygon), ("polyline", EId::Polyline),
    ("radialGradient", EId::RadialGradient), ("rect", EId::Rect), ("script", EId::Script), ("set", EId::Set),
    ("stop", EId::Stop), ("style", EId::Style), ("svg", EId::Svg), ("switch", EId::Switch), ("symbol", EId::Symbol),
    ("text", EId::Text), ("textPath", EId::TextPath), ("title", EId::Title), ("tref", EId::Tref),
    ("tspan", EId::Tspan), ("use", EId::Use), ("view", EId::View), ("vkern", EId::Vkern),
];

pub const AIDS: [(&str, AId); 270] = [
    ("accent-height", AId::AccentHeight), ("accumulate", AId::Accumulate), ("actuate", AId::Actuate),
    ("additive", AId::Additive), ("alignment-baseline", AId::AlignmentBaseline), ("alphabetic", AId::Alphabetic),
    ("amplitude", AId::Amplitude), ("arabic-form", AId::ArabicForm), ("arcrole", AId::Arcrole),
    ("ascent", AId::Ascent), ("attributeName", AId::AttributeName), ("attributeType", AId::AttributeType),
    ("azimuth", AId::Azimuth), ("base", AId::Base), ("baseFrequency", AId::BaseFrequency),
    ("baseline-shift", AId::BaselineShift), ("baseProfile", AId::BaseProfile), ("bbox", AId::Bbox),
    ("begin", AId::Begin), ("bias", AId::Bias), ("by", AId::By), ("calcMode", AId::CalcMode),
    ("cap-height", AId::CapHeight), ("class", AId::Class), ("clip", AId::Clip), ("clip-path", AId::ClipPath),
    ("clip-rule", AId::ClipRule), ("clipPathUnits", AId::ClipPathUnits), ("color", AId::Color),
    ("color-interpolation", AId::ColorInterpolation), ("color-interpolation-filters", AId::ColorInterpolationFilters),
    ("color-profile", AId::ColorProfile), ("color-rendering", AId::ColorRendering),
    ("contentScriptType", AId::ContentScriptType), ("contentStyleType", AId::ContentStyleType),
    ("cursor", AId::Cursor), ("cx", AId::Cx), ("cy", AId::Cy), ("d", AId::D), ("descent", AId::Descent),
    ("diffuseConstant", AId::DiffuseConstant), ("direction", AId::Direction), ("display", AId::Display),
    ("divisor", AId::Divisor), ("dominant-baseline", AId::DominantBaseline), ("dur", AId::Dur), ("dx", AId::Dx),
    ("dy", AId::Dy), ("edgeMode", AId::EdgeMode), ("elevation", AId::Elevation),
    ("enable-background", AId::EnableBackground), ("encoding", AId::Encoding), ("end", AId::End),
    ("exponent", AId::Exponent), ("externalResourcesRequired", AId::ExternalResourcesRequired), ("fill", AId::Fill),
    ("fill-opacity", AId::FillOpacity), ("fill-rule", AId::FillRule), ("filter", AId::Filter),
    ("filterRes", AId::FilterRes), ("filterUnits", AId::FilterUnits), ("flood-color", AId::FloodColor),
    ("flood-opacity", AId::FloodOpacity), ("font", AId::Font), ("font-family", AId::FontFamily),
    ("font-size", AId::FontSize), ("font-size-adjust", AId::FontSizeAdjust), ("font-stretch", AId::FontStretch),
    ("font-style", AId::FontStyle), ("font-variant", AId::FontVariant), ("font-weight", AId::FontWeight),
    ("format", AId::Format), ("from", AId::From), ("fx", AId::Fx), ("fy", AId::Fy), ("g1", AId::G1), ("g2", AId::G2),
    ("glyph-name", AId::GlyphName), ("glyph-orientation-horizontal", AId::GlyphOrientationHorizontal),
    ("glyph-orientation-vertical", AId::GlyphOrientationVertical), ("glyphRef", AId::GlyphRef),
    ("gradientTransform", AId::GradientTransform), ("gradientUnits", AId::GradientUnits), ("hanging", AId::Hanging),
    ("height", AId::Height), ("horiz-adv-x", AId::HorizAdvX), ("horiz-origin-x", AId::HorizOriginX),
    ("horiz-origin-y", AId::HorizOriginY), ("href", AId::Href), ("id", AId::Id), ("ideographic", AId::Ideographic),
    ("image-rendering", AId::ImageRendering), ("in", AId::In), ("in2", AId::In2), ("intercept", AId::Intercept),
    ("k", AId::K), ("k1", AId::K1), ("k2", AId::K2), ("k3", AId::K3), ("k4", AId::K4),
    ("kernelMatrix", AId::KernelMatrix), ("kernelUnitLength", AId::KernelUnitLength), ("kerning", AId::Kerning),
    ("keyPoints", AId::KeyPoints), ("keySplines", AId::KeySplines), ("keyTimes", AId::KeyTimes), ("lang", AId::Lang),
    ("lengthAdjust", AId::LengthAdjust), ("letter-spacing", AId::LetterSpacing),
    ("lighting-color", AId::LightingColor), ("limitingConeAngle", AId::LimitingConeAngle),
    ("line-height", AId::LineHeight), ("local", AId::Local), ("marker", AId::Marker), ("marker-end", AId::MarkerEnd),
    ("marker-mid", AId::MarkerMid), ("marker-start", AId::MarkerStart), ("markerHeight", AId::MarkerHeight),
    ("markerUnits", AId::MarkerUnits), ("markerWidth", AId::MarkerWidth), ("mask", AId::Mask),
    ("maskContentUnits", AId::MaskContentUnits), ("maskUnits", AId::MaskUnits), ("mathematical", AId::Mathematical),
    ("max", AId::Max), ("media", AId::Media), ("method", AId::Method), ("min", AId::Min), ("mode", AId::Mode),
    ("name", AId::Name), ("numOctaves", AId::NumOctaves), ("offset", AId::Offset), ("onabort", AId::Onabort),
    ("onactivate", AId::Onactivate), ("onbegin", AId::Onbegin), ("onclick", AId::Onclick), ("onend", AId::Onend),
    ("onerror", AId::Onerror), ("onfocusin", AId::Onfocusin), ("onfocusout", AId::Onfocusout),
    ("onload", AId::Onload), ("onmousedown", AId::Onmousedown), ("onmousemove", AId::Onmousemove),
    ("onmouseout", AId::Onmouseout), ("onmouseover", AId::Onmouseover), ("onmouseup", AId::Onmouseup),
    ("onrepeat", AId::Onrepeat), ("onresize", AId::Onresize), ("onscroll", AId::Onscroll),
    ("onunload", AId::Onunload), ("onzoom", AId::Onzoom), ("opacity", AId::Opacity), ("operator", AId::Operator),
    ("order", AId::Order), ("orient", AId::Orient), ("orientation", AId::Orientation), ("origin", AId::Origin),
    ("overflow", AId::Overflow), ("overline-position", AId::OverlinePosition),
    ("overline-thickness", AId::OverlineThickness), ("panose-1", AId::Panose1), ("path", AId::Path),
    ("pathLength", AId::PathLength), ("patternContentUnits", AId::PatternContentUnits),
    ("patternTransform", AId::PatternTransform), ("patternUnits", AId::PatternUnits),
    ("pointer-events", AId::PointerEvents), ("points", AId::Points), ("pointsAtX", AId::PointsAtX),
    ("pointsAtY", AId::PointsAtY), ("pointsAtZ", AId::PointsAtZ), ("preserveAlpha", AId::PreserveAlpha),
    ("preserveAspectRatio", AId::PreserveAspectRatio), ("primitiveUnits", AId::PrimitiveUnits), ("r", AId::R),
    ("radius", AId::Radius), ("refX", AId::RefX), ("refY", AId::RefY), ("rendering-intent", AId::RenderingIntent),
    ("repeatCount", AId::RepeatCount), ("repeatDur", AId::RepeatDur), ("requiredExtensions", AId::RequiredExtensions),
    ("requiredFeatures", AId::RequiredFeatures), ("restart", AId::Restart), ("result", AId::Result),
    ("role", AId::Role), ("rotate", AId::Rotate), ("rx", AId::Rx), ("ry", AId::Ry), ("scale", AId::Scale),
    ("seed", AId::Seed), ("shape-rendering", AId::ShapeRendering), ("show", AId::Show), ("slope", AId::Slope),
    ("space", AId::Space), ("spacing", AId::Spacing), ("specularConstant", AId::SpecularConstant),
    ("specularExponent", AId::SpecularExponent), ("spreadMethod", AId::SpreadMethod), ("standalone", AId::Standalone),
    ("startOffset", AId::StartOffset), ("stdDeviation", AId::StdDeviation), ("stemh", AId::Stemh),
    ("stemv", AId::Stemv), ("stitchTiles", AId::StitchTiles), ("stop-color", AId::StopColor),
    ("stop-opacity", AId::StopOpacity), ("strikethrough-position", AId::StrikethroughPosition),
    ("strikethrough-thickness", AId::StrikethroughThickness), ("string", AId::String), ("stroke", AId::Stroke),
    ("stroke-dasharray", AId::StrokeDasharray), ("stroke-dashoffset", AId::StrokeDashoffset),
    ("stroke-linecap", AId::StrokeLinecap), ("stroke-linejoin", AId::StrokeLinejoin),
    ("stroke-miterlimit", AId::StrokeMiterlimit), ("stroke-opacity", AId::StrokeOpacity),
    ("stroke-width", AId::StrokeWidth), ("style", AId::Style), ("surfaceScale", AId::SurfaceScale),
    ("systemLanguage", AId::SystemLanguage), ("tableValues", AId::TableValues), ("target", AId::Target),
    ("targetX", AId::TargetX), ("targetY", AId::TargetY), ("text-anchor", AId::TextAnchor),
    ("text-decoration", AId::TextDecoration), ("text-rendering", AId::TextRendering), ("textLength", AId::TextLength),
    ("title", AId::Title), ("to", AId::To), ("transform", AId::Transform), ("type", AId::Type), ("u1", AId::U1),
    ("u2", AId::U2), ("underline-position", AId::UnderlinePosition), ("underline-thickness", AId::UnderlineThickness),
    ("unicode", AId::Unicode), ("unicode-bidi", AId::UnicodeBidi), ("unicode-range", AId::UnicodeRange),
    ("units-per-em", AId::UnitsPerEm), ("v-alphabetic", AId::VAlphabetic), ("v-hanging", AId::VHanging),
    ("v-ideographic", AId::VIdeographic), ("v-mathematical", AId::VMathematical), ("values", AId::Values),
    ("version", AId::Version), ("vert-adv-y", AId::VertAdvY), ("vert-origin-x", AId::VertOriginX),
    ("vert-origin-y", AId::VertOriginY), ("viewBox", AId::ViewBox), ("viewTarget", AId::ViewTarget),
    ("visibility", AId::Visibility), ("width", AId::Width), ("widths", AId::Widths),
    ("word-spacing", AId::WordSpacing), ("writing-mode", AId::WritingMode), ("x", AId::X), ("x-height", AId::XHeight),
    ("x1", AId::X1), ("x2", AId::X2), ("xChannelSelector", AId::XChannelSelector), ("xlink", AId::Xlink),
    ("xmlns", AId::Xmlns), ("y", AId::Y), ("y1", AId::Y1), ("y2", AId::Y2),
    ("yChannelSelector", AId::YChannelSelector), ("z", AId::Z), ("zoomAndPan", AId::ZoomAndPan),
];

// ------------------------------------------------------------------------ C15

/// Both directions for one string.
fn name_check(s: &str, elems: &HashMap<&'static str, EId>, attrs: &HashMap<&'static str, AId>, ctx: &mut Ctx) -> R {
    let (e, a) = (EId::from_str(s), AId::from_str(s));
    ctx.step(2);
    if e != elems.get(s).cloned() { return Err(format!("ElementId::from_str({:?}) is {:?}", s, e)); }
    if a != attrs.get(s).cloned() { return Err(format!("AttributeId::from_str({:?}) is {:?}", s, a)); }
    Ok(())
}

fn maps() -> (HashMap<&'static str, EId>, HashMap<&'static str, AId>) {
    (EIDS.iter().cloned().collect(), AIDS.iter().cloned().collect())
}

/// Strings one edit away.
fn neighbours(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let alphabet: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("-_:. \t\n\0\u{e9}\u{212a}\u{17f}/#'\"".chars()).collect();
    let mut v = vec![];
    let make = |l: &[char]| l.iter().collect::<String>();
    for i in 0..=c.len() {
        for &x in &alphabet {
            let mut n = c.clone();
            n.insert(i, x);
            v.push(make(&n));
            if i < c.len() { let mut n = c.clone(); n[i] = x; v.push(make(&n)); }
        }
        if i < c.len() {
            let mut n = c.clone();
            n.remove(i);
            v.push(make(&n));
            v.push(make(&c[..i]));
            v.push(make(&c[i..]));
            let mut n = c.clone();
            if i + 1 < n.len() { n.swap(i, i + 1); v.push(make(&n)); }
            // doubled letter
            let mut n = c.clone();
            n.insert(i, c[i]);
            v.push(make(&n));
        }
    }
    v.push(s.to_uppercase());
    v.push(s.to_lowercase());
    for p in ["svg:", "xlink:", "xml:", "{http://www.w3.org/2000/svg}", " ", "-", "\u{feff}"] { v.push(format!("{}{}", p, s)); v.push(format!("{}{}", s, p)); }
    v.push(s.replace('-', ""));
    v.push(s.replace('-', "_"));
    v.push(s.repeat(2));
    v
}

pub fn c15(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let m = Arc::new(maps());
    v.push(Suite::new("elements", "every element name: identifier, spelling, Display, Debug, order", EIDS.len() as u64, |i, ctx| {
        let (s, e) = EIDS[i as usize];
        ctx.step(6);
        ctx.compared();
        ctx.outcome(i);
        if EId::from_str(s) != Some(e) { return Err(format!("from_str gives {:?}", EId::from_str(s))); }
        if e.as_str() != s || e.name() != s || e.to_string() != s || format!("{:?}", e) != s { return Err(format!("as_str, name, Display or Debug of {:?} is wrong: {:?} {} {} {:?}", s, e.as_str(), e.name(), e, e)); }
        for (t, f) in EIDS.iter() {
            ctx.step(2);
            if (e == *f) != (s == *t) { return Err(format!("equality of {:?} and {:?} is wrong", s, t)); }
        }
        let q: QName<EId> = QNameRef::from(e).into();
        if q.to_string() != s || !q.has_id(e) || q != QName::Id(e) || q == QName::Name(s.into()) || !q.as_ref().has_id(e) { return Err("the qualified name is wrong".into()); }
        let n: QName<EId> = QNameRef::from(s).into();
        if n.to_string() != s || n.has_id(e) || n != QName::Name(s.into()) || n.as_ref().has_id(e) { return Err("the custom qualified name is wrong".into()); }
        Ok(())
    }, |i| EIDS[i as usize].0.to_string()));
    v.push(Suite::new("attributes", "every attribute name: identifier, spelling, Display, Debug, alphabetical order", AIDS.len() as u64, |i, ctx| {
        let (s, e) = AIDS[i as usize];
        ctx.step(6);
        ctx.compared();
        ctx.outcome(i);
        if AId::from_str(s) != Some(e) { return Err(format!("from_str gives {:?}", AId::from_str(s))); }
        if e.as_str() != s || e.name() != s || e.to_string() != s || format!("{:?}", e) != s { return Err(format!("as_str, name, Display or Debug of {:?} is wrong: {:?} {} {} {:?}", s, e.as_str(), e.name(), e, e)); }
        for (j, (t, f)) in AIDS.iter().enumerate() {
            ctx.step(2);
            if (e == *f) != (s == *t) { return Err(format!("equality of {:?} and {:?} is wrong", s, t)); }
            if e.cmp(f) != (i as usize).cmp(&j) || (e as usize).cmp(&(*f as usize)) != (i as usize).cmp(&j) { return Err(format!("the order of {:?} and {:?} is wrong", s, t)); }
        }
        let shown = match s { "href" => "xlink:href", "space" => "xml:space", s => s };
        let q: QName<AId> = QNameRef::from(e).into();
        if q.to_string() != shown || !q.has_id(e) || q != QName::Id(e) || q == QName::Name(s.into()) || !q.as_ref().has_id(e) { return Err(format!("the qualified name is wrong: {}", q)); }
        let n: QName<AId> = QNameRef::from(s).into();
        if n.to_string() != s || n.has_id(e) || n != QName::Name(s.into()) || n.as_ref().has_id(e) { return Err("the custom qualified name is wrong".into()); }
        Ok(())
    }, |i| AIDS[i as usize].0.to_string()));
    // neighbours
    let all: Vec<&'static str> = ELEMENTS.iter().chain(ATTRIBUTES.iter()).cloned().collect();
    let m1 = m.clone();
    let a1 = all.clone();
    v.push(Suite::new("neighbours", "all strings that differ from a name by one insertion, deletion, replacement or swap, by case, a prefix or a suffix", all.len() as u64, move |i, ctx| {
        for s in neighbours(a1[i as usize]) { name_check(&s, &m1.0, &m1.1, ctx)?; ctx.compared(); }
        Ok(())
    }, { let a = all.clone(); move |i| a[i as usize].to_string() }));
    // two pieces
    let m2 = m.clone();
    let a2 = all.clone();
    let n = all.len() as u64;
    v.push(Suite::new("joined", "every two names joined by nothing, a hyphen or a colon, and every beginning of one with every end of the other", n * n, move |i, ctx| {
        let (a, b) = (a2[(i % n) as usize], a2[(i / n) as usize]);
        for sep in ["", "-", ":"] { name_check(&format!("{}{}{}", a, sep, b), &m2.0, &m2.1, ctx)?; }
        for k in 1..a.len().min(4) { for l in 1..b.len().min(4) { name_check(&format!("{}{}", &a[..k], &b[b.len() - l..]), &m2.0, &m2.1, ctx)?; } }
        name_check(&format!("{}{}", &a[..a.len() / 2], &b[b.len() / 2..]), &m2.0, &m2.1, ctx)?;
        ctx.compared();
        Ok(())
    }, { let a = all.clone(); move |i| format!("{} {}", a[(i % n) as usize], a[(i / n) as usize]) }));
    // all short strings
    let low: Vec<char> = ('a'..='z').chain("-AX1".chars()).collect();
    let k = low.len() as u64;
    let len = tier.pick(5u32, 6);
    let m3 = m.clone();
    let l3 = low.clone();
    v.push(Suite::new("short", &format!("all strings of up to {} of {} characters", len, k), (0..=len - 2).map(|l| k.pow(l)).sum::<u64>(), move |i, ctx| {
        let head = nth_string(&l3, i);
        name_check(&head, &m3.0, &m3.1, ctx)?;
        for &a in &l3 { for &b in &l3 {
            let mut s = head.clone();
            s.push(a);
            name_check(&s, &m3.0, &m3.1, ctx)?;
            s.push(b);
            name_check(&s, &m3.0, &m3.1, ctx)?;
        } }
        ctx.compared();
        Ok(())
    }, { let l = low.clone(); move |i| format!("{}**", nth_string(&l, i)) }));
    let odd = strings(&['\0', ' ', '\u{e9}', 'g', '\u{10ffff}', 'x', '\u{feff}'], 5);
    let odd = Arc::new(odd);
    let (o1, m4) = (odd.clone(), m.clone());
    v.push(Suite::new("odd", "strings of unusual characters", odd.len() as u64, move |i, ctx| { ctx.compared(); name_check(&o1[i as usize], &m4.0, &m4.1, ctx) }, move |i| format!("{:?}", odd[i as usize])));
    // the parser and the writer use the same names
    v.push(Suite::new("parsed", "every name parsed and written", EIDS.len() as u64 + AIDS.len() as u64, |i, ctx| {
        ctx.step(2);
        ctx.compared();
        if (i as usize) < EIDS.len() {
            let (s, e) = EIDS[i as usize];
            if s == "style" { return Ok(()); }
            let d = Document::from_str(&format!("<svg xmlns='http://www.w3.org/2000/svg'><{}/></svg>", s)).map_err(|e| e.to_string())?;
            let n = d.svg_element().and_then(|n| n.first_child()).ok_or("the element is gone")?;
            if n.tag_id() != Some(e) || !n.has_tag_name(e) { return Err(format!("parsed as {:?}", n.tag_id())); }
            if !d.to_string().contains(&format!("<{}/>", s)) { return Err(format!("written as {}", d)); }
        } else {
            let (s, a) = AIDS[i as usize - EIDS.len()];
            if ["xmlns", "xlink", "id", "class", "style"].contains(&s) { return Ok(()); }
            let p = if s == "href" { "xlink:href" } else if s == "space" { "xml:space" } else { s };
            let d = Document::from_str(&format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><g {}='{}'/></svg>", p, crate::parse::valid_value(s).replace("url(#a) red", "none").replace("url(#a)", "none"))).map_err(|e| e.to_string())?;
            let n = d.svg_element().and_then(|n| n.first_child()).ok_or("the element is gone")?;
            if !n.has_attribute(a) || n.attributes().len() != 1 { return Err(format!("parsed as {:?}", n)); }
            if !d.to_string().contains(&format!("<g {}=\"", p)) { return Err(format!("written as {}", d)); }
        }
        Ok(())
    }, |i| if (i as usize) < EIDS.len() { EIDS[i as usize].0.to_string() } else { AIDS[i as usize - EIDS.len()].0.to_string() }));
    v
}

fn nth_string(chars: &[char], mut i: u64) -> String {
    let k = chars.len() as u64;
    let mut len = 0;
    while i >= k.pow(len) { i -= k.pow(len); len += 1; }
    let mut s = String::new();
    for _ in 0..len { s.push(chars[(i % k) as usize]); i /= k; }
    s
}

// ------------------------------------------------------------------------ C16

type Pred<T> = (&'static str, fn(&T) -> bool, &'static [&'static str]);

fn element_preds() -> Vec<Pred<Node>> {
    vec![
        ("is_referenced", |n| n.is_referenced(), &["altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask", "pattern", "radialGradient", "symbol"]),
        ("is_basic_shape", |n| n.is_basic_shape(), &["rect", "circle", "ellipse", "line", "polyline", "polygon"]),
        ("is_shape", |n| n.is_shape(), &["path", "rect", "circle", "ellipse", "line", "polyline", "polygon"]),
        ("is_container", |n| n.is_container(), &["a", "defs", "glyph", "g", "marker", "mask", "missing-glyph", "pattern", "svg", "switch", "symbol"]),
        ("is_text_content", |n| n.is_text_content(), &["altGlyph", "textPath", "text", "tref", "tspan"]),
        ("is_text_content_child", |n| n.is_text_content_child(), &["altGlyph", "textPath", "tref", "tspan"]),
        ("is_graphic", |n| n.is_graphic(), &["circle", "ellipse", "image", "line", "path", "polygon", "polyline", "rect", "text", "use"]),
        ("is_gradient", |n| n.is_gradient(), &["linearGradient", "radialGradient"]),
        ("is_paint_server", |n| n.is_paint_server(), &["linearGradient", "radialGradient", "pattern"]),
        ("is_filter_primitive", |n| n.is_filter_primitive(), &["feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix",
            "feDiffuseLighting", "feDisplacementMap", "feFlood", "feGaussianBlur", "feImage", "feMerge", "feMorphology", "feOffset", "feSpecularLighting", "feTile", "feTurbulence"]),
    ]
}

const NOT_INHERITED: [&str; 19] = [
    "alignment-baseline", "baseline-shift", "clip", "clip-path", "display", "dominant-baseline", "enable-background", "filter", "flood-color",
    "flood-opacity", "lighting-color", "mask", "opacity", "overflow", "stop-color", "stop-opacity", "text-decoration", "unicode-bidi", "visibility",
];

fn attribute_preds() -> Vec<(&'static str, fn(&AId) -> bool, fn(&Attribute) -> bool, Vec<&'static str>)> {
    let pres = crate::refparse::PRESENTATION.to_vec();
    let inh = pres.iter().cloned().filter(|p| !NOT_INHERITED.contains(p)).collect();
    vec![
        ("is_presentation", |a| a.is_presentation(), |a| a.is_presentation(), pres),
        ("is_inheritable", |a| a.is_inheritable(), |a| a.is_inheritable(), inh),
        ("is_animation_event", |a| a.is_animation_event(), |a| a.is_animation_event(), vec!["onbegin", "onend", "onload", "onrepeat"]),
        ("is_graphical_event", |a| a.is_graphical_event(), |a| a.is_graphical_event(), vec!["onactivate", "onclick", "onfocusin", "onfocusout", "onload", "onmousedown", "onmousemove", "onmouseout", "onmouseover", "onmouseup"]),
        ("is_document_event", |a| a.is_document_event(), |a| a.is_document_event(), vec!["onabort", "onerror", "onresize", "onscroll", "onunload", "onzoom"]),
        ("is_conditional_processing", |a| a.is_conditional_processing(), |a| a.is_conditional_processing(), vec!["requiredExtensions", "requiredFeatures", "systemLanguage"]),
        ("is_core", |a| a.is_core(), |a| a.is_core(), vec!["base", "lang", "space"]),
        ("is_fill", |a| a.is_fill(), |a| a.is_fill(), vec!["fill", "fill-opacity", "fill-rule"]),
        ("is_stroke", |a| a.is_stroke(), |a| a.is_stroke(), vec!["stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-opacity", "stroke-width"]),
    ]
}

/// Initial values of the property index of SVG 1.1.
fn default_of(name: &str) -> Option<V> {
    let s = |s: &str| Some(V::String(s.into()));
    let len = |n: f64| Some(V::Length(Length::new(n, LengthUnit::None)));
    match name {
        "alignment-baseline" | "clip" | "color-profile" | "color-rendering" | "cursor" | "dominant-baseline" | "glyph-orientation-vertical"
            | "image-rendering" | "kerning" | "shape-rendering" | "text-rendering" => s("auto"),
        "clip-path" | "filter" | "font-size-adjust" | "marker" | "marker-end" | "marker-mid" | "marker-start" | "mask" | "stroke"
            | "stroke-dasharray" | "text-decoration" => Some(V::None),
        "font-stretch" | "font-style" | "font-variant" | "font-weight" | "letter-spacing" | "unicode-bidi" | "word-spacing" => s("normal"),
        "fill" | "flood-color" | "stop-color" => Some(V::Color(Color::new(0, 0, 0))),
        "lighting-color" => Some(V::Color(Color::new(255, 255, 255))),
        "fill-opacity" | "flood-opacity" | "opacity" | "stop-opacity" | "stroke-opacity" => Some(V::Number(1.0)),
        "clip-rule" | "fill-rule" => s("nonzero"),
        "baseline-shift" => s("baseline"),
        "color-interpolation" => s("sRGB"),
        "color-interpolation-filters" => s("linearRGB"),
        "direction" => s("ltr"),
        "display" => s("inline"),
        "enable-background" => s("accumulate"),
        "font-size" => s("medium"),
        "glyph-orientation-horizontal" => s("0deg"),
        "stroke-dashoffset" => len(0.0),
        "stroke-linecap" => s("butt"),
        "stroke-linejoin" => s("miter"),
        "stroke-miterlimit" => len(4.0),
        "stroke-width" => len(1.0),
        "text-anchor" => s("start"),
        "visibility" => s("visible"),
        "writing-mode" => s("lr-tb"),
        _ => None,
    }
}

type VPred = (&'static str, fn(&V) -> bool, fn(&Attribute) -> bool, fn(&V) -> bool);

fn value_preds() -> Vec<VPred> {
    macro_rules! p { ($n:ident, $($pat:tt)+) => { (stringify!($n), (|v: &V| v.$n()) as fn(&V) -> bool, (|a: &Attribute| a.$n()) as fn(&Attribute) -> bool, (|v: &V| matches!(v, $($pat)+)) as fn(&V) -> bool) } }
    vec![
        p!(is_none, V::None), p!(is_inherit, V::Inherit), p!(is_current_color, V::CurrentColor), p!(is_aspect_ratio, V::AspectRatio(_)),
        p!(is_color, V::Color(_)), p!(is_length, V::Length(_)), p!(is_length_list, V::LengthList(_)), p!(is_link, V::Link(_)),
        p!(is_func_link, V::FuncLink(_)), p!(is_paint, V::Paint(..)), p!(is_number, V::Number(_)), p!(is_number_list, V::NumberList(_)),
        p!(is_path, V::Path(_)), p!(is_points, V::Points(_)), p!(is_string, V::String(_)), p!(is_transform, V::Transform(_)),
        p!(is_viewbox, V::ViewBox(_)), p!(is_link_container, V::Link(_) | V::FuncLink(_) | V::Paint(..)),
        ("is_angle", |v| v.is_angle(), |a| a.value.is_angle(), |v| matches!(v, V::Angle(_))),
    ]
}

pub fn c16(_tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(Suite::new("elements", "every element, created and parsed, in the tree and outside, with and without attributes and children, renamed from another: all predicates", EIDS.len() as u64, |i, ctx| {
        let (s, e) = EIDS[i as usize];
        let mut d = Document::new();
        let check = |n: &Node, what: &str, ctx: &mut Ctx| -> R {
            for (p, f, l) in element_preds() {
                ctx.step(1);
                if f(n) != l.contains(&s) { return Err(format!("{} of a {} <{}> is {}", p, what, s, f(n))); }
            }
            ctx.compared();
            Ok(())
        };
        let mut n = d.create_element(e);
        check(&n, "new", ctx)?;
        n.set_attribute((AId::Fill, "x"));
        n.set_id("q");
        let c = d.create_element(EId::Rect);
        n.append(c);
        let mut root = d.root();
        root.append(n.clone());
        check(&n, "used", ctx)?;
        let mut o = d.create_element("custom");
        for (_, other) in EIDS.iter() {
            o.set_tag_name(*other);
            o.set_tag_name(e);
            check(&o, "renamed", ctx)?;
        }
        d.remove_node(n.clone());
        check(&n, "removed", ctx)?;
        if s != "style" {
            let d2 = Document::from_str(&format!("<svg xmlns='http://www.w3.org/2000/svg'><{}/></svg>", s)).map_err(|e| e.to_string())?;
            check(&d2.svg_element().unwrap().first_child().ok_or("not parsed")?, "parsed", ctx)?;
        }
        ctx.outcome(i);
        Ok(())
    }, |i| EIDS[i as usize].0.to_string()));
    let k = EIDS.len() as u64;
    v.push(Suite::new("context", "every element as the parent, grandparent, child, sibling before, sibling after and link target of every element: all predicates of both", k * k, move |i, ctx| {
        let ((s, e), (t, f)) = (EIDS[(i % k) as usize], EIDS[(i / k) as usize]);
        for how in 0..7 {
            let mut d = Document::new();
            let (mut x, mut y) = (d.create_element(e), d.create_element(f));
            let mut top = d.root();
            match how {
                0 => y.append(x.clone()),
                1 => { let mut g = d.create_element(EId::G); y.append(g.clone()); g.append(x.clone()); }
                2 => { top.append(y.clone()); y.append(x.clone()); }
                3 => { top.append(y.clone()); top.append(x.clone()); }
                4 => { let mut p = d.create_element(EId::Defs); p.append(x.clone()); p.append(y.clone()); }
                5 => { y.set_id("y"); x.set_attribute((AId::Href, y.clone())); }
                _ => { x.set_id("x"); y.set_attribute((AId::Fill, x.clone())); x.insert_after(y.clone()); }
            }
            for (p, g, l) in element_preds() {
                ctx.step(2);
                if g(&x) != l.contains(&s) || g(&y) != l.contains(&t) { return Err(format!("{}: <{}> {}, <{}> {} (relation {})", p, s, g(&x), t, g(&y), how)); }
            }
        }
        ctx.compared();
        ctx.outcome(i);
        Ok(())
    }, move |i| format!("{} and {}", EIDS[(i % k) as usize].0, EIDS[(i / k) as usize].0)));
    v.push(Suite::new("other-nodes", "root, text, comment and custom elements named like each SVG element: all predicates are false", EIDS.len() as u64, |i, ctx| {
        let mut d = Document::new();
        let s = EIDS[i as usize].0;
        let nodes = vec![d.root(), d.create_element(s), d.create_node(NodeType::Text, s), d.create_node(NodeType::Comment, s), d.create_element("custom")];
        for n in &nodes { for (p, f, _) in element_preds() {
            ctx.step(1);
            if f(n) { return Err(format!("{} is true for {:?}", p, n)); }
        } }
        ctx.compared();
        Ok(())
    }, |i| EIDS[i as usize].0.to_string()));
    v.push(Suite::new("attributes", "every attribute: all predicates on the identifier, on attributes with every kind of value and on custom names", AIDS.len() as u64, |i, ctx| {
        let (s, a) = AIDS[i as usize];
        for (p, f, g, l) in attribute_preds() {
            let want = l.contains(&s);
            ctx.step(2);
            if f(&a) != want { return Err(format!("{} of {} is {}", p, s, f(&a))); }
            for val in crate::values::samples() {
                let at = Attribute::new(a, val.clone());
                ctx.step(2);
                if g(&at) != want { return Err(format!("{} of an attribute {} is {}", p, at, g(&at))); }
                if g(&Attribute::new(s, val)) { return Err(format!("{} is true for a custom attribute named {}", p, s)); }
            }
        }
        let at = Attribute::new(a, 1);
        let cu = Attribute::new(s, 1);
        if at.id() != Some(a) || !at.has_id(a) || !at.is_svg() || cu.id().is_some() || cu.has_id(a) || cu.is_svg() { return Err("id(), has_id() or is_svg() is wrong".into()); }
        for val in crate::values::samples() {
            let (at, cu) = (Attribute::new(a, val.clone()), Attribute::new(s, val));
            for (t, b) in AIDS.iter() {
                ctx.step(2);
                if at.has_id(*b) != (*b == a) || cu.has_id(*b) || at.id() != Some(a) || cu.id().is_some() || !at.is_svg() || cu.is_svg() { return Err(format!("has_id({}), id() or is_svg() of {} is wrong", t, at)); }
            }
        }
        ctx.compared();
        ctx.outcome(i);
        Ok(())
    }, |i| AIDS[i as usize].0.to_string()));
    v.push(Suite::new("defaults", "the default value of every attribute", AIDS.len() as u64, |i, ctx| {
        let (s, a) = AIDS[i as usize];
        ctx.step(2);
        ctx.compared();
        let want = default_of(s);
        let ok = |g: &Option<V>| match (g, &want) { (None, None) => true, (Some(x), Some(y)) => plain_eq(x, y), _ => false };
        let got = V::default_value(a);
        if !ok(&got) { return Err(format!("default_value is {:?}, expected {:?}", got, want)); }
        let at = Attribute::new_default(a);
        if let Some(ref at) = at { if at.id() != Some(a) { return Err(format!("new_default has the name {}", at.name)); } }
        if !ok(&at.map(|a| a.value)) { return Err("new_default has another value".into()); }
        Ok(())
    }, |i| AIDS[i as usize].0.to_string()));
    v.push(Suite::new("values", "every kind of value: type predicates, also as the value of every attribute and of custom ones with the same names", crate::values::samples().len() as u64 + 3, |i, ctx| {
        let mut d = Document::new();
        let n = d.create_element(EId::G);
        let s = crate::values::samples();
        let val = match (i as usize).checked_sub(s.len()) { None => s[i as usize].clone(), Some(0) => V::Link(n), Some(1) => V::FuncLink(n), _ => V::Paint(n, None) };
        for (p, f, g, w) in value_preds() {
            ctx.step(3);
            if f(&val) != w(&val) { return Err(format!("{} of {:?} is {}", p, val, f(&val))); }
            for (s, a) in AIDS.iter() {
                ctx.step(2);
                if g(&Attribute::new(*a, val.clone())) != w(&val) || g(&Attribute::new(*s, val.clone())) != w(&val) { return Err(format!("{} of an attribute {} with {:?} is wrong", p, s, val)); }
            }
        }
        ctx.compared();
        ctx.outcome(i);
        Ok(())
    }, |i| format!("value {}", i)));
    v.push(Suite::new("more-values", "the type predicates of many values of every kind", crate::values::dense().len() as u64, |i, ctx| {
        let val = crate::values::dense()[i as usize].clone();
        for (p, f, g, w) in value_preds() {
            ctx.step(2);
            if f(&val) != w(&val) || g(&Attribute::new(AIDS[i as usize % AIDS.len()].1, val.clone())) != w(&val) || g(&Attribute::new("a", val.clone())) != w(&val) { return Err(format!("{} of {:?} is wrong", p, val)); }
        }
        ctx.compared();
        ctx.outcome(i);
        Ok(())
    }, |i| format!("{:?}", crate::values::dense()[i as usize])));
    v.push(conversions());
    v
}

pub fn conversions() -> Suite {
    Suite::new("from", "conversions into values keep the value: every type; integers around all powers of two", 1, |_, ctx| {
        use std::str::FromStr;
        use svgdom::*;
        let mut list: Vec<(AttributeValue, AttributeValue)> = vec![
            (V::from(AspectRatio::from_str("xMinYMax slice").unwrap()), V::AspectRatio(AspectRatio::from_str("xMinYMax slice").unwrap())),
            (V::from(Color::new(1, 2, 3)), V::Color(Color::new(1, 2, 3))),
            (V::from(Length::new(1.5, LengthUnit::Mm)), V::Length(Length::new(1.5, LengthUnit::Mm))),
            (V::from(LengthList(vec![Length::new(1.5, LengthUnit::Mm)])), V::LengthList(LengthList(vec![Length::new(1.5, LengthUnit::Mm)]))),
            (V::from(Angle::new(1.5, AngleUnit::Gradians)), V::Angle(Angle::new(1.5, AngleUnit::Gradians))),
            (V::from(1.5), V::Number(1.5)),
            (V::from(-7), V::Number(-7.0)),
            (V::from(i32::MAX), V::Number(2147483647.0)),
            (V::from(i32::MIN), V::Number(-2147483648.0)),
            (V::from((-7, LengthUnit::Em)), V::Length(Length::new(-7.0, LengthUnit::Em))),
            (V::from((-7.5, LengthUnit::Percent)), V::Length(Length::new(-7.5, LengthUnit::Percent))),
            (V::from(NumberList(vec![1.5, 2.0])), V::NumberList(NumberList(vec![1.5, 2.0]))),
            (V::from(Path::from_str("M 1 2").unwrap()), V::Path(Path::from_str("M 1 2").unwrap())),
            (V::from(Points::from_str("1 2").unwrap()), V::Points(Points::from_str("1 2").unwrap())),
            (V::from("s"), V::String("s".into())),
            (V::from("s".to_string()), V::String("s".into())),
            (V::from(Transform::new(1.0, 2.0, 3.0, 4.0, 5.0, 6.0)), V::Transform(Transform::new(1.0, 2.0, 3.0, 4.0, 5.0, 6.0))),
            (V::from(ViewBox::new(1.0, 2.0, 3.0, 4.0)), V::ViewBox(ViewBox::new(1.0, 2.0, 3.0, 4.0))),
            (V::from(PaintFallback::None), V::None),
            (V::from(PaintFallback::CurrentColor), V::CurrentColor),
            (V::from(PaintFallback::Color(Color::new(1, 2, 3))), V::Color(Color::new(1, 2, 3))),
        ];
        for k in 0..31 { for d in -1..=1i32 { for s in [1i64, -1] {
            let n = (s * ((1i64 << k) + d as i64)) as i32;
            list.push((V::from(n), V::Number(n as f64)));
            list.push((V::from(n as f64), V::Number(n as f64)));
            list.push((V::from((n, LengthUnit::Mm)), V::Length(Length::new(n as f64, LengthUnit::Mm))));
            list.push((V::from((n as f64 + 0.1, LengthUnit::None)), V::Length(Length::new(n as f64 + 0.1, LengthUnit::None))));
        } } }
        for x in [0.1, -0.1, 1e-9, 1e9, 123456789.123, f64::MAX, f64::MIN_POSITIVE, 0.30000000000000004] {
            list.push((V::from(x), V::Number(x)));
            list.push((V::from((x, LengthUnit::Ex)), V::Length(Length::new(x, LengthUnit::Ex))));
        }
        for u in [LengthUnit::None, LengthUnit::Em, LengthUnit::Ex, LengthUnit::Px, LengthUnit::In, LengthUnit::Cm, LengthUnit::Mm, LengthUnit::Pt, LengthUnit::Pc, LengthUnit::Percent] {
            list.push((V::from((3, u)), V::Length(Length::new(3.0, u))));
            list.push((V::from((3.5, u)), V::Length(Length::new(3.5, u))));
        }
        for t in ["", " ", "none", "inherit", "currentColor", "#a", "url(#a)", "red", "1", "\u{e9}", "a b"] {
            list.push((V::from(t), V::String(t.into())));
            list.push((V::from(t.to_string()), V::String(t.into())));
        }
        ctx.compared();
        for (a, b) in &list { ctx.step(1); if !plain_eq(a, b) { return Err(format!("{:?} instead of {:?}", a, b)); } }
        Ok(())
    }, |_| "all conversions".into())
}
