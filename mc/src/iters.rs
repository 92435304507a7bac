//! C02: all ordered trees, all start nodes, all interleavings of front/back calls.

use svgdom::{AttributeId as AId, Document, ElementId as EId, FilterSvg, FilterSvgAttrs, FilterSvgAttrsMut, Node, NodeEdge, NodeType};

use crate::engine::*;
use crate::trees;

struct Built {
    _doc: Document,
    /// 0 is the top: the document root or a detached element.
    nodes: Vec<Node>,
    parent: Vec<Option<usize>>,
    kids: Vec<Vec<usize>>,
    svg: Vec<bool>,
}

/// `variant & 1`: below a detached element instead of the root; `variant >> 1`: kinds of nodes.
fn build(parents: &[Option<usize>], variant: usize) -> Built {
    let mut doc = Document::new();
    let top = if variant & 1 == 0 { doc.root() } else { doc.create_element(EId::G) };
    let mut b = Built { nodes: vec![top], parent: vec![None], kids: vec![vec![]], svg: vec![variant & 1 == 1], _doc: Document::new() };
    for (k, p) in parents.iter().enumerate() {
        let leaf = !parents.contains(&Some(k));
        let (n, svg) = match (k + (variant >> 1)) % 4 {
            0 => (doc.create_element("custom"), false),
            1 if leaf => (doc.create_node(NodeType::Text, "t"), false),
            2 if leaf => (doc.create_node(NodeType::Comment, "c"), false),
            3 => (doc.create_element(EId::Rect), true),
            _ => (doc.create_element(EId::G), true),
        };
        let p = p.map_or(0, |p| p + 1);
        b.nodes[p].clone().append(n.clone());
        b.nodes.push(n);
        b.parent.push(Some(p));
        b.kids.push(vec![]);
        b.svg.push(svg);
        b.kids[p].push(k + 1);
    }
    b._doc = doc;
    b
}

impl Built {
    fn ix(&self, n: &Node) -> i32 { self.nodes.iter().position(|x| x == n).map_or(-1, |p| p as i32) }
    fn edges(&self, s: usize, out: &mut Vec<i32>) {
        out.push(2 * s as i32);
        for &k in &self.kids[s] { self.edges(k, out); }
        out.push(2 * s as i32 + 1);
    }
    fn edge_ix(&self, e: &NodeEdge<svgdom::NodeData>) -> i32 {
        match *e { NodeEdge::Start(ref n) => 2 * self.ix(n), NodeEdge::End(ref n) => { let i = self.ix(n); if i < 0 { -1 } else { 2 * i + 1 } } }
    }
}

fn expect_seq<I: Iterator<Item = Node>>(b: &Built, what: &str, s: usize, mut it: I, want: &[usize]) -> R {
    for (k, w) in want.iter().enumerate() {
        match it.next() {
            Some(n) if b.ix(&n) == *w as i32 => {}
            Some(n) => return Err(format!("{} of node {}: item {} is node {}, expected {}", what, s, k, b.ix(&n), w)),
            None => return Err(format!("{} of node {}: ended after {} items of {}", what, s, k, want.len())),
        }
    }
    for _ in 0..3 {
        if let Some(n) = it.next() { return Err(format!("{} of node {}: node {} after the end", what, s, b.ix(&n))); }
    }
    Ok(())
}

/// Every way of taking the items of `want` from the two ends, then calls past the end.
fn interleave<I, T, F, M>(what: &str, s: usize, want: &[i32], make: F, id: M, ctx: &mut Ctx) -> R
    where I: Iterator<Item = T> + DoubleEndedIterator, F: Fn() -> I, M: Fn(&T) -> i32
{
    let len = want.len();
    for mask in 0..1u64 << len {
        let mut it = make();
        let (mut lo, mut hi) = (0, len);
        for k in 0..len {
            let (got, w) = if mask >> k & 1 == 0 {
                lo += 1;
                (it.next(), want[lo - 1])
            } else {
                hi -= 1;
                (it.next_back(), want[hi])
            };
            if got.as_ref().map(&id) != Some(w) {
                return Err(format!("{} of node {}, calls {:0w$b} (1: back, first call is the last digit): call {} gives {:?}, expected {:?}",
                    what, s, mask, k, got.as_ref().map(&id), w, w = len));
            }
        }
        // past the end, in all orders of three calls (two are enough per run: the mask varies)
        for k in 0..3 {
            let got = if (mask >> k & 1 == 0) ^ (k == 1) { it.next() } else { it.next_back() };
            if let Some(g) = got { return Err(format!("{} of node {}, calls {:0w$b}: item {} after the end", what, s, mask, id(&g), w = len)); }
        }
        ctx.step(len as u64 + 3);
    }
    ctx.compared();
    Ok(())
}

fn adaptors<I: Iterator<Item = svgdom::Node>>(b: &Built, what: &str, s: usize, make: impl Fn() -> I, want: &[usize], ctx: &mut Ctx) -> R {
    let len = want.len();
    ctx.step(2 * len as u64 + 5);
    let at = |x: Option<svgdom::Node>| x.map(|n| b.ix(&n) as usize);
    let bad = |m: &str| Err(format!("{} of node {}: {} disagrees with the axis", what, s, m));
    if make().count() != len { return bad("count()"); }
    if at(make().last()) != want.last().cloned() { return bad("last()"); }
    for k in (0..=len).filter(|k| len < 40 || k % 13 == 0 || k + 2 > len) {
        let mut it = make();
        if at(it.nth(k)) != want.get(k).cloned() { return bad("nth()"); }
        if at(it.next()) != want.get(k + 1).cloned() { return bad("next() after nth()"); }
        if make().skip(k).map(|n| b.ix(&n) as usize).ne(want[k..].iter().cloned()) { return bad("skip()"); }
    }
    let mut it = make();
    for k in 0..=len {
        let (lo, hi) = it.size_hint();
        if lo > len - k || hi.map_or(false, |h| h < len - k) { return bad("size_hint()"); }
        it.next();
    }
    if make().fold(vec![], |mut v, n| { v.push(b.ix(&n) as usize); v }) != want { return bad("fold()"); }
    Ok(())
}

fn check_tree(parents: &[Option<usize>], variant: usize, inter: bool, ctx: &mut Ctx) -> R {
    let b = build(parents, variant);
    for s in 0..b.nodes.len() {
        let n = &b.nodes[s];
        let mut anc = vec![s];
        while let Some(p) = b.parent[*anc.last().unwrap()] { anc.push(p); }
        expect_seq(&b, "ancestors", s, n.ancestors(), &anc)?;
        let (mut pre, mut post) = (vec![s], vec![s]);
        if let Some(p) = b.parent[s] {
            let pos = b.kids[p].iter().position(|&k| k == s).unwrap();
            pre.extend(b.kids[p][..pos].iter().rev());
            post.extend(&b.kids[p][pos + 1..]);
        }
        expect_seq(&b, "preceding_siblings", s, n.preceding_siblings(), &pre)?;
        expect_seq(&b, "following_siblings", s, n.following_siblings(), &post)?;
        expect_seq(&b, "children", s, n.children(), &b.kids[s])?;
        let mut rev = b.kids[s].clone();
        rev.reverse();
        expect_seq(&b, "children (reversed)", s, n.children().rev(), &rev)?;
        let mut edges = vec![];
        b.edges(s, &mut edges);
        let desc: Vec<usize> = edges.iter().filter(|e| *e % 2 == 0).map(|e| *e as usize / 2).collect();
        expect_seq(&b, "descendants", s, n.descendants(), &desc)?;
        let svgd: Vec<usize> = desc.iter().cloned().filter(|&d| b.svg[d]).collect();
        expect_seq(&b, "descendants().svg()", s, n.descendants().svg().map(|x| x.1), &svgd)?;
        for (id, x) in n.descendants().svg() { if !x.has_tag_name(id) { return Err("svg() yields a wrong id".into()); } }
        let svgk: Vec<usize> = b.kids[s].iter().cloned().filter(|&d| b.svg[d]).collect();
        expect_seq(&b, "children().svg()", s, n.children().svg().map(|x| x.1), &svgk)?;
        ctx.step(8);
        // what the iterators are used through: nth, last, count, rev, size_hint
        adaptors(&b, "ancestors", s, || n.ancestors(), &anc, ctx)?;
        adaptors(&b, "preceding_siblings", s, || n.preceding_siblings(), &pre, ctx)?;
        adaptors(&b, "following_siblings", s, || n.following_siblings(), &post, ctx)?;
        adaptors(&b, "children", s, || n.children(), &b.kids[s], ctx)?;
        adaptors(&b, "children (reversed)", s, || n.children().rev(), &rev, ctx)?;
        adaptors(&b, "descendants", s, || n.descendants(), &desc, ctx)?;
        {
            let len = edges.len();
            let (lo, hi) = n.traverse().size_hint();
            let back = |k: usize| n.traverse().nth_back(k).as_ref().map(|x| b.edge_ix(x));
            if n.traverse().count() != len || lo > len || hi.map_or(false, |h| h < len)
                || (0..=len).any(|k| n.traverse().nth(k).as_ref().map(|x| b.edge_ix(x)) != edges.get(k).cloned())
                || (0..=len).any(|k| back(k) != if k < len { edges.get(len - 1 - k).cloned() } else { None })
                || n.traverse().last().as_ref().map(|x| b.edge_ix(x)) != edges.last().cloned() {
                return Err(format!("traverse of node {}: nth, last, count or size_hint disagree with next", s));
            }
        }
        let kids: Vec<i32> = b.kids[s].iter().map(|&k| k as i32).collect();
        if inter {
            interleave("children", s, &kids, || n.children(), |x| b.ix(x), ctx)?;
            interleave("traverse", s, &edges, || n.traverse(), |x| b.edge_ix(x), ctx)?;
        } else {
            for period in 0..7 {
                double(&b, "children", &kids, n.children(), period, |x| b.ix(x))?;
                double(&b, "traverse", &edges, n.traverse(), period, |x| b.edge_ix(x))?;
                ctx.step((kids.len() + edges.len()) as u64);
                ctx.compared();
            }
        }
        ctx.outcome(hash_str(&format!("{:?}{}", b.kids, s)));
    }
    Ok(())
}

/// Alternates `period` calls from the front with one from the back (0: only back, 6: split in halves).
fn double<I, T, M>(_b: &Built, what: &str, want: &[i32], mut it: I, period: usize, id: M) -> R
    where I: Iterator<Item = T> + DoubleEndedIterator, M: Fn(&T) -> i32
{
    let (mut lo, mut hi) = (0, want.len());
    for k in 0..want.len() {
        let front = match period { 0 => false, 6 => k < want.len() / 2, p => k % (p + 1) != p };
        let (got, w) = if front { lo += 1; (it.next(), want[lo - 1]) } else { hi -= 1; (it.next_back(), want[hi]) };
        if got.as_ref().map(&id) != Some(w) { return Err(format!("{} ({} items), pattern {}: call {} gives {:?}, expected {}", what, want.len(), period, k, got.as_ref().map(&id), w)); }
    }
    if it.next().is_some() || it.next_back().is_some() || it.next().is_some() { return Err(format!("{} ({} items), pattern {}: item after the end", what, want.len(), period)); }
    Ok(())
}

pub fn c02(tier: Tier) -> Vec<Suite> {
    let n = tier.pick(7, 8);
    let shapes = trees::count_upto(n) as u64;
    let mut v = vec![];
    v.push(Suite::new("trees", &format!("all ordered trees of up to {} nodes (below the root or a detached element, mixed node kinds), all start nodes, all front/back interleavings", n),
        shapes * 2, move |i, ctx| check_tree(&trees::nth((i / 2) as usize), (i % 2) as usize + 2 * (i as usize % 4), true, ctx),
        |i| format!("tree {:?}, variant {}", trees::nth((i / 2) as usize), i % 2)));
    let m = tier.pick(7, 9);
    v.push(Suite::new("kinds", "the same trees with every rotation of node kinds, plain axes",
        trees::count_upto(m) as u64 * 8, |i, ctx| check_tree(&trees::nth((i / 8) as usize), (i % 8) as usize, false, ctx),
        |i| format!("tree {:?}, variant {}", trees::nth((i / 8) as usize), i % 8)));
    let list = sizes(tier.pick(70, 300), tier.pick(130, 520));
    let l2 = list.clone();
    v.push(Suite::new("scaled", "chains, stars, combs and caterpillars of n nodes, regular front/back patterns", list.len() as u64 * 4,
        move |i, ctx| check_tree(&family((i % 4) as usize, list[(i / 4) as usize]), (i / 4 % 8) as usize, false, ctx),
        move |i| format!("family {} of {} nodes", i % 4, l2[(i / 4) as usize])));
    let len = tier.pick(7u64, 8);
    v.push(Suite::new("orphans", "rows of up to 7 siblings without a parent, made by insert_before and insert_after in every order, with and without children, of every kind; the row then put below a parent by moving its first node", len * 64 * 16,
        move |i, ctx| orphans((i % len + 1) as usize, i / len % 64, i / len / 64, ctx), move |i| format!("{} siblings, order {:b}, kinds {}", i % len + 1, i / len % 64, i / len / 64)));
    let list = sizes(1, 5000);
    let l2 = list.clone();
    v.push(Suite::new("long", "chains and stars of up to 5000 nodes", list.len() as u64 * 2,
        move |i, ctx| long((i % 2) as usize, list[(i / 2) as usize], ctx),
        move |i| format!("family {} of {} nodes", i % 2, l2[(i / 2) as usize])));
    let tags = crate::names::ELEMENTS.len() as u64 + 3;
    v.push(Suite::new("tags", "svg() over nodes with every element name (SVG, and the same as custom), every other kind of node, in a document, without a parent, removed, and with the document dropped", tags * 4,
        |i, ctx| svg_tags((i / 4) as usize, i % 4, ctx), |i| format!("name {}, state {}", i / 4, i % 4)));
    let alen = tier.pick(6, 8);
    v.push(Suite::new("attributes", &format!("svg() over every attribute list of up to {} attributes with SVG and custom names, plain values and links", alen),
        (1..=alen).map(|k| 1u64 << (2 * k)).sum(),
        |i, ctx| svg_attrs(i, ctx), |i| format!("list {}", i)));
    v
}

fn family(f: usize, n: usize) -> Vec<Option<usize>> {
    (0..n).map(|k| match f {
        0 => if k == 0 { None } else { Some(k - 1) },
        1 => if k == 0 { None } else { Some(0) },
        2 => if k == 0 { None } else if k % 2 == 1 { Some(k - 1) } else { Some(k.saturating_sub(2)) },
        // a complete binary tree in preorder has no simple formula; a caterpillar with legs of three does
        _ => if k % 4 == 0 { if k == 0 { None } else { Some(k - 4) } } else { Some(k / 4 * 4) },
    }).collect()
}

fn long(f: usize, n: usize, ctx: &mut Ctx) -> R {
    let b = build(&family(f, n), 0);
    let (first, last) = (&b.nodes[0], b.nodes.last().unwrap());
    let len = b.nodes.len();
    let ok = |what: &str, got: usize, want: usize| if got == want { Ok(()) } else { Err(format!("{} yields {} items, expected {}", what, got, want)) };
    ctx.step(10);
    ctx.compared();
    ctx.outcome((2 * n + f) as u64);
    ok("descendants", first.descendants().count(), len)?;
    ok("traverse", first.traverse().count(), 2 * len)?;
    ok("traverse().rev()", first.traverse().rev().count(), 2 * len)?;
    let depth = { let (mut d, mut x) = (1, len - 1); while let Some(p) = b.parent[x] { x = p; d += 1; } d };
    ok("ancestors", last.ancestors().count(), depth)?;
    let row = b.parent[len - 1].map_or(1, |p| b.kids[p].len());
    ok("preceding_siblings", last.preceding_siblings().count(), row)?;
    if let Some(p) = b.parent[len - 1] {
        let k = &b.nodes[b.kids[p][0]];
        ok("following_siblings", k.following_siblings().count(), row)?;
        ok("children", b.nodes[p].children().count(), row)?;
        ok("children().rev()", b.nodes[p].children().rev().count(), row)?;
    }
    if first.descendants().zip(&b.nodes).any(|(x, y)| x != *y) { return Err("descendants() in a wrong order".into()); }
    Ok(())
}

/// `state`: 0 in the document, 1 never in a tree of the document, 2 removed, 3 the document was dropped.
fn svg_tags(k: usize, state: u64, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let name = crate::names::ELEMENTS.get(k).cloned();
    let id = name.and_then(EId::from_str);
    let mut list = vec![match (id, k - k.min(crate::names::ELEMENTS.len())) {
        (Some(id), _) => doc.create_element(id),
        (None, 0) => doc.create_element("custom"),
        (None, 1) => doc.create_node(NodeType::Text, "t"),
        _ => doc.create_node(NodeType::Comment, "c"),
    }];
    if let Some(name) = name { list.push(doc.create_element(name)); }
    let first = list[0].clone();
    ctx.step(4);
    ctx.compared();
    ctx.outcome(k as u64 * 4 + state);
    let mut p = doc.create_element(EId::G);
    for x in &list { p.append(x.clone()); let c = doc.create_element(EId::Rect); if x.is_element() { x.clone().append(c); } }
    match state { 0 => doc.root().append(p.clone()), 2 => { doc.root().append(p.clone()); doc.remove_node(p.clone()); } 3 => { doc.root().append(p.clone()); drop(doc); } _ => {} }
    // what the axes yield, filtered by hand
    for (what, from) in [("parent", &p), ("node", &first)] {
        let all: Vec<Node> = from.descendants().collect();
        let want: Vec<(EId, Node)> = all.iter().filter_map(|n| if *n == first { id.map(|x| (x, n.clone())) } else if list.contains(n) { None } else if *n == p { Some((EId::G, n.clone())) } else { Some((EId::Rect, n.clone())) }).collect();
        let got: Vec<(EId, Node)> = from.descendants().svg().collect();
        if got != want { return Err(format!("descendants().svg() of the {} yields {:?}, expected {:?}", what, got.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>())); }
        let own = if *from == first { id } else { Some(EId::G) };
        if from.following_siblings().svg().next().map(|x| x.0) != own { return Err(format!("following_siblings().svg() of the {}", what)); }
        if from.ancestors().svg().next().map(|x| x.0) != own.or(if from.has_parent() { Some(EId::G) } else { None }) { return Err(format!("ancestors().svg() of the {}", what)); }
    }
    // trees are taken apart by a removal and by the drop of the document
    let n = first.ancestors().count();
    if n != match state { 0 => 3, 1 => 2, _ => 1 } { return Err(format!("{} ancestors", n)); }
    Ok(())
}

/// Lists of four kinds of attributes: SVG or custom name, plain value or link.
fn svg_attrs(i: u64, ctx: &mut Ctx) -> R {
    let (mut i, mut len) = (i, 1);
    while i >= 1 << (2 * len) { i -= 1 << (2 * len); len += 1; }
    let ids = [AId::X, AId::Fill, AId::Href, AId::Y, AId::Stroke, AId::Mask, AId::D, AId::Rx, AId::Cx];
    let mut doc = Document::new();
    let mut t = doc.create_element(EId::Rect);
    t.set_id("t");
    let mut e = doc.create_element(EId::Rect);
    let mut want = vec![];
    for k in 0..len {
        let kind = i >> (2 * k) & 3;
        match kind {
            0 => e.set_attribute((ids[k].as_str(), k as i32)),
            1 => e.set_attribute((ids[k], k as i32)),
            2 => e.set_attribute((ids[k], t.clone())),
            _ => e.set_attribute((ids[k].as_str(), t.clone())),
        }
        if kind == 1 || kind == 2 { want.push(ids[k]); }
    }
    let got: Vec<AId> = e.attributes().iter().svg().map(|(id, a)| { assert!(a.has_id(id) && a.is_svg() && a.id() == Some(id)); id }).collect();
    let got2: Vec<AId> = e.attributes_mut().iter_mut().svg().map(|(id, a)| { assert!(a.has_id(id)); id }).collect();
    ctx.step(2);
    ctx.compared();
    ctx.outcome(i * 16 + len as u64);
    if got != want || got2 != want { return Err(format!("svg() yields {:?} / {:?}, expected {:?}", got, got2, want)); }
    if e.attributes().iter().filter(|a| !a.is_svg() && a.id().is_none()).count() != len - want.len() { return Err("custom attributes lost".into()); }
    Ok(())
}

/// Siblings that have no parent.
fn orphans(n: usize, order: u64, kinds: u64, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut row: Vec<Node> = vec![];
    for k in 0..n {
        let mut x = match (kinds as usize + k) % 4 { 0 => doc.create_element(EId::G), 1 => doc.create_element("c"), 2 => doc.create_node(NodeType::Text, "t"), _ => doc.create_node(NodeType::Comment, "c") };
        if kinds >> 2 & 1 == 1 && k % 2 == 0 { let c = doc.create_element(EId::Rect); x.append(c); }
        if kinds >> 3 & 1 == 1 && k % 3 == 0 { let c = doc.create_node(NodeType::Text, "u"); x.append(c); }
        // before the first, after the last, or in the middle
        if k > 0 {
            let at = if order >> (k % 6) & 1 == 1 { if k % 2 == 0 { 0 } else { k / 2 } } else { k };
            if at < k { row[at].clone().insert_before(x.clone()); } else { row[k - 1].clone().insert_after(x.clone()); }
            row.insert(at, x);
        } else { row.push(x); }
    }
    let check = |row: &[Node], parent: Option<&Node>, ctx: &mut Ctx| -> R {
        ctx.step(6 * row.len() as u64);
        ctx.compared();
        for (i, x) in row.iter().enumerate() {
            let f: Vec<Node> = x.following_siblings().collect();
            let p: Vec<Node> = x.preceding_siblings().collect();
            let mut back: Vec<Node> = row[..=i].to_vec();
            back.reverse();
            if f != row[i..] { return Err(format!("following_siblings() of sibling {} of {} yields {} nodes", i, row.len(), f.len())); }
            if p != back { return Err(format!("preceding_siblings() of sibling {} of {} yields {} nodes", i, row.len(), p.len())); }
            let a: Vec<Node> = x.ancestors().collect();
            if a[0] != *x || a.len() != if parent.is_some() { 2 } else { 1 } || a.get(1) != parent { return Err(format!("ancestors() of sibling {} yields {} nodes", i, a.len())); }
            let kids: Vec<Node> = x.children().collect();
            let mut d: Vec<Node> = vec![x.clone()];
            d.extend(kids.iter().cloned());
            if x.descendants().collect::<Vec<_>>() != d { return Err(format!("descendants() of sibling {} leaves its subtree or loses nodes", i)); }
            let (t, mut b): (Vec<_>, Vec<_>) = (x.traverse().collect(), x.traverse().rev().collect());
            b.reverse();
            if t.len() != 2 * d.len() || t != b || t[0] != NodeEdge::Start(x.clone()) || t[t.len() - 1] != NodeEdge::End(x.clone()) { return Err(format!("traverse() of sibling {} of {}", i, row.len())); }
            let mut kb: Vec<Node> = x.children().rev().collect();
            kb.reverse();
            if kb != kids { return Err(format!("children().rev() of sibling {}", i)); }
        }
        Ok(())
    };
    check(&row, None, ctx)?;
    let mut p = doc.create_element(EId::Svg);
    let first = row.remove(0);
    p.append(first.clone());
    check(&row, None, ctx)?;
    check(&[first], Some(&p), ctx)?;
    ctx.outcome(order * 1000 + kinds * 10 + n as u64);
    Ok(())
}
