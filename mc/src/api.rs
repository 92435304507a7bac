//! C01, C03, C04, C05, C06, C07: histories of API calls.

use std::sync::Arc;
use svgdom::{AttributeId as AId, AttributeValue, Document, ElementId as EId, Node, NodeType};

use crate::alloc::net_bytes;
use crate::engine::{hash_str, sizes, small_stack, Ctx, Suite, Tier, R};
use crate::model::*;

/// What is done after each explored transition, besides the full comparison.
type Post = Arc<dyn Fn(&[Op], MDoc, Real, &mut Ctx) -> R + Send + Sync>;

fn nothing() -> Post { Arc::new(|_, _, _, _| Ok(())) }

/// Every transition (state, operation) of a space, executed on the real code.
pub fn space_suite(name: &str, about: &str, space: Space, post: Post) -> Suite {
    let sp = Arc::new(space);
    let about = format!("{}; alphabet {} operations, {} states: all histories of up to {} operations{}, each followed by every enabled operation",
        about, sp.alphabet.len(), sp.states(), sp.depth_reached,
        if sp.closed { " (closed: all reachable states)" } else if sp.capped { " and, in order, a part of the next depth" } else { "" });
    let (a, b) = (sp.clone(), sp.clone());
    let states = sp.states() as u64;
    let mut s = Suite::new(name, &about, states, move |i, ctx| {
        let hist = a.history(i as usize);
        let m = a.model_at(i as usize);
        ctx.outcome(hash_str(&m.key()));
        let mut ops: Vec<Op> = a.init.iter().cloned().chain(hist.iter().cloned()).collect();
        if i == 0 { replay(&ops, true, ctx)?; }
        for op in &a.alphabet {
            if !op.enabled(&m) { continue; }
            ops.push(*op);
            let r = crate::engine::guarded(|| -> R {
                let (m2, r2) = replay(&ops, false, ctx)?;
                post(&ops, m2, r2, ctx)
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => return Err(format!("history: {} => {}", show_ops(&ops), e)),
            }
            ops.pop();
        }
        Ok(())
    }, move |i| format!("state reached by: {} (then every enabled operation)",
        show_ops(&b.init.iter().cloned().chain(b.history(i as usize)).collect::<Vec<_>>())));
    s.states = states;
    s
}

fn tree_alphabet(parents: &[u8], nodes: &[u8], remove: bool) -> Vec<Op> {
    let mut v = vec![];
    for &p in parents { for &c in nodes { if p != c { v.push(Op::Append(p, c)); v.push(Op::Prepend(p, c)); } } }
    for &a in nodes { for &c in nodes { if a != c { v.push(Op::Before(a, c)); v.push(Op::After(a, c)); } } }
    for &n in nodes { v.push(Op::Detach(n)); }
    if remove { for &n in nodes { v.push(Op::Remove(n)); } }
    v
}

// ------------------------------------------------------------------------ C01

pub fn c01(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    // 1. all states of four nodes of all kinds, all edits from each of them
    let init = vec![Op::CreateElem(0), Op::CreateElem(3), Op::CreateText(1), Op::CreateComment(2)];
    let sp = explore(init, tree_alphabet(&[0, 1, 2, 3, 4], &[1, 2, 3, 4], true), 99, usize::MAX, true, &|_| true);
    v.push(deep_chain(4));
    v.push(rows(4));
    v.push(space_suite("edits-4", "tree edits over root, 2 elements, a text and a comment", sp, nothing()));
    // 2. more elements
    let init = vec![Op::CreateElem(0), Op::CreateElem(1), Op::CreateElem(2), Op::CreateElem(4)];
    let sp = explore(init, tree_alphabet(&[0, 1, 2, 3, 4], &[1, 2, 3, 4], true), 99, usize::MAX, true, &|_| true);
    v.push(space_suite("edits-4e", "tree edits over root and 4 elements", sp, nothing()));
    let n5 = vec![Op::CreateElem(0), Op::CreateElem(1), Op::CreateElem(2), Op::CreateElem(4), Op::CreateText(1)];
    let sp = explore(n5.clone(), tree_alphabet(&[0, 1, 2, 3, 4], &[1, 2, 3, 4, 5], false), tier.pick(5, 99), usize::MAX, true, &|_| true);
    v.push(space_suite("edits-5", "tree edits over root, 4 elements and a text", sp, nothing()));
    // 3. every history (no merging of states: finds hidden state)
    let init = vec![Op::CreateElem(0), Op::CreateElem(1), Op::CreateText(1)];
    let sp = explore(init, tree_alphabet(&[0, 1, 2], &[1, 2, 3], true), tier.pick(4, 5), 4_000_000, false, &|_| true);
    v.push(space_suite("histories-3", "all edit histories over root, 2 elements and a text", sp, nothing()));
    // 4. wide and deep trees
    let list = Arc::new(sizes(tier.pick(40, 130), tier.pick(1100, 5000)));
    let (a, b) = (list.clone(), list.clone());
    v.push(Suite::new("wide", "parent with n children, a child moved from each position (n > 130: from both ends, the middle and their neighbours) to each position by each edit",
        list.len() as u64, move |i, ctx| wide(a[i as usize], ctx), move |i| format!("{} children", b[i as usize])));
    let (a, b) = (list.clone(), list.clone());
    v.push(Suite::new("deep", "chain of n elements; subtree moved from each depth (n > 130: from the ends and the middle) to root and back",
        list.len() as u64, move |i, ctx| deep(a[i as usize], ctx), move |i| format!("{} nested elements", b[i as usize])));
    v.push(all_ops(tier, |o| matches!(o, Op::Append(..) | Op::Prepend(..) | Op::Before(..) | Op::After(..) | Op::Detach(..))));
    v
}

/// Every kind of operation on a document with every kind of node and links in all directions.
/// `first`: the operations that the property is about come first, so that a limit of states cuts off others.
pub fn all_ops(tier: Tier, first: fn(&Op) -> bool) -> Suite {
    let mut init = small_tree();
    // 5: text in 2, 6: comment in 1, 7: an element outside of the tree with a child 8
    init.extend([Op::CreateText(1), Op::CreateComment(2), Op::CreateElem(4), Op::CreateElem(3),
        Op::Append(2, 5), Op::Append(1, 6), Op::Append(7, 8)]);
    for &(n, i) in &[(1u8, 4u8), (2, 1), (3, 2), (4, 3), (7, 8)] { init.push(Op::SetId(n, i)); }
    init.extend([Op::Link(3, 0, 4, 6), Op::Link(4, 1, 2, 3), Op::Link(8, 3, 3, 5), Op::Link(3, 2, 7, 6), Op::Set(2, 4, 2), Op::Set(2, 3, 1)]);
    let mut al = tree_alphabet(&[0, 1, 2, 3, 4, 7, 5], &[2, 3, 4, 5, 7, 8], true);
    al.push(Op::Remove(1));
    for n in [2u8, 3, 4, 7, 8] {
        for t in [2u8, 3, 4, 7] { for a in [0u8, 1, 3] { al.push(Op::Link(n, a, t, 3)); al.push(Op::Link(n, a, t, 6)); } al.push(Op::LinkIfNone(n, 1, t)); }
        for a in [0u8, 1, 3] { al.push(Op::Set(n, a, 1)); al.push(Op::SetIfNone(n, a, 2)); al.push(Op::Unset(n, a)); }
        al.push(Op::SetId(n, 0)); al.push(Op::SetId(n, 1)); al.push(Op::SetId(n, 5)); al.push(Op::SetTag(n, 3)); al.push(Op::SetTag(n, 0));
    }
    for n in 1..=8u8 { al.push(Op::Copy(n)); al.push(Op::CopyDeep(n)); }
    for n in [5u8, 6] { al.push(Op::SetText(n, 0)); al.push(Op::SetText(n, 3)); }
    for r in [0u8, 1, 2, 7] { for mask in [0b100u16, 0b1000, 0b11100, 0b1100000, 0b100000000, 0b10100] { al.push(Op::Drain(r, mask)); } }
    al.extend([Op::CreateElem(0), Op::CreateText(1), Op::Write]);
    al.sort_by_key(|o| !first(o));
    let sp = explore(init, al, tier.pick(2, 3), tier.pick(9_000, 100_000), true, &|m| m.n.len() <= 14);
    space_suite("all-ops", "all operations of the API on nodes of all kinds with links in all directions, tree and attributes compared", sp, nothing())
}

fn check_children(parent: &Node, want: &[Node]) -> R {
    let got: Vec<Node> = parent.children().collect();
    if got.len() != want.len() || !got.iter().zip(want).all(|(a, b)| a == b) {
        return Err(format!("{} children, expected {} in the requested order", got.len(), want.len()));
    }
    for (i, n) in want.iter().enumerate() {
        let prev = if i > 0 { Some(want[i - 1].clone()) } else { None };
        if n.previous_sibling() != prev || n.next_sibling() != want.get(i + 1).cloned()
            || n.parent().as_ref() != Some(parent) {
            return Err(format!("links of child {} of {} are wrong", i, want.len()));
        }
    }
    if parent.first_child() != want.first().cloned() || parent.last_child() != want.last().cloned() {
        return Err("first/last child wrong".into());
    }
    Ok(())
}

fn wide(n: usize, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    doc.root().append(svg.clone());
    let mut kids = vec![];
    for i in 0..n {
        let k = match i % 3 { 0 => doc.create_element(EId::G), 1 => doc.create_node(NodeType::Text, "t"), _ => doc.create_node(NodeType::Comment, "c") };
        svg.append(k.clone());
        kids.push(k);
        ctx.step(1);
    }
    check_children(&svg, &kids)?;
    let places: Vec<usize> = if n <= 130 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
    for &i in &places {
        for &j in &places {
            for mode in 0..4 {
                let node = kids[i].clone();
                match mode {
                    0 => if j == 0 { svg.append(node.clone()); kids.remove(i); kids.push(node); } else { continue },
                    1 => if j == 0 { svg.prepend(node.clone()); kids.remove(i); kids.insert(0, node); } else { continue },
                    _ => {
                        if i == j { continue; }
                        let mut a = kids[j].clone();
                        if mode == 2 { a.insert_before(node.clone()); } else { a.insert_after(node.clone()); }
                        kids.remove(i);
                        let p = kids.iter().position(|x| *x == a).unwrap();
                        kids.insert(if mode == 2 { p } else { p + 1 }, node);
                    }
                }
                ctx.step(1);
                if n <= 16 || n > 130 || j % 8 == 0 { ctx.compared(); check_children(&svg, &kids).map_err(|e| format!("moved {} of {}, mode {}, anchor {}: {}", i, n, mode, j, e))?; }
            }
        }
        check_children(&svg, &kids)?;
    }
    ctx.outcome(n as u64);
    // detach from every position
    while !kids.is_empty() && (n <= 130 || n - kids.len() < 9) {
        let p = kids.len() / 2;
        let mut k = kids.remove(p);
        k.detach();
        ctx.step(1);
        if k.parent().is_some() || k.previous_sibling().is_some() || k.next_sibling().is_some() || k.root() != k {
            return Err("detached node has a neighbour".into());
        }
        check_children(&svg, &kids)?;
    }
    Ok(())
}

fn deep(n: usize, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut chain: Vec<Node> = vec![];
    // built from the inside out, so that subtrees are attached, not single nodes
    for i in 0..n {
        let e = doc.create_element(if i % 2 == 0 { EId::G } else { EId::Tspan });
        if let Some(inner) = chain.last() { let c: &Node = inner; e.clone().append(c.clone()); }
        chain.push(e);
    }
    chain.reverse();
    doc.root().append(chain[0].clone());
    let places: Vec<usize> = if n <= 130 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
    for k in places {
        ctx.step(2);
        for (d, c) in chain.iter().enumerate() {
            if c.root() != doc.root() { return Err(format!("root() of node at depth {} is wrong", d)); }
            if c.ancestors().count() != d + 2 { return Err(format!("ancestors() of node at depth {} is wrong", d)); }
        }
        let mut c = chain[k].clone();
        c.detach();
        for (d, x) in chain.iter().enumerate() {
            let want = if d >= k { c.clone() } else { doc.root() };
            if x.root() != want { return Err(format!("root() of node at depth {} is wrong after detaching depth {}", d, k)); }
        }
        if k == 0 { doc.root().append(c) } else { chain[k - 1].append(c) }
        ctx.compared();
    }
    ctx.outcome(n as u64);
    Ok(())
}

// ------------------------------------------------------------------------ C03

fn link_alphabet(users: &[u8], targets: &[u8], names: &[u8], vals: &[u8], flavours: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    for &n in users {
        for &a in names {
            for &t in targets { for &f in flavours { v.push(Op::Link(n, a, t, f)); } v.push(Op::LinkIfNone(n, a, t)); }
            for &x in vals { v.push(Op::Set(n, a, x)); v.push(Op::SetIfNone(n, a, x)); }
            v.push(Op::Unset(n, a));
        }
    }
    v
}

/// root > svg(1) > [g(2) > rect(3), custom(4)]
fn small_tree() -> Vec<Op> {
    vec![Op::CreateElem(2), Op::CreateElem(0), Op::CreateElem(1), Op::CreateElem(3),
         Op::Append(0, 1), Op::Append(1, 2), Op::Append(2, 3), Op::Append(1, 4)]
}

pub fn c03(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let with_ids = |ids: &[(u8, u8)]| -> Vec<Op> {
        let mut i = small_tree();
        for &(n, id) in ids { i.push(Op::SetId(n, id)); }
        i
    };
    let removes: Vec<Op> = (2..=4).map(Op::Remove).collect();
    // all link graphs over three nodes with two attributes (one SVG, one custom), plus removals
    let mut al = link_alphabet(&[2, 3, 4], &[2, 3, 4], &[0, 3], &[1], &[6]);
    al.extend(removes.clone());
    let sp = explore(with_ids(&[(2, 1), (3, 2), (4, 3)]), al, tier.pick(6, 99), tier.pick(40_000, 400_000), true, &|_| true);
    v.push(space_suite("graphs", "links between 3 elements through href and a custom attribute, values, removal", sp, nothing()));
    // paints with fallbacks, all ways of spelling the same link
    let mut al = link_alphabet(&[2, 4], &[2, 3, 4], &[0, 1, 2, 6, 8], &[0], &[0, 1, 2, 3, 4, 5, 6]);
    al.push(Op::Remove(3));
    let sp = explore(with_ids(&[(2, 1), (3, 2), (4, 3)]), al, 3, tier.pick(8_000, 200_000), true, &|_| true);
    v.push(space_suite("flavours", "each link flavour, fallback and shorthand in each kind of attribute", sp, nothing()));
    // ids change under existing links; equal ids; empty ids
    let mut al = link_alphabet(&[2, 3], &[2, 3, 4], &[0, 1], &[], &[6]);
    for n in 2..=4 { for i in 0..=2 { al.push(Op::SetId(n, i)); } }
    al.push(Op::Remove(2));
    al.push(Op::Detach(3));
    let sp = explore(small_tree(), al, tier.pick(8, 99), tier.pick(40_000, 400_000), true, &|_| true);
    v.push(space_suite("ids", "links while ids are unset, equal, changed and cleared", sp, nothing()));
    // every history
    let mut al = link_alphabet(&[2, 3], &[2, 3], &[0, 2], &[0], &[6]);
    al.push(Op::Remove(3));
    al.push(Op::SetId(3, 1));
    let sp = explore(with_ids(&[(2, 1), (3, 2)]), al, tier.pick(3, 4), usize::MAX, false, &|_| true);
    v.push(space_suite("histories", "all histories of links between two elements", sp, nothing()));
    v.push(all_ops(tier, |o| matches!(o, Op::Link(..) | Op::LinkIfNone(..) | Op::Unset(..) | Op::SetId(..))));
    let ids = crate::text::strings(&['a', 'A', ' ', '\u{e9}', '#', '\n'], 2);
    let k = ids.len() as u64;
    let (ids, ids2) = (Arc::new(ids.clone()), ids);
    v.push(overwrite());
    v.push(conversion_suite());
    v.push(many_values_suite());
    v.push(Suite::new("id-pairs", "a link between two elements with every two ids of up to 2 characters of 6", k * k,
        move |i, ctx| id_pair(&ids[(i % k) as usize], &ids[(i / k) as usize], ctx), move |i| format!("{:?} links to {:?}", ids2[(i % k) as usize], ids2[(i / k) as usize])));
    let list = Arc::new(sizes(tier.pick(70, 300), 1100));
    let l2 = list.clone();
    v.push(Suite::new("long-ids", "a link between two elements with ids of n characters that differ in the first, a middle or the last one, in length, or not at all", list.len() as u64, move |i, ctx| {
        let n = list[i as usize];
        let base = "x".repeat(n);
        let with = |k: usize, c: &str| { let mut s = base.clone(); if k < n { s.replace_range(k..k + 1, c); } s };
        let mut ids = vec![base.clone(), base.clone() + "x", base.clone() + "1", String::from("y") + &base, "x".into(), with(0, "y"), with(n / 2, "y"), with(n.saturating_sub(1), "y"), with(n / 2, "X"), with(n.saturating_sub(1), "\u{e9}"), "y".repeat(n), base[..n - n.min(1)].to_string()];
        ids.dedup();
        for a in &ids { for b in &ids { id_pair(a, b, ctx)?; } }
        Ok(())
    }, move |i| format!("ids of {} characters", l2[i as usize])));
    // many users of one target, many links of one user
    let list = Arc::new(sizes(tier.pick(24, 80), 1100));
    let (a, b) = (list.clone(), list.clone());
    v.push(Suite::new("many", "n users with two links each to one target, unlinked in every rotation (n > 80: from the first, middle and last one)",
        list.len() as u64, move |i, ctx| many_links(a[i as usize], ctx), move |i| format!("{} users", b[i as usize])));
    v
}

fn id_pair(a: &str, b: &str, ctx: &mut Ctx) -> R {
    for name in [AId::Href, AId::Fill, AId::Mask] {
        let mut doc = Document::new();
        let (mut x, mut y) = (doc.create_element(EId::G), doc.create_element(EId::G));
        x.set_id(a);
        y.set_id(b);
        let want = if b.is_empty() { Some(svgdom::Error::ElementMustHaveAnId) } else if a == b { Some(svgdom::Error::ElementCrosslink) } else { None };
        let got = x.set_attribute_checked((name, y.clone())).err();
        ctx.step(1);
        ctx.compared();
        ctx.outcome(hash_str(&format!("{:?}", want)));
        if format!("{:?}", got) != format!("{:?}", want) { return Err(format!("{}: {:?}, expected {:?}", name, got, want)); }
        let n = if want.is_none() { 1 } else { 0 };
        if x.attributes().len() != n || y.uses_count() != n || x.uses_count() != 0 || y.attributes().len() != 0 || *x.id() != a || *y.id() != b {
            return Err(format!("{}: wrong state after the result {:?}", name, got));
        }
    }
    Ok(())
}

fn many_links(n: usize, ctx: &mut Ctx) -> R {
    let starts: Vec<usize> = if n <= 80 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
    for start in starts {
        let mut doc = Document::new();
        let mut svg = doc.create_element(EId::Svg);
        doc.root().append(svg.clone());
        let mut t = doc.create_element(EId::LinearGradient);
        t.set_id("t");
        svg.append(t.clone());
        let mut users = vec![];
        for i in 0..n {
            let mut u = doc.create_element(EId::Rect);
            u.set_id(format!("u{}", i));
            svg.append(u.clone());
            u.set_attribute((AId::Fill, t.clone()));
            u.set_attribute(("data-l", t.clone()));
            ctx.step(2);
            users.push(u);
            // the target cannot link back to any of its users, first or last
            for x in users.iter().rev().take(if n <= 80 { n } else { 2 }) {
                for a in 0..2 {
                    let r = if a == 0 { t.set_attribute_checked((AId::Href, x.clone())) } else { t.set_attribute_checked(("data-l", AttributeValue::FuncLink(x.clone()))) };
                    ctx.step(1);
                    match r { Err(svgdom::Error::ElementCrosslink) => {}, r => return Err(format!("{} users: a link back to a user gives {:?}", i + 1, r)) }
                }
                if t.attributes().len() != 0 || x.uses_count() != 0 { return Err(format!("{} users: a refused link changed something", i + 1)); }
                if start > 0 { break; }
            }
            if t.uses_count() != 2 * (i + 1) { return Err(format!("uses_count() is {} after linking {} nodes twice", t.uses_count(), i + 1)); }
        }
        let mut left = 2 * n;
        for k in 0..n {
            let i = (start + k) % n;
            match i % 4 {
                0 => { users[i].remove_attribute(AId::Fill); left -= 1; }
                1 => { users[i].set_attribute((AId::Fill, AttributeValue::None)); left -= 1; }
                2 => { doc.remove_node(users[i].clone()); left -= 2; }
                _ => { users[i].remove_attribute("data-l"); left -= 1; }
            }
            ctx.step(1);
            ctx.compared();
            let ok = t.uses_count() == left && users.iter().enumerate().filter(|(j, _)| n <= 80 || k % 16 == 0 || *j == i).all(|(_, u)| {
                let want = u.attributes().iter().filter(|a| match a.value {
                    AttributeValue::Paint(ref x, _) | AttributeValue::FuncLink(ref x) => *x == t, _ => false }).count();
                t.linked_nodes().iter().filter(|x| *x == u).count() == want
            });
            if !ok { return Err(format!("{} users, first unlinked {}: linked_nodes disagree with the attributes after {} steps", n, start, k + 1)); }
        }
        ctx.outcome((n * 1000 + start) as u64);
        // removing the target clears what is left
        doc.remove_node(t.clone());
        if t.uses_count() != 0 || users.iter().any(|u| u.attributes().iter().any(|a| a.is_link_container())) {
            return Err(format!("{} users, first unlinked {}: links to a removed node are left", n, start));
        }
        t.detach();
    }
    Ok(())
}

/// Every ordered forest of up to `n` nodes below the root, with every kind of node at every
/// place (elements: SVG and custom, texts and comments), as the operations that build it.
pub fn kind_trees(n: usize) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for size in 1..=n {
        for shape in crate::trees::forests(size) {
            let mut kinds = vec![0u8; size];
            'all: loop {
                let mut ops = vec![];
                for k in &kinds { ops.push(match k { 0 => Op::CreateElem(0), 1 => Op::CreateElem(3), 2 => Op::CreateText(1), _ => Op::CreateComment(2) }); }
                for (k, p) in shape.iter().enumerate() {
                    ops.push(Op::Append(p.map_or(0, |p| p as u8 + 1), k as u8 + 1));
                    if kinds[k] < 2 { ops.push(Op::SetId(k as u8 + 1, 1 + (k % 4) as u8)); ops.push(Op::Set(k as u8 + 1, 3, (k % 5) as u8)); }
                }
                out.push(ops);
                let mut k = 0;
                loop {
                    if k == size { break 'all; }
                    kinds[k] += 1;
                    if kinds[k] < 4 { break; }
                    kinds[k] = 0;
                    k += 1;
                }
            }
        }
    }
    out
}

/// `then` gives the operations to try on each tree (after linking `links` in all ways).
fn kind_suite(name: &str, about: &str, n: usize, then: fn(&MDoc) -> Vec<Vec<Op>>) -> Suite {
    let list = Arc::new(kind_trees(n));
    let l2 = list.clone();
    Suite::new(name, &format!("every ordered forest of up to {} nodes with an SVG element, a custom element, a text or a comment at every place: {}", n, about),
        list.len() as u64, move |i, ctx| {
            let base = &list[i as usize];
            let mut m = MDoc::new();
            for op in base { op.apply_model(&mut m); }
            for t in then(&m) {
                let ops: Vec<Op> = base.iter().cloned().chain(t.iter().cloned()).collect();
                match crate::engine::guarded(|| replay(&ops, false, ctx)) {
                    Ok(Ok((m, _))) => ctx.outcome(hash_str(&m.key())),
                    Ok(Err(e)) | Err(e) => return Err(format!("then {} => {}", show_ops(&t), e)),
                }
            }
            Ok(())
        }, move |i| show_ops(&l2[i as usize]))
}

fn drains(m: &MDoc) -> Vec<Vec<Op>> {
    let n = m.n.len() as u8;
    let mut v = vec![];
    for r in 0..n {
        let below: u64 = m.preorder(r as usize)[1..].iter().map(|&i| 1u64 << i).sum();
        // all predicates that differ below r
        for mask in 1..(1u64 << n) { if mask & !below == 0 { v.push(vec![Op::Drain(r, mask as u16)]); } }
    }
    for k in 1..n { v.push(vec![Op::Remove(k)]); }
    v
}

fn copies(m: &MDoc) -> Vec<Vec<Op>> {
    (1..m.n.len() as u8).flat_map(|k| [vec![Op::Copy(k)], vec![Op::CopyDeep(k)], vec![Op::CopyDeep(k), Op::Remove(k)], vec![Op::CopyDeep(k), Op::Append(0, m.n.len() as u8)]]).collect()
}

/// A chain of n elements (or every other one of them with a text and a comment), below an svg element.
fn chain(doc: &mut Document, n: usize, more: bool) -> (Node, Node, usize) {
    let mut svg = doc.create_element(EId::Svg);
    doc.root().append(svg.clone());
    let top = doc.create_element(EId::G);
    svg.append(top.clone());
    let mut cur = top.clone();
    let mut count = 1;
    for k in 1..n {
        if more && k % 2 == 0 {
            let (t, c) = (doc.create_node(NodeType::Text, "t"), doc.create_node(NodeType::Comment, "c"));
            cur.append(t);
            cur.append(c);
            count += 2;
        }
        let e = doc.create_element(EId::G);
        cur.append(e.clone());
        count += 1;
        cur = e;
    }
    cur.set_id("last");
    svg.set_attribute((AId::Mask, cur.clone()));
    (top, cur, count)
}

/// Deep chains on a thread with a usual stack. `what`: 0 removal, 1 drain, 2 copy, 3 drop with handles, 4 navigation.
fn deep_chain(what: u64) -> Suite {
    const N: [usize; 5] = [100, 1000, 5000, 20_000, 100_000];
    Suite::new("nested", "chains of up to 100 000 nested elements, with and without other nodes in them, on a thread with a stack of 2 MiB", 10, move |i, ctx| {
        let (n, more) = (N[(i / 2) as usize], i % 2 == 1);
        ctx.step(n as u64);
        ctx.compared();
        ctx.outcome(i);
        small_stack(move || {
            let mut doc = Document::new();
            let (top, mut last, count) = chain(&mut doc, n, more);
            let svg = doc.svg_element().ok_or("no svg element")?;
            let bad = |s: &str| Err(format!("{} levels: {}", n, s));
            if last.uses_count() != 1 { return bad("the last element is not used"); }
            match what {
                0 | 1 => {
                    let all: Vec<Node> = top.descendants().collect();
                    if all.len() != count { return bad("wrong number of nodes"); }
                    if what == 0 { doc.remove_node(top.clone()); } else {
                        let t = top.clone();
                        if doc.drain(doc.root(), |n| *n == last) != 1 { return bad("drain does not count the last element"); }
                        if doc.drain(doc.root(), |n| *n == t) != 1 { return bad("drain does not count the first element"); }
                    }
                    if svg.has_children() || svg.attributes().len() != 0 { return bad("something is left"); }
                    if all.iter().any(|n| !n.is_detached() || n.has_parent() || n.has_children() || n.next_sibling().is_some()) { return bad("a node is still in a tree"); }
                }
                2 => {
                    let c = doc.copy_node_deep(svg.clone());
                    let (a, b): (Vec<Node>, Vec<Node>) = (svg.descendants().collect(), c.descendants().collect());
                    if a.len() != count + 1 || a.len() != b.len() { return bad("wrong number of copies"); }
                    if a.iter().zip(&b).any(|(a, b)| a == b || a.node_type() != b.node_type() || *a.text() != *b.text() || a.attributes().len() != b.attributes().len()
                        || a.children().count() != b.children().count()) { return bad("a copy differs"); }
                    if last.uses_count() != 2 { return bad("the copy does not use the last element"); }
                }
                3 => {
                    let all: Vec<Node> = if more { vec![top.clone(), last.clone()] } else { svg.descendants().collect() };
                    drop(doc);
                    if all.iter().any(|n| n.has_parent() || n.has_children() || n.uses_count() != 0 || n.attributes().len() != 0) { return bad("a handle is still in a tree"); }
                }
                _ => {
                    if last.root() != doc.root() { return bad("wrong root"); }
                    if last.ancestors().count() != n + 2 { return bad("wrong number of ancestors"); }
                    if top.traverse().count() != 2 * count || top.traverse().rev().count() != 2 * count { return bad("wrong number of edges"); }
                    let mut t = top.clone();
                    t.detach();
                    if last.root() != top || svg.has_children() { return bad("wrong root after detach"); }
                    last.append(svg.clone());
                    if svg.root() != top || svg.ancestors().count() != n + 1 { return bad("wrong place after append"); }
                }
            }
            Ok(())
        })
    }, |i| format!("{} levels{}", N[(i / 2) as usize], if i % 2 == 1 { " with texts and comments" } else { "" }))
}

/// Long rows of siblings (in a parent, below the root, without a parent) on a thread with a usual stack.
/// `what`: 0 removal, 1 drain, 2 copy, 3 drop with handles, 4 navigation.
fn rows(what: u64) -> Suite {
    const N: [usize; 4] = [1000, 5000, 20_000, 100_000];
    Suite::new(&format!("rows-{}", what), "rows of up to 100 000 siblings, in an element, below the root or without a parent, on a thread with a stack of 2 MiB", 12, move |i, ctx| {
        let (n, place) = (N[(i / 3) as usize], i % 3);
        ctx.step(n as u64);
        ctx.compared();
        ctx.outcome(i);
        small_stack(move || {
            let mut doc = Document::new();
            let mut top = doc.create_element(EId::Svg);
            let mut t = doc.create_element(EId::G);
            t.set_id("t");
            let mut all: Vec<Node> = vec![];
            if place == 0 { doc.root().append(top.clone()); }
            for k in 0..n {
                let mut e = match k % 11 { 3 => doc.create_node(NodeType::Text, "t"), 7 => doc.create_node(NodeType::Comment, "c"), _ => doc.create_element(EId::Rect) };
                if e.is_element() && k % 50 == 1 { e.set_attribute((AId::Mask, t.clone())); }
                match place {
                    0 => top.append(e.clone()),
                    1 => doc.root().append(e.clone()),
                    _ => if let Some(l) = all.last_mut() { Node::insert_after(l, e.clone()) },
                }
                all.push(e);
            }
            let uses = all.iter().filter(|x| x.attributes().len() == 1).count();
            let bad = |s: &str| Err(format!("{} siblings: {}", n, s));
            if t.uses_count() != uses { return bad("wrong number of users"); }
            let parent = match place { 0 => Some(top.clone()), 1 => Some(doc.root()), _ => None };
            match what {
                0 => {
                    for k in (0..n).rev() { if k % 2 == 1 { doc.remove_node(all[k].clone()); } }
                    let left: Vec<Node> = all[0].following_siblings().collect();
                    if left.len() != (n + 1) / 2 || left.iter().enumerate().any(|(k, x)| *x != all[2 * k]) { return bad("wrong rest"); }
                    if left.iter().any(|x| x.is_detached()) || (1..n).step_by(2).any(|k| !all[k].is_detached() || all[k].next_sibling().is_some() || all[k].has_parent()) { return bad("wrong state after removal"); }
                    if t.uses_count() != left.iter().filter(|x| x.attributes().len() == 1).count() { return bad("wrong users after removal"); }
                    doc.remove_node(t.clone());
                    if all.iter().any(|x| x.attributes().len() != 0) { return bad("a link is left"); }
                }
                1 => if let Some(p) = parent {
                    let c = doc.drain(p.clone(), |x| x.is_text());
                    if c != all.iter().filter(|x| x.is_text()).count() || p.children().count() != n - c { return bad("wrong number drained"); }
                    if doc.drain(p.clone(), |_| true) != n - c || p.has_children() || t.uses_count() != 0 { return bad("not everything is drained"); }
                },
                2 => if let Some(p) = parent.filter(|p| p.is_element()) {
                    let c = doc.copy_node_deep(p.clone());
                    let (a, b): (Vec<Node>, Vec<Node>) = (p.children().collect(), c.children().collect());
                    if a.len() != n || b.len() != n || a.iter().zip(&b).any(|(a, b)| a == b || a.node_type() != b.node_type() || *a.text() != *b.text() || a.attributes().len() != b.attributes().len()) { return bad("a copy differs"); }
                    if t.uses_count() != 2 * uses { return bad("wrong users after copying"); }
                },
                3 => {
                    let keep: Vec<Node> = (0..n).step_by(n / 3).map(|k| all[k].clone()).collect();
                    drop((all, top, t, parent));
                    drop(doc);
                    if keep.iter().any(|x| x.has_parent() || x.next_sibling().is_some() || x.previous_sibling().is_some() || x.attributes().len() != 0) { return bad("a handle is still in a tree"); }
                }
                _ => {
                    if all[n - 1].preceding_siblings().count() != n || all[0].following_siblings().count() != n { return bad("wrong number of siblings"); }
                    if let Some(mut p) = parent {
                        if p.children().rev().count() != n || p.descendants().count() != n + 1 { return bad("wrong number of children"); }
                        p.prepend(all[n - 1].clone());
                        p.append(all[n / 2].clone());
                        if p.first_child().as_ref() != Some(&all[n - 1]) || p.last_child().as_ref() != Some(&all[n / 2]) || p.children().count() != n { return bad("wrong ends after moves"); }
                    } else { all[n / 2].detach(); if all[0].following_siblings().count() != n - 1 { return bad("wrong number after detach"); } }
                }
            }
            Ok(())
        })
    }, |i| format!("{} siblings, place {}", N[(i / 3) as usize], i % 3))
}

// ------------------------------------------------------------------------ C04

pub fn c04(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    // all shapes of 4 nodes (as reached by appends/prepends) x all link sets of size <= 2 x all removals and drains
    let init = vec![Op::CreateElem(2), Op::CreateElem(0), Op::CreateText(1), Op::CreateElem(1), Op::CreateComment(1)];
    let mut al = vec![];
    for &p in &[0u8, 1, 2, 4] { for &c in &[1u8, 2, 3, 4, 5] { if p != c { al.push(Op::Append(p, c)); } } }
    let mut grow = al.clone();
    for r in [0u8, 1, 2].iter() { for mask in 1..32u16 { grow.push(Op::Drain(*r, mask << 1)); } }
    for n in 1..=5 { grow.push(Op::Remove(n)); grow.push(Op::Detach(n)); }
    let sp = explore(init, grow, tier.pick(5, 7), tier.pick(15_000, 100_000), true, &|_| true);
    v.push(space_suite("shapes", "trees of 5 nodes of all kinds, every removal and every drain predicate", sp, nothing()));

    let mut init = small_tree();
    for &(n, i) in &[(1u8, 4u8), (2, 1), (3, 2), (4, 3)] { init.push(Op::SetId(n, i)); }
    let mut al = vec![];
    for n in 1..=4u8 { for t in 1..=4u8 { for &a in &[0u8, 1, 3] { al.push(Op::Link(n, a, t, 0)); } } al.push(Op::Set(n, 4, 2)); }
    for r in [0u8, 1, 2].iter() { for mask in 1..16u16 { al.push(Op::Drain(*r, mask << 1)); } }
    for n in 1..=4 { al.push(Op::Remove(n)); al.push(Op::Detach(n)); }
    let sp = explore(init, al, tier.pick(3, 4), tier.pick(12_000, 400_000), true, &|_| true);
    v.push(space_suite("links", "links inside, into and out of the removed subtree, every removal and drain", sp, nothing()));

    // every kind of link, in both directions, then removal
    let mut init = small_tree();
    for &(n, i) in &[(1u8, 4u8), (2, 1), (3, 2), (4, 3)] { init.push(Op::SetId(n, i)); }
    let mut al = vec![];
    for &n in &[2u8, 3, 4] { for &t in &[2u8, 3, 4] { for a in [0u8, 1, 2, 3, 6, 7, 8] { for f in 0..7u8 { if n != t { al.push(Op::Link(n, a, t, f)); } } } } }
    for r in [0u8, 1, 2].iter() { for mask in [0b100u16, 0b1000, 0b10000, 0b11000] { al.push(Op::Drain(*r, mask)); } }
    for n in 1..=4 { al.push(Op::Remove(n)); }
    let sp = explore(init, al, tier.pick(2, 3), tier.pick(6_000, 300_000), true, &|_| true);
    v.push(space_suite("flavours", "every kind of link and fallback in every kind of attribute between three elements, every removal and drain", sp, nothing()));

    v.push(all_ops(tier, |o| matches!(o, Op::Remove(..) | Op::Drain(..))));
    v.push(kind_suite("kinds", "every drain (root and predicate) and every removal", tier.pick(4, 6), drains));
    v.push(same_ids());
    let list = Arc::new(sizes(tier.pick(70, 300), 2100));
    let l2 = list.clone();
    v.push(Suite::new("users", "n users of one node (each with one to three links to it), the node, a node above it or one user removed or drained", list.len() as u64 * 5,
        move |i, ctx| many_users(list[(i / 5) as usize], i % 5, ctx), move |i| format!("{} users, way {}", l2[(i / 5) as usize], i % 5)));
    v.push(deep_chain(0));
    v.push(rows(0));
    v.push(rows(1));
    v.push({ let mut s = deep_chain(1); s.name = "nested-drain".into(); s });
    v.push(Suite::new("scaled", "n children (and n nested), every k-th removed, counts and survivors",
        sizes(tier.pick(40, 120), 1100).len() as u64, move |i, ctx| drain_scaled(sizes(tier.pick(40, 120), 1100)[i as usize], ctx), move |i| format!("{} nodes", sizes(tier.pick(40, 120), 1100)[i as usize])));
    v
}

/// Four elements in every shape, with every choice of two ids for them (so that several have the
/// same one), one or two links, then one removal.
fn same_ids() -> Suite {
    let shapes = crate::trees::forests(4);
    let pairs: Vec<(u8, u8)> = (1..=4u8).flat_map(|a| (1..=4u8).filter(move |b| *b != a).map(move |b| (a, b))).collect();
    let np = pairs.len() as u64;
    let links = np * (np + 1);
    let ns = shapes.len() as u64;
    let make = move |i: u64| -> Vec<Op> {
        let shape = &shapes[(i % ns) as usize];
        let ids = i / ns % 16;
        let l = i / ns / 16;
        let mut ops: Vec<Op> = (0..4u8).map(|k| Op::CreateElem([0, 1, 2, 3][k as usize])).collect();
        for (k, p) in shape.iter().enumerate() {
            ops.push(Op::Append(p.map_or(0, |p| p as u8 + 1), k as u8 + 1));
            ops.push(Op::SetId(k as u8 + 1, 1 + (ids >> k & 1) as u8));
        }
        let (a, b) = pairs[(l % np) as usize];
        ops.push(Op::Link(a, 0, b, 0));
        if l / np > 0 { let (a, b) = pairs[(l / np - 1) as usize]; ops.push(Op::Link(a, 1, b, 0)); }
        ops
    };
    let make = Arc::new(make);
    let m2 = make.clone();
    Suite::new("same-ids", "four elements in every shape x every choice of two ids x all sets of one or two links x every removal and the drain of every node", ns * 16 * links, move |i, ctx| {
        let base = make(i);
        for k in 1..=4u8 {
            for op in [Op::Remove(k), Op::Drain(0, 1 << k)] {
                let ops: Vec<Op> = base.iter().cloned().chain([op.clone()]).collect();
                match crate::engine::guarded(|| replay(&ops, false, ctx)) {
                    Ok(Ok((m, _))) => ctx.outcome(hash_str(&m.key())),
                    Ok(Err(e)) | Err(e) => return Err(format!("then {} => {}", show_ops(&[op]), e)),
                }
            }
        }
        Ok(())
    }, move |i| show_ops(&m2(i)))
}

/// `way`: 0 the target is removed, 1 an ancestor of it is, 2 it is drained, 3 a user in the middle is removed, 4 the users are removed with their parent.
fn many_users(n: usize, way: u64, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    doc.root().append(svg.clone());
    let mut defs = doc.create_element(EId::Defs);
    let mut row = doc.create_element(EId::G);
    svg.append(defs.clone());
    svg.append(row.clone());
    let mut t = doc.create_element(EId::LinearGradient);
    t.set_id("t");
    defs.append(t.clone());
    let mut users = vec![];
    let mut links = vec![];
    for i in 0..n {
        let mut u = doc.create_element(EId::Rect);
        if way == 2 && i % 3 == 1 { svg.append(u.clone()) } else { row.append(u.clone()) }
        u.set_attribute((AId::X, i as i32));
        u.set_attribute((AId::Fill, t.clone()));
        if i % 3 == 0 { u.set_attribute((AId::Stroke, t.clone())); }
        if i % 6 == 0 { u.set_attribute((AId::Href, t.clone())); }
        links.push(u.attributes().len() - 1);
        users.push(u);
    }
    let total: usize = links.iter().sum();
    ctx.step(n as u64);
    ctx.compared();
    ctx.outcome((n * 8) as u64 + way);
    if t.uses_count() != total { return Err(format!("{} uses, expected {}", t.uses_count(), total)); }
    let mid = n / 2;
    match way {
        0 => doc.remove_node(t.clone()),
        1 => doc.remove_node(defs.clone()),
        2 => { let x = t.clone(); if doc.drain(svg.clone(), |y| *y == x) != 1 { return Err("drain() does not count the target".into()); } }
        3 => if n > 0 { doc.remove_node(users[mid].clone()) },
        _ => doc.remove_node(row.clone()),
    }
    let left = match way { 3 if n > 0 => total - links[mid], 3 => total, _ => 0 };
    if t.uses_count() != left || t.linked_nodes().len() != left { return Err(format!("{} uses are left, expected {}", t.uses_count(), left)); }
    for (i, u) in users.iter().enumerate() {
        let gone = way == 4 || way == 3 && i == mid;
        let want = if gone { None } else if way == 3 { Some(links[i] + 1) } else { Some(1) };
        if u.is_detached() != gone { return Err(format!("user {} is_detached() = {}", i, !gone)); }
        if gone && u.attributes().iter().any(|a| a.is_link_container()) { return Err(format!("removed user {} keeps a link", i)); }
        if want.map_or(false, |w| u.attributes().len() != w) || u.attributes().get_value(AId::X).map_or(!gone, |v| !plain_eq(v, &AttributeValue::Number(i as f64))) { return Err(format!("user {} has {:?}", i, *u.attributes())); }
    }
    if t.is_detached() != (way < 3) || (way >= 3) != t.has_parent() { return Err("the target is in a wrong place".into()); }
    Ok(())
}

fn drain_scaled(n: usize, ctx: &mut Ctx) -> R {
    for step in 1..=n.min(if n > 120 { 3 } else { 12 }) {
        for deep in 0..2 {
            let mut doc = Document::new();
            let svg = doc.create_element(EId::Svg);
            doc.root().append(svg.clone());
            let mut nodes = vec![];
            let mut cur = svg.clone();
            for i in 0..n {
                let mut e = doc.create_element(EId::G);
                e.set_id(format!("i{}", i));
                if i > 0 { let t: &Node = &nodes[i - 1]; e.set_attribute((AId::Href, t.clone())); }
                cur.append(e.clone());
                if deep == 1 { cur = e.clone(); }
                nodes.push(e);
            }
            let hit = |i: usize| i % step == step - 1;
            let list = nodes.clone();
            let c = doc.drain(svg.clone(), |x| list.iter().position(|y| y == x).map_or(false, hit));
            ctx.step(1);
            ctx.compared();
            ctx.outcome((n * 1000 + step * 2 + deep) as u64);
            let first = (0..n).find(|&i| hit(i));
            let gone = |i: usize| if deep == 1 { first.map_or(false, |f| i >= f) } else { hit(i) };
            let want = if deep == 1 { first.map_or(0, |_| 1) } else { (0..n).filter(|&i| hit(i)).count() };
            if c != want { return Err(format!("n={} step={} deep={}: drain() returned {}, expected {}", n, step, deep, c, want)); }
            for i in 0..n {
                if nodes[i].is_detached() != gone(i) { return Err(format!("n={} step={} deep={}: node {} is_detached() = {}", n, step, deep, i, nodes[i].is_detached())); }
                let link = i > 0 && !gone(i) && !gone(i - 1);
                if nodes[i].has_attribute(AId::Href) != link { return Err(format!("n={} step={} deep={}: node {} href = {}", n, step, deep, i, !link)); }
            }
            let left: Vec<Node> = (0..n).filter(|&i| !gone(i)).map(|i| nodes[i].clone()).collect();
            let got: Vec<Node> = svg.descendants().skip(1).collect();
            if got.len() != left.len() || got.iter().zip(&left).any(|(a, b)| a != b) {
                return Err(format!("n={} step={} deep={}: {} nodes left, expected {}", n, step, deep, got.len(), left.len()));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C05

pub fn c05(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut init = small_tree();
    init.push(Op::CreateText(2));
    init.push(Op::CreateComment(1));
    for &(n, i) in &[(2u8, 1u8), (3, 2), (4, 3)] { init.push(Op::SetId(n, i)); }
    let mut al = vec![];
    for n in 2..=4u8 {
        for t in 2..=4u8 { for &a in &[0u8, 1] { al.push(Op::Link(n, a, t, 3)); } }
        al.push(Op::Set(n, 3, 1));
        al.push(Op::Set(n, 4, 2));
        al.push(Op::Unset(n, 3));
    }
    for &p in &[1u8, 2, 3, 4] { for &c in &[3u8, 4, 5, 6] { if p != c { al.push(Op::Append(p, c)); } } }
    for n in 1..=6u8 { al.push(Op::Copy(n)); al.push(Op::CopyDeep(n)); }
    al.push(Op::SetText(5, 1));
    // operations on the copies
    for n in 7..=9u8 {
        al.push(Op::SetId(n, 4)); al.push(Op::Set(n, 4, 3)); al.push(Op::Unset(n, 0)); al.push(Op::Detach(n));
        al.push(Op::Remove(n)); al.push(Op::SetText(n, 3)); al.push(Op::Append(1, n)); al.push(Op::Link(n, 1, 4, 0)); al.push(Op::SetTag(n, 3));
    }
    al.push(Op::Remove(2));
    al.push(Op::Remove(3));
    let sp = explore(init, al, tier.pick(4, 5), tier.pick(16_000, 500_000), true, &|m| m.n.len() <= 13);
    v.push(space_suite("copies", "trees with attributes, links, text and comments; every copy; mutations of both sides", sp, nothing()));

    v.push(all_ops(tier, |o| matches!(o, Op::Copy(..) | Op::CopyDeep(..))));
    v.push(Suite::new("shapes", "deep copies of every ordered tree of up to 6 nodes",
        crate::trees::count_upto(tier.pick(6, 8)) as u64, |i, ctx| copy_shape(i as usize, ctx),
        |i| format!("tree {:?}", crate::trees::nth(i as usize))));
    v.push(deep_chain(2));
    v.push(rows(2));
    v.push(kind_suite("kind-trees", "every copy of every node, then removal of the source or use of the copy", tier.pick(5, 6), copies));
    v.push(Suite::new("kinds", "copies of an element with each SVG tag and each kind of attribute value",
        crate::names::ELEMENTS.len() as u64, |i, ctx| copy_kinds(i as usize, ctx), |i| crate::names::ELEMENTS[i as usize].into()));
    let mut names: Vec<String> = crate::names::ATTRIBUTES.iter().chain(crate::names::ELEMENTS.iter()).map(|s| s.to_string()).collect();
    names.extend(crate::text::words());
    let n2 = names.clone();
    v.push(Suite::new("names", "every attribute and element name, short string and word of special characters as attribute identifier, attribute name, value, tag name and text of a copied node", names.len() as u64,
        move |i, ctx| copy_names(&names[i as usize], ctx), move |i| format!("{:?}", n2[i as usize])));
    v.push(Suite::new("scaled", "n attributes, n children, n levels", sizes(tier.pick(40, 100), 1100).len() as u64, move |i, ctx| copy_scaled(sizes(tier.pick(40, 100), 1100)[i as usize], ctx), move |i| format!("{}", sizes(tier.pick(40, 100), 1100)[i as usize])));
    v
}

fn copy_shape(i: usize, ctx: &mut Ctx) -> R {
    let parents = crate::trees::nth(i);
    let mut ops = vec![];
    for (k, _) in parents.iter().enumerate() {
        ops.push(match k % 5 { 1 => Op::CreateElem(3), 3 => Op::CreateElem(4), _ => Op::CreateElem(0) });
    }
    for (k, p) in parents.iter().enumerate() {
        let p = match p { Some(p) => *p as u8 + 1, None => 0 };
        ops.push(Op::Append(p, k as u8 + 1));
        ops.push(Op::SetId(k as u8 + 1, 1 + (k % 4) as u8));
        ops.push(Op::Set(k as u8 + 1, 4, (k % 5) as u8));
    }
    for n in 1..=parents.len() as u8 {
        for deep in 0..2 {
            ops.push(if deep == 1 { Op::CopyDeep(n) } else { Op::Copy(n) });
            let (m, _) = replay(&ops, false, ctx)?;
            ctx.outcome(hash_str(&m.key()));
            ops.pop();
        }
    }
    Ok(())
}

fn copy_kinds(i: usize, ctx: &mut Ctx) -> R {
    let eid = EId::from_str(crate::names::ELEMENTS[i]).ok_or("unknown element")?;
    let mut doc = Document::new();
    let mut e = doc.create_element(eid);
    let mut t = doc.create_element(EId::Rect);
    t.set_id("t");
    e.set_id("e");
    let names: Vec<AId> = crate::names::ATTRIBUTES.iter().filter_map(|n| AId::from_str(n)).collect();
    for (k, v) in crate::values::samples().into_iter().enumerate() {
        e.set_attribute((names[(i * 7 + k * 3) % names.len()], v));
    }
    for (k, a) in [AId::Href, AId::Fill, AId::Stroke, AId::Mask, AId::ClipPath].iter().enumerate() {
        if k == 1 { e.set_attribute((*a, (t.clone(), fallback_at(3)))); } else { e.set_attribute((*a, t.clone())); }
    }
    e.set_attribute(("custom", "v"));
    let before = format!("{:?}", *e.attributes());
    let uses = t.uses_count();
    let c = doc.copy_node(e.clone());
    ctx.step(1);
    ctx.compared();
    ctx.outcome(i as u64);
    if c == e || !c.has_tag_name(eid) || c.has_id() || c.parent().is_some() || c.is_detached() || c.is_used() {
        return Err("copy has a wrong identity, tag or id".into());
    }
    if format!("{:?}", *e.attributes()) != before || *e.id() != "e" { return Err("the source has changed".into()); }
    if c.attributes().len() != e.attributes().len() { return Err("number of attributes differs".into()); }
    for a in e.attributes().iter() {
        let b = c.attributes().get(a.name.as_ref()).cloned().ok_or_else(|| format!("attribute {} is not copied", a.name))?;
        let ok = match (&a.value, &b.value) {
            (AttributeValue::Link(x), AttributeValue::Link(y)) => x == y,
            (AttributeValue::FuncLink(x), AttributeValue::FuncLink(y)) => x == y,
            (AttributeValue::Paint(x, f), AttributeValue::Paint(y, g)) => x == y && fb_eq(f, g),
            (x, y) => plain_eq(x, y),
        };
        if !ok { return Err(format!("attribute {}: {:?} was copied as {:?}", a.name, a.value, b.value)); }
    }
    if t.uses_count() != 2 * uses { return Err(format!("the link target has {} users, expected {}", t.uses_count(), 2 * uses)); }
    Ok(())
}

fn copy_scaled(n: usize, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut e = doc.create_element(EId::G);
    let mut cur = e.clone();
    for i in 0..n {
        e.set_attribute((format!("a{}", i).as_str(), i as i32));
        let k = if i % 2 == 0 { doc.create_element(EId::Rect) } else { doc.create_node(NodeType::Text, format!("t{}", i)) };
        e.append(k);
        let mut d = doc.create_element(EId::Tspan);
        d.set_attribute((AId::X, i as i32));
        cur.append(d.clone());
        cur = d;
    }
    let c = doc.copy_node_deep(e.clone());
    ctx.step(1);
    ctx.compared();
    ctx.outcome(n as u64);
    let (a, b): (Vec<Node>, Vec<Node>) = (e.descendants().collect(), c.descendants().collect());
    if a.len() != 2 * n + 1 || b.len() != a.len() { return Err(format!("{} nodes copied to {}", a.len(), b.len())); }
    for (x, y) in a.iter().zip(&b) {
        if x == y || x.node_type() != y.node_type() || *x.text() != *y.text() || x.tag_name().as_ref() != y.tag_name().as_ref()
            || x.children().count() != y.children().count() || format!("{}", *x.attributes()) != format!("{}", *y.attributes()) {
            return Err(format!("{} and its copy {} differ", x, y));
        }
    }
    let flat = doc.copy_node(e.clone());
    if flat.has_children() || flat.attributes().len() != n { return Err("copy_node copied children or lost attributes".into()); }
    Ok(())
}

// ------------------------------------------------------------------------ C06

/// Drops the document while the handles in `keep` are alive, reads them, drops
/// the rest, and returns the number of bytes that are still allocated.
fn drop_with(ops: &[Op], keep: u32) -> Result<i64, String> {
    let before = net_bytes();
    {
        let mut r = Real::new();
        let mut gone = 0u32;
        for op in ops { r.apply(op); }
        for (i, h) in r.h.iter().enumerate() { if h.is_detached() { gone |= 1 << i; } }
        let Real { doc, h } = r;
        let kept: Vec<(usize, Node)> = h.iter().enumerate().filter(|(i, _)| keep >> i & 1 == 1).map(|(i, n)| (i, n.clone())).collect();
        drop(h);
        drop(doc);
        for (i, n) in &kept {
            let n: &Node = n;
            if n.parent().is_some() || n.first_child().is_some() || n.last_child().is_some() || n.previous_sibling().is_some()
                || n.next_sibling().is_some() || n.has_children() || n.has_parent() {
                return Err(format!("node {} still has a neighbour after its document was dropped", i));
            }
            if n.root() != *n { return Err(format!("root() of node {} is another node after its document was dropped", i)); }
            if n.children().count() != 0 || n.descendants().count() != 1 || n.ancestors().count() != 1
                || n.traverse().count() != 2 || n.following_siblings().count() != 1 || n.preceding_siblings().count() != 1 {
                return Err(format!("iterators of node {} yield other nodes after its document was dropped", i));
            }
            if !n.linked_nodes().is_empty() || n.is_used() || n.uses_count() != 0 { return Err(format!("node {} is still linked after its document was dropped", i)); }
            if gone >> i & 1 == 0 && !n.attributes().is_empty() { return Err(format!("node {} still has attributes after its document was dropped", i)); }
            if n.attributes().iter().any(|a| a.is_link_container()) { return Err(format!("node {} still has a link after its document was dropped", i)); }
            let _ = (n.node_type(), n.tag_id(), n.is_detached(), n.id().len(), n.text().len(), format!("{} {:?}", n, n).len());
        }
    }
    Ok(net_bytes() - before)
}

fn leak_check(ops: &[Op], keep: u32) -> R {
    let b = drop_with(ops, keep)?;
    if b != 0 {
        // one-time initialisation of a global is not a leak: it does not happen again
        let again = drop_with(ops, keep)?;
        if again != 0 { return Err(format!("{} bytes are still allocated after everything was dropped (handles kept over the drop: {:b})", again, keep)); }
    }
    Ok(())
}

pub fn c06(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    // every subset of handles kept
    let post_all: Post = Arc::new(|ops, m, r, ctx| {
        drop(r);
        let n = m.n.len().min(6);
        for keep in 0..(1u32 << n) { ctx.step(1); leak_check(ops, keep)?; }
        Ok(())
    });
    // none, each single handle, all handles
    let post_few: Post = Arc::new(|ops, m, r, ctx| {
        drop(r);
        ctx.step(2 + m.n.len() as u64);
        leak_check(ops, 0)?;
        for i in 0..m.n.len() { leak_check(ops, 1 << i)?; }
        leak_check(ops, u32::MAX)
    });
    let init = vec![Op::CreateElem(2), Op::CreateElem(0), Op::CreateText(1), Op::CreateElem(1)];
    let al = tree_alphabet(&[0, 1, 2, 4], &[1, 2, 3, 4], true);
    let sp = explore(init, al, tier.pick(4, 5), tier.pick(1_500, 8_000), true, &|_| true);
    v.push(deep_chain(3));
    v.push(rows(3));
    v.push(space_suite("tree", "tree edits, then drop with every subset of handles kept", sp, post_all));

    let mut init = small_tree();
    for &(n, i) in &[(1u8, 4u8), (2, 1), (3, 2), (4, 3)] { init.push(Op::SetId(n, i)); }
    let mut al = vec![];
    for n in 1..=4u8 {
        for t in 1..=4u8 { for &a in &[0u8, 1, 3] { al.push(Op::Link(n, a, t, 0)); } }
        al.push(Op::Set(n, 0, 1));
        al.push(Op::Set(n, 3, 1));
        al.push(Op::Remove(n));
        al.push(Op::Detach(n));
    }
    al.push(Op::Copy(2));
    al.push(Op::CopyDeep(2));
    al.push(Op::CopyDeep(1));
    al.push(Op::Drain(1, 0b11000));
    al.push(Op::Write);
    al.push(Op::CreateText(1));
    let sp = explore(init, al, tier.pick(3, 4), tier.pick(9_000, 100_000), true, &|m| m.n.len() <= 10);
    v.push(space_suite("links", "cyclic link graphs, removals, copies, then drop with handles kept", sp, post_few));
    v.push(refused());

    v.push(Suite::new("parsed", "parse, write, drop; parse errors; every handle kept alone",
        crate::corpus::docs().len() as u64, |i, ctx| parsed_leak(i as usize, ctx), |i| crate::corpus::docs()[i as usize].to_string()));
    v.push(Suite::new("scaled", "n nodes, n links, n removed", sizes(tier.pick(60, 300), 1100).len() as u64, move |i, ctx| scaled_leak(sizes(tier.pick(60, 300), 1100)[i as usize], ctx), move |i| format!("{}", sizes(tier.pick(60, 300), 1100)[i as usize])));
    v
}

/// In every state of small link graphs with unset, equal and different ids: every operation once
/// more, whether it is accepted, refused or changes nothing.
fn refused() -> Suite {
    let mut ops = vec![];
    for n in 1..=4u8 {
        for t in 1..=4u8 { for &a in &[0u8, 1, 2, 3] { ops.push(Op::LinkIfNone(n, a, t)); for f in 0..7u8 { ops.push(Op::Link(n, a, t, f)); } } }
        for &a in &[0u8, 1, 3] { ops.push(Op::Set(n, a, 1)); ops.push(Op::SetIfNone(n, a, 2)); ops.push(Op::Unset(n, a)); }
        for i in 0..3u8 { ops.push(Op::SetId(n, i)); }
        ops.push(Op::Remove(n));
        ops.push(Op::Detach(n));
        ops.push(Op::Copy(n));
        ops.push(Op::CopyDeep(n));
        for c in 0..=4u8 { if c != n { ops.push(Op::Append(c, n)); ops.push(Op::Prepend(c, n)); } if c != n && c > 0 { ops.push(Op::Before(c, n)); ops.push(Op::After(c, n)); } }
        for m in [0u16, 0b100, 0b1000, 0b11110] { ops.push(Op::Drain(n, m)); }
    }
    ops.push(Op::Write);
    ops.push(Op::CreateText(1));
    ops.push(Op::CreateComment(1));
    ops.push(Op::CreateElem(3));
    let ops = Arc::new(ops);
    // ids of the four elements: unset, 1 or 2; at most one link before
    let pairs: Vec<Option<(u8, u8, u8)>> = std::iter::once(None).chain((1..=4u8).flat_map(|n| (1..=4u8).flat_map(move |t| [0u8, 1, 3].iter().map(move |a| Some((n, t, *a)))))).collect();
    let np = pairs.len() as u64;
    let make = Arc::new(move |i: u64| -> Vec<Op> {
        let mut init = small_tree();
        let mut k = i / np;
        for n in 1..=4u8 { if k % 3 > 0 { init.push(Op::SetId(n, (k % 3) as u8)); } k /= 3; }
        if let Some((n, t, a)) = pairs[(i % np) as usize] { init.push(Op::Link(n, a, t, 0)); }
        init
    });
    let m2 = make.clone();
    Suite::new("refused", "four elements with every choice of unset, equal and different ids x no or any one link x every operation, accepted or refused, then drop", 81 * np, move |i, ctx| {
        let base = make(i);
        let mut m = MDoc::new();
        for op in &base { if !op.enabled(&m) { return Ok(()); } op.apply_model(&mut m); }
        let mut h = base.clone();
        for op in ops.iter() {
            if !op.enabled(&m) { continue; }
            h.push(op.clone());
            ctx.step(1);
            ctx.compared();
            leak_check(&h, 0).map_err(|e| format!("then {} => {}", show_ops(&h[base.len()..]), e))?;
            h.pop();
        }
        ctx.outcome(i);
        Ok(())
    }, move |i| show_ops(&m2(i)))
}

fn parsed_leak(i: usize, ctx: &mut Ctx) -> R {
    let text = crate::corpus::docs()[i];
    let go = |keep: Option<usize>| -> Result<(i64, usize), String> {
        let before = net_bytes();
        let mut count = 0;
        {
            let kept = match Document::from_str(text) {
                Ok(doc) => {
                    let s = doc.to_string();
                    drop(s);
                    count = doc.root().descendants().count();
                    keep.and_then(|k| doc.root().descendants().nth(k))
                }
                Err(e) => { let s = e.to_string(); drop(s); None }
            };
            if let Some(n) = kept {
                if n.parent().is_some() || n.has_children() || n.root() != n || !n.attributes().is_empty() || n.is_used() {
                    return Err("a node of a dropped document is still connected".into());
                }
                let _ = format!("{} {:?}", n, n);
            }
        }
        Ok((net_bytes() - before, count))
    };
    let (_, count) = go(None)?;
    for k in 0..=count {
        ctx.step(1);
        let keep = if k == 0 { None } else { Some(k - 1) };
        let (b, _) = go(keep)?;
        if b != 0 && go(keep)?.0 != 0 { return Err(format!("{} bytes are still allocated after everything was dropped", b)); }
    }
    ctx.outcome(hash_str(text));
    ctx.compared();
    Ok(())
}

fn scaled_leak(n: usize, ctx: &mut Ctx) -> R {
    let go = |mode: usize| -> i64 {
        let before = net_bytes();
        {
            let mut doc = Document::new();
            let mut svg = doc.create_element(EId::Svg);
            svg.set_id("s");
            doc.root().append(svg.clone());
            let mut prev: Option<Node> = None;
            let mut cur = svg.clone();
            for i in 0..n {
                let mut e = doc.create_element(EId::G);
                e.set_id(format!("e{}", i));
                e.set_attribute((format!("a{}", i).as_str(), 1));
                if let Some(p) = prev { e.set_attribute((AId::Href, p.clone())); }
                e.set_attribute((AId::Fill, svg.clone()));
                cur.append(e.clone());
                if mode & 1 == 1 { cur = e.clone(); }
                prev = Some(e);
            }
            // close the circle through an attribute
            if n > 2 { let first = svg.first_child().unwrap(); first.clone().set_attribute((AId::Mask, prev.clone().unwrap())); }
            if mode & 2 == 2 { doc.drain(svg.clone(), |x| x.id().ends_with('1')); }
            if mode & 4 == 4 { doc.remove_node(svg.clone()); }
            if mode & 8 == 8 { let c = doc.copy_node_deep(svg.clone()); doc.root().append(c); }
        }
        net_bytes() - before
    };
    for mode in 0..16 {
        ctx.step(1);
        if go(mode) != 0 { let b = go(mode); if b != 0 { return Err(format!("mode {}: {} bytes leaked", mode, b)); } }
    }
    ctx.outcome(n as u64);
    ctx.compared();
    Ok(())
}

// ------------------------------------------------------------------------ C07

pub fn c07(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let accessors: Post = Arc::new(|_, m, mut r, ctx| accessors(&m, &mut r, ctx));
    let init = vec![Op::CreateElem(1)];
    let names: [u8; 6] = [4, 5, 1, 8, 3, 7];
    let mut al = vec![];
    for &a in &names {
        for v in [0u8, 1, 2].iter() { al.push(Op::Set(1, a, *v)); }
        al.push(Op::SetIfNone(1, a, 3));
        al.push(Op::Unset(1, a));
    }
    al.push(Op::SetId(1, 1)); al.push(Op::SetTag(1, 3));
    let sp = explore(init.clone(), al, tier.pick(5, 6), tier.pick(20_000, 400_000), true, &|_| true);
    v.push(space_suite("map", "set/set_if_none/remove over 3 SVG and 3 custom names (with equal spellings)", sp, accessors.clone()));
    let mut al = vec![];
    for &a in &[4u8, 5, 1] {
        for v in 0..7u8 { al.push(Op::Set(1, a, v)); }
        al.push(Op::SetIfNone(1, a, 3));
        al.push(Op::Unset(1, a));
    }
    let sp = explore(init, al, tier.pick(3, 4), usize::MAX, false, &|_| true);
    v.push(space_suite("histories", "all histories over three names and all value kinds", sp, accessors.clone()));
    let init = vec![Op::CreateElem(1), Op::CreateElem(0), Op::SetId(2, 2), Op::CreateElem(3), Op::SetId(3, 3)];
    let mut al = vec![];
    for &a in &[0u8, 1, 2, 7, 8] {
        for t in 2..=3 { al.push(Op::Link(1, a, t, 6)); al.push(Op::LinkIfNone(1, a, t)); }
        al.push(Op::Set(1, a, 1));
        al.push(Op::SetIfNone(1, a, 2));
        al.push(Op::Unset(1, a));
    }
    let sp = explore(init, al, tier.pick(5, 7), tier.pick(20_000, 400_000), true, &|_| true);
    v.push(space_suite("links", "the same with links as values, under 3 SVG and 2 custom names", sp, accessors));
    let init = vec![Op::CreateElem(0), Op::CreateText(1), Op::CreateComment(2)];
    let mut al = vec![];
    for i in 0..IDS.len() as u8 { al.push(Op::SetId(1, i)); }
    for i in 0..5 { al.push(Op::SetTag(1, i)); }
    for i in 0..TEXTS.len() as u8 { al.push(Op::SetText(2, i)); al.push(Op::SetText(3, i)); }
    al.push(Op::Set(1, 4, 1));
    let sp = explore(init, al, 99, usize::MAX, true, &|_| true);
    v.push(space_suite("data", "ids, tag names and texts written and read back", sp, nothing()));
    let mut st = crate::text::strings(&['a', 'A', ' ', '\u{e9}', '<', '\n', '-'], tier.pick(3, 4));
    st.extend(crate::text::words());
    st.extend(crate::text::long_words());
    let st = Arc::new(st);
    let (k, s1, s2) = (st.len() as u64, st.clone(), st.clone());
    v.push(Suite::new("strings", "every string of up to 3 characters of 7 and words of special characters as id, text, comment, tag name, attribute name and value", k,
        move |i, ctx| string_data(&s1[i as usize], ctx), move |i| format!("{:?}", s2[i as usize])));
    let st = Arc::new(crate::text::strings(&['a', 'A', ' ', '\u{e9}', '\u{c9}', ':', '-', '_', '1'], 2)[1..].to_vec());
    let (k, s1, s2) = (st.len() as u64, st.clone(), st);
    v.push(Suite::new("name-pairs", "every two custom names of up to 2 characters of 9 on one element", k * k,
        move |i, ctx| name_pair(&s1[(i % k) as usize], &s1[(i / k) as usize], ctx), move |i| format!("{:?} and {:?}", s2[(i % k) as usize], s2[(i / k) as usize])));
    v.push(Suite::new("all-names", "every SVG attribute name on one element, set, overwritten, removed in each order",
        3, |mode, ctx| all_names(mode, ctx), |m| format!("mode {}", m)));
    v.push(overwrite());
    v.push(conversion_suite());
    v.push(many_values_suite());
    v.push(crate::tables::conversions());
    v.push(Suite::new("values", "every kind of value is read back as written, through each way of setting it",
        crate::values::samples().len() as u64, |i, ctx| value_kinds(i as usize, ctx), |i| format!("{:?}", crate::values::samples()[i as usize])));
    v.push(Suite::new("scaled", "lists of n attributes, the k-th one overwritten, kept or removed", sizes(tier.pick(48, 100), 520).len() as u64,
        move |i, ctx| scaled_attrs(sizes(tier.pick(48, 100), 520)[i as usize], ctx), move |i| format!("{} attributes", sizes(tier.pick(48, 100), 520)[i as usize])));
    v
}

fn accessors(m: &MDoc, r: &mut Real, ctx: &mut Ctx) -> R {
    let mut n = r.h[1].clone();
    for name in anames() {
        let want = m.attr(1, &name);
        ctx.step(6);
        let attrs = n.attributes();
        macro_rules! each { ($k:expr) => {{
            let k = $k;
            let g = attrs.get(k).map(|a| a.value.clone());
            let gv = attrs.get_value(k).cloned();
            let c = attrs.contains(k);
            (g, gv, c)
        }} }
        let (g, gv, c) = match name { AName::Id(id) => each!(id), AName::Name(ref s) => each!(s.as_str()) };
        drop(attrs);
        let (gm, gvm) = {
            let mut attrs = n.attributes_mut();
            match name {
                AName::Id(id) => (attrs.get_mut(id).map(|a| a.value.clone()), attrs.get_value_mut(id).cloned()),
                AName::Name(ref s) => (attrs.get_mut(s.as_str()).map(|a| a.value.clone()), attrs.get_value_mut(s.as_str()).cloned()),
            }
        };
        for (what, got) in vec![("get", g), ("get_value", gv), ("get_mut", gm), ("get_value_mut", gvm)] {
            let ok = match (&got, want) {
                (None, None) => true,
                (Some(a), Some(MVal::Plain(b))) => plain_eq(a, b),
                (Some(AttributeValue::Link(a)), Some(MVal::Link(b))) | (Some(AttributeValue::FuncLink(a)), Some(MVal::Func(b))) => *a == r.h[*b],
                (Some(AttributeValue::Paint(a, f)), Some(MVal::Paint(b, g))) => *a == r.h[*b] && fb_eq(f, g),
                _ => false,
            };
            if !ok { return Err(format!("{}({:?}) is {:?}, expected {:?}", what, name, got, want.map(val_key))); }
        }
        if c != want.is_some() { return Err(format!("contains({:?}) is {}", name, c)); }
    }
    let a = n.attributes().iter().count();
    let b = n.attributes_mut().iter_mut().count();
    if a != m.n[1].attrs.len() || b != a { return Err(format!("iter() yields {} and iter_mut() {} attributes, expected {}", a, b, m.n[1].attrs.len())); }
    // changes made through the mutable accessors are visible
    for (name, _) in &m.n[1].attrs {
        let mut attrs = n.attributes_mut();
        let slot = match *name { AName::Id(id) => attrs.get_value_mut(id), AName::Name(ref s) => attrs.get_value_mut(s.as_str()) };
        *slot.ok_or("get_value_mut failed")? = AttributeValue::Number(77.0);
    }
    for a in n.attributes().iter() {
        if !plain_eq(&a.value, &AttributeValue::Number(77.0)) { return Err(format!("a value set with get_value_mut reads as {:?}", a.value)); }
    }
    Ok(())
}

/// A string in every place that holds one, set on top of another one.
fn string_data(s: &str, ctx: &mut Ctx) -> R {
    for old in ["", "a", " a", "a ", "A", " "] {
        let mut doc = Document::new();
        let mut e = doc.create_element(EId::Rect);
        let mut t = doc.create_node(NodeType::Text, old);
        let mut c = doc.create_node(NodeType::Comment, old);
        e.set_id(old);
        e.set_attribute(("n", old));
        e.set_attribute((AId::Class, old));
        ctx.step(10);
        ctx.compared();
        if *e.id() != old || *t.text() != old || *c.text() != old { return Err(format!("{:?} does not read back", old)); }
        e.set_id(s);
        t.set_text(s);
        c.set_text(s);
        e.set_attribute(("n", s));
        e.set_attribute((AId::Class, s));
        if *e.id() != s || e.has_id() == s.is_empty() { return Err(format!("id {:?} set over {:?} reads {:?}", s, old, *e.id())); }
        if *t.text() != s || *c.text() != s { return Err(format!("text {:?} set over {:?} reads {:?} and {:?}", s, old, *t.text(), *c.text())); }
        *t.text_mut() = old.to_string();
        if *t.text() != old { return Err("text_mut() does not write".into()); }
        let v = AttributeValue::String(s.into());
        if e.attributes().len() != 2 || e.attributes().get_value("n").map_or(true, |x| !plain_eq(x, &v)) || e.attributes().get_value(AId::Class).map_or(true, |x| !plain_eq(x, &v)) {
            return Err(format!("value {:?} set over {:?} reads {:?}", s, old, *e.attributes()));
        }
        if !s.is_empty() {
            e.set_tag_name(s);
            let d = doc.create_element(s);
            for x in [&e, &d] {
                if !x.has_tag_name(s) || x.tag_id().is_some() || x.is_svg_element() || !x.is_element() || format!("{}", *x.tag_name()) != s { return Err(format!("tag name {:?} does not read back", s)); }
                if old != s && !old.is_empty() && x.has_tag_name(old) { return Err(format!("tag name {:?} is also {:?}", s, old)); }
            }
        }
    }
    ctx.outcome(hash_str(s));
    Ok(())
}

fn name_pair(a: &str, b: &str, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut e = doc.create_element(EId::Rect);
    e.set_attribute((a, 1));
    ctx.step(4);
    ctx.compared();
    ctx.outcome(hash_str(&format!("{} {}", a, b)));
    if e.has_attribute(b) != (a == b) { return Err(format!("has_attribute({:?}) is {} on an element with {:?}", b, a != b, a)); }
    e.set_attribute_if_none((b, 2));
    e.set_attribute((b, 3));
    let is = |n: &str, v: i32| e.attributes().get_value(n).map_or(false, |x| plain_eq(x, &AttributeValue::Number(f64::from(v))));
    if a == b { if e.attributes().len() != 1 || !is(a, 3) { return Err("not overwritten".into()); } return Ok(()); }
    if e.attributes().len() != 2 || !is(a, 1) || !is(b, 3) { return Err(format!("{:?} and {:?} are mixed up: {:?}", a, b, *e.attributes())); }
    e.remove_attribute(a);
    if e.has_attribute(a) || !e.has_attribute(b) || e.attributes().len() != 1 { return Err(format!("removing {:?} from {:?}", a, b)); }
    Ok(())
}

fn all_names(mode: u64, ctx: &mut Ctx) -> R {
    let names: Vec<AId> = crate::names::ATTRIBUTES.iter().filter(|n| **n != "id").filter_map(|n| AId::from_str(n)).collect();
    let mut doc = Document::new();
    let mut e = doc.create_element(EId::G);
    for (i, a) in names.iter().enumerate() {
        if e.has_attribute(*a) { return Err(format!("{} is present before it was set", a)); }
        e.set_attribute((*a, i as i32));
        e.set_attribute((a.as_str(), "custom"));
        ctx.step(2);
        if e.attributes().len() != 2 * (i + 1) { return Err(format!("{} attributes after setting {} names twice", e.attributes().len(), i + 1)); }
    }
    ctx.compared();
    ctx.outcome(mode);
    let n = names.len();
    for k in 0..n {
        let i = match mode { 0 => k, 1 => n - 1 - k, _ => (k * 101) % n };
        let want = AttributeValue::Number(f64::from(i as i32));
        if e.attributes().get_value(names[i]).map_or(true, |v| !plain_eq(v, &want)) { return Err(format!("{} has a wrong value", names[i])); }
        e.set_attribute((names[i], "new"));
        e.set_attribute_if_none((names[i], "not this"));
        if e.attributes().get_value(names[i]).map_or(true, |v| !plain_eq(v, &AttributeValue::String("new".into()))) { return Err(format!("{} was not overwritten", names[i])); }
        let before = e.attributes().len();
        e.remove_attribute(names[i]);
        ctx.step(4);
        if e.has_attribute(names[i]) || e.attributes().len() + 1 != before || !e.has_attribute(names[i].as_str()) {
            return Err(format!("removing {} removed something else", names[i]));
        }
    }
    if mode == 2 && gcd(101, n) != 1 { return Err("bad stride".into()); }
    Ok(())
}

fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }

fn value_kinds(i: usize, ctx: &mut Ctx) -> R {
    let v = crate::values::samples()[i].clone();
    ctx.outcome(i as u64);
    for (k, a) in crate::names::ATTRIBUTES.iter().filter_map(|n| AId::from_str(n)).enumerate() {
        let mut doc = Document::new();
        let mut e = doc.create_element(EId::Rect);
        match k % 3 {
            0 => e.set_attribute((a, v.clone())),
            1 => e.set_attribute(svgdom::Attribute::new(a, v.clone())),
            _ => e.set_attribute_if_none((a, v.clone())),
        }
        e.set_attribute((a.as_str(), v.clone()));
        ctx.step(2);
        ctx.compared();
        let ok = |g: Option<&AttributeValue>| g.map_or(false, |g| plain_eq(g, &v));
        if !ok(e.attributes().get_value(a)) || !ok(e.attributes().get_value(a.as_str())) || e.attributes().len() != 2 {
            return Err(format!("{} = {:?} reads back as {:?}", a, v, e.attributes().get_value(a)));
        }
    }
    Ok(())
}

fn scaled_attrs(n: usize, ctx: &mut Ctx) -> R {
    let places: Vec<usize> = if n <= 100 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
    for k in places {
        for mode in 0..3 {
            let mut doc = Document::new();
            let mut e = doc.create_element(EId::Rect);
            for i in 0..n { e.set_attribute((format!("a{}", i).as_str(), i as i32)); }
            let name = format!("a{}", k);
            match mode {
                0 => e.set_attribute((name.as_str(), -1)),
                1 => e.set_attribute_if_none((name.as_str(), -1)),
                _ => e.remove_attribute(name.as_str()),
            }
            ctx.step(n as u64 + 1);
            ctx.compared();
            let want = if mode == 2 { n - 1 } else { n };
            if e.attributes().len() != want || e.attributes().iter().count() != want { return Err(format!("n={} k={} mode={}: {} attributes", n, k, mode, e.attributes().len())); }
            for i in 0..n {
                let nm = format!("a{}", i);
                let v = e.attributes().get_value(nm.as_str()).cloned();
                let w = if i == k { match mode { 0 => Some(-1), 1 => Some(i as i32), _ => None } } else { Some(i as i32) };
                let ok = match (&v, w) { (None, None) => true, (Some(a), Some(b)) => plain_eq(a, &AttributeValue::Number(f64::from(b))), _ => false };
                if !ok || e.has_attribute(nm.as_str()) != w.is_some() { return Err(format!("n={} k={} mode={}: {} is {:?}", n, k, mode, nm, v)); }
            }
        }
    }
    ctx.outcome(n as u64);
    Ok(())
}

const OVER: [Option<AId>; 8] = [Some(AId::Fill), Some(AId::Stroke), Some(AId::Href), Some(AId::Mask), Some(AId::X), Some(AId::Unicode), Some(AId::Space), None];

/// Every value over every value, by every way of setting, with an attribute before and one after; the users of the link targets are counted.
fn overwrite() -> Suite {
    let n = { let mut d = Document::new(); let (a, b) = (d.create_element(EId::G), d.create_element(EId::G)); crate::nodes::values(&a, &b).len() as u64 };
    Suite::new("overwrite", "every kind of value (links of all flavours included) under 8 names on top of every other, set, set if there is none, and removed", n * n * OVER.len() as u64 * 4, move |i, ctx| {
        let mut doc = Document::new();
        let (mut a, mut b) = (doc.create_element(EId::G), doc.create_element(EId::Rect));
        a.set_id("a");
        b.set_id("b");
        let vals = crate::nodes::values(&a, &b);
        let (x, y) = (vals[(i % n) as usize].clone(), vals[(i / n % n) as usize].clone());
        let name = OVER[(i / n / n % OVER.len() as u64) as usize];
        let mode = i / n / n / OVER.len() as u64;
        let mut e = doc.create_element(EId::Use);
        e.set_attribute((AId::Class, "before"));
        let attr = |v: &AttributeValue| match name { Some(id) => svgdom::Attribute::new(id, v.clone()), None => svgdom::Attribute::new("fill", v.clone()) };
        let get = |e: &Node| match name { Some(id) => e.attributes().get_value(id).cloned(), None => e.attributes().get_value("fill").cloned() };
        let stored = |v: &AttributeValue| match v {
            AttributeValue::Link(t) | AttributeValue::FuncLink(t) | AttributeValue::Paint(t, _) => match name {
                Some(AId::Href) => AttributeValue::Link(t.clone()),
                Some(AId::Fill) | Some(AId::Stroke) => AttributeValue::Paint(t.clone(), match v { AttributeValue::Paint(_, f) => *f, _ => None }),
                _ => AttributeValue::FuncLink(t.clone()),
            },
            v => v.clone(),
        };
        let same = |g: &AttributeValue, w: &AttributeValue| match (g, w) {
            (AttributeValue::Link(s), AttributeValue::Link(t)) | (AttributeValue::FuncLink(s), AttributeValue::FuncLink(t)) => s == t,
            (AttributeValue::Paint(s, f), AttributeValue::Paint(t, g)) => s == t && fb_eq(f, g),
            (AttributeValue::Link(_), _) | (AttributeValue::FuncLink(_), _) | (AttributeValue::Paint(..), _) => false,
            (_, AttributeValue::Link(_)) | (_, AttributeValue::FuncLink(_)) | (_, AttributeValue::Paint(..)) => false,
            (g, w) => plain_eq(g, w),
        };
        let check = |e: &Node, want: Option<&AttributeValue>, after: bool, step: &str| -> R {
            let got = get(e);
            let ok = match (&got, want) { (None, None) => true, (Some(g), Some(w)) => same(g, &stored(w)), _ => false };
            if !ok { return Err(format!("{}: the value is {:?}, expected {:?}", step, got, want)); }
            let len = 1 + want.is_some() as usize + after as usize;
            if e.attributes().len() != len || e.attributes().get_value(AId::Class).map_or(true, |v| !plain_eq(v, &AttributeValue::String("before".into()))) || e.has_attribute("after") != after {
                return Err(format!("{}: {:?}", step, *e.attributes()));
            }
            for t in [&a, &b] {
                let w = match want { Some(AttributeValue::Link(n)) | Some(AttributeValue::FuncLink(n)) | Some(AttributeValue::Paint(n, _)) => (n == t) as usize, _ => 0 };
                if t.uses_count() != w || t.is_used() != (w > 0) || t.linked_nodes().iter().any(|u| u != e) { return Err(format!("{}: {} has {} users, expected {}", step, t, t.uses_count(), w)); }
            }
            Ok(())
        };
        ctx.step(4);
        ctx.compared();
        ctx.outcome(i);
        e.set_attribute(attr(&x));
        check(&e, Some(&x), false, "set")?;
        e.set_attribute(("after", 1));
        match mode {
            0 => { e.set_attribute(attr(&y)); check(&e, Some(&y), true, "set again")?; }
            1 => { e.set_attribute_if_none(attr(&y)); check(&e, Some(&x), true, "set if there is none")?; }
            2 => { if e.set_attribute_checked(attr(&y)).is_err() { return Err("refused".into()); } check(&e, Some(&y), true, "set again")?; }
            _ => {
                match name { Some(id) => e.remove_attribute(id), None => e.remove_attribute("fill") }
                check(&e, None, true, "removed")?;
                e.set_attribute_if_none(attr(&y));
                check(&e, Some(&y), true, "set after removal")?;
            }
        }
        match name { Some(id) => e.remove_attribute(id), None => e.remove_attribute("fill") }
        check(&e, None, true, "removed at the end")
    }, move |i| format!("name {:?}, value {}, then {}, mode {}", OVER[(i / n / n % OVER.len() as u64) as usize], i % n, i / n % n, i / n / n / OVER.len() as u64))
}

fn copy_names(s: &str, ctx: &mut Ctx) -> R {
    let mut doc = Document::new();
    let mut t = doc.create_element(EId::G);
    t.set_id("t");
    let mut e = doc.create_element(s);
    e.set_id(s);
    e.set_attribute((AId::X, s));
    e.set_attribute((s, s));
    let mut g = doc.create_element(EId::G);
    let (x, c) = (doc.create_node(NodeType::Text, s), doc.create_node(NodeType::Comment, s));
    e.append(x.clone());
    e.append(g.clone());
    g.append(c.clone());
    g.set_attribute((s, t.clone()));
    let mut uses = 1;
    if let Some(a) = AId::from_str(s) { g.set_attribute((a, t.clone())); e.set_attribute((a, (1.5, svgdom::LengthUnit::Mm))); uses += 1; }
    ctx.step(4);
    ctx.compared();
    ctx.outcome(hash_str(s));
    for src in [&e, &g, &x, &c] {
        let before: Vec<String> = e.descendants().map(|n| format!("{:?}", n)).collect();
        let f = doc.copy_node(src.clone());
        let d = doc.copy_node_deep(src.clone());
        let (l, r): (Vec<Node>, Vec<Node>) = (src.descendants().collect(), d.descendants().collect());
        if l.len() != r.len() { return Err(format!("{} nodes copied to {}", l.len(), r.len())); }
        for (p, q) in l.iter().zip(&r).chain([(src, &f)]) {
            if p == q || p.node_type() != q.node_type() || *p.tag_name() != *q.tag_name() || *p.text() != *q.text() || q.has_id() || q.is_detached() { return Err(format!("{:?} was copied as {:?}", p, q)); }
            if p.attributes().len() != q.attributes().len() { return Err(format!("{:?} was copied as {:?}", p, q)); }
            for a in p.attributes().iter() {
                let ok = q.attributes().get(a.name.as_ref()).map_or(false, |b| match (&a.value, &b.value) {
                    (AttributeValue::Link(x), AttributeValue::Link(y)) | (AttributeValue::FuncLink(x), AttributeValue::FuncLink(y)) => x == y,
                    (AttributeValue::Paint(x, f), AttributeValue::Paint(y, g)) => x == y && fb_eq(f, g),
                    (x, y) => plain_eq(x, y),
                });
                if !ok { return Err(format!("attribute {:?} was copied as {:?}", a, *q.attributes())); }
            }
        }
        let after: Vec<String> = e.descendants().map(|n| format!("{:?}", n)).collect();
        if before != after { return Err("the source changed".into()); }
        let want = if *src == e { 2 * uses - uses } else if *src == g { 2 * uses } else { 0 };
        let got = t.uses_count();
        doc.remove_node(d);
        doc.remove_node(f);
        if got != uses + want || t.uses_count() != uses { return Err(format!("the target had {} users with the copies of {}, and {} without", got, src, t.uses_count())); }
    }
    Ok(())
}

/// Attributes made from tuples, without any element.
fn conversions(i: usize, ctx: &mut Ctx) -> R {
    use svgdom::{Attribute, Length, LengthUnit, PaintFallback};
    let mut names: Vec<(Option<AId>, &str)> = crate::names::ATTRIBUTES.iter().map(|n| (AId::from_str(n), *n)).collect();
    for n in crate::names::ATTRIBUTES.iter().chain(["", "x1 ", "\u{e9}"].iter()) { names.push((None, n)); }
    let (id, name) = match names.get(i) { Some(x) => *x, None => return Ok(()) };
    ctx.compared();
    ctx.outcome(i as u64);
    let mut doc = Document::new();
    let t = doc.create_element(EId::G);
    let other = doc.create_element(EId::G);
    fn named(a: &Attribute, id: Option<AId>, name: &str) -> bool {
        a.name.as_ref() == match id { Some(id) => svgdom::AttributeQNameRef::from(id), None => svgdom::AttributeQNameRef::from(name) }
            && a.id() == id && a.is_svg() == id.is_some() && id.map_or(true, |x| a.has_id(x))
    }
    macro_rules! make { ($v:expr) => { match id { Some(id) => Attribute::from((id, $v)), None => Attribute::from((name, $v)) } } }
    let a = make!(t.clone());
    let ok = match (&a.value, id) {
        (AttributeValue::Link(n), Some(AId::Href)) => *n == t && *n != other,
        (AttributeValue::Paint(n, None), Some(AId::Fill)) | (AttributeValue::Paint(n, None), Some(AId::Stroke)) => *n == t,
        (AttributeValue::FuncLink(n), x) => *n == t && !matches!(x, Some(AId::Href) | Some(AId::Fill) | Some(AId::Stroke)),
        _ => false,
    };
    if !ok || !named(&a, id, name) { return Err(format!("{:?} from a name and a node", a)); }
    for k in 0..4 {
        let f = fallback_at(k);
        let a = make!((t.clone(), f));
        let ok = match &a.value { AttributeValue::Paint(n, g) => *n == t && fb_eq(g, &f), _ => false };
        if !ok || !named(&a, id, name) { return Err(format!("{:?} from a name, a node and {:?}", a, f)); }
        if let Some(f) = f {
            let a = make!(f);
            let ok = match (&a.value, f) { (AttributeValue::None, PaintFallback::None) | (AttributeValue::CurrentColor, PaintFallback::CurrentColor) => true, (AttributeValue::Color(x), PaintFallback::Color(y)) => *x == y, _ => false };
            if !ok || !named(&a, id, name) { return Err(format!("{:?} from a name and {:?}", a, f)); }
        }
    }
    for n in [0, 1, -1, 7, 255, 256, -32769, 65536, 16777217, std::i32::MAX, std::i32::MIN] {
        ctx.step(4);
        let a = make!(n);
        if !named(&a, id, name) || !plain_eq(&a.value, &AttributeValue::Number(n as f64)) { return Err(format!("{:?} from {}", a, n)); }
        let f = n as f64 / 8.0;
        let a = make!(f);
        if !named(&a, id, name) || !plain_eq(&a.value, &AttributeValue::Number(f)) { return Err(format!("{:?} from {}", a, f)); }
        for u in [LengthUnit::None, LengthUnit::Em, LengthUnit::Ex, LengthUnit::Px, LengthUnit::In, LengthUnit::Cm, LengthUnit::Mm, LengthUnit::Pt, LengthUnit::Pc, LengthUnit::Percent] {
            let a = make!((n, u));
            if !named(&a, id, name) || !plain_eq(&a.value, &AttributeValue::Length(Length::new(n as f64, u))) { return Err(format!("{:?} from {} {:?}", a, n, u)); }
            let a = make!((f, u));
            if !named(&a, id, name) || !plain_eq(&a.value, &AttributeValue::Length(Length::new(f, u))) { return Err(format!("{:?} from {} {:?}", a, f, u)); }
        }
    }
    for f in crate::values::HARD {
        ctx.step(11);
        let a = make!(f);
        if !named(&a, id, name) || !plain_eq(&a.value, &AttributeValue::Number(f)) { return Err(format!("{:?} from {}", a, f)); }
        for u in crate::values::UNITS {
            let a = make!((f, u));
            if !named(&a, id, name) || !plain_eq(&a.value, &AttributeValue::Length(Length::new(f, u))) { return Err(format!("{:?} from {} {:?}", a, f, u)); }
        }
    }
    for s in ["", "a", " b ", "none", "inherit", "currentColor", "red", "1", "#a", "\u{e9}\n"] {
        ctx.step(2);
        for a in [make!(s), make!(s.to_string())] {
            if !named(&a, id, name) || !plain_eq(&a.value, &AttributeValue::String(s.into())) { return Err(format!("{:?} from {:?}", a, s)); }
        }
    }
    for v in crate::values::samples() {
        ctx.step(1);
        for a in [make!(v.clone()), match id { Some(id) => Attribute::new(id, v.clone()), None => Attribute::new(name, v.clone()) }] {
            if !named(&a, id, name) || !plain_eq(&a.value, &v) { return Err(format!("{:?} from {:?}", a, v)); }
        }
    }
    Ok(())
}

/// Many values: set, read back, copied; then overwritten by the next one.
fn many_values(i: usize, ctx: &mut Ctx) -> R {
    thread_local!(static L: Vec<AttributeValue> = crate::values::exact());
    let (x, y) = L.with(|l| (l[i].clone(), l[(i * 7 + 5) % l.len()].clone()));
    let (x, y) = (&x, &y);
    let a = AId::from_str(crate::names::ATTRIBUTES[i % crate::names::ATTRIBUTES.len()]).ok_or("no name")?;
    let mut doc = Document::new();
    let mut e = doc.create_element(EId::Rect);
    e.set_attribute((a, x.clone()));
    e.set_attribute_if_none((a, y.clone()));
    e.set_attribute_if_none(("custom", x.clone()));
    ctx.step(6);
    ctx.compared();
    ctx.outcome(i as u64);
    let same = |e: &Node, x: &AttributeValue, y: &AttributeValue| e.attributes().len() == 2 && e.attributes().get_value(a).map_or(false, |v| plain_eq(v, x)) && e.attributes().get_value("custom").map_or(false, |v| plain_eq(v, y));
    if !same(&e, x, x) { return Err(format!("{:?} reads back as {:?}", x, *e.attributes())); }
    let (c, d) = (doc.copy_node(e.clone()), doc.copy_node_deep(e.clone()));
    if !same(&c, x, x) || !same(&d, x, x) { return Err(format!("{:?} was copied as {:?} and {:?}", x, *c.attributes(), *d.attributes())); }
    e.set_attribute((a, y.clone()));
    if !same(&e, y, x) || !same(&c, x, x) { return Err(format!("{:?} over {:?} reads back as {:?}", y, x, *e.attributes())); }
    *e.attributes_mut().get_value_mut("custom").ok_or("no value")? = y.clone();
    if !same(&e, y, y) || !same(&d, x, x) { return Err(format!("{:?} written over {:?} reads back as {:?}", y, x, *e.attributes())); }
    e.remove_attribute(a);
    if e.attributes().len() != 1 || e.has_attribute(a) { return Err("not removed".into()); }
    Ok(())
}

fn many_values_suite() -> Suite {
    Suite::new("many-values", "many values of every kind set, conditionally set, read, copied and overwritten", crate::values::exact().len() as u64, |i, ctx| many_values(i as usize, ctx), |i| format!("{:?}", crate::values::exact()[i as usize]))
}

fn conversion_suite() -> Suite {
    Suite::new("conversions", "attributes made of every name (SVG and the same as custom) and nodes, fallbacks, numbers, lengths, texts and every sample value", 2 * crate::names::ATTRIBUTES.len() as u64 + 3,
        |i, ctx| conversions(i as usize, ctx), |i| format!("name {}", i))
}
