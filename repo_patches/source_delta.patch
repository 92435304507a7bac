From c99db4a81943bc5a2a1a423976b274ceb5920229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:45 +0000
Subject: [PATCH 01/23] fix: do not panic when a node is re-inserted next to
 its current position

append, prepend, insert_before and insert_after borrowed self before
detaching the new node, so moving a node that already was an edge child
of self or adjoined self ended with a BorrowMutError.
---
 src/tree.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 4578bbb..05222ec 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,11 +238,14 @@ impl<T> Node<T> {
     pub fn append(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
 
+        // Must be done before borrowing `self`, because the new node
+        // can be an adjoining node or an edge child of `self` already.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
@@ -273,10 +276,13 @@ impl<T> Node<T> {
     pub fn prepend(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
 
+        // Must be done before borrowing `self`, because the new node
+        // can be an adjoining node or an edge child of `self` already.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
@@ -305,10 +311,13 @@ impl<T> Node<T> {
     pub fn insert_after(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
 
+        // Must be done before borrowing `self`, because the new node
+        // can be an adjoining node or an edge child of `self` already.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
@@ -345,11 +354,14 @@ impl<T> Node<T> {
     pub fn insert_before(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
 
+        // Must be done before borrowing `self`, because the new node
+        // can be an adjoining node or an edge child of `self` already.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
-- 
2.43.0


From 80ed21f84e6756ca407c9ec7411616260b43b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 02/23] fix: compute Node::root by walking up the tree

The cached root reference was set only on the inserted node itself, so it
was stale for the nodes of a subtree that was built before it was attached,
after detach() and after remove_node(), and made root() panic when a node
outlived its document.
---
 src/tree.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 05222ec..f22c099 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,6 @@ type WeakLink<T> = Weak<RefCell<NodeData<T>>>;
 pub struct Node<T>(Link<T>);
 
 struct NodeData<T> {
-    root: Option<WeakLink<T>>,
     parent: Option<WeakLink<T>>,
     first_child: Option<Link<T>>,
     last_child: Option<WeakLink<T>>,
@@ -76,7 +75,6 @@ impl<T> Node<T> {
     /// Creates a new node from its associated data.
     pub(crate) fn new(data: T) -> Node<T> {
         Node(Rc::new(RefCell::new(NodeData {
-            root: None,
             parent: None,
             first_child: None,
             last_child: None,
@@ -94,10 +92,12 @@ impl<T> Node<T> {
     ///
     /// Panics if the node is currently mutably borrowed.
     pub fn root(&self) -> Node<T> {
-        match self.0.borrow().root.as_ref() {
-            Some(v) => Node(v.upgrade().unwrap()),
-            None => self.clone(),
+        let mut node = self.clone();
+        while let Some(parent) = node.parent() {
+            node = parent;
         }
+
+        node
     }
 
     /// Returns a parent node, unless this node is the root of the tree.
@@ -246,7 +246,6 @@ impl<T> Node<T> {
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -283,7 +282,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -318,7 +316,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -362,7 +359,6 @@ impl<T> Node<T> {
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From 4efad8b22bdc3c58e8ad48351d8f19da8a6f2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:04 +0000
Subject: [PATCH 03/23] fix: unlink links stored in non-SVG attributes on node
 removal

remove_node looked only at attributes with an SVG name, so a link stored in
a custom attribute kept pointing to the removed node (or kept the removed
node in linked_nodes).
---
 src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0465e58..12aab2b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -12,7 +12,6 @@ use crate::{
     AttributeValue,
     ElementId,
     FilterSvg,
-    FilterSvgAttrs,
     Node,
     NodeData,
     NodeType,
@@ -240,7 +239,7 @@ impl Document {
     fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
-        for (_, attr) in node.attributes().iter().svg() {
+        for attr in node.attributes().iter() {
             match attr.value {
                   AttributeValue::Link(_)
                 | AttributeValue::FuncLink(_)
@@ -260,7 +259,7 @@ impl Document {
         for mut linked in linked_nodes {
             ids.clear();
 
-            for (_, attr) in linked.attributes().iter().svg() {
+            for attr in linked.attributes().iter() {
                 match attr.value {
                       AttributeValue::Link(ref link)
                     | AttributeValue::FuncLink(ref link)
-- 
2.43.0


From d4c8827a98322cba4e7fcac03a18906f776c539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:28 +0000
Subject: [PATCH 04/23] fix: do not let an overridden link win over a following
 declaration

Links are resolved after the whole document was parsed, so a 'fill' set to
a FuncIRI by an attribute or by a CSS rule overwrote the value that was set
by a declaration with a higher priority.
---
 src/parser/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b218a6a..1db3afe 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -34,6 +34,7 @@ impl Links {
         fallback: Option<PaintFallback>,
         node: &Node,
     ) {
+        self.remove(id, node);
         self.list.push(Link {
             attr_id: id,
             iri: iri.to_string(),
@@ -41,6 +42,18 @@ impl Links {
             node: node.clone(),
         });
     }
+
+    /// Removes a link that was overridden by a following declaration.
+    fn remove(&mut self, id: AttributeId, node: &Node) {
+        // Links of the node that is being parsed are always at the end of the list.
+        let idx = self.list.iter().rev()
+            .take_while(|link| link.node == *node)
+            .position(|link| link.attr_id == id);
+
+        if let Some(idx) = idx {
+            self.list.remove(self.list.len() - 1 - idx);
+        }
+    }
 }
 
 pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
@@ -218,7 +231,10 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
-                    _ => node.set_attribute((id, av)),
+                    _ => {
+                        links.remove(id, node);
+                        node.set_attribute((id, av));
+                    }
                 }
             }
         }
-- 
2.43.0


From a15c0659917bb6574944576af23a0c6d322858ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:31 +0000
Subject: [PATCH 05/23] fix: let an identity transform override a previous
 declaration

An identity transform is not stored, but a style that resets 'transform'
left the value of the overridden attribute in place.
---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db3afe..f7cd123 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -525,6 +525,8 @@ fn _parse_svg_attribute_value<'a>(
             if !ts.is_default() {
                 AttributeValue::Transform(Transform::from_str(value)?)
             } else {
+                // An identity transform still overrides a previously set one.
+                node.remove_attribute(aid);
                 return Ok(None);
             }
         }
-- 
2.43.0


From c9c6262ba3f48f1c7134887fd21b236aa9ac2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:33 +0000
Subject: [PATCH 06/23] fix: do not link nodes that were removed during parsing

A universal selector also matches the 'style' element itself. It is removed
before the links are resolved and must not become a linked node.
---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f7cd123..f0316de 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -681,6 +681,11 @@ fn parse_style_attribute(
 
 fn resolve_links(doc: &Document, links: &mut Links) {
     for d in &mut links.list {
+        // Skip nodes that were already removed, like the `style` element.
+        if d.node.is_detached() {
+            continue;
+        }
+
         match doc.root().descendants().find(|n| *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
-- 
2.43.0


From 7745fd940af9ee806186518f5666332b0a7c0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:35 +0000
Subject: [PATCH 07/23] fix: treat an empty IRI as unresolved

An empty IRI was 'resolved' to the first node without an ID, which dropped
the attribute together with its fallback.
---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f0316de..4209850 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -686,7 +686,7 @@ fn resolve_links(doc: &Document, links: &mut Links) {
             continue;
         }
 
-        match doc.root().descendants().find(|n| *n.id() == d.iri) {
+        match doc.root().descendants().find(|n| n.has_id() && *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
                     d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))
-- 
2.43.0


From ac022fa00464888704ce95ddf9d38f05a1b223f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:00 +0000
Subject: [PATCH 08/23] fix: expand the 'marker' shorthand of a style attribute

The shorthand cannot be used as a presentation attribute, so a declaration
from a style attribute has to be converted like the one from a style sheet.
---
 src/parser/mod.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4209850..55388d6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -138,8 +138,7 @@ fn process_node(
             }
 
             if let Some(attr) = xml_node.attribute_node("style") {
-                parse_style_attribute(&ro_doc, attr.value(), attr.value_range().start,
-                                      &mut e, links)?;
+                parse_style_attribute(&ro_doc, attr.value(), &mut e, links)?;
             }
 
             parent.append(e.clone());
@@ -662,18 +661,11 @@ fn parse_number(value: &str) -> Result<f64, svgtypes::Error> {
 fn parse_style_attribute(
     ro_doc: &roxmltree::Document,
     value: &str,
-    value_pos: usize,
     node: &mut Node,
     links: &mut Links,
 ) -> Result<(), ParserError> {
     for declaration in simplecss::DeclarationTokenizer::from(value) {
-        if let Some(id) = AttributeId::from_str(declaration.name) {
-            // Parse only the presentation attributes.
-            // `transform` isn't a presentation attribute, but should be parsed anyway.
-            if id.is_presentation() || id == AttributeId::Transform {
-                parse_svg_attribute_value(ro_doc, id, declaration.value, value_pos, node, links)?;
-            }
-        }
+        parse_css_attribute_value(ro_doc, declaration.name, declaration.value, node, links)?;
     }
 
     Ok(())
-- 
2.43.0


From 575f33f3d47f1a874ea2af6d5eaef3c6eebce718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:02 +0000
Subject: [PATCH 09/23] fix: trim the trailing space when there are only two
 text nodes

The trailing space of the last text node was kept when the leading space
of the first text node was removed in the same step.
---
 src/parser/text.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 03b9d52..114096c 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -220,10 +220,12 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
             {
                 // Remove leading space of the first text node.
                 node1.text_mut().remove_first();
-            } else if    is_last
-                      && c4 == Some(b' ')
-                      && !node2.text().is_empty()
-                      && xmlspace2 == XmlSpace::Default
+            }
+
+            if     is_last
+                && c4 == Some(b' ')
+                && !node2.text().is_empty()
+                && xmlspace2 == XmlSpace::Default
             {
                 // Remove trailing space of the last text node.
                 // Also check that 'text2' is not empty already.
-- 
2.43.0


From 8b79a25b91d15e20c279b9e4a2cf45c41a46a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 10/23] fix: process whitespaces of a text that does not start
 with a text node

The text of '<text><tspan>a</tspan>  b  </text>' was left as is.
---
 src/parser/text.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 114096c..b59032a 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -4,6 +4,7 @@ use crate::{
     AttributeId,
     AttributeValue,
     Document,
+    ElementType,
     Node,
 };
 
@@ -53,11 +54,15 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
     for mut node in parent.children().filter(|n| n.is_element()) {
         let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
 
-        if let Some(child) = node.first_child() {
-            if child.is_text() {
-                prepare_text_children(&node, nodes, xmlspace);
-                continue;
-            }
+        let has_text = match node.first_child() {
+            Some(ref child) if child.is_text() => true,
+            // A text content element can start with a child element or a comment too.
+            _ => node.is_text_content() && node.children().any(|n| n.is_text()),
+        };
+
+        if has_text {
+            prepare_text_children(&node, nodes, xmlspace);
+            continue;
         }
 
         _prepare_text(&node, nodes, xmlspace);
-- 
2.43.0


From 3ad39f90c496d29fec42d458947d0acb684511ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:15 +0000
Subject: [PATCH 11/23] fix: escape special characters in attribute values

Only quotes were escaped, so a value or an ID with '&' or '<' produced
an ill-formed XML and line breaks and tabs were lost.
---
 src/writer.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6d8f784..6581147 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -197,7 +197,7 @@ fn write_attributes(
     }
 
     if node.has_id() {
-        xml.write_attribute("id", &node.id())
+        xml.write_attribute_raw("id", |buf| write_escaped_attribute(&node.id(), buf));
     }
 
     let attrs = node.attributes();
@@ -224,14 +224,33 @@ fn write_attributes(
             }
 
         } else {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            let value = attr.value.with_write_opt(&opt.values).to_string();
+            xml.write_attribute_raw(name, |buf| write_escaped_attribute(&value, buf));
         }
     }
 
     // write non-SVG attributes
     for attr in attrs.iter() {
         if let QName::Name(ref name) = attr.name {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            let value = attr.value.with_write_opt(&opt.values).to_string();
+            xml.write_attribute_raw(name, |buf| write_escaped_attribute(&value, buf));
+        }
+    }
+}
+
+/// Escapes characters that cannot be a part of an attribute value.
+///
+/// Quotes are escaped by the `XmlWriter`.
+fn write_escaped_attribute(value: &str, out: &mut Vec<u8>) {
+    for b in value.bytes() {
+        match b {
+            b'&' => out.extend_from_slice(b"&amp;"),
+            b'<' => out.extend_from_slice(b"&lt;"),
+            // Otherwise will be normalized to a space during parsing.
+            b'\t' => out.extend_from_slice(b"&#x9;"),
+            b'\n' => out.extend_from_slice(b"&#xa;"),
+            b'\r' => out.extend_from_slice(b"&#xd;"),
+            _ => out.push(b),
         }
     }
 }
-- 
2.43.0


From c778269de09dad62ef868b45d65dd3b3d2e2e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:02 +0000
Subject: [PATCH 12/23] fix: do not trim a preserved trailing space

The trailing space of a text node with xml:space='preserve' was removed
when it was followed by a text node with spaces only.
---
 src/parser/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index b59032a..aea58e0 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -242,6 +242,7 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
                 && !node1.text().is_empty()
                 && node2.text().is_empty()
                 && node1.text().ends_with(' ')
+                && xmlspace1 == XmlSpace::Default
             {
                 node1.text_mut().remove_last();
             }
-- 
2.43.0


From de69949d13523a4c8fbc9af85500c3c6a50f94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:29 +0000
Subject: [PATCH 13/23] fix: inherit xml:space from the closest ancestor

A nested element without xml:space used the value of the text element
and not the one of its own parent.
---
 src/parser/text.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index aea58e0..fc1a76e 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -78,10 +78,15 @@ fn get_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, default: XmlSpace) -> Xm
         }
     }
 
-    // 'xml:space' is not set - set it manually.
-    set_xmlspace(node, nodes, default);
+    // 'xml:space' is not set - inherit it from the closest element that has it.
+    let xmlspace = match node.parent() {
+        Some(ref mut parent) if parent.is_element() => get_xmlspace(parent, nodes, default),
+        _ => default,
+    };
+
+    set_xmlspace(node, nodes, xmlspace);
 
-    default
+    xmlspace
 }
 
 fn set_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
-- 
2.43.0


From dd846041705de268e4ac37836789d7c405cf70e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:57 +0000
Subject: [PATCH 14/23] fix: collapse spaces across all text nodes of a text
 element

---
 src/parser/text.rs | 217 ++++++++++++---------------------------------
 1 file changed, 58 insertions(+), 159 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index fc1a76e..8db4056 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -54,17 +54,18 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
     for mut node in parent.children().filter(|n| n.is_element()) {
         let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
 
-        let has_text = match node.first_child() {
-            Some(ref child) if child.is_text() => true,
-            // A text content element can start with a child element or a comment too.
-            _ => node.is_text_content() && node.children().any(|n| n.is_text()),
-        };
-
-        if has_text {
+        // A text content element is processed with all its descendants.
+        if node.is_text_content() {
             prepare_text_children(&node, nodes, xmlspace);
             continue;
         }
 
+        if let Some(ref child) = node.first_child() {
+            if child.is_text() {
+                prepare_text_children(&node, nodes, xmlspace);
+            }
+        }
+
         _prepare_text(&node, nodes, xmlspace);
     }
 }
@@ -101,172 +102,70 @@ fn set_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
 }
 
 fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
-    // Trim all descendant text nodes.
-    for mut child in parent.descendants() {
-        if child.is_text() {
-            let child_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
-            let new_text = {
-                let text = child.text();
-                trim(text.as_ref(), child_xmlspace)
-            };
-            child.set_text(&new_text);
-        }
-    }
-
     let mut nodes = Vec::new();
-    collect_text(parent, 0, &mut nodes);
-
-    // `trim` method has already collapsed all spaces into a single one,
-    // so we have to check only for one leading or trailing space.
-
-    if nodes.len() == 1 {
-        // Process element with a single text node child.
-
-        let mut node = nodes[0].0.clone();
-
-        if xmlspace == XmlSpace::Default {
-            let mut text = node.text_mut();
-
-            match text.len() {
-                0 => {} // An empty string. Do nothing.
-                1 => {
-                    // If string has only one character and it's a space - clear this string.
-                    if text.as_bytes()[0] == b' ' {
-                        text.clear();
-                    }
-                }
-                _ => {
-                    // 'text' has at least 2 bytes, so indexing is safe.
-                    let c1 = text.as_bytes()[0];
-                    let c2 = text.as_bytes()[text.len() - 1];
-
-                    if c1 == b' ' {
-                        text.remove_first();
-                    }
-
-                    if c2 == b' ' {
-                        text.remove_last();
+    collect_text(parent, 0, parent.is_text_content(), &mut nodes);
+
+    // We manage all text nodes as a single text node
+    // and trying to remove duplicated spaces across nodes.
+    //
+    // For example    '<text>Text <tspan> text </tspan> text</text>'
+    // is the same is '<text>Text <tspan>text</tspan> text</text>'
+    //
+    // NOTE: xml:space processing is mostly an undefined behavior,
+    // because everyone do this differently.
+    // We mimic Chrome behavior.
+
+    // The last non-empty text node, it's depth and xml:space.
+    let mut last: Option<(Node, usize, XmlSpace)> = None;
+    for (mut node, depth) in nodes {
+        // Parent of the text node is always an element node and always exist,
+        // so unwrap is safe.
+        let space = get_xmlspace(&mut node.parent().unwrap(), marked_nodes, xmlspace);
+
+        // `trim` method collapses all spaces into a single one,
+        // so we have to check only for one leading or trailing space.
+        let new_text = trim(&node.text(), space);
+        node.set_text(&new_text);
+
+        if space == XmlSpace::Default && new_text.starts_with(' ') {
+            match last {
+                // Remove leading space of the first text node.
+                None => node.text_mut().remove_first(),
+                // Remove space from one of the text nodes if both nodes has bound spaces.
+                // From: '<text>Text <tspan> text</tspan></text>'
+                // To:   '<text>Text <tspan>text</tspan></text>'
+                //
+                // See text-tspan-02-b.svg for details.
+                Some((ref mut last, last_depth, last_space)) if last.text().ends_with(' ') => {
+                    if last_depth < depth || last_space == XmlSpace::Preserve {
+                        node.text_mut().remove_first();
+                    } else {
+                        last.text_mut().remove_last();
                     }
                 }
+                _ => {}
             }
-        } else {
-            // Do nothing when xml:space=preserve.
         }
-    } else if nodes.len() > 1 {
-        // Process element with many text node children.
-
-        // We manage all text nodes as a single text node
-        // and trying to remove duplicated spaces across nodes.
-        //
-        // For example    '<text>Text <tspan> text </tspan> text</text>'
-        // is the same is '<text>Text <tspan>text</tspan> text</text>'
-
-        let mut i = 0;
-        let len = nodes.len() - 1;
-        let mut last_non_empty: Option<Node> = None;
-        while i < len {
-            // Process pairs.
-            let (mut node1, depth1) = nodes[i].clone();
-            let (mut node2, depth2) = nodes[i + 1].clone();
-
-            if node1.text().is_empty() {
-                if let Some(ref n) = last_non_empty {
-                    node1 = n.clone();
-                }
-            }
-
-            // Parent of the text node is always an element node and always exist,
-            // so unwrap is safe.
-            let xmlspace1 = get_xmlspace(&mut node1.parent().unwrap(), marked_nodes, xmlspace);
-            let xmlspace2 = get_xmlspace(&mut node2.parent().unwrap(), marked_nodes, xmlspace);
-
-            // >text<..>text<
-            //  1  2    3  4
-            let (c1, c2, c3, c4) = {
-                let text1 = node1.text();
-                let text2 = node2.text();
-
-                let bytes1 = text1.as_bytes();
-                let bytes2 = text2.as_bytes();
-
-                let c1 = bytes1.first().cloned();
-                let c2 = bytes1.last().cloned();
-                let c3 = bytes2.first().cloned();
-                let c4 = bytes2.last().cloned();
-
-                (c1, c2, c3, c4)
-            };
-
-            // NOTE: xml:space processing is mostly an undefined behavior,
-            // because everyone do this differently.
-            // We mimic Chrome behavior.
-
-            // Remove space from the second text node if both nodes has bound spaces.
-            // From: '<text>Text <tspan> text</tspan></text>'
-            // To:   '<text>Text <tspan>text</tspan></text>'
-            //
-            // See text-tspan-02-b.svg for details.
-            if c2 == Some(b' ') && c2 == c3 {
-                if depth1 < depth2 {
-                    if xmlspace2 == XmlSpace::Default {
-                        node2.text_mut().remove_first();
-                    }
-                } else {
-                    if xmlspace1 == XmlSpace::Default && xmlspace2 == XmlSpace::Default {
-                        node1.text_mut().remove_last();
-                    } else if xmlspace1 == XmlSpace::Preserve && xmlspace2 == XmlSpace::Default {
-                        node2.text_mut().remove_first();
-                    }
-                }
-            }
 
-            let is_first = i == 0;
-            let is_last  = i == len - 1;
-
-            if     is_first
-                && c1 == Some(b' ')
-                && xmlspace1 == XmlSpace::Default
-                && !node1.text().is_empty()
-            {
-                // Remove leading space of the first text node.
-                node1.text_mut().remove_first();
-            }
-
-            if     is_last
-                && c4 == Some(b' ')
-                && !node2.text().is_empty()
-                && xmlspace2 == XmlSpace::Default
-            {
-                // Remove trailing space of the last text node.
-                // Also check that 'text2' is not empty already.
-                node2.text_mut().remove_last();
-            }
-
-            if     is_last
-                && c2 == Some(b' ')
-                && !node1.text().is_empty()
-                && node2.text().is_empty()
-                && node1.text().ends_with(' ')
-                && xmlspace1 == XmlSpace::Default
-            {
-                node1.text_mut().remove_last();
-            }
-
-            if !node1.text().trim().is_empty() {
-                last_non_empty = Some(node1.clone());
-            }
+        if !node.text().is_empty() {
+            last = Some((node, depth, space));
+        }
+    }
 
-            i += 1;
+    // Remove trailing space of the last text node.
+    if let Some((mut node, _, XmlSpace::Default)) = last {
+        if node.text().ends_with(' ') {
+            node.text_mut().remove_last();
         }
     }
 }
 
-fn collect_text(parent: &Node, depth: usize, nodes: &mut Vec<(Node, usize)>) {
+fn collect_text(parent: &Node, depth: usize, is_deep: bool, nodes: &mut Vec<(Node, usize)>) {
     for child in parent.children() {
         if child.is_text() {
             nodes.push((child.clone(), depth));
-        } else if child.is_element() {
-            collect_text(&child, depth + 1, nodes);
+        } else if is_deep && child.is_element() {
+            collect_text(&child, depth + 1, is_deep, nodes);
         }
     }
 }
-- 
2.43.0


From 4fc82e7081a076c7de773960655ec1542880b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:43 +0000
Subject: [PATCH 15/23] fix: keep white space inside all children of a text
 element

---
 src/parser/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 55388d6..9a54c76 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -152,17 +152,17 @@ fn process_node(
         roxmltree::NodeType::Text => {
             let text = xml_node.text().unwrap();
             if text.trim().is_empty() {
-                // Whitespaces inside text elements are important.
-                if let Some(id) = parent.tag_id() {
-                    match id {
-                          ElementId::Text
-                        | ElementId::Tspan
-                        | ElementId::Tref => {
-                            let n = doc.create_node(NodeType::Text, text);
-                            parent.append(n);
-                        }
-                        _ => {}
-                    }
+                // Whitespaces inside text elements and their children are important.
+                let is_text = parent.ancestors().any(|n| match n.tag_id() {
+                      Some(ElementId::Text)
+                    | Some(ElementId::Tspan)
+                    | Some(ElementId::Tref) => true,
+                    _ => false,
+                });
+
+                if is_text {
+                    let n = doc.create_node(NodeType::Text, text);
+                    parent.append(n);
                 }
             } else {
                 let n = doc.create_node(NodeType::Text, xml_node.text().unwrap());
-- 
2.43.0


From 7a41db78d8f23f44532153faba79d7644f8edb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 16/23] fix: do not indent content after a nested text element

---
 src/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6581147..59cf69a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -164,7 +164,10 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                 }
 
                 if node.has_tag_name(ElementId::Text) {
-                    xml.set_preserve_whitespaces(false);
+                    // `text` can be nested.
+                    let in_text = node.ancestors().skip(1)
+                        .any(|n| n.has_tag_name(ElementId::Text));
+                    xml.set_preserve_whitespaces(in_text);
                 }
             }
         }
-- 
2.43.0


From df8aac551cb2d961333837ef5321c40fc5540cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:23 +0000
Subject: [PATCH 17/23] fix: escape ampersands in text that would be parsed as
 a reference

---
 src/writer.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 59cf69a..03c2f40 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -154,7 +154,7 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                         xml.write_comment(&node.text());
                     }
                     NodeType::Text => {
-                        xml.write_text(&node.text());
+                        xml.write_text(&escape_references(&node.text()));
                     }
                 }
             }
@@ -258,6 +258,26 @@ fn write_escaped_attribute(value: &str, out: &mut Vec<u8>) {
     }
 }
 
+/// Escapes ampersands that would be parsed as a beginning of a reference.
+///
+/// `<` is escaped by the `XmlWriter`.
+fn escape_references(text: &str) -> String {
+    let mut out = String::with_capacity(text.len());
+    for (i, c) in text.char_indices() {
+        out.push(c);
+
+        if c == '&' {
+            let tail = &text[i + 1..];
+            let end = tail.find(|c: char| c == ';' || c == '&' || c.is_whitespace());
+            if end.map(|n| tail[n..].starts_with(';')) == Some(true) {
+                out.push_str("amp;");
+            }
+        }
+    }
+
+    out
+}
+
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-- 
2.43.0


From 0ccb9d7648a4f855124389f6249e8bec4ce12770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:24 +0000
Subject: [PATCH 18/23] fix: escape closing brackets sequence in text

---
 src/writer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 03c2f40..67fe033 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -154,7 +154,7 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                         xml.write_comment(&node.text());
                     }
                     NodeType::Text => {
-                        xml.write_text(&escape_references(&node.text()));
+                        xml.write_text(&escape_text(&node.text()));
                     }
                 }
             }
@@ -258,12 +258,18 @@ fn write_escaped_attribute(value: &str, out: &mut Vec<u8>) {
     }
 }
 
-/// Escapes ampersands that would be parsed as a beginning of a reference.
+/// Escapes ampersands that would be parsed as a beginning of a reference
+/// and `>` that would be parsed as an end of a section.
 ///
 /// `<` is escaped by the `XmlWriter`.
-fn escape_references(text: &str) -> String {
+fn escape_text(text: &str) -> String {
     let mut out = String::with_capacity(text.len());
     for (i, c) in text.char_indices() {
+        if c == '>' && out.ends_with(']') {
+            out.push_str("&gt;");
+            continue;
+        }
+
         out.push(c);
 
         if c == '&' {
-- 
2.43.0


From e4abf19fd791956472af4336694e92a25cffd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:56 +0000
Subject: [PATCH 19/23] fix: escape a unicode value that starts with a
 reference

---
 src/writer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 67fe033..52efc8e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -287,14 +287,10 @@ fn escape_text(text: &str) -> String {
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-    if unicode.starts_with("&#") {
-        out.extend_from_slice(unicode.as_bytes());
-    } else {
-        for c in unicode.chars() {
-            out.extend_from_slice(b"&#x");
-            write!(out, "{:x}", c as u32).unwrap();
-            out.push(b';');
-        }
+    for c in unicode.chars() {
+        out.extend_from_slice(b"&#x");
+        write!(out, "{:x}", c as u32).unwrap();
+        out.push(b';');
     }
 }
 
-- 
2.43.0


From df2831d13c8f17c4478653f23cc3ddfb0bd1fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:42 +0000
Subject: [PATCH 20/23] fix: do not overflow the stack while parsing deeply
 nested elements

The parser, the text processing and Document::drain were recursive, so
a document with about 1000 nested elements aborted the process in a debug build
with a 2 MiB stack (6000 in a release build).
---
 src/document.rs    | 29 ++++++++---------
 src/parser/mod.rs  | 36 +++++++++++++--------
 src/parser/text.rs | 81 ++++++++++++++++++++++++++--------------------
 3 files changed, 83 insertions(+), 63 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 12aab2b..520b8c0 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -303,27 +303,18 @@ impl Document {
         where P: Fn(&Node) -> bool
     {
         let mut count = 0;
-        self._drain(root, &f, &mut count);
-        count
-    }
-
-    fn _drain<P>(&mut self, parent: Node, f: &P, count: &mut usize)
-        where P: Fn(&Node) -> bool
-    {
-        let mut node = parent.first_child();
+        let mut node = root.first_child();
         while let Some(n) = node {
             if f(&n) {
-                node = n.next_sibling();
+                node = next_after(&n, &root);
                 self.remove_node(n);
-                *count += 1;
+                count += 1;
             } else {
-                if n.has_children() {
-                    self._drain(n.clone(), f, count);
-                }
-
-                node = n.next_sibling();
+                node = n.first_child().or_else(|| next_after(&n, &root));
             }
         }
+
+        count
     }
 
     /// Returns a copy of a current node without children.
@@ -367,6 +358,14 @@ impl Document {
     }
 }
 
+/// Returns a node that follows the `node` and its descendants inside the `root`.
+fn next_after(node: &Node, root: &Node) -> Option<Node> {
+    node.ancestors()
+        .take_while(|n| n != root)
+        .filter_map(|n| n.next_sibling())
+        .nth(0)
+}
+
 impl Drop for Document {
     fn drop(&mut self) {
         for (_, node) in self.storage.iter_mut() {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9a54c76..b25f400 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -63,12 +63,24 @@ pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
 
     let mut doc = Document::new();
     let root = doc.root();
-    let mut parent = root.clone();
 
     let style_sheet = resolve_css(&ro_doc);
 
-    for child in ro_doc.root().children() {
-        process_node(&ro_doc, child, &style_sheet, &mut links, &mut doc, &mut parent)?;
+    // We are not using a recursion here, because it will overflow the stack
+    // on a document with a lot of nested elements.
+    let mut stack = vec![(ro_doc.root().children(), root.clone())];
+    while let Some((children, parent)) = stack.last_mut() {
+        match children.next() {
+            Some(child) => {
+                let e = process_node(&ro_doc, child, &style_sheet, &mut links, &mut doc, parent)?;
+                if let Some(e) = e {
+                    stack.push((child.children(), e));
+                }
+            }
+            None => {
+                stack.pop();
+            }
+        }
     }
 
     // First element must be an 'svg' element.
@@ -87,6 +99,7 @@ pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
     Ok(doc)
 }
 
+/// Returns a new element, which children should be processed next.
 fn process_node(
     ro_doc: &roxmltree::Document,
     xml_node: roxmltree::Node,
@@ -94,11 +107,13 @@ fn process_node(
     links: &mut Links,
     doc: &mut Document,
     parent: &mut Node,
-) -> Result<(), ParserError> {
+) -> Result<Option<Node>, ParserError> {
+    let mut element = None;
+
     match xml_node.node_type() {
         roxmltree::NodeType::Element => {
             if xml_node.tag_name().namespace() != Some("http://www.w3.org/2000/svg") {
-                return Ok(());
+                return Ok(None);
             }
 
             let tag_name = xml_node.tag_name();
@@ -108,7 +123,7 @@ fn process_node(
                     doc.create_element(eid)
                 }
                 None => {
-                    return Ok(());
+                    return Ok(None);
                 }
             };
 
@@ -142,12 +157,7 @@ fn process_node(
             }
 
             parent.append(e.clone());
-
-            if xml_node.is_element() && xml_node.has_children() {
-                for child in xml_node.children() {
-                    process_node(ro_doc, child, style_sheet, links, doc, &mut e)?;
-                }
-            }
+            element = Some(e);
         }
         roxmltree::NodeType::Text => {
             let text = xml_node.text().unwrap();
@@ -187,7 +197,7 @@ fn process_node(
         }
     }
 
-    Ok(())
+    Ok(element)
 }
 
 fn parse_svg_attribute<'a>(
diff --git a/src/parser/text.rs b/src/parser/text.rs
index 8db4056..e1c4e90 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -6,6 +6,7 @@ use crate::{
     Document,
     ElementType,
     Node,
+    NodeEdge,
 };
 
 trait StrTrim {
@@ -39,7 +40,7 @@ pub fn prepare_text(doc: &mut Document) {
     // Remember nodes that have 'xml:space' changed.
     let mut nodes = Vec::new();
 
-    _prepare_text(&doc.root(), &mut nodes, XmlSpace::Default);
+    _prepare_text(doc.root(), &mut nodes);
 
     // Remove temporary 'xml:space' attributes created during the text processing.
     for mut node in nodes {
@@ -50,42 +51,45 @@ pub fn prepare_text(doc: &mut Document) {
     doc.drain(root, |n| n.is_text() && n.text().is_empty());
 }
 
-fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace) {
-    for mut node in parent.children().filter(|n| n.is_element()) {
-        let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
+fn _prepare_text(root: Node, nodes: &mut Vec<Node>) {
+    let mut parents = vec![(root, XmlSpace::Default)];
+    while let Some((parent, parent_xmlspace)) = parents.pop() {
+        for node in parent.children().filter(|n| n.is_element()) {
+            let xmlspace = get_xmlspace(&node, nodes, parent_xmlspace);
 
-        // A text content element is processed with all its descendants.
-        if node.is_text_content() {
-            prepare_text_children(&node, nodes, xmlspace);
-            continue;
-        }
-
-        if let Some(ref child) = node.first_child() {
-            if child.is_text() {
+            // A text content element is processed with all its descendants.
+            if node.is_text_content() {
                 prepare_text_children(&node, nodes, xmlspace);
+                continue;
+            }
+
+            if let Some(ref child) = node.first_child() {
+                if child.is_text() {
+                    prepare_text_children(&node, nodes, xmlspace);
+                }
             }
-        }
 
-        _prepare_text(&node, nodes, xmlspace);
+            parents.push((node, xmlspace));
+        }
     }
 }
 
-fn get_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, default: XmlSpace) -> XmlSpace {
-    {
-        let attrs = node.attributes();
-        let v = attrs.get_value(AttributeId::Space);
-        if let Some(&AttributeValue::String(ref s)) = v {
-            return if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default };
+fn get_xmlspace(node: &Node, nodes: &mut Vec<Node>, default: XmlSpace) -> XmlSpace {
+    // If 'xml:space' is not set - inherit it from the closest element that has it.
+    let mut xmlspace = default;
+    let mut unset_nodes = Vec::new();
+    for n in node.ancestors().take_while(|n| n.is_element()) {
+        if let Some(&AttributeValue::String(ref s)) = n.attributes().get_value(AttributeId::Space) {
+            xmlspace = if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default };
+            break;
         }
-    }
 
-    // 'xml:space' is not set - inherit it from the closest element that has it.
-    let xmlspace = match node.parent() {
-        Some(ref mut parent) if parent.is_element() => get_xmlspace(parent, nodes, default),
-        _ => default,
-    };
+        unset_nodes.push(n.clone());
+    }
 
-    set_xmlspace(node, nodes, xmlspace);
+    for mut n in unset_nodes {
+        set_xmlspace(&mut n, nodes, xmlspace);
+    }
 
     xmlspace
 }
@@ -103,7 +107,7 @@ fn set_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
 
 fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
     let mut nodes = Vec::new();
-    collect_text(parent, 0, parent.is_text_content(), &mut nodes);
+    collect_text(parent, parent.is_text_content(), &mut nodes);
 
     // We manage all text nodes as a single text node
     // and trying to remove duplicated spaces across nodes.
@@ -120,7 +124,7 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
     for (mut node, depth) in nodes {
         // Parent of the text node is always an element node and always exist,
         // so unwrap is safe.
-        let space = get_xmlspace(&mut node.parent().unwrap(), marked_nodes, xmlspace);
+        let space = get_xmlspace(&node.parent().unwrap(), marked_nodes, xmlspace);
 
         // `trim` method collapses all spaces into a single one,
         // so we have to check only for one leading or trailing space.
@@ -160,12 +164,19 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
     }
 }
 
-fn collect_text(parent: &Node, depth: usize, is_deep: bool, nodes: &mut Vec<(Node, usize)>) {
-    for child in parent.children() {
-        if child.is_text() {
-            nodes.push((child.clone(), depth));
-        } else if is_deep && child.is_element() {
-            collect_text(&child, depth + 1, is_deep, nodes);
+fn collect_text(parent: &Node, is_deep: bool, nodes: &mut Vec<(Node, usize)>) {
+    if !is_deep {
+        nodes.extend(parent.children().filter(|n| n.is_text()).map(|n| (n, 0)));
+        return;
+    }
+
+    let mut depth = 0;
+    for edge in parent.traverse() {
+        match edge {
+            NodeEdge::Start(ref node) if node.is_element() => depth += 1,
+            NodeEdge::End(ref node) if node.is_element() => depth -= 1,
+            NodeEdge::Start(ref node) if node.is_text() => nodes.push((node.clone(), depth)),
+            _ => {}
         }
     }
 }
-- 
2.43.0


From 66c06a2555337b81bc10ea0b91273068493f183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:42 +0000
Subject: [PATCH 21/23] fix: do not overflow the stack while removing or
 copying deeply nested nodes

---
 src/document.rs | 58 ++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 520b8c0..7a6a5cd 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -233,10 +233,27 @@ impl Document {
     /// ```
     pub fn remove_node(&mut self, node: Node) {
         let mut ids = Vec::with_capacity(16);
-        self._remove(node.clone(), &mut ids);
+
+        // Do not use a recursion here, because nodes can be nested very deep.
+        let nodes: Vec<_> = node.descendants().collect();
+        for node in &nodes {
+            self.unlink(node.clone(), &mut ids);
+        }
+
+        // From children to parents.
+        for mut node in nodes.into_iter().rev() {
+            node.detach();
+            let key = node.borrow_mut().storage_key.take();
+
+            if let Some(key) = key {
+                self.storage.remove(key);
+            } else {
+                warn!("Node was already removed.")
+            }
+        }
     }
 
-    fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
+    fn unlink(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
         for attr in node.attributes().iter() {
@@ -276,21 +293,6 @@ impl Document {
                 linked.remove_attribute(name.as_ref());
             }
         }
-
-
-        // repeat for children
-        for child in node.children() {
-            self._remove(child, ids);
-        }
-
-        node.detach();
-        let key = node.borrow_mut().storage_key.take();
-
-        if let Some(key) = key {
-            self.storage.remove(key);
-        } else {
-            warn!("Node was already removed.")
-        }
     }
 
     // TODO: maybe rename to retain to match Attributes::retain
@@ -341,20 +343,22 @@ impl Document {
     ///
     /// All attributes except `id` will be copied, because `id` must be unique.
     pub fn copy_node_deep(&mut self, node: Node) -> Node {
-        let mut root = self.copy_node(node.clone());
-        self._make_deep_copy(&mut root, &node);
-        root
-    }
+        let root = self.copy_node(node.clone());
 
-    fn _make_deep_copy(&mut self, parent: &mut Node, node: &Node) {
-        for child in node.children() {
-            let mut new_node = self.copy_node(child.clone());
-            parent.append(new_node.clone());
+        // Do not use a recursion here, because nodes can be nested very deep.
+        let mut parents = vec![(root.clone(), node)];
+        while let Some((mut parent, node)) = parents.pop() {
+            for child in node.children() {
+                let new_node = self.copy_node(child.clone());
+                parent.append(new_node.clone());
 
-            if child.has_children() {
-                self._make_deep_copy(&mut new_node, &child);
+                if child.has_children() {
+                    parents.push((new_node, child));
+                }
             }
         }
+
+        root
     }
 }
 
-- 
2.43.0


From c766aa2acd80adf2793dd4a3304e20c4f5ed1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:34 +0000
Subject: [PATCH 22/23] fix: do not keep white space at the end of a local
 reference

A reference such as '#a<tab> b' ended with the tab: written and parsed
again it was '#a', another reference.
---
 src/parser/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b25f400..488db12 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -322,13 +322,14 @@ fn _parse_svg_attribute_value<'a>(
 
     let av = match aid {
         AId::Href => {
-            match Stream::from(value).parse_iri() {
-                Ok(link) => {
+            // Only a space ends an ID, so it can end with other white spaces.
+            match Stream::from(value).parse_iri().map(str::trim_end) {
+                Ok(link) if !link.is_empty() => {
                     // Collect links for later processing.
                     links.append(aid, link, None, node);
                     return Ok(None);
                 }
-                Err(_) => {
+                _ => {
                     return Ok(Some(AttributeValue::String(value.to_string())));
                 }
             }
-- 
2.43.0


From 556d9ab0232695927b31786f7a5a375ae8f402e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:06 +0000
Subject: [PATCH 23/23] fix: do not ignore CSS after a comment in a style
 element

Only the first child of a style element was used, so rules after
a comment or a processing instruction were lost.
---
 src/parser/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 488db12..9008ed2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -64,7 +64,8 @@ pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
     let mut doc = Document::new();
     let root = doc.root();
 
-    let style_sheet = resolve_css(&ro_doc);
+    let styles = collect_css(&ro_doc);
+    let style_sheet = resolve_css(&styles);
 
     // We are not using a recursion here, because it will overflow the stack
     // on a document with a lot of nested elements.
@@ -767,8 +768,11 @@ impl simplecss::Element for XmlNode<'_, '_> {
     }
 }
 
-fn resolve_css<'a>(ro_doc: &'a roxmltree::Document<'a>) -> simplecss::StyleSheet<'a> {
-    let mut sheet = simplecss::StyleSheet::new();
+/// Returns a content of `style` elements.
+///
+/// Comments can split it into multiple text nodes.
+fn collect_css(ro_doc: &roxmltree::Document) -> Vec<String> {
+    let mut styles = Vec::new();
 
     for node in ro_doc.descendants().filter(|n| n.has_tag_name("style")) {
         match node.attribute("type") {
@@ -777,11 +781,16 @@ fn resolve_css<'a>(ro_doc: &'a roxmltree::Document<'a>) -> simplecss::StyleSheet
             None => {}
         }
 
-        let style = match node.text() {
-            Some(s) => s,
-            None => continue,
-        };
+        styles.push(node.children().filter(|n| n.is_text()).filter_map(|n| n.text()).collect());
+    }
+
+    styles
+}
+
+fn resolve_css(styles: &[String]) -> simplecss::StyleSheet {
+    let mut sheet = simplecss::StyleSheet::new();
 
+    for style in styles {
         sheet.parse_more(style);
     }
 
-- 
2.43.0

