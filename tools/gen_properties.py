#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Tree edits keep one consistent ordered tree",
 "After any sequence of append, prepend, insert_before, insert_after, detach and node removal (no node is inserted into its own subtree), parent, first/last child, previous/next sibling, children, has_children, has_parent and root() of every node describe exactly the ordered forest that those operations define. An edit moves the given node with its whole subtree to exactly the requested position, wherever it was before (including re-inserting it where it already is), changes the position of no other node, changes no node's own data, and does not panic.",
 ["histories"], "all operation histories over a document with several element, text and comment nodes, from every reachable tree shape",
 "tests/domapi.rs builds a handful of trees once; no test moves a node that is already attached, re-inserts a node next to itself, or looks at all the navigation links after a sequence of edits.",
 ["src/tree.rs", "src/node.rs", "src/document.rs"],
 [("Node::{append,prepend,insert_before,insert_after,detach} pointer surgery", "src/tree.rs"), ("NodeData::detach", "src/tree.rs"), ("root() walks the parents", "src/tree.rs"), ("has_parent ignores the root node", "src/node.rs")],
 ["Node::parent/first_child/last_child/previous_sibling/next_sibling/children/root/has_parent/has_children"],
 [("parent/first_child/last_child/previous_sibling/next_sibling", "the tree links of one node", "src/tree.rs NodeData")])

prop("C02", "Iterators visit exactly the right nodes, in order, from both ends",
 "For every tree and every node in it, ancestors, preceding_siblings, following_siblings, children, descendants and traverse started at this node yield exactly the nodes (for traverse: the start and end edges) of that axis, each once, in tree order, never leaving the subtree. For the double-ended ones (children, traverse) any interleaving of calls from the front and from the back yields the same sequence split in two, without repeating or losing an item, and once exhausted every further call returns nothing. The svg() filters over nodes and over attributes keep exactly the items with an SVG name, in order.",
 ["inputs", "histories"], "all ordered trees x all start nodes x all interleavings of next/next_back",
 "The tests only call descendants()/children() forwards on a few fixed documents; reverse or mixed iteration and iteration that starts at an inner node with following siblings is not tested.",
 ["src/tree.rs", "src/node.rs", "src/attributes.rs"],
 [("Children::finished/next/next_back", "src/tree.rs"), ("Traverse::finished/next/next_back", "src/tree.rs"), ("NodeEdge::next_item/previous_item", "src/tree.rs"), ("FilterSvg, FilterSvgAttrs", "src/node.rs, src/attributes.rs")],
 ["Node::ancestors/preceding_siblings/following_siblings/children/descendants/traverse"])

prop("C03", "Links are symmetric: attributes and linked_nodes always agree",
 "After any sequence of setting, overwriting, conditionally setting and removing attributes, of id changes and of node removals, the linked_nodes list of each node contains a node exactly as often as that node has attributes (SVG-named or custom-named) whose value links to the former, and is_used/uses_count follow from it. Setting a link to a node without id, to a node with the same id, or to a node that already links back is refused with the documented error and changes nothing at all. An accepted link is stored as a link for href, as a paint (with its fallback) for fill and stroke, and as a functional link for any other name.",
 ["histories"], "all attribute/id/removal histories over a small set of elements and attribute names",
 "tests/domapi.rs checks a few single links; overwriting a link by another link or by a value, several links between the same pair, links in custom attributes, and the state after a refused link are not tested.",
 ["src/node.rs", "src/document.rs"],
 [("set_attribute_checked_impl / set_link_attribute", "src/node.rs"), ("remove_attribute unlinks", "src/node.rs"), ("_remove unlinks both directions", "src/document.rs")],
 ["Node::linked_nodes/uses_count/is_used/attributes", "Result of set_attribute_checked"],
 [("linked_nodes", "nodes whose attributes link to this node", "src/lib.rs NodeData")])

prop("C04", "Removing a node leaves no trace of it in the document",
 "After remove_node(n) the node n and each of its descendants is out of the tree and out of the document (is_detached), the rest of the tree is unchanged and keeps its order, no attribute of a remaining node links to a removed node, no remaining node lists a removed node as linked, and all other attributes are untouched; nodes that were merely detach()ed still belong to the document. drain(root, f) does exactly that for each topmost node below root that satisfies f, never for root itself, does not look into what it removed, and returns how many nodes it removed that way.",
 ["histories", "inputs"], "all small trees x all link sets x all removed nodes / all predicates on nodes, repeated",
 "The tests remove single leaf nodes and drain one or two of them; nested matches, adjacent matches, links inside and across the removed subtree and counts are not covered.",
 ["src/document.rs", "src/node.rs"],
 [("remove_node/_remove", "src/document.rs"), ("drain/_drain", "src/document.rs"), ("is_detached/storage_key", "src/node.rs")],
 ["Document::remove_node, Document::drain, Node::is_detached"])

prop("C05", "Copies are faithful, complete and independent",
 "copy_node returns a new node without parent, siblings, children and id that has the type, tag name, text and all attributes of the source, links included (each linked target counts the copy as one more user); copy_node_deep returns such copies for the whole subtree in the same shape and order. The source, its subtree and the rest of the document are unchanged by copying, and later changes of the copy are not visible in the source, nor the reverse.",
 ["inputs", "histories"], "all small trees with attributes and links x all copied nodes x a following mutation of either side",
 "Two tests copy one fixed tree each and compare the serialisation only; independence, links and text/comment children are not tested.",
 ["src/document.rs"],
 [("copy_node/copy_node_deep/_make_deep_copy", "src/document.rs"), ("create_element/create_node", "src/document.rs")],
 ["Document::copy_node, Document::copy_node_deep"])

prop("C06", "A document frees its nodes; handles that outlive it stay safe",
 "When a document and all handles to its nodes are dropped, all the memory it allocated is freed, whatever tree edits, links, removals, copies, parses and writes happened before (links and parent/child/sibling references never keep each other alive). A node handle that is kept after the document was dropped stays usable for reading, printing and navigation without panicking; it is then outside of any tree, has no linked nodes and no attribute that links to a node, and, unless it was removed from the document before, no attributes at all.",
 ["histories"], "all histories of edits, links, removals, copies and drops, with every subset of handles kept",
 "Leaks are invisible to assertions in tests; no test drops a document while a handle is alive.",
 ["src/document.rs", "src/tree.rs", "src/node.rs"],
 [("Drop for Document breaks reference cycles", "src/document.rs"), ("weak parent/previous/last references", "src/tree.rs"), ("_remove unlinks before dropping", "src/document.rs")],
 ["allocated bytes after drop", "all Node accessors after drop"])

prop("C07", "The attribute list is a map from names to the last value set",
 "A node has at most one attribute per name, an SVG name and a custom name never being mixed up, and its value is the last one set; set_attribute_if_none sets a value only when there is none with that name, and remove_attribute removes exactly that name. has_attribute, get, get_mut, get_value, get_value_mut, contains, len, is_empty, iter and iter_mut all describe that same map, and values, ids, tag names and texts read back are the ones written.",
 ["histories"], "all histories of set/set_if_none/remove over several names and values, and lists of up to 64 attributes",
 "Tests set one or two attributes on a node; overwriting, removal in the middle, and the agreement of the accessors are hardly touched.",
 ["src/attributes.rs", "src/node.rs", "src/attribute.rs", "src/name.rs"],
 [("Attributes::insert/remove/get*/contains", "src/attributes.rs"), ("set_simple_attribute/remove_attribute/set_attribute_if_none", "src/node.rs"), ("QName comparison", "src/name.rs")],
 ["Node::attributes, Node::has_attribute, Node::id/tag_name/text"])

prop("C08", "Parsing never panics or hangs and accepts exactly SVG documents",
 "For any input text, Document::from_str returns (no panic, no endless loop); ill-formed XML gives an error, and a well-formed document gives Ok exactly when the first top-level element that is a known element of the SVG namespace exists and is an svg element. Invalid attribute values, invalid paths, invalid CSS and unresolved or recursive references never make parsing fail. Any document that was accepted can be written, with any options, without a panic.",
 ["inputs"], "all token sequences, attribute value strings and CSS strings over small alphabets up to a length, and scaled inputs",
 "Tests parse about a hundred fixed well-behaved inputs.",
 ["src/parser/mod.rs", "src/parser/text.rs", "src/document.rs", "src/writer.rs", "src/error.rs"],
 [("parse_svg and the svg-element checks", "src/parser/mod.rs"), ("invalid values are skipped with a warning", "src/parser/mod.rs parse_svg_attribute_value"), ("resolve_links handles each error", "src/parser/mod.rs")],
 ["Document::from_str result"])

prop("C09", "The parsed tree mirrors the SVG part of the source document",
 "The elements of the parsed document are exactly the source elements that have an SVG 1.1 name in the SVG namespace (with any prefix) and whose ancestors are all such elements, except for style elements; with comments and (after whitespace processing) text they keep the nesting and order of the source, whatever the prefixes, entities, CDATA sections and processing instructions in between. Each element has the id and the SVG attributes of its source element that have no namespace or the SVG, XLink or XML namespace, with unknown names and foreign namespaces left out, class and style consumed, and nothing added.",
 ["inputs"], "all small XML trees over element kinds x namespace spellings x child kinds, and all SVG element and attribute names in each namespace spelling",
 "tests/parser.rs has about ten structure tests; combinations of namespaces, unknown ancestors, comments and nested content are not enumerated.",
 ["src/parser/mod.rs", "src/names.rs"],
 [("process_node", "src/parser/mod.rs"), ("namespace filters", "src/parser/mod.rs process_node"), ("drain of style elements", "src/parser/mod.rs parse_svg")],
 ["tree and attributes after Document::from_str"])

prop("C10", "Attributes, style sheets and style attributes cascade correctly",
 "For each element and property the resulting attribute is the one given by the declaration that wins: presentation attribute < matching style sheet rules ordered by specificity and then by source order (over all text/css style elements of the document) < style attribute, the last valid declaration of a block winning; this also holds when values are links, transforms or the marker shorthand, which in CSS stands for marker-start, marker-mid and marker-end. Only presentation attributes and transform can be set by CSS, invalid values are ignored as if absent, and a rule applies exactly to the elements its selector (universal, type, class, id, attribute operators, :first-child, descendant, child and adjacent combinators, groups) matches.",
 ["inputs"], "all combinations of up to three sources x value kinds x properties; all selectors of the supported grammar up to two compounds on a reference tree; all orders of rules",
 "tests/css.rs has some 20 fixed documents and checks one winner in each.",
 ["src/parser/mod.rs"],
 [("order of attributes, rules, style attribute", "src/parser/mod.rs process_node"), ("Links::append/remove", "src/parser/mod.rs"), ("XmlNode: simplecss::Element", "src/parser/mod.rs"), ("parse_css_attribute_value", "src/parser/mod.rs"), ("resolve_css", "src/parser/mod.rs")],
 ["attributes after Document::from_str"])

prop("C11", "References become links to the right element or the right fallback",
 "After parsing, each attribute with a local reference (#id for href, url(#id) for paints and functional links) whose id exists in the document is a link to the first element in document order with that id, wherever it stands (before, after, inside or around the user), keeping the paint fallback, and that element lists the user. A reference to a missing id becomes its fallback, or else none for fill, and otherwise the unchanged text; a reference to itself, or one that would close a loop of two elements whose other half was linked before, is dropped; a reference that is not local stays a text.",
 ["inputs"], "all small documents over ids, referencing attributes, positions, fallbacks and reference graphs",
 "Tests have one or two documents per kind of link; graphs with several links, duplicates, forward and backward references are not enumerated.",
 ["src/parser/mod.rs", "src/node.rs"],
 [("Links list and resolve_links", "src/parser/mod.rs"), ("set_link_attribute crosslink checks", "src/node.rs")],
 ["attribute values and linked_nodes after Document::from_str"])

prop("C12", "White space in text is processed as xml:space demands",
 "In text under xml:space default each run of white space, also one that spans child elements, ends up as one space, white space at the beginning and the end of the text element is gone, and under preserve each tab or line break becomes one space and nothing else changes; the value that counts is that of the closest ancestor that has xml:space. No other character is lost, added or reordered, no text moves to another element, text nodes that became empty are not in the tree, and no attribute (xml:space in particular) is added or removed by this.",
 ["inputs"], "all text trees up to a size with all white space patterns and xml:space placements, including multi-byte characters",
 "tests/text.rs has about 30 fixed examples; leading elements, comments, two-node texts and nested xml:space were not covered (and were wrong).",
 ["src/parser/text.rs", "src/parser/mod.rs"],
 [("trim", "src/parser/text.rs"), ("prepare_text_children pair processing", "src/parser/text.rs"), ("get_xmlspace/set_xmlspace temporary marks", "src/parser/text.rs"), ("white space text kept only in text elements", "src/parser/mod.rs")],
 ["text nodes and attributes after Document::from_str"])

prop("C13", "Writing and parsing again gives the same document",
 "For every document obtained by parsing, parsing what it writes, with any write options, gives the same tree: the same elements in the same order with the same ids, the same attributes with equal values (numbers to the precision svgtypes writes), links to the corresponding elements, the same text (adjacent text nodes counting as one) and the same comments. Writing that again with the same options gives the same characters, and different options never change anything but the spelling. Only the white space of text outside text elements may change.",
 ["inputs", "configurations"], "all small documents over elements, all attributes and value kinds, links, text and comments x all write option combinations",
 "The resave tests compare one fixed input with one fixed output under one or two option sets and never parse the output again.",
 ["src/writer.rs", "src/parser/mod.rs", "src/parser/text.rs", "src/attribute_value.rs"],
 [("write_dom/write_attributes", "src/writer.rs"), ("AttributeValue: WriteBuffer", "src/attribute_value.rs"), ("write_escaped, write_escaped_attribute", "src/writer.rs")],
 ["Document::to_string_with_opt, Document::from_str"])

prop("C14", "The written text is well-formed, complete and laid out as documented",
 "For every document built with the API the output is well-formed XML that contains exactly its nodes and attributes: elements nested and ordered as in the tree, id first, then the SVG attributes in their fixed order, then custom attributes in order of insertion, with xlink:href and xml:space prefixed and special characters escaped so that a parser reads the original value back. A top-level svg element, and no other element, declares the SVG namespace and also the XLink namespace exactly when it or a descendant has an href. Quotes, node indentation, attribute indentation and value options do exactly what their documentation says and content of text elements is never indented.",
 ["inputs", "configurations"], "all small DOM trees built by API calls x all option combinations; all attribute value kinds x value options",
 "tests/writer.rs has some 25 fixed documents, mostly with the default options.",
 ["src/writer.rs", "src/attribute_value.rs", "src/name.rs"],
 [("write_dom, write_attributes", "src/writer.rs"), ("xlink_needed", "src/writer.rs"), ("WriteOptions defaults", "src/writer.rs"), ("WriteBuffer for AttributeValue", "src/attribute_value.rs")],
 ["Document::to_string, Document::to_string_with_opt"])

prop("C15", "SVG names and their identifiers map one to one",
 "Every SVG 1.1 element name and attribute name has exactly one identifier, from_str and as_str are inverse to each other for all of them, distinct names have distinct identifiers, and every other string (differing by case, a prefix, a suffix, a white space or one letter) has none. Display and Debug of an identifier print its name and the order of attribute identifiers is the alphabetical one that the writer uses.",
 ["inputs"], "all SVG element and attribute names, all single-edit neighbours of them, all short strings",
 "No test looks up more than a few dozen names; the tables are perfect hash tables where one wrong entry affects one name only.",
 ["src/names.rs", "src/name.rs"],
 [("perfect hash maps ELEMENTS and ATTRIBUTES", "src/names.rs"), ("from_str/as_str", "src/names.rs")],
 ["ElementId::from_str/as_str, AttributeId::from_str/as_str"])

prop("C16", "Element and attribute categories and defaults follow the SVG spec",
 "For each of the SVG elements and attributes the category predicates (referenced, shape, container, text content, graphic, gradient, paint server, filter primitive; presentation, inheritable, event, conditional processing, core, fill, stroke attributes) are true exactly for the members documented in the SVG 1.1 specification, false for non-elements and custom names, and the default value of an attribute is the initial value of the specification where one is known. The type predicates of attribute values are true for exactly their own kind.",
 ["inputs"], "all elements x all predicates, all attributes x all predicates and defaults, all value kinds x all type predicates",
 "No test covers the predicates beyond three examples in the docs.",
 ["src/attribute_type.rs", "src/element_type.rs", "src/attribute_value.rs", "src/attribute.rs"],
 [("ElementType for Node", "src/element_type.rs"), ("AttributeType for AttributeId/Attribute", "src/attribute_type.rs"), ("default_value", "src/attribute_value.rs")],
 ["predicates, AttributeValue::default_value, Attribute::new_default"])

prop("C17", "Attribute values are parsed into the right type or ignored",
 "For every element and SVG attribute the value string, with surrounding white space removed (except for unicode), becomes the typed value that SVG 1.1 gives it (length, length list, number, number list, color, paint, path, points, transform, view box, aspect ratio, angle, keyword, text), with inherit, none and currentColor recognised exactly where they are allowed and opacities and k1-k4 clamped to [0, 1]. A value that is not valid for its attribute leaves the attribute unset and affects nothing else; a path keeps its valid beginning, and empty lists, empty paths and identity transforms are not stored.",
 ["inputs"], "all SVG attributes x all elements that change the meaning x all values of a catalogue of valid, borderline and invalid spellings per type, and all short strings over the value alphabets",
 "tests/parser.rs covers some 30 attribute/value pairs out of thousands.",
 ["src/parser/mod.rs"],
 [("_parse_svg_attribute_value", "src/parser/mod.rs"), ("parse_number, f64_bound", "src/parser/mod.rs"), ("parse_svg_attribute_value drops empty values", "src/parser/mod.rs")],
 ["attribute values after Document::from_str"])

prop("C18", "Formatting a node, attribute or value is total and shows its content",
 "Display and Debug of any node, attribute list, attribute, name and value terminate without a panic, also for cyclic link graphs, removed nodes and nodes without document, and print exactly the documented one-line form: tag, id, attributes in order with their values, for Debug also the ids of the linked nodes, or the text of text and comment nodes. Printing changes nothing.",
 ["inputs", "histories"], "all small nodes over type, tag kind, id, attribute lists and link graphs",
 "tests/debug.rs formats five fixed nodes.",
 ["src/writer.rs", "src/attributes.rs", "src/attribute.rs", "src/attribute_value.rs", "src/name.rs", "src/tree.rs"],
 [("Debug/Display for NodeData, write_element_content", "src/writer.rs"), ("Display for Attributes/Attribute/AttributeValue/QName", "src/attributes.rs, src/attribute.rs, src/attribute_value.rs, src/name.rs")],
 ["format!(\"{}\"), format!(\"{:?}\")"])

prop("C19", "Documents are independent and results depend on the input only",
 "What a document contains, and what parsing, writing, copying or removing does, depends on that document and the arguments only: not on documents that were parsed, changed, written or dropped before or that live at the same time, nor on what other threads do with their own documents. Parsing the same text again gives an equal document and writing a document twice gives the same text and does not change the document.",
 ["histories", "schedules"], "all sequences of parse/edit/write/drop over several documents, and the same on several threads at once",
 "Each test uses one document in one thread and never compares two runs.",
 ["src/document.rs", "src/parser/mod.rs", "src/writer.rs", "src/tree.rs"],
 [("no global state; all state owned by Document and its nodes", "src/document.rs, src/tree.rs")],
 ["Document::from_str, Document::to_string_with_opt over several documents"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
