B = "exhaustive bounded exploration of "
T = " Bounds per suite are in the evidence file; beyond them nothing is claimed. Trusted: the reference model in mc/src."
CLAIMS = {
 "C01": (B + "tree-edit histories of the real crate in lockstep with a reference model",
         "Every operation history up to the bound from every reachable tree shape is executed on the real code and the complete observable state is compared with the model after each step." + T),
 "C02": (B + "all trees, start nodes and next/next_back interleavings on the real crate",
         "Every ordered tree up to the bound, every start node, every front/back interleaving." + T),
 "C03": (B + "attribute/link/id/removal histories in lockstep with a reference model",
         "Every history up to the bound; links, linked_nodes and the refused operations are compared with the model after each step." + T),
 "C04": (B + "trees x link sets x removed nodes or drain predicates, in lockstep with a reference model",
         "Every tree, link set and removed node / predicate up to the bound." + T),
 "C05": (B + "trees x copied nodes x following mutations, in lockstep with a reference model",
         "Every tree, copied node and following mutation up to the bound." + T),
 "C06": (B + "edit/link/drop histories and kept-handle subsets under a counting allocator",
         "Every history and kept-handle subset up to the bound; live bytes are compared exactly, accessors of kept handles are all called." + T),
 "C07": (B + "attribute set/set_if_none/remove histories in lockstep with a reference model",
         "Every history up to the bound, all accessors compared after each step." + T),
 "C12": (B + "text trees x white space patterns x xml:space placements, against a reference white space model",
         "Every text tree and pattern up to the bound is parsed by the real code and compared with the model." + T),
 "C08": (B + "token sequences, attribute strings, CSS strings and scaled inputs, verdicts and documents against a reference parser",
         "Every string of the stated token alphabets up to the bound is parsed (and, if accepted, written) by the real code under a hang watchdog." + T),
 "C09": (B + "XML trees, namespace spellings, names and child kinds, against a reference parser",
         "Every XML tree up to the bound and every SVG name in each namespace spelling." + T),
 "C10": (B + "declaration sources, selectors, rule orders and value kinds, against an independent cascade and selector matcher",
         "Every combination of sources and every selector up to two compounds on every element of a reference tree." + T),
 "C11": (B + "reference graphs, positions, spellings and fallbacks, against a reference resolver",
         "Every reference graph up to the bound." + T),
 "C13": (B + "parse/write/parse/write cycles over all documents of the other suites and all write options",
         "Every document of the enumerated spaces is written and read back; the documents are compared node by node." + T),
 "C14": (B + "API-built trees, values and write options, against a reference serializer and an independent XML parser",
         "Every tree, value and option combination up to the bound; exact text and what a parser reads are compared." + T),
 "C15": (B + "all SVG names, their one-edit neighbours and all short strings, against the name lists of the specification",
         "The state space (all names) is finite and fully covered; non-names are covered up to the stated neighbourhood and length." + T),
 "C16": (B + "all elements, attributes and value kinds x all predicates and defaults, against tables of the specification",
         "The state space is finite and fully covered." + T),
 "C17": (B + "all attributes x elements x value spellings and all short value strings, against a reference value parser",
         "Every attribute with every spelling of a catalogue and every short string of the value alphabets." + T),
 "C18": (B + "API histories, names, values and strings, every node printed and compared with the documented form",
         "Every history up to the bound, every node printed before and after the document is dropped." + T),
 "C19": (B + "action sequences over several documents in one thread, and all interleavings of programs on controlled threads",
         "Every sequence of actions over two or three documents up to the bound, and every interleaving of programs at action granularity on real threads, compared with the model after each step." + T),
}
NOT_APPLICABLE = {}
NOTES = "Explicit-state / bounded-exhaustive model checking of the real crate against reference models (mc/). No hooks in /repo."
