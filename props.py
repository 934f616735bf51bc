"""What is claimed about each property, for MANIFEST.json and the evidence."""

MODEL = "the reference interpreter and the tree renderer in /verif/harness are right (they share no code with static-xml)"
XMLRS = "xml-rs 0.8.4 tokenizes the generated documents as the XML recommendation says"
GEN = "the derived types are those of gen/gentypes.py: a fixed set covering the feature combinations, and a seeded random set"
PARSER = "the strict namespace-aware parser in /verif/harness/src/xml.rs, written for this purpose, is right"

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop("C01", level="exploration", engine="memory",
     technique="sanitizers: the same reads under Miri (Stacked and Tree Borrows), AddressSanitizer and memcheck; canaries in field values and UTF-8 validation of every string natively",
     note="No undefined behaviour was reported in the observed executions: complete, failing and panicking reads of every generated type, and derived types whose fields are read by arbitrary safe code.",
     rule="random type and document; each parser and default value failing or panicking, defects, truncations, failing sources, mutated bytes; user-written deserialization with random behaviour; distinct: document bytes x type x injection",
     assumptions=[GEN, "Miri, AddressSanitizer and memcheck report the undefined behaviour that occurs in what they execute"])

prop("C03", level="exploration",
     technique="runtime monitoring: generated values through the real serializer and deserializer, equality monitor",
     note="Held on the generated values of the generated types under all four option combinations; values beyond the generator are not covered.",
     rule="random derived type, random value (by way of a random document), each option combination; distinct: the serialized bytes",
     assumptions=[GEN, MODEL])

prop("C04", level="exploration",
     technique="runtime monitoring: documents rendered with random prefix layouts, and near misses, against a reference interpreter",
     note="Held on the observed documents: the same tree under several prefix layouts, and with one name moved to a similar one.",
     rule="random type and document tree; several random prefix layouts each (rebinding, shadowing, default declarations), and single-name near misses; distinct: document bytes",
     assumptions=[GEN, MODEL, XMLRS])

prop("C05", level="exploration",
     technique="runtime monitoring: the value read with and without injected unclaimed content must be the same, against a reference interpreter",
     note="Held on the observed documents; unclaimed content is injected at every kind of place, nested content imitating claimed names included.",
     rule="random type and document; unclaimed attributes, elements, text, comments, instructions added at random places, children reordered; distinct: document bytes",
     assumptions=[GEN, MODEL, XMLRS])

prop("C06", level="exploration",
     technique="runtime monitoring: every field of every type with 0 to 4 occurrences, against a reference interpreter",
     note="Each field of each generated type was observed with each number of occurrences, in random surroundings.",
     rule="every (type, field, occurrences 0-4) in turn with random documents around it; distinct: document bytes",
     assumptions=[GEN, MODEL, XMLRS])

prop("C07", level="exploration",
     technique="runtime monitoring: types with flattened fields, interleaved content, against a reference interpreter for reading and writing",
     note="Held on the observed interleavings of own and flattened fields' content, to nesting depth 3, competing names included.",
     rule="random type with flattened fields, random interleaving of content; the value read, and the document written from it; distinct: document bytes",
     assumptions=[GEN, MODEL, XMLRS, PARSER])

prop("C08", level="exploration",
     technique="runtime monitoring: choice types with random child sequences, against a reference interpreter for reading and writing",
     note="Held on the observed sequences of alternatives' elements, by themselves and flattened.",
     rule="random choice type and random sequence of children (same, other, skipped, unknown names); the value read, and the document written from it; distinct: document bytes",
     assumptions=[GEN, MODEL, XMLRS, PARSER])

prop("C09", level="exploration",
     technique="runtime monitoring: text split into pieces in random ways must reach a recording text type verbatim",
     note="Held on the observed texts and splittings. Line ends aren't normalized by xml-rs, which isn't held against static-xml.",
     rule="random text (white space only, markup characters, all of Unicode) split into plain text, CDATA, references, comments, instructions; distinct: document bytes",
     assumptions=[GEN, MODEL, XMLRS])

prop("C10", level="exploration",
     technique="runtime monitoring: an independent strict XML parser reads the output back; its tree is compared to what the type describes",
     note="Held on the generated values of the generated types, all option combinations, with every kind of text; unrepresentable text must be refused.",
     rule="random type and value, text replaced by hostile text; all option combinations; distinct: output bytes",
     assumptions=[GEN, MODEL, PARSER])

prop("C11", level="exploration",
     technique="runtime monitoring: random programs of serializer calls; an independent parser resolves every name in the output",
     note="Held on the generated programs: conflicting, repeated, inherited, overridden and default prefixes up to depth 6.",
     rule="random tree of namespace/attribute/child/text calls by hand-written and derived serializers; distinct: output bytes",
     assumptions=[PARSER])

prop("C12", level="fault_enumeration",
     technique="runtime monitoring with fault injection: a writer failing at each byte, elements abandoned at each place",
     note="Every byte position of each generated document was tried as point of failure; places of abandonment are sampled.",
     rule="random program or value; a failing writer at every byte offset of its output (all failure kinds), an abandonment or refusal at a random place, short and interrupted writers; distinct: (output, fault)",
     assumptions=[GEN, MODEL])

prop("C18", level="exploration",
     technique="runtime monitoring: exhaustive short strings and random long ones against the XML Schema definition",
     note="All strings up to length 6 over an alphabet of white space, look-alikes and multi-byte characters, and random ones.",
     rule="all strings up to a length over a 7 character alphabet, then random strings; three modes each; distinct: the string",
     assumptions=["normalize_ref in /verif/harness/src/model.rs restates XML Schema part 1"])

prop("C19", level="exploration",
     technique="runtime monitoring: texts for every text type against reference parsers, and printing back",
     note="Held on the observed texts: boundaries of each number type, look-alikes, padding, random.",
     rule="each text type with valid, padded, mutated and random texts; distinct: (type, text)",
     assumptions=["the reference parsers in /verif/harness/src/model.rs; floating point syntax is what Rust's FromStr takes"])

prop("C21", level="fault_enumeration",
     technique="runtime monitoring: offline checker over the recorded log of serialization callbacks, with an error injected into each callback",
     note="For each generated value the whole log was compared, then again with each callback failing, and with failing writers.",
     rule="random values of types that log their callbacks, under derived parents (attributes, elements, flattened, choices); distinct: (expected log, failing callback)",
     assumptions=[])

prop("C02", level="fault_enumeration",
     technique="runtime monitoring with fault injection: a registry of live field values, errors, panics, cut-off input at each place, allocation counting",
     note="Each tracked value of the sampled documents was failed and made to panic in turn; documents cut off at sampled bytes.",
     rule="random type with tracked fields and a small document; a failure and a panic at each parse, one defect at a time, cuts, failing readers; distinct: (document, fault)",
     assumptions=[GEN])

prop("C13", level="exploration",
     technique="runtime monitoring: mutated and hostile documents, with panics, aborts, time and memory watched",
     note="Held on the observed inputs: byte mutations, token splices, deep nesting, many attributes, long texts.",
     rule="random bytes, mutated documents, spliced documents, large and deep documents; every derived type; distinct: input bytes",
     assumptions=["memory and time limits are set well above what was observed on the unchanged tree"])

prop("C14", level="fault_enumeration",
     technique="runtime monitoring with fault injection: readers returning short counts, interruptions, and failing at each byte",
     note="Every byte position of each generated document was tried as the point of failure; splittings are sampled.",
     rule="random type and small document; each byte offset as point of failure, all kinds of error in turn, random chunk sizes; distinct: (document, fault)",
     assumptions=[GEN, XMLRS])

prop("C15", level="fault_enumeration",
     technique="runtime monitoring with fault injection: documents cut off at every byte and structurally damaged must not give values",
     note="Every byte position of each generated document was tried as the end; other damage is sampled.",
     rule="random type and small document with unclaimed content; each prefix, and random structural damage of 16 kinds; distinct: input bytes",
     assumptions=[GEN, "xml-rs accepts a few things the XML recommendation doesn't (listed in DESIGN.md); those aren't held against static-xml"])

prop("C16", level="exploration",
     technique="runtime monitoring: documents with one known defect; the error's stack, position, message and sources checked against a replay of xml-rs alone",
     note="Held on the observed defects at every kind of place.",
     rule="random type, document and single defect (9 kinds), and syntax errors; distinct: input bytes",
     assumptions=[GEN, MODEL, "positions are those xml-rs reports for its events"])

prop("C17", level="exploration",
     technique="runtime monitoring: hand-written visitors with random behaviour, every callback checked online against the document's tree",
     note="Held on the observed sequences of reading, skipping, handing back, failing and ignoring failures.",
     rule="random document, random action for each element met (read, string, typed read, skip, hand back, fail), errors ignored at random ancestors, cut off input; distinct: (document, actions)",
     assumptions=[PARSER.replace("parser", "renderer"), "prefixes and positions are those xml-rs reports"])

prop("C20", level="exploration", engine="macros",
     technique="runtime monitoring: the macros run by the compiler on generated definitions, its diagnostics watched and compared with what the documentation says",
     note="Held on the generated definitions: documented combinations accepted, 19 kinds of misuse each rejected with an error within the definition.",
     rule="random valid definitions of every kind, each kind of misuse applied to random valid definitions, definitions whose generated code can't compile; distinct: the definition",
     assumptions=["rustc 1.83 reports the errors of every definition", "what's valid is as documented in static-xml/src/lib.rs"])
