HOOKS = None
NOT_APPLICABLE = []
PROPS = [
 dict(id='P01', title='Parsing then printing a KDL document reproduces its text exactly',
  statement='For every text that parses as a KDL v2 document, printing the parsed document yields exactly that text, byte for byte: comments, whitespace, escapes, number spellings, quoting style, terminators, slashdashed parts and a byte-order mark are all kept. Parsing the printed text again, or printing a clone, gives an equal document, and each node, entry and child block prints exactly its own part of the text.',
  over=['inputs'], quantifier='every accepted document text',
  why='The suite compares about 230 fixed documents and a handful of snippets; the guarantee is over the unbounded set of spellings, and whitespace or comments in unusual positions (around type annotations, after child blocks) are in none of them.',
  files=['src/v2_parser.rs','src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs'],
  mechanism=[('the parser keeps every consumed character in format fields','src/v2_parser.rs: nodes, base_node, node_entry, value'),('printing writes the fields back','src/document.rs, src/node.rs: stringify; src/entry.rs, src/identifier.rs: Display')],
  observe_at=['KdlDocument::parse_v2 / to_string'],
  technique='property-based testing: round trip over documents rendered from random content trees, mutations, and bounded-exhaustive token sequences',
  level_note='Exploration only: about 1.3 million generated texts per quick run; trusts nothing but string equality.'),
 dict(id='P02', title='Every valid KDL 2.0 document is accepted with the content it denotes',
  statement='Every text that is valid under the KDL 2.0 grammar parses without error, and the parsed document has exactly the nodes, names, type annotations, arguments, properties, values and child blocks that the text denotes. Escapes, raw and multi-line strings (with dedentation), every number base, float spellings, keywords, slashdash removal, line continuations and all newline kinds are decoded as the specification says.',
  over=['inputs'], quantifier='every valid KDL 2.0 text (numbers within i128 / finite f64)',
  why='The conformance suite holds about 230 valid examples, one feature at a time; combinations of features, long numbers, and whitespace in unusual positions are not sampled.',
  files=['src/v2_parser.rs','src/value.rs'],
  mechanism=[('recursive-descent grammar','src/v2_parser.rs'),('multi-line string dedentation','src/v2_parser.rs: quoted_string, raw_string'),('number conversion','src/v2_parser.rs: float, decimal, hex, octal, binary')],
  observe_at=['KdlDocument::parse_v2'],
  technique='property-based testing: documents rendered by construction from a known tree, and differential testing against an independent reference parser',
  level_note='Exploration: oracle is the tree the text was rendered from, or an independently written reference parser cross-checked against it.'),
 dict(id='P03', title='Texts that are not valid KDL 2.0 are rejected',
  statement='A text that violates the KDL 2.0 grammar is never accepted by the v2 parser: it always yields an error. This covers unbalanced blocks, misplaced slashdashes, missing spaces between entries, disallowed code points, bare keywords and number-like words as identifiers, malformed numbers, strings and escapes, and missing terminators.',
  over=['inputs'], quantifier='every text outside the KDL 2.0 grammar, up to the documented leniencies',
  why='The suite holds 87 failing examples; a parser with backtracking and error recovery can accept or silently skip any of the infinitely many others.',
  files=['src/v2_parser.rs'],
  mechanism=[('cut errors and recovery that records every error','src/v2_parser.rs: try_parse, resume_after_cut'),('value terminator check','src/v2_parser.rs: value_terminator_check')],
  observe_at=['KdlDocument::parse_v2'],
  technique='property-based testing and fuzzing: mutated documents, token soup, texts around one doubtful token and bounded-exhaustive token sequences against an independent reference parser',
  level_note='Exploration: oracle is an independently written recogniser of the KDL 2.0 grammar; known grammar/implementation ambiguities are not judged.'),

 dict(id='P06', title='Values and identifiers print as KDL that reads back as the same value',
  statement='Every string, integer, finite or special float, boolean and null that a KdlValue can hold prints as KDL v2 text that reads back as exactly that value, alone, as an argument, as a property value, and (strings) as a node name, property name or type annotation. An identifier prints unquoted exactly when the KDL grammar allows that, and quoted otherwise; len() is the length of the printed text.',
  over=['inputs'], quantifier='every KdlValue and every identifier string',
  why='The tests print a few words and numbers. Whether quoting and escaping are right depends on each of 1.1 million code points and on combinations (keywords, number-like words, delimiters), and number formatting on all of i128 and f64.',
  files=['src/value.rs','src/identifier.rs','src/entry.rs'],
  mechanism=[('choice between bare and quoted strings','src/value.rs: is_plain_ident, Display'),('string escaping','src/value.rs: write_string')],
  observe_at=['KdlValue::to_string','KdlIdentifier::to_string'],
  technique='property-based testing: print/parse round trip of random values, plus enumeration of all pairs from 60 special characters and (thorough) all code points',
  level_note='Exploration, exhaustive for single code points (thorough) and pairs of special characters; oracles are an independent reference parser and the parser itself.'),
 dict(id='P07', title='A document built or edited through the API prints as what it holds',
  statement='Whatever sequence of API calls assembled a document (new nodes and entries, pieces parsed from their own text, insertion, removal, renaming, typing, replacing children, clearing formatting), the printed document is valid KDL v2 and, parsed again, holds exactly the nodes, names, types, values and children that the accessors report. Clearing formatting never changes the content.',
  over=['inputs','histories'], quantifier='every tree of content and every history of edits with pieces of any text, comments and line continuations that only the end of their text finishes included',
  why='The tests print a few hand-built documents. Separators between pieces depend on which piece carries what whitespace, terminator or comment, and only combinations of differently formatted pieces show a missing one.',
  files=['src/node.rs','src/document.rs','src/entry.rs'],
  mechanism=[('separators where pieces bring none','src/node.rs: stringify; src/document.rs: stringify')],
  observe_at=['KdlDocument::to_string after edits'],
  technique='stateful property-based testing: random edit histories; the printed text is read by an independent reference parser and by the parser, and compared with the content in memory',
  level_note='Exploration of histories of up to 8 edits over random pieces. A value whose explicit representation is left stale by set_value (documented) is not generated.'),
 dict(id='P08', title='Autoformatting never changes what a document means',
  statement='Autoformatting a document or node, with any configuration (indentation level and text, comments removed or kept, entry formatting kept), yields valid KDL v2 text with exactly the same nodes, names, types, arguments, properties, values and children. Slashdashed parts stay commented out and comments do not swallow content. A formatted node put back into its document leaves the meaning of the rest alone.',
  over=['inputs'], quantifier='every parsed or assembled document and every FormatConfig with a whitespace indent',
  why='The tests compare about ten formatted snippets. Whether a line comment, slashdash or continuation ends up swallowing or releasing content depends on where it stands.',
  files=['src/fmt.rs','src/document.rs','src/node.rs','src/entry.rs'],
  mechanism=[('reformatting of leading and trailing decor','src/fmt.rs: autoformat_leading, autoformat_trailing, autoformat_lines'),('kept representations are converted to v2','src/entry.rs: ensure_v2')],
  observe_at=['autoformat, autoformat_no_comments, autoformat_config'],
  technique='property-based testing: formatted text read back by a reference parser and by the parser, against the content before formatting',
  level_note='Exploration; texts on which grammar versions differ are not judged.'),
 dict(id='P09', title='Autoformatting is stable: formatting formatted text changes nothing',
  statement='Formatting a document a second time with the same configuration changes nothing, whether the formatted document is formatted again in memory or its printed text is parsed and formatted again.',
  over=['inputs'], quantifier='every parsed document and every FormatConfig',
  why='The tests format each sample once. Stability has to hold for every arrangement of comments, blank lines, slashdashes and continuations.',
  files=['src/fmt.rs','src/document.rs','src/node.rs'],
  mechanism=[('reformatting of decor','src/fmt.rs')],
  observe_at=['autoformat_config applied twice'],
  technique='property-based testing: metamorphic relation (idempotence, in memory and through text)',
  level_note='Exploration; the oracle is text equality.'),
 dict(id='P10', title='Autoformatting keeps comments, or removes all of them if asked to',
  statement='Autoformatting keeps every comment that stands between nodes or after a node, with its text and in order. With comment removal, no comment of any kind is left in the output (slashdashed content included), unless entry formatting is kept.',
  over=['inputs'], quantifier='every parsed document and every FormatConfig',
  why='The tests check a few comments in the usual places.',
  files=['src/fmt.rs','src/node.rs','src/document.rs'],
  mechanism=[('comments live in leading/before_terminator/terminator/trailing fields','src/fmt.rs')],
  observe_at=['autoformat, autoformat_no_comments'],
  technique='property-based testing: comments listed by an independent reference parser before and after',
  level_note='Exploration. Comments inside entries, type annotations and line continuations are dropped by design so far (an open issue upstream) and are not claimed.'),
 dict(id='P11', title="Node entry operations behave like an ordered list of entries",
  statement='A node\'s entries behave as an ordered list with positional arguments and named properties: push appends; insert by name replaces the last entry of that name in place and returns it, or appends; insert by index puts the argument before the argument that has that index; remove by name takes the last entry of that name, remove by index takes that argument; lookups by name find the last one (as KDL says the rightmost property wins), lookups by index count arguments only; retain and stable sorts keep order; names match by value however they are spelled. Nothing else of the node changes, and out-of-range or mismatched calls are refused without effect.',
  over=['histories'], quantifier='every node and every sequence of entry operations and keys',
  why='The tests make one or two calls on a two-entry node. Positions of arguments among properties, repeated names, and differently spelled names only matter in combination.',
  files=['src/node.rs','src/entry.rs'],
  mechanism=[('entry lookup by key','src/node.rs: entry, entry_mut, insert, remove, entry_remove'),('indexing','src/node.rs: Index, IndexMut')],
  observe_at=['KdlNode entry API'],
  technique='stateful model-based testing: histories of up to 16 operations in step with a plain list, every return value and lookup compared',
  level_note='Exploration of histories; the model is a list.'),
 dict(id='P12', title='Document lookups and iterators report exactly the content',
  statement='get, get_mut, get_arg, get_arg_mut, iter_args, iter_dash_args, node and child iterators (shared, mutable and owned) report exactly the first node of that name, its arguments in order, the first arguments of its dash children, and all nodes in order; writes through the mutable ones change exactly that place. Value accessors (as_string, as_integer, as_float, as_bool, is_*) report the one kind a value has, and len()/is_empty() of documents and entries describe the printed text.',
  over=['inputs','histories'], quantifier='every document and every queried name',
  why='The tests query one hand-written document.',
  files=['src/document.rs','src/node.rs','src/value.rs'],
  mechanism=[('lookups','src/document.rs: get, get_arg, iter_args, iter_dash_args'),('iterators','src/document.rs: IntoIterator; src/node.rs: iter_children')],
  observe_at=['KdlDocument accessors'],
  technique='model-based testing: random documents and queries compared with the content tree',
  level_note='Exploration; the model is the content tree.'),
 dict(id='P13', title='An edit changes only the text of what was edited',
  statement='After one edit of a parsed document through the API (replacing a value, name or type, adding, replacing or removing an entry, node or child block, swapping nodes), the printed document is the original text with only the edited part replaced, plus at most a separating space or newline; all other comments, whitespace and spellings stay as they were, and the document means what the edit says.',
  over=['inputs','histories'], quantifier='every parsed document, every place in it and every kind of edit',
  why='The tests edit one or two snippets. Locality has to hold wherever the neighbours keep their comments and terminators.',
  files=['src/node.rs','src/document.rs','src/entry.rs','src/identifier.rs'],
  mechanism=[('formatting is stored next to what it belongs to','src/v2_parser.rs, src/node.rs, src/entry.rs')],
  observe_at=['to_string before and after an edit'],
  technique='property-based testing: random single edits, compared with a text splice and with the edited content tree',
  level_note='Exploration; texts on which grammar versions differ are not judged.'),
 dict(id='P14', title='Equality, hashing and ordering agree with each other and with content',
  statement='Equality of documents, nodes, entries and values is an equivalence: parsing the same text twice, cloning, and moving spans give equal things with equal hashes; equal documents print equally; any change of a name, type, value, entry, child or format makes documents unequal. Values order consistently: equal exactly when compared Equal, antisymmetric and transitive, integers, strings and finite floats in their usual order.',
  over=['inputs'], quantifier='every pair or triple of parsed documents and values',
  why='The tests compare a few pairs. Special floats, mixed number kinds and spans are where hashing, ordering and equality come apart.',
  files=['src/value.rs','src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs'],
  mechanism=[('hand-written PartialEq, Hash, PartialOrd','src/value.rs, src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs')],
  observe_at=['==, Hash, PartialOrd'],
  technique='property-based testing: algebraic laws over random pairs and triples, biased towards near-equal values',
  level_note='Exploration. Infinities and NaN collapse with f64::MAX and 0 in equality by design; this is taken as given.'),
 dict(id='P25', title='Autoformatted text has one canonical layout',
  statement='For documents without comments or line continuations after nodes, the autoformatted text is exactly: each node on its own line, indented by indent_level plus its depth times the configured indent; single spaces between entries; no space inside type annotations or around "="; values and names in their canonical spelling; children in a block opened on the node\'s line and closed on a line of its own. Entries whose formatting is to be kept (by keep_format or the configuration) keep their leading space and the spelling of their value, except that strings that can be bare become so. With comments between nodes, too, each node begins an indented line of its own, and the text ends with a newline.',
  over=['inputs'], quantifier='every comment-free document, every FormatConfig and every set of kept entries',
  why='The tests compare a handful of formatted snippets; nesting depth, indentation settings and odd source whitespace combine freely.',
  files=['src/fmt.rs','src/node.rs','src/document.rs','src/entry.rs'],
  mechanism=[('autoformat of nodes, entries and documents','src/node.rs, src/document.rs, src/entry.rs: autoformat_impl')],
  observe_at=['autoformat_config'],
  technique='property-based testing: differential against an independent ten-line printer',
  level_note='Exploration; oracle is a second printer.'),
 dict(id='P04', title='No text makes the parser panic, overflow the stack or run away',
  statement='On any text whatever, valid or not, short or of many thousands of nodes, entries, comments, quotes, hashes, escapes or bad lines, parsing a document, node, entry or identifier returns a value or an error: it never panics, never overflows the stack (with up to 200 levels of nested child blocks) and its work stays polynomial in the nesting depth. Printing, formatting, cloning, comparing and clearing what was accepted never panic either.',
  over=['inputs'], quantifier='every text; nesting of child blocks up to 200 levels',
  why='Tests feed in about 350 short texts; recursion depth, re-parsing after backtracking and arithmetic on positions only go wrong on long, nested or malformed input.',
  files=['src/v2_parser.rs','src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs','src/fmt.rs'],
  mechanism=[('iterative loops over nodes, comments and bad ends','src/v2_parser.rs: nodes, commented_block, document'),('error recovery','src/v2_parser.rs: resume_after_cut, badval')],
  observe_at=['KdlDocument::parse_v2','KdlNode::parse','KdlEntry::parse','KdlIdentifier::parse'],
  technique='fuzzing with random, mutated and enumerated text; child processes for long and deep inputs; counted memory traffic at growing nesting depth as a deterministic measure of work',
  level_note='Exploration. Stack overflow is detected in child processes; work is measured by bytes allocated, so it does not depend on the clock.'),
 dict(id='P05', title='Spans point at exactly the text of what they belong to',
  statement='After parsing, every span lies inside the text on character boundaries; an identifier\'s span is exactly its text, an entry\'s span its text without surrounding space, a node\'s span its text from type annotation or name to before its terminator, and a document\'s or child block\'s span runs from its first to its last node (empty if it has none). Children lie within parents, siblings are in order and disjoint, and text put before a document moves all its spans by that length.',
  over=['inputs'], quantifier='every accepted document text',
  why='Tests check spans of two small documents; offsets go wrong on multi-byte characters, line continuations, slashdashed parts and deep nesting, in any combination.',
  files=['src/v2_parser.rs','src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs'],
  mechanism=[('offsets from parser checkpoints','src/v2_parser.rs: span_from_checkpoint, nodes, base_node, prop_or_arg, identifier')],
  observe_at=['KdlDocument::span','KdlNode::span','KdlEntry::span','KdlIdentifier::span'],
  technique='property-based testing: spans against printed text, an independent reference parser, containment invariants, and a metamorphic shift relation',
  level_note='Exploration. Built with the span feature.'),
 dict(id='P26', title='Parse errors carry usable diagnostics that point into the source',
  statement='Whenever parsing fails, the error holds at least one diagnostic; its input and each diagnostic\'s input are the text that was parsed, every span lies inside it on character boundaries, severity is error, the message is not empty, and miette renders the report. Valid text put in front moves every diagnostic by its length and changes nothing else. A line with a bad value or name among good lines is reported on that line, all such lines are reported, and no good line is.',
  over=['inputs'], quantifier='every rejected text',
  why='Tests look at the diagnostics of two documents; positions in errors are computed on backtracking and recovery paths that depend on the whole text.',
  files=['src/v2_parser.rs','src/error.rs'],
  mechanism=[('collecting recovered errors','src/v2_parser.rs: try_parse, failure_from_errs, resume_after_cut'),('the miette implementation','src/error.rs')],
  observe_at=['KdlError::diagnostics'],
  technique='property-based testing: invariants over diagnostics of rejected texts, a metamorphic shift relation, and documents with known bad lines mixed in',
  level_note='Exploration. The wording of messages is not judged.'),
 dict(id='P27', title='Nodes, entries and identifiers parse on their own as in a document',
  statement='KdlIdentifier::parse accepts exactly the KDL strings, KdlEntry::parse exactly one argument or property with surrounding space, newlines and comments, and KdlNode::parse exactly one node likewise with an optional terminator. What they accept means the same as inside a document and prints back byte for byte; anything else, including text that holds more than one of them, is an error.',
  over=['inputs'], quantifier='every text (trailing slashdashed parts not judged)',
  why='Tests parse a handful of pieces; these entry points have padding rules of their own around the shared grammar.',
  files=['src/v2_parser.rs','src/node.rs','src/entry.rs','src/identifier.rs'],
  mechanism=[('padded parsers','src/v2_parser.rs: padded_node, padded_node_entry, identifier')],
  observe_at=['KdlNode::parse','KdlEntry::parse','KdlIdentifier::parse'],
  technique='differential property-based testing against an independent reference parser',
  level_note='Exploration.'),
 dict(id='P15', title='Converting KDL v1 to v2 keeps the content, comments and spelling of numbers',
  statement='For every valid KDL v1 document, v1_to_v2 (and ensure_v2 on what parse_v1 returned, as a document or a single node or entry) yields valid KDL v2 text that denotes exactly the same nodes, names, types, values and child blocks, keeps every comment in order and every number in its spelling, and is left alone by a second conversion. ensure_v2 on a v2 document changes neither its content nor its validity.',
  over=['inputs'], quantifier='every v1 document whose skipped parts (slashdashed content) mean the same in both versions',
  why='The tests convert one document each way. Every kind of string, name, number and comment placement has its own v2 spelling, and what is safe to copy depends on the neighbours.',
  files=['src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs','src/value.rs'],
  mechanism=[('conversion in place','src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs: ensure_v2')],
  observe_at=['KdlDocument::v1_to_v2','ensure_v2'],
  technique='property-based testing: v1 documents rendered by construction from a content tree; the output read by an independent v2 reference parser',
  level_note='Exploration. Slashdashed content is copied verbatim by design so far (a TODO in the source) and is restricted to text both versions read alike.'),
 dict(id='P16', title='Converting KDL v2 to v1 yields v1 text with the same content',
  statement='For every KDL v2 document whose content v1 can express, v2_to_v1 (and ensure_v1 on a parsed or an assembled, possibly autoformatted document) yields text that the KDL v1 release of the crate reads as exactly the same nodes, names, types, values and child blocks. Converting v1 to v2, to v1 and to v2 again succeeds at every step and never changes the content.',
  over=['inputs'], quantifier='every v2 document with integers in i64 and finite floats, whose skipped parts mean the same in both versions',
  why='The tests convert one document. v2-only identifiers, multi-line strings, escapes, radix numbers, optional terminators and spaces in unusual places all need a different v1 form.',
  files=['src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs','src/value.rs'],
  mechanism=[('conversion in place','src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs: ensure_v1')],
  observe_at=['KdlDocument::v2_to_v1','ensure_v1'],
  technique='property-based testing: v2 documents rendered by construction; differential against the v1 release of the crate (kdl 4.7.1) as reader',
  level_note='Exploration; trusts kdl 4.7.1 as the reader of v1.'),
 dict(id='P17', title='parse_v1 reads exactly what KDL v1 denotes',
  statement='parse_v1 of a document, node, entry or identifier accepts exactly what the KDL v1 parser accepts, and gives exactly the names, types, values, entries, child blocks and spans that the text denotes in v1; what it rejects is reported with the v1 parser\'s position, message, label and help, on the text that was given.',
  over=['inputs'], quantifier='every text on which kdl 4.7.1 returns',
  why='The tests parse two v1 documents. The translation from the v1 data model covers every kind of value, name, format and error.',
  files=['src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs','src/value.rs','src/error.rs'],
  mechanism=[('translation of the v1 data model','src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs, src/value.rs, src/error.rs: impl From<kdlv1::…>')],
  observe_at=['parse_v1'],
  technique='property-based testing: v1 documents by construction; differential against kdl 4.7.1 on mutated and enumerated text',
  level_note='Exploration.'),
 dict(id='P18', title='v1-fallback prefers v2, then takes v1, and reports the right errors',
  statement='With the v1-fallback feature, parse and from_str of a document, node, entry or identifier give the v2 result whenever the text is valid v2, otherwise the v1 result whenever it is valid v1, and otherwise an error: for documents that of v1 or of v2 (of v2 where nothing in the text is particular to v1, of v1 after its version marker or with its bare keywords), for the other three that of v2.',
  over=['inputs'], quantifier='every text',
  why='The tests parse two documents. Precedence matters for texts that both versions accept with different meanings, and for texts that neither accepts.',
  files=['src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs'],
  mechanism=[('fallback','src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs: parse, FromStr'),('version heuristic','src/document.rs: detect_v1')],
  observe_at=['KdlDocument::parse and from_str, and those of KdlNode, KdlEntry, KdlIdentifier'],
  technique='differential property-based testing against an independent v2 reference parser and the dedicated v1 parser',
  level_note='Exploration. kdl 4.7.1 panics on a few broken texts; recorded as a known finding.'),
 dict(id='P19', title='Values survive serialization to KDL text and deserialization',
  statement='For every type built from scalars, options, newtypes, sequences, tuples, string-keyed maps, structs (with plain fields and the #n, #args, #rest and #@name renames) and enums of unit, newtype, tuple and struct variants, and every value of it that has a KDL form, se::to_string succeeds, its output is KDL, and de::from_str of it gives the same value, bit for bit for floats.',
  over=['inputs'], quantifier='every type and value apart from those that KDL cannot tell apart (false flags and empty optional collections at the top level, for instance)',
  why='The tests round-trip some ten types with fixed values. What breaks depends on the combination of types around a value and on the value: null and false first in a list, flags in newtypes, strings that look like numbers.',
  files=['src/se.rs','src/de.rs'],
  mechanism=[('serializers for documents, nodes and values','src/se.rs'),('deserializers for documents, nodes, groups of nodes and values','src/de.rs')],
  observe_at=['kdl::se::to_string','kdl::de::from_str'],
  technique='property-based testing: round trips over types made at run time (the serde calls of the derives) and derived types',
  level_note='Exploration. Known findings: flags that are false and newtypes around None at the top level, #type renames, unit variants at the top level, renames in nested struct variants.'),
 dict(id='P20', title='Deserialization reads every documented KDL form of a value, and no wrong one',
  statement='However a value is written as KDL in the documented ways (a flag, one argument or several, properties or child nodes, repeated nodes as a sequence, #n, #args, #rest, #@name and #type renames, enum variants as strings, nodes or properties; in any KDL spelling, with unknown fields and overridden properties), de::from_str gives exactly that value; into a self-describing type it gives the documented mapping. A value of the wrong kind or out of range, a missing field, an unknown variant, a second variant or a denied unknown field is an error.',
  over=['inputs'], quantifier='every type and value, and every document that tells it in the documented ways',
  why='The tests read some fifty small documents. The forms combine freely, at every depth and inside options, newtypes, maps and enums.',
  files=['src/de.rs'],
  mechanism=[('deserializers for documents, nodes, groups of nodes and values','src/de.rs: DocumentDeserializer, NodeDeserializer, NodeGroupDeserializer, ValueDeserializer, NodeMapAccess')],
  observe_at=['kdl::de::from_str'],
  technique='property-based testing: documents written by construction from a random type and value, with or without one fault, and a model of the documented mapping for self-describing types',
  level_note='Exploration. Known finding: #[serde(default)] in nested structs.'),
 dict(id='P21', title='Serialization gives the documented KDL shape, and refuses what has none',
  statement='se::to_document and se::to_string give a document with exactly the documented shape: a node per field or map entry, in order; scalars and sequence elements as arguments; nested structs and maps as children; renamed fields as arguments (in the order of their indices) and properties; enum variants as strings or child nodes; false flags and None fields left out; map keys that are strings, characters, numbers or unit variants are node names. The text of both is the same. A value with a part that needs a node where only a KDL value can stand is an error, never something else, and so is an integer KDL values cannot hold or a map key with no name.',
  over=['inputs'], quantifier='every type and value',
  why='The tests compare a few outputs with snapshots; a value that is dropped or misplaced in some combination would go unnoticed.',
  files=['src/se.rs'],
  mechanism=[('serializers for documents, nodes and values','src/se.rs')],
  observe_at=['kdl::se::to_string','kdl::se::to_document'],
  technique='property-based testing against an independent model of the mapping; the text is read by a reference parser',
  level_note='Exploration. Where properties stand among arguments and whether an empty child block is printed is not judged.'),
 dict(id='P22', title='Deserialization errors carry the source and point at the offending place',
  statement='When de::from_str fails, the error has a message, carries the text it was given as source, and has a span only with a diagnostic and label that agree with it. When one value or variant name in the document cannot be read as its type, the span is exactly that of the entry, node or type annotation. When the text is not KDL, the diagnostics are those of the parser.',
  over=['inputs'], quantifier='every document and type',
  why='The tests check the span of three errors; spans are attached in many places of the deserializer, and each layer can attach a wrong one first.',
  files=['src/de.rs'],
  mechanism=[('attaching positions','src/de.rs: Error::with_span, annotate')],
  observe_at=['kdl::de::Error::span','kdl::de::Error::diagnostic','miette::Diagnostic of kdl::de::Error'],
  technique='property-based testing: documents by construction with one marked wrong place; mutated text compared with the parser',
  level_note='Exploration. Built with the span feature. The wording of messages is not judged.'),
 dict(id='P23', title='The language server reports the errors of the current text, at LSP positions',
  statement='After any history of open, change, save and close messages for any number of documents, sent one by one or in a burst, kdl-lsp answers a diagnostic request for an open document with exactly the diagnostics that parsing its current text gives (message, severity, and range in zero-based lines ended by LF, CRLF or CR and UTF-16 columns), with none if the text is valid or the document is not open, and goes on serving.',
  over=['histories','inputs'], quantifier='every history that the protocol allows, and every text',
  why='There are no tests of kdl-lsp at all.',
  files=['tools/kdl-lsp/src/main.rs'],
  mechanism=[('document store','tools/kdl-lsp/src/main.rs: did_open, did_change, did_save, did_close, on_change'),('diagnostics and positions','tools/kdl-lsp/src/main.rs: diagnostic, byte_to_position')],
  observe_at=['JSON-RPC over the standard streams of the kdl-lsp binary'],
  technique='stateful property-based testing of the real server process against a model (the last text of each document) and an independent position function',
  level_note='Exploration. What the parser reports is judged by P26; here it is taken from the same parser.'),
 dict(id='P24', title='What the library does is the same in every feature set',
  statement='For every text and every sequence of edits, builds without span, with v1 and with no features at all give what the default build gives: the same trees, formatting, printed and autoformatted text, equality, hashes and diagnostics, and the same serde values and error messages. Only spans in the tree and, with v1-fallback, texts that are not v2 may differ.',
  over=['inputs','configurations'], quantifier='every text, every sequence of edits, and the feature sets none, serde, span+v1, default and all',
  why='The test suite runs with every feature on; nothing checks that code behind cfg(feature) leaves the rest alone.',
  files=['src/v2_parser.rs','src/document.rs','src/node.rs','src/entry.rs','src/identifier.rs','src/de.rs'],
  mechanism=[('code behind features','src/: cfg(feature = "span"), cfg(feature = "v1"), cfg(feature = "v1-fallback")')],
  observe_at=['the public API in builds with other features'],
  technique='differential property-based testing between builds with different features, over generated texts and edit sequences',
  level_note='Exploration of five feature sets.'),
]
