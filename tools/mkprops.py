#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Line-ranged includes deliver exactly the selected lines",
 "When an include directive carries a lines selection, the included text is exactly those lines of the target file whose 1-based number falls in at least one of the given ranges (N, A..B inclusive, A..-1 meaning up to the end), each exactly once, unchanged and in file order, apart from lines carrying tag directives, which are never included. Without any selection, all lines other than tag-directive lines are included.",
 ["inputs"],"every file content and every list of single lines, closed ranges and open-ended ranges",
 "The tests use one small chapter file with a handful of range lists; the guarantee is over every combination of line number and range list.",
 ["pkg/types/types.go","pkg/parser/document_preprocessing.go","pkg/parser/parser.go"],
 [("range construction","types.NewLineRanges, NewLineRange, grammar rule LineRanges"),("range matching","types.LineRanges.Match"),("line loops","parser.readWithinLines, readAll")],
 observe=["output of preprocessing / conversion of a document with include::file[lines=...]"])
p("C02","Tag-ranged includes deliver exactly the tagged regions",
 "When an include directive carries a tag selection, the included text is exactly the non-directive lines selected by it: a selector applies to the lines of the currently open regions of its tag (every region of that tag, also the repeated ones), '*' applies to the lines of any open region and '**' to all lines; a line is included iff some selector applies to it and the last one in the list that does is not an exclusion ('!'). A tag that is named in the selection but absent from the file is reported as an error, and no arrangement of tag directives crashes the processor.",
 ["inputs"],"every file content, every placement and nesting of tag/end directives, every tag selection list",
 "Tests sample a few well-formed files; exclusion, repetition, unbalanced directives and wildcard combinations are not enumerable by example.",
 ["pkg/types/types.go","pkg/parser/document_preprocessing.go"],
 [("tag matching","types.TagRanges.Match, CurrentTagRanges.Match"),("directive detection","types.IncludedFileLine.HasTag, GetStartTag, GetEndTag"),("line loop","parser.readWithinTags")],
 state=[("open tag regions","start/end line of the last region of each tag","readWithinTags currentRanges")],
 observe=["output of preprocessing of include::file[tags=...]"])
p("C03","Conditional directives keep exactly the lines whose conditions all hold",
 "A source line is passed on iff every enclosing ifdef/ifndef/ifeval condition evaluated to true at its opening (with an unmatched endif ignored), and passed-on lines stay unchanged and in order. ifdef holds iff the named attribute is defined at that point, ifndef iff it is not, ifeval iff the comparison (==, !=, <, <=, >, >=) of its operands holds, where numbers compare with numbers and texts with texts only; the single-line form keeps its bracketed content iff its condition holds. Attribute declarations, resets and inclusions inside a switched-off region have no effect.",
 ["inputs","configurations"],"every nesting of conditional directives, attribute environment and comparison operator/operand pair",
 "Nesting depth, operator and attribute state combine without bound; tests check a few fixed documents.",
 ["pkg/types/types.go","pkg/parser/document_preprocessing.go"],
 [("condition evaluation","types.IfdefCondition.Eval, IfndefCondition.Eval, IfevalCondition.Eval and the operands"),("condition stack","parser.conditions.push/pop/eval"),("gated output","parser.builder.WriteString/Write/doInsertLF"),("directive loop","parser.preprocess")],
 state=[("condition stack","outcome of each open condition","parser.conditions.elements")],
 observe=["output of Preprocess"])
p("C04","Attributes given by the caller win over the document's own",
 "An attribute supplied by the caller (API option or command line) keeps the caller's value throughout a conversion: no declaration or reset in the document changes what conditionals and attribute references see for it. A name not supplied by the caller resolves to the latest declaration in the document, to nothing after a reset, and one conversion never alters the caller's own attribute set, so that documents converted one after the other with the same settings do not influence each other.",
 ["inputs","configurations","histories"],"every attribute name, value, and every sequence of declarations, resets and lookups",
 "Precedence must hold for every interleaving of set/reset/lookup and every name collision; tests try a few names.",
 ["pkg/parser/context.go","pkg/renderer/sgml/context.go","pkg/parser/document_processing_apply_substitutions.go"],
 [("two-layer attribute context","parser.contextAttributes get/set/unset/setAll/allAttributes/getAsIntWithDefault/clone"),("rendering context","sgml.newContext")],
 state=[("immutable attributes","caller supplied","contextAttributes.immutableAttributes"),("document attributes","declared so far","contextAttributes.attributes")],
 observe=["resolution of {name} and ifdef::name[] in output"])
p("C05","Footnotes are numbered 1..n in order and references resolve to them",
 "Footnotes are numbered consecutively from 1 in order of first appearance, every note recorded is listed exactly once under its own number with its content, and later marks that reuse a name point to the number of the note that defined that name. A mark that has its own content always gets its own note, and a mark naming an unknown note never takes another note's number.",
 ["inputs"],"every sequence of anonymous, named and referring footnote marks",
 "Numbering must be consistent for every history of marks; tests use two or three notes.",
 ["pkg/types/types.go","pkg/parser/document_processing_collect_footnotes.go","pkg/renderer/sgml/footnote_reference.go"],
 [("footnote table","types.Footnotes.Reference, indexOf"),("collection","parser.collectFootnotes and SubstituteFootnotes methods")],
 state=[("notes","recorded notes, note i has number i+1","types.Footnotes.Notes")],
 observe=["footnote marks and footnote list in the output"])
p("C06","Section identifiers never collide",
 "Within a document, no two sections that obtain their identifiers automatically share one, whatever explicit identifiers sections and titled blocks carry (identifiers of sections are rendered in lower case and compared without regard to case): a generated identifier that is already in use gets the first free numeric suffix (_2, _3, ...). An explicit identifier is kept as given unless it is already in use, a generated one consists of the configured prefix and the title's text joined by the configured separator, and every section recorded stays reachable as a cross-reference target under its identifier, with its title as the label, from wherever cross references may occur.",
 ["inputs","histories"],"every sequence of sections, titles and explicit identifiers",
 "Uniqueness is a claim about every multiset of titles including adversarial ones that look like suffixed identifiers.",
 ["pkg/types/types.go"],
 [("identifier resolution","types.Section.ResolveID, resolveID, Reference"),("normalisation","types.ReplaceNonAlphanumerics")],
 state=[("references","identifiers in use","types.ElementReferences")],
 observe=["id attributes in output, section element references"])
p("C07","Section numbers follow the document structure",
 "Every section that starts where section numbering is on (switched on or off by the caller, or by attribute declarations and resets in the header and between blocks) gets the number made of its parent's number, a dot and its 1-based position among its numbered siblings, and shows it in its title and in the table of contents. A section that starts where numbering is off gets none, does not advance any counter, and no section within it is numbered; no two sections get the same number.",
 ["inputs","configurations"],"every tree of sections and every placement of numbering on/off switches",
 "Numbering is a function of an arbitrary tree; tests use two fixed trees.",
 ["pkg/types/types.go","pkg/renderer/sgml/sgml_renderer.go"],
 [("numbering pass","types.Document.SectionNumbersWithAttributes, isNumberingEnabled, numberSections")],
 observe=["numbers in section titles of the output"])
p("C08","Sections nest by level and no content is lost or reordered",
 "Building the document tree keeps every block: reading the finished tree in document order gives back exactly the blocks and sections that were parsed, once each, in order. Each section is placed under the nearest preceding section of a strictly lower level (or at the top when there is none), other blocks go to the section open at that point, and blocks before the first section of a titled document form its preamble.",
 ["inputs"],"every sequence of sections (any levels, gaps included) and other blocks",
 "The tree builder must be right for every level sequence; tests sample regular ones.",
 ["pkg/parser/document_processing_aggregate.go","pkg/types/types.go"],
 [("aggregation","parser.aggregator.append, appendSection, indexOfParent"),("preamble","parser.insertPreamble, newPreamble"),("adding children","types.Section.AddElement, Document.AddElement")],
 state=[("open sections","stack of open ancestors","parser.aggregator")],
 observe=["order and nesting of sections in output"])
p("C09","The table of contents mirrors the sections",
 "The table of contents lists exactly the document's sections whose level is at most the configured depth, each once, in document order, with the section's own identifier, and nested according to level under the closest preceding shallower entry.",
 ["inputs","configurations"],"every sequence of section levels and every depth setting",
 "Arbitrary level sequences and depths; tests use regular ones.",
 ["pkg/types/types.go","pkg/parser/document_processing_aggregate.go"],
 [("toc construction","types.TableOfContents.Add, addToCSection"),("depth","parser.aggregate, types.NewTableOfContents")],
 observe=["toc in the output"])
p("C10","Counters advance by one per use",
 "Each use of a document counter yields the next value: the start value given there (1 by default) on first use, then the successor (next integer, or next letter for a letter counter), counters with different names are independent, and only the visible form prints. Captioned figures, tables, examples and other blocks are numbered 1, 2, 3... independently per kind.",
 ["inputs","histories"],"every sequence of counter uses, names and start values",
 "Histories of interleaved counters are unbounded.",
 ["pkg/parser/document_processing_apply_substitutions.go","pkg/renderer/sgml/context.go","pkg/types/types.go"],
 [("document counters","parser.valueForCounter / substitution of counters"),("caption counters","sgml.context.getAndIncrementCounter")],
 state=[("counters","last value per name","ParseContext.counters, sgml context.counters")],
 observe=["{counter:x} output, Figure N. captions"])
p("C11","Text reaches the output HTML-escaped",
 "Text of the document never becomes markup by accident: in rendered text the characters <, > and & come out as &lt;, &gt; and &amp;, in attribute values double quotes too, other characters come out unchanged, and numeric conversion of non-ASCII symbols maps each character to the reference of exactly that character.",
 ["inputs"],"every text and attribute value",
 "A claim about every string; tests use a few.",
 ["pkg/renderer/sgml/html_escape.go","pkg/renderer/sgml/special_character.go","pkg/renderer/sgml/string.go","pkg/renderer/sgml/symbol.go"],
 [("special characters","sgml.renderSpecialCharacter, grammar SpecialCharacter"),("attribute escaping","sgml.EscapeString / htmlEscaper"),("entities","sgml.asciiEntify, renderString")],
 observe=["HTML output"])
p("C12","A subs attribute selects exactly the named substitutions",
 "The substitutions applied to a block are the defaults of its kind unless it carries a subs attribute; a plain list replaces the defaults by the substitutions named (groups expanded), and '+name', 'name+' and '-name' add after, add before and remove relative to the defaults. An unknown name is reported as an error.",
 ["inputs","configurations"],"every block kind and every subs list",
 "Combinations of step lists with incremental modifiers are unbounded; tests check single items.",
 ["pkg/parser/document_substitutions.go","pkg/parser/document_processing_apply_substitutions.go"],
 [("selection","parser.newSubstitutions, substitutions.append/prepend/remove/split/contains, substitutionsFor, defaultSubstitutions")],
 observe=["rendering of blocks with subs="])
p("C13","Protected elements survive quoting and attribute phases unchanged",
 "An element set aside while the surrounding text is substituted (inline passthrough, already-parsed element) comes back exactly once, unchanged, at its original position, and nothing else in the text is altered by setting it aside and putting it back.",
 ["inputs"],"every sequence of text and elements",
 "Round-trip over every mixed sequence, tests use a few.",
 ["pkg/parser/document_processing_apply_substitutions.go"],
 [("placeholders","parser.serialize, placeholders.add, parser.restorePlaceholderElements...")],
 state=[("placeholders","element set aside per reference","parser.placeholders")],
 observe=["inline passthrough content in output"])
p("C14","Only comments and surplus blank lines are dropped",
 "Preparing the parsed document for assembly drops comment lines, comment blocks and blank lines where they carry no meaning, and nothing else: every other block and inline element is kept, in its original order, at its place in the structure.",
 ["inputs"],"every nested sequence of elements",
 "Arbitrary nesting.",
 ["pkg/parser/document_processing_filter_elements.go"],
 [("filtering","parser.doFilterOut and its matchers")],
 observe=["blocks present in the output"])
p("C15","Level offsets shift every included heading by the same amount",
 "With a relative level offset on an include, each section heading of the included file comes out deeper (or shallower) by exactly that amount, offsets of nested includes add up, and with an absolute offset the first heading gets exactly the given level and the later ones keep their distance to it. No heading goes above level 0, and headings outside the included file, headings inside verbatim blocks and the heading's title text are not affected.",
 ["inputs"],"every heading level sequence, offset and nesting of includes",
 "Tests try +1 and one absolute value.",
 ["pkg/parser/document_preprocessing.go","pkg/types/types.go"],
 [("offsets","parser.levelOffsets.apply, levelOffset.apply, types.RawSection.OffsetLevel, Stringify")],
 state=[("offset state","absolute offset turned relative after the first section","parser.levelOffset")],
 observe=["heading lines in preprocessed text"])
p("C16","Table cells fill rows left to right without loss",
 "A table places every cell exactly once, in source order, filling rows left to right with as many cells per row as there are columns (given by the cols specification or else by the first line), a header or footer option moves exactly the first or last row there, and column widths are percentages of the given weights. Only cells of an incomplete last row may be dropped.",
 ["inputs"],"every number of columns, cells and options",
 "Arithmetic over arbitrary row/column counts.",
 ["pkg/types/types.go","pkg/parser/document_processing_apply_substitutions.go"],
 [("cell layout","types.Table, organizeTableCells, scanTableElements, SetColumnDefinitions, Columns")],
 observe=["tables in output"])
p("C17","List items nest by marker and keep their order",
 "Assembling lists keeps every item and block exactly once and in order; an item whose marker is already in use by an open list joins that list and closes the deeper ones, an item with a new marker opens a nested list under the current item, and blocks attached with '+' belong to the item they are attached to.",
 ["inputs"],"every sequence of list items, kinds, levels and attached blocks",
 "Unbounded nesting sequences.",
 ["pkg/parser/document_processing_arrange_lists.go","pkg/types/types.go"],
 [("arrangement","parser.arrangeLists, listStack, types.List, NewListElement...")],
 observe=["lists in output"])
p("C18","Block and inline attributes accumulate predictably",
 "Among several values given for the same attribute of one element the last one wins, except that roles and options accumulate in order and all of them stay in effect; setting one attribute never changes another, positional attributes get the meaning of their position for the element kind, and reading an attribute gives back exactly what was set.",
 ["inputs"],"every list of attributes",
 "All combinations and orders of names.",
 ["pkg/types/attributes.go"],
 [("attribute maps","types.Attributes.Set, SetAll, AddAll, NewAttributes, toAttributesWithMapping, Has, HasOption, GetAs*")],
 observe=["class/id/style attributes in output"])
p("C19","Adjacent text is merged without losing a character",
 "Normalising inline content (merging adjacent strings, flattening nested sequences, trimming at the ends when asked to) keeps every non-text element in place and every character in order: the concatenated text between two elements is the same before and after (the run of spaces before a dash between spaces, which stands for them, aside).",
 ["inputs"],"every nested sequence of texts and elements",
 "All sequences.",
 ["pkg/types/types_utils.go","pkg/types/types.go"],
 [("merging","types.Merge/Append/Reduce/Flatten/InsertAt/SplitElementsPerLine")],
 observe=["text in output"])
p("C20","Command-line attributes and output destination are honoured as given",
 "Each -a name=value on the command line sets that attribute to the full text after the first '=' (empty when there is none), 'name!' or '!name' unsets it, the last one about a name counts, and all of them reach the conversion, where they prevail over what the document declares; output goes to standard output for '-' (nothing else does), to the named file when given, and otherwise beside the input file with the extension replaced by .html; the input file itself is never overwritten.",
 ["inputs","configurations"],"every list of -a flags and output settings",
 "Strings of any shape.",
 ["cmd/libasciidoc/root_cmd.go"],
 [("flags","parseAttributes, getOut")],
 observe=["command line runs"])
p("C21","Manpage validation accepts exactly the well-formed skeleton and never crashes",
 "A document declared as manpage (by the caller or by its own doctype attribute) is accepted without a problem report iff it has the required header, begins with a Name section holding a single paragraph, and has a Synopsis section as second section; any other document, however short or odd, is reported with problems and treated as an article instead of aborting the conversion.",
 ["inputs"],"every document tree",
 "Arbitrary documents, including empty ones.",
 ["pkg/validator/validator.go"],
 [("validation","validator.Validate, validateManpage")],
 observe=["returned problems, rendering"])
json.dump
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
