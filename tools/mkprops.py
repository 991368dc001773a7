#!/usr/bin/env python3
# Regenerates properties.jsonl. Kept as source so that the text is reviewable.
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
API=["Parser::parse_section_buffer","Parser::parse_section","Parser::parse_notebook","getters of the returned values"]
p("C01","No input can crash the parser",
 "For every byte string presented as a section or as a notebook table of contents, parsing returns either a result or an error. It never panics, aborts, overflows the stack or otherwise takes the calling process down, no matter how the bytes were damaged, truncated or crafted.",
 ["inputs"],"all byte strings: well-formed files, damaged files, random bytes, deliberately nested or self-referencing object graphs",
 "The unit tests parse a handful of tiny hand-written buffers and the sample files; they contain no damaged or hostile input, and the quantifier is over all byte strings.",
 ["src/reader.rs","src/fsshttpb","src/onestore","src/one","src/onenote"],
 [("bounds-checked reader returning UnexpectedEof","src/reader.rs"),("typed accessors that turn a wrong type into an error","src/one/property/simple.rs"),("stream header / element type validation","src/fsshttpb/data/stream_object.rs")],API)
p("C02","Parsing effort is bounded by the size of the input",
 "For every input, parsing finishes having executed an amount of work, and with a peak of memory, that is bounded by a fixed low-degree function of the number of bytes it was given. Reference loops, revision loops, and declared counts or lengths that are far larger than the data present never make it run without end or allocate out of proportion. A document twice as large takes at most about four times the work, and about twice the memory unless it returns the same stored data again and again.",
 ["inputs"],"all byte strings up to the sizes generated, in particular cyclic object graphs, cyclic revision chains and inflated counts/lengths",
 "The tests never feed cyclic structures or inflated counts, and do not measure effort.",
 ["src/reader.rs","src/onestore/object_space.rs","src/onestore/revision.rs","src/onestore/types/prop_set.rs","src/onenote/outline.rs","src/onenote/table.rs","src/onenote/notebook.rs","src/fsshttpb/data_element/object_group.rs"],
 [("counts are consumed by reading, not by preallocating","src/onestore/types/prop_set.rs"),("revision chain walk","src/onestore/object_space.rs")],API)
p("C03","Parsing is a pure function of the input",
 "Parsing the same bytes with the same file name always yields the same outcome: an equal result, or an error with the same message. This holds for repeated calls on one parser, for different parser instances, for calls running concurrently in several threads, and for different processes.",
 ["inputs","schedules"],"all inputs (well-formed and damaged) x repetitions, threads and processes",
 "Each test parses once in one process; randomised hash iteration order differs per process and per map, so one run cannot show independence from it.",
 ["src/onestore/mod.rs","src/fsshttpb/data_element/mod.rs","src/fsshttpb/data_element/storage_index.rs","src/onestore/mapping_table.rs","src/onestore/types/prop_set.rs"],
 [("lookups are keyed, not positional, in the hash maps","src/fsshttpb/data_element/mod.rs"),("the parser holds no state","src/onenote/mod.rs")],API)
p("C04","Equivalent physical encodings parse to the same document",
 "The parsed document depends only on the stored objects, not on how the container spells them: the width chosen for variable-length integers and identifiers, 16- or 32-bit record headers, presence of optional serial numbers or metadata blocks, the order of independent elements, how objects are spread over groups, and which of the accepted outer packagings is used, never change the result.",
 ["inputs"],"all documents x all permitted spellings of each encoded value and all permitted element orders",
 "The samples exercise the few spellings OneNote happened to emit; the unit tests check single integers/ids in isolation.",
 ["src/fsshttpb/data/compact_u64.rs","src/fsshttpb/data/exguid.rs","src/fsshttpb/data/stream_object.rs","src/fsshttpb/data/serial_number.rs","src/fsshttpb/packaging.rs","src/fsshttpb/data_element"],
 [("variable width decoding","src/fsshttpb/data/compact_u64.rs"),("ExGuid forms","src/fsshttpb/data/exguid.rs"),("packaging detection","src/fsshttpb/packaging.rs")],API)
p("C05","Pages come back complete, in order, with their attributes",
 "A section yields exactly its page series, each series exactly its pages, and each page exactly its top-level contents, all in stored order with nothing lost, duplicated or moved to another page. Each page keeps its own level, author, height and title (with the title's offsets, alignment and outlines), and the section keeps its colour.",
 ["inputs"],"all section documents: any number of series, pages per series and contents per page, with any combination of optional attributes",
 "Only a handful of sample files are parsed, and their snapshots cover one shape each.",
 ["src/onenote/section.rs","src/onenote/page_series.rs","src/onenote/page.rs","src/onenote/page_content.rs","src/one/property_set/page_node.rs","src/one/property_set/page_metadata.rs","src/one/property_set/title_node.rs","src/one/property_set/page_series_node.rs"],
 [("ordered resolution of child references","src/one/property/object_reference.rs"),("page lookup by object space","src/onestore/mod.rs")],API)
p("C06","Rich text keeps its text, runs and styles",
 "A paragraph is returned with exactly its stored text, one style per text run in run order, the stored run end positions, its base style and its spacing and alignment. Every style attribute (charset, the character flags, fonts, sizes, colours, names, alignment, spacing, language, math and hyperlink flags) reports the stored value, and an attribute that is not stored reports its documented absence or default.",
 ["inputs"],"all paragraphs: any text, any number of runs, every subset and value of the style attributes, styles shared between runs",
 "The samples use a few common styles; unit tests do not build paragraphs.",
 ["src/onenote/rich_text.rs","src/one/property_set/rich_text_node.rs","src/one/property_set/paragraph_style_object.rs","src/one/property/simple.rs"],
 [("style object resolution per run","src/onenote/rich_text.rs")],API)
p("C07","Note tags carry their own definition and status",
 "Every note tag on a paragraph, image, attachment or table is returned in order, each with its own completion time, its own status and the label, icon, colours, property status and type of the definition that this very tag refers to. This holds however many tags an element has and whatever other references the element stores.",
 ["inputs"],"all elements with 0..n note tags, with or without definitions, mixed with any other references before and after the tag list",
 "Sample files hardly contain elements with several tags that refer to different definitions.",
 ["src/one/property_set/note_tag_container.rs","src/onenote/note_tag.rs","src/one/property_set/note_tag_shared_definition_container.rs","src/one/property/note_tag.rs","src/one/property/note_tag_property_status.rs","src/one/property/note_tag_shape.rs"],
 [("per-tag slice of the element's reference list","src/one/property_set/note_tag_container.rs")],API)
p("C08","Tables keep their grid, cell contents and layout",
 "A table is returned with its stored row and column counts, its rows in order, each row's cells in order and each cell's contents in order. Column widths, locked-column flags, border visibility, alignment, cell width, cell indents and cell background colour are those stored for that table and that cell.",
 ["inputs"],"all tables incl. empty and ragged ones, nested tables, and any subset of the optional attributes",
 "One or two sample tables; no test varies the grid or the optional attributes.",
 ["src/onenote/table.rs","src/one/property_set/table_node.rs","src/one/property_set/table_row_node.rs","src/one/property_set/table_cell_node.rs"],
 [("row/cell reference walk","src/onenote/table.rs")],API)
p("C09","Images and attachments are returned byte for byte",
 "The binary content of every image, printout and embedded file is exactly the stored bytes of the object it refers to, however large or small, and never another object's. File names, extension, media type, sizes, offsets, alternative text, link, recognised text, page number, background flag and web embeds are those stored for that element; an image without a stored picture has no data.",
 ["inputs"],"all images/attachments: payloads from empty to large, shared or separate containers, any subset of optional attributes",
 "Samples contain a couple of images; nothing varies sizes, sharing or missing parts.",
 ["src/onenote/image.rs","src/onenote/embedded_file.rs","src/onenote/iframe.rs","src/one/property_set/picture_container.rs","src/one/property_set/embedded_file_container.rs","src/onestore/object.rs","src/fsshttpb/data_element/object_data_blob.rs"],
 [("blob lookup by object id","src/onestore/object.rs")],API)
p("C10","Ink strokes keep their geometry and pen",
 "Every ink drawing is returned with its strokes in order, each stroke's points in order with the stored horizontal and vertical coordinates multiplied by the drawing's horizontal and vertical scale respectively, and with that stroke's pen tip, transparency, colour, width and height. The bounding box is scaled like the points, offsets are those stored, and handwriting inside a paragraph appears as the stored sequence of ink words, spaces and line breaks with their own boxes and offsets.",
 ["inputs"],"all ink: any number of strokes and points, coordinates of any size and sign, dimensions in any order, any scale, embedded or free-standing",
 "Unit tests decode a few multi-byte integers; the samples contain little ink, with equal scales.",
 ["src/onenote/ink.rs","src/one/property_set/ink_container.rs","src/one/property_set/ink_data_node.rs","src/one/property_set/ink_stroke_node.rs","src/one/property_set/stroke_properties_node.rs","src/one/property_set/embedded_ink_container.rs","src/shared/multi_byte.rs","src/one/property/ink_dimensions.rs"],
 [("multi-byte integer decoding","src/shared/multi_byte.rs"),("dimension split","src/onenote/ink.rs")],API)
p("C11","Outlines keep their nesting, indents and list markers",
 "An outline is returned with its items in order at every nesting level, groups and elements being distinguished, each with its own child level, children, contents and list markers. Indent distances, sizes, offsets, alignment and spacing are those stored for that outline or element, and each list marker keeps its format characters, fonts, size, colour, style flags and restart number.",
 ["inputs"],"all outline trees (shape, depth, fan-out) with any subset of optional attributes and any list format string",
 "Sample outlines are shallow, with only default attributes.",
 ["src/onenote/outline.rs","src/onenote/list.rs","src/one/property_set/outline_node.rs","src/one/property_set/outline_element_node.rs","src/one/property_set/outline_group.rs","src/one/property_set/number_list_node.rs","src/one/property/outline_indent_distance.rs"],
 [("recursive item walk","src/onenote/outline.rs")],API)
p("C12","Inline math objects are tied to their own runs",
 "A paragraph's math objects are exactly those stored for its math-formatted runs, in run order, each with its own type, argument count, column, alignment and operator characters. Runs that are not math contribute none.",
 ["inputs"],"all paragraphs with any mix of math and non-math runs and every defined math object type",
 "No sample or unit test varies math objects.",
 ["src/onenote/math_inline_object.rs","src/one/property_set/math_inline_object.rs","src/one/property_set/text_run_data.rs","src/onenote/rich_text.rs"],
 [("zip of run data with run styles","src/onenote/rich_text.rs")],API)
p("C13","The newest revision wins and older ones fill the gaps",
 "When an object space consists of a chain of revisions, every object and every root is taken from the newest revision that supplies it, and objects and roots a newer revision does not supply are inherited from its base, to any chain length. How a given final state is split over revisions and object groups never changes the result.",
 ["histories","inputs"],"all revision histories: any chain length, any subset of objects/roots rewritten at each step, superseded garbage in older revisions",
 "The samples hold a couple of real histories with a fixed outcome; no test constructs a history.",
 ["src/onestore/object_space.rs","src/onestore/revision.rs","src/fsshttpb/data_element/mod.rs","src/fsshttpb/data_element/storage_index.rs"],
 [("newest-first walk that keeps the first value seen","src/onestore/revision.rs"),("base revision resolution through the storage index","src/fsshttpb/data_element/mod.rs")],API)
p("C14","Each reference resolves to the object it was stored for",
 "Which object a property refers to does not depend on the order in which an object's properties are stored, on unrelated properties being present (known, unknown, nested, or holding references of any kind), or on how the object's local identifier table is numbered. Every reference list is resolved completely and in order.",
 ["inputs"],"all property orders, all interleavings with additional reference-carrying properties, all local id numberings incl. repeated local ids",
 "The samples have one fixed property order and numbering per object kind.",
 ["src/one/property/object_reference.rs","src/one/property/object_space_reference.rs","src/one/property/references.rs","src/onestore/mapping_table.rs","src/onestore/object.rs","src/onestore/types/object_prop_set.rs"],
 [("offset = references held by preceding properties","src/one/property/references.rs"),("local id table","src/onestore/mapping_table.rs")],API)
p("C15","A notebook lists its existing entries once, in stored order",
 "Opening a table of contents yields its entries sorted by their stored order number, each file as a section and each folder as a group holding what that folder's own table of contents lists, recursively, with escaped characters in names restored. Entries that do not exist and the recycle bin are left out, an entry listed twice in a row appears once, and the notebook's colour is the stored one.",
 ["inputs","configurations"],"all table-of-contents trees x directory contents: any order numbers, missing files, folders, nested folders, duplicate entries",
 "Two sample notebooks with one layout each.",
 ["src/onenote/mod.rs","src/onenote/notebook.rs","src/one/property_set/toc_container.rs"],
 [("sort by ordering id, dedup, existence filter","src/onenote/notebook.rs"),("folder recursion","src/onenote/mod.rs")],["Parser::parse_notebook"])
p("C16","A table of contents cannot reach outside its folder",
 "Whatever names a table of contents stores, no file outside the folder it lies in is ever opened: absolute names, parent-directory components, names with forbidden characters, empty names and links leading outside are refused with an error. Plain names of files inside the folder (no forbidden character, not beginning or ending with a space or dot, not a reserved device name) are accepted.",
 ["inputs","configurations"],"all entry names (arbitrary strings, path tricks, separators, special names) x directory layouts with links",
 "Three unit tests check three fixed names; links and combined forms are not tried.",
 ["src/onenote/mod.rs"],
 [("component check, sanitising, canonical prefix check","src/onenote/mod.rs")],["Parser::parse_notebook"])
p("C17","A truncated file is always reported as an error",
 "If a file is cut anywhere before the end of its package, parsing it reports an error. It never returns a document built from the remaining part.",
 ["inputs","crash_points"],"all documents x all cut positions",
 "Only a few header-level short reads are unit-tested; no test cuts a whole file.",
 ["src/reader.rs","src/fsshttpb/packaging.rs","src/fsshttpb/data_element/mod.rs"],
 [("UnexpectedEof on short reads","src/reader.rs"),("mandatory end markers","src/fsshttpb/data/stream_object.rs")],API)
p("C18","Missing or dangling mandatory data is an error, never a guess",
 "If an object that the document structure points to is absent, is of the wrong kind, lacks a mandatory attribute, or stores an attribute with an out-of-range or wrongly typed value, parsing reports an error. It never returns a document in which the affected element is silently dropped or replaced by a default.",
 ["inputs","fault_sequences"],"all documents x all single faults: remove one referenced object, change its kind, drop one mandatory attribute, retype one attribute, store an undefined enumeration value, drop a container element",
 "No test injects such faults.",
 ["src/one/property_set","src/one/property","src/onenote","src/onestore"],
 [("ok_or_else on every mandatory attribute and lookup","src/one/property_set"),("kind assertion","src/one/property_set/mod.rs")],API)
p("C19","All entry points agree",
 "Parsing a section from a path, from a buffer holding the same bytes, or through a notebook or section group that lists it gives the same section. The outcome does not depend on which parser instance is used, on earlier parses (successful or failed), or on bytes that follow the package.",
 ["inputs","histories"],"all documents and damaged documents x all sequences of parser calls",
 "Tests use each entry point once on different files.",
 ["src/onenote/mod.rs","src/onenote/section.rs"],
 [("shared parse path","src/onenote/mod.rs")],API)
p("C20","Files of the wrong kind are recognised and refused",
 "A file is accepted as a section only if its stored kind says section, and as a notebook only if it says table of contents; presenting one as the other is refused with the dedicated error that names the file. Data that is not the supported packaging at all is refused with an error.",
 ["inputs"],"all well-formed files of either kind or of an unknown kind, through every entry point, plus files with a foreign format identifier",
 "No test presents the wrong kind of file.",
 ["src/onenote/mod.rs","src/fsshttpb/packaging.rs","src/errors.rs"],
 [("schema id comparison","src/onenote/mod.rs"),("file format id check","src/fsshttpb/packaging.rs")],API)
p("C21","The title text is the first text a reader would see",
 "A page's title text is the first paragraph of the title if it has text; otherwise it is the leading paragraph of the first outline on the page that starts with one that has text. If there is neither, there is no title text.",
 ["inputs"],"all pages: with/without title, empty title paragraphs, outlines starting with groups, images, tables or empty text",
 "No test covers the fallback.",
 ["src/onenote/page.rs"],
 [("title_text fallback chain","src/onenote/page.rs")],["Page::title_text"])
p("C22","Parsing never changes the file system",
 "Parsing a section or a notebook, successfully or not, leaves every file and directory as it was: same names, contents, permissions, link targets and modification times. It creates, renames and deletes nothing.",
 ["inputs","configurations"],"all notebook directories and entry names, valid and hostile",
 "Tests do not inspect the directory after parsing.",
 ["src/onenote/mod.rs"],
 [("files are opened read-only","src/onenote/mod.rs")],["Parser::parse_notebook","Parser::parse_section"])
p("C23","Coded values decode to the documented meaning",
 "Every coded value stored in a file (character sets, tag icons and whether they are checkable, task types and status bits, paragraph and layout alignments, colours, media types, math object types) is reported as the meaning the format assigns to it, and distinct meanings are never merged. A code outside the defined range is reported as an error or as unknown, as documented for that value.",
 ["inputs"],"the complete range of every coded value",
 "No test covers the tables; the samples use a few codes.",
 ["src/one/property/charset.rs","src/one/property/note_tag_shape.rs","src/one/property/note_tag.rs","src/one/property/note_tag_property_status.rs","src/one/property/layout_alignment.rs","src/one/property/paragraph_alignment.rs","src/one/property/color.rs","src/one/property/color_ref.rs","src/one/property/file_type.rs","src/onenote/math_inline_object.rs"],
 [("decode tables","src/one/property")],API)
p("C24","Display names follow one rule",
 "A section's display name is the name stored in the section if there is one, otherwise the file's own name; in either case without the section file extension. A section group's display name is the name of its folder.",
 ["inputs"],"all stored names and file names incl. empty, non-ASCII, dotted and extension-like names",
 "The samples contain a few ordinary names.",
 ["src/onenote/section.rs","src/onenote/mod.rs","src/one/property_set/section_metadata_node.rs"],
 [("display name selection","src/onenote/section.rs")],["Section::display_name","SectionGroup::display_name"])
p("C25","Stored text decodes exactly",
 "Every text attribute (texts, titles, names, authors, links, labels, fonts; list markers' number formats are codes, not text) is returned as exactly the stored UTF-16 text up to its terminator, including characters outside the basic plane, and a paragraph stored only in the 8-bit form is decoded as Latin-1. Text that is not valid UTF-16 is reported as an error and never returned altered.",
 ["inputs"],"all strings in all text-valued attributes, with and without terminator or trailing bytes, plus invalid surrogate sequences",
 "Samples contain a few ASCII/umlaut strings; surrogates, terminators and 8-bit text are not varied.",
 ["src/utils.rs","src/one/property/simple.rs","src/one/property_set/rich_text_node.rs"],
 [("UTF-16 conversion","src/utils.rs"),("8-bit fallback","src/one/property_set/rich_text_node.rs")],API)
p("C26","Unknown content is tolerated and leaves the rest intact",
 "Page or outline content of a recognised object kind that has no representation at its position appears as an unknown item there, and attributes or objects it does not know are skipped. Neither changes how any other part of the document is reported.",
 ["inputs"],"all documents x insertions of unsupported content kinds, unknown attributes of every value type, and unreferenced objects, groups, elements and object spaces",
 "Samples only contain what OneNote wrote at the time.",
 ["src/onenote/content.rs","src/onenote/page_content.rs","src/onestore/types/prop_set.rs","src/fsshttpb/data_element/mod.rs"],
 [("Unknown variants","src/onenote/content.rs"),("typed skipping of property values","src/onestore/types/property.rs")],API)
p("C27","The command-line tool reports what the library parses",
 "For every path the command-line tool exits successfully and prints the parsed structure if and only if the library parses that path, choosing notebook or section parsing by the file's extension; otherwise it exits with a failure status and prints no structure.",
 ["inputs"],"all section and notebook files, valid and damaged, and paths that do not exist",
 "No test runs the tool.",
 ["src/bin/onenote-parse.rs"],
 [("extension dispatch","src/bin/onenote-parse.rs")],["exit status and output of onenote-parse"])
p("C28","Pages do not leak into one another",
 "Identifiers are scoped to the object space that stores them: two pages may use the same object identifiers for different objects and each page is still reported from its own objects only. Changing one page's stored content changes the report of that page and of nothing else.",
 ["inputs"],"all multi-page sections whose pages reuse each other's object identifiers, and all single-page edits",
 "In the samples identifiers are globally unique, so mixing up object spaces would go unnoticed.",
 ["src/onestore/mod.rs","src/onestore/object_space.rs","src/onestore/revision.rs","src/onenote/page_series.rs"],
 [("per-cell object maps","src/onestore/object_space.rs"),("cell id keyed lookup","src/onestore/mod.rs")],API)
out=open("/verif/properties.jsonl","w")
for x in P: out.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
