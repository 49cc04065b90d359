#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.

Run by hand after editing; the results are committed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests can't, files, mechanism, (technique, level, note)
P = []


def prop(pid, title, statement, over, quant, why, files, mech, tech, level, note):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=["ezodf/" + f for f in files],
                  mech=[dict(name=n, where="ezodf/" + w) for n, w in mech],
                  tech=tech, level=level, note=note))


prop("P01", "Saving survives a crash at every point",
     "If the process dies at any moment while a document is saved over an existing file, a complete "
     "document is found afterwards: the file itself holds the complete old or the complete new "
     "document, or, when backups are enabled, the file is momentarily missing and the backup holds "
     "the complete old document. A file that exists under the document's name is never truncated "
     "or mixed.",
     ["crash_points", "histories"],
     "every write/rename/unlink/truncate boundary and every torn write of a save, for packages, "
     "packages opened from memory and single-XML-file documents, with and without backup and an "
     "older backup",
     "Tests run saves to completion; none stops a save half way, so no test can see an intermediate "
     "state of the file system.",
     ["filemanager.py", "bytestreammanager.py", "document.py", "compatibility.py"],
     [("write a temporary file, then rename", "filemanager.py FileManager.save / install_file"),
      ("flat XML saving", "document.py FlatXMLDocument._saving_routine")],
     "exhaustive crash-point enumeration on the real save path (process killed at every system call "
     "and inside every write)", "fault_enumeration",
     "Every intercepted file-system call of a save is a crash point, and every write is torn at "
     "several lengths. Process-crash model: data handed to the kernel survives; no power-loss/fsync "
     "claim, because the library never syncs.")

prop("P02", "A failed save or open never loses data and can be repeated",
     "If any single I/O operation fails while a document is saved or opened, or all writes, all "
     "changes or all reads fail from some point on, or a part of the document cannot be serialised, the call raises an error instead of reporting success with an "
     "incomplete result; the existing file (or its backup) still holds the complete previous "
     "document and no temporary files stay behind. The document in memory keeps its content, and "
     "the next save without a fault writes the complete document.",
     ["fault_sequences", "inputs"],
     "each single I/O call of a save/open failing with each of several errors; each document part "
     "failing to serialise; file, in-memory package, stream and flat XML targets",
     "Tests never inject I/O errors; a swallowed error only shows up when the disk is full or a "
     "network share goes away.",
     ["filemanager.py", "bytestreammanager.py", "document.py"],
     [("temporary file and rollback", "filemanager.py FileManager.save, install_file"),
      ("source package must be readable", "filemanager.py FileManager.get_bytes, _copy_zip_to")],
     "exhaustive single-fault injection at every system call of the real save/open path",
     "fault_enumeration",
     "One fault, or one point from which a class of calls keeps failing, per execution: at every "
     "intercepted call and for each errno; serialisation failures of every registered part. If every "
     "change fails after the old file was renamed, it is the backup which holds the document.")

prop("P03", "Every saved package is a well-formed ODF package",
     "Whatever was done to a document before, every package it writes - to a file, to a stream or "
     "as bytes - is a readable zip file whose first member is the uncompressed mimetype matching "
     "the document, contains content, styles, meta data and manifest as well-formed XML, has no "
     "duplicate members, and its manifest lists every member exactly once with the document's "
     "mimetype at the root.",
     ["histories", "inputs", "configurations"],
     "all document types x all ways to obtain a document x all operation/save sequences up to a depth",
     "Tests check one freshly saved document per type; packages degrade through sequences "
     "(open, save, save again, save as another name, stream and bytes).",
     ["filemanager.py", "manifest.py", "document.py", "content.py", "styles.py", "meta.py"],
     [("members are written once, mimetype first", "filemanager.py FileManager._tozip"),
      ("manifest registration", "manifest.py Manifest.add")],
     "bounded exhaustive exploration of open/edit/save histories of the real code with an "
     "independent package checker as invariant", "model_checking",
     "All histories up to the depth over the listed operations; the oracle uses zipfile/lxml only.")

prop("P04", "Opening and saving preserves everything that was not changed",
     "Opening a document and saving it again keeps every member the library does not manage "
     "byte for byte, keeps all content, styles and meta data that were not edited, and creating a "
     "document from a template or working on a document never modifies the source it was read from "
     "until that source itself is saved over.",
     ["inputs", "histories"],
     "packages with every mix of members (pictures, settings, sub-documents, compressed or stored, "
     "any order, missing optional parts) x save targets x repetitions",
     "Tests use a few sample files and look at single members; preservation must hold for every "
     "member and content the library does not know.",
     ["filemanager.py", "bytestreammanager.py", "document.py", "content.py", "body.py"],
     [("unmanaged members are copied", "filemanager.py FileManager._copy_zip_to")],
     "exhaustive enumeration of package shapes x save histories with a byte/tree comparison "
     "against the source", "exploration",
     "Content trees are compared element by element; only the elements the library documents to "
     "maintain (generator, date, editing cycles, empty declarations) may differ.")

prop("P05", "Edits survive saving and opening, in every order",
     "After any sequence of edits, saves and reopenings of a document, a newly opened copy shows "
     "exactly the content an in-memory model of the edits predicts; saving has no effect on the "
     "content of the document that stays open, and unsaved edits never reach the file.",
     ["histories"],
     "all sequences of edit/save/save-as/reopen operations up to a depth, for every document type, "
     "via files, bytes and streams",
     "Tests save once after one edit; lost or duplicated edits need interleavings of edits, saves "
     "and reopenings.",
     ["document.py", "filemanager.py", "bytestreammanager.py", "content.py", "meta.py"],
     [("parts are serialised from the live trees", "filemanager.py FileObject.tobytes")],
     "bounded exhaustive exploration of edit/save/reopen histories against a reference model",
     "model_checking",
     "All histories to the depth; the model is a plain Python structure per document type.")

prop("P06", "Document types are created and recognised correctly",
     "Every documented document type can be created, reports its type and mimetype, writes them "
     "into the package and is recognised again from a path, bytes, a stream or a single XML file, "
     "with the type decided by the content and not by the file name; a document created from a "
     "template gets the matching non-template type. Anything that is not an OpenDocument file, or "
     "one whose parts are not well-formed XML, is refused with an error.",
     ["inputs", "configurations"],
     "all document types x all sources x all ways the type can be recorded (mimetype member, "
     "manifest, extension) x wrong or missing information",
     "Tests try a handful of types with one source each.",
     ["document.py", "const.py", "filemanager.py"],
     [("type detection", "document.py opendoc / newdoc"), ("type tables", "const.py")],
     "exhaustive enumeration of types x sources x recorded information", "exploration",
     "Complete cross product. Formula documents cannot be created (known finding).")

prop("P07", "Tables behave like a grid under every sequence of row/column operations",
     "Every sequence of appending, inserting and deleting rows and columns, setting cells, clearing "
     "and resizing leaves a table that is exactly the rectangular grid these operations describe: "
     "counts, cell contents by index, name or negative index, rows, columns, row and column "
     "information and the written document all agree, also for tables read from documents with "
     "header rows, groups, repeated or missing parts.",
     ["histories", "inputs"],
     "all operation sequences up to a depth on new tables and on tables from documents of every "
     "structural form",
     "Tests apply single operations to a 10x10 table; off-by-one and bookkeeping errors need "
     "sequences and unusual table structures.",
     ["table.py", "tablerowcontroller.py", "tablecolumncontroller.py", "tableutils.py",
      "tablenormalizer.py"],
     [("row bookkeeping", "tablerowcontroller.py TableRowController"),
      ("column bookkeeping", "tablecolumncontroller.py TableColumnController")],
     "bounded exhaustive exploration of operation sequences against a grid model", "model_checking",
     "Every sequence up to the depth on small tables; grids up to about 10x10 cells.")

prop("P08", "Rejected table operations change nothing",
     "A table operation with an index outside of the table, a non-positive count or size, a "
     "malformed cell name, something that is not a cell, or that would remove all rows or columns "
     "raises an error and leaves the table exactly as it was and fully usable.",
     ["inputs", "histories"],
     "every invalid index/count/size/address up to three beyond every border, after every listed "
     "prefix of operations and table source",
     "Tests check a few errors, but not that the table is untouched afterwards.",
     ["table.py", "tablerowcontroller.py", "tablecolumncontroller.py", "cellspancontroller.py",
      "tableutils.py"],
     [("arguments are checked before the first change",
       "tablerowcontroller.py TableRowController._checked_index")],
     "exhaustive enumeration of invalid calls in many table states, tree comparison", "exploration",
     "Complete for the listed borders; error class must be ValueError/IndexError/KeyError/TypeError.")

prop("P09", "Repeated rows, columns and cells are expanded exactly as configured",
     "A table read from a document shows every repeated row, cell and column as often as the "
     "configured strategy says - all of them, all but the last one, or all with fewer repetitions "
     "than the limit (others once) - with content, order and formatting kept, short rows filled up "
     "to a rectangle, and the expanded copies independent of each other.",
     ["inputs", "configurations"],
     "all combinations of repetition counts, positions, ragged rows, cell kinds and strategies in "
     "the bounds, including the default limit and its neighbours",
     "Tests use a few tables; boundaries of the limit, ragged rows and combinations are not covered.",
     ["tablenormalizer.py", "tablecolumncontroller.py", "conf.py"],
     [("strategies", "tablenormalizer.py"), ("column strategies", "tablecolumncontroller.py")],
     "exhaustive enumeration of repetition shapes x strategies against an independent expansion",
     "exploration", "Complete cross product within the listed counts.")

prop("P10", "Cell spans form a set of disjoint rectangles",
     "After any sequence of setting and removing cell spans, exactly the cells inside a spanned "
     "area other than its first cell are covered and exactly the first cells report their span; a "
     "span that overlaps another one or leaves the table is refused without any change. Contents "
     "and formatting of the cells are not affected, and spans read from documents behave the same, "
     "also those which reach beyond the cells of the table: they are removed without an error.",
     ["histories"],
     "all sequences of set/remove calls up to a depth on small tables (breadth-first over sets of "
     "rectangles, and all plain sequences)",
     "Tests set one or two spans; overlaps through covered cells need specific pairs and orders.",
     ["cellspancontroller.py", "cells.py", "table.py"],
     [("overlap test and covering", "cellspancontroller.py CellSpanController")],
     "explicit-state search over span sets, every transition executed on the real code",
     "model_checking", "All sets on tables up to 4x4 cells; single spans of every shape and position on "
     "larger ones, up to 300 rows or columns.")

prop("P11", "A cell's value, type, currency and text always agree",
     "After any sequence of value changes a cell reports the last value with its type (numbers as "
     "float, booleans as bool, all others as text), a currency only for currency values and no "
     "remains of previous values; text appended to text cells is added at the end, display text "
     "does not change the value, and formula, style and protection are kept. An invalid value "
     "(such as text for a numeric type) or type is refused and leaves the cell as it was.",
     ["histories", "inputs"],
     "all sequences up to a depth over value kinds x types x currencies, text and display "
     "operations, from new cells and cells of documents of every type",
     "Tests set each type once on a new cell; remains of the previous value need type changes in "
     "sequence.",
     ["cells.py", "text.py"],
     [("old value is cleared", "cells.py Cell.set_value")],
     "bounded exhaustive exploration of cell histories against a record model", "model_checking",
     "Value alphabet is small but covers every type, zero, empty text and whitespace.")

prop("P12", "Cell names and indices address the same cell",
     "Spreadsheet cell names (any case), (row, column) pairs and negative indices address the same "
     "cells for all getters and setters of a table, one cell per position; placing a cell that is "
     "already part of a table somewhere else puts an independent copy there and leaves the source "
     "as it is. Positions outside of the table are refused.",
     ["inputs"],
     "all column names with one to three letters and combinations of the letters A, B, M, Y, Z "
     "with four and five letters, row numbers up to the maximum "
     "of common spreadsheet programs, every cell of several grids in every notation",
     "Tests convert six addresses.",
     ["tableutils.py", "table.py", "tablerowcontroller.py"],
     [("address conversion", "tableutils.py address_to_index")],
     "exhaustive enumeration of addresses and cells", "exploration",
     "Complete for the stated address ranges.")

prop("P13", "Sheets and pages behave like a list with names",
     "The sheets of a spreadsheet and the pages of a drawing or presentation behave like a list: "
     "length, order, iteration, access, replacement and deletion by index (also negative) or name, "
     "appending, inserting and index lookup always agree with a list of the same operations, also "
     "in the saved document. Other parts of the document body are not touched or reordered, and "
     "invalid keys or objects are refused without any change.",
     ["histories", "inputs"],
     "all operation sequences up to a depth on bodies with and without other elements before, "
     "between and behind the sheets/pages",
     "Tests use single operations on documents without other body elements.",
     ["pagecontainer.py", "sheets.py", "pages.py", "wrapcache.py"],
     [("positions relative to managed children", "pagecontainer.py AbstractPageContainer")],
     "bounded exhaustive exploration of container histories against a list model",
     "model_checking", "Up to about six sheets/pages; names drawn from a small alphabet.")

prop("P14", "Text is stored without loss, including all white space",
     "For every text, the plain text read back from a paragraph, heading, span, hyperlink, list "
     "item or cell is the text that was put in - runs of spaces, tabs and line breaks at every "
     "position included - its reported length is the length of the plain text, and reading it "
     "according to the white-space rules of the document format gives the same text.",
     ["inputs", "histories"],
     "all strings up to a length over {letter, space, tab, line break} and all splits into "
     "successive appends, for every text element",
     "Tests try about twenty strings; encoding errors depend on the exact run structure.",
     ["whitespaces.py", "text.py", "cells.py"],
     [("encoder", "whitespaces.py _WhitespaceEncoder"), ("append", "text.py Span.append_text")],
     "exhaustive enumeration of strings (and splits) up to a length with an independent ODF "
     "white-space reader", "exploration",
     "Complete up to the length. Known findings: a plain space at the start or end of a text (and "
     "two plain spaces at the joint of an append) is dropped by the format's white-space rules.")

prop("P15", "Composed text and lists read back in document order",
     "The plain text of a text element is the concatenation of its own text and its children's "
     "texts in document order, whatever mixture and nesting of spans, hyperlinks and white space "
     "elements it contains; lists keep header and items in order, with the header first and "
     "at most once.",
     ["inputs", "histories"],
     "all trees up to a size over the inline elements; all sequences of list operations up to a "
     "depth",
     "Tests cover two or three nestings.",
     ["text.py", "whitespaces.py", "__init__.py", "base.py"],
     [("plaintext", "text.py Span.plaintext, ListHeader.plaintext"), ("list helper", "__init__.py ezlist")],
     "exhaustive enumeration of inline trees and list histories against a model", "model_checking",
     "Trees with up to 4 (thorough: 5) nodes.")

prop("P16", "Body content keeps its place between declarations and trailing elements",
     "Appending content to a text document puts it behind all previous content but in front of the "
     "elements that have to end the body, and declarations the library adds are placed in front of "
     "all content at their prescribed place; existing elements keep their relative order.",
     ["inputs", "histories"],
     "all bodies composed of declaration, content and trailing elements up to a size x all "
     "append/insert sequences up to a depth",
     "Tests use a body with one element of each kind.",
     ["body.py", "nodeorganizer.py", "nodestructuretags.py"],
     [("epilogue position", "nodeorganizer.py EpilogueTagBlock"),
      ("declarations", "body.py GenericBody._get_declarations")],
     "exhaustive enumeration of body shapes x operation sequences", "model_checking",
     "Bodies that follow the order prescribed by the format.")

prop("P17", "Meta data fields behave like a dictionary and track saving",
     "Every supported meta data field returns the last value set, independent of all other fields, "
     "and exists at most once; unknown names are refused. Every save increases the editing cycles "
     "by one, sets the modification date and the generator, and nothing else; clearing removes all "
     "entries.",
     ["histories", "inputs"],
     "all sequences of set/read/save/clear operations up to a depth on new documents and on "
     "documents with given meta data (also incomplete or damaged counters)",
     "Tests set each field once and save once.",
     ["meta.py", "document.py"],
     [("fields", "meta.py OfficeDocumentMeta"), ("save hooks", "document.py _BaseDocument.save")],
     "bounded exhaustive exploration of meta data histories against a dictionary model",
     "model_checking", "Small value alphabet incl. XML-special and non-ASCII text.")

prop("P18", "Keywords, user tags and statistics are a set and two dictionaries",
     "Keywords behave like a set, user defined tags like a dictionary of values with a type, and "
     "document statistics like a dictionary of counters with default 0, under every sequence of "
     "their operations, without affecting each other or other meta data; unknown statistic names "
     "and missing tags are refused.",
     ["histories"],
     "all operation sequences up to a depth over two to three names and values per container, on "
     "empty and on given meta data",
     "Tests do one add/remove per container.",
     ["meta.py"],
     [("containers", "meta.py Keywords, Usertags, Statistic")],
     "explicit-state exploration of container histories against set/dict models", "model_checking",
     "Names and values from a small alphabet, incl. empty statistics; documents without "
     "duplicate entries and with integer statistics.")

prop("P19", "Simple variables are consistent with all their fields",
     "Setting a simple variable updates the declaration and every field that sets, shows or inputs "
     "this variable - anywhere in the document - to the same value and type, leaves all other "
     "variables and the remaining document alone, and reading it returns the value with its Python "
     "type, also where the fields of a document show a localized form of it.",
     ["histories", "inputs"],
     "all assignment sequences up to a depth over numbers, booleans and texts, on documents with "
     "every mix of field kinds and initial types",
     "Tests assign one value of each type to one sample document.",
     ["variables.py", "body.py"],
     [("propagation", "variables.py SimpleVariable.value")],
     "bounded exhaustive exploration of assignment histories against a dictionary model",
     "model_checking", "Empty text may read as None (documented tolerance).")

prop("P20", "User fields are consistent with all their fields",
     "Setting a user field stores value and type in its declaration, removes the previous typed "
     "value, updates every field that shows or inputs it, wherever it is, leaves everything else alone, and "
     "reading it returns the value with its Python type.",
     ["histories", "inputs"],
     "all assignment sequences up to a depth over numbers, booleans and texts, on documents with "
     "every mix of field kinds and initial types",
     "Tests assign one value of each type to one sample document.",
     ["variables.py", "body.py"],
     [("propagation", "variables.py UserField.value")],
     "bounded exhaustive exploration of assignment histories against a dictionary model",
     "model_checking", "Same alphabet as P19.")

prop("P21", "Style containers behave like dictionaries in document order",
     "Looking up a style by name always returns the style that is in the document under this name "
     "at this moment, assigning replaces the style with this name in place or appends a new one, "
     "missing names raise an error, style attributes read back what was written, and injected "
     "styles are found and saved.",
     ["histories"],
     "all sequences of lookup/assign/rename/inject operations up to a depth for each style "
     "container and style kind",
     "The containers have almost no tests.",
     ["styles.py", "document.py"],
     [("lookup", "styles.py Container"), ("inject", "document.py inject_style")],
     "bounded exhaustive exploration of container histories against an ordered dictionary",
     "model_checking", "Three names, all style kinds with a name.")

prop("P22", "Documents do not influence each other",
     "Operations on one document never change another open document, whatever the order in which "
     "documents are created, edited, saved, copied between and dropped - including documents "
     "created from the same template, bytes or stream and objects whose memory is reused.",
     ["histories"],
     "all interleavings of operation sequences of two documents up to a length, for all pairs of "
     "document kinds and sources",
     "Tests use one document at a time; global caches and class level state only show with two.",
     ["wrapcache.py", "observer.py", "conf.py", "document.py", "xmlns.py", "whitespaces.py"],
     [("object cache", "wrapcache.py"), ("event delivery", "observer.py")],
     "exhaustive exploration of interleaved histories of two documents against two models",
     "model_checking", "Two documents, up to three operations each.")

prop("P23", "Threads working on different documents do not disturb each other",
     "When two threads each work on a document of their own, every interleaving gives both "
     "documents exactly the result they get when the threads run one after the other, without "
     "errors.",
     ["schedules"],
     "all schedules with up to two (thorough: more) preemptions at source line granularity for "
     "pairs of small programs",
     "Thread schedules in tests are chosen by the operating system; races in global state need a "
     "switch at one exact line.",
     ["whitespaces.py", "wrapcache.py", "xmlns.py", "observer.py", "tablenormalizer.py"],
     [("no shared encoder state", "whitespaces.py encode_whitespaces")],
     "stateless model checking of the real code under a controlled scheduler with a preemption "
     "bound", "model_checking",
     "Line granularity inside the library; C code (lxml, zipfile) is atomic.")

prop("P24", "Events reach exactly the right listeners",
     "An event is delivered exactly once to every live subscriber of this event - of the given "
     "document only, if one is given - and to nobody else, whatever the sequence of subscribing, "
     "unsubscribing, dropping subscribers and broadcasting, also when handlers (un)subscribe; "
     "saving a document notifies its listeners once before and once after.",
     ["histories"],
     "all operation sequences up to a depth over two events, three listeners and two documents",
     "Tests use one event and one listener.",
     ["observer.py", "document.py"],
     [("delivery", "observer.py Observer.broadcast")],
     "explicit-state exploration of observer histories against a set model", "model_checking",
     "Listeners with and without a document; weak references are dropped by reference counting.")

prop("P25", "The children of an element behave like a list",
     "Appending, inserting, replacing, removing, indexing, slicing-free access and iteration of an "
     "element's children behave like the same operations of a list, invalid positions are refused, "
     "text which follows a child moves and leaves together with it, and attribute access stores and "
     "returns exactly what was set.",
     ["histories"],
     "all operation sequences up to a depth on elements with up to four children",
     "Tests call each operation once on one element.",
     ["base.py"],
     [("list operations", "base.py GenericWrapper")],
     "bounded exhaustive exploration of operation sequences against a list model", "model_checking",
     "Children are distinct elements; positions from -3 to 3.")

prop("P26", "Dates, times and durations convert without loss",
     "Converting a date, a date with time or a duration to its text form and back gives the same "
     "value (fractions of a second to four digits, for dates with time without them), texts in the documented forms are parsed to "
     "the value they denote, negative durations included, and other texts are refused.",
     ["inputs"],
     "all combinations of component boundary values (including absent components and signs)",
     "Tests convert about twenty values.",
     ["timeparser.py"],
     [("parser", "timeparser.py TimeParser.parse"), ("writer", "timeparser.py duration_to_string")],
     "exhaustive enumeration of component combinations against an independent calculation",
     "exploration", "Years count 365 days and months 30 days, as the library defines.")

prop("P27", "Table copies are complete and independent; clearing keeps the shape",
     "A copy of a table has the same content, structure and formatting under a new name, and "
     "changing either of them in any way never changes the other one. Clearing a table keeps its "
     "name and size and removes all content; resetting gives it exactly the requested size. Tables "
     "inside of cells are copied with their names.",
     ["histories", "inputs"],
     "all pairs of (history before copying, history after copying on either side) up to the bound, "
     "for every table source",
     "Tests copy one new table and compare the name.",
     ["table.py", "tablerowcontroller.py", "tablecolumncontroller.py"],
     [("deep copy", "table.py Table.copy"), ("reset", "table.py Table.reset")],
     "exhaustive enumeration of change pairs against two grid models", "exploration",
     "One change before and one (thorough: two) after copying.")

prop("P28", "Typed properties of document elements read back what was set",
     "Every property of headings, paragraphs, lists, sections, hyperlinks, cells, rows, columns, "
     "tables and pages returns the value that was set, with its documented type, default and "
     "limits, is stored in the attribute the document format prescribes, is independent of all "
     "other properties and of the content, and refuses values outside of its documented range.",
     ["inputs", "histories"],
     "all properties x all values of a small domain x all ordered pairs of property assignments",
     "Tests set most properties once.",
     ["text.py", "cells.py", "table.py", "propertymixins.py", "drawingpage.py"],
     [("property mixins", "propertymixins.py")],
     "exhaustive enumeration of assignment pairs against an attribute model", "exploration",
     "Attribute names are taken from the OpenDocument specification.")

prop("P29", "Names in prefix notation and wrapper classes map consistently",
     "Prefix notation is converted to the namespace of the OpenDocument format for every known "
     "prefix, names already in namespace notation stay unchanged, repeated and interleaved lookups "
     "and new registrations never return outdated results, and every element read from a document "
     "is represented by the class of its element kind.",
     ["inputs", "histories"],
     "all prefixes x names x registration histories (namespaces and element classes) up to a "
     "depth; all registered element kinds",
     "Tests convert two names.",
     ["xmlns.py", "const.py"],
     [("conversion and cache", "xmlns.py _XMLNamespaces"), ("class registry", "xmlns.py _ClassRegistry")],
     "exhaustive enumeration of names and registration histories", "model_checking",
     "Namespaces are compared with a table from the OpenDocument specification.")

prop("P30", "The manifest is a dictionary of package members",
     "Adding, replacing, finding and removing manifest entries behaves like a dictionary keyed by "
     "the member path, in order of insertion, with at most one entry per path and never an entry "
     "for the manifest itself; what is written is what was stored.",
     ["histories"],
     "all operation sequences up to a depth over a few paths, media types and versions, from empty "
     "and given manifests",
     "Tests add and remove one entry.",
     ["manifest.py"],
     [("entries", "manifest.py Manifest")],
     "explicit-state exploration of manifest histories against an ordered dictionary",
     "model_checking", "Paths and types from a small alphabet.")

prop("P31", "Single-file XML documents keep their structure and content",
     "A document in the single XML file form can be opened, edited and saved any number of times: "
     "all required parts exist exactly once in the prescribed order, existing parts and content "
     "are kept, edits and meta data survive, and the mimetype stays the same.",
     ["inputs", "histories"],
     "all subsets of existing parts x all document types x all edit/save sequences up to a depth",
     "Tests open one single-file document.",
     ["document.py", "meta.py", "styles.py"],
     [("part setup", "document.py FlatXMLDocument._setup")],
     "exhaustive enumeration of part subsets and histories against a model", "model_checking",
     "All 2^8 subsets of top-level parts.")

prop("P32", "Saving changes exactly the document file and its backup",
     "A save writes the file it is meant for and nothing else: with backups switched on the content "
     "the file had before is afterwards the file with '.bak' appended, with backups switched off - or "
     "for documents opened from bytes or streams - no backup is created or changed. Saving under "
     "another name makes this the name of the document, saving to a stream replaces the content of "
     "the stream only, a save without name or into a missing folder fails without any change, and no "
     "file stays open.",
     ["histories"],
     "every sequence of save, save under three other names (existing or not), save to a stream, "
     "switching backups, edits, foreign changes and removals of the files, failing saves and "
     "reopening up to a depth, for packages from paths, bytes, streams and templates, new documents "
     "and single-file documents, with and without older backups",
     "Tests look for one backup after one save; which file is touched depends on the history of names "
     "and switches.",
     ["document.py", "filemanager.py", "bytestreammanager.py", "compatibility.py"],
     [("backup and replacement", "filemanager.py install_file, FileManager.save"),
      ("names and switches", "document.py _BaseDocument.saveas/save, _saving_routine")],
     "exhaustive bounded exploration of save histories on the real library in a scratch folder, every "
     "state of the folder compared with a model of the files", "model_checking",
     "Depth 3 (thorough 4) over 13 operations; content of every file in the folder is compared.")

prop("P33", "Packages and document bodies are validated correctly",
     "The validity check for packages accepts every package the library writes and exactly those "
     "zip files which start with the uncompressed mimetype in question, contain content, styles, meta "
     "data and a manifest which lists them and the mimetype; everything else is not valid. The check "
     "of document bodies accepts exactly the bodies whose elements are prelude elements in their "
     "order, content elements and trailing elements in their order, and changes nothing.",
     ["inputs"],
     "every subset of missing members x order x compression, every subset of unlisted members x "
     "variants of the media type, every pair of document types, damaged files; all sequences of six "
     "kinds of elements up to a length",
     "Tests check one valid package and some bodies; each condition matters only for one kind of "
     "damage.",
     ["filemanager.py", "nodestructurechecker.py", "nodeorganizer.py"],
     [("package check", "filemanager.py check_zipfile_for_oasis_validity"),
      ("body check", "nodestructurechecker.py NodeStructureChecker.is_valid")],
     "exhaustive enumeration against a direct definition", "exploration",
     "All subsets of the five required members and of four manifest entries; all element sequences "
     "up to length 6 (thorough 8).")


prop("P34", "Refused values leave everything as it was",
     "A text which an XML document can not hold (control characters, surrogates, non-characters) is "
     "refused with an error by every operation which would store it: texts and tails of elements, "
     "appended texts, cell values, styles and formulas, names and attributes, meta data, user "
     "fields, variables and manifest entries. Whatever an operation refuses, such texts, values of "
     "other types or numbers which are not integers, changes nothing: the document is as it was "
     "before the call and later operations behave as if the refused one had not been called.",
     ["inputs", "histories"],
     "every operation which stores a value x every kind of unusable value x states of the object, "
     "and all sequences of valid and refused operations up to a depth",
     "Tests pass valid values, or check that an error is raised; what is left behind by the refused "
     "call is only seen by looking at the whole document, or by the next operations.",
     ["base.py", "text.py", "cells.py", "table.py", "tablerowcontroller.py", "meta.py",
      "manifest.py", "variables.py", "propertymixins.py", "styles.py", "pages.py"],
     [("text and tail setters", "base.py GenericWrapper"),
      ("cell values", "cells.py Cell.set_value"),
      ("meta data", "meta.py Metadata, Keywords, UserTags"),
      ("manifest entries", "manifest.py Manifest.add"),
      ("indices and sizes", "table.py Table, tablerowcontroller.py")],
     "exhaustive operation sequences on the real code, each refused call compared with no call",
     "model_checking", "All sequences up to length 2 to 3 (thorough one more) per kind of object "
     "over valid, unusable and ill-typed values, from several states.")

prop("P35", "Reading does not change a document",
     "Read accesses - values, texts, properties, lookups of existing and missing things, counts, "
     "iteration, plain text, copies, serialising - give the same result whatever was read before, in "
     "which order and how often, and leave the document as it is: what is written afterwards is what "
     "would have been written without them, apart from the expansion of repeated rows, columns and "
     "cells of tables. Every element is shown by the class of its kind, whatever was imported.",
     ["histories"],
     "every sequence of one, two and three read accesses of documents of every kind",
     "Tests read one thing of a new document; an access which changes something, or remembers a result, "
     "only shows in what other accesses or the written file give afterwards.",
     ["base.py", "cells.py", "table.py", "pagecontainer.py", "variables.py", "meta.py", "styles.py",
      "manifest.py", "filemanager.py", "text.py"],
     [("getters of elements", "base.py GenericWrapper, propertymixins.py"),
      ("cells and tables", "cells.py Cell, table.py Table"),
      ("lookups", "pagecontainer.py, styles.py Container, manifest.py find, variables.py"),
      ("members", "filemanager.py get_bytes, get_text, get_xml_element")],
     "exhaustive sequences of read accesses on the real code, compared with single accesses of new "
     "documents",
     "model_checking", "All ordered pairs of 70 to 165 accesses per kind of document (eight documents) "
     "and triples of accesses of different objects, each followed by all accesses.")


def main():
    import re
    claimed = set()
    cdir = os.path.join(HERE, "checks")
    for fn in os.listdir(cdir):
        if fn.startswith("c_") and fn.endswith(".py"):
            claimed |= set(re.findall(r'Check\(\s*"([A-Z]\d+)"', open(os.path.join(cdir, fn)).read()))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python -m py_compile lib/*.py checks/*.py",
           "hooks": {"guard": "none", "enable": "no hooks are compiled into /repo",
                     "source_commits": []},
           "checks": [], "not_applicable": []}
    for p in P:
        if p["pid"] in claimed:
            man["checks"].append({
                "property": p["pid"],
                "quick_cmd": "./run.py %s --tier quick" % p["pid"],
                "thorough_cmd": "./run.py %s --tier thorough" % p["pid"],
                "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["pid"],
                                          "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("claimed", len(man["checks"]), "of", len(P))


main()
