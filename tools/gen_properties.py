"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=["atlas_doc_parser/" + f for f in files],
                               mechanism=[dict(name=n, where="atlas_doc_parser/" + w) for n, w in mech],
                               observe_at=list(observe),
                               **({"state": [dict(name=n, meaning=m, where="atlas_doc_parser/" + w) for n, m, w in state]} if state else {}))))

MN, MH = "mark_or_node.py", "markdown_helpers.py"
p("C01", "Every supported type tag is parsed by its own model",
  "For each of the 35 node tags and 16 mark tags the library supports, parsing a JSON object with that tag builds an instance of the one model written for that tag, from that very object. The model's own type value is that tag, no tag is shared by two models, and node tags are never accepted as marks or marks as nodes.",
  ["inputs"], "every supported tag, any other keys in the object",
  "The tests parse samples of about half the tags and never check that the tag table is a bijection; swapping or dropping a rarely used tag leaves them green.",
  ["nodes/parse_node.py", "marks/parse_mark.py", "type_enum.py"],
  [("tag tables", "nodes/parse_node.py:NODE_TYPE_TO_CLASS_MAPPING"), ("tag tables", "marks/parse_mark.py:MARK_TYPE_TO_CLASS_MAPPING")],
  ["parse_node(dct)", "parse_mark(dct)"])
p("C02", "An unknown tag, and only that, is reported as an unimplemented type",
  "Parsing an object whose tag the library does not support raises the library's unimplemented-type error, carrying that tag and whether a node or a mark was being parsed. A problem inside an element of a supported type (for instance a missing key) is never turned into that error.",
  ["inputs"], "every tag value outside the supported set, every failure inside a supported element",
  "Tests use one invented tag; they cannot enumerate all other tags nor every failure that a broad handler would convert.",
  ["nodes/parse_node.py", "marks/parse_mark.py", "exc.py"],
  [("lookup outside the element's own parsing", "nodes/parse_node.py:parse_node"), ("error class", "exc.py:UnimplementedTypeError")],
  ["parse_node(dct)", "parse_mark(dct)"])
p("C03", "Parsing skips only unimplemented children and marks, and keeps the order",
  "When a container is parsed, every child and every mark of a supported type appears in the result exactly once and in input order, and only elements of an unimplemented type are left out. Any other error in a child or mark reaches the caller. A skipped element is logged as one warning when the warning setting is on at the time of the call, and silently when it is off.",
  ["inputs", "configurations"], "every child/mark list of every container type, both values of the setting at call time",
  "Tests have one document with unimplemented elements, in one position, under the default setting.",
  [MN, "settings.py"], [("child loop with per-element handler", MN + ":BaseNode.from_dict")], ["from_dict", "log records"])
p("C04", "Parsing leaves the caller's data alone",
  "Parsing a node or a mark never changes the dictionaries and lists passed in, and the resulting model shares no mutable object with them, so that editing the input afterwards does not change the model.",
  ["inputs", "histories"], "every input object of every node and mark type, any later edit of it",
  "The tests build inputs, parse them once and throw them away; they do not look at the input afterwards.",
  [MN], [("defensive deep copy", MN + ":BaseNode.from_dict"), ("defensive deep copy", MN + ":BaseMark.from_dict")], ["from_dict"])
p("C05", "Every declared field is carried into the model, unknown keys are ignored",
  "For every model, each declared field that is present in the input is carried over under its own name and unaltered (attributes become the model's own attribute object, children and marks are parsed by tag), and a declared optional field that is absent stays absent. Unknown keys are ignored without error. This does not depend on which other models were parsed earlier in the process.",
  ["inputs", "histories"], "every subset of declared keys plus unknown keys, for each of the ~100 models; any order of earlier parses",
  "Samples exercise few optional keys; a field dropped from a rarely used model, or a cache keyed by the wrong thing, is invisible to them.",
  [MN, "nodes/", "marks/"], [("field-driven constructor", MN + ":Base.from_dict"), ("per-class field cache", MN + ":Base.get_fields")], ["from_dict"],
  [("field cache", "fields of each class, filled on first use", MN + ":_CLASS_FIELD")])
p("C06", "A missing required field is rejected with the exported parameter error",
  "Parsing or constructing a model without one of its required fields raises the parameter error that the library's exception module exports, whatever other fields are present, and a model is never built with a required field unset.",
  ["inputs"], "every model, every required field, every subset of the other fields",
  "Tests drop a required field for only a few models.",
  [MN, "exc.py", "nodes/", "marks/"], [("REQ sentinel validation", MN + ":Base"), ("export", "exc.py:ParamError")], ["from_dict", "constructors"])
p("C07", "Serialising a model is complete and clean",
  "Turning a model into a dictionary yields every field that is set, under its own name and with its own value (nested attributes, children and marks serialised in order), and no key for an optional field that is not set, at any depth. No placeholder object for 'not given' and no model object occurs in the result, and the result shares no mutable object with the model.",
  ["inputs"], "every model and every combination of set and unset optional fields, at every nesting depth",
  "Tests compare the dictionaries of a few samples, mostly with the same optional fields set.",
  [MN], [("asdict with clean-up", MN + ":Base.to_dict"), ("nested serialisation", MN + ":BaseNode.to_dict"), ("mark serialisation", MN + ":BaseMark.to_dict")], ["to_dict"])
p("C08", "Parsing and serialising agree field by field and compare by value",
  "For every model, the keys that serialising writes are exactly the keys that parsing reads back into the same fields, through inverse conversions, so parse-serialise-parse gives an equal model. Models compare by value over all their fields.",
  ["inputs"], "every model and every combination of set fields",
  "Round trips are tested on samples only, and equality is never tested between models that differ in one field.",
  [MN, "nodes/", "marks/"], [("reader", MN + ":Base.from_dict"), ("writer", MN + ":Base.to_dict")], ["from_dict", "to_dict", "=="])
p("C09", "By default a conversion error always reaches the caller",
  "Unless the caller asks to ignore errors, an exception raised while converting any descendant or applying any mark propagates out of the Markdown conversion of every enclosing element; no Markdown is returned with the failing part silently missing. Not ignoring errors is the default, and it stays in force for everything below.",
  ["inputs", "fault_sequences"], "every container type, every position of the failing descendant or mark",
  "The suite has no failing child in most containers; a broad handler in one of them changes no tested output.",
  [MH, "nodes/"], [("re-raise unless asked", MH + ":content_to_markdown"), ("re-raise unless asked", MH + ":doc_content_to_markdown")], ["to_markdown()"])
p("C10", "Ignoring errors loses only the failing element",
  "When the caller asks to ignore errors, a container's Markdown conversion never fails because of its descendants, and every child that converts is still present, in order; only the failing ones are left out. The request is passed down to every nested conversion, at any depth and in every container.",
  ["inputs", "fault_sequences"], "every container type, any subset of failing descendants at any depth",
  "Only one unit test uses the option, at document level; a container that stops at the first failure or forgets to pass the option on is not exercised.",
  [MH, "nodes/"], [("per-child handler", MH + ":content_to_markdown"), ("per-child handler", MH + ":doc_content_to_markdown")], ["to_markdown(ignore_error=True)"])
p("C11", "Absent optional fields and empty lists never crash or leak a placeholder",
  "Converting any supported element to Markdown works when any combination of its optional fields is absent and when any of its child lists is empty, apart from the documented refusals (media without a usable source, a card without a URL, an emoji with neither text nor short name). The text never contains the representation of the 'not given' placeholder, and every supported node type has a conversion.",
  ["inputs"], "every element type, every combination of absent optional fields and empty lists",
  "The samples are complete documents exported from Confluence, in which most optional fields are present.",
  ["nodes/", "marks/", MH], [("absence guards", "nodes/node_*.py:to_markdown"), ("absence guards", MH + ":content_to_markdown")], ["to_markdown()"])
p("C12", "A container's Markdown contains every child once and in order",
  "The Markdown of every container (document, paragraph, heading, quote, panel, expand, lists and their items, table, row, cell, code block, single media, and so on) contains the complete Markdown of each of its children exactly once and in document order, up to whitespace, line prefixes and escaping. Captions, media groups and inline media are the only containers rendered as nothing.",
  ["inputs"], "every child list of every container, every child type",
  "Tests compare full output for a handful of documents; a child type that is skipped in one container, or a limit that only long lists reach, is not covered.",
  ["nodes/", MH], [("child loops", "nodes/node_*.py:to_markdown"), ("child loops", MH + ":content_to_markdown")], ["to_markdown()"])
p("C13", "Leaf elements render their own text verbatim",
  "The Markdown of a text, mention, emoji, status, date, card, media, rule, hard break or extension is made only of fixed delimiters and the element's own values, which are taken over unaltered and in full: text as it is, mention text, emoji text or else its short name, status text in backquotes, cards as a link whose label and target are the URL, media as an image with its own alternative text (or 'media') and its own address, extensions as a bracketed label with their key and text.",
  ["inputs"], "every string value of every leaf field",
  "Tests use short ASCII samples; truncation, case folding, trimming or a swapped field only shows on other values.",
  ["nodes/"], [("leaf conversions", "nodes/node_text.py"), ("leaf conversions", "nodes/node_media.py"), ("leaf conversions", "nodes/node_extension.py")], ["to_markdown()"])
p("C14", "Marks keep the text they decorate, and all are applied in order",
  "Applying a mark returns the given text unaltered and exactly once, inside fixed delimiters: strong, emphasis and strike add theirs on both sides unless the text is blank, code adds backquotes and refuses text with a line break, a link is '[text](target)' with its title, if any, in place of the text, indentation adds one tab per level, and every other mark returns the text unchanged. A text, a paragraph and an image with marks apply each of their marks exactly once, in the order given.",
  ["inputs"], "every text, every mark, every list of marks",
  "Tests apply single marks to a few words; blank text, combinations and unusual marks are not covered.",
  ["marks/", MH], [("mark application", MH + ":add_style_to_markdown"), ("mark conversions", "marks/mark_*.py:to_markdown")], ["to_markdown(text)"])
p("C15", "Models are immutable and conversions have no side effects",
  "Every model is a frozen value: assigning a field fails. Converting to Markdown or to a dictionary never changes the model, its children or any process-wide state, so repeating a conversion, in any order with others, gives the same result.",
  ["histories", "inputs"], "every sequence of conversions on any models",
  "Tests convert each object once.",
  [MN, "nodes/", "marks/", MH], [("frozen dataclasses", MN + ":Base"), ("pure functions", MH)], ["to_markdown", "to_dict", "attribute assignment"])
p("C16", "Results depend only on the input",
  "Parsing, serialising and Markdown conversion depend only on the given data, the arguments and the library's own settings: never on the clock, the local time zone, the locale, environment variables, random numbers, object identities or hash order.",
  ["configurations", "inputs"], "every machine configuration and environment",
  "The tests run on one machine in one time zone.",
  ["nodes/node_date.py", MH, MN], [("explicit time zone", "nodes/node_date.py:NodeDate.to_markdown")], ["to_markdown", "to_dict", "from_dict"])
p("C17", "Tables keep their shape",
  "A table renders one Markdown line per row, in order, each with one cell per table cell between pipes, and after each row that starts with a header cell exactly one delimiter line with as many '---' columns as that row has cells, and no delimiter line elsewhere. A cell's Markdown never contains a line break or an unescaped pipe that came from its content.",
  ["inputs"], "every table: any number of rows and cells, any cell content",
  "Tests render one rectangular table with plain cells.",
  ["nodes/node_table.py", "nodes/node_table_row.py", "nodes/node_table_cell.py", "nodes/node_table_header.py"],
  [("row and delimiter loop", "nodes/node_table.py:NodeTable.to_markdown"), ("cell escaping", "nodes/node_table_cell.py:NodeTableCell.to_markdown")], ["to_markdown()"])
p("C18", "Every line of a quote, panel or decision is quoted",
  "Every line of the Markdown of a blockquote, of a panel (whose first line is its type in bold capitals) and of a decision item, including blank and continuation lines, starts with the quote marker '>'.",
  ["inputs"], "every content of these elements, including blank lines and multi-line children",
  "Tests use content with few lines and blank lines in one place.",
  ["nodes/node_blockquote.py", "nodes/node_panel.py", "nodes/node_decision_item.py"],
  [("line prefixing", "nodes/node_panel.py:NodePanel.to_markdown"), ("line loop", "nodes/node_decision_item.py:NodeDecisionItem.to_markdown")], ["to_markdown()"])
p("C19", "List items carry the right marker, number, check box and indentation",
  "Each item of a list starts a line indented by four spaces per nesting level: with '- ' in a bullet list, with its number and '. ' in an ordered list (counting up by one from the list's own start number at the top level, or from 1), and with '- [x] ' in a task list if and only if the task is done, else '- [ ] '. A list nested in a list item or task list, of whatever kind, is rendered one level deeper.",
  ["inputs"], "every list of every kind, any nesting depth and mixture, any start number and task states",
  "Tests cover lists of one kind, two or three levels deep, starting at 1.",
  ["nodes/node_bullet_list.py", "nodes/node_ordered_list.py", "nodes/node_task_list.py"],
  [("item loops", "nodes/node_ordered_list.py:NodeOrderedList.to_markdown")], ["to_markdown()"])
p("C20", "The package imports anywhere, in any order, with only its declared dependencies",
  "Every module of the library proper (everything except the development helpers gen_code, paths, vendor, tests and docs) can be the first one imported in a process without an import error, on every Python version the package declares to support. Importing it, and calling it afterwards, needs no package outside the standard library and the declared dependencies, and importing it neither reads or writes files, runs processes or opens connections nor changes process-wide state.",
  ["configurations", "histories"], "every module as the first import, every environment with only the declared dependencies, every supported Python version",
  "The tests import through one entry point, on one Python version, in a development environment that has everything installed.",
  ["__init__.py", "api.py", MN, "nodes/", "marks/"], [("import graph", "mark_or_node.py (deferred imports)")], ["import"])
p("C21", "Type tests answer exactly whether the tag matches",
  "Asking an element whether it is of an expected type answers true exactly when its tag equals the expected type's tag, or the tag of one of them if several are given; every supported tag has an expected-type constant whose value is that tag.",
  ["inputs"], "every element tag, every single expected type and list of expected types",
  "Tests check a few pairs.",
  ["type_enum.py", MN], [("membership test", "type_enum.py:check_type_match")], ["is_type_of", "check_type_match"])
p("C22", "Code blocks are fenced and keep their code",
  "The Markdown of a code block is an opening fence of three backquotes followed directly by the block's language (nothing when there is none or it is 'none'), then the complete code text of the block unaltered on the following lines, then a closing fence on its own line.",
  ["inputs"], "every code text and language value",
  "Tests cover a few languages and short snippets.",
  ["nodes/node_code_block.py", MH], [("fence", "nodes/node_code_block.py:NodeCodeBlock.to_markdown")], ["to_markdown()"])
p("C23", "Headings show their level on their own line",
  "A heading renders as exactly as many '#' as its level, one space and its content, separated from whatever precedes and follows by a blank line.",
  ["inputs"], "every level and content",
  "Tests cover sample headings only.",
  ["nodes/node_heading.py"], [("heading format", "nodes/node_heading.py:NodeHeading.to_markdown")], ["to_markdown()"])
p("C24", "Blocks are separated, with never more than one blank line in a row",
  "In a document, expand, quote or panel, consecutive blocks start on separate lines, a list of any kind, a table or a code block has a blank line before and after it, and the text never contains two blank lines in a row, however many blocks, nested levels or empty paragraphs there are.",
  ["inputs"], "every sequence of blocks",
  "Tests check the separation for the sample documents only.",
  [MH, "nodes/node_doc.py", "nodes/node_expand.py", "nodes/node_blockquote.py", "nodes/node_panel.py"],
  [("padding and blank-line collapse", MH + ":doc_content_to_markdown"), ("collapse", MH + ":strip_double_empty_line")], ["to_markdown()"])
p("C25", "The public interface exposes every model under its own name",
  "The library's public interface module offers, under its own name, every supported node, mark and attribute model, the tag constants, the parse functions and the error classes, and each name there is bound to the object of that name.",
  ["programs"], "every public name a user program can rely on",
  "The API test touches each name but not what it is bound to; an alias bound to the wrong class passes.",
  ["api.py"], [("re-exports", "api.py")], ["import of the public interface"])
p("C26", "Dates render as the UTC calendar day",
  "A date renders as the ISO calendar day, in UTC, of the instant given by its timestamp in milliseconds, on every machine.",
  ["inputs", "configurations"], "every timestamp, every local time zone",
  "The test uses one timestamp, in the sandbox's time zone.",
  ["nodes/node_date.py"], [("conversion", "nodes/node_date.py:NodeDate.to_markdown")], ["to_markdown()"])
p("C27", "The Markdown survives any Markdown renderer unchanged",
  "Whatever characters the document's texts contain, rendering the produced Markdown with a CommonMark renderer shows the same visible text as the source document.",
  ["inputs"], "every text",
  "Depends on the grammar of an external renderer.",
  ["nodes/", "marks/", MH], [("no escaping is attempted", "nodes/node_text.py")], ["rendered output"])
p("C28", "Conversion cost is proportional to document size and depth is unbounded",
  "Parsing and converting a document takes time proportional to its size, and no nesting depth makes it fail.",
  ["inputs"], "documents of every size and depth",
  "A performance and stack-depth property.",
  [MN, MH], [("recursion per level", MH)], ["elapsed time"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
