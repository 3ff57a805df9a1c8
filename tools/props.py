import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Text never turns into markup",
 "In the default (smart) escape mode, the plain text of a document, put through a CommonMark renderer after conversion, reads exactly as it did in the HTML: no characters are lost, added or changed, and no text becomes emphasis, code, a link, an image, a heading, a list, a quote, a rule or a code block. This holds wherever the text stands: paragraph, heading, list item, blockquote, link text, emphasis, table cell, after a line break. Text that looks like an HTML entity or tag is outside the claim.",
 ["inputs","configurations"],"every text over the markdown-significant characters, in every container, for every valid delimiter configuration",
 "Golden files sample a few hundred texts; whether a character is special depends on all its neighbours and on what the surrounding container emits, so the claim is over all strings x contexts.",
 ["converter/escape.go","internal/escape/*.go","plugin/base/base.go","plugin/commonmark/commonmark.go","plugin/commonmark/render_heading.go","plugin/commonmark/render_blockquote.go"],
 [("placeholder before each special character, resolved by un-escapers","converter/escape.go"),("per-construct recognisers","internal/escape"),("special cases at end of heading / inside links / quotes","plugin/commonmark/render_heading.go, commonmark.go, render_blockquote.go")],
 ["ConvertString output rendered by an independent CommonMark implementation"])
p("C02","Attribute values stay inside their attribute",
 "The value of a link title, image alternative text, image title, link or image address, or code language can never end the construct it belongs to: after conversion and CommonMark rendering, the document has the same links, images and code blocks with the same destinations, and the titles and alternative texts read as in the HTML. Nothing from an attribute becomes text, a block or another element.",
 ["inputs"],"every attribute value over quotes, brackets, parentheses, backslashes, newlines, blanks, backticks and angle brackets, for every attribute that reaches the output",
 "Each quoting choice depends on the combination of characters in the value; tests use a handful of values.",
 ["plugin/commonmark/render_link.go","plugin/commonmark/render_image.go","plugin/commonmark/render_code.go","internal/textutils/quote.go","converter/url.go"],
 [("title quoting","internal/textutils/quote.go"),("alt escaping","plugin/commonmark/render_image.go"),("destination encoding","converter/url.go"),("info string","plugin/commonmark/render_code.go")])
p("C03","Inline structure survives the conversion",
 "Bold, italic, strikethrough (with its plugin), inline code, links, images and line breaks come out with exactly the text they covered, at the same position relative to the surrounding text, however they are nested, adjacent, split or padded with whitespace. Rendering the Markdown gives the same sequence of characters with the same styles, link targets and breaks as the HTML.",
 ["inputs","configurations"],"every inline tree over the supported elements up to a size, whitespace placement included, in every container and with every delimiter choice",
 "The tree rewriting passes (swap, merge, de-duplicate, move whitespace) interact; a pass wrong for one arrangement of nesting and adjacency is invisible to the sampled golden files.",
 ["plugin/commonmark/render_bold_italic.go","plugin/commonmark/handle_pre_render.go","internal/domutils/*.go","internal/textutils/delimiter.go","plugin/strikethrough/strikethrough.go","collapse/collapse.go"],
 [("tree normalisation passes","internal/domutils"),("delimiters per line","internal/textutils/delimiter.go"),("whitespace moved out of delimiters","internal/textutils/surrounding_spaces.go")])
p("C04","Block structure survives the conversion",
 "Headings, paragraphs, nested ordered and unordered lists, blockquotes, code blocks and rules come out in document order, with the same nesting, heading levels, list kinds, start numbers and item counts. Blocks that are separate in the HTML (including adjacent lists and quotes) stay separate, and content never moves into or out of a container.",
 ["inputs","configurations"],"every block tree over the supported elements up to a size and depth, list sizes across every change of number width, and every marker option",
 "Indentation and separation depend on the whole chain of ancestors and siblings; tests only contain particular documents.",
 ["plugin/commonmark/render_list.go","plugin/commonmark/render_blockquote.go","plugin/commonmark/render_heading.go","plugin/commonmark/render_divider.go","internal/domutils/list_items.go","internal/domutils/list_end_comment.go","internal/textutils/prefix_lines.go","plugin/base/base.go"],
 [("list prefix and indentation","plugin/commonmark/render_list.go"),("list end comment","internal/domutils/list_end_comment.go"),("list repair","internal/domutils/list_items.go"),("quote prefix","internal/textutils/prefix_lines.go")])
p("C05","Code is reproduced verbatim",
 "The content of a code block comes out character for character (blank lines, indentation, backticks, tildes, backslashes and markup characters included) with its language, in any container, and the fence is never closed by the content. Inline code comes out with the same characters up to whitespace collapsing, whatever backticks or markup characters it contains.",
 ["inputs","configurations"],"every code text over backticks, tildes, blanks, newlines and markup characters, in every container, for both fence styles",
 "The fence and the delimiters are computed from the content, so the property quantifies over all contents.",
 ["plugin/commonmark/render_code.go","internal/textutils/codefence.go","internal/textutils/collapse_code.go","internal/domutils/empty_code.go","marker/marker.go","plugin/base/base.go"],
 [("fence length","internal/textutils/codefence.go"),("newline placeholder inside code","marker/marker.go, plugin/commonmark/commonmark.go"),("inline code whitespace","internal/textutils/collapse_code.go")])
p("C06","Links resolve to the address the reader would have reached",
 "With a base domain, every link and image destination in the output denotes the same resource that a browser would reach from that domain per RFC 3986; absolute and non-web addresses keep their target and without a domain relative addresses stay relative. The destination in the Markdown is always well formed: it denotes the same address after CommonMark parsing, with spaces, brackets and other special characters encoded and existing escapes kept.",
 ["inputs","configurations"],"every combination of base address form and reference form up to a length, for links and images",
 "URL resolution is defined over all references x bases; the unit tests list about fifty pairs.",
 ["converter/url.go","converter/ctx.go","plugin/commonmark/render_link.go","plugin/commonmark/render_image.go","convert.go"],
 [("absolute address assembly","converter/url.go"),("domain option","converter/convert.go")])
p("C07","Removed elements never leak, everything else stays",
 "Content that is not meant for readers (scripts, styles, head data, form fields, frames, comments) never appears in the output, wherever in the document it stands; every other word of the document appears exactly once and in order. A removal or type registered by the user is honoured the same way.",
 ["inputs","configurations"],"every arrangement of removed and kept elements up to a size; every registration of a removal",
 "Removal happens on a tree that is walked while it is changed; whether a node is skipped depends on its siblings and ancestors.",
 ["plugin/base/base.go","plugin/base/renderers.go","converter/register.go","collapse/collapse.go"],
 [("removed tag types","plugin/base/base.go"),("pre-render removal pass","plugin/base/base.go"),("tag type lookup","converter/register.go")])
p("C08","Whitespace layout of the source does not matter",
 "Outside preformatted text, changing the amount or kind of whitespace where whitespace already is, or adding and removing whitespace next to block boundaries, does not change the output. Whitespace that separates two words is never lost and none is invented between two adjacent words.",
 ["inputs"],"every placement of whitespace kinds into every position of every small document",
 "The number of whitespace placements is exponential in the number of positions; tests fix a few.",
 ["collapse/collapse.go","collapse/whitespace.go","collapse/is_node.go","plugin/base/base.go","plugin/commonmark/handle_pre_render.go"],
 [("whitespace collapsing","collapse/collapse.go")])
p("C09","Output shape: trimmed, no surplus blank lines, no internal marks",
 "The output never starts or ends with blank space, never has more than one blank line in a row outside of code blocks, has no trailing blanks other than hard line breaks, and never contains the converter's internal marker characters unless they were in the input. The same input and options always give the same bytes.",
 ["inputs","configurations"],"every small document of blocks, inlines, whitespace and code, for every configuration",
 "It is an invariant of every output, and each element contributes its own newlines and marks.",
 ["plugin/base/base.go","internal/textutils/consecutive_newlines.go","converter/escape.go","marker/marker.go"],
 [("final trimming passes","plugin/base/base.go"),("consecutive newline reduction","internal/textutils/consecutive_newlines.go")])
p("C10","Conversion is total",
 "Every input, however malformed, deep or strange (including hand-built node trees that no parser produces), with every combination of plugins and valid options, ends in a result or an error: never in a panic, a hang, or time or memory out of proportion to the input. The output is valid UTF-8 when the input is.",
 ["inputs","configurations"],"every tag soup, byte string and node tree up to a size, every plugin and option combination; growing inputs for the cost bound",
 "Totality is a statement about all inputs; a crash needs an arrangement nobody wrote a test for.",
 ["converter/convert.go","converter/render.go","converter/escape.go","internal/domutils/*.go","internal/textutils/*.go","plugin/table/*.go","collapse/collapse.go"],
 [("render dispatch","converter/render.go"),("index arithmetic in recognisers","internal/escape"),("span limits","plugin/table/2_collect.go")])
p("C11","All entry points agree and read errors surface",
 "The string, reader, node and package-level entry points give identical results for the same document and options. Splitting the input into any sequence of reads changes nothing, and a read error at any point yields that error and no output, never a partial conversion.",
 ["inputs","fault_sequences","histories"],"every entry point, every split of the input and every fault position",
 "Tests call each entry point with whole, error-free inputs.",
 ["convert.go","converter/convert.go"],
 [("entry points","convert.go, converter/convert.go")])
p("C12","Conversions do not influence each other",
 "The result of a conversion depends only on its input and the converter's configuration: not on which or how many documents were converted before, on the same or another converter, and not on failed or panicking conversions in between. Results handed out earlier are never changed by later calls.",
 ["histories"],"every sequence of conversions over a set of documents, converters and option values up to a depth",
 "Leaking state needs a particular history; every test uses a fresh converter and one call.",
 ["converter/convert.go","converter/ctx.go","converter/register.go","converter/escape.go","plugin/commonmark/*.go","plugin/base/base.go"],
 [("per-conversion state","converter/ctx.go"),("handler copies","converter/register.go")])
p("C13","One converter may be used from many goroutines",
 "A converter may be shared by concurrent conversions, also while plugins, renderers or tag types are being registered on it: there is no data race, deadlock or crash under any schedule, and every conversion returns exactly what it would return at some point of a sequential execution.",
 ["schedules"],"all interleavings of the operations at their synchronisation points up to a preemption bound, for pairs and triples of conversions and registrations",
 "Tests run a converter from one goroutine, or from many under whatever schedule occurs.",
 ["converter/converter.go","converter/convert.go","converter/register.go","converter/ctx.go"],
 [("RWMutex around all registries","converter/register.go"),("copies handed out before sorting","converter/register.go")])
p("C14","Handlers run in priority order with fall-through",
 "Pre-renderers, renderers, text transformers, escape handlers and post-renderers run in ascending priority and, at equal priority, in the order they were registered. For each node, renderers are tried until one succeeds; if none does, the node's block or inline fallback applies, and each post-renderer and transformer receives exactly what the previous one returned.",
 ["histories","configurations","inputs"],"every sequence of registrations over kinds, priorities and outcomes up to a length, and long registration lists",
 "The order depends on the full registration history; tests register two or three handlers.",
 ["converter/prioritized.go","converter/register.go","converter/render.go","converter/convert.go","plugin/base/base.go"],
 [("stable priority sort","converter/prioritized.go"),("dispatch loop","converter/render.go")])
p("C15","Tag types follow the most important registration",
 "Whether an element is treated as block, inline or removed is decided by the earliest-priority registration for its name (the first registered among equals), over built-in ones too, and otherwise by the HTML default. Every later query and every part of the conversion sees the same answer.",
 ["histories","configurations"],"every sequence of tag type registrations over names, types and priorities up to a length, before and between conversions",
 "Depends on registration order and priority combinations; tests cover single overrides.",
 ["converter/register.go","converter/render.go","plugin/base/base.go"],
 [("type registry and lookup","converter/register.go"),("fallback rendering","converter/render.go")])
p("C16","Misconfiguration is always reported, never silently used",
 "An option value outside the documented set, a plugin that fails or has no name, a missing base plugin, or a converter without renderers makes every conversion through every entry point fail with an error that says so, with no output and whatever is registered later. Every documented value is accepted.",
 ["configurations","histories"],"every option string over the relevant characters up to a length, every plugin list with failures at any position, every later operation",
 "The accepted set is a language over strings; tests try a dozen values.",
 ["plugin/commonmark/validation.go","plugin/commonmark/options.go","converter/convert.go","converter/register.go","converter/converter.go"],
 [("option validation","plugin/commonmark/validation.go"),("deferred error","converter/convert.go")])
p("C17","Options change how things are written, never what they say",
 "For every combination of valid options the rendered Markdown means the same as with the defaults, and each option is visible exactly where it applies: the chosen delimiters, rule, bullet, fence, heading style, list separation and link behaviour are the ones that appear, and no other construct changes.",
 ["configurations","inputs"],"the full product of the option values times a set of documents",
 "Options interact (bullet with rule, setext with breaks, underscore delimiters with neighbours); tests vary one option at a time on one document.",
 ["plugin/commonmark/options.go","plugin/commonmark/render_*.go","plugin/strikethrough/strikethrough.go"],
 [("option use in renderers","plugin/commonmark/render_*.go")])
p("C18","Disabled escaping passes text through untouched",
 "With escaping disabled, text passes through: the output is the markup for the elements, the same as around any other text, with each text as written (whitespace collapsed), for every text. Nothing is added to it or removed from it, except that < and > are written as &lt; and &gt; and that a | in a table cell has a backslash. Where there is nothing to escape, and for code, the output is the same as with escaping.",
 ["inputs","configurations"],"every text over the special characters, in every container, with escaping disabled",
 "Only one unit test uses the mode; code written for the marker characters must also work without them.",
 ["converter/escape.go","plugin/base/base.go","plugin/commonmark/*.go","plugin/table/3_render.go"],
 [("escape mode switch","converter/escape.go")])
p("C19","Tables keep every cell in its row and column",
 "With the table plugin, a data table comes out as a table in which each cell's content stands in the row and column it occupies in the HTML grid (header row first, footer rows last, row and column spans applied as configured and cut at the end of their row group; a span over the end of the whole table makes rows), with the alignment of the header cells, every row as wide as the widest, columns padded as configured, and the caption after the table. Tables that cannot be represented (in links or formatting, with lists, headings, rules, quotes, code blocks or other tables in their cells, with line breaks unless those are to be preserved) come out as their plain content, complete and in order.",
 ["inputs","configurations"],"every table up to a number of rows, columns and span values, cell contents over separators, breaks and wide characters, times the plugin options",
 "Spans make each cell's column depend on all earlier cells; tests contain about forty tables.",
 ["plugin/table/1_select.go","plugin/table/2_collect.go","plugin/table/3_render.go","plugin/table/table.go","plugin/table/utils.go"],
 [("row selection and header","plugin/table/1_select.go"),("span modifications","plugin/table/2_collect.go"),("padding and separators","plugin/table/3_render.go")])
p("C20","The command line tool never loses or overwrites files",
 "For any arrangement of inputs and any history of runs, the tool writes exactly one output per input, with the content of that input's conversion, at the documented place; it never replaces an existing file without the overwrite flag, never writes two inputs to one file, never reads an input after an output has replaced it, and never touches any other file. When it refuses, it says so with a failing exit status.",
 ["histories","configurations","inputs"],"every sequence of invocations up to a depth over a small file system, with every input and output flag shape",
 "Safety depends on what earlier runs left on disk and on how input names collide; the tests use one invocation on fixed directories.",
 ["cli/html2markdown/cmd/exec.go","cli/html2markdown/cmd/io_input.go","cli/html2markdown/cmd/io_output.go","cli/html2markdown/cmd/flags.go"],
 [("output mode and names","cli/html2markdown/cmd/io_output.go"),("exclusive create","cli/html2markdown/cmd/io_output.go"),("input listing","cli/html2markdown/cmd/io_input.go")])
p("C21","CLI selectors cut exactly the selected parts",
 "With an include selector the tool converts exactly the matching elements, each once and in document order (a match inside another match is not repeated); with an exclude selector exactly the matching elements disappear and the rest is unchanged; with both, exclusion applies inside the inclusion. Which elements a selector means is decided on the page as it came in, not on the selected parts or what is left of them. An invalid selector is an error and nothing is converted.",
 ["inputs","configurations"],"every small document tree times every selector of a set, and their combinations",
 "Nested and overlapping matches depend on the tree shape.",
 ["cli/html2markdown/cmd/cmd_convert.go","cli/html2markdown/cmd/flags.go"],
 [("selector application","cli/html2markdown/cmd/cmd_convert.go")])
p("C22","CLI flags mean the same as the library options",
 "For every combination of flags the tool prints exactly what the library produces with the corresponding plugins and options, and flags left out mean the library defaults. Unknown flags, positional arguments, invalid values, and options set for a plugin that is not switched on are rejected with a message and a failing exit status, without output.",
 ["configurations","inputs"],"the product of all flags and their values (valid and invalid) times a set of documents",
 "Flag plumbing is one line per flag; tests use each flag alone.",
 ["cli/html2markdown/cmd/flags.go","cli/html2markdown/cmd/cmd_convert.go","cli/html2markdown/cmd/exec.go","cli/html2markdown/cmd/flags_categorize.go"],
 [("flag parsing and checks","cli/html2markdown/cmd/flags.go"),("option mapping","cli/html2markdown/cmd/cmd_convert.go")])
p("C23","CLI input and output faults are reported",
 "If reading the input or writing the output of a conversion fails at any point, the tool reports an error and ends with a failing exit status; it never reports success for a conversion with a truncated or missing output, and how the input arrives in pieces does not matter.",
 ["fault_sequences"],"every position of a read or write fault and every split of the input, for each input and output kind",
 "The tests never inject faults.",
 ["cli/html2markdown/cmd/io_input.go","cli/html2markdown/cmd/io_output.go","cli/html2markdown/cmd/cli_run.go","cli/html2markdown/cmd/exec.go","cli/html2markdown/main.go"],
 [("error propagation to exit status","cli/html2markdown/cmd/cli_run.go")])
p("C24","Converting a rendered conversion is stable",
 "Converting HTML to Markdown, rendering that Markdown with a CommonMark (or GFM) renderer and converting it again gives the same Markdown for documents in ordinary form; where the first conversion leaves something to normalise (empty elements, links that are the only content of formatting), the Markdown comes to rest within a few rounds without its content changing. Nothing grows, drifts or is escaped twice on the way round.",
 ["inputs","histories","configurations"],"every small document, for every valid configuration",
 "A fixed point must hold for all documents; the golden-file round trip only covers the sampled files.",
 ["converter/escape.go","plugin/commonmark/*.go","plugin/base/base.go","collapse/collapse.go"],
 [("whole pipeline","converter/convert.go")])
p("C25","Context and state are scoped to one conversion",
 "Values a handler stores for a conversion are visible to every later handler of that conversion and to no other one; values attached to a derived context are visible exactly in the subtree they were created for; the caller's context and domain reach every handler unchanged.",
 ["histories","inputs"],"every sequence of state operations over keys and handlers up to a length, every small tree with scoped values, over successive conversions",
 "Isolation is over all operation sequences; the unit test does one get-set-update.",
 ["converter/ctx.go","converter/convert.go"],
 [("state map per conversion","converter/ctx.go"),("derived contexts","converter/ctx.go")])
p("C26","Elements kept as HTML stay complete HTML",
 "Elements registered to be kept as HTML appear in the output as HTML that parses back to the same element, attributes and content, separated from the surrounding Markdown as their block or inline type requires, and the Markdown around them is that around a paragraph or a word in their place. (Formatting, links and code-like elements in a document are normalised before anything is rendered, in kept elements too; kept text gets no Markdown escapes.) Elements rendered with the other prebuilt renderers come out as a neutral element does (plain text), as that between the tags of the element (Markdown inside HTML tags, without attributes), or not at all (remove).",
 ["inputs","configurations"],"every small tree with kept elements at every position, attributes and text over special characters, for every prebuilt renderer",
 "Depends on where the kept element stands and what it contains; tests cover a few.",
 ["plugin/base/renderers.go","plugin/base/base.go","converter/register.go","internal/domutils/*.go"],
 [("prebuilt renderers","plugin/base/renderers.go")])
p("C27","Documents compose",
 "Converting two block sequences one after the other gives the two conversions joined by one blank line; converting a document inside a blockquote or a list item gives its conversion with every line prefixed or indented; lists of several items are the items one below the other, and wrapping a document in neutral containers or a page changes nothing. (Left open: blanks on empty lines, the comment that ends a list, how numbers are padded, and empty list items.)",
 ["inputs"],"every pair of small block documents and every container nesting up to a depth",
 "Compositionality relates pairs of conversions; tests compare single outputs with fixed text.",
 ["plugin/base/base.go","plugin/commonmark/render_blockquote.go","plugin/commonmark/render_list.go","converter/render.go"],
 [("block spacing","converter/render.go, plugin/base/base.go"),("line prefixing","internal/textutils/prefix_lines.go")])
p("C28","Converting a part of a page",
 "Converting a node that is part of a larger tree gives exactly what converting that node on its own (or as the only thing in a document) gives, and leaves the page around it as it was, so that the parts of a page can be converted one after the other in any order.",
 ["inputs","histories"],"every node of every small page, and all orders front to back and back to front",
 "The result for a node must not depend on any of its possible surroundings; tests convert whole documents only.",
 ["converter/convert.go","internal/domutils/","plugin/commonmark/","plugin/base/"],
 [("entry point","converter/convert.go: ConvertNode")])
p("C29","Whitespace collapsing",
 "For every tree and every set of node predicates (given or default), collapse.Collapse leaves elements, attributes, comments and preformatted content alone and reduces the text to what a browser shows: each run of whitespace becomes one space, none stays next to a block boundary or a line break, and one stays where whitespace separated inline content (also next to void elements and preformatted content). Collapsing again changes nothing, and only the given part of the tree is touched. (Left open: content inside void elements, and doctypes, which are removed.)",
 ["inputs"],"every small tree over text, blocks, inline, void and preformatted elements, with every combination of predicates",
 "The algorithm carries state from one text node to the next across the whole tree, so every neighbourhood matters.",
 ["collapse/collapse.go","collapse/whitespace.go","collapse/default_functions.go"],
 [("collapse","collapse/collapse.go: Collapse")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
