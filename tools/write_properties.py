"""Regenerates /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
B, I, C, N = "commonmark/blocks.py", "commonmark/inlines.py", "commonmark/common.py", "commonmark/node.py"
H, R, RR, D, M, CL = ("commonmark/render/html.py", "commonmark/render/rst.py", "commonmark/render/renderer.py",
                      "commonmark/dump.py", "commonmark/main.py", "commonmark/cmark.py")
NR, ET = "commonmark/normalize_reference.py", "commonmark/entitytrans.py"

p("C01", "Every string parses and renders without an error",
  "For every Unicode string (including the empty string, NUL, control characters, lone surrogates, very long lines and very deep nesting) and every documented option setting, parsing terminates with a document and every output (HTML, reStructuredText, JSON, printed AST) is produced as text. No input ever makes parsing or rendering raise, because any sequence of characters is a valid CommonMark document.",
  ["inputs", "configurations"], "all strings x parser option smart x renderer options safe/sourcepos/softbreak x formats html, rst, json, ast",
  "The spec examples are 649 fixed inputs rendered to HTML only; the two hypothesis tests do not run in this environment and only draw short strings without surrogates; RST and JSON are hardly exercised.",
  [B, I, C, H, R, D, M, N], [("main parse loop", B + " Parser.parse"), ("inline loop", I + " InlineParser.parseInlines"), ("rendering loop", RR + " Renderer.render"), ("dumping", D)],
  ["commonmark.commonmark(text, format)", "Parser.parse", "HtmlRenderer.render", "ReStructuredTextRenderer.render", "dumpAST", "dumpJSON"])

p("C02", "Block structure is the one CommonMark 0.29 assigns",
  "For every document, the tree of block-level nodes (block quotes, lists, items, headings with their level, paragraphs, thematic breaks, fenced and indented code, HTML blocks) is the one defined by the block rules of CommonMark 0.29, including precedence, which constructs may interrupt a paragraph, lazy continuation, and fence/indent/HTML start and end conditions. Every source line ends up in exactly the block those rules assign it to.",
  ["inputs"], "all documents, any nesting and mix of block constructs and any indentation",
  "The spec examples pin a few hundred short hand-written inputs, mostly one construct each; interactions (a fence inside a lazy quote inside a list, setext lines after partial containers ...) are unbounded.",
  [B, C], [("container continuation", B + " Parser.incorporate_line, *.continue_"), ("block starts", B + " BlockStarts"), ("closing of unmatched blocks", B + " Parser.close_unmatched_blocks, finalize, add_child")],
  ["tree returned by Parser.parse", "HtmlRenderer.render"],
  [("tip/oldtip/last_matched_container", "open block spine while reading lines", B + " Parser")])

p("C03", "Lists: grouping, numbering, nesting and tightness are right",
  "For every document, consecutive items form one list exactly when they have the same type and the same bullet character or delimiter; an ordered list starts at the number of its first item; and an item contains exactly the lines its content indentation gives it. A list is rendered loose if and only if two of its items, or two block children directly inside one of its items, are separated by a blank line of that list, and otherwise tight.",
  ["inputs"], "all documents containing lists: all markers, numbers up to 9 digits, indentations, nestings inside lists and block quotes, blank line placements",
  "Tightness and item membership depend on every blank line and column of arbitrarily nested lists; the spec has some 70 list examples.",
  [B, H], [("marker parsing", B + " parse_list_marker, lists_match"), ("item continuation", B + " Item.continue_"), ("tightness", B + " List.finalize, ends_with_blank_line")],
  ["list nodes of the tree", "HtmlRenderer.render"], [("last_line_blank", "block ended with a blank line", N + " Node")])

p("C04", "Code and raw HTML text is reproduced verbatim",
  "For every document, the text of fenced and indented code blocks, code spans, HTML blocks and inline raw HTML is exactly the characters of the source that belong to it, after only the removals and replacements the specification names (container prefixes, up to the fence indent or four columns of indentation, blank lines around indented code, line endings to spaces and one surrounding space in code spans). No entity, escape, emphasis, link or smart-punctuation processing ever applies inside it.",
  ["inputs", "configurations"], "all contents of code and raw HTML, any nesting, tabs, unusual characters, smart on or off",
  "Conservation of arbitrary text: the tests use a few fixed snippets with mild characters.",
  [B, I, H], [("code block content", B + " CodeBlock.continue_, CodeBlock.finalize, Parser.add_line"), ("HTML block content", B + " HtmlBlock.finalize"), ("code spans", I + " parseBackticks"), ("inline HTML", I + " parseHtmlTag")],
  ["literal of code, code_block, html_block, html_inline nodes", "HTML output"])

p("C05", "Emphasis follows the delimiter-run rules",
  "For every inline text, every run of * and _ becomes emphasis, strong emphasis or literal text exactly as CommonMark 0.29's rules 1-17 for emphasis prescribe (flanking with Unicode whitespace and punctuation, intraword restriction for _, multiples of 3, nearest opener, minimal nesting). Delimiters that are not used stay as literal characters, none is lost or duplicated, and links, code spans and autolinks bind tighter.",
  ["inputs"], "all strings over delimiters, letters, Unicode punctuation and whitespace, brackets, code and escapes",
  "Delimiter matching is a global stack algorithm over the whole paragraph; 130 spec examples fix isolated patterns and cannot reach the interaction of many runs.",
  [I], [("flanking", I + " scanDelims"), ("delimiter stack", I + " handleDelim, processEmphasis, removeDelimiter, removeDelimitersBetween")],
  ["emph/strong/text nodes of the tree", "HTML output"], [("delimiters", "stack of delimiter runs", I + " InlineParser.delimiters")])

p("C06", "Links and images are recognised exactly as specified",
  "For every inline text, bracketed text becomes an inline, full, collapsed or shortcut link or image exactly when CommonMark 0.29 says so, with the destination, title and content the source denotes. Links never contain other bracketed links (an autolink inside a link stays), brackets that do not form a link stay literal, and a failed attempt leaves the following text to be parsed as if the attempt had not been made.",
  ["inputs"], "all inline texts with brackets, parentheses, angle destinations, quotes, escapes, nested images, and any set of reference definitions",
  "Bracket matching interacts with reference lookup, escapes and emphasis; failure-and-backtrack paths are unbounded and the spec examples cover few of them.",
  [I, C], [("bracket stack", I + " parseOpenBracket, parseBang, parseCloseBracket"), ("destination, title, label", I + " parseLinkDestination, parseLinkTitle, parseLinkLabel")],
  ["link/image nodes (destination, title, children)", "HTML output"], [("brackets", "stack of open brackets", I + " InlineParser.brackets")])

p("C07", "Link reference definitions resolve document-wide, first wins",
  "For every document, each valid link reference definition at the start of a paragraph, in any container and before or after its uses, is removed from the output and defines its label for the whole document; the first definition of a label wins and later ones are ignored. Labels match after Unicode case folding and collapsing of whitespace, and text that is not a complete valid definition is left as ordinary paragraph text.",
  ["inputs"], "all documents with any number, placement and shape of definitions (multi-line, titles of three kinds, bad trailers, near-duplicate labels, 999-character labels)",
  "Quantifies over placements, orders and label spellings; tests contain a fixed handful of definitions.",
  [B, I, NR], [("definition parsing", I + " parseReference; " + B + " Paragraph.finalize, BlockStarts.setext_heading"), ("label normalisation", NR + " normalize_reference")],
  ["link/image nodes", "HTML output"], [("refmap", "normalised label -> destination and title", B + " Parser.refmap")])

p("C08", "Backslash escapes and character references decode correctly",
  "In paragraph and heading text, link destinations, titles and fenced-code info strings, a backslash before any ASCII punctuation character yields that character and every HTML5 named reference and valid numeric reference yields exactly its character(s), with invalid code points becoming U+FFFD; anything else keeps its backslash or ampersand literally. A character produced this way is never interpreted as Markdown syntax.",
  ["inputs"], "all characters after a backslash, all 2125 named references, all numeric references, near-miss names, in every context",
  "The entity table and code point range are far larger than the dozen samples in the spec, and the contexts multiply them.",
  [C, I, B, ET], [("unescaping", C + " unescape_string, unescape_char"), ("inline entities and escapes", I + " parseEntity, parseBackslash"), ("info string", B + " CodeBlock.finalize")],
  ["text literals, destinations, titles, info", "HTML output"])

p("C09", "Code spans, autolinks, raw HTML and line breaks are exact",
  "For every inline text, a code span, URI or email autolink, raw HTML construct, hard or soft line break is recognised exactly where CommonMark 0.29 defines one, the leftmost construct winning and backtick runs matching only runs of equal length. Text that only resembles such a construct stays literal text.",
  ["inputs"], "all inline texts built from backticks, angle brackets, tags, attributes, comments, schemes, addresses, spaces, backslashes and newlines",
  "Near-miss syntax is unbounded; examples list a few dozen cases.",
  [I, C, H], [("backticks", I + " parseBackticks"), ("autolinks", I + " parseAutolink"), ("raw HTML grammar", C + " reHtmlTag"), ("breaks", I + " parseNewline, parseBackslash")],
  ["code/link/html_inline/linebreak/softbreak nodes", "HTML output"])

p("C10", "HTML output is well-formed and fully escaped",
  "For every document and option setting, the HTML produced, apart from raw HTML copied from the source, consists only of the renderer's own tags, properly nested and closed, with quoted attributes; every character of text, code, titles, URLs and info strings appears escaped, so text can never introduce a tag, attribute or entity. Parsing the output as HTML gives back the document's structure, text, alt texts, hrefs and titles.",
  ["inputs", "configurations"], "all documents x options safe, sourcepos, softbreak, smart",
  "Escaping must hold in every context for every character sequence; tests compare fixed strings.",
  [H, C, RR], [("escaping", C + " escape_xml; " + H + " out, tag"), ("nesting", H + " node methods, disable_tags")],
  ["HtmlRenderer.render output read by an HTML tokenizer"], [("disable_tags", "inside an image description", H + " HtmlRenderer")])

p("C11", "Safe mode lets no raw HTML or dangerous URL through",
  "With the renderer option safe=True, for every document, no raw HTML from the source reaches the output (each HTML block or inline tag is replaced by a fixed comment) and no link href or image src carries a javascript:, vbscript:, file: or data: URL (other than data: images of type png, gif, jpeg or webp), in any letter case and however it was written in the source. Everything else is rendered exactly as without safe mode.",
  ["inputs", "configurations"], "all documents, all spellings (case, escapes, entities, percent-encoding, angle brackets, autolinks, references) of destinations",
  "A security guarantee over all inputs; no test sets safe at all.",
  [H], [("raw HTML replacement", H + " html_inline, html_block"), ("URL filter", H + " potentially_unsafe, link, image")],
  ["HtmlRenderer({'safe': True}).render output"])

p("C12", "Link destinations are percent-encoded and lose nothing",
  "For every link, image, autolink and reference definition, the resulting destination contains only characters that are legal in a URI (no spaces, controls, quotes, backslashes, angle brackets or non-ASCII characters), and percent-decoding it yields the same bytes as percent-decoding the UTF-8 form of the destination written in the source after unescaping. Encoding an already encoded destination changes nothing.",
  ["inputs"], "all destinations over all of Unicode in every link form",
  "Covers every code point and every existing escape sequence; spec examples show about five.",
  [C, I], [("URI normalisation", C + " normalize_uri"), ("uses", I + " parseLinkDestination, parseAutolink")],
  ["destination of link/image nodes", "href/src attributes"])

p("C13", "The parsed tree is a consistent, fully closed tree",
  "For every document, the returned tree has mutually consistent parent, child and sibling links with no cycles or sharing, only containers have children, each node type occurs only where CommonMark allows it (items only in lists, blocks only in block containers, no link inside a link other than an autolink, heading levels 1-6), and no block is left open. Walking it yields each container exactly once on entry and once on exit and every leaf once in document order, and normalize() merges exactly the adjacent text nodes without changing any rendering.",
  ["inputs"], "all documents",
  "A structural invariant of every reachable tree; tests look at three nodes of one document.",
  [N, B, I], [("tree editing", N + " append_child, insert_after, unlink"), ("walker", N + " NodeWalker"), ("closing", B + " Parser.finalize"), ("normalize", N + " Node.normalize")],
  ["tree returned by Parser.parse", "Node.walker", "Node.normalize"])

p("C14", "Node editing and walking obey the ordered-tree model",
  "After any sequence of append_child, prepend_child, insert_before, insert_after and unlink calls on nodes, provided no node is inserted into or beside itself or below its own descendants, nor beside a node without parent, the tree reachable from every node equals that of a simple ordered-tree model performing the same edits: a moved node leaves its old place, siblings keep their order, and all links agree. A walker over any such tree, also when repositioned with resume_at or when the current node is unlinked during the walk, visits exactly the model's event sequence from there.",
  ["histories", "inputs"], "all finite sequences of editing operations on any trees (excluding edits that would create a cycle), all walker positions",
  "Statefulness: the bug-prone cases need specific multi-step histories (moving a first/last/only child, reparenting between lists); no test edits a tree.",
  [N], [("linked-list surgery", N + " Node.append_child/prepend_child/insert_before/insert_after/unlink"), ("walker", N + " NodeWalker.__next__, nxt, resume_at")],
  ["Node fields parent, first_child, last_child, prv, nxt", "walker events"])

p("C15", "Results depend only on the input: no state leaks between uses",
  "Parsing and rendering are deterministic functions of the text and the options: a Parser or renderer object used any number of times before, on any documents, gives the same result as a fresh one, in any order and with any other parsers and renderers alive. Creating or using one object never changes the options or results of another, rendering or dumping never changes the tree, and a document returned earlier is not altered by later parsing.",
  ["histories", "configurations"], "all sequences of operations (create, parse, render, dump, commonmark()) on any mix of objects, options and documents",
  "State leakage shows only after particular histories (reference maps, indentation, disabled tags, default arguments); tests use fresh objects.",
  [B, I, H, R, RR, D, M], [("per-parse reset", B + " Parser.parse"), ("renderer reset", RR + " Renderer.render; " + H + " disable_tags; " + R + " indent_length"), ("default options", H + " __init__; " + B + " Parser.__init__")],
  ["results of parse/render/dump in long random histories compared with fresh objects"], [("refmap, options, disable_tags, indent_length", "state that survives a call", B + "; " + H + "; " + R)])

p("C16", "Independent parsers and renderers are safe to use in threads",
  "When several threads each parse and render with their own objects (or call the module-level function) at the same time, every result equals the one obtained sequentially, under every interleaving.",
  ["schedules", "inputs"], "all interleavings of any number of threads, each with its own objects, same or different documents and options",
  "Tests are single-threaded; a shared mutable module global or class attribute breaks only under particular interleavings.",
  [B, I, H, R, M], [("no shared mutable state", "module and class level of all modules; default arguments")],
  ["results of concurrent calls, with forced thread switches between Python lines"])

p("C17", "Line ending style and the final newline do not matter",
  "For every document, writing its line endings as LF, CR LF or CR, in any mixture, gives the same result, and so does ending the last line with a line ending or not. U+0000 is treated as U+FFFD everywhere, so no output ever contains NUL.",
  ["inputs"], "all documents x all assignments of line ending styles to their line endings",
  "A relation over all inputs; the tests contain LF documents only.",
  [B], [("line splitting and NUL replacement", B + " Parser.parse, Parser.incorporate_line")],
  ["HTML, RST and tree of the variants compared"])

p("C18", "Tabs act as 4-column tab stops in block structure",
  "For every document, replacing the tabs in the leading whitespace of any lines (including after block quote and list item markers) by the spaces they represent at 4-column tab stops leaves the block structure unchanged and the text unchanged except inside code and HTML blocks, where tabs not consumed as indentation are kept as tabs and partially consumed ones become the remaining spaces. Tabs inside text are passed through literally.",
  ["inputs"], "all documents, tabs at any column and nesting depth",
  "The column arithmetic depends on every prefix before a tab; the spec has eleven tab examples.",
  [B], [("column tracking", B + " Parser.advance_offset, find_next_nonspace, add_line"), ("markers", B + " parse_list_marker, BlockQuote.continue_")],
  ["tree and HTML of tab and space variants", "code block literals against the reference model"], [("column, offset, partially_consumed_tab", "position in virtual columns", B + " Parser")])

p("C19", "Container blocks compose",
  "For every document D without tabs, prefixing each of its lines with '> ' gives a block quote whose content is D's blocks, and, if its first line begins with a character other than a space, indenting it under a list marker gives a single list item whose content is D's blocks. Two documents separated by a blank line and a block that neither can absorb render as the concatenation of their separate renderings (up to the reference definitions they share).",
  ["inputs"], "all documents, all list markers, any depth of wrapping",
  "These are the spec's own recursive rules for containers; examples show single instances.",
  [B], [("continuation of containers", B + " BlockQuote.continue_, Item.continue_, Parser.incorporate_line")],
  ["trees and HTML of wrapped, unwrapped and concatenated documents"])

p("C20", "Source positions locate every block in the source",
  "For every document, each block's source position starts at the line and column where the block begins and ends on a line that includes all of the block's text; a block's range lies within its parent's, and sibling ranges are in order and do not overlap. Positions never point outside the document, and with the sourcepos option the rendered data-sourcepos attributes are exactly these positions.",
  ["inputs", "configurations"], "all documents, any nesting, lazy lines, tabs and blank lines",
  "No test checks a source position at all.",
  [B, H], [("positions", B + " Parser.add_child, Parser.finalize"), ("attribute", H + " HtmlRenderer.attrs")],
  ["sourcepos of block nodes", "data-sourcepos attributes"], [("sourcepos", "[[line, column], [line, column]]", N + " Node")])

p("C21", "JSON and AST dumps represent the tree faithfully",
  "For every document, the JSON output is valid JSON that lists every node of the tree exactly once, nested as in the tree and in document order, with its type and its literal, title, info, destination and list data unchanged (empty fields may be left out). The printed AST likewise shows every node in order with its values, and dumping does not alter the tree.",
  ["inputs"], "all documents (and trees)",
  "The only tests run the CLI and look at the exit code.",
  [D, M], [("JSON", D + " prepare, dumpJSON"), ("AST printing", D + " dumpAST")],
  ["dumpJSON output", "dumpAST standard output"])

p("C22", "reStructuredText output keeps text, structure and layout",
  "For every document, the reStructuredText rendering contains all text, code and image descriptions in document order (raw HTML and thematic breaks have no form there), with emphasis, strong, code and link markup around the right text; block quotes, list items, code directives and image options indent every one of their lines; blocks are separated by blank lines; and a heading's underline is at least as long as its text, with one character per level. Rendering leaves no indentation behind: what follows a nested construct is laid out as if it stood alone.",
  ["inputs", "histories"], "all documents, any nesting",
  "13 fixed snippets are tested, none with nesting, empty headings or multi-line code in lists.",
  [R, RR], [("indentation", R + " lit, indent_lines, item, block_quote, image"), ("headings", R + " heading")],
  ["ReStructuredTextRenderer.render output"], [("indent_length", "current indentation", R)])

p("C23", "Smart punctuation changes only quotes, dashes and ellipses in text",
  "With the parser option smart, for every document the tree is the one obtained without it, except that within text straight quotes become curly quotes of the direction their flanking gives, '...' becomes an ellipsis, and every run of n>=2 hyphens becomes em and en dashes whose lengths (3 and 2) add up to n, preferring a homogeneous run. Code, raw HTML, URLs, titles and escaped characters are unchanged, and without the option no such replacement happens.",
  ["inputs", "configurations"], "all documents, all runs of hyphens, dots and quotes in all contexts",
  "A single test covers five dash runs.",
  [I], [("smart text", I + " parseString, smart_dashes"), ("quotes", I + " handleDelim, processEmphasis")],
  ["trees with and without smart compared", "HTML output"])

p("C24", "No text is lost, duplicated or reordered",
  "For every document, every word of the source that is not part of a link reference definition, link destination, title, code info string or raw HTML appears in the rendered HTML exactly once and in source order, whatever markup surrounds it. No visible character, including non-ASCII spaces, is dropped from the content.",
  ["inputs"], "all documents with any markup around and between uniquely labelled words and characters",
  "A conservation law over arbitrary markup combinations; tests only compare fixed outputs.",
  [B, I, H], [("line assignment", B + " Parser.add_line"), ("inline moves", I + " processEmphasis, parseCloseBracket"), ("literal text", I + " parseInline, parseString")],
  ["sequence of word tokens in the HTML output compared with the source"])

p("C25", "Processing effort stays polynomially bounded",
  "For every document of n characters the work done by parsing and rendering it to HTML or reStructuredText grows at most about quadratically in n: no input, in particular no repetition of brackets, delimiters, backticks, escapes, quotes, entities, tags, markers or blank lines, causes exponential or cubic behaviour. This holds for the pattern matching as well as for the parser's own loops.",
  ["inputs"], "all families of repeated and nested constructs at growing sizes",
  "Two vulnerability tests cover two patterns; denial-of-service inputs are specific repeated structures.",
  [I, B, C], [("patterns", I + " and " + C + " regular expressions"), ("delimiter and bracket stacks", I + " processEmphasis, parseCloseBracket"), ("block loops", B + " Parser.incorporate_line, List.finalize")],
  ["CPU time and executed bytecode-line counts over growing adversarial inputs, each in a budgeted child process"])

p("C26", "The cmark command gives exactly the library's results",
  "For every document given as a file or on standard input, the cmark command writes exactly the library's HTML (or with -aj its JSON) to standard output or the -o file, and with -a its printed AST, and exits with status 0. The input file is not modified and an output file contains only the output.",
  ["inputs", "configurations"], "all documents x input source x output target x -a/-aj, pre-existing output files included",
  "The three smoke runs only look at the exit code of one file.",
  [CL, M], [("command line", CL + " main")],
  ["stdout, output file, exit status of python -m commonmark.cmark"])

p("C27", "Bundled fallback tables agree with the current standards",
  "On every supported Python version the results are the same: the bundled entity decoder gives, for every named and numeric reference, the same result as the standard library's, and the bundled case-folding table folds every string as Unicode case folding does for the characters it lists, so label matching does not depend on which implementation is active.",
  ["configurations", "inputs"], "all references and strings x implementation chosen (native or bundled)",
  "Only the native implementation is ever executed by the tests on a current Python.",
  [ET, NR, C], [("entity fallback", ET + " _unescape"), ("case-folding fallback", NR + " XLAT, normalize_reference")],
  ["commonmark.entitytrans._unescape", "the translate table of normalize_reference", "rendering with the fallbacks switched in"])

p("C28", "Edited and built trees render like parsed ones",
  "Output is a function of the tree alone. For every validly nested tree, whether parsed, edited through the Node interface or built from new nodes: two trees with the same types, values and order give the same HTML, reStructuredText and JSON however they came about; the HTML is well-formed, has one element per element node in document order and escapes every value set by the program; a document, block quote, list or emphasis is rendered as its own tags around the output of each of its children rendered alone; a renderer's method for a node type is called exactly once for each walker event on such a node, in order, so that subclasses which override or add methods see every node; custom_inline and custom_block nodes contribute exactly their on_enter and on_exit markup around their children; and rendering or dumping leaves the tree unchanged.",
  ["inputs", "histories"], "all parsed documents x all sequences of edits (move, remove, insert, wrap, copy, change values) and trees built in any order of insertion",
  "No test renders a tree that was edited or built by hand, and none uses custom nodes or subclasses of the renderers.",
  [RR, H, R, D, N], [("dispatch", RR + " Renderer.render"), ("node methods", H + " HtmlRenderer"), ("node methods", R + " ReStructuredTextRenderer"), ("custom nodes", H + " custom_inline, custom_block"), ("links between nodes", N + " Node.append_child, insert_before, unlink")],
  ["HtmlRenderer.render", "ReStructuredTextRenderer.render", "Renderer subclasses", "dumpJSON"])

p("C29", "Letters are opaque: another alphabet changes nothing else",
  "Markdown gives meaning to ASCII punctuation, digits and whitespace, not to letters. For every document without character references and HTML names: replacing its letters one for one (the same letter always by the same character, case pairs by case pairs) with characters of any script, symbols (category S), marks, non-ASCII digits, format or control characters above U+0085, inside or outside the basic plane, gives the same tree with the same source positions, the same HTML and the same reStructuredText, with those characters replaced (percent-encoded in destinations). Permuting the ASCII letters does so too where no tag name, scheme or character reference is spelt.",
  ["inputs"], "all documents x all alphabets that preserve case pairs and general kind (neither whitespace nor punctuation)",
  "Tests are written in ASCII; regular expressions, str methods and case folding treat scripts differently in ways only other alphabets show.",
  [B, I, C, NR, R, H], [("ASCII-only classes", C + " ASCII, WHITESPACE, regular expressions"), ("flanking", I + " scanDelims"), ("labels", NR + " normalize_reference"), ("destinations", C + " normalize_uri"), ("heading lines", R + " heading")],
  ["tree returned by Parser.parse", "HtmlRenderer.render", "ReStructuredTextRenderer.render"])

p("C30", "What follows never changes a finished block",
  "A document is read from top to bottom: parsing any beginning of it (cut after a line) finds the same blocks as parsing all of it, as far as they are finished. Every block that already has a later sibling in the beginning's tree is in the whole document's tree at the same place with the same content, tightness and source position; blocks still open may grow by what follows, but keep their kind, their start, a list its kind and first number, fenced code its info string and the lines it has (only an open paragraph may become a heading or definitions). Inline content too is the same where the document defines no references.",
  ["inputs"], "all documents x all beginnings of whole lines",
  "Streaming, previews and appended documents rely on it; the tests parse whole examples only.",
  [B, I], [("open blocks", B + " incorporate_line, close_unmatched_blocks, finalize"), ("tightness", B + " List.finalize")],
  ["tree returned by Parser.parse"])

p("C31", "Every tree can be written, and all its spellings read back as that tree",
  "The syntax gives several spellings for the same structure: ATX or setext headings, fenced or indented code, fence characters and lengths, list markers and their spacing, bullets, later numbers, kinds of thematic breaks, spaces and blank lines where they are free, indentation of up to three columns, tabs, lazy continuation lines, * or _, lengths of backtick runs, inline links or full, collapsed and shortcut references with definitions anywhere, forms of destinations and titles, backslash escapes or character references, line endings. A structure of blocks and inlines written in any of these spellings is parsed as exactly that structure, with its texts, levels, numbers, tightness, info strings, destinations and titles.",
  ["inputs"], "all trees x all their spellings",
  "The spellings combine in more ways than examples can list, and each combination is a chance for one construct to disturb another.",
  [B, I, C], [("block starts and continuation", B), ("inline scanning", I), ("unescaping", C + " unescape_string")],
  ["tree returned by Parser.parse"])

p("C32", "Memory stays in proportion to the document and is released",
  "Parsing a document and rendering it as HTML needs memory at most in proportion to its length (the indented outputs, whose own size may be quadratic in the nesting, at most with its square), whatever constructs are repeated or nested in it. What was needed is released when tree and output are dropped: a parser, a renderer, the dump functions, commonmark() and the module itself keep at most what belongs to the last document or a bounded amount, however many distinct documents, labels, destinations, texts, options, abandoned walkers, failed calls or threads have come before.",
  ["inputs", "histories"], "all documents; all histories of uses of the public interface",
  "Services process documents from strangers for months; a memo without a bound or a copy per position shows in no single small test.",
  [I, B, NR, R, H], [("per-document state", B + " Parser.parse"), ("bracket and delimiter stacks", I), ("output", R + " Renderer.render")],
  ["memory traced while Parser.parse and render run", "blocks held after the results are dropped"])

p("C33", "Entry points and equivalent options agree; HTML options are independent",
  "commonmark(text) and commonmark(text, format) give exactly what Parser().parse followed by HtmlRenderer, ReStructuredTextRenderer, dumpJSON or dumpAST gives; any other format raises ValueError and prints nothing. Leaving an option out, giving its default, or any false value instead of False and any true value instead of True, is the same; options of another part and unknown options change nothing, nor do subclasses that override nothing. The HTML options safe, sourcepos and softbreak each do their own thing in every combination and with smart: sourcepos only adds attributes, softbreak only decides what stands for a soft line break (line endings next to one another aside), safe only leaves out raw HTML and dangerous URLs.",
  ["inputs", "configurations"], "all documents x all combinations and spellings of options",
  "The tests use one entry point and one option at a time.",
  ["commonmark/main.py", H, R, I, "commonmark/dump.py"], [("dispatch", "commonmark/main.py commonmark"), ("options", H + " HtmlRenderer.__init__, attrs, softbreak")],
  ["return value of commonmark()", "HtmlRenderer.render", "standard output"])

p("C34", "An interruption at any point leaves nothing behind",
  "If parsing, rendering or dumping is abandoned at any point by an exception (an interrupt, a time-out, lack of memory, an error in an overriding method or in a hand-made tree), that exception comes out unchanged, and afterwards the same Parser and renderer objects, and all others, give exactly the results they would give had the abandoned call never been made; documents parsed before, including one being rendered or dumped at that moment, are unchanged.",
  ["inputs", "crash_points", "histories"], "all documents x all points of execution x what follows",
  "No test interrupts anything; the points of one small document alone are thousands.",
  [B, I, H, R, NR, "commonmark/dump.py"], [("per-document state", B + " Parser.parse, incorporate_line"), ("bracket and delimiter stacks", I + " InlineParser.parseInlines"), ("per-page state", NR + " Renderer.render; " + H + " HtmlRenderer.render; " + R + " ReStructuredTextRenderer.render")],
  ["lines and bytecodes of the library as they run", "results of Parser.parse, render, dumpJSON, dumpAST"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
