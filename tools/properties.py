SC, TK = "src/scanner/mod.rs", "src/scanner/tokens.rs"
PA, BL, IN, LI, MD, ND, AS = "src/parser.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/lists.rs", "src/graph/metadata.rs", "src/graph/nodes.rs", "src/graph/asg.rs"
DOCS = "The tests parse a few dozen hand-written documents; "
TESTS = "The tests scan a few dozen short hand-written strings; "

PROPERTIES = [
    dict(id="A01", title="Scanning any text terminates without a panic, ending in one end-of-file token",
         statement="For every text, pulling tokens until there are none left takes finitely many steps and never panics. "
                   "Exactly one end-of-file token is produced, it comes last, and nothing follows it. "
                   "No more items are produced than the text has bytes, plus one.",
         for_all="every Unicode text, of any length, valid AsciiDoc or not",
         why=TESTS + "they say nothing about the endless other texts: markup cut off at the end of the input, multi-byte characters in any position, lookahead past the end.",
         files=[SC, TK], mech=[("token iterator", SC + " Iterator::next"), ("dispatch on the first character", SC + " scan_token"), ("lookahead", SC + " peek, peeks_ahead, peek_line")],
         observe=["the sequence of items produced by asciidocr::scanner::Scanner"]),
    dict(id="A02", title="The tokens of a text, laid end to end, are that text",
         statement="For every text, each token's text is the part of the source that directly follows the previous token's text, and together the tokens cover the source to its end. "
                   "Only the parts of a tag directive's line before and after the directive may be in no token. "
                   "No token but the end-of-file token is empty; the claim ends at the first reported error.",
         for_all="every Unicode text, of any length",
         why=TESTS + "a lost, repeated or moved character elsewhere would change documents silently.",
         files=[SC, TK], mech=[("token creation", SC + " add_token"), ("start of the next token", SC + " Iterator::next"), ("tag directives", SC + " add_tag")],
         observe=["the lexemes produced by asciidocr::scanner::Scanner"]),
    dict(id="A03", title="Every token reports the line its text begins on",
         statement="For every text, each token's line is one more than the number of newlines before the first character of its text, and the end-of-file token's line is that of the end of the text. "
                   "This holds after tokens whose text spans several lines. The claim ends at the first reported error.",
         for_all="every Unicode text, of any length; tokens after a description list marker that ends its line are excepted (known finding)",
         why=TESTS + "each construct that can hold a newline can put every later line off by one, and error messages and the graph's locations with it.",
         files=[SC, TK], mech=[("line counting", SC + " add_token"), ("lines skipped after a tag directive", SC + " add_tag")],
         observe=["the line of tokens produced by asciidocr::scanner::Scanner"]),
    dict(id="A04", title="Every token reports the columns its text covers",
         statement="For every text, a token's first column is one more than the number of bytes between the start of its line and its text. "
                   "Its last column is its first column plus the length of its text in bytes, minus one. The claim ends at the first reported error.",
         for_all="every Unicode text, of any length; tokens after a description list marker that ends its line are excepted (known finding)",
         why=TESTS + "the columns after multi-line tokens, tag directives and multi-byte characters are hardly reached.",
         files=[SC, TK], mech=[("column counting", SC + " add_token"), ("columns at tag directives", SC + " add_tag")],
         observe=["the start and end columns of tokens produced by asciidocr::scanner::Scanner"]),
    dict(id="A05", title="A heading marker's level is its number of equals signs, up to five",
         statement="At the start of a line, a run of one to five equals signs followed by a space is a heading token of that level, and its text is the run and the one space; no other text is a heading token. "
                   "A longer run followed by a space is reported as an error that names its line. "
                   "This is claimed outside tagged regions that are still open.",
         for_all="every Unicode text, every position in it, any length of the run",
         why=TESTS + "the heading tests use one marker per level, never a run without its space, a run in mid-line, at the end of the input or after other markup.",
         files=[SC, TK], mech=[("heading markers", SC + " add_heading"), ("dispatch", SC + " scan_token")],
         observe=["the kind, text and errors of asciidocr::scanner::Scanner's items"]),
    dict(id="A06", title="Delimiters, breaks and table frames are exactly the lines made of their mark",
         statement="A line of exactly four of + * - _ / = . is a passthrough, sidebar, source, quote, comment, example or literal delimiter, a line of two dashes an open block, three single quotes a thematic break, three < a page break, a lone + a block continuation, and |=== a table frame. "
                   "Only at the start of a line, and only when the line ends right after the mark, is any text taken for one of these; all but the open block and the continuation may also end the file without a newline. "
                   "This is claimed outside tagged regions that are still open.",
         for_all="every Unicode text, every position in it",
         why=TESTS + "one spelling of each delimiter is tested, not the near misses: three or five marks, marks in mid-line, trailing characters, the end of the file.",
         files=[SC, TK], mech=[("repeated-character lines", SC + " starts_repeated_char_line"), ("delimiter kinds", TK + " block_from_char"), ("dispatch", SC + " scan_token")],
         observe=["the kind and text of asciidocr::scanner::Scanner's tokens"]),
    dict(id="A07", title="List, callout and description list marks are recognised exactly",
         statement="At the start of a line '* ' marks an unordered item, '. ' an ordered item and '<digits> ' a callout list item; '<digits>' right before a newline is a callout anywhere. "
                   "'::' followed by a space or newline is a description list mark unless a space precedes it or it belongs to an attribute line. "
                   "Each marker's text is exactly those characters and nothing else is such a marker; claimed outside tagged regions that are still open.",
         for_all="every Unicode text, every position in it, callout numbers of any length",
         why=TESTS + "a marker missed or seen in mid-line changes the whole list structure of a document that no test contains.",
         files=[SC, TK], mech=[("list items", SC + " add_list_item"), ("callouts", SC + " starts_code_callout, starts_code_callout_list_item"), ("dispatch", SC + " scan_token")],
         observe=["the kind and text of asciidocr::scanner::Scanner's tokens"]),
    dict(id="A08", title="Attribute, comment, title, include, image and option lines span their extent",
         statement="A line ':name:' is an attribute token up to the end of the line, '//' a comment up to the end of the line (up to a tag directive's name if '// tag::' or '// end::' starts it), '[...]' an attribute list up to the end of the line, and a dot that starts a line, not followed by a space or two dots, a title mark. "
                   "'include::' and 'image::' at the start of a line are include and block image tokens up to and including the next ']', and ordinary text if there is none. "
                   "No other text is one of these tokens; claimed outside tagged regions that are still open.",
         for_all="every Unicode text, every position in it",
         why=TESTS + "how far such a line reaches depends on everything up to its end; the tests use short complete lines.",
         files=[SC, TK], mech=[("attribute lines", SC + " starts_attr"), ("attribute lists", SC + " starts_attribution_line"), ("includes and images", SC + " add_include, add_block_image")],
         observe=["the kind and text of asciidocr::scanner::Scanner's tokens"]),
    dict(id="A09", title="Inline macros, admonition labels and attribute references are read exactly",
         statement="'footnote:[', 'pass:[', ']', '{name}' of any number of letters, digits, - and _, and '[.role]' are macro, closing, reference and style tokens; 'image:' not followed by ':' or a space is an inline image up to the next ']'. "
                   "'NOTE: ', 'TIP: ', 'IMPORTANT: ', 'CAUTION: ' and 'WARNING: ' at the start of a line, and the line made of one of those names in square brackets, are the admonition labels. "
                   "Where a token starts with such text it is that token with exactly that extent, and no other text is one.",
         for_all="every Unicode text, every position at which a token starts; whether a letter beyond ASCII counts as one is left open",
         why=TESTS + "the near misses - a label in mid-line, another word in brackets, a macro cut off at the end of the input - are not among them.",
         files=[SC, TK], mech=[("inline images and styles", SC + " add_inline_image, add_inline_style"), ("attribute references", SC + " starts_attribute_reference"), ("labels", SC + " scan_token")],
         observe=["the kind and text of asciidocr::scanner::Scanner's tokens"]),
    dict(id="A10", title="Replaced characters are recognised exactly and stand for the right text",
         statement="A token starting with (C) (R) (TM) ... -> => <- <= or an em dash '--' is a character reference standing for that symbol's entity, 's after a word an apostrophe, &name; itself, and the quotes \"` `\" '` `' next to space or a boundary are typographic quotes. "
                   "No other text is such a token. Every other token stands for exactly its own text.",
         for_all="every Unicode text, every position at which a token starts outside open tagged regions; whether a letter beyond ASCII counts as one in &name; is left open",
         why=TESTS + "each replacement is tested once or not at all, and that nothing else is replaced is not tested.",
         files=[SC, TK], mech=[("replacements", TK + " validate"), ("token text", TK + " text"), ("em dash", SC + " starts_text_symbol_replace_emdash"), ("symbols in parentheses", SC + " handle_text_symbol_replacement_parens")],
         observe=["the kind, text and literal of asciidocr::scanner::Scanner's tokens"]),
    dict(id="A11", title="Formatting marks are constrained, unconstrained or text as their neighbours say",
         statement="A doubled * _ ` + # is the unconstrained mark; a single one is the constrained mark if the next character ends a span or the previous one begins one, and plain text otherwise or between two spaces; ^ and ~ always mark super- and subscript, and ' +' before a newline is a line break. "
                   "Marks that are delimiters, list items or quotes are excepted. "
                   "No plain text token holds a formatting character after its first, unless it starts with a bracket or <.",
         for_all="every Unicode text, every position at which a token starts outside open tagged regions",
         why=TESTS + "the tests cover a few neighbours out of all pairs, and no multi-byte ones.",
         files=[SC, TK], mech=[("inline formatting", SC + " handle_inline_formatting"), ("plain text", SC + " add_text_until_next_markup")],
         observe=["the kind and text of asciidocr::scanner::Scanner's tokens"]),
    dict(id="A12", title="Cross references, anchors and table cells span exactly their extent",
         statement="'<<' up to the next '>>' is a cross reference and '[[' at the start of a line up to the next ']]' that ends a line a block anchor, unless the text holds a space or newline, which makes it plain text, or is never closed. "
                   "A | at the start of a line or after a space is a table cell up to the next | that follows a space, or the end of the line, except for the table frame. "
                   "No other text is such a token; claimed outside tagged regions that are still open.",
         for_all="every Unicode text, every position at which a token starts",
         why=TESTS + "cells that hold bars, references that are never closed and anchors with text after them are not among them.",
         files=[SC, TK], mech=[("cross references", SC + " add_cross_reference"), ("anchors", SC + " add_block_anchor"), ("cells", SC + " add_table_cell"), ("spaces in names", TK + " validate")],
         observe=["the kind and text of asciidocr::scanner::Scanner's tokens"]),
    dict(id="A13", title="Tag directives open and close tagged regions, whatever surrounds them",
         statement="A token that starts at 'tag::' or 'end::' with a ']' before the line ends is a start or end tag whose text reaches to that ']', and plain text if there is no ']'. "
                   "A tag token found after leading comment characters occurs only while a tagged region is open, and its text starts with 'tag::' for a start and 'end::' for an end. "
                   "A region is open after a start tag, closed after an end tag, and no other token or error changes that.",
         for_all="every Unicode text, every position at which a token starts, any sequence of tags",
         over=["inputs", "histories"],
         why=TESTS + "the state carried from a start tag to its end is tested for two well-formed files.",
         files=[SC, TK], mech=[("tag directives", SC + " add_tag"), ("comment characters before an end tag", SC + " starts_end_tag_line")],
         observe=["the kind and text of asciidocr::scanner::Scanner's tokens"]),
    dict(id="B01", title="Positions are totally ordered and merging them gives exactly their span",
         statement="Of two positions the one in the file that is included less deep comes first, in files equally deep the smaller line, and on the same line the smaller column. "
                   "Merging two lists of positions, the second not empty, gives the first and the last of all of them in that order (one position if there is only one); merging with an empty list changes nothing. "
                   "The line and columns of an inline are the line and column of its first position and the column of its last.",
         for_all="every two lists of positions of any length",
         why="The tests merge three pairs of lists; order, duplicates, longer lists and depths are open.",
         files=[ND], mech=[("order", ND + " Ord for Location"), ("merging", ND + " Location::reconcile"), ("line and columns", ND + " Location::destructure_inline_locations")],
         observe=["asciidocr::graph::nodes::Location"]),
    dict(id="B02", title="The word count counts every word of the body exactly once",
         statement="The plain text of a parsed document holds as many whitespace-separated words as the titles, terms, captions, items, cells, paragraphs and verbatim blocks of its body together, each of them counted by itself. "
                   "No word is counted twice or left out, and words of neighbouring blocks are never glued together. "
                   "The word count is the number of words of that plain text.",
         for_all="every document tree the parser builds, of any size and depth",
         why="The tests count the words of one small document; whether each kind of block at each depth contributes is open.",
         files=[AS, BL, IN], mech=[("plain text of a document", AS + " all_text, word_count"), ("plain text of a block", BL + " block_text"), ("text of inlines", IN + " extract_values_to_string")],
         observe=["asciidocr::graph::asg::Asg::word_count and all_text"]),
    dict(id="C01", title="Parsing any text ends with a tree or an error, never with a crash",
         statement="For every text, parsing it terminates and returns a document tree or an error value. "
                   "It neither panics nor ends the process.",
         for_all="every Unicode text without include directives, resolution of targets turned off",
         why=DOCS + "the panics sit in combinations of constructs that no test holds.",
         files=[PA, BL, IN, LI, MD, AS], mech=[("token dispatch", PA + " token_to_block"), ("blocks under construction", PA + " add_to_block_stack_or_graph"), ("inlines under construction", PA + " parse_inline_span")],
         observe=["asciidocr::parser::Parser::parse"]),
    dict(id="C02", title="Sections nest by heading level and keep their titles and their blocks",
         statement="A heading opens a section of its level whose title is the rest of the heading's line, and the title of the document is the level-0 heading at its start. "
                   "Everything up to the next heading of the same or a smaller level belongs to that section, in source order: blocks before the first deeper heading directly, deeper headings as sections of their own. "
                   "The blocks before the first heading are the document's own.",
         for_all="every sequence of headings of level 1 to 4, none more than one level deeper than the one before, with blocks in between",
         why=DOCS + "no test has more than a few headings, or headings after lists, delimited blocks or tables.",
         files=[PA, BL, AS], mech=[("heading levels", PA + " parse_section_headings"), ("where a section goes", AS + " push_block"), ("what a block may hold", BL + " takes_block_of_type, push_block")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C03", title="Lists hold exactly their items, nested lists and attached blocks, in order",
         statement="Consecutive items with the same mark (* or . or term::) are the items of one list, in order, each with the text of its lines up to the next item, continuation or empty line. "
                   "Items with another mark right below an item make a list inside that item, and an item with the mark of an outer list goes on with that list. "
                   "A block attached with a + line belongs to the item above it.",
         for_all="unordered, ordered and description lists of any length, lists of another kind nested in items, paragraphs and delimited blocks attached to items",
         why=DOCS + "lists are tested with two items or two levels; going back over several levels, or attaching blocks to nested items, is not.",
         files=[PA, BL, LI], mech=[("items", PA + " parse_unordered_list_item, parse_ordered_list_item, parse_description_list_term"), ("attaching", PA + " parse_block_continuation"), ("closing lists", PA + " close_list_items, add_last_list_item_to_list")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C04", title="Delimited blocks hold exactly the blocks between their delimiters",
         statement="A sidebar, example, quote or open block holds the blocks between its two delimiter lines, in order and nothing else, whatever these blocks are; the blocks after it stand next to it. "
                   "Delimited blocks of different kinds nest. "
                   "An example block below an admonition label is inside of an admonition of that kind, and a paragraph starting with a label is one.",
         for_all="delimited blocks nested up to three deep with paragraphs, lists, tables, verbatim blocks, breaks and images in them",
         why=DOCS + "each kind of delimited block is tested with one or two paragraphs in it.",
         files=[PA, BL], mech=[("opening and closing", PA + " parse_delimited_block, close_parent_after_push"), ("admonitions", PA + " parse_admonition_para_syntax"), ("what a block may hold", BL + " push_block")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C05", title="Verbatim blocks keep their lines character for character",
         statement="The text of a listing, literal or passthrough block is exactly the lines between its delimiters, whatever markup they look like, empty lines and leading blanks included, without the last line end. "
                   "A verse keeps its lines and empty lines as well. "
                   "Comments and comment blocks leave nothing in the tree.",
         for_all="every such block whose lines hold formatting marks, list marks, headings, macros, references, other delimiters, attributes or comments",
         why=DOCS + "verbatim blocks are tested with plain words in them.",
         files=[PA, BL, IN], mech=[("passing text through", PA + " token_to_block, parse_text"), ("leaf blocks", BL + " LeafBlock"), ("literal text", IN + " InlineLiteral::new_text_from_token")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C06", title="Tables hold exactly their cells in order, with the right number of columns",
         statement="A table holds one cell for each | in order, with the text after it, and nothing else. "
                   "Its number of columns is what cols says, as a number or as a list of widths, and else the number of cells on its first line. "
                   "It has a header exactly if the cells of the first row stand on one line right below the frame, at least two of them.",
         for_all="tables of 1 to 4 columns and 1 to 3 rows, one row or one cell to a line, with formatted text or links in cells",
         why=DOCS + "three tables are tested.",
         files=[PA, BL], mech=[("cells", PA + " parse_table_cell"), ("columns and header", BL + " consolidate_table_info"), ("cols", "src/graph/metadata.rs simplify_cols")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C07", title="Formatted text covers exactly the text between its marks and nests",
         statement="Text between two marks * _ ` # (single around words, doubled anywhere) or ^ ~ is a span of that kind holding exactly the text between them, and [.role] in front of the first mark gives it that role. "
                   "Spans of different kinds nest, and a mark that has no partner is text. "
                   "The text around a span, quotes, entities and line breaks stay in their place.",
         for_all="paragraphs, items, terms' descriptions, titles and admonitions of any such pieces, spans nested up to three deep",
         why=DOCS + "spans are tested one at a time or two levels deep, at the start or in the middle of a paragraph.",
         files=[PA, IN], mech=[("spans", PA + " parse_inline_span"), ("nesting", IN + " InlineSpan::add_inline"), ("line breaks", PA + " token_to_block")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C08", title="Links, images, footnotes and references keep target, text and place",
         statement="A link has the given target and the text between its brackets, or none; an inline image its target; a footnote the text between its brackets; a cross reference to a section the section's id as target and its title as text. "
                   "Each stands where it was written, and the text around it, brackets included, is kept. "
                   "Links, footnotes and formatted text nest.",
         for_all="paragraphs, items, cells and sidebars of any such pieces",
         why=DOCS + "macros are tested one to a paragraph.",
         files=[PA, IN], mech=[("opening and closing", PA + " parse_link_macro, parse_footnote_macro, parse_inline_macro_close"), ("references", PA + " parse_cross_reference"), ("titles of references", AS + " standardize and consolidate")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C09", title="Ids, roles and attributes belong to the block they stand above",
         statement="An anchor or an attribute list above a block gives its id, role, language, attribution, citation or columns to that block and to no other. "
                   "A title line above a sidebar, example, quote or image is the title of that block. "
                   "Blocks without such lines have none.",
         for_all="paragraphs, lists, verbatim and delimited blocks, tables and sections, any of them with an anchor, an attribute list or both",
         why=DOCS + "metadata is tested in front of a paragraph and of a few blocks, never across neighbouring blocks.",
         files=[PA, MD, BL], mech=[("attribute lists", PA + " parse_block_element_attributes, parse_block_anchor_attributes"), ("handing over", PA + " push_block_to_stack"), ("reading", MD + " ElementMetadata")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="C10", title="An attribute reference is replaced by the value the document gave it",
         statement="Where the text holds a reference to an attribute defined in the header, the tree has the value of that attribute in its place. "
                   "The text before and after the reference is kept.",
         for_all="up to three attributes of one or two words, referred to in paragraphs, items, cells, admonitions and formatted text",
         why=DOCS + "one reference in one paragraph is tested.",
         files=[PA], mech=[("definition", PA + " parse_attribute"), ("reference", PA + " parse_attribute_reference")],
         observe=["the tree asciidocr::parser::Parser::parse returns"]),
    dict(id="D01", title="Footnotes moved to the end are numbered in order, with references both ways",
         statement="When the footnotes of a parsed document are moved to its end, every footnote in the text of a paragraph, verbatim block, list item or description, however deeply nested, is replaced in its place by a superscript reference with the next number, counted from 1 in the order of the document. "
                   "One block with as many definitions, in the same order, is added at the end; each keeps the text of its footnote and has the id its reference points to, and points back to that reference, all ids being different. "
                   "Everything else in the document stays as it is, and so do footnotes in table cells, headings and formatted text.",
         for_all="documents of sections, lists, delimited blocks, admonitions and tables nested to any depth with any number of footnotes",
         why="one footnote in one paragraph is tested; numbering goes wrong only where footnotes at several levels of nesting follow each other.",
         files=[AS, BL, LI, IN], mech=[("collecting", AS + " standardize_footnotes"), ("per block", BL + " extract_footnote_definitions"), ("per list item", LI + " extract_footnotes"), ("taking one apart", IN + " deconstruct_footnote")],
         observe=["asciidocr::graph::asg::Asg::standardize_footnotes on a parsed document"]),
    dict(id="E01", title="An include line is replaced by the blocks of the file it names",
         statement="A document with an include line on its own between blocks, at the start of a delimited block or after a list continuation has the tree of the document with the file's text in that place, to any depth, the names being relative to the file they stand in. "
                   "Headings of the file are moved by the given leveloffset, relative with a sign and absolute without, and those after it are not. "
                   "If there is no such file, parsing fails.",
         for_all="files of any blocks, up to three deep, in the same or a lower directory, called .adoc, .asciidoc or .txt, with or without a final line end, with or without leveloffset; a file with sections is followed by a heading of no deeper level or by nothing",
         why="a file of paragraphs, included once, is tested; what goes wrong depends on what is open where the include stands and on how files nest.",
         files=[PA, "src/utils.rs"], mech=[("reading the file", PA + " parse_include"), ("names", PA + " resolve_target"), ("offset", PA + " parse_level_offset, get_heading_level")],
         observe=["the tree asciidocr::parser::Parser::parse returns for files on disk"]),
    dict(id="E02", title="Code or text taken from a file by lines or tags is exactly those lines",
         statement="An include in a listing takes the lines of a file of code character for character, whatever markup they look like; in a document it takes the paragraphs of a file of text. "
                   "With lines it takes exactly the given lines and ranges, an open range or one to -1 going to the end, and with tag or tags the lines between the marks of those names, which themselves are left out. "
                   "Lines around the include are kept.",
         for_all="files of up to 12 lines and one to three increasing ranges, or up to four tagged parts one after the other; empty lines next to the included ones do not count",
         why="six selections from one file are tested.",
         files=[PA, "src/utils.rs", "src/scanner/tokens.rs"], mech=[("choosing lines and tags", PA + " parse_include"), ("ranges", "src/utils.rs extract_page_ranges"), ("names of tags", "src/scanner/tokens.rs Token::tag")],
         observe=["the tree asciidocr::parser::Parser::parse returns for files on disk"]),
    dict(id="F01", title="The HTML has every block of the document in order, as the element of its kind",
         statement="The HTML has the title of the document as its title, and in its body the blocks of the tree, in order and nested as they are, each as the element of its kind with its id and with its roles as classes: "
                   "sections with their headings, paragraphs, lists with their items and terms, preformatted blocks, asides, quotes with attribution, admonitions, figures with captions, tables with their head and rows. "
                   "Formatted text, links, references, footnotes and images stand in their places in the text, and code in listings and literal blocks is escaped so that it shows as written.",
         for_all="documents of every kind of block, nested up to three deep, with any inline markup; how running text escapes < and & is not claimed",
         why="a few dozen documents are compared with stored pages; what goes missing depends on how blocks, attributes and titles are combined.",
         files=["src/backends/htmls.rs", "templates/htmlbook/block.html.tera", "templates/htmlbook/leafblocks.html.tera", "templates/htmlbook/inline.html.tera", "templates/htmlbook/tables.html.tera", "templates/htmlbook/htmlbook.html.tera"],
         mech=[("rendering", "src/backends/htmls.rs render_htmlbook"), ("blocks", "templates/htmlbook/block.html.tera"), ("text", "templates/htmlbook/inline.html.tera"), ("tables", "templates/htmlbook/tables.html.tera")],
         observe=["the text asciidocr::backends::htmls::render_htmlbook returns for a parsed document"]),
    dict(id="G01", title="The command writes the converted document where it was asked to, and only there",
         statement="With -o the command writes the result to the named file, or to standard output if that is '-'; without -o it writes to standard output if it reads standard input, and otherwise to a file next to the input, named like it but ending in html, json or docx after the backend. "
                   "What it writes is what the library yields for the document, -c adds the number of words on standard output, and no other file is written or changed. "
                   "If the document cannot be read or parsed, or a docx is to go to standard output or is asked for with -x, the exit status says so and no file is written.",
         for_all="all combinations of input, backend, -o, -c and -x; names with several dots, without one, or in other directories",
         over=["inputs", "configurations"],
         why="the command itself is not tested at all.",
         files=["src/bin/asciidocr/cli.rs", "src/bin/asciidocr/main.rs"], mech=[("choice of the output", "src/bin/asciidocr/cli.rs read_output"), ("input", "src/bin/asciidocr/cli.rs read_input"), ("conversion", "src/bin/asciidocr/main.rs run")],
         observe=["exit status, standard output and files of the asciidocr command"]),
]

NOT_APPLICABLE = {}
NOTES = "See DESIGN.md. Every check extracts the functions under contract from /repo's current tree, verifies them with Verus and searches for failing inputs on the real crate."
