"""The planted bugs: realistic changes that compile and pass the tests. Development aid; no check reads this."""
SC = "src/scanner/mod.rs"
PA = "src/parser.rs"
ND = "src/graph/nodes.rs"
AS = "src/graph/asg.rs"
BL = "src/graph/blocks.rs"
IN = "src/graph/inlines.rs"
LI = "src/graph/lists.rs"
MD = "src/graph/metadata.rs"

TOKENS = r'''
use asciidocr::scanner::{tokens::{Token, TokenType}, Scanner};
fn scan(s: &str) -> Vec<Token> { Scanner::new(s).filter_map(|t| t.ok()).collect() }
'''

NOTES_RS = r"""
use asciidocr::{parser::Parser, scanner::Scanner};
fn main() {
    let mut asg = Parser::new_no_target_resolution("/nonexistent/a.adoc".into()).parse(Scanner::new("%s")).unwrap();
    asg.standardize_footnotes().unwrap();
    let text: String = asg.all_text().split_whitespace().collect();
    assert!(text.ends_with("1one2two3three"), "{text}");
}
"""

FILES_RS = r"""
use asciidocr::{parser::Parser, scanner::Scanner};
fn main() {
    let dir = std::env::current_dir().unwrap();
    for (name, text) in [%s] {
        let p = dir.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
    let asg = Parser::new_no_target_resolution(dir.join("main.adoc")).parse(Scanner::new("%s")).unwrap();
    let text = asg.all_text().split_whitespace().collect::<Vec<_>>().join(" ");
    assert_eq!(text, "%s");
    assert_eq!(asg.blocks.len(), %d);
}
"""

SEEDS = {
    "scan-open-reference": dict(
        property="A01",
        edits=[(SC, "while self.peeks_ahead(2) != \">>\" && !self.is_at_end() {", "while self.peeks_ahead(2) != \">>\" {")],
        needs="a cross reference that is never closed",
        breaks="looking for the closing brackets never stops",
        rust=TOKENS + r"""
fn main() {
    let toks = scan("see <<later\n");
    assert_eq!(toks.last().unwrap().token_type, TokenType::Eof);
}
"""),
    "scan-carriage-return": dict(
        property="A02",
        edits=[(SC, "                lexeme: text.to_string(),\n                literal,\n                line: self.line,", "                lexeme: text.trim_end_matches('\\r').to_string(),\n                literal,\n                line: self.line,")],
        needs="text that ends in a carriage return",
        breaks="the carriage return is in no token, so the token texts no longer make up the source",
        rust=TOKENS + r'''
fn main() {
    let src = "one\r\ntwo\r\n";
    let all: String = scan(src).iter().map(|t| t.lexeme.clone()).collect();
    assert_eq!(all, src);
}
'''),
    "scan-image-line": dict(
        property="A03",
        edits=[(SC, "self.add_token(TokenType::BlockImageMacro, true, 0)", "self.add_token(TokenType::BlockImageMacro, true, 1)")],
        needs="a block image, followed by anything whose line matters",
        breaks="everything after a block image is reported one line too far down",
        rust=TOKENS + r"""
fn main() {
    let toks = scan("image::a.png[]\n\nbar\n");
    assert_eq!(toks.iter().find(|t| t.lexeme.contains("bar")).unwrap().line, 3);
}
"""),
    "scan-column-return": dict(
        property="A04",
        edits=[(SC, "                line: self.line,\n                startcol: token_start,\n                endcol: token_start + text.len() - 1, // to account for the start char", "                line: self.line,\n                startcol: token_start,\n                endcol: token_start + text.trim_end_matches('\\r').len().max(1) - 1, // to account for the start char")],
        needs="text that ends in a carriage return",
        breaks="the last column of the text is not the column of its last byte",
        rust=TOKENS + r"""
fn main() {
    let mut col = 1;
    for t in scan("some text\r\n").iter().filter(|t| t.token_type != TokenType::Eof) {
        assert_eq!((t.startcol, t.endcol), (col, col + t.lexeme.len() - 1), "{:?}", t);
        col += t.lexeme.len();
    }
}
"""),
    "scan-deep-heading": dict(
        property="A05",
        edits=[(SC, "            _ => Err(ScannerError::HeadingLevelError(self.line)),", "            6 => self.add_token(TokenType::Heading5, false, 0),\n            _ => Err(ScannerError::HeadingLevelError(self.line)),"),
               ],
        needs="a heading marker of six equals signs",
        breaks="six equals signs are a level five heading instead of an error",
        rust=TOKENS + r"""
fn main() {
    assert!(Scanner::new("====== Deep\n").any(|t| t.is_err()));
}
"""),
    "scan-long-table-frame": dict(
        property="A06",
        edits=[(SC, "if ['\\n', '\\0'].contains(&self.peek()) {\n                        self.add_token(TokenType::Table", "if !self.peek().is_alphanumeric() {\n                        self.add_token(TokenType::Table")],
        needs="a line |=== followed by more punctuation",
        breaks="a longer line of table marks is taken for the table frame",
        rust=TOKENS + r"""
fn main() {
    assert!(scan("|====\n").iter().all(|t| t.token_type != TokenType::Table));
}
"""),
    "scan-callout-midline": dict(
        property="A07",
        edits=[(SC, "self.peek() == '\\n' // callouts MUST be last chars in line", "!self.peek().is_alphanumeric() // callouts MUST be last chars in line")],
        needs="a number in angle brackets in the middle of a line",
        breaks="a number in angle brackets followed by punctuation is taken for a callout",
        rust=TOKENS + r"""
fn main() {
    assert!(scan("call f<1>, then g\n").iter().all(|t| t.token_type != TokenType::CodeCallout));
}
"""),
    "scan-attr-with-space": dict(
        property="A08",
        edits=[(SC, "while ![' ', '\\n', ':'].contains(&self.peek()) && !self.is_at_end() {", "while !['\\n', ':'].contains(&self.peek()) && !self.is_at_end() {")],
        needs="a line that starts with a colon and has another colon after a space",
        breaks="ordinary text is taken for an attribute line",
        rust=TOKENS + r"""
fn main() {
    assert!(scan(":this is text: not an attribute\n").iter().all(|t| t.token_type != TokenType::Attribute));
}
"""),
    "scan-mark-exclaim": dict(
        property="A11",
        edits=[(SC, "' ', '\\0', '.', ',', ';', ':', '\\n', ')', '\"', '!', '?', '\\'', ']', '…', '“', '”', '‘',", "' ', '\\0', '.', ',', ';', ':', '\\n', ')', '\"', '?', '\\'', ']', '…', '“', '”', '‘',")],
        needs="a formatted word followed by an exclamation mark",
        breaks="the closing mark is plain text, so the word is not formatted",
        rust=TOKENS + r"""
fn main() {
    assert_eq!(scan("a *word*!\n").iter().filter(|t| t.token_type == TokenType::Strong).count(), 2);
}
"""),
    "scan-reference-lines": dict(
        property="A12",
        edits=[("src/scanner/tokens.rs", "if self.lexeme.contains(' ') || self.lexeme.contains('\\n') {", "if self.lexeme.contains(' ') {")],
        needs="a cross reference mark that is closed on a later line, with no space between",
        breaks="text over two lines is taken for a cross reference",
        rust=TOKENS + r"""
fn main() {
    assert!(scan("a<<b\nc>>d\n").iter().all(|t| t.token_type != TokenType::CrossReference));
}
"""),
    "scan-pass-colon": dict(
        property="A09",
        edits=[(SC, "                if self.peeks_ahead(5) == \"ass:[\" {", "                if self.peeks_ahead(4) == \"ass:\" && self.peeks_ahead(5) != \"ass::\" {")],
        needs="a word that ends in 'pass' in front of a colon",
        breaks="the word becomes a passthrough macro",
        rust=TOKENS + r"""
fn main() {
    assert!(scan("the compass: north\n").iter().all(|t| t.token_type != TokenType::PassthroughInlineMacro));
}
"""),
    "scan-quote-line-start": dict(
        property="A10",
        edits=[(SC, "if ['\\0', ' ', '\\n'].contains(&self.peek_back()) && self.peek() == '`' {\n                    self.current += 1;\n                    self.add_token(TokenType::OpenDoubleQuote", "if ['\\0', ' '].contains(&self.peek_back()) && self.peek() == '`' {\n                    self.current += 1;\n                    self.add_token(TokenType::OpenDoubleQuote")],
        needs="a typographic double quote that opens at the start of a later line",
        breaks="the opening quote is not one",
        rust=TOKENS + r"""
fn main() {
    assert!(scan("they said\n\"`no`\" twice\n").iter().any(|t| t.token_type == TokenType::OpenDoubleQuote));
}
"""),
    "scan-region-stays-open": dict(
        property="A13",
        edits=[(SC, "            tag_type = TokenType::EndTag;\n            self.expecting_tag_end = false;", "            tag_type = TokenType::EndTag;")],
        needs="a line after a closed region that starts with a comment mark and names an end tag",
        breaks="the region counts as open for the rest of the file, so the line is taken for an end tag",
        rust=TOKENS + r"""
fn main() {
    let s = "tag::a[]\nx\nend::a[]\n. write the end::b[] mark\n";
    assert_eq!(scan(s).iter().filter(|t| t.token_type == TokenType::OrderedListItem).count(), 1);
}
"""),
    # positions
    "pos-file-names": dict(
        property="B01",
        edits=[(ND, "self.file.len().cmp(&other.file.len())", "self.file.cmp(&other.file)")],
        needs="positions in files included at different depths whose names sort the other way round",
        breaks="a position in the including file comes after one in a file included by it",
        rust=r"""
use asciidocr::graph::nodes::Location;
fn main() {
    let outer = Location::new(9, 1, vec!["z.adoc".to_string()]);
    let inner = Location::new(1, 1, vec!["a.adoc".to_string(), "b.adoc".to_string()]);
    assert!(outer < inner);
    assert_eq!(Location::reconcile(vec![outer.clone()], vec![inner.clone()]), vec![outer, inner]);
}
"""),
    "pos-inline-columns": dict(
        property="B01",
        edits=[(ND, """            endcol = location.col
""", """            if location.line == line {
                endcol = location.col
            }
""")],
        needs="an inline that goes over several lines",
        breaks="its last column is the one on its first line",
        rust=r"""
use asciidocr::graph::nodes::Location;
fn main() {
    let span = vec![Location::new(1, 5, vec![]), Location::new(2, 9, vec![])];
    assert_eq!(Location::destructure_inline_locations(span), (1, 5, 9));
}
"""),
    # words
    "words-of-links": dict(
        property="B02",
        edits=[(IN, """                for inline in &iref.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }""", """                for inline in &iref.inlines {
                    if inline.is_literal() {
                        values.push_str(&inline.extract_values_to_string())
                    }
                }""")],
        needs="formatted text inside of a link",
        breaks="the formatted words of the link are not counted",
        cli=r"""
printf 'one https://example.org[two *three* four] five\n' > d.adoc
[ "$("$bin" -c d.adoc | tr -dc 0-9)" = 5 ]
"""),
    "words-of-captions": dict(
        property="B02",
        edits=[(BL, """                for inline in block.caption.iter() {
                    block_text.push_str(&inline.extract_values_to_string())""", """                for inline in block.caption.iter().filter(|inline| !inline.is_macro()) {
                    block_text.push_str(&inline.extract_values_to_string())""")],
        needs="a link in the title of an image",
        breaks="the words of the link are not counted",
        cli=r"""
printf '.two words and https://example.org[a link]\nimage::a.png[]\n' > d.adoc
touch a.png
[ "$("$bin" -c d.adoc | tr -dc 0-9)" = 5 ]
"""),
    # trees
    "tree-second-branch": dict(
        property="C02",
        edits=[(BL, "if let Some(possible_section) = section.blocks.last_mut() {", "if let Some(possible_section) = section.blocks.iter_mut().find(|child| child.is_section()) {")],
        needs="a deeper heading inside of the second section of a section",
        breaks="the deeper section gets into the first of these sections",
        tree="""== One

=== First

=== Second

==== Deep

text
"""),
    "tree-second-part": dict(
        property="C02",
        edits=[(AS, "if let Some(possible_section) = self.blocks.last_mut() {", "if let Some(possible_section) = self.blocks.iter_mut().find(|child| child.is_section()) {")],
        needs="a deeper heading inside of the second section of the document",
        breaks="the deeper section gets into the first section",
        tree="""== One

text

== Two

text

=== Deep

more
"""),
    "tree-item-block-order": dict(
        property="C03",
        edits=[(BL, "Block::ListItem(list_item) => list_item.blocks.push(block),", "Block::ListItem(list_item) => list_item.blocks.insert(0, block),")],
        needs="two blocks attached to one list item",
        breaks="the attached blocks come in the wrong order",
        tree="""* item
+
first
+
second
"""),
    "tree-example-newline": dict(
        property="C04",
        edits=[("src/scanner/tokens.rs", "                | TokenType::ExampleBlock\n                | TokenType::Table\n                | TokenType::SourceBlock", "                | TokenType::Table\n                | TokenType::SourceBlock")],
        needs="a paragraph right below the start of an example",
        breaks="the paragraph starts with a line break",
        tree="""====
first

second
====
"""),
    "tree-verbatim-comment": dict(
        property="C05",
        edits=[(PA, "TokenType::PassthroughBlock | TokenType::LiteralBlock | TokenType::CommentBlock => {\n                    if token.token_type() != token_type {", "TokenType::PassthroughBlock | TokenType::LiteralBlock | TokenType::CommentBlock => {\n                    if ![token_type, TokenType::Comment].contains(&token.token_type()) {")],
        needs="a line that starts with // in a literal block",
        breaks="the line is lost",
        tree="""....
one
// two
three
....
"""),
    "tree-verbatim-reference": dict(
        property="C05",
        edits=[(PA, "if ![token_type, TokenType::CodeCallout, TokenType::Include]", "if ![token_type, TokenType::CodeCallout, TokenType::Include, TokenType::AttributeReference]")],
        needs="an attribute reference in a listing",
        breaks="the reference in the listing is replaced",
        tree="""= Title
:name: value

----
keep {name} as it is
----
"""),
    "tree-column-widths": dict(
        property="C06",
        edits=[(MD, "            if cols_value.contains(',') {", "            if cols_value.starts_with(\"1,\") {")],
        needs="columns given as a list of widths that does not start with 1",
        breaks="the list of widths is kept instead of the number of columns",
        tree="""[cols="2,1"]
|===
| a | b

| c | d
|===
"""),
    "tree-doubled-emphasis": dict(
        property="C07",
        edits=[(IN, """            TokenType::UnconstrainedMonospace => Self::new(
                InlineSpanVariant::Code,""", """            TokenType::UnconstrainedMonospace => Self::new(
                InlineSpanVariant::Mark,""")],
        needs="doubled backticks",
        breaks="the text is marked instead of code",
        tree="""some ``co``de here
"""),
    "tree-entity-in-span": dict(
        property="C07",
        edits=[(PA, """        if let Some(last_inline) = self.inline_stack.back_mut() {
            match last_inline {
                Inline::InlineSpan(span) => {
                    if self.in_inline_span {
                        span.add_inline(inline_literal);
                    } else {
                        self.inline_stack.push_back(inline_literal)
                    }
                }
                Inline::InlineRef(inline_ref) => {
                    if !self.close_parent_after_push {
                        inline_ref.inlines.push(inline_literal);""", """        if let Some(last_inline) = self.inline_stack.back_mut() {
            match last_inline {
                Inline::InlineRef(inline_ref) => {
                    if !self.close_parent_after_push {
                        inline_ref.inlines.push(inline_literal);""")],
        needs="an entity inside of formatted text that is inside of other formatted text",
        breaks="the entity ends the formatted text",
        tree="""a _b `c's d` e_ f
"""),
    "tree-references-in-items": dict(
        property="C08",
        edits=[(BL, """                inlines.extend(block.principal.iter_mut());
                for child in block.blocks.iter_mut() {
                    inlines.extend(child.inlines_mut())
                }
            }
            Block::DListItem(block) => {
                inlines.extend(block.principal.iter_mut());
                for child in block.blocks.iter_mut() {
                    inlines.extend(child.inlines_mut())
                }
            }""", """                inlines.extend(block.principal.iter_mut());
                for child in block.blocks.iter_mut() {
                    inlines.extend(child.inlines_mut())
                }
            }
            Block::DListItem(block) => {
                inlines.extend(block.principal.iter_mut());
            }""")],
        needs="a reference in a block attached to a description",
        breaks="the reference does not get the title of the section",
        tree="""[[sec]]
== A section

term:: text
+
see <<sec>>
"""),
    "tree-description-role": dict(
        property="C09",
        edits=[(BL, "            Block::DList(block) => block.metadata = Some(metadata),\n", "            Block::DList(_) => {}\n")],
        needs="a role above a description list",
        breaks="the list does not get the role",
        tree="""[role=glossary]
term:: text
"""),
    "tree-anchor-below-role": dict(
        property="C09",
        edits=[(MD, """            if !self.attributes.contains_key("id") {""", """            if self.attributes.is_empty() {""")],
        needs="an anchor below the attribute list of a source block",
        breaks="the block does not get the id",
        tree="""[source,rust]
[[code]]
----
fn main() {}
----
"""),
    "tree-second-definition": dict(
        property="C10",
        edits=[(PA, """                self.document_attributes
                    .insert(key.to_string(), value.to_string());""", """                self.document_attributes
                    .entry(key.to_string())
                    .or_insert(value.to_string());""")],
        needs="an attribute that is defined twice",
        breaks="a reference gives the first value, not the last",
        tree="""= Title
:name: first
:name: second

a {name} b
"""),
    "tree-crash-column-spec": dict(
        property="C01",
        edits=[(MD, """                    .insert("cols".to_string(), cols_value[..1].to_string());""", """                    .insert("cols".to_string(), cols_value[..1].parse::<usize>().unwrap().to_string());""")],
        needs="a column specification of two characters that is not a digit and a star",
        breaks="parsing panics",
        cli=r"""
printf '[cols=a*]\n|===\n|a\n|===\n' > d.adoc
"$bin" -x -b json -o - d.adoc > out.txt 2> err.txt
[ $? != 101 ]
"""),
    "notes-nested-items": dict(
        property="D01",
        edits=[(LI, """        for child in self.blocks.iter_mut() {
            let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
            local_count += child_footnoes.len();
            extracted.extend(child_footnoes);
        }
        Ok(extracted)
    }
}

/// Functions essentially the same as a list""", """        for child in self.blocks.iter_mut() {
            extracted.extend(child.extract_footnote_definitions(local_count, document_id)?);
        }
        Ok(extracted)
    }
}

/// Functions essentially the same as a list""")],
        needs="a list item with two blocks below it that have footnotes",
        breaks="the second block starts over with the number of the first one",
        rust=NOTES_RS % r"* a\n+\nbfootnote:[one]\n+\ncfootnote:[two]\n\ndfootnote:[three]\n"),
    "notes-item-text-last": dict(
        property="D01",
        edits=[(LI, """        let mut local_count = count;
        let mut extracted: Vec<Block> = Vec::new();
        for idx in 0..self.principal.len() {
            if self.principal[idx].is_footnote() {
                local_count += 1;
                let inline_span = self.principal.remove(idx);
                let Inline::InlineSpan(mut footnote) = inline_span else {
                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
                };
                // deconstruct it
                let (definition_id, replacement_span, footnote_contents) =
                    footnote.deconstruct_footnote(local_count, document_id);
                // add the relevant stuff to the return
                extracted.push(Block::LeafBlock(
                    LeafBlock::new_footnote_def_from_id_and_inlines(
                        definition_id,
                        footnote_contents,
                    ),
                ));
                // put the reference back where the span was
                self.principal.insert(idx, replacement_span);
            }
        }
        for child in self.blocks.iter_mut() {
            let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
            local_count += child_footnoes.len();
            extracted.extend(child_footnoes);
        }
        Ok(extracted)
    }
}

/// Functions essentially the same as a list""", """        let mut local_count = count;
        let mut extracted: Vec<Block> = Vec::new();
        for child in self.blocks.iter_mut() {
            let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
            local_count += child_footnoes.len();
            extracted.extend(child_footnoes);
        }
        for idx in 0..self.principal.len() {
            if self.principal[idx].is_footnote() {
                local_count += 1;
                let inline_span = self.principal.remove(idx);
                let Inline::InlineSpan(mut footnote) = inline_span else {
                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
                };
                // deconstruct it
                let (definition_id, replacement_span, footnote_contents) =
                    footnote.deconstruct_footnote(local_count, document_id);
                // add the relevant stuff to the return
                extracted.push(Block::LeafBlock(
                    LeafBlock::new_footnote_def_from_id_and_inlines(
                        definition_id,
                        footnote_contents,
                    ),
                ));
                // put the reference back where the span was
                self.principal.insert(idx, replacement_span);
            }
        }
        Ok(extracted)
    }
}

/// Functions essentially the same as a list""")],
        needs="a list item with a footnote in its own text and one in a block below it",
        breaks="the footnote of the item's text is numbered after those below it",
        rust=NOTES_RS % r"* afootnote:[one]\n+\nbfootnote:[two]\n\ncfootnote:[three]\n"),
    "notes-repeated-call": dict(
        property="D01",
        edits=[(AS, """        for block in self.blocks.iter_mut() {
            footnote_defs.extend(
                block.extract_footnote_definitions(footnote_defs.len(), &self.document_id)?,
            );
        }""", """        for (idx, block) in self.blocks.iter_mut().enumerate() {
            footnote_defs.extend(block.extract_footnote_definitions(idx, &self.document_id)?);
        }""")],
        needs="blocks at the top of the document with no footnote, or with more than one",
        breaks="numbers are skipped or used twice",
        rust=NOTES_RS % r"afootnote:[one]\n\nb\n\ncfootnote:[two]\n\ndfootnote:[three]\n"),
    "files-nested-path": dict(
        property="E01",
        edits=[(PA, """            for file in self.file_stack.iter() {
                if let Some(parent)""", """            if let Some(file) = self.file_stack.last() {
                if let Some(parent)""")],
        needs="an include in a file that was itself included from a file in another directory",
        breaks="the name is taken to be relative to the wrong directory",
        rust=FILES_RS % ('("a/b.adoc", "two\\n\\ninclude::c/d.adoc[]\\n"), ("a/c/d.adoc", "three\\n\\ninclude::e.adoc[]\\n"), ("a/c/e.adoc", "four\\n")',
                         r"one\n\ninclude::a/b.adoc[]\n", "one two three four", 4)),
    "files-asciidoc-name": dict(
        property="E01",
        edits=[(PA, """            "adoc" | "asciidoc" | "txt" // note""", """            "adoc" | "txt" // note""")],
        needs="an included file whose name ends in .asciidoc",
        breaks="the file is taken as code, and its blocks become one text",
        rust=FILES_RS % ('("b.asciidoc", "two\\n\\nthree\\n")', r"one\n\ninclude::b.asciidoc[]\n", "one two three", 3)),
    "files-open-range": dict(
        property="E02",
        edits=[(PA, "&& &(token.line as i32) >= included_lines.last().unwrap()", "&& &(token.line as i32) >= included_lines.first().unwrap()")],
        needs="a range to the end of the file after another one",
        breaks="everything after the first of the given lines is taken",
        rust=FILES_RS % ('("b.adoc", "a\\n\\nb\\n\\nc\\n\\nd\\n")', r"include::b.adoc[lines=1..2;5..]\n", "a c d", 3)),
    "files-range-of-one": dict(
        property="E02",
        edits=[("src/utils.rs", """                        end += 1; // because we want an inclusive range 
                        ranges.extend(start..end)""", """                        if end > start {
                            end += 1; // because we want an inclusive range
                        }
                        ranges.extend(start..end)""")],
        needs="a range whose first line is also its last",
        breaks="the line is left out",
        rust=FILES_RS % ('("b.adoc", "a\\n\\nb\\n\\nc\\n\\nd\\n")', r"include::b.adoc[lines=1;3..3;7]\n", "a b d", 1)),
    "html-blank-lines": dict(
        property="F01",
        edits=[("src/backends/htmls.rs", """        .expect("failure"))
}""", """        .expect("failure")
        .replace("\\n\\n", "\\n"))
}""")],
        needs="a listing or literal block with an empty line",
        breaks="the empty line is missing from the HTML",
        cli=r"""
printf -- '----\na\n\nb\n----\n' > doc.adoc
timeout 60 "$bin" -o - doc.adoc > out.txt || exit 1
python3 - <<'END'
import re, sys
pre = re.search(r'<pre[^>]*>(.*?)</pre>', open('out.txt').read(), re.S)
sys.exit(0 if pre and pre.group(1).strip() == 'a\n\nb' else 1)
END
"""),
    "cli-other-directory": dict(
        property="G01",
        edits=[("src/bin/asciidocr/cli.rs", "out_destination.push(args.file.clone());", "out_destination.push(args.file.rsplit('/').next().unwrap_or(&args.file));")],
        needs="an input in another directory, and no -o",
        breaks="the output is not written next to the input",
        cli="""
mkdir d && echo text > d/a.adoc
timeout 60 "$bin" d/a.adoc && test -f d/a.html && test ! -f a.html
"""),
    "cli-stdin-to-file": dict(
        property="G01",
        edits=[("src/bin/asciidocr/cli.rs", """            if output == "-" {""", """            if output == "-" || args.file == "-" {""")],
        needs="a document on standard input, with -o",
        breaks="the named file is not written",
        cli="""
echo text | timeout 60 "$bin" -o out.html - > std.txt && grep -q text out.html && ! grep -q text std.txt
"""),
    "cli-longer-name": dict(
        property="G01",
        edits=[("src/bin/asciidocr/cli.rs", """                    Backends::Json => out_destination.set_extension("json"),""", """                    Backends::Json => out_destination.set_extension(".json"),""")],
        needs="the json backend without -o",
        breaks="the name of the file ends in two dots and json",
        cli="""
echo text > a.adoc
timeout 60 "$bin" -b json a.adoc && test -f a.json
"""),
}
