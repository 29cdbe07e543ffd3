//! A05-A13: which text becomes which kind of token. Written from the statements, over bytes.
use super::scan::{place, scan};
use crate::engine::{Case, Prop, Verdict};
use crate::gen_;
use crate::rng::Rng;
use asciidocr::errors::ScannerError;
use asciidocr::scanner::tokens::{Token, TokenType as T};

/// the character at i; 0 beyond the end and inside a multi-byte character
fn pk(s: &str, i: usize) -> u8 {
    if i < s.len() && s.is_char_boundary(i) { s.as_bytes()[i] } else { 0 }
}
fn bol(s: &str, i: usize) -> bool {
    i == 0 || s.as_bytes()[i - 1] == b'\n'
}
fn ahead(s: &str, i: usize, p: &str) -> bool {
    s.as_bytes().get(i..).map(|r| r.starts_with(p.as_bytes())).unwrap_or(false)
}
fn back(s: &str, i: usize) -> u8 {
    if i == 0 { 0 } else { pk(s, i - 1) }
}
fn find(s: &str, i: usize, c: u8) -> usize {
    s.as_bytes()[i.min(s.len())..].iter().position(|b| *b == c).map(|k| i + k).unwrap_or(s.len())
}
fn find_str(s: &str, i: usize, p: &str) -> usize {
    (i..s.len()).find(|k| ahead(s, *k, p)).unwrap_or(s.len())
}
/// exactly n of c make up the line at i; the line may end the file
fn line_of(s: &str, i: usize, c: u8, n: usize, eof: bool) -> bool {
    (0..n).all(|k| pk(s, i + k) == c) && (pk(s, i + n) == b'\n' || (eof && i + n == s.len()))
}

type At = Option<(T, usize)>;

fn heading(s: &str, i: usize) -> Option<usize> {
    let n = s.as_bytes()[i..].iter().take_while(|b| **b == b'=').count();
    (bol(s, i) && n > 0 && pk(s, i + n) == b' ').then_some(n)
}
fn mark(s: &str, i: usize) -> At {
    if !bol(s, i) {
        return None;
    }
    let c = pk(s, i);
    let fence = match c {
        b'+' => Some(T::PassthroughBlock),
        b'*' => Some(T::SidebarBlock),
        b'-' => Some(T::SourceBlock),
        b'_' => Some(T::QuoteVerseBlock),
        b'/' => Some(T::CommentBlock),
        b'=' => Some(T::ExampleBlock),
        b'.' => Some(T::LiteralBlock),
        _ => None,
    };
    if let Some(f) = fence {
        if line_of(s, i, c, 4, true) {
            return Some((f, 4));
        }
    }
    match c {
        b'-' if line_of(s, i, c, 2, false) => Some((T::OpenBlock, 2)),
        b'\'' if line_of(s, i, c, 3, true) => Some((T::ThematicBreak, 3)),
        b'<' if line_of(s, i, c, 3, true) => Some((T::PageBreak, 3)),
        b'+' if line_of(s, i, c, 1, false) => Some((T::BlockContinuation, 1)),
        b'|' if ahead(s, i, "|===") && matches!(pk(s, i + 4), 0 | b'\n') => Some((T::Table, 4)),
        _ => None,
    }
}
fn attr(s: &str, i: usize) -> bool {
    let mut k = i + 1;
    while k < s.len() && !matches!(pk(s, k), b' ' | b'\n' | b':') {
        k += 1;
    }
    bol(s, i) && pk(s, i) == b':' && pk(s, k) == b':'
}
fn item(s: &str, i: usize) -> At {
    let c = pk(s, i);
    let q = (i + 1) + s.as_bytes()[i + 1..].iter().take_while(|b| b.is_ascii_digit()).count();
    match c {
        b'*' if bol(s, i) && pk(s, i + 1) == b' ' => Some((T::UnorderedListItem, 2)),
        b'.' if bol(s, i) && pk(s, i + 1) == b' ' => Some((T::OrderedListItem, 2)),
        b'<' if bol(s, i) && ahead(s, q, "> ") => Some((T::CodeCalloutListItem, q + 2 - i)),
        b'<' if ahead(s, q, ">\n") => Some((T::CodeCallout, q + 1 - i)),
        b':' if !attr(s, i) && back(s, i) != b' ' && (ahead(s, i, ":: ") || ahead(s, i, "::\n")) => Some((T::DescriptionListMarker, 3)),
        _ => None,
    }
}
fn label(s: &str, i: usize) -> At {
    if !bol(s, i) {
        return None;
    }
    let line = &s[i..find(s, i, b'\n')];
    Some(match line {
        "[NOTE]" => (T::NotePara, 6),
        "[TIP]" => (T::TipPara, 5),
        "[IMPORTANT]" => (T::ImportantPara, 11),
        "[CAUTION]" => (T::CautionPara, 9),
        "[WARNING]" => (T::WarningPara, 9),
        _ => return None,
    })
}
fn directive(s: &str, i: usize) -> At {
    if !bol(s, i) {
        return None;
    }
    let eol = find(s, i + 1, b'\n');
    let close = find(s, i + 1, b']');
    match pk(s, i) {
        b':' if attr(s, i) => Some((T::Attribute, eol - i)),
        b'/' if pk(s, i + 1) == b'/' && mark(s, i).is_none() => {
            Some((T::Comment, if ahead(s, i, "// tag::") || ahead(s, i, "// end::") { 3 } else { eol - i }))
        }
        b'.' if pk(s, i + 1) != b' ' && !ahead(s, i, "...") => Some((T::BlockLabel, 1)),
        b'i' if ahead(s, i, "include::") && close < s.len() => Some((T::Include, close + 1 - i)),
        b'i' if ahead(s, i, "image::") && close < s.len() => Some((T::BlockImageMacro, close + 1 - i)),
        b'[' if pk(s, i + 1) != b'[' && s.as_bytes()[eol - 1] == b']' && label(s, i).is_none() => Some((T::ElementAttributes, eol - i)),
        _ => None,
    }
}
/// ASCII word characters only: what counts as a letter beyond ASCII is not the property's business
fn word_end(s: &str, i: usize, dash: bool) -> usize {
    let mut k = i;
    while k < s.len() && (pk(s, k).is_ascii_alphanumeric() || (dash && matches!(pk(s, k), b'-' | b'_'))) {
        k += 1;
    }
    k
}
fn beyond_ascii(s: &str, i: usize) -> bool {
    i < s.len() && s.as_bytes()[i] >= 128
}
fn inline_macro(s: &str, i: usize) -> At {
    let close = find(s, i + 1, b']');
    let eol = find(s, i + 1, b'\n');
    let start = bol(s, i);
    match pk(s, i) {
        b'f' if ahead(s, i, "footnote:[") => Some((T::FootnoteMacro, 10)),
        b'p' if ahead(s, i, "pass:[") => Some((T::PassthroughInlineMacro, 6)),
        b'i' if ahead(s, i, "image:") && !ahead(s, i, "image::") && !ahead(s, i, "image: ") && close < s.len() => {
            Some((T::InlineImageMacro, close + 1 - i))
        }
        b'N' if start && ahead(s, i, "NOTE: ") => Some((T::NotePara, 6)),
        b'T' if start && ahead(s, i, "TIP: ") => Some((T::TipPara, 5)),
        b'I' if start && ahead(s, i, "IMPORTANT: ") => Some((T::ImportantPara, 11)),
        b'C' if start && ahead(s, i, "CAUTION: ") => Some((T::CautionPara, 9)),
        b'W' if start && ahead(s, i, "WARNING: ") => Some((T::WarningPara, 9)),
        b']' => Some((T::InlineMacroClose, 1)),
        b'{' => {
            let k = word_end(s, i + 1, true);
            (pk(s, k) == b'}').then_some((T::AttributeReference, k + 1 - i))
        }
        b'[' if start && pk(s, i + 1) == b'[' => None,
        b'[' if start && s.as_bytes()[eol - 1] == b']' => label(s, i),
        b'[' if pk(s, i + 1) == b'.' && close < s.len() => Some((T::InlineStyle, close + 1 - i)),
        _ => None,
    }
}
fn replaced(s: &str, i: usize) -> At {
    if mark(s, i).is_some() {
        return None;
    }
    let (c, c1) = (pk(s, i), pk(s, i + 1));
    let opens = matches!(back(s, i), 0 | b' ' | b'\n');
    let spc = |j: usize| j >= s.len() || matches!(s.as_bytes()[j], b' ' | b'\n' | 128..);
    match (c, c1) {
        (b'\'', b'`') if opens => Some((T::OpenSingleQuote, 2)),
        (b'\'', b's') if spc(i + 2) => Some((T::CharRef, 1)),
        (b'"', b'`') if opens => Some((T::OpenDoubleQuote, 2)),
        (b'`', b'\'') if spc(i + 2) => Some((T::CloseSingleQuote, 2)),
        (b'`', b'"') if spc(i + 2) => Some((T::CloseDoubleQuote, 2)),
        (b'<', b'-' | b'=') | (b'=' | b'-', b'>') => Some((T::CharRef, 2)),
        (b'-', b'-') if i + 2 >= s.len() || s.as_bytes()[i + 2] >= 128 || pk(s, i + 2).is_ascii_alphanumeric() || matches!(pk(s, i + 2), b' ' | 0) => Some((T::CharRef, 2)),
        (b'.', b'.') if ahead(s, i, "...") => Some((T::CharRef, 3)),
        (b'(', _) if ahead(s, i, "(C)") || ahead(s, i, "(R)") => Some((T::CharRef, 3)),
        (b'(', _) if ahead(s, i, "(TM)") => Some((T::CharRef, 4)),
        (b'&', _) => {
            let k = word_end(s, i + 1, false);
            (pk(s, k) == b';').then_some((T::CharRef, k + 1 - i))
        }
        _ => None,
    }
}
fn is_fmt_char(c: u8) -> bool {
    matches!(c, b'*' | b'_' | b'`' | b'+' | b'^' | b'~' | b'#')
}
fn format(s: &str, i: usize) -> At {
    let (c, c1, c0) = (pk(s, i), pk(s, i + 1), back(s, i));
    let (con, unc) = match c {
        b'^' => return Some((T::Superscript, 1)),
        b'~' => return Some((T::Subscript, 1)),
        b'*' => (T::Strong, T::UnconstrainedStrong),
        b'_' => (T::Emphasis, T::UnconstrainedEmphasis),
        b'`' => (T::Monospace, T::UnconstrainedMonospace),
        b'+' => (T::Literal, T::UnconstrainedLiteral),
        b'#' => (T::Mark, T::UnconstrainedMark),
        _ => return None,
    };
    if mark(s, i).is_some() || item(s, i).is_some() || replaced(s, i).is_some() {
        return None;
    }
    if c == b'+' && c0 == b' ' && c1 == b'\n' {
        return Some((T::LineContinuation, 1));
    }
    if c1 == b' ' && c0 == b' ' {
        return None;
    }
    if c1 == c {
        return Some((unc, 2));
    }
    let end = matches!(c1, 0 | b' ' | b'.' | b',' | b';' | b':' | b'\n' | b')' | b'"' | b'!' | b'?' | b'\'' | b']') || is_fmt_char(c1);
    let begin = matches!(c0, 0 | b' ' | b'\n' | b']' | b'(' | b'"' | b'[') || is_fmt_char(c0);
    (end || begin).then_some((con, 1))
}
fn reference(s: &str, i: usize) -> At {
    if mark(s, i).is_some() {
        return None;
    }
    match pk(s, i) {
        b'<' if pk(s, i + 1) == b'<' => {
            let q = find_str(s, i + 1, ">>");
            (q < s.len()).then_some((T::CrossReference, q + 2 - i))
        }
        b'[' if bol(s, i) && pk(s, i + 1) == b'[' => {
            let q = find_str(s, i + 1, "]]\n");
            (q < s.len()).then_some((T::BlockAnchor, q + 2 - i))
        }
        b'|' if (bol(s, i) || back(s, i) == b' ') && !(bol(s, i) && ahead(s, i, "|===")) => {
            let mut q = i + 1;
            while q < s.len() && pk(s, q) != b'\n' && !(pk(s, q) == b'|' && s.as_bytes()[q - 1] == b' ') {
                q += 1;
            }
            Some((T::TableCell, q - i))
        }
        _ => None,
    }
}

struct Rule {
    id: &'static str,
    at: fn(&str, usize) -> At,
    class: fn(T) -> bool,
    rule: &'static str,
    /// also decided while a tagged region is open
    always: bool,
}
fn is_mark(t: T) -> bool {
    matches!(
        t,
        T::PassthroughBlock | T::SidebarBlock | T::SourceBlock | T::QuoteVerseBlock | T::CommentBlock | T::ExampleBlock | T::LiteralBlock
            | T::OpenBlock | T::ThematicBreak | T::PageBreak | T::BlockContinuation | T::Table
    )
}
fn is_item(t: T) -> bool {
    matches!(t, T::UnorderedListItem | T::OrderedListItem | T::CodeCalloutListItem | T::CodeCallout | T::DescriptionListMarker)
}
fn is_directive(t: T) -> bool {
    matches!(t, T::Attribute | T::Comment | T::BlockLabel | T::Include | T::BlockImageMacro | T::ElementAttributes)
}
fn is_macro(t: T) -> bool {
    matches!(
        t,
        T::FootnoteMacro | T::PassthroughInlineMacro | T::InlineImageMacro | T::NotePara | T::TipPara | T::ImportantPara | T::CautionPara
            | T::WarningPara | T::AttributeReference | T::InlineMacroClose | T::InlineStyle
    )
}
fn is_repl(t: T) -> bool {
    matches!(t, T::CharRef | T::OpenSingleQuote | T::OpenDoubleQuote | T::CloseSingleQuote | T::CloseDoubleQuote)
}
fn is_fmt(t: T) -> bool {
    matches!(
        t,
        T::Strong | T::Emphasis | T::Monospace | T::Literal | T::Mark | T::UnconstrainedStrong | T::UnconstrainedEmphasis
            | T::UnconstrainedMonospace | T::UnconstrainedLiteral | T::UnconstrainedMark | T::Superscript | T::Subscript | T::LineContinuation
    )
}
fn is_ref(t: T) -> bool {
    matches!(t, T::CrossReference | T::BlockAnchor | T::TableCell)
}
fn level(t: T) -> usize {
    match t {
        T::Heading1 => 1,
        T::Heading2 => 2,
        T::Heading3 => 3,
        T::Heading4 => 4,
        T::Heading5 => 5,
        _ => 0,
    }
}
fn shown(t: &Token) -> String {
    match t.token_type {
        T::OpenDoubleQuote => "“".into(),
        T::CloseDoubleQuote => "”".into(),
        T::OpenSingleQuote => "‘".into(),
        T::CloseSingleQuote => "’".into(),
        _ => stands_for(t),
    }
}
fn stands_for(t: &Token) -> String {
    if t.token_type != T::CharRef {
        return t.lexeme.clone();
    }
    match t.lexeme.as_str() {
        "(C)" => "&#169;",
        "(R)" => "&#174;",
        "(TM)" => "&#8482;",
        "..." => "&#8230;",
        "->" => "&#8594;",
        "=>" => "&#8658;",
        "<-" => "&#8592;",
        "<=" => "&#8656;",
        "--" => "&#8212;",
        "'" => "&#8217;",
        x => x,
    }
    .to_string()
}

/// tokens with their place and whether a tagged region is open before them; and what the last scan error is about
type Placed = Vec<(Token, usize, bool)>;
fn placed(s: &str) -> Option<(Placed, Option<(ScannerError, usize, bool)>)> {
    let toks = scan(s).ok()?;
    let at = place(s, &toks);
    let (at, all) = at.ok()?;
    let mut out = vec![];
    let mut open = false;
    let mut end = 0;
    let mut it = toks.into_iter();
    for p in at {
        let Some(Ok(t)) = it.next() else { return None };
        let tag = match t.token_type {
            T::StartTag => Some(true),
            T::EndTag => Some(false),
            _ => None,
        };
        end = if tag.is_some() { (find(s, p, b'\n') + 1).min(s.len()) } else { p + t.lexeme.len() };
        out.push((t, p, open));
        if let Some(x) = tag {
            open = x;
        }
    }
    let err = match it.next() {
        Some(Err(e)) if !all => Some((e, end, open)),
        _ => None,
    };
    Some((out, err))
}

pub struct Kinds(pub usize);
const RULES: &[Rule] = &[
    Rule { id: "A06", at: mark, class: is_mark, rule: "block delimiters, breaks, table frames and lone '+' lines", always: false },
    Rule { id: "A07", at: item, class: is_item, rule: "list markers, callouts and description list marks", always: false },
    Rule { id: "A08", at: directive, class: is_directive, rule: "attribute, comment, title, include, block image and attribute-list lines", always: false },
    Rule { id: "A09", at: inline_macro, class: is_macro, rule: "inline macros, admonition labels, attribute references and roles", always: true },
    Rule { id: "A10", at: replaced, class: is_repl, rule: "replaced characters, and the text each token stands for", always: false },
    Rule { id: "A11", at: format, class: is_fmt, rule: "formatting marks", always: false },
    Rule { id: "A12", at: reference, class: is_ref, rule: "cross references, anchors and table cells", always: false },
];

impl Prop for Kinds {
    fn id(&self) -> &'static str {
        RULES[self.0].id
    }
    fn rule(&self) -> &'static str {
        RULES[self.0].rule
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(gen_::any_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let r = &RULES[self.0];
        let s = &c.main;
        let Some((toks, _)) = placed(s) else { return Verdict::Skip };
        let mut seen = false;
        for (t, p, open) in &toks {
            if matches!(t.token_type, T::StartTag | T::EndTag) {
                continue;
            }
            let want = (r.at)(s, *p);
            let got = (t.token_type, t.lexeme.len());
            // what is a letter beyond ASCII is not decided here
            if matches!(pk(s, *p), b'{' | b'&') && beyond_ascii(s, word_end(s, *p + 1, pk(s, *p) == b'{')) {
                continue;
            }
            if (r.class)(t.token_type) {
                seen = true;
                if want != Some(got) {
                    return Verdict::Fails(format!("{:?} token {:?} at byte {p}, expected {want:?}", t.token_type, t.lexeme));
                }
            } else if let Some((k, n)) = want {
                if !*open || r.always {
                    let spaced = r.id == "A12" && k != T::TableCell && t.lexeme.contains([' ', '\n']) && t.token_type == T::Text && t.lexeme.len() == n;
                    if !spaced {
                        return Verdict::Fails(format!("{:?} token {:?} at byte {p}, expected {k:?} of {n} bytes", t.token_type, t.lexeme));
                    }
                }
            }
            if r.id == "A12" && is_ref(t.token_type) && t.token_type != T::TableCell && t.lexeme.contains([' ', '\n']) {
                return Verdict::Fails(format!("{:?} token {:?} holds a space", t.token_type, t.lexeme));
            }
            if r.id == "A10" {
                let text = t.literal.clone().unwrap_or(t.lexeme.clone());
                if text != stands_for(t) || t.text() != shown(t) {
                    return Verdict::Fails(format!("{:?} token {:?} stands for {:?}", t.token_type, t.lexeme, t.text()));
                }
            }
            if r.id == "A11" && t.token_type == T::Text && !matches!(pk(s, *p), b'[' | b'<') {
                if let Some(k) = t.lexeme.bytes().skip(1).position(is_fmt_char) {
                    return Verdict::Fails(format!("the text token {:?} holds a formatting mark at {}", t.lexeme, k + 1));
                }
            }
        }
        Verdict::Holds(seen)
    }
}

pub struct Headings;
impl Prop for Headings {
    fn id(&self) -> &'static str {
        "A05"
    }
    fn rule(&self) -> &'static str {
        "as A01; heading markers are counted in the source; non-trivial: a heading marker"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(gen_::any_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let s = &c.main;
        let Some((toks, err)) = placed(s) else { return Verdict::Skip };
        let mut seen = false;
        for (t, p, open) in &toks {
            if matches!(t.token_type, T::StartTag | T::EndTag) {
                continue;
            }
            let n = heading(s, *p).unwrap_or(0);
            let l = level(t.token_type);
            seen |= l > 0;
            if (l > 0 && (l != n || t.lexeme.len() != n + 1)) || (l == 0 && n > 0 && !*open) {
                return Verdict::Fails(format!("{n} heading marks at byte {p} are a {:?} token {:?}", t.token_type, t.lexeme));
            }
        }
        if let Some((e, p, open)) = err {
            let n = heading(s, p).unwrap_or(0);
            match e {
                ScannerError::HeadingLevelError(l) => {
                    let line = 1 + s.as_bytes()[..p].iter().filter(|b| **b == b'\n').count();
                    let dlist = toks.iter().any(|(t, _, _)| t.token_type == T::DescriptionListMarker && t.lexeme.contains('\n'));
                    if n <= 5 || (l != line && !dlist) {
                        return Verdict::Fails(format!("a heading error for line {l}; {n} heading marks on line {line}"));
                    }
                    seen = true;
                }
                _ if !open && n > 0 => return Verdict::Fails(format!("another error at a heading: {e}")),
                _ => {}
            }
        }
        Verdict::Holds(seen)
    }
}

pub struct Tags;
impl Prop for Tags {
    fn id(&self) -> &'static str {
        "A13"
    }
    fn rule(&self) -> &'static str {
        "as A01, half the cases with tag directives put in; non-trivial: a tag token"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        let mut s = gen_::any_doc(i, rng);
        if i > 50_000 && rng.chance(1, 2) {
            for _ in 0..rng.range(1, 3) {
                let mut k = rng.below(s.len() + 1);
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.insert_str(k, *rng.pick(&["tag::a[]", "end::a[]", "tag::b[]\n", "\nend::b[]\n", "tag::x", "end::", "// tag::c[]\n", "<!-- end::c[] -->\n", "# end::d[]\n"]));
            }
        }
        Case::text(s)
    }
    fn check(&self, c: &Case) -> Verdict {
        let s = &c.main;
        let Some((toks, _)) = placed(s) else { return Verdict::Skip };
        let mut seen = false;
        let mut end = 0;
        for (t, p, open) in &toks {
            let i = end;
            let tag = matches!(t.token_type, T::StartTag | T::EndTag);
            seen |= tag;
            end = if tag { (find(s, *p, b'\n') + 1).min(s.len()) } else { p + t.lexeme.len() };
            let st = ahead(s, i, "tag::");
            let en = ahead(s, i, "end::");
            let mut q = i + 1;
            while q < s.len() && !matches!(pk(s, q), b']' | b'\n') {
                q += 1;
            }
            if tag {
                let want = if t.token_type == T::StartTag { "tag::" } else { "end::" };
                if !t.lexeme.starts_with(want) {
                    return Verdict::Fails(format!("{:?} token {:?}", t.token_type, t.lexeme));
                }
                if !st && !en && !*open {
                    return Verdict::Fails(format!("{:?} token {:?} read from {:?} with no tag open", t.token_type, t.lexeme, &s[i..*p]));
                }
            }
            if st || en {
                if pk(s, q) == b']' {
                    let want = if st { T::StartTag } else { T::EndTag };
                    if t.token_type != want || *p != i || t.lexeme != s[i..q + 1] {
                        return Verdict::Fails(format!("{:?} at byte {i} is a {:?} token {:?}", &s[i..q + 1], t.token_type, t.lexeme));
                    }
                } else if t.token_type != T::Text {
                    return Verdict::Fails(format!("an unclosed directive at byte {i} is a {:?} token {:?}", t.token_type, t.lexeme));
                }
            }
        }
        Verdict::Holds(seen)
    }
}
