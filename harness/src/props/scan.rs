//! A01-A04: the token stream.
use crate::engine::{Case, Prop, Verdict};
use crate::gen_;
use crate::rng::Rng;
use asciidocr::errors::ScannerError;
use asciidocr::scanner::tokens::{Token, TokenType};
use asciidocr::scanner::Scanner;

pub fn scan(s: &str) -> Result<Vec<Result<Token, ScannerError>>, String> {
    let mut out = vec![];
    for t in Scanner::new(s) {
        out.push(t);
        if out.len() > 4 * s.len() + 16 {
            return Err(format!("more than {} items for {} bytes", out.len(), s.len()));
        }
    }
    Ok(out)
}

fn is_tag(t: &Token) -> bool {
    matches!(t.token_type, TokenType::StartTag | TokenType::EndTag)
}

/// Where each token's text begins in the source, or what is wrong. Stops at the first scan error.
/// Only the rest of a tag directive's line may be missing, before and after the directive.
pub fn place(s: &str, toks: &[Result<Token, ScannerError>]) -> Result<(Vec<usize>, bool), String> {
    let mut pos = 0usize;
    let mut at = vec![];
    for t in toks {
        let Ok(t) = t else { return Ok((at, false)) };
        if t.token_type == TokenType::Eof {
            break;
        }
        if t.lexeme.is_empty() {
            return Err(format!("a {:?} token with no text at byte {pos}", t.token_type));
        }
        if is_tag(t) {
            if !(t.lexeme.starts_with("tag::") || t.lexeme.starts_with("end::")) {
                return Err(format!("tag token text {:?}", t.lexeme));
            }
            let line_end = s[pos..].find('\n').map(|k| pos + k).unwrap_or(s.len());
            let Some(k) = s[pos..line_end].find(&t.lexeme[..5]) else {
                return Err(format!("tag token {:?} is not on the line at byte {pos}", t.lexeme));
            };
            let st = pos + k;
            if !s[st..].starts_with(&t.lexeme) || st + t.lexeme.len() > line_end {
                return Err(format!("tag token {:?} does not stand at byte {st}", t.lexeme));
            }
            at.push(st);
            pos = if line_end < s.len() { line_end + 1 } else { s.len() };
        } else {
            if !s[pos..].starts_with(&t.lexeme) {
                return Err(format!(
                    "{:?} token {:?} is not the text at byte {pos} ({:?})",
                    t.token_type,
                    t.lexeme,
                    s[pos..].chars().take(20).collect::<String>()
                ));
            }
            at.push(pos);
            pos += t.lexeme.len();
        }
    }
    if pos != s.len() {
        return Err(format!("text from byte {pos} on is in no token: {:?}", s[pos..].chars().take(30).collect::<String>()));
    }
    Ok((at, true))
}

/// line and column (both from 1, columns in bytes) of byte p
fn position(s: &str, p: usize) -> (usize, usize) {
    let before = &s.as_bytes()[..p];
    let line = 1 + before.iter().filter(|b| **b == b'\n').count();
    let col = 1 + p - before.iter().rposition(|b| *b == b'\n').map(|k| k + 1).unwrap_or(0);
    (line, col)
}

pub struct Totality;
impl Prop for Totality {
    fn id(&self) -> &'static str {
        "A01"
    }
    fn rule(&self) -> &'static str {
        "all strings of up to 3 alphabet pieces, then random markup soup, line-structured soup and mutated fixtures; non-trivial: at least 2 tokens"
    }
    fn total(&self) -> bool {
        true
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(gen_::any_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let toks = match scan(&c.main) {
            Ok(t) => t,
            Err(e) => return Verdict::Fails(e),
        };
        let eofs = toks.iter().filter(|t| matches!(t, Ok(t) if t.token_type == TokenType::Eof)).count();
        if eofs != 1 {
            return Verdict::Fails(format!("{eofs} end-of-file tokens"));
        }
        if !matches!(toks.last(), Some(Ok(t)) if t.token_type == TokenType::Eof) {
            return Verdict::Fails("the last item is not the end-of-file token".into());
        }
        if toks.len() > c.main.len() + 1 {
            return Verdict::Fails(format!("{} items for {} bytes", toks.len(), c.main.len()));
        }
        let mut sc = Scanner::new(&c.main);
        while sc.next().is_some() {}
        if sc.next().is_some() || sc.next().is_some() {
            return Verdict::Fails("items after the end".into());
        }
        Verdict::Holds(toks.len() > 2)
    }
}

pub struct Lossless;
impl Prop for Lossless {
    fn id(&self) -> &'static str {
        "A02"
    }
    fn rule(&self) -> &'static str {
        "as A01; the token texts are laid against the source; non-trivial: at least 3 tokens and no scan error"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(gen_::any_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let Ok(toks) = scan(&c.main) else { return Verdict::Skip };
        match place(&c.main, &toks) {
            Err(e) => Verdict::Fails(e),
            Ok((at, all)) => Verdict::Holds(at.len() > 2 && all),
        }
    }
}

/// Every placed token; the flag says that it follows a `::` marker that ends its line (see known findings)
fn placed<'a>(s: &'a str, toks: &'a [Result<Token, ScannerError>]) -> Option<Vec<(&'a Token, usize, bool)>> {
    let (at, _) = place(s, toks).ok()?;
    let mut out = vec![];
    let mut after = false;
    for (t, p) in toks.iter().zip(at) {
        let Ok(t) = t else { break };
        out.push((t, p, after));
        after |= t.token_type == TokenType::DescriptionListMarker && t.lexeme.contains('\n');
    }
    Some(out)
}

fn report(after_marker: bool, what: String) -> Verdict {
    if after_marker {
        Verdict::Known("after-dlist-marker".into())
    } else {
        Verdict::Fails(what)
    }
}

pub struct Lines;
impl Prop for Lines {
    fn id(&self) -> &'static str {
        "A03"
    }
    fn rule(&self) -> &'static str {
        "as A01; each token's line is compared with the number of newlines before its text; non-trivial: at least 2 lines"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(gen_::any_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let Ok(toks) = scan(&c.main) else { return Verdict::Skip };
        let Some(ps) = placed(&c.main, &toks) else { return Verdict::Skip };
        for (t, p, after) in &ps {
            let (line, _) = position(&c.main, *p);
            if t.line != line {
                return report(*after, format!("{:?} token {:?} at byte {p} is on line {line}, reported line {}", t.token_type, t.lexeme, t.line));
            }
        }
        if ps.len() + 1 == toks.len() {
            if let Some(Ok(t)) = toks.last() {
                let (line, _) = position(&c.main, c.main.len());
                let after = ps.iter().any(|(t, _, _)| t.token_type == TokenType::DescriptionListMarker && t.lexeme.contains('\n'));
                if t.line != line {
                    return report(after, format!("the end-of-file token is on line {line}, reported line {}", t.line));
                }
            }
        }
        Verdict::Holds(c.main.contains('\n') && ps.len() > 2)
    }
}

pub struct Columns;
impl Prop for Columns {
    fn id(&self) -> &'static str {
        "A04"
    }
    fn rule(&self) -> &'static str {
        "as A01; each token's first and last column are compared with the distance from the line start; non-trivial: a token that does not start its line"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(gen_::any_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let Ok(toks) = scan(&c.main) else { return Verdict::Skip };
        let Some(ps) = placed(&c.main, &toks) else { return Verdict::Skip };
        let mut inner = false;
        for (t, p, after) in &ps {
            let (_, col) = position(&c.main, *p);
            inner |= col > 1;
            if t.startcol != col || t.endcol != col + t.lexeme.len() - 1 {
                return report(*after, format!(
                    "{:?} token {:?} at byte {p} covers columns {col}-{}, reported {}-{}",
                    t.token_type,
                    t.lexeme,
                    col + t.lexeme.len() - 1,
                    t.startcol,
                    t.endcol
                ));
            }
        }
        Verdict::Holds(inner)
    }
}
