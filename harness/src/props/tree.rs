//! B01-C..: the document tree that comes out of the parser.
use crate::engine::{Case, Prop, Verdict};
use crate::gen_;
use crate::rng::Rng;
use asciidocr::errors::ParserError;
use asciidocr::graph::asg::Asg;
use asciidocr::graph::nodes::Location;
use asciidocr::parser::Parser;
use asciidocr::scanner::Scanner;
use serde_json::Value;

pub fn parse(s: &str) -> Result<Asg, ParserError> {
    Parser::new_no_target_resolution(std::path::PathBuf::from("/nonexistent/main.adoc")).parse(Scanner::new(s))
}

pub struct Crash;
impl Prop for Crash {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(gen_::any_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        Verdict::Holds(parse(&c.main).is_ok())
    }
    fn total(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "every string of up to 3 pieces, then random documents"
    }
}

// ---- B01: positions ------------------------------------------------------------------------------

type Pos = (usize, usize, usize); // depth of includes, line, column
fn pos(l: &Location) -> Pos {
    (l.file.len(), l.line, l.col)
}
fn some_locations(rng: &mut Rng, lo: usize, hi: usize) -> Vec<Location> {
    let k = rng.range(lo, hi);
    (0..k)
        .map(|_| Location::new(rng.range(1, 4), rng.range(1, 4), (0..rng.range(0, 3)).map(|_| rng.pick(&["a", "b", "c"]).to_string()).collect()))
        .collect()
}
fn show(v: &[Location]) -> String {
    v.iter().map(|l| format!("{}:{}:{}", l.file.join("/"), l.line, l.col)).collect::<Vec<_>>().join(" ")
}
fn read(s: &str) -> Vec<Location> {
    s.split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let n: Vec<&str> = x.split(':').collect();
            let files = n[0].split('/').filter(|f| !f.is_empty()).map(|f| f.to_string()).collect();
            Location::new(n[1].parse().unwrap(), n[2].parse().unwrap(), files)
        })
        .collect()
}

pub struct Positions;
impl Prop for Positions {
    fn id(&self) -> &'static str {
        "B01"
    }
    fn case(&self, _: u64, rng: &mut Rng) -> Case {
        let (a, b) = (some_locations(rng, 0, 4), some_locations(rng, 0, 4));
        Case { main: String::new(), files: vec![], args: vec![show(&a), show(&b)] }
    }
    fn check(&self, c: &Case) -> Verdict {
        let (a, b) = (read(&c.args[0]), read(&c.args[1]));
        for x in a.iter().chain(b.iter()) {
            for y in a.iter().chain(b.iter()) {
                let want = pos(x).cmp(&pos(y));
                if x.cmp(y) != want || x.partial_cmp(y) != Some(want) {
                    return Verdict::Fails(format!("{} against {} should be {want:?}", show(&[x.clone()]), show(&[y.clone()])));
                }
            }
        }
        let (l, s, e) = Location::destructure_inline_locations(a.clone());
        let want = match (a.first(), a.last()) {
            (Some(f), Some(t)) => (f.line, f.col, t.col),
            _ => (0, 0, 0),
        };
        if (l, s, e) != want {
            return Verdict::Fails(format!("{} stands for line and columns {want:?}, not {:?}", show(&a), (l, s, e)));
        }
        let r = Location::reconcile(a.clone(), b.clone());
        let want: Vec<Pos> = if b.is_empty() {
            a.iter().map(pos).collect()
        } else {
            let all: Vec<Pos> = a.iter().chain(b.iter()).map(pos).collect();
            let (lo, hi) = (*all.iter().min().unwrap(), *all.iter().max().unwrap());
            if all.len() == 1 { vec![lo] } else { vec![lo, hi] }
        };
        if r.iter().map(pos).collect::<Vec<_>>() != want {
            return Verdict::Fails(format!("{} and {} together span {want:?}, not {}", show(&a), show(&b), show(&r)));
        }
        Verdict::Holds(!a.is_empty() && !b.is_empty())
    }
    fn total(&self) -> bool {
        true
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "two lists of up to 4 positions, line and column 1 to 4, up to 3 files of 3 names deep"
    }
}

// ---- B02: words ----------------------------------------------------------------------------------

fn literals(v: &Value, out: &mut String) {
    if let Some(s) = v.get("value").and_then(|x| x.as_str()) {
        out.push_str(s);
    }
    for x in v.get("inlines").and_then(|x| x.as_array()).into_iter().flatten() {
        literals(x, out);
    }
}
/// the words of a block: those of its own texts, each by itself, and those of the blocks in it
fn words(v: &Value) -> usize {
    let mut n = 0;
    for k in ["title", "terms", "principal", "inlines", "caption"] {
        let mut s = String::new();
        for x in v.get(k).and_then(|x| x.as_array()).into_iter().flatten() {
            literals(x, &mut s);
        }
        n += s.split(char::is_whitespace).filter(|w| !w.is_empty()).count();
    }
    for k in ["blocks", "items"] {
        n += v.get(k).and_then(|x| x.as_array()).into_iter().flatten().map(words).sum::<usize>();
    }
    n
}

pub struct Words;
impl Prop for Words {
    fn id(&self) -> &'static str {
        "B02"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        if i % 2 == 0 { Case::text(super::doc::some_doc(i, rng)) } else { Case::text(gen_::any_doc(i, rng)) }
    }
    fn check(&self, c: &Case) -> Verdict {
        let Ok(asg) = parse(&c.main) else { return Verdict::Skip };
        let v = serde_json::to_value(&asg).unwrap();
        let want: usize = v.get("blocks").and_then(|x| x.as_array()).into_iter().flatten().map(words).sum();
        let got = asg.word_count();
        if got != want {
            return Verdict::Fails(format!("the body has {want} words, the count is {got}"));
        }
        let text = asg.all_text();
        if text.split_whitespace().count() != want {
            return Verdict::Fails(format!("the body has {want} words, its plain text {}", text.split_whitespace().count()));
        }
        Verdict::Holds(want > 0)
    }
    fn rule(&self) -> &'static str {
        "documents written from a random tree, and every string of up to 3 pieces, then random documents"
    }
}
