//! E01, E02: documents of more than one file. The files stand in a directory of their own below the
//! directory for temporary files, which goes when the case is done.
use super::doc::view;
use crate::engine::{Case, Prop, Verdict};
use crate::rng::Rng;
use asciidocr::errors::ParserError;
use asciidocr::graph::asg::Asg;
use asciidocr::parser::Parser;
use asciidocr::scanner::Scanner;
use serde_json::Value;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("asciidocr-includes-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&d).expect("a directory for the files");
        Dir(d)
    }
    pub fn write(&self, name: &str, text: &str) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// all files but the one called `gone`
fn parse(c: &Case, gone: &str) -> Result<Asg, ParserError> {
    let d = Dir::new();
    for (name, text) in &c.files {
        if name != gone {
            d.write(name, text);
        }
    }
    Parser::new_no_target_resolution(d.0.join("main.adoc")).parse(Scanner::new(&c.main))
}

pub struct Files;
impl Prop for Files {
    fn id(&self) -> &'static str {
        "E01"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        let (main, files, exp) = super::doc::woven_doc(i, rng);
        let mut args = vec![exp.join("\n")];
        if !files.is_empty() && rng.chance(1, 10) {
            args.push(rng.pick(&files).0.clone());
        }
        Case { main, files, args }
    }
    fn check(&self, c: &Case) -> Verdict {
        let gone = c.args.get(1);
        let asg = match (parse(c, gone.map(|s| s.as_str()).unwrap_or("")), gone) {
            (Ok(_), Some(g)) => return Verdict::Fails(format!("there is no file {g}, and no error")),
            (Err(_), Some(_)) => return Verdict::Holds(true),
            (Err(e), None) => return Verdict::Fails(format!("the document is rejected: {e}")),
            (Ok(a), None) => a,
        };
        let got = view(&serde_json::to_value(&asg).unwrap()).join("\n");
        if got == c.args[0] {
            Verdict::Holds(!c.files.is_empty())
        } else {
            Verdict::Fails(format!("expected tree:\n{}\ngot:\n{got}", c.args[0]))
        }
    }
    fn total(&self) -> bool {
        true
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "documents written from a random tree of up to 6 blocks at the top, with runs of blocks in files of their own up to three deep; non-trivial: at least one file"
    }
}

/// the lines of a file
fn some_lines(rng: &mut Rng, n: usize, code: bool) -> Vec<String> {
    (0..n)
        .map(|i| {
            if i > 0 && rng.chance(1, 5) {
                return String::new();
            }
            if !code {
                return format!("w{i}x y{i}");
            }
            match rng.below(24) {
                0 => format!("    a{i} = \"b\";"),
                1 => format!("*a{i}* _b_ `c`"),
                2 => format!("if (a{i} && b[0]) {{ return *c; }}"),
                3 => format!("// a{i}"),
                4 => format!("# a{i}"),
                5 => format!("<a{i} b=\"c\"/>"),
                6 => format!("a{i}::b(c) -> d"),
                7 => format!("* a{i}"),
                8 => format!("a{i} <1>"),
                9 => format!("a{i} -- 'b' it's"),
                10 => format!("\ta{i}... (C) &amp; \\n {{b}}"),
                11 => format!("http://a{i}.b[c] footnote:[d] <<e>>"),
                12 => format!("== a{i}"),
                13 => format!("[a{i}]"),
                14 => format!(":a{i}: b"),
                15 => format!("| a{i} | b"),
                16 => rng.pick(&["****", "====", "|===", "'''", "+", "----", "....", "--"]).to_string(),
                17 => format!(". a{i}"),
                18 => format!(".a{i}"),
                19 => format!("/* étude {i} */"),
                _ => format!("fn a{i}()"),
            }
        })
        .collect()
}

pub struct Parts;
impl Parts {
    /// which lines, and how to write it down
    fn ranges(rng: &mut Rng, n: usize) -> (Vec<bool>, String) {
        let mut take = vec![false; n];
        let mut spec: Vec<String> = vec![];
        let mut at = 1;
        for _ in 0..rng.range(1, 3) {
            if at > n {
                break;
            }
            let a = rng.range(at, n);
            let b = rng.range(a, n);
            let last = rng.chance(1, 5);
            let b = if last { n } else { b };
            for x in &mut take[a - 1..b] {
                *x = true;
            }
            spec.push(match () {
                _ if last && rng.chance(1, 2) => format!("{a}.."),
                _ if last => format!("{a}..-1"),
                _ if a == b && rng.chance(2, 3) => format!("{a}"),
                _ => format!("{a}..{b}"),
            });
            at = b + 1;
        }
        let spec = if spec.len() > 1 && rng.chance(1, 2) { format!("lines=\"{}\"", spec.join(",")) } else { format!("lines={}", spec.join(";")) };
        (take, spec)
    }
}
impl Prop for Parts {
    fn id(&self) -> &'static str {
        "E02"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        let code = i % 2 == 0;
        let n = rng.range(1, if i < 2000 { 4 } else { 12 });
        let lines = some_lines(rng, n, code);
        let mut text: Vec<String> = vec![];
        let mut take = vec![true; n];
        let mut spec = String::new();
        match rng.below(3) {
            0 => text = lines.clone(),
            1 => {
                (take, spec) = Self::ranges(rng, n);
                text = lines.clone();
            }
            _ => {
                // parts with names, one after the other
                let names = ["one", "two", "b-c", "d_1"];
                let mut want = vec![];
                let mut at = 0;
                take = vec![false; n];
                for name in names {
                    if at >= n {
                        break;
                    }
                    let a = rng.range(at, n - 1);
                    let b = rng.range(a, n - 1);
                    let mark = if code { *rng.pick(&["//", "#"]) } else { "//" };
                    text.extend_from_slice(&lines[at..a]);
                    text.push(format!("{mark} tag::{name}[]"));
                    text.extend_from_slice(&lines[a..=b]);
                    text.push(format!("{mark} end::{name}[]"));
                    if rng.chance(1, 2) {
                        want.push(name);
                        for x in &mut take[a..=b] {
                            *x = true;
                        }
                    }
                    at = b + 1;
                }
                text.extend_from_slice(&lines[at..]);
                if want.is_empty() {
                    want.push("none");
                }
                spec = match want.len() {
                    1 if rng.chance(1, 2) => format!("tag={}", want[0]),
                    _ => format!("tags={}", want.join(";")),
                };
            }
        }
        let taken: Vec<String> = lines.into_iter().zip(&take).filter(|x| *x.1).map(|x| x.0).collect();
        let mut s = text.join("\n");
        if rng.chance(3, 4) {
            s.push('\n');
        }
        let name = if code { *rng.pick(&["c.rs", "c.py", "src/c.h"]) } else { *rng.pick(&["p.adoc", "t/p.txt"]) };
        let (front, back) = (rng.chance(1, 3), rng.chance(1, 3));
        let mut main = vec![];
        let frame = |main: &mut Vec<String>| {
            if code {
                main.push("----".into());
            }
        };
        frame(&mut main);
        if front {
            main.push("front".into());
            if !code {
                main.push(String::new());
            }
        }
        main.push(format!("include::{name}[{spec}]"));
        if back {
            if !code {
                main.push(String::new());
            }
            main.push("back".into());
        }
        frame(&mut main);
        let args = vec![front.to_string(), back.to_string(), taken.join("\n")];
        Case { main: main.join("\n") + "\n", files: vec![(name.into(), s)], args }
    }
    fn check(&self, c: &Case) -> Verdict {
        let asg = match parse(c, "") {
            Ok(a) => a,
            Err(e) => return Verdict::Fails(format!("the document is rejected: {e}")),
        };
        let v = serde_json::to_value(&asg).unwrap();
        let (front, back, taken) = (c.args[0] == "true", c.args[1] == "true", c.args[2].as_str());
        let blocks: &[Value] = v.get("blocks").and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[]);
        let mut got = String::new();
        let mut want = String::new();
        if c.main.starts_with("----") {
            if blocks.len() != 1 {
                return Verdict::Fails(format!("{} blocks for one listing", blocks.len()));
            }
            for x in blocks[0].get("inlines").and_then(|x| x.as_array()).unwrap() {
                got.push_str(x.get("value").and_then(|x| x.as_str()).unwrap_or("<no text>"));
            }
            // empty lines next to the included ones do not count
            let mut rest = got.as_str();
            if front {
                match rest.trim_start_matches('\n').strip_prefix("front\n") {
                    Some(r) => rest = r,
                    None => return Verdict::Fails(format!("the line ahead of it is not kept: {got:?}")),
                }
            }
            if back {
                match rest.trim_end_matches('\n').strip_suffix("\nback") {
                    Some(r) => rest = r,
                    None => return Verdict::Fails(format!("the line after it is not kept: {got:?}")),
                }
            }
            got = rest.trim_matches('\n').to_string();
            want.push_str(taken.trim_matches('\n'));
        } else {
            got = view(&v).join("\n");
            let mut all: Vec<String> = taken.split("\n\n").map(|p| p.trim_matches('\n').replace('\n', "\\")).filter(|p| !p.is_empty()).collect();
            if front {
                all.insert(0, "front".into());
            }
            if back {
                all.push("back".into());
            }
            want = all.iter().map(|p| format!("paragraph {p}")).collect::<Vec<_>>().join("\n");
        }
        if got == want {
            Verdict::Holds(!taken.is_empty())
        } else {
            Verdict::Fails(format!("expected:\n{want}\ngot:\n{got}"))
        }
    }
    fn total(&self) -> bool {
        true
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "files of up to 12 lines of code or text, taken whole, by line numbers or by tags; non-trivial: something is taken"
    }
}
