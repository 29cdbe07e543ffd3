//! G01: what the command writes, and where. The command built from the tree runs in a directory made
//! for the case and removed after it.
use super::includes::Dir;
use crate::engine::{Case, Prop, Verdict};
use crate::rng::Rng;
use asciidocr::backends::htmls::render_htmlbook;
use asciidocr::parser::Parser;
use asciidocr::scanner::Scanner;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn command() -> PathBuf {
    match std::env::var_os("ASCIIDOCR_BIN") {
        Some(p) => p.into(),
        None => std::env::current_exe().unwrap().ancestors().nth(3).unwrap().join("cli/debug/asciidocr"),
    }
}
fn files(dir: &Path, below: &Path, out: &mut Vec<String>) {
    for e in std::fs::read_dir(dir.join(below)).unwrap() {
        let e = e.unwrap();
        let p = below.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            files(dir, &p, out);
        } else {
            out.push(p.to_str().unwrap().to_string());
        }
    }
    out.sort();
}
/// the name with another ending
fn ending(name: &str, end: &str) -> String {
    let (dir, base) = match name.rfind('/') {
        Some(i) => name.split_at(i + 1),
        None => ("", name),
    };
    let stem = match base.rfind('.') {
        Some(i) if i > 0 => &base[..i],
        _ => base,
    };
    format!("{dir}{stem}.{end}")
}

/// the order of the members of an object does not matter
fn same(backend: &str, a: &str, b: &str) -> bool {
    if backend != "json" {
        return a.trim_end() == b.trim_end();
    }
    let read = |s: &str| serde_json::from_str::<serde_json::Value>(s).ok();
    read(a).is_some() && read(a) == read(b)
}

pub struct Cli;
impl Prop for Cli {
    fn id(&self) -> &'static str {
        "G01"
    }
    /// files: the document; args: file, backend, output, "c" to count words
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        let name = *rng.pick(&["a.adoc", "a.adoc", "b.txt", "d/b.c.adoc", "d.e/f", "noend", ".g", "h.html", "-", "-"]);
        let backend = *rng.pick(&["", "htmlbook", "json", "docx"]);
        let out = *rng.pick(&["", "", "", "-", "out.txt", "o/p.html", "a.b.json"]);
        let mut text = super::doc::plain_doc(i, rng);
        match rng.below(8) {
            0 => text = "include::none.adoc[]\n".into(),
            1 => text.push_str("\n\nimage::none.png[]\n"),
            _ => {}
        }
        let flags = *rng.pick(&["", "", "c", "x", "cx"]);
        // sometimes there is no such file
        let files = if rng.chance(1, 12) { vec![] } else { vec![(name.to_string(), text)] };
        Case { main: String::new(), files, args: vec![name.into(), backend.into(), out.into(), flags.into()] }
    }
    fn check(&self, c: &Case) -> Verdict {
        let (name, backend, out, flags) = (c.args[0].as_str(), c.args[1].as_str(), c.args[2].as_str(), c.args[3].as_str());
        let d = Dir::new();
        for sub in ["d", "d.e", "o"] {
            std::fs::create_dir(d.0.join(sub)).unwrap();
        }
        let mut input = "";
        if let Some((_, text)) = c.files.first() {
            input = text;
            if name != "-" {
                d.write(name, text);
            }
        } else if name == "-" {
            return Verdict::Skip;
        }
        let mut before = vec![];
        files(&d.0, Path::new(""), &mut before);
        let mut cmd = Command::new(command());
        cmd.current_dir(&d.0).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if !backend.is_empty() {
            cmd.args(["-b", backend]);
        }
        if !out.is_empty() {
            cmd.args(["-o", out]);
        }
        for f in flags.chars() {
            cmd.arg(format!("-{f}"));
        }
        let mut child = match cmd.arg(name).spawn() {
            Ok(c) => c,
            Err(e) => panic!("the command does not start: {e}"),
        };
        let _ = child.stdin.take().unwrap().write_all(if name == "-" { input.as_bytes() } else { b"" });
        let o = child.wait_with_output().unwrap();
        let stdout = String::from_utf8_lossy(&o.stdout).to_string();
        let mut after = vec![];
        files(&d.0, Path::new(""), &mut after);
        // what the library makes of it
        let origin = d.0.join(if name == "-" { "main.adoc" } else { name });
        let mut parser = if flags.contains('x') { Parser::new_no_target_resolution(origin) } else { Parser::new(origin) };
        let asg = if c.files.is_empty() { None } else { parser.parse(Scanner::new(input)).ok() };
        let docx = backend == "docx";
        let to_stdout = out == "-" || out.is_empty() && name == "-";
        // the binary format goes to a file, with all targets at hand
        let asg = asg.filter(|_| !docx || !to_stdout && !flags.contains('x'));
        let Some(asg) = asg else {
            if o.status.success() {
                return Verdict::Fails("the document cannot be converted, and the command says it succeeded".into());
            }
            if after != before {
                return Verdict::Fails(format!("the document cannot be converted, and there are {after:?}"));
            }
            return Verdict::Holds(true);
        };
        if !o.status.success() {
            return Verdict::Fails(format!("the command fails: {}", String::from_utf8_lossy(&o.stderr)));
        }
        if flags.contains('c') && !stdout.contains(&format!("{} words", asg.word_count())) {
            return Verdict::Fails(format!("the number of words is not {} in: {stdout}", asg.word_count()));
        }
        let want = match backend {
            "json" => serde_json::to_string_pretty(&asg).unwrap(),
            "docx" => String::new(),
            _ => render_htmlbook(&asg).unwrap(),
        };
        let target = match (out, backend) {
            ("", "json") => ending(name, "json"),
            ("", "docx") => ending(name, "docx"),
            ("", _) => ending(name, "html"),
            (o, _) => o.to_string(),
        };
        if to_stdout {
            if after != before {
                return Verdict::Fails(format!("files are written: {after:?}"));
            }
            // after the number of words and any warnings
            let start = if backend == "json" { stdout.find("{\n").unwrap_or(0) } else { stdout.trim_end().len().saturating_sub(want.trim_end().len()) };
            if !stdout.get(start..).is_some_and(|s| same(backend, s, &want)) {
                return Verdict::Fails(format!("expected on standard output:\n{want}\ngot:\n{stdout}"));
            }
            return Verdict::Holds(true);
        }
        let mut all = before.clone();
        all.push(target.clone());
        all.sort();
        all.dedup();
        if after != all {
            return Verdict::Fails(format!("expected the files {all:?}, got {after:?}"));
        }
        for f in before.iter().filter(|f| **f != target) {
            if std::fs::read_to_string(d.0.join(f)).ok().as_deref() != Some(input) {
                return Verdict::Fails(format!("{f} has changed"));
            }
        }
        let got = std::fs::read(d.0.join(&target)).unwrap();
        if docx {
            return if got.starts_with(b"PK") { Verdict::Holds(true) } else { Verdict::Fails(format!("{target} is no docx")) };
        }
        let got = String::from_utf8_lossy(&got);
        if !same(backend, &got, &want) {
            return Verdict::Fails(format!("expected in {target}:\n{want}\ngot:\n{got}"));
        }
        Verdict::Holds(true)
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "documents of up to 3 blocks under ten names or on standard input, every backend, with and without -o, -c and -x; non-trivial: all"
    }
}
