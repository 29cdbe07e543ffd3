//! D01: footnotes taken out of the text.
use super::tree::parse;
use crate::engine::{Case, Prop, Verdict};
use crate::rng::Rng;
use serde_json::Value;

fn list<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}
fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn id(v: &Value) -> &str {
    v.get("metadata").and_then(|m| m.get("attributes")).and_then(|a| a.get("id")).and_then(|x| x.as_str()).unwrap_or("")
}
/// without positions
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "location").map(|(k, x)| (k.clone(), bare(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(bare).collect()),
        _ => v.clone(),
    }
}
fn words(v: &Value, out: &mut String) {
    out.push_str(text(v, "value"));
    for x in list(v, "inlines") {
        words(x, out);
    }
}
fn shown(v: &Value) -> String {
    let mut s = String::new();
    words(v, &mut s);
    s
}
/// the text of one footnote, the id of its reference, and what the reference points to
struct Note {
    text: Vec<Value>,
    id: String,
    target: String,
}
fn text_of(a: &[Value], b: &[Value], notes: &mut Vec<Note>) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("a text of {} parts has {} parts afterwards", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        if text(x, "variant") != "footnote" {
            if bare(x) != bare(y) {
                return Err(format!("other text changes: {} becomes {}", bare(x), bare(y)));
            }
            continue;
        }
        let n = (notes.len() + 1).to_string();
        let r = list(y, "inlines");
        if text(y, "variant") != "superscript" || r.len() != 1 || r[0].get("target").is_none() || shown(y) != n {
            return Err(format!("footnote {n} is replaced by {}", bare(y)));
        }
        notes.push(Note { text: list(x, "inlines").iter().map(bare).collect(), id: id(&r[0]).to_string(), target: text(&r[0], "target").to_string() });
    }
    Ok(())
}
fn block(a: &Value, b: &Value, notes: &mut Vec<Note>) -> Result<(), String> {
    for k in ["name", "type", "level", "variant", "target", "metadata", "title", "caption", "terms", "form", "marker"] {
        if a.get(k).map(bare) != b.get(k).map(bare) {
            return Err(format!("the {k} of a block changes"));
        }
    }
    for k in ["principal", "inlines"] {
        if text(a, "name") == "tableCell" {
            if a.get(k).map(bare) != b.get(k).map(bare) {
                return Err("a table cell changes".into());
            }
        } else {
            text_of(list(a, k), list(b, k), notes)?;
        }
    }
    for k in ["blocks", "items"] {
        let (x, y) = (list(a, k), list(b, k));
        if x.len() != y.len() {
            return Err(format!("{} blocks become {}", x.len(), y.len()));
        }
        for (p, q) in x.iter().zip(y) {
            block(p, q, notes)?;
        }
    }
    Ok(())
}
fn check(a: &Value, b: &Value) -> Result<usize, String> {
    let mut notes = vec![];
    let (x, y) = (list(a, "blocks"), list(b, "blocks"));
    if y.len() != x.len() + 1 {
        return Err(format!("{} blocks become {}", x.len(), y.len()));
    }
    for (p, q) in x.iter().zip(y) {
        block(p, q, &mut notes)?;
    }
    let defs = list(&y[x.len()], "blocks");
    if defs.len() != notes.len() {
        return Err(format!("{} footnotes and {} definitions", notes.len(), defs.len()));
    }
    for (k, (n, d)) in notes.iter().zip(defs).enumerate() {
        let k = k + 1;
        let parts = list(d, "inlines");
        if n.target.is_empty() || id(d) != n.target {
            return Err(format!("reference {k} points to '{}', its definition is '{}'", n.target, id(d)));
        }
        if parts.is_empty() || n.id.is_empty() || text(&parts[0], "target") != n.id || shown(&parts[0]) != k.to_string() {
            return Err(format!("definition {k} does not point back"));
        }
        if parts[1..].iter().map(bare).collect::<Vec<_>>() != n.text {
            return Err(format!("definition {k} has another text"));
        }
        if notes[..k - 1].iter().any(|o| o.id == n.id || o.target == n.target) {
            return Err(format!("the ids of footnote {k} are used twice"));
        }
    }
    Ok(notes.len())
}

pub struct Notes;
impl Prop for Notes {
    fn id(&self) -> &'static str {
        "D01"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(super::doc::noted_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let Ok(mut asg) = parse(&c.main) else { return Verdict::Skip };
        let a = serde_json::to_value(&asg).unwrap();
        if let Err(e) = asg.standardize_footnotes() {
            return Verdict::Fails(format!("the footnotes cannot be moved: {e}"));
        }
        match check(&a, &serde_json::to_value(&asg).unwrap()) {
            Ok(n) => Verdict::Holds(n > 1),
            Err(e) => Verdict::Fails(e),
        }
    }
    fn total(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "documents with footnotes written from a random tree; non-trivial: two footnotes or more"
    }
}
