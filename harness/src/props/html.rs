//! F01: the HTML a tree is written as. The oracle writes its own from the JSON form of the tree; both
//! are taken apart into elements and text, so that layout and the order of attributes do not matter.
use super::tree::parse;
use crate::engine::{Case, Prop, Verdict};
use crate::rng::Rng;
use asciidocr::backends::htmls::render_htmlbook;
use serde_json::Value;

fn list<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}
fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn attr<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get("metadata").and_then(|m| m.get("attributes")).map(|a| text(a, k)).unwrap_or("")
}
fn put(out: &mut String, k: &str, v: &str) {
    if !v.is_empty() {
        out.push_str(&format!(" {k}=\"{v}\""));
    }
}
/// the start of an element with its id and the roles as its classes
fn open(v: &Value, tag: &str, more: &[(&str, &str)]) -> String {
    let mut s = format!("<{tag}");
    let roles: Vec<&str> = v.get("metadata").map(|m| list(m, "roles")).unwrap_or(&[]).iter().filter_map(|r| r.as_str()).collect();
    put(&mut s, "class", &roles.join(" "));
    put(&mut s, "id", attr(v, "id"));
    for (k, x) in more {
        put(&mut s, k, x);
    }
    s.push('>');
    s
}
fn inlines(xs: &[Value], out: &mut String) {
    for v in xs {
        match text(v, "name") {
            "linebreak" => out.push_str("<br>"),
            "span" => {
                let (tag, kind) = match text(v, "variant") {
                    "emphasis" => ("em", ""),
                    "mark" => ("span", ""),
                    "superscript" => ("sup", ""),
                    "subscript" => ("sub", ""),
                    "footnote" => ("span", "footnote"),
                    other => (other, ""),
                };
                out.push_str(&open(v, tag, &[("data-type", kind)]));
                inlines(list(v, "inlines"), out);
                out.push_str(&format!("</{tag}>"));
            }
            "ref" if text(v, "variant") == "image" => out.push_str(&open(v, "img", &[("src", text(v, "target"))])),
            "ref" => {
                let target = if text(v, "variant") == "xref" { format!("#{}", text(v, "target")) } else { text(v, "target").to_string() };
                out.push_str(&open(v, "a", &[("href", &target)]));
                if list(v, "inlines").is_empty() {
                    out.push_str(&target);
                }
                inlines(list(v, "inlines"), out);
                out.push_str("</a>");
            }
            _ => out.push_str(text(v, "value")),
        }
    }
}
fn within(v: &Value, k: &str, tag: &str, out: &mut String) {
    if !list(v, k).is_empty() {
        out.push_str(&format!("<{tag}>"));
        inlines(list(v, k), out);
        out.push_str(&format!("</{tag}>"));
    }
}
fn blocks(v: &Value, out: &mut String) {
    for b in list(v, "blocks").iter().chain(list(v, "items")) {
        block(b, out);
    }
}
fn block(v: &Value, out: &mut String) {
    let name = text(v, "name");
    match name {
        "pass" => inlines(list(v, "inlines"), out),
        "paragraph" | "listing" | "literal" | "verse" => {
            let tag = if name == "paragraph" { "p" } else { "pre" };
            let more = [("data-code-language", if name == "listing" { attr(v, "language") } else { "" }), ("data-type", if name == "verse" { "verse" } else { "" })];
            out.push_str(&open(v, tag, &more));
            for x in list(v, "inlines") {
                // code shows as it is written
                if matches!(name, "listing" | "literal") && text(x, "name") == "text" {
                    out.push_str(&text(x, "value").replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"));
                } else {
                    inlines(std::slice::from_ref(x), out);
                }
            }
            out.push_str(&format!("</{tag}>"));
        }
        "break" if text(v, "variant") == "thematic" => out.push_str("<hr>"),
        "break" => out.push_str("<div style=\"page-break-after: always;\"></div>"),
        "section" => {
            let kind = format!("sect{}", v.get("level").and_then(|l| l.as_u64()).unwrap_or(0));
            out.push_str(&open(v, "section", &[("data-type", &kind)]));
            within(v, "title", "h1", out);
            blocks(v, out);
            out.push_str("</section>");
        }
        "table" => {
            let cols = attr(v, "cols").parse::<usize>().unwrap_or(1).max(1);
            let head = list(v.get("metadata").unwrap_or(&Value::Null), "options").iter().any(|o| o == "header");
            let cells = list(v, "blocks");
            let first = if head { cols.min(cells.len()) } else { 0 };
            out.push_str(&open(v, "table", &[]));
            if head {
                out.push_str("<thead>");
                for c in &cells[..first] {
                    out.push_str("<th>");
                    inlines(list(c, "inlines"), out);
                    out.push_str("</th>");
                }
                out.push_str("</thead><tbody>");
            }
            let rows: Vec<&[Value]> = cells[first..].chunks(cols).collect();
            for row in &rows {
                out.push_str("<tr>");
                for c in *row {
                    out.push_str("<td>");
                    inlines(list(c, "inlines"), out);
                    out.push_str("</td>");
                }
                out.push_str("</tr>");
            }
            if head {
                out.push_str("</tbody>");
            }
            out.push_str("</table>");
        }
        "image" => {
            out.push_str(&open(v, "figure", &[]));
            let mut s = "<img".to_string();
            put(&mut s, "src", text(v, "target"));
            put(&mut s, "alt", attr(v, "positional_1"));
            out.push_str(&format!("{s}>"));
            within(v, "caption", "figcaption", out);
            out.push_str("</figure>");
        }
        "dlistItem" => {
            within(v, "terms", "dt", out);
            out.push_str(&open(v, "dd", &[]));
            within(v, "principal", "p", out);
            blocks(v, out);
            out.push_str("</dd>");
        }
        "admonition" => {
            out.push_str(&open(v, "div", &[("data-type", text(v, "variant"))]));
            // the block below is the admonition itself
            for b in list(v, "blocks") {
                if text(b, "name") == "example" {
                    within(b, "title", "h5", out);
                    blocks(b, out);
                } else {
                    block(b, out);
                }
            }
            out.push_str("</div>");
        }
        _ => {
            let tag = match name {
                "list" if text(v, "variant") == "ordered" => "ol",
                "list" => "ul",
                "dlist" => "dl",
                "listItem" => "li",
                "quote" => "blockquote",
                "sidebar" => "aside",
                _ => "div",
            };
            out.push_str(&open(v, tag, &[("data-type", if name == "sidebar" { "sidebar" } else { "" })]));
            within(v, "title", if name == "quote" { "h1" } else { "h5" }, out);
            within(v, "principal", "p", out);
            blocks(v, out);
            if !attr(v, "attribution").is_empty() {
                let c = attr(v, "citation");
                out.push_str(&format!("<p data-type=\"attribution\">{}{}{c}</p>", attr(v, "attribution"), if c.is_empty() { "" } else { ", " }));
            }
            out.push_str(&format!("</{tag}>"));
        }
    }
}
fn expected(asg: &Value) -> (String, String) {
    let (mut title, mut body) = (String::new(), String::new());
    if let Some(h) = asg.get("header") {
        inlines(list(h, "title"), &mut title);
    }
    blocks(asg, &mut body);
    (title, body)
}

const INLINE: &[&str] = &["strong", "em", "code", "span", "sup", "sub", "a", "img"];
/// a tag without its layout
fn tag(s: &str) -> (String, String) {
    let s = s.trim_end_matches('/').trim();
    let name: String = s.trim_start_matches('/').chars().take_while(|c| c.is_alphanumeric()).collect();
    let mut attrs = vec![];
    let mut rest = &s[name.len() + s.starts_with('/') as usize..];
    while let Some((k, r)) = rest.split_once("=\"") {
        let Some((v, r)) = r.split_once('"') else { break };
        attrs.push(format!(" {}=\"{v}\"", k.trim()));
        rest = r;
    }
    attrs.sort();
    let end = if s.starts_with('/') { "/" } else { "" };
    (name.clone(), format!("<{end}{name}{}>", attrs.concat()))
}
/// elements and text one after the other; blanks next to the tags of blocks do not count, and
/// neither do rows in the head of a table and rows without cells
fn events(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let (mut pre, mut head, mut trim) = (false, false, true);
    let mut rest = s;
    while !rest.is_empty() {
        let at = rest.find('<').unwrap_or(rest.len());
        let close = rest[at..].find('>').map(|e| at + e);
        let mut t = match pre {
            // there is more than one way to write these
            true => [("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#x27;", "'"), ("&#x2F;", "/"), ("&amp;", "&")].iter().fold(rest[..at].to_string(), |t, (a, b)| t.replace(a, b)),
            false => rest[..at].split(|c: char| c.is_ascii_whitespace()).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "),
        };
        if !pre && !t.is_empty() {
            if rest.starts_with(|c: char| c.is_ascii_whitespace()) && !trim {
                t.insert(0, ' ');
            }
            if rest[..at].ends_with(|c: char| c.is_ascii_whitespace()) {
                t.push(' ');
            }
        } else if !pre && at > 0 && !trim {
            t.push(' ');
        }
        let Some(close) = close else {
            out.push(t.trim_end().to_string());
            break;
        };
        let (name, whole) = tag(&rest[at + 1..close]);
        let is_block = !INLINE.contains(&name.as_str());
        if pre && trim {
            t = t.trim_start_matches('\n').to_string();
        }
        if is_block {
            t = if pre { t.trim_end_matches('\n').to_string() } else { t.trim_end().to_string() };
        }
        if !t.is_empty() {
            match out.last_mut() {
                Some(l) if !l.starts_with('<') => l.push_str(&t),
                _ => out.push(t),
            }
            trim = false;
        }
        // a blank ahead of a block is the layout
        if is_block && let Some(l) = out.last_mut() && !l.starts_with('<') && !pre {
            *l = l.trim_end().to_string();
        }
        match whole.as_str() {
            "</pre>" => pre = false,
            _ if name == "pre" => pre = true,
            "<thead>" => head = true,
            "</thead>" => head = false,
            _ => {}
        }
        if whole == "</tr>" && out.last().is_some_and(|l| l == "<tr>") {
            out.pop();
        } else if !(head && name == "tr") {
            out.push(whole);
        }
        trim = is_block;
        rest = &rest[close + 1..];
    }
    out.retain(|x| !x.is_empty());
    out
}
fn between<'a>(s: &'a str, a: &str, b: &str) -> Option<&'a str> {
    let i = s.find(a)? + a.len();
    let j = s.rfind(b)?;
    s.get(i..j)
}

pub struct Html;
impl Prop for Html {
    fn id(&self) -> &'static str {
        "F01"
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        Case::text(super::doc::html_doc(i, rng))
    }
    fn check(&self, c: &Case) -> Verdict {
        let Ok(asg) = parse(&c.main) else { return Verdict::Skip };
        let v = serde_json::to_value(&asg).unwrap();
        let html = match render_htmlbook(&asg) {
            Ok(h) => h,
            Err(e) => return Verdict::Fails(format!("no HTML: {e}")),
        };
        let (title, body) = expected(&v);
        let Some(got_title) = between(html.split("<body>").next().unwrap_or(""), "<title>", "</title>") else {
            return Verdict::Fails("there is no title".into());
        };
        let Some(got_body) = between(&html, "<body>", "</body>") else { return Verdict::Fails("there is no body".into()) };
        for (what, got, want) in [("title", got_title, &title), ("body", got_body, &body)] {
            let (g, w) = (events(got), events(want));
            if g != w {
                let at = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
                return Verdict::Fails(format!(
                    "{what}: expected {:?}, got {:?} after {:?}\n{html}",
                    w.get(at).map(|s| s.as_str()).unwrap_or("the end"),
                    g.get(at).map(|s| s.as_str()).unwrap_or("the end"),
                    g[at.saturating_sub(4)..at].concat()
                ));
            }
        }
        Verdict::Holds(body.len() > 40)
    }
    fn total(&self) -> bool {
        true
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "documents written from a random tree of up to 6 blocks at the top; non-trivial: more than a few words"
    }
}
