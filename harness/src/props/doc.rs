//! Documents made together with the tree they stand for: the oracle knows the tree because it wrote
//! the document from it, and never reads the source text back.
use super::tree::parse;
use crate::engine::{Case, Prop, Verdict};
use crate::rng::Rng;
use serde_json::Value;

// ---- the view of a tree that the oracle compares -------------------------------------------------

fn list<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}
fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn meta(v: &Value) -> String {
    let Some(m) = v.get("metadata") else { return String::new() };
    let mut out = vec![];
    for k in ["id", "cols", "language", "attribution", "citation"] {
        if let Some(x) = m.get("attributes").and_then(|a| a.get(k)).and_then(|x| x.as_str()) {
            out.push(format!("{k}={x}"));
        }
    }
    for r in list(m, "roles") {
        out.push(format!(".{}", r.as_str().unwrap_or("")));
    }
    if list(m, "options").iter().any(|o| o == "header") {
        out.push("%header".into());
    }
    if out.is_empty() { String::new() } else { format!("{{{}}}", out.join(" ")) }
}
fn inline(v: &Value, out: &mut String) {
    match text(v, "name") {
        "text" | "charref" | "raw" => out.push_str(text(v, "value")),
        "linebreak" => out.push_str("<br>"),
        _ => {
            out.push('<');
            out.push_str(text(v, "variant"));
            if v.get("target").is_some() {
                out.push(' ');
                out.push_str(text(v, "target"));
            }
            out.push_str(&meta(v));
            out.push('>');
            for x in list(v, "inlines") {
                inline(x, out);
            }
            out.push_str("</>");
        }
    }
}
/// blanks at the ends do not count; line ends show as a backslash
fn squeeze(s: &str) -> String {
    s.trim_matches(' ').replace('\n', "\\")
}
fn inlines(xs: &[Value]) -> String {
    let mut s = String::new();
    for x in xs {
        inline(x, &mut s);
    }
    s
}
fn block(v: &Value, depth: usize, out: &mut Vec<String>) {
    let name = text(v, "name");
    let mut s = format!("{}{name}", "  ".repeat(depth));
    for k in ["level", "variant", "target"] {
        match v.get(k) {
            Some(Value::String(x)) => s.push_str(&format!(" {x}")),
            Some(Value::Number(x)) => s.push_str(&format!(" {x}")),
            _ => {}
        }
    }
    s.push_str(&meta(v));
    if v.get("terms").is_some() {
        s.push_str(&format!(" [{}]", squeeze(&inlines(list(v, "terms")))));
    }
    for k in ["title", "caption"] {
        if !list(v, k).is_empty() {
            s.push_str(&format!(" '{}'", squeeze(&inlines(list(v, k)))));
        }
    }
    match name {
        "listing" | "literal" | "pass" | "verse" => {
            let t = inlines(list(v, "inlines"));
            let t = t.strip_prefix('\n').unwrap_or(&t);
            let t = t.strip_suffix('\n').unwrap_or(t);
            s.push_str(&format!(" {t:?}"));
        }
        _ => {
            let t = squeeze(&inlines(list(v, if v.get("principal").is_some() { "principal" } else { "inlines" })));
            if !t.is_empty() {
                s.push(' ');
                s.push_str(&t);
            }
        }
    }
    out.push(s);
    for x in list(v, "blocks").iter().chain(list(v, "items")) {
        block(x, depth + 1, out);
    }
}
pub fn view(asg: &Value) -> Vec<String> {
    let mut out = vec![];
    if let Some(h) = asg.get("header") {
        out.push(format!("header '{}'", squeeze(&inlines(list(h, "title")))));
    }
    for b in list(asg, "blocks") {
        block(b, 0, &mut out);
    }
    out
}

// ---- documents -----------------------------------------------------------------------------------

/// lines of source, and the lines of the view they stand for
#[derive(Default, Clone)]
pub struct Part {
    src: Vec<String>,
    exp: Vec<String>,
}

pub struct Feat {
    pub blocks: &'static [&'static str],
    pub inl: &'static [&'static str],
    /// what may stand in front of a block
    pub meta: bool,
    pub sections: bool,
    pub header: bool,
}

pub struct Doc<'a> {
    r: &'a mut Rng,
    f: &'a Feat,
    n: usize,
    ids: usize,
    /// id and title of the sections that have an id, known before the text is written
    titles: Vec<(String, String)>,
    attrs: Vec<(String, String)>,
    /// formatted text may go on in the next line
    wrap: bool,
    /// where the blocks at the top start, and the levels of the headings among them
    cuts: Vec<(usize, Option<usize>)>,
    /// lines of delimited blocks that go to files of their own; none where there are no files
    apart: Option<Vec<Vec<String>>>,
}

const LETTERS: &[&str] = &["a", "b", "c", "d", "é", "ß", "漢", "z", "q"];

impl<'a> Doc<'a> {
    fn new(r: &'a mut Rng, f: &'a Feat) -> Self {
        Doc { r, f, n: 0, ids: 0, titles: vec![], attrs: vec![], wrap: false, cuts: vec![], apart: None }
    }
    fn word(&mut self) -> String {
        self.n += 1;
        let l = if self.r.chance(1, 4) { *self.r.pick(LETTERS) } else { "w" };
        format!("{l}{}x", self.n)
    }
    fn words(&mut self, lo: usize, hi: usize) -> String {
        let k = self.r.range(lo, hi);
        (0..k).map(|_| self.word()).collect::<Vec<_>>().join(" ")
    }
    fn pick(&mut self, xs: &'static [&'static str]) -> &'static str {
        self.r.pick(xs)
    }
    fn both(s: String) -> (String, String) {
        (s.clone(), s)
    }
    /// one piece of running text; `out` are the marks it is inside of
    fn piece(&mut self, inside: &str, first: bool) -> (String, String) {
        let kinds = self.f.inl;
        if kinds.is_empty() || self.r.chance(1, 2) {
            return Self::both(self.word());
        }
        let k = self.pick(kinds);
        match k {
            "span" => {
                let (mark, name) = *self.r.pick(&[("*", "strong"), ("_", "emphasis"), ("`", "code"), ("#", "mark")]);
                // inside of one kind there is no second one of the same kind
                if inside.contains(mark) || inside.len() > 1 {
                    return Self::both(self.word());
                }
                let form = self.r.below(8);
                if form == 0 && inside.is_empty() {
                    let (a, b, c) = (self.word(), self.word(), self.word());
                    return (format!("{a}{mark}{mark}{b}{mark}{mark}{c}"), format!("{a}<{name}>{b}</>{c}"));
                }
                let (mut s, mut e) = (String::new(), String::new());
                let count = self.r.range(1, 3);
                for i in 0..count {
                    // the oracle keeps to one nested phrase, next to words
                    let (a, b) = if i == 1 {
                        self.piece(&format!("{inside}{mark}"), false)
                    } else {
                        Self::both(self.word())
                    };
                    if i > 0 && self.wrap && !a.starts_with('[') && self.r.chance(1, 4) {
                        s.push('\n');
                        e.push('\\');
                    } else if i > 0 {
                        s.push(' ');
                        e.push(' ');
                    }
                    s.push_str(&a);
                    e.push_str(&b);
                }
                let end = self.single(&mut s, &format!("{inside}{mark}"));
                s.push_str(&end);
                e.push_str(&end);
                let (role, view) = if form < 3 && self.f.inl.contains(&"role") && !(first && inside.is_empty()) {
                    let r = self.word();
                    if self.r.chance(1, 3) {
                        let q = self.word();
                        (format!("[.{r}.{q}]"), format!("{{.{r} .{q}}}"))
                    } else {
                        (format!("[.{r}]"), format!("{{.{r}}}"))
                    }
                } else {
                    (String::new(), String::new())
                };
                (format!("{role}{mark}{s}{mark}"), format!("<{name}{view}>{e}</>"))
            }
            "supsub" => {
                let (mark, name) = *self.r.pick(&[("^", "superscript"), ("~", "subscript")]);
                let (a, b) = (self.word(), self.word());
                (format!("{a}{mark}{b}{mark}"), format!("{a}<{name}>{b}</>"))
            }
            "quote" if inside.is_empty() => {
                let a = self.words(1, 2);
                if self.r.chance(1, 3) {
                    (format!("'`{a}`'"), format!("‘{a}’"))
                } else {
                    (format!("\"`{a}`\""), format!("“{a}”"))
                }
            }
            "char" => {
                let (a, b) = (self.word(), self.word());
                match self.r.below(3) {
                    0 => (format!("{a} &copy; {b}"), format!("{a} &copy; {b}")),
                    1 => (format!("{a}'s {b}"), format!("{a}&#8217;s {b}")),
                    _ => (format!("{a} -- {b}"), format!("{a} &#8212; {b}")),
                }
            }
            "link" if inside.len() < 2 => {
                self.ids += 1;
                let t = format!("http://e{}.org/p", self.ids);
                if self.r.chance(1, 4) {
                    return (t.clone(), format!("<link {t}></>"));
                }
                let (mut s, mut e) = if inside.is_empty() { self.line(1, 2, "l") } else { Self::both(self.words(1, 2)) };
                let end = self.single(&mut s, inside);
                s.push_str(&end);
                e.push_str(&end);
                (format!("{t}[{s}]"), format!("<link {t}>{e}</>"))
            }
            "image" => {
                self.ids += 1;
                (format!("image:i{}.png[]", self.ids), format!("<image i{}.png></>", self.ids))
            }
            "foot" if inside.is_empty() => {
                let w = self.word();
                let (mut s, mut e) = self.line(1, 3, "f");
                let end = self.single(&mut s, inside);
                s.push_str(&end);
                e.push_str(&end);
                (format!("{w}footnote:[{s}]"), format!("{w}<footnote>{e}</>"))
            }
            "xref" if !self.titles.is_empty() && !inside.contains('f') && !inside.contains('l') => {
                let k = self.r.below(self.titles.len());
                let (id, title) = self.titles[k].clone();
                (format!("<<{id}>>"), format!("<xref {id}>{title}</>"))
            }
            "attr" if !self.attrs.is_empty() => {
                let k = self.r.below(self.attrs.len());
                let (n, v) = self.attrs[k].clone();
                (format!("{{{n}}}"), v)
            }
            "bracket" if !inside.contains('f') && !inside.contains('l') => {
                let w = self.words(1, 2);
                Self::both(format!("[{w}]"))
            }
            _ => Self::both(self.word()),
        }
    }
    /// a mark that is not followed by another one of its kind
    fn single(&mut self, s: &mut String, inside: &str) -> String {
        let mark = *self.r.pick(&["*", "_", "`", "#"]);
        if !self.f.inl.contains(&"single") || !self.r.chance(1, 6) || inside.contains(mark) || s.contains(mark) {
            return String::new();
        }
        format!(" {mark}{}", self.word())
    }
    /// a title or a term
    fn label(&mut self) -> String {
        let mut t = self.words(1, 2);
        let mark = *self.r.pick(&["*", "_", "`", "#"]);
        if self.f.inl.contains(&"single") && self.r.chance(1, 4) {
            t.push_str(&format!(" {mark}{}", self.word()));
        }
        t
    }
    fn line(&mut self, lo: usize, hi: usize, inside: &str) -> (String, String) {
        let k = self.r.range(lo, hi);
        let (mut s, mut e) = (String::new(), String::new());
        for i in 0..k {
            let (a, b) = self.piece(inside, i == 0);
            if i > 0 {
                s.push(' ');
                e.push(' ');
            } else if a.starts_with('[') {
                // a line that starts with a bracket may be an attribute list
                let w = self.word();
                s.push_str(&format!("{w} "));
                e.push_str(&format!("{w} "));
            }
            s.push_str(&a);
            e.push_str(&b);
        }
        (s, e)
    }
    /// lines of running text
    fn lines(&mut self, hi: usize) -> (Vec<String>, String) {
        let k = self.r.range(1, hi);
        let (mut s, mut e) = (vec![], String::new());
        for i in 0..k {
            self.wrap = hi > 1;
            let (mut a, b) = self.line(1, 4, "");
            self.wrap = false;
            // what would start another kind of block
            if a.starts_with("image:") || a.starts_with('-') || a.starts_with('.') || a.starts_with('*') && a[1..].starts_with(' ') {
                a = a.trim_start().to_string();
            }
            let brk = i + 1 < k && self.f.inl.contains(&"break") && self.r.chance(1, 5);
            if brk {
                a.push_str(" +");
            }
            let mut end = String::new();
            // the text of a description goes on with the line of the next term
            if i + 1 == k && hi > 1 {
                let mut all = s.join(" ");
                all.push_str(&a);
                end = self.single(&mut all, "");
                a.push_str(&end);
                // or two of them, right after a span
                if end.is_empty() && self.f.inl.contains(&"single") && self.r.chance(1, 8) && !all.contains(['*', '_']) {
                    let (w, v) = (self.word(), self.word());
                    a.push_str(&format!(" {w}**{v}**__"));
                    end = format!(" {w}<strong>{v}</>__");
                }
            }
            s.push(a);
            if i > 0 {
                e.push('\\');
            }
            e.push_str(&b);
            e.push_str(&end);
            if brk {
                e.push_str(" <br>");
            }
        }
        (s, e)
    }
    fn id(&mut self) -> String {
        self.ids += 1;
        format!("id{}", self.ids)
    }
    fn put(p: &mut Part, depth: usize, s: String) {
        p.exp.push(format!("{}{}", "  ".repeat(depth), s));
    }
    fn push(p: &mut Part, q: Part) {
        p.src.extend(q.src);
        p.exp.extend(q.exp);
    }
    /// blocks one after the other with empty lines in between
    fn seq(&mut self, lo: usize, hi: usize, depth: usize, used: &str) -> Part {
        let k = self.r.range(lo, hi);
        let mut p = Part::default();
        for i in 0..k {
            if i > 0 {
                p.src.push(String::new());
                if self.r.chance(1, 8) {
                    p.src.push(String::new());
                }
            }
            let q = self.block(depth, used);
            // a list does not end before an item of the same list
            let clash = |a: &Part, b: &Part| {
                a.exp.iter().rev().find(|l| !l.starts_with(&"  ".repeat(depth + 1))).map(|l| l.trim_start().split(' ').next().unwrap_or("").contains("list"))
                    == Some(true)
                    && b.exp.first().map(|l| l.trim_start().split([' ', '{']).next().unwrap_or("").ends_with("list")) == Some(true)
            };
            if i > 0 && clash(&p, &q) {
                let (s, e) = self.lines(1);
                p.src.extend(s);
                p.src.push(String::new());
                Self::put(&mut p, depth, format!("paragraph {e}"));
            }
            Self::push(&mut p, q);
        }
        p
    }
    fn verbatim(&mut self, delim: &str) -> Vec<String> {
        let k = self.r.range(1, 4);
        let mut out: Vec<String> = vec![];
        for i in 0..k {
            if i > 0 && i + 1 < k && self.r.chance(1, 4) {
                out.push(String::new());
                continue;
            }
            let w = self.word();
            let mut s = match self.r.below(16) {
                0 => format!("  {w} = \"<b>\";"),
                1 => format!("*{w}* _x_ `y` #z#"),
                2 => format!("* {w}"),
                3 => format!("== {w}"),
                4 if !self.attrs.is_empty() => format!("{w} & {{{}}} it's", self.attrs[0].0),
                4 => format!("{w} & {{x}} it's"),
                5 => format!("// {w}"),
                6 => format!(":{w}: y"),
                7 => format!("[{w}]"),
                8 => format!("{w}::"),
                9 => format!("http://e.org[{w}]"),
                10 => format!("footnote:[{w}] <<{w}>>"),
                11 => format!(".{w}"),
                12 => format!("| {w} |"),
                13 => format!("{w} -- x\ty"),
                _ => w,
            };
            if self.r.chance(1, 6) && i > 0 && delim != "verse" {
                // another delimiter inside is text
                let d = *self.r.pick(&["****", "====", "|===", "'''", "+"]);
                s = d.to_string();
            }
            out.push(s);
        }
        if out.last().map(|s| s.is_empty()).unwrap_or(false) {
            out.pop();
        }
        out
    }
    fn item(&mut self, marker: &str, depth: usize, used: &str, lists: &str) -> Part {
        let mut p = Part::default();
        let (s, e) = self.lines(2);
        for (i, l) in s.into_iter().enumerate() {
            p.src.push(if i == 0 { format!("{marker} {l}") } else { l });
        }
        Self::put(&mut p, depth, format!("listItem {e}"));
        self.under_item(&mut p, depth, used, lists);
        p
    }
    /// nested lists and continued blocks
    fn under_item(&mut self, p: &mut Part, depth: usize, used: &str, lists: &str) {
        let cont = self.f.blocks.contains(&"cont");
        if cont {
            while self.r.chance(1, 4) {
                p.src.push("+".into());
                let mut q = loop {
                    let k = self.pick(self.f.blocks);
                    if !matches!(k, "ul" | "ol" | "dl" | "break" | "comment" | "cblock" | "image" | "table") {
                        break self.kind(k, depth + 1, used);
                    }
                };
                self.part_of(&mut q);
                Self::push(p, q);
            }
        }
        if self.f.blocks.contains(&"nest") && lists.len() < 3 && self.r.chance(1, 3) {
            let k = *self.r.pick(&["ul", "ol", "dl"]);
            let c = &k[0..1];
            // the first description list is found at the start of a block only
            if !lists.contains(c) && k != "dl" {
                let q = self.list_of(k, depth + 1, used, &format!("{lists}{c}"));
                Self::push(p, q);
            }
        }
    }
    fn list_of(&mut self, k: &str, depth: usize, used: &str, lists: &str) -> Part {
        let mut p = Part::default();
        let count = self.r.range(1, 3);
        match k {
            "dl" => {
                Self::put(&mut p, depth, "dlist".into());
                for _ in 0..count {
                    let t = self.label();
                    let (s, e) = self.lines(1);
                    p.src.push(format!("{t}:: {}", s[0]));
                    Self::put(&mut p, depth + 1, format!("dlistItem [{t}] {e}"));
                    self.under_item(&mut p, depth + 1, used, lists);
                }
            }
            _ => {
                let (m, v) = if k == "ol" { (".", "ordered") } else { ("*", "unordered") };
                Self::put(&mut p, depth, format!("list {v}"));
                for _ in 0..count {
                    let q = self.item(m, depth + 1, used, lists);
                    Self::push(&mut p, q);
                }
            }
        }
        p
    }
    fn kind(&mut self, k: &str, depth: usize, used: &str) -> Part {
        let mut p = Part::default();
        match k {
            "ul" | "ol" | "dl" => return self.list_of(k, depth, used, &k[0..1]),
            "side" | "open" | "example" | "quote" | "admblock" => {
                let (d, name) = match k {
                    "side" => ("****", "sidebar"),
                    "open" => ("--", "open"),
                    "quote" => ("____", "quote"),
                    _ => ("====", "example"),
                };
                if used.contains(d) || used.len() > 9 {
                    return self.kind("para", depth, used);
                }
                let mut inner = depth;
                let mut head = name.to_string();
                if k == "admblock" {
                    let (s, v) = *self.r.pick(&[("NOTE", "note"), ("TIP", "tip"), ("WARNING", "warning"), ("IMPORTANT", "important"), ("CAUTION", "caution")]);
                    p.src.push(format!("[{s}]"));
                    Self::put(&mut p, depth, format!("admonition {v}"));
                    inner += 1;
                } else if k == "quote" && self.r.chance(1, 2) {
                    let (a, b) = (self.word(), self.word());
                    p.src.push(format!("[quote, {a}, {b}]"));
                    head = format!("quote{{attribution={a} citation={b}}}");
                } else if k != "open" && self.f.meta && self.r.chance(1, 4) {
                    let t = self.label();
                    p.src.push(format!(".{t}"));
                    head = format!("{name} '{t}'");
                }
                Self::put(&mut p, inner, head);
                p.src.push(d.into());
                let mut q = self.seq(1, 3, inner + 1, &format!("{used}{d} "));
                self.part_of(&mut q);
                Self::push(&mut p, q);
                p.src.push(d.into());
            }
            "listing" | "literal" | "pass" => {
                let d = match k {
                    "listing" => "----",
                    "literal" => "....",
                    _ => "++++",
                };
                let ls = self.verbatim(d);
                let mut head = k.to_string();
                if k == "listing" && self.r.chance(1, 3) {
                    let l = *self.r.pick(&["rust", "python", "c"]);
                    p.src.push(format!("[source,{l}]"));
                    head = format!("listing{{language={l}}}");
                }
                p.src.push(d.into());
                p.src.extend(ls.iter().cloned());
                p.src.push(d.into());
                Self::put(&mut p, depth, format!("{head} {:?}", ls.join("\n")));
            }
            "verse" => {
                if used.contains("____") {
                    return self.kind("para", depth, used);
                }
                let mut ls = vec![];
                for i in 0..self.r.range(1, 4) {
                    if i > 0 && self.r.chance(1, 4) {
                        ls.push(String::new());
                    }
                    ls.push(self.words(1, 3));
                }
                p.src.push("[verse]".into());
                p.src.push("____".into());
                p.src.extend(ls.iter().cloned());
                p.src.push("____".into());
                Self::put(&mut p, depth, format!("verse {:?}", ls.join("\n")));
            }
            "note" => {
                let (s, v) = *self.r.pick(&[("NOTE", "note"), ("TIP", "tip"), ("WARNING", "warning"), ("IMPORTANT", "important"), ("CAUTION", "caution")]);
                let (l, e) = self.lines(2);
                p.src.push(format!("{s}: {}", l[0]));
                p.src.extend(l[1..].iter().cloned());
                Self::put(&mut p, depth, format!("admonition {v}"));
                Self::put(&mut p, depth + 1, format!("paragraph {e}"));
            }
            "table" => {
                if used.contains("|===") {
                    return self.kind("para", depth, used);
                }
                let cols = self.r.range(1, 4);
                let rows = self.r.range(1, 3);
                // a table of one column needs to say so, as does one with a cell to a line
                let spec = self.r.chance(1, 3) || cols == 1;
                let single = spec && self.r.chance(1, 2) || cols == 1;
                // cells of the first row next to each other make it the header
                let head = cols > 1 && !single;
                let blank = rows > 1 && !single && self.r.chance(1, 3);
                let mut args: Vec<String> = vec![];
                if spec {
                    args.push(if self.r.chance(1, 2) {
                        format!("cols={cols}")
                    } else {
                        format!("cols=\"{}\"", (0..cols).map(|_| if cols == 1 { 1 } else { self.r.range(1, 4) }.to_string()).collect::<Vec<_>>().join(","))
                    });
                }
                if !args.is_empty() {
                    p.src.push(format!("[{}]", args.join(",")));
                }
                Self::put(&mut p, depth, format!("table{{cols={cols}{}}}", if head { " %header" } else { "" }));
                p.src.push("|===".into());
                for i in 0..rows {
                    let mut row = vec![];
                    for _ in 0..cols {
                        let (s, e) = self.line(1, 2, "t");
                        row.push(format!("| {s}"));
                        Self::put(&mut p, depth + 1, format!("tableCell {e}"));
                    }
                    if single {
                        p.src.extend(row);
                    } else {
                        p.src.push(row.join(" "));
                    }
                    if i == 0 && blank {
                        p.src.push(String::new());
                    }
                }
                p.src.push("|===".into());
            }
            "break" => {
                let (s, v) = *self.r.pick(&[("'''", "thematic"), ("<<<", "page")]);
                p.src.push(s.into());
                Self::put(&mut p, depth, format!("break {v}"));
            }
            "image" => {
                self.ids += 1;
                let t = format!("i{}.png", self.ids);
                let mut head = format!("image {t}");
                if self.r.chance(1, 3) {
                    let c = self.label();
                    p.src.push(format!(".{c}"));
                    head.push_str(&format!(" '{c}'"));
                }
                let alt = if self.r.chance(1, 2) { self.words(1, 2) } else { String::new() };
                p.src.push(format!("image::{t}[{alt}]"));
                Self::put(&mut p, depth, head);
            }
            "comment" => {
                p.src.push(format!("// {}", self.word()));
            }
            "cblock" => {
                p.src.push("////".into());
                p.src.push(self.word());
                p.src.push("////".into());
            }
            _ => {
                let (s, e) = self.lines(3);
                p.src.extend(s);
                Self::put(&mut p, depth, format!("paragraph {e}"));
            }
        }
        p
    }
    fn block(&mut self, depth: usize, used: &str) -> Part {
        let k = loop {
            let k = self.pick(self.f.blocks);
            if k != "nest" && k != "cont" {
                break k;
            }
        };
        let mut q = self.kind(k, depth, used);
        // an id and a role for the block; the first line of its view is the block itself
        if self.f.meta && self.r.chance(1, 3) && !matches!(k, "break" | "comment" | "cblock" | "note" | "admblock" | "image") {
            let mut m = vec![];
            let mut src = vec![];
            if self.r.chance(1, 2) {
                let id = self.id();
                src.push(format!("[[{id}]]"));
                m.push(format!("id={id}"));
            }
            if m.is_empty() || self.r.chance(1, 2) {
                let r = self.word();
                let at = self.r.below(src.len() + 1);
                src.insert(at, format!("[role={r}]"));
                m.push(format!(".{r}"));
            }
            let first = &mut q.exp[0];
            let lead = first.len() - first.trim_start().len();
            let at = first[lead..].find([' ', '{']).map(|x| x + lead).unwrap_or(first.len());
            let at = match first[lead..].starts_with("list ") {
                true => first.len(),
                false => at,
            };
            if first[at..].starts_with('{') {
                // id first, then the block's own attributes, then roles, then options
                let end = first[at..].find('}').unwrap() + at;
                let own = first[at + 1..end].to_string();
                let mut all: Vec<String> = m.iter().filter(|x| x.starts_with("id=")).cloned().collect();
                all.extend(own.split(' ').filter(|x| !x.starts_with('%')).map(|x| x.to_string()));
                all.extend(m.iter().filter(|x| x.starts_with('.')).cloned());
                all.extend(own.split(' ').filter(|x| x.starts_with('%')).map(|x| x.to_string()));
                first.replace_range(at..=end, &format!("{{{}}}", all.join(" ")));
            } else {
                first.insert_str(at, &format!("{{{}}}", m.join(" ")));
            }
            // the block may have an attribute list of its own
            let own = q.src.first().is_some_and(|l| l.starts_with('[') && l.ends_with(']'));
            let at = if own && self.r.chance(1, 2) { 1 } else { 0 };
            q.src.splice(at..at, src);
        }
        q
    }
    /// sometimes puts blocks into a file; the line that is left stands for the include
    fn part_of(&mut self, q: &mut Part) {
        if let Some(apart) = &mut self.apart
            && self.r.chance(1, 3)
        {
            let n = apart.len();
            apart.push(std::mem::replace(&mut q.src, vec![format!("\u{1}{n}")]));
        }
    }
    /// what goes into the file that is open: includes of further files, headings by their offset
    fn emit(&mut self, lines: &[String], dir: &str, offset: i64, files: &mut Vec<(String, String)>) -> Vec<String> {
        lines
            .iter()
            .map(|l| {
                if let Some(n) = l.strip_prefix('\u{1}') {
                    let part = self.apart.as_ref().unwrap()[n.parse::<usize>().unwrap()].clone();
                    let (sub, name) = self.file(dir);
                    let text = self.emit(&part, &sub, offset, files);
                    self.write(&format!("{sub}{name}"), text, files);
                    format!("include::{}{name}[]", &sub[dir.len()..])
                } else if let Some(h) = l.strip_prefix('\u{2}') {
                    let (k, t) = h.split_once(' ').unwrap();
                    format!("{} {t}", "=".repeat((k.parse::<i64>().unwrap() + 1 - offset) as usize))
                } else {
                    l.clone()
                }
            })
            .collect()
    }
    fn file(&mut self, dir: &str) -> (String, String) {
        self.ids += 1;
        let end = *self.r.pick(&["adoc", "adoc", "asciidoc", "txt"]);
        let sub = if self.r.chance(1, 3) { format!("{dir}d{}/", self.ids) } else { dir.to_string() };
        (sub, format!("f{}.{end}", self.ids))
    }
    fn write(&mut self, name: &str, mut text: Vec<String>, files: &mut Vec<(String, String)>) {
        while text.last().is_some_and(|l| l.is_empty()) {
            text.pop();
        }
        let mut s = text.join("\n");
        if self.r.chance(3, 4) || s.ends_with("\n--") {
            s.push('\n');
        }
        files.push((name.to_string(), s));
    }
    /// runs of blocks become files
    fn weave(&mut self, parts: &[(Vec<String>, Option<usize>)], next: Option<usize>, dir: &str, offset: i64, depth: usize, files: &mut Vec<(String, String)>) -> Vec<String> {
        let mut out = vec![];
        let mut i = 0;
        while i < parts.len() {
            let j = self.r.range(i + 1, parts.len().min(i + 3));
            let least = parts[i..j].iter().filter_map(|p| p.1).min();
            let most = parts[i..j].iter().filter_map(|p| p.1).max();
            // the sections of a file end with it
            let fits = match (least, if j < parts.len() { parts[j].1 } else { next }) {
                (None, _) => true,
                (Some(l), Some(n)) => n <= l,
                (Some(_), None) => false,
            };
            if depth == 0 || !fits || self.r.chance(1, 2) {
                let text = self.emit(&parts[i].0, dir, offset, files);
                out.extend(text);
                i += 1;
                continue;
            }
            let (sub, name) = self.file(dir);
            let (mut arg, mut inner) = (String::new(), offset);
            if self.r.chance(1, 2) {
                let to = self.r.range(0, 4) as i64 - 2;
                let ok = least.is_none_or(|l| l as i64 - to >= if to == 0 { 1 } else { 0 }) && most.is_none_or(|m| m as i64 - to <= 4);
                if ok {
                    arg = match self.r.chance(1, 3) && to >= 0 {
                        true => format!("leveloffset={to}"),
                        false => format!("leveloffset={:+}", to - offset),
                    };
                    inner = to;
                }
            }
            let text = self.weave(&parts[i..j], if j < parts.len() { parts[j].1 } else { next }, &sub, inner, depth - 1, files);
            self.write(&format!("{sub}{name}"), text, files);
            out.push(format!("include::{}{name}[{arg}]", &sub[dir.len()..]));
            out.push(String::new());
            i = j;
        }
        out
    }
    /// a document with files, and the tree
    pub fn woven(&mut self, size: usize) -> (String, Vec<(String, String)>, Vec<String>) {
        self.apart = Some(vec![]);
        let p = self.build(size);
        let mut cuts = std::mem::take(&mut self.cuts);
        let mut lines = p.src;
        while lines.last().is_some_and(|l| l.is_empty()) {
            lines.pop();
        }
        lines.push(String::new());
        for (at, level) in &cuts {
            if let Some(l) = level {
                let k = (*at..lines.len()).find(|k| lines[*k].starts_with(&"=".repeat(l + 1))).unwrap();
                lines[k] = format!("\u{2}{l}{}", &lines[k][l + 1..]);
            }
        }
        cuts.push((lines.len(), None));
        let parts: Vec<_> = cuts.windows(2).map(|w| (lines[w[0].0..w[1].0.max(w[0].0)].to_vec(), w[0].1)).collect();
        let mut files = vec![];
        let mut main = lines[..cuts[0].0].to_vec();
        // what comes after the last block is a heading of no level
        main.extend(self.weave(&parts, Some(0), "", 0, 3, &mut files));
        let mut out = vec![];
        self.write("main.adoc", main, &mut out);
        (out.remove(0).1, files, p.exp)
    }
    pub fn document(&mut self, size: usize) -> (String, Vec<String>) {
        let mut p = self.build(size);
        while p.src.last().map(|l| l.is_empty()).unwrap_or(false) {
            p.src.pop();
        }
        let mut s = p.src.join("\n");
        if self.r.chance(3, 4) || s.ends_with("\n--") {
            s.push('\n');
        }
        (s, p.exp)
    }
    fn build(&mut self, size: usize) -> Part {
        let mut p = Part::default();
        if self.f.header && self.r.chance(1, 2) {
            let (s, t) = self.line(1, 3, "");
            p.src.push(format!("= {s}"));
            Self::put(&mut p, 0, format!("header '{t}'"));
            for i in 0..self.r.range(0, 3) {
                let n = match self.r.below(5) {
                    0 => format!("my-attr{i}"),
                    1 => format!("Attr_{i}"),
                    _ => format!("attr{i}"),
                };
                let mut v = self.words(1, 2);
                match self.r.below(8) {
                    0 => v.push_str(": 1"),
                    1 => v = format!("{n} {v}"),
                    2 => v = format!("(*{v}* {n}:{v})"),
                    _ => {}
                }
                if self.r.chance(1, 4) {
                    // the last definition counts
                    let old = self.words(1, 1);
                    p.src.push(format!(":{n}: {old}"));
                }
                p.src.push(format!(":{n}: {v}"));
                self.attrs.push((n, v));
            }
            p.src.push(String::new());
        }
        // the headings first, so that text ahead of them can refer to them
        let mut plan: Vec<Option<(usize, String, String, Option<String>)>> = vec![];
        let mut titles = vec![];
        let mut level = 0;
        for _ in 0..self.r.range(1, size) {
            if self.f.sections && self.r.chance(2, 5) {
                level = self.r.range(1, (level + 1).min(4));
                let (s, t) = self.line(1, 3, "");
                let id = if self.f.inl.contains(&"xref") || self.f.meta && self.r.chance(1, 3) { Some(self.id()) } else { None };
                if let Some(id) = &id {
                    titles.push((id.clone(), t.clone()));
                }
                plan.push(Some((level, s, t, id)));
            } else {
                plan.push(None);
            }
        }
        self.titles = titles;
        let mut depth = 0;
        let mut last_list = false;
        for step in plan {
            self.cuts.push((p.src.len(), step.as_ref().map(|s| s.0)));
            match step {
                Some((l, s, t, id)) => {
                    if let Some(id) = &id {
                        p.src.push(format!("[[{id}]]"));
                    }
                    p.src.push(format!("{} {s}", "=".repeat(l + 1)));
                    let m = id.map(|i| format!("{{id={i}}}")).unwrap_or_default();
                    Self::put(&mut p, l - 1, format!("section {l}{m} '{t}'"));
                    depth = l;
                    last_list = false;
                }
                None => {
                    let mut q = self.block(depth, "");
                    let is_list = q.exp.first().map(|l| {
                        let l = l.trim_start();
                        l.starts_with("list ") || l.starts_with("dlist")
                    });
                    if last_list && is_list == Some(true) {
                        q = self.kind("para", depth, "");
                    }
                    last_list = match is_list {
                        Some(x) => x,
                        None => last_list,
                    };
                    Self::push(&mut p, q);
                }
            }
            p.src.push(String::new());
            if self.r.chance(1, 8) {
                p.src.push(String::new());
            }
        }
        p
    }
}

/// one property over documents that are made of the given parts
pub struct Made {
    pub id: &'static str,
    pub feats: &'static [Feat],
}

impl Prop for Made {
    fn id(&self) -> &'static str {
        self.id
    }
    fn case(&self, i: u64, rng: &mut Rng) -> Case {
        let f = &self.feats[i as usize % self.feats.len()];
        let size = match i {
            0..=2000 => 1,
            2001..=10000 => 2,
            10001..=30000 => 4,
            _ => 8,
        };
        let (main, exp) = Doc::new(rng, f).document(size);
        Case { main, files: vec![], args: vec![exp.join("\n")] }
    }
    fn check(&self, c: &Case) -> Verdict {
        let asg = match parse(&c.main) {
            Ok(a) => a,
            Err(e) => return Verdict::Fails(format!("the document is rejected: {e}")),
        };
        let got = view(&serde_json::to_value(&asg).unwrap()).join("\n");
        if got == c.args[0] {
            Verdict::Holds(true)
        } else {
            Verdict::Fails(format!("expected tree:\n{}\ngot:\n{got}", c.args[0]))
        }
    }
    fn total(&self) -> bool {
        true
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "documents written from a random tree, 1 block first, then up to 8 blocks at the top"
    }
}

const fn feat(blocks: &'static [&'static str], inl: &'static [&'static str], meta: bool, sections: bool, header: bool) -> Feat {
    Feat { blocks, inl, meta, sections, header }
}

pub const SECTIONS: Made = Made {
    id: "C02",
    feats: &[feat(&["para", "para", "ul", "listing", "side", "break", "table", "note"], &[], false, true, true)],
};
pub const LISTS: Made = Made {
    id: "C03",
    feats: &[
        feat(&["ul", "ol", "dl", "ul", "ol", "dl", "para", "nest"], &[], false, false, false),
        feat(&["ul", "ol", "dl", "para", "nest", "cont", "listing", "side", "open", "note", "admblock", "quote"], &["span"], false, false, false),
    ],
};
pub const DELIMITED: Made = Made {
    id: "C04",
    feats: &[
        feat(&["para", "side", "open", "example", "quote", "admblock"], &[], false, true, false),
        feat(&["para", "side", "open", "example", "quote", "admblock", "note", "listing", "ul", "ol", "dl", "break", "table", "comment", "image", "verse"], &["span"], true, true, false),
    ],
};
pub const VERBATIM: Made = Made {
    id: "C05",
    feats: &[
        feat(&["listing", "literal", "pass", "para"], &[], false, false, false),
        feat(&["listing", "literal", "pass", "verse", "para", "cblock", "comment", "side", "open", "ul", "cont"], &[], false, true, true),
    ],
};
pub const TABLES: Made = Made {
    id: "C06",
    feats: &[
        feat(&["table", "table", "table", "para"], &[], false, false, false),
        feat(&["table", "table", "para", "side", "ul"], &["span", "link"], true, true, false),
    ],
};
pub const FORMAT: Made = Made {
    id: "C07",
    feats: &[
        feat(&["para"], &["span", "single"], false, false, false),
        feat(&["para"], &["span", "link", "foot", "single"], false, false, false),
        feat(&["para", "para", "ul", "dl", "note"], &["span", "supsub", "quote", "char", "role", "break", "single"], false, true, true),
        feat(&["para", "side", "example", "image", "dl"], &["span", "span", "single"], true, false, false),
    ],
};
pub const REFS: Made = Made {
    id: "C08",
    feats: &[
        feat(&["para"], &["link", "image", "foot", "bracket", "single"], false, false, false),
        feat(&["para", "para", "ul", "side", "table"], &["link", "image", "foot", "xref", "bracket", "span", "break", "single"], false, true, true),
        feat(&["para", "ul", "ol", "dl", "nest", "cont", "side", "example", "quote", "open", "note", "admblock", "table"], &["xref", "xref", "span", "link"], false, true, false),
    ],
};
pub const META: Made = Made {
    id: "C09",
    feats: &[
        feat(&["para", "ul", "ol", "dl", "listing", "literal", "side", "example", "quote", "table", "verse"], &[], true, true, false),
        feat(&["para", "ul", "listing", "side", "open", "table", "break", "image", "comment"], &["span", "role"], true, true, true),
    ],
};
pub const ATTRS: Made = Made {
    id: "C10",
    feats: &[
        feat(&["para"], &["attr", "span"], false, false, true),
        feat(&["para", "ul", "dl", "nest", "cont", "side", "note", "table"], &["attr", "attr", "span", "link", "foot", "quote"], false, true, true),
    ],
};

const ALL: Feat = feat(
    &["para", "side", "open", "example", "quote", "admblock", "note", "listing", "literal", "pass", "ul", "ol", "dl", "break", "table", "comment", "image", "verse"],
    &["span", "supsub", "quote", "char", "role", "break", "link", "image", "foot", "bracket"],
    true,
    true,
    true,
);
pub fn some_doc(i: u64, rng: &mut Rng) -> String {
    Doc::new(rng, &ALL).document(if i < 4000 { 1 } else { 6 }).0
}
const NOTED: Feat = feat(
    &["para", "para", "side", "open", "example", "quote", "admblock", "note", "listing", "ul", "ol", "dl", "nest", "cont", "break", "table", "verse"],
    &["foot", "foot", "foot", "span", "link", "char"],
    true,
    true,
    true,
);
pub fn noted_doc(i: u64, rng: &mut Rng) -> String {
    Doc::new(rng, &NOTED).document(if i < 2000 { 2 } else { 8 }).0
}
const WOVEN: &[Feat] = &[
    feat(&["para", "para", "ul"], &["span"], false, true, false),
    feat(&["para", "side", "open", "example", "quote"], &[], false, true, true),
    feat(
        &["para", "para", "side", "open", "example", "quote", "admblock", "note", "listing", "literal", "pass", "ul", "ol", "dl", "nest", "cont", "break", "table", "image", "verse"],
        &["span", "link", "foot", "char", "attr", "xref"],
        true,
        true,
        true,
    ),
];
pub fn woven_doc(i: u64, rng: &mut Rng) -> (String, Vec<(String, String)>, Vec<String>) {
    Doc::new(rng, &WOVEN[i as usize % WOVEN.len()]).woven(if i < 2000 { 2 } else { 6 })
}
const HTML: Feat = feat(
    &["para", "para", "side", "open", "example", "quote", "admblock", "note", "listing", "literal", "pass", "ul", "ol", "dl", "nest", "cont", "break", "table", "table", "image", "verse"],
    &["span", "supsub", "quote", "char", "role", "break", "link", "image", "foot", "bracket", "xref", "attr"],
    true,
    true,
    true,
);
pub fn html_doc(i: u64, rng: &mut Rng) -> String {
    Doc::new(rng, &HTML).document(if i < 1000 { 1 } else { 6 }).0
}
const PLAIN: Feat = feat(&["para", "para", "ul", "ol", "listing"], &["span"], false, true, true);
pub fn plain_doc(i: u64, rng: &mut Rng) -> String {
    Doc::new(rng, &PLAIN).document(if i < 200 { 1 } else { 3 }).0
}
