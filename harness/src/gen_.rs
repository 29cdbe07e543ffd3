//! Input makers shared by the properties.
use crate::rng::Rng;
use std::sync::OnceLock;

/// pieces of markup, plain text and multi-byte text
pub const PIECES: &[&str] = &[
    "\n", "\n", "\n", "\n\n", " ", " ", "a", "b", "word", "two words", "é", "日本", "…", "“q”", "s", ".", ",", ";", ":", "::", ":: ", "::\n",
    "= ", "== ", "=== ", "==== ", "===== ", "====== ", "=", "==", "====\n", "====", "=>", "<=", "->", "<-", "--", "--\n", "----\n", "----",
    "-----\n", "++++\n", "****\n", "____\n", "////\n", "....\n", "...", "..", "|===\n", "|===", "| cell", "|a |b\n", "|", " |", "'''\n", "'''",
    "<<<\n", "<<<", "<<ref>>", "<<ref,text>>", "<<", ">>", "<1>", "<1> item", "<1>\n", "<12> x", "* ", "** ", "* item\n", ". ", ". item\n", ".Title\n",
    "- ", "*", "_", "`", "#", "+", "^", "~", "**", "__", "``", "##", "++", "*b*", "_e_", "`m`", "[", "]", "[[", "]]", "[[id]]\n", "[[id]]",
    "[.role]", "[.role]#x#", "[quote]\n", "[verse]\n", "[source,rust]\n", "[NOTE]\n", "[TIP]\n", "[IMPORTANT]\n", "[CAUTION]\n", "[WARNING]\n",
    "[role=\"x\"]\n", "[%header]\n", "[cols=\"1,2\"]\n", "[#id.role%opt]\n", "NOTE: ", "TIP: ", "IMPORTANT: ", "CAUTION: ", "WARNING: ",
    ":attr: value\n", ":attr:\n", ":attr", "{attr}", "{", "}", "{a-b}", "{é}", "&amp;", "&", "&#x;", "&é;", "(C)", "(R)", "(TM)", "(",
    "footnote:[", "footnote:[note]", "pass:[", "pass:[x]", "http://a.b", "https://a.b/c?d=e&f", "http://é.b", "http", "link[", "image::x.png[]\n",
    "image::x.png[", "image:x.png[alt]", "image:x", "image: ", "include::x.adoc[]\n", "include::", "tag::a[]", "end::a[]", "// tag::a[]\n",
    "// end::a[]\n", "# tag::a[]\n", "# end::a[]\n", "<!-- tag::a[] -->\n", "<!-- end::a[] -->\n", "// comment\n", "//", "/", "\"`", "`\"", "'`", "`'",
    "'s ", "'", "\"", "+\n", " +\n", "\t", "\r\n", "\0", "x\0", "'s\n", "tag::", "end::", "\\", "%", "!", "?", "…*", "*…", "ﬀ", "🦀",
    ":leveloffset: 1\n", ":leveloffset: +1\n", ":leveloffset: -1\n", ":leveloffset: 300\n", ":icons: true\n", "[quote,a,b,c]\n", "[cols=\"2*\"]\n", "[cols=é*]\n",
    "[\"]\n", "[a=\"]\n", "[é]\n", "term:: def\n", "term::\n", "* a\n+\n", "image::x", "image::x.png[é,\"]\n", "include::x.adoc[leveloffset=+1]\n",
];

pub fn soup(rng: &mut Rng) -> String {
    let n = match rng.below(10) {
        0..=3 => rng.range(1, 4),
        4..=7 => rng.range(3, 12),
        _ => rng.range(8, 40),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(rng.pick(PIECES));
    }
    s
}

/// a document line that starts with markup more often than chance would have it
pub fn linewise(rng: &mut Rng) -> String {
    let n = rng.range(1, 8);
    let mut s = String::new();
    for _ in 0..n {
        for _ in 0..rng.range(0, 4) {
            let mut p = *rng.pick(PIECES);
            if rng.chance(3, 4) {
                p = p.trim_end_matches('\n');
            }
            s.push_str(p);
        }
        if rng.chance(9, 10) {
            s.push('\n');
        }
    }
    s
}

/// an attribute list with names that mean something and values of any kind
pub fn attribute_list(rng: &mut Rng) -> String {
    const KEYS: &[&str] = &["cols", "role", "id", "options", "opts", "width", "height", "alt", "title", "language", "lines", "tags", "tag", "leveloffset", "start", "subs", "x", "é", "window"];
    const WORDS: &[&str] = &["source", "quote", "verse", "NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION", "rust", "stem", "listing", "literal", "appendix", "%header", "%collapsible", "#id", ".role", "a b"];
    const CHARS: &[&str] = &["a", "1", "2", "0", "9", "*", "é", ",", ";", "-", "+", ".", " ", "=", "%", "日", "\"", "..", "~", "<", "'"];
    let value = |rng: &mut Rng| -> String { (0..rng.range(0, 4)).map(|_| *rng.pick(CHARS)).collect() };
    let n = rng.range(0, 4);
    let mut items = vec![];
    for _ in 0..n {
        items.push(match rng.below(8) {
            0 | 1 => rng.pick(WORDS).to_string(),
            2 => value(rng),
            3 => format!("\"{}\"", value(rng)),
            4 | 5 => format!("{}={}", rng.pick(KEYS), value(rng)),
            _ => format!("{}=\"{}\"", rng.pick(KEYS), value(rng)),
        });
    }
    items.join(if rng.chance(1, 2) { "," } else { ", " })
}

/// whole blocks of any kind with any attributes, one after the other
pub fn blocks(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 4) {
        for _ in 0..rng.below(3) {
            match rng.below(6) {
                0 => s.push_str("[[id]]\n"),
                1 => s.push_str(".Title\n"),
                _ => {
                    s.push_str(&format!("[{}]\n", attribute_list(rng)));
                }
            }
        }
        let inner = |rng: &mut Rng| -> String {
            let mut t = String::new();
            for _ in 0..rng.range(0, 4) {
                t.push_str(rng.pick(PIECES).trim_end_matches('\n'));
            }
            t
        };
        let a = inner(rng);
        match rng.below(12) {
            0 | 1 => {
                s.push_str("|===\n");
                for _ in 0..rng.range(0, 4) {
                    for _ in 0..rng.range(1, 4) {
                        s.push_str(&format!("|{} ", inner(rng)));
                    }
                    s.push('\n');
                }
                s.push_str("|===\n");
            }
            2 | 3 => {
                let d = *rng.pick(&["----", "....", "++++", "////", "====", "****", "____", "--", "```"]);
                s.push_str(&format!("{d}\n{a}\n{d}\n"));
            }
            4 => s.push_str(&format!("image::{}[{}]\n", rng.pick(&["x.png", "a/b c.jpg", "é"]), attribute_list(rng))),
            5 => s.push_str(&format!("{}image:x.png[{}]{}\n", a, attribute_list(rng), inner(rng))),
            6 => s.push_str(&format!("{} {a}\n", rng.pick(&["*", ".", "=", "==", "===", "====", "<1>", "<.>"]))),
            7 => s.push_str(&format!("{a}:: {}\n", inner(rng))),
            8 => s.push_str(&format!("http://a.b[{}]{a}\n", attribute_list(rng))),
            9 => s.push_str(&format!("a [{}]{}b{} {a}\n", attribute_list(rng), rng.pick(&["#", "*", "_", "`"]), rng.pick(&["#", "*", "_", "`"]))),
            _ => s.push_str(&format!("{a}\n")),
        }
        if rng.chance(1, 2) {
            s.push('\n');
        }
    }
    s
}

/// the asciidoc fixtures in the repository, where there are any
pub fn fixtures() -> &'static Vec<String> {
    static F: OnceLock<Vec<String>> = OnceLock::new();
    F.get_or_init(|| {
        let mut out = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/tests/data")];
        while let Some(d) = dirs.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map(|x| x == "adoc").unwrap_or(false) {
                    if let Ok(s) = std::fs::read_to_string(&p) {
                        if s.len() < 6000 {
                            out.push(s);
                        }
                    }
                }
            }
        }
        out.sort();
        out
    })
}

pub fn mutated(rng: &mut Rng) -> String {
    let f = fixtures();
    if f.is_empty() {
        return soup(rng);
    }
    let mut s: Vec<char> = rng.pick(f).chars().collect();
    for _ in 0..rng.below(4) {
        let i = rng.below(s.len() + 1);
        match rng.below(4) {
            0 if !s.is_empty() => {
                let j = (i + rng.range(1, 6)).min(s.len());
                s.drain(i.min(j)..j);
            }
            1 => s.truncate(i),
            _ => {
                let p: Vec<char> = rng.pick(PIECES).chars().collect();
                s.splice(i..i, p);
            }
        }
    }
    s.into_iter().collect()
}

const ALPHABET: &[&str] = &[
    "\n", " ", "a", "s", "é", "=", "-", "*", "/", "'", "<", ">", "[", "]", ":", ".", "+", "|", "`", "#", "(", "C)", "t", "ag::", "end::", "{", "}", "&", ";",
    "http", "_", "\"", "image:", "\0", "1",
];

/// i-th string over the alphabet, shortest first
pub fn exhaustive(mut i: u64) -> Option<String> {
    let k = ALPHABET.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= k;
        len += 1;
        if len > 3 {
            return None;
        }
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(ALPHABET[(i % k) as usize]);
        i /= k;
    }
    Some(s)
}

/// any document: short ones exhaustively, then random ones
pub fn any_doc(i: u64, rng: &mut Rng) -> String {
    if let Some(s) = exhaustive(i) {
        return s;
    }
    match rng.below(10) {
        0..=2 => soup(rng),
        3..=5 => linewise(rng),
        6 | 7 => blocks(rng),
        _ => mutated(rng),
    }
}

const WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "word", "étude", "日本", "one", "x", "lorem", "ipsum", "zéro"];

pub fn word(rng: &mut Rng) -> String {
    rng.pick(WORDS).to_string()
}
pub fn words(rng: &mut Rng, lo: usize, hi: usize) -> String {
    let n = rng.range(lo, hi);
    (0..n).map(|_| word(rng)).collect::<Vec<_>>().join(" ")
}
