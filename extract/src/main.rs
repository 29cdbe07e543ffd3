//! Mechanical extractor: reads a unit file (contracts + prelude) and the current sources of the
//! repository, and writes one Verus file in which every function body is the repository's own text.
//!
//! Edits made to the repository's text are only the ones listed in a unit (`method`, `path`,
//! `macro`, ...) plus the fixed ones below; each applied edit is counted and reported in the map.
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::fs;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default, Clone)]
struct FnSpec {
    contract: Option<String>,
    also: String,
    loops: HashMap<usize, String>,
    hints: Vec<(String, String)>, // (anchor, text)
    external: bool,
    skip: bool,
    attrs: Vec<String>,
    closures: HashMap<usize, String>,
    fors: HashMap<usize, String>,
}

#[derive(Clone)]
struct MethodRule {
    name: String,
    cond: Option<String>, // lit=str | lit=char | nargs=N | in=Type::fn | recv=regex-ish text
    shim: String,
    prefix: String,
}

enum Item {
    Raw(String),
    Types { file: String, names: Vec<String> },
    Impl { file: String, ty: String, only: Option<Vec<String>>, except: Vec<String> },
    Fns { file: String, names: Vec<String> },
    Consts { file: String, names: Vec<String> },
}

#[derive(Default)]
struct Unit {
    header: String,
    items: Vec<Item>,
    specs: HashMap<String, FnSpec>,
    defaults: Vec<(String, String)>,
    default_loop: Option<String>,
    default_loops: Vec<(String, String)>,
    methods: Vec<MethodRule>,
    paths: Vec<(String, String)>,
    types: Vec<(String, String)>,
    macros: Vec<(String, String)>,
    drop_stmt_macros: Vec<String>,
    rewrite_try: Option<String>,
    eqs: Vec<(String, String)>,
    reveal_strlits: bool,
    split_match: Vec<String>,
    lit_lemma: Vec<String>,
    attr_all: Vec<String>,
    slices: Vec<(String, String, String)>,
    prologue: Vec<(String, String)>,
    derive_structural: Vec<String>,
    opaque_types: Vec<String>,
    drop_fields: Vec<(String, String)>,
    unguard: Vec<String>,
}

/// With EXTRACT_ONLY=ID, clauses tagged for other properties only (`// [A02]`, without a `+`) are left out.
fn only_tagged(body: &str) -> String {
    let Ok(id) = std::env::var("EXTRACT_ONLY") else { return body.to_string() };
    body.lines()
        .filter(|l| match l.rfind("// [") {
            Some(k) if l.trim_end().ends_with(']') => {
                let tags = l[k + 4..].trim_end().trim_end_matches(']');
                tags.split_whitespace().any(|t| t == id || t == "+")
            }
            _ => true,
        })
        .map(|l| format!("{l}\n"))
        .collect()
}

fn parse_unit(text: &str, dir: &std::path::Path, u: &mut Unit) {
    let mut cur: Option<(String, String)> = None; // directive, body
    let mut out: Vec<(String, String)> = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("//!") {
            if let Some(c) = cur.take() {
                out.push(c)
            }
            cur = Some((rest.trim().to_string(), String::new()));
        } else if let Some(c) = cur.as_mut() {
            c.1.push_str(line);
            c.1.push('\n');
        }
    }
    if let Some(c) = cur.take() {
        out.push(c)
    }
    for (d, body) in out {
        let body = if d == "raw" { body } else { only_tagged(&body) };
        let mut w = d.split_whitespace();
        let key = w.next().unwrap_or("");
        let args: Vec<String> = w.map(|s| s.to_string()).collect();
        match key {
            "use" => {
                let p = dir.join(&args[0]);
                let t = fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("unit include {p:?}: {e}")));
                parse_unit(&t, dir, u);
            }
            "header" => u.header.push_str(&body),
            "raw" => u.items.push(Item::Raw(body)),
            "types" => u.items.push(Item::Types { file: args[0].clone(), names: args[1..].to_vec() }),
            "consts" => u.items.push(Item::Consts { file: args[0].clone(), names: args[1..].to_vec() }),
            "impl" => {
                let mut only = None;
                let mut except = vec![];
                if args.len() > 2 {
                    if args[2] == "only" {
                        only = Some(args[3..].to_vec());
                    } else if args[2] == "except" {
                        except = args[3..].to_vec();
                    }
                }
                u.items.push(Item::Impl { file: args[0].clone(), ty: args[1].clone(), only, except })
            }
            "fns" => u.items.push(Item::Fns { file: args[0].clone(), names: args[1..].to_vec() }),
            "contract" => u.specs.entry(args[0].clone()).or_default().contract = Some(body),
            // more postconditions, on top of the contract (or the default one)
            "also" => u.specs.entry(args[0].clone()).or_default().also.push_str(&body),
            "external" => {
                let s = u.specs.entry(args[0].clone()).or_default();
                s.external = true;
                s.contract = Some(body);
            }
            "attr" => u.specs.entry(args[0].clone()).or_default().attrs.push(args[1..].join(" ")),
            "skip" => {
                for a in &args {
                    u.specs.entry(a.clone()).or_default().skip = true
                }
            }
            "loop" => {
                u.specs
                    .entry(args[0].clone())
                    .or_default()
                    .loops
                    .insert(args[1].parse().unwrap(), body);
            }
            // closure FN K: the closure's parameters with types, its result and its contract
            "closure" => {
                u.specs.entry(args[0].clone()).or_default().closures.insert(args[1].parse().unwrap(), body.trim().to_string());
            }
            // for FN K => shim: the loop goes over shim(e) instead of e
            "for" => {
                u.specs.entry(args[0].clone()).or_default().fors.insert(args[1].parse().unwrap(), args[3..].join(" "));
            }
            "hint" => u
                .specs
                .entry(args[0].clone())
                .or_default()
                .hints
                .push((args[1..].join(" "), body)),
            "default" => u.defaults.push((args.join(" "), body)),
            "default-loop" => {
                if args.is_empty() {
                    u.default_loop = Some(body)
                } else {
                    u.default_loops.push((args.join(" "), body))
                }
            }
            "method" => {
                // method NAME [cond] => shim [prefix]
                let pos = args.iter().position(|a| a == "=>").unwrap();
                u.methods.push(MethodRule {
                    name: args[0].clone(),
                    cond: if pos > 1 { Some(args[1..pos].join(" ")) } else { None },
                    shim: args[pos + 1].clone(),
                    prefix: args.get(pos + 2).cloned().unwrap_or_default(),
                });
            }
            "path" => u.paths.push((args[0].clone(), args[2].clone())),
            "type" => u.types.push((args[0].clone(), args[2..].join(" "))),
            "macro" => u.macros.push((args[0].clone(), args[2..].join(" "))),
            "drop-macro" => u.drop_stmt_macros.extend(args),
            "eq" => u.eqs.push((args[0].clone(), args[2].clone())),
            "attr-all" => u.attr_all.push(args.join(" ")),
            // facts about a function's string literals come from a generated lemma instead of reveal_strlit
            "lit-lemma" => u.lit_lemma.extend(args),
            // verify a function once per arm of its last `match`, the other arms being cut off
            "split-match" => u.split_match.extend(args),
            "prologue" => u.prologue.push((args.join(" "), body)),
            // slice BASETEXT|in=Type::fn => shim [prefix]: `BASE[a..b]` on strings
            "slice" => u.slices.push((args[0].clone(), args[2].clone(), args.get(3).cloned().unwrap_or_default())),
            "reveal-strlits" => u.reveal_strlits = true,
            "try" => u.rewrite_try = Some(args.join(" ")),
            "structural" => u.derive_structural.extend(args),
            "opaque" => u.opaque_types.extend(args),
            // unguard FN: `match e { p if g => a, _ => b }` as `match e { p => if g { a } else { b }, _ => b }`, and matches! likewise
            "unguard" => u.unguard.extend(args),
            "drop-field" => u.drop_fields.push((args[0].clone(), args[1].clone())),
            "" | "#" => {}
            other => die(&format!("unknown directive {other}")),
        }
    }
}

fn die(m: &str) -> ! {
    eprintln!("EXTRACT-ERROR: {m}");
    std::process::exit(3)
}

struct Src {
    text: String,
    file: syn::File,
    byte_of_line: Vec<usize>,
}

impl Src {
    fn load(repo: &str, path: &str) -> Src {
        let text = fs::read_to_string(format!("{repo}/{path}"))
            .unwrap_or_else(|e| die(&format!("cannot read {path}: {e}")));
        let file = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("cannot parse {path}: {e}")));
        let mut byte_of_line = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                byte_of_line.push(i + 1)
            }
        }
        Src { text, file, byte_of_line }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        // column is in chars
        let ls = self.byte_of_line[lc.line - 1];
        let line = &self.text[ls..];
        let mut o = ls;
        for (n, c) in line.chars().enumerate() {
            if n == lc.column {
                break;
            }
            o += c.len_utf8();
        }
        o
    }
    fn range(&self, s: Span) -> Range<usize> {
        self.off(s.start())..self.off(s.end())
    }
}

struct Edits<'a> {
    src: &'a Src,
    unit: &'a Unit,
    spec: &'a FnSpec,
    fn_name: String,
    list: Vec<(Range<usize>, String)>,
    n_loops: usize,
    n_closures: usize,
    log: &'a mut BTreeMap<String, usize>,
    self_assoc: HashMap<String, String>,
    calls: BTreeMap<String, usize>,
    strlits: BTreeSet<String>,
    missing_loop_specs: usize,
    kinds: String,
}

impl<'a> Edits<'a> {
    fn note(&mut self, k: String) {
        *self.log.entry(k).or_insert(0) += 1
    }
    fn loop_text(&mut self) -> String {
        let k = self.n_loops;
        self.n_loops += 1;
        if let Some(t) = self.spec.loops.get(&k) {
            return t.clone();
        }
        for (pat, t) in &self.unit.default_loops {
            if self.fn_name.starts_with(pat.as_str()) {
                return t.clone();
            }
        }
        if let Some(t) = &self.unit.default_loop {
            return t.clone();
        }
        self.missing_loop_specs += 1;
        String::new()
    }
    fn hints_for(&self, anchor: &str) -> String {
        self.spec
            .hints
            .iter()
            .filter(|(a, _)| a == anchor || wild(a, anchor))
            .map(|(_, t)| t.clone())
            .collect::<Vec<_>>()
            .join("\n")
    }
    fn ins(&mut self, at: usize, t: String) {
        self.list.push((at..at, t));
    }
    fn loop_body(&mut self, k: usize, body: &syn::Block) {
        let r = self.src.range(body.span());
        let s = self.hints_for(&format!("loop {k} start"));
        if !s.is_empty() {
            self.ins(r.start + 1, format!(" {s} "));
        }
        let a = self.hints_for(&format!("loop {k} after"));
        if !a.is_empty() {
            self.ins(r.end, format!(" {a} "));
        }
        let e = self.hints_for(&format!("loop {k} end"));
        if !e.is_empty() {
            // body must be unit-valued; close the tail expression with a semicolon
            let needs_semi = matches!(body.stmts.last(), Some(syn::Stmt::Expr(_, None)));
            self.ins(r.end - 1, format!("{} {e} ", if needs_semi { ";" } else { "" }));
        }
    }
    fn last_two(&mut self, pat: &syn::Pat, expr: &syn::Expr) {
        let (syn::Pat::Slice(s), syn::Expr::MethodCall(c)) = (pat, expr) else { return };
        if c.method != "as_slice" || s.elems.len() != 3 || !matches!(s.elems[0], syn::Pat::Rest(_)) {
            return;
        }
        self.note("`[.., a, b] = v.as_slice()` => `Some((a, b)) = sh_last_two(&v)`".into());
        let p = self.src.range(s.span());
        let a = self.src.range(s.elems[1].span());
        let b = self.src.range(s.elems[2].span());
        self.list.push((p.start..a.start, "Some((".into()));
        self.list.push((b.end..p.end, "))".into()));
        let whole = self.src.range(c.span());
        let recv = self.src.range(c.receiver.span());
        self.ins(whole.start, "sh_last_two(&".into());
        self.list.push((recv.end..whole.end, ")".into()));
    }
    fn mac(&mut self, m: &syn::Macro, span: Span, is_stmt: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let r = self.src.range(span);
        if name == "matches" {
            // the match it stands for
            struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
            impl syn::parse::Parse for M {
                fn parse(i: syn::parse::ParseStream) -> syn::Result<M> {
                    let e = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.parse::<Option<syn::Token![if]>>()?.is_some() { Some(i.parse()?) } else { None };
                    i.parse::<Option<syn::Token![,]>>()?;
                    Ok(M(e, p, g))
                }
            }
            if let Ok(M(e, p, g)) = m.parse_body::<M>() {
                let er = self.src.range(e.span());
                let pr = self.src.range(p.span());
                self.list.push((r.start..er.start, "(match ".into()));
                self.list.push((er.end..pr.start, " { ".into()));
                let (mut end, mut then) = (pr.end, " => true, _ => false })");
                self.visit_expr(&e);
                if let Some(g) = &g {
                    let gr = self.src.range(g.span());
                    let unguard = self.unit.unguard.contains(&self.fn_name);
                    self.list.push((pr.end..gr.start, if unguard { " => " } else { " if " }.into()));
                    self.visit_expr(g);
                    end = gr.end;
                    if unguard {
                        then = ", _ => false })";
                    }
                }
                self.list.push((end..r.end, then.into()));
                self.note("matches!(e, p) => match e { p => true, _ => false }".into());
                return;
            }
        }
        if name == "format" && self.unit.macros.iter().any(|(n, t)| n == "format" && t == "@show") {
            let es = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
            let lit = es.as_ref().ok().and_then(|es| match es.first() {
                Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) => Some(l.value()),
                _ => None,
            });
            if let (Ok(es), Some(lit)) = (es, lit) {
                let parts: Vec<&str> = lit.split("{}").collect();
                if parts.len() == es.len() && !parts.iter().any(|p| p.contains(['{', '}'])) {
                    // the text and the arguments, appended in turn
                    let mut at = r.start;
                    let mut t = format!("({{ let mut f_ = String::new(); f_.push_str({:?}); ", parts[0]);
                    for (k, e) in es.iter().enumerate().skip(1) {
                        let er = self.src.range(e.span());
                        self.list.push((at..er.start, format!("{t}f_.push_str(sh_show(&({}", "")));
                        self.visit_expr(e);
                        at = er.end;
                        t = format!(")).as_str()); f_.push_str({:?}); ", parts[k]);
                    }
                    for p in &parts {
                        self.strlits.insert(format!("{p:?}"));
                    }
                    self.list.push((at..r.end, format!("{t}f_ }})")));
                    self.note("format!(..) => the pieces and sh_show(&argument), appended in turn".into());
                    return;
                }
            }
            // only names written into the text
            let lit = m.parse_body::<syn::LitStr>().ok().map(|l| l.value());
            if let Some(lit) = lit {
                let mut out = String::from("({ let mut f_ = String::new(); ");
                let mut rest = lit.as_str();
                let mut ok = true;
                while let Some(i) = rest.find(['{', '}']) {
                    let name = rest[i..].strip_prefix('{').and_then(|t| t.split_once('}')).map(|(n, t)| (n.to_string(), t));
                    match name {
                        Some((n, t)) if syn::parse_str::<syn::Ident>(&n).is_ok() => {
                            let p = &rest[..i];
                            out.push_str(&format!("f_.push_str({p:?}); f_.push_str(sh_show(&({n})).as_str()); "));
                            self.strlits.insert(format!("{p:?}"));
                            rest = t;
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    out.push_str(&format!("f_.push_str({rest:?}); f_ }})"));
                    self.strlits.insert(format!("{rest:?}"));
                    self.list.push((r, out));
                    self.note("format!(..) => the pieces and sh_show(&argument), appended in turn".into());
                    return;
                }
            }
            self.note("format!(..) => vformat()".into());
            self.list.push((r, "vformat()".into()));
            return;
        }
        if name == "vec" && !self.unit.macros.iter().any(|(n, _)| n == "vec") {
            // the elements are visited in place
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in &es {
                    self.visit_expr(e);
                }
            }
            return;
        }
        if self.unit.drop_stmt_macros.contains(&name) {
            self.note(format!("dropped macro {name}!"));
            let mut r = r;
            if is_stmt {
                // keep a following semicolon harmless
                r.end = r.end.max(r.start);
            }
            self.list.push((r, "()".into()));
            return;
        }
        if let Some((_, to)) = self.unit.macros.iter().find(|(n, _)| *n == name) {
            self.note(format!("macro {name}! => {to}"));
            self.list.push((r, to.clone()));
        }
    }
}

/// `loop * start` stands for every `loop K start`
fn wild(a: &str, anchor: &str) -> bool {
    match (a.strip_prefix("loop * "), anchor.strip_prefix("loop ")) {
        (Some(w), Some(r)) => r.split_once(' ').map(|(_, x)| x) == Some(w),
        _ => false,
    }
}

fn lit_kind(e: &syn::Expr) -> Option<&'static str> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(_) => Some("str"),
            syn::Lit::Char(_) => Some("char"),
            syn::Lit::Int(_) => Some("int"),
            _ => None,
        },
        syn::Expr::Array(_) => Some("array"),
        syn::Expr::Closure(_) => Some("closure"),
        syn::Expr::Range(_) => Some("range"),
        syn::Expr::Reference(r) => match &*r.expr {
            _ if r.mutability.is_some() => Some("refmut"),
            _ => Some("ref"),
        },
        _ => None,
    }
}

impl<'ast, 'a> Visit<'ast> for Edits<'a> {
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
        self.kinds.push_str("while ");
        let k = self.n_loops;
        let t = self.loop_text();
        let b = self.src.range(n.body.span());
        let before = self.hints_for(&format!("loop {k} before"));
        if !before.is_empty() {
            self.ins(self.src.range(n.span()).start, format!("{before} "));
        }
        self.ins(b.start, format!("\n{t}\n"));
        self.loop_body(k, &n.body);
        visit::visit_expr_while(self, n);
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        self.kinds.push_str("for ");
        let k = self.n_loops;
        let t = self.loop_text();
        let b = self.src.range(n.body.span());
        // `for x in it: e` form so that invariants can name the iterator
        let it = self.src.range(n.expr.span());
        if t.contains("it_") {
            self.ins(it.start, "it_: ".to_string());
        }
        if let Some(shim) = self.spec.fors.get(&k).cloned() {
            self.note(format!("for over {shim}(..)"));
            self.ins(it.start, format!("{shim}("));
            self.ins(it.end, ")".to_string());
        }
        if let syn::Expr::Reference(m) = &*n.expr {
            if m.mutability.is_some() {
                self.note("for x in &mut v => for x in (v).iter_mut()".into());
                let inner = self.src.range(m.expr.span());
                self.list.push((it.start..inner.start, "(".into()));
                self.ins(it.end, ").iter_mut()".to_string());
            }
        }
        self.ins(b.start, format!("\n{t}\n"));
        self.loop_body(k, &n.body);
        visit::visit_expr_for_loop(self, n);
    }
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
        self.kinds.push_str("loop ");
        let k = self.n_loops;
        let t = self.loop_text();
        let b = self.src.range(n.body.span());
        self.ins(b.start, format!("\n{t}\n"));
        self.loop_body(k, &n.body);
        visit::visit_expr_loop(self, n);
    }
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        let name = n.method.to_string();
        *self.calls.entry(name.clone()).or_insert(0) += 1;
        let recv_text = self.src.text[self.src.range(n.receiver.span())].to_string();
        let mut hit: Option<MethodRule> = None;
        for r in &self.unit.methods {
            if r.name != name {
                continue;
            }
            let ok = match &r.cond {
                None => true,
                Some(c) => c.split_whitespace().all(|c| {
                    if let Some(k) = c.strip_prefix("lit=") {
                        n.args.first().and_then(lit_kind) == Some(k)
                    } else if let Some(k) = c.strip_prefix("nargs=") {
                        n.args.len().to_string() == k
                    } else if let Some(k) = c.strip_prefix("in=") {
                        self.fn_name == k
                    } else if let Some(k) = c.strip_prefix("recv=") {
                        recv_text.contains(k)
                    } else if let Some(k) = c.strip_prefix("recvend=") {
                        recv_text.trim().ends_with(k)
                    } else if let Some(k) = c.strip_prefix("fish=") {
                        n.turbofish.as_ref().map(|t| self.src.text[self.src.range(t.span())].replace(' ', "").contains(k)).unwrap_or(false)
                    } else {
                        die(&format!("bad condition {c}"))
                    }
                }),
            };
            if ok {
                hit = Some(r.clone());
                break;
            }
        }
        let anchor = format!("before-call {name}");
        let h = self.hints_for(&anchor);
        if !h.is_empty() {
            let rr = self.src.range(n.span());
            self.ins(rr.start, format!("({{ {h} "));
            self.ins(rr.end, " })".to_string());
        }
        if let Some(r) = hit {
            self.note(format!("method .{}(..) => {}({})", r.name, r.shim, r.prefix));
            let rr = self.src.range(n.receiver.span());
            let paren_open = self.src.off(n.paren_token.span.open().start());
            if r.shim == "@drop" {
                // drop the call, keep the receiver
                let end = self.src.range(n.span()).end;
                self.list.push((rr.end..end, String::new()));
                self.visit_expr(&n.receiver);
                return;
            }
            if r.shim == "@any" {
                // ['a', 'b'].contains(&x)  ==>  { let any_ = x; any_ == 'a' || any_ == 'b' }
                if let (syn::Expr::Array(a), Some(syn::Expr::Reference(x))) = (&*n.receiver, n.args.first()) {
                    let alts: Vec<String> = a.elems.iter().map(|e| format!("any_ == {}", &self.src.text[self.src.range(e.span())])).collect();
                    let whole = self.src.range(n.span());
                    let xr = self.src.range(x.expr.span());
                    self.list.push((whole.start..xr.start, "({ let any_ = ".to_string()));
                    self.list.push((xr.end..whole.end, format!("; {} }})", alts.join(" || "))));
                    self.visit_expr(&x.expr);
                    return;
                }
                die("contains: not an array literal and a reference");
            }
            if let Some(to) = r.shim.strip_prefix("@rename:") {
                let mr = self.src.range(n.method.span());
                self.list.push((mr, to.to_string()));
                visit::visit_expr_method_call(self, n);
                return;
            }
            self.ins(rr.start, format!("{}({} ", r.shim, r.prefix));
            let sep = if n.args.is_empty() { "" } else { ", " };
            self.list.push((rr.end..paren_open + 1, sep.to_string()));
        }
        visit::visit_expr_method_call(self, n);
    }
    fn visit_expr_match(&mut self, n: &'ast syn::ExprMatch) {
        if let [a, b] = n.arms.as_slice() {
            if let (Some((_, g)), syn::Pat::Wild(_), None, true) = (&a.guard, &b.pat, &b.guard, self.unit.unguard.contains(&self.fn_name)) {
                self.note("`match e { p if g => a, _ => b }` => `match e { p => if g { a } else { b }, _ => b }`".into());
                self.visit_expr(&n.expr);
                let at = self.list.len();
                self.visit_expr(&b.body);
                let other = apply(&self.src.text, self.src.range(b.body.span()), self.list[at..].to_vec());
                let (p, g_, body) = (self.src.range(a.pat.span()), self.src.range(g.span()), self.src.range(a.body.span()));
                self.list.push((p.end..g_.start, " => { if ".into()));
                self.visit_expr(g);
                self.list.push((g_.end..body.start, " { ".into()));
                self.visit_expr(&a.body);
                self.ins(body.end, format!(" }} else {{ {other} }} }}"));
                return;
            }
        }
        visit::visit_expr_match(self, n);
    }
    fn visit_expr_call(&mut self, n: &'ast syn::ExprCall) {
        let f = self.src.text[self.src.range(n.func.span())].replace([' ', '\n'], "");
        *self.calls.entry(f.clone()).or_insert(0) += 1;
        if let Some((_, to)) = self.unit.paths.iter().find(|(p, _)| *p == f) {
            let r = self.src.range(n.func.span());
            self.note(format!("path {f}(..) => {to}(..)"));
            self.list.push((r, to.clone()));
            for a in &n.args {
                self.visit_expr(a);
            }
            return;
        }
        visit::visit_expr_call(self, n);
    }
    fn visit_expr_try(&mut self, n: &'ast syn::ExprTry) {
        if let Some(conv) = self.unit.rewrite_try.clone() {
            let r = self.src.range(n.expr.span());
            let q = self.src.range(n.question_token.span());
            self.note("`e?` => match e { Ok(v) => v, Err(e) => return Err(From::from(e)) }".into());
            self.ins(r.start, "(match ".into());
            let conv = if conv.is_empty() { "e_".to_string() } else { format!("{conv}(e_)") };
            self.list.push((q, format!(" {{ Ok(v_) => v_, Err(e_) => return Err({conv}) }})")));
        }
        visit::visit_expr_try(self, n);
    }
    fn visit_expr_index(&mut self, n: &'ast syn::ExprIndex) {
        if let syn::Expr::Range(rg) = &*n.index {
            let base = self.src.text[self.src.range(n.expr.span())].replace([' ', '\n'], "");
            let hit = self.unit.slices.iter().find(|(p, _, _)| match p.strip_prefix("in=") {
                Some(f) => self.fn_name == f,
                None => *p == base,
            }).cloned();
            if let Some((_, shim, prefix)) = hit {
                let kind = match (&rg.start, &rg.end, &rg.limits) {
                    (Some(_), Some(_), syn::RangeLimits::HalfOpen(_)) => "",
                    (Some(_), Some(_), syn::RangeLimits::Closed(_)) => "_incl",
                    (Some(_), None, _) => "_from",
                    (None, Some(_), syn::RangeLimits::HalfOpen(_)) => "_to",
                    _ => "_other",
                };
                self.note(format!("string slice {base}[..] => {shim}{kind}(..)"));
                let whole = self.src.range(n.span());
                let b = self.src.range(n.expr.span());
                let ir = self.src.range(n.index.span());
                self.ins(b.start, format!("(*{shim}{kind}({prefix}"));
                self.list.push((b.end..ir.start, ", ".into()));
                let lim = self.src.range(match &rg.limits {
                    syn::RangeLimits::HalfOpen(t) => t.span(),
                    syn::RangeLimits::Closed(t) => t.span(),
                });
                let both = rg.start.is_some() && rg.end.is_some();
                self.list.push((lim, if both { ", ".into() } else { String::new() }));
                self.list.push((ir.end..whole.end, "))".into()));
            }
        }
        visit::visit_expr_index(self, n);
    }
    fn visit_lit_str(&mut self, n: &'ast syn::LitStr) {
        let t = self.src.text[self.src.range(n.span())].to_string();
        self.strlits.insert(t);
    }
    fn visit_expr_binary(&mut self, n: &'ast syn::ExprBinary) {
        let neg = match n.op {
            syn::BinOp::Eq(_) => Some(false),
            syn::BinOp::Ne(_) => Some(true),
            _ => None,
        };
        if let Some(neg) = neg {
            let l = self.src.range(n.left.span());
            let r = self.src.range(n.right.span());
            let lt = self.src.text[l.clone()].to_string();
            let rt = self.src.text[r.clone()].to_string();
            let strip = |e: &syn::Expr| -> Option<&'static str> {
                match e {
                    syn::Expr::Unary(u) => lit_kind(&u.expr),
                    e => lit_kind(e),
                }
            };
            let hit = self.unit.eqs.iter().find(|(p, _)| {
                if p == "lit=str" {
                    strip(&n.left) == Some("str") || strip(&n.right) == Some("str")
                } else if let Some(t) = p.strip_prefix("text=") {
                    lt.contains(t) || rt.contains(t)
                } else if let Some(t) = p.strip_prefix("in=") {
                    self.fn_name == t
                } else {
                    die("bad eq rule")
                }
            }).cloned();
            if let Some((_, shim)) = hit {
                self.note(format!("`a == b` on strings => {shim}(&a, &b)"));
                let op = self.src.range(n.op.span());
                self.ins(l.start, format!("{}{shim}(&", if neg { "!" } else { "" }));
                self.list.push((op, ", &".into()));
                self.ins(r.end, ")".into());
            }
        }
        visit::visit_expr_binary(self, n);
    }
    fn visit_expr_closure(&mut self, n: &'ast syn::ExprClosure) {
        let k = self.n_closures;
        self.n_closures += 1;
        if let Some(h) = self.spec.closures.get(&k).cloned() {
            self.note("closure given a contract".into());
            let whole = self.src.range(n.span());
            let b = self.src.range(n.body.span());
            self.list.push((whole.start..b.start, format!("{h} {{ ")));
            self.ins(b.end, " }".into());
            self.visit_expr(&n.body);
            return;
        }
        visit::visit_expr_closure(self, n);
    }
    // `[.., a, b] = v.as_slice()`: the last two elements
    fn visit_expr_let(&mut self, n: &'ast syn::ExprLet) {
        self.last_two(&n.pat, &n.expr);
        visit::visit_expr_let(self, n);
    }
    fn visit_local(&mut self, n: &'ast syn::Local) {
        if let Some(init) = &n.init {
            self.last_two(&n.pat, &init.expr);
        }
        visit::visit_local(self, n);
    }
    fn visit_expr_macro(&mut self, n: &'ast syn::ExprMacro) {
        self.mac(&n.mac, n.span(), false);
    }
    fn visit_stmt_macro(&mut self, n: &'ast syn::StmtMacro) {
        self.mac(&n.mac, n.mac.span(), true);
    }
    fn visit_attribute(&mut self, n: &'ast syn::Attribute) {
        // doc comments and cfg attributes inside bodies
        let r = self.src.range(n.span());
        let t = self.src.text[r.clone()].to_string();
        if t.starts_with("//") || t.starts_with("/*") {
            return;
        }
        self.note(format!("dropped attribute {}", t.split_whitespace().collect::<Vec<_>>().join(" ")));
        self.list.push((r, String::new()));
    }
    fn visit_type_path(&mut self, n: &'ast syn::TypePath) {
        let t = self.src.text[self.src.range(n.span())].to_string();
        if let Some(name) = t.strip_prefix("Self::") {
            if let Some(to) = self.self_assoc.get(name).cloned() {
                let r = self.src.range(n.span());
                self.list.push((r, to));
                return;
            }
        }
        let norm = t.replace([' ', '\n'], "");
        if let Some((_, to)) = self.unit.types.iter().find(|(p, _)| p.replace(' ', "") == norm) {
            let r = self.src.range(n.span());
            self.note(format!("type {norm} => {to}"));
            self.list.push((r, to.clone()));
            return;
        }
        visit::visit_type_path(self, n);
    }
}

fn apply(text: &str, range: Range<usize>, mut edits: Vec<(Range<usize>, String)>) -> String {
    // stable order: by start, insertions (empty ranges) first in recorded order
    let mut idx: Vec<usize> = (0..edits.len()).collect();
    idx.sort_by_key(|&i| (edits[i].0.start, !edits[i].0.is_empty() as u8, i));
    let mut out = String::new();
    let mut pos = range.start;
    for i in idx {
        let (r, t) = std::mem::take(&mut edits[i]);
        if r.start < range.start || r.end > range.end {
            continue;
        }
        if r.start < pos {
            // overlapped by an outer replacement: the inner edit is void
            continue;
        }
        out.push_str(&text[pos..r.start]);
        out.push_str(&t);
        pos = r.end;
    }
    out.push_str(&text[pos..range.end]);
    out
}

struct FnOut {
    name: String,
    file: String,
    src_line: usize,
    gen_start: usize,
    gen_end: usize,
    contract: &'static str,
    loops: usize,
    missing_loop_specs: usize,
    external: bool,
    kinds: String,
    sig: String,
}

struct Gen<'a> {
    unit: &'a Unit,
    repo: String,
    out: String,
    fns: Vec<FnOut>,
    log: BTreeMap<String, usize>,
    srcs: HashMap<String, Src>,
    used_specs: BTreeSet<String>,
    missing: Vec<String>,
    tail: String,
    impl_head: Option<String>,
    n_mods: usize,
}

fn ty_last_ident(t: &syn::Type) -> Option<String> {
    if let syn::Type::Path(p) = t {
        p.path.segments.last().map(|s| s.ident.to_string())
    } else {
        None
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        s.contains("cfg (test)") || s == "# [test]" || s.contains("rstest")
    })
}

impl<'a> Gen<'a> {
    fn line(&self) -> usize {
        self.out.bytes().filter(|b| *b == b'\n').count() + 1
    }

    fn emit_fn(
        &mut self,
        file: &str,
        qual: &str,
        attrs: &[syn::Attribute],
        vis: Option<&syn::Visibility>,
        sig: &syn::Signature,
        block: &syn::Block,
        whole: Span,
        assoc: HashMap<String, String>,
    ) {
        let unit = self.unit;
        let spec = unit.specs.get(qual).cloned().unwrap_or_default();
        if spec.skip || is_test(attrs) {
            return;
        }
        self.used_specs.insert(qual.to_string());
        let src = &self.srcs[file];
        let full = src.range(whole);
        let mut list: Vec<(Range<usize>, String)> = vec![];
        for a in attrs {
            let r = src.range(a.span());
            list.push((r, String::new()));
            *self.log.entry("dropped doc comments / attributes on items".into()).or_insert(0) += 1;
        }
        if let Some(v) = vis {
            if !matches!(v, syn::Visibility::Inherited) {
                list.push((src.range(v.span()), String::new()));
                *self.log.entry("dropped visibility".into()).or_insert(0) += 1;
            }
        }
        if self.impl_head.is_some() {
            let at = src.range(sig.span()).start;
            list.push((at..at, "pub(crate) ".into()));
        }
        let mut lit_lemma_text = String::new();
        let body = src.range(block.span());
        // contract
        let sig_text: String = src.text[src.range(sig.span())].split_whitespace().collect::<Vec<_>>().join(" ");
        let (contract, kind) = match &spec.contract {
            Some(c) => (c.clone(), "explicit"),
            None => {
                let mut found = None;
                for (pat, c) in &unit.defaults {
                    // pattern: "TypePrefix | text in signature ; more text in signature"
                    let (tp, st) = pat.split_once('|').unwrap_or((pat.as_str(), ""));
                    if qual.starts_with(tp.trim()) && st.split(';').all(|x| sig_text.contains(x.trim())) {
                        found = Some(c.clone());
                        break;
                    }
                }
                match found {
                    Some(c) => (c, "default"),
                    None => (String::new(), "none"),
                }
            }
        };
        let contract = match contract.rfind("\n    decreases") {
            _ if spec.also.is_empty() => contract,
            Some(k) => format!("{}\n{}{}", &contract[..k], spec.also.trim_end_matches('\n'), &contract[k..]),
            None => format!("{contract}{}", spec.also),
        };
        let mut ed = Edits {
            src,
            unit,
            spec: &spec,
            fn_name: qual.to_string(),
            list: vec![],
            n_loops: 0,
            n_closures: 0,
            log: &mut self.log,
            self_assoc: assoc,
            calls: BTreeMap::new(),
            strlits: BTreeSet::new(),
            missing_loop_specs: 0,
            kinds: String::new(),
        };
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let r = src.range(t.span());
            ed.ins(r.start, "(r: ".into());
            ed.visit_type(t);
            ed.ins(r.end, ")".into());
        }
        for i in &sig.inputs {
            ed.visit_fn_arg(i);
        }
        ed.ins(body.start, format!("\n{contract}\n"));
        if !spec.external {
            for (p, t) in &unit.prologue {
                if qual.starts_with(p.as_str()) {
                    ed.ins(body.start + 1, format!(" {} ", t.trim()));
                }
            }
        }
        let start_h = ed.hints_for("start");
        if !start_h.is_empty() {
            ed.ins(body.start + 1, format!(" {start_h} "));
        }
        if !spec.external {
            ed.visit_block(block);
        }
        if unit.reveal_strlits && !spec.external && !ed.strlits.is_empty() {
            if unit.lit_lemma.iter().any(|f| f == qual) {
                let name = format!("lits_{}", qual.replace("::", "_").replace('.', "_"));
                let (mut ens, mut prf) = (String::new(), String::new());
                for l in &ed.strlits {
                    let Ok(v) = syn::parse_str::<syn::LitStr>(l) else { continue };
                    let v = v.value();
                    prf.push_str(&format!("reveal_strlit({l}); "));
                    if v.is_ascii() && !v.is_empty() && !v.starts_with('\0') {
                        ens.push_str(&format!("asc({l}@, {}), ", v.len()));
                        prf.push_str(&format!("assert(all_ascii({l}@)); "));
                    } else {
                        let cs: Vec<String> = v.chars().map(|c| format!("{c:?}")).collect();
                        ens.push_str(&format!("{l}@ == seq![{}], ", cs.join(", ")));
                        prf.push_str(&format!("assert({l}@ =~= seq![{}]); ", cs.join(", ")));
                    }
                }
                lit_lemma_text = format!("proof fn {name}() ensures {ens} {{ reveal(asc); {prf} }}\n");
                ed.ins(body.start + 1, format!(" proof {{ {name}(); }} "));
            } else {
            let t: String = ed.strlits.iter().map(|l| format!("reveal_strlit({l}); ")).collect();
            ed.ins(body.start + 1, format!(" proof {{ {t}}} "));
            }
        }
        if std::env::var("EXTRACT_PROBE").is_ok() && !spec.external {
            ed.ins(body.start + 1, " assert(false); ".into());
        }
        let end_h = ed.hints_for("end");
        if !end_h.is_empty() {
            let needs_semi = matches!(block.stmts.last(), Some(syn::Stmt::Expr(_, None)));
            ed.ins(body.end - 1, format!("{} {end_h} ", if needs_semi { ";" } else { "" }));
        }
        let tail_h = ed.hints_for("tail");
        if !tail_h.is_empty() {
            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                let r = src.range(e.span());
                ed.ins(r.start, format!("{tail_h} "));
            }
        }
        let n_loops = ed.n_loops;
        let missing_loop_specs = ed.missing_loop_specs;
        let kinds = ed.kinds.trim().to_string();
        let sig_text = src.text[src.range(sig.span())].split_whitespace().collect::<Vec<_>>().join(" ");
        list.extend(std::mem::take(&mut ed.list));
        let src_line = sig.span().start().line;
        // (suffix, ranges cut off)
        let mut variants: Vec<(String, String, Vec<Range<usize>>, Option<(Range<usize>, String)>)> = vec![];
        let mut split = false;
        if unit.split_match.iter().any(|f| f == qual) && !spec.external {
            if let Some(syn::Stmt::Expr(syn::Expr::Match(m), _)) = block.stmts.last() {
                split = true;
                let bodies: Vec<(Range<usize>, bool, String)> = m
                    .arms
                    .iter()
                    .map(|a| {
                        (
                            src.range(a.body.span()),
                            a.comma.is_some(),
                            src.text[src.range(a.pat.span())].split_whitespace().collect::<Vec<_>>().join(" "),
                        )
                    })
                    .collect();
                let scrut = src.text[src.range(m.expr.span())].to_string();
                for k in 0..bodies.len() {
                    let cut: Vec<Range<usize>> = bodies.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, b)| b.0.clone()).collect();
                    // an arm for several literals is verified once per literal
                    let alts: Vec<String> = match &m.arms[k].pat {
                        syn::Pat::Or(o) if o.cases.iter().all(|c| matches!(c, syn::Pat::Lit(_))) => {
                            o.cases.iter().map(|c| src.text[src.range(c.span())].to_string()).collect()
                        }
                        _ => vec![],
                    };
                    if alts.is_empty() {
                        variants.push((format!("__arm{k}"), format!(" [arm {}]", bodies[k].2), cut.clone(), None));
                    }
                    for (j, alt) in alts.iter().enumerate() {
                        let only = format!("{{ if {scrut} != {alt} {{ return vother_arm(); }} ");
                        variants.push((format!("__arm{k}_{j}"), format!(" [arm {alt}]"), cut.clone(), Some((bodies[k].0.clone(), only))));
                    }
                }
                *self.log.entry(format!("{qual} verified once per arm of its match")).or_insert(0) += bodies.len();
            }
        }
        if variants.is_empty() {
            variants.push((String::new(), String::new(), vec![], None));
        }
        let mut texts: Vec<(String, String)> = vec![];
        for (suffix, label, cut, only) in variants {
            let mut l: Vec<(Range<usize>, String)> = list
                .iter()
                .filter(|(r, _)| !cut.iter().any(|c| c.start <= r.start && r.end <= c.end))
                .cloned()
                .collect();
            for c in cut {
                l.push((c, "{ vother_arm() }".into()));
            }
            if let Some((r, t)) = only {
                l.push((r.start..r.start, t));
                l.push((r.end..r.end, " }".into()));
            }
            if !suffix.is_empty() {
                l.push((src.range(sig.ident.span()), format!("{}{suffix}", sig.ident)));
            }
            texts.push((apply(&src.text, full.clone(), l), label));
        }
        if split {
            // the function callers see: its contract only
            let head = apply(&src.text, full.start..body.start, list.iter().filter(|(r, _)| r.end <= body.start).cloned().collect());
            texts.push((format!("#[verifier::external_body]\n{} {{ unimplemented!() }}", head.trim_start()), " [contract]".into()));
        }
        for (mut text, label) in texts {
            let is_head = label == " [contract]";
            if spec.external {
                text = format!("#[verifier::external_body]\n{text}");
            }
            if !is_head {
                if !spec.external && n_loops > 0 {
                    for a in &unit.attr_all {
                        text = format!("#[{a}]\n{text}");
                    }
                }
                for a in &spec.attrs {
                    text = format!("#[{a}]\n{text}");
                }
            }
            // one module per method: the verifier works on modules in parallel
            if let Some(h) = &self.impl_head {
                let h = h.clone();
                let _ = writeln!(self.out, "mod v{} {{ use super::*; {h}", self.n_mods);
                self.n_mods += 1;
            }
            let gen_start = self.line();
            self.out.push_str(text.trim_start());
            self.out.push('\n');
            let gen_end = self.line() - 1;
            self.out.push_str(if self.impl_head.is_some() { "} }\n\n" } else { "\n" });
            if is_head {
                continue;
            }
            self.fns.push(FnOut {
                name: format!("{qual}{label}"),
                file: file.to_string(),
                src_line,
                gen_start,
                gen_end,
                contract: kind,
                loops: n_loops,
                missing_loop_specs,
                external: spec.external,
                kinds: kinds.clone(),
                sig: sig_text.clone(),
            });
        }
        self.tail.push_str(&lit_lemma_text);
    }

    fn need(&mut self, file: &str) {
        if !self.srcs.contains_key(file) {
            let s = Src::load(&self.repo, file);
            self.srcs.insert(file.to_string(), s);
        }
    }

    fn emit_type(&mut self, file: &str, name: &str) {
        self.need(file);
        let items: Vec<syn::Item> = self.srcs[file].file.items.clone();
        for it in &items {
            let (ident, attrs, vis, fields): (_, _, _, Vec<&syn::Field>) = match it {
                syn::Item::Struct(s) => (&s.ident, &s.attrs, &s.vis, s.fields.iter().collect()),
                syn::Item::Enum(e) => (
                    &e.ident,
                    &e.attrs,
                    &e.vis,
                    e.variants.iter().flat_map(|v| v.fields.iter()).collect(),
                ),
                _ => continue,
            };
            if ident != name {
                continue;
            }
            let src = &self.srcs[file];
            let full = src.range(it.span());
            let mut list = vec![];
            let mut derives: Vec<String> = vec![];
            for a in attrs {
                if a.path().is_ident("derive") {
                    let _ = a.parse_nested_meta(|m| {
                        derives.push(m.path.segments.last().unwrap().ident.to_string());
                        Ok(())
                    });
                }
                list.push((src.range(a.span()), String::new()));
            }
            if !matches!(vis, syn::Visibility::Inherited) {
                list.push((src.range(vis.span()), String::new()));
            }
            for f in fields {
                if let Some(id) = &f.ident {
                    if self.unit.drop_fields.iter().any(|(t, n)| t == name && id == n) {
                        let mut r = src.range(f.span());
                        let rest = &src.text[r.end..];
                        if let Some(p) = rest.find(',') {
                            if rest[..p].trim().is_empty() {
                                r.end += p + 1;
                            }
                        }
                        *self.log.entry(format!("dropped field {name}.{id}")).or_insert(0) += 1;
                        list.push((r, String::new()));
                        continue;
                    }
                }
                for a in &f.attrs {
                    list.push((src.range(a.span()), String::new()));
                }
                if !matches!(f.vis, syn::Visibility::Inherited) {
                    list.push((src.range(f.vis.span()), String::new()));
                }
                let empty = FnSpec::default();
                let mut ed = Edits {
                    src,
                    unit: self.unit,
                    spec: &empty,
                    fn_name: name.to_string(),
                    list: vec![],
                    n_loops: 0,
                    n_closures: 0,
                    log: &mut self.log,
                    self_assoc: HashMap::new(),
                    calls: BTreeMap::new(),
                    strlits: BTreeSet::new(),
                    missing_loop_specs: 0,
                    kinds: String::new(),
                };
                ed.visit_type(&f.ty);
                list.extend(ed.list);
            }
            if let syn::Item::Enum(e) = it {
                for v in &e.variants {
                    for a in &v.attrs {
                        list.push((src.range(a.span()), String::new()));
                    }
                }
            }
            let text = apply(&src.text, full, list);
            if self.unit.derive_structural.iter().any(|n| n == name) {
                let keep: Vec<&str> = ["Clone", "Copy", "PartialEq", "Eq"]
                    .into_iter()
                    .filter(|d| derives.iter().any(|x| x == d))
                    .collect();
                if !keep.contains(&"PartialEq") {
                    die(&format!("{name} no longer derives PartialEq"));
                }
                let _ = writeln!(self.out, "#[derive({}, Structural)]", keep.join(", "));
            }
            if !derives.is_empty() {
                *self.log.entry(format!("derives on {name} replaced (was: {})", derives.join(","))).or_insert(0) += 1;
            }
            self.out.push_str(text.trim_start());
            self.out.push_str("\n\n");
            return;
        }
        self.missing.push(format!("type {name} in {file}"));
    }

    fn emit_const(&mut self, file: &str, name: &str) {
        self.need(file);
        let items: Vec<syn::Item> = self.srcs[file].file.items.clone();
        for it in &items {
            if let syn::Item::Const(c) = it {
                if c.ident == name {
                    let src = &self.srcs[file];
                    let mut list = vec![];
                    for a in &c.attrs {
                        list.push((src.range(a.span()), String::new()));
                    }
                    list.push((src.range(c.vis.span()), String::new()));
                    let text = apply(&src.text, src.range(it.span()), list);
                    self.out.push_str(text.trim_start());
                    self.out.push('\n');
                    return;
                }
            }
        }
        self.missing.push(format!("const {name} in {file}"));
    }

    fn emit_impl(&mut self, file: &str, ty: &str, only: &Option<Vec<String>>, except: &[String]) {
        self.need(file);
        let items: Vec<syn::Item> = self.srcs[file].file.items.clone();
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for it in &items {
            let syn::Item::Impl(im) = it else { continue };
            if ty_last_ident(&im.self_ty).as_deref() != Some(ty) || is_test(&im.attrs) {
                continue;
            }
            let src = &self.srcs[file];
            let generics = {
                // a named lifetime instead of '_ so that the contracts can mention the type
                let st = src.text[src.range(im.self_ty.span())].to_string();
                if st.contains("<'_>") {
                    ("<'a>".to_string(), st.replace("<'_>", "<'a>"))
                } else if im.generics.params.is_empty() {
                    (String::new(), st)
                } else {
                    let g = src.text[src.range(im.generics.span())].to_string();
                    (g, st)
                }
            };
            let mut assoc = HashMap::new();
            for ii in &im.items {
                if let syn::ImplItem::Type(t) = ii {
                    assoc.insert(
                        t.ident.to_string(),
                        src.text[src.range(t.ty.span())].to_string(),
                    );
                }
            }
            let trait_name = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
            let mut picked = vec![];
            for ii in &im.items {
                if let syn::ImplItem::Fn(f) = ii {
                    let n = f.sig.ident.to_string();
                    let wanted = match only {
                        Some(o) => {
                            if trait_name.is_some() {
                                o.contains(&format!("{}.{n}", trait_name.as_ref().unwrap()))
                            } else {
                                o.contains(&n)
                            }
                        }
                        None => {
                            if let Some(t) = &trait_name {
                                // trait impls are only taken when asked for
                                self.unit.specs.contains_key(&format!("{ty}::{t}.{n}"))
                            } else {
                                !except.contains(&n)
                            }
                        }
                    };
                    if wanted {
                        picked.push((n, f.clone()));
                    }
                }
            }
            if picked.is_empty() {
                continue;
            }
            self.impl_head = Some(format!("impl{} {} {{", generics.0, generics.1));
            for (n, f) in picked {
                let qual = match &trait_name {
                    Some(t) => format!("{ty}::{t}.{n}"),
                    None => format!("{ty}::{n}"),
                };
                seen.insert(match &trait_name {
                    Some(t) => format!("{t}.{n}"),
                    None => n.clone(),
                });
                if trait_name.is_some() {
                    *self.log.entry(format!("trait method {qual} taken as inherent method")).or_insert(0) += 1;
                }
                self.emit_fn(
                    file,
                    &qual,
                    &f.attrs,
                    Some(&f.vis),
                    &f.sig,
                    &f.block,
                    f.span(),
                    assoc.clone(),
                );
            }
            self.impl_head = None;
        }
        if let Some(o) = only {
            for n in o {
                if !seen.contains(n) {
                    self.missing.push(format!("fn {ty}::{n} in {file}"));
                }
            }
        }
    }

    fn emit_fns(&mut self, file: &str, names: &[String]) {
        self.need(file);
        let items: Vec<syn::Item> = self.srcs[file].file.items.clone();
        for name in names {
            let mut found = false;
            for it in &items {
                if let syn::Item::Fn(f) = it {
                    if f.sig.ident == name {
                        found = true;
                        self.emit_fn(
                            file,
                            name,
                            &f.attrs,
                            Some(&f.vis),
                            &f.sig,
                            &f.block,
                            f.span(),
                            HashMap::new(),
                        );
                    }
                }
            }
            if !found {
                self.missing.push(format!("fn {name} in {file}"));
            }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        die("usage: extract UNIT REPO OUT.rs OUT.map.json");
    }
    let up = std::path::Path::new(&args[1]);
    let text = fs::read_to_string(up).unwrap_or_else(|e| die(&format!("{e}")));
    let mut unit = Unit::default();
    parse_unit(&text, up.parent().unwrap(), &mut unit);
    let mut g = Gen {
        unit: &unit,
        repo: args[2].clone(),
        out: String::new(),
        fns: vec![],
        log: BTreeMap::new(),
        srcs: HashMap::new(),
        used_specs: BTreeSet::new(),
        missing: vec![],
        tail: String::new(),
        impl_head: None,
        n_mods: 0,
    };
    g.out.push_str(&unit.header);
    g.out.push_str("\nverus! {\n");
    for it in &unit.items {
        match it {
            Item::Raw(t) => {
                g.out.push_str(t);
                g.out.push('\n');
            }
            Item::Types { file, names } => {
                for n in names {
                    g.emit_type(file, n)
                }
            }
            Item::Consts { file, names } => {
                for n in names {
                    g.emit_const(file, n)
                }
            }
            Item::Impl { file, ty, only, except } => g.emit_impl(file, ty, only, except),
            Item::Fns { file, names } => g.emit_fns(file, names),
        }
    }
    let tail = std::mem::take(&mut g.tail);
    g.out.push_str(&tail);
    g.out.push_str("\nfn main() {}\n} // verus!\n");
    for k in unit.specs.keys() {
        if !g.used_specs.contains(k) && !unit.specs[k].skip {
            g.missing.push(format!("contract target {k}"));
        }
    }
    fs::write(&args[3], &g.out).unwrap();
    let mut m = String::from("{\"functions\":[");
    for (i, f) in g.fns.iter().enumerate() {
        if i > 0 {
            m.push(',')
        }
        let _ = write!(
            m,
            "{{\"name\":{},\"file\":{},\"line\":{},\"gen_start\":{},\"gen_end\":{},\"contract\":{},\"loops\":{},\"missing_loop_specs\":{},\"external\":{},\"kinds\":{},\"sig\":{}}}",
            json_str(&f.name), json_str(&f.file), f.src_line, f.gen_start, f.gen_end, json_str(f.contract), f.loops, f.missing_loop_specs, f.external, json_str(&f.kinds), json_str(&f.sig)
        );
    }
    m.push_str("],\"edits\":{");
    for (i, (k, v)) in g.log.iter().enumerate() {
        if i > 0 {
            m.push(',')
        }
        let _ = write!(m, "{}:{}", json_str(k), v);
    }
    m.push_str("},\"missing\":[");
    for (i, k) in g.missing.iter().enumerate() {
        if i > 0 {
            m.push(',')
        }
        m.push_str(&json_str(k));
    }
    m.push_str("]}\n");
    fs::write(&args[4], m).unwrap();
}
