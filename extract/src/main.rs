//! vx: mechanical extraction of /repo's Rust sources into a Verus crate, with the
//! contracts of /verif/contracts spliced in.  Every executable token of an emitted
//! function body comes from the source text, except for the rewrites listed in
//! DESIGN.md ("What the extraction changes").
mod dsl;
mod inline;
use dsl::*;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone)]
struct Cfg {
    solana: bool,
    features: BTreeSet<String>,
}

impl Cfg {
    fn eval(&self, m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => {
                let n = p.to_token_stream().to_string();
                n == "debug_assertions"
            }
            syn::Meta::NameValue(nv) => {
                let n = nv.path.to_token_stream().to_string();
                let v = nv.value.to_token_stream().to_string();
                let v = v.trim_matches('"').to_string();
                match n.as_str() {
                    "target_os" => self.solana && v == "solana",
                    "target_arch" => false,
                    "feature" => self.features.contains(&v),
                    _ => false,
                }
            }
            syn::Meta::List(l) => {
                let n = l.path.to_token_stream().to_string();
                let parts: Vec<syn::Meta> = l
                    .parse_args_with(
                        syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated,
                    )
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                match n.as_str() {
                    "not" => !self.eval(&parts[0]),
                    "any" => parts.iter().any(|p| self.eval(p)),
                    "all" => parts.iter().all(|p| self.eval(p)),
                    _ => false,
                }
            }
        }
    }
    fn keep(&self, attrs: &[syn::Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                if let syn::Meta::List(l) = &a.meta {
                    if let Ok(m) = l.parse_args::<syn::Meta>() {
                        return self.eval(&m);
                    }
                }
                true
            } else if a.path().is_ident("test") {
                false
            } else {
                true
            }
        })
    }
}

#[derive(Clone, Debug)]
struct Edit {
    lo: usize,
    hi: usize,
    text: String,
    prio: i32, // order among insertions at the same point
    seq: usize,
}

struct Out {
    edits: Vec<Edit>,
}
impl Out {
    fn del(&mut self, r: std::ops::Range<usize>) {
        self.rep(r, "");
    }
    fn rep(&mut self, r: std::ops::Range<usize>, t: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { lo: r.start, hi: r.end, text: t.to_string(), prio: 0, seq });
    }
    fn ins(&mut self, at: usize, t: &str, prio: i32) {
        let seq = self.edits.len();
        self.edits.push(Edit { lo: at, hi: at, text: t.to_string(), prio, seq });
    }
}

fn rg(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}

/// apply edits; an edit lying inside a wider replaced range is dropped
fn apply(src: &str, edits: &[Edit]) -> String {
    let mut es: Vec<Edit> = edits.to_vec();
    let spans: Vec<(usize, usize, usize)> =
        es.iter().filter(|e| e.hi > e.lo).map(|e| (e.lo, e.hi, e.seq)).collect();
    es.retain(|e| {
        !spans.iter().any(|&(lo, hi, seq)| {
            if seq == e.seq {
                return false;
            }
            if e.lo == e.hi {
                return lo < e.lo && e.hi < hi;
            }
            let contained = lo <= e.lo && e.hi <= hi;
            let same = lo == e.lo && hi == e.hi;
            (contained && !same) || (same && seq < e.seq)
        })
    });
    es.sort_by(|a, b| {
        (a.lo, a.hi > a.lo, a.prio, a.seq).cmp(&(b.lo, b.hi > b.lo, b.prio, b.seq))
    });
    let mut out = String::new();
    let mut pos = 0;
    for e in es {
        if e.lo < pos {
            continue;
        }
        out.push_str(&src[pos..e.lo]);
        out.push_str(&e.text);
        pos = e.hi.max(pos);
    }
    out.push_str(&src[pos..]);
    out
}

struct Ctx {
    cfg: Cfg,
    spec: Spec,
    prop: String,         // "all" or a property id
    vacuity: bool,        // plant assert(false) at every entry and loop head
    scope: Option<Vec<String>>, // functions verified in this run; None = all
    report: Report,
    stub_crates: Vec<&'static str>,
    cell_fns: BTreeSet<String>, // functions whose contract lets them access account cells
    drop: BTreeSet<String>,     // `function@origin`: proof hints left out of this run
    rename: BTreeMap<String, Vec<(String, String)>>, // names of a function's variables that changed
    alias: BTreeMap<String, String>, // functions that changed their name
    bare: BTreeSet<String>,     // functions extracted without any proof hint
    stub: BTreeSet<String>,     // functions whose body the verifier does not accept
    noiso: BTreeSet<String>,    // functions whose loops see what was known before them
    inline: bool,               // unfold functions without contract at their calls
    wasm: bool,                 // the WebAssembly reader instead of the program
}

#[derive(Default)]
struct Report {
    fns: Vec<serde_json::Value>,
    lost: Vec<serde_json::Value>,
    uncontracted: Vec<String>,
    assumed: Vec<String>,
    trusted: Vec<String>,
    dropped: Vec<String>,
    notes: Vec<String>,
    inlined: Vec<serde_json::Value>,
}

impl Ctx {
    fn has(&self, c: &Clause) -> bool {
        c.tags.is_empty() || self.prop == "all" || c.tags.iter().any(|t| t == &self.prop)
    }
}

/// size and alignment of the plain types used in account structures
/// value of a literal integer expression
fn const_int(e: &syn::Expr) -> Option<i128> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_parse::<i128>().ok(),
            _ => None,
        },
        syn::Expr::Paren(p) => const_int(&p.expr),
        syn::Expr::Binary(b) => {
            let (x, y) = (const_int(&b.left)?, const_int(&b.right)?);
            match b.op {
                syn::BinOp::Add(_) => x.checked_add(y),
                syn::BinOp::Sub(_) => x.checked_sub(y),
                syn::BinOp::Mul(_) => x.checked_mul(y),
                syn::BinOp::Shl(_) => (0..64).contains(&y).then(|| x << y),
                syn::BinOp::BitOr(_) => Some(x | y),
                _ => None,
            }
        }
        _ => None,
    }
}
/// last two segments of a path
fn path_tail(p: &syn::Path) -> String {
    let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    v[v.len().saturating_sub(2)..].join("::")
}
fn layout_of(t: &syn::Type) -> Option<(u64, u64)> {
    match nows(&t.to_token_stream().to_string()).as_str() {
        "u8" | "i8" | "bool" => return Some((1, 1)),
        "u16" | "i16" => return Some((2, 2)),
        "u32" | "i32" | "NodeHandle" => return Some((4, 4)),
        "u64" | "i64" | "usize" => return Some((8, 8)),
        // the pinned toolchain and the on-chain target align u128 to 8
        "u128" | "i128" => return Some((16, 8)),
        "Pubkey" => return Some((32, 1)),
        _ => {}
    }
    if let syn::Type::Array(a) = t {
        let (s, al) = layout_of(&a.elem)?;
        let n: u64 = a.len.to_token_stream().to_string().parse().ok()?;
        return Some((s * n, al));
    }
    None
}

fn mark(kind: &str, f: &str, c: &Clause) -> String {
    let j = serde_json::json!({"k": kind, "fn": f, "tags": c.tags, "o": c.origin});
    format!("\n//@{}\n", j)
}

fn pat_has_ident(p: &syn::Pat, name: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
            if i.ident == self.0 {
                self.1 = true;
            }
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(name, false);
    v.visit_pat(p);
    v.1
}

/// names bound in a function, in the order of the text
fn bound_names(sig: &syn::Signature, block: Option<&syn::Block>) -> Vec<String> {
    struct V(Vec<String>);
    impl<'b> Visit<'b> for V {
        fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
            self.0.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(vec![]);
    v.visit_signature(sig);
    if let Some(b) = block {
        v.visit_block(b);
    }
    v.0
}

/// replace a name where it stands for a variable
fn rename_word(t: &str, old: &str, new: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let o: Vec<char> = old.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let fits = b[i..].starts_with(&o)
            && (i == 0 || (!word(b[i - 1]) && !(b[i - 1] == '.' && !(i > 1 && b[i - 2] == '.'))))
            && (i + o.len() == b.len() || !word(b[i + o.len()]))
            && !b[i + o.len()..].starts_with(&[':', ':']);
        if fits {
            out.push_str(new);
            i += o.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn nows(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// a place where ghost code may go, found while walking a body
#[derive(Clone, Debug)]
struct Hit {
    before: usize,
    after: Option<usize>, // None: value position (tail)
    wrap: Option<(usize, usize)>, // arm expression to be braced
}

struct Body<'c> {
    cx: &'c Ctx,
    src: &'c str,
    out: &'c mut Out,
    stmt: Vec<Hit>,
    lets: Vec<(syn::Pat, Hit)>,
    binds: Vec<(syn::Pat, usize)>, // patterns of `while let` and `if let`, with the body's start
    calls: Vec<(String, Hit)>,
    assigns: Vec<(String, Hit)>,
    returns: Vec<Hit>,
    conts: Vec<Hit>,
    breaks: Vec<Hit>,
    loops: Vec<(usize, usize, usize, usize)>, // body-open, body-close, before, after
    ifs: Vec<(usize, usize, Option<usize>, Option<usize>)>,  // then-open, then-close, else-open, else-close
    arms: Vec<(String, Hit, Option<(usize, usize)>)>, // pattern, hit, block braces
    closures: Vec<(usize, std::ops::Range<usize>, bool)>, // after |..| position, body range, is block
    fn_depth: usize,
    calls_names: BTreeSet<String>,
    wrapped: BTreeSet<(usize, usize)>,
    self_item: Option<String>,
    abort_ok: bool,
    cells: Vec<Cell>,
    branch: Vec<(usize, usize)>,
    repeat: usize,
    alias: BTreeMap<String, String>,
    cell_fns: BTreeSet<String>,
}

/// an access to the content of an account
#[derive(Clone, Debug)]
struct Cell {
    key: String,  // the cell, or `fn NAME` for a callee that accesses cells itself
    write: bool,
    pos: usize,
    branch: Vec<(usize, usize)>,
    repeat: bool,
}

/// Account cells stand for their content at the start and at the end of the instruction, which is
/// right only if each of them is borrowed mutably at most once and not read after that.
fn cell_trouble(cells: &[Cell]) -> Option<String> {
    let exclusive = |a: &Cell, b: &Cell| a.branch.iter().any(|(m, i)| b.branch.iter().any(|(n, j)| m == n && i != j));
    for (i, a) in cells.iter().enumerate() {
        if a.key == "?" {
            return Some("an account's content is borrowed through something other than the account".into());
        }
        if a.repeat && a.write {
            return Some(format!("{} borrowed inside a loop or closure", a.key));
        }
        for b in &cells[i + 1..] {
            if exclusive(a, b) {
                continue;
            }
            let call = a.key.starts_with("fn ") || b.key.starts_with("fn ");
            if call && (a.write || b.write) {
                return Some(format!("{} and {} on one path", a.key, b.key));
            }
            if a.key == b.key && (a.write && (b.write || a.pos < b.pos) || b.write && b.pos < a.pos) {
                return Some(format!("{} borrowed more than once", a.key));
            }
        }
    }
    None
}

fn stmt_attrs(s: &syn::Stmt) -> &[syn::Attribute] {
    match s {
        syn::Stmt::Local(l) => &l.attrs,
        syn::Stmt::Item(i) => item_attrs(i),
        syn::Stmt::Expr(e, _) => expr_attrs(e),
        syn::Stmt::Macro(m) => &m.attrs,
    }
}
fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        Array(x) => &x.attrs,
        Assign(x) => &x.attrs,
        Async(x) => &x.attrs,
        Await(x) => &x.attrs,
        Binary(x) => &x.attrs,
        Block(x) => &x.attrs,
        Break(x) => &x.attrs,
        Call(x) => &x.attrs,
        Cast(x) => &x.attrs,
        Closure(x) => &x.attrs,
        Const(x) => &x.attrs,
        Continue(x) => &x.attrs,
        Field(x) => &x.attrs,
        ForLoop(x) => &x.attrs,
        Group(x) => &x.attrs,
        If(x) => &x.attrs,
        Index(x) => &x.attrs,
        Infer(x) => &x.attrs,
        Let(x) => &x.attrs,
        Lit(x) => &x.attrs,
        Loop(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Match(x) => &x.attrs,
        MethodCall(x) => &x.attrs,
        Paren(x) => &x.attrs,
        Path(x) => &x.attrs,
        Range(x) => &x.attrs,
        Reference(x) => &x.attrs,
        Repeat(x) => &x.attrs,
        Return(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Try(x) => &x.attrs,
        TryBlock(x) => &x.attrs,
        Tuple(x) => &x.attrs,
        Unary(x) => &x.attrs,
        Unsafe(x) => &x.attrs,
        While(x) => &x.attrs,
        Yield(x) => &x.attrs,
        _ => &[],
    }
}
fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs,
        Enum(x) => &x.attrs,
        ExternCrate(x) => &x.attrs,
        Fn(x) => &x.attrs,
        ForeignMod(x) => &x.attrs,
        Impl(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Mod(x) => &x.attrs,
        Static(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Trait(x) => &x.attrs,
        TraitAlias(x) => &x.attrs,
        Type(x) => &x.attrs,
        Union(x) => &x.attrs,
        Use(x) => &x.attrs,
        _ => &[],
    }
}

/// byte range of a node including its attributes
fn full_range<T: Spanned>(t: &T, attrs: &[syn::Attribute]) -> std::ops::Range<usize> {
    let r = rg(t.span());
    let lo = attrs.iter().map(|a| rg(a.span()).start).min().unwrap_or(r.start).min(r.start);
    lo..r.end
}

const LOG_MACROS: &[&str] = &["msg", "println", "eprintln", "print", "debug_print", "sol_log"];

fn macro_name(m: &syn::Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

impl<'c> Body<'c> {
    fn drop_attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            self.out.del(rg(a.span()));
        }
    }
    fn cell(&mut self, key: String, write: bool, pos: usize) {
        self.cells.push(Cell { key, write, pos, branch: self.branch.clone(), repeat: self.repeat > 0 });
    }
    fn cur(&self) -> Hit {
        self.stmt.last().cloned().unwrap()
    }
}

impl<'c, 'ast> Visit<'ast> for Body<'c> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let attrs = stmt_attrs(s);
            let r = full_range(s, attrs);
            if !self.cx.cfg.keep(attrs) {
                self.out.del(r);
                continue;
            }
            self.drop_attrs(attrs);
            match s {
                syn::Stmt::Macro(m) if LOG_MACROS.contains(&macro_name(&m.mac).as_str()) => {
                    self.out.rep(r, "();");
                    continue;
                }
                _ => {}
            }
            let is_tail = i + 1 == n && matches!(s, syn::Stmt::Expr(_, None));
            let hit = Hit {
                before: r.start,
                after: if is_tail
                    && !matches!(
                        s,
                        syn::Stmt::Expr(syn::Expr::Assign(_), _) | syn::Stmt::Expr(syn::Expr::Binary(_), _)
                    )
                {
                    // block-like tail expressions of unit type still allow "after"
                    None
                } else {
                    Some(r.end)
                },
                wrap: None,
            };
            self.stmt.push(hit.clone());
            match s {
                syn::Stmt::Local(l) => {
                    self.lets.push((l.pat.clone(), hit.clone()));
                    if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        let t = nows(&init.expr.to_token_stream().to_string());
                        let t = t.trim_start_matches('&').to_string();
                        let root = t.split('.').next().unwrap_or("").to_string();
                        if t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') && !t.is_empty() {
                            let full = match self.alias.get(&root) {
                                Some(r) => format!("{r}{}", &t[root.len()..]),
                                None => t,
                            };
                            let full = if i.mutability.is_some() { "?".to_string() } else { full };
                            self.alias.insert(i.ident.to_string(), full);
                        }
                    }
                    visit::visit_local(self, l);
                }
                syn::Stmt::Item(it) => {
                    // a local constant becomes a local variable of the same name
                    if let syn::Item::Const(c) = it {
                        self.out.rep(rg(c.const_token.span()), "let");
                        self.visit_expr(&c.expr);
                    }
                }
                syn::Stmt::Expr(e, _) => self.visit_expr(e),
                syn::Stmt::Macro(m) => visit::visit_stmt_macro(self, m),
            }
            self.stmt.pop();
        }
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if !self.cx.cfg.keep(&f.attrs) {
            let mut r = full_range(f, &f.attrs);
            let rest = &self.src[r.end..];
            let t = rest.len() - rest.trim_start().len();
            if rest.trim_start().starts_with(',') {
                r.end += t + 1;
            }
            self.out.del(r);
            return;
        }
        self.drop_attrs(&f.attrs);
        visit::visit_field_value(self, f);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if !self.cx.cfg.keep(&a.attrs) {
            self.out.del(full_range(a, &a.attrs));
            return;
        }
        self.drop_attrs(&a.attrs);
        let pt = nows(&a.pat.to_token_stream().to_string());
        let br = rg(a.body.span());
        let is_block = matches!(&*a.body, syn::Expr::Block(_));
        let hit = Hit { before: br.start, after: None, wrap: Some((br.start, br.end)) };
        let braces = if let syn::Expr::Block(b) = &*a.body {
            Some((rg(b.block.brace_token.span.open()).end, rg(b.block.brace_token.span.close()).start))
        } else {
            None
        };
        self.arms.push((pt, hit.clone(), braces));
        if let Some((_, g)) = &a.guard {
            self.visit_expr(g);
        }
        if is_block {
            self.visit_expr(&a.body);
        } else {
            self.stmt.push(hit);
            self.visit_expr(&a.body);
            self.stmt.pop();
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Return(_) => {
                let h = self.cur();
                self.returns.push(h);
                visit::visit_expr(self, e);
            }
            syn::Expr::Continue(_) => {
                let h = self.cur();
                self.conts.push(h);
            }
            syn::Expr::Break(_) => {
                let h = self.cur();
                self.breaks.push(h);
                visit::visit_expr(self, e);
            }
            syn::Expr::Try(_) => visit::visit_expr(self, e),
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    if self.cx.wasm && p.path.segments.len() == 2 && p.path.segments[1].ident == "from_le_bytes" {
                        let n = p.path.segments[0].ident.to_string();
                        self.out.rep(rg(p.span()), &format!("crate::stubs::{n}_from_le_bytes"));
                    }
                    if let Some(s) = p.path.segments.last() {
                        let n = s.ident.to_string();
                        self.calls_names.insert(n.clone());
                        if self.cell_fns.contains(&path_tail(&p.path)) {
                            self.cell(format!("fn {}", path_tail(&p.path)), true, rg(c.func.span()).start);
                        }
                        let h = self.cur();
                        self.calls.push((n, h));
                    }
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.calls_names.insert(n.clone());
                let h = self.cur();
                self.calls.push((n.clone(), h));
                for a in &m.args {
                    // a constructor passed as a function: the closure it stands for
                    if let syn::Expr::Path(p) = a {
                        if p.path.is_ident("Some") {
                            self.out.rep(rg(a.span()), "|vx_x| -> (vx_r: Option<_>) ensures vx_r == Some(vx_x) { Some(vx_x) }");
                        }
                    }
                }
                if (n == "borrow" || n == "borrow_mut") && !self.cx.wasm {
                    let mut key = "?".to_string();
                    if let syn::Expr::Field(f) = &*m.receiver {
                        let w = f.member.to_token_stream().to_string();
                        if w == "data" || w == "lamports" {
                            let mut base = nows(&f.base.to_token_stream().to_string());
                            let root = base.split('.').next().unwrap_or("").to_string();
                            if let Some(t) = self.alias.get(&root) {
                                base = format!("{t}{}", &base[root.len()..]);
                            }
                            if !base.is_empty() && base.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                                key = format!("{base}.{w}");
                            }
                        }
                    }
                    self.cell(key, n == "borrow_mut", rg(m.method.span()).start);
                }
                if self.abort_ok && (n == "unwrap" || n == "expect") {
                    // a panic in an instruction handler aborts the transaction
                    self.out.rep(rg(m.method.span()), "vx_unwrap_or_abort");
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::Cast(c) if self.cx.wasm && matches!(&*c.ty, syn::Type::Reference(r) if matches!(&*r.elem, syn::Type::Slice(_))) => {
                // a coercion to a slice, written as a call
                self.out.ins(rg(c.expr.span()).start, "crate::stubs::vx_slice(", 40);
                self.out.rep(rg(c.expr.span()).end..rg(c.span()).end, ")");
                visit::visit_expr(self, e);
            }
            syn::Expr::Assign(a) => {
                let h = self.cur();
                self.assigns.push((nows(&a.left.to_token_stream().to_string()), h));
                visit::visit_expr(self, e);
            }
            syn::Expr::Binary(b) => {
                use syn::BinOp::*;
                if matches!(
                    b.op,
                    AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_)
                        | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_)
                ) {
                    let h = self.cur();
                    self.assigns.push((nows(&b.left.to_token_stream().to_string()), h));
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::Loop(l) => {
                let h = self.cur();
                let o = rg(l.body.brace_token.span.open());
                let c = rg(l.body.brace_token.span.close());
                self.loops.push((o.start, c.start, h.before, rg(l.span()).end));
                self.repeat += 1;
                visit::visit_expr(self, e);
                self.repeat -= 1;
            }
            syn::Expr::While(l) => {
                let h = self.cur();
                let o = rg(l.body.brace_token.span.open());
                let c = rg(l.body.brace_token.span.close());
                self.loops.push((o.start, c.start, h.before, rg(l.span()).end));
                if let syn::Expr::Let(p) = &*l.cond {
                    self.binds.push(((*p.pat).clone(), o.end));
                }
                self.repeat += 1;
                visit::visit_expr(self, e);
                self.repeat -= 1;
            }
            syn::Expr::ForLoop(l) => {
                let h = self.cur();
                // the ghost iterator, for invariants
                self.out.ins(rg(l.expr.span()).start, "vx_it: ", 0);
                let o = rg(l.body.brace_token.span.open());
                let c = rg(l.body.brace_token.span.close());
                self.loops.push((o.start, c.start, h.before, rg(l.span()).end));
                self.repeat += 1;
                visit::visit_expr(self, e);
                self.repeat -= 1;
            }
            syn::Expr::Match(m) => {
                self.visit_expr(&m.expr);
                for (i, a) in m.arms.iter().enumerate() {
                    self.branch.push((rg(m.match_token.span()).start, i));
                    self.visit_arm(a);
                    self.branch.pop();
                }
            }
            syn::Expr::If(i) => {
                let o = rg(i.then_branch.brace_token.span.open()).end;
                let c = rg(i.then_branch.brace_token.span.close()).start;
                let (eo, ec) = match &i.else_branch {
                    Some((_, b)) => match &**b {
                        syn::Expr::Block(b) => (
                            Some(rg(b.block.brace_token.span.open()).end),
                            Some(rg(b.block.brace_token.span.close()).start),
                        ),
                        _ => (None, None),
                    },
                    None => (None, None),
                };
                self.ifs.push((o, c, eo, ec));
                if let syn::Expr::Let(p) = &*i.cond {
                    self.binds.push(((*p.pat).clone(), o));
                }
                let id = o;
                self.visit_expr(&i.cond);
                self.branch.push((id, 0));
                self.visit_block(&i.then_branch);
                self.branch.pop();
                if let Some((_, b)) = &i.else_branch {
                    self.branch.push((id, 1));
                    self.visit_expr(b);
                    self.branch.pop();
                }
            }
            syn::Expr::Closure(c) => {
                // position after the parameter list
                let end = rg(c.or2_token.span()).end;
                let br = rg(c.body.span());
                for p in &c.inputs {
                    if let syn::Pat::Wild(w) = p {
                        self.out.rep(rg(w.span()), "_e");
                    }
                }
                let blk = matches!(&*c.body, syn::Expr::Block(_));
                self.closures.push((end, br, blk));
                // default contract for a closure whose body is a plain enum path
                self.repeat += 1;
                visit::visit_expr(self, e);
                self.repeat -= 1;
            }
            syn::Expr::Macro(m) => {
                let n = macro_name(&m.mac);
                if LOG_MACROS.contains(&n.as_str()) {
                    self.out.rep(rg(m.span()), "()");
                }
                self.calls_names.insert(n);
            }
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        if let Some(it) = &self.self_item {
            if nows(&t.to_token_stream().to_string()) == "Self::Item" {
                self.out.rep(rg(t.span()), it);
            }
        }
        visit::visit_type_path(self, t);
    }
}

struct FileX<'c> {
    cx: &'c mut Ctx,
    file: String,
    src: String,
    out: Out,
    marked: String,
}

fn line_of(src: &str, pos: usize) -> usize {
    src[..pos].bytes().filter(|b| *b == b'\n').count() + 1
}

impl<'c> FileX<'c> {
    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        self.attrs2(attrs, false)
    }
    fn attrs2(&mut self, attrs: &[syn::Attribute], unit_enum: bool) {
        let mut es = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let mut keep = vec![];
                if let syn::Meta::List(l) = &a.meta {
                    if let Ok(ps) = l.parse_args_with(
                        syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated,
                    ) {
                        for p in ps {
                            let n = p.segments.last().unwrap().ident.to_string();
                            if ["Clone", "Copy", "PartialEq", "Eq", "Debug"].contains(&n.as_str()) {
                                keep.push(n);
                            }
                        }
                    }
                }
                // fieldless enums: the derived comparison is structural
                if unit_enum && keep.iter().any(|k| k == "PartialEq") {
                    keep.retain(|k| k != "PartialEq" && k != "Eq");
                }
                let t = if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
                es.push((rg(a.span()), t));
            } else if a.path().is_ident("repr") {
                // kept: it fixes discriminant type and layout
            } else {
                es.push((rg(a.span()), String::new()));
            }
        }
        for (r, t) in es {
            self.out.rep(r, &t);
        }
    }
    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Inherited => self.out.ins(at, "pub ", 50),
            _ => self.out.rep(rg(v.span()), "pub"),
        }
    }

    fn items(&mut self, items: &[syn::Item], modpath: &str, srcdir: &Path, mods: &mut Vec<(String, usize)>) {
        for it in items {
            let attrs = item_attrs(it);
            let r = full_range(it, attrs);
            if !self.cx.cfg.keep(attrs) {
                self.out.del(r);
                continue;
            }
            match it {
                syn::Item::Use(u) => {
                    self.attrs(attrs);
                    let txt = self.use_item(u);
                    let body = rg(u.span());
                    let lo = attrs.iter().map(|a| rg(a.span()).end).max().unwrap_or(body.start).max(
                        if attrs.is_empty() { body.start } else { 0 },
                    );
                    self.out.rep(lo..body.end, &txt);
                }
                syn::Item::Mod(m) => {
                    self.attrs(attrs);
                    if let Some((_, inner)) = &m.content {
                        // an inline module: left in place
                        self.vis(&m.vis, rg(m.mod_token.span()).start);
                        let inner = inner.clone();
                        self.items(&inner, &format!("{modpath}::{}", m.ident), srcdir, mods);
                    } else {
                        mods.push((m.ident.to_string(), r.start));
                        let body = full_range(m, attrs);
                        self.out.rep(body, &format!("\u{1}MOD {}\u{2}", m.ident));
                    }
                }
                syn::Item::Macro(m) if macro_name(&m.mac) == "declare_id" => {
                    self.out.rep(r, "pub uninterp spec fn program_key() -> crate::stubs::solana_program::pubkey::Pubkey;\n#[verifier::external_body]\npub fn id() -> (r: crate::stubs::solana_program::pubkey::Pubkey) ensures r == program_key() { unimplemented!() }");
                }
                syn::Item::Macro(m) => {
                    self.cx.report.dropped.push(format!("{}: macro item {}!", self.file, macro_name(&m.mac)));
                    self.out.del(r);
                }
                syn::Item::Const(c) => {
                    self.attrs(attrs);
                    let n = c.ident.to_string();
                    if self.dropped_item(&n) {
                        self.out.del(r);
                        continue;
                    }
                    self.vis(&c.vis, rg(c.const_token.span()).start);
                    self.konst(&n, c.const_token.span(), c.eq_token.span(), &c.expr, c.semi_token.span());
                }
                syn::Item::Static(_) => self.attrs(attrs),
                syn::Item::Type(t) => {
                    self.attrs(attrs);
                    self.vis(&t.vis, rg(t.type_token.span()).start);
                }
                syn::Item::Struct(s) => {
                    self.attrs(attrs);
                    if self.dropped_item(&s.ident.to_string()) {
                        self.out.del(r);
                        continue;
                    }
                    self.vis(&s.vis, rg(s.struct_token.span()).start);
                    self.derive_stubs(&s.ident.to_string(), attrs, &s.generics, Some(s), None, r.end);
                    for f in s.fields.iter() {
                        if !self.cx.cfg.keep(&f.attrs) {
                            let mut rr = full_range(f, &f.attrs);
                            if self.src[rr.end..].starts_with(',') {
                                rr.end += 1;
                            }
                            self.out.del(rr);
                            continue;
                        }
                        self.attrs(&f.attrs);
                        let at = f.ident.as_ref().map(|i| rg(i.span()).start).unwrap_or(rg(f.ty.span()).start);
                        self.vis(&f.vis, at);
                    }
                }
                syn::Item::Enum(e) => {
                    self.attrs2(attrs, !e.variants.is_empty() && e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)));
                    if self.dropped_item(&e.ident.to_string()) {
                        self.out.del(r);
                        continue;
                    }
                    self.vis(&e.vis, rg(e.enum_token.span()).start);
                    self.derive_stubs(&e.ident.to_string(), attrs, &e.generics, None, Some(e), r.end);
                    // discriminants that are not literals: every variant gets its value spelled out
                    let fold = e.variants.iter().any(|v| matches!(&v.discriminant, Some((_, d)) if !matches!(d, syn::Expr::Lit(_)) && const_int(d).is_some()));
                    let mut nextd: Option<i128> = Some(0);
                    for v in e.variants.iter() {
                        self.attrs(&v.attrs);
                        for f in v.fields.iter() {
                            self.attrs(&f.attrs);
                        }
                        if let Some((_, d)) = &v.discriminant {
                            nextd = const_int(d);
                            if let (true, Some(n)) = (fold, nextd) {
                                self.out.rep(rg(d.span()), &n.to_string());
                            }
                        } else if let (true, Some(n)) = (fold, nextd) {
                            self.out.ins(rg(v.ident.span()).end, &format!(" = {n}"), 0);
                        }
                        nextd = nextd.map(|n| n + 1);
                    }
                }
                syn::Item::Fn(f) => {
                    self.attrs(attrs);
                    let n = f.sig.ident.to_string();
                    if self.func(&n, attrs, Some(&f.vis), &f.sig, Some(&f.block), r.clone(), None, false) {
                        continue;
                    }
                }
                syn::Item::Trait(t) => {
                    self.attrs(attrs);
                    let tn = t.ident.to_string();
                    if self.dropped_item(&tn) {
                        self.out.del(r);
                        continue;
                    }
                    self.vis(&t.vis, t.unsafety.map(|u| rg(u.span()).start).unwrap_or(rg(t.trait_token.span()).start));
                    for ti in &t.items {
                        match ti {
                            syn::TraitItem::Fn(f) => {
                                self.attrs(&f.attrs);
                                let rr = full_range(f, &f.attrs);
                                self.func(&format!("{tn}::{}", f.sig.ident), &f.attrs, None, &f.sig, f.default.as_ref(), rr, None, true);
                            }
                            syn::TraitItem::Type(f) => self.attrs(&f.attrs),
                            syn::TraitItem::Const(f) => self.attrs(&f.attrs),
                            _ => {}
                        }
                    }
                    self.within(&format!("trait {tn}"), rg(t.brace_token.span.close()).start);
                }
                syn::Item::Impl(im) => self.impl_item(im, r),
                _ => {
                    self.cx.report.dropped.push(format!("{}: item", self.file));
                    self.out.del(r);
                }
            }
        }
    }

    /// `const X: T = size_of..;` becomes an exec const with the same body and the
    /// spec reading of its own initializer as postcondition
    fn konst(&mut self, name: &str, kw: Span, eq: Span, expr: &syn::Expr, semi: Span) {
        let t = self.src[rg(expr.span())].to_string();
        if !t.contains("size_of") {
            return;
        }
        let sp = t.replace("std::mem::size_of", "size_of").replace("mem::size_of", "size_of").replace("size_of", "vstd::layout::size_of");
        self.out.ins(rg(kw).start, "exec ", 60);
        self.out.rep(rg(eq), &format!("ensures {name} == {sp} {{"));
        self.out.rep(rg(semi), " }");
    }

    fn dropped_item(&self, n: &str) -> bool {
        self.cx.spec.files.get(&self.file).map(|f| f.drop_items.iter().any(|x| x == n)).unwrap_or(false)
    }

    fn within(&mut self, key: &str, at: usize) {
        let cls: Vec<Clause> = self
            .cx
            .spec
            .files
            .get(&self.file)
            .and_then(|f| f.trait_items.iter().find(|(k, _)| nows(k) == nows(key)).map(|(_, v)| v.clone()))
            .unwrap_or_default();
        for c in cls {
            if self.cx.has(&c) {
                let t = format!("{}{}\n//@src {}\n", mark("item", key, &c), c.text, self.file);
                self.out.ins(at, &t, 0);
            }
        }
    }

    fn impl_item(&mut self, im: &syn::ItemImpl, r: std::ops::Range<usize>) {
        self.attrs(&im.attrs);
        let ty = match &*im.self_ty {
            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => nows(&t.to_token_stream().to_string()),
        };
        let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        let key = match &tr {
            Some(t) => format!("{t} for {ty}"),
            None => ty.clone(),
        };
        let dropped = tr.as_ref().map(|t| self.cx.spec.drop_traits.contains(t)).unwrap_or(false)
            || self
                .cx
                .spec
                .files
                .get(&self.file)
                .map(|f| f.drop_impls.iter().any(|x| nows(x) == nows(&key)))
                .unwrap_or(false);
        if dropped {
            self.cx.report.dropped.push(format!("{}: impl {key}", self.file));
            self.out.del(r);
            return;
        }
        let mut self_item = None;
        let is_iter = tr.as_deref() == Some("Iterator");
        if is_iter {
            let (_, p, f) = im.trait_.as_ref().unwrap();
            self.out.del(rg(p.span()).start..rg(f.span()).end);
        }
        for ii in &im.items {
            if let syn::ImplItem::Type(t) = ii {
                if is_iter {
                    if t.ident == "Item" {
                        self_item = Some(self.src[rg(t.ty.span())].to_string());
                    }
                    self.out.del(full_range(t, &t.attrs));
                }
            }
        }
        let trait_impl = im.trait_.is_some() && !is_iter;
        for ii in &im.items {
            match ii {
                syn::ImplItem::Fn(f) => {
                    let rr = full_range(f, &f.attrs);
                    if !self.cx.cfg.keep(&f.attrs) {
                        self.out.del(rr);
                        continue;
                    }
                    self.attrs(&f.attrs);
                    let vis = if trait_impl { None } else { Some(&f.vis) };
                    let nm = format!("{ty}::{}", f.sig.ident);
                    self.func(&nm, &f.attrs, vis, &f.sig, Some(&f.block), rr, self_item.clone(), trait_impl);
                }
                syn::ImplItem::Const(c) => {
                    let rr = full_range(c, &c.attrs);
                    if !self.cx.cfg.keep(&c.attrs) {
                        self.out.del(rr);
                        continue;
                    }
                    self.attrs(&c.attrs);
                    if self.dropped_item(&format!("{ty}::{}", c.ident)) {
                        self.cx.report.dropped.push(format!("{}: const {ty}::{}", self.file, c.ident));
                        self.out.del(rr);
                        continue;
                    }
                    if !trait_impl {
                        self.vis(&c.vis, rg(c.const_token.span()).start);
                        self.konst(&format!("Self::{}", c.ident), c.const_token.span(), c.eq_token.span(), &c.expr, c.semi_token.span());
                    }
                }
                syn::ImplItem::Type(t) => {
                    if !is_iter {
                        self.attrs(&t.attrs)
                    }
                }
                _ => {}
            }
        }
        self.within(&format!("impl {key}"), rg(im.brace_token.span.close()).start);
    }

    fn use_item(&mut self, u: &syn::ItemUse) -> String {
        let mut s = String::new();
        let mut leaves = vec![];
        fn rec(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>, bool)>) {
            match t {
                syn::UseTree::Path(p) => {
                    pre.push(p.ident.to_string());
                    rec(&p.tree, pre, out);
                    pre.pop();
                }
                syn::UseTree::Name(n) => {
                    let mut v = pre.clone();
                    v.push(n.ident.to_string());
                    out.push((v, None, false));
                }
                syn::UseTree::Rename(n) => {
                    let mut v = pre.clone();
                    v.push(n.ident.to_string());
                    out.push((v, Some(n.rename.to_string()), false));
                }
                syn::UseTree::Glob(_) => out.push((pre.clone(), None, true)),
                syn::UseTree::Group(g) => {
                    for t in &g.items {
                        rec(t, pre, out);
                    }
                }
            }
        }
        rec(&u.tree, &mut vec![], &mut leaves);
        for (mut path, ren, glob) in leaves {
            let first = path[0].clone();
            let last = path.last().unwrap().clone();
            if ["num_derive", "thiserror", "num_enum", "enumflags2"].contains(&first.as_str()) {
                continue;
            }
            if ["InstructionsAccount", "Zeroable", "NoUninit", "CheckedBitPattern", "msg", "declare_id", "entrypoint"]
                .contains(&last.as_str())
                && self.cx.stub_crates.contains(&first.as_str())
            {
                continue;
            }
            if last == "self" {
                path.pop();
            }
            if self.cx.wasm && path.len() == 3 && first == "std" && ["cell", "rc"].contains(&path[1].as_str()) {
                path[0] = "stubs".into();
                path.insert(0, "crate".into());
            }
            if self.cx.stub_crates.contains(&first.as_str()) {
                path.insert(0, "stubs".into());
                path.insert(0, "crate".into());
            }
            // private traits of serialisation crates are replaced by generated functions
            let _ = write!(s, "#[allow(unused_imports)] pub use {}{}{}; ", path.join("::"),
                if glob { "::*" } else { "" },
                ren.map(|r| format!(" as {r}")).unwrap_or_default());
        }
        s
    }

    /// stand-ins for what the dropped derive macros generate
    fn derive_stubs(
        &mut self,
        name: &str,
        attrs: &[syn::Attribute],
        generics: &syn::Generics,
        st: Option<&syn::ItemStruct>,
        en: Option<&syn::ItemEnum>,
        at: usize,
    ) {
        let has = |n: &str| {
            attrs.iter().any(|a| {
                a.path().is_ident("derive")
                    && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == n)
            })
        };
        let mut s = String::new();
        if self.cx.wasm {
            if has("BorshDeserialize") {
                self.borsh_dec(name, generics, st, en, attrs, at);
            }
            return;
        }
        if let Some(e) = en {
            if has("PartialEq") && e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)) && !e.variants.is_empty() {
                // a derived comparison of a fieldless enum is equality
                let _ = write!(
                    s,
                    "\n//@gen PartialEq\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{\n    open spec fn obeys_eq_spec() -> bool {{ true }}\n    open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }}\n}}\nimpl PartialEq for {name} {{\n    #[verifier::external_body]\n    fn eq(&self, other: &Self) -> (r: bool) {{ unimplemented!() }}\n}}\n"
                );
                if has("Eq") {
                    let _ = write!(s, "impl Eq for {name} {{}}\n");
                }
            }
            if has("BorshSize") {
                let _ = write!(
                    s,
                    "\n//@gen BorshSize\nimpl crate::stubs::bonfida_utils::BorshSize for {name} {{\n    #[verifier::external_body]\n    fn borsh_len(&self) -> usize {{ unimplemented!() }}\n}}\n"
                );
            }
            if has("FromPrimitive") {
                let mut vals: Vec<(i128, String)> = vec![];
                let mut next: i128 = 0;
                for v in &e.variants {
                    if let Some((_, d)) = &v.discriminant {
                        if let Some(n) = const_int(d) {
                            next = n;
                        } else {
                            return;
                        }
                    }
                    vals.push((next, v.ident.to_string()));
                    next += 1;
                }
                let arms: String = vals.iter().map(|(n, v)| format!("        {n} => Some({name}::{v}),\n")).collect();
                let sarms: String = vals
                    .iter()
                    .map(|(n, v)| format!("if n == {n} {{ Some({name}::{v}) }} else "))
                    .collect();
                let _ = write!(
                    s,
                    "\n//@gen FromPrimitive\nimpl crate::stubs::num_traits::FromPrimitive for {name} {{\n    open spec fn spec_from_u8(n: u8) -> Option<Self> {{ {sarms}{{ None }} }}\n    fn from_u8(n: u8) -> (r: Option<Self>) {{\n        match n {{\n{arms}        _ => None,\n        }}\n    }}\n}}\n"
                );
            }
        }
        if let Some(sx) = st {
            // field offsets of #[repr(C)] plain-data structs
            let repr_c = attrs.iter().any(|a| a.path().is_ident("repr") && a.meta.to_token_stream().to_string().contains('C'));
            if repr_c && has("Pod") && generics.params.is_empty() {
                let mut off = 0u64;
                let mut al = 1u64;
                let mut facts = vec![];
                let mut known = true;
                for f in &sx.fields {
                    if !self.cx.cfg.keep(&f.attrs) {
                        continue;
                    }
                    match layout_of(&f.ty) {
                        Some((sz, a)) => {
                            off = (off + a - 1) / a * a;
                            al = al.max(a);
                            let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                            facts.push(format!(
                                "        crate::stubs::bytemuck::pod_bytes::<{name}>(x).subrange({off}, {}) == crate::stubs::bytemuck::pod_bytes::<{}>(x.{n}),\n",
                                off + sz, f.ty.to_token_stream()
                            ));
                            off += sz;
                        }
                        None => known = false,
                    }
                }
                if known {
                    off = (off + al - 1) / al * al;
                    // rustc here aligns u128 to 16; the deployed layout (and rustc < 1.77) aligns it to 8,
                    // so for those structs the size is an assumption instead of a compiler-checked fact
                    let has128 = sx.fields.iter().any(|f| self.cx.cfg.keep(&f.attrs) && f.ty.to_token_stream().to_string().contains("u128"));
                    let (g, eb) = if has128 {
                        self.cx.report.notes.push(format!("{}: size_of {name} == {off} assumed (u128 aligned to 8)", self.file));
                        (String::new(), "#[verifier::external_body]\n")
                    } else {
                        (format!("global size_of {name} == {off};\n"), "")
                    };
                    let _ = write!(
                        s,
                        "\n//@gen layout\n{g}{eb}pub proof fn size_{}() ensures vstd::layout::size_of::<{name}>() == {off} {{}}\n#[verifier::external_body]\npub proof fn layout_{}(x: {name})\n    ensures\n        crate::stubs::bytemuck::pod_bytes::<{name}>(x).len() == {off},\n{}{{}}\n",
                        name.to_lowercase(), name.to_lowercase(), facts.concat()
                    );
                } else {
                    self.cx.report.notes.push(format!("{}: layout of {name} not computed", self.file));
                }
            }
            let (ig, tg, wg) = generics.split_for_impl();
            let borsh_attr = sx.fields.iter().flat_map(|f| f.attrs.iter()).chain(attrs.iter()).any(|a| a.path().segments.iter().any(|s| s.ident.to_string().starts_with("borsh")));
            if borsh_attr {
                self.cx.report.lost.push(serde_json::json!({"fn": format!("{}::{name}", self.file), "anchor": "borsh attribute"}));
            }
            if has("BorshSerialize") && has("BorshDeserialize") && !borsh_attr {
                // the derived encoding is the concatenation of the fields' encodings, and is decoded back
                let sum: String = sx.fields.iter().map(|f| {
                    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                    format!(" + crate::stubs::borsh::borsh_ser(x.{n})")
                }).collect();
                let _ = write!(
                    s,
                    "\n//@gen borsh\n#[verifier::external_body]\npub proof fn borsh_{}{}(x: {name}{}) {}\n    ensures\n        crate::stubs::borsh::borsh_de::<{name}{}>(crate::stubs::borsh::borsh_ser(x)) == Ok::<{name}{}, crate::stubs::borsh::Error>(x),\n        crate::stubs::borsh::borsh_ser(x) == Seq::<u8>::empty(){sum},\n{{}}\n",
                    name.to_lowercase(), ig.to_token_stream(), tg.to_token_stream(), wg.to_token_stream(), tg.to_token_stream(), tg.to_token_stream()
                );
            }
            if has("BorshSize") {
                let _ = write!(
                    s,
                    "\n//@gen BorshSize\nimpl {} crate::stubs::bonfida_utils::BorshSize for {name} {} {} {{\n    #[verifier::external_body]\n    fn borsh_len(&self) -> usize {{ unimplemented!() }}\n}}\n",
                    ig.to_token_stream(), tg.to_token_stream(), wg.to_token_stream()
                );
            }
            if has("BorshDeserialize") {
                let _ = write!(
                    s,
                    "\n//@gen BorshDeserialize\nimpl {} {name} {} {} {{\n    #[verifier::external_body]\n    pub fn try_from_slice(b: &[u8]) -> (r: Result<Self, crate::stubs::borsh::Error>)\n        ensures r == crate::stubs::borsh::borsh_de::<Self>(b@),\n    {{ unimplemented!() }}\n}}\n",
                    ig.to_token_stream(), tg.to_token_stream(), wg.to_token_stream()
                );
            }
            if has("InstructionsAccount") {
                let mut fields = vec![];
                for f in &sx.fields {
                    let n = f.ident.as_ref().unwrap().to_string();
                    let mut writable = false;
                    let mut signer = false;
                    let mut plain = nows(&f.ty.to_token_stream().to_string()).starts_with("&'aT");
                    for a in &f.attrs {
                        if a.path().is_ident("cons") {
                            let t = a.meta.to_token_stream().to_string();
                            writable |= t.contains("writable");
                            signer |= t.contains("signer");
                        }
                    }
                    if !plain {
                        plain = false;
                        self.cx.report.notes.push(format!("{}: {name}.{n} is not a plain account field", self.file));
                    }
                    let _ = plain;
                    fields.push((n, writable, signer));
                }
                let metas: Vec<String> = fields
                    .iter()
                    .map(|(n, w, g)| format!("AccountMeta {{ pubkey: *self.{n}, is_signer: {g}, is_writable: {w} }}"))
                    .collect();
                let _ = write!(
                    s,
                    "\n//@gen InstructionsAccount\nimpl<'a> {name}<'a, crate::stubs::solana_program::pubkey::Pubkey> {{\n    pub open spec fn metas(&self) -> Seq<crate::stubs::solana_program::instruction::AccountMeta> {{ use crate::stubs::solana_program::instruction::AccountMeta; seq![{}] }}\n    #[verifier::external_body]\n    pub fn get_instruction<P: crate::stubs::bonfida_utils::BorshSize>(&self, program_id: crate::stubs::solana_program::pubkey::Pubkey, instruction_id: u8, params: P) -> (r: crate::stubs::solana_program::instruction::Instruction)\n        requires crate::stubs::borsh::borsh_ser(params).len() < usize::MAX,\n        ensures r.program_id == program_id, r.accounts@ == self.metas(), r.data@ == seq![instruction_id] + crate::stubs::borsh::borsh_ser(params),\n    {{ unimplemented!() }}\n}}\n",
                    metas.join(", ")
                );
            }
        }
        if !s.is_empty() {
            let _ = write!(s, "//@src {}\n", self.file);
            self.out.ins(at, &s, 90);
        }
    }

    /// borsh's derived decoder: the fields (or the number of the variant) in the order of the declaration
    fn borsh_dec(&mut self, name: &str, generics: &syn::Generics, st: Option<&syn::ItemStruct>, en: Option<&syn::ItemEnum>, attrs: &[syn::Attribute], at: usize) {
        let odd = |a: &[syn::Attribute]| a.iter().any(|a| a.path().segments.iter().any(|s| s.ident.to_string().starts_with("borsh")));
        let mut trouble = odd(attrs) || !generics.params.is_empty();
        let (mut len, mut ok, mut dec) = (String::from("0nat"), String::from("true"), String::new());
        if let Some(sx) = st {
            let mut fields = vec![];
            for f in &sx.fields {
                trouble |= odd(&f.attrs) || f.ident.is_none();
                let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                let ty = self.src[rg(f.ty.span())].to_string();
                let part = format!("b.subrange(({len}) as int, ({len} + <{ty} as crate::stubs::BorshDec>::blen()) as int)");
                let _ = write!(ok, " && <{ty} as crate::stubs::BorshDec>::bok({part})");
                fields.push(format!("{n}: <{ty} as crate::stubs::BorshDec>::bdec({part})"));
                let _ = write!(len, " + <{ty} as crate::stubs::BorshDec>::blen()");
            }
            dec = format!("{name} {{ {} }}", fields.join(", "));
        }
        if let Some(e) = en {
            trouble |= e.variants.is_empty() || e.variants.iter().any(|v| !matches!(v.fields, syn::Fields::Unit));
            len = "1nat".into();
            ok = format!("b[0] < {}", e.variants.len());
            for (i, v) in e.variants.iter().enumerate() {
                if i + 1 < e.variants.len() {
                    let _ = write!(dec, "if b[0] == {i} {{ {name}::{} }} else ", v.ident);
                } else {
                    let _ = write!(dec, "{{ {name}::{} }}", v.ident);
                }
            }
        }
        if trouble {
            self.cx.report.lost.push(serde_json::json!({"fn": format!("{}::{name}", self.file), "anchor": "derived decoder not understood"}));
            return;
        }
        let s = format!(
            "\n//@gen BorshDeserialize\nimpl crate::stubs::BorshDec for {name} {{\n    open spec fn blen() -> nat {{ {len} }}\n    open spec fn bok(b: Seq<u8>) -> bool {{ {ok} }}\n    open spec fn bdec(b: Seq<u8>) -> Self {{ {dec} }}\n}}\nimpl {name} {{\n    #[verifier::external_body]\n    pub fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, std::io::Error>)\n        ensures\n            r is Ok <==> <{name} as crate::stubs::BorshDec>::blen() <= (*old(buf))@.len() && <{name} as crate::stubs::BorshDec>::bok((*old(buf))@.subrange(0, <{name} as crate::stubs::BorshDec>::blen() as int)),\n            r is Ok ==> r->Ok_0 == <{name} as crate::stubs::BorshDec>::bdec((*old(buf))@.subrange(0, <{name} as crate::stubs::BorshDec>::blen() as int)),\n    {{ unimplemented!() }}\n}}\n//@src {}\n",
            self.file
        );
        self.out.ins(at, &s, 90);
    }

    #[allow(clippy::too_many_arguments)]
    fn func(
        &mut self,
        name: &str,
        attrs: &[syn::Attribute],
        vis: Option<&syn::Visibility>,
        sig: &syn::Signature,
        block: Option<&syn::Block>,
        range: std::ops::Range<usize>,
        self_item: Option<String>,
        in_trait: bool,
    ) -> bool {
        let known = self.cx.alias.get(&format!("{}::{name}", self.file)).and_then(|o| o.strip_prefix(&format!("{}::", self.file))).unwrap_or(name).to_string();
        let spec: Option<FnSpec> = self
            .cx
            .spec
            .files
            .get(&self.file)
            .and_then(|f| f.fns.iter().find(|(k, _)| nows(k) == nows(&known)).map(|(_, v)| v.clone()));
        if let Some(s) = self.cx.spec.files.get(&self.file).and_then(|f| f.fns.iter().find(|(k, _)| nows(k) == nows(&known)).map(|(_, v)| v)) {
            s.used.set(true);
        }
        let full = format!("{}::{}", self.file, name);
        let line = line_of(&self.src, rg(sig.fn_token.span()).start);
        if spec.as_ref().map(|s| s.skip).unwrap_or(false) {
            self.cx.report.dropped.push(full);
            self.out.del(range);
            return true;
        }
        let fn_at = {
            let mut p = rg(sig.fn_token.span()).start;
            if let Some(u) = &sig.unsafety {
                p = p.min(rg(u.span()).start);
            }
            if let Some(u) = &sig.constness {
                p = p.min(rg(u.span()).start);
            }
            p
        };
        if let Some(v) = vis {
            self.vis(v, fn_at);
        }
        let head_at = attrs
            .iter()
            .map(|a| rg(a.span()).start)
            .min()
            .unwrap_or(usize::MAX)
            .min(vis.map(|v| if matches!(v, syn::Visibility::Inherited) { fn_at } else { rg(v.span()).start }).unwrap_or(fn_at));

        let uncontracted = spec.is_none();
        let in_scope = match &self.cx.scope {
            None => true,
            Some(l) => l.iter().any(|p| scope_match(p, &self.file, name)),
        };
        let trust = spec.as_ref().map(|s| s.trust).unwrap_or(false);
        let stubbed = self.cx.stub.contains(&full);
        let stub_body = block.is_some() && (uncontracted || trust || stubbed || !in_scope);
        let mut spec = spec.unwrap_or_default();
        for (o, n) in self.cx.rename.get(&full).cloned().unwrap_or_default() {
            let f = |t: &mut String| *t = rename_word(t, &o, &n);
            for c in spec.sig.iter_mut().chain(spec.ghosts.iter_mut()).chain(spec.loops.values_mut().flatten()) {
                f(&mut c.text);
                c.anchor.iter_mut().skip(1).for_each(f);
            }
            spec.closures.values_mut().for_each(f);
        }
        // proof hints: loop invariants, ghost code and closure contracts may be left out; the
        // requires and ensures of the function never are
        let bare = self.cx.bare.contains(&full);
        let gone = |c: &Clause| bare || self.cx.drop.contains(&format!("{full}@{}", c.origin));
        let (before, nl) = (spec.ghosts.len(), spec.loops.values().map(|v| v.len()).sum::<usize>());
        spec.ghosts.retain(|c| !gone(c));
        for v in spec.loops.values_mut() {
            v.retain(|c| !gone(c));
        }
        if bare {
            spec.closures.clear();
        }
        let nh = before - spec.ghosts.len() + nl - spec.loops.values().map(|v| v.len()).sum::<usize>();
        if nh > 0 || bare {
            self.cx.report.lost.push(serde_json::json!({"fn": full, "anchor": format!("{nh} proof hints do not fit the code"), "hint": true}));
        }
        if stubbed && !uncontracted {
            self.cx.report.lost.push(serde_json::json!({"fn": full, "anchor": "the verifier does not accept this body"}));
        }
        let mut fi = serde_json::json!({"fn": full, "line": line, "own": spec.own, "verified": !stub_body && block.is_some(),
            "contracted": !uncontracted, "names": bound_names(sig, block)});
        if uncontracted {
            self.cx.report.uncontracted.push(full.clone());
        } else if trust {
            self.cx.report.trusted.push(full.clone());
        } else if !in_scope && block.is_some() {
            self.cx.report.assumed.push(full.clone());
        }
        // return value name
        if let Some(rn) = &spec.ret {
            match &sig.output {
                syn::ReturnType::Default => {
                    self.cx.report.lost.push(serde_json::json!({"fn": full, "anchor": "return type"}));
                }
                syn::ReturnType::Type(_, t) => {
                    let tr = rg(t.span());
                    self.out.ins(tr.start, &format!("({rn}: "), 10);
                    self.out.ins(tr.end, ")", -10);
                }
            }
        }
        if let Some(it) = &self_item {
            if let syn::ReturnType::Type(_, t) = &sig.output {
                struct V<'a>(&'a mut Out, &'a str);
                impl<'a, 'b> Visit<'b> for V<'a> {
                    fn visit_type_path(&mut self, t: &'b syn::TypePath) {
                        if nows(&t.to_token_stream().to_string()) == "Self::Item" {
                            self.0.rep(rg(t.span()), self.1);
                        }
                        visit::visit_type_path(self, t);
                    }
                }
                V(&mut self.out, it).visit_type(t);
            }
        }
        // underscore parameters are given names
        let mut k = 0;
        for a in &sig.inputs {
            if let syn::FnArg::Typed(p) = a {
                if let syn::Pat::Wild(w) = &*p.pat {
                    k += 1;
                    self.out.rep(rg(w.span()), &format!("_p{k}"));
                }
            }
        }
        // requires / ensures
        let mut sigtxt = String::new();
        for (kind, kw) in [("req", "requires"), ("ens", "ensures"), ("dec", "decreases")] {
            let mut first = true;
            for c in spec.sig.iter().filter(|c| c.kind == kind) {
                if !self.cx.has(c) {
                    continue;
                }
                if first {
                    let _ = write!(sigtxt, "\n{kw}");
                    first = false;
                }
                let _ = write!(sigtxt, "{}{}", mark(kind, &full, c), c.text);
                if !c.text.trim_end().ends_with(',') {
                    sigtxt.push(',');
                }
            }
        }
        let body_open = match block {
            Some(b) => rg(b.brace_token.span.open()).start,
            None => rg(sig.span()).end,
        };
        let body_line = line_of(&self.src, body_open);
        let marks: Vec<Clause> = spec.sig.iter().filter(|c| c.kind == "mark" && self.cx.has(c)).cloned().collect();
        if !marks.is_empty() && block.is_some() {
            // the function keeps its text under a new name; callers go through a stand-in with
            // the same contract that also records the call
            let args: Vec<String> = sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    syn::FnArg::Typed(p) => match &*p.pat {
                        syn::Pat::Ident(i) => Some(i.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            let out_ty = match &sig.output {
                syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
                _ => None,
            };
            if let (true, Some(rn), Some(t)) = (args.len() == sig.inputs.len(), &spec.ret, out_ty) {
                let tys: Vec<String> = sig.generics.type_params().map(|p| p.ident.to_string()).collect();
                let inputs: Vec<String> = sig.inputs.iter().map(|a| a.to_token_stream().to_string()).collect();
                let mut st = sigtxt.clone();
                let kw = if spec.sig.iter().any(|c| c.kind == "ens" && self.cx.has(c)) { "" } else { "\nensures" };
                let _ = write!(st, "{kw}");
                for c in &marks {
                    let _ = write!(st, "{}{}", mark("ens", &full, c), c.text);
                }
                let body: String = marks.iter().map(|c| format!("assume({});", c.text.trim().trim_end_matches(','))).collect();
                let _ = write!(
                    self.marked,
                    "\n//@gen mark\npub fn {}{}({}) -> ({rn}: {t}) {} {st}\n//@src {}:{}:{}\n{{ let {rn} = {}__body{}({}); proof {{ {body} }} {rn} }}\n",
                    sig.ident, { let (ig, _, _) = sig.generics.split_for_impl(); ig.to_token_stream().to_string() },
                    inputs.join(", "),
                    sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default(),
                    self.file, body_line, name, sig.ident,
                    if tys.is_empty() { String::new() } else { format!("::<{}>", tys.join(", ")) },
                    args.join(", ")
                );
                self.out.rep(rg(sig.ident.span()), &format!("{}__body", sig.ident));
                self.cx.report.notes.push(format!("{full}: calls are recorded by a stand-in"));
            } else {
                self.cx.report.lost.push(serde_json::json!({"fn": full, "anchor": "call record"}));
            }
        }
        if !sigtxt.is_empty() {
            sigtxt.push_str(&format!("\n//@src {}:{}:{}\n", self.file, body_line, name));
            self.out.ins(body_open, &sigtxt, 0);
        }
        let mut at = String::new();
        let _ = write!(at, "\n//@fn {}\n", serde_json::json!({"fn": full, "line": line}));
        if stub_body {
            at.push_str("#[verifier::external_body] ");
        } else {
            for (_, a) in &spec.attrs {
                at.push_str(a);
                at.push(' ');
            }
            // each function in a solver process of its own: no proof depends on what was proved before it
            if block.is_some() {
                at.push_str("#[verifier::spinoff_prover] ");
            }
            if self.cx.noiso.contains(&full) {
                at.push_str("#[verifier::loop_isolation(false)] ");
            }
        }
        let _ = write!(at, "\n//@src {}:{}:{}\n", self.file, line, name);
        self.out.ins(head_at, &at, 0);
        let Some(block) = block else {
            self.cx.report.fns.push(fi);
            return false;
        };
        let br = rg(block.brace_token.span.join());
        let inner = rg(block.brace_token.span.open()).end..rg(block.brace_token.span.close()).start;
        if stub_body {
            self.out.rep(br, "{ unimplemented!() }");
            self.cx.report.fns.push(fi);
            return false;
        }
        // walk the body
        let mut tmp = Out { edits: vec![] };
        if self.cx.vacuity {
            let t = format!(
                "\n//@vac {}\n proof {{ assert(false); }}\n//@src {}:{}:{}\n",
                serde_json::json!({"fn": full, "loop": 0}), self.file, line_of(&self.src, inner.start), name
            );
            tmp.ins(inner.start, &t, 5);
        }
        let src = self.src.clone();
        let mut b = Body {
            cx: self.cx,
            src: &src,
            out: &mut tmp,
            stmt: vec![],
            lets: vec![],
            binds: vec![],
            calls: vec![],
            assigns: vec![],
            returns: vec![],
            conts: vec![],
            breaks: vec![],
            loops: vec![],
            ifs: vec![],
            arms: vec![],
            closures: vec![],
            fn_depth: 0,
            calls_names: Default::default(),
            wrapped: Default::default(),
            self_item: self_item.clone(),
            abort_ok: spec.abort_ok,
            cells: vec![],
            branch: vec![],
            repeat: 0,
            alias: Default::default(),
            cell_fns: self.cx.cell_fns.clone(),
        };
        let _ = (b.fn_depth, &b.wrapped);
        b.visit_block(block);
        b.loops.sort();
        b.ifs.sort();
        b.closures.sort_by_key(|c| c.0);
        let binds = std::mem::take(&mut b.binds);
        let (lets, calls, assigns, returns, conts, breaks, loops, ifs, arms, closures, names) =
            (b.lets, b.calls, b.assigns, b.returns, b.conts, b.breaks, b.loops, b.ifs, b.arms, b.closures, b.calls_names);
        let cells = std::mem::take(&mut b.cells);
        let mut lost = vec![];
        let mut hints: Vec<String> = vec![];
        let seen: Vec<String> = cells.iter().map(|c| format!("{}{}", c.key.replace(' ', ":"), if c.write { "!" } else { "" })).collect();
        if spec.cells.is_empty() || spec.cells != seen {
            if let Some(t) = cell_trouble(&cells) {
                lost.push(format!("account access outside the model: {t}"));
            }
        }
        // loop contracts
        let mut need_nodec = false;
        for (i, l) in loops.iter().enumerate() {
            let n = i + 1;
            if self.cx.vacuity {
                let t = format!(
                    "\n//@vac {}\n proof {{ assert(false); }}\n//@src {}:{}:{}\n",
                    serde_json::json!({"fn": full, "loop": n}), self.file, line_of(&self.src, l.0), name
                );
                tmp.ins(l.0 + 1, &t, -50);
            }
            match spec.loops.get(&n) {
                None => {
                    need_nodec = true;
                    if !uncontracted {
                        hints.push(format!("loop {n} has no invariant"));
                    }
                }
                Some(cls) => {
                    let mut t = String::new();
                    let mut dec = false;
                    for (kind, kw) in [("invxb", "invariant_except_break"), ("inv", "invariant"), ("lens", "ensures"), ("dec", "decreases")] {
                        let mut first = true;
                        for c in cls.iter().filter(|c| c.kind == kind) {
                            if !self.cx.has(c) {
                                continue;
                            }
                            if first {
                                let _ = write!(t, "\n{kw}");
                                first = false;
                            }
                            if kind == "dec" {
                                dec = true;
                            }
                            let _ = write!(t, "{}{}", mark(kind, &full, c), c.text);
                            if !c.text.trim_end().ends_with(',') {
                                t.push(',');
                            }
                        }
                    }
                    if !dec {
                        need_nodec = true;
                    }
                    let _ = write!(t, "\n//@src {}:{}:{}\n", self.file, line_of(&self.src, l.0), name);
                    tmp.ins(l.0, &t, 0);
                }
            }
        }
        for n in spec.loops.keys() {
            if *n > loops.len() {
                hints.push(format!("loop {n}"));
            }
        }
        if need_nodec {
            self.out.ins(head_at, "#[verifier::exec_allows_no_decreases_clause] ", 1);
        }
        // closures
        for (i, c) in closures.iter().enumerate() {
            let (end, body, blk) = c;
            let given = spec.closures.get(&(i + 1)).cloned();
            let auto = || -> Option<String> {
                let t = self.src[body.clone()].trim().to_string();
                let p: syn::Path = syn::parse_str(&t).ok()?;
                if p.segments.len() < 2 || p.segments.iter().any(|s| !s.arguments.is_none()) {
                    return None;
                }
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let ty = segs[..segs.len() - 1].join("::");
                if !ty.chars().last().map(|c| c.is_alphabetic()).unwrap_or(false) {
                    return None;
                }
                Some(format!("-> (r: {ty}) ensures r == {t}"))
            };
            if let Some(t) = given.or_else(auto) {
                tmp.ins(*end, &format!(" {} ", t.trim()), 0);
                if !blk {
                    tmp.ins(body.start, "{ ", 5);
                    tmp.ins(body.end, " }", -5);
                }
            }
        }
        for n in spec.closures.keys() {
            if *n > closures.len() {
                hints.push(format!("closure {n}"));
            }
        }
        // ghost code
        let mut wraps: BTreeSet<(usize, usize)> = Default::default();
        let mut tail: Option<(String, std::ops::Range<usize>, String)> = None;
        for g in &spec.ghosts {
            if !self.cx.has(g) {
                continue;
            }
            let a: Vec<&str> = g.anchor.iter().map(|s| s.as_str()).collect();
            let kth = |s: Option<&&str>| -> usize { s.and_then(|x| x.parse().ok()).unwrap_or(1) };
            let mut place: Option<(usize, i32, Option<(usize, usize)>)> = None;
            let hit_before = |h: &Hit| Some((h.before, 20, h.wrap));
            let hit_after = |h: &Hit| h.after.map(|p| (p, -20, None));
            match a.as_slice() {
                ["start"] => place = Some((inner.start, 0, None)),
                ["end"] => {
                    place = match block.stmts.last() {
                        Some(syn::Stmt::Expr(e, None)) => Some((rg(e.span()).start, 20, None)),
                        _ => Some((inner.end, 0, None)),
                    }
                }
                ["tail", rn] => {
                    // name the value of the tail expression
                    if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                        let r = rg(e.span());
                        let t = format!("{}{}", mark("ghost", &full, g), g.text);
                        match &mut tail {
                            Some((_, _, s)) => s.push_str(&t),
                            None => tail = Some((rn.to_string(), r, t)),
                        }
                        continue;
                    }
                }
                ["loop", n, w] => {
                    let n: usize = n.parse().unwrap_or(0);
                    if n >= 1 && n <= loops.len() {
                        let l = loops[n - 1];
                        place = match *w {
                            "start" => Some((l.0 + 1, 0, None)),
                            "end" => Some((l.1, 0, None)),
                            "before" => Some((l.2, 20, None)),
                            "after" => Some((l.3, -20, None)),
                            _ => None,
                        };
                    }
                }
                ["let", x, rest @ ..] => {
                    let k = kth(rest.first());
                    place = lets.iter().filter(|(p, _)| pat_has_ident(p, x)).nth(k - 1).and_then(|(_, h)| hit_after(h));
                    if !lets.iter().any(|(p, _)| pat_has_ident(p, x)) {
                        // bound by the pattern of a `while let` or `if let`
                        place = binds.iter().filter(|(p, _)| pat_has_ident(p, x)).nth(k - 1).map(|(_, o)| (*o, 0, None));
                    }
                }
                ["beforelet", x, rest @ ..] => {
                    let k = kth(rest.first());
                    place = lets.iter().filter(|(p, _)| pat_has_ident(p, x)).nth(k - 1).and_then(|(_, h)| hit_before(h));
                }
                ["before", x, rest @ ..] => {
                    let k = kth(rest.first());
                    place = calls.iter().filter(|(p, _)| p == x).nth(k - 1).and_then(|(_, h)| hit_before(h));
                }
                ["after", x, rest @ ..] => {
                    let k = kth(rest.first());
                    place = calls.iter().filter(|(p, _)| p == x).nth(k - 1).and_then(|(_, h)| hit_after(h));
                }
                ["assign", x, rest @ ..] => {
                    let k = kth(rest.first());
                    place = assigns.iter().filter(|(p, _)| p == x).nth(k - 1).and_then(|(_, h)| hit_after(h));
                }
                ["beforeassign", x, rest @ ..] => {
                    let k = kth(rest.first());
                    place = assigns.iter().filter(|(p, _)| p == x).nth(k - 1).and_then(|(_, h)| hit_before(h));
                }
                [w @ ("return" | "continue" | "break"), "*"] => {
                    // at every one of them
                    let hs = match *w {
                        "return" => &returns,
                        "continue" => &conts,
                        _ => &breaks,
                    };
                    for h in hs {
                        if let Some((lo, hi)) = h.wrap {
                            if wraps.insert((lo, hi)) {
                                tmp.ins(lo, "{ ", 15);
                                tmp.ins(hi, " }", -15);
                            }
                        }
                        let t = format!(
                            "{}{}\n//@src {}:{}:{}\n",
                            mark("ghost", &full, g), g.text, self.file, line_of(&self.src, h.before), name
                        );
                        tmp.ins(h.before, &t, 20);
                    }
                    continue;
                }
                ["return", k] => {
                    let k: usize = k.parse().unwrap_or(1);
                    place = returns.get(k - 1).and_then(hit_before);
                }
                ["then", k] => {
                    let k: usize = k.parse().unwrap_or(1);
                    place = ifs.get(k - 1).map(|x| (x.0, 0, None));
                }
                ["else", k] => {
                    let k: usize = k.parse().unwrap_or(1);
                    place = ifs.get(k - 1).and_then(|x| x.2).map(|p| (p, 0, None));
                }
                ["arm", x, rest @ ..] => {
                    let k = kth(rest.first());
                    place = arms.iter().filter(|(p, _, _)| p == x).nth(k - 1).map(|(_, h, br)| match br {
                        Some((o, _)) => (*o, 0, None),
                        None => (h.before, 20, h.wrap),
                    });
                }
                _ => {}
            }
            match place {
                None => {
                    if !g.optional {
                        hints.push(format!("ghost anchor `{}` ({})", g.anchor.join(" "), g.origin));
                    }
                }
                Some((p, prio, wrap)) => {
                    if let Some((lo, hi)) = wrap {
                        if wraps.insert((lo, hi)) {
                            tmp.ins(lo, "{ ", 15);
                            tmp.ins(hi, " }", -15);
                        }
                    }
                    let t = format!(
                        "{}{}\n//@src {}:{}:{}\n",
                        mark("ghost", &full, g), g.text, self.file, line_of(&self.src, p), name
                    );
                    tmp.ins(p, &t, prio);
                }
            }
        }
        if let Some((rn, r, t)) = tail {
            tmp.ins(r.start, &format!("let {rn} = "), 30);
            let t = format!(";{}\n//@src {}:{}:{}\n {rn}", t, self.file, line_of(&self.src, r.end), name);
            tmp.ins(r.end, &t, -30);
        }
        for l in &lost {
            self.cx.report.lost.push(serde_json::json!({"fn": full, "anchor": l}));
        }
        for l in &hints {
            self.cx.report.lost.push(serde_json::json!({"fn": full, "anchor": l, "hint": true}));
        }
        fi["calls"] = serde_json::json!(names);
        fi["loops"] = serde_json::json!(loops.len());
        self.cx.report.fns.push(fi);
        let base = self.out.edits.len();
        for mut e in tmp.edits {
            e.seq += base;
            self.out.edits.push(e);
        }
        let _ = in_trait;
        false
    }
}

fn scope_match(p: &str, file: &str, name: &str) -> bool {
    // "file.rs" | "file.rs::*" | "file.rs::Name" | "*::name"
    if p == "*" || p == file {
        return true;
    }
    match p.split_once(".rs::") {
        Some((f, n)) => format!("{f}.rs") == file && (n == "*" || nows(n) == nows(name)),
        None => false,
    }
}

fn emit_file(cx: &mut Ctx, path: &Path, rel: &str, modpath: &str, root: bool) -> Result<String, String> {
    let mut src = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    if cx.inline && !rel.starts_with("dep/") {
        let have: BTreeSet<String> = cx.spec.files.get(rel).map(|f| f.fns.iter().map(|(k, _)| nows(k)).collect()).unwrap_or_default();
        let renamed: BTreeSet<String> = cx.alias.keys().filter_map(|k| k.strip_prefix(&format!("{rel}::"))).map(nows).collect();
        let known = |k: &str| have.contains(&nows(k)) || renamed.contains(&nows(k));
        let mut notes = vec![];
        src = inline::unfold(&src, &known, &mut notes);
        for (h, c) in notes {
            cx.report.inlined.push(serde_json::json!({"fn": format!("{rel}::{c}"), "helper": format!("{rel}::{h}")}));
        }
    }
    let f = syn::parse_file(&src).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut fx = FileX { cx, file: rel.to_string(), src: src.clone(), out: Out { edits: vec![] }, marked: String::new() };
    for a in &f.attrs {
        fx.out.del(rg(a.span()));
    }
    let dir: PathBuf = if root || path.file_name().map(|n| n == "mod.rs").unwrap_or(false) {
        path.parent().unwrap().to_path_buf()
    } else {
        path.with_extension("")
    };
    let mut mods = vec![];
    fx.items(&f.items, modpath, &dir, &mut mods);
    let edits = std::mem::take(&mut fx.out.edits);
    let marked = std::mem::take(&mut fx.marked);
    let mut text = apply(&src, &edits);
    text.push_str(&marked);
    // extra items
    let extra: Vec<Clause> = cx.spec.files.get(rel).map(|f| f.items.clone()).unwrap_or_default();
    for c in extra {
        if cx.has(&c) {
            text.push_str(&mark("item", rel, &c));
            text.push_str(&c.text);
        }
    }
    for (m, _) in &mods {
        let p1 = dir.join(format!("{m}.rs"));
        let p2 = dir.join(m).join("mod.rs");
        let p = if p1.exists() { p1 } else { p2 };
        let prefix = if root { String::new() } else { format!("{}/", rel.trim_end_matches(".rs").trim_end_matches("/mod")) };
        let r2 = format!("{prefix}{m}.rs");
        let inner = emit_file(cx, &p, &r2, &format!("{modpath}::{m}"), false)?;
        text = text.replace(
            &format!("\u{1}MOD {m}\u{2}"),
            &format!("pub mod {m} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::stubs::*;\n#[allow(unused_imports)] use crate::spec::*;\n//@src {r2}:1\n{inner}\n}}\n//@src {rel}\n"),
        );
    }
    Ok(text)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = "/repo".to_string();
    let mut contracts = "/verif/contracts".to_string();
    let mut out = String::new();
    let mut map = String::new();
    let mut prop = "all".to_string();
    let mut scope: Option<Vec<String>> = None;
    let mut solana = false;
    let mut feats: BTreeSet<String> = Default::default();
    let mut fpm = String::new();
    let mut root_file = "program/src/lib.rs".to_string();
    let mut vacuity = false;
    let (mut drop, mut bare, mut stub, mut noiso): (BTreeSet<String>, BTreeSet<String>, BTreeSet<String>, BTreeSet<String>) = Default::default();
    let mut rename: BTreeMap<String, Vec<(String, String)>> = Default::default();
    let mut alias: BTreeMap<String, String> = Default::default();
    let mut inline = false;
    let set = |v: &str| v.split('|').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<BTreeSet<String>>();
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--vacuity" => {
                vacuity = true;
                i += 1;
                continue;
            }
            "--repo" => repo = v,
            "--contracts" => contracts = v,
            "--out" => out = v,
            "--map" => map = v,
            "--prop" => prop = v,
            "--scope" => scope = Some(v.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().to_string()).collect()),
            "--cfg" => solana = v == "solana",
            "--features" => feats = v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--fpmath" => fpm = v,
            "--root" => root_file = v,
            "--drop" => drop = set(&v),
            "--rename" => {
                for x in set(&v) {
                    let p: Vec<&str> = x.split(['@', '=']).collect();
                    if let [f, o, n] = p.as_slice() {
                        rename.entry(f.to_string()).or_default().push((o.to_string(), n.to_string()));
                    }
                }
            }
            "--alias" => {
                for x in set(&v) {
                    if let Some((n, o)) = x.split_once('=') {
                        alias.insert(n.to_string(), o.to_string());
                    }
                }
            }
            "--bare" => bare = set(&v),
            "--stub" => stub = set(&v),
            "--noiso" => noiso = set(&v),
            "--inline" => inline = v == "yes",
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(3)
            }
        }
        i += 2;
    }
    let mut spec = Spec::default();
    let mut raw: Vec<(String, String)> = vec![];
    let mut names: Vec<PathBuf> = std::fs::read_dir(&contracts).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        let t = std::fs::read_to_string(&p).unwrap_or_default();
        if n.ends_with(".vc") {
            if let Err(e) = dsl::parse(&n, &t, &mut spec) {
                eprintln!("contract error: {e}");
                std::process::exit(4);
            }
        } else if n.ends_with(".rs") {
            raw.push((n, t));
        }
    }
    let mut cell_fns: BTreeSet<String> = Default::default();
    for (f, fs) in &spec.files {
        let stem = f.trim_end_matches(".rs").rsplit('/').next().unwrap_or("").to_string();
        for (n, s) in &fs.fns {
            if s.sig.iter().any(|c| c.kind == "req" && ["may_write", "may_pay", "ready"].iter().any(|w| c.text.contains(w))) {
                cell_fns.insert(n.clone());
                cell_fns.insert(format!("{stem}::{n}"));
            }
        }
    }
    let mut cx = Ctx {
        wasm: root_file.contains("wasm"),
        drop,
        rename,
        alias,
        bare,
        stub,
        noiso,
        inline,
        cell_fns,
        cfg: Cfg { solana, features: feats },
        spec,
        prop,
        scope,
        vacuity,
        report: Report::default(),
        stub_crates: vec!["solana_program", "bonfida_utils", "borsh", "bytemuck", "num_traits", "spl_token", "wasm_bindgen"],
    };
    let root = Path::new(&repo).join(&root_file);
    let body = match emit_file(&mut cx, &root, "lib.rs", "crate", true) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("extract error: {e}");
            std::process::exit(5);
        }
    };
    let fp = if fpm.is_empty() {
        String::new()
    } else {
        match emit_file(&mut cx, Path::new(&fpm), "dep/fp_math.rs", "crate::fp_math", true) {
            Ok(b) => format!("pub mod fp_math {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::stubs::*;\n#[allow(unused_imports)] use crate::spec::*;\n//@src dep/fp_math.rs:1\n{b}\n}}\n"),
            Err(e) => {
                eprintln!("extract error: {e}");
                std::process::exit(5);
            }
        }
    };
    let mut text = String::new();
    text.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces)]\n#![verifier::allow(undeclared_external_trait)]\n#![verifier::allow(autoderive_clone_without_spec)]\n#[allow(unused_imports)] use vstd::prelude::*;\nverus! {\n");
    let width = if solana { "solana" } else { "host" };
    for (n, t) in &raw {
        let m = n.trim_end_matches(".rs");
        // files may hold `//@only host` / `//@only solana` sections
        let mut keep = true;
        let mut tt = String::new();
        for l in t.lines() {
            if let Some(r) = l.trim().strip_prefix("//@only ") {
                keep = r.trim() == "both" || r.trim() == width;
                continue;
            }
            if keep {
                tt.push_str(l);
            }
            tt.push('\n');
        }
        text.push_str(&format!("//@raw {n}\npub mod {m} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n{tt}\n}}\n"));
    }
    text.push_str(&fp);
    text.push_str("//@src lib.rs:1\n");
    text.push_str(&body);
    text.push_str("\n} // verus!\nfn main() {}\n");
    for (f, fs) in &cx.spec.files {
        for (n, s) in &fs.fns {
            if !s.used.get() && !s.skip {
                cx.report.lost.push(serde_json::json!({"fn": format!("{f}::{n}"), "anchor": "function not found"}));
            }
        }
    }
    // identical blocks of blank lines are squeezed
    std::fs::write(&out, &text).unwrap();
    let r = &cx.report;
    let j = serde_json::json!({
        "fns": r.fns, "lost": r.lost, "uncontracted": r.uncontracted, "assumed": r.assumed,
        "trusted": r.trusted, "dropped": r.dropped, "notes": r.notes, "inlined": r.inlined,
    });
    std::fs::write(&map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    let _: BTreeMap<(), ()> = BTreeMap::new();
}
