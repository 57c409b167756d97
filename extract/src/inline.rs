//! Functions that have no contract (new helper functions, as a refactoring leaves them)
//! are unfolded at their calls inside the same file, so that the function that has the
//! contract is proved together with the helper's body.  The unfolding is textual, of the
//! helper's own tokens: parameters become `let`s of the arguments (or the argument
//! itself, where it is a plain variable), an early `return` becomes the other branch of
//! the `if` it sits in, or a `return` of the caller where the call is under `?` or in
//! tail position.  Whatever does not fit these forms is left alone, and the caller is
//! then undecided by proof.
use crate::{nows, rg};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};

#[derive(Clone)]
struct Helper {
    key: String,
    ty: Option<String>,
    sig: syn::Signature,
    block: syn::Block,
    generics: BTreeSet<String>,
    range: std::ops::Range<usize>,
}

const STD: [&str; 44] = [
    "len", "get", "get_mut", "push", "pop", "iter", "iter_mut", "next", "min", "max", "map", "unwrap", "insert", "remove", "is_empty", "clone",
    "into", "from", "take", "first", "last", "contains", "copied", "cloned", "and_then", "ok_or", "unwrap_or", "checked_add", "checked_sub", "as_ref",
    "as_mut", "borrow", "borrow_mut", "to_vec", "write", "read", "replace", "split_at", "split_at_mut", "key", "zip", "rev", "find", "count",
];

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace('\n', " ")
}

fn type_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

struct Idents(BTreeSet<String>);
impl<'b> Visit<'b> for Idents {
    fn visit_ident(&mut self, i: &'b proc_macro2::Ident) {
        self.0.insert(i.to_string());
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        fn go(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => {
                        out.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.0);
        visit::visit_macro(self, m);
    }
}
fn idents_block(b: &syn::Block) -> BTreeSet<String> {
    let mut v = Idents(Default::default());
    v.visit_block(b);
    v.0
}
fn idents_expr(e: &syn::Expr) -> BTreeSet<String> {
    let mut v = Idents(Default::default());
    v.visit_expr(e);
    v.0
}

struct Bound(BTreeSet<String>);
impl<'b> Visit<'b> for Bound {
    fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
        self.0.insert(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
}

/// what leaves the function from inside the body
#[derive(Default)]
struct Exits {
    ret: usize,
    ret_ok: usize,
    q: usize,
    odd: bool,
}
impl<'b> Visit<'b> for Exits {
    fn visit_expr(&mut self, e: &'b syn::Expr) {
        match e {
            syn::Expr::Closure(_) | syn::Expr::Async(_) => return,
            syn::Expr::Return(r) => {
                self.ret += 1;
                let err = r.expr.as_ref().map(|e| err_arg(e).is_some()).unwrap_or(false);
                if !err {
                    self.ret_ok += 1;
                }
            }
            syn::Expr::Try(_) => self.q += 1,
            syn::Expr::Await(_) | syn::Expr::Yield(_) | syn::Expr::Unsafe(_) => self.odd = true,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'b syn::Item) {
        self.odd = true;
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        let mut v = Idents(Default::default());
        v.visit_macro(m);
        if v.0.contains("return") || m.tokens.to_string().contains('?') {
            self.odd = true;
        }
    }
}
fn exits_block(b: &syn::Block) -> Exits {
    let mut v = Exits::default();
    v.visit_block(b);
    v
}
fn exits_expr(b: &syn::Expr) -> Exits {
    let mut v = Exits::default();
    v.visit_expr(b);
    v
}

/// `Err(x)` → x
fn err_arg(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Call(c) if ts(&c.func) == "Err" && c.args.len() == 1 => Some(&c.args[0]),
        syn::Expr::Paren(p) => err_arg(&p.expr),
        _ => None,
    }
}

/// the statements as an expression body without `return`; None where that needs more than moving a branch
fn tails(stmts: &[syn::Stmt]) -> Option<String> {
    let mut out = String::new();
    for (i, s) in stmts.iter().enumerate() {
        let lastone = i + 1 == stmts.len();
        let e = match s {
            syn::Stmt::Expr(e, semi) => {
                if exits_expr(e).ret == 0 {
                    out.push_str(&ts(s));
                    out.push(' ');
                    continue;
                }
                (e, semi.is_some())
            }
            syn::Stmt::Local(l) => {
                let mut v = Exits::default();
                v.visit_local(l);
                if v.ret > 0 {
                    return None;
                }
                out.push_str(&ts(s));
                out.push(' ');
                continue;
            }
            other => {
                out.push_str(&ts(other));
                out.push(' ');
                continue;
            }
        };
        match e {
            (syn::Expr::Return(r), _) => {
                if let Some(x) = &r.expr {
                    out.push_str(&ts(x));
                }
                return Some(out);
            }
            (e, false) if lastone => {
                out.push_str(&tail_expr(e)?);
                return Some(out);
            }
            (syn::Expr::If(f), _) if exits_expr(&f.cond).ret == 0 => {
                let rest = tails(&stmts[i + 1..])?;
                let then = if always_returns(&f.then_branch) {
                    tails(&f.then_branch.stmts)?
                } else if exits_block(&f.then_branch).ret == 0 {
                    format!("{} ; {}", ts(&f.then_branch), rest)
                } else {
                    return None;
                };
                let els = match &f.else_branch {
                    None => rest,
                    Some((_, e)) => match &**e {
                        syn::Expr::Block(b) if always_returns(&b.block) => tails(&b.block.stmts)?,
                        e if exits_expr(e).ret == 0 => format!("{} ; {}", ts(e), rest),
                        _ => return None,
                    },
                };
                out.push_str(&format!("if {} {{ {} }} else {{ {} }}", ts(&f.cond), then, els));
                return Some(out);
            }
            (syn::Expr::Match(m), _) if lastone || m.arms.iter().all(|a| exits_expr(&a.body).ret == 0 || arm_returns(&a.body)) => {
                if exits_expr(&m.expr).ret > 0 {
                    return None;
                }
                let rest = tails(&stmts[i + 1..])?;
                out.push_str(&format!("match {} {{ ", ts(&m.expr)));
                for a in &m.arms {
                    if a.guard.as_ref().map(|(_, g)| exits_expr(g).ret > 0).unwrap_or(false) {
                        return None;
                    }
                    let g = a.guard.as_ref().map(|(_, g)| format!("if {}", ts(g))).unwrap_or_default();
                    let b = if exits_expr(&a.body).ret == 0 { format!("{{ {} ; {} }}", ts(&a.body), rest) } else { format!("{{ {} }}", tail_expr(&a.body)?) };
                    out.push_str(&format!("{} {} => {} ", ts(&a.pat), g, b));
                }
                out.push('}');
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}

fn arm_returns(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => always_returns(&b.block),
        _ => false,
    }
}

fn always_returns(b: &syn::Block) -> bool {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => true,
        Some(syn::Stmt::Expr(syn::Expr::If(f), _)) => {
            always_returns(&f.then_branch)
                && match &f.else_branch {
                    Some((_, e)) => matches!(&**e, syn::Expr::Block(b) if always_returns(&b.block)),
                    None => false,
                }
        }
        _ => false,
    }
}

fn tail_expr(e: &syn::Expr) -> Option<String> {
    if exits_expr(e).ret == 0 {
        return Some(ts(e));
    }
    match e {
        syn::Expr::Return(r) => Some(r.expr.as_ref().map(|x| ts(x)).unwrap_or_else(|| "()".into())),
        syn::Expr::Block(b) if b.label.is_none() => Some(format!("{{ {} }}", tails(&b.block.stmts)?)),
        syn::Expr::If(f) => {
            if exits_expr(&f.cond).ret > 0 {
                return None;
            }
            let els = match &f.else_branch {
                Some((_, e)) => tail_expr(e)?,
                None => return None,
            };
            Some(format!("if {} {{ {} }} else {{ {} }}", ts(&f.cond), tails(&f.then_branch.stmts)?, els))
        }
        syn::Expr::Match(m) => {
            if exits_expr(&m.expr).ret > 0 {
                return None;
            }
            let mut o = format!("match {} {{ ", ts(&m.expr));
            for a in &m.arms {
                if a.guard.as_ref().map(|(_, g)| exits_expr(g).ret > 0).unwrap_or(false) {
                    return None;
                }
                let g = a.guard.as_ref().map(|(_, g)| format!("if {}", ts(g))).unwrap_or_default();
                o.push_str(&format!("{} {} => {{ {} }} ", ts(&a.pat), g, tail_expr(&a.body)?));
            }
            o.push('}');
            Some(o)
        }
        _ => None,
    }
}

/// rewrite `return Err(x)` to `return Err((x).into())`
fn into_errs(src: &str) -> Option<String> {
    let b: syn::Block = syn::parse_str(&format!("{{ {src} }}")).ok()?;
    struct V(Vec<(usize, usize, String)>);
    impl<'b> Visit<'b> for V {
        fn visit_expr(&mut self, e: &'b syn::Expr) {
            match e {
                syn::Expr::Closure(_) => return,
                syn::Expr::Return(r) => {
                    if let Some(x) = r.expr.as_ref().and_then(|e| err_arg(e)) {
                        let already = matches!(x, syn::Expr::MethodCall(m) if m.method == "into");
                        if !already {
                            let r = rg(syn::spanned::Spanned::span(x));
                            self.0.push((r.start, r.end, format!("{}.into()", ts(x))));
                        }
                        return;
                    }
                }
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(&b);
    let mut t = format!("{{ {src} }}");
    v.0.sort();
    for (lo, hi, x) in v.0.into_iter().rev() {
        t.replace_range(lo..hi, &x);
    }
    Some(t)
}

/// replace a variable by the text of an expression
fn subst(src: &str, map: &[(String, String)]) -> Option<String> {
    use proc_macro2::{Delimiter, TokenStream, TokenTree};
    fn go(t: TokenStream, map: &[(String, String)], out: &mut String) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    out.push(' ');
                    // `Struct { name }` needs the name kept
                    go(g.stream(), map, out);
                    out.push_str(b);
                    out.push(' ');
                }
                TokenTree::Ident(id) => {
                    let n = id.to_string();
                    let p = |k: usize, c: char| i >= k && matches!(&v[i - k], TokenTree::Punct(p) if p.as_char() == c);
                    let nx = |k: usize, c: char| matches!(v.get(i + k), Some(TokenTree::Punct(p)) if p.as_char() == c);
                    let field = p(1, '.') && !p(2, '.');
                    let path = p(1, ':') && p(2, ':') || nx(1, ':') && nx(2, ':');
                    let label = nx(1, ':') && !nx(2, ':') && (i == 0 || p(1, ','));
                    match map.iter().find(|(o, _)| *o == n) {
                        Some((_, w)) if !field && !path && !label => out.push_str(w),
                        _ => out.push_str(&n),
                    }
                    out.push(' ');
                }
                TokenTree::Punct(q) => {
                    out.push(q.as_char());
                    if q.spacing() == proc_macro2::Spacing::Alone {
                        out.push(' ');
                    }
                }
                TokenTree::Literal(l) => {
                    out.push_str(&l.to_string());
                    out.push(' ');
                }
            }
        }
    }
    let t: TokenStream = src.parse().ok()?;
    let mut out = String::new();
    go(t, map, &mut out);
    Some(out)
}

/// struct literals in short form (`S { name }`) name a variable and a field at once
struct Short(BTreeSet<String>);
impl<'b> Visit<'b> for Short {
    fn visit_field_value(&mut self, f: &'b syn::FieldValue) {
        if f.colon_token.is_none() {
            self.0.insert(f.member.to_token_stream().to_string());
        }
        visit::visit_field_value(self, f);
    }
}

fn place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().is_some(),
        syn::Expr::Field(f) => place(&f.base),
        syn::Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}

fn plain(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Paren(p) => plain(&p.expr),
        syn::Expr::Group(p) => plain(&p.expr),
        _ => None,
    }
}

/// a type that can be written at the caller: no generic parameter, no `impl`, no `Self`
fn free_type(t: &syn::Type, h: &Helper, same_impl: bool) -> Option<String> {
    let mut v = Idents(Default::default());
    v.visit_type(t);
    if v.0.iter().any(|x| h.generics.contains(x)) || (!same_impl && v.0.contains("Self")) || ts(t).contains("impl ") || ts(t).contains("dyn ") {
        return None;
    }
    struct L(Vec<(usize, usize)>);
    impl<'b> Visit<'b> for L {
        fn visit_lifetime(&mut self, l: &'b syn::Lifetime) {
            self.0.push((rg(l.span()).start, rg(l.span()).end));
        }
    }
    let mut s = ts(t);
    let p: syn::Type = syn::parse_str(&s).ok()?;
    let mut l = L(vec![]);
    l.visit_type(&p);
    l.0.sort();
    for (lo, hi) in l.0.into_iter().rev() {
        if &s[lo..hi] != "'static" {
            s.replace_range(lo..hi, "'_");
        }
    }
    Some(s)
}

struct Found {
    lo: usize,
    hi: usize,
    text: String,
}

struct Finder<'h> {
    hs: &'h [Helper],
    impl_ty: Option<String>,
    ret: String,
    caller: String,
    n: usize,
    found: Option<(Found, String)>,
    refused: BTreeSet<String>,
    depth_closure: usize,
    tail: BTreeSet<(usize, usize)>,
}

fn result_err(t: &str) -> Option<String> {
    let t = nows(t);
    if t == "ProgramResult" {
        return Some("ProgramError".into());
    }
    let i = t.strip_prefix("Result<").or_else(|| t.rsplit_once("::Result<").map(|x| x.1))?;
    let i = i.strip_suffix('>')?;
    let mut d = 0i32;
    for (k, c) in i.char_indices() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => return Some(i[k + 1..].to_string()),
            _ => {}
        }
    }
    None
}

impl<'h> Finder<'h> {
    fn helper_of(&self, e: &syn::Expr) -> Option<(Helper, Option<syn::Expr>, Vec<syn::Expr>)> {
        match e {
            syn::Expr::Call(c) => {
                let p = match &*c.func {
                    syn::Expr::Path(p) => &p.path,
                    _ => return None,
                };
                let seg: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = match seg.as_slice() {
                    [f] => self.hs.iter().find(|h| h.ty.is_none() && h.sig.ident == f),
                    [t, f] => {
                        let t = if t == "Self" { self.impl_ty.clone()? } else { t.clone() };
                        if t == "self" {
                            self.hs.iter().find(|h| h.ty.is_none() && h.sig.ident == f)
                        } else {
                            self.hs.iter().find(|h| h.ty.as_deref() == Some(&t) && h.sig.ident == f)
                        }
                    }
                    _ => None,
                }?;
                let mut args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if h.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    recv = Some(args.remove(0));
                }
                Some((h.clone(), recv, args))
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let own = plain(&m.receiver).as_deref() == Some("self");
                let c: Vec<&Helper> = self.hs.iter().filter(|h| h.sig.ident == n && h.sig.receiver().is_some()).collect();
                let h = if own {
                    c.into_iter().find(|h| h.ty == self.impl_ty && h.ty.is_some())?
                } else if c.len() == 1 && !STD.contains(&n.as_str()) {
                    c[0]
                } else {
                    return None;
                };
                Some((h.clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    /// the text a call is replaced by
    fn unfold(&self, e: &syn::Expr, under_q: bool, tail: bool) -> Result<(String, String), String> {
        let (h, recv, args) = self.helper_of(e).ok_or_else(String::new)?;
        let no = |w: &str| Err(format!("{}: {w}", h.key));
        let same = h.ty == self.impl_ty || h.ty.is_none();
        if h.sig.asyncness.is_some() || h.sig.unsafety.is_some() || h.sig.variadic.is_some() {
            return no("kind of function");
        }
        let ids = idents_block(&h.block);
        if ids.contains(&h.sig.ident.to_string()) {
            return no("recursive");
        }
        if !same && ids.contains("Self") {
            return no("Self of another type");
        }
        let ex = exits_block(&h.block);
        if ex.odd {
            return no("body");
        }
        let ret = match &h.sig.output {
            syn::ReturnType::Default => "()".to_string(),
            syn::ReturnType::Type(_, t) => ts(t),
        };
        let (mut body, mut strict) = (String::new(), true);
        if tail && nows(&ret) == nows(&self.ret) && self.depth_closure == 0 {
            for s in &h.block.stmts {
                body.push_str(&ts(s));
                body.push(' ');
            }
            strict = false;
        } else if under_q && self.depth_closure == 0 && (ex.ret > 0 || ex.q > 0) {
            let (he, ce) = (result_err(&ret), result_err(&self.ret));
            let mut b = String::new();
            if ex.ret_ok == 0 {
                for s in &h.block.stmts {
                    b.push_str(&ts(s));
                    b.push(' ');
                }
            } else if ex.ret_ok == ex.ret || ex.q == 0 {
                match tails(&h.block.stmts) {
                    Some(t) => b = t,
                    None => return no("return"),
                }
            } else {
                return no("return");
            }
            match (he, ce) {
                (Some(a), Some(c)) if a == c => body = b,
                (Some(_), Some(_)) => match into_errs(&b) {
                    Some(t) => body = t,
                    None => return no("error conversion"),
                },
                (None, None) if nows(&ret).starts_with("Option<") && nows(&self.ret).starts_with("Option<") && ex.ret == 0 => body = b,
                _ => return no("result type"),
            }
        } else {
            if ex.q > 0 {
                return no("? in a call used as a value");
            }
            match tails(&h.block.stmts) {
                Some(t) => body = t,
                None => return no("return"),
            }
        }
        // receiver
        let mut lets = String::new();
        let mut map: Vec<(String, String)> = vec![];
        if let Some(r) = &recv {
            let r = match r {
                syn::Expr::Reference(x) => (*x.expr).clone(),
                r => r.clone(),
            };
            if plain(&r).as_deref() != Some("self") {
                let byval = h.sig.receiver().map(|r| r.reference.is_none()).unwrap_or(false);
                if byval {
                    return no("receiver by value");
                }
                // only `self.` and `self[` may occur
                let probe = body_self_bare(&body);
                if probe {
                    return no("self as a value");
                }
                if place(&r) {
                    let base = ts(&r);
                    let root = base.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string();
                    let mut b = Bound(Default::default());
                    b.visit_block(&h.block);
                    b.visit_signature(&h.sig);
                    if b.0.contains(&root) {
                        return no("name clash");
                    }
                    map.push(("self".into(), base));
                } else {
                    let v = format!("vxs_{}", self.n);
                    lets.push_str(&format!("let {v} = {}; ", ts(&r)));
                    map.push(("self".into(), v));
                }
            }
        }
        // parameters
        let params: Vec<(&syn::Pat, &syn::Type)> = h
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => Some((&*t.pat, &*t.ty)),
                _ => None,
            })
            .collect();
        if params.len() != args.len() {
            return no("arguments");
        }
        let mut b = Bound(Default::default());
        b.visit_block(&h.block);
        b.visit_signature(&h.sig);
        let inner = {
            let mut b = Bound(Default::default());
            b.visit_block(&h.block);
            b.0
        };
        let mut sh = Short(Default::default());
        sh.visit_block(&h.block);
        let simple = args.iter().all(|a| {
            let t = ts(a);
            !t.contains('{') && !t.contains(" = ") && !t.contains("+=") && !t.contains("-=") && !t.contains('!')
        });
        let (mut first, mut second) = (String::new(), String::new());
        for (k, ((p, t), a)) in params.iter().zip(&args).enumerate() {
            let name = match p {
                syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some((i.ident.to_string(), i.mutability.is_some())),
                _ => None,
            };
            if let (Some((n, false)), Some(v), true) = (&name, plain(a), simple) {
                let elsewhere = args.iter().enumerate().any(|(j, x)| j != k && plain(x).is_none() && idents_expr(x).contains(&v));
                let reborrow = matches!(t, syn::Type::Reference(r) if r.mutability.is_some());
                if *n == v && !inner.contains(n) && !elsewhere {
                    continue;
                }
                if !b.0.contains(&v) && !inner.contains(n) && !elsewhere && !sh.0.contains(n) && !body_in_macro(&h.block, n) && !reborrow {
                    map.push((n.clone(), v));
                    continue;
                }
            }
            let at = free_type(t, &h, same).map(|t| format!(": {t}")).unwrap_or_default();
            let v = format!("vxi_{}_{k}", self.n);
            first.push_str(&format!("let {v}{at} = {}; ", ts(a)));
            second.push_str(&format!("let {}{at} = {v}; ", ts(p)));
        }
        if !map.is_empty() {
            body = match subst(&body, &map) {
                Some(b) => b,
                None => return no("substitution"),
            };
        }
        lets.push_str(&first);
        lets.push_str(&second);
        let asc = match &h.sig.output {
            syn::ReturnType::Type(_, t) if strict => free_type(t, &h, same),
            _ => None,
        };
        let text = match asc {
            Some(t) if nows(&t) != "()" => {
                let v = format!("vxr_{}", self.n);
                format!("{{ {lets} let {v}: {t} = {{ {body} }}; {v} }}")
            }
            _ => format!("{{ {lets} {body} }}"),
        };
        let text = if tail && !strict { text } else { format!("({text})") };
        if syn::parse_str::<syn::Expr>(&text).is_err() {
            return no("text");
        }
        Ok((text, h.key.clone()))
    }

    fn attempt(&mut self, e: &syn::Expr, under_q: bool) {
        if self.found.is_some() || self.helper_of(e).is_none() {
            return;
        }
        let r = rg(syn::spanned::Spanned::span(e));
        let tail = self.tail.contains(&(r.start, r.end));
        match self.unfold(e, under_q, tail && !under_q) {
            Ok((text, key)) => self.found = Some((Found { lo: r.start, hi: r.end, text }, key)),
            Err(w) => {
                if !w.is_empty() {
                    self.refused.insert(w);
                }
            }
        }
    }
}

fn body_in_macro(b: &syn::Block, n: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_macro(&mut self, m: &'b syn::Macro) {
            let mut v = Idents(Default::default());
            v.visit_macro(m);
            if v.0.contains(self.0) || m.tokens.to_string().contains('{') {
                self.1 = true;
            }
        }
    }
    let mut v = V(n, false);
    v.visit_block(b);
    v.1
}

fn body_self_bare(src: &str) -> bool {
    let b: syn::Block = match syn::parse_str(&format!("{{ {src} }}")) {
        Ok(b) => b,
        Err(_) => return true,
    };
    struct V(bool);
    impl<'b> Visit<'b> for V {
        fn visit_expr(&mut self, e: &'b syn::Expr) {
            match e {
                syn::Expr::Field(f) if plain(&f.base).as_deref() == Some("self") => return,
                syn::Expr::MethodCall(m) if plain(&m.receiver).as_deref() == Some("self") => {
                    for a in &m.args {
                        self.visit_expr(a);
                    }
                    return;
                }
                syn::Expr::Path(p) if p.path.is_ident("self") => self.0 = true,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V(false);
    v.visit_block(&b);
    v.0
}

fn mark_tails(e: &syn::Expr, out: &mut BTreeSet<(usize, usize)>) {
    match e {
        syn::Expr::Block(b) if b.label.is_none() => mark_block(&b.block, out),
        syn::Expr::If(f) => {
            mark_block(&f.then_branch, out);
            if let Some((_, e)) = &f.else_branch {
                mark_tails(e, out);
            }
        }
        syn::Expr::Match(m) => {
            for a in &m.arms {
                mark_tails(&a.body, out);
            }
        }
        e => {
            let r = rg(syn::spanned::Spanned::span(e));
            out.insert((r.start, r.end));
        }
    }
}
fn mark_block(b: &syn::Block, out: &mut BTreeSet<(usize, usize)>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        mark_tails(e, out);
    }
}

impl<'h, 'b> Visit<'b> for Finder<'h> {
    fn visit_expr(&mut self, e: &'b syn::Expr) {
        if self.found.is_some() {
            return;
        }
        match e {
            syn::Expr::Closure(_) => {
                self.depth_closure += 1;
                visit::visit_expr(self, e);
                self.depth_closure -= 1;
                return;
            }
            syn::Expr::Try(t) => {
                self.attempt(&t.expr, true);
                if self.found.is_none() && self.helper_of(&t.expr).is_some() {
                    // the operands may still hold calls
                    visit::visit_expr(self, &t.expr);
                    return;
                }
            }
            e => self.attempt(e, false),
        }
        visit::visit_expr(self, e);
    }
}

struct Uses<'a>(&'a str, usize);
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_ident(&mut self, i: &'b proc_macro2::Ident) {
        if i == self.0 {
            self.1 += 1;
        }
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        let mut v = Idents(Default::default());
        v.visit_macro(m);
        if v.0.contains(self.0) {
            self.1 += 1;
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = nows(&ts(a));
        t == "#[test]" || t.contains("cfg(test)") || t.contains("aob_verif")
    })
}

/// unfold; `known` says whether a function (by its name inside the file) has a contract or
/// is a function the contracts were written for
pub fn unfold(src: &str, known: &dyn Fn(&str) -> bool, notes: &mut Vec<(String, String)>) -> String {
    let mut text = src.to_string();
    for round in 0..40 {
        let f = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(_) => return text,
        };
        let mut hs: Vec<Helper> = vec![];
        let mut push = |ty: Option<String>, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block, outer: Option<&syn::Generics>, range: std::ops::Range<usize>| {
            let key = match &ty {
                Some(t) => format!("{t}::{}", sig.ident),
                None => sig.ident.to_string(),
            };
            if is_test(attrs) || known(&key) {
                return;
            }
            let mut generics: BTreeSet<String> = sig.generics.params.iter().filter_map(|p| if let syn::GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
            let _ = outer;
            if sig.generics.params.iter().any(|p| matches!(p, syn::GenericParam::Const(_))) {
                generics.insert("*".into());
            }
            hs.push(Helper { key, ty, sig: sig.clone(), block: block.clone(), generics, range });
        };
        for i in &f.items {
            match i {
                syn::Item::Fn(x) => push(None, &x.attrs, &x.sig, &x.block, None, crate::full_range(x, &x.attrs)),
                syn::Item::Impl(im) if im.trait_.is_none() && !is_test(&im.attrs) => {
                    let ty = type_name(&im.self_ty);
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(x) = ii {
                            push(ty.clone(), &x.attrs, &x.sig, &x.block, Some(&im.generics), crate::full_range(x, &x.attrs));
                        }
                    }
                }
                _ => {}
            }
        }
        if hs.is_empty() {
            return text;
        }
        let mut hit: Option<(Found, String, String)> = None;
        let mut visit_fn = |ty: Option<String>, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block| {
            if hit.is_some() || is_test(attrs) {
                return;
            }
            let key = match &ty {
                Some(t) => format!("{t}::{}", sig.ident),
                None => sig.ident.to_string(),
            };
            if !known(&key) {
                return;
            }
            let ret = match &sig.output {
                syn::ReturnType::Default => "()".to_string(),
                syn::ReturnType::Type(_, t) => ts(t),
            };
            let mut tail = BTreeSet::new();
            mark_block(block, &mut tail);
            struct R<'t>(&'t mut BTreeSet<(usize, usize)>);
            impl<'t, 'b> Visit<'b> for R<'t> {
                fn visit_expr_return(&mut self, r: &'b syn::ExprReturn) {
                    if let Some(e) = &r.expr {
                        mark_tails(e, self.0);
                    }
                    visit::visit_expr_return(self, r);
                }
                fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
            }
            R(&mut tail).visit_block(block);
            let mut v = Finder { hs: &hs, impl_ty: ty, ret, caller: key, n: round, found: None, refused: Default::default(), depth_closure: 0, tail };
            v.visit_block(block);
            if let Some((f, h)) = v.found {
                hit = Some((f, h, v.caller));
            }
        };
        for i in &f.items {
            match i {
                syn::Item::Fn(x) => visit_fn(None, &x.attrs, &x.sig, &x.block),
                syn::Item::Impl(im) => {
                    let ty = type_name(&im.self_ty);
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(x) = ii {
                            visit_fn(ty.clone(), &x.attrs, &x.sig, &x.block);
                        }
                    }
                }
                _ => {}
            }
        }
        match hit {
            Some((f, h, c)) => {
                let lines = text[f.lo..f.hi].matches('\n').count();
                let t = format!("{}{}", f.text, "\n".repeat(lines));
                text.replace_range(f.lo..f.hi, &t);
                notes.push((h, c));
            }
            None => {
                // helpers nobody names any more are left out
                if notes.is_empty() {
                    return text;
                }
                let mut gone: Vec<std::ops::Range<usize>> = vec![];
                for h in &hs {
                    if !notes.iter().any(|(k, _)| *k == h.key) {
                        continue;
                    }
                    let name = h.sig.ident.to_string();
                    let mut u = Uses(&name, 0);
                    u.visit_file(&f);
                    if u.1 == 1 {
                        gone.push(h.range.clone());
                    }
                }
                gone.sort_by_key(|r| r.start);
                for r in gone.into_iter().rev() {
                    let n = text[r.clone()].matches('\n').count();
                    text.replace_range(r, &"\n".repeat(n));
                }
                return text;
            }
        }
    }
    text
}
