//! vx-derive: the code the derive macros generate for /repo's types, taken from the
//! compiler's own expansion of the crate, together with the dependency code it runs on
//! (`bonfida-utils`' BorshSize and InstructionsAccount, num-traits' default method,
//! solana-program's AccountMeta constructors), as one Verus crate over the contracts of
//! contracts/derived/prelude.rs.  The specifications (encoding = the fields in order of
//! declaration, account list = the `#[cons]` attributes, numbers = the discriminants) come
//! from the type definitions; the bodies from the expansion.
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::visit_mut::{self, VisitMut};

/// imports that name other crates
fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// rewrites of expanded bodies: error texts dropped, paths of other crates to the prelude
struct Rw;
impl VisitMut for Rw {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Path(p) = &*c.func {
                let t = p.to_token_stream().to_string().replace(' ', "");
                if t.ends_with("io::Error::new") {
                    *e = syn::parse_quote!(crate::io::error());
                    return;
                }
            }
        }
        if let syn::Expr::Unsafe(u) = e {
            let b = u.block.clone();
            *e = syn::parse_quote!(#b);
        }
        if let syn::Expr::MethodCall(m) = e {
            let r = m.receiver.clone();
            if m.method == "set_len" {
                let a = m.args.clone();
                *e = syn::parse_quote!(crate::lib::set_len(&mut #r, #a));
            } else if m.method == "to_le_bytes" {
                *e = syn::parse_quote!(crate::lib::le_bytes(#r));
            } else if m.method == "unwrap" {
                *e = syn::parse_quote!(crate::lib::unwrap(#r));
            }
        }
        // a mutable tail of a vector is a mutable tail of its slice
        if let syn::Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let syn::Expr::Index(ix) = &*r.expr {
                    if matches!(&*ix.index, syn::Expr::Range(_)) {
                        let (b, i) = (&ix.expr, &ix.index);
                        *e = syn::parse_quote!(&mut #b.as_mut_slice()[#i]);
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let t = p.to_token_stream().to_string().replace(' ', "");
        for (from, to) in [
            ("borsh::maybestd::io::", "crate::io::"),
            ("borsh::de::", "crate::borsh::"),
            ("borsh::ser::", "crate::borsh::"),
            ("borsh::", "crate::borsh::"),
            ("::core::result::", "core::result::"),
            ("_num_traits::", "crate::num::"),
        ] {
            if let Some(r) = t.strip_prefix(from) {
                if let Ok(n) = syn::parse_str::<syn::Path>(&format!("{to}{r}")) {
                    *p = n;
                    break;
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

#[derive(Default)]
struct Mod {
    structs: BTreeMap<String, syn::ItemStruct>,
    enums: BTreeMap<String, syn::ItemEnum>,
    impls: Vec<(String, String, syn::ItemImpl)>, // type, trait, impl
}

fn walk(items: &[syn::Item], path: &str, out: &mut BTreeMap<String, Mod>) {
    for it in items {
        match it {
            syn::Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) };
                    walk(c, &p, out);
                }
            }
            syn::Item::Struct(s) => {
                out.entry(path.into()).or_default().structs.insert(s.ident.to_string(), s.clone());
            }
            syn::Item::Enum(s) => {
                out.entry(path.into()).or_default().enums.insert(s.ident.to_string(), s.clone());
            }
            syn::Item::Impl(i) => {
                if let (Some((_, t, _)), syn::Type::Path(p)) = (&i.trait_, &*i.self_ty) {
                    out.entry(path.into()).or_default().impls.push((last(&p.path), last(t), i.clone()));
                }
            }
            syn::Item::Const(c) => {
                // derives wrapped in `const _: () = { … }`
                if let syn::Expr::Block(b) = &*c.expr {
                    let inner: Vec<syn::Item> = b
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None })
                        .collect();
                    walk(&inner, path, out);
                }
            }
            _ => (),
        }
    }
}

fn rd(p: &str) -> syn::File {
    let t = std::fs::read_to_string(p).unwrap_or_else(|e| fail(&format!("{p}: {e}")));
    syn::parse_file(&t).unwrap_or_else(|e| fail(&format!("{p}: {e}")))
}

fn fail(m: &str) -> ! {
    eprintln!("{m}");
    std::process::exit(4)
}

/// the generics of an impl without where clauses on types that are no parameters
fn header(i: &syn::ItemImpl) -> (String, String) {
    let mut g = i.generics.clone();
    let params: Vec<String> = g.type_params().map(|p| p.ident.to_string()).collect();
    let mut bounds = String::new();
    if let Some(w) = g.where_clause.take() {
        let keep: Vec<String> = w
            .predicates
            .iter()
            .filter(|p| matches!(p, syn::WherePredicate::Type(t) if params.contains(&t.bounded_ty.to_token_stream().to_string())))
            .map(|p| {
                let mut p = p.clone();
                Rw.visit_where_predicate_mut(&mut p);
                p.to_token_stream().to_string()
            })
            .collect();
        if !keep.is_empty() {
            bounds = format!("where {}", keep.join(", "));
        }
    }
    (g.to_token_stream().to_string(), bounds)
}

fn block_text(b: &syn::Block) -> String {
    let mut b = b.clone();
    Rw.visit_block_mut(&mut b);
    // one statement per line
    let mut s = String::from("{\n");
    for st in &b.stmts {
        let _ = writeln!(s, "        {}", st.to_token_stream());
    }
    s.push_str("    }");
    s
}

fn sig_text(sig: &syn::Signature) -> String {
    let mut s = sig.clone();
    Rw.visit_signature_mut(&mut s);
    let out = match &s.output {
        syn::ReturnType::Type(_, t) => format!(" -> (r: {})", t.to_token_stream()),
        _ => String::new(),
    };
    s.output = syn::ReturnType::Default;
    format!("{}{}", s.to_token_stream(), out)
}

struct Gen {
    s: String,
    fns: Vec<String>,
    notes: Vec<String>,
}

impl Gen {
    fn f(&mut self, name: String, text: String) {
        let _ = write!(self.s, "//@src derived:{name}:fn\n//@fn {}\n{text}\n", serde_json::json!({"fn": name}));
        self.fns.push(name);
    }
}

fn fns(i: &syn::ItemImpl) -> Vec<&syn::ImplItemFn> {
    i.items.iter().filter_map(|x| if let syn::ImplItem::Fn(f) = x { Some(f) } else { None }).collect()
}

fn ty_args(g: &syn::Generics) -> String {
    let (_, t, _) = g.split_for_impl();
    t.to_token_stream().to_string()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_default();
    let file = rd(&get("--expanded"));
    let mut mods: BTreeMap<String, Mod> = Default::default();
    walk(&file.items, "", &mut mods);
    let mut g = Gen { s: std::fs::read_to_string(get("--prelude")).unwrap_or_else(|e| fail(&e.to_string())), fns: vec![], notes: vec![] };
    // dependency: borsh_size.rs
    let bs = rd(&get("--borshsize"));
    g.s.push_str("pub mod borsh_size {\n    use vstd::prelude::*;\n    use crate::borsh::*;\n    use crate::primitives::*;\n    broadcast use crate::primitives::group_primitives;\n    pub trait BorshSize: BorshDeserialize + BorshSerialize {\n        fn borsh_len(&self) -> (r: usize)\n            requires self.ser().len() <= usize::MAX,\n            ensures r == self.ser().len();\n    }\n");
    for it in &bs.items {
        if let syn::Item::Impl(i) = it {
            if !i.trait_.as_ref().is_some_and(|t| last(&t.1) == "BorshSize") {
                continue;
            }
            let t = i.self_ty.to_token_stream().to_string().replace(' ', "");
            let gen = !i.generics.params.is_empty();
            let inst = match (t.as_str(), gen) {
                ("u64" | "u128" | "bool", false) => t.clone(),
                ("Vec<T>", true) => "Vec<u128>".to_string(),
                ("Option<T>", true) => "Option<u128>".to_string(),
                _ => continue,
            };
            for f in fns(i) {
                let mut body = block_text(&f.block);
                if t == "Vec<T>" {
                    body = body.replacen('{', "{\n        proof { axiom_vec_u128(*self); if self@.len() > 0 { axiom_u128(self@[0]); assert(self@.len() * 16 == 16 * self@.len()) by (nonlinear_arith); } }", 1);
                }
                g.f(format!("bonfida_utils::BorshSize for {inst}"), format!("    impl BorshSize for {inst} {{\n    {} {body}\n    }}", sig_text(&f.sig)));
            }
        }
    }
    g.s.push_str("}\n");

    // dependency: AccountMeta's constructors
    let sp = rd(&get("--instruction"));
    g.s.push_str("pub mod meta {\n    use vstd::prelude::*;\n    use crate::solana::*;\n    impl AccountMeta {\n");
    for it in &sp.items {
        if let syn::Item::Impl(i) = it {
            if i.self_ty.to_token_stream().to_string() == "AccountMeta" && i.trait_.is_none() {
                for f in fns(i) {
                    let w = match f.sig.ident.to_string().as_str() {
                        "new" => true,
                        "new_readonly" => false,
                        _ => continue,
                    };
                    let n = format!("solana_program::AccountMeta::{}", f.sig.ident);
                    g.f(n, format!("    pub {}\n        ensures r == (AccountMeta {{ pubkey, is_signer, is_writable: {w} }}),\n    {}", sig_text(&f.sig), block_text(&f.block)));
                }
            }
        }
    }
    g.s.push_str("    }\n}\n");

    // dependency: InstructionsAccount::get_instruction
    let ac = rd(&get("--accounts"));
    let mut found = false;
    for it in &ac.items {
        if let syn::Item::Trait(t) = it {
            if t.ident != "InstructionsAccount" {
                continue;
            }
            for x in &t.items {
                if let syn::TraitItem::Fn(f) = x {
                    if f.sig.ident == "get_instruction" && f.default.is_some() {
                        found = true;
                        g.s.push_str("pub mod accounts {\n    use vstd::prelude::*;\n    use crate::solana::*;\n    use crate::borsh::*;\n    use crate::borsh_size::*;\n    pub trait InstructionsAccount {\n    spec fn metas(&self) -> Seq<AccountMeta>;\n    fn get_accounts_vec(&self) -> (r: Vec<AccountMeta>)\n        ensures r@ == self.metas();\n");
                        let b = block_text(f.default.as_ref().unwrap());
                        g.f("bonfida_utils::InstructionsAccount::get_instruction".into(), format!("    {}\n        requires params.ser().len() < usize::MAX,\n        ensures r.program_id == program_id, r.accounts@ == self.metas(), r.data@ == seq![instruction_id] + params.ser(),\n    {b}", sig_text(&f.sig)));
                        g.s.push_str("    }\n}\n");
                    }
                }
            }
        }
    }
    if !found {
        fail("get_instruction not found in the dependency");
    }

    // dependency: FromPrimitive::from_u8
    let nt = rd(&get("--numtraits"));
    g.s.push_str("pub mod num {\n    use vstd::prelude::*;\n    pub trait FromPrimitive: Sized {\n    spec fn spec_from(n: int) -> Option<Self>;\n    fn from_i64(n: i64) -> (r: Option<Self>)\n        ensures r == Self::spec_from(n as int);\n    fn from_u64(n: u64) -> (r: Option<Self>)\n        requires n <= i64::MAX,\n        ensures r == Self::spec_from(n as int);\n");
    for it in &nt.items {
        if let syn::Item::Trait(t) = it {
            if t.ident == "FromPrimitive" {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if f.sig.ident == "from_u8" {
                            if let Some(b) = &f.default {
                                g.f("num_traits::FromPrimitive::from_u8".into(), format!("    {}\n        ensures r == Self::spec_from(n as int),\n    {}", sig_text(&f.sig), block_text(b)));
                            }
                        }
                    }
                }
            }
        }
    }
    g.s.push_str("    }\n}\n");

    // the program's own types
    let mut names: Vec<String> = vec![];
    let mut body = String::new();
    std::mem::swap(&mut body, &mut g.s);
    let mut used_enums: BTreeMap<String, String> = Default::default();
    for (path, m) in &mods {
        for n in m.enums.keys() {
            used_enums.insert(n.clone(), path.clone());
        }
    }
    for (path, m) in &mods {
        let modname = if path.is_empty() { "root".to_string() } else { path.replace("::", "_") };
        let mut sub = Gen { s: String::new(), fns: vec![], notes: vec![] };
        let has = |t: &str, tr: &str| m.impls.iter().any(|(a, b, _)| a == t && b == tr);
        for (n, e) in &m.enums {
            let unit = e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit));
            if !unit || !(has(n, "BorshSize") || has(n, "FromPrimitive")) || n == "AoError" {
                continue;
            }
            let vs: Vec<String> = e
                .variants
                .iter()
                .map(|v| match &v.discriminant {
                    Some((_, d)) => format!("{} = {}", v.ident, d.to_token_stream()),
                    None => v.ident.to_string(),
                })
                .collect();
            let _ = writeln!(sub.s, "    #[repr(u8)]\n    #[derive(Clone, Copy)]\n    pub enum {n} {{ {} }}", vs.join(", "));
            let mut enc = String::new();
            let mut dec = String::new();
            let mut num = String::new();
            let mut next = 0i128;
            for (k, v) in e.variants.iter().enumerate() {
                if let Some((_, d)) = &v.discriminant {
                    match d.to_token_stream().to_string().replace('_', "").parse::<i128>() {
                        Ok(x) => next = x,
                        Err(_) => sub.notes.push(format!("{path}::{n}: discriminant {}", d.to_token_stream())),
                    }
                }
                let _ = write!(enc, "{n}::{} => seq![{k}u8], ", v.ident);
                let _ = write!(dec, "if tag == {k} {{ Some(({n}::{}, s)) }} else ", v.ident);
                let _ = write!(num, "if n == {next} {{ Some({n}::{}) }} else ", v.ident);
                next += 1;
            }
            for (t, tr, i) in &m.impls {
                if t != n {
                    continue;
                }
                let mut specs = String::new();
                let mut hint = "";
                match tr.as_str() {
                    "BorshSerialize" => {
                        specs = format!("    open spec fn ser(&self) -> Seq<u8> {{ match self {{ {enc} }} }}\n");
                    }
                    "BorshDeserialize" => {
                        specs = "    open spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)> { match u8::read(s) { Some((tag, t)) => <Self as crate::borsh::EnumExt>::variant(tag, t), None => None } }\n".into();
                    }
                    "EnumExt" => {
                        specs = format!("    open spec fn variant(tag: u8, s: Seq<u8>) -> Option<(Self, Seq<u8>)> {{ {dec} {{ None }} }}\n");
                    }
                    "FromPrimitive" => {
                        specs = format!("    open spec fn spec_from(n: int) -> Option<Self> {{ {num} {{ None }} }}\n");
                        hint = "";
                    }
                    "BorshSize" => (),
                    _ => continue,
                }
                let _ = hint;
                let tp = match tr.as_str() {
                    "BorshSize" => "crate::borsh_size::BorshSize".to_string(),
                    "FromPrimitive" => "crate::num::FromPrimitive".into(),
                    x => format!("crate::borsh::{x}"),
                };
                let (gp, wh) = header(i);
                let _ = writeln!(sub.s, "    impl{gp} {tp} for {n} {wh} {{\n{specs}");
                for f in fns(i) {
                    sub.f(format!("{path}::{n}::{}", f.sig.ident), format!("    {} {}", sig_text(&f.sig), block_text(&f.block)));
                }
                sub.s.push_str("    }\n//@src derived:spec:0\n");
            }
            if has(n, "BorshSerialize") && has(n, "BorshDeserialize") {
                sub.f(
                    format!("{path}::{n}: decoding undoes encoding"),
                    format!("    pub proof fn round_{}(x: {n})\n        ensures crate::borsh::reads_back(x), crate::borsh::borsh_de::<{n}>(x.ser()) == Some(x),\n    {{\n        broadcast use crate::primitives::group_primitives;\n        assert forall|t: Seq<u8>| #[trigger] {n}::read(x.ser() + t) == Some((x, t)) by {{ assert((x.ser() + t).skip(1) =~= t); }}\n        crate::borsh::lemma_de(x);\n    }}", n.to_lowercase()),
                );
            }
        }
        for (n, st) in &m.structs {
            let borsh = has(n, "BorshSerialize") && has(n, "BorshDeserialize");
            let acc = has(n, "InstructionsAccount");
            if !(acc || has(n, "BorshSize") || (n == "OrderSummary" && borsh)) {
                continue;
            }
            let ta = ty_args(&st.generics);
            let fields: Vec<(String, String)> = st
                .fields
                .iter()
                .map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), f.ty.to_token_stream().to_string()))
                .collect();
            let decl: Vec<String> = fields.iter().map(|(a, b)| format!("pub {a}: {b}")).collect();
            let _ = writeln!(sub.s, "    pub struct {n}{} {{ {} }}", st.generics.to_token_stream(), decl.join(", "));
            let ser = fields.iter().fold("Seq::<u8>::empty()".to_string(), |s, (f, _)| format!("{s} + self.{f}.ser()"));
            let mut read = format!("Some(({n} {{ {} }}, s))", fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(", "));
            for (f, t) in fields.iter().rev() {
                read = format!("match <{t} as crate::borsh::BorshDeserialize>::read(s) {{ None => None, Some(({f}, s)) => {read} }}");
            }
            for (t, tr, i) in &m.impls {
                if t != n {
                    continue;
                }
                let (gp, wh) = header(i);
                match tr.as_str() {
                    "BorshSerialize" => {
                        let _ = writeln!(sub.s, "    impl{gp} crate::borsh::BorshSerialize for {n}{ta} {wh} {{\n    open spec fn ser(&self) -> Seq<u8> {{ {ser} }}");
                        for f in fns(i) {
                            // the written pieces are chained after each statement that writes
                            let mut b = f.block.clone();
                            Rw.visit_block_mut(&mut b);
                            let mut s = String::from("{\n        let ghost w0 = *writer;\n        proof { W::lemma_none(&w0); }\n");
                            let mut k = 0;
                            let mut acc_ser = "Seq::<u8>::empty()".to_string();
                            for x in &b.stmts {
                                let tx = x.to_token_stream().to_string();
                                let _ = writeln!(s, "        {tx}");
                                if k < fields.len() && tx.contains("serialize") && tx.replace(' ', "").contains(&format!("self.{},", fields[k].0)) {
                                    let fld = format!("self.{}.ser()", fields[k].0);
                                    let _ = writeln!(s, "        let ghost w{} = *writer;\n        proof {{ W::lemma_chain(&w0, &w{k}, &w{}, {acc_ser}, {fld}); }}", k + 1, k + 1);
                                    acc_ser = format!("{acc_ser} + {fld}");
                                    k += 1;
                                }
                            }
                            s.push_str("    }");
                            sub.f(format!("{path}::{n}::{}", f.sig.ident), format!("    {} {s}", sig_text(&f.sig)));
                        }
                        sub.s.push_str("    }\n//@src derived:spec:0\n");
                    }
                    "BorshDeserialize" => {
                        let _ = writeln!(sub.s, "    impl{gp} crate::borsh::BorshDeserialize for {n}{ta} {wh} {{\n    open spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {{ {read} }}");
                        for f in fns(i) {
                            sub.f(format!("{path}::{n}::{}", f.sig.ident), format!("    {} {}", sig_text(&f.sig), block_text(&f.block)));
                        }
                        sub.s.push_str("    }\n//@src derived:spec:0\n");
                    }
                    "BorshSize" => {
                        let _ = writeln!(sub.s, "    impl{gp} crate::borsh_size::BorshSize for {n}{ta} {} {{", if gp.contains('C') { "where C: crate::borsh::BorshSerialize + crate::borsh::BorshDeserialize" } else { "" });
                        for f in fns(i) {
                            sub.f(format!("{path}::{n}::{}", f.sig.ident), format!("    {} {}", sig_text(&f.sig), block_text(&f.block)));
                        }
                        sub.s.push_str("    }\n//@src derived:spec:0\n");
                    }
                    "InstructionsAccount" => {
                        let metas: Vec<String> = st
                            .fields
                            .iter()
                            .map(|f| {
                                let t: String = f.attrs.iter().filter(|a| a.path().is_ident("cons")).map(|a| a.meta.to_token_stream().to_string()).collect();
                                format!(
                                    "AccountMeta {{ pubkey: *self.{}, is_signer: {}, is_writable: {} }}",
                                    f.ident.as_ref().unwrap(),
                                    t.contains("signer"),
                                    t.contains("writable")
                                )
                            })
                            .collect();
                        let me = i.self_ty.to_token_stream().to_string();
                        let _ = writeln!(sub.s, "    impl{gp} crate::accounts::InstructionsAccount for {me} {wh} {{\n    open spec fn metas(&self) -> Seq<AccountMeta> {{ seq![{}] }}", metas.join(", "));
                        for f in fns(i) {
                            let b = block_text(&f.block);
                            // the list is compared element by element
                            let b = match b.rfind("accounts_vec\n") {
                                Some(p) => format!("{}proof {{ assert(accounts_vec@ =~= self.metas()); }}\n        {}", &b[..p], &b[p..]),
                                None => b,
                            };
                            sub.f(format!("{path}::{n}::{}", f.sig.ident), format!("    {} {b}", sig_text(&f.sig)));
                        }
                        sub.s.push_str("    }\n//@src derived:spec:0\n");
                    }
                    _ => (),
                }
            }
            if borsh {
                // decoding undoes encoding: peel the fields off one by one
                let tps: Vec<String> = st.generics.type_params().map(|p| p.ident.to_string()).collect();
                let gp = if tps.is_empty() { String::new() } else { format!("<{}>", tps.iter().map(|t| format!("{t}: crate::borsh::BorshSerialize + crate::borsh::BorshDeserialize")).collect::<Vec<_>>().join(", ")) };
                let req: String = fields.iter().filter(|(_, t)| tps.contains(t)).map(|(f, _)| format!("crate::borsh::reads_back(x.{f}), ")).collect();
                let req = if req.is_empty() { String::new() } else { format!("        requires {req}\n") };
                let mut p = String::new();
                for (k, (f, t)) in fields.iter().enumerate() {
                    let rest = fields[k + 1..].iter().rev().fold("t".to_string(), |s, (g, _)| format!("(x.{g}.ser() + {s})"));
                    if used_enums.contains_key(t) {
                        let _ = writeln!(p, "            crate::{}::round_{}(x.{f});", used_enums[t].replace("::", "_"), t.to_lowercase());
                    }
                    let _ = writeln!(p, "            let t{k} = {rest};\n            assert(crate::borsh::reads_back(x.{f}));\n            assert(<{t} as crate::borsh::BorshDeserialize>::read(x.{f}.ser() + t{k}) == Some((x.{f}, t{k})));");
                }
                let whole = fields.iter().rev().fold("t".to_string(), |s, (g, _)| format!("(x.{g}.ser() + {s})"));
                sub.f(
                    format!("{path}::{n}: decoding undoes encoding"),
                    format!(
                        "    pub proof fn round_{}{gp}(x: {n}{ta})\n{req}        ensures crate::borsh::reads_back(x), crate::borsh::borsh_de::<{n}{ta}>(x.ser()) == Some(x),\n    {{\n        assert forall|t: Seq<u8>| #[trigger] <{n}{ta} as crate::borsh::BorshDeserialize>::read(x.ser() + t) == Some((x, t)) by {{\n{p}            assert(x.ser() + t =~= {whole});\n        }}\n        crate::borsh::lemma_de(x);\n    }}",
                        n.to_lowercase()
                    ),
                );
            }
        }
        if sub.s.is_empty() {
            continue;
        }
        names.push(modname.clone());
        let _ = write!(
            body,
            "pub mod {modname} {{\n    use vstd::prelude::*;\n    use crate::solana::*;\n    use crate::borsh::*;\n    use crate::accounts::InstructionsAccount;\n    use crate::borsh_size::*;\n    use crate::primitives::*;\n    use crate::all::*;\n    broadcast use crate::primitives::group_primitives;\n{}}}\n",
            sub.s
        );
        g.fns.extend(sub.fns);
        g.notes.extend(sub.notes);
    }
    std::mem::swap(&mut body, &mut g.s);
    // names the modules use from each other
    let mut all = String::new();
    for (n, p) in &used_enums {
        if g.s.contains(&format!("pub enum {n} ")) {
            let _ = writeln!(all, "    pub use crate::{}::{n};", if p.is_empty() { "root".into() } else { p.replace("::", "_") });
        }
    }
    let _ = write!(g.s, "pub mod all {{\n{all}}}\n}} // verus!\nfn main() {{}}\n");
    std::fs::write(get("--out"), &g.s).unwrap_or_else(|e| fail(&e.to_string()));
    let _ = quote!();
    println!("{}", serde_json::json!({"fns": g.fns, "notes": g.notes}));
}
