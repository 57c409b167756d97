//! Contract files.  See contracts/README for the grammar.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub kind: String, // req ens dec inv ghost ...
    pub tags: Vec<String>,
    pub text: String,
    pub origin: String, // contract file:line
    pub anchor: Vec<String>,
    pub optional: bool,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub path: String,
    pub file: String,
    pub own: Vec<String>,
    pub ret: Option<String>,
    pub attrs: Vec<(Vec<String>, String)>,
    pub sig: Vec<Clause>,                        // req, ens, dec
    pub loops: BTreeMap<usize, Vec<Clause>>,     // inv, dec, ...
    pub ghosts: Vec<Clause>,
    pub closures: BTreeMap<usize, String>,
    pub skip: bool,
    pub trust: bool,
    pub abort_ok: bool,
    pub cells: Vec<String>,
    pub used: std::cell::Cell<bool>,
}

#[derive(Clone, Debug, Default)]
pub struct FileSpec {
    pub fns: BTreeMap<String, FnSpec>,
    pub items: Vec<Clause>,
    pub trait_items: BTreeMap<String, Vec<Clause>>, // trait / impl name -> text added inside
    pub drop_impls: Vec<String>,
    pub drop_items: Vec<String>,
    pub extern_bodies: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub files: BTreeMap<String, FileSpec>,
    pub drop_traits: Vec<String>,
}

fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|x| x.to_string()).collect()
}

/// `[A,B]` suffix holds tags
fn split_tags(s: &str) -> (String, Vec<String>) {
    if let (Some(a), Some(b)) = (s.rfind('['), s.rfind(']')) {
        if b > a && s[b + 1..].trim().is_empty() {
            let t = s[a + 1..b]
                .split(|c: char| c == ',' || c.is_whitespace())
                .filter(|x| !x.is_empty())
                .map(|x| x.to_string())
                .collect();
            return (s[..a].to_string(), t);
        }
    }
    (s.to_string(), vec![])
}

pub fn parse(path: &str, text: &str, spec: &mut Spec) -> Result<(), String> {
    let mut file = String::new();
    let mut cur_fn: Option<String> = None;
    let mut cur_loop: Option<usize> = None;
    // current text sink
    let mut pending: Option<(Clause, Sink)> = None;
    #[derive(Clone)]
    enum Sink {
        Item,
        TraitItem(String),
        Sig,
        Loop(usize),
        Ghost,
        Closure(usize),
    }
    fn flush(
        spec: &mut Spec,
        file: &str,
        cur_fn: &Option<String>,
        pending: &mut Option<(Clause, Sink)>,
    ) {
        if let Some((c, sink)) = pending.take() {
            let fs = spec.files.entry(file.to_string()).or_default();
            match sink {
                Sink::Item => fs.items.push(c),
                Sink::TraitItem(n) => fs.trait_items.entry(n).or_default().push(c),
                _ => {
                    let f = fs.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    match sink {
                        Sink::Sig => f.sig.push(c),
                        Sink::Loop(n) => f.loops.entry(n).or_default().push(c),
                        Sink::Ghost => f.ghosts.push(c),
                        Sink::Closure(n) => {
                            f.closures.insert(n, c.text);
                        }
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
    for (i, line) in text.lines().enumerate() {
        if !line.starts_with('%') {
            if let Some((c, _)) = pending.as_mut() {
                c.text.push_str(line);
                c.text.push('\n');
            } else if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                return Err(format!("{path}:{}: text outside a section", i + 1));
            }
            continue;
        }
        flush(spec, &file, &cur_fn, &mut pending);
        let kw0 = line[1..].split_whitespace().next().unwrap_or("").to_string();
        let (head, tags) = if kw0 == "attr" || kw0 == "within" || kw0 == "dropimpl" || kw0 == "#" {
            (line[1..].to_string(), vec![])
        } else {
            split_tags(&line[1..])
        };
        let w = words(&head);
        let origin = format!("{path}:{}", i + 1);
        let cl = |kind: &str| Clause {
            kind: kind.to_string(),
            tags: tags.clone(),
            text: String::new(),
            origin: origin.clone(),
            anchor: vec![],
            optional: false,
        };
        let kw = w[0].as_str();
        let need_fn = || -> Result<String, String> {
            cur_fn.clone().ok_or(format!("{origin}: no current fn"))
        };
        match kw {
            "#" => {}
            "file" => {
                file = w[1].clone();
                cur_fn = None;
                cur_loop = None;
                spec.files.entry(file.clone()).or_default();
            }
            "droptrait" => spec.drop_traits.extend(w[1..].iter().cloned()),
            "dropimpl" => {
                spec.files.get_mut(&file).unwrap().drop_impls.push(w[1..].join(" "));
            }
            "dropitem" => {
                spec.files.get_mut(&file).unwrap().drop_items.extend(w[1..].iter().cloned());
            }
            "item" => pending = Some((cl("item"), Sink::Item)),
            "within" => pending = Some((cl("item"), Sink::TraitItem(w[1..].join(" ")))),
            "fn" => {
                let name = w[1..].join(" ");
                let fs = spec.files.get_mut(&file).ok_or(format!("{origin}: no file"))?;
                let e = fs.fns.entry(name.clone()).or_default();
                e.path = name.clone();
                e.file = file.clone();
                cur_fn = Some(name);
                cur_loop = None;
            }
            _ => {
                let name = need_fn()?;
                let f = spec.files.get_mut(&file).unwrap().fns.get_mut(&name).unwrap();
                match kw {
                    "own" => f.own.extend(w[1..].iter().cloned()),
                    "ret" => f.ret = Some(w[1].clone()),
                    "attr" => f.attrs.push((tags.clone(), w[1..].join(" "))),
                    "skip" => f.skip = true,
                    "trust" => f.trust = true,
                    "cells" => f.cells = w[1..].to_vec(),
                    "abortok" => f.abort_ok = true,
                    "req" | "ens" | "mark" => pending = Some((cl(kw), Sink::Sig)),
                    "dec" => {
                        pending = Some((
                            cl("dec"),
                            match cur_loop {
                                Some(n) => Sink::Loop(n),
                                None => Sink::Sig,
                            },
                        ))
                    }
                    "loop" => {
                        let n: usize = w[1].parse().map_err(|_| format!("{origin}: loop n"))?;
                        cur_loop = Some(n);
                        f.loops.entry(n).or_default();
                    }
                    "inv" | "invxb" | "lens" => {
                        let n = cur_loop.ok_or(format!("{origin}: inv outside loop"))?;
                        pending = Some((cl(kw), Sink::Loop(n)))
                    }
                    "at" | "at?" => {
                        let mut c = cl("ghost");
                        c.anchor = w[1..].to_vec();
                        c.optional = kw.ends_with('?');
                        pending = Some((c, Sink::Ghost));
                    }
                    "tail" => {
                        let mut c = cl("ghost");
                        c.anchor = w.clone();
                        pending = Some((c, Sink::Ghost));
                    }
                    "closure" => {
                        let n: usize = w[1].parse().map_err(|_| format!("{origin}: closure n"))?;
                        pending = Some((cl("closure"), Sink::Closure(n)));
                    }
                    _ => return Err(format!("{origin}: unknown directive {kw}")),
                }
            }
        }
    }
    flush(spec, &file, &cur_fn, &mut pending);
    Ok(())
}
