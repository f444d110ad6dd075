//! Parser of the annotation files (/verif/contracts/*.vx).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnAnn {
    pub props: Vec<String>,
    pub sig: String,
    pub entry: String,
    pub exit: String,
    pub attr: String,
    pub trusted: Option<String>,
    pub loops: BTreeMap<usize, LoopAnn>,
    pub closures: BTreeMap<usize, ClosureAnn>,
    pub hints: Vec<Hint>,
    pub lit: String,
    pub used: bool,
}

#[derive(Default, Clone, Debug)]
pub struct LoopAnn {
    pub clauses: String,
    pub entry: String,
    pub exit: String,
    pub before: String,
    pub pattern_name: String,
}

#[derive(Default, Clone, Debug)]
pub struct ClosureAnn {
    pub head: String,
    pub clauses: String,
}

#[derive(Default, Clone, Debug)]
pub struct Hint {
    pub before: bool,
    pub call: String,
    pub nth: usize,
    pub text: String,
}

#[derive(Default, Clone, Debug)]
pub struct FileAnn {
    pub rel: String,
    pub prelude: String,
    pub fns: BTreeMap<String, FnAnn>,
    pub structs: BTreeMap<String, StructAnn>,
    /// key: "Trait for Type", "Type" or "trait Name"
    pub blocks: BTreeMap<String, String>,
    /// items left out of the extraction, with the reason
    pub drops: BTreeMap<String, String>,
    pub prost: bool,
}

#[derive(Default, Clone, Debug)]
pub struct StructAnn {
    pub attr: String,
    pub fields: String,
}

#[derive(Default, Clone, Debug)]
pub struct Anns {
    pub global: String,
    pub files: BTreeMap<String, FileAnn>,
}

pub fn load(dir: &str) -> Result<Anns, String> {
    let mut names: Vec<_> = std::fs::read_dir(dir)
        .map_err(|e| format!("{}: {}", dir, e))?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "vx").unwrap_or(false))
        .collect();
    names.sort();
    let mut out = Anns::default();
    for p in names {
        let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
        parse(&text, &mut out).map_err(|e| format!("{}: {}", p.display(), e))?;
    }
    Ok(out)
}

enum Sink {
    None,
    Global,
    Prelude,
    Block(String),
    StructAttr(String),
    StructFields(String),
    Sig,
    Entry,
    Exit,
    Attr,
    Lit,
    Loop(usize),
    LoopEntry(usize),
    LoopExit(usize),
    LoopBefore(usize),
    Closure(usize),
    Hint(usize),
}

pub fn parse(text: &str, out: &mut Anns) -> Result<(), String> {
    let mut file: Option<String> = None;
    let mut func: Option<String> = None;
    let mut sink = Sink::None;
    for (ln, line) in text.lines().enumerate() {
        let err = |m: &str| format!("line {}: {}: {}", ln + 1, m, line);
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@ ") {
            let d = d.trim();
            let mut w = d.split_whitespace();
            let kw = w.next().unwrap_or("");
            let rest: Vec<&str> = w.collect();
            let arg = rest.get(0).map(|s| s.to_string()).unwrap_or_default();
            match kw {
                "global" => sink = Sink::Global,
                "file" => {
                    let fa = out.files.entry(arg.clone()).or_default();
                    fa.rel = arg.clone();
                    if rest.contains(&"prost") {
                        fa.prost = true;
                    }
                    file = Some(arg);
                    func = None;
                    sink = Sink::None;
                }
                "prelude" => {
                    file.as_ref().ok_or_else(|| err("no file"))?;
                    sink = Sink::Prelude;
                }
                "block" => sink = Sink::Block(rest.join(" ")),
                "struct-attr" => sink = Sink::StructAttr(arg),
                "struct-fields" => sink = Sink::StructFields(arg),
                "drop" => {
                    let f = out.files.get_mut(file.as_ref().ok_or_else(|| err("no file"))?).unwrap();
                    f.drops.insert(arg, rest[1..].join(" "));
                    sink = Sink::None;
                }
                "fn" => {
                    let f = out.files.get_mut(file.as_ref().ok_or_else(|| err("no file"))?).unwrap();
                    let fa = f.fns.entry(arg.clone()).or_default();
                    for x in &rest[1..] {
                        if let Some(p) = x.strip_prefix("props=") {
                            fa.props = p.split(',').map(|s| s.to_string()).collect();
                        }
                    }
                    func = Some(arg);
                    sink = Sink::None;
                }
                "trusted" => {
                    let fa = cur(out, &file, &func).ok_or_else(|| err("no fn"))?;
                    fa.trusted = Some(rest.join(" "));
                    sink = Sink::None;
                }
                "sig" => sink = Sink::Sig,
                "entry" => sink = Sink::Entry,
                "exit" => sink = Sink::Exit,
                "attr" => sink = Sink::Attr,
                "lit" => sink = Sink::Lit,
                "loop" => {
                    let n: usize = arg.parse().map_err(|_| err("bad loop"))?;
                    cur(out, &file, &func).ok_or_else(|| err("no fn"))?.loops.entry(n).or_default();
                    sink = match rest.get(1) {
                        Some(&"entry") => Sink::LoopEntry(n),
                        Some(&"exit") => Sink::LoopExit(n),
                        Some(&"before") => Sink::LoopBefore(n),
                        Some(x) if x.starts_with("iter=") => {
                            let fa = cur(out, &file, &func).unwrap();
                            fa.loops.get_mut(&n).unwrap().pattern_name = x[5..].to_string();
                            Sink::Loop(n)
                        }
                        _ => Sink::Loop(n),
                    };
                }
                "closure" => {
                    let n: usize = arg.parse().map_err(|_| err("bad closure"))?;
                    let fa = cur(out, &file, &func).ok_or_else(|| err("no fn"))?;
                    fa.closures.entry(n).or_default().head = rest[1..].join(" ");
                    sink = Sink::Closure(n);
                }
                "after" | "before" => {
                    let nth: usize = rest.get(1).map(|s| s.parse().unwrap_or(0)).unwrap_or(0);
                    let fa = cur(out, &file, &func).ok_or_else(|| err("no fn"))?;
                    fa.hints.push(Hint { before: kw == "before", call: arg, nth, text: String::new() });
                    sink = Sink::Hint(fa.hints.len() - 1);
                }
                _ => return Err(err("unknown directive")),
            }
            continue;
        }
        let push = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &sink {
            Sink::None => {
                if !t.is_empty() && !t.starts_with("//") {
                    return Err(err("text outside a section"));
                }
            }
            Sink::Global => push(&mut out.global),
            Sink::Prelude => push(&mut out.files.get_mut(file.as_ref().unwrap()).unwrap().prelude),
            Sink::Block(k) => {
                let f = out.files.get_mut(file.as_ref().ok_or_else(|| err("no file"))?).unwrap();
                push(f.blocks.entry(k.clone()).or_default())
            }
            Sink::StructAttr(k) => {
                let f = out.files.get_mut(file.as_ref().ok_or_else(|| err("no file"))?).unwrap();
                push(&mut f.structs.entry(k.clone()).or_default().attr)
            }
            Sink::StructFields(k) => {
                let f = out.files.get_mut(file.as_ref().ok_or_else(|| err("no file"))?).unwrap();
                push(&mut f.structs.entry(k.clone()).or_default().fields)
            }
            s => {
                let fa = cur(out, &file, &func).ok_or_else(|| format!("line {}: no fn", ln + 1))?;
                match s {
                    Sink::Sig => push(&mut fa.sig),
                    Sink::Entry => push(&mut fa.entry),
                    Sink::Exit => push(&mut fa.exit),
                    Sink::Attr => push(&mut fa.attr),
                    Sink::Lit => push(&mut fa.lit),
                    Sink::Loop(n) => push(&mut fa.loops.get_mut(n).unwrap().clauses),
                    Sink::LoopEntry(n) => push(&mut fa.loops.get_mut(n).unwrap().entry),
                    Sink::LoopExit(n) => push(&mut fa.loops.get_mut(n).unwrap().exit),
                    Sink::LoopBefore(n) => push(&mut fa.loops.get_mut(n).unwrap().before),
                    Sink::Closure(n) => push(&mut fa.closures.get_mut(n).unwrap().clauses),
                    Sink::Hint(n) => push(&mut fa.hints[*n].text),
                    _ => unreachable!(),
                }
            }
        }
    }
    Ok(())
}

fn cur<'a>(out: &'a mut Anns, file: &Option<String>, func: &Option<String>) -> Option<&'a mut FnAnn> {
    out.files.get_mut(file.as_ref()?)?.fns.get_mut(func.as_ref()?)
}
