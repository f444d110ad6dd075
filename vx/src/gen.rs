//! Extraction proper: walks the module tree, edits the source text in place.
use crate::ann::{self, Anns, FileAnn, FnAnn};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Opts {
    pub src: String,
    pub ann: String,
    pub unfit: BTreeSet<String>,
    pub probe: u8,
    pub drop_helpers: BTreeSet<String>,
    pub skip_ann: BTreeSet<String>,
    pub unann: BTreeSet<String>,
    pub baseline: Option<String>,
    pub meta: Option<String>,
}

#[derive(Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: usize,
}

#[derive(Default)]
struct Edits {
    v: Vec<Edit>,
}

impl Edits {
    fn ins(&mut self, at: usize, text: &str) {
        let seq = self.v.len();
        self.v.push(Edit { start: at, end: at, text: text.to_string(), seq });
    }
    fn rep(&mut self, s: usize, e: usize, text: &str) {
        let seq = self.v.len();
        self.v.push(Edit { start: s, end: e, text: text.to_string(), seq });
    }
    /// Apply; returns text and a function old offset -> new offset.
    fn apply(&mut self, src: &str) -> Result<(String, Vec<(usize, usize)>), String> {
        self.v.sort_by_key(|e| (e.start, if e.end > e.start { 1 } else { 0 }, e.seq));
        let mut out = String::new();
        let mut pos = 0;
        let mut anchors = vec![(0, 0)];
        for e in &self.v {
            if e.start < pos {
                if e.start == e.end || e.end <= pos {
                    continue; // inside a replaced region
                }
                return Err(format!("overlapping edits at byte {}", e.start));
            }
            out.push_str(&src[pos..e.start]);
            anchors.push((e.start, out.len()));
            out.push_str(&e.text);
            pos = e.end;
            anchors.push((e.end, out.len()));
        }
        out.push_str(&src[pos..]);
        Ok((out, anchors))
    }
}

fn map_off(a: &[(usize, usize)], off: usize) -> usize {
    // last anchor with .0 <= off
    let i = a.partition_point(|x| x.0 <= off);
    let (o, n) = a[i - 1];
    n + (off - o)
}

pub fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

pub fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "").contains("(test)")
    })
}

pub fn toks<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string()
}

// ------------------------------------------------------------------ shapes

#[derive(Clone, Default)]
pub struct Shape {
    pub sig: String,
    pub text: String,
    pub bindings: Vec<String>,
    pub loops: Vec<String>,
    pub heads: Vec<String>,
    pub returns: usize,
    pub closures: usize,
    pub callees: Vec<String>,
    pub idents: BTreeSet<String>,
}

struct ShapeV<'a> {
    s: &'a mut Shape,
}
impl<'a, 'ast> Visit<'ast> for ShapeV<'a> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        // `None`, constants and the like are patterns too, but not bindings.
        if !n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && !n.starts_with("vx_") {
            self.s.bindings.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.s.loops.push("while".into());
        self.s.heads.push(toks(&e.cond));
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.s.loops.push("loop".into());
        self.s.heads.push(String::new());
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.s.loops.push("for".into());
        self.s.heads.push(format!("{} in {}", toks(&e.pat), toks(&e.expr)));
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        self.s.returns += 1;
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.s.closures += 1;
        visit::visit_expr_closure(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        self.s.callees.push(e.method.to_string());
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            self.s.callees.push(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        self.s.idents.insert(i.to_string());
    }
}

fn shape_of(sig: &syn::Signature, block: Option<&syn::Block>) -> Shape {
    let mut s = Shape::default();
    let mut sig2 = sig.clone();
    sig2.asyncness = None;
    s.sig = {
        // signature with parameter names blanked
        for i in sig2.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = i {
                *t.pat = syn::parse_quote!(_);
            }
        }
        toks(&sig2)
    };
    s.text = format!("{} {}", toks(sig), block.map(|b| toks(b)).unwrap_or_default());
    {
        let mut v = ShapeV { s: &mut s };
        v.visit_signature(sig);
        if let Some(b) = block {
            v.visit_block(b);
        }
    }
    s
}

fn shape_json(s: &Shape) -> Value {
    json!({"sig": s.sig, "text": s.text, "bindings": s.bindings, "loops": s.loops, "heads": s.heads, "returns": s.returns,
           "closures": s.closures, "callees": s.callees})
}

fn shape_from(v: &Value) -> Shape {
    let strs = |k: &str| -> Vec<String> {
        v[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
    };
    Shape {
        sig: v["sig"].as_str().unwrap_or("").into(),
        text: v["text"].as_str().unwrap_or("").into(),
        bindings: strs("bindings"),
        loops: strs("loops"),
        heads: strs("heads"),
        returns: v["returns"].as_u64().unwrap_or(0) as usize,
        closures: v["closures"].as_u64().unwrap_or(0) as usize,
        callees: strs("callees"),
        idents: BTreeSet::new(),
    }
}

/// Replace whole identifiers in annotation text.
fn rename(text: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let mut p = st;
            while p > 0 && b[p - 1] == ' ' {
                p -= 1;
            }
            let prev_dot = p > 0 && b[p - 1] == '.' && !(p > 1 && b[p - 2] == '.');
            if !prev_dot && m.contains_key(&w) {
                out.push_str(&m[&w]);
            } else {
                out.push_str(&w);
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// Rename field accesses (`.name`).
fn rename_fields(text: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return text.to_string();
    }
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let prev_dot = st > 0 && b[st - 1] == '.' && !(st > 1 && b[st - 2] == '.');
            let call = i < b.len() && b[i] == '(';
            if prev_dot && !call && m.contains_key(&w) {
                out.push_str(&m[&w]);
            } else {
                out.push_str(&w);
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

// ------------------------------------------------------------------ sources

pub struct SrcFile {
    pub rel: String,
    pub text: String,
    pub ast: syn::File,
}

/// All the non-test source files of the module tree rooted at `src`/mod.rs.
pub fn load_tree(src: &str, meta: Option<&str>) -> Result<Vec<SrcFile>, String> {
    let mut out = vec![];
    fn go(src: &str, rel: &str, meta: Option<&str>, out: &mut Vec<SrcFile>) -> Result<(), String> {
        let path = if rel == "segment_metadata.rs" && meta.is_some() {
            meta.unwrap().to_string()
        } else {
            format!("{}/{}", src, rel)
        };
        let text = std::fs::read_to_string(&path).map_err(|e| format!("{}: {}", path, e))?;
        let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", path, e))?;
        let dir = if rel.ends_with("mod.rs") {
            rel.trim_end_matches("mod.rs").to_string()
        } else {
            format!("{}/", rel.trim_end_matches(".rs"))
        };
        let mut subs = vec![];
        for it in &ast.items {
            if let syn::Item::Mod(m) = it {
                if m.content.is_none() && !is_cfg_test(&m.attrs) {
                    let n = m.ident.to_string();
                    let a = format!("{}{}.rs", dir, n);
                    let b = format!("{}{}/mod.rs", dir, n);
                    if std::path::Path::new(&format!("{}/{}", src, a)).exists()
                        || (a == "segment_metadata.rs" && meta.is_some())
                    {
                        subs.push(a);
                    } else {
                        subs.push(b);
                    }
                }
            }
        }
        out.push(SrcFile { rel: rel.to_string(), text, ast });
        for s in subs {
            go(src, &s, meta, out)?;
        }
        Ok(())
    }
    go(src, "mod.rs", meta, &mut out)?;
    Ok(out)
}

fn last_seg(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => last_seg(&r.elem),
        _ => toks(t),
    }
}

pub fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = last_seg(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => format!("{}@{}", p.segments.last().unwrap().ident, ty),
        None => ty,
    }
}

/// (key, signature, block) of every non-test fn of a file.
pub fn fns_of(ast: &syn::File) -> Vec<(String, syn::Signature, Option<syn::Block>)> {
    let mut out = vec![];
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if !is_cfg_test(&f.attrs) => out.push((f.sig.ident.to_string(), f.sig.clone(), Some((*f.block).clone()))),
            syn::Item::Impl(i) if !is_cfg_test(&i.attrs) => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        out.push((format!("{}::{}", impl_key(i), f.sig.ident), f.sig.clone(), Some(f.block.clone())));
                    }
                }
            }
            syn::Item::Trait(t) if !is_cfg_test(&t.attrs) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        out.push((format!("trait@{}::{}", t.ident, f.sig.ident), f.sig.clone(), f.default.clone()));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

fn struct_fields(ast: &syn::File) -> Vec<(String, Vec<(String, String)>)> {
    let mut out = vec![];
    for it in &ast.items {
        if let syn::Item::Struct(s) = it {
            let f = s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), toks(&f.ty))).collect();
            out.push((s.ident.to_string(), f));
        }
    }
    out
}

/// Functions of the baseline that are gone, where exactly one function of the
/// same place (file, type or trait) is new and has the same signature.
fn renamed_fns(f: &SrcFile, base: &Value) -> Vec<(String, String)> {
    let place = |k: &str| k.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
    let blank = |sig: &str, k: &str| sig.replacen(&format!("fn {} ", k.rsplit(':').next().unwrap()), "fn _ ", 1);
    let here = fns_of(&f.ast);
    let pre = format!("{}:", f.rel);
    let mut old: Vec<(String, String)> = vec![];
    for (k, v) in base["fns"].as_object().into_iter().flatten() {
        if let Some(k) = k.strip_prefix(&pre) {
            if !here.iter().any(|x| x.0 == k) {
                old.push((k.to_string(), blank(v["sig"].as_str().unwrap_or(""), k)));
            }
        }
    }
    let new: Vec<(String, String)> = here
        .iter()
        .filter(|x| base["fns"].get(format!("{}{}", pre, x.0)).is_none())
        .map(|(k, s, b)| (k.clone(), blank(&shape_of(s, b.as_ref()).sig, k)))
        .collect();
    let mut out = vec![];
    for (k, s) in &old {
        if k.contains('@') {
            continue;
        }
        let c: Vec<&(String, String)> = new.iter().filter(|x| place(&x.0) == place(k) && x.1 == *s).collect();
        let d = old.iter().filter(|x| place(&x.0) == place(k) && x.1 == *s).count();
        if c.len() == 1 && d == 1 {
            out.push((k.clone(), c[0].0.clone()));
        }
    }
    out
}

pub fn baseline(src: &str, _ann: &str) -> Result<Value, String> {
    let files = load_tree(src, None)?;
    let mut m = serde_json::Map::new();
    let mut structs = serde_json::Map::new();
    for f in &files {
        for (k, sig, b) in fns_of(&f.ast) {
            m.insert(format!("{}:{}", f.rel, k), shape_json(&shape_of(&sig, b.as_ref())));
        }
        for (n, fl) in struct_fields(&f.ast) {
            structs.insert(format!("{}:{}", f.rel, n), json!(fl));
        }
    }
    Ok(json!({"fns": m, "structs": structs}))
}

// ------------------------------------------------------------------ generate

struct Ctx<'a> {
    o: &'a Opts,
    anns: Anns,
    base: Option<Value>,
    files: &'a [SrcFile],
    fns: Vec<Value>,
    dropped: Vec<String>,
    rewrites: BTreeMap<String, usize>,
    known: BTreeSet<String>, // fn names known at baseline
    new_fns: BTreeSet<String>,
    renamed: BTreeSet<String>,
    hosts: BTreeSet<String>,
    aliases: BTreeMap<String, Vec<String>>, // calls by an older name
    file_strs: BTreeSet<String>, // string literals in the constants of the file
}

pub fn generate(o: &Opts) -> Result<(String, Value), String> {
    let mut anns = ann::load(&o.ann)?;
    let mut files = load_tree(&o.src, o.meta.as_deref())?;
    let mut base: Option<Value> = match &o.baseline {
        Some(p) => Some(serde_json::from_str(&std::fs::read_to_string(p).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?),
        None => None,
    };
    let mut fn_renames: Vec<(String, String)> = vec![];
    let mut aliases: BTreeMap<String, Vec<String>> = BTreeMap::new();
    if let Some(b) = &mut base {
        for f in &files {
            for (old, new) in renamed_fns(f, b) {
                let (ko, kn) = (format!("{}:{}", f.rel, old), format!("{}:{}", f.rel, new));
                let nm = |k: &str| k.rsplit(':').next().unwrap().to_string();
                let (no, nn) = (nm(&old), nm(&new));
                let m: BTreeMap<String, String> = [(no.clone(), nn.clone())].into_iter().collect();
                let mut v = b["fns"].as_object_mut().unwrap().remove(&ko).unwrap();
                for k in ["sig", "text"] {
                    let t = rename(v[k].as_str().unwrap_or(""), &m);
                    v[k] = json!(t);
                }
                b["fns"][&kn] = v;
                if let Some(fa) = anns.files.get_mut(&f.rel) {
                    if let Some(a) = fa.fns.remove(&old) {
                        fa.fns.insert(new.clone(), a);
                    }
                }
                aliases.entry(no).or_default().push(nn);
                fn_renames.push((ko, kn));
            }
        }
    }
    let mut inlined = vec![];
    let mut inlined_calls = 0;
    let mut hosts = BTreeSet::new();
    if let Some(b) = &base {
        let r = crate::inline::inline(&mut files, b, &o.drop_helpers);
        inlined = r.0;
        inlined_calls = r.1;
        hosts = r.2;
    }
    let mut known = BTreeSet::new();
    let mut new_fns = BTreeSet::new();
    let mut field_renames: BTreeMap<String, String> = BTreeMap::new();
    if let Some(b) = &base {
        if let Some(m) = b["fns"].as_object() {
            for k in m.keys() {
                known.insert(k.rsplit(|c| c == ':').next().unwrap().to_string());
            }
        }
        for f in &files {
            for (k, _, _) in fns_of(&f.ast) {
                if b["fns"].get(format!("{}:{}", f.rel, k)).is_none() {
                    new_fns.insert(k.rsplit(|c| c == ':').next().unwrap().to_string());
                }
            }
            for (n, fl) in struct_fields(&f.ast) {
                if let Some(old) = b["structs"].get(format!("{}:{}", f.rel, n)).and_then(|x| x.as_array()) {
                    let old: Vec<(String, String)> = old
                        .iter()
                        .map(|p| (p[0].as_str().unwrap_or("").to_string(), p[1].as_str().unwrap_or("").to_string()))
                        .collect();
                    if old.len() == fl.len() && old.iter().zip(&fl).all(|(a, b)| a.1 == b.1) {
                        for (a, b) in old.iter().zip(&fl) {
                            if a.0 != b.0 {
                                field_renames.insert(a.0.clone(), b.0.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    if !field_renames.is_empty() {
        let fr = &field_renames;
        let r = |s: &mut String| *s = rename_fields(s, fr);
        for f in anns.files.values_mut() {
            r(&mut f.prelude);
            for b in f.blocks.values_mut() {
                r(b);
            }
            for fa in f.fns.values_mut() {
                each_text(fa, &r);
            }
        }
        r(&mut anns.global);
    }
    let global = anns.global.clone();
    let mut cx = Ctx {
        o,
        anns,
        base,
        files: &files,
        fns: vec![],
        dropped: vec![],
        rewrites: BTreeMap::new(),
        known,
        new_fns,
        aliases,
        hosts,
        renamed: fn_renames.iter().map(|x| x.1.clone()).collect(),
        file_strs: BTreeSet::new(),
    };
    if inlined_calls > 0 {
        cx.rewrites.insert("call of a function unknown to the baseline replaced by its body".into(), inlined_calls);
    }
    let mut out = String::new();
    out.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
    out.push_str(&global);
    let body = emit(&mut cx, "mod.rs", "store", out.matches('\n').count())?;
    out.push_str(&body);
    out.push_str("\n} // verus!\nfn main() {}\n");
    let mut lost = vec![];
    for (rel, fa) in &cx.anns.files {
        for (k, a) in &fa.fns {
            if !a.used {
                lost.push(format!("{}:{}", rel, k));
            }
        }
    }
    let trusted_scan: Vec<String> = out
        .lines()
        .enumerate()
        .filter(|(_, l)| {
            let t = l.trim_start();
            !t.starts_with("//")
                && (t.contains("external_body") || t.contains("assume(") || t.contains("admit(") || t.contains("axiom fn") || t.contains("assume_specification") || t.contains("external_type_specification"))
        })
        .map(|(n, l)| format!("{}: {}", n + 1, l.trim()))
        .collect();
    let map = json!({
        "fns": cx.fns, "dropped": cx.dropped, "rewrites": cx.rewrites, "lost": lost,
        "field_renames": field_renames, "fn_renames": fn_renames, "new_fns": cx.new_fns, "inlined": inlined, "scan": trusted_scan,
    });
    Ok((out, map))
}

fn each_text(fa: &mut FnAnn, r: &dyn Fn(&mut String)) {
    r(&mut fa.sig);
    r(&mut fa.entry);
    r(&mut fa.exit);
    r(&mut fa.lit);
    for l in fa.loops.values_mut() {
        r(&mut l.clauses);
        r(&mut l.entry);
        r(&mut l.exit);
        r(&mut l.before);
    }
    for c in fa.closures.values_mut() {
        r(&mut c.clauses);
        r(&mut c.head);
    }
    for h in fa.hints.iter_mut() {
        r(&mut h.text);
    }
}

fn emit(cx: &mut Ctx, rel: &str, name: &str, line0: usize) -> Result<String, String> {
    let files = cx.files;
    let sf = files.iter().find(|f| f.rel == rel).ok_or_else(|| format!("missing file {}", rel))?;
    let fa: FileAnn = cx.anns.files.get(rel).cloned().unwrap_or_default();
    let mut head = format!("pub mod {} {{ // file {}\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::vxdeps::*;\n#[allow(unused_imports)] use crate::vxspec::*;\nbroadcast use {{crate::vxspec::empties, crate::vxspec::spellings}};\n", name, rel);
    head.push_str(&fa.prelude);
    head.push('\n');
    let text = &sf.text;
    let mut ed = Edits::default();
    // inner doc comments cannot follow the inserted items.
    for a in &sf.ast.attrs {
        let (s, e) = rng(a);
        ed.rep(s, e, "");
        count(cx, "inner doc comment dropped");
    }
    // byte-string literals become arrays of numbers
    if let Ok(ts) = text.parse::<proc_macro2::TokenStream>() {
        let mut lits = vec![];
        byte_lits(ts, &mut lits);
        for (a, b, val, star) in lits {
            // doc text and dropped items are replaced as a whole; those edits win.
            ed.rep(a, b, &format!("{}[{}]", if star { "" } else { "&" }, val.iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", ")));
            count(cx, "byte-string literal spelled as an array");
        }
    }
    let mut fn_spans: Vec<(String, usize, usize, Value)> = vec![];
    let mut submods: Vec<(usize, usize, String, String)> = vec![];
    cx.file_strs.clear();
    for it in &sf.ast.items {
        if let syn::Item::Const(c) = it {
            str_lits(quote::ToTokens::to_token_stream(&c.expr), &mut cx.file_strs);
        }
    }
    let dir = if rel.ends_with("mod.rs") { rel.trim_end_matches("mod.rs").to_string() } else { format!("{}/", rel.trim_end_matches(".rs")) };
    for it in &sf.ast.items {
        let (s, e) = rng(it);
        let (attrs, nm): (&[syn::Attribute], String) = match it {
            syn::Item::Fn(f) => (&f.attrs, f.sig.ident.to_string()),
            syn::Item::Struct(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Enum(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Impl(x) => (&x.attrs, impl_key(x)),
            syn::Item::Trait(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Mod(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Use(x) => (&x.attrs, toks(&x.tree).replace(' ', "")),
            syn::Item::Const(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Static(x) => (&x.attrs, x.ident.to_string()),
            syn::Item::Type(x) => (&x.attrs, x.ident.to_string()),
            _ => (&[], String::from("?")),
        };
        if is_cfg_test(attrs) {
            ed.rep(s, e, "");
            count(cx, "#[cfg(test)] item dropped");
            continue;
        }
        if let Some(why) = fa.drops.get(&nm) {
            ed.rep(s, e, "");
            cx.dropped.push(format!("{}:{} ({})", rel, nm, why));
            continue;
        }
        if !matches!(it, syn::Item::Use(_)) {
            let mut v = PathV { ed: &mut ed, n: 0 };
            v.visit_item(it);
            for _ in 0..v.n {
                count(cx, "std::{fs,os,path,io} redirected to vxdeps");
            }
        }
        match it {
            syn::Item::Use(u) => {
                let t = toks(&u.tree).replace(' ', "");
                if t == "async_trait::async_trait" || t == "std::collections::HashMap" {
                    ed.rep(s, e, "");
                    count(cx, "use of async_trait/HashMap dropped");
                } else if t.starts_with("std::fs") || t.starts_with("std::os") || t.starts_with("std::path") || t.starts_with("std::io") || t=="std::sync::Arc" {
                    // resolved against the stand-ins of vxdeps
                    ed.rep(s, e, &format!("use crate::vxdeps::vx{};", text[s..e].trim_start_matches("pub ").trim_start_matches("use ").trim_end_matches(';')));
                    count(cx, "std::{fs,os,path,io} redirected to vxdeps");
                }
                if let syn::Visibility::Inherited = u.vis {} 
            }
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    // nested inline module (generated metadata)
                    vis_pub(&mut ed, &m.vis, rng(&m.mod_token).0);
                    let open = m.content.as_ref().unwrap().0.span.open().byte_range().end;
                    ed.ins(open, "\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::vxdeps::*;\n#[allow(unused_imports)] use crate::vxspec::*;\nbroadcast use {crate::vxspec::empties, crate::vxspec::spellings};\n");
                    for x in items {
                        do_type_item(cx, &mut ed, x, &fa, text);
                    }
                } else {
                    let n = m.ident.to_string();
                    let a = format!("{}{}.rs", dir, n);
                    let sub = if files.iter().any(|f| f.rel == a) { a } else { format!("{}{}/mod.rs", dir, n) };
                    submods.push((s, e, n, sub));
                }
            }
            syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Type(_) | syn::Item::Const(_) | syn::Item::Static(_) => {
                do_type_item(cx, &mut ed, it, &fa, text);
            }
            syn::Item::Fn(f) => {
                let v = do_fn(cx, &mut ed, rel, &f.sig.ident.to_string(), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), &fa, text)?;
                fn_spans.push((f.sig.ident.to_string(), s, e, v));
            }
            syn::Item::Impl(i) => {
                strip_attrs(cx, &mut ed, &i.attrs);
                let key = impl_key(i);
                let open = i.brace_token.span.open().byte_range().end;
                if let Some(b) = fa.blocks.get(&key) {
                    ed.ins(open, &format!("\n{}", b));
                }
                for x in &i.items {
                    match x {
                        syn::ImplItem::Fn(f) => {
                            let k = format!("{}::{}", key, f.sig.ident);
                            let (s, e) = rng(f);
                            if let Some(why) = fa.drops.get(&k) {
                                ed.rep(s, e, "");
                                cx.dropped.push(format!("{}:{} ({})", rel, k, why));
                                continue;
                            }
                            let vis = if i.trait_.is_some() { None } else { Some(&f.vis) };
                            let v = do_fn(cx, &mut ed, rel, &k, &f.attrs, vis, &f.sig, Some(&f.block), &fa, text)?;
                            fn_spans.push((k, s, e, v));
                        }
                        _ => {}
                    }
                }
            }
            syn::Item::Trait(t) => {
                strip_attrs(cx, &mut ed, &t.attrs);
                vis_pub(&mut ed, &t.vis, t.unsafety.map(|x| rng(&x).0).unwrap_or(rng(&t.trait_token).0));
                let open = t.brace_token.span.open().byte_range().end;
                if let Some(b) = fa.blocks.get(&format!("trait@{}", t.ident)) {
                    ed.ins(open, &format!("\n{}", b));
                }
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        let k = format!("trait@{}::{}", t.ident, f.sig.ident);
                        let (s, e) = rng(f);
                        if let Some(why) = fa.drops.get(&k) {
                            ed.rep(s, e, "");
                            cx.dropped.push(format!("{}:{} ({})", rel, k, why));
                            continue;
                        }
                        let v = do_fn(cx, &mut ed, rel, &k, &f.attrs, None, &f.sig, f.default.as_ref(), &fa, text)?;
                        fn_spans.push((k, s, e, v));
                    }
                }
            }
            _ => {}
        }
    }
    // submodules are replaced by markers and spliced in afterwards.
    for (s, e, n, _) in &submods {
        ed.rep(*s, *e, &format!("/*VXSUB:{}*/", n));
    }
    let (mut body, anchors) = ed.apply(text)?;
    if fa.prost || rel == "segment_metadata.rs" {
        body = body
            .replace("::prost::alloc::string::String", "String")
            .replace("::prost::alloc::vec::Vec", "Vec")
            .replace("::core::option::Option", "Option")
            .replace("::std::collections::HashMap", "HashMap");
        // same number of lines, so line numbers are unaffected.
    }
    // lines of each fn inside body
    let lines_at = |off: usize| body_line(&body, off);
    let mut recs = vec![];
    for (k, s, e, v) in fn_spans {
        let a = map_off(&anchors, s);
        let b = map_off(&anchors, e);
        // prost replacement only happens in metadata, which has no fns.
        let l0 = lines_at(a.min(body.len()));
        let l1 = lines_at(b.min(body.len()));
        let s0 = body_line(text, s) + 1;
        let s1 = body_line(text, e) + 1;
        recs.push((k, l0, l1, s0, s1, v));
    }
    // splice submodules, shifting the recorded lines
    let mut out = head;
    let mut rest = body.as_str();
    let mut shift: Vec<(usize, usize)> = vec![]; // (body line, extra lines)
    let headlines = out.matches('\n').count();
    let mut consumed = 0usize;
    let mut extra = 0usize;
    for (_, _, n, sub) in &submods {
        let marker = format!("/*VXSUB:{}*/", n);
        let p = rest.find(&marker).ok_or("lost submodule marker")?;
        out.push_str(&rest[..p]);
        consumed += rest[..p].matches('\n').count();
        let here = out.matches('\n').count();
        let inner = emit(cx, sub, n, line0 + here)?;
        let added = inner.matches('\n').count();
        extra += added;
        shift.push((consumed, extra));
        out.push_str(&inner);
        rest = &rest[p + marker.len()..];
    }
    out.push_str(rest);
    out.push_str("\n}\n");
    for (k, l0, l1, s0, s1, v) in recs {
        let sh = |l: usize| -> usize {
            let mut x = 0;
            for (at, ex) in &shift {
                if *at <= l {
                    x = *ex;
                }
            }
            l + x + line0 + headlines + 1
        };
        let mut o = v;
        o["key"] = json!(format!("{}:{}", rel, k));
        o["file"] = json!(rel);
        o["src"] = json!([s0, s1]);
        o["gen"] = json!([sh(l0), sh(l1)]);
        cx.fns.push(o);
    }
    Ok(out)
}

fn body_line(t: &str, off: usize) -> usize {
    t.as_bytes()[..off].iter().filter(|c| **c == b'\n').count()
}

fn count(cx: &mut Ctx, k: &str) {
    *cx.rewrites.entry(k.to_string()).or_default() += 1;
}

fn vis_pub(ed: &mut Edits, vis: &syn::Visibility, at: usize) {
    match vis {
        syn::Visibility::Public(_) => {}
        syn::Visibility::Inherited => ed.ins(at, "pub "),
        syn::Visibility::Restricted(r) => {
            let (s, e) = rng(r);
            ed.rep(s, e, "pub");
        }
    }
}

fn strip_attrs(cx: &mut Ctx, ed: &mut Edits, attrs: &[syn::Attribute]) {
    for a in attrs {
        let p = a.path();
        let (s, e) = rng(a);
        if p.is_ident("async_trait") || p.is_ident("prost") || p.is_ident("inline") || p.is_ident("allow") || p.is_ident("must_use") {
            ed.rep(s, e, "");
            count(cx, &format!("#[{}] dropped", toks(p)));
        } else if p.is_ident("derive") {
            let l = toks(&a.meta);
            let mut keep = vec![];
            if l.contains("Clone") && !l.contains("prost") {
                keep.push("Clone");
            }
            if l.contains("Copy") {
                if !keep.contains(&"Clone") {
                    keep.push("Clone");
                }
                keep.push("Copy");
            }
            let t = if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
            ed.rep(s, e, &t);
            count(cx, "derives other than Clone/Copy dropped");
        } else if p.is_ident("doc") {
            // `///` comments: harmless, but not accepted everywhere.
            ed.rep(s, e, "");
        }
    }
}

fn do_type_item(cx: &mut Ctx, ed: &mut Edits, it: &syn::Item, fa: &FileAnn, _text: &str) {
    match it {
        syn::Item::Struct(x) => {
            strip_attrs(cx, ed, &x.attrs);
            let kw = rng(&x.struct_token).0;
            let vs = match &x.vis {
                syn::Visibility::Inherited => kw,
                v => rng(v).0,
            };
            if let Some(sa) = fa.structs.get(&x.ident.to_string()) {
                ed.ins(vs, &sa.attr);
                if let syn::Fields::Named(n) = &x.fields {
                    let close = n.brace_token.span.close().byte_range().start;
                    if !sa.fields.is_empty() {
                        let comma = if n.named.is_empty() || n.named.trailing_punct() { "" } else { "," };
                        ed.ins(close, &format!("{}\n{}", comma, sa.fields));
                    }
                }
            }
            vis_pub(ed, &x.vis, kw);
            for f in x.fields.iter() {
                strip_attrs(cx, ed, &f.attrs);
                let at = f.ident.as_ref().map(|i| rng(i).0).unwrap_or(rng(&f.ty).0);
                vis_pub(ed, &f.vis, at);
            }
        }
        syn::Item::Enum(x) => {
            strip_attrs(cx, ed, &x.attrs);
            vis_pub(ed, &x.vis, rng(&x.enum_token).0);
            for v in &x.variants {
                strip_attrs(cx, ed, &v.attrs);
                if let Some((eq, d)) = &v.discriminant {
                    ed.rep(rng(eq).0, rng(d).1, "");
                    count(cx, "enum discriminant dropped");
                }
            }
        }
        syn::Item::Type(x) => {
            strip_attrs(cx, ed, &x.attrs);
            vis_pub(ed, &x.vis, rng(&x.type_token).0);
        }
        syn::Item::Const(x) => {
            strip_attrs(cx, ed, &x.attrs);
            vis_pub(ed, &x.vis, rng(&x.const_token).0);
            fix_const_ty(cx, ed, &x.ty, &x.expr, x.semi_token.span);
        }
        syn::Item::Static(x) => {
            strip_attrs(cx, ed, &x.attrs);
            vis_pub(ed, &x.vis, rng(&x.static_token).0);
        }
        _ => {}
    }
}

/// `mut self` taken by value: the range of `mut`
fn by_value_mut_self(sig: &syn::Signature) -> Option<(usize, usize)> {
    match sig.inputs.first() {
        Some(syn::FnArg::Receiver(r)) if r.reference.is_none() && r.colon_token.is_none() => r.mutability.as_ref().map(|m| rng(m)),
        _ => None,
    }
}
struct SelfV<'a> {
    ed: &'a mut Edits,
}
impl<'ast> Visit<'ast> for SelfV<'_> {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.is_ident("self") {
            let (s, t) = rng(p);
            self.ed.rep(s, t, "vx_self");
        }
    }
}

/// inline paths std::{io,fs,path,os}::.. resolve to the stand-ins
struct PathV<'a> {
    ed: &'a mut Edits,
    n: usize,
}
impl<'ast> Visit<'ast> for PathV<'_> {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "std" {
            let m = p.segments[1].ident.to_string();
            if ["io", "fs", "path", "os"].contains(&m.as_str()) {
                let (s, t) = rng(&p.segments[0].ident);
                let s = p.leading_colon.map(|c| rng(&c).0).unwrap_or(s);
                self.ed.rep(s, t, "crate::vxdeps::vxstd");
                self.n += 1;
            }
        }
        visit::visit_path(self, p);
    }
}

/// constants of byte string / str type
/// (start, end, bytes, preceded by `*`) of the byte-string literals outside #[cfg(test)].
fn byte_lits(ts: proc_macro2::TokenStream, out: &mut Vec<(usize, usize, Vec<u8>, bool)>) {
    let mut star: Option<usize> = None;
    for t in ts {
        let mut next = None;
        match &t {
            proc_macro2::TokenTree::Group(g) => byte_lits(g.stream(), out),
            proc_macro2::TokenTree::Punct(p) if p.as_char() == '*' => next = Some(t.span().byte_range().start),
            proc_macro2::TokenTree::Literal(l) => {
                let r = t.span().byte_range();
                if let syn::Lit::ByteStr(b) = syn::Lit::new(l.clone()) {
                    out.push((star.unwrap_or(r.start), r.end, b.value(), star.is_some()));
                }
            }
            _ => {}
        }
        star = next;
    }
}

/// The string literals of a token stream.
fn str_lits(ts: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for t in ts {
        match &t {
            proc_macro2::TokenTree::Group(g) => str_lits(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) if l.to_string().starts_with('"') => { out.insert(l.to_string()); }
            _ => {}
        }
    }
}

fn fix_const_ty(cx: &mut Ctx, ed: &mut Edits, ty: &syn::Type, _e: &syn::Expr, _semi: proc_macro2::Span) {
    if let syn::Type::Reference(r) = ty {
        if r.lifetime.is_none() {
            ed.ins(rng(&r.and_token).1, "'static ");
            count(cx, "'static made explicit on a constant");
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn do_fn(
    cx: &mut Ctx,
    ed: &mut Edits,
    rel: &str,
    key: &str,
    attrs: &[syn::Attribute],
    vis: Option<&syn::Visibility>,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    fa: &FileAnn,
    text: &str,
) -> Result<Value, String> {
    let full = format!("{}:{}", rel, key);
    let shape = shape_of(sig, block);
    let mut ann: FnAnn = fa.fns.get(key).cloned().unwrap_or_default();
    let annotated = fa.fns.contains_key(key) && !cx.o.unann.contains(&full);
    if let Some(a) = cx.anns.files.get_mut(rel).and_then(|f| f.fns.get_mut(key)) {
        a.used = true;
    }
    // ---- compare with the baseline
    let mut status = "annotated";
    let mut notes: Vec<String> = vec![];
    let mut changed = false;
    let mut unfit: Option<String> = None;
    let mut shape_changed = false;
    let mut more_returns = false;
    let mut old_callees: Vec<String> = vec![];
    if let Some(b) = cx.base.as_ref().map(|b| b["fns"].get(&full).cloned()) {
        match b {
            None => {
                status = "new";
                changed = true;
            }
            Some(v) => {
                let old = shape_from(&v);
                old_callees = old.callees.clone();
                changed = old.text != shape.text;
                if changed {
                    if cx.renamed.contains(&full) {
                        notes.push("function renamed and changed".into());
                    }
                    if cx.hosts.contains(&full) {
                        notes.push("helper inlined".into());
                    }
                    if old.sig != shape.sig {
                        notes.push("signature changed".into());
                        shape_changed = true;
                    }
                    if old.loops != shape.loops {
                        notes.push(format!("loop structure changed: {:?} -> {:?}", old.loops, shape.loops));
                        shape_changed = true;
                        unfit = Some("loop structure changed".into());
                    }
                    if old.closures != shape.closures {
                        notes.push("closure structure changed".into());
                        shape_changed = true;
                        if !ann.closures.is_empty() || shape.closures > old.closures {
                            unfit = Some("closure structure changed".into());
                        }
                    }
                    more_returns = shape.returns > old.returns;
                    let mut heads = old.heads.clone();
                    if old.bindings != shape.bindings {
                        if old.bindings.len() == shape.bindings.len() {
                            let mut m = BTreeMap::new();
                            let mut ok = true;
                            for (a, b) in old.bindings.iter().zip(&shape.bindings) {
                                if a != b {
                                    if let Some(x) = m.insert(a.clone(), b.clone()) {
                                        ok &= x == *b;
                                    }
                                }
                            }
                            // swapping two names is not a renaming
                            if ok && m.values().all(|v| !old.bindings.contains(v)) {
                                notes.push(format!("renamed {:?}", m));
                                each_text(&mut ann, &|s: &mut String| *s = rename(s, &m));
                                heads = heads.iter().map(|h| rename(h, &m)).collect();
                                shape_changed = true; // proof re-done with adapted annotations
                            } else {
                                shape_changed = true;
                                notes.push("bindings changed".into());
                            }
                        } else {
                            notes.push("bindings changed".into());
                            shape_changed = true;
                        }
                    }
                    if heads != shape.heads {
                        notes.push("loop heads changed".into());
                    }
                    let newc: Vec<&String> = shape.callees.iter().filter(|c| cx.new_fns.contains(*c) && !cx.known.contains(*c)).collect();
                    if !newc.is_empty() {
                        notes.push(format!("calls new functions {:?}", newc));
                        shape_changed = true;
                    }
                }
            }
        }
    }
    if let Some(t) = &ann.trusted {
        status = "trusted";
        notes.push(t.clone());
    }
    if cx.o.unfit.contains(&full) {
        unfit = Some("set aside by the runner".into());
    }
    if status == "new" && !annotated {
        unfit = Some("not under contract (function is new)".into());
    }
    if !annotated && status == "annotated" {
        status = "unannotated";
    }
    // ---- attributes and signature
    strip_attrs(cx, ed, attrs);
    let fn_at = rng(&sig.fn_token).0;
    let mut first = fn_at;
    if let Some(a) = &sig.asyncness {
        let (s, e) = rng(a);
        ed.rep(s, e, "");
        first = first.min(s);
        count(cx, "async dropped from a fn");
    }
    if let Some(a) = &sig.constness {
        first = first.min(rng(a).0);
    }
    if let Some(a) = &sig.unsafety {
        first = first.min(rng(a).0);
    }
    let mut head_at = first;
    if let Some(v) = vis {
        if !matches!(v, syn::Visibility::Inherited) {
            head_at = rng(v).0.min(first);
        }
    }
    // attributes go before the visibility
    if annotated && !ann.attr.is_empty() {
        ed.ins(head_at, &ann.attr);
    }
    let replace_body = unfit.is_some() || ann.trusted.is_some();
    if replace_body && block.is_some() {
        ed.ins(head_at, "#[verifier::external_body] ");
    }
    if let Some(v) = vis {
        vis_pub(ed, v, first);
    }
    if annotated || ann.trusted.is_some() {
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            let (s, e) = rng(ty);
            ed.ins(s, "(ret: ");
            ed.ins(e, ")");
        }
    }
    let mut lost_hints = vec![];
    match block {
        Some(b) => {
            let (bs, be) = rng(b);
            if annotated && !ann.sig.is_empty() {
                ed.ins(bs, &format!("\n{}", ann.sig));
            }
            if replace_body {
                if unfit.is_some() { status = "unfit"; }
                ed.rep(bs, be, "{ unimplemented!() }");
                if let Some(m) = by_value_mut_self(sig) {
                    ed.rep(m.0, m.1, "");
                }
            } else {
                let mut v = BodyV { ed, cx_rewrites: &mut cx.rewrites, ann: if annotated { Some(&ann) } else { None }, loop_n: 0, closure_n: 0, text, lit_done: false };
                v.visit_block(b);
                if let Some(m) = by_value_mut_self(sig) {
                    ed.rep(m.0, m.1, "");
                    ed.ins(bs + 1, "\nlet mut vx_self = self;\n");
                    let mut sv = SelfV { ed };
                    sv.visit_block(b);
                    count(cx, "`mut self` becomes a local");
                }
                if annotated {
                    if ann.entry.contains("VX_REVEAL_STRLITS;") {
                        let mut l = cx.file_strs.clone();
                        str_lits(quote::ToTokens::to_token_stream(b), &mut l);
                        let r: String = l.iter().map(|x| format!("reveal_strlit({}); ", x)).collect();
                        ann.entry = ann.entry.replace("VX_REVEAL_STRLITS;", &r);
                    }
                    // headers first, then (when probing) an assertion that must fail
                    let (head, rest): (Vec<&str>, Vec<&str>) = ann.entry.lines().partition(|l| l.trim_start().starts_with("hide("));
                    let mut entry = head.join("\n");
                    let mut exit = ann.exit.clone();
                    if cx.o.probe == 1 || (cx.o.probe == 2 && !exit_placeable(b)) {
                        entry.push_str("\nproof { assert(false); } // VX_PROBE\n");
                    } else if cx.o.probe == 2 {
                        exit.push_str("\nproof { assert(false); } // VX_PROBE\n");
                    }
                    entry.push('\n');
                    entry.push_str(&rest.join("\n"));
                    if !entry.trim().is_empty() {
                        ed.ins(bs + 1, &format!("\n// VX_HINT\n{}\n// VX_END\n", entry));
                    }
                    if !exit.is_empty() {
                        let ty = match &sig.output {
                            syn::ReturnType::Type(_, ty) => {
                                let (s, e) = rng(ty);
                                let t = text[s..e].to_string();
                                if t.contains("impl ") { String::new() } else { format!(": {}", t.replace("std::io::", "crate::vxdeps::vxstd::io::")) }
                            }
                            _ => String::new(),
                        };
                        let exit = format!("// VX_EXIT\n{}\n// VX_END\n", exit);
                        block_exit(ed, b, &exit, &ty);
                        if more_returns {
                            let mut rv = ReturnV { ed, exit: &exit, ty: &ty };
                            rv.visit_block(b);
                        }
                    }
                    for h in &ann.hints {
                        let also: Vec<String> = cx.aliases.get(&h.call).into_iter().flatten().filter(|n| !old_callees.contains(n)).cloned().collect();
                        if !place_hint(ed, b, h, &also) {
                            lost_hints.push(format!("{} {} {}", if h.before { "before" } else { "after" }, h.call, h.nth));
                        }
                    }
                }
            }
        }
        None => {
            if annotated && !ann.sig.is_empty() {
                // before the `;`
                let (_, e) = rng(sig);
                ed.ins(e, &format!("\n{}", ann.sig));
            }
        }
    }
    if !lost_hints.is_empty() {
        shape_changed = true;
    }
    Ok(json!({
        "props": ann.props, "status": status, "changed": changed, "shape_changed": shape_changed,
        "unfit": unfit, "notes": notes, "lost_hints": lost_hints, "trusted": ann.trusted,
        "has_body": block.is_some(), "callees": shape.callees,
        "clauses": ann.sig.lines().filter(|l| { let t = l.trim(); !t.is_empty() && !t.starts_with("//") }).count(),
    }))
}

/// The exit proof at `return`s that the contract file does not know of.
struct ReturnV<'a> {
    ed: &'a mut Edits,
    exit: &'a str,
    ty: &'a str,
}
impl<'a, 'ast> Visit<'ast> for ReturnV<'a> {
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        let (s, t) = rng(e);
        match &e.expr {
            Some(x) => {
                let (xs, xe) = rng(x);
                self.ed.rep(s, xs, &format!("{{ let vx_ret{} = ", self.ty));
                self.ed.ins(xe, &format!(";\n{}return vx_ret }}", self.exit));
                self.visit_expr(x);
            }
            None => {
                self.ed.ins(s, &format!("{{\n{}", self.exit));
                self.ed.ins(t, " }");
            }
        }
    }
}

fn exit_placeable(b: &syn::Block) -> bool {
    !matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Loop(_), _)) | Some(syn::Stmt::Expr(syn::Expr::Return(_), _)))
}

/// Insert proof text at the end of a block, before its tail expression returns.
fn block_exit(ed: &mut Edits, b: &syn::Block, text: &str, ty: &str) {
    let (_, be) = rng(b);
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => {
            if matches!(e, syn::Expr::Loop(_) | syn::Expr::Return(_)) {
                return;
            }
            let (s, t) = rng(e);
            ed.ins(s, &format!("let vx_ret{} = ", ty));
            ed.ins(t, &format!(";\n{}\nvx_ret", text));
        }
        _ => ed.ins(be - 1, &format!("\n{}\n", text)),
    }
}

fn place_hint(ed: &mut Edits, b: &syn::Block, h: &ann::Hint, also: &[String]) -> bool {
    let mut f = FindCall { call: &h.call, also, nth: h.nth, seen: 0, stack: vec![], hit: None };
    f.visit_block(b);
    match f.hit {
        Some((ss, se, tail)) => {
            if h.before {
                ed.ins(ss, &format!("// VX_HINT\n{}\n// VX_END\n", h.text));
            } else if tail {
                ed.ins(ss, "let vx_tail = ");
                ed.ins(se, &format!(";\n// VX_HINT\n{}\n// VX_END\nvx_tail", h.text));
            } else {
                ed.ins(se, &format!("\n// VX_HINT\n{}\n// VX_END\n", h.text));
            }
            true
        }
        None => false,
    }
}

struct FindCall<'a> {
    call: &'a str,
    also: &'a [String],
    nth: usize,
    seen: usize,
    stack: Vec<(usize, usize, bool)>,
    hit: Option<(usize, usize, bool)>,
}
impl<'a> FindCall<'a> {
    fn note(&mut self, n: &str) {
        if (n == self.call || self.also.iter().any(|a| a == n)) && self.hit.is_none() {
            if self.seen == self.nth {
                self.hit = self.stack.last().cloned();
            }
            self.seen += 1;
        }
    }
}
impl<'a, 'ast> Visit<'ast> for FindCall<'a> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let (ss, se) = rng(s);
            let tail = i + 1 == n && matches!(s, syn::Stmt::Expr(_, None));
            self.stack.push((ss, se, tail));
            self.visit_stmt(s);
            self.stack.pop();
        }
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, e);
        self.note(&e.method.to_string());
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, e);
        if let syn::Expr::Path(p) = &*e.func {
            self.note(&p.path.segments.last().unwrap().ident.to_string());
        }
    }
}

struct BodyV<'a> {
    ed: &'a mut Edits,
    cx_rewrites: &'a mut BTreeMap<String, usize>,
    ann: Option<&'a FnAnn>,
    loop_n: usize,
    closure_n: usize,
    text: &'a str,
    lit_done: bool,
}

impl<'a> BodyV<'a> {
    fn cnt(&mut self, k: &str) {
        *self.cx_rewrites.entry(k.to_string()).or_default() += 1;
    }
    fn do_loop(&mut self, at: usize, body: &syn::Block, expr: Option<&syn::Expr>) {
        let n = self.loop_n;
        self.loop_n += 1;
        if let Some(l) = self.ann.and_then(|a| a.loops.get(&n)) {
            let (s, _) = rng(body);
            if !l.before.is_empty() {
                self.ed.ins(at, &format!("\n// VX_HINT\n{}\n// VX_END\n", l.before));
            }
            if let (Some(e), true) = (expr, !l.pattern_name.is_empty()) {
                self.ed.ins(rng(e).0, &format!("{}: ", l.pattern_name));
            }
            self.ed.ins(s, &format!("\n{}", l.clauses));
            if !l.entry.is_empty() {
                self.ed.ins(s + 1, &format!("\n// VX_HINT\n{}\n// VX_END\n", l.entry));
            }
            if !l.exit.is_empty() {
                block_exit(self.ed, body, &format!("// VX_HINT\n{}\n// VX_END\n", l.exit), "");
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for BodyV<'a> {
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.do_loop(rng(e).0, &e.body, None);
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.do_loop(rng(e).0, &e.body, None);
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.do_loop(rng(e).0, &e.body, Some(&e.expr));
        if let syn::Expr::Path(p) = &*e.expr {
            let id = p.path.segments.last().unwrap().ident.to_string();
            if id.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                let (s, t) = rng(&*e.expr);
                self.ed.ins(s, "vx_array_vec(");
                self.ed.ins(t, ")");
                self.cnt("for over a const array: goes through a Vec");
            }
        }
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_await(&mut self, e: &'ast syn::ExprAwait) {
        let (_, b) = rng(&*e.base);
        let (_, t) = rng(e);
        self.ed.rep(b, t, "");
        self.cnt(".await dropped");
        visit::visit_expr_await(self, e);
    }
    fn visit_expr_async(&mut self, e: &'ast syn::ExprAsync) {
        let (s, _) = rng(e);
        let (b, _) = rng(&e.block);
        self.ed.rep(s, b, "");
        self.cnt("async block dropped");
        visit::visit_expr_async(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        let n = self.closure_n;
        self.closure_n += 1;
        if let Some(c) = self.ann.and_then(|a| a.closures.get(&n)) {
            let (s, _) = rng(e);
            let (bs, bt) = rng(&*e.body);
            if !c.head.is_empty() {
                let keep = if self.text[s..].starts_with("move") { "move " } else { "" };
                self.ed.rep(s, bs, &format!("{}{}\n{}\n", keep, c.head, c.clauses));
            }
            if !matches!(&*e.body, syn::Expr::Block(_) | syn::Expr::Async(_)) {
                self.ed.ins(bs, "{ ");
                self.ed.ins(bt, " }");
            }
            self.cnt("closure head annotated with parameter types");
        }
        for (i, q) in e.inputs.iter().enumerate() {
            if let syn::Pat::Wild(w) = q {
                let (s, t) = rng(w);
                self.ed.rep(s, t, &format!("_vx{}", i));
                self.cnt("closure parameter `_` named");
            }
        }
        visit::visit_expr_closure(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let n = e.method.to_string();
        if n == "chunks" {
            let (s, t) = rng(&e.method);
            self.ed.rep(s, t, "vx_chunks");
            self.cnt(".chunks() goes through a Vec of slices");
        }
        if (n == "to_owned" || n == "to_le_bytes" || n == "to_be_bytes") && e.args.is_empty() {
            let (s, t) = rng(&e.method);
            self.ed.rep(s, t, &format!("vx_{}", n));
            self.cnt(".to_owned(), .to_le_bytes(), .to_be_bytes() go through traits of vxdeps");
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        if e.mutability.is_some() {
            if let syn::Expr::Index(ix) = &*e.expr {
                if let syn::Expr::Range(r) = &*ix.index {
                    if let (Some(a), None) = (&r.start, &r.end) {
                        let (s, t) = rng(e);
                        let (xs, xt) = rng(&*ix.expr);
                        let (as_, at) = rng(&**a);
                        self.ed.rep(s, xs, "");
                        self.ed.rep(xt, as_, ".vx_slice_from_mut(");
                        self.ed.rep(at, t, ")");
                        self.cnt("&mut v[a..] goes through vx_slice_from_mut");
                    } else if r.start.is_none() && r.end.is_none() {
                        let (_, t) = rng(e);
                        let (_, xt) = rng(&*ix.expr);
                        self.ed.rep(xt, t, "");
                        self.cnt("&mut v[..] becomes &mut v");
                    }
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
        if let Some(a) = self.ann {
            if !a.lit.is_empty() && !self.lit_done {
                self.lit_done = true;
                let open = e.brace_token.span.open().byte_range().end;
                self.ed.ins(open, &format!("\n{}", a.lit));
            }
        }
        visit::visit_expr_struct(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let (s, t) = rng(m);
        if n == "format" {
            // format!(lit, a, b) -> vx_format(lit, (&(a), &(b)))
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            if let Ok(args) = m.parse_body_with(p) {
                let a: Vec<String> = args.iter().map(|x| { let (s, t) = rng(x); self.text[s..t].to_string() }).collect();
                let rest: Vec<String> = a[1..].iter().map(|x| format!("&({})", x)).collect();
                self.ed.rep(s, t, &format!("vx_format({}, ({},))", a[0], rest.join(", ")));
                self.cnt("format! goes through vx_format");
            }
        } else if n == "matches" || n == "debug_assert" || n == "debug_assert_eq" || n == "assert_eq" {
            if n == "debug_assert" {
                self.ed.rep(s, s + "debug_assert".len(), "assert");
                self.cnt("debug_assert! checked as assert!");
            }
        }
    }
}
