//! Calls of functions that the baseline does not know (a helper that a change
//! extracted) are replaced by the function's body, so that the caller is
//! verified with the text it runs.  Only where that is the same program: no
//! generics, parameters that are plain names, early exits only where the call
//! itself is an exit.  Anything else is left alone.
use crate::gen::{fns_of, impl_key, is_cfg_test, rng, toks, SrcFile};
use proc_macro2::{Group, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

#[derive(Clone)]
struct Helper {
    file: usize,
    ty: Option<String>,
    name: String,
    recv: bool,
    is_async: bool,
    params: Vec<(String, bool, syn::Type)>,
    ret: Option<syn::Type>,
    block: syn::Block,
    tries: bool,
    returns: bool,
    bound: BTreeSet<String>,
    uses_self_ty: bool,
    bare_self: bool,
    own: BTreeSet<String>,
    local_only: bool, // names nothing of its own file
}

#[derive(Default)]
struct Facts {
    tries: bool,
    returns: bool,
    bound: BTreeSet<String>,
    self_ty: bool,
    bare_self: bool,
    paths: BTreeSet<String>,
    types: BTreeSet<String>,
    calls: BTreeSet<String>,
    last: BTreeSet<String>, // last segments of longer paths
    bad: bool,
    depth: usize,
}
impl<'ast> Visit<'ast> for Facts {
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        self.tries |= self.depth == 0;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        self.returns |= self.depth == 0;
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.depth += 1;
        visit::visit_expr_closure(self, e);
        self.depth -= 1;
    }
    fn visit_expr_async(&mut self, e: &'ast syn::ExprAsync) {
        self.depth += 1;
        visit::visit_expr_async(self, e);
        self.depth -= 1;
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {
        self.bad = true;
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.is_ident("self") {
            self.bare_self = true;
        }
        self.paths.insert(p.path.segments[0].ident.to_string());
        if p.path.segments.len() > 1 {
            self.last.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        self.self_ty |= p.path.segments[0].ident == "Self";
        visit::visit_expr_path(self, p);
    }
    fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
        self.types.insert(p.path.segments[0].ident.to_string());
        self.self_ty |= p.path.segments[0].ident == "Self";
        visit::visit_type_path(self, p);
    }
    fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
        self.paths.insert(e.path.segments[0].ident.to_string());
        self.self_ty |= e.path.segments[0].ident == "Self";
        visit::visit_expr_struct(self, e);
    }
    fn visit_expr_field(&mut self, e: &'ast syn::ExprField) {
        if is_self(&e.base) {
            return;
        }
        visit::visit_expr_field(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        self.calls.insert(e.method.to_string());
        if is_self(&e.receiver) {
            for a in &e.args {
                self.visit_expr(a);
            }
            return;
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        idents(m.tokens.clone(), &mut self.paths);
        // a call may hide in a macro, and so may `self`
        let mut l = BTreeSet::new();
        idents(m.tokens.clone(), &mut l);
        self.calls.extend(l);
    }
}
fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn is_self(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Path(p) if p.path.is_ident("self"))
}

fn helper(file: usize, ty: Option<String>, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block) -> Option<Helper> {
    if attrs.iter().any(|a| !(a.path().is_ident("inline") || a.path().is_ident("doc") || a.path().is_ident("allow") || a.path().is_ident("must_use"))) {
        return None;
    }
    if sig.unsafety.is_some() || sig.generics.params.iter().any(|p| matches!(p, syn::GenericParam::Const(_))) {
        return None;
    }
    let mut recv = false;
    let mut params = vec![];
    for i in &sig.inputs {
        match i {
            syn::FnArg::Receiver(r) => {
                r.reference.as_ref()?;
                recv = true;
            }
            syn::FnArg::Typed(t) => {
                if let syn::Pat::Ident(p) = &*t.pat {
                    if p.by_ref.is_some() || p.subpat.is_some() || matches!(*t.ty, syn::Type::ImplTrait(_)) {
                        return None;
                    }
                    params.push((p.ident.to_string(), p.mutability.is_some(), (*t.ty).clone()));
                } else {
                    return None;
                }
            }
        }
    }
    let block = guards(block.clone());
    let mut f = Facts::default();
    f.visit_block(&block);
    if f.bad {
        return None;
    }
    // type parameters of its own are left to inference
    let own: BTreeSet<String> = sig.generics.type_params().map(|p| p.ident.to_string()).collect();
    if !own.is_disjoint(&f.types) || !own.is_disjoint(&f.paths) {
        return None;
    }
    let ret = match &sig.output {
        syn::ReturnType::Type(_, t) => {
            if matches!(**t, syn::Type::ImplTrait(_)) {
                return None;
            }
            Some((**t).clone())
        }
        _ => None,
    };
    const STD: &[&str] = &["Some", "None", "Ok", "Err", "self", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "bool", "Vec", "Option", "String"];
    let name = |n: &String| STD.contains(&n.as_str()) || f.bound.contains(n) || params.iter().any(|p| p.0 == *n);
    let local_only = f.paths.iter().all(name) && f.types.iter().all(name);
    Some(Helper {
        file,
        ty,
        name: sig.ident.to_string(),
        recv,
        is_async: sig.asyncness.is_some(),
        params,
        ret,
        block,
        tries: f.tries,
        returns: f.returns,
        bare_self: f.bare_self || f.paths.contains("self") && f.calls.contains("self"),
        bound: f.bound,
        own,
        uses_self_ty: f.self_ty,
        local_only,
    })
}

/// `if c { ..; return e; } rest` becomes `if c { ..; e } else { rest }`, and a
/// last `return e;` becomes `e`.
fn guards(mut b: syn::Block) -> syn::Block {
    fn tail_return(b: &syn::Block) -> Option<(Vec<syn::Stmt>, Option<Box<syn::Expr>>)> {
        let l = b.stmts.last()?;
        if let syn::Stmt::Expr(syn::Expr::Return(r), _) = l {
            return Some((b.stmts[..b.stmts.len() - 1].to_vec(), r.expr.clone()));
        }
        None
    }
    fn returns(s: &[syn::Stmt]) -> bool {
        let mut f = Facts::default();
        for x in s {
            f.visit_stmt(x);
        }
        f.returns
    }
    for i in 0..b.stmts.len() {
        if let syn::Stmt::Expr(syn::Expr::If(e), _) = &b.stmts[i] {
            if e.else_branch.is_none() {
                if let Some((st, v)) = tail_return(&e.then_branch) {
                    if !returns(&st) {
                        let mut e = e.clone();
                        e.then_branch.stmts = st;
                        if let Some(v) = v {
                            e.then_branch.stmts.push(syn::Stmt::Expr(*v, None));
                        }
                        let rest = guards(syn::Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() });
                        let rest: syn::Expr = syn::parse_quote!(#rest);
                        e.else_branch = Some((Default::default(), Box::new(rest)));
                        b.stmts.truncate(i);
                        b.stmts.push(syn::Stmt::Expr(syn::Expr::If(e), None));
                        return b;
                    }
                }
            }
        }
    }
    if let Some((mut st, v)) = tail_return(&b) {
        if let Some(v) = v {
            st.push(syn::Stmt::Expr(*v, None));
        }
        b.stmts = st;
    }
    b
}

struct Site {
    start: usize,
    end: usize,
    h: usize,
    recv: Option<syn::Expr>,
    args: Vec<syn::Expr>,
}

/// Finds the innermost call of a helper that can be replaced.
struct Find<'a> {
    hs: &'a [Helper],
    file: usize,
    ty: Option<String>,
    exits: BTreeSet<(usize, usize)>,
    under_try: bool,
    awaited: Option<(usize, usize)>,
    found: Option<Site>,
}
impl Find<'_> {
    fn consider(&mut self, whole: (usize, usize), name: &str, qual: Option<&str>, recv: Option<&syn::Expr>, args: Vec<syn::Expr>, under_try: bool, awaited: bool) {
        if self.found.is_some() {
            return;
        }
        for (k, h) in self.hs.iter().enumerate() {
            if h.name != name || h.recv != recv.is_some() || h.params.len() != args.len() || h.is_async != awaited {
                continue;
            }
            if self.hs.iter().filter(|x| x.name == name).count() != 1 {
                return;
            }
            let same = h.file == self.file;
            if !same && !h.local_only {
                return;
            }
            let at_self = recv.map_or(true, is_self);
            if recv.is_some() && at_self && (h.ty != self.ty) {
                return;
            }
            if !at_self && (h.bare_self || h.uses_self_ty || !recv.map_or(true, pure_path)) {
                return;
            }
            if recv.is_none() {
                // `helper(..)` or `Self::helper(..)`, `Type::helper(..)`
                match (&h.ty, qual) {
                    (None, None) => {}
                    (None, Some(_)) => {}
                    (Some(t), Some(q)) => {
                        if !(q == t || q == "Self" && Some(t) == self.ty.as_ref()) || h.uses_self_ty && Some(t) != self.ty.as_ref() {
                            return;
                        }
                    }
                    _ => return,
                }
            }
            if (h.tries || h.returns) && !self.exits.contains(&whole) && !(under_try && !h.returns) {
                return;
            }
            self.found = Some(Site { start: whole.0, end: whole.1, h: k, recv: recv.cloned(), args });
            return;
        }
    }
}
fn pure_path(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().is_some(),
        syn::Expr::Field(f) => pure_path(&f.base),
        syn::Expr::Paren(p) => pure_path(&p.expr),
        _ => false,
    }
}
impl<'ast> Visit<'ast> for Find<'_> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.found.is_some() {
            return;
        }
        let t = std::mem::replace(&mut self.under_try, false);
        let a = self.awaited.take();
        match e {
            syn::Expr::Try(x) => {
                self.under_try = true;
                self.visit_expr(&x.expr);
                self.under_try = false;
            }
            syn::Expr::Await(x) => {
                self.under_try = t;
                self.awaited = Some(rng(e));
                self.visit_expr(&x.base);
                self.under_try = false;
                self.awaited = None;
            }
            syn::Expr::MethodCall(m) => {
                visit::visit_expr(self, e);
                self.consider(a.unwrap_or(rng(e)), &m.method.to_string(), None, Some(&m.receiver), m.args.iter().cloned().collect(), t, a.is_some());
            }
            syn::Expr::Call(c) => {
                visit::visit_expr(self, e);
                if let syn::Expr::Path(p) = &*c.func {
                    let s = &p.path.segments;
                    if s.iter().all(|x| x.arguments.is_none()) {
                        let n = s.last().unwrap().ident.to_string();
                        let q = if s.len() > 1 { Some(s[s.len() - 2].ident.to_string()) } else { None };
                        self.consider(a.unwrap_or(rng(e)), &n, q.as_deref(), None, c.args.iter().cloned().collect(), t, a.is_some());
                    }
                }
            }
            syn::Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    self.exits.insert(rng(&**x));
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::Closure(_) | syn::Expr::Async(_) => {
                let x = std::mem::take(&mut self.exits);
                visit::visit_expr(self, e);
                self.exits = x;
            }
            _ => visit::visit_expr(self, e),
        }
    }
}
/// The expressions whose value is the function's.
fn tails(b: &syn::Block, out: &mut BTreeSet<(usize, usize)>) {
    fn ex(e: &syn::Expr, out: &mut BTreeSet<(usize, usize)>) {
        out.insert(rng(e));
        match e {
            syn::Expr::If(i) => {
                tails(&i.then_branch, out);
                if let Some((_, x)) = &i.else_branch {
                    ex(x, out);
                }
            }
            syn::Expr::Match(m) => m.arms.iter().for_each(|a| ex(&a.body, out)),
            syn::Expr::Block(b) => tails(&b.block, out),
            _ => {}
        }
    }
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        ex(e, out);
    }
}

/// Replaces parameters by what they stand for.
struct Subst {
    map: BTreeMap<String, syn::Expr>,
    recv: Option<syn::Expr>,
}
fn referent(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Reference(r) if pure_path(&r.expr) => Some(&r.expr),
        _ => None,
    }
}
impl Subst {
    fn of(&self, e: &syn::Expr) -> Option<&syn::Expr> {
        if let syn::Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    return self.map.get(&i.to_string());
                }
            }
        }
        None
    }
    fn toks(&self, ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) => match self.map.get(&i.to_string()) {
                    Some(e) => TokenTree::Group(Group::new(proc_macro2::Delimiter::Parenthesis, quote::quote!(#e))),
                    None => TokenTree::Ident(i),
                },
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream()))),
                t => t,
            })
            .collect()
    }
    /// `x` where the place matters: the referent of `&x`, `&mut x`.
    fn place(&mut self, e: &mut syn::Expr) {
        if let Some(a) = self.of(e) {
            let a = referent(a).unwrap_or(a).clone();
            *e = if pure_path(&a) { a } else { syn::parse_quote!((#a)) };
            return;
        }
        self.visit_expr_mut(e);
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if is_self(e) {
            if let Some(r) = &self.recv {
                *e = r.clone();
            }
            return;
        }
        if let Some(a) = self.of(e) {
            let a = a.clone();
            *e = if pure_path(&a) || matches!(a, syn::Expr::Lit(_)) { a } else { syn::parse_quote!((#a)) };
            return;
        }
        match e {
            syn::Expr::MethodCall(m) => {
                self.place(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            syn::Expr::Field(f) => self.place(&mut f.base),
            syn::Expr::Index(i) => {
                self.place(&mut i.expr);
                self.visit_expr_mut(&mut i.index);
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.of(&u.expr).and_then(referent).is_some() => {
                let a = referent(self.of(&u.expr).unwrap()).unwrap().clone();
                *e = a;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        // `S { x }` is `S { x: x }`
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
}

fn plain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Path(p) => p.path.get_ident().is_some(),
        syn::Expr::Reference(r) => pure_path(&r.expr),
        _ => false,
    }
}

fn body(h: &Helper, s: &Site) -> String {
    let mut lets = String::new();
    let mut sub = Subst { map: BTreeMap::new(), recv: s.recv.clone().filter(|r| !is_self(r)) };
    // names of the arguments must not be bound anew inside
    let mut all = BTreeSet::new();
    for a in &s.args {
        idents(quote::quote!(#a), &mut all);
    }
    let clash = all.iter().any(|n| h.bound.contains(n));
    for ((n, m, ty), a) in h.params.iter().zip(&s.args) {
        let mut mine = BTreeSet::new();
        idents(quote::quote!(#a), &mut mine);
        // `f(x, &mut x)`: the first is a copy
        let alias = s.args.iter().any(|o| matches!(o, syn::Expr::Reference(r) if r.mutability.is_some()) && {
            let mut t = BTreeSet::new();
            idents(quote::quote!(#o), &mut t);
            !std::ptr::eq(o, a) && !t.is_disjoint(&mine)
        });
        if plain(a) && !alias && !*m && !h.bound.contains(n) && !clash && (!matches!(a, syn::Expr::Lit(_)) || matches!(ty, syn::Type::Path(_))) {
            let e = match a {
                syn::Expr::Lit(_) if !matches!(toks(ty).as_str(), "bool") => {
                    syn::parse_quote!((#a as #ty))
                }
                _ => a.clone(),
            };
            sub.map.insert(n.clone(), e);
        } else {
            let t = toks(ty);
            let vn = format!("vx_{}", n);
            let mut in_ty = BTreeSet::new();
            idents(quote::quote!(#ty), &mut in_ty);
            let ann = if !in_ty.is_disjoint(&h.own) || t.contains('\'') || t.contains("Self") || t.contains("impl ") { String::new() } else { format!(": {}", t) };
            lets.push_str(&format!("let {}{}{} = {}; ", if *m { "mut " } else { "" }, vn, ann, toks(a)));
            let id = syn::Ident::new(&vn, proc_macro2::Span::call_site());
            if !h.bound.contains(n) {
                sub.map.insert(n.clone(), syn::parse_quote!(#id));
            } else {
                lets.push_str(&format!("let {}{} = {}; ", if *m { "mut " } else { "" }, n, vn));
            }
        }
    }
    let mut b = h.block.clone();
    sub.visit_block_mut(&mut b);
    let one = b.stmts.len() == 1 && matches!(b.stmts[0], syn::Stmt::Expr(_, None)) && lets.is_empty();
    let num = h.ret.as_ref().map_or(false, |t| ["u8", "u16", "u32", "u64", "usize", "i32", "i64"].contains(&toks(t).as_str()));
    let inner: String = b.stmts.iter().map(|s| toks(s)).collect::<Vec<_>>().join(" ");
    let mut lit = false;
    for t in inner.split(|c: char| !c.is_alphanumeric()) {
        lit |= t.chars().next().map_or(false, |c| c.is_ascii_digit()) && t.chars().all(|c| c.is_ascii_hexdigit() || c == 'x' || c == '_');
    }
    if one && !(num && lit) {
        return format!("({})", inner);
    }
    if num && lit {
        let t = toks(h.ret.as_ref().unwrap());
        return format!("({{ {}let vx_ret: {} = {{ {} }}; vx_ret }})", lets, t, inner);
    }
    format!("({{ {}{} }})", lets, inner)
}

/// The helpers of the tree, innermost first, that the baseline does not know.
fn collect(files: &[SrcFile], base: &serde_json::Value, skip: &BTreeSet<String>) -> Vec<Helper> {
    let mut hs = vec![];
    let known: BTreeSet<String> = base["fns"].as_object().map(|m| m.keys().map(|k| k.rsplit(':').next().unwrap().to_string()).collect()).unwrap_or_default();
    for (n, f) in files.iter().enumerate() {
        let mut add = |key: String, ty: Option<String>, attrs: &[syn::Attribute], sig: &syn::Signature, b: &syn::Block| {
            let full = format!("{}:{}", f.rel, key);
            if base["fns"].get(&full).is_none() && !known.contains(&sig.ident.to_string()) && !skip.contains(&full) {
                if let Some(h) = helper(n, ty, attrs, sig, b) {
                    hs.push(h);
                }
            }
        };
        for it in &f.ast.items {
            match it {
                syn::Item::Fn(x) if !is_cfg_test(&x.attrs) => add(x.sig.ident.to_string(), None, &x.attrs, &x.sig, &x.block),
                syn::Item::Impl(i) if i.trait_.is_none() && !is_cfg_test(&i.attrs) => {
                    for x in &i.items {
                        if let syn::ImplItem::Fn(x) = x {
                            add(format!("{}::{}", impl_key(i), x.sig.ident), Some(impl_key(i)), &x.attrs, &x.sig, &x.block);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // only those that call no other of them
    let names: BTreeSet<String> = hs.iter().map(|h| h.name.clone()).collect();
    hs.retain(|h| {
        let mut f = Facts::default();
        f.visit_block(&h.block);
        f.calls.is_disjoint(&names)
    });
    hs
}

fn find(f: &SrcFile, n: usize, hs: &[Helper]) -> Option<Site> {
    let go = |ty: Option<String>, b: &syn::Block| -> Option<Site> {
        let mut v = Find { hs, file: n, ty, exits: BTreeSet::new(), under_try: false, awaited: None, found: None };
        tails(b, &mut v.exits);
        v.visit_block(b);
        v.found
    };
    for it in &f.ast.items {
        match it {
            syn::Item::Fn(x) if !is_cfg_test(&x.attrs) => {
                if let Some(s) = go(None, &x.block) {
                    return Some(s);
                }
            }
            syn::Item::Impl(i) if !is_cfg_test(&i.attrs) => {
                let ty = impl_key(i).rsplit('@').next().unwrap().to_string();
                for x in &i.items {
                    if let syn::ImplItem::Fn(x) = x {
                        if let Some(s) = go(Some(ty.clone()), &x.block) {
                            return Some(s);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn splice(f: &mut SrcFile, start: usize, end: usize, new: &str) -> bool {
    // the same number of lines
    let nl = f.text[start..end].matches('\n').count();
    let t = format!("{}{}{}{}", &f.text[..start], new, "\n".repeat(nl), &f.text[end..]);
    match syn::parse_file(&t) {
        Ok(a) => {
            f.text = t;
            f.ast = a;
            true
        }
        Err(_) => false,
    }
}

/// Inlines; returns the names of the functions inlined, how many calls were
/// replaced, and in which functions.
pub fn inline(files: &mut Vec<SrcFile>, base: &serde_json::Value, skip: &BTreeSet<String>) -> (Vec<String>, usize, BTreeSet<String>) {
    let mut n = 0;
    let mut hosts: BTreeSet<String> = BTreeSet::new();
    let mut done: BTreeSet<String> = BTreeSet::new();
    'again: while n < 60 {
        let hs = collect(files, base, skip);
        if hs.is_empty() {
            break;
        }
        for k in 0..files.len() {
            if let Some(s) = find(&files[k], k, &hs) {
                let new = body(&hs[s.h], &s);
                for (key, _, b) in fns_of(&files[k].ast) {
                    if b.map_or(false, |b| rng(&b).0 <= s.start && s.end <= rng(&b).1) {
                        hosts.insert(format!("{}:{}", files[k].rel, key));
                    }
                }
                if !splice(&mut files[k], s.start, s.end, &new) {
                    break 'again;
                }
                done.insert(hs[s.h].name.clone());
                n += 1;
                continue 'again;
            }
        }
        // helpers that nothing calls any more go, so that their callers follow
        let mut gone = false;
        for h in &hs {
            if !done.contains(&h.name) {
                continue;
            }
            let used = files.iter().any(|f| {
                fns_of(&f.ast).iter().any(|(k, _, b)| {
                    let mut l = Facts::default();
                    if let Some(b) = b {
                        l.visit_block(b);
                    }
                    k.rsplit(':').next() != Some(&h.name) && (l.calls.contains(&h.name) || l.last.contains(&h.name))
                })
            });
            if used {
                continue;
            }
            let f = &files[h.file];
            let mut at = None;
            for it in &f.ast.items {
                match it {
                    syn::Item::Fn(x) if x.sig.ident == h.name => at = Some(rng(x)),
                    syn::Item::Impl(i) if i.trait_.is_none() => {
                        for x in &i.items {
                            if let syn::ImplItem::Fn(x) = x {
                                if x.sig.ident == h.name {
                                    at = Some(rng(x));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            if let Some((a, b)) = at {
                if splice(&mut files[h.file], a, b, "") {
                    gone = true;
                    break;
                }
            }
        }
        if !gone {
            break;
        }
    }
    (done.into_iter().collect(), n, hosts)
}
