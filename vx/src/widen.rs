//! Copy of the store module tree with every item made `pub`, for the replay
//! crate.  Function bodies are copied byte for byte.
use syn::spanned::Spanned;

pub fn widen(src: &str, out: &str) -> Result<(), String> {
    for f in crate::gen::load_tree(src, None).or_else(|_| crate::gen::load_tree(src, None))? {
        let mut ins: Vec<(usize, usize, &str)> = vec![];
        let mut vis = |v: &syn::Visibility, at: usize| match v {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Inherited => ins.push((at, at, "pub ")),
            syn::Visibility::Restricted(r) => {
                let b = r.span().byte_range();
                ins.push((b.start, b.end, "pub"))
            }
        };
        fn start_of_sig(s: &syn::Signature) -> usize {
            let mut at = s.fn_token.span().byte_range().start;
            if let Some(x) = &s.asyncness {
                at = at.min(x.span().byte_range().start);
            }
            if let Some(x) = &s.unsafety {
                at = at.min(x.span().byte_range().start);
            }
            if let Some(x) = &s.constness {
                at = at.min(x.span().byte_range().start);
            }
            at
        }
        for it in &f.ast.items {
            match it {
                syn::Item::Mod(m) => vis(&m.vis, m.mod_token.span().byte_range().start),
                syn::Item::Fn(x) => vis(&x.vis, start_of_sig(&x.sig)),
                syn::Item::Const(x) => vis(&x.vis, x.const_token.span().byte_range().start),
                syn::Item::Static(x) => vis(&x.vis, x.static_token.span().byte_range().start),
                syn::Item::Type(x) => vis(&x.vis, x.type_token.span().byte_range().start),
                syn::Item::Enum(x) => vis(&x.vis, x.enum_token.span().byte_range().start),
                syn::Item::Trait(x) => vis(&x.vis, x.trait_token.span().byte_range().start),
                syn::Item::Struct(x) => {
                    vis(&x.vis, x.struct_token.span().byte_range().start);
                    for fl in &x.fields {
                        let at = fl.ident.as_ref().map(|i| i.span().byte_range().start).unwrap_or(fl.ty.span().byte_range().start);
                        vis(&fl.vis, at);
                    }
                }
                syn::Item::Impl(i) if i.trait_.is_none() => {
                    for x in &i.items {
                        match x {
                            syn::ImplItem::Fn(m) => vis(&m.vis, start_of_sig(&m.sig)),
                            syn::ImplItem::Const(m) => vis(&m.vis, m.const_token.span().byte_range().start),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        ins.sort_by_key(|x| x.0);
        let mut t = String::new();
        let mut pos = 0;
        for (a, b, s) in ins {
            t.push_str(&f.text[pos..a]);
            t.push_str(s);
            pos = b;
        }
        t.push_str(&f.text[pos..]);
        let p = format!("{}/{}", out, f.rel);
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).map_err(|e| e.to_string())?;
        std::fs::write(&p, t).map_err(|e| format!("{}: {}", p, e))?;
    }
    Ok(())
}
