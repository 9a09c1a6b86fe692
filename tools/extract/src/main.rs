//! Extracts functions and types from /repo, injects contracts, applies the
//! mechanical rewrites listed in DESIGN.md and writes one Verus source file.
//!
//! usage: extract REPO TEMPLATE OUT.rs REPORT.json
//! exit 0: written; exit 3: an anchor of the template is no longer in the code
mod inline;
mod macros;
mod rename;
mod shape;
mod rewrite;
mod template;

use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::VisitMut;

/// raised where the source no longer has what the template refers to
pub struct Lost(pub String);
pub fn lost(msg: String) -> ! {
    std::panic::panic_any(Lost(msg))
}

pub struct Ctx {
    pub repo: String,
    files: HashMap<String, syn::File>,
    pub report: Vec<serde_json::Value>,
    /// functions whose bodies are left out (their contracts stay)
    trust: Vec<String>,
    /// what the recorded tree did not have
    news: inline::News,
    /// the local names of the recorded tree, by function
    locals: BTreeMap<String, rename::Binds>,
    pub now: BTreeMap<String, rename::Binds>,
}

impl Ctx {
    pub fn file(&mut self, path: &str) -> &syn::File {
        if !self.files.contains_key(path) {
            // what the build generated from the protocol definition
            let full = if path == "@proto" {
                std::env::var("PROTO_RS").unwrap_or_else(|_| lost("no generated protocol types".into()))
            } else {
                format!("{}/{}", self.repo, path)
            };
            let text = std::fs::read_to_string(&full).unwrap_or_else(|e| lost(format!("{full}: {e}")));
            let mut f = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("{full}: {e}")));
            f.items = macros::expand_items(f.items);
            self.files.insert(path.to_string(), f);
        }
        &self.files[path]
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
        _ => quote::quote!(#t).to_string(),
    }
}

/// Finds a function. Containers: `-`, `impl:Type`, `impl:Trait:Type`,
/// `trait:Trait`. In `impl:Trait:Type` both may be written with generics
/// (compared after removing blanks) to tell several impls apart.
pub fn find_fn(items: &[syn::Item], container: &str, name: &str) -> Option<(syn::Signature, syn::Block)> {
    let parts: Vec<&str> = container.splitn(3, '|').collect();
    let norm = |s: String| s.replace(' ', "");
    for it in items {
        match (it, parts[0]) {
            (syn::Item::Fn(f), "-") if f.sig.ident == name => return Some((f.sig.clone(), (*f.block).clone())),
            (syn::Item::Impl(im), "impl") => {
                let ty = type_name(&im.self_ty);
                let ty_full = { let t = &im.self_ty; norm(quote::quote!(#t).to_string()) };
                let want_ty = parts[parts.len() - 1];
                if ty != want_ty && ty_full != want_ty {
                    continue;
                }
                match (&im.trait_, parts.len()) {
                    (None, 2) => {}
                    (Some((_, p, _)), 3) => {
                        let last = p.segments.last().unwrap().ident.to_string();
                        let full = norm(quote::quote!(#p).to_string());
                        if last != parts[1] && full != parts[1] {
                            continue;
                        }
                    }
                    _ => continue,
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name && !has_cfg(&f.attrs) {
                            return Some((f.sig.clone(), f.block.clone()));
                        }
                    }
                }
            }
            (syn::Item::Trait(t), "trait") if t.ident == parts[1] => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            return f.default.clone().map(|b| (f.sig.clone(), b));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn has_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg"))
}

pub fn find_type(items: &[syn::Item], name: &str) -> Option<syn::Item> {
    if let Some((m, rest)) = name.split_once("::") {
        return items.iter().find_map(|it| match it {
            syn::Item::Mod(x) if x.ident == m => find_type(&x.content.as_ref()?.1, rest),
            _ => None,
        });
    }
    for it in items {
        match it {
            syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Type(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
            _ => {}
        }
    }
    None
}

pub fn derives(item: &syn::Item) -> Vec<String> {
    let attrs = match item {
        syn::Item::Struct(s) => &s.attrs,
        syn::Item::Enum(s) => &s.attrs,
        _ => return vec![],
    };
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    out
}

/// Is there a hand-written impl of trait `tr` for `name` in these items?
pub fn has_impl(items: &[syn::Item], tr: &str, name: &str) -> bool {
    items.iter().any(|it| match it {
        syn::Item::Impl(im) => {
            type_name(&im.self_ty) == name
                && im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident == tr).unwrap_or(false)
        }
        _ => false,
    })
}

pub fn field_names(item: &syn::Item) -> Vec<String> {
    match item {
        syn::Item::Struct(s) => s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect(),
        _ => vec![],
    }
}

/// Renders a type item: no attributes, everything public, iterator and guard
/// types replaced.
pub fn render_type(mut item: syn::Item, strip_lifetimes: bool) -> String {
    let public: syn::Visibility = syn::parse_quote!(pub);
    match &mut item {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            s.vis = public.clone();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = public.clone();
            }
        }
        syn::Item::Enum(e) => {
            e.attrs.clear();
            e.vis = public;
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        syn::Item::Type(t) => {
            t.attrs.clear();
            t.vis = public;
        }
        syn::Item::Const(t) => {
            t.attrs.clear();
            t.vis = public;
            struct Static;
            impl VisitMut for Static {
                fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
                    r.lifetime.get_or_insert(syn::parse_quote!('static));
                    syn::visit_mut::visit_type_reference_mut(self, r);
                }
            }
            Static.visit_type_mut(&mut t.ty);
        }
        _ => {}
    }
    rewrite::TypeRewriter { strip_lifetimes }.visit_item_mut(&mut item);
    let f = syn::File { shebang: None, attrs: vec![], items: vec![item] };
    prettyplease::unparse(&f)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--listing" {
        println!("{}", serde_json::to_string_pretty(&inline::listing(&a[2])).unwrap());
        return;
    }
    if a.len() < 5 {
        eprintln!("usage: extract REPO TEMPLATE OUT.rs REPORT.json [FUNCTION-TO-TRUST...]");
        std::process::exit(2);
    }
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if i.payload().downcast_ref::<Lost>().is_none() {
            hook(i)
        }
    }));
    let r = std::panic::catch_unwind(|| {
        let known = std::path::Path::new(&a[2]).parent().unwrap().join("known.json");
        let known = serde_json::from_str(&std::fs::read_to_string(&known).unwrap_or_else(|e| panic!("{}: {e}", known.display()))).unwrap();
        let path = std::path::Path::new(&a[2]).parent().unwrap().join("locals.json");
        let locals: BTreeMap<String, rename::Binds> = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
        let news = inline::News::new(&a[1], &known);
        let mut cx = Ctx { repo: a[1].clone(), files: HashMap::new(), report: vec![], trust: a[5..].to_vec(), news, locals, now: BTreeMap::new() };
        let out = template::expand(&mut cx, &a[2]);
        if std::env::var("RECORD").is_ok() {
            let mut all = cx.locals.clone();
            all.extend(cx.now.clone());
            let lines: Vec<String> = all.iter().map(|(k, v)| format!("{}: {}", serde_json::to_string(k).unwrap(), serde_json::to_string(v).unwrap())).collect();
            std::fs::write(&path, format!("{{\n{}\n}}\n", lines.join(",\n"))).unwrap();
        }
        std::fs::write(&a[3], out).unwrap();
        std::fs::write(&a[4], serde_json::to_string_pretty(&cx.report).unwrap()).unwrap();
    });
    if let Err(e) = r {
        match e.downcast_ref::<Lost>() {
            Some(l) => eprintln!("LOST-ANCHOR: {}", l.0),
            None => std::process::exit(2),
        }
        std::process::exit(3);
    }
}
