//! Local names that were changed since the recorded tree
//! (`contracts/locals.json`) are changed back, so that contracts and hints
//! that mention them still do.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};

/// name, and the text of what it is bound by
pub type Binds = Vec<(String, String)>;

struct PatNames(Vec<String>);
impl<'a> Visit<'a> for PatNames {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with(char::is_uppercase) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}
fn names(p: &syn::Pat) -> Vec<String> {
    let mut v = PatNames(vec![]);
    v.visit_pat(p);
    v.0
}

struct Collect(Binds);
impl Collect {
    fn put(&mut self, kind: &str, p: &syn::Pat, ctx: String) {
        let ns = names(p);
        let mut pat = p.to_token_stream().to_string();
        for n in &ns {
            pat = pat.split(' ').map(|w| if w == n { "_" } else { w }).collect::<Vec<_>>().join(" ");
        }
        let ctx: String = ctx.chars().take(200).collect();
        for (k, n) in ns.into_iter().enumerate() {
            self.0.push((n, format!("{kind} {k} {pat} = {ctx}")));
        }
    }
}
impl<'a> Visit<'a> for Collect {
    fn visit_local(&mut self, l: &'a syn::Local) {
        let c = l.init.as_ref().map(|i| i.expr.to_token_stream().to_string()).unwrap_or_default();
        self.put("let", &l.pat, c);
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.put("for", &f.pat, f.expr.to_token_stream().to_string());
        syn::visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_let(&mut self, l: &'a syn::ExprLet) {
        self.put("iflet", &l.pat, l.expr.to_token_stream().to_string());
        syn::visit::visit_expr_let(self, l);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.put("arm", &a.pat, String::new());
        syn::visit::visit_arm(self, a);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        for p in &c.inputs {
            self.put("closure", p, String::new());
        }
        syn::visit::visit_expr_closure(self, c);
    }
}

pub fn binds(sig: &syn::Signature, block: &syn::Block) -> Binds {
    let mut c = Collect(vec![]);
    for (i, a) in sig.inputs.iter().enumerate() {
        if let syn::FnArg::Typed(t) = a {
            c.put(&format!("param{i}"), &t.pat, String::new());
        }
    }
    c.visit_block(block);
    c.0
}

/// every identifier there is
pub fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}

fn score(a: &str, b: &str) -> f64 {
    let (ka, kb) = (a.split(' ').next().unwrap(), b.split(' ').next().unwrap());
    if ka != kb {
        return 0.0;
    }
    let x: Vec<&str> = a.split(' ').collect();
    let y: Vec<&str> = b.split(' ').collect();
    crate::rewrite::similarity(&x, &y)
}

struct Rename<'a>(&'a BTreeMap<String, String>);
impl Rename<'_> {
    fn to(&self, i: &syn::Ident) -> Option<syn::Ident> {
        self.0.get(&i.to_string()).map(|n| syn::Ident::new(n, i.span()))
    }
    fn tokens(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let mut prev_dot = false;
        ts.into_iter()
            .map(|t| {
                let dot = matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
                let n = match t {
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))),
                    proc_macro2::TokenTree::Ident(i) if !prev_dot => proc_macro2::TokenTree::Ident(self.to(&i).unwrap_or(i)),
                    t => t,
                };
                prev_dot = dot;
                n
            })
            .collect()
    }
}
impl VisitMut for Rename<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.to(&p.ident) {
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() {
            if let Some(n) = p.path.get_ident().and_then(|i| self.to(i)) {
                p.path = n.into();
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

/// the number of names changed back
pub fn back(sig: &mut syn::Signature, block: &mut syn::Block, recorded: &Binds) -> usize {
    let now = binds(sig, block);
    let had: BTreeSet<&String> = recorded.iter().map(|x| &x.0).collect();
    let has: BTreeSet<&String> = now.iter().map(|x| &x.0).collect();
    let mut all = BTreeSet::new();
    idents(sig.to_token_stream(), &mut all);
    idents(block.to_token_stream(), &mut all);
    let gone: Vec<&&String> = had.iter().filter(|n| !has.contains(**n) && !all.contains(**n)).collect();
    let new: Vec<&&String> = has.iter().filter(|n| !had.contains(**n)).collect();
    let mut pairs: Vec<(f64, String, String)> = vec![];
    for g in &gone {
        for n in &new {
            let s = recorded.iter().filter(|x| x.0 == ***g).flat_map(|x| now.iter().filter(|y| y.0 == ***n).map(move |y| score(&x.1, &y.1))).fold(0.0, f64::max);
            if s >= 0.6 {
                pairs.push((s, n.to_string(), g.to_string()));
            }
        }
    }
    pairs.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut used: BTreeSet<String> = BTreeSet::new();
    for (_, n, g) in pairs {
        if !map.contains_key(&n) && used.insert(g.clone()) {
            map.insert(n, g);
        }
    }
    if map.is_empty() {
        return 0;
    }
    let mut r = Rename(&map);
    r.visit_signature_mut(sig);
    r.visit_block_mut(block);
    map.len()
}
