//! The mechanical rewrites from Rust to the subset that Verus accepts.
use crate::lost;
use crate::template::FnSpec;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct TypeRewriter {
    pub strip_lifetimes: bool,
}

fn iterator_item(bounds: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>) -> Option<syn::Type> {
    for b in bounds {
        if let syn::TypeParamBound::Trait(t) = b {
            let seg = t.path.segments.last().unwrap();
            if seg.ident == "Iterator" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    for x in &a.args {
                        if let syn::GenericArgument::AssocType(at) = x {
                            return Some(at.ty.clone());
                        }
                    }
                }
            }
        }
    }
    None
}

impl VisitMut for TypeRewriter {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        let new: Option<syn::Type> = match t {
            syn::Type::ImplTrait(i) => iterator_item(&i.bounds).map(|ty| parse_quote!(VIter<#ty>)),
            syn::Type::Ptr(p) => {
                let e = &p.elem;
                Some(parse_quote!(&#e))
            }
            syn::Type::Path(p) => {
                if p.path.segments.first().map_or(false, |s| s.ident == "prost") {
                    let last = p.path.segments.last().unwrap().clone();
                    p.path = last.into();
                }
                let seg = p.path.segments.last().unwrap();
                let args: Vec<syn::GenericArgument> = match &seg.arguments {
                    syn::PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(),
                    _ => vec![],
                };
                match seg.ident.to_string().as_str() {
                    "Box" => match args.first() {
                        Some(syn::GenericArgument::Type(syn::Type::TraitObject(o))) => {
                            iterator_item(&o.bounds).map(|ty| parse_quote!(VIter<#ty>))
                        }
                        _ => None,
                    },
                    "DynIter" => {
                        let ty = args.last().unwrap();
                        Some(parse_quote!(VIter<Result<#ty>>))
                    }
                    "MutexGuard" => {
                        let ty = args.last().unwrap();
                        Some(ty.to_token_stream()).map(|t| parse_quote!(#t))
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *t = n;
        }
    }
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        visit_mut::visit_type_reference_mut(self, t);
        if self.strip_lifetimes {
            t.lifetime = None;
        }
    }
    fn visit_receiver_mut(&mut self, r: &mut syn::Receiver) {
        if self.strip_lifetimes {
            if let Some((_, lt)) = &mut r.reference {
                *lt = None;
            }
            if r.colon_token.is_none() {
                if r.reference.is_some() {
                    *r.ty = if r.mutability.is_some() { parse_quote!(&mut Self) } else { parse_quote!(&Self) };
                }
            }
        }
    }
    fn visit_path_arguments_mut(&mut self, a: &mut syn::PathArguments) {
        visit_mut::visit_path_arguments_mut(self, a);
        if self.strip_lifetimes {
            if let syn::PathArguments::AngleBracketed(b) = a {
                let keep: Vec<_> = b.args.iter().filter(|x| !matches!(x, syn::GenericArgument::Lifetime(_))).cloned().collect();
                if keep.is_empty() {
                    *a = syn::PathArguments::None;
                } else {
                    b.args = keep.into_iter().collect();
                }
            }
        }
    }
    fn visit_generics_mut(&mut self, g: &mut syn::Generics) {
        if self.strip_lifetimes {
            g.params = g.params.iter().filter(|p| !matches!(p, syn::GenericParam::Lifetime(_))).cloned().collect();
            for p in g.params.iter_mut() {
                if let syn::GenericParam::Type(t) = p {
                    t.bounds = t.bounds.iter().filter(|b| !matches!(b, syn::TypeParamBound::Lifetime(_))).cloned().collect();
                }
            }
            if let Some(w) = &mut g.where_clause {
                for p in w.predicates.iter_mut() {
                    if let syn::WherePredicate::Type(t) = p {
                        t.bounds = t.bounds.iter().filter(|b| !matches!(b, syn::TypeParamBound::Lifetime(_))).cloned().collect();
                    }
                }
            }
        }
        visit_mut::visit_generics_mut(self, g);
    }
}

pub struct Rewriter<'s> {
    spec: &'s FnSpec,
    whence: String,
    raw: Vec<String>,
    loops: usize,
    closures: usize,
    tmp: usize,
    within: Vec<usize>,
    pub rules: BTreeMap<&'static str, usize>,
    used_after: Vec<bool>,
    used_before: Vec<bool>,
}

/// A snippet may end inside brackets: they are closed to tokenize it.
fn open_tokens(s: &str, whence: &str) -> Vec<(String, bool)> {
    let mut stack = vec![];
    for c in s.chars() {
        match c {
            '(' => stack.push(')'),
            '[' => stack.push(']'),
            '{' => stack.push('}'),
            ')' | ']' | '}' => {
                stack.pop();
            }
            _ => {}
        }
    }
    let n = stack.len();
    let full: String = s.chars().chain(stack.into_iter().rev()).collect();
    let mut v = tokens(&full, whence);
    v.truncate(v.len() - n);
    v
}
fn norm(s: &str, whence: &str) -> String {
    open_tokens(s, whence).into_iter().map(|x| x.0).collect::<Vec<_>>().join(" ")
}
/// Tokens one by one, each with whether the next one follows it directly.
fn flat(ts: TokenStream, out: &mut Vec<(String, bool)>) {
    use proc_macro2::{Delimiter, Spacing, TokenTree};
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.push((a.into(), false));
                flat(g.stream(), out);
                out.push((b.into(), false));
            }
            TokenTree::Punct(p) => out.push((p.as_char().to_string(), p.spacing() == Spacing::Joint)),
            o => out.push((o.to_string(), false)),
        }
    }
}
fn tokens(s: &str, whence: &str) -> Vec<(String, bool)> {
    let mut v = vec![];
    flat(s.parse().unwrap_or_else(|e| panic!("{whence}: bad snippet {s}: {e}")), &mut v);
    v
}
/// Replaces every occurrence of a token sequence.
fn replace_tokens(text: &str, a: &str, b: &str, whence: &str) -> Option<String> {
    let (t, a, b) = (open_tokens(text, whence), open_tokens(a, whence), open_tokens(b, whence));
    let mut out = String::new();
    let mut put = |x: &(String, bool)| {
        out.push_str(&x.0);
        if !x.1 {
            out.push(' ');
        }
    };
    let (mut i, mut found) = (0, false);
    while i < t.len() {
        if i + a.len() <= t.len() && (0..a.len()).all(|k| t[i + k].0 == a[k].0) {
            found = true;
            b.iter().for_each(&mut put);
            i += a.len();
        } else {
            put(&t[i]);
            i += 1;
        }
    }
    found.then_some(out)
}

fn contains_break(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// whether control can leave the expression's function early
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl<'s> Rewriter<'s> {
    fn rule(&mut self, r: &'static str) {
        *self.rules.entry(r).or_insert(0) += 1;
    }
    /// `$k` and friends of the innermost for loop
    fn sub_in(&self, s: &str) -> String {
        match self.within.last() {
            Some(n) => {
                let it = format!("__it{n}");
                s.replace("$all", &format!("{it}_all")).replace("$it", &it).replace("$k", &format!("({it}_all.len() - {it}@.len())"))
            }
            None => s.to_string(),
        }
    }
    fn raw(&mut self, s: String) -> usize {
        self.raw.push(s);
        self.raw.len() - 1
    }
    fn vp(&mut self, s: String) -> Stmt {
        let n = proc_macro2::Literal::usize_unsuffixed(self.raw(s));
        parse_quote!(__vp!(#n);)
    }
    fn header(&mut self, n: usize, auto_inv: &str, it: Option<&str>, user_break: bool) -> usize {
        let sub = |s: &str| -> String {
            match it {
                Some(it) => s.replace("$all", &format!("{it}_all")).replace("$it", it).replace("$k", &format!("({it}_all.len() - {it}@.len())")),
                None => s.to_string(),
            }
        };
        let user = self.spec.loops.get(&n).cloned().unwrap_or_default();
        let except = self.spec.loop_except.get(&n).cloned().unwrap_or_default();
        let ens = self.spec.loop_ensures.get(&n).cloned().unwrap_or_default();
        let mut s = String::new();
        if !except.trim().is_empty() {
            s.push_str(&format!("invariant_except_break\n{},\n", sub(&except).trim_end().trim_end_matches(',')));
        }
        let inv = format!("{}{}", auto_inv, sub(&user));
        if !inv.trim().is_empty() {
            s.push_str(&format!("invariant\n{},\n", inv.trim_end().trim_end_matches(',')));
        }
        let mut ensures = sub(&ens);
        if it.is_some() && !user_break {
            ensures = format!("{}@.len() == 0,\n{}", it.unwrap(), ensures);
        }
        if !ensures.trim().is_empty() {
            s.push_str(&format!("ensures\n{},\n", ensures.trim_end().trim_end_matches(',')));
        }
        if let Some(it) = it {
            s.push_str(&format!("decreases {it}@.len()\n"));
        }
        self.raw(s)
    }

    /// `a..b` used as an iterator
    fn range_call(&mut self, r: &syn::ExprRange) -> Expr {
        self.rule("a..b to v_range(a, b)");
        match (&r.start, &r.end, &r.limits) {
            (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => parse_quote!(v_range(#a, #b)),
            (Some(a), Some(b), _) => parse_quote!(v_range_incl(#a, #b)),
            _ => lost(format!("{}: open range as an iterator", self.whence)),
        }
    }

    fn for_loop(&mut self, f: syn::ExprForLoop) -> Vec<Stmt> {
        self.rule("for-loop to loop over a ghost-viewed iterator");
        let n = self.loops;
        self.loops += 1;
        let user_break = contains_break(&f.body);
        let mut e = *f.expr;
        // a..b as an iterator
        self.visit_expr_mut(&mut e);
        let it = format!("__it{n}");
        let it_id: syn::Ident = syn::Ident::new(&it, proc_macro2::Span::call_site());
        let pat = f.pat;
        let mut body = f.body;
        self.within.push(n);
        self.visit_block_mut(&mut body);
        self.within.pop();
        let sub = |s: &str| s.replace("$all", &format!("{it}_all")).replace("$it", &it).replace("$k", &format!("({it}_all.len() - {it}@.len())"));
        if let Some(t) = self.spec.loop_begin.get(&n).cloned() {
            let s = self.vp(sub(&t));
            body.stmts.insert(0, s);
        }
        if let Some(t) = self.spec.loop_end.get(&n).cloned() {
            let s = self.vp(sub(&t));
            if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            body.stmts.push(s);
        }
        let auto = format!("{it}@.len() <= {it}_all.len(), {it}@ =~= {it}_all.skip({it}_all.len() - {it}@.len()),\n");
        let h = self.header(n, &auto, Some(&it), user_break);
        let h = proc_macro2::Literal::usize_unsuffixed(h);
        let mut out: Vec<Stmt> = vec![];
        if let syn::Expr::Range(r) = &e {
            e = self.range_call(r);
        }
        out.push(parse_quote!(let mut #it_id = (#e).v_into_iter();));
        let ghost = format!("let ghost {it}_all = {it}@;\n{}", sub(&self.spec.before_loop.get(&n).cloned().unwrap_or_default()));
        let g = self.vp(ghost);
        out.push(g);
        let body_stmts = &body.stmts;
        let expr: Expr = parse_quote!(loop { __vph!(#h); match #it_id.next() { Option::None => break, Option::Some(#pat) => { #(#body_stmts)* } } });
        out.push(Stmt::Expr(expr, Some(Default::default())));
        if let Some(t) = self.spec.after_loop.get(&n).cloned() {
            let s = self.vp(sub(&t));
            out.push(s);
        }
        out
    }
}

fn is_path_call(e: &Expr, a: &str, b: &str) -> bool {
    if let Expr::Path(p) = e {
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        return s.len() >= 2 && s[s.len() - 2] == a && s[s.len() - 1] == b;
    }
    false
}

impl<'s> VisitMut for Rewriter<'s> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        for st in stmts {
            let text = norm(&st.to_token_stream().to_string(), &self.whence);
            let mut post = vec![];
            // of several identical snippets each takes the next statement
            let mut taken: std::collections::HashSet<String> = Default::default();
            for (i, (pat, code)) in self.spec.before.iter().enumerate() {
                if !self.used_before[i] && !taken.contains(pat) && text.starts_with(&norm(pat, &self.whence)) {
                    self.used_before[i] = true;
                    taken.insert(pat.clone());
                    let s = self.vp(self.sub_in(code));
                    out.push(s);
                }
            }
            for (i, (pat, code)) in self.spec.after.iter().enumerate() {
                if !self.used_after[i] && !taken.contains(&format!("+{pat}")) && text.starts_with(&norm(pat, &self.whence)) {
                    self.used_after[i] = true;
                    taken.insert(format!("+{pat}"));
                    let s = self.vp(self.sub_in(code));
                    post.push(s);
                }
            }
            match st {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    let v = self.for_loop(f);
                    out.extend(v);
                }
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    match name.as_str() {
                        "debug_assert" | "assert" => {
                            self.rule("debug_assert to proof obligation");
                            let t = m.mac.tokens.to_string();
                            let s = self.vp(format!("assert({t});"));
                            out.push(s);
                        }
                        "debug_assert_eq" | "assert_eq" => {
                            self.rule("debug_assert to proof obligation");
                            let args: syn::punctuated::Punctuated<Expr, syn::Token![,]> = m
                                .mac
                                .parse_body_with(syn::punctuated::Punctuated::parse_terminated)
                                .unwrap_or_else(|e| lost(format!("{}: {e}", self.whence)));
                            let (x, y) = (&args[0], &args[1]);
                            let s = self.vp(format!("assert(({}) == ({}));", quote!(#x), quote!(#y)));
                            out.push(s);
                        }
                        "eprintln" | "println" | "eprint" | "print" => self.rule("printing dropped"),
                        _ => out.push(Stmt::Macro(m)),
                    }
                }
                // M.entry(K).or_insert_with(|| BODY); with the result unused
                Stmt::Expr(Expr::MethodCall(mc), Some(semi))
                    if mc.method == "or_insert_with"
                        && matches!(&*mc.receiver, Expr::MethodCall(r) if r.method == "entry")
                        && matches!(mc.args.first(), Some(Expr::Closure(_))) =>
                {
                    self.rule("unused entry().or_insert_with(closure) to contains_key/insert");
                    let r = match &*mc.receiver {
                        Expr::MethodCall(r) => r.clone(),
                        _ => unreachable!(),
                    };
                    let c = match mc.args.first() {
                        Some(Expr::Closure(c)) => c.clone(),
                        _ => unreachable!(),
                    };
                    self.closures += 1;
                    let m = &r.receiver;
                    let k = &r.args[0];
                    let body = &c.body;
                    let mut e: Expr = parse_quote!({
                        let __k = #k;
                        if !#m.contains_key(&__k) {
                            let __v = #body;
                            #m.insert(__k, __v);
                        }
                    });
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, Some(semi)));
                }
                mut other => {
                    self.visit_stmt_mut(&mut other);
                    out.push(other);
                }
            }
            if let (Some(Stmt::Expr(_, semi @ None)), false) = (out.last_mut(), post.is_empty()) {
                *semi = Some(Default::default());
            }
            out.extend(post);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) => lost(format!("{}: for loop in expression position", self.whence)),
            Expr::Await(a) => {
                self.rule("await to plain evaluation");
                let mut n = (*a.base).clone();
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            Expr::Call(c) if is_path_call(&c.func, "task", "spawn_blocking") && matches!(c.args.first(), Some(Expr::Closure(cl)) if cl.inputs.is_empty()) => {
                self.rule("spawn_blocking(closure) to evaluation in place");
                let Some(Expr::Closure(cl)) = c.args.first() else { unreachable!() };
                if leaves(&cl.body) {
                    lost(format!("{}: a spawned closure with return or ?", self.whence));
                }
                let mut n = (*cl.body).clone();
                self.visit_expr_mut(&mut n);
                *e = parse_quote!(v_joined(#n));
                return;
            }
            Expr::Unsafe(u) => {
                self.rule("unsafe block to block");
                let stmts = &u.block.stmts;
                let mut n: Expr = parse_quote!({ #(#stmts)* });
                visit_mut::visit_expr_mut(self, &mut n);
                *e = n;
                return;
            }
            Expr::Cast(c) if matches!(&*c.ty, syn::Type::Ptr(_)) => {
                self.rule("raw pointer to reference");
                let mut n = (*c.expr).clone();
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                let mut lets: Vec<Stmt> = vec![];
                let mut names: Vec<syn::Ident> = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let id = syn::Ident::new(&format!("__p{i}"), proc_macro2::Span::call_site());
                    let (pat, ty) = match p {
                        syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        other => (other.clone(), None),
                    };
                    match ty {
                        Some(ty) => lets.push(parse_quote!(let #pat: #ty = #id;)),
                        None => lets.push(parse_quote!(let #pat = #id;)),
                    }
                    names.push(id);
                }
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let inner: Vec<Stmt> = match body {
                    Expr::Block(b) if b.label.is_none() => b.block.stmts,
                    other => vec![Stmt::Expr(other, None)],
                };
                let blk: Expr = parse_quote!({ #(#lets)* #(#inner)* });
                if let Some(t) = self.spec.closures.get(&n).cloned() {
                    let k = proc_macro2::Literal::usize_unsuffixed(self.raw(t));
                    *e = parse_quote!(__vcl!(#k, #blk));
                } else {
                    let cap = c.capture.is_some();
                    *e = if cap { parse_quote!(move |#(#names),*| #blk) } else { parse_quote!(|#(#names),*| #blk) };
                }
                if let Some(g) = self.spec.ghosts.get(&n).cloned() {
                    let k = proc_macro2::Literal::usize_unsuffixed(self.raw(g));
                    let inner = e.clone();
                    // marker unpacked by the enclosing call
                    *e = parse_quote!((#inner, __vgh!(#k)));
                }
                return;
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                if let Expr::Let(l) = &*w.cond {
                    self.rule("while let to loop/match");
                    let (pat, scrut) = ((*l.pat).clone(), (*l.expr).clone());
                    let mut scrut = scrut;
                    self.visit_expr_mut(&mut scrut);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    if let Some(t) = self.spec.loop_begin.get(&n).cloned() {
                        let s = self.vp(t);
                        body.stmts.insert(0, s);
                    }
                    let h = self.header(n, "", None, true);
                    let h = proc_macro2::Literal::usize_unsuffixed(h);
                    let stmts = &body.stmts;
                    *e = parse_quote!(loop { __vph!(#h); match #scrut { #pat => { #(#stmts)* } _ => break } });
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let h = self.header(n, "", None, true);
                    let h = proc_macro2::Literal::usize_unsuffixed(h);
                    w.body.stmts.insert(0, parse_quote!(__vph!(#h);));
                }
                return;
            }
            Expr::Loop(l) => {
                let n = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut l.body);
                let h = self.header(n, "", None, true);
                let h = proc_macro2::Literal::usize_unsuffixed(h);
                l.body.stmts.insert(0, parse_quote!(__vph!(#h);));
                return;
            }
            Expr::Reference(rf) if rf.mutability.is_none() && matches!(&*rf.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(r) if r.start.is_none() && r.end.is_none())) => {
                self.rule("&x[..] to v_slice(&x)");
                let x = match &*rf.expr {
                    Expr::Index(ix) => ix.expr.clone(),
                    _ => unreachable!(),
                };
                let mut n: Expr = parse_quote!(v_slice(&#x));
                visit_mut::visit_expr_mut(self, &mut n);
                *e = n;
                return;
            }
            Expr::MethodCall(mc) => {
                {
                    let mut rc = &*mc.receiver;
                    while let Expr::Paren(p) = rc {
                        rc = &*p.expr;
                    }
                    if let Expr::Range(r) = rc {
                        let r = r.clone();
                        mc.receiver = Box::new(self.range_call(&r));
                    }
                }
                // entry(k).or_default() / or_insert_with(Type::new)
                if (mc.method == "or_default" || mc.method == "or_insert_with")
                    && matches!(&*mc.receiver, Expr::MethodCall(r) if r.method == "entry")
                    && !matches!(mc.args.first(), Some(Expr::Closure(_)))
                {
                    if let Some(a) = mc.args.first() {
                        if !is_path_call(a, "HashSet", "new") && !is_path_call(a, "HashMap", "new") && !is_path_call(a, "HashSet", "default") {
                            lost(format!("{}: or_insert_with of an unknown function", self.whence));
                        }
                    }
                    self.rule("entry().or_default() to one call");
                    let r = match &*mc.receiver {
                        Expr::MethodCall(r) => r.clone(),
                        _ => unreachable!(),
                    };
                    let (m, k) = (&r.receiver, &r.args[0]);
                    let mut n: Expr = parse_quote!(#m.v_entry_or_default(#k));
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
                if matches!(&*mc.receiver, Expr::MethodCall(r) if r.method == "entry") && (mc.method == "or_insert" || mc.method == "or_insert_with") {
                    let r = match &*mc.receiver {
                        Expr::MethodCall(r) => r.clone(),
                        _ => unreachable!(),
                    };
                    let (m, k) = (&r.receiver, &r.args[0]);
                    let mut n: Expr = match mc.args.first() {
                        Some(Expr::Closure(c)) if c.inputs.is_empty() && !leaves(&c.body) => {
                            self.closures += 1;
                            let b = &c.body;
                            parse_quote!({ let __k = #k; if !#m.contains_key(&__k) { let __v = #b; #m.v_entry_or_insert(__k, __v) } else { #m.v_entry_get(__k) } })
                        }
                        Some(a) if mc.method == "or_insert" => parse_quote!(#m.v_entry_or_insert(#k, #a)),
                        _ => lost(format!("{}: entry().{}()", self.whence, mc.method)),
                    };
                    self.rule("entry().or_insert() to one call");
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
                if mc.method == "map" && mc.args.len() == 1 && matches!(&mc.args[0], Expr::Path(p) if p.path.is_ident("Ok")) {
                    self.rule("map(Ok) to v_map_ok()");
                    let m = &mc.receiver;
                    let mut n: Expr = parse_quote!(#m.v_map_ok());
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
                if mc.method == "range" {
                    if let Some(Expr::Range(r)) = mc.args.first() {
                        let m = &mc.receiver;
                        let half = matches!(r.limits, syn::RangeLimits::HalfOpen(_));
                        let n: Option<Expr> = match (&r.start, &r.end) {
                            (Some(s), None) => Some(parse_quote!(#m.v_range_from(#s))),
                            (Some(s), Some(b)) if half => Some(parse_quote!(#m.v_range(#s, #b))),
                            (Some(s), Some(b)) => Some(parse_quote!(#m.v_range_incl(#s, #b))),
                            (None, Some(b)) if half => Some(parse_quote!(#m.v_range_to(#b))),
                            (None, Some(b)) => Some(parse_quote!(#m.v_range_to_incl(#b))),
                            (None, None) => Some(parse_quote!(#m.iter())),
                        };
                        if let Some(mut n) = n {
                            self.rule("range(a..) to v_range_from(a)");
                            self.visit_expr_mut(&mut n);
                            *e = n;
                            return;
                        }
                    }
                    // (Bound, Bound)
                    if let Some(Expr::Tuple(t)) = mc.args.first() {
                        let m = &mc.receiver;
                        let bound = |e: &Expr| -> Option<(String, Option<Expr>)> {
                            match e {
                                Expr::Call(c) if c.args.len() == 1 => match &*c.func {
                                    Expr::Path(p) => Some((p.path.segments.last()?.ident.to_string(), Some(c.args[0].clone()))),
                                    _ => None,
                                },
                                Expr::Path(p) => Some((p.path.segments.last()?.ident.to_string(), None)),
                                _ => None,
                            }
                        };
                        let bs: Vec<_> = t.elems.iter().filter_map(|e| bound(e)).collect();
                        let n: Option<Expr> = match &bs[..] {
                            [(a, Some(x)), (b, None)] if b == "Unbounded" => match &a[..] {
                                "Included" => Some(parse_quote!(#m.v_range_from(#x))),
                                "Excluded" => Some(parse_quote!(#m.v_range_after(#x))),
                                _ => None,
                            },
                            [(a, None), (b, Some(y))] if a == "Unbounded" => match &b[..] {
                                "Included" => Some(parse_quote!(#m.v_range_to_incl(#y))),
                                "Excluded" => Some(parse_quote!(#m.v_range_to(#y))),
                                _ => None,
                            },
                            [(a, Some(x)), (b, Some(y))] if a == "Included" => match &b[..] {
                                "Included" => Some(parse_quote!(#m.v_range_incl(#x, #y))),
                                "Excluded" => Some(parse_quote!(#m.v_range(#x, #y))),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(mut n) = n {
                            self.rule("range((a, b)) to v_range_from(a)");
                            self.visit_expr_mut(&mut n);
                            *e = n;
                            return;
                        }
                    }
                    lost(format!("{}: unsupported range() call", self.whence));
                }
                visit_mut::visit_expr_mut(self, e);
                let mc = match e {
                    Expr::MethodCall(m) => m,
                    _ => unreachable!(),
                };
                // unpack the ghost marker
                let mut args: syn::punctuated::Punctuated<Expr, syn::Token![,]> = Default::default();
                for a in mc.args.iter() {
                    if let Expr::Tuple(t) = a {
                        if t.elems.len() == 2 {
                            if let Expr::Macro(m) = &t.elems[1] {
                                if m.mac.path.is_ident("__vgh") {
                                    args.push(t.elems[0].clone());
                                    args.push(t.elems[1].clone());
                                    continue;
                                }
                            }
                        }
                    }
                    args.push(a.clone());
                }
                mc.args = args;
                let renamed = match mc.method.to_string().as_str() {
                    "iter" => Some("v_iter"),
                    "into_iter" => Some("v_into_iter"),
                    "collect" => Some("v_collect"),
                    "clone" => Some("v_clone"),
                    "chunks" => Some("v_chunks"),
                    "dedup" => Some("v_dedup"),
                    "partial_cmp" if self.spec.has("cmp") => Some("v_partial_cmp"),
                    "cmp" if self.spec.has("cmp") => Some("v_cmp"),
                    "hash" if self.spec.has("cmp") => Some("v_hash"),
                    "into" if self.spec.has("into") => Some("v_into"),
                    "try_into" if self.spec.has("into") => Some("v_try_into"),
                    _ => None,
                };
                if let Some(r) = renamed {
                    self.rule("std iterator/conversion method to its contract shim");
                    mc.method = syn::Ident::new(r, proc_macro2::Span::call_site());
                }
                return;
            }
            Expr::Call(c) if self.spec.has("boxiter") && is_path_call(&c.func, "Box", "new") => {
                self.rule("Box::new(iterator) to the iterator");
                let mut n = c.args[0].clone();
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            Expr::Call(c) if is_path_call(&c.func, "Vec", "default") => {
                self.rule("Vec::default() to Vec::new()");
                *e = parse_quote!(Vec::new());
                return;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "format" {
                    self.rule("format! to an unspecified text");
                    *e = parse_quote!(v_format());
                    return;
                }
                if name == "vec" {
                    if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                        if args.len() == 1 {
                            self.rule("vec![x] to v_vec1(x)");
                            let a = &args[0];
                            let mut n: Expr = parse_quote!(v_vec1(#a));
                            visit_mut::visit_expr_mut(self, &mut n);
                            *e = n;
                            return;
                        }
                    }
                    let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if let Some(i) = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ';')) {
                        self.rule("vec![x; n] to v_vec_n(x, n)");
                        let a: TokenStream = toks[..i].iter().cloned().collect();
                        let b: TokenStream = toks[i + 1..].iter().cloned().collect();
                        let mut n: Expr = parse_quote!(v_vec_n(#a, #b));
                        visit_mut::visit_expr_mut(self, &mut n);
                        *e = n;
                        return;
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn balanced(s: &str, open_at: usize) -> usize {
    let b = s.as_bytes();
    let mut d = 0i32;
    let mut i = open_at;
    let mut in_str = false;
    while i < b.len() {
        let c = b[i];
        if in_str {
            if c == b'\\' {
                i += 1;
            } else if c == b'"' {
                in_str = false;
            }
        } else if c == b'"' {
            in_str = true;
        } else if c == b'\'' && i + 2 < b.len() && (b[i + 2] == b'\'' || b[i + 1] == b'\\') {
            // char literal
            let mut j = i + 1;
            if b[j] == b'\\' {
                j += 1;
            }
            while b[j] != b'\'' || j == i + 1 {
                j += 1;
            }
            i = j;
        } else if c == b'(' || c == b'{' || c == b'[' {
            d += 1;
        } else if c == b')' || c == b'}' || c == b']' {
            d -= 1;
            if d == 0 {
                return i;
            }
        }
        i += 1;
    }
    panic!("unbalanced: {}", &s[open_at..]);
}

/// Replaces every `name!(args)` (also spaced) by f(args).
fn expand_macro(mut s: String, name: &str, f: &dyn Fn(&str) -> String) -> String {
    loop {
        let pos = {
            let a = s.find(&format!("{name}!("));
            let b = s.find(&format!("{name} ! ("));
            match (a, b) {
                (Some(x), Some(y)) => Some(x.min(y)),
                (x, y) => x.or(y),
            }
        };
        let Some(p) = pos else { return s };
        let open = p + s[p..].find('(').unwrap();
        let close = balanced(&s, open);
        let rep = f(s[open + 1..close].trim());
        s.replace_range(p..close + 1, &rep);
    }
}

/// The same, swallowing the semicolon of the macro statement.
fn expand_macro_stmt(mut s: String, name: &str, f: &dyn Fn(&str) -> String) -> String {
    let pat = format!("{name}!(");
    while let Some(p) = s.find(&pat) {
        let close = balanced(&s, p + pat.len() - 1);
        let rep = f(s[p + pat.len()..close].trim());
        let mut end = close + 1;
        if s[end..].starts_with(';') {
            end += 1;
        }
        s.replace_range(p..end, &rep);
    }
    s
}

/// Finds the match arm whose pattern starts with the snippet.
struct ArmFinder<'a> {
    pat: &'a str,
    found: Option<Expr>,
    replace: Option<Expr>,
}
impl VisitMut for ArmFinder<'_> {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        if self.found.is_none() && a.guard.is_none() && norm(&a.pat.to_token_stream().to_string(), "").starts_with(self.pat) {
            self.found = Some((*a.body).clone());
            if let Some(r) = &self.replace {
                *a.body = r.clone();
            }
            return;
        }
        visit_mut::visit_arm_mut(self, a);
    }
}

/// Closures and async blocks in source order.
struct Closures<'a> {
    n: usize,
    body: Option<(usize, Option<Expr>)>,
    out: &'a [(usize, String)],
    whence: &'a str,
}
impl VisitMut for Closures<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let body: Option<Expr> = match e {
            Expr::Closure(c) => Some((*c.body).clone()),
            Expr::Async(a) => Some(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: a.block.clone() })),
            _ => None,
        };
        if let Some(b) = body {
            let k = self.n;
            self.n += 1;
            if let Some((want, found)) = &mut self.body {
                if *want == k {
                    *found = Some(b);
                }
            }
            if let Some((_, t)) = self.out.iter().find(|x| x.0 == k) {
                *e = syn::parse_str(t).unwrap_or_else(|e| panic!("{}: {e}", self.whence));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// The calls of `callee` (a plain path), in source order, without going into
/// their function arguments.
struct Calls<'a> {
    callee: &'a str,
    args: Vec<Vec<Expr>>,
    with: Option<&'a [(usize, String)]>,
    whence: &'a str,
}
impl VisitMut for Calls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.callee)) {
            return;
        }
        let k = self.args.len();
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        self.args.push(args.clone());
        if let Some(w) = self.with {
            let Some((_, t)) = w.iter().find(|x| x.0 == k) else { lost(format!("{}: a new call of {}", self.whence, self.callee)) };
            let mut t = t.clone();
            for (i, a) in args.iter().enumerate() {
                t = t.replace(&format!("@{i}"), &a.to_token_stream().to_string());
            }
            *e = syn::parse_str(&t).unwrap_or_else(|e| panic!("{}: {e}", self.whence));
        }
    }
}
/// The last argument of the k-th call of `callee`.
pub fn nth_call_arg(b: &syn::Block, callee: &str, k: usize) -> Option<String> {
    let mut v = Calls { callee, args: vec![], with: None, whence: "" };
    v.visit_block_mut(&mut b.clone());
    v.args.get(k).and_then(|a| a.last()).map(|a| a.to_token_stream().to_string())
}
/// Calls of a function parameter become applications of the argument.
struct Apply<'a> {
    param: &'a str,
    arg: Expr,
    n: usize,
}
impl VisitMut for Apply<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.param)) {
            return;
        }
        self.n += 1;
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        match &self.arg {
            Expr::Closure(cl) if cl.inputs.len() == args.len() => {
                let ps = cl.inputs.iter();
                let body = &cl.body;
                *e = parse_quote!({ let (#(#ps,)*) = (#(#args,)*); #body });
            }
            f => *e = parse_quote!(#f(#(#args),*)),
        }
    }
}

/// Statements in the order in which the hints are placed.
struct Statements(Vec<String>, String);
impl VisitMut for Statements {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for st in b.stmts.iter_mut() {
            let t = norm(&st.to_token_stream().to_string(), &self.1);
            self.0.push(t);
            self.visit_stmt_mut(st);
        }
    }
}
pub fn similarity(a: &[&str], b: &[&str]) -> f64 {
    let mut d = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..a.len() {
        for j in 0..b.len() {
            d[i + 1][j + 1] = if a[i] == b[j] { d[i][j] + 1 } else { d[i][j + 1].max(d[i + 1][j]) };
        }
    }
    2.0 * d[a.len()][b.len()] as f64 / (a.len() + b.len()) as f64
}
/// Hints whose statement is not there any more go to the one most like it.
fn nearest_hints(spec: &FnSpec, block: &syn::Block, whence: &str) -> Option<FnSpec> {
    let mut v = Statements(vec![], whence.to_string());
    v.visit_block_mut(&mut block.clone());
    let mut out: Option<FnSpec> = None;
    for after in [false, true] {
        let hints = if after { &spec.after } else { &spec.before };
        let mut need: BTreeMap<&String, Vec<usize>> = BTreeMap::new();
        for (i, h) in hints.iter().enumerate() {
            need.entry(&h.0).or_default().push(i);
        }
        for (pat, idx) in need {
            let p = norm(pat, whence);
            let have = v.0.iter().filter(|t| t.starts_with(&p)).count();
            if have >= idx.len() {
                continue;
            }
            let a: Vec<&str> = p.split(' ').collect();
            if a.len() < 3 {
                continue;
            }
            let mut best: Vec<(f64, &String)> = v.0.iter().filter(|t| !t.starts_with(&p)).map(|t| {
                let b: Vec<&str> = t.split(' ').take(a.len() + 3).collect();
                // the whole statement or its beginning
                (similarity(&a, &b).max(similarity(&a, &b[..b.len().min(a.len())])), t)
            }).filter(|x| x.0 >= 0.6).collect();
            best.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
            for (k, (_, t)) in idx[have..].iter().zip(best) {
                let o = out.get_or_insert_with(|| spec.clone());
                if after { o.after[*k].0 = t.clone() } else { o.before[*k].0 = t.clone() }
            }
        }
    }
    out
}

pub fn render_fn(mut sig: syn::Signature, block: syn::Block, spec: &FnSpec, whence: &str) -> (String, serde_json::Value) {
    let mut text = quote!(#block).to_string();
    let mut rules: BTreeMap<&'static str, usize> = BTreeMap::new();
    for (a, b, optional) in &spec.replace {
        match replace_tokens(&text, a, b, whence) {
            Some(t) => text = t,
            None if *optional => continue,
            None => lost(format!("{whence}: `{a}` not found")),
        }
        *rules.entry("template replacement").or_insert(0) += 1;
    }
    let mut block: syn::Block = syn::parse_str(&text).unwrap_or_else(|e| lost(format!("{whence}: {e}")));
    if let Some(p) = &spec.arm {
        for step in p.split(" / ") {
            let pat = norm(step, whence);
            let mut f = ArmFinder { pat: &pat, found: None, replace: None };
            f.visit_block_mut(&mut block);
            let body = f.found.unwrap_or_else(|| lost(format!("{whence}: match arm `{step}` not found")));
            block = parse_quote!({ let __arm = #body; Ok(__arm) });
        }
        *rules.entry("match arm moved to a function").or_insert(0) += 1;
    }
    for (p, call) in &spec.outarms {
        let pat = norm(p, whence);
        let call: Expr = syn::parse_str(call).unwrap_or_else(|e| panic!("{whence}: {e}"));
        let mut f = ArmFinder { pat: &pat, found: None, replace: Some(call) };
        f.visit_block_mut(&mut block);
        if f.found.is_none() {
            lost(format!("{whence}: match arm `{p}` not found"));
        }
        *rules.entry("match arm moved to a function").or_insert(0) += 1;
    }
    if spec.closure_body.is_some() || !spec.outclosures.is_empty() {
        let mut v = Closures { n: 0, body: spec.closure_body.map(|k| (k, None)), out: &spec.outclosures, whence };
        v.visit_block_mut(&mut block);
        if let Some((k, found)) = v.body.take() {
            let b = found.unwrap_or_else(|| lost(format!("{whence}: closure {k} not found")));
            block = match b {
                Expr::Block(b) => b.block,
                e => parse_quote!({ #e }),
            };
            *rules.entry("closure moved to a function").or_insert(0) += 1;
        }
        if let Some((k, _)) = spec.outclosures.iter().find(|x| x.0 >= v.n) {
            lost(format!("{whence}: closure {k} not found"));
        }
        *rules.entry("closure replaced by a job").or_insert(0) += spec.outclosures.len();
    }
    let mut callees: Vec<&str> = spec.special.iter().map(|x| x.0.as_str()).collect();
    callees.dedup();
    for c in callees {
        let w: Vec<(usize, String)> = spec.special.iter().filter(|x| x.0 == c).map(|x| (x.1, x.2.clone())).collect();
        let mut v = Calls { callee: c, args: vec![], with: Some(&w), whence };
        v.visit_block_mut(&mut block);
        if v.args.len() != w.len() {
            lost(format!("{whence}: {} calls of {c} expected, {} found", w.len(), v.args.len()));
        }
        *rules.entry("call with a function argument to the copy for that argument").or_insert(0) += w.len();
    }
    for (p, a) in &spec.applied {
        let arg: Expr = syn::parse_str(a).unwrap_or_else(|e| lost(format!("{whence}: {e}")));
        let mut v = Apply { param: p, arg, n: 0 };
        v.visit_block_mut(&mut block);
        if v.n == 0 {
            lost(format!("{whence}: {p} is not called"));
        }
        *rules.entry("function parameter replaced by its argument").or_insert(0) += v.n;
    }
    let nearest = nearest_hints(spec, &block, whence);
    let spec = match &nearest {
        Some(s) => {
            *rules.entry("proof hint placed at the closest statement").or_insert(0) += 1;
            s
        }
        None => spec,
    };
    let mut rw = Rewriter {
        spec,
        whence: whence.to_string(),
        raw: vec![],
        loops: 0,
        closures: 0,
        tmp: 0,
        within: vec![],
        rules,
        used_after: vec![false; spec.after.len()],
        used_before: vec![false; spec.before.len()],
    };
    let _ = rw.tmp;
    rw.visit_block_mut(&mut block);
    for (i, u) in rw.used_after.iter().enumerate() {
        if !u {
            lost(format!("{whence}: statement `{}` not found", spec.after[i].0));
        }
    }
    for (i, u) in rw.used_before.iter().enumerate() {
        if !u {
            lost(format!("{whence}: statement `{}` not found", spec.before[i].0));
        }
    }
    let nl = spec.loops.keys().chain(spec.loop_except.keys()).chain(spec.loop_ensures.keys()).max();
    if let Some(n) = nl {
        if *n >= rw.loops && rw.loops > 0 {
            lost(format!("{whence}: loop {n} expected, {} found", rw.loops));
        }
    }
    if let Some(n) = spec.closures.keys().chain(spec.ghosts.keys()).max() {
        if *n >= rw.closures {
            lost(format!("{whence}: closure {n} expected, {} found", rw.closures));
        }
    }
    if !spec.begin.trim().is_empty() {
        let s = rw.vp(spec.begin.clone());
        block.stmts.insert(0, s);
    }
    if !spec.end.trim().is_empty() {
        let s = rw.vp(spec.end.clone());
        let at = match block.stmts.last() {
            Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
            _ => block.stmts.len(),
        };
        block.stmts.insert(at, s);
    }
    // signature
    sig.unsafety = None;
    sig.asyncness = None;
    let strip = !spec.has("lifetimes");
    let mut tr = TypeRewriter { strip_lifetimes: strip };
    tr.visit_signature_mut(&mut sig);
    tr.visit_block_mut(&mut block);
    if let Some(n) = &spec.name {
        sig.ident = syn::Ident::new(n, proc_macro2::Span::call_site());
    }
    if let Some(p) = &spec.params {
        let f: syn::Signature = syn::parse_str(&format!("fn x({p})")).unwrap_or_else(|e| panic!("{whence}: {e}"));
        sig.inputs = f.inputs;
        *rw.rules.entry("parameters replaced by the template").or_insert(0) += 1;
    }
    if let Some(p) = &spec.generics {
        let f: syn::Signature = syn::parse_str(&format!("fn x{p}()")).unwrap_or_else(|e| panic!("{whence}: {e}"));
        sig.generics = f.generics;
    }
    let ret: Option<String> = match (&spec.rettype, &sig.output) {
        (Some(t), _) => Some(t.clone()),
        (None, syn::ReturnType::Default) => None,
        (None, syn::ReturnType::Type(_, t)) => Some(quote!(#t).to_string()),
    };
    sig.output = syn::ReturnType::Default;
    let item: syn::ItemFn = syn::ItemFn { attrs: vec![], vis: if spec.has("pub") { parse_quote!(pub) } else { syn::Visibility::Inherited }, sig, block: Box::new(block) };
    // `self` receivers are not allowed in free functions for prettyplease: wrap
    let text = {
        let has_self = item.sig.receiver().is_some();
        if has_self {
            let ItemFnParts { vis, sig, block } = ItemFnParts { vis: item.vis.clone(), sig: item.sig.clone(), block: (*item.block).clone() };
            let im: syn::ItemImpl = parse_quote!(impl __X { #vis #sig #block });
            let f = syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Impl(im)] };
            let t = prettyplease::unparse(&f);
            let t = t.trim();
            let t = t.strip_prefix("impl __X {").unwrap();
            t.strip_suffix('}').unwrap().to_string()
        } else {
            prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Fn(item)] })
        }
    };
    let raw = rw.raw.clone();
    // header of the function
    let open = {
        // first `{` at depth 0 of parentheses/angle brackets after the parameter list
        let p = text.find('(').unwrap();
        let close = balanced(&text, p);
        close + 1 + text[close + 1..].find('{').unwrap()
    };
    let head = text[..open].trim_end().to_string();
    let (head, wh) = match head.find("\nwhere") {
        Some(p) => (head[..p].to_string(), head[p..].to_string()),
        None => match head.find(" where ") {
            Some(p) => (head[..p].to_string(), head[p..].to_string()),
            None => (head, String::new()),
        },
    };
    let retname = spec.ret.clone().unwrap_or_else(|| "r".into());
    let mut out = String::new();
    out.push_str(&format!("// extracted: {whence}\n"));
    out.push_str(&spec.attrs);
    out.push_str(&head);
    if let Some(t) = ret {
        out.push_str(&format!(" -> ({retname}: {t})"));
    }
    out.push_str(&wh);
    out.push('\n');
    out.push_str(&spec.spec);
    out.push('\n');
    let mut body = text[open..].to_string();
    let idx = |s: &str| -> usize { s.split(',').next().unwrap().trim().parse().unwrap() };
    body = expand_macro(body, "__vcl", &|a| {
        let k = idx(a);
        let rest = a[a.find(',').unwrap() + 1..].trim();
        format!("{} {}", raw[k].trim(), rest)
    });
    body = expand_macro(body, "__vgh", &|a| format!("Ghost({})", raw[idx(a)].trim()));
    // loop headers
    loop {
        let Some(p) = body.find("__vph!(") else { break };
        let close = balanced(&body, p + 6);
        let k: usize = body[p + 7..close].trim().parse().unwrap();
        // remove the statement
        let mut end = close + 1;
        if body[end..].starts_with(';') {
            end += 1;
        }
        body.replace_range(p..end, "");
        let brace = body[..p].rfind('{').unwrap();
        let kw = {
            let a = body[..brace].rfind("loop");
            let b = body[..brace].rfind("while");
            a.max(b).unwrap()
        };
        let cond = body[kw..brace].trim_end().to_string();
        body.replace_range(
            kw..brace,
            &format!("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] {cond}\n{}", raw[k]),
        );
    }
    // proof text last: it may contain anything
    body = body.replace("__vp!", "__vp !").replace("__vp !", "__vp!");
    body = expand_macro_stmt(body, "__vp", &|a| raw[idx(a)].clone());
    out.push_str(&body);
    out.push('\n');
    (out, serde_json::to_value(&rw.rules).unwrap())
}

struct ItemFnParts {
    vis: syn::Visibility,
    sig: syn::Signature,
    block: syn::Block,
}
