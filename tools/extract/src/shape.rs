//! Other ways of writing the same thing are brought to the one that the
//! contracts were written for.
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

fn last(p: &Expr) -> Option<String> {
    match p {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

/// `e . into ()`, `From :: from (e)`, `Error :: from (e)` of that name
fn converts(body: &Expr, name: &str) -> bool {
    match body {
        Expr::MethodCall(m) => m.method == "into" && m.args.is_empty() && m.receiver.to_token_stream().to_string() == name,
        Expr::Call(c) => last(&c.func).as_deref() == Some("from") && c.args.len() == 1 && c.args[0].to_token_stream().to_string() == name,
        _ => false,
    }
}
fn converting(f: &Expr) -> bool {
    match f {
        Expr::Path(_) => {
            let t = f.to_token_stream().to_string();
            t == "Into :: into" || t == "From :: from" || t == "Error :: from"
        }
        Expr::Closure(c) if c.inputs.len() == 1 => match &c.inputs[0] {
            syn::Pat::Ident(i) => converts(&c.body, &i.ident.to_string()),
            _ => false,
        },
        _ => false,
    }
}

/// the variable of `Ok (v)` or `Err (e)`
fn one(p: &syn::Pat, of: &str) -> Option<String> {
    match p {
        syn::Pat::TupleStruct(t) if t.path.is_ident(of) && t.elems.len() == 1 => match &t.elems[0] {
            syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()),
            _ => None,
        },
        _ => None,
    }
}

/// `X . map_err (Into :: into)` as the value of the function is `Ok (X ?)`, and
/// `match X { Ok (v) => v, Err (e) => return Err (e . into ()) }` is `X ?`.
#[derive(Default)]
pub struct Errors(pub usize);
impl Errors {
    pub fn tail_block(&mut self, b: &mut syn::Block) {
        self.visit_block_mut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if m.method == "map_err" && m.args.len() == 1 && converting(&m.args[0]) => {
                let r = &m.receiver;
                *e = parse_quote!(Ok(#r?));
                self.0 += 1;
            }
            Expr::Block(b) if b.label.is_none() => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                    self.tail(e);
                }
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() {
                    self.tail(e);
                }
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            _ => {}
        }
    }
}
impl VisitMut for Errors {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_expr_async_mut(&mut self, _: &mut syn::ExprAsync) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let (a, b) = (&m.arms[0], &m.arms[1]);
                let (ok, err) = if one(&a.pat, "Ok").is_some() { (a, b) } else { (b, a) };
                let (Some(v), Some(x)) = (one(&ok.pat, "Ok"), one(&err.pat, "Err")) else { return };
                if ok.body.to_token_stream().to_string() != v {
                    return;
                }
                let Expr::Return(r) = &*err.body else { return };
                let Some(Expr::Call(c)) = r.expr.as_deref() else { return };
                if last(&c.func).as_deref() == Some("Err") && c.args.len() == 1 && converts(&c.args[0], &x) {
                    let s = &m.expr;
                    *e = parse_quote!(#s?);
                    self.0 += 1;
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
            }
            _ => {}
        }
    }
}

/// `let x = E ;` of the recorded tree, where `E` is now written at its only use
pub struct Locals<'a> {
    /// those that are not there any more
    pub gone: &'a crate::rename::Binds,
    pub n: usize,
}
/// what is evaluated first of all within the expression
fn first<'e>(e: &'e mut Expr, is: &dyn Fn(&Expr) -> bool) -> Option<&'e mut Expr> {
    if is(e) {
        return Some(e);
    }
    match e {
        Expr::Call(c) if matches!(&*c.func, Expr::Path(_)) => c.args.first_mut().and_then(|a| first(a, is)),
        Expr::MethodCall(m) => first(&mut m.receiver, is),
        Expr::Paren(p) => first(&mut p.expr, is),
        Expr::Try(t) => first(&mut t.expr, is),
        Expr::Return(r) => r.expr.as_mut().and_then(|x| first(x, is)),
        Expr::Match(m) => first(&mut m.expr, is),
        Expr::ForLoop(f) => first(&mut f.expr, is),
        Expr::If(i) => match &mut *i.cond {
            Expr::Let(l) => first(&mut l.expr, is),
            c => first(c, is),
        },
        Expr::Reference(r) => first(&mut r.expr, is),
        Expr::Unary(u) => first(&mut u.expr, is),
        Expr::Field(f) => first(&mut f.base, is),
        Expr::Binary(b) => first(&mut b.left, is),
        Expr::Tuple(t) => t.elems.first_mut().and_then(|a| first(a, is)),
        _ => None,
    }
}
impl VisitMut for Locals<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut all = BTreeSet::new();
        crate::rename::idents(b.to_token_stream(), &mut all);
        for (name, ctx) in self.gone {
            if all.contains(name) {
                continue;
            }
            let (mutable, text) = match (ctx.strip_prefix("let 0 _ = "), ctx.strip_prefix("let 0 mut _ = ")) {
                (Some(t), _) => (false, t),
                (_, Some(t)) => (true, t),
                _ => continue,
            };
            if text.split(' ').count() < 3 {
                continue;
            }
            let is = |e: &Expr| e.to_token_stream().to_string().chars().take(200).collect::<String>() == text;
            let id = syn::Ident::new(name, proc_macro2::Span::call_site());
            let mut at = None;
            for (i, s) in b.stmts.iter_mut().enumerate() {
                let e = match s {
                    Stmt::Expr(e, _) => Some(e),
                    Stmt::Local(l) => l.init.as_mut().map(|x| &mut *x.expr),
                    _ => None,
                };
                if let Some(x) = e.and_then(|e| first(e, &is)) {
                    at = Some((i, x.clone()));
                    *x = parse_quote!(#id);
                    break;
                }
            }
            if let Some((i, x)) = at {
                let s: Stmt = if mutable { parse_quote!(let mut #id = #x;) } else { parse_quote!(let #id = #x;) };
                b.stmts.insert(i, s);
                all.insert(name.clone());
                self.n += 1;
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

pub struct Loops(pub usize);
impl<'a> Visit<'a> for Loops {
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.0 += 1;
        syn::visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, f: &'a syn::ExprWhile) {
        self.0 += 1;
        syn::visit::visit_expr_while(self, f);
    }
    fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) {
        self.0 += 1;
        syn::visit::visit_expr_loop(self, f);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

/// `let v : Vec < T > = X . filter (f) . map (g) . collect ()` and
/// `v . extend (X . map (g))` as loops, for a function that has fewer loops
/// than its contract has invariants for
pub struct Collects(pub usize);
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
}
fn chain(e: &Expr) -> Option<(syn::Pat, Expr, Vec<Stmt>, Expr)> {
    // from the source: pattern, source, statements before the push (an unfinished item is skipped by `continue`), item
    let Expr::MethodCall(m) = e else { return None };
    let cl = |m: &syn::ExprMethodCall| -> Option<(syn::Pat, Expr)> {
        if m.args.len() != 1 {
            return None;
        }
        match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 && c.asyncness.is_none() => {
                let mut l = Leaves(false);
                l.visit_expr(&c.body);
                if l.0 {
                    return None;
                }
                let p = match &c.inputs[0] {
                    syn::Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            }
            _ => None,
        }
    };
    // the condition of a filter, with the item by its own name
    let cond = |m: &syn::ExprMethodCall| -> Option<(syn::Ident, Stmt)> {
        let (fp, fb) = cl(m)?;
        match fp {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() => {
                let id = i.ident.clone();
                let map = [(id.to_string(), parse_quote!(&#id))].into_iter().collect();
                let mut b: syn::Block = parse_quote!({ #fb });
                if crate::inline::mentions_in_macro(&b, &id) {
                    return None;
                }
                crate::inline::Subst(&map).visit_block_mut(&mut b);
                let c: Expr = match &b.stmts[..] {
                    [Stmt::Expr(e, None)] => e.clone(),
                    _ => parse_quote!(#b),
                };
                Some((id, match &c {
                    Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) => parse_quote!(if !#c { continue; }),
                    Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
                        let x = &u.expr;
                        parse_quote!(if #x { continue; })
                    }
                    c => parse_quote!(if !(#c) { continue; }),
                }))
            }
            fp => {
                let id = syn::Ident::new("__it", proc_macro2::Span::call_site());
                Some((id.clone(), parse_quote!({ let #fp = &#id; if !(#fb) { continue; } })))
            }
        }
    };
    // where the items come from
    let from = |e: &Expr| -> Option<(syn::Ident, Expr, Vec<Stmt>)> {
        match e {
            Expr::MethodCall(r) if r.method == "filter" => {
                let (id, s) = cond(r)?;
                Some((id, (*r.receiver).clone(), vec![s]))
            }
            e => Some((syn::Ident::new("__it", proc_macro2::Span::call_site()), e.clone(), vec![])),
        }
    };
    match m.method.to_string().as_str() {
        "map" => {
            let (p, body) = cl(m)?;
            let (id, src, mut pre) = from(&m.receiver)?;
            if pre.is_empty() {
                return Some((p, src, pre, body));
            }
            if p.to_token_stream().to_string() != id.to_string() {
                pre.push(parse_quote!(let #p = #id;));
            }
            Some((parse_quote!(#id), src, pre, body))
        }
        "cloned" | "copied" if m.args.is_empty() => {
            let (id, src, pre) = from(&m.receiver)?;
            let item: Expr = if m.method == "cloned" { parse_quote!(#id.clone()) } else { parse_quote!(*#id) };
            Some((parse_quote!(#id), src, pre, item))
        }
        "filter" => {
            let (id, s) = cond(m)?;
            Some((parse_quote!(#id), (*m.receiver).clone(), vec![s], parse_quote!(#id)))
        }
        _ => None,
    }
}
impl VisitMut for Collects {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mut done = None;
            match &s {
                Stmt::Local(l) => {
                    let (id, ty) = match &l.pat {
                        syn::Pat::Type(t) => match &*t.pat {
                            syn::Pat::Ident(i) => (Some(i.ident.clone()), Some((*t.ty).clone())),
                            _ => (None, None),
                        },
                        syn::Pat::Ident(i) => (Some(i.ident.clone()), None),
                        _ => (None, None),
                    };
                    let init = l.init.as_ref().filter(|i| i.diverge.is_none()).map(|i| (*i.expr).clone());
                    if let (Some(id), Some(Expr::MethodCall(c))) = (id, init) {
                        let turbo = c.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).unwrap_or_default();
                        let tt = ty.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                        if c.method == "collect" && (tt.starts_with("Vec <") || turbo.starts_with("Vec <")) && !turbo.contains("Result") && !tt.contains("Result") {
                            if let Some((p, src, pre, item)) = chain(&c.receiver) {
                                let ann: Option<syn::Type> = ty.filter(|t| !t.to_token_stream().to_string().contains('_'));
                                let decl: Stmt = match ann {
                                    Some(t) => parse_quote!(let mut #id: #t = Vec::new();),
                                    None => parse_quote!(let mut #id = Vec::new();),
                                };
                                done = Some(vec![decl, parse_quote!(for #p in #src { #(#pre)* #id.push(#item); })]);
                            }
                        }
                    }
                }
                Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.args.len() == 1 => {
                    let r = &m.receiver;
                    if m.method == "extend" && matches!(&**r, Expr::Path(_)) {
                        if let Some((p, src, pre, item)) = chain(&m.args[0]) {
                            done = Some(vec![parse_quote!(for #p in #src { #(#pre)* #r.push(#item); })]);
                        }
                    } else if m.method == "for_each" {
                        if let Expr::Closure(c) = &m.args[0] {
                            let mut l = Leaves(false);
                            l.visit_expr(&c.body);
                            if c.inputs.len() == 1 && !l.0 {
                                let (p, body) = (&c.inputs[0], &c.body);
                                done = Some(vec![match &**body {
                                    Expr::Block(bl) => {
                                        let st = &bl.block.stmts;
                                        parse_quote!(for #p in #r { #(#st)* })
                                    }
                                    e => parse_quote!(for #p in #r { #e; }),
                                }]);
                            }
                        }
                    }
                }
                _ => {}
            }
            match done {
                Some(d) => {
                    self.0 += 1;
                    out.extend(d);
                }
                None => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

/// `for x in v . iter ()` where the recorded tree had `for x in v`
pub struct ByRef<'a> {
    pub gone: &'a crate::rename::Binds,
    pub n: usize,
}
impl VisitMut for ByRef<'_> {
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        let v = match &*f.expr {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (*m.receiver).clone(),
            Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
            _ => return,
        };
        let (Expr::Path(_), syn::Pat::Ident(x)) = (&v, &*f.pat) else { return };
        let t = v.to_token_stream().to_string();
        let had = |s: String| self.gone.iter().any(|(_, c)| c.starts_with("for 0 ") && c.ends_with(&s));
        if !had(format!(" = {t}")) && !had(format!(" = {t} . into_iter ()")) {
            return;
        }
        if x.by_ref.is_some() || x.mutability.is_some() || crate::inline::mentions_in_macro(&f.body, &x.ident) {
            return;
        }
        let id = &x.ident;
        let map = [(id.to_string(), parse_quote!(&#id))].into_iter().collect();
        crate::inline::Subst(&map).visit_block_mut(&mut f.body);
        *f.expr = v;
        self.n += 1;
    }
}

/// `continue` under a condition: what follows it goes under the opposite one.
/// `& p` in the pattern of a loop: dereferenced in the body.
#[derive(Default)]
pub struct Bodies(pub usize);
fn is_continue(e: &Expr) -> bool {
    match e {
        Expr::Continue(c) => c.label.is_none(),
        Expr::Block(b) => b.label.is_none() && b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, _) if is_continue(e)),
        _ => false,
    }
}
fn ends_in_continue(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(e, _)) if is_continue(e))
}
impl Bodies {
    fn body(&mut self, b: &mut syn::Block) {
        for k in 0..b.stmts.len() {
            let rest: Vec<Stmt> = b.stmts[k + 1..].to_vec();
            let new: Option<Stmt> = match &b.stmts[k] {
                Stmt::Expr(Expr::If(i), _) if ends_in_continue(&i.then_branch) && i.else_branch.is_none() => {
                    let mut i = i.clone();
                    i.then_branch.stmts.pop();
                    let c = &i.cond;
                    let st = &i.then_branch.stmts;
                    if st.is_empty() && !matches!(&**c, Expr::Let(_)) && !c.to_token_stream().to_string().contains("let ") {
                        let neg: Expr = match &**c {
                            Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => match &*u.expr {
                                Expr::Paren(p) => (*p.expr).clone(),
                                e => e.clone(),
                            },
                            c @ (Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Field(_) | Expr::Paren(_)) => parse_quote!(!#c),
                            c => parse_quote!(!(#c)),
                        };
                        Some(parse_quote!(if #neg { #(#rest)* }))
                    } else {
                        Some(parse_quote!(if #c { #(#st)* } else { #(#rest)* }))
                    }
                }
                Stmt::Local(l) => match &l.init {
                    Some(i) => match (&i.diverge, &*i.expr) {
                        (Some((_, d)), e) if is_continue(d) => {
                            let p = &l.pat;
                            Some(parse_quote!(if let #p = #e { #(#rest)* }))
                        }
                        (None, Expr::Match(m)) if m.arms.len() == 2 && m.arms.iter().filter(|a| is_continue(&a.body)).count() == 1 && m.arms.iter().all(|a| a.guard.is_none()) => {
                            let mut m = m.clone();
                            let p = &l.pat;
                            for a in m.arms.iter_mut() {
                                if is_continue(&a.body) {
                                    *a.body = parse_quote!({});
                                } else if a.body.to_token_stream().to_string() == p.to_token_stream().to_string() {
                                    *a.body = parse_quote!({ #(#rest)* });
                                } else {
                                    let v = &a.body;
                                    *a.body = parse_quote!({ let #p = #v; #(#rest)* });
                                }
                            }
                            // the arm that matters first, as `if let`
                            let keep = m.arms.iter().find(|a| a.body.to_token_stream().to_string() != "{ }").cloned();
                            match keep {
                                Some(a) => {
                                    let (pp, bb, e) = (&a.pat, &a.body, &m.expr);
                                    Some(parse_quote!(if let #pp = #e #bb))
                                }
                                None => Some(Stmt::Expr(Expr::Match(m), None)),
                            }
                        }
                        _ => None,
                    },
                    None => None,
                },
                _ => None,
            };
            if let Some(n) = new {
                self.0 += 1;
                b.stmts.truncate(k);
                b.stmts.push(n);
                // the rest may have more of them
                if let Some(Stmt::Expr(Expr::If(i), _)) = b.stmts.last_mut() {
                    match &mut i.else_branch {
                        Some((_, e)) => {
                            if let Expr::Block(x) = &mut **e {
                                self.body(&mut x.block);
                            }
                        }
                        None => self.body(&mut i.then_branch),
                    }
                }
                return;
            }
        }
    }
}
struct RefPats(Vec<(syn::Ident, syn::Pat)>);
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Reference(r) = p {
            if r.mutability.is_none() {
                let id = syn::Ident::new(&format!("__r{}", self.0.len()), proc_macro2::Span::call_site());
                self.0.push((id.clone(), (*r.pat).clone()));
                *p = parse_quote!(#id);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
impl VisitMut for Bodies {
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        if f.label.is_none() {
            self.body(&mut f.body);
        }
        let mut v = RefPats(vec![]);
        // a pattern of one name alone is dealt with where loops are rewritten
        v.visit_pat_mut(&mut f.pat);
        for (id, p) in v.0.into_iter().rev() {
            f.body.stmts.insert(0, parse_quote!(let #p = *#id;));
            self.0 += 1;
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
    fn visit_expr_while_mut(&mut self, f: &mut syn::ExprWhile) {
        if f.label.is_none() {
            self.body(&mut f.body);
        }
        visit_mut::visit_expr_while_mut(self, f);
    }
    fn visit_expr_loop_mut(&mut self, f: &mut syn::ExprLoop) {
        if f.label.is_none() {
            self.body(&mut f.body);
        }
        visit_mut::visit_expr_loop_mut(self, f);
    }
}

/// `X . map_or (D, | p | B)` and the like, as the `match` they stand for.
/// The verifier knows nothing of what a closure without a contract returns.
#[derive(Default)]
pub struct Combinators(pub usize);
/// parameters and body of a closure that does not leave the function
fn closure(e: &Expr) -> Option<(Vec<syn::Pat>, &Expr)> {
    struct Leaves(bool);
    impl<'a> Visit<'a> for Leaves {
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
        fn visit_expr_await(&mut self, _: &'a syn::ExprAwait) { self.0 = true; }
        fn visit_macro(&mut self, m: &'a syn::Macro) { self.0 |= m.tokens.to_string().contains("return") || m.tokens.to_string().contains('?'); }
    }
    let Expr::Closure(c) = e else { return None };
    let mut l = Leaves(false);
    l.visit_expr(&c.body);
    if l.0 || c.asyncness.is_some() {
        return None;
    }
    let ps = c.inputs.iter().map(|p| match p { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
    Some((ps, &c.body))
}
pub fn closures_in(b: &syn::Block) -> usize {
    struct Count(usize);
    impl<'a> Visit<'a> for Count {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
            self.0 += 1;
            syn::visit::visit_expr_closure(self, c);
        }
    }
    let mut c = Count(0);
    c.visit_block(b);
    c.0
}
/// what a value is evidently made with: `Ok`, `Err`, `Some` or `None`
fn maker(e: &Expr) -> Option<&'static str> {
    let t = match e {
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => return maker(e),
            _ => return None,
        },
        Expr::If(i) => match i.then_branch.stmts.last() {
            Some(Stmt::Expr(e, None)) => return maker(e),
            _ => return None,
        },
        Expr::Match(m) => return m.arms.iter().find_map(|a| maker(&a.body)),
        Expr::Call(c) => last(&c.func)?,
        Expr::Path(_) => last(e)?,
        _ => return None,
    };
    match &t[..] {
        "Ok" | "Err" => Some("Result"),
        "Some" | "None" => Some("Option"),
        _ => None,
    }
}
impl VisitMut for Combinators {
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let (x, name) = (&m.receiver, m.method.to_string());
        let fs: Vec<_> = m.args.iter().map(closure).collect();
        let plain = |e: &Expr| !matches!(e, Expr::Closure(_) | Expr::Await(_) | Expr::Try(_));
        let new: Option<Expr> = match (&name[..], &fs[..]) {
            ("is_some_and", [Some((p, b))]) if p.len() == 1 => { let p = &p[0]; Some(parse_quote!(match #x { Some(#p) => #b, None => false })) }
            ("is_none_or", [Some((p, b))]) if p.len() == 1 => { let p = &p[0]; Some(parse_quote!(match #x { Some(#p) => #b, None => true })) }
            ("is_ok_and", [Some((p, b))]) if p.len() == 1 => { let p = &p[0]; Some(parse_quote!(match #x { Ok(#p) => #b, Err(_) => false })) }
            ("is_err_and", [Some((p, b))]) if p.len() == 1 => { let p = &p[0]; Some(parse_quote!(match #x { Ok(_) => false, Err(#p) => #b })) }
            ("map_or", [None, Some((p, b))]) if p.len() == 1 && plain(&m.args[0]) => {
                let (p, d) = (&p[0], &m.args[0]);
                // the default is worked out first, whether it is wanted or not
                match d {
                    Expr::Lit(_) | Expr::Path(_) => Some(parse_quote!(match v_ok(#x) { Some(#p) => #b, None => #d })),
                    _ => None,
                }
            }
            ("map_or_else", [Some((q, d)), Some((p, b))]) if p.len() == 1 && q.is_empty() => { let p = &p[0]; Some(parse_quote!(match #x { Some(#p) => #b, None => #d })) }
            ("map_or_else", [Some((q, d)), Some((p, b))]) if p.len() == 1 && q.len() == 1 => { let (p, q) = (&p[0], &q[0]); Some(parse_quote!(match #x { Ok(#p) => #b, Err(#q) => #d })) }
            ("unwrap_or_else", [Some((q, d))]) if q.is_empty() => Some(parse_quote!(match #x { Some(v_it) => v_it, None => #d })),
            ("unwrap_or_else", [Some((q, d))]) if q.len() == 1 => { let q = &q[0]; Some(parse_quote!(match #x { Ok(v_it) => v_it, Err(#q) => #d })) }
            ("or_else", [Some((q, d))]) if q.is_empty() => Some(parse_quote!(match #x { Some(v_it) => Some(v_it), None => #d })),
            ("or_else", [Some((q, d))]) if q.len() == 1 => { let q = &q[0]; Some(parse_quote!(match #x { Ok(v_it) => Ok(v_it), Err(#q) => #d })) }
            ("and_then", [Some((p, b))]) if p.len() == 1 => {
                let q = &p[0];
                match maker(b) {
                    Some("Option") => Some(parse_quote!(match #x { Some(#q) => #b, None => None })),
                    Some(_) => Some(parse_quote!(match #x { Ok(#q) => #b, Err(v_it) => Err(v_it) })),
                    None => None,
                }
            }
            // only an `Option` or a `Result` has these
            ("transpose", []) | ("unwrap_or_default", []) | ("unwrap_or", [None]) => match &*m.receiver {
                Expr::MethodCall(f) if f.method == "map" && f.args.len() == 1 => match closure(&f.args[0]) {
                    Some((p, b)) if p.len() == 1 => {
                        let (x, p, t, args) = (&f.receiver, &p[0], &m.method, &m.args);
                        if name == "transpose" {
                            Some(parse_quote!((match #x { Some(#p) => Some(#b), None => None }).#t(#args)))
                        } else {
                            Some(parse_quote!((match v_ok(#x) { Some(#p) => Some(#b), None => None }).#t(#args)))
                        }
                    }
                    _ => None,
                },
                _ => None,
            },
            ("then", [Some((q, b))]) if q.is_empty() => Some(parse_quote!(if #x { Some(#b) } else { None })),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
            self.0 += 1;
        }
    }
}
