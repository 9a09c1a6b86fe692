//! Functions and constants that the recorded tree (`contracts/known.json`) did
//! not have are put in the place of their uses, so that a function under
//! contract is verified with the helpers that were split off from it.
use quote::{quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

#[derive(Clone)]
pub struct NewFn {
    sig: syn::Signature,
    block: syn::Block,
}

#[derive(Default)]
pub struct News {
    /// by name; None: the name is not unique
    fns: HashMap<String, Option<NewFn>>,
    /// by type and name
    methods: HashMap<(String, String), Option<NewFn>>,
    consts: HashMap<String, Option<(syn::Type, Expr)>>,
}

const DIRS: [&str; 4] = ["lib/src", "proto/src", "server/src", "plugins/host/src"];

fn rs_files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            rs_files(&p, out);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

fn test_only(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"))
}

enum Def {
    Fn(NewFn),
    Const(syn::Type, Expr),
}

fn collect(items: &[syn::Item], out: &mut Vec<(String, String, Def)>) {
    let mut put_fn = |cont: String, sig: &syn::Signature, block: &syn::Block| out.push((cont, sig.ident.to_string(), Def::Fn(NewFn { sig: sig.clone(), block: block.clone() })));
    let mut nested: Vec<&Vec<syn::Item>> = vec![];
    let mut consts: Vec<(String, String, syn::Type, Expr)> = vec![];
    for it in items {
        match it {
            syn::Item::Fn(f) if !test_only(&f.attrs) => put_fn("-".into(), &f.sig, &f.block),
            syn::Item::Const(c) if !test_only(&c.attrs) => consts.push(("const".into(), c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone())),
            syn::Item::Impl(im) if !test_only(&im.attrs) => {
                let ty = { let t = &im.self_ty; quote!(#t).to_string() };
                let tr = im.trait_.as_ref().map(|(_, p, _)| quote!(#p).to_string()).unwrap_or_default();
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) if !test_only(&f.attrs) => put_fn(format!("impl {tr} {ty}"), &f.sig, &f.block),
                        syn::ImplItem::Const(c) => consts.push((format!("const {tr} {ty}"), c.ident.to_string(), c.ty.clone(), c.expr.clone())),
                        _ => {}
                    }
                }
            }
            syn::Item::Trait(t) => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            put_fn(format!("trait {}", t.ident), &f.sig, b);
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !test_only(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    nested.push(items);
                }
            }
            _ => {}
        }
    }
    for (c, n, t, e) in consts {
        out.push((c, n, Def::Const(t, e)));
    }
    for n in nested {
        collect(n, out);
    }
}

fn all(repo: &str) -> Vec<(String, String, Def)> {
    let mut out = vec![];
    for d in DIRS {
        let mut fs = vec![];
        rs_files(&std::path::Path::new(repo).join(d), &mut fs);
        for p in fs {
            let rel = p.strip_prefix(repo).unwrap().display().to_string();
            if rel.contains("test") || rel.contains("bench") {
                continue;
            }
            let Ok(text) = std::fs::read_to_string(&p) else { continue };
            let Ok(f) = syn::parse_file(&text) else { continue };
            collect(&f.items, &mut out);
        }
    }
    out
}

/// `container name` of everything there is, to be recorded
pub fn listing(repo: &str) -> BTreeSet<String> {
    all(repo).into_iter().map(|(c, n, _)| format!("{c} :: {n}")).collect()
}

impl News {
    pub fn new(repo: &str, known: &BTreeSet<String>) -> News {
        let mut out = News::default();
        let defs = all(repo);
        let names: Vec<String> = defs.iter().map(|(_, n, _)| n.clone()).collect();
        for (c, n, d) in defs {
            if let (Def::Fn(f), Some(t)) = (&d, c.strip_prefix("impl  ")) {
                // a method of its own type, called on `self`
                if !known.contains(&format!("{c} :: {n}")) {
                    let k = (bare_type(t), n.clone());
                    let twice = out.methods.contains_key(&k);
                    out.methods.insert(k, (!twice).then(|| f.clone()));
                }
            }
            // a trait's method is found by the type of its receiver, which is not known here
            if known.contains(&format!("{c} :: {n}")) || (c.starts_with("impl ") && !c.starts_with("impl  ")) || c.starts_with("trait ") {
                continue;
            }
            let unique = names.iter().filter(|x| **x == n).count() == 1;
            match d {
                Def::Fn(f) => { out.fns.insert(n, unique.then_some(f)); }
                Def::Const(t, e) => { out.consts.insert(n, unique.then_some((t, e))); }
            }
        }
        out
    }
    pub fn is_empty(&self) -> bool {
        self.fns.is_empty() && self.methods.is_empty() && self.consts.is_empty()
    }
}

/// the name of a type
pub fn bare_type(t: &str) -> String {
    t.split('<').next().unwrap().split("::").last().unwrap().trim().to_string()
}

#[derive(Default)]
struct Exits {
    returns: usize,
    tries: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.returns += 1;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.tries += 1;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn exits(b: &syn::Block) -> Exits {
    let mut e = Exits::default();
    e.visit_block(b);
    e
}

/// `self` to another name
struct SelfName<'a>(&'a syn::Ident);
impl VisitMut for SelfName<'_> {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if i == "self" {
            *i = self.0.clone();
        }
    }
}

fn is_ok_call(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().map(|s| s.ident == "Ok").unwrap_or(false) && c.args.len() == 1 {
                return Some(c.args[0].clone());
            }
        }
    }
    None
}
fn is_err_call(e: &Expr) -> bool {
    matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "Err").unwrap_or(false)))
}

/// the value of `e?` for the value `e` of a block
fn question(e: Expr) -> Expr {
    if let Some(v) = is_ok_call(&e) {
        return v;
    }
    match e {
        Expr::Return(_) => e,
        _ if is_err_call(&e) => parse_quote!(return #e),
        Expr::If(mut i) if i.else_branch.is_some() => {
            question_block(&mut i.then_branch);
            let (t, el) = i.else_branch.take().unwrap();
            i.else_branch = Some((t, Box::new(question(*el))));
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let b = (*a.body).clone();
                *a.body = question(b);
                a.comma.get_or_insert(Default::default());
            }
            Expr::Match(m)
        }
        Expr::Block(mut b) if b.label.is_none() => {
            question_block(&mut b.block);
            Expr::Block(b)
        }
        e => parse_quote!((#e)?),
    }
}
fn question_block(b: &mut syn::Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        let x = e.clone();
        *e = question(x);
    }
}

/// Are all `return`s of the block returns of an error?
struct OnlyErr(bool);
impl<'a> Visit<'a> for OnlyErr {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        if !r.expr.as_ref().map(|e| is_err_call(e)).unwrap_or(false) {
            self.0 = false;
        }
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    /// the value of the call is the value of the function
    Tail,
    /// `call?`
    Try,
    Plain,
}

pub struct Inliner<'n> {
    news: &'n News,
    /// the type whose function it is
    current: String,
    depth: usize,
    pub count: usize,
    fresh: usize,
}

/// types that can be written in the place of the call
fn plain_type(t: &syn::Type, generics: &syn::Generics) -> bool {
    struct V<'g>(bool, &'g syn::Generics);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_lifetime(&mut self, _: &'a syn::Lifetime) {
            self.0 = false;
        }
        fn visit_type_impl_trait(&mut self, _: &'a syn::TypeImplTrait) {
            self.0 = false;
        }
        fn visit_type_trait_object(&mut self, _: &'a syn::TypeTraitObject) {
            self.0 = false;
        }
        fn visit_path(&mut self, p: &'a syn::Path) {
            if p.is_ident("Self") || self.1.params.iter().any(|g| matches!(g, syn::GenericParam::Type(t) if p.segments[0].ident == t.ident)) {
                self.0 = false;
            }
            syn::visit::visit_path(self, p);
        }
    }
    let mut v = V(true, generics);
    v.visit_type(t);
    v.0
}

/// a parameter that is `& v` by `v` where it is dereferenced
pub struct Subst<'a>(pub &'a HashMap<String, Expr>);
impl Subst<'_> {
    fn of(&self, e: &Expr) -> Option<&Expr> {
        match e {
            Expr::Path(p) if p.qself.is_none() => p.path.get_ident().and_then(|i| self.0.get(&i.to_string())),
            _ => None,
        }
    }
    fn var(&self, e: &Expr) -> Option<Expr> {
        self.of(e).map(|r| if let Expr::Reference(r) = r { (*r.expr).clone() } else { unreachable!() })
    }
}
impl VisitMut for Subst<'_> {
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if self.of(&f.expr).is_some() {
            f.colon_token.get_or_insert(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => {
                if let Some(v) = self.var(&m.receiver) {
                    *m.receiver = v;
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some(v) = self.var(&f.base) {
                    *f.base = v;
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(v) = self.var(&u.expr) {
                    *e = v;
                    return;
                }
            }
            Expr::Index(i) => {
                if let Some(v) = self.var(&i.expr) {
                    *i.expr = v;
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
            }
            _ => {}
        }
        if let Some(r) = self.of(e).cloned() {
            *e = r;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn mentions_in_macro(b: &syn::Block, name: &syn::Ident) -> bool {
    struct M<'a>(bool, &'a syn::Ident);
    impl<'a> Visit<'a> for M<'_> {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            let mut all = BTreeSet::new();
            crate::rename::idents(m.tokens.clone(), &mut all);
            self.0 |= all.contains(&self.1.to_string());
        }
    }
    let mut m = M(false, name);
    m.visit_block(b);
    m.0
}

struct Uses<'a>(usize, &'a syn::Ident);
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_ident(&mut self, i: &'a syn::Ident) {
        self.0 += (i == self.1) as usize;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // not looked into
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| self.1 == w) {
            self.0 += 2;
        }
    }
}
/// Puts the argument in the place of the parameter where that is all the first
/// statement begins with.
fn put_first(b: &mut syn::Block, name: &syn::Ident, a: &Expr) -> bool {
    let mut u = Uses(0, name);
    u.visit_block(b);
    if u.0 != 1 {
        return false;
    }
    let is = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(name));
    let at: Option<&mut Expr> = match b.stmts.first_mut() {
        Some(Stmt::Expr(Expr::Match(m), _)) => Some(&mut m.expr),
        Some(Stmt::Expr(Expr::ForLoop(f), _)) => Some(&mut f.expr),
        Some(Stmt::Expr(Expr::If(i), _)) => match &mut *i.cond {
            Expr::Let(l) => Some(&mut l.expr),
            c => Some(c),
        },
        Some(Stmt::Local(l)) => l.init.as_mut().map(|i| &mut *i.expr),
        _ => None,
    };
    match at {
        Some(e) if is(e) => {
            *e = a.clone();
            true
        }
        _ => false,
    }
}

impl<'n> Inliner<'n> {
    pub fn new(news: &'n News, container: &str) -> Self {
        Inliner { news, current: bare_type(container.split('|').last().unwrap()), depth: 0, count: 0, fresh: 0 }
    }

    fn target(&self, e: &Expr) -> Option<(NewFn, Option<Expr>, Vec<Expr>)> {
        let (name, recv, args) = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => (p.path.segments.last()?.ident.to_string(), None, c.args.iter().cloned().collect::<Vec<_>>()),
                _ => return None,
            },
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            _ => return None,
        };
        let own = match (e, &recv) {
            (_, Some(Expr::Path(p))) => p.path.is_ident("self"),
            (Expr::Call(c), None) => matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && (p.path.segments[0].ident == "Self" || p.path.segments[0].ident == self.current)),
            _ => false,
        };
        let f = match self.news.methods.get(&(self.current.clone(), name.clone())) {
            Some(f) if own => f.clone()?,
            _ => self.news.fns.get(&name)?.clone()?,
        };
        let mut args = args;
        let mut recv = recv;
        match (&recv, f.sig.receiver().is_some()) {
            (Some(_), true) | (None, false) => {}
            (None, true) if !args.is_empty() => recv = Some(args.remove(0)),
            _ => return None,
        }
        let n = f.sig.inputs.len() - f.sig.receiver().is_some() as usize;
        (args.len() == n).then_some((f, recv, args))
    }

    fn inline(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        let (f, recv, args) = self.target(e)?;
        let x = exits(&f.block);
        let mut only = OnlyErr(true);
        only.visit_block(&f.block);
        match pos {
            Pos::Tail => {}
            Pos::Try if only.0 => {}
            _ if x.returns + x.tries == 0 => {}
            _ => return None,
        }
        let mut block = f.block.clone();
        let mut lets: Vec<Stmt> = vec![];
        let mut late: Vec<Stmt> = vec![];
        if let Some(r) = recv {
            if !matches!(&r, Expr::Path(p) if p.path.is_ident("self")) {
                let id = syn::Ident::new(&format!("__self{}", self.fresh), proc_macro2::Span::call_site());
                self.fresh += 1;
                let rc = f.sig.receiver().unwrap();
                let s: Stmt = match (rc.reference.is_some(), rc.mutability.is_some()) {
                    _ if matches!(&r, Expr::Reference(_)) => parse_quote!(let #id = #r;),
                    (true, false) => parse_quote!(let #id = &#r;),
                    (true, true) => parse_quote!(let #id = &mut #r;),
                    (false, true) => parse_quote!(let mut #id = #r;),
                    (false, false) => parse_quote!(let #id = #r;),
                };
                lets.push(s);
                // also inside macros (assertions)
                let mut text = block.to_token_stream().to_string();
                SelfName(&id).visit_block_mut(&mut block);
                if text.contains("! (") && text.contains("self") {
                    text = block.to_token_stream().to_string();
                    if text.split_whitespace().any(|w| w == "self") {
                        return None;
                    }
                }
            }
        }
        let params: Vec<&syn::PatType> = f.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        let pure = |e: &Expr| matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::Field(_)) || matches!(e, Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)));
        // `&v` and `&mut v` for a parameter: the variable in its place
        let bound: BTreeSet<String> = crate::rename::binds(&f.sig, &block).into_iter().map(|x| x.0).collect();
        let mut subst: HashMap<String, Expr> = HashMap::new();
        for (p, a) in params.iter().zip(&args) {
            if let (syn::Pat::Ident(i), Expr::Reference(r)) = (&*p.pat, a) {
                if let Expr::Path(q) = &*r.expr {
                    let uses = crate::rename::binds(&f.sig, &block).into_iter().filter(|x| i.ident == x.0).count();
                    if q.path.get_ident().map(|v| v != "self" && (*v == i.ident || !bound.contains(&v.to_string()))).unwrap_or(false) && uses == 1 && i.mutability.is_none() && matches!(&*p.ty, syn::Type::Reference(_)) && !mentions_in_macro(&block, &i.ident) {
                        subst.insert(i.ident.to_string(), a.clone());
                    }
                }
            }
        }
        if !subst.is_empty() {
            Subst(&subst).visit_block_mut(&mut block);
        }
        let impure = args.iter().filter(|a| !pure(a)).count();
        for (p, a) in params.iter().zip(args) {
            let (pat, ty) = (&p.pat, &p.ty);
            // what the body looks at first of all, and only there
            if let syn::Pat::Ident(i) = &**pat {
                if !pure(&a) && impure == 1 && put_first(&mut block, &i.ident, &a) {
                    continue;
                }
            }
            if matches!(&**pat, syn::Pat::Ident(i) if subst.contains_key(&i.ident.to_string())) {
                continue;
            }
            if let (syn::Pat::Ident(i), Expr::Path(q)) = (&**pat, &a) {
                // the same name on both sides
                if i.mutability.is_none() && i.by_ref.is_none() && q.path.is_ident(&i.ident) {
                    continue;
                }
            }
            let id = syn::Ident::new(&format!("__a{}", self.fresh), proc_macro2::Span::call_site());
            self.fresh += 1;
            if plain_type(ty, &f.sig.generics) {
                lets.push(parse_quote!(let #id: #ty = #a;));
            } else {
                lets.push(parse_quote!(let #id = #a;));
            }
            late.push(parse_quote!(let #pat = #id;));
        }
        if pos == Pos::Try {
            if !matches!(&f.sig.output, syn::ReturnType::Type(_, t) if t.to_token_stream().to_string().contains("Result")) {
                return None;
            }
            question_block(&mut block);
        }
        self.count += 1;
        self.depth += 1;
        if pos == Pos::Tail {
            self.tail_block(&mut block);
        } else {
            self.visit_block_mut(&mut block);
        }
        self.depth -= 1;
        let stmts = &block.stmts;
        let out: Expr = if lets.is_empty() && stmts.len() == 1 && matches!(&stmts[0], Stmt::Expr(_, None)) {
            match &stmts[0] {
                Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_) | Expr::Lit(_)), None) => e.clone(),
                Stmt::Expr(e, None) => parse_quote!((#e)),
                _ => unreachable!(),
            }
        } else {
            parse_quote!({ #(#lets)* #(#late)* #(#stmts)* })
        };
        Some(out)
    }

    /// a block whose value is the value of the function
    pub fn tail_block(&mut self, b: &mut syn::Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            let mut x = e.clone();
            self.tail_expr(&mut x);
            if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
                *e = parse_quote!(__done!());
            }
            self.visit_block_mut(b);
            // flatten what was put in last
            b.stmts.pop();
            match x {
                Expr::Block(bl) if bl.label.is_none() && bl.attrs.is_empty() => b.stmts.extend(bl.block.stmts),
                x => b.stmts.push(Stmt::Expr(x, None)),
            }
        } else {
            self.visit_block_mut(b);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.visit_parts(e);
                if let Some(n) = self.inline(e, Pos::Tail) {
                    *e = n;
                }
            }
            Expr::Await(a) if matches!(&*a.base, Expr::Call(_) | Expr::MethodCall(_)) => {
                let mut b = (*a.base).clone();
                self.visit_parts(&mut b);
                match self.inline(&b, Pos::Tail) {
                    Some(n) => *e = n,
                    None => *a.base = b,
                }
            }
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, el)) = &mut i.else_branch {
                    self.tail_expr(el);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            _ => self.visit_expr_mut(e),
        }
    }
    fn visit_parts(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // a constant of the function's own
        for s in b.stmts.iter_mut() {
            if let Stmt::Item(syn::Item::Const(c)) = s {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                *s = parse_quote!(let #i: #t = #e;);
                self.count += 1;
            }
        }
        visit_mut::visit_block_mut(self, b);
        // { lets; value } as a statement of its own is flattened where no name clashes can arise: not needed
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    let mut y = (**x).clone();
                    self.tail_expr(&mut y);
                    // `return { ...; v }`: as it is
                    **x = y;
                }
                return;
            }
            Expr::Try(t) => {
                let mut base = (*t.expr).clone();
                if let Expr::Await(a) = &base {
                    base = (*a.base).clone();
                }
                if matches!(base, Expr::Call(_) | Expr::MethodCall(_)) {
                    self.visit_parts(&mut base);
                    if let Some(n) = self.inline(&base, Pos::Try) {
                        *e = n;
                        return;
                    }
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if p.path.segments.len() == 1 || p.path.segments[0].ident == "Self" {
                    if let Some(Some((ty, x))) = self.news.consts.get(&n) {
                        self.count += 1;
                        *e = match x {
                            Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.suffix().is_empty()) && matches!(ty, syn::Type::Path(_)) => {
                                let syn::Lit::Int(i) = &l.lit else { unreachable!() };
                                let s = format!("{}{}", i.base10_digits(), ty.to_token_stream());
                                syn::parse_str(&s).unwrap_or_else(|_| x.clone())
                            }
                            _ => parse_quote!((#x)),
                        };
                        return;
                    }
                }
            }
            _ => {}
        }
        self.visit_parts(e);
        if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) {
            if let Some(n) = self.inline(e, Pos::Plain) {
                *e = n;
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}
