//! The template language (see contracts/README.md).
use crate::{derives, field_names, find_fn, find_type, has_impl, lost, render_type, rewrite, Ctx};
use serde_json::json;
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub name: Option<String>,
    pub ret: Option<String>,
    pub rettype: Option<String>,
    pub params: Option<String>,
    pub generics: Option<String>,
    pub spec: String,
    pub begin: String,
    pub end: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_except: BTreeMap<usize, String>,
    pub loop_ensures: BTreeMap<usize, String>,
    pub loop_begin: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub before_loop: BTreeMap<usize, String>,
    pub after_loop: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub ghosts: BTreeMap<usize, String>,
    pub after: Vec<(String, String)>,
    pub before: Vec<(String, String)>,
    pub replace: Vec<(String, String, bool)>,
    /// match arms moved to functions of their own: pattern, call
    pub outarms: Vec<(String, String)>,
    /// this function is the arm with that pattern
    pub arm: Option<String>,
    pub opts: Vec<String>,
    /// this function is the body of that closure
    pub closure_body: Option<usize>,
    /// closures replaced by a value that stands for them
    pub outclosures: Vec<(usize, String)>,
    /// calls of a function with a function argument: callee, which one, the
    /// call of the copy made for that argument
    pub special: Vec<(String, usize, String)>,
    /// in the copy: parameter, and the argument it stands for (file,
    /// container, function, callee, which call)
    pub apply: Vec<(String, String)>,
    /// the same, looked up
    pub applied: Vec<(String, String)>,
}

impl FnSpec {
    pub fn has(&self, o: &str) -> bool {
        self.opts.iter().any(|x| x == o)
    }
}

pub fn expand(cx: &mut Ctx, path: &str) -> String {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut out = String::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim_start();
        if let Some(rest) = t.strip_prefix("//@") {
            let w: Vec<&str> = rest.split_whitespace().collect();
            match w[0] {
                "include" => {
                    let p = dir.join(w[1]);
                    out.push_str(&expand(cx, p.to_str().unwrap()));
                }
                "type" => {
                    let item = find_type(&cx.file(w[1]).items, w[2]).unwrap_or_else(|| lost(format!("type {} in {}", w[2], w[1])));
                    let strip = w.contains(&"nolifetime");
                    let mut s = render_type(item, strip);
                    for x in &w[3..] {
                        if let Some(n) = x.strip_prefix("as=") {
                            s = s.replacen(w[2], n, 1);
                        }
                        if let Some(n) = x.strip_prefix("mod=") {
                            // qualified paths of the crate that are flattened here
                            s = s.replace(n, "");
                        }
                    }
                    cx.report.push(json!({"kind":"type","file":w[1],"name":w[2]}));
                    out.push_str(&s);
                }
                "derives" => {
                    let file = cx.file(w[1]);
                    let item = find_type(&file.items, w[2]).unwrap_or_else(|| lost(format!("type {} in {}", w[2], w[1])));
                    let d = derives(&item);
                    for need in &w[3..] {
                        if let Some(absent) = need.strip_prefix('!') {
                            if d.iter().any(|x| x == absent) || has_impl(&file.items, absent, w[2]) {
                                lost(format!("{} now implements {absent}", w[2]));
                            }
                        } else if !d.iter().any(|x| x == need) {
                            lost(format!("{} no longer derives {need}", w[2]));
                        }
                    }
                }
                "serde" => {
                    // derived serialization of every field, nothing customised
                    let item = find_type(&cx.file(w[1]).items, w[2]).unwrap_or_else(|| lost(format!("type {} in {}", w[2], w[1])));
                    let d = derives(&item);
                    for need in ["Serialize", "Deserialize"] {
                        if !d.iter().any(|x| x == need) {
                            lost(format!("{} no longer derives {need}", w[2]));
                        }
                    }
                    if quote::quote!(#item).to_string().contains("# [serde") {
                        lost(format!("{} customises its serialization", w[2]));
                    }
                }
                "fieldorder" => {
                    // emits the lexicographic comparison of the derived Ord
                    let item = find_type(&cx.file(w[1]).items, w[2]).unwrap_or_else(|| lost(format!("type {} in {}", w[2], w[1])));
                    let want: Vec<String> = w[3..].iter().map(|s| s.to_string()).collect();
                    if field_names(&item) != want {
                        lost(format!("fields of {} are {:?}, derived order assumed {:?}", w[2], field_names(&item), want));
                    }
                }
                "absent" => {
                    if find_fn(&cx.file(w[1]).items, w[2], w[3]).is_some() {
                        lost(format!("{} ({}) in {} exists now", w[3], w[2], w[1]));
                    }
                }
                "fn" => {
                    let (file, container, name) = (w[1].to_string(), w[2].to_string(), w[3].to_string());
                    i += 1;
                    let mut spec = FnSpec::default();
                    spec.opts = w[4..].iter().map(|s| s.to_string()).collect();
                    let mut section = String::new();
                    let mut body: Vec<String> = vec![];
                    loop {
                        if i >= lines.len() {
                            panic!("{path}: unterminated //@fn {name}");
                        }
                        let t = lines[i].trim_start();
                        if t.starts_with("//@end") || t.starts_with('%') {
                            flush(&mut spec, &section, &body, path);
                            body.clear();
                            if t.starts_with("//@end") {
                                break;
                            }
                            section = t[1..].to_string();
                        } else {
                            body.push(lines[i].to_string());
                        }
                        i += 1;
                    }
                    let (mut sig, block) = find_fn(&cx.file(&file).items, &container, &name)
                        .unwrap_or_else(|| lost(format!("fn {name} ({container}) in {file}")));
                    let (mut block, mut inlined) = (block, 0);
                    if !cx.news.is_empty() {
                        let mut v = crate::inline::Inliner::new(&cx.news, &container);
                        v.tail_block(&mut block);
                        inlined = v.count;
                    }
                    let whence = format!("{file} {container} {name}");
                    cx.now.insert(whence.clone(), crate::rename::binds(&sig, &block));
                    let mut renamed = 0;
                    if let Some(l) = cx.locals.get(&whence) {
                        renamed = crate::rename::back(&mut sig, &mut block, l);
                    }
                    let mut shaped = 0;
                    let mut v = crate::shape::Combinators::default();
                    let mut other = block.clone();
                    syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut other);
                    // closures with a contract of their own stay
                    let wanted = spec.closures.keys().copied().chain(spec.closure_body).chain(spec.outclosures.iter().map(|x| x.0)).max().map(|n| n + 1).unwrap_or(0);
                    if v.0 > 0 && crate::shape::closures_in(&other) >= wanted {
                        block = other;
                        shaped += v.0;
                    }
                    let mut e = crate::shape::Errors::default();
                    e.tail_block(&mut block);
                    shaped += e.0;
                    if let Some(l) = cx.locals.get(&whence) {
                        let mut gone = l.clone();
                        for x in crate::rename::binds(&sig, &block) {
                            if let Some(i) = gone.iter().position(|y| *y == x) {
                                gone.remove(i);
                            }
                        }
                        let mut v = crate::shape::Locals { gone: &gone, n: 0 };
                        syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut block);
                        shaped += v.n;
                        let mut v = crate::shape::ByRef { gone: &gone, n: 0 };
                        syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut block);
                        shaped += v.n;
                    }
                    let mut have = crate::shape::Loops(0);
                    syn::visit::Visit::visit_block(&mut have, &block);
                    let loops = spec.loops.keys().chain(spec.loop_ensures.keys()).max().map(|n| n + 1).unwrap_or(0);
                    if have.0 < loops {
                        let mut v = crate::shape::Collects(0);
                        syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut block);
                        shaped += v.0;
                    }
                    let mut v = crate::shape::Bodies::default();
                    syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut block);
                    shaped += v.0;
                    let before = { let b = &block; quote::quote!(#sig #b).to_string() };
                    let key = match &spec.name { Some(n) => format!("{whence} {n}"), None => whence.clone() };
                    if std::env::var("VACUITY").is_ok() {
                        // every function has to fail with this
                        spec.begin = format!("assert(false);\n{}", spec.begin);
                    }
                    let mut why: Option<String> = if cx.trust.contains(&key) { Some("verifier".into()) } else { None };
                    let mut done = None;
                    for (param, from) in spec.apply.clone() {
                        let f: Vec<String> = from.split_whitespace().map(|x| x.to_string()).collect();
                        let found = find_fn(&cx.file(&f[0]).items, &f[1], &f[2]).and_then(|(_, mut b)| { crate::inline::Inliner::new(&cx.news, &f[1]).tail_block(&mut b); rewrite::nth_call_arg(&b, &f[3], f[4].parse().unwrap()) });
                        match found {
                            Some(t) => spec.applied.push((param, t)),
                            None => why = Some(format!("call of {} in {} not found", f[3], f[2])),
                        }
                    }
                    if why.is_none() {
                        let (s2, b2, sp) = (sig.clone(), block.clone(), &spec);
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rewrite::render_fn(s2, b2, sp, &whence))) {
                            Ok(x) => done = Some(x),
                            Err(e) => match e.downcast::<crate::Lost>() {
                                Ok(l) => why = Some(l.0),
                                Err(e) => std::panic::resume_unwind(e),
                            },
                        }
                    }
                    let (text, mut rules) = match done {
                        Some(x) => x,
                        None => {
                            // the contract stays, the body is not verified
                            let bare = FnSpec { name: spec.name.clone(), ret: spec.ret.clone(), rettype: spec.rettype.clone(), params: spec.params.clone(),
                                generics: spec.generics.clone(), spec: spec.spec.clone(), attrs: format!("#[verifier::external_body]\n{}", spec.attrs), opts: spec.opts.clone(), ..Default::default() };
                            rewrite::render_fn(sig, syn::parse_quote!({ unimplemented!() }), &bare, &whence)
                        }
                    };
                    if renamed > 0 {
                        rules["local name changed back to the recorded one"] = json!(renamed);
                    }
                    if shaped > 0 {
                        rules["written in the form that the contract is for"] = json!(shaped);
                    }
                    if inlined > 0 {
                        rules["new helper or constant put in the place of its use"] = json!(inlined);
                    }
                    out.push_str(&format!("// BEGIN {key}\n"));
                    let text = format!("{text}// END\n");
                    cx.report.push(json!({"kind":"fn","file":file,"container":container,"name":name,"key":key,"as":spec.name,
                        "unverified": why, "source_tokens": before.split_whitespace().count(), "rewrites": rules}));
                    out.push_str(&text);
                }
                other => panic!("{path}: unknown directive {other}"),
            }
        } else {
            out.push_str(l);
            out.push('\n');
        }
        i += 1;
    }
    out
}

fn flush(s: &mut FnSpec, section: &str, body: &[String], path: &str) {
    if section.is_empty() {
        return;
    }
    let mut it = section.splitn(2, char::is_whitespace);
    let key = it.next().unwrap();
    let arg = it.next().unwrap_or("").trim().to_string();
    let body = body.join("\n");
    let num = || -> usize { arg.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("{path}: %{section}: number expected")) };
    let tail = || -> String {
        let mut it = arg.splitn(2, char::is_whitespace);
        it.next();
        it.next().unwrap_or("").to_string()
    };
    match key {
        "name" => s.name = Some(arg),
        "ret" => s.ret = Some(arg),
        "rettype" => s.rettype = Some(arg),
        "params" => s.params = Some(arg),
        "generics" => s.generics = Some(arg),
        "attr" => { s.attrs.push_str(&arg); s.attrs.push('\n'); }
        "spec" => s.spec = body,
        "begin" => s.begin = body,
        "end" => s.end = body,
        "loop" => { s.loops.insert(num(), body); }
        "loopexcept" => { s.loop_except.insert(num(), body); }
        "loopensures" => { s.loop_ensures.insert(num(), body); }
        "loopbegin" => { s.loop_begin.insert(num(), body); }
        "loopend" => { s.loop_end.insert(num(), body); }
        "beforeloop" => { s.before_loop.insert(num(), body); }
        "afterloop" => { s.after_loop.insert(num(), body); }
        "closure" => { s.closures.insert(num(), format!("{}\n{}", tail(), body)); }
        "ghost" => { s.ghosts.insert(num(), format!("{}\n{}", tail(), body)); }
        "after" => s.after.push((arg, body)),
        "before" => s.before.push((arg, body)),
        "arm" => s.arm = Some(arg),
        "outarm" => {
            let mut p = arg.splitn(2, "==>");
            let a = p.next().unwrap().trim().to_string();
            let b = p.next().unwrap_or_else(|| panic!("{path}: %outarm needs ==>")).trim().to_string();
            s.outarms.push((a, b));
        }
        "special" => {
            let mut p = arg.splitn(2, "==>");
            let a: Vec<String> = p.next().unwrap().split_whitespace().map(|x| x.to_string()).collect();
            let b = p.next().unwrap_or_else(|| panic!("{path}: %special needs ==>")).trim().to_string();
            s.special.push((a[0].clone(), a[1].parse().unwrap(), b));
        }
        "closurebody" => s.closure_body = Some(num()),
        "outclosure" => {
            let mut p = arg.splitn(2, "==>");
            let a = p.next().unwrap().trim().parse().unwrap();
            let b = p.next().unwrap_or_else(|| panic!("{path}: %outclosure needs ==>")).trim().to_string();
            s.outclosures.push((a, b));
        }
        "apply" => {
            let mut p = arg.splitn(2, "==>");
            let a = p.next().unwrap().trim().to_string();
            let b = p.next().unwrap_or_else(|| panic!("{path}: %apply needs ==>")).trim().to_string();
            s.apply.push((a, b));
        }
        "replace" | "replace?" => {
            let mut p = arg.splitn(2, "==>");
            let a = p.next().unwrap().trim().to_string();
            let b = p.next().unwrap_or_else(|| panic!("{path}: %replace needs ==>")).trim().to_string();
            s.replace.push((a, b, key == "replace?"));
        }
        _ => panic!("{path}: unknown section %{section}"),
    }
}
