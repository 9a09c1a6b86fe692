//! Expands item-level calls of simple `macro_rules!` macros that the same file
//! defines: one rule whose matcher is a list of `$x:fragment` with commas.
use proc_macro2::{Group, TokenStream, TokenTree};
use std::collections::HashMap;

struct Rule {
    params: Vec<String>,
    body: TokenStream,
}

fn parse_rule(ts: TokenStream) -> Option<Rule> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let (TokenTree::Group(m), TokenTree::Group(b)) = (t.first()?, t.get(3)?) else { return None };
    // a second rule would need another matcher
    if t.len() > 5 {
        return None;
    }
    let mut params = vec![];
    let m: Vec<TokenTree> = m.stream().into_iter().collect();
    let mut i = 0;
    while i < m.len() {
        match (m.get(i)?, m.get(i + 1)?, m.get(i + 2)?, m.get(i + 3)?) {
            (TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(_)) if d.as_char() == '$' && c.as_char() == ':' => {
                params.push(n.to_string())
            }
            _ => return None,
        }
        i += 4;
        match m.get(i) {
            None => break,
            Some(TokenTree::Punct(p)) if p.as_char() == ',' => i += 1,
            _ => return None,
        }
    }
    Some(Rule { params, body: b.stream() })
}

fn subst(ts: TokenStream, args: &HashMap<&str, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => match it.next() {
                Some(TokenTree::Ident(n)) if args.contains_key(n.to_string().as_str()) => out.extend(args[n.to_string().as_str()].clone()),
                Some(o) => out.extend([TokenTree::Punct(p), o]),
                None => out.extend([TokenTree::Punct(p)]),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), args));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            o => out.extend([o]),
        }
    }
    out
}

fn split(ts: TokenStream) -> Vec<TokenStream> {
    let mut v = vec![TokenStream::new()];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => v.push(TokenStream::new()),
            _ => v.last_mut().unwrap().extend([t]),
        }
    }
    if v.last().unwrap().is_empty() {
        v.pop();
    }
    v
}

pub fn expand_items(items: Vec<syn::Item>) -> Vec<syn::Item> {
    let mut rules: HashMap<String, Rule> = HashMap::new();
    for it in &items {
        if let syn::Item::Macro(m) = it {
            if let Some(n) = &m.ident {
                if let Some(r) = parse_rule(m.mac.tokens.clone()) {
                    rules.insert(n.to_string(), r);
                }
            }
        }
    }
    let mut out = vec![];
    for it in items {
        expand_one(it, &rules, 0, &mut out);
    }
    out
}

fn expand_one(it: syn::Item, rules: &HashMap<String, Rule>, depth: usize, out: &mut Vec<syn::Item>) {
    if let syn::Item::Macro(m) = &it {
        let r = m.mac.path.get_ident().and_then(|n| rules.get(&n.to_string()));
        if let (None, Some(r), true) = (&m.ident, r, depth < 8) {
            let args = split(m.mac.tokens.clone());
            if args.len() == r.params.len() {
                let map = r.params.iter().map(|s| s.as_str()).zip(args).collect();
                if let Ok(f) = syn::parse2::<syn::File>(subst(r.body.clone(), &map)) {
                    for i in f.items {
                        expand_one(i, rules, depth + 1, out);
                    }
                    return;
                }
            }
        }
    }
    out.push(it);
}
