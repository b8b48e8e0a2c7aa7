//! Minimal macro_rules! expander (single pass, nested repetitions, common fragment kinds).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
enum M {
    Tok(TokenTree),
    Group(Delimiter, Vec<M>),
    Var(String, String),
    Rep(Vec<M>, Option<TokenTree>, char),
}
pub struct Arm {
    pat: Vec<M>,
    body: TokenStream,
}
pub type Macro = Vec<Arm>;

#[derive(Clone, Debug)]
enum B {
    One(TokenStream),
    Many(Vec<HashMap<String, B>>),
}

fn parse_pat(ts: TokenStream) -> Vec<M> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Group(g) => {
                    let inner = parse_pat(g.stream());
                    let mut j = i + 2;
                    let mut sep = None;
                    let mut op = '*';
                    if let Some(TokenTree::Punct(p)) = v.get(j) {
                        let c = p.as_char();
                        if (c == '*' || c == '+' || c == '?') && true {
                            op = c;
                        } else {
                            sep = Some(v[j].clone());
                            j += 1;
                            if let Some(TokenTree::Punct(p)) = v.get(j) {
                                op = p.as_char();
                            }
                        }
                    } else if let Some(t) = v.get(j) {
                        sep = Some(t.clone());
                        j += 1;
                        if let Some(TokenTree::Punct(p)) = v.get(j) {
                            op = p.as_char();
                        }
                    }
                    out.push(M::Rep(inner, sep, op));
                    i = j + 1;
                }
                TokenTree::Ident(id) => {
                    let mut frag = "tt".to_string();
                    let mut n = i + 2;
                    if let (Some(TokenTree::Punct(p)), Some(TokenTree::Ident(f))) = (v.get(i + 2), v.get(i + 3)) {
                        if p.as_char() == ':' {
                            frag = f.to_string();
                            n = i + 4;
                        }
                    }
                    out.push(M::Var(id.to_string(), frag));
                    i = n;
                }
                _ => {
                    out.push(M::Tok(v[i].clone()));
                    i += 1;
                }
            },
            TokenTree::Group(g) => {
                out.push(M::Group(g.delimiter(), parse_pat(g.stream())));
                i += 1;
            }
            t => {
                out.push(M::Tok(t.clone()));
                i += 1;
            }
        }
    }
    out
}

pub fn parse_macro(ts: TokenStream) -> Option<Macro> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut arms = vec![];
    let mut i = 0;
    while i < v.len() {
        let pat = match &v[i] {
            TokenTree::Group(g) => parse_pat(g.stream()),
            _ => return None,
        };
        // skip =>
        i += 3;
        let body = match v.get(i) {
            Some(TokenTree::Group(g)) => g.stream(),
            _ => return None,
        };
        arms.push(Arm { pat, body });
        i += 1;
        if let Some(TokenTree::Punct(p)) = v.get(i) {
            if p.as_char() == ';' {
                i += 1;
            }
        }
    }
    Some(arms)
}

fn parse_frag(frag: &str, toks: &[TokenTree]) -> Option<(TokenStream, usize)> {
    if toks.is_empty() && frag != "vis" {
        return None;
    }
    match frag {
        "tt" => return Some((TokenStream::from(toks[0].clone()), 1)),
        "ident" => {
            return match &toks[0] {
                TokenTree::Ident(_) => Some((TokenStream::from(toks[0].clone()), 1)),
                _ => None,
            }
        }
        "literal" => {
            return match &toks[0] {
                TokenTree::Literal(_) => Some((TokenStream::from(toks[0].clone()), 1)),
                TokenTree::Punct(p) if p.as_char() == '-' => Some((toks[..2].iter().cloned().collect(), 2)),
                TokenTree::Ident(_) => Some((TokenStream::from(toks[0].clone()), 1)),
                _ => None,
            }
        }
        _ => {}
    }
    let total = toks.len();
    let ts: TokenStream = toks.iter().cloned().collect();
    let frag = frag.to_string();
    let p = move |input: ParseStream| -> syn::Result<(TokenStream, usize)> {
        let t = match frag.as_str() {
            "expr" => input.parse::<syn::Expr>()?.to_token_stream(),
            "ty" => input.parse::<syn::Type>()?.to_token_stream(),
            "path" => input.parse::<syn::Path>()?.to_token_stream(),
            "pat" => syn::Pat::parse_multi(input)?.to_token_stream(),
            "vis" => input.parse::<syn::Visibility>()?.to_token_stream(),
            "meta" => input.parse::<syn::Meta>()?.to_token_stream(),
            "block" => input.parse::<syn::Block>()?.to_token_stream(),
            "stmt" => input.parse::<syn::Stmt>()?.to_token_stream(),
            "item" => input.parse::<syn::Item>()?.to_token_stream(),
            "lifetime" => input.parse::<syn::Lifetime>()?.to_token_stream(),
            _ => return Err(input.error("frag")),
        };
        let rest: TokenStream = input.parse()?;
        Ok((t, rest.into_iter().count()))
    };
    let is_expr = true;
    let (t, rest) = p.parse2(ts).ok()?;
    let _ = is_expr;
    let t = TokenStream::from(TokenTree::Group(Group::new(Delimiter::None, t)));
    Some((t, total - rest))
}

fn tok_eq(a: &TokenTree, b: &TokenTree) -> bool {
    a.to_string() == b.to_string()
}

fn do_match(pat: &[M], toks: &[TokenTree], binds: &mut HashMap<String, B>) -> Option<usize> {
    let mut p = 0;
    for (mi, m) in pat.iter().enumerate() {
        match m {
            M::Tok(t) => {
                if p < toks.len() && tok_eq(t, &toks[p]) {
                    p += 1;
                } else {
                    return None;
                }
            }
            M::Group(d, inner) => match toks.get(p) {
                Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    let n = do_match(inner, &v, binds)?;
                    if n != v.len() {
                        return None;
                    }
                    p += 1;
                }
                _ => return None,
            },
            M::Var(name, frag) => {
                let (t, n) = parse_frag(frag, &toks[p..])?;
                binds.insert(name.clone(), B::One(t));
                p += n;
            }
            M::Rep(inner, sep, op) => {
                let mut reps = vec![];
                loop {
                    if p >= toks.len() {
                        break;
                    }
                    let mut q = p;
                    if !reps.is_empty() {
                        if let Some(s) = sep {
                            if tok_eq(s, &toks[q]) {
                                q += 1;
                            } else {
                                break;
                            }
                        }
                    }
                    let mut b = HashMap::new();
                    match do_match(inner, &toks[q..], &mut b) {
                        Some(n) if n > 0 => {
                            // ensure the remainder can match too when next token is literal: greedy is fine here
                            p = q + n;
                            reps.push(b);
                        }
                        _ => break,
                    }
                    if *op == '?' {
                        break;
                    }
                }
                let mut names = vec![];
                collect(inner, &mut names);
                for nme in names {
                    binds.insert(nme, B::Many(reps.clone()));
                }
                let _ = mi;
            }
        }
    }
    Some(p)
}

fn collect(ms: &[M], out: &mut Vec<String>) {
    for m in ms {
        match m {
            M::Var(n, _) => out.push(n.clone()),
            M::Group(_, i) => collect(i, out),
            M::Rep(i, _, _) => collect(i, out),
            _ => {}
        }
    }
}

fn subst(body: TokenStream, binds: &HashMap<String, B>) -> TokenStream {
    let v: Vec<TokenTree> = body.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Ident(id) => {
                    if let Some(B::One(t)) = binds.get(&id.to_string()) {
                        out.extend(t.clone());
                    } else if id == "crate" {
                        out.push(v[i + 1].clone());
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let mut j = i + 2;
                    let mut sep = None;
                    if let Some(TokenTree::Punct(p)) = v.get(j) {
                        let c = p.as_char();
                        if !(c == '*' || c == '+' || c == '?') {
                            sep = Some(v[j].clone());
                            j += 1;
                        }
                    }
                    let mut used = vec![];
                    vars_in(g.stream(), &mut used);
                    let mut reps: Option<Vec<HashMap<String, B>>> = None;
                    for u in &used {
                        if let Some(B::Many(r)) = binds.get(u) {
                            reps = Some(r.clone());
                            break;
                        }
                    }
                    for (k, r) in reps.unwrap_or_default().iter().enumerate() {
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.push(s.clone());
                            }
                        }
                        let mut b = binds.clone();
                        for (kk, vv) in r {
                            b.insert(kk.clone(), vv.clone());
                        }
                        out.extend(subst(g.stream(), &b));
                    }
                    i = j + 1;
                }
                _ => {
                    out.push(v[i].clone());
                    i += 1;
                }
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), binds));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    out.into_iter().collect()
}

fn vars_in(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    out.push(id.to_string());
                }
            }
            TokenTree::Group(g) => vars_in(g.stream(), out),
            _ => {}
        }
    }
}

pub fn expand(m: &Macro, args: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = args.into_iter().collect();
    for a in m {
        let mut b = HashMap::new();
        if let Some(n) = do_match(&a.pat, &v, &mut b) {
            if n == v.len() {
                return Some(subst(a.body.clone(), &b));
            }
            // allow a trailing comma
            if n + 1 == v.len() && v[n].to_string() == "," {
                return Some(subst(a.body.clone(), &b));
            }
        }
    }
    None
}
