//! rsfront: parse Rust sources with syn and print a compact JSON syntax tree.
//! usage: rsfront ROOT FILE...      -> one JSON object on stdout
//!        rsfront --expr            -> reads one Rust expression per line on stdin, prints one JSON tree per line
mod macros;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use syn::parse::{ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

type Macros = HashMap<String, macros::Macro>;

struct J<'a> {
    o: String,
    mac: &'a Macros,
    depth: usize,
}

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ts<T: ToTokens>(t: &T) -> String {
    let s = t.to_token_stream().to_string();
    // canonical spacing
    let mut o = String::new();
    for c in s.chars() {
        if !c.is_whitespace() {
            o.push(c);
        } else if o.chars().last().map(|x| x.is_alphanumeric() || x == '_').unwrap_or(false) {
            o.push(' ');
        }
    }
    // drop spaces before punctuation
    let mut r = String::new();
    let cs: Vec<char> = o.chars().collect();
    for i in 0..cs.len() {
        if cs[i] == ' ' {
            let n = cs.get(i + 1).copied().unwrap_or(' ');
            if !(n.is_alphanumeric() || n == '_') {
                continue;
            }
        }
        r.push(cs[i]);
    }
    r
}
fn line<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}

impl<'a> J<'a> {
    fn s(&mut self, s: &str) {
        self.o.push_str(s);
    }
    fn list<T>(&mut self, it: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut Self, T)) {
        self.s("[");
        let mut first = true;
        for x in it {
            if !first {
                self.s(",");
            }
            first = false;
            f(self, x);
        }
        self.s("]");
    }
    fn head(&mut self, k: &str, l: usize) {
        let _ = write!(self.o, "[\"{}\",{}", k, l);
    }
    fn path_segs(&mut self, p: &Path) {
        self.list(p.segments.iter(), |j, s| {
            let t = s.ident.to_string();
            j.s(&q(&t));
        });
    }
    fn path_args(&mut self, p: &Path) {
        self.list(p.segments.iter(), |j, s| match &s.arguments {
            PathArguments::None => j.s("null"),
            a => {
                let t = ts(a);
                j.s(&q(&t));
            }
        });
    }
    fn expr_opt(&mut self, e: Option<&Expr>) {
        match e {
            Some(e) => self.expr(e),
            None => self.s("null"),
        }
    }
    fn block(&mut self, b: &Block, l: usize) {
        self.head("block", l);
        self.s(",");
        self.list(b.stmts.iter(), |j, s| j.stmt(s));
        self.s("]");
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Local(l) => {
                self.head("slet", line(l));
                self.s(",");
                let (pat, ty) = match &l.pat {
                    Pat::Type(pt) => (&*pt.pat, Some(ts(&pt.ty))),
                    p => (p, None),
                };
                self.pat(pat);
                self.s(",");
                match ty {
                    Some(t) => self.s(&q(&t)),
                    None => self.s("null"),
                }
                self.s(",");
                match &l.init {
                    Some(i) => {
                        self.expr(&i.expr);
                        self.s(",");
                        match &i.diverge {
                            Some((_, e)) => self.expr(e),
                            None => self.s("null"),
                        }
                    }
                    None => self.s("null,null"),
                }
                self.s("]");
            }
            Stmt::Item(i) => {
                self.head("sitem", line(i));
                self.s(",");
                self.list([i], |j, i| j.item(i));
                self.s("]");
            }
            Stmt::Expr(e, semi) => {
                self.head("sexpr", line(e));
                self.s(",");
                self.expr(e);
                self.s(if semi.is_some() { ",true]" } else { ",false]" });
            }
            Stmt::Macro(m) => {
                self.head("sexpr", line(m));
                self.s(",");
                self.mac(&m.mac, line(m), true);
                self.s(if m.semi_token.is_some() { ",true]" } else { ",false]" });
            }
        }
    }
    fn mac(&mut self, m: &syn::Macro, l: usize, stmt: bool) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if self.depth < 8 {
            if let Some(def) = self.mac.get(&name) {
                if let Some(out) = macros::expand(def, m.tokens.clone()) {
                    let _ = stmt;
                    // parse as block of statements
                    let braced = TokenStream::from(proc_macro2::TokenTree::Group(proc_macro2::Group::new(
                        proc_macro2::Delimiter::Brace,
                        out,
                    )));
                    if let Ok(b) = syn::parse2::<Block>(braced) {
                        self.depth += 1;
                        self.block(&b, l);
                        self.depth -= 1;
                        return;
                    }
                }
            }
        }
        self.head("macro", l);
        self.s(",");
        self.s(&q(&name));
        self.s(",");
        // matches!(expr, pat if guard)
        if name == "matches" {
            let p = |input: ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                let e: Expr = input.parse()?;
                let _: Token![,] = input.parse()?;
                let p = Pat::parse_multi_with_leading_vert(input)?;
                let g = if input.peek(Token![if]) {
                    let _: Token![if] = input.parse()?;
                    Some(input.parse::<Expr>()?)
                } else {
                    None
                };
                let _: Option<Token![,]> = input.parse()?;
                Ok((e, p, g))
            };
            if let Ok((e, p, g)) = p.parse2(m.tokens.clone()) {
                self.s("[");
                self.expr(&e);
                self.s(",");
                self.pat(&p);
                self.s(",");
                self.expr_opt(g.as_ref());
                self.s("],null]");
                return;
            }
        }
        let parsed = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone());
        match parsed {
            Ok(p) => {
                self.list(p.iter(), |j, e| j.expr(e));
                self.s(",null]");
            }
            Err(_) => {
                let pr = |input: ParseStream| -> Result<(Expr, Expr)> {
                    let e: Expr = input.parse()?;
                    let _: Token![;] = input.parse()?;
                    let n: Expr = input.parse()?;
                    Ok((e, n))
                };
                if let Ok((e, n)) = pr.parse2(m.tokens.clone()) {
                    self.s("[");
                    self.head("repeat", l);
                    self.s(",");
                    self.expr(&e);
                    self.s(",");
                    self.expr(&n);
                    self.s("]],null]");
                    return;
                }
                self.s("null,");
                let t = m.tokens.to_string();
                self.s(&q(&t));
                self.s("]");
            }
        }
    }
    fn expr(&mut self, e: &Expr) {
        let l = line(e);
        match e {
            Expr::Lit(x) => {
                self.head("lit", l);
                match &x.lit {
                    Lit::Int(i) => {
                        let _ = write!(self.o, ",\"int\",{},{}", q(i.base10_digits()), q(i.suffix()));
                    }
                    Lit::Bool(b) => {
                        let _ = write!(self.o, ",\"bool\",{},\"\"", b.value);
                    }
                    Lit::Str(s) => {
                        let _ = write!(self.o, ",\"str\",{},\"\"", q(&s.value()));
                    }
                    Lit::ByteStr(s) => {
                        let h: String = s.value().iter().map(|b| format!("{:02x}", b)).collect();
                        let _ = write!(self.o, ",\"bstr\",{},\"\"", q(&h));
                    }
                    Lit::Byte(b) => {
                        let _ = write!(self.o, ",\"int\",\"{}\",\"u8\"", b.value());
                    }
                    o => {
                        let _ = write!(self.o, ",\"other\",{},\"\"", q(&ts(o)));
                    }
                }
                self.s("]");
            }
            Expr::Path(p) => {
                self.head("path", l);
                self.s(",");
                self.path_segs(&p.path);
                self.s(",");
                self.path_args(&p.path);
                self.s(",");
                match &p.qself {
                    Some(qs) => {
                        let t = ts(&qs.ty);
                        let _ = write!(self.o, "[{},{}]", q(&t), qs.position);
                    }
                    None => self.s("null"),
                }
                self.s("]");
            }
            Expr::Call(c) => {
                self.head("call", l);
                self.s(",");
                self.expr(&c.func);
                self.s(",");
                self.list(c.args.iter(), |j, e| j.expr(e));
                self.s("]");
            }
            Expr::MethodCall(c) => {
                let l = line(&c.method);
                self.head("mcall", l);
                self.s(",");
                self.expr(&c.receiver);
                self.s(",");
                let t = c.method.to_string();
                self.s(&q(&t));
                self.s(",");
                match &c.turbofish {
                    Some(t) => {
                        let t = ts(t);
                        self.s(&q(&t));
                    }
                    None => self.s("null"),
                }
                self.s(",");
                self.list(c.args.iter(), |j, e| j.expr(e));
                self.s("]");
            }
            Expr::Field(f) => {
                self.head("field", l);
                self.s(",");
                self.expr(&f.base);
                self.s(",");
                let t = match &f.member {
                    Member::Named(n) => n.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                };
                self.s(&q(&t));
                self.s("]");
            }
            Expr::Index(i) => {
                self.head("index", l);
                self.s(",");
                self.expr(&i.expr);
                self.s(",");
                self.expr(&i.index);
                self.s("]");
            }
            Expr::Binary(b) => {
                let op = ts(&b.op);
                let assign = op.ends_with('=') && !["==", "<=", ">=", "!="].contains(&op.as_str());
                if assign {
                    self.head("opassign", l);
                    let _ = write!(self.o, ",{},", q(&op[..op.len() - 1]));
                } else {
                    self.head("bin", l);
                    let _ = write!(self.o, ",{},", q(&op));
                }
                self.expr(&b.left);
                self.s(",");
                self.expr(&b.right);
                self.s("]");
            }
            Expr::Unary(u) => {
                self.head("un", l);
                let _ = write!(self.o, ",{},", q(&ts(&u.op)));
                self.expr(&u.expr);
                self.s("]");
            }
            Expr::Reference(r) => {
                self.head("ref", l);
                self.s(if r.mutability.is_some() { ",true," } else { ",false," });
                self.expr(&r.expr);
                self.s("]");
            }
            Expr::Assign(a) => {
                self.head("assign", l);
                self.s(",");
                self.expr(&a.left);
                self.s(",");
                self.expr(&a.right);
                self.s("]");
            }
            Expr::If(i) => {
                self.head("if", l);
                self.s(",");
                self.expr(&i.cond);
                self.s(",");
                self.block(&i.then_branch, l);
                self.s(",");
                self.expr_opt(i.else_branch.as_ref().map(|x| &*x.1));
                self.s("]");
            }
            Expr::Let(le) => {
                self.head("let", l);
                self.s(",");
                self.pat(&le.pat);
                self.s(",");
                self.expr(&le.expr);
                self.s("]");
            }
            Expr::Match(m) => {
                self.head("match", l);
                self.s(",");
                self.expr(&m.expr);
                self.s(",");
                self.list(m.arms.iter().filter(|a| !skip_attrs(&a.attrs)), |j, a| {
                    j.s("[");
                    j.pat(&a.pat);
                    j.s(",");
                    j.expr_opt(a.guard.as_ref().map(|g| &*g.1));
                    j.s(",");
                    j.expr(&a.body);
                    j.s("]");
                });
                self.s("]");
            }
            Expr::Block(b) => self.block(&b.block, l),
            Expr::Unsafe(b) => self.block(&b.block, l),
            Expr::Const(b) => self.block(&b.block, l),
            Expr::Async(b) => self.block(&b.block, l),
            Expr::Paren(p) => self.expr(&p.expr),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::While(w) => {
                self.head("while", l);
                self.s(",");
                self.expr(&w.cond);
                self.s(",");
                self.block(&w.body, l);
                self.s("]");
            }
            Expr::Loop(w) => {
                self.head("loop", l);
                self.s(",");
                self.block(&w.body, l);
                self.s("]");
            }
            Expr::ForLoop(w) => {
                self.head("for", l);
                self.s(",");
                self.pat(&w.pat);
                self.s(",");
                self.expr(&w.expr);
                self.s(",");
                self.block(&w.body, l);
                self.s("]");
            }
            Expr::Return(r) => {
                self.head("ret", l);
                self.s(",");
                self.expr_opt(r.expr.as_deref());
                self.s("]");
            }
            Expr::Break(r) => {
                self.head("brk", l);
                self.s(",");
                self.expr_opt(r.expr.as_deref());
                if let Some(x) = &r.label {
                    self.s(",");
                    self.s(&q(&x.ident.to_string()));
                }
                self.s("]");
            }
            Expr::Continue(r) => {
                self.head("cont", l);
                if let Some(x) = &r.label {
                    self.s(",");
                    self.s(&q(&x.ident.to_string()));
                }
                self.s("]");
            }
            Expr::Try(t) => {
                self.head("try", l);
                self.s(",");
                self.expr(&t.expr);
                self.s("]");
            }
            Expr::Await(t) => self.expr(&t.base),
            Expr::Closure(c) => {
                self.head("closure", l);
                self.s(",");
                self.list(c.inputs.iter(), |j, p| j.pat(p));
                self.s(",");
                self.expr(&c.body);
                self.s("]");
            }
            Expr::Struct(s) => {
                self.head("struct", l);
                self.s(",");
                self.path_segs(&s.path);
                self.s(",");
                self.list(s.fields.iter(), |j, f| {
                    j.s("[");
                    let t = match &f.member {
                        Member::Named(n) => n.to_string(),
                        Member::Unnamed(i) => i.index.to_string(),
                    };
                    j.s(&q(&t));
                    j.s(",");
                    j.expr(&f.expr);
                    j.s("]");
                });
                self.s(",");
                self.expr_opt(s.rest.as_deref());
                self.s("]");
            }
            Expr::Tuple(t) => {
                self.head("tup", l);
                self.s(",");
                self.list(t.elems.iter(), |j, e| j.expr(e));
                self.s("]");
            }
            Expr::Array(t) => {
                self.head("arr", l);
                self.s(",");
                self.list(t.elems.iter(), |j, e| j.expr(e));
                self.s("]");
            }
            Expr::Repeat(r) => {
                self.head("repeat", l);
                self.s(",");
                self.expr(&r.expr);
                self.s(",");
                self.expr(&r.len);
                self.s("]");
            }
            Expr::Range(r) => {
                self.head("range", l);
                self.s(",");
                self.expr_opt(r.start.as_deref());
                self.s(",");
                self.expr_opt(r.end.as_deref());
                self.s(match r.limits {
                    RangeLimits::HalfOpen(_) => ",false]",
                    RangeLimits::Closed(_) => ",true]",
                });
            }
            Expr::Cast(c) => {
                self.head("cast", l);
                self.s(",");
                self.expr(&c.expr);
                self.s(",");
                let t = ts(&c.ty);
                self.s(&q(&t));
                self.s("]");
            }
            Expr::Macro(m) => self.mac(&m.mac, l, false),
            o => {
                self.head("opaque", l);
                self.s(",");
                let t = ts(o);
                self.s(&q(&t));
                self.s("]");
            }
        }
    }
    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Ident(i) => {
                let _ = write!(
                    self.o,
                    "[\"pid\",{},{},{},",
                    q(&i.ident.to_string()),
                    i.by_ref.is_some(),
                    i.mutability.is_some()
                );
                match &i.subpat {
                    Some((_, p)) => self.pat(p),
                    None => self.s("null"),
                }
                self.s("]");
            }
            Pat::Wild(_) => self.s("[\"pwild\"]"),
            Pat::Rest(_) => self.s("[\"prest\"]"),
            Pat::Path(p) => {
                self.s("[\"ppath\",");
                self.path_segs(&p.path);
                self.s("]");
            }
            Pat::TupleStruct(t) => {
                self.s("[\"pts\",");
                self.path_segs(&t.path);
                self.s(",");
                self.list(t.elems.iter(), |j, p| j.pat(p));
                self.s("]");
            }
            Pat::Struct(t) => {
                self.s("[\"pst\",");
                self.path_segs(&t.path);
                self.s(",");
                self.list(t.fields.iter(), |j, f| {
                    j.s("[");
                    let n = match &f.member {
                        Member::Named(n) => n.to_string(),
                        Member::Unnamed(i) => i.index.to_string(),
                    };
                    j.s(&q(&n));
                    j.s(",");
                    j.pat(&f.pat);
                    j.s("]");
                });
                self.s("]");
            }
            Pat::Tuple(t) => {
                self.s("[\"ptup\",");
                self.list(t.elems.iter(), |j, p| j.pat(p));
                self.s("]");
            }
            Pat::Slice(t) => {
                self.s("[\"pslice\",");
                self.list(t.elems.iter(), |j, p| j.pat(p));
                self.s("]");
            }
            Pat::Lit(l) => {
                self.s("[\"plit\",");
                self.expr(&Expr::Lit(l.clone()));
                self.s("]");
            }
            Pat::Range(r) => {
                self.s("[\"prange\",");
                self.expr_opt(r.start.as_deref());
                self.s(",");
                self.expr_opt(r.end.as_deref());
                self.s(match r.limits {
                    RangeLimits::HalfOpen(_) => ",false]",
                    RangeLimits::Closed(_) => ",true]",
                });
            }
            Pat::Or(o) => {
                self.s("[\"por\",");
                self.list(o.cases.iter(), |j, p| j.pat(p));
                self.s("]");
            }
            Pat::Reference(r) => self.pat(&r.pat),
            Pat::Paren(r) => self.pat(&r.pat),
            Pat::Type(t) => {
                self.s("[\"ptype\",");
                self.pat(&t.pat);
                self.s(",");
                let s = ts(&t.ty);
                self.s(&q(&s));
                self.s("]");
            }
            o => {
                let t = ts(o);
                let _ = write!(self.o, "[\"popaque\",{}]", q(&t));
            }
        }
    }
    fn attrs(&mut self, a: &[Attribute]) {
        self.list(a.iter().filter(|a| !a.path().is_ident("doc")), |j, a| {
            let t = ts(&a.meta);
            j.s(&q(&t));
        });
    }
    fn func(&mut self, l: usize, attrs: &[Attribute], vis: Option<&Visibility>, sig: &Signature, body: Option<&Block>) {
        self.head("fn", l);
        self.s(",");
        self.s(&q(&sig.ident.to_string()));
        self.s(",");
        self.attrs(attrs);
        self.s(",");
        self.s(&q(&vis.map(ts).unwrap_or_default()));
        self.s(",");
        self.list(sig.inputs.iter(), |j, a| match a {
            FnArg::Receiver(r) => {
                let t = ts(r);
                let _ = write!(j.o, "[[\"pid\",\"self\",false,false,null],{}]", q(&t));
            }
            FnArg::Typed(t) => {
                j.s("[");
                j.pat(&t.pat);
                j.s(",");
                let s = ts(&t.ty);
                j.s(&q(&s));
                j.s("]");
            }
        });
        self.s(",");
        match &sig.output {
            ReturnType::Default => self.s("null"),
            ReturnType::Type(_, t) => {
                let t = ts(t);
                self.s(&q(&t));
            }
        }
        self.s(",");
        match body {
            Some(b) => self.block(b, l),
            None => self.s("null"),
        }
        self.s(",");
        let g = format!("{} {}", ts(&sig.generics), sig.generics.where_clause.as_ref().map(|w| ts(w)).unwrap_or_default());
        self.s(&q(&g));
        self.s("]");
    }
    fn fields(&mut self, f: &Fields) {
        let mut i = 0;
        self.list(f.iter(), |j, f| {
            let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_else(|| i.to_string());
            i += 1;
            let _ = write!(j.o, "[{},{},", q(&n), q(&ts(&f.ty)));
            j.attrs(&f.attrs);
            j.s("]");
        });
    }
    fn item(&mut self, i: &Item) {
        let l = line(i);
        match i {
            Item::Fn(f) => self.func(l, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block)),
            Item::Impl(im) => {
                self.head("impl", l);
                self.s(",");
                self.s(&q(&ts(&im.self_ty)));
                self.s(",");
                match &im.trait_ {
                    Some((_, p, _)) => {
                        let t = ts(p);
                        self.s(&q(&t));
                    }
                    None => self.s("null"),
                }
                self.s(",");
                self.attrs(&im.attrs);
                self.s(",");
                self.list(
                    im.items.iter().filter(|x| {
                        !skip_attrs(match x {
                            ImplItem::Fn(f) => &f.attrs,
                            ImplItem::Const(f) => &f.attrs,
                            ImplItem::Type(f) => &f.attrs,
                            _ => return true,
                        })
                    }),
                    |j, x| match x {
                        ImplItem::Fn(f) => j.func(line(f), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block)),
                        ImplItem::Const(c) => {
                            j.head("const", line(c));
                            let _ = write!(j.o, ",{},{},", q(&c.ident.to_string()), q(&ts(&c.ty)));
                            j.expr(&c.expr);
                            j.s("]");
                        }
                        ImplItem::Type(t) => {
                            j.head("type", line(t));
                            let _ = write!(j.o, ",{},{},", q(&t.ident.to_string()), q(&ts(&t.ty)));
                            j.attrs(&t.attrs);
                            j.s("]");
                        }
                        o => {
                            j.head("other", line(o));
                            let t = ts(o);
                            let _ = write!(j.o, ",{}]", q(&t));
                        }
                    },
                );
                self.s("]");
            }
            Item::Trait(t) => {
                self.head("trait", l);
                let _ = write!(self.o, ",{},", q(&t.ident.to_string()));
                self.attrs(&t.attrs);
                self.s(",");
                self.list(t.items.iter(), |j, x| match x {
                    TraitItem::Fn(f) => j.func(line(f), &f.attrs, None, &f.sig, f.default.as_ref()),
                    TraitItem::Const(c) => {
                        j.head("const", line(c));
                        let _ = write!(j.o, ",{},{},", q(&c.ident.to_string()), q(&ts(&c.ty)));
                        j.expr_opt(c.default.as_ref().map(|x| &x.1));
                        j.s("]");
                    }
                    o => {
                        j.head("other", line(o));
                        let t = ts(o);
                        let _ = write!(j.o, ",{}]", q(&t));
                    }
                });
                let _ = write!(self.o, ",{}]", q(&ts(&t.supertraits)));
            }
            Item::Mod(m) => {
                self.head("mod", l);
                let _ = write!(self.o, ",{},", q(&m.ident.to_string()));
                self.attrs(&m.attrs);
                self.s(",");
                match &m.content {
                    Some((_, items)) => self.items(items),
                    None => self.s("null"),
                }
                self.s("]");
            }
            Item::Struct(s) => {
                self.head("structdef", l);
                let _ = write!(self.o, ",{},", q(&s.ident.to_string()));
                self.attrs(&s.attrs);
                self.s(",");
                self.fields(&s.fields);
                self.s("]");
            }
            Item::Enum(s) => {
                self.head("enumdef", l);
                let _ = write!(self.o, ",{},", q(&s.ident.to_string()));
                self.attrs(&s.attrs);
                self.s(",");
                self.list(s.variants.iter().filter(|v| !skip_attrs(&v.attrs)), |j, v| {
                    let _ = write!(j.o, "[{},", q(&v.ident.to_string()));
                    j.fields(&v.fields);
                    j.s(",");
                    j.expr_opt(v.discriminant.as_ref().map(|d| &d.1));
                    j.s(",");
                    j.attrs(&v.attrs);
                    j.s("]");
                });
                self.s("]");
            }
            Item::Const(c) => {
                self.head("const", l);
                let _ = write!(self.o, ",{},{},", q(&c.ident.to_string()), q(&ts(&c.ty)));
                self.expr(&c.expr);
                self.s("]");
            }
            Item::Static(c) => {
                self.head("const", l);
                let _ = write!(self.o, ",{},{},", q(&c.ident.to_string()), q(&ts(&c.ty)));
                self.expr(&c.expr);
                self.s("]");
            }
            Item::Type(t) => {
                self.head("type", l);
                let _ = write!(self.o, ",{},{},", q(&t.ident.to_string()), q(&ts(&t.ty)));
                self.attrs(&t.attrs);
                self.s("]");
            }
            Item::Use(u) => {
                self.head("use", l);
                let mut v = vec![];
                flat_use(&u.tree, vec![], &mut v);
                self.s(",");
                self.list(v.iter(), |j, (p, n)| {
                    j.s("[");
                    j.list(p.iter(), |j, s| j.s(&q(s)));
                    let _ = write!(j.o, ",{}]", q(n));
                });
                let _ = write!(self.o, ",{}]", q(&ts(&u.vis)));
            }
            Item::Macro(m) => {
                let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if self.depth < 8 {
                    if let Some(def) = self.mac.get(&name) {
                        if let Some(out) = macros::expand(def, m.mac.tokens.clone()) {
                            if let Ok(f) = syn::parse2::<File>(out) {
                                self.depth += 1;
                                self.head("items", l);
                                self.s(",");
                                self.items(&f.items);
                                self.s("]");
                                self.depth -= 1;
                                return;
                            }
                        }
                    }
                }
                if name == "impl_runtime_apis" {
                    if let Ok(f) = syn::parse2::<File>(m.mac.tokens.clone()) {
                        self.head("items", l);
                        self.s(",");
                        self.items(&f.items);
                        self.s("]");
                        return;
                    }
                }
                // parameter_types! / other item macros whose body is a list of items
                if name == "parameter_types" || name == "parameter_type_with_key" || name == "ord_parameter_types" {
                    self.head("paramtypes", l);
                    let t = m.mac.tokens.to_string();
                    let p = |input: ParseStream| -> Result<Vec<(String, String, Expr)>> {
                        let mut v = vec![];
                        while !input.is_empty() {
                            let _ = input.call(Attribute::parse_outer)?;
                            let _: Visibility = input.parse()?;
                            if input.peek(Token![const]) {
                                let _: Token![const] = input.parse()?;
                            } else {
                                let _: Option<Token![static]> = input.parse()?;
                                let fork = input.fork();
                                if fork.parse::<Ident>().map(|i| i == "storage").unwrap_or(false) && fork.peek(Ident) {
                                    let _: Ident = input.parse()?;
                                }
                            }
                            let id: Ident = input.parse()?;
                            let _: Token![:] = input.parse()?;
                            let ty: Type = input.parse()?;
                            let _: Token![=] = input.parse()?;
                            let e: Expr = input.parse()?;
                            let _: Option<Token![;]> = input.parse()?;
                            v.push((id.to_string(), ts(&ty), e));
                        }
                        Ok(v)
                    };
                    match p.parse2(m.mac.tokens.clone()) {
                        Ok(v) => {
                            self.s(",");
                            self.list(v.iter(), |j, (n, t, e)| {
                                j.head("const", l);
                                let _ = write!(j.o, ",{},{},", q(n), q(t));
                                j.expr(e);
                                j.s("]");
                            });
                        }
                        Err(_) => self.s(",null"),
                    }
                    let _ = write!(self.o, ",{}]", q(&t));
                    return;
                }
                self.head("macroitem", l);
                let t = m.mac.tokens.to_string();
                let _ = write!(
                    self.o,
                    ",{},{},{}]",
                    q(&name),
                    q(&m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()),
                    q(&t)
                );
            }
            o => {
                self.head("other", l);
                let t = ts(o);
                let _ = write!(self.o, ",{}]", q(&t));
            }
        }
    }
    fn items(&mut self, items: &[Item]) {
        let v: Vec<&Item> = items.iter().filter(|i| !skip_attrs(item_attrs(i))).collect();
        self.list(v, |j, i| j.item(i));
    }
}

fn flat_use(t: &UseTree, mut pre: Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flat_use(&p.tree, pre, out)
        }
        UseTree::Name(n) => {
            let name = n.ident.to_string();
            if name == "self" {
                let l = pre.last().cloned().unwrap_or_default();
                out.push((pre, l));
            } else {
                pre.push(name.clone());
                out.push((pre, name));
            }
        }
        UseTree::Rename(r) => {
            if r.ident != "self" {
                pre.push(r.ident.to_string());
            }
            out.push((pre, r.rename.to_string()));
        }
        UseTree::Glob(_) => {
            out.push((pre, "*".into()));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                flat_use(t, pre.clone(), out);
            }
        }
    }
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}

/// cfg(test), cfg(feature = "runtime-benchmarks"), try-runtime and the like never reach the production runtime.
fn skip_attrs(a: &[Attribute]) -> bool {
    for x in a {
        if x.path().is_ident("cfg") {
            let t = ts(&x.meta);
            let inner = t.trim_start_matches("cfg(").to_string();
            if inner.starts_with("test")
                || inner.starts_with("feature=\"runtime-benchmarks\"")
                || inner.starts_with("feature=\"try-runtime\"")
                || inner.starts_with("feature=\"testing-utils\"")
                || inner.starts_with("feature=\"integration-tests\"")
                || inner.starts_with("any(test")
                || inner.starts_with("all(test")
                || inner.starts_with("any(feature=\"testing-constants\",test")
                || inner.starts_with("any(feature=\"runtime-benchmarks\"")
                || inner.starts_with("all(feature=\"runtime-benchmarks\"")
            {
                return true;
            }
        }
        if x.path().is_ident("test") {
            return true;
        }
    }
    false
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let out = std::io::stdout();
    let mut out = out.lock();
    if args.first().map(|s| s == "--expr").unwrap_or(false) {
        let m = Macros::new();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let mut j = J { o: String::new(), mac: &m, depth: 0 };
            match syn::parse_str::<Expr>(&l) {
                Ok(e) => {
                    j.expr(&e);
                    writeln!(out, "{}", j.o).unwrap();
                }
                Err(e) => writeln!(out, "[\"error\",0,{}]", q(&e.to_string())).unwrap(),
            }
        }
        return;
    }
    let root = &args[0];
    // group files by crate dir (longest prefix ending before /src/)
    let mut macs: HashMap<String, Macros> = HashMap::new();
    let mut files = vec![];
    for f in &args[1..] {
        let p = format!("{}/{}", root, f);
        let txt = match std::fs::read_to_string(&p) {
            Ok(t) => t,
            Err(e) => {
                files.push((f.clone(), Err(e.to_string())));
                continue;
            }
        };
        match syn::parse_file(&txt) {
            Ok(a) => {
                let key = f.split("/src/").next().unwrap_or("").to_string();
                let e = macs.entry(key).or_default();
                collect_macros(&a.items, e);
                files.push((f.clone(), Ok(a)));
            }
            Err(e) => files.push((f.clone(), Err(e.to_string()))),
        }
    }
    let empty = Macros::new();
    write!(out, "{{").unwrap();
    for (i, (f, a)) in files.iter().enumerate() {
        if i > 0 {
            write!(out, ",\n").unwrap();
        }
        let key = f.split("/src/").next().unwrap_or("").to_string();
        let mut j = J { o: String::new(), mac: macs.get(&key).unwrap_or(&empty), depth: 0 };
        match a {
            Ok(a) => {
                j.items(&a.items);
            }
            Err(e) => {
                j.o = format!("{{\"error\":{}}}", q(e));
            }
        }
        write!(out, "{}:{}", q(f), j.o).unwrap();
    }
    writeln!(out, "}}").unwrap();
}

fn collect_macros(items: &[Item], out: &mut Macros) {
    for i in items {
        match i {
            Item::Macro(m) => {
                if let Some(id) = &m.ident {
                    if m.mac.path.is_ident("macro_rules") {
                        if let Some(d) = macros::parse_macro(m.mac.tokens.clone()) {
                            out.insert(id.to_string(), d);
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, it)) = &m.content {
                    collect_macros(it, out);
                }
            }
            _ => {}
        }
    }
}
