//! vx: mechanical extraction of functions of /repo for the deductive verifier.
//!
//! stdin: {"root": "/repo", "items": [{"file": "src/lib.rs", "path": "parse_vlq_int"}, ...]}
//! stdout: {"<file>::<path>": {"ret": .., "head": .., "body": .., "loops": n, "lets": [..], "calls": [..]}, ...}
//!
//! What the extraction changes is listed in DESIGN.md ("What the extraction drops"); every rule is
//! applied here, by syntax, to whatever the source says on this run.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{ToTokens, quote};
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod inline;

struct Tr {
    /// ident -> nom module it is imported from (explicit or glob)
    nom: HashMap<String, String>,
    bytes: HashMap<String, Vec<u8>>,
    loops: usize,
    lets: Vec<String>,
    calls: BTreeSet<String>,
    notes: BTreeSet<String>,
    fmt: bool,
    /// the second rule set (std collections, closures, floats), used by the state machine units
    std: bool,
    /// iterator chains of any length (and rayon's) become loops, prints are dropped
    pipe: bool,
    f32s: BTreeSet<String>,
    maps: BTreeSet<String>,
    /// names that own their value: by-value parameters, and what is taken out of them
    owned: BTreeSet<String>,
}
fn ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}
fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn path_of(e: &Expr) -> Option<&Path> {
    match e {
        Expr::Path(p) => Some(&p.path),
        Expr::Paren(p) => path_of(&p.expr),
        _ => None,
    }
}
fn is_tracing(p: &Path) -> bool {
    p.segments.first().is_some_and(|s| s.ident == "tracing")
}
fn toks(e: &impl ToTokens) -> String {
    e.to_token_stream().to_string()
}
impl Tr {
    /// where a nom combinator named `n` comes from, if it is one
    fn nom_fn(&self, p: &Path) -> Option<String> {
        let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if full[0] == "nom" {
            let m = full[1..full.len() - 1].join("_");
            return Some(format!("{}_{}", m, full[full.len() - 1]).replace("number_complete", "number").replace("bytes_complete", "bytes").replace("bits_complete", "bits"));
        }
        if full.len() == 1 {
            if let Some(m) = self.nom.get(&full[0]) {
                return Some(format!("{m}_{}", full[0]));
            }
        }
        None
    }
    fn byte_lit(&self, e: &Expr) -> Option<Vec<u8>> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value()),
            Expr::Reference(r) => self.byte_lit(&r.expr),
            Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => self.byte_lit(&i.expr),
            Expr::Paren(p) => self.byte_lit(&p.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.byte_lit(&u.expr),
            Expr::Array(a) => a
                .elems
                .iter()
                .map(|x| match x {
                    Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<u8>().ok(),
                    Expr::Lit(ExprLit { lit: Lit::Byte(i), .. }) => Some(i.value()),
                    _ => None,
                })
                .collect(),
            Expr::Path(p) => self.bytes.get(&last(&p.path)).cloned(),
            _ => None,
        }
    }
    fn call(&mut self, c: &ExprCall) -> Option<Expr> {
        // dbg_peek_hex(F, ctx)(ARGS) / dbg_peek_bits / dbg_dmp  ==>  F(ARGS)
        if let Expr::Call(inner) = &*c.func
            && let Some(p) = path_of(&inner.func)
            && ["dbg_peek_hex", "dbg_peek_bits", "dbg_dmp"].contains(&last(p).as_str())
            && inner.args.len() == 2
        {
            let f = inner.args[0].clone();
            let args = &c.args;
            let e: ExprCall = parse_quote!((#f)(#args));
            let mut e = e;
            if let Expr::Paren(p) = &*e.func {
                e.func = p.expr.clone();
            }
            let mut ex = Expr::Call(e);
            self.expr(&mut ex);
            return Some(ex);
        }
        // curried nom combinators: f(a)(b) ==> nom_f(a, b)
        if let Expr::Call(inner) = &*c.func
            && let Some(p) = path_of(&inner.func)
            && let Some(n) = self.nom_fn(p)
        {
            let a = &inner.args;
            let b = &c.args;
            if n == "bytes_tag" {
                let bs = self.byte_lit(&a[0])?;
                let f = ident(&format!("nom_tag{}", bs.len()));
                return Some(parse_quote!(#f(#(#bs),*, #b)));
            }
            if n.starts_with("number_") {
                let e = path_of(&a[0])?;
                let endian = match last(e).as_str() {
                    "Big" => "be",
                    "Little" => "le",
                    _ => return None,
                };
                let f = ident(&format!("nom_{endian}_{}", last(p)));
                return Some(parse_quote!(#f(#b)));
            }
            if n == "bytes_take_while" {
                let Expr::Closure(cl) = &a[0] else { return None };
                let arg = toks(&cl.inputs);
                let body = toks(&cl.body).replace(' ', "");
                let f = if body == format!("{arg}==0u8") || body == format!("{arg}==0") {
                    "nom_take_while_zero"
                } else if body == format!("{arg}!=0u8") || body == format!("{arg}!=0") {
                    "nom_take_while_nonzero"
                } else {
                    return None;
                };
                let f = ident(f);
                return Some(parse_quote!(#f(#b)));
            }
            let f = ident(&format!("nom_{n}"));
            // a count of any unsigned type (nom's ToUsize)
            if n == "bytes_take" && a.len() == 1 && !matches!(a[0], Expr::Lit(_)) {
                return Some(parse_quote!(#f((#a) as usize, #b)));
            }
            return Some(parse_quote!(#f(#a, #b)));
        }
        // uncurried number parsers: u8(x)
        if let Some(p) = path_of(&c.func)
            && let Some(n) = self.nom_fn(p)
            && n.starts_with("number_")
            && c.args.len() == 1
        {
            let a = &c.args;
            let f = ident(&format!("nom_be_{}", last(p)));
            if !toks(a).contains("Endianness") {
                return Some(parse_quote!(#f(#a)));
            }
        }
        if let Some(p) = path_of(&c.func) {
            let s = toks(p).replace(' ', "");
            if s == "String::from" && matches!(&c.args[0], Expr::Lit(_)) && !self.fmt {
                return Some(parse_quote!(vx_string()));
            }
            if s.starts_with("std::mem::size_of") || s.starts_with("core::mem::size_of") {
                return Some(parse_quote!(vx_size_of()));
            }
        }
        None
    }
    fn expr(&mut self, e: &mut Expr) {
        if self.std {
            if let Some(n) = self.std_pre(e) {
                *e = n;
            }
            visit_mut::visit_expr_mut(self, e);
            if let Some(n) = self.std_post(e) {
                *e = n;
                return;
            }
        } else {
            // bottom-up
            visit_mut::visit_expr_mut(self, e);
        }
        match e {
            Expr::Call(c) => {
                if let Some(n) = self.call(c) {
                    *e = n;
                }
                if let Expr::Call(c) = e
                    && let Some(p) = path_of(&c.func)
                {
                    self.calls.insert(toks(p).replace(' ', ""));
                }
            }
            Expr::MethodCall(m) => {
                if m.method == "to_string" && matches!(&*m.receiver, Expr::Lit(_)) && !self.fmt {
                    *e = parse_quote!(vx_string());
                    return;
                }
                self.calls.insert(format!(".{}", m.method));
            }
            Expr::Macro(m) => {
                let n = last(&m.mac.path);
                if n == "ok_or_return_missing_field_err" {
                    let t = &m.mac.tokens;
                    *e = parse_quote!(match #t { Some(v) => v, None => { return Err(S2ProtocolError::MissingField(vx_string())); } });
                } else if n == "format" && !self.fmt || n == "stringify" {
                    *e = parse_quote!(vx_string());
                } else if n == "format" {
                    // format!("literal {}..", args) ==> vx_fmt_k("literal", args)
                    let args: punctuated::Punctuated<Expr, Token![,]> =
                        m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap();
                    if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.first()
                        && let Some(name) = l.value().strip_prefix('{').and_then(|x| x.strip_suffix(":02x}")).map(str::to_string)
                        && args.len() == if name.is_empty() { 2 } else { 1 }
                    {
                        let x: Expr = if name.is_empty() { args[1].clone() } else { let id = ident(&name); parse_quote!(#id) };
                        *e = parse_quote!(vx_hex02(#x));
                    } else if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.first() {
                        let mut lit = l.value();
                        let mut rest: Vec<Expr> = args.iter().skip(1).cloned().collect();
                        // inline captures at the end of a placeholder list
                        let mut out = String::new();
                        let mut it = 0;
                        while let Some(a) = lit.find('{') {
                            let b = lit[a..].find('}').unwrap() + a;
                            let name = lit[a + 1..b].to_string();
                            out.push_str(&lit[..a]);
                            out.push_str("{}");
                            if !name.is_empty() && !name.starts_with(':') {
                                let id = ident(&name);
                                rest.insert(it, parse_quote!(#id));
                            }
                            it += 1;
                            lit = lit[b + 1..].to_string();
                        }
                        out.push_str(&lit);
                        let key: String = out.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("_{:02x}", c as u32) }).collect();
                        let f = ident(&format!("vx_fmt_{key}"));
                        for a in rest.iter_mut() {
                            self.expr(a);
                        }
                        *e = parse_quote!(#f(#(vx_str(&#rest)),*));
                    }
                } else if is_tracing(&m.mac.path) {
                    *e = parse_quote!(());
                }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = Some(match b.op {
                    BinOp::AddAssign(_) => parse_quote!(+),
                    BinOp::SubAssign(_) => parse_quote!(-),
                    BinOp::MulAssign(_) => parse_quote!(*),
                    BinOp::DivAssign(_) => parse_quote!(/),
                    BinOp::RemAssign(_) => parse_quote!(%),
                    BinOp::BitOrAssign(_) => parse_quote!(|),
                    BinOp::BitAndAssign(_) => parse_quote!(&),
                    BinOp::BitXorAssign(_) => parse_quote!(^),
                    BinOp::ShlAssign(_) => parse_quote!(<<),
                    BinOp::ShrAssign(_) => parse_quote!(>>),
                    _ => return,
                });
                let (l, r) = (&b.left, &b.right);
                // a place that a call gives is taken once
                if let Expr::Unary(u) = &**l
                    && matches!(u.op, UnOp::Deref(_))
                    && self.pipe
                    && matches!(*u.expr, Expr::MethodCall(_))
                {
                    let x = &u.expr;
                    *e = parse_quote!({ let vx_p = #x; *vx_p = *vx_p #op (#r); });
                    return;
                }
                if self.std
                    && let Some(f) = fop(&op.unwrap())
                    && (self.is_f32(l) || self.is_f32(r))
                {
                    *e = parse_quote!(#l = #f(#l, #r));
                    return;
                }
                *e = parse_quote!(#l = #l #op (#r));
            }
            Expr::While(w) => {
                let n = self.loops;
                // numbered innermost-first by the bottom-up walk; renumbered by `renumber`
                self.loops += 1;
                mark(&mut w.body, n);
                if has_let_chain(&w.cond) {
                    // while A && let P = e {B}  ==> loop { if A { if let P = e { B } else {break} } else {break} }
                    let conds = chain(&w.cond);
                    let mut body = w.body.clone();
                    body.stmts.remove(0);
                    let mut acc: Block = body;
                    for c in conds.into_iter().rev() {
                        acc = parse_quote!({ if #c #acc else { break; } });
                    }
                    let inv = mk_inv(n);
                    acc.stmts.insert(0, inv);
                    *e = parse_quote!(loop #acc);
                }
            }
            Expr::Loop(l) => {
                let n = self.loops;
                self.loops += 1;
                // loop { if C { break; } B }  ==> while !(C) { B }
                let lead = match l.body.stmts.first() {
                    Some(Stmt::Expr(Expr::If(i), _)) if l.label.is_none() && i.else_branch.is_none() && !matches!(*i.cond, Expr::Let(_)) && !has_let_chain(&i.cond) => match i.then_branch.stmts.as_slice() {
                        [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none() => Some(i.cond.clone()),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(c) = lead {
                    let mut body = l.body.clone();
                    body.stmts.remove(0);
                    mark(&mut body, n);
                    *e = parse_quote!(while !(#c) #body);
                } else {
                    mark(&mut l.body, n);
                }
            }
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                let pat = &f.pat;
                let i = ident(&format!("vx_i{n}"));
                let end = ident(&format!("vx_n{n}"));
                let mut body = f.body.clone();
                let inv = mk_inv(n);
                let (ls, le) = (mk_mark("ls", n), mk_mark("le", n));
                // strip parens
                let mut it = (*f.expr).clone();
                while let Expr::Paren(p) = it {
                    it = *p.expr;
                }
                if let Expr::Range(r) = &it
                    && let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits)
                {
                    let bind: Stmt = if matches!(**pat, Pat::Wild(_)) { parse_quote!(#i = #i + 1;) } else { parse_quote!(let #pat = #i;) };
                    let mut stmts = vec![inv, ls, bind.clone()];
                    if !matches!(**pat, Pat::Wild(_)) {
                        stmts.push(parse_quote!(#i = #i + 1;));
                    }
                    stmts.append(&mut body.stmts);
                    stmts.push(le);
                    body.stmts = stmts;
                    *e = parse_quote!({ let #end = #b; let mut #i = #a; while #i < #end #body });
                } else if let Expr::MethodCall(m) = &it
                    && m.method == "chunks_exact"
                    && m.args.len() == 1
                {
                    let v = ident(&format!("vx_v{n}"));
                    let (recv, size) = (&m.receiver, &m.args[0]);
                    let mut stmts = vec![inv, ls];
                    stmts.push(parse_quote!(let #pat = vx_chunk(#v, #i, #end);));
                    stmts.push(parse_quote!(#i = #i + #end;));
                    stmts.append(&mut body.stmts);
                    stmts.push(le);
                    body.stmts = stmts;
                    *e = parse_quote!({ let #v = &#recv; let #end: usize = #size; let mut #i: usize = 0; while #v.len() - #i >= #end #body });
                } else if let Expr::Call(c) = &it
                    && path_of(&c.func).is_some_and(|p| last(p) == "vx_owned")
                {
                    let v = ident(&format!("vx_v{n}"));
                    let x = &c.args[0];
                    let mut stmts = vec![inv, ls];
                    stmts.push(parse_quote!(let #pat = vx_nth(&#v, #i);));
                    stmts.push(parse_quote!(#i = #i + 1;));
                    stmts.append(&mut body.stmts);
                    stmts.push(le);
                    body.stmts = stmts;
                    *e = parse_quote!({ let #v = #x; let #end = #v.len(); let mut #i: usize = 0; while #i < #end #body });
                } else if let Some(en) = mc(&it, "enumerate", 0)
                    && let Some((seq, false)) = iter_source(&en.receiver)
                    && let Pat::Tuple(t) = &**pat
                    && t.elems.len() == 2
                {
                    let v = ident(&format!("vx_v{n}"));
                    let (ip, xp) = (&t.elems[0], &t.elems[1]);
                    let mut stmts = vec![inv, ls];
                    stmts.push(parse_quote!(let #ip = #i;));
                    stmts.push(parse_quote!(let #xp = &#v[#i];));
                    stmts.push(parse_quote!(#i = #i + 1;));
                    stmts.append(&mut body.stmts);
                    stmts.push(le);
                    body.stmts = stmts;
                    *e = parse_quote!({ let #v = &#seq; let #end = #v.len(); let mut #i: usize = 0; while #i < #end #body });
                } else if let Some((seq, by_mut)) = iter_source(&it) {
                    let v = ident(&format!("vx_v{n}"));
                    let bind: Stmt = if by_mut { parse_quote!(let #pat = &mut #v[#i];) } else { parse_quote!(let #pat = &#v[#i];) };
                    let mut stmts = vec![inv, ls];
                    if by_mut {
                        // the element borrow ends before the index moves on
                        let cur = ident(&format!("vx_c{n}"));
                        stmts.push(parse_quote!(let #cur = #i;));
                        stmts.push(parse_quote!(#i = #i + 1;));
                        stmts.push(parse_quote!(let #pat = &mut #v[#cur];));
                    } else {
                        stmts.push(bind);
                        stmts.push(parse_quote!(#i = #i + 1;));
                    }
                    stmts.append(&mut body.stmts);
                    stmts.push(le);
                    body.stmts = stmts;
                    let r: Expr = if by_mut { parse_quote!(&mut #seq) } else { parse_quote!(&#seq) };
                    *e = parse_quote!({ let #v = #r; let #end = #v.len(); let mut #i: usize = 0; while #i < #end #body });
                } else {
                    mark(&mut f.body, n);
                    self.notes.insert("iterator-loop".into());
                }
            }
            Expr::If(f) => {
                if has_let_chain(&f.cond) {
                    let conds = chain(&f.cond);
                    let els = f.else_branch.as_ref().map(|x| x.1.clone());
                    let mut acc: Block = f.then_branch.clone();
                    for c in conds.into_iter().rev() {
                        acc = match &els {
                            Some(x) => parse_quote!({ if #c #acc else #x }),
                            None => parse_quote!({ if #c #acc }),
                        };
                        if let Some(x) = &els
                            && !matches!(**x, Expr::Block(_) | Expr::If(_))
                        {
                            self.notes.insert("else".into());
                        }
                    }
                    *e = match acc.stmts.pop().unwrap() {
                        Stmt::Expr(x, _) => x,
                        _ => unreachable!(),
                    };
                }
            }
            _ => {}
        }
    }
}
fn fop(op: &BinOp) -> Option<Ident> {
    Some(ident(match op {
        BinOp::Add(_) => "vx_fadd",
        BinOp::Sub(_) => "vx_fsub",
        BinOp::Mul(_) => "vx_fmul",
        BinOp::Div(_) => "vx_fdiv",
        _ => return None,
    }))
}
/// method call with the given name and number of arguments
fn mc<'a>(e: &'a Expr, name: &str, n: usize) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name && m.args.len() == n => Some(m),
        Expr::Paren(p) => mc(&p.expr, name, n),
        _ => None,
    }
}
fn closure(e: &Expr, n: usize) -> Option<&ExprClosure> {
    any_closure(e, n).filter(|c| !has_exit(&c.body))
}
fn any_closure(e: &Expr, n: usize) -> Option<&ExprClosure> {
    match e {
        Expr::Closure(c) if c.inputs.len() == n => Some(c),
        _ => None,
    }
}
fn is_map(t: &Type) -> bool {
    matches!(t, Type::Path(p) if last(&p.path) == "HashMap")
}
fn is_self(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident("self"))
}
/// the body of a closure as an expression without exits
fn straight(e: &Expr, option: bool) -> Option<Expr> {
    let mut b: Block = parse_quote!({ #e });
    if let Expr::Block(x) = e {
        b = x.block.clone();
    }
    inline::straighten(&mut b, option);
    let e: Expr = parse_quote!(#b);
    if has_exit(&e) { None } else { Some(e) }
}
/// the body of an Option-returning closure as an expression: `let P = E?;` becomes a match
fn opt_body(e: &Expr) -> Option<Expr> {
    let Expr::Block(b) = e else { return if has_exit(e) { None } else { Some(e.clone()) } };
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in b.block.stmts.iter().enumerate() {
        if let Stmt::Local(l) = s
            && let Some(init) = &l.init
            && init.diverge.is_none()
            && let Expr::Try(t) = &*init.expr
            && !has_exit(&t.expr)
        {
            let rest = &b.block.stmts[i + 1..];
            let rest = opt_body(&parse_quote!({ #(#rest)* }))?;
            let (p, x) = (&l.pat, &t.expr);
            out.push(Stmt::Expr(parse_quote!(match #x { Some(#p) => #rest, None => None }), None));
            return Some(parse_quote!({ #(#out)* }));
        }
        let probe: Expr = parse_quote!({ #s });
        if has_exit(&probe) {
            return None;
        }
        out.push(s.clone());
    }
    Some(parse_quote!({ #(#out)* }))
}
/// A chain over a vector (or rayon's, taken in order) that ends in collect, sum or count, as a loop.
/// An early exit of a closure goes on with the next element.
fn pipeline(e: &Expr) -> Option<Expr> {
    let m = match e {
        Expr::MethodCall(m) if m.args.is_empty() => m,
        _ => return None,
    };
    let sink = m.method.to_string();
    let generic = m.turbofish.as_ref().map(|t| toks(t).replace(' ', "")).unwrap_or_default();
    if !match sink.as_str() {
        "collect" => generic.is_empty() || generic.starts_with("::<Vec<"),
        "sum" => generic == "::<usize>",
        "count" => true,
        _ => false,
    } {
        return None;
    }
    let mut stages = vec![];
    let mut take = None;
    let mut x = &*m.receiver;
    let (src, owned) = loop {
        let Expr::MethodCall(c) = x else { return None };
        let n = c.method.to_string();
        match (n.as_str(), c.args.len()) {
            ("iter" | "par_iter", 0) => break ((*c.receiver).clone(), false),
            ("into_iter" | "into_par_iter", 0) => break ((*c.receiver).clone(), true),
            ("keys" | "values", 0) => break (x.clone(), true),
            ("enumerate" | "cloned" | "copied", 0) => stages.push((n, None)),
            ("map" | "filter" | "filter_map" | "flat_map", 1) => stages.push((n, Some(any_closure(&c.args[0], 1)?.clone()))),
            ("take", 1) if stages.is_empty() && take.is_none() && sink == "collect" => take = Some(c.args[0].clone()),
            _ => return None,
        }
        x = &c.receiver;
    };
    stages.reverse();
    // an early exit of a closure whose value is wrapped by `wrap`
    struct Exit<'a>(&'a dyn Fn(Option<&Expr>) -> Option<Vec<Stmt>>, bool);
    impl VisitMut for Exit<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) => {}
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                    if has_exit(e) {
                        self.1 = true;
                    }
                }
                Expr::Return(r) => {
                    let v = r.expr.take();
                    match (self.0)(v.as_deref()) {
                        Some(st) => *e = parse_quote!({ #(#st)* continue; }),
                        None => self.1 = true,
                    }
                }
                Expr::Try(t) => {
                    self.visit_expr_mut(&mut t.expr);
                    let x = &t.expr;
                    *e = parse_quote!(match #x { Some(vx_x) => vx_x, None => { continue; } });
                }
                e => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    fn exits(b: &Expr, f: &dyn Fn(Option<&Expr>) -> Option<Vec<Stmt>>) -> Option<Expr> {
        let mut b = b.clone();
        let mut v = Exit(f, false);
        v.visit_expr_mut(&mut b);
        if v.1 { None } else { Some(b) }
    }
    let is = |x: &Expr, n: &str| matches!(x, Expr::Path(p) if p.path.is_ident(n));
    let push: Stmt = match sink.as_str() {
        "collect" => parse_quote!(vx_out.push(vx_c);),
        "sum" => parse_quote!(vx_out = vx_out.wrapping_add(vx_c);),
        _ => parse_quote!(vx_out = vx_out.wrapping_add(1);),
    };
    let mut body: Vec<Stmt> = vec![push];
    let last_stage = stages.len();
    for (k, (n, cl)) in stages.iter().enumerate().rev() {
        let rest = body;
        let p = cl.as_ref().map(|c| &c.inputs[0]);
        let b = cl.as_ref().map(|c| &*c.body);
        body = match n.as_str() {
            "enumerate" => parse_quote!(let vx_c = (vx_k, vx_c); vx_k = vx_k + 1; #(#rest)*),
            "cloned" | "copied" => parse_quote!(let vx_c = vx_c.clone(); #(#rest)*),
            "map" => {
                let b = straight(b?, false)?;
                parse_quote!(let #p = vx_c; let vx_c = #b; #(#rest)*)
            }
            "filter" => {
                let b = match straight(b?, false) {
                    Some(b) => b,
                    // `return false` goes on; other exits are not taken apart
                    None => exits(b?, &|v| match v {
                        Some(Expr::Lit(ExprLit { lit: Lit::Bool(l), .. })) if !l.value => Some(vec![]),
                        _ => None,
                    })?,
                };
                let bind: Stmt = match p? {
                    Pat::Reference(r) => {
                        let r = &r.pat;
                        parse_quote!(let #r = vx_c.clone();)
                    }
                    p => parse_quote!(let #p = &vx_c;),
                };
                parse_quote!(if { #bind #b } { #(#rest)* })
            }
            "filter_map" => {
                let b = match opt_body(b?) {
                    Some(b) => b,
                    None => exits(b?, &|v| match v {
                        Some(x) if is(x, "None") => Some(vec![]),
                        _ => None,
                    })?,
                };
                parse_quote!(let #p = vx_c; let vx_r = #b; match vx_r { Some(vx_c) => { #(#rest)* } None => {} })
            }
            _ if k + 1 == last_stage && sink == "collect" => {
                let b = exits(b?, &|v| Some(match v? {
                    Expr::Macro(m) if last(&m.mac.path) == "vec" && m.mac.tokens.is_empty() => vec![],
                    v => parse_quote!(vx_append(&mut vx_out, #v);),
                }))?;
                parse_quote!(let #p = vx_c; let vx_r = #b; vx_append(&mut vx_out, vx_r);)
            }
            _ => {
                let b = straight(b?, false)?;
                parse_quote!(let #p = vx_c; let vx_r = #b; for vx_c in vx_owned(vx_r) { #(#rest)* })
            }
        };
    }
    let start: Expr = if sink == "collect" { parse_quote!(Vec::new()) } else { parse_quote!(0usize) };
    let all: Expr = if owned { parse_quote!(vx_owned(#src)) } else { parse_quote!(&#src) };
    let count: Vec<Stmt> = if stages.iter().any(|s| s.0 == "enumerate") { parse_quote!(let mut vx_k: usize = 0;) } else { vec![] };
    let end: Expr = match take {
        Some(n) => parse_quote!(vx_take(vx_out, #n)),
        None => parse_quote!(vx_out),
    };
    Some(parse_quote!({ let mut vx_out = #start; #(#count)* for vx_c in #all { #(#body)* } #end }))
}
/// `return` or `?` outside nested closures
fn has_exit(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Try(_) | Expr::Return(_) => self.0 = true,
                Expr::Closure(_) => {}
                e => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}
/// the name a field path starts from
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
/// names bound to parts moved out of owned values
struct Owners<'b>(&'b mut BTreeSet<String>);
impl Owners<'_> {
    fn bind(&mut self, p: &Pat, e: &Expr) {
        if root(e).is_some_and(|r| self.0.contains(&r)) {
            struct Names<'c>(&'c mut BTreeSet<String>);
            impl<'a> syn::visit::Visit<'a> for Names<'_> {
                fn visit_pat_ident(&mut self, i: &'a PatIdent) {
                    if i.by_ref.is_none() {
                        self.0.insert(i.ident.to_string());
                    }
                }
                fn visit_pat_reference(&mut self, _: &'a PatReference) {}
            }
            syn::visit::Visit::visit_pat(&mut Names(self.0), p);
        }
    }
}
impl<'a> syn::visit::Visit<'a> for Owners<'_> {
    fn visit_expr_let(&mut self, l: &'a ExprLet) {
        self.bind(&l.pat, &l.expr);
        syn::visit::visit_expr_let(self, l);
    }
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        m.arms.iter().for_each(|a| self.bind(&a.pat, &m.expr));
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        match &*f.expr {
            Expr::MethodCall(m) if m.method == "into_iter" => self.bind(&f.pat, &m.receiver),
            e => self.bind(&f.pat, e),
        }
        syn::visit::visit_expr_for_loop(self, f);
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(i) = &l.init {
            self.bind(&l.pat, &i.expr);
        }
        syn::visit::visit_local(self, l);
    }
}
/// binds closure parameter `p` (possibly `&x`) to a place expression of reference type
fn bind_ref(p: &Pat, place: &Expr) -> Stmt {
    match p {
        Pat::Reference(r) => {
            let q = &r.pat;
            parse_quote!(let #q = *#place;)
        }
        Pat::Type(t) => bind_ref(&t.pat, place),
        q => parse_quote!(let #q = #place;),
    }
}
fn str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}
/// `b"..."`, `*b"..."`, `&b"..."[..]` and the like
fn byte_str(e: &Expr) -> bool {
    match e {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(_), .. }) => true,
        Expr::Reference(r) => byte_str(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && byte_str(&u.expr),
        Expr::Paren(p) => byte_str(&p.expr),
        Expr::Index(i) => matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) && byte_str(&i.expr),
        _ => false,
    }
}
fn text_eq(x: &Expr, l: &Expr) -> Expr {
    match x {
        Expr::Reference(_) => parse_quote!(vx_text_eq(#x, #l)),
        _ => parse_quote!(vx_text_eq(&#x, #l)),
    }
}
/// the literals of `"a" | "b"`
fn lits(p: &Pat) -> Option<Vec<Expr>> {
    match p {
        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
        Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
        Pat::Paren(p) => lits(&p.pat),
        _ => None,
    }
}
/// `A.as_ptr() as usize`
fn addr(e: &Expr) -> Option<&Expr> {
    match e {
        Expr::Paren(p) => addr(&p.expr),
        Expr::Cast(c) if toks(&c.ty) == "usize" => mc(&c.expr, "as_ptr", 0).map(|m| &*m.receiver),
        _ => None,
    }
}
impl Tr {
    fn is_f32(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
            Expr::Paren(p) => self.is_f32(&p.expr),
            Expr::Path(p) => self.f32s.contains(&last(&p.path)),
            Expr::Call(c) => path_of(&c.func).is_some_and(|p| ["vx_f32", "vx_fadd", "vx_fsub", "vx_fmul", "vx_fdiv", "vx_fneg"].contains(&last(p).as_str())),
            _ => false,
        }
    }
    /// a hash map is gone through as the list of its entries
    fn listed(&self, e: &Expr) -> Expr {
        match e {
            Expr::Path(p) if self.maps.contains(&last(&p.path)) => parse_quote!(vx_entries(#e)),
            e => e.clone(),
        }
    }
    /// rules applied before the parts of `e` are visited
    fn std_pre(&mut self, e: &Expr) -> Option<Expr> {
        // X.iter().filter_map(|p| B)[.cloned()].collect() and .map: push loops
        if let Some(c) = mc(e, "collect", 0) {
            let (inner, cl) = match mc(&c.receiver, "cloned", 0) {
                Some(x) => (&x.receiver, true),
                None => (&c.receiver, false),
            };
            // the crate's own iterator, element by element
            for kind in ["filter_map", "flat_map", "map"] {
                if let Some(f) = mc(inner, kind, 1)
                    && let Some(it) = mc(&f.receiver, "into_iter", 0).map(|m| &*m.receiver).or(Some(&*f.receiver))
                    && is_self(it)
                    && let Some(k) = any_closure(&f.args[0], 1)
                    && let Some(body) = straight(&k.body, kind == "filter_map")
                {
                    let p = &k.inputs[0];
                    let step: Block = match kind {
                        "filter_map" => parse_quote!({ let vx_r = #body; match vx_r { Some(vx_x) => { vx_out.push(vx_x); } None => {} } }),
                        "flat_map" => parse_quote!({ let vx_r = #body; vx_append(&mut vx_out, vx_r); }),
                        _ => parse_quote!({ let vx_r = #body; vx_out.push(vx_r); }),
                    };
                    return Some(parse_quote!({ let mut vx_it = #it; let mut vx_out = Vec::new(); loop { match vx_it.next() { None => { break; } Some(#p) => #step } } vx_out }));
                }
            }
            // X.into_iter().enumerate().map(|(i, p)| B).collect()
            if let Some(f) = mc(inner, "map", 1)
                && let Some(en) = mc(&f.receiver, "enumerate", 0)
                && let Some(it) = mc(&en.receiver, "into_iter", 0)
                && let Some(k) = closure(&f.args[0], 1)
                && let Pat::Tuple(t) = &k.inputs[0]
                && t.elems.len() == 2
            {
                let (src, body, ip, p) = (&it.receiver, &k.body, &t.elems[0], &t.elems[1]);
                return Some(parse_quote!({ let mut vx_out = Vec::new(); let mut vx_k: usize = 0; for #p in vx_owned(#src) { let #ip = vx_k; vx_k = vx_k + 1; vx_out.push(#body); } vx_out }));
            }
            for kind in ["filter_map", "map", "filter"] {
                if kind == "map"
                    && let Some(f) = mc(inner, kind, 1)
                    && let Some(it) = mc(&f.receiver, "into_iter", 0)
                    && let Some(k) = closure(&f.args[0], 1)
                {
                    let (src, body, p) = (self.listed(&it.receiver), &k.body, &k.inputs[0]);
                    return Some(parse_quote!({ let mut vx_out = Vec::new(); for #p in vx_owned(#src) { vx_out.push(#body); } vx_out }));
                }
                if kind == "filter_map"
                    && let Some(f) = mc(inner, kind, 1)
                    && let Some(it) = mc(&f.receiver, "into_iter", 0)
                    && let Some(k) = any_closure(&f.args[0], 1)
                    && let Some(body) = opt_body(&k.body)
                {
                    let (src, p) = (self.listed(&it.receiver), &k.inputs[0]);
                    return Some(parse_quote!({ let mut vx_out = Vec::new(); for #p in vx_owned(#src) { let vx_r = #body; match vx_r { Some(vx_x) => { vx_out.push(vx_x); } None => {} } } vx_out }));
                }
                if let Some(f) = mc(inner, kind, 1)
                    && let Some(it) = mc(&f.receiver, "iter", 0)
                    && let Some(k) = closure(&f.args[0], 1)
                {
                    let src = &it.receiver;
                    let body = &k.body;
                    let p = &k.inputs[0];
                    let v: Expr = parse_quote!(vx_e);
                    let b = match (kind, p) {
                        ("filter", Pat::Reference(r)) => bind_ref(&r.pat, &v),
                        ("filter", _) => return None,
                        _ => bind_ref(p, &v),
                    };
                    let out: Expr = if cl { parse_quote!(vx_x.clone()) } else { parse_quote!(vx_x) };
                    let step: Stmt = match kind {
                        "filter_map" => parse_quote!(match #body { Some(vx_x) => { vx_out.push(#out); } None => {} }),
                        "map" => parse_quote!({ let vx_x = #body; vx_out.push(#out); }),
                        _ => parse_quote!(if #body { let vx_x = vx_e; vx_out.push(#out); }),
                    };
                    return Some(parse_quote!({ let mut vx_out = Vec::new(); for vx_e in &#src { #b #step } vx_out }));
                }
            }
        }
        if self.pipe
            && let Some(x) = pipeline(e)
        {
            return Some(x);
        }
        // X.into_iter().map(|p| B).collect::<Result<..>>()?: the first failure is returned
        if let Expr::Try(t) = e
            && let Some(c) = mc(&t.expr, "collect", 0)
            && c.turbofish.as_ref().is_some_and(|t| toks(t).contains("Result"))
            && let Some(f) = mc(&c.receiver, "map", 1)
            && let Some(k) = closure(&f.args[0], 1)
        {
            let (body, p) = (&k.body, &k.inputs[0]);
            if let Some(it) = mc(&f.receiver, "into_iter", 0) {
                let src = self.listed(&it.receiver);
                return Some(parse_quote!({ let mut vx_out = Vec::new(); for #p in vx_owned(#src) { vx_out.push((#body)?); } vx_out }));
            }
            if let Some(it) = mc(&f.receiver, "iter", 0) {
                let src = &it.receiver;
                return Some(parse_quote!({ let mut vx_out = Vec::new(); for #p in &#src { vx_out.push((#body)?); } vx_out }));
            }
        }
        // Result::map of a text conversion
        if let Some(m) = mc(e, "map", 1)
            && let Some(k) = closure(&m.args[0], 1)
            && let Expr::Call(c) = &*m.receiver
            && path_of(&c.func).is_some_and(|p| last(p) == "from_utf8")
        {
            let (r, p, b) = (&m.receiver, &k.inputs[0], &k.body);
            return Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_x) => Err(vx_x) }));
        }
        // E.retain(|&x| B): rebuild
        if let Some(m) = mc(e, "retain", 1)
            && let Some(k) = closure(&m.args[0], 1)
        {
            let src = &m.receiver;
            let body = &k.body;
            let v: Expr = parse_quote!(vx_e);
            let b = bind_ref(&k.inputs[0], &v);
            return Some(parse_quote!({ let vx_old = #src.clone(); let mut vx_out = Vec::new(); for vx_e in &vx_old { #b if #body { vx_out.push(vx_e.clone()); } } #src = vx_out; }));
        }
        // Option::map / or_else / and_then with a closure
        if let Some(m) = mc(e, "map", 1)
            && let Some(k) = closure(&m.args[0], 1)
            && mc(&m.receiver, "iter", 0).is_none()
        {
            let (r, p, b) = (&m.receiver, &k.inputs[0], &k.body);
            return Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }));
        }
        if let Some(m) = mc(e, "and_then", 1)
            && let Some(k) = closure(&m.args[0], 1)
        {
            let (r, p, b) = (&m.receiver, &k.inputs[0], &k.body);
            return Some(parse_quote!(match #r { Some(#p) => #b, None => None }));
        }
        if let Some(m) = mc(e, "map_or", 2)
            && let Some(k) = closure(&m.args[1], 1)
        {
            let (r, d, p, b) = (&m.receiver, &m.args[0], &k.inputs[0], &k.body);
            return Some(parse_quote!(match #r { Some(#p) => #b, None => #d }));
        }
        for (name, none) in [("is_some_and", false), ("is_none_or", true)] {
            if let Some(m) = mc(e, name, 1)
                && let Some(k) = closure(&m.args[0], 1)
            {
                let (r, p, b) = (&m.receiver, &k.inputs[0], &k.body);
                return Some(parse_quote!(match #r { Some(#p) => #b, None => #none }));
            }
        }
        if let Some(m) = mc(e, "or_else", 1)
            && let Some(k) = closure(&m.args[0], 0)
        {
            let (r, b) = (&m.receiver, &k.body);
            return Some(parse_quote!(match #r { Some(vx_x) => Some(vx_x), None => #b }));
        }
        if let Some(m) = mc(e, "cloned", 0) {
            let r = &m.receiver;
            return Some(parse_quote!(match #r { Some(vx_x) => Some(vx_x.clone()), None => None }));
        }
        if let Some(m) = mc(e, "clone_from", 1) {
            let (r, a) = (&m.receiver, &m.args[0]);
            let a = match a {
                Expr::Reference(x) => (*x.expr).clone(),
                x => x.clone(),
            };
            return Some(parse_quote!(#r = #a.clone()));
        }
        // for x in M.values(); for (k, v) in M.iter_mut()
        if let Expr::ForLoop(f) = e {
            // the crate's own iterator
            if let it = mc(&f.expr, "into_iter", 0).map_or(&*f.expr, |m| &*m.receiver)
                && is_self(it)
                && f.label.is_none()
            {
                let (p, b) = (&f.pat, &f.body);
                return Some(parse_quote!({ let mut vx_it = #it; loop { match vx_it.next() { None => { break; } Some(#p) => #b } } }));
            }
            if let Some(m) = mc(&f.expr, "values", 0) {
                let (p, b, r) = (&f.pat, &f.body.stmts, &m.receiver);
                return Some(parse_quote!({ let vx_vals = vx_values(&#r); for vx_e in &vx_vals { let #p = *vx_e; #(#b)* } }));
            }
            if let Some(m) = mc(&f.expr, "iter_mut", 0)
                && let Pat::Tuple(t) = &*f.pat
                && t.elems.len() == 2
            {
                let (kp, vp) = (&t.elems[0], &t.elems[1]);
                let (b, r) = (&f.body.stmts, &m.receiver);
                return Some(parse_quote!({ let vx_ks = vx_keys(&#r); for vx_e in &vx_ks { let #kp = vx_e; if let Some(#vp) = #r.get_mut(vx_e) { #(#b)* } } }));
            }
            if let Some(m) = mc(&f.expr, "values_mut", 0) {
                let (p, b, r) = (&f.pat, &f.body.stmts, &m.receiver);
                return Some(parse_quote!({ let vx_ks = vx_keys(&#r); for vx_e in &vx_ks { if let Some(#p) = #r.get_mut(vx_e) { #(#b)* } } }));
            }
            // for x in std::fs::read_dir(D)?: the directory's listing
            if let Expr::Try(t) = &*f.expr
                && let Expr::Call(c) = &*t.expr
                && path_of(&c.func).is_some_and(|p| last(p) == "read_dir")
                && c.args.len() == 1
            {
                let mut f = f.clone();
                let d = match &c.args[0] {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                f.expr = Box::new(parse_quote!(vx_owned(vx_read_dir(&#d)?)));
                return Some(Expr::ForLoop(f));
            }
            if let Some(m) = mc(&f.expr, "into_iter", 0) {
                let mut f = f.clone();
                let x = &m.receiver;
                f.expr = Box::new(parse_quote!(vx_owned(#x)));
                return Some(Expr::ForLoop(f));
            }
            if matches!(&*f.expr, Expr::Field(_)) || matches!(&*f.expr, Expr::Path(_)) && root(&f.expr).is_some_and(|r| self.owned.contains(&r)) {
                let mut f = f.clone();
                let x = f.expr.clone();
                f.expr = Box::new(parse_quote!(vx_owned(#x)));
                return Some(Expr::ForLoop(f));
            }
            // a list that a call gives
            if self.pipe
                && let Expr::MethodCall(m) = &*f.expr
                && (m.method.to_string().starts_with("get_") || m.method == "assets")
            {
                let mut f = f.clone();
                let x = f.expr.clone();
                f.expr = Box::new(parse_quote!(vx_owned(#x)));
                return Some(Expr::ForLoop(f));
            }
            if matches!(&*f.expr, Expr::Path(_)) {
                let mut f = f.clone();
                let x = f.expr.clone();
                f.expr = Box::new(parse_quote!(&(*#x)));
                return Some(Expr::ForLoop(f));
            }
        }
        None
    }
    /// rules applied after the parts of `e` were visited
    fn std_post(&mut self, e: &mut Expr) -> Option<Expr> {
        match e {
            Expr::Macro(m) if ["unreachable", "panic", "todo", "unimplemented"].contains(&last(&m.mac.path).as_str()) => Some(parse_quote!(vx_unreachable())),
            Expr::Cast(c) if toks(&c.ty) == "f32" => {
                let x = &c.expr;
                Some(parse_quote!(vx_f32(#x)))
            }
            Expr::Cast(c) if self.is_f32(&c.expr) && ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize"].contains(&toks(&c.ty).as_str()) => {
                let (x, f) = (&c.expr, ident(&format!("vx_f2{}", toks(&c.ty))));
                Some(parse_quote!(#f(#x)))
            }
            // bytes compared with a byte string
            Expr::Binary(b)
                if self.std && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (byte_str(&b.left) || byte_str(&b.right)) && !(byte_str(&b.left) && byte_str(&b.right)) =>
            {
                let (x, l) = if byte_str(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                let l = self.byte_lit(l)?;
                let x: Expr = match &**x {
                    Expr::Reference(r) => (*r.expr).clone(),
                    Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => (*i.expr).clone(),
                    x => x.clone(),
                };
                let t: Expr = parse_quote!(vx_bytes_eq(&#x, &[#(#l),*]));
                Some(if matches!(b.op, BinOp::Ne(_)) { parse_quote!(!#t) } else { t })
            }
            // text compared with a literal, as characters
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (str_lit(&b.left) || str_lit(&b.right)) => {
                let (x, l) = if str_lit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                let t: Expr = text_eq(x, l);
                Some(if matches!(b.op, BinOp::Ne(_)) { parse_quote!(!#t) } else { t })
            }
            Expr::Match(m) if m.arms.iter().all(|a| a.guard.is_none()) && m.arms.iter().any(|a| lits(&a.pat).is_some()) => {
                let (last, arms) = m.arms.split_last()?;
                let x: Expr = parse_quote!(vx_t);
                let b = &last.body;
                let mut acc: Block = match &last.pat {
                    Pat::Wild(_) => parse_quote!({ #b }),
                    Pat::Ident(p) if p.subpat.is_none() => parse_quote!({ let #p = vx_t; #b }),
                    _ => return None,
                };
                for a in arms.iter().rev() {
                    let c = lits(&a.pat)?.into_iter().map(|l| text_eq(&x, &l)).reduce(|p, q| parse_quote!(#p || #q))?;
                    let b = &a.body;
                    acc = parse_quote!({ if #c { #b } else #acc });
                }
                let t = &m.expr;
                acc.stmts.insert(0, parse_quote!(let vx_t = #t;));
                Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: acc }))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && self.is_f32(&u.expr) && !matches!(*u.expr, Expr::Lit(_)) => {
                let x = &u.expr;
                Some(parse_quote!(vx_fneg(#x)))
            }
            // A.as_ptr() as usize - B.as_ptr() as usize
            Expr::Binary(b) if matches!(b.op, BinOp::Sub(_)) && addr(&b.left).is_some() && addr(&b.right).is_some() => {
                let slice = |e: &Expr| -> Expr { if matches!(e, Expr::Index(_)) { parse_quote!(&#e) } else { e.clone() } };
                let (l, r) = (slice(addr(&b.left)?), slice(addr(&b.right)?));
                Some(parse_quote!(vx_ptr_diff(#l, #r)))
            }
            Expr::Binary(b) if self.is_f32(&b.left) || self.is_f32(&b.right) => {
                let f = fop(&b.op)?;
                let (l, r) = (&b.left, &b.right);
                Some(parse_quote!(#f(#l, #r)))
            }
            Expr::MethodCall(m)
                if ["to_string", "into_owned", "into", "to_owned"].contains(&m.method.to_string().as_str())
                    && let Expr::Call(c) = &*m.receiver
                    && path_of(&c.func).is_some_and(|p| last(p) == "from_utf8_lossy")
                    && c.args.len() == 1 =>
            {
                let x = &c.args[0];
                Some(parse_quote!(vx_lossy(#x)))
            }
            Expr::MethodCall(m) => match (m.method.to_string().as_str(), m.args.len()) {
                ("into", 0) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_into(#r)))
                }
                ("sort_unstable" | "sort", 0) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_sort(&mut #r)))
                }
                ("try_into", 0) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_try_into(#r)))
                }
                ("unwrap_or_default", 0) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_or_default(#r)))
                }
                ("input_len", 0) => {
                    let r = &m.receiver;
                    Some(parse_quote!(#r.len()))
                }
                ("dedup", 0) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_dedup(&mut #r)))
                }
                _ => None,
            },
            Expr::Call(c) if c.args.len() == 1 => {
                let f = toks(&c.func).replace(' ', "");
                let t = f.strip_suffix("::from")?;
                if !["u16", "u32", "u64", "u128", "usize", "i16", "i32", "i64", "i128", "isize"].contains(&t) {
                    return None;
                }
                let (t, x): (syn::Type, _) = (syn::parse_str(t).ok()?, &c.args[0]);
                Some(parse_quote!(((#x) as #t)))
            }
            Expr::Struct(s) => {
                if let Some(r) = &mut s.rest
                    && let Expr::Call(c) = &**r
                    && toks(&c.func).replace(' ', "") == "Default::default"
                {
                    let p = &s.path;
                    *r = Box::new(parse_quote!(#p::default()));
                }
                None
            }
            _ => None,
        }
    }
}
fn mk_inv(n: usize) -> Stmt {
    mk_mark("inv", n)
}
fn mk_mark(k: &str, n: usize) -> Stmt {
    let f = ident(&format!("__vx_{k}_{n}"));
    parse_quote!(#f!();)
}
fn mark(b: &mut Block, n: usize) {
    b.stmts.insert(0, mk_inv(n));
    b.stmts.insert(1, mk_mark("ls", n));
    b.stmts.push(mk_mark("le", n));
}
/// `&v`, `v.iter()`, `&mut v`, `v.iter_mut()`: loops over a vector's places
fn iter_source(e: &Expr) -> Option<(Expr, bool)> {
    match e {
        Expr::Reference(r) => Some(((*r.expr).clone(), r.mutability.is_some())),
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some(((*m.receiver).clone(), false)),
        Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some(((*m.receiver).clone(), true)),
        _ => None,
    }
}
fn has_let_chain(e: &Expr) -> bool {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            matches!(*b.left, Expr::Let(_)) || matches!(*b.right, Expr::Let(_)) || has_let_chain(&b.left) || has_let_chain(&b.right)
        }
        _ => false,
    }
}
fn chain(e: &Expr) -> Vec<Expr> {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            let mut v = chain(&b.left);
            v.extend(chain(&b.right));
            v
        }
        e => vec![e.clone()],
    }
}
impl VisitMut for Tr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.expr(e)
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if self.std
            && let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init)
            && self.is_f32(&i.expr)
        {
            self.f32s.insert(p.ident.to_string());
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear()
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !is_tracing(&m.mac.path) && !(self.pipe && ["println", "eprintln", "print", "eprint"].contains(&last(&m.mac.path).as_str())),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Expr(Expr::Macro(m), Some(_)) => !is_tracing(&m.mac.path),
            // statements under a non-default cfg are kept only when the cfg is on (tracing ones are gone by now)
            _ => true,
        });
        // statement macros become expression statements so the rules above see them
        for s in &mut b.stmts {
            // a chain collected into a hash map: the list of its pairs, inserted one by one
            if self.std
                && let Stmt::Local(l) = s
                && let Pat::Type(t) = &l.pat
                && is_map(&t.ty)
                && let Some(i) = &mut l.init
                && mc(&i.expr, "collect", 0).is_some()
            {
                let x = &i.expr;
                i.expr = Box::new(parse_quote!(vx_from_pairs(#x)));
            }
            if let Stmt::Macro(m) = s {
                let n = last(&m.mac.path);
                // assert_eq!(A, b"..."[..]) on byte strings
                if self.std
                    && n == "assert_eq"
                    && let Ok(a) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    && a.len() >= 2
                    && let Some(b) = self.byte_lit(&a[1])
                {
                    let x = &a[0];
                    *s = parse_quote!(vx_assert_bytes(&#x, &[#(#b),*]););
                    continue;
                }
                if ["format", "stringify", "unreachable", "panic", "ok_or_return_missing_field_err"].contains(&n.as_str()) {
                    *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), m.semi_token);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let mut after = vec![];
            if let Stmt::Local(l) = &s {
                let mut names = vec![];
                pat_names(&l.pat, &mut names);
                for n in names {
                    self.lets.push(n.clone());
                    let k = self.lets.iter().filter(|x| **x == n).count() - 1;
                    let f = ident(&format!("__vx_let_{n}_{k}"));
                    after.push(parse_quote!(#f!();));
                }
            }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}
fn pat_names(p: &Pat, o: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => o.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|x| pat_names(x, o)),
        Pat::Type(t) => pat_names(&t.pat, o),
        _ => {}
    }
}
/// token printer with line breaks, so that verifier messages point at statements
fn print(ts: TokenStream, o: &mut String, col: &mut usize) {
    let mut prev_joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                o.push_str(a);
                let brace = g.delimiter() == Delimiter::Brace;
                if brace {
                    *col += 1;
                    nl(o, *col);
                }
                print(g.stream(), o, col);
                if brace {
                    *col -= 1;
                    nl(o, *col);
                }
                o.push_str(b);
                if brace {
                    nl(o, *col);
                }
                prev_joint = false;
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                if p.as_char() == ';' {
                    nl(o, *col);
                } else if !prev_joint {
                    o.push(' ');
                }
            }
            t => {
                if o.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '}') {
                    o.push(' ');
                }
                o.push_str(&t.to_string());
                if matches!(t, TokenTree::Ident(_)) {
                    o.push(' ');
                }
            }
        }
    }
    let _ = prev_joint;
}
fn nl(o: &mut String, col: usize) {
    while o.ends_with(' ') {
        o.pop();
    }
    if !o.ends_with('\n') {
        o.push('\n');
    }
    o.push_str(&"  ".repeat(col));
}
fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    let mut c = 0;
    print(ts, &mut s, &mut c);
    s
}
fn use_names(t: &UseTree, prefix: &str, o: &mut Vec<(String, String)>) {
    match t {
        UseTree::Path(p) => use_names(&p.tree, &format!("{prefix}{}::", p.ident), o),
        UseTree::Name(n) => o.push((n.ident.to_string(), format!("{prefix}{}", n.ident))),
        UseTree::Rename(r) => o.push((r.rename.to_string(), format!("{prefix}{}", r.ident))),
        UseTree::Glob(_) => o.push(("*".into(), prefix.trim_end_matches("::").to_string())),
        UseTree::Group(g) => g.items.iter().for_each(|x| use_names(x, prefix, o)),
    }
}
fn nom_map(items: &[Item]) -> HashMap<String, String> {
    let mut u = vec![];
    for i in items {
        if let Item::Use(x) = i {
            use_names(&x.tree, "", &mut u);
        }
    }
    let mut m = HashMap::new();
    let short = |s: &str| s.trim_start_matches("nom::").replace("::complete", "").replace("::", "_");
    for (n, p) in &u {
        if n == "*" && p.starts_with("nom::bytes") {
            for f in ["take", "tag", "take_while"] {
                m.insert(f.to_string(), "bytes".to_string());
            }
        }
        if n == "*" && p.starts_with("nom::number") {
            for f in ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"] {
                m.insert(f.to_string(), "number".to_string());
            }
        }
    }
    for (n, p) in &u {
        if p.starts_with("nom::") && n != "*" {
            let modp = p.rsplit_once("::").unwrap().0;
            m.insert(n.clone(), short(modp));
        }
    }
    m
}
fn byte_consts(items: &[Item]) -> HashMap<String, Vec<u8>> {
    let mut m = HashMap::new();
    for i in items {
        if let Item::Const(c) = i
            && let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &*c.expr
        {
            m.insert(c.ident.to_string(), b.value());
        }
    }
    m
}
/// finds items by path "a::b::Type::fn" or "Type as Trait<..>::fn" ; the path's last part is the item
fn find<'a>(items: &'a [Item], path: &[&str], ctx: &mut Vec<&'a [Item]>) -> Option<Found<'a>> {
    ctx.push(items);
    if path.len() == 1 {
        for i in items {
            match i {
                Item::Fn(f) if f.sig.ident == path[0] => return Some(Found::Fn(&f.sig, &f.block)),
                Item::Struct(s) if s.ident == path[0] => return Some(Found::Item(i)),
                Item::Enum(s) if s.ident == path[0] => return Some(Found::Item(i)),
                Item::Const(s) if s.ident == path[0] => return Some(Found::Item(i)),
                Item::Type(s) if s.ident == path[0] => return Some(Found::Item(i)),
                _ => {}
            }
        }
    }
    if path.len() >= 2 {
        for i in items {
            match i {
                Item::Mod(m) if m.ident == path[0] => {
                    if let Some((_, it)) = &m.content
                        && let Some(f) = find(it, &path[1..], ctx)
                    {
                        return Some(f);
                    }
                }
                Item::Impl(im) if path.len() == 2 => {
                    let ty = toks(&im.self_ty).replace(' ', "");
                    let key = match &im.trait_ {
                        Some((_, p, _)) => format!("{}as{}", ty, toks(p).replace(' ', "")),
                        None => ty.clone(),
                    };
                    let want = path[0].replace(' ', "");
                    // paths may be written in full or imported
                    if key == want || (im.trait_.is_some() && (want == ty || im.trait_.as_ref().is_some_and(|(_, p, _)| format!("{}as{}", unqualified(&ty), unqualified(&toks(p).replace(' ', ""))) == want))) {
                        for x in &im.items {
                            if let ImplItem::Fn(f) = x
                                && f.sig.ident == path[1]
                            {
                                return Some(Found::Fn(&f.sig, &f.block));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    ctx.pop();
    None
}
/// drops module prefixes: `crate::game_events::X` is `X`
fn unqualified(s: &str) -> String {
    let mut o = String::new();
    for w in s.split_inclusive(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':')) {
        let (body, end) = match w.char_indices().last() {
            Some((i, c)) if !(c.is_alphanumeric() || c == '_' || c == ':') => (&w[..i], &w[i..]),
            _ => (w, ""),
        };
        // keep the last segment
        o.push_str(body.rsplit("::").next().unwrap());
        o.push_str(end);
    }
    o
}
enum Found<'a> {
    Fn(&'a Signature, &'a Block),
    Item(&'a Item),
}
/// names of the constants of type f32 declared anywhere in the crate
fn f32_consts(root: &str) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    let mut stack = vec![std::path::PathBuf::from(root)];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                stack.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") {
                for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
                    if let Some((_, r)) = l.split_once("const ")
                        && let Some((n, t)) = r.split_once(':')
                        && t.trim_start().starts_with("f32")
                    {
                        o.insert(n.trim().to_string());
                    }
                }
            }
        }
    }
    o
}
fn main() {
    let j: J = serde_json::from_reader(std::io::stdin()).unwrap();
    let root = j["root"].as_str().unwrap();
    let mut files: BTreeMap<String, std::result::Result<File, String>> = BTreeMap::new();
    let f32s: BTreeSet<String> = f32_consts(root);
    let mut out = serde_json::Map::new();
    for it in j["items"].as_array().unwrap() {
        let file = it["file"].as_str().unwrap();
        let path = it["path"].as_str().unwrap();
        let key = format!("{file}::{path}");
        let f = files.entry(file.to_string()).or_insert_with(|| {
            std::fs::read_to_string(format!("{root}/{file}"))
                .map_err(|e| e.to_string())
                .and_then(|s| parse_file(&s).map_err(|e| e.to_string()))
        });
        let f = match f {
            Ok(f) => f,
            Err(e) => {
                out.insert(key, json!({"error": e.clone()}));
                continue;
            }
        };
        // split on "::" outside <>
        let mut parts = vec![];
        let (mut d, mut st) = (0i32, 0);
        let b = path.as_bytes();
        let mut k = 0;
        while k < b.len() {
            match b[k] {
                b'<' => d += 1,
                b'>' => d -= 1,
                b':' if d == 0 && b.get(k + 1) == Some(&b':') => {
                    parts.push(&path[st..k]);
                    st = k + 2;
                    k += 1;
                }
                _ => {}
            }
            k += 1;
        }
        parts.push(&path[st..]);
        let mut ctx = vec![];
        match find(&f.items, &parts, &mut ctx) {
            None => {
                out.insert(key, json!({"error": "not found in the source"}));
            }
            Some(Found::Item(i)) => {
                let mut i = i.clone();
                struct Strip;
                impl VisitMut for Strip {
                    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
                        a.clear()
                    }
                }
                Strip.visit_item_mut(&mut i);
                // contracts mention private fields too
                if let Item::Struct(s) = &mut i {
                    s.fields.iter_mut().for_each(|f| f.vis = parse_quote!(pub));
                }
                out.insert(key, json!({"item": pretty(i.to_token_stream())}));
            }
            Some(Found::Fn(sig, block)) => {
                let mut nom = HashMap::new();
                let mut bytes = HashMap::new();
                for c in std::iter::once(&f.items[..]).chain(ctx.iter().copied()) {
                    nom.extend(nom_map(c));
                    bytes.extend(byte_consts(c));
                }
                // `use super::*` inside an inline module sees the file's own imports already
                let mut t = Tr { nom, bytes, loops: 0, lets: vec![], calls: BTreeSet::new(), notes: BTreeSet::new(), fmt: it["fmt"] == true, std: it["std"] == true, pipe: it["pipe"] == true, f32s: f32s.clone(), maps: BTreeSet::new(), owned: BTreeSet::new() };
                for a in &sig.inputs {
                    if let FnArg::Typed(a) = a
                        && let Pat::Ident(i) = &*a.pat
                        && is_map(&a.ty)
                    {
                        t.maps.insert(i.ident.to_string());
                    }
                    if let FnArg::Typed(a) = a
                        && let Pat::Ident(i) = &*a.pat
                        && matches!(&*a.ty, Type::Path(_))
                    {
                        t.owned.insert(i.ident.to_string());
                    }
                }
                let mut sig = sig.clone();
                let mut block = block.clone();
                let names: BTreeSet<String> = it["inline"].as_array().into_iter().flatten().filter_map(|n| n.as_str().map(str::to_string)).collect();
                if !names.is_empty() {
                    inline::Inline { names: &names, items: &f.items, done: 0, depth: 0 }.function(&mut block);
                }
                if names.contains("&mut") {
                    inline::aliases(&mut block);
                }
                inline::closures(&mut block);
                syn::visit::Visit::visit_block(&mut Owners(&mut t.owned), &block);
                t.visit_signature_mut(&mut sig);
                t.visit_block_mut(&mut block);
                // `mut self` by value becomes a local
                if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut()
                    && r.reference.is_none()
                    && r.mutability.take().is_some()
                {
                    struct This;
                    impl VisitMut for This {
                        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                            if p.path.is_ident("self") {
                                p.path = parse_quote!(vx_self);
                            }
                        }
                    }
                    This.visit_block_mut(&mut block);
                    block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
                }
                let name = sig.ident.to_string();
                let inputs = &sig.inputs;
                let gen_ = &sig.generics;
                let wh = &sig.generics.where_clause;
                let ret = match &sig.output {
                    ReturnType::Default => String::new(),
                    ReturnType::Type(_, t) => pretty(t.to_token_stream()),
                };
                let gp = if gen_.params.is_empty() { String::new() } else { pretty(quote!(#gen_)) };
                let _ = wh;
                let mut params = String::new();
                let mut c = 0;
                print(inputs.to_token_stream(), &mut params, &mut c);
                let body = pretty(block.to_token_stream());
                out.insert(
                    key,
                    json!({"name": name, "generics": gp, "params": params, "ret": ret, "body": body,
                           "loops": t.loops, "lets": t.lets, "calls": t.calls, "notes": t.notes}),
                );
            }
        }
    }
    println!("{}", serde_json::to_string(&J::Object(out)).unwrap());
}
