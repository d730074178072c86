//! Calls to functions that carry no contract of their own (a helper somebody extracted) are replaced by the
//! helper's body, by syntax; likewise constants and local closures.  `None`/no change when the shape is not
//! one of those below: the verifier then does not know the name and the caller stays undecided.
use crate::{ident, pat_names, toks};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Helper {
    pub sig: Signature,
    pub block: Block,
}
pub enum Named {
    Fn(Helper),
    Const(Type, Expr),
}
/// every function and constant of that name in the file; exactly one is wanted
pub fn lookup(items: &[Item], name: &str) -> Option<Named> {
    fn go(items: &[Item], name: &str, o: &mut Vec<Named>) {
        for i in items {
            match i {
                Item::Fn(f) if f.sig.ident == name => o.push(Named::Fn(Helper { sig: f.sig.clone(), block: (*f.block).clone() })),
                Item::Const(c) if c.ident == name => o.push(Named::Const((*c.ty).clone(), (*c.expr).clone())),
                Item::Mod(m) => {
                    if let Some((_, it)) = &m.content {
                        go(it, name, o)
                    }
                }
                Item::Impl(im) => {
                    for x in &im.items {
                        match x {
                            ImplItem::Fn(f) if f.sig.ident == name => o.push(Named::Fn(Helper { sig: f.sig.clone(), block: f.block.clone() })),
                            ImplItem::Const(c) if c.ident == name => o.push(Named::Const(c.ty.clone(), c.expr.clone())),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut o = vec![];
    go(items, name, &mut o);
    if o.len() == 1 { o.pop() } else { None }
}

#[derive(Default)]
struct Exits {
    ret: bool,
    try_: bool,
}
impl<'a> syn::visit::Visit<'a> for Exits {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Return(_) => self.ret = true,
                Expr::Closure(_) => return,
                Expr::Try(_) => self.try_ = true,
                _ => {}
            }
            syn::visit::visit_expr(self, e)
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
fn exits(b: &Block) -> Exits {
    let mut x = Exits::default();
    syn::visit::Visit::visit_block(&mut x, b);
    x
}
fn idents(b: &Block) -> BTreeSet<String> {
    struct L(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_pat(&mut self, p: &'a Pat) {
            let mut o = vec![];
            pat_names(p, &mut o);
            self.0.extend(o);
            syn::visit::visit_pat(self, p)
        }
    }
    let mut l = L(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut l, b);
    l.0
}
fn names_in(e: &Expr) -> BTreeSet<String> {
    struct L(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.insert(i.to_string());
            }
        }
    }
    let mut l = L(BTreeSet::new());
    syn::visit::Visit::visit_expr(&mut l, e);
    l.0
}
struct Subst<'a>(&'a str, &'a Expr);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) if p.path.is_ident(self.0) => *e = self.1.clone(),
            // (&mut X).f, *(&mut X), (&mut X).m() : auto-deref of the argument
            Expr::Field(f) => {
                if let Some(i) = place(&f.base) {
                    *f.base = i;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(i) = place(&m.receiver) {
                    *m.receiver = i;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(i) = place(&u.expr) {
                    *e = i;
                }
            }
            Expr::Index(x) => {
                if let Some(i) = place(&x.expr) {
                    *x.expr = i;
                }
            }
            _ => {}
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        visit_mut::visit_field_value_mut(self, f);
        if f.colon_token.is_none() && toks(&f.expr) != toks(&f.member) {
            f.colon_token = Some(Default::default());
        }
    }
}
fn place(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Paren(p) => place(&p.expr),
        Expr::Reference(r) => Some((*r.expr).clone()),
        _ => None,
    }
}
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => plain(&f.base),
        Expr::Paren(p) => plain(&p.expr),
        Expr::Reference(r) => plain(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && plain(&u.expr),
        _ => false,
    }
}
/// early exits `if C { ..; return X; } REST` become `if C { ..; X } else { REST }`
pub fn straighten(b: &mut Block, option: bool) {
    fn ret_tail(b: &Block) -> Option<Block> {
        let mut b = b.clone();
        match b.stmts.last()? {
            Stmt::Expr(Expr::Return(r), _) => {
                let r = r.expr.clone();
                b.stmts.pop();
                if let Some(x) = r {
                    b.stmts.push(Stmt::Expr(*x, None));
                }
                Some(b)
            }
            _ => None,
        }
    }
    for (k, s) in b.stmts.iter().enumerate() {
        // `let P = E?; REST` of an Option
        if option
            && let Stmt::Local(l) = s
            && let Some(i) = &l.init
            && let Expr::Try(t) = &*i.expr
            && i.diverge.is_none()
        {
            let pat = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            let e = &t.expr;
            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[k + 1..].to_vec() };
            straighten(&mut rest, option);
            let e: Expr = parse_quote!(match #e { Some(#pat) => #rest, None => None });
            b.stmts.truncate(k);
            b.stmts.push(Stmt::Expr(e, None));
            return;
        }
        let (Stmt::Expr(Expr::If(i), _), true) = (s, k + 1 < b.stmts.len()) else { continue };
        if i.else_branch.is_some() {
            continue;
        }
        if let Some(mut then) = ret_tail(&i.then_branch) {
            let cond = &i.cond;
            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[k + 1..].to_vec() };
            straighten(&mut rest, option);
            straighten(&mut then, option);
            let e: Expr = parse_quote!(if #cond #then else #rest);
            b.stmts.truncate(k);
            b.stmts.push(Stmt::Expr(e, None));
            return;
        }
    }
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if let Expr::Return(r) = e
            && let Some(x) = &r.expr
        {
            *e = (**x).clone();
            *semi = None;
        }
        tails(e, &mut |_| true);
    }
}
/// applies f to every tail position below e; false when one cannot be reached
fn tails(e: &mut Expr, f: &mut dyn FnMut(&mut Expr) -> bool) -> bool {
    fn blk(b: &mut Block, f: &mut dyn FnMut(&mut Expr) -> bool) -> bool {
        match b.stmts.last_mut() {
            Some(Stmt::Expr(e, None)) => tails(e, f),
            Some(Stmt::Expr(Expr::Return(_), Some(_))) => true,
            _ => false,
        }
    }
    match e {
        Expr::Block(b) => blk(&mut b.block, f),
        Expr::Paren(p) => tails(&mut p.expr, f),
        Expr::If(i) => {
            let a = blk(&mut i.then_branch, f);
            match &mut i.else_branch {
                Some((_, x)) => tails(x, f) && a,
                None => false,
            }
        }
        Expr::Match(m) => m.arms.iter_mut().fold(true, |a, x| tails(&mut x.body, f) && a),
        e => f(e),
    }
}
pub struct Inline<'a> {
    pub names: &'a BTreeSet<String>,
    pub items: &'a [Item],
    pub done: usize,
    /// names bound outside: a `let` inside must not catch them
    pub depth: usize,
}
enum Mode {
    Value,
    Try,
    Tail,
}
impl Inline<'_> {
    fn body(&mut self, name: &str, recv: Option<&Expr>, args: Vec<Expr>, mode: Mode) -> Option<Block> {
        if self.depth > 4 {
            return None;
        }
        let Some(Named::Fn(h)) = lookup(self.items, name) else { return None };
        let mut block = h.block;
        if !h.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) {
            return None;
        }
        let mut pats: Vec<(Pat, Option<Type>)> = vec![];
        let mut has_self = false;
        for i in &h.sig.inputs {
            match i {
                FnArg::Receiver(_) => has_self = true,
                FnArg::Typed(t) => pats.push(((*t.pat).clone(), Some((*t.ty).clone()))),
            }
        }
        let mut args = args;
        let recv = match (recv, has_self) {
            (Some(r), true) => Some(r.clone()),
            (None, true) if args.len() == pats.len() + 1 => Some(args.remove(0)),
            (None, false) => None,
            _ => return None,
        };
        if args.len() != pats.len() {
            return None;
        }
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        let locals = idents(&block);
        if let Some(r) = recv
            && toks(&r) != "self"
        {
            let r = place(&r).unwrap_or(r);
            if !plain(&r) || names_in(&r).iter().any(|n| locals.contains(n)) || toks(&block).contains("Self") {
                return None;
            }
            Subst("self", &r).visit_block_mut(&mut block);
        }
        let x = exits(&block);
        let option = matches!(&h.sig.output, ReturnType::Type(_, t) if toks(t).starts_with("Option"));
        match mode {
            Mode::Tail => {}
            Mode::Value => {
                straighten(&mut block, option);
                let x = exits(&block);
                if x.ret || x.try_ {
                    return None;
                }
            }
            Mode::Try => {
                let ret = toks(&h.sig.output);
                let ok = if ret.contains("Result") {
                    "Ok"
                } else if ret.contains("Option") {
                    "Some"
                } else {
                    return None;
                };
                if x.ret {
                    straighten(&mut block, option);
                    if exits(&block).ret {
                        return None;
                    }
                }
                let mut whole: Expr = parse_quote!(#block);
                let good = tails(&mut whole, &mut |e| {
                    match e {
                        Expr::Call(c) if toks(&c.func) == ok => {
                            let a = c.args[0].clone();
                            *e = a;
                        }
                        Expr::Call(c) if ok == "Ok" && toks(&c.func) == "Err" => {
                            let a = c.args[0].clone();
                            *e = parse_quote!(return Err(#a));
                        }
                        Expr::Path(p) if ok == "Some" && p.path.is_ident("None") => *e = parse_quote!(return None),
                        Expr::Macro(_) | Expr::Return(_) => return false,
                        o => *o = parse_quote!(#o?),
                    }
                    true
                });
                if !good {
                    return None;
                }
                let Expr::Block(b) = whole else { return None };
                block = b.block;
            }
        }
        // arguments
        let mut pre: Vec<Stmt> = vec![];
        for (k, ((pat, ty), arg)) in pats.into_iter().zip(args).enumerate() {
            let by_mut = matches!(&ty, Some(Type::Reference(r)) if r.mutability.is_some());
            if by_mut {
                let Pat::Ident(i) = &pat else { return None };
                let n = i.ident.to_string();
                if !plain(&arg) || i.mutability.is_some() {
                    return None;
                }
                if toks(&arg) == n {
                    continue;
                }
                if names_in(&arg).iter().any(|x| locals.contains(x)) || locals.contains(&n) {
                    return None;
                }
                Subst(&n, &arg).visit_block_mut(&mut block);
                continue;
            }
            if let Pat::Ident(i) = &pat
                && toks(&arg) == i.ident.to_string()
                && i.mutability.is_none()
            {
                continue;
            }
            // a place passed by reference stands for itself
            if matches!(&ty, Some(Type::Reference(_)))
                && plain(&arg)
                && let Pat::Ident(i) = &pat
                && !locals.contains(&i.ident.to_string())
                && !names_in(&arg).iter().any(|x| locals.contains(x))
            {
                Subst(&i.ident.to_string(), &arg).visit_block_mut(&mut block);
                continue;
            }
            // a fresh name first, so that one argument cannot catch a name used by the next
            let fresh = ident(&format!("vx_arg{}_{k}", self.done));
            match &ty {
                Some(t) if !toks(t).contains("impl ") && !toks(t).contains('\'') => pre.insert(0, parse_quote!(let #fresh: #t = #arg;)),
                _ => pre.insert(0, parse_quote!(let #fresh = #arg;)),
            }
            pre.push(parse_quote!(let #pat = #fresh;));
        }
        // evaluation order of the arguments is kept: the fresh bindings were put in front in reverse
        let m = pre.len() / 2;
        pre[..m].reverse();
        self.done += 1;
        pre.append(&mut block.stmts);
        block.stmts = pre;
        Some(block)
    }
    fn target(&self, e: &Expr) -> Option<(String, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last()?.ident.to_string();
                self.names.contains(&n).then(|| (n, None, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.names.contains(&n).then(|| (n, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::Paren(p) => self.target(&p.expr),
            _ => None,
        }
    }
    /// the calls in the function's own tail positions
    pub fn function(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            tails(e, &mut |e| {
                if let Some((n, r, a)) = self.target(e)
                    && let Some(b) = self.body(&n, r.as_ref(), a, Mode::Tail)
                {
                    *e = parse_quote!(#b);
                }
                true
            });
        }
        self.visit_block_mut(b);
    }
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Try(t) => {
                if let Some((n, r, a)) = self.target(&t.expr)
                    && let Some(b) = self.body(&n, r.as_ref(), a, Mode::Try)
                {
                    *e = parse_quote!(#b);
                }
            }
            Expr::Path(p) => {
                if let Some(s) = p.path.segments.last()
                    && self.names.contains(&s.ident.to_string())
                    && let Some(Named::Const(ty, v)) = lookup(self.items, &s.ident.to_string())
                {
                    *e = match (&v, toks(&ty).as_str()) {
                        (Expr::Lit(ExprLit { lit: Lit::Int(i), .. }), t @ ("u8" | "i8" | "u16" | "i16" | "u32" | "i32" | "u64" | "i64" | "usize" | "isize")) if i.suffix().is_empty() => {
                            let l: Lit = parse_str(&format!("{i}{t}")).unwrap();
                            parse_quote!(#l)
                        }
                        (_, "u8" | "i8" | "u16" | "i16" | "u32" | "i32" | "u64" | "i64" | "usize" | "isize") => parse_quote!(((#v) as #ty)),
                        _ => parse_quote!((#v)),
                    };
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some((n, r, a)) = self.target(e)
                    && let Some(b) = self.body(&n, r.as_ref(), a, Mode::Value)
                {
                    *e = parse_quote!(#b);
                }
            }
            _ => {}
        }
    }
}

/// `let f = |a, b| E;` whose name is only ever called: each call becomes `{ let a = x; let b = y; E }`
pub fn closures(b: &mut Block) {
    struct Uses<'a> {
        name: &'a str,
        other: bool,
        calls: usize,
    }
    impl<'a> syn::visit::Visit<'a> for Uses<'_> {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) => {
                    self.calls += 1;
                    c.args.iter().for_each(|a| self.visit_expr(a));
                }
                Expr::Path(p) if p.path.is_ident(self.name) => self.other = true,
                Expr::Macro(m) if m.mac.tokens.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.name) => self.other = true,
                e => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.ident == self.name {
                self.other = true;
            }
        }
    }
    struct Call<'a>(&'a str, &'a ExprClosure, usize);
    impl VisitMut for Call<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e
                && matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0))
            {
                let mut pre: Vec<Stmt> = vec![];
                let mut binds: Vec<Stmt> = vec![];
                for (k, (p, a)) in self.1.inputs.iter().zip(&c.args).enumerate() {
                    let fresh = ident(&format!("vx_c{}_{k}", self.2));
                    match p {
                        Pat::Type(t) => {
                            let (p, ty) = (&t.pat, &t.ty);
                            pre.push(parse_quote!(let #fresh: #ty = #a;));
                            binds.push(parse_quote!(let #p = #fresh;));
                        }
                        p => {
                            pre.push(parse_quote!(let #fresh = #a;));
                            binds.push(parse_quote!(let #p = #fresh;));
                        }
                    }
                }
                self.2 += 1;
                let body = &self.1.body;
                *e = parse_quote!({ #(#pre)* #(#binds)* #body });
            }
        }
    }
    struct All;
    impl VisitMut for All {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut k = 0;
            while k < b.stmts.len() {
                let mut hit = None;
                if let Stmt::Local(l) = &b.stmts[k]
                    && let Pat::Ident(i) = &l.pat
                    && let Some(init) = &l.init
                    && let Expr::Closure(c) = &*init.expr
                    && init.diverge.is_none()
                {
                    let body = &c.body;
                    let x = exits(&parse_quote!({ #body }));
                    let name = i.ident.to_string();
                    let mut u = Uses { name: &name, other: false, calls: 0 };
                    for s in &b.stmts[k + 1..] {
                        syn::visit::Visit::visit_stmt(&mut u, s);
                    }
                    // what the closure reads must not be rebound between its definition and the call
                    let free = names_in(body);
                    let rest = Block { brace_token: Default::default(), stmts: b.stmts[k + 1..].to_vec() };
                    let bound = idents(&rest);
                    let mut own = vec![];
                    c.inputs.iter().for_each(|p| pat_names(p, &mut own));
                    if !x.ret && !x.try_ && !u.other && u.calls > 0 && free.iter().all(|n| own.contains(n) || !bound.contains(n)) {
                        hit = Some((name, c.clone()));
                    }
                }
                if let Some((name, c)) = hit {
                    b.stmts.remove(k);
                    let mut call = Call(&name, &c, 0);
                    for s in &mut b.stmts[k..] {
                        call.visit_stmt_mut(s);
                    }
                } else {
                    k += 1;
                }
            }
        }
    }
    All.visit_block_mut(b);
}

/// `let x = &mut PLACE;` : every use of x becomes PLACE, when nothing PLACE is made of is rebound later
pub fn aliases(b: &mut Block) {
    fn simple(e: &Expr) -> bool {
        match e {
            Expr::Index(i) => simple(&i.expr) && simple(&i.index),
            Expr::Field(f) => simple(&f.base),
            Expr::Path(p) => p.path.segments.len() <= 2,
            Expr::Paren(p) => simple(&p.expr),
            Expr::Cast(c) => simple(&c.expr),
            Expr::Lit(_) => true,
            Expr::Unary(u) => simple(&u.expr),
            Expr::Binary(x) => simple(&x.left) && simple(&x.right),
            _ => false,
        }
    }
    struct Assigned(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for Assigned {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if let Expr::Path(p) = &*a.left
                && let Some(i) = p.path.get_ident()
            {
                self.0.insert(i.to_string());
            }
            syn::visit::visit_expr_assign(self, a)
        }
        fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
            if let Expr::Path(p) = &*a.left
                && let Some(i) = p.path.get_ident()
                && toks(&a.op).ends_with('=')
                && !matches!(a.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_))
            {
                self.0.insert(i.to_string());
            }
            syn::visit::visit_expr_binary(self, a)
        }
    }
    struct All;
    impl VisitMut for All {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut k = 0;
            while k < b.stmts.len() {
                let mut hit = None;
                if let Stmt::Local(l) = &b.stmts[k]
                    && let Pat::Ident(i) = &l.pat
                    && i.mutability.is_none()
                    && let Some(init) = &l.init
                    && let Expr::Reference(r) = &*init.expr
                    && r.mutability.is_some()
                    && simple(&r.expr)
                {
                    let name = i.ident.to_string();
                    let rest = Block { brace_token: Default::default(), stmts: b.stmts[k + 1..].to_vec() };
                    let mut bound = idents(&rest);
                    let mut a = Assigned(BTreeSet::new());
                    syn::visit::Visit::visit_block(&mut a, &rest);
                    let direct = a.0.contains(&name);
                    bound.extend(a.0);
                    if !direct && !bound.contains(&name) && !names_in(&r.expr).iter().any(|n| bound.contains(n)) {
                        hit = Some((name, (*init.expr).clone()));
                    }
                }
                if let Some((name, e)) = hit {
                    b.stmts.remove(k);
                    for s in &mut b.stmts[k..] {
                        Subst(&name, &e).visit_stmt_mut(s);
                    }
                } else {
                    k += 1;
                }
            }
        }
    }
    All.visit_block_mut(b);
}
