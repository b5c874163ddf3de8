//! Rewrites of function bodies, each by the definition of the construct it replaces.
use crate::contracts::FnC;
use crate::{renamed, Ctx, Paths};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn byte_string(e: &Expr) -> Option<Vec<u8>> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value()),
        Expr::Reference(r) => byte_string(&r.expr),
        Expr::Group(g) => byte_string(&g.expr),
        Expr::Paren(g) => byte_string(&g.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => byte_string(expr),
        _ => None,
    }
}
pub fn const_expr(e: &mut Expr) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
                let v = b.value();
                *e = parse_quote!(&[#(#v),*]);
            }
            if let Expr::Call(c) = e {
                let t: String = c.func.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                if t.contains("size_of::<") && c.args.is_empty() {
                    // the type's own alias is resolved by rustc; only the arithmetic is Verus's
                    let ty = t[t.find("size_of::<").unwrap() + 10..t.len() - 1].to_string();
                    let f = format_ident!("vx_size_of_{}", ty);
                    *e = parse_quote!(#f);
                }
            }
        }
    }
    V.visit_expr_mut(e);
}

/// An immutable static of a primitive type (or array, slice of one) is as good as a constant.
pub fn plain_static(i: Item) -> Item {
    const PLAIN: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "str"];
    fn plain(t: &Type) -> bool {
        match t {
            Type::Reference(r) => r.mutability.is_none() && plain(&r.elem),
            Type::Array(a) => plain(&a.elem),
            Type::Slice(a) => plain(&a.elem),
            Type::Paren(a) => plain(&a.elem),
            Type::Tuple(t) => t.elems.iter().all(plain),
            Type::Path(p) => p.path.get_ident().is_some_and(|i| PLAIN.contains(&i.to_string().as_str())),
            _ => false,
        }
    }
    match i {
        Item::Static(s) if matches!(s.mutability, StaticMutability::None) && plain(&s.ty) => Item::Const(ItemConst {
            attrs: s.attrs,
            vis: s.vis,
            const_token: Default::default(),
            ident: s.ident,
            generics: Default::default(),
            colon_token: Default::default(),
            ty: s.ty,
            eq_token: Default::default(),
            expr: s.expr,
            semi_token: Default::default(),
        }),
        i => i,
    }
}
/// Moves items nested in a body out of it, under names derived from the enclosing function.
pub fn hoist(b: &mut Block, fname: &str, parent: &str, _key: &str, out: &mut Vec<Item>) {
    let ctx = if parent == fname { fname.to_string() } else { format!("{parent}_{fname}") };
    struct H {
        items: Vec<Item>,
    }
    impl VisitMut for H {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut keep = vec![];
            for s in b.stmts.drain(..) {
                match s {
                    Stmt::Item(i) => self.items.push(plain_static(i)),
                    s => keep.push(s),
                }
            }
            b.stmts = keep;
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut h = H { items: vec![] };
    h.visit_block_mut(b);
    let mut names = vec![];
    for i in &h.items {
        match i {
            Item::Struct(s) => names.push(s.ident.to_string()),
            Item::Enum(s) => names.push(s.ident.to_string()),
            Item::Fn(s) => names.push(s.sig.ident.to_string()),
            Item::Const(s) => names.push(s.ident.to_string()),
            _ => {}
        }
    }
    struct R<'a>(&'a [String], &'a str);
    impl<'a> R<'a> {
        fn ren(&self, i: &mut Ident) {
            if self.0.contains(&i.to_string()) {
                *i = Ident::new(&format!("{}__{}", i, self.1), i.span());
            }
        }
    }
    impl<'a> VisitMut for R<'a> {
        fn visit_path_mut(&mut self, p: &mut Path) {
            if p.leading_colon.is_none() && p.segments.len() <= 2 {
                self.ren(&mut p.segments[0].ident);
            }
            visit_mut::visit_path_mut(self, p);
        }
        fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
            self.ren(&mut s.ident);
            visit_mut::visit_item_struct_mut(self, s);
        }
        fn visit_item_enum_mut(&mut self, s: &mut ItemEnum) {
            self.ren(&mut s.ident);
            visit_mut::visit_item_enum_mut(self, s);
        }
        fn visit_item_fn_mut(&mut self, s: &mut ItemFn) {
            self.ren(&mut s.sig.ident);
            visit_mut::visit_item_fn_mut(self, s);
        }
        fn visit_item_const_mut(&mut self, s: &mut ItemConst) {
            self.ren(&mut s.ident);
            visit_mut::visit_item_const_mut(self, s);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            if m.path.is_ident("format_args") {
                if let Ok(mut a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    for e in a.iter_mut() {
                        self.visit_expr_mut(e);
                    }
                    m.tokens = a.to_token_stream();
                }
            }
        }
    }
    let mut r = R(&names, &ctx);
    r.visit_block_mut(b);
    for i in h.items.iter_mut() {
        r.visit_item_mut(i);
    }
    out.extend(h.items);
}

/// a condition by its form
fn boolean(e: &Expr) -> bool {
    use BinOp::*;
    match e {
        Expr::Binary(b) => matches!(b.op, Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_) | And(_) | Or(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)),
        Expr::Paren(p) => boolean(&p.expr),
        Expr::Match(m) => m.arms.iter().all(|a| boolean(&a.body) || matches!(*a.body, Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }))),
        Expr::Block(b) if b.label.is_none() => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if boolean(e)),
        _ => false,
    }
}
/// an expression that means the same in a specification
fn pure(e: &Expr) -> bool {
    fn pat(p: &Pat) -> bool {
        match p {
            Pat::Lit(_) | Pat::Wild(_) | Pat::Ident(_) | Pat::Range(_) | Pat::Path(_) => true,
            Pat::Or(o) => o.cases.iter().all(pat),
            Pat::Paren(p) => pat(&p.pat),
            Pat::TupleStruct(t) => t.elems.iter().all(pat),
            Pat::Tuple(t) => t.elems.iter().all(pat),
            _ => false,
        }
    }
    match e {
        Expr::Path(_) => true,
        Expr::Lit(l) => matches!(l.lit, Lit::Byte(_) | Lit::Char(_) | Lit::Int(_) | Lit::Bool(_)),
        Expr::Unary(u) => !matches!(u.op, UnOp::Neg(_)) && pure(&u.expr),
        Expr::Binary(b) => {
            use BinOp::*;
            matches!(b.op, Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_) | And(_) | Or(_)) && pure(&b.left) && pure(&b.right)
        }
        Expr::Paren(p) => pure(&p.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Match(m) => pure(&m.expr) && m.arms.iter().all(|a| pat(&a.pat) && a.guard.as_ref().map_or(true, |g| pure(&g.1)) && pure(&a.body)),
        Expr::Block(b) => b.label.is_none() && b.block.stmts.iter().all(|s| match s {
            Stmt::Expr(e, None) => pure(e),
            Stmt::Local(l) => matches!(l.pat, Pat::Ident(_)) && l.init.as_ref().map_or(false, |i| i.diverge.is_none() && pure(&i.expr)),
            _ => false,
        }),
        _ => false,
    }
}
/// a literal of a type that Verus compares by itself
fn native(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Byte(_) | Lit::Char(_) | Lit::Int(_) | Lit::Bool(_)),
        Expr::Paren(p) => native(&p.expr),
        _ => false,
    }
}
pub struct Lower<'a> {
    ctx: &'a mut Ctx,
    fi: usize,
    c: FnC,
    loops: usize,
    closures: usize,
    panics: usize,
    its: usize,
    nopanic: bool,
    /// combinators that Option and Result share are taken as Result's
    pub alt: bool,
    calls: BTreeSet<String>,
    lost: Vec<String>,
    met: BTreeSet<String>,
    kinds: Vec<&'static str>,
    /// locals that hold a `DebugStruct`, and the formatter it was made from
    builders: Vec<(String, Expr)>,
}
fn has_flow(e: &Expr) -> bool {
    struct V(bool);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut v = V(false);
    v.visit_expr_mut(&mut e.clone());
    v.0
}
/// evaluating it has no effect and cannot fail
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => plain(&p.expr),
        Expr::Tuple(t) => t.elems.iter().all(plain),
        Expr::Field(f) => plain(&f.base),
        Expr::Reference(r) => plain(&r.expr),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(char::is_uppercase))) && c.args.iter().all(plain),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| plain(&f.expr)),
        _ => false,
    }
}
const ITERISH: &[&str] = &["vx_iter", "iter", "vx_into_iter", "vx_map", "map", "vx_enumerate", "vx_skip", "vx_windows", "vx_chars", "vx_bytes", "vx_filter", "vx_rev", "vx_take", "vx_chain", "vx_zip", "vx_copied", "vx_cloned"];

impl<'a> Lower<'a> {
    pub fn new(ctx: &'a mut Ctx, fi: usize, c: &FnC) -> Self {
        let nopanic = c.flags.iter().any(|f| f == "nopanic");
        Lower { ctx, fi, c: c.clone(), loops: 0, closures: 0, panics: 0, its: 0, nopanic, alt: false, calls: Default::default(), lost: vec![], met: Default::default(), kinds: vec![], builders: vec![] }
    }
    pub fn finish(self) -> (Vec<String>, Vec<String>, String) {
        let mut lost = self.lost;
        for (p, _) in self.c.before.iter() {
            if !self.met.contains(p) {
                lost.push(format!("statement {p}"));
            }
        }
        for (k, _) in self.c.loops.iter() {
            if *k >= self.loops {
                lost.push(format!("loop {k}"));
            }
        }
        for (k, _) in self.c.closures.iter() {
            if *k >= self.closures {
                lost.push(format!("closure {k}"));
            }
        }
        (self.calls.into_iter().collect(), lost, format!("{}/{}", self.kinds.join(","), self.closures))
    }
    pub fn block(&mut self, b: &mut Block) {
        let root = self.ctx.root.clone();
        Paths { root: &root }.visit_block_mut(b);
        self.visit_block_mut(b);
    }
    fn raw(&mut self, t: String, k: &str) -> TokenStream {
        let fi = self.fi;
        self.ctx.raw(t, k, Some(fi))
    }

    /// Reference patterns: `&x` binds a copy, `&P(..)` matches through the reference.
    fn fix_pat(&mut self, p: &mut Pat, thru: bool, binds: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let mut inner = (*r.pat).clone();
                match &mut inner {
                    Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                        let n = i.ident.clone();
                        let m = format_ident!("vx_ref_{}", n);
                        let mt = i.mutability;
                        binds.push(if thru { parse_quote!(let #mt #n = **#m;) } else { parse_quote!(let #mt #n = *#m;) });
                        *p = parse_quote!(#m);
                    }
                    Pat::Wild(_) => *p = inner,
                    _ => {
                        self.fix_pat(&mut inner, true, binds);
                        *p = inner;
                    }
                }
            }
            Pat::Ident(i) if thru => {
                if i.by_ref.is_some() {
                    i.by_ref = None;
                    i.mutability = None;
                } else if i.ident.to_string().chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                    let n = i.ident.clone();
                    let m = format_ident!("vx_ref_{}", n);
                    binds.push(parse_quote!(let #n = *#m;));
                    *p = parse_quote!(#m);
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| self.fix_pat(e, thru, binds)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| self.fix_pat(e, thru, binds)),
            Pat::Struct(t) => t.fields.iter_mut().for_each(|f| {
                if f.colon_token.is_none() && thru {
                    // shorthand under a reference: spell it out
                    if let Member::Named(n) = f.member.clone() {
                        f.colon_token = Some(Default::default());
                        let _ = n;
                    }
                }
                self.fix_pat(&mut f.pat, thru, binds)
            }),
            Pat::Or(t) => t.cases.iter_mut().for_each(|e| self.fix_pat(e, thru, binds)),
            Pat::Paren(t) => {
                let mut i = (*t.pat).clone();
                self.fix_pat(&mut i, thru, binds);
                *p = i;
            }
            Pat::Type(t) => self.fix_pat(&mut t.pat, thru, binds),
            _ => {}
        }
        if let Pat::Or(_) = p {
            let mut seen = BTreeSet::new();
            binds.retain(|b| seen.insert(b.to_token_stream().to_string()));
        }
    }

    fn closure_arg(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) => {
                if has_flow(&c.body) {
                    return None;
                }
                Some((c.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect(), (*c.body).clone()))
            }
            _ => None,
        }
    }
    fn apply(f: &Expr, args: Vec<TokenStream>) -> Option<(Vec<Pat>, Expr)> {
        // a function value or a closure, as patterns for its arguments and its body
        if let Some(x) = Self::closure_arg(f) {
            return Some(x);
        }
        match f {
            Expr::Path(_) => {
                let pats: Vec<Pat> = args.iter().map(|a| parse_quote!(#a)).collect();
                Some((pats, parse_quote!(#f(#(#args),*))))
            }
            _ => None,
        }
    }
    fn outer_method(e: &Expr) -> Option<String> {
        match e {
            Expr::MethodCall(m) => Some(m.method.to_string()),
            Expr::Paren(p) => Self::outer_method(&p.expr),
            _ => None,
        }
    }
    fn root_is_self(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => Self::root_is_self(&m.receiver),
            Expr::Field(f) => Self::root_is_self(&f.base),
            Expr::Paren(p) => Self::root_is_self(&p.expr),
            Expr::Path(p) => p.path.is_ident("self"),
            _ => false,
        }
    }
    /// Combinators replaced by the `match` that defines them (before visiting children).
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        // a method of one of the crates' own types
        if self.ctx.inherent.contains(&format!("{}::{name}", self.ctx.root)) && Self::root_is_self(r) {
            return None;
        }
        let iterish = Self::outer_method(r).map(|n| ITERISH.contains(&n.as_str()) || ITERISH.contains(&format!("vx_{n}").as_str())).unwrap_or(false);
        match (name.as_str(), m.args.len()) {
            ("map", 1) if !iterish && self.alt => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }))
            }
            ("map", 1) if !iterish => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
            }
            ("and_then", 1) if !iterish && self.alt => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }))
            }
            ("and_then", 1) if !iterish => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
            }
            ("filter", 1) if !iterish => {
                let (p, b) = Self::closure_arg(&m.args[0])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Some(vx_v) => { let vx_keep = { let #p = &vx_v; #b }; if vx_keep { Some(vx_v) } else { None } } None => None }))
            }
            ("is_some_and", 1) => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => false }))
            }
            ("is_none_or", 1) => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => true }))
            }
            ("is_ok_and", 1) => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }))
            }
            ("is_err_and", 1) => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_e)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Ok(_) => false, Err(#p) => #b }))
            }
            ("or_else", 1) => {
                let (p, b) = Self::apply(&m.args[0], if self.alt { vec![quote!(vx_e)] } else { vec![] })?;
                Some(match p.first() {
                    None => parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b }),
                    Some(p) => parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => #b }),
                })
            }
            ("ok_or_else", 1) => {
                let (_, b) = Self::apply(&m.args[0], vec![])?;
                Some(parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) }))
            }
            ("ok_or", 1) => {
                let b = &m.args[0];
                if plain(b) {
                    return Some(parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) }));
                }
                Some(parse_quote!({ let vx_o = #r; let vx_d = #b; match vx_o { Some(vx_v) => Ok(vx_v), None => Err(vx_d) } }))
            }
            ("map_err", 1) => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_e)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) }))
            }
            ("unwrap_or_else", 1) => {
                let (p, b) = Self::apply(&m.args[0], if self.alt { vec![quote!(vx_e)] } else { vec![] })?;
                Some(match p.first() {
                    None => parse_quote!(match #r { Some(vx_v) => vx_v, None => #b }),
                    Some(p) => parse_quote!(match #r { Ok(vx_v) => vx_v, Err(#p) => #b }),
                })
            }
            ("map_or", 2) => {
                let d = &m.args[0];
                let (p, b) = Self::apply(&m.args[1], vec![quote!(vx_v)])?;
                let p = p.first()?;
                let (some, none) = if self.alt { (quote!(Ok), quote!(Err(_))) } else { (quote!(Some), quote!(None)) };
                if plain(d) {
                    return Some(parse_quote!(match #r { #some(#p) => #b, #none => #d }));
                }
                Some(parse_quote!({ let vx_o = #r; let vx_d = #d; match vx_o { #some(#p) => #b, #none => vx_d } }))
            }
            ("map_or_else", 2) => {
                let (pd, d) = Self::apply(&m.args[0], if self.alt { vec![quote!(vx_e)] } else { vec![] })?;
                let (p, b) = Self::apply(&m.args[1], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(match pd.first() {
                    None => parse_quote!(match #r { Some(#p) => #b, None => #d }),
                    Some(pd) => parse_quote!(match #r { Ok(#p) => #b, Err(#pd) => #d }),
                })
            }
            ("then", 1) if matches!(&m.args[0], Expr::Closure(_)) => {
                let (_, b) = Self::closure_arg(&m.args[0])?;
                Some(parse_quote!(if #r { Some(#b) } else { None }))
            }
            ("then_some", 1) => {
                let b = &m.args[0];
                Some(parse_quote!({ let vx_c = #r; let vx_d = #b; if vx_c { Some(vx_d) } else { None } }))
            }
            ("then_with", 1) => {
                let (_, b) = Self::apply(&m.args[0], vec![])?;
                Some(parse_quote!(match #r { crate::sx::cmp::Ordering::Equal => #b, vx_o => vx_o }))
            }
            ("map_left", 1) => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { crate::sx::either::Either::Left(#p) => crate::sx::either::Either::Left(#b), crate::sx::either::Either::Right(vx_r) => crate::sx::either::Either::Right(vx_r) }))
            }
            ("map_right", 1) => {
                let (p, b) = Self::apply(&m.args[0], vec![quote!(vx_v)])?;
                let p = p.first()?;
                Some(parse_quote!(match #r { crate::sx::either::Either::Right(#p) => crate::sx::either::Either::Right(#b), crate::sx::either::Either::Left(vx_l) => crate::sx::either::Either::Left(vx_l) }))
            }
            ("either_with", 3) => {
                let (x, kw) = match &**r {
                    Expr::MethodCall(i) if i.args.is_empty() && i.method == "as_mut" => (i.receiver.clone(), quote!(ref mut)),
                    Expr::MethodCall(i) if i.args.is_empty() && i.method == "as_ref" => (i.receiver.clone(), quote!(ref)),
                    _ => return None,
                };
                if x.to_token_stream().to_string() != "self" {
                    return None;
                }
                let ctx = &m.args[0];
                let (p1, b1) = Self::closure_arg(&m.args[1])?;
                let (p2, b2) = Self::closure_arg(&m.args[2])?;
                let (pl, pr) = (p1.get(1)?, p2.get(1)?);
                let (c1, c2) = (&p1[0], &p2[0]);
                Some(parse_quote!(match *self { crate::sx::either::Either::Left(#kw #pl) => { let #c1 = #ctx; #b1 }, crate::sx::either::Either::Right(#kw #pr) => { let #c2 = #ctx; #b2 } }))
            }
            ("either", 2) if matches!(&**r, Expr::MethodCall(i) if i.args.is_empty() && (i.method == "as_mut" || i.method == "as_ref") && i.receiver.to_token_stream().to_string() == "self") => {
                let kw = if Self::outer_method(r)? == "as_mut" { quote!(ref mut) } else { quote!(ref) };
                let (p1, b1) = Self::closure_arg(&m.args[0])?;
                let (p2, b2) = Self::closure_arg(&m.args[1])?;
                let (pl, pr) = (p1.first()?, p2.first()?);
                Some(parse_quote!(match *self { crate::sx::either::Either::Left(#kw #pl) => #b1, crate::sx::either::Either::Right(#kw #pr) => #b2 }))
            }
            _ => None,
        }
    }

    fn format_args(&mut self, m: &Macro) -> Option<Expr> {
        let a = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let mut it = a.into_iter();
        let f = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let args: Vec<Expr> = it.collect();
        let mut parts: Vec<TokenStream> = vec![];
        let mut cur = String::new();
        let mut auto = 0;
        let ch: Vec<char> = f.chars().collect();
        let mut i = 0;
        while i < ch.len() {
            match ch[i] {
                '{' if ch.get(i + 1) == Some(&'{') => {
                    cur.push('{');
                    i += 2;
                }
                '}' if ch.get(i + 1) == Some(&'}') => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    let e = (i..ch.len()).find(|&j| ch[j] == '}')?;
                    let spec: String = ch[i + 1..e].iter().collect();
                    let (pos, how) = spec.split_once(':').unwrap_or((&spec, ""));
                    let n = if pos.is_empty() {
                        auto += 1;
                        auto - 1
                    } else {
                        pos.parse::<usize>().ok()?
                    };
                    if !cur.is_empty() {
                        parts.push(self.ctx.lits.exec(&std::mem::take(&mut cur)));
                    }
                    let x = args.get(n)?;
                    match how {
                        "" => parts.push(quote!(&(#x))),
                        "?" => parts.push(quote!(&::core::fmt::Dbg(false, &(#x)))),
                        "#?" => parts.push(quote!(&::core::fmt::Dbg(true, &(#x)))),
                        _ => return None,
                    }
                    i = e + 1;
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() {
            parts.push(self.ctx.lits.exec(&cur));
        }
        let mut it = parts.into_iter();
        let mut e = it.next().unwrap_or_else(|| self.ctx.lits.exec(""));
        for p in it {
            e = quote!(crate::sx::fmt::cat(#e, #p));
        }
        parse2(e).ok()
    }
    fn panic_call(&mut self) -> Expr {
        let n = self.panics;
        self.panics += 1;
        let t = match self.c.panics.get(&n) {
            Some(t) => t.clone(),
            None if self.nopanic => "assert(false); //#".into(),
            None => String::new(),
        };
        let r = self.raw(t, "panic");
        Expr::Verbatim(quote!({ #r crate::sx::vx_panic() }))
    }
    fn is_panic(f: &Expr) -> bool {
        if let Expr::Path(p) = f {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            return v.iter().any(|s| s == "panicking" || s == "rt") && v.iter().any(|s| s == "sx");
        }
        false
    }
    /// `&x[a..b]`, `x[a..b].copy_from_slice(y)`: the ranges that panic when out of range
    fn range_index(&self, e: &Expr) -> Option<Expr> {
        fn parts(e: &Expr) -> Option<(Expr, Option<Expr>, Option<Expr>)> {
            match e {
                Expr::Paren(p) => parts(&p.expr),
                Expr::Index(i) => {
                    let mut r = &*i.index;
                    while let Expr::Paren(p) = r {
                        r = &p.expr;
                    }
                    match r {
                        Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                            Some(((*i.expr).clone(), r.start.as_deref().cloned(), r.end.as_deref().cloned()))
                        }
                        _ => None,
                    }
                }
                _ => None,
            }
        }
        let sub = |x: Expr, a: Option<Expr>, b: Option<Expr>| -> Expr {
            match (a, b) {
                (Some(a), Some(b)) => parse_quote!((#x).vx_sub_range(#a, #b)),
                (Some(a), None) => parse_quote!((#x).vx_sub_from(#a)),
                (None, Some(b)) => parse_quote!((#x).vx_sub_to(#b)),
                (None, None) => parse_quote!((#x).vx_sub_from(0)),
            }
        };
        match e {
            Expr::Reference(r) if r.mutability.is_none() => {
                let (x, a, b) = parts(&r.expr)?;
                Some(sub(x, a, b))
            }
            Expr::MethodCall(m) => {
                let (x, a, b) = parts(&m.receiver)?;
                if m.method == "copy_from_slice" && m.args.len() == 1 {
                    let a = a.unwrap_or(parse_quote!(0));
                    let b = b.unwrap_or(parse_quote!((#x).len()));
                    let y = &m.args[0];
                    return Some(parse_quote!((#x).vx_copy_range(#a, #b, #y)));
                }
                let mut m = m.clone();
                *m.receiver = sub(x, a, b);
                Some(Expr::MethodCall(m))
            }
            _ => None,
        }
    }
    /// a `match` on byte strings or strings: a chain of comparisons
    fn bytes_match(e: &Expr) -> Option<Expr> {
        let Expr::Match(m) = e else { return None };
        let lit = |p: &Pat| match p {
            Pat::Lit(l) if matches!(l.lit, Lit::ByteStr(_) | Lit::Str(_)) => Some(l.clone()),
            _ => None,
        };
        if m.arms.len() < 2 || !m.arms[..m.arms.len() - 1].iter().all(|a| lit(&a.pat).is_some() && a.guard.is_none()) {
            return None;
        }
        let last = m.arms.last().unwrap();
        if !matches!(last.pat, Pat::Wild(_)) || last.guard.is_some() {
            return None;
        }
        let mut out = (*last.body).clone();
        for a in m.arms[..m.arms.len() - 1].iter().rev() {
            let l = lit(&a.pat).unwrap();
            let b = &a.body;
            let f = if matches!(l.lit, Lit::Str(_)) { format_ident!("eqs") } else { format_ident!("eqb") };
            out = parse_quote!(if crate::sx::cmp::#f(vx_m, #l) { #b } else { #out });
        }
        let x = &m.expr;
        Some(parse_quote!({ let vx_m = #x; #out }))
    }
    /// `f.debug_struct(N).field(a, x)…`: what has been collected, and the formatter; a local builder counts as its own start
    fn debug_chain(&self, e: &Expr) -> Option<(Expr, Expr, bool)> {
        match e {
            Expr::MethodCall(m) if m.method == "debug_struct" && m.args.len() == 1 => {
                let n = &m.args[0];
                Some((parse_quote!(crate::sx::fmt::Ds::vx_new(#n)), (*m.receiver).clone(), false))
            }
            Expr::MethodCall(m) if m.method == "field" && m.args.len() == 2 => {
                let (d, f, l) = self.debug_chain(&m.receiver)?;
                let (n, v) = (&m.args[0], &m.args[1]);
                Some((parse_quote!(#d.vx_field(#n, #v)), f, l))
            }
            Expr::Path(p) => {
                let i = p.path.get_ident()?.to_string();
                let f = self.builders.iter().find(|b| b.0 == i)?.1.clone();
                Some((e.clone(), f, true))
            }
            _ => None,
        }
    }
    fn debug(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.method == "finish" && m.args.is_empty() => {
                let (d, f, _) = self.debug_chain(&m.receiver)?;
                Some(parse_quote!((#f).vx_debug_struct(#d)))
            }
            Expr::MethodCall(m) if m.method == "field" => {
                let (d, _, true) = self.debug_chain(e)? else { return None };
                let mut r = &m.receiver;
                while let Expr::MethodCall(x) = &**r {
                    r = &x.receiver;
                }
                Some(parse_quote!(#r = #d))
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let s = p.path.segments.last()?.ident.to_string();
                if !(s.starts_with("debug_struct_field") && s.ends_with("_finish")) || c.args.len() < 3 {
                    return None;
                }
                let Expr::Lit(ExprLit { lit: Lit::Str(n), .. }) = &c.args[1] else { return None };
                let n = n.value();
                let names: Vec<&str> = n.split(' ').collect();
                let (f, vals) = (&c.args[0], c.args.iter().skip(2).collect::<Vec<_>>());
                if names.len() != vals.len() + 1 {
                    return None;
                }
                let n = names[0];
                let mut d: Expr = parse_quote!(crate::sx::fmt::Ds::vx_new(#n));
                for (n, v) in names[1..].iter().zip(vals) {
                    d = parse_quote!(#d.vx_field(#n, #v));
                }
                Some(parse_quote!((#f).vx_debug_struct(#d)))
            }
            _ => None,
        }
    }
    fn deref_side(e: &Expr) -> Option<TokenStream> {
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => Some(quote!((#expr).vx_r())),
            Expr::Paren(p) => Self::deref_side(&p.expr),
            _ => None,
        }
    }
    fn wrap_body(&mut self, b: &mut Block, binds: Vec<Stmt>) {
        for s in binds.into_iter().rev() {
            b.stmts.insert(0, s);
        }
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
            if let Some((d, f, false)) = self.debug_chain(&init.expr) {
                self.builders.push((i.ident.to_string(), f));
                *init.expr = d;
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `let` with reference patterns
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let mut binds = vec![];
            if let Stmt::Local(l) = &mut s {
                self.fix_pat(&mut l.pat, false, &mut binds);
            }
            out.push(s);
            out.extend(binds);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        if !self.c.before.is_empty() {
            let mut out = vec![];
            for s in b.stmts.drain(..) {
                let t: String = s.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                for (pat, text) in self.c.before.clone() {
                    let p: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                    if t.starts_with(&p) {
                        self.met.insert(pat.clone());
                        let r = self.raw(text, "ghost");
                        out.push(Stmt::Expr(Expr::Verbatim(r), None));
                    }
                }
                out.push(s);
            }
            b.stmts = out;
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut binds = vec![];
        self.fix_pat(&mut a.pat, false, &mut binds);
        visit_mut::visit_arm_mut(self, a);
        if !binds.is_empty() {
            let b = &a.body;
            *a.body = parse_quote!({ #(#binds)* #b });
            if let Some((_, g)) = &mut a.guard {
                **g = parse_quote!({ #(#binds)* #g });
            }
        }
    }
    fn visit_pat_mut(&mut self, _p: &mut Pat) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- before the children
        if let Some(x) = self.range_index(e) {
            *e = x;
            return self.visit_expr_mut(e);
        }
        if let Some(x) = self.debug(e) {
            *e = x;
            return self.visit_expr_mut(e);
        }
        if let Some(x) = Self::bytes_match(e) {
            *e = x;
            return self.visit_expr_mut(e);
        }
        if self.c.flags.iter().any(|f| f == "wrap") {
            if let Expr::Binary(b) = e {
                let (l, r) = (&b.left, &b.right);
                let x: Option<Expr> = match b.op {
                    BinOp::Sub(_) => Some(parse_quote!(crate::sx::ix::vx_sub(#l, #r))),
                    BinOp::Add(_) => Some(parse_quote!(crate::sx::ix::vx_add(#l, #r))),
                    BinOp::AddAssign(_) => Some(parse_quote!(#l = crate::sx::ix::vx_add(#l, #r))),
                    BinOp::SubAssign(_) => Some(parse_quote!(#l = crate::sx::ix::vx_sub(#l, #r))),
                    _ => None,
                };
                if let Some(x) = x {
                    *e = x;
                    return self.visit_expr_mut(e);
                }
            }
        }
        match e {
            Expr::MethodCall(m) => {
                if let Some(x) = self.combinator(m) {
                    *e = x;
                    return self.visit_expr_mut(e);
                }
                if m.method == "write_char" && m.args.len() == 1 {
                    if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] {
                        let s = LitStr::new(&c.value().to_string(), c.span());
                        m.args[0] = parse_quote!(#s);
                        m.method = format_ident!("write_str");
                    }
                }
                // into a buffer of its own that has room for every character
                if m.method == "encode_utf8" && m.args.len() == 1 {
                    let a = m.args[0].to_token_stream().to_string().replace(' ', "");
                    if ["&mut[0;4]", "&mut[0u8;4]", "&mut[0_u8;4]"].contains(&&*a) {
                        let c = (*m.receiver).clone();
                        *e = parse_quote!(crate::sx::fmt::ch_str(#c));
                        return self.visit_expr_mut(e);
                    }
                }
            }
            Expr::Macro(m) if m.mac.path.segments.last().map(|s| s.ident == "format_args").unwrap_or(false) => {
                if let Some(mut x) = self.format_args(&m.mac.clone()) {
                    let root = self.ctx.root.clone();
                    // the arguments have not been through the path rewriting yet
                    struct P<'b>(Paths<'b>);
                    impl<'b> VisitMut for P<'b> {
                        fn visit_expr_reference_mut(&mut self, r: &mut ExprReference) {
                            self.0.visit_expr_mut(&mut r.expr);
                        }
                    }
                    P(Paths { root: &root }).visit_expr_mut(&mut x);
                    *e = x;
                    return self.visit_expr_mut(e);
                }
                self.lost.push("format_args!".into());
                return;
            }
            Expr::Call(c) if Self::is_panic(&c.func) => {
                *e = self.panic_call();
                return;
            }
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return self.visit_expr_mut(e);
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let t = self.ctx.lits.exec(&s.value());
                *e = parse2(t).unwrap();
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                if let Ok(s) = String::from_utf8(s.value()) {
                    if s.is_ascii() {
                        let t = self.ctx.lits.exec(&s);
                        *e = parse_quote!(#t.as_bytes());
                        return;
                    }
                }
                self.lost.push("byte string".into());
                return;
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::AddAssign(_)) && (matches!(&*b.right, Expr::Reference(r) if r.mutability.is_none()) || matches!(&*b.right, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) => {
                // a `String` and a text
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Add(_)) { parse_quote!(crate::sx::string::vx_add(#l, #r)) } else { parse_quote!(crate::sx::string::vx_add_assign(&mut #l, #r)) };
                return self.visit_expr_mut(e);
            }
            Expr::Binary(b) => {
                use BinOp::*;
                let name = match b.op {
                    Lt(_) => Some("lt"),
                    Le(_) => Some("le"),
                    Gt(_) => Some("gt"),
                    Ge(_) => Some("ge"),
                    Eq(_) => Some("eqd"),
                    Ne(_) => Some("ned"),
                    _ => None,
                };
                if let (Some(n), false) = (name, native(&b.left) || native(&b.right)) {
                    let (l, r) = (Self::deref_side(&b.left), Self::deref_side(&b.right));
                    if l.is_some() || r.is_some() {
                        let (bl, br) = (&b.left, &b.right);
                        let l = l.unwrap_or(quote!(&(#bl)));
                        let r = r.unwrap_or(quote!(&(#br)));
                        let f = format_ident!("{}", n);
                        *e = parse_quote!(crate::sx::cmp::#f(#l, #r));
                        return self.visit_expr_mut(e);
                    }
                }
            }
            _ => {}
        }
        // reference patterns in `if let`, `while let`, `for`, closures
        match e {
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut binds = vec![];
                    self.fix_pat(&mut l.pat, false, &mut binds);
                    self.wrap_body(&mut i.then_branch, binds);
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &mut *w.cond {
                    let mut binds = vec![];
                    self.fix_pat(&mut l.pat, false, &mut binds);
                    self.wrap_body(&mut w.body, binds);
                }
            }
            Expr::ForLoop(f) => {
                let mut binds = vec![];
                self.fix_pat(&mut f.pat, false, &mut binds);
                self.wrap_body(&mut f.body, binds);
            }
            Expr::Closure(c) => {
                let mut binds = vec![];
                for p in c.inputs.iter_mut() {
                    let mut q = if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() };
                    if !matches!(q, Pat::Ident(_)) {
                        // Verus wants plain closure parameters
                        let n = format_ident!("vx_c{}", binds.len());
                        let by_ref = matches!(q, Pat::Reference(_));
                        let mut bs = vec![];
                        self.fix_pat(&mut q, false, &mut bs);
                        let _ = by_ref;
                        if !matches!(q, Pat::Wild(_)) {
                            binds.push(parse_quote!(let #q = #n;));
                        }
                        binds.extend(bs);
                        *p = parse_quote!(#n);
                    }
                }
                if !binds.is_empty() {
                    let b = &c.body;
                    *c.body = parse_quote!({ #(#binds)* #b });
                }
            }
            _ => {}
        }
        let loop_no = if matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) {
            self.loops += 1;
            self.kinds.push(match e {
                Expr::While(_) => "while",
                Expr::ForLoop(_) => "for",
                _ => "loop",
            });
            Some(self.loops - 1)
        } else {
            None
        };
        let clo_no = if matches!(e, Expr::Closure(_)) {
            self.closures += 1;
            Some(self.closures - 1)
        } else {
            None
        };
        visit_mut::visit_expr_mut(self, e);
        // ---- after the children
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.calls.insert(n.clone());
                if n == "unwrap" && self.nopanic {
                    m.method = format_ident!("vx_unwrap_np");
                } else if let Some(i) = renamed(&n) {
                    m.method = i;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(s) = p.path.segments.last() {
                        self.calls.insert(s.ident.to_string().trim_start_matches("vx_").to_string());
                    }
                }
            }
            Expr::Path(p) => {
                let n = p.path.segments.len();
                // a free function keeps its name
                let free = p.qself.is_none() && n >= 2 && {
                    let f = p.path.segments[0].ident.to_string();
                    let m = p.path.segments[n - 2].ident.to_string();
                    (f == "super" || f == "self" || (f == "crate" && p.path.segments[1].ident != "sx")) && m.starts_with(|c: char| c.is_lowercase())
                };
                if n >= 2 && p.path.segments[n - 2].ident == "String" && ["new", "with_capacity"].contains(&p.path.segments[n - 1].ident.to_string().as_str()) {
                    let s = p.path.segments.last_mut().unwrap();
                    s.ident = format_ident!("vx_{}", s.ident);
                }
                if (n >= 2 && !free) || p.qself.is_some() {
                    if let Some(s) = p.path.segments.last_mut() {
                        if let Some(i) = renamed(&s.ident.to_string()) {
                            s.ident = i;
                        }
                    }
                }
            }
            Expr::While(w) => {
                let t = self.c.loops.get(&loop_no.unwrap()).cloned();
                if t.is_none() {
                    self.lost.push(format!("no invariant for loop {}", loop_no.unwrap()));
                }
                let r = self.raw(t.unwrap_or_default(), "loop");
                let (l, c, b) = (&w.label, &w.cond, &w.body);
                *e = Expr::Verbatim(quote!(#l while #c #r #b));
            }
            Expr::Loop(w) => {
                let t = self.c.loops.get(&loop_no.unwrap()).cloned();
                if t.is_none() {
                    self.lost.push(format!("no invariant for loop {}", loop_no.unwrap()));
                }
                let r = self.raw(t.unwrap_or_default(), "loop");
                let (l, b) = (&w.label, &w.body);
                *e = Expr::Verbatim(quote!(#l loop #r #b));
            }
            Expr::ForLoop(f) => {
                let t = self.c.loops.get(&loop_no.unwrap()).cloned();
                if t.is_none() {
                    self.lost.push(format!("no invariant for loop {}", loop_no.unwrap()));
                }
                let it = format_ident!("vx_it{}", self.its);
                let i0 = format_ident!("vx_init{}", self.its);
                self.its += 1;
                let r = self.raw(t.unwrap_or_default(), "loop");
                let (l, p, x, b) = (&f.label, &f.pat, &mut f.expr, &f.body);
                // a temporary of the iterated expression lives as long as the loop
                let mut keep = None;
                if let Expr::MethodCall(m) = &mut **x {
                    if m.method == "as_bytes" && matches!(&*m.receiver, Expr::MethodCall(_)) {
                        let r = &m.receiver;
                        keep = Some(quote!(let vx_keep = #r;));
                        *m.receiver = parse_quote!(vx_keep);
                    }
                }
                *e = Expr::Verbatim(quote!({
                    #keep
                    let mut #it = crate::sx::iter::IntoIterator::vx_into_iter(#x);
                    let ghost #i0 = #it.rem();
                    #l loop #r { match #it.vx_next() { Some(#p) => #b None => { break; } } }
                }));
            }
            Expr::Closure(c) => {
                match self.c.closures.get(&clo_no.unwrap()).cloned() {
                    Some(t) => {
                        // "$0", "$1": the parameters as the source names them
                        let mut t = t;
                        for (i, p) in c.inputs.iter().enumerate() {
                            t = t.replace(&format!("${i}"), &p.to_token_stream().to_string());
                        }
                        let r = self.raw(t, "closure");
                        let b = &c.body;
                        let mv = &c.capture;
                        *e = Expr::Verbatim(quote!(#mv #r { #b }));
                    }
                    None => {
                        self.lost.push(format!("no specification for closure {}", clo_no.unwrap()));
                        let plain = c.inputs.iter().all(|p| matches!(p, Pat::Ident(_)) || matches!(p, Pat::Type(t) if matches!(*t.pat, Pat::Ident(_))));
                        if plain && matches!(c.output, ReturnType::Default) && boolean(&c.body) && pure(&c.body) {
                            // a plain condition specifies itself
                            let (mv, i, b) = (&c.capture, &c.inputs, &c.body);
                            *e = Expr::Verbatim(quote!(#mv |#i| -> (vx_q: bool) ensures vx_q == (#b) { #b }));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
