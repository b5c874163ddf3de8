//! Calls to helper functions that have no contract are replaced by the helpers' bodies, so that the caller is checked
//! against what the helper does.  Also: loops and early exits brought into the forms the contracts speak about.
use crate::contracts::{key_match, Contracts};
use crate::{key_type, toks};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    key: String,
    /// the type it belongs to (its key) and that type's path, for inherent functions
    owner: Option<(String, Type)>,
    /// the enclosing function, for nested ones
    within: Option<String>,
    sig: Signature,
    body: Block,
}
pub struct Inliner<'a> {
    con: &'a Contracts,
    free: BTreeMap<String, Vec<Option<Helper>>>,
    inherent: BTreeMap<String, Vec<(String, Option<Helper>)>>,
    pub done: BTreeSet<String>,
    pub kept: BTreeSet<String>,
    n: usize,
}

/// visits the expressions inside `format_args!` too
fn in_macro(m: &mut Macro, mut f: impl FnMut(&mut Expr)) {
    if m.path.segments.last().map_or(false, |s| s.ident == "format_args") {
        if let Ok(mut a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in a.iter_mut() {
                f(e);
            }
            m.tokens = a.to_token_stream();
        }
    }
}
fn idents(e: &impl ToTokens) -> BTreeSet<String> {
    fn go(ts: TokenStream, o: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    o.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), o),
                _ => {}
            }
        }
    }
    let mut o = BTreeSet::new();
    go(e.to_token_stream(), &mut o);
    o
}
/// names bound anywhere in a body
pub fn binders(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            let n = p.ident.to_string();
            if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0.push(n);
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_item_mut(&mut self, _i: &mut Item) {}
    }
    let mut v = V(vec![]);
    v.visit_block_mut(&mut b.clone());
    v.0
}
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.segments.len() == 1,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => place(expr),
        _ => false,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
/// `name` stands for a reference to a place: `name.f` is `place.f`, `*name` is the place, `name` alone is `&place`
struct ToPlace {
    name: String,
    place: Expr,
    by: Option<Option<Token![mut]>>,
}
impl ToPlace {
    fn is(&self, e: &Expr) -> bool {
        matches!(strip(e), Expr::Path(p) if p.path.is_ident(&self.name))
    }
}
impl VisitMut for ToPlace {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let p = self.place.clone();
        match e {
            Expr::Field(f) if self.is(&f.base) => {
                *f.base = p;
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = p;
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if self.by.is_some() && self.is(expr) => {
                *e = p;
                return;
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    f.colon_token.get_or_insert_with(Default::default);
                }
            }
            Expr::Path(_) if self.is(e) => {
                *e = match &self.by {
                    None => p,
                    Some(m) => parse_quote!(&#m #p),
                };
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut s = ToPlace { name: self.name.clone(), place: self.place.clone(), by: self.by };
        in_macro(m, |e| s.visit_expr_mut(e));
    }
}
struct SelfTy(Type);
impl VisitMut for SelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments[0].ident == "Self" {
            if let Type::Path(t) = &self.0 {
                let mut t = t.path.clone();
                if let Some(l) = t.segments.last_mut() {
                    l.arguments = PathArguments::None;
                }
                let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                t.segments.extend(rest);
                *p = t;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut s = SelfTy(self.0.clone());
        in_macro(m, |e| s.visit_expr_mut(e));
    }
}

struct Flow {
    ret: bool,
    tr: bool,
}
impl VisitMut for Flow {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) => self.ret = true,
            Expr::Try(_) => self.tr = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _i: &mut Item) {}
}
fn flow(b: &Block) -> Flow {
    let mut f = Flow { ret: false, tr: false };
    f.visit_block_mut(&mut b.clone());
    f
}
fn flow_e(e: &Expr) -> Flow {
    let mut f = Flow { ret: false, tr: false };
    f.visit_expr_mut(&mut e.clone());
    f
}
/// the value of a block that ends in `return v` (with or without `;`), the statements before it kept
fn ends_in_return(b: &Block) -> Option<Block> {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(r), _)) => {
            let mut n = b.clone();
            n.stmts.pop();
            if flow(&n).ret {
                return None;
            }
            if let Some(e) = &r.expr {
                n.stmts.push(Stmt::Expr((**e).clone(), None));
            }
            Some(n)
        }
        _ => None,
    }
}
fn arm_block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
    }
}
/// The same block without `return`, if its early exits have a plain form.
fn no_return(b: &Block) -> Option<Block> {
    if !flow(b).ret {
        return Some(b.clone());
    }
    if let Some(n) = ends_in_return(b) {
        return Some(n);
    }
    let i = b.stmts.iter().position(|s| {
        let mut f = Flow { ret: false, tr: false };
        f.visit_stmt_mut(&mut s.clone());
        f.ret
    })?;
    let head = &b.stmts[..i];
    let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
    let tail = i + 1 == b.stmts.len();
    let e: Expr = match &b.stmts[i] {
        Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() && !flow_e(&x.cond).ret => {
            let (a, r, c) = (ends_in_return(&x.then_branch).or_else(|| if tail { no_return(&x.then_branch) } else { None })?, no_return(&rest)?, &x.cond);
            parse_quote!(if #c #a else #r)
        }
        Stmt::Expr(Expr::If(x), None) if tail && !flow_e(&x.cond).ret => {
            let (a, el, c) = (no_return(&x.then_branch)?, no_return(&arm_block(&x.else_branch.as_ref()?.1))?, &x.cond);
            parse_quote!(if #c #a else #el)
        }
        Stmt::Expr(Expr::Match(x), None) if tail && !flow_e(&x.expr).ret => {
            let mut m = x.clone();
            for a in m.arms.iter_mut() {
                let n = no_return(&arm_block(&a.body))?;
                *a.body = parse_quote!(#n);
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        // `let p = match x { q => v, r => return e };`
        Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr {
            Expr::Match(x) if !flow_e(&x.expr).ret => {
                let mut m = x.clone();
                let n = m.arms.iter().filter(|a| !flow_e(&a.body).ret).count();
                if n != 1 {
                    return None;
                }
                for a in m.arms.iter_mut() {
                    if flow_e(&a.body).ret {
                        let v = ends_in_return(&arm_block(&a.body))?;
                        *a.body = parse_quote!(#v);
                    } else {
                        let (v, r) = (&a.body, no_return(&rest)?);
                        let st = &r.stmts;
                        *a.body = parse_quote!({ let #pat = #v; #(#st)* });
                    }
                    a.comma = Some(Default::default());
                }
                Expr::Match(m)
            }
            _ => return None,
        },
        // `let p = x else { return e };`
        Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) if !flow_e(expr).ret => {
            let (v, r) = (ends_in_return(&arm_block(d))?, no_return(&rest)?);
            parse_quote!(match #expr { #pat => #r, _ => #v })
        }
        _ => return None,
    };
    let mut stmts = head.to_vec();
    stmts.push(Stmt::Expr(e, None));
    Some(Block { brace_token: Default::default(), stmts })
}

impl<'a> Inliner<'a> {
    pub fn new(con: &'a Contracts) -> Self {
        Inliner { con, free: Default::default(), inherent: Default::default(), done: Default::default(), kept: Default::default(), n: 0 }
    }
    fn contracted(&self, key: &str) -> bool {
        self.con.fns.iter().any(|c| key_match(&c.key, key))
    }
    pub fn collect(&mut self, items: &[Item], path: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, c)) = &m.content {
                        self.collect(c, &format!("{path}::{}", m.ident));
                    }
                }
                Item::Fn(f) => {
                    self.add_free(path, &f.sig, &f.block, None);
                    self.nested(path, &f.block, &f.sig.ident.to_string(), &f.sig.ident.to_string());
                }
                Item::Impl(im) => {
                    let ty = key_type(&im.self_ty, &im.generics);
                    let short: String = ty.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    for i in &im.items {
                        if let ImplItem::Fn(f) = i {
                            self.nested(path, &f.block, &f.sig.ident.to_string(), &short);
                            if im.trait_.is_none() {
                                let key = format!("{path}::{ty}::{}", f.sig.ident);
                                let h = (!self.contracted(&key)).then(|| Helper { key, owner: Some((ty.clone(), (*im.self_ty).clone())), within: None, sig: f.sig.clone(), body: f.block.clone() });
                                self.inherent.entry(f.sig.ident.to_string()).or_default().push((ty.clone(), h));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn add_free(&mut self, path: &str, sig: &Signature, body: &Block, within: Option<(String, String)>) {
        let name = sig.ident.to_string();
        let key = match &within {
            Some((ctx, _)) => format!("{path}::{name}__{ctx}"),
            None => format!("{path}::{name}"),
        };
        let h = (!self.contracted(&key)).then(|| Helper { key, owner: None, within: within.map(|w| w.1), sig: sig.clone(), body: body.clone() });
        self.free.entry(name).or_default().push(h);
    }
    fn nested(&mut self, path: &str, b: &Block, fname: &str, parent: &str) {
        let ctx = if parent == fname { fname.to_string() } else { format!("{parent}_{fname}") };
        for s in &b.stmts {
            if let Stmt::Item(Item::Fn(f)) = s {
                self.add_free(path, &f.sig, &f.block, Some((ctx.clone(), format!("{path}::{parent}::{fname}"))));
            }
        }
    }
    pub fn run(&mut self, items: &mut [Item], path: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, c)) = &mut m.content {
                        let p = format!("{path}::{}", m.ident);
                        self.run(c, &p);
                    }
                }
                Item::Fn(f) => {
                    let id = format!("{path}::{0}::{0}", f.sig.ident);
                    self.body(&mut f.block, &f.sig, None, &id);
                }
                Item::Impl(im) => {
                    let ty = key_type(&im.self_ty, &im.generics);
                    let short: String = ty.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    let sig_ty = (ty, (*im.self_ty).clone());
                    for i in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = i {
                            let id = format!("{path}::{short}::{}", f.sig.ident);
                            let sig = f.sig.clone();
                            self.body(&mut f.block, &sig, Some(&sig_ty), &id);
                        }
                    }
                }
                Item::Trait(t) => {
                    for i in t.items.iter_mut() {
                        if let TraitItem::Fn(TraitItemFn { default: Some(b), sig, .. }) = i {
                            let sig = sig.clone();
                            self.body(b, &sig, None, &format!("{path}::{}::{}", t.ident, sig.ident));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn body(&mut self, b: &mut Block, sig: &Signature, ty: Option<&(String, Type)>, id: &str) {
        // a helper passed as a value: `f(helper)` as `f(|x| helper(x))`
        let mut locals = binders(b);
        locals.extend(sig.inputs.iter().filter_map(|a| if let FnArg::Typed(PatType { pat, .. }) = a { Some(pat.to_token_stream().to_string()) } else { None }));
        let (mut paths, mut etas) = (Values(vec![]), vec![]);
        paths.visit_block_mut(b);
        for p in paths.0 {
            if p.path.get_ident().map_or(false, |i| locals.contains(&i.to_string())) {
                continue;
            }
            let call: Expr = parse_quote!(#p());
            let v = Calls { inl: self, ty, sig, id, hit: false, tail: None };
            if let Some((h, None, _)) = v.find(&call) {
                let ins = &h.sig.inputs;
                if ins.is_empty() || ins.iter().any(|a| matches!(a, FnArg::Receiver(_))) || !h.sig.generics.params.is_empty() {
                    continue;
                }
                let n: Vec<Ident> = (0..ins.len()).map(|i| format_ident!("vx_eta{i}")).collect();
                let t: Vec<&Type> = ins.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(&*t.ty) } else { None }).collect();
                let c: Expr = if t.iter().any(|t| t.to_token_stream().to_string().contains("impl ")) { continue } else { parse_quote!(|#(#n: #t),*| #p(#(#n),*)) };
                etas.push((toks(&p), c));
            }
        }
        if !etas.is_empty() {
            Eta(etas).visit_block_mut(b);
        }
        for _ in 0..4 {
            let mut v = Calls { inl: self, ty, sig, id, hit: false, tail: None };
            v.tail(b);
            v.visit_block_mut(b);
            if !v.hit {
                break;
            }
        }
        Norm.visit_block_mut(b);
    }
    fn expand(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>, caller: Option<&(String, Type)>, sig: &Signature, try_ok: bool) -> Option<Block> {
        if h.sig.asyncness.is_some() || h.sig.variadic.is_some() {
            return None;
        }
        let f = flow(&h.body);
        if f.tr && !try_ok {
            return None;
        }
        let mut body = no_return(&h.body)?;
        if matches!(h.sig.output, ReturnType::Default) {
            // a unit body keeps its value to itself
        }
        if let Some((k, t)) = &h.owner {
            if caller.map_or(true, |c| c.0 != *k) {
                SelfTy(t.clone()).visit_block_mut(&mut body);
            }
        }
        let mut pre: Vec<Stmt> = vec![];
        let mut inputs: Vec<FnArg> = h.sig.inputs.iter().cloned().collect();
        let mut args = args;
        let mut recv = recv.cloned();
        if let Some(FnArg::Receiver(r)) = inputs.first().cloned() {
            inputs.remove(0);
            if recv.is_none() {
                // `Self::f(self, ..)`: the first argument
                if args.is_empty() {
                    return None;
                }
                let a = args.remove(0);
                recv = Some(match strip(&a) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    a => a.clone(),
                });
            }
            let recv = recv.unwrap();
            let is_self = matches!(strip(&recv), Expr::Path(p) if p.path.is_ident("self"));
            let self_ref = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_some());
            if let Some(_) = r.reference {
                if is_self && self_ref {
                } else {
                    let p = if place(&recv) {
                        recv
                    } else {
                        self.n += 1;
                        let n = format_ident!("vx_self{}", self.n);
                        pre.push(parse_quote!(let mut #n = #recv;));
                        parse_quote!(#n)
                    };
                    ToPlace { name: "self".into(), place: p, by: Some(r.mutability) }.visit_block_mut(&mut body);
                }
            } else {
                self.n += 1;
                let n = format_ident!("vx_self{}", self.n);
                let m = r.mutability;
                pre.push(parse_quote!(let #m #n = #recv;));
                ToPlace { name: "self".into(), place: parse_quote!(#n), by: None }.visit_block_mut(&mut body);
            }
        } else if recv.is_some() {
            return None;
        }
        if inputs.len() != args.len() {
            return None;
        }
        let gens: BTreeSet<String> = h.sig.generics.params.iter().filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(t) => Some(t.ident.to_string()),
            _ => None,
        }).collect();
        let bound: BTreeSet<String> = binders(&h.body).into_iter().collect();
        let params: BTreeSet<String> = inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None } } else { None }).collect();
        let mut late: Vec<Stmt> = vec![];
        let mut subs = vec![];
        for (i, a) in inputs.iter().zip(args.into_iter()) {
            let FnArg::Typed(t) = i else { return None };
            let simple = match &*t.pat {
                Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
                _ => None,
            };
            if let (Pat::Wild(_), true) = (&*t.pat, place(&a) || matches!(a, Expr::Lit(_))) {
                continue;
            }
            if let Some(n) = &simple {
                let clash = |e: &Expr| idents(e).iter().any(|x| bound.contains(x) || (x != n && params.contains(x)));
                // a parameter bound again inside is left alone
                if !bound.contains(n) {
                    match strip(&a) {
                        Expr::Path(p) if p.path.get_ident().is_some() && !clash(&a) => {
                            if !p.path.is_ident(n) {
                                subs.push(ToPlace { name: n.clone(), place: a.clone(), by: None });
                            }
                            continue;
                        }
                        Expr::Lit(_) => {
                            subs.push(ToPlace { name: n.clone(), place: a.clone(), by: None });
                            continue;
                        }
                        Expr::Reference(r) if place(&r.expr) && !clash(&r.expr) => {
                            subs.push(ToPlace { name: n.clone(), place: (*r.expr).clone(), by: Some(r.mutability) });
                            continue;
                        }
                        _ => {}
                    }
                }
            }
            self.n += 1;
            let n = format_ident!("vx_arg{}", self.n);
            pre.push(parse_quote!(let #n = #a;));
            let mut ty = (*t.ty).clone();
            struct L;
            impl VisitMut for L {
                fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                    r.lifetime = None;
                    visit_mut::visit_type_reference_mut(self, r);
                }
            }
            L.visit_type_mut(&mut ty);
            let typed = !matches!(ty, Type::ImplTrait(_)) && !toks(&ty).contains("impl") && !idents(&ty).iter().any(|i| gens.contains(i)) && !toks(&ty).contains('\'') && !toks(&ty).contains("Self");
            let p = &t.pat;
            late.push(if typed { parse_quote!(let #p: #ty = #n;) } else { parse_quote!(let #p = #n;) });
        }
        for mut s in subs {
            s.visit_block_mut(&mut body);
        }
        let st = &body.stmts;
        let b: Block = if pre.is_empty() && late.is_empty() { parse_quote!({ #(#st)* }) } else { parse_quote!({ #(#pre)* #(#late)* #(#st)* }) };
        Some(b)
    }
}

/// the plain paths among the arguments of calls
struct Values(Vec<ExprPath>);
impl VisitMut for Values {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let args = match e {
            Expr::Call(c) => &c.args,
            Expr::MethodCall(m) => &m.args,
            _ => return,
        };
        self.0.extend(args.iter().filter_map(|a| if let Expr::Path(p) = a { Some(p.clone()) } else { None }));
    }
    fn visit_item_mut(&mut self, _i: &mut Item) {}
}
struct Eta(Vec<(String, Expr)>);
impl VisitMut for Eta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let args = match e {
            Expr::Call(c) => &mut c.args,
            Expr::MethodCall(m) => &mut m.args,
            _ => return,
        };
        for a in args.iter_mut() {
            if let Some((_, c)) = matches!(a, Expr::Path(_)).then(|| self.0.iter().find(|(t, _)| *t == toks(a))).flatten() {
                *a = c.clone();
            }
        }
    }
    fn visit_item_mut(&mut self, _i: &mut Item) {}
}
struct Calls<'b, 'a> {
    inl: &'b mut Inliner<'a>,
    ty: Option<&'b (String, Type)>,
    sig: &'b Signature,
    id: &'b str,
    hit: bool,
    /// the last expression of the function, where `?` in a helper means the same
    tail: Option<String>,
}
impl<'b, 'a> Calls<'b, 'a> {
    fn tail(&mut self, b: &Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail = Some(toks(e));
        }
    }
    fn find(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = strip(&c.func) else { return None };
                if p.qself.is_some() {
                    return None;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let owner = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
                if owner.starts_with(|c: char| c.is_uppercase()) {
                    let v = self.inl.inherent.get(&name)?;
                    let ty = if owner == "Self" { self.ty?.0.clone() } else { owner };
                    let base = |t: &str| t.split('<').next().unwrap().to_string();
                    let mut m = v.iter().filter(|(t, _)| base(t) == base(&ty));
                    let h = m.next()?.1.clone()?;
                    if m.next().is_some() {
                        return None;
                    }
                    return Some((h, None, args));
                }
                let v = self.inl.free.get(&name)?;
                let own: Vec<&Option<Helper>> = v.iter().filter(|h| h.as_ref().map_or(true, |h| h.within.is_none() || h.within.as_deref() == Some(self.id))).collect();
                if own.len() != 1 {
                    // several of that name: the one nested here
                    let mut n = v.iter().flatten().filter(|h| h.within.as_deref() == Some(self.id));
                    return Some((n.next()?.clone(), None, args));
                }
                Some((own[0].clone()?, None, args))
            }
            Expr::MethodCall(m) => {
                let v = self.inl.inherent.get(&m.method.to_string())?;
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let recv = Some((*m.receiver).clone());
                let is_self = matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
                if is_self {
                    let ty = &self.ty?.0;
                    let base = |t: &str| t.trim_start_matches('&').trim_start_matches("mut").split('<').next().unwrap().to_string();
                    let mut f = v.iter().filter(|(t, _)| base(t) == base(ty));
                    return Some((f.next()?.1.clone()?, recv, args));
                }
                if v.len() != 1 || crate::RENAMES.contains(&m.method.to_string().as_str()) {
                    return None;
                }
                Some((v[0].1.clone()?, recv, args))
            }
            _ => None,
        }
    }
    fn replace(&mut self, e: &mut Expr, try_ok: bool) -> bool {
        if let Some((h, recv, args)) = self.find(e) {
            if idents(&h.body).contains(&h.sig.ident.to_string()) {
                return false; // recursive
            }
            match self.inl.expand(&h, recv.as_ref(), args, self.ty, self.sig, try_ok) {
                Some(b) => {
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    self.inl.done.insert(h.key);
                    self.hit = true;
                    return true;
                }
                None => {
                    self.inl.kept.insert(h.key);
                }
            }
        }
        false
    }
}
impl<'b, 'a> VisitMut for Calls<'b, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `let f = |x| ..;` used only in calls
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &b.stmts[i] {
                if let Expr::Closure(c) = &**expr {
                    let mut rest: Block = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                    let name = p.ident.to_string();
                    let mut u = Uses { name: name.clone(), calls: 0, all: 0 };
                    u.visit_block_mut(&mut rest);
                    let body = arm_block(&c.body);
                    let fl = flow(&body);
                    if u.all == u.calls && u.calls > 0 && !fl.ret && !fl.tr && !binders(&rest).contains(&name) {
                        let ins: Vec<FnArg> = c.inputs.iter().map(|p| match p {
                            Pat::Type(t) => { let (p, t) = (&t.pat, &t.ty); parse_quote!(#p: #t) }
                            p => parse_quote!(#p: impl Sized),
                        }).collect();
                        let sig: Signature = parse_quote!(fn vx_closure(#(#ins),*));
                        let h = Helper { key: String::new(), owner: None, within: None, sig, body };
                        let mut r = Clo { inl: self.inl, h, name, sig: self.sig, failed: false };
                        r.visit_block_mut(&mut rest);
                        if !r.failed {
                            b.stmts.truncate(i);
                            b.stmts.extend(rest.stmts);
                            self.hit = true;
                            continue;
                        }
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if self.replace(&mut t.expr, true) {
                return;
            }
        }
        let tail = self.tail.as_deref() == Some(&toks(e)) || matches!(e, Expr::Return(_));
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                if self.replace(x, true) {
                    return;
                }
            }
        }
        if self.replace(e, tail) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut m2 = m.clone();
        in_macro(&mut m2, |e| self.visit_expr_mut(e));
        *m = m2;
    }
    fn visit_item_mut(&mut self, i: &mut Item) {
        // nested functions are bodies of their own
        if let Item::Fn(f) = i {
            let sig = f.sig.clone();
            let mut v = Calls { inl: self.inl, ty: None, sig: &sig, id: self.id, hit: false, tail: None };
            v.tail(&f.block);
            v.visit_block_mut(&mut f.block);
            self.hit |= v.hit;
        }
        if let Item::Impl(im) = i {
            for x in im.items.iter_mut() {
                if let ImplItem::Fn(f) = x {
                    let sig = f.sig.clone();
                    let mut v = Calls { inl: self.inl, ty: None, sig: &sig, id: self.id, hit: false, tail: None };
                    v.tail(&f.block);
                    v.visit_block_mut(&mut f.block);
                    self.hit |= v.hit;
                }
            }
        }
    }
}
struct Uses {
    name: String,
    calls: usize,
    all: usize,
}
impl VisitMut for Uses {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) if matches!(strip(&c.func), Expr::Path(p) if p.path.is_ident(&self.name)) => self.calls += 1,
            Expr::Path(p) if p.path.is_ident(&self.name) => self.all += 1,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if idents(&m.tokens).contains(&self.name) {
            self.all += 1;
        }
    }
}
struct Clo<'b, 'a> {
    inl: &'b mut Inliner<'a>,
    h: Helper,
    name: String,
    sig: &'b Signature,
    failed: bool,
}
impl<'b, 'a> VisitMut for Clo<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(strip(&c.func), Expr::Path(p) if p.path.is_ident(&self.name)) {
                let h = self.h.clone();
                match self.inl.expand(&h, None, c.args.iter().cloned().collect(), None, self.sig, false) {
                    Some(b) => *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }),
                    None => self.failed = true,
                }
            }
        }
    }
}

/// Loops in their plain forms.
struct Norm;
fn only_break(b: &Block) -> bool {
    b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Break(x), _) if x.expr.is_none() && x.label.is_none())
}
fn is_next(e: &Expr) -> bool {
    matches!(strip(e), Expr::MethodCall(m) if m.method == "next" && m.args.is_empty())
}
impl VisitMut for Norm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Loop(l) = e {
            let lb = &l.label;
            match l.body.stmts.first().cloned() {
                Some(Stmt::Expr(Expr::If(i), _)) if i.else_branch.is_none() && only_break(&i.then_branch) && !matches!(*i.cond, Expr::Let(_)) => {
                    let (c, rest) = (&i.cond, &l.body.stmts[1..]);
                    let c: Expr = match strip(c) {
                        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => (**expr).clone(),
                        c => parse_quote!(!(#c)),
                    };
                    *e = parse_quote!(#lb while #c { #(#rest)* });
                }
                Some(Stmt::Expr(Expr::If(i), _)) if l.body.stmts.len() == 1 && i.else_branch.as_ref().map_or(false, |b| only_break(&arm_block(&b.1))) => {
                    let (c, b) = (&i.cond, &i.then_branch);
                    *e = parse_quote!(#lb while #c #b);
                }
                Some(Stmt::Expr(Expr::Match(m), _)) if l.body.stmts.len() == 1 && m.arms.len() == 2 && is_next(&m.expr) => {
                    if let Some(k) = m.arms.iter().position(|a| only_break(&arm_block(&a.body))) {
                        let a = &m.arms[1 - k];
                        if a.guard.is_none() {
                            let (p, x, b) = (&a.pat, &m.expr, arm_block(&a.body));
                            *e = parse_quote!(#lb while let #p = #x #b);
                        }
                    }
                }
                Some(Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge, .. }), .. })) => {
                    let rest = &l.body.stmts[1..];
                    match (&diverge, strip(&expr)) {
                        (Some((_, d)), x) if only_break(&arm_block(d)) => *e = parse_quote!(#lb while let #pat = #x { #(#rest)* }),
                        (None, Expr::Match(m)) if m.arms.len() == 2 && is_next(&m.expr) => {
                            if let Some(k) = m.arms.iter().position(|a| only_break(&arm_block(&a.body))) {
                                let a = &m.arms[1 - k];
                                let x = &m.expr;
                                // `Some(v) => v`
                                if let (Pat::TupleStruct(t), Expr::Path(v)) = (&a.pat, strip(&a.body)) {
                                    if t.elems.len() == 1 && toks(&t.elems[0]) == toks(v) {
                                        *e = parse_quote!(#lb while let Some(#pat) = #x { #(#rest)* });
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let b = arm_block(&c.body);
                    if c.inputs.len() == 1 && !flow(&b).ret && !flow(&b).tr {
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let r = &m.receiver;
                        *e = parse_quote!(for #p in #r #b);
                    }
                }
            }
        }
    }
    fn visit_item_mut(&mut self, i: &mut Item) {
        visit_mut::visit_item_mut(self, i);
    }
}
#[allow(dead_code)]
fn _unused(_: Span) -> TokenStream {
    quote!()
}
