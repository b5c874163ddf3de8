//! Mechanical extraction: rustc's own macro expansion of /repo's crates -> one Verus file, with the
//! contracts of /verif/contracts spliced in.  See DESIGN.md, "What the extraction changes".
mod contracts;
mod inline;
mod lower;
mod print;

use contracts::*;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx {
    pub con: Contracts,
    pub external: Vec<String>,
    /// functions whose intermediate proof steps are left out
    pub nohints: Vec<String>,
    pub alt: Vec<String>,
    /// the crate whose bodies are wanted (all, if empty): of the others, the contracts
    pub only: String,
    /// crates of which only the items with a contract are taken
    pub parts: Vec<String>,
    /// functions left out altogether
    pub drop: Vec<String>,
    /// (function, old name, new name): locals and parameters that have been renamed
    pub rename: Vec<(String, String, String)>,
    /// helpers whose every call has been replaced by their body
    pub inlined: BTreeSet<String>,
    pub lits: Lits,
    pub raws: Vec<print::Raw>,
    pub fns: Vec<FnInfo>,
    pub used_fn: BTreeSet<usize>,
    pub used_item: BTreeSet<usize>,
    pub notes: Vec<String>,
    pub defaults: HashMap<String, Vec<TraitItemFn>>,
    pub root: String,
    /// where to put an unprovable assertion: a vacuity test
    pub probe: String,
    pub macros: Vec<String>,
    pub free: bool,
    /// names of the inherent methods of the crates' own types
    pub inherent: BTreeSet<String>,
    /// type parameters of the methods of the crates' traits
    pub tparams: HashMap<String, Vec<String>>,
}
#[derive(Clone, Debug, Default)]
pub struct FnInfo {
    pub key: String,
    pub con: Option<usize>,
    pub tags: Vec<String>,
    pub external: bool,
    pub trusted: bool,
    pub has_body: bool,
    pub calls: Vec<String>,
    pub name: String,
    pub lost: Vec<String>,
    pub body: String,
    pub inlined: bool,
    pub params: Vec<String>,
    pub binders: Vec<String>,
    /// the kinds of the loops in order, and the number of closures
    pub shape: String,
}
#[derive(Default)]
pub struct Lits {
    pub map: BTreeMap<String, (usize, bool)>,
    pub order: Vec<String>,
}
impl Lits {
    fn id(&mut self, s: &str, exec: bool) -> usize {
        let n = self.map.len();
        if !self.map.contains_key(s) {
            self.order.push(s.into());
        }
        let e = self.map.entry(s.into()).or_insert((n, false));
        e.1 |= exec;
        e.0
    }
    fn name(s: &str, n: usize) -> String {
        let t: String = s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(24).collect();
        let _ = n;
        // named by content, so that one more literal renames no other
        let h = s.bytes().fold(0x811c9dc5u32, |h, b| (h ^ b as u32).wrapping_mul(0x01000193));
        format!("{h:08x}_{t}")
    }
    /// `s` as a concatenation of at least two of the other literals (the fewest)
    fn split<'a>(&'a self, s: &str) -> Option<Vec<&'a str>> {
        let n = s.len();
        let mut best: Vec<Option<Vec<&str>>> = vec![None; n + 1];
        best[0] = Some(vec![]);
        for i in 0..n {
            let Some(b) = best[i].clone() else { continue };
            for l in &self.order {
                if l.is_empty() || l.len() == n || !s.as_bytes()[i..].starts_with(l.as_bytes()) {
                    continue;
                }
                let mut c = b.clone();
                c.push(l);
                let e = &mut best[i + l.len()];
                if e.as_ref().map_or(true, |e| e.len() > c.len()) {
                    *e = Some(c);
                }
            }
        }
        best[n].take().filter(|v| v.len() > 1)
    }
    pub fn exec(&mut self, s: &str) -> TokenStream {
        let n = self.id(s, true);
        let i = format_ident!("l_{}", Self::name(s, n));
        quote!(crate::lits::#i())
    }
    pub fn spec(&mut self, s: &str) -> String {
        let n = self.id(s, false);
        format!("crate::lits::s_{}()", Self::name(s, n))
    }
    fn module(&self) -> String {
        let mut o = String::from("pub mod lits {\nuse vstd::prelude::*;\nuse vstd::string::*;\n");
        for s in &self.order {
            let (n, exec) = self.map[s];
            let name = Self::name(s, n);
            let bytes: Vec<String> = s.bytes().map(|b| format!("{b}u8")).collect();
            let val = if bytes.is_empty() { "Seq::<u8>::empty()".into() } else { format!("seq![{}]", bytes.join(", ")) };
            o += &format!("#[verifier::opaque]\npub open spec fn s_{name}() -> Seq<u8> {{ {val} }}\n");
            if exec {
                let chars: Vec<String> = s.chars().map(|c| format!("'\\u{{{:x}}}'", c as u32)).collect();
                let cs = if chars.is_empty() { "Seq::<char>::empty()".into() } else { format!("seq![{}]", chars.join(", ")) };
                o += &format!(
                    "pub fn l_{name}() -> (r: &'static str) ensures r.spec_bytes() == s_{name}() {{ proof {{ reveal(s_{name}); reveal_strlit({s:?}); assert({s:?}@ =~= {cs}); vstd::utf8::is_ascii_chars_encode_utf8({s:?}@); assert({s:?}.spec_bytes() =~= s_{name}()); }} {s:?} }}\n"
                );
            }
        }
        let lens: Vec<String> = self.order.iter().map(|s| format!("s_{}().len() == {}", Self::name(s, self.map[s].0), s.len())).collect();
        let rev: Vec<String> = self.order.iter().map(|s| format!("reveal(s_{});", Self::name(s, self.map[s].0))).collect();
        o += &format!("pub proof fn lens() ensures {} {{ {} }}\n", lens.join(", "), rev.join(" "));
        // literals that are put together from others
        let mut cats = vec![];
        for s in &self.order {
            if let Some(v) = self.split(s) {
                let name = Self::name(s, 0);
                let parts: Vec<String> = v.iter().map(|p| format!("s_{}()", Self::name(p, 0))).collect();
                let mut e = parts[0].clone();
                for p in &parts[1..] {
                    e = format!("({e} + {p})");
                }
                let rev: Vec<String> = v.iter().map(|p| format!("reveal(s_{});", Self::name(p, 0))).collect();
                o += &format!("pub broadcast proof fn cat_{name}() ensures #[trigger] s_{name}() == {e} {{ reveal(s_{name}); {} assert(s_{name}() =~= {e}); }}\n", rev.join(" "));
                cats.push(format!("cat_{name}"));
            }
        }
        // literals and the encoding
        let mut encs: Vec<String> = vec![];
        for s in &self.order {
            let name = Self::name(s, self.map[s].0);
            let plain = |b: u8| b.is_ascii_alphanumeric() || b"-._~".contains(&b);
            if s.is_empty() {
                o += &format!("pub broadcast proof fn nil_{name}() ensures #[trigger] s_{name}() == Seq::<u8>::empty() {{ reveal(s_{name}); }}\n");
                cats.push(format!("nil_{name}"));
            } else if s.bytes().all(plain) {
                o += &format!("pub broadcast proof fn enc_{name}() ensures #[trigger] crate::sp::enc(s_{name}()) == s_{name}() {{ reveal(s_{name}); crate::sp::lemma_enc_plain(s_{name}()); }}\n");
                encs.push(format!("enc_{name}"));
            } else if s.len() == 1 {
                let e = format!("%{:02X}", s.as_bytes()[0]);
                o += &format!("pub broadcast proof fn chb_{name}() ensures #[trigger] crate::sp::chb({:?}) == s_{name}() {{ reveal(s_{name}); crate::sp::lemma_char({:?}); assert(s_{name}() =~= seq![{}u8]); }}\n", s.chars().next().unwrap(), s.chars().next().unwrap(), s.as_bytes()[0]);
                cats.push(format!("chb_{name}"));
                if let Some((n, _)) = self.map.get(&e) {
                    let en = Self::name(&e, *n);
                    o += &format!("pub broadcast proof fn enc_{name}() ensures #[trigger] crate::sp::enc(s_{name}()) == s_{en}() {{ reveal(s_{name}); reveal(s_{en}); crate::sp::lemma_enc_one(s_{name}()[0]); assert(s_{name}() =~= seq![s_{name}()[0]]); assert(s_{en}() =~= crate::sp::pct(s_{name}()[0])); }}\n");
                    cats.push(format!("enc_{name}"));
                }
            }
        }
        o += "pub broadcast proof fn cat() ensures #[trigger] (Seq::<u8>::empty() + Seq::<u8>::empty()) == Seq::<u8>::empty() { assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty()); }\n";
        cats.push("cat".into());
        encs.push("cat".into());
        o += &format!("pub broadcast group encs {{ {} }}\n", encs.join(", "));
        o += &format!("pub broadcast group cats {{ {} }}\n", cats.join(", "));
        o += "}\n";
        o
    }
}

pub const RENAMES: &[&str] = &[
    "as_ref", "as_mut", "borrow", "clone", "partial_cmp", "cmp", "eq", "next", "default", "from", "extend", "collect", "into_iter",
    "from_iter", "unwrap", "to_string", "to_owned", "contains", "is_ascii", "iter", "clear", "push_str", "to_vec", "as_str", "as_bytes_x",
    "windows", "all", "position", "enumerate", "skip", "find", "map", "sort_unstable_by", "sort_by", "unwrap_or", "is_none", "as_deref",
    "ne", "lt", "le", "gt", "ge", "reverse", "expect", "any", "by_ref", "take", "rev", "chain", "zip", "filter", "starts_with",
    "into_string", "write_all", "is_some", "chars", "bytes", "copied", "cloned", "into_inner_x", "unwrap_or_default", "get", "into", "max", "min", "len", "is_empty", "ends_with", "strip_prefix", "strip_suffix", "trim", "trim_start", "trim_end", "trim_start_matches", "trim_end_matches", "rfind", "chunks", "chunks_exact", "to_ascii_uppercase", "to_ascii_lowercase", "is_eq", "is_ne", "is_lt", "is_gt", "is_le", "is_ge",
];
pub fn renamed(s: &str) -> Option<Ident> {
    if RENAMES.contains(&s) {
        Some(format_ident!("vx_{}", s))
    } else {
        None
    }
}
const EXTERN: &[&str] = &[
    "percent_encoding", "rand", "base64", "hmac", "sha1", "digest", "rsa06", "rsa09", "either", "fmt_cmp", "serde", "subtle", "generic_array", "syn",
];

/// Rewrites paths: std and dependency paths to their specified stand-ins, method names to their shims.
pub struct Paths<'a> {
    pub root: &'a str,
}
impl<'a> Paths<'a> {
    fn path(&self, p: &mut Path) {
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        let lead = p.leading_colon.is_some();
        let n = p.segments.len();
        let pre: Option<Vec<&str>> = if first == "crate" {
            Some(vec!["crate", self.root])
        } else if (n >= 2 || lead) && ["core", "std", "alloc"].contains(&first.as_str()) {
            Some(vec!["crate", "sx"])
        } else if (n >= 2 || lead) && first == "oauth_credentials" {
            Some(vec!["crate", "oauth_credentials"])
        } else if n >= 2 && first == "_oauth1_request" {
            // what the derive macro calls the crate
            Some(vec!["crate", "oauth1_request"])
        } else if (n >= 2 || lead) && EXTERN.contains(&first.as_str()) {
            let mut v: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
            v.push(Ident::new("crate", Span::call_site()).into());
            v.push(format_ident!("sx").into());
            v.extend(p.segments.iter().cloned());
            p.segments = v;
            p.leading_colon = None;
            None
        } else {
            None
        };
        if let Some(pre) = pre {
            let mut v: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
            for s in pre {
                v.push(Ident::new(s, Span::call_site()).into());
            }
            v.extend(p.segments.iter().skip(1).cloned());
            p.segments = v;
            p.leading_colon = None;
        }
    }
    fn tree(&self, t: &mut UseTree, lead: bool) {
        let (name, span) = match t {
            UseTree::Path(p) => (p.ident.to_string(), p.ident.span()),
            UseTree::Name(p) => (p.ident.to_string(), p.ident.span()),
            UseTree::Rename(p) => (p.ident.to_string(), p.ident.span()),
            UseTree::Group(g) => {
                for t in g.items.iter_mut() {
                    self.tree(t, lead)
                }
                return;
            }
            _ => return,
        };
        let wrap = |v: &[&str], t: UseTree| {
            let mut t = t;
            for s in v.iter().rev() {
                t = UseTree::Path(UsePath { ident: Ident::new(s, span), colon2_token: Default::default(), tree: Box::new(t) });
            }
            t
        };
        let inner = |t: &UseTree| match t {
            UseTree::Path(p) => Some((*p.tree).clone()),
            _ => None,
        };
        if name == "crate" {
            if let Some(i) = inner(t) {
                *t = wrap(&["crate", self.root], i);
            }
        } else if ["core", "std", "alloc"].contains(&name.as_str()) {
            if let Some(i) = inner(t) {
                *t = wrap(&["crate", "sx"], i);
            }
        } else if name == "oauth_credentials" {
            *t = wrap(&["crate"], t.clone());
        } else if EXTERN.contains(&name.as_str()) {
            *t = wrap(&["crate", "sx"], t.clone());
        }
    }
}
impl<'a> VisitMut for Paths<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.path(p);
        if let Some(l) = p.segments.last_mut() {
            // calls through `&mut F` are not supported by the verifier: the comparator may not have state
            if l.ident == "FnMut" && matches!(l.arguments, PathArguments::Parenthesized(_)) {
                l.ident = format_ident!("Fn");
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        let lead = u.leading_colon.take().is_some();
        self.tree(&mut u.tree, lead);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        // PhantomData<fn() -> T> only fixes variance and auto traits
        if let Type::Path(p) = t {
            if let Some(s) = p.path.segments.last_mut() {
                if s.ident == "PhantomData" {
                    if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                        for g in a.args.iter_mut() {
                            if let GenericArgument::Type(Type::BareFn(f)) = g {
                                if let ReturnType::Type(_, t) = &f.output {
                                    *g = GenericArgument::Type((**t).clone());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, _m: &mut Macro) {}
}

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

/// A type as it appears in contract keys: lifetimes gone, generic arguments gone when they are all
/// parameters of the impl.
fn key_type(t: &Type, generics: &Generics) -> String {
    let params: Vec<String> = generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
    struct V<'a>(&'a [String]);
    impl<'a> VisitMut for V<'a> {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
        fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
            visit_mut::visit_path_segment_mut(self, s);
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let args: Vec<GenericArgument> = a.args.iter().filter(|g| !matches!(g, GenericArgument::Lifetime(_))).cloned().collect();
                let all = args.iter().all(|g| self.0.contains(&toks(g)));
                a.args = args.into_iter().collect();
                if all {
                    s.arguments = PathArguments::None;
                }
            }
        }
        fn visit_path_mut(&mut self, p: &mut Path) {
            if let Some(l) = p.segments.last().cloned() {
                p.segments.clear();
                p.segments.push(l);
                p.leading_colon = None;
            }
            visit_mut::visit_path_mut(self, p);
        }
    }
    let mut t = t.clone();
    V(&params).visit_type_mut(&mut t);
    toks(&t)
}

fn is_derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

impl Ctx {
    pub fn raw(&mut self, text: String, kind: &str, f: Option<usize>) -> TokenStream {
        let text = self.expand_lits(&text);
        self.raws.push(print::Raw { text, kind: kind.into(), func: f });
        let i = format_ident!("__vxp_{}", self.raws.len() - 1);
        quote!(#i)
    }
    /// `@"text"` in contracts denotes the bytes of the text.
    pub fn expand_lits(&mut self, s: &str) -> String {
        // `@!"text"`: the name alone, for `reveal`
        if let Some(i) = s.find("@!\"") {
            let j = i + 3 + s[i + 3..].find('"').unwrap();
            let v = self.lits.spec(&s[i + 3..j]);
            let t = format!("{}{}{}", &s[..i], v.trim_end_matches("()"), &s[j + 1..]);
            return self.expand_lits(&t);
        }
        let mut out = String::new();
        let mut rest = s;
        while let Some(i) = rest.find("@\"") {
            out.push_str(&rest[..i]);
            let tail = &rest[i + 1..];
            let mut end = 1;
            let b = tail.as_bytes();
            while b[end] != b'"' {
                if b[end] == b'\\' {
                    end += 1;
                }
                end += 1;
            }
            let lit: LitStr = parse_str(&tail[..=end]).expect("literal in contract");
            out.push_str(&self.lits.spec(&lit.value()));
            rest = &tail[end + 1..];
        }
        out.push_str(rest);
        out
    }
    fn find_fn(&mut self, key: &str) -> Option<usize> {
        let mut best: Option<usize> = None;
        for (i, c) in self.con.fns.iter().enumerate() {
            if key_match(&c.key, key) {
                // the most specific pattern wins
                if best.map(|b| self.con.fns[b].key.matches('*').count() > c.key.matches('*').count() || self.con.fns[b].key.len() < c.key.len()).unwrap_or(true) {
                    best = Some(i);
                }
                self.used_fn.insert(i);
            }
        }
        best
    }
    fn find_items(&mut self, key: &str) -> Vec<usize> {
        let v: Vec<usize> = self.con.items.iter().enumerate().filter(|(_, c)| match (c.key.split_once(' '), key.split_once(' ')) {
            (Some((a, p)), Some((b, k))) => a == b && key_match(p, &k.chars().filter(|c| !c.is_whitespace()).collect::<String>()),
            _ => false,
        }).map(|(i, _)| i).collect();
        self.used_item.extend(v.iter().copied());
        v
    }

    fn items(&mut self, items: Vec<Item>, path: &[String]) -> TokenStream {
        let mut out = TokenStream::new();
        for it in items {
            out.extend(self.item(it, path));
        }
        out
    }

    fn item(&mut self, it: Item, path: &[String]) -> TokenStream {
        let it = lower::plain_static(it);
        let mp = path.join("::");
        if self.parts.contains(&self.root) {
            let want = match &it {
                Item::Mod(_) | Item::Impl(_) => true,
                Item::Struct(s) => !self.find_items(&format!("struct {mp}::{}", s.ident)).is_empty(),
                Item::Enum(s) => !self.find_items(&format!("enum {mp}::{}", s.ident)).is_empty(),
                Item::Trait(s) => !self.find_items(&format!("trait {mp}::{}", s.ident)).is_empty(),
                Item::Fn(s) => self.find_fn(&format!("{mp}::{}", s.sig.ident)).is_some(),
                Item::Const(s) => !self.find_items(&format!("const {mp}::{}", s.ident)).is_empty(),
                Item::Type(s) => !self.find_items(&format!("type {mp}::{}", s.ident)).is_empty(),
                _ => false,
            };
            if !want {
                return quote!();
            }
        }
        match it {
            Item::Mod(m) => {
                let name = m.ident.clone();
                let mut p = path.to_vec();
                p.push(name.to_string());
                let key = p.join("::");
                let found = self.find_items(&format!("mod {key}"));
                if found.iter().any(|&i| self.con.items[i].skip) {
                    return quote!();
                }
                let extra: String = found.iter().map(|&i| self.con.items[i].text.clone()).collect();
                let extra = self.raw(format!("use crate::sx::prelude::*;\nuse crate::sp::*;\n{extra}"), "item", None);
                let body = self.items(m.content.map(|c| c.1).unwrap_or_default(), &p);
                quote!(pub mod #name { #extra #body })
            }
            Item::Use(mut u) => {
                let s = toks(&u.tree);
                let prelude = s.contains("std::prelude") || s.contains("core::prelude");
                let mac = self.macros.iter().any(|m| s == *m || s.starts_with(&format!("{m}as")));
                if s.contains("oauth1_request_derive") || s.contains("doc_auto_cfg") || prelude || mac {
                    return quote!();
                }
                Paths { root: &self.root.clone() }.visit_item_use_mut(&mut u);
                u.attrs.clear();
                u.vis = parse_quote!(pub);
                // names bound by the item, for `@skip use NAME`
                u.to_token_stream()
            }
            Item::Macro(_) => quote!(),
            Item::ExternCrate(c) => {
                let i = &c.ident;
                if EXTERN.contains(&i.to_string().as_str()) { quote!(pub use crate::sx::#i;) } else { quote!() }
            }
            Item::Const(c) if c.ident == "_" && matches!(&*c.expr, Expr::Block(_)) => {
                // the items in it, which are all there is to it
                let Expr::Block(b) = *c.expr else { unreachable!() };
                let items = b.block.stmts.into_iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i) } else { None }).collect();
                self.items(items, path)
            }
            Item::Const(mut c) => {
                let key = format!("{mp}::{}", c.ident);
                let found = self.find_items(&format!("const {key}"));
                if found.iter().any(|&i| self.con.items[i].skip) {
                    return quote!();
                }
                let t: String = found.iter().map(|&i| self.con.items[i].text.clone()).collect();
                if !t.trim().is_empty() {
                    let t = self.subst_const(&t, &c);
                    return self.raw(t, "item", None);
                }
                Paths { root: &self.root.clone() }.visit_item_const_mut(&mut c);
                if let Type::Reference(r) = &mut *c.ty {
                    r.lifetime.get_or_insert(Lifetime::new("'static", Span::call_site()));
                }
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                let mut e = (**e).clone();
                if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &e {
                    if l.value().is_ascii() {
                        let v = l.value();
                        let sn = self.lits.spec(&v);
                        let cs: Vec<String> = v.chars().map(|c| format!("'\\u{{{:x}}}'", c as u32)).collect();
                        let text = format!("pub proof fn {n}__val() ensures {n}.spec_bytes() == {sn} {{ reveal({p}); reveal_strlit({v:?}); assert({v:?}@ =~= seq![{c}]); vstd::utf8::is_ascii_chars_encode_utf8({v:?}@); assert({n}.spec_bytes() =~= {sn}); }}", p = sn.trim_end_matches("()"), c = cs.join(", "));
                        let r = self.raw(text, "item", None);
                        return quote!(pub const #n: #t = #e; #r);
                    }
                }
                lower::const_expr(&mut e);
                let call = match &e {
                    Expr::Call(_) | Expr::MethodCall(_) => true,
                    Expr::Reference(r) => matches!(&*r.expr, Expr::Array(_)),
                    _ => false,
                };
                if call {
                    // its value is left unspecified
                    return quote!(#[verifier::external_body] pub exec const #n: #t ensures true { #e });
                }
                quote!(pub const #n: #t = #e;)
            }
            Item::Type(mut t) => {
                Paths { root: &self.root.clone() }.visit_item_type_mut(&mut t);
                t.vis = parse_quote!(pub);
                let n = match toks(&t.ty).as_str() { "u8" => 1usize, "u16" => 2, "u32" => 4, "u64" => 8, "u128" => 16, "usize" => 8, _ => 0 };
                let c = format_ident!("vx_size_of_{}", t.ident);
                let c = if n > 0 { quote!(pub const #c: usize = #n;) } else { quote!() };
                let t = t.to_token_stream();
                quote!(#t #c)
            }
            Item::Struct(mut s) => {
                let key = format!("{mp}::{}", s.ident);
                let found = self.find_items(&format!("struct {key}"));
                if found.iter().any(|&i| self.con.items[i].skip) {
                    return quote!();
                }
                Paths { root: &self.root.clone() }.visit_item_struct_mut(&mut s);
                s.vis = parse_quote!(pub);
                // a computed array length is a constant of its own (Verus reads the operators in a
                // type as those of its specifications)
                let mut lens: Vec<TokenStream> = vec![];
                for (i, f) in s.fields.iter_mut().enumerate() {
                    f.vis = parse_quote!(pub);
                    if let Type::Array(a) = &mut f.ty {
                        if matches!(a.len, Expr::Binary(_)) {
                            let mut e = a.len.clone();
                            lower::const_expr(&mut e);
                            let n = format_ident!("vx_len_{}_{}", s.ident, i);
                            lens.push(quote!(pub const #n: usize = #e;));
                            a.len = parse_quote!(#n);
                        }
                    }
                }
                let at: String = found.iter().flat_map(|&i| self.con.items[i].attrs.clone()).collect::<Vec<_>>().join("\n");
                let tx: String = found.iter().map(|&i| self.con.items[i].text.clone()).collect();
                let at = self.raw(at, "item", None);
                let tx = self.raw(tx, "item", None);
                let ts = self.subst_tokens(s.to_token_stream(), None);
                quote!(#(#lens)* #at #ts #tx)
            }
            Item::Enum(mut s) => {
                let key = format!("{mp}::{}", s.ident);
                let found = self.find_items(&format!("enum {key}"));
                if found.iter().any(|&i| self.con.items[i].skip) {
                    return quote!();
                }
                Paths { root: &self.root.clone() }.visit_item_enum_mut(&mut s);
                s.vis = parse_quote!(pub);
                let at: String = found.iter().flat_map(|&i| self.con.items[i].attrs.clone()).collect::<Vec<_>>().join("\n");
                let tx: String = found.iter().map(|&i| self.con.items[i].text.clone()).collect();
                let at = self.raw(at, "item", None);
                let tx = self.raw(tx, "item", None);
                let ts = self.subst_tokens(s.to_token_stream(), None);
                quote!(#at #ts #tx)
            }
            Item::Trait(mut t) => {
                let key = format!("{mp}::{}", t.ident);
                let found = self.find_items(&format!("trait {key}"));
                if found.iter().any(|&i| self.con.items[i].skip) {
                    return quote!();
                }
                Paths { root: &self.root.clone() }.visit_generics_mut(&mut t.generics);
                let tx: String = found.iter().map(|&i| self.con.items[i].text.clone()).collect();
                let tx = self.raw(tx, "item", None);
                let mut body = TokenStream::new();
                for ti in t.items.iter_mut() {
                    match ti {
                        TraitItem::Fn(f) => {
                            f.default = None;
                            f.attrs.clear();
                            let k = format!("{mp}::{}::{}", t.ident, f.sig.ident);
                            body.extend(self.func(&k, quote!(), f.sig.clone(), None, &t.ident.to_string(), &mut vec![]));
                        }
                        TraitItem::Type(ty) => {
                            ty.attrs.clear();
                            let mut ty = ty.clone();
                            Paths { root: &self.root.clone() }.visit_trait_item_type_mut(&mut ty);
                            body.extend(ty.to_token_stream())
                        }
                        x => self.notes.push(format!("trait item dropped in {key}: {}", toks(x))),
                    }
                }
                let (n, g, w) = (&t.ident, &t.generics, &t.generics.where_clause);
                let sup = &t.supertraits;
                let col = if sup.is_empty() { quote!() } else { quote!(:) };
                quote!(pub trait #n #g #col #sup #w { #tx #body })
            }
            Item::Fn(f) => {
                let key = format!("{mp}::{}", f.sig.ident);
                let mut hoisted = vec![];
                let name = f.sig.ident.to_string();
                self.free = true;
                let ts = self.func(&key, quote!(pub), f.sig, Some(*f.block), &name, &mut hoisted);
                let h = self.items(hoisted, path);
                quote!(#ts #h)
            }
            Item::Impl(im) => self.impl_(im, path),
            Item::Static(_) => quote!(),
            x => {
                self.notes.push(format!("item dropped: {}", toks(&x).chars().take(80).collect::<String>()));
                quote!()
            }
        }
    }

    fn subst_const(&mut self, t: &str, c: &ItemConst) -> String {
        // `$INIT`: the initialiser of the constant as it stands in the source; `$VALUE`: what it refers to; `$BYTES`: a byte string's bytes
        let mut e = (*c.expr).clone();
        Paths { root: &self.root.clone() }.visit_expr_mut(&mut e);
        let bytes = match lower::byte_string(&e) {
            Some(b) => b.iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", "),
            None => String::new(),
        };
        let value = match &e {
            Expr::Reference(r) => &*r.expr,
            e => e,
        };
        let t = t.replace("$VALUE", &value.to_token_stream().to_string());
        t.replace("$INIT", &e.to_token_stream().to_string()).replace("$BYTES", &bytes)
    }

    fn impl_(&mut self, mut im: ItemImpl, path: &[String]) -> TokenStream {
        let mp = path.join("::");
        let ty = key_type(&im.self_ty, &im.generics);
        let (head, trait_name) = match &im.trait_ {
            Some((_, p, _)) => {
                let t = key_type(&Type::Path(TypePath { qself: None, path: p.clone() }), &im.generics);
                (format!("<{t} for {ty}>").replace(' ', ""), Some(p.segments.last().unwrap().ident.to_string()))
            }
            None => (ty.clone(), None),
        };
        let key = format!("{mp}::{head}");
        let found = self.find_items(&format!("impl {key}"));
        if found.iter().any(|&i| self.con.items[i].skip) {
            return quote!();
        }
        if found.is_empty() && (trait_name.as_deref() == Some("Eq") || trait_name.as_deref() == Some("StructuralPartialEq")) {
            return quote!();
        }
        if self.parts.contains(&self.root) {
            if let Some(t) = &trait_name {
                if found.is_empty() && !((t == "Copy" || t == "Clone" && is_derived(&im.attrs)) && !(self.find_items(&format!("enum {mp}::{ty}")).is_empty() && self.find_items(&format!("struct {mp}::{ty}")).is_empty())) {
                    return quote!();
                }
            } else {
                let fns = std::mem::take(&mut im.items);
                im.items = fns.into_iter().filter(|i| matches!(i, ImplItem::Fn(f) if self.find_fn(&format!("{key}::{}", f.sig.ident)).is_some())).collect();
                if im.items.is_empty() {
                    return quote!();
                }
            }
        }
        let copy = trait_name.as_deref() == Some("Copy");
        let clone = trait_name.as_deref() == Some("Clone");
        if found.is_empty() && (copy || (is_derived(&im.attrs) && clone)) && !self.find_items(&format!("nocopy {mp}::{ty}")).is_empty() {
            return quote!();
        }
        if found.is_empty() && (copy || (is_derived(&im.attrs) && clone)) {
            // a copy or derived clone is the value it was made from (assumed)
            let root = self.root.clone();
            Paths { root: &root }.visit_generics_mut(&mut im.generics);
            Paths { root: &root }.visit_type_mut(&mut im.self_ty);
            let (ig, _, wh) = im.generics.split_for_impl();
            let t = &im.self_ty;
            return if copy {
                quote!(impl #ig core::clone::Clone for #t #wh { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } } impl #ig core::marker::Copy for #t #wh {})
            } else {
                quote!(impl #ig crate::sx::clone::Clone for #t #wh { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } })
            };
        }
        if is_derived(&im.attrs) && found.is_empty() {
            return quote!();
        }
        // trait defaults the impl does not override
        if let Some(t) = &trait_name {
            if let Some(ds) = self.defaults.get(t).cloned() {
                let have: Vec<String> = im.items.iter().filter_map(|i| if let ImplItem::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect();
                for d in ds {
                    if !have.contains(&d.sig.ident.to_string()) {
                        im.items.push(ImplItem::Fn(ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: d.sig.clone(), block: d.default.clone().unwrap() }));
                    }
                }
            }
        }
        let root = self.root.clone();
        Paths { root: &root }.visit_generics_mut(&mut im.generics);
        if let Some((_, p, _)) = &mut im.trait_ {
            Paths { root: &root }.visit_path_mut(p);
        }
        Paths { root: &root }.visit_type_mut(&mut im.self_ty);
        let tx: String = found.iter().map(|&i| self.con.items[i].text.clone()).collect();
        let tx = self.raw(tx, "item", None);
        let short: String = {
            // the name used in hoisted items' names
            let t: String = ty.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if t.is_empty() { "ref".into() } else { t }
        };
        let mut body = TokenStream::new();
        let mut hoisted = vec![];
        for it in im.items {
            match it {
                ImplItem::Fn(f) => {
                    let f = self.like_trait(f, trait_name.as_deref());
                    let k = format!("{key}::{}", f.sig.ident);
                    let vis = if trait_name.is_some() { quote!() } else { quote!(pub) };
                    body.extend(self.func(&k, vis, f.sig, Some(f.block), &short, &mut hoisted));
                }
                ImplItem::Type(mut t) => {
                    t.attrs.clear();
                    Paths { root: &root }.visit_impl_item_type_mut(&mut t);
                    body.extend(t.to_token_stream());
                }
                ImplItem::Const(c) => {
                    let k = format!("const {key}::{}", c.ident);
                    let fd = self.find_items(&k);
                    if fd.iter().any(|&i| self.con.items[i].skip) {
                        continue;
                    }
                    self.notes.push(format!("associated constant dropped: {k}"));
                }
                x => self.notes.push(format!("impl item dropped in {key}: {}", toks(&x))),
            }
        }
        let h = self.items(hoisted, path);
        let (g, _, w) = im.generics.split_for_impl();
        let st = &im.self_ty;
        let at: String = found.iter().flat_map(|&i| self.con.items[i].attrs.clone()).collect::<Vec<_>>().join("\n");
        let at = self.raw(at, "item", None);
        let hd = match &im.trait_ {
            Some((_, p, _)) => quote!(impl #g #p for #st #w),
            None => quote!(impl #g #st #w),
        };
        let hd = self.subst_tokens(hd, None);
        let body = self.subst_tokens(body, None);
        quote!(#at #hd { #tx #body } #h)
    }

    /// The verifier wants a trait method's type parameters to have the names they have in the trait.
    fn like_trait(&self, f: ImplItemFn, tr: Option<&str>) -> ImplItemFn {
        let Some(want) = tr.and_then(|t| self.tparams.get(&format!("{t}::{}", f.sig.ident))) else { return f };
        let have = type_params(&f.sig);
        if have.len() != want.len() || have == *want {
            return f;
        }
        let mut ts = f.to_token_stream();
        let mut all = vec![];
        idents(ts.clone(), &mut all);
        if want.iter().any(|w| !have.contains(w) && all.contains(w)) {
            return f;
        }
        for (i, h) in have.iter().enumerate() {
            let tmp = format_ident!("__vx_tp{}", i);
            ts = subst(ts, &[TokenTree::Ident(format_ident!("{}", h))], &quote!(#tmp));
        }
        for (i, w) in want.iter().enumerate() {
            let w = format_ident!("{}", w);
            ts = subst(ts, &[TokenTree::Ident(format_ident!("__vx_tp{}", i))], &quote!(#w));
        }
        parse2(ts).unwrap_or(f)
    }

    /// One function: signature with a named result, its contract, its lowered body.
    fn func(&mut self, key: &str, vis: TokenStream, sig: Signature, body: Option<Block>, parent: &str, hoisted: &mut Vec<Item>) -> TokenStream {
        let con = self.find_fn(key);
        let mut c = con.map(|i| self.con.fns[i].clone()).unwrap_or_default();
        if self.nohints.iter().any(|e| e == key) {
            (c.entry, c.exit, c.before) = Default::default();
            c.entry.push_str("broadcast use crate::lits::encs;");
        }
        if c.flags.iter().any(|f| f == "skip") || self.drop.iter().any(|e| e == key) {
            return quote!();
        }
        for (k, a, b) in self.rename.clone() {
            if k == key {
                let f = |t: &mut String| *t = rename_ident(t, &a, &b);
                f(&mut c.spec);
                f(&mut c.entry);
                f(&mut c.exit);
                c.loops.values_mut().for_each(f);
                c.closures.values_mut().for_each(f);
                c.before.iter_mut().for_each(|x| f(&mut x.1));
            }
        }
        let inlined = con.is_none() && self.inlined.contains(key);
        let forced = self.external.iter().any(|e| e == key) || (!self.only.is_empty() && sig.constness.is_none() && !key.starts_with(&format!("{}::", self.only)) && !matches!(&sig.output, ReturnType::Type(_, t) if matches!(**t, Type::ImplTrait(_))));
        let trusted = c.flags.iter().any(|f| f == "external");
        let fi = self.fns.len();
        self.fns.push(FnInfo { key: key.into(), con, tags: c.tags.clone(), external: forced, trusted, has_body: body.is_some(), inlined, name: sig.ident.to_string(), ..Default::default() });

        let mut sig = sig;
        let root = self.root.clone();
        let orig = sig.ident.to_string();
        Paths { root: &root }.visit_signature_mut(&mut sig);
        let free = std::mem::take(&mut self.free);
        if let (Some(n), false) = (renamed(&orig), free) {
            sig.ident = n;
        }
        // parameters must be plain names
        let mut pre: Vec<Stmt> = vec![];
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let n = format_ident!("vx_arg{}", i);
                    let p = t.pat.clone();
                    if matches!(&*p, Pat::Wild(_)) {
                    } else {
                        pre.push(parse_quote!(let #p = #n;));
                    }
                    *t.pat = parse_quote!(#n);
                }
            }
        }
        self.fns[fi].params = sig.inputs.iter().map(|a| match a {
            FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), p => toks(p) },
            _ => "self".into(),
        }).collect();
        let ret = format_ident!("{}", c.ret.clone().unwrap_or("r".into()));
        let out = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => {
                if matches!(**t, Type::Never(_)) { quote!(-> !) } else { quote!(-> (#ret: #t)) }
            }
        };
        let mut attrs = c.attrs.join("\n");
        let spec = self.raw(c.spec.clone(), "spec", Some(fi));
        let bodyts = match body {
            None => quote!(;),
            Some(b) => {
                self.fns[fi].body = toks(&b);
                self.fns[fi].binders = inline::binders(&b);
                if forced || trusted || inlined {
                    attrs.push_str("\n#[verifier::external_body]");
                    // nested items are still emitted so that other functions' contracts can refer to them
                    let mut b = b;
                    lower::hoist(&mut b, &orig, parent, key, hoisted);
                    quote!({ unimplemented!() })
                } else {
                    let mut b = b;
                    lower::hoist(&mut b, &orig, parent, key, hoisted);
                    for s in pre.into_iter().rev() {
                        b.stmts.insert(0, s);
                    }
                    let alt = self.alt.iter().any(|e| e == key);
                    let mut low = lower::Lower::new(self, fi, &c);
                    low.alt = alt;
                    low.block(&mut b);
                    let (calls, lost, shape) = low.finish();
                    self.fns[fi].shape = shape;
                    self.fns[fi].calls = calls;
                    self.fns[fi].lost = lost;
                    let mut entry = self.raw(c.entry.clone(), "ghost", Some(fi));
                    let stmts = &b.stmts;
                    if self.probe == "entry" {
                        entry.extend(quote!(proof { assert(false); }));
                    }
                    let exit_text = if self.probe == "exit" && (matches!(sig.output, ReturnType::Default) || matches!(stmts.last(), Some(Stmt::Expr(_, None)))) { format!("{}\nproof {{ assert(false); }}", c.exit) } else { c.exit.clone() };
                    let ts = if exit_text.is_empty() {
                        quote!({ #entry #(#stmts)* })
                    } else {
                        let exit = self.raw(exit_text, "ghost", Some(fi));
                        match stmts.last() {
                            Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                                let init = &stmts[..stmts.len() - 1];
                                quote!({ #entry #(#init)* let #ret = #e; #exit #ret })
                            }
                            _ => quote!({ #entry #(#stmts)* #exit }),
                        }
                    };
                    ts
                }
            }
        };
        let attrs = self.raw(attrs, "attr", Some(fi));
        let sb = &c.subst;
        let (n, g, w, inp) = (&sig.ident, &sig.generics, &sig.generics.where_clause, &sig.inputs);
        let begin = format_ident!("__vxfn_{}", fi);
        let end = format_ident!("__vxend_{}", fi);
        let cn = &sig.constness;
        let hd = self.subst_tokens(quote!(#vis #cn fn #n #g (#inp) #out #w), Some(sb));
        let bodyts = self.subst_tokens(bodyts, Some(sb));
        quote!(#begin #attrs #hd #spec #bodyts #end)
    }

    /// Token substitutions given in the contract files (reported in the evidence).
    pub fn subst_tokens(&mut self, ts: TokenStream, more: Option<&Vec<(String, String)>>) -> TokenStream {
        let mut ts = ts;
        let list = match more {
            Some(m) => m.clone(),
            None => self.con.subst.clone(),
        };
        for (a, b) in list {
            let a: Vec<TokenTree> = a.parse::<TokenStream>().unwrap().into_iter().collect();
            let b: TokenStream = b.parse().unwrap();
            ts = subst(ts, &a, &b);
        }
        ts
    }
}
/// whole identifiers that are not field names
fn rename_ident(t: &str, a: &str, b: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if id(c[i]) {
            let j = (i..c.len()).find(|&j| !id(c[j])).unwrap_or(c.len());
            let w: String = c[i..j].iter().collect();
            let dot = i > 0 && c[i - 1] == '.' && !(i > 1 && c[i - 2] == '.');
            out.push_str(if w == a && !dot { b } else { &w });
            i = j;
        } else {
            out.push(c[i]);
            i += 1;
        }
    }
    out
}
fn same(a: &TokenTree, b: &TokenTree) -> bool {
    a.to_string().chars().filter(|c| !c.is_whitespace()).eq(b.to_string().chars().filter(|c| !c.is_whitespace()))
}
fn subst(ts: TokenStream, a: &[TokenTree], b: &TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if i + a.len() <= v.len() && (0..a.len()).all(|j| same(&v[i + j], &a[j])) {
            out.extend(b.clone());
            i += a.len();
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), a, b));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

fn collect_macros(items: &[Item], out: &mut Vec<String>) {
    for i in items {
        match i {
            Item::Mod(m) => collect_macros(m.content.as_ref().map(|c| &c.1[..]).unwrap_or(&[]), out),
            Item::Macro(m) => out.extend(m.ident.iter().map(|i| i.to_string())),
            _ => {}
        }
    }
}

fn collect_inherent(items: &[Item], n: &str, out: &mut BTreeSet<String>) {
    for i in items {
        match i {
            Item::Mod(m) => collect_inherent(m.content.as_ref().map(|c| &c.1[..]).unwrap_or(&[]), n, out),
            Item::Impl(m) if m.trait_.is_none() => {
                for i in &m.items {
                    if let ImplItem::Fn(f) = i {
                        if f.sig.receiver().is_some() {
                            out.insert(format!("{n}::{}", f.sig.ident));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// the identifiers that are not field names
fn idents(ts: TokenStream, out: &mut Vec<String>) {
    let mut dot = false;
    for t in ts {
        match &t {
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Ident(i) if !dot => out.push(i.to_string()),
            _ => {}
        }
        dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
    }
}

fn type_params(s: &Signature) -> Vec<String> {
    s.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect()
}

fn collect_tparams(items: &[Item], out: &mut HashMap<String, Vec<String>>) {
    for i in items {
        match i {
            Item::Mod(m) => collect_tparams(m.content.as_ref().map(|c| &c.1[..]).unwrap_or(&[]), out),
            Item::Trait(t) => {
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        out.insert(format!("{}::{}", t.ident, f.sig.ident), type_params(&f.sig));
                    }
                }
            }
            _ => {}
        }
    }
}

fn collect_defaults(items: &[Item], out: &mut HashMap<String, Vec<TraitItemFn>>) {
    for i in items {
        match i {
            Item::Mod(m) => collect_defaults(m.content.as_ref().map(|c| &c.1[..]).unwrap_or(&[]), out),
            Item::Trait(t) => {
                let v: Vec<TraitItemFn> = t.items.iter().filter_map(|i| if let TraitItem::Fn(f) = i { if f.default.is_some() { Some(f.clone()) } else { None } } else { None }).collect();
                if !v.is_empty() {
                    out.insert(t.ident.to_string(), v);
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut crates = vec![];
    let mut cfgs = vec![];
    let mut files = vec![];
    let mut external = vec![];
    let mut nohints = vec![];
    let mut alt = vec![];
    let mut drop = vec![];
    let mut rename = vec![];
    let mut parts: Vec<String> = vec![];
    let (mut outf, mut mapf, mut probe, mut only) = (String::new(), String::new(), String::new(), String::new());
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("argument value");
        match a.as_str() {
            "--crate" => {
                let n = v();
                crates.push((n, v()))
            }
            "--cfg" => cfgs.push(v()),
            "--contracts" => files.push(v()),
            "--external" => external.push(v()),
            "--nohints" => nohints.push(v()),
            "--alt" => alt.push(v()),
            "--drop" => drop.push(v()),
            "--rename" => {
                let k = v();
                let r = v();
                let (a, b) = r.split_once('=').expect("--rename KEY OLD=NEW");
                rename.push((k, a.to_string(), b.to_string()))
            }
            "--probe" => probe = v(),
            "--only" => only = v(),
            "--part" => {
                let n = v();
                parts.push(n.clone());
                crates.push((n, v()))
            }
            "--out" => outf = v(),
            "--map" => mapf = v(),
            x => panic!("unknown argument {x}"),
        }
    }
    let mut con = Contracts::default();
    for f in &files {
        contracts::parse(&std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}")), &cfgs, &mut con);
    }
    let mut ctx = Ctx {
        con,
        external,
        nohints,
        alt,
        drop,
        only,
        parts,
        rename,
        inlined: Default::default(),
        lits: Default::default(),
        raws: vec![],
        fns: vec![],
        used_fn: Default::default(),
        used_item: Default::default(),
        notes: vec![],
        defaults: Default::default(),
        root: String::new(),
        probe,
        macros: vec![], free: false, inherent: Default::default(), tparams: Default::default(),
    };
    let mut body = TokenStream::new();
    let mut parsed = vec![];
    for (n, f) in &crates {
        let text = std::fs::read_to_string(f).unwrap();
        let file = parse_file(&text).unwrap_or_else(|e| panic!("{f}: {e} at {:?}", e.span().start()));
        collect_defaults(&file.items, &mut ctx.defaults);
        collect_macros(&file.items, &mut ctx.macros);
        collect_tparams(&file.items, &mut ctx.tparams);
        collect_inherent(&file.items, n, &mut ctx.inherent);
        parsed.push((n.clone(), file));
    }
    let con = ctx.con.clone();
    for (n, file) in parsed.iter_mut() {
        let mut inl = inline::Inliner::new(&con);
        inl.collect(&file.items, n);
        inl.run(&mut file.items, n);
        ctx.inlined.extend(inl.done.difference(&inl.kept).cloned());
    }
    for (n, file) in parsed {
        ctx.root = n.clone();
        let id = format_ident!("{}", n);
        let found = ctx.find_items(&format!("mod {n}"));
        let extra: String = found.iter().map(|&i| ctx.con.items[i].text.clone()).collect();
        let extra = ctx.raw(format!("use crate::sx::prelude::*;\nuse crate::sp::*;\n{extra}"), "item", None);
        let ts = ctx.items(file.items, &[n.clone()]);
        body.extend(quote!(pub mod #id { #extra #ts }));
    }
    let raws: Vec<(String, String)> = ctx.con.raw.clone();
    let mut head = String::from("#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\nuse vstd::prelude::*;\nfn main() {}\nverus! {\n");
    for (n, t) in raws {
        let t = ctx.expand_lits(&t);
        head += &format!("// ---- {n}\n{t}\n");
    }
    // contract text inside the body can introduce literals, so print it first
    let (btext, mut map) = print::print(body, &ctx.raws, ctx.fns.len());
    head += &ctx.lits.module();
    let off = head.lines().count();
    for r in map.ranges.iter_mut() {
        r.0 += off;
        r.1 += off;
    }
    let text = format!("{head}{btext}\n}}\n");
    std::fs::write(&outf, &text).unwrap();
    let lost: Vec<String> = ctx.con.fns.iter().enumerate().filter(|(i, c)| !ctx.used_fn.contains(i) && !c.flags.iter().any(|f| f == "optional")).map(|(_, c)| c.key.clone()).collect();
    let lost_items: Vec<String> = ctx.con.items.iter().enumerate().filter(|(i, _)| !ctx.used_item.contains(i)).map(|(_, c)| c.key.clone()).collect();
    let fns: Vec<serde_json::Value> = ctx
        .fns
        .iter()
        .enumerate()
        .map(|(i, f)| {
            serde_json::json!({"key": f.key, "name": f.name, "contract": f.con.map(|c| ctx.con.fns[c].key.clone()), "tags": f.tags, "optional": f.con.map_or(false, |c| ctx.con.fns[c].flags.iter().any(|f| f == "optional")), "forced": f.external,
            "trusted": f.trusted, "body": f.has_body, "lines": [map.ranges[i].0, map.ranges[i].1], "calls": f.calls, "lost": f.lost, "shape": f.shape, "src": f.body, "inlined": f.inlined, "params": f.params, "binders": f.binders,
            "has_spec": f.con.map(|c| !ctx.con.fns[c].spec.trim().is_empty()).unwrap_or(false)})
        })
        .collect();
    let subst: Vec<serde_json::Value> = ctx.con.subst.iter().map(|s| serde_json::json!([s.0, s.1])).collect();
    std::fs::write(&mapf, serde_json::to_string(&serde_json::json!({"fns": fns, "lost": lost, "lost_items": lost_items, "notes": ctx.notes, "subst": subst})).unwrap()).unwrap();
}
