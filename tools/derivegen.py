#!/usr/bin/env python3
"""Generates structs deriving `Request` together with the calls their serialization has to make.

The expectations are computed here, from the property's text alone (see properties.jsonl C16), never
from the macro's output.  Used for C16, both for running (`good`) and for the compile-time part (`bad`).
"""
import random

SLOTS = ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method",
         "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version"]

PRELUDE = r'''#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types, non_upper_case_globals)]
use std::fmt::{self, Display, Formatter};
use oauth1_request as oauth;
use oauth1_request::serializer::Serializer;

#[derive(Default)]
pub struct Log(pub Vec<String>);
macro_rules! slots { ($($f:ident $n:literal)*) => { $(fn $f(&mut self) { self.0.push($n.to_string()); })* } }
impl Serializer for Log {
    type Output = Vec<String>;
    fn serialize_parameter<V: Display>(&mut self, name: &str, value: V) { self.0.push(format!("p {}={}", name, value)); }
    fn serialize_parameter_encoded<V: Display>(&mut self, name: &str, value: V) { self.0.push(format!("e {}={}", name, value)); }
    slots! { serialize_oauth_callback "oauth_callback" serialize_oauth_consumer_key "oauth_consumer_key"
        serialize_oauth_nonce "oauth_nonce" serialize_oauth_signature_method "oauth_signature_method"
        serialize_oauth_timestamp "oauth_timestamp" serialize_oauth_token "oauth_token"
        serialize_oauth_verifier "oauth_verifier" serialize_oauth_version "oauth_version" }
    fn end(mut self) -> Vec<String> { self.0.push("end".to_string()); self.0 }
}
// functions used by the generated attributes; some have the names the macro uses internally
pub mod fns {
    use std::fmt::{self, Display, Formatter};
    pub fn brackets<T: Display + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "<{}>", t) }
    pub fn twice(t: &str, f: &mut Formatter<'_>) -> fmt::Result { f.write_str(t)?; f.write_str(t) }
    pub fn hex(t: &u32, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{:x}", t) }
    pub fn tmp<T: Display + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "T{}", t) }
    pub fn value<T: Display + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "V{}", t) }
    pub fn fmt<T: Display + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "F{}", t) }
    pub fn helper<T: Display + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "H{}", t) }
    pub fn is_empty(t: &str) -> bool { t.is_empty() }
    pub fn is_long(t: &str) -> bool { t.len() > 2 }
    pub fn is_zero(t: &u32) -> bool { *t == 0 }
    pub fn is_odd(t: &u32) -> bool { *t % 2 == 1 }
    pub fn always<T: ?Sized>(_: &T) -> bool { true }
    pub fn never<T: ?Sized>(_: &T) -> bool { false }
    pub fn shown_empty<T: Display + ?Sized>(t: &T) -> bool { t.to_string().is_empty() }
}
/// A single-argument `Option` of somebody else: `option = false` has to be able to switch it off.
pub mod other {
    pub struct Option<T>(pub T);
    impl<T: std::fmt::Display> std::fmt::Display for Option<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "O{}", self.0) }
    }
}
pub type OptU32 = ::std::option::Option<u32>;
pub type OptStr = std::option::Option<String>;
'''

KEYWORDS = ["type", "fn", "match", "use", "ref", "loop", "async", "dyn", "struct", "if", "where"]
BASE = ["a", "b", "c", "status", "lang", "include_entities", "value", "serializer", "helper", "tmp", "fmt", "this", "zeta",
        "oauth", "oauth_", "oauth_a", "oauth_callback_", "oauth_callbac", "oauth_consumer", "oauth_consumer_kez", "oauth_noncf", "oauth_nonc",
        "oauth_s", "oauth_signature", "oauth_signature_methoc", "oauth_sz", "oauth_timestamp1", "oauth_tim", "oauth_toke", "oauth_token_", "oauth_token_secret",
        "oauth_u", "oauth_verifier_", "oauth_verify", "oauth_versiom", "oauth_versioo", "oauti", "oautg", "p", "o", "n", "Oauth_nonce", "OAUTH_TOKEN",
        "A", "Z", "_x", "__", "x1", "x10", "x2", "aa", "ab", "aB", "b2", "f_1", "f1_", "self_", "S", "_S2", "end", "DeriveRequestAssertion", "Fmt", "result"]
RENAMES = ["x-y", "x.y", "x_y", "x~y", "-", ".", "~", "0", "9z", "A-Z", "oauth-token", "oauth.token", "oauth_token~", "oauth_tokeo", "oauth_version.1",
           "oauth_nonce-", "oauth~", "q", "Q", "type", "long_name-with.all~chars_09AZaz"] + BASE


def rust_str(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif 0x20 <= ord(c) < 0x7F:
            out += c
        else:
            out += "\\u{%x}" % ord(c)
    return out + '"'


STRS = ["", "x", "ab", "a b", "&=%", "éà", "日本", "long value", "\u0000", "100%"]
FNS_FMT = {"brackets": lambda v: "<%s>" % v, "tmp": lambda v: "T" + v, "value": lambda v: "V" + v,
           "fmt": lambda v: "F" + v, "helper": lambda v: "H" + v}


class Field:
    """One field: its declaration and, per value, the Rust expression and the expected event."""

    def __init__(self, r, ident, generic, proof=False):
        self.ident = ident
        kind = r.choice(["str", "string", "u32", "bool", "opt_str", "opt_u32", "alias_u32", "alias_str", "path_opt", "other_opt", "char"]
                        + (["gen", "opt_gen"] if generic else []) + ["u32", "string", "opt_u32"])
        self.kind = kind
        self.generic = generic
        self.attrs = []
        self.optional = kind.startswith("opt_") or kind.startswith("alias_") or kind == "path_opt"
        self.base = {"str": "string", "string": "string", "opt_str": "string", "alias_str": "string", "u32": "u32", "opt_u32": "u32",
                     "alias_u32": "u32", "path_opt": "u32", "bool": "bool", "char": "char", "gen": "gen", "opt_gen": "gen", "other_opt": "other"}[kind]
        self.ty = {"str": "&'static str", "string": "String", "u32": "u32", "bool": "bool", "char": "char", "opt_str": "Option<String>",
                   "opt_u32": "Option<u32>", "alias_u32": "OptU32", "alias_str": "crate::OptStr", "path_opt": "std::option::Option<u32>",
                   "gen": generic, "opt_gen": "Option<%s>" % generic, "other_opt": "Option<u32>"}[kind]
        self.shadow_option = kind == "other_opt"
        if kind.startswith("alias_") or kind == "path_opt":
            self.attrs.append("option = true")
        elif kind == "other_opt":
            self.attrs.append("option = false")
            self.ty = "Option<u32>"
        elif self.optional and r.random() < 0.2:
            self.attrs.append("option = true")
        elif not self.optional and r.random() < 0.15:
            self.attrs.append("option = false")
        self.rename = None
        self.skip = r.random() < 0.08
        self.encoded = r.random() < 0.25
        self.fmt = None
        self.pred = None
        if r.random() < 0.3:
            self.fmt = r.choice(list(FNS_FMT) + (["twice"] if self.base == "string" and kind != "str" else []) + (["hex"] if self.base == "u32" else []))
        if r.random() < 0.35:
            self.pred = r.choice(["always", "never", "shown_empty"] + (["is_empty", "is_long"] if self.base == "string" and kind != "str" else [])
                                 + (["is_zero", "is_odd"] * 2 if self.base == "u32" else []))
        self.proof = proof
        if proof:
            # the verifier has no deref coercion of arguments and no hygiene
            self.fmt = {"twice": "brackets", "tmp": "brackets", "value": "brackets", "fmt": "brackets", "helper": "brackets"}.get(self.fmt, self.fmt)
            self.pred = {"is_empty": "shown_empty", "is_long": "never"}.get(self.pred, self.pred)

    def finish(self, r):
        path = lambda f: r.choice(["fns::%s", "crate::fns::%s", "%s"][:2 if self.proof else 3]) % f
        if self.rename is not None:
            self.attrs.append("rename = %s" % rust_str(self.rename))
        if self.skip:
            self.attrs.append("skip")
        if self.encoded:
            self.attrs.append("encoded")
        if self.fmt:
            self.attrs.append("fmt = " + path(self.fmt))
        if self.pred:
            self.attrs.append("skip_if = " + path(self.pred))
        r.shuffle(self.attrs)

    def name(self):
        return self.rename if self.rename is not None else self.ident

    def decl(self, r):
        a = list(self.attrs)
        out = ""
        if a and r.random() < 0.3:
            out += "#[allow(unused)] "
        while a:
            n = r.randint(1, len(a))
            out += "#[oauth1(%s%s)] " % (", ".join(a[:n]), r.choice(["", ","]))
            a = a[n:]
        raw = "r#" + self.ident if self.ident in KEYWORDS else self.ident
        return "%s%s: %s," % (out, r.choice(["pub ", "", "pub(crate) "]) + raw, self.ty)

    def value(self, r):
        """-> (Rust expression, event or None)"""
        if self.base in ("string", "gen"):
            v = r.choice(STRS)
            shown, lit = v, rust_str(v)
            expr = lit if self.kind == "str" else lit + ".to_string()"
        elif self.base == "u32":
            v = r.choice([0, 1, 2, 7, 10, 255, 4294967295])
            shown, expr = str(v), "%du32" % v
        elif self.base == "bool":
            v = r.random() < 0.5
            shown = expr = "true" if v else "false"
        elif self.base == "char":
            v = r.choice("aZ&% é")
            shown, expr = v, "'%s'" % v
        else:
            v = r.choice([0, 3])
            shown, expr = "O%d" % v, "other::Option(%du32)" % v
        present = True
        if self.optional:
            present = r.random() < 0.6
            expr = "::std::option::Option::Some(%s)" % expr if present else "::std::option::Option::None"
        if self.skip or not present:
            return expr, None
        if self.pred:
            hold = {"always": lambda: True, "never": lambda: False, "shown_empty": lambda: shown == "", "is_empty": lambda: v == "",
                    "is_long": lambda: len(v.encode()) > 2, "is_zero": lambda: v == 0, "is_odd": lambda: v % 2 == 1}[self.pred]()
            if hold:
                return expr, None
        if self.fmt == "twice":
            shown = v + v
        elif self.fmt == "hex":
            shown = "%x" % v
        elif self.fmt:
            shown = FNS_FMT[self.fmt](shown)
        return expr, "%s %s=%s" % ("e" if self.encoded else "p", self.name(), shown)


class Struct:
    def __init__(self, r, i, proof=False):
        self.name = "%s%d" % ("P" if proof else "S", i)
        generic = "T" if r.random() < 0.25 else None
        names, used = set(), set()
        self.fields = []
        n = 0 if i == 0 else r.choice([1, 1, 2, 3, 4, 5, 6, 8, 12])
        for _ in range(n):
            ident = r.choice(BASE + KEYWORDS[:6])
            if ident in used:
                continue
            f = Field(r, ident, generic, proof)
            if r.random() < 0.3:
                f.rename = r.choice(RENAMES)
            if i % 5 == 1 and r.random() < 0.3:
                f.rename = r.choice(SLOTS)  # a parameter may share its name with a slot
            if f.name() in names:
                continue
            used.add(ident)
            names.add(f.name())
            self.fields.append(f)
        for f in self.fields:
            f.finish(r)
        # a struct whose `Option` is somebody else's has no std Option shorthand
        if any(f.shadow_option for f in self.fields):
            self.fields = [f for f in self.fields if f.kind not in ("opt_str", "opt_u32", "opt_gen")]
        self.generic = generic if any("gen" in f.kind for f in self.fields) else None
        self.r = r

    def module(self, values):
        r = self.r
        shadow = any(f.shadow_option for f in self.fields)
        gen = "<T>" if self.generic else ""
        body = "\n".join("        " + f.decl(r) for f in self.fields)
        head = "pub mod m_%s {\n    use super::*; use super::fns::*;\n" % self.name.lower()
        if shadow:
            head += "    use super::other::Option;\n"
        self.head = head
        self.decl_text = decl = "    #[derive(oauth::Request)]\n    pub struct %s%s {\n%s\n    }\n" % (self.name, gen, body)
        cases, expected = [], []
        for _ in range(values):
            exprs, events = [], []
            for f in self.fields:
                expr, ev = f.value(r)
                exprs.append("%s: %s" % ("r#" + f.ident if f.ident in KEYWORDS else f.ident, expr))
                if ev is not None:
                    events.append((f.name(), ev))
            events.sort(key=lambda e: e[0].encode())
            out, slots = [], list(SLOTS)
            for name, ev in events:
                while slots and slots[0].encode() < name.encode():
                    out.append(slots.pop(0))
                out.append(ev)
            out += slots + ["end"]
            cases.append("%s%s { %s }" % (self.name, "::<String>" if self.generic else "", ", ".join(exprs)))
            expected.append(out)
        # the value is built and serialized in a separate function: a failing one is reported by index
        run = "    pub fn run(k: usize) -> Vec<String> {\n        use oauth::Request;\n        match k {\n"
        for k, c in enumerate(cases):
            run += "            %d => { let v = %s; let a = v.serialize(Log::default()); let b = v.serialize(Log::default()); assert_eq!(a, b, \"not repeatable\"); a }\n" % (k, c)
        run += "            _ => unreachable!(),\n        }\n    }\n}\n"
        return head + decl + run, expected, decl, cases


def proof_structs(seed, n):
    """structs for which the output is also proved, for all values (see derive_proof.py)"""
    r = random.Random("derive-proof-%s" % seed)
    return [Struct(random.Random("%s-%d" % (r.random(), i)), i, True) for i in range(n)]


def good(seed, structs, values, proved=()):
    """-> (source of main.rs, list of (struct decl, case expression, expected events))"""
    r = random.Random("derive-good-%s" % seed)
    src, table, arms = PRELUDE, [], ""
    for s in [Struct(random.Random("%s-%d" % (r.random(), i)), i) for i in range(structs)] + list(proved):
        mod, expected, decl, cases = s.module(values)
        src += mod
        for k in range(values):
            arms += "        %d => m_%s::run(%d),\n" % (len(table), s.name.lower(), k)
            table.append((decl, cases[k], expected[k]))
    src += "fn main_hex(s: &str) -> String { s.bytes().map(|b| format!(\"{:02x}\", b)).collect() }\n"
    src += "fn case(n: usize) -> Vec<String> {\n    match n {\n" + arms + "        _ => unreachable!(),\n    }\n}\n"
    src += ("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n    for n in 0..%d {\n        match std::panic::catch_unwind(|| case(n)) {\n"
            "            Ok(v) => println!(\"{} {}\", n, v.iter().map(|s| main_hex(s)).collect::<Vec<_>>().join(\",\")),\n"
            "            Err(_) => println!(\"{} panic\", n),\n        }\n    }\n}\n") % len(table)
    return src, table


BAD_NAMES = ["a b", "a&b", "a=b", "a%41", "é", "a+b", "a/b", "?", "a'", "日", "a\u0000", "*", "a,b", "a\"b", "(", "{a}", "|", "`", "^", "@", ":", ";", "[", "!", "$", "a\tb", "\u007f"]


def bad(seed, count):
    """-> (source of lib.rs, list of (declaration, first line, last line, must be rejected))"""
    r = random.Random("derive-bad-%s" % seed)
    src, table = PRELUDE, []
    for i in range(count):
        kind = i % 5
        fields = []
        reject = True
        pool = r.sample(BASE, 4)
        if kind == 0:   # two fields renamed alike
            n = r.choice(RENAMES)
            fields = ['#[oauth1(rename = "%s")] %s: u32' % (n, pool[0]), '#[oauth1(rename = "%s")] %s: u32' % (n, pool[1])]
            if n == pool[2]:
                pool[2] = pool[3]
            fields.append("%s: String" % pool[2])
        elif kind == 1:  # renamed to another field's name
            fields = ["%s: u32" % pool[0], '#[oauth1(encoded, rename = "%s")] %s: u32' % (pool[0], pool[1]), "%s: Option<u32>" % pool[2]]
        elif kind == 2:  # not URI-safe
            fields = ["#[oauth1(rename = %s)] %s: u32" % (rust_str(BAD_NAMES[(i // 5 + r.randrange(2) * 13) % len(BAD_NAMES)]), pool[0]), "%s: u32" % pool[1]]
        elif kind == 3:  # a raw identifier and a rename to the same name
            k = r.choice(KEYWORDS)
            fields = ["r#%s: u32" % k, '#[oauth1(rename = "%s")] %s: u32' % (k, pool[1])]
        else:            # a control: must be accepted
            reject = False
            n = "renamed-%d" % i
            fields = ['#[oauth1(rename = "%s")] %s: u32' % (n, pool[0]), "%s: u32" % pool[1], '#[oauth1(rename = "%s")] %s: u32' % (n + "~", pool[2])]
        r.shuffle(fields)
        start = src.count("\n") + 1
        decl = "#[derive(oauth::Request)]\npub struct B%d {\n%s\n}\n" % (i, "\n".join("    %s," % f for f in fields))
        src += decl
        table.append((decl, start, src.count("\n"), reject))
    return src, table
