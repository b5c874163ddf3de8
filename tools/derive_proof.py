"""C16: the derive macro's output for generated structs, proved for all field values and all serializers.

For each struct the expected calls are computed from its declaration alone (derivegen.py) and written as the
contract of the `serialize` the macro generates; rustc's expansion of the struct goes through the same
extraction as /repo's own code.  Bounded in the structs, not in the values.
"""
import json, os, shutil, time
from common import *
import derivegen, derive_check, proof
from derivegen import SLOTS

PRELUDE = derivegen.PRELUDE.replace("use oauth1_request as oauth;\nuse oauth1_request::serializer::Serializer;\n", "extern crate oauth1_request as oauth;\n")
SLOT = {n: "".join(w.capitalize() for w in n[6:].split("_")) for n in SLOTS}
LIB = PRELUDE[:PRELUDE.index("#[derive(Default)]")] + PRELUDE[PRELUDE.index("// functions used"):]

COMMON = r'''
@raw derive
pub mod dh {
use vstd::prelude::*;
use crate::sx::fmt::{Formatter, Result};
/// what a formatting function given as `fmt = ..` writes for a value
pub uninterp spec fn ftext<T, F>(f: F, t: T) -> Seq<u8>;
/// assumed of such functions, as of `Display`: whenever they succeed they have written the same text
#[verifier::external_body]
pub proof fn ax_displays<T, F: Fn(T, &mut Formatter<'_>) -> Result>(f: F)
    ensures
        forall|t: T, m: &mut Formatter<'_>| #[trigger] call_requires(f, (t, m)),
        forall|t: T, m: &mut Formatter<'_>, r: Result| #[trigger] call_ensures(f, (t, m), r) ==> ((r.is_ok() ==> final(m).text() == (*m).text() + ftext(f, t)) && final(m).opts() == (*m).opts()),
{}
}
@item mod dgen::fns
pub uninterp spec fn s_is_zero(t: &u32) -> bool;
pub uninterp spec fn s_is_odd(t: &u32) -> bool;
pub uninterp spec fn s_shown_empty<T: ?Sized>(t: &T) -> bool;
pub open spec fn s_always<T: ?Sized>(t: &T) -> bool { true }
pub open spec fn s_never<T: ?Sized>(t: &T) -> bool { false }
@fn dgen::fns::is_zero : external
    ensures r == s_is_zero(t),
@fn dgen::fns::is_odd : external
    ensures r == s_is_odd(t),
@fn dgen::fns::shown_empty : external
    ensures r == s_shown_empty(t),
@fn dgen::fns::always : external
    ensures r,
@fn dgen::fns::never : external
    ensures !r,
@fn dgen::fns::* : external
@item impl <Display for Option>
    open spec fn disp(&self) -> Seq<u8> { @"O" + self.0.disp() }
@item impl <Display for Fmt__*>
    open spec fn disp(&self) -> Seq<u8> { crate::dh::ftext(self.1, self.0) }
@fn <Display for Fmt__*>::fmt : C16
@entry
    proof { crate::dh::ax_displays::<T, F>(self.1); }
@fn DeriveRequestAssertion__*::fmt : C16
    ensures r.0 == t, r.1 == f,
@fn DeriveRequestAssertion__*::fmt_impls_fn : C16
    ensures forall|x: &T| #[trigger] crate::dh::ftext(r, x) == crate::dh::ftext(f, x),
@fn DeriveRequestAssertion__*::skip_if_impls_fn : C16
    ensures forall|x: &T| #[trigger] call_requires(r, (x,)) == call_requires(f, (x,)), forall|x: &T, b: bool| #[trigger] call_ensures(r, (x,), b) ==> call_ensures(f, (x,), b),
'''


def contract(s):
    m, g = s.name.lower(), "<T: crate::sx::fmt::Display>" if s.generic else ""
    ty = s.name + ("<T>" if s.generic else "")
    items = [(f.name(), f) for f in s.fields if not f.skip]
    items.sort(key=lambda i: i[0].encode())
    steps, slots = [], list(SLOTS)
    for name, f in items:
        while slots and slots[0].encode() < name.encode():
            steps.append(slots.pop(0))
        steps.append(f)
    steps += slots
    fns = []
    for k, st in enumerate(steps):
        rest = "rest%d(s)" % (k + 1)
        if isinstance(st, str):
            body = "seq![Ev::Slot(OAuthParameter::%s)] + %s" % (SLOT[st], rest)
        else:
            ident = "r#" + st.ident if st.ident in derivegen.KEYWORDS else st.ident
            v = "v" if st.optional else "(&s.%s)" % ident
            base = {"string": "String", "u32": "u32", "bool": "bool", "char": "char", "gen": "T", "other": "Option<u32>"}[st.base]
            if st.kind == "str":
                base = "&'static str"
            fn = lambda n: "crate::dgen::fns::%s%s" % (n, "" if n in ("hex", "is_zero", "is_odd", "twice") else "::<%s>" % base)
            text = "crate::dh::ftext(%s, %s)" % (fn(st.fmt), v) if st.fmt else "crate::sx::fmt::Display::disp(%s)" % v
            body = "seq![Ev::%s(@%s, %s)] + %s" % ("ParamEnc" if st.encoded else "Param", derivegen.rust_str(st.name()), text, rest)
            if st.pred:
                body = "if crate::dgen::fns::s_%s(%s) { %s } else { %s }" % (st.pred, v, rest, body)
            if st.optional:
                body = "match &s.%s { core::option::Option::Some(v) => { %s }, core::option::Option::None => { %s } }" % (ident, body, rest)
        fns.append("pub open spec fn rest%d%s(s: &%s) -> Seq<Ev> { %s }" % (k, g, ty, body))
    fns.append("pub open spec fn rest%d%s(s: &%s) -> Seq<Ev> { Seq::empty() }" % (len(steps), g, ty))
    return """@item mod dgen::m_{m}
use crate::ev::*;
use crate::oauth1_request::util::OAuthParameter;
use crate::oauth1_request::serializer::Serializer;
broadcast use crate::ev::evs;
{fns}
@item impl dgen::m_{m}::<Request for {n}>
    open spec fn evs(&self) -> Seq<Ev> {{ rest0(self) }}
@fn dgen::m_{m}::<Request for {n}>::serialize : C16
@entry
    let ghost s0 = serializer;
    proof {{ assert(part(s0, rest0(self), rest0(self), s0)); }}
""".format(m=m, n=s.name, fns="\n".join(fns))


def sources(structs):
    src, vc = LIB, COMMON
    for s in structs:
        s.module(0)
        src += s.head + s.decl_text + "}\n"
        vc += contract(s)
    return src, vc


def run(structs):
    """-> dict(structs, obligations, discharged, failed, undecided, ...)"""
    proof.build_extract()
    work = BUILD / ("derive-proof-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    try:
        return run_in(structs, work)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def run_in(structs, work):
    out = {"structs": len(structs), "obligations": 0, "discharged": 0, "failed": [], "undecided": {}, "functions": [], "smt_ms": 0, "wall": 0}
    src, vc = sources(structs)
    (work / "dgen.vc").write_text(vc)
    files = proof.expand("on", work)
    d = derive_check.crate("dgen_proof", "lib.rs", src)
    with lock("expand"):
        p = sh(["cargo", "rustc", "--offline", "-q", "--manifest-path", d / "Cargo.toml", "--lib", "--profile=check", "--", "-Zunpretty=expanded"], timeout=600,
               env=dict(ENV, CARGO_TARGET_DIR=str(BUILD / "expand"), RUSTUP_TOOLCHAIN="nightly"))
    if p.returncode:
        # the run of the generated structs decides whether this is a violation
        out["undecided"]["all structs"] = "rustc does not expand them: " + p.stderr[-1500:]
        return out
    (work / "dgen.rs").write_text(p.stdout)
    files.append(("dgen", work / "dgen.rs"))
    forced = set()
    for rnd in range(8):
        m, err = extract(work, files, forced)
        if m is None:
            out["undecided"]["all structs"] = "the extraction does not handle the expansion: " + err[-600:]
            return out
        mods = sorted(set(proof.module(f["key"]) for f in m["fns"] if f["key"].startswith("dgen::m_")))
        only = [a for x in mods for a in ("--verify-only-module", x)]
        r = proof.verus(m, only)
        out["smt_ms"] += r["smt_ms"]
        out["wall"] += r["wall"]
        if not r["vir"] and r["verified"] is not None:
            break
        new = {}
        for e in r["errs"]:
            k, key = proof.place(m, e)
            f = next((f for f in m["fns"] if k == "fn" and f["key"] == key), None)
            if f and f["body"] and key not in forced:
                new[key] = "outside the verifier's reach: " + e.msg[:200]
        if not new or rnd == 7:
            out["undecided"]["all structs"] = "the verifier rejects the extracted file: " + (r["errs"][0].text if r["errs"] else r["noise"])[-600:]
            return out
        out["undecided"].update(new)
        forced |= set(new)
    fails = {}
    for e in r["errs"]:
        fails.setdefault(proof.place(m, e), []).append(e)
    for s in (7, 3):
        if fails:
            r2 = proof.verus(m, ["--rlimit", "40", "--smt-option", "smt.random_seed=%d" % s, "--smt-option", "sat.random_seed=%d" % s]
                             + [a for x in sorted(set(proof.module(k[1] or "") for k in fails)) if x for a in ("--verify-only-module", x)], 120)
            if r2["rc"] == 124:
                fails = {k: [] for k in fails}
                break
            if not r2["vir"]:
                again = {}
                for e in r2["errs"]:
                    again.setdefault(proof.place(m, e), []).append(e)
                fails = {k: again[k] for k in fails if k in again}
    mine = [f for f in m["fns"] if f["key"].startswith("dgen::m_") and f["body"] and not f["forced"] and "C16" in f["tags"]]
    out["functions"] = [f["key"] for f in mine]
    bad = set()
    decl = {s.name: s.decl_text for s in structs}
    for (k, key), es in fails.items():
        f = next((f for f in mine if f["key"] == key), None)
        why = None
        if f is None:
            why = "it has no contract"
        elif not es or all(proof.SOFT.search(e.msg) for e in es):
            why = "the solver ran out of resources"
        elif not key.endswith("::serialize"):
            why = "a helper of the generated code is not proved: " + es[0].msg
        elif any(u.startswith(proof.module(key) + "::") for u in out["undecided"]):
            why = "it uses what is outside the verifier's reach"
        if why:
            out["undecided"][key] = why
            mine = [f for f in mine if f["key"] != key]
            continue
        bad.add(key)
        name = proof.module(key).split("_")[-1].upper()
        out["failed"].append({"obligation": "function %s, generated by the derive macro: %s" % (key, "; ".join(sorted(set(e.msg for e in es)))),
                              "output": decl.get(name, "") + "\n".join(e.text for e in es)})
    out["obligations"] = len(mine)
    out["discharged"] = len(mine) - len(bad)
    return out


def extract(work, files, forced):
    cmd = [proof.EXTRACT, "--only", "dgen", "--cfg", "debug"]
    for n, f in files:
        cmd += ["--part" if n in proof.PARTS else "--crate", n, f]
    for c in proof.CONTRACTS + [work / "dgen.vc"]:
        cmd += ["--contracts", c]
    for e in sorted(forced):
        cmd += ["--external", e]
    o, mp = work / "out.rs", work / "map.json"
    p = sh(cmd + ["--out", o, "--map", mp], timeout=120)
    if p.returncode:
        return None, p.stderr[-2000:]
    m = json.loads(mp.read_text())
    m["file"] = str(o)
    m["text"] = o.read_text().split("\n")
    m["thms"] = proof.units(m["text"])
    return m, ""


if __name__ == "__main__":
    import sys
    r = run(derivegen.proof_structs(sys.argv[1], int(sys.argv[2])))
    print({k: v for k, v in r.items() if k not in ("failed", "functions")})
    for f in r["failed"]:
        print(f["obligation"], f["output"][:3000])
