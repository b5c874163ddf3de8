#!/usr/bin/env python3
"""Writes tools/levels.json and tools/trusted.json (the texts of the manifest and of the evidence)."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
thm = re.findall(r"(?:proof|exec) fn (c\d\d_\w+)", "".join(p.read_text() for p in sorted((V / "contracts").glob("*.vc"))))
T = "contract-based deductive verification: Verus contracts spliced into rustc's own expansion of the code, every obligation discharged by Z3 on each run; counterexamples by running the real code"
A = {
 "tool": "Verus, Z3, rustc's macro expansion and the extraction (tools/extract) are trusted; the extraction rewrites paths, method names, iterator and Option/Result combinators, string literals and format_args into specified equivalents (DESIGN.md)",
 "std": "std: the contracts of 00_sx.vc on str, String, slices, Vec, Option, Result, iterators, sorting and fmt are assumed; a str is its bytes. The percent-encoding and either crates are not assumed: their source is verified with the rest",
 "disp": "a Display, AsRef, Borrow or Debug implementation of the caller shows the same text at every call (no interior mutability), and a Clone is equal to its original",
 "b64": "base64 crate: RFC 4648, engines as named", "sha": "sha1, hmac, digest crates: SHA-1, and HMAC for keys within one block, as uninterpreted functions fed incrementally",
 "rsa": "rsa 0.6 and 0.9: RSASSA-PKCS1-v1_5 as an uninterpreted function of key and digest; inner__RsaPrivateKey_as_ref (a transparent cast) is trusted",
 "rand": "rand: fill_bytes fills the buffer with what the generator draws", "time": "std::time: now() reads the clock, duration_since subtracts",
 "cmp": "fmt-cmp crate: the behaviour of fmt_cmp::cmp as read from its source (including its treatment of empty texts)",
 "serde": "serde: the serializers and map accessors keep to serde's data model as specified in 06_serde.vc",
 "arith": "usize arithmetic outside functions marked `wrap` is proved not to overflow; in those it is modelled as wrapping in release and as panicking in debug builds",
 "term": "a function may fail to terminate only in its callees; allocation never fails",
}
A["fmt"] = "C16: a formatting function given as `fmt =` writes the same text at every call; a `skip_if` predicate answers the same at every call"
A["syn"] = "syn: a string literal's value is its text"
use = {"C01": "b64 time rand", "C02": "b64 time rand", "C03": "b64 time rand", "C04": "", "C05": "", "C06": "sha b64 arith", "C07": "sha rsa b64 ",
 "C08": "", "C09": "", "C10": "cmp ", "C11": "time rand", "C12": "b64 rand time", "C13": "", "C14": "", "C15": "serde", "C16": "fmt syn", "C17": "", "C18": ""}
note = {
 "C01": "For all inputs: the contracts of Authorizer, the serializers and every Request implementation, composed by theorems into the RFC 5849 base string.",
 "C02": "For all inputs: the header text is proved to be the pre-existing buffer, `OAuth ` and the listed pairs.",
 "C03": "For all inputs: form and query output is proved to be the signed entries in order, then the signature; decoding is proved the inverse of encoding.",
 "C04": "For all inputs: the unsigned output is proved to be the joined encoded pairs of the request.",
 "C05": "For all texts and all ways of writing them in pieces: the single and double percent-encoding writers are proved equal to byte-wise RFC 3986 encoding.",
 "C06": "For all secrets of all lengths: the key buffer with its switch to hashing is proved to hold the RFC 2104 key; HMAC and SHA-1 themselves are uninterpreted.",
 "C07": "For all inputs: the PLAINTEXT text and the text handed to RSA are proved; RSA itself is uninterpreted.",
 "C08": "For all alternatives, user-defined ones included: every operation of Either is proved to relate as the chosen alternative's own contract says.",
 "C09": "For all requests and serializers: every Request implementation is proved to feed the merged sequence, and the recorder to record it.",
 "C10": "For all lists: sortedness and multiset preservation are proved for every constructor and mutator.",
 "C11": "For all arguments: every entry point is proved against one specification naming its verb, and determinism with pinned options is a theorem.",
 "C12": "For all random draws and clocks: nonce generation is proved total, of at most 12 URL-safe characters, and injective on the drawn number.",
 "C13": "For all values: every accessor, constructor, conversion and mapping is proved componentwise.",
 "C14": "For all secrets: the debug text is proved a function of the identifiers alone.",
 "C15": "For all field orders: the map visitor is proved by a loop invariant over arbitrary maps.",
 "C16": "For each generated struct, the `serialize` that the real macro emits is proved, for all field values and all serializers, to make the calls its declaration calls for; the macro's own tables and its name check, and the serializing code it calls, are proved outright. Bounded: which structs are generated.",
 "C17": "Both directions: a `?` or a misordered name cannot survive a debug build (postconditions), and the panic is proved unreachable otherwise (obligation at the panic).",
 "C18": "For all buffers and failures: on return everything was accepted, in order (contracts over a partially accepting writer).",
}
rule = "Cases of the witness search (support for the proof, and replay of its failures): enumerated small and edge cases and seeded random ones, run against the real code with and without debug assertions and compared with an independent oracle; distinct_nontrivial counts different inputs that reach the property's code."
levels, trusted = {}, {"_all": [A["tool"], A["std"], A["disp"], A["term"]]}
for p in sorted(note):
    l = {"technique": T, "level": "proof", "note": note[p], "rule": rule, "theorems": [t for t in thm if p.lower() in re.findall(r"c\d\d", t)]}
    if p == "C16":
        l["level"] = "translation_validation"
        l["technique"] = "contract-based deductive verification (Verus) of the macro's output: each generated struct's `serialize`, as rustc expands it, verified against a contract made from the declaration; the same structs compiled and run for replay"
        l["rule"] = "programs: seeded random structs with every combination of field attributes, given to the real derive macro; disagreements_checked: struct and value run, or declaration to be rejected, compared with the expectation; distinct_nontrivial: different ones with at least one field."
        l.pop("theorems")
    if not l.get("theorems"):
        l.pop("theorems", None)
    levels[p] = l
    trusted[p] = [A[k] for k in use[p].split()]
for n, o in (("levels", levels), ("trusted", trusted)):
    (V / "tools" / (n + ".json")).write_text(json.dumps(o, indent=1, ensure_ascii=False) + "\n")
