"""C16: runs generated structs that derive `Request` and compares with tools/derivegen.py."""
import json, shutil
from common import *
import derivegen

CARGO = """[package]
name = "{name}"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
oauth1-request = {{ path = "{repo}/oauth1-request", features = ["hmac-sha1", "rsa-sha1-06", "rsa-sha1-09", "either", "serde", "derive", "test", "std", "js"] }}
[patch.crates-io]
oauth-credentials = {{ path = "{repo}/oauth-credentials" }}
oauth1-request = {{ path = "{repo}/oauth1-request" }}
oauth1-request-derive = {{ path = "{repo}/oauth1-request-derive" }}
rand = {{ path = "{verif}/witness/rand-controlled" }}
[profile.dev]
opt-level = 0
debug = false
incremental = false
[profile.dev.package."*"]
opt-level = 2
"""


def crate(name, main, src):
    d = BUILD / name
    (d / "src").mkdir(parents=True, exist_ok=True)
    (d / "Cargo.toml").write_text(CARGO.format(name=name, repo=REPO, verif=VERIF))
    shutil.copy(VERIF / "witness/Cargo.lock", d / "Cargo.lock")
    (d / "src" / main).write_text(src)
    return d


def run(seed, structs, values, bads, proved=()):
    """-> dict(programs, evaluations, distinct, samples, failure)"""
    out = {"programs": structs + len(proved) + bads, "evaluations": 0, "distinct": 0, "samples": [], "failure": None}
    src, table = derivegen.good(seed, structs, values, proved)
    with lock("cargo"):
        d = crate("dgen_good", "main.rs", src)
        p = sh(["cargo", "build", "--offline", "--quiet", "--message-format=json"], cwd=d, timeout=800)
        exe = TARGET / "debug" / "dgen_good"
        if p.returncode:
            # is it the generated declarations that are rejected?  then accepted structs are no longer accepted
            msgs = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
            errs = [m["message"] for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["target"]["name"] == "dgen_good"]
            if not errs:
                raise CheckError("dgen does not build: " + p.stderr[-3000:])
            e = next((e for e in errs if e["spans"]), errs[0])
            line = e["spans"][0]["line_start"] if e["spans"] else 0
            lines = src.splitlines()
            lo = line
            while lo > 0 and not lines[lo - 1].startswith("pub mod m_"):
                lo -= 1
            hi = next((i for i in range(lo, len(lines)) if lines[i].strip() == "}" and lines[i].startswith("    }")), lo)
            out["failure"] = {"input": "\n".join(lines[lo + 1:hi + 1])[:3000],
                              "what": "a struct that has to be accepted does not compile: " + (e.get("rendered") or e["message"])[:1500]}
            return out
        q = sh([exe], timeout=120, mem_gb=8)
    if q.returncode:
        raise CheckError("dgen_good ended with %s: %s" % (q.returncode, q.stderr[-1000:]))
    seen = set()
    for line in q.stdout.splitlines():
        n, rest = line.split(" ", 1)
        n = int(n)
        decl, case, want = table[n]
        out["evaluations"] += 1
        got = None if rest == "panic" else [bytes.fromhex(h).decode() for h in rest.split(",")]
        if len(want) > 9:
            seen.add((decl, case))
        if got != want and not out["failure"]:
            out["failure"] = {"input": decl + case, "what": "calls made: %s\n expected: %s" % (got, want)}
    if out["evaluations"] != len(table) and not out["failure"]:
        raise CheckError("dgen_good printed %d of %d cases" % (out["evaluations"], len(table)))
    out["distinct"] = len(seen)
    out["samples"] = [{"struct": t[0], "value": t[1], "calls": t[2]} for t in table[values * 2:values * 2 + 2]]
    if out["failure"]:
        return out
    src, table = derivegen.bad(seed, bads)
    with lock("cargo"):
        d = crate("dgen_bad", "lib.rs", src)
        p = sh(["cargo", "check", "--offline", "--quiet", "--message-format=json"], cwd=d, timeout=800)
    msgs = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    errs = [m["message"] for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["target"]["name"] == "dgen_bad"]
    if not errs and p.returncode:
        raise CheckError("dgen_bad: " + p.stderr[-2000:])
    hit = set()
    for e in errs:
        for s in e["spans"]:
            if s["is_primary"]:
                for i, (_, a, b, _) in enumerate(table):
                    if a <= s["line_start"] <= b:
                        hit.add(i)
    for i, (decl, _, _, reject) in enumerate(table):
        out["evaluations"] += 1
        if (i in hit) != reject and not out["failure"]:
            out["failure"] = {"input": decl, "what": "has to be %s by the compiler, but is %s" % (("rejected", "accepted") if reject else ("accepted", "rejected"))}
    out["distinct"] += len({t[0] for t in table})
    out["samples"].append({"struct": table[0][0], "rejected": True})
    return out


if __name__ == "__main__":
    import sys
    print(json.dumps(run(sys.argv[1], int(sys.argv[2]), 3, 25), indent=1, ensure_ascii=False)[:3000])
