"""The deductive check: /repo's current sources are expanded by rustc, extracted with their contracts spliced in, and
every obligation is put to Verus (Z3).  See DESIGN.md, "How a check decides"."""
import collections, concurrent.futures as cf, difflib, hashlib, json, re, shutil, sys
from common import *

CRATES = [("oauth_credentials", "oauth-credentials"), ("oauth1_request", "oauth1-request"), ("oauth1_request_derive", "oauth1-request-derive")]
DEPS = [("dep_percent_encoding", "percent-encoding", []), ("dep_either", "either", ["--features", "either"])]  # dependencies of oauth1-request, as it uses them
PARTS = {"oauth1_request_derive", "dep_percent_encoding", "dep_either"}  # of these crates only what has a contract is extracted
CONTRACTS = sorted((VERIF / "contracts").glob("*.vc"))
EXTRACT = TARGET / "debug" / "vx-extract"
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"
CFGS = ("on", "off")  # debug assertions
CMD = "verus out.rs (the file vx-extract makes from /repo on each run; see tools/proof.py)"


def build_extract():
    with lock("cargo"):
        p = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", VERIF / "tools/extract/Cargo.toml"], timeout=600)
    if p.returncode:
        raise CheckError("vx-extract does not build:\n" + p.stderr[-3000:])


def expand(cfg, work):
    """rustc's own expansion of the crates, with every feature of the crate enabled."""
    out = []
    env = dict(ENV, CARGO_TARGET_DIR=str(BUILD / "expand"), RUSTUP_TOOLCHAIN="nightly")
    for name, d, opts in [(n, d, ["--all-features"]) for n, d in CRATES] + [(n, "oauth1-request", ["-p", p] + o) for n, p, o in DEPS]:
        f = work / (name + ".rs")
        with lock("expand"):
            p = sh(["cargo", "rustc", "--offline", "-q", "--manifest-path", REPO / d / "Cargo.toml", "--lib", *opts, "--profile=check",
                    "--", "-Zunpretty=expanded", "-Cdebug-assertions=" + cfg], timeout=600, env=env)
        if not p.returncode and not p.stdout.strip():
            raise CheckError("rustc expands %s to nothing" % name)
        if p.returncode:
            raise CheckError("rustc cannot expand %s:\n%s" % (d, p.stderr[-3000:]))
        f.write_text(p.stdout)
        out.append((name, f))
    return out


def extract(cfg, work, files, external=(), nohints=(), alts=(), renames=(), drop=(), probe=None, tag="", calm=False):
    out, mp = work / ("out%s.rs" % tag), work / ("map%s.json" % tag)
    cmd = [EXTRACT]
    for n, f in files:
        cmd += ["--part" if n in PARTS else "--crate", n, f]
    for c in CONTRACTS:
        cmd += ["--contracts", c]
    for e in sorted(external):
        cmd += ["--external", e]
    for e in sorted(nohints):
        cmd += ["--nohints", e]
    for e in sorted(alts):
        cmd += ["--alt", e]
    for e in sorted(drop):
        cmd += ["--drop", e]
    for k, a, b in renames:
        cmd += ["--rename", k, "%s=%s" % (a, b)]
    if cfg == "on":
        cmd += ["--cfg", "debug"]
    if probe:
        cmd += ["--probe", probe]
    p = sh(cmd + ["--out", out, "--map", mp], timeout=120)
    if p.returncode:
        return None, p.stderr[-2000:]
    m = json.loads(mp.read_text())
    m["file"] = str(out)
    text = out.read_text()
    if calm:
        # without the lemmas on joining texts, with which the solver can go on for ever where nothing is to be proved
        text = text.replace("broadcast use crate::sp::text;", "broadcast use crate::sp::text0;")
        out.write_text(text)
    m["text"] = text.split("\n")
    m["thms"] = units(m["text"])
    return m, ""


def units(lines):
    """Proof functions of the contract files (outside the extracted functions): (first line, last line, name)."""
    out = []
    for i, l in enumerate(lines, 1):
        g = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))? )?(?:impl.*\{ )?((?:(?:open|closed|broadcast|uninterp|const|unsafe) )*)(proof |spec |axiom |exec )?fn (\w+)", l)
        if g:
            if out:
                out[-1][1] = i - 1
            out.append([i, len(lines), g.group(3) if g.group(2) == "proof " or (g.group(2) == "exec " and re.match(r"c\d\d_", g.group(3))) else None])
    return [o for o in out if o[2]]


class Msg:
    def __init__(self, d, text):
        self.msg = d["message"]
        self.spans = [(s["line_start"], s["line_end"], s["is_primary"], s.get("label") or "") for s in d["spans"] if s["file_name"].endswith(".rs")]
        self.text = d.get("rendered") or d["message"]
        # spans in other files (vstd) say nothing about the place in ours
        self.own = [s for s, raw in zip(self.spans, d["spans"]) if "vstd" not in raw["file_name"]]


def place(m, e):
    """The function (key) or theorem an error belongs to."""
    def fn(l):
        best = None
        for f in m["fns"]:
            if f["lines"][0] <= l <= f["lines"][1] and (best is None or f["lines"][0] > best["lines"][0]):
                best = f
        return best
    # the body in which the obligation arises, rather than the text of the contract
    order = sorted(e.own, key=lambda s: (not re.search("at the end of the function body|at this exit|this call", s[3]), not s[2]))
    body_first = [s for s in order if fn(s[0]) and not is_spec_line(m, fn(s[0]), s[0])]
    for s in body_first + order:
        f = fn(s[0])
        if f:
            return "fn", f["key"]
    for s in order:
        best = None
        for a, b, n in m["thms"]:
            if a <= s[0] <= b:
                best = n
        if best:
            return "thm", best
    return None, None


def module(key):
    """The module a function is in."""
    out = []
    for s in key.split("::")[:-1]:
        if not re.match(r"[a-z_0-9]+$", s):
            break
        out.append(s)
    return "::".join(out)


def is_spec_line(m, f, l):
    """Before the body's opening brace."""
    for i in range(f["lines"][0], l + 1):
        if m["text"][i - 1].strip() == "{" or m["text"][i - 1].rstrip().endswith(") {"):
            return False
    return True


def verus(m, extra=(), timeout=300):
    t = time.time()
    p = sh([VERUS, m["file"], "--error-format=json", "--multiple-errors", "4", "--output-json", "--time", "--smt-option", "timeout=40000", *extra], timeout=timeout, mem_gb=14)
    try:
        res = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        res = {}
    errs = []
    noise = []
    for line in p.stderr.split("\n"):
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                errs.append(Msg(d, m["text"]))
        elif line.strip():
            noise.append(line)
    v = res.get("verification-results", {})
    smt = res.get("times-ms", {}).get("smt", {})
    return {"errs": errs, "noise": "\n".join(noise)[-3000:], "rc": p.returncode, "verified": v.get("verified"), "errors": v.get("errors"),
            "vir": v.get("encountered-vir-error", True) or (not v.get("success") and not v.get("errors")), "ok": v.get("success", False), "wall": time.time() - t,
            "smt_ms": smt.get("total", 0) if isinstance(smt, dict) else 0, "version": res.get("verus", {})}


SOFT = re.compile(r"resource limit|rlimit|Resource limit|could not finish|incomplete|timed? ?out", re.I)


def baseline():
    p = VERIF / "tools" / "baseline.json"
    return json.loads(p.read_text()) if p.exists() else {"on": {}, "off": {}}


def body_hash(f):
    return hashlib.sha256(f["src"].encode()).hexdigest()[:16]


def snapshot(m):
    return {f["key"]: {"h": body_hash(f), "calls": f["calls"], "shape": f["shape"], "params": f["params"], "binders": f["binders"]} for f in m["fns"] if f["body"]}


def changed(m, base):
    return [f["key"] for f in m["fns"] if f["body"] and (f["key"] not in base or base[f["key"]]["h"] != body_hash(f))]


def renames(m, base):
    """Parameters and locals of changed functions that only have another name now: the contracts follow."""
    out = []
    for f in m["fns"]:
        b = base.get(f["key"])
        if not f["body"] or b is None or b["h"] == body_hash(f) or "params" not in b:
            continue
        old, new = b["params"] + b["binders"], f["params"] + f["binders"]
        sub = {}
        if len(b["params"]) == len(f["params"]):
            sub.update((x, y) for x, y in zip(b["params"], f["params"]) if x != y)
        for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, b["binders"], f["binders"], autojunk=False).get_opcodes():
            if op == "replace" and i2 - i1 == j2 - j1:
                for x, y in zip(b["binders"][i1:i2], f["binders"][j1:j2]):
                    sub.setdefault(x, y)
        out += [(f["key"], x, y) for x, y in sub.items() if x not in new and y not in old and x != "self" and y != "self" and y.isidentifier()]
    return out


def unspecified():
    """Names of stand-ins for std and dependency functions of which nothing is specified."""
    every, spec = set(), set()
    for c in CONTRACTS:
        t = re.sub(r"assume_specification[^;{]*?\[[^\]]*?(\w+)\s*\]\(", r"fn \1(", c.read_text())
        every |= set(re.findall(r"\bfn (\w+)", t))
        spec |= set(re.findall(r"\bfn (\w+)(?:<[^{;]*?>)?\s*\([^{;]*?\bensures\b", t))
    return set(re.sub("^vx_", "", n) for n in every) - set(re.sub("^vx_", "", n) for n in spec)


def reach(m, f, base):
    """Why a failing function is out of the verifier's reach rather than wrong, or None."""
    if f["key"] in base and base[f["key"]]["h"] == body_hash(f):
        return None
    if f.get("inlined"):
        return "it is verified where it is inlined"
    if not f["contract"]:
        return "it has no contract of its own"
    b = base.get(f["key"])
    if b is None and not f.get("optional"):
        return "it is a new function"
    b = b or {"shape": "/0"}  # a contract for a method that is not there now
    if f["shape"] != b["shape"]:
        return "its loops or closures are not those its invariants were written for (%s, now %s)" % (b["shape"], f["shape"])
    if f["lost"]:
        return "its proof steps have lost their place: " + ", ".join(f["lost"])
    known = set(c for x in base.values() for c in x["calls"])
    loose = unspecified() - known
    nocon = {g["name"] for g in m["fns"] if not g["contract"] and g["key"] not in base}
    new = [c for c in f["calls"] if c in nocon or c in loose]
    if new:
        return "it calls what has no contract: " + ", ".join(sorted(new))
    return None


def verify(cfg, tier, keep=None):
    """One configuration: extraction, verification, and what could not be brought before the verifier."""
    work = BUILD / ("proof-%s-%d" % (cfg, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    try:
        return verify_in(cfg, tier, work)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def verify_in(cfg, tier, work):
    files = expand(cfg, work)
    base = baseline()[cfg]
    forced, drop, stage, ren = {}, set(), {}, None
    R = {"cfg": cfg, "forced": forced, "all_undecided": None, "failed": [], "map": None, "res": None, "wall": 0, "smt_ms": 0, "runs": 0, "tool": []}
    # the readings a changed function is tried in before it is set aside: as Option's or Result's combinators, with and without its proof steps
    READ = [(), ("alt",), ("nohints",), ("alt", "nohints")]

    def run(m, extra=(), timeout=300):
        r = verus(m, extra, timeout)
        R["runs"] += 1
        R["wall"] += r["wall"]
        R["smt_ms"] += r["smt_ms"]
        R["version"] = r["version"]
        return r

    def ex(nohints=(), **kw):
        def rd(x):
            return {k for k, n in stage.items() if n < len(READ) and x in READ[n]}
        return extract(cfg, work, files, forced, nohints=rd("nohints") | set(nohints), alts=rd("alt"), renames=ren or (), drop=drop, **kw)

    everything = False
    for rnd in range(20):
        m, err = ex()
        if m is not None and ren is None:
            ren = renames(m, base)
            if ren:
                R["tool"].append("renamed: %s" % ren)
                m, err = ex()
        if m is None:
            R["all_undecided"] = "the extraction does not handle the source: " + err.strip()[-600:]
            return R
        R["map"] = m
        r = run(m)
        if not r["vir"] and r["verified"] is not None:
            break
        # not verification but translation failed: set aside the functions at fault
        R["tool"] += [e.text for e in r["errs"][:6]] + ([r["noise"]] if not r["errs"] else [])
        new, retry = {}, False
        seen = set()
        for e in r["errs"]:
            k, key = place(m, e)
            f = next((f for f in m["fns"] if k == "fn" and f["key"] == key), None)
            if not f or not f["body"] or key in seen:
                continue
            seen.add(key)
            if key in forced:
                # its signature is refused even as an external function
                if key in changed(m, base) and key not in drop:
                    drop.add(key)
                    retry = True
                continue
            if key in changed(m, base) and stage.get(key, 0) + 1 < len(READ) and not f.get("inlined"):
                stage[key] = stage.get(key, 0) + 1
                retry = True
                continue
            new[key] = "outside the verifier's reach: " + e.msg[:200]
        if not new and not retry and not everything:
            everything = True
            new = {k: "set aside because the extracted file is rejected: " + (r["errs"][0].msg[:200] if r["errs"] else r["noise"][-200:]) for k in changed(m, base) if k not in forced}
        if not new and not retry or rnd == 19:
            R["all_undecided"] = "the verifier rejects the extracted file: " + (r["errs"][0].text if r["errs"] else r["noise"])[-600:]
            return R
        forced.update(new)

    def collect(m, r):
        o = collections.OrderedDict()
        for e in r["errs"]:
            o.setdefault(place(m, e), []).append(e)
        return o

    fails = collect(m, r)
    ch = set(changed(m, base))
    # once more, with more resources, another seed, and without the intermediate steps of the proofs that changed: a failing step is not a failing contract
    begun, late = time.time(), False
    for seed, plain in ((0, False), (7, True), (3, False)):
        steps = [key for (k, key) in fails if k == "fn" and key in ch]
        if not fails or (plain and not steps):
            continue
        left = 360 - (time.time() - begun)
        m2, _ = ex(nohints=steps, tag="2") if plain else (m, "")
        only = [] if any(k != "fn" for k, key in fails) else [x for key in sorted(set(module(key) for k, key in fails)) for x in ("--verify-module", key)]
        r2 = run(m2, ("--rlimit", "40", "--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed, *only), max(left, 20)) if m2 and left > 20 else None
        if r2 is None or r2["rc"] == 124:
            late = True
        elif not r2["vir"]:
            again = collect(m2, r2)
            fails = collections.OrderedDict((p, again[p] if p in again and not plain else es) for p, es in fails.items() if p in again)
    # what only ran out of resources, with fewer lemmas: proved or refused by the solver, it is decided
    soft = [key for (k, key), es in fails.items() if k == "fn" and key in ch and base.get(key, {}).get("calm") and all(SOFT.search(e.msg) for e in es)]
    if soft and time.time() - begun < 360:
        m2, _ = ex(tag="3", calm=True)
        r2 = run(m2, ("--rlimit", "40", *[x for key in sorted(set(map(module, soft))) for x in ("--verify-module", key)]), 150) if m2 else None
        if r2 and not r2["vir"] and r2["rc"] != 124:
            again = collect(m2, r2)
            for key in soft:
                p = ("fn", key)
                if p not in again:
                    del fails[p]
                else:
                    fails[p] = again[p]
    for (k, key), es in fails.items():
        f = next((f for f in m["fns"] if k == "fn" and f["key"] == key), None)
        text = "\n".join(e.text for e in es)
        if f is not None:
            why = reach(m, f, base)
            if why is None and (all(SOFT.search(e.msg) for e in es) or late and key in ch):
                why = "the solver ran out of resources"
            if why:
                forced[key] = why
                R["tool"].append("%s: %s\n%s" % (key, why, text[:1500]))
                continue
            tags = f["tags"]
        else:
            tags = [t.upper() for t in re.findall(r"c\d\d", (key or "").lower())]
            if not tags:
                # a lemma or a stand-in of the machinery itself
                R["tool"].append("%s: %s" % (key, text[:1500]))
                forced["lemma %s" % key] = "a lemma of the machinery is not proved: " + es[0].msg
                continue
        R["failed"].append({"kind": k, "key": key, "tags": tags, "output": text, "msgs": [e.msg for e in es]})
    R["res"] = r
    if tier == "thorough":
        R["probe"] = vacuity(ex)
    return R


def vacuity(ex):
    """An unprovable assertion at the entry and at the exit of every function must be rejected: no contract is vacuous."""
    out = {}
    for probe in ("entry", "exit"):
        m, err = ex(probe=probe, tag="-" + probe)
        r = verus(m, ("--multiple-errors", "1"))
        bad = set(place(m, e)[1] for e in r["errs"])
        live = [f["key"] for f in m["fns"] if f["body"] and not f["trusted"] and not f["forced"]]
        out[probe] = {"functions": len(live), "rejected": len([k for k in live if k in bad]), "not_rejected": [k for k in live if k not in bad][:20]}
    return out


def run(prop, tier):
    build_extract()
    with cf.ThreadPoolExecutor(2) as ex:
        rs = list(ex.map(lambda c: verify(c, tier), CFGS))
    failed, obligations, discharged = [], 0, 0
    funcs, undecided, thms, other = {}, {}, set(), []
    for r in rs:
        if r["all_undecided"]:
            undecided["everything (debug assertions %s)" % r["cfg"]] = r["all_undecided"]
            continue
        m = r["map"]
        bad = set()
        for f in r["failed"]:
            if prop in f["tags"] or not f["tags"]:
                failed.append({"obligation": "%s %s (debug assertions %s): %s" % ({"fn": "function", "thm": "theorem"}.get(f["kind"], "obligation"), f["key"], r["cfg"], "; ".join(sorted(set(f["msgs"])))), "output": f["output"]})
                bad.add(f["key"])
            else:
                other.append(f["key"])
        mine = [f for f in m["fns"] if prop in f["tags"] and f["body"] and not f["trusted"]]
        tnames = [t[2] for t in m["thms"] if prop.lower() in re.findall(r"c\d\d", t[2])]
        for f in mine:
            if f["key"] in r["forced"]:
                undecided[f["key"]] = r["forced"][f["key"]]
                continue
            obligations += 1
            discharged += f["key"] not in bad
            funcs[f["key"]] = 1
        for t in tnames:
            obligations += 1
            discharged += t not in bad
            thms.add(t)
    return {"failed": failed, "obligations": obligations, "discharged": discharged, "rs": rs, "functions": sorted(funcs), "undecided": undecided,
            "theorems": sorted(thms), "other": sorted(set(other))}


TRUSTED = json.loads((VERIF / "tools" / "trusted.json").read_text()) if (VERIF / "tools" / "trusted.json").exists() else {"_all": []}


def report(prop, pr, ws):
    rs = pr["rs"]
    levels = json.loads((VERIF / "tools" / "levels.json").read_text())
    level = levels[prop]["level"]
    m = next((r["map"] for r in rs if r["map"]), None)
    cov = {"obligations": pr["obligations"], "discharged": pr["discharged"], "checker_cmd": CMD,
           "trusted_base": TRUSTED["_all"] + TRUSTED.get(prop, []),
           "functions_under_contract": pr["functions"], "theorems": pr["theorems"],
           "bounded_not_proved": pr["undecided"],
           "whole_file": [{"debug_assertions": r["cfg"], "verified": r["res"] and r["res"]["verified"], "errors": r["res"] and r["res"]["errors"],
                           "back_end": "Verus %s, Z3" % (r.get("version") or {}).get("version", "?"), "solver_s": round(r["smt_ms"] / 1000, 1), "wall_s": round(r["wall"], 1)} for r in rs],
           "functions_in_file": m and len([f for f in m["fns"] if f["body"]]),
           "functions_trusted": m and [f["key"] for f in m["fns"] if f["trusted"]],
           "failed_elsewhere": pr["other"],
           "evaluations": sum(w["evaluations"] for w in ws), "distinct_nontrivial": sum(w["distinct"] for w in ws),
           "rule": levels[prop].get("rule", "random and enumerated cases run against the real code"), "samples": ws[0]["samples"]}
    if level == "translation_validation":
        cov["programs"], cov["disagreements_checked"] = sum(w["programs"] for w in ws), cov.pop("evaluations")
    for r in rs:
        if "probe" in r:
            cov.setdefault("vacuity_probes", {})[r["cfg"]] = r["probe"]
    if pr["undecided"] and level == "proof" and not pr["obligations"]:
        level = "exploration"
    return level, cov, TRUSTED["_all"] + TRUSTED.get(prop, [])


if __name__ == "__main__":
    # proof.py baseline: records what the contracts were written for; proof.py all: everything that fails
    build_extract()
    rs = [verify(c, "quick") for c in CFGS if not {"on", "off"} & set(sys.argv) or c in sys.argv]
    if sys.argv[1:] == ["baseline"]:
        snap = {r["cfg"]: snapshot(r["map"]) for r in rs}
        for cfg in snap:
            # which functions are proved with fewer lemmas as well
            work = BUILD / ("proof-calm-" + cfg)
            work.mkdir(parents=True, exist_ok=True)
            m, _ = extract(cfg, work, expand(cfg, work), calm=True)
            bad = set(place(m, e)[1] for e in verus(m)["errs"])
            for k in snap[cfg]:
                snap[cfg][k]["calm"] = k not in bad
            print(cfg, "not proved with fewer lemmas:", sorted(k for k in bad if k))
            shutil.rmtree(work)
        write_json(VERIF / "tools" / "baseline.json", snap)
    for r in rs:
        print(r["cfg"], r["all_undecided"], r["res"] and (r["res"]["verified"], r["res"]["errors"]), round(r["wall"]), r["smt_ms"])
        for k, v in r["forced"].items():
            print("  bounded:", k, "|", v)
        for f in r["failed"]:
            print("  FAILED:", f["key"], f["tags"], f["msgs"])
        if "-v" in sys.argv:
            print("\n".join(r["tool"]))
            for f in r["failed"]:
                print(f["output"])
