"""Shared by the checks: building what they need from /repo's working tree, running it, reporting."""
import fcntl, hashlib, json, os, pathlib, resource, shutil, signal, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / ".build"
TARGET = BUILD / "target"
ENV = dict(os.environ, CARGO_TARGET_DIR=str(TARGET), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


class CheckError(Exception):
    """The check cannot give an answer (not a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class lock:
    def __init__(self, name):
        BUILD.mkdir(exist_ok=True)
        self.f = open(BUILD / (name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sh(cmd, timeout=600, env=None, cwd=None, mem_gb=None, **kw):
    def pre():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env or ENV, cwd=cwd or VERIF,
                         preexec_fn=pre, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, out, err)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)  # with the solvers it has started
        out, err = p.communicate()
        return subprocess.CompletedProcess(cmd, 124, out, "timeout after %ss" % timeout)


def build_witness(release):
    with lock("cargo"):
        # the path dependencies make cargo rebuild from /repo's current sources
        cmd = ["cargo", "build", "--offline", "--manifest-path", VERIF / "witness/Cargo.toml", "--quiet"] + (["--release"] if release else [])
        p = sh(cmd, timeout=800)
    if p.returncode:
        raise CheckError("the witness crate does not build against /repo:\n" + p.stderr[-4000:])
    return TARGET / ("release" if release else "debug") / "witness"


def run_witness(exe, prop, seed, secs, trace):
    """Runs the witness search; a case that aborts or exhausts memory is found through the trace file."""
    p = sh([exe, "run", prop, "--seed", seed, "--secs", secs, "--trace", trace], timeout=secs + 500, mem_gb=8)
    if p.returncode == 0:
        try:
            return json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            raise CheckError("unreadable witness output: " + p.stdout[-500:])
    try:
        idx = int.from_bytes(open(trace, "rb").read(8), "little")
    except OSError:
        raise CheckError("witness failed: " + p.stderr[-2000:])
    # confirm
    q = sh([exe, "replay", prop, "--case", idx, "--seed", seed], timeout=120, mem_gb=8)
    if q.returncode in (0, 2):
        raise CheckError("witness ended with %s and the case does not reproduce: %s" % (p.returncode, p.stderr[-2000:]))
    return {"evaluations": idx, "cases": idx, "distinct": 0, "enumerated": 0, "debug_assertions": "debug" in str(exe), "samples": [],
            "failure": {"property": prop, "case": idx, "seed": seed, "debug_assertions": "debug" in str(exe), "input": "case %d" % idx,
                        "what": "the code under test ended the process (status %s)" % q.returncode}}


def write_json(path, obj):
    path = pathlib.Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    tmp = path.with_suffix(".tmp%d" % os.getpid())
    tmp.write_text(json.dumps(obj, indent=1, ensure_ascii=False) + "\n")
    os.replace(tmp, path)
