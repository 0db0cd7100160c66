#!/usr/bin/env python3
"""Driver of the checks: python3 run.py Cxx [quick|thorough] | Cxx --replay FILE | setup

Builds the harness into /repo's package through a build overlay, runs it in worker
processes, confirms crashes and hangs on their own, and writes evidence/Cxx.json.
Exit 0: held on everything explored. Exit 1: a VIOLATION line. Exit 2: no answer.
"""
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
PKG_PREFIX = "zz_vf_"
WORKERS = 8

RULES = {
    "C01": "a case drives one terminal with a random interleaving of defined control functions, hostile byte strings (damaged sequences, huge parameters, invalid UTF-8, truncated clusters), reads that end anywhere, and Resizes, and sweeps the accessors; an evaluation is one read survived; distinct = distinct byte/Resize histories",
    "C02": "as C01; an evaluation checks every invariant of both buffers at a quiescent point or after a Resize; distinct = distinct pairs of buffer contents",
    "C03": "a case runs a random operation sequence in lockstep with the reference model; an evaluation compares the whole state after one operation; distinct and non-trivial = distinct (state, operation) pairs that changed the state",
    "C04": "motions enumerated over size x cursor x region x operation x parameter, plus random sequences, against the closed-form cursor rules; distinct = distinct (geometry, cursor, operation)",
    "C05": "erase operations over random contents and geometries compared cell by cell with the model; non-trivial = the operation changed the screen",
    "C06": "scrolling, IL/DL, margins and line feeds over random contents and regions compared with the model; non-trivial = the operation changed the screen",
    "C07": "SGR parameter lists (enumerated short ones, random long ones) against the fold over parameters, applied to written cells; distinct = distinct (rendition, parameter list)",
    "C08": "one random stream delivered whole and cut at many sets of positions; an evaluation compares every observable at the end; distinct = distinct (final state, cuts)",
    "C09": "a control sequence (enumerated and random, defined or not) between two marks; an evaluation compares the state with the specified effect of the sequence and looks for leaked bytes; distinct = distinct (sequence, context)",
    "C10": "a mirror repainted only from what is announced is compared with the screen at quiescent points; distinct = distinct screen states",
    "C11": "an emulated outer terminal fed by TTYFrontend's output is compared with the inner screen; distinct = distinct states",
    "C12": "key events enumerated over key x modifiers x event type x enhancement flags x modifyOtherKeys x application cursor x keypad; non-trivial = the event produces more than plain text; distinct = distinct (bytes, configuration, key)",
    "C13": "mouse events enumerated over button x press x modifiers x coordinates x mode x encoding, and random mode histories; non-trivial = bytes are expected",
    "C14": "queries interleaved with everything else; an evaluation compares the bytes written with the expected reply; distinct = distinct (state, query)",
    "C15": "schedules: read boundaries with API calls between them, snapshots taken in the gaps between critical sections, free-running stress under the race detector; distinct = distinct observed states or schedules",
    "C16": "a ledger of self-identifying items behind a fault script (read sizes, zero reads, errors with and without data; short, failing and stopping writes; tees; ptys); distinct = distinct (stream, script, bytes delivered)",
    "C17": "both buffers snapshot around every operation; an evaluation checks isolation, level-triggered modes and their notifications; distinct = distinct (state, operation)",
    "C18": "a Resize, also inside sequences, compared cell by cell with the state before, and a terminal that always had the size driven alongside; distinct = distinct (state, size or operation)",
    "C19": "keyboard flag operations (all short sequences, random long ones) against the stack model through the terminal's replies; distinct = distinct (stack, operation)",
    "C20": "the same input to a span-backed and a grid-backed terminal, every observable compared after each operation; distinct = distinct (state, operation)",
}

ASSUMPTIONS = [
    "only executions produced by the generators are judged",
    "character widths and cluster boundaries are those of github.com/rivo/uniseg",
]


def go_env():
    env = dict(os.environ)
    env.update({
        "HOME": "/root", "LANG": "C.UTF-8", "TERM": "xterm", "GOTOOLCHAIN": "local", "GOSUMDB": "off", "GOPROXY": "off",
        "GOFLAGS": "-mod=mod", "GOWORK": "off", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "PATH": "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
    })
    # A build cache of our own: the repository's is not written by checks.
    env.setdefault("VF_GOCACHE", os.path.join(VERIF, "build", "gocache"))
    env["GOCACHE"] = env["VF_GOCACHE"]
    return env


def build(tmp, race):
    """Builds the test binary from /repo's working tree. Returns (path, note) or (None, log)."""
    files = {os.path.basename(f): f for f in glob.glob(os.path.join(HARNESS, PKG_PREFIX + "*_test.go"))}
    variants = [files]
    for alt in glob.glob(os.path.join(HARNESS, PKG_PREFIX + "*_test.go.alt")):
        v = dict(files)
        v.pop("zz_vf_loop_sync_test.go", None)
        v[os.path.basename(alt)[:-4]] = alt
        variants.append(v)
    log = ""
    mod = os.path.join(tmp, "go.mod")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(tmp, f))
    for v in variants:
        ov = os.path.join(tmp, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, k): p for k, p in v.items()}}, f)
        out = os.path.join(tmp, "vf.test")
        cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", ov, "-o", out]
        if race:
            cmd.append("-race")
        r = subprocess.run(cmd + ["."], cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode == 0 and os.path.exists(out):
            return out, ""
        log = log or r.stdout
    return None, log


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.race = prop == "C15"
        self.tmp = tempfile.mkdtemp(prefix="vf-")
        self.t0 = time.time()

    def env(self, shard, shards, out, case=None, watchdog=30):
        env = go_env()
        env.update({"VF_PROP": self.prop, "VF_TIER": self.tier, "VF_SEED": str(self.seed), "VF_SHARD": str(shard),
                    "VF_SHARDS": str(shards), "VF_OUT": out, "VF_WATCHDOG": str(watchdog), "GOTRACEBACK": "all"})
        env["VF_BUDGET"] = "300" if self.tier == "quick" else "660"
        for k in ("VF_CASE", "VF_VERBOSE", "VF_MERGE"):
            env.pop(k, None)
        if case is not None:
            env["VF_CASE"] = str(case)
        if self.race:
            env["GORACE"] = "halt_on_error=0 exitcode=66 atexit_sleep_ms=100 log_path=%s.race" % out
        else:
            env["GOMAXPROCS"] = "2"
            env["GOMEMLIMIT"] = "2200MiB"
        return env

    def start(self, shard, shards, out, case=None, watchdog=30):
        cwd = out + ".d"
        os.makedirs(cwd, exist_ok=True)
        for f in (out, out + ".keys", out + ".case"):
            if os.path.exists(f):
                os.remove(f)

        def limit():
            if not self.race:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        log = open(out + ".log", "wb")
        return subprocess.Popen([self.bin, "-test.run", "^TestVerif$", "-test.timeout", "0"], cwd=cwd, env=self.env(shard, shards, out, case, watchdog),
                                stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limit)

    def wait(self, procs, limit):
        """Waits for all; those that exceed the limit are ended."""
        end = time.time() + limit
        codes = {}
        for k, p in procs.items():
            try:
                codes[k] = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                codes[k] = None
        return codes

    def outcome(self, out, code):
        """What a worker's end means: (kind, data)."""
        log = open(out + ".log", "rb").read().decode("utf-8", "replace") if os.path.exists(out + ".log") else ""
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        case = None
        if os.path.exists(out + ".case"):
            b = open(out + ".case", "rb").read(8)
            if len(b) == 8:
                case = struct.unpack("<Q", b)[0]
        if res is not None and res.get("done"):
            return "done", res, case, log
        if code is None:
            return "timeout", None, case, log
        if code == 97:
            return "hang", None, case, log
        if code == -signal.SIGKILL:
            return "killed", None, case, log
        return "crash", None, case, log

    def alone(self, case, watchdog):
        out = os.path.join(self.tmp, "alone")
        p = self.start(0, 1, out, case=case, watchdog=watchdog)
        codes = self.wait({0: p}, watchdog * 3 + 60)
        return self.outcome(out, codes[0])


def crash_title(log):
    for line in log.splitlines():
        if line.startswith(("panic:", "fatal error:", "runtime: out of memory", "unexpected fault")):
            return line.strip()[:200]
    return "the process died"


def crash_in_repo(log):
    """The crash happened in termemu's code or below, not in the harness itself."""
    for m in re.finditer(r"^\s+(/\S+\.go):\d+", log, re.M):
        f = m.group(1)
        if os.path.basename(f).startswith(PKG_PREFIX):
            return True  # the harness only calls termemu: what it hits is termemu's state
        if f.startswith(REPO + "/"):
            return True
    return True


def race_reports(prefix):
    """Race reports of one worker, one per pair of accesses."""
    seen = {}
    for f in sorted(glob.glob(prefix + ".race.*")):
        text = open(f, errors="replace").read()
        for block in text.split("=================="):
            if "WARNING: DATA RACE" not in block:
                continue
            fns = re.findall(r"(?:Read|Write|Previous read|Previous write|Atomic\S*) at .*?:\n\s+(\S+)\(", block)
            locs = re.findall(r"\n\s+(/\S+\.go):(\d+)", block)
            repo = [os.path.basename(a) for a, _ in locs if a.startswith(REPO + "/") and not os.path.basename(a).startswith(PKG_PREFIX)]
            key = " / ".join(fns[:2]) or "?"
            seen.setdefault(key, (block.strip(), bool(repo)))
    return seen


def known_findings():
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*)$", line.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def write_replay(run, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((v["what"] + v.get("detail", "")).encode("utf-8", "replace")).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (run.prop, h))
    body = {"property": run.prop, "tier": run.tier, "seed": run.seed, "case": v.get("case"), "what": v["what"], "detail": v.get("detail", ""),
            "replay": "python3 %s %s --replay %s" % (os.path.join(VERIF, "run.py"), run.prop, path)}
    with open(path, "w") as f:
        json.dump(body, f, indent=1, ensure_ascii=False)
    return path


def check(prop, tier, seed):
    run = Run(prop, tier, seed)
    try:
        return run_check(run)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def run_check(run):
    prop, tier = run.prop, run.tier
    evid = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    run.bin, log = build(run.tmp, run.race)
    if run.bin is None:
        print("%s: the harness does not build against this tree:\n%s" % (prop, log[-4000:]))
        return 2
    limit = 560 if tier == "quick" else 840
    outs = {i: os.path.join(run.tmp, "w%d" % i) for i in range(WORKERS)}
    procs = {i: run.start(i, WORKERS, outs[i]) for i in outs}
    codes = run.wait(procs, limit)
    results, violations, notes = [], [], []
    keyfiles = []
    for i, out in outs.items():
        kind, res, case, log = run.outcome(out, codes[i])
        if kind == "killed":  # out of memory, not ours to judge before trying again
            p = run.start(i, WORKERS, out)
            kind, res, case, log = run.outcome(out, run.wait({i: p}, limit)[i])
        if kind == "done":
            results.append(res)
            keyfiles.append(out + ".keys")
            violations += res.get("violations") or []
        elif kind in ("hang", "crash"):
            if len([v for v in violations if v.get("fatal")]) >= 2:
                continue
            what = "no progress" if kind == "hang" else crash_title(log)
            k2, r2, c2, log2 = run.alone(case, 45 if tier == "quick" else 60) if case is not None else (kind, None, case, log)
            if k2 in ("hang", "crash"):
                title = ("no progress in case %s" % case) if k2 == "hang" else crash_title(log2)
                violations.append({"case": case, "what": title, "detail": log2[-12000:] if k2 == "hang" else log2[:12000], "fatal": True})
            elif kind == "crash" or run.race and "sync.Mutex.Lock" in log:
                # It happened; that it does not happen alone is a matter of schedule or of
                # what ran before in the same process.
                if "panic" in what or "fatal" in what or kind == "hang":
                    violations.append({"case": case, "what": what, "detail": log[:12000], "fatal": True})
                else:
                    notes.append("worker %d ended with %s: %s" % (i, codes[i], log[-500:]))
            else:
                p = run.start(i, WORKERS, out, watchdog=120)
                kind, res, case, log = run.outcome(out, run.wait({i: p}, 300)[i])
                if kind == "done":
                    results.append(res)
                    keyfiles.append(out + ".keys")
                    violations += res.get("violations") or []
                elif kind == "hang":
                    violations.append({"case": case, "what": "no progress", "detail": log[-12000:], "fatal": True})
                else:
                    notes.append("worker %d: %s" % (i, kind))
        else:
            notes.append("worker %d: %s at case %s" % (i, kind, case))
        if run.race:
            for key, (block, in_repo) in race_reports(out).items():
                violations.append({"case": case, "what": "data race: " + key, "detail": block})
    counters, samples = {}, []
    for r in results:
        for k, n in (r.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + n
        samples += r.get("samples") or []
    evals = sum(r["evaluations"] for r in results)
    cases = sum(r["cases"] for r in results)
    distinct = 0
    if keyfiles:
        m = os.path.join(run.tmp, "merged")
        env = go_env()
        env.update({"VF_MERGE": ":".join(keyfiles), "VF_OUT": m})
        subprocess.run([run.bin, "-test.run", "^TestVerif$"], env=env, cwd=run.tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        if os.path.exists(m):
            distinct = int(open(m).read() or 0)
    # Known findings.
    reported, known = [], []
    seen = set()
    for v in violations:
        k = [m for p, m in known_findings() if p == prop and m in v["what"]]
        if k:
            known.append(k[0])
            continue
        if v["what"] in seen:
            continue
        seen.add(v["what"])
        reported.append(v)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    samples = sorted(samples, key=len)[:6] or ["(none short enough to write out)"]
    ev = {
        "property": prop, "tier": tier, "seed": run.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": RULES[prop], "samples": samples,
            "cases": cases, "observed": dict(sorted(counters.items())),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - run.t0, 2),
        "violations": len(reported),
    }
    if run.race:
        ev["coverage"]["race_reports"] = len([v for v in violations if v["what"].startswith("data race")])
    if notes:
        ev["coverage"]["notes"] = notes
    with open(evid, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for v in reported[:8]:
        path = write_replay(run, v)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + v["what"][:400].replace("\n", "\n  "))
    if reported:
        return 1
    if notes or evals == 0 or distinct == 0:
        print("%s: no answer: %s" % (prop, "; ".join(notes) or "nothing was observed"))
        return 2
    print("%s: held on %d evaluations (%d distinct) in %d cases, %.1f s" % (prop, evals, distinct, cases, time.time() - run.t0))
    return 0


def replay(prop, path):
    d = json.load(open(path))
    run = Run(prop, d["tier"], d["seed"])
    try:
        run.bin, log = build(run.tmp, run.race)
        if run.bin is None:
            print(log)
            return 2
        if d.get("case") is None:
            print(d["detail"])
            return 2
        for _ in range(20 if run.race else 1):
            kind, res, case, log = run.alone(d["case"], 60)
            vs = (res or {}).get("violations") or []
            vs += [{"what": "data race: " + k, "detail": b} for k, (b, _) in race_reports(os.path.join(run.tmp, "alone")).items()]
            if kind != "done":
                vs.append({"what": kind, "detail": log[-8000:]})
            if vs:
                for v in vs:
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    print(v["what"])
                    print(v["detail"])
                return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def setup():
    """Warms the build cache for both builds and checks that they work."""
    for race in (False, True):
        tmp = tempfile.mkdtemp(prefix="vf-")
        try:
            out, log = build(tmp, race)
            if out is None:
                print(log)
                return 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 0


def main():
    args = sys.argv[1:]
    if args == ["setup"]:
        return setup()
    if len(args) >= 1 and args[0] in RULES:
        if len(args) == 3 and args[1] == "--replay":
            return replay(args[0], args[2])
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier in ("quick", "thorough"):
            try:
                seed = int(os.environ.get("VERIF_SEED", "1"))
            except ValueError:
                seed = 1
            return check(args[0], tier, seed)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
