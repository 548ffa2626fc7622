#!/usr/bin/env python3
"""Runs the monitors for one property: check.py ID [quick|thorough], or check.py replay FILE.

Builds the harness against /repo's working tree in the configurations the property needs, runs many
workers on distinct random streams, and turns what they observed into a verdict and an evidence file.
Exit 0: held on everything explored; 1: violation (line on stdout); 2: no answer."""
import json, os, resource, shutil, signal, subprocess, sys, threading, time, glob, struct

ROOT = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(ROOT, "harness")
TGT = os.path.join(HARN, "target")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
N24 = "nightly-2024-11-07"

# name: (toolchain, features, release?, extra rustflags, kind)
CONF = {
    "ss": ("stable", "hashmap,std_io", False, "", "native"),
    "sh": ("stable", "hashmap", False, "", "native"),
    "ssr": ("stable", "hashmap,std_io", True, "", "native"),
    "u": (N24, "unstable,std_io", False, "", "native"),
    "ur": (N24, "unstable,std_io", True, "", "native"),
    "sa": (N24, "hashmap,std_io,plain", True, "-Zsanitizer=address", "asan"),
    "ha": (N24, "hashmap,plain", True, "-Zsanitizer=address", "asan"),
    "ua": (N24, "unstable,std_io,plain", True, "-Zsanitizer=address", "asan"),
    "st": (N24, "hashmap,std_io,plain", True, "-Zsanitizer=thread", "tsan"),
    "ut": (N24, "unstable,std_io,plain", True, "-Zsanitizer=thread", "tsan"),
    "ms": ("nightly", "hashmap,std_io,plain", False, "", "miri"),
    "mh": ("nightly", "hashmap,plain", False, "", "miri"),
    "mu": ("nightly", "unstable,std_io,plain", False, "--cfg fc_verif_modern", "miri"),
}
MIRIFLAGS = {
    "ms": "-Zmiri-disable-isolation",
    "mh": "-Zmiri-disable-isolation",
    # the BTree code, like its std ancestor of 2018, is not written for Stacked Borrows
    "mu": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows",
}
from plan import PLAN, PROBES  # noqa: E402
import probes  # noqa: E402


def env_for(cfg):
    tc, feats, rel, flags, kind = CONF[cfg]
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=os.path.join(TGT, cfg), RUSTUP_TOOLCHAIN=tc)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    if flags:
        e["RUSTFLAGS"] = flags
    if kind == "miri":
        e["MIRIFLAGS"] = MIRIFLAGS[cfg]
    if kind == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=64:abort_on_error=0:detect_stack_use_after_return=0"
    if kind == "tsan":
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4"
    return e


def cmd_for(cfg):
    tc, feats, rel, flags, kind = CONF[cfg]
    if kind == "miri":
        return ["cargo", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(HARN, "Cargo.toml"), "--features", feats, "--"]
    d = [TGT, cfg] + ([TRIPLE] if kind in ("asan", "tsan") else []) + ["release" if rel else "debug", "fcv"]
    return [os.path.join(*d)]


def build(cfg, log):
    tc, feats, rel, flags, kind = CONF[cfg]
    # cargo goes by modification times: forget the freshness of the crate under test
    for p in glob.glob(os.path.join(TGT, cfg, "**", ".fingerprint", "fallible_collections-*"), recursive=True):
        shutil.rmtree(p, ignore_errors=True)
    if kind == "miri":
        c = ["cargo", "miri", "run", "--offline", "--manifest-path", os.path.join(HARN, "Cargo.toml"), "--features", feats, "--", "--prop", "0"]
    else:
        c = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HARN, "Cargo.toml"), "--features", feats]
        if rel:
            c.append("--release")
        if kind in ("asan", "tsan"):
            c += ["--target", TRIPLE]
    t = time.time()
    with open(log, "w") as f:
        r = subprocess.run(c, env=env_for(cfg), stdout=f, stderr=subprocess.STDOUT, cwd=HARN)
    return r.returncode, time.time() - t


def limits(kind):
    def f():
        os.setsid()
        if kind == "native":
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_once(cfg, prop, args, timeout, tag):
    """One worker process. Returns (status, stdout, stderr tail); status 'timeout' when it had to be ended."""
    w = os.path.join(EVID, "work", f"{prop}.{tag}")
    cmd = cmd_for(cfg) + ["--prop", str(int(prop[1:]))] + args
    with open(w + ".out", "wb") as fo, open(w + ".err", "wb") as fe:
        p = subprocess.Popen(cmd, env=env_for(cfg), stdout=fo, stderr=fe, preexec_fn=limits(CONF[cfg][4]), cwd=HARN)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    out = open(w + ".out", errors="replace").read()
    err = open(w + ".err", "rb").read()[-20000:].decode(errors="replace")
    return rc, out, err


def parse(out):
    rep = done = None
    for l in out.splitlines():
        if l.startswith('{"report"'):
            try:
                rep = json.loads(l)["report"]
            except ValueError:
                pass
        elif l.startswith('{"done"'):
            try:
                done = json.loads(l)["done"]
            except ValueError:
                pass
    return rep, done


class Worker(threading.Thread):
    def __init__(self, run, leg, idx, stream):
        super().__init__(daemon=True)
        self.runr, self.leg, self.idx, self.stream = run, leg, idx, stream

    def run(self):
        try:
            self.go()
        except Exception as e:  # noqa
            self.runr.problem(f"{self.leg['name']}.{self.idx}: {e!r}")

    def go(self):
        R, L = self.runr, self.leg
        cfg, prop = L["cfg"], R.prop
        tag = f"{L['name']}.{self.idx}"
        state = os.path.join(EVID, "work", f"{prop}.{tag}.state")
        fp = os.path.join(EVID, "work", f"{prop}.{tag}.fp")
        deadline = time.time() + L["s"]
        start, restarts = 0, 0
        while not R.stop.is_set():
            ms = int((deadline - time.time()) * 1000)
            if ms <= 0 and restarts:
                break
            ms = max(ms, 500)
            for f in (state, fp):
                if os.path.exists(f):
                    os.remove(f)
            base = ["--seed", str(R.seed), "--stream", str(self.stream)] + L.get("args", [])
            args = base + ["--start", str(start), "--ms", str(ms), "--state", state, "--fp", fp]
            rc, out, err = run_once(cfg, prop, args, ms / 1000 + 200, tag)
            rep, done = parse(out)
            case = None
            try:
                case = struct.unpack("<Q", open(state, "rb").read(8))[0]
            except (OSError, struct.error):
                pass
            if done:
                R.merge(L, done, fp)
            if rc == 0 and done:
                if done.get("none"):
                    R.problem(f"leg {L['name']}: nothing registered")
                return
            if rc == 10 and rep:
                R.violation(L, base, rep.get("case", case), rep, err)
                return
            if rc == 11 and rep:
                R.foreign(L, rep)
                restarts += 1
                start = rep["case"] + 1
                if restarts > (25 if CONF[cfg][4] == "miri" else 300):
                    R.problem(f"leg {L['name']}: stopped after {restarts} disagreements that belong to other properties")
                    return
                continue
            if rc in ("timeout", -9, 137):
                R.problem(f"leg {L['name']}: worker ended by {rc}, inconclusive")
                return
            if rc == 12:
                start = (case or start) + 1
                restarts += 1
                continue
            if rc == 2 or (rc == 101 and case is None and CONF[cfg][4] != "miri"):
                R.problem(f"leg {L['name']}: harness error {rc}: {err[-400:]}")
                return
            # the process died: abort, signal, sanitizer report, interpreter report
            kind = CONF[cfg][4]
            if kind == "miri":
                if "Undefined Behavior" not in err and "error: abnormal termination" not in err and "memory leaked" not in err:
                    R.problem(f"leg {L['name']}: interpreter stopped ({rc}): {err[-600:]}")
                    return
            if rc == -6 and "memory allocation of" in err and L.get("oom_ok"):
                R.problem(f"leg {L['name']}: out of memory in the harness")
                return
            rep = dict(kind="Crash", msg=f"the process ended with status {rc}", engine="?", case=case, trace=[])
            if case is not None and kind != "miri":
                a2 = base + ["--start", str(case), "--cases", "1", "--trace"]
                rc2, out2, err2 = run_once(cfg, prop, a2, 120, tag + ".re")
                rep["trace"] = [l for l in err2.splitlines() if "->" in l][-40:]
                rep["alone"] = f"case alone: status {rc2}"
            R.violation(L, base, case, rep, err)
            return


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.viol, self.problems, self.foreigns = [], [], {}
        self.tot = dict(cases=0, ops=0, allocs=0, frees=0, injected=0, block_checks=0, elements=0, drops=0)
        self.stats, self.max, self.engines, self.samples, self.legs = {}, {}, {}, [], {}
        self.fps = []
        self.probes = {}

    def problem(self, s):
        with self.lock:
            if s not in self.problems:
                self.problems.append(s)
                print("note:", s, file=sys.stderr)

    def foreign(self, L, rep):
        with self.lock:
            k = f"{L['name']}: {rep['kind']} in engine {rep['engine']}: {rep['msg'][:150]}"
            self.foreigns[k] = self.foreigns.get(k, 0) + 1

    def merge(self, L, d, fp):
        if d.get("none"):
            return
        with self.lock:
            for k in self.tot:
                self.tot[k] += d[k]
            l = self.legs.setdefault(L["name"], dict(workers=0, cases=0, operations=0, injected_failures=0))
            l["workers"] += 1
            l["cases"] += d["cases"]
            l["operations"] += d["ops"]
            l["injected_failures"] += d["injected"]
            for k, v in d["stats"].items():
                a = self.stats.setdefault(k, [0] * 5)
                for i in range(5):
                    a[i] += v[i]
            for k, v in d["max"].items():
                self.max[k] = max(v, self.max.get(k, 0))
            for k, v in d["engines"].items():
                self.engines[k] = self.engines.get(k, 0) + v
            if len(self.samples) < 6:
                for s in d["samples"]:
                    if len(self.samples) < 6 and s["engine"] not in [x["engine"] for x in self.samples]:
                        self.samples.append(dict(leg=L["name"], **s))
            if os.path.exists(fp):
                self.fps.append(open(fp, "rb").read())
                os.remove(fp)

    def violation(self, L, base, case, rep, err):
        with self.lock:
            n = len(self.viol)
            cfg = L["cfg"]
            d = dict(property=self.prop, config=cfg, toolchain=CONF[cfg][0], features=CONF[cfg][1], args=base, case=case,
                     kind=rep.get("kind"), message=rep.get("msg"), engine=rep.get("engine"), alone=rep.get("alone"),
                     trace=rep.get("trace"), stderr=err[-6000:])
            os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
            p = os.path.join(EVID, "replay", f"{self.prop}-{L['name']}-{n}.json")
            json.dump(d, open(p, "w"), indent=1)
            self.viol.append((d, p))
            self.stop.set()


def lifetime_probes(R, cfg, only=None):
    """Attack programs that only compile when the library's signatures are unsound; see probes.py."""
    work = os.path.join(EVID, "work", f"{R.prop}.probes.{cfg}")
    r = probes.run(cfg, os.path.join(TGT, cfg, "debug", "deps"), env_for(cfg), work, only)
    shutil.rmtree(work, ignore_errors=True)
    if r["error"]:
        R.problem("lifetime probes: " + r["error"])
    d = {}
    for name, verdict, detail, src in r["results"]:
        d[verdict] = d.get(verdict, 0) + 1
        if verdict == "allowed-unsound":
            R.violation(dict(cfg=cfg, name=cfg + "-probe"), None, name, dict(kind="Mem", engine="lifetime probes", trace=src.splitlines()[-1:],
                        msg=f"safe code that must not compile does, and misbehaves when run ({name}): {detail}"), "")
        elif verdict != "refused":
            R.problem(f"lifetime probe '{name}' ({cfg}): {verdict} {detail[-300:]}")
    R.probes[cfg] = d
    return r


def distinct(blobs):
    """Number of different 64-bit fingerprints."""
    import array
    s = set()
    for b in blobs:
        a = array.array("Q")
        a.frombytes(b[: len(b) // 8 * 8])
        s.update(a)
    return len(s)


def known_lines():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                d = dict(x.split("=", 1) for x in l[7:].split(" ") if "=" in x and not x.startswith("what"))
                d["what"] = l.split(" what ", 1)[1] if " what " in l else l
                out.append(d)
    return out


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "work"), exist_ok=True)
    for f in glob.glob(os.path.join(EVID, "work", prop + ".*")) + glob.glob(os.path.join(EVID, "replay", prop + "-*")):
        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    R = Run(prop, tier, seed)
    P = PLAN[prop]
    legs = [dict(l) for l in P[tier]]
    cfgs = sorted({l["cfg"] for l in legs})
    bt, ok = {}, {}

    def b(c):
        rc, t = build(c, os.path.join(EVID, "work", f"{prop}.build.{c}.log"))
        bt[c], ok[c] = t, rc == 0

    ths = [threading.Thread(target=b, args=(c,)) for c in cfgs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for c in cfgs:
        if not ok[c]:
            log = open(os.path.join(EVID, "work", f"{prop}.build.{c}.log"), errors="replace").read()
            if CONF[c][4] == "native":
                print(f"cannot build configuration {c}:\n" + log[-3000:], file=sys.stderr)
                sys.exit(2)
            R.problem(f"configuration {c} could not be built, its legs are skipped")
    tb = time.time() - t0
    ws = []
    for i, L in enumerate(legs):
        L.setdefault("name", L["cfg"])
        if not ok[L["cfg"]]:
            continue
        for j in range(L.get("n", 1)):
            ws.append(Worker(R, L, j, i * 1000 + j))
    [w.start() for w in ws]
    for c in PROBES.get(prop, []):
        if ok.get(c):
            lifetime_probes(R, c)
    [w.join() for w in ws]

    n = distinct(R.fps)
    cov = dict(
        evaluations=R.tot["cases"], distinct_nontrivial=n,
        rule=P["rule"] + " A case is counted as distinct by a hash over its sequence of operations, sizes, injected faults and outcomes, and as non-trivial when it ran at least three operations.",
        samples=R.samples, operations=R.tot["ops"], operations_by_kind={k: dict(zip(["done", "injected_panic", "panic", "failed_allocations", "callback_events"], v)) for k, v in sorted(R.stats.items())},
        allocations_seen=R.tot["allocs"], frees_seen=R.tot["frees"], allocation_failures_injected=R.tot["injected"], block_integrity_checks=R.tot["block_checks"],
        tracked_elements_created=R.tot["elements"], tracked_elements_dropped=R.tot["drops"], maxima=R.max, cases_by_engine=R.engines,
        legs=R.legs, lifetime_probes=R.probes, build_s={k: round(v, 1) for k, v in bt.items()}, notes=R.problems, set_aside=R.foreigns)
    viol = []
    kn = [k for k in known_lines() if k.get("property") == prop]
    seen = set()
    for d, p in R.viol:
        hit = None
        for k in kn:
            if k.get("match") and k["match"] in (d.get("message") or ""):
                hit = k
        if hit:
            seen.add(hit["what"])
        else:
            viol.append((d, p))
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get("level", "exploration"), coverage=cov, assumptions=P.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for f in glob.glob(os.path.join(EVID, "work", prop + ".*")):
        os.remove(f)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} {tier}: {R.tot['cases']} cases ({n} distinct), {R.tot['ops']} operations, {R.tot['injected']} injected failures, build {tb:.0f} s, total {time.time()-t0:.0f} s")
    for d, p in viol:
        print(f"  {d['config']}: {d['kind']}: {d['message']}")
        print(f"VIOLATION property={prop} replay={p}")
    if not viol and R.tot["cases"] == 0:
        print("nothing was explored", file=sys.stderr)
        sys.exit(2)
    sys.exit(1 if viol else 0)


def replay(path):
    d = json.load(open(path))
    cfg, prop = d["config"], d["property"]
    os.makedirs(os.path.join(EVID, "work"), exist_ok=True)
    log = os.path.join(EVID, "work", "replay.log")
    rc, _ = build(cfg, log)
    if rc:
        print(open(log).read()[-3000:])
        return 2
    if d["args"] is None:
        r = lifetime_probes(Run(prop, "quick", 1), cfg, d["case"])
        for name, verdict, detail, src in r["results"]:
            print(src.splitlines()[-1], verdict, detail, sep="\n")
        sys.exit(1 if any(x[1] == "allowed-unsound" for x in r["results"]) else 0)
    a = d["args"] + ["--start", str(d["case"] or 0), "--cases", "1", "--trace"]
    rc, out, err = run_once(cfg, prop, a, 600, "replay")
    print(err[-8000:])
    print(out[-4000:])
    print("status", rc)
    sys.exit(0 if rc == 0 else 1)


if __name__ == "__main__":
    main()
