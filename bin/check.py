#!/usr/bin/env python3
"""check.py <property> : builds the monitors of a property from /repo's working tree, runs them,
judges what they observed, writes the evidence file.

  exit 0  the property held on everything observed
  exit 1  VIOLATION property=<id> replay=<path>
  other   the check itself failed

check.py --replay <file> runs the case of a replay file again.
"""
import ctypes
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import threading
import queue

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfbuild
from props import PROPS

VERIF = vfbuild.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=0:handle_abort=0:symbolize=1:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4:"
                    "suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
}


LIBC = ctypes.CDLL(None)


def die_with_parent():
    LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def crash_key(stderr, rc):
    """A stable name for an abnormal termination, and the relevant part of the report."""
    m = re.search(r"Assertion `(.*?)' failed", stderr)
    if m:
        return "assert:" + re.sub(r"\s+", "", m.group(1))[:100], m.group(0)
    m = re.search(r"(\S+\.(?:hpp|cpp|h)):\d+:\d+: runtime error: ([^\n]*)", stderr)
    if m:
        what = re.sub(r"-?\d+", "N", m.group(2))
        what = re.sub(r"0x[0-9a-f]+", "P", what)
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", "-", what)[:80]), m.group(0)
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)([^\n]*)", stderr)
    if m:
        fn = re.search(r" in (?:[\w:<>~ ]*?)(\w+)[(<]?[^ ]*$", m.group(3))
        return "%s:%s:%s" % (m.group(1), m.group(2), fn.group(1) if fn else "?"), m.group(0)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", stderr)
    if m:
        return "ThreadSanitizer:" + m.group(1).strip().replace(" ", "-"), m.group(0)
    m = re.search(r"terminate called[^\n]*", stderr)
    if m:
        return "terminate", m.group(0)
    return "crash:rc%d" % rc, "abnormal termination, exit status %d" % rc


def harness_failure(stderr, rc):
    if rc in (-signal.SIGKILL,):
        return "killed (out of memory?)"
    if "VF-HARNESS-FAIL" in stderr:
        return "harness failure"
    if "AddressSanitizer: Out of memory" in stderr or "failed to allocate" in stderr and "AddressSanitizer" in stderr:
        return "out of memory"
    if "unexpected memory mapping" in stderr:
        return "sanitizer cannot run"
    return None


class Runner:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.n = 0
        self.lock = threading.Lock()

    def run(self, path, spec, extra, timeout):
        with self.lock:
            self.n += 1
            base = os.path.join(self.work, "r%d" % self.n)
        args = [path, "--seed", str(self.seed), "--out", base + ".json", "--progress", base + ".prog"] + extra
        if self.tier == "thorough":
            args.append("--thorough")
        elif "scale" in spec and "--only" not in extra:
            args += ["--scale", "%d" % (spec["scale"] * 10), "10"]
        if spec["flavor"].startswith("tsan") and shutil.which("setarch"):
            args = ["setarch", "-R"] + args
        env = dict(os.environ)
        env.update(ENV)
        env["VF_HC"] = str(spec.get("hc", 4))
        env["VF_TMP"] = self.work
        env.update(spec.get("env", {}))
        err = open(base + ".err", "wb")
        t = time.time()
        p = subprocess.Popen(args, stdout=err, stderr=err, env=env, cwd=self.work, start_new_session=True,
                             preexec_fn=die_with_parent)
        to = False
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        err.close()
        stderr = open(base + ".err", "rb").read()[-200000:].decode("utf-8", "replace")
        res = None
        if os.path.exists(base + ".json"):
            try:
                res = json.load(open(base + ".json"))
            except ValueError:
                pass
        prog = None
        if os.path.exists(base + ".prog"):
            s = open(base + ".prog", "rb").read().split(b"\0")[0].decode().split()
            if len(s) == 2:
                prog = (s[0], int(s[1]))
        return {"rc": rc, "timeout": to, "stderr": stderr, "res": res, "prog": prog, "wall": time.time() - t}


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & 0xffffffff
    except ValueError:
        seed = 1
    t0 = time.time()
    info = PROPS[prop]
    specs = [s for s in info["runs"] if tier == "thorough" or not s.get("thorough_only")]
    b = vfbuild.Builder()
    bins = b.build([(s["bin"], s["flavor"], s["srcs"], s.get("parts", [])) for s in specs])
    t_build = time.time() - t0
    print("built in %.1fs" % t_build, file=sys.stderr)
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return judge(prop, tier, seed, info, specs, bins, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def judge(prop, tier, seed, info, specs, bins, work, t0, t_build):
    runner = Runner(prop, tier, seed, work)
    jobs = queue.Queue()
    for spec in specs:
        n = spec.get("shards", 4)
        for i in range(n):
            jobs.put((spec, i, n))
    quick = tier == "quick"
    agg = {"cases": 0, "evals": 0, "counters": {}, "samples": [], "distinct": set()}
    viols = {}   # key -> (msg, spec, workload, idx)
    inconclusive = []
    errors = []
    lock = threading.Lock()

    def add_viol(key, msg, spec, wl, idx):
        with lock:
            if key not in viols:
                viols[key] = (msg, spec, wl, idx)

    def absorb(res, spec):
        if not res:
            return
        with lock:
            agg["cases"] += res["cases"]
            agg["evals"] += res["evals"]
            for k, v in res["counters"].items():
                agg["counters"][k] = agg["counters"].get(k, 0) + v
            for s in res["samples"]:
                if len(agg["samples"]) < 40 and s.split("#")[0] not in {x.split("#")[0] for x in agg["samples"]}:
                    agg["samples"].append(s)
            agg["distinct"].update(res["distinct"])
        for v in res["violations"]:
            add_viol(v["key"], v["msg"], spec, v["workload"], v["idx"])

    def one(spec, i, n):
        path = bins[(spec["bin"], spec["flavor"])]
        tmo = spec.get("timeout", 240 if quick else 3600)
        after = []
        for attempt in range(6):
            r = runner.run(path, spec, ["--shard", str(i), "--nshards", str(n)] + after, tmo)
            if r["timeout"]:
                # Run the case at hand alone, once more: only a case which is stuck again is a hang.
                if not r["prog"]:
                    errors.append("%s: no progress" % spec["bin"])
                    return
                wl, idx = r["prog"]
                r2 = runner.run(path, spec, ["--only", wl, "--idx", str(idx)], spec.get("hang_timeout", 150))
                if r2["timeout"]:
                    add_viol(wl + "/hang", "the case does not terminate (run twice)", spec, wl, idx)
                else:
                    # A slow machine: inconclusive for the rest of the shard.
                    with lock:
                        inconclusive.append("%s#%d shard %d/%d timed out" % (wl, idx, i, n))
                    absorb(r2["res"], spec)
                return
            if r["res"] is not None and r["rc"] in (0, 1):
                absorb(r["res"], spec)
                return
            # Abnormal termination.
            hf = harness_failure(r["stderr"], r["rc"])
            if hf:
                if attempt == 0:
                    time.sleep(2)
                    continue
                errors.append("%s: %s\n%s" % (spec["bin"], hf, r["stderr"][-1500:]))
                return
            wl, idx = r["prog"] or ("start", 0)
            k, msg = crash_key(r["stderr"], r["rc"])
            for line in re.findall(r"VF-VIOLATION (\S.*?) idx=(\d+): (.*)", r["stderr"]):
                add_viol(line[0], line[2], spec, line[0].split("/")[0], int(line[1]))
            add_viol("%s/%s" % (wl, k), msg + "\n" + r["stderr"][-6000:], spec, wl, idx)
            if not r["prog"] or attempt >= 3:
                return
            after = ["--after", wl, str(idx)]

    def worker():
        while True:
            try:
                j = jobs.get_nowait()
            except queue.Empty:
                return
            try:
                one(*j)
            except Exception as e:  # noqa
                errors.append("runner: %r" % (e,))

    par = info.get("parallel", max(2, os.cpu_count() or 8))
    ts = [threading.Thread(target=worker) for _ in range(par)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    # Demanded observations: a run that never reached what the property is about says nothing.
    if not viols:
        for name, least in info.get("require", {}).items():
            if agg["counters"].get(name, 0) < least and not inconclusive:
                errors.append("the workload never reached '%s' (%d < %d)"
                              % (name, agg["counters"].get(name, 0), least))
        if agg["cases"] == 0:
            errors.append("nothing was observed")

    known = [k for k in known_findings() if k[0] == prop]
    fresh, listed = {}, {}
    for key, v in sorted(viols.items()):
        m = [k for k in known if k[1] == key]
        if m:
            listed[key] = m[0]
        else:
            fresh[key] = v

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {
            "evaluations": agg["evals"], "distinct_nontrivial": len(agg["distinct"]), "rule": info["rule"],
            "samples": agg["samples"] or ["none"], "cases": agg["cases"], "observed_events": agg["counters"],
            "builds": sorted({s["flavor"] for s in specs}), "inconclusive": inconclusive,
        },
        "assumptions": info.get("assumptions", []) + [
            "mp++ is replaced by the GMP-backed stand-in in /verif/standin",
            "held on the executions produced by this run, nothing more"],
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    ev["coverage"]["build_s"] = round(t_build, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for key, k in listed.items():
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, k[2]))
    if fresh:
        rd = os.path.join(VERIF, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        for key, (msg, spec, wl, idx) in sorted(fresh.items())[:20]:
            rp = os.path.join(rd, "%s-%s.json" % (prop, re.sub(r"[^\w.-]+", "_", key)[:100]))
            with open(rp, "w") as f:
                json.dump({"property": prop, "key": key, "seed": seed, "tier": tier, "workload": wl, "idx": idx,
                           "bin": spec["bin"], "flavor": spec["flavor"], "srcs": spec["srcs"], "parts": spec.get("parts", []),
                           "env": spec.get("env", {}), "hc": spec.get("hc", 4), "message": msg}, f, indent=1)
            print("  %s (case %s#%d): %s" % (key, wl, idx, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR: " + e)
        return 3
    for s in inconclusive:
        print("inconclusive: " + s)
    print("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d build=%.0fs wall=%.0fs"
          % (prop, tier, seed, agg["cases"], agg["evals"], len(agg["distinct"]), t_build, time.time() - t0))
    return 0


def replay(path):
    r = json.load(open(path))
    b = vfbuild.Builder()
    bins = b.build([(r["bin"], r["flavor"], r["srcs"], r.get("parts", []))])
    work = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        runner = Runner(r["property"], r["tier"], r["seed"], work)
        x = runner.run(bins[(r["bin"], r["flavor"])], r, ["--only", r["workload"], "--idx", str(r["idx"])], 600)
        sys.stdout.write(x["stderr"][-20000:])
        bad = x["timeout"] or x["rc"] != 0
        print("replayed %s#%d: %s" % (r["workload"], r["idx"], "VIOLATED" if bad else "held"))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vfbuild.BuildError as e:
        print("ERROR: " + str(e))
        sys.exit(4)
