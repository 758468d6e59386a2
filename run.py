#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay FILE]

Builds the harness(es) of one property against /repo's working tree, lets them enumerate their
bounded spaces on all cores, replays every reported failure alone, and writes evidence/<id>.json.
Exit 0: held on everything explored (known findings are printed).  Exit 1: VIOLATION line(s).
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import build, checks  # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))


def known(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+)\s*(.*)", ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def run_proc(cmd, env, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode(errors="replace"), "driver timeout"


def asan_sig(err):
    """Signature of a sanitizer report: its kind and the function of the code under test."""
    m = re.search(r"(?:AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)", err)
    kind = m.group(1) if m else "report"
    m2 = re.search(r"runtime error: (.{0,60})", err)
    if m2 and not m:
        kind = "ub"
    for fn, path in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
        if "/decoder/" in path:
            return "asan:%s:%s" % (kind, fn)
    return "asan:%s:unknown" % kind


class Part:
    def __init__(self, prop, spec, tier, scratch):
        self.prop, self.spec, self.tier, self.scratch = prop, spec, tier, scratch
        self.stats, self.samples, self.fails, self.errors = {}, [], [], []
        self.total = None
        self.lock = threading.Lock()

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=98:abort_on_error=0:allocator_may_return_null=1:"
                             "detect_stack_use_after_return=0:symbolize=1:max_malloc_fill_size=0:"
                             + self.spec.get("asan_options", ""))
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
        return e

    def base(self):
        c = [self.bin, "--scratch", self.scratch]
        if self.tier == "thorough":
            c.append("--thorough")
        c += ["--limit", str(self.spec.get("limit", 60))]
        return c + list(self.spec.get("args", []))

    def shard(self, i, n):
        start = 0
        respawn = hangs = 0
        while True:
            cmd = self.base() + ["--shard", "%d/%d" % (i, n), "--start", str(start)]
            rc, out, err = run_proc(cmd, self.env(), self.spec.get("timeout", 3 * 3600 if self.tier == "thorough" else 840))
            done = False
            last = None
            with self.lock:
                for ln in out.splitlines():
                    f = ln.split("\t")
                    if f[0] == "STAT" and len(f) >= 3:
                        self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
                    elif f[0] == "SAMPLE":
                        self.samples.append(f[1])
                    elif f[0] == "DONE":
                        done = True
                        self.total = int(f[1])
                    elif f[0] in ("FAIL", "CRASH", "HANG") and len(f) >= 5:
                        idx = int(f[1])
                        sig = f[2]
                        if f[0] == "CRASH" and sig == "asan":
                            sig = asan_sig(err)
                        self.fails.append((f[0], idx, sig, f[3], f[4] + (" | " + err[:1500].replace("\n", " ; ") if f[0] == "CRASH" else "")))
                        if f[0] != "FAIL":
                            last = idx
                            hangs += f[0] == "HANG"
                    elif f[0] == "CAP":
                        done = True
            if done:
                return
            if hangs >= 2:
                return  # enough to report; the rest would take a time limit each
            if last is not None and respawn < self.spec.get("respawn", 200):
                respawn += 1
                start = last + 1
                continue
            with self.lock:
                self.errors.append("shard %d/%d ended rc=%s: %s" % (i, n, rc, err[-800:]))
            return

    def run(self):
        self.bin = build.harness(self.spec["harness"], self.spec.get("flavour", "plain"),
                                 self.spec.get("defs", ()), self.spec.get("extra_src", ()))
        n = self.spec.get("shards", NPROC)
        ts = [threading.Thread(target=self.shard, args=(i, n)) for i in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]

    def confirm(self, f):
        """Replays one failing case alone, with a longer limit; True if the same failure recurs."""
        kind, idx, sig = f[0], f[1], f[2]
        if idx < 0:
            return True
        cmd = self.base() + ["--only", str(idx), "--limit", str((2 if kind == "HANG" else 1) * self.spec.get("limit", 60))]
        rc, out, err = run_proc(cmd, self.env(), 900)
        for ln in out.splitlines():
            g = ln.split("\t")
            if g[0] in ("FAIL", "CRASH", "HANG") and len(g) >= 5:
                s = asan_sig(err) if (g[0] == "CRASH" and g[2] == "asan") else g[2]
                if s == sig:
                    return True
        return False


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = checks.CHECKS[prop]
    t0 = time.time()
    kn = known(prop)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    parts = []
    try:
        for ps in spec["parts"]:
            if tier == "quick" and ps.get("thorough_only"):
                continue
            p = Part(prop, ps, tier, scratch)
            parts.append(p)
            try:
                p.run()
            except build.BuildError as e:
                # a part that calls internal functions by name gives way when they are renamed,
                # as long as the part that goes through the public interface still builds
                if not ps.get("whitebox"):
                    raise
                print("SKIPPED %s: %s" % (ps["harness"], str(e)[-300:].replace("\n", " ")))
                p.stats["not_built"] = 1
    except build.BuildError as e:
        print("BUILD-ERROR " + str(e)[:4000])
        shutil.rmtree(scratch, ignore_errors=True)
        return 2
    ev, nt, tr, extra, samples = 0, 0, 0, {}, []
    viol, seen_known, errors = [], {}, []
    for p in parts:
        ev += p.stats.pop("evaluations", 0)
        nt += p.stats.pop("nontrivial", 0)
        tr += p.stats.pop("transitions", 0)
        for k, v in p.stats.items():
            extra[p.spec["harness"] + "." + k] = extra.get(p.spec["harness"] + "." + k, 0) + v
        samples += p.samples[:3]
        errors += p.errors
        bysig = {}
        for f in sorted(p.fails, key=lambda f: f[1]):
            bysig.setdefault(f[2], []).append(f)
        for sig, fs in bysig.items():
            if sig in kn:
                seen_known[sig] = fs[0]
                continue
            ok = False
            for f in fs[:3]:
                if p.confirm(f):
                    ok = True
                    break
            if ok:
                viol.append((p, f, len(fs)))
            else:
                print("NOT-REPRODUCED %s %s" % (sig, fs[0][3]))
                if fs[0][0] != "HANG":
                    viol.append((p, fs[0], len(fs)))
    shutil.rmtree(scratch, ignore_errors=True)
    cov = {"evaluations": ev, "distinct_nontrivial": nt, "rule": spec["rule"],
           "samples": samples[:8] or ["none"], "exhaustive": True, "transitions": tr, "states": ev}
    if spec["level"] == "model_checking":
        cov["traces_validated_against_impl"] = spec.get("traces", lambda e, x: e)(ev, extra)
    cov.update(extra)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
               "level": spec["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2),
               "violations": len(viol), "assumptions": spec.get("assumptions", []),
               "known_findings_seen": sorted(seen_known)},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for sig, f in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, sig, kn[sig]))
    print("%s %s: %d cases, %d non-trivial, %d transitions, %.1f s; %s" %
          (prop, tier, ev, nt, tr, time.time() - t0, extra))
    if viol:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for k, (p, f, n) in enumerate(viol[:20]):
            rp = os.path.join(rd, "%s-%d.txt" % (prop, k))
            with open(rp, "w") as o:
                o.write("property: %s\nsignature: %s (%d cases)\ncase %d: %s\ndetail: %s\n"
                        "replay: python3 -c \"import sys;sys.path.insert(0,'/verif');from vf import build;"
                        "print(build.harness('%s','%s',%r,%r))\"  then run it with: %s --only %d\n"
                        % (prop, f[2], n, f[1], f[3], f[4], p.spec["harness"], p.spec.get("flavour", "plain"),
                           tuple(p.spec.get("defs", ())), tuple(p.spec.get("extra_src", ())),
                           " ".join(p.base()[1:]), f[1]))
            print("  [%s] case %d: %s -- %s" % (f[2], f[1], f[3], f[4][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        print("CHECK-ERROR " + " / ".join(errors)[:3000])
        return 2
    if ev == 0:
        print("CHECK-ERROR nothing explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
