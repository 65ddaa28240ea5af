#!/usr/bin/env python3
"""Runner of all checks: run.py <property> [--tier quick|thorough] [--seed N].

Builds the property's harnesses from /repo's current working tree in a scratch directory, runs them
(sharded over the cores), collects what the monitors observed, matches violations against the
committed known-findings file, writes /verif/evidence/<id>.json, and exits 0 (held) or 1
(VIOLATION).  Exit 2 means that no answer could be given (toolchain or sandbox trouble)."""
import argparse, concurrent.futures as cf, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "g++"
BASE = ["-std=c++20", "-g1", "-w", "-fno-diagnostics-color", "-I" + REPO + "/include", "-I" + REPO, "-I" + VERIF + "/standins",
        "-I" + VERIF + "/harness", '-DVH_REPO="' + REPO + '"']
VARIANTS = {
    # Asserts on, memory and undefined-behaviour monitors on.
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DVH_ASAN"],
    # Release build; uninitialised locals hold a pattern (heap: MALLOC_PERTURB_).
    "rel": ["-O2", "-DNDEBUG", "-ftrivial-auto-var-init=pattern", "-DVH_REL"],
    # Asserts on, data races are watched.
    "tsan": ["-O1", "-fsanitize=thread", "-DVH_TSAN"],
    # Asserts on, no sanitizer (many forks, exceptions through LAPACK, ...).
    "dbg": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DVH_DBG"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=165",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "exitcode=67:halt_on_error=1:report_signal_unsafe=0",
    "LC_ALL": "C", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
})


def die(msg):
    print("NO-ANSWER: " + msg, flush=True)
    sys.exit(2)


def known_findings():
    known, path = {}, os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def crash_class(rc, err):
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"ThreadSanitizer: ([\w -]+?) \(", err)
    if m:
        return "tsan-" + m.group(1).replace(" ", "-")
    if "runtime error:" in err:
        return "ubsan"
    if "VH-HANG" in err or rc == 98:
        return "hang"
    if "Assert failed" in err:
        return "assert"
    if "Assertion '" in err:
        return "glibcxx-assertion"
    if "STANDIN-" in err:
        return "library-precondition"
    return "signal%d" % -rc if rc < 0 else "exit%d" % rc


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = CHECKS[prop]
        self.work = tempfile.mkdtemp(prefix="vh_%s_" % prop, dir="/tmp")
        self.replays = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []  # (key, detail, replay)
        self.seen_keys = {}
        self.counts, self.samples, self.hashes = {}, [], set()
        self.cases = self.checks = 0
        self.infra = []

    # ---------------------------------------------------------------- build
    @staticmethod
    def base(unit):
        # "fast": assertions that hold do not format their message.
        return ["-I" + VERIF + "/standins/fast"] * bool(unit.get("fast")) + BASE

    def build(self, unit, variant):
        src = os.path.join(VERIF, "harness", unit["src"])
        exe = os.path.join(self.work, unit["name"] + "." + variant)
        cmd = [CXX] + self.base(unit) + VARIANTS[variant] + unit.get("flags", []) + [src, "-o", exe, "-llapack", "-lblas"]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV)
        return exe, cmd, p.returncode, p.stdout, time.time() - t

    def toolchain_ok(self):
        f = os.path.join(self.work, "tc.cxx")
        open(f, "w").write("#include <vector>\n#include <iostream>\nint main(){std::vector<int> v(3);std::cout<<v.size();}\n")
        p = subprocess.run([CXX, "-std=c++20"] + VARIANTS["asan"] + [f, "-o", f + ".exe", "-llapack", "-lblas"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode == 0

    def replay_file(self, key, lines):
        name = re.sub(r"[^\w.-]+", "_", "%s-%s" % (self.prop, key))[:120] + ".sh"
        path = os.path.join(self.replays, name)
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# Replays violation '%s' of %s.\n" % (key, self.prop))
            f.write("\n".join(lines) + "\n")
        os.chmod(path, 0o755)
        return path

    def violation(self, key, detail, lines):
        if key in self.seen_keys:
            return
        self.seen_keys[key] = detail
        self.violations.append((key, detail, self.replay_file(key, lines)))

    def replay_lines(self, unit, variant, args):
        exe = "$D/h"
        src = os.path.join(VERIF, "harness", unit["src"])
        comp = shlex.join([CXX] + self.base(unit) + VARIANTS[variant] + unit.get("flags", []) + [src]) + ' -o "%s" -llapack -lblas' % exe
        env = " ".join("%s='%s'" % (k, ENV[k]) for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"))
        if variant == "rel":
            env += " MALLOC_PERTURB_=165"
        return ["set -e", "D=$(mktemp -d); trap 'rm -rf \"$D\"' EXIT", comp, 'cd "$D"',
                "%s %s %s --scratch \"$D\"" % (env, exe, args)]

    # ---------------------------------------------------------------- run
    def run_shard(self, unit, variant, exe, cases, shard, shards):
        d = os.path.join(self.work, "%s.%s.%d" % (unit["name"], variant, shard))
        os.makedirs(d, exist_ok=True)
        prog, hashes = os.path.join(d, "progress"), os.path.join(d, "hashes")
        cmd = [exe, "--seed", str(self.seed), "--cases", str(cases), "--shard", str(shard), "--shards",
               str(shards), "--progress", prog, "--hashes", hashes, "--tier", self.tier, "--scratch", d]
        env = dict(ENV)
        if variant == "rel":
            env["MALLOC_PERTURB_"] = "165"
        limit = 700 if self.tier == "quick" else 7200
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               env=env, timeout=limit)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out = 98, (e.stdout or b"").decode(errors="replace")
            err = "VH-HANG shard exceeded %d s" % limit
        where = ("?", "-1")
        if os.path.exists(prog):
            parts = open(prog).read().split()
            if len(parts) >= 2:
                where = (parts[0], parts[1])
        hs = []
        if os.path.exists(hashes):
            hs = open(hashes).read().split()
        shutil.rmtree(d, ignore_errors=True)
        return unit, variant, rc, out, err, where, hs, cases

    def collect(self, res):
        unit, variant, rc, out, err, where, hs, cases = res
        base = "--seed %d --cases %d --tier %s" % (self.seed, cases, self.tier)
        done = False
        for line in out.split("\n"):
            p = line.split("\t")
            if p[0] == "FAIL" and len(p) >= 5:
                detail = "%s [%s/%s case %s#%s]" % (p[4], unit["name"], variant, p[2], p[3])
                self.violation(p[1], detail,
                               self.replay_lines(unit, variant, base + " --scenario %s --case %s" % (p[2], p[3])))
            elif p[0] == "COUNT":
                self.counts[p[1]] = self.counts.get(p[1], 0) + int(p[2])
            elif p[0] == "SAMPLE":
                if len(self.samples) < 40:
                    self.samples.append(p[1])
            elif p[0] == "DONE":
                done = True
                self.cases += int(p[1])
                self.checks += int(p[2])
        self.hashes.update(hs)
        if done and rc == 0:
            return
        if rc == 99 or "VH-INFRA" in err:
            self.infra.append(err[-400:])
            return
        if rc == -9:
            self.infra.append("%s/%s was killed (SIGKILL)" % (unit["name"], variant))
            return
        cls = crash_class(rc, err)
        key = "crash:%s:%s" % (where[0], cls)
        tail = " ".join(err.strip().split())[:1500]
        self.violation(key, "%s in %s/%s case %s#%s: %s" % (cls, unit["name"], variant, where[0], where[1], tail),
                       self.replay_lines(unit, variant, base + " --scenario %s --case %s" % where))

    def run_cxx(self):
        units = [u for u in self.cfg["units"] if "src" in u]
        if not units:
            return
        ncpu = max(1, min(8, os.cpu_count() or 1))
        jobs = []
        for u in units:
            u.setdefault("name", os.path.splitext(u["src"])[0])
            for v in u.get("variants", ["asan", "rel"]):
                jobs.append((u, v))
        jobs.sort(key=lambda j: -j[0].get("cost", 1))
        with cf.ThreadPoolExecutor(ncpu) as pool:
            runs, futs = [], {pool.submit(self.build, u, v): (u, v) for u, v in jobs}
            for f in cf.as_completed(futs):
                u, v = futs[f]
                exe, cmd, rc, log, dt = f.result()
                if os.environ.get("VH_TIMES"):
                    print("# built %s.%s in %.1f s" % (u["name"], v, dt), flush=True)
                if rc != 0:
                    if not self.toolchain_ok() or "Killed" in log or "No space left" in log or "internal compiler error" in log:
                        die("cannot build %s: %s" % (u["name"], log[-800:]))
                    errs = [l for l in log.split("\n") if "error" in l][:3]
                    self.violation("does-not-compile:" + u["name"],
                                   "code that uses the public interface does not compile: " + " | ".join(errs)[:1200],
                                   [shlex.join(cmd)])
                    continue
                cases = u["cases"][0 if self.tier == "quick" else 1]
                if isinstance(cases, dict):
                    cases = cases[v]
                shards = u.get("shards", 4)
                if self.tier == "thorough":
                    shards = max(shards, 8)
                for s in range(shards):
                    runs.append(pool.submit(self.run_shard, u, v, exe, cases, s, shards))
            t = time.time()
            for f in cf.as_completed(runs):
                self.collect(f.result())
            if os.environ.get("VH_TIMES"):
                print("# runs finished %.1f s after last build" % (time.time() - t), flush=True)

    def run_scripts(self):
        for u in self.cfg["units"]:
            if "script" not in u:
                continue
            cmd = [u.get("python", sys.executable), os.path.join(VERIF, "harness", u["script"]), "--seed", str(self.seed), "--tier", self.tier,
                   "--repo", REPO, "--scratch", self.work] + u.get("args", [])
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV,
                                   timeout=780 if self.tier == "quick" else 7200)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                die("script %s timed out" % u["script"])
            rep = ["D=$(mktemp -d); trap 'rm -rf \"$D\"' EXIT",
                   " ".join(cmd).replace(self.work, '"$D"')]
            done = False
            for line in out.split("\n"):
                q = line.split("\t")
                if q[0] == "FAIL" and len(q) >= 5:
                    self.violation(q[1], "%s [%s case %s#%s]" % (q[4], u["script"], q[2], q[3]), rep)
                elif q[0] == "COUNT":
                    self.counts[q[1]] = self.counts.get(q[1], 0) + int(q[2])
                elif q[0] == "SAMPLE":
                    self.samples.append(q[1])
                elif q[0] == "STATE":
                    self.hashes.add(q[1])
                elif q[0] == "DONE":
                    done = True
                    self.cases += int(q[1])
                    self.checks += int(q[2])
            if not done or rc != 0:
                self.infra.append("script %s: rc %d: %s" % (u["script"], rc, err[-1500:]))

    def main(self):
        t0 = time.time()
        try:
            self.run_cxx()
            self.run_scripts()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        known = known_findings()
        new, old = [], []
        for key, detail, replay in sorted(self.violations):
            (old if (self.prop, key) in known else new).append((key, detail, replay))
        for key, detail, replay in old:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, known[(self.prop, key)], key))
        # A configuration may require that certain events were observed at all.
        if not new and not self.infra:
            for ev in self.cfg.get("require", []):
                if self.counts.get(ev, 0) == 0:
                    # The workload always leads there; the code under test does not any more.
                    key = "never-observed:" + ev
                    new.append((key, "the workload ran without a single event '%s'" % ev,
                                self.replay_file(key, ["cd %s && python3 run.py %s --tier %s --seed %d" % (VERIF, self.prop, self.tier, self.seed)])))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.cases, "distinct_nontrivial": len(self.hashes), "rule": self.cfg["rule"],
                "samples": self.samples[:12], "oracle_verdicts": self.checks, "events_observed": self.counts,
                "known_findings_seen": [k for k, _, _ in old],
            },
            "assumptions": self.cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, detail, replay in new:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            print("  key=%s" % key)
            print("  %s" % detail)
        if new:
            return 1
        if self.infra:
            die("; ".join(self.infra)[:3000])
        print("OK property=%s cases=%d verdicts=%d distinct=%d wall=%.1fs" %
              (self.prop, self.cases, self.checks, len(self.hashes), time.time() - t0))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check the toolchain; harnesses are built by the checks")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    if a.setup or not a.prop:
        ok = shutil.which(CXX) is not None
        print("setup: %s" % ("ok" if ok else "compiler missing"))
        sys.exit(0 if ok else 2)
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(a.prop, tier, seed).main())


if __name__ == "__main__":
    main()
