#!/usr/bin/env python3
"""Monitor of the Python classes that HyperHDG.include returns.

Real modules are compiled with Cython from a private copy of the tree, with a local solver (pyprobe.hxx) whose results depend on everything it is given.  Histories of operations on
several objects are carried out through Python and by a C++ program (pyref.cxx) that uses the same classes directly; results and plot files have to agree."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, shutil, subprocess, sys, sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
LOOPS = ["Elliptic", "Parabolic", "MassApproxEigenvalue", "ShiftedInverseEigenvalue", "NonlinearEigenvalue"]
# Loop, kind of hypergraph, dimensions, constructor value of the local solver, unknowns per node.
MODULES = [("Elliptic", "Cubic", 2, 2, "double", 2), ("Elliptic", "File", 1, 2, "double", 1),
           ("Parabolic", "Cubic", 1, 1, "vector", 2), ("Parabolic", "File", 1, 2, "vector", 1),
           ("MassApproxEigenvalue", "Cubic", 1, 2, "double", 1), ("MassApproxEigenvalue", "File", 1, 2, "double", 2),
           ("ShiftedInverseEigenvalue", "Cubic", 2, 2, "double", 1), ("ShiftedInverseEigenvalue", "File", 1, 2, "double", 2),
           ("NonlinearEigenvalue", "Cubic", 2, 2, "double", 2), ("NonlinearEigenvalue", "File", 1, 2, "vector", 1)]

SESSION = r'''
import contextlib, gc, io, json, os, sys
job = json.load(sys.stdin)
sys.path.insert(0, job["tools"])
sys.path.insert(0, job["tree"] + "/import")
real = sys.stdout
sys.stdout = io.StringIO()
import HyperHDG
c = HyperHDG.config()
for k, v in job["config"].items():
    setattr(c, k, v)
cls = HyperHDG.include(c)
def put(v):
    return str(len(v)) + "".join(" " + float(x).hex() for x in v)
for number, lines in enumerate(job["histories"]):
    os.makedirs(job["where"] + "/h%d" % number, exist_ok=True)
    os.chdir(job["where"] + "/h%d" % number)
    objects = {}
    # An operation that kills the interpreter is the last line of the log.
    log = open(job["where"] + "/log%d" % number, "w")
    def vec(p, seed):
        n = p.size_of_system() + job["extra"]
        v = [(((int(seed) * 1103515245 + i * 7919 + i * i * 31) % 2001) - 1000) / 64. for i in range(n)]
        if int(seed) % 3 == 0:  # Integers and tuples are welcome.
            v = [int(x) if x == int(x) else x for x in v]
        return tuple(v) if int(seed) % 4 == 0 else v
    for line in lines:
        print(line, file=log, flush=True)
        w = line.split()
        op, k, rest = w[0], int(w[1]), w[2:]
        def time(x, *a):
            t = int(x) / 8.
            if job["loop"] == "Elliptic":
                return a
            return a if t == 0 and len(line) % 2 else a + (t,)
        def out(f, *a):
            before = [list(x) if isinstance(x, (list, tuple)) else x for x in a]
            r = f(*a)
            for x, y in zip(a, before):
                if isinstance(x, list) and x != y:
                    raise AssertionError("an argument was modified")
            if isinstance(r, list):
                copy = list(r)
                r2 = copy
                for i in range(len(r)):
                    r[i] = 17.  # Belongs to the caller.
                return put(r2)
            return r
        try:
            if op == "new":
                form, rest = int(rest[0]), rest[1:]
                def topo():
                    global rest
                    if job["kind"] == "File":
                        t, rest = rest[0], rest[1:]
                        return t
                    n = int(rest[0])
                    t, rest = [int(x) for x in rest[1:n + 1]], rest[n + 1:]
                    return t
                def lsol():
                    n = int(rest[0])
                    t = [int(x) / 8. for x in rest[1:n + 1]]
                    return t[0] if job["lsol"] == "double" else t
                t = topo()
                if form == 1:
                    objects[k] = cls(t)
                elif form == 2:
                    objects[k] = cls(t, lsol_constr=lsol())
                elif form == 3:
                    g = topo()
                    objects[k] = cls(t, g, lsol())
                r = "ok"
            elif op == "incomplete":  # A geometry without parameters of the local solver.
                t = rest[0] if job["kind"] == "File" else [2] * job["space"]
                try:
                    q = cls(t, t)
                    r = "usable %d" % (q.size_of_system() > 0)
                except Exception as e:
                    r = "refused"
            elif op == "wrong":
                p, r = objects[k], "accepted"
                try:
                    {0: lambda: p.trace_to_flux("abc"), 1: lambda: p.trace_to_flux(None), 2: lambda: p.trace_to_flux(["x"]), 3: lambda: p.refine(-1), 4: lambda: p.refine("two"),
                     5: lambda: p.plot_option(3, 4), 6: lambda: p.trace_to_flux(), 7: lambda: cls(), 8: lambda: cls(5), 9: lambda: p.plot_solution(5)}[int(rest[0])]()
                except (TypeError, OverflowError, ValueError) as e:
                    r = "refused"
            elif op == "size":
                r = str(objects[k].size_of_system())
            elif op == "refinement":
                r = str(objects[k].refine())
            elif op == "refine":
                r = str(objects[k].refine(int(rest[0])))
            elif op == "option":
                r = objects[k].plot_option(rest[0], "" if rest[1] == "-" else rest[1])
                if not isinstance(r, str):
                    raise AssertionError("no string")
            elif op == "plot":
                p = objects[k]
                if p.plot_solution(*time(rest[1], vec(p, rest[0]))) is not None:
                    raise AssertionError("result of plot_solution")
                r = "ok"
            elif op == "delete":
                del objects[k]
                p = None
                gc.collect()
                r = "ok"
            else:
                p = objects[k]
                if op == "dirichlet":
                    p.read_dirichlet_indices([int(x) % p.size_of_system() for x in rest[1:]])
                    r = "ok"
                elif op == "matrix":
                    a, b, c = p.sparse_stiff_mat()
                    r = put(a) + "\n" + put(b) + "\n" + put(c)
                elif op == "zero":
                    r = out(p.zero_vector)
                elif op == "indices":
                    r = out(p.dirichlet_indices)
                elif op == "data":
                    p.set_data(*time(rest[1], vec(p, rest[0])))
                    r = "ok"
                elif op == "jacobian":
                    r = out(p.jacobian_of_trace_to_flux, vec(p, rest[0]), int(rest[1]) / 8., vec(p, rest[2]), int(rest[3]) / 8.)
                else:
                    f = {"flux": "trace_to_flux", "residual": "residual_flux", "errors": "errors", "initial": "make_initial", "mass": "trace_to_mass_flux"}[op]
                    r = out(getattr(p, f), *time(rest[1], vec(p, rest[0])))
        except BaseException as e:
            r = "exception " + type(e).__name__ + " " + str(e)[:100]
        print("= " + r, file=log, flush=True)
    p = q = None
    objects.clear()
    log.close()
open(job["where"] + "/finished", "w").close()
'''


class Module:
    def __init__(self, a, number):
        self.a, self.n = a, number
        self.loop, self.kind, self.d, self.s, self.lsol, self.nd = MODULES[number]
        self.rng = random.Random("%d/%d" % (a.seed, number))
        self.dir = os.path.join(a.scratch, "wrap%d" % number)
        self.tree, self.tools = self.dir + "/tree", self.dir + "/tools"
        self.fails, self.counts, self.checks, self.states, self.cases = [], {}, 0, set(), 0
        self.asan = self.kind == "File" and a.asan

    def event(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def check(self, ok, key, case, detail=""):
        self.checks += 1
        if not ok:
            self.fails.append((key, case, detail))

    def setup(self):
        a = self.a
        os.makedirs(self.tools)
        for d in ("import", "cython", "include"):
            shutil.copytree(os.path.join(a.repo, d), os.path.join(self.tree, d), ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(HERE + "/pyprobe.hxx", self.tree + "/include/HyperHDG/local_solver/probe.hxx")
        os.makedirs(self.tree + "/build")
        open(self.tools + "/fiber_network.py", "w").close()
        pyinc = sysconfig.get_paths()["include"]
        self.inc = ["-I" + self.tree, "-I" + self.tree + "/include", "-I" + os.path.dirname(HERE) + "/standins"]
        flags = "-w -O1 -shared -pthread -fPIC -fwrapv -fno-strict-aliasing" + (" -fsanitize=address -fno-omit-frame-pointer" if self.asan else "")
        with open(self.tree + "/build/cmake_cython.cfg", "w") as f:
            f.write("""[compiler]
command  = g++
includes = -I%s %s
flags    = %s
standard = 20
[linker]
command = g++
flags   = %s -shared
libs    = -llapack -lblas
[cython]
command = cython3
flags   = -3 --cplus
[python]
ver_maj = %d
ver_min = %d
dir     = %s
""" % (pyinc, " ".join(self.inc), flags, "-fsanitize=address" if self.asan else "", sys.version_info.major, sys.version_info.minor, pyinc))
        t = "<%d,%d>" % (self.d, self.s)
        vec = "std::vector<double>"
        solver = "Probe<%d,%d%s>" % (self.d, self.nd, "" if self.lsol == "double" else "," + vec)
        geom = "UnitCube" if self.kind == "Cubic" else "File"
        first = "vector[unsigned int]" if self.kind == "Cubic" else "string"
        self.config = {"global_loop": self.loop, "local_solver": solver, "topology": self.kind + t, "geometry": geom + t, "node_descriptor": self.kind + t,
                       "cython_replacements": [first, first] + ([] if self.lsol == "double" else ["", "vector[double]"]), "include_files": [], "debug_mode": False}
        self.cpp = "GlobalLoop::%s<Topology::%s,Geometry::%s,NodeDescriptor::%s,LocalSolver::%s>" % (self.loop, self.kind + t, geom + t, self.kind + t, solver)

    def domain(self, name):
        """A random graph in the plane."""
        rng, n = self.rng, self.rng.randint(2, 6)
        pts = [(rng.randint(-40, 40) / 8. + 20 * i, rng.randint(-40, 40) / 8.) for i in range(n)]
        edges = [(i, rng.randrange(i)) for i in range(1, n)]
        deg = [sum(i in e for e in edges) for i in range(n)]
        types = [[rng.choice([1, 2]) if deg[i] == 1 and rng.random() < 0.6 else 0 for i in e] for e in edges]
        with open(name, "w") as f:
            f.write("# Graph\nSpace_Dim     = 2;\nHyperEdge_Dim = 1;\n\nN_Points      = %d;\nN_HyperNodes  = %d;\nN_HyperEdges  = %d;\n\n" % (n, n, len(edges)))
            f.write("POINTS:\n" + "".join("%r %r;\n" % p for p in pts))
            f.write("\nHYPERNODES_OF_HYPEREDGES:\n" + "".join("%d %d;\n" % e for e in edges))
            f.write("\nTYPES_OF_HYPERFACES:\n" + "".join("%d %d;\n" % tuple(t) for t in types))
            f.write("\nPOINTS_OF_HYPEREDGES:\n" + "".join("%d %d;\n" % e for e in edges))
        return name

    def topo(self):
        if self.kind == "File":
            return self.rng.choice(self.domains)
        return "%d " % self.s + " ".join(str(self.rng.randint(1, 3)) for _ in range(self.s))

    def history(self, number):
        rng, ops, alive, used = self.rng, [], [], 0
        lsol = lambda: "1 %d" % rng.choice([0, 8, 13, -5]) if self.lsol == "double" else "3 %d %d %d" % (rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(0, 9))
        time = lambda: 0 if self.loop == "Elliptic" or rng.random() < 0.3 else rng.randint(-20, 20)
        s = lambda: rng.randint(1, 10**6)
        kinds = {"Elliptic": ["flux", "residual", "errors", "zero", "dirichlet", "matrix", "flux", "residual"],
                 "Parabolic": ["flux", "residual", "errors", "zero", "data", "data", "initial", "residual"],
                 "MassApproxEigenvalue": ["flux", "mass", "indices", "mass"], "ShiftedInverseEigenvalue": ["flux", "indices"],
                 "NonlinearEigenvalue": ["flux", "jacobian", "jacobian", "initial"]}[self.loop]
        for step in range(self.a.steps):
            if not alive or (len(alive) < 3 and rng.random() < 0.1):
                t = self.topo()
                form = rng.choice([1, 2, 3])
                ops.append("new %d %d %s" % (used, form, t) + ("" if form == 1 else " " + (t + " " if form == 3 else "") + lsol()))
                ops.append("option %d outputDir plots%d" % (used, used))
                alive.append([used, 1])
                used += 1
                continue
            k = rng.choice(alive)
            op = rng.choice(kinds * 2 + ["size", "refinement", "refine", "option", "plot", "wrong", "incomplete"] + (["delete"] if len(alive) > 1 else []))
            if op in ("size", "refinement", "zero", "indices", "matrix"):
                ops.append("%s %d" % (op, k[0]))
            elif op == "delete":
                alive.remove(k)
                ops.append("delete %d" % k[0])
            elif op == "refine":
                n = rng.randint(1, 3 if self.d > 1 else 5)
                ops.append("refine %d %d" % (k[0], n))
                if self.loop == "Elliptic":  # Indices belong to a refinement.
                    ops.append("dirichlet %d 1 %d" % (k[0], s()))
            elif op == "option":
                o = rng.choice(["fileName", "fileNumber", "printFileNumber", "incrementFileNumber", "plotEdges", "plotEdgeBoundaries", "scale", "boundaryScale"])
                v = {"fileName": rng.choice(["a", "b", "long_name"]), "fileNumber": str(rng.randint(0, 99)), "scale": rng.choice(["0.5", "0.875"]), "boundaryScale": "0.75"}.get(o, rng.choice(["true", "false", "-"]))
                ops.append("option %d %s %s" % (k[0], o, v if rng.random() < 0.7 else "-"))
            elif op == "wrong":
                ops.append("wrong %d %d" % (k[0], rng.randint(0, 9)))
            elif op == "incomplete":
                ops.append("incomplete %d %s" % (k[0], self.topo().split()[0]))
            elif op == "dirichlet":
                n = rng.randint(0, 4)
                ops.append("dirichlet %d %d %s" % (k[0], n, " ".join(str(s()) for _ in range(n))))
            elif op == "jacobian":
                ops.append("jacobian %d %d %d %d %d" % (k[0], s(), time(), s(), time()))
            else:
                ops.append("%s %d %d %d" % (op, k[0], s(), time()))
        return ops

    def run(self):
        self.setup()
        self.domains = [self.domain(self.dir + "/d%d.geo" % i) for i in range(6)]
        histories = [self.history(i) for i in range(self.a.cases)]
        if self.a.case >= 0:
            histories = [histories[self.a.case]]
        which = LOOPS.index(self.loop) + 1
        exe = self.dir + "/ref"
        build = subprocess.Popen(["g++", "-std=gnu++20", "-O1", "-w", "-DNDEBUG", "-fwrapv", "-DWHICH=%d" % which, "-DKIND=%d" % (1 if self.kind == "Cubic" else 2), "-DLSOL=%d" % (1 if self.lsol == "double" else 2),
                                  "-DLOOP=" + self.cpp] + self.inc + [HERE + "/pyref.cxx", "-o", exe, "-llapack", "-lblas"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        if self.asan:
            lib = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            stdcxx = subprocess.run(["g++", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            env.update(PYTHONMALLOC="malloc", ASAN_OPTIONS="detect_leaks=0:exitcode=77")
            preload = lib + ":" + stdcxx
        where = self.dir + "/py"
        os.makedirs(where)
        job = {"tools": self.tools, "tree": self.tree, "config": self.config, "histories": [], "where": where, "extra": int(self.loop == "NonlinearEigenvalue"), "loop": self.loop,
               "kind": self.kind, "lsol": self.lsol, "space": self.s}
        cmd = [sys.executable, "-W", "ignore", "-c", SESSION]
        # The first interpreter compiles, the second one uses what is there.
        p = subprocess.run(cmd, input=json.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=self.dir, timeout=600)
        log = build.communicate()[0]
        ok = build.returncode == 0
        self.check(ok, "does-not-compile", 0, "direct use of %s: %s" % (self.cpp, [l for l in log.split("\n") if "error" in l][:2]))
        if not ok:
            return
        if not os.path.exists(where + "/finished") and not (self.asan and "asan" in p.stdout.lower()):  # Modules with sanitizer need a preloaded library.
            self.check(False, "include-failed", 0, "%s: %s" % (self.cpp, " ".join(p.stdout.split())[-600:]))
            return
        self.event("modules-compiled")
        if self.asan:
            env["LD_PRELOAD"] = preload
            self.event("modules-with-sanitizer")
        job["histories"] = histories
        if os.path.exists(where + "/finished"):
            os.remove(where + "/finished")
        p = subprocess.run(cmd, input=json.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=self.dir, timeout=1200)
        for i, ops in enumerate(histories):
            number = i if self.a.case < 0 else self.a.case
            path = where + "/log%d" % i
            label = "%s history %d" % (self.cpp, number)
            if not os.path.exists(path):
                self.check(False, "interpreter-died", number, "%s: rc %d: %s" % (label, p.returncode, " ".join(p.stdout.split())[-600:]))
                break
            got = {}
            lines = open(path).read().split("\n")
            k = -1
            for l in lines:
                if l and not l.startswith("=") and k + 1 < len(ops) and l == ops[k + 1]:
                    k += 1
                    got[k] = None
                elif l.startswith("= "):
                    got[k] = [l[2:]]
                elif l and k in got and got[k]:
                    got[k].append(l)
            d = self.dir + "/cxx%d" % i
            os.makedirs(d)
            direct = [o for o in ops if o.split()[0] not in ("wrong", "incomplete")]
            q = subprocess.run([exe, d + ".out"], input="\n".join(direct) + "\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, timeout=300)
            if q.returncode:
                self.check(False, "direct-use-died", number, "%s without Python: rc %d: %s" % (label, q.returncode, " ".join(q.stdout.split())[-300:]))
                return
            ref = open(d + ".out").read().split("\n")
            at = 0
            for n, o in enumerate(ops):
                op = o.split()[0]
                r = got.get(n)
                if r is None:
                    self.check(False, "interpreter-died", number, "%s: '%s' killed the interpreter (rc %d): %s" % (label, o, p.returncode, " ".join(p.stdout.split())[-600:]))
                    return
                self.event("operations")
                self.event("op-" + op)
                if op == "wrong":
                    self.check(r == ["refused"], "wrong-argument", number, "%s: '%s': %s" % (label, o, r))
                    continue
                if op == "incomplete":
                    self.check(r == ["refused"] or r == ["usable 1"], "incomplete-object", number, "%s: '%s': %s" % (label, o, r))
                    continue
                m = 3 if op == "matrix" else 1
                want, at = ref[at:at + m], at + m
                self.check(same(r, want), "differs:" + op, number, "%s: '%s' (operation %d) gives %s instead of %s" % (label, o, n, str(r)[:200], str(want)[:200]))
            a, b = files(where + "/h%d" % i), files(d)
            self.check(sorted(a) == sorted(b), "plot-files", number, "%s: %s instead of %s" % (label, sorted(a), sorted(b)))
            for f in a:
                if f in b:
                    self.check(same([a[f]], [b[f]]), "plot-contents", number, "%s: %s" % (label, f))
                    self.event("plot-files")
            self.states.add(hashlib.sha256((self.cpp + "\n".join(ops)).encode()).hexdigest()[:16])
            self.cases += 1
        self.check(os.path.exists(where + "/finished"), "interpreter-died", 0, "%s: rc %d at the end: %s" % (self.cpp, p.returncode, " ".join(p.stdout.split())[-600:]))


def files(base):
    r = {}
    for d, _, names in os.walk(base):
        for n in names:
            with open(os.path.join(d, n)) as f:
                r[os.path.relpath(os.path.join(d, n), base)] = f.read()
    return r


def same(a, b):
    if a == b:
        return True
    a, b = " ".join(a).split(), " ".join(b).split()
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        try:
            u, v = [float.fromhex(z) if "x" in z else float(z) for z in (x, y)]
        except ValueError:
            return False
        if not abs(u - v) <= 1e-9 * (1 + abs(u)):
            return False
    return True


def one(args):
    a, n = args
    m = Module(a, n)
    try:
        m.run()
    finally:
        if not a.keep:
            shutil.rmtree(m.dir, ignore_errors=True)
    return n, m.fails, m.counts, m.checks, m.states, m.cases


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--module", type=int, default=-1)
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--steps", type=int, default=60)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    a.asan = True
    a.cases = a.cases or (40 if a.tier == "quick" else 1500)
    mods = range(len(MODULES)) if a.module < 0 else [a.module]
    counts, checks, states, cases, bad = {}, 0, set(), 0, 0
    with cf.ProcessPoolExecutor(6) as pool:
        for n, fails, c, k, s, m in pool.map(one, [(a, n) for n in mods]):
            checks += k
            cases += m
            states |= s
            for x in c:
                counts[x] = counts.get(x, 0) + c[x]
            for key, case, detail in fails[:5]:
                bad += 1
                print("FAIL\t%s\tmodule%d\t%d\t%s" % (key, n, case, detail.replace("\t", " ").replace("\n", " ")))
    for x in sorted(counts):
        print("COUNT\t%s\t%d" % (x, counts[x]))
    for x in sorted(states):
        print("STATE\t%s" % x)
    print("SAMPLE\t%d modules, %d histories of %d operations" % (len(list(mods)), cases, a.steps))
    print("DONE\t%d\t%d" % (cases, checks))
    sys.exit(0)


if __name__ == "__main__":
    main()
