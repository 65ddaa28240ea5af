#!/usr/bin/env python3
"""Monitor of the just-in-time compilation behind HyperHDG.include.

Every case is a history of include() calls (in fresh interpreters, several per interpreter), edits
of headers, templates and configuration files and failing tools, on a private copy of import/,
cython/ and include/.  The tools named in build/cmake_cython.cfg are recording stand-ins: the module
they produce carries what it was made from, and the monitor compares that with the configuration
and the state of the tree at the time of the call."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, sysconfig

TOOL = r'''#!/usr/bin/env python3
import hashlib, json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
kind, args = sys.argv[1], sys.argv[2:]
tree = json.load(open(here + "/where"))
with open(here + "/log", "a") as f:
    f.write(kind + "\n")
fail = here + "/fail"
if os.path.exists(fail) and open(fail).read() == kind:
    os.remove(fail)
    sys.exit(1)
out = args[args.index("-o") + 1] if "-o" in args else None
if kind == "cython":
    name = args[-1]
    assert name.endswith(".pyx")
    base = name[:-4]
    json.dump({"pyx": open(base + ".pyx").read(), "pxd": open(base + ".pxd").read(), "cython": args}, open(base + ".cpp", "w"))
elif kind == "compile":
    src = [a for a in args if a.endswith(".cpp")][0]
    info = json.load(open(src))
    info["compile"] = args
    names, seen, snap = re.findall(r'cdef extern from "<([^>]*)>"', info["pxd"]), set(), {}
    while names:
        n = names.pop()
        if n in seen:
            continue
        seen.add(n)
        for p in (n, tree + "/include/" + n, tree + "/" + n):
            if os.path.isabs(p) and os.path.isfile(p):
                text = open(p).read()
                snap[n] = hashlib.sha256(text.encode()).hexdigest()
                names += re.findall(r"#include <(HyperHDG/[^>]*)>", text)
                break
        else:
            sys.exit("missing include " + n)
    info["headers"] = snap
    json.dump(info, open(out, "w"))
elif kind == "link":
    obj = [a for a in args if a.endswith(".o")][0]
    info = json.load(open(obj))
    info["link"] = args
    name = os.path.basename(out)[:-3]
    text = json.dumps(json.dumps(info))
    code = """#define PY_SSIZE_T_CLEAN
#include <Python.h>
static struct PyModuleDef m = {PyModuleDef_HEAD_INIT, "%s", 0, -1, 0};
PyMODINIT_FUNC PyInit_%s(void) {
  PyObject* mod = PyModule_Create(&m);
  PyObject* d = PyDict_New();
  PyDict_SetItemString(d, "info", PyUnicode_FromString(%s));
  PyObject* t = PyObject_CallFunction((PyObject*)&PyType_Type, "s()O", "%s", d);
  PyModule_AddObject(mod, "%s", t);
  return mod;
}
""" % (name, name, text, name, name)
    sys.exit(subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-O0", "-I" + json.load(open(here + "/pyinc")), "-x", "c", "-", "-o", out], input=code.encode()).returncode)
'''

SESSION = r'''
import io, json, sys, contextlib
job = json.load(sys.stdin)
sys.path.insert(0, job["tools"])
sys.path.insert(0, job["tree"] + "/import")
out = []
real = sys.stdout
sys.stdout = io.StringIO()
import HyperHDG
confs = {}
for c in job["configs"]:
    r = {}
    try:
        if c["object"] in confs:
            conf = confs[c["object"]]
        else:
            conf = confs[c["object"]] = HyperHDG.config()
        for k in ("global_loop", "local_solver", "topology", "geometry", "node_descriptor", "cpp_code", "debug_mode", "cython_replacements"):
            if k in c["set"]:
                setattr(conf, k, c["set"][k])
        if c["set"].get("include_files") is not None:
            conf.include_files = list(c["set"]["include_files"])
        cls = HyperHDG.include(conf)
        r["info"], r["name"] = cls.info, cls.__name__
    except BaseException as e:
        r["error"] = type(e).__name__ + ": " + str(e)[:200]
    r["printed"] = sys.stdout.getvalue()[-300:]
    sys.stdout = io.StringIO()
    out.append(r)
json.dump(out, real)
'''

OWN = ["own/parameters0.hxx", "own/linear.hxx", "own/dense_la.hxx"]
LOOPS = {"Elliptic": "elliptic", "Parabolic": "parabolic", "MassApproxEigenvalue": "mass_approx_eigenvalue",
         "ShiftedInverseEigenvalue": "shifted_inverse_eigenvalue", "NonlinearEigenvalue": "nonlinear_eigenvalue"}


class Failed(Exception):
    pass


class Case:
    def __init__(self, a, number):
        self.a, self.n = a, number
        self.rng = random.Random("%d/%d" % (a.seed, number))
        self.dir = os.path.join(a.scratch, "jit%d" % number)
        self.fails, self.counts, self.checks = [], {}, 0
        self.hash = hashlib.sha256()

    def event(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def check(self, ok, key, detail=""):
        self.checks += 1
        if not ok:
            self.fails.append((key, detail))

    # ------------------------------------------------------------ tree
    def setup(self):
        rng = self.rng
        self.tree = os.path.join(self.dir, rng.choice(["tree", "c++tree"]))
        self.tools = os.path.join(self.dir, "tools")
        os.makedirs(self.tools)
        for d in ("import", "cython", "include"):
            shutil.copytree(os.path.join(self.a.repo, d), os.path.join(self.tree, d), ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(self.tree + "/build")
        os.makedirs(self.tree + "/own")
        with open(self.tools + "/tool", "w") as f:
            f.write(TOOL)
        os.chmod(self.tools + "/tool", 0o755)
        with open(self.tools + "/fiber_network.py", "w") as f:
            f.write("")
        json.dump(self.tree, open(self.tools + "/where", "w"))
        pyinc = sysconfig.get_paths()["include"]
        json.dump(pyinc, open(self.tools + "/pyinc", "w"))
        self.pyinc = pyinc
        self.stamp = 0
        self.write_options()
        # Headers of the user, two of which are called as headers of the library.
        deep = rng.choice(["sparse_la", "plot", "mapping/linear"])
        for k, name in enumerate(OWN):
            self.write(name, "#pragma once\n" + ("#include <HyperHDG/%s.hxx>\n" % deep if k == 2 else "") + "struct Own%d {};\n" % k)
        # A user's local solver next to those of the library, declared as struct.
        self.write("include/HyperHDG/local_solver/own_solver.hxx",
                   "#pragma once\n#include <HyperHDG/hypercube.hxx>\nnamespace LocalSolver\n{\ntemplate <unsigned int d>\nstruct OwnSolver\n{\n};\n}\n")
        # Where classes are defined.
        self.where = {}
        for folder in ("geometry", "node_descriptor", "topology", "global_loop", "local_solver"):
            base = self.tree + "/include/HyperHDG/" + folder
            for name in sorted(os.listdir(base)):
                text = open(os.path.join(base, name)).read()
                for m in re.finditer(r"\n(?:class|struct) (\w+)\n\{", text):
                    self.where[(folder, m.group(1))] = "HyperHDG/%s/%s" % (folder, name)

    def write(self, name, text):
        path = os.path.join(self.tree, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)

    def read(self, name):
        return open(os.path.join(self.tree, name)).read()

    def write_options(self):
        self.stamp += 1
        self.write("build/cmake_cython.cfg", """[compiler]
command  = %(t)s/tool compile
includes = -I%(p)s -Iinclude
flags    = -DSTAMP=%(s)d
standard = 20
[linker]
command = %(t)s/tool link
flags   = -shared
libs    = -llapack
[cython]
command = %(t)s/tool cython
flags   = -3 --cplus
[python]
ver_maj = %(a)d
ver_min = %(b)d
dir     = %(p)s
""" % {"t": self.tools, "p": self.pyinc, "s": self.stamp, "a": sys.version_info.major, "b": sys.version_info.minor})

    # ------------------------------------------------------------ configurations
    def config(self):
        rng = self.rng
        solvers = [c for f, c in self.where if f == "local_solver" and not c.lower().endswith("default") and "Parameters" not in c and c != "Template"]
        d, s = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3)])
        space = rng.choice(["", " "])
        t = "<%s%d,%s%d%s>" % (space, d, space, s, space)
        topo = rng.choice(["Cubic", "File"])
        c = {"global_loop": rng.choice(sorted(LOOPS)), "local_solver": rng.choice(sorted(solvers)) + space + "<%s%d,%d%s>" % (space, d, rng.randint(1, 3), space),
             "topology": topo + t, "geometry": ("UnitCube" if topo == "Cubic" else "File") + t, "node_descriptor": topo + t,
             "debug_mode": rng.random() < 0.4, "cpp_code": rng.choice(["", "", "", "struct A {};\n", "struct B {};\n", "struct a {};\n"]),
             "cython_replacements": rng.choice([["vector[unsigned int]", "vector[unsigned int]"], ["string", "string"],
                                               ["vector[unsigned int]", "vector[unsigned int]", "double", "vector[double]"],
                                               ["string", "string", "float", "float"], ["string", "string", "", "vector[float]"]]),
             "include_files": rng.choice([None, [], OWN[:1], OWN[1:], OWN[:0:-1], [OWN[2]], OWN[1::-1]])}
        return c

    def variant(self, c):
        """Differs from c in few places."""
        c, o = dict(c), self.config()
        for k in self.rng.sample(sorted(c), self.rng.choice([1, 1, 1, 2])):
            if k in ("topology", "geometry", "node_descriptor"):
                for q in ("topology", "geometry", "node_descriptor"):
                    c[q] = o[q]
            else:
                c[k] = o[k]
        # The same headers in another order, the same code in other letters.
        if c["include_files"] and len(c["include_files"]) > 1 and self.rng.random() < 0.4:
            c["include_files"] = c["include_files"][::-1]
        if c["cpp_code"] and self.rng.random() < 0.3:
            c["cpp_code"] = c["cpp_code"].replace(" A ", " x ").replace(" a ", " A ").replace(" x ", " a ")
        return c

    # ------------------------------------------------------------ oracle
    def judge(self, c, r, must_fail, label):
        if must_fail:
            self.check("error" in r, "failing-tool-unnoticed", "a class was returned although %s failed" % must_fail)
            self.event("failures-injected")
            return
        self.check("error" not in r, "include-failed", label + ": " + r.get("error", ""))
        if "error" in r:
            return
        info = json.loads(r["info"])
        flat = lambda x: re.sub(r"\s", "", x)
        cpp = "GlobalLoop::%s<Topology::%s,Geometry::%s,NodeDescriptor::%s,LocalSolver::%s>" % (
            c["global_loop"], c["topology"], c["geometry"], c["node_descriptor"], c["local_solver"])
        loop = LOOPS[c["global_loop"]]
        cfg = dict(re.findall(r"(replacement\d\d)\s*=\s*(.*)", self.read("cython/%s.cfg" % loop)))
        repl = []
        for i in range(4):
            given = c["cython_replacements"][i] if i < len(c["cython_replacements"]) else ""
            repl.append(given if given else cfg["replacement%02d" % (i + 1)].strip())
        # The sources are the current templates with everything filled in.
        wrapper = None
        for end in ("pxd", "pyx"):
            pattern = ""
            for part in re.split(r"(C\+\+ClassName|CythonClassName|PythonClassName|IncludeFiles|CyReplace\d\d)", self.read("cython/%s.%s" % (loop, end))):
                if part == "C++ClassName":
                    pattern += r'"(?P<cpp>[^"\n]*)"' if "?P<cpp>" not in pattern else r'"(?P=cpp)"'
                elif part == "CythonClassName":
                    pattern += r"(?P<cy>\w+)" if "?P<cy>" not in pattern else r"(?P=cy)"
                elif part == "PythonClassName":
                    pattern += re.escape(r["name"])
                elif part == "IncludeFiles":
                    pattern += r"(?P<inc>.*?)" if "?P<inc>" not in pattern else r"(?P=inc)"
                elif part.startswith("CyReplace"):
                    pattern += re.escape(repl[int(part[-2:]) - 1])
                else:
                    pattern += re.escape(part)
            m = re.fullmatch(pattern, info[end], re.S)
            self.check(m is not None, "wrong-source", "%s: the %s file is not the current template filled with %s" % (label, end, repl))
            if m is None:
                continue
            g = m.groupdict()
            if wrapper is not None and "cy" in g:
                self.check(g["cy"] == wrapper, "wrapper-name", label)
            wrapper = g.get("cy", wrapper)
            if end == "pxd":
                self.check(flat(g.get("cpp", "")) == flat(cpp), "wrong-class", "%s: %s instead of %s" % (label, g.get("cpp"), cpp))
                inc = re.findall(r'cdef extern from "<([^>]*)>"', g["inc"])
                want = {self.where[(f, re.split(r"[< ]", c[f])[0])] for f in ("geometry", "node_descriptor", "topology", "global_loop", "local_solver")}
                given = c["include_files"] or []
                want |= set(given)
                self.check([x for x in inc if x in given] == given, "order-of-includes", "%s: %s" % (label, inc))
                own = [x for x in inc if os.path.isabs(x) and "/build/" in x]
                rest = set(x for x in inc if x not in own)
                self.check(rest == want, "wrong-includes", "%s: too many %s, missing %s" % (label, sorted(rest - want), sorted(want - rest)))
                self.check(len(own) == (c["cpp_code"] != ""), "own-code-included", "%s: %s" % (label, own))
                for x in own:
                    self.check(info["headers"][x] == hashlib.sha256(c["cpp_code"].encode()).hexdigest(), "own-code-stale", label)
        self.check(("-DNDEBUG" in info["compile"]) == (not c["debug_mode"]), "debug-mode", label)
        self.check("-DSTAMP=%d" % self.stamp in info["compile"], "stale-options", label)
        self.check("--std=gnu++20" in info["compile"] and "-llapack" in info["link"] and "-shared" in info["link"] and "-3" in info["cython"], "tool-options", label)
        stale = []
        for n, h in info["headers"].items():
            if os.path.isabs(n):
                continue
            p = self.tree + "/include/" + n
            if not os.path.isfile(p):
                p = self.tree + "/" + n
            if hashlib.sha256(open(p).read().encode()).hexdigest() != h:
                stale.append(n)
        self.check(not stale, "stale-headers", "%s: built before the last change of %s" % (label, stale[:3]))
        self.event("headers-observed", len(info["headers"]))
        self.event("classes-observed")

    # ------------------------------------------------------------ operations
    def session(self, configs, must_fail=None):
        label = "history %d" % self.n
        fail = self.tools + "/fail"
        if must_fail:
            with open(fail, "w") as f:
                f.write(must_fail)
        log = self.tools + "/log"
        open(log, "w").close()
        job = {"tools": self.tools, "tree": self.tree, "configs": configs}
        opt = ["-O"] if self.rng.random() < 0.25 else []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        p = subprocess.run([sys.executable] + opt + ["-W", "ignore", "-c", SESSION], input=json.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=self.dir, timeout=300)
        if opt:
            self.event("optimised-interpreters")
        try:
            res = json.loads(p.stdout)
        except ValueError:
            self.check(False, "interpreter-died", "rc %d: %s" % (p.returncode, p.stderr[-300:]))
            raise Failed()
        tools = open(log).read().split()
        failed = must_fail if must_fail and not os.path.exists(fail) else None
        if os.path.exists(fail):
            os.remove(fail)
        for k, (c, r) in enumerate(zip(configs, res)):
            self.judge(c["full"], r, failed if k == 0 else None, "%s include %d of %d" % (label, k + 1, len(configs)))
        return tools, res

    def run(self):
        rng = self.rng
        self.setup()
        pool = [self.config()]
        for _ in range(3):
            pool.append(self.variant(rng.choice(pool)))
        pool = pool[:]
        for step in range(self.a.steps):
            op = rng.choice(["session", "session", "session", "edit", "edit", "fail", "repeat", "script"])
            if rng.random() < 0.15:
                pool.append(self.variant(rng.choice(pool)))
            if op == "session":
                configs, last = [], {}
                for k in range(rng.choice([1, 1, 2, 3])):
                    c = rng.choice(pool)
                    obj = rng.choice([k, k, 0])
                    full = dict(c)
                    if obj in last and c["include_files"] is None:  # The object keeps what the user has put there.
                        full["include_files"] = last[obj]
                    last[obj] = full["include_files"]
                    configs.append({"object": obj, "set": c, "full": full})
                self.session(configs)
                self.event("sessions")
                if len(configs) > 1:
                    self.event("sessions-with-several-classes")
            elif op == "repeat":
                c = rng.choice(pool)
                one = [{"object": 0, "set": c, "full": c}]
                self.session(one)
                tools, _ = self.session(one)
                self.check(not tools, "needless-compilation", "nothing changed, but %s ran" % tools)
                self.event("repetitions")
            elif op == "script":
                c = rng.choice(pool)
                one = [{"object": 0, "set": c, "full": c}]
                self.session(one)
                name = "import/HyperHDG/import_cxx/" + rng.choice(sorted(x for x in os.listdir(self.tree + "/import/HyperHDG/import_cxx") if x.endswith(".py")))
                self.write(name, self.read(name) + "# Changed.\n")
                tools, _ = self.session(one)
                self.check("compile" in tools, "scripts-unobserved", "no compilation after a change of " + name)
                self.event("edits-scripts")
            elif op == "fail":
                c = rng.choice(pool)
                one = [{"object": 0, "set": c, "full": c}]
                self.edit()
                self.session(one, rng.choice(["cython", "compile", "link"]))
                self.session(one)
            else:
                self.edit()
        self.hash.update(json.dumps(pool, sort_keys=True).encode())

    def edit(self):
        rng = self.rng
        kind = rng.choice(["header", "header", "header", "template", "own", "options", "defaults"])
        mark = "%d" % rng.getrandbits(60)
        if kind == "header":
            files = []
            for base, _, names in os.walk(self.tree + "/include"):
                files += [os.path.relpath(os.path.join(base, n), self.tree) for n in names]
            name = rng.choice(sorted(files))
            if rng.random() < 0.3:
                name = rng.choice(["include/HyperHDG/mapping/linear.hxx", "include/HyperHDG/dense_la.hxx"])
            self.write(name, self.read(name) + "// " + mark + "\n")
        elif kind == "template":
            name = "cython/%s.%s" % (rng.choice(sorted(LOOPS.values())), rng.choice(["pxd", "pyx"]))
            self.write(name, self.read(name) + "# " + mark + "\n")
        elif kind == "own":
            name = rng.choice(OWN)
            self.write(name, self.read(name) + "// " + mark + "\n")
        elif kind == "defaults":
            name = "cython/%s.cfg" % rng.choice(sorted(LOOPS.values()))
            self.write(name, re.sub(r"(replacement04\s*=\s*)\S+", r"\g<1>" + rng.choice(["double", "float", "vector[double]"]), self.read(name)))
        else:
            self.write_options()
        self.event("edits")
        self.event("edits-" + kind)


def one(args):
    a, n = args
    c = Case(a, n)
    try:
        c.run()
    except Failed:
        pass
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    return n, c.fails, c.counts, c.checks, c.hash.hexdigest()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--cases", type=int, default=None)
    a = ap.parse_args()
    a.scratch = os.path.abspath(a.scratch)
    a.steps = 10 if a.tier == "quick" else 16
    cases = [a.case] if a.case is not None else list(range(a.cases or (160 if a.tier == "quick" else 1200)))
    counts, checks = {}, 0
    with cf.ProcessPoolExecutor(min(8, os.cpu_count() or 1)) as pool:
        for n, fails, cnt, chk, h in pool.map(one, [(a, n) for n in cases]):
            for key, detail in fails:
                print("FAIL\t%s\tjit\t%d\t%s" % (key, n, re.sub(r"\s+", " ", detail)[:600]))
            for k, v in cnt.items():
                counts[k] = counts.get(k, 0) + v
            checks += chk
            print("STATE\t" + h)
            if n < 4:
                print("SAMPLE\thistory %d: %s" % (n, cnt))
    for k in sorted(counts):
        print("COUNT\t%s\t%d" % (k, counts[k]))
    print("DONE\t%d\t%d" % (len(cases), checks))


if __name__ == "__main__":
    main()
