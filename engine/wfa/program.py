"""Loads the resolved program of /repo (dumped by wfdump) for the analyses.

Every run re-parses /repo's current sources.  A cache keyed by the SHA-256 of every source file, of the
tool and of the flags only avoids repeating the parse of byte-identical inputs in one checkout.
"""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil

REPO = os.environ.get("WF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))  # /verif/engine
VERIF = os.path.dirname(HERE)


class AnalysisBroken(Exception):
    """The sources cannot be analysed (an anchor vanished or they do not parse)."""


def tool_path():
    b = os.path.join(HERE, "bin", "wfdump")
    src = os.path.join(HERE, "wfdump.cc")
    stamp = b + ".src"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(b) and os.path.exists(stamp) and open(stamp).read() == h:
        return b
    try:
        subprocess.run([os.path.join(HERE, "build.sh"), b], check=True)
        open(stamp, "w").write(h)
        return b
    except (OSError, subprocess.CalledProcessError):
        d = tempfile.mkdtemp(prefix="wfdump.")
        b = os.path.join(d, "wfdump")
        subprocess.run([os.path.join(HERE, "build.sh"), b], check=True)
        return b


CORE_FLAGS = ["-std=gnu++20", "-DNDEBUG", "-DFMT_HEADER_ONLY=1", "-w"]
WRAP_DEFS = ['-DNB_DOMAIN=wf_abi_domain', '-DPY_GIT_HASH="x"', '-DPY_MODULE_NAME=pywrenfold',
             '-DPY_MODULE_VERSION="dev"'] + \
    ['-DPY_SUBMODULE_NAME_%s="%s"' % (n.upper(), n) for n in
     ("ast", "enumerations", "exceptions", "gen", "geometry", "sym", "sympy_conversion", "type_info")]


def _resource_dir():
    return subprocess.run(["clang++", "-print-resource-dir"], capture_output=True, text=True, check=True).stdout.strip()


def core_tus():
    r = sorted(glob.glob(REPO + "/components/core/wf/**/*.cc", recursive=True))
    return [f for f in r if "/tests/" not in f]


def wrapper_tus():
    return sorted(glob.glob(REPO + "/components/wrapper/pywrenfold/*.cc"))


def _sources_hash(tus, flags):
    h = hashlib.sha256()
    h.update(open(os.path.join(HERE, "wfdump.cc"), "rb").read())
    h.update(repr((tus, flags)).encode())
    for root in ("core", "runtime", "wrapper"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, "components", root))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cc", ".hpp", ".inl")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


class Fn:
    __slots__ = ("id", "q", "file", "line", "ft", "ret", "nx", "nr", "params", "body", "inits", "rt",
                 "constm", "static", "virt", "lambda_", "parent", "ctor", "dtor", "conv", "defaulted",
                 "deleted", "implicit", "ta", "acc", "inst", "cx")

    def __init__(self, d):
        g = d.get
        self.id = d["id"]; self.q = d["q"]; self.file = d["file"]; self.line = d["line"]
        self.ft = d["ft"]; self.ret = d["ret"]; self.nx = bool(g("nx")); self.nr = bool(g("nr"))
        self.params = d["params"]; self.body = g("body"); self.inits = g("inits") or []
        self.rt = g("rt"); self.constm = bool(g("constm")); self.static = bool(g("static"))
        self.virt = bool(g("virt")); self.lambda_ = bool(g("lambda")); self.parent = g("parent")
        self.ctor = bool(g("ctor")); self.dtor = bool(g("dtor")); self.conv = bool(g("conv"))
        self.defaulted = bool(g("defaulted")); self.deleted = bool(g("deleted"))
        self.implicit = bool(g("implicit")); self.ta = g("ta"); self.acc = g("acc")
        self.inst = bool(g("inst")); self.cx = bool(g("cx"))

    @property
    def name(self):
        return self.q.rsplit("::", 1)[-1]

    @property
    def loc(self):
        return "%s:%d" % (rel(self.file), self.line)

    def __repr__(self):
        return "<Fn %s %s>" % (self.q, self.loc)


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f


class Program:
    def __init__(self):
        self.fns = {}      # id -> Fn
        self.decls = {}    # id -> Fn without body
        self.recs = {}     # qualified type string -> record dict
        self.enums = {}    # q -> {file,line,vals:[(name,val)]}
        self.vars = {}     # q -> list of dicts
        self.tus = []
        self.by_q = {}
        self.by_rt = {}

    def finish(self):
        self.by_q = {}
        self.by_rt = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)
            if f.rt:
                self.by_rt.setdefault(f.rt, []).append(f)
        self.kids = {}
        for f in self.fns.values():
            if f.parent:
                self.kids.setdefault(f.parent, []).append(f)

    # -- lookup helpers
    def named(self, q, required=True):
        r = self.by_q.get(q, [])
        if required and not r:
            raise AnalysisBroken("anchor vanished: function %s" % q)
        return r

    def method(self, rt, name):
        return [f for f in self.by_rt.get(rt, []) if f.name == name]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisBroken("anchor vanished: enum %s" % q)
        return self.enums[q]

    def enums_of(self, q):
        """distinct enumerators of q, or an empty list when q is not an enumeration"""
        out = {}
        for n, v in dict(self.enums.get(q, {}).get("vals", {})).items():
            out.setdefault(v, n)
        return list(out.values())

    def rec(self, q):
        if q not in self.recs:
            raise AnalysisBroken("anchor vanished: record %s" % q)
        return self.recs[q]


_TKEYS = ("t", "ft", "rt", "ret", "tt", "nt", "wt", "ty")


def _remap(types):
    def hook(d):
        for k in _TKEYS:
            v = d.get(k)
            if type(v) is int:
                d[k] = types[v]
        return d
    return hook


def _run(tus, flags, roots):
    tool = tool_path()
    out = tempfile.mkdtemp(prefix="wfa.")
    try:
        # biggest first, round robin over one process per core
        n = min(8, len(tus))
        tus = sorted(tus, key=lambda f: -os.path.getsize(f))
        parts = [tus[i::n] for i in range(n)]
        procs = []
        for i, p in enumerate(parts):
            o = os.path.join(out, "%d.jsonl" % i)
            e = open(os.path.join(out, "%d.err" % i), "w+")
            procs.append((o, e, subprocess.Popen(
                [tool, o, ":".join(roots), "--"] + flags + ["-resource-dir", _resource_dir(), "--"] + p,
                stdout=e, stderr=e)))
        prog = Program()
        for o, e, pr in procs:
            rc = pr.wait()
            if rc != 0:
                e.seek(0)
                raise AnalysisBroken("clang cannot parse the sources (rc %d): %s" % (rc, e.read()[-1500:]))
            _merge(prog, o)
        prog.finish()
        return prog
    finally:
        shutil.rmtree(out, ignore_errors=True)


def _merge(prog, path):
    with open(path) as fh:
        lines = fh.read().split("\n")
    types = None
    for ln in reversed(lines):
        if ln.startswith('{"T":"types"'):
            types = [sys.intern(x) for x in json.loads(ln)["types"]]
            break
    hook = _remap(types)
    for ln in lines:
        if not ln or ln.startswith('{"T":"types"'):
            continue
        k = ln[6:10]
        if k == 'fn",':
            i = ln[16:ln.index('"', 16)] if ln[11:16] == '"id":' else None
            d = json.loads(ln, object_hook=hook)
            f = Fn(d)
            if d.get("hasbody"):
                prog.fns.setdefault(f.id, f)
            else:
                prog.decls.setdefault(f.id, f)
        else:
            d = json.loads(ln, object_hook=hook)
            T = d["T"]
            if T == "rec":
                if d["q"] not in prog.recs:
                    prog.recs[d["q"]] = d
            elif T == "enum":
                prog.enums.setdefault(d["q"], d)
            elif T == "var":
                l = prog.vars.setdefault(d["q"], [])
                if not any(x["file"] == d["file"] and x["line"] == d["line"] and x.get("rt") == d.get("rt") for x in l):
                    l.append(d)
            elif T == "tu":
                prog.tus.append(d["file"])


def _load(tus, flags, label):
    key = _sources_hash(tus, flags)
    cdir = os.path.join(VERIF, ".cache")
    cp = os.path.join(cdir, "%s-%s.pkl" % (label, key[:32]))
    if os.path.exists(cp):
        try:
            with open(cp, "rb") as fh:
                import gc
                gc.disable()
                p = pickle.load(fh)
                gc.enable()
                return p
        except Exception:
            pass
    p = _run(tus, flags, [REPO + "/components/"])
    try:
        os.makedirs(cdir, exist_ok=True)
        old = sorted(glob.glob(os.path.join(cdir, "*.pkl")), key=os.path.getmtime)
        for o in old[:-6]:
            os.unlink(o)
        tmp = cp + ".%d" % os.getpid()
        with open(tmp, "wb") as fh:
            pickle.dump(p, fh, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(tmp, cp)
    except OSError:
        pass
    return p


def core_includes():
    return ["-I" + REPO + "/components/core", "-I" + REPO + "/components/runtime"]


def load_core():
    return _load(core_tus(), CORE_FLAGS + core_includes(), "core")


def load_wrapper(only=None):
    import sysconfig
    nb = glob.glob("/opt/vp/nanobind*/nanobind/include")
    py = [p for p in ("/usr/include/python3.12", sysconfig.get_paths()["include"]) if os.path.isdir(p)]
    if not nb or not py:
        raise AnalysisBroken("nanobind or Python headers not found")
    inc = ["-I" + REPO + "/components/core", "-I" + REPO + "/components/runtime", "-I" + REPO + "/components/wrapper/pywrenfold",
           "-I" + py[0], "-I" + nb[0], "-isystem", "/usr/include/eigen3"]
    tus = wrapper_tus()
    if only:
        tus = [t for t in tus if os.path.basename(t) in only]
        if len(tus) != len(only):
            raise AnalysisBroken("wrapper sources missing: %s" % sorted(set(only) - {os.path.basename(t) for t in tus}))
    return _load(tus, CORE_FLAGS + WRAP_DEFS + inc, "wrap")


def walk(n):
    """every dumped syntax node below (and including) n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
