"""Builds the instrumented (or plain) harness executables from /repo's current tree."""
import hashlib, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
P = os.path.join(REPO, "src/PLASMA")
CLANG, LLC = "clang++", "clang++"
MODS = {  # module -> modules it needs (link closure)
    "TinyXml": [], "Utils": ["TinyXml"], "ConstraintEngine": ["Utils"], "PlanDatabase": ["ConstraintEngine"],
    "RulesEngine": ["PlanDatabase"], "TemporalNetwork": ["PlanDatabase"], "NDDL": ["RulesEngine", "TemporalNetwork"],
    "Solvers": ["RulesEngine", "TemporalNetwork"], "Resource": ["Solvers", "TemporalNetwork"],
    "System": ["NDDL", "Solvers", "Resource"],
}
EXTRA_INC = {"NDDL": ["NDDL/base", "NDDL/component"]}

def closure(mods):
    out = []
    def go(m):
        for d in MODS[m]: go(d)
        if m not in out: out.append(m)
    for m in mods: go(m)
    return out

def sources(mod):
    """source files of a module as its CMakeLists.txt declares them (tests excluded)"""
    txt = open(os.path.join(P, mod, "CMakeLists.txt")).read()
    txt = re.sub(r"#.*", "", txt)
    res = []
    for m in re.finditer(r"set\((root_sources|base_sources|component_sources)\s+([^)]*)\)", txt):
        for tok in m.group(2).split():
            tok = tok.strip('"')
            if not tok.endswith((".cc", ".cpp", ".c")): continue
            for d in ("", "base", "component"):
                f = os.path.join(P, mod, d, tok)
                if os.path.exists(f): res.append(f); break
    return res

def includes():
    inc = []
    for m in MODS:
        for d in ("", "base", "component"):
            f = os.path.join(P, m, d)
            if os.path.isdir(f): inc.append("-I" + f)
    for f in sorted(glob.glob(P + "/Solvers/*")) + sorted(glob.glob(P + "/Resource/*")):
        if os.path.isdir(f) and not f.endswith("test") and "-I" + f not in inc: inc.append("-I" + f)
    return inc

def sh(b): return hashlib.sha1(b).hexdigest()
def rd(f):
    with open(f, "rb") as h: return h.read()

class Builder:
    def __init__(self, instrument=True, jobs=8, log=None):
        self.instr, self.jobs = instrument, jobs
        self.dir = os.path.join(BUILD, "obj")
        os.makedirs(self.dir, exist_ok=True)
        h = hashlib.sha1()
        for root, ds, fs in sorted(os.walk(P)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hh", ".h", ".hpp", ".i")): h.update(f.encode()); h.update(rd(os.path.join(root, f)))
        h.update(rd(os.path.join(VERIF, "engine/SymPass.cpp")))
        self.hdr = h.hexdigest()
        self.plugin = None
        self.errors = []

    def run(self, cmd, what):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise RuntimeError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

    def cached(self, key, ext, make):
        out = os.path.join(self.dir, key + ext)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            make(tmp); os.rename(tmp, out)
        return out

    def get_plugin(self):
        if self.plugin: return self.plugin
        src = os.path.join(VERIF, "engine/SymPass.cpp")
        fl = subprocess.check_output(["llvm-config-18", "--cxxflags"]).decode().split()
        self.plugin = self.cached("plug-" + sh(rd(src)), ".so", lambda o: self.run(["clang++", "-O1", "-fPIC", "-shared", "-w"] + fl + [src, "-o", o], "plugin"))
        return self.plugin

    def flags(self, extra=()):
        return ["-std=gnu++17", "-w", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-pic", "-fno-pie",
                "-fno-delete-null-pointer-checks", "-fno-strict-aliasing", "-DTIXML_USE_STL=1", "-DEUROPA_64_BIT_PLATFORM", "-fno-math-errno"] + list(extra)

    def obj(self, src, extra=(), instr=None, inc=None, lang=None):
        instr = self.instr if instr is None else instr
        fl = self.flags(extra)
        inc = includes() if inc is None else inc
        inc = inc + ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]
        if instr: fl = fl + ["-fpass-plugin=" + self.get_plugin()]
        hh = self.hdr
        if src.startswith(VERIF):
            hh += "".join(sh(rd(f)) for f in sorted(glob.glob(VERIF + "/harness/*.hh") + glob.glob(VERIF + "/engine/*.h")))
        key = sh((hh + sh(rd(src)) + src + " ".join(fl) + " ".join(inc)).encode())
        def mk(o):
            if src.endswith(".c") and not lang: f2 = [x for x in fl if not x.startswith("-std")]; cc = "clang"
            else: f2 = fl; cc = "clang++"
            self.run([cc] + (["-x", lang] if lang else []) + f2 + inc + ["-c", src, "-o", o], "compiling " + os.path.relpath(src, REPO))
        return self.cached(key, ".o", mk)

    def antlr(self):
        """generated NDDL parser; not part of the encoding (compiled without instrumentation)"""
        g = [os.path.join(P, "NDDL/base/antlr", x) for x in ("NDDL3.g", "NDDL3Tree.g")]
        key = sh(b"".join(rd(x) for x in g))
        out = os.path.join(self.dir, "antlr-" + key)
        if not os.path.isdir(out):
            tmp = out + ".tmp%d" % os.getpid(); os.makedirs(tmp)
            jar = os.environ.get("ANTLR_JAR") or find_antlr()
            for x in g: self.run(["java", "-cp", jar, "org.antlr.Tool", "-fo", tmp, "-lib", tmp, x], "antlr")
            os.rename(tmp, out)
        return out

    def build(self, harness, mods, out, libs_extra=(), defs=()):
        """harness: list of source files in /verif/harness; mods: EUROPA modules"""
        if self.instr: self.get_plugin()
        jobs = []
        mods = closure(mods)
        inc = includes()
        if "NDDL" in mods:
            a = self.antlr(); inc = inc + ["-I" + a]
        with ThreadPoolExecutor(self.jobs) as ex:
            for h in harness:
                jobs.append(ex.submit(self.obj, os.path.join(VERIF, "harness", h), tuple(defs), None, inc))
            jobs.append(ex.submit(self.obj, os.path.join(VERIF, "engine/symrt.cpp"), ("-O2", "-g1", "-I/usr/lib/llvm-18/include"), False, []))
            jobs.append(ex.submit(self.obj, os.path.join(VERIF, "engine/symlibc.c"), ("-fno-builtin",), None, []))
            if "NDDL" in mods:
                for f in ("NDDL3Lexer.c", "NDDL3Parser.c", "NDDL3Tree.c"):
                    jobs.append(ex.submit(self.obj, os.path.join(a, f), (), False, inc, "c++"))
            srcs = [s for m in mods for s in sources(m)]
            srcs.sort(key=lambda f: -os.path.getsize(f))
            for s in srcs: jobs.append(ex.submit(self.obj, s, (), None, inc))
            objs = [j.result() for j in jobs]
        cmd = ["clang++", "-no-pie", "-o", out] + objs + ["-lz3", "-lpthread", "-ldl"] + (["-lantlr3c"] if "NDDL" in mods else []) + list(libs_extra)
        if os.path.exists("/usr/lib/llvm-18/bin/ld.lld"): cmd.insert(1, "--ld-path=/usr/lib/llvm-18/bin/ld.lld")
        self.run(cmd, "linking")
        return out

def find_antlr():
    for pat in (REPO + "/ext/lib/antlr-3*.jar", "/usr/share/java/antlr-3*.jar", "/usr/share/java/antlr3*.jar", "/usr/share/java/antlr*.jar", "/opt/*/antlr*.jar"):
        for f in sorted(glob.glob(pat)): return f
    raise RuntimeError("no antlr jar")

if __name__ == "__main__":
    import time
    t = time.time()
    b = Builder(instrument="--plain" not in sys.argv)
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    print(b.build(args[2:], args[1].split(","), args[0]), "%.1fs" % (time.time() - t))
