"""Driver shared by every check of /verif: builds the analyser and the program's bitcode from /repo's current
source, runs analyses, self-tests them, separates known findings, writes evidence and the verdict."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MESHING = os.path.join(REPO, "src", "Meshing")
CLANG = "clang++-18"
MPI_INC = "/usr/lib/x86_64-linux-gnu/openmpi/include"


class NoAnswer(Exception):
    """The check cannot decide (toolchain failure, vanished anchor): exit 2, no verdict."""


# macro -> (when on, when off), as the CMake modules of the repository define them in Config.h
OPTIONS = {
    "KOKKOS": ("USE_KOKKOS", "NO_KOKKOS"),
    "KOKKOSKERNELS": ("USE_KOKKOSKERNELS", "NO_KOKKOSKERNELS"),
    "EXODUS": ("USE_EXODUS", "NO_EXODUS"),
    "MPICXX": ("USE_MPI", "NO_MPI"),
    "OPENMP": ("USE_OPEN_MP", "NO_OPEN_MP"),
    "LAPACK": ("USE_LAPACK", "NO_LAPACK"),
}
DEFAULT = {"KOKKOS": 0, "KOKKOSKERNELS": 0, "EXODUS": 0, "MPICXX": 1, "OPENMP": 1, "LAPACK": 0}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "tool"), "B=" + os.path.join(VERIF, "build")])
    exe = os.path.join(VERIF, "build", "vcsa")
    if r.returncode or not os.path.exists(exe):
        raise NoAnswer("the analyser does not build:\n" + r.stdout[-2000:])
    return exe


def generate_headers(dst, options):
    """What configure_file() of src/Meshing/CMakeLists.txt makes of *.h.in for one choice of build options."""
    os.makedirs(dst, exist_ok=True)
    for name in os.listdir(MESHING):
        if not name.endswith(".h.in"):
            continue
        text = open(os.path.join(MESHING, name), encoding="utf-8", errors="replace").read()

        def sub(m):
            v = m.group(1)
            k = re.match(r"VOROCRUST_(?:HAVE|USE)_(\w+?)_VAR$", v)
            if k and k.group(1) in OPTIONS:
                return OPTIONS[k.group(1)][0 if options.get(k.group(1)) else 1]
            return "UNKNOWN"
        text = re.sub(r"@(\w+)@", sub, text)
        open(os.path.join(dst, name[:-3]), "w").write(text)


def sources(with_main=True):
    s = sorted(os.path.join(MESHING, f) for f in os.listdir(MESHING) if f.endswith(".cpp") or (with_main and f.endswith(".cxx")))
    if not s:
        raise NoAnswer("no source under " + MESHING)
    return s


def flags(hdr, options, seed=True, std="c++11"):
    f = ["-x", "c++", "-std=" + std, "-w", "-I" + MESHING, "-I" + hdr, "-I" + os.path.join(VERIF, "include"), "-isystem", MPI_INC]
    if options.get("EXODUS"):
        f.append("-I" + os.path.join(VERIF, "include", "stubs"))
    if options.get("OPENMP"):
        f.append("-fopenmp")
    if seed:
        f.append("-DFIXED_RNG_SEED")
    return f


class Work:
    """Scratch directory of one run."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vcsa.")
        self.exe = build_tool()
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def bitcode(self, files, cflags, tag):
        out = os.path.join(self.dir, tag)
        os.makedirs(out, exist_ok=True)

        def one(f):
            o = os.path.join(out, os.path.basename(f) + ".bc")
            r = run([CLANG] + cflags + ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", f, "-o", o])
            return (f, r.returncode, r.stdout, o)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, files))
        for f, rc, msg, o in rs:
            if rc:
                raise NoAnswer("clang does not compile %s:\n%s" % (f, msg[-2000:]))
        alll = os.path.join(out, "all.bc")
        r = run(["llvm-link-18"] + [x[3] for x in rs] + ["-o", alll])
        if r.returncode:
            raise NoAnswer("llvm-link: " + r.stdout[-2000:])
        return alll

    def program(self, options=None, seed=True, tag="prog"):
        options = dict(DEFAULT, **(options or {}))
        hdr = os.path.join(self.dir, tag + ".inc")
        generate_headers(hdr, options)
        return self.bitcode(sources(), flags(hdr, options, seed), tag)

    def analyse(self, analysis, bc, root, baseline=True, extra=()):
        self.n += 1
        out = os.path.join(self.dir, "r%d.json" % self.n)
        cmd = [self.exe, analysis, bc, root, "--out", out] + list(extra)
        if baseline:
            cmd += ["--baseline", os.path.join(VERIF, "tool", "baseline_functions.txt")]
        r = run(cmd, timeout=800)
        if r.returncode or not os.path.exists(out):
            raise NoAnswer("%s failed (%d): %s" % (analysis, r.returncode, r.stdout[-2000:]))
        return json.load(open(out))

    def selftest(self, name, analyses, filt=None):
        """selftest/<name>.cpp: every function bad_* must be reported, no function ok_* may be."""
        src = os.path.join(VERIF, "selftest", name + ".cpp")
        text = open(src).read()
        bad = set(re.findall(r"\b(bad_\w+)\s*\(", text))
        ok = set(re.findall(r"\b(ok_\w+)\s*\(", text))
        bc = self.bitcode([src], ["-x", "c++", "-std=c++11", "-w", "-fopenmp", "-I" + os.path.join(VERIF, "include")], "self_" + name)
        found = set()
        for a in analyses:
            res = self.analyse(a, bc, os.path.join(VERIF, "selftest"), baseline=False, extra=["--selftest"])
            for f in res["findings"]:
                if filt and not filt(f):
                    continue
                t = f["func"]
                if not re.search(r"\b(bad|ok)_", t):
                    t = f["key"] + " " + f["msg"]
                found |= set(re.findall(r"\b((?:bad|ok)_\w+)", t))
        if bad - found or ok & found or not bad:
            raise NoAnswer("self-test %s: missed %s, false alarms %s" % (name, sorted(bad - found), sorted(ok & found)))
        return {"positives_detected": len(bad), "negatives_quiet": len(ok)}


def known_findings(pid):
    """{key: text} of the listed findings; 'fixed:' lines suppress nothing."""
    k = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) key=(\S.*?) :: (.*)$", l.strip())
        if m and m.group(1) == pid:
            k[m.group(2)] = m.group(3)
    return k


def verdict(pid, t0, level, coverage, findings, assumptions):
    """findings: list of dicts rule,file,line,func,key,msg,notes. Prints the verdict and returns the exit code."""
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(pid)
    new, old = [], {}
    for f in findings:
        (old.setdefault(f["key"], f) if f["key"] in known else new.append(f))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    coverage = dict(coverage)
    coverage["known_findings_present"] = sorted(old)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
           "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(doc, open(ev, "w"), indent=1)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s [%s:%s]" % (pid, known[k], old[k]["file"], old[k]["line"]))
    for k in sorted(set(known) - set(old)):
        print("note: listed finding no longer reported: property=%s %s" % (pid, k))
    rp = os.path.join(VERIF, "evidence", pid + ".violation.json")
    if not new and os.path.exists(rp):
        os.remove(rp)
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.json")
        json.dump(new, open(rp, "w"), indent=1)
        for f in new[:25]:
            print("%s:%s: %s: [%s] %s" % (f["file"], f["line"], f["func"], f["rule"], f["msg"]))
            for n in f.get("notes", []):
                print("    " + n)
            print("    key: " + f["key"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s: %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in coverage.items() if isinstance(v, int))))
    return 0
