"""Builds the harnesses from /repo's working tree and runs them; shared by bin/check and bin/setup."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
LIB = "/usr/lib/x86_64-linux-gnu"
OMPI = LIB + "/openmpi"
INCS = ["-I%s/shim" % H, "-I%s" % H, "-I%s/.build/gen" % VERIF, "-I%s/include" % REPO, "-I%s/src/macis" % REPO, "-I%s/src" % REPO,
        "-I%s/src/lobpcgxx/include" % REPO, "-I%s/src/sparsexx/include" % REPO,
        "-isystem %s/include" % OMPI, "-isystem %s/include/openmpi" % OMPI, "-isystem /usr/include/eigen3"]
DEFS = "-DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DMDSPAN_SHIM_CHECK -D_GLIBCXX_ASSERTIONS"
FORCE = " ".join("-include " + h for h in "cstdint memory optional functional algorithm numeric string set cassert".split())
LINK = " ".join(["%s/liblapackpp.a" % LIB, "%s/libblaspp.a" % LIB, "-lblas -llapack", "%s/libopenblas.so" % LIB,
                 "%s/lib/libmpi_cxx.so" % OMPI, "%s/lib/libmpi.so" % OMPI,
                 "%s/libspdlog.so.1.12.0" % LIB, "%s/libfmt.so.9.1.0" % LIB, "-lpthread -lm -ldl"])
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
FLAVOUR = {
    "asan": dict(cxx="g++", flags="-std=gnu++17 -O1 -g1 -w -fopenmp " + SAN, link="-fopenmp " + SAN),
    # no sanitizer: used where thousands of bigger cases matter more than red zones
    "fast": dict(cxx="g++", flags="-std=gnu++17 -O2 -g1 -w -fopenmp", link="-fopenmp"),
    "vg": dict(cxx="g++", flags="-std=gnu++17 -O1 -g -w -fopenmp", link="-fopenmp"),
    "tsan": dict(cxx="g++", flags="-std=gnu++17 -O1 -g -w -fopenmp -fsanitize=thread -fno-omit-frame-pointer", link="-fsanitize=thread"),
}
sys.path.insert(0, H)
from registry import BINS, PROPS  # noqa: E402

def macis_sources():
    base = os.path.join(REPO, "src/macis")
    out = []
    for d, _, fs in sorted(os.walk(base)):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cxx")]
    return out

def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/src", REPO + "/attic", H, os.path.join(VERIF, "bin")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if "__pycache__" in d: continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p): continue
                h.update(p.encode())
                with open(p, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]

def build_dir():
    root = os.path.join(VERIF, ".build")
    os.makedirs(root, exist_ok=True)
    b = os.path.join(root, tree_hash())
    if not os.path.isdir(b):
        old = sorted((os.path.join(root, x) for x in os.listdir(root) if len(x) == 16), key=os.path.getmtime)
        for x in old[:-2]:
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(b, exist_ok=True)
        cache = os.path.join(root, "cache")
        fs = sorted((os.path.join(cache, x) for x in os.listdir(cache)), key=os.path.getmtime) if os.path.isdir(cache) else []
        total = sum(os.path.getsize(x) for x in fs)
        for x in fs:
            if total < 3 << 30: break
            total -= os.path.getsize(x); os.remove(x)
    os.utime(b)
    return b

def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s: return
    with open(p, "w") as f: f.write(s)

def write_ninja(B):
    gen = os.path.join(VERIF, ".build/gen")
    write_if_changed(gen + "/macis/macis_config.hpp", "#pragma once\n#define MACIS_ENABLE_MPI\n")
    write_if_changed(gen + "/sparsexx/sparsexx_config.hpp", "#pragma once\n#define SPARSEXX_ENABLE_MPI\n")
    L = []
    incs = " ".join(INCS).replace("{B}", B)
    names = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/src", REPO + "/attic", H):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            names.update("\n".join(sorted(os.path.join(d, f) for f in fs)).encode())
    cc = "%s/bin/cxxcache %s/.build/cache %s $out -- " % (VERIF, VERIF, names.hexdigest()[:16])
    for fl, d in FLAVOUR.items():
        L += ["rule cxx_%s" % fl, "  command = " + cc + "%s %s %s %s %s $xflags -MMD -MF $out.d -c $in -o $out" % (d["cxx"], d["flags"], DEFS, FORCE, incs),
              "  depfile = $out.d", "  deps = gcc",
              "rule link_%s" % fl, "  command = %s $in -o $out %s $xlink %s" % (d["cxx"], d["link"], LINK)]
    # attic: its own language level and MPI-free build of the legacy code
    from registry import ATTIC_CXX, ATTIC_LINK
    for k in ATTIC_CXX:
        L += ["rule cxx_" + k, "  command = " + cc + "%s $xflags -MMD -MF $out.d -c $in -o $out" % ATTIC_CXX[k].format(B=B, REPO=REPO, H=H),
              "  depfile = $out.d", "  deps = gcc",
              "rule link_" + k, "  command = g++ $in -o $out %s $xlink" % ATTIC_LINK[k].format(B=B, REPO=REPO, H=H)]
    done = set()
    def obj(src, fl, xflags):
        tag = os.path.relpath(src, "/").replace("/", "_").replace("+", "p")
        if xflags: tag += "_" + hashlib.md5(xflags.encode()).hexdigest()[:6]
        o = "%s/obj/%s/%s.o" % (B, fl, tag)
        if o not in done:
            done.add(o)
            L.append("build %s: cxx_%s %s" % (o, fl, src))
            if xflags: L.append("  xflags = " + xflags)
        return o
    for name, b in BINS.items():
        fl = b.get("flavour", "asan")
        xf = b.get("xflags", "").format(B=B, REPO=REPO, H=H)
        objs = [obj(os.path.join(H, s) if not s.startswith("/") else s, fl, xf) for s in b["src"]]
        for s in b.get("repo", []):
            if s == "MACIS": objs += [obj(x, fl, "") for x in macis_sources()]
            else: objs.append(obj(os.path.join(REPO, s), fl, b.get("repo_xflags", xf).format(B=B, REPO=REPO, H=H)))
        L.append("build %s/bin/%s: link_%s %s" % (B, name, fl, " ".join(objs)))
        if b.get("xlink"): L.append("  xlink = " + b["xlink"])
    write_if_changed(B + "/build.ninja", "\n".join(L) + "\n")

def build(B, bins, quiet=False):
    write_ninja(B)
    t = time.time()
    r = subprocess.run(["ninja", "-C", B, "-k", "0"] + ["%s/bin/%s" % (B, b) for b in bins], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write("\n".join([l for l in r.stdout.split("\n") if re.search(r"error|undefined", l) and "g++ " not in l][:12])[:3000] + "\n")
        print("BUILD FAILED")
        return None
    if not quiet: print("built %s in %.1f s" % (",".join(bins), time.time() - t))
    return time.time() - t

def base_env(tmp, threads):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS="1", OMP_DYNAMIC="false",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="/bin/false",
             OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
             TMPDIR=tmp,
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_string_checks=1",
             UBSAN_OPTIONS="print_stacktrace=1:exitcode=99",
             TSAN_OPTIONS="halt_on_error=0:exitcode=0:history_size=4:second_deadlock_stack=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0", OPENBLAS_CORETYPE="Haswell")
    return e
