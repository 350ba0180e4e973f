"""Build the package under test from /repo's working tree into a private directory.

snapshot() returns a directory to put on PYTHONPATH: a copy of src/python/pycold with an extension
compiled from the current C / Fortran / Cython sources, with the allocator seam linked in."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, concurrent.futures, glob, fcntl, time

REPO = os.environ.get("PYCOLD_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pycold-venv/bin/python"
NPINC = "/opt/pycold-venv/lib/python3.12/site-packages/numpy/core/include"
PYINC = "/usr/include/python3.12"
DEFAULT = ["cold.c", "input.c", "2d_array.c", "utilities.c", "misc.c", "multirobust.c", "output.c",
           "s_ccd.c", "KFAS.c", "lbfgs.c", "distribution_math.c"]
CACHE = os.path.join(VERIF, "build")


def _sources():
    try:
        t = open(os.path.join(REPO, "src/cxx/CMakeLists.txt")).read()
        m = re.search(r"list\(APPEND sccd_sources ([^)]*)\)", t)
        l = re.findall(r'"([^"]+\.c)"', m.group(1))
        if l:
            return l
    except Exception:
        pass
    return DEFAULT


def _digest(variant):
    h = hashlib.sha256(variant.encode())
    files = sorted(glob.glob(REPO + "/src/cxx/*")) + [REPO + "/src/python/pycold/_colds_cython.pyx"] + glob.glob(
        REPO + "/src/python/pycold/*.pxd") + [VERIF + "/native/simalloc.c", os.path.abspath(__file__)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def build_ext(variant="plain"):
    """variant: plain | autozero | autopattern.  Returns the path of the .so"""
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "ext-%s-%s" % (variant, _digest(variant)))
    so = os.path.join(out, "_colds_cython.cpython-312-x86_64-linux-gnu.so")
    with open(os.path.join(CACHE, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            os.utime(out)
            return so
        old = sorted(glob.glob(os.path.join(CACHE, "ext-%s-*" % variant)), key=os.path.getmtime)
        for d in old[:-6]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="b-", dir=CACHE)
        try:
            fp = ["-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]
            flags = ["-O2", "-g", "-DNDEBUG", "-fPIC", "-w", *fp]
            if variant == "autozero":
                flags += ["-ftrivial-auto-var-init=zero"]
            elif variant == "autopattern":
                flags += ["-ftrivial-auto-var-init=pattern"]
            src = os.path.join(tmp, "src"); os.makedirs(src + "/python/pycold")
            shutil.copytree(REPO + "/src/cxx", src + "/cxx")
            shutil.copy(REPO + "/src/python/pycold/_colds_cython.pyx", src + "/python/pycold/")
            cx = src + "/cxx/"; pk = src + "/python/pycold/"
            jobs = []
            objs = []
            for c in _sources():
                o = os.path.join(tmp, c.replace("/", "_") + ".o"); objs.append(o)
                jobs.append(["gcc", *flags, "-c", cx + c, "-o", o])
            gl = os.path.join(tmp, "GLMnet.o")
            fi = {"autozero": ["-finit-local-zero"], "autopattern": ["-finit-integer=-11111", "-finit-real=inf"]}.get(variant, [])
            jobs.append(["gfortran", *fi, *fp, "-g", "-fPIC", "-O2", "-DNDEBUG", "-w", "-J" + tmp, "-c", cx + "GLMnet.f", "-o", gl])
            sa = os.path.join(tmp, "simalloc.o")
            jobs.append(["gcc", "-O2", "-g", "-fPIC", *fp, "-c", VERIF + "/native/simalloc.c", "-o", sa])
            cyc = pk + "_colds_cython.c"; cyo = os.path.join(tmp, "cy.o")

            def cy():
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
                _run([PY, "-m", "cython", pk + "_colds_cython.pyx", "-o", cyc], cwd=pk, env=env)
                _run(["gcc", *flags, "-DNPY_NO_DEPRECATED_API", "-I" + NPINC, "-I" + PYINC, "-I" + pk, "-I" + cx,
                      "-c", cyc, "-o", cyo])
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                fs = [ex.submit(cy)] + [ex.submit(_run, j) for j in jobs]
                for f in fs:
                    f.result()
            # requests inside GSL never fail (GSL aborts on them); the GSL objects the detectors ask for may be refused
            defined, undef = set(), set()
            for l in subprocess.run(["nm", *objs], stdout=subprocess.PIPE, text=True).stdout.splitlines():
                w = l.split()
                if len(w) >= 2:
                    (undef if w[-2] == "U" else defined).add(w[-1])
            ask = sorted(s for s in undef - defined if re.match(r"gsl_\w+_c?alloc$", s))
            gs = os.path.join(tmp, "gslseam.c")
            with open(gs, "w") as f:
                f.write("int simalloc_refuse(void *);\n")
                for s in ask:
                    f.write("void *%s(void *, void *, void *, void *);\nvoid *simgsl_%s(void *a, void *b, void *c, void *d)\n"
                            "{ return simalloc_refuse(__builtin_return_address(0)) ? 0 : %s(a, b, c, d); }\n" % (s, s, s))
            _run(["gcc", "-O2", "-fPIC", *fp, "-c", gs, "-o", gs + ".o"])
            if ask:
                for o in objs:
                    _run(["objcopy", *["--redefine-sym=%s=simgsl_%s" % (s, s) for s in ask], o])
            lib = subprocess.run(["gcc", "-print-file-name=libgsl.a"], stdout=subprocess.PIPE, text=True).stdout.strip()
            ga = os.path.join(tmp, "libgslseam.a")
            _run(["objcopy", *["--redefine-sym=%s=simgslmem_%s" % (s, s) for s in ("malloc", "calloc", "realloc", "free")], lib, ga])
            a = os.path.join(tmp, "libsccd.a"); _run(["ar", "rcs", a, *objs])
            b = os.path.join(tmp, "libglm.a"); _run(["ar", "rcs", b, gl])
            so_t = os.path.join(tmp, os.path.basename(so))
            _run(["gcc", "-shared", "-o", so_t, cyo, sa, a, gs + ".o", "-lz", ga, "-lgslcblas", b, "-lgfortran", "-lm",
                  "-lquadmath", "-lpthread", "-Wl,--unresolved-symbols=ignore-all",
                  "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"])
            os.makedirs(tmp + "/o"); os.rename(so_t, tmp + "/o/" + os.path.basename(so))
            os.rename(tmp + "/o", out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return so


def snapshot(dest, variant="plain"):
    """copy of the package with the freshly built extension at dest/pycold"""
    so = build_ext(variant)
    shutil.copytree(REPO + "/src/python/pycold", dest + "/pycold",
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyc"))
    shutil.copy(so, dest + "/pycold/")
    return dest


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build_ext(v))
