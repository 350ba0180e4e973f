"""Makes chosen memory requests of the detector library fail (helper of the demonstrations)."""
import ctypes, os, shutil, subprocess, sys, tempfile
SRC = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static char *lo, *hi; static long seen, fail_at = -1;
void demo_range(char *a, char *b) { lo = a; hi = b; }
void demo_arm(long n) { seen = 0; fail_at = n; }
long demo_seen(void) { fail_at = -1; return seen; }
static int hit(char *ra) { if (fail_at < 0 || ra < lo || ra >= hi) return 0; return ++seen == fail_at; }
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t n) { if (hit(__builtin_return_address(0))) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t m, size_t n) { if (hit(__builtin_return_address(0))) { errno = ENOMEM; return 0; } return __libc_calloc(m, n); }
void *realloc(void *p, size_t n) { if (hit(__builtin_return_address(0))) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
'''
if "DEMO_ALLOC" not in os.environ:
    T = tempfile.mkdtemp(prefix="demo-")
    open(T + "/a.c", "w").write(SRC)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", T + "/a.so", T + "/a.c", "-ldl"], check=True)
    r = subprocess.run([sys.executable] + sys.argv, env=dict(os.environ, DEMO_ALLOC=T + "/a.so", LD_PRELOAD=T + "/a.so")).returncode
    shutil.rmtree(T, ignore_errors=True)
    sys.exit(1 if r else 0)
from demo_pix import *
LIB = ctypes.CDLL(os.environ["DEMO_ALLOC"])
import pycold._colds_cython as so
R = [l.split()[0].split("-") for l in open("/proc/self/maps") if l.rstrip().endswith(os.path.basename(so.__file__))]
LIB.demo_range(ctypes.c_void_p(int(R[0][0], 16)), ctypes.c_void_p(int(R[-1][1], 16)))


def sweep(f, limit=3000):
    """f() with the n-th memory request failing, n = 1, 2, ...; -> [(n, outcome)]; outcome: result of call() or 'killed'"""
    out = []
    for n in range(1, limit):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if not pid:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1), os.dup2(null, 2)
            os.close(r)
            import pickle
            LIB.demo_arm(ctypes.c_long(n))
            x = call(f)
            s = LIB.demo_seen()
            b = pickle.dumps((x, s))
            while b:
                b = b[os.write(w, b):]
            os._exit(0)
        os.close(w)
        import pickle
        b = b""
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            b += c
        os.close(r)
        os.waitpid(pid, 0)
        if not b:
            out.append((n, "killed"))
            continue
        x, s = pickle.loads(b)
        if s < n:
            break
        out.append((n, x))
    return out


def reported(f, limit=3000):
    """every failing request gives an error that says so, or the undisturbed result"""
    good = call(f)
    for n, x in sweep(f, limit):
        check(x != "killed", "the process dies when memory request %d fails" % n)
        check(x == good or (x[0] == "error" and x[1] in ("RuntimeError", "MemoryError")), "memory request %d fails, outcome %s" % (n, str(x)[:200]))
