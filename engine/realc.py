"""The compiled library, built from /repo's current sources in a scratch directory."""
import ctypes, hashlib, os, subprocess, shutil, re
import cfront
HERE = os.path.dirname(os.path.abspath(__file__))

def build(opt="-O2", extra=(), tag="lib"):
    src = cfront.SRC
    h = hashlib.sha256((opt + " ".join(extra)).encode())
    for f in sorted(os.listdir(src)):
        if f.endswith((".c", ".h")): h.update(f.encode()); h.update(open(os.path.join(src, f), "rb").read())
    stub = os.path.join(HERE, "native", "stub.c")
    h.update(open(stub, "rb").read())
    d = os.path.join(os.environ.get("VERIF_CACHE", "/tmp/verif_cache_%d" % os.getuid()), "%s_%s" % (tag, h.hexdigest()[:20]))
    so = os.path.join(d, "regpt.so")
    if os.path.exists(so): return so
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    procs = []
    for f in cfront.makefile_sources():
        txt = open(os.path.join(src, f)).read()
        txt = re.sub(r'^[ \t]*#include[ \t]*"cuba\.h".*$', '', txt, flags=re.M)
        txt = re.sub(r'^([ \t]*)cuba(accel|cores)\([^()]*\);', r'\1', txt, flags=re.M)
        p = os.path.join(tmp, f)
        open(p, "w").write('#line 1 "%s"\n' % os.path.join(src, f) + txt)
        procs.append((f, subprocess.Popen(["gcc", "-w", "-std=gnu11", "-fopenmp", opt, "-fPIC", "-iquote", src] + list(extra) +
                                          ["-c", p, "-o", p[:-2] + ".o"], stderr=subprocess.PIPE)))
    objs = []
    for f, p in procs:
        _, e = p.communicate()
        if p.returncode: raise RuntimeError("compilation of %s failed: %s" % (f, e.decode()[-1500:]))
        objs.append(os.path.join(tmp, f[:-2] + ".o"))
    subprocess.run(["gcc", "-w", "-fPIC", opt, "-c", stub, "-o", os.path.join(tmp, "stub.o")], check=True)
    subprocess.run(["gcc", "-shared", "-fopenmp", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"] + list(extra) + objs + [os.path.join(tmp, "stub.o"), "-lm", "-o",
                    os.path.join(tmp, "regpt.so")], check=True)
    for f in os.listdir(tmp):
        if f != "regpt.so": os.unlink(os.path.join(tmp, f))
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return so

class CPk(ctypes.Structure):
    _fields_ = [("nk", ctypes.c_size_t), ("k", ctypes.c_void_p), ("pk", ctypes.c_void_p)]
