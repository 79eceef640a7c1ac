#!/usr/bin/env python3
"""Runtime monitor of the Python interface (src/fftmpi.py).

The interface is Python 2 source and needs mpi4py and Numpy, none of which exist here. It is executed after a purely
lexical translation of its print and raise statements, with stand-ins for mpi4py and Numpy. Two kinds of cases:

A  every call goes through ctypes and the C ABI into callbacks that have the signatures declared in src/*_wrap.h; the
   monitor compares what arrives there, and what comes back, with what the caller passed and the callback returned
B  real jobs under mpirun with shared libraries built from the tree; results are compared with a direct DFT

protocol on stdout: as the C++ workers (B <i> / E <json> / D <x>)"""
import ctypes, gc, hashlib, json, math, os, random, re, subprocess, sys, tempfile, types

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ translation and stand-ins
def translate(src):
    out = []
    for l in src.split("\n"):
        m = re.match(r"^(\s*(?:[^#'\"]*:\s*)?)print(?!\s*\()\s+(.*)$", l)
        if m:
            l = "%sprint(%s)" % (m.group(1), m.group(2))
        m = re.match(r"^(.*)\braise\s+([A-Za-z_.]+)\s*,\s*(.*)$", l)
        if m:
            l = "%sraise %s(%s)" % (m.group(1), m.group(2), m.group(3))
        out.append(l)
    return "\n".join(out)


class Comm(object):
    def __init__(self, value):
        self.cell = ctypes.c_void_p(value)


class _Ptr(object):
    def __init__(self, a):
        self.a = a

    def data_as(self, t):
        return ctypes.cast(self.a.buf, t)

    @property
    def data(self):
        return ctypes.addressof(self.a.buf)


try:
    import numpy as NUMPY              # the real one where it is installed
except ImportError:
    NUMPY = None


class Array(object):
    """a flat C array; .arg is what the interface is given: a numpy array on it, or this object as stand-in"""
    def __init__(self, ctype, n, init=None):
        self.buf = (ctype * max(1, n))()
        self.n, self.ctype = n, ctype
        for i in range(n):
            self.buf[i] = init[i] if init is not None else -7.25e17
        self.ctypes = _Ptr(self)
        self.arg = NUMPY.frombuffer(self.buf, NUMPY.float32 if ctype is ctypes.c_float else NUMPY.float64, n) if NUMPY else self

    def addr(self):
        return ctypes.addressof(self.buf)


Array.__module__ = "numpy"
Array.__name__ = Array.__qualname__ = "ndarray"


def stand_ins():
    np = types.ModuleType("numpy")
    np.ndarray = Array
    np.float32, np.float64, np.double = ctypes.c_float, ctypes.c_double, ctypes.c_double
    np.zeros = lambda n, t=ctypes.c_double: Array(t, n, [0] * n)
    m = types.ModuleType("mpi4py")
    mm = types.ModuleType("mpi4py.MPI")
    mm._sizeof = lambda c: ctypes.sizeof(ctypes.c_void_p)
    mm._addressof = lambda c: ctypes.addressof(c.cell)
    m.MPI = mm
    sys.modules.update({"mpi4py": m, "mpi4py.MPI": mm})
    if not NUMPY:
        sys.modules["numpy"] = np
    return mm


class FuncPtr(ctypes._CFuncPtr):
    _flags_ = 0x1                      # FUNCFLAG_CDECL, as ctypes.CDLL uses
    _restype_ = ctypes.c_int


class Func(object):
    """a function of the loaded library: Python 2 strings become C strings"""
    def __init__(self, ptr):
        object.__setattr__(self, "ptr", ptr)

    def __setattr__(self, k, v):
        setattr(self.ptr, k, v)

    def __getattr__(self, k):
        return getattr(self.ptr, k)

    def __call__(self, *a):
        r = self.ptr(*[x.encode() if isinstance(x, str) else x for x in a])
        return r.decode() if isinstance(r, bytes) else r


def load(path, cdll):
    import ctypes as c
    real = c.CDLL
    c.CDLL = cdll
    mod = types.ModuleType("fftmpi")
    try:
        exec(compile(translate(open(path).read()), path, "exec"), mod.__dict__)
    finally:
        c.CDLL = real
    return mod


# ------------------------------------------------------------------ part A: callbacks with the C signatures
# the documented C interface, for declarations that are written in a form the monitor does not read
DECLARED = """
void fft2d_create(MPI_Comm, int, void **);
void fft2d_create_fortran(MPI_Fint, int, void **);
void fft2d_destroy(void *);
void fft2d_set(void *, const char *, int);
int fft2d_get_int(void *, const char *);
double fft2d_get_double(void *, const char *);
int64_t fft2d_get_int64(void *, const char *);
char *fft2d_get_string(void *, const char *, int *);
int *fft2d_get_int_vector(void *, const char *, int *);
double *fft2d_get_double_vector(void *, const char *, int *);
void fft2d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *);
void fft2d_setup_fortran(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *);
void fft2d_setup_memory(void *, FFT_SCALAR *, FFT_SCALAR *);
void fft2d_compute(void *, FFT_SCALAR *, FFT_SCALAR *, int);
void fft2d_only_1d_ffts(void *, FFT_SCALAR *, int);
void fft2d_only_remaps(void *, FFT_SCALAR *, FFT_SCALAR *, int);
void fft2d_only_one_remap(void *, FFT_SCALAR *, FFT_SCALAR *, int, int);
void fft2d_tune(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *, int, int, double, int);
void fft2d_tune_fortran(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *, int, int, double, int);
void fft3d_create(MPI_Comm, int, void **);
void fft3d_create_fortran(MPI_Fint, int, void **);
void fft3d_destroy(void *);
void fft3d_set(void *, const char *, int);
int fft3d_get_int(void *, const char *);
double fft3d_get_double(void *, const char *);
int64_t fft3d_get_int64(void *, const char *);
char *fft3d_get_string(void *, const char *, int *);
int *fft3d_get_int_vector(void *, const char *, int *);
double *fft3d_get_double_vector(void *, const char *, int *);
void fft3d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *);
void fft3d_setup_fortran(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *);
void fft3d_setup_memory(void *, FFT_SCALAR *, FFT_SCALAR *);
void fft3d_compute(void *, FFT_SCALAR *, FFT_SCALAR *, int);
void fft3d_only_1d_ffts(void *, FFT_SCALAR *, int);
void fft3d_only_remaps(void *, FFT_SCALAR *, FFT_SCALAR *, int);
void fft3d_only_one_remap(void *, FFT_SCALAR *, FFT_SCALAR *, int, int);
void fft3d_tune(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *, int, int, double, int);
void fft3d_tune_fortran(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *, int *, int, int, double, int);
void remap2d_create(MPI_Comm, void **);
void remap2d_create_fortran(MPI_Fint, void **);
void remap2d_destroy(void *);
void remap2d_set(void *, char *, int);
void remap2d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *);
void remap2d_setup_fortran(void *, int, int, int, int, int, int, int, int, int, int, int, int *, int *);
void remap2d_remap(void *, FFT_SCALAR *, FFT_SCALAR *, FFT_SCALAR *, FFT_SCALAR *);
void remap3d_create(MPI_Comm, void **);
void remap3d_create_fortran(MPI_Fint, void **);
void remap3d_destroy(void *);
void remap3d_set(void *, char *, int);
void remap3d_setup(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *);
void remap3d_setup_fortran(void *, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int *, int *);
void remap3d_remap(void *, FFT_SCALAR *, FFT_SCALAR *, FFT_SCALAR *, FFT_SCALAR *);
"""


def prototypes(srcdir, scalar):
    """{name: (restype, [argtypes])} from the C headers"""
    T = {"void*": ctypes.c_void_p, "void**": ctypes.POINTER(ctypes.c_void_p), "int": ctypes.c_int, "double": ctypes.c_double, "int64_t": ctypes.c_int64,
         "char*": ctypes.c_char_p, "int*": ctypes.POINTER(ctypes.c_int), "double*": ctypes.POINTER(ctypes.c_double), "FFT_SCALAR*": ctypes.POINTER(scalar),
         "MPI_Comm": ctypes.c_void_p, "MPI_Fint": ctypes.c_int, "void": None}
    out = {}
    for f in [None] + sorted(os.listdir(srcdir)):
        if f and not f.endswith("_wrap.h"):
            continue
        s = re.sub(r"/\*.*?\*/|//[^\n]*|^\s*#[^\n]*", "", open(os.path.join(srcdir, f)).read() if f else DECLARED, flags=re.S | re.M)
        for m in re.finditer(r"([A-Za-z_0-9]+(?:\s*\*)?)\s*\b([a-z0-9_]+)\s*\(([^()]*)\)\s*;", s):
            def ty(t):
                t = re.sub(r"\b(const|struct|register)\b", "", t).strip()
                mm = re.match(r"^([A-Za-z_0-9]+)\s*((?:\*\s*)*)", t)
                return T[mm.group(1) + mm.group(2).replace(" ", "")]
            try:
                args = [ty(a) for a in m.group(3).split(",")] if m.group(3).strip() not in ("", "void") else []
                out[m.group(2)] = (ty(m.group(1)), args)
            except KeyError:
                continue
    return out


class Recorder(object):
    """library whose functions are callbacks; remembers the last call and answers with prepared values"""
    def __init__(self, protos, rng):
        self.calls, self.keep, self.rng, self.fn = [], [], rng, {}
        self.handle = 0
        self.answers = {}
        for name, (res, args) in protos.items():
            # a callback returning a pointer type is not possible in ctypes: use void*
            rt = ctypes.c_void_p if res is not None and (res is ctypes.c_char_p or hasattr(res, "contents")) else res
            proto = ctypes.CFUNCTYPE(rt, *[ctypes.c_void_p if t is ctypes.c_char_p else t for t in args])
            cb = proto(self.make(name, res, args))
            self.keep.append(cb)
            self.fn[name] = ctypes.cast(cb, ctypes.c_void_p).value

    def make(self, name, res, args):
        def f(*a):
            v = []
            for t, x in zip(args, a):
                if t is ctypes.c_char_p:
                    v.append(ctypes.string_at(x).decode() if x else None)
                elif hasattr(t, "contents"):
                    v.append(ctypes.cast(x, ctypes.c_void_p).value)
                else:
                    v.append(x)
            ans = self.answers.get(name, {})
            for k, val in ans.get("out", {}).items():
                if k < len(a) and a[k]:
                    a[k][0] = val
            self.calls.append((name, v))
            if res is None:
                return None
            return ans.get("ret", 0)
        return f

    def library(self, *a, **k):
        self.opened = a[0] if a else None
        return RecLib(self)


class RecLib(object):
    def __init__(self, rec):
        object.__setattr__(self, "_rec", rec)
        object.__setattr__(self, "_f", {})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = self._f.get(name)
        if f is None:
            if name not in self._rec.fn:
                raise AttributeError("undefined symbol: " + name)
            f = self._f[name] = Func(FuncPtr(self._rec.fn[name]))
        return f


FFT_METHODS = ["set", "get_int", "get_int64", "get_double", "get_string", "get_int_vector", "get_double_vector", "setup", "setup_memory",
               "compute", "only_1d_ffts", "only_remaps", "only_one_remap", "tune"]
REMAP_METHODS = ["set", "setup", "remap"]
KEYS = ["collective", "exchange", "pack", "memory", "scale", "remaponly", "npfast1", "memusage", "tfft", "cflags", "x", "fft1d"]


def case_A(mod, rec, protos, rng, prec, scalar, V):
    """one object, a random sequence of method calls"""
    cls = rng.choice(["FFT3dMPI", "FFT2dMPI", "Remap3dMPI", "Remap2dMPI"])
    dim, isfft = (3 if "3d" in cls else 2), cls.startswith("FFT")
    pre = ("fft%dd_" if isfft else "remap%dd_") % dim
    bad = lambda d: V.append(["pyiface", "%s(precision %d): %s" % (cls, prec, d), -1])
    ops = 0
    handle = rng.randrange(1, 1 << 46)
    comm = Comm(rng.randrange(1, 1 << 46))
    rec.calls.clear()
    rec.answers = {pre + "create": {"out": {len(protos[pre + "create"][1]) - 1: handle}}}
    try:
        o = getattr(mod, cls)(comm, prec)
    except Exception as e:
        bad("creation failed: %s: %s" % (type(e).__name__, e))
        return ops
    n = len(protos[pre + "create"][1])
    if len(rec.calls) != 1 or rec.calls[0][0] != pre + "create" or rec.calls[0][1][0] != comm.cell.value or (n == 3 and rec.calls[0][1][1] != prec):
        bad("creation did not hand communicator and precision to %screate: %s" % (pre, rec.calls))
        return ops
    methods = FFT_METHODS if isfft else REMAP_METHODS
    arr = lambda: Array(scalar, rng.randrange(1, 9))
    for _ in range(rng.randrange(1, 9)):
        m = rng.choice(methods)
        key = rng.choice(KEYS)
        i = lambda: rng.randrange(-1 << 31, 1 << 31)
        keep, want_ret, args, expect = [], None, [], None
        ans = {}
        if m == "set":
            args = [key, i()]
            expect = [handle] + args
        elif m.startswith("get_"):
            args = [key]
            expect = [handle, key]
            if m == "get_int":
                want_ret = ans["ret"] = i()
            elif m == "get_int64":
                want_ret = ans["ret"] = rng.randrange(-1 << 62, 1 << 62)
            elif m == "get_double":
                want_ret = ans["ret"] = rng.choice([rng.random() * 1e3, -1.5e300, 1e-300, 0.25])
            else:
                ln = rng.randrange(1, 14)
                null = rng.randrange(6) == 0
                if m == "get_string":
                    want_ret = "".join(rng.choice("abcXYZ 059") for _ in range(ln))
                    b = ctypes.create_string_buffer(want_ret.encode())
                elif m == "get_int_vector":
                    want_ret = [i() for _ in range(ln)]
                    b = (ctypes.c_int * ln)(*want_ret)
                else:
                    want_ret = [rng.random() for _ in range(ln)]
                    b = (ctypes.c_double * ln)(*want_ret)
                keep.append(b)
                ans["ret"] = 0 if null else ctypes.addressof(b)
                ans["out"] = {2: 0 if null else ln}
                if null:
                    want_ret = None
                expect.append("ANY")
        elif m in ("setup", "tune"):
            nint = (2 * dim * 2 + dim + 1) if isfft else (4 * dim + 3)
            args = [i() for _ in range(nint)]
            nout = 3 if isfft else 2
            outs = [i() for _ in range(nout)]
            want_ret = outs
            ans["out"] = {1 + nint + k: outs[k] for k in range(nout)}
            expect = [handle] + args + ["ANY"] * nout
            if m == "tune":
                t = [rng.randrange(-1, 2), rng.randrange(1, 1000), rng.choice([0.0, 1e-3, 12.5, 1e9]), rng.randrange(2)]
                args = args + t
                expect += t
        else:
            na = {"setup_memory": 2, "compute": 2, "only_1d_ffts": 1, "only_remaps": 2, "only_one_remap": 2, "remap": 4}[m]
            arrs = [arr() for _ in range(na)]
            if na == 2 and rng.randrange(3) == 0:
                arrs[1] = arrs[0]
            tail = {"setup_memory": 0, "compute": 1, "only_1d_ffts": 1, "only_remaps": 1, "only_one_remap": 2, "remap": 0}[m]
            t = [rng.choice([1, -1]), rng.randrange(1, 5)][:tail]
            args = [x.arg for x in arrs] + t
            expect = [handle] + [x.addr() for x in arrs] + t
            keep += arrs
        rec.answers = {pre + m: ans}
        rec.calls.clear()
        try:
            r = getattr(o, m)(*args)
        except (Exception, SystemExit) as e:
            bad("%s failed: %s: %s" % (m, type(e).__name__, e))
            return ops
        ops += 1
        if len(rec.calls) != 1 or rec.calls[0][0] != pre + m:
            bad("%s led to calls %s" % (m, [c[0] for c in rec.calls]))
            return ops
        got = rec.calls[0][1]
        if len(got) != len(expect) or any(w != "ANY" and g != w for g, w in zip(got, expect)):
            bad("%s%r arrived in C as %r, expected %r" % (m, tuple(a if isinstance(a, (int, float, str)) else "array" for a in args), got, expect))
            return ops
        if m in ("setup", "tune"):
            if list(r) != want_ret:
                bad("%s returned %r instead of %r" % (m, r, want_ret))
                return ops
        elif m.startswith("get_"):
            if (r != want_ret) or (want_ret is not None and isinstance(want_ret, list) and len(r) != len(want_ret)):
                bad("%s returned %r instead of %r" % (m, r, want_ret))
                return ops
    # plain Python data is refused instead of being misread
    if rng.randrange(3) == 0:
        m = rng.choice(["compute", "only_1d_ffts", "only_remaps", "only_one_remap", "setup_memory"]) if isfft else "remap"
        n = {"setup_memory": 2, "compute": 2, "only_1d_ffts": 1, "only_remaps": 2, "only_one_remap": 2, "remap": 4}[m]
        keep = [arr() for _ in range(n)]
        args = [x.arg for x in keep]
        args[rng.randrange(n)] = [0.0, 1.0]
        args += {"compute": [1], "only_1d_ffts": [1], "only_remaps": [1], "only_one_remap": [1, 1]}.get(m, [])
        rec.calls.clear()
        try:
            getattr(o, m)(*args)
            if rec.calls:
                bad("%s accepted a Python list as data" % m)
        except (SystemExit, Exception):
            pass
        ops += 1
    # destroyed exactly once, whichever way it ends
    rec.calls.clear()
    if rng.randrange(2):
        o.destroy()
    del o
    gc.collect()
    d = [c for c in rec.calls if c[0] == pre + "destroy"]
    if len(d) != 1 or d[0][1][0] != handle or len(rec.calls) != 1:
        bad("object was destroyed %d times: %s" % (len(d), rec.calls))
    return ops + 1


# ------------------------------------------------------------------ part B: one rank of a real job
def tiles(rng, n, P, dim):
    """recursive bisection into P boxes"""
    def cut(b, p):
        if p == 1:
            return [b]
        ds = [d for d in range(dim) if b[d][1] > b[d][0]]
        if not ds or rng.randrange(8) == 0:
            e = [list(x) for x in b]
            e[0] = [b[0][0], b[0][0] - 1]
            return cut(b, p - 1) + [e]
        d = rng.choice(ds)
        at = rng.randrange(b[d][0], b[d][1])
        x, y = [list(q) for q in b], [list(q) for q in b]
        x[d][1], y[d][0] = at, at + 1
        l = rng.randrange(1, p)
        return cut(x, l) + cut(y, p - l)
    t = cut([[0, n[d] - 1] if d < dim else [0, 0] for d in range(3)], P)
    rng.shuffle(t)
    return t


def size(b):
    s = 1
    for lo, hi in b:
        s *= max(0, hi - lo + 1)
    return s


def points(b, perm, dim):
    """grid points of a tile in storage order"""
    order = {3: [(0, 1, 2), (1, 2, 0), (2, 0, 1)], 2: [(0, 1, 2), (1, 0, 2)]}[dim][perm]
    p = [0, 0, 0]
    o = []
    for c in range(b[order[2]][0], b[order[2]][1] + 1):
        for bb in range(b[order[1]][0], b[order[1]][1] + 1):
            for a in range(b[order[0]][0], b[order[0]][1] + 1):
                p[order[0]], p[order[1]], p[order[2]] = a, bb, c
                o.append(tuple(p))
    return o


def dft(n, f, sign):
    import cmath
    f = dict(f)
    for d in range(3):
        if n[d] == 1:
            continue
        w = [cmath.exp(sign * 2j * math.pi * k / n[d]) for k in range(n[d])]
        g = {}
        for p in f:
            if p[d]:
                continue
            q = list(p)
            line = []
            for x in range(n[d]):
                q[d] = x
                line.append(f[tuple(q)])
            for k in range(n[d]):
                q[d] = k
                g[tuple(q)] = sum(line[x] * w[x * k % n[d]] for x in range(n[d]))
        f = g
    return f


def rank_main(path, libdir, prec, seed, count):
    scalar = ctypes.c_float if prec == 1 else ctypes.c_double
    mpi = ctypes.CDLL("libmpi.so.40", ctypes.RTLD_GLOBAL) if os.path.exists("/usr/lib/x86_64-linux-gnu/libmpi.so.40") else ctypes.CDLL("libmpi.so", ctypes.RTLD_GLOBAL)
    mpi.MPI_Init(None, None)
    world = ctypes.addressof(ctypes.c_char.in_dll(mpi, "ompi_mpi_comm_world"))
    me, P = ctypes.c_int(), ctypes.c_int()
    mpi.MPI_Comm_rank(ctypes.c_void_p(world), ctypes.byref(me))
    mpi.MPI_Comm_size(ctypes.c_void_p(world), ctypes.byref(P))
    me, P = me.value, P.value
    stand_ins()
    libs = {}

    class Lib(object):
        def __init__(self, name, *a):
            self.l = ctypes.CDLL(os.path.join(libdir, os.path.basename(name)), ctypes.RTLD_GLOBAL)
            self.f = {}

        def __getattr__(self, k):
            if k in ("l", "f") or k.startswith("__"):
                raise AttributeError(k)
            if k not in self.f:
                self.f[k] = Func(getattr(self.l, k))
            return self.f[k]
    mod = load(path, Lib)
    rng = random.Random(seed)
    bad, nv = [], 0
    tol = 1e-4 if prec == 1 else 1e-11
    for c in range(count):
        dim = rng.choice([2, 3])
        n = [rng.choice([2, 3, 4, 5, 6]) for _ in range(dim)] + [1] * (3 - dim)
        tin, tout = tiles(rng, n, P, dim), tiles(rng, n, P, dim)
        perm = rng.randrange(dim)
        flat = lambda b: [v for d in range(dim) for v in b[d]]
        bi, bo = tin[me], tout[me]
        coll, exch, pack, mem = rng.randrange(3), rng.randrange(2), rng.randrange(3), rng.randrange(2)
        if rng.randrange(3) == 0:               # remap
            nq = rng.choice([1, 2, 3])
            o = getattr(mod, "Remap%ddMPI" % dim)(Comm(world), prec)
            o.set("collective", coll % 2)
            o.set("pack", pack)
            ss, rs = o.setup(*(flat(bi) + flat(bo) + [nq, perm, mem]))
            src = [float(((p[2] * n[1] + p[1]) * n[0] + p[0]) * nq + q + 1) for p in points(bi, 0, dim) for q in range(nq)]
            A, B = Array(scalar, len(src), src), Array(scalar, size(bo) * nq)
            sb, rb = Array(scalar, ss), Array(scalar, rs)
            o.remap(A.arg, B.arg, sb.arg, rb.arg)
            want = [float(((p[2] * n[1] + p[1]) * n[0] + p[0]) * nq + q + 1) for p in points(bo, perm, dim) for q in range(nq)]
            got = [B.buf[k] for k in range(B.n)]
            nv += len(want)
            if got != want:
                bad.append("remap of case %d gives wrong values on rank %d" % (c, me))
            o.destroy()
            del o
            continue
        o = getattr(mod, "FFT%ddMPI" % dim)(Comm(world), prec)
        for k, v in (("collective", coll), ("exchange", exch), ("pack", pack), ("memory", mem)):
            o.set(k, v)
        scale = rng.randrange(2)
        o.set("scale", scale)
        a = n[:dim] + flat(bi) + flat(bo) + [perm]
        if rng.randrange(4) == 0:
            fs, ss, rs = o.tune(*(a + [rng.randrange(-1, 2), 1, 0.0, rng.randrange(2)]))
            if len(o.get_int_vector("cflags")) != o.get_int("ntrial") or len(o.get_double_vector("tfft")) != o.get_int("ntrial"):
                bad.append("vectors of tuning results do not have ntrial elements")
        else:
            fs, ss, rs = o.setup(*a)
            if [o.get_int(k) for k in ("collective", "exchange", "pack")] != [coll, exch, pack]:
                bad.append("settings read back differ")
        bufs = (Array(scalar, ss), Array(scalar, rs))
        if not mem:
            o.setup_memory(*[x.arg for x in bufs])
        if o.get_string("precision") != ("single" if prec == 1 else "double") or o.get_int64("memusage") < 0:
            bad.append("precision or memory usage reported wrongly")
        fr = random.Random(seed * 1000 + c)
        f = {(x, y, z): complex(fr.uniform(-1, 1), fr.uniform(-1, 1)) for z in range(n[2]) for y in range(n[1]) for x in range(n[0])}
        A, B = Array(scalar, 2 * fs), Array(scalar, 2 * fs)
        for k, p in enumerate(points(bi, 0, dim)):
            A.buf[2 * k], A.buf[2 * k + 1] = f[p].real, f[p].imag
        o.compute(A.arg, B.arg, 1)
        F = dft(n, f, -1)
        N = float(n[0] * n[1] * n[2])
        for k, p in enumerate(points(bo, perm, dim)):
            nv += 1
            if not abs(complex(B.buf[2 * k], B.buf[2 * k + 1]) - F[p]) <= tol * N:
                bad.append("forward transform of case %d wrong at %s on rank %d" % (c, p, me))
                break
        o.compute(B.arg, B.arg, -1)
        for k, p in enumerate(points(bi, 0, dim)):
            nv += 1
            if not abs(complex(B.buf[2 * k], B.buf[2 * k + 1]) - f[p] * (1 if scale else N)) <= tol * N * (1 if scale else N):
                bad.append("round trip of case %d wrong at %s on rank %d" % (c, p, me))
                break
        o.only_remaps(A.arg, B.arg, 1)
        for k, p in enumerate(points(bo, perm, dim)):
            nv += 1
            if (B.buf[2 * k], B.buf[2 * k + 1]) != (scalar(f[p].real).value, scalar(f[p].imag).value):
                bad.append("only_remaps of case %d wrong at %s on rank %d" % (c, p, me))
                break
        o.only_1d_ffts(B.arg, 1)
        o.only_one_remap(A.arg, B.arg, 1, 1)
        if rng.randrange(2):
            o.destroy()
        del o
    sys.stdout.write("RANK %s\n" % json.dumps(dict(bad=bad[:5], values=nv, sessions=count)))
    sys.stdout.flush()
    mpi.MPI_Finalize()


MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
              OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1")


def case_B(path, libdir, prec, rng, V, count):
    P = rng.randrange(1, 5)
    with tempfile.TemporaryDirectory() as T:
        env = dict(os.environ, HOME=T, TMPDIR=T, OMPI_MCA_btl_vader_backing_directory=T, OMPI_MCA_orte_tmpdir_base=T, **MPIENV)
        env.pop("LD_PRELOAD", None)
        job, failed = str(rng.randrange(1 << 30)), []
        for attempt in range(3):
            try:
                p = subprocess.run(["mpirun", "-np", str(P), sys.executable, os.path.abspath(__file__), "--rank", path, libdir, str(prec), job, str(count)],
                                   env=env, cwd=T, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
                out, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired:
                return P, 0, False
            ranks = [json.loads(m) for m in re.findall(r"^RANK (\{.*\})$", out, flags=re.M)]
            bad = [b for r in ranks for b in r["bad"]]
            if rc == 0 and len(ranks) == P and not bad:
                return P, sum(r["values"] for r in ranks), True
            # an error inside a rank counts, when it comes again; a launcher that does not come up does not
            tb = re.findall(r"^\w*(?:Error|Exception)[^\n]*", out, flags=re.M)
            if bad or tb or re.search(r"^ERROR: |exited on signal|Segmentation fault", out, flags=re.M):
                failed.append(bad[0] if bad else "failed (status %d): %s" % (rc, (tb[0] if tb else out[-300:]).replace("\n", " ")))
                if len(failed) == 2:
                    V.append(["pyiface", "job on %d ranks, precision %d: %s" % (P, prec, failed[0]), -1])
                    return P, 0, True
        return P, 0, False


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    srcdir = a["--src"]
    path = os.path.join(srcdir, "fftmpi.py")
    seed, frm, to = int(a["--seed"]), int(a["--from"]), int(a["--to"])
    if "--case" in a:
        frm, to = int(a["--case"]), int(a["--case"]) + 1
    libs = {1: os.path.abspath(a.get("--libs1", "")), 2: os.path.abspath(a.get("--libs2", ""))}
    proto = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = os.fdopen(os.dup(dn), "w")
    sys.unraisablehook = lambda *x: None
    stand_ins()
    world = {}
    for prec, scalar in ((1, ctypes.c_float), (2, ctypes.c_double)):
        protos = prototypes(srcdir, scalar)
        rec = Recorder(protos, None)
        try:
            mod = load(path, rec.library)
        except SyntaxError as e:
            sys.stderr.write("harness: cannot translate the Python interface: %s\n" % e)
            os._exit(98)
        world[prec] = (mod, rec, protos, scalar)
    for i in range(frm, to):
        proto.write("B %d\n" % i)
        proto.flush()
        rng = random.Random("%d/%d" % (seed, i))
        V, prec = [], rng.choice([1, 2])
        partB = "--libs1" in a and i % 100 < int(a.get("--real", "0"))
        P, vals, ops, notes = 1, 0, 0, {}
        if partB:
            P, vals, ran = case_B(path, libs[prec], prec, rng, V, 12)
            notes = {"real_jobs": 1, "real_sessions": 12 * ran, "launcher_failures": int(not ran)}
            text = "mpirun job on %d ranks, precision %d" % (P, prec)
        else:
            mod, rec, protos, scalar = world[prec]
            for _ in range(20):
                ops += case_A(mod, rec, protos, rng, prec, scalar, V)
                if V:
                    break
            notes = {"method_calls": ops}
            text = "20 objects, %d method calls, precision %d" % (ops, prec)
        e = dict(i=i, sig=hashlib.md5(("%d/%d" % (seed, i)).encode()).hexdigest()[:16], nt=1, runs=1, steps=0, switches=0, messages=0, colls=0, bytes=0, blocked=0, any=0, preempts=0,
                 values=vals, exact=ops, ops=ops, P=P, tag="real job" if partB else "calls", sched=[], notes=notes, calls={}, v=V, text=text)
        proto.write("E %s\n" % json.dumps(e))
        proto.flush()
    proto.write("D 0.0\n")
    proto.flush()
    os._exit(0)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--rank"]:
        sys.unraisablehook = lambda *x: None
        rank_main(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]))
    else:
        main()
