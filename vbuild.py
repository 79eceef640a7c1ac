"""Builds the monitored workers from /repo's current working tree (content-addressed cache)."""
import hashlib, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

SAN_GCC = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute,pointer-overflow,vptr",
           "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
WRAPS = ["exit", "_exit", "abort", "quick_exit", "posix_memalign", "malloc", "realloc", "calloc", "aligned_alloc", "free",
         "fftw_execute_dft", "fftwf_execute_dft"]

# name -> (compiler, fft, precision, library flags, link libs, sanitized)
CONFIGS = {
    "kd": dict(cxx="g++", fft="KISS", single=False, lib=["-O1", "-g"] + SAN_GCC, libs=[], san=True),
    "ks": dict(cxx="g++", fft="KISS", single=True, lib=["-O1", "-g"] + SAN_GCC, libs=[], san=True),
    "fd": dict(cxx="g++", fft="FFTW3", single=False, lib=["-O1", "-g"] + SAN_GCC, libs=["-lfftw3"], san=True),
    "fs": dict(cxx="g++", fft="FFTW3", single=True, lib=["-O1", "-g"] + SAN_GCC, libs=["-lfftw3f"], san=True),
    # as shipped: optimised, no sanitizer (also the build valgrind runs)
    "po": dict(cxx="g++", fft="KISS", single=False, lib=["-O3", "-g"], libs=[], san=False),
    "ps": dict(cxx="g++", fft="KISS", single=True, lib=["-O3", "-g"], libs=[], san=False),
    # second compiler
    "cd": dict(cxx="clang++", fft="KISS", single=False,
               lib=["-O2", "-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute,pointer-overflow,vptr,function",
                    "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-Wno-register"], libs=[], san=True),
    # the branches for 1d FFT packages that are not installed, over stand-ins (standin/)
    "w2": dict(cxx="g++", fft="FFTW2", single=False, lib=["-O1", "-g"] + SAN_GCC, libs=[], san=True),
    "mk": dict(cxx="g++", fft="MKL", single=True, lib=["-O1", "-g"] + SAN_GCC, libs=[], san=True),
}


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, "/").encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def listdir(d, exts):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(exts)]


def gather_statics(obj):
    """move the mutable static data of a library object (if it has any) into section libvar: see fakempi.cpp globals_of"""
    syms = [l.split() for l in run(["nm", obj]).splitlines()]
    if not any(x[-2] in "bBdDuVC" and not x[-1].startswith((".L", "__odr_asan", "DW.ref.")) and "asan" not in x[-1] for x in syms if len(x) >= 2):
        return
    secs = []
    for l in run(["objdump", "-h", "-w", obj]).splitlines():
        f = l.split()
        if len(f) > 6 and f[0].isdigit() and (f[1] in (".data", ".bss") or f[1].startswith((".data.", ".bss."))) and not f[1].startswith(".data.rel.ro") and int(f[2], 16):
            secs += ["--rename-section", "%s=libvar,alloc,load,data,contents" % f[1]]
    if secs:
        run(["objcopy"] + secs + [obj])


def _obj(src, flags, cxx, key, name):
    """compile one object into the cache"""
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + "-" + name + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run([cxx] + flags + ["-c", src, "-o", tmp])
        if name.startswith("lib-"):
            gather_statics(tmp)
        os.rename(tmp, out)
    os.utime(out)
    return out


def build(names, fortran=False, jobs=8):
    """returns {config: worker path}"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(REPO, "src")
    libsrc = listdir(src, (".cpp",))
    libhdr = listdir(src, (".h", ".hpp", ".hh", ".inc", ".tpp", ".ipp", ".c"))
    fmdir, hdir = os.path.join(VERIF, "fakempi"), os.path.join(VERIF, "harness")
    fmsrc, fmhdr = os.path.join(fmdir, "fakempi.cpp"), listdir(fmdir, (".h",))
    hsrc, hhdr = listdir(hdir, (".cpp",)), listdir(hdir, (".h",))
    f90 = listdir(src, (".f90",))
    shim = os.path.join(hdir, "gen_f90.py")
    jobsl, res = [], {}
    with ThreadPoolExecutor(jobs) as ex:
        futs = {}
        fobj = {}

        def submit(s, flags, cxx, deps, name):
            key = hash_files([s] + deps, "v2 " + cxx + " " + " ".join(flags))
            k = (key, name)
            if k not in futs:
                futs[k] = ex.submit(_obj, s, flags, cxx, key, name)
            return futs[k]

        for c in names:
            cf = CONFIGS[c]
            inc = ["-I" + fmdir, "-I" + src]
            sdir, shdr = os.path.join(VERIF, "standin"), []
            if cf["fft"] in ("FFTW2", "MKL"):
                inc.append("-I" + sdir)
                shdr = listdir(sdir, (".h",))
            prec = ["-DFFT_SINGLE"] if cf["single"] else ["-DFFT_DOUBLE"]
            libdef = ["-DFFT_MEMALIGN=64", "-DFFT_" + cf["fft"]] + prec
            l = []
            std = ["-std=gnu++14"] if cf["cxx"] == "clang++" else []
            for s in libsrc:
                l.append(submit(s, std + cf["lib"] + libdef + inc, cf["cxx"], libhdr + fmhdr + shdr, "lib-" + os.path.basename(s)))
            sanflags = [f for f in cf["lib"] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize") or f == "-fno-omit-frame-pointer"]
            l.append(submit(fmsrc, ["-std=c++17", "-O2", "-g"] + (["-fsanitize=address"] if cf["san"] else []) + inc, cf["cxx"], fmhdr, "fm"))
            if shdr:
                l.append(submit(os.path.join(sdir, "standin.cpp"), ["-std=c++17", "-O2", "-g", "-fsanitize=address"] + libdef + inc, cf["cxx"], fmhdr + shdr, "standin"))
            for s in hsrc:
                b = os.path.basename(s)
                fl = ["-std=c++17", "-O2", "-g"] + inc + prec + (["-DHAVE_FSHIM"] if fortran else [])
                if b == "api.cpp":
                    fl = ["-std=c++17", "-O1", "-g"] + inc + libdef + (["-DHAVE_FSHIM"] if fortran else [])
                l.append(submit(s, fl, "g++", hhdr + fmhdr + libhdr + shdr, "h-" + b))
            fo = None
            if fortran:
                k = ("f90", cf["single"])
                if k not in futs:
                    futs[k] = ex.submit(build_fortran, f90, shim, cf["single"])
                fo = futs[k]
            fobj[c] = (l, fo)
        for c in names:
            cf = CONFIGS[c]
            l, fo = fobj[c]
            objs = [f.result() for f in l]
            if fo:
                objs += fo.result()
            sanflags = [f for f in cf["lib"] if f.startswith("-fsanitize")]
            libs = cf["libs"] + ["-lpthread", "-lm"]
            if fortran:
                libs += ["-lgfortran"]
            key = hash_files(objs, cf["cxx"] + " ".join(libs) + str(sorted(WRAPS)))
            out = os.path.join(BUILD, "worker-" + c + "-" + key)
            jobsl.append((c, out, objs, sanflags, libs))
        def link(j):
            c, out, objs, sanflags, libs = j
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                run([CONFIGS[c]["cxx"]] + sanflags + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-o", tmp] + libs)
                os.rename(tmp, out)
            os.utime(out)
            return c, out
        for c, out in ex.map(link, jobsl):
            res[c] = out
    prune()
    return res


def build_fortran(f90, shim, single):
    key = hash_files(f90 + [shim], "f90v1" + str(single))
    d = os.path.join(BUILD, "f90-" + key)
    objs = [os.path.join(d, os.path.basename(f) + ".o") for f in f90] + [os.path.join(d, "shim.o")]
    if os.path.isdir(d) and not all(os.path.exists(o) for o in objs):
        shutil.rmtree(d, ignore_errors=True)      # partly pruned
    if not os.path.exists(os.path.join(d, "done")):
        tmp = d + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        run([sys.executable, shim, os.path.join(tmp, "shim.f90")])
        flags = ["-O1", "-g", "-ffree-line-length-none", "-w"] + (["-DSINGLE"] if single else [])
        for f in f90:
            run(["gfortran", "-cpp"] + flags + ["-c", f, "-o", os.path.join(tmp, os.path.basename(f) + ".o"), "-J", tmp, "-I", tmp])
        run(["gfortran", "-cpp"] + flags + ["-c", os.path.join(tmp, "shim.f90"), "-o", os.path.join(tmp, "shim.o"), "-J", tmp, "-I", tmp])
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            if os.path.exists(os.path.join(d, "done")):
                shutil.rmtree(tmp, ignore_errors=True)
            else:
                shutil.rmtree(d, ignore_errors=True)
                os.rename(tmp, d)
    for o in objs + [os.path.join(d, "done")]:
        os.utime(o)
    return objs


def build_shared(single):
    """the two shared libraries the Python interface loads, against the installed MPI; returns their directory"""
    src = os.path.join(REPO, "src")
    libsrc, libhdr = listdir(src, (".cpp",)), listdir(src, (".h", ".hpp", ".hh", ".inc", ".tpp", ".ipp", ".c"))
    d = os.path.join(BUILD, "shared-%s-%s" % ("s" if single else "d", hash_files(libsrc + libhdr, "sharedv1")))
    names = [os.path.join(d, n) for n in ("libfft2dmpi.so", "libfft3dmpi.so")]
    if not all(os.path.exists(n) for n in names):
        tmp = d + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        flags = ["-fPIC", "-O1", "-g", "-DFFT_MEMALIGN=64", "-DFFT_KISS", "-DFFT_SINGLE" if single else "-DFFT_DOUBLE", "-I" + src]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda s: run(["mpicxx"] + flags + ["-c", s, "-o", os.path.join(tmp, os.path.basename(s) + ".o")]), libsrc))
        objs = listdir(tmp, (".o",))
        for n in names:
            run(["mpicxx", "-shared", "-o", os.path.join(tmp, os.path.basename(n))] + objs)
        [os.unlink(o) for o in objs]
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    for n in names:
        os.utime(n)
    return d


def prune(maxage=36 * 3600, maxbytes=1500 << 20):
    ents = []
    for root, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            ents.append((st.st_mtime, st.st_size, p))
    ents.sort(reverse=True)
    tot = 0
    for m, s, p in ents:
        tot += s
        if (tot > maxbytes or time.time() - m > maxage) and time.time() - m > 1800:
            try:
                os.unlink(p)
            except OSError:
                pass


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1].split(","), fortran="-f" in sys.argv))
    print("%.1fs" % (time.time() - t))
