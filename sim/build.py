#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's working tree.

  build.py [variant ...]     prints one path per variant

Output goes to $ECOSIM_BUILD (default /verif/build), keyed by the content of
the library sources and of the simulator, so that a changed tree is rebuilt
and an unchanged one is not.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ECOSIM_REPO", "/repo")
OUT = os.environ.get("ECOSIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
VARIANTS = ("long", "int", "asan", "fine")
WRAPS = """malloc calloc realloc free aligned_alloc posix_memalign strdup vprintf printf vfprintf fprintf puts putchar putc fputc
fputs fwrite fflush sigaction signal sigprocmask pthread_sigmask raise kill clock_gettime time gettimeofday clock nanosleep sleep usleep
rand srand random srandom drand48 lrand48 rand_r getenv exit abort __assert_fail ECOS_solve""".split()


def lib_sources():
    s = glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/ecos_bb/*.c") + glob.glob(REPO + "/external/amd/src/*.c") + glob.glob(REPO + "/external/ldl/src/*.c")
    return sorted(f for f in s if not os.path.basename(f).startswith("runecos"))


def key():
    h = hashlib.sha256()
    fs = lib_sources()
    for d in ("include", "external/amd/include", "external/ldl/include", "external/SuiteSparse_config"):
        fs += sorted(glob.glob(f"{REPO}/{d}/**/*.h", recursive=True) + glob.glob(f"{REPO}/{d}/*.h"))
    for f in sorted(set(fs)):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read())
    for f in sorted(glob.glob(HERE + "/*.cpp") + glob.glob(HERE + "/*.h") + [os.path.abspath(__file__)]):
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("command failed: " + " ".join(cmd) + "\n" + p.stdout + p.stderr)


def build(variants):
    os.makedirs(OUT, exist_ok=True)
    k = key()
    d = os.path.join(OUT, k)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = [v for v in variants if not os.path.exists(f"{d}/sim_{v}")]
        if todo:
            # keep the newest few builds only
            old = sorted((x for x in glob.glob(OUT + "/*") if os.path.isdir(x) and x != d), key=os.path.getmtime)
            for x in old[:-3]:
                shutil.rmtree(x, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            jobs = []
            inc = [f"-I{REPO}/include", f"-I{REPO}/external/amd/include", f"-I{REPO}/external/ldl/include", f"-I{REPO}/external/SuiteSparse_config"]
            base = ["-O2", "-g1", "-no-pie", "-fno-pie", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-DCTRLC=1"]
            nobi = ["-fno-builtin-" + f for f in ("printf", "puts", "putchar", "fprintf", "fputs", "fwrite", "fputc", "malloc", "calloc", "free", "realloc", "strdup")]
            links = []
            for v in todo:
                o = f"{d}/obj_{v}"
                os.makedirs(o, exist_ok=True)
                defs = base + ([] if v == "int" else ["-DLDL_LONG", "-DDLONG"])
                san = ["-fsanitize=address"] if v == "asan" else []
                objs = []
                fine = ["-fsanitize=thread"] if v == "fine" else [] # compiled only: the simulator supplies the callbacks
                for s in lib_sources():
                    obj = o + "/" + os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o"
                    ren = ["-include", "stdlib.h", "-include", HERE + "/amdalloc.h"] if "/amd/" in s else []
                    jobs.append(["gcc", "-std=gnu11"] + defs + san + fine + nobi + ren + ["-fsanitize-coverage=trace-pc", "-c", s, "-o", obj] + inc)
                    objs.append(obj)
                for s in ("exec", "checks", "main", "problem"):
                    obj = f"{o}/{s}.o"
                    jobs.append(["g++", "-std=c++17"] + defs + (san if s == "exec" else []) + [f'-DSIM_VARIANT="{v}"', "-DSIM_ASAN=" + ("1" if v == "asan" else "0"), "-DSIM_FINE=" + ("1" if v == "fine" else "0"), "-ffp-contract=off", "-c", f"{HERE}/{s}.cpp", "-o", obj] + inc)
                    objs.append(obj)
                wr = WRAPS + (["ldl_numeric2", "ldl_ltsolve"] if v == "int" else ["ldl_l_numeric2", "ldl_l_ltsolve"])
                links.append(["g++", "-no-pie"] + san + objs + [f"-Wl,--wrap={w}" for w in wr] + ["-o", f"{d}/sim_{v}.tmp", "-lm"])
            with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
                list(ex.map(run, jobs))
                list(ex.map(run, links))
            for v in todo:
                os.rename(f"{d}/sim_{v}.tmp", f"{d}/sim_{v}")
                shutil.rmtree(f"{d}/obj_{v}", ignore_errors=True)
        os.utime(d)
    return [f"{d}/sim_{v}" for v in variants]


if __name__ == "__main__":
    try:
        for p in build(sys.argv[1:] or list(VARIANTS)):
            print(p)
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
