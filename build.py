#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree plus /verif/sim.

Objects are cached by content hash under /verif/build, so a rebuild after a
one-file edit compiles one file; a cold build takes some 20 s on 8 cores.
"""
import concurrent.futures, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

WRAPS = """fopen fopen64 tmpfile fdopen popen pclose opendir readdir closedir scandir mkdir rmdir rename
unlink remove stat lstat access close fileno mkstemp malloc calloc realloc aligned_alloc posix_memalign free strdup
clock_gettime gettimeofday time exit abort backtrace backtrace_symbols isatty sfmt_gen_rand_all""".split()

LIBS = ["-Wl,-Bstatic", "-lpng", "-ljpeg", "-lz", "-Wl,-Bdynamic", "-llapack", "-lblas", "-lcairo", "-lm", "-lpthread"]


def repo_sources():
    """Library sources as CMakeLists.txt lists them, without the OpenGL helpers."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    c, cc = [], []
    for m in re.finditer(r"set\s*\(\s*(\w+_SOURCES)\s+(.*?)\)", txt, re.S):
        if "OPENGL" in m.group(1):
            continue
        for f in re.findall(r"[\w./+-]+\.(?:cc|cpp|c)\b", m.group(2)):
            if "/GL/" in f:
                continue
            (c if f.endswith(".c") else cc).append(f)
    return c, cc


def header_digest():
    h = hashlib.sha256()
    for base in ("include", "src", "ext"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".in")) and f != "nx_config.h":
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def gen_config(incdir):
    src = open(os.path.join(REPO, "include/virg/nexus/nx_config.h.in")).read()
    src = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 1", src)
    src = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", src)
    vals = {"VIRG_NEXUS_SIMD_ALIGNMENT": "64", "VERSION_MAJOR": "0", "VERSION_MINOR": "1"}
    src = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), src)
    p = os.path.join(incdir, "virg/nexus/nx_config.h")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    return src


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def compile_all(jobs, objdir):
    os.makedirs(objdir, exist_ok=True)
    objs, todo = [], []
    for key, cmd, src in jobs:
        o = os.path.join(objdir, os.path.basename(src).replace(".", "_") + "-" + key[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((cmd + ["-c", src, "-o", o + ".tmp"], o))
    def one(t):
        rc, out = run(t[0])
        if rc == 0:
            os.rename(t[0][-1], t[1])
        return rc, out, t
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        bad = [(rc, out, t) for rc, out, t in ex.map(one, todo) if rc]
    if bad:
        for rc, out, t in bad[:3]:
            sys.stderr.write(" ".join(t[0]) + "\n" + out + "\n")
        raise SystemExit(2)
    # drop stale objects so the cache cannot grow without bound
    keep = set(objs)
    for f in os.listdir(objdir):
        p = os.path.join(objdir, f)
        if p not in keep and (f.endswith(".o") or f.endswith(".tmp")):
            os.unlink(p)
    return objs


MT_WRAPS = """memcpy memmove memset strcpy strncpy strcat snprintf vsnprintf sprintf fread qsort pthread_mutex_lock pthread_mutex_unlock
pthread_mutex_trylock pthread_once strtok localtime gmtime asctime ctime setlocale rand srand drand48 srand48 putenv setenv __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
fscanf __isoc99_fscanf __isoc23_fscanf sscanf __isoc99_sscanf __isoc23_sscanf fgets getline fwrite fputs strlen strcmp strncmp strdup strncat strtok_r
jpeg_std_error jpeg_CreateDecompress jpeg_CreateCompress jpeg_read_header jpeg_start_decompress jpeg_start_compress jpeg_set_defaults jpeg_set_quality
jpeg_finish_decompress jpeg_finish_compress jpeg_destroy_decompress jpeg_destroy_compress jpeg_read_scanlines jpeg_write_scanlines
png_read_info png_write_info png_read_image png_write_image png_read_row png_write_row
sgesvd_ dgesvd_ dsysv_ ssysv_""".split()

COMMON = ["-g", "-DNDEBUG", "-mavx2", "-DJSMN_PARENT_LINKS=1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-w"]
VARIANTS = {
    # real library code, AddressSanitizer as memory oracle, all seams wrapped
    "sim": dict(lib=["-O1", "-fsanitize=address"], har=["-O1", "-fsanitize=address"], link=["-fsanitize=address"],
                dirs=["sim", "sim/checks"], tools=True, lapack=True),
    # real library code compiled with memory-access callbacks (tsan
    # instrumentation, our own runtime) and OpenMP against our own runtime
    "mt": dict(lib=["-O1", "-fsanitize=thread", "-fopenmp"], har=["-O1"], link=[],
               dirs=["sim", "sim/mt"], files=["sim/checks/ops.cc", "sim/checks/img_codec.cc"], redefine=MT_WRAPS, wraps=["-rdynamic", "-Wl,--as-needed", "-lgomp", "-Wl,--no-as-needed"], lapack=True),
}


# Command-line tools: main() renamed, all other symbols local, writable data in
# a section of its own so that every simulated process starts with fresh data.
TOOLS = {
    "nx_harris_detector": ["nx_harris_detector_main.c"],
    "nx_sift_detector": ["nx_sift_detector_main.c"],
    "nx_sift_benchmark": ["nx_sift_benchmark_main.c"],
    "nx_stitch": ["nx_stitch_main.c", "nx_panorama_builder.c"],
    "nx_fit_homography": ["nx_fit_homography_main.c"],
    "vg_stereo_matcher": ["vg_stereo_matcher_main.cc"],
}


def tool_sources():
    """Sources per tool as tools/CMakeLists.txt lists them (falls back to the table above)."""
    out = dict(TOOLS)
    try:
        txt = open(os.path.join(REPO, "tools/CMakeLists.txt")).read()
    except OSError:
        return out
    for m in re.finditer(r"target_sources\s*\(\s*([\w-]+)\s+PRIVATE\s+(.*?)\)", txt, re.S):
        n = m.group(1).replace("-", "_")
        fs = re.findall(r"[\w./+-]+\.(?:cc|cpp|c)\b", m.group(2))
        if n in out and fs:
            out[n] = fs
    return out


def build_tools(v, bdir, incs, hd):
    tdir = os.path.join(REPO, "tools")
    h = hashlib.sha256(hd.encode())
    for f in sorted(os.listdir(tdir)):
        if f.endswith((".h", ".hpp")):
            h.update(open(os.path.join(tdir, f), "rb").read())
    res, jobs, owner = [], [], []
    for t, fs in sorted(tool_sources().items()):
        for f in fs:
            p = os.path.join(tdir, f)
            cmd = (["gcc", "-std=gnu11"] if f.endswith(".c") else ["g++", "-std=gnu++11"]) + v["lib"] + COMMON + incs + \
                  ["-I" + tdir, "-Dmain=sim_tool_" + t, "-fno-zero-initialized-in-bss", "-fno-common"]
            key = hashlib.sha256((" ".join(cmd) + h.hexdigest()).encode() + open(p, "rb").read()).hexdigest()
            jobs.append((key, cmd, p)); owner.append(t)
    objs = compile_all(jobs, os.path.join(bdir, "tools"))
    odir = os.path.join(bdir, "toolobj")
    os.makedirs(odir, exist_ok=True)
    for t in sorted(set(owner)):
        parts = [o for o, w in zip(objs, owner) if w == t]
        out = os.path.join(odir, t + ".o")
        stamp = "\n".join(parts)
        if not (os.path.exists(out) and os.path.exists(out + ".s") and open(out + ".s").read() == stamp):
            rc, o = run(["ld", "-r", "-o", out + ".r"] + parts)
            if rc:
                sys.stderr.write(o); raise SystemExit(2)
            rc, o = run(["nm", "--defined-only", out + ".r"])
            loc = [l.split()[2] for l in o.splitlines() if len(l.split()) == 3 and l.split()[1] in "TDBRG" and "sim_tool_" not in l.split()[2]]
            secs = [".data", ".data.rel", ".data.rel.local"]
            rc, o = run(["objcopy"] + ["--localize-symbol=" + x for x in loc] + ["--rename-section=%s=tool_data" % x for x in secs] + [out + ".r", out])
            if rc:
                sys.stderr.write(o); raise SystemExit(2)
            os.unlink(out + ".r")
            open(out + ".s", "w").write(stamp)
        res.append(out)
    return res, hashlib.sha256("\n".join(objs).encode()).hexdigest()


def build(variant):
    v = VARIANTS[variant]
    bdir = os.path.join(BUILD, variant)
    inc = os.path.join(BUILD, "include")
    os.makedirs(bdir, exist_ok=True)
    cfg = gen_config(inc)
    hd = header_digest() + cfg
    c, cc = repo_sources()
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + REPO,
            "-I/usr/include/cairo"]
    jobs = []
    for f in c + cc:
        p = os.path.join(REPO, f)
        isC = f.endswith(".c")
        cmd = (["gcc", "-std=gnu11"] if isC else ["g++", "-std=gnu++11"]) + v["lib"] + COMMON + incs
        key = hashlib.sha256((" ".join(cmd) + hd).encode() + open(p, "rb").read()).hexdigest()
        jobs.append((key, cmd, p))
    libobjs = compile_all(jobs, os.path.join(bdir, "lib"))
    # harness
    hh = hashlib.sha256(hd.encode())
    srcs = []
    for d in v["dirs"]:
        dd = os.path.join(VERIF, d)
        for f in sorted(os.listdir(dd)):
            if f.endswith(".h"):
                hh.update(open(os.path.join(dd, f), "rb").read())
            elif f.endswith(".cc"):
                srcs.append(os.path.join(dd, f))
    srcs += [os.path.join(VERIF, f) for f in v.get("files", [])]
    if v.get("files"):
        dd = os.path.join(VERIF, "sim/checks")
        for f in sorted(os.listdir(dd)):
            if f.endswith(".h"):
                hh.update(open(os.path.join(dd, f), "rb").read())
    jobs = []
    for p in srcs:
        cmd = ["g++", "-std=gnu++17"] + v["har"] + COMMON + incs + ["-I" + os.path.join(VERIF, "sim"), "-DSIM_VARIANT_" + variant.upper()]
        key = hashlib.sha256((" ".join(cmd) + hh.hexdigest()).encode() + open(p, "rb").read()).hexdigest()
        jobs.append((key, cmd, p))
    harobjs = compile_all(jobs, os.path.join(bdir, "har"))
    exe = os.path.join(bdir, variant)
    toolobjs, tstamp = build_tools(v, bdir, incs, hd) if v.get("tools") else ([], "")
    stamp = hashlib.sha256("\n".join(libobjs + harobjs + [tstamp]).encode()).hexdigest()
    sf = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp):
        ar = os.path.join(bdir, "libvn.a")
        if os.path.exists(ar):
            os.unlink(ar)
        rc, out = run(["ar", "rcs", ar] + libobjs)
        if rc:
            sys.stderr.write(out); raise SystemExit(2)
        if v.get("redefine"):       # only calls made by the library
            rc, out = run(["objcopy"] + ["--redefine-sym=%s=mt_%s" % (w, w) for w in v["redefine"]] + [ar])
            if rc:
                sys.stderr.write(out); raise SystemExit(2)
        cmd = ["g++"] + v["link"] + ["-o", exe] + harobjs + toolobjs + [ar] + ["-Wl,--wrap=" + w for w in WRAPS] + v.get("wraps", []) + LIBS
        rc, out = run(cmd)
        if rc:
            sys.stderr.write(out[-6000:]); raise SystemExit(2)
        open(sf, "w").write(stamp)
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:] or ["sim"]:
        print(build(n))
