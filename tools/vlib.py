"""Build and run machinery shared by all checks."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WRAPS = ("malloc calloc realloc free posix_memalign aligned_alloc memalign "
         "mmap munmap madvise memcpy memmove").split()
NPROC = 8


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-2000:]))


def gen_config(dst, asan, madvise=True):
    """small_config.h as the project's cmake would make it on this platform."""
    src = open(os.path.join(REPO, "small/small_config.h.cmake")).read()
    on = {"TARANTOOL_SMALL_HAVE_MADVISE"}
    if madvise:
        on.add("TARANTOOL_SMALL_HAVE_MADV_DONTDUMP")
    if asan:
        on.add("ENABLE_ASAN")

    def sub(m):
        name = m.group(1)
        return "#define %s%s" % (name, m.group(2)) if name in on \
            else "/* #undef %s */" % name
    out = re.sub(r"^[ \t]*#[ \t]*cmakedefine[ \t]+(\w+)(.*)$", sub, src, flags=re.M)
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(dst, "small_config.h"), "w") as f:
        f.write(out)


def lib_sources(asan):
    """The library's sources as in its CMakeLists.txt."""
    allc = sorted(glob.glob(os.path.join(REPO, "small/*.c")))
    names = {os.path.basename(x) for x in allc}
    out = []
    for x in allc:
        b = os.path.basename(x)
        is_asan = b.endswith("_asan.c")
        if asan:
            if not is_asan and b[:-2] + "_asan.c" in names:
                continue
        elif is_asan:
            continue
        out.append(x)
    return out


# Build flavours.
UB = "-fsanitize=shift,integer-divide-by-zero,bounds,unreachable,return,vla-bound"
FLAVOURS = {
    # asserts on, AddressSanitizer (libc heap, stacks, globals) and part of UBSan
    "san": dict(cc="clang", cxx="clang++",
                flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"]
                      + [UB, "-fno-sanitize-recover=all"]),
    # asserts on, optimised, as the project's own build
    "dbg": dict(cc="gcc", cxx="g++", flags=["-O2", "-g"]),
    # asserts off: what a release build does
    "rel": dict(cc="gcc", cxx="g++", flags=["-O2", "-g", "-DNDEBUG"]),
    # the *_asan.c allocators
    "asan": dict(cc="clang", cxx="clang++", asan=True,
                 flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"]),
    # instrumented for the controlled scheduler (our own __tsan_* runtime)
    "sched": dict(cc="gcc", cxx="g++", flags=["-O1", "-g"],
                  repo_flags=["-fsanitize=thread"]),
    "schedc": dict(cc="clang", cxx="clang++", flags=["-O1", "-g"],
                   repo_flags=["-fsanitize=thread"]),
    # coverage-guided generation (guided.h)
    "guided": dict(cc="clang", cxx="clang++", flags=["-O1", "-g", "-DNDEBUG"],
                   repo_flags=["-fsanitize-coverage=inline-8bit-counters,trace-cmp"],
                   harness_flags=["-fsanitize-coverage=inline-8bit-counters"]),
}


class Variant:
    """One build of one harness."""

    def __init__(self, name, flavour, harness, defines=(), lib=True, wrap=True,
                 extra=(), lib_only=None, std_c="-std=gnu11", shim=()):
        self.name, self.flavour, self.harness = name, flavour, harness
        self.defines, self.lib, self.wrap = list(defines), lib, wrap
        self.extra, self.lib_only, self.std_c = list(extra), lib_only, std_c
        self.shim = list(shim)      # C files of /verif compiled like the library

    def build(self, pool, outdir):
        fl = FLAVOURS[self.flavour]
        asan = fl.get("asan", False)
        d = os.path.join(outdir, self.name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        gen_config(os.path.join(d, "include"), asan, "NOMADVISE" not in self.defines)
        inc = ["-I" + os.path.join(d, "include"), "-I" + os.path.join(REPO, "include/small"),
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "third_party"),
               "-I" + HARN]
        base = fl["flags"] + ["-D_GNU_SOURCE", "-w", "-Wno-error", "-Wno-int-conversion",
                "-Wno-incompatible-function-pointer-types", "-Wno-implicit-function-declaration", "-Wno-return-type",
                "-DPBT_%s=1" % self.flavour.upper()] \
            + inc + ["-D" + x for x in self.defines]
        rflags = fl.get("repo_flags", [])
        jobs, objs = [], []

        def add(cmd, src, tag):
            o = os.path.join(d, tag + ".o")
            objs.append(o)
            jobs.append(pool.submit(sh, cmd + ["-c", src, "-o", o]))
        if self.lib:
            for s in lib_sources(asan):
                b = os.path.basename(s)
                if self.lib_only and b not in self.lib_only:
                    continue
                add([fl["cc"], self.std_c] + base + rflags, s, "lib_" + b)
        for s in self.shim:
            add([fl["cc"], self.std_c] + base + rflags, os.path.join(HARN, s), "shim_" + s)
        cc = [fl["cxx"], "-std=gnu++17"] + base
        for s in [self.harness, "pbt.cc", "sysmem.cc"] + self.extra:
            if s == "sysmem.cc" and not self.wrap:
                continue
            add(cc + (fl.get("harness_flags", []) if s == self.harness else []), os.path.join(HARN, s), "h_" + os.path.basename(s))
        exe = os.path.join(d, "t")

        def link():
            for j in jobs:
                j.result()
            lf = [x for x in fl["flags"] if x.startswith("-fsanitize") or x.startswith("-fno-sanitize")]
            cmd = [fl["cxx"], "-g"] + lf + objs + ["-o", exe, "-lm", "-lpthread"]
            if self.wrap:
                cmd += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
            sh(cmd)
        return link, exe


def run_shards(exe, prop, variant, seed, nshards, cases, max_ops, scale, workdir, time_cap, first=0):
    """Start the shards of one variant; returns list of (popen, info)."""
    out = []
    for sh_ in range(nshards):
        base = os.path.join(workdir, "%s.%d" % (variant, sh_))
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--shard", str(first + sh_),
               "--cases", str(cases), "--scale", str(scale),
               "--out", base + ".json", "--hashes", base + ".hash",
               "--replay-out", base + ".replay"]
        if max_ops:
            cmd += ["--max-ops", str(max_ops)]
        if time_cap:
            cmd += ["--time-cap", str(time_cap)]
        out.append((cmd, dict(base=base, variant=variant, shard=sh_)))
    return out
