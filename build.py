#!/usr/bin/env python3
"""Builds harness binaries from /repo's working tree: build.py PROP VARIANT... -> build/<variant>/<prop>"""
import glob, os, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

DEFS = ("-DDILL_SOCKETS=1 -DHAVE_TLS=1 -DHAVE_POSIX_MEMALIGN=1 -DHAVE_MPROTECT=1 -DHAVE_LIBRT=1 -DHAVE_CLOCK_GETTIME=1 "
        "-DHAVE_STDIO_H=1 -DHAVE_STDLIB_H=1 -DHAVE_STRING_H=1 -DHAVE_INTTYPES_H=1 -DHAVE_STDINT_H=1 -DHAVE_STRINGS_H=1 "
        "-DHAVE_SYS_STAT_H=1 -DHAVE_SYS_TYPES_H=1 -DHAVE_UNISTD_H=1 -DSTDC_HEADERS=1 -U_FORTIFY_SOURCE")
EPOLL = " -DHAVE_EPOLL_CREATE=1 -DHAVE_EPOLL=1"
THR = " -DDILL_THREADS=1 -DDILL_PTHREAD=1 -pthread"
ASAN = "-O1 -g -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    # name: (library flags, link flags, harness define)
    "asan":     (ASAN + EPOLL + THR, "-fsanitize=address,bounds", "-DVERIF_ASAN"),
    "poll":     (ASAN + EPOLL + " -DDILL_POLL" + THR, "-fsanitize=address,bounds", "-DVERIF_ASAN -DVERIF_POLL"),
    "thrfb":    (ASAN + EPOLL + THR + " -DDILL_THREAD_FALLBACK", "-fsanitize=address,bounds", "-DVERIF_ASAN"),
    "nothr":    (ASAN + EPOLL, "-fsanitize=address,bounds", "-DVERIF_ASAN -DVERIF_NOTHREADS"),
    "plain":    ("-O2 -g" + EPOLL + THR, "", ""),
    # races between threads: no function entry/exit events, as coroutines switch stacks behind the back of the detector
    "tsan":     ("-O1 -g -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer" + EPOLL + THR, "-fsanitize=thread", "-DVERIF_TSAN"),
    "census":   ("-O2 -g -DDILL_CENSUS -DDILL_VALGRIND -fno-stack-protector -fno-stack-clash-protection" + EPOLL + THR, "", ""),
    "archfb":   ("-O2 -g -DDILL_ARCH_FALLBACK -fno-stack-protector -fno-stack-clash-protection" + EPOLL + THR, "", "-DVERIF_ARCHFB"),
}
WRAPS = ("clock_gettime gettimeofday time epoll_wait poll malloc calloc realloc free posix_memalign mprotect "
         "recv send recvmsg sendmsg accept socket socketpair dup getifaddrs freeifaddrs fopen connect gethostname dill_prologue").split()

def q(p): return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def build(prop, variants, quiet=True):
    """Returns {variant: binary}; raises RuntimeError with the compiler's output."""
    os.makedirs(BUILD, exist_ok=True)
    src = sorted(glob.glob(os.path.join(REPO, "*.c"))) + sorted(glob.glob(os.path.join(REPO, "dns", "*.c")))
    rt = os.path.join(VERIF, "harness", "rt")
    props = sorted(glob.glob(os.path.join(VERIF, "harness", "props", prop.lower() + "*.cpp")))
    helpers = sorted(glob.glob(os.path.join(VERIF, "harness", "lib", "*.cpp")))
    out = {}
    L = ["builddir = " + q(BUILD),
         "rule cc\n  command = $comp -MD -MF $out.d $fl -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule ln\n  command = g++ -o $out @$out.rsp $fl\n  rspfile = $out.rsp\n  rspfile_content = $in"]
    seen = set()
    def cc(o, comp, fl, s):
        if o in seen: return
        seen.add(o)
        L.append("build %s: cc %s\n  comp = %s\n  fl = %s" % (q(o), q(s), comp, fl))
    inc = "-I%s -I%s -I%s" % (REPO, rt, os.path.join(VERIF, "harness", "lib"))
    for v in variants:
        lib, ld, hd = VARIANTS[v]
        d = os.path.join(BUILD, v); objs = []
        for s in src:
            o = os.path.join(d, "lib", os.path.relpath(s, REPO).replace("/", "_") + ".o")
            cc(o, "gcc", "-std=gnu99 -w %s %s -include %s/shim.h -I%s -I%s/dns" % (DEFS, lib, rt, REPO, REPO), s)
            objs.append(o)
        h = hd.replace("-DVERIF_ASAN", "").strip()
        # harness objects do not depend on the sanitizer
        hdir = os.path.join(BUILD, "h-" + (h.replace("-DVERIF_", "").lower() or "std"))
        hfl = "-std=c++17 -O1 -g -w -pthread -D_GNU_SOURCE %s %s" % (h, inc)
        for s in [rt + "/rt.cpp"] + helpers + props:
            o = os.path.join(hdir, os.path.basename(s) + ".o")
            cc(o, "g++", hfl, s); objs.append(o)
        s = rt + "/wrap.cpp"; o = os.path.join(d, "wrap.o")
        cc(o, "g++", hfl + " " + hd + " " + ("-fsanitize=address --param asan-stack=0 --param asan-instrument-reads=0 --param asan-instrument-writes=0" if "ASAN" in hd else ""), s); objs.append(o)
        s = rt + "/co.c"; o = os.path.join(d, "co.o")
        cofl = "-std=gnu99 -g -w %s %s" % (DEFS, inc)
        cofl += " -O2 " + " ".join(x for x in lib.split() if x.startswith("-D") or x.startswith("-fno-stack") or x == "-pthread")
        cc(o, "gcc", cofl, s); objs.append(o)
        b = os.path.join(d, prop.lower()); out[v] = b
        L.append("build %s: ln %s\n  fl = %s -pthread %s -lssl -lcrypto -rdynamic" % (q(b), " ".join(q(x) for x in objs), ld,
                 " ".join("-Wl,--wrap=" + w for w in WRAPS)))
    nf = os.path.join(BUILD, "%s.%d.ninja" % (prop.lower(), os.getpid()))
    with open(nf, "w") as f: f.write("\n".join(L) + "\n")
    env = dict(os.environ); env["LC_ALL"] = "C"
    r = subprocess.run(["ninja", "-f", nf] + list(out.values()), capture_output=True, text=True, env=env)
    os.unlink(nf)
    if r.returncode: raise RuntimeError("\n".join(l for l in (r.stdout + r.stderr).splitlines() if " -MD -MF " not in l)[-5000:])
    if not quiet: sys.stdout.write(r.stdout[-300:])
    return out

if __name__ == "__main__":
    try: print(build(sys.argv[1], sys.argv[2:], quiet=False))
    except RuntimeError as e: print(e); sys.exit(1)
