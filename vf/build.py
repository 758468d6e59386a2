"""Builds the decoder library of /repo's current working tree, and harnesses against it.

Objects go to a content-addressed cache under $VF_BUILD (default /verif/.build, ignored by git):
the key covers the compiler, its flags, every header and the source file, so a change of what the
code says is always rebuilt and nothing stale can be linked.
"""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, threading

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
COMMON = ["-w", "-g1", "-D_X86_", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "plain": ("gcc", ["-O2"], []),
    "O0": ("gcc", [], []),
    "asan": ("gcc", ["-O1", "-fsanitize=address"], ["-fsanitize=address"]),
    "ubsan": ("gcc", ["-O1", "-fsanitize=address,bounds-strict,shift-exponent,integer-divide-by-zero,null"],
              ["-fsanitize=address,undefined"]),
    "guard": ("gcc", ["-O1", "-fsanitize=address,bounds-strict,integer-divide-by-zero,null"],
              ["-fsanitize=address,undefined"]),
    "lc4": ("gcc", ["-O2", "-DLC_LEVEL_4"], []),
    "tsan": ("gcc", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
INC = [REPO + "/decoder/x86_64", REPO + "/decoder", REPO + "/test"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = None


def headers_key():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + "/decoder/**/*.h", recursive=True) + glob.glob(REPO + "/test/*.h"))
        _hdr = _sha(*[x for f in fs for x in (f.encode(), _read(f))])
    return _hdr


def _cc(cc, flags, inc, src, extra_key=""):
    key = _sha(cc, " ".join(flags), " ".join(inc), headers_key(), extra_key, src.encode(), _read(src))
    out = os.path.join(BUILD, "o", key + ".o")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    cmd = [cc] + flags + ["-I" + i for i in inc] + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))
    os.replace(tmp, out)
    return out


def library(flavour):
    """Object files of the whole decoder library, in the given flavour."""
    cc, flags, _ = FLAVOURS[flavour]
    srcs = sorted(glob.glob(REPO + "/decoder/*.c"))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return list(ex.map(lambda s: _cc(cc, flags + COMMON, INC, s), srcs))


def harness(name, flavour="plain", defs=(), extra_src=()):
    """Compiles harness/<name>.c and links it with the decoder library; returns the binary's path."""
    cc, flags, lflags = FLAVOURS[flavour]
    hdir = os.path.join(VERIF, "harness")
    hk = _sha(*[_read(f) for f in sorted(glob.glob(hdir + "/*.h"))])
    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(library, flavour)
        objs = []
        for s in [name + ".c"] + list(extra_src):
            objs.append(_cc(cc, flags + COMMON + ["-D" + d for d in defs], [hdir] + INC,
                            os.path.join(hdir, s), hk))
        lib = fut.result()
    key = _sha(cc, " ".join(lflags), *(objs + lib))
    out = os.path.join(BUILD, "bin", name + "-" + flavour + "-" + key[:12])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        ar = os.path.join(BUILD, "bin", "lib%s-%s.a" % (flavour, _sha(*lib)[:12]))
        if not os.path.exists(ar):
            t = ar + ".%d" % os.getpid()
            if os.path.exists(t):
                os.unlink(t)
            subprocess.run(["ar", "rcs", t] + lib, check=True)
            os.replace(t, ar)
        t = out + ".%d" % os.getpid()
        cmd = [cc] + lflags + ["-rdynamic"] + objs + [ar, "-lm", "-ldl", "-lpthread", "-o", t]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(" ".join(cmd[:6]) + "\n" + r.stdout.decode(errors="replace"))
        os.replace(t, out)
    return out


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        print(fl, len(library(fl)))
