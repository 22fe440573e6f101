#!/usr/bin/env python3
"""Builds the conformance drivers from the current working tree of the library.

Objects are cached under /verif/.build by a hash of what is compiled (source and
headers without comments, flags), so an unchanged tree costs nothing and every
change in the code is compiled anew."""
import concurrent.futures, fcntl, hashlib, os, re, subprocess, sys, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
TORCH = "/opt/vp/torch-site/torch"
FLAGS = ("-std=gnu++17 -O1 -fPIC -D_GLIBCXX_USE_CXX11_ABI=0 -D_GLIBCXX_ASSERTIONS -DFMT_HEADER_ONLY=1 "
         "-DFMT_DEPRECATED_OSTREAM -DDOCTEST_CONFIG_DISABLE -w").split()
INCS = ["-isystem", TORCH + "/include", "-isystem", TORCH + "/include/torch/csrc/api/include",
        "-I" + REPO + "/include", "-I" + REPO + "/extern/doctest", "-I" + REPO + "/extern/boost", "-I" + REPO + "/extern"]
LINK = ["-L" + TORCH + "/lib", "-Wl,-rpath," + TORCH + "/lib", "-Wl,--no-as-needed", "-ltorch", "-ltorch_cpu", "-lc10", "-lpthread"]
_tok = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', re.S)


def strip(text):
    text = _tok.sub(lambda m: " " if m.group(0)[0] == "/" else m.group(0), text)
    # line numbers only matter for messages
    return "\n".join(l.rstrip() for l in text.split("\n") if l.strip())


def rd(p):
    with open(p, errors="replace") as f:
        return f.read()


def headers():
    hs = []
    for ext in ("h", "hpp", "tpp", "ipp", "hxx"):
        hs += glob.glob(REPO + "/include/**/*." + ext, recursive=True)
    hs = sorted(set(hs))
    h = hashlib.sha256()
    for p in hs:
        h.update(os.path.relpath(p, REPO).encode())
        h.update(strip(rd(p)).encode())
    return h.hexdigest()


def sources():
    try:
        txt = rd(REPO + "/sources/CMakeLists.txt")
        body = re.search(r"set\(SOURCE_LIST(.*?)\)", txt, re.S).group(1)
        l = [os.path.join(REPO, "sources", x) for x in body.split() if x.endswith(".cpp")]
        l = [p for p in l if os.path.exists(p)]
        if l:
            return l
    except (OSError, AttributeError):
        pass
    return sorted(glob.glob(REPO + "/sources/*.cpp"))


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write("command failed: " + " ".join(cmd) + "\n" + p.stdout[-4000:] + "\n")
        raise SystemExit(3)


def compile_one(src, hh, extra=(), flags=()):
    h = hashlib.sha256()
    for x in [hh, strip(rd(src)), " ".join(FLAGS + INCS + list(flags))] + [rd(e) for e in extra]:
        h.update(x.encode())
    obj = os.path.join(OUT, "obj", os.path.basename(src) + "-" + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run(["g++"] + FLAGS + list(flags) + INCS + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    os.utime(obj)
    return obj


def build(drivers, jobs=8):
    """Returns {driver name: executable}."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hh = headers()
        hd = VERIF + "/harness"
        dh = sorted(glob.glob(hd + "/*.h"))
        work = {}
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for d in drivers:
                work[ex.submit(compile_one, "%s/%s.cpp" % (hd, d), hh, dh)] = d
            for s in sources():
                work[ex.submit(compile_one, s, hh)] = None
            objs, dobj = [], {}
            for f in work:
                if work[f] is None:
                    objs.append(f.result())
                else:
                    dobj[work[f]] = f.result()
        out = {}
        for d in drivers:
            key = hashlib.sha256("\n".join([dobj[d]] + sorted(objs)).encode()).hexdigest()[:24]
            exe = os.path.join(OUT, "bin", d + "-" + key)
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                run(["g++", dobj[d]] + objs + LINK + ["-o", tmp])
                os.replace(tmp, exe)
            os.utime(exe)
            out[d] = exe
        # forget objects not used for a long time
        for p in glob.glob(OUT + "/obj/*") + glob.glob(OUT + "/bin/*"):
            if time.time() - os.stat(p).st_mtime > 3 * 86400:
                os.unlink(p)
        return out


if __name__ == "__main__":
    names = sys.argv[1:] or [os.path.basename(p)[:-4] for p in sorted(glob.glob(VERIF + "/harness/drv_*.cpp"))]
    t = time.time()
    for k, v in build(names).items():
        print(k, v)
    print("built in %.1f s" % (time.time() - t))
