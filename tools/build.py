#!/usr/bin/env python3
"""Compiles /repo's library sources and the harnesses into /verif/build.

Objects are keyed by the hash of everything that can influence them (source,
all headers, flags), so a changed tree is always rebuilt and an unchanged one
never is, whatever the time stamps say.

usage: build.py [ID ...]     (no ID: every harness)
"""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, subprocess, sys, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CC, CXX = "clang", "clang++"

INC = ["src/common", "src/common/internal", "src/json", "src/json/internal", "src/transport",
       "src/transport/internal", "src/server", "src/server/internal", "src/client",
       "src/client/internal", "src/connection_pool", "src/connection_pool/internal", "src/gateway"]
INCFLAGS = [f"-I{R}/{d}" for d in INC] + ["-isystem", f"{R}/include"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-sanitize=function,alignment,enum",
       f"-fsanitize-ignorelist={V}/tools/san_ignore.txt"]
COMMON = ["-g1", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-w"] + SAN
CFLAGS = COMMON + ["-std=gnu99", "-Wno-incompatible-function-pointer-types", "-Wno-incompatible-pointer-types",
                   "-Wno-int-conversion", "-Wno-implicit-function-declaration", "-Wno-implicit-int", "-Wno-return-type", "-include", f"{V}/compat/supamcp_linux.h"] + INCFLAGS
# the harnesses' own C shims
CSHIM = CFLAGS + [f"-I{V}/harness"]
CXXFLAGS = ["-g1", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-w", "-std=c++20"] + SAN + \
           [f"-I{V}/harness"] + [f"-I{R}/{d}" for d in INC] + ["-isystem", f"{R}/include"]
LIBS = ["-lwebsockets", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"]
WRAP = ["-Wl,--wrap=time", "-Wl,--wrap=gettimeofday"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(patterns):
    files = sorted(set(f for p in patterns for f in glob.glob(p, recursive=True) if os.path.isfile(f)))
    return sha(*[x for f in files for x in (f, rd(f))])


def sources():
    """The library's source list from CMakeLists.txt, else every library directory."""
    txt = open(f"{R}/CMakeLists.txt").read()
    m = re.search(r"set\(COMMON_SOURCES(.*?)\)", txt, re.S)
    out = []
    if m:
        out = [s for s in re.findall(r"\bsrc/[\w/.-]+\.c\b", re.sub(r"#.*", "", m.group(1)))
               if os.path.exists(f"{R}/{s}")]
    if len(out) < 20:
        out = [os.path.relpath(p, R) for d in ("json", "common", "server", "client", "gateway",
               "connection_pool", "transport") for p in glob.glob(f"{R}/src/{d}/*.c")]
    return sorted(set(out))


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(f"build failed: {what}\n{' '.join(cmd)}\n{r.stdout.decode(errors='replace')[-6000:]}\n")
        raise SystemExit(2)


def compile_one(src, flags, cc, key):
    obj = f"{B}/obj/{os.path.basename(src)}-{key}.o"
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"
        run([cc] + flags + ["-c", src, "-o", tmp], src)
        os.rename(tmp, obj)
    return obj


def main():
    os.makedirs(f"{B}/obj", exist_ok=True)
    os.makedirs(f"{B}/bin", exist_ok=True)
    lock = open(f"{B}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ids = sys.argv[1:] or sorted(re.findall(r"\b(P\d+)\.cpp", " ".join(os.listdir(f"{V}/harness"))))
    hdr = tree_hash([f"{R}/src/**/*.h", f"{R}/include/mcp_*.h", f"{R}/include/*.h",
                     f"{V}/compat/*.h", f"{V}/tools/san_ignore.txt"])
    # some library sources include other .c files or generated pieces
    shim_hdr = tree_hash([f"{V}/harness/*.h", f"{V}/harness/*.hpp"])
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        lib = {}
        for s in sources():
            p = f"{R}/{s}"
            lib[s] = ex.submit(compile_one, p, CFLAGS, CC, sha(rd(p), hdr, " ".join(CFLAGS), s))
        har = {}
        for f in ["pbt.cpp"] + [f"{i}.cpp" for i in ids]:
            p = f"{V}/harness/{f}"
            har[f] = ex.submit(compile_one, p, CXXFLAGS, CXX, sha(rd(p), hdr, shim_hdr, " ".join(CXXFLAGS)))
        shims = {}
        for i in ids:
            for p in glob.glob(f"{V}/harness/{i}_*.c") + [f"{V}/harness/{s}" for s in
                    re.findall(rb"//\s*SHIM:\s*(\S+)", rd(f"{V}/harness/{i}.cpp")) for s in [s.decode()]]:
                shims.setdefault(i, []).append(ex.submit(compile_one, p, CSHIM, CC,
                                               sha(rd(p), hdr, shim_hdr, " ".join(CSHIM))))
        libo = [lib[s].result() for s in sorted(lib)]
        used = set(libo)
        lkey = sha(*libo)
        a = f"{B}/libmcp-{lkey}.a"
        if not os.path.exists(a):
            tmp = f"{a}.{os.getpid()}.tmp"
            run(["ar", "rcs", tmp] + libo, "ar")
            os.rename(tmp, a)
            for old in glob.glob(f"{B}/libmcp-*.a"):
                if old != a:
                    os.unlink(old)

        def link(i):
            src = rd(f"{V}/harness/{i}.cpp").decode()
            extra = re.findall(r"//\s*LINK:\s*(.*)", src)
            extra = [w for l in extra for w in l.split()]
            objs = [har["pbt.cpp"].result(), har[f"{i}.cpp"].result()] + [f.result() for f in shims.get(i, [])]
            key = sha(lkey, *objs, " ".join(extra + WRAP + LIBS))
            out = f"{B}/bin/{i}"
            stamp = f"{out}.key"
            if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
                return objs
            tmp = f"{out}.{os.getpid()}.tmp"
            run([CXX] + SAN + WRAP + extra + ["-o", tmp] + objs + [a] + LIBS, f"link {i}")
            os.rename(tmp, out)
            with open(stamp, "w") as f:
                f.write(key)
            return objs
        for f in [ex.submit(link, i) for i in ids]:
            used.update(f.result())
    # bound the object store: keep the newest objects
    objs = sorted(glob.glob(f"{B}/obj/*.o"), key=os.path.getmtime, reverse=True)
    for o in objs[1500:]:
        if o not in used:
            os.unlink(o)


if __name__ == "__main__":
    main()
