"""Content-addressed builder for the instrumented flavours of liblm and for the harnesses.

Everything is rebuilt from /repo's current working tree: an object is reused only if the hash of
(compiler, flags, translation unit, every header of the repository) is the same, so a change of the
tree is always seen, whatever the file times say.  Products go to /verif/.build (git-ignored).
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, sysconfig, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_BUILD_DIR", os.path.join(VERIF, ".build"))
CXX = "g++"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = ["-std=c++17", "-fPIC", "-fopenmp", "-pthread", "-w",
          "-DGLM_FORCE_INTRINSICS", "-DLM_USE_CONFIG_RELEASE", "-DNDEBUG",
          "-D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS", "-D_CRT_SECURE_NO_WARNINGS",
          "-DFMT_HEADER_ONLY=1", "-DLM_VERIF_HOOKS=1"]
SAN_A = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null", "-fsanitize=float-cast-overflow",
         "-fno-omit-frame-pointer", "-fno-sanitize-recover=undefined", "-fsanitize-recover=float-cast-overflow"]
SAN_T = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "plain": ["-O1", "-g1"],
    "asan":  ["-O1", "-g1"] + SAN_A,
    "tsan":  ["-O1", "-g1"] + SAN_T,
}
LINK = {"plain": [], "asan": SAN_A[:3], "tsan": SAN_T[:1]}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_headers_cache = {}


def headers_hash(extra_dirs=()):
    key = tuple(extra_dirs)
    if key in _headers_cache:
        return _headers_cache[key]
    files = []
    for d in ["include", "pch", "src"]:
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith((".h", ".hpp", ".in", ".inl", ".ipp"))]
    for d in extra_dirs:
        for root, _, fs in os.walk(d):
            files += [os.path.join(root, f) for f in fs if f.endswith((".h", ".hpp", ".inl"))]
    h = _sha(*[x for f in sorted(files) for x in (f, _read(f))])
    _headers_cache[key] = h
    return h


def _cxx_id():
    return subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout


def version_dir():
    d = os.path.join(CACHE, "gen")
    os.makedirs(d, exist_ok=True)
    txt = _read(os.path.join(REPO, "src/versiondef.h.in")).decode()
    for k, v in {"PROJECT_VERSION_MAJOR": "3", "PROJECT_VERSION_MINOR": "0", "PROJECT_VERSION_PATCH": "0",
                 "LM_VERSION_REVISION": "verif", "LM_BUILD_TIMESTAMP": "0"}.items():
        txt = txt.replace("@%s@" % k, v)
    p = os.path.join(d, "versiondef.h")
    if not os.path.exists(p) or _read(p).decode() != txt:
        with open(p, "w") as f:
            f.write(txt)
    return d


def lib_sources():
    """The sources of the main library: what src/CMakeLists.txt lists, all of src/ if it cannot be read."""
    try:
        txt = _read(os.path.join(REPO, "src/CMakeLists.txt")).decode()
        m = re.search(r"set\(_SOURCE_FILES(.*?)\)", txt, re.S)
        names = re.findall(r'"\$\{_SOURCE_DIR\}/([\w./-]+\.(?:cpp|cc|cxx))"', m.group(1))
        srcs = [os.path.join(REPO, "src", n) for n in names]
        if len(srcs) > 20 and all(os.path.exists(s) for s in srcs):
            return srcs
    except Exception:
        pass
    srcs = glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True)
    return sorted(s for s in srcs if os.path.basename(s) not in ("pylm.cpp", "serial.cpp"))


class Unit:
    def __init__(self, src, flavour, defs=(), incs=(), extra_header_dirs=(), opt=()):
        self.src, self.flavour = src, flavour
        self.flags = COMMON + FLAVOURS[flavour] + list(opt) + list(defs)
        self.incs = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "pch"),
                     "-I" + version_dir()] + ["-I" + i for i in incs]
        self.key = _sha(_cxx_id_cached(), " ".join(self.flags + self.incs), os.path.basename(src), _read(src),
                        headers_hash(tuple(extra_header_dirs)))
        d = os.path.join(CACHE, "obj")
        os.makedirs(d, exist_ok=True)
        self.obj = os.path.join(d, "%s-%s-%s.o" % (os.path.basename(src).rsplit(".", 1)[0], flavour, self.key))

    def cmd(self):
        return [CXX] + self.flags + self.incs + ["-c", self.src, "-o", self.obj + ".tmp%d" % os.getpid()]

    def build(self):
        if os.path.exists(self.obj):
            os.utime(self.obj)
            return 0
        c = self.cmd()
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compile failed: %s\n%s" % (" ".join(c), (r.stdout + r.stderr)[-4000:]))
        os.rename(self.obj + ".tmp%d" % os.getpid(), self.obj)
        return 1


_cid = None


def _cxx_id_cached():
    global _cid
    if _cid is None:
        _cid = _cxx_id()
    return _cid


def _link(out, cmd_tail, key_parts):
    if os.path.exists(out):
        os.utime(out)
        return
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [CXX] + cmd_tail + ["-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("link failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-4000:]))
    os.rename(tmp, out)


def _prune(limit=int(os.environ.get("VERIF_CACHE_LIMIT", str(6 << 30)))):
    ents = []
    for root, _, fs in os.walk(CACHE):
        for f in fs:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
                ents.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(e[1] for e in ents)
    for m, s, p in sorted(ents):
        if total <= limit:
            break
        if p.endswith((".o", ".so", ".lock")) or "/bin/" in p:
            if p.endswith(".lock"):
                continue
            try:
                os.remove(p)
                total -= s
            except OSError:
                pass


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, "build.lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(flavour, harnesses, libs=(), log=None):
    """Build liblm in `flavour`, the named harness programs (harness/<name>.cpp) and the plugins in `libs`.
    Returns {"lib": dir with liblm.so, name: path of the program, ...}."""
    t0 = time.time()
    H = os.path.join(VERIF, "harness")
    with Lock():
        units = [Unit(s, flavour, defs=["-DLM_EXPORTS"]) for s in lib_sources()]
        shim = Unit(os.path.join(H, "gomp_shim.cc"), flavour, extra_header_dirs=[H])
        hun = {h: Unit(os.path.join(H, h + ".cpp"), flavour, incs=[H], extra_header_dirs=[H]) for h in harnesses}
        lun = {}
        if "tinyobj" in libs:
            lun["tinyobj"] = Unit(os.path.join(REPO, "plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp"), flavour,
                                  incs=["/opt/vp/external/tinyobjloader", os.path.join(REPO, "plugin/objloader_tinyobjloader")])
        if "testplugin" in libs:
            lun["testplugin"] = Unit(os.path.join(H, "vh_plugin.cc"), flavour, incs=[H], extra_header_dirs=[H])
        if "pylm" in libs:
            py = "/opt/vp/venv/bin/python"
            inc = subprocess.run([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                                 capture_output=True, text=True).stdout.strip()
            pinc = [inc]
            r = subprocess.run([py, "-c", "import pybind11;print(pybind11.get_include())"], capture_output=True, text=True)
            if r.returncode == 0:
                pinc.append(r.stdout.strip())
            lun["pylm"] = Unit(os.path.join(REPO, "src/pylm.cpp"), flavour, incs=pinc, opt=["-O0", "-fvisibility=hidden"])
        allu = list(hun.values()) + list(lun.values()) + sorted(units, key=lambda u: -os.path.getsize(u.src)) + [shim]
        n = 0
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(u.build) for u in allu]
            err = None
            for f in futs:
                try:
                    n += f.result()
                except BuildError as e:
                    err = err or e
                    for g in futs:
                        g.cancel()
                except concurrent.futures.CancelledError:
                    pass
            if err:
                raise err
        key = _sha(*[u.key for u in units], shim.key)
        libdir = os.path.join(CACHE, "lib", flavour + "-" + key)
        os.makedirs(libdir, exist_ok=True)
        so = os.path.join(libdir, "liblm.so")
        common = FLAVOURS[flavour] + ["-pthread"]
        _link(so, common + ["-shared", "-fPIC", "-Wl,-soname,liblm.so"] + [u.obj for u in units] + [shim.obj] +
              ["-lstdc++fs", "-latomic", "-ldl", "-lm"], None)
        out = {"lib": libdir, "so": so, "key": key}
        for name, u in lun.items():
            fn = {"tinyobj": "objloader_tinyobjloader.so", "testplugin": "vh_plugin.so",
                  "pylm": "pylm" + subprocess.run(["/opt/vp/venv/bin/python", "-c",
                          "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                          capture_output=True, text=True).stdout.strip()}[name]
            p = os.path.join(libdir, "p-" + u.key, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            _link(p, common + ["-shared", "-fPIC", u.obj, "-L" + libdir, "-llm", "-Wl,-rpath," + libdir,
                               "-lstdc++fs", "-ldl"], None)
            out[name] = p
        for h, u in hun.items():
            p = os.path.join(libdir, "%s-%s" % (h, u.key))
            _link(p, common + [u.obj, "-L" + libdir, "-llm", "-Wl,-rpath," + libdir, "-lstdc++fs", "-latomic", "-ldl"], None)
            out[h] = p
        _prune()
    out["compiled"] = n
    out["build_s"] = round(time.time() - t0, 1)
    return out


if __name__ == "__main__":
    fl = sys.argv[1] if len(sys.argv) > 1 else "plain"
    print(build(fl, sys.argv[2:]))
