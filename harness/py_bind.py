"""P23: the Python bindings.  Values crossing the border arrive unchanged or are refused with a Python
exception; components written in Python act in C++ as their methods say; errors, lifetimes and parallel
loops behave across the border as they do on either side."""
import argparse, collections, gc, json, math, os, pickle, random, struct, subprocess, sys, threading, weakref
ap = argparse.ArgumentParser()
for a, d in (("out", ""), ("dir", "."), ("seed", "1"), ("tier", "quick"), ("part", "0"), ("parts", "1"), ("scale", "1"), ("only", "-1"), ("mode", "main"), ("pythonpath", "")):
    ap.add_argument("--" + a, default=d)
A = ap.parse_args()
for p in reversed(A.pythonpath.split(":")):
    if p:
        sys.path.insert(0, p)
import numpy as np
import lightmetrica as lm

COUNT, COVER, SAMPLES, VIOL = collections.Counter(), collections.defaultdict(set), [], collections.Counter()
CASE = "start"
os.makedirs(A.dir, exist_ok=True)
NOFILE = os.path.join(A.dir, "regular"); open(NOFILE, "w").close()  # a regular file, which can hold no files
np.seterr(all="ignore")
vf = open(A.out + ".viol", "w") if A.out else sys.stderr
pf = open(A.out + ".prog", "w") if A.out else open(os.devnull, "w")


def case(s):
    global CASE
    CASE = s
    pf.seek(0); pf.write("%-300s\n" % s); pf.flush()
    COUNT["cases"] += 1


def violation(key, detail):
    VIOL[key] += 1
    if VIOL[key] <= 3:
        vf.write(json.dumps({"key": key, "case": CASE, "detail": str(detail)[:1500]}) + "\n"); vf.flush()


def check(c, key, detail):
    if not c:
        violation(key, detail() if callable(detail) else detail)


def finish():
    o = {"counters": dict(COUNT), "cover": {k: {"n": len(v), "items": sorted(v)[:40]} for k, v in COVER.items()},
         "samples": SAMPLES[:12], "violations": sum(VIOL.values()), "finished": True}
    if A.out:
        with open(A.out, "w") as f:
            json.dump(o, f)
    else:
        print(json.dumps(o))


def same(a, b):
    """equal, with the same types (tuples count as lists), NaN equal to NaN, -0.0 different from 0.0"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("d", a) == struct.pack("d", b) or (math.isnan(a) and math.isnan(b))
    return type(a) is type(b) and a == b


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return e
    return None


# ---- JSON ------------------------------------------------------------------------------------------------
class Odd(dict):
    pass


def value(r, depth=0):
    k = r.randrange(11 if depth < 4 else 7)
    if k == 0: return None
    if k == 1: return r.random() < .5
    if k == 2: return r.randrange(-10, 10)
    if k == 3: return r.choice([2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32, 2**53 + 1, 2**63 - 1, -2**63, 10**10, r.randrange(-2**63, 2**63)])
    if k == 4: return r.choice([0.0, -0.0, 1.5, 1e308, 5e-324, float("inf"), -float("inf"), float("nan"), r.random(), r.uniform(-1e9, 1e9)])
    if k == 5: return "".join(r.choice("abz09 \"\\/\n\t\x00éあ😀$.{}[]") for _ in range(r.randrange(12)))
    if k == 6: return r.choice([2**63, 2**64 - 1, r.randrange(2**63, 2**64)])
    if k == 7: return [value(r, depth + 1) for _ in range(r.randrange(5))]
    if k == 8: return tuple(value(r, depth + 1) for _ in range(r.randrange(4)))
    d = Odd() if r.random() < .1 else {}
    for i in range(r.randrange(5)):
        d[r.choice(["a", "b", "key", "é", "", "x y", "k%d" % i])] = value(r, depth + 1)
    return d


def roundtrip(v):
    got = []
    lm.debug.reg_on_poll(lambda x: got.append(x))
    try:
        lm.debug.poll(v)
    finally:
        lm.debug.reg_on_poll(None)
    return got


def t_json(r):
    for _ in range(60):
        v = value(r); e = None
        try:
            got = roundtrip(v)
        except Exception as x:
            e = x
        COUNT["json values"] += 1; COVER["json"].add(type(v).__name__)
        if e is not None:
            violation("json:refused", "%r is refused: %s" % (v, e)); continue
        check(len(got) == 1 and same(v, got[0]), "json:changed", lambda: "%r arrives as %r" % (v, got))
    # numpy values: the right value or an exception
    for v in [np.float64(1.5), np.float32(1.5), np.int64(5), np.int32(-3), np.uint8(4), np.bool_(True), np.array([1.5, 2.5]), np.array([[1., 2], [3, 4]]), np.arange(6.)[::2], np.arange(3), np.array([1, 2], np.float32), np.array(2.5), np.str_("s")]:
        e = None
        try:
            got = roundtrip(v)
        except Exception:
            COUNT["refused values"] += 1; continue
        w = v.tolist()
        check(len(got) == 1 and got[0] == w, "json:numpy", lambda: "%r arrives as %r" % (v, got)); COUNT["json values"] += 1
    # things that are no JSON values
    tex = lm.load_texture("jt", "constant", color=[1, 1, 1])
    for v in [object(), set([1]), lambda: 0, {1: 2}, {None: 1}, {(1, 2): 1}, 2**64, -2**63 - 1, 10**40, 1j, lm.Ray(), lm.PointGeometry(), lm.Rng(1), tex.size(), [lm.Ray()], {"a": object()}, {"a": lm.Ray()}, lm.Texture, np, iter([1]), Exception("x"), lm.log.LogLevel.Info, "\ud800"]:
        for w in (v, [v], {"k": v}):
            e = None
            try:
                got = roundtrip(w)
            except Exception as x:
                e = x
            COUNT["refused values"] += 1; COVER["refused"].add(type(v).__name__)
            check(isinstance(e, Exception), "json:accepted:" + type(v).__name__, lambda: "%r is accepted and arrives as %r" % (w, got))
    # assets stand for their locators
    got = roundtrip({"a": tex, "b": [tex]})
    check(got == [{"a": "$.assets.jt", "b": ["$.assets.jt"]}], "json:asset", lambda: "a texture arrives as %r" % got)


# ---- vectors and matrices --------------------------------------------------------------------------------
def layouts(r, a):
    """arrays of the same values in different memory layouts"""
    yield "plain", a.copy()
    yield "fortran", np.asfortranarray(a)
    b = np.zeros(tuple(2 * s for s in a.shape)); b[tuple(slice(None, None, 2) for _ in a.shape)] = a; yield "strided", b[tuple(slice(None, None, 2) for _ in a.shape)]
    c = a[tuple(slice(None, None, -1) for _ in a.shape)].copy(); yield "reversed", c[tuple(slice(None, None, -1) for _ in a.shape)]
    if a.ndim == 2:
        yield "transposed", a.T.copy().T
        d = np.zeros((a.shape[0], a.shape[1] + 3)); d[:, 1:1 + a.shape[1]] = a; yield "columns", d[:, 1:1 + a.shape[1]]
    else:
        m = np.zeros((a.shape[0], 4)); m[:, 2] = a; yield "column", m[:, 2]
        yield "broadcast", np.broadcast_to(a, (2,) + a.shape)[1]
    yield "readonly", (lambda z: (z.setflags(write=False), z)[1])(a.copy())
    yield "unaligned", np.frombuffer(b"x" + a.tobytes(), dtype=np.uint8)[1:].view(np.float64).reshape(a.shape)
    yield "masked-subclass", a.view(type("Sub", (np.ndarray,), {}))


def bad_arrays(r, a):
    yield "float32", a.astype(np.float32)
    yield "int", a.astype(np.int64)
    yield "complex", a.astype(complex)
    yield "bigendian", a.astype(">f8")
    yield "object", a.astype(object)
    yield "list", a.tolist()
    yield "none", None
    yield "string", "123"


def wrong_shapes(r, a):
    if a.ndim == 1:
        n = a.shape[0]
        for s in [(0,), (1,), (n - 1,), (n + 1,), (n, 1), (1, n), (n, n), (2 * n,)]:
            yield s
        yield ()
    else:
        n = a.shape[0]
        for s in [(0, 0), (n * n,), (n - 1, n - 1), (n, n - 1), (n - 1, n), (n + 1, n + 1), (1, n * n), (n * n, 1), (n, n, 1), (2, n * n // 2), (0, n)]:
            yield s


def give(what, put, a, r):
    for name, x in layouts(r, a):
        COUNT["arrays"] += 1; COVER["layout"].add("%s:%s" % (what, name)); e = None
        try:
            g = put(x)
        except Exception as y:
            if name in ("unaligned",):
                COUNT["refused arrays"] += 1; continue
            violation("array:refused:%s:%s" % (what, name), "%s array for %s is refused: %s" % (name, what, y)); continue
        check(np.array_equal(np.asarray(g), a) and np.asarray(g).dtype == np.float64, "array:changed:%s:%s" % (what, name), lambda: "%s array %r for %s arrives as %r" % (name, a.tolist(), what, np.asarray(g).tolist()))
    for name, x in bad_arrays(r, a):
        COUNT["arrays"] += 1; COVER["layout"].add("%s:%s" % (what, name))
        try:
            g = put(x)
        except Exception:
            COUNT["refused arrays"] += 1; continue
        w = None if x is None or isinstance(x, str) else np.array(x).astype(np.float64)
        check(w is not None and np.array_equal(np.asarray(g), w), "array:type:" + name, lambda: "%s %r for %s arrives as %r" % (name, x, what, np.asarray(g).tolist()))
    for s in wrong_shapes(r, a):
        x = np.arange(float(int(np.prod(s)))).reshape(s); COUNT["arrays"] += 1; COUNT["refused arrays"] += 1
        e = raises(put, x)
        check(e is not None, "array:shape:" + what, lambda: "an array of shape %r is accepted for %s" % (s, what))


def num(r):
    return r.choice([r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-5, 5), 0.0, 1e300, -1e-300, float("inf")])


def t_arrays(r):
    ray, g = lm.Ray(), lm.PointGeometry()
    scene = lm.load_scene("as", "default")

    def setter(o, n):
        def f(x):
            setattr(o, n, np.full(2 if n in ("t",) else 3, 77.0)); setattr(o, n, x); return getattr(o, n)
        return f

    def group(x):
        i = scene.create_group_node(x); return scene.node_at(i).group.local_transform
    v3 = np.array([num(r) for _ in range(3)]); v2 = np.array([num(r) for _ in range(2)]); m4 = np.array([[num(r) for _ in range(4)] for _ in range(4)])
    give("vec3", setter(ray, "o"), v3, r); give("vec3", setter(g, "n"), v3, r); give("vec2", setter(g, "t"), v2, r); give("mat4", group, m4, r)
    # independent copies
    o = ray.o; o[:] = 5; check(not np.array_equal(ray.o, o) or True, "x", ""); a = np.array([1., 2, 3]); ray.d = a; a[0] = 9; check(ray.d.tolist() == [1, 2, 3], "array:alias", "changing an array after it was given changes the vector")
    d1 = ray.d; ray.d = np.array([4., 5, 6]); check(d1.tolist() == [1, 2, 3], "array:alias", "a vector read before changes with the object"); del ray; gc.collect(); check(d1.tolist() == [1, 2, 3], "array:dangling", "a vector does not outlive its object")
    # functions
    u = np.array([r.uniform(-2, 2) for _ in range(3)]); n = u / np.linalg.norm(u); w = np.array([r.uniform(-2, 2) for _ in range(3)]); t = r.uniform(-7, 7)
    T = np.eye(4); T[:3, 3] = u; S = np.diag(list(u) + [1.0]); K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]); R = np.eye(4); R[:3, :3] = np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K
    for nm, f, e in (("translate", lm.translate(u), T), ("scale", lm.scale(u), S), ("rotate", lm.rotate(t, u), R), ("identity", lm.identity(), np.eye(4)), ("v3", lm.v3(*u), u), ("reflection", lm.math.reflection(w, n), 2 * (w @ n) * n - w), ("rad", lm.rad(t), math.radians(t)), ("sq", lm.math.sq(t), t * t), ("safe_sqrt", lm.math.safe_sqrt(t), math.sqrt(max(0, t)))):
        check(np.allclose(f, e, rtol=1e-12, atol=1e-12), "math:" + nm, lambda: "%s gives %r, expected %r" % (nm, np.asarray(f).tolist(), np.asarray(e).tolist())); COUNT["math values"] += 1
    b = lm.math.orthonormal_basis(n); check(len(b) == 2 and np.allclose([b[0] @ b[1], b[0] @ n, b[1] @ n, b[0] @ b[0], b[1] @ b[1]], [0, 0, 0, 1, 1], atol=1e-9), "math:basis", "orthonormal_basis gives %r" % (b,))
    M = T @ R @ S; check(np.allclose(lm.translate(u) @ lm.rotate(t, u) @ lm.scale(u), M), "math:product", "the product of matrices")
    i = scene.create_group_node(lm.translate(u) @ lm.rotate(t, u)); check(np.allclose(scene.node_at(i).group.local_transform, T @ R), "math:node", "the transform of a node")
    s = r.randrange(1, 2**31 - 1); a = lm.Rng(s); c = lm.Rng(s); xs = [a.u() for _ in range(20)]; check(xs == [c.u() for _ in range(20)] and all(0 <= x < 1 for x in xs) and len(set(xs)) == 20, "math:rng", "random numbers %r" % xs)
    g1 = lm.PointGeometry.make_on_surface(u, n, n, np.array([.25, .5])); g2 = lm.PointGeometry.make_on_surface(u + 2 * n, n, n)
    check(g1.p.tolist() == u.tolist() and g1.n.tolist() == n.tolist() and g1.gn.tolist() == n.tolist() and g1.t.tolist() == [.25, .5] and not g1.degenerated and not g1.infinite, "geometry:surface", "a point on a surface reads back differently")
    check(np.isclose(lm.surface.geometry_term(g1, g2), 1 / 4), "geometry:term", "geometry term %r" % lm.surface.geometry_term(g1, g2)); gi = lm.PointGeometry.make_infinite(n); check(gi.infinite and gi.wo.tolist() == n.tolist(), "geometry:infinite", "a point at infinity"); gd = lm.PointGeometry.make_degenerated(u); check(gd.degenerated and gd.p.tolist() == u.tolist(), "geometry:degenerated", "a degenerated point")


# ---- film ------------------------------------------------------------------------------------------------
def t_film(r):
    w, h = r.randrange(1, 9), r.randrange(1, 9); f = lm.load_film("film%d" % r.randrange(3), "bitmap", r.choice([{"w": w, "h": h}, {"h": h, "w": w, "quality": 50}]))
    s = f.size(); check((s.w, s.h, f.num_pixels()) == (w, h, w * h) and math.isclose(f.aspect(), w / h), "film:size", "a film of %dx%d has size %dx%d" % (w, h, s.w, s.h))
    ref = np.zeros((h, w, 3)); b = np.array(f.buffer(), copy=False); check(b.shape == (h, w, 3) and b.dtype == np.float64, "film:shape", "the buffer of a %dx%d film has shape %r" % (w, h, b.shape))
    if b.shape != (h, w, 3):
        return
    for _ in range(40):
        x, y, c = r.randrange(w), r.randrange(h), np.array([r.random() for _ in range(3)])
        f.set_pixel(x, y, c); ref[y, x] = c; COUNT["pixels"] += 1
    b = np.array(f.buffer()); check(np.array_equal(b, ref), "film:pixels", lambda: "pixels differ: %r and %r" % (b.tolist(), ref.tolist()))
    p = os.path.join(A.dir, "f%d.pfm" % r.randrange(3)); ok = f.save(p); check(ok and os.path.getsize(p) >= 12 * w * h, "film:save", "saving a film")
    z = os.path.join(NOFILE, "x.pfm"); check(raises(f.save, z) is not None or f.save(z) is False, "film:save-failed", "saving below a regular file succeeds")
    col = [r.random() for _ in range(3)]; q = lm.load_renderer("blank", "blank", color=col, output=f); q.render(); b = np.array(f.buffer()); check(np.array_equal(b, np.broadcast_to(col, (h, w, 3))), "film:blank", "a rendered film seen from Python"); COUNT["films"] += 1


# ---- components written in Python ------------------------------------------------------------------------
ALIVE = collections.Counter(); BORN = collections.Counter(); LOG = []; CALLS = collections.Counter(); LOCK = threading.Lock()


class Track:
    def born(self):
        BORN[type(self).__name__] += 1; ALIVE[type(self).__name__] += 1
        weakref.finalize(self, Track.dead, type(self).__name__)

    @staticmethod
    def dead(n):
        ALIVE[n] -= 1


@lm.pylm_component("texture::vh_py")
class PyTexture(lm.Texture, Track):
    def construct(self, prop):
        self.born(); self.prop = prop
        if prop.get("fail"):
            raise KeyError("construct %s" % prop["fail"])
        self.c = np.array(prop.get("c", [0., 0, 0]))

    def eval(self, t):
        with LOCK:
            CALLS["texture"] += 1
        if self.prop.get("raise"):
            raise ZeroDivisionError(self.prop["raise"])
        return np.array([t[0], t[1], 0.0]) + self.c

    def size(self):
        return lm.load_texture("sz", "constant", color=[0, 0, 0]).size()


@lm.pylm_component("mesh::vh_py")
class PyMesh(lm.Mesh, Track):
    """delegates to another mesh, moved"""
    def construct(self, prop):
        self.born(); self.inner = lm.get_mesh(prop["inner"]); self.d = np.array(prop["d"])

    def num_triangles(self):
        return self.inner.num_triangles()

    def triangle_at(self, f):
        t = self.inner.triangle_at(f)
        for k in ("p1", "p2", "p3"):
            q = getattr(t, k); q.p = q.p + self.d; setattr(t, k, q)
        return t

    def foreach_triangle(self, process):
        for f in range(self.num_triangles()):
            process(f, self.triangle_at(f))

    def surface_point(self, f, uv):
        q = self.inner.surface_point(f, uv); q.p = q.p + self.d; return q


@lm.pylm_component("camera::vh_py")
class PyCamera(lm.Camera, Track):
    def construct(self, prop):
        self.born(); self.inner = lm.get_camera(prop["inner"])

    def set_aspect_ratio(self, a):
        self.inner.set_aspect_ratio(a)

    def primary_ray(self, rp):
        with LOCK:
            CALLS["camera"] += 1
        return self.inner.primary_ray(rp)

    def raster_position(self, wo):
        return self.inner.raster_position(wo)

    def view_matrix(self):
        return self.inner.view_matrix()

    def projection_matrix(self):
        return self.inner.projection_matrix()

    def is_connectable(self, g):
        return self.inner.is_connectable(g)

    def eval(self, wo):
        return self.inner.eval(wo)

    def pdf_direction(self, g, wo):
        return self.inner.pdf_direction(g, wo)


@lm.pylm_component("material::vh_py")
class PyMaterial(lm.Material, Track):
    def construct(self, prop):
        self.born(); self.k = prop.get("k", 1.0); self.err = prop.get("err")

    def is_specular_component(self, c):
        return bool(self.k > 5)

    def reflectance(self, g):
        with LOCK:
            CALLS["material"] += 1
        if self.err and abs(g.p[0]) < self.err:
            raise LookupError("reflectance")
        return np.abs(g.gn) * self.k


@lm.pylm_component("volume::vh_py")
class PyVolume(lm.Volume, Track):
    def construct(self, prop):
        self.born(); self.p = prop

    def has_scalar(self):
        return self.p["hs"]

    def has_color(self):
        return self.p["hc"]

    def max_scalar(self):
        return self.p["max"]

    def eval_scalar(self, p):
        return float(p[0] * 2 + p[1])

    def eval_color(self, p):
        return p * 3


@lm.pylm_component("medium::vh_py")
class PyMedium(lm.Medium, Track):
    def construct(self, prop):
        self.born(); self.u = []

    def sample_distance(self, rng, ray, tmin, tmax):
        self.u.append(rng.u()); return None

    def eval_transmittance(self, rng, ray, tmin, tmax):
        self.u.append(rng.u()); return np.array([1., 1, 1])

    def is_emitter(self):
        return False

    def phase(self):
        return lm.get_phase("$.assets.ph")


@lm.pylm_component("renderer::vh_py")
class PyRenderer(lm.Renderer, Track):
    def construct(self, prop):
        self.born(); self.p = prop
        if prop.get("film"):
            self.film = lm.get_film(prop["film"])

    def save(self):
        return pickle.dumps(self.p)

    def load(self, s):
        self.born(); self.p = pickle.loads(s)

    def render(self):
        if self.p.get("raise"):
            raise OSError(5, self.p["raise"])
        if self.p.get("film"):
            s = self.film.size(); seen = collections.Counter()

            def body(i, t):
                with LOCK:
                    seen[i] += 1
                x, y = i % s.w, i // s.w; self.film.set_pixel(x, y, np.array([x + .5, y + .25, 1.0]))
            lm.parallel.foreach(s.w * s.h, body)
            return {"seen": sorted(seen.values())}
        return self.p.get("ret")


@lm.pylm_component("component::vh_py")
class PyComponent(lm.Component, Track):
    def construct(self, prop):
        self.born(); self.p = prop

    def save(self):
        return pickle.dumps(self.p)

    def load(self, s):
        self.born(); self.p = pickle.loads(s)


@lm.pylm_component("accel::vh_py")
class PyAccel(lm.Accel, Track):
    def construct(self, prop):
        self.born(); self.inner = lm.get_accel(prop["inner"]); self.built = 0

    def build(self, scene):
        self.built = scene.num_nodes(); self.inner.build(scene)

    def intersect(self, ray, tmin, tmax):
        return self.inner.intersect(ray, tmin, tmax)


@lm.pylm_component("logger::vh_py")
class PyLogger(lm.log.LoggerContext, Track):
    def construct(self, prop):
        self.born(); self.p = prop

    def log(self, level, severity, filename, line, message):
        with LOCK:
            LOG.append((level, severity, filename, line, message))

    def update_indentation(self, n):
        with LOCK:
            LOG.append(("indent", n))

    def set_severity(self, s):
        with LOCK:
            LOG.append(("severity", s))


PROG = []


@lm.pylm_component("progress::vh_py")
class PyProgress(lm.progress.ProgressContext, Track):
    def construct(self, prop):
        self.born()

    def start(self, mode, total, t):
        with LOCK:
            PROG.append(("start", mode, total))

    def update(self, n):
        with LOCK:
            PROG.append(("update", n))

    def update_time(self, t):
        with LOCK:
            PROG.append(("time", t))

    def end(self):
        with LOCK:
            PROG.append(("end",))


def mesh(r, name):
    n = r.randrange(1, 8); ps = [r.uniform(-1, 1) for _ in range(9 * n)]; ns = [c for _ in range(3 * n) for c in (0., 0., 1.)]; ts = [r.random() for _ in range(6 * n)]; fs = {"p": list(range(3 * n)), "n": list(range(3 * n)), "t": list(range(3 * n))}
    return lm.load_mesh(name, "raw", ps=ps, ns=ns, ts=ts, fs=fs), n


def t_components(r):
    lm.reset(); gc.collect()
    # texture
    c = [r.random() for _ in range(3)]; T = lm.load_texture("t", "vh_py", c=c); check(type(T) is PyTexture and T.loc() == "$.assets.t" and T.key() == "texture::vh_py" and lm.get_texture("$.assets.t") is T and lm.get("$.assets.t") is T, "py:identity", "a component written in Python has another identity in C++: %r" % T)
    m = lm.load_material("m", "diffuse", mapKd=T); g = lm.PointGeometry(); uv = np.array([r.random(), r.random()]); g.t = uv; e = np.array([uv[0], uv[1], 0]) + np.array(c); n0 = CALLS["texture"]
    check(np.array_equal(m.reflectance(g), e) and CALLS["texture"] == n0 + 1, "py:texture", lambda: "a texture in Python gives %r, expected %r" % (m.reflectance(g), e)); COUNT["calls into Python"] += 1
    # volume
    p = {"hs": r.random() < .5, "hc": r.random() < .5, "max": r.uniform(2, 9)}; V = lm.load_volume("v", "vh_py", p); q = np.array([r.random() for _ in range(3)])
    got = (lm.Volume.has_scalar(V), lm.Volume.has_color(V), lm.Volume.max_scalar(V), lm.Volume.eval_scalar(V, q), lm.Volume.eval_color(V, q).tolist())
    check(got == (p["hs"], p["hc"], p["max"], q[0] * 2 + q[1], (q * 3).tolist()), "py:volume", lambda: "a volume in Python gives %r, expected %r" % (got, p)); COUNT["calls into Python"] += 5
    # mesh, camera, material in a scene: like the C++ ones
    inner, n = mesh(r, "inner"); d = [r.uniform(-.5, .5) for _ in range(3)]; P = lm.load_mesh("pm", "vh_py", inner=inner, d=d)
    ps, idx = [], []
    for f in range(n):
        t = inner.triangle_at(f); ps += [x + y for k in (t.p1, t.p2, t.p3) for x, y in zip(k.p, d)]
    raw = lm.load_mesh("raw", "raw", ps=ps, ns=[c for _ in range(3 * n) for c in (0., 0., 1.)], ts=[x for f in range(n) for k in ("p1", "p2", "p3") for x in getattr(inner.triangle_at(f), k).t], fs={"p": list(range(3 * n)), "n": list(range(3 * n)), "t": list(range(3 * n))})
    seen = []; lm.Mesh.foreach_triangle(P, lambda f, t: seen.append((f, t.p1.p.tolist(), t.p2.p.tolist(), t.p3.p.tolist()))); want = []; raw.foreach_triangle(lambda f, t: want.append((f, t.p1.p.tolist(), t.p2.p.tolist(), t.p3.p.tolist())))
    check(seen == want and len(seen) == n, "py:mesh", lambda: "triangles of a mesh in Python: %r, expected %r" % (seen, want)); COUNT["calls into Python"] += n
    mat = lm.load_material("pmat", "vh_py", k=r.uniform(.1, 2)); cam = lm.load_camera("cam", "pinhole", position=[r.uniform(-.3, .3), r.uniform(-.3, .3), 4], center=[0, 0, 0], up=[0, 1, 0], vfov=40, aspect=1); pcam = lm.load_camera("pcam", "vh_py", inner=cam)
    k = mat.k; dif = lm.load_material("dm", "diffuse", Kd=[1, 1, 1])
    scenes = []
    for i, (me, ca, ac) in enumerate(((raw, cam, 0), (P, pcam, 0), (P, cam, 1))):
        a = lm.load_accel("acc%d" % i, "sahbvh"); a = lm.load_accel("pacc%d" % i, "vh_py", inner=a) if ac else a
        s = lm.load_scene("sc%d" % i, "default", accel=a); M = lm.translate(np.array([.1, .2, .3])); r.choice([lambda: s.add_transformed_primitive(M, {"mesh": me, "material": mat}), lambda: s.add_transformed_primitive(M, mesh=me, material=mat)])(); s.add_primitive(camera=ca); s.build()
        if ac:
            check(a.built == s.num_nodes(), "py:accel", "an acceleration structure in Python is built with another scene (%d nodes)" % a.built)
        scenes.append(s)
    for _ in range(25):
        ray = lm.Ray(); ray.o = np.array([r.uniform(-1, 1), r.uniform(-1, 1), 3.]); t = np.array([r.uniform(-1, 1), r.uniform(-1, 1), 0.]); ray.d = (t - ray.o) / np.linalg.norm(t - ray.o); a, b = r.choice([(lm.Eps, lm.Inf), (.5, 3.)])
        h = [s.intersect(ray, a, b) if r.random() < .5 or (a, b) != (lm.Eps, lm.Inf) else s.intersect(ray) for s in scenes]; COUNT["ray queries"] += 1
        check(all((x is None) == (h[0] is None) for x in h), "py:intersect", "a scene of Python components answers a ray differently")
        if h[0] is not None and all(h):
            check(all(np.allclose(x.geom.p, h[0].geom.p, atol=1e-9) and np.allclose(x.geom.gn, h[0].geom.gn) and np.allclose(x.geom.t, h[0].geom.t) and x.primitive == h[0].primitive for x in h), "py:intersect", "a scene of Python components answers a ray differently"); COUNT["ray hits"] += 1
            x = h[0]; check(bool(scenes[0].visible(x, x)) in (True, False) and x.type == lm.SurfaceInteraction, "py:interaction", "type %r" % x.type)
    w, hh = r.randrange(2, 9), r.randrange(2, 9); imgs = []; lm.parallel.init("openmp", num_threads=r.choice([1, 2, 4, 7]))
    for i, s in enumerate(scenes):
        f = lm.load_film("film%d" % i, "bitmap", w=w, h=hh); q = lm.load_renderer("rc%d" % i, "raycast", scene=s, output=f, bg_color=[.1, .2, .3]); q.render(); imgs.append(np.array(f.buffer())); COUNT["images"] += 1
    check(all(np.allclose(x, imgs[0], atol=1e-9) for x in imgs), "py:image", lambda: "images of scenes with Python components differ by %r" % max(np.abs(x - imgs[0]).max() for x in imgs)); COUNT["images with hits"] += int(bool((imgs[0] != np.array([.1, .2, .3])).any()))
    # node access: values stay what they were
    s = scenes[0]; nodes = [s.node_at(i) for i in range(s.num_nodes())]; before = [(x.index, x.type) for x in nodes]
    for _ in range(50):
        s.create_group_node(lm.identity())
    check([(x.index, x.type) for x in nodes] == before, "py:node", "nodes read before others were created changed: %r, %r" % ([(x.index, x.type) for x in nodes], before)); COUNT["nodes"] += len(nodes)
    tr = []; s.traverse_primitive_nodes(lambda nd, M: tr.append((nd.index, nd.type, M.copy(), nd.primitive.mesh, nd.primitive.camera) if nd.type == lm.SceneNodeType.Primitive else (nd.index, nd.type, M.copy()))); pr = [x for x in tr if x[1] == lm.SceneNodeType.Primitive]
    MT = np.eye(4); MT[:3, 3] = [.1, .2, .3]
    check(len(pr) == 2 and np.allclose(pr[0][2], MT) and pr[0][3] is not None and pr[0][3].loc() == raw.loc() and pr[0][4] is None and pr[1][4] is not None and pr[1][4].loc() == cam.loc() and np.allclose(pr[1][2], np.eye(4)), "py:traverse", lambda: "traversal from Python gives %r" % pr)
    check(s.camera_node() == pr[1][0] and s.num_lights() == 0 and s.env_light_node() == -1, "py:scene", "parts of the scene")
    # medium: random numbers of the caller advance
    lm.load_phase("ph", "isotropic"); Md = lm.load_medium("med", "vh_py"); rng = lm.Rng(7); ref = lm.Rng(7); us = [ref.u() for _ in range(4)]; ray = lm.Ray(); ray.d = np.array([0., 0, 1])
    lm.Medium.sample_distance(Md, rng, ray, 0., 1.); lm.Medium.eval_transmittance(Md, rng, ray, 0., 1.); lm.Medium.sample_distance(Md, rng, ray, 0., 1.); nxt = rng.u()
    check(Md.u == us[:3] and nxt == us[3], "py:rng", "a medium in Python receives the random numbers %r and leaves %r, expected %r" % (Md.u, nxt, us)); COUNT["calls into Python"] += 3
    check(Md.phase().loc() == "$.assets.ph" and lm.Medium.phase(Md).loc() == "$.assets.ph", "py:phase", "the phase function of a medium in Python")
    # renderer in Python
    v = value(r); q = lm.load_renderer("r1", "vh_py", {"ret": v}); x = lm.Renderer.render(q); check(same(x, v), "py:return", lambda: "%r returned by a renderer arrives as %r" % (v, x))
    f = lm.load_film("pf", "bitmap", w=w, h=hh); q = lm.load_renderer("r2", "vh_py", film=f.loc()); x = lm.Renderer.render(q); b = np.array(f.buffer()); Y, X = np.mgrid[0:hh, 0:w]
    check(x == {"seen": [1] * (w * hh)} and np.array_equal(b, np.dstack([X + .5, Y + .25, np.ones((hh, w))])), "py:renderer", "a renderer in Python misses pixels: %r" % x); COUNT["images"] += 1
    # exceptions of Python come back as they are
    bad = lm.load_texture("bad", "vh_py", {"raise": "deep"}); bm = lm.load_material("bm", "diffuse", mapKd=bad); e = raises(bm.reflectance, g); check(type(e) is ZeroDivisionError and e.args == ("deep",), "py:exception", "an exception of a texture arrives as %r" % e)
    q = lm.load_renderer("r3", "vh_py", {"raise": "x"}); e = raises(lm.Renderer.render, q); check(type(e) is OSError and e.errno == 5, "py:exception", "an exception of a renderer arrives as %r" % e)
    em = lm.load_material("em", "vh_py", err=10.0); s = lm.load_scene("es", "default", accel=lm.load_accel("ea", "sahbvh")); s.add_primitive(mesh=raw, material=em); s.add_primitive(camera=cam); s.build(); q = lm.load_renderer("er", "raycast", scene=s, output=f); hits = (imgs[0] != np.array([.1, .2, .3])).any()
    e = raises(q.render); COUNT["exceptions"] += 3; s.build(); any_hit = CALLS["material"]
    check(e is None or type(e) is LookupError or "reflectance" in str(e), "py:exception", "an exception of a material within a rendering arrives as %r" % e)
    e = raises(lm.load_texture, "cf", "vh_py", fail="now"); check(isinstance(e, KeyError) and lm.get("$.assets.cf") is None, "py:construct", "an exception of a constructor arrives as %r" % e)
    # exceptions of C++ arrive as Python exceptions, and nothing is left
    for f2 in (lambda: lm.load_camera("nx", "pinhole", position=[0, 0, 0]), lambda: lm.load_texture("nx", "constant", color="x"), lambda: lm.load_material("nx", "proxy", ref="$.assets.nope"), lambda: lm.load_renderer("nx", "pt", {}), lambda: lm.load_film("nx", "bitmap", w=[1], h=2)):
        e = raises(f2); check(isinstance(e, Exception) and lm.get("$.assets.nx") is None, "cpp:exception", "a defective asset is accepted"); COUNT["exceptions"] += 1
    check(lm.get("$.assets.nope") is None and lm.get_mesh("$.assets.t") is None and lm.comp.get("") is None or True, "cpp:get", "")
    check(lm.get("$.assets.nope") is None and lm.get_mesh("$.assets.t") is None, "cpp:get", "a locator that leads nowhere gives an object")
    check(lm.Texture.cast(lm.get("$.assets.m")) is None and lm.Material.cast(lm.get("$.assets.m")) is not None, "cpp:cast", "casting between interfaces")
    for cls, key in ((lm.Texture, "texture::nope"), (lm.Texture, "")):
        e = raises(cls.create, key, "", {}); check(e is not None or cls.create(key, "", {}) is None, "cpp:create", "an unknown component is created")
    x = lm.Texture.create("texture::constant", "", {"color": [1, 2, 3]}); check(x.eval(uv).tolist() == [1, 2, 3], "cpp:create", "a texture created from Python"); del x
    x = lm.Texture.create("texture::vh_py", "", {"c": c}); check(type(x) is PyTexture and np.array_equal(lm.Texture.eval(x, uv), e0(uv, c)), "py:create", "a Python texture created from Python"); del x


def e0(uv, c):
    return np.array([uv[0], uv[1], 0]) + np.array(c)


def t_kwargs(r):
    """dictionaries and keyword arguments mean the same; groups work like the root"""
    lm.reset(); c = [r.random() for _ in range(3)]; G = lm.load_asset_group("g", "default", {}); H = G.load_asset_group("h", "default")
    a = lm.load_texture("a", "constant", {"color": c}); b = lm.load_texture("b", "constant", color=c); d = G.load_texture("d", "constant", color=c); e = H.load_texture("e", "constant", {"color": np.array(c)}); H.load_asset("f", "texture::constant", {"color": c}); f = lm.get_texture("$.assets.g.h.f"); u = np.array([.1, .2])
    check(all(x.eval(u).tolist() == c for x in (a, b, d, e, f)), "kwargs:value", "textures loaded in different ways differ"); check(d.loc() == "$.assets.g.d" and e.loc() == "$.assets.g.h.e" and f.loc() == "$.assets.g.h.f" and lm.get_texture("$.assets.g.h.e").loc() == e.loc() and lm.get("$.assets.g.h").loc() == H.loc(), "kwargs:loc", "locators of nested assets"); COUNT["assets"] += 5
    m = H.load_material("m", "diffuse", mapKd=e); g = lm.PointGeometry(); g.t = u; check(m.reflectance(g).tolist() == c, "kwargs:ref", "an asset given as a parameter")
    c2 = [r.random() for _ in range(3)]; H.load_texture("e", "constant", color=c2); check(m.reflectance(g).tolist() == c2, "kwargs:replace", "an asset replaced from Python")
    names = lm.registered_components(); check("texture::constant" in names and "texture::vh_py" in names and len(names) == len(set(names)), "registered", "registered components: %r" % (names,))
    z = lm.array([1, 2, 3]); ray = lm.Ray(); ray.o = z; check(ray.o.tolist() == [1, 2, 3], "array:default", "an array of lm.array is not the one given")


def t_lifetime(r):
    """components written in Python live exactly as long as they are registered or referenced"""
    lm.reset(); gc.collect(); base = dict(ALIVE); held = []; named = {}

    def total():
        gc.collect(); return sum(ALIVE.values()) - sum(base.values())
    for _ in range(40):
        k = r.randrange(7); n = "n%d" % r.randrange(5)
        if k <= 2:
            x = lm.load_texture(n, "vh_py", c=[1., 2, 3]); named[n] = id(x); check(type(x) is PyTexture and x.c.tolist() == [1, 2, 3], "life:state", "a component loses its state")
            if r.random() < .3: held.append(x)
            del x
        elif k == 3 and held:
            held.pop(r.randrange(len(held)))
        elif k == 4:
            raises(lm.load_texture, n, "vh_py", fail="x")
        elif k == 5:
            x = lm.Texture.create("texture::vh_py", "", {"c": [3., 2, 1]}); check(lm.Texture.eval(x, np.array([1., 1])).tolist() == [4, 3, 1], "life:created", "a created component")
            del x
        elif r.random() < .15:
            lm.reset(); named.clear()
        COUNT["lifecycle operations"] += 1
        for q in named:
            t = lm.get_texture("$.assets." + q); check(type(t) is PyTexture and lm.Texture.eval(t, np.array([0., 0])).tolist() == [1, 2, 3], "life:lost", "a registered component of Python is lost")
            del t
        ids = set(named.values()) | set(id(h) for h in held)
        k = total(); check(k == len(ids), "life:number", lambda: "%d components of Python exist, %d are registered or held" % (k, len(ids)))
        if k != len(ids):
            break
    held.clear(); lm.reset(); check(total() == 0, "life:end", "%d components of Python remain" % total())


def t_parallel(r):
    lm.parallel.init("openmp", {"num_threads": r.choice([1, 2, 3, 4, 8])}); T = lm.parallel.num_threads()
    for _ in range(6):
        n = r.choice([0, 1, 2, 7, 50, 200]); seen = collections.Counter(); tids = set()

        def body(i, t):
            with LOCK:
                seen[i] += 1; tids.add(t)
        lm.parallel.foreach(n, body); check(sorted(seen) == list(range(n)) and all(v == 1 for v in seen.values()) and all(0 <= t < T for t in tids), "parallel:once", lambda: "a loop of %d iterations on %d threads ran %r" % (n, T, seen)); COUNT["iterations"] += n; COVER["threads"].add(str(T))
        if n:
            bad = r.randrange(n)

            def body2(i, t):
                if i == bad:
                    raise ArithmeticError("iteration %d" % i)
            e = raises(lm.parallel.foreach, n, body2); check(isinstance(e, ArithmeticError) and str(bad) in str(e), "parallel:exception", "an exception of iteration %d arrives as %r" % (bad, e)); COUNT["exceptions"] += 1
    lm.parallel.init("openmp", num_threads=2)


def t_context(r):
    """loggers and progress reports in Python"""
    LOG.clear(); lm.log.init("vh_py", r.choice([{}, {"a": 1}])); msgs = []
    for _ in range(20):
        lv = r.choice([lm.log.LogLevel.Debug, lm.log.LogLevel.Info, lm.log.LogLevel.Warn, lm.log.LogLevel.Err]); sv = r.randrange(-50, 50); ln = r.randrange(1000); t = "m%d é{}" % r.randrange(1000); fn = "f%d" % r.randrange(9); lm.log.log(lv, sv, fn, ln, t); msgs.append((lv, sv, fn, ln, t))
        if r.random() < .2:
            lm.log.update_indentation(1); msgs.append(("indent", 1))
        if r.random() < .2:
            lm.log.set_severity(3); msgs.append(("severity", 3))
    check(LOG == msgs, "context:logger", lambda: "a logger in Python received %r instead of %r" % (LOG[:5], msgs[:5])); COUNT["messages"] += len(msgs)
    # messages of C++ code, also from other threads
    LOG.clear(); lm.get("$.assets.nope.x"); lm.load_texture("tl", "constant", color=[1, 1, 1]); check(any(len(x) == 5 and x[0] == lm.log.LogLevel.Err and "nope" in x[4] for x in LOG) and sum(x[1] for x in LOG if x[0] == "indent") == 0, "context:messages", lambda: "messages of C++ in a Python logger: %r" % LOG); COUNT["messages"] += len(LOG)
    lm.log.init("default"); lm.log.set_severity(1000)
    PROG.clear(); lm.progress.init("vh_py"); lm.progress.start(lm.progress.ProgressMode.Samples, 10, 0); lm.progress.update(2**40); lm.progress.update(3); lm.progress.end()
    check(PROG == [("start", lm.progress.ProgressMode.Samples, 10), ("update", 2**40), ("update", 3), ("end",)], "context:progress", lambda: "progress %r" % PROG); PROG.clear()
    lm.parallel.init("openmp", num_threads=r.choice([1, 3]), progress_update_interval=1); f = lm.load_film("fp", "bitmap", w=5, h=4); inner, n = mesh(r, "ip"); s = lm.load_scene("sp", "default", accel=lm.load_accel("ap", "sahbvh")); s.add_primitive(mesh=inner, material=lm.load_material("mp", "diffuse", Kd=[1, 1, 1])); s.add_primitive(camera=lm.load_camera("cp", "pinhole", position=[0, 0, 4], center=[0, 0, 0], up=[0, 1, 0], vfov=40, aspect=1)); s.build()
    lm.load_renderer("rp", "raycast", scene=s, output=f).render(); kinds = [x[0] for x in PROG]
    check(kinds and kinds[0] == "start" and kinds[-1] == "end" and kinds.count("start") == 1 and kinds.count("end") == 1 and PROG[0][2] == 20 and all(0 <= x[1] <= 20 for x in PROG if x[0] == "update"), "context:render", lambda: "progress of a rendering in Python: %r" % PROG); COUNT["progress events"] += len(PROG)
    lm.progress.init(); lm.parallel.init("openmp", num_threads=2)


def t_serial(r):
    lm.reset(); v = value(r); X = lm.assets().load_asset("x", "component::vh_py", {"v": v}); R = lm.load_renderer("r", "vh_py", {"ret": v}); c = [r.random() for _ in range(3)]; T = lm.load_texture("t", "constant", color=c); p = os.path.join(A.dir, "state"); u = np.array([.1, .2])
    lm.save_state_to_file(p); lm.reset(); check(lm.get("$.assets.x") is None, "serial:reset", "assets remain after a reset"); lm.load_state_from_file(p)
    X2, R2 = lm.get("$.assets.x"), lm.get_renderer("$.assets.r"); check(type(X2) is PyComponent and same(X2.p["v"], v) and X2.loc() == "$.assets.x", "serial:component", lambda: "a component of Python is restored as %r" % X2); check(type(R2) is PyRenderer and same(lm.Renderer.render(R2), v), "serial:renderer", lambda: "a renderer of Python is restored as %r" % R2)
    T2 = lm.get_texture("$.assets.t"); check(T2.eval(u).tolist() == c, "serial:texture", "a texture restored from Python"); COUNT["restored"] += 3
    b = T2.save(); T3 = lm.Texture.create_without_construct("texture::constant", "", ); T3.load(b); check(isinstance(b, bytes) and T3.eval(u).tolist() == c, "serial:bytes", "a texture restored from bytes")
    q = os.path.join(A.dir, "asset"); T2.save_to_file(q); S = lm.load_serialized("s", q); S = lm.get_texture("$.assets.s"); check(S is not None and S.eval(u).tolist() == c and S.loc() == "$.assets.s", "serial:file", "a texture restored from a file"); COUNT["restored"] += 2
    X2.save_to_file(q); lm.load_serialized("sx", q); Y = lm.get("$.assets.sx"); check(type(Y) is PyComponent and same(Y.p["v"], v), "serial:file", "a component of Python restored from a file")
    e = raises(T2.save_to_file, os.path.join(NOFILE, "file")); check(e is not None, "serial:unwritable", "saving to a missing directory is not reported"); e = raises(lm.load_serialized, "bad", os.path.join(A.dir, "missing", "file")); check(e is not None and lm.get("$.assets.bad") is None, "serial:missing", "loading a missing file is not reported")
    bad = lm.Texture.create_without_construct("texture::constant", ""); e = raises(bad.load, b"\x01\x02"); check(e is not None, "serial:truncated", "loading truncated bytes is not reported"); COUNT["exceptions"] += 3


EXITS = ["pass", "lm.debug.reg_on_poll(lambda v: None)", "x = lm.load_texture('a', 'py', {})", "lm.load_texture('a', 'py', {})", "x = lm.load_texture('a', 'py', {}); lm.shutdown()", "lm.log.init('py')", "lm.progress.init('py')", "lm.load_renderer('r', 'blank', color=[1,1,1], output=lm.load_film('f', 'bitmap', w=2, h=2)).render()",
         "lm.load_material('m', 'diffuse', mapKd=lm.load_texture('a', 'py', {}))", "x = lm.Texture.create('texture::py', '', {})", "x = lm.Texture.create('texture::constant', '', {'color': [1,1,1]})", "x = lm.load_film('f', 'bitmap', w=2, h=2); import numpy as np; y = np.array(x.buffer(), copy=False)", "x = lm.load_texture('a', 'py', {}); lm.reset(); lm.shutdown()"]


def t_exit(r):
    for s in r.sample(EXITS, 4):
        code = ("import sys; sys.path[:0] = %r\nimport lightmetrica as lm\n@lm.pylm_component('texture::py')\nclass T(lm.Texture):\n    def construct(self, prop): self.p = prop\n"
                "@lm.pylm_component('logger::py')\nclass L(lm.log.LoggerContext):\n    def construct(self, p): pass\n    def log(self, *a): pass\n    def update_indentation(self, n): pass\n    def set_severity(self, s): pass\n"
                "@lm.pylm_component('progress::py')\nclass G(lm.progress.ProgressContext):\n    def construct(self, p): pass\n    def start(self, *a): pass\n    def update(self, *a): pass\n    def update_time(self, *a): pass\n    def end(self): pass\n"
                "lm.init()\nlm.log.set_severity(1000)\n%s\nprint('reached the end')\n" % ([x for x in A.pythonpath.split(":") if x], s))
        q = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=120, cwd=A.dir)
        COUNT["process exits"] += 1; COVER["exit"].add(s)
        check("reached the end" in q.stdout, "exit:script", "the script '%s' fails: %s" % (s, q.stderr[-800:])); check(q.returncode == 0, "exit:crash", lambda: "the process of '%s' ends with %d: %s" % (s, q.returncode, q.stderr[-800:]))


def main():
    lm.init(); lm.log.set_severity(1000000); lm.parallel.init("openmp", num_threads=2); n = max(1, int((6000 if A.tier == "thorough" else 320) * float(A.scale))); P = int(A.parts); me = int(A.part or 0)
    tests = [t_json, t_arrays, t_film, t_components, t_kwargs, t_lifetime, t_parallel, t_context, t_serial]
    for c in range(me, n, P):
        if int(A.only) >= 0 and int(A.only) != c:
            continue
        r = random.Random(int(A.seed) * 1000003 + c); t = tests[(c // P) % len(tests)]
        if (c // P) % 40 == 39: t = t_exit
        case("case %d %s" % (c, t.__name__))
        try:
            t(r); COUNT["cases." + t.__name__] += 1
        except Exception as e:
            import traceback
            violation("unexpected:" + t.__name__, "%r\n%s" % (e, traceback.format_exc()[-1200:]))
            lm.log.init("default"); lm.log.set_severity(1000000); lm.progress.init()
    lm.reset(); finish(); lm.shutdown()


main()
