"""One function per property: what is built, run and concluded."""
import os
import build as B
from core import Run

CHECKS = {}
NEEDS = {}      # flavour -> set of harnesses
LIBS = {}


def check(pid, **need):
    """need: flavour=[harness,...]; flavour_libs=[...]"""
    def deco(f):
        CHECKS[pid] = f
        for k, v in need.items():
            if k.endswith("_libs"):
                LIBS.setdefault(k[:-5], set()).update(v)
            else:
                NEEDS.setdefault(k, set()).update(v)
        return f
    return deco


def harnesses(fl):
    return sorted(NEEDS.get(fl, ()))


def libs(fl):
    return sorted(LIBS.get(fl, ()))


def parts(name, prog, flavour, n, extra=(), timeout=240, env=None, leaks=False):
    return [Run("%s.%d" % (name, i), prog, ["--part", str(i), "--parts", str(n)] + list(extra), flavour,
                timeout=timeout, env=env, leaks=leaks) for i in range(n)]


@check("P01", plain=["h_accel"])
def p01(c):
    b = c.build("plain", ["h_accel"])
    c.run(parts("accel", b["h_accel"], "plain", 8, ["--scale", "3"], timeout=c.t(120, 1500)))
    k = c.counters
    return c.finish("exploration", k.get("queries", 0) + k.get("visibility_queries", 0),
                    k.get("answers.hit", 0) + k.get("visibility.blocked", 0),
                    "a query is non-trivial when a surface was hit (or a line of sight was blocked) and the answer was compared with exhaustive search",
                    ["rays with unit directions", "triangles whose intersection determinant is below 1e-8 count as parallel to the ray",
                     "configurations within rounding distance of an edge or of the range limits are not judged"],
                    minimum=1000)


@check("P11", plain=["h_material"])
def p11(c):
    b = c.build("plain", ["h_material"])
    c.run(parts("material", b["h_material"], "plain", 8, ["--scale", "5"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("samples", 0) + k.get("evaluations", 0), k.get("samples.smooth", 0) + k.get("samples.delta", 0) + k.get("evaluations", 0),
                    "a sample or evaluation of a scattering model whose value, density and weight were all compared",
                    ["directions with |cos| above 0.01", "closed forms of the documented models as reference"], minimum=10000)


@check("P12", plain=["h_light"])
def p12(c):
    b = c.build("plain", ["h_light"])
    c.run(parts("light", b["h_light"], "plain", 8, ["--scale", "8"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("samples", 0) + k.get("samples.direct", 0) + k.get("evaluations", 0), k.get("samples", 0) + k.get("samples.direct", 0),
                    "a sampled emission or next-event sample whose weight, density, radiance and geometry were all compared",
                    ["emitters with flat shading normals", "Monte Carlo expectations are judged at 6.5 standard errors"], minimum=10000)


@check("P13", plain=["h_camera"])
def p13(c):
    b = c.build("plain", ["h_camera"])
    c.run(parts("camera", b["h_camera"], "plain", 8, ["--scale", "40"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("rays", 0) + k.get("directions", 0), k.get("rays", 0) + k.get("directions", 0),
                    "a ray or direction of a randomly placed camera whose projection, density, importance and connection were all compared",
                    ["directions within 1e-6 of the border of the view are not judged"], minimum=10000)


@check("P15", plain=["h_texture"])
def p15(c):
    b = c.build("plain", ["h_texture"])
    c.run(parts("texture", b["h_texture"], "plain", 8, ["--scale", "20"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("texels", 0) + k.get("borders", 0) + k.get("broken files", 0), k.get("texels", 0),
                    "a texel of a file written by the monitor that was looked up by index, by coordinate and with wrap-around and compared",
                    ["PNG, TGA, PNM and HDR files with 1 to 4 channels"], minimum=10000)


@check("P16", plain=["h_math"])
def p16(c):
    b = c.build("plain", ["h_math"])
    c.run(parts("math", b["h_math"], "plain", 8, ["--scale", "8"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("samples", 0) + k.get("evaluations", 0), k.get("samples", 0),
                    "a sampled value judged against its distribution (support, inverse CDF, moments, histogram)",
                    ["Monte Carlo moments are judged at 6.5 standard errors"], minimum=10000)


@check("P08", plain=["h_film"])
def p08(c):
    b = c.build("plain", ["h_film"])
    c.run(parts("film", b["h_film"], "plain", 4, timeout=c.t(200, 3000)), parallel=2)
    k = c.counters
    return c.finish("exploration", k.get("updates", 0) + k.get("operations", 0) + k.get("files", 0), k.get("contended updates", 0) + k.get("distinct values observed", 0) + k.get("operations", 0),
                    "an update that had to be retried because of another thread, a distinct pixel value seen by an observer, or an operation of a sequential history",
                    ["sums of small integers are exact in any order"], minimum=1000)


@check("P06", plain=["h_parallel"])
def p06(c):
    b = c.build("plain", ["h_parallel"])
    c.run(parts("loop", b["h_parallel"], "plain", 8, ["--mode", "loop", "--scale", "4"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("iterations", 0), k.get("loops with overlapping iterations", 0),
                    "a parallel loop in which at least two iterations were observed running at the same time and whose complete event log was checked",
                    ["the OpenMP run-time is replaced by an equivalent one that perturbs the schedule"], minimum=50)


@check("P07", plain=["h_parallel"])
def p07(c):
    b = c.build("plain", ["h_parallel"])
    c.run(parts("scheduler", b["h_parallel"], "plain", 8, ["--mode", "sched", "--scale", "2"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("events", 0), k.get("runs", 0),
                    "a complete run of a scheduler whose log of work items and progress reports was checked",
                    ["the OpenMP run-time is replaced by an equivalent one that perturbs the schedule"], minimum=100)


@check("P02", plain=["h_scene"])
def p02(c):
    b = c.build("plain", ["h_scene"])
    c.run(parts("scene", b["h_scene"], "plain", 8, ["--scale", "10"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("operations", 0) + k.get("builds", 0), k.get("operations", 0),
                    "an operation of a random history after which the complete observable state of the scene was compared with the model",
                    ["the graph stays acyclic", "instance groups are not nested"], minimum=1000)


@check("P03", plain=["h_serial"])
def p03(c):
    b = c.build("plain", ["h_serial"])
    c.run(parts("serial", b["h_serial"], "plain", 8, timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("observations", 0), k.get("components compared", 0),
                    "a component whose complete observable behaviour before saving was compared, bit by bit, with the restored one",
                    ["renderers run with a seed on one thread", "no Python components"], minimum=500)


@check("P04", plain=["h_replace"], asan=["h_replace"])
def p04(c):
    b = c.build("asan", ["h_replace"])
    d = c.build("plain", ["h_replace"])
    c.run(parts("replace-asan", b["h_replace"], "asan", 8, ["--scale", "0.5"], timeout=c.t(200, 3000)))
    c.run(parts("replace", d["h_replace"], "plain", 8, ["--scale", "4"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("replacements", 0) + k.get("failed replacements", 0), k.get("components compared", 0),
                    "a component of a tree with replaced assets whose behaviour was compared with a tree created from the final parameters, or a reference checked after a replacement",
                    ["area lights and multiple volumes, which derive data from other assets when created, are created again after those are replaced",
                     "the scene is built again after replacements"], minimum=500)


@check("P05", asan=["h_comp"], asan_libs=["testplugin"])
def p05(c):
    b = c.build("asan", ["h_comp"], ["testplugin"])
    c.run(parts("comp", b["h_comp"], "asan", 8, ["--plugin", b["testplugin"], "--scale", "6"], timeout=c.t(200, 3000), leaks=True))
    k = c.counters
    return c.finish("exploration", k.get("creations", 0) + k.get("locators.present", 0) + k.get("locators.altered", 0) + k.get("locators.asset", 0) + k.get("plugin operations", 0) + k.get("lifecycle operations", 0),
                    k.get("releases", 0) + k.get("creations.wrong interface", 0) + k.get("creations.failing", 0) + k.get("locators.present", 0) + k.get("plugin creations", 0),
                    "an instance followed from creation to release, a locator resolved to a known component, or a component of a plugin used",
                    ["components are not created concurrently with registration"], minimum=500)


@check("P24", asan=["h_tree"])
def p24(c):
    b = c.build("asan", ["h_tree"])
    c.run(parts("tree", b["h_tree"], "asan", 8, timeout=c.t(200, 3000), leaks=True))
    k = c.counters
    return c.finish("exploration", k.get("listed lines", 0) + k.get("visits", 0) + k.get("polled values", 0), k.get("listed lines", 0),
                    "a line of a listing of the asset tree compared with the tree the parameters describe, or a visited component looked up by its locator",
                    ["the order of the lines is not judged", "of models, meshes are known by name; materials, their parts and textures by number"], minimum=2000)


@check("P22", plain=["h_log"], tsan=["h_log"])
def p22(c):
    b = c.build("plain", ["h_log"])
    d = c.build("tsan", ["h_log"])
    c.run(parts("log", b["h_log"], "plain", 8, timeout=c.t(200, 3000)) + parts("log-tsan", d["h_log"], "tsan", 4, ["--scale", "0.25"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("messages", 0) + k.get("concurrent messages", 0) + k.get("progress events", 0) + k.get("progress messages", 0),
                    k.get("messages.shown", 0) + k.get("concurrent messages", 0) + k.get("progress events", 0),
                    "a message whose complete output, or a progress event whose complete delivery, was compared with what was posted",
                    ["the logger is not replaced while other threads write"], minimum=500)


@check("P25", plain=["h_life"], asan=["h_life"])
def p25(c):
    b = c.build("plain", ["h_life"])
    d = c.build("asan", ["h_life"])
    c.run(parts("life", b["h_life"], "plain", 8, timeout=c.t(200, 3000)) + parts("life-asan", d["h_life"], "asan", 8, ["--scale", "0.25"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("operations", 0) + k.get("processes", 0), k.get("processes", 0) + k.get("calls received", 0) + k.get("refused uses", 0) + k.get("instances followed", 0),
                    "an operation of a history after which the installed services, their instances and the calls they received were compared with the model",
                    ["services are not replaced while other threads use them", "what the assets are after a shutdown is not judged"], minimum=2000)


@check("P14", plain=["h_obj"], asan=["h_obj"], plain_libs=["tinyobj"], asan_libs=["tinyobj"])
def p14(c):
    b = c.build("plain", ["h_obj"], ["tinyobj"])
    d = c.build("asan", ["h_obj"], ["tinyobj"])
    c.run(parts("obj", b["h_obj"], "plain", 8, ["--plugin", b["tinyobj"], "--scale", "4"], timeout=c.t(200, 3000)) +
          parts("obj-asan", d["h_obj"], "asan", 8, ["--plugin", d["tinyobj"], "--scale", "0.8"], timeout=c.t(200, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("faces", 0) + k.get("surface points", 0) + k.get("rejected files", 0) + k.get("rejected meshes", 0) + k.get("damaged files used", 0) + k.get("damaged files rejected", 0),
                    k.get("faces", 0) + k.get("materials compared", 0) + k.get("lights compared", 0) + k.get("rejected files", 0),
                    "a face, material or emitter of a generated file that was compared with what the file says, or a defective file that had to be rejected",
                    ["faces without a material statement use the first material", "files for tinyobjloader use single spaces around names (its own parsing is not judged)"], minimum=5000)


@check("P17", plain=["h_medium"])
def p17(c):
    b = c.build("plain", ["h_medium"])
    c.run(parts("medium", b["h_medium"], "plain", 8, ["--scale", "6"], timeout=c.t(300, 3000)))
    k = c.counters
    return c.finish("exploration", k.get("evaluations", 0) + k.get("samples", 0) + k.get("transmittances", 0) + k.get("distances", 0) + k.get("volume values", 0) + k.get("scene distances", 0),
                    k.get("distributions", 0) + k.get("scattering events", 0) + k.get("volume values", 0) + k.get("rejected", 0),
                    "a scattering event judged by range and weight, a sampled distribution compared with the integrated density, a volume value compared with its closed form, or a defective asset that had to be rejected",
                    ["statistical comparisons are decided at more than 6 standard errors", "the density of a gaussian volume may be cut off where it is below 0.2 percent of its maximum"], minimum=5000)


@check("P18", plain=["h_render"])
def p18(c):
    b = c.build("plain", ["h_render"])
    c.run(parts("render", b["h_render"], "plain", 16, ["--scale", "5"], timeout=c.t(400, 6000)))
    k = c.counters
    return c.finish("exploration", k.get("rendered paths", 0) + k.get("ray casts", 0), k.get("comparisons", 0) + k.get("ray casts", 0),
                    "a rendered image compared with an independent path tracer or the closed solution of the scene, or a pixel of a ray cast compared with its value",
                    ["statistical comparisons are confirmed with up to 27 times the samples before they are reported; differences below about 1 percent are not seen",
                     "point and directional lights lie outside of the view (renderers differ in whether they show these lights themselves)",
                     "light tracing does not produce paths whose first surface is specular; renderer::lt does not show emitters themselves",
                     "path-based renderers (renderer::*_path, bdpt, bdptopt) are compared in scenes with area lights"], minimum=1000)


@check("P19", plain=["h_path"])
def p19(c):
    b = c.build("plain", ["h_path"])
    c.run(parts("path", b["h_path"], "plain", 8, ["--scale", "20"], timeout=c.t(300, 3000)))
    k = c.counters
    return c.finish("exploration", sum(k.get(n, 0) for n in ("primary rays", "positions", "components", "directions", "direct samples", "subpaths", "connections", "geometry terms")),
                    k.get("paths", 0) + k.get("contributions compared", 0) + k.get("paths with weights", 0) + k.get("directions", 0),
                    "a sampled path whose strategies' densities, contributions and weights were compared, or a sampled direction whose weight was compared with value, density and geometry",
                    ["positions on directional and environment lights cannot be sampled (documented as unsupported)",
                     "contributions of different strategies are compared where shading and geometric normals agree and no specular surface is involved",
                     "edges with |cos| below 1e-4 are not judged"], minimum=5000)


@check("P20", plain=["h_determ"])
def p20(c):
    b = c.build("plain", ["h_determ"])
    n, h = 8, [os.path.join(c.work, "hash-%s-%d" % (t, i)) for t in "ab" for i in range(8)]
    c.run([Run("determ.%d" % i, b["h_determ"], ["--part", str(i), "--parts", str(n), "--hashes", h[i]], "plain", timeout=c.t(240, 3000)) for i in range(n)])
    c.run([Run("determ-other-process.%d" % i, b["h_determ"], ["--part", str(i), "--parts", str(n), "--hashes", h[n + i], "--order", "reverse"], "plain",
               timeout=c.t(240, 3000), env={"MALLOC_PERTURB_": "165"}) for i in range(n)])
    same = other = 0
    for i in range(n):
        a, d = [dict((tuple(l.split()[:2]), l.split()[2]) for l in open(f)) if os.path.exists(f) else {} for f in (h[i], h[n + i])]
        for k in sorted(set(a) & set(d)):
            if k[1].startswith("unseeded:"):
                other += 1
                if a[k] == d[k]:
                    c.add("process:unseeded:" + k[1][9:], "case %s: two processes use the same random numbers for %s without a seed" % (k[0], k[1][9:]), {"run": "determ.%d" % i, "case": k[0]})
            else:
                same += 1
                if a[k] != d[k]:
                    c.add("process:" + k[1], "case %s: %s renders another image in a second process" % k, {"run": "determ.%d" % i, "case": k[0]})
    c.counters["images compared between processes"] = same
    c.counters["unseeded renderings compared between processes"] = other
    k = c.counters
    return c.finish("exploration", k.get("images compared", 0) + same + k.get("random numbers", 0), k.get("images compared", 0) + same + k.get("streams compared", 0),
                    "an image compared bit by bit with another rendering of the same scene, or two streams of random numbers searched for common values",
                    ["seeded renderings on one thread are reproducible (with several threads sums are taken in any order)",
                     "random numbers are observed where materials receive them", "two equal 53-bit random numbers count as a repeated stream"], minimum=1000)


@check("P21", plain=["h_param"], asan=["h_param"])
def p21(c):
    b = c.build("plain", ["h_param"])
    d = c.build("asan", ["h_param"])
    c.run(parts("param", b["h_param"], "plain", 8, ["--scale", "2"], timeout=c.t(240, 3000)) +
          parts("param-asan", d["h_param"], "asan", 8, ["--scale", "0.5"], timeout=c.t(240, 3000), leaks=True))
    k = c.counters
    return c.finish("exploration", sum(k.get(n, 0) for n in ("defective parameters", "names", "defective nodes", "unrenderable scenes", "json values", "defaults compared", "calls without initialisation", "defective contexts")),
                    k.get("rejections", 0) + k.get("defaults compared", 0) + k.get("unrenderable scenes", 0) + k.get("calls without initialisation", 0),
                    "a creation that had to fail and leave everything as it was, a default compared with the value given explicitly, or a use that had to be refused",
                    ["optional references (texture of a diffuse material, acceleration structure of a scene) that lead nowhere are ignored by design"], minimum=5000)


PYTHON = "/opt/vp/venv/bin/python"


@check("P23", plain_libs=["pylm"], asan_libs=["pylm"])
def p23(c):
    import subprocess
    b = c.build("plain", [], ["pylm"])
    d = c.build("asan", [], ["pylm"])
    script = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "py_bind.py")
    pre = " ".join(subprocess.run(["g++", "-print-file-name=" + x], capture_output=True, text=True).stdout.strip() for x in ("libasan.so", "libstdc++.so.6"))

    def runs(name, lib, flavour, n, scale, env=None):
        return [Run("%s.%d" % (name, i), None, [PYTHON, "-B", script, "--pythonpath", os.path.dirname(lib) + ":" + B.REPO, "--part", str(i), "--parts", str(n), "--scale", scale], flavour,
                    timeout=c.t(240, 3000), env=dict(env or {}, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")) for i in range(n)]
    c.run(runs("python", b["pylm"], "plain", 8, "4") + runs("python-asan", d["pylm"], "asan", 4, "1", {"LD_PRELOAD": pre, "ASAN_OPTIONS": "exitcode=97:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1"}))
    k = c.counters
    return c.finish("exploration", sum(k.get(n, 0) for n in ("json values", "refused values", "arrays", "pixels", "assets", "exceptions", "lifecycle operations", "iterations", "messages", "progress events", "restored", "process exits")),
                    sum(k.get(n, 0) for n in ("json values", "arrays", "exceptions", "lifecycle operations", "iterations", "messages", "restored", "process exits")),
                    "a value, array, exception, message or component that crossed the border between Python and C++ and was compared with what was given on the other side",
                    ["double precision arrays; other element types are converted exactly or refused", "the buffer of a film is a snapshot (documented as implementation-dependent)",
                     "the references Python code itself keeps are counted after a garbage collection"], minimum=2000)


@check("P09", plain=["h_race"], tsan=["h_race", "h_parallel", "h_film", "h_log", "h_determ"])
def p09(c):
    b = c.build("tsan", ["h_race", "h_parallel", "h_film", "h_log", "h_determ"])
    d = c.build("plain", ["h_race"])
    t = c.t(240, 3000)
    runs = parts("race-tsan", b["h_race"], "tsan", 8, ["--scale", "5"], timeout=t)
    runs += parts("race", d["h_race"], "plain", 4, ["--scale", "4"], timeout=t)
    c.run(runs)
    c.memory_only = True       # what these do is judged by P05, P07, P08 and P20
    c.run(parts("loop-tsan", b["h_parallel"], "tsan", 2, ["--mode", "loop", "--scale", "0.1"], timeout=t) +
          parts("scheduler-tsan", b["h_parallel"], "tsan", 2, ["--mode", "sched", "--scale", "0.1"], timeout=t) +
          parts("film-tsan", b["h_film"], "tsan", 2, ["--scale", "0.1"], timeout=t) +
          parts("log-tsan", b["h_log"], "tsan", 2, ["--scale", "0.1"], timeout=t) +
          parts("determ-tsan", b["h_determ"], "tsan", 4, ["--scale", "0.1"], timeout=t))
    k = c.counters
    n = k.get("concurrent observations", 0) + k.get("parallel renderings", 0) + k.get("mixed iterations", 0) + k.get("renderings", 0)
    return c.finish("exploration", n, n,
                    "an observation of a component made while other threads observed the same or other components, under a race detector and compared with the observation made alone",
                    ["one thread changes a scene or the assets, several threads query and render them", "the OpenMP runtime is replaced by a thread pool the race detector understands"], minimum=1000)


MEMCHECK = ["valgrind", "-q", "--error-exitcode=95", "--num-callers=20", "--leak-check=no"]


@check("P10", plain=["h_hostile", "h_serial", "h_param", "h_render", "h_path", "h_scene", "h_medium", "h_film", "h_comp", "h_replace"],
       asan=["h_hostile", "h_accel", "h_camera", "h_comp", "h_determ", "h_film", "h_light", "h_log", "h_material", "h_math", "h_medium", "h_obj", "h_parallel", "h_param", "h_path", "h_race", "h_render", "h_replace", "h_scene", "h_serial", "h_texture"],
       plain_libs=["testplugin"], asan_libs=["tinyobj", "testplugin"])
def p10(c):
    hs = [h for h in NEEDS["asan"] if h != "h_hostile"]
    b = c.build("asan", sorted(hs) + ["h_hostile"], ["tinyobj", "testplugin"])
    d = c.build("plain", ["h_hostile", "h_serial", "h_param", "h_render", "h_path", "h_scene", "h_medium", "h_film", "h_comp", "h_replace"], ["testplugin"])
    c.memory_only = True
    t = c.t(300, 3000)

    def extra(h, x):
        return {"h_obj": ["--plugin", x.get("tinyobj", "")], "h_comp": ["--plugin", x.get("testplugin", "")]}.get(h, [])
    runs = parts("hostile-asan", b["h_hostile"], "asan", 8, ["--scale", "2"], timeout=t, leaks=True)
    runs += parts("nonfinite-asan", b["h_hostile"], "asan", 2, ["--scale", "0.3", "--nonfinite", "1"], timeout=t, leaks=True)
    # what has to stay defined under hostile parameters has to under ordinary ones, too
    for h in sorted(hs):
        for m in (["--mode", "loop"], ["--mode", "sched"]) if h == "h_parallel" else ([],):
            runs.append(Run(h[2:] + "-asan" + "".join(m[1:]), b[h], ["--part", "0", "--parts", "8", "--scale", "0.3"] + extra(h, b) + m, "asan", timeout=t, leaks=True))
    # uninitialised values, which the sanitizers do not see
    for h, n, sc in [("h_hostile", 3, "0.1"), ("h_serial", 2, "0.02"), ("h_param", 1, "0.02"), ("h_render", 1, "0.03"), ("h_path", 1, "0.05"), ("h_scene", 1, "0.05"), ("h_medium", 1, "0.03"), ("h_film", 1, "0.05"), ("h_comp", 1, "0.05"), ("h_replace", 1, "0.02")]:
        runs += [Run("%s-memcheck.%d" % (h[2:], i), None, MEMCHECK + [d[h], "--part", str(i), "--parts", str(n), "--scale", sc] + extra(h, d), "plain", timeout=t) for i in range(n)]
    c.run(runs)
    k = c.counters
    return c.finish("exploration", k.get("accepted", 0) + k.get("refused", 0) + k.get("observations", 0), k.get("damaged numbers", 0) + k.get("renderings", 0) + k.get("observations", 0),
                    "a number of an accepted component replaced by an extreme one, and every use of the component afterwards, under AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer or memcheck",
                    ["file contents of third-party formats are the business of the libraries that parse them", "densities and path lengths are bounded (time in proportion to them)",
                     "the writer of .hdr files (stb) is given values it can represent"], minimum=5000)
