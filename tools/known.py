#!/usr/bin/env python3
"""Writes the 'fixed:' part of known_findings.txt from the fix commits in /repo (run by hand)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.split(None, 1) for l in '''P02 initialise the instancing flag
P09 data race on the completion flag
P01 BVH of a scene without surfaces
P01 traversal stack overflow
P11 weight of the alpha-mask component
P12 latitude weights
P12 normalisation of an all-zero distribution
P12 environment light lookups along the poles
P12 area density of scaled area lights
P16 initialising a 2d distribution again
P08 saturation of bright pixels
P08 clamping of raster positions
P15 out-of-bounds reads of grayscale
P13 uninitialised view parameters
P13 connections to the pinhole camera
P06 number of threads below
P06 number of threads of loops
P06 progress of a parallel loop
P02 camera test in a scene
P02 null dereference when a scene without acceleration
P02 missing check of the index
P03 serialization of the medium of a scene
P04 references of scene nodes to media
P04 assets whose construction fails
P03 assets whose deserialization fails
P05 leak of instances created with a wrong
P03 deserialization of optional references
P03 detection of references out of
P03 deserialization went on after an unknown
P03 the assets were lost when the loading
P03 errors on saving a state
P05 loading of the plugins in a directory
P03 the scale of environment lights
P03 the alpha of constant textures
P03 the values of constant volumes
P03 the albedo of homogeneous media
P03 the colour of the raycast renderer
P03 serialization of renderers
P04 references of media and volumes
P04 null dereference on invalid references of multiple
P17 undefined colour of multiple volumes
P20 seeds of renderers were ignored
P18 distance sampling failed in a scene without
P20 normal visualization used undefined
P18 light tracing dereferenced empty
P21 unknown sampling modes'''.splitlines()]
try:
    MAP += [l.split(None, 1) for l in open(os.path.join(V, "tools/known_map.txt")).read().splitlines() if l.strip()]
except OSError:
    pass
head = [l for l in open(V + "/known_findings.txt").read().splitlines() if not l.startswith("fixed:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse", "b40c1b1..HEAD"], capture_output=True, text=True).stdout
out, un = [], []
for l in log.splitlines():
    h, s = l.split(None, 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    for p, k in MAP:
        if s.startswith(k.strip()):
            out.append("fixed: property=%s %s %s" % (p, h, s))
            break
    else:
        un.append(l)
open(V + "/known_findings.txt", "w").write("\n".join(head + out) + "\n")
print("unmapped:", un)
