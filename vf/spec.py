#!/usr/bin/env python3
"""The properties: one table from which properties.jsonl and MANIFEST.json are written (python3 vf/spec.py)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique="", note="", level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, level=level))


prop("P01", "Ray queries return the nearest surface of the scene",
     "For every scene, ray and distance range, the reported hit is the nearest triangle of the transformed scene inside the range, with the right distance, position, normals, texture coordinates and primitive, and a miss is reported exactly when no triangle lies in the range. "
     "Two points are reported mutually visible exactly when no surface separates them, in both argument orders, including points at infinity. "
     "Empty scenes, instanced groups, deep hierarchies, degenerate, duplicated and axis-aligned triangles are no exception.",
     ["inputs", "configurations"], "all triangle meshes, scene graphs with nested and instanced transforms, and rays with unit direction and any range",
     "Tests intersect a handful of rays with a Cornell box; traversal order, split selection and pruning errors only show for particular spatial arrangements and ranges.",
     ["src/accel/accel_sahbvh.cpp", "src/scene.cpp", "include/lm/accel.h", "include/lm/surface.h"],
     [("SAH BVH construction and traversal", "src/accel/accel_sahbvh.cpp"), ("scene intersection and visibility", "src/scene.cpp")],
     observe="Accel::intersect, Scene::intersect, Scene::visible",
     technique="runtime monitoring: online reference monitor (exhaustive search in extended precision) on every ray and visibility query of generated scenes",
     note="queries whose answer is undecidable within rounding are skipped")

prop("P02", "The scene graph behaves as its operations say",
     "After any sequence of node creations, groupings, instancing, model insertions, resets and builds, the nodes, their transforms, the traversal, the camera, environment and medium nodes, the list of lights with their transforms and selection probabilities, and the extent told to lights are what the sequence describes. "
     "Invalid operations fail with an error and change nothing, and the requirement checks fail exactly when the scene lacks the required part.",
     ["histories", "inputs"], "all sequences of scene operations, valid and invalid",
     "Unit tests build one or two fixed graphs; instancing, repeated building, replaced parts and errors in the middle of a sequence multiply into far more histories.",
     ["src/scene.cpp", "include/lm/scene.h", "include/lm/scenenode.h"],
     [("scene nodes and traversal", "src/scene.cpp"), ("light list and selection", "src/scene.cpp")], observe="lm::Scene",
     technique="runtime monitoring: model-based trace checking of random operation histories against an independent scene model",
     note="selection frequencies are judged exactly against the reported probabilities")

prop("P03", "Saved assets and states are restored unchanged",
     "Restoring a saved state, or a saved subtree under a new name, gives components that behave exactly like the saved ones in every observable value, with references and locators that lead to the restored components. "
     "Saving a subtree fails exactly when a reference leaves it, and damaged, truncated, missing or unwritable files are reported as errors that leave the current assets as they were.",
     ["histories", "inputs", "fault_sequences"], "all asset trees built from the provided components, all save points, restore targets and damaged files",
     "Tests restore one fixed scene; a member missing from one component's archive only shows in the component's behaviour for parameters away from the default.",
     ["include/lm/serial.h", "include/lm/serialtype.h", "src/serial.cpp", "src/assetgroup.cpp", "src/user.cpp", "src/scene.cpp"],
     [("component archives", "include/lm/serial.h"), ("asset groups and states", "src/assetgroup.cpp, src/user.cpp")], observe="behaviour fingerprints of all components",
     technique="runtime monitoring: differential monitor comparing behaviour fingerprints of original and restored components, with file-damage fault injection",
     note="component types shipped with the library; renderers compared by rendered images with fixed seeds")

prop("P06", "A parallel loop runs every index exactly once",
     "For every number of iterations and threads and every schedule, a parallel loop runs its body exactly once per index, with a thread id in range that no two simultaneous iterations share, and returns only when all iterations are done and their effects visible. "
     "An error thrown by an iteration or by the progress callback comes out of the loop instead of being lost or ending the process, the framework stays usable afterwards, and progress never exceeds the total nor goes backwards.",
     ["schedules", "inputs", "fault_sequences"], "all iteration counts, thread counts, schedules, nested and concurrent loops and throwing iterations",
     "Tests run one schedule of one loop; lost or duplicated indices and escaping exceptions depend on the interleaving.",
     ["src/parallel/parallel_openmp.cpp", "src/parallel/parallel.cpp", "include/lm/parallel.h"],
     [("OpenMP loop", "src/parallel/parallel_openmp.cpp"), ("progress updates", "src/parallel/parallel_openmp.cpp")], observe="begin and end events of the loop body",
     technique="runtime monitoring: event log of loop bodies under a perturbing OpenMP run-time, offline exactly-once/exclusivity/ordering checker",
     note="the OpenMP run-time is replaced by an equivalent one that randomises chunk hand-out and injects delays")

prop("P07", "Schedulers hand out exactly the requested samples",
     "A sample-based scheduler processes every pixel exactly the requested number of times (or the image exactly the requested number of samples), each with its own sample index, and returns the number it processed, for every image size, sample count and thread count. "
     "Time-based schedulers return exactly what they processed; progress starts, never exceeds its total and ends once.",
     ["schedules", "inputs", "fault_sequences"], "all scheduler kinds, film sizes, sample counts, thread counts, schedules and failing work items",
     "Tests do not run schedulers; off-by-one errors of the last sample or pixel and double processing depend on sizes and schedules.",
     ["src/scheduler.cpp", "include/lm/scheduler.h"],
     [("spp and spi schedulers", "src/scheduler.cpp")], observe="(pixel, sample, thread) events of the work function",
     technique="runtime monitoring: event log of scheduled work items with exactly-once and conservation checking",
     note="time-based schedulers run with short limits")

prop("P08", "The film neither loses nor invents contributions",
     "However many threads accumulate into a film, every pixel ends up with exactly the sum (or running average) of what was added to it, no observer ever sees a torn value, and each raster position lands in the pixel it falls in. "
     "Size, buffer, clear, rescale and accumulation act on exactly the pixel values, and saved images (PNG, HDR, PFM) contain them in the stated format and orientation with saturation at the representable range; saving that cannot succeed reports failure.",
     ["schedules", "inputs", "histories"], "all film sizes, operation histories, concurrent updates and raster positions, including those outside of the unit square",
     "A lost update needs two threads inside one compare-and-swap window; tests write pixels from one thread.",
     ["src/film/film_bitmap.cpp", "include/lm/film.h"],
     [("atomic pixels", "src/film/film_bitmap.cpp"), ("image output", "src/film/film_bitmap.cpp")], observe="Film",
     technique="runtime monitoring: conservation and torn-value monitors over concurrent update histories, sequential model and decoding of written files",
     note="concurrent sums use values whose sum is exact in every order")

prop("P11", "Material sampling, density and value agree",
     "For every shipped material and mixture, the weight of a sampled direction equals value divided by density, the density integrates to the probability of sampling, samples follow the density, and component probabilities add up to one with weights that are their reciprocals. "
     "Values equal the documented closed forms, conserve energy, obey reciprocity (scaled by the squared refraction ratio across glass), and delta components report zero unless asked to evaluate the delta.",
     ["inputs", "configurations"], "all materials, parameters, textures with alpha, surface frames, incident directions, components, transport directions and random numbers",
     "The sampling identities hold or fail per parameter and direction; no unit test evaluates a material.",
     ["src/material", "src/model/model_wavefrontobj.cpp", "include/lm/material.h"],
     [("material models", "src/material/*.cpp"), ("OBJ material", "src/model/model_wavefrontobj.cpp")], observe="Material interface",
     technique="runtime monitoring: per-sample identity monitors plus histogram and numerical-integration oracles over generated materials",
     note="grazing directions (|cos| < 0.01) are not judged; histograms at 6.5 standard errors")

prop("P12", "Light sampling, density and radiance agree",
     "For every shipped light, sampled emission rays, positions, directions and next-event samples lie on the light, carry a weight equal to radiance divided by the reported density, and follow that density; expectations of the weights equal the integrated radiance, also for transformed and scaled area lights and image-based environments including their poles. "
     "Emission is one-sided where documented, and each light classifies itself (specular, infinite, environment, connectable) consistently with its samples.",
     ["inputs", "configurations"], "all lights, parameters, meshes, environment maps, transforms, receiving points and random numbers",
     "A wrong density biases images without any error; tests never sample a light.",
     ["src/light", "include/lm/light.h", "include/lm/math.h"],
     [("light models", "src/light/*.cpp"), ("discrete distributions", "include/lm/math.h")], observe="Light interface",
     technique="runtime monitoring: per-sample identity monitors plus expectation and histogram oracles against an independent emitter description",
     note="Monte Carlo expectations at 6.5 standard errors")

prop("P13", "The camera's rays, raster positions and importance agree",
     "For every pinhole camera, the primary ray through a raster position projects back to it, directions outside of the view have no raster position, no importance and no density, and the importance integrates to one per image with sampling weights equal to importance divided by density. "
     "Connections to visible points carry the geometry-consistent weight, points outside of the view or at infinity give none, and matrices and reported parameters describe the same view.",
     ["inputs", "configurations"], "all camera placements, fields of view, aspect ratios, matrix-defined cameras, raster positions and scene points",
     "Tests do not sample cameras; errors show only off-centre or for non-square images.",
     ["src/camera/camera_pinhole.cpp", "include/lm/camera.h"],
     [("pinhole camera", "src/camera/camera_pinhole.cpp")], observe="Camera interface",
     technique="runtime monitoring: round-trip and identity monitors against independent look-at geometry",
     note="directions within 1e-6 of the border of the view are not judged")

prop("P15", "Textures return the texels of the image file",
     "For PNG, TGA, PNM and HDR files with one to four channels, every lookup returns the texel whose cell contains the wrapped coordinate, in the orientation the flip parameter selects, with grey images spread to all channels and alpha available exactly when the file has it. "
     "Files that cannot be decoded are rejected with an error.",
     ["inputs", "configurations"], "all image sizes, channel counts, formats, orientations and texture coordinates, including negative and large ones and cell borders",
     "Tests look up a few texels of one image; wrap-around, orientation and channel errors depend on the coordinate and file.",
     ["src/texture", "include/lm/texture.h"],
     [("bitmap texture", "src/texture/texture_bitmap.cpp"), ("constant texture", "src/texture/texture_constant.cpp")], observe="Texture interface",
     technique="runtime monitoring: reference monitor over files written by the workload generator",
     note="lossless formats only")

prop("P16", "Sampling primitives and geometry helpers are exact",
     "Discrete one- and two-dimensional distributions sample each element with exactly its normalised weight, never one of weight zero, and report matching probabilities, also after being rebuilt or cleared; sphere, hemisphere and disk sampling follow their densities. "
     "The seeded generator is deterministic, uniform in [0,1) and independent between seeds, and frames, bounds, reflection, refraction, geometry terms and transforms satisfy their defining identities.",
     ["inputs"], "all weight vectors (zeros, single elements, huge ratios), random numbers including the ends of the unit interval, normals, bounds and directions",
     "Tests cover a few vectors; boundary random numbers and zero weights are where sampling goes wrong.",
     ["include/lm/math.h", "include/lm/surface.h", "include/lm/math.h"],
     [("Dist, Dist2", "include/lm/math.h"), ("surface helpers", "include/lm/surface.h")], observe="lm::math, lm::surface",
     technique="runtime monitoring: inverse-CDF, support and histogram monitors and identity assertions over generated inputs",
     note="Monte Carlo moments at 6.5 standard errors")

prop("P04", "Replacing an asset updates every reference to it",
     "After an asset is replaced, by another implementation or with other parameters, every reference from any other asset or scene node leads to the new asset, and after rebuilding the scene everything behaves like a tree created with the final assets. "
     "A replacement that fails reports it and leaves the old asset, all references and all behaviour untouched; nothing ever refers to a destroyed asset.",
     ["histories", "fault_sequences"], "all histories of successful and failing replacements over asset trees with references between all kinds of components, in nested groups too",
     "Tests replace one asset in a toy tree; a reference that one component forgets to report dangles only when that combination is used after a replacement.",
     ["src/assetgroup.cpp", "include/lm/component.h", "src/scene.cpp", "src/material", "src/light", "src/medium", "src/volume", "src/renderer"],
     [("replacement and reference update", "src/assetgroup.cpp"), ("reference visiting", "foreach_underlying of every component")], observe="comp::get, behaviour fingerprints of all components",
     technique="runtime monitoring: reference monitor after each replacement, differential behaviour fingerprints against a fresh tree, AddressSanitizer for dangling references",
     note="components that derive data from others when created are created again")

prop("P05", "Components are created, found and released exactly as registered",
     "Creating a component by key or alias gives an instance of the latest registration with that key and locator, or nothing when it is unknown or has another interface; every instance is released exactly once, by its own registration, also when construction fails or the registration changed meanwhile. "
     "A locator leads to exactly the component with that locator and to nothing when there is none, for every tree and every string. "
     "Plugins, initialisation and shutdown can be used in any order: components of a loaded plugin are usable, failures are reported as errors, and use before initialisation fails with its own error.",
     ["histories", "inputs", "fault_sequences"], "all histories of registration, creation, release, plugin loading, initialisation and shutdown, and all locator strings",
     "Tests create each component once; leaks, double releases and stale registrations appear only after particular sequences.",
     ["include/lm/component.h", "src/component.cpp", "src/user.cpp", "src/assetgroup.cpp"],
     [("registry and plugins", "src/component.cpp"), ("creation and context instances", "include/lm/component.h"), ("user context", "src/user.cpp")], observe="lm::comp, lm::init, lm::shutdown",
     technique="runtime monitoring: model-based trace checking with self-counting components under AddressSanitizer and LeakSanitizer",
     note="the unloading of plugin code by the system is not observed")

prop("P22", "Log and progress messages arrive complete and in order",
     "Every posted message whose severity reaches the current one is written exactly once, with its level, position, indentation and every line intact, whatever the number of threads; lines of different messages never mix and the messages of a thread keep their order. "
     "Progress messages leave exactly the last one visible and end with their own line; user-defined, multiplexed and delayed reporters receive exactly the events the documentation says, and unusable reporters are rejected.",
     ["schedules", "inputs", "histories"], "all messages, severities, indentations, thread interleavings and sessions of progress",
     "Tests print a few lines from one thread; mixing and filtering errors depend on interleaving and severity.",
     ["src/logger.cpp", "include/lm/logger.h", "src/progress.cpp", "include/lm/progress.h"],
     [("default logger", "src/logger.cpp"), ("progress contexts", "src/progress.cpp")], observe="standard output, user-defined contexts",
     technique="runtime monitoring: trace checker over captured output and recorded events, ThreadSanitizer for concurrent logging",
     note="the logger is not replaced while other threads write")

prop("P25", "Global services are those installed last and refuse use outside their life",
     "At every point of every history of initialisations, replacements, failed installations, resets and shutdowns, each global service (log, parallel, progress, OBJ loader) is exactly the implementation installed last, or absent before the first installation, after a shutdown and after a failed installation; replaced implementations are released exactly once, and a reset or new initialisation releases all assets. "
     "Every call of a service reaches the installed implementation exactly once with its arguments, results and exceptions unchanged, also when it is made by other components. "
     "Use of an absent service or of the framework before its initialisation is refused with the error Uninitialized (messages fall back to standard output) and never crashes, and a process ends normally in whatever state it is.",
     ["histories", "fault_sequences", "configurations"], "all histories of life-cycle operations and uses, with shipped, user-defined, unknown and failing implementations",
     "Tests initialise once and shut down once; stale or half-made services need particular sequences.",
     ["src/user.cpp", "include/lm/component.h", "src/logger.cpp", "src/progress.cpp", "src/parallel/parallel.cpp", "src/objloader/objloader.cpp", "src/debug.cpp"],
     [("context instances", "include/lm/component.h ContextInstance"), ("life cycle of the framework", "src/user.cpp UserContext")], observe="free functions of the services; recording implementations; exit status of processes",
     technique="runtime monitoring: model of the installed services checked against recording implementations after every operation of random histories, forked processes, AddressSanitizer and LeakSanitizer",
     note="services are not replaced while other threads use them; what the assets are after a shutdown is not judged")

prop("P14", "Meshes and models represent exactly what their files and arrays say",
     "For every well-formed OBJ/MTL file and every raw mesh, the loaded meshes have exactly the triangles of the faces in order with their positions, normals and texture coordinates (interpolated over each face, geometric normals where missing), and every face of a model has the material and emitter of the file, with its parameters and texture. "
     "This holds for every line ending, index style, polygon size, name length, group and material order, and for both OBJ loaders. "
     "Files and arrays with missing data, unknown materials or indices out of range are rejected with an error and leave nothing behind; no content makes loading or later use of a mesh access memory out of bounds.",
     ["inputs", "configurations"], "all OBJ/MTL files, arrays of raw meshes, loaders and options, including damaged ones",
     "Tests load one well-behaved scene; errors hide in polygon sizes, index styles, name collisions and damaged files.",
     ["src/objloader", "plugin/objloader_tinyobjloader", "src/mesh", "src/model/model_wavefrontobj.cpp", "include/lm/objloader.h"],
     [("OBJ/MTL parsing", "src/objloader/objloader_simple.cpp"), ("tinyobjloader adaptor", "plugin/objloader_tinyobjloader"), ("materials and lights of models", "src/model/model_wavefrontobj.cpp"), ("raw meshes", "src/mesh/mesh_raw.cpp")], observe="Mesh, Model::create_primitives, Material and Light interfaces",
     technique="runtime monitoring: generated files with an independent record of their content as oracle, fault injection into files, AddressSanitizer and UBSan",
     note="free-form surfaces and texture options of MTL are not generated")

prop("P17", "Media, phase functions and volumes agree with their definitions",
     "Distances sampled in a medium lie in the queried range, their weights and transmittance estimates have the expectation given by the extinction along the ray, and a ray that cannot scatter passes unattenuated. "
     "Phase functions are normalised and their samples, densities and weights agree; volumes return the densities, colours and bounds of their parameters, and no density exceeds the reported maximum. "
     "Media or volumes that cannot be used, such as a heterogeneous medium without density or albedo, are rejected with an error.",
     ["inputs", "configurations"], "all media, phase functions and volumes (constant, gaussian, multi), parameters, rays and ranges",
     "Distance sampling is random: wrong expectations, a maximum below the real density or a bound that cuts off density only show in distributions over many rays and parameter sets.",
     ["src/medium", "src/phase", "src/volume", "include/lm/medium.h", "include/lm/phase.h", "include/lm/volume.h"],
     [("distance sampling and transmittance", "src/medium/medium_homogeneous.cpp, src/medium/medium_heterogeneous.cpp"), ("phase functions", "src/phase"), ("volumes", "src/volume")], observe="Medium, Phase, Volume interfaces and path::sample_distance / eval_transmittance",
     technique="runtime monitoring: per-sample assertions, quadrature of the extinction along rays as oracle, sequential statistical monitors",
     note="statistical comparisons decide at more than 6 standard errors")

prop("P18", "Every renderer estimates the same light transport",
     "In any scene the image of every path, volumetric path, light and bidirectional tracing renderer converges to the radiance defined by the scene's lights, materials, media and camera within its documented path lengths, in every sampling, scheduling and partial-path mode. "
     "Samples are finite and non-negative, closed scenes with known solution have that solution, and ray casting shows for each pixel the colour or normal of the surface it sees.",
     ["inputs", "configurations", "schedules"], "all scenes, renderers, sampling modes, image sizes, numbers of samples, path lengths and thread counts",
     "The tests never compare an image; bias of a few percent in a rarely used mode or in combinations of lights and media is invisible to unit tests.",
     ["src/renderer", "include/lm/path.h", "src/scene.cpp", "include/lm/scene.h"],
     [("path tracing", "src/renderer/renderer_pt.cpp"), ("volumetric path tracing", "src/renderer/renderer_volpt.cpp"), ("light tracing", "src/renderer/renderer_lt.cpp"), ("bidirectional path tracing", "src/renderer/renderer_bdpt.cpp, src/renderer/renderer_bdptopt.cpp"), ("ray casting", "src/renderer/renderer_raycast.cpp")], observe="Renderer::render and Film::buffer",
     technique="runtime monitoring: differential comparison of rendered images with an independent path tracer and closed solutions, sequential statistical tests",
     note="statistical: differences below about one percent of the image are not seen")

prop("P19", "Path sampling, densities, contributions and weights agree",
     "Every primary ray, position, direction, component and next-event sample of the path sampling interface has the weight given by contribution over density, and the densities of sampled and evaluated events agree. "
     "For every complete path the densities and contributions of all strategies describe the same path: contributions are equal, weights are contribution over density, and multiple-importance weights follow the power heuristic, so they are non-negative and sum to one over the strategies that can produce the path. "
     "Subpaths and connections consist of scene points that see each other.",
     ["inputs", "configurations"], "all scenes, subpath lengths, strategies and random numbers",
     "Weights of single strategies are only consistent if every density on both sides of the path is; the combinations cannot be enumerated by unit tests.",
     ["include/lm/path.h", "include/lm/bidir.h", "include/lm/surface.h", "src/scene.cpp"],
     [("sampling of rays, positions and directions", "include/lm/path.h"), ("bidirectional paths, connections, weights", "include/lm/bidir.h"), ("geometry term", "include/lm/surface.h")], observe="namespace lm::path and lm::Path",
     technique="runtime monitoring: online assertions on every sample and every strategy of every path produced in random scenes",
     note="contributions of strategies are compared where shading and geometric normals agree")

prop("P20", "Seeded renderings are reproducible and random numbers do not repeat",
     "A rendering with a seed depends on nothing but its parameters: on one thread it gives the same image bit by bit again, after other renderings, from a new renderer, in a scene created again, after re-initialisation and in another process. "
     "Random numbers are not used twice within a rendering, by two threads, by renderings with different seeds, or by renderings without a seed. "
     "Renderings without randomness do not depend on the number of threads or the schedule.",
     ["histories", "schedules", "configurations"], "all scenes, renderers, seeds, histories of earlier renderings, thread counts, schedules and memory contents",
     "A repeated render in one test does not see dependence on left-over state, uninitialised memory, process layout, or correlated random streams of threads.",
     ["include/lm/math.h", "src/renderer", "src/parallel/parallel_openmp.cpp"],
     [("random number generator", "include/lm/math.h"), ("per-thread random numbers of renderers", "src/renderer")], observe="Film::buffer after Renderer::render; random numbers given to materials",
     technique="runtime monitoring: bitwise differential monitor over histories and processes (perturbed heap contents), recording material that logs the random numbers of every thread",
     note="seeded images are compared on one thread")

prop("P21", "Defective parameters are refused and leave nothing behind",
     "Creating any asset with a required parameter missing, or with a parameter of the wrong type, size or meaning, or a reference that leads nowhere or to another kind of asset, fails with an exception or null and changes no existing asset, registers nothing and leaks nothing. "
     "Omitted optional parameters behave exactly like their documented defaults, values given as JSON arrive exactly, and scenes that cannot be rendered and uses before initialisation raise errors instead of crashing.",
     ["inputs", "fault_sequences", "histories"], "all components, their parameters and defective values of them; all global functions before initialisation",
     "There are more than a hundred parameters with many ways to be wrong; the tests try almost none of them.",
     ["include/lm/json.h", "src/assetgroup.cpp", "src/user.cpp", "src/renderer", "src/scene.cpp", "src/debug.cpp"],
     [("JSON values and references", "include/lm/json.h"), ("creation of assets", "src/assetgroup.cpp"), ("global state", "src/user.cpp")], observe="AssetGroup::load_asset, comp::get, fingerprints of all assets",
     technique="runtime monitoring: fault injection into every parameter with state comparison, under address, undefined-behaviour and leak sanitizers",
     note="optional references that lead nowhere are ignored by design")

prop("P23", "Python and C++ see the same values, components, errors and lifetimes",
     "Every JSON value, vector or matrix passed between Python and C++ arrives unchanged (any integer of 64 bits, any memory layout of the array) or is refused with a Python exception, and components written in Python act inside C++ exactly as their methods say while C++ components act the same when called from Python. Exceptions arrive on the other side, also out of parallel loops and renderings, state saved with Python components is restored, and a Python component lives exactly as long as it is registered or referenced, with every process ending normally.",
     ["inputs", "histories", "schedules"], "for every value and array layout, every component interface that Python can implement, every sequence of loading, replacing, holding and releasing such components, and every number of threads",
     "the tests pass a handful of contiguous arrays and small integers and never hold, replace or drop Python components in different orders, raise from callbacks, or leave objects alive at the end of the process",
     ["src/pylm.cpp", "include/lm/pylm.h", "lightmetrica/__init__.py", "src/component.cpp", "src/parallel/parallel_openmp.cpp"],
     [("conversion of JSON, vectors and matrices", "include/lm/pylm.h type_caster"), ("trampolines of component interfaces", "src/pylm.cpp bind_*"), ("ownership of Python instances", "include/lm/pylm.h reg_comp_wrap, cast_to_python_object")],
     observe="a Python harness passes generated values and arrays through the binding, implements every bindable interface in Python and compares calls made by C++ with direct calls and renderings with those of equivalent C++ components, counts living Python objects after every operation, raises from callbacks, and runs scripts to their end in separate processes; a part of the runs uses AddressSanitizer",
     technique="runtime monitoring: trace checkers of values, calls, exceptions and object lifetimes at the language border, with AddressSanitizer/UBSan builds")

prop("P09", "Concurrent use of scenes, components and renderers is free of data races",
     "Once scenes and assets are set up, any number of threads may query and render them at once: there is no data race and no deadlock in the library, and every query answers exactly as it would alone. "
     "A rendering on any number of threads processes exactly the requested work, and parallel loops, films, loggers and progress reports stay race free under every schedule.",
     ["schedules", "configurations"], "all interleavings of threads that query components, splat to films, log, report progress and render, for every thread count and schedule",
     "A data race shows in one interleaving of millions; the tests run on whatever schedule the machine happens to produce and do not look for races.",
     ["src/parallel", "src/renderer", "src/accel", "src/film/film_bitmap.cpp", "src/scene.cpp", "include/lm/math.h"],
     [("parallel loop", "src/parallel"), ("per-thread state of renderers", "src/renderer"), ("atomic pixels", "src/film/film_bitmap.cpp")], observe="all const interfaces of components from several threads at once; reports of ThreadSanitizer",
     technique="runtime monitoring: ThreadSanitizer over concurrent workloads on all components, renderers, films and loggers, and comparison of concurrent answers with those given alone",
     note="one thread changes assets or scenes, several use them; the OpenMP runtime is replaced by a thread pool that ThreadSanitizer understands")

prop("P10", "No accepted input leads to undefined behaviour, leaks or endless loops",
     "Whatever numbers, arrays, transforms and references a user gives to components, scenes, films and renderers, they are either refused or every later query, rendering, saving and restoring is memory safe: no access out of bounds or to freed or uninitialised memory, no undefined arithmetic or conversion, no crash, no leak, and it comes to an end. "
     "This includes degenerate geometry, singular transforms, empty meshes and mixtures, films of odd sizes, values of extreme magnitude and values that are not finite.",
     ["inputs", "histories", "configurations"], "all parameters of all components, all transforms and geometry, and all sequences of uses of what was accepted",
     "Tests use well-formed scenes in an uninstrumented build, where wrong accesses usually go unnoticed.",
     ["src", "include/lm", "plugin"],
     [("parameters of components", "include/lm/json.h"), ("distributions", "include/lm/math.h"), ("renderers", "src/renderer"), ("films", "src/film/film_bitmap.cpp")], observe="reports of AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck; process ends",
     technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck over hostile parameters and over the workloads of all other properties",
     note="densities of media and path lengths are bounded (running time is proportional to them); file formats are parsed by third-party libraries")

prop("P24", "The asset tree shows what exists, and visits reach every component",
     "Listing the asset tree shows every owned component exactly once, below its owner, with its own name and type, and on request every reference with the locator of the component it leads to, and nothing else, for any tree, nested groups, models and scenes included, also after assets are replaced, saved and restored. "
     "Visiting a component presents exactly the components it owns and those it refers to, each found again by its locator. Values that are polled arrive unchanged and in order at the function registered at that time.",
     ["inputs", "histories"], "for every tree of assets of any implementation with any parameters and every history of replacing, saving, restoring and resetting",
     "the tests list no tree at all and visit a few small ones, while a component that forgets one member in its visits shows only in trees that use it",
     ["src/debug.cpp", "include/lm/component.h", "src/assetgroup.cpp", "src/scene.cpp", "src/model/model_wavefrontobj.cpp", "src/renderer", "src/material", "src/light"],
     [("listing of the tree", "src/debug.cpp print_asset_tree"), ("visits of owned and referred components", "Component::foreach_underlying of every implementation"), ("polling", "src/debug.cpp poll")],
     observe="a logger records the listing with its indentation; it is compared, as a set of paths, with what the parameters of a random tree of all component types say, and all visits are followed and checked against locators, under AddressSanitizer",
     technique="runtime monitoring: trace checker of the recorded listing and of all visits against the tree described by the parameters, with AddressSanitizer/UBSan builds")

#--MORE--


def main():
    import re
    assert len({p["id"] for p in P}) == len(P)
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = [p["observe"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 /verif/run.py setup",
         "hooks": {"guard": "LM_VERIF_HOOKS", "enable": "-DLM_VERIF_HOOKS=1", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/run.py %s --tier quick" % p["id"],
                     "thorough_cmd": "python3 /verif/run.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "No hooks were needed in /repo: the monitors observe the public interfaces, replace the OpenMP run-time and use compiler sanitizers. Known and fixed defects: known_findings.txt."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
