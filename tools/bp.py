import sys; sys.path.insert(0,'/verif/vf'); import build,os
lib={"h_obj":["tinyobj"]}.get(sys.argv[2],[])
r=build.build(sys.argv[1],sys.argv[2:],lib); print(r[sys.argv[2]], *(["--plugin",r["tinyobj"]] if lib else []))
