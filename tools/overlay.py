#!/usr/bin/env python3
"""overlay.py VERIF PROP: writes out/PROP/overlay.json, which places the
harness packages at virtual paths inside /repo's module."""
import glob, json, os, sys
V, P = sys.argv[1], sys.argv[2]
R = {}
def put(src, dst):
    for f in sorted(glob.glob(os.path.join(V, "harness", src, "*.go"))):
        R[os.path.join("/repo", dst, os.path.basename(f))] = f
put("lib", "zzverif/lib")
put("circ", "zzverif/circ")
put("jx", "zzverif/jx")
put("pl", "zzverif/pl")
put("sx", "zzverif/sx")
put("bx", "zzverif/bx")
put("zpx", "zzverif/zpx")
put("cmd/" + P, "zzverif/" + P)
put("expj", "jindo/zzexp")
put("expb", "buckler/zzexp")
extra = os.path.join(V, "harness/cmd", P, "overlay_extra.py")
if os.path.exists(extra):
    R.update(__import__("runpy").run_path(extra)["extra"](V, P))
out = os.path.join(V, "out", P)
os.makedirs(out, exist_ok=True)
json.dump({"Replace": R}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
