"""Places export shims for the internal field packages, and copies of every
field package with the assembly left out (the portable variant that other
platforms and the purego tag compile), at virtual paths in /repo's module."""
import glob, os, re

PKGS = {
    "zp110": "buckler/internal/zp110", "zp220": "buckler/internal/zp220",
    "zp440": "buckler/internal/zp440", "zp880": "buckler/internal/zp880",
    "zpj": "jindo/internal/zp", "zpbfv": "examples/bfv/zp", "zpmult": "examples/mult/zp",
}

def extra(V, P):
    out = os.path.join(V, "out", P, "gen")
    os.makedirs(out, exist_ok=True)
    R = {}
    for f in glob.glob(os.path.join(V, "harness/zpx/*.go")):
        R["/repo/zzverif/zpx/" + os.path.basename(f)] = f
    for name, d in PKGS.items():
        # portable copy
        for f in sorted(glob.glob("/repo/%s/*.go" % d)):
            b = os.path.basename(f)
            if b.endswith("_test.go") or re.search(r"_(amd64|arm64)\.go$", b):
                continue
            s = open(f).read()
            m = re.search(r"(?m)^//go:build (.*)$", s)
            if m:
                if "purego" not in m.group(1) or re.search(r"!purego", m.group(1)):
                    continue
                s = re.sub(r"(?m)^//go:build .*$", "", s)
            g = os.path.join(out, name + "_" + b)
            open(g, "w").write(s)
            R["/repo/zzverif/zpg/%s/%s" % (name, b)] = g
        # adapter for both variants
        src = open("/repo/%s/element.go" % d).read()
        pkg = re.search(r"(?m)^package (\w+)", src).group(1)
        tmpl = open(os.path.join(V, "harness/zpx/adapter.tmpl")).read()
        for var, imp, vdir in (("Asm", "github.com/sp301415/ringo-snark/" + d, os.path.dirname(d) if "/internal/" not in d else d.split("/internal/")[0]),
                               ("Gen", "github.com/sp301415/ringo-snark/zzverif/zpg/" + name, "zzverif")):
            a = "zza_%s_%s" % (name, var.lower())
            g = os.path.join(out, a + ".go")
            open(g, "w").write(tmpl.replace("@PKG@", a).replace("@IMP@", imp).replace("@NAME@", name + "-" + var.lower()))
            R["/repo/%s/%s/a.go" % (vdir, a)] = g
    return R
