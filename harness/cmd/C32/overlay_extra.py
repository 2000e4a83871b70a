"""Places the example programs at virtual paths as importable packages: the
package clause is changed and an exported entry point added, nothing else."""
import glob, os, re

def extra(V, P):
    out = os.path.join(V, "out", P, "gen")
    os.makedirs(out, exist_ok=True)
    R = {}
    for d in ("bfv", "mult"):
        for f in sorted(glob.glob("/repo/examples/%s/*.go" % d)):
            b = os.path.basename(f)
            if b.endswith("_test.go"):
                continue
            s = re.sub(r"(?m)^package main\b", "package ex" + d, open(f).read(), count=1)
            g = os.path.join(out, d + "_" + b)
            open(g, "w").write(s)
            R["/repo/zzverif/ex%s/%s" % (d, b)] = g
        g = os.path.join(out, d + "_zzmain.go")
        open(g, "w").write("package ex%s\n\n// Main runs the example.\nfunc Main() { main() }\n" % d)
        R["/repo/zzverif/ex%s/zzmain.go" % d] = g
    return R
