"""Instruments the packages with scheduling points before every statement."""
import glob, json, os, subprocess

def extra(V, P):
    out = os.path.join(V, "out", P, "gen")
    os.makedirs(out, exist_ok=True)
    for f in glob.glob(out + "/*.go"):
        os.unlink(f)
    exe = os.path.join(V, "out", P, "instr")
    subprocess.run(["go", "build", "-o", exe, os.path.join(V, "tools/instr/main.go")], check=True, cwd=out)
    r = json.loads(subprocess.run([exe, out, "jindo", "buckler", "math/csprng", "math/bigpoly"], check=True, stdout=subprocess.PIPE).stdout)
    for f in glob.glob(os.path.join(V, "harness/sched/*.go")):
        r["/repo/zzverif/sched/" + os.path.basename(f)] = f
    return r
