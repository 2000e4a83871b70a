"""Builds the real jindo-modulus binary, has it generate packages, and places
them (with adapters) at virtual paths in /repo's module."""
import glob, os, re, shutil, subprocess

# name -> arguments
PKGS = {
    "n39": ["-n", "39"], "n60": ["-n", "60"], "n64": ["-n", "60-66"], "n110": ["-n", "110"],
    "n128": ["-n", "126-130"], "n190": ["-n", "190-193"], "n256": ["-n", "250-257"], "n320": ["-n", "318-322"],
    "n440": ["-n", "440"], "n512": ["-n", "508-513"], "n700": ["-n", "700"], "n880": ["-n", "880"],
    "b120": ["-b", "120", "-k", "128"], "n2000": ["-n", "2000"],
}

def extra(V, P):
    out = os.path.join(V, "out", P)
    gen = os.path.join(out, "gen")
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen)
    os.makedirs(os.path.join(out, "bin"), exist_ok=True)
    stub = os.path.join(out, "bin", "asmfmt")
    open(stub, "w").write("#!/bin/sh\nexit 0\n")
    os.chmod(stub, 0o755)
    jm = os.path.join(out, "jm")
    subprocess.run(["go", "build", "-o", jm, "./jindo-modulus"], check=True, cwd="/repo")
    env = dict(os.environ, PATH=os.path.join(out, "bin") + ":" + os.environ["PATH"])
    open(os.path.join(gen, "go.mod"), "w").write("module zpgen\n\ngo 1.24\n")
    R, ok = {}, []
    procs = {n: subprocess.Popen([jm] + a + ["-o", os.path.join(gen, n)], cwd=gen, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for n, a in PKGS.items()}
    tmpl = open(os.path.join(V, "harness/zpx/adapter.tmpl")).read()
    for n, p in procs.items():
        try:
            p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        d = os.path.join(gen, n, "zp")
        # a package that is missing is reported by the check, which runs the
        # same command again
        if p.returncode != 0 or not os.path.exists(os.path.join(d, "element.go")):
            continue
        ok.append(n)
        # the portable variant: the assembler cannot read overlaid directories
        for f in sorted(os.listdir(d)):
            src = os.path.join(d, f)
            if not f.endswith(".go") or f.endswith("_test.go") or re.search(r"_(amd64|arm64)\.go$", f):
                continue
            s = open(src).read()
            m = re.search(r"(?m)^//go:build (.*)$", s)
            if m:
                if "purego" not in m.group(1) or re.search(r"!purego", m.group(1)):
                    continue
                s = re.sub(r"(?m)^//go:build .*$", "", s)
            open(src, "w").write(s)
            R["/repo/zzverif/zpgen/%s/%s" % (n, f)] = src
        a = "zzg_" + n
        g = os.path.join(gen, a + ".go")
        open(g, "w").write(tmpl.replace("@PKG@", a).replace("@IMP@", "github.com/sp301415/ringo-snark/zzverif/zpgen/" + n).replace("@NAME@", n))
        R["/repo/zzverif/%s/a.go" % a] = g
    for f in glob.glob(os.path.join(V, "harness/zpx/*.go")):
        R["/repo/zzverif/zpx/" + os.path.basename(f)] = f
    m = "package main\n\nimport (\n\t\"github.com/sp301415/ringo-snark/zzverif/lib\"\n"
    m += "".join('\t"github.com/sp301415/ringo-snark/zzverif/zzg_%s"\n' % n for n in ok)
    m += ")\n\nvar commands = map[string][]string{\n"
    m += "".join('\t"%s": {%s},\n' % (n, ", ".join('"%s"' % x for x in a)) for n, a in PKGS.items())
    m += "}\n\nvar generated = map[string]bool{" + ", ".join('"%s": true' % n for n in ok) + "}\n\n"
    m += "func packages(r *lib.Run) {\n"
    m += "".join('\tfield(r, &zzg_%s.F)\n' % n for n in ok) + "}\n"
    g = os.path.join(gen, "zz_packages.go")
    open(g, "w").write(m)
    R["/repo/zzverif/%s/zz_packages.go" % P] = g
    return R
