#!/usr/bin/env python3
"""mkseed.py DEF.py [ID...]: author planted bugs.  DEF.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=C++ text
or sh=shell text)}.  Each is confirmed in a scratch copy of /repo: it builds, the stable tests pass, the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
REPO = os.environ.get("SEED_REPO", "/tmp/srepo")  # a scratch clone with its own _build; SEED_BUILD and SEED_TEST are build.sh and test.sh retargeted to it
SB = os.environ.get("SEED_BUILD", "/tmp/sbuild.sh")
ST = os.environ.get("SEED_TEST", "/tmp/stest.sh")

DEMO_SH = r'''#!/bin/bash
# Builds the demonstration against the current tree and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++-14 -std=gnu++23 -O1 -fopenmp -w -DHELFEM_HAVE_FLOAT128 -DEIGEN_USE_BLAS -I"$here" -I$R/src -I$R/src/general -I$R/src/legendre -I$R/libhelfem/src \
  -I$B/libhelfem -I$B/libhelfem/include -I$B/libhelfemqc/include -I/usr/include/hdf5/serial -isystem /usr/include/eigen3 \
  "$here/demo.cpp" $R/src/general/gaunt.cpp "$here/atomdb_data.cpp" -o "$t/demo" \
  $B/src/libhelfem-common.a $B/libhelfemqc/libhelfemqc.a $B/libhelfem/libhelfem.a $B/src/liblegendre.a $B/libhelfem/libhelfem.a \
  -lhdf5_serial -lxc -lopenblas -lquadmath || exit 3
cd "$t" && HDF5_USE_FILE_LOCKING=FALSE timeout 250 ./demo
'''


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    spec = importlib.util.spec_from_file_location("d", sys.argv[1])
    d = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(d)
    ids = sys.argv[2:] or list(d.SEEDS)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        s = d.SEEDS[i]
        dst = os.path.join(OUT, i)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + "/demo.sh", "w").write(s.get("sh") or DEMO_SH)
        os.chmod(dst + "/demo.sh", 0o755)
        if s.get("demo"):
            open(dst + "/demo.cpp", "w").write(s["demo"])
            for f in ("wignernj.hpp", "wignernj_quadmath.h", "atomdb_data.cpp"):
                shutil.copy(os.path.join(os.path.dirname(HERE), "harness/stubs", f), dst)
        for n, tx in s.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(dst, n)), exist_ok=True)
            open(os.path.join(dst, n), "w").write(tx)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        rc, o = sh("git -C "+REPO+" status --porcelain")
        assert not o.strip(), "repo dirty"
        # baseline demo on the unchanged tree
        rc0, o0 = sh(dst + "/demo.sh", cwd=REPO)
        if rc0 != 0:
            print(i, "DEMO FAILS ON UNCHANGED TREE rc=%d\n%s" % (rc0, o0[-2000:]))
            continue
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            rc, diff = sh("git -C "+REPO+" diff")
            open(dst + "/patch.diff", "w").write(diff)
            rc, o = sh("bash "+SB+"")
            if rc != 0:
                print(i, "DOES NOT BUILD\n" + o[-2500:])
                continue
            rc, o = sh("bash "+ST+" /tmp/seed_test.json")
            r = json.load(open("/tmp/seed_test.json"))
            fails = [k for k in r.get("failed", [])]
            passed = set(r.get("passed", []))
            want = set(base.get("stable", base.get("tests", base.get("passed", []))))
            miss = want - passed
            if miss or not want:
                print(i, "TESTS FAIL", sorted(miss)[:5], len(want))
                continue
            rc1, o1 = sh(dst + "/demo.sh", cwd=REPO)
            print(i, "ok" if rc1 != 0 else "DEMO DOES NOT FAIL WITH PATCH", "rc with patch", rc1, o1.strip()[-200:])
        finally:
            sh("git -C "+REPO+" checkout -- .")
    sh("bash "+SB+"")


main()
