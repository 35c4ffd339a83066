"""writes a planted bug: patch.diff, demo.sh, demo.cpp, meta.json; checks patch and demo in a scratch copy"""
import os, subprocess, json, shutil, sys
W = "/tmp/seedrepo"
SH = '''#!/bin/bash
# run in the repository root after its build; nonzero when the property is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false OMP_NUM_THREADS=%(omp)s OPENBLAS_NUM_THREADS=1 TMPDIR=$t
g++ -std=c++20 -O1 -w -DNDEBUG %(flags)s -I"$d" -I_build/src/sparsexx/include -I_build/include -Iinclude -Isrc/sparsexx/include -Isrc/macis -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/include/eigen3 "$d/demo.cpp" %(srcs)s -o "$t/demo" %(libs)s || exit 99
cd "$t" && timeout 120 %(run)s ./demo
'''
PRE = '''#include <cstdio>
#include <cmath>
#include <vector>
#include <stdexcept>
#include <algorithm>
#include <numeric>
#include <random>
#define REQ(c) do { if(!(c)) { std::printf("FAIL line %d: %s\\n", __LINE__, #c); return 1; } } while(0)
'''
def seed(id, prop, edits, demo, needs, breaks, macis=False, libs="", srcs="", flags="", run="", omp=2, inc="", files=()):
    d = "/verif/seeded/" + id
    if not os.path.isdir(W): subprocess.check_call(["cp", "-a", "/repo", W])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", W, "pull", "-q", "/repo"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) if subprocess.check_output(["git", "-C", W, "rev-parse", "HEAD"]) != subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]) else None
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if macis: shutil.copytree("/verif/stubs/mdspan", d + "/mdspan")
    for f in files: shutil.copy("/verif/harness/" + f, d)
    open(d + "/demo.cpp", "w").write(PRE + inc + demo)
    open(d + "/demo.sh", "w").write(SH % dict(flags=flags, srcs=srcs, libs=libs, run=run, omp=omp)); os.chmod(d + "/demo.sh", 0o755)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for f, a, b in edits:
        s = open(W + "/" + f).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(W + "/" + f, "w").write(s.replace(a, b))
    p = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    open(d + "/patch.diff", "w").write(p)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    t = subprocess.run(["bash", "-c", "true"])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = r0.returncode == 0 and r1.returncode not in (0, 99)
    print(id, "OK" if ok else "*** BAD", r0.returncode, r1.returncode, r1.stdout[-200:].replace("\n", " ") if ok else (r0.stdout[-1500:] + r1.stdout[-1500:]))
