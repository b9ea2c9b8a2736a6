"""helper: mkseed(id, property, needs, breaks, [(file, old, new)], demo source) writes /verif/seeded/<id>/"""
import os, subprocess, json
SEED = "/verif/seeded"
REPO = os.environ.get("SEEDREPO", "/repo")
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"
export FIMEX_IO_PLUGINS_PATH="$PWD/_build/src/io/netcdf"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
LIB="$(ls "$PWD"/_build/src/libfimex-*.so | head -1)"
g++ -std=gnu++20 -w -Iinclude -I_build/src -Isrc -I/usr/include/libxml2 "$D/demo.cc" -o "$T/demo" "$LIB" -Wl,-rpath,"$PWD/_build/src" || exit 3
cd "$T" && timeout 120 ./demo
'''
HEAD = '''#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <vector>
#include <string>
#include <limits>
#include <stdexcept>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); bad++; } } while (0)
static bool near(double a, double b, double e = 1e-5) { return fabs(a - b) <= e * (1 + fabs(b)); }
'''


def mkseed(sid, prop, needs, breaks, edits, demo, mem=False):
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    if mem:  # a reader from memory, as in the harnesses
        open(d + "/mem.h", "w").write(open("/verif/harness/harness.h").read())
        open(d + "/demo.cc", "w").write('#include "mem.h"\n' + demo)
    else:
        open(d + "/demo.cc", "w").write(HEAD + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", sid)
