"""Helper to author seeded changes: mk(id, prop, [(file, old, new)], demo C++ main body, needs, breaks)."""
import difflib, json, os
REPO = "/repo"
OUT = "/verif/seeded"
SH = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken. Run with cwd = the repository, after its build.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -mrdrnd -DBOOST_AVAILABLE=1 -DENABLE_RDRAND=1 -Iinclude -Iinclude/common -I_build/include -I_build/include/common "$d/demo.cpp" %s _build/libqrack.a -lpthread -ldl -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''
PRE = '''#include "qfactory.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <random>
using namespace Qrack;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
static bool near(complex a, complex b, double t = 1e-3) { return std::abs(a - b) < t; }
static bool nearR(double a, double b, double t = 1e-3) { return std::abs(a - b) < t; }
static std::vector<complex> state(QInterfacePtr q) { std::vector<complex> v((size_t)(bitCapIntOcl)q->GetMaxQPower()); q->GetQuantumState(v.data()); return v; }
static std::vector<complex> randState(int n, unsigned seed) { std::mt19937 g(seed); std::normal_distribution<double> d; std::vector<complex> v((size_t)1 << n); double s = 0; for (auto& c : v) { c = complex((real1)d(g), (real1)d(g)); s += norm(c); } for (auto& c : v) c /= (real1)std::sqrt(s); return v; }
static QInterfacePtr make(std::vector<QInterfaceEngine> e, int n, bitCapInt p = ZERO_BCI) { return CreateQuantumInterface(e, (bitLenInt)n, p, nullptr, ONE_CMPLX, false, false); }
static QInterfacePtr cpu(int n) { return make({ QINTERFACE_CPU }, n); }
'''


def mk(sid, prop, edits, demo, needs, breaks, extra="", pre=PRE):
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    out = ""
    byf = {}
    for f, old, new in edits:
        s = byf.get(f) or open(os.path.join(REPO, f)).read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        byf[f] = s.replace(old, new)
    for f, s in byf.items():
        a = open(os.path.join(REPO, f)).read()
        out += "".join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.sh"), "w").write(SH % extra)
    open(os.path.join(d, "demo.cpp"), "w").write(pre + "int main()\n{\n" + demo + "\n    if (!bad) printf(\"ok\\n\");\n    return bad;\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", sid)
