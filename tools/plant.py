"""Author planted bugs: python3 tools/plant.py SPEC.py [ID…] — writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json} and tries each in a scratch
copy of /repo: builds, runs the stable tests, the demonstration before and after.  (A build in /tmp/plant/repo; the copy is removed at the end.)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run in /repo after the build: 0 if the library behaves, 1 if not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++14 -O1 -w -I _build/lib/include -I lib/include -I lib/src -I tool "$here/demo.cpp" _build/output/libcuttlefish.a -lfreeimage -pthread -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
'''
HEAD = '''#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <cuttlefish/Color.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>
using namespace cuttlefish;
static int failures;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); ++failures; } } while (0)
static Image fill(unsigned w, unsigned h, unsigned seed = 1, ColorSpace cs = ColorSpace::Linear)
{
	Image im(Image::Format::RGBAF, w, h, cs);
	for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x)
	{ ColorRGBAd c = {((x*7 + y*13 + seed*5) % 32)/31.0, ((x*3 + y*5 + seed) % 32)/31.0, ((x + y*11 + seed*3) % 32)/31.0, ((x*5 + y + seed*7) % 32)/31.0}; im.setPixel(x, y, c); }
	return im;
}
static std::uint32_t u32(const std::vector<std::uint8_t>& d, size_t o) { std::uint32_t v; std::memcpy(&v, d.data() + o, 4); return v; }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
    os.makedirs("/tmp/plant", exist_ok=True)
    base = "/tmp/plant/repo"
    shutil.rmtree(base, ignore_errors=True); sh("cp -a /repo %s" % base)
    env = dict(os.environ)
    def build():
        r = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCUTTLEFISH_BUILD_TESTS=ON -DCUTTLEFISH_BUILD_TOOL=ON -DCUTTLEFISH_BUILD_DOCS=OFF -DCUTTLEFISH_BUILD_S3TC=OFF -DCUTTLEFISH_BUILD_ETC=OFF -DCUTTLEFISH_BUILD_ASTC=OFF -DCUTTLEFISH_BUILD_PVRTC=OFF && ninja -C _b -j8", cwd=base)
        return r
    shutil.rmtree(base + "/_build", ignore_errors=True)
    r = build()
    if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(2)
    os.symlink("_b", base + "/_build")
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(HEAD + b["demo"])
        open(d + "/demo.sh", "w").write(b.get("sh", DEMO_SH)); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .", cwd=base)
        for e in b["edits"]:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
            p = os.path.join(base, f); s = open(p).read(); i = -1
            for _ in range(nth + 1):
                i = s.find(old, i + 1)
                if i < 0: print(b["id"], "NOT FOUND:", old); sys.exit(2)
            if len(e) <= 3 and s.count(old) != 1: print(b["id"], "AMBIGUOUS", s.count(old), old); sys.exit(2)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=base).stdout)
        r = build()
        if r.returncode: print(b["id"], "DOES NOT BUILD", r.stdout[-1500:]); sh("git checkout -q -- .", cwd=base); continue
        t = sh("cd _b && output/cuttlefish_lib_test 2>&1 | tail -25; ctest --test-dir . -j8 -E '^CuttlefishLibTest$' 2>&1 | tail -12", cwd=base).stdout
        bad = re.findall(r"\[  FAILED  \].*", t) + re.findall(r".*\(Failed\)", t)
        m = sh("bash %s/demo.sh" % d, cwd=base)
        sh("git checkout -q -- .", cwd=base); build()
        g = sh("bash %s/demo.sh" % d, cwd=base)
        ok = not bad and m.returncode != 0 and g.returncode == 0 and m.returncode != 2
        print(b["id"], "OK" if ok else "BAD", "tests failed: %s" % bad[:4] if bad else "", "demo with/without:", m.returncode, g.returncode, (m.stdout + m.stderr)[:200].replace("\n", " | ") , (g.stdout + g.stderr)[:300] if g.returncode else "", flush=True)
    shutil.rmtree(base, ignore_errors=True)
main()
