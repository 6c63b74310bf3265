#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description: mkseed.py FILE.py [id...]
FILE.py defines SEEDS: a list of dicts id, property, edits [(file, old, new)...], needs,
breaks, demo (C++ body using kit.h) and optionally kit ("gdal", "utils", ...).
Every seed is confirmed in /repo (built, tests run, demonstration fails, then passes again after undoing it)
and the given checks are run against it."""
import os, subprocess, sys, json, runpy, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "lib"))

DEMO = """#!/bin/bash
# exit 0: the code behaves; nonzero: it does not
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
out=$repo/_build/out
%s || exit 2
cd "$work" && timeout 120 ./demo
"""
INC = '-std=c++17 -w -O1 -D_FILE_OFFSET_BITS=64 -I"$here" -I"$repo" -I"$out" -I"$out/msat" -I/usr/include/gdal'
KITS = {
    "gdal": 'g++ %s "$here/demo.cpp" "$here/fake_decoder.cpp" -o "$work/demo" -Wl,--start-group "$out"/gdal/libmsatdrv.a "$out"/msat/libmsat.a "$out"/msat/libmsat-hrit.a "$out"/msat/libmsat-base.a -Wl,--end-group -Wl,--unresolved-symbols=ignore-all -lgdal -leccodes' % INC,
    "hrit": 'g++ %s "$here/demo.cpp" "$here/fake_decoder.cpp" -o "$work/demo" -Wl,--start-group "$out"/msat/libmsat.a "$out"/msat/libmsat-hrit.a "$out"/msat/libmsat-base.a -Wl,--end-group' % INC,
    "hritsan": 'g++ %s -D_GLIBCXX_ASSERTIONS -g -fsanitize=address "$here/demo.cpp" "$here/fake_decoder.cpp" $(ls "$repo"/msat/hrit/*.cpp "$repo"/msat/xrit/*.cpp | grep -v MSG_data_image.cpp) -o "$work/demo"' % INC,
    "utils": 'g++ %s "$here/demo.cpp" "$repo"/msat/utils/string.cc "$repo"/msat/utils/sys.cc "$repo"/msat/utils/subprocess.cc -o "$work/demo" -lpthread' % INC,
    "utilssan": 'g++ %s -D_GLIBCXX_ASSERTIONS -fsanitize=address "$here/demo.cpp" "$repo"/msat/utils/string.cc "$repo"/msat/utils/sys.cc "$repo"/msat/utils/subprocess.cc -o "$work/demo" -lpthread' % INC,
    "term": 'g++ %s "$here/demo.cpp" "$repo"/msat/utils/term.cc "$repo"/msat/Progress.cpp -o "$work/demo"' % INC,
    "ini": 'gcc -w -c "$repo"/msat/iniparser.c -I"$repo" -o "$work/ini.o" && g++ %s "$here/demo.cpp" "$work/ini.o" -o "$work/demo"' % INC,
    "native": 'g++ %s "$here/demo.cpp" "$here/fake_decoder.cpp" "$repo"/msat/msg-native/*.cpp -o "$work/demo" -Wl,--start-group "$out"/msat/libmsat.a "$out"/msat/libmsat-hrit.a "$out"/msat/libmsat-base.a -Wl,--end-group' % INC,
    "omtp": 'g++ %s "$here/demo.cpp" "$repo"/msat/omtp-ids/*.cc -o "$work/demo"' % INC,
    "hri": 'g++ %s "$here/demo.cpp" "$repo"/msat/hri/*.cpp -o "$work/demo"' % INC,
    "db1": 'gcc -w -I"$repo" -c "$repo/msat/iniparser.c" -o "$work/ini.o" && g++ %s "$here/demo.cpp" "$repo"/msat/thornsds_db1/*.cpp "$work/ini.o" -o "$work/demo"' % INC,
    "db1tool": 'M="$(pkg-config --cflags Magick++)" && export TOOL="$work/db1_to_image" && gcc -w -I"$repo" -c "$repo/msat/iniparser.c" -o "$work/ini.o" && g++ %s $M "$repo"/tools/thornsds_db1/db1_to_image.cpp "$repo"/msat/thornsds_db1/*.cpp "$work/ini.o" -o "$TOOL" $(pkg-config --libs Magick++) && g++ %s "$here/demo.cpp" -o "$work/demo"' % (INC, INC),
    "mtp": 'g++ %s "$here/demo.cpp" "$repo"/msat/openmtp/*.cpp -o "$work/demo"' % INC,
    "view": 'M="$(pkg-config --cflags Magick++)" && L="-Wl,--start-group $out/msat/libmsat.a $out/msat/libmsat-hrit.a $out/msat/libmsat-base.a -Wl,--end-group" && export TOOLS="$work" && for t in hrit/xritdump hrit/XRIT2Image msg-native/native2Image; do g++ %s $M "$repo/tools/$t.cpp" "$here/fake_decoder.cpp" $(case $t in msg*) ls "$repo"/msat/msg-native/*.cpp;; esac) -o "$work/${t##*/}" $L $(pkg-config --libs Magick++) || exit 2; done && g++ %s "$here/demo.cpp" -o "$work/demo" $L' % (INC, INC),
    "msat": 'g++ %s "$here/demo.cpp" "$here/fake_decoder.cpp" -o "$work/demo" -Wl,--start-group "$out"/msat/libmsat.a "$out"/msat/libmsat-hrit.a "$out"/msat/libmsat-base.a -Wl,--end-group -lgdal && export MSAT_TOOL="$out/tools/msat"' % INC,
}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo(d):
    r = sh(f"timeout 300 bash {d}/demo.sh", cwd=REPO)
    return r.returncode, r.stdout[-1500:]


def main():
    ns = runpy.run_path(sys.argv[1])
    want = set(sys.argv[2:])
    res = []
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        assert sh("git status --porcelain", cwd=REPO).stdout == "", "repo not clean"
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        kit = s.get("kit", "gdal")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % KITS[kit])
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cpp"), "w").write('#include "kit.h"\n' + s["demo"].strip() + "\n")
        shutil.copy(os.path.join(V, "bin", "kit.h"), d)
        if kit in ("gdal", "hrit", "hritsan", "msat", "native", "view"):
            shutil.copy(os.path.join(V, "harness", "hritgen.h"), d)
            shutil.copy(os.path.join(V, "harness", "fake_decoder.cpp"), d)
        txt = open(os.path.join(d, "kit.h")).read()
        open(os.path.join(d, "kit.h"), "w").write("#define KIT_%s\n" % kit.upper().replace("SAN", "") + txt)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        out = {"id": s["id"]}
        try:
            for f, a, b, *last in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p, encoding="latin1").read()
                assert t.count(a) == 1 or last, (s["id"], f, t.count(a), a)
                base = subprocess.run(["git", "show", "a81b16f:" + f], cwd=REPO, stdout=subprocess.PIPE).stdout.decode("latin1")
                for l in set(a.split("\n")) - set(b.split("\n")):
                    assert l in base, (s["id"], "not an original line", l)
                open(p, "w", encoding="latin1").write((b.join(t.rsplit(a, 1)) if last else t.replace(a, b)))
            diff = subprocess.run(["git", "diff"], cwd=REPO, stdout=subprocess.PIPE).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            r = sh("bash /opt/vp/build.sh")
            out["build"] = r.returncode
            if r.returncode:
                print(r.stdout[-2000:])
            out["tests"] = sh(os.path.join(V, "bin", "repotest")).stdout.strip()
            out["broken"] = demo(d)
            if os.environ.get("NOCHECK") is None:
                for c in s.get("checks", [s["property"]]):
                    r = sh(f"bin/check {c} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                    out["check " + c] = (r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1] or r.stdout[-300:])
        finally:
            sh("git checkout -- .", cwd=REPO)
        sh("bash /opt/vp/build.sh")
        out["clean"] = demo(d)
        ok = out["build"] == 0 and out["tests"].endswith("[]") and out["broken"][0] != 0 and out["clean"][0] == 0
        caught = any(v[0] == 1 for k, v in out.items() if k.startswith("check"))
        print(("GOOD " if ok else "BAD  ") + ("caught " if caught else "MISSED ") + s["id"], flush=True)
        for k, v in out.items():
            if not ok or not caught or k.startswith("check"):
                print("   ", k, v, flush=True)


main()
