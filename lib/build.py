"""Builds the harness drivers from /repo's *current* working tree.

Nothing made by /repo's own build is used: every check compiles the sources it
needs (globbed, so that a file added next to the others is picked up) into
/verif/build, with its own config.h.  Ninja's depfiles make a second build in
the same sandbox incremental.
"""
import glob, os, subprocess, sys, shlex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CONFIG_H = """#pragma once
#define HAVE_GDAL
#define HAVE_GRIBAPI
#define HAVE_HRIT
#define HAVE_NETCDF
#define HAVE_STDINT_H
#define MSAT_DEFAULT_INSTITUTION "ARPA-SIM"
#define MSAT_HAVE_GDAL
#define MSAT_HAVE_HRIT
#define MSAT_HAVE_NETCDF
#define PACKAGE_STRING "meteosatlib verif"
#define PACKAGE_VERSION "1.36"
"""

# group -> list of globs (relative to REPO), excluded basenames
GROUPS = {
    "base": (["msat/*.cpp", "msat/iniparser.c"], []),
    "utils": (["msat/utils/string.cc", "msat/utils/sys.cc", "msat/utils/subprocess.cc"], []),
    "hrit": (["msat/hrit/*.cpp", "msat/xrit/*.cpp"], ["MSG_data_image.cpp"]),
    "mgdal": (["msat/gdal/*.cpp"], []),
    "plugin": (["gdal/utils.cpp", "gdal/reflectance/*.cpp", "gdal/grib/*.cpp", "gdal/xrit/*.cpp"], []),
    "native": (["msat/msg-native/*.cpp"], []),
    "omtp": (["msat/omtp-ids/*.cc"], []),
    "hri": (["msat/hri/*.cpp"], []),
    "mtp": (["msat/openmtp/*.cpp"], []),
    "term": (["msat/utils/term.cc"], []),
    "db1": (["msat/thornsds_db1/*.cpp"], []),
}

# driver -> (sources, groups, libs)
DRIVERS = {
    "d_xrit": (["harness/d_xrit.cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp"], ["hrit", "base"], []),
    "d_hrit": (["harness/d_hrit.cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp"], ["hrit", "base"], []),
    "d_facts": (["harness/d_facts.cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp"], ["hrit", "base"], []),
    "d_utils": (["harness/d_utils.cpp"], ["utils", "base"], []),
    "d_sys": (["harness/d_sys.cpp"], ["utils", "base"],
              ["-Wl," + ",".join("--wrap=" + w for w in "write read pwrite64 pread64 pwrite pread rename renameat fchmod chmod fsync fdatasync unlink unlinkat rmdir mkstemp mkstemp64 ftruncate64 ftruncate open open64 openat openat64 close readdir readdir64 fcntl fcntl64 futimens".split())]),
    "d_ini": (["harness/d_ini.cpp"], ["db1", "base"], []),
    "d_native": (["harness/d_native.cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp"], ["native", "hrit", "base"], []),
    "d_view": (["harness/d_view.cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp"], ["native", "hrit", "base"], []),
    **{"t_" + t: (["@tools/" + f + ".cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp"], ["native", "hrit", "base"],
                  ["-lMagick++-6.Q16", "-lMagickCore-6.Q16"] if "Image" in t else [])
       for t, f in (("xritdump", "hrit/xritdump"), ("XRIT2Image", "hrit/XRIT2Image"), ("nativedump", "msg-native/nativedump"), ("native2Image", "msg-native/native2Image"))},
    "t_db1_to_image": (["@tools/thornsds_db1/db1_to_image.cpp"], ["db1", "base"], ["-lMagick++-6.Q16", "-lMagickCore-6.Q16"]),
    "d_omtp": (["harness/d_omtp.cpp"], ["omtp", "base"], []),
    **{"t_omtp_" + t: (["@tools/omtp-ids/OpenMTP-IDS_" + f + ".cc"], ["omtp", "base"], [])
       for t, f in (("pgm", "to_pgm"), ("sector", "sector"), ("write", "write"), ("debug", "debug"))},
    "d_hri": (["harness/d_hri.cpp"], ["hri", "base"], []),
    "d_child": (["harness/d_child.cpp"], ["utils", "base"], ["-Wl,--wrap=kill"]),
    "d_term": (["harness/d_term.cpp"], ["term", "base"], []),
    "t_OpenMTP_info": (["@tools/openmtp/OpenMTP_info.cc"], ["mtp", "base"], []),
    "d_mtp": (["harness/d_mtp.cpp"], ["mtp", "base"], []),
    "d_gdal": (["harness/d_gdal.cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp"],
               ["plugin", "mgdal", "hrit", "base"], ["-lgdal", "-leccodes"]),
    "t_msat": (["@tools/msat.cpp", "@tools/image.cpp", "harness/fake_decoder.cpp", "harness/asan_glob.cpp", "harness/register_stub.cpp"],
               ["plugin", "mgdal", "hrit", "utils", "base"], ["-lgdal", "-leccodes", "-lMagick++-6.Q16", "-lMagickCore-6.Q16"]),
}

# sources that need more than the others
MAGICK = "-DHAVE_MAGICKPP -I/usr/include/x86_64-linux-gnu/ImageMagick-6 -I/usr/include/ImageMagick-6 -DMAGICKCORE_HDRI_ENABLE=0 -DMAGICKCORE_QUANTUM_DEPTH=16"
MORE = {"@tools/" + f + ".cpp": MAGICK for f in ("msat", "image", "hrit/XRIT2Image", "msg-native/native2Image", "thornsds_db1/db1_to_image")}


class BuildError(Exception):
    pass


def _san(flags):
    return flags


def ninja_file(drivers, san):
    tag = "san" if san else "plain"
    out = os.path.join(BUILD, tag)
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(BUILD, "include")
    os.makedirs(inc, exist_ok=True)
    for d in ("", "msat"):
        os.makedirs(os.path.join(inc, d), exist_ok=True)
    cfg = os.path.join(inc, "config.h")
    if not os.path.exists(cfg) or open(cfg).read() != CONFIG_H:
        open(cfg, "w").write(CONFIG_H)
    cfg2 = os.path.join(inc, "msat", "config.h")
    if not os.path.exists(cfg2) or open(cfg2).read() != CONFIG_H:
        open(cfg2, "w").write(CONFIG_H)
    base = f"-g1 -O1 -fPIC -w -D_FILE_OFFSET_BITS=64 -D_GLIBCXX_ASSERTIONS -I{inc} -I{REPO} -I{VERIF}/harness -I/usr/include/gdal"
    sanf = " -fsanitize=address,undefined -fno-sanitize=alignment,vptr,float-cast-overflow,float-divide-by-zero,signed-integer-overflow,shift,enum,bool -fno-sanitize-recover=undefined -fno-omit-frame-pointer" if san else ""
    L = []
    L.append("ninja_required_version = 1.5")
    L.append(f"builddir = {out}")
    L.append(f"rule cxx\n  command = g++ -std=c++17 {base}{sanf} $more -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append(f"rule cc\n  command = gcc {base}{sanf} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append(f"rule link\n  command = g++{sanf} -o $out -Wl,--start-group $in -Wl,--end-group $libs -lpthread\n")
    L.append("rule ar\n  command = rm -f $out && ar rcs $out $in")
    groups = []
    for d in drivers:
        for g in DRIVERS[d][1]:
            if g not in groups:
                groups.append(g)
    for g in groups:
        pats, excl = GROUPS[g]
        objs = []
        for p in pats:
            for f in sorted(glob.glob(os.path.join(REPO, p))):
                if os.path.basename(f) in excl:
                    continue
                o = f"{out}/obj/{g}/" + os.path.relpath(f, REPO).replace("/", "_") + ".o"
                rule = "cc" if f.endswith(".c") else "cxx"
                L.append(f"build {o}: {rule} {f}")
                objs.append(o)
        L.append(f"build {out}/lib{g}.a: ar {' '.join(objs)}")
    seen = set()
    for d in drivers:
        srcs, gs, libs = DRIVERS[d]
        objs = []
        for s in srcs:
            path = os.path.join(REPO, s[1:]) if s.startswith("@") else os.path.join(VERIF, s)
            o = f"{out}/obj/drv/" + s.lstrip("@").replace("/", "_") + ".o"
            if o not in seen:
                L.append(f"build {o}: cxx {path}" + (f"\n  more = {MORE[s]}" if s in MORE else ""))
                seen.add(o)
            objs.append(o)
        ar = " ".join(f"{out}/lib{g}.a" for g in gs)
        L.append(f"build {out}/{d}: link {' '.join(objs)} {ar}\n  libs = {' '.join(libs)}")
    L.append("default " + " ".join(f"{out}/{d}" for d in drivers))
    path = os.path.join(out, "-".join(sorted(drivers)) + ".ninja")
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")
    return path, out


def build(drivers, san=False):
    """Returns {driver: path}. Raises BuildError."""
    path, out = ninja_file(drivers, san)
    env = dict(os.environ, CCACHE_DISABLE="1")
    r = subprocess.run(["ninja", "-f", path, "-j", "8"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    return {d: os.path.join(out, d) for d in drivers}


if __name__ == "__main__":
    try:
        print(build(sys.argv[2:], sys.argv[1] == "san"))
    except BuildError as e:
        print(e)
        sys.exit(3)
