#!/usr/bin/env python3
"""Generates build.ninja for the /verif harnesses: clink's libraries are compiled from the
working tree of /repo (never from a copy), with precompiled headers to keep it fast.

usage: genbuild.py REPO OUTDIR
"""
import os, re, sys, glob

MINGW = "/usr/x86_64-w64-mingw32/include"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def write(path, text):
    if not os.path.exists(path) or open(path, encoding="utf-8", errors="replace").read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w", encoding="utf-8").write(text)


def gen_headers(repo, out):
    """What premake5.lua generates, plus wrappers for headers whose case differs."""
    shim = os.path.join(out, "shim")
    os.makedirs(shim, exist_ok=True)
    v = dict(re.findall(r"CLINK_VERSION_(MAJOR|MINOR|PATCH)[ \t]+([0-9]+)",
             open(os.path.join(repo, "clink/app/src/version.h"), encoding="utf-8", errors="replace").read()))
    s = ".".join([v.get(k, "0") for k in ("MAJOR", "MINOR", "PATCH")] + ["000000"])
    write(f"{out}/clink_commit.h", f'#pragma once\n#define CLINK_COMMIT 000000\n#define CLINK_VERSION_STR "{s}"\n'
          f'#define CLINK_VERSION_LSTR L"{s}"\n#define CLINK_VERSION_STR_WITH_BRANCH "{s}"\n')
    system = {f.lower(): f for f in os.listdir(MINGW)}
    want = {}
    for top in ("clink", "readline", "lua", "wildmatch", "detours", "getopt"):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                if f.endswith((".c", ".cpp", ".h", ".i")):
                    if f == "lua_scripts.cpp":
                        continue
                    for h in re.findall(rb'^\s*#\s*include\s*[<"]([^>"\n]+)[>"]', open(os.path.join(d, f), "rb").read(), re.M):
                        h = h.decode("latin-1")
                        if "\\" in h:
                            want[h] = h.replace("\\", "/")
                        elif "/" not in h and h not in system.values() and h.lower() in system:
                            want[h] = system[h.lower()]
    for name, target in want.items():
        write(os.path.join(shim, name), f"#include <{target}>\n")


def rglob(repo, *dirs):
    out = []
    for d in dirs:
        for root, _, fs in os.walk(os.path.join(repo, d)):
            out += [os.path.join(root, f) for f in fs if f.endswith((".c", ".cpp"))]
    return sorted(out)


def main():
    repo, out = sys.argv[1:3]
    os.makedirs(out, exist_ok=True)
    gen = os.path.join(out, "gen")
    gen_headers(repo, gen)
    R = lambda *ds: " ".join(f"-I{repo}/{d}" for d in ds)
    # Where the DEBUG configuration finds the loose Lua scripts: CLINK_BUILD_ROOT/../..
    # (the name must be such that "../.." is not needed: see below).
    defs = (f'-DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -DDEBUG -D_DEBUG "-DCLINK_BUILD_ROOT=\\"w:/.build/gmake\\"" '
            '-D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601')
    base = f"-O0 -w -ffunction-sections -fdata-sections -idirafter {gen}/shim -I{gen} {defs}"
    extra = os.environ.get("VF_CFLAGS", "")
    L = []
    P = L.append
    P(f"ninja_required_version = 1.5\nbuilddir = {out}")
    P("rule cc\n  command = x86_64-w64-mingw32-gcc-posix -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    P("rule cxx\n  command = x86_64-w64-mingw32-g++-posix -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    P("rule pch\n  command = x86_64-w64-mingw32-g++-posix -MMD -MF $out.d $flags -x c++-header $in -o $out\n  depfile = $out.d\n  deps = gcc")
    P("rule ar\n  command = rm -f $out && x86_64-w64-mingw32-ar qcs $out $in")
    P("rule link\n  command = x86_64-w64-mingw32-g++-posix -static -Wl,--gc-sections $lflags $in -Wl,--start-group $libs -Wl,--end-group $oslibs -o $out")

    CORE_INC = ["clink/core/include"]
    libs = {}

    def lib(name, srcs, incs, cflags="", cxxflags="", pch=None):
        flags = f"{base} {extra} {R(*incs)} {cflags}"
        cxx = f"{flags} -std=c++17 -fpermissive {cxxflags}"
        pchdep = ""
        if pch:
            ph = f"{out}/pch/{name}/all_pch.h"
            write(ph, "#pragma once\n" + "".join(f"#include {p}\n" for p in pch))
            P(f"build {ph}.gch: pch {ph}\n  flags = {cxx}")
            pchdep = f" | {ph}.gch"
            cxxp = f"-Winvalid-pch -include {ph} {cxx}"
        objs = []
        for s in srcs:
            o = f"{out}/obj/{name}/{os.path.relpath(s, repo).replace('/', '_')}.o"
            objs.append(o)
            if s.endswith(".c"):
                P(f"build {o}: cc {s}\n  flags = {flags}")
            else:
                P(f"build {o}: cxx {s}{pchdep}\n  flags = {cxxp if pch else cxx}")
        a = f"{out}/lib{name}.a"
        P(f"build {a}: ar {' '.join(objs)}")
        libs[name] = a

    def g(pat, excl=()):
        return sorted(f for f in glob.glob(f"{repo}/{pat}") if os.path.basename(f) not in excl)

    lib("readline", g("readline/readline/*.c", ("emacs_keymap.c", "vi_keymap.c")) + g("readline/compat/*.c"),
        ["readline", "readline/compat", "wildmatch/wildmatch"], "-DBUILD_READLINE")
    lib("getopt", g("getopt/*.c"), [])
    lib("wildmatch", g("wildmatch/wildmatch/*.c"), [])
    lib("lua", g("lua/src/*.c", ("lua.c", "luac.c")), [], "-DBUILD_LUA -DBUILD_CLINK_LUA")
    lib("detours", g("detours/*.cpp", ("disolarm.cpp", "disolarm64.cpp", "disolia64.cpp", "uimports.cpp")), [], "", "-fno-exceptions")
    ne = "-fno-exceptions"
    stl = ["<vector>", "<memory>", "<map>", "<unordered_map>", "<unordered_set>", "<set>", "<list>", "<string>", "<functional>", "<algorithm>", "<mutex>", "<thread>"]
    def pch(path, *more):
        return [f'"{repo}/{path}"'] + list(more)
    lib("core", rglob(repo, "clink/core/src"), ["clink/core/include/core", "clink/core/src", "clink/core/include"], "", ne,
        pch("clink/core/src/pch.h"))
    lib("terminal", rglob(repo, "clink/terminal/src"),
        ["clink/terminal/include/terminal", "clink/core/include", "clink/process/include", "clink/terminal/src", "clink/terminal/include"], "", "-fexceptions",
        pch("clink/terminal/src/pch.h"))
    lib("process", rglob(repo, "clink/process/src"),
        ["clink/core/include", "clink/process/include/process", "clink/process/src", "clink/process/include"], "", ne,
        pch("clink/process/src/pch.h"))
    lib("lib", rglob(repo, "clink/lib/src", "clink/lib/include"),
        ["clink/lib/include/lib", "clink/core/include", "clink/terminal/include", "readline", "readline/compat", "wildmatch", "clink/lib/src"], "", ne,
        pch("clink/lib/src/pch.h"))
    lib("clua", rglob(repo, "clink/lua/src", "clink/lua/include", "clink/lua/scripts"),
        ["clink/lua/include/lua", "clink/core/include", "clink/lib/include", "clink/process/include", "clink/terminal/include", "lua/src",
         "readline", "readline/compat", "wildmatch", "clink/lua/src"], "", ne,
        pch("clink/lua/src/pch.h"))
    app = [f for f in rglob(repo, "clink/app/src", "clink/app/scripts") if not re.search(r"app/src/(dll|loader)/main\.cpp$", f)]
    lib("app", app, ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lua/include", "clink/process/include",
                     "clink/terminal/include", "getopt", "lua/src", "readline", "readline/compat", "detours"], "", ne,
        pch("clink/app/src/pch.h"))

    oslibs = "-lversion -lshlwapi -lrpcrt4 -lgdi32 -lole32 -ldbghelp -lkernel32 -luser32 -ladvapi32 -lshell32 -loleaut32 -luuid -lcomdlg32"
    hinc = ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lib/include/lib", "clink/lib/src",
            "clink/lua/include", "clink/process/include", "clink/terminal/include", "wildmatch/wildmatch", "lua/src",
            "clink/terminal/include/terminal", "clink/terminal/src",
            "readline", "readline/compat", "getopt"]
    hflags = f"{base.replace('-O0', '-O1')} -I{HERE}/h {R(*hinc)} -std=c++17 -fpermissive -fexceptions"

    ph = f"{out}/pch/harness/hpch.h"
    write(ph, f'#pragma once\n#include "{HERE}/h/hpch.h"\n')
    P(f"build {ph}.gch: pch {ph}\n  flags = {hflags}")

    groups = {
        "core": ["core"],
        "term": ["core", "terminal", "process"],
        "full": ["core", "terminal", "process", "lib", "clua", "app", "readline", "lua", "wildmatch", "detours", "getopt"],
    }
    extra_objs = {}
    def hobj(src, flags=hflags, pchd=True):
        o = f"{out}/obj/h/{os.path.basename(src)}.o"
        if o not in extra_objs:
            extra_objs[o] = 1
            P(f"build {o}: cxx {src} | {ph}.gch\n  flags = -Winvalid-pch -include {ph} {flags}")
        return o

    # every h/<x>.cpp with a first line "//: group=<g>" becomes bin/<x>.exe
    for src in sorted(glob.glob(f"{HERE}/h/*.cpp")):
        first = open(src).readline()
        m = re.match(r"//:\s*group=(\w+)(.*)", first)
        if not m:
            continue
        objs = [hobj(src), hobj(f"{HERE}/h/pbt.cpp")]
        for x in re.findall(r"with=(\S+)", m.group(2)):
            objs.append(hobj(f"{HERE}/h/{x}"))
        lflags = " ".join(re.findall(r"lflags=(\S+)", m.group(2)))
        ls = [libs[l] for l in (re.findall(r"libs=(\S+)", m.group(2))[0].split(",") if "libs=" in m.group(2) else groups[m.group(1)])]
        exe = f"{out}/bin/{os.path.splitext(os.path.basename(src))[0]}.exe"
        P(f"build {exe}: link {' '.join(objs)} | {' '.join(ls)}\n  libs = {' '.join(ls)}\n  oslibs = {oslibs}\n  lflags = {lflags}")
    write(os.path.join(out, "build.ninja"), "\n".join(L) + "\n")


main()
