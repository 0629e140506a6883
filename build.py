#!/usr/bin/env python3
"""Builds a harness from /repo's current working tree with ninja; prints the binary path."""
import os, subprocess, sys, shutil, hashlib, fcntl
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec, specs
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VF_BUILD", HERE + "/build")
REPO = spec.REPO

INC = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{REPO}/external", f"-I{BUILD}/version", f"-I{REPO}/src/Platform/Linux",
       f"-I{REPO}/external/parallel_hashmap", f"-I{HERE}/harness"]
DEFS = "-DNDEBUG -D_GNU_SOURCE -D_DEFAULT_SOURCE -DHAVE_ROTR -DSTATICLIB -DMINIUPNP_STATICLIB"
COMMON = f"-w -maes -march=x86-64 -pthread {DEFS} {' '.join(INC)}"
SAN = "-fsanitize=address -fno-omit-frame-pointer"

def compilers():
    cc, cxx = "/usr/bin/clang", "/usr/bin/clang++"
    if not os.path.exists(cxx): cc, cxx = "gcc", "g++"
    return cc, cxx

def gen(hname):
    h = spec.HARNESS[hname]
    os.makedirs(BUILD + "/version", exist_ok=True)
    vh = BUILD + "/version/version.h"
    tmpl = open(REPO + "/src/version.h.in").read()
    for k, v in (("@COMMIT@", "verif"), ("@VERSION@", "0.0.0"), ("@VERSION_BUILD_NO@", "0")): tmpl = tmpl.replace(k, v)
    if not os.path.exists(vh) or open(vh).read() != tmpl: open(vh, "w").write(tmpl)
    cc, cxx = compilers()
    cache = shutil.which("ccache")
    pre = "ccache " if cache else ""
    n = []
    n.append(f"builddir = {BUILD}")
    opt = h.get("opt") or "-O1"
    san = "" if "nosan" in h["extra"] else SAN
    n.append(f"rule cc\n  command = {pre}{cc} $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in")
    n.append(f"rule cxx\n  command = {pre}{cxx} $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    n.append(f"rule ar\n  command = rm -f $out && /usr/bin/ar crsT $out $in\n  description = AR $out")
    wraps = " ".join(f"-Wl,--wrap={w}" for w in h["wrap"])
    bl = "-lboost_system -lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options"
    n.append(f"rule link\n  command = {cxx} {san} -pthread $in {wraps} {h.get('ldflags','')} -fuse-ld=lld -o $out -Wl,--start-group $libs -Wl,--end-group {bl} -lresolv -lrt -ldl\n  description = LINK $out")
    variant = "nosan" if not san else "san"
    objs = []
    seen = set()
    def obj(src, flags, sub):
        rel = os.path.relpath(src, REPO if src.startswith(REPO + "/") else HERE)
        o = f"{BUILD}/obj-{sub}/{rel}.o"
        if o in seen: return o
        seen.add(o)
        rule = "cc" if src.endswith(".c") else "cxx"
        n.append(f"build {o}: {rule} {src}\n  flags = {flags}")
        return o
    hs = []
    for s in ["vf.cpp"] + h["sources"]:
        ex = " ".join(e for e in h["extra"] if e.startswith("-D"))
        sub = f"h-{hname}"
        hs.append(obj(f"{HERE}/harness/{s}", f"-std={h['std']} -O1 {san} {COMMON} {ex}", sub))
    libs = []
    for l in h["libs"]:
        los = []
        for s in spec.lib(l):
            if s.endswith(".c"):
                fl = f"-std=c11 -O2 {san if l != 'crypto' or hname == 'crypto' else ''} {COMMON}"
                sub = variant + ("" if l != "crypto" or hname == "crypto" else "-fast")
            else:
                o2 = "-O2" if l == "crypto" else opt
                fl = f"-std=c++11 {o2} {san} {COMMON}"
                sub = variant
                for e in h["extra"]:
                    if e.startswith("-D"): fl += " " + e; sub += "".join(c for c in e if c.isalnum())
            los.append(obj(s, fl, sub))
        a = f"{BUILD}/lib-{hname}/lib{l}.a"
        n.append(f"build {a}: ar {' '.join(los)}")
        libs.append(a)
    exe = f"{BUILD}/bin/{hname}"
    n.append(f"build {exe}: link {' '.join(hs)} | {' '.join(libs)}\n  libs = {' '.join(libs)}")
    n.append(f"default {exe}")
    os.makedirs(BUILD, exist_ok=True)
    f = f"{BUILD}/{hname}.ninja"
    txt = "\n".join(n) + "\n"
    if not os.path.exists(f) or open(f).read() != txt: open(f, "w").write(txt)
    return f, exe

def build(hname, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        f, exe = gen(hname)
        env = dict(os.environ)
        env.setdefault("CCACHE_DIR", HERE + "/.cache/ccache")
        env["CCACHE_NOHASHDIR"] = "1"
        env["LC_ALL"] = "C.UTF-8"
        for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS"): env.pop(v, None)
        r = subprocess.run(["ninja", "-f", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
    return r.returncode, r.stdout, exe

if __name__ == "__main__":
    names = sys.argv[1:] or list(spec.HARNESS)
    bad = 0
    for h in names:
        rc, out, exe = build(h)
        if rc: print(out[-6000:]); bad = 1
        else: print(exe)
    sys.exit(bad)
