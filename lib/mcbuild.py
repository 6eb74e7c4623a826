"""Builds ucsim's objects (and harnesses) from /repo's current working tree.

Nothing is written into /repo.  Every object is keyed by the contents of the
sources and headers it was really compiled from (the compiler's own -MMD list)
and by its command line, so a stale object can not survive a source change; if
the build directory is absent everything is simply rebuilt.
"""
import hashlib
import json
import os
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("MC_JOBS", "8"))
CORE = ["cmd", "gui", "motorola", "sim", "utils"]
LIBORDER = ["motorola", "sim", "utils", "gui", "cmd", "sim"]
LIBS = ["-lpanel", "-lcurses", "-ltinfo", "-lm", "-lrt", "-lpthread"]

#            simulator class, cpu table, header
SIMS = {
    "avr": ("cl_simavr", "cpus_avr", "simavrcl.h"),
    "f8": ("cl_simf8", "cpus_f8", "simf8cl.h"),
    "i8048": ("cl_simi8048", "cpus_i8048", "simi8048cl.h"),
    "i8085": ("cl_simi8085", "cpus_i8085", "simi8085cl.h"),
    "m6800": ("cl_simm6800", "cpus_m6800", "simm6800cl.h"),
    "m6809": ("cl_simm6809", "cpus_m6809", "simm6809cl.h"),
    "m68hc08": ("cl_simm68hc08", "cpus_m68hc08", "simm68hc08cl.h"),
    "m68hc11": ("cl_simm68hc11", "cpus_m68hc11", "simm68hc11cl.h"),
    "m68hc12": ("cl_simm68hc12", "cpus_m68hc12", "simm68hc12cl.h"),
    "mos6502": ("cl_simmos6502", "cpus_mos6502", "simmos6502cl.h"),
    "oisc": ("cl_simoisc", "cpus_oisc", "simoisccl.h"),
    "p1516": ("cl_simp1516", "cpus_p1516", "simp1516cl.h"),
    "pblaze": ("cl_simpblaze", "cpus_pblaze", "simpblazecl.h"),
    "pdk": ("cl_simpdk", "cpus_pdk", "simpdkcl.h"),
    "rxk": ("cl_simrxk", "cpus_rxk", "simrxkcl.h"),
    "s51": ("cl_sim51", "cpus_51", "sim51cl.h"),
    "st7": ("cl_simst7", "cpus_st7", "simst7cl.h"),
    "stm8": ("cl_simstm8", "cpus_stm8", "simstm8cl.h"),
    "tlcs": ("cl_simtlcs", "cpus_tlcs", "simtlcscl.h"),
    "xa": ("cl_simxa", "cpus_xa", "simxacl.h"),
    "z80": ("cl_simz80", "cpus_z80", "simz80cl.h"),
}


class BuildError(Exception):
    pass


_sha_cache = {}


def sha(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in _sha_cache:
        with open(path, "rb") as f:
            _sha_cache[key] = hashlib.sha256(f.read()).hexdigest()
    return _sha_cache[key]


def run(cmd, cwd=None, **kw):
    env = dict(os.environ, LC_ALL="C.UTF-8")
    for v in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(v, None)
    p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, text=True, errors="replace",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def objects_of(objs_mk):
    """The OBJECTS list of an objs.mk, as make itself reads it."""
    mk = "WINSOCK_AVAIL=0\ninclude %s\nall:\n\t@echo $(OBJECTS)\n" % objs_mk
    p = subprocess.run(["make", "-s", "-f", "-", "all"], input=mk, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(p.stdout)
    return p.stdout.split()


def configure():
    conf = os.path.join(BUILD, "conf")
    hdr = os.path.join(conf, "src/core/utils.src/ddconfig.h")
    h = hashlib.sha256()
    for f in ["configure", ".version", "src/core/utils.src/ddconfig_in.h"]:
        h.update((sha(os.path.join(REPO, f)) or "-").encode())
    stamp = os.path.join(conf, "stamp")
    if os.path.exists(hdr) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return os.path.dirname(hdr)
    os.makedirs(conf, exist_ok=True)
    run(["bash", os.path.join(REPO, "configure"), "CC=gcc", "CXX=g++"], cwd=conf)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return os.path.dirname(hdr)


def write_if_changed(path, data):
    try:
        with open(path) as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(data)


def gen_parser():
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(REPO, "src/core/cmd.src")
    y, l = os.path.join(src, "cmdpars.y"), os.path.join(src, "cmdlex.l")
    key = "%s %s" % (sha(y), sha(l))
    stamp = os.path.join(gen, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        run(["bison", "-y", "-d", y], cwd=gen)
        os.rename(os.path.join(gen, "y.tab.c"), os.path.join(gen, "cmdpars.cc"))
        os.rename(os.path.join(gen, "y.tab.h"), os.path.join(gen, "cmdpars.hh"))
        with open(os.path.join(gen, "cmdlex.cc"), "w") as f:
            f.write(subprocess.run(["flex", "-t", l], stdout=subprocess.PIPE, text=True, check=True).stdout)
        with open(stamp, "w") as f:
            f.write(key)
    return gen


def includes(simdir=None):
    s = os.path.join(REPO, "src/core")
    inc = ["-I" + os.path.join(BUILD, "gen")]
    if simdir:
        inc.append("-I" + simdir)
    inc += ["-I" + os.path.join(BUILD, "conf/src/core/utils.src")]
    inc += ["-I%s/%s.src" % (s, d) for d in ("utils", "sim", "cmd", "gui", "motorola")]
    return inc


def compile_one(src, obj, flags):
    cmd = ["g++", "-w", "-pipe"] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    meta = obj + ".json"
    try:
        with open(meta) as f:
            m = json.load(f)
        if m["cmd"] == cmd and os.path.exists(obj) and all(sha(p) == s for p, s in m["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    if os.path.exists(meta):
        os.unlink(meta)
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    run(cmd)
    with open(obj + ".d") as f:
        words = f.read().replace("\\\n", " ").split()
    deps = {p: sha(p) for p in words[1:] if not p.endswith(":")}
    tmp = meta + ".%d.tmp" % threading.get_ident()
    with open(tmp, "w") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    os.rename(tmp, meta)
    return True


def build(jobs, variant="O2", extra=(), log=None):
    """jobs: list of (harness name, sim or None, [harness sources], [defines]).
    Returns {harness name: executable}."""
    base = {"O2": ["-O2"], "O1": ["-O1"],
            "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                     "-fno-omit-frame-pointer"],
            "asanonly": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]}[variant]
    base = base + list(extra)
    top = os.path.join(BUILD, variant)
    os.makedirs(top, exist_ok=True)
    configure()
    gen = gen_parser()
    comp = {}          # obj -> (src, flags)
    libs = {}
    sims = {j[1] for j in jobs if j[1]}
    for d in CORE:
        sd = os.path.join(REPO, "src/core", d + ".src")
        objs = []
        for o in objects_of(os.path.join(sd, "objs.mk")):
            stem = o[:-2]
            src = os.path.join(sd, stem + ".cc")
            if not os.path.exists(src):
                src = os.path.join(gen, stem + ".cc")
            obj = os.path.join(top, d + ".src", o)
            comp[obj] = (src, base + includes(sd))
            objs.append(obj)
        libs[d] = objs
    simobjs = {}
    for s in sims:
        sd = os.path.join(REPO, "src/sims", s + ".src")
        simobjs[s] = []
        for o in objects_of(os.path.join(sd, "objs.mk")):
            obj = os.path.join(top, s + ".sim", o)
            comp[obj] = (os.path.join(sd, o[:-2] + ".cc"), base + ["-Dmain=ucsim_orig_main"] + includes(sd))
            simobjs[s].append(obj)
    harn = {}
    for name, s, srcs, defs in jobs:
        objs = []
        sd = os.path.join(REPO, "src/sims", s + ".src") if s else None
        d = list(defs)
        if s:
            cls, cpus, hdr = SIMS[s]
            d += ["-DMC_SIM_CLASS=" + cls, '-DMC_SIM_HDR="%s"' % hdr, '-DMC_SIM_NAME="%s"' % s]
            if cpus:
                d += ["-DMC_SIM_CPUS=" + cpus]
        for src in srcs:
            src = src if src.startswith("/") else os.path.join(VERIF, "harness", src)
            obj = os.path.join(top, "h." + name, os.path.basename(src)[:-3] + ".o")
            comp[obj] = (src, base + d + ["-I" + os.path.join(VERIF, "harness")] + includes(sd))
            objs.append(obj)
        harn[name] = (s, objs)
    # biggest first
    order = sorted(comp.items(), key=lambda kv: -os.path.getsize(kv[1][0]) if os.path.exists(kv[1][0]) else 0)
    with ThreadPoolExecutor(JOBS) as pool:
        n = sum(pool.map(lambda kv: compile_one(kv[1][0], kv[0], kv[1][1]), order))
    ars = {}
    for d, objs in libs.items():
        ar = os.path.join(top, "lib%s.a" % d)
        newest = max(os.stat(o).st_mtime_ns for o in objs)
        lst = "\n".join(objs)
        lf = ar + ".list"
        if not (os.path.exists(ar) and os.stat(ar).st_mtime_ns > newest and
                os.path.exists(lf) and open(lf).read() == lst):
            if os.path.exists(ar):
                os.unlink(ar)
            run(["ar", "-rcs", ar] + objs)
            with open(lf, "w") as f:
                f.write(lst)
        ars[d] = ar
    out = {}

    def link(item):
        name, (s, objs) = item
        exe = os.path.join(top, "h." + name, name)
        allo = objs + (simobjs[s] if s else [])
        ins = allo + list(ars.values())
        lst = " ".join(ins)
        lf = exe + ".list"
        if os.path.exists(exe) and os.stat(exe).st_mtime_ns > max(os.stat(o).st_mtime_ns for o in ins) and \
                os.path.exists(lf) and open(lf).read() == lst:
            return name, exe
        run(["g++"] + base + allo + [ars[d] for d in LIBORDER] + LIBS + ["-o", exe])
        with open(lf, "w") as f:
            f.write(lst)
        return name, exe

    with ThreadPoolExecutor(JOBS) as pool:
        out = dict(pool.map(link, harn.items()))
    if log is not None:
        log["compiled"] = n
    return out
