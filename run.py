#!/usr/bin/env python3
"""Driver of the model-checking harness.

  run.py C06            run the quick check of C06 (VERIF_TIER=thorough or
                        --thorough for the deep one)
  run.py C06 --replay F re-execute a recorded violation and print its trace
  run.py --setup        build everything
Every run rebuilds the library objects from /repo's working tree (objects are
cached under build/ by the hash of their inputs).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks.registry import CHECKS, VARIANTS, WRAPS  # noqa: E402

LIBFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds",
            "-fno-sanitize-recover=all", "-w"]
HFLAGS = ["-O1", "-g", "-std=c++17", "-Wall", "-Wno-unused-function",
          "-Wno-deprecated-declarations"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def repo_headers():
    fs = sorted(glob.glob(REPO + "/*.h") + glob.glob(REPO + "/src/*.h"))
    return digest(*[f.encode() + rd(f) for f in fs])


def defs():
    d = {}
    name = {"PACKAGE_NAME": '"libstrophe"', "PACKAGE_TARNAME": '"libstrophe"',
            "PACKAGE_VERSION": '"0.14.0"', "PACKAGE": '"libstrophe"',
            "VERSION": '"0.14.0"', "PACKAGE_URL": '""',
            "PACKAGE_STRING": '"libstrophe 0.14.0"'}
    d.update(name)
    for k in ("STDIO_H STDLIB_H STRING_H INTTYPES_H STDINT_H STRINGS_H "
              "SYS_STAT_H SYS_TYPES_H UNISTD_H DLFCN_H CLOCK_GETTIME SNPRINTF "
              "VSNPRINTF VA_COPY GETRANDOM").split():
        d["HAVE_" + k] = "1"
    d["STDC_HEADERS"] = "1"
    d["LIBXMPP_VERSION_MAJOR"] = "0"
    d["LIBXMPP_VERSION_MINOR"] = "14"
    return d


# files that belong to an alternative back end or another platform
BACKENDS = ["parser_expat.c", "parser_libxml2.c", "tls_openssl.c",
            "tls_gnutls.c", "tls_schannel.c", "tls_dummy.c", "compression.c",
            "compression_dummy.c", "snprintf.c"]


def lib_sources(variant):
    v = VARIANTS[variant]
    r = []
    for f in sorted(glob.glob(REPO + "/src/*.c")):
        b = os.path.basename(f)
        if b in BACKENDS and b not in v["backends"]:
            continue
        r.append(f)
    return r


def compile_one(job):
    out, cmd, post = job
    if os.path.exists(out):
        return None
    tmp = out + ".tmp%d.o" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode:
        return "%s\n%s" % (" ".join(cmd), r.stdout)
    if post:
        r = sh(post + [tmp])
        if r.returncode:
            return r.stdout
    os.replace(tmp, out)
    return None


def build(prop, units):
    """returns {unit name: binary}"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    rh = repo_headers()
    hh = digest(*[f.encode() + rd(f)
                  for f in sorted(glob.glob(HERE + "/harness/*.h"))])
    syms = BUILD + "/wrap.syms"
    stext = "".join("%s __wrap_%s\n" % (w, w) for w in WRAPS)
    sdig = digest(stext)
    syms = BUILD + "/wrap-%s.syms" % sdig
    if not os.path.exists(syms):
        with open(syms + ".tmp", "w") as f:
            f.write(stext)
        os.replace(syms + ".tmp", syms)
    jobs = {}
    links = []
    for u in units:
        v = VARIANTS[u["variant"]]
        d = defs()
        d.update(v.get("defs", {}))
        for k in v.get("undef", []):
            d.pop(k, None)
        dflags = ["-D%s=%s" % (k, x) for k, x in sorted(d.items())]
        objs = []
        for f in lib_sources(u["variant"]):
            fl = ["gcc", "-c"] + LIBFLAGS + dflags + \
                ["-I" + REPO, "-I" + REPO + "/src"] + v.get("cflags", [])
            o = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(f)[:-2],
                                    digest(rd(f), rh, " ".join(fl), sdig))
            jobs[o] = (o, fl + [f], ["objcopy", "--redefine-syms=" + syms])
            objs.append(o)
        hs = [HERE + "/harness/" + x
              for x in ["explore.cpp"] + u["sources"]]
        for f in hs:
            fl = ["g++", "-c"] + HFLAGS + dflags + v.get("hflags", []) + \
                ["-I" + REPO, "-I" + HERE + "/harness"] + v.get("cflags", []) + \
                u.get("cflags", [])
            inc = rh if u.get("internal") else digest(rd(REPO + "/strophe.h"))
            if u.get("internal"):
                fl += ["-I" + REPO + "/src"]
            o = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(f)[:-4],
                                    digest(rd(f), hh, inc, " ".join(fl)))
            jobs[o] = (o, fl + [f], None)
            objs.append(o)
        exe = "%s/%s-%s" % (BUILD, u["name"], digest(*objs)[:12])
        links.append((u, exe, objs, v.get("libs", []) + u.get("libs", [])))
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs.values()) if e]
    if errs:
        print("BUILD FAILED\n" + errs[0])
        sys.exit(2)
    r = {}

    def link(x):
        u, exe, objs, libs = x
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            p = sh(["g++", "-g", "-fsanitize=address,bounds", "-o", tmp] + objs +
                   libs + ["-lpthread"])
            if p.returncode:
                return p.stdout
            os.replace(tmp, exe)
        r[u["name"]] = exe
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(link, links) if e]
    if errs:
        print("LINK FAILED\n" + errs[0][:6000])
        sys.exit(2)
    return r


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=98:"
                         "quarantine_size_mb=4:malloc_context_size=2:"
                         "allocator_may_return_null=1:handle_abort=1:"
                         "print_legend=0:print_full_thread_history=0:"
                         "detect_stack_use_after_return=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["OPENSSL_CONF"] = "/dev/null"
    e["LC_ALL"] = "C"
    return e


def load_known():
    """known-findings.txt: lines
       known: property=<id> key=<signature> <text>
       fixed: property=<id> <commit> <text>   (suppresses nothing)"""
    k = {}
    p = HERE + "/known-findings.txt"
    if not os.path.exists(p):
        return k
    for line in open(p):
        line = line.strip()
        if line.startswith("known:"):
            w = line.split(None, 3)
            prop = w[1].split("=", 1)[1]
            key = w[2].split("=", 1)[1].replace("%20", " ")
            k.setdefault(prop, {})[key] = w[3] if len(w) > 3 else ""
    return k


def replay(exe, f, tier, verbose=False):
    p = subprocess.run([exe, "--tier", tier, "--replay", f["scenario"],
                        f["tape"]], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=run_env())
    out = p.stdout.decode("utf-8", "replace")
    keys = [l[9:].split(" :: ")[0] for l in out.splitlines()
            if l.startswith("FAIL key=")]
    done = "REPLAY-DONE" in out
    return keys, done, out, p.returncode


def main():
    args = sys.argv[1:]
    if not args or args[0] == "--setup":
        names = sorted(CHECKS)
        for n in names:
            build(n, CHECKS[n]["units"])
        print("built", len(names))
        return 0
    prop = args[0]
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if "--quick" in args:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    only = args[args.index("--only") + 1] if "--only" in args else None
    unit_only = args[args.index("--unit") + 1] if "--unit" in args else None
    units = [u for u in chk["units"]
             if (tier == "thorough" or not u.get("thorough_only")) and
             (unit_only is None or u["name"] == unit_only)]
    if "--replay" in args:
        f = json.load(open(args[args.index("--replay") + 1]))
        us = [u for u in chk["units"] if u["name"] == f["unit"]]
        exe = build(prop, us)[f["unit"]]
        keys, done, out, rc = replay(exe, f, f.get("tier", "quick"))
        print(out)
        hit = bool(keys) or not done
        if hit:
            print("VIOLATION property=%s replay=%s" %
                  (prop, args[args.index("--replay") + 1]))
        return 1 if hit else 0
    exes = build(prop, units)
    tb = time.time() - t0
    if "--build" in args:
        return 0
    known = load_known().get(prop, {})
    budget = float(os.environ.get("VERIF_SECS", 0)) or (
        chk.get("quick_secs", 420) if tier == "quick"
        else chk.get("thorough_secs", 5400))
    tot = {"execs": 0, "steps": 0, "evals": 0, "states": 0, "points": 0}
    samples, scen, viol, knownhit = [], [], [], {}
    truncated, internal = False, False
    notrepro = []
    wtot = sum(u.get("weight", 1) for u in units)
    spent_w = 0
    tstart = time.time()
    for u in units:
        wd = tempfile.mkdtemp(prefix="vmc-%s-" % prop)
        res = wd + "/out.json"
        spent_w += u.get("weight", 1)
        secs = max(20.0, tstart + budget * spent_w / wtot - time.time())
        cmd = [exes[u["name"]], "--out", res, "--workdir", wd, "--tier", tier,
               "--secs", "%.1f" % secs, "--seed", str(seed)]
        if only:
            cmd += ["--only", only]
        env = dict(run_env())
        env["MC_KNOWN"] = "\n" + "\n".join(known) + "\n"
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env)
        o = p.stdout.decode("utf-8", "replace")
        if p.returncode or not os.path.exists(res):
            print(o[-6000:])
            print("INTERNAL ERROR in unit %s (rc=%d)" % (u["name"], p.returncode))
            internal = True
            if not os.path.exists(res):
                shutil.rmtree(wd, ignore_errors=True)
                continue
        d = json.load(open(res))
        shutil.rmtree(wd, ignore_errors=True)
        for k in tot:
            tot[k] += d[k]
        truncated = truncated or d["truncated"] or d["left"] > 0
        internal = internal or d["internal_error"]
        samples += [u["name"] + ": " + s for s in d["samples"][:6]]
        for s in d["scenarios"]:
            s["unit"] = u["name"]
            scen.append(s)
        for f in d["findings"]:
            f["unit"] = u["name"]
            f["tier"] = tier
            if f["key"] in known:
                knownhit[f["key"]] = f
                continue
            keys, done, out, rc = replay(exes[u["name"]], f, tier)
            if f["key"].split(":")[0] in ("crash", "abort", "hang"):
                ok = not done
            else:
                ok = f["key"] in keys
            if not ok:
                notrepro.append(f)
                continue
            viol.append(f)
    for k in sorted(known):
        if k in knownhit:
            print("KNOWN-FINDING: property=%s %s [%s; %d executions]" %
                  (prop, known[k], k, knownhit[k]["count"]))
    rdir = BUILD + "/replay"
    os.makedirs(rdir, exist_ok=True)
    for i, f in enumerate(sorted(viol, key=lambda f: (f["cost"], len(f["tape"])))):
        path = "%s/%s-%d.json" % (rdir, prop, i)
        json.dump(f, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  what: %s" % f["key"])
        if "--brief" in args:
            f["msg"] = f["msg"][:160].replace("\n", " ")
        print("  %s" % f["msg"][:700].replace("\n", "\n  "))
        print("  scenario %s [%s] tape %s (%d executions)" %
              (f["scenario"], f["unit"], f["tape"], f["count"]))
    for f in notrepro:
        print("NOTE: not reproduced in a fresh process: %s (%s %s)" %
              (f["key"], f["scenario"], f["tape"]))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["steps"],
            "traces_validated_against_impl": tot["execs"],
            "choice_points_resolved": tot["points"],
            "inner_evaluations": tot["evals"],
            "exhaustive": not truncated and not internal,
            "samples": samples[:24],
            "scenarios": scen,
            "what": chk.get("what", ""),
            "known_findings_hit": sorted(knownhit),
            "not_reproduced": [f["key"] for f in notrepro],
            "build_s": round(tb, 1),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(viol),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.tmp" % prop
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, HERE + "/evidence/%s.json" % prop)
    print("%s %s: %d executions, %d states, %d transitions, %d inner "
          "evaluations, %.0f s (build %.0f s)%s" %
          (prop, tier, tot["execs"], tot["states"], tot["steps"], tot["evals"],
           wall, tb, " TRUNCATED by the time budget" if truncated else ""))
    if viol:
        return 1
    if internal:
        return 2
    return 0


sys.exit(main())
