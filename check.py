#!/usr/bin/env python3
"""Decides one property: python3 check.py C09 [--tier quick|thorough] [--replay FILE] [--all]

Builds /repo's current sources and the property's harnesses, explores every
harness exhaustively within its bounds, confirms failures by replaying them,
and writes evidence/<id>.json.
"""
import sys, os, json, subprocess, hashlib, shutil, time, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AMELIE_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, IO_WRAP

def sh_files(*roots):
    out = []
    for r in roots:
        for d, dirs, files in os.walk(r):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".py", ".S")) or f.startswith("amelie_"):
                    out.append(os.path.join(d, f))
    return out

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fd: h.update(fd.read())
        except OSError: pass
        h.update(b"\0")
    return h.hexdigest()[:16]

def include_dirs():
    inc = []
    for top in ("runtime", "server", "db"):
        base = os.path.join(REPO, "amelie", top)
        inc.append(base)
        for d in sorted(os.listdir(base)):
            p = os.path.join(base, d)
            if os.path.isdir(p): inc.append(p)
    return inc

def repo_sources():
    srcs = []
    for top in ("runtime", "server", "db"):
        base = os.path.join(REPO, "amelie", top)
        for p in sorted(glob.glob(base + "/*/*.c")):
            if "/db/service/" in p or "/db/db/" in p: continue
            srcs.append(p)
    return srcs

# The parts of the tree which are not built at the pinned commit need two
# repairs to compile: the removed service header, and a renamed list member.
def overlay(dir):
    os.makedirs(dir, exist_ok=True)
    with open(dir + "/amelie_service.h", "w") as f:
        f.write("#pragma once\n" + "".join("typedef struct %s %s;\n" % (n, n) for n in ("Service", "Refresh", "Indexate", "Flush"))
                + "struct Service { int x; };\n")
    for top in ("compiler", "vm", "sync", "system"):
        for src in glob.glob(os.path.join(REPO, "amelie", top, "*", "*.h")):
            with open(src) as f: text = f.read()
            if "list_at(Part, id.link)" not in text: continue
            to = os.path.join(dir, os.path.basename(os.path.dirname(src)))
            os.makedirs(to, exist_ok=True)
            with open(os.path.join(to, os.path.basename(src)), "w") as f:
                f.write(text.replace("list_at(Part, id.link)", "list_at(Part, link)"))
    inc = [dir]
    for top in ("compiler", "vm", "sync", "system"):
        base = os.path.join(REPO, "amelie", top)
        inc.append(base)
        for d in sorted(os.listdir(base)):
            p = os.path.join(base, d)
            if os.path.isdir(p): inc.append(p)
    return " ".join("-I" + i for i in inc)

# the SQL engine: compiler, virtual machine, replication and sessions
def engine_sources(dir):
    srcs = []
    for top in ("vm", "compiler", "sync", "system"):
        for p in sorted(glob.glob(os.path.join(REPO, "amelie", top, "*", "*.c"))):
            with open(p) as f: text = f.read()
            if "list_at(Part, id.link)" in text:
                to = os.path.join(dir, os.path.basename(os.path.dirname(p)))
                os.makedirs(to, exist_ok=True)
                to = os.path.join(to, os.path.basename(p))
                with open(to, "w") as f: f.write(text.replace("list_at(Part, id.link)", "list_at(Part, link)"))
                p = to
            srcs.append(p)
    return srcs

BASEFLAGS = ["-g", "-fPIC", "-w"]

def ninja_build(dir, edges):
    os.makedirs(dir, exist_ok=True)
    with open(dir + "/build.ninja", "w") as f:
        f.write("rule r\n  command = $cmd\n  description = $out\n")
        for out, ins, cmd in edges:
            f.write("build %s: r %s\n  cmd = %s\n" % (out, " ".join(ins), cmd.replace("$", "$$")))
    p = subprocess.run(["ninja", "-C", dir, "-j8"], capture_output=True, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        sys.exit(4)

def build(prop, targets):
    """returns {binary name: path}"""
    os.makedirs(WORK, exist_ok=True)
    repo_files = sh_files(os.path.join(REPO, "amelie"))
    mine = sh_files(os.path.join(HERE, "mc"), os.path.join(HERE, "harness")) + [os.path.join(HERE, "checks.py")]
    repo_key = digest(repo_files, "v3")
    inc = include_dirs()
    incflags = " ".join("-I" + i for i in inc) + " -I%s/mc -I%s/harness" % (HERE, HERE)
    libs = "-lm -lpthread -lssl -lcrypto -lpcre2-8 -lzstd -ldl"
    out = {}
    root = os.path.join(WORK, "build")
    os.makedirs(root, exist_ok=True)
    # libraries
    for var in sorted(set(t["variant"] for t in targets)):
        flags = " ".join(BASEFLAGS + VARIANTS[var]["cflags"])
        d = os.path.join(root, "lib-%s-%s" % (var, digest([], repo_key + flags)))
        lib = os.path.join(d, "libamelie.a")
        if not os.path.exists(lib):
            edges, objs = [], []
            for s in repo_sources():
                o = os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o"
                edges.append((o, [s], "clang %s %s -c %s -o %s" % (flags, incflags, s, o)))
                objs.append(o)
            edges.append(("libamelie.a", objs, "rm -f libamelie.a && ar crs libamelie.a " + " ".join(objs)))
            ninja_build(d, edges)
        os.utime(d)
        for t in targets:
            if t["variant"] == var: t["lib"] = lib; t["libdir"] = d
        # the removed background services are called, but not declared
        if any(t.get("engine") for t in targets if t["variant"] == var):
            d = os.path.join(root, "eng-%s-%s" % (var, digest([], repo_key + flags)))
            eng = os.path.join(d, "libengine.a")
            if not os.path.exists(eng):
                ov = overlay(os.path.join(d, "overlay")) + " -Wno-error=implicit-function-declaration"
                edges, objs = [], []
                for s in engine_sources(os.path.join(d, "overlay")):
                    o = "_".join(s.split("/")[-2:])[:-2] + ".o"
                    edges.append((o, [s], "clang %s %s %s -c %s -o %s" % (flags, ov, incflags, s, o)))
                    objs.append(o)
                edges.append(("libengine.a", objs, "rm -f libengine.a && ar crs libengine.a " + " ".join(objs)))
                ninja_build(d, edges)
            os.utime(d)
            for t in targets:
                if t["variant"] == var and t.get("engine"): t["lib"] = eng + " " + lib
    mykey = digest(mine, repo_key)
    d = os.path.join(root, "bin-%s-%s" % (prop, mykey))
    edges = []
    for t in targets:
        flags = " ".join(BASEFLAGS + VARIANTS[t["variant"]].get("hflags", VARIANTS[t["variant"]]["cflags"]) + t.get("cflags", []))
        mcflags = " ".join(BASEFLAGS + ["-O2"])
        objs = []
        name = t["name"]
        if t.get("overlay"): flags += " " + overlay(os.path.join(d, "overlay"))
        for s in t["sources"]:
            o = name + "_" + s.replace("/", "_")[:-2] + ".o"
            src = os.path.join(HERE, s)
            fl = mcflags if s in ("mc/mc.c", "mc/sc.c", "mc/crashfs.c") else flags
            edges.append((o, [src], "clang %s %s -c %s -o %s" % (fl, incflags, src, o)))
            objs.append(o)
        link = " ".join(VARIANTS[t["variant"]]["ldflags"] + t.get("ldflags", []))
        edges.append((name, objs, "clang %s %s -o %s %s %s" % (" ".join(objs), t["lib"], name, link, libs)))
        out[name] = os.path.join(d, name)
    if not all(os.path.exists(p) for p in out.values()):
        ninja_build(d, edges)
    os.utime(d)
    # keep the disk small
    ds = sorted((p for p in glob.glob(root + "/*")), key=os.path.getmtime, reverse=True)
    for p in ds[60:]: shutil.rmtree(p, ignore_errors=True)
    return out

def known_sigs(prop):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f: k = json.load(f)
    except OSError: return {}
    return {e["sig"]: e for e in k["findings"] if e["property"] == prop and e["status"] == "known"}

def write_replay(prop, name, fail):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps([fail["scenario"], fail["sig"], fail["choices"]]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.txt" % (prop, h))
    with open(path, "w") as f:
        f.write(fail["scenario"] + "\n")
        f.write(" ".join("%d/%d" % (c, n) for c, n in zip(fail["choices"], fail["ns"])) + "\n")
        if fail.get("dyn"): f.write("dyn: " + " ".join(map(str, fail["dyn"])) + "\n")
        f.write("\nharness: %s\nsignature: %s\nmessage: %s\noperations: %s\n" % (name, fail["sig"], fail["msg"], fail["log"]))
        f.write("replay with: python3 check.py %s --replay %s\n" % (prop, path))
    return path

def replay(binary, path, outdir, env):
    os.makedirs(outdir, exist_ok=True)
    p = subprocess.run([binary, "--replay", path, "--out", outdir], capture_output=True, text=True, errors="replace", env=env)
    sig = None
    for line in p.stdout.splitlines():
        if line.startswith("FAIL "):
            sig = line[5:]
    return p.returncode, sig, p.stdout

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    allf = "--all" in args
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    chk = CHECKS[prop]
    targets = [dict(t) for t in chk["targets"] if not (t.get("thorough_only") and tier != "thorough")]
    if "--only" in args: targets = [t for t in targets if t["name"] == args[args.index("--only") + 1]]
    bins = build(prop, targets)
    env = dict(os.environ)
    env.update({"VERIF_TIER": tier, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:hard_rss_limit_mb=3500:malloc_context_size=6:symbolize=1",
                "UBSAN_OPTIONS": "print_stacktrace=1", "TZ": "UTC", "LC_ALL": "C.UTF-8"})
    env.pop("MC_NOASLR", None)
    if "--replay" in args:
        path = args[args.index("--replay") + 1]
        with open(path) as f: text = f.read()
        name = re.search(r"^harness: (\S+)", text, re.M).group(1)
        rc, sig, out = replay(bins[name], path, os.path.join(WORK, "replay"), env)
        sys.stdout.write(out)
        sys.exit(rc)
    known = known_sigs(prop)
    run = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
    tot = dict(executions=0, nontrivial=0, steps=0, cases=0, states=0, outcomes=0)
    scen, samples, caps, violations, kfs, per = {}, [], [], [], {}, {}
    err = False
    limits = chk.get("limit", {"quick": 400, "thorough": 3000})[tier]
    names = [t["name"] for t in targets]
    weights = {t["name"]: t.get("weight", 1) for t in targets}
    try:
        for t in targets:
            name = t["name"]
            out = os.path.join(run, name)
            os.makedirs(out, exist_ok=True)
            left = limits - (time.time() - t0)
            rest = names[names.index(name):]
            share = max(15, left * weights[name] / sum(weights[n] for n in rest))
            cmd = [bins[name], "--out", out, "--limit", str(share), "--tier", tier, "--shards", str(t.get("shards", 8))]
            if t.get("depth"): cmd += ["--depth", str(t["depth"])]
            if "--scenario" in args: cmd += ["--scenario", args[args.index("--scenario") + 1]]
            if allf: cmd += ["--all"]
            for s in known: cmd += ["--known", s]
            p = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace")
            if p.returncode or not os.path.exists(out + "/stats.json"):
                print("ERROR: harness %s failed (%d): %s" % (name, p.returncode, (p.stdout + p.stderr)[-2000:]))
                err = True
                continue
            with open(out + "/stats.json") as f: st = json.load(f)
            for k in tot: tot[k] += st[k]
            for k, v in st["scenarios"].items(): scen[name + "/" + k] = v
            samples += st["samples"][:3]
            if st["capped"]: caps.append("%s: %s" % (name, st["capped"]))
            per[name] = {"executions": st["executions"], "wall_s": st["wall_s"]}
            print("%s %s: executions=%d nontrivial=%d cases=%d states=%d outcomes=%d wall=%.1fs%s" % (
                prop, name, st["executions"], st["nontrivial"], st["cases"], st["states"], st["outcomes"], st["wall_s"],
                " CAPPED " + st["capped"] if st["capped"] else ""))
            fails = []
            if os.path.exists(out + "/fails.jsonl"):
                for line in open(out + "/fails.jsonl", errors="replace"):
                    try: fails.append(json.loads(line))
                    except ValueError: pass
            seen = {}
            for f in fails:
                if f["sig"] in known:
                    kfs[f["sig"]] = kfs.get(f["sig"], 0) + 1
                    continue
                seen.setdefault(f["sig"], []).append(f)
            unconfirmed = []
            for sig, fl in seen.items():
                fl.sort(key=lambda f: (sum(1 for c in f["choices"] if c), len(f["choices"])))
                f = fl[0]
                path = write_replay(prop, name, f)
                ok = False
                for attempt in range(3):
                    rc, rsig, _ = replay(bins[name], path, out + "/replay", env)
                    if rc == 1: ok = True; break
                if not ok:
                    unconfirmed.append((sig, f, path))
                    continue
                print("  %s\n    %s\n    after: %s" % (sig, f["msg"][:1500], f["log"][-3000:]))
                violations.append((sig, path))
            for sig, f, path in unconfirmed:
                print("UNCONFIRMED: %s did not reproduce when replayed: %s" % (sig, f["msg"][:500]))
                err = True
            if violations and not allf: break
    finally:
        shutil.rmtree(run, ignore_errors=True)
    wall = time.time() - t0
    cov = {"samples": samples[:8] or ["none"], "exhaustive": not caps and not violations and not err,
           "scenarios": scen, "outcomes": tot["outcomes"], "harnesses": per}
    if caps: cov["caps"] = caps
    if chk["level"] == "model_checking":
        cov.update(states=tot["states"] or tot["outcomes"] or tot["executions"], transitions=tot["steps"] or tot["executions"],
                   traces_validated_against_impl=tot["executions"], executions=tot["executions"], nontrivial_executions=tot["nontrivial"])
        cov["rule"] = chk["rule"]
    else:
        cov.update(evaluations=tot["executions"] + tot["cases"], distinct_nontrivial=tot["nontrivial"], rule=chk["rule"], transitions=tot["steps"])
    if kfs: cov["known_findings"] = kfs
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for sig, e in known.items():
        print("KNOWN-FINDING: property=%s %s%s" % (prop, e["what"], "" if sig in kfs else " (not reached in this run)"))
    for sig, path in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations: sys.exit(1)
    if err: sys.exit(2)
    if tot["executions"] == 0: print("ERROR: nothing explored"); sys.exit(2)
    print("OK property=%s executions=%d wall=%.1fs" % (prop, tot["executions"], wall))

if __name__ == "__main__": main()
