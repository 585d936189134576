#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--only SUBSTR]
Builds the harness parts of a property from /repo's working tree, runs the explorer, writes evidence/<id>.json.
Exit: 0 held, 1 VIOLATION, 2 the check itself could not run."""
import sys, os, json, subprocess, time, hashlib, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TOON_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build(prop, part, bdir):
    """part: (name, source, flags, libs). Returns (name, exe or None, log)."""
    name, src, flags, libs = part["name"], part["src"], part.get("flags", []), part.get("libs", [])
    cxx = part.get("cxx", "g++")
    base = [cxx, "-std=gnu++17", "-w", "-I", REPO, "-I", os.path.join(HERE, "mc"), "-I", os.path.join(HERE, "harness")] + flags
    units = [(src, flags)] + [(u, f) for u, f in part.get("objects", [])]  # translation units: the harness and extra objects
    cmd = lambda u, f: [cxx, "-std=gnu++17", "-w", "-I", REPO, "-I", os.path.join(HERE, "mc"), "-I", os.path.join(HERE, "harness")] + f
    def pre(uf): return subprocess.run(cmd(*uf) + ["-E", "-P", os.path.join(HERE, "harness", uf[0])], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: pres = list(ex.map(pre, units))
    for p in pres:
        if p.returncode: return name, None, p.stderr.decode(errors="replace")
    h = hashlib.sha256(b"v2")
    for (u, f), p in zip(units, pres): h.update(p.stdout + " ".join(cmd(u, f) + libs).encode())
    key = h.hexdigest()[:24]
    exe = os.path.join(bdir, f"{prop}-{name}-{key}")
    if os.path.exists(exe): return name, exe, ""
    for f in os.listdir(bdir):
        if f.startswith(f"{prop}-{name}-"): os.unlink(os.path.join(bdir, f))
    tb = time.time()
    if len(units) == 1: r = sh(base + [os.path.join(HERE, "harness", src), "-o", exe + ".new"] + libs)
    else:
        objs = [f"{exe}.{i}.o" for i in range(len(units))]
        def comp(i): return sh(cmd(*units[i]) + ["-c", os.path.join(HERE, "harness", units[i][0]), "-o", objs[i]])
        try:
            with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: rs = list(ex.map(comp, range(len(units))))
            r = next((x for x in rs if x.returncode), None) or sh(base + objs + ["-o", exe + ".new"] + libs)
        finally:
            for o in objs:
                if os.path.exists(o): os.unlink(o)
    if r.returncode: return name, None, r.stdout
    os.rename(exe + ".new", exe); print(f"  built {prop}-{name} in {time.time()-tb:.0f}s", file=sys.stderr)
    return name, exe, r.stdout
def run_programs(prop, p, rdir):
    """Compile-time part: every program of a small grammar is given to the compiler; the contradictory ones must be rejected."""
    import importlib
    progs = importlib.import_module(p["programs"]).programs(); t0 = time.time()
    def one(x):
        r = subprocess.run(["g++", "-std=gnu++17", "-w", "-fsyntax-only", "-fmax-errors=3", "-I", REPO, "-DTOON_USE_LAPACK", "-DTOON_CHECK_BOUNDS", "-x", "c++", "-"], input=x[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: res = list(ex.map(one, progs))
    nv = 0; oc = {"rejected": 0, "accepted": 0}
    for i, ((name, src, ok), (rc, log)) in enumerate(zip(progs, res)):
        if rc not in (0, 1): print("compiler failed", file=sys.stderr); sys.exit(2)
        oc["accepted" if rc == 0 else "rejected"] += 1
        if (rc == 0) != ok:
            nv += 1; path = os.path.join(rdir, f"{prop}-{p['name']}-{i}.cc"); open(path, "w").write("// " + name + ("\n// must compile\n" if ok else "\n// must be rejected\n") + src + "\n/*\n" + log[:5000] + "\n*/\n")
            print(f"VIOLATION property={prop} replay={path}\n  {'a consistent program is rejected' if ok else 'a contradictory program compiles'}: {name}")
    n = len(progs)
    print(f"[{prop}/{p['name']}] programs={n} {time.time()-t0:.1f}s", file=sys.stderr)
    return dict(part=p["name"], executions=n, transitions=n, comparisons=n, pruned=0, states=n, exhaustive=True, time_capped=False, violations=nv, known=0, worker_crashes=0, wall_s=time.time() - t0,
                scenarios={"compile-time grammar": n}, bounds={}, outcomes=oc, distinct_outcomes=2, samples=[progs[1][0], progs[-1][0]])
def main():
    a = sys.argv[1:]
    prop = a.pop(0); tier = os.environ.get("VERIF_TIER", "quick"); replay = only = None
    while a:
        o = a.pop(0)
        if o == "--tier": tier = a.pop(0)
        elif o == "--replay": replay = a.pop(0)
        elif o == "--only": only = a.pop(0)
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bdir = os.path.join(HERE, ".build"); os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    parts = [p for p in spec["parts"] if tier == "thorough" or not p.get("thorough_only")]
    if replay:
        want = [l.split("=", 1)[1].strip() for l in open(replay) if l.startswith("part=")][0]
        parts = [p for p in parts if p["name"] == want]
    else:
        for f in os.listdir(rdir):
            if f.startswith(prop + "-"): os.unlink(os.path.join(rdir, f))
    gparts = [p for p in parts if "programs" in p]; parts = [p for p in parts if "programs" not in p]
    with cf.ThreadPoolExecutor(8) as ex: built = list(ex.map(lambda p: build(prop, p, bdir), parts))
    bt = time.time() - t0
    rc = 0; results = []; nviol = 0; built_ok = []
    for (name, exe, log), p in zip(built, parts):
        if exe: continue
        # The harness uses only the documented interface. If the library itself still parses, a harness that
        # no longer compiles means a valid program is rejected: that is a violation; otherwise the tree is broken.
        ok = sh(["g++", "-std=gnu++17", "-w", "-I", REPO, "-DTOON_USE_LAPACK", "-fsyntax-only", "-x", "c++", "-"], input="#include <TooN/TooN.h>\nint main(){TooN::Vector<3> v=TooN::Zeros; return v.size()-3;}\n").returncode == 0
        path = os.path.join(rdir, f"{prop}-{name}-compile.txt"); open(path, "w").write(f"property={prop}\npart={name}\nkey=does-not-compile\n" + log[-20000:])
        errs = "\n".join([l for l in log.splitlines() if "error" in l][:5])
        if ok: print(f"VIOLATION property={prop} replay={path}\n  a valid program over the documented interface no longer compiles:\n{errs}"); nviol += 1; rc = 1
        else: print("harness does not build and neither does the library:\n" + errs, file=sys.stderr); sys.exit(2)
    for (name, exe, log), p in zip(built, parts):
        if not exe: continue
        if replay: sys.exit(subprocess.run([exe, "--property", prop, "--part", name, "--replay", replay]).returncode)
        out = os.path.join(bdir, f"{prop}-{name}.json")
        if os.path.exists(out): os.unlink(out)
        cmd = [exe, "--property", prop, "--part", name, "--tier", tier, "--out", out, "--known", os.path.join(HERE, "known_findings.txt"), "--replay-dir", rdir,
               "--workers", str(os.cpu_count() or 8), "--budget", str(p.get("budget", 600 if tier == "quick" else 3600))]
        if only: cmd += ["--only", only]
        sys.stdout.flush()
        r = subprocess.run(cmd)
        if r.returncode == 1: rc = 1
        elif r.returncode == 2 and only: continue
        elif r.returncode != 0: print(f"part {name} ended with {r.returncode}", file=sys.stderr); sys.exit(2)
        results.append(json.load(open(out)))
    for p in gparts:
        if not only and not replay: results.append(run_programs(prop, p, rdir)); rc = rc or int(results[-1]["violations"] > 0)
    tot = lambda k: sum(r[k] for r in results)
    nviol += tot("violations")
    cov = {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("executions"),
           "executions": tot("executions"), "comparisons_with_reference": tot("comparisons"), "pruned_revisits": tot("pruned"),
           "distinct_outcomes": tot("distinct_outcomes"), "exhaustive": bool(results) and all(r["exhaustive"] for r in results),
           "evaluations": tot("executions"), "distinct_nontrivial": tot("states"),
           "rule": spec["rule"], "bound": spec.get("bound", ""),
           "scenarios": {r["part"] + "/" + k: v for r in results for k, v in r["scenarios"].items()},
           "bounds": {r["part"] + "/" + k: v for r in results for k, v in r["bounds"].items()},
           "outcomes": {k: v for r in results for k, v in r["outcomes"].items()},
           "samples": [s for r in results for s in r["samples"]][:24],
           "known_findings_seen": tot("known"), "build_s": round(bt, 1)}
    if "evidence_extra" in spec: cov.update(spec["evidence_extra"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: executions={cov['executions']} states={cov['states']} transitions={cov['transitions']} exhaustive={cov['exhaustive']} violations={nviol} wall={ev['wall_s']}s")
    sys.exit(rc)
main()
