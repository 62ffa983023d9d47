#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   -- decides one property on /repo's current tree (see DESIGN.md)."""
import bisect, glob, json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B

def harnesses(pid):
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", pid + "_*.cc"))):
        txt = ""
        for l in open(f):
            if l.startswith("//@"): txt += l[3:]
            else: break
        hdr = json.loads(txt)
        hdr["file"] = os.path.basename(f); hdr["name"] = hdr["file"][:-3]
        out.append(hdr)
    return out

def symbols(exe):
    out = subprocess.run(["nm", "-C", "--defined-only", exe], stdout=subprocess.PIPE).stdout.decode(errors="replace")
    syms = []
    for l in out.split("\n"):
        m = re.match(r"([0-9a-f]+) [tTwWuVv] (.*)", l)
        if m: syms.append((int(m.group(1), 16), m.group(2)))
    syms.sort()
    return syms

def encoded(exe, addrs):
    syms = symbols(exe); keys = [s[0] for s in syms]; names = set()
    for a in addrs:
        i = bisect.bisect_right(keys, a - 1) - 1
        if i >= 0:
            n = syms[i][1]
            if "EUROPA::" in n or "TiXml" in n: names.add(re.sub(r"\s+", " ", n)[:160])
    return sorted(names)

def known_list(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid and not k.get("fixed")]

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "model_checking")
    hs = harnesses(pid)
    if not hs: print("no harness for", pid); return 2
    only = os.environ.get("VERIF_ONLY")
    if only: hs = [h for h in hs if only in h["name"]]
    known = known_list(pid)
    out = os.path.join(B.BUILD, "out", pid); os.makedirs(out, exist_ok=True)
    exedir = os.path.join(B.BUILD, "exe"); os.makedirs(exedir, exist_ok=True)
    b = B.Builder()
    scale = float(os.environ.get("VERIF_TIMESCALE", "1"))
    tot = {}; units = []; viols = []; funcs = set(); tags = {}; missing = []; knownhit = {}
    for h in hs:
        mods = h["mods"].split(",")
        exe = os.path.join(exedir, h["name"])
        tb = time.time()
        b.build([h["file"]] + h.get("extra", []), mods, exe, defs=h.get("defs", []))
        tb = time.time() - tb
        od = os.path.join(out, h["name"]); os.makedirs(od, exist_ok=True)
        for f in glob.glob(od + "/*"): os.remove(f)
        tl = int(h.get("thorough" if tier == "thorough" else "quick", 60) * scale)
        cmd = [exe, "--out", od, "--time", str(tl), "--jobs", "8", "--pathcpu", str(h.get("pathcpu", 30))]
        if tier == "thorough": cmd.append("--thorough")
        if known:
            with open(od + "/known.lst", "w") as f: f.write("\n".join(k["match"] for k in known) + "\n")
            cmd += ["--known", od + "/known.lst"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=od, timeout=tl + 150)
        open(od + "/log.txt", "wb").write(r.stdout[-100000:])
        sf = od + "/stats.json"
        if r.returncode != 0 or not os.path.exists(sf):
            print("ERROR: %s ended with %d\n%s" % (h["name"], r.returncode, r.stdout.decode(errors="replace")[-2000:])); return 2
        s = json.load(open(sf))
        for i, n in enumerate(s.get("known_hits", [])): knownhit[i] = knownhit.get(i, 0) + n
        for k in s:
            if isinstance(s[k], int) and not isinstance(s[k], bool):
                tot[k] = max(tot.get(k, 0), s[k]) if k in ("maxdepth", "maxnodes") else tot.get(k, 0) + s[k]
        funcs.update(encoded(exe, s["fn_addrs"]))
        for k, v in s["tags"].items(): tags[h["name"] + ":" + k] = v
        for t in h.get("tags", []):
            if t not in s["tags"]: missing.append(h["name"] + ":" + t)
        units.append({"harness": h["name"], "decides": h.get("what", ""), "bounds": h.get("bounds", ""), "exhausted_within_bounds": s["exhausted"] and s["unknown"] == 0 and s["crashed"] == 0 and s["divergences"] == 0,
                      "paths": s["paths"], "paths_completed": s["completed"], "paths_outside_assumptions": s["pruned"], "branch_events": s["events"], "queries": s["queries"], "sat": s["sat"], "unsat": s["unsat"],
                      "unknown": s["unknown"], "discharged_by_interval_reasoning": s["folded"], "value_splits": s["splits"] + s["pinned"], "divergences": s["divergences"], "stale_shadows": s["stale"], "assertions_checked": s["asserts"],
                      "solver_s": round(s["solver_us"] / 1e6, 2), "explore_s": s["wall_s"], "build_s": round(tb, 1), "pending_branches_at_time_limit": s["pending"], "child_crashes": s["crashed"]})
        print("%s: exhausted=%s paths=%d completed=%d pruned=%d queries=%d (unsat %d, unknown %d) asserts=%d violations=%d div=%d stale=%d crashed=%d solver=%.1fs wall=%.1fs build=%.1fs" % (
            h["name"], s["exhausted"], s["paths"], s["completed"], s["pruned"], s["queries"], s["unsat"], s["unknown"], s["asserts"], s["nviol"], s["divergences"], s["stale"], s["crashed"], s["solver_us"] / 1e6, s["wall_s"], tb))
        sys.stdout.flush()
        # every counterexample is replayed: on an uninstrumented build of the same sources, without the solver
        plain = None; seen = set()
        for vf in sorted(glob.glob(od + "/viol.*.txt")):
            msg = open(vf).readline()[2:].strip()
            if plain is None:
                plain = exe + ".plain"
                B.Builder(instrument=False).build([h["file"]] + h.get("extra", []), mods, plain, defs=h.get("defs", []))
            def rep(e):
                try: return subprocess.run([e, "--replay", vf] + (["--thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=od, timeout=120)
                except subprocess.TimeoutExpired: return None
            r1 = rep(plain); txt = r1.stdout.decode(errors="replace") if r1 else "timeout"
            ok = r1 is None or r1.returncode == 1
            if not ok:
                r2 = rep(exe); ok2 = r2 is None or r2.returncode == 1
                txt += "\n--- instrumented binary, concrete replay ---\n" + (r2.stdout.decode(errors="replace") if r2 else "timeout")
                # memory misuse may only show with the checking allocator of the instrumented build
                ok = ok2
            with open(vf, "a") as f: f.write("".join("#replay " + l + "\n" for l in txt.split("\n")[:60]))
            if ok: viols.append((vf, msg))
            else: print("NOT REPRODUCED (dropped): %s %s" % (vf, msg)); tot["unreproduced"] = tot.get("unreproduced", 0) + 1
    for i, k in enumerate(known):
        if knownhit.get(i, 0) > 0: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    samples = []
    for vf, msg in viols[:4]: samples.append({"violation": msg, "input": [l.strip() for l in open(vf) if not l.startswith("#replay")][:60]})
    for h in hs[:3]:
        samples.append({"reached": {k: v for k, v in list(tags.items()) if k.startswith(h["name"] + ":")}})
    exh = all(u["exhausted_within_bounds"] for u in units)
    cov = {"states": tot.get("paths", 0), "transitions": tot.get("events", 0), "traces_validated_against_impl": tot.get("completed", 0) + tot.get("failed", 0), "samples": samples, "exhaustive": exh,
           "explanation": "states = execution paths (sets of inputs taking the same branches) of the real code run to the end; transitions = symbolic branch decisions on them, each negation decided by Z3; every path was executed natively on a model of its path condition while its encoding was compared with the native values (divergences counts disagreements).",
           "queries": {k: tot.get(k, 0) for k in ("queries", "sat", "unsat", "unknown")}, "solver_s": round(tot.get("solver_us", 0) / 1e6, 2), "units": units, "functions_encoded": funcs and sorted(funcs)[:400], "functions_encoded_count": len(funcs),
           "witness_tags_missing": missing, "unreproduced_counterexamples": tot.get("unreproduced", 0)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viols),
          "assumptions": ["Z3 4.8.12 answers are correct", "clang 18 -O1 code generation of the analysed sources is correct; compile-time configuration as in the repository's CMake build (64-bit, EUROPA_FAST off)",
                          "libstdc++ and libc functions are executed natively on concretised arguments where not instrumented (counted in value_splits)"] + [h["assume"] for h in hs if h.get("assume")]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if missing: print("WARNING: witness tags not reached:", ", ".join(missing))
    if viols:
        for vf, msg in viols[:6]:
            print("VIOLATION property=%s replay=%s" % (pid, vf)); print("   " + msg)
        return 1
    print("%s: held on everything explored (%s), %.1fs" % (pid, "all paths within the bounds" if exh else "time-limited", time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
