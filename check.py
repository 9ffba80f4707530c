#!/usr/bin/env python3
"""Decide one property: symbolic execution (CBMC) of the current /repo sources + SAT/SMT verdict.

usage: check.py <ID> [--tier quick|thorough] [--only HARNESS] [--keep] [-v]
exit 0 held on everything explored; 1 VIOLATION; 2 the check itself could not answer.
"""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
import registry as R

INC = ["include", "include/core", "include/core/federated", "include/core/federated/network", "include/core/modal_models",
       "include/core/platform", "include/core/threaded", "include/core/utils", "include/core/utils/hashset", "include/api",
       "trace/api", "trace/api/types", "trace/impl/include", "version/api", "logging/api", "tag/api", "low_level_platform/api",
       "platform/api", "core/federated/RTI", "util", "."]
lock = threading.Lock()
procs = set()

def say(*a):
    with lock: print(*a, flush=True)

class Timeout(Exception): pass

def run(cmd, timeout, mem_gb=None, cwd=None, env=None, out=None):
    def pre():
        os.setsid()
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    f = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.PIPE if not out else subprocess.DEVNULL, preexec_fn=pre, cwd=cwd, env=env,
                         stdin=subprocess.DEVNULL)
    procs.add(p)
    try:
        so, se = p.communicate(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        raise Timeout(" ".join(cmd[:3]))
    finally:
        procs.discard(p)
        if out: f.close()
    return p.returncode, (so or b"").decode(errors="replace"), (se or b"").decode(errors="replace")

def flags(h, tier):
    cfg = R.CONFIGS[h["config"]]
    d = list(cfg) + list(h.get("defs", [])) + list(h.get(tier + "_defs", []))
    return ["-D" + x for x in d] + ["-I" + os.path.join(VERIF, "harness")] + ["-I" + os.path.join(REPO, i) for i in INC]

def srcs(h):
    out = [os.path.join(VERIF, "harness", h["file"])]
    for s in h.get("srcs", []):
        out.append(os.path.join(VERIF, "harness", s[2:]) if s.startswith("@/") else os.path.join(REPO, s))
    return out

# functions modelled by CBMC itself (its C library), hence bodyless at this point
LIB = ("malloc calloc realloc free alloca abort exit abs labs llabs memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy strcat strncat strdup "
       "strchr strrchr assert __assert_fail __assert_rtn memchr errno __errno_location isdigit isspace tolower toupper").split()
NOBODY = "(?!nondet_|__CPROVER|__builtin_|__sync_|__atomic_|_?_?(%s)$).*" % "|".join(LIB)

class Builder:
    def __init__(self, tmp): self.tmp, self.cache, self.l = tmp, {}, threading.Lock()
    def goto(self, h, tier):
        key = json.dumps([h["file"], h.get("srcs"), flags(h, tier)])
        with self.l:
            if key not in self.cache:
                self.cache[key] = cf.Future(); mine = True
            else: mine = False
            fut = self.cache[key]
        if mine:
            out = os.path.join(self.tmp, "b%d.gb" % len(self.cache))
            try:
                rc, so, se = run(["goto-cc", "-std=gnu11", "-w"] + flags(h, tier) + srcs(h) + ["-o", out], 120)
                if rc != 0: raise RuntimeError("goto-cc failed for %s:\n%s" % (h["file"], (so + se)[-3000:]))
                # A call to a function without a body must be a visible failure, not an arbitrary value.
                rc, so, se = run(["goto-instrument", "--generate-function-body", NOBODY, "--generate-function-body-options", "assert-false-assume-false", out, out], 120)
                if rc != 0: raise RuntimeError("goto-instrument failed: " + (so + se)[-1500:])
                fut.set_result(out)
            except BaseException as e: fut.set_exception(e)
        return fut.result()

STD = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--no-malloc-may-fail"]

def cbmc(h, tier, gb, unwind, deadline, tmp, attempt):
    out = os.path.join(tmp, "%s.%d.json" % (h["uid"], attempt))
    solver = h.get("solver") or (os.environ.get("VP_SOLVER","").split())
    cmd = ["cbmc", gb, "--function", h["entry"], "--unwind", str(unwind), "--unwinding-assertions", "--drop-unused-functions",
           "--trace", "--json-ui", "--verbosity", "8", "--slice-formula"] + (STD if not h.get("nomem") else STD[:1] + STD[-1:]) + list(h.get("flags", [])) + list(solver)
    if h.get("hunwind"):
        # Loops of the harness and its models have constant bounds of their own; --unwind then bounds /repo's loops only.
        _, so, _ = run(["cbmc", gb, "--show-loops", "--json-ui"], 60)
        loops = [l["name"] for m in json.loads(so) for l in m.get("loops", []) if l.get("sourceLocation", {}).get("file", "").startswith(VERIF + "/")]
        cmd += [x for l in loops for x in ("--unwindset", "%s:%d" % (l, h["hunwind"]))]
    if h.get("rec"):
        # Recursive functions, whatever they are called, get a recursion bound of their own.
        _, so, _ = run(["goto-instrument", "--call-graph", gb], 60)
        edges = {}
        for a, b in re.findall(r"^([\w$]+) -> ([\w$]+)$", so, re.M): edges.setdefault(a, set()).add(b)
        def reach(f):
            seen, todo = set(), [f]
            while todo:
                for g in edges.get(todo.pop(), ()):
                    if g not in seen: seen.add(g); todo.append(g)
            return seen
        for f in list(edges):
            if f in reach(f): cmd += ["--unwindset", "%s:%d" % (f, h["rec"])]
    t = h.get("timeout") or (600 if tier == "quick" else None)
    limit = min(deadline - time.time(), t or 1e9)
    t0 = time.time()
    rc, _, _ = run(cmd, limit, h.get("mem", 6), out=out)
    wall = time.time() - t0
    try:
        data = json.load(open(out))
    except Exception as e:
        raise RuntimeError("cbmc rc=%d gave no parsable output for %s (%s): %s" % (rc, h["entry"], e, open(out, errors="replace").read()[-600:]))
    os.unlink(out)
    st = {"solver_s": 0.0, "queries": 0, "vccs": 0, "steps": 0, "vars": 0, "clauses": 0, "cmd": " ".join(cmd[:1] + cmd[2:])}
    res = None
    for e in data:
        m = e.get("messageText", "")
        if e.get("messageType") == "ERROR": st.setdefault("error", m)
        if m.startswith("Runtime Solver:"): st["solver_s"] += float(m.split()[2].rstrip("s")); st["queries"] += 1
        g = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if g: st["vccs"] = int(g.group(1))
        g = re.match(r"size of program expression: (\d+) steps", m)
        if g: st["steps"] = int(g.group(1))
        g = re.match(r"(\d+) variables, (\d+) clauses", m)
        if g: st["vars"], st["clauses"] = int(g.group(1)), int(g.group(2))
        if "result" in e: res = e["result"]
    if res is None:
        raise RuntimeError("cbmc gave no result for %s: %s (rc %d)" % (h["entry"], st.get("error"), rc))
    return res, st, wall

def inputs(trace):
    vals = []
    for s in trace or []:
        if s.get("stepType") == "input" and s.get("inputID") == "vp":
            v = s["values"][0]
            d = v.get("data", "0")
            if "binary" in v:
                n = int(v["binary"], 2)
                if not re.search(r"u", d) and v["binary"][0] == "1" and (d.startswith("-")): n -= 1 << v["width"]
                if n >= 1 << 63: n -= 1 << 64
            else:
                n = {"TRUE": 1, "FALSE": 0}.get(d, 0)
            vals.append(n)
    return vals

def functions_on(trace):
    fs = set()
    for s in trace or []:
        loc = s.get("sourceLocation", {})
        f = loc.get("file", "")
        if f.startswith(REPO + "/") and loc.get("function"): fs.add(os.path.relpath(f, REPO) + ":" + loc["function"])
    return fs

def replay(h, tier, values, prop, idx, tmp, hang):
    """Run the counterexample against the ordinary native build. Returns (reproduced, text, dir)."""
    d = os.path.join(VERIF, "replays", h["property"], "%s-%d" % (h["uid"], idx))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, "values"), "w").write("\n".join(map(str, values)) + "\n")
    text, ok = "", False
    san = h.get("san", "address")
    variants = [("-O0", san), ("-O2", san)]
    for i, (opt, san) in enumerate(variants):
        exe = os.path.join(tmp, "%s-%d-%d.exe" % (h["uid"], idx, i))
        cmd = ["gcc", "-std=gnu11", "-w", "-g", opt, "-fsanitize=" + san, "-fno-sanitize-recover=all", "-DVP_REPLAY", "-DHARNESS=" + h["entry"]] + flags(h, tier) + \
              srcs(h) + [os.path.join(VERIF, "harness", "replay_main.c"), "-o", exe, "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-lpthread", "-lm"] + h.get("libs", [])
        open(os.path.join(d, "build%d.sh" % i), "w").write("#!/bin/sh\n# rebuild and rerun: sh build%d.sh\n%s && %s %s\n" % (
            i, " ".join("'%s'" % c.replace(exe, os.path.join(d, "replay%d" % i)) for c in cmd), os.path.join(d, "replay%d" % i), os.path.join(d, "values")))
        rc, so, se = run(cmd, 120)
        if rc != 0: text += "native build failed: " + se[-1500:]; continue
        env = dict(os.environ, ASAN_OPTIONS="exitcode=67:detect_leaks=%d:abort_on_error=0" % (1 if "leak" in prop else 0), MALLOC_PERTURB_="165")
        try:
            rc, so, se = run([exe, os.path.join(d, "values")], 20, env=env)
            text += "[%s] rc=%d %s\n" % (opt, rc, se[-1200:])
            if rc in (66, 67, 23) or rc < 0 or "runtime error:" in se: ok = True
        except Timeout:
            text += "[%s] did not terminate within 20 s\n" % opt
            if hang: ok = True
        os.unlink(exe)
        if ok: break
    open(os.path.join(d, "report.txt"), "w").write("property %s\nharness %s (%s)\nobligation: %s\n%s\n" % (h["property"], h["entry"], h["file"], prop, text))
    return ok, text, d

def decide(h, tier, b, deadline, tmp):
    """One harness -> dict(status, ...)"""
    r = {"entry": h["entry"], "file": h["file"], "what": h["what"], "bounds": h.get(tier + "_bounds", h.get("bounds", "")), "violations": [],
         "unconfirmed": [], "inconclusive": None}
    t0 = time.time()
    try:
        gb = b.goto(h, tier)
        unwind = h.get(tier + "_unwind", h["unwind"])
        for attempt in range(3):
            res, st, wall = cbmc(h, tier, gb, unwind, deadline, tmp, attempt)
            bad = [x for x in res if x["status"] == "FAILURE" and not x["description"].startswith("WITNESS")]
            unw = [x for x in bad if ".unwind." in x["property"] or "recursion" in x["description"]]
            undef = [x for x in bad if x["description"].startswith("undefined function should be unreachable")]
            real = [x for x in bad if x not in unw and x not in undef]
            # A failed unwinding assertion truncates paths but never creates failures; raise the bound and ask again.
            if unw and not real and attempt < 2 and deadline - time.time() > 3 * wall:
                unwind = unwind * 2 + 2; continue
            break
        wit = [x for x in res if x["description"].startswith("WITNESS")]
        r.update(st); r["unwind"] = unwind
        r["obligations"] = len([x for x in res if not x["description"].startswith("WITNESS")])
        r["discharged"] = len([x for x in res if x["status"] == "SUCCESS" and not x["description"].startswith("WITNESS")])
        r["witnesses"] = [x["description"] for x in wit if x["status"] == "FAILURE"]
        other = sorted({x["status"] for x in res} - {"SUCCESS", "FAILURE"})
        if other and not bad: r["inconclusive"] = "cbmc reported status " + ",".join(other)
        dead = [x["description"] for x in wit if x["status"] != "FAILURE"]
        fs = set(); r["sample"] = None
        for x in wit:
            fs |= functions_on(x.get("trace"))
            if r["sample"] is None and x.get("trace"): r["sample"] = {"reaches": x["description"], "values": inputs(x["trace"])[:40]}
        r["functions"] = sorted(fs)
        for i, x in enumerate((real + unw)[:6]):
            tr = x.get("trace")
            vals = inputs(tr)
            loc = x.get("sourceLocation", {})
            desc = "%s [%s at %s:%s]" % (x["description"], x["property"], loc.get("file", "?"), loc.get("line", "?"))
            ok, text, d = replay(h, tier, vals, desc, i, tmp, ".unwind." in x["property"])
            (r["violations"] if ok else r["unconfirmed"]).append({"obligation": desc, "values": vals[:60], "replay": d, "log": text[-800:]})
            if len(r["violations"]) >= 2: break
        if not r["violations"] and not r["inconclusive"]:
            if r["unconfirmed"]: r["inconclusive"] = "counterexample did not reproduce natively: " + r["unconfirmed"][0]["obligation"] + " | " + r["unconfirmed"][0]["log"][-400:]
            elif undef: r["inconclusive"] = "calls functions without a model: " + ", ".join(x["property"] for x in undef)
            elif dead: r["inconclusive"] = "vacuous: " + ", ".join(dead)
            elif not wit: r["inconclusive"] = "no reachability witness in the harness"
    except Timeout as e: r["inconclusive"] = "solver budget exhausted: %s" % e
    except RuntimeError as e: r["inconclusive"] = str(e)
    r["wall_s"] = round(time.time() - t0, 2)
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VP_JOBS", "7")))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    hs = [dict(h, uid="%s.%d" % (h["entry"], n)) for n, h in enumerate(R.HARNESSES) if h["property"] == a.id and (tier in h.get("tiers", ("quick", "thorough")))]
    if a.only: hs = [h for h in hs if h["entry"] == a.only]
    if not hs: print("no harness for", a.id); return 2
    budget = 800 if tier == "quick" else 3 * 3600
    t0 = time.time(); deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % a.id)
    try:
        b = Builder(tmp)
        hs.sort(key=lambda h: -h.get("cost", 1))
        with cf.ThreadPoolExecutor(a.j) as ex:
            results = list(ex.map(lambda h: decide(h, tier, b, deadline, tmp), hs))
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
    nviol = sum(len(r["violations"]) for r in results)
    inc = [r for r in results if r["inconclusive"]]
    for r in results:
        if a.v or r["inconclusive"]:
            say("  %-34s %-12s obligations %s/%s queries %s vccs %s steps %s solver %.1fs wall %.1fs unwind %s" % (
                r["entry"], "VIOLATED" if r["violations"] else ("INCONCLUSIVE" if r["inconclusive"] else "holds"), r.get("discharged"), r.get("obligations"),
                r.get("queries"), r.get("vccs"), r.get("steps"), r.get("solver_s", 0), r["wall_s"], r.get("unwind")))
            if r["inconclusive"]: say("    " + r["inconclusive"][:1500])
    known = [json.loads(l) for l in open(os.path.join(VERIF, "known_findings.jsonl"))] if os.path.exists(os.path.join(VERIF, "known_findings.jsonl")) else []
    for k in known:
        if k.get("property") == a.id and k.get("status") == "open": say("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    for r in results:
        for v in r["violations"]:
            say("  %s: %s\n  %s" % (r["entry"], v["obligation"], v["log"].strip()[-500:]))
            say("VIOLATION property=%s replay=%s" % (a.id, v["replay"]))
    fns = sorted({f for r in results for f in r.get("functions", [])})
    ev = {"property": a.id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {
              "explanation": "Bounded symbolic execution of the current /repo sources with CBMC; each obligation is an assertion or memory-safety "
                             "condition decided by the SAT solver for every value of the symbolic inputs within the stated bounds (unwinding "
                             "assertions on). Witnesses are reachability obligations that had to come back violated (non-vacuity).",
              "obligations": sum(r.get("obligations", 0) for r in results), "discharged": sum(r.get("discharged", 0) for r in results),
              "queries_discharged": sum(r.get("queries", 0) for r in results), "solver_seconds": round(sum(r.get("solver_s", 0) for r in results), 3),
              "functions_encoded": fns,
              "harnesses": [{k: r.get(k) for k in ("entry", "file", "what", "bounds", "unwind", "obligations", "discharged", "queries", "vccs", "steps", "vars",
                                                   "clauses", "solver_s", "wall_s", "witnesses", "inconclusive", "cmd")} for r in results],
              "samples": [r["sample"] for r in results if r.get("sample")],
              "known_findings_open": [k["what"] for k in known if k.get("property") == a.id and k.get("status") == "open"],
              "violations_detail": [v for r in results for v in r["violations"]]},
          "assumptions": R.ASSUMPTIONS.get(a.id, []) + R.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
    say("%s %s: %d harnesses, %d/%d obligations discharged, %d queries, %.1fs solver, %.1fs wall -> %s" % (
        a.id, tier, len(results), ev["coverage"]["discharged"], ev["coverage"]["obligations"], ev["coverage"]["queries_discharged"],
        ev["coverage"]["solver_seconds"], ev["wall_s"], "VIOLATED" if nviol else ("INCONCLUSIVE" if inc else "holds")))
    return 1 if nviol else (2 if inc else 0)

def stop(*_):
    for p in list(procs):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    os._exit(2)

if __name__ == "__main__":
    signal.signal(signal.SIGTERM, stop); signal.signal(signal.SIGINT, stop)
    sys.exit(main())
