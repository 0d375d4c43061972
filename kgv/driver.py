"""Runs the obligations of one property in parallel worker processes and writes its evidence file.

exit 0: every obligation discharged; exit 1: a violation (VIOLATION line); exit 2: the analysis could not decide
(missing public anchor, construct without a transfer function, budget exhausted, vacuous rule).
"""
import argparse
import ast
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import sys
import threading
import time
import traceback
import warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("KGV_REPO", "/repo")
EVID = os.environ.get("KGV_EVIDENCE", os.path.join(HERE, "evidence"))
LIMITS = {"quick": dict(rule=240, total=840, budget=40000), "thorough": dict(rule=1500, total=6000, budget=400000)}
TRUSTED = [
    "Python/numpy/scipy transfer functions in kgv/interp.py and kgv/lib.py (abstract semantics of the constructs the code uses)",
    "reference formulas in spec/ref.py (Fujita-Hikida, Glampedakis-Kennefick, Stein-Warburton, Dyson-van de Meent, Schmidt)",
    "polynomial-identity fingerprints over GF((2^127-1)^2): congruence is refuted exactly up to a collision chance below 2^-100 per comparison",
    "real-number semantics: rounding, overflow and convergence of iterative routines are outside the analysis",
]


def functions_of(path):
    try:
        tree = ast.parse(open(os.path.join(ROOT, path)).read())
    except Exception:
        return []
    out = []

    def rec(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                q = pre + c.name
                if not isinstance(c, ast.ClassDef):
                    out.append((c.lineno, c.end_lineno, q))
                rec(c, q + ".")
            else:
                rec(c, pre)
    rec(tree, "")
    return out


def function_at(path, line):
    best = None
    for lo, hi, q in functions_of(path):
        if lo <= line <= hi and (best is None or lo >= best[0]):
            best = (lo, q)
    return best[1] if best else "<module>"


def where(line):
    if not line:
        return None
    return {"file": line[0], "line": line[1], "function": function_at(line[0], line[1])}


def as_dict(res):
    return dict(name=res.name, error=res.error, contexts=res.contexts, leaves=res.leaves, compared=res.compared, loose=res.loose,
                vacuous=getattr(res, "vacuous", 0), nodes=res.nodes, functions=res.functions, wall=round(res.wall, 2),
                mismatches=[dict(path=m.path, text=m.text, at=where(m.line), case=(m.ctx.describe() if m.ctx is not None else ""))
                            for m in res.mismatches])


def decide(kind, rule, opts, conn):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(400000)
    box = {}

    def body():
        try:
            from . import rules, decide as dc, field
            field.SALT = opts["salt"]
            dc.K = opts["samples"]
            if kind == "py":
                box["r"] = rule[1](rule[0], opts)
            else:
                box["r"] = as_dict(rules.run(dict(rule, budget=opts["budget"], time=opts["time"])))
        except BaseException as ex:
            box["r"] = dict(name=rule[0] if kind == "py" else rule["name"], error=f"internal: {type(ex).__name__}: {ex} "
                            + traceback.format_exc()[-600:], mismatches=[])

    threading.stack_size(1 << 30)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    conn.send(box.get("r"))
    conn.close()
    os._exit(0)


def run_all(jobs, opts, limits):
    """jobs: list of (kind, rule); at most eight at a time, each with its own deadline"""
    ctx = mp.get_context("fork")
    t0 = time.time()
    todo, live, out = list(enumerate(jobs)), [], {}
    workers = min(8, os.cpu_count() or 1)
    while todo or live:
        while todo and len(live) < workers:
            i, (kind, rule) = todo.pop(0)
            a, b = ctx.Pipe(False)
            left = max(10, limits["total"] - (time.time() - t0))
            o = dict(opts, time=min(limits["rule"], left - 5))
            p = ctx.Process(target=decide, args=(kind, rule, o, b))
            p.start()
            b.close()
            live.append((i, kind, rule, p, a, time.time() + min(limits["rule"] + 30, left)))
        mp.connection.wait([x[4] for x in live], timeout=1)
        for x in list(live):
            i, kind, rule, p, a, dl = x
            name = rule[0] if kind == "py" else rule["name"]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(name=name, error="worker ended without an answer", mismatches=[])
            elif time.time() > dl:
                r = dict(name=name, error="budget exhausted: time", mismatches=[])
            elif not p.is_alive() and not a.poll():
                r = dict(name=name, error="worker ended without an answer", mismatches=[])
            if r is not None:
                p.kill()
                p.join()
                live.remove(x)
                out[i] = r
    return [out[i] for i in range(len(jobs))]


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                out.append(json.loads(l[8:]))
    return out


def changed_call(m):
    """the analysed side fails at the call written in the rule itself"""
    return "raises TypeError where" in m["text"] and (not m["at"] or m["at"]["file"].startswith("spec/"))


def matches(f, prop, rule, m):
    at = m["at"] or {}
    return (f["property"] == prop and f["rule"] == rule and f["function"] == at.get("function")
            and f["file"] == at.get("file") and f["text"] in m["text"] and f.get("case", "") in m["case"])


def check(prop, tier, only=None, out=print):
    from . import obligations as ob
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limits = LIMITS[tier]
    jobs = [("cmp", r) for r in ob.TABLE.get(prop, [])] + [("py", r) for r in ob.PY.get(prop, [])]
    if only:
        jobs = [j for j in jobs if (j[1]["name"] if j[0] == "cmp" else j[1][0]).split(".", 1)[1] in only]
    if not jobs:
        print(f"error: no obligations for {prop}")
        return 2
    passes = [dict(salt=seed, samples=6, budget=limits["budget"])]
    if tier == "thorough":
        passes = [dict(salt=seed + 1000 * k, samples=6 + 4 * k, budget=limits["budget"]) for k in range(3)]
    results = []
    for o in passes:
        results.append(run_all(jobs, o, dict(limits, total=limits["total"] / len(passes))))
    rules_, viol, findings, errors, dropped = [], [], [], [], []
    funcs, total = {}, dict(contexts=0, leaves=0, compared=0, nodes=0, loose=0, vacuous=0)
    fk = known()
    for j, (kind, rule) in enumerate(jobs):
        private = kind == "cmp" and rule.get("private")
        for res in results:
            r = res[j]
            for f, n in (r.get("functions") or {}).items():
                funcs[f] = max(funcs.get(f, 0), n)
            for k in total:
                total[k] += r.get(k, 0)
            seen = set()
            if private and any(changed_call(m) for m in r["mismatches"]):
                dropped.append((r["name"], "calling convention of a private function changed"))
                r = dict(r, mismatches=[], compared=r.get("compared") or 1)
            for m in r["mismatches"]:
                hit = next((f for f in fk if matches(f, prop, r["name"], m)), None)
                key = (r["name"], json.dumps(m["at"]), m["text"])
                if hit:
                    findings.append((hit, r["name"], m))
                elif key not in seen:
                    seen.add(key)
                    viol.append((r["name"], m))
            if r["error"]:
                if private and (r["error"].startswith("anchor ") or "call" in r["error"]) or (kind == "cmp" and rule.get("made")):
                    dropped.append((r["name"], r["error"]))
                else:
                    errors.append((r["name"], r["error"]))
            elif not r["mismatches"] and not r.get("compared"):
                errors.append((r["name"], "vacuous: nothing was compared"))
            rules_.append(dict(rule=r["name"], contexts=r.get("contexts"), compared=r.get("compared"), graph_nodes=r.get("nodes"),
                               wall_s=r.get("wall"), outcome="error" if r["error"] else "violated" if r["mismatches"] else "discharged"))
    decided = [r for r in rules_ if r["outcome"] == "discharged"]
    if not decided and not viol and not errors:
        errors.append((prop, "no obligation on public API was decided"))
    unique = {}
    for n, m in viol:
        unique.setdefault((n, json.dumps(m["at"]), m["text"]), (n, m))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, f"{prop}.violation.json")
    for hit in {json.dumps(f, sort_keys=True): f for f, _, _ in findings}.values():
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    for n, m in unique.values():
        at = m["at"] or {}
        print(f"{at.get('file', '?')}:{at.get('line', '?')}: in {at.get('function', '?')}: rule {n}: {m['path']} {m['text']}" +
              (f" [when {m['case']}]" if m["case"] else ""))
    for n, e in errors:
        print(f"undecided: rule {n}: {e}")
    for n, e in dropped:
        print(f"dropped: rule {n}: {e}")
    ev = dict(property=prop, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2), violations=len(unique),
              assumptions=TRUSTED,
              coverage=dict(
                  explanation="Static value-graph analysis of /repo's sources: each obligation abstractly evaluates the library side and the "
                              "required side over symbolic parameters (all branches, gated value graphs) and decides congruence of every "
                              "guarded outcome (values, raised exceptions) in every decision context; no library code is executed.",
                  obligations=len(rules_), discharged=len(decided), dropped_private=len(dropped), undecided=len(errors),
                  contexts=total["contexts"], decided_contexts=total["leaves"], values_compared=total["compared"],
                  graph_nodes=total["nodes"], contexts_without_exact_samples=total["loose"], contradictory_contexts=total["vacuous"],
                  functions_analysed=len(funcs), statements_analysed=sum(funcs.values()),
                  functions=sorted(funcs), rules=rules_,
                  samples=[dict(rule=r["rule"], outcome=r["outcome"]) for r in rules_[:5]],
                  source=ROOT))
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    if os.path.exists(replay):
        os.remove(replay)
    if unique:
        json.dump(dict(property=prop, replay_cmd=f"python3-vt check.py {prop} --tier {tier}",
                       violations=[dict(rule=n, **m) for n, m in unique.values()]), open(replay, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={os.path.relpath(replay, HERE)}")
        return 1
    if errors:
        return 2
    print(f"{prop}: {len(decided)}/{len(rules_)} obligations discharged, {total['compared']} values compared in {total['leaves']} contexts, "
          f"{len(funcs)} functions analysed, {ev['wall_s']} s")
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=list(LIMITS))
    ap.add_argument("--only", nargs="*")
    o = ap.parse_args(argv)
    if o.property == "ALL":
        from . import obligations as ob
        rc = 0
        for p in sorted(set(ob.TABLE) | set(ob.PY)):
            t0 = time.time()
            r = check(p, o.tier)
            print(f"== {p} exit {r} {time.time() - t0:.1f}s", flush=True)
            rc = max(rc, r)
        return rc
    return check(o.property, o.tier, o.only)
