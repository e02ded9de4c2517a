"""python3 -m hsa.run C01 [--tier quick|thorough] [--jobs N] [--only TASK]

Exit 0: every obligation was discharged.  Exit 1: VIOLATION.  Exit 2: nothing
could be analysed (an anchor of the property is gone)."""
import argparse
import fnmatch
import gc
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("HSA_EVIDENCE") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


# Wall clock limits: what is not analysed by then is reported as undecided
TOTAL_S = {"quick": 780, "thorough": 6 * 3600}
TASK_S = {"quick": 400, "thorough": 3 * 3600}
END = [0]


class Late(BaseException):
    pass


def on_alarm(*a):
    raise Late


def run_task(args):
    prop, name, tier = args
    from . import lib
    from .engine.world import w
    check = importlib.import_module("hsa.checks.%s" % prop.lower())
    check.TIER = tier
    ctx = lib.Ctx(prop, name)
    t = time.time()
    w.funcs.clear()
    w.forks = 0
    w.writes = []
    w.max_path_steps = 6_000_000
    if END[0] - t < 1:
        ctx.undec(name, "not analysed: out of time")
        r = ctx.result()
        r["wall_s"] = 0
        return r
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(max(1, int(min(TASK_S[tier], END[0] - t))))
    try:
        fn = dict(check.tasks(tier))[name]
        fn(ctx)
    except lib.Anchor as e:
        ctx.undec(name, "anchor: %s" % e)
    except (lib.Unsupported, lib.KLimit) as e:
        ctx.undec(name, "unsupported: %s (at %s)" % (e, lib.loc(w.line)))
    except lib.PyExc as e:
        ctx.undec(name, "raised outside a judged call: %s" % lib.exc_str(e))
    except lib.Diverges as e:
        ctx.undec(name, str(e))
    except Late:
        ctx.undec(name, "time limit of the task reached after %d obligations" % ctx.obligations)
    except RecursionError as e:
        ctx.undec(name, "host recursion limit")
    except Exception:
        ctx.undec(name, "analysis error: " + traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
    r = ctx.result()
    r["wall_s"] = round(time.time() - t, 2)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop at the first task with a violation")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.prop
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from . import lib
    check = importlib.import_module("hsa.checks.%s" % prop.lower())
    fatal = None
    unsup = False       # the package uses a construct of which the analysis has no semantics
    results = []
    END[0] = t0 + TOTAL_S[tier]
    try:
        lib.load()
    except lib.Unsupported as e:
        fatal = "cannot load the package: %s" % e
        unsup = True
    except (lib.Anchor, SyntaxError, OSError) as e:
        fatal = "cannot load the package: %s" % e
    gc.collect()
    gc.freeze()
    gc.set_threshold(50000, 20, 100)
    names = []
    if fatal is None:
        names = [n for n, _ in check.tasks(tier) if not a.only or fnmatch.fnmatch(n, a.only)]
        jobs = [(prop, n, tier) for n in names]
        if len(jobs) > 1 and a.jobs > 1:
            with multiprocessing.get_context("fork").Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as p:
                for r in p.imap_unordered(run_task, jobs, chunksize=1):
                    results.append(r)
                    if a.first and r["violations"]:
                        break
                    if a.v:
                        print(r["task"], r["wall_s"], "s", r["partitions"], "partitions", r["obligations"], "obligations",
                              len(r["violations"]), "violations", len(r["undecided"]), "undecided", flush=True)
        else:
            for j in jobs:
                results.append(run_task(j))
    results.sort(key=lambda r: names.index(r["task"]))

    viol = [v for r in results for v in r["violations"] if v]
    nviol = sum(len(r["violations"]) for r in results)
    undec = [u for r in results for u in r["undecided"]]
    obl = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    rules = {}
    for r in results:
        for k, n in r["rules"].items():
            rules[k] = rules.get(k, 0) + n
    funcs = sorted({tuple(f) for r in results for f in r["funcs"]})

    kn = known(prop)
    matched = []
    new = []
    for v in viol:
        k = [x for x in kn if x.split(" :: ")[0] in (v["rule"] + " " + v["message"])]
        (matched if k else new).append(v)
    for x in sorted(set(y for v in matched for y in kn if y.split(" :: ")[0] in (v["rule"] + " " + v["message"]))):
        print("KNOWN-FINDING: property=%s %s" % (prop, x))

    expect = getattr(check, "MIN_OBLIGATIONS", {}).get(tier, 1)
    if not a.only and not undec and not nviol and fatal is None and obl < expect:
        undec.append("only %d obligations where %d were confirmed: coverage dropped" % (obl, expect))

    wall = round(time.time() - t0, 2)
    status = "violation" if new else ("undecided" if undec or fatal else "holds")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(check, "LEVEL", "other"),
        "coverage": {
            "status": status,
            "rule": check.RULE,
            "obligations": obl, "discharged": dis,
            "partitions": sum(r["partitions"] for r in results),
            "state_splits": sum(r["forks"] for r in results),
            "tasks": [{k: r[k] for k in ("task", "obligations", "partitions", "wall_s", "rules", "notes")} for r in results],
            "obligations_by_rule": rules,
            "functions_analysed": ["%s:%d %s" % (lib.loc((f[0], f[2])).rsplit(":", 1)[0], f[2], f[1]) for f in funcs],
            "undecided": undec[:50],
            "bounds": getattr(check, "BOUNDS", ""),
            "violations": viol[:20],
        },
        "wall_s": wall,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s %s: %s; %d obligations (%d discharged) in %d partitions, %d functions of the repository, %.1f s"
          % (prop, tier, status, obl, dis, ev["coverage"]["partitions"], len(funcs), wall))
    for u in undec[:10]:
        print("UNDECIDED property=%s %s" % (prop, str(u)[:1500]))
    if new:
        path = os.path.join(EVID, "%s.violation.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "replay": "cd %s && python3 -m hsa.run %s --only '%s'" % (ROOT, prop, new[0]["task"]),
                       "violations": new}, f, indent=1, default=str)
            f.write("\n")
        seen = set()
        for v in new:
            key = (v["rule"], v["where"])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 6:
                break
            print("  rule: %s\n    at: %s\n    %s" % (v["rule"], v["where"] or (v["functions"][-1:] or ["?"])[0], v["message"][:1500]))
            if v["input"]:
                print("    input: %s" % (str(v["input"])[:1500],))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if fatal:
        print("%s property=%s %s" % ("UNDECIDED" if unsup else "ERROR", prop, fatal))
        sys.exit(0 if unsup else 2)
    if not dis and not undec:
        print("ERROR property=%s nothing could be analysed" % prop)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
