#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE  run the behaviour of a reported violation again
   check.py --setup        build everything once"""
import json, os, random, shutil, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from core import *


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{seed}/{prop}")
        self.states = self.transitions = self.replayed = self.validated = 0
        self.steps, self.samples = [], []
        self.tlc_timeout = 800 if tier == "quick" else 6 * 3600
        self.work = os.path.join(BUILD, "run", f"{prop}-{tier}-{os.getpid()}")
        self.binary = None
        self.extra = {}
        self.notes = []

    def rng_for(self, name):
        return random.Random(f"{self.seed}/{self.prop}/{name}")

    def count(self, t):
        self.states += t.distinct
        self.transitions += max(0, t.generated - t.initial)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.strip() and not l.startswith("fixed:"):
                k = json.loads(l)
                if k["property"] == prop:
                    out.append(k)
    return out


def evidence(ctx, level, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.replayed + ctx.validated,
           "behaviours_replayed_into_code": ctx.replayed, "recorded_traces_validated": ctx.validated,
           "samples": ctx.samples[:8], "steps": ctx.steps}
    cov.update(ctx.extra)
    e = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
         "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in args:
        k = args.index("--tier")
        tier = args[k + 1]
        del args[k:k + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if args[:1] == ["--replay"]:
        import replay
        return replay.main(args[1])
    import plan
    if args[:1] == ["--setup"]:
        build()
        plan.setup()
        return 0
    prop = args[0]
    steps, level, assumptions = plan.plan(prop, tier)
    ctx = Ctx(prop, tier, seed)
    ctx.known = known_findings(prop)
    begin = time.time()
    os.makedirs(ctx.work, exist_ok=True)
    violation = None
    try:
        ctx.binary = build()
        for s in steps:
            t = time.time()
            s.run(ctx)
            if os.environ.get("VERBOSE"):
                print(f"  {s.name}: {time.time() - t:.1f}s {json.dumps(ctx.steps[-1])[:300]}", file=sys.stderr)
    except Violation as v:
        violation = v
    except ToolError as e:
        print(f"ERROR property={prop} {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    evidence(ctx, level, time.time() - begin, 1 if violation else 0, assumptions)
    for n in ctx.notes:
        print(n)
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "what": violation.what, "seed": seed, "tier": tier, **violation.payload}, f)
        print(violation.what)
        rec = violation.payload.get("record", {})
        show = json.dumps(shorten({k: rec.get(k) for k in rec if k not in ("got", "want")}), ensure_ascii=False)
        print("behaviour: " + show[:1500])
        if "want" in rec:
            print("expected:  " + json.dumps(shorten(rec["want"]), ensure_ascii=False)[:1500])
        print("observed:  " + json.dumps(shorten(violation.payload.get("got", rec.get("got"))), ensure_ascii=False)[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} tier={tier} states={ctx.states} transitions={ctx.transitions} "
          f"replayed={ctx.replayed} validated={ctx.validated} wall={time.time() - begin:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
