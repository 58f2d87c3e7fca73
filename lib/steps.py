import json, os
from concurrent.futures import ThreadPoolExecutor
from core import *


def read_suite(path):
    v = json.load(open(path))
    return json.loads(v) if isinstance(v, str) else v


class Gen:
    """Specification -> code."""

    def __init__(self, module, name, constants, invariants, facet="full", emits=True, need=(), limit=60, stack=256,
                 simulate=None, props=(), setup=None, suite=False, workers=8):
        self.module, self.name, self.constants, self.invariants = module, name, constants, invariants
        self.facet, self.emits, self.need, self.limit, self.stack = facet, emits, need, limit, stack
        self.simulate, self.props, self.setup, self.suite, self.workers = simulate, props, setup, suite, workers

    def run(self, ctx):
        out = os.path.join(ctx.work, self.name + ".behaviours")
        c = dict(self.constants)
        if self.emits:
            c["OutFile"] = out
        suite = os.path.join(ctx.work, self.name + ".suite")
        if self.suite:
            c["SuiteFile"] = suite
        if self.setup:
            c.update(self.setup(ctx, self))
        t = run_tlc(ctx.work, self.module, c, self.invariants, self.name, props=self.props, simulate=self.simulate,
                    seed=ctx.seed if self.simulate else None, timeout=ctx.tlc_timeout,
                    workers=self.workers)
        if t.invariant:
            sys.stderr.write(t.out[-3000:])
            raise ToolError(f"{self.module}/{self.name}: invariant {t.invariant} does not hold of the specification")
        ctx.count(t)
        info = {"spec": self.module, "family": self.name, "states": t.distinct, "transitions": t.generated - t.initial,
                "constants": {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in self.constants.items()},
                "invariants": list(self.invariants)}
        if self.emits:
            if not os.path.exists(out):
                raise ToolError(f"{self.module}/{self.name}: no behaviours were written")
            self.replay(ctx, out, suite, info)
            os.remove(out)
        ctx.steps.append(info)

    def replay(self, ctx, out, suite, info):
        rep = os.path.join(ctx.work, self.name + ".report")
        crash = harness(ctx.binary, "replay", out, rep, ["--facet", self.facet, "--limit", str(self.limit),
                                                         "--stack-mb", str(self.stack)]
                        + (["--suite", suite] if self.suite else []))
        if crash:
            crash["facet"] = self.facet
            raise Violation(f"{self.name}: the library did not return", crash)
        r = json.load(open(rep))
        if r["compared"] == 0:
            raise ToolError(f"{self.module}/{self.name}: nothing was compared")
        if self.suite:
            info["queries_per_document"] = len(read_suite(suite))
        info.update(behaviours_replayed=r["lines"], compared=r["compared"], left_open=r["skipped"])
        ctx.replayed += r["compared"]
        ctx.samples += sample_lines(out, ctx.rng, 1)
        if r["mismatched"]:
            bad = r["mismatches"][0]
            bad["facet"] = self.facet
            bad["mismatched"] = r["mismatched"]
            if self.suite:
                bad["suite"] = read_suite(suite)
            raise Violation(f"{self.name}: {r['mismatched']} behaviours of the specification are not behaviours of the code", bad)


class Trace:
    """Code -> specification.  The inputs come from a seeded generator or, with `source`, from
    another specification: (module, constants, invariants)."""

    def __init__(self, module, name, inputs=None, constants=None, lanes=32, limit=60, stack=256, source=None, threads=8, again=False):
        self.module, self.name, self.inputs, self.constants = module, name, inputs, constants or {}
        self.lanes, self.limit, self.stack, self.source, self.threads, self.again = lanes, limit, stack, source, threads, again

    def enumerate(self, ctx):
        module, constants, invariants = self.source
        out = os.path.join(ctx.work, self.name + ".enumerated")
        t = run_tlc(ctx.work, module, dict(constants, OutFile=out), invariants, self.name + "-source", timeout=ctx.tlc_timeout)
        if t.invariant:
            raise ToolError(f"{module}: invariant {t.invariant} does not hold of the specification")
        ctx.count(t)
        for l in open(out):
            v = json.loads(l)
            yield json.loads(v) if isinstance(v, str) else v
        os.remove(out)

    def run(self, ctx):
        inp = os.path.join(ctx.work, self.name + ".inputs")
        trace = os.path.join(ctx.work, self.name + ".trace")
        n = 0
        with open(inp, "w") as f:
            for rec in (self.enumerate(ctx) if self.source else self.inputs(ctx.rng_for(self.name))):
                f.write(json.dumps(rec) + "\n")
                n += 1
        crash = harness(ctx.binary, "observe", inp, trace, ["--limit", str(self.limit), "--stack-mb", str(self.stack), "--threads", str(self.threads)])
        if crash:
            crash["stack_mb"] = self.stack
            raise Violation(f"{self.name}: the library did not return", crash)
        c = dict(self.constants, TraceFile=trace, Lanes=self.lanes)
        while True:
            t = run_tlc(ctx.work, self.module, c, ["Conforms"], self.name, timeout=ctx.tlc_timeout)
            if not t.invariant:
                break
            st = t.last_state()
            i = int(st["line"])
            recorded = open(trace).read().splitlines()
            rec = json.loads(recorded[i - 1])
            repeated = self.again and self.repeat(ctx, rec)
            if not repeated:
                raise Violation(f"{self.name}: recorded behaviour {i} is not a behaviour of the specification",
                                {"record": rec, "trace_module": self.module, "constants": self.constants, "state": st})
            recorded[i - 1] = json.dumps(repeated)
            open(trace, "w").write("\n".join(recorded) + "\n")
        ctx.count(t)
        if t.distinct < n:
            raise ToolError(f"{self.module}/{self.name}: only {t.distinct} states for {n} records")
        ctx.validated += n
        info = {"spec": self.module, "family": self.name, "states": t.distinct, "transitions": t.generated - t.initial,
                "traces_validated": n, "constants": self.constants}
        ctx.steps.append(info)
        ctx.samples += sample_lines(inp, ctx.rng, 1)
        os.remove(trace)
        os.remove(inp)


    def repeat(self, ctx, rec):
        """A measurement counts as failed only if it fails whenever it is repeated, undisturbed."""
        inp, out = os.path.join(ctx.work, "again.in"), os.path.join(ctx.work, "again.out")
        with open(inp, "w") as f:
            f.write(json.dumps({k: rec[k] for k in rec if k not in ("got", "ms")}) + "\n")
        for _ in range(3):
            if harness(ctx.binary, "observe", inp, out, ["--limit", str(self.limit), "--stack-mb", str(self.stack), "--threads", "1"]):
                continue
            t = run_tlc(ctx.work, self.module, dict(self.constants, TraceFile=out, Lanes=1), ["Conforms"], "again")
            if not t.invariant:
                return json.loads(open(out).readline())
        return None


class Builds:
    """Every way of asking for features, as the specification enumerates them: each has to build."""

    name = "builds"

    def run(self, ctx):
        out = os.path.join(ctx.work, "features.ndjson")
        t = run_tlc(ctx.work, "GenFeatures", {"OutFile": out}, ["Grows", "Independent", "Default", "Emit"], "GenFeatures")
        if t.invariant:
            raise ToolError(f"GenFeatures: invariant {t.invariant} does not hold of the specification")
        ctx.count(t)
        asked = []
        for l in open(out):
            v = json.loads(l)
            asked.append(json.loads(v) if isinstance(v, str) else v)
        asked.sort(key=lambda v: (len(v["enabled"]), v["asked"]))
        lanes = 4

        def lane(k):
            return [(v, build_features(sorted(v["asked"]), os.path.join(BUILD, f"features-{k}"))) for v in asked[k::lanes]]
        with ThreadPoolExecutor(lanes) as ex:
            done = [x for l in ex.map(lane, range(lanes)) for x in l]
        ctx.builds = []
        for v, (binary, wrong) in sorted(done, key=lambda x: (len(x[0]["enabled"]), x[0]["asked"])):
            if not binary:
                raise Violation(f"the library does not build or lacks an operation with only {sorted(v['asked'])}: {wrong[-1500:]}",
                                {"record": {"op": "build", "features": sorted(v["asked"])}, "features": sorted(v["asked"])})
            ctx.builds.append((v, binary))
        ctx.replayed += len(asked)
        ctx.steps.append({"spec": "GenFeatures", "states": t.distinct, "transitions": t.generated - t.initial, "builds": [sorted(v["asked"]) for v, _ in ctx.builds]})


class Everywhere:
    """A Gen step whose behaviours are replayed into every build that offers the operation."""

    def __init__(self, gen, op):
        self.gen, self.op, self.name = gen, op, gen.name

    def run(self, ctx):
        one = self.gen.replay

        def replay(c, out, suite, info):
            try:
                one(c, out, suite, info)
            except Violation as e:  # whatever the features: not what this property is about
                info["not_judged"] = e.what
                return
            full = c.binary
            for v, binary in c.builds:
                if self.op in v["offers"]:
                    c.binary = binary
                    try:
                        one(c, out, suite, info)
                    except Violation as e:
                        e.payload["features"] = sorted(v["asked"])
                        e.what = f"with only {sorted(v['asked'])}: {e.what}"
                        raise
                    finally:
                        c.binary = full
            info["builds"] = sum(self.op in v["offers"] for v, _ in c.builds)
        self.gen.replay = replay
        self.gen.run(ctx)


class Alike:
    """The same inputs in every build, and whether the builds agree."""

    def __init__(self, name, inputs, lanes=32):
        self.name, self.inputs, self.lanes = name, inputs, lanes

    def run(self, ctx):
        inp, trace = os.path.join(ctx.work, self.name + ".inputs"), os.path.join(ctx.work, self.name + ".trace")
        recs = list(self.inputs(ctx.rng_for(self.name)))
        with open(inp, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        runs = [[] for _ in recs]

        def observe(b):
            v, binary = b
            out = os.path.join(ctx.work, self.name + "." + "-".join(sorted(v["asked"])))
            crash = harness(binary, "observe", inp, out, ["--threads", "2"])
            return v, out, crash
        with ThreadPoolExecutor(4) as ex:
            seen = list(ex.map(observe, ctx.builds))
        for v, out, crash in seen:
            if crash:
                crash["features"] = sorted(v["asked"])
                raise Violation(f"{self.name}: the library did not return with only {sorted(v['asked'])}", crash)
            for i, l in enumerate(open(out)):
                runs[i].append({"asked": sorted(v["asked"]), "got": json.loads(l)["got"]})
            os.remove(out)
        with open(trace, "w") as f:
            for r, x in zip(recs, runs):
                f.write(json.dumps(dict({k: r[k] for k in ("op", "needs") if k in r}, runs=x)) + "\n")
        t = run_tlc(ctx.work, "TraceFeatures", {"TraceFile": trace, "Lanes": self.lanes}, ["Conforms"], self.name, timeout=ctx.tlc_timeout)
        if t.invariant:
            i = int(t.last_state()["line"])
            full = next(x["got"] for x in runs[i - 1] if x["asked"] == ["everything"])
            bad = [x for x in runs[i - 1] if x["got"] != full and x["got"] != {"unavailable": True}]
            raise Violation(f"{self.name}: input {i} is answered differently in builds with different features",
                            {"record": recs[i - 1], "features": (bad or runs[i - 1])[0]["asked"], "got": [bad[:3], full]})
        ctx.count(t)
        ctx.validated += len(recs) * len(ctx.builds)
        ctx.samples += sample_lines(inp, ctx.rng, 1)
        ctx.steps.append({"spec": "TraceFeatures", "family": self.name, "states": t.distinct, "inputs": len(recs), "traces_validated": len(recs) * len(ctx.builds)})
        os.remove(trace)


class Findings:
    """Known findings: the listed inputs, and only they, may still behave as described."""

    def __init__(self, name="known-findings"):
        self.name = name

    def run(self, ctx):
        seen = 0
        for i, k in enumerate(ctx.known):
            inp = os.path.join(ctx.work, f"finding-{i}.in")
            out = os.path.join(ctx.work, f"finding-{i}.out")
            with open(inp, "w") as f:
                f.write(json.dumps(k["record"]) + "\n")
            crash = harness(ctx.binary, "observe", inp, out, ["--limit", "60", "--threads", "1", "--stack-mb", str(k.get("stack_mb", 256))])
            if crash:
                got = crash["got"]
            else:
                got = json.loads(open(out).readline())["got"]
            if all(got.get(x) == y for x, y in k["observed"].items()):
                seen += 1
                ctx.notes.append(f"KNOWN-FINDING: property={ctx.prop} {k['what']}")
        ctx.steps.append({"step": self.name, "listed": len(ctx.known), "still_present": seen})
