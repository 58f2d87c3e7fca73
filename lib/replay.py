"""Runs the behaviour of a reported violation again: 1 when it still differs, 0 when it does not."""
import json, os, shutil
from core import *


def alike(v, rec, full, binary, work, path):
    """The same input in the build with everything and in the one with some features."""
    runs = []
    for asked, b in ((["everything"], full), (v["features"], binary)):
        inp, out = os.path.join(work, "in"), os.path.join(work, "out")
        with open(inp, "w") as f:
            f.write(json.dumps(rec) + "\n")
        crash = harness(b, "observe", inp, out, ["--threads", "1"])
        runs.append({"asked": asked, "got": crash["got"] if crash else json.loads(open(out).readline())["got"]})
    trace = os.path.join(work, "trace")
    with open(trace, "w") as f:
        f.write(json.dumps(dict({k: rec[k] for k in ("op", "needs") if k in rec}, runs=runs)) + "\n")
    t = run_tlc(work, "TraceFeatures", {"TraceFile": trace, "Lanes": 1}, ["Conforms"], "replay")
    print("behaviour: " + json.dumps(shorten(rec), ensure_ascii=False)[:3000])
    for r in runs:
        print(f"with {r['asked']}: " + json.dumps(shorten(r["got"]), ensure_ascii=False)[:3000])
    print(f"VIOLATION property={v['property']} replay={path}" if t.invariant else "conforms")
    return 1 if t.invariant else 0


def main(path):
    v = json.load(open(path))
    work = os.path.join(BUILD, "run", f"replay-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        binary = build()
        rec = v["record"]
        if "features" in v:
            full = binary
            binary, wrong = build_features(v["features"], os.path.join(BUILD, "features-0"))
            if not binary:
                print(wrong[-3000:])
                print(f"VIOLATION property={v['property']} replay={path}")
                return 1
            if rec["op"] == "build":
                print("conforms")
                return 0
            if "want" not in rec and "trace_module" not in v:
                return alike(v, rec, full, binary, work, path)
        inp, out = os.path.join(work, "in"), os.path.join(work, "out")
        with open(inp, "w") as f:
            f.write(json.dumps({k: rec[k] for k in rec if k not in ("got", "ms")}) + "\n")
        stack = ["--limit", "60", "--stack-mb", str(v.get("stack_mb", 256)), "--threads", "1"]
        if "trace_module" in v:
            crash = harness(binary, "observe", inp, out, stack)
            if not crash:
                got = json.loads(open(out).readline())["got"]
                t = run_tlc(work, v["trace_module"], dict(v["constants"], TraceFile=out, Lanes=1), ["Conforms"], "replay")
                bad = t.invariant
        else:
            extra = ["--facet", v.get("facet", "full")]
            if "suite" in v:
                suite = os.path.join(work, "suite")
                with open(suite, "w") as f:
                    f.write(json.dumps(v["suite"]) + "\n")
                extra += ["--suite", suite]
            mode = "replay" if "want" in rec else "observe"
            crash = harness(binary, mode, inp, out, stack + extra)
            if not crash and mode == "replay":
                r = json.load(open(out))
                bad, got = r["mismatched"], (r["mismatches"] or [{}])[0].get("got")
            elif not crash:
                bad, got = None, json.loads(open(out).readline())["got"]
        if crash:
            bad, got = True, crash["got"]
        print("behaviour: " + json.dumps(shorten({k: rec[k] for k in rec if k not in ("got", "want")}), ensure_ascii=False)[:3000])
        if "want" in rec:
            print("expected:  " + json.dumps(shorten(rec["want"]), ensure_ascii=False)[:3000])
        print("observed:  " + json.dumps(shorten(got), ensure_ascii=False)[:3000])
        print(f"VIOLATION property={v['property']} replay={path}" if bad else "conforms")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
