#!/usr/bin/env python3
"""Turn bug descriptions (a python file with BUGS = [...]) into seeded/<id>/ folders.

Every bug is tried in a scratch copy of /repo: it has to apply, build, pass the
repository's tests, and its demonstration has to pass without and fail with it.

  tools/plant.py bugs.py [id ...]
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from pathlib import Path

SEEDED = Path(__file__).resolve().parent.parent / "seeded"

DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds for this example.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 2
trap 'rm -rf -- "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
soupy = {{ path = "$repo"{features} }}{extra}
EOF
cd "$dir" || exit 2
export CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2> "$dir/log" || {{ cat "$dir/log"; exit 2; }}
timeout 60 "$dir/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    work = Path(tempfile.mkdtemp(prefix="plant"))
    copy = work / "repo"
    sh(f"cp -a /repo {copy}")
    tests = [t for t in json.load(open("/opt/vp/BASELINE.json")).items()]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=str(copy / "target"))
    bad = 0
    for b in bugs:
        if only and b["id"] not in only:
            continue
        sh("git checkout -- .", cwd=copy)
        for file, old, new in b["edits"]:
            p = copy / file
            s = p.read_text()
            assert s.count(old) == 1, (b["id"], file, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = sh("git diff", cwd=copy).stdout
        out = SEEDED / b["id"]
        tmp = work / "out"
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir()
        (tmp / "patch.diff").write_text(diff)
        (tmp / "demo.rs").write_text(b["demo"].strip() + "\n")
        extra = "".join("\n" + d for d in b.get("deps", []))
        (tmp / "demo.sh").write_text(DEMO.format(features=b.get("features", ""), extra=extra))
        (tmp / "meta.json").write_text(json.dumps(
            {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        r = sh("cargo test --workspace --offline -- --test-threads 8", cwd=copy, env=env)
        passed = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
        ok = r.returncode == 0 and passed == 29
        d1 = sh(f"bash {tmp}/demo.sh", cwd=copy)
        sh("git checkout -- .", cwd=copy)
        d0 = sh(f"bash {tmp}/demo.sh", cwd=copy)
        keep = ok and d0.returncode == 0 and d1.returncode not in (0, 2)
        print(b["id"], "KEPT" if keep else "REJECTED", "tests", r.returncode, passed, "demo", d0.returncode, d1.returncode, flush=True)
        if keep:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
        else:
            bad += 1
            print(r.stderr[-1500:] if not ok else "", d0.stdout[-500:], d0.stderr[-500:], d1.stdout[-500:], d1.stderr[-500:])
            if not ok:
                print("\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "panicked" in l))
    shutil.rmtree(work)
    return bad


sys.exit(main())
