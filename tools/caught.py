#!/usr/bin/env python3
"""caught.py LOGDIR: note in tools/caught.json which step reported each planted bug (LOGDIR/<id>.log, output of its check)."""
import json, re, sys
from pathlib import Path
root = Path(__file__).resolve().parent.parent
f = root / "tools/caught.json"
d = json.loads(f.read_text()) if f.exists() else {}
late = set(d.get("*", []))
for log in sorted(Path(sys.argv[1]).glob("*.log")):
    if not (root / "seeded" / log.stem).exists():
        continue
    t = log.read_text(errors="replace")
    m = re.search(r"^((?:with [^:]*: )?[\w-]+): ", t, re.M)
    hit = re.search(r"^VIOLATION", t, re.M)
    d[log.stem] = (m.group(1) if m else "yes") + ("*" if log.stem in late else "") if hit else "MISSED"
f.write_text(json.dumps(d, indent=1, sort_keys=True) + "\n")
