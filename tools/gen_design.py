#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: what each scenario generates and counts as non-trivial."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PAT = re.compile(r'SCENARIO\((\w+),\s*(\d+),\s*(\d+),\s*(\w+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)')
out = []
for p in props:
    spec = CHECKS.get(p["id"])
    if not spec:
        continue
    fl = []
    for r in spec["runs"]:
        fl.append(r["flavour"] + (f" ({r['scenario']} only)" if "scenario" in r else ""))
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"Builds: {', '.join(fl)}. Oracle: {spec.get('oracle', 'see the rules below')}.\n")
    for h in spec["harness"]:
        s = open(os.path.join(V, "harness", h)).read()
        for m in PAT.finditer(s):
            text = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(5))).replace('\\"', '"')
            out.append(f"- `{m.group(1)}` ({int(m.group(2)):,} / {int(m.group(3)):,} cases per build): {text}.")
    if spec.get("bounds"):
        out.append(f"\nNot reached: {spec['bounds']}")
    out.append("")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- generated: scenarios -->\n", "<!-- end generated -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n".join(out) + s[j:]
MISSED = {
    "important-file-remove-retry": "C10 `faults` scenario added",
    "important-file-in-place-fallback": "C10 `faults` scenario added",
    "bind-weak-ptr-raw": "C20 releases shared targets while calls run",
    "pool-service-notify-first-only": "C24 mixes in never-due tasks",
    "apply-chunks-one-more": "C25 `large` scenario added",
    "pool-tasks-dropped-locked": "tasks whose state posts when it is released added to C22, C23, C24, C26, C27",
    "shuffle-sattolo": "C29 `shuffle_fair` scenario added",
    "resize-grow-cstr": "C30 `resize_string` fills strings with any bytes and zeros",
    "write-same-size-skipped": "C09 and C10 write small changes of the old contents",
    "vector-builder-braces": "C29 `vector_builder_arguments` scenario added (the like in C16 and C32)",
    "timer-narrow-task-id": "C27 `many_restarts` scenario added",
    "try-assign-unwrap-lhs-twice": "C16 counts evaluations of the assignment target",
    "polling-shared-pending": "C22 `several` scenario added, the like in C27",
    "pool-waiting-count-shared": "C23, C24 and C26 `several` scenarios added",
    "important-temp-elsewhere": "C09 and C10 also write on another file system",
    "file-error-shared-message": "C11 `kept` scenario added",
    "preferences-string-shared": "C06 `held_references` scenario added",
    "rtti-reinterpret": "C17 classes with further bases added",
    "write-stale-errno": "C09, C11 and C14 leave errno values behind before each call",
    "read-stale-errno": "the same",
    "important-bare-name": "C10 also writes by relative names",
    "logger-per-thread": "the `hop` build added: cases move between threads",
    "strcat-size-narrow": "C07 and C08 `long_arguments` and `gigabytes` scenarios added",
}
rows = ["| change | property | needs | caught |", "|---|---|---|---|"]
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, "meta.json")))
    note = "yes" + (f" (missed at first: {MISSED[d]})" if d in MISSED else "")
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {note} |")
a, b = "<!-- generated: seeds -->\n", "<!-- end seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
