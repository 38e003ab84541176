#!/bin/bash
# Build every explorer once, so that a later check only rebuilds what changed.
cd "$(dirname "$0")" || exit 1
exec python3 -c 'import check
todo = {}
for s in check.SPEC.values():
    for prof, _ in check.passes(s): todo.setdefault((s.get("crate", "mc"), prof), set()).add(s["bin"])
for (c, prof), b in todo.items(): print(check.build(c, sorted(b), prof))'
