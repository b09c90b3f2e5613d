"""Appends the `fixed:` entries to known-findings.txt from the fix commits of /repo."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.split(" ", 1) for l in open(os.path.join(V, "tools/fixes.txt")).read().splitlines() if l.strip()]
log = dict(l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
head = [l for l in open(os.path.join(V, "known-findings.txt")) if not l.startswith("fixed:")]
out = []
for prop, subj in MAP:
    hs = [h for h, s in log.items() if s.startswith("fix: " + subj)]
    assert len(hs) == 1, (subj, hs)
    out.append("fixed: property=%s %s %s\n" % (prop, hs[0], log[hs[0]][5:]))
left = {h: s for h, s in log.items() if s.startswith("fix:") and not any(h in o for o in out)}
assert not left, left
open(os.path.join(V, "known-findings.txt"), "w").writelines(head + out)
print(len(out))
