"""Rewrites known_findings.json: the open findings below and one entry per 'fix:' commit in /repo."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MAP = {l.split()[0]: l.split()[1] for l in """06a1ba6 C01,C06
f5afd45 C01,C06
ce9cd86 C04
2d11aab C04,C06
f1acb72 C02
fc59398 C16,C06
2ca938d C22
ba7fd5d C09
352ea50 C09
7496dc6 C02,C06
487df85 C05
f1f9bfa C05
21512c5 C05
5066d0e C11
13f5fb1 C09
c084010 C14
9307dee C05
fbfd1f0 C14
1d47444 C11
0a8e514 C14
72fc332 C15
d57fe45 C16
4e73791 C17,C06
9298616 C28
82c3e0f C18
6327742 C18
1d69c63 C18
81d4c52 C17
d816591 C28
0b16a5b C19
1828574 C22
9fc3dab C19
241f7f6 C19,C22
2c4ab8e C22
98268c3 C19,C22
df90e98 C20
04e8728 C20
c644556 C20
c84484e C20
134127f C21
e0d92fa C21
9c44a4d C21
7a7d105 C21
c14ff02 C21
c1528ab C21
905c56c C22
3a93995 C24
c480fd6 C24
acd1826 C24,C25
f617205 C25
849c755 C12,C17
""".splitlines()}
out = [{"property": "C26", "status": "known", "request": "nasref x123456789abcdef0123456789abcdef 1000", "call_site": "impl AsRef<[u32]> for Nat, src/bigint/nat.rs",
        "what": "the &[u32] of Nat::as_ref() dangles after a shallow clone of the number grows (let s = a.as_ref(); let mut b = a.clone(); b <<= 1000; read s): heap-use-after-free"}]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        for p in MAP[h[:7]].split(","):
            out.append({"property": p, "status": "fixed", "commit": h, "what": s[5:], "entry": "fixed: property=%s %s %s" % (p, h, s[5:])})
with open(os.path.join(V, "known_findings.json"), "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in out) + "\n]}\n")
