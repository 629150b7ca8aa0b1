#!/usr/bin/env python3
"""Lists the fix: commits of /repo in known-findings.txt (property from this table)."""
import subprocess
from pathlib import Path
MAP = dict(l.split() for l in """44158f0 C29
5a18f3d C29
5d0f28c C29
cdad724 C29
6cefd70 C29
2a8c8dd C29
8b19f58 C19
7c2723d C02
0fab6dc C19
1629942 C18
4986da2 C19
7e7740d C18
ae94ef3 C20
59f06bf C02
9e73cb7 C07
a2014a6 C01
40387e8 C07
5b2301c C06
df6380e C24
a494df4 C01
799dce3 C03
b78cbbf C01
0b15cd7 C24
0cd8521 C03
fdf11c7 C18
e19d02b C01
2c548d7 C23
7432852 C09
51bed05 C01
5439438 C01
597acac C01
921865a C01
dedc196 C01
70079a9 C10
c123fd2 C06
e99a48d C03
215ea48 C01
69d23b6 C28
c5453a0 C01
85a8025 C01
6f72319 C01
cd13478 C16
2d5a08f C01
eeb6583 C15
f16df57 C18
323b0a1 C18
a97d992 C01
8fd8c56 C07
56bef1d C16
80be379 C16
cd761d0 C01
5a4f093 C01
343f7c6 C28
e7b0664 C01
b87de59 C30
b963c47 C31
010b0ba C25
e7c1864 C16
cf342cc C29""".splitlines() if l.strip())
extra = Path(__file__).with_name("findings_extra.txt")
out = ["# Genuine defects found in hoche/icbd.",
       "#   known: property=<id> key=<key> -- <what fails>     recorded, not repaired (reported as KNOWN-FINDING)",
       "#   fixed: property=<id> <commit> <what failed>        repaired; suppresses nothing", ""]
if extra.exists():
    out += [l for l in extra.read_text().splitlines() if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, _, s = l.partition(" ")
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s %s" % (MAP[h], h, s[5:]))
Path(__file__).resolve().parent.parent.joinpath("known-findings.txt").write_text("\n".join(out) + "\n")
