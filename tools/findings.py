#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known_findings.txt from the fix: commits of /repo; the property of each is given here."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = dict(P01="88f6def 4ee28c2 e55b5f9 738bb7e f526f7a 24001bb ee65e43 ead8383 fd3a2ec 01cbe57", P02="19f0a54 37ebecb ef82afe", P03="f92d51b fcfe981",
           P04="d947a3a", P05="3c7906d 005990b", P07="e7d4448 81fe58e 275c8a1", P08="5aa725d 7ccc8f9 287dae9 a922cae b7860b7", P09="5afc710 222cd02", P25="4153c0d",
           P10="cdc1aff fc83020", P11="811a1b6 fa43bb7 7bde982", P12="e33e3ad 4663808 7e7b841 d7241e2 86dfee9", P13="b385ac5 2e57201 1bf7077", P14="cb87b62 3f7535d", P15="793bcf9 643b741 c875164 3722421", P16="ae0cd6b 9df189b 4ce3397",
           P18="a3c2beb ceaf98e 9d5d457 8561f63 585636b 6d2ebbb 897733e", P19="aeda163 87ee6a3 7edd8a6 3060dbe c0df284 9d1616a c7f8809", P20="5b03539 de05cfb dfdf0bc 4fbf28e", P24="3ba8d70 2b05bb4 3ce61bc", P21="c356145 7463687 ef2abc6 3412d01 59f581b 8c6e133 fc2fdcf",
           P22="1a2098d 0abc10e 84c5925 79e0f4b b2da4ca")
prop = {c: p for p, cs in MAP.items() for c in cs.split()}
out = ["# Genuine defects of cesanta/mjs found by the checks.",
       "# fixed: property=<id> <commit> <what failed>      (repaired in /repo; suppresses nothing)",
       "# finding: property=<id> <what fails>              (recorded, not repaired)"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        out.append("fixed: property=%s %s was not the case: %s" % (prop[h], h, s[5:]))
extra = os.path.join(HERE, "findings.extra")
if os.path.exists(extra):
    out += open(extra).read().splitlines()
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
