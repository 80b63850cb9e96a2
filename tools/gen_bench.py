#!/usr/bin/env python3
"""Writes harness/c50/files.go from the benchmarks of /repo, with fewer rows per INSERT shorter strings and no normal distribution."""
import os, re, subprocess, sys
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
out = "package c50\n\n// files are the benchmarks of the repository, with 2 instead of 1000 or 5000 rows per INSERT,\n// strings of 1 letter and no normal distribution.\nvar files = map[string]string{\n"
for d, _, fs in sorted(os.walk(repo + "/benchmarks")):
    for f in sorted(fs):
        p = os.path.join(d, f)
        s = re.sub(r"!csv [15]000", "!csv 2", open(p).read())
        s = re.sub(r"len: \d+", "len: 1", s)
        s = s.replace("dist: normal", "dist: uniform")
        q = "`" + s.replace("`", '` + "`" + `') + "`"
        out += '\t"%s": %s,\n' % (os.path.relpath(p, repo + "/benchmarks"), q)
out += "}\n"
p = os.path.dirname(os.path.abspath(__file__)) + "/../harness/c50/files.go"
open(p, "w").write(out)
subprocess.run(["gofmt", "-w", p], check=True)
