#!/usr/bin/env python3
"""newbug.py ID PROP FILE < spec: writes seeded/ID from a spec
NEEDS: ...
BREAKS: ...
@@@ file
old text
===
new text
(more @@@ blocks)
@@@ demo
Go test body (func TestDemo(t *testing.T) {...} plus imports)
"""
import sys, os, subprocess, json, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, prop = sys.argv[1:3]
spec = sys.stdin.read()
d = os.path.join(root, "seeded", bid)
os.makedirs(d, exist_ok=True)
head, *blocks = re.split(r"^@@@ ", spec, flags=re.M)
needs = re.search(r"NEEDS: (.*?)(?=^BREAKS:|\Z)", head, re.S | re.M).group(1).strip()
breaks = re.search(r"BREAKS: (.*)", head, re.S).group(1).strip()
import tempfile
W = tempfile.mkdtemp() + "/w"
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W], check=True)
first = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
try:
    for b in blocks:
        name, body = b.split("\n", 1)
        if name == "demo":
            open(os.path.join(d, "demo_test.go"), "w").write(body)
            continue
        old, new = body.split("\n===\n")
        new = new.rstrip("\n"); old = old.rstrip("\n")
        s = open(W + "/" + name).read()
        assert s.count(old) == 1, (name, s.count(old), old)
        open(W + "/" + name, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout)
    orig = 0
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?|^--- a/(.*)$", subprocess.run(["git", "-C", W, "diff", "-U0"], capture_output=True, text=True).stdout, re.M):
        if m.group(3):
            name = m.group(3)
        elif m.group(2) != "0":
            a, n = int(m.group(1)), int(m.group(2) or 1)
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", f"{a},+{n}", "HEAD", "--", name], capture_output=True, text=True).stdout
            orig += sum(l.lstrip("^").startswith(first[:30]) for l in b.splitlines())
    print(f"{bid}: changes {orig} lines of the original")
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W])
    os.rmdir(os.path.dirname(W))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# Runs demo_test.go (beside this file) against the tree in the current directory.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$repo/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
export DEMO_TMP=$tmp
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' .
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
