#!/usr/bin/env python3
"""mkplant.py SPEC.py : each entry of PLANTS (id, property, needs, breaks, edits [(file, old, new)], demo) becomes seeded/<id>/"""
import json, os, subprocess, sys
M = "/tmp/plant"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for P in ns["PLANTS"]:
    if only and P["id"] not in only:
        continue
    subprocess.run(["git", "-C", M, "checkout", "-q", "--", "."], check=True)
    subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (M, M), shell=True, check=True)
    for f, a, b in P["edits"]:
        s = open(M + "/" + f).read()
        assert s.count(a) == 1, (P["id"], f, s.count(a), a)
        open(M + "/" + f, "w").write(s.replace(a, b))
    d = "/verif/seeded/" + P["id"]
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", M, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", M, "checkout", "-q", "--", "."], check=True)
    json.dump({"property": P["property"], "needs": P["needs"], "what_it_breaks": P["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "py" in P:
        open(d + "/demo.py", "w").write('import sys\nsys.path[:0] = ["/repo/components/python", "/repo/_build/components/wrapper"]\n' + P["py"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n')
    elif "cc" in P:
        open(d + "/demo.cc", "w").write(P["cc"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds and runs demo.cc against the libraries of /repo/_build
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -O0 -w -DFMT_HEADER_ONLY=1 -I /repo/components/core -I /repo/components/runtime \\
  $(grep -o '\\-isystem [^ ]*\\|-I[^ ]*' /repo/_build/build.ninja | sort -u | tr '\\n' ' ') "$(dirname "$0")/demo.cc" -o "$W/demo" \\
  $(find /repo/_build -name 'libw*core*.a' | head -1) -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl*.a) -Wl,--end-group -lpthread || exit 3
"$W/demo"
''')
    os.chmod(d + "/demo.sh", 0o755)
    print(P["id"], len(diff))
