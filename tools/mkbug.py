"""Development helper: mk(id, prop, needs, breaks, [(file, old, new)...], demo_cpp) writes seeded/<id>/."""
import json, os, subprocess, tempfile, shutil
DEMO_SH = r'''#!/bin/bash
# Builds demo.cpp (beside this script) against the repository in the current directory and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
clang++-14 -std=c++17 -O0 -w -D_GNU_SOURCE %DEFS% -I$R/include -I$R/_build/include -I$R/external/json/include -I/usr/lib/llvm-14/include "$D/demo.cpp" -o $T/demo -fuse-ld=lld \
  -Wl,--start-group $(find $R/_build/lib -name 'libphasar*.a' ! -name '*clang*') -Wl,--end-group -L/usr/lib/llvm-14/lib -lLLVM-14 -lpthread -ldl -lsqlite3 -lz3 > $T/log 2>&1 || { tail -20 $T/log; rm -rf "$T"; exit 98; }
cd $T && timeout 120 ./demo; rc=$?
cd /; case "$T" in /tmp/demo.*) rm -rf "$T";; esac
exit $rc
'''
def mk(id, prop, needs, breaks, edits, demo, defs="", demo_sh=None):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); patch = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(f"/repo/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        for side, txt in (("a", open(f"/repo/{f}").read()), ("b", s)):
            p = f"{t}/{side}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True)
    open(f"{d}/patch.diff", "w").write(r.stdout); shutil.rmtree(t)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{d}/patch.diff"], check=True)
    open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(demo_sh or DEMO_SH.replace("%DEFS%", defs)); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    print("made", id)
