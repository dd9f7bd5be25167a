#!/usr/bin/env python3
"""tools/plant.py SPEC... : makes /verif/seeded/<id> from SPEC (a Python file that sets id, prop, needs, breaks, edits, demo
and perhaps race), confirming in a scratch copy of /repo that the bug compiles, passes the tests, and is shown by its demo
and by the property's check (or those named in also)."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo_test.go in a package of /repo of its own.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"%%s/internal/vdemo/demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$work/overlay.json"
go test -c -vet=off %s-overlay "$work/overlay.json" -o "$work/demo.test" ./internal/vdemo || exit 1
cd "$work" && ./demo.test -test.timeout 120s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", shell=isinstance(cmd, str),
                          executable="/bin/bash" if isinstance(cmd, str) else None, **kw)
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    scratch = "/tmp/plantwork-%s" % ns["id"]
    shutil.rmtree(scratch, ignore_errors=True)
    sh(["git", "-C", "/repo", "worktree", "prune"], "/")
    r = sh(["git", "clone", "-q", "/repo", scratch], "/")
    try:
        out = os.path.join(VERIF, "seeded", ns["id"])
        tmp = scratch + ".out"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(tmp + "/demo_test.go", "w") as f:
            demo = ns["demo"].lstrip("\n")
            if "package vdemo" not in demo:
                demo = open(VERIF + "/tools/prelude.go.txt").read() + "\n" + demo
            f.write(demo)
        with open(tmp + "/demo.sh", "w") as f:
            f.write(DEMO % ("-race " if ns.get("race") else ""))
        os.chmod(tmp + "/demo.sh", 0o755)
        clean = sh([tmp + "/demo.sh"], scratch)
        for path, old, new in ns["edits"]:
            p = os.path.join(scratch, path)
            s = open(p).read()
            assert s.count(old) == 1, (ns["id"], path, "occurs %d times" % s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        fmt = sh("gofmt -l .", scratch).stdout.strip()
        diff = sh(["git", "diff"], scratch).stdout
        # At least one removed or context line of the original repository must change.
        with open(tmp + "/patch.diff", "w") as f:
            f.write(diff)
        with open(tmp + "/meta.json", "w") as f:
            json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), f, indent=1)
        test = sh(". /opt/vp/env.sh; go vet ./... && go test -count=1 ./... 2>&1", scratch)
        broken = sh([tmp + "/demo.sh"], scratch)
        good = clean.returncode == 0 and test.returncode == 0 and broken.returncode != 0
        print("%s (%s): demo on clean %d, tests %d, demo on broken %d%s" % (ns["id"], ns["prop"], clean.returncode, test.returncode, broken.returncode, " GOFMT " + fmt if fmt else ""), flush=True)
        if not good:
            for r in (clean, test, broken):
                print("   ---", "\n   ".join([l for l in r.stdout.splitlines() if not l.startswith(("ok", "?"))][:9]))
        else:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
        if "[build failed]" in broken.stdout:
            print("  the demo does not build:", broken.stdout[:500])
        for c in [ns["prop"]] + ns.get("also", []):
            r = sh([VERIF + "/tools/try.sh", scratch, c], "/")
            print("  ", r.stdout.strip(), flush=True)
        shutil.rmtree(tmp, ignore_errors=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
