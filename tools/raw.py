#!/usr/bin/env python3
"""tools/raw.py PROP [SEED [TIER [CASES]]]: runs the shards of a check, printing what they say of other properties too."""
import importlib.util, os, subprocess, sys, tempfile, shutil
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("check", verif + "/check.py")
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
prop, seed = sys.argv[1], int((sys.argv + ["", "1"])[2] or 1) if len(sys.argv) > 2 else 1
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
cases = sys.argv[4] if len(sys.argv) > 4 else str(m.CASES[prop][0 if tier == "quick" else 1])
w = tempfile.mkdtemp(prefix="raw-")
try:
    b = m.build(w, seed, tier, prop == "C15")
    ps = []
    for i in range(m.SHARDS):
        shard_seed = ((seed * 1000003 + i * 7919 + 17) * 2654435761) % (1 << 62) + 1
        e = dict(os.environ, VERIF_DEBUG="1", VERIF_PROP=prop, VERIF_OUT="%s/o%d" % (w, i), VERIF_CUR="%s/c%d" % (w, i),
                 VERIF_SHARD_SEED=str(shard_seed), VERIF_CASES=cases)
        ps.append(subprocess.Popen([b, "-test.run", "^TestCheck$"], env=e, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        out = p.communicate()[0]
        print("\n".join(l for l in out.splitlines() if "[rapid] draw" not in l))
finally:
    shutil.rmtree(w)
