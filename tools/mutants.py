#!/usr/bin/env python3
"""tools/mutants.py survive OUT [FILE...]: appends to OUT the mutations (see tools/mutate) of the repository's files that compile
and pass its tests.
tools/mutants.py check OUT RESULT [PROP...]: runs the checks against the mutations in OUT, appending which of them fire to RESULT.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check
REPO = "/repo"
CACHE = "/tmp/mutcache"
ENV = check.go_env()
ENV["GOCACHE"] = CACHE
ENV["GOFLAGS"] = ""
WORKERS = int(os.environ.get("MUT_WORKERS", "4"))

def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen("ulimit -v 12000000; " + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=True,
                         executable="/bin/bash", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""

def mutated(m):
    with open(os.path.join(REPO, m["file"])) as f:
        s = f.read()
    b = s.encode()
    return (b[:m["start"]] + m["new"].encode() + b[m["end"]:]).decode()

def survive(m):
    work = tempfile.mkdtemp(prefix="mut-")
    try:
        path = os.path.join(work, "m.go")
        with open(path, "w") as f:
            f.write(mutated(m))
        with open(os.path.join(work, "o.json"), "w") as f:
            json.dump({"Replace": {os.path.join(REPO, m["file"]): path}}, f)
        rc, _ = sh("go build -overlay %s/o.json ./... && go test -vet=off -overlay %s/o.json -count=1 -timeout 20s ./..." % (work, work), REPO, 90)
        return rc == 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run_survive(out, files):
    files = files or subprocess.run("git ls-files '*.go' | grep -v _test", shell=True, cwd=REPO, stdout=subprocess.PIPE, text=True).stdout.split()
    done = 0
    for file in files:
        ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate", os.path.join(REPO, file)], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        for m in ms:
            m["file"] = file
        if os.environ.get("MUT_SWAPS") is None:
            ms = [m for m in ms if not m["what"].startswith("swap ")]
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            n = 0
            for m, ok in zip(ms, ex.map(survive, ms)):
                if ok:
                    n += 1
                    with open(out, "a") as f:
                        f.write(json.dumps(m) + "\n")
        print(file, len(ms), n, flush=True)

def probe(m, props, scale):
    """The properties whose checks fire."""
    work = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git"))
        with open(os.path.join(repo, m["file"]), "w") as f:
            f.write(mutated(m))
        check.REPO = repo
        try:
            binary = check.build(work, 1, "quick", False)
        except SystemExit:
            return dict(build="failed")
        fired = {}
        def one(prop):
            out = os.path.join(work, prop + ".json")
            env = dict(os.environ, VERIF_PROP=prop, VERIF_OUT=out, VERIF_CUR=os.path.join(work, prop + ".cur"),
                       VERIF_SHARD_SEED="12345", VERIF_CASES=str(int(check.CASES[prop][0] * scale)), VERIF_SHARD="0", VERIF_NOSHRINK="1")
            rc, log = sh("exec %s -test.run '^TestCheck$' -test.timeout 0" % binary, work, 300, env)
            try:
                r = json.load(open(out))
            except (OSError, ValueError):
                return prop, "crash %d" % rc
            if r["failed"]:
                return prop, (r["mismatches"] or [{}])[0].get("detail", "?")[:160]
            if not r["done"]:
                return prop, "hang %d" % rc
            return prop, None
        # Until one fires.
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futures = [ex.submit(one, prop) for prop in props]
            for f in concurrent.futures.as_completed(futures):
                if f.cancelled():
                    continue
                prop, what = f.result()
                if what is not None:
                    fired[prop] = what
                    if not os.environ.get("MUT_ALL"):
                        for g in futures:
                            g.cancel()
                        subprocess.run(["pkill", "-f", binary])
                        break
        return fired
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run_check(src, result, props):
    every = ["C03", "C16", "C22", "C21", "C14", "C23", "C04", "C09", "C08", "C06", "C12", "C07", "C17", "C18", "C19", "C20", "C10", "C11", "C02", "C01", "C05", "C13"]
    seen = set()
    if os.path.exists(result):
        seen = {json.dumps(json.loads(l)["m"], sort_keys=True) for l in open(result)}
    for l in open(src):
        m = json.loads(l)
        if json.dumps(m, sort_keys=True) in seen or m["what"].startswith("swap ") and os.environ.get("MUT_SWAPS") is None:
            continue
        order = props or (["C14", "C04", "C23", "C03", "C01", "C09", "C13"] if "/index/" in m["file"] else every)
        fired = probe(m, order, float(os.environ.get("MUT_SCALE", "1")))
        with open(result, "a") as f:
            f.write(json.dumps(dict(m=m, fired=fired)) + "\n")
        print("%s:%d %s: %s" % (m["file"], m["line"], m["what"].replace("\n", " ")[:90], " ".join(fired) or "NONE"), flush=True)

if sys.argv[1] == "survive":
    run_survive(sys.argv[2], sys.argv[3:])
else:
    run_check(sys.argv[2], sys.argv[3], sys.argv[4:])
