#!/usr/bin/env python3
"""check.py <property> [replay file]: decides a property by generated cases.

Exit 0: held on everything explored.  Exit 1 after "VIOLATION property=<id> replay=<path>".
Anything else is an error of the check.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
sys.stdout.reconfigure(encoding="utf-8", errors="replace")

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.environ.get("VERIF_OUTDIR", VERIF)
SHARDS = 8
# Concurrent cases need processors of their own.
CONC_SHARDS = 3

# Cases per shard: quick, thorough.
CASES = json.load(open(os.path.join(VERIF, "cases.json")))


def plain(text):
    """The text without control characters."""
    return "".join(c if c.isprintable() or c in "\n\t" else "\ufffd" for c in text)

def die(message):
    """Ends with an error of the check, as opposed to a violation."""
    print(message, file=sys.stderr)
    raise SystemExit(3)


def go_env():
    env = dict(os.environ)
    for tool in ("/opt/veriftools/go1.25.14/bin",):
        if os.path.isdir(tool):
            env["PATH"] = tool + ":" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOENV="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
               GOSUMDB="off")
    return env


def build(work, seed, tier, race):
    """Builds the harness against the working tree."""
    mod = os.path.join(work, "go.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    with open(mod, "a") as f:
        f.write("\nrequire pgregory.net/rapid v1.3.0\n")
    with open(os.path.join(work, "go.sum"), "w") as out:
        for path in (os.path.join(REPO, "go.sum"), os.path.join(HARNESS, "rapid.sum")):
            with open(path) as f:
                out.write(f.read())
    replace = {}
    target = os.path.join(REPO, "internal", "verifharness")
    for name in sorted(os.listdir(HARNESS)):
        if name.endswith("_test.go"):
            replace[os.path.join(target, name)] = os.path.join(HARNESS, name)
    gen = os.path.join(HARNESS, "gen_types.py")
    if os.path.exists(gen):
        path = os.path.join(work, "types_gen_test.go")
        subprocess.run([sys.executable, gen, str(seed), tier, path], check=True)
        replace[os.path.join(target, "types_gen_test.go")] = path
    overlay = os.path.join(work, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": replace}, f)
    binary = os.path.join(work, "harness.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay, "-modfile", mod, "-o", binary]
    if race:
        cmd.append("-race")
    cmd.append("./internal/verifharness")
    p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(binary):
        print(p.stdout)
        die("check.py: the harness does not build")
    return binary


class Shard:
    def __init__(self, work, binary, prop, name, env):
        self.out = os.path.join(work, name + ".out.json")
        self.cur = os.path.join(work, name + ".cur.json")
        self.log = os.path.join(work, name + ".log")
        e = dict(os.environ)
        e.update(VERIF_PROP=prop, VERIF_OUT=self.out, VERIF_CUR=self.cur, GORACE="halt_on_error=1 exitcode=66")
        e.update(env)
        with open(self.log, "w") as log:
            self.p = subprocess.Popen([binary, "-test.run", "^TestCheck$", "-test.timeout", "0"], cwd=work, env=e,
                                      stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                                      start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def others(self):
        """The mismatches that do not concern the property, if they were asked for."""
        with open(self.log, errors="replace") as f:
            return [plain(l) for l in f.read().split("\n") if l.startswith(("other mismatch", "{"))]

    def tail(self, n=4000):
        with open(self.log, errors="replace") as f:
            return f.read()[-n:]

    def head(self, n=3000):
        with open(self.log, errors="replace") as f:
            return f.read(n)


def write_replay(prop, seed, tier, case, mismatches):
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join(OUT, "replays", prop + ".json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, case=case, mismatches=mismatches), f, indent=1)
    return path


def confirm(work, binary, prop, case, limit):
    """Runs a case that ended a process, or did not end, in fresh processes; returns what happened."""
    path = os.path.join(work, "suspect.json")
    with open(path, "w") as f:
        json.dump(dict(case=case), f)
    for i in range(3):
        s = Shard(work, binary, prop, "confirm%d" % i, dict(VERIF_REPLAY=path))
        try:
            s.p.wait(limit)
        except subprocess.TimeoutExpired:
            s.kill()
            return [dict(kind="hang", props=["*"], detail="the case does not end")]
        res = s.result()
        if res is None:
            return [dict(kind="crash", props=["*"], detail=s.head())]
        if os.environ.get("VERIF_TRACE"):
            print(s.head(100000))
        if res["failed"]:
            return res["mismatches"]
    return None


def main():
    prop = sys.argv[1]
    if prop == "--warm":
        work = tempfile.mkdtemp(prefix="verif-warm-")
        try:
            build(work, 1, "quick", False)
            build(work, 1, "quick", True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = sys.argv[2] if len(sys.argv) > 2 else None
    if replay:
        with open(replay) as f:
            saved = json.load(f)
        seed, tier = saved.get("seed", seed), saved.get("tier", tier)
    start = time.time()
    race = prop == "C15"
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    shards = []
    try:
        binary = build(work, seed, tier, race)
        built = time.time() - start
        if replay:
            mismatches = confirm(work, binary, prop, saved["case"], 300)
            for m in mismatches or []:
                print(plain("%s: %s" % (m["kind"], m["detail"])))
            if mismatches:
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
            print("property %s holds on %s" % (prop, replay))
            return 0
        cases = CASES[prop][0 if tier == "quick" else 1]
        for i in range(CONC_SHARDS if race else SHARDS):
            # Seeds of shards are far apart, as rapid counts up from them.
            shard_seed = ((seed * 1000003 + i * 7919 + 17) * 2654435761) % (1 << 62) + 1
            shards.append(Shard(work, binary, prop, "shard%d" % i,
                                dict(VERIF_SHARD_SEED=str(shard_seed), VERIF_CASES=str(cases), VERIF_SHARD=str(i))))
        # A case takes milliseconds, so one that makes no progress for long is suspect.
        stuck = int(os.environ.get("VERIF_STUCK", "90"))
        suspect = None
        progress = {}
        pending = list(shards)
        while pending and suspect is None:
            time.sleep(0.05)
            now = time.time()
            for s in list(pending):
                if s.p.poll() is not None:
                    pending.remove(s)
                    res = s.result()
                    if res and res["failed"]:
                        pass
                    elif res is None or not res["done"] or res.get("error"):
                        suspect = (s, "ended")
                    continue
                try:
                    mark = (os.stat(s.cur).st_mtime_ns, os.stat(s.cur).st_size)
                except OSError:
                    mark = None
                if progress.get(s, (None,))[0] != mark:
                    progress[s] = (mark, now)
                elif mark is not None and now - progress[s][1] > stuck:
                    res = s.result()
                    if not (res and res["failed"]):
                        suspect = (s, "stuck")
                    s.kill()
            failed = [s for s in shards if (s.result() or {}).get("failed")]
            if failed and pending:
                # Let the failing shards shrink; the others need not go on.
                for s in pending:
                    if s not in failed:
                        s.kill()
                        shards.remove(s)
                pending = [s for s in pending if s in failed]
        if suspect:
            s, how = suspect
            for x in shards:
                x.kill()
            failed = [x for x in shards if (x.result() or {}).get("failed")]
            if not failed:
                res = s.result()
                if res and res.get("error"):
                    print(s.tail())
                    die("check.py: " + res["error"])
                try:
                    with open(s.cur) as f:
                        case = json.load(f)
                except (OSError, ValueError):
                    print(s.tail())
                    die("check.py: a shard ended without a case")
                log = s.head()
                mismatches = confirm(work, binary, prop, case, stuck)
                if mismatches is None and "DATA RACE" in log:
                    mismatches = [dict(kind="race", props=[prop], detail=log)]
                if mismatches is None and ("fatal error: concurrent map" in log):
                    mismatches = [dict(kind="crash", props=[prop], detail=log)]
                if mismatches is None:
                    print(s.tail())
                    die("check.py: a shard %s, but its case passes alone" % how)
                case, mismatches = shrink(work, binary, prop, case, mismatches)
                path = write_replay(prop, seed, tier, case, mismatches)
                evidence(prop, tier, seed, start, shards, 1)
                return violation(prop, path, mismatches)
        failed = [s.result() for s in shards if (s.result() or {}).get("failed")]
        if failed:
            best = min(failed, key=lambda r: len(json.dumps(r["case"])))
            path = write_replay(prop, seed, tier, best["case"], best["mismatches"])
            evidence(prop, tier, seed, start, shards, 1)
            return violation(prop, path, best["mismatches"])
        if os.environ.get("VERIF_DEBUG"):
            for s in shards:
                print("\n".join(s.others()))
        n = evidence(prop, tier, seed, start, shards, 0)
        print("property %s held on %d cases (built in %.1f s, ran %.1f s)" % (prop, n, built, time.time() - start - built))
        return 0
    finally:
        for s in shards:
            if s.p.poll() is None:
                s.kill()
        shutil.rmtree(work, ignore_errors=True)


def shrink(work, binary, prop, case, mismatches, limit=60):
    """Drops elements of the top level lists of a case that ends its process."""
    deadline = time.time() + limit
    if mismatches[0]["kind"] not in ("crash",):
        return case, mismatches
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for key in sorted(case):
            if not isinstance(case[key], list):
                continue
            i = 0
            while i < len(case[key]) and time.time() < deadline:
                smaller = dict(case)
                smaller[key] = case[key][:i] + case[key][i + 1:]
                found = confirm(work, binary, prop, smaller, 60)
                if found:
                    case, mismatches, changed = smaller, found, True
                else:
                    i += 1
    return case, mismatches


def violation(prop, path, mismatches):
    for m in mismatches[:5]:
        print(plain("%s: %s" % (m["kind"], m["detail"])))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def evidence(prop, tier, seed, start, shards, violations):
    results = [r for r in (s.result() for s in shards) if r]
    hashes, classes, samples, n = set(), {}, [], 0
    rule = ""
    for r in results:
        n += r["evaluations"]
        rule = r["rule"]
        hashes.update(r.get("hashes") or [])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        samples += r.get("samples") or []
    samples.sort(key=lambda s: len(json.dumps(s)))
    kept, size = [], 0
    for s in samples:
        size += len(json.dumps(s))
        if size < 12000 and len(kept) < 5:
            kept.append(s)
    doc = dict(property=prop, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=n, distinct_nontrivial=len(hashes), rule=rule, samples=kept,
                             classes=dict(sorted(classes.items())), exhaustive=False),
               assumptions=["the oracle in /verif/harness states what the property requires"],
               wall_s=round(time.time() - start, 2), violations=violations)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    return n


if __name__ == "__main__":
    sys.exit(main())
