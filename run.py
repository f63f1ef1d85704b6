#!/usr/bin/env python3
"""Runs one check: builds the harness against /repo's working tree, runs the
property, writes the evidence file and, on a violation, a replay file.

  run.py ID [quick|thorough]     decide property ID (exit 0, 1 = violation, 2 = error)
  run.py ID --replay FILE        run one saved case again
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
# property -> [(program, variant of the build)]
PROGRAMS = {"C11": [("codec", "race")], "G10": [("gen", ""), ("gen", "race")]}
ALL = [("codec", ""), ("codec", "race"), ("codec", "386"), ("codec", "asan"), ("gen", ""), ("gen", "race")]
ASAN = ("C05", "C06", "C07", "C13") # memory accesses outside of objects
TOOLCHAINS = ["go1.23.12", "go1.24.13", "go1.25.14"] # 1.23: before swiss maps


def programs(pid, tier):
    """the first one is the main run; 386, the address sanitizer and older
    toolchains repeat the quick suites, with other seeds"""
    p = PROGRAMS.get(pid, [("codec" if pid[0] == "C" else "gen", "")])
    if p == [("codec", "")]:
        p = p + [("codec", "386")] + ([("codec", "asan")] if pid in ASAN or tier == "thorough" else []) + ([("codec", g) for g in TOOLCHAINS] if tier == "thorough" else [])
    return p


def repeats(variant):
    return variant in ("386", "asan") or variant in TOOLCHAINS


def runenv(pid, variant):
    e = goenv(variant)
    if pid in ("C06", "C07", "C17"):
        e["GODEBUG"] = "clobberfree=1"
    if variant == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=66:abort_on_error=0"
    if variant == "386": # 4 GB of address space
        e["GOMAXPROCS"] = "3"
        e["GOMEMLIMIT"] = "1500MiB"
    return e


def goenv(variant=""):
    go = "/opt/veriftools/" + (variant if variant in TOOLCHAINS else "go1.27.3")
    mod = os.environ.get("VERIF_MODFILE") or (os.path.join(HARNESS, "go1.23.mod") if variant in TOOLCHAINS else "")
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO") or k in ("GOMAXPROCS",)}
    e.update({
        "HOME": "/root", "GOROOT": go, "GOTOOLCHAIN": "local",
        "PATH": go + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=readonly" + (" -modfile=" + mod if mod else ""), "GOWORK": "off",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
        "GORACE": "halt_on_error=1 exitcode=66", "GOTRACEBACK": "all",
        "VERIF_DIR": HERE,
    })
    if variant == "386":
        e["GOARCH"] = "386"
    return e


def error(msg, out=""):
    sys.stdout.write(out[-6000:])
    print("ERROR: " + msg)
    sys.exit(2)


def build(prog, variant, dst):
    cgo = variant in ("race", "asan")
    cmd = ["go", "build"] + (["-" + variant, "-gcflags=all=-d=checkptr=0"] if cgo else []) + ["-o", dst, "./cmd/" + prog]
    env = goenv(variant)
    env["CGO_ENABLED"] = "1" if cgo else "0"
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        error("build of %s %s failed" % (prog, variant), p.stdout)


def run(cmd, log, timeout, watch=None):
    """returns (returncode, None on timeout, or "stall" when the journal at
    watch did not change for STALL seconds; and the time it took)"""
    t0 = time.time()
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=HARNESS, env=ENV, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        last, since = None, t0
        while True:
            left = t0 + timeout - time.time()
            try:
                rc = p.wait(max(0.01, min(left, 10) if watch else left))
                break
            except subprocess.TimeoutExpired:
                rc = None
            if left <= 10 and time.time() > t0 + timeout:
                break
            if watch:
                try:
                    now = open(watch, "rb").read()
                except OSError:
                    now = None
                if now != last:
                    last, since = now, time.time()
                elif time.time() - since > STALL:
                    rc = "stall"
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    return rc, time.time() - t0


def tail(path, n=6000):
    try:
        s = open(path, errors="replace").read()
    except OSError:
        return ""
    if len(s) > n:
        s = s[: n // 2] + "\n...\n" + s[-n // 2:]
    return s


# far more than the watchdog inside the process needs to report a case that does
# not end: the process itself is damaged
STALL = 200
CRASH = re.compile(r"^(fatal error:|panic:|SIG[A-Z]+:|unexpected fault address|runtime:|WARNING: DATA RACE|==\d+==ERROR: AddressSanitizer|checkptr|.*\bcheckptr:).*$", re.M)


def crash_text(log):
    s = open(log, errors="replace").read()
    m = CRASH.search(s)
    if not m:
        return None, s
    return m.group(0)[:300], s


def journal(out):
    """the cases that were running when the process died"""
    res = []
    try:
        raw = open(os.path.join(out, "journal"), "rb").read().decode("utf-8", "replace")
    except OSError:
        return res
    for line in raw.split("\n"):
        line = line.strip("\0 ")
        if not line:
            continue
        name, _, idx = line.rpartition(" ")
        try:
            idx = int(idx)
        except ValueError:
            continue
        if idx >= 0 and name:
            res.append((name, idx))
    return res


def attribute(pid, prog, binary, out, scratch, seed, tier, log, stalled=False):
    """The child died: find the case that kills it and shrink its choices.
    A child that stalled: find the case that stalls, fails or dies on its own."""
    msg, text = crash_text(log)
    msg = msg or ("the process hangs" if stalled else "the process died")
    cases = journal(out)
    base = {"property": pid, "program": prog, "seed": seed, "kind": "crash", "message": msg, "stack": tail(log, 12000), "choices": None}
    n = 0

    def attempt(args):
        nonlocal n
        n += 1
        o = os.path.join(scratch, "a%d" % n)
        os.mkdir(o)
        l = os.path.join(o, "log")
        rc, _ = run([binary, "-prop", pid, "-tier", tier, "-seed", str(seed), "-out", o] + args, l, 45 if stalled else 120)
        died = rc is not None and rc not in (0, 1)
        m = crash_text(l)[0] if died else None
        if stalled and (rc is None or rc == 1):
            return True, "the case does not end" if rc is None else "the case fails", o, l
        return died and m is not None and rc != -signal.SIGKILL, m, o, l

    for name, idx in cases:
        died, m, o, l = attempt(["-suite", name, "-case", str(idx)])
        if not died:
            continue
        v = dict(base, suite=name, index=idx, message=m, stack=tail(l, 12000))
        try:
            ch = [int(x) for x in open(os.path.join(o, "choices"))]
        except (OSError, ValueError):
            ch = None
        if ch:
            best, runs, deadline = ch, 0, time.time() + 60
            f = os.path.join(scratch, "try.json")

            def dies(c):
                nonlocal runs
                if time.time() > deadline:
                    return False
                runs += 1
                json.dump(dict(v, choices=c), open(f, "w"))
                return attempt(["-replay", f])[0]

            if dies(best):
                k = max(1, len(best) // 2)
                while k >= 1:
                    i = len(best) - k
                    while i >= 0:
                        c = best[:i] + best[i + k:]
                        if c != best and dies(c):
                            best = c
                        i -= k
                    k //= 2
                for i in range(len(best)):
                    if best[i] and dies(best[:i] + [0] + best[i + 1:]):
                        best = best[:i] + [0] + best[i + 1:]
                v["choices"] = best
                v["shrink_runs"] = runs
        return v
    if not cases or stalled:
        return None
    # it needs what ran before or concurrently: replay repeats the whole suite
    return dict(base, suite=cases[0][0], index=-1, case=["running: " + ", ".join("%s %d" % c for c in cases)])


def violation(pid, prog, variant, v, tier):
    v = dict(v, property=pid, program=prog, variant=variant, tier=tier)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, v.get("suite", "x"), v.get("seed", 0)))
    json.dump(v, open(path, "w"), indent=1)
    print("%s: %s" % (v.get("kind"), str(v.get("message"))[:3000]))
    for c in (v.get("case") or [])[:20]:
        print("  " + c[:2000])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    return path


ENV = None


def main():
    global ENV
    pid = sys.argv[1]
    if pid == "setup": # fills the build cache
        scratch = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for prog, variant in ALL:
                build(prog, variant, os.path.join(scratch, prog))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return
    args = sys.argv[2:]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    tier = next((a for a in args if a in ("quick", "thorough")), os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        sys.exit(work(pid, replay, tier, seed, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def work(pid, replay, tier, seed, scratch):
    t0 = time.time()
    limit = 780 if tier == "quick" else 4 * 3600
    global ENV
    suites, notes, others = [], {}, []
    if replay:
        v = json.load(open(replay))
        prog, variant = v.get("program") or programs(pid, tier)[0][0], v.get("variant", "")
        binary = os.path.join(scratch, prog)
        build(prog, variant, binary)
        ENV = runenv(pid, variant)
        out = os.path.join(scratch, "out")
        os.mkdir(out)
        log = os.path.join(scratch, "log")
        cmd = [binary, "-prop", pid, "-out", out]
        if v.get("index", 0) == -1:
            cmd += ["-suite", v["suite"], "-seed", str(v["seed"]), "-tier", v.get("tier", tier)]
        else:
            cmd += ["-replay", os.path.abspath(replay)]
        rc, _ = run(cmd, log, limit)
        print(tail(log, 8000))
        if rc == 0:
            return 0
        if rc == 1 or crash_text(log)[0]:
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(replay)))
            return 1
        return 2
    for prog, variant in programs(pid, tier):
        binary = os.path.join(scratch, prog + ("-" + variant if variant else ""))
        build(prog, variant, binary)
        ENV = runenv(pid, variant)
        out = os.path.join(scratch, "out-" + os.path.basename(binary))
        os.mkdir(out)
        log = os.path.join(scratch, "log-" + os.path.basename(binary))
        rtier, rseed, more = tier, seed, []
        if repeats(variant):
            rtier, rseed, more = "quick", seed + (2000 if variant == "asan" else 1000), ["-scale", "0.1" if tier == "quick" else "1"]
        try:
            rc, _ = run([binary, "-prop", pid, "-tier", rtier, "-seed", str(rseed), "-out", out] + more, log, max(60, limit - (time.time() - t0)), os.path.join(out, "journal") if prog == "codec" else None)
        except OSError as e:
            if not repeats(variant):
                raise
            notes[variant] = "does not run here: %s" % e # a kernel without 32-bit programs
            continue
        res = os.path.join(out, "result.json")
        vio = os.path.join(out, "violation.json")
        if rc == 0 and os.path.exists(res):
            r = json.load(open(res))
            if repeats(variant):
                others.append({"variant": variant, "evaluations": sum(x["Evals"] for x in r["suites"]), "suites": {x["Name"]: x["Evals"] for x in r["suites"]}})
                continue
            suites += r["suites"]
            notes.update(r.get("notes") or {})
            sys.stdout.write(open(log, errors="replace").read())
            continue
        if rc == 1 and os.path.exists(vio):
            violation(pid, prog, variant, json.load(open(vio)), rtier)
            return 1
        if rc == "stall":
            v = attribute(pid, prog, binary, out, scratch, rseed, rtier, log, True)
            if v is None:
                error("no progress for %d s" % STALL, tail(log))
            violation(pid, prog, variant, v, rtier)
            return 1
        if rc is None:
            error("no result within %d s" % limit, tail(log))
        if rc == -signal.SIGKILL:
            error("the process was killed (memory?)", tail(log))
        if rc == 3:
            error("harness error", tail(log))
        v = None
        if crash_text(log)[0]:
            v = attribute(pid, prog, binary, out, scratch, rseed, rtier, log)
        if v is None:
            error("unexpected end of the check (exit %s)" % rc, tail(log))
        violation(pid, prog, variant, v, rtier)
        return 1
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["Evals"] for s in suites),
            "distinct_nontrivial": sum(s["Distinct"] for s in suites),
            "rule": " | ".join("%s: %s" % (s["Name"], s["Rule"]) for s in suites),
            "samples": [x for s in suites for x in ["[%s] %s" % (s["Name"], y) for y in (s["Samples"] or [])]],
            "suites": [{k: s[k] for k in ("Name", "Evals", "Skipped", "NonTrivial", "Distinct", "Labels", "WallS")} for s in suites],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": 0,
    }
    if others:
        ev["coverage"]["other_builds"] = others
    if notes:
        ev["coverage"]["notes"] = notes
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    return 0


ASSUME = [
    "the reference implementation google.golang.org/protobuf v1.36.11 is right about the protobuf wire format and its code generation conventions",
    "generated-input search: the property is shown on the inputs that were generated, not on all",
]

if __name__ == "__main__":
    main()
