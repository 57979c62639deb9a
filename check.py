#!/usr/bin/env python3
"""Decide one property of bobg/fab by running the code in /repo under a monitor.

usage: check.py PROPERTY [--replay FILE]

Builds the monitor (harness/) against /repo's working tree, in a scratch directory,
runs it in a child process and turns what it observed into a verdict:
exit 0 held, exit 1 with a VIOLATION line, anything else: no verdict.
VERIF_SEED and VERIF_TIER (quick, thorough) come from the environment.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"

# How the monitor of each property is built: with instrumented sources (instr), with the race detector (race) or plain.
MODE = {p: "instr" for p in ("C01", "C03", "C04", "C05", "C24")}
MODE["C06"] = "race"
# Which need the fab command, and which need it instrumented with crash points.
NEED_FAB = {"C10", "C11", "C13", "C17", "C22", "C29", "C30", "C31", "C09", "C08", "C27"}
NEED_FABI = {"C10", "C30"}  # C30's monitor builds its own
LEVEL = {"C10": "fault_enumeration", "C30": "fault_enumeration"}


def environment(work):
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        k, sep, v = kv.partition(b"=")
        if sep:
            env[k.decode()] = v.decode()
    for k in ("GOROOT", "_", "SHLVL", "OLDPWD", "BASH_ENV"):
        env.pop(k, None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false", GOWORK="off",
               TMPDIR=os.path.join(work, "tmp"), XDG_CACHE_HOME=os.path.join(work, "cache"))
    for k in list(env):
        if k.startswith("FABV_") or k.startswith("GIT_"):
            env.pop(k)
    env.pop("SHELL", None)
    return env


def known_findings(prop):
    """Lines of known_findings.txt: 'known: property=ID key=KEY description' (and 'fixed: ...', which suppress nothing)."""
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def fail(msg, rc=2):
    print("check: " + msg, file=sys.stderr)
    sys.exit(rc)


def run(cmd, env, cwd, timeout, out, err):
    with open(out, "wb") as fo, open(err, "wb") as fe:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if rc is None:
            p.wait()
        return rc


def build(prop, work, env):
    mode = MODE.get(prop, "plain")
    bindir = os.path.join(work, "bin")
    os.makedirs(bindir)
    overlay = os.path.join(work, "overlay")
    harness = os.path.join(VERIF, "harness")
    instrumented = mode == "instr" or prop in NEED_FABI

    def go(args, cwd):
        r = subprocess.run(["go"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.buffer.write(r.stdout)
            fail("build failed: go " + " ".join(args))

    if instrumented:
        os.makedirs(overlay)
        go(["build", "-o", os.path.join(bindir, "instr"), "."], os.path.join(VERIF, "instr"))
        r = subprocess.run([os.path.join(bindir, "instr"), REPO, overlay], env=env)
        if r.returncode != 0:
            fail("instrumentation failed")
    flags = []
    if mode == "instr":
        flags = ["-tags", "instr", "-overlay", os.path.join(overlay, "overlay.json")]
    elif mode == "race":
        flags = ["-race"]
    vmon = os.path.join(bindir, "vmon")
    go(["build"] + flags + ["-o", vmon, "."], harness)
    if prop in NEED_FAB:
        env["GOGC"] = "400"
        go(["build", "-o", os.path.join(bindir, "fab"), "./cmd/fab"], REPO)
        env["FABV_FAB"] = os.path.join(bindir, "fab")
    if instrumented:
        env["FABV_OVERLAY"] = os.path.join(overlay, "overlay.json")
    if prop in NEED_FABI and prop != "C30":
        go(["build", "-overlay", os.path.join(overlay, "overlay.json"), "-o", os.path.join(bindir, "fabi"), "./cmd/fab"], REPO)
        env["FABV_FABI"] = os.path.join(bindir, "fabi")
    return vmon, mode


FABFRAME = re.compile(r"github\.com/bobg/fab(/|\.)|/repo/[\w/]*\.go")


def crash_in_fab(err):
    """The message of a crash of the Go runtime with code of fab on the stack, if that is what it was."""
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*|SIGSEGV.*)$", err, re.M)
    if not m or "HARNESS-ERROR" in err or "panic: harness: " in err:
        return None
    # The crashing goroutine is dumped first.
    tail = err[m.start():]
    first = tail.split("\ngoroutine ")
    block = first[1] if len(first) > 1 else tail
    if m.group(1).startswith("fatal error: all goroutines are asleep"):
        block = tail
    if FABFRAME.search(block) or (m.group(1).startswith(("fatal error", "runtime:")) and FABFRAME.search(tail)):
        return m.group(1)
    return None


def races(work):
    found = []
    for f in glob.glob(os.path.join(work, "race.*")):
        for block in open(f, errors="replace").read().split("=================="):
            if "DATA RACE" in block:
                found.append(block.strip())
    return found


def fab_race(block):
    """A race counts if one of its two accesses is made by code of fab (the innermost frame outside the standard library)."""
    parts = re.split(r"\n\s*\n", block)
    for part in parts[:2]:
        frames = re.findall(r"^  (\S+)\(.*\)\n\s+(\S+):\d+", part, re.M)
        for fn, path in frames:
            if "/repo/" in path or "github.com/bobg/fab" in fn:
                return True
            if fn.startswith("main."):
                break
    return False


def main():
    args = sys.argv[1:]
    if not args:
        fail(__doc__)
    prop, case = args[0], "-"
    seed, tier = os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick")
    if tier != "thorough":
        tier = "quick"
    try:
        seed = str(int(seed))
    except ValueError:
        seed = "1"
    if len(args) == 3 and args[1] == "--replay":
        w = json.load(open(args[2]))
        case, seed, tier = w["case"], str(w["seed"]), w["tier"]
    start = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    work = tempfile.mkdtemp(prefix="fabv-")
    os.chmod(work, 0o755)  # C21 runs helpers without rights in there
    try:
        rc = decide(prop, case, seed, tier, work, start, evdir, evfile)
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, case, seed, tier, work, start, evdir, evfile):
    env = environment(work)
    os.makedirs(env["TMPDIR"])
    os.makedirs(env["XDG_CACHE_HOME"])
    vmon, mode = build(prop, work, env)
    known = known_findings(prop)
    outdir = os.path.join(work, "out")
    os.makedirs(outdir)
    env.update(VERIF_SEED=seed, VERIF_TIER=tier, FABV_KNOWN="\n".join(known),
               GORACE="halt_on_error=0 exitcode=0 log_path=" + os.path.join(work, "race"),
               GOTRACEBACK="all")
    out, err = os.path.join(work, "stdout"), os.path.join(work, "stderr")
    limit = 780 if tier == "quick" else 6 * 3600
    rc = run([vmon, prop, outdir, case], env, work, limit, out, err)
    errtext = open(err, errors="replace").read()
    violations, report = [], {}
    repfile = os.path.join(outdir, "report.json")
    if rc in (0, 1, None) and os.path.exists(repfile):  # (a report is there early if there are violations)
        report = json.load(open(repfile))
        violations += report.get("violations") or []
    else:
        crash = crash_in_fab(errtext)
        if crash:
            cur = {}
            try:
                cur = json.load(open(os.path.join(outdir, "current.json")))
            except (OSError, ValueError):
                pass
            violations.append({"case": next(iter(cur), "-"), "message": "the code under test crashed: " + crash,
                               "witness": {"running": cur, "stderr": errtext[:20000]}})
        elif os.path.exists(repfile):
            report = json.load(open(repfile))
            violations += report.get("violations") or []
        else:
            sys.stderr.write(errtext[-8000:])
            fail("no verdict: monitor %s" % ("timed out" if rc is None else "exited with %s" % rc))
    if mode == "race":
        blocks = races(work)
        mine = [b for b in blocks if fab_race(b)]
        for b in mine[:5]:
            violations.append({"case": "-", "message": "data race in fab", "witness": b})
        other = [b for b in blocks if not fab_race(b)]
        if other and not mine:
            sys.stderr.write("\n".join(other)[:8000])
            fail("no verdict: races outside fab")
        report.setdefault("counters", {})["race_reports"] = len(mine)
    cov = {"evaluations": report.get("evaluations", 0), "distinct_nontrivial": report.get("distinct_nontrivial", 0),
           "rule": report.get("rule", ""), "samples": report.get("samples") or [],
           "observed": report.get("counters", {}), "build": mode}
    if case == "-" and not violations and (cov["evaluations"] < 1 or cov["distinct_nontrivial"] < 1):
        fail("no verdict: the monitor observed nothing")
    ev = {"property": prop, "tier": tier, "seed": int(seed), "level": LEVEL.get(prop, "exploration"), "coverage": cov,
          "assumptions": report.get("assumptions") or [], "wall_s": round(time.time() - start, 1), "violations": len(violations)}
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in report.get("known") or []:
        key = k.split(":")[0]
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known.get(key, k)))
    if violations:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": int(seed), "tier": tier, "case": violations[0].get("case", "-"),
                       "violations": violations}, f, indent=1)
        for v in violations:
            print("  %s: %s" % (v.get("case"), v.get("message", "")[:1000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("held: property=%s %d evaluations, %d distinct" % (prop, cov["evaluations"], cov["distinct_nontrivial"]))
    return 0


if __name__ == "__main__":
    main()
