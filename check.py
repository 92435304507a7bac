#!/usr/bin/env python3
"""Supervisor of one property check.

  check.py <ID> [quick|thorough]     explore, write evidence/<ID>.json
  check.py --replay <file>           run a single reported case again
  check.py --setup                   only build

Builds the explorer (mc/) against the working tree of /repo, runs every suite of
the property in two builds of svgdom (as shipped; with debug assertions, overflow
checks and an evaluating logger), and turns the outcome into an exit code:
0 held, 1 violation (with a VIOLATION line), 2 no answer (build or tool failure).
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
TARGET = os.path.join(VERIF, ".build")
KNOWN = os.path.join(VERIF, "known_findings.txt")
MEM = 26 << 30
PROFILES = {"release": "release", "dbg": "dbg"}


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.pop("RUSTFLAGS", None)
    e.setdefault("HOME", "/root")
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if f.endswith((".rs", ".toml", ".lock")):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build():
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "svgdom.hash")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for p in PROFILES.values():
            run(["cargo", "clean", "--offline", "-p", "svgdom", "--profile", p], cwd=MC)
    for p in PROFILES.values():
        r = run(["cargo", "build", "--offline", "--profile", p], cwd=MC)
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode("utf-8", "replace")[-6000:])
            print("the explorer does not build against %s" % REPO)
            return False
    with open(stamp, "w") as f:
        f.write(now)
    return True


def binary(profile):
    return os.path.join(TARGET, PROFILES[profile], "mc")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def worker(profile, args, timeout=None):
    cmd = [binary(profile)] + args + ["--known", KNOWN] + (["--log", "on"] if profile == "dbg" else [])
    try:
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace")


def one(rec, timeout=150):
    """Runs a single case; returns (violated, text)."""
    rc, out = worker(rec["profile"], ["one", rec["property"], rec["tier"], rec["suite"], str(rec["idx"])], timeout)
    if rc == 0:
        return False, out
    if rc == 2:
        return None, out
    return True, out + ("" if rc == 1 else "\nended with %s (crash or hang)" % rc)


def explore(prop, tier, profile, tmp):
    """Returns (report, failure record or None, tool error or None)."""
    out = os.path.join(tmp, profile + ".json")
    rc, text = worker(profile, ["run", prop, tier, out])
    rep = json.load(open(out)) if os.path.exists(out) else {"suites": [], "failure": None, "known": []}
    base = {"property": prop, "tier": tier, "profile": profile}
    if rc == 0:
        return rep, None, None
    if rc in (1, 3) and rep.get("failure"):
        return rep, dict(base, **rep["failure"]), None
    if rc == 2:
        return rep, None, text
    # The process died (stack overflow, abort, out of memory): find the case.
    trace = os.path.join(tmp, "trace")
    os.makedirs(trace, exist_ok=True)
    rc2, text2 = worker(profile, ["run", prop, tier, out, "--trace", trace])
    if rc2 in (0,):
        return rep, None, "the explorer died once (%s) and not again: %s" % (rc, text[-500:])
    if rc2 in (1, 3):
        rep = json.load(open(out))
        if rep.get("failure"):
            return rep, dict(base, **rep["failure"]), None
    _, listing = worker(profile, ["list", prop, tier])
    names = [l.split(" ")[0] for l in listing.splitlines()]
    for f in sorted(os.listdir(trace)):
        m = re.match(r"\s*(\d+)\s+(\d+)", open(os.path.join(trace, f)).read())
        if not m:
            continue
        rec = dict(base, suite=names[int(m.group(1))], idx=int(m.group(2)), kind="crash")
        bad, text3 = one(rec)
        if bad:
            rec.update(desc=text3[:3000], msg="the process died")
            return rep, rec, None
    rec = dict(base, suite="", idx=-1, kind="crash", desc=text2[-2000:],
               msg="the process died twice (%s, %s) while exploring" % (rc, rc2))
    return rep, rec, None


def replay(path):
    rec = json.load(open(path))
    if not build():
        return 2
    if rec["idx"] < 0:
        rc, out = worker(rec["profile"], ["run", rec["property"], rec["tier"], "/dev/null"])
        print(out[-2000:])
        return 0 if rc == 0 else 1
    bad, out = one(rec)
    print(out)
    return 2 if bad is None else 1 if bad else 0


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    if args and args[0] == "--setup":
        return 0 if build() else 2
    prop = args[0]
    tier = args[1] if len(args) > 1 else "quick"
    start = time.time()
    if not build():
        return 2
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    failure = None
    reports = {}
    try:
        # the deep exploration runs as shipped; the instrumented build stays at quick bounds
        for profile, t in (("dbg", "quick"), ("release", tier)):
            rep, failure, err = explore(prop, t, profile, tmp)
            reports[profile] = rep
            if err:
                print(err[-4000:])
                return 2
            if failure:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    suites = []
    states = trans = traces = cases = 0
    complete = failure is None
    samples = []
    for profile, rep in reports.items():
        for s in rep["suites"]:
            st = s["states"] or s["distinct"]
            if profile == "release" or failure:
                states += st
                for x in s["samples"][:3]:
                    if len(samples) < 60:
                        samples.append({"suite": s["name"], "case": x[:600]})
            trans += s["steps"]
            traces += s["compares"]
            cases += s["cases"]
            complete = complete and s["complete"]
            suites.append({"build": profile, "suite": s["name"], "space": s["about"], "cases": s["cases"],
                           "model_states": st, "steps_on_real_code": s["steps"], "comparisons": s["compares"],
                           "wall_s": s["wall"], "complete": s["complete"]})
    known = sorted({(k["suite"], k["desc"], k["what"]) for r in reports.values() for k in r.get("known", [])})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": traces,
            "cases_enumerated": cases, "exhaustive": bool(complete), "suites": suites, "samples": samples,
            "meaning": "states: distinct model states (or distinct expected outcomes) in the release build's run; "
                       "transitions: operations executed on the real code in both builds; "
                       "traces_validated_against_impl: complete observations of the real code compared with the model",
            "known_findings": ["%s: %s" % (k[1], k[2]) for k in known],
        },
        "assumptions": ["bounds as stated per suite", "roxmltree, simplecss, svgtypes, xmlwriter are taken as given"],
        "wall_s": round(time.time() - start, 2), "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k[1], k[2]))
    if failure:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s.json" % (prop, failure["suite"] or "run", failure["idx"]))
        with open(path, "w") as f:
            json.dump(failure, f, indent=1)
        print("case: %s" % failure.get("desc", "")[:3000])
        print("%s: %s" % (failure.get("kind"), failure.get("msg", "")[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s %s: held; %d states, %d transitions, %d comparisons, %.1f s"
          % (prop, tier, states, trans, traces, time.time() - start))
    return 0


if __name__ == "__main__":
    sys.exit(main())
