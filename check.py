#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current source by static analysis.

1. builds the MIR dump driver (mirdump/) when needed and dumps the type-checked MIR of c8s from
   /repo's working tree (cargo check, nothing of c8s is executed);
2. runs the obligations the property consists of (analysis/props.py);
3. writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import hashlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("C8S_REPO", "/repo")
BUILD = os.environ.get("C8S_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, os.path.join(VERIF, "analysis"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    return p.returncode, p.stdout


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(fs):
            files.append(os.path.join(root, f))
    for root, dirs, fs in os.walk(os.path.join(VERIF, "mirdump", "src")):
        for f in sorted(fs):
            files.append(os.path.join(root, f))
    for p in files:
        try:
            with open(p, "rb") as f:
                h.update(p.encode() + b"\0" + hashlib.sha256(f.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:24]


def dump():
    """Path of the MIR dump of /repo's current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        out = os.path.join(BUILD, "dump-%s.json" % tree_hash())
        if os.path.exists(out):
            return out
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        env["CARGO_NET_OFFLINE"] = "true"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
        rc, txt = run(["cargo", "+nightly", "build", "--offline"], os.path.join(VERIF, "mirdump"), env)
        if rc:
            raise BuildError("mirdump does not build:\n" + txt)
        rc, sysroot = run(["rustc", "+nightly", "--print", "sysroot"], VERIF)
        for f in os.listdir(BUILD):
            if f.startswith("dump-"):
                os.unlink(os.path.join(BUILD, f))
        tmp = os.path.join(BUILD, "tmp.json")
        if os.path.exists(tmp):
            os.unlink(tmp)
        env["LD_LIBRARY_PATH"] = sysroot.strip() + "/lib"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        env["RUSTFLAGS"] = FLAGS
        env["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(BUILD, "driver", "debug", "mirdump")
        env["MIRDUMP_CRATE"] = "c8s"
        env["MIRDUMP_OUT"] = tmp
        # The crate itself is always compiled anew, whatever the modification times say.
        import shutil
        for sub in (".fingerprint", "build", "incremental"):
            fp = os.path.join(BUILD, "target", "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d == "c8s" or d.startswith("c8s-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        rc, txt = run(["cargo", "+nightly", "check", "--offline", "--bin", "c8s"], REPO, env)
        if rc or not os.path.exists(tmp):
            raise BuildError("c8s does not build for analysis:\n" + txt[-4000:])
        os.rename(tmp, out)
        return out
    finally:
        lock.close()


class Timeout(Exception):
    pass


def alarm(*a):
    raise Timeout()


def run_obligation(ctx, f, budget):
    import core
    r = None
    t = time.time()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(budget)
    try:
        r = f(ctx)
    except core.Missing as e:
        r = core.ObResult(f.__name__)
        r.open("`%s` is not in the program" % e)
    except Timeout:
        r = core.ObResult(f.__name__)
        r.open("analysis budget of %d s used up" % budget)
    except (core.TooComplex, core.Unsupported) as e:
        r = core.ObResult(f.__name__)
        r.open("%s: %s" % (type(e).__name__, e))
    except (Exception, RecursionError) as e:
        r = core.ObResult(f.__name__)
        r.open("%s: %s" % (type(e).__name__, e))
        if os.environ.get("C8S_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    r.wall = round(time.time() - t, 3)
    return r


def load_known():
    """KNOWN_FINDINGS lines: `known: property=<id> key=<finding key>` suppress exactly that finding."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                pid, _, key = l[len("known: property="):].partition(" key=")
                out.setdefault(pid, set()).add(key)
    return out


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        dump()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import core
    import mir
    import props
    path = dump()
    prog = mir.Program(path)
    ctx = core.Ctx(prog, tier)
    ctx.repo = REPO
    spec = props.PROPS[pid]
    results = []
    budget = 240 if tier == "quick" else 800
    whole = t0 + (780 if tier == "quick" else 6000)      # a run that gets no further still answers in time
    for f, classes in spec["obligations"]:
        left = max(10, min(budget, int(whole - time.time())))
        ctx.deadline = time.time() + left - 5
        results.append((run_obligation(ctx, f, left), classes))
    known = load_known().get(pid, set())
    viol, kn = [], []
    for r, classes in results:
        for f in r.findings:
            if classes is not None and f.cls not in classes:
                continue
            (kn if f.key() in known else viol).append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    total = sum(r.total for r, _ in results)
    disch = sum(r.discharged for r, _ in results)
    fns = set()
    for r, _ in results:
        fns |= r.fns
    level = spec.get("level", "proof")
    names = sorted(prog.fns[i].name for i in fns if i in prog.fns and prog.fns[i].crate == "c8s")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": total, "discharged": disch,
            "checker_cmd": "python3 check.py %s" % pid,
            "trusted_base": props.TRUSTED,
            "explanation": spec["rule"],
            "rule": spec["rule"],
            "functions_analysed": names,
            "per_obligation": [
                {"obligation": r.ob, "rule": (f.__doc__ or "").strip(), "obligations": r.total, "discharged": r.discharged,
                 "undecided": r.undecided, "analysed": r.analysed, "samples": r.samples, "wall_s": r.wall,
                 "classes_reported": sorted(c) if c else "all"}
                for (r, c), (f, _) in zip(results, spec["obligations"])],
            "samples": [s for r, _ in results for s in r.samples][:12],
        },
        "assumptions": spec.get("assumptions", []) + props.ASSUMPTIONS,
        "violations": len(viol),
        "findings": [f.as_json() for f in viol],
        "wall_s": round(time.time() - t0, 3),
    }
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for f in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, f.what))
    print("%s: %d obligations, %d discharged, %d undecided, %d functions analysed, %.1f s" %
          (pid, total, disch, sum(len(r.undecided) for r, _ in results), len(names), ev["wall_s"]))
    for r, _ in results:
        for u in r.undecided[:4]:
            print("  undecided [%s] %s at %s" % (r.ob, u["why"], u["where"]))
        if len(r.undecided) > 4:
            print("  ... and %d more undecided in %s (see the evidence file)" % (len(r.undecided) - 4, r.ob))
    if viol:
        for f in viol:
            print("  %s at %s" % (f.what, f.where))
            if f.witness is not None:
                print("    for example: %s" % json.dumps(f.witness, default=str))
        print("VIOLATION property=%s replay=%s" % (pid, evp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BuildError as e:
        print(e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
