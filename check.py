#!/usr/bin/env python3
"""Builds the harness from /repo's working tree and runs the generated-case
search of one property.

  check.py ID [quick|thorough]      exit 0: held on everything explored; 1: violation
  check.py --replay FILE            runs one recorded case again
  check.py --setup                  builds everything once

Any other exit code means that the check itself could not be carried out."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target", "h")
MIRI_TARGET = os.path.join(HERE, "target", "m")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known-findings.json")

BINS = json.load(open(os.path.join(HARNESS, "bins.json")))  # property -> binary
MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.1 -Zmiri-tree-borrows"
# Printed by Miri for behaviour of the program (not of Miri).
MIRI_VIOLATION = re.compile(
    r"error: (Undefined Behavior|the evaluated program (deadlocked|aborted|leaked)|memory leaked|deadlock|abnormal termination)"
)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_native():
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=TARGET, RUSTFLAGS="--cfg futures_verif", CARGO_NET_OFFLINE="true")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def env_miri(seed=None):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=MIRI_TARGET, CARGO_NET_OFFLINE="true")
    e["MIRIFLAGS"] = MIRI_BASE + (f" -Zmiri-seed={seed}" if seed is not None else "")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build_native(bins):
    t = time.time()
    cmd = ["cargo", "build", "--offline"]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=HARNESS, env=env_native(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("CHECK-ERROR: the harness does not build against /repo")
        sys.exit(2)
    return time.time() - t


def miri_cmd(b, *args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", b, "--"] + list(args)


def miri_works(b):
    """Builds for Miri; None when it works, else the reason."""
    try:
        r = subprocess.run(miri_cmd(b, "list"), cwd=HARNESS, env=env_miri(0), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=400)
    except (OSError, subprocess.TimeoutExpired) as e:
        return str(e)
    return None if r.returncode == 0 else r.stdout[-1500:]


def subs_of(b, prop):
    r = subprocess.run([os.path.join(TARGET, "debug", b), "list"], stdout=subprocess.PIPE, text=True, check=True)
    out = []
    for line in r.stdout.split("\n"):
        f = line.split()
        if len(f) == 7 and f[0] == prop:
            out.append(dict(name=f[1], quick=int(f[2]), thorough=int(f[3]), mq=int(f[4]), mt=int(f[5]), miri_only=f[6] == "1"))
    return out


def write_json(path, v):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(v, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def run_native(b, prop, tier, seed):
    """Returns (result, violations)."""
    exe = os.path.join(TARGET, "debug", b)
    out = os.path.join(EVIDENCE, f".{prop}.native.json")
    os.makedirs(EVIDENCE, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    args = [exe, "run", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replays", REPLAYS]
    r = subprocess.run(args, stdout=subprocess.PIPE, text=True)
    if r.returncode in (0, 1) and os.path.exists(out):
        res = json.load(open(out))
        os.remove(out)
        return res, res["violations"]
    if r.returncode == 4:
        m = re.search(r"HANG (\S+)", r.stdout)
        v = dict(sub="?", message="does not return on a finite input", replay=m.group(1))
        return dict(evaluations=1, distinct_nontrivial=1, rule="", subs=[], samples=[], wall_s=0), [v]
    if r.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
        # Memory corruption or abort inside the library: find the case.
        e = dict(os.environ, VH_TRACE="1")
        log(f"the native run died of signal {-r.returncode}; looking for the case")
        r2 = subprocess.run(args + ["--workers", "1"], stdout=subprocess.PIPE, text=True, env=e)
        last = [l for l in r2.stdout.split("\n") if l.startswith("CASE ")]
        if r2.returncode < 0 and last:
            _, sub, idx = last[-1].split()
        else:
            sub, idx = "?", "0"
        path = os.path.join(REPLAYS, f"{prop}-crash-{sub.replace('?', 'x')}-{idx}.json")
        write_json(path, dict(property=prop, sub=sub, seed=seed, case=int(idx), signal=-r.returncode,
                              message=f"the process died of signal {-r.returncode} while running generated cases"))
        # keep the compact form that `replay` parses
        with open(path, "w") as f:
            f.write(json.dumps(dict(property=prop, sub=sub, seed=seed, case=int(idx), message=f"signal {-r.returncode}"), separators=(",", ":")) + "\n")
        v = dict(sub=sub, message=f"the process died of signal {-r.returncode}", replay=path)
        return dict(evaluations=1, distinct_nontrivial=1, rule="", subs=[], samples=[], wall_s=0), [v]
    log(f"CHECK-ERROR: the native run ended with {r.returncode}")
    sys.exit(2)


def run_miri_job(b, prop, sub, start, n, seed, mseed, limit):
    t = time.time()
    try:
        p = subprocess.Popen(miri_cmd(b, "miri", prop, sub, "--start", str(start), "--n", str(n), "--seed", str(seed)),
                             cwd=HARNESS, env=env_miri(mseed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            done = len(re.findall(r"^CASE ", out, re.M)) - 1
            return dict(kind="timeout", done=max(done, 0), sub=sub, wall=time.time() - t)
    except OSError as e:
        return dict(kind="error", text=str(e), sub=sub)
    m = re.search(r"^MIRI-DONE (\d+) (\d+) (\d+)", out, re.M)
    if p.returncode == 0 and m:
        sample = re.findall(r"^SAMPLE (.*)$", out, re.M)
        return dict(kind="ok", done=int(m[1]), nontrivial=int(m[2]), distinct=int(m[3]), sample=sample[:30], sub=sub,
                    wall=time.time() - t)
    case = re.findall(r"^CASE (\d+)", out, re.M)
    fail = re.search(r"^CASE-FAIL (\d+) (.*)$", out, re.M)
    err = MIRI_VIOLATION.search(out)
    if fail or err:
        msg = fail[2] if fail else next(l for l in out.split("\n") if MIRI_VIOLATION.search(l))
        return dict(kind="violation", sub=sub, case=int(case[-1]) if case else start, start=start, seed=seed, mseed=mseed,
                    message=msg, out=out[-8000:])
    return dict(kind="error", text=out[-3000:], sub=sub)


def run_miri(b, prop, tier, seed, subs):
    jobs = []
    per = {}
    for s in subs:
        n = s["mq"] if tier == "quick" else s["mt"]
        if n:
            per[s["name"]] = n
    if not per:
        return None, []
    why = miri_works(b)
    if why is not None:
        log("miri cannot run here, its part is skipped:", why[-400:])
        return dict(skipped=why[-400:]), []
    limit = 300 if tier == "quick" else 3600
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    for name, n in per.items():
        k = max(1, n // (nproc if tier == "quick" else nproc * 4))
        start = 0
        while start < n:
            m = min(k, n - start)
            jobs.append((name, start, m, (seed * 1000003 + start * 7919 + len(jobs)) % (1 << 31)))
            start += m
    stats = {n: dict(sub=n + " (miri)", evaluations=0, distinct_nontrivial=0) for n in per}
    samples, viol, errors = [], [], []
    with cf.ThreadPoolExecutor(nproc) as ex:
        futs = [ex.submit(run_miri_job, b, prop, n, st, m, seed, ms, limit) for n, st, m, ms in jobs]
        for f in futs:
            r = f.result()
            s = stats[r["sub"]]
            if r["kind"] == "ok":
                s["evaluations"] += r["done"]
                s["distinct_nontrivial"] += r["distinct"]
                if r["sample"] and not any(x["sub"] == s["sub"] for x in samples):
                    samples.append(dict(sub=s["sub"], trace=r["sample"]))
            elif r["kind"] == "timeout":
                s["evaluations"] += r["done"]
                s["timeouts"] = s.get("timeouts", 0) + 1
            elif r["kind"] == "violation":
                path = os.path.join(REPLAYS, f"{prop}-miri-{r['sub']}-{r['seed']}-{r['case']}.json")
                write_json(path, dict(property=prop, sub=r["sub"], miri=True, bin=b, start=r["start"], case=r["case"],
                                      seed=r["seed"], miri_seed=r["mseed"], message=r["message"], output=r["out"].split("\n")))
                viol.append(dict(sub=r["sub"] + " (miri)", message=r["message"], replay=path))
            else:
                errors.append(r)
    for n, s in stats.items():
        log(f"{prop} {s['sub']}: {s['evaluations']} cases, {s['distinct_nontrivial']} distinct non-trivial"
            + (f", {s['timeouts']} jobs timed out" if "timeouts" in s else ""))
    if errors and not viol:
        log("CHECK-ERROR: miri:", errors[0]["text"])
        sys.exit(2)
    return dict(subs=list(stats.values()), samples=samples), viol


def known(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop and k["status"] == "open"]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    b = BINS[prop]
    build_native([b])
    subs = subs_of(b, prop)
    res, viol = run_native(b, prop, tier, seed)
    miri = None
    if not viol:
        miri, viol = run_miri(b, prop, tier, seed, subs)
    evs, nontriv = res["evaluations"], res["distinct_nontrivial"]
    sub_list, samples = list(res["subs"]), list(res["samples"])
    if miri and "subs" in miri:
        for s in miri["subs"]:
            evs += s["evaluations"]
            nontriv += s["distinct_nontrivial"]
        sub_list += miri["subs"]
        samples += miri["samples"]
    assumptions = [
        "scheduling: threads are switched at the hooked atomics, locks, queues and wakers, sequentially consistent; weak-memory effects only as far as Miri samples them",
        "bounded sizes: the generators' sizes are small (see rule); nothing is claimed beyond them",
    ]
    if miri and "skipped" in miri:
        assumptions.append("the Miri part was skipped: " + miri["skipped"])
    fresh = []
    for v in viol:
        hit = [k for k in known(prop) if k["match"] in v["message"]]
        if not hit:
            fresh.append(v)
    for k in known(prop):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    write_json(os.path.join(EVIDENCE, f"{prop}.json"), dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=evs, distinct_nontrivial=nontriv, rule=res.get("rule", ""), samples=samples[:12],
                      inconclusive=res.get("inconclusive", 0), subs=sub_list),
        wall_s=round(time.time() - t0, 2), violations=len(fresh), violation_list=[dict(message=v["message"], replay=v["replay"], sub=v["sub"]) for v in fresh],
        assumptions=assumptions))
    for v in fresh:
        log(f"{prop} {v['sub']}: {v['message']}")
        print(f"VIOLATION property={prop} replay={v['replay']}", flush=True)
    if fresh:
        sys.exit(1)
    print(f"OK property={prop} tier={tier} cases={evs} distinct_nontrivial={nontriv} wall={time.time()-t0:.1f}s")


def replay(path):
    v = json.load(open(path))
    b = BINS[v["property"]]
    if v.get("miri"):
        r = subprocess.run(miri_cmd(b, "miri", v["property"], v["sub"], "--start", str(v["start"]),
                                    "--n", str(v["case"] - v["start"] + 1), "--seed", str(v["seed"])),
                           cwd=HARNESS, env=env_miri(v["miri_seed"]))
        sys.exit(1 if r.returncode else 0)
    build_native([b])
    r = subprocess.run([os.path.join(TARGET, "debug", b), "replay", os.path.abspath(path)])
    sys.exit(0 if r.returncode == 0 else 1)


def setup():
    bins = sorted(set(BINS.values()))
    build_native(bins)
    why = miri_works(bins[0])
    if why:
        log("miri:", why)
    else:
        for b in bins[1:]:
            miri_works(b)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        setup()
    elif a and a[0] == "--replay":
        replay(a[1])
    elif a and a[0] in BINS:
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        check(a[0], "thorough" if tier == "thorough" else "quick")
    else:
        print(__doc__)
        sys.exit(2)
