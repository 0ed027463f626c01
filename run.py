#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] [--keep]

Compiles the property's explorer against /repo's current tree, runs its shards, confirms any failure by
replaying exactly that transition in a fresh process, writes evidence/<PROPERTY>.json.
exit 0: property held on everything explored; 1: VIOLATION; 2: the check itself could not run.
"""
import shlex, concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LOGIC_REPO", "/repo")
sys.path.insert(0, HERE)
from config import PROPS  # noqa: E402

JOBS = int(os.environ.get("MC_JOBS", os.cpu_count() or 8))


def load_known(prop):
    """known_findings.txt: 'finding: property=C07 id=<id> <text>' lines; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def sh(cmd, timeout, **kw):
    try:
        return sh_(cmd, timeout, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 1, "error: timed out: " + " ".join(cmd))


def sh_(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = int(os.environ.get("MC_LIMIT") or (840 if tier == "quick" else 6 * 3600))
    # once a violation has been found the other shards get a little more time; without one, explorers that are still
    # running shortly before the time limit report what they have covered (and the evidence says so)
    stop = dict(at=t0 + limit - 70)
    grace = 45 if tier == "quick" else 600
    cut = []
    bdir = os.path.join(HERE, "build", f"{prop}-{tier}")
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(HERE, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    nshard = cfg.get("shards_thorough" if tier == "thorough" else "shards", cfg.get("shards", 8))
    cxx = cfg.get("cxx", "g++")
    base = [cxx, "-std=c++20", "-include", "cstdint", f"-I{REPO}/include", f"-I{HERE}/mc", f"-I{HERE}/props"]
    base += cfg.get("flags", ["-O1"]) + ["-w"]
    if tier == "thorough":
        base += ["-DMC_THOROUGH"]
    # (source, shard) pairs
    jobs = []
    for src in cfg["src"]:
        n = nshard
        if isinstance(src, (tuple, list)):
            src, n = src[0], (src[2] if tier == "thorough" and len(src) > 2 else src[1])
        for s in range(n):
            jobs.append((src, s, n))
    util_o = os.path.join(bdir, "util.o")
    # a second build whose every observation must be the same (C23: other contents of uninitialised memory)
    twin = cfg.get("twin_flags")
    tbase = [x for x in base if x not in cfg.get("flags", ["-O1"])] + list(twin or [])

    def cutil(_):
        r = sh(base + ["-c", f"{REPO}/src/util.cc", "-o", util_o], limit)
        return sh(tbase + ["-c", f"{REPO}/src/util.cc", "-o", util_o + ".twin"], limit) if twin and not r.returncode else r

    def cjob(j):
        src, s, n = j
        o = os.path.join(bdir, f"{os.path.splitext(src)[0]}.{s}.o")
        return sh(base + [f"-DSHARD={s}", f"-DNSHARD={n}", "-c", os.path.join(HERE, "props", src), "-o", o], limit)

    known = load_known(prop)
    exe = lambda j: os.path.join(bdir, f"{os.path.splitext(j[0])[0]}.{j[1]}")
    env = dict(os.environ, **cfg.get("env", {}))

    def rjob(j, extra=(), out=None, timeout=None, x=None):
        out = out or (x or exe(j)) + ".json"
        cmd = [x or exe(j), "--out", out]
        if tier == "thorough":
            cmd.append("--thorough")
        for k in known:
            cmd += ["--kf", k]
        cmd += list(extra)
        log = out + ".log"
        with open(log, "wb") as lf:
            pr = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env, cwd=bdir)
            t1, termed, rc = time.time(), 0, None
            while rc is None:
                try:
                    rc = pr.wait(1)
                except subprocess.TimeoutExpired:
                    now = time.time()
                    if timeout and now - t1 > timeout:
                        pr.kill()
                        pr.wait()
                        rc = "timeout"
                    elif not timeout and now > stop["at"]:
                        if not termed:
                            pr.terminate()
                            termed = now
                        elif now - termed > 15:
                            pr.kill()
                            pr.wait()
                            rc = "timeout"
        try:
            data = json.load(open(out))
        except Exception:
            data = None
        if termed:
            cut.append(j)
            rc = 0 if data else "cut"
        if (data or {}).get("fails") or (rc not in (0, "cut", "timeout") and cfg.get("abort_is_violation")):
            stop["at"] = min(stop["at"], time.time() + grace)
        return rc, data, open(log, errors="replace").read()[-4000:]

    times = []

    def crun(j):
        t = time.time()
        try:
            return crun_(j)
        finally:
            times.append((round(time.time() - t, 1), j[0], j[1]))

    def crun_(j):
        if time.time() > stop["at"]:
            cut.append(j)
            return j, "run", ("cut", None, "")
        r = cjob(j)
        if r.returncode:
            return j, "compile", r.stdout
        fut_util.result()
        r = sh([cxx] + cfg.get("link_flags", cfg.get("flags", ["-O1"])) + [exe(j) + ".o", util_o, "-o", exe(j), "-lpthread"], limit)
        if r.returncode:
            return j, "link", r.stdout
        os.remove(exe(j) + ".o")
        if not twin or j[0] not in cfg.get("twin_src", [j[0]]):
            return j, "run", rjob(j)
        src, s, n = j
        r = sh(tbase + [f"-DSHARD={s}", f"-DNSHARD={n}", os.path.join(HERE, "props", src), util_o + ".twin", "-o", exe(j) + ".twin", "-lpthread"], limit)
        if r.returncode:
            return j, "compile", r.stdout
        rc, data, log = rjob(j)
        trc, tdata, tlog = rjob(j, x=exe(j) + ".twin")
        if j in cut:
            return j, "run", (rc, data, log)
        if rc == 0 and data and not data["fails"] and (trc != 0 or not tdata):
            return j, "run", (trc, tdata, tlog)
        if rc == 0 and data and not data["fails"]:
            data["fails"] += tdata["fails"]
            for g in data["traces"]:
                if data["traces"][g] != tdata["traces"].get(g):
                    data["fails"].append(bisect(j, g))
                    break
            data["extra"]["observations_repeated_with_other_initial_memory"] = tdata["transitions"]
        return j, "run", (rc, data, log)

    def traces(j, g, n, one=False):
        a = ["--replay" if one else "--upto", g, str(n)]
        t = [rjob(j, a, out=exe(j) + f".b{i}.json", x=exe(j) + t, timeout=300)[1] for i, t in enumerate(("", ".twin"))]
        return None if None in t else (t[0]["traces"].get(g), t[1]["traces"].get(g), t[0]["transitions"])

    def bisect(j, g):
        lo, hi = 0, max(1, traces(j, g, 1 << 60)[2])  # the first differing transition is in (lo, hi]
        while hi - lo > 1:
            mid = (lo + hi) // 2
            a, b, _ = traces(j, g, mid)
            lo, hi = (lo, mid) if a != b else (mid, hi)
        return dict(group=g, ord=hi, count=1, twin=True, what=f"{g} #{hi} depends on the previous contents of memory")

    results = []
    broken = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut_util = ex.submit(cutil, 0)
        for j, kind, r in ex.map(crun, jobs):
            if kind != "run":
                broken.append((j, kind, r))
            else:
                results.append((j, r))
    if "--times" in sys.argv:
        per = {}
        for t, s, _ in times:
            per[s] = round(per.get(s, 0) + t, 1)
        print(per, sorted(times)[-12:])
    if fut_util.result().returncode:
        print(fut_util.result().stdout[-4000:])
        print(f"ERROR: {prop}: /repo/src/util.cc does not compile")
        return 2
    if broken:
        for j, kind, r in broken[:3]:
            print(f"ERROR: {prop}: shard {j}: {kind} failed\n" + "\n".join(x for x in r.splitlines() if "error" in x)[:3000])
        return 2

    tot = dict(states=0, transitions=0, groups=0, paths=0, distinct=0)
    samples, extra, kf, fails = [], {}, {}, []
    errors = []
    for j, (rc, data, log) in results:
        if data is None or rc != 0:
            # the explorer died without its own report (sanitizer abort, stack exhaustion, time-out)
            if rc == "cut":
                continue
            if cfg.get("abort_is_violation") and rc not in ("timeout",):
                g = re.findall(r"@@ (.*)", log)
                fails.append((j, dict(group=g[-1].split(" #")[0] if g else "?", ord=int(g[-1].split(" #")[1].split()[0]) if g else 0,
                                      count=1, what="aborted: " + "; ".join(re.findall(r"(?:runtime error|ERROR: AddressSanitizer|SUMMARY).*", log)[:3]) or log[-300:]), log))
            else:
                errors.append((j, rc, log))
            if data is None:
                continue
        for k in tot:
            tot[k] += data.get(k, 0)
        samples += data["samples"][:6]
        for k, v in data["extra"].items():
            extra[k] = extra.get(k, 0) + v
        for k, v in data["known"].items():
            e = kf.setdefault(k, dict(n=0, example=v["example"]))
            e["n"] += v["n"]
        for f in data["fails"]:
            fails.append((j, f, ""))
    if errors and not fails:
        for j, rc, log in errors[:3]:
            print(f"ERROR: {prop}: shard {j} ended with {rc}\n{log[-1500:]}")
        return 2

    # ---- confirm failures by replaying the single transition in a fresh process
    confirmed = []
    for n, (j, f, log) in enumerate(fails[:40]):
        if len(confirmed) >= 5:
            break
        if f.get("twin"):
            a, b, _ = traces(j, f["group"], f["ord"])
            if a != b:
                confirmed.append((j, f, f["what"]))
            continue
        # the transition alone; else with the transitions of its group before it; else the whole exploration of its shard
        for how in (["--replay", f["group"], str(f["ord"])], ["--upto", f["group"], str(f["ord"])], []):
            if how[:1] != ["--replay"] and confirmed:
                break
            rc, data, log2 = rjob(j, how, out=os.path.join(bdir, f"replay{n}.json"), timeout=300)
            again = [x for x in (data or {}).get("fails") or [] if how or (x["group"], x["ord"]) == (f["group"], f["ord"])]
            if again or (cfg.get("abort_is_violation") and rc not in (0, "timeout")):
                break
        if again or (cfg.get("abort_is_violation") and rc not in (0, "timeout")):
            f["how"] = how
            more = "; ".join(re.findall(r"[^\s:]+:\d+:\d+: runtime error.*|ERROR: AddressSanitizer.*|[^\s]*Assertion '.*' failed", log2)[:3])
            confirmed.append((j, f, (again[0]["what"] if again else f["what"]) + (": " + more if more else "")))
    for k, v in known.items():
        if k in kf:
            print(f"KNOWN-FINDING: property={prop} {v} [id={k}; hit {kf[k]['n']} times, e.g. {kf[k]['example']}]")
    status = 0
    if confirmed:
        os.makedirs(rdir, exist_ok=True)
        for n, (j, f, what) in enumerate(confirmed):
            path = os.path.join(rdir, f"{n}.sh")
            with open(path, "w") as fo:
                fo.write("#!/bin/sh\n# " + what.replace("\n", " ") + "\n")
                src = os.path.join(HERE, "props", j[0])
                cmd = base + cfg.get("link_flags", []) + [f"-DSHARD={j[1]}", f"-DNSHARD={j[2]}", src, f"{REPO}/src/util.cc", "-lpthread", "-o", "/tmp/mc_replay_$$"]
                fo.write("set -e\n" + "".join(f"export {k}={v}\n" for k, v in cfg.get("env", {}).items()) + " ".join(cmd) + "\n")
                fo.write(f"/tmp/mc_replay_$$ {'--thorough ' if tier == 'thorough' else ''}{' '.join('--kf ' + k for k in known)} {' '.join(shlex.quote(x) for x in f.get('how', ['--replay', f['group'], str(f['ord'])]))}; rm -f /tmp/mc_replay_$$\n")
            os.chmod(path, 0o755)
            print(f"VIOLATION property={prop} replay={path}")
            print("   " + what)
        print(f"   ({len(fails)} groups failed, {sum(f['count'] for _, f, _ in fails)} transitions)")
        status = 1
    elif fails:
        print(f"ERROR: {prop}: {len(fails)} failures were reported but none could be reproduced")
        for j, f, log in fails[:3]:
            print("   ", f, log[-800:])
        status = 2

    cov = dict(states=tot["states"], transitions=tot["transitions"],
               traces_validated_against_impl=tot["paths"] or tot["transitions"],
               configurations=tot["groups"], distinct_outcomes_lower_bound=tot["distinct"],
               exhaustive=not errors and not cut and not extra.get("pairs_cut_off_at_the_schedule_limit"), bounds=cfg["bounds"], samples=samples[:24], **extra)
    if kf:
        cov["known_finding_hits"] = {k: v["n"] for k, v in kf.items()}
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fails) if status == 1 else 0)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    if "--keep" not in sys.argv:
        shutil.rmtree(bdir, ignore_errors=True)
    if cut and status == 0:
        print(f"NOTE: {prop}: {len(cut)} of {len(jobs)} explorers ran out of time; the evidence describes what was covered")
    print(f"{prop} {tier}: states={tot['states']} transitions={tot['transitions']} configurations={tot['groups']} "
          f"distinct_outcomes>={tot['distinct']} wall={time.time()-t0:.1f}s -> {'held' if status == 0 else 'NOT held' if status == 1 else 'no answer'}")
    return status


if __name__ == "__main__":
    sys.exit(main())
