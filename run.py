#!/usr/bin/env python3
"""Build the monitor harness from /repo's working tree and run one property.

usage: run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken. Exit 2: inconclusive.
"""
import argparse, base64, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RACE = {"P24"}
MAIN = {"P19"}
DEADLINE = {"quick": 800, "thorough": 3600 * 3}
# After this many seconds a run that has seen several cases die reports them at once.
STOP_AFTER = 200


def go_env():
    env = dict(os.environ)
    env.update(HOME=env.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off",
               GOFLAGS="-mod=readonly")
    env.pop("GODEBUG", None)
    return env


def harness_files(prop):
    """The common files and those of one property: a change to an API that only
    another property uses does not stop this one from being decided."""
    out = []
    for f in sorted(os.listdir(VERIF + "/harness/vh")):
        m = re.match(r"(p\d\d)", f)
        if f.endswith(".go") and (m is None or m.group(1).upper() == prop):
            out.append(f)
    return out


def overlay(tmp, prop):
    rep = {REPO + "/expreduce/rubi_snapshot/rubi_resources.go":
           VERIF + "/harness/stub/rubi_resources.go"}
    # A tree that has the generated snapshot keeps its own.
    snap = REPO + "/expreduce/rubi_snapshot"
    if os.path.isdir(snap) and any(f.endswith(".go") for f in os.listdir(snap)):
        rep = {}
    for f in harness_files(prop):
        rep["%s/zz_verif/vh/%s" % (REPO, f)] = "%s/harness/vh/%s" % (VERIF, f)
    p = tmp + "/overlay.json"
    with open(p, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return p


def build(tmp, race, prop):
    out = tmp + "/vh"
    cmd = ["go", "build", "-buildvcs=false", "-overlay", overlay(tmp, prop), "-o", out]
    if race:
        cmd.insert(2, "-race")
    cmd.append("./zz_verif/vh")
    r = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0 and prop in MAIN:
        # The command itself.
        r = subprocess.run(cmd[:cmd.index("-o")] + ["-o", tmp + "/expreduce", "."], cwd=REPO, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("INCONCLUSIVE: the harness does not build against %s:\n%s" % (REPO, r.stdout[-4000:]))
        sys.exit(2)
    return out


def read_journal(path):
    try:
        with open(path, "rb") as fh:
            data = fh.read().split(b"\x00")[0].decode("utf-8", "replace")
    except OSError:
        return None
    parts = data.split("\n", 4)
    if len(parts) < 5:
        return None
    return {"batch": parts[1], "index": int(parts[2]), "case": parts[4].rstrip("\n")}


def load_known(prop):
    known, p = {}, VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    prop, only = a.prop, None
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, a.tier = rp["seed"], rp["tier"]
        only = "%s#%d" % (rp["batch"], rp["index"]) if rp.get("batch") else None
    race = prop in RACE
    tmp = tempfile.mkdtemp(prefix="vh-")
    try:
        code = run(a, prop, race, only, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(a, prop, race, only, tmp, t0):
    exe = build(tmp, race, prop)
    tb = time.time() - t0
    n = 1 if only else (a.shards or min(8, max(2, os.cpu_count() or 4)))
    if race and not only:
        n = min(n, 4)
    deadline = t0 + DEADLINE[a.tier]

    def start(i, lives, skip):
        d = "%s/s%d.%d" % (tmp, i, lives)
        os.makedirs(d)
        env = go_env()
        env["HOME"] = d
        env["VH_MAIN"] = tmp + "/expreduce"
        env["GOTRACEBACK"] = "single"
        env["GOMAXPROCS"] = "4" if race else "3"
        if race:
            env["GORACE"] = "halt_on_error=0 log_path=%s/race" % d
        cmd = [exe, "-prop", prop, "-seed", str(a.seed), "-tier", a.tier, "-maxfails",
               os.environ.get("VH_MAXFAILS", "5"), "-shard", str(i),
               "-nshards", str(n), "-out", d + "/out.jsonl", "-scratch", d]
        if only:
            cmd += ["-only", only]
        if skip:
            with open(d + "/skip", "w") as fh:
                fh.write("\n".join(skip))
            cmd += ["-skip", d + "/skip"]
        err = open(d + "/stderr", "wb")
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL,
                             stdout=open(d + "/stdout", "wb") if a.v else subprocess.DEVNULL, stderr=err)
        return {"i": i, "p": p, "d": d, "skip": skip, "lives": lives}

    live = [start(i, 0, []) for i in range(n)]
    inconclusive, races, records, deaths, undecided, rule = [], {}, [], [], [], ""
    while live:
        time.sleep(0.05)
        late = time.time() > deadline
        if late or (len(deaths) >= 4 and time.time() - t0 > STOP_AFTER):
            # Too late, or enough cases died to report them without waiting for
            # more of the same: keep what the workers have judged so far.
            for w in live:
                w["p"].kill()
                w["p"].wait()
                for line in open(w["d"] + "/out.jsonl", errors="replace") if os.path.exists(w["d"] + "/out.jsonl") else []:
                    try:
                        records.append(json.loads(line))
                    except ValueError:
                        pass
            inconclusive.append("the run did not end within its time limit" if late else "stopped early")
            break
        for w in list(live):
            rc = w["p"].poll()
            if rc is None:
                continue
            live.remove(w)
            d, mine = w["d"], []
            for f in os.listdir(d):
                if f.startswith("race."):
                    for sig, txt in race_reports(open(d + "/" + f, errors="replace").read()):
                        races.setdefault(sig, txt)
            if os.path.exists(d + "/out.jsonl"):
                for line in open(d + "/out.jsonl", errors="replace"):
                    try:
                        mine.append(json.loads(line))
                    except ValueError:
                        pass
            records += mine
            if os.environ.get("VH_SLOW") or a.v:
                print(open(d + "/stderr", errors="replace").read()[-3000:])
                if a.v:
                    print(open(d + "/stdout", errors="replace").read()[-3000:])
            if os.path.exists(d + "/out.jsonl.done") and (rc == 0 or race):
                rule = open(d + "/out.jsonl.done").read()
                shutil.rmtree(d, ignore_errors=True)
                continue
            # The worker died inside a case: that is an observation.
            j = read_journal(d + "/out.jsonl.journal")
            errtxt = open(d + "/stderr", errors="replace").read()
            if rc in (-9, -15):
                inconclusive.append("a worker was killed from outside (status %s)" % rc)
                continue
            if j is None or rc == 3:
                inconclusive.append("a worker failed to start: " + errtxt[-2000:])
                continue
            why = "the process ended (status %s)" % rc
            if os.path.exists(d + "/out.jsonl.watchdog"):
                why = open(d + "/out.jsonl.watchdog").read(4000)
            if rc == 78:
                undecided.append(j["case"])
            else:
                deaths.append({"key": "died", "detail": why + "\n" + errtxt[:6000],
                               "batch": j["batch"], "index": j["index"], "case": j["case"]})
            if w["lives"] < 12 and len(deaths) < 20 and not only:
                skip = w["skip"] + ["%s#%d" % (r["batch"], r["index"]) for r in mine]
                live.append(start(w["i"], w["lives"] + 1, skip + ["%s#%d" % (j["batch"], j["index"])]))
            elif not deaths:
                inconclusive.append("too many undecided cases")

    evals, dist, samples, counters, viol, knownbad = 0, set(), [], {}, [], []
    for r in records:
        evals += r["evals"]
        db = base64.b64decode(r.get("distinct") or "")
        dist.update(db[k:k + 8] for k in range(0, len(db), 8))
        samples += r.get("samples") or []
        for k, v in (r.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + v
        viol += r.get("violations") or []
        knownbad += r.get("known") or []
    viol += deaths
    counters["batches"] = len(records)
    if undecided:
        if os.environ.get("VH_ALL"):
            print("\n".join("UNDECIDED " + u for u in undecided))
        counters["undecided_cases"] = len(undecided)
    for sig, txt in sorted(races.items()):
        viol.append({"key": "race:" + sig, "detail": txt, "batch": "", "index": 0, "case": "data race"})
    known = load_known(prop)
    real, printed = [], set()
    for v in viol + knownbad:
        if v["key"] in known:
            if v["key"] not in printed:
                printed.add(v["key"])
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["key"], known[v["key"]]))
        else:
            real.append(v)
    wall = time.time() - t0
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(dist), "rule": rule,
                       "samples": samples[:12], "observed": counters, "shards": n,
                       "race_detector": race, "build_s": round(tb, 1),
                       "known_findings_seen": sorted(printed),
                       "known_findings_not_seen": sorted(k for k in known if k not in printed)},
          "assumptions": ["held on the executions observed in this run; nothing is claimed beyond them"],
          "wall_s": round(wall, 2), "violations": len(real)}
    if not a.replay:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % prop, "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %.1f s (build %.1f s) %s" % (
        prop, a.tier, a.seed, evals, len(dist), wall, tb, json.dumps(counters)))
    if real:
        rdir = VERIF + "/replays"
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for k, v in enumerate(real):
            if os.environ.get("VH_ALL"):
                print("ALL", v["key"], v["case"], "::", v["detail"].replace("\n", " ")[:300])
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = "%s/%s-%d.json" % (rdir, prop, k)
            with open(path, "w") as fh:
                json.dump(dict(v, property=prop, seed=a.seed, tier=a.tier), fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s#%s] %s\n  case: %s\n  %s" % (v["batch"], v["index"], v["key"], v["case"][:1500],
                                                v["detail"][:1800].replace("\n", "\n    ")))
            if len(seen) > 60:
                break
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive))
        return 2
    if not only and (evals == 0 or len(dist) == 0):
        print("INCONCLUSIVE: nothing was observed")
        return 2
    return 0


def race_reports(text):
    out = []
    for blk in text.split("=================="):
        if "WARNING: DATA RACE" not in blk:
            continue
        frames = re.findall(r"^\s+(\S+)\(\)\n\s+\S+/([^/\s:]+\.go):\d+", blk, re.M)
        tops = []
        for part in re.split(r"(?:Previous|Goroutine)", blk)[:2]:
            m = re.search(r"^\s+(\S+)\(\)\n", part, re.M)
            if m:
                tops.append(m.group(1).split("/")[-1])
        out.append(("<->".join(sorted(tops)) or "unknown", blk.strip()[:5000]))
    return out


main()
