#!/usr/bin/env python3
"""Planted changes.
  seeds.py verify [NAME...]   patch applies, builds, stable tests, demo both ways (in a scratch copy)
  seeds.py run [NAME...]      run the check of each against a patched scratch copy; record in catches.json
mk(...) makes one (used from throw-away scripts)."""
import json, os, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEEDCOPY", "/tmp/seedcopy")
ENV = "set -a; . /opt/vp/env.sh; set +a; "

DEMO_SH = r'''#!/bin/bash
# Builds main.go.txt inside the module (through an overlay) and runs it.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
t=$(mktemp -d) || exit 2
trap 'find "$t" -delete' EXIT
cat > "$t/ov.json" <<END
{"Replace": {"$PWD/expreduce/rubi_snapshot/rubi_resources.go": "$d/rubi_stub.go.txt", "$PWD/zz_demo/main.go": "$d/main.go.txt"}}
END
go build -overlay "$t/ov.json" -o "$t/demo" ./zz_demo || exit 2
cd "$t" && timeout 120 ./demo "$d"
'''
CASES_GO = r'''package main

// Evaluates the inputs in cases.txt in one session and compares the results.

import (
	"fmt"
	"os"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func run(es expreduceapi.EvalStateInterface, in string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	return expreduce.EasyRun(in, es)
}

func main() {
	es := expreduce.NewEvalState()
	data, err := os.ReadFile(os.Args[1] + "/cases.txt")
	if err != nil {
		panic(err)
	}
	bad := 0
	for _, line := range strings.Split(strings.TrimSpace(string(data)), "\n") {
		p := strings.SplitN(line, "  ==>  ", 2)
		got := run(es, p[0])
		if len(p) == 2 && got != p[1] {
			fmt.Printf("%s\n  gives %s\n  want  %s\n", p[0], got, p[1])
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
'''


def sh(cmd, cwd=None, t=900):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")


def fresh():
    if not os.path.isdir(W):
        r = sh("git clone -q /repo %s" % W)
        assert r.returncode == 0, r.stdout
    r = sh("git fetch -q origin && git checkout -q -f origin/HEAD && git clean -fdq", W)
    assert r.returncode == 0, r.stdout


def stable():
    r = sh(ENV + "go build $PKGS && go test -count=1 -run 'TestAllocations|TestAssignments' ./expreduce/matcher", W)
    return r.returncode == 0, r.stdout


def verify(n):
    d = V + "/seeded/" + n
    fresh()
    r0 = sh("bash %s/demo.sh" % d, W, 300)
    a = sh("git apply %s/patch.diff" % d, W)
    if a.returncode:
        return "patch does not apply: " + a.stdout
    ok, o = stable()
    r1 = sh("bash %s/demo.sh" % d, W, 300)
    if r0.returncode != 0:
        return "demo fails on the unchanged tree:\n" + r0.stdout[-1500:]
    if not ok:
        return "build or tests fail:\n" + o[-1500:]
    if r1.returncode == 0:
        return "demo passes with the patch"
    if r1.returncode == 2:
        return "demo does not build: " + r1.stdout[-1500:]
    return None


def runcheck(n, prop=None):
    """In the patched copy left by verify."""
    d = V + "/seeded/" + n
    p = prop or json.load(open(d + "/meta.json"))["property"]
    r = sh("VERIF_REPO=%s VERIF_SEED=1 ./run.py %s" % (W, p), V, 950)
    vs = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
    return r.returncode, vs, r.stdout


def record(n, text):
    f = V + "/tools/catches.json"
    c = json.load(open(f)) if os.path.exists(f) else {}
    c[n] = text
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
    open(f, "a").write("\n")


def mk(name, prop, needs, breaks, edits, cases=None, main=None, check=True, race=False):
    """edits: (file under /repo, old, new). cases: lines 'input  ==>  output', or main: Go source."""
    d = V + "/seeded/" + name
    fresh()
    for f, old, new in edits:
        s = open(W + "/" + f, newline='').read()
        if s.count(old) != 1:
            print(name, "EDIT: %d occurrences in %s of %r" % (s.count(old), f, old[:60]))
            return
        open(W + "/" + f, "w", newline='').write(s.replace(old, new))
    g = sh(ENV + "gofmt -l expreduce pkg", W).stdout.split()
    if [x for x in g if x in [f for f, _, _ in edits]]:
        print(name, "GOFMT", g)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", newline='').write(subprocess.run(["git", "diff"], cwd=W, capture_output=True).stdout.decode())
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("go build -overlay", "go build -race -overlay") if race else DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/harness/stub/rubi_resources.go", d + "/rubi_stub.go.txt")
    open(d + "/main.go.txt", "w").write(main or CASES_GO)
    if cases:
        open(d + "/cases.txt", "w").write("\n".join(cases) + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    e = verify(name)
    if e:
        print(name, "BAD:", e)
        return
    if check:
        do(name)
    else:
        print(name, "ok")


def do(n):
    rc, vs, out = runcheck(n)
    p = json.load(open(V + "/seeded/" + n + "/meta.json"))["property"]
    if rc == 1 and vs:
        record(n, "caught by " + p)
        print(n, "caught", p)
    else:
        record(n, "missed by " + p)
        print(n, "MISSED", p, "rc", rc)
        print(out[-600:])
    sys.stdout.flush()


if __name__ == "__main__":
    names = sys.argv[2:] or sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*") if os.path.isdir(x))
    for n in names:
        e = verify(n)
        if e:
            print(n, "BAD:", e)
            continue
        if sys.argv[1] == "run":
            do(n)
        else:
            print(n, "ok")
