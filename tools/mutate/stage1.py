#!/usr/bin/env python3
"""stage1.py OUT N SEED [file-substring...]: which sampled mutants compile and pass the stable tests."""
import json, os, random, subprocess, sys, shutil, threading, queue
OUT, N, SEED, subs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", CGO_ENABLED="1", GOSUMDB="off")
M = "github.com/iden3/go-iden3-core"
REPO = "/repo"
files = [f for f in subprocess.check_output(["git", "ls-files"], cwd=REPO, text=True).split() if f.endswith(".go") and not f.endswith("_test.go") and not any(s in f for s in ("testgen", "eth/contracts", "mock"))]
if subs: files = [f for f in files if any(s in f for s in subs)]
muts = []
for f in files:
    for l in subprocess.check_output(["/tmp/mutate", f], cwd=REPO, text=True).splitlines():
        m = json.loads(l)
        if m["Kind"] == "int" and random.Random(l).random() < 0.6: continue
        muts.append(m)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["File"], d["Start"], d["End"], d["New"]))
rnd = random.Random(SEED)
# sample evenly over files, by the square root of their number of mutants
by = {}
for m in muts: by.setdefault(m["File"], []).append(m)
pick = []
tot = sum(len(v) ** 0.75 for v in by.values())
for f, v in by.items():
    rnd.shuffle(v)
    pick += v[: max(3, int(N * len(v) ** 0.75 / tot))]
rnd.shuffle(pick)
pick = [m for m in pick if (m["File"], m["Start"], m["End"], m["New"]) not in done]
print(len(muts), "mutants,", len(pick), "picked")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
q = queue.Queue()
for m in pick: q.put(m)
lock = threading.Lock(); count = {}
def tests(d):
    """returns None if all stable tests pass"""
    skip = {M + "/components/verifier", M + "/identity/issuer"}
    pk = [p for p in subprocess.check_output(["go", "list", "-e", "./..."], cwd=d, env=env, text=True).split() if p not in skip and p != M + "/core/claims"]
    got = set()
    def run(args):
        try:
            o = subprocess.run(["go", "test", "-json", "-vet=off", "-timeout", "90s"] + args, cwd=d, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200).stdout
        except subprocess.TimeoutExpired: return
        for l in o.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("Test") and j["Action"] == "pass": got.add(j["Package"] + "/" + j["Test"])
    run(["-p", "2"] + pk)
    cl = [t for t in stable if "/core/claims/" in t]
    if (stable - got) - set(cl): return sorted((stable - got) - set(cl))[0]
    run(["-run", "^(" + "|".join(t.rsplit("/", 1)[1] for t in cl) + ")$", "./core/claims"])
    if stable - got: return sorted(stable - got)[0]
def work(k):
    d = f"/tmp/mut/w{k}"
    shutil.rmtree(d, ignore_errors=True); subprocess.check_call(["cp", "-a", REPO, d])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m["File"]); src = open(p, "rb").read()
        open(p, "wb").write(src[: m["Start"]] + m["New"].encode() + src[m["End"] :])
        r = subprocess.run(["go", "build", "./..."], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode: m["res"] = "nobuild"
        else:
            t = tests(d)
            m["res"] = "killed " + t if t else "alive"
        open(p, "wb").write(src)
        with lock:
            open(OUT, "a").write(json.dumps(m) + "\n")
            k2 = m["res"].split()[0]; count[k2] = count.get(k2, 0) + 1
            if sum(count.values()) % 50 == 0: print(count, flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get("JOBS", "8")))]
[t.start() for t in ts]; [t.join() for t in ts]
print(count)
