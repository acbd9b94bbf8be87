#!/usr/bin/env python3
"""stage2.py ALIVE OUT [file-substring...]: which mutants alive after stage 1 the checks detect."""
import json, os, re, random, subprocess, sys, shutil, threading, queue, time
IN, OUT, subs = sys.argv[1], sys.argv[2], sys.argv[3:]
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
MAP = [("merkletree/", "M01 M04 M02 M03 I01"), ("db/", "S02 S01 S03 M01 I01"), ("keystore/", "K03 K01 K02"), ("noncedb", "N01"),
 ("writerhttp", "O01 O02 I04"), ("readerhttp", "O02 V01"), ("httpclient", "O02 Z01"), ("idenpuboffchain/local", "C03"), ("idenpuboffchain", "O02 O01 V01"),
 ("idenpubonchain/local", "C03"), ("idenpubonchain", "C01 C02"), ("eth/client", "C02 C01"), ("zk/", "Z01 I03 V04"),
 ("noncegen", "I02 I01"), ("issuer", "I01 I04 I05 I03 I02 I06 I07 V01 V04 G01"), ("holder", "V01 V02 V04 V03"), ("verifier", "V01 V03 V02 V04"),
 ("crypto/", "G01 Z01"), ("idensigner", "G01"), ("core/", "I01 V01 I02 V04 V03"), ("common", "G01 O02 K03 V01"), ("identity/", "V01 I01"), ("utils/", "I01 V01")]
alive = [m for m in map(json.loads, open(IN)) if m["res"] == "alive" and (not subs or any(s in m["File"] for s in subs))]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["File"], d["Start"], d["End"], d["New"]))
alive = [m for m in alive if (m["File"], m["Start"], m["End"], m["New"]) not in done]
random.Random(int(os.environ.get("SEED", "1"))).shuffle(alive)
J = int(os.environ.get("JOBS", "2")); W = str(max(1, 8 // J)); DUR = os.environ.get("DUR", "10s")
q = queue.Queue()
for m in alive: q.put(m)
print(len(alive), "to do", flush=True)
lock = threading.Lock(); count = {}
def work(k):
    d = f"/tmp/mut/x{k}"; o = f"/tmp/mut/o{k}"; b = f"/tmp/mut/b{k}"
    for x in (d, o, b): shutil.rmtree(x, ignore_errors=True)
    subprocess.check_call(["cp", "-a", REPO, d]); os.makedirs(b); os.makedirs(o)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m["File"]); src = open(p, "rb").read()
        open(p, "wb").write(src[: m["Start"]] + m["New"].encode() + src[m["End"] :])
        env = dict(os.environ, VERIF_REPO=d)
        r = subprocess.run([V + "/check.sh", "--build", b], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: m["det"] = "nobuild " + r.stdout[-200:]
        else:
            m["det"] = "missed"
            props = next((ps for s, ps in MAP if s in m["File"]), "I01 V01").split()
            for c in props:
                t0 = time.time()
                try:
                    r = subprocess.run([b + "/simcheck", "-prop", c, "-dur", DUR, "-jobs", W, "-out", o, "-known", V + "/known_findings.txt", "-sites", b + "/sites.txt"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    m["det"] = "timeout " + c; continue
                if r.returncode == 1:
                    m["det"] = c; m["msg"] = [l for l in r.stdout.splitlines() if not l.startswith(c)][:3]; break
                if r.returncode: m["det"] = f"rc{r.returncode} {c} " + r.stdout[-300:]; break
        open(p, "wb").write(src)
        with lock:
            open(OUT, "a").write(json.dumps(m) + "\n")
            k2 = m["det"].split()[0]; count[k2] = count.get(k2, 0) + 1
            if k2 in ("missed",) or sum(count.values()) % 20 == 0: print(f'{m["File"]}:{m["Line"]} {m["Fn"]} {m["Kind"]} {m["det"]}', sum(count.values()), flush=True)
    for x in (d, o, b): shutil.rmtree(x, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
print(count)
