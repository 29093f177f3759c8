"""Explores the cases of a driver process (Python or Java) that cannot live inside the C++ explorer.

The driver understands
  list [thorough]                          prints "name count" for every family
  work W OF START PROGRESS [thorough]      runs every case g (global number) with g >= START and g % OF == W,
                                           writes g as 8 bytes to PROGRESS before each; prints FAIL lines and leaves
                                           with 77 at the first case that fails; prints DONE at the end
  one G [thorough]                         runs one case, reports FAIL or DONE
  desc G [thorough]                        describes a case
Reports are lines STAT json, DONE json, FAIL text, written to the file named by VERIF_REPORT (the library
prints to standard output as well)."""
import os, json, struct, subprocess, time, re

def explore(cmd, env, scratch, thorough=False, budget=420, workers=8, known=(), case_timeout=60):
    th = ["thorough"] if thorough else []
    t0 = time.time(); deadline = t0 + budget
    r = subprocess.run(cmd + ["list"] + th, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    fams = [(m.group(1), int(m.group(2))) for m in re.finditer(r"^FAMILY (\S+) (\d+)$", r.stdout, re.M)]
    if r.returncode or not fams:
        raise RuntimeError("driver lists no cases (exit %d): %s" % (r.returncode, r.stdout[-3000:]))
    total = sum(c for _, c in fams)
    def name(g):
        for n, c in fams:
            if g < c: return n, g
            g -= c
        return "?", g
    os.makedirs(scratch, exist_ok=True)
    class W: pass
    ws = []
    out = dict(cases=0, states=0, transitions=0, traces=0, families=[], samples=[], complete=True, violations=[], known_hit=[])
    done = {n: 0 for n, _ in fams}
    states = set(); stop = False
    def spawn(w, start):
        w.prog = os.path.join(scratch, "progress.%d" % w.k)
        open(w.prog, "wb").write(struct.pack("<q", -1))
        w.start = start
        w.log = open(os.path.join(scratch, "log.%d" % w.k), "w+b")
        w.rep = os.path.join(scratch, "report.%d" % w.k); open(w.rep, "w").close()
        w.p = subprocess.Popen(cmd + ["work", str(w.k), str(workers), str(start), w.prog] + th, env=dict(env, VERIF_REPORT=w.rep), stdout=w.log, stderr=subprocess.STDOUT)
        w.seen, w.since = -1, time.time() + 60
    for k in range(workers):
        w = W(); w.k = k; spawn(w, 0); ws.append(w)
    def report(g, kind, msg):
        n, i = name(g)
        if "%s:%d" % (n, i) in known: out["known_hit"].append("%s:%d" % (n, i)); return False
        k2, m2 = None, ""
        for _ in range(3):
            try:
                rp = os.path.join(scratch, "report.one"); open(rp, "w").close()
                q = subprocess.run(cmd + ["one", str(g)] + th, env=dict(env, VERIF_REPORT=rp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=case_timeout * 2)
                rt = open(rp, errors="replace").read()
                if rt.startswith("FAIL "): k2, m2 = "mismatch", rt[5:3005]; break
                if not rt.startswith("DONE"): k2, m2 = "crash(exit %d)" % q.returncode, tail(q.stdout); break
            except subprocess.TimeoutExpired: k2, m2 = "hang", "no result after %d s" % (case_timeout * 2); break
        if k2 is None and kind != "mismatch":           # a crash that never happens again is not reported
            out.setdefault("unconfirmed", []).append("%s:%d %s %s" % (n, i, kind, msg[-500:])); return False
        d = subprocess.run(cmd + ["desc", str(g)] + th, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout.strip()
        out["violations"].append(dict(family=n, index=i, kind=k2 or kind, confirmed=k2 is not None, case=d, message=m2 or msg))
        return True
    while any(w.p for w in ws):
        idle = True
        for w in ws:
            if not w.p: continue
            rc = w.p.poll()
            try: cur = struct.unpack("<q", open(w.prog, "rb").read(8))[0]
            except Exception: cur = w.seen
            if rc is None:
                if cur != w.seen: w.seen, w.since = cur, time.time()
                elif time.time() - w.since > case_timeout and cur >= 0:
                    w.p.kill(); w.p.wait()
                    if report(cur, "hang", "case ran longer than %d s" % case_timeout): stop = True
                    count(done, fams, w, cur + 1, workers)
                    if not stop: spawn(w, cur + 1)
                    else: w.p = None
                elif stop or time.time() > deadline:
                    w.p.kill(); w.p.wait(); count(done, fams, w, cur, workers); w.p = None
                    if not stop: out["complete"] = False
                continue
            idle = False
            w.log.seek(0); text = w.log.read().decode(errors="replace"); w.log.close()
            rt = open(w.rep, errors="replace").read()
            if rc == 0 and "\nDONE " in "\n" + rt:
                for j in re.findall(r"^DONE (\{.*\})$", rt, re.M): add(out, states, json.loads(j))
                count(done, fams, w, total, workers); w.p = None; continue
            for j in re.findall(r"^STAT (\{.*\})$", rt, re.M): add(out, states, json.loads(j))
            if cur < 0:
                if w.start == 0 or getattr(w, "bad", 0) > 2: raise RuntimeError("driver ended before its first case (exit %d): %s" % (rc, tail(text)))
                w.bad = getattr(w, "bad", 0) + 1; spawn(w, w.start); continue
            m = re.search(r"^FAIL (.*)", rt, re.M | re.S)
            report(cur, "mismatch" if m else "crash(exit %d)" % rc, m.group(1)[:3000] if m else tail(text))
            count(done, fams, w, cur + 1, workers)
            if len(out["violations"]) >= 3: stop = True
            if stop: w.p = None
            else: spawn(w, cur + 1)
        if idle: time.sleep(0.02)
    for n, c in fams:
        out["families"].append(dict(name=n, cases=c, explored=done[n])); out["cases"] += done[n]
        if done[n] < c: out["complete"] = False
    out["traces"] = out["cases"]; out["states"] = len(states)
    g = 0
    for n, c in fams:
        if c:
            d = subprocess.run(cmd + ["desc", str(g + c // 2)] + th, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout.strip()
            out["samples"].append(("%s#%d: %s" % (n, c // 2, d))[:700])
        g += c
    return out

def add(out, states, j):
    out["transitions"] += j.get("transitions", 0); states.update(j.get("states", []))

def count(done, fams, w, upto, workers):
    """Cases of this worker in [w.start, upto)."""
    lo = 0
    for n, c in fams:
        a, b = max(w.start, lo), min(upto, lo + c)
        if b > a:
            first = a + (w.k - a) % workers
            if first < b: done[n] += (b - 1 - first) // workers + 1
        lo += c

def tail(s, n=3000):
    for k in ("ERROR: AddressSanitizer", "runtime error", "A fatal error", "FATAL ERROR", "Assertion"):
        p = s.find(k)
        if p >= 0: return s[max(0, p - 200):p - 200 + n]
    return s[-n:]
