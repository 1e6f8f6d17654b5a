"""Python part of a check: runs bin/pysim.py in parallel, gates, minimises and reports its violations."""
import copy, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import build as builder
import spec

WORKERS = 8
SIM = os.path.join(VERIF, "bin", "pysim.py")


def environment():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
    e.update(LD_PRELOAD=os.path.join(VERIF, "build", "py", "pre.so"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED=os.environ.get("PYSIM_HASHSEED", "0"))
    return e


class Server:
    """a process that executes cases"""

    def __init__(self, scratch):
        self.tmp = tempfile.mkdtemp(dir=scratch)
        self.p = subprocess.Popen([builder.PYTHON, "-W", "ignore", SIM, "--serve", "--tmp", self.tmp], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=environment())

    def run(self, case):
        self.p.stdin.write((json.dumps(case) + "\n").encode())
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError("python simulator ended")
        return json.loads(l)

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        shutil.rmtree(self.tmp, ignore_errors=True)


def fresh(case, scratch):
    s = Server(scratch)
    try:
        return s.run(case)
    finally:
        s.close()


def smaller(c):
    """candidate simplifications, larger cuts first"""
    n = len(c["ops"])
    size = max(1, n // 2)
    while size >= 1:
        for k in range(0, n, size):
            q = copy.deepcopy(c)
            del q["ops"][k:k + size]
            yield q
        size //= 2
    for k in range(len(c.get("of", ()))):
        q = copy.deepcopy(c)
        del q["of"][k]
        yield q
        q = copy.deepcopy(c)
        q["of"][k][1] = 1
        if q != c:
            yield q
    for k in range(len(c.get("nest", ()))):
        q = copy.deepcopy(c)
        del q["nest"][k]
        yield q
    n = len(c.get("sw", ()))
    size = max(1, n // 2)
    while size >= 1 and n:
        for k in range(0, n, size):
            q = copy.deepcopy(c)
            del q["sw"][k:k + size]
            yield q
        size //= 2
    if len(c["ests"]) > 1 and c["prop"] not in ("C08", "C19"):
        for e in range(len(c["ests"])):
            q = copy.deepcopy(c)
            del q["ests"][e]
            q["ops"] = [dict(o, e=o["e"] - (o["e"] > e)) for o in q["ops"] if o["e"] != e]
            yield q
    used = {o.get("d") for o in c["ops"]}
    for d in range(len(c["datas"]) - 1, -1, -1):
        if d not in used:
            q = copy.deepcopy(c)
            del q["datas"][d]
            for o in q["ops"]:
                if o.get("d", -1) > d:
                    o["d"] -= 1
            yield q
    for i, o in enumerate(c["ops"]):
        for k in ("af", "wf", "long", "names", "bad", "deep"):
            if o.get(k):
                q = copy.deepcopy(c)
                if k in ("af", "wf") and len(o[k]) > 1:
                    for j in range(len(o[k])):
                        q2 = copy.deepcopy(q)
                        del q2["ops"][i][k][j]
                        yield q2
                q["ops"][i].pop(k)
                yield q
        for k in list(o.get("p", ())):
            q = copy.deepcopy(c)
            q["ops"][i]["p"].pop(k)
            yield q
    if c["clk"]:
        for k in range(len(c["clk"])):
            q = copy.deepcopy(c)
            del q["clk"][k]
            yield q
    if c["mem"] != [0, 0, 0, 1, 1]:
        yield dict(copy.deepcopy(c), mem=[0, 0, 0, 1, 1])
    for i, e in enumerate(c["ests"]):
        for k in list(e["params"]):
            if k == "sensitive_feature":
                continue
            q = copy.deepcopy(c)
            q["ests"][i]["params"].pop(k)
            yield q
        if e["params"].get("max_depth", 3) > 1:
            q = copy.deepcopy(c)
            q["ests"][i]["params"]["max_depth"] = e["params"].get("max_depth", 3) - 1
            q["ests"][i]["params"].pop("max_num_nodes", None)
            yield q
    for d, t in enumerate(c["datas"]):
        n = len(t["X"])
        size = n // 2
        while size >= 1 and n > 2:
            for k in range(0, n, size):
                if n - size < 2:
                    continue
                q = copy.deepcopy(c)
                for key in ("X", "y"):
                    del q["datas"][d][key][k:k + size]
                yield q
            size //= 2


def minimise(case, sig, scratch, budget):
    t0 = time.time()
    servers = [Server(scratch) for _ in range(WORKERS)]
    best = case

    def bad(a):
        s, c = a
        try:
            o = s.run(c)
            return o["verdict"] == "violation" and o["sig"] == sig
        except Exception:
            return False
    try:
        with ThreadPoolExecutor(WORKERS) as ex:
            progress = True
            while progress and time.time() - t0 < budget:
                progress = False
                cands = list(smaller(best))
                for i in range(0, len(cands), WORKERS):
                    if time.time() - t0 > budget:
                        break
                    part = cands[i:i + WORKERS]
                    hit = [c for c, b in zip(part, ex.map(bad, zip(servers, part))) if b]
                    if hit:
                        best = hit[0]
                        progress = True
                        break
    finally:
        for s in servers:
            s.close()
    return best


def run(prop, seed, thorough, scratch):
    t0 = time.time()
    S = spec.PROPS[prop]
    if builder.main() or builder.python_package():
        return {"error": "building the Python package failed"}
    n = S["pyleg"] * (8 if thorough else 1)
    procs = []
    for w in range(WORKERS):
        d = os.path.join(scratch, "p%d" % w)
        os.mkdir(d)
        cmd = [builder.PYTHON, "-W", "ignore", SIM, "--prop", prop, "--seed", str(seed), "--from", str(w), "--step", str(WORKERS), "--count", str(n // WORKERS),
               "--seconds", str(S.get("pyseconds", 150) * (8 if thorough else 1)), "--tmp", d, "--hashes", os.path.join(scratch, "ph%d" % w)] + (["--thorough"] if thorough else [])
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environment()))
    out = {"violations": [], "runs": 0, "shapes": set(), "hashes": set(), "samples": [], "nontrivial": 0, "simtime": 0.0, "st": {}}
    viol, err = [], None
    with ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(lambda p: p.communicate(), procs))
    for w, (p, (o, e)) in enumerate(zip(procs, res)):
        try:
            j = json.loads(o.decode().strip().split("\n")[-1])
        except Exception:
            return {"error": "worker %d: exit %d %s" % (w, p.returncode, e.decode("utf-8", "replace")[-1500:])}
        if "error" in j:
            return {"error": j["error"]}
        out["runs"] += j["runs"]
        out["nontrivial"] += j["nontrivial"]
        out["simtime"] += j["simtime"]
        out["samples"] += j["samples"]
        for k, v in j["st"].items():
            out["st"][k] = out["st"].get(k, 0) + v
        viol += [tuple(v) for v in j["viol"]]
        for l in open(os.path.join(scratch, "ph%d" % w)):
            (out["shapes"] if l[0] == "S" else out["hashes"]).add("py " + l[2:].strip())
    out["wall"] = time.time() - t0
    out["st"] = dict(sorted(out["st"].items()))
    seen, spent = set(), 0.0
    for r, sig, msg in sorted(viol):
        if sig in seen or len(seen) >= 3:
            continue
        seen.add(sig)
        g = subprocess.run([builder.PYTHON, "-W", "ignore", SIM, "--gen", prop, str(seed), str(r)] + (["--thorough"] if thorough else []), capture_output=True, env=environment())
        case = json.loads(g.stdout)
        a, b = fresh(case, scratch), fresh(case, scratch)
        if not (a["verdict"] == b["verdict"] == "violation" and a["sig"] == b["sig"] == sig and a["hash"] == b["hash"]):
            err = "not reproducible: python run %d %s: %s/%s %s/%s" % (r, sig, a["sig"], a["hash"], b["sig"], b["hash"])
            continue
        if "taken" in a:
            q = copy.deepcopy(case)
            q.pop("sched")
            q["sw"] = a["taken"]
            o = fresh(q, scratch)
            if o["verdict"] == "violation" and o["sig"] == sig:
                case = q
        t1 = time.time()
        small = minimise(case, sig, scratch, 240 if thorough else max(15, 60 - spent / 2))
        spent += time.time() - t1
        a, b = fresh(small, scratch), fresh(small, scratch)
        if not (a["verdict"] == b["verdict"] == "violation" and a["sig"] == b["sig"] == sig and a["hash"] == b["hash"]):
            small = case
            a = fresh(small, scratch)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d-py%d.case" % (prop, seed, r))
        text = json.dumps(small, indent=1)
        with open(path, "w") as f:
            f.write("#py property=%s seed=%d run=%d\n# %s: %s\n# history %s\n%s\n" % (prop, seed, r, a["sig"], a["msg"].replace("\n", " "), a["hash"], text))
        out["violations"].append({"sig": sig, "text": text, "msg": "python run %d: %s" % (r, a["msg"]), "path": path})
    if err and not out["violations"]:
        out["error"] = err
    return out


def replay(path):
    if builder.main() or builder.python_package():
        return 3
    text = open(path).read()
    case = json.loads("\n".join(l for l in text.split("\n") if not l.startswith("#")))
    scratch = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
    try:
        o = fresh(case, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("%s %s: %s (history %s)" % (o["verdict"], o["sig"], o["msg"], o["hash"]))
    m = re.search(r"^# history (\S+)", text, re.M)
    if m:
        print("recorded history %s" % ("reproduced exactly" if m.group(1) == o["hash"] else "differs: " + m.group(1)))
    if o["verdict"] == "violation":
        print("VIOLATION property=%s replay=%s" % (case["prop"], path))
        return 1
    return 0 if o["verdict"] == "ok" else 3
