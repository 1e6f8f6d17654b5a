#!/usr/bin/env python3
"""Run one property's simulation check.

  check.py PROP                 seeded search (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE        execute a replay file again
  check.py --min FILE [OUT]     minimise a failing case
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import build as builder
import spec

SIM = os.path.join(VERIF, "build", "simrun")
DENSE = ("C08",)        # checked with the build in which every basic block is a scheduling point
WORKERS = 8


class Outcome:
    def __init__(self, text, rc):
        self.verdict = self.sig = self.msg = self.hash = self.taken = self.shape = ""
        self.st = {}
        for l in text.split("\n"):
            k, _, v = l.partition(" ")
            if k in ("verdict", "sig", "msg", "hash", "taken", "shape"):
                setattr(self, k, v)
            elif k == "st":
                n, _, c = v.rpartition(" ")
                self.st[n] = int(c)
        if rc:
            self.verdict = "simfail"

    @property
    def bad(self):
        return self.verdict == "violation"


class Runner:
    """executes cases; each call uses its own scratch directory"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.pool = ThreadPoolExecutor(WORKERS)
        self.n = 0

    def run(self, text):
        self.n += 1
        d = tempfile.mkdtemp(dir=self.scratch)
        try:
            r = subprocess.run([SIM, "--case", "-", "--tmp", d], input=text.encode(), capture_output=True, timeout=400)
            return Outcome(r.stdout.decode("latin1"), r.returncode)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def map(self, texts):
        return list(self.pool.map(self.run, texts))


# ---------------------------------------------------------------- minimising
def reparam(line, drop=None, put=None):
    w = line.split(" ")
    out = []
    for x in w:
        k = x.split("=")[0]
        if drop and k == drop and "=" in x:
            continue
        out.append(x)
    return " ".join(out)


def drop_column(lines, col):
    """remove feature column col from every table of the case"""
    out, data_f = [], None
    if any(l.startswith("fc ") for l in lines):
        return None
    for l in lines:
        if l.startswith("data "):
            m = re.search(r" F=(\d+)", l)
            f = int(m.group(1))
            if f <= 1 or col >= f:
                return None
            l = l.replace(m.group(0), " F=%d" % (f - 1))
        elif l.startswith("r "):
            w = l.split(" ")
            w[2] = w[2][:col] + w[2][col + 1:]
            l = " ".join(w)
        out.append(l)
    return out


def simpler(lines):
    """candidate single-line simplifications"""
    for i, l in enumerate(lines):
        if l.startswith("mem "):
            yield i, "mem fill=0 reuse=0 arena=0 seed=1 entropy=1"
        elif l.startswith("clock "):
            yield i, "clock wall0=1700000000 mono0=5000 query=1e-06 alloc=0"
            yield i, re.sub(r"wall0=\S+ mono0=\S+", "wall0=1700000000 mono0=5000", l)
        elif l.startswith("solver ") or re.match(r"op\S* set ", l):
            for x in l.split(" "):
                if "=" in x and not x.startswith("num-extra-cols") and not (l.startswith("solver") and x.startswith("seed=")):
                    yield i, reparam(l, drop=x.split("=")[0])
            m = re.search(r"max-depth=(\d+)", l)
            if m and int(m.group(1)) > 1:
                d = int(m.group(1)) - 1
                q = re.sub(r"max-depth=\d+", "max-depth=%d" % d, l)
                yield i, re.sub(r"max-num-nodes=\d+", "max-num-nodes=%d" % (2 ** d - 1), q)
                mm = re.search(r"max-num-nodes=(\d+)", q)
                if mm and int(mm.group(1)) <= 2 ** d - 1:
                    yield i, q
            m = re.search(r"max-num-nodes=(\d+)", l)
            if m and int(m.group(1)) > 1:
                yield i, re.sub(r"max-num-nodes=\d+", "max-num-nodes=%d" % (int(m.group(1)) - 1), l)
        elif l.startswith("r "):
            w = l.split(" ")
            yield i, " ".join([str(round(float(w[1])))] + w[2:]) if False else " ".join(["r", str(round(float(w[1])))] + w[2:])
            if len(w) > 3:
                yield i, " ".join(w[:3] + [str(round(float(x))) for x in w[3:]])


def minimise(runner, text, sig, budget):
    t0 = time.time()
    best = [l for l in text.split("\n") if l.strip()]

    def first_ok(cands):
        cands = [c for c in cands if c is not None and c != best]
        for i in range(0, len(cands), WORKERS):
            if time.time() - t0 > budget:
                return None
            part = cands[i:i + WORKERS]
            for c, o in zip(part, runner.map(["\n".join(c) + "\n" for c in part])):
                if o.bad and o.sig == sig:
                    return c
        return None

    removable = re.compile(r"(r|op\S*|clk|fault|sw|cfg|data|solver) ")
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        idx = [i for i, l in enumerate(best) if removable.match(l) and not l.startswith(("data", "solver"))]
        size = max(1, len(idx) // 2)
        while size >= 1 and time.time() - t0 < budget:
            idx = [i for i, l in enumerate(best) if removable.match(l) and not l.startswith(("data", "solver"))]
            c = first_ok([[l for j, l in enumerate(best) if j not in set(idx[k:k + size])] for k in range(0, len(idx), size)])
            if c:
                best = c
                progress = True
            else:
                if size == 1:
                    break
                size //= 2
        # unused solvers and data sets
        blocks = []
        for i, l in enumerate(best):
            if l.startswith("solver "):
                blocks.append([i])
            if l.startswith("data "):
                j = i + 1
                while j < len(best) and re.match(r"(r|cm|fc) ", best[j]):
                    j += 1
                blocks.append(list(range(i, j)))
        if len(blocks) > 2:
            c = first_ok([[l for j, l in enumerate(best) if j not in set(b)] for b in blocks])
            if c:
                best = c
                progress = True
        for col in range(16, -1, -1):
            c = drop_column(best, col)
            if c:
                c = first_ok([c])
                if c:
                    best = c
                    progress = True
        while time.time() - t0 < budget:
            cands = []
            for i, l in simpler(best):
                if l != best[i]:
                    cands.append(best[:i] + [l] + best[i + 1:])
            c = first_ok(cands)
            if not c or c == best:
                break
            best = c
            progress = True
        for i, l in enumerate(best):       # shorten file contents
            if not l.startswith("file "):
                continue
            m = re.match(r"(file \S+ )(.*)", l)
            parts = m.group(2).split("\\n")
            size = max(1, len(parts) // 2)
            while size >= 1 and time.time() - t0 < budget:
                c = first_ok([best[:i] + [m.group(1) + "\\n".join(parts[:k] + parts[k + size:])] + best[i + 1:] for k in range(0, len(parts), size)])
                if c:
                    best = c
                    parts = re.match(r"(file \S+ )(.*)", best[i]).group(2).split("\\n")
                    progress = True
                else:
                    if size == 1:
                        break
                    size //= 2
    return "\n".join(best) + "\n"


def explicit_schedule(text, o):
    """replace the seeded scheduler by the list of switches it took"""
    if not o.taken:
        return text
    ls = [l for l in text.split("\n") if l.strip() and not l.startswith("sched ")]
    ls += ["sw %s %s" % tuple(x.split(":")) for x in o.taken.split()]
    return "\n".join(ls) + "\n"


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip() and not l.startswith(("#", "fixed:")):
                out.append(json.loads(l))
    return out


def match_known(known, prop, sig, text):
    for k in known:
        if k["property"] == prop and re.fullmatch(k["sig"], sig) and all(re.search(x, text, re.M) for x in k.get("case", [])):
            return k
    return None


# ---------------------------------------------------------------- search
def prepare(prop):
    global SIM
    SIM = os.path.join(VERIF, "build", "simrun-dense" if prop in DENSE else "simrun")
    return builder.main(prop in DENSE)


def main_check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    if prepare(prop):
        return 3
    S = spec.PROPS[prop]
    scratch = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
    try:
        return search(prop, S, seed, tier, thorough, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def legs_of(prop, S, seed, tier, scratch):
    """extra (Python) legs: list of dicts in the same form as the native summary"""
    if not S.get("pyleg"):
        return None
    import pyleg
    return pyleg


def search(prop, S, seed, tier, thorough, scratch, t0):
    runner = Runner(scratch)
    viol, stats, shapes, hashes, samples = [], {}, set(), set(), []
    tot = dict(runs=0, invalid=0, nontrivial=0, simtime=0.0)
    known = known_findings()
    if S.get("runs"):
        n = S["runs"] * (S.get("thorough_factor", 8) if thorough else 1)
        secs = S.get("seconds", 110) * (8 if thorough else 1)
        procs = []
        for w in range(WORKERS):
            d = os.path.join(scratch, "w%d" % w)
            os.mkdir(d)
            cmd = [SIM, "--prop", prop, "--seed", str(seed), "--from", str(w), "--step", str(WORKERS), "--count", str(n // WORKERS), "--seconds", str(secs),
                   "--tmp", d, "--hashes", os.path.join(scratch, "h%d" % w)] + (["--thorough"] if thorough else [])
            procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
        for w, p in enumerate(procs):
            out = p.communicate()[0].decode("latin1")
            if p.returncode:
                print("simulator failed:", out[-500:])
                return 3
            for l in out.split("\n"):
                if l.startswith("VIOL "):
                    a, _, msg = l.partition("\t")
                    _, run, sig = a.split(" ", 2)
                    viol.append((int(run), sig, msg))
                elif l.startswith("SUMMARY "):
                    j = json.loads(l[8:])
                    for k in tot:
                        tot[k] += j[k]
                    for k, v in j["st"].items():
                        stats[k] = max(stats.get(k, 0), v) if k.startswith("max.") else stats.get(k, 0) + v
                    samples += j["samples"]
            for l in open(os.path.join(scratch, "h%d" % w)):
                (shapes if l[0] == "S" else hashes).add(l[2:].strip())
    search_s = time.time() - t0
    py = None
    if S.get("pyleg"):
        import pyleg
        py = pyleg.run(prop, seed, thorough, scratch)
        if py.get("error"):
            print("python simulation failed:", py["error"])
            if not viol:
                return 3
            py = None
    # ---- violations: gate, minimise, report
    viol.sort()
    reported, new, seen = [], 0, set()
    rc, spent = 0, 0.0
    tf = ["--thorough"] if thorough else []
    for run, sig, msg in viol:
        if sig in seen or len(seen) >= 4:
            continue
        text = subprocess.run([SIM, "--gen", prop, str(seed), str(run)] + tf, capture_output=True).stdout.decode("latin1")
        k = match_known(known, prop, sig, text)
        if k:
            if k["what"] not in reported:
                reported.append(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            continue
        seen.add(sig)
        a, b = runner.run(text), runner.run(text)
        if not (a.bad and b.bad and a.sig == sig and b.sig == sig and a.hash == b.hash):
            print("not reproducible: run %d %s: %s/%s %s/%s" % (run, sig, a.sig, a.hash, b.sig, b.hash))
            rc = max(rc, 3)
            continue
        if a.taken:
            t2 = explicit_schedule(text, a)
            o = runner.run(t2)
            if o.bad and o.sig == sig:
                text = t2
        t1 = time.time()
        small = minimise(runner, text, sig, 300 if thorough else max(10, 75 - spent / 2))
        spent += time.time() - t1
        o = runner.run(small)
        o2 = runner.run(small)
        if not (o.bad and o.sig == sig and o.hash == o2.hash):
            print("minimised case not reproducible: run %d" % run)
            rc = max(rc, 3)
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d-%d.case" % (prop, seed, run))
        with open(path, "w") as f:
            f.write("# property=%s seed=%d run=%d\n# %s: %s\n# history %s\n%s" % (prop, seed, run, o.sig, o.msg, o.hash, small))
        print("run %d: %s" % (run, o.msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        new += 1
    if py:
        for v in py["violations"]:
            k = match_known(known, prop, v["sig"], v["text"])
            if k:
                if k["what"] not in reported:
                    reported.append(k["what"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            print("%s" % v["msg"])
            print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
            new += 1
    wall = time.time() - t0
    cov = {
        "evaluations": tot["runs"] - tot["invalid"] + (py["runs"] if py else 0),
        "distinct_nontrivial": len(shapes) + (len(py["shapes"]) if py else 0),
        "rule": S["rule"],
        "samples": samples[:6] + (py["samples"][:6] if py else []),
        "distinct_histories": len(hashes) + (len(py["hashes"]) if py else 0),
        "nontrivial_runs": tot["nontrivial"] + (py["nontrivial"] if py else 0),
        "runs_per_hour": round((tot["runs"] + (py["runs"] if py else 0)) / max(search_s + (py["wall"] if py else 0), 1e-9) * 3600),
        "simulated_seconds": round(tot["simtime"] + (py["simtime"] if py else 0), 3),
        "events": dict(sorted(stats.items())),
        "components": S.get("components", spec.COMPONENTS),
        "known_findings_seen": len(reported),
    }
    if py:
        cov["python_events"] = py["st"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": S["level"], "coverage": cov, "assumptions": spec.ASSUMPTIONS + S.get("assumptions", []), "wall_s": round(wall, 2), "violations": new}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d violations, %.1f s" % (prop, cov["evaluations"], new, wall))
    return 1 if new else rc


def main():
    a = sys.argv[1:]
    if a[0] in ("--replay", "--min"):
        text = open(a[1]).read()
        if "\n#py" in "\n" + text:
            if builder.main():
                return 3
            import pyleg
            return pyleg.replay(a[1])
        if prepare(re.search(r"^prop (\S+)", text, re.M).group(1)):
            return 3
        scratch = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
        try:
            r = Runner(scratch)
            o = r.run(text)
            if a[0] == "--min":
                text = "\n".join(l for l in text.split("\n") if not l.startswith("#"))
                if o.taken:
                    text = explicit_schedule(text, o)
                t = minimise(r, text, o.sig, 120)
                o = r.run(t)
                if len(a) > 2:
                    open(a[2], "w").write(t)
                else:
                    print(t)
            print("%s %s: %s (history %s)" % (o.verdict, o.sig, o.msg, o.hash))
            m = re.search(r"^# history (\S+)", text, re.M)
            if a[0] == "--replay" and m:
                print("recorded history %s" % ("reproduced exactly" if m.group(1) == o.hash else "differs: " + m.group(1)))
            p = re.search(r"^prop (\S+)", text, re.M).group(1)
            if o.bad:
                print("VIOLATION property=%s replay=%s" % (p, a[1]))
            return 1 if o.bad else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return main_check(a[0])


if __name__ == "__main__":
    sys.exit(main())
