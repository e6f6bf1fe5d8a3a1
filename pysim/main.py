"""check / replay / worker for the properties of the Python parts."""
import gc
import hashlib
import importlib
import importlib.machinery
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


_code = {}


def _compile(self, data, path, *, _optimization=-1):
    k = path, bytes(data)
    if k not in _code:
        _code[k] = compile(data, path, "exec", dont_inherit=True, optimize=_optimization)
    return _code[k]


def setup():
    # a module is compiled once, and run anew in every simulated process
    importlib.machinery.SourceFileLoader.source_to_code = _compile
    sys.dont_write_bytecode = True
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.path[:0] = [HERE, os.path.join(HERE, "stubs"), REPO]
    sys.unraisablehook = lambda *a: None
    import simproc
    simproc.install()
    import simnet
    simnet.install()
    import simfs
    simfs.install()


def module(prop):
    return importlib.import_module(prop.lower())


class Null(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class Endless(BaseException):
    pass


def _alarm(*a):
    raise Endless()


def one(m, sc, limit=40):
    """Runs a scenario; what the code prints goes nowhere."""
    out = sys.stdout
    sys.stdout = Null()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        v, repro, st = m.run(sc)
    except Endless:
        v, repro, st = "the code never ends", sc, {"reached": {}, "faults": {}, "ops": {}, "runs": 1, "steps": 0}
    except ImportError:
        raise
    except Exception as e:
        # an error where the scenario expects none, of the code or of what it was given back
        v, repro, st = "unexpected error: %s: %s" % (type(e).__name__, e), sc, {"reached": {}, "faults": {}, "ops": {}, "runs": 1, "steps": 0}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = out
    return v, repro, st


def digest(v, st):
    return hashlib.blake2s(json.dumps([v, st], sort_keys=True).encode(), digest_size=8).hexdigest()


def scenario(m, prop, seed, i):
    r = random.Random("%s/%d/%d" % (prop, seed, i))
    return json.loads(json.dumps(m.gen(r)))


def shrink(m, sc, v, secs=40):
    end = time.time() + secs
    sc0 = sc
    n = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in m.smaller(sc):
            if time.time() > end:
                break
            n += 1
            try:
                w, rep, _ = one(m, c)
            except Exception:
                continue
            if w and kindof(w) == kindof(v):
                sc = json.loads(json.dumps(c))
                progress = True
                break
    w, rep, st = one(m, sc)
    if not w:
        return sc0, v
    return json.loads(json.dumps(rep)), w


def kindof(v):
    return v.split(":")[0].split("got")[0].translate({ord(c): None for c in "0123456789"})


def worker(prop, seed, start, stride, n, secs):
    m = module(prop)
    end = time.time() + secs
    gc.disable()
    out = sys.stdout
    tot = {"scen": 0, "cut": False, "reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0, "kinds": {}, "nontrivial": 0, "digests": [], "samples": [], "first": None, "states": [], "clock": 0.0}
    states = set()
    i = start
    while i < n or n == 0:
        if time.time() > end:
            tot["cut"] = True
            break
        sc = scenario(m, prop, seed, i)
        v, rep, st = one(m, sc)
        d = digest(v, st)
        tot["scen"] += 1
        tot["kinds"][sc["kind"]] = tot["kinds"].get(sc["kind"], 0) + 1
        for k in ("reached", "faults", "ops"):
            for a, b in st[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        for k in ("runs", "steps"):
            tot[k] += st[k]
        tot["clock"] += st.get("clock", 0)
        for s in st.get("scheds", ()):
            states.add(s)
        if set(st["reached"]) & m.NONTRIVIAL:
            tot["nontrivial"] += 1
        tot["digests"].append(d)
        if i < 6:
            tot["samples"].append({"scenario": i, "kind": sc["kind"], "case": m.brief(sc), "reached": st["reached"], "injected": st["faults"]})
        if v:
            tot["first"] = {"i": i, "v": v, "sc": json.loads(json.dumps(rep))}
            break
        if tot["scen"] % 200 == 0:
            gc.collect()
        i += stride
    tot["states"] = sorted(states)
    json.dump(tot, out)


def known(home, prop):
    out = []
    for l in open(os.path.join(home, "KNOWN_FINDINGS.txt")):
        if l.startswith("known: property=%s " % prop):
            f = [x.strip() for x in l[7:].split("|")]
            out.append((f[1].split("=", 1)[1], f[2].split("=", 1)[1], f[3]))
    return out


def check(prop, tier, seed, home, n, secs):
    t0 = time.time()
    W = min(8, os.cpu_count() or 8)
    if tier == "thorough":
        seed += 1000
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    me = [sys.executable, os.path.abspath(__file__)]
    m = module(prop)
    # listed findings
    listed = []
    for f, text, what in known(home, prop):
        sc = json.load(open(os.path.join(home, f)))["scenario"]
        v, _, _ = one(m, sc)
        if v and text in v:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        listed.append(text)
    ps = [subprocess.Popen(me + ["worker", prop, str(seed), str(w), str(W), str(n), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env) for w in range(W)]
    outs = []
    for w, p in enumerate(ps):
        try:
            o, e = p.communicate(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            print("verif: a worker does not answer", file=sys.stderr)
            return 2
        if p.returncode:
            sys.stderr.write(e.decode()[-3000:])
            print("verif: a worker failed (%s)" % p.returncode, file=sys.stderr)
            return 2
        outs.append(json.loads(o))
    first = min((o["first"] for o in outs if o["first"]), key=lambda x: x["i"], default=None)
    # the same scenarios in another process, under another hash seed
    k = min(8, n or 8)
    p = subprocess.run(me + ["worker", prop, str(seed), "0", "1", str(k), "60"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(env, PYTHONHASHSEED="7"))
    diff = 0
    compared = 0
    if p.returncode == 0:
        again = json.loads(p.stdout)["digests"]
        for i, d in enumerate(again):
            o = outs[i % W]["digests"]
            if i // W < len(o):
                compared += 1
                diff += o[i // W] != d
    if diff:
        print("verif: %d of %d scenarios did not repeat" % (diff, compared), file=sys.stderr)
        if not first:
            return 2
    tot = {}
    for k in ("reached", "faults", "ops", "kinds"):
        tot[k] = {}
        for o in outs:
            for a, b in o[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
    for k in ("scen", "runs", "steps", "nontrivial", "clock"):
        tot[k] = sum(o[k] for o in outs)
    digests = {d for o in outs for d in o["digests"]}
    scheds = {d for o in outs for d in o["states"]}
    rc = 0
    if first:
        sc, v = shrink(m, first["sc"], first["v"])
        name = os.path.join(home, "replays", "%s-%d-%d.json" % (prop, seed, first["i"]))
        os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, "w") as f:
            json.dump({"property": prop, "seed": seed, "index": first["i"], "violation": v, "engine": "pysim", "scenario": sc}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, name))
        print("  seed %d, scenario %d: %s" % (seed, first["i"], v))
        rc = 1
    wall = time.time() - t0
    ev = {
        "property": prop, "level": "exploration", "tier": tier, "seed": seed, "violations": 1 if first else 0, "wall_s": wall,
        "assumptions": m.ASSUME if hasattr(m, "ASSUME") else ["sampled, not exhaustive: a clean run is evidence for the executions explored"],
        "coverage": {
            "evaluations": tot["scen"], "nontrivial": tot["nontrivial"], "distinct_nontrivial": min(tot["nontrivial"], len(digests)),
            "rule": "A case is a scenario drawn from VERIF_SEED and its index. Non-trivial: the run reached at least one of %s. Distinct: another execution digest (what was reached, injected and operated, operation and step counts)." % ", ".join(sorted(m.NONTRIVIAL)),
            "cut_by_time": any(o["cut"] for o in outs), "kinds_of_scenario": tot["kinds"], "reached": tot["reached"], "faults_injected": tot["faults"],
            "operations": tot["ops"], "simulated_process_runs": tot["runs"], "steps": tot["steps"], "simulated_clock_seconds": tot["clock"],
            "distinct_schedules": len(scheds) or len(digests), "distinct_schedules_means": "different sequences of scheduling choices, by hash" if scheds else "different execution digests",
            "runs_per_hour": int(tot["runs"] / wall * 3600), "seeds_per_hour": int(tot["scen"] / wall * 3600),
            "determinism_selftest": {"compared_across_processes": compared, "different": diff},
            "real_components": m.REAL, "stub_components": m.STUB, "samples": sorted((s for o in outs for s in o["samples"]), key=lambda s: s["scenario"]),
        },
    }
    os.makedirs(os.path.join(home, "evidence"), exist_ok=True)
    with open(os.path.join(home, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d scenarios, %d simulated runs, %.0f s, %s" % (prop, tier, tot["scen"], tot["runs"], wall, "VIOLATED" if rc else "held"))
    return rc


def replay(name):
    rp = json.load(open(name))
    m = module(rp["property"])
    v, _, _ = one(m, rp["scenario"])
    print(v or "no violation")
    if v == rp["violation"]:
        print("VIOLATION property=%s replay=%s" % (rp["property"], name))
        return 1
    return 0 if v is None else 1


def main():
    setup()
    a = sys.argv[1:]
    if a[0] == "worker":
        worker(a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]), float(a[6]))
        return 0
    if a[0] == "check":
        return check(a[1], a[2], int(a[3]), a[4], int(a[5]), float(a[6]))
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "debug":
        m = module(a[1])
        sc = scenario(m, a[1], int(a[2]), int(a[3]))
        print(json.dumps(sc)[:3000])
        print(one(m, sc))
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
