"""C25: stages and pipelines process every record exactly once, or fail."""
import gzip
import json
import random
from fractions import Fraction

import simfs
import simproc
from simfs import ROOT, SimCrash

KEYS = ['FileName', 'Application', 'ApplicationVersion', 'BlockId', 'BlockName', 'ExeCPU', 'FileType', 'FinishedTimeStamp', 'GenericType', 'GridName',
        'InputCollection', 'InputSE', 'IsParentFile', 'JobExecExitCode', 'JobExecExitTimeStamp', 'JobId', 'JobMonitorId', 'JobType', 'LumiRanges', 'NCores',
        'NEventsPerJob', 'NEvProc', 'NEvReq', 'NewGenericType', 'NewType', 'NTaskSteps', 'ProtocolUsed', 'SchedulerJobIdV2', 'SchedulerName', 'SiteName',
        'StartedRunningTimeStamp', 'StrippedBlocks', 'StrippedFiles', 'SubmissionTool', 'SuccessFlag', 'TargetCE', 'TaskId', 'TaskJobId', 'TaskMonitorId', 'Type',
        'UserId', 'ValidityFlag', 'WNHostName', 'WrapCPU', 'WrapWC']


def cmsrec(x):
    """The full record of the short form in a scenario."""
    out = {}
    for i, k in enumerate(KEYS):
        out[k] = [i + x["i"], float(i) / 2, "v%d.%d" % (i, x["i"]), "unknown"][i % 4]
    out["FileName"], out["Type"], out["WrapCPU"], out["JobId"] = x["f"], x["t"], float(x["c"]), x["i"]
    return out


def gen(r):
    sc = {"kind": r.choice(["task", "task", "pipe", "pipe", "cms"]), "seed": r.randrange(1 << 40)}
    sc["mode"] = r.choice(["random", "random", "first", "parent-first", "workers-first", "feeders-last", "starve"])
    sc["pipe"] = r.choice([1, 2, 5, 64, 1000])
    sc["spark"] = r.random() < 0.15
    sc["parallel"] = r.choice([1, 2, 3, 4])
    sc["split"] = r.randrange(1 << 40) if r.random() < 0.3 else None
    nb = r.choice([0, 1, 2, 3, 5, 5, 8, 12])
    i = 0
    sc["input"] = []
    slow = r.random() < 0.4
    for _ in range(nb):
        b = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 7]) if r.random() < 0.98 else r.choice([60, 130, 300])):
            if sc["kind"] == "cms":
                b.append({"i": i, "t": r.choice(["analysis", "analysis", "analysis", "production"]), "c": r.randrange(100),
                          "f": r.choice(["/store/%s/%s/%s/%s/x%d.root" % (r.choice(["data", "mc", "data", "user"]), r.choice(["R1", "R2"]), r.choice(["P", "Q"]),
                                                                          r.choice(["AOD", "RAW"]), i)] * 8 + ["unknown", "/store/mc/x", "/", "store//mc/R1/P/AOD/y"])})
            else:
                b.append({"i": i, "o": r.choice([1, 1, 1, 0, 2, 3]), "t": r.choice([0, 0, 0.1, 3, 6, 40]) if slow else 0})
            i += 1
        sc["input"].append(b)
    sc["nproc"] = r.choice([1, 1, 2, 3, 4, 8])
    if sc["kind"] != "task":
        sc["src"] = r.choice(["own", "own", "json", "avro"]) if sc["kind"] == "pipe" else r.choice(["own", "json", "avro"])
        sc["batch"] = r.choice([1, 2, 3, 5, 100])
        sc["raw"] = r.choice([1, 2, 3, 4, 100])
        sc["stages"] = r.choice([1, 1, 2, 3]) if sc["kind"] == "pipe" else r.choice([1, 2, 3])
        sc["savestage"] = r.random() < 0.4
        sc["save"] = r.random() < 0.5
        sc["day"] = [2018, r.choice([1, 2, 12]), r.choice([1, 27, 28])]
    sc["fault"] = None
    k = r.randrange(100)
    if k < 14:
        sc["fault"] = ["kill", {str(r.randrange(1, 6)): r.choice([1, 2, 3, 5, 8, 13, 30])}]
    elif k < 24:
        sc["fault"] = ["poison", r.choice(["raise", "exit", "osexit", "badrec"]), r.randrange(max(i, 1))]
    elif k < 32:
        sc["fault"] = ["refuse", r.randrange(1, 8)]
    elif k < 44:
        sc["fault"] = ["disk", None, r.choice(["error", "error", "enospc", "shortwrite"]), r.randrange(1 << 30)]
    elif k < 47:
        sc["fault"] = ["full", r.choice([1, 50, 300, 1000, 4000])]
    elif k < 51:
        sc["fault"] = ["input", r.randrange(nb + 1)]
    elif k < 56 and sc["spark"]:
        sc["fault"] = ["spark", [r.randrange(1, 9) for _ in range(r.choice([1, 1, 2, 6]))]]
    return sc


class Poison(Exception):
    pass


class Exited(BaseException):
    pass


# -------------------------------------------------------------- own stages

def mkstage(Stage, name, no, fault, fired, cms=False):
    mine = fault and fault[0] == "poison" and no == 0

    class Own(Stage):
        @staticmethod
        def process(records, queue=None):
            out = []
            for x in records:
                if x.get("t"):
                    simproc.S[0].wait(lambda: False, x["t"])
                if mine and x["i"] == fault[2]:
                    fired.append(1)
                    if fault[1] == "raise":
                        raise Poison("bad record")
                    if fault[1] == "exit":
                        raise SystemExit(3)
                    if fault[1] == "osexit":
                        raise SimCrash()
                    if queue:
                        queue.put("no record")
                    else:
                        out.append("no record")
                for y in step(no, x):
                    if queue:
                        queue.put(y)
                    else:
                        out.append(y)
            return None if queue else out
    return Own(name)


def step(no, x):
    """What stage number no makes of a record."""
    if no == 0:
        return [{"i": x["i"], "k": k, "s": "é%d/%d" % (x["i"], k), "w": x["t"] + 0.5} for k in range(x["o"])]
    if no == 1:
        return [dict(x, s=x["s"] + "+")] if x["i"] % 3 else []
    return [dict(x, s="a" + x["s"]), dict(x, s="b" + x["s"])]


# -------------------------------------------------------------- the run

def env(sc, fs, st, trace=None):
    f = sc["fault"]
    kills = {int(k): n for k, n in f[1].items()} if f and f[0] == "kill" else {}
    s = simproc.Sched(random.Random("sched%d" % sc["seed"]), sc["mode"], kills, 4, sc["pipe"], f[1] if f and f[0] == "refuse" else 0, 200000)
    faults = [[f[1], f[2], f[3]]] if f and f[0] == "disk" and f[1] is not None else []
    p = fs.start(faults, random.Random("split%d" % sc["split"]) if sc["split"] is not None else None, fs.used() + f[1] if f and f[0] == "full" else 0)
    import pyspark
    pyspark.SparkContext.one = None
    pyspark.state.update(rng=random.Random("spark%d" % sc["seed"]), parallel=sc["parallel"], fail=set(f[1]) if f and f[0] == "spark" else (), calls=0, count=fs.count)
    return s, p


def canon(x):
    return json.dumps(x, sort_keys=True)


def multiset(xs):
    return sorted(canon(x) for x in xs)


def differ(what, got, want):
    g, w = multiset(got), multiset(want)
    if g == w:
        return None
    lost, more = list(w), []
    for x in g:
        if x in lost:
            lost.remove(x)
        else:
            more.append(x)
    return "%s: %d records for %d; missing %s; too many %s" % (what, len(g), len(w), lost[:2], more[:2])


def reach(st, k, n=1):
    st["reached"][k] = st["reached"].get(k, 0) + n


def run(sc):
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0, "clock": 0, "scheds": []}
    repro = sc
    if sc["fault"] and sc["fault"][0] == "disk" and sc["fault"][1] is None:
        # a run without the fault lists the operations
        clean = dict(sc, fault=None)
        v, ops = once(clean, st)
        if v:
            return v, clean, st
        if not ops:
            return None, sc, st
        r = random.Random("op%d" % sc["seed"])
        n, name, _, size = r.choice(ops)
        kind = sc["fault"][2] if name == "write" else "error"
        repro = dict(sc, fault=["disk", n, kind, sc["fault"][3] % size if size else 0])
    v, _ = once(repro, st)
    return v, repro, st


def once(sc, st):
    fs = simfs.FS()
    fs.dirs.add(ROOT + "/d")
    fs.dirs.add(ROOT + "/tmp")
    simfs.cur[0] = fs
    st["runs"] += 1
    s = None
    ops = []
    try:
        prepare(sc, fs)
        s, p = env(sc, fs, st)
        simproc.S[0] = s
        base = p.n
        v = None
        try:
            v, raised = (task if sc["kind"] == "task" else pipe)(sc, fs, s, st)
        except simproc.Deadlock as e:
            v = "%s (simulated time %.0f s)" % (e, s.now)
        else:
            if not v:
                try:
                    s.exit()
                except simproc.Deadlock as e:
                    v = "the program cannot end after %s: %s" % ("an error" if raised else "the run", e)
        if not v and s.maxrunning > (sc["nproc"] if sc["kind"] == "task" else 4):
            v = "%d processes at once, %d allowed" % (s.maxrunning, sc["nproc"] if sc["kind"] == "task" else 4)
        ops = list(p.trace)
    finally:
        if s:
            s.close()
            st["steps"] += s.steps
            st["clock"] += s.now
            st["scheds"].append(s.h.hexdigest())
            for k, n in s.fired.items():
                st["faults"][k] = st["faults"].get(k, 0) + n
        simproc.S[0] = None
        if fs.cur:
            fs.cur.dead = True
        for k, n in fs.fired.items():
            st["faults"][k] = st["faults"].get(k, 0) + n
        simfs.cur[0] = None
    return v, ops


def expected(sc):
    """The outputs of the stages, by number."""
    if sc["kind"] == "task":
        return [[y for b in sc["input"] for x in b for y in step(0, x)]]
    if sc["kind"] == "pipe":
        out, xs = [], [x for b in sc["input"] for x in b]
        for no in range(sc["stages"]):
            xs = [y for x in xs for y in step(no, x)]
            out.append(xs)
        return out
    raw = [{"features": cmsrec(x), "id": x["f"], "valid": True} for b in sc["input"] for x in b if x["t"] == "analysis"]
    feat = []
    for x in raw:
        parts = [e for e in x["features"]["FileName"].split("/") if e]
        if len(parts) >= 5 and parts[1] in ("data", "mc"):
            feat.append({"data": x["features"], "features": dict(zip(("store_type", "campaign", "process", "file_type"), parts[1:5])), "valid": True})
    groups = {}
    for x in feat:
        g = groups.setdefault(canon(x["features"]), [0.0, 0, x["features"]])
        g[0] += x["data"]["WrapCPU"]
        g[1] += 1
    avg = sum(g[0] / g[1] for g in groups.values()) / len(groups) if groups else 0
    fin = [{"tot_wrap_cpu": g[0], "tot_requests": g[1], "features": g[2], "class": "good" if g[0] / g[1] >= avg else "bad"} for g in groups.values()]
    # too close to call, but for an average that is exactly so in any order of the sums
    exact = all((g[0] / g[1] * 64).is_integer() and Fraction(g[0]) / g[1] == Fraction(g[0] / g[1]) and g[0] < 1 << 30 for g in groups.values())
    for x, g in zip(fin, groups.values()):
        if abs(g[0] / g[1] - avg) < 1e-9 and not (exact and Fraction(g[0] / g[1]) * len(groups) == sum(Fraction(h[0] / h[1]) for h in groups.values())):
            x["class"] = "?"
    return [raw, feat, fin][:sc["stages"]]


def view(no, sc, recs):
    """What is compared of the records of a CMS stage."""
    if sc["kind"] != "cms" or no == 0:
        return recs
    out = []
    for x in recs:
        x = dict(x)
        x.pop("id", None)
        if sc["cl"].get(canon(x.get("features"))) == "?" and x.get("class") in ("good", "bad"):
            x["class"] = "?"
        out.append(x)
    return out


def ids(recs):
    """Equal features have one id, different ones do not."""
    by = {}
    for x in recs:
        if not x.get("id"):
            return "a record without an id: %s" % canon(x)[:200]
        by.setdefault(canon(x["features"]), set()).add(x["id"])
    if any(len(v) > 1 for v in by.values()) or len({list(v)[0] for v in by.values()}) != len(by):
        return "ids do not follow the features"
    return None


def prepare(sc, fs):
    if sc["kind"] == "task" or sc["src"] == "own":
        return
    fs.start()
    full = cmsrec if sc["kind"] == "cms" else (lambda x: dict(x, t=float(x["t"])))
    if sc["src"] == "json":
        with open(ROOT + "/d/in.json.gz", "wb") as f:
            f.write(gzip.compress(b"".join(json.dumps(full(x)).encode() + b"\n" for b in sc["input"] for x in b), mtime=0))
        return
    import os
    from datetime import date, timedelta
    from fastavro import parse_schema, writer
    from DataManager.collector.datafile.utils import AvroObjectTranslator
    day = date(*sc["day"])
    for b in sc["input"]:
        d = ROOT + "/d/data/year=%d/month=%d/day=%d" % (day.year, day.month, day.day)
        day += timedelta(days=1)
        os.makedirs(d)
        if sc["kind"] == "cms":
            schema = {"type": "record", "name": "r", "fields": [{"name": k, "type": {int: "long", float: "double", str: "string"}[type(v)]} for k, v in cmsrec({"i": 0, "f": "", "t": "", "c": 0}).items()]}
        else:
            schema = {"type": "record", "name": "r", "fields": [{"name": "i", "type": "long"}, {"name": "o", "type": "long"}, {"name": "t", "type": "double"}]}
        with open(d + "/part-m-00000.avro", "wb+") as f:
            writer(f, parse_schema(schema), [full(x) for x in b])


def given(sc, fired):
    f = sc["fault"]
    for n, b in enumerate(sc["input"] + [None]):
        if f and f[0] == "input" and f[1] == n:
            fired.append(1)
            raise Poison("the source failed")
        if b is not None:
            yield [cmsrec(x) if sc["kind"] == "cms" else dict(x) for x in b]


def excuse(sc, fs, s, fired):
    """Did anything happen that a run may fail of?"""
    import pyspark
    return fired or s.fired or fs.cur.failed or fs.fired.get("spark-task-lost", 0) >= 4


def task(sc, fs, s, st):
    from DataManager.collector.api import DataFile
    from DataManager.collector.dataset.stage import Stage
    want = expected(sc)[0]
    fired = []
    try:
        stage = mkstage(Stage, "S", 0, sc["fault"], fired)
        out = stage.task(given(sc, fired), num_process=sc["nproc"], use_spark=sc["spark"])
        got = [x for x in DataFile(out)] if want else []
    except (simproc.Deadlock, simproc.Killed):
        raise
    except (Exception, SimCrash) as e:
        return failed(sc, fs, s, st, fired, e)
    return finish(sc, fs, s, st, fired, [("output", got, want)]), False


def failed(sc, fs, s, st, fired, e):
    if excuse(sc, fs, s, fired):
        reach(st, "fault-reported")
        return None, True
    if any(not w for w in expected(sc)):
        reach(st, "nothing-to-put-out")
        return None, True
    return "without a fault: %s: %s" % (type(e).__name__, str(e)[:200]), True


def finish(sc, fs, s, st, fired, pairs):
    reach(st, "complete")
    if excuse(sc, fs, s, fired):
        reach(st, "fault-absorbed")
    if s.now:
        reach(st, "waited")
    for what, got, want in pairs:
        if fired and sc["fault"][0] == "poison" and sc["fault"][1] != "badrec":
            return "a failed process went unnoticed; " + (differ(what, got, want) or "the output is complete")
        v = differ(what, got, want)
        if v:
            return v
        reach(st, "records", len(want))
    return None


def pipe(sc, fs, s, st):
    from DataManager.collector.dataset import resource
    from DataManager.collector.dataset import stage as stg
    from DataManager.collector.dataset.generator import Pipeline
    wants = expected(sc)
    sc = dict(sc, cl={canon(x["features"]): x["class"] for x in wants[2]} if sc["kind"] == "cms" and len(wants) > 2 else {})
    fired = []
    saved = {}

    class Src(resource.Resource):
        def get(self):
            return given(sc, fired)

        def set(self, data, stage_name=""):
            saved[stage_name] = [x for x in data]
    got = None
    try:
        if sc["src"] == "own":
            src = Src()
        elif sc["src"] == "json":
            src = resource.CMSDatasetResourceManager(ROOT + "/d/in.json.gz", batch_size=sc["batch"])
        else:
            src = resource.CMSResourceManager("%d %d %d" % tuple(sc["day"]), len(sc["input"]), resource={"local": {"folder": ROOT + "/d/data"}})
        if sc["kind"] == "cms":
            stages = [stg.CMSRawStage(batch_size=sc["raw"]), stg.CMSFeaturedStage(), stg.CMSRecordTest0Stage()][:sc["stages"]]
        else:
            stages = [mkstage(stg.Stage, "S%d" % i, i, sc["fault"], fired) for i in range(sc["stages"])]
        p = Pipeline("ds", stages, src, batch_size=sc["batch"])
        p.run(save_stage=sc["savestage"] and sc["src"] != "json", use_spark=sc["spark"])
        got = [x for x in p.result] if wants[-1] else []
        stats = p.stats["result"]["len"]
        if sc["save"]:
            p.save(ROOT + "/d/out")
    except (simproc.Deadlock, simproc.Killed):
        raise
    except (Exception, SimCrash) as e:
        return failed(sc, fs, s, st, fired, e)
    last = len(wants) - 1
    pairs = [("result", view(last, sc, got), view(last, sc, wants[-1]))]
    v = None
    if stats != len(wants[-1]):
        v = "the length in the statistics is %r, the records are %d" % (stats, len(wants[-1]))
    if sc["kind"] == "cms" and last > 0:
        v = v or ids(got)
    if sc["savestage"] and sc["src"] != "json":
        for i, x in enumerate(stages):
            if sc["src"] == "own":
                pairs.append(("stage %d as given to be saved" % i, view(i, sc, saved.get(x.name, [])), view(i, sc, wants[i])))
            else:
                f = ROOT + "/d/data/cache/dataset_y%d-m%d-d%d_ws%d_stage-%s.json.gz" % (tuple(sc["day"]) + (len(sc["input"]), x.name))
                pairs.append(("saved stage %d" % i, view(i, sc, gz(fs, f)), view(i, sc, wants[i])))
    if sc["save"]:
        rs = gz(fs, ROOT + "/d/out/ds.json.gz")
        if [canon(x) for x in rs] != [canon(x) for x in got]:
            v = v or differ("saved result", rs, got) or "the saved result has another order"
        b = fs.files.get(ROOT + "/d/out/ds.stats.json")
        try:
            assert json.loads(bytes(b).decode())["result"]["len"] == len(wants[-1])
        except Exception:
            v = v or "the saved statistics are incomplete: %r" % (b and bytes(b)[:80],)
    return finish(sc, fs, s, st, fired, pairs) or v, False


def gz(fs, name):
    b = fs.files.get(name)
    if b is None:
        return [{"missing file": name}]
    try:
        return [json.loads(x) for x in gzip.decompress(bytes(b)).decode().split("\n")[:-1]]
    except Exception as e:
        return [{"unreadable file": "%s: %s" % (name, e)}]


def smaller(sc):
    for i in range(len(sc["input"])):
        yield dict(sc, input=sc["input"][:i] + sc["input"][i + 1:])
    for i, b in enumerate(sc["input"]):
        for j in range(len(b)):
            yield dict(sc, input=sc["input"][:i] + [b[:j] + b[j + 1:]] + sc["input"][i + 1:])
        for j, x in enumerate(b):
            if x.get("t") and sc["kind"] != "cms":
                yield dict(sc, input=sc["input"][:i] + [b[:j] + [dict(x, t=0)] + b[j + 1:]] + sc["input"][i + 1:])
    for k, v in (("split", None), ("savestage", False), ("save", False), ("mode", "first"), ("pipe", 1000), ("fault", None), ("spark", False)):
        if sc.get(k, v) != v:
            yield dict(sc, **{k: v})
    if sc.get("stages", 1) > 1:
        yield dict(sc, stages=sc["stages"] - 1)


def brief(sc):
    return "%s, %d batches, %d records, %s, fault %s" % (sc["kind"], len(sc["input"]), sum(len(b) for b in sc["input"]), "spark" if sc["spark"] else "%d processes, %s" % (sc["nproc"], sc["mode"]), sc["fault"])


NONTRIVIAL = {"records", "fault-reported", "fault-absorbed"}
REAL = ["DataManager.collector.dataset.stage", "DataManager.collector.dataset.generator", "DataManager.collector.dataset.resource", "DataManager.collector.dataset.utils",
        "DataManager.collector.datafeatures", "DataManager.collector.datafile", "DataManager.collector.api"]
STUB = ["multiprocessing: processes, queues with feeders and pipes of limited size (simproc)", "disk (simfs)", "time.sleep, time.time (simproc)", "fastavro, pyspark, tqdm, yaspin, numpy, pandas"]
