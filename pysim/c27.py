"""C27: the scripts that move the days of a period between storages and
filter them."""
import contextlib
import datetime
import gzip
import io
import json
import os
import random
import runpy
import shlex
import subprocess
import sys

import simfs
from simfs import ROOT, SimCrash

REPO = os.environ.get("VERIF_REPO", "/repo")
DIR = ROOT + "/d"
HDFS = "/project/awg/cms/jm-data-popularity/avro-snappy/year=%d/month=%d/day=%d/part-m-00000.avro"
SCRIPT = {"move": "move_data_hdfs2minio.py", "analysis": "filter_analysis_logs.py", "data-mc": "filter_analysis_data-mc_logs.py"}
STARTS = [[2018, 1, 1], [2018, 2, 27], [2020, 2, 27], [2019, 12, 30], [2018, 9, 29], [2018, 10, 7]]
TYPES = ["analysis", "Analysis", "ANALYSIS", "production", "test", "analysis2", ""]
FILES = ["/store/data/R/x.root", "/store/mc/R/y.root", "/store/user/data/z.root", "/data/mc", "store//mc/a", "/store/DATA/q", "data", "", "/mc/data/x", "/store/mc", "é/data/ü", "/store/data-mc/x", "/store/mcdata/x", "/store/dat", "/store/c/x", "/store/mc2/x"]


def rec(r, i):
    return {"i": i, "Type": r.choice(TYPES[:4] if r.random() < 0.8 else TYPES), "FileName": r.choice(FILES), "s": r.choice(["", "é\n", "x" * (50 if r.random() < 0.98 else 70000), "\""]), "f": r.randrange(100) / 4}


FAULTS = {"move": ["crash", "crash", "disk", "store", "store", "store", "hdfs", "hdfs", "hdfs", "cap"], "analysis": ["crash", "crash", "disk", "disk", "store", "store", "store", "cap"]}
FAULTS["data-mc"] = FAULTS["analysis"]


def gen(r):
    k = r.choice(["move", "move", "analysis", "data-mc"])
    sc = {"kind": k, "start": r.choice(STARTS), "n": r.choice([0, 1, 2, 2, 3, 3, 4, 6]), "bucket": r.choice(["b", "logs", "cms.raw"])}
    i = 0
    sc["days"] = []
    for _ in range(sc["n"] + 1):
        recs = [rec(r, i + j) for j in range(r.choice([0, 1, 2, 5, 20] if r.random() < 0.93 else [300]))]
        i += len(recs)
        sc["days"].append(recs)
    if r.random() < 0.06 and sc["n"]:
        sc["days"][r.randrange(sc["n"])] = None
    sc["no_bucket"] = r.random() < 0.05
    sc["old"] = [[d, r.randrange(100)] for d in range(sc["n"] + 1) if r.random() < 0.2]
    sc["split"] = r.randrange(1 << 40) if r.random() < 0.3 else None
    sc["runs"] = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        a = r.randrange(sc["n"] + 1) if r.random() < 0.3 else 0
        run = {"from": a, "n": max(0, sc["n"] - a if r.random() < 0.8 else r.randrange(sc["n"] + 1 - a)), "faults": []}
        if r.random() < 0.75:
            for _ in range(r.choice([1, 1, 1, 2])):
                run["faults"].append([r.choice(FAULTS[k]), r.randrange(1 << 30), r.randrange(1 << 30)])
        sc["runs"].append(run)
    if r.random() < 0.6:
        sc["runs"].append({"from": 0, "n": sc["n"], "faults": []})
    sc["clean"] = r.random() < 0.5  # the folder is cleaned after a run that failed
    return sc


def reach(st, k, n=1):
    st["reached"][k] = st["reached"].get(k, 0) + n


def encode(recs):
    from fastavro import parse_schema, writer
    f = io.BytesIO()
    t = {"i": "long", "Type": "string", "FileName": "string", "s": "string", "f": "double"}
    writer(f, parse_schema({"type": "record", "name": "r", "fields": [{"name": k, "type": v} for k, v in t.items()]}), recs)
    return f.getvalue()


class Store(object):
    """The object storage: what is put there is there whole, or not at all."""

    def __init__(self, fs):
        self.fs = fs
        self.buckets = set()
        self.objects = {}
        self.n = 0
        self.begin()

    def begin(self):
        self.trace = []
        self.faults = {}
        self.happened = 0
        self.puts = []
        self.base = self.n

    def request(self, op, bucket, name, data=None):
        from minio import error
        from urllib3 import exceptions
        p = self.fs.cur
        late = p.op("store", "%s %s/%s" % (op, bucket, name), len(data or b""))
        self.n += 1
        n = self.n - self.base
        kind, arg = self.faults.get(n, (None, 0))
        self.trace.append((n, op))
        if kind:
            self.happened += 1
            self.fs.count("store-" + kind)
        if kind == "refused":
            raise exceptions.MaxRetryError("Max retries exceeded")
        if kind == "denied":
            raise error.AccessDenied("AccessDenied", "Access Denied.")
        if kind == "status":
            raise error.ResponseError("SlowDown", "Please reduce your request rate.")
        if op == "HEAD":
            return bucket in self.buckets
        if op == "MAKE":
            if bucket in self.buckets:
                raise error.BucketAlreadyOwnedByYou("BucketAlreadyOwnedByYou", bucket)
            self.buckets.add(bucket)
            return None
        if bucket not in self.buckets:
            raise error.NoSuchBucket("NoSuchBucket", "The specified bucket does not exist.")
        if op == "PUT":
            if kind == "cut":
                raise exceptions.ProtocolError("Connection aborted.")
            self.objects[bucket, name] = bytes(data)
            self.puts.append((bucket, name, bytes(data)))
            p.after(late)
            if kind == "late":
                raise exceptions.ReadTimeoutError("Read timed out.")
            if kind == "late-status":
                raise error.ResponseError("InternalError", "We encountered an internal error.")
            return "etag"
        if (bucket, name) not in self.objects:
            raise error.NoSuchKey("NoSuchKey", "The specified key does not exist.")
        b = self.objects[bucket, name]
        if op == "DELETE":
            del self.objects[bucket, name]
            self.puts.append((bucket, name, None))
            p.after(late)
            return None
        if op == "STAT":
            return len(b)
        p.after(late)
        if kind == "late":
            raise exceptions.ReadTimeoutError("Read timed out.")
        if kind == "late-status":
            raise error.ResponseError("InternalError", "We encountered an internal error.")
        if kind == "cut":
            k = arg % (len(b) + 1)
            return len(b), b[:k], exceptions.ProtocolError("IncompleteRead") if arg % 3 else None if k < len(b) else exceptions.ProtocolError("IncompleteRead")
        return len(b), b, None


class Hdfs(object):
    """The hdfs command."""

    def __init__(self, fs):
        self.fs = fs
        self.files = {}
        self.n = 0
        self.begin()

    def begin(self):
        self.faults = {}
        self.base = self.n
        self.happened = 0

    def run(self, cmd):
        if isinstance(cmd, (list, tuple)):
            a = [os.fspath(x) for x in cmd]
        else:
            a = shlex.split(cmd)
        p = self.fs.cur
        late = p.op("hdfs", " ".join(a))
        self.n += 1
        kind, arg = self.faults.get(self.n - self.base, (None, 0))
        if kind:
            self.happened += 1
            self.fs.count("hdfs-" + kind)
        if kind == "no-command":
            return 127
        if kind == "error":
            return 1
        flags = [x for x in a[3:] if x.startswith("-")]
        args = [x for x in a[3:] if not x.startswith("-")]
        if a[:2] not in (["hdfs", "dfs"], ["hadoop", "fs"]) or len(a) < 4 or not args:
            return 255
        if a[2] == "-test":
            return 0 if args[0] in self.files else 1
        if a[2] not in ("-get", "-copyToLocal"):
            return 255
        if args[0] not in self.files:
            return 1
        src = self.files[args[0]]
        dst = simfs.mine(args[1] if len(args) > 1 else ".")
        if dst in self.fs.dirs:
            dst += "/" + os.path.basename(args[0])
        if dst in self.fs.files and "-f" not in flags:
            return 1
        b = src[:arg % (len(src) + 1)] if kind in ("partial", "killed") else src
        try:
            with open(dst + "._COPYING_", "wb") as f:
                f.write(b)
            if kind == "partial":
                os.remove(dst + "._COPYING_")
                return 1
            if kind == "killed":
                return 137
            os.rename(dst + "._COPYING_", dst)
        except OSError:
            return 1
        p.after(late)
        if kind == "late-error":
            return 1
        return 0


cur = [None]
_real = {}


class _Done(object):
    def __init__(self, rc):
        self.returncode = rc
        self.stdout = self.stderr = b""
        self.pid = 1

    def wait(self, *a, **k):
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, *a, **k):
        return b"", b""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _check(cmd, rc):
    if rc:
        raise subprocess.CalledProcessError(rc, cmd)


def install():
    def call(cmd, *a, **k):
        return cur[0].run(cmd)

    def check_call(cmd, *a, **k):
        _check(cmd, cur[0].run(cmd))
        return 0

    def check_output(cmd, *a, **k):
        _check(cmd, cur[0].run(cmd))
        return b""

    def run(cmd, *a, **k):
        rc = cur[0].run(cmd)
        if k.get("check"):
            _check(cmd, rc)
        return _Done(rc)

    def popen(cmd, *a, **k):
        return _Done(cur[0].run(cmd))

    def system(cmd):
        return cur[0].run(cmd) << 8

    new = {"call": call, "check_call": check_call, "check_output": check_output, "run": run, "Popen": popen,
           "getstatusoutput": lambda c: (cur[0].run(c), ""), "getoutput": lambda c: (cur[0].run(c), "")[1]}
    old = {n: getattr(subprocess, n) for n in new}
    for n, f in new.items():
        setattr(subprocess, n, f)
    olds, os.system = os.system, system

    def undo():
        for n, f in old.items():
            setattr(subprocess, n, f)
        os.system = olds
    return undo


class Out(io.StringIO):
    """The DONE lines are checked as they come."""

    def __init__(self, see):
        io.StringIO.__init__(self)
        self._see = see
        self._line = ""

    def write(self, s):
        self._line += s
        while "\n" in self._line:
            l, self._line = self._line.split("\n", 1)
            self._see(l)
        return len(s)


def days(sc):
    d = datetime.date(*sc["start"])
    return [d + datetime.timedelta(days=i) for i in range(sc["n"] + 1)]


def wanted(sc, recs):
    """The records a filtered day has."""
    out = []
    for x in recs:
        if x["Type"].lower() != "analysis":
            continue
        if sc["kind"] == "data-mc":
            parts = [p for p in x["FileName"].split("/") if p]
            if len(parts) < 2 or parts[1] not in ("data", "mc"):
                continue
        out.append(x)
    return out


def target(sc, d):
    n = "year%d_month%d_day%d." % (d.year, d.month, d.day)
    if sc["kind"] == "move":
        return sc["bucket"], n + "avro"
    return sc["bucket"] + "-" + sc["kind"].replace("data-mc", "analysis-data-mc"), n + "json.gz"


def whole(sc, recs, src, b):
    if b is None:
        return False
    if sc["kind"] == "move":
        return b == src
    try:
        ls = gzip.decompress(b).decode().split("\n")
        return ls[-1] == "" and [json.loads(x) for x in ls[:-1]] == wanted(sc, recs)
    except Exception:
        return False


def run(sc):
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0}
    repro = sc
    if any(len(f) == 3 for x in sc["runs"] for f in x["faults"]):
        # where each run is without faults tells where the faults can go
        runs = []
        for x in sc["runs"]:
            y = dict(x, faults=[])
            if x["faults"]:
                v, info = once(dict(sc, runs=runs + [y]), st)
                if v:
                    return v, dict(sc, runs=runs + [y]), st
                y["faults"] = [g for f in x["faults"] for g in place(f, info)]
            runs.append(y)
        repro = dict(sc, runs=runs)
    v, _ = once(repro, st)
    return v, repro, st


def place(f, info):
    kind, a, b = f
    ops, store, hdfs = info
    if kind == "crash" and ops:
        n, name, _, size = ops[a % len(ops)]
        how = ["crash-before", "crash-after", "crash-inside"][b % 3]
        if how == "crash-inside" and name != "write":
            how = "crash-before"
        return [["disk", n, how, b % size if size else 0]]
    if kind == "disk":
        cand = [o for o in ops if o[1] not in ("store", "hdfs")]
        if cand:
            n, name, _, size = cand[a % len(cand)]
            return [["disk", n, ["error", "enospc", "shortwrite"][b % 3] if name == "write" else "error", b % size if size else 0]]
    if kind == "cap":
        return [["cap", 1 + a % 3000, 0, 0]]
    if kind == "store" and store:
        n, op = store[a % len(store)]
        return stays(["store", n, ["refused", "denied", "status", "late", "late-status", "cut"][b % 6], b // 6])
    if kind == "hdfs" and hdfs:
        return stays(["hdfs", 1 + a % hdfs, ["no-command", "error", "partial", "killed", "late-error"][b % 5], b // 5])
    return []


def stays(f):
    return [[f[0], f[1] + i, f[2], f[3]] for i in range([1, 1, 1, 2, 5][f[3] % 5])]


def once(sc, st):
    import minio
    fs = simfs.FS()
    fs.dirs.add(DIR)
    fs.cwd = DIR
    simfs.cur[0] = fs
    store, hdfs = Store(fs), Hdfs(fs)
    minio.cur[0] = store
    cur[0] = hdfs
    argv, path = sys.argv, list(sys.path)
    undo = install()
    try:
        return history(sc, st, fs, store, hdfs)
    finally:
        undo()
        sys.argv, sys.path[:] = argv, path
        if fs.cur:
            fs.cur.dead = True
        for k, n in fs.fired.items():
            st["faults"][k] = st["faults"].get(k, 0) + n
        simfs.cur[0] = minio.cur[0] = cur[0] = None


def history(sc, st, fs, store, hdfs):
    ds = days(sc)
    src = [None if recs is None else encode(recs) for recs in sc["days"]]
    store.buckets.add(sc["bucket"])
    store.buckets.add("other")
    if not sc["no_bucket"]:
        store.buckets.add(target(sc, ds[0])[0])
    elif sc["kind"] == "move":
        store.buckets.discard(sc["bucket"])
    if sc["kind"] == "move":
        for d, b in zip(ds, src):
            if b is not None:
                hdfs.files[HDFS % (d.year, d.month, d.day)] = b
    else:
        for d, b in zip(ds, src):
            if b is not None:
                store.objects[sc["bucket"], "year%d_month%d_day%d.avro" % (d.year, d.month, d.day)] = b
    store.objects["other", "year1_month1_day1.avro"] = b"other"
    if not sc["no_bucket"]:
        store.objects[target(sc, ds[0])[0], "README"] = b"readme"
        for d, x in sc["old"]:
            store.objects[target(sc, ds[d])] = b"old %d" % x
    info = None
    dirty = False
    for ri, rn in enumerate(sc["runs"]):
        if dirty and sc["clean"]:
            for p in list(fs.files):
                if p.startswith(DIR + "/"):
                    del fs.files[p]
            dirty = False
        store.begin()
        hdfs.begin()
        cap = 0
        disk = []
        for kind, n, how, arg in (f for f in rn["faults"] if len(f) == 4):
            if kind == "disk":
                disk.append([n, how, arg])
            elif kind == "cap":
                cap = n
            elif kind == "store":
                store.faults[n] = (how, arg)
            else:
                hdfs.faults[n] = (how, arg)
        before = dict(store.objects)
        p = fs.start(disk, random.Random("split%d/%d" % (sc["split"], ri)) if sc["split"] is not None else None, cap)
        mine = list(range(rn["from"], rn["from"] + rn["n"]))
        bad = []

        def done(i):
            return whole(sc, sc["days"][i], src[i], store.objects.get(target(sc, ds[i])))

        def see(l):
            if "DONE" in l:
                for i, d in enumerate(ds):
                    if "%d-%d-%d]" % (d.year, d.month, d.day) in l and not done(i):
                        bad.append("said to be done, but the bucket has not the whole of day %s" % d)
        first = ds[rn["from"]]
        sys.argv = [SCRIPT[sc["kind"]], "minio:9000", "key", "secret", sc["bucket"], "%d %d %d" % (first.year, first.month, first.day), str(rn["n"])]
        ended, err, crashed = False, None, False
        st["runs"] += 1
        st["ops"][sc["kind"]] = st["ops"].get(sc["kind"], 0) + 1
        try:
            with contextlib.redirect_stdout(Out(see)), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(os.path.join(REPO, "scripts", SCRIPT[sc["kind"]]), run_name="__main__")
            ended = True
        except SystemExit as e:
            ended = not e.code
            err = "exit status %s" % (e.code,)
        except SimCrash:
            crashed = True
        except ModuleNotFoundError:
            raise
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, str(e)[:150])
        st["steps"] += p.n
        if info is None or ri == len(sc["runs"]) - 1:
            info = (list(p.trace), list(store.trace), hdfs.n - hdfs.base)
        disturbed = store.happened or hdfs.happened or p.failed or crashed
        p.dead = True
        where = "run %d (%s, days %d to %d): " % (ri, sc["kind"], rn["from"], rn["from"] + rn["n"])
        # what was put, at every moment
        for b, name, data in store.puts:
            i = [i for i in mine if target(sc, ds[i]) == (b, name)]
            if not i:
                return where + "it changed %s/%s" % (b, name), info
            if data is None:
                return where + "it removed %s/%s" % (b, name), info
            if not whole(sc, sc["days"][i[0]], src[i[0]], data):
                return where + "stored as %s/%s: %s, not the whole day" % (b, name, short(data)), info
        if bad:
            return where + bad[0], info
        lost = [i for i in mine if not done(i)]
        if ended:
            if lost:
                return where + "it ended well, but the bucket has not the whole of day %s (%s)" % (ds[lost[0]], short(store.objects.get(target(sc, ds[lost[0]])))), info
            left = sorted(x for x in fs.files if x.startswith(DIR + "/"))
            if left and not dirty and not disturbed:
                return where + "it ended well and leaves %s" % ", ".join(left), info
            reach(st, "complete")
            if disturbed:
                reach(st, "fault-absorbed")
            if dirty:
                reach(st, "complete-after-leftovers")
            continue
        if crashed:
            reach(st, "crashed")
        else:
            possible = all(src[i] is not None for i in mine) and (not sc["no_bucket"] or not mine)
            if possible and not disturbed and not (dirty and sc["kind"] == "move"):
                return where + "failed without a fault: %s" % err, info
            reach(st, "failure-reported" if disturbed else "refused")
        dirty = dirty or any(x.startswith(DIR + "/") for x in fs.files)
    return None, info


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:100] + "... (%d)" % len(s)


def smaller(sc):
    for i in range(len(sc["runs"])):
        if len(sc["runs"]) > 1:
            yield dict(sc, runs=sc["runs"][:i] + sc["runs"][i + 1:])
        x = sc["runs"][i]
        for j in range(len(x["faults"])):
            yield dict(sc, runs=sc["runs"][:i] + [dict(x, faults=x["faults"][:j] + x["faults"][j + 1:])] + sc["runs"][i + 1:])
        if x["n"] > 1:
            yield dict(sc, runs=sc["runs"][:i] + [dict(x, n=x["n"] - 1)] + sc["runs"][i + 1:])
    for i, d in enumerate(sc["days"]):
        if d:
            yield dict(sc, days=sc["days"][:i] + [d[:len(d) // 2]] + sc["days"][i + 1:])
            yield dict(sc, days=sc["days"][:i] + [d[1:]] + sc["days"][i + 1:])
    for k, v in (("old", []), ("split", None), ("bucket", "b")):
        if sc[k] != v:
            yield dict(sc, **{k: v})


def brief(sc):
    return "%s, %d days from %s, runs %s" % (sc["kind"], sc["n"], sc["start"], [[x["from"], x["n"], [f[0] for f in x["faults"]]] for x in sc["runs"]])


NONTRIVIAL = {"complete", "fault-absorbed", "complete-after-leftovers", "crashed", "failure-reported", "refused"}
REAL = ["scripts/move_data_hdfs2minio.py", "scripts/filter_analysis_logs.py", "scripts/filter_analysis_data-mc_logs.py", "DataManager.collector.api", "DataManager.collector.datafile"]
STUB = ["minio over a simulated object storage", "the hdfs command over a simulated file system", "disk (simfs)", "fastavro, tqdm, urllib3"]
