"""C31: the agent's command line, which puts the records of a data file to a
search engine and shows single ones."""
import ast
import bz2
import contextlib
import gzip
import io
import json
import os
import random
import re
import runpy
import sys

import simfs
import simnet
from simfs import ROOT, SimCrash

DIR = ROOT + "/d"
URLS = ["http://es:9200/idx/_doc", "https://es:9200/idx/t/", "http://es:9200/a-b/_doc/"]
INTS = [0, 1, -1, 2, 5, -2, -5, 100, -100]


def plain(r, i):
    return {"i": i, "s": r.choice(["", "é\n", "x" * (50 if r.random() < 0.98 else 70000), "\"", "line\nbreak", "\u2028", "{\"index\": {}}"]), "f": r.randrange(100) / 4, "n": r.randrange(4)}


def nested(r, i):
    def v(d):
        k = r.randrange(8)
        if k == 0 and d:
            return {"k%d" % j: v(d - 1) for j in range(r.randrange(3))}
        if k == 1 and d:
            return [v(d - 1) for _ in range(r.randrange(3))]
        return r.choice([1, 0, -3, 2.5, True, None, "x", "é€\n\"\\", "", "a" * (300 if r.random() < 0.97 else 70000)])
    return dict(plain(r, i), **{"k%d" % j: v(2) for j in range(r.randrange(3))})


def part(r, n):
    """A slice the readers know: from the start on, upwards, with an end (or, to be refused or answered rightly, with none)."""
    a = r.choice(["", "0", "1", "2", "3", str(n)])
    if r.random() < 0.15:
        return "[%s:%s]" % (a, r.choice(["", "", ":", ":2"]))
    b = int(a or 0) + r.choice([0, 1, 1, 2, 3, 7, 100])
    return "[%s:%d%s]" % (a, b, r.choice(["", "", ":", ":1", ":2", ":3"]))


def gen(r):
    sc = {"kind": r.choice(["put"] * 4 + ["get"]), "seed": r.randrange(1 << 40)}
    sc["ext"] = r.choice(["json.gz", "json.gz", "json.bz2", "avro", "avro"])
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 20] if r.random() < 0.95 else [130])
    same = r.random() < 0.15
    sc["recs"] = [(plain if sc["ext"] == "avro" else nested)(r, r.randrange(3) if same else i) for i in range(n)]
    sc["url"] = r.choice(URLS)
    sc["framing"] = r.choice(["length", "chunked"])
    sc["zip"] = r.random() < 0.15
    sc["cred"] = r.choice([None, None, ["u", "pw"], ["me", "a:b:c"]])
    sc["split"] = r.randrange(1 << 40) if r.random() < 0.25 else None
    sc["damage"] = r.randrange(1 << 30) if r.random() < 0.08 else None
    sc["runs"] = []
    if sc["kind"] == "get":
        for _ in range(r.choice([1, 2, 4])):
            k = r.randrange(3)
            sc["runs"].append({"what": r.choice([r.randrange(-n - 1, n + 1), r.choice(INTS)]) if k < 2 else part(r, n), "faults": []})
        if r.random() < 0.3:
            sc["runs"][-1]["faults"] = [["disk", r.randrange(1 << 30), 0]]
        return sc
    for _ in range(r.choice([1, 1, 2, 3])):
        x = {"bulk": r.choice([0, 0, 1, 2, 3, 4, 5, max(1, n - 1), max(1, n), n + 1, 100]), "start": r.choice([0, 0, 0, 1, 2, n // 2, n, n + 1]), "faults": []}
        if r.random() < 0.7:
            for _ in range(r.choice([1, 1, 1, 2])):
                x["faults"].append([r.choice(["net"] * 6 + ["kill", "kill", "disk"]), r.randrange(1 << 30), r.randrange(1 << 30)])
        sc["runs"].append(x)
    sc["resume"] = r.random() < 0.7  # a run that failed is followed by one from where it stopped
    return sc


def reach(st, k, n=1):
    st["reached"][k] = st["reached"].get(k, 0) + n


def encode(sc):
    if sc["ext"] == "avro":
        from fastavro import parse_schema, writer
        f = io.BytesIO()
        writer(f, parse_schema({"type": "record", "name": "r", "fields": [{"name": "i", "type": "long"}, {"name": "s", "type": "string"}, {"name": "f", "type": "double"}, {"name": "n", "type": "long"}]}), sc["recs"])
        return f.getvalue()
    b = b"".join(json.dumps(x).encode() + b"\n" for x in sc["recs"])
    return gzip.compress(b, mtime=0) if sc["ext"] == "json.gz" else bz2.compress(b)


def canon(x):
    return json.dumps(x, sort_keys=True)


class Out(io.StringIO):
    """What is said is seen as it comes, line by line."""

    def __init__(self, see):
        io.StringIO.__init__(self)
        self._see = see
        self._line = ""

    def write(self, s):
        io.StringIO.write(self, s)
        self._line += s
        while True:
            i = min((k for k in (self._line.find("\n"), self._line.find("\r")) if k >= 0), default=-1)
            if i < 0:
                return len(s)
            l, self._line = self._line[:i], self._line[i + 1:]
            self._see(l)


def run(sc):
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0}
    repro = sc
    if any(len(f) == 3 for x in sc["runs"] for f in x["faults"]):
        runs = []
        for x in sc["runs"]:
            y = dict(x, faults=[])
            if x["faults"]:
                v, info = once(dict(sc, runs=runs + [y]), st)
                if v:
                    return v, dict(sc, runs=runs + [y]), st
                y["faults"] = [g for f in x["faults"] for g in place(f, info)]
            runs.append(y)
        repro = dict(sc, runs=runs)
    v, _ = once(repro, st)
    return v, repro, st


def place(f, info):
    kind, a, b = f
    reqs, ops = info
    if kind == "disk" and ops:
        n, name, _, size = ops[a % len(ops)]
        return [["disk", n, "error", 0]]
    if kind == "kill" and (reqs or ops):
        if a % 3 and reqs:
            return [["net", 1 + b % reqs, ["kill-before", "kill-after"][a // 3 % 2], 0]]
        return [["disk", ops[b % len(ops)][0], "crash-before", 0]] if ops else []
    if kind == "net" and reqs:
        how = ["refused", "reset-before", "reset-after", "status", "html", "empty", "fake", "fake", "twice", "late-error", "cut", "cut-reset", "reject-items", "reject-items"][b % 14]
        return [["net", 1 + a % reqs + i, how, b // 14] for i in range([1, 1, 1, 2, 50][b // 14 % 5])]
    return []


def once(sc, st):
    fs = simfs.FS()
    fs.dirs.add(DIR)
    fs.cwd = DIR
    simfs.cur[0] = fs
    net = simnet.Net(sc["seed"], "httpfs", sc["framing"], sc["zip"], None, sc["cred"])
    simnet.cur[0] = net
    argv = sys.argv
    try:
        return history(sc, st, fs, net)
    finally:
        sys.argv = argv
        if fs.cur:
            fs.cur.dead = True
        for d in (fs.fired, net.fired):
            for k, n in d.items():
                st["faults"][k] = st["faults"].get(k, 0) + n
        simfs.cur[0] = simnet.cur[0] = None


def execute(args, see, st):
    """A run of the program: how it ended, what it said, its error."""
    for m in [m for m in sys.modules if m == "DataManager" or m.startswith("DataManager.")]:
        del sys.modules[m]
    sys.argv = ["agent"] + args
    out = Out(see)
    st["runs"] += 1
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_module("DataManager.agent", run_name="__main__", alter_sys=False)
        return "ended", out.getvalue(), None
    except SystemExit as e:
        return ("failed" if e.code else "ended"), out.getvalue(), "exit status %s" % (e.code,)
    except SimCrash:
        return "killed", out.getvalue(), None
    except ModuleNotFoundError as e:
        if (e.name or "").startswith("DataManager"):
            return "failed", out.getvalue(), str(e)
        raise
    except Exception as e:
        return "failed", out.getvalue(), "%s: %s" % (type(e).__name__, str(e)[:150])


def history(sc, st, fs, net):
    name = DIR + "/data." + sc["ext"]
    b = encode(sc)
    damaged = False
    if sc["damage"] is not None and sc["recs"] and sc["ext"] != "avro":
        b = b[:1 + sc["damage"] % (len(b) - 1)]
        damaged = True
    fs.files[name] = bytearray(b)
    want = [canon(x) for x in sc["recs"]]
    base = "/" + sc["url"].split("/", 3)[3].rstrip("/")
    info = (0, [])
    seen = {}
    runs = list(sc["runs"])
    ri = 0
    while ri < len(runs):
        rn = runs[ri]
        where = "run %d (%s): " % (ri, "get %s" % (rn["what"],) if "what" in rn else "put --bulk %d --start-from-index %d" % (rn["bulk"], rn["start"]))
        last = ri == len(runs) - 1
        ri += 1
        disk = [[n, how, arg] for kind, n, how, arg in (f for f in rn["faults"] if len(f) == 4) if kind == "disk"]
        p = fs.start(disk, random.Random("split%d/%d" % (sc["split"], ri)) if sc["split"] is not None else None)
        net.faults = {net.n + n: (how, arg) for kind, n, how, arg in (f for f in rn["faults"] if len(f) == 4) if kind == "net"}
        n0, hap0 = net.n, net.happened
        before = dict(net.docs)
        said = []
        if "what" in rn:
            how, text, err = execute(["get", "data." + sc["ext"], str(rn["what"])], lambda l: None, st)
            st["ops"]["get"] = st["ops"].get("get", 0) + 1
            v = shown(sc, rn, how, text, err, p.failed or damaged, st)
            if v:
                return where + v, info
        else:
            def have():
                out = set()
                for d in net.docs.values():
                    if id(d) not in seen:
                        seen[id(d)] = d, canon(d)
                    out.add(seen[id(d)][1])
                return out

            def see(l):
                m = re.search(r"Tot elements inserted (\d+)\]", l)
                if m:
                    there = have()
                    lost = [i for i in range(rn["start"], min(int(m.group(1)), len(want))) if want[i] not in there]
                    if lost:
                        said.append("said to have inserted %s, but record %d is missing" % (m.group(1), lost[0]))
                m = re.search(r"\[Element (\d+)\]", l)
                if m and int(m.group(1)) < len(want) and want[int(m.group(1))] not in have():
                    said.append("said to have inserted record %s, which is missing" % m.group(1))
            args = ["put", "data." + sc["ext"], sc["url"]]
            if rn["bulk"]:
                args += ["--bulk", str(rn["bulk"])]
            if rn["start"]:
                args += ["--start-from-index", str(rn["start"])]
            if sc["cred"]:
                args += ["--auth", ":".join(sc["cred"])]
            how, text, err = execute(args, see, st)
            st["ops"]["put"] = st["ops"].get("put", 0) + 1
            disturbed = net.happened != hap0 or p.failed or how == "killed"
            v = said[0] if said else stored(sc, want, base, before, net, rn, how, text, err, disturbed, damaged, st)
            if v:
                return where + v, info
            if last and sc.get("resume") and how != "ended" and not damaged and not rn.get("again"):
                at = rn["start"]
                m = re.findall(r"resource index (\d+)", text)
                if m and not rn["bulk"]:
                    at = int(m[-1])
                    there = have()
                    lost = [i for i in range(rn["start"], min(at, len(want))) if want[i] not in there]
                    if lost:
                        return where + "said to have failed at record %d, but record %d is missing already" % (at, lost[0]), info
                runs.append({"bulk": rn["bulk"], "start": at, "faults": [], "again": True})
        st["steps"] += p.n + net.n - n0
        if last or rn["faults"] or not sc["runs"]:
            info = (net.n - n0, list(p.trace))
        p.dead = True
    return None, info


def stored(sc, want, base, before, net, rn, how, text, err, disturbed, damaged, st):
    ids = {}
    for k, d in net.docs.items():
        c = canon(d)
        if c not in want:
            return "the server has a document that is not in the file: %s" % short(d)
        if k[0] != base:
            return "stored under %s" % k[0]
        if c in ids:
            return "a record is stored twice: %s" % short(d)
        ids[c] = k
        if k not in before and c not in want[rn["start"]:]:
            return "stored record %d, which is before the start" % want.index(c)
        if k in before and canon(before[k]) != c:
            return "another record took the place of %s" % short(before[k])
    if [k for k in before if k not in net.docs]:
        return "a document was removed"
    lost = [i for i in range(rn["start"], len(want)) if want[i] not in ids]
    if how == "ended":
        if lost:
            return "it ended well, but %d of %d records are missing, first %d" % (len(lost), len(want) - rn["start"], lost[0])
        if damaged:
            reach(st, "damage-behind-the-records")
            return None
        m = re.search(r"\[DONE in [^\]]*\]\[(\d+) items\]", text)
        if m and int(m.group(1)) != len(want):
            return "said to have put %s items, the file has %d" % (m.group(1), len(want))
        reach(st, "complete")
        if disturbed:
            reach(st, "fault-absorbed")
        if rn.get("again"):
            reach(st, "complete-after-failure")
        return None
    if how == "killed":
        reach(st, "killed")
        return None
    if not disturbed and not damaged:
        return "failed without a fault: %s" % err
    reach(st, "failure-reported")
    return None


def shown(sc, rn, how, text, err, disturbed, st):
    w = rn["what"]
    try:
        want = sc["recs"][w if isinstance(w, int) else slice(*[int(x) if x else None for x in w[1:-1].split(":")])]
    except IndexError:
        want = None
    if how == "ended":
        if want is None:
            return "ended well, though there is no such record"
        for t in texts(text):
            if canon(t) == canon(want):
                reach(st, "shown")
                return None
        return "showed %s for %s" % (short(text.strip().split("\n")[-1]), short(want))
    # the Avro reader counts from the start and up to the end only
    # and no reader without an end
    stop = "0" if isinstance(w, int) else w[1:-1].split(":")[1]
    beyond = not stop or sc["ext"] == "avro" and (w < 0 if isinstance(w, int) else int(stop) > len(sc["recs"]))
    if want is not None and not disturbed and not beyond:
        return "failed without a fault: %s" % err
    reach(st, "failure-reported" if disturbed else "refused")
    return None


def texts(text):
    """What the output may be read as."""
    ls = text.strip().split("\n")
    for i in range(len(ls)):
        t = "\n".join(ls[i:])
        for f in (ast.literal_eval, json.loads):
            try:
                yield f(t)
            except (ValueError, SyntaxError, TypeError):
                pass


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:100] + "... (%d)" % len(s)


def smaller(sc):
    for i in range(len(sc["runs"])):
        if len(sc["runs"]) > 1:
            yield dict(sc, runs=sc["runs"][:i] + sc["runs"][i + 1:])
        x = sc["runs"][i]
        for j in range(len(x["faults"])):
            yield dict(sc, runs=sc["runs"][:i] + [dict(x, faults=x["faults"][:j] + x["faults"][j + 1:])] + sc["runs"][i + 1:])
        if x.get("start"):
            yield dict(sc, runs=sc["runs"][:i] + [dict(x, start=0)] + sc["runs"][i + 1:])
        if x.get("bulk", 0) > 1:
            yield dict(sc, runs=sc["runs"][:i] + [dict(x, bulk=x["bulk"] - 1)] + sc["runs"][i + 1:])
    n = len(sc["recs"])
    if n > 3:
        yield dict(sc, recs=sc["recs"][:n // 2])
    for i in range(n if n < 30 else 0):
        yield dict(sc, recs=sc["recs"][:i] + sc["recs"][i + 1:])
    for k, v in (("split", None), ("damage", None), ("zip", False), ("cred", None), ("framing", "length"), ("ext", "json.gz"), ("url", URLS[0])):
        if sc[k] != v:
            yield dict(sc, **{k: v})


def brief(sc):
    return "%s, %d records in %s, runs %s" % (sc["kind"], len(sc["recs"]), sc["ext"], [[x["what"]] if "what" in x else [x["bulk"], x["start"], [f[0] for f in x["faults"]]] for x in sc["runs"]])


NONTRIVIAL = {"complete", "fault-absorbed", "complete-after-failure", "killed", "failure-reported", "refused", "shown"}
REAL = ["DataManager.agent", "DataManager.collector.api", "DataManager.collector.datafile"]
STUB = ["requests over a simulated network with an Elasticsearch server (simnet)", "disk (simfs)", "fastavro, tqdm, yaspin, urllib3"]
