"""C29: the converter that turns the text of the request files into numbers."""
import contextlib
import csv
import datetime
import gzip
import io
import json
import os
import random
import re
import runpy
import sys

import simfs
import simproc
from simfs import ROOT, SimCrash

REPO = os.environ.get("VERIF_REPO", "/repo")
CWD = ROOT + "/w"
DATA = CWD + "/data"
SITES = ["T2_US_Vanderbilt", "T2_IT_Bari", "T1_US_FNAL", "T2_IT_Pisa", "T2_FR_CCIN2P3", "T2_us_x", "T3_It_Trieste", "T2_DE_us"]
NAMES = ["2018-1", "2018-2", "2018-10", "a", "1", "2018-1_b", "x.y"]
VALUES = {
    "TaskID": ["t1", "t2", "T1", "t1 ", "7", "é,ü", "a\"b", "x" * 40, "wf.v2.1", "7.0"],
    "Protocol": ["xrootd", "local", "gsiftp", "XROOTD"],
    "User": ["u%d" % i for i in range(60)],
}
CAMP = ["Run2016B", "Run2017F", "run2016b", "Summer16"]
PROC = ["DoubleEG", "MuonEG", "doubleEG", "QCD_Pt-15to20"]
REGIONS = ["all", "all", "all", "us", "it", "IT"]


def row(r, cols, wide):
    x = {"Filename": "/store/%s/%s/%s/AOD/%d.root" % (r.choice(["data", "mc"]), r.choice(CAMP), r.choice(PROC), r.randrange(200 if wide else 6)),
         "SiteName": r.choice(SITES), "reqDay": 86400 * (17532 + r.randrange(40)), "Size": r.randrange(1 << 30)}
    for c in cols:
        if c in VALUES:
            x[c] = r.choice(VALUES[c][:4] if not wide else VALUES[c])
        elif c == "Region":
            x[c] = r.choice(["us", "it", "fr"])
        elif c == "Campain":
            x[c] = r.choice(CAMP)
        elif c == "Process":
            x[c] = r.choice(PROC)
        elif c == "CPUTime":
            x[c] = r.randrange(4000) / 4
        elif c == "JobSuccess":
            x[c] = r.random() < 0.5
        elif c == "UserID":
            x[c] = r.randrange(50)
    return x


def gen(r):
    sc = {"kind": r.choice(["folder", "folder", "folder", "file"]), "files": [], "runs": []}
    extra = ["TaskID", "Protocol", "User", "CPUTime", "JobSuccess", "UserID"]
    wide = r.random() < 0.6
    base = [c for c in extra if r.random() < 0.5]
    if r.random() < 0.2:
        base += [c for c in ("Region", "Campain", "Process") if r.random() < 0.5]
    nruns = r.choice([1, 2, 2, 3, 3, 4])
    for n in r.sample(NAMES, r.choice([1, 1, 2, 3, 4])):
        cols = list(base)
        if r.random() < 0.2:
            cols = [c for c in cols if r.random() < 0.6] + [c for c in extra if c not in cols and r.random() < 0.3]
        rows = [row(r, cols, wide) for _ in range(r.choice([1, 2, 3, 6, 12, 40] if r.random() < 0.95 else [300]))]
        rows = [{c: x[c] for c in x} for x in rows]
        sc["files"].append({"name": "results_%s.csv%s" % (n, ".gz" if r.random() < 0.6 else ""), "rows": rows, "at": r.randrange(nruns) if r.random() < 0.4 else 0})
    if sc["kind"] == "file":
        for f in sc["files"]:
            f["at"] = 0
    region, shuffle = r.choice(REGIONS), r.random() < 0.3
    for i in range(nruns):
        run = {"region": region if r.random() < 0.75 else r.choice(REGIONS), "shuffle": r.choice([1, 42, 7]) if (shuffle if r.random() < 0.8 else not shuffle) else None,
               "file": r.randrange(len(sc["files"])), "cpus": r.choice([1, 2, 4, 8]), "drop": r.randrange(1 << 20) if r.random() < 0.2 else None,
               "rel": r.random() < 0.5, "split": r.randrange(1 << 40) if r.random() < 0.2 else None, "faults": []}
        if r.random() < (0.6 if i < nruns - 1 else 0.35):
            for _ in range(r.choice([1, 1, 1, 2])):
                run["faults"].append([r.choice(["crash", "crash", "crash", "disk", "disk", "cap", "fork"]), r.randrange(1 << 30), r.randrange(1 << 30)])
        sc["runs"].append(run)
    return sc


def reach(st, k, n=1):
    st["reached"][k] = st["reached"].get(k, 0) + n


def content(f):
    t = io.StringIO()
    w = csv.DictWriter(t, list(f["rows"][0]), lineterminator="\n")
    w.writeheader()
    w.writerows(f["rows"])
    b = t.getvalue().encode()
    return gzip.compress(b, mtime=0) if f["name"].endswith(".gz") else b


def run(sc):
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0}
    repro = sc
    if any(len(f) == 3 for x in sc["runs"] for f in x["faults"]):
        runs = []
        for x in sc["runs"]:
            y = dict(x, faults=[])
            if x["faults"]:
                v, info = once(dict(sc, runs=runs + [y]), st)
                if v:
                    return v, dict(sc, runs=runs + [y]), st
                y["faults"] = [g for f in x["faults"] for g in place(f, info)]
            runs.append(y)
        repro = dict(sc, runs=runs)
    v, _ = once(repro, st)
    return v, repro, st


def place(f, info):
    kind, a, b = f
    ops, pools = info
    if kind in ("crash", "disk") and ops:
        late = [o for o in ops if o[1] in ("write", "rename", "close", "remove")]
        cand = late if late and a % 3 else ops
        n, name, _, size = cand[a // 3 % len(cand)]
        if kind == "crash":
            how = ["crash-before", "crash-after", "crash-inside"][b % 3]
            if how == "crash-inside" and name != "write":
                how = "crash-before"
        else:
            how = ["error", "enospc", "shortwrite"][b % 3] if name == "write" else "error"
        return [["disk", n, how, b // 3 % size if size else 0]]
    if kind == "cap":
        return [["cap", a % 4000, 0, 0]]
    if kind == "fork" and pools:
        return [["fork", 1 + a % pools, 0, 0]]
    return []


def once(sc, st):
    fs = simfs.FS()
    fs.dirs |= {CWD, DATA}
    fs.cwd = CWD
    simfs.cur[0] = fs
    argv, path = sys.argv, list(sys.path)
    sys.path.insert(0, os.path.join(REPO, "Probe"))
    try:
        return history(sc, st, fs)
    finally:
        sys.argv, sys.path[:] = argv, path
        if fs.cur:
            fs.cur.dead = True
        for k, n in fs.fired.items():
            st["faults"][k] = st["faults"].get(k, 0) + n
        simfs.cur[0] = None
        simproc.S[0] = None
        forget()


def forget():
    """The next process loads the modules anew."""
    for m in [m for m in sys.modules if m == "probe" or m.startswith("probe.")]:
        del sys.modules[m]


def program(name, args):
    """Runs a program; how it ended, and what it wrote."""
    sys.argv = [name] + args
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_module(name, run_name="__main__", alter_sys=False)
    except SystemExit as e:
        return ("exit status %s" % (e.code,) if e.code else None), out.getvalue()
    except ModuleNotFoundError:
        raise
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:150]), out.getvalue()
    return None, out.getvalue()


def output(rn, name):
    tag = "results_numeric_%s_" % rn["region"] + ("shuffle_%d" % rn["shuffle"] if rn["shuffle"] is not None else "")
    return name.replace("results_", tag)


def expected(rn, f):
    """The rows before their text is numbered, and the columns with text."""
    text = {"Filename", "SiteName", "Region", "Campain", "Process"} | {c for c in VALUES if c in f["rows"][0]}
    rows = []
    for x in f["rows"]:
        if rn["region"] != "all" and "_%s_" % rn["region"].lower() not in x["SiteName"].lower():
            continue
        y = dict(x)
        y.setdefault("Region", x["SiteName"].split("_")[1].lower())
        y.setdefault("Campain", x["Filename"].split("/")[3])
        y.setdefault("Process", x["Filename"].split("/")[4])
        if f["name"].endswith(".gz"):
            y["day"] = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=x["reqDay"])
        rows.append(y)
    # a column is text if what it holds in the file cannot be read as numbers
    for c in list(text):
        if c in f["rows"][0]:
            try:
                for x in f["rows"]:
                    float(x[c])
                text.discard(c)
            except ValueError:
                pass
    return rows, text


def value(s, like):
    if isinstance(like, bool):
        return {"True": True, "False": False}.get(s, s)
    if isinstance(like, datetime.datetime):
        return datetime.datetime.fromisoformat(s)
    if isinstance(like, str):  # text that reads as numbers
        return float(s), float(like)
    return type(like)(s) if isinstance(like, float) or re.match(r"-?\d+$", s) else s


def parse(b, gz):
    t = gzip.decompress(b).decode() if gz else b.decode()
    if not t.endswith("\n"):
        raise ValueError("the last line is cut off")
    rows = list(csv.reader(io.StringIO(t, newline="")))
    if any(len(x) != len(rows[0]) for x in rows):
        raise ValueError("a line with another number of fields")
    return rows[0], rows[1:]


def compare(rn, f, b, ids):
    """What is wrong with a numeric file. ids: category -> value -> number."""
    rows, text = expected(rn, f)
    try:
        head, got = parse(b, f["name"].endswith(".gz"))
    except Exception as e:
        return "is not a whole table (%s: %s)" % (type(e).__name__, str(e)[:80])
    want = set(f["rows"][0]) | {"Region", "Campain", "Process"} | ({"day"} if f["name"].endswith(".gz") else set())
    if sorted(head) != sorted(want):
        return "has columns %s" % head
    if len(got) != len(rows):
        return "has %d rows, not %d" % (len(got), len(rows))
    back = {}
    for c in text:
        back[c] = {str(n): v for v, n in ids.get(c, {}).items()}
        if len(back[c]) != len(ids.get(c, {})):
            return "two values of %s have one number: %s" % (c, short(ids[c]))
    dec = []
    for i, g in enumerate(got):
        d = {}
        for c, s in zip(head, g):
            if c in text:
                if s not in back[c]:
                    return "row %d: the number %s of %s is none the database knows" % (i, s, c)
                d[c] = back[c][s]
            else:
                like = rows[0][c]
                try:
                    d[c] = value(s, like)
                    if isinstance(like, str):
                        d[c] = d[c][0]
                except ValueError:
                    return "row %d: %s is %r" % (i, c, s)
        dec.append(d)
    for x in rows:
        for c in x:
            if c not in text and isinstance(x[c], str):
                x[c] = float(x[c])
    if rn["shuffle"] is not None:
        key = lambda x: sorted((c, str(v)) for c, v in x.items())
        a, b = sorted(rows, key=key), sorted(dec, key=key)
    else:
        a, b = rows, dec
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            c = [c for c in x if x[c] != y[c]][0]
            return "row %d has %s %r, not %r" % (i, c, y[c], x[c])
    return None


def database(region, cats, fs, turn):
    """The numbers, as the inspection shows them."""
    fs.start()
    ids = {}
    p = "container_%s_.pickle" % region
    err, out = program("probe.converter.inspect", [p, "categories"])
    if err:
        return None, "the inspection of %s fails: %s" % (p, err)
    have = answer(out)
    if have is None or "keys" not in have:
        return None, "the inspection of %s answers %s" % (p, short(out))
    for i, c in enumerate(sorted(cats)):
        if c not in have["keys"]:
            continue
        q = ["--sort-by-value", "true"] if i % 2 else []
        err, out = program("probe.converter.inspect", [p, "all." + c] + q)
        a = answer(out)
        if err or a is None or c not in a:
            return None, "asked for all of %s: %s" % (c, err or short(out))
        ids[c] = a[c]
        if ids[c] and (i + turn) % 3 == 0:
            v = sorted(ids[c])[len(ids[c]) // 2]
            err, out = program("probe.converter.inspect", [p, "valueOf.%s.%s" % (c, v)])
            a = answer(out)
            if err or a != {c: {v: ids[c][v]}}:
                return None, "asked for %r of %s: %s, not %s" % (v, c, err or short(a), ids[c][v])
    return ids, None


def answer(out):
    t = re.sub("\x1b\\[[0-9;]*[A-Za-z]", "", out)
    a, b = t.find("{"), t.rfind("}")
    try:
        return json.loads(t[a:b + 1])
    except ValueError:
        return None


def history(sc, st, fs):
    src = {f["name"]: content(f) for f in sc["files"]}
    known = {}      # region -> category -> value -> number, as files have them
    orders = {}     # output -> rows, once seen
    made = set()    # outputs runs may have made
    info = None
    hurt = False
    for ri, rn in enumerate(sc["runs"]):
        for f in sc["files"]:
            if f["at"] == ri:
                fs.files[DATA + "/" + f["name"]] = bytearray(src[f["name"]])
        if rn["drop"] is not None:
            outs = sorted(x for x in fs.files if "results_numeric" in x)
            if outs:
                del fs.files[outs[rn["drop"] % len(outs)]]  # somebody wants it made again
                reach(st, "made-again")
        cap, disk, fork = 0, [], 0
        for kind, n, how, arg in (f for f in rn["faults"] if len(f) == 4):
            if kind == "disk":
                disk.append([n, how, arg])
            elif kind == "cap":
                cap = fs.used() + n + 1
            else:
                fork = n
        here = [f for f in sc["files"] if f["at"] <= ri]
        if sc["kind"] == "file":
            here = [sc["files"][rn["file"]]]
        target = ("data" if rn["rel"] else DATA) + ("/" + here[0]["name"] if sc["kind"] == "file" else "")
        forget()
        p = fs.start(disk, random.Random("split%d/%d" % (rn["split"], ri)) if rn["split"] is not None else None, cap)
        s = simproc.S[0] = simproc.Sched(random.Random("pool%d" % ri), cpus=rn["cpus"], refuse=fork)
        import pandas
        pandas.chance[0] = s.rng
        args = [target]
        if rn["region"] != "all" or ri % 2:
            args += ["--region", rn["region"]]
        if rn["shuffle"] is not None:
            args += ["--shuffle", ["true", "yes", "T", "1"][ri % 4], "--seed", str(rn["shuffle"])]
        st["runs"] += 1
        st["ops"]["convert"] = st["ops"].get("convert", 0) + 1
        crashed, err = False, None
        try:
            err, _ = program("probe.converter", args)
        except SimCrash:
            crashed = True
        st["steps"] += p.n
        info = (list(p.trace), s.nproc)
        disturbed = crashed or p.failed or bool(s.fired)
        for k, n in s.fired.items():
            fs.count(k)
        p.dead = True
        simproc.S[0] = None
        where = "run %d (%s%s): " % (ri, rn["region"], "" if rn["shuffle"] is None else ", shuffled by %d" % rn["shuffle"])
        if err and not disturbed:
            return where + "failed without a fault: %s" % err, info
        made |= {output(rn, f["name"]) for f in here}
        for f in sc["files"]:
            if f["at"] <= ri and fs.files.get(DATA + "/" + f["name"]) != src[f["name"]]:
                return where + "it changed %s" % f["name"], info
        for x in sorted(fs.files):
            n = os.path.basename(x)
            if "csv" in n and n not in made and not (n in src and x == DATA + "/" + n):
                return where + "it made %s" % n, info
        # every numeric file there is, at this moment
        by = {}
        for q in sc["runs"][:ri + 1]:
            for f in sc["files"]:
                by[output(q, f["name"])] = (q, f)
        regions = {}
        for n in sorted(made):
            if DATA + "/" + n in fs.files:
                q, f = by[n]
                regions.setdefault(q["region"], []).append((n, q, f))
        for region, fsx in sorted(regions.items()):
            cats = set()
            for n, q, f in fsx:
                cats |= expected(q, f)[1]
            cats |= set(known.get(region, ()))
            forget()
            ids, v = database(region, cats, fs, ri)
            if v:
                return where + v, info
            for c, m in known.get(region, {}).items():
                for val, k in m.items():
                    if ids.get(c, {}).get(val) != k:
                        return where + "%s %r was %s, now it is %s" % (c, val, k, ids.get(c, {}).get(val)), info
            for n, q, f in fsx:
                b = bytes(fs.files[DATA + "/" + n])
                v = compare(q, f, b, ids)
                if v:
                    return where + "%s %s" % (n, v), info
                rows = parse(b, n.endswith(".gz"))
                rows = [dict(zip(rows[0], x)) for x in rows[1]]
                if orders.setdefault(n, rows) != rows:
                    return where + "%s is not as it was made before" % n, info
                k = known.setdefault(region, {})
                xs, text = expected(q, f)
                for c in text:
                    for x in xs:
                        k.setdefault(c, {})[x[c]] = ids[c][x[c]]
        if crashed:
            reach(st, "crashed")
        elif err:
            reach(st, "failure-reported")
        else:
            for f in here:
                if DATA + "/" + output(rn, f["name"]) not in fs.files:
                    return where + "it ended well without %s" % output(rn, f["name"]), info
            reach(st, "complete")
            if disturbed:
                reach(st, "fault-absorbed")
            if hurt:
                reach(st, "complete-after-a-failure")
            if len(known.get(rn["region"], ())) and ri:
                reach(st, "numbers-kept")
        hurt = hurt or crashed or bool(err)
    return None, info


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:100] + "... (%d)" % len(s)


def smaller(sc):
    for i in range(len(sc["runs"])):
        if len(sc["runs"]) > 1:
            yield dict(sc, runs=sc["runs"][:i] + sc["runs"][i + 1:], files=[dict(f, at=max(0, f["at"] - (f["at"] > i or f["at"] == len(sc["runs"]) - 1))) for f in sc["files"]])
        x = sc["runs"][i]
        for j in range(len(x["faults"])):
            yield dict(sc, runs=sc["runs"][:i] + [dict(x, faults=x["faults"][:j] + x["faults"][j + 1:])] + sc["runs"][i + 1:])
        for k, v in (("drop", None), ("split", None), ("shuffle", None), ("region", "all"), ("cpus", 1), ("rel", False)):
            if x[k] != v:
                yield dict(sc, runs=sc["runs"][:i] + [dict(x, **{k: v})] + sc["runs"][i + 1:])
    if len(sc["files"]) > 1:
        for i in range(len(sc["files"])):
            yield dict(sc, files=sc["files"][:i] + sc["files"][i + 1:], runs=[dict(x, file=0 if x["file"] == i else x["file"] - (x["file"] > i)) for x in sc["runs"]])
    for i, f in enumerate(sc["files"]):
        n = len(f["rows"])
        if n > 1:
            for a, b in ((0, n // 2), (n // 2, n), (1, n), (0, n - 1)):
                if b > a:
                    yield dict(sc, files=sc["files"][:i] + [dict(f, rows=f["rows"][a:b])] + sc["files"][i + 1:])
        for c in list(f["rows"][0]):
            if c not in ("Filename", "SiteName", "reqDay"):
                yield dict(sc, files=sc["files"][:i] + [dict(f, rows=[{k: v for k, v in x.items() if k != c} for x in f["rows"]])] + sc["files"][i + 1:])


def brief(sc):
    return "%s, %s, runs %s" % (sc["kind"], [[f["name"], len(f["rows"]), f["at"]] for f in sc["files"]], [[x["region"], x["shuffle"], [f[0] for f in x["faults"]]] for x in sc["runs"]])


NONTRIVIAL = {"complete", "complete-after-a-failure", "numbers-kept", "made-again", "crashed", "failure-reported", "fault-absorbed"}
REAL = ["Probe/probe/converter (the program and its inspection)", "Probe/probe/loaders.py"]
STUB = ["pandas and numpy (a small stand-in)", "multiprocessing.Pool (calls in a drawn order)", "disk (simfs)", "tqdm, colorama, pygments"]
