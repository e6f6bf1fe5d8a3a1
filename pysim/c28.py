"""C28: Avro data files keep every record, in order, or report an error."""
import gc
import io
import json
import os
import pickle
import random

import simfs
from c24 import Bad, expect, gc_done, is_prefix, proc, reach, recs_of, same, short, split
from simfs import ROOT, SimCrash

PATH = ROOT + "/d/part-m-00000.avro"
TYPES = ["int", "float", "str", "bool", "none", "ints", "strs", "map", "rec", "wide"]


def value(r, t):
    if t == "int":
        return r.choice([0, 1, -1, 2**31 - 1, -2**31, r.randrange(10**6)])
    if t == "float":
        return r.choice([0.5, -2.0, 0.1, 1e300, -1e-9, r.random(), 3.0])
    if t == "str":
        return r.choice(["", "a", "è\n", "\U0001f600", "\x00", "x" * r.choice([5, 100, 900] if r.random() < 0.97 else [20000, 66000])])
    if t == "bool":
        return r.random() < 0.5
    if t == "ints":
        return [r.randrange(100) for _ in range(r.choice([0, 1, 3]))]
    if t == "strs":
        return [r.choice(["a", "", "é"]) for _ in range(r.choice([0, 1, 3]))]
    if t == "map":
        return {"k%d" % i: r.randrange(100) for i in range(r.choice([0, 1, 3, 3, 12]))}
    if t == "wide":
        return {"w%d" % i: [i, float(i) / 2, "s%d" % i][i % 3] for i in range(10)}
    if t == "rec":
        return {"x": r.randrange(10), "y": r.choice(["", "yy"]), "z": r.random()}
    return None


def record(r, form, first):
    d = {}
    for i, t in enumerate(form):
        v = value(r, t)
        while first and v in ([], {}):
            v = value(r, t)
        d["f%d" % i] = v
    return d


def gen(r):
    form = [r.choice(TYPES) for _ in range(r.choice([1, 2, 2, 3, 5]))]
    form = [t for i, t in enumerate(form) if t not in ("rec", "wide") or not {"rec", "wide"} & set(form[:i])]
    if set(form) <= {"ints", "strs", "map", "rec", "wide"}:
        form.append("int")  # the translator takes plain values for maps only
    sc = {"form": form, "box": r.choice(["file", "file", "file", "mem", "tmp"]), "schema": r.random() < 0.3}
    sc["sessions"] = []
    n = 0
    big = r.random() < 0.15
    for s in range(r.choice([1, 1, 2, 3]) if sc["box"] != "tmp" else 1):
        items = []
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            how = r.choice(["dict", "list", "list", "init"])
            if how == "init" and items:
                how = "list"
            k = 1 if how == "dict" else r.choice([0, 1, 2, 5, 12, 60 if big else 3])
            items.append({"how": how, "recs": [record(r, form, n + i == 0) for i in range(k)]})
            n += k
        sc["sessions"].append({"append": s > 0 and r.random() < 0.8, "items": items, "by": r.choice(["name", "desc"])})
    if any(not recs_of(s) or [] in recs_of(s)[0].values() or {} in recs_of(s)[0].values() for s in sc["sessions"]):
        return gen(r)  # a session without records, or whose first record tells no form
    sc["kind"] = r.choice(["seq", "seq", "wfault", "crash", "rfault", "cut"]) if sc["box"] == "file" else "seq"
    sc["split"] = r.randrange(1 << 40) if r.random() < 0.5 else None
    sc["via"] = r.choice(["reader", "reader", "datafile", "desc"]) if sc["box"] == "file" else r.choice(["desc", "datafile", "writer"])
    if sc["box"] == "tmp":
        sc["via"] = "writer"
    sc["ops"] = genops(r, n)
    sc["pick"] = r.randrange(1 << 40)
    return sc


def genops(r, n):
    ops = []

    def ix():
        return r.randrange(n + 2)
    for _ in range(r.choice([1, 2, 4, 8])):
        k = r.choice(["iter", "list", "len", "get", "get", "slice", "slice", "rev", "chunks", "part", "raw", "pickle", "again", "mid", "mid", "mid"])
        if k == "get":
            ops.append([k, ix()])
        elif k == "slice":
            a, b = sorted((ix(), ix()))
            ops.append(["slice", r.choice([a, a, None]), b, r.choice([None, None, 1, 2, 3])])
        elif k == "rev":
            a, b = sorted((ix(), ix()))
            if a < b:
                ops.append(["slice", b, a, None])
        elif k == "chunks":
            ops.append([k, r.choice([1, 2, 3, 7, 100])])
        elif k == "part":
            ops.append([k, r.randrange(4)])
        elif k == "mid":
            a, b = sorted((ix(), ix()))
            ops.append([k, ix(), r.choice([["len"], ["get", ix()], ["slice", a, b, None], ["raw"]])])
        else:
            ops.append([k])
    return ops


def mods():
    from DataManager.collector.api import DataFile
    from DataManager.collector.datafile.avro import AvroDataFileReader, AvroDataFileWriter
    return DataFile, AvroDataFileReader, AvroDataFileWriter


NAMES = {"int": "long", "float": "double", "str": "string", "bool": "boolean", "none": "null", "ints": {"type": "array", "items": "long"},
         "strs": {"type": "array", "items": "string"}, "map": {"type": "map", "values": "long"},
         "rec": {"type": "record", "name": "inner", "fields": [{"name": "x", "type": "long"}, {"name": "y", "type": "string"}, {"name": "z", "type": "double"}]},
         "wide": {"type": "record", "name": "inner", "fields": [{"name": "w%d" % i, "type": ["long", "double", "string"][i % 3]} for i in range(10)]}}


def given(item):
    return item["recs"][0] if item["how"] == "dict" else [dict(x) for x in item["recs"]]


def write(sc, ses, desc=None):
    W = mods()[2]
    kw = {}
    items = ses["items"]
    if sc["schema"]:
        kw["schema"] = {"type": "record", "name": "r", "fields": [{"name": "f%d" % i, "type": NAMES[t]} for i, t in enumerate(sc["form"])]}
    if items and items[0]["how"] == "init":
        kw["data"] = given(items[0])
        items = items[1:]
    if desc is not None:
        w = W(desc, **kw)
        for it in items:
            w.append(given(it))
        return w
    if ses["append"]:
        f = open(PATH, "a+b")
    elif ses["by"] == "desc":
        f = open(PATH, "w+b")
    else:
        f = PATH
    with W(f, **kw) as w:
        for it in items:
            w.append(given(it))


def model(sc, upto=None):
    out = []
    for ses in sc["sessions"][:upto]:
        if not ses["append"] and sc["box"] == "file":
            out = []
        out += recs_of(ses)
    return out


def reader(sc, w=None):
    DataFile, R, W = mods()
    if sc["box"] == "file":
        if sc["via"] == "datafile":
            return DataFile(PATH)
        return R(open(PATH, "rb") if sc["via"] == "desc" else PATH)
    if sc["via"] == "writer":
        return DataFile(w)
    raw = w.raw_data
    return DataFile(io.BytesIO(raw)) if sc["via"] == "datafile" else R(io.BytesIO(raw))


def raw(f, want):
    R = mods()[1]
    expect(want, [x for x in R(io.BytesIO(f.raw_data))], "raw data")


def look(f, op, want):
    """One look at the file that leaves iterations alone."""
    n = len(want)
    if op[0] == "len":
        expect(n, len(f), "length")
    elif op[0] == "get":
        i = op[1]
        try:
            got = f[i]
        except IndexError:
            if i < n:
                raise Bad("record %d of %d was not found" % (i, n))
            return
        if i >= n:
            raise Bad("record %d of %d: got %s" % (i, n, short(got)))
        expect(want[i], got, "record %d of %d" % (i, n))
    elif op[0] == "slice":
        a, b, s = op[1:]
        w = want[a:b:s] if a is None or a <= b else want[a:b:-1]
        try:
            got = f[slice(a, b, s)]
        except IndexError:
            if b <= n and (a is None or a < n):
                raise Bad("records %s:%s:%s of %d were not found" % (a, b, s, n))
            return
        expect(w, got, "records %s:%s:%s of %d" % (a, b, s, n))
    else:
        raw(f, want)


def play(sc, f, want, st, again):
    n = len(want)
    for op in sc["ops"]:
        k = op[0]
        st[k] = st.get(k, 0) + 1
        isdf = type(f).__name__ == "DataFile"
        if k == "iter":
            expect(want, [x for x in f], "iteration")
        elif k == "list":
            expect(want, list(f), "list")
        elif k in ("len", "get", "slice", "raw"):
            look(f, op, want)
        elif k == "chunks" and isdf:
            got = [x for x in f.get_chunks(op[1])]
            expect(want, [y for x in got for y in x], "chunks of %d" % op[1])
            if any(len(x) != op[1] for x in got[:-1]) or got and not 0 < len(got[-1]) <= op[1]:
                raise Bad("chunks of %d have the lengths %s" % (op[1], [len(x) for x in got]))
        elif k == "part":
            it = iter(f)
            for j in range(min(op[1], n)):
                expect(want[j], next(it), "record %d in an iteration" % j)
        elif k == "mid":
            got = []
            for j, x in enumerate(f):
                got.append(x)
                if j == op[1]:
                    look(f, op[2], want)
                if j > n:
                    break
            expect(want, got, "iteration with a look (%s) after record %d" % (op[2][0], op[1]))
        elif k == "pickle" and isdf and sc["box"] == "file":
            f = pickle.loads(pickle.dumps(f))
        elif k == "again" and again:
            f = again()


def run(sc):
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0}
    fs = simfs.FS()
    fs.dirs.add(ROOT + "/d")
    simfs.cur[0] = fs
    try:
        v, repro = _run(sc, fs, st)
    finally:
        gc_done(fs)
        simfs.cur[0] = None
    for k, n in fs.fired.items():
        st["faults"][k] = st["faults"].get(k, 0) + n
    return v, repro or sc, st


def explicit(sc, **kw):
    return dict(sc, **dict(kw, pick=0))


def _run(sc, fs, st):
    DataFile, R, W = mods()
    kind = sc["kind"]
    want = model(sc)
    if sc["box"] != "file":
        proc(fs, st, split=split(sc))
        desc = io.BytesIO() if sc["box"] == "mem" else simfs._tmpfile()
        ws = []
        try:
            for ses in sc["sessions"]:
                w = write(sc, ses, desc)
                ws.append(w)
            play(sc, reader(sc, w), want, st["ops"], None)
            if sc["via"] == "writer":  # what is appended after a look at the data
                w.append([want[-1], want[0]])
                play(dict(sc, ops=[["iter"], ["len"]]), DataFile(w), want + [want[-1], want[0]], st["ops"], None)
        except Bad as e:
            return str(e), None
        except Exception as e:
            return "without a fault: %s: %s" % (type(e).__name__, e), None
        reach(st, "read-back", len(want))
        return None, None
    last = len(sc["sessions"]) - 1
    try:
        for ses in sc["sessions"][:last]:
            proc(fs, st, split=split(sc))
            write(sc, ses)
    except Exception as e:
        return "writing without a fault: %s: %s" % (type(e).__name__, e), None
    before = {k: bytes(v) for k, v in fs.files.items()}
    p = proc(fs, st, split=split(sc))
    try:
        write(sc, sc["sessions"][last])
        gc.collect(0)
    except Exception as e:
        return "writing without a fault: %s: %s" % (type(e).__name__, e), None
    trace = list(p.trace)
    full = {k: bytes(v) for k, v in fs.files.items()}
    r = random.Random("pick%d" % sc["pick"])

    if kind in ("seq", "rfault"):
        p = proc(fs, st, split=split(sc))
        try:
            play(sc, reader(sc), want, st["ops"], lambda: reader(sc))
        except Bad as e:
            return str(e), None
        except Exception as e:
            return "without a fault: %s: %s" % (type(e).__name__, e), None
        reach(st, "read-back", len(want))
        trace = list(p.trace)

    if kind == "rfault":
        plan = [sc["fault"]] if sc.get("fault") else [[r.choice(trace)[0], "error", 0] for _ in range(6)] if trace else []
        for fl in plan:
            fs.files = {k: bytearray(v) for k, v in full.items()}
            q = proc(fs, st, [fl], split(sc))
            try:
                play(sc, reader(sc), want, st["ops"], lambda: reader(sc))
            except Bad as e:
                return str(e) + " (after a failed read)", explicit(sc, fault=fl)
            except Exception:
                reach(st, "fault-reported")
                continue
            if q.failed:
                reach(st, "fault-absorbed")

    if kind == "cut":
        whole = full[PATH]
        for at in [sc["cut"]] if sc.get("cut") else [1 + r.randrange(len(whole) - 1) for _ in range(6)]:
            fs.files = {PATH: bytearray(whole[:at])}
            fs.count("cut-off")
            proc(fs, st, split=split(sc))
            try:
                got = [x for x in reader(sc)]
            except Exception:
                reach(st, "damage-refused")
                continue
            if not is_prefix(got, want) or at not in ends(whole):
                return "a file cut off after %d of %d bytes was read as %s, want an error" % (at, len(whole), short(got)), explicit(sc, cut=at)

    if kind in ("wfault", "crash"):
        ses = sc["sessions"][last]
        old = model(sc, last) if ses["append"] else []

        def one(faults, cap):
            fs.files = {k: bytearray(v) for k, v in before.items()}
            q = proc(fs, st, faults, split(sc), cap)
            ok = crashed = False
            try:
                write(sc, ses)
                ok = True
            except SimCrash:
                crashed = True
            except Exception:
                pass
            q.dead = True
            if crashed:
                reach(st, "crashed")
            elif q.failed:
                reach(st, "fault-absorbed" if ok else "fault-reported")
            proc(fs, st, split=split(sc))
            try:
                got = [x for x in reader(dict(sc, via="reader"))] if PATH in fs.files else []
            except Exception:
                return "writing reported success but the file cannot be read" if ok else None
            if ok and not same(got, want):
                return "writing reported success but the file holds %s, want %s" % (short(got), short(want))
            if bytes(fs.files.get(PATH, b"")) == before.get(PATH):
                return None
            if not is_prefix(got, want):
                return "after an interrupted writing the file holds %s, not the first of %s" % (short(got), short(want))
            if len(got) < len(old):
                return "an interrupted appending lost earlier records: %s of %s" % (short(got), short(old))
            return None
        if sc.get("plan"):
            plans = [sc["plan"]]
        else:
            plans = []
            tot = sum(len(v) for v in full.values())
            for _ in range(6):
                if kind == "wfault" and r.random() < 0.3:
                    plans.append([[], r.randrange(1, tot + 30)])
                    continue
                n, name, p_, size = r.choice(trace)
                if kind == "wfault":
                    k = r.choice(["error", "enospc", "shortwrite"]) if name == "write" else "error"
                else:
                    k = r.choice(["crash-before", "crash-inside", "crash-after"]) if name == "write" else r.choice(["crash-before", "crash-after"])
                fl = [[n, k, r.randrange(size) if size else 0]]
                if kind == "wfault" and r.random() < 0.3:
                    fl += [[t[0], "error", 0] for t in trace if t[0] > n]
                plans.append([fl, 0])
        for fl, cap in plans:
            v = one(fl, cap)
            if v:
                return v, explicit(sc, plan=[fl, cap])
    return None, None


def ends(b):
    """Where a block ends."""
    from fastavro import MAGIC
    p = len(MAGIC)
    out = []
    while p < len(b):
        p += 8 + int(b[p:p + 8], 16)
        out.append(p)
    return out


def smaller(sc):
    from c24 import smaller as s24
    for c in s24(sc):
        if len(set(map(str, c["sessions"]))) and all(recs_of(s) for s in c["sessions"]):
            if all(set(x) == set(model(sc)[0]) for s in c["sessions"] for x in recs_of(s)):
                yield c


def brief(sc):
    return "%s, %s, %d sessions, %d records of %s, via %s, %d reads" % (sc["kind"], sc["box"], len(sc["sessions"]), sum(len(recs_of(s)) for s in sc["sessions"]), "/".join(sc["form"]), sc["via"], len(sc["ops"]))


NONTRIVIAL = {"read-back", "fault-reported", "fault-absorbed", "crashed", "damage-refused"}
REAL = ["DataManager.collector.api", "DataManager.collector.datafile.avro", "DataManager.collector.datafile.utils"]
STUB = ["fastavro: a container of the same structure (header with schema, blocks)", "disk: open, os, tempfile (simfs)", "tqdm"]
