"""C24: JSON data files keep every record, in order, or report an error."""
import gc
import io
import json
import pickle
import random

import simfs
from simfs import ROOT, SimCrash

BOXES = {"plain": ".json", "gz": ".json.gz", "bz2": ".json.bz2"}


def value(r, depth=0):
    k = r.randrange(10 if depth < 3 else 7)
    if k == 0:
        return r.choice([0, 1, -1, 2**31, 2**63, r.randrange(10**6)])
    if k == 1:
        return r.choice([0.5, -1e-9, 1e300, r.random(), 3.0])
    if k == 2:
        return r.choice([True, False, None])
    if k in (3, 4):
        return "".join(r.choice("abc xyz{}[]\",:\\/\t") for _ in range(r.randrange(12)))
    if k == 5:
        return r.choice(["è", "日本", "\U0001f600", "a\nb", "\r\n", "\u2028", "\x00", "\n", " ", ""])
    if k == 6:
        return "x" * r.choice([1, 1, 30, 30, 100, 1023, 1024])
    if k in (7, 8):
        return {r.choice(["a", "b", "è", "k\n", "", "long" * 9]) + str(i): value(r, depth + 1) for i in range(r.randrange(4))}
    return [value(r, depth + 1) for _ in range(r.randrange(4))]


def record(r):
    m = r.randrange(60)
    if m < 6:
        return {}
    if m < 12:
        return {"a": r.randrange(5)}
    if m == 12:
        return {"pad": "y" * r.choice([4000, 8191, 8192, 9000])}
    return {"id": r.randrange(1000), "v": value(r)}


def gen(r):
    sc = {"box": r.choice(["plain", "plain", "gz", "gz", "bz2", "mem", "tmp"])}
    files = sc["box"] in BOXES
    ns = r.choice([1, 1, 1, 2, 3]) if files or sc["box"] == "mem" else 1
    total = 0
    big = r.random() < 0.05
    sc["sessions"] = []
    for s in range(ns):
        items = []
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            how = r.choice(["dict", "str", "list", "strs", "mixed", "gen", "init"])
            n = 1 if how in ("dict", "str") else r.choice([0, 1, 2, 5, 12 if not big else 200])
            if how == "init" and items:
                how = "list"
            items.append({"how": how, "recs": [record(r) if n < 100 else {"i": i, "p": "z" * r.randrange(60)} for i in range(n)]})
            total += n
        sc["sessions"].append({"append": s > 0 and r.random() < 0.85 or s == 0 and r.random() < 0.3, "items": items})
    if files:
        sc["kind"] = r.choice(["seq", "seq", "wfault", "crash", "damage", "rfault"])
    else:
        sc["kind"] = r.choice(["seq", "seq", "seq", "rfault"]) if sc["box"] == "tmp" else "seq"
    if sc["kind"] == "damage" and sc["box"] == "plain":
        sc["kind"] = "seq"
    if sc["kind"] == "damage" and sc["box"] == "bz2":
        sc["sessions"] = sc["sessions"][:1]
    if sc["kind"] == "seq" and sc["box"] in ("plain", "gz", "mem"):
        sc["noEOL"] = r.random() < 0.25
    sc["split"] = r.randrange(1 << 40) if r.random() < 0.5 else None
    sc["via"] = r.choice(["reader", "reader", "datafile", "desc", "raw"])
    if sc["box"] == "plain" and sc["via"] == "datafile":
        sc["via"] = "reader"
    if not files:
        sc["via"] = r.choice(["desc", "raw", "datafile", "writer"] if sc["box"] == "mem" else ["writer"])
        if sc["via"] == "writer":
            sc["noEOL"] = False
    if sc["via"] == "raw" and sc["box"] in ("gz", "bz2"):
        sc["via"] = "desc"  # the gzip library needs full reads
    sc["ops"] = genops(r, total)
    sc["pick"] = r.randrange(1 << 40)
    if sc["kind"] == "seq" and r.random() < 0.04:
        # a record beyond every usual buffer; the code reads byte by byte, hence few operations
        for s in sc["sessions"]:
            s["items"] = [it for it in s["items"] if len(it["recs"]) < 50]
        its = [it for s in sc["sessions"] for it in s["items"] if it["recs"]]
        if its:
            r.choice(its)["recs"][0] = {"huge": "y" * r.choice([65530, 65536, 70000, 140000])}
            sc["ops"], sc["split"] = sc["ops"][:3], None
    return sc


def genops(r, n):
    ops = []
    hi = max(1, min(n + 3, 60)) if r.random() < 0.8 else n + 3

    def ix():
        return r.randrange(hi)
    for _ in range(r.choice([1, 2, 4, 8, 15])):
        k = r.choice(["iter", "list", "len", "get", "get", "get", "neg", "slice", "slice", "rev", "from", "ckpt", "chunks", "part", "raw", "pickle", "again", "mid", "mid"])
        if k in ("get", "ckpt"):
            ops.append([k, ix()])
        elif k == "neg":
            ops.append(["get", -1 - r.randrange(min(hi, 8))])
        elif k == "slice":
            a, b = sorted((ix(), ix()))
            ops.append(["slice", r.choice([a, a, None]), b, r.choice([None, None, 1, 2, 3])])
        elif k == "rev":
            a, b = sorted((ix(), ix()))
            if a < b:
                ops.append(["slice", b, a, None])
        elif k == "from":
            ops.append([k, ix()])
        elif k == "chunks":
            ops.append([k, r.choice([1, 2, 3, 7, 100])])
        elif k == "part":
            ops.append([k, r.randrange(4)])
        elif k == "mid":
            a, b = sorted((ix(), ix()))
            ops.append([k, ix(), r.choice([["len"], ["get", ix()], ["get", -1 - ix()], ["slice", a, b, None], ["raw"]])])
        else:
            ops.append([k])
    return ops


# ---------------------------------------------------------------- the run

def mods():
    from DataManager.collector.api import DataFile
    from DataManager.collector.datafile.json import JSONDataFileReader, JSONDataFileWriter
    return DataFile, JSONDataFileReader, JSONDataFileWriter


def path(sc):
    return ROOT + "/d/data" + BOXES.get(sc["box"], ".json")


def given(item, recs=None):
    recs = item["recs"] if recs is None else recs
    how = item["how"]
    if how == "dict":
        return recs[0]
    if how == "str":
        return json.dumps(recs[0])
    if how in ("list", "init"):
        return [dict(x) for x in recs]
    if how == "strs":
        return [json.dumps(x, indent=1) for x in recs]
    if how == "mixed":
        return [json.dumps(x, ensure_ascii=False) if i % 2 else dict(x) for i, x in enumerate(recs)]
    return (x for x in recs)


def write(W, sc, ses, desc=None, keep=None):
    kw = {"descriptor": desc} if desc is not None else {"filename": path(sc)}
    items = ses["items"]
    if ses["append"]:
        kw["append"] = True
    if items and items[0]["how"] == "init":
        kw["data"] = given(items[0])
        items = items[1:]
    if desc is not None:
        w = W(**kw)
        for it in items:
            w.append(given(it))
        return w
    with W(**kw) as w:
        for it in items:
            w.append(given(it))


def recs_of(ses):
    return [x for it in ses["items"] for x in it["recs"]]


def model(sc, upto=None):
    out = []
    for ses in sc["sessions"][:upto]:
        if not ses["append"] and sc["box"] in BOXES:
            out = []
        out += recs_of(ses)
    return out


class Bad(Exception):
    pass


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) and type(a) is type(b)


def expect(want, got, what):
    if not same(got, want):
        raise Bad("%s: got %s, want %s" % (what, short(got), short(want)))


def short(x):
    s = json.dumps(x)
    return s if len(s) < 160 else "%s... (%d)" % (s[:120], len(x) if hasattr(x, "__len__") else 0)


class Drips(io.RawIOBase):
    """Data in memory behind a descriptor that gives less than it is asked for."""

    def __init__(self, data, seed):
        self.b, self.r = io.BytesIO(data), random.Random(seed)

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, buf):
        d = self.b.read(min(len(buf), self.r.choice([1, 2, 7, 100, 5000])))
        buf[:len(d)] = d
        return len(d)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


def reader(sc, fs, w=None):
    DataFile, R, W = mods()
    via = sc["via"]
    if sc["box"] in BOXES:
        p = path(sc)
        if via == "datafile":
            return DataFile(p)
        if via == "desc":
            import bz2
            import gzip
            d = {"plain": lambda: open(p, "rb"), "gz": lambda: gzip.open(p, "rb"), "bz2": lambda: bz2.open(p, "rb")}[sc["box"]]()
            return R(descriptor=d)
        if via == "raw":
            return R(descriptor=open(p, "rb", 0))
        return R(p)
    if via == "writer":
        return DataFile(w)
    raw = w.raw_data
    if sc.get("noEOL") and raw.endswith(b"\n"):
        raw = raw[:-1]
    if via == "raw":
        return R(descriptor=Drips(raw, sc["pick"]))
    return DataFile(io.BytesIO(raw)) if via == "datafile" else R(descriptor=io.BytesIO(raw))


def play(sc, f, want, st, again, loose=None):
    """Reading operations against the list want."""
    n = len(want)
    ck = {}
    offs = [0]
    for x in want:
        offs.append(offs[-1] + len(json.dumps(x).encode()) + 1)
    inner = [f]
    for op in sc["ops"]:
        f = inner[0]
        k = op[0]
        st[k] = st.get(k, 0) + 1
        isdf = type(f).__name__ == "DataFile"
        if k == "iter":
            expect(want, [x for x in f], "iteration")
        elif k == "list":
            expect(want, list(f), "list")
        elif k == "len":
            expect(n, len(f), "length")
        elif k == "get":
            i = op[1]
            try:
                got = f[i]
            except IndexError:
                if -n <= i < n:
                    raise Bad("record %d of %d was not found" % (i, n))
                continue
            if not -n <= i < n:
                raise Bad("record %d of %d: got %s" % (i, n, short(got)))
            expect(want[i], got, "record %d of %d" % (i, n))
        elif k == "slice":
            a, b, s = op[1:]
            w = want[a:b:s] if a is None or a <= b else want[a:b:-1]
            expect(w, f[slice(a, b, s)], "records %s:%s:%s of %d" % (a, b, s, n))
        elif k == "from" and not isdf:
            expect(want[op[1]:], [x for x in f.start_from(op[1])], "records from %d of %d" % (op[1], n))
        elif k == "ckpt" and not isdf:
            if op[1] < n:
                f.add_checkpoint(op[1], offs[op[1]])
                ck[op[1]] = True
        elif k == "chunks" and isdf:
            got = [x for x in f.get_chunks(op[1])]
            expect(want, [y for x in got for y in x], "chunks of %d" % op[1])
            if any(len(x) != op[1] for x in got[:-1]) or got and not 0 < len(got[-1]) <= op[1]:
                raise Bad("chunks of %d have the lengths %s" % (op[1], [len(x) for x in got]))
        elif k == "part":
            it = iter(f)
            for j in range(min(op[1], n)):
                expect(want[j], next(it), "record %d in an iteration" % j)
        elif k == "mid":
            got = []
            for j, x in enumerate(f):
                got.append(x)
                if j == op[1]:
                    play(dict(sc, ops=[op[2]]), f, want, {}, None)
                if j > n:
                    break
            expect(want, got, "iteration with a look (%s) after record %d" % (op[2][0], op[1]))
        elif k == "raw":
            if not sc.get("noEOL"):
                got = [json.loads(x) for x in f.raw_data.decode("utf-8").split("\n")[:-1]]
                expect(want, got, "raw data")
        elif k == "pickle" and isdf and sc["box"] in BOXES:
            inner[0] = pickle.loads(pickle.dumps(f))
        elif k == "again" and again:
            inner[0] = again()


def errors():
    import zlib
    return (OSError, EOFError, ValueError, zlib.error)


def read_all(sc, fs):
    f = reader(dict(sc, via="reader"), fs)
    return [x for x in f]


def is_prefix(got, want):
    return len(got) <= len(want) and same(got, want[:len(got)])


def explicit(sc, **kw):
    out = dict(sc, **kw)
    out["pick"] = 0
    return out


def run(sc):
    """Returns (violation or None, scenario that shows it, statistics)."""
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0}
    fs = simfs.FS()
    fs.dirs.add(ROOT + "/d")
    simfs.cur[0] = fs
    try:
        v, repro = _run(sc, fs, st)
    finally:
        gc_done(fs)
        simfs.cur[0] = None
    for k, n in fs.fired.items():
        st["faults"][k] = st["faults"].get(k, 0) + n
    return v, repro or sc, st


def gc_done(fs):
    fs.cur.dead = True


def split(sc):
    return random.Random("split%d" % sc["split"]) if sc["split"] is not None else None


def reach(st, k, n=1):
    st["reached"][k] = st["reached"].get(k, 0) + n


def proc(fs, st, *a, **k):
    if fs.cur:
        st["steps"] += fs.cur.n
    st["runs"] += 1
    return fs.start(*a, **k)


def _run(sc, fs, st):
    DataFile, R, W = mods()
    kind = sc["kind"]
    want = model(sc)
    w = None
    if sc["box"] in ("mem", "tmp"):
        proc(fs, st, split=split(sc))
        desc = io.BytesIO() if sc["box"] == "mem" else simfs._tmpfile()
        ws = []  # a writer that goes away closes its descriptor
        try:
            for ses in sc["sessions"]:
                if ses["append"]:  # somebody has read in it meanwhile
                    desc.seek(sc["pick"] % (desc.seek(0, 2) + 1) if sc["pick"] % 3 else 0)
                w = write(W, sc, ses, desc)
                ws.append(w)
            f = reader(sc, fs, w)
            play(sc, f, want, st["ops"], None)
            if sc["via"] == "writer":  # what is appended after a look at the data
                extra = [{"late": 1}, {"late": "z" * 9000}]
                w.append(extra)
                play(dict(sc, ops=[["iter"], ["len"]]), DataFile(w), want + extra, st["ops"], None)
        except Bad as e:
            return str(e), None
        except Exception as e:
            return "without a fault: %s: %s" % (type(e).__name__, e), None
        reach(st, "read-back", len(want))
        return None, None
    last = len(sc["sessions"]) - 1
    # the sessions before the last one run without faults
    try:
        for ses in sc["sessions"][:last]:
            proc(fs, st, split=split(sc))
            write(W, sc, ses)
    except Exception as e:
        return "writing without a fault: %s: %s" % (type(e).__name__, e), None
    before = {k: bytes(v) for k, v in fs.files.items()}

    def restore():
        fs.files = {k: bytearray(v) for k, v in before.items()}

    # the last one
    p = proc(fs, st, split=split(sc))
    try:
        write(W, sc, sc["sessions"][last])
        gc.collect(0)
    except Exception as e:
        return "writing without a fault: %s: %s" % (type(e).__name__, e), None
    trace = list(p.trace)
    full = {k: bytes(v) for k, v in fs.files.items()}
    r = random.Random("pick%d" % sc["pick"])

    if kind in ("seq", "rfault", "damage"):
        if sc.get("noEOL"):
            b = fs.files[path(sc)]
            if sc["box"] == "plain" and b.endswith(b"\n"):
                del b[-1:]
            elif sc["box"] == "gz":
                import gzip
                b[:] = gzip.compress(gzip.decompress(bytes(b))[:-1], mtime=0)
            reach(st, "no-final-newline")
        p = proc(fs, st, split=split(sc))
        try:
            def again():
                return reader(sc, fs)
            play(sc, reader(sc, fs), want, st["ops"], again)
        except Bad as e:
            return str(e), None
        except Exception as e:
            return "without a fault: %s: %s" % (type(e).__name__, e), None
        reach(st, "read-back", len(want))
        trace = list(p.trace)
        full = {k: bytes(v) for k, v in fs.files.items()}

    if kind == "rfault":
        def one(fault):
            fs.files = {k: bytearray(v) for k, v in full.items()}
            q = proc(fs, st, [fault], split(sc))
            try:
                play(sc, reader(sc, fs), want, st["ops"], lambda: reader(sc, fs))
            except Bad as e:
                return str(e) + " (after a failed read)"
            except Exception:
                reach(st, "fault-reported")
                return None
            if q.failed:
                reach(st, "fault-absorbed")
            return None
        plan = [sc["fault"]] if sc.get("fault") else [[r.choice(trace)[0], "error", 0] for _ in range(6)] if trace else []
        for fl in plan:
            v = one(fl)
            if v:
                return v, explicit(sc, fault=fl)

    if kind == "damage":
        whole = full[path(sc)]

        def one(d):
            b = bytearray(whole)
            if d[0] == "trunc":
                del b[d[1]:]
            elif d[0] == "flip":
                b[d[1]] ^= d[2]
            elif d[0] == "drop":
                del b[d[1]:d[1] + d[2]]
            fs.files = {k: bytearray(v) for k, v in full.items()}
            fs.files[path(sc)] = b
            fs.count("damage-" + d[0])
            proc(fs, st, split=split(sc))
            try:
                got = read_all(sc, fs)
            except Exception:
                reach(st, "damage-refused")
                return None
            if same(got, want):
                reach(st, "damage-harmless")
                return None
            return "a damaged file (%s) was read as %s, want %s or an error" % (d, short(got), short(want))
        starts = members(whole) if sc["box"] == "gz" else [0]
        if sc.get("damage"):
            plan = [sc["damage"]]
        else:
            plan = []
            for _ in range(8):
                m = r.choice(["trunc", "trunc", "flip", "flip", "drop"])
                at = r.randrange(len(whole))
                if m == "trunc":
                    if at in starts:
                        continue
                    plan.append([m, at])
                elif m == "flip":
                    plan.append([m, at, 1 << r.randrange(8)])
                else:
                    n = r.randrange(1, 20)
                    if at + n >= len(whole) and at in starts or any(at <= s < at + n for s in starts):
                        continue
                    plan.append([m, at, n])
        for d in plan:
            v = one(d)
            if v:
                return v, explicit(sc, damage=d)

    if kind in ("wfault", "crash"):
        ses = sc["sessions"][last]
        old = model(sc, last) if ses["append"] else []

        def one(faults, cap):
            restore()
            q = proc(fs, st, faults, split(sc), cap)
            ok, crashed = False, False
            try:
                write(W, sc, ses)
                ok = True
            except SimCrash:
                crashed = True
            except Exception:
                pass
            q.dead = True
            if q.failed and not ok:
                reach(st, "fault-reported")
            if q.failed and ok:
                reach(st, "fault-absorbed")
            if crashed:
                reach(st, "crashed")
            proc(fs, st, split=split(sc))
            try:
                got = read_all(sc, fs) if path(sc) in fs.files else []
            except Exception:
                if ok:
                    return "writing reported success but the file cannot be read"
                got = None
            if got is not None:
                if ok and not same(got, want):
                    return "writing reported success but the file holds %s, want %s" % (short(got), short(want))
                if bytes(fs.files.get(path(sc), b"")) == before.get(path(sc)):
                    return None
                if not is_prefix(got, want):
                    return "after an interrupted writing the file holds %s, not the first of %s" % (short(got), short(want))
                if ses["append"] and len(got) < len(old):
                    return "an interrupted appending lost earlier records: %s of %s" % (short(got), short(old))
            if ok:
                return None
            # and a further session on what is left (the bz2 library takes
            # what follows a stream cut in its padding for trailing garbage)
            if sc["box"] == "bz2":
                return None
            extra = [{"later": 1}]
            proc(fs, st, split=split(sc))
            try:
                write(W, sc, {"append": True, "items": [{"how": "list", "recs": extra}]})
                now = read_all(sc, fs)
            except Exception:
                return None
            if got is None:  # the rest may have held nothing but a torn header
                if same(now[-1:], extra) and is_prefix(now[:-1], want) and len(now) > len(old):
                    return None
                return "a file that could not be read holds %s after a further append" % short(now)
            if not same(now, got + extra):
                return "appending to the rest of an interrupted writing gave %s, want %s" % (short(now), short(got + extra))
            return None
        if sc.get("plan"):
            plans = [sc["plan"]]
        else:
            plans = []
            ws = [t for t in trace]
            tot = sum(len(v) for v in full.values())
            for _ in range(6):
                if kind == "wfault" and r.random() < 0.3:
                    plans.append([[], r.randrange(1, tot + 30)])
                    continue
                if not ws:
                    break
                n, name, p_, size = r.choice(ws)
                if kind == "wfault":
                    k = r.choice(["error", "enospc", "shortwrite"]) if name == "write" else "error"
                else:
                    k = r.choice(["crash-before", "crash-inside", "crash-after"]) if name == "write" else r.choice(["crash-before", "crash-after"])
                arg = r.randrange(size) if size else 0
                fl = [[n, k, arg]]
                if kind == "wfault" and r.random() < 0.3:  # the disk stays broken
                    fl += [[t[0], "error", 0] for t in ws if t[0] > n]
                plans.append([fl, 0])
        for fl, cap in plans:
            v = one(fl, cap)
            if v:
                return v, explicit(sc, plan=[fl, cap])
    return None, None


def members(b):
    """Start offsets of the gzip members."""
    import zlib
    out, pos = [], 0
    while pos < len(b):
        out.append(pos)
        d = zlib.decompressobj(31)
        d.decompress(bytes(b[pos:]))
        pos = len(b) - len(d.unused_data)
    return out


def smaller(sc):
    """Candidates for the minimised scenario."""
    for i in range(len(sc["ops"])):
        yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:])
    for i in range(len(sc["sessions"])):
        if len(sc["sessions"]) > 1:
            yield dict(sc, sessions=sc["sessions"][:i] + sc["sessions"][i + 1:])
        ses = sc["sessions"][i]
        for j in range(len(ses["items"])):
            yield dict(sc, sessions=sc["sessions"][:i] + [dict(ses, items=ses["items"][:j] + ses["items"][j + 1:])] + sc["sessions"][i + 1:])
            it = ses["items"][j]
            if len(it["recs"]) > 1:
                h = len(it["recs"]) // 2
                for part in (it["recs"][:h], it["recs"][h:], it["recs"][:-1], it["recs"][1:]):
                    yield dict(sc, sessions=sc["sessions"][:i] + [dict(ses, items=ses["items"][:j] + [dict(it, recs=part)] + ses["items"][j + 1:])] + sc["sessions"][i + 1:])
            for k, x in enumerate(it["recs"][:6]):
                if x != {"a": k}:
                    yield dict(sc, sessions=sc["sessions"][:i] + [dict(ses, items=ses["items"][:j] + [dict(it, recs=it["recs"][:k] + [{"a": k}] + it["recs"][k + 1:])] + ses["items"][j + 1:])] + sc["sessions"][i + 1:])
    if sc["split"] is not None:
        yield dict(sc, split=None)


def brief(sc):
    return "%s, %s, %d sessions, %d records, via %s, %d reads" % (sc["kind"], sc["box"], len(sc["sessions"]), sum(len(recs_of(s)) for s in sc["sessions"]), sc["via"], len(sc["ops"]))


NONTRIVIAL = {"read-back", "fault-reported", "fault-absorbed", "crashed", "damage-refused", "damage-harmless"}
REAL = ["DataManager.collector.api", "DataManager.collector.datafile.json", "DataManager.collector.datafile.utils", "gzip, bz2, json, io buffering of the Python library"]
STUB = ["disk: open, os, tempfile (simfs)", "tqdm, fastavro"]
