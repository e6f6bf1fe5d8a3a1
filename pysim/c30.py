"""C30: the tables that turn features into indexes, and the train sets made
with them."""
import gzip
import json
import os
import pickle
import random
import sys

import simfs
from simfs import ROOT, SimCrash

REPO = os.environ.get("VERIF_REPO", "/repo")
U = "__unknown__"
VALUES = ["a", "A", "ab", "aB", "AB", "abc", "ABC", "Run2016", "Run2016B", "RUN2016", "run2016b", "Run2016B-v1", "Run2016B_v2-x", "run-1", "run_1", "run-1_v2", "é", "É", "éa", "ß",
          "z times", "a-times", "a-times-b", "times", "times-a", "-", "_x", "0", "00", "10", "9", "~", "x" * 30, "x" * 31, "ü-ü", "MINIAOD", "MINIAODSIM", "AOD", "AODSIM", "__Unknown__"]
KEYS = ["process", "campaign", "file_type", "store_type", "Z"]
TABLES = ["features", "classes", "f2"]


def word(r, wide):
    if wide and r.random() < 0.3:
        return "".join(r.choice("aAbB-_é") for _ in range(r.randrange(1, 6)))
    return r.choice(VALUES)


def gen(r):
    if r.random() < 0.55:
        return gentable(r)
    return genreader(r)


def gentable(r):
    sc = {"kind": "table", "ops": []}
    wide = r.random() < 0.5
    pool = [word(r, wide) for _ in range(r.choice([2, 4, 8, 20]))]
    ts, ks = r.sample(TABLES, r.choice([1, 1, 2])), r.sample(KEYS, r.choice([1, 2, 3]))

    def v():
        x = r.choice(pool) if r.random() < 0.8 else word(r, wide)
        return x + r.choice(["", "", "x", "-v9", " "]) if r.random() < 0.2 else x
    for _ in range(r.choice([1, 2, 3, 5])):
        for _ in range(r.choice([1, 3, 6, 12, 30])):
            sc["ops"].append(["ins", r.choice(ts), r.choice(ks), r.choice(pool), r.random() < 0.8])
        if r.random() < 0.05:
            t, k, w, m = r.choice(ts), r.choice(ks), r.choice(["w", "a-", "é"]), r.choice([66, 130, 300])
            sc["ops"] += [["ins", t, k, "%s%d" % (w, j), True] for j in range(m)]
            pool += ["%s%d" % (w, r.randrange(m)) for _ in range(4)]
        if r.random() < 0.35:
            sc["ops"].append(["red", r.choice(ts), r.choice(ks)])
        if r.random() < 0.9:
            sc["ops"].append(["gen"])
        for _ in range(r.choice([0, 2, 5, 12])):
            k = r.choice(["get", "get", "close", "close", "close", "conv", "conv", "len", "keys", "list", "dict", "table", "item"])
            if k == "conv":
                sc["ops"].append([k, r.choice(ts), [v() for _ in KEYS], r.random() < 0.5])
            else:
                sc["ops"].append([k, r.choice(ts), r.choice(ks), v()])
        if r.random() < 0.4:
            sc["ops"].append(["save", r.choice(["pickle", "pickle", "json", "json-sorted", "dict"])])
    sc["last"] = r.randrange(1 << 30)
    return sc


def genreader(r):
    sc = {"kind": "reader", "wide": r.random() < 0.4, "n": r.choice([1, 2, 3, 5, 8, 20]), "classes": r.random() < 0.85}
    pool = [word(r, sc["wide"]) for _ in range(r.choice([2, 4, 8]))]
    ks = r.sample(KEYS, r.choice([1, 2, 4]))
    cl = r.choice([["good", "bad"], ["good", "bad"], ["bad"], ["good", "goodish", "bad", "Good"]])
    sc["recs"] = [{"features": {k: r.choice(pool) for k in (ks if r.random() < 0.7 else ks[::-1])}, "class": r.choice(cl), "id": "%d" % i, "tot_wrap_cpu": r.randrange(400) / 4, "tot_requests": r.randrange(1, 9)} for i in range(sc["n"])]
    sc["ext"] = r.choice([".gz", ".gz", ".bz2", ""])
    sc["split"] = r.randrange(1 << 40) if r.random() < 0.4 else None
    sc["ops"] = []
    for _ in range(r.choice([1, 1, 2])):
        sc["ops"].append(["gen"])
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(["train", "train", "train", "fold", "fold", "scores", "len", "classes"])
            sc["ops"].append([k, r.choice([True, False]), r.choice([True, False]), r.randrange(1, sc["n"] + 1), r.randrange(1 << 20)])
    sc["order"] = r.randrange(1 << 30)
    sc["fault"] = [r.choice(["error", "error", "crash-before"]), r.randrange(1 << 30)] if r.random() < 0.4 else None
    return sc


def reach(st, k, n=1):
    st["reached"][k] = st["reached"].get(k, 0) + n


def index(vals):
    return {v: i for i, v in enumerate(sorted(vals, key=lambda v: (v.lower(), v)))}


def close(ix, v):
    best = max((k for k in ix if v.startswith(k)), key=len, default=None)
    if best is not None:
        return ix[best]
    return ix[U]


def reduced(vals):
    out = {U}
    for v in vals:
        if v != U:
            w = v.replace("-", " ").replace("_", " ").split()
            if w:
                out.add(w[0])
    return out


def converted(tab, data, norm):
    """tab: key -> value -> index"""
    out = []
    for k in sorted(tab):
        i = close(tab[k], data[k])
        out += [i / len(tab[k])] if norm else [float(j == i) for j in range(len(tab[k]))]
    return out


def given(args, default, seed):
    """The arguments without some of those that have their default values."""
    return {k: v for i, (k, v) in enumerate(args.items()) if v != default[k] or seed >> i & 1}


def forget():
    for m in [m for m in sys.modules if m == "DataManager" or m.startswith("DataManager.")]:
        del sys.modules[m]


def run(sc):
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 1, "steps": 0}
    fs = simfs.FS()
    simfs.cur[0] = fs
    fs.dirs.add(ROOT + "/d")
    try:
        forget()
        if sc["kind"] == "table":
            v = table(sc, st)
            return v, sc, st
        return reader(sc, st, fs)
    finally:
        st["steps"] += fs.cur.n
        fs.cur.dead = True
        for k, n in fs.fired.items():
            st["faults"][k] = st["faults"].get(k, 0) + n
        simfs.cur[0] = None
        forget()


def table(sc, st):
    from DataManager.collector.dataset.utils import SupportTable
    t = SupportTable()
    raw, ix = {}, {}

    def call(f):
        try:
            return f()
        except KeyError:
            return "KeyError"
    for n, op in enumerate(sc["ops"]):
        st["steps"] += 1
        st["ops"][op[0]] = st["ops"].get(op[0], 0) + 1
        where = "step %d %s: " % (n, op)
        want = got = None
        if op[0] == "ins":
            _, tn, k, v, u = op
            t.insert(tn, k, v) if u and n % 3 else t.insert(tn, k, v, with_unknown=u) if n % 2 else t.insert(tn, k, v, u)
            raw.setdefault(tn, {}).setdefault(k, set()).add(v)
            if u:
                raw[tn][k].add(U)
        elif op[0] == "red":
            if op[2] in raw.get(op[1], {}):
                t.reduce_categories(op[1], op[2], filter_=t.filters.simple_split)
                raw[op[1]][op[2]] = reduced(raw[op[1]][op[2]])
        elif op[0] == "gen":
            t.gen_indexes()
            for tn in raw:
                for k in raw[tn]:
                    ix.setdefault(tn, {})[k] = index(raw[tn][k])
            got, want = t.to_dict(), ix
            reach(st, "indexed")
        elif op[0] == "get":
            want = call(lambda: ix[op[1]][op[2]][op[3]])
            got = call(lambda: t.get_value(op[1], op[2], op[3]))
            reach(st, "looked-up", want != "KeyError")
        elif op[0] == "close":
            want = call(lambda: close(ix[op[1]][op[2]], op[3]))
            got = call(lambda: t.get_close_value(op[1], op[2], op[3]))
            reach(st, "close", want != "KeyError")
        elif op[0] == "conv":
            d = dict(zip(KEYS, op[2]))
            want = call(lambda: converted(ix[op[1]], d, op[3]))
            got = call(lambda: [float(x) for x in t.close_conversion(op[1], d, **given({"normalized": op[3], "one_hot": not op[3]}, {"normalized": True, "one_hot": False}, n))])
            if isinstance(want, list) and isinstance(got, list) and len(want) == len(got) and all(abs(a - b) < 1e-12 for a, b in zip(want, got)):
                got = want
            reach(st, "converted", want != "KeyError")
        elif op[0] == "len":
            want, got = call(lambda: len(ix[op[1]][op[2]])), call(lambda: t.get_len(op[1], op[2]))
        elif op[0] == "keys":
            want, got = call(lambda: sorted(ix[op[1]])), call(lambda: list(t.get_sorted_keys(op[1])))
        elif op[0] == "list":
            want, got = sorted(ix), sorted(t.list)
        elif op[0] == "item":
            want, got = sorted(ix), sorted(t[i] for i in range(len(ix)))
        elif op[0] == "dict":
            want, got = ix, t.to_dict()
        elif op[0] == "table":
            want = ix.get(op[1], "AttributeError")
            try:
                got = getattr(t, op[1])
            except AttributeError:
                got = "AttributeError"
        elif op[0] == "save":
            reach(st, "saved-and-loaded")
            if op[1] == "pickle":
                b = pickle.dumps(t)
            else:
                d = t.to_dict()
                b = repr(t) if op[1] == "json" else json.dumps(d, sort_keys=op[1] == "json-sorted")
            # the next process
            forget()
            from DataManager.collector.dataset.utils import SupportTable
            if op[1] == "pickle":
                t = pickle.loads(b)
            else:
                t = SupportTable(json.loads(b)) if n % 2 else SupportTable(support_table=json.loads(b))
                ix = {tn: {k: dict(m) for k, m in x.items()} for tn, x in ix.items()}
                raw = {tn: {k: set(m) for k, m in x.items()} for tn, x in ix.items()}
            got, want = t.to_dict(), ix
        if got != want or isinstance(want, int) and isinstance(got, bool):
            return where + "%s, not %s" % (short(got), short(want))
    # the same values in another order, in a new process
    r = random.Random(sc["last"])
    forget()
    from DataManager.collector.dataset.utils import SupportTable
    t2 = SupportTable()
    ins = [(tn, k, v) for tn in raw for k in raw[tn] for v in raw[tn][k]]
    ins.sort()
    r.shuffle(ins)
    for tn, k, v in ins:
        t2.insert(tn, k, v, with_unknown=False)
    t2.gen_indexes()
    want = {tn: {k: index(vs) for k, vs in x.items()} for tn, x in raw.items()}
    if t2.to_dict() != want:
        return "the same values inserted in another order: %s, not %s" % (short(t2.to_dict()), short(want))
    return None


def reader(sc, st, fs):
    recs = sc["recs"]
    name = ROOT + "/d/ds.json" + sc["ext"]
    text = "".join(json.dumps(x if sc["classes"] else {k: v for k, v in x.items() if k != "class"}) + "\n" for x in recs).encode()
    if sc["ext"] == ".gz":
        b = gzip.compress(text, mtime=0)
    elif sc["ext"] == ".bz2":
        import bz2
        b = bz2.compress(text)
    else:
        b = text
    order = list(range(len(recs)))
    random.Random(sc["order"]).shuffle(order)
    f = sc["fault"]
    repro = sc
    fs.files[name] = bytearray(b)
    if f and len(f) == 2:
        fs.start((), random.Random(sc["split"]) if sc["split"] is not None else None)
        v = session(sc, st, fs, name)
        ops = [o[0] for o in fs.cur.trace if o[1] in ("read", "open")]
        if v:
            return v, dict(sc, fault=None), st
        forget()
        f = [f[0], f[1], ops[f[1] % len(ops)]] if ops else None
        repro = dict(sc, fault=f)
    st["runs"] += 1
    fs.start([[f[2], f[0], 0]] if f else (), random.Random(sc["split"]) if sc["split"] is not None else None)
    try:
        v = session(sc, st, fs, name)
    except SimCrash:
        reach(st, "crashed")
        v = None
    except ModuleNotFoundError:
        raise
    except Exception as e:
        if not fs.cur.failed:
            raise
        reach(st, "failure-reported")
        v = None
    else:
        if fs.cur.failed:
            reach(st, "fault-absorbed")
    return v, repro, st


def session(sc, st, fs, name):
    from DataManager.collector.dataset.reader import CMSDatasetTest0Reader
    recs = sc["recs"]
    rd = CMSDatasetTest0Reader(name)
    vals, cls = {}, set()
    for x in recs:
        for k, v in x["features"].items():
            vals.setdefault(k, set()).add(v)
        cls.add(x["class"])
    tab = {k: index(reduced(v)) for k, v in vals.items()}
    ctab = index(cls)
    ready = False
    for n, op in enumerate(sc["ops"]):
        st["ops"][op[0]] = st["ops"].get(op[0], 0) + 1
        where = "step %d %s: " % (n, op)
        got = want = None
        if op[0] == "gen":
            if n and not ready:
                continue
            rd.gen_support_table()
            ready = True
            got = rd.support_table.to_dict()
            want = dict({"features": tab}, **({"classes": {"class": ctab}} if sc["classes"] else {}))
            reach(st, "indexed")
        elif op[0] == "len":
            got, want = len(rd), len(recs)
        elif op[0] == "classes":
            got, want = rd.get_num_classes(), len(ctab) if sc["classes"] else 1
        elif not sc["classes"]:
            continue
        elif op[0] == "scores":
            s = list(rd.scores) if op[1] else None
            a = rd.score_avg
            w = [x["tot_wrap_cpu"] / x["tot_requests"] for x in recs]
            if s is not None:
                got, want = s, w
            if abs(a - sum(w) / len(w)) > 1e-9:
                return where + "the mean score is %s, not %s" % (a, sum(w) / len(w))
            reach(st, "scores")
        else:
            feats = [converted(tab, x["features"], op[1]) for x in recs]
            labels = [ctab[x["class"]] for x in recs]
            if op[2]:
                labels = [[float(j == i) for j in range(len(ctab))] for i in labels]
            want = list(zip(feats, labels))
            k = op[3] if op[0] == "fold" else 0
            out = []
            g = rd.train_set(**given({"k_fold": k, "normalized": op[1], "one_hot": not op[1], "one_hot_labels": op[2]}, {"k_fold": 0, "normalized": False, "one_hot": True, "one_hot_labels": False}, op[4]))
            for x in g:
                out.append(x)
            if k == 0:
                if len(out) != 1 or out[0][2] is not None:
                    return where + "%d sets" % len(out)
                got = pairs(out[0][0], out[0][1])
                reach(st, "train-set")
            else:
                if len(out) != k:
                    return where + "%d folds, not %d" % (len(out), k)
                seen = []
                for i, (a, b, val) in enumerate(out):
                    tr, va = pairs(a, b), pairs(*val)
                    if not va:
                        return where + "fold %d has nothing to validate with" % i
                    if not same(sorted(tr + va), sorted(want)):
                        return where + "fold %d: train and validation parts are not together the %d records" % (i, len(want))
                    seen += va
                rest = sorted(want)
                for x in seen:
                    if x not in rest:
                        return where + "a record is in the validation part of two folds"
                    rest.remove(x)
                got = want
                reach(st, "folds")
        if got != want and not (isinstance(want, list) and same(got, want)):
            return where + "%s, not %s" % (short(got), short(want))
    return None


def flat(x):
    return [flat(y) for y in x] if isinstance(x, (list, tuple)) else float(x)


def pairs(a, b):
    if len(a) != len(b):
        return [("features and labels differ in number", len(a), len(b))]
    return list(zip(flat(a), flat(b)))


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return abs(a - b) < 1e-9
    except TypeError:
        return a == b


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:140] + "... (%d)" % len(s)


def smaller(sc):
    ops = sc["ops"]
    for k in (8, 4, 2, 1):
        for i in range(0, len(ops), k):
            yield dict(sc, ops=ops[:i] + ops[i + k:])
    if sc["kind"] == "reader":
        for i in range(len(sc["recs"])):
            if len(sc["recs"]) > 1 and all(len(o) < 4 or o[3] < len(sc["recs"]) for o in ops):
                yield dict(sc, recs=sc["recs"][:i] + sc["recs"][i + 1:])
        for k, v in (("fault", None), ("split", None), ("ext", "")):
            if sc[k] != v:
                yield dict(sc, **{k: v})


def brief(sc):
    return "%s, %d steps" % (sc["kind"], len(sc["ops"])) + ("" if sc["kind"] == "table" else ", %d records, fault %s" % (len(sc["recs"]), sc["fault"]))


NONTRIVIAL = {"looked-up", "close", "converted", "saved-and-loaded", "train-set", "folds", "scores", "crashed", "failure-reported", "fault-absorbed"}
REAL = ["DataManager.collector.dataset.utils.SupportTable", "DataManager.collector.dataset.reader.CMSDatasetTest0Reader", "DataManager.collector.datafile", "DataManager.collector.datafeatures"]
STUB = ["disk (simfs)", "numpy and pandas (a small stand-in)", "matplotlib, pyspark, tqdm, yaspin"]
