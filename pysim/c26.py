"""C26: the WebHDFS and Elasticsearch clients, and reading and saving through
them, say what the server did."""
import contextlib
import datetime
import gzip
import io
import json
import random

import simfs
import simnet
from simfs import ROOT, SimCrash

NAMES = ["a", "b", "c", "d.json.gz", "part-m-00000.avro"]
ODD = ["b c", "é", "x%41", "x%20y", "q?z=1", "h#1", "p+q", "k&op=DELETE", "100%", "a;b", "x=y", "[z]"]


def path_(r, odd):
    n = r.choice([1, 1, 2, 2, 3])
    return "/" + "/".join(r.choice(ODD) if r.random() < odd else r.choice(NAMES) for _ in range(n))


def data_(r):
    k = r.randrange(10)
    if k == 0:
        return ""
    n = r.choice([1, 3, 10, 100, 255, 256, 257, 1000, 8191, 8192, 8193, 20000] if r.random() < 0.97 else [65536, 65537, 200000])
    return "%d:%d" % (n, r.randrange(1 << 20))


def bytes_(d):
    if not d:
        return b""
    n, s = d.split(":")
    return random.Random("data" + s).randbytes(int(n))


def rec(r, i):
    return {"i": i, "s": "é%d" % r.randrange(100), "f": r.randrange(100) / 4}


def doc(r):
    def v(d):
        k = r.randrange(8)
        if k == 0 and d:
            return {"k%d" % j: v(d - 1) for j in range(r.randrange(3))}
        if k == 1 and d:
            return [v(d - 1) for _ in range(r.randrange(3))]
        return r.choice([1, 0, -3, 2.5, True, None, "x", "é€\n\"\\", "line\nbreak", "\u2028", "", "a" * (300 if r.random() < 0.97 else 70000), "{\"index\":{}}"])
    return dict([("n", r.randrange(6))] + [("k%d" % j, v(2)) for j in range(r.randrange(3))])


def gen(r):
    sc = {"kind": r.choice(["fs", "fs", "fs", "fs", "es", "es", "window", "window", "save", "dates"]), "seed": r.randrange(1 << 40)}
    sc["mode"] = "webhdfs" if r.random() < 0.15 else "httpfs"
    sc["redirects"] = r.random() < 0.25
    sc["framing"] = r.choice(["length", "chunked"])
    sc["zip"] = r.random() < 0.15
    sc["cred"] = r.choice([None, None, ["u", "pw"], ["me", "a:b:c"], ["x", "p@/?#"]])
    sc["user"] = r.choice(["root", "root", "cms", "né&op=DELETE"])
    sc["badcert"] = r.random() < 0.05
    sc["verify"] = r.random() < 0.2
    sc["split"] = r.randrange(1 << 40) if r.random() < 0.3 else None
    odd = r.choice([0, 0, 0.3])
    k = sc["kind"]
    if k == "fs":
        sc["ops"] = []
        known = [path_(r, odd) for _ in range(3)]
        for _ in range(r.choice([1, 2, 4, 8, 12])):
            p = r.choice(known) if r.random() < 0.6 else path_(r, odd)
            if r.random() < 0.2 and "/" in p[1:]:
                p = p.rsplit("/", 1)[0]
            known.append(p)
            op = r.choice(["create", "create", "create", "open", "open", "list", "mkdirs", "delete"])
            if op == "create":
                sc["ops"].append([op, p, r.choice(["file", "file", "stream"]), data_(r), r.random() < 0.5])
            elif op == "open":
                sc["ops"].append([op, p, r.choice([1, 7, 100, 256, 256, 4096, 100000])])
            elif op == "delete":
                sc["ops"].append([op, p, r.choice([None, True, False])])
            else:
                sc["ops"].append([op, p])
    elif k == "es":
        sc["url"] = r.choice(["http://es:9200/idx/_doc", "https://es:9200/idx/t/"])
        docs = [doc(r) for _ in range(r.choice([1, 2, 5, 9]))]
        sc["ops"] = []
        for _ in range(r.choice([1, 2, 3, 6])):
            if r.random() < 0.5:
                sc["ops"].append(r.choice(docs))
            else:
                sc["ops"].append([r.choice(docs) for _ in range(r.choice([0, 1, 2, 5, 20]))])
    elif k == "window":
        sc["src"] = r.choice(["httpfs", "httpfs", "httpfs", "hdfs", "local"])
        sc["start"] = r.choice([[2018, 1, 1], [2018, 2, 27], [2020, 2, 27], [2019, 12, 30], [2018, 7, 9], [2018, 9, 29]])
        sc["size"] = r.choice([0, 1, 2, 3, 5, 8] * 5 + [33])
        sc["days"] = []
        i = 0
        for _ in range(sc["size"]):
            files = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if sc["src"] == "httpfs" else r.choice([1, 1, 1, 1, 1, 1, 0])):
                n = r.choice([1, 1, 2, 5, 40]) if sc["size"] < 9 else 1
                files.append([r.choice(["avro", "avro", "avro", "json"]) if sc["src"] == "httpfs" else "avro", [rec(r, i + j) for j in range(n)]])
                i += n
            sc["days"].append(files)
        sc["missing"] = r.randrange(sc["size"]) if sc["size"] and r.random() < 0.1 else None
        sc["base"] = r.choice(["/p/", "/project/awg/x/"])
    elif k == "save":
        sc["recs"] = [rec(r, i) for i in range(r.choice([0, 1, 2, 5, 300]))]
        sc["times"] = r.choice([1, 1, 2])
        if r.random() < 0.25:
            sc["src"] = "local"
            sc["mode"] = "httpfs"
        if sc["recs"] and r.random() < 0.1:
            # more than a buffer of compressed data
            r.choice(sc["recs"])["s"] = r.randbytes(r.choice([70000, 150000])).hex()
    else:
        sc["cases"] = [[r.choice([2018, 2019, 2020]), r.choice([1, 2, 3, 12]), r.choice([1, 15, 27, 28]), r.choice([0, 1, 2, 3, 7, 30, 31, 365]), r.choice([1, 1, 2, 3, 7, 30]), r.random() < 0.4]
                       for _ in range(12)]
    sc["faults"] = None
    x = r.randrange(100)
    if x < 45 and k != "dates":
        sc["faults"] = [[r.choice(["refused", "reset-before", "reset-after", "status", "html", "empty", "fake", "twice", "late-error", "cut", "cut", "cut-reset", "reject-items"]),
                         r.randrange(1 << 30), r.randrange(1 << 30)] for _ in range(r.choice([1, 1, 2, 4]))]
    sc["others"] = []
    if k == "fs" and r.random() < 0.25:
        for _ in range(r.choice([1, 2])):
            p = r.choice([o[1] for o in sc["ops"]])
            sc["others"].append([r.randrange(1, 3 + 2 * len(sc["ops"])), r.choice([["delete", p, True], ["create", p, "others %d" % r.randrange(99), True], ["mkdirs", p], ["create", p + "/z", "others", True]])])
    sc["disk"] = None
    if k in ("fs", "save") and x >= 85 or k == "window" and sc["src"] == "local" and x >= 70:
        sc["disk"] = [r.randrange(1 << 30), r.choice(["error", "error", "enospc", "shortwrite"]), r.randrange(1 << 30)]
    return sc


def reach(st, k, n=1):
    st["reached"][k] = st["reached"].get(k, 0) + n


def run(sc):
    st = {"reached": {}, "faults": {}, "ops": {}, "runs": 0, "steps": 0}
    repro = sc
    if sc["faults"] and len(sc["faults"][0]) == 3 or sc["disk"] and len(sc["disk"]) == 3 and "at" not in sc:
        clean = dict(sc, faults=None, disk=None)
        v, reqs, ops = once(clean, st)
        if v:
            return v, clean, st
        repro = dict(clean)
        if sc["faults"] and reqs:
            fs = []
            for kind, a, b in sc["faults"]:
                cand = reqs
                if kind in ("fake", "twice", "late-error", "reset-before"):
                    cand = [q for q in reqs if not q[1].startswith("GET")] or reqs
                if kind == "fake" and a % 4:
                    cand = [q for q in cand if "data" in q[1]] or cand
                if kind in ("cut", "cut-reset"):
                    cand = [q for q in reqs if q[1].startswith("GET")] or reqs
                n = cand[a % len(cand)][0]
                fs.append([kind, n, b, 0])
                if b % 5 == 0:  # and it stays so
                    fs += [[kind, m, b, 0] for m in range(n + 1, n + 8)]
            repro["faults"] = fs
        if sc["disk"] and ops:
            a, kind, arg = sc["disk"]
            n, name, _, size = ops[a % len(ops)]
            kind = kind if name == "write" else "error"
            repro["disk"] = [n, kind, arg % size if size else 0, 0]
    v, _, _ = once(repro, st)
    return v, repro, st


def once(sc, st):
    fs = simfs.FS()
    fs.dirs.add(ROOT + "/d")
    simfs.cur[0] = fs
    net = simnet.Net(sc["seed"], sc["mode"], sc["framing"], sc["zip"], sc["cred"] if sc["kind"] == "fs" or sc["kind"] in ("window", "save") else None, sc["cred"], sc["badcert"])
    simnet.cur[0] = net
    st["runs"] += 1
    ops = []
    try:
        prepare(sc, fs, net)
        faults = [sc["disk"][:3]] if sc["disk"] and len(sc["disk"]) == 4 else []
        p = fs.start(faults, random.Random("split%d" % sc["split"]) if sc["split"] is not None else None)
        for kind, n, arg, _ in sc["faults"] if sc["faults"] and len(sc["faults"][0]) == 4 else []:
            net.faults[n] = (kind, arg)
        net.others = {n: a for n, a in sc["others"]}
        v = {"fs": fs_, "es": es_, "window": window, "save": save, "dates": dates}[sc["kind"]](sc, fs, net, st)
        ops = list(p.trace)
        st["steps"] += net.n + p.n
    finally:
        if fs.cur:
            fs.cur.dead = True
        for d in (fs.fired, net.fired):
            for k, n in d.items():
                st["faults"][k] = st["faults"].get(k, 0) + n
        simfs.cur[0] = None
        simnet.cur[0] = None
    return v, list(net.trace), ops


def prepare(sc, fs, net):
    if sc["kind"] == "fs":
        fs.start()
        for i, o in enumerate(sc["ops"]):
            if o[0] == "create" and o[2] == "file":
                with open(ROOT + "/d/in%d" % i, "wb") as f:
                    f.write(bytes_(o[3]))
    if sc["kind"] == "window":
        import pyspark
        fs.start()
        pyspark.state.update(files={}, rng=random.Random(1), fail=(), calls=0, count=fs.count)
        pyspark.SparkContext.one = None
        day = datetime.date(*sc["start"])
        for n, files in enumerate(sc["days"]):
            name = "year=%d/month=%d/day=%d" % (day.year, day.month, day.day)
            day += datetime.timedelta(days=1)
            if n == sc["missing"]:
                continue
            if sc["src"] == "httpfs":
                net.tree.mkdirs(sc["base"] + name)
            for k, (kind, recs) in enumerate(files):
                b = encode(kind, recs)
                part = name + "/part-m-%05d.%s" % (k, kind)
                if sc["src"] == "httpfs":
                    net.tree.create(sc["base"] + part, b, True)
                elif sc["src"] == "local":
                    import os
                    os.makedirs(ROOT + "/d/" + name, exist_ok=True)
                    with open(ROOT + "/d/" + part, "wb") as f:
                        f.write(b)
                else:
                    pyspark.state["files"]["hdfs:/%s%s" % (sc["base"], part)] = b


def encode(kind, recs):
    if kind == "json":
        return b"".join(json.dumps(x).encode() + b"\n" for x in recs)
    from fastavro import parse_schema, writer
    f = io.BytesIO()
    writer(f, parse_schema({"type": "record", "name": "r", "fields": [{"name": "i", "type": "long"}, {"name": "s", "type": "string"}, {"name": "f", "type": "double"}]}), recs)
    return f.getvalue()


def client(sc):
    from DataManager.agent.api import HTTPFS
    u, p = sc["cred"] or (None, None)
    kw = {"verify": sc["verify"], "allow_redirects": sc["redirects"], "hadoop_user": sc["user"]}
    for k, v in (("verify", False), ("allow_redirects", False), ("hadoop_user", "root")):
        if kw[k] == v and sc["seed"] % 3:  # the default
            del kw[k]
    return HTTPFS("https://h:14000", u, p, **kw)


def brokencert(sc):
    return sc["badcert"] and sc["verify"]


def call(fn):
    """('ok', value) or ('error', text)."""
    try:
        return "ok", fn()
    except (Exception, SimCrash) as e:
        return "error", "%s: %s" % (type(e).__name__, str(e)[:150])


# -------------------------------------------------------------- HDFS

MUTATE = {"create": "CREATE", "mkdirs": "MKDIRS", "delete": "DELETE", "open": None, "list": None}


def intended(sc, t, i, o):
    """What the operation does to the tree, on a server that works."""
    try:
        if brokencert(sc):
            return "error", "certificate"
        if o[0] == "create":
            if sc["mode"] == "webhdfs" and not sc["redirects"]:
                return "error", "redirected"
            t.create(o[1], bytes_(o[3]), o[4])
            return "ok", True
        if o[0] == "open":
            if sc["mode"] == "webhdfs" and not sc["redirects"]:
                return "error", "redirected"
            return "ok", t.open(o[1])
        if o[0] == "list":
            return "ok", listing(o[1], t.list(o[1]))
        if o[0] == "mkdirs":
            return "ok", t.mkdirs(o[1])
        return "ok", t.delete(o[1], True if o[2] is None else o[2])
    except simnet.Remote as e:
        return "error", str(e)


def listing(p, ls):
    return [[a, b, p.rstrip("/") + "/" + b] for a, b in ls]


def fs_(sc, fs, net, st):
    c = client(sc)
    with c as h:
        for i, o in enumerate(sc["ops"]):
            before = net.tree.copy()
            model = net.tree.copy()
            log0, hap0 = len(net.log), net.happened
            if o[0] == "create":
                if o[2] == "file":
                    fn = lambda: h.create(o[1], ROOT + "/d/in%d" % i, **({"overwrite": o[4]} if o[4] or i % 2 else {}))
                else:
                    fn = lambda: h.create(o[1], io.BytesIO(bytes_(o[3])), **({"overwrite": o[4]} if o[4] or i % 2 else {}))
            elif o[0] == "open":
                fn = lambda: (h.open(o[1], chunk_size=o[2]) if o[2] != 256 or i % 2 else h.open(o[1])).read()
            elif o[0] == "list":
                fn = lambda: [[x for x in e] for e in h.liststatus(o[1])]
            elif o[0] == "mkdirs":
                fn = lambda: h.mkdirs(o[1])
            else:
                fn = lambda: h.delete(o[1]) if o[2] is None else h.delete(o[1], recursive=o[2])
            got = call(fn)
            st["ops"][o[0]] = st["ops"].get(o[0], 0) + 1
            v = judge(sc, fs, net, st, i, o, got, before, model, net.log[log0:], net.happened != hap0)
            if v:
                return "operation %d, %s %s: %s" % (i, o[0], o[1], v)
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:100] + "... (%d)" % len(s)


def judge(sc, fs, net, st, i, o, got, before, model, log, disturbed):
    p = simnet.Tree.norm(o[1])
    own = []
    for op, path, user, eff in log:
        if user != sc["user"]:
            return "done in the name of %r, not of %r" % (user, sc["user"])
        if op in ("CREATE", "MKDIRS", "DELETE"):
            if op != MUTATE[o[0]]:
                return "it changed the server by %s %s" % (op, path)
            if path != p:
                return "it changed %s on the server" % path
            if op == "DELETE" and eff[1] != (True if o[2] is None else o[2]):
                return "deleted with recursive=%r" % eff[1]
            if op == "CREATE":
                if not o[4] and eff[1] is not None and eff[1] not in own:
                    return "it was not to overwrite, but did away with %s" % short(eff[1])
                own.append(eff[0])
    if log and brokencert(sc):
        return "sent to a server whose certificate does not verify"
    want = intended(sc, model, i, o)
    disk = fs.cur.failed
    if not disturbed and not disk:
        if got[0] != want[0]:
            return "%s; expected %s" % (short(got), short(want))
        if got[0] == "ok" and got[1] != want[1]:
            return "gave %s, the server has %s" % (short(got[1]), short(want[1]))
        if net.tree.nodes != model.nodes and got[0] == "ok":
            return "the server's files are not what they should be: %s" % diff(net.tree.nodes, model.nodes)
        if got[0] == "error" and net.tree.nodes != before.nodes:
            return "refused, but the server's files changed: %s" % diff(net.tree.nodes, before.nodes)
        reach(st, "as-expected" if got[0] == "ok" else "refused")
        return None
    if got[0] == "error":
        reach(st, "fault-reported")
        return None
    reach(st, "fault-absorbed")
    if o[0] == "create":
        if net.tree.nodes.get(p) != bytes_(o[3]):
            return "reported as written, but the server has %s for %s" % (short(net.tree.nodes.get(p, "nothing")), short(bytes_(o[3])))
        if got[1] is not True:
            return "gave %r" % (got[1],)
        return None
    key = {"open": "OPEN", "list": "LISTSTATUS", "mkdirs": "MKDIRS", "delete": "DELETE"}[o[0]]
    seen = [listing(o[1], e) if o[0] == "list" else e[0] if o[0] == "delete" else e for op, path, user, e in log if op == key and path == p]
    if got[1] not in seen:
        return "gave %s, the server answered %s" % (short(got[1]), short(seen))
    return None


def diff(a, b):
    return ", ".join("%s: %s for %s" % (k, short(a.get(k, "nothing")), short(b.get(k, "nothing"))) for k in sorted(set(a) | set(b)) if a.get(k, 0) != b.get(k, 0))[:300]


# -------------------------------------------------------------- Elasticsearch

def canon(x):
    return json.dumps(x, sort_keys=True)


def es_(sc, fs, net, st):
    from DataManager.agent.api import ElasticSearchHttp
    c = ElasticSearchHttp(sc["url"], ":".join(sc["cred"]) if sc["cred"] else "")
    base = "/" + sc["url"].split("/", 3)[3].rstrip("/")
    sent = {}
    with c as h:
        for i, o in enumerate(sc["ops"]):
            hap0 = net.happened
            before = {k: canon(v) for k, v in net.docs.items()}
            got = call(lambda: h.put(json.loads(json.dumps(o))))
            st["ops"]["put"] = st["ops"].get("put", 0) + 1
            docs = o if isinstance(o, list) else [o]
            for d in docs:
                sent[canon(d)] = 1
            disturbed = net.happened != hap0
            v = None
            now = {}
            for k, d in net.docs.items():
                if canon(d) not in sent:
                    v = "the server got a document that was never put: %s" % short(d)
                if k[0] != base:
                    v = "stored under %s" % k[0]
                if canon(d) in now:
                    v = "a document is stored twice: %s" % short(d)
                now[canon(d)] = k
                if before.get(k, canon(d)) != canon(d):
                    v = "another document took the place of %s" % short(before[k])
            if v:
                return "put %d: %s" % (i, v)
            if got[0] == "error":
                if disturbed:
                    reach(st, "fault-reported")
                    continue
                return "put %d: %s" % (i, got[1])
            res = got[1]
            ok = res.status_code < 300
            if ok:
                try:
                    b = res.json()
                    ok = b.get("errors") is False if isinstance(o, list) else "_id" in b
                except ValueError:
                    ok = False
            if not docs:
                continue
            if ok:
                lost = [d for d in docs if canon(d) not in now]
                if lost:
                    return "put %d: the answer says done, but %d of %d documents are missing: %s" % (i, len(lost), len(docs), short(lost[0]))
                reach(st, "as-expected")
                if disturbed:
                    reach(st, "fault-absorbed")
            elif not disturbed:
                return "put %d: refused: %s %s" % (i, res.status_code, res.text[:150])
            else:
                reach(st, "fault-reported")
    return None


# -------------------------------------------------------------- a window of days

def manager(sc, days):
    from DataManager.collector.dataset.resource import CMSResourceManager
    u, p = sc["cred"] or (None, None)
    conf = {"url": "http://h:14000"}
    if sc["cred"]:
        conf.update(user=u, password=p)
    src = sc.get("src", "httpfs")
    if src == "httpfs":
        if "base" in sc:
            conf["base_path"] = sc["base"]
        r = {"httpfs": conf}
    elif src == "hdfs":
        r = {"hdfs": {"hdfs_base_path": "hdfs:/" + sc["base"].rstrip("/")}}
    else:
        r = {"local": {"folder": ROOT + "/d"}}
    return CMSResourceManager("%d %d %d" % tuple(sc.get("start", [2018, 3, 4])), days, resource=r)


def window(sc, fs, net, st):
    want = []
    failing = False
    for n, files in enumerate(sc["days"]):
        if n == sc["missing"] or sc["src"] != "httpfs" and not files:
            failing = True
            break
        want += [x for f in files for x in f[1]]
    failing = failing or sc["mode"] == "webhdfs" and any(sc["days"]) and sc["src"] == "httpfs"
    got = []

    def read():
        for c in manager(sc, sc["size"]).get():
            for x in c:
                got.append(x)
    r = call(read)
    st["ops"]["window"] = st["ops"].get("window", 0) + 1
    if r[0] == "ok":
        if failing:
            return "days are missing, but the reading of the window ended normally with %d records" % len(got)
        if [canon(x) for x in got] != [canon(x) for x in want]:
            return "read %d records of %d, or in another order: %s for %s" % (len(got), len(want), short([x.get("i") for x in got]), short([x["i"] for x in want]))
        reach(st, "as-expected")
        if net.happened or fs.cur.failed:
            reach(st, "fault-absorbed")
        return None
    if [canon(x) for x in got] != [canon(x) for x in want[:len(got)]]:
        return "before the error %s came other records: %s for %s" % (r[1], short([x.get("i") for x in got]), short([x["i"] for x in want]))
    if failing:
        reach(st, "refused")
        return None
    if net.happened or fs.cur.failed:
        reach(st, "fault-reported")
        return None
    return "reading failed without a fault: %s" % r[1]


def save(sc, fs, net, st):
    m = manager(sc, 3)
    p = "/cache/dataset_y2018-m3-d4_ws3_stage-S.json.gz"
    for n in range(sc["times"]):
        recs = sc["recs"][n:]
        hap0 = net.happened
        net.log[:] = []
        r = call(lambda: m.set([dict(x) for x in recs], stage_name="S"))
        st["ops"]["set"] = st["ops"].get("set", 0) + 1
        for op, path, user, eff in net.log:
            if op in ("CREATE", "MKDIRS", "DELETE") and (op, path) not in (("CREATE", p), ("MKDIRS", "/cache")):
                return "saving did %s %s" % (op, path)
        if sc.get("src") == "local" and net.log:
            return "saving to a local folder did %s" % (net.log[0],)
        if r[0] == "ok":
            b = net.tree.nodes.get(p)
            if sc.get("src") == "local":
                b = bytes(fs.files.get(ROOT + "/d" + p, b""))
            try:
                got = [json.loads(x) for x in gzip.decompress(b).decode().split("\n")[:-1]]
            except Exception as e:
                return "saved without an error, but the target has %s (%s)" % (short(b), e)
            if got != recs:
                return "saved %d records, the target has %d" % (len(recs), len(got))
            reach(st, "as-expected")
            if net.happened != hap0 or fs.cur.failed:
                reach(st, "fault-absorbed")
            if sc["mode"] == "webhdfs":
                return "saved on a server that only redirects"
        elif net.happened == hap0 and not fs.cur.failed and sc["mode"] == "httpfs":
            return "saving failed without a fault: %s" % r[1]
        else:
            reach(st, "fault-reported")
    return None


def dates(sc, fs, net, st):
    from DataManager.collector.dataset.utils import gen_window_dates
    for y, m, d, size, step, nxt in sc["cases"]:
        start = datetime.date(y, m, d)
        if nxt:
            start += datetime.timedelta(days=size)
        want = []
        for i in range(0, size, step):
            x = start + datetime.timedelta(days=i)
            want.append((x.year, x.month, x.day))
        got = []
        for x in gen_window_dates(y, m, d, size) if (step, nxt) == (1, False) else gen_window_dates(y, m, d, size, step, nxt):
            got.append(tuple(x))
            if len(got) > len(want) + 1:
                break
        if got != want:
            return "the days of a window of %d from %s by %d: %s... for %d days" % (size, start, step, got[-2:], len(want))
        reach(st, "as-expected")
    return None


def smaller(sc):
    for k in ("ops", "others", "recs", "cases"):
        xs = sc.get(k) or []
        if k in ("ops", "recs") and len(xs) > 3:
            yield dict(sc, **{k: xs[:len(xs) // 2]})
        for i in range(len(xs)):
            yield dict(sc, **{k: xs[:i] + xs[i + 1:]})
    if sc["faults"]:
        for i in range(len(sc["faults"])):
            yield dict(sc, faults=sc["faults"][:i] + sc["faults"][i + 1:] or None)
    if sc["kind"] == "window" and sc["size"]:
        yield dict(sc, size=sc["size"] - 1, days=sc["days"][:-1], missing=sc["missing"] if sc["missing"] != sc["size"] - 1 else None)
        for i, fs in enumerate(sc["days"]):
            for j, f in enumerate(fs):
                yield dict(sc, days=sc["days"][:i] + [fs[:j] + fs[j + 1:]] + sc["days"][i + 1:])
                if len(f[1]) > 1:
                    yield dict(sc, days=sc["days"][:i] + [fs[:j] + [[f[0], f[1][:1]]] + fs[j + 1:]] + sc["days"][i + 1:])
    for k, v in (("split", None), ("zip", False), ("cred", None), ("framing", "length"), ("redirects", False), ("user", "root"), ("badcert", False), ("verify", False), ("mode", "httpfs"), ("disk", None)):
        if sc[k] != v:
            yield dict(sc, **{k: v})


def brief(sc):
    return "%s, %s, %s, %d steps, faults %s" % (sc["kind"], sc.get("src", sc["mode"]), sc["framing"], len(sc.get("ops") or sc.get("days") or sc.get("recs") or sc.get("cases") or ()), [f[0] for f in sc["faults"] or ()])


NONTRIVIAL = {"as-expected", "fault-reported", "fault-absorbed", "refused"}
REAL = ["DataManager.agent.api", "DataManager.collector.dataset.resource", "DataManager.collector.dataset.utils", "DataManager.collector.datafile", "DataManager.collector.api"]
STUB = ["requests over a simulated network with WebHDFS/HttpFS and Elasticsearch servers (simnet)", "disk (simfs)", "fastavro, pyspark, tqdm, yaspin, urllib3"]
