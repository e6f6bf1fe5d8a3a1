"""A local stand-in: partitions are computed in a drawn order on copies of the
data; a failed task is tried again (four times in all) and what the failed
attempts returned is dropped."""
import pickle
import random

state = {"rng": random.Random(0), "parallel": 2, "fail": (), "calls": 0, "files": {}, "count": lambda k: None}


class SparkConf(object):
    def __init__(self, *a, **k):
        self.d = {}

    def set(self, k, v):
        self.d[k] = v
        return self

    def setMaster(self, v):
        return self.set("spark.master", v)

    def setAppName(self, v):
        return self.set("spark.app.name", v)

    def get(self, k, d=None):
        return self.d.get(k, d)


def _c(x):
    return pickle.loads(pickle.dumps(x))


class RDD(object):
    def __init__(self, data, fns=()):
        self.data, self.fns = data, fns

    def map(self, fn):
        return RDD(self.data, self.fns + ((fn, False),))

    def flatMap(self, fn):
        return RDD(self.data, self.fns + ((fn, True),))

    def _one(self, x):
        xs = [_c(x)]
        for fn, flat in self.fns:
            xs = [fn(y) for y in xs]
            if flat:
                xs = [z for y in xs for z in y]
        return _c(xs)

    def collect(self):
        out = [None] * len(self.data)
        order = list(range(len(self.data)))
        state["rng"].shuffle(order)
        for i in order:
            for attempt in range(4):
                state["calls"] += 1
                try:
                    if state["calls"] in state["fail"]:
                        state["count"]("spark-task-lost")
                        self._one(self.data[i])  # its result is lost
                        raise RuntimeError("executor lost")
                    out[i] = self._one(self.data[i])
                    break
                except BaseException as e:
                    if type(e).__name__ in ("Killed", "Endless", "Deadlock", "KeyboardInterrupt"):
                        raise
                    err = e
            else:
                raise RuntimeError("Job aborted due to stage failure: %s" % err)
        return [y for xs in out for y in xs]


class SparkContext(object):
    one = None

    def __init__(self, conf=None, **k):
        self.conf = conf

    @classmethod
    def getOrCreate(cls, conf=None):
        if cls.one is None:
            cls.one = cls(conf)
        return cls.one

    @property
    def defaultParallelism(self):
        return state["parallel"]

    def parallelize(self, xs, n=None):
        return RDD(list(xs))

    def binaryFiles(self, p, *a):
        if p not in state["files"]:
            raise RuntimeError("Input path does not exist: %s" % p)
        return RDD([(p, state["files"][p])])

    def stop(self):
        SparkContext.one = None
