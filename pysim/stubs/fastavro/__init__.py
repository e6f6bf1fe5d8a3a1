"""A container file like Avro's: a header with the schema, then blocks of
records, each holding the fields of the schema. What the real library does
on errors: a record that lacks a field is refused, an unknown field is left
out, appending needs a readable file, a cut-off file is an error."""
import json
import struct

BLOCK = 1600  # bytes after which a block is closed
MAGIC = b"Obj\x01\x04\x16avro.schema"


class SchemaParseException(Exception):
    pass


class UnknownType(ValueError):
    pass


PRIMITIVES = ("null", "boolean", "int", "long", "float", "double", "bytes", "string")
CODECS = ("null", "deflate", "snappy", "bzip2", "xz", "zstandard", "lz4")


def parse_schema(schema, **k):
    if not isinstance(schema, dict) or "type" not in schema:
        raise SchemaParseException("bad schema")
    _parse(schema, set())
    return schema


def _parse(t, names):
    """What the real library refuses: unknown types, types without a name,
    items, values or fields, and two types of one name."""
    if isinstance(t, str) and (t in PRIMITIVES or t in names):
        return
    if isinstance(t, list):
        for x in t:
            _parse(x, names)
        return
    kind = t.get("type") if isinstance(t, dict) else None
    if kind in ("array", "map"):
        what = "items" if kind == "array" else "values"
        if what not in t:
            raise SchemaParseException("no %s in %r" % (what, t))
        return _parse(t[what], names)
    if kind == "record":
        if "name" not in t or "fields" not in t:
            raise SchemaParseException("no name or no fields in %r" % (t,))
        name = ".".join(t[x] for x in ("namespace", "name") if t.get(x))
        if name in names:
            raise SchemaParseException("redefined named type: %s" % name)
        names.add(name)
        names.add(t["name"])
        for f in t["fields"]:
            if "name" not in f or "type" not in f:
                raise SchemaParseException("no name or no type in %r" % (f,))
            _parse(f["type"], names)
        if len(set(f["name"] for f in t["fields"])) < len(t["fields"]):
            raise SchemaParseException("a field twice in %r" % (t,))
        return
    if isinstance(kind, str) and (kind in PRIMITIVES or kind in names):
        return
    raise UnknownType(str(t))


def _fit(schema, v):
    t = schema.get("type") if isinstance(schema, dict) else schema
    if isinstance(t, dict):
        return _fit(t, v)
    if isinstance(schema, list):
        for x in schema:
            try:
                return _fit(x, v)
            except (ValueError, TypeError):
                pass
        raise ValueError("%r is none of %r" % (v, schema))
    if t == "record":
        if not isinstance(v, dict):
            raise ValueError("no record: %r" % (v,))
        out = {}
        for f in schema["fields"]:
            if f["name"] not in v:
                raise ValueError("no value and no default for %s" % f["name"])
            out[f["name"]] = _fit(f["type"], v[f["name"]])
        return out
    if t == "map":
        return {str(k): _fit(schema["values"], x) for k, x in v.items()}
    if t == "array":
        if not isinstance(v, (list, tuple)):
            raise TypeError("%r is no array" % (v,))
        return [_fit(schema["items"], x) for x in v]
    ok = {"string": str, "int": int, "long": int, "float": (int, float), "double": (int, float), "boolean": bool, "null": type(None), "bytes": bytes}
    if t not in ok:
        raise UnknownType(str(t))
    if not isinstance(v, ok[t]) or t in ("int", "long") and isinstance(v, bool):
        raise TypeError("%r is no %s" % (v, t))
    if t == "float":
        return struct.unpack("f", struct.pack("f", v))[0]
    return float(v) if t == "double" else v


def _block(b):
    return b"%08x" % len(b) + b


def writer(fo, schema, records, codec="null", **k):
    if codec not in CODECS:
        raise ValueError("unrecognized codec: %r" % (codec,))
    parse_schema(schema)
    if fo.seekable() and fo.tell() != 0:
        if not fo.readable():
            raise ValueError("When appending to an avro file you must use the 'a+' mode, not just 'a'")
        fo.seek(0)
        schema = _header(fo)
        fo.seek(0, 2)
    else:
        fo.write(MAGIC + _block(json.dumps(schema).encode()))
    out = []
    size = 0
    for r in records:
        out.append(json.dumps(_fit(schema, r), default=_hex))
        size += len(out[-1])
        if size >= BLOCK:
            fo.write(_block(("[%s]" % ",".join(out)).encode()))
            out, size = [], 0
    if out:
        fo.write(_block(("[%s]" % ",".join(out)).encode()))
    fo.flush()


def _hex(b):
    if not isinstance(b, bytes):
        raise TypeError(type(b))
    return {"\0": b.hex()}


def _unhex(d):
    return bytes.fromhex(d["\0"]) if "\0" in d else d


def _read(fo, n):
    b = b""
    while len(b) < n:
        c = fo.read(n - len(b))
        if not c:
            raise EOFError("cut off")
        b += c
    return b


def _header(fo):
    try:
        if _read(fo, len(MAGIC)) != MAGIC:
            raise ValueError("cannot read header - is it an avro file?")
    except EOFError:
        raise ValueError("cannot read header - is it an avro file?")
    return json.loads(_read(fo, int(_read(fo, 8), 16)))


class reader(object):
    def __init__(self, fo, *a, **k):
        self.writer_schema = self.schema = _header(fo)
        self.it = self._records(fo)

    def _records(self, fo):
        while True:
            h = fo.read(8)
            if not h:
                return
            for r in json.loads(_read(fo, int(h + _read(fo, 8 - len(h)), 16)), object_hook=_unhex):
                yield r

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    next = __next__
