"""An independent reader of the protobuf wire format."""
import struct
def varint(b, i):
    v = s = 0
    while True:
        v |= (b[i] & 0x7F) << s
        s += 7
        i += 1
        if not b[i - 1] & 0x80:
            return v, i


def parse(b):
    out, i = {}, 0
    while i < len(b):
        t, i = varint(b, i)
        f, w = t >> 3, t & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 1:
            v, i = b[i:i + 8], i + 8
        elif w == 5:
            v, i = b[i:i + 4], i + 4
        elif w == 2:
            n, i = varint(b, i)
            v, i = b[i:i + n], i + n
            assert len(v) == n
        else:
            raise AssertionError(f"wire type {w}")
        out.setdefault(f, []).append(v)
    return out


def sint(v):
    return v - (1 << 64) if v >> 63 else v


def zig(v):
    return (v >> 1) ^ -(v & 1)


KINDS = {
    "str": lambda v: v.decode("utf8"), "bytes": bytes, "uint": lambda v: v, "int": sint, "bool": bool, "f64": lambda v: struct.unpack("<Q", v)[0],
    "f32": lambda v: struct.unpack("<I", v)[0], "sf64": lambda v: struct.unpack("<q", v)[0], "double": lambda v: fl(struct.unpack("<d", v)[0]), "sint": zig,
}
DEF = {"str": "", "bytes": b"", "uint": 0, "int": 0, "bool": False, "f64": 0, "f32": 0, "sf64": 0, "double": 0.0, "sint": 0}


def fl(x):
    return ("f", float(x).hex())


def msg(b, **fields):
    """fields: name=(number, kind[, 'opt'|'rep'|'packed']); unknown fields in the message are reported under '?'"""
    p = parse(b)
    out = {}
    for name, (num, kind, *mode) in fields.items():
        vals = p.pop(num, [])
        f = kind if callable(kind) else KINDS[kind]
        if mode and mode[0] == "rep":
            out[name] = [f(v) for v in vals]
        elif mode and mode[0] == "packed":
            raw = b"".join(vals)
            if kind == "uint":
                out[name], i = [], 0
                while i < len(raw):
                    v, i = varint(raw, i)
                    out[name].append(v)
            else:
                out[name] = [f(raw[i:i + 8]) for i in range(0, len(raw), 8)]
        elif vals:
            assert len(vals) == 1, (name, vals)
            out[name] = f(vals[0])
        elif callable(kind) or mode:
            out[name] = None
        else:
            out[name] = fl(0) if kind == "double" else DEF[kind]
    if p:
        out["?"] = sorted(p)
    return out
