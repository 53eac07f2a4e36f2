import struct

UINT32, BOOL, STRING, FLOAT, ENUM, MESSAGE = 13, 8, 9, 2, 14, 11


class DecodeError(Exception):
    pass


def varint(b, i):
    v = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise DecodeError("varint")
        v |= (b[i] & 127) << s
        s += 7
        i += 1
        if b[i - 1] < 128:
            return v & ((1 << 64) - 1), i


def fields(b):
    """Yields (number, wire type, value)."""
    i = 0
    while i < len(b):
        key, i = varint(b, i)
        n, w = key >> 3, key & 7
        if w == 0:
            v, i = varint(b, i)
        elif w in (1, 5):
            size = 8 if w == 1 else 4
            if i + size > len(b):
                raise DecodeError("truncated")
            v, i = bytes(b[i:i + size]), i + size
        elif w == 2:
            size, i = varint(b, i)
            if i + size > len(b):
                raise DecodeError("truncated")
            v, i = bytes(b[i:i + size]), i + size
        else:
            raise DecodeError("wire type")
        if n == 0:
            raise DecodeError("field number")
        yield n, w, v


def put(v):
    out = bytearray()
    while v >= 128:
        out.append(v & 127 | 128)
        v >>= 7
    out.append(v)
    return bytes(out)


class Field:
    def __init__(self, raw):
        self.name, self.number, self.type, self.label = "", 0, 0, 1
        for n, _, v in fields(raw):
            if n == 1:
                self.name = v.decode()
            elif n == 3:
                self.number = v
            elif n == 4:
                self.label = v
            elif n == 5:
                self.type = v

    def default(self):
        return {BOOL: False, STRING: "", FLOAT: 0.0}.get(self.type, 0)

    def check(self, v):
        if self.type in (UINT32, ENUM):
            if not hasattr(v, "__index__"):
                raise TypeError("%r has type %s, but expected one of: (int)" % (v, type(v)))
            v = v.__index__()
            lo, hi = (0, (1 << 32) - 1) if self.type == UINT32 else (-(1 << 31), (1 << 31) - 1)
            if not lo <= v <= hi:
                raise ValueError("Value out of range: %d" % v)
            return int(v)
        if self.type == BOOL:
            if not hasattr(v, "__index__"):
                raise TypeError("%r has type %s, but expected one of: (bool, int)" % (v, type(v)))
            return bool(v)
        if self.type == FLOAT:
            return struct.unpack("<f", struct.pack("<f", v))[0]
        if not isinstance(v, (str, bytes)):
            raise TypeError("%r has type %s, but expected one of: (bytes, str)" % (v, type(v)))
        return v if isinstance(v, str) else v.decode("utf-8")

    def encode(self, v):
        if v == self.default():
            return b""
        if self.type in (UINT32, ENUM, BOOL):
            return put(self.number << 3) + put(int(v) & ((1 << 64) - 1))
        if self.type == FLOAT:
            return put(self.number << 3 | 5) + struct.pack("<f", v)
        b = v.encode()
        return put(self.number << 3 | 2) + put(len(b)) + b

    def decode(self, w, v):
        """The value, or None if the wire type is not the field's."""
        if self.type in (UINT32, ENUM, BOOL):
            if w != 0:
                return None
            return bool(v) if self.type == BOOL else v & 0xFFFFFFFF if self.type == UINT32 else ((v & 0xFFFFFFFF) ^ (1 << 31)) - (1 << 31)
        if self.type == FLOAT:
            return struct.unpack("<f", v)[0] if w == 5 else None
        return v.decode("utf-8") if w == 2 else None


def message(raw, package):
    name, fs, enums = "", [], []
    for n, _, v in fields(raw):
        if n == 1:
            name = v.decode()
        elif n == 2:
            fs.append(Field(v))
        elif n == 4:
            enums.append(v)
    for f in fs:
        if f.type not in (UINT32, BOOL, STRING, FLOAT, ENUM) or f.label == 3:
            raise NotImplementedError("field %s of %s" % (f.name, name))
    byname, bynum = {f.name: f for f in fs}, {f.number: f for f in fs}

    class Message:
        __slots__ = ("_v",)

        def __init__(self, **kw):
            object.__setattr__(self, "_v", {})
            for k, v in kw.items():
                if k not in byname:
                    raise ValueError('Protocol message %s has no "%s" field.' % (name, k))
                if v is not None:
                    self._v[k] = byname[k].check(v)

        def __getattr__(self, k):
            if k not in byname:
                raise AttributeError("'%s' object has no attribute '%s'" % (name, k))
            return self._v.get(k, byname[k].default())

        def __setattr__(self, k, v):
            if k not in byname:
                raise AttributeError("Assignment not allowed (no field \"%s\" in protocol message object)." % k)
            self._v[k] = byname[k].check(v)

        def __eq__(self, other):
            return type(self) is type(other) and self.SerializeToString() == other.SerializeToString()

        __hash__ = None

        def SerializeToString(self, **_):
            return b"".join(f.encode(getattr(self, f.name)) for f in sorted(fs, key=lambda f: f.number))

        def ParseFromString(self, b):
            object.__setattr__(self, "_v", {})
            return self.MergeFromString(b)

        def MergeFromString(self, b):
            for n, w, v in fields(b):
                f = bynum.get(n)
                if f is not None:
                    x = f.decode(w, v)
                    if x is not None:
                        self._v[f.name] = x
            return len(b)

        @classmethod
        def FromString(cls, b):
            m = cls()
            m.ParseFromString(b)
            return m

        def __repr__(self):
            return "".join("%s: %r\n" % i for i in self._v.items())
    Message.__name__ = Message.__qualname__ = name
    for e in enums:
        for n, _, v in fields(e):
            if n == 2:
                p = {k: x for k, _, x in fields(v)}
                setattr(Message, p[1].decode(), p.get(2, 0))
    return package + "." + name, Message


class File:
    def __init__(self, raw):
        self.serialized_pb, self.package, self.messages = raw, "", {}
        for n, _, v in fields(raw):
            if n == 2:
                self.package = v.decode()
        for n, _, v in fields(raw):
            if n == 4:
                full, cls = message(v, self.package)
                self.messages[full] = cls


SYMBOLS = {}
