"""Reference model of the wire format, written from the documentation, never from
the code's own serializers: type descriptors that know their type hint, how to
draw a value, and what bytes a value must produce.

Used (a) to replay and to search for failing inputs when an obligation fails and
(b) as the bounded stand-in for functions the verifier does not reach.
"""
import math
import random
import struct
import sys
import types
import io
import operator

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'
import os
REPO = os.environ.get('PYVC_REPO', '/repo')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import structured as S                                   # noqa: E402
from structured import ByteOrder                          # noqa: E402
from typing import Annotated, Self, Union, Tuple          # noqa: E402

assert os.path.realpath(S.__file__).startswith(os.path.realpath(REPO) + os.sep), S.__file__

ORDERS = [ByteOrder.DEFAULT, ByteOrder.LE, ByteOrder.BE, ByteOrder.NATIVE_STANDARD,
          ByteOrder.NATIVE_NATIVE, ByteOrder.NETWORK]


class Ty:
    basic = False      # takes part in struct runs
    final = False
    nvals = 1

    shared = None      # reuse one hint object in every class (C16)

    def hint(self): raise NotImplementedError
    def field_hint(self):
        if self.shared is None:
            return self.hint()
        if self.shared is True:
            self.shared = self.hint()
        return self.shared
    def gen(self, r, env): raise NotImplementedError
    def enc(self, v, bo, obj): raise NotImplementedError
    def __repr__(self): return type(self).__name__


_INT = {'b': 'int8', 'B': 'uint8', 'h': 'int16', 'H': 'uint16', 'i': 'int32', 'I': 'uint32',
        'q': 'int64', 'Q': 'uint64'}
_FLT = {'e': 'float16', 'f': 'float32', 'd': 'float64'}


def int_range(c):
    n = 8 * struct.calcsize('=' + c)
    return (0, 2 ** n - 1) if c.isupper() else (-2 ** (n - 1), 2 ** (n - 1) - 1)


class Basic(Ty):
    basic = True

    def __init__(self, c):
        self.c = c
        self.fmt = c

    def hint(self):
        if self.c == '?':
            return S.bool8
        return getattr(S, _INT.get(self.c) or _FLT[self.c])

    def gen(self, r, env):
        if self.c == '?':
            return r.random() < .5
        if self.c in _FLT:
            return r.choice([0.0, 1.125, -2.5, 1024.0, 0.25, -0.5])
        lo, hi = int_range(self.c)
        k = r.random()
        if k < .3:
            return r.choice([lo, hi, 0, 1, hi - 1])
        return r.randint(lo, hi)

    def parts(self, v): return [v]
    def enc(self, v, bo, obj): return struct.pack(bo.value + self.fmt, *self.parts(v))
    def __repr__(self): return f'{self.fmt}'


class Pad(Basic):
    nvals = 0

    def __init__(self, n):
        self.n = n
        self.fmt = f'{n}x'

    def hint(self): return S.pad[self.n]
    def gen(self, r, env): raise AssertionError
    def parts(self, v): return []


class Char(Basic):
    def __init__(self, n):
        self.n = n
        self.fmt = f'{n}s'

    def hint(self): return S.char[self.n]
    def gen(self, r, env): return bytes(r.choices(b'\0\1ab\xff', k=self.n))


class Pascal(Basic):
    def __init__(self, n):
        self.n = n
        self.fmt = f'{n}p'

    def hint(self): return S.pascal[self.n]
    def gen(self, r, env): return bytes(r.choices(b'\0\1ab\xff', k=r.randint(0, self.n - 1)))


class W:
    """custom value type"""
    made = 0

    def __init__(self, v):
        type(self).made += 1
        self.v = v

    def __index__(self): return self.v
    def __float__(self): return float(self.v)
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    def __hash__(self): return hash(self.v)
    def __repr__(self): return f'{type(self).__name__}({self.v})'


class W2(W):
    pass


class W3(W):
    pass


class W4(W):
    pass


def w2_factory(v): return W2(v)
def w3_factory(v): return W3(v + 1000 - 1000)


SHARED = {}


class Custom(Basic):
    def __init__(self, c, kind=0):
        self.c = c
        self.fmt = c
        self.kind = kind

    def hint(self):
        # one hint object for every use of a basic type, as classes sharing hints have it
        if self.c not in SHARED: SHARED[self.c] = S.SerializeAs(Basic(self.c).hint())
        shared = SHARED[self.c]
        if self.kind in (0, 3): return Annotated[W if self.kind == 0 else W4, shared]
        return Annotated[W2 if self.kind == 1 else W3, shared.with_factory(w2_factory if self.kind == 1 else w3_factory)]

    def gen(self, r, env): return (W, W2, W3, W4)[self.kind](Basic(self.c).gen(r, env))
    def __repr__(self): return f'W{self.kind}:{self.fmt}'


class Padded(Basic):
    """one value and padding, given as a struct format"""

    def __init__(self, c, before, after):
        super().__init__(c)
        self.fmt = f'{before}x' * (before > 0) + c + f'{after}x' * (after > 0)

    def hint(self): return Annotated[int, S.serializers.StructSerializer(self.fmt)]


LENS = [0, 0, 1, 2, 3, 5, 5, 17, 126, 127, 128, 129, 254, 255, 256, 257, 300]


def gen_bytes(r, n, exclude=b''):
    al = bytes(b for b in (b'\0\1abcH\x7f\x80\xff' if r.random() < .7 else bytes(range(256))) if b not in exclude)
    return bytes(r.choices(al, k=n))


class DynChar(Ty):
    def __init__(self, c): self.c = c
    def hint(self): return S.char[Basic(self.c).hint()]
    def maxlen(self): return min(int_range(self.c)[1], 70000)
    def lens(self): return [n for n in LENS if n <= self.maxlen()]
    def gen(self, r, env): return gen_bytes(r, env.length(r, self.lens()))
    def enc(self, v, bo, obj): return struct.pack(bo.value + self.c, len(v)) + v
    def __repr__(self): return f'char[{self.c}]'


class Term(Ty):
    def __init__(self, t=b'\0'): self.t = t
    def hint(self): return S.char[self.t]
    def lens(self): return LENS + [510, 511, 512, 513]
    def maxlen(self): return 70000
    def gen(self, r, env): return gen_bytes(r, env.length(r, self.lens()), self.t)
    def enc(self, v, bo, obj): return v if v.endswith(self.t) else v + self.t
    def __repr__(self): return f'char[{self.t}]'


class Net(Ty):
    def hint(self): return S.char[S.NET]
    def lens(self): return LENS + [16383, 16384, 32767]
    def maxlen(self): return 32767
    def gen(self, r, env): return gen_bytes(r, env.length(r, self.lens()))

    def enc(self, v, bo, obj):
        n = len(v)
        if n < 128:
            return bytes([n]) + v
        return bytes([0x80 | n & 0x7F, n >> 7]) + v


class Consume(Ty):
    final = True
    def hint(self): return S.char[math.inf]
    def lens(self): return LENS
    def maxlen(self): return 70000
    def gen(self, r, env): return gen_bytes(r, env.length(r, self.lens()))
    def enc(self, v, bo, obj): return v


class RevCodec(S.EncoderDecoder):
    """A custom codec whose encoding is visibly not any standard one."""
    calls = [0, 0]

    @classmethod
    def encode(cls, s):
        cls.calls[0] += 1
        return bytes((b + 1) & 0xFF for b in s.encode('latin-1'))

    @classmethod
    def decode(cls, b):
        cls.calls[1] += 1
        return bytes((x - 1) & 0xFF for x in b).decode('latin-1')


class AddCodec(S.EncoderDecoder):
    """a codec kept in an instance"""

    def __init__(self, n): self.n = n
    def encode(self, s): return bytes((b + self.n) & 0xFF for b in s.encode('latin-1'))
    def decode(self, b): return bytes((x - self.n) & 0xFF for x in b).decode('latin-1')


class Uni(Ty):
    def __init__(self, inner, codec='utf8'):
        self.inner, self.codec = inner, codec
        self.final = inner.final

    def _arg(self):
        i = self.inner
        if isinstance(i, DynChar): return Basic(i.c).hint()
        if isinstance(i, Term): return i.t
        if isinstance(i, Net): return S.NET
        if isinstance(i, Consume): return math.inf
        return i.n

    def hint(self):
        return S.unicode[self._arg(), RevCodec if self.codec == 'rev' else AddCodec(7) if self.codec == 'add7' else self.codec]

    def encode(self, v):
        if self.codec in ('rev', 'add7'):
            return bytes((b + (1 if self.codec == 'rev' else 7)) & 0xFF for b in v.encode('latin-1'))
        return v.encode(self.codec)

    def gen(self, r, env):
        for _ in range(50):
            al = {'utf8': 'ab你é\1', 'utf-16-le': 'ab你', 'ascii': 'abc', 'latin-1': 'abé\xff', 'rev': 'ab\x01\xfe', 'add7': 'ab\x01\xf7'}[self.codec]
            n = self.inner.n if isinstance(self.inner, Char) else env.length(r, self.inner.lens())
            v = ''.join(r.choices(al, k=n))
            while True:
                e = self.encode(v)
                ok = len(e) <= (self.inner.n if isinstance(self.inner, Char) else self.inner.maxlen())
                if ok and isinstance(self.inner, Term) and self.inner.t in e:
                    ok = False
                if ok or not v:
                    break
                v = v[:len(v) // 2]
            if isinstance(self.inner, Char) and self.codec in ('rev', 'add7') and len(e) != self.inner.n:
                continue
            if isinstance(self.inner, Char) and self.codec == 'utf-16-le' and self.inner.n % 2:
                continue
            return v
        return ''

    def enc(self, v, bo, obj):
        e = self.encode(v)
        if isinstance(self.inner, Char):
            return struct.pack(self.inner.fmt, e)
        return self.inner.enc(e, bo, obj)

    def __repr__(self): return f'uni[{self.inner!r},{self.codec}]'


class Tup(Ty):
    def __init__(self, *tys):
        self.tys = tys
        self.final = any(t.final for t in tys)

    def hint(self): return Tuple[tuple(t.hint() for t in self.tys)]
    def gen(self, r, env): return tuple(t.gen(r, env) for t in self.tys if t.nvals)

    def enc(self, v, bo, obj):
        return enc_seq(self.tys, list(v), bo, obj)

    def __repr__(self): return f'tuple{list(self.tys)!r}'


class Arr(Ty):
    """count: int or struct char; size: None or struct char"""

    def __init__(self, count, item, size=None):
        self.count, self.item, self.size = count, item, size

    def hint(self):
        c = self.count if isinstance(self.count, int) else Basic(self.count).hint()
        h = S.Header[c] if self.size is None else S.Header[c, Basic(self.size).hint()]
        return S.array[h, self.item.hint()]

    def gen(self, r, env):
        env = env.deeper()
        n = self.count if isinstance(self.count, int) else env.count(r)
        if n > 8:
            env.small = True
        for _ in range(100):
            v = [self.item.gen(r, env) for _ in range(n)]
            if self.size is None or not env.check_sizes:
                return v
            try:
                if sum(len(self.item.enc(x, ByteOrder.LE, env.obj)) for x in v) <= int_range(self.size)[1]:
                    return v
            except Exception:
                return v
            env.small = True
            if not isinstance(self.count, int):
                n = n // 2
        return v

    def enc_items(self, v, bo, obj):
        if self.item.basic and self.size is None:
            # a run of basic values
            return struct.pack(bo.value + self.item.fmt * len(v), *[y for x in v for y in self.item.parts(x)])
        return b''.join(self.item.enc(x, bo, obj) for x in v)

    def enc(self, v, bo, obj):
        body = self.enc_items(v, bo, obj)
        fmt, vals = '', []
        if not isinstance(self.count, int):
            fmt += self.count
            vals.append(len(v))
        if self.size is not None:
            fmt += self.size
            vals.append(len(body))
        return struct.pack(bo.value + fmt, *vals) + body

    def __repr__(self): return f'array[{self.count}{"" if self.size is None else ","+self.size}; {self.item!r}]'


class Struct(Ty):
    def __init__(self, cd):
        self.cd = cd
        self.final = cd.final

    def hint(self): return self.cd.cls
    def gen(self, r, env): return self.cd.gen(r, env.deeper())
    def enc(self, v, bo, obj): return self.cd.enc(v)
    def __repr__(self): return f'{self.cd!r}'


class SelfT(Ty):
    """Self; the value is an instance of the containing class (only used where
    recursion can stop: inside counted arrays, unions and conditions)."""
    def __init__(self, owner=None): self.owner = owner
    def hint(self): return Self
    def gen(self, r, env): return env.owner.gen(r, env.deeper())
    def enc(self, v, bo, obj): return self.owner_of(v).enc(v)
    def owner_of(self, v): return type(v)._desc
    def __repr__(self): return 'Self'


ODD = (None, '', (), False)


class Back(Ty):
    """Union decided by an earlier field."""
    def __init__(self, key, choices, default=None):
        self.key, self.choices, self.default = key, choices, default
        self.final = any(t.final for t in choices.values()) or bool(default and default.final)

    def hint(self):
        tys = list(self.choices.values()) + ([self.default] if self.default else [])
        if len(tys) == 1:
            tys = tys * 2
        u = Union[tuple([t.hint() for t in tys] + [S.uint8, S.float64])]
        # any hashable may be a decision, and falsy ones are no exception
        Back.made += 1
        if Back.made % 2: decide, say = operator.attrgetter(self.key), lambda k: k
        else:
            say = lambda k: ODD[k] if type(k) is int and 0 <= k < len(ODD) else k
            decide = lambda o: say(getattr(o, self.key))
        return Annotated[u, S.LookbackDecider(decide, {say(k): t.hint() for k, t in self.choices.items()},
                                             self.default.hint() if self.default else None)]

    made = 0

    def pick(self, k):
        return self.choices.get(k, self.default)

    def gen(self, r, env): return self.pick(env.keys[self.key]).gen(r, env)
    def enc(self, v, bo, obj): return self.pick(getattr(obj, self.key)).enc(v, bo, obj)
    def __repr__(self): return f'union[{self.key}: {self.choices!r} / {self.default!r}]'


class Ahead(Ty):
    """Union decided by looking ahead; choices: key -> Struct descriptor whose first
    field (of type `kt`, named `sig`) holds the key, or tuples whose first value does."""
    def __init__(self, name, kt, choices, default=None):
        self.name, self.kt, self.choices, self.default = name, kt, choices, default
        self.final = any(t.final for t in choices.values()) or bool(default and default.final)

    def hint(self):
        tys = [t.hint() for t in self.choices.values()] + ([self.default.hint()] if self.default else [])
        u = Union[tuple(tys + [S.uint8, S.float64])]
        return Annotated[u, S.LookaheadDecider(self.kt.hint(), lambda o: self.key(getattr(o, self.name)),
                                              {k: t.hint() for k, t in self.choices.items()},
                                              self.default.hint() if self.default else None)]

    def gen(self, r, env):
        ks = list(self.choices)
        if self.default and r.random() < .3:
            for _ in range(100):
                v = self.default.gen(r, env)
                if self.key(v) not in self.choices:
                    return v
        k = r.choice(ks)
        v = self.choices[k].gen(r, env)
        if isinstance(v, tuple): return (k,) + v[1:]
        v.sig = k
        return v

    def key(self, v): return v[0] if isinstance(v, tuple) else v.sig

    def enc(self, v, bo, obj): return self.choices.get(self.key(v), self.default).enc(v, bo, obj)
    def __repr__(self): return f'ahead[{self.choices!r} / {self.default!r}]'


class Cond(Ty):
    def __init__(self, key, test, inner, default, desc=''):
        self.key, self.test, self.inner, self.default = key, test, inner, default
        self.final = inner.final
        self.desc = desc

    def hint(self):
        t, k = self.test, self.key
        return Annotated[self.inner.hint(), S.Condition(lambda o: t(getattr(o, k)), self.default)]

    def gen(self, r, env):
        if self.test(env.keys[self.key]):
            return self.inner.gen(r, env)
        return self.default

    def enc(self, v, bo, obj):
        return self.inner.enc(v, bo, obj) if self.test(getattr(obj, self.key)) else b''

    def __repr__(self): return f'cond[{self.key}:{self.desc} {self.inner!r}]'


def enc_seq(tys, vals, bo, obj):
    """A chain of fields: maximal runs of basic fields are one struct format."""
    out, fmt, args = b'', '', []
    vals = list(vals)
    for t in tys:
        v = vals.pop(0) if t.nvals else None
        if t.basic:
            fmt += t.fmt
            args += t.parts(v)
        else:
            if fmt:
                out += struct.pack(bo.value + fmt, *args)
                fmt, args = '', []
            out += t.enc(v, bo, obj)
    if fmt:
        out += struct.pack(bo.value + fmt, *args)
    assert not vals
    return out


class Env:
    check_sizes = True

    def __init__(self, depth=0, owner=None, small=False, big=False, force=None):
        self.depth, self.owner, self.small, self.big, self.force = depth, owner, small, big, force
        self.keys, self.obj = {}, None

    def deeper(self):
        e = Env(self.depth + 1, self.owner, self.small, self.big, self.force)
        e.keys, e.obj = self.keys, self.obj
        return e

    def length(self, r, lens):
        if self.force is not None and self.force <= max(lens):
            return self.force
        if self.small or self.depth > 2:
            return r.choice(lens[:7])
        if self.big:
            return r.choice(lens)
        return r.choice(lens[:9] if r.random() < .7 else lens)

    def count(self, r):
        if self.depth > 5:
            return 0
        if self.depth > 2:
            return r.choice([0, 0, 1, 2])
        return r.choice([0, 1, 2, 3, 4] if self.small or r.random() < .9 else [7, 100, 255])


def subtypes(t):
    """t and the types inside it that belong to the same class"""
    yield t
    ch = getattr(t, 'choices', None)
    for s in [*getattr(t, 'tys', ()), getattr(t, 'item', None), getattr(t, 'inner', None), getattr(t, 'default', None),
              *(ch.values() if isinstance(ch, dict) else ())]:
        if isinstance(s, Ty):
            yield from subtypes(s)


_cid = [0]


class ClassDesc:
    def __init__(self, fields, bo=ByteOrder.DEFAULT, base=None, name=None, kw=None):
        self.own, self.bo, self.base = fields, bo, base
        self.kw = kw or {}
        _cid[0] += 1
        self.name = name or f'K{_cid[0]}'
        allf = dict(base.fields) if base else {}
        for n, t in fields:
            if t is None:
                allf.pop(n, None)
            else:
                allf[n] = t
        self.fields = list(allf.items())
        self.final = any(t.final for _, t in self.fields)
        self._cls = None

    @property
    def cls(self):
        if self._cls is None:
            def body(ns):
                for n, t in self.own:
                    ns['__annotations__']['_' if n.startswith('_pad') else n] = None if t is None else t.field_hint()
            kw = dict(self.kw)
            kw.setdefault('byte_order', self.bo)
            c = types.new_class(self.name, ((self.base.cls if self.base else S.Structured),), kw, body)
            c._desc = self
            self._cls = c
        return self._cls

    @property
    def names(self): return tuple(n for n, t in self.fields if t.nvals)

    def gen(self, r, env):
        e = Env(env.depth, self, env.small, env.big, env.force)
        obj = types.SimpleNamespace()
        e.obj = obj
        for n, t in self.fields:
            if not t.nvals:
                continue
            ks = None if 'gen' in t.__dict__ else self.mapped(n)
            v = r.choice(ks) if ks else t.gen(r, e)
            e.keys[n] = v
            setattr(obj, n, v)
        return self.cls(*[e.keys[n] for n in self.names])

    def mapped(self, name):
        """keys a union without default needs the field `name` to hold"""
        ks = None
        for _, f in self.fields:
            for t in subtypes(f):
                if isinstance(t, Back) and t.key == name and t.default is None:
                    ks = set(t.choices) if ks is None else ks & set(t.choices)
        return sorted(ks) if ks else None

    def enc(self, inst):
        return enc_seq([t for _, t in self.fields], [getattr(inst, n) for n in self.names], self.bo, inst)

    def __repr__(self):
        return f'{self.name}({self.bo.name}: ' + ', '.join(f'{n}: {t!r}' for n, t in self.fields) + ')'


def same(a, b):
    """value equality that also distinguishes types where it matters"""
    if isinstance(a, S.Structured):
        return type(a) is type(b) and all(same(getattr(a, n), getattr(b, n)) for n in a._desc.names)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, bytes):
        return isinstance(b, bytes) and a == b
    if isinstance(a, W):
        return type(a) is type(b) and same(a.v, b.v)
    if isinstance(a, float) and a != a:
        return type(b) is float and b != b
    return type(a) is type(b) and a == b


def show(v):
    if isinstance(v, S.Structured):
        return f'{type(v)._desc.name}(' + ', '.join(f'{n}={show(getattr(v, n, "<unset>"))}' for n in v._desc.names) + ')'
    if isinstance(v, (list, tuple)):
        return ('[%s]' if isinstance(v, list) else '(%s)') % ', '.join(map(show, v))
    s = repr(v)
    return s if len(s) < 120 else s[:60] + f'...<{len(v) if hasattr(v, "__len__") else "?"}>...' + s[-20:]
