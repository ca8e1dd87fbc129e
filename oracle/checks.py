"""Run-time contracts over the real package: one predicate per property, evaluated
on a class description and an instance.  Each raises Bad with the failing input."""
import struct as _st
from .model import *
from .gen import *

ERRORS = (ValueError, TypeError, KeyError, IndexError, AttributeError, _st.error, OverflowError,
          UnicodeError, EOFError, NotImplementedError, RecursionError)


PATTERN = bytes((i * 7 + 13) & 0xFF for i in range(256))


class Bad(Exception):
    pass


def hexs(b):
    b = bytes(b)
    return b.hex() if len(b) <= 64 else b[:40].hex() + f'..<{len(b)} bytes>..' + b[-8:].hex()


def attempt(f):
    try:
        return 'ok', f()
    except ERRORS as e:
        return 'err', e


def packers(inst):
    def p(): return inst.pack()
    def pi():
        ref = inst.pack()
        b = bytearray(b'\xA5' * (len(ref) + 11))
        inst.pack_into(b, 4)
        return bytes(b[4:4 + len(ref)])
    def pw():
        o = io.BytesIO()
        inst.pack_write(o)
        return o.getvalue()
    return [('pack', p), ('pack_into', pi), ('pack_write', pw)]


def unpackers(cls, data, pre=b'\x77\x01\x00', post=b''):
    full = pre + data + post
    def s(read):
        st = io.BytesIO(full)
        st.seek(len(pre))
        v = read(st)
        return v
    return [
        ('create_unpack(bytes)', lambda: cls.create_unpack(data + post)),
        ('create_unpack(bytearray)', lambda: cls.create_unpack(bytearray(data + post))),
        ('create_unpack(memoryview)', lambda: cls.create_unpack(memoryview(data + post))),
        (f'create_unpack_from(bytes,{len(pre)})', lambda: cls.create_unpack_from(full, len(pre))),
        (f'create_unpack_from(bytearray,{len(pre)})', lambda: cls.create_unpack_from(bytearray(full), len(pre))),
        (f'create_unpack_from(memoryview,{len(pre)})', lambda: cls.create_unpack_from(memoryview(full), len(pre))),
        ('create_unpack_from(bytes)', lambda: cls.create_unpack_from(data + post)),
        (f'create_unpack_read(stream@{len(pre)})', lambda: s(cls.create_unpack_read)),
    ]


def blank(cls, r):
    """an existing instance whose fields are all stale"""
    return cls(*[None] * len(cls.attrs))


def inplace(cls, data, pre=b'\x77\x01\x00', post=b''):
    full = pre + data + post
    def u():
        o = blank(cls, None); o.unpack(data + post); return o
    def uf():
        o = blank(cls, None); o.unpack_from(full, len(pre)); return o
    def ur():
        o = blank(cls, None)
        st = io.BytesIO(full); st.seek(len(pre)); o.unpack_read(st); return o
    return [('unpack', u), ('unpack_from', uf), ('unpack_read', ur)]


def where(cd, inst=None, data=None):
    return f'class {cd!r}' + (f' value {show(inst)}' if inst is not None else '') + (f' data {hexs(data)}' if data is not None else '')


def expect(cond, msg):
    if not cond:
        raise Bad(msg() if callable(msg) else msg)


def posts(cd, r):
    return [b''] if cd.final else [b'', bytes(r.choices(b'\0\1\xff\x80', k=r.choice([1, 3, 300])))]


# --- C01
def c01(cd, inst, r):
    want = inst
    outs = {}
    for pn, p in packers(inst):
        k, d = attempt(p)
        expect(k == 'ok', lambda: f'{pn} raised {d!r} for {where(cd, inst)}')
        outs.setdefault(d, pn)
    for d, pn in outs.items():
        for post in posts(cd, r):
            for un, u in unpackers(cd.cls, d, post=post) + inplace(cd.cls, d, post=post):
                k, v = attempt(u)
                expect(k == 'ok', lambda: f'{pn} then {un} raised {v!r} for {where(cd, inst)} data {hexs(d)} followed by {hexs(post)}')
                expect(same(v, want), lambda: f'{pn} then {un} gave {show(v)} for {where(cd, inst)} data {hexs(d)} followed by {hexs(post)}')


# --- C02
def c02(cd, inst, r):
    k, ref = attempt(inst.pack)
    if k != 'ok':
        raise Bad(f'pack raised {ref!r} for {where(cd, inst)}')
    n = len(ref)
    for off, tail in ((0, 0), (0, 9), (5, 0), (3, 300)):
        base = (PATTERN * ((off + n + tail) // 256 + 1))[:off + n + tail]
        b = bytearray(base)
        args = (b,) if off == 0 and tail == 0 else (b, off)
        k, e = attempt(lambda: inst.pack_into(*args))
        expect(k == 'ok', lambda: f'pack_into offset {off} raised {e!r} for {where(cd, inst)}')
        expect(len(b) == len(base), lambda: f'pack_into offset {off} changed the buffer length {len(base)} -> {len(b)} for {where(cd, inst)}')
        exp = base[:off] + ref + base[off + n:]
        # alignment padding is zero in both
        expect(bytes(b) == exp, lambda: f'pack_into offset {off}: buffer {hexs(b)} expected {hexs(exp)} for {where(cd, inst)}')
        b2 = bytearray(base)
        mv = memoryview(b2)
        k, e = attempt(lambda: inst.pack_into(mv, off))
        expect(k == 'ok' and bytes(b2) == exp, lambda: f'pack_into memoryview offset {off}: {e!r} {hexs(b2)} for {where(cd, inst)}')
    if n:
        for off, ln in ((0, n - 1), (1, n), (0, 0), (n + 3, n + 3)):
            b = bytearray(b'\xEE' * ln)
            k, e = attempt(lambda: inst.pack_into(b, off))
            expect(len(b) == ln, lambda: f'pack_into resized a too small buffer {ln} -> {len(b)} (offset {off}) for {where(cd, inst)}')
            expect(k == 'err', lambda: f'pack_into accepted a too small buffer of {ln} (offset {off}) for {where(cd, inst)}')
    for pre in (b'', b'prefix'):
        o = io.BytesIO()
        o.write(pre)
        k, e = attempt(lambda: inst.pack_write(o))
        expect(k == 'ok', lambda: f'pack_write raised {e!r} for {where(cd, inst)}')
        expect(o.getvalue() == pre + ref and o.tell() == len(pre) + n, lambda: f'pack_write wrote {hexs(o.getvalue())} expected {hexs(pre + ref)} for {where(cd, inst)}')
    o = io.BytesIO(b'\x11' * (n + 10))
    o.seek(4)
    inst.pack_write(o)
    expect(o.getvalue() == (b'\x11' * 4 + ref + b'\x11' * 6)[:max(n + 10, n + 4)] and o.tell() == 4 + n, lambda: f'pack_write in the middle of a stream for {where(cd, inst)}')


def c02_reject(cd, inst, r):
    """the same values are refused by all three"""
    k1, a = attempt(inst.pack)
    n = len(a) + 64 if k1 == 'ok' else 600000
    b = bytearray(n)
    k2, e2 = attempt(lambda: inst.pack_into(b, 0))
    o = io.BytesIO()
    k3, e3 = attempt(lambda: inst.pack_write(o))
    expect(k1 == k2 == k3, lambda: f'pack {k1}, pack_into {k2}, pack_write {k3} ({a!r:.80}, {e2!r:.80}, {e3!r:.80}) for {where(cd, inst)}')


# --- C03
def outcome(f):
    k, v = attempt(f)
    return (k, v)


def agree(cd, rs, ctx):
    k0, v0 = rs[0][1]
    for n, (k, v) in rs[1:]:
        if k != k0 or (k == 'ok' and not same(v, v0)):
            a = show(v0) if k0 == 'ok' else repr(v0)
            b = show(v) if k == 'ok' else repr(v)
            raise Bad(f'{rs[0][0]} gives {a} but {n} gives {b} for {ctx()}')


def c03(cd, inst, r, data=None):
    cls = cd.cls
    d = inst.pack() if data is None else data
    for pre in (b'', b'\x05', bytes(r.choices(b'\0\1\xff', k=r.choice([2, 7, 300])))):
        for post in posts(cd, r):
            rs = [(n, outcome(u)) for n, u in unpackers(cls, d, pre, post) + inplace(cls, d, pre, post)]
            agree(cd, rs, lambda: where(cd, None, d) + f' preceded by {hexs(pre)} followed by {hexs(post)}')
            if rs[0][1][0] == 'ok':
                st = io.BytesIO(pre + d + post)
                st.seek(len(pre))
                cls.create_unpack_read(st)
                pos = st.tell() - len(pre)
                if data is None:
                    expect(pos == len(d), lambda: f'stream left {pos} bytes after the start, encoded data is {len(d)} bytes, for {where(cd, inst, d)} followed by {hexs(post)}')
                else:
                    expect(pos == cls_size(cls), lambda: f'stream left {pos} bytes after the start, size {cls_size(cls)}, for {where(cd, None, d)}')
    # values may not alias or depend on the buffer afterwards
    b = bytearray(d)
    k, v = attempt(lambda: cls.create_unpack_from(b))
    if k == 'ok':
        ref = cls.create_unpack(d)
        for i in range(len(b)):
            b[i] ^= 0xFF
        expect(same(v, ref), lambda: f'values change with the buffer after unpacking, {where(cd, None, d)}')


def cls_size(cls): return cls.serializer.size


def mutated(d, r):
    out = []
    for _ in range(4):
        b = bytearray(d)
        for _ in range(r.choice([1, 1, 2])):
            if b:
                b[r.randrange(len(b))] = r.choice([0, 1, 2, 3, 0x7f, 0x80, 0xff, r.randrange(256)])
        out.append(bytes(b))
    return out


# --- C04
def c04(cd, inst, r):
    cls = cd.cls
    ser = cls.serializer
    d = inst.pack()
    n = len(d)
    def chk(op):
        k, s = attempt(lambda: cls.serializer.size)
        expect(k == 'ok' and s == n, lambda: f'size {s!r} after {op}, {n} bytes, for {where(cd, inst)}')
    dirty = [lambda: None]
    chk('pack')
    for off in (0, 6):
        b = bytearray(off + n + 4)
        inst.pack_into(b, off); chk(f'pack_into at {off}')
    o = io.BytesIO(b'12345'); o.seek(2)
    inst.pack_write(o); chk('pack_write')
    post = b'' if cd.final else b'\1\0trailing'
    for un, u in unpackers(cls, d, post=post) + inplace(cls, d, post=post):
        v = u()
        chk(un + f' with {len(post)} trailing bytes')


def nested_sizes(ty, v, bo, obj, r, cd):
    """C04 for the serializer of one field hint, driven directly"""
    from structured.type_checking import annotated
    if not ty.nvals:
        return
    ser = annotated.transform(ty.hint()).with_byte_order(bo)
    data = ty.enc(v, bo, obj)
    n = len(data)
    ctx = lambda: f'serializer of {ty!r} ({bo.name}) value {show(v)}'
    def chk(s, op):
        k, z = attempt(lambda: s.size)
        expect(k == 'ok' and z == n, lambda: f'size {z!r} after {op}, {n} bytes, for {ctx()}')
    s = ser.prepack(obj); s.pack(v); chk(s, 'pack')
    s = ser.prepack(obj); s.pack_into(bytearray(n + 9), 5, v); chk(s, 'pack_into')
    s = ser.prepack(obj); s.pack_write(io.BytesIO(), v); chk(s, 'pack_write')
    post = b'' if ty.final else b'\0\1\2'
    s = ser.preunpack(obj); x = tuple(s.unpack(data + post)); chk(s, 'unpack')
    s = ser.preunpack(obj); x = tuple(s.unpack_from(b'12345' + data + post, 5)); chk(s, 'unpack_from')
    st = io.BytesIO(b'12345' + data + post); st.seek(5)
    s = ser.preunpack(obj); x = tuple(s.unpack_read(st)); chk(s, 'unpack_read')


def serializer_ways(ty, v, bo, obj):
    """C03 for the serializer of one field hint, driven directly"""
    from structured.type_checking import annotated
    if not ty.nvals:
        return
    ser = annotated.transform(ty.hint()).with_byte_order(bo)
    data = ty.enc(v, bo, obj)
    post = b'' if ty.final else b'\1\2\0'
    st = io.BytesIO(b'12' + data + post); st.seek(2)
    for nm, f in (('unpack', lambda s: s.unpack(data + post)), ('unpack_from without an offset', lambda s: s.unpack_from(data + post)),
                  ('unpack_from', lambda s: s.unpack_from(memoryview(b'12' + data + post), 2)), ('unpack_read', lambda s: s.unpack_read(st))):
        k, x = attempt(lambda: tuple(f(ser.preunpack(obj))))
        expect(k == 'ok' and same(x, (v,)), lambda: f'{nm} of the serializer of {ty!r} ({bo.name}) on {hexs(data)} gave {x!r:.200} expected {show(v)}')
    expect(st.tell() == 2 + len(data), lambda: f'stream left at {st.tell() - 2} of {len(data)} bytes by the serializer of {ty!r}')


# --- C05 / C06 / C07 / C08 / C09 / C18 (layout)
def layout(cd, inst, r):
    exp = cd.enc(inst)
    for pn, p in packers(inst):
        k, d = attempt(p)
        expect(k == 'ok', lambda: f'{pn} raised {d!r} for {where(cd, inst)} expected {hexs(exp)}')
        expect(d == exp, lambda: f'{pn} gave {hexs(d)} expected {hexs(exp)} for {where(cd, inst)}')


def layout_unpack(cd, inst, r):
    """unpack the model's own bytes"""
    d = cd.enc(inst)
    for post in posts(cd, r):
        for un, u in unpackers(cd.cls, d, post=post) + inplace(cd.cls, d, post=post):
            k, v = attempt(u)
            expect(k == 'ok', lambda: f'{un} raised {v!r} on {hexs(d)} followed by {hexs(post)}, expected {show(inst)}, class {cd!r}')
            expect(same(v, inst), lambda: f'{un} gave {show(v)} on {hexs(d)} followed by {hexs(post)}, expected {show(inst)}, class {cd!r}')


def mixed(cd, insts, r, steps=14):
    """operations on different values one after another give what each gives alone, with its size"""
    cls, ps = cd.cls, [(i, cd.enc(i)) for i in insts]
    hist = []
    for _ in range(steps):
        i, d = r.choice(ps)
        post = r.choice(posts(cd, r))
        if r.random() < .3:
            n, f = r.choice(packers(i))
            hist.append((n, hexs(d)))
            k, v = attempt(f)
            expect(k == 'ok' and v == d, lambda: f'{n} gave {hexs(v) if k == "ok" else v!r} expected {hexs(d)} after {hist[-4:-1]}, {where(cd, i)}')
        else:
            n, f = r.choice(unpackers(cls, d, post=post) + inplace(cls, d, post=post))
            hist.append((n, hexs(d)))
            k, v = attempt(f)
            expect(k == 'ok' and same(v, i), lambda: f'{n} gave {show(v) if k == "ok" else v!r} on {hexs(d)} followed by {hexs(post)}, expected {show(i)}, after {hist[-4:-1]}, class {cd!r}')
        k, z = attempt(lambda: cls.serializer.size)
        expect(k == 'ok' and z == len(d), lambda: f'size {z!r} after {n}, {len(d)} bytes, after {hist[-4:-1]}, {where(cd, i)}')


# --- C17
def c17(cd, inst, r):
    if cd.final:
        return
    d = cd.enc(inst)
    cuts = range(len(d)) if len(d) <= 40 else sorted({0, 1, len(d) - 1, len(d) - 2, len(d) // 2, *[r.randrange(len(d)) for _ in range(12)], *[c for c in (256, 257, 258, 512, 513, 514, 65536, 65538) if c < len(d)]})
    for c in cuts:
        for un, u in unpackers(cd.cls, d[:c]) + inplace(cd.cls, d[:c]):
            k, v = attempt(u)
            expect(k == 'err', lambda: f'{un} accepted {hexs(d[:c])} ({c} of {len(d)} bytes of {show(inst)}) and returned {show(v) if k == "ok" else v}, class {cd!r}')


def run_random(fn, seed, n, stop=None, final=None, **kw):
    """returns (cases, Bad or None)"""
    r = random.Random(seed)
    for i in range(n):
        cr = random.Random(r.random())
        cd = rand_class(cr, final=cr.random() < .2 if final is None else final)
        for j in range(3):
            inst = cd.gen(cr, Env(big=j == 2))
            fn(cd, inst, cr)
    return n * 3
