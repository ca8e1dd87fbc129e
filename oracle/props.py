"""One bounded run-time check per property: `cases(pid, tier)` lists independent
cases (function, seed); `run_case` evaluates one on the real package.  Everything is
a function of the seed, so a failing case replays exactly."""
import hashlib
import inspect
import itertools
import math
import signal
import struct as _st
import typing
from typing import ClassVar, Generic, Optional, TypeVar
from .checks import *
from structured.serializers import (StructSerializer, StructActionSerializer, NullSerializer, CompoundSerializer,
                                    Serializer)
from structured.type_checking import annotated

CASE_LIMIT = 60     # seconds of processor time; ordinary cases take milliseconds


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


# ---------------------------------------------------------------- helpers
def mk(fields, bo, **kw):
    return ClassDesc(fields, bo, **kw)


def inst_of(cd, r, big=False, small=False):
    for _ in range(50):
        i = cd.gen(r, Env(big=big, small=small))
        try:
            cd.enc(i)
            return i
        except _st.error:
            continue        # e.g. data size too big for its declared type
    return cd.gen(r, Env(small=True))


def sha(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()[:16]


ENUM = None


def enum_list():
    global ENUM
    if ENUM is None:
        ENUM = list(enumerated())
    return ENUM


def nontrivial(cd, d):
    return len(d) > 0 and len(cd.fields) > 1


class Rec:
    """what a case looked like, for the evidence file"""

    def __init__(self):
        self.keys, self.n, self.sample = set(), 0, None

    def see(self, cd, inst=None, extra=''):
        self.n += 1
        t = f'{[(n, t) for n, t in cd.fields]!r}{cd.bo.name}{show(inst) if inst is not None else ""}{extra}'
        if inst is None or any(True for _ in cd.names):
            self.keys.add(sha(t))
        if self.sample is None:
            self.sample = (f'{cd!r} ' + (show(inst) if inst is not None else '') + f' {extra}')[:400]

    def see2(self, txt):
        self.n += 1
        self.keys.add(sha(txt))
        if self.sample is None:
            self.sample = str(txt)[:400]


def class_case(r, seed, tag, final=.2):
    """one class description: enumerated shapes first, then random ones"""
    kind, k = tag
    if kind == 'enum':
        fields = enum_list()[k]
        return mk(fields, ORDERS[seed % len(ORDERS)])
    if kind == 'enum*':
        n, b = divmod(k, len(ORDERS))
        return mk(enum_list()[n], ORDERS[b])
    return rand_class(r, final=r.random() < final)


def generic_runner(*fns, ninst=2, before=None):
    def run(r, seed, tag, rec):
        cd = class_case(r, seed, tag)
        done = []
        for j in range(ninst):
            inst = inst_of(cd, r, big=j == 1)
            done.append(inst)
            for fn in fns:
                rec.see(cd, inst, fn.__name__)
                fn(cd, inst, r)
        mixed(cd, done + [inst_of(cd, r, small=True)], r)
    return run


# ---------------------------------------------------------------- C02 rejection
BADV = [None, 'text', b'bytes', -1, 1 << 64, 1.5, [], [None], (), object(), -(1 << 63) - 1]


def rejecting(cd, inst, r):
    for n in cd.names:
        old = getattr(inst, n)
        alts = [r.choice(BADV), r.choice(BADV)] + ([b'x' * 70000] if isinstance(old, bytes) and r.random() < .1 else [])
        if isinstance(old, list):
            alts += [old + old + [None], old + [r.choice(BADV)], old[:-1]]
        if isinstance(old, tuple):
            alts += [old[:-1], old + old]
            if old:
                k = r.randrange(len(old))
                alts.append(old[:k] + (r.choice(BADV),) + old[k + 1:])
        for v in alts:
            setattr(inst, n, v)
            try:
                c02_reject(cd, inst, r)
            except RecursionError:
                pass
            finally:
                setattr(inst, n, old)


def p_c02(r, seed, tag, rec):
    cd = class_case(r, seed, tag)
    for j in range(2):
        inst = inst_of(cd, r, big=j == 1)
        rec.see(cd, inst)
        c02(cd, inst, r)
        rejecting(cd, inst, r)
    if tag[0] == 'rand' and seed % 3 == 0:
        # limits of every length form
        for t in (DynChar('B'), DynChar('H'), Net(), Arr('B', Basic('B')), Arr('B', Basic('B'), 'B'), Arr('H', DynChar('B'), 'B'),
                  Arr(2, DynChar('B'), 'B'), Uni(DynChar('B')), Tup(DynChar('B'))):
            cd = C(r.choice(ORDERS), Basic('H'), t)
            n = r.choice([254, 255, 256, 257, 300, 32767, 32768, 65535, 65536] if not isinstance(t, Arr) else [127, 128, 254, 255, 256, 257])
            def val(t):
                if isinstance(t, Arr):
                    it = t.item
                    if isinstance(it, Basic): return [1] * n
                    return [b'x' * (n // 2 - 1)] * 2
                if isinstance(t, Uni): return 'x' * n
                if isinstance(t, Tup): return (val(t.tys[0]),)
                return b'x' * n
            inst = cd.cls(7, val(t))
            rec.see(cd, None, str(n))
            try:
                want = cd.enc(inst)
            except _st.error:
                want = None
            except ValueError:
                want = None
            if isinstance(t, Net) and n > 32767:
                want = None
            c02_reject(cd, inst, r)
            k, d = attempt(inst.pack)
            if want is None:
                expect(k == 'err', lambda: f'a value of {n} bytes/items was accepted by {cd!r}')
            else:
                expect(k == 'ok' and d == want, lambda: f'length {n}: {d!r:.80} for {cd!r}')
                c02(cd, inst, r)


def p_c03(r, seed, tag, rec):
    cd = class_case(r, seed, tag)
    for j in range(2):
        inst = inst_of(cd, r, small=j == 1)
        rec.see(cd, inst)
        c03(cd, inst, r)
        if j: mixed(cd, [inst, inst_of(cd, r, small=True), inst_of(cd, r, small=True)], r)
        for n, t in cd.fields:
            if not any(isinstance(x, SelfT) for x in walk(t)): serializer_ways(t, getattr(inst, n, None), cd.bo, inst)
        if j:
            d = inst.pack()
            for m in mutated(d, r) if small_counts(cd) and not in_final_self(cd) else []:
                rec.see(cd, None, m.hex()[:200])
                c03(cd, None, r, m)


def walk(t):
    yield t
    for s in (list(getattr(t, 'tys', ())) + [getattr(t, 'item', None), getattr(t, 'inner', None), getattr(t, 'default', None) if isinstance(getattr(t, 'default', None), Ty) else None]
              + list(getattr(t, 'choices', {}).values() if isinstance(getattr(t, 'choices', None), dict) else [])):
        if isinstance(s, Ty):
            yield from walk(s)
    if isinstance(t, Struct):
        for _, f in t.cd.fields:
            yield from walk(f)


def small_counts(cd):
    """corrupted counts stay below 65536, and items of arrays take bytes"""
    ts = [x for _, f in cd.fields for x in walk(f)]
    return all(not (isinstance(t, (Arr, DynChar)) and str(getattr(t, 'count', getattr(t, 'c', ''))) in 'IQH') for t in ts) and \
        not any(isinstance(t, (SelfT,)) for t in ts)


def in_final_self(cd):
    return cd.final and any(isinstance(x, SelfT) for _, f in cd.fields for x in walk(f))


def p_c04(r, seed, tag, rec):
    cd = class_case(r, seed, tag)
    for j in range(2):
        inst = inst_of(cd, r, big=j == 1)
        rec.see(cd, inst)
        c04(cd, inst, r)
        for n, t in cd.fields:
            if t.nvals and not any(isinstance(x, SelfT) for x in walk(t)):
                nested_sizes(t, getattr(inst, n), cd.bo, inst, r, cd)
    # sizes right after other instances were processed in between
    mixed(cd, [inst, inst_of(cd, r, small=True), inst_of(cd, r, small=True)], r)
    other = inst_of(cd, r)
    other.pack()
    d = inst.pack()
    expect(cd.cls.serializer.size == len(d), lambda: f'size after packing another instance for {where(cd, inst)}')


# ---------------------------------------------------------------- C05
def with_order(cd, bo):
    return ClassDesc(cd.own, bo, base=cd.base and with_order(cd.base, bo), name=cd.name)


def p_c05(r, seed, tag, rec):
    cd = class_case(r, seed, tag)
    inst = inst_of(cd, r)
    rec.see(cd, inst)
    layout(cd, inst, r)
    layout_unpack(cd, inst, r)
    before = cd.enc(inst)
    vals = [getattr(inst, n) for n in cd.names]
    recur = any(isinstance(x, SelfT) for _, f in cd.fields for x in walk(f))
    for bo in r.sample(ORDERS, 3):
        cd2 = with_order(cd, bo)
        # instance copy
        if not recur:
            k, o2 = attempt(lambda: inst.with_byte_order(bo))
            expect(k == 'ok', lambda: f'with_byte_order({bo.name}) raised {o2!r} for {where(cd, inst)}')
            for n, v in zip(cd.names, vals):
                expect(same(v, getattr(o2, n)), lambda: f'with_byte_order({bo.name}) changed field {n} for {where(cd, inst)}')
            k, want = attempt(lambda: enc_seq([t for _, t in cd.fields], vals, bo, inst))
            if k == 'ok':
                k, d = attempt(o2.pack)
                expect(k == 'ok' and d == want, lambda: f'with_byte_order({bo.name}).pack gave {d!r:.200} expected {hexs(want)} for {where(cd, inst)}')
                o3 = cd.cls(*[None] * len(cd.names)).with_byte_order(bo)
                k, e = attempt(lambda: o3.unpack(want))
                expect(k == 'ok' and all(same(v, getattr(o3, n)) for n, v in zip(cd.names, vals)),
                       lambda: f'with_byte_order({bo.name}).unpack({hexs(want)}) {e!r}: {show(o3)} for {where(cd, inst)}')
            expect(o2.byte_order is bo, lambda: f'with_byte_order({bo.name}) has byte_order {o2.byte_order!r} for {where(cd, inst)}')
            if k == 'ok':
                bo2 = r.choice(ORDERS + [cd.bo])
                k, want = attempt(lambda: enc_seq([t for _, t in cd.fields], vals, bo2, inst))
                if k == 'ok':
                    k, d = attempt(lambda: o2.with_byte_order(bo2).pack())
                    expect(k == 'ok' and d == want, lambda: f'with_byte_order({bo.name}).with_byte_order({bo2.name}).pack gave {d!r:.200} expected {hexs(want)} for {where(cd, inst)}')
            expect(inst.byte_order is cd.bo and cd.cls.byte_order is cd.bo, lambda: f'byte_order attribute changed for {where(cd, inst)}')
        # serializer copy
        for n, t in cd.fields:
            if any(isinstance(x, SelfT) for x in walk(t)):
                continue
            ser = annotated.transform(t.hint())
            s2 = ser.with_byte_order(bo)
            if not t.nvals:
                expect(s2.pack() == bytes(t.n) and ser.pack() == bytes(t.n), lambda: f'padding {t!r} with_byte_order({bo.name})')
                continue
            v = getattr(inst, n)
            for s, o, nm in ((s2, bo, 'copy'), (ser, ByteOrder.DEFAULT, 'original after copying'), (s2.with_byte_order(cd.bo), cd.bo, 'copy of copy')):
                expect(s.num_values == 1, lambda: f'num_values {s.num_values} of {nm} of {t!r}')
                k, want = attempt(lambda: t.enc(v, o, inst))
                if k != 'ok':
                    continue
                k, d = attempt(lambda: s.prepack(inst).pack(v))
                expect(k == 'ok' and d == want, lambda: f'{nm} of serializer {t!r} with_byte_order({bo.name}): pack gave {d!r:.200} expected {hexs(want)} value {show(v)}')
                k, x = attempt(lambda: tuple(s.preunpack(inst).unpack(want)))
                expect(k == 'ok' and same(x, (v,)), lambda: f'{nm} of serializer {t!r} with_byte_order({bo.name}): unpack({hexs(want)}) gave {x!r:.200} expected {show(v)}')
    expect(inst.pack() == before, lambda: f'original instance packs differently after with_byte_order for {where(cd, inst)}')


# ---------------------------------------------------------------- C06
def runs(r):
    return [basic(r) if r.random() < .8 else Pad(r.choice([1, 2, 3])) for _ in range(r.choice([1, 2, 2, 3, 4, 6, 9]))]


def act_a(v): return ('a', v)
def act_b(v): return ('b', v)
def noop(v): return v


def expand(fmt):
    """specifier list of a struct format, one per value, widths kept for strings"""
    out, num = [], ''
    for c in fmt:
        if c.isdigit():
            num += c
        else:
            n = int(num) if num else 1
            out += [(c, n)] if c in 'sp' else [(c, 1)] * n
            num = ''
    return out


def p_c06(r, seed, tag, rec):
    from structured.serializers.structs import fold_overlaps
    bo = r.choice(ORDERS)
    tys = runs(r)
    cd = ClassDesc([(f'f{i}', t) for i, t in enumerate(tys)] , bo)
    if any(t.nvals for t in tys):
        inst = cd.gen(r, Env())
        rec.see(cd, inst)
        layout(cd, inst, r)
        layout_unpack(cd, inst, r)
        c04(cd, inst, r)
        fmt = bo.value + ''.join(t.fmt for t in tys)
        expect(cd.cls.serializer.num_values == len(cd.names), lambda: f'num_values of {cd!r}')
        expect(cd.cls.serializer.size == _st.calcsize(fmt), lambda: f'size {cd.cls.serializer.size} of {cd!r}, struct says {_st.calcsize(fmt)}')
    # algebra of serializers
    def rs():
        n = r.choice([1, 1, 2, 3])
        f = ''.join(r.choice(['', '', '2', '3', '11', '', '2', '0']) + r.choice('xbBhHiIqQefd?sp') for _ in range(n))
        # (a run of one kind next to itself, also of none)
        if r.random() < .2: f += r.choice(['', '0', '2']) + f[-1]
        return f.replace('0p', 'p')
    def build(f, b):
        nv = len(_st.unpack(b.value + f, bytes(_st.calcsize(b.value + f))))
        k = r.random()
        if k < .35:
            acts = tuple(r.choice([act_a, act_b, noop]) for _ in range(r.choice([nv, nv, max(0, nv - 1)])))
            return StructActionSerializer(f, b, actions=acts), list(acts) + [noop] * (nv - len(acts))
        return StructSerializer(f, b), [noop] * nv
    def check(s, fmt, acts, what):
        full = bo.value + fmt
        vals = []
        for c, w in expand(fmt):
            if c == 'x': continue
            vals.append(Char(w).gen(r, None) if c == 's' else Pascal(w).gen(r, None) if c == 'p' else Basic(c).gen(r, None))
        want = _st.pack(full, *vals)
        expect(s.num_values == len(vals), lambda: f'{what}: num_values {s.num_values}, {full!r} has {len(vals)}')
        expect(s.size == len(want), lambda: f'{what}: size {s.size}, {full!r} has {len(want)}')
        k, d = attempt(lambda: s.pack(*vals))
        expect(k == 'ok' and d == want, lambda: f'{what}: pack{tuple(vals)!r} gave {d!r} expected {want!r} ({full!r})')
        b = bytearray(b'\xEE' * (len(want) + 5))
        s.pack_into(b, 3, *vals)
        expect(bytes(b) == b'\xEE' * 3 + want + b'\xEE' * 2, lambda: f'{what}: pack_into{tuple(vals)!r} gave {bytes(b)!r}')
        o = io.BytesIO(); s.pack_write(o, *vals)
        expect(o.getvalue() == want, lambda: f'{what}: pack_write{tuple(vals)!r} gave {o.getvalue()!r}')
        exp = tuple(a(v) for a, v in zip(acts, _st.unpack(full, want)))
        st = io.BytesIO(b'12' + want + b'3'); st.seek(2)
        for nm, f in (('unpack', lambda: s.unpack(want + b'\xFF')), ('unpack_from', lambda: s.unpack_from(b'12' + want, 2)), ('unpack_from0', lambda: s.unpack_from(want)), ('unpack_read', lambda: s.unpack_read(st))):
            k, v = attempt(f)
            expect(k == 'ok' and tuple(v) == exp, lambda: f'{what}: {nm}({want!r}) gave {v!r} expected {exp!r} ({full!r})')
    f1, f2, f3 = rs(), rs(), rs()
    (s1, a1), (s2, a2), (s3, a3) = build(f1, bo), build(f2, bo), build(f3, bo)
    rec.see2((bo.name, str(s1), str(s2), str(s3)))
    check(s1, f1, a1, f'{s1}')
    check(s1 + s2, f1 + f2, a1 + a2, f'{s1} + {s2}')
    check((s1 + s2) + s3, f1 + f2 + f3, a1 + a2 + a3, f'({s1} + {s2}) + {s3}')
    check(s1 + (s2 + s3), f1 + f2 + f3, a1 + a2 + a3, f'{s1} + ({s2} + {s3})')
    check(NullSerializer() + s1, f1, a1, f'null + {s1}')
    check(s1 + NullSerializer(), f1, a1, f'{s1} + null')
    check(sum([s1, s2, s3], NullSerializer()), f1 + f2 + f3, a1 + a2 + a3, f'sum of {s1}, {s2}, {s3}')
    for n in (1, 2, 3, r.choice([5, 10, 40])):
        # a repeat is one format repeated; native alignment applies to the whole
        check(s1 * n, f1 * n, a1 * n, f'{s1} * {n}')
    z = s1 * 0
    expect(z.num_values == 0 and z.size == 0 and z.pack() == b'' and tuple(z.unpack(b'x')) == (), lambda: f'{s1} * 0')
    c = r.choice('sx')
    w, n = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 7, 200])
    s = StructSerializer(f'{w if w > 1 else ""}{c}', bo)
    check(s @ n, f'{w * n}{c}', [noop] * (c == 's'), f'{s} @ {n}')
    check(StructSerializer('s', bo) @ 0, '0s', [noop], f's @ 0')
    for bad in (-1, -5):
        k, v = attempt(lambda: s1 * bad)
        expect(k == 'err' and isinstance(v, ValueError), lambda: f'{s1} * {bad} gave {v!r}')
        k, v = attempt(lambda: StructSerializer('s', bo) @ bad)
        expect(k == 'err' and isinstance(v, ValueError), lambda: f's @ {bad} gave {v!r}')
    bo2 = r.choice([b for b in ORDERS if b is not bo])
    t2, _ = build(f2, bo2)
    k, v = attempt(lambda: s1 + t2)
    expect(k == 'err' and isinstance(v, ValueError), lambda: f'{s1} + {t2} gave {v} instead of ValueError')
    got = fold_overlaps(f1, f2)
    expect(expand(got) == expand(f1 + f2), lambda: f'fold_overlaps({f1!r}, {f2!r}) = {got!r}')
    expect(s1 == type(s1)(f1, bo, *((tuple(s1.actions),) if isinstance(s1, StructActionSerializer) else ())), lambda: f'{s1} not equal to itself rebuilt')


# ---------------------------------------------------------------- C07
def tamper(d, off, fmt, delta):
    v = _st.unpack_from(fmt, d, off)[0] + delta
    b = bytearray(d)
    try:
        _st.pack_into(fmt, b, off, v)
    except _st.error:
        return None
    return bytes(b)


def p_c07(r, seed, tag, rec):
    bo = r.choice(ORDERS)
    keys = ['k']
    item_t = item(r, 1, bo, keys) if tag[0] == 'rand' else list(leaf_types())[tag[1] % len(list(leaf_types()))]
    count = r.choice(UINT + [0, 1, 2, 3, 7])
    size = r.choice([None, 'B', 'H', 'I', 'Q'])
    arr = Arr(count, item_t, size)
    cd = ClassDesc([('k', Basic('B')), ('a', arr), ('z', Basic('H'))], bo)
    inst = inst_of(cd, r)
    k, d = attempt(lambda: cd.enc(inst))
    if k == 'ok':
        rec.see(cd, inst)
        for fn in (layout, layout_unpack, c02, c03, c04):
            fn(cd, inst, r)
        if size is not None:
            hf = bo.value + ('' if isinstance(count, int) else count) + size
            off = 1 + _st.calcsize(hf) - _st.calcsize('=' + size)
            for delta in (1, -1, 17):
                m = tamper(d, off, (bo.value if bo.value in '<>!' and bo.value else '=') + size, delta)
                if m is None: continue
                for un, u in unpackers(cd.cls, m) + inplace(cd.cls, m):
                    kk, v = attempt(u)
                    expect(kk == 'err' and isinstance(v, ValueError), lambda: f'{un}: data size off by {delta} gave {v!r:.100} for {where(cd, inst, m)}')
    # lengths
    if isinstance(count, int):
        good = inst.a
        for bad in (good[:-1] if good else good + [None], good + (good[:1] or [inst_item(item_t, r)])):
            inst.a = bad
            for pn, p in packers(inst) + [('pack_into', lambda: inst.pack_into(bytearray(100000), 0))]:
                kk, v = attempt(p)
                expect(kk == 'err', lambda: f'{pn} accepted {len(bad)} items for {cd!r}')
    if count == 'B' and isinstance(item_t, Basic) or r.random() < .2:
        cd = ClassDesc([('k', Basic('B')), ('a', Arr('B', Basic('h'), size)), ('z', Basic('H'))], bo)
        for n in (254, 255, 256, 257):
            i = cd.cls(1, list(range(n)), 5)
            kk, want = attempt(lambda: cd.enc(i))
            rec.see(cd, None, str(n))
            for pn, p in packers(i) if kk == 'ok' else [('pack', i.pack), ('pack_write', lambda: i.pack_write(io.BytesIO())), ('pack_into', lambda: i.pack_into(bytearray(9999), 0))]:
                k2, dd = attempt(p)
                expect(k2 == kk and (kk == 'err' or dd == want), lambda: f'{pn} with {n} items gave {dd!r:.80} for {cd!r}')
            if kk == 'ok':
                layout_unpack(cd, i, r)


def inst_item(t, r):
    e = Env(); e.keys = {'k': 0}
    import types as _t
    e.obj = _t.SimpleNamespace(k=0)
    return t.gen(r, e)


# ---------------------------------------------------------------- C08 / C09
def strings_case(r, seed, tag, rec, text):
    inner = r.choice([DynChar('B'), DynChar('H'), DynChar('I'), DynChar('Q'), Term(b'\0'), Term(b'H'), Term(b'\xff'), Net(), Char(r.choice([1, 3, 300])), Consume()])
    bo = r.choice(ORDERS)
    codec = None
    t = inner
    if text:
        codec = r.choice(['utf8', 'ascii', 'latin-1', 'rev', 'utf-16-le', 'add7'])
        if codec == 'utf-16-le' and isinstance(inner, Term): codec = 'utf8'
        if isinstance(inner, Char) and codec in ('rev', 'utf-16-le', 'add7'): codec = 'utf8'
        t = Uni(inner, codec)
    tail = [] if inner.final else [('z', Basic('H')), ('q', DynChar('B'))]
    shape = r.choice(['plain', 'tuple', 'array', 'nested'])
    ft = {'plain': t, 'tuple': Tup(Basic('B'), t), 'nested': Struct(C(bo, t)), 'array': t if inner.final else Arr('B', t)}[shape]
    cd = ClassDesc([('k', Basic('B')), ('s', ft)] + tail, bo)
    lens = inner.lens() if not isinstance(inner, Char) else None
    for j in range(4):
        inst = inst_of(cd, r, big=True)
        if lens and not text and shape == 'plain':
            n = r.choice(lens + [n for n in (255, 256, 257, 511, 512, 513, 1024, 65535) if n <= (1024 if isinstance(inner, Term) else inner.maxlen())])
            inst.s = gen_bytes(r, n, inner.t if isinstance(inner, Term) else b'')
            if isinstance(inner, Term) and j == 3:
                if r.random() < .5:
                    # a terminator inside the value ends it when it is read
                    cut = inst.s
                    inst.s = r.choice([inst.s, inst.s[:3]]) + inner.t + r.choice([b'', inner.t, inst.s[:5]]) + r.choice([b'q', b'\x07\x08'])
                    for pn, p in packers(inst):
                        k, v = attempt(p)
                        expect(k == 'ok' and v == cd.enc(inst), lambda: f'{pn} gave {v!r:.100} expected {hexs(cd.enc(inst))} for {where(cd, inst)}')
                    inst.s = cut
                inst.s = inst.s + inner.t      # already terminated
                rec.see(cd, inst)
                layout(cd, inst, r)
                d = cd.enc(inst)
                for un, u in unpackers(cd.cls, d) + inplace(cd.cls, d):
                    k, v = attempt(u)
                    expect(k == 'ok' and v.s == inst.s[:-1], lambda: f'{un} gave {v!r:.100} on {hexs(d)} of {where(cd, inst)}')
                continue
        rec.see(cd, inst)
        # (the package takes time proportional to the length, with a large factor)
        long_ = len(cd.enc(inst)) > 5000
        for fn in (layout, layout_unpack) if long_ else (layout, layout_unpack, c02, c03, c04):
            fn(cd, inst, r)
        if not inner.final and j < 2 and not long_:
            c17(cd, inst, r)
    if isinstance(inner, Term) and shape == 'plain':
        tm = inner.t
        body = (gen_bytes(r, r.choice([0, 1, 5, 255, 256, 257, 512]), tm))
        for un, u in unpackers(cd.cls, b'\x05' + body) + inplace(cd.cls, b'\x05' + body):
            k, v = attempt(u)
            expect(k == 'err' and isinstance(v, ValueError), lambda: f'{un}: missing terminator gave {v!r:.100} for {cd!r} data {hexs(b"5" + body)}')
        # the first terminator ends the string
        if not text:
            b2 = body + tm + body + tm + b'\0\0\0'
            rest = (body + tm + b'\0\0\0' + bytes(300))
            cd1 = ClassDesc([('k', Basic('B')), ('s', inner)], bo)
            for un, u in unpackers(cd1.cls, b'\x05' + b2):
                k, v = attempt(u)
                expect(k == 'ok' and v.s == body, lambda: f'{un} read past the first terminator: {v!r:.100} data {hexs(b2)}')
    if not text and shape == 'plain' and not isinstance(inner, (Char, Term, Consume)):
        for n in (256, 65536, 32768):
            if n <= inner.maxlen(): continue
            inst.s = b'x' * n
            for pn, p in (('pack', inst.pack), ('pack_write', lambda: inst.pack_write(io.BytesIO())), ('pack_into', lambda: inst.pack_into(bytearray(n + 100), 0))):
                k, v = attempt(p)
                expect(k == 'err', lambda: f'{pn} accepted {n} bytes in {cd!r}')


class Count(S.EncoderDecoder):
    log = []

    @classmethod
    def encode(cls, s):
        cls.log.append(('e', s))
        return s.encode('utf8')

    @classmethod
    def decode(cls, b):
        cls.log.append(('d', bytes(b), type(b)))
        return b.decode('utf8') if type(b) is bytes else '?'


def p_c09(r, seed, tag, rec):
    strings_case(r, seed, tag, rec, True)
    arg = r.choice([S.uint8, S.uint16, S.uint32, S.uint64, b'\0', S.NET, 20, math.inf])
    cls = types.new_class('T', (S.Structured,), {'byte_order': r.choice(ORDERS)}, lambda ns: ns['__annotations__'].update(k=S.uint8, t=S.unicode[arg, Count]))
    txt = ''.join(r.choices('abcé', k=r.randint(0, 9)))
    if txt.endswith('\0'): txt = 'x'
    o = cls(1, txt)
    rec.see2((str(arg), txt))
    raw = txt.encode('utf8')
    for pn, p in (('pack', o.pack), ('pack_into', lambda: o.pack_into(bytearray(100), 2)), ('pack_write', lambda: o.pack_write(io.BytesIO()))):
        Count.log.clear()
        p()
        expect(Count.log == [('e', txt)], lambda: f'{pn} of a text field called its codec {Count.log!r} for {txt!r}, length form {arg!r}')
    d = o.pack()
    exp = raw.ljust(20, b'\0') if arg == 20 else raw
    for un, f in (('unpack', lambda: cls.create_unpack(d)), ('unpack_from', lambda: cls.create_unpack_from(b'xx' + d, 2)), ('unpack_read', lambda: cls.create_unpack_read(io.BytesIO(d))),
                  ('unpack memoryview', lambda: cls.create_unpack(memoryview(d))), ('unpack bytearray', lambda: cls.create_unpack_from(bytearray(d)))):
        Count.log.clear()
        v = f()
        expect(v.t == txt and Count.log == [('d', exp, bytes)], lambda: f'{un} of a text field called its codec {Count.log!r} and gave {v.t!r} for {txt!r}, length form {arg!r}')
    # NUL handling and errors
    for t2 in ('a\0b', '\0a', ' a ', 'a\n', 'a\t ', '\0', '\0\0b\0', 'a\0\0', ' \0', '\ufeffx', 'x\0 '):
        if arg == b'\0': continue
        o.t = t2
        d = o.pack()
        for un, u in unpackers(cls, d) + inplace(cls, d):
            k, v = attempt(u)
            expect(k == 'ok' and v.t == t2.rstrip('\0'), lambda: f'{un}: text {t2!r} came back as {v!r:.100}, length form {arg!r}')
    asc = types.new_class('T', (S.Structured,), {}, lambda ns: ns['__annotations__'].update(k=S.uint8, t=S.unicode[arg, 'ascii']))
    o = asc(1, 'é')
    for pn, p in (('pack', o.pack), ('pack_into', lambda: o.pack_into(bytearray(100), 2)), ('pack_write', lambda: o.pack_write(io.BytesIO()))):
        k, v = attempt(p)
        expect(k == 'err' and isinstance(v, UnicodeError), lambda: f'{pn} swallowed an encoding error: {v!r}')
    d = asc(1, 'ab').pack().replace(b'a', b'\xe9')
    for un, u in [('unpack', lambda: asc.create_unpack(d)), ('unpack_from', lambda: asc.create_unpack_from(d)), ('unpack_read', lambda: asc.create_unpack_read(io.BytesIO(d)))]:
        k, v = attempt(u)
        expect(k == 'err' and isinstance(v, UnicodeError), lambda: f'{un} swallowed a decoding error: {v!r}')


# ---------------------------------------------------------------- C10 / C11
def unset(o, n):
    try:
        getattr(o, n)
        return False
    except AttributeError:
        return True


def p_c10(r, seed, tag, rec):
    bo = r.choice(ORDERS)
    nb = r.choice([0, 1, 2, 3])
    pre = [(f'p{i}', r.choice([basic(r), strty(r)]) ) for i in range(nb)] + [('k', Basic('B'))]
    pre = [(n, t) for n, t in pre]
    if r.random() < .3: pre.insert(0, ('_pad0', Pad(3)))
    post = [(f'q{i}', r.choice([basic(r), strty(r)])) for i in range(r.choice([0, 1, 2]))]
    keys = r.choice([[0, 1], [1, 2, 3], [5], [0, 255]])
    choices = {k: item(r, 1, bo, []) for k in keys}
    default = item(r, 1, bo, []) if r.random() < .5 else None
    seen = []
    said = r.choice([(), ODD, ODD[:2], ODD[2:], ('a', b'a', frozenset((1,)), (0, ''))])
    say = lambda k: said[k] if k < len(said) else k
    # a key selects by equality
    told = (lambda k: {0: False, 1: True}.get(k, float(k))) if not said and r.random() < .3 else say

    class U(Back):
        def hint(self):
            names = tuple(n for n, t in pre if t.nvals)

            def decider(o):
                seen.append(tuple(getattr(o, n, '<unset>') for n in names))
                return told(o.k)
            tys = list(choices.values()) + ([default] if default else [])
            u = Union[tuple([t.hint() for t in tys] + [S.uint8, S.float64])]
            return Annotated[u, S.LookbackDecider(decider, {say(k): t.hint() for k, t in choices.items()}, default.hint() if default else None)]

    u = U('k', choices, default)
    wrap = r.choice(['plain', 'plain', 'tuple', 'array', 'cond', 'nested union'])
    ft = {'plain': u, 'tuple': Tup(Basic('B'), u), 'array': Arr('B', u), 'cond': Cond('k', lambda v: True, u, None), 'nested union': Back('k', {7: Basic('B')}, u)}[wrap]
    cd = ClassDesc(pre + [('u', ft)] + post, bo)
    cd.cls
    every = []
    for kv in (keys if default is None else keys + [77, 78]):
        if wrap == 'nested union' and kv == 7: continue
        Basic_gen = pre[-1][1]
        pre[-1][1].gen = lambda r, env, kv=kv: kv
        inst = inst_of(cd, r)
        expvals = tuple(getattr(inst, n) for n, t in pre if t.nvals)
        rec.see(cd, inst)
        for pn, p in packers(inst):
            seen.clear()
            k, d = attempt(p)
            expect(k == 'ok' and d == cd.enc(inst), lambda: f'{pn} gave {d!r:.200} expected {hexs(cd.enc(inst))} for {where(cd, inst)}')
            expect(all(same(a, b) for s in seen for a, b in zip(s, expvals)), lambda: f'decider saw {seen!r} while packing {where(cd, inst)}')
        d = cd.enc(inst)
        for post_ in posts(cd, r):
            for un, f in unpackers(cd.cls, d, post=post_) + inplace(cd.cls, d, post=post_):
                seen.clear()
                k, v = attempt(f)
                expect(k == 'ok' and same(v, inst), lambda: f'{un} gave {show(v) if k == "ok" else v!r} on {hexs(d)}, expected {show(inst)}, class {cd!r}')
                if un.startswith('create'):
                    expect(all(same(a, b) for s in seen for a, b in zip(s, expvals)), lambda: f'decider saw {seen!r} while unpacking {where(cd, inst)} with {un}')
        c04(cd, inst, r)
        every.append(inst)
    if every: mixed(cd, every, r, 20)
    del pre[-1][1].gen
    if default is None:
        inst = inst_of_key(cd, pre, r, keys[0])
        empty = wrap == 'array' and not inst.u
        inst.k = 99
        if not empty and wrap != 'nested union':
            for pn, p in (('pack', inst.pack), ('pack_into', lambda: inst.pack_into(bytearray(50000), 0)), ('pack_write', lambda: inst.pack_write(io.BytesIO()))):
                k, v = attempt(p)
                expect(k == 'err' and isinstance(v, ValueError), lambda: f'{pn} of an unmapped decision gave {v!r:.100}, class {cd!r}')
            inst.k = keys[0]
            d = bytearray(cd.enc(inst))
            inst.k = 99
            off = len(enc_seq([t for _, t in pre], [getattr(inst, n) for n, t in pre if t.nvals], bo, inst)) - 1
            d[off] = 99
            for un, f in unpackers(cd.cls, bytes(d)) + inplace(cd.cls, bytes(d)):
                k, v = attempt(f)
                expect(k == 'err' and isinstance(v, ValueError), lambda: f'{un} of an unmapped decision gave {v!r:.100}, class {cd!r}')
    # look ahead
    name = 'a'
    ah = ahead(r, name, bo)
    wrapa = r.choice(['plain', 'tuple'])
    cd = ClassDesc([('k', Basic('B')), ('s', DynChar('B')), ('a', ah)] + post, bo)
    for _ in range(3):
        inst = inst_of(cd, r)
        rec.see(cd, inst)
        for fn in (layout, layout_unpack, c04, c03):
            fn(cd, inst, r)
    mixed(cd, [inst, inst_of(cd, r), inst_of(cd, r)], r)
    if ah.default is None and (isinstance(ah.kt, Char) or isinstance(ah.kt, Basic) and ah.kt.c == 'B'):
        d = bytearray(cd.enc(inst))
        off = 2 + len(inst.s)
        d[off] = 9
        for un, f in unpackers(cd.cls, bytes(d)) + inplace(cd.cls, bytes(d)):
            k, v = attempt(f)
            expect(k == 'err' and isinstance(v, ValueError), lambda: f'{un} of an unmapped look-ahead key gave {v!r:.100}, class {cd!r}')
    # a multi-value key read ahead
    kt = r.choice([Tup(Basic('B'), Basic('H')), DynChar('B'), Net(), Uni(DynChar('H'), 'utf8'), Basic('I'), Arr(2, Basic('B'))])
    e = Env()
    kv = kt.gen(r, e)
    if not isinstance(kv, list):
        body = Struct(ClassDesc([('sig', kt), ('v', Basic('h'))], bo))
        other = Struct(ClassDesc([('sig', kt), ('w', Basic('d'))], bo))
        a2 = Ahead('a', kt, {kv: body}, other)
        cd = ClassDesc([('k', Basic('B')), ('a', a2)] + post, bo)
        for _ in range(2):
            inst = inst_of(cd, r)
            rec.see(cd, inst)
            for fn in (layout, layout_unpack, c04):
                fn(cd, inst, r)


def inst_of_key(cd, pre, r, kv):
    pre[-1][1].gen = lambda r, env: kv
    try:
        return inst_of(cd, r)
    finally:
        del pre[-1][1].gen


def p_c11(r, seed, tag, rec):
    bo = r.choice(ORDERS)
    pre = [(f'p{i}', r.choice([basic(r), strty(r)])) for i in range(r.choice([0, 1, 2]))] + [('k', Basic('B'))]
    post = [(f'q{i}', r.choice([basic(r), strty(r)])) for i in range(r.choice([0, 1, 2]))]
    fin = r.random() < .15
    if fin: post = []
    seen = []
    inner = Consume() if fin else item(r, 1, bo, ['k']) if r.random() < .8 else strty(r)
    deflt = r.choice([0, -1, None, b'', 'dflt', [], (1, 2)])
    kinds = [lambda v: v > 2, lambda v: v & 4, lambda v: [v] * (v > 2), lambda v: None if v < 3 else 'yes', lambda v: '' if v < 3 else 0.5, lambda v: v - 3]
    kind = r.choice(kinds)
    names = tuple(n for n, t in pre if t.nvals)

    class Cd(Cond):
        def hint(self):
            def test(o):
                seen.append(tuple(getattr(o, n, '<unset>') for n in names))
                return kind(o.k)
            return Annotated[self.inner.hint(), S.Condition(test, self.default)]
    c = Cd('k', kind, inner, deflt, f'kind{kinds.index(kind)}')
    wrap = r.choice(['plain', 'plain', 'tuple', 'union', 'two', 'pad'])
    fields = {'plain': [('c', c)], 'tuple': [('c', Tup(Basic('B'), c))], 'union': [('c', Back('k', {250: Basic('B')}, c))],
              'two': [('c', c), ('c2', Cond('k', lambda v: v < 3, Basic('I'), 9))], 'pad': [('c', c)]}[wrap]
    if fin: fields = [('c', c)]
    cd = ClassDesc(pre + fields + post, bo)
    every = []
    for kv in (0, 5, 1, 255, 2, 4, 3):
        inst = inst_of_key(cd, pre, r, kv)
        every.append(inst)
        ev = tuple(getattr(inst, n) for n in names)
        rec.see(cd, inst)
        seen.clear()
        layout(cd, inst, r)
        expect(all(same(a, b) for s in seen for a, b in zip(s, ev)), lambda: f'condition saw {seen!r} while packing {where(cd, inst)}')
        d = cd.enc(inst)
        for un, f in unpackers(cd.cls, d):
            seen.clear()
            k, v = attempt(f)
            expect(k == 'ok' and same(v, inst), lambda: f'{un} gave {show(v) if k == "ok" else v!r} on {hexs(d)}, expected {show(inst)}, class {cd!r}')
            expect(all(same(a, b) for s in seen for a, b in zip(s, ev)), lambda: f'condition saw {seen!r} while unpacking {where(cd, inst)} with {un}')
        layout_unpack(cd, inst, r)
        c02(cd, inst, r)
        c04(cd, inst, r)
        if not fin: c17(cd, inst, r)
        if not kind(kv) and wrap == 'plain':
            # when absent the value is not looked at, and the field may hold anything
            setattr(inst, 'c', object())
            k, dd = attempt(inst.pack)
            expect(k == 'ok' and dd == d, lambda: f'absent conditional field changed the packed bytes: {dd!r:.100} for {cd!r}')
    if wrap != 'plain': mixed(cd, every, r, 30)
    # conditional padding
    n = r.choice([1, 2, 5])
    cls = types.new_class('P', (S.Structured,), {'byte_order': bo}, lambda ns: ns['__annotations__'].update(
        k=S.uint8, _p=Annotated[S.pad[n], S.Condition(lambda o: o.k > 2)], z=S.uint8))
    expect(cls.attrs == ('k', 'z'), lambda: f'conditional padding is a field: {cls.attrs}')
    for kv in (1, 3, 1):
        o = cls(kv, 9)
        want = bytes([kv]) + bytes(n if kv > 2 else 0) + b'\x09'
        rec.see2(('cond pad', n, kv))
        expect(o.pack() == want and cls.create_unpack(want) == o, lambda: f'conditional padding of {n}: {o.pack()!r} expected {want!r}')


# ---------------------------------------------------------------- C12
def finals(r, depth=0):
    """(descriptor, is_final)"""
    k = r.random()
    if depth > 2 or k < .3:
        return r.choice([(Consume(), True), (Uni(Consume()), True), (Basic('I'), False), (Net(), False), (DynChar('B'), False), (Uni(Term()), False), (Char(3), False)])
    t, f = finals(r, depth + 1)
    if k < .45: return Tup(Basic('B'), t), f
    if k < .55: return Tup(t), f
    if k < .7: return Struct(C(r.choice(ORDERS), Basic('H'), t)), f
    if k < .8:
        o = Basic('H')
        ch = r.choice([{0: o, 1: t}, {0: t, 1: o}, {3: t}])
        return Back('k', ch, r.choice([None, o])), f
    if k < .87: return Back('k', {0: Basic('H'), 1: Net()}, t), f
    if k < .93: return Cond('k', lambda v: True, t, None), f
    if depth == 0:
        b = ClassDesc([('sig', Basic('B')), ('v', t)], ByteOrder.DEFAULT)
        n = ClassDesc([('sig', Basic('B')), ('v', Basic('H'))], ByteOrder.DEFAULT)
        return r.choice([Ahead('a', Basic('B'), {0: Struct(n), 1: Struct(b)}), Ahead('a', Basic('B'), {0: Struct(n)}, Struct(b))]), f
    return Tup(Basic('B'), Tup(t)), f


def p_c12(r, seed, tag, rec):
    bo = r.choice(ORDERS)
    t, f = finals(r)
    pre = [('k', Basic('B'))] + [(f'p{i}', r.choice([basic(r), strty(r)])) for i in range(r.choice([0, 1]))]
    nx = r.choice([Basic('B'), Pad(1), DynChar('H'), Net(), Term(), Arr('B', Basic('H')), Arr(2, Net()), Tup(Basic('B')), Struct(C(bo, Basic('B'))), Consume(),
                   Uni(DynChar('B')), Cond('k', lambda v: 1, Basic('B'), 0), Back('k', {0: Basic('B')}), Custom('H', 0), Char(2)])
    cd = ClassDesc(pre + [('t', t)], bo)
    rec.see(cd)
    k, c = attempt(lambda: cd.cls)
    expect(k == 'ok', lambda: f'{cd!r}: a read-to-end field in the last place was refused: {c!r}')
    ser = annotated.transform(t.hint())
    expect(ser.is_final() is f and (ser.get_final() is not None) is f, lambda: f'{t!r} reports is_final() {ser.is_final()}')
    expect(c.serializer.is_final() is f, lambda: f'{cd!r} reports is_final() {c.serializer.is_final()}')
    s2 = ser.with_byte_order(ByteOrder.BE)
    expect(s2.is_final() is f, lambda: f'{t!r} with_byte_order reports is_final() {s2.is_final()}')
    def refused(g, what):
        k, v = attempt(g)
        if f:
            expect(k == 'err' and isinstance(v, TypeError), lambda: f'{what} was accepted ({v!r:.100})')
        else:
            expect(k == 'ok', lambda: f'{what} was refused ({v!r:.200})')
    for follow in ([('n', nx)], [('n', nx), ('m', Basic('H'))], [('n', Basic('H')), ('m', nx)]):
        if f or not any(x.final for _, x in follow[:-1]):
            c2 = ClassDesc(pre + [('t', t)] + follow, bo)
            refused(lambda: c2.cls, f'class {c2!r}')
    if not nx.final and nx.nvals:
        refused(lambda: ClassDesc(pre + [('tt', Tup(t, nx))], bo).cls, f'tuple {[t, nx]!r}')
        refused(lambda: ClassDesc([], bo, base=cd).cls and ClassDesc([('n', nx)], bo, base=cd).cls, f'subclass adding {nx!r} of {cd!r}')
    h = t.hint()
    refused(lambda: S.array[S.Header[S.uint8], h], f'array item {t!r}')
    refused(lambda: S.array[S.Header[2, S.uint8], h], f'array item {t!r}')
    refused(lambda: ser + annotated.transform(nx.hint()), f'{t!r} + {nx!r}')
    if nx.nvals and not nx.final:
        refused(lambda: (annotated.transform(nx.hint()) + ser) + StructSerializer('B'), f'({nx!r} + {t!r}) + uint8')
        refused(lambda: annotated.transform(nx.hint()) + (ser + StructSerializer('B')), f'{nx!r} + ({t!r} + uint8)')
    # removal and in-place replacement in a subclass are judged on the result
    c3 = ClassDesc([('t', None), ('n', Basic('H'))], bo, base=cd)
    k, v = attempt(lambda: c3.cls)
    expect(k == 'ok', lambda: f'{c3!r} refused: {v!r}')


# ---------------------------------------------------------------- C13 / C14 / C20
class Junk:
    pass


UNSER = [int, str, Optional[int], list[int], 'ClassVar', dict, Junk, Union[int, str], bytes, float, typing.Tuple, tuple[()], tuple[int, ...], typing.Annotated[int, 'note'], typing.Any]


# names the package itself uses, and others a field may have
FIELD_NAMES = [n for n in NAMES if n != 'helper'] + ['size', 'data', 'count', 'name', 'type', 'id', 'format', 'x_', '_x', 'pad', 'x_pad_', 'pad_', 'e0_pad_', 'é', 'X', 'None_', 'values', 'length',
                                                     'version', 'flags', 'a' * 80]


def rand_body(r, i):
    """list of (name, descriptor | None | junk hint)"""
    out, used = [], set()
    for j in range(r.choice([0, 1, 2, 3, 5])):
        k = r.random()
        n = r.choice('abcdefghjklm') + (str(j) if r.random() < .5 else '') if r.random() < .7 else r.choice(FIELD_NAMES)
        if n in used: continue
        used.add(n)
        if k < .12: out.append((f'_pad{i}_{j}', Pad(r.choice([1, 2, 3, 10, 256, 300]))))
        elif k < .3: out.append((n, ('junk', r.choice(UNSER))))
        else: out.append((n, r.choice([basic(r), strty(r), Arr('B', Basic('H')), Tup(Basic('B'), Net())])))
    return out


def p_c13(r, seed, tag, rec):
    bo = r.choice(ORDERS)
    levels = r.choice([1, 1, 2, 3])
    cls, fields = S.Structured, {}
    log = []
    kw = dict(byte_order=bo)
    removed = set()
    for lv in range(levels):
        body = rand_body(r, lv)
        if lv:
            for n in list(fields):
                k = r.random()
                if n.startswith('_pad'): continue
                if k < .15:
                    body.append((n, None)); removed.add(n)
                elif k < .35:
                    body.append((n, r.choice([basic(r), strty(r)])))
        seen = set()
        body = [(n, t) for n, t in body if not (n in seen or seen.add(n)) and not (n in removed and t is not None)]
        for n, t in body:
            if t is None or isinstance(t, tuple): fields.pop(n, None); removed.add(n)
            else: fields[n] = t
        post = r.random() < .5

        def fill(ns, body=body, lv=lv):
            for n, t in body:
                h = None if t is None else (ClassVar[S.uint8] if t[1] == 'ClassVar' else t[1]) if isinstance(t, tuple) else t.hint()
                ns['__annotations__']['_' if n.startswith('_pad') else n] = h

            def __post_init__(self):
                log.append({n: self.__dict__.get(n, '<unset>') for n in self.attrs})
            ns['__post_init__'] = __post_init__
            ns['helper'] = lambda self: 1
        try:
            cls = types.new_class(f'L{lv}', (cls,), kw, fill)
        except Exception as e:
            raise Bad(f'class body {body!r} over {fields!r} raised {e!r}')
    names = tuple(n for n, t in fields.items() if t.nvals)
    cd = ClassDesc(list(fields.items()), bo)
    what = lambda: f'{levels} level class with expected fields {fields!r} ({bo.name})'
    rec.see(cd)
    expect(cls.attrs == names, lambda: f'attrs {cls.attrs}, expected {names} for {what()}')
    sig = tuple(inspect.signature(cls.__init__).parameters)
    expect(sig == ('self',) + names, lambda: f'constructor takes {sig}, expected {names} for {what()}')
    cd._cls, cls._desc = cls, cd
    vals = {}
    e = Env()
    for n in names: vals[n] = fields[n].gen(r, e)
    half = r.randint(0, len(names))
    ks = list(names[half:]); r.shuffle(ks)
    log.clear()
    o = cls(*[vals[n] for n in names[:half]], **{n: vals[n] for n in ks})
    expect(len(log) == 1 and all(same(log[0].get(n), vals[n]) for n in names), lambda: f'__post_init__ saw {log!r} for {what()}')
    for n in names:
        expect(getattr(o, n) is vals[n], lambda: f'constructor stored {getattr(o, n)!r} in {n}, given {vals[n]!r}, {what()}')
    expect(set(vars(o)) == set(names), lambda: f'constructor set {set(vars(o))}, expected {set(names)}, {what()}')
    for bad in ([lambda: cls(*[0] * (len(names) + 1))] + ([lambda: cls(*[0] * (len(names) - 1))] if names else []) + [lambda: cls(nonexistent=1)]):
        k, v = attempt(bad)
        expect(k == 'err' and isinstance(v, TypeError), lambda: f'constructor accepted wrong arguments, {what()}')
    want = cd.enc(o)
    k, d = attempt(o.pack)
    expect(k == 'ok' and d == want, lambda: f'pack gave {d!r:.200} expected {hexs(want)} for {what()}')
    log.clear()
    v = cls.create_unpack(want)
    expect(same(v, o) and len(log) == 1, lambda: f'create_unpack gave {show(v)} (post_init ran {len(log)} times) for {what()}')
    expect(all(same(log[0][n], vals[n]) for n in names), lambda: f'post_init after unpacking saw {log!r}')
    log.clear()
    cls.create_unpack_from(want); cls.create_unpack_read(io.BytesIO(want))
    expect(len(log) == 2, lambda: f'post_init ran {len(log)} times in two unpackings')
    o.unpack(want)
    expect(len(log) == 2, lambda: 'post_init ran while unpacking in place')
    # init=False keeps the class's own constructor
    import dataclasses
    c2 = types.new_class('D', (S.Structured,), {'init': False, 'byte_order': bo}, lambda ns: ns['__annotations__'].update({n: fields[n].hint() for n in names}))
    expect(c2.attrs == names and '__init__' not in vars(c2), lambda: 'init=False')
    c2 = dataclasses.dataclass(c2)
    expect([f.name for f in dataclasses.fields(c2)] == list(names), lambda: 'dataclass fields')


def p_c14(r, seed, tag, rec):
    b1, b2 = ORDERS[seed % 6], ORDERS[seed // 6 % 6]
    base = ClassDesc([('k', Basic('B'))] + rand_fields(r, 1, b1, r.choice([1, 2]), False, 'base'), b1)
    base.cls
    own = rand_fields(r, 1, b2, r.choice([0, 1, 2]), False, 'own') if seed % 5 else []
    if r.random() < .3: own = own + [('k', Basic('H'))] if not own else own
    bi = inst_of(base, r)
    enc0, attrs0, ser0, ann0 = base.enc(bi), base.cls.attrs, base.cls.serializer, dict(base.cls.__annotations__)
    expect(bi.pack() == enc0, lambda: f'pack of {base!r}')
    rec.see2((b1.name, b2.name, repr(base.fields), repr(own)))
    what = lambda: f'deriving {own!r} ({b2.name}) from {base!r}'
    for mode in ('strict', 'override', 'default'):
        sub = ClassDesc(own, b2, base=base, kw={} if mode == 'default' else {'byte_order_mode': S.ByteOrderMode(mode)})
        k, c = attempt(lambda: sub.cls)
        if b1 is not b2 and mode != 'override':
            expect(k == 'err' and isinstance(c, ValueError), lambda: f'{what()} mode {mode} gave {c!r} instead of ValueError')
        else:
            expect(k == 'ok', lambda: f'{what()} mode {mode} raised {c!r}')
            expect(c.byte_order is b2, lambda: f'{what()}: byte_order is {c.byte_order}')
            inst = inst_of(sub, r)
            layout(sub, inst, r)
            layout_unpack(sub, inst, r)
            # a third level is judged against its direct base
            k, c3 = attempt(lambda: ClassDesc([('zz', Basic('I'))], b2, base=sub).cls)
            expect(k == 'ok', lambda: f'{what()}: third level with the same order raised {c3!r}')
            b3 = r.choice([b for b in ORDERS if b is not b2])
            k, c3 = attempt(lambda: ClassDesc([('zz', Basic('I'))], b3, base=sub).cls)
            expect(k == 'err' and isinstance(c3, ValueError), lambda: f'{what()}: third level with {b3.name} gave {c3!r}')
        expect(base.cls.attrs == attrs0 and base.cls.serializer is ser0 and base.cls.byte_order is b1 and dict(base.cls.__annotations__) == ann0 and bi.pack() == enc0,
               lambda: f'{what()} changed the base class')
    if b2 is not ByteOrder.DEFAULT:
        pass
    other = ClassDesc([('x', Basic('H'))], b1)
    class Mix: pass
    for bases in ((base.cls, other.cls), (other.cls, base.cls), (base.cls, Mix, other.cls), (Mix, other.cls, base.cls)):
        k, v = attempt(lambda: types.new_class('M', bases, {'byte_order': b1}))
        expect(k == 'err' and isinstance(v, TypeError), lambda: f'two serializable bases gave {v!r}')
        k, v = attempt(lambda: types.new_class('M', bases, {'byte_order': b1, 'byte_order_mode': S.ByteOrderMode.OVERRIDE}))
        expect(k == 'err' and isinstance(v, TypeError), lambda: f'two serializable bases gave {v!r}')
    for bases in ((base.cls, Mix), (Mix, base.cls)):
        k, v = attempt(lambda: types.new_class('M', bases, {'byte_order': b1}))
        expect(k == 'ok' and v.attrs == attrs0, lambda: f'plain mixin base refused: {v!r}')


def differ(v):
    if isinstance(v, bool): return not v
    if isinstance(v, (int, float)): return v + 1
    if isinstance(v, bytes): return v + b'x'
    if isinstance(v, str): return v + 'x'
    if isinstance(v, list): return v + [1]
    if isinstance(v, tuple): return v + (1,)
    if isinstance(v, W): return type(v)(v.v + 1)
    return 'something else' if v is None else None


class Never:
    def __eq__(self, o): return False
    def __hash__(self): return 0


class Always:
    def __eq__(self, o): return True
    def __hash__(self): return 0


def p_c20(r, seed, tag, rec):
    cd = class_case(r, seed, tag)
    inst = inst_of(cd, r)
    rec.see(cd, inst)
    names = cd.names
    vals = [getattr(inst, n) for n in names]
    c = cd.cls
    a, b = c(*vals), c(*vals)
    w = where
    expect(a == b and b == a and not (a != b) and a == a, lambda: f'equal instances compare unequal: {w(cd, inst)}')
    back = c.create_unpack(inst.pack()) if not in_final_self(cd) else b
    expect(a == back, lambda: f'unpacked instance is not equal: {w(cd, inst)}')
    for n, v in zip(names, vals):
        x = differ(v)
        setattr(b, n, x)
        expect(not (a == b) and not (b == a) and a != b and b != a, lambda: f'instances differing in {n} compare equal: {w(cd, inst)}')
        setattr(b, n, v)
    for x in (Never(), float('nan')):
        for n, v in zip(names, vals):
            setattr(a, n, x)
            setattr(b, n, x)
            expect(not (a == b) and a != b and not (a == a), lambda: f'instances compare equal although their values of {n} do not: {w(cd, inst)}')
            setattr(a, n, v)
            setattr(b, n, v)
    for n, v in zip(names, vals):
        setattr(a, n, Always())
        expect(a == b and not (a != b), lambda: f'instances compare unequal although their values of {n} are equal: {w(cd, inst)}')
        setattr(a, n, v)
    b.extra = 1
    expect(a == b, lambda: f'an unserialized attribute took part in ==: {w(cd, inst)}')
    sub = types.new_class('Sub', (c,), {'byte_order': cd.bo})
    s = sub(*vals)
    expect(not (a == s) and not (s == a) and a != s, lambda: f'subclass instance compares equal: {w(cd, inst)}')
    twin = types.new_class(cd.name, (S.Structured,), {'byte_order': cd.bo}, lambda ns: ns['__annotations__'].update({n: t.hint() for n, t in cd.fields}))
    if not any(isinstance(x, SelfT) for _, f in cd.fields for x in walk(f)):
        t = twin(*vals)
        expect(not (a == t) and a != t, lambda: f'instance of another class compares equal: {w(cd, inst)}')
    for o in (None, 1, tuple(vals), vals, object(), inst.pack()):
        expect(not (a == o) and a != o, lambda: f'compares equal to {o!r}: {w(cd, inst)}')
    txt = f'{cd.name}(' + ', '.join(f'{n}={v}' for n, v in zip(names, vals)) + ')'
    expect(str(a) == txt and repr(a) == f'<{txt}>', lambda: f'text is {str(a)!r}, expected {txt!r}')
    for n in names[:1]:
        setattr(a, n, 'changed')
        expect(str(a).startswith(f'{cd.name}({n}=changed'), lambda: f'text does not show the current value: {str(a)[:80]}')


# ---------------------------------------------------------------- C15
T = TypeVar('T')
U = TypeVar('U')
V = TypeVar('V')


class Shape:
    """a hint over type variables: `hint(env)` with env TypeVar -> hint or TypeVar,
    and the same thing written out as a descriptor, `ty(env)` with env TypeVar -> struct char"""

    def __init__(self, text, hint, ty): self.text, self.hint, self.ty = text, hint, ty
    def __repr__(self): return self.text


class NestedGeneric:
    def __init__(self, name, params, fields, bo):
        self.name, self.params, self.fields, self.bo = name, params, fields, bo
        self.cls = types.new_class(name, (S.Structured, Generic[params]), {'byte_order': bo},
                                   lambda ns: ns['__annotations__'].update({n: s.hint({p: p for p in params}) for n, s in fields.items()}))
        self.made = {}

    def ty(self, *chars):
        if chars not in self.made:
            e = dict(zip(self.params, chars))
            self.made[chars] = ClassDesc([(n, s.ty(e)) for n, s in self.fields.items()], self.bo)
        return Struct(self.made[chars])


def var(a): return Shape(a.__name__, lambda e: e[a], lambda e: e[a] if isinstance(e[a], Ty) else Basic(e[a]))


def gen_shapes(r, tv, depth=0, nested=()):
    a, b = r.choice(tv), r.choice(tv)
    k = r.randrange(10 if depth < 2 else 3)
    sub = lambda: gen_shapes(r, tv, depth + 1, nested)
    A, B = a.__name__, b.__name__
    if k == 0: return var(a)
    if k == 1: return Shape('uint16', lambda e: S.uint16, lambda e: Basic('H'))
    if k == 2: return Shape(f'char[{A}]', lambda e: S.char[e[a]], lambda e: DynChar(e[a]))
    if k == 3:
        x, y = sub(), sub()
        return Shape(f'tuple[{x}, {y}]', lambda e: Tuple[x.hint(e), y.hint(e)], lambda e: Tup(x.ty(e), y.ty(e)))
    if k == 4:
        x = sub()
        return Shape(f'array[Header[2], {x}]', lambda e: S.array[S.Header[2], x.hint(e)], lambda e: Arr(2, x.ty(e)))
    if k == 5:
        x = sub()
        return Shape(f'array[Header[{A}], {x}]', lambda e: S.array[S.Header[e[a]], x.hint(e)], lambda e: Arr(e[a], x.ty(e)))
    if k == 6:
        x = sub()
        return Shape(f'array[Header[{A}, {B}], {x}]', lambda e: S.array[S.Header[e[a], e[b]], x.hint(e)], lambda e: Arr(e[a], x.ty(e), e[b]))
    if k == 7: return Shape(f'unicode[{A}]', lambda e: S.unicode[e[a], 'utf8'], lambda e: Uni(DynChar(e[a]), 'utf8'))
    if k == 8 and nested:
        n = r.choice(nested)
        ps = [a, b][:len(n.params)]
        return Shape(f'{n.name}[{", ".join(p.__name__ for p in ps)}]', lambda e: n.cls[tuple(e[p] for p in ps)], lambda e: n.ty(*[e[p] for p in ps]))
    return Shape(f'array[Header[3, {B}], {A}]', lambda e: S.array[S.Header[3, e[b]], e[a]], lambda e: Arr(3, Basic(e[a]), e[b]))


def soft_shapes(r, tv, depth=0, nested=()):
    """hints in which a variable may stand for any hint with one value"""
    a = r.choice(tv)
    k = r.randrange(6 if depth < 2 else 2)
    sub = lambda: soft_shapes(r, tv, depth + 1, nested)
    if k < 2 and (depth or k): return var(a)
    if k == 2:
        x, y = sub(), sub()
        return Shape(f'tuple[{x}, {y}]', lambda e: Tuple[x.hint(e), y.hint(e)], lambda e: Tup(x.ty(e), y.ty(e)))
    if k == 3 and nested:
        n = r.choice(nested)
        ps = [sub() for _ in n.params]
        return Shape(f'{n.name}[{", ".join(map(repr, ps))}]', lambda e: n.cls[tuple(p.hint(e) for p in ps)], lambda e: n.ty(*[p.ty(e) for p in ps]))
    x = sub()
    h = r.choice([2, 'B', 'H'])
    return Shape(f'array[Header[{h}], {x}]', lambda e: S.array[S.Header[h if h == 2 else Basic(h).hint()], x.hint(e)], lambda e: Arr(h, x.ty(e)))


def composite_generics(r, bo, rec, newcls):
    """variables standing for hints that are themselves generic"""
    nb = r.choice(ORDERS)
    N1 = NestedGeneric('S1', (T,), {'n0': var(T), 'n1': soft_shapes(r, [T], 1)}, nb)
    N2 = NestedGeneric('S2', (U, T), {'m0': soft_shapes(r, [T, U], 1, (N1,)), 'm1': var(U)}, nb)
    own = {'a0': Shape('uint8', lambda e: S.uint8, lambda e: Basic('B'))}
    own.update({f'f{i}': soft_shapes(r, [T, U], 0, (N1, N2)) for i in range(r.choice([1, 2]))})
    own['last'] = var(U)
    X, Y, Z = soft_shapes(r, [T, U], 1, (N1, N2)), soft_shapes(r, [T, U], 0, (N1,)), soft_shapes(r, [T, U], 0, (N1, N2))
    ident = {T: T, U: U}
    tys = {T: Basic(r.choice(UINT)), U: r.choice([Basic(r.choice(UINT)), DynChar('B'), Tup(Basic('B'), Basic('H'))])}
    hs = {k: t.hint() for k, t in tys.items()}
    desc = f'generic class {own} ({bo.name}; nested {nb.name}: S1 {N1.fields}, S2 {N2.fields}) as base [{X}, {Y}] with field {Z}, T={hs[T]} U={hs[U]}'
    rec.see2(desc)
    what = lambda: desc
    kind = r.choice(['through a base', 'through two bases', 'concrete'])
    def make():
        G = newcls('G', (S.Structured, Generic[T, U]), {n: s.hint(ident) for n, s in own.items()}, bo)
        if kind == 'concrete':
            return newcls('C', (G[X.hint(hs), Y.hint(hs)],), {'z': Z.hint(hs)}, bo)
        M = newcls('M', (G[X.hint(ident), Y.hint(ident)], Generic[T, U]), {'z': Z.hint(ident)}, bo)
        if kind == 'through two bases':
            M = newcls('M2', (M[T, U], Generic[T, U]), {}, bo)
        return newcls('C', (M[hs[T], hs[U]],), {}, bo)
    k, C = attempt(make)
    expect(k == 'ok', lambda: f'specializing {kind} raised {C!r:.300}: {desc}')
    inner = {T: X.ty(tys), U: Y.ty(tys)}
    fields = {n: s.ty(inner) for n, s in own.items()}
    fields['z'] = Z.ty(tys)
    compare_classes(C, ClassDesc(list(fields.items()), bo), r, what, kind)


def plain(v):
    """value with specialised classes reduced to their fields"""
    if isinstance(v, S.Structured): return ('obj', tuple((n, plain(getattr(v, n))) for n in v.attrs))
    if isinstance(v, (list, tuple)): return (type(v).__name__, tuple(map(plain, v)))
    return (type(v).__name__, v)


def p_c15(r, seed, tag, rec):
    bo = r.choice(ORDERS)
    nb = r.choice(ORDERS)
    ident = {T: T, U: U, V: V}
    hints = lambda chars: {k: Basic(c).hint() for k, c in chars.items()}
    def newcls(name, bases, anns, order):
        return types.new_class(name, bases, {'byte_order': order}, lambda ns: ns['__annotations__'].update(anns))
    composite_generics(r, bo, rec, newcls)
    N1 = NestedGeneric('N1', (T,), {'n0': var(T), 'n1': gen_shapes(r, [T], 1)}, nb)
    N2 = NestedGeneric('N2', (T, U), {'m0': var(T), 'm1': gen_shapes(r, [T, U], 1), 'm2': var(U)}, nb)
    own = {'a0': Shape('uint8', lambda e: S.uint8, lambda e: Basic('B'))}
    own.update({f'f{i}': gen_shapes(r, [T, U], 0, (N1, N2)) for i in range(r.choice([1, 2, 3]))})
    own['last'] = var(U)
    args = {T: r.choice(UINT), U: r.choice(UINT)}
    desc = f'generic class {own} with T={args[T]} U={args[U]} ({bo.name}; nested {nb.name}: N1 {N1.fields}, N2 {N2.fields})'
    rec.see2(desc)
    what = lambda: desc
    k, G = attempt(lambda: newcls('G', (S.Structured, Generic[T, U]), {n: s.hint(ident) for n, s in own.items()}, bo))
    expect(k == 'ok', lambda: f'defining the generic class raised {G!r}; {desc}')
    ha = hints(args)
    extra, extra_ty = {}, {}
    if r.random() < .3: extra['a0'], extra_ty['a0'] = S.uint32, Basic('I')
    if r.random() < .3: extra['f0'], extra_ty['f0'] = S.char[S.uint8], DynChar('B')
    if r.random() < .5: extra['zz'], extra_ty['zz'] = S.uint16, Basic('H')
    kind = r.choice(['direct', 'two level', 'renamed', 'implicit', 'partial', 'redefined below'])
    # redefinitions in terms of the type variables of the class in between
    between = {'two level': {T: args[T]}, 'renamed': {T: args[U], V: args[T]}, 'implicit': {T: args[T], U: args[U]}}.get(kind, {})
    if between and r.random() < .6:
        for n in r.sample(['last', 'a0', 'f0', 'yy'], r.choice([1, 1, 2])):
            s = var(r.choice(list(between))) if r.random() < .6 else gen_shapes(r, list(between), 1)
            extra[n], extra_ty[n] = s.hint(ident), s.ty(between)
    def spec():
        if kind == 'direct':
            return newcls('C', (G[ha[T], ha[U]],), extra, bo)
        if kind == 'two level':
            M = newcls('M', (G[T, ha[U]], Generic[T]), extra, bo)
            return newcls('C', (M[ha[T]],), {}, bo)
        if kind == 'renamed':
            M = newcls('M', (G[V, T], Generic[T, V]), extra, bo)
            return newcls('C', (M[ha[U], ha[T]],), {}, bo)
        if kind == 'implicit':
            M = newcls('M', (G[T, U],), extra, bo)
            return newcls('C', (M[ha[T], ha[U]],), {}, bo)
        if kind == 'redefined below':
            M = newcls('M', (G[T, U], Generic[T, U]), {}, bo)
            return newcls('C', (M[ha[T], ha[U]],), extra, bo)
        M = newcls('M', (G[ha[T], U], Generic[U]), {}, bo)
        return newcls('C', (M[ha[U]],), extra, bo)
    k, C1 = attempt(spec)
    expect(k == 'ok', lambda: f'specializing ({kind}) raised {C1!r}: {desc}')
    fields = {n: s.ty(args) for n, s in own.items()}
    fields.update(extra_ty)
    compare_classes(C1, ClassDesc(list(fields.items()), bo), r, what, f'{kind} {list(extra)}')
    # used as a field type, array item, union choice
    other = {T: r.choice(UINT), U: r.choice(UINT)}
    A, B = G[ha[T], ha[U]], G[hints(other)[T], hints(other)[U]]
    ta, tb = [Struct(ClassDesc([(n, s.ty(x)) for n, s in own.items()], bo)) for x in (args, other)]
    k, U1 = attempt(lambda: newcls('User', (S.Structured,), {'k': S.uint8, 'x': A, 'y': S.array[S.Header[S.uint8], B], 'z': Tuple[A, S.uint8], 'w': B,
                                   'u': Annotated[Union[A, S.uint8], S.LookbackDecider(lambda o: o.k, {0: A, 1: S.uint8})]}, ByteOrder.LE))
    expect(k == 'ok', lambda: f'using the specialized class as a field raised {U1!r}: {desc}')
    U2 = ClassDesc([('k', Basic('B')), ('x', ta), ('y', Arr('B', tb)), ('z', Tup(ta, Basic('B'))), ('w', tb), ('u', Back('k', {0: ta, 1: Basic('B')}))], ByteOrder.LE)
    compare_classes(U1, U2, r, what, 'as a field')


def compare_classes(c1, cd, r, what, kind):
    expect(c1.attrs == cd.names, lambda: f'{kind}: fields {c1.attrs}, written out {cd.names}: {what()}')
    expect(c1.byte_order is cd.bo, lambda: f'{kind}: byte order {c1.byte_order}: {what()}')
    for _ in range(3):
        o = inst_of(cd, r, small=True)
        k, d = attempt(lambda: cd.enc(o))
        if k == 'err':
            continue
        expect(o.pack() == d, lambda: f'{kind}: the class written out packs {show(o)} to {hexs(o.pack())}, expected {hexs(d)}')
        k, x1 = attempt(lambda: c1.create_unpack(d))
        expect(k == 'ok', lambda: f'{kind}: unpacking {hexs(d)} raised {x1!r}: {what()}')
        expect(plain(x1)[1] == plain(o)[1], lambda: f'{kind}: unpacked {plain(x1)!r:.300}, written out {plain(o)!r:.300} from {hexs(d)}: {what()}')
        k, d1 = attempt(x1.pack)
        expect(k == 'ok' and d1 == d, lambda: f'{kind}: packed {d1!r:.200} expected {hexs(d)}: {what()}')


# ---------------------------------------------------------------- C16
def p_c16(r, seed, tag, rec):
    """histories over classes sharing hint objects, against the history-free model"""
    bo = r.choice(ORDERS)
    keys = ['k']
    pool = []
    for _ in range(r.choice([2, 3, 4])):
        kind = r.random()
        t = item(r, 1, bo, keys) if kind < .5 else strty(r) if kind < .6 else Arr('B', SelfT()) if kind < .7 else \
            Arr('B', Tup(Basic('B'), SelfT())) if kind < .78 else back(r, 1, bo, keys) if kind < .86 else \
            Arr('B', Back('k', {0: SelfT(), 1: Net()}, SelfT())) if kind < .93 else cond(r, 1, bo, keys)
        t.shared = True
        pool.append(t)
    def cls():
        ts = r.sample(pool, r.randint(1, len(pool)))
        return ClassDesc([('k', Basic('B'))] + [(f'x{i}', t) for i, t in enumerate(ts)], r.choice([bo, bo, r.choice(ORDERS)]))
    cds = [cls() for _ in range(r.choice([2, 3]))]
    # one class containing another
    cds.append(ClassDesc([('k', Basic('B')), ('n', Arr('B', Struct(cds[0]))), ('m', Struct(cds[1]))], bo))
    objs = []
    for cd in cds:
        for _ in range(2):
            i = inst_of(cd, r, small=True)
            k, d = attempt(lambda: cd.enc(i))
            if k == 'ok':
                objs.append((cd, i, d))
                rec.see(cd, i)
    hist = []
    for step in range(40):
        cd, i, d = r.choice(objs)
        op = r.randrange(12)
        hist.append((cd.name, op))
        ctx = lambda: f'step {step} (history {hist[-6:]}) {where(cd, i)}'
        if op == 0:
            k, x = attempt(i.pack)
            expect(k == 'ok' and x == d, lambda: f'pack gave {x!r:.200} expected {hexs(d)}: {ctx()}')
        elif op == 1:
            b = bytearray(len(d) + 6)
            k, x = attempt(lambda: i.pack_into(b, 3))
            expect(k == 'ok' and bytes(b) == b'\0\0\0' + d + b'\0\0\0', lambda: f'pack_into gave {x!r} {hexs(b)} expected {hexs(d)}: {ctx()}')
        elif op == 2:
            o = io.BytesIO()
            k, x = attempt(lambda: i.pack_write(o))
            expect(k == 'ok' and o.getvalue() == d, lambda: f'pack_write gave {x!r} {hexs(o.getvalue())} expected {hexs(d)}: {ctx()}')
        elif op in (3, 4, 5):
            un, f = r.choice(unpackers(cd.cls, d) + inplace(cd.cls, d))
            k, v = attempt(f)
            expect(k == 'ok' and same(v, i), lambda: f'{un} gave {show(v) if k == "ok" else v!r}, expected {show(i)}: {ctx()}')
            if k == 'ok' and op == 5:
                # the result is independent of the instance it came from
                scramble(v, r)
        elif op == 6 and d:
            un, f = r.choice(unpackers(cd.cls, d[:r.randrange(len(d))]))
            attempt(f)
        elif op == 7:
            j = i.__class__(*[getattr(i, n) for n in cd.names])
            setattr(j, r.choice(cd.names), r.choice(BADV))
            attempt(j.pack)
            attempt(lambda: j.pack_into(bytearray(3), 2))
        elif op == 8:
            attempt(lambda: i.pack_into(bytearray(max(0, len(d) - 1)), 0))
        elif op == 9:
            before = show(i)
            i.pack()
            expect(show(i) == before, lambda: f'packing changed the instance: {ctx()}')
        elif op == 10 and not any(isinstance(x, SelfT) for _, f in cd.fields for x in walk(f)):
            attempt(lambda: i.with_byte_order(r.choice(ORDERS)).pack())
        elif op == 11:
            # byte strings held in buffers of the caller stay as they are
            j = i.__class__(*[mutable(getattr(i, n)) for n in cd.names])
            before = show(j)
            pn, f = r.choice(packers(j) + [('pack_into', lambda: j.pack_into(bytearray(len(d) + 4), 2))])
            attempt(f)
            expect(show(j) == before, lambda: f'{pn} changed the instance, {before} became {show(j)}: {ctx()}')


def mutable(x):
    return bytearray(x) if type(x) is bytes else type(x)(map(mutable, x)) if type(x) in (list, tuple) else x


def scramble(v, r):
    for n in v._desc.names:
        x = getattr(v, n)
        if isinstance(x, list):
            x.append(None)
        setattr(v, n, None)


def p_rec(r, seed, tag, rec):
    """recursive trees"""
    bo = r.choice(ORDERS)
    style = r.randrange(6)
    k = ('k', Basic('B'))
    f = {0: [k, ('c', Arr('B', SelfT())), ('z', Basic('H'))],
         1: [k, ('c', Arr('H', Tup(SelfT(), Basic('B'), SelfT())))],
         2: [k, ('c', Arr('B', Back('k', {0: DynChar('B'), 1: SelfT()}, Tup(Basic('h'), Basic('B')))))],
         3: [k, ('c', Arr('B', Tup(SelfT(), Back('k', {0: DynChar('B'), 1: Basic('I')}, Net())))), ('u', Back('k', {0: Basic('H')}, Term()))],
         4: [k, ('s', DynChar('B')), ('c', Arr('B', Cond('k', lambda v: v & 1, SelfT(), None), )), ('d', Cond('k', lambda v: v & 2, Arr('B', SelfT()), None)), ('e', Basic('H'))],
         5: [k, ('c', Arr('B', SelfT(), 'I')), ('d', Arr(2, Basic('H'))), ('e', Arr('B', Tup(Basic('B'), SelfT()), 'Q'))]}[style]
    cd = ClassDesc(f, bo)
    for _ in range(3):
        inst = inst_of(cd, r)
        rec.see(cd, inst)
        for fn in (layout, layout_unpack, c04, c02, c01):
            fn(cd, inst, r)


def self_key():
    class SelfKey(S.Structured):
        """a look-ahead key that is the class itself"""
        n: S.uint8
        u: typing.Annotated[typing.Union[S.uint8, S.uint16], S.LookaheadDecider(typing.Self, lambda o: 'x', {'y': S.uint8},
                            typing.Annotated[typing.Union[S.uint8, S.uint16], S.LookbackDecider(lambda o: o.n, {1: S.uint8, 2: S.uint16})]),
                            S.Condition(lambda o: o.n > 0, 0)]
        def __hash__(self): return 1
    return SelfKey


def p_selfkey():
    K = self_key()
    d = bytes([1, 2, 0, 0, 9, 9])
    for un, f in unpackers(K, d):
        k, v = attempt(f)
        expect(k == 'ok' and (v.n, v.u) == (1, 2) and type(v.u) is int and K.serializer.size == 2, lambda: f'{un} gave {v!r} (size {K.serializer.size}) for a look-ahead key of Self on {hexs(d)}')


def p_c16all(r, seed, tag, rec):
    if seed % 50 == 0: p_selfkey()
    (p_rec if seed % 4 == 0 else p_c16)(r, seed, tag, rec)


# ---------------------------------------------------------------- C18
def p_c18(r, seed, tag, rec):
    bo = r.choice(ORDERS)
    tys = []
    for i in range(r.choice([1, 2, 3, 5])):
        k = r.random()
        c = Custom(r.choice('bBhHiIqQfd'), r.randrange(4))
        tys.append(c if k < .4 else basic(r) if k < .6 else Arr(r.choice([0, 1, 3, 'B', 'H']), c, r.choice([None, None, 'I'])) if k < .72 else
                   Tup(c, Basic('H'), Custom('B', r.randrange(4))) if k < .82 else Pad(2) if k < .86 else strty(r) if k < .9 else
                   Arr('B', Tup(c, Basic('H'))) if k < .95 else Struct(C(r.choice(ORDERS), Basic('B'), c)))
    cd = C(bo, *tys)
    if not cd.names: return
    def plainify(t):
        if isinstance(t, Custom): return Basic(t.c)
        if isinstance(t, Arr): return Arr(t.count, plainify(t.item), t.size)
        if isinstance(t, Tup): return Tup(*map(plainify, t.tys))
        if isinstance(t, Struct): return t
        return t
    def unw(v):
        if isinstance(v, W): return v.v
        if isinstance(v, list): return [unw(x) for x in v]
        if isinstance(v, tuple): return tuple(unw(x) for x in v)
        return v
    def count(v):
        if isinstance(v, W): return 1
        if isinstance(v, (list, tuple)): return sum(map(count, v))
        if isinstance(v, S.Structured): return sum(count(getattr(v, n)) for n in v.attrs)
        return 0
    for _ in range(2):
        inst = inst_of(cd, r)
        rec.see(cd, inst)
        for fn in (layout, layout_unpack, c04):
            fn(cd, inst, r)
        pc = C(bo, *map(plainify, tys))
        pi = pc.cls(*[unw(getattr(inst, n)) for n in cd.names])
        k, want = attempt(pi.pack)
        expect(k == 'ok' and inst.pack() == want, lambda: f'custom type bytes {hexs(inst.pack())}, plain {want!r:.200} for {where(cd, inst)}')
        d = cd.enc(inst)
        n = sum(count(getattr(inst, x)) for x in cd.names)
        for un, f in unpackers(cd.cls, d) + inplace(cd.cls, d):
            for c in (W, W2, W3, W4): c.made = 0
            v = f()
            made = W.made + W2.made + W3.made + W4.made
            expect(made == n, lambda: f'{un} called factories {made} times for {n} custom values: {where(cd, inst)}')


# ---------------------------------------------------------------- C19
def new(**ann):
    return lambda: types.new_class('K', (S.Structured,), {}, lambda ns: ns['__annotations__'].update(ann))


def c19_table():
    B8, D = S.uint8, S.LookbackDecider
    bad = {}
    for x in (-1, -7, 1.0, 3.5, 'x', None, S.int8, S.int32, S.float32, int, bytes, S.bool8, S.char[2], b'ab', math.inf):
        bad[f'Header[{x!r}]'] = lambda x=x: S.Header[x]
    for x in (3, 0, -1, S.int8, S.int64, S.float64, int, 'x', S.pad[2], S.bool8, 1.0):
        bad[f'Header[2, {x!r}]'] = lambda x=x: S.Header[2, x]
        bad[f'Header[uint8, {x!r}]'] = lambda x=x: S.Header[B8, x]
    bad['Header[1,2,3]'] = lambda: S.Header[B8, B8, B8]
    bad['Header[()]'] = lambda: S.Header[()]
    H = S.Header[2]
    for x in (int, str, None, list[int], S.char, S.unicode, S.pad, S.pascal, S.array, 3, S.char[math.inf], S.unicode[math.inf], Tuple[B8, S.char[math.inf]], dict, S.Structured if 0 else float):
        for hn, h in (('Header[2]', H), ('Header[uint8]', S.Header[B8]), ('Header[uint16, uint32]', S.Header[S.uint16, S.uint32])):
            bad[f'array[{hn}, {x!r}]'] = lambda x=x, h=h: S.array[h, x]
    for x in (3, B8, None, 'x', S.Header, -1):
        bad[f'array[{x!r}, uint8]'] = lambda x=x: S.array[x, B8]
    bad['array[Header]'] = lambda: S.array[H]
    bad['array[Header, uint8, uint8]'] = lambda: S.array[H, B8, B8]
    bad['array[()]'] = lambda: S.array[()]
    for x in (-1, 1.0, 2.5, 'x', None, S.int8, S.int16, S.float32, int, b'', b'ab', b'abc', -math.inf, math.nan, S.bool8, (1, 2), [1], S.pad[1]):
        bad[f'char[{x!r}]'] = lambda x=x: S.char[x]
        if not isinstance(x, tuple):
            bad[f'unicode[{x!r}]'] = lambda x=x: S.unicode[x]
    for x in (None, 1, int, object(), b'utf8', str):
        bad[f'unicode[uint8, {x!r}]'] = lambda x=x: S.unicode[B8, x]
        bad[f'unicode[5, {x!r}]'] = lambda x=x: S.unicode[5, x]
    bad['unicode[5, utf8, 3]'] = lambda: S.unicode[5, 'utf8', 3]
    for h in ('pad', 'pascal'):
        for x in (-1, -3, 1.0, 'x', None, B8, (1, 2)):
            bad[f'{h}[{x!r}]'] = lambda x=x, h=h: getattr(S, h)[x]
    for h in (S.char, S.unicode, S.array, S.pad, S.pascal):
        bad[f'field hinted {h.__name__}'] = new(a=h)
        bad[f'tuple of {h.__name__}'] = new(a=Tuple[B8, h])
        bad[f'union of {h.__name__}'] = lambda h=h: D(lambda o: 0, {0: h})
        bad[f'SerializeAs {h.__name__}'] = lambda h=h: S.SerializeAs(h)
        bad[f'second field {h.__name__}'] = new(z=B8, a=h)
    for x in (int, S.pad[1], S.pad[4], None, str, list[int], 'x', 3):
        bad[f'decider choice {x!r}'] = lambda x=x: D(lambda o: 0, {0: x})
        bad[f'decider second choice {x!r}'] = lambda x=x: D(lambda o: 0, {0: B8, 1: x})
        if x is not None:
            bad[f'decider default {x!r}'] = lambda x=x: D(lambda o: 0, {0: B8}, x)
        bad[f'look-ahead choice {x!r}'] = lambda x=x: S.LookaheadDecider(B8, lambda o: 0, {0: x})
        if x is not None:
            bad[f'look-ahead default {x!r}'] = lambda x=x: S.LookaheadDecider(B8, lambda o: 0, {0: B8}, x)
    for x in (int, None, str, 3):
        bad[f'read-ahead {x!r}'] = lambda x=x: S.LookaheadDecider(x, lambda o: 0, {0: B8})
    bad['decider on a plain type'] = new(a=Annotated[B8, D(lambda o: 0, {0: B8})])
    bad['decider on int'] = new(a=Annotated[int, D(lambda o: 0, {0: B8})])
    t = lambda o: True
    for nm, h, n in (('uint8', B8, 1), ('char', S.char[B8], 1), ('tuple', Tuple[B8, B8], 1), ('pad', S.pad[2], 0), ('array', S.array[H, B8], 1)):
        for k in range(4):
            if k != n:
                bad[f'Condition on {nm} with {k} defaults'] = new(a=Annotated[h, S.Condition(t, *range(k))])
    for x in (int, str, list[int], Optional[int]):
        bad[f'Condition on {x!r}'] = new(a=Annotated[x, S.Condition(t, 0)])
    for x in (S.pad[1], S.pad[3], int, S.char[B8], S.char[S.NET], S.char[b'\0'], S.array[H, B8], S.array[S.Header[B8], B8], Tuple[B8], str, None, 3, S.unicode[B8], S.char[math.inf]):
        bad[f'SerializeAs({x!r})'] = lambda x=x: S.SerializeAs(x)
    good = {}
    for x in (0, 1, 7, 300, B8, S.uint16, S.uint32, S.uint64):
        good[f'Header[{x!r}]'] = lambda x=x: S.Header[x]
        for y in (B8, S.uint16, S.uint32, S.uint64):
            good[f'Header[{x!r}, {y!r}]'] = lambda x=x, y=y: S.Header[x, y]
        for y in (B8, S.int64, S.float16, S.bool8, S.char[3], S.char[B8], S.char[S.NET], S.unicode[B8], S.pascal[3], S.array[S.Header[2], B8], Tuple[B8, S.char[B8]], Annotated[W, S.SerializeAs(B8)]):
            good[f'array[Header[{x!r}], {y!r}]'] = lambda x=x, y=y: S.array[S.Header[x], y]
    for x in (0, 1, 7, 300, B8, S.uint16, S.uint32, S.uint64, S.NET, b'\0', b'a', b'\xff', math.inf):
        good[f'char[{x!r}]'] = lambda x=x: S.char[x]
        for e in ('utf8', 'ascii', RevCodec, RevCodec()):
            good[f'unicode[{x!r}, {e!r}]'] = lambda x=x, e=e: S.unicode[x, e]
        good[f'unicode[{x!r}]'] = lambda x=x: S.unicode[x]
    for x in (0, 1, 2, 300):
        good[f'pad[{x}]'] = lambda x=x: S.pad[x]
    for x in (1, 2, 300):
        good[f'pascal[{x}]'] = lambda x=x: S.pascal[x]
    for nm, h, n in (('uint8', B8, 1), ('char', S.char[B8], 1), ('tuple', Tuple[B8, B8], 1), ('pad', S.pad[2], 0), ('array', S.array[H, B8], 1)):
        good[f'Condition on {nm}'] = new(a=Annotated[h, S.Condition(t, *range(n))])
    for x in (B8, S.int8, S.float32, S.char[3], S.pascal[3], S.bool8, S.uint64):
        good[f'SerializeAs({x!r})'] = lambda x=x: S.SerializeAs(x)
    for x in (B8, S.char[B8], Tuple[B8, B8], S.array[H, B8], S.unicode[B8], S.char[2]):
        good[f'decider choice {x!r}'] = lambda x=x: D(lambda o: 0, {0: x, 1: B8}, x)
        good[f'look-ahead {x!r}'] = lambda x=x: S.LookaheadDecider(B8, lambda o: 0, {0: x}, x)
    return bad, good


def check_value(name, v):
    """a hint made from valid arguments really has those arguments"""


def p_c19(r, seed, tag, rec):
    bad, good = c19_table()
    for cached in (S.char._create, S.unicode._create, S.Header._create, S.array.__class_getitem__):
        if hasattr(cached, 'cache_clear') and seed % 2:
            cached.cache_clear()
    todo = [(n, f, False) for n, f in bad.items()] + [(n, f, True) for n, f in good.items()]
    r.shuffle(todo)
    for n, f, ok in todo:
        rec.see2((n,))
        k, v = attempt(f)
        if ok:
            expect(k == 'ok', lambda: f'{n} was refused: {v!r}')
        else:
            expect(k == 'err' and isinstance(v, (TypeError, ValueError)), lambda: f'{n} was accepted or failed otherwise: {v!r}')
    # arguments chosen at random keep their meaning whatever was created before
    for _ in range(30):
        n = r.choice([0, 1, 2, 3, 5, 256])
        c = r.choice(UINT)
        for t, v in ((Char(n), bytes(n)), (DynChar(c), b'ab'), (Arr(n, Basic('H')), [7] * n), (Arr(c, Basic('b')), [1, -1]), (Arr(n, Basic('B'), c), [1] * n if n < 255 or c != 'B' else None),
                     (Uni(DynChar(c)), 'ab'), (Term(bytes([n & 255])), b'')):
            if v is None: continue
            if isinstance(t, Uni) and 0: continue
            cd = C(ByteOrder.BE, t)
            k, o = attempt(lambda: cd.cls(v))
            expect(k == 'ok' and o.pack() == cd.enc(o), lambda: f'{t!r} value {v!r:.60}: {o!r:.100}')


# ---------------------------------------------------------------- table
def p_c17(r, seed, tag, rec):
    cd = class_case(r, seed, tag, final=0)
    for j in range(2):
        inst = inst_of(cd, r, small=True)
        rec.see(cd, inst)
        c17(cd, inst, r)
    if tag[0] == 'rand' and r.random() < .3:
        # long strings, cut anywhere, also where nothing follows
        t = r.choice([DynChar('B'), DynChar('H'), DynChar('I'), Term(), Term(b'H'), Net(), Uni(Term(), 'latin-1'), Uni(DynChar('H'), 'rev'), Uni(Net(), 'rev')])
        t = r.choice([t, t, Tup(Basic('B'), t), Arr('B', t), Struct(C(cd.bo, t))])
        cd = ClassDesc([('k', Basic('B')), ('s', t)] + ([('z', Basic('H'))] if r.random() < .3 else []), cd.bo)
        inst = cd.gen(r, Env(big=True, force=r.choice([255, 256, 257, 300, 511, 512, 513, 600])))
        try:
            cd.enc(inst)
        except _st.error:
            return                  # more items than an 8-bit count holds
        rec.see(cd, inst)
        c17(cd, inst, r)
        if r.random() < .02:
            cd = ClassDesc([('k', Basic('B')), ('s', DynChar(r.choice('IQ')))], cd.bo)
            inst = inst_of(cd, r)
            inst.s = gen_bytes(r, r.choice([0x4000, 0x8000, 65536, 70000]))
            c17(cd, inst, r)


RUN = {
    'C01': generic_runner(c01), 'C02': p_c02, 'C03': p_c03, 'C04': p_c04, 'C05': p_c05, 'C06': p_c06, 'C07': p_c07,
    'C08': lambda r, s, t, rec: strings_case(r, s, t, rec, False), 'C09': p_c09, 'C10': p_c10, 'C11': p_c11, 'C12': p_c12, 'C13': p_c13,
    'C14': p_c14, 'C15': p_c15, 'C16': p_c16all, 'C17': p_c17, 'C18': p_c18, 'C19': p_c19, 'C20': p_c20,
}
NRAND = {'C01': 1200, 'C02': 300, 'C03': 900, 'C04': 900, 'C05': 1200, 'C06': 4000, 'C07': 1500, 'C08': 400, 'C09': 500, 'C10': 600, 'C11': 600, 'C12': 4000,
         'C13': 4000, 'C14': 2000, 'C15': 2500, 'C16': 900, 'C17': 1500, 'C18': 2400, 'C19': 64, 'C20': 1600}
USES_ENUM = {'C01', 'C02', 'C03', 'C04', 'C05', 'C17', 'C20'}


def cases(pid, tier, seed):
    out = []
    n = NRAND[pid] * (12 if tier == 'thorough' else 1)
    if pid in USES_ENUM:
        N = len(enum_list())
        if tier == 'thorough':
            out += [(('enum*', k), k) for k in range(N * len(ORDERS))]
        else:
            # every shape, under a byte order that rotates with the seed
            out += [(('enum', k), k + seed) for k in range(N)]
    if pid == 'C07':
        out += [(('enum', k), k) for k in range(len(list(leaf_types())) * 3)]
    out += [(('rand', k), seed * 1000003 + k) for k in range(n)]
    return out


def run_case(pid, tag, cseed, rec):
    # processor time counts, and twice: a stalled machine is no failing input
    e = run_once(pid, tag, cseed, rec)
    if e is HUNG: e = run_once(pid, tag, cseed, rec)
    return f'no answer within {CASE_LIMIT} s of processor time' if e is HUNG else e


HUNG = object()


def run_once(pid, tag, cseed, rec):
    r = random.Random(f'{pid}/{tag}/{cseed}')
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
    try:
        RUN[pid](r, cseed, tag, rec)
        return None
    except Bad as e:
        return str(e)
    except Hang:
        return HUNG
    except AssertionError:
        raise
    except ERRORS as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(os.path.realpath(REPO) + os.sep)]
        f = (inrepo or tb)[-1]
        return f'{type(e).__name__}: {e} (at {f.filename}:{f.lineno} in {f.name}, from ' + '; '.join(f'{x.name}:{x.lineno}' for x in tb[:4]) + ')'
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(a):
    pid, chunk = a
    rec = Rec()
    bad = []
    for tag, cs in chunk:
        rec.sample = rec.sample if rec.n % 7 else rec.sample
        e = run_case(pid, tag, cs, rec)
        if e:
            bad.append((tag, cs, e))
            if len(bad) >= 3 or "no answer" in e:
                break
    return rec.n, rec.keys, rec.sample, bad


def run(pid, tier, seed, procs=8, budget=None):
    import multiprocessing as mp
    import time
    cs = cases(pid, tier, seed)
    chunks = [(pid, cs[i::64]) for i in range(64)]
    chunks = [c for c in chunks if c[1]]
    n, keys, samples, bad = 0, set(), [], []
    t0 = time.time()
    with mp.get_context('fork').Pool(procs) as pool:
        for a, k, s, b in pool.imap_unordered(_worker, chunks):
            n += a
            keys |= k
            if s and len(samples) < 6:
                samples.append(s)
            bad += b
            if len(bad) >= 12:
                break
    bad.sort(key=lambda b: (b[0][0] == 'rand', b[0][1]))
    return dict(evaluations=n, distinct=len(keys), samples=sorted(samples)[:4], bad=bad, cases=len(cs), seconds=round(time.time() - t0, 2))


def known_finding_fails(pid, line):
    """does the recorded input still fail?  (each listed finding has its own input)"""
    if 'self-then-final' in line:
        def make():
            class Tree(S.Structured):
                kids: S.array[S.Header[S.uint8], typing.Self]
                rest: S.char[math.inf]
            return Tree
        return attempt(make)[0] == 'ok'
    return False
