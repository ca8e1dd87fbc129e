"""Contracts of tuples.py, unions.py, conditional.py, self.py and structured.py"""
import struct as real_struct
from .lib import *
from .abstract import *
from pyvc.rt import Key
from pyvc.core import PathEnd


def world(name):
    w = World()
    w.name = name
    w.po = PO('of the operation')
    return w


def prepared(w, s, how):
    """the object to operate on, after any history"""
    havoc(s)
    w.share(s)
    p = getattr(s, how)(w.po)
    return p


def reordered(s, make=None):
    """(serializer, byte order it has to apply): as made, a copy with another byte order,
    or the original after such a copy was made.  make(order) constructs what the copy
    should be: when the copy provably has the same attributes, the contract of the
    constructed one covers it"""
    from structured import ByteOrder as BO
    how = pick(['as made', 'copy', 'original after a copy'], 'with_byte_order')
    if how == 'as made': return s, None
    c = cur()
    if how == 'copy':
        order = pick(ORDERS, 'order')
        t = s.with_byte_order(BO(order))
        if make is not None and same_object(t, make(order)):
            c.prove(True, f'{type(s).__name__}.with_byte_order: gives the serializer made of the reordered parts', ('C05', 'C16'))
            raise PathEnd
        return t, order
    before = deep(s)
    s.with_byte_order(BO('>'))
    if unchanged(s, before):
        c.prove(True, f'{type(s).__name__}.with_byte_order: leaves the original alone', ('C05', 'C16'))
        raise PathEnd
    return s, None


def package_object(x): return hasattr(x, '__dict__') and not isinstance(x, (type, core.Sym)) and (type(x).__module__ or '').startswith('structured')


def deep(x, seen=None):
    """what an object consists of"""
    seen = {} if seen is None else seen
    if id(x) in seen: return seen[id(x)][1]
    if package_object(x):
        r = {}
        seen[id(x)] = x, r
        for k, v in vars(x).items(): r[k] = (v, deep(v, seen))
        return r
    if isinstance(x, core.Sym): return x
    if isinstance(x, dict): return [(k, v, deep(v, seen)) for k, v in x.items()]
    if isinstance(x, (list, tuple)): return [(v, deep(v, seen)) for v in x] if getattr(x, 'sym', None) is None else x.sym
    return None


def lazy(cls, k):
    """an attribute that only remembers something computed from the others"""
    return type(getattr(cls, k, None)).__name__ == 'cached_property' or k == '_layout'


def unchanged(x, before, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen: return True
    seen.add(id(x))
    if package_object(x):
        keys = {k for k in vars(x) if k in before or not lazy(type(x), k)}
        return keys == before.keys() and all(vars(x)[k] is before[k][0] and unchanged(vars(x)[k], before[k][1], seen) for k in keys)
    if isinstance(x, core.Sym): return x is before
    if isinstance(x, dict):
        return len(x) == len(before) and all(k is k0 and v is v0 and unchanged(v, d, seen) for (k, v), (k0, v0, d) in zip(x.items(), before))
    if isinstance(x, (list, tuple)):
        if getattr(x, 'sym', None) is not None or type(before) is not list: return getattr(x, 'sym', None) is before
        return len(x) == len(before) and all(v is v0 and unchanged(v, d, seen) for v, (v0, d) in zip(x, before))
    return True


def same_object(a, b, depth=0):
    """a and b provably consist of the same"""
    c = cur()
    if a is b: return True
    if depth > 6: return False
    if isint(a) and isint(b) and type(a) is not bool and type(b) is not bool: return c.valid(mkbool(term(a) == term(b))) is True
    if type(a) is SBool or type(b) is SBool:
        x, y = core.tobool(a), core.tobool(b)
        return x is y or not isinstance(x, bool) and not isinstance(y, bool) and c.valid(x == y) is True
    if type(a) is core.SVal: return type(b) is core.SVal and c.valid(mkbool(a.t == b.t)) is True
    sa, sb_ = getattr(a, 'sym', a), getattr(b, 'sym', b)
    if type(sa) is core.SSeq and type(sb_) is core.SSeq:
        if c.valid(mkbool(term(sa.length) == term(sb_.length))) is not True: return False
        if c.branch(mkbool(term(sa.length) <= 0)): return True
        k = c.fresh('some', 0)
        c.assume(mkbool(k.t < term(sa.length)))
        return same_object(sa.at(k), sb_.at(k), depth + 1)
    if isinstance(a, structm.SFmt) or isinstance(b, structm.SFmt):
        try:
            (oa, fa), (ob, fb) = order_of(a), order_of(b)
            return oa == ob and c.valid(structm.same_meaning(fa, fb)) is True
        except Unsupported: return False
    if type(a) is not type(b): return False
    if hasattr(a, 'pyvc_same'): return a.pyvc_same(b)
    if isinstance(a, types.FunctionType): return a == b
    if type(a) is real_struct.Struct: return a.format == b.format
    if type(a) is structm.AnyLayout: return a.of is b.of
    if type(a) is structm.Layout: return True       # (of the format, which is compared)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same_object(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, float, bool, type(None))): return a == b
    if isinstance(a, rt.SMap):
        k = Key('some key')
        return same_object(a.has(k), b.has(k)) and same_object(a.value(k), b.value(k), depth + 1)
    if package_object(a):
        lazily = [k for k in {**vars(a), **vars(b)} if lazy(type(a), k)]
        keys = lambda x: vars(x).keys() - set(lazily)
        return (keys(a) == keys(b) and all(same_object(vars(a)[k], vars(b)[k], depth + 1) for k in keys(a))
                and all(same_object(getattr(a, k), getattr(b, k), depth + 1) for k in lazily if k != '_layout'))
    return False


def order_of(fmt):
    """(byte order, rest) of a format text"""
    p = structm.flat(structm.parts_of(fmt))
    if p and type(p[0]) is str and p[0][0] in '@=<>!': return p[0][0], structm.SFmt.make((p[0][1:],) + p[1:])
    return '', structm.SFmt.make(p)


def with_order(s, order):
    from structured import ByteOrder as BO
    return s and s.with_byte_order(BO(order))


def ordered(role, order): return role if order is None else (role, order)


def tuple_of(w, n):
    import structured.serializers.tuples as m
    sub = make(w, 'elements', n)
    return m.TupleSerializer([sub]), sub


def tuple_pack():
    w = world('TupleSerializer')
    n = cur().fresh('num_values', 0)
    s0, sub = tuple_of(w, n)
    vals = opaque_seq('value', n)
    s, order = reordered(s0, lambda o: s0.__class__([with_order(sub, o)]))
    ok, e = w.enc(ordered(sub.role, order), vals)
    p = prepared(w, s, 'prepack')
    contract_pack('TupleSerializer', p, (vals,), e, ok, also=s, tags=('C05',))


def tuple_unpack():
    w = world('TupleSerializer')
    n = cur().fresh('num_values', 0)
    s0, sub = tuple_of(w, n)

    def decode(view):
        ok, k, vals = w.dec(ordered(sub.role, order), view, n)
        return ok, k, lambda: (vals,)
    s, order = reordered(s0, lambda o: s0.__class__([with_order(sub, o)]))
    p = prepared(w, s, 'preunpack')
    contract_unpack('TupleSerializer', p, decode, also=s, tags=('C05',))


T = 'structured.serializers.tuples.TupleSerializer'
UNITS = [
    Unit('TupleSerializer.pack*', T, ('C01', 'C02', 'C04', 'C05', 'C16'), tuple_pack),
    Unit('TupleSerializer.unpack*', T, ('C01', 'C03', 'C04', 'C05', 'C16', 'C17'), tuple_unpack),
]
