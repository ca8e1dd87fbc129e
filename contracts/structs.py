"""Contracts of structs.py: any format text, any values, any counts.  struct itself is
trusted: what it does with an unknown format is an unknown function of the format's
meaning (kinds, counts and order of its specifiers), the byte order and the values."""
from .lib import *
from .abstract import World, opaque_seq, same_values
from .containers import order_of
from pyvc.structm import SFmt, Txt, parts_of, same_meaning
from pyvc.core import PathEnd, conc
import struct as real_struct


class Of(World):
    """one unknown format"""

    def __init__(self, order, fmt):
        super().__init__()
        self.order, self.fmt = order, fmt
        self.size = cur().fresh('struct_size', 0)

    def new_enc(self, role):
        ok = cur().fresh_bool('packable')
        return ok, SBytes((models.Ref(Base('packed', self.size), 0, self.size),), bytes, self.size)

    def new_dec(self, role, view, nvalues):
        return True, self.size, opaque_seq('unpacked', nvalues)

    def enc(self, values): return super().enc('format', values)
    def dec(self, view):
        n = structm.nvalues(self.fmt)
        if len(view.segs) > 1 or view.segs and type(view.segs[0]) is not models.Ref:
            r = opaque_seq('unpacked', n)      # (nothing is known about these)
            cur().forgotten |= core.names_in(r.at(0).t)
            return r
        return super().dec('format', view, n)[2]


class Formats:
    def __init__(self): self.known = []

    def find(self, order, fmt):
        c = cur()
        order = '>' if order == '!' else order
        for f in self.known:
            try:
                if f.order == order and c.valid(same_meaning(f.fmt, fmt)) is True: return f
            except Unsupported: pass       # (nothing known about both)
        f = Of(order, fmt)
        self.known.append(f)
        return f


def begin():
    cur().formats = Formats()


def text(name, order=''):
    """any format that is possible with the byte order"""
    t = Txt(name)
    if order not in ('', '@'): cur().assume(Not(t.native))
    return '' if t.is_empty() else SFmt((t,))


def BO(x):
    from structured import ByteOrder
    return ByteOrder(x)


def structs():
    import structured.serializers.structs as m
    return m


def made(f, *a):
    """a serializer, or the end where struct refuses the format"""
    try: return f(*a)
    except real_struct.error: raise PathEnd


def as_struct(s, order, fmt, nm, tags):
    """the serializer s is struct's for this format"""
    c = cur()
    o, f = order_of(s.format)
    c.prove(o == order, f'{nm}: has the byte order', tags + ('C05',))
    c.prove(same_meaning(f, fmt), f'{nm}: its format means the concatenation', tags)
    n = attempt(getattr, s, 'num_values')
    c.prove(isint(n) and mkbool(term(n) == term(structm.nvalues(fmt))), f'{nm}: takes as many values as its format', tags + ('C01',))

# ---------------------------------------------------------------- plain
def plain(which, acting=False):
    def unit():
        begin()
        m = structs()
        c = cur()
        order = pick(ORDERS, 'order')
        F = text('format', order)
        n = structm.nvalues(F)
        cls = m.StructActionSerializer if acting else m.StructSerializer
        acts = ()
        if acting:
            acts = actions('action', c.fresh('actions', 0))
            c.assume(acts.length <= n)
        s0 = made(cls, F, BO(order), *((acts,) if acting else ()))
        c.prove(mkbool(term(s0.num_values) == term(n)), 'StructSerializer: takes as many values as its format', ('C06', 'C01'))
        o, f = order_of(s0.format)
        c.prove(s0.byte_order is BO(order) and o == order, 'StructSerializer: knows its byte order', ('C05', 'C06'))
        c.prove(s0.base_format == F, 'StructSerializer: knows its format', ('C05', 'C06'))
        how = pick(['as made', 'copy', 'original after a copy'], 'with_byte_order')
        s = s0
        if how != 'as made':
            o2 = pick(ORDERS, 'order of the copy')
            try: t = s0.with_byte_order(BO(o2))
            except real_struct.error: raise PathEnd
            if how == 'copy': s, order = t, o2
            c.prove(s.byte_order is BO(order), 'StructSerializer.with_byte_order: the copy has the order', ('C05', 'C06'))
            c.prove(type(s) is cls and mkbool(term(s.num_values) == term(n)), 'StructSerializer.with_byte_order: the copy takes the same values', ('C05', 'C06'))
        real = structm.Struct(order + F)
        if which == 'pack':
            k = c.fresh('given', 0)
            vals = opaque_seq('value', k)
            right = c.branch(mkbool(term(k) == term(n)), 'as many values as the format has')
            L = real.lay()
            if type(L) is structm.AnyLayout: ok, e = L.of.enc(vals) if right else (False, None)
            else: ok, e = right, b''
            contract_pack(cls.__name__, s, vals, e, ok, tags=('C05', 'C06') + (('C18',) if acting else ()))
        else:
            def decode(view):
                L = real.lay()
                fits = mkbool(term(real.size) <= term(blen(view)))
                got = lambda: L.of.dec(view[:real.size]) if type(L) is structm.AnyLayout else ()
                return fits, real.size, (lambda: apply_all(acts, core.as_seq(got()))) if acting else got
            contract_unpack(cls.__name__, s, decode, tags=('C05', 'C06') + (('C18',) if acting else ()))
    return unit


# ---------------------------------------------------------------- actions
APPLY = z3.Function('apply', core.V, core.V, core.V)


class Act:
    """a callable given to the serializer, about which nothing is known"""

    def __init__(self, t): self.t = t

    def __call__(self, v):
        if type(v) is not SVal: raise Unsupported('action on something else than a value of the struct')
        return SVal(APPLY(self.t, v.t))

    def pyvc_ite(self, c, a, b): return Either(c, a, b)
    def pyvc_same(self, o): return cur().valid(mkbool(self.t == o.t)) is True


class Either:
    """one of two callables"""

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b

    def __call__(self, v):
        if type(self.c) is bool: return rt.call(self.a if self.c else self.b, v)
        return core.ite(SBool(self.c), rt.call(self.a, v), rt.call(self.b, v))

    def pyvc_ite(self, c, a, b): return Either(c, a, b)

    def pyvc_same(self, o):
        from .containers import same_object
        return same_object(mkbool(self.c), mkbool(o.c)) and same_object(self.a, o.a) and same_object(self.b, o.b)


def actions(name, n):
    f = cur().fresh_fn(name, z3.IntSort(), core.V)
    s = core.SSeq(n, lambda k: Act(f(term(k))), tuple)
    s.key = (s, 0, n)
    return s


def apply_all(acts, vals):
    """value k through action k, and unchanged where there is no action"""
    def at(k):
        c = cur()
        inside = mkbool(term(k) < term(acts.length))
        if c.valid(inside) is True: return acts.at(k)(vals.at(k))
        if c.valid(Not(inside)) is True: return vals.at(k)
        return core.ite(inside, acts.at(k)(vals.at(k)), vals.at(k))
    return core.SSeq(vals.length, at, tuple)


class Folding:
    """the contract of fold_overlaps in the place of the function, which has a unit of its own"""

    def __init__(self, m): self.m = m

    def __enter__(self):
        self.real = vars(self.m).get('fold_overlaps')
        if self.real is None: return

        def fold(a, b, *more, **kw):
            if any(more) or any(kw.values()): return self.real(a, b, *more, **kw)
            return SFmt.make(parts_of(a) + parts_of(b))
        self.m.fold_overlaps = fold

    def __exit__(self, *a):
        if self.real is not None: self.m.fold_overlaps = self.real


def folding():
    begin()
    m = structs()
    F, G = text('left'), text('right')
    r = attempt(m.fold_overlaps, F, G)
    cur().prove(not isinstance(r, Raised) and isinstance(r, str) and same_meaning(r, F + G), 'fold_overlaps: the result means the concatenation', ('C06', 'C18', 'C07'))


# ---------------------------------------------------------------- addition
def adding():
    begin()
    m = structs()
    c = cur()
    order, same = pick([('', False), ('>', False), ('', True), ('>', True)], 'order, with itself')
    F = text('left', order)
    a = made(m.StructSerializer, F, BO(order))
    G = F if same else text('right', order)
    b = a if same else made(m.StructSerializer, G, BO(order))
    fa, fb = a.format, b.format
    with Folding(m): r = attempt(lambda: a + b)
    c.prove(not isinstance(r, Raised), 'StructSerializer.__add__: adds formats of one byte order', ('C06',))
    if isinstance(r, Raised): return
    c.prove(type(r) is m.StructSerializer, 'StructSerializer.__add__: gives a struct serializer', ('C06',))
    if type(r) is not m.StructSerializer: return
    as_struct(r, order, F + G, 'StructSerializer.__add__', ('C06',))
    c.prove(a.format is fa and b.format is fb, 'StructSerializer.__add__: leaves its operands alone', ('C16', 'C06'))


def conflict():
    begin()
    m = structs()
    c = cur()
    o1, o2 = pick(ORDERS, 'left'), pick(ORDERS, 'right')
    k1, k2 = pick(['plain', 'actions'], 'left'), pick(['plain', 'actions'], 'right')
    F, G = text('left', o1), text('right', o2)
    mk = dict(plain=m.StructSerializer, actions=m.StructActionSerializer)
    a, b = made(mk[k1], F, BO(o1)), made(mk[k2], G, BO(o2))
    if o1 == o2: return
    r = attempt(lambda: a + b)
    c.prove(isinstance(r, Raised) and isinstance(r.e, ValueError), 'StructSerializer.__add__: refuses to combine byte orders', ('C06',))
    r = attempt(lambda: b + a)
    c.prove(isinstance(r, Raised) and isinstance(r.e, ValueError), 'StructSerializer.__add__: refuses to combine byte orders', ('C06',))


def times(F, n):
    """n copies of a format"""
    if conc(n) or not parts_of(F): return SFmt.make(parts_of(F) * (n if conc(n) else 1))
    return SFmt((Txt('wanted', power=(F, n)),))


def number():
    c = cur()
    n = pick([0, 1, 2, 'any', 'negative'], 'count')
    return c.fresh('count', 2) if n == 'any' else c.fresh('count', None, -1) if n == 'negative' else n


def multiply():
    begin()
    m = structs()
    c = cur()
    order = pick(['', '>'], 'order')
    F = text('format', order)
    a = made(m.StructSerializer, F, BO(order))
    n = number()
    fa = a.format
    with Folding(m): r = attempt(lambda: a * n)
    if not conc(n) and c.valid(mkbool(n.t < 0)) is True:
        c.prove(isinstance(r, Raised) and isinstance(r.e, ValueError), 'StructSerializer.__mul__: refuses a negative count', ('C06',))
        return
    c.prove(not isinstance(r, Raised), 'StructSerializer.__mul__: multiplies any format', ('C06',))
    if isinstance(r, Raised): return
    if conc(n) and n == 0: return no_values(r, 'StructSerializer.__mul__')
    c.prove(type(r) is m.StructSerializer, 'StructSerializer.__mul__: gives a struct serializer', ('C06',))
    if type(r) is m.StructSerializer: as_struct(r, order, times(F, n), 'StructSerializer.__mul__', ('C06', 'C07'))
    c.prove(a.format is fa, 'StructSerializer.__mul__: leaves its operand alone', ('C16', 'C06'))


def no_values(r, nm):
    """zero copies: no values, no bytes"""
    c = cur()
    c.prove(r.num_values == 0 and r.size == 0 and r.pack() == b'' and tuple(r.unpack(b'')) == (), f'{nm}: no copies are no values and no bytes', ('C06', 'C07'))


def widen():
    """@: one string, pascal string or padding specifier"""
    begin()
    m = structs()
    c = cur()
    order = pick(['', '>'], 'order')
    code = pick(['s', 'p', 'x'], 'code')
    k = c.fresh('width', 0) if pick([True, False], 'with a count') else 1
    F = code if conc(k) else SFmt((k, code))
    a = made(m.StructSerializer, F, BO(order))
    n = number()
    r = attempt(lambda: a @ n)
    if not conc(n) and c.valid(mkbool(n.t < 0)) is True:
        c.prove(isinstance(r, Raised) and isinstance(r.e, ValueError), 'StructSerializer.__matmul__: refuses a negative count', ('C06',))
        return
    c.prove(not isinstance(r, Raised) and type(r) is m.StructSerializer, 'StructSerializer.__matmul__: widens strings and padding', ('C06', 'C08'))
    if isinstance(r, Raised): return
    as_struct(r, order, SFmt.make((k * n, code)), 'StructSerializer.__matmul__', ('C06', 'C08'))


# ---------------------------------------------------------------- sums and products with actions
def acts_of(kind, n, name):
    if kind == 'plain': return core.SSeq(0, None, tuple)
    a = actions(name, cur().fresh('actions', 0))
    cur().assume(a.length <= n)
    return a


def unpacks_to(r, order, fmt, want, nm):
    """what the struct serializer r gives for bytes of the right size"""
    c = cur()
    real = structm.Struct(order + fmt)
    data = unknown_bytes('data')
    c.assume(mkbool(term(blen(data)) == term(real.size)))
    L = real.lay()
    vals = core.as_seq(structm.unpack_layout(L, data, 0))
    got = attempt(lambda: seq_of(r.unpack(data)))
    c.prove(not isinstance(got, Raised) and value_eq(got, want(vals)), f'{nm}: every value goes through its own action, once', ('C18', 'C06'))


def acting_sum():
    begin()
    m = structs()
    c = cur()
    order = pick(['', '>'], 'order')
    ka, kb = pick([('actions', 'actions'), ('actions', 'plain'), ('plain', 'actions')], 'operands')
    F, G = text('left', order), text('right', order)
    n1, n2 = structm.nvalues(F), structm.nvalues(G)
    A, B = acts_of(ka, n1, 'left_action'), acts_of(kb, n2, 'right_action')
    mk = lambda k, f, x: m.StructActionSerializer(f, BO(order), x) if k == 'actions' else m.StructSerializer(f, BO(order))
    a, b = mk(ka, F, A), mk(kb, G, B)
    with Folding(m): r = attempt(lambda: a + b)
    c.prove(not isinstance(r, Raised) and isinstance(r, m.StructSerializer), 'StructActionSerializer + : adds formats of one byte order', ('C18', 'C06'))
    if isinstance(r, Raised): return
    as_struct(r, order, F + G, 'StructActionSerializer +', ('C18', 'C06'))

    def want(vals):
        x, y = apply_all(A, vals.sub(0, n1)), apply_all(B, vals.sub(n1, n1 + n2))
        return core.seq_concat(x, y)
    unpacks_to(r, order, F + G, want, 'StructActionSerializer +')


def acting_product():
    begin()
    m = structs()
    c = cur()
    order = pick(['', '>'], 'order')
    F = text('format', order)
    n1 = structm.nvalues(F)
    A = acts_of('actions', n1, 'action')
    n = number()
    a = m.StructActionSerializer(F, BO(order), A)
    with Folding(m): r = attempt(lambda: a * n)
    if not conc(n) and c.valid(mkbool(n.t < 0)) is True:
        c.prove(isinstance(r, Raised) and isinstance(r.e, ValueError), 'StructActionSerializer.__mul__: refuses a negative count', ('C06',))
        return
    c.prove(not isinstance(r, Raised), 'StructActionSerializer.__mul__: multiplies any format', ('C18', 'C06'))
    if isinstance(r, Raised): return
    if conc(n) and n == 0: return no_values(r, 'StructActionSerializer.__mul__')
    fmt = times(F, n)
    as_struct(r, order, fmt, 'StructActionSerializer.__mul__', ('C18', 'C06'))

    def want(vals):
        # the actions of one copy (identity where none was given), over and over
        at = lambda k: core.ite(mkbool(term(k) < term(A.length)), A.at(k), Same())
        one = core.SSeq(n1, at, tuple)
        if conc(n): acts = one * n
        else: acts = rt.power(one, n)
        return core.SSeq(vals.length, lambda k: acts.at(k)(vals.at(k)), tuple)
    unpacks_to(r, order, fmt, want, 'StructActionSerializer.__mul__')


class Same:
    def __call__(self, v): return v
    def pyvc_ite(self, c, a, b): return Either(c, a, b)


S = 'structured.serializers.structs.'
PK, UP = ('C01', 'C02', 'C04', 'C05', 'C06', 'C16'), ('C01', 'C03', 'C04', 'C05', 'C06', 'C16', 'C17')
UNITS = [
    Unit('fold_overlaps', S + 'fold_overlaps', ('C06', 'C18', 'C07'), folding, cost=6),
    Unit('StructSerializer.pack*', S + 'StructSerializer', PK, plain('pack'), split=6, cost=2),
    Unit('StructSerializer.unpack*', S + 'StructSerializer', UP, plain('unpack'), split=6, cost=2),
    Unit('StructSerializer.__add__', S + 'StructSerializer', ('C06',), adding),
    Unit('StructSerializer byte order conflict', S + 'StructSerializer', ('C06',), conflict, cost=2),
    Unit('StructSerializer.__mul__', S + 'StructSerializer', ('C06', 'C07'), multiply),
    Unit('StructSerializer.__matmul__', S + 'StructSerializer', ('C06', 'C08'), widen),
    Unit('StructActionSerializer.pack*', S + 'StructActionSerializer', PK + ('C18',), plain('pack', True), split=6, cost=2),
    Unit('StructActionSerializer.unpack*', S + 'StructActionSerializer', UP + ('C18',), plain('unpack', True), split=6, cost=3),
    Unit('StructActionSerializer +', S + 'StructActionSerializer', ('C06', 'C18'), acting_sum),
    Unit('StructActionSerializer.__mul__', S + 'StructActionSerializer', ('C06', 'C18', 'C07'), acting_product),
]
