"""Contracts of structured.py: packing, unpacking, creating, comparing and showing
instances of a class with any number of fields and an arbitrary serializer."""
import sys
from .lib import *
from .abstract import *
from pyvc.core import conc
from .containers import with_order
from pyvc.rt import SName, Fields, FState
from pyvc.core import PathEnd

K_NAME = 'K'


class StepValues:
    """values a serializer gives one at a time: what it does for value k happens when it
    is asked for"""
    pyvc_lazy = True

    def __init__(self, ser, what, view, stream=None):
        c, w = cur(), ser.world
        self.ser, self.stream, self.length = ser, stream, ser.num_values
        self.fails = c.fresh('fails_at', 0)
        ser._begin(what)
        ok, self.n, vals = w.dec(ser.role, view, self.length)
        self.ok = c.branch(ok, f'{tag(ser.role)} decodes the bytes')
        self.seq = vals if self.ok else opaque_seq('partial', self.length)
        if not self.ok: c.assume(mkbool(self.fails.t <= term(self.length)))
        w.given = self.seq
        if stream is not None:
            g = c.fresh_fn('position_after', z3.IntSort(), z3.IntSort())
            self.pos0 = stream.pos
            self.POS = lambda k: mkint(g(term(k)))
            c.assume(mkbool(term(self.POS(0)) == term(stream.pos)))
            c.ghost_ints.append(('position', self.POS))

    def at(self, k): return self.seq.at(k)

    def request(self, k):
        w = self.ser.world
        if w.on_request is not None: w.on_request(k, self)
        if not self.ok and cur().branch(mkbool(self.fails.t == term(k)), 'fails here'): self.ser._fail('rejects the bytes')
        if self.stream is not None: self.stream.pos = self.POS(k + 1)

    def finish(self):
        if self.ser.world.on_request is not None: self.ser.world.on_request(self.length, self)
        if not self.ok: self.ser._fail('rejects the bytes')
        if self.stream is not None: self.stream.pos = self.pos0 + self.n
        self.ser._done(self.n)


_cls = {}


def step_class(base):
    if base in _cls: return _cls[base]

    class StepSer(base):
        def steps(self): return self.lazy and cur().choose(2, 'gives its values one at a time')

        def _result(self, run):
            n, vals = run()
            self._done(n)
            return vals

        def unpack(self, buffer):
            if not self.steps(): return super().unpack(buffer)
            return StepValues(self, 'unpack', sb(buffer, bytes))

        def unpack_from(self, buffer, offset=0):
            if not self.steps(): return super().unpack_from(buffer, offset)
            L = blen(buffer)
            if cur().branch(Or(mkbool(term(offset) < 0), mkbool(term(offset) > term(L)))): raise Unsupported('odd offset')
            b = sb(buffer, bytes)
            return StepValues(self, 'unpack_from', SBytes(models.cutsegs(b.segs, offset, L - offset), bytes, L - offset))

        def unpack_read(self, readable):
            if not self.steps(): return super().unpack_read(readable)
            L, pos = readable.content._len, readable.pos
            return StepValues(self, 'unpack_read', SBytes(models.cutsegs(readable.content.segs, pos, L - pos), bytes, L - pos), readable)
    _cls[base] = StepSer
    return StepSer


class FVal(core.Sym):
    """a field value with an `==` of its own, which need not hold for the same object"""

    def __init__(self, t): self.t = t
    def __eq__(self, o): return cur().eqv(self, o) if type(o) is FVal else NotImplemented
    def __ne__(self, o): return Not(self == o)
    def __hash__(self): raise Unsupported('hash of a field value')
    def __bool__(self): raise Unsupported('truth of a field value')
    def pyvc_text(self): return self
    def __repr__(self): return f'FVal({self.t})'


class KWorld(World):
    """a class with m >= 0 fields"""

    def __init__(self, which):
        super().__init__()
        c = cur()
        self.name, self.which = 'Structured', which
        self.m = c.fresh('fields', 0)
        self.hooks = []
        self.on_request = self.given = self._got = None
        self.names = core.SSeq(self.m, self.name_at, tuple)
        self.names.key = (self.names, 0, self.m)
        self.names.root, self.names.hooks = self.names, self.hooks
        self.values = opaque_seq('value', self.m)
        c.ghost_any.append(('values assigned', self.assigned))
        self.looked = []
        c.ghost_seqs.append(('values', lambda lo, hi: self.values.sub(lo, hi)))

    def name_at(self, k):
        for h in list(self.hooks):
            if any(g is h and (j is k or conc(j) and conc(k) and j == k or not conc(j) and not conc(k) and j.t.eq(k.t)) for g, j in self.looked): continue
            self.looked.append((h, k))
            h(k)
        return SName(self, k)

    def assigned(self, v0, i0):
        """the first i fields have got the values"""
        if type(v0) is not FState: return None
        return lambda i: FState(lambda j: Or(mkbool(term(j) < term(i)), v0.has(j)), lambda j: self.pick(j, i, v0))

    def pick(self, j, i, v0):
        first = mkbool(term(j) < term(i))
        if core.tobool(v0.has(j)) is False: return self.got.at(j)
        return ite(first, self.got.at(j), v0.at(j))

    @property
    def got(self):
        """the values the serializer gives"""
        return self.given if self.given is not None else self._got if self._got is not None else self.values

    def make_class(self, lazy=True):
        from structured import Structured
        from structured.utils import attrgetter
        from structured.serializers import Serializer
        w = self
        self.ser = step_class(abstract_class(Serializer))(self, 'fields', self.m, ('prepack', 'preunpack'), pick([True, False], 'looks at the object'), lazy, False)

        class K(Structured, init=False):
            pyvc_star = True

            def __init__(self, *values):
                # the contract of the generated constructor
                values = rt.unstar(values)
                n = values.length if type(values) is core.SSeq else len(values)
                if not cur().branch(mkbool(term(n) == term(w.m)), 'as many arguments as fields'): raise TypeError('wrong number of arguments')
                values = core.as_seq(values)
                f = Fields.of(self)
                f.state = FState(lambda k: mkbool(term(k) < term(w.m)), values.at, values.key)
                self.__post_init__()

            def __post_init__(self):
                w.post.append(self)
        self.post = []
        K.serializer, K.attrs, K._attrgetter = self.ser, self.names, staticmethod(attrgetter(*rt.star(self.names)))
        self.cls = K
        return K

    def instance(self, values):
        o = self.cls(*rt.star_values(values))
        self.po = o
        return o

    def value_state(self, values): return FState(lambda k: mkbool(term(k) < term(self.m)), values.at)


class AsSerializer:
    """the methods of an instance, called the way those of a serializer are"""

    def __init__(self, ser, **f):
        self.__dict__.update(f)
        self.ser = ser

    @property
    def size(self): return self.ser.size


def same_fields(w, o, values, name, tags, also=None):
    c = cur()
    k = c.fresh('field', 0)
    if not c.branch(mkbool(term(w.m) > 0)): return
    c.assume(mkbool(k.t < term(w.m)))
    f = Fields.of(o).state
    c.prove(type(f) is FState and And(f.has(k), value_eq(f.at(k), values.at(k))), name, tags)


def pack():
    w = KWorld('pack')
    w.make_class()
    o = w.instance(w.values)
    ser = w.ser
    if pick([False, True], 'own serializer'):
        from structured import ByteOrder as BO
        ser = o.serializer = with_order(ser, '>')
        o.byte_order = BO('>')
    c = cur()
    attrs = dict(vars(o))
    ok, e = w.enc(ser.role, w.values)
    s = AsSerializer(ser, pack=lambda: o.pack(), pack_into=lambda buf, off: o.pack_into(buf, off), pack_write=lambda st: o.pack_write(st))
    contract_pack('Structured', s, (), e, ok)
    c.prove(vars(o).keys() == attrs.keys() and all(v is attrs[k] for k, v in vars(o).items()), 'Structured.pack*: leaves the attributes of the instance alone', ('C16',))
    same_fields(w, o, w.values, 'Structured.pack*: leaves the fields of the instance alone', ('C16', 'C02'))


def request_hook(w, target):
    """when the serializer works for value k, the object has the values before k"""
    def hook(k, step):
        c = cur()
        j = c.fresh('earlier', 0)
        c.assume(And(mkbool(j.t < term(k)), mkbool(j.t < term(w.m))))
        f = Fields.of(target()).state
        if c.check() == z3.unsat: return
        has = f.has(j)
        c.prove(And(has, Implies(has, value_eq(f.at(j), step.seq.at(j)))) if core.tobool(has) is not False else False,
                'Structured: the object has every earlier field while unpacking', ('C10', 'C11', 'C01'))
    return guarded(hook)


def guarded(hook):
    def f(k, step):
        c = cur()
        if c.branch(mkbool(term(k) <= 0)): return
        c.solver.push()
        try: hook(k, step)
        finally: c.solver.pop()
    return f


def unpack():
    w = KWorld('unpack')
    K = w.make_class()
    old = opaque_seq('old', w.m)
    o = w.instance(old)
    if pick([False, True], 'own serializer'):
        from structured import ByteOrder as BO
        o.serializer = with_order(w.ser, '>')
        o.byte_order = BO('>')
    ser = o.serializer
    w.on_request = request_hook(w, lambda: o)
    contract_instance(w, ser, 'Structured.unpack*', dict(unpack=o.unpack, unpack_from=o.unpack_from, unpack_read=o.unpack_read), lambda r: o)


def contract_instance(w, ser, name, methods, result):
    c = cur()

    def run(f):
        def g(*a):
            r = f(*a)
            obj = result(r)
            s = Fields.of(obj).state
            if type(s) is not FState: raise Unsupported('fields not known')
            out = core.SSeq(w.m, s.at, tuple)
            w.made = obj
            return out
        return g

    def decode(view):
        ok, n, vals = w.dec(ser.role, view, w.m)
        w._got = vals
        return ok, n, vals
    r = contract_unpack(name, AsSerializer(ser, **{k: run(f) for k, f in methods.items()}), decode)
    if r is not None and not isinstance(r, Raised):
        same_fields(w, w.made, w._got, f'{name}: every field has its value', ('C01', 'C03', 'C13'))
        return True


def create():
    w = KWorld('unpack')
    K = w.make_class()
    proxies = []

    class P:
        pass
    mod = sys.modules['structured.structured']
    real = mod._Proxy

    def spy(cls):
        p = real(cls)
        w.po = p
        proxies.append(p)
        return p
    mod._Proxy = spy
    w.on_request = request_hook(w, lambda: proxies[-1])
    try:
        if contract_instance(w, w.ser, 'Structured.create_unpack*', dict(unpack=K.create_unpack, unpack_from=K.create_unpack_from, unpack_read=K.create_unpack_read), lambda r: r):
            cur().prove(type(w.made) is K, 'Structured.create_unpack*: makes an instance of the class', ('C01', 'C03'))
            cur().prove(len(w.post) == 1 and w.post[0] is w.made, 'Structured.create_unpack*: constructs one instance', ('C13', 'C16'))
    finally: mod._Proxy = real


def reorder():
    """Structured.with_byte_order"""
    from structured import ByteOrder as BO
    w = KWorld('pack')
    K = w.make_class()
    K.byte_order = BO(pick(ORDERS, 'class order'))
    o = w.instance(w.values)
    own = pick([False, True], 'reordered before')
    if own:
        first = BO(pick(ORDERS, 'own order'))
        o.serializer = with_order(w.ser, first.value)
        o.byte_order = first
    order = BO(pick(ORDERS, 'order'))
    before = dict(vars(o))
    n = attempt(o.with_byte_order, order)
    c = cur()
    T = ('C05', 'C16')
    c.prove(not isinstance(n, Raised), 'Structured.with_byte_order: never raises', T)
    if isinstance(n, Raised): return
    now = BO(order)
    c.prove(type(n) is K and n.byte_order is now, 'Structured.with_byte_order: an instance of the class with that order', T)
    was = o.byte_order
    role = n.serializer.role
    want = before['serializer'].role if own else 'fields'
    want = want if order == was else (base_order(want)[0], order.value)
    c.prove(role == want, 'Structured.with_byte_order: its serializer is the reordered one', T)
    same_fields(w, n, w.values, 'Structured.with_byte_order: the copy has the same values', T)
    same_fields(w, o, w.values, 'Structured.with_byte_order: leaves the fields of the original alone', T)
    c.prove(vars(o).keys() == before.keys() and all(v is before[k] for k, v in vars(o).items()), 'Structured.with_byte_order: leaves the original alone', T)
    c.prove(K.serializer is w.ser, 'Structured.with_byte_order: leaves the class alone', T)


# ---------------------------------------------------------------- equality, text
def fvals(name):
    f = cur().fresh_fn(name, z3.IntSort(), core.V)
    return lambda k: FVal(f(term(k)))


def equality():
    w = KWorld('eq')
    K = w.make_class()
    c = cur()
    EQ = z3.Function('compare_equal', core.V, core.V, z3.BoolSort())
    c.eqv = lambda a, b: SBool(EQ(a.t, b.t))
    A, B = fvals('a'), fvals('b')
    a = w.instance(core.SSeq(w.m, A, tuple))
    other = pick(['same class', 'subclass', 'base class', 'other class', 'same object', 'no instance'], 'other')
    if other == 'subclass':
        class K2(K, init=False): pass
        for n in ('serializer', 'attrs', '_attrgetter', '__init__'): setattr(K2, n, vars(K)[n] if n != 'serializer' else w.ser)
        b = K2(*rt.star_values(core.SSeq(w.m, B, tuple)))
    elif other == 'base class':
        class K2(K, init=False): pass
        for n in ('serializer', 'attrs', '_attrgetter', '__init__'): setattr(K2, n, vars(K)[n] if n != 'serializer' else w.ser)
        b = a
        a = K2(*rt.star_values(core.SSeq(w.m, B, tuple)))
    elif other == 'other class':
        from structured import Structured
        class L(Structured, init=False): pass
        b = L()
    elif other == 'no instance': b = pick([None, 5, 'text', (), object()], 'value')
    elif other == 'same object':
        B = A
        b = a
    else: b = w.instance(core.SSeq(w.m, B, tuple))
    same = other in ('same class', 'same object')
    if not same:
        r = attempt(lambda: type(a).__eq__(a, b))
        c.prove(r is NotImplemented or r is False, 'Structured.__eq__: instances of different classes are not equal', ('C20',))
        r = attempt(lambda: type(a).__ne__(a, b))
        c.prove(r is NotImplemented or r is True, 'Structured.__ne__: instances of different classes are not equal', ('C20',))
        return
    if pick([True, False], 'all fields compare equal'):
        def known(k): c.assume(Implies(And(mkbool(term(k) >= 0), mkbool(term(k) < term(w.m))), SBool(EQ(A(k).t, B(k).t))))
        w.hooks.append(known)
        r = attempt(lambda: type(a).__eq__(a, b))
        c.cover('all fields equal')
        c.prove(r if type(r) is SBool else r is True, 'Structured.__eq__: equal when every field compares equal', ('C20',))
    else:
        j = c.fresh('differing', 0)
        c.assume(mkbool(j.t < term(w.m)))
        c.assume(Not(SBool(EQ(A(j).t, B(j).t))))
        # (a proof by all() looks at a field of its own choice: the differing one is one)
        r = attempt(lambda: type(a).__eq__(a, b))
        if r is True or type(r) is SBool:
            w.names.at(j)
            c.prove(r is not True and Not(r), 'Structured.__eq__: not equal when a field compares unequal', ('C20',))
        else: c.prove(r is False, 'Structured.__eq__: not equal when a field compares unequal', ('C20',))


def text():
    w = KWorld('str')
    K = w.make_class()
    c = cur()
    A = fvals('a')
    a = w.instance(core.SSeq(w.m, A, tuple))
    if not c.branch(mkbool(term(w.m) > 0)): return
    r = attempt(lambda: K.__str__(a))
    ok = type(r) is structm.SFmt and len(r.parts) == 3 and r.parts[0] == 'K(' and r.parts[2] == ')' and type(r.parts[1]) is structm.Joined
    if isinstance(r, Raised): c.prove(False, 'Structured.__str__: never raises', ('C20',))
    if not ok: raise Unsupported('another text form')
    j = r.parts[1]
    c.prove(mkbool(term(j.seq.length) == term(w.m)), 'Structured.__str__: lists as many fields as there are', ('C20',))
    k = c.fresh('field', 0)
    c.assume(mkbool(k.t < term(w.m)))
    x = j.seq.at(k)
    if type(x) is not structm.SFmt: raise Unsupported('another text form')
    names = [p for p in x.parts if type(p) is SName]
    vals = [p for p in x.parts if type(p) is FVal]
    c.prove(len(names) == 1 and names[0] == SName(w, k), 'Structured.__str__: names every field once, in order', ('C20',))
    c.prove(len(vals) == 1 and mkbool(vals[0].t == A(k).t), 'Structured.__str__: with its current value', ('C20',))
    c.prove(K.__repr__ is not object.__repr__, 'Structured.__repr__: based on the fields', ('C20',))


S = 'structured.structured.Structured'
UNITS = [
    Unit('Structured.pack*', S, ('C01', 'C02', 'C04', 'C16', 'C10', 'C11'), pack),
    Unit('Structured.unpack*', S, ('C01', 'C03', 'C04', 'C10', 'C11', 'C13', 'C16', 'C17'), unpack),
    Unit('Structured.create_unpack*', S, ('C01', 'C03', 'C04', 'C10', 'C11', 'C13', 'C16', 'C17'), create),
    Unit('Structured.with_byte_order', S, ('C05', 'C16'), reorder),
    Unit('Structured.__eq__', S, ('C20',), equality),
    Unit('Structured.__str__', S, ('C20',), text),
]
