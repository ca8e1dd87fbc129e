"""Contract of making a class (structured.py, `__init_subclass__`): which of an unknown
number of annotations become fields, in which order, with which serializer.

What Python itself does is assumed: `typing.get_type_hints` gives the annotations of the
bases and the class, each name once, at the place of its first and with the value of its
last definition."""
import sys
import typing
from .lib import *
from .abstract import *
from .chain import FWorld, Chain_
from .containers import with_order
from .structs import begin, BO
from pyvc.rt import SName, OMap, Fields, FState
from pyvc.core import conc

KINDS = ('serialized', 'pad', 'conditional pad', 'class variable', 'other')


class Definition:
    """an unknown number of annotations"""

    def __init__(self):
        c = cur()
        begin()
        self.m = c.fresh('annotations', 0)
        self.names = core.SSeq(self.m, lambda k: SName(self, k), tuple)
        self.names.key = (self.names, 0, self.m)
        f = c.fresh_fn('kind', z3.IntSort(), z3.IntSort())
        g = c.fresh_fn('final', z3.IntSort(), z3.BoolSort())
        self.KIND = lambda k: mkint(f(term(k)))
        self.FIN = lambda k: And(mkbool(f(term(k)) == 0), mkbool(g(term(k))))
        self.subs, self.hints, self.kinds = [], [], []
        self.w = World()
        self.w.name = 'definition'
        c.ghost_filters = [('shown', lambda k: mkbool(f(term(k)) == 0)), ('kept', lambda k: mkbool(z3.And(f(term(k)) <= 2, f(term(k)) >= 0)))]
        self.shown = rt.selected(self.names, 'shown')
        self.kept = rt.selected(self.names, 'kept')
        self.serializers = rt.second(self.kept, lambda n: self.serializer(n.k))
        self.serializers.key = (self.serializers, 0, self.kept.length)
        self.sums = FWorld(self.serializers, lambda j: self.FIN(self.kept.at(j).k))

    def memo(self, table, k, make_):
        for j, v in table:
            if j is k or cur().valid(mkbool(term(j) == term(k))) is True: return v
        v = make_()
        table.append((k, v))
        return v

    def kind(self, k):
        def decide():
            c = cur()
            for j, n in enumerate(KINDS[:-1]):
                if c.branch(mkbool(term(self.KIND(k)) == j), n): return n
            c.assume(mkbool(term(self.KIND(k)) == 4))
            return KINDS[-1]
        return self.memo(self.kinds, k, decide)

    def hint(self, k): return self.memo(self.hints, k, lambda: self.make_hint(k))

    def make_hint(self, k):
        import structured as st
        kind = self.kind(k)
        if kind == 'pad': return st.pad[3]
        if kind == 'conditional pad': return typing.Annotated[int, self.serializer(k)]
        if kind == 'other': return pick([None, str, typing.Annotated[int, 'no serializer'], typing.Any], 'hint')
        h = typing.Annotated[int, self.part(k)]
        return typing.ClassVar[h] if kind == 'class variable' else h

    def part(self, k):
        return self.memo(self.subs, k, lambda: make(self.w, ('field', k), cur().fresh('num_values', 0), final=self.FIN(k)))

    def serializer(self, k):
        kind = self.kind(k)
        if kind in ('pad', 'conditional pad'):
            from structured.type_checking import annotated
            from structured.serializers import ConditionalSerializer
            import structured as st
            pad = annotated.transform(st.pad[3])
            return self.memo(self.subs, k, lambda: pad if kind == 'pad' else ConditionalSerializer(pad, lambda o: True, ()))
        return self.part(k)


def same_names(w, got, want):
    """goal: the same names in the same order"""
    if type(got) is tuple: return And(mkbool(term(want.length) == len(got)), *[value_eq(x, want.at(k)) for k, x in enumerate(got)])
    if type(got) is not core.SSeq: return False
    return And(mkbool(term(got.length) == term(want.length)), value_eq(got, want))


def joined(w, got, seq, order):
    """goal: got is the sum of the serializers in that order"""
    c = cur()
    n = seq.length
    if c.branch(mkbool(term(n) <= 0), 'no field'):
        from structured.serializers.api import NullSerializer
        return isinstance(got, NullSerializer)
    if not hasattr(got, 'goal_eq') and c.branch(mkbool(term(n) == 1), 'one field'):
        x = seq.at(0)
        want = x.with_byte_order(BO(order))
        return core.value_eq(got, want) is True or getattr(got, 'role', 0) == getattr(want, 'role', 1) or same_pad(got, want)
    return Chain_(w, seq, order).goal_eq(got)


def same_pad(a, b):
    if type(a) is not type(b): return False
    if hasattr(a, 'serializers'): return a.condition is b.condition and same_pad(a.serializers[True], b.serializers[True])
    return a.format == b.format and a.byte_order is b.byte_order and a.num_values == b.num_values


def define():
    import structured as st
    mod = sys.modules['structured.structured']
    modes = list(st.ByteOrderMode)
    c = cur()
    orders = (BO(''), BO('<'), BO('>'))
    d = None
    has_base = pick([False, True], 'has a base class')
    border = pick(orders, 'order of the base') if has_base else BO('')
    order = pick(orders, 'order')
    mode = pick(modes, 'mode')
    init = pick([True, False], 'init')
    Base = mod.StructuredMeta('Base', (st.Structured,), {}, byte_order=border) if has_base else st.Structured
    # made with the base's order, so that it exists; the call under contract comes next
    cls = mod.StructuredMeta('Cls', (Base,), {}, byte_order=border)
    before = dict(vars(Base))
    d = Definition()
    calls = []

    class Ann:
        def __init__(self, k): self.k = k
    anns = []

    def hints(obj, globalns=None, localns=None, include_extras=False):
        if obj is not cls: raise Unsupported('annotations of another class')
        return OMap(d.names, (lambda n: d.hint(n.k)) if include_extras else (lambda n: d.memo(anns, n.k, lambda: Ann(n.k))))

    def gen(args, **kw):
        calls.append(args)

        def __init__(self, *a): raise Unsupported('running the constructor')
        return __init__
    real = mod.get_type_hints, mod.gen_init
    mod.get_type_hints, mod.gen_init = hints, gen
    own_init = vars(cls).get('__init__')
    try: r = attempt(lambda: st.Structured.__init_subclass__.__func__(cls, byte_order=order, byte_order_mode=mode, init=init))
    finally: mod.get_type_hints, mod.gen_init = real
    nm = 'Structured.__init_subclass__'
    n = d.kept.length
    conflict = has_base and mode is st.ByteOrderMode.STRICT and border is not order
    if isinstance(r, Raised):
        if conflict:
            c.prove(isinstance(r.e, ValueError), f'{nm}: a conflicting byte order is refused with ValueError', ('C14',))
            return
        d.sums.facts(n - 1)
        c.prove(isinstance(r.e, TypeError) and Not(d.sums.NF(n - 1)), f'{nm}: refused, with TypeError, only if something follows a final field', ('C12', 'C13', 'C14'))
        return
    c.cover('class made')
    c.prove(not conflict, f'{nm}: a conflicting byte order is refused', ('C14',))
    c.prove(Or(mkbool(term(n) <= 1), d.sums.NF(n - 1)), f'{nm}: refused if something follows a final field', ('C12',))
    c.prove(joined(d.sums, cls.serializer, d.serializers, order.value), f'{nm}: the serializer is that of the fields in order, in the byte order of the class', ('C13', 'C05', 'C14', 'C01'))
    c.prove(same_names(d, cls.attrs, d.shown), f'{nm}: attrs are the fields that are not padding, in order', ('C13', 'C01', 'C20'))
    c.prove(cls.byte_order is order, f'{nm}: the byte order is the one asked for', ('C05', 'C14'))
    if init:
        ok = len(calls) == 1 and isinstance(calls[0], (OMap, dict))
        got = core.as_seq(rt.call(tuple, calls[0].keys())) if ok else None
        from pyvc.rt import seq_concat
        c.prove(ok and same_names(d, got, seq_concat(('self',), d.shown)), f'{nm}: the constructor takes self and the fields that are not padding, in order', ('C13',))
        c.prove(vars(cls).get('__init__') is not own_init, f'{nm}: the class gets the constructor', ('C13',))
    else: c.prove(not calls and vars(cls).get('__init__') is own_init, f'{nm}: no constructor unless asked for', ('C13',))
    c.prove(dict(vars(Base)) == before if has_base else True, f'{nm}: leaves the base class alone', ('C14', 'C16'))
    # the values of an instance
    o = cls.__new__(cls)
    f = Fields.of(o)
    vals = opaque_seq('value', d.m)
    f.state = FState(lambda k: And(mkbool(term(k) >= 0), mkbool(term(k) < term(d.m))), vals.at)
    v = attempt(lambda: cls._attrgetter(o))
    if isinstance(v, Raised):
        c.prove(False, f'{nm}: _attrgetter gives the values of the fields', ('C01', 'C02', 'C13'))
        return
    v = core.as_seq(v)
    k = c.fresh('some', 0)
    c.prove(mkbool(term(v.length) == term(d.shown.length)), f'{nm}: _attrgetter gives one value per field', ('C01', 'C02', 'C13'))
    if c.branch(mkbool(k.t < term(d.shown.length))):
        c.prove(value_eq(v.at(k), vals.at(d.shown.at(k).k)), f'{nm}: _attrgetter gives the values of the fields in order', ('C01', 'C02', 'C13'))


def structured_base():
    """which of an unknown number of bases is the one a class is derived from"""
    import structured as st
    mod = sys.modules['structured.structured']
    c = cur()
    n = c.fresh('bases', 1)
    f = c.fresh_fn('kind', z3.IntSort(), z3.IntSort())
    made = []

    class SBase:
        """a class: what it is derived from decides whether it is Structured"""

        def __init__(self, k): self.k = k

        @property
        def __bases__(self): return (st.Structured,) if c.branch(mkbool(f(term(self.k)) == 0), 'derived from Structured') else ()

    def base(k):
        for j, b in made:
            if j is k or c.valid(mkbool(term(j) == term(k))) is True: return b
        b = st.Structured if c.branch(mkbool(f(term(k)) == 1), 'Structured itself') else SBase(k)
        made.append((k, b))
        return b
    bases = core.SSeq(n, base, tuple)
    bases.key = (bases, 0, n)
    bases.numbered = True
    c.ghost_filters = [('derived', lambda k: mkbool(f(term(k)) == 0))]
    want = rt.selected(bases, 'derived')

    class Cls:
        __name__ = __qualname__ = 'Cls'
    Cls = Cls()
    Cls.__dict__['__bases__'] = bases
    r = attempt(lambda: mod.get_structured_base(Cls))
    nm = 'get_structured_base'
    many = mkbool(term(want.length) > 1)
    if isinstance(r, Raised):
        c.prove(And(isinstance(r.e, TypeError), many), f'{nm}: refused, with TypeError, only with more than one Structured base', ('C14',))
        return
    c.cover('accepted')
    c.prove(Not(many), f'{nm}: more than one Structured base is refused', ('C14',))
    if c.branch(mkbool(term(want.length) <= 0), 'no Structured base'): c.prove(r is None, f'{nm}: no Structured base, none given', ('C14', 'C05'))
    else: c.prove(r is want.at(0), f'{nm}: gives the base that is Structured', ('C14', 'C05'))


class Odd:
    """a value of which nothing may be asked"""

    def __bool__(self): return False
    def __len__(self): return 0
    def __iter__(self): return iter(())
    def __eq__(self, o): return True
    __hash__ = None


class NoName:
    """an annotation without a text"""


def constructor():
    """the generated constructor of a class with up to 4 arguments (bounded: their number)"""
    mod = sys.modules['structured.structured']
    c = cur()
    n = c.choose(5)
    KINDS = (lambda: int, lambda: typing.Union[int, NoName], lambda: typing.Optional[int], lambda: NoName(), lambda: typing.Tuple[int, str],
             lambda: typing.Any, lambda: None, lambda: type('NotInScope', (), {}), lambda: int | str)
    i = c.choose(len(KINDS))
    # every kind at every place; the others differ from it
    names = ['a', 'value', '_x', 'Union', 'args', 'cls'][:n] if c.choose(2) else ['name', 'b1', 'self_', 'int', 'txt'][:n]
    anns = {'self': pick([typing.Self, None], 'self')}
    for j, x in enumerate(names): anns[x] = KINDS[(i + j) % len(KINDS)]()
    spare = dict(anns)
    nm = f'gen_init with {n} arguments'
    scope = pick(['module', 'nothing', 'extra'], 'globals')
    r = attempt(lambda: mod.gen_init(anns, globalsns=vars(mod)) if scope == 'module' else mod.gen_init(anns, globalsns={}) if scope == 'nothing' else mod.gen_init(anns, globalsns={}, localsns={'extra': 1}))
    c.prove(not isinstance(r, Raised), f'{nm}: made', ('C13',))
    if isinstance(r, Raised): return
    c.cover('made')
    c.prove(list(anns.items()) == list(spare.items()), f'{nm}: leaves the annotations alone', ('C13',))
    log = []

    class Obj:
        def __setattr__(self, k, v): log.append((k, v))
        def __post_init__(self, *a): log.append(('post', a))
    vals = [Odd() for _ in names]
    by_name = pick([False, True], 'given by name')
    o = Obj()
    v = attempt(lambda: r(o, **dict(zip(names, vals))) if by_name else r(o, *vals))
    ok = v is None and len(log) == n + 1 and log[-1][0] == 'post' and log[-1][1] == () and sorted(k for k, _ in log[:-1]) == sorted(names)
    c.prove(ok, f'{nm}: sets every attribute once, then calls __post_init__', ('C13', 'C01'))
    if ok: c.prove(all(dict(log[:-1])[k] is w for k, w in zip(names, vals)), f'{nm}: every attribute gets its argument', ('C13', 'C01'))
    if n:
        v = attempt(lambda: rt.call(r, Obj(), *vals[:-1]))
        c.prove(isinstance(v, Raised) and isinstance(v.e, TypeError), f'{nm}: no argument can be left out', ('C13',))
    v = attempt(lambda: rt.call(r, Obj(), *vals, 0))
    c.prove(isinstance(v, Raised) and isinstance(v.e, TypeError), f'{nm}: takes no more arguments', ('C13',))


def pad_names():
    """the annotations of a class body: every padding called `_` gets a name of its own"""
    import structured as st
    mod = sys.modules['structured.structured']
    c = cur()
    pads = [st.pad[3], typing.Annotated[int, st.pad[1]], st.pad]
    others = [int, st.uint8, typing.ClassVar[int], 'int']
    ns = mod.StructuredMeta.__prepare__('Cls', ()) if c.choose(2) else mod.StructuredMeta.__prepare__('Cls', (st.Structured,))
    d = ns['__annotations__']
    want = []
    for _ in range(c.choose(4)):
        key = pick(['_', 'x', 'y'], 'name')
        pad = c.choose(2)
        v = pick(pads[:1] if pad else others[:2], 'hint')
        d[key] = v
        want = [w for w in want if not (w[0] == key and (key != '_' or not pad) and not w[2])] if not (key == '_' and pad) else want
        want.append((key, v, key == '_' and pad))
    got = list(d.items())
    nm = 'annotations of a class body'
    c.cover('made')
    c.prove(len({k for k, _ in got}) == len(want) and sorted(map(repr, (v for _, v in got))) == sorted(repr(w[1]) for w in want), f'{nm}: no padding replaces another', ('C13',))
    named = {w[0]: w[1] for w in want if not w[2]}
    c.prove(all(dict(got)[k] is v if k in dict(got) else False for k, v in named.items()), f'{nm}: other names stay', ('C13',))
    c.prove([v for _, v in got if any(v is p for p in pads)] == [w[1] for w in want if any(w[1] is p for p in pads)], f'{nm}: in order', ('C13',))


def padding():
    """a hint is padding if there is nothing but padding: no value to keep"""
    import structured as st
    mod = sys.modules['structured.structured']
    from structured.serializers import ConditionalSerializer, StructSerializer
    c = cur()
    nm = 'ispad'
    kind = pick(['struct', 'pad type', 'another serializer', 'no serializer'], 'kind')
    wrap = pick(['plain', 'conditional'], 'form') if kind != 'no serializer' else 'plain'
    if kind == 'no serializer':
        c.prove(mod.ispad(pick([None, str, int, typing.Any], 'hint')) is False, f'{nm}: something that is not serialized is no padding', ('C13',))
        return
    n = 0
    if kind == 'struct':
        f, n = pick([('x', 0), ('12x', 0), ('xx', 0), ('Bx', 1), ('B3x', 1), ('xB', 1), ('xHx', 1), ('3sx', 1), ('2Bx', 2), ('I', 1)], 'format')
        s = StructSerializer(f, pick([BO(''), BO('>')], 'order'))
    elif kind == 'pad type': s = mod.annotated.transform(pick([st.pad[1], st.pad[7]], 'hint'))
    else:
        n = 1
        w = World()
        w.name = 'padding'
        s = make(w, 'part', c.fresh('num_values', 0))
    if wrap == 'conditional': s = ConditionalSerializer(s, lambda o: True, ('default',) * n) if kind != 'another serializer' else ConditionalSerializer(make(w, 'wrapped', 1), lambda o: True, ('default',))
    got = attempt(mod.ispad, typing.Annotated[int, s])
    c.cover('decided')
    c.prove(not isinstance(got, Raised) and bool(got) is (n == 0), f'{nm}: padding is what has no value', ('C13', 'C01'))


UNITS = [
    Unit('ispad (formats listed: bounded)', 'structured.structured.ispad', ('C13', 'C01'), padding),
    Unit('gen_init (up to 4 arguments: bounded)', 'structured.structured.gen_init', ('C13', 'C01'), constructor, cost=2),
    Unit('MetaDict (up to 3 annotations: bounded)', 'structured.structured.MetaDict', ('C13',), pad_names),
    Unit('get_structured_base', 'structured.structured.get_structured_base', ('C14', 'C05'), structured_base),
    Unit('Structured.__init_subclass__', 'structured.structured.Structured.__init_subclass__', ('C12', 'C13', 'C14', 'C05', 'C01', 'C02', 'C16', 'C20'), define, cost=5),
]
