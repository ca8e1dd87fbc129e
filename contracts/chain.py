"""Contracts of joining serializers: `+` of each pair of kinds (api.py, structs.py), and
on top of it sums of an unknown number of serializers, as TupleSerializer and class
definitions make them."""
from .lib import *
from .abstract import *
from .containers import deep, unchanged, same_object
from .structs import begin, made, text, BO, actions, Folding, structs
from pyvc.core import PathEnd, conc
from pyvc.rt import seq_concat


def api():
    import structured.serializers.api as m
    return m


# ---------------------------------------------------------------- joining two
class Left(World):
    """world of a chain of unknown length in front of one known serializer"""

    def __init__(self):
        super().__init__()
        self.name = 'chain'
        c = cur()
        self.hooks, self.subs = [], []
        self.m = c.fresh('before', 1)
        g = c.fresh_fn('values_before', z3.IntSort(), z3.IntSort())
        self.PS = lambda k: mkint(g(term(k)))
        n = c.fresh_fn('needs_preparation', z3.IntSort(), z3.BoolSort())
        self.needs = lambda k: SBool(n(term(k)))
        c.assume(mkbool(term(self.PS(0)) == 0))
        c.ghost_ints.append(('values before', self.PS))
        c.ghost_index.append(lambda k: c.assume(And(mkbool(term(self.PS(k)) >= 0), mkbool(term(self.PS(k + 1)) >= term(self.PS(k))))))
        self.seq = core.SSeq(self.m, self.at, tuple)
        self.seq.root, self.seq.hooks, self.seq.key = self.seq, self.hooks, (self.seq, 0, self.m)

    def at(self, k):
        c = cur()
        for j, s in self.subs:
            if j is k or c.valid(mkbool(term(j) == term(k))) is True: return s
        s = make(self, ('part', k), self.PS(k + 1) - self.PS(k), ('prepack', 'preunpack'), self.needs(k))
        self.subs.append((k, s))
        for h in list(self.hooks): h(k)
        return s


def element(w, name, kinds=('struct', 'struct with actions', 'other', 'final'), needs=None):
    """one serializer that is not itself a chain"""
    import structured.serializers.structs as m
    kind = pick(kinds, name)
    if kind == 'struct': return made(m.StructSerializer, text(name))
    if kind == 'struct with actions':
        acts = actions('action_' + name, cur().fresh('actions', 0))
        s = made(m.StructActionSerializer, text(name), BO(''), acts)
        cur().assume(acts.length <= s.num_values)
        return s
    return make(w, name, cur().fresh(f'num_values_{name}', 0), ('prepack',), cur().fresh_bool(f'needs_{name}') if needs is None else needs, final=kind == 'final')


def is_struct(x):
    import structured.serializers.structs as m
    return isinstance(x, m.StructSerializer)


def parts(x):
    m = api()
    if isinstance(x, m.NullSerializer): return ()
    if isinstance(x, m.CompoundSerializer): return x.serializers
    return (x,)


def same_parts(xs, ys):
    """two sequences of serializers: the same objects, or equal struct serializers"""
    fx, fy = [[p for p in core.flat_parts(core.as_seq(z)) if not (conc(p.length) and p.length == 0)] for z in (xs, ys)]

    def items(ps):
        out = []
        for p in ps: out += [p.at(k) for k in range(p.length)] if conc(p.length) else [p]
        return out
    ix, iy = items(fx), items(fy)
    return len(ix) == len(iy) and all(
        type(a) is core.SSeq and type(b) is core.SSeq and bool(a.key and b.key) and a.key[0] is b.key[0] and cur().valid(And(mkbool(term(a.key[1]) == term(b.key[1])), mkbool(term(a.length) == term(b.length)))) is True
        or a is b or type(a) is not core.SSeq and type(b) is not core.SSeq and is_struct(a) and is_struct(b) and same_object(a, b)
        for a, b in zip(ix, iy))


JOIN = {'nothing', 'one', 'chain'}


def joining(left, right):
    def unit():
        begin()
        m = api()
        c = cur()
        w = Left()
        if left == 'nothing': a = m.NullSerializer()
        else:
            last = element(w, 'last')
            a = last if left == 'one' else m.CompoundSerializer(seq_concat(w.seq, (last,)))
        if right == 'nothing': b, more = m.NullSerializer(), ()
        else:
            first = element(w, 'first', ('struct', 'struct with actions', 'other', 'final') if right == 'one' else ('struct', 'struct with actions', 'other'), None if right == 'one' else False)
            more = () if right == 'one' else (element(w, 'second', ('other', 'final') if is_struct(first) else ('struct', 'other', 'final'), True),)
            if right == 'chain' and not is_final(more[0]) and pick([False, True], 'three'): more += (element(w, 'third', ('other', 'final'), False),)
            b = first if right == 'one' else m.CompoundSerializer((first,) + more)
        before = deep(a), deep(b)
        with Folding(structs()): r = attempt(lambda: a + b)
        nm = f'{left} + {right}'
        tags = ('C12', 'C06')
        blocked = left != 'nothing' and right != 'nothing' and is_final(last)
        if isinstance(r, Raised):
            c.prove(blocked and isinstance(r.e, TypeError), f'{nm}: refused, with TypeError, only if something follows a final serializer', tags + ('C19',))
        else:
            c.prove(not blocked, f'{nm}: refused if something follows a final serializer', tags)
            if blocked: return
            junction = ()
            if left != 'nothing' and right != 'nothing':
                if is_struct(last) and is_struct(first):
                    with Folding(structs()): junction = (last + first,)
                else: junction = (last, first)
            else: junction = (last,) if left != 'nothing' else (first,) if right != 'nothing' else ()
            want = seq_concat(w.seq, junction + more) if left == 'chain' else junction + more
            got = parts(r)
            c.prove(same_parts(got, want), f'{nm}: the parts of both in order, structs that meet joined into one', tags + ('C01', 'C13'))
            values = lambda x: 0 if isinstance(x, m.NullSerializer) else x.num_values
            n = attempt(getattr, r, 'num_values')
            c.prove(isint(n) and mkbool(term(n) == term(values(a) + values(b))), f'{nm}: takes the values of both', tags + ('C01',))
            ends = more[-1] if more else first if right != 'nothing' else last if left != 'nothing' else None
            f = attempt(r.is_final)
            c.prove(not isinstance(f, Raised) and bool(f) == (ends is not None and is_final(ends)), f'{nm}: final exactly when its last part is', tags)
        c.prove(unchanged(a, before[0]) and unchanged(b, before[1]), f'{nm}: leaves its operands alone', ('C16', 'C06', 'C14'))
    return unit


def is_final(x): return getattr(x, 'final', False) is True


# ---------------------------------------------------------------- sums
class FWorld(World):
    """an unknown number of serializers, some of which are final"""

    def __init__(self, seq, final, last_may=True):
        super().__init__()
        self.name = 'sum'
        self.seq, self.FIN = seq, final
        self.last_index = seq.length - 1 if last_may else seq.length
        if seq.key is None: seq.key = (seq, 0, seq.length)
        c = cur()
        f = c.fresh_fn('none_final_before', z3.IntSort(), z3.BoolSort())
        self.NF = lambda k: SBool(f(term(k)))
        c.assume(self.NF(0))
        c.ghost_index.append(self.facts)
        c.loop_preds.append(('none final before the last', lambda i: Or(mkbool(term(i) <= 0), self.NF(i - 1))))
        c.ghost_any.append(('chain', lambda v0, i0: (lambda i: Chain_(self, self.seq.sub(i0, i))) if isinstance(v0, api().NullSerializer) else None))
        c.folding = True

    def facts(self, k):
        """none_final_before, by its recursion; the last fact follows from it by induction"""
        c, NF = cur(), self.NF
        m = self.last_index
        for j in (k, k - 1):
            inside = And(mkbool(term(j) >= 0), mkbool(term(j) < term(m)))
            if core.tobool(inside) is False or c.valid(Not(inside)) is True: continue
            F = self.FIN(j)
            c.assume(Implies(inside, mkbool(core.tobool(NF(j + 1)) == core.tobool(And(NF(j), Not(F))))))
            c.assume(Implies(And(inside, NF(m)), And(NF(j), Not(F))))


_chain = {}


def Chain_(w, seq, order=None):
    S = api().Serializer
    if S not in _chain:
        class Chain(S):
            """what a sum of serializers is, by the contract of `+`: its parts in order"""

            def __init__(self, w, seq, order): self.__dict__.update(w=w, seq=seq, order=order)
            def __setattr__(self, n, v): raise Unsupported(f'assignment to {n} of a chain')

            def __add__(self, o):
                c = cur()
                if isinstance(o, api().NullSerializer): return self
                if self.order is not None or isinstance(o, (Chain, api().CompoundSerializer)): raise Unsupported('other sums')
                n = self.seq.length
                if c.branch(mkbool(term(n) <= 0), 'nothing before'): return o
                for g in c.ghost_index: g(n - 1)
                if c.branch(core.tobool(self.w.FIN(self.index(n - 1))), 'the last one so far is final'):
                    raise TypeError('follows a final serializer')
                return Chain(self.w, seq_concat(self.seq, (o,)), None)

            def index(self, k): return k if self.seq.key is None or conc(self.seq.key[1]) and self.seq.key[1] == 0 else self.seq.key[1] + k

            @property
            def num_values(self): raise Unsupported('number of values of a chain')
            size = num_values
            def prepack(self, po): raise Unsupported('operation of a chain')
            preunpack = prepack

            def get_final(self):
                c = cur()
                n = self.seq.length
                if c.branch(mkbool(term(n) <= 0), 'nothing'): return None
                return self.seq.at(n - 1).get_final()

            def with_byte_order(self, o): return Chain(self.w, self.seq, str(o.value))
            def pyvc_same(self, o): return type(o) is Chain and self.order == o.order and cur().valid(self.goal_eq(o)) is True

            def goal_eq(self, o):
                if type(o) is Chain: return And(self.order == o.order, value_eq(self.seq, o.seq))
                if not isinstance(o, S): return False
                if isinstance(o, api().NullSerializer): return mkbool(term(self.seq.length) == 0)
                return self.order is None and value_eq(self.seq, core.as_seq(parts(o)))

            def __repr__(self): return '<chain>'
        _chain[S] = Chain
    return _chain[S](w, seq, order)


def many(name='serializer'):
    """(sequence of an unknown number of serializers, which of them are final)"""
    c = cur()
    subs = []
    f = c.fresh_fn('final', z3.IntSort(), z3.BoolSort())
    fin = lambda k: SBool(f(term(k)))
    w = World()
    w.name = 'sum'

    def at(k):
        for j, s in subs:
            if j is k or cur().valid(mkbool(term(j) == term(k))) is True: return s
        s = make(w, (name, k), cur().fresh('num_values', 0), final=fin(k))
        subs.append((k, s))
        return s
    return core.SSeq(c.fresh('count', 0), at, tuple), fin


def tuple_sum():
    import structured.serializers.tuples as m
    c = cur()
    seq, fin = many()
    w = FWorld(seq, fin)
    n = seq.length
    given = seq
    if pick(['a tuple', 'a list'], 'given as') == 'a list':
        given = rt.MList()
        given.pyvc_set('', seq)
    t = attempt(m.TupleSerializer, given)
    nm = 'TupleSerializer'
    tags = ('C12',)
    w.facts(n - 1)
    if isinstance(t, Raised):
        c.prove(isinstance(t.e, TypeError) and Not(w.NF(n - 1)), f'{nm}: refused, with TypeError, only if something follows a final serializer', tags + ('C19',))
        return
    c.cover('accepted')
    c.prove(Or(mkbool(term(n) <= 1), w.NF(n - 1)), f'{nm}: refused if something follows a final serializer', tags)
    c.prove(Chain_(w, seq).goal_eq(t.serializer), f'{nm}: the elements in order', tags + ('C01', 'C13', 'C05'))
    c.prove(t.num_values == 1, f'{nm}: is one value', ('C01',))
    if c.branch(mkbool(term(n) <= 0), 'empty'): return
    f = attempt(t.get_final)
    c.prove(not isinstance(f, Raised) and (f is None) == (not c.branch(core.tobool(fin(n - 1)), 'the last is final')), f'{nm}: final exactly when its last element is', tags)
    c.prove(bool(t.is_final()) == (f is not None), f'{nm}: is_final agrees', tags)


# ---------------------------------------------------------------- which serializers are final
def plain():
    """a serializer is not final unless it says otherwise; `final` is asked in one place"""
    import structured.serializers.structs as st
    import structured.serializers.strings as sm
    import structured.serializers.arrays as ar
    begin()
    w = World()
    item = make(w, 'item', 1)
    struct = lambda: made(st.StructSerializer, text('format'))
    count = lambda: st.StructSerializer('H')
    s = {
        'struct': struct,
        'dynamic': lambda: sm.DynamicCharSerializer(count()),
        'terminated': lambda: sm.TerminatedCharSerializer(b'\0'),
        'net': lambda: sm.NETCharSerializer(),
        'consuming': lambda: sm.ConsumingCharSerializer(),
        'array': lambda: ar.ArraySerializer(api().NullSerializer(), item, cur().fresh('length', 1)),
        'counted array': lambda: ar.ArraySerializer(count(), item),
        'struct array': lambda: ar.StaticStructArraySerializer(3, st.StructSerializer('H')),
        'counted struct array': lambda: ar.DynamicStructArraySerializer(count(), st.StructSerializer('H')),
        'nothing': lambda: api().NullSerializer(),
    }
    kind = pick(list(s), 'kind')
    x = s[kind]()
    f = attempt(x.get_final)
    cur().prove(not isinstance(f, Raised) and (f is not None) == (kind == 'consuming'), f'{kind}: {"final" if kind == "consuming" else "not final"}', ('C12',))
    cur().prove(attempt(x.is_final) == (kind == 'consuming'), f'{kind}: is_final agrees', ('C12',))


def wraps_final(kind):
    """a serializer around another is final exactly when that one is"""
    def unit():
        c = cur()
        w = World()
        w.name = kind
        fin = c.fresh_bool('inner_is_final')
        n = pick([1, 2, 5], 'values') if kind == 'ConditionalSerializer' else 1
        sub = make(w, 'inner', n, final=fin)
        if kind == 'ConditionalSerializer':
            import structured.serializers.conditional as m
            s = m.ConditionalSerializer(sub, lambda o: True, ('x',) * n)
        elif kind == 'UnicodeSerializer':
            import structured.serializers.strings as m
            s = m.UnicodeSerializer(sub, None, None)
        else:
            import structured.serializers.structured as m
            class Nested: serializer = sub
            s = m.StructuredSerializer(Nested)
        o = pick([None, '>'], 'order')
        if o is not None and kind != 'UnicodeSerializer': s = s.with_byte_order(BO(o))
        f = attempt(s.get_final)
        inner = c.branch(core.tobool(fin), 'the inner serializer is final')
        c.prove(not isinstance(f, Raised) and (f is not None) == inner, f'{kind}: final exactly when what it wraps is', ('C12',))
        c.prove(bool(s.is_final()) == inner, f'{kind}: is_final agrees', ('C12',))
    return unit


class Choices:
    """a mapping from unknown results to an unknown number of serializers"""

    def __init__(self, seq): self.seq = seq
    def values(self): return self.seq
    def items(self): raise Unsupported('items of the choices')
    keys = __iter__ = items


def union_final():
    """a union is final exactly when some choice of it is"""
    import structured.serializers.unions as m
    c = cur()
    seq, fin = many('choice')
    w = FWorld(seq, fin, last_may=False)
    c.loop_preds.append(('none final so far', lambda i: w.NF(i)))
    dfin = c.fresh_bool('default_is_final')
    default = pick([None, make(w, 'default', 1, final=dfin)], 'default')
    cls = pick([m.LookbackDecider, m.LookaheadDecider], 'kind')
    d = lambda o: 0
    s = attempt(cls, d, {}, default) if cls is m.LookbackDecider else attempt(cls, make(w, 'key', 1), d, {}, default)
    if isinstance(s, Raised): raise Unsupported(f'making the union: {s.e!r}')
    s.result_map = Choices(seq)
    n = seq.length
    w.facts(n)
    f = attempt(s.get_final)
    any_ = Or(Not(w.NF(n)), False if default is None else dfin)
    c.cover('decided')
    c.prove(not isinstance(f, Raised) and (any_ if f is not None else Not(any_)), f'{cls.__name__}: final exactly when some choice is', ('C12',))
    c.prove(core.tobool(s.is_final()) == (f is not None), f'{cls.__name__}: is_final agrees', ('C12',))


# ---------------------------------------------------------------- nothing at all
def null(which):
    def unit():
        s = api().NullSerializer()
        if which == 'pack': contract_pack('NullSerializer', s, (), b'', True)
        else: contract_unpack('NullSerializer', s, lambda view: (True, 0, ()))
    return unit


A = 'structured.serializers.api.'
UNITS = [
    Unit('NullSerializer.pack*', A + 'NullSerializer', ('C01', 'C02', 'C04', 'C16'), null('pack')),
    Unit('NullSerializer.unpack*', A + 'NullSerializer', ('C01', 'C03', 'C04', 'C16', 'C17'), null('unpack')),
    Unit('TupleSerializer.__init__', 'structured.serializers.tuples.TupleSerializer', ('C12', 'C19', 'C13', 'C05', 'C01'), tuple_sum),
    Unit('Serializer.get_final/is_final', A + 'Serializer', ('C12',), plain),
    Unit('AUnion.get_final', 'structured.serializers.unions.AUnion', ('C12',), union_final),
] + [Unit(f'{k}.get_final', f'structured.serializers.{f}.{k}', ('C12',), wraps_final(k))
     for k, f in (('ConditionalSerializer', 'conditional'), ('UnicodeSerializer', 'strings'), ('StructuredSerializer', 'structured'))
] + [Unit(f'Serializer + ({l} + {r})' + (' (right side of 2 or 3 parts: bounded)' if r == 'chain' else ''), A + ('CompoundSerializer' if 'chain' in (l, r) else 'NullSerializer' if 'nothing' in (l, r) else 'Serializer'),
          ('C12', 'C06', 'C16') + (() if r == 'chain' else ('C13', 'C01', 'C14') + (('C19',) if l != 'nothing' and r != 'nothing' else ())), joining(l, r), cost=8 if l == r == 'chain' else 5 if 'chain' in (l, r) else 1) for l in ('nothing', 'one', 'chain') for r in ('nothing', 'one', 'chain')]
