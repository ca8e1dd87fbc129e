"""Contract of resolving a generic specialization (utils.py, StructuredAlias)."""
import sys
import typing
from .lib import *
from .abstract import *
from pyvc.rt import SName, OMap, FState


def resolve():
    from structured.utils import StructuredAlias
    import structured.utils as um
    c = cur()
    TypeVar = um.TypeVar
    n = c.fresh('arguments', 0)
    f = c.fresh_fn('kind', z3.IntSort(), z3.IntSort())
    subs, hooks = [], []
    KINDS = ('plain', 'free variable', 'bound to a plain argument', 'bound to a variable', 'bound to an alias', 'alias')

    class Alias(StructuredAlias):
        """another alias: by this very contract it gives something resolved, or an alias"""

        def __init__(self, k): self.k, self.cls, self.args = k, None, ()

        def resolve(self, tvars):
            if tvars is not m: raise Unsupported('another map')
            if not hasattr(self, 'got'): self.got = Alias(self.k) if cur().branch(mkbool(f(term(self.k)) > 10), 'still generic') else ('resolved', self.k)
            return self.got

    class Arg:
        def __init__(self, k):
            self.k = k
            self.var, self.plain, self.other, self.alias = TypeVar('V'), object(), TypeVar('W'), Alias(k)

        @property
        def kind(self):
            k = f(term(self.k))
            for j, nm in enumerate(KINDS[:-1]):
                if cur().branch(mkbool(k == j), nm): return nm
            return KINDS[-1]

        @property
        def given(self):
            return {'plain': self.plain, 'alias': self.alias}.get(self.kind, self.var)

        @property
        def wanted(self):
            k = self.kind
            return self.plain if k in ('plain', 'bound to a plain argument') else self.var if k == 'free variable' else self.other if k == 'bound to a variable' else self.alias if k == 'bound to an alias' else self.alias.resolve(m)

    def arg(k):
        for j, a in subs:
            if j is k or cur().valid(mkbool(term(j) == term(k))) is True: return a
        a = Arg(k)
        subs.append((k, a))
        for h in list(hooks): h(k)
        return a

    class Map(dict):
        """the map of variables"""

        def get(self, x, default=None):
            for j, a in subs:
                if x is a.var: return default if a.kind == 'free variable' else a.plain if a.kind == 'bound to a plain argument' else a.other if a.kind == 'bound to a variable' else a.alias
            return default

        def __contains__(self, x): return self.get(x, self) is not self
        def __getitem__(self, x):
            r = self.get(x, self)
            if r is self: raise KeyError(x)
            return r
        def items(self): raise Unsupported('all the variables')
        keys = values = __iter__ = __len__ = items
    m = Map()
    args = core.SSeq(n, lambda k: arg(k).given, tuple)
    args.key = (args, 0, n)
    want = core.SSeq(n, lambda k: arg(k).wanted, tuple)
    want.key = (want, 0, n)
    for s in (args, want): s.root, s.hooks = s, hooks
    c.ghost_seqs.append(('resolved', lambda lo, hi: want.sub(lo, hi)))
    asked = []

    class Cls:
        __module__ = 'structured.hints'       # called as a hint class of the package is

        def __class_getitem__(cls, a):
            asked.append(a)
            return 'the class'
    s = StructuredAlias(Cls, args)
    before = dict(vars(s))
    r = attempt(s.resolve, m)
    nm = 'StructuredAlias.resolve'
    c.prove(not isinstance(r, Raised), f'{nm}: never refused', ('C15', 'C19'))
    if isinstance(r, Raised): return
    c.cover('resolved')
    c.prove(vars(s).keys() == before.keys() and all(vars(s)[k] is v for k, v in before.items()), f'{nm}: leaves the alias alone', ('C15', 'C16'))
    j = c.fresh('some', 0)
    there = c.branch(mkbool(j.t < term(n)), 'has arguments')
    T = ('C15',)
    if r == 'the class' if isinstance(r, str) else False:
        got = core.as_seq(asked[0])
        c.prove(mkbool(term(got.length) == term(n)), f'{nm}: the class takes all the arguments', T)
        if there:
            c.prove(got.at(j) is want.at(j), f'{nm}: the class takes what the variables stand for', T)
            c.prove(not isinstance(want.at(j), (TypeVar, StructuredAlias)), f'{nm}: the class is made when everything is resolved', T)
    else:
        c.prove(type(r) is StructuredAlias and r.cls is Cls, f'{nm}: otherwise an alias of the same class', T)
        if type(r) is not StructuredAlias: return
        got = core.as_seq(r.args)
        c.prove(mkbool(term(got.length) == term(n)), f'{nm}: the alias takes all the arguments', T)
        if there: c.prove(got.at(j) is want.at(j), f'{nm}: the alias takes what the variables stand for', T)


def specialization():
    """which annotations a specialization of a generic class has to change"""
    import structured as st
    from structured.utils import StructuredAlias
    import structured.utils as um
    mod = sys.modules['structured.structured']
    TypeVar = um.TypeVar
    c = cur()
    n = c.fresh('variables', 0)
    m = c.fresh('annotations', 0)
    f, tv, own = c.fresh_fn('kind', z3.IntSort(), z3.IntSort()), c.fresh_fn('which', z3.IntSort(), z3.IntSort()), c.fresh_fn('own', z3.IntSort(), z3.BoolSort())
    KINDS = ('a variable', 'generic', 'annotated as generic', 'a variable, annotated', 'other')
    memos = {}

    def memo(what, k, make):
        t = memos.setdefault(what, [])
        for j, v in t:
            if j is k or c.valid(mkbool(term(j) == term(k))) is True: return v
        v = make()
        t.append((k, v))
        return v

    class Given:
        """what a variable stands for"""
    var = lambda k: memo('var', k, lambda: TypeVar('V'))
    gk = c.fresh_fn('argument', z3.IntSort(), z3.IntSort())

    def argument(k):
        """a plain hint, a hint over variables, or what the package makes of one"""
        t = gk(term(k))
        if c.branch(mkbool(t == 1), 'argument over a variable'): return typing.Tuple[TypeVar('X'), TypeVar('Y')]
        if c.branch(mkbool(t == 2), 'argument is generic'): return StructuredAlias(list, (TypeVar('X'),))
        return Given()
    given = lambda k: memo('given', k, lambda: argument(k))

    def stands(x, k):
        """is x what variable k stands for, in a form whose variables are found again"""
        g = given(k)
        if typing.get_origin(g) is None: return x is g
        return type(x) is StructuredAlias and x.cls is typing.Tuple and x.args == typing.get_args(g)

    def number(x): return next((j for j, v in memos.get('var', ()) if v is x), None)
    params = core.SSeq(n, var, tuple)
    params.key, params.number = (params, 0, n), number
    args = core.SSeq(n, given, tuple)
    args.key = (args, 0, n)

    class Alias(StructuredAlias):
        """a generic hint: by its contract gives what it stands for under the map"""

        def __init__(self, k): self.k, self.cls, self.args = k, None, ()

        def resolve(self, tvars):
            j = c.fresh('some', 0)
            c.assume(mkbool(j.t < term(n)))
            c.prove(stands(tvars.get(var(j)), j), f'{nm}: generic hints are resolved with what the variables stand for', ('C15',))
            return memo('resolved', self.k, Given)

    def kind(k):
        def decide():
            for j, x in enumerate(KINDS[:-1]):
                if c.branch(mkbool(f(term(k)) == j), x):
                    if 'variable' in x: c.assume(And(mkbool(tv(term(k)) >= 0), mkbool(tv(term(k)) < term(n))))
                    return x
            c.assume(mkbool(f(term(k)) == 4))
            return KINDS[-1]
        return memo('kind', k, decide)

    def hint(k):
        w = kind(k)
        if w == 'other': return memo('hint', k, lambda: pick([None, int, typing.Annotated[int, 'note'], st.uint8, list[int]], 'hint'))
        x = var(mkint(tv(term(k)))) if 'variable' in w else memo('alias', k, lambda: Alias(k))
        return memo('hint', k, lambda: x if w in ('a variable', 'generic') else typing.Annotated[x, 'note'] if 'variable' in w else typing.Annotated[int, x])

    def wanted(k): return memo('wanted', k, lambda: Wanted(k))

    class Wanted:
        """the hint the field has to get"""
        def __init__(self, k): self.k = k
        def goal_eq(self, x):
            if type(x) is Wanted: return mkbool(term(x.k) == term(self.k))
            return stands(x, mkint(tv(term(self.k)))) if 'variable' in kind(self.k) else x is memo('resolved', self.k, Given)
    names = core.SSeq(m, lambda k: SName(memos, k), tuple)
    names.key = (names, 0, m)
    inside = lambda k: And(mkbool(term(k) >= 0), mkbool(term(k) < term(m)))
    OWN = lambda k: mkbool(own(term(k)))
    changed = lambda k, i: And(OWN(k), mkbool(term(k) < term(i)), mkbool(term(k) >= 0), mkbool(z3.And(f(term(k)) >= 0, f(term(k)) <= 3)))
    c.ghost_any.append(('hints of the first names', lambda v0, i0: (lambda i: FState(lambda k: changed(k, i), wanted)) if v0 is rt.NO_FIELDS else None))
    # what the base of the class is made of
    above = z3.Function(f'above{c.n}', z3.IntSort(), z3.BoolSort())
    sup = pick([False, True], 'has a generic base')
    Base = mod.StructuredMeta('Base', (st.Structured,), {})
    # making the class has given it, as its own, every hint its base gives (`__init_subclass__`)
    ABOVE = lambda k: And(mkbool(above(term(k))), OWN(k))
    c.ghost_filters = [('above, others', lambda k: And(ABOVE(k), Not(OWN(k)))), ('above', ABOVE)]
    of_base = OMap(rt.selected(names, 'above'), lambda x: memo('above', x.k, Given), lambda x: ABOVE(x.k))

    def base_hints(*a): return of_base

    class Cls:
        __name__ = __qualname__ = 'Cls'
    Cls = Cls()
    bases = (typing.Generic[TypeVar('T')],)
    p = c.fresh('arguments of the base', 1)
    pk = c.fresh_fn('argument', z3.IntSort(), z3.IntSort())
    base_arg = lambda k: memo('base arg', k, lambda: var(mkint(pk(term(k)))) if c.branch(And(mkbool(pk(term(k)) >= 0), mkbool(pk(term(k)) < term(n))), 'a variable') else Given())
    if sup:
        g = typing._GenericAlias(Base, (int,))
        g.__args__ = core.SSeq(p, base_arg, tuple)
        g.__args__.key = (g.__args__, 0, p)
        w = pick(['only', 'first', 'last'], 'the generic base is')
        bases = (g,) if w == 'only' else (g, *bases) if w == 'first' else (*bases, g)
    Cls.__dict__.update(__parameters__=params, __orig_bases__=bases, __annotations__=OMap(names, lambda x: hint(x.k), lambda x: OWN(x.k)))

    def hints(obj, globalns=None, localns=None, include_extras=False):
        if obj is not Cls or not include_extras: raise Unsupported('annotations of another class')
        return OMap(names, lambda x: hint(x.k))
    real = mod.get_type_hints
    mod.get_type_hints = hints
    type.__setattr__(Base, '_get_specialization_hints', staticmethod(base_hints))
    nm = 'Structured._get_specialization_hints'
    try: r = attempt(lambda: st.Structured._get_specialization_hints.__func__(Cls, *rt.star_values(args)))
    finally: mod.get_type_hints = real
    T = ('C15',)
    if isinstance(r, Raised):
        c.prove(And(isinstance(r.e, TypeError), mkbool(term(n) <= 0)), f'{nm}: refused, with TypeError, only if the class is not generic', T)
        return
    c.cover('hints given')
    c.prove(mkbool(term(n) > 0), f'{nm}: refused if the class is not generic', T)
    got = rt.fstate_of(r)
    k = c.fresh('some', 0)
    c.assume(mkbool(k.t < term(m)))
    if c.branch(OWN(k), 'annotated in the class itself'):
        want = c.branch(changed(k, m), 'has to change')
        c.prove(core.tobool(got.has(k)) is want if concbool(core.tobool(got.has(k))) else mkbool(core.tobool(got.has(k)) == want), f'{nm}: gives a hint for exactly the fields with variables', T)
        if want and c.valid(got.has(k)) is True: c.prove(value_eq(wanted(k), got.at(k)), f'{nm}: each field gets what its hint stands for', T)
    else: c.prove(Not(got.has(k)), f'{nm}: and for no others', T)


def specialized():
    """making a class from a specialized base: the annotations it gets from it"""
    import structured as st
    mod = sys.modules['structured.structured']
    c = cur()
    m, p = c.fresh('annotations', 0), c.fresh('arguments', 1)
    own, above = c.fresh_fn('own', z3.IntSort(), z3.BoolSort()), c.fresh_fn('above', z3.IntSort(), z3.BoolSort())
    OWN, ABOVE = (lambda k: mkbool(own(term(k)))), (lambda k: mkbool(above(term(k))))
    of = object()
    names = core.SSeq(m, lambda k: SName(of, k), tuple)
    names.key = (names, 0, m)
    given = []

    def hint(k):
        for j, v in given:
            if j is k or c.valid(mkbool(term(j) == term(k))) is True: return v
        v = type('Hint', (), {})
        given.append((k, v))
        return v
    c.ghost_filters = [('above, others', lambda k: And(ABOVE(k), Not(OWN(k)))), ('above', ABOVE)]
    of_base = OMap(rt.selected(names, 'above'), lambda x: hint(x.k), lambda x: ABOVE(x.k))
    args = opaque_seq('argument', p)
    got, asked = [], []

    class Own(OMap):
        def update(self, *a, **k):
            if k or len(a) != 1: raise Unsupported('update')
            got.append(a[0])

        def __setitem__(self, n, v): raise Unsupported('hints stored one by one')
    plain = pick([False, True], 'also a plain base')

    class Other: pass
    Base = mod.StructuredMeta('Base', (st.Structured,), {})
    cls = mod.StructuredMeta('Cls', (Other, Base) if plain else (Base,), {})
    g = typing._GenericAlias(Base, (int,))
    g.__args__ = args
    generic = pick([True, False], 'the base is specialized')
    w = pick(['only', 'first', 'last'], 'it is') if generic else 'none'
    other = typing.Generic[typing.TypeVar('T')]
    type.__setattr__(cls, '__orig_bases__', {'only': (g,), 'first': (g, other), 'last': (other, g), 'none': (other, Base)}[w])
    type.__setattr__(cls, '__annotations__', Own(names, lambda x: None, lambda x: OWN(x.k)))
    before = dict(vars(Base))

    def base_hints(*a):
        asked.append(rt.unstar(a))
        return of_base
    type.__setattr__(Base, '_get_specialization_hints', staticmethod(base_hints))
    order = []

    def hints(obj, globalns=None, localns=None, include_extras=False):
        order.append(len(got))
        return {}
    real = mod.get_type_hints
    mod.get_type_hints = hints
    try: r = attempt(lambda: st.Structured.__init_subclass__.__func__(cls))
    finally: mod.get_type_hints = real
    nm = 'Structured.__init_subclass__ with a specialized base'
    T = ('C15',)
    c.prove(not isinstance(r, Raised), f'{nm}: accepted', T)
    if isinstance(r, Raised): return
    c.cover('class made')
    if not generic:
        c.prove(not asked and not got, f'{nm}: no hints from a base that is not specialized', T)
        return
    ok = len(asked) >= 1 and len(got) == 1
    c.prove(ok, f'{nm}: the class gets hints from the base', T)
    if not ok: return
    c.prove(all(n == 1 for n in order), f'{nm}: before its hints are looked at', T)
    c.prove(value_eq(core.as_seq(asked[0]), args), f'{nm}: asks for the hints with the arguments of the base', T)
    f = rt.fstate_of(got[0])
    k = c.fresh('some', 0)
    c.assume(mkbool(k.t < term(m)))
    want = c.branch(And(ABOVE(k), Not(OWN(k))), 'the base gives a hint, the class has none')
    h = core.tobool(f.has(k))
    c.prove(h is want if concbool(h) else mkbool(h == want), f'{nm}: gets exactly the hints it does not define itself', T)
    if want and c.valid(h) is True: c.prove(f.at(k) is hint(k), f'{nm}: gets what the base says', T)


UNITS = [
    Unit('Structured.__init_subclass__ (specialized base)', 'structured.structured.Structured.__init_subclass__', ('C15',), specialized),
    Unit('StructuredAlias.resolve', 'structured.utils.StructuredAlias.resolve', ('C15', 'C16', 'C19'), resolve),
    Unit('Structured._get_specialization_hints', 'structured.structured.Structured._get_specialization_hints', ('C15',), specialization, cost=3),
]
