"""Run-time support of the rewritten code: calls to builtins on unknown values, lists,
comprehensions, and loops with an unknown number of iterations."""
import builtins
import collections
import copy as _copy
import functools
import itertools
import math
import operator
import re
import sys
import types
import typing
import __future__
import z3
from . import core, models, structm
from .core import *
from .core import conc, concbool, Restart, term, mkint, mkbool, isint, SSeq, as_seq, seq_concat
from .models import SBytes, SBuf, SStream, is_bytes, sb, blen
from .structm import SFmt


future_mask = 0
for _n in __future__.all_feature_names: future_mask |= getattr(__future__, _n).compiler_flag
future_mask &= ~0x40 & ~0x10   # CO_NESTED, generators


# ---------------------------------------------------------------- lists
class MList(list):
    """a list made by the code; its content may become a sequence of unknown length"""
    sym = None

    def __init__(self, xs=()):
        list.__init__(self, xs)
        if cur(): cur().track(self)

    def pyvc_cells(self):
        return {'content': self.sym if self.sym is not None else tuple(self)}

    def pyvc_set(self, n, v):
        if type(v) is SSeq:
            list.clear(self)
            self.sym = v
        elif isinstance(v, tuple):
            self.sym = None
            list.__setitem__(self, slice(None), list(v))
        else:
            self.sym = v        # poison

    def _seq(self):
        return as_seq(self.sym if self.sym is not None else tuple(self))

    def append(self, x):
        if self.sym is None: list.append(self, x)
        else: self.sym = seq_concat(self.sym, (x,))

    def extend(self, xs):
        xs = seqlike(xs)
        if self.sym is None and not issym(xs): list.extend(self, list(xs))
        else: self.pyvc_set('', seq_concat(self._seq(), xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        r = MList()
        r.pyvc_set('', tuple(self) if self.sym is None else self.sym)
        r.extend(xs)
        return r

    def __iter__(self):
        return list.__iter__(self) if self.sym is None else iter(self.sym)

    def __len__(self):
        return list.__len__(self) if self.sym is None else len(self.sym)

    def pyvc_len(self): return list.__len__(self) if self.sym is None else self.sym.length

    def __getitem__(self, i):
        if self.sym is None and not issym(i) and not (isinstance(i, slice) and (issym(i.start) or issym(i.stop))): return list.__getitem__(self, i)
        r = self._seq()[i]
        return r

    def __setitem__(self, i, v):
        if self.sym is None and not issym(i): return list.__setitem__(self, i, v)
        if conc(i) and i == 0 and type(i) is int:
            s = self.sym
            self.sym = seq_concat((v,), s.sub(1, s.length))
            if isinstance(self.sym, tuple): self.pyvc_set('', self.sym)
            return
        if type(i) is int and i == -1:
            s = self.sym
            if cur().branch(mkbool(term(s.length) <= 0)): raise IndexError('list assignment index out of range')
            self.pyvc_set('', seq_concat(s.sub(0, s.length - 1), (v,)))
            return
        raise Unsupported('assignment to an element of a list of unknown length')

    def insert(self, i, v):
        if self.sym is None and not issym(i): return list.insert(self, i, v)
        if type(i) is int and i == 0:
            self.pyvc_set('', seq_concat((v,), self.sym))
            return
        raise Unsupported('insert')

    def pop(self, i=-1):
        if self.sym is None and not issym(i): return list.pop(self, i)
        if type(i) is int and i in (0, -1):
            s = self._seq()
            if cur().branch(mkbool(term(s.length) <= 0)): raise IndexError('pop from empty list')
            x = s.at(0 if i == 0 else s.length - 1)
            self.pyvc_set('', s.sub(1, s.length) if i == 0 else s.sub(0, s.length - 1))
            return x
        raise Unsupported('list.pop')

    def clear(self): self.pyvc_set('', ())

    def __eq__(self, o):
        if self.sym is None and getattr(o, 'sym', None) is None and type(o) is not SSeq: return list.__eq__(self, o)
        raise Unsupported('comparison of lists of unknown length')

    def __bool__(self): return list.__len__(self) > 0 if self.sym is None else bool(self.sym)
    def copy(self): return self + ()
    __hash__ = None

    def _no(name):
        def f(self, *a, **k):
            if self.sym is None: return getattr(list, name)(self, *a, **k)
            raise Unsupported(f'list.{name}')
        return f
    remove, reverse, sort, index, count, __contains__, __reversed__, __mul__, __rmul__ = map(
        _no, ('remove', 'reverse', 'sort', 'index', 'count', '__contains__', '__reversed__', '__mul__', '__rmul__'))


def issym(x):
    return isinstance(x, Sym) or type(x) is MList and x.sym is not None


def seqlike(x):
    """tuple, list or SSeq with the items of any iterable"""
    if type(x) is SSeq: return x
    if type(x) is MList: return x.sym if x.sym is not None else tuple(x)
    if type(x) in (tuple, list): return x
    if hasattr(x, 'pyvc_items'): return x.pyvc_items()
    if type(x) in (SBytes, SBuf):
        x = models.sb(x)
        return SSeq(x._len, lambda k: mkint(x.byte(k)), tuple)
    if isinstance(x, types.GeneratorType): return drain(x)
    if hasattr(x, 'pyvc_lazy'):
        L = for_loop(ZipLazy(SSeq(x.length, lambda k: k, tuple), x, True), 'values on request', ())
        for _ in L:
            L.head({})
            L.tail({})
        else: L.exit({})
        return x.seq
    if isinstance(x, Sym): raise Unsupported(f'items of {type(x).__name__}')
    f = getattr(type(x), '__iter__', None)
    if isinstance(f, types.FunctionType) and f.__module__.startswith('structured'): return seqlike(f(x))
    return tuple(x)


def drain(gen):
    """all items of a native generator, which may yield batches and may contain loops
    with an unknown number of iterations"""
    r = ()
    L = for_loop(gen, 'drain', ('r',))
    for x in L:
        (r,) = L.head({'r': r})
        r = seq_concat(r, x.seq) if type(x) is Batch else seq_concat(r, (x,)) if type(r) is SSeq else r + (x,)
        L.tail({'r': r})
    else:
        (r,) = L.exit({'r': r})
    return r


def mlist(*xs):
    if not cur(): return list(xs)
    if any(type(x) is StarMarker for x in xs):
        m = MList()
        m.extend(unstar(xs))
        return m
    return MList(xs)


def mlist_from(xs):
    return MList(xs) if cur() else xs


def mtuple(*xs):
    return unstar(xs)


class StarMarker:
    def __init__(self, seq): self.seq = seq


class Batch:
    """several yielded values at once, in order"""

    def __init__(self, seq): self.seq = seq


def star(x):
    if not cur(): return x
    s = seqlike(x)
    if type(s) is SSeq:
        if conc(s.length): return tuple(s.at(k) for k in range(s.length))
        return (StarMarker(s),)
    return s


def unstar(values):
    if not any(type(v) is StarMarker for v in values): return values
    r = ()
    for v in values:
        r = seq_concat(r, v.seq) if type(v) is StarMarker else seq_concat(r, (v,))
    return r


def star_values(values):
    """a tuple of values, or a sequence of unknown length, as call arguments"""
    return star(values)


def yield_from(x):
    if not cur(): return x
    if isinstance(x, types.GeneratorType): return x
    s = seqlike(x) if not hasattr(x, 'pyvc_lazy') else x
    if type(s) is SSeq and not conc(s.length): return (Batch(s),)
    return s


# ---------------------------------------------------------------- expressions
def mkslice(a, b, c):
    return slice(a, b, c)


def getitem(x, i):
    if not cur(): return x[i]
    if isinstance(x, Sym) or type(x) is MList: return x[i]
    if x is typing.Annotated and type(i) is tuple: return typing._AnnotatedAlias(i[0], i[1:])
    if isinstance(x, type) and any('__class_getitem__' in vars(b) and b.__module__.split('.')[0] == 'structured' for b in x.__mro__):
        return call(x.__class_getitem__, i)
    sym = issym(i) or isinstance(i, slice) and (issym(i.start) or issym(i.stop) or issym(i.step))
    if sym:
        if isinstance(x, (bytes, bytearray)): return models.sb(x)[i]
        if isinstance(x, (tuple, list)):
            s = as_seq(x)
            r = s[i]
            if type(r) is SSeq and conc(r.length): return type(x)(r.at(k) for k in range(r.length))
            return r
        if isinstance(x, dict):
            if isinstance(i, SFmt): return x[i]
            for k in x:
                if conc(k) == isint(i) and k == i: return x[k]
            raise KeyError('unknown key')
        if hasattr(type(x), '__getitem__'): return x[i]
        raise Unsupported(f'unknown index of {type(x)}')
    return x[i]


def fstr(*parts):
    out, symb = [], False
    for p in parts:
        if isinstance(p, str): out.append(p)
        else:
            v, conv, spec = p
            if cur() and isinstance(v, Sym) or type(v) is MList and v.sym is not None or type(v) is SFmt:
                if conv == -1 and not spec and (isint(v) or type(v) is SFmt or hasattr(v, 'pyvc_text')):
                    d = structm.decimal(v) if isint(v) else v if type(v) is SFmt else SFmt((v.pyvc_text(),))
                    out.append(d)
                    symb = True
                else:
                    out.append(Opaque)
            else:
                try:
                    if conv == 114: v = repr(v)
                    elif conv == 115: v = str(v)
                    elif conv == 97: v = ascii(v)
                    out.append(format(v, spec))
                except PyvcStop:
                    out.append(Opaque)
                except TypeError as e:
                    if not cur() or 'returned non-string' not in str(e): raise
                    out.append(Opaque)
    if any(o is Opaque for o in out):
        return ''.join(o if type(o) is str else '?' for o in out)     # only ever a message
    if symb:
        r = ()
        for o in out: r += structm.parts_of(o)
        return SFmt.make(r)
    return ''.join(out)


Opaque = object()


def genexp(kind, fn, it, site='', filtered=False):
    """a comprehension: fn(x) is the element, or with filters a tuple of none or one"""
    c = cur()
    if kind == 'dict':
        if c and isinstance(it, SMapItems):
            if filtered: raise Unsupported('filter over an unknown mapping')
            return it.map.mapped(fn)
        if c and isinstance(it, (OMap, OMapItems)): return it.comprehension(fn, site, filtered)
        return dict(genexp('gen', fn, it, site, filtered))
    if not c or (not issym(it) and not hasattr(it, 'pyvc_items') and not isinstance(it, types.GeneratorType)):
        if kind == 'list':
            return (MList if c else list)([v for x in it for v in fn(x)] if filtered else [fn(x) for x in it])
        return (v for x in it for v in fn(x)) if filtered else (fn(x) for x in it)
    if isinstance(it, types.GeneratorType) and kind == 'gen':
        return lazy_map(fn, it, filtered)
    s = seqlike(it)
    if type(s) is not SSeq or conc(s.length):
        s = s if type(s) is not SSeq else [s.at(k) for k in range(s.length)]
        return genexp(kind, fn, iter(s), site, filtered)
    if filtered: s, fn = filter_seq(s, fn, site)
    if s.parts:
        r = ()
        for p in core.flat_parts(s): r = seq_concat(r, mapped_seq(p, fn))
    else: r = mapped_seq(s, fn)
    if hasattr(s, 'of_names') or getattr(s, 'selection', None) is not None:
        names, item = by_name(s)
        r.of_names = names, lambda n: fn(item(n))
    if s.key and getattr(fn, '__code__', None) and fn.__code__.co_code == ident_code: r = s
    if kind == 'list':
        m = MList()
        m.pyvc_set('', r)
        return m
    return SymIter(r)


def mapped_seq(s, fn):
    r = SSeq(s.length, lambda k: fn(s.at(k)), tuple)
    r.root = getattr(s, 'root', s)
    return r


def by_name(s):
    """(names, what to make of one) of a sequence derived from the names of fields"""
    return getattr(s, 'of_names', None) or (s, lambda n: n)


def filter_seq(s, fn, site):
    """(items that a filter keeps, what to make of one), when the filter provably is one
    the contract knows (ghost_filters: (name, condition on the number of the item))"""
    c = cur()
    key = ('filter', site, occurrence(site), c.decisions())
    depth = c.ptr
    alive = c.inv.setdefault(key, [n for n, _ in c.ghost_filters])
    preds = dict(c.ghost_filters)
    names, item = by_name(s)
    if c.choose(2) == 0:
        c.collect = False
        j = c.fresh('i', 0)
        c.assume(mkbool(j.t < term(s.length)))
        x = names.at(j)
        if type(x) is not SName and not getattr(names, 'numbered', False): raise Unsupported('filter over something else than fields')
        number = x.k if type(x) is SName else j
        kept = len(fn(item(x))) > 0
        for n in list(alive):
            want = core.tobool(preds[n](number))
            if c.valid(want if kept else Not(want)) is not True:
                alive.remove(n)
                raise Restart(depth)
        raise PathEnd
    if not alive: raise Unsupported('a filter that is none the contract knows')

    def one(x):
        r = fn(item(x))
        if len(r) != 1: raise Unsupported('an item that was not kept')
        return r[0]
    return selected(names, alive[0]), one


def selected(s, name):
    """the names of s that satisfy a condition, in their order.  Of these in turn the
    ones that satisfy a stronger condition are the same as when selected once"""
    c = cur()
    preds = dict(c.ghost_filters)
    p = preds[name]
    if getattr(s, 'selection', None) is not None:
        base, q = s.selection
        k = c.fresh('some', 0)
        if c.valid(Implies(p(k), preds[q](k))) is not True: raise Unsupported('filter of a filtered sequence')
        return selected(base, name)
    memo = c.memoize(('selection', id(s.key[0]) if s.key else id(s), name), dict)
    if 'n' not in memo:
        memo['n'] = c.fresh(f'how_many_{name}', 0)
        c.assume(memo['n'] <= s.length)
        memo['f'] = c.fresh_fn(f'number_{name}', z3.IntSort(), z3.IntSort())
        memo['keep'] = s
    n, f = memo['n'], memo['f']

    def at(j):
        k = mkint(f(term(j)))
        c = cur()
        inside = And(mkbool(term(j) >= 0), mkbool(term(j) < term(n)))
        c.assume(Implies(inside, And(mkbool(term(k) >= 0), mkbool(term(k) < term(s.length)), p(k))))
        return s.at(k)
    r = SSeq(n, at, tuple)
    r.key = (memo.setdefault('root', r), 0, n)
    r.selection = (s, name)
    return r


class OMap(Sym):
    """a dictionary of an unknown number of names of fields, in order"""

    def __init__(self, names, value, has=None):
        self.names, self.value = names, value
        self.has = has or (lambda n: True)        # of the root's names

    @property
    def __class__(self): return dict
    def keys(self): return self.names
    pyvc_items = keys
    def items(self): return OMapItems(self)
    def __iter__(self): raise Unsupported('native iteration over an unknown number of names')
    def __len__(self): raise Unsupported('native len of an unknown mapping')
    def pyvc_len(self): return self.names.length
    def __bool__(self): return bool(mkbool(term(self.names.length) > 0))
    def copy(self): return OMap(self.names, self.value, self.has)
    def __contains__(self, n):
        if type(n) is not SName: raise Unsupported('membership in an unknown mapping')
        return cur().branch(core.tobool(self.has(n)), 'a name of the mapping')

    def __getitem__(self, n):
        if n in self: return self.value(n)
        raise KeyError(n)

    def get(self, n, default=None): return self.value(n) if n in self else default

    def values(self):
        v = self.value
        return second(self.names, v)

    def __ror__(self, d):
        if not isinstance(d, dict) or isinstance(d, Sym): return NotImplemented
        names = seq_concat(tuple(d), self.names)
        return OMap(names, lambda n: d[n] if type(n) is str else self.value(n), self.has)

    def comprehension(self, fn, site, filtered, wrap=lambda n: n):
        names, one = self.names, fn
        if filtered:
            names, one = filter_seq(names, lambda n: fn(wrap(n)), site)
        else: one = lambda n: fn(wrap(n))
        made = []

        def value(n):
            for m, v in made:
                if cur().valid(n == m) is True: return v
            k, v = one(n)
            if type(k) is not SName or cur().valid(k == n) is not True: raise Unsupported('keys changed by a comprehension')
            made.append((n, v))
            return v
        has = self.has
        if getattr(names, 'selection', None) is not None:
            p = dict(cur().ghost_filters)[names.selection[1]]
            has = lambda n: p(n.k)
        return OMap(names, value, has)


class MDict(dict):
    """a dictionary made by the code; its keys may become an unknown number of names of
    fields (their order is not followed)"""
    state = None

    def pyvc_cells(self): return {'content': self.state if self.state is not None else tuple(dict.items(self)) if dict.__len__(self) else NO_FIELDS}

    def pyvc_set(self, n, v):
        dict.clear(self)
        self.state = None
        if v is NO_FIELDS: return
        if isinstance(v, tuple): dict.update(self, v)
        else: self.state = v

    def known(self):
        if type(self.state) is not FState: raise Unsupported('mapping not known')
        return self.state

    def __setitem__(self, n, v):
        if type(n) is not SName and self.state is None: return dict.__setitem__(self, n, v)
        if type(n) is not SName or dict.__len__(self): raise Unsupported('names and other keys in one mapping')
        self.state = with_field(self.known() if self.state is not None else NO_FIELDS, n.k, v)

    def __contains__(self, n):
        if self.state is None: return False if type(n) is SName and not dict.__len__(self) else dict.__contains__(self, n)
        return cur().branch(core.tobool(self.known().has(n.k)), 'a name of the mapping')

    def __getitem__(self, n):
        if self.state is None: return dict.__getitem__(self, n)
        if n in self: return self.state.at(n.k)
        raise KeyError(n)

    def get(self, n, default=None): return self[n] if n in self else default

    def __or__(self, o):
        if self.state is None and not isinstance(o, Sym) and getattr(o, 'state', None) is None: return dict.__or__(self, o)
        return merged(self, o)

    def __ror__(self, o):
        if self.state is None and not isinstance(o, Sym): return dict.__ror__(self, o)
        return merged(o, self)

    def update(self, *a, **k):
        if self.state is None and not any(isinstance(x, Sym) or getattr(x, 'state', None) is not None for x in a): return dict.update(self, *a, **k)
        if k or len(a) != 1: raise Unsupported('update')
        self.pyvc_set('', merged(self, a[0]).state)

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        r = mdict()
        r.pyvc_set('', self.state if self.state is not None else tuple(dict.items(self)))
        return r

    def _no(name):
        def f(self, *a, **k):
            if self.state is None: return getattr(dict, name)(self, *a, **k)
            raise Unsupported(f'dict.{name}')
        return f
    items, keys, values, __iter__, __len__, __eq__, __ne__, __delitem__, pop, popitem, setdefault, clear = map(
        _no, ('items', 'keys', 'values', '__iter__', '__len__', '__eq__', '__ne__', '__delitem__', 'pop', 'popitem', 'setdefault', 'clear'))
    del _no
    __hash__ = None


def mdict():
    return cur().track(MDict()) if cur() else {}


def fstate_of(m):
    """what a mapping has under which name"""
    if isinstance(m, MDict) and m.state is not None: return m.known()
    if isinstance(m, OMap):
        of = getattr(m.names.at(0), 'of', None)
        return FState(lambda k: m.has(SName(of, k)), lambda k: m.value(SName(of, k)))
    if type(m) in (dict, MDict) and not dict.__len__(m): return NO_FIELDS
    raise Unsupported('names and other keys in one mapping')


def merged(a, b):
    a, b = fstate_of(a), fstate_of(b)
    r = mdict()
    r.state = b if a is NO_FIELDS else a if b is NO_FIELDS else FState(lambda k: Or(a.has(k), b.has(k)), lambda k: b.at(k) if cur().branch(core.tobool(b.has(k)), 'given by the second') else a.at(k))
    return r


class PairMap(Sym):
    """a dictionary of an unknown number of (distinct) keys and their values"""

    def __init__(self, keys, vals, n): self.by, self.vals, self.n = keys, vals, n

    @property
    def __class__(self): return dict

    def find(self, x):
        k = self.by.number(x)
        return k if k is not None and cur().branch(And(mkbool(term(k) >= 0), mkbool(term(k) < term(self.n))), 'a key of the mapping') else None

    def __contains__(self, x): return self.find(x) is not None
    def __bool__(self): return bool(mkbool(term(self.n) > 0))
    def pyvc_len(self): return self.n

    def get(self, x, default=None):
        k = self.find(x)
        return default if k is None else self.vals.at(k)

    def __getitem__(self, x):
        k = self.find(x)
        if k is None: raise KeyError(x)
        return self.vals.at(k)

    def copy(self): return self
    def __iter__(self): raise Unsupported('keys of an unknown mapping')
    keys = values = items = __len__ = __iter__


def ior(a, b):
    if isinstance(b, OMap) and isinstance(a, dict): return a | b
    a |= b
    return a


def second(names, v):
    r = SSeq(names.length, lambda k: v(names.at(k)), tuple)
    r.of_names = names, v
    return r


class OMapItems(Sym):
    def __init__(self, m): self.map = m
    def __iter__(self): raise Unsupported('native iteration over an unknown number of items')
    def pyvc_items(self):
        return second(self.map.names, lambda n: (n, self.map.value(n)))
    def comprehension(self, fn, site, filtered): return self.map.comprehension(fn, site, filtered, lambda n: (n, self.map.value(n)))


def _ident(_pyvc_x): return [x for x in (_pyvc_x,)][0]
ident_code = None


def lazy_map(fn, gen, filtered):
    for x in gen:
        if type(x) is Batch:
            if filtered: raise Unsupported('filter over an unknown number of values')
            yield Batch(SSeq(x.seq.length, lambda k: fn(x.seq.at(k)), tuple))
        elif filtered: yield from fn(x)
        else: yield fn(x)


class SymIter(Sym):
    """an iterator over a sequence of unknown length that nobody has started yet"""

    def __init__(self, seq): self.seq = seq
    def pyvc_items(self): return self.seq
    def __iter__(self): raise Unsupported('native iteration over an unknown number of items')


class Key:
    """an opaque dictionary key"""

    def __init__(self, name): self.name = name
    def __repr__(self): return f'<{self.name}>'


class SMap(Sym):
    """a dictionary with unknown keys: whether a key is there is decided when asked"""

    def __init__(self, name, value, present=None):
        self.name, self.value, self.known = name, value, []
        self.present = present

    @property
    def __class__(self): return dict

    def mapped(self, elt):
        """{f(k): g(v)} of a comprehension, where f has to be the identity"""
        probe = Key('some key')
        k, _ = elt((probe, self.value(probe)))
        if k is not probe: raise Unsupported('keys changed by a comprehension')
        return SMap(self.name, lambda key: elt((key, self.value(key)))[1], self)

    def has(self, key):
        if self.present is not None: return self.present.has(key)
        for k, b in self.known:
            if k is key or isinstance(key, Sym) and isinstance(k, Sym) and cur().valid(core.value_eq(k, key)) is True: return b
        b = cur().fresh_bool(f'in_{self.name}')
        self.known.append((key, b))
        return b

    def __contains__(self, key): return cur().branch(tobool(self.has(key)), f'key in {self.name}')

    def __getitem__(self, key):
        if key in self: return self.value(key)
        raise KeyError(key)

    def get(self, key, default=None): return self.value(key) if key in self else default
    def items(self): return SMapItems(self)
    def copy(self): return SMap(self.name, self.value, self)
    def __bool__(self): raise Unsupported('truth of an unknown mapping')
    def __iter__(self): raise Unsupported('keys of an unknown mapping')
    __len__ = __bool__
    keys = values = __iter__


class SMapItems(Sym):
    def __init__(self, m): self.map = m
    def __iter__(self): raise Unsupported('items of an unknown mapping')


# ---------------------------------------------------------------- calls
HANDLERS = {}


def handler(*fs):
    def deco(g):
        for f in fs: HANDLERS[f] = g
        return g
    return deco


def is_(a, b):
    """a is b"""
    if a is b: return True
    if type(a) is not core.SVal and type(b) is not core.SVal: return False
    v, o = (a, b) if type(a) is core.SVal else (b, a)
    if core.single(o) is not None: return cur().branch(core.tobool(core.is_single(v, o)), f'the value is {o}')
    if type(o) is object: return False      # a mark of the package's own
    raise Unsupported('identity of an opaque value')


def isnt(a, b): return not is_(a, b)


def call(f, *args, **kw):
    if f is exec or f is eval:
        # the code text is compiled with the flags of the module it is in
        if args and isinstance(args[0], str):
            fl = sys._getframe(1).f_code.co_flags & future_mask
            args = (compile(args[0], '<string>', f.__name__, fl, True),) + args[1:]
        fr = sys._getframe(1)
        return f(*args) if len(args) > 1 else f(args[0], fr.f_globals, fr.f_locals)
    if not cur(): return f(*args, **kw)
    try:
        h = HANDLERS.get(f)
    except (TypeError, Unsupported):
        h = None
    if h is not None: return h(*args, **kw)
    s = getattr(f, '__self__', None)
    if isinstance(f, types.BuiltinMethodType) and s is not None and not isinstance(s, types.ModuleType):
        return builtin_method(f, s, args, kw)
    if type(f) is types.MethodDescriptorType:
        return call(getattr(args[0], f.__name__), *args[1:], **kw)
    if any(type(a) is StarMarker for a in args):
        return star_call(f, args, kw)
    w = f.__func__ if isinstance(f, types.MethodType) else f
    if isinstance(w, functools._lru_cache_wrapper):
        # assumed: a cached function gives what it would give uncached
        return call(w.__wrapped__, *((f.__self__,) if w is not f else ()), *args, **kw)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    return native(f, args, kw)


def unknown(x):
    return isinstance(x, Sym) or type(x) is MList and x.sym is not None


def native(f, args, kw):
    """a call the engine does not look into.  Code written in C may not cope with
    unknown values: an exception it raises then says nothing about the program"""
    if not isinstance(f, C_TYPES) and not (isinstance(f, type) and f.__module__ in C_MODULES): return f(*args, **kw)
    if not any(map(unknown, args)) and not any(map(unknown, kw.values())) and not unknown(getattr(f, '__self__', None)): return f(*args, **kw)
    try:
        return f(*args, **kw)
    except Exception as e:
        raise Unsupported(f'{getattr(f, "__name__", f)} of an unknown value: {type(e).__name__}') from None


C_TYPES = (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType, types.ClassMethodDescriptorType)
C_MODULES = ('builtins', 'itertools', 'collections', 'functools', '_io', 'io', 're', 'operator', '_operator')


def star_call(f, args, kw):
    fn = f
    extra = 0
    if isinstance(fn, types.MethodType):
        fn, extra = fn.__func__, 1
    if isinstance(fn, type) or not isinstance(fn, types.FunctionType):
        if getattr(fn, 'pyvc_star', False) or isinstance(f, types.MethodType): return f(*args, **kw)
        raise Unsupported(f'an unknown number of arguments for {f}')
    co = fn.__code__
    first = next(i for i, a in enumerate(args) if type(a) is StarMarker)
    npos = co.co_argcount - extra
    if co.co_flags & 4 and first >= npos: return f(*args, **kw)
    # the parameters have to match the number of values exactly
    need = npos - (len(args) - 1)
    if sum(type(a) is StarMarker for a in args) == 1 and not co.co_flags & 4:
        seq = args[first].seq
        for n in range(max(need - len(fn.__defaults__ or ()), 0), need + 1):
            if cur().branch(mkbool(term(seq.length) == n), f'{n} values'):
                return f(*args[:first], *[seq.at(k) for k in range(n)], *args[first + 1:], **kw)
        raise TypeError('wrong number of arguments')
    raise Unsupported('an unknown number of arguments')


def builtin_method(f, s, args, kw):
    name = f.__name__
    if isinstance(s, re.Pattern) and any(type(a) is SFmt for a in args):
        if name in ('match', 'fullmatch', 'search') and len(args) == 1: return structm.regex(s, name, args[0])
        raise Unsupported(f're.{name} of a text with unknown numbers')
    if isinstance(s, (bytes, bytearray)) and name == 'join':
        xs = seqlike(args[0])
        if type(xs) is SSeq: return join_seq(s, xs)
        xs = list(xs)
        if any(isinstance(x, Sym) for x in xs):
            r = ()
            for k, x in enumerate(xs):
                if not is_bytes(x): raise TypeError('sequence item: expected a bytes-like object')
                if k and s: r += (sb(s),)
                r += (x,)
            return models.sb(models.concat(*r), type(s))
        return f(xs)
    if isinstance(s, str) and name == 'join':
        if issym(args[0]):
            xs = seqlike(args[0])
            if type(xs) is SSeq and not conc(xs.length): return SFmt((structm.Joined(s, xs),))
            args = (xs,)
        xs = [x for x in args[0]]
        if any(isinstance(x, SFmt) for x in xs):
            r = ()
            for k, x in enumerate(xs): r += (structm.parts_of(s) if k else ()) + structm.parts_of(x)
            return SFmt.make(r)
        if any(isinstance(x, Sym) for x in xs): raise Unsupported('str.join')
        return f(xs)
    if isinstance(s, (bytes, bytearray)) and any(isinstance(a, Sym) for a in args):
        return getattr(models.sb(s), name)(*args, **kw)
    if isinstance(s, (list, collections.deque)) and name in ('extend',) and any(issym(a) for a in args):
        raise Unsupported('extending a native list by an unknown number of items')
    if isinstance(s, dict) and args and issym(args[0]) and name in ('get', 'pop', 'setdefault', '__getitem__') and not isinstance(args[0], SFmt):
        if name not in ('get', '__getitem__'): raise Unsupported(f'dict.{name} of an unknown key')
        try: return getitem(s, args[0])
        except KeyError:
            if name == '__getitem__': raise
            return args[1] if len(args) > 1 else None
    if isinstance(s, type) and issubclass(s, (int, bytes)) and any(isinstance(a, Sym) for a in args):
        if name == 'from_bytes': return int_from_bytes(*args, **kw)
        raise Unsupported(f'{s.__name__}.{name}')
    if isinstance(s, types.GeneratorType): return f(*args, **kw)
    if any(type(a) is StarMarker for a in args): raise Unsupported(f'an unknown number of arguments for {name}')
    return native(f, args, kw)


def join_seq(s, xs):
    if len(s): raise Unsupported('join with a separator')
    r = ()
    for x in core.flat_parts(xs):
        if x.joiner: r += (x.joiner(0, x.length),)
        elif conc(x.length): r += tuple(x.at(k) for k in range(x.length))
        else: raise Unsupported('join of an unknown number of parts')
    for x in r:
        if not is_bytes(x): raise TypeError('sequence item: expected a bytes-like object')
    return models.concat(*r)


def int_from_bytes(b, byteorder='big', *, signed=False):
    n = blen(b)
    if signed or not conc(n): raise Unsupported('int.from_bytes')
    return models.uint_from(b, 0, n, '<' if byteorder == 'little' else '>') if n else 0


@handler(len)
def h_len(x):
    if hasattr(type(x), 'pyvc_len'): return x.pyvc_len()
    if type(x) is SSeq: return x.length
    return len(x)


@handler(type)
def h_type(x, *a, **k):
    if a: return type(x, *a, **k)
    if isinstance(x, Sym): return x.__class__
    if type(x) is MList: return list
    t = type(x)
    f = getattr(t, 'pyvc_type', None)
    return t if f is None else f(x)


@handler(bytes)
def h_bytes(x=b'', *a):
    if isinstance(x, Sym):
        if is_bytes(x): return models.sb(x, bytes)
        if isint(x): return SBytes((models.Fill(0, x),), bytes)
        raise Unsupported('bytes()')
    if type(x) in (MList, tuple, list) and any(isinstance(v, Sym) for v in x):
        return SBytes((models.Terms([byte_term(v) for v in x]),))
    return bytes(x, *a)


def byte_term(v):
    if not cur().branch(And(mkbool(term(v) >= 0), mkbool(term(v) < 256))): raise ValueError('bytes must be in range(0, 256)')
    return term(v)


@handler(bytearray)
def h_bytearray(x=b'', *a):
    if isint(x):
        if cur().branch(mkbool(term(x) < 0)): raise ValueError('negative count')
        return SBuf(SBytes((models.Fill(0, x),)) if issym(x) or x else SBytes(()))
    if isinstance(x, str): return bytearray(x, *a)
    return SBuf(models.sb(h_bytes(x), bytes))


@handler(memoryview)
def h_memoryview(x):
    if type(x) is SBytes: return models.sb(x, memoryview)
    if type(x) is SBuf:
        raise Unsupported('memoryview of a writable buffer')
    return memoryview(x)


@handler(int)
def h_int(x=0, *a, **k):
    if type(x) is SFmt: return structm.fmt_to_int(x)
    if isint(x) and issym(x): return x
    if type(x) is SBool: return ite(x, 1, 0)
    if isinstance(x, Sym): raise Unsupported('int()')
    return int(x, *a, **k)


@handler(bool)
def h_bool(x=False):
    return bool(x)


@handler(str)
def h_str(x='', *a, **k):
    if type(x) is SFmt: return x
    if isint(x) and issym(x): return structm.decimal(x)
    if isinstance(x, Sym): raise Unsupported('str()')
    return str(x, *a, **k)


@handler(range)
def h_range(*a):
    if not any(issym(x) for x in a): return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3: raise Unsupported('range with a step')
    n = hi - lo
    if cur().branch(mkbool(term(n) <= 0)): return ()
    return SSeq(n, lambda k: lo + k, tuple)


@handler(tuple)
def h_tuple(x=()):
    s = seqlike(x)
    if type(s) is not SSeq: return tuple(s)
    if s.kind is tuple: return s
    r = SSeq(s.length, s.at, tuple, s.key)
    r.root = getattr(s, 'root', s)
    return r


@handler(list)
def h_list(x=()):
    m = MList()
    m.extend(seqlike(x))
    return m


@handler(iter)
def h_iter(x, *a):
    if a: return iter(x, *a)
    if issym(x): return SymIter(seqlike(x))
    return iter(x)


@handler(zip)
def h_zip(*its, strict=False):
    its = [x for x in its]
    if len(its) == 2 and isinstance(its[1], types.GeneratorType) or any(isinstance(i, types.GeneratorType) or hasattr(i, 'pyvc_lazy') for i in its):
        return zip_lazy(its, strict)
    if not any(issym(i) or hasattr(i, 'pyvc_items') for i in its): return zip(*its, strict=strict)
    ss = [as_seq(seqlike(i)) for i in its]
    if not ss: return zip()
    n = ss[0].length
    for s in ss[1:]:
        if s.length is n: continue
        if cur().branch(mkbool(term(s.length) == term(n)), 'zip: equal lengths'): continue
        if strict: raise ValueError('zip() arguments of different length')
        if cur().branch(mkbool(term(s.length) < term(n))): n = s.length
    if conc(n): return iter([tuple(s.at(k) for s in ss) for k in range(n)])
    r = SSeq(n, lambda k: tuple(s.at(k) for s in ss), tuple)
    r.zipped = ss
    return SymIter(r)


def zip_lazy(its, strict):
    """zip of a sequence and an iterator that gives as many values one at a time, on
    request.  The iterator is exhausted only by strict=True"""
    if len(its) != 2 or not hasattr(its[1], 'pyvc_lazy') or not (issym(its[0]) or hasattr(its[0], 'pyvc_items') or isinstance(its[0], (tuple, list))): raise Unsupported('zip of a generator')
    a, b = as_seq(seqlike(its[0])), its[1]
    if cur().valid(mkbool(term(a.length) == term(b.length))) is not True: raise Unsupported('zip of different lengths')
    return ZipLazy(a, b, strict)


class ZipLazy(Sym):
    def __init__(self, seq, lazy, strict): self.seq, self.lazy, self.strict = seq, lazy, strict
    def __iter__(self): raise Unsupported('native iteration over values given on request')


@handler(enumerate)
def h_enumerate(x, start=0):
    if not (issym(x) or hasattr(x, 'pyvc_items')): return enumerate(x, start)
    s = seqlike(x)
    if type(s) is not SSeq: return enumerate(s, start)
    return SymIter(SSeq(s.length, lambda k: (start + k, s.at(k)), tuple))


@handler(map)
def h_map(f, *its):
    if not any(issym(i) or hasattr(i, 'pyvc_items') or isinstance(i, types.GeneratorType) for i in its):
        return map(lambda *a: call(f, *a), *its)
    z = h_zip(*its)
    if isinstance(z, SymIter):
        s = z.seq
        return SymIter(SSeq(s.length, lambda k: call(f, *s.at(k)), tuple))
    return map(lambda a: call(f, *a), z)


@handler(dict)
def h_dict(*a, **k):
    if not a and not k: return mdict()
    if len(a) == 1 and not k:
        if isinstance(a[0], (OMap, MDict, PairMap)): return a[0].copy()
        z = getattr(getattr(a[0], 'seq', None), 'zipped', None)
        if z and len(z) == 2 and hasattr(z[0], 'number'): return PairMap(*z, a[0].seq.length)
    if any(isinstance(x, Sym) for x in a): raise Unsupported('dict of something unknown')
    return dict(*a, **k)


@handler(reversed)
def h_reversed(x):
    s = seqlike(x)
    if type(s) is not SSeq: return reversed(s)
    return SymIter(SSeq(s.length, lambda k: s.at(s.length - 1 - k), tuple))


@handler(sum)
def h_sum(x, start=0):
    s = seqlike(x)
    if type(s) is SSeq and not conc(s.length):
        return sum_seq(s, start)
    r = start
    for v in (s if type(s) is not SSeq else [s.at(k) for k in range(s.length)]): r = r + v
    return r


def sum_seq(s, start):
    """a sum of unknown length that is a difference of a known prefix function, shown by
    induction on the number of items"""
    c = cur()
    if c.folding: return fold(s, start)
    if s.parts:
        for p in core.flat_parts(s): start = h_sum(p if not conc(p.length) else [p.at(k) for k in range(p.length)], start)
        return start
    i = c.fresh('i', 0)
    c.assume(mkbool(i.t <= term(s.length)))
    if c.branch(mkbool(term(s.length) <= 0), 'no item'): return start
    j = c.fresh('j', 0)
    c.assume(mkbool(j.t < term(s.length)))
    for g in c.ghost_index: g(j)
    x = s.at(j)
    for n, g in c.ghost_ints:
        if isint(x) and c.valid(mkbool(term(g(j + 1)) - term(g(j)) == term(x))) is True:
            r = g(s.length) - g(0)
            return r if conc(start) and start == 0 else start + r
    raise Unsupported('sum of an unknown number of items')


def fold(s, r):
    """((start + x0) + x1) + .., as the loop it is"""
    L = for_loop(s, 'sum', ('r',))
    for x in L:
        (r,) = L.head({'r': r})
        r = r + x
        L.tail({'r': r})
    else:
        (r,) = L.exit({'r': r})
    return r


def quantified(x, want):
    s = seqlike(x)
    if type(s) is SSeq and not conc(s.length):
        # either some item decides, or none does, which is then known about every item
        c = cur()
        if s.parts: return want if any(quantified(p, want) is want for p in core.flat_parts(s)) else not want
        if c.branch(mkbool(term(s.length) <= 0), 'no item'): return not want
        root = getattr(s, 'root', s)
        hooks = getattr(root, 'hooks', None)
        if hooks is None: raise Unsupported('any/all of an unknown number of items')
        if c.choose(2, f'{"some" if want else "not every"} item satisfies') == 0:
            i = c.fresh('witness', 0)
            c.assume(mkbool(i.t < term(s.length)))
            if bool(s.at(i)) is not want: raise PathEnd
            return want
        # (the items before a deciding one are looked at; here all are)
        def known(k):
            if bool(s.at(k)) is want: raise PathEnd
        hooks.append(known)
        i = c.fresh('some', 0)
        c.assume(mkbool(i.t < term(s.length)))
        s.at(i)
        return not want
    for v in (s if type(s) is not SSeq else [s.at(k) for k in range(s.length)]):
        if bool(v) is want: return want
    return not want


@handler(any)
def h_any(x):
    if isinstance(x, types.GeneratorType):
        for v in x:
            if v: return True
        return False
    return quantified(x, True)


@handler(all)
def h_all(x):
    if isinstance(x, types.GeneratorType):
        for v in x:
            if not v: return False
        return True
    return quantified(x, False)


@handler(min)
def h_min(*a, **k):
    if not k and len(a) > 1 and any(issym(x) for x in a):
        r = a[0]
        for x in a[1:]: r = ite(mkbool(term(x) < term(r)), x, r)
        return r
    return min(*a, **k)


@handler(max)
def h_max(*a, **k):
    if not k and len(a) > 1 and any(issym(x) for x in a):
        r = a[0]
        for x in a[1:]: r = ite(mkbool(term(x) > term(r)), x, r)
        return r
    return max(*a, **k)


@handler(ord)
def h_ord(x):
    if type(x) in (SBytes, SBuf):
        if not cur().branch(mkbool(term(blen(x)) == 1)): raise TypeError('ord() expected a character')
        return x[0]
    return ord(x)


@handler(divmod)
def h_divmod(a, b): return a // b, a % b


@handler(functools.reduce)
def h_reduce(f, it, *init):
    s = seqlike(it)
    if type(s) is SSeq and not conc(s.length): return reduce_seq(f, s, init)
    s = list(s) if type(s) is not SSeq else [s.at(k) for k in range(s.length)]
    if init: r = init[0]
    else:
        if not s: raise TypeError('reduce() of empty iterable with no initial value')
        r = s.pop(0)
    for x in s: r = call(f, r, x)
    return r


@handler(itertools.repeat)
def h_repeat(x, n=None):
    if n is None: return itertools.repeat(x)
    if issym(n):
        if cur().branch(mkbool(n.t <= 0)): return ()
        r = SSeq(n, lambda k: x, tuple)
        r.same = (x,)
        return SymIter(r)
    return itertools.repeat(x, n)


def reduce_seq(f, s, init):
    """f(..f(f(x0, x1), x2).., xn), as the loop it is"""
    if init: r = init[0]
    else:
        if cur().branch(mkbool(term(s.length) <= 0), 'nothing to reduce'): raise TypeError('reduce() of empty iterable with no initial value')
        r, s = s.at(0), s.sub(1, s.length)
    if isinstance(r, str): cur().ghost_texts.append(s.at(0))
    L = for_loop(s if not conc(s.length) else [s.at(k) for k in range(s.length)], 'reduce', ('r',))
    for x in L:
        (r,) = L.head({'r': r})
        r = call(f, r, x)
        L.tail({'r': r})
    else:
        (r,) = L.exit({'r': r})
    return r


@handler(itertools.chain)
def h_chain(*its):
    if not any(issym(i) or hasattr(i, 'pyvc_items') for i in its): return itertools.chain(*its)
    r = ()
    for i in its: r = seq_concat(r, seqlike(i))
    return SymIter(r) if type(r) is SSeq else iter(r)


@handler(itertools.chain.from_iterable)
def h_chain_all(x):
    s = seqlike(x)
    if type(s) is SSeq and not conc(s.length):
        if s.same is None: raise Unsupported('chain of an unknown number of iterables')
        return SymIter(power(seqlike(s.same[0]), s.length))
    r = ()
    for i in (s if type(s) is not SSeq else [s.at(k) for k in range(s.length)]): r = seq_concat(r, seqlike(i)) if issym(i) or type(r) is SSeq else r + tuple(seqlike(i))
    return SymIter(r) if type(r) is SSeq else iter(r)


def power(s, n):
    """a sequence repeated an unknown number of times"""
    s = as_seq(s)
    if conc(s.length) and s.length == 0: return s
    L = s.length

    def at(k):
        j = mkint(MOD(term(k), term(L)))
        cur().assume(Implies(mkbool(term(L) > 0), And(mkbool(term(j) >= 0), mkbool(term(j) < term(L)))))
        return s.at(j)
    return SSeq(L * n, at, s.kind)


MOD = z3.Function('index_within_copy', z3.IntSort(), z3.IntSort(), z3.IntSort())


@handler(itertools.islice)
def h_islice(x, *a):
    if issym(x) or any(issym(v) for v in a):
        s = slice(*a)
        return SymIter(as_seq(seqlike(x))[s])
    return itertools.islice(x, *a)


@handler(_copy.copy)
def h_copy(x):
    if isinstance(x, Sym): raise Unsupported('copy')
    y = _copy.copy(x)
    if y is not x and (type(y).__module__ or '').startswith('structured'): AttrCells.of(y)
    return y


@handler(abs)
def h_abs(x): return abs(x)


@handler(hash)
def h_hash(x):
    return hash(x)


@handler(sorted)
def h_sorted(x, **k):
    if issym(x): raise Unsupported('sorted')
    return sorted(x, **k)


@handler(math.isinf)
def h_isinf(x):
    if isint(x) and issym(x): return False
    return math.isinf(x)


@handler(next)
def h_next(it, *d):
    return next(it, *d)


@handler(getattr)
def h_getattr(o, n, *d):
    if isinstance(n, SName): return Fields.of(o).get(n, *d)
    if isinstance(n, Sym): raise Unsupported('attribute of unknown name')
    return getattr(o, n, *d)


@handler(setattr)
def h_setattr(o, n, v):
    if isinstance(n, SName): return Fields.of(o).set(n, v)
    if isinstance(n, Sym): raise Unsupported('attribute of unknown name')
    return setattr(o, n, v)


@handler(operator.attrgetter)
def h_attrgetter(*names):
    names = unstar(names)
    if type(names) is not SSeq and not any(isinstance(n, Sym) for n in names): return operator.attrgetter(*names)
    names = as_seq(names)

    def get(x):
        if cur().branch(mkbool(term(names.length) == 1), 'one attribute'): return h_getattr(x, names.at(0))
        f = Fields.of(x)
        state = f.state
        r = SSeq(names.length, lambda k: f.read(state, names.at(k)), tuple)
        if state.key and names.key and names.key[1] == 0: r.key = state.key
        return r
    if cur().branch(mkbool(term(names.length) <= 0)): raise TypeError('attrgetter expected at least 1 argument')
    return get


class SName(Sym):
    """name k of the unknown number of (distinct) field names of a class"""

    def __init__(self, of, k): self.of, self.k = of, k
    def __repr__(self): return f'<name {self.k}>'

    @property
    def __class__(self): return str

    def __eq__(self, o):
        if type(o) is SName: return self.of is o.of and mkbool(term(self.k) == term(o.k))
        if isinstance(o, str):
            # a known name is that of at most one field, which may be any
            if not isinstance(o, str) or isinstance(o, Sym) or o.startswith('_') or hasattr(object, o): raise Unsupported('comparison of a field name')
            if o == 'self' or not o.isidentifier(): return False
            c = cur()
            known = c.known_names.setdefault(id(self.of), (self.of, {}))[1]
            if o not in known:
                known[o] = i = c.fresh(f'index of {o}')
                for n, j in known.items():
                    if n != o: c.assume(mkbool(i.t != j.t))
            return mkbool(term(self.k) == known[o].t)
        return False

    def __ne__(self, o): return Not(self == o)
    def __hash__(self): raise Unsupported('hash of a field name')
    def pyvc_text(self): return self


class FState:
    """fields of an object at one time: has(k), at(k); key: the sequence they are"""

    def __init__(self, has, at, key=None): self.has, self.at, self.key = has, at, key

    def goal_eq(self, o):
        """pointwise equality, as a goal"""
        if type(o) is not FState: return False
        if o is self: return True
        c = cur()
        k = c.fresh('some_field', 0)
        for g in c.ghost_index: g(k)
        a, b = core.tobool(self.has(k)), core.tobool(o.has(k))
        same = a is b if concbool(a) and concbool(b) else mkbool(b == a if concbool(a) else a == b)
        if a is False or b is False: return same
        return And(same, core.under(And(mkbool(a), mkbool(b)), lambda: value_eq(self.at(k), o.at(k))))


class Fields:
    """the fields with unknown names of one object"""

    def __init__(self, o):
        self.o = o
        self.state = FState(lambda k: False, None)

    @staticmethod
    def of(o):
        c = cur()
        for x, f in c.fields:
            if x is o: return f
        if c.looping: raise Unsupported('fields of an object made before the loop')
        f = c.track(Fields(o))
        c.fields.append((o, f))
        return f

    def pyvc_cells(self): return {'fields': self.state}
    def pyvc_set(self, n, v): self.state = v

    def read(self, state, n, *d):
        if type(state) is not FState: raise Unsupported('fields not known')
        if not cur().branch(core.tobool(state.has(n.k)), 'the field is set'):
            if d: return d[0]
            raise AttributeError('field not set')
        return state.at(n.k)

    def get(self, n, *d): return self.read(self.state, n, *d)

    def set(self, n, v):
        if type(self.state) is not FState: raise Unsupported('fields not known')
        no_clash(self.o)
        self.state = with_field(self.state, n.k, v)


def no_clash(o):
    """a field of the object may have any name but those of Python and of the documented
    interface: an attribute with another name may be a field's"""
    names = set(getattr(o, '__dict__', ()))
    if hasattr(type(o), 'create_unpack'): names -= set(dir(type(o)))
    else: names.update(n for k in type(o).__mro__[:-1] for n in vars(k))
    for n in sorted(names):
        if isinstance(n, str) and not (n.startswith('_') and '__' in n): raise Unsupported(f'a field may be named {n}')


NO_FIELDS = FState(lambda k: False, None)


def with_field(old, k, v):
    same = lambda j: mkbool(term(j) == term(k))

    def at(j):
        e = same(j)
        if e is True or cur().valid(e) is True: return v
        if cur().valid(Not(e)) is True: return old.at(j)
        if core.tobool(old.has(j)) is False: return v
        if isinstance(v, (int, Sym)): return ite(e, v, old.at(j))
        return v if cur().branch(e, 'this field') else old.at(j)
    return FState(lambda j: Or(same(j), old.has(j)), at)


# ---------------------------------------------------------------- attributes
class AttrCells:
    """the attributes of an object, followed through loops"""

    def __init__(self, o): self.o = o

    @staticmethod
    def of(o):
        c = cur()
        if id(o) not in c.attrs:
            c.attrs[id(o)] = c.track(AttrCells(o))
            if not c.looping: Fields.of(o)

    def pyvc_cells(self): return vars(self.o)
    def pyvc_set(self, n, v): vars(self.o)[n] = v


def obj_setattr(self, n, v):
    """__setattr__ of the classes of the package"""
    c = cur()
    if c and id(self) not in c.attrs:
        d = getattr(self, '__dict__', None)
        if d is not None:
            if d and c.looping: raise Unsupported('attribute of an object made before the loop')
            AttrCells.of(self)
    object.__setattr__(self, n, v)


# ---------------------------------------------------------------- loops
class Poison(Sym):
    """a variable of a loop for which no invariant is known"""

    def __init__(self, name): self.__dict__['name'] = name

    def _no(self, *a, **k):
        raise Unsupported(f'no invariant known for {self.__dict__["name"]}')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __getitem__ = __len__ = __iter__ = __bool__ = __call__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __hash__ = None
    def __eq__(self, o): self._no()
    __ne__ = __eq__

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('pyvc_'): raise AttributeError(n)
        self._no()

    def __repr__(self): return f'Poison({self.__dict__["name"]})'


def forget(name, v0, junk=False):
    """a variable with no invariant: any value of its kind.  What is refuted from here on
    proves nothing about the code (unless the variable really is arbitrary: junk)"""
    c = cur()
    if junk:
        v = c.fresh(f'other_{name}', 0)
        c.junk.add(str(v.t))
        return v
    if isint(v0) and not concbool(v0):
        v = c.fresh(f'any_{name}')
        c.forgotten.add(str(v.t))
        return v
    if type(v0) is SBytes or type(v0) is bytes:
        n = c.fresh(f'len_any_{name}', 0)
        b = models.Base(f'any_{name}', n)
        c.forgotten |= {str(n.t), b.name}
        return SBytes((models.Ref(b, 0, n),), type(v0) if type(v0) is bytes else v0.kind, n)
    return Poison(name)


class Unbound:
    def __repr__(self): return 'unbound'


UNBOUND = Unbound()


class Rec:
    """what is known about the loop at one place: surviving candidates per variable"""

    def __init__(self):
        self.local = {}      # name -> [candidate]
        self.heap = {}       # (object number, cell) -> [candidate]
        self.preds = {}
        self.ends = {}       # path of an iteration that does not leave the loop -> (index, condition)
        self.any = False     # an iteration that stands for any has been followed
        self.vague = False   # some of these conditions are weaker than they are


def eq_cond(a, b):
    """provable equality of two values of a variable (False when kinds differ)"""
    if a is b: return True
    if type(a) is Poison or type(b) is Poison: return False
    try:
        return core.value_eq(a, b)
    except Unsupported:
        return False


def candidates(v0, v1, i0, i1, v1known=True):
    """candidate functions index -> value for a variable that was v0 at i0 and is v1 at i1"""
    c = cur()
    out = [('same', lambda i: v0)]
    if isint(v0) and not concbool(v0):
        if v1known and isint(v1):
            d = v1 - v0
            if conc(d) and d != 0: out.append((f'+{d}*i', lambda i, d=d: v0 + (i - i0) * d))
        for n, g in c.ghost_ints: out.append((n, lambda i, g=g: v0 + (g(i) - g(i0))))
    if is_bytes(v0) and type(v0) is not SBuf or type(v0) in (SBytes,):
        for n, g in c.ghost_bytes:
            out.append((n, lambda i, g=g: models.sb(models.concat(v0, g(i0, i)), type(v0) if not isinstance(v0, Sym) else v0.kind)))
        for role, view in c.ghost_views:
            r = ref_of(view)
            if r is None: continue
            if v1known and is_bytes(v1) and type(v1) is SBytes and type(v0) is SBytes:
                d = step_of(v0, v1, r)
                if d: out.append((f'{role}+{d[0]}:{d[1]}', copied(v0, r, i0, *d)))
        for n, g in c.ghost_bufs: out.append((n, lambda i, g=g: g(i0, i, v0)))
    if isinstance(v0, (list, tuple)) and type(v0) is not MList:
        for n, g in c.ghost_seqs: out.append((n, lambda i, g=g: seq_concat(v0, g(i0, i))))
    if type(v0) is SFmt or type(v0) is str:
        for k, F in enumerate(c.ghost_texts):
            for n, g in (('counted', counted_text), ('repeated', repeated_text)):
                r = g(k, F, v0, i0)
                if r is not None: out.append((f'{n} {k}', r))
    for n, g in c.ghost_any:
        r = g(v0, i0)
        if r is not None: out.append((n, r))
    return out


def copies(F, v0):
    """how many copies of the format F the text v0 is"""
    return 0 if type(v0) is str and not v0 else 1 if v0 is F or type(v0) is type(F) and structm.parts_of(v0) == structm.parts_of(F) else None


def counted_text(k, F, v0, i0):
    """F is one specifier and its count is added up"""
    m = copies(F, v0)
    if m is None or any(type(p) is structm.Txt for p in structm.flat(structm.parts_of(F))): return None
    try: t = structm.tokens(F)
    except structm.error: return None
    if len(t) != 1: return None
    (count, code), = t

    def at(i):
        if cur().branch(mkbool(term(i) <= term(i0)), 'first'): return v0
        return SFmt.make((count * (i - i0 + m), code))
    return at


def repeated_text(k, F, v0, i0):
    """some text that means as many copies of F (same_meaning decides about it)"""
    m = copies(F, v0)
    if m is None: return None
    made = cur().memoize(('repeated', k, v0 if type(v0) is str else id(v0)), list)

    def at(i):
        c = cur()
        if c.valid(mkbool(term(i) == term(i0))) is True: return v0
        for j, t in made:
            if c.valid(mkbool(term(i) == term(j))) is True: return SFmt((t,))
            if c.valid(mkbool(term(i) == term(j) + 1)) is True: return meant(SFmt((t,) + structm.parts_of(F)))
        if c.valid(mkbool(term(i) == term(i0) + 1)) is True: return meant(SFmt.make(structm.parts_of(v0) + structm.parts_of(F)))
        t = structm.Txt(f'copies{len(made)}', power=(F, i - i0 + m))
        made.append((i, t))
        return SFmt((t,))
    return at


def meant(f):
    if type(f) is str: f = SFmt((f,))
    f.meant = True
    return f


def ref_of(view):
    return view.segs[0] if len(view.segs) == 1 and type(view.segs[0]) is models.Ref else None


def step_of(v0, v1, r):
    """v1 is v0 with d bytes of the view appended, k bytes after the view's start"""
    n = v1._len - v0._len
    last = v1.segs[-1] if v1.segs else None
    if not conc(n) or n <= 0 or type(last) is not models.Ref or last.base is not r.base: return None
    k = last.start + last.length - n - r.start
    return (k, n) if conc(k) else None


def copied(v0, r, i0, k, d):
    def at(i):
        n = (i - i0) * d
        if conc(n) and n == 0: return v0
        return SBytes(models.norm(v0.segs + (models.Ref(r.base, r.start + k, n),)), v0.kind, v0._len + n)
    return at


JUNK = 'junk'


class Loop:
    """base of all loop objects; concrete loops need nothing"""
    sym = False

    def __init__(self, it, site, names):
        self.it, self.site, self.names = it, site, names
        self.pending = None
        self.jumped = None

    def __iter__(self): return self

    def __next__(self):
        c = cur()
        e = c.epoch if c else 0
        if self.jumped is not None and self.jumped is not True:
            pass
        try:
            return next(self.it)
        finally:
            if c and c.epoch != e: self.pending = c.jump

    def head(self, loc):
        vals = [loc.get(n, UNBOUND) for n in self.names]
        if self.pending is None: return vals
        j, self.pending = self.pending, None
        return self.arrive(j, vals, j.index)

    def exit(self, loc):
        vals = [loc.get(n, UNBOUND) for n in self.names]
        if self.pending is None: return vals
        j, self.pending = self.pending, None
        return self.arrive(j, vals, j.index)

    def arrive(self, j, vals, i):
        """this loop is driven by a generator whose own loop moved on to iteration i"""
        self.jumped = j
        self.v0 = vals
        self.i0 = j.i0
        self.key = ('driven', self.site, j.key, occurrence(self.site))
        self.depth = j.depth
        self.rec = cur().inv.setdefault(self.key, Rec())
        self.peel = j.mode == 'peel'
        if self.peel: return vals
        return [self.value_at(n, v, i) for n, v in zip(self.names, vals)]

    def value_at(self, name, v0, i):
        cs = self.rec.local.get(name)
        if cs is None: return v0
        if cs == [JUNK]: return forget(name, v0, True)
        for nm in cs:
            for n2, f in candidates(v0, None, self.i0, None, False) + consts(nm, v0, self.i0):
                if n2 == nm: return f(i)
        return forget(name, v0)

    def tail(self, loc):
        j = self.jumped
        if j is None: return
        self.check_locals(loc, j.index + 1)

    def check_locals(self, loc, i1):
        c = cur()
        for n, v0 in zip(self.names, self.v0):
            v1 = loc.get(n, UNBOUND)
            if self.peel:
                self.filter(self.rec.local, n, v0, v1, i1)
            else:
                cs = self.rec.local.get(n)
                if cs is None:
                    if v1 is v0: continue
                    self.rec.local[n] = []
                    self.filter(self.rec.local, n, v0, v1, i1, fresh=True)
                    raise Restart(self.depth)
                if not cs or cs == [JUNK]: continue
                want = self.value_at(n, v0, i1)
                if c.valid(eq_cond(v1, want)) is not True:
                    cs.pop(0)
                    raise Restart(self.depth)

    def filter(self, store, n, v0, v1, i1, fresh=False):
        c = cur()
        if n not in store and v1 is v0:
            store[n] = ['same']
            # an unchanged variable may change on another path: keep the others too
            store[n] += [nm for nm, f in candidates(v0, v1, self.i0, i1)[1:] if holds(f, v1, i1)]
            return
        cs = [(nm, f) for nm, f in candidates(v0, v1, self.i0, i1) if holds(f, v1, i1)]
        names = [nm for nm, f in cs]
        if not names and isint(v1) and isint(v0) and type(v1) is SInt and core.names_in(v1.t) & c.junk: names = [JUNK]
        if n in store and not fresh: store[n] = [x for x in store[n] if x in names]
        else: store[n] = names


def consts(nm, v0, i0):
    m = re.fullmatch(r'(\w+)\+(\d+):(\d+)', nm)
    if m:
        for role, view in cur().ghost_views:
            if role == m[1]: return [(nm, copied(v0, ref_of(view), i0, int(m[2]), int(m[3])))]
    m = re.fullmatch(r'\+(-?\d+)\*i', nm)
    if m:
        d = int(m[1])
        return [(nm, lambda i: v0 + (i - i0) * d)]
    return []


def holds(f, v1, i1):
    try:
        v = f(i1)
    except Unsupported:
        return False
    return cur().valid(eq_cond(v1, v)) is True


def occurrence(site):
    c = cur()
    c.occ[site] = c.occ.get(site, 0) + 1
    return c.occ[site]


class SymLoop(Loop):
    """a loop over an unknown number of items (or a while loop), cut by an invariant"""
    sym = True

    def __init__(self, seq, site, names, leaves=False):
        super().__init__(None, site, names)
        self.seq = seq                      # None for while
        self.mode = None
        self.i0 = 0
        self.state = 'new'
        self.leaves = leaves                # the body may leave the loop early

    # tracked cells
    def cells(self):
        out = {}
        for k, o in enumerate(self.objs):
            for n, v in o.pyvc_cells().items(): out[(k, n)] = v
        return out

    def start(self):
        c = cur()
        self.depth = c.ptr
        self.key = (self.site, occurrence(self.site), c.decisions())
        self.rec = c.inv.setdefault(self.key, Rec())
        self.objs = list(c.tracked)
        self.h0 = self.cells()
        n = self.seq.length if self.seq is not None else None
        self.before = c.n
        if n is not None and c.branch(mkbool(term(n) <= 0), 'no iteration'):
            self.state = 'empty'
            return
        self.n = n
        if c.choose(2) == 0:
            self.mode = 'peel'
            c.collect = False
            self.index = 0
            self.rec.ends, self.rec.vague = {}, False
        elif n is not None and c.choose(2) == 1:
            self.mode = 'exit'
            self.index = n
        else:
            self.mode = 'ready'
            self.rec.any = True
            self.index = c.fresh('i', 0)
            if n is not None: c.assume(mkbool(self.index.t < term(n)))
        for g in c.ghost_index:
            g(self.index)
            if self.mode != 'exit': g(self.index + 1)
        c.epoch += 1
        c.jump = self
        if self.mode != 'exit': c.looping = True
        self.since = len(c.taken), c.ptr

    def ended(self):
        """the path of this iteration went to its end: so did those of all the iterations
        before the loop ran out of items"""
        c = cur()
        conds = [t for t in c.taken[self.since[0]:] if self.lasting(t)]
        if c.ptr - self.since[1] != len(conds): self.rec.vague = True
        self.rec.ends[c.decisions()] = self.index.t, z3.And(conds) if conds else z3.BoolVal(True)

    def lasting(self, t):
        """says something about the item and what was there before the loop only"""
        c = cur()
        for nm in core.names_in(t):
            if nm == str(self.index.t): continue
            m = re.search(r'!(\d+)$', nm)
            if m and int(m[1]) > self.before or nm in c.forgotten: return False
        return True

    def all_ended(self):
        c, ends = cur(), list(self.rec.ends.values())
        if self.leaves and self.rec.vague: c.taint('a loop that may be left early')
        if not self.rec.any: raise Unsupported('the end of a loop before its iterations')
        if not ends: raise PathEnd              # every iteration leaves the loop
        if any(z3.is_true(t) for _, t in ends): return
        def noted(k):
            if any(z3.is_expr(x) and x.eq(core.term(k)) for x in known): return
            if z3.is_expr(core.term(k)): known.append(core.term(k))
            c.assume(Implies(And(mkbool(term(k) >= term(self.i0)), mkbool(term(k) < term(self.n))), mkbool(z3.Or([z3.substitute(t, (i, z3.IntVal(k) if conc(k) else term(k))) for i, t in ends]))))
        known = []
        c.ghost_index.append(noted)
        hooks = getattr(getattr(self.seq, 'root', self.seq), 'hooks', None)
        if hooks is not None: hooks.append(noted)

    def land(self, vals):
        """arrive in the chosen state; vals are the variables on entry"""
        c = cur()
        self.v0 = vals
        self.peel = self.mode == 'peel'
        if self.peel: return vals
        for nm, p in self.preds():
            if self.rec.preds.get(nm, True) and c.valid(p(self.i0)) is not True: self.rec.preds[nm] = False
        for k, cands in self.rec.heap.items():
            if k not in self.h0: continue
            o = self.objs[k[0]]
            o.pyvc_set(k[1], self.heap_at(k, self.index))
        for nm, p in self.preds():
            if self.rec.preds.get(nm, True): c.assume(p(self.index))
        if c.check() == z3.unsat: raise PathEnd
        return [self.value_at(n, v, self.index) for n, v in zip(self.names, vals)]

    def preds(self):
        out = list(cur().loop_preds)
        for k, o in enumerate(self.objs):
            if type(o) is SStream: out.append((f'stream {k} at its end', lambda i, o=o: isint(o.pos) and mkbool(term(o.pos) == term(o.content._len))))
        return out

    def heap_at(self, k, i):
        v0 = self.h0[k]
        if self.rec.heap[k] == [JUNK]: return forget(str(k[1]), v0, True)
        for nm in self.rec.heap[k]:
            for n2, f in candidates(v0, None, self.i0, None, False) + consts(nm, v0, self.i0):
                if n2 == nm: return f(i)
        return forget(f'{type(self.objs[k[0]]).__name__}.{k[1]}', v0)

    def finish(self, loc):
        """end of the iteration"""
        c = cur()
        i1 = self.index + 1
        if self.mode == 'ready' and self.seq is not None: self.ended()
        now = self.cells()
        for k, v1 in now.items():
            if k not in self.h0:
                self.h0[k] = UNBOUND
            v0 = self.h0[k]
            if self.peel:
                if v1 is not v0 or k in self.rec.heap: self.filter(self.rec.heap, k, v0, v1, i1)
            elif k not in self.rec.heap:
                if v1 is v0: continue
                self.filter(self.rec.heap, k, v0, v1, i1)
                raise Restart(self.depth)
            else:
                cs = self.rec.heap[k]
                if not cs or cs == [JUNK]: continue
                if c.valid(eq_cond(v1, self.heap_at(k, i1))) is not True:
                    cs.pop(0)
                    raise Restart(self.depth)
        if loc is not None: self.check_locals(loc, i1)
        if not self.peel:
            for nm, p in self.preds():
                if self.rec.preds.get(nm, True) and c.valid(p(i1)) is not True:
                    self.rec.preds[nm] = False
                    raise Restart(self.depth)
        raise PathEnd


class ForSym(SymLoop):
    def __next__(self):
        if self.state == 'new':
            self.start()
            if self.state == 'empty': raise StopIteration
            self.state = 'running'
            self.landing = True
            if self.mode == 'exit':
                self.state = 'done'
                raise StopIteration
            return self.seq.at(self.index)
        if self.state == 'running':
            # a generator resumed: its own tail() has been called
            raise PathEnd
        raise StopIteration

    def head(self, loc):
        vals = [loc.get(n, UNBOUND) for n in self.names]
        return self.land(vals)

    def exit(self, loc):
        vals = [loc.get(n, UNBOUND) for n in self.names]
        if self.state == 'empty': return vals
        r = self.land(vals)
        self.all_ended()
        return r

    def tail(self, loc):
        self.finish(loc)


class ForZip(ForSym):
    """over pairs of known items and values given on request"""

    def __init__(self, z, site, names, leaves=False):
        self.zip = z
        super().__init__(SSeq(z.seq.length, lambda k: (z.seq.at(k), z.lazy.at(k)), tuple), site, names, leaves)

    def head(self, loc):
        r = super().head(loc)
        if self.state == 'running': self.zip.lazy.request(self.index)
        return r

    def exit(self, loc):
        r = super().exit(loc)
        # zip asks for one more value to see that there is none; otherwise the
        # iterator is left where it is
        if self.zip.strict: self.zip.lazy.finish()
        return r


class WhileSym(SymLoop):

    def test(self, cond):
        """an iteration but the first comes after one where the test was true"""
        if type(cond) is not SBool or self.mode != 'ready': return cond
        c, i = cur(), self.index.t
        for nm in core.names_in(cond.t):
            if nm == str(i): continue
            m = re.search(r'!(\d+)$', nm)
            if not m or int(m[1]) > self.before or nm in c.forgotten: return cond
        c.assume(mkbool(z3.Or(i <= term(self.i0), z3.substitute(cond.t, (i, i - 1)))))
        return cond

    def head(self, loc):
        vals = [loc.get(n, UNBOUND) for n in self.names]
        if self.state == 'new':
            self.start()
            self.state = 'running'
            return self.land(vals)
        raise PathEnd

    def tail(self, loc):
        self.finish(loc)


def for_loop(it, site, names, leaves=False):
    c = cur()
    if not c: return Plain(iter(it), names)
    if type(it) is ZipLazy: return ForZip(it, site, names, leaves)
    if hasattr(it, 'pyvc_items') or issym(it):
        s = seqlike(it)
        if type(s) is SSeq and not conc(s.length): return ForSym(s, site, names, leaves)
        it = s if type(s) is not SSeq else [s.at(k) for k in range(s.length)]
    return Loop(iter(it), site, names)


class Plain:
    def __init__(self, it, names): self.it, self.names = it, names
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def head(self, loc): return [loc.get(n, UNBOUND) for n in self.names]
    exit = head
    def tail(self, loc): pass
    def test(self, cond): return cond


def while_loop(site, names):
    if not cur(): return Plain(None, names)
    return WhileSym(None, site, names)
