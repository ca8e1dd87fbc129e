"""Symbolic values, path exploration and obligations.

A *path* is one execution of a harness.  Branches on symbolic conditions are
decided by z3: impossible sides are pruned, real forks are explored by running
the harness again (depth first).  Obligations are discharged by z3 under the
path condition.  Loops over unknown lengths are cut by inductive invariants
(see loops.py), so nothing is bounded.
"""
import time
import z3

TIMEOUT_MS = 8000


class PyvcStop(BaseException):
    """never caught by interpreted code"""


class PathEnd(PyvcStop):
    """this path has nothing more to show"""


class Unsupported(PyvcStop):
    """outside what the verifier models: the harness is undecided, not failed"""


class Obligation:
    __slots__ = ('name', 'tags', 'status', 'detail', 'path', 'seconds', 'trail')

    def __init__(self, name, tags, status, detail, path, seconds, trail=()):
        self.name, self.tags, self.status, self.detail, self.path, self.seconds, self.trail = name, tags, status, detail, path, seconds, trail


class Restart(PyvcStop):
    """a loop invariant candidate was dropped: everything after the first `depth`
    decisions of this path is explored again"""

    def __init__(self, depth):
        super().__init__(depth)
        self.depth = depth


class Ctx:
    def __init__(self, budget=120.0, timeout_ms=TIMEOUT_MS):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.trail = []
        self.obligations = []
        self.solver_s = 0.0
        self.queries = 0
        self.deadline = time.time() + budget
        self.inv = {}             # loop records, kept over restarts
        self.runs = 0
        self.restarts = 0
        self.covers = {}          # reachability: name -> decisions of a path that reaches it, or None
        self.reset()

    def reset(self):
        """state of one path"""
        self.ptr = 0
        self.n = 0
        self.memo = {}
        self.notes = []           # human readable path
        self.taken = []           # the conditions decided on it
        self.collect = True
        self.tainted = None
        self.forgotten = set()    # names standing for loop variables without an invariant
        self.tracked = []         # mutable objects a loop may modify
        self.epoch = 0
        self.jump = None
        self.looping = False      # inside an iteration that stands for any
        self.attrs = {}           # id -> AttrCells
        self.fields = []          # (object, Fields)
        self.junk = set()         # names of numbers that may be anything
        self.sink = None          # counts the values the consumer has taken
        self.occ = {}
        self.ghost_ints = []      # callables index -> int, for loop invariants
        self.ghost_bytes = []     # callables (lo, hi) -> SBytes
        self.ghost_seqs = []      # callables (lo, hi) -> SSeq
        self.ghost_bufs = []      # callables (lo, hi, v0) -> SBytes
        self.ghost_any = []       # callables (v0, lo, hi) -> value or None
        self.folding = False      # sums add up objects, not numbers
        self.ghost_filters = []   # (name, condition on the number of an item), for filters
        self.ghost_texts = []     # format texts that loops may repeat
        self.formats = None       # what struct does with unknown formats
        self.ghost_index = []     # callables index term -> None, instantiate facts
        self.ghost_views = []     # (name, SBytes) that loops may copy piece by piece
        self.loop_preds = []      # (name, callable index -> condition on the current state)
        self.known_names = {}     # id of a sequence of names -> (it, {name: its index})
        self.keep = []

    # ---- solver
    def check(self, *assumptions):
        if time.time() > self.deadline:
            raise Unsupported('time budget of the harness used up')
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def valid(self, c):
        """True / False / None(unknown)"""
        c = tobool(c)
        if c is True:
            return True
        if c is False:
            return True if self.check() == z3.unsat else False
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self.check()
        self.solver.pop()
        return True if r == z3.unsat else False if r == z3.sat else None

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd('assumption is false')
        self.solver.add(c)

    def fresh(self, name, lo=None, hi=None):
        self.n += 1
        v = z3.Int(f'{name}!{self.n}')
        if lo is not None:
            self.solver.add(v >= term(lo))
        if hi is not None:
            self.solver.add(v <= term(hi))
        return SInt(v)

    def fresh_bool(self, name):
        self.n += 1
        return SBool(z3.Bool(f'{name}!{self.n}'))

    def fresh_val(self, name):
        self.n += 1
        return SVal(z3.Const(f'{name}!{self.n}', V))

    def fresh_fn(self, name, *sorts):
        self.n += 1
        return z3.Function(f'{name}!{self.n}', *sorts)

    # ---- forks
    def branch(self, c, note=None):
        c = tobool(c)
        if c is True or c is False:
            return c
        if self.ptr > 300:
            raise Unsupported('too many forks on one path')
        pos = self.check(c)
        if pos == z3.unsat:
            return False
        neg = self.check(z3.Not(c))
        if neg == z3.unsat:
            return True
        if z3.unknown in (pos, neg):
            self.taint('a branch the solver could not decide')
        d = self.choose(2)
        self.assume(c if d == 0 else z3.Not(c))
        self.taken.append(c if d == 0 else z3.Not(c))
        self.notes.append(f'{note or short(c)}: {"yes" if d == 0 else "no"}')
        return d == 0

    def choose(self, n, note=None):
        """a choice between n alternatives, all explored"""
        if self.ptr < len(self.trail):
            d = self.trail[self.ptr][0]
        else:
            self.trail.append([0, n])
            d = 0
        self.ptr += 1
        if note:
            self.notes.append(f'{note}: {d}')
        return d

    def taint(self, why):
        """from here on a refutation means nothing"""
        self.tainted = self.tainted or why

    # ---- obligations
    def prove(self, c, name, tags=()):
        if not self.collect:
            return True
        t = time.time()
        c = tobool(c)
        detail = ''
        if c is True:
            st = 'proved'
        else:
            self.solver.push()
            if c is not False:
                self.solver.add(z3.Not(c))
            r = self.check()
            st = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
            if r == z3.sat:
                detail = model_text(self.solver)
            elif r == z3.unknown:
                detail = self.solver.reason_unknown()
            self.solver.pop()
        if st == 'refuted' and not self.tainted and self.forgotten:
            for a in list(self.solver.assertions()) + ([c] if c is not False else []):
                ns = names_in(a)
                if ns & self.forgotten and not ns <= self.forgotten or (a is c and ns & self.forgotten):
                    self.taint('a loop variable without invariant')
                    break
        if st == 'refuted' and self.tainted:
            st, detail = 'unknown', f'after {self.tainted}: ' + detail
        self.obligations.append(Obligation(name, tuple(tags), st, detail, list(self.notes), time.time() - t, self.decisions()))
        if st == 'proved' and c is not True and c is not False:
            self.solver.add(c)
        return st == 'proved'

    def cover(self, name):
        """the state here must be reachable on some path, or the contract is vacuous"""
        if not self.collect:
            return
        if self.covers.get(name) is None:
            self.covers[name] = self.decisions() if self.check() == z3.sat else None

    def decisions(self):
        return tuple(d for d, _ in self.trail[:self.ptr])

    def memoize(self, key, make):
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def track(self, obj):
        self.tracked.append(obj)
        return obj

    def explore(self, fn, limit=20000, first=None):
        """run fn once per feasible decision sequence (that starts with `first`)"""
        self.trail = [] if first is None else [[first, first + 1]]
        while True:
            self.reset()
            self.solver.push()
            try:
                fn()
            except PathEnd:
                pass
            except Restart as e:
                self.restarts += 1
                if self.restarts > 400: raise Unsupported('loop invariants did not settle')
                del self.trail[e.depth:]
                pre = tuple(d for d, _ in self.trail)
                self.obligations = [o for o in self.obligations if o.trail[:e.depth] != pre]
                for k, v in self.covers.items():
                    if v is not None and v[:e.depth] == pre: self.covers[k] = None
                continue
            finally:
                self.solver.pop()
            self.runs += 1
            if self.runs > limit:
                raise Unsupported('too many paths')
            while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
                self.trail.pop()
            if not self.trail:
                return
            self.trail[-1][0] += 1


CUR = None


def cur():
    return CUR


def set_cur(c):
    global CUR
    CUR = c


def names_in(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo += x.children()
        elif z3.is_quantifier(x): todo.append(x.body())
    return out


def short(c):
    s = str(c).replace('\n', ' ')
    return s if len(s) < 100 else s[:97] + '...'


def model_text(solver):
    m = solver.model()
    out = []
    for d in m.decls():
        s = f'{d.name()}={m[d]}'.replace('\n', ' ')
        out.append(s if len(s) < 120 else s[:117] + '...')
    return '; '.join(sorted(out)[:40])


# ---------------------------------------------------------------- booleans and ints
def conc(x):
    """a known int"""
    return isinstance(x, int) and not isinstance(x, Sym)


def concbool(x):
    return type(x) is bool


class Sym:
    """base of symbolic values"""
    __slots__ = ()


_value, _ctx = z3.Z3_get_bool_value, z3.main_ctx().ref()


def tobool(c):
    """bool or a simplified z3 term"""
    t = type(c)
    if t is SBool: return c.t
    if t is bool: return c
    v = _value(_ctx, c.as_ast())
    if v == 0: c = z3.simplify(c)
    else: return v == 1
    v = _value(_ctx, c.as_ast())
    return c if v == 0 else v == 1


def mkbool(t):
    t = tobool(t)
    return t if type(t) is bool else SBool(t)


def And(*cs):
    cs = [tobool(c) for c in cs]
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return SBool(cs[0] if len(cs) == 1 else z3.And(*cs)) if cs else True


def Or(*cs):
    cs = [tobool(c) for c in cs]
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    return SBool(cs[0] if len(cs) == 1 else z3.Or(*cs)) if cs else False


def Not(c):
    c = tobool(c)
    return (not c) if concbool(c) else SBool(z3.Not(c))


def Implies(a, b):
    return Or(Not(a), b)


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t): self.t = t
    def __bool__(self): return cur().branch(self.t)
    def __repr__(self): return f'SBool({short(self.t)})'
    def __eq__(self, o): return mkbool(self.t == tobool(o)) if concbool(o) or type(o) is SBool else self.num() == o if isint(o) else False
    def __ne__(self, o): return Not(self == o)
    def __and__(self, o): return And(self, o)
    def __or__(self, o): return Or(self, o)
    def __invert__(self): raise Unsupported('~bool')
    def num(self): return mkint(term(self))
    def __add__(self, o): return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    def __rmul__(self, o): return o * self.num()
    def __neg__(self): return -self.num()
    def __pos__(self): return self.num()
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    __hash__ = None

    @property
    def __class__(self): return bool


def term(x):
    """z3 Int term of an int-like"""
    if type(x) is SInt:
        return x.t
    if concbool(x):
        return z3.IntVal(int(x))
    if conc(x):
        return z3.IntVal(x)
    if type(x) is SBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f'not an int: {type(x)}')


def mkint(t):
    t = z3.simplify(t)
    if z3.Z3_get_ast_kind(_ctx, t.as_ast()) == z3.Z3_NUMERAL_AST: return t.as_long()
    return SInt(t)


def isint(x):
    return type(x) is SInt or conc(x)


def _arith(f):
    def op(self, o):
        if not isint(o) and type(o) is not SBool:
            return NotImplemented
        return mkint(f(self.t, term(o)))

    def rop(self, o):
        if not isint(o) and type(o) is not SBool:
            return NotImplemented
        return mkint(f(term(o), self.t))
    return op, rop


def _cmp(f):
    def op(self, o):
        if isinstance(o, float):
            if o == float('inf'):
                return f(z3.IntVal(0), z3.IntVal(1)) is True or {'lt': True}.get(f, NotImplemented)
            return NotImplemented
        if not isint(o) and type(o) is not SBool:
            return NotImplemented
        return mkbool(f(self.t, term(o)))
    return op


def disjoint_or(a, b):
    """a | b as a + b when the bits provably do not overlap"""
    c = cur()
    for x, y in ((a, b), (b, a)):
        for k in (0, 7, 8, 15, 16, 24, 32):
            p = 1 << k
            if c.valid(And(mkbool(term(x) >= 0), mkbool(term(x) < p), mkbool(term(y) >= 0), mkbool(term(y) % p == 0))):
                return mkint(term(x) + term(y))
    raise Unsupported('| of possibly overlapping bits')


def mask_and(x, m):
    if m < 0:
        raise Unsupported('& with a negative mask')
    if m == 0:
        return 0
    lo = (m & -m).bit_length() - 1
    w = m >> lo
    if w & (w + 1):
        raise Unsupported('& with a mask of several runs')
    return mkint((term(x) / (1 << lo)) % (w + 1) * (1 << lo))


class SInt(Sym):
    __slots__ = ('t',)

    def __init__(self, t): self.t = t
    def __repr__(self): return f'SInt({short(self.t)})'
    __add__, __radd__ = _arith(lambda a, b: a + b)
    __sub__, __rsub__ = _arith(lambda a, b: a - b)
    __mul__, __rmul__ = _arith(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if isint(o) or type(o) is SBool:
            return mkbool(self.t == term(o))
        return False

    def __ne__(self, o): return Not(self == o)
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __floordiv__(self, o):
        if not conc(o) or o <= 0:
            raise Unsupported('division by a symbolic or non-positive number')
        return mkint(self.t / o)

    def __mod__(self, o):
        if not conc(o) or o <= 0:
            raise Unsupported('modulo a symbolic or non-positive number')
        return mkint(self.t % o)

    def __divmod__(self, o): return self // o, self % o
    def __rfloordiv__(self, o): raise Unsupported('division by a symbolic number')
    __rmod__ = __rfloordiv__
    __truediv__ = __rfloordiv__

    def __lshift__(self, o):
        if not conc(o): raise Unsupported('shift by a symbolic number')
        return mkint(self.t * (1 << o))

    def __rshift__(self, o):
        if not conc(o): raise Unsupported('shift by a symbolic number')
        return mkint(self.t / (1 << o))

    def __and__(self, o):
        if conc(o) and not concbool(o): return mask_and(self, o)
        raise Unsupported('& of symbolic numbers')
    __rand__ = __and__

    def __or__(self, o):
        if not isint(o): return NotImplemented
        return disjoint_or(self, o)

    __ror__ = __or__
    def __xor__(self, o): raise Unsupported('^')
    __rxor__ = __xor__
    def __bool__(self): return cur().branch(self.t != 0)
    def __index__(self): raise Unsupported('a symbolic number was needed as a concrete one')
    __int__ = __index__
    def __str__(self): raise Unsupported('text of a symbolic number')
    __format__ = None

    def __hash__(self): raise Unsupported('hash of a symbolic number')

    @property
    def __class__(self): return int

    def bit_length(self): raise Unsupported('bit_length')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import models
        return models.int_to_bytes(self, length, byteorder, signed)


def ite(c, a, b):
    c = tobool(c)
    if c is True: return a
    if c is False: return b
    if isint(a) and isint(b):
        return mkint(z3.If(c, term(a), term(b)))
    if type(a) is SVal and type(b) is SVal:
        return SVal(z3.If(c, a.t, b.t))
    if concbool(a) or type(a) is SBool:
        return mkbool(z3.If(c, z3.BoolVal(tobool(a)) if isinstance(tobool(a), bool) else tobool(a),
                            z3.BoolVal(tobool(b)) if isinstance(tobool(b), bool) else tobool(b)))
    if a is b: return a
    for x in (a, b):
        if hasattr(x, 'pyvc_ite'): return x.pyvc_ite(c, a, b)
    raise Unsupported(f'either {type(a)} or {type(b)}')


# ---------------------------------------------------------------- opaque values
V = z3.DeclareSort('V')
SINGLES = {None: z3.Const('None', V), True: z3.Const('True', V), False: z3.Const('False', V)}
TRUTH = z3.Function('truth', V, z3.BoolSort())
NONE_TRUE_FALSE = z3.And(z3.Distinct(*SINGLES.values()), z3.Not(TRUTH(SINGLES[None])), TRUTH(SINGLES[True]), z3.Not(TRUTH(SINGLES[False])))


def single(o):
    """the constant for None, True and False"""
    return SINGLES[o] if o is None or o is True or o is False else None


def is_single(v, o):
    """whether an opaque value is None, True or False: any may be"""
    if v.t.decl().name().startswith('dec_'):   # what struct unpacks
        if o is None or '?' not in v.t.decl().name(): return False
        raise Unsupported('identity of an unpacked bool')
    c = cur()
    if not getattr(c, 'singles', False):
        c.singles = True
        c.assume(mkbool(NONE_TRUE_FALSE))
    return mkbool(v.t == single(o))


class SVal(Sym):
    """a field value the code does not look into"""
    __slots__ = ('t',)

    def __init__(self, t): self.t = t
    def __repr__(self): return f'SVal({short(self.t)})'

    def __eq__(self, o):
        if type(o) is SVal: return mkbool(self.t == o.t)
        if o is None: return is_single(self, None)   # assumed: no value but None equals None
        if isinstance(o, (bytes, str, int, tuple, list)) or type(o) is SInt: raise Unsupported('comparison of an opaque value')
        return False

    def __ne__(self, o): return Not(self == o)
    def __bool__(self):
        if self.t.decl().name().startswith('dec_'): raise Unsupported('truth of an unpacked value')
        is_single(self, None)
        return cur().branch(TRUTH(self.t), 'the value is truthy')
    def __hash__(self): raise Unsupported('hash of an opaque value')
    def __getattr__(self, n):
        if n.startswith('pyvc_'): raise AttributeError(n)
        raise Unsupported(f'attribute {n} of an opaque value')

    def _no(self, *a): raise Unsupported('operation on an opaque value')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __call__ = __index__ = __int__ = __contains__ = __mod__ = __str__ = __format__ = _no
    def __len__(self): raise Unsupported('len of an opaque value')
    def __iter__(self): raise Unsupported('iteration of an opaque value')


# ---------------------------------------------------------------- sequences of values
class SSeq(Sym):
    """immutable sequence of symbolic length: `at(index term) -> value`"""

    def __init__(self, length, at, kind=tuple, key=None):
        self.length, self.at, self.kind, self.key = length, at, kind, key
        self.parts = None         # of a concatenation
        self.same = None          # (item,) when all items are this one
        self.joiner = None        # (lo, hi) -> the items lo..hi of bytes joined
        # root, hooks: set on sequences whose items are objects (see rt.quantified)

    @property
    def __class__(self): return self.kind
    def __repr__(self): return f'SSeq({self.key}, len={self.length})'
    def __len__(self):
        if conc(self.length): return self.length
        raise Unsupported('native len of a symbolic sequence')
    def __iter__(self):
        if conc(self.length):
            return iter([self.at(i) for i in range(self.length)])
        raise Unsupported('native iteration of a symbolic sequence')
    def __bool__(self): return bool(self.length != 0)
    __hash__ = None

    def __getitem__(self, i):
        c = cur()
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None: return SSeq(self.length, lambda k: self.at(self.length - 1 - k), self.kind if self.kind in (list, tuple) else tuple)
            if i.step is not None and i.step != 1: raise Unsupported('slice step')
            lo, hi = slice_bounds(i, self.length)
            return self.sub(lo, hi)
        if not isint(i): raise TypeError('indices must be integers')
        if c.branch(mkbool(term(i) < 0)):
            i = self.length + i
        if not c.branch(And(mkbool(term(i) >= 0), mkbool(term(i) < term(self.length)))):
            raise IndexError('index out of range')
        return self.at(i)

    def sub(self, lo, hi):
        at, key = self.at, self.key
        n = hi - lo
        if self.parts:
            la = self.parts[0].length
            if cur().valid(mkbool(term(lo) >= term(la))) is True: return self.parts[1].sub(lo - la, hi - la)
            if cur().valid(mkbool(term(hi) <= term(la))) is True: return self.parts[0].sub(lo, hi)
        r = self._sub(lo, hi, n, at, key)
        if self.joiner: r.joiner = lambda a, b: self.joiner(lo + a, lo + b)
        root = getattr(self, 'root', None)
        if root is not None and conc(lo) and lo == 0 and cur().valid(mkbool(term(n) == term(root.length))) is True: r.root = root
        return r

    def _sub(self, lo, hi, n, at, key):
        if conc(lo) and lo == 0:
            return SSeq(n, at, self.kind, key and (key[0], key[1], key[1] + n))
        return SSeq(n, lambda k: at(lo + k), self.kind, key and (key[0], key[1] + lo, key[1] + lo + n))

    def __add__(self, o):
        return seq_concat(self, o)

    def __radd__(self, o):
        return seq_concat(o, self)

    def __mul__(self, n):
        from . import rt
        if not isint(n): return NotImplemented
        if not conc(n):
            if cur().branch(mkbool(n.t <= 0)): return ()
            return rt.power(self, n)
        r = ()
        for _ in range(n): r = seq_concat(r, self)
        return r
    __rmul__ = __mul__

    def __eq__(self, o):
        return seq_eq(self, o)

    def __ne__(self, o): return Not(self == o)


def slice_bounds(s, n):
    """Python slice semantics for step 1, forking on what matters"""
    c = cur()

    def norm(x, dflt):
        if x is None: return dflt
        if not isint(x): raise TypeError('slice indices must be integers')
        if c.branch(mkbool(term(x) < 0)):
            x = n + x
            if c.branch(mkbool(term(x) < 0)): return 0
            return x
        if c.branch(mkbool(term(x) > term(n)), 'slice bound beyond the end'): return n
        return x
    lo, hi = norm(s.start, 0), norm(s.stop, n)
    if not (conc(lo) and lo == 0) and hi is not n and not c.branch(mkbool(term(lo) <= term(hi))):
        hi = lo
    return lo, hi


def as_seq(x):
    """view list/tuple/SSeq/MList as SSeq"""
    if type(x) is SSeq: return x
    s = getattr(x, 'sym', None)
    if s is not None: return s
    if isinstance(x, (list, tuple)):
        xs = list(x)

        def at(k):
            if conc(k): return xs[k]
            if not xs: raise Unsupported('element of an empty sequence')
            r = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                r = ite(mkbool(term(k) == j), xs[j], r)
            return r
        return SSeq(len(xs), at, type(x) if type(x) in (list, tuple) else list)
    raise Unsupported(f'not a sequence: {type(x)}')


def seq_concat(a, b):
    if isinstance(a, (list, tuple)) and not hasattr(a, 'at') and not len(a) and getattr(a, 'sym', None) is None: return as_seq(b)
    if isinstance(b, (list, tuple)) and not hasattr(b, 'at') and not len(b) and getattr(b, 'sym', None) is None: return as_seq(a)
    a, b = as_seq(a), as_seq(b)
    if conc(a.length) and a.length == 0: return b
    if conc(b.length) and b.length == 0: return a
    la = a.length
    if a.key and b.key and a.key[0] is b.key[0] and cur().valid(mkbool(term(a.key[2]) == term(b.key[1]))):
        at = a.at
        base_lo = a.key[1]
        lo2 = b.key[1]

        def at2(k):
            return a.key[0].at(base_lo + k)
        r = SSeq(la + b.length, at2, a.kind, (a.key[0], base_lo, base_lo + la + b.length))
        root = a.key[0].joiner
        if root: r.joiner = lambda lo, hi: root(base_lo + lo, base_lo + hi)
        return r

    def at(k):
        c = tobool(mkbool(term(k) < term(la)))
        if c is True or cur().valid(c): return a.at(k)
        if c is False or cur().valid(Not(c)): return b.at(k - la)
        return ite(c, a.at(k), b.at(k - la))
    r = SSeq(la + b.length, at, a.kind)
    r.parts = (a, b)
    return r


def flat_parts(s):
    return flat_parts(s.parts[0]) + flat_parts(s.parts[1]) if s.parts else [s]


def parts_goal(xs, ys):
    """condition that two concatenations are equal, or None when their parts do not line up"""
    c = cur()
    zero = lambda n: (conc(n) and n <= 0) or c.valid(mkbool(term(n) <= 0)) is True
    conds = []
    while xs and ys:
        x, y = xs[0], ys[0]
        if zero(x.length): xs.pop(0); continue
        if zero(y.length): ys.pop(0); continue
        if c.valid(mkbool(term(x.length) == term(y.length))) is True: n, px, py = x.length, x, y
        elif c.valid(mkbool(term(x.length) < term(y.length))) is True: n, px, py = x.length, x, y.sub(0, x.length)
        elif c.valid(mkbool(term(x.length) > term(y.length))) is True: n, px, py = y.length, x.sub(0, y.length), y
        else: return None
        conds.append(one_part_goal(px, py))
        xs[0:1] = [] if px is x else [x.sub(n, x.length)]
        ys[0:1] = [] if py is y else [y.sub(n, y.length)]
    return And(*conds, *[mkbool(term(z.length) <= 0) for z in xs + ys])


def one_part_goal(a, b):
    c = cur()
    if a.key and b.key and a.key[0] is b.key[0] and c.valid(mkbool(term(a.key[1]) == term(b.key[1]))) is True: return True
    if conc(a.length) or conc(b.length):
        n = a.length if conc(a.length) else b.length
        if n <= 64: return And(*[value_eq(a.at(i), b.at(i)) for i in range(n)])
    k = c.fresh('k', 0)
    return under(And(mkbool(k.t < term(a.length)), mkbool(k.t < term(b.length))), lambda: value_eq(a.at(k), b.at(k)))


def under(cond, f):
    """the goal f() under a condition (with what was decided while making it)"""
    c = cur()
    if tobool(cond) is False: return True
    n = len(c.solver.assertions())
    c.solver.push()
    try:
        c.assume(cond)
        if c.check() == z3.unsat: return True
        r = f()
        known = list(c.solver.assertions())[n:]
    finally: c.solver.pop()
    return Implies(And(*known), r)


def seq_eq_obligation(a, b):
    """(lengths equal, elements equal at a fresh index) for use as a goal"""
    a, b = as_seq(a), as_seq(b)
    if a.key and b.key and a.key[0] is b.key[0]:
        return And(mkbool(term(a.key[1]) == term(b.key[1])), mkbool(term(a.length) == term(b.length)))
    ln = mkbool(term(a.length) == term(b.length))
    if a.parts or b.parts:
        g = parts_goal(flat_parts(a), flat_parts(b))
        if g is not None: return And(ln, g)
    if conc(a.length) and conc(b.length):
        if a.length != b.length: return False
        return And(*[value_eq(a.at(i), b.at(i)) for i in range(a.length)])
    if conc(a.length) and a.length == 0 or conc(b.length) and b.length == 0: return ln
    k = cur().fresh('k')
    inside = And(mkbool(k.t >= 0), mkbool(k.t < term(a.length)), mkbool(k.t < term(b.length)))
    return And(ln, under(inside, lambda: value_eq(a.at(k), b.at(k))))


def seq_eq(a, b):
    if type(b) is not SSeq and not isinstance(b, (list, tuple)): return False
    raise Unsupported('comparison of symbolic sequences')


def value_eq(a, b):
    from . import models
    if type(a) is models.SBytes or type(b) is models.SBytes:
        if not models.is_bytes(a) or not models.is_bytes(b): return False
        return models.bytes_goal(a, b)
    if isint(a) and isint(b): return mkbool(term(a) == term(b))
    if type(a) is SVal or type(b) is SVal:
        if type(a) is SVal and type(b) is SVal: return mkbool(a.t == b.t)
        v, o = (a, b) if type(a) is SVal else (b, a)
        return is_single(v, o) if single(o) is not None else False
    if type(a) is SSeq or type(b) is SSeq or getattr(a, 'sym', None) is not None or getattr(b, 'sym', None) is not None:
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)): return False
        return seq_eq_obligation(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return False
        return And(*[value_eq(x, y) for x, y in zip(a, b)])
    if a is b: return True
    if getattr(a, 'meant', False) is True or getattr(b, 'meant', False) is True:
        from . import structm
        return isinstance(a, str) and isinstance(b, str) and structm.same_meaning(a, b)
    if hasattr(a, 'goal_eq'): return a.goal_eq(b)
    if hasattr(b, 'goal_eq'): return b.goal_eq(a)
    return a == b
