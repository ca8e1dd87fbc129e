"""Models of bytes, bytearray, memoryview, BytesIO and streams: ropes of slices of
named byte sequences, of literal bytes and of encoded numbers."""
import sys
import z3
from . import core
from .core import *
from .core import term, mkint, mkbool, isint, tobool, slice_bounds, conc, concbool

NATIVE = '<' if sys.byteorder == 'little' else '>'


# ---------------------------------------------------------------- bases and segments
class Base:
    """an unknown byte sequence; byte i is fn(i)"""

    def __init__(self, name, length=None):
        c = cur()
        c.n += 1
        self.name = f'{name}!{c.n}'
        self.fn = z3.Function(self.name, z3.IntSort(), z3.IntSort())
        self.length = length
        self.facts = []       # index term -> condition, assumed of every byte looked at
        self.seen = {}

    def byte(self, i):
        t = term(i)
        t = z3.simplify(t)
        k = t.get_id()
        r = self.fn(t)
        if k not in self.seen:
            self.seen[k] = t
            c = cur()
            c.solver.add(r >= 0, r <= 255)
            for f in self.facts:
                c.assume(f(SInt(t)))
        return r

    def add_fact(self, f):
        for t in list(self.seen.values()):
            cur().assume(f(mkint(t)))
        self.facts.append(f)

    def slice(self, lo, hi):
        n = hi - lo
        if conc(n) and n <= 0:
            return SBytes(())
        return SBytes((Ref(self, lo, n),))


class Ref:
    __slots__ = ('base', 'start', 'length')

    def __init__(self, base, start, length): self.base, self.start, self.length = base, start, length
    def byte(self, k): return self.base.byte(self.start + k)
    def sub(self, lo, n): return Ref(self.base, self.start + lo, n)
    def __repr__(self): return f'{self.base.name}[{self.start}:+{self.length}]'


class Terms:
    """bytes given one by one; `num` remembers that they are one encoded number"""
    __slots__ = ('terms', 'num')

    def __init__(self, terms, num=None): self.terms, self.num = tuple(terms), num

    @property
    def length(self): return len(self.terms)

    def byte(self, k):
        if conc(k):
            return self.terms[k]
        r = self.terms[-1]
        for j in range(len(self.terms) - 2, -1, -1):
            r = z3.If(term(k) == j, self.terms[j], r)
        return r

    def sub(self, lo, n):
        if conc(lo) and conc(n):
            if lo == 0 and n == len(self.terms): return self
            return Terms(self.terms[lo:lo + n])
        if not conc(n):
            c = cur()
            for j in range(len(self.terms) + 1):
                if c.branch(mkbool(term(n) == j)):
                    return self.sub(lo, j)
            raise PathEnd
        c = cur()
        for j in range(len(self.terms) + 1):
            if c.branch(mkbool(term(lo) == j)):
                return Terms(self.terms[j:j + n])
        raise PathEnd
    def __repr__(self): return f'<{len(self.terms)} bytes {self.num or self.terms}>'[:60]


class Fill:
    """length copies of one byte"""
    __slots__ = ('value', 'length')

    def __init__(self, value, length): self.value, self.length = value, length
    def byte(self, k): return z3.IntVal(self.value)
    def sub(self, lo, n): return Fill(self.value, n)
    def __repr__(self): return f'{self.value}*{self.length}'


def lit(b):
    return Terms([z3.IntVal(x) for x in b])


def norm(segs):
    out = []
    c = cur()
    for s in segs:
        n = s.length
        if conc(n) and n == 0:
            continue
        if out and type(s) is Ref and type(out[-1]) is Ref and out[-1].base is s.base and c.valid(
                mkbool(term(out[-1].start + out[-1].length) == term(s.start))):
            out[-1] = Ref(s.base, out[-1].start, out[-1].length + n)
            continue
        out.append(s)
    return tuple(out)


def seglen(segs):
    n = 0
    for s in segs:
        n = n + s.length
    return n


def cutsegs(segs, lo, n):
    """n bytes from lo on; bounds are known to be inside"""
    c = cur()
    out = []
    segs = list(segs)
    pos = 0
    k = 0
    # skip
    while k < len(segs):
        end = pos + segs[k].length
        if conc(lo) and lo == 0: break
        if c.branch(mkbool(term(lo) >= term(end)), 'slice starts after a segment'):
            pos = end
            k += 1
        else:
            break
    left = n
    off = lo - pos
    while k < len(segs):
        if conc(left) and left == 0: break
        s = segs[k]
        avail = s.length - off
        if c.branch(mkbool(term(left) > term(avail)), 'slice goes on after a segment'):
            out.append(s.sub(off, avail) if not (conc(off) and off == 0) else s)
            left = left - avail
            off = 0
            k += 1
        else:
            out.append(s.sub(off, left))
            break
    return norm(out)


class SBytes(core.Sym):
    """bytes (or bytearray / memoryview content) of possibly unknown length"""

    def __init__(self, segs=(), kind=bytes, length=None):
        self.segs = tuple(segs)
        self.kind = kind
        self._len = seglen(self.segs) if length is None else length

    @property
    def __class__(self): return self.kind
    @property
    def length(self): return self._len
    def __repr__(self): return f'{self.kind.__name__}({" ".join(map(repr, self.segs))})'
    __hash__ = None
    def pyvc_len(self): return self._len
    def __len__(self):
        if conc(self._len): return self._len
        raise Unsupported('native len of symbolic bytes')

    def __bool__(self): return bool(mkbool(term(self._len) != 0))

    def byte(self, k):
        """term of byte k, which is inside"""
        pos = 0
        c = cur()
        if not self.segs:
            return z3.IntVal(0)
        r = None
        parts = []
        for s in self.segs:
            end = pos + s.length
            parts.append((pos, end, s))
            pos = end
        for p, e, s in parts:
            if c.valid(And(mkbool(term(p) <= term(k)), mkbool(term(k) < term(e)))):
                return s.byte(k - p)
        for p, e, s in reversed(parts):
            t = s.byte(k - p)
            r = t if r is None else z3.If(term(k) < term(e), t, r)
        return r

    def __getitem__(self, i):
        c = cur()
        if isinstance(i, slice):
            if i.step is not None and not (conc(i.step) and i.step == 1): raise Unsupported('slice step')
            lo, hi = slice_bounds(i, self._len)
            n = hi - lo
            return SBytes(cutsegs(self.segs, lo, n), self.kind, n)
        if not isint(i): raise TypeError('byte indices must be integers or slices')
        if c.branch(mkbool(term(i) < 0)):
            i = self._len + i
        if not c.branch(And(mkbool(term(i) >= 0), mkbool(term(i) < term(self._len))), 'index inside'):
            raise IndexError('index out of range')
        return mkint(self.byte(i))

    def __iter__(self):
        if not conc(self._len): raise Unsupported('native iteration of symbolic bytes')
        return iter([mkint(self.byte(k)) for k in range(self._len)])

    def __add__(self, o):
        if self.kind is memoryview or not is_bytes(o): return NotImplemented
        return SBytes(norm(self.segs + segs_of(o)), self.kind)

    def __radd__(self, o):
        if not is_bytes(o) or isinstance(o, memoryview): return NotImplemented
        return SBytes(norm(segs_of(o) + self.segs), type(o) if not isinstance(o, SBytes) else o.kind)

    def __mul__(self, n):
        if conc(n): return SBytes(self.segs * max(n, 0), self.kind)
        raise Unsupported('repetition of bytes')
    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_bytes(o): return False
        return bytes_cond(self, o)

    def __ne__(self, o):
        if not is_bytes(o): return True
        return Not(bytes_cond(self, o))

    def __contains__(self, o):
        return bool(mkbool(term(self.find(o)) >= 0))

    # -- methods of bytes
    def join(self, parts):
        raise Unsupported('symbolic separator')

    def find(self, needle, start=None, end=None):
        v = self[slice(start, end)] if start is not None or end is not None else self
        lo = 0
        if start is not None:
            lo, _ = slice_bounds(slice(start, end), self._len)
        r = find_first(v, needle)
        if conc(r) and r < 0: return r
        return r if conc(lo) and lo == 0 else ite(mkbool(term(r) < 0), r, r + lo)

    def index(self, needle, start=None, end=None):
        r = self.find(needle, start, end)
        if r < 0: raise ValueError('subsection not found')
        return r

    def startswith(self, p):
        n = blen(p)
        if self._len < n: return False
        return bytes_cond(self[:n], p)

    def endswith(self, p):
        n = blen(p)
        if not conc(n): raise Unsupported('endswith of symbolic length')
        if self._len < n: return False
        return bytes_cond(self[self._len - n:], p) if n else True

    def removesuffix(self, p):
        return self[:self._len - blen(p)] if blen(p) and self.endswith(p) else self

    def partition(self, sep):
        r = self.find(sep)
        if r < 0: return self, SBytes(()), SBytes(())
        return self[:r], self[r:r + 1], self[r + 1:]

    def tobytes(self): return SBytes(self.segs, bytes, self._len)
    def release(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    @property
    def nbytes(self):
        return self._len

    def cast(self, f):
        if f in ('B', 'c'): return self
        raise Unsupported('memoryview cast')

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if hasattr(self.kind, n): raise Unsupported(f'{self.kind.__name__}.{n}')
        raise AttributeError(n)


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, memoryview))


def segs_of(x):
    if type(x) is SBuf: return x.content.segs
    if type(x) is SBytes: return x.segs
    b = bytes(x)
    return (lit(b),) if b else ()


def sb(x, kind=None):
    if type(x) is SBuf: x = x.content
    if type(x) is SBytes: return x if kind is None or x.kind is kind else SBytes(x.segs, kind, x._len)
    return SBytes(segs_of(x), kind or type(x))


def blen(x):
    if type(x) is SBuf: return x.content._len
    return x._len if type(x) is SBytes else len(x)


def concat(*parts):
    segs = ()
    for p in parts:
        segs += segs_of(p)
    return SBytes(norm(segs))


def bytes_goal(a, b):
    """condition equivalent to a == b, for use as something to prove (an index chosen
    by the prover stands for every index)"""
    a, b = sb(a), sb(b)
    c = cur()
    if a is b: return True
    conds = [mkbool(term(a._len) == term(b._len))]
    xs, ys = list(a.segs), list(b.segs)
    zero = lambda n: (conc(n) and n <= 0) or c.valid(mkbool(term(n) <= 0))
    while xs and ys:
        x, y = xs[0], ys[0]
        if zero(x.length): xs.pop(0); continue
        if zero(y.length): ys.pop(0); continue
        nx, ny = x.length, y.length
        if conc(nx) and conc(ny):
            r = (nx > ny) - (nx < ny)
        elif c.valid(mkbool(term(nx) == term(ny))): r = 0
        elif c.valid(mkbool(term(nx) <= term(ny))): r = -1
        elif c.valid(mkbool(term(nx) >= term(ny))): r = 1
        else:
            # lengths cannot be compared: one index for everything that is left
            ra, rb = SBytes(tuple(xs)), SBytes(tuple(ys))
            k = c.fresh('k', 0)
            conds.append(Implies(And(mkbool(k.t < term(ra._len)), mkbool(k.t < term(rb._len))), mkbool(ra.byte(k) == rb.byte(k))))
            return And(*conds)
        n = nx if r <= 0 else ny
        px = x if r <= 0 else x.sub(0, n)
        py = y if r >= 0 else y.sub(0, n)
        conds.append(seg_eq(px, py, n))
        xs[0:1] = [] if r <= 0 else [x.sub(n, nx - n)]
        ys[0:1] = [] if r >= 0 else [y.sub(n, ny - n)]
    return And(*conds)


def seg_eq(x, y, n):
    c = cur()
    if type(x) is Ref and type(y) is Ref and x.base is y.base and c.valid(mkbool(term(x.start) == term(y.start))):
        return True
    if type(x) is Fill and type(y) is Fill: return x.value == y.value
    if conc(n) and n <= 64:
        if type(x) is Terms and type(y) is Terms and x.num and y.num and x.num[:2] == y.num[:2]:
            e = x.num[2] == y.num[2] if not isint(x.num[2]) else mkbool(term(x.num[2]) == term(y.num[2]))
            if c.valid(e): return True
        return And(*[mkbool(x.byte(k) == y.byte(k)) for k in range(n)])
    k = c.fresh('k', 0)
    return Implies(mkbool(k.t < term(n)), mkbool(x.byte(k) == y.byte(k)))


def bytes_cond(a, b):
    """a == b as a condition the program branches on"""
    c = cur()
    a, b = sb(a), sb(b)
    if not c.branch(mkbool(term(a._len) == term(b._len)), 'lengths equal'): return False
    n = a._len if conc(a._len) else b._len
    if not conc(n):
        if c.branch(mkbool(term(n) == 0)): return True
        if not c.branch(mkbool(term(n) == 1)):
            g = bytes_goal(a, b)
            if c.valid(g): return True
            raise Unsupported('comparison of bytes of unknown length')
        n = 1
    if n > 64: raise Unsupported('comparison of long bytes')
    return And(*[mkbool(a.byte(k) == b.byte(k)) for k in range(n)])


def find_first(v, needle):
    """index of the first occurrence of a one-byte needle, or -1"""
    c = cur()
    if isint(needle): t = term(needle)
    else:
        n = blen(needle)
        if not (conc(n) and n == 1): raise Unsupported('search for more than one byte')
        t = sb(needle).byte(0)
    if all(type(s) is Terms for s in v.segs):
        for k in range(seglen(v.segs)):
            if c.branch(mkbool(v.byte(k) == t), f'found at {k}'): return k
        return -1
    refs = [s for s in v.segs if type(s) is Ref]
    if len(v.segs) != 1 or len(refs) != 1: raise Unsupported('search in composed bytes')
    s = refs[0]
    found = c.choose(2, 'terminator absent from the slice') == 0
    r = c.fresh('found', 0)
    if found:
        c.assume(mkbool(r.t < term(v._len)))
        s.base.add_fact(lambda i: Implies(And(mkbool(term(i) >= term(s.start)), mkbool(term(i) < term(s.start + r))), mkbool(s.base.fn(term(i)) != t)))
        c.assume(mkbool(s.base.byte(s.start + r) == t))
        if c.check() == z3.unsat: raise PathEnd
        return r
    s.base.add_fact(lambda i: Implies(And(mkbool(term(i) >= term(s.start)), mkbool(term(i) < term(s.start + v._len))), mkbool(s.base.fn(term(i)) != t)))
    if c.check() == z3.unsat: raise PathEnd
    return -1


# ---------------------------------------------------------------- numbers
def uint_bytes(v, width, order):
    """bytes of 0 <= v < 256**width"""
    if conc(v):
        b = v.to_bytes(width, 'little' if order == '<' else 'big')
        return Terms([z3.IntVal(x) for x in b], (f'u{width}', order, v))
    t = term(v)
    ts = [t if width == 1 else (t / (256 ** j)) % 256 if j < width - 1 else t / (256 ** j) for j in range(width)]
    if order == '>': ts.reverse()
    return Terms(ts, (f'u{width}', order, v))


def sub_bytes_terms(x, pos, width):
    """the `width` bytes at pos, which are inside"""
    s = sb(x)
    return [s.byte(pos + j) for j in range(width)]


def find_num(x, pos, kind, order):
    """the number encoded at exactly this place, if that is how the bytes are known"""
    s = sb(x)
    p = 0
    for g in s.segs:
        if conc(p) and conc(pos):
            same = p == pos
        else:
            same = cur().valid(mkbool(term(p) == term(pos))) is True
        if same and not (conc(g.length) and g.length == 0):
            if type(g) is Terms and g.num and g.num[0] == kind and (g.num[1] == order or g.length == 1): return g.num
            if not (type(g) is not Terms and not conc(g.length)):
                return None
        p = p + g.length
    return None


def uint_from(x, pos, width, order):
    n = find_num(x, pos, f'u{width}', order)
    if n: return n[2]
    ts = sub_bytes_terms(x, pos, width)
    if order == '>': ts.reverse()
    t = ts[0]
    for j in range(1, width):
        t = t + ts[j] * (256 ** j)
    return mkint(t)


def int_to_bytes(v, length, byteorder, signed):
    if signed or not conc(length): raise Unsupported('to_bytes')
    if not cur().branch(And(mkbool(v.t >= 0), mkbool(v.t < 256 ** length))): raise OverflowError('int too big to convert')
    return SBytes((uint_bytes(v, length, '<' if byteorder == 'little' else '>'),))


# ---------------------------------------------------------------- mutable buffers
def of_bytearray(n, wrap=lambda r: r):
    """a method of bytearrays only, as the content has it"""
    def f(self, *a):
        if self.kind is not bytearray: raise AttributeError(n)
        return wrap(getattr(self.content, n)(*a))
    return f


class SBuf(core.Sym):
    """a writable buffer (bytearray or writable memoryview) of symbolic length"""

    def __init__(self, content, kind=bytearray):
        self.content, self.kind = content, kind
        self.writes = 0
        cur().track(self)

    @property
    def __class__(self): return self.kind
    __hash__ = None
    def pyvc_cells(self): return {'content': self.content}
    def pyvc_set(self, n, v): setattr(self, n, v)
    def pyvc_len(self): return self.content._len
    @property
    def length(self): return self.content._len
    def __len__(self): return len(self.content)
    def __bool__(self): return bool(self.content)
    def __repr__(self): return f'buffer {self.content}'

    def __getitem__(self, i):
        r = self.content[i]
        if isinstance(i, slice):
            if self.kind is memoryview: raise Unsupported('slice of a writable memoryview')
            return sb(r, bytearray)
        return r

    def splice(self, at, data):
        """overwrite len(data) bytes, which fit"""
        c = self.content
        n = blen(data)
        lo = SBytes(cutsegs(c.segs, 0, at), bytes, at)
        hi = SBytes(cutsegs(c.segs, at + n, c._len - at - n), bytes, c._len - at - n)
        self.content = SBytes(norm(lo.segs + segs_of(data) + hi.segs), bytes, c._len)
        self.writes += 1

    def __setitem__(self, i, v):
        c = cur()
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported('slice step')
            lo, hi = slice_bounds(i, self.content._len)
            if self.kind is memoryview and not c.branch(mkbool(term(hi - lo) == term(blen(v)))): raise ValueError('memoryview assignment')
            left = cutsegs(self.content.segs, 0, lo)
            right = cutsegs(self.content.segs, hi, self.content._len - hi)
            self.content = SBytes(norm(left + segs_of(v) + right), bytes)
            self.writes += 1
            return
        if c.branch(mkbool(term(i) < 0)): i = i + self.content._len
        if not c.branch(And(mkbool(term(v) >= 0), mkbool(term(v) < 256))): raise ValueError('byte must be in range(0, 256)')
        if not c.branch(And(mkbool(term(i) >= 0), mkbool(term(i) < term(self.content._len)))): raise IndexError('index out of range')
        self.splice(i, SBytes((Terms([term(v)]),)))

    def __iadd__(self, o):
        self.content = concat(self.content, o)
        self.writes += 1
        return self

    def __add__(self, o): return sb(concat(self.content, o), bytearray)
    def __eq__(self, o): return self.content == (o.content if type(o) is SBuf else o)
    def __ne__(self, o): return Not(self == o)
    def extend(self, o): self += o
    def append(self, v): self += SBytes((Terms([term(v)]),))
    def __contains__(self, o):
        if self.kind is not bytearray: raise Unsupported('in a memoryview')
        return o in self.content
    find, index, startswith, endswith = map(of_bytearray, ('find', 'index', 'startswith', 'endswith'))
    removesuffix = of_bytearray('removesuffix', lambda r: sb(r, bytearray))
    partition = of_bytearray('partition', lambda r: tuple(sb(x, bytearray) for x in r))
    def tobytes(self): return sb(self.content, bytes)
    def release(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if hasattr(self.kind, n): raise Unsupported(f'{self.kind.__name__}.{n}')
        raise AttributeError(n)


# ---------------------------------------------------------------- streams
class SStream:
    """a seekable binary stream; reads stop short only at the end"""

    def __init__(self, content=b'', pos=0):
        self.content, self.pos = sb(content), pos
        self.closed = False
        cur().track(self)

    def pyvc_cells(self): return {'content': self.content, 'pos': self.pos}
    def pyvc_set(self, n, v): setattr(self, n, v)

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def _open(self):
        if self.closed: raise ValueError('I/O operation on closed file.')

    def close(self): self.closed = True
    def readable(self): return True
    def seekable(self): return True
    def writable(self): return True
    def flush(self): pass

    def read(self, n=-1):
        self._open()
        if n is None: n = -1
        L = self.content._len
        if cur().branch(mkbool(term(n) < 0)): end = L
        else: end = self.pos + n
        r = self.content[slice(self.pos, end)]
        if r._len is not None:
            self.pos = self.pos + r._len
        return sb(r, bytes)

    def read1(self, n=-1): return self.read(n)

    def peek(self, n): raise AttributeError('peek')

    def readinto(self, b): raise Unsupported('readinto')

    def write(self, data):
        self._open()
        if not is_bytes(data): raise TypeError('a bytes-like object is required')
        c = cur()
        L = self.content._len
        n = blen(data)
        at_end = mkbool(term(self.pos) == term(L))
        if c.branch(at_end, 'stream at its end'):
            self.content = SBytes(norm(self.content.segs + segs_of(data)))
            self.pos = self.content._len
            return n
        if c.branch(mkbool(term(self.pos) > term(L))): raise Unsupported('write beyond the end')
        left = cutsegs(self.content.segs, 0, self.pos)
        if c.branch(mkbool(term(self.pos + n) >= term(L))):
            self.content = SBytes(norm(left + segs_of(data)))
        else:
            right = cutsegs(self.content.segs, self.pos + n, L - self.pos - n)
            self.content = SBytes(norm(left + segs_of(data) + right))
        self.pos = self.pos + n
        return n

    def writelines(self, parts):
        for p in parts: self.write(p)

    def tell(self):
        self._open()
        return self.pos

    def seek(self, pos, whence=0):
        self._open()
        if whence == 0: new = pos
        elif whence == 1: new = self.pos + pos
        elif whence == 2: new = self.content._len + pos
        else: raise ValueError('whence')
        if cur().branch(mkbool(term(new) < 0)):
            if whence == 0: raise ValueError('negative seek value')
            new = 0
        self.pos = new
        return new

    def getvalue(self):
        self._open()
        return SBytes(self.content.segs, bytes, self.content._len)

    def getbuffer(self): raise Unsupported('getbuffer')
    def truncate(self, *a): raise Unsupported('truncate')
    def readline(self, *a): raise Unsupported('readline')


class SStr(core.Sym):
    """text the code does not look into"""

    def __init__(self, name, hist=()):
        self.name, self.hist = name, hist

    @property
    def __class__(self): return str
    def __repr__(self): return f'SStr({self.name}{list(self.hist)})'
    __hash__ = None

    def rstrip(self, chars=None): return SStr(self.name, self.hist + (('rstrip', chars),))
    def strip(self, chars=None): return SStr(self.name, self.hist + (('strip', chars),))
    def __eq__(self, o):
        if o is self: return True
        if type(o) is SStr:
            if o.name == self.name and o.hist == self.hist: return True
            raise Unsupported('comparison of texts')
        if isinstance(o, str): raise Unsupported('comparison of texts')
        return False

    def __ne__(self, o): return not (self == o)

    def goal_eq(self, o):
        if type(o) is not SStr or o.name != self.name: return False
        return canon(self.hist) == canon(o.hist)

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'str.{n}')


def canon(hist):
    out = []
    for h in hist:
        if out and out[-1] == h and h[0] == 'rstrip': continue
        out.append(h)
    return out
