"""Model of the struct module.  Concrete arguments go to the real one; formats may
contain unknown counts, data may be ropes.  The contract of struct (trusted): a format
is a sequence of counted specifiers laid out one after the other with the documented
sizes and alignments, every number is encoded on its own, packing raises struct.error
for a value its specifier cannot hold or a wrong number of values, unpacking for a
wrong number of bytes."""
import re
import struct as real
import z3
from . import core
from .core import *
from .core import term, mkint, mkbool, isint, conc, concbool
from .models import *
from .models import NATIVE, segs_of

error = real.error
UNSIGNED, SIGNED = 'BHILQN', 'bhilqn'


CODES = 'xcbB?hHiIlLqQnNefdspP'


class Txt:
    """an arbitrary valid run of counted specifiers (no byte order character).  What it
    is is decided only as far as it matters: `parts` is what it was found to consist of.
    power: (F, n) when it stands for some text that means n copies of the format F"""
    count = 0

    def __init__(self, name, power=None, empty=None):
        c = cur()
        self.name, self.power, self.parts = name, power, None
        if power:
            F, n = power
            self.nvalues = nvalues(F) * n
            self.empty, self.native = is_empty(F), is_native(F)
        else:
            self.nvalues = c.fresh(f'values_of_{name}', 0)
            self.empty = c.fresh_bool(f'empty_{name}') if empty is None else empty
            self.native = c.fresh_bool(f'native_only_{name}')
        c.assume(Implies(self.empty, And(mkbool(term(self.nvalues) == 0), Not(self.native))))

    def __repr__(self): return f'<{self.name}>'

    def is_empty(self):
        if cur().branch(self.empty if type(self.empty) is bool else self.empty.t, f'{self.name} is empty'):
            if self.parts is None: self.parts = ()
            return True
        return False

    def expand(self, end):
        """a text that is not empty ends and starts with a counted specifier"""
        c = cur()
        assert self.parts is None
        if self.is_empty(): return
        code = CODES[c.choose(len(CODES))]
        counted = c.choose(2)
        c.notes.append(f'{self.name}: {"..." if end else ""}{"n" if counted else ""}{code}{"" if end else "..."}')
        rest = Txt(f'{self.name}{"<" if end else ">"}')
        tok = (c.fresh('count', 0), code) if counted else (code,)
        self.parts = (rest,) + tok if end else tok + (rest,)
        c.assume(mkbool(term(self.nvalues) == term(rest.nvalues + count_values(tok[0] if counted else 1, code))))
        native = code in 'nNP'
        c.assume(core.mkbool(term(Or(native, rest.native)) == term(self.native)))


def count_values(n, code): return 0 if code == 'x' else 1 if code in 'sp' else n


def flat(parts):
    """the parts with everything found out about unknown texts put in"""
    out = []
    for p in parts:
        if type(p) is Txt and p.parts is not None: out += flat(p.parts)
        else: out.append(p)
    return SFmt(out).parts if any(type(p) is Txt for p in parts) else tuple(out)


def is_empty(f):
    return And(*[p.empty if type(p) is Txt else False for p in flat(parts_of(f))])


def is_native(f):
    return Or(*[p.native if type(p) is Txt else type(p) is str and any(x in p for x in 'nNP') for p in flat(parts_of(f))])


def nvalues(f):
    r = 0
    for t in tokens(f): r = r + (t.nvalues if type(t) is Txt else count_values(*t))
    return r


def tokens(f):
    """[(count, code) or Txt] of a format without byte order, or struct.error"""
    out, num = [], None
    for p in flat(parts_of(f)):
        if type(p) is str:
            for ch in p:
                if ch.isspace() and num is None: continue
                if ch.isdigit():
                    if type(num) is SInt: raise Unsupported('digits next to an unknown number')
                    num = (num or 0) * 10 + int(ch)
                else:
                    if ch not in CODES: raise error('bad char in struct format')
                    out.append((1 if num is None else num, ch))
                    num = None
        elif type(p) is SInt:
            if num is not None: raise Unsupported('digits next to an unknown number')
            num = p
        elif type(p) is Txt:
            if num is not None:
                if p.is_empty(): continue
                raise error('bad char in struct format') if p.parts else Unsupported('a number before an unknown text')
            out.append(p)
        else: raise Unsupported('unknown text in a format')
    if num is not None: raise error('repeat count given without format specifier')
    return out


def normal(toks):
    """neighbouring counts of the same kind added up (strings are values of their own)"""
    out = []
    for t in toks:
        if type(t) is Txt:
            if t.power and t.parts is None:
                F = tokens(t.power[0])
                if len(F) == 1 and type(F[0]) is tuple and F[0][1] not in 'sp': t = (F[0][0] * t.power[1], F[0][1])
        if type(t) is tuple and out and type(out[-1]) is tuple and out[-1][1] == t[1] and t[1] not in 'sp': out[-1] = (out[-1][0] + t[0], t[1])
        else: out.append(t)
    return [t for t in out if not (type(t) is tuple and t[1] == 'x' and (not t[0] if conc(t[0]) else cur().branch(mkbool(term(t[0]) <= 0), 'no padding')))]


def same_meaning(a, b):
    """condition that two formats mean the same for every byte order"""
    return same_tokens(normal(tokens(a)), normal(tokens(b)))


def same_tokens(a, b):
    conds = []
    ok = len(a) == len(b)
    for x, y in zip(a, b):
        if not ok: break
        if type(x) is Txt and type(y) is Txt:
            if x is y: continue
            if x.power and y.power:
                conds.append(And(same_meaning(x.power[0], y.power[0]), mkbool(term(x.power[1]) == term(y.power[1]))))
                continue
            ok = False
        elif type(x) is tuple and type(y) is tuple and x[1] == y[1]: conds.append(mkbool(term(x[0]) == term(y[0])))
        else: ok = False
    if ok: return And(*conds)
    if any(type(t) is Txt and t.power for t in a + b): raise Unsupported('comparison of repeated formats')
    return False


class Joined:
    """the texts of a sequence of unknown length with a separator between them"""

    def __init__(self, sep, seq): self.sep, self.seq = sep, seq


class SFmt(core.Sym):
    """text with unknown decimal numbers in it"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if conc(p) and type(p) is not SInt and not concbool(p): p = str(p)
            if isinstance(p, str) and type(p) is str:
                if not p: continue
                if out and type(out[-1]) is str:
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @staticmethod
    def make(parts):
        f = SFmt(parts)
        if not f.parts: return ''
        if len(f.parts) == 1 and type(f.parts[0]) is str: return f.parts[0]
        return f

    @property
    def __class__(self): return str
    def __repr__(self): return 'SFmt(' + ''.join(p if type(p) is str else '{' + repr(p) + '}' for p in self.parts) + ')'
    __str__ = __repr__
    def __add__(self, o):
        if not isinstance(o, str): return NotImplemented
        return SFmt.make(self.parts + parts_of(o))
    def __radd__(self, o):
        if not isinstance(o, str): return NotImplemented
        return SFmt.make(parts_of(o) + self.parts)
    def __bool__(self):
        if any(type(p) is not Txt for p in flat(self.parts)): return True
        return not all(p.is_empty() for p in flat(self.parts))

    def __getitem__(self, i):
        if any(type(p) is Txt for p in self.parts):
            f = SFmt.make(flat(self.parts))
            if type(f) is str: return f[i]
            if conc(i) and i in (0, -1) and type(f.parts[i]) is Txt:
                if not f.parts[i].is_empty(): return SFmt((Char(f.parts[i]),))
                return f[i]
            if any(a is not b for a, b in zip(f.parts, self.parts)) or len(f.parts) != len(self.parts): return f[i]
        if conc(i) and i == 0 and type(self.parts[0]) is str: return self.parts[0][0]
        if conc(i) and i == -1 and type(self.parts[-1]) is str: return self.parts[-1][-1]
        if conc(i) and (i == 0 and type(self.parts[0]) is SInt or i == -1 and type(self.parts[-1]) is SInt): return SFmt((cur().fresh('digit', 0, 9),))
        if isinstance(i, slice) and i.step is None and type(self.parts[0]) is str and (i.start or 0) >= 0:
            k = i.start or 0
            if k <= len(self.parts[0]):
                if i.stop is None: return SFmt.make((self.parts[0][k:],) + self.parts[1:])
                if 0 <= i.stop <= len(self.parts[0]): return self.parts[0][k:i.stop]
                if i.stop < 0 and type(self.parts[-1]) is str and len(self.parts) > 1 and -i.stop <= len(self.parts[-1]):
                    return SFmt.make((self.parts[0][k:],) + self.parts[1:-1] + (self.parts[-1][:i.stop],))
        raise Unsupported('position in a format of unknown length')

    def endswith(self, x):
        p = self.parts[-1]
        if type(p) is str and all(len(p) >= len(y) for y in (x if isinstance(x, tuple) else (x,))): return p.endswith(x)
        if type(p) is SInt and isinstance(x, str) and not x[-1:].isdigit(): return False
        raise Unsupported('endswith of a format')

    def startswith(self, x):
        p = self.parts[0]
        if type(p) is str and all(len(p) >= len(y) for y in (x if isinstance(x, tuple) else (x,))): return p.startswith(x)
        if type(p) is SInt and isinstance(x, str) and not x[:1].isdigit(): return False
        raise Unsupported('startswith of a format')

    def __contains__(self, x):
        if isinstance(x, str) and len(x) == 1 and not x.isdigit(): return any(type(p) is str and x in p for p in self.parts) if all(type(p) in (str, SInt) for p in self.parts) else self._unknown('in')
        self._unknown('in')

    def _unknown(self, what): raise Unsupported(f'{what} of an unknown text')

    def __eq__(self, o):
        if not isinstance(o, str): return False
        if o is self: return True
        a, b = flat(self.parts), flat(parts_of(o))
        if len(a) == 1 and type(a[0]) is Char and isinstance(o, str) and o in ('', '@', '=', '<', '>', '!'): return False
        if [type(p) for p in a] != [type(p) for p in b]: return self._canon_eq(o)
        c = []
        for p, q in zip(a, b):
            if type(p) is str:
                if p != q: return self._canon_eq(o)
            elif type(p) is SInt:
                c.append(mkbool(p.t == q.t))
            elif p is q: pass
            else:
                raise Unsupported('comparison of formats')
        return And(*c)

    def _canon_eq(self, o):
        # numbers against digits
        la, lb = runs(flat(self.parts)), runs(flat(parts_of(o)))
        if la is None or lb is None: raise Unsupported('comparison of formats')
        if len(la) != len(lb): return False
        c = []
        for x, y in zip(la, lb):
            if x is y: continue
            if type(x) is Txt or type(y) is Txt: raise Unsupported('comparison of unknown texts')
            dx, dy = type(x) is SInt or x[:1].isdigit(), type(y) is SInt or y[:1].isdigit()
            if dx != dy: return False
            if type(x) is str and type(y) is str:
                if x != y: return False
                continue
            for z in (x, y):
                if type(z) is str and len(z) > 1 and z[0] == '0': return False
            c.append(mkbool(term(x if type(x) is SInt else int(x)) == term(y if type(y) is SInt else int(y))))
        return And(*c)

    def __ne__(self, o): return Not(self == o)
    def __hash__(self): return hash(tuple(p if type(p) is str else 0 if type(p) is SInt else id(p) for p in self.parts))
    def isdigit(self):
        if all(type(p) is SInt or type(p) is str and p.isdigit() for p in self.parts): return True
        if any(type(p) is str and not p.isdigit() for p in self.parts): return False
        raise Unsupported('isdigit')

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if hasattr(str, n): raise Unsupported(f'str.{n} of a format')
        raise AttributeError(n)


def runs(parts):
    """numbers, runs of digits and other texts"""
    out = []
    for p in parts:
        if type(p) is str:
            new = re.findall(r'[0-9]+|[^0-9]+', p)
            if out and type(out[-1]) is SInt and new[0][0].isdigit(): return None
            out += new
        elif type(p) in (SInt, Txt):
            if type(p) is SInt and out and (type(out[-1]) is SInt or type(out[-1]) is str and out[-1][0].isdigit()): return None
            out.append(p)
        else: return None
    return out


class Char:
    """the first or last character of an unknown text: not a byte order"""

    def __init__(self, txt): self.txt = txt


def parts_of(x):
    return x.parts if type(x) is SFmt else (x,) if x else ()


def decimal(x):
    """text of an int"""
    if not conc(x) and type(x) is not SInt: raise Unsupported('text')
    if type(x) is SInt:
        if cur().branch(mkbool(x.t < 0)): return SFmt.make(('-', -x))
        return SFmt.make((x,))
    return str(x)


def fmt_to_int(x):
    """int(text)"""
    if len(x.parts) == 1 and type(x.parts[0]) is SInt: return x.parts[0]
    if len(x.parts) == 2 and x.parts[0] == '-' and type(x.parts[1]) is SInt: return -x.parts[1]
    if any(type(p) is str and not p.isdigit() for p in x.parts): raise ValueError('invalid literal for int()')
    raise Unsupported('int of mixed digits')


class SMatch:
    def __init__(self, m, back):
        self.m = m
        self.got = tuple(None if m.span(n)[0] < 0 else back(*m.span(n)) for n in range(m.re.groups + 1))

    def like(self, o):
        def known(x): return SFmt([p for p in parts_of(x) if type(p) is not Txt]).parts if x is not None else None
        return len(self.got) == len(o.got) and all((a is None) == (b is None) and (a is None or len(known(a)) == len(known(b)) and all(x is y or type(x) is str and x == y for x, y in zip(known(a), known(b)))) for a, b in zip(self.got, o.got))

    def group(self, *ns):
        r = tuple(self._g(n) for n in (ns or (0,)))
        return r if len(r) > 1 else r[0]

    def _g(self, n): return self.got[self.m.re.groupindex[n] if isinstance(n, str) else n]

    __getitem__ = _g
    def groups(self): return tuple(self._g(n + 1) for n in range(self.m.re.groups))
    def groupdict(self): return {k: self._g(v) for k, v in self.m.re.groupindex.items()}
    def __bool__(self): return True

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'Match.{n}')


def regex(pattern, how, text):
    """run the real regular expression on the text with every unknown number written
    as a run of digits of its own: it may treat digits alike only (\\d, \\d*)"""
    pat = pattern.pattern
    left = re.sub(r'\\d|\[[^\]]*\]|\{[^}]*\}', '', pat)
    if re.search(r'[0-9]', left) or re.search(r'\[[^\]]*[0-9]-', pat): raise Unsupported('regular expression about digits')
    while True:
        parts = tuple(p for p in flat(text.parts) if not (type(p) is Txt and p.empty is True))
        txts = [p for p in parts if type(p) is Txt]
        if not txts: return on_text(pattern, how, parts, '')
        try: rs = [on_text(pattern, how, parts, x) for x in EXAMPLES]
        except Inside as e:
            if e.txt is parts[-1] and e.end: e.txt.expand(True)
            elif e.txt is parts[0] and not e.end: e.txt.expand(False)
            else: raise Unsupported('regular expression that looks into an unknown text') from None
            continue
        # empty texts leave the other parts of the match as they are
        bare = on_text(pattern, how, parts, '')
        for r in rs[1:] + [bare]:
            if (r is None) != (rs[0] is None): break
            if r and not r.like(rs[0]): break
        else: return rs[0]
        for t in txts:
            if cur().branch(core.tobool(t.empty), f'{t.name} is empty'):
                t.is_empty()
                break
            t.empty = False
        else: raise Unsupported('regular expression that depends on an unknown text')


EXAMPLES = (CODES, 'x', '3h', 'hh4s', '12P', '0s', 's', '5x10p', '1c1c')


class Inside(Exception):
    def __init__(self, txt, end): self.txt, self.end = txt, end


def on_text(pattern, how, parts, example):
    s, spans = '', []
    for p in parts:
        a = len(s)
        if type(p) is str: s += p
        elif type(p) is SInt: s += str(7 * 10 ** 6 + len(spans))
        elif type(p) is Txt: s += example
        else: raise Unsupported('regular expression on an unknown text')
        spans.append((a, len(s), p))
    m = getattr(pattern, how)(s)
    if m is None: return None

    def back(lo, hi):
        out = []
        for a, b, p in spans:
            x, y = max(a, lo), min(b, hi)
            if x >= y: continue
            if type(p) is str: out.append(p[x - a:y - a])
            elif (x, y) == (a, b): out.append(p)
            elif type(p) is Txt: raise Inside(p, ((x if x > a else y) - a) * 2 > b - a)
            else: raise Unsupported('part of an unknown number')
        return SFmt.make(out)
    return SMatch(m, back)


# ---------------------------------------------------------------- layout
def parse(fmt):
    """(order, [(count, code, repetitions or None)])"""
    parts = list(parts_of(fmt))
    order = '@'
    if parts and type(parts[0]) is str and parts[0][0] in '@=<>!':
        order = parts[0][0]
        parts[0] = parts[0][1:]
    out = []
    for t in tokens(SFmt.make(parts)):
        if type(t) is tuple:
            if t[1] in 'nNP' and order != '@': raise error('bad char in struct format')
            out.append((*t, None))
        else:
            F = tokens(t.power[0])     # (only such texts have a layout)
            if len(F) != 1: raise Unsupported('repetition of several specifiers')
            out.append((*F[0], t.power[1]))
    return order, out


def opaque_format(fmt):
    """has no known layout"""
    for p in flat(parts_of(fmt)):
        if type(p) is Txt and p.power:
            F = tokens(p.power[0])
            if len(F) == 1 and type(F[0]) is tuple: continue
        if type(p) is Txt: return True
    return False


class AnyLayout:
    """an unknown format: as struct does it, whatever that is (cur().formats says)"""

    def __init__(self, fmt):
        c = cur()
        parts = list(flat(parts_of(fmt)))
        order = '@'
        if type(parts[0]) is str and parts[0][0] in '@=<>!':
            order = parts[0][0]
            parts[0] = parts[0][1:]
        toks = tokens(SFmt.make(parts))
        if order != '@' and c.branch(core.tobool(is_native(SFmt.make(parts))), 'has native-only specifiers'): raise error('bad char in struct format')
        self.of = c.formats.find(order, SFmt.make(parts))
        self.size, self.nvalues = self.of.size, nvalues(SFmt.make(parts))


def code_size(order, code):
    if code in 'spx': return 1, 1
    o = '@' if order == '@' else '='
    n = real.calcsize(o + code)
    return n, (real.calcsize('@c' + code) - n if order == '@' else 1)


class Layout:
    """items: (offset, code, width of one value, number of values or None, string size)"""

    def __init__(self, fmt):
        self.order, toks = parse(fmt)
        self.endian = NATIVE if self.order in '@=' else '<' if self.order == '<' else '>'
        off = 0
        self.items = []
        n = 0
        for cnt, code, rep in toks:
            w, a = code_size(self.order, code)
            if a > 1:
                off = off if conc(off) and off % a == 0 else (off + (a - 1)) // a * a
            if code in 'sp':
                if rep is None:
                    self.items.append((off, code, cnt, None))
                    n = n + 1
                    off = off + cnt
                else:
                    if not conc(cnt): raise Unsupported('unknown number of strings of unknown size')
                    self.items.append((off, code, cnt, rep))
                    n = n + rep
                    off = off + rep * cnt
            elif code == 'x':
                cnt = cnt if rep is None else cnt * rep
                self.items.append((off, 'x', cnt, None))
                off = off + cnt
            else:
                cnt = cnt if rep is None else cnt * rep
                if conc(cnt):
                    for j in range(cnt):
                        self.items.append((off + j * w, code, w, None))
                else:
                    self.items.append((off, code, w, cnt))
                n = n + cnt
                off = off + cnt * w
        self.size, self.nvalues = off, n


def enc_fn(code, endian, j):
    return z3.Function(f'enc_{code}{endian}{j}', V, z3.IntSort())


def ok_fn(code):
    return z3.Function(f'holds_{code}', V, z3.BoolSort())


def pack_value(code, endian, w, v):
    """segments of one value, or struct.error"""
    c = cur()
    if code in UNSIGNED or code in SIGNED:
        if type(v) is SVal:
            if not c.branch(mkbool(ok_fn(code + str(w))(v.t)), 'the value fits its specifier'): raise error('bad value')
            return opaque(code, endian, w, v)
        if not isint(v) and type(v) is not SBool: raise error('required argument is not an integer')
        lo, hi = (0, 256 ** w) if code in UNSIGNED else (-(256 ** w) // 2, 256 ** w // 2)
        if not c.branch(And(mkbool(term(v) >= lo), mkbool(term(v) < hi)), 'the number fits its specifier'): raise error('argument out of range')
        if concbool(v): v = int(v)
        if type(v) is SBool: v = mkint(term(v))
        if code in UNSIGNED:
            t = uint_bytes(v, w, endian)
        else:
            u = (v if v >= 0 else v + 256 ** w) if conc(v) else mkint(z3.If(v.t >= 0, v.t, v.t + 256 ** w))
            t = Terms(uint_bytes(u, w, endian).terms, (f's{w}', endian, v))
        return (t,)
    if code == 's' or code == 'p' or code == 'c':
        if type(v) is SVal or type(v) is core.SSeq: raise Unsupported('opaque value as a string')
        if not isinstance(v, (bytes, bytearray)): raise error('argument must be a bytes object')
        n = blen(v)
        if code == 'c':
            if not c.branch(mkbool(term(n) == 1)): raise error('char format requires a bytes object of length 1')
            return segs_of(v)
        if code == 's':
            if c.branch(mkbool(term(n) >= term(w)), 'string fills its field'): return segs_of(sb(v)[:w])
            return segs_of(v) + (Fill(0, w - n),)
        # pascal
        if c.branch(mkbool(term(w) == 0)): return ()
        room = w - 1
        k = room if c.branch(mkbool(term(n) > term(room))) else n
        mark = 255 if c.branch(mkbool(term(k) > 255)) else k
        return (uint_bytes(mark, 1, endian),) + segs_of(sb(v)[:k]) + (Fill(0, room - k),)
    if type(v) is SVal:
        if not c.branch(mkbool(ok_fn(code + str(w))(v.t)), 'the value fits its specifier'): raise error('bad value')
        return opaque(code, endian, w, v)
    if not isinstance(v, Sym):
        return (Terms([z3.IntVal(b) for b in real.pack(endian + code, v)], (code, endian, v)),)
    if code == '?':
        return (uint_bytes(1 if v else 0, 1, endian),)
    raise Unsupported(f'{type(v)} packed as {code}')


def opaque(code, endian, w, v):
    ts = [enc_fn(code, endian, j)(v.t) for j in range(w)]
    for t in ts: cur().solver.add(t >= 0, t <= 255)
    return (Terms(ts, (code, endian, v)),)


class ValueBase(Base):
    """bytes of an unknown number of values of one specifier"""


def pack_seq(code, endian, w, seq, n):
    """n values of one specifier, one after the other"""
    c = cur()
    if conc(w) and w == 0 and False: return ()
    if not seq.key: raise Unsupported('packing a computed sequence of unknown length')
    root, lo, hi = seq.key
    bad = c.memoize(('bad', id(root), code, w), lambda: c.choose(2, 'a value does not fit its specifier'))
    if bad:
        c.keep.append('value rejected')
        raise error('argument out of range')
    base = c.memoize(('encseq', id(root), code, endian, w), lambda: ValueBase(f'enc_{code}{endian}'))
    return (Ref(base, lo * w, n * w),)


def layout(fmt):
    return AnyLayout(fmt) if opaque_format(fmt) else Layout(fmt)


def pack_layout(L, values):
    c = cur()
    seq = values if type(values) is core.SSeq else None
    n = seq.length if seq is not None else len(values)
    if not c.branch(mkbool(term(n) == term(L.nvalues)), 'number of values as expected'):
        raise error(f'pack expected other number of items')
    if type(L) is AnyLayout:
        ok, e = L.of.enc(values)
        if not c.branch(ok, 'struct can pack the values'): raise error('argument out of range')
        return e
    segs, pos, k = (), 0, 0
    for off, code, w, cnt in L.items:
        gap = off - pos
        if not (conc(gap) and gap == 0): segs += (Fill(0, gap),)
        if code == 'x':
            segs += (Fill(0, w),)
            pos = off + w
        elif cnt is None:
            v = values[k] if seq is None else seq.at(k)
            segs += tuple(pack_value(code, L.endian, w, v))
            pos = off + w
            k = k + 1
        else:
            s = (seq if seq is not None else core.as_seq(values)).sub(k, k + cnt)
            segs += pack_seq(code, L.endian, w, s, cnt)
            pos = off + w * cnt
            k = k + cnt
    return SBytes(norm(segs), bytes, L.size)


def unpack_value(code, endian, w, x, pos):
    if code in UNSIGNED: return uint_from(x, pos, w, endian)
    if code in SIGNED:
        n = find_num(x, pos, f's{w}', endian)
        if n: return n[2]
        u = uint_from(x, pos, w, endian)
        if conc(u): return u if u < 256 ** w // 2 else u - 256 ** w
        return mkint(z3.If(u.t < 256 ** w // 2, u.t, u.t - 256 ** w))
    if code == 's': return sb(sb(x)[pos:pos + w], bytes)
    if code == 'c': return sb(sb(x)[pos:pos + 1], bytes)
    if code == 'p':
        c = cur()
        if c.branch(mkbool(term(w) == 0)): return b''
        n = mkint(sb(x).byte(pos))
        if c.branch(mkbool(term(n) > term(w - 1))): n = w - 1
        return sb(sb(x)[pos + 1:pos + 1 + n], bytes)
    n = find_num(x, pos, code, endian)
    if n: return n[2]
    ts = sub_bytes_terms(x, pos, w)
    f = z3.Function(f'dec_{code}{endian}', *([z3.IntSort()] * w), V)
    return SVal(f(*ts))


def unpack_layout(L, x, pos):
    if type(L) is AnyLayout:
        x = sb(x, bytes)
        return L.of.dec(SBytes(cutsegs(x.segs, pos, L.size), bytes, L.size))
    parts, seqs = [], False
    for off, code, w, cnt in L.items:
        if code == 'x': continue
        if cnt is None:
            parts.append(unpack_value(code, L.endian, w, x, pos + off))
        else:
            seqs = True
            start = pos + off
            parts.append(core.SSeq(cnt, lambda i, code=code, w=w, start=start: unpack_value(code, L.endian, w, x, start + i * w), tuple))
    if not seqs: return tuple(parts)
    r = ()
    run = []
    for p in parts:
        if type(p) is core.SSeq:
            r = core.seq_concat(core.seq_concat(r, tuple(run)), p)
            run = []
        else:
            run.append(p)
    return core.seq_concat(r, tuple(run))


# ---------------------------------------------------------------- the module
def symbolic(*xs):
    return any(isinstance(x, core.Sym) or type(x).__name__ == 'StarMarker' for x in xs)


def unstar(values):
    from . import rt
    return rt.unstar(values)


class Struct:
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, format):
        if type(format) is SFmt and cur():
            self._fmt = format
            self._real = None
            self._layout = layout(format)
        else:
            if isinstance(format, (bytes, bytearray)): format = bytes(format).decode('ascii')
            self._real = real.Struct(str.__str__(format) if not isinstance(format, str) else format)
            self._fmt = self._real.format
            self._layout = None

    @property
    def format(self): return self._fmt

    @property
    def size(self):
        return self._real.size if self._real else self._layout.size

    def lay(self):
        if self._layout is None: self._layout = Layout(self._fmt)
        return self._layout

    def pack(self, *values):
        if not cur(): return self._real.pack(*values)
        return _res(pack_layout(self.lay(), unstar(values)))

    def pack_into(self, buffer, offset, *values):
        if not cur() or (self._real and not symbolic(buffer, offset, *values)): return self._real.pack_into(buffer, offset, *values)
        c = cur()
        data = pack_layout(self.lay(), unstar(values))
        if type(buffer) is not SBuf: raise Unsupported('pack into something else than a buffer')
        offset = place(buffer, offset, self.size, 'pack_into')
        buffer.splice(offset, data)

    def unpack(self, buffer):
        if not cur() or (self._real and not symbolic(buffer)): return self._real.unpack(buffer)
        if not is_bytes(buffer): raise TypeError('a bytes-like object is required')
        if not cur().branch(mkbool(term(blen(buffer)) == term(self.size)), 'enough bytes for the format'):
            raise error('unpack requires a buffer of other size')
        return unpack_layout(self.lay(), buffer, 0)

    def unpack_from(self, buffer, offset=0):
        if not cur() or (self._real and not symbolic(buffer, offset)): return self._real.unpack_from(buffer, offset)
        if not is_bytes(buffer): raise TypeError('a bytes-like object is required')
        offset = place(buffer, offset, self.size, 'unpack_from')
        return unpack_layout(self.lay(), buffer, offset)

    def iter_unpack(self, buffer):
        if not cur(): return self._real.iter_unpack(buffer)
        raise Unsupported('iter_unpack')


def _res(x):
    return x


def place(buffer, offset, size, what):
    c = cur()
    n = blen(buffer)
    if not isint(offset): raise TypeError('offset must be an integer')
    if c.branch(mkbool(term(offset) < 0)):
        if c.branch(mkbool(term(offset) + term(n) < 0)): raise error('offset out of range')
        offset = offset + n
    if not c.branch(mkbool(term(offset) + term(size) <= term(n)), f'{what}: the buffer is large enough'):
        raise error(f'{what} requires a larger buffer')
    return offset


def pack(fmt, *values): return Struct(fmt).pack(*values)
def pack_into(fmt, buffer, offset, *values): return Struct(fmt).pack_into(buffer, offset, *values)
def unpack(fmt, buffer): return Struct(fmt).unpack(buffer)
def unpack_from(fmt, buffer, offset=0): return Struct(fmt).unpack_from(buffer, offset)
def calcsize(fmt): return Struct(fmt).size
def iter_unpack(fmt, buffer): return Struct(fmt).iter_unpack(buffer)
