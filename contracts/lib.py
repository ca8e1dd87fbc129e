"""Shared vocabulary of the contracts: unknown buffers, streams and values, and the
contract every serializer method has (what `pack`, `pack_into` .. `unpack_read` promise
in terms of one encoding of the values)."""
import linecache
import os
import sys
import types
from pyvc import core, models, rt, structm
from pyvc.core import *
import z3
from pyvc.core import term, mkbool, mkint, isint
from pyvc.engine import Unit
from pyvc.models import Base, SBytes, SBuf, SStream, concat, sb, blen, uint_from, uint_bytes, NATIVE

ORDERS = ['', '<', '>', '=', '@', '!']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = [bytes, bytearray, memoryview]


def endian(order):
    return NATIVE if order in ('', '=', '@') else '<' if order == '<' else '>'


def unknown_bytes(name, kind=bytes):
    c = cur()
    n = c.fresh(f'len_{name}', 0)
    b = Base(name, n)
    return SBytes((models.Ref(b, 0, n),), kind, n)


def pick(options, note=None):
    i = cur().choose(len(options))
    cur().notes.append(f'{note or "case"}: {options[i]!r}'[:80])
    return options[i]


class Raised:
    """outcome of a call that raised"""

    def __init__(self, e): self.e = e
    def __repr__(self): return f'{type(self.e).__name__}: {self.e}'[:120]


def attempt(f, *a, **k):
    """what the code does with this call"""
    try:
        return f(*a, **k)
    except Exception as e:
        engine_error(e)
        cur().notes.append(f'raised {type(e).__name__}: {e}'[:90])
        return Raised(e)


PASSES_ON = {'h_isinf', 'native', 'getitem', 'call', 'h_getattr', 'h_setattr', 'builtin_method', 'h_next', 'obj_setattr', 'h_str', 'h_int', 'h_len', 'h_hash', 'h_bytes', 'h_memoryview', '__getitem__', 'genexp', '<genexpr>'}


def engine_error(e):
    """an exception of the verifier itself says nothing about the code"""
    tb = e.__traceback__
    while tb.tb_next: tb = tb.tb_next
    f = tb.tb_frame.f_code
    if isinstance(e, (RecursionError, z3.Z3Exception)) or 'ArgumentError' in type(e).__name__: raise Unsupported(f'the verifier failed: {type(e).__name__}') from e
    if isinstance(e, (TypeError, AttributeError)) and any(n in str(e) for n in engine_names()): raise Unsupported(f'the verifier failed: {type(e).__name__}: {e}') from e
    if f.co_filename.startswith(('/verif/pyvc', '/verif/contracts', HERE)) or '/z3/' in f.co_filename:
        line = linecache.getline(f.co_filename, tb.tb_lineno)
        if 'raise ' not in line and f.co_name not in PASSES_ON: raise Unsupported(f'the verifier failed: {type(e).__name__}: {e} in {f.co_name}:{tb.tb_lineno}') from e


def engine_names():
    if not _names:
        for m in [core, models, rt, structm] + [m for n, m in sys.modules.items() if n.startswith('contracts.')]:
            _names.update(repr(k) for k, v in vars(m).items() if isinstance(v, type) and v.__module__ == m.__name__)
    return _names


_names = set()


def seq_of(x):
    """all values of the iterable an unpack method returns"""
    if isinstance(x, types.GeneratorType): x = counted(x)
    return rt.h_tuple(x)


class Sink:
    """how many values the consumer has taken so far"""

    def __init__(self):
        self.n = 0
        cur().track(self)

    def pyvc_cells(self): return {'n': self.n}
    def pyvc_set(self, k, v): self.n = v


def counted(gen):
    sink = cur().sink = Sink()
    for x in gen:
        yield x
        sink.n = sink.n + (x.seq.length if type(x) is rt.Batch else 1)


# ---------------------------------------------------------------- packing
def contract_pack(name, s, values, enc, accept, size_of=None, variants=('pack', 'pack_into', 'pack_write'), tags=(), sized=True, check_kind=True, also=None, mark=None):
    """Contract of the packing methods: they accept exactly the values with an encoding,
    produce exactly that encoding, write nothing else and report its length.
    enc is the encoding (or None where there is none), accept the condition for it."""
    c = cur()
    v = pick(variants, 'variant')
    nm = f'{name}.{v}'
    pre = getattr(s, 'pyvc_pre', None)
    if v == 'pack':
        r = attempt(s.pack, *rt.star_values(values))
        if isinstance(r, Raised):
            c.prove(Not(accept), f'{nm}: raises only for values it has no encoding for', ('C01', 'C02', 'C16') + tags)
            return
        c.prove(accept, f'{nm}: raises for values it has no encoding for', ('C02', 'C16') + tags)
        c.cover(f'{nm} returns')
        if check_kind: c.prove(isinstance(r, (bytes, bytearray)), f'{nm}: returns bytes', ('C02',))
        c.prove(value_eq(r, enc), f'{nm}: result is the encoding of the values', ('C01', 'C02', 'C16') + tags)
    elif v == 'pack_into':
        old = unknown_bytes('buffer')
        buf = SBuf(old)
        off = c.fresh('offset', 0)
        c.assume(off <= blen(old))
        if mark: mark(old, off)
        r = attempt(s.pack_into, buf, off, *rt.star_values(values))
        if isinstance(r, Raised):
            fits = mkbool(term(off) + term(blen(enc)) <= term(blen(old))) if enc is not None else True
            c.prove(Not(And(accept, fits)), f'{nm}: raises only without an encoding or without room', ('C01', 'C02', 'C16') + tags)
            return
        c.prove(accept, f'{nm}: raises for values it has no encoding for', ('C02', 'C16') + tags)
        if enc is None: return
        n = blen(enc)
        c.prove(mkbool(term(off) + term(n) <= term(blen(old))), f'{nm}: raises when the data does not fit', ('C02',))
        c.cover(f'{nm} returns')
        c.prove(mkbool(term(blen(buf)) == term(blen(old))), f'{nm}: the buffer keeps its length', ('C02',))
        want = concat(old[:off], enc, old[off + n:])
        c.prove(value_eq(buf.content, want), f'{nm}: exactly the bytes of the encoding change', ('C01', 'C02', 'C16') + tags)
    else:
        old = unknown_bytes('stream')
        pos = c.fresh('position', 0)
        c.assume(pos <= blen(old))
        st = SStream(old, pos)
        if mark: mark(old, pos)
        r = attempt(s.pack_write, st, *rt.star_values(values))
        if isinstance(r, Raised):
            c.prove(Not(accept), f'{nm}: raises only for values it has no encoding for', ('C01', 'C02', 'C16') + tags)
            return
        c.prove(accept, f'{nm}: raises for values it has no encoding for', ('C02', 'C16') + tags)
        if enc is None: return
        n = blen(enc)
        c.cover(f'{nm} returns')
        c.prove(mkbool(term(st.pos) == term(pos + n)), f'{nm}: the stream is left after the encoding', ('C02', 'C16') + tags)
        end = pos + n
        tail = old[end:]
        c.prove(value_eq(st.content, concat(old[:pos], enc, tail)), f'{nm}: exactly the encoding is written', ('C01', 'C02', 'C16') + tags)
    if sized and enc is not None:
        check_size(s, also, blen(enc), nm, 'produced', ('C04', 'C01', 'C02') + tags)


# ---------------------------------------------------------------- unpacking
def contract_unpack(name, s, decode, variants=('unpack', 'unpack_from', 'unpack_read'), tags=(), kinds=KINDS, sized=True, also=None):
    """Contract of the unpacking methods.  decode(view) -> (accept, n, values): from the
    bytes that follow, whether they start with an encoding, its length and its values
    (a tuple of thunks or values, looked at only when accept holds)."""
    c = cur()
    v = pick(variants, 'variant')
    nm = f'{name}.{v}'
    c.consumed = lambda: 0
    if v == 'unpack':
        kind = pick(kinds, 'kind')
        data = unknown_bytes('data', kind)
        view = sb(data, bytes)
        accept, n, values = decode(view)
        r = attempt(lambda: seq_of(s.unpack(data)))
    elif v == 'unpack_from':
        kind = pick(kinds, 'kind')
        data = unknown_bytes('data', kind)
        default = kind is bytes and c.choose(2, 'no offset given')
        off = 0 if default else c.fresh('offset', 0)
        c.assume(mkbool(term(off) <= term(blen(data))))
        view = sb(data, bytes) if default else sb(data, bytes)[off:]
        accept, n, values = decode(view)
        r = attempt(lambda: seq_of(s.unpack_from(data) if default else s.unpack_from(data, off)))
    else:
        old = unknown_bytes('stream')
        pos = c.fresh('position', 0)
        c.assume(pos <= blen(old))
        st = SStream(old, pos)
        view = old[pos:]
        c.ghost_views.append(('view', view))
        c.loop_preds.append(('the stream position stays inside', lambda i: And(mkbool(term(st.pos) >= term(pos)), mkbool(term(st.pos) <= term(blen(old))))))
        c.consumed = lambda: st.pos - pos
        accept, n, values = decode(view)
        r = attempt(lambda: seq_of(s.unpack_read(st)))
    if isinstance(r, Raised):
        c.prove(Not(accept), f'{nm}: raises only when no complete encoding follows', ('C01', 'C03', 'C16') + tags)
        return Raised(r.e)
    c.prove(accept, f'{nm}: raises when no complete encoding follows', ('C03', 'C16', 'C17') + tags)
    if core.tobool(accept) is not True and c.valid(accept) is not True:
        return None     # refuted above
    c.cover(f'{nm} returns')
    want = values() if callable(values) else values
    c.prove(value_eq(r, want), f'{nm}: gives the encoded values', ('C01', 'C03', 'C16') + tags)
    if v == 'unpack_read':
        c.prove(mkbool(term(st.pos) == term(pos + n)), f'{nm}: the stream is left after the encoding', ('C03',) + tags)
        c.prove(value_eq(st.content, old), f'{nm}: the stream content is left alone', ('C03',))
    if sized:
        check_size(s, also, n, nm, 'consumed', ('C04', 'C01', 'C03') + tags)
    return r


def pack_list(name, s, items, enc, ok, tags, **kw):
    """the list of values belongs to the caller and stays as it is"""
    held = rt.MList()
    held.pyvc_set('', items)
    contract_pack(name, s, (held,), enc, ok, tags=tags, **kw)
    now = held.sym if held.sym is not None else tuple(held)
    cur().prove(now is items or value_eq(core.as_seq(now), core.as_seq(items)), f'{name}: packing leaves the packed list alone', ('C16', 'C01', 'C07'))


def check_size(s, also, n, nm, what, tags=('C04',)):
    """what a serializer reports is where the next part goes: a wrong size misplaces it"""
    size = attempt(getattr, s, 'size')
    cur().prove(isint(size) and mkbool(term(size) == term(n)), f'{nm}: size is the number of bytes {what}', tags)
    if also is not None and also is not s:
        size = attempt(getattr, also, 'size')
        cur().prove(isint(size) and mkbool(term(size) == term(n)), f'{nm}: size of the original serializer is the number of bytes {what}', tags)


def havoc(s):
    """any history before the operation: attributes the code assigns outside __init__"""
    for a in mutable_attrs(type(s)):
        if a in vars(s):
            old = vars(s)[a]
            vars(s)[a] = cur().fresh(f'old_{a}') if isint(old) else rt.Poison(f'old {a}')
    return s


_mut = {}


def mutable_attrs(cls):
    """names some method other than __init__ assigns on its instance (scanned from the
    source on every run)"""
    if cls not in _mut:
        import ast, inspect, textwrap
        from pyvc import load
        names = set()
        for k in cls.__mro__:
            if not (k.__module__ or '').startswith('structured'): continue
            tree = load.class_ast(k)
            if tree is None: continue
            for f in tree.body:
                if isinstance(f, (ast.FunctionDef,)) and f.name not in ('__init__', '__new__'):
                    me = f.args.args[0].arg if f.args.args else None
                    for w in ast.walk(f):
                        if isinstance(w, ast.Attribute) and isinstance(w.ctx, ast.Store) and isinstance(w.value, ast.Name) and w.value.id == me: names.add(w.attr)
        _mut[cls] = sorted(names)
    return _mut[cls]
