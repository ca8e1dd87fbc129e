"""Contracts of the arrays of struct items (arrays.py): any item format of one value,
any number of items, plain items and items with an action.  The items of the whole array
are one format: as many copies of the item's."""
from .lib import *
from .abstract import opaque_seq
from .containers import deep, unchanged, same_object
from .structs import begin, text, structs, made, times, actions, apply_all, Folding, BO
from pyvc.structm import SFmt
from pyvc.core import PathEnd
import struct as real_struct

CODES = {'B': 1, 'H': 2, 'I': 4, 'Q': 8}


def mods():
    import structured.serializers.arrays as a
    return a


def item_of(order, acting):
    """a struct serializer of one value, and what it does with it"""
    m = structs()
    F = text('item', order)
    n = structm.nvalues(F)
    cur().assume(mkbool(term(n) == 1))
    if not acting: return made(m.StructSerializer, F, BO(order)), F, None
    a = actions('action', 1)
    return made(m.StructActionSerializer, F, BO(order), a), F, a.at(0)


def through(act, vals):
    return vals if act is None else core.SSeq(vals.length, lambda k: act(vals.at(k)), tuple)


def ordered(s0, order, make):
    """(serializer, its byte order): as made, copied, or after it was copied"""
    how = pick(['as made', 'copy', 'original after a copy'], 'with_byte_order')
    if how == 'as made': return s0, order
    o2 = pick(ORDERS, 'order of the copy') if how == 'copy' else '<'
    before = deep(s0)
    try: t = s0.with_byte_order(BO(o2))
    except real_struct.error: raise PathEnd
    if how == 'copy':
        try: want = make(BO(o2))
        except real_struct.error: raise PathEnd
        if same_object(t, want):
            cur().prove(True, f'{type(s0).__name__}.with_byte_order: gives the array made of the reordered parts', ('C05', 'C16'))
            raise PathEnd
        return t, o2
    if unchanged(s0, before):
        cur().prove(True, f'{type(s0).__name__}.with_byte_order: leaves the original alone', ('C05', 'C16'))
        raise PathEnd
    return s0, order


def laid(order, F, n):
    """how n items lie in bytes: (size, encoding of values, decoding of bytes)"""
    st = structm.Struct(order + times(F, n))
    L = st.lay()
    if type(L) is not structm.AnyLayout: return st.size, lambda v: (True, b''), lambda view: ()
    return st.size, L.of.enc, lambda view: L.of.dec(view[:st.size])


def split(n):
    """cases of a number: none, one, more"""
    c = cur()
    if c.branch(mkbool(term(n) == 0), 'no items'): return 0
    if c.branch(mkbool(term(n) == 1), 'one item'): return 1
    return n


def static(which, acting):
    def unit():
        begin()
        a, m, c = mods(), structs(), cur()
        order = pick(['', '>'], 'order')
        item, F, act = item_of(order, acting)
        n = pick([0, 1, 'any'], 'length')
        if n == 'any': n = c.fresh('length', 2)
        with Folding(m):
            s0 = attempt(a.StaticStructArraySerializer, n, item)
            c.prove(not isinstance(s0, Raised), 'StaticStructArraySerializer: can be made for any length', ('C07',))
            if isinstance(s0, Raised): return
            c.prove(s0.num_values == 1, 'StaticStructArraySerializer: takes one value', ('C01', 'C07'))
            s, order = ordered(s0, order, lambda o: a.StaticStructArraySerializer(n, item.with_byte_order(o)))
            size, enc, dec = laid(order, F, n)
            havoc(s)
            nm = 'StaticStructArraySerializer'
            if which == 'pack':
                k = c.fresh('given', 0)
                if conc(n) and n == 0 and not c.branch(mkbool(term(k) > 0)): k = 0
                vals = opaque_seq('value', k)
                right = c.branch(mkbool(term(k) == term(n)), 'as many items as the length')
                ok, e = enc(vals) if right else (False, None)
                items = core.SSeq(k, vals.at, list)
                items.key = (items, 0, k)
                pack_list(nm, s, items, e, ok, tags=('C05', 'C07', 'C18'))
            else:
                def decode(view):
                    fits = mkbool(term(size) <= term(blen(view)))
                    return fits, size, lambda: (as_list(through(act, core.as_seq(dec(view)))),)
                r = contract_unpack(nm, s, decode, tags=('C05', 'C07', 'C18'))
                a_list(r, nm)
    return unit


def as_list(seq): return core.SSeq(seq.length, seq.at, list)


def a_list(r, nm):
    if r is not None and not isinstance(r, Raised): cur().prove(len(r) == 1 and isinstance(r[0], list), f'{nm}: gives a list', ('C07', 'C01'))


def dynamic(which, acting):
    def unit():
        begin()
        a, m, c = mods(), structs(), cur()
        order = pick(['', '>'], 'order')
        code = pick(list(CODES), 'code')
        w = CODES[code]
        item, F, act = item_of(order, acting)
        nm = 'DynamicStructArraySerializer'
        with Folding(m):
            count = m.StructSerializer(code, BO(order))
            s0 = a.DynamicStructArraySerializer(count, item)
            c.prove(s0.num_values == 1, f'{nm}: takes one value', ('C01', 'C07'))
            s, order = ordered(s0, order, lambda o: a.DynamicStructArraySerializer(count.with_byte_order(o), item.with_byte_order(o)))
            havoc(s)
            if which == 'pack':
                n = split(c.fresh('given', 0))
                vals = opaque_seq('value', n)
                size, enc, dec = laid(order, F, n)
                ok, e = enc(vals)
                items = core.SSeq(n, vals.at, list)
                items.key = (items, 0, n)
                held = mkbool(term(n) < 256 ** w)
                count = concat(SBytes((uint_bytes(n, w, endian(order)),)), e)
                pack_list(nm, s, items, count, And(ok, held), tags=('C05', 'C07', 'C18'))
            else:
                def decode(view):
                    if not c.branch(mkbool(term(blen(view)) >= w), 'the count can be read'): return False, None, None
                    n = split(uint_from(view, 0, w, endian(order)))
                    rest = view[w:]
                    size, enc, dec = laid(order, F, n)
                    return mkbool(term(size) <= term(blen(rest))), size + w, lambda: (as_list(through(act, core.as_seq(dec(rest)))),)
                r = contract_unpack(nm, s, decode, tags=('C05', 'C07', 'C18'))
                a_list(r, nm)
    return unit


from pyvc.core import conc
A = 'structured.serializers.arrays.'
PK, UP = ('C01', 'C02', 'C04', 'C05', 'C07', 'C16'), ('C01', 'C03', 'C04', 'C05', 'C07', 'C16', 'C17')
UNITS = [Unit(f'{k}StructArraySerializer.{w}*' + (' with an action' if act else ''), f'{A}{k}StructArraySerializer', (PK if w == 'pack' else UP) + (('C18',) if act else ()),
              f(w, act), split=2, cost=3)
         for k, f in (('Static', static), ('Dynamic', dynamic)) for w in ('pack', 'unpack') for act in (False, True)]
