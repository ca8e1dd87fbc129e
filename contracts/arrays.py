"""Contracts of arrays.py"""
from .lib import *
from .abstract import *
from .containers import prepared, reordered, with_order
from .compound import PWorld


class AWorld(PWorld):
    """the parts are the encodings of the items by one serializer"""

    def __init__(self, which, m):
        super().__init__('ArraySerializer', which, m)
        c = cur()
        self.f = c.fresh_fn('item', z3.IntSort(), core.V)
        self.items = core.SSeq(m, lambda k: SVal(self.f(term(k))), list)
        self.items.key = (self.items, 0, m)
        self.pieces = core.SSeq(m, lambda k: SBytes((self.piece(k, k + 1),)), tuple)
        self.pieces.key = (self.pieces, 0, m)
        self.pieces.joiner = lambda lo, hi: SBytes((self.piece(lo, hi),))
        c.ghost_seqs.append(('items', lambda lo, hi: self.items.sub(lo, hi)))
        c.ghost_seqs.append(('encoded items', lambda lo, hi: self.pieces.sub(lo, hi)))

    def plain(self, role):
        if self.order is not None:
            role, o = base_order(role)
            if o != self.order: return None
        return role

    def enc(self, role, values):
        if self.plain(role) == 'item':
            v = rt.unstar(values)[0]
            if type(v) is SVal and v.t.decl().eq(self.f):
                k = mkint(v.t.arg(0))
                self.facts(k)
                return self.OK(k), SBytes((self.piece(k, k + 1),))
        return super().enc(role, values)

    def dec(self, role, view, nvalues):
        if self.plain(role) == 'item' and self.view is not None:
            for k in reversed(self.done):      # (parts of no length: any of them is the same)
                if self.at_part(view, k): return (*self.part(k), (self.items.at(k),))
        return super().dec(role, view, nvalues)


def header_class(w, kinds):
    """a header: one or two unsigned numbers in a fixed number of bytes"""
    from structured.serializers import Serializer
    base = abstract_class(Serializer)

    class Header(base):
        # a struct: no operation of anything else runs within
        @property
        def size(self): return w.hsize
        def _done(self, n): self.world.last = None
        def _fail(self, note): raise SubError(note)
    return Header


class HWorld(AWorld):
    """and a header before the items"""

    def __init__(self, which, m, static, sized):
        super().__init__(which, m)
        c = cur()
        self.static, self.sized = static, sized
        self.nheader = (0 if static else 1) + (1 if sized else 0)
        self.hsize = c.fresh('header_size', 1) if self.nheader else 0
        self.data_size = c.fresh('data_size', 0)
        self.hok = c.fresh_bool('header_ok')
        self.header_dec = None
        self.hbase = Base('header', self.hsize)

    def header(self):
        import structured.serializers.api as m
        if not self.nheader: return m.NullSerializer()
        return header_class(self, 0)(self, 'header', self.nheader, ('prepack', 'preunpack'), False, True, False)

    def numbers(self):
        return (() if self.static else (self.m,)) + ((self.data_size,) if self.sized else ())

    def enc(self, role, values):
        if self.plain(role) == 'header' and same_values(values, self.want):
            return self.hok, SBytes((models.Ref(self.hbase, 0, self.hsize),), bytes, self.hsize)
        ok, e = super().enc(role, values)
        if self.plain(role) == 'header': cur().assume(mkbool(term(blen(e)) == term(self.hsize)))
        return ok, e

    def dec(self, role, view, nvalues):
        if self.plain(role) == 'header':
            if self.header_dec is not None and same_place(suffix(view), self.header_dec): return self.hok, self.hsize, self.numbers()
            ok, n, v = super().dec(role, view, nvalues)
            cur().assume(mkbool(term(n) == term(self.hsize)))
            return ok, n, tuple(cur().fresh('odd_number', 0) for _ in range(nvalues))
        return super().dec(role, view, nvalues)


def array(which):
    def unit():
        import structured.serializers.arrays as a
        c = cur()
        static = pick([True, False], 'static length')
        sized = pick([True, False], 'stores a data size')
        m = c.fresh('count', 0)
        w = HWorld(which, m, static, sized)
        length = -1
        if static: length = c.fresh('static_length', 0) if which == 'pack' else m
        item, head = make(w, 'item', 1), w.header()
        s0 = a.ArraySerializer(head, item, length)
        c.prove(s0.num_values == 1, 'ArraySerializer: takes one value', ('C01', 'C07'))
        s, w.order = reordered(s0, lambda o: a.ArraySerializer(with_order(head, o), with_order(item, o), length))
        p = prepared(w, s, 'prepack' if which == 'pack' else 'preunpack')
        if which == 'pack':
            w.data_size = w.OFF(m)
            w.want = w.numbers()
            enc = concat(SBytes((models.Ref(w.hbase, 0, w.hsize),), bytes, w.hsize), w.enc_all)
            ok = And(w.OKP(m), w.hok if w.nheader else True, mkbool(term(length) == term(m)) if static else True)
            pack_list('ArraySerializer', p, w.items, enc, ok, also=s, tags=('C05', 'C07'), mark=lambda content, at: w.mark(content, at + w.hsize))
        else:
            def decode(view):
                k = suffix(view)
                w.header_dec = k
                if w.nheader:
                    if not c.branch(And(w.hok, mkbool(term(w.hsize) <= term(blen(view)))).t, 'the header can be read'):
                        w.hok = False
                        return False, None, None
                    c.assume(w.hok)
                w.look_at(view, w.hsize)
                right = mkbool(term(w.data_size) == term(w.OFF(m))) if sized else True
                w.decodable = w.OKP(m)
                return And(w.OKP(m), right), w.hsize + w.OFF(m), lambda: (w.items,)
            r = contract_unpack('ArraySerializer', p, decode, also=s, tags=('C05', 'C07'))
            if isinstance(r, Raised) and sized and getattr(w, 'decodable', None) is not None:
                c.prove(Implies(w.decodable, isinstance(r.e, ValueError) and not isinstance(r.e, SubError)), 'ArraySerializer: a wrong data size gives ValueError', ('C07',))
            elif r is not None and not isinstance(r, Raised):
                c.prove(len(r) == 1 and isinstance(r[0], list), 'ArraySerializer: gives a list', ('C07', 'C01'))
    return unit


A = 'structured.serializers.arrays.'
UNITS = [
    Unit('ArraySerializer.pack*', A + 'ArraySerializer', ('C01', 'C02', 'C04', 'C05', 'C07', 'C10', 'C11', 'C16'), array('pack'), split=2, cost=3),
    Unit('ArraySerializer.unpack*', A + 'ArraySerializer', ('C01', 'C03', 'C04', 'C05', 'C07', 'C10', 'C11', 'C16', 'C17'), array('unpack'), split=2, cost=3),
]
