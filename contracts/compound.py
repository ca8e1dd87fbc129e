"""Contracts of CompoundSerializer and its specialized form (api.py): any number of
sub-serializers, each with any number of values and any encoding."""
from .lib import *
from .abstract import *
from .containers import prepared, reordered, with_order


class PWorld(World):
    """World of m parts whose encodings lie one after another in E.  The prefix functions
    OFF (bytes before part k) and OKP (all parts before k have an encoding) are given by
    their recursion only; the facts are instantiated at the indices the proof looks at.
    Bounds like OFF(k+1) <= OFF(m) for k < m follow from the recursion by induction."""

    def __init__(self, name, which, m):
        super().__init__()
        c = cur()
        self.name, self.which, self.po = name, which, PO('of the operation')
        self.m = m
        self.order = self.tmpl = self.view = None
        self.done = []
        I, B = z3.IntSort(), z3.BoolSort()
        f = self.fn = lambda n: (lambda g: lambda k: mkint(g(term(k))))(c.fresh_fn(n, I, I))
        p = lambda n: (lambda g: lambda k: SBool(g(term(k))))(c.fresh_fn(n, I, B))
        self.pred = p
        self.OFF, self.OK, self.OKP = f('offset'), p('part_ok'), p('prefix_ok')
        self.sums = [self.OFF] + self.more_sums()
        self.facts(0)
        self.facts(self.m)
        c.ghost_index.append(self.facts)
        c.ghost_ints.append(('offset', self.OFF))
        c.loop_preds.append(('everything so far has an encoding', lambda i: self.OKP(i)))
        n = self.OFF(self.m)
        self.E = Base('encoding', n)
        self.enc_all = SBytes((models.Ref(self.E, 0, n),), bytes, n)
        c.ghost_bytes.append(('encodings', lambda lo, hi: SBytes((self.piece(lo, hi),))))
        c.ghost_bufs.append(('encodings over the old content', self.over))

    def more_sums(self): return []
    def piece(self, lo, hi): return models.Ref(self.E, self.OFF(lo), self.OFF(hi) - self.OFF(lo))

    def facts(self, k):
        c = cur()
        for j in self.done:
            if j is k or conc(j) and conc(k) and j == k: return
        self.done.append(k)
        OK, OKP, m = self.OK, self.OKP, self.m
        if conc(k) and k == 0:
            for f in self.sums: c.assume(mkbool(term(f(0)) == 0))
            c.assume(OKP(0))
        if self.tmpl is None:
            x, mm = z3.Int('index'), term(m)
            F = lambda g: g(SInt(x)).t
            G = lambda g: g(SInt(x) + 1).t
            M = lambda g: term(g(m)) if g not in (OK, OKP) else g(m).t
            inside = z3.And(x >= 0, x < mm)
            self.tmpl = x, z3.And(
                z3.Implies(x >= 0, z3.And(*[F(s) >= 0 for s in self.sums])),
                z3.Implies(inside, z3.And(G(OKP) == z3.And(F(OKP), F(OK)), *[z3.And(F(s) <= G(s), G(s) <= M(s)) for s in self.sums])),
                z3.Implies(z3.And(inside, M(OKP)), z3.And(F(OKP), F(OK))))
        x, t = self.tmpl
        c.solver.add(z3.substitute(t, (x, term(k))))

    # -- writing over old content, `at` bytes into it
    def mark(self, content, at):
        self.old, self.at_ = content, at
        cur().loop_preds.append(('everything so far lies inside', lambda i: Or(mkbool(term(i) <= 0), mkbool(term(at + self.OFF(i)) <= term(blen(content))))))

    def over(self, lo, hi, v0):
        """the old content with the encodings lo..hi written over it"""
        if getattr(self, 'at_', None) is None or type(v0) is not SBytes: raise Unsupported('no mark')
        at, L = self.at_, self.old._len
        if cur().valid(mkbool(term(at) <= term(L))) is not True: at = ite(mkbool(term(at) > term(L)), L, at)
        end = at + self.OFF(hi)
        left = models.cutsegs(self.old.segs, 0, at)
        o = self.old.segs[0]
        past = mkbool(term(end) > term(L))
        tail = ite(past, 0, L - end)
        segs = left + (models.Ref(self.E, 0, self.OFF(hi)), models.Ref(o.base, o.start + end, tail))
        return SBytes(models.norm(segs), v0.kind, ite(past, end, L))

    # -- reading
    def look_at(self, view, skip=0):
        """what there is to decode, after the first `skip` bytes"""
        segs = view.segs
        if len(segs) > 1 or segs and type(segs[0]) is not models.Ref: raise Unsupported('decoding of composed bytes')
        self.view = (segs[0].base, segs[0].start + skip, segs[0].start + segs[0].length) if segs else (None, skip, 0)
        c = cur()
        room = self.view[2] - self.view[1]

        def fits(k):
            c.assume(Implies(And(mkbool(term(k) >= 0), mkbool(term(k) <= term(self.m)), self.OKP(k)), mkbool(term(self.OFF(k)) <= term(room))))
        for k in self.done: fits(k)
        c.ghost_index.append(fits)

    def at_part(self, view, k):
        """whether these bytes start where part k does"""
        key, start, end = suffix(view), self.view[1] + self.OFF(k), self.view[2]
        c = cur()
        if key is None: return c.valid(mkbool(term(start) == term(end))) is True
        return same_place(key, (self.view[0], start, end))

    def part(self, k):
        """(accepted, length) of part k"""
        n = self.OFF(k + 1) - self.OFF(k)
        cur().assume(Implies(self.OK(k), mkbool(term(self.view[1] + self.OFF(k) + n) <= term(self.view[2]))))
        return self.OK(k), n


class CWorld(PWorld):
    """the parts are what different serializers make of consecutive values: serializer k
    has PS(k)..PS(k+1) of the values"""

    def __init__(self, which):
        c = cur()
        super().__init__('CompoundSerializer', which, c.fresh('count', 1))
        self.subs, self.hooks = [], []
        self.needs = self.pred('needs_preparation')
        c.ghost_ints.append(('values before', self.PS))
        self.total = self.PS(self.m)
        self.values = opaque_seq('value', self.total)
        c.ghost_seqs.append(('values', lambda lo, hi: self.values.sub(self.PS(lo), self.PS(hi))))

    def more_sums(self):
        self.PS = self.fn('values_before')
        return [self.PS]

    def NV(self, k): return self.PS(k + 1) - self.PS(k)

    # -- the serializers
    def serializers(self, order=None):
        s = core.SSeq(self.m, self.at, tuple)
        s.root, s.hooks = s, self.hooks
        if order is not None:
            s = core.SSeq(self.m, lambda k: with_order(self.at(k), order), tuple)
            s.root = s
            s.hooks = self.hooks
        return s

    def at(self, k):
        for j, s in self.subs:
            if j is k or conc(j) and conc(k) and j == k or not conc(j) and not conc(k) and j.t.eq(k.t): return s
        self.facts(k)
        s = make(self, ('sub', k), self.NV(k), ('prepack' if self.which == 'pack' else 'preunpack',), self.needs(k))
        self.subs.append((k, s))
        for h in list(self.hooks): h(k)
        return s

    def index(self, role):
        """k when role is the one sub-serializer k has to have"""
        if self.order is not None:
            role, o = base_order(role)
            if o != self.order: return None
        return role[1] if type(role) is tuple and role[0] == 'sub' else None

    def enc(self, role, values):
        k = self.index(role)
        if k is not None and same_values(values, self.values.sub(self.PS(k), self.PS(k + 1))):
            n = self.OFF(k + 1) - self.OFF(k)
            return self.OK(k), SBytes((models.Ref(self.E, self.OFF(k), n),), bytes, n)
        return super().enc(role, values)

    def dec(self, role, view, nvalues):
        k = self.index(role)
        if k is not None and self.view is not None and self.at_part(view, k):
            return (*self.part(k), self.values.sub(self.PS(k), self.PS(k + 1)))
        return super().dec(role, view, nvalues)


def compound(w):
    import structured.serializers.api as m
    s = m.CompoundSerializer(w.serializers())
    c = cur()
    c.prove(isint(s.num_values) and mkbool(term(s.num_values) == term(w.total)), 'CompoundSerializer: takes the values of all its serializers', ('C01', 'C06', 'C16'))
    s, w.order = reordered(s, lambda o: m.CompoundSerializer(w.serializers(o)))
    return s


def comp_pack():
    w = CWorld('pack')
    s = compound(w)
    p = prepared(w, s, 'prepack')
    contract_pack('CompoundSerializer', p, w.values, w.enc_all, w.OKP(w.m), also=s, tags=('C05',), mark=w.mark)


def comp_unpack():
    w = CWorld('unpack')
    s = compound(w)
    p = prepared(w, s, 'preunpack')

    def on_prep(sub):
        k = w.index(sub.role)
        sink = cur().sink
        cur().prove(k is not None and sink is not None and mkbool(term(sink.n) == term(w.PS(k))),
                    'CompoundSerializer.unpack*: a serializer that looks at the object is prepared when the values before it have been taken', ('C10', 'C11', 'C16', 'C01'))
    w.on_prep = on_prep

    def decode(view):
        w.look_at(view)
        return w.OKP(w.m), w.OFF(w.m), lambda: w.values
    contract_unpack('CompoundSerializer', p, decode, also=s, tags=('C05',))


C = 'structured.serializers.api.CompoundSerializer'
UNITS = [
    Unit('CompoundSerializer.pack*', C, ('C01', 'C02', 'C04', 'C05', 'C06', 'C10', 'C11', 'C16'), comp_pack, cost=5),
    Unit('CompoundSerializer.unpack*', C, ('C01', 'C03', 'C04', 'C05', 'C06', 'C10', 'C11', 'C16', 'C17'), comp_unpack, cost=5),
]
