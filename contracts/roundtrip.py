"""Round trip of the leaves, on the real code: what `pack` gives, wherever it lies and
whatever follows it, unpacks to the value it was made of.  (That the other ways of packing
and unpacking do the same is what the contracts of `pack*` and `unpack*` say; that of
containers follows from that of their parts, which lie at the same places in both.)"""
from .lib import *
from .strings import dynamic, mods, terminator, CODES


def image(enc, last):
    """(bytes, offset): unknown bytes with enc at an unknown offset, and unknown bytes
    after it unless it has to be last"""
    c = cur()
    pre = c.fresh('offset', 0)
    post = 0 if last else c.fresh('more', 0)
    n = blen(enc)
    total = c.fresh('len_data', 0)
    c.assume(mkbool(term(total) == term(pre) + term(n) + term(post)))
    b = Base('data', total)
    at = pre
    for g in enc.segs:
        if type(g) is models.Terms and g.num and g.num[0][0] == 'u':
            # the digits of a number in base 256 add up to it
            ds = [b.byte(at + k) for k in range(g.length)]
            if g.num[1] == '>': ds.reverse()
            c.assume(mkbool(z3.Sum([d * 256 ** k for k, d in enumerate(ds)]) == term(g.num[2])))
        elif type(g) is models.Terms:
            for k, t in enumerate(g.terms): c.assume(mkbool(b.byte(at + k) == t))
        else: b.add_fact(lambda i, at=at, g=g: Implies(And(mkbool(term(i) >= term(at)), mkbool(term(i) < term(at) + term(g.length))), mkbool(b.fn(term(i)) == g.byte(i - at))))
        at = at + g.length
    for k in range(3): look(b, pre + k)
    return SBytes((models.Ref(b, 0, total),), bytes, total), pre, b


def look(b, i): b.byte(i)


def trip(nm, s, v, last=False, hint=None):
    c = cur()
    r = attempt(s.pack, v)
    if isinstance(r, Raised): return
    enc = sb(r, bytes)
    c.cover(f'{nm} packs')
    size = attempt(getattr, s, 'size')
    data, off, b = image(enc, last)
    if hint: hint(b, off)
    havoc(s)
    c.consumed = lambda: 0
    how = pick(['unpack_from', 'unpack_read'], 'unpacked by')
    if how == 'unpack_from': got = attempt(lambda: seq_of(s.unpack_from(data, off)))
    else:
        st = SStream(data, off)
        c.consumed = lambda: st.pos - off
        c.ghost_views.append(('view', data[off:]))
        c.loop_preds.append(('the stream position stays inside', lambda i: And(mkbool(term(st.pos) >= term(off)), mkbool(term(st.pos) <= term(blen(data))))))
        got = attempt(lambda: seq_of(s.unpack_read(st)))
    if isinstance(got, Raised):
        c.prove(False, f'{nm}: what was packed can be unpacked', ('C01',))
        return
    c.cover(f'{nm} unpacks')
    c.prove(value_eq(got, (v,)), f'{nm}: gives the value that was packed', ('C01',))
    c.prove(isint(size) and mkbool(term(s.size) == term(size)), f'{nm}: consumes as many bytes as were produced', ('C01', 'C04'))


def dyn():
    order, code = pick(ORDERS, 'order'), pick(list(CODES), 'code')
    trip('DynamicCharSerializer round trip', dynamic(order, code), unknown_bytes('value'),
         hint=lambda b, off: [look(b, off + k) for k in range(8)])


def cons():
    trip('ConsumingCharSerializer round trip', mods()[0].ConsumingCharSerializer(), unknown_bytes('value'), last=True)


def net():
    trip('NETCharSerializer round trip', mods()[0].NETCharSerializer(), unknown_bytes('value'))


def termd():
    c = cur()
    tb, tt = terminator()
    v = unknown_bytes('value')
    base = v.segs[0].base
    base.add_fact(lambda i: Implies(And(mkbool(term(i) >= 0), mkbool(term(i) < term(blen(v)))), mkbool(base.fn(term(i)) != tt.t)))
    look(base, blen(v) - 1)
    n = blen(v)

    def hint(b, off):
        look(b, off + n)
        # what a loop over the stream may rely on: it has not passed the terminator
        c.loop_preds.append(('terminator not passed', lambda i: mkbool(term(c.consumed()) <= term(n))))
        c.loop_preds.append(('not more iterations than bytes', lambda i: mkbool(term(i) <= term(n))))
    trip('TerminatedCharSerializer round trip', mods()[0].TerminatedCharSerializer(tb), v, hint=hint)


S = 'structured.serializers.strings.'
UNITS = [
    Unit('DynamicCharSerializer round trip', S + 'DynamicCharSerializer', ('C01', 'C04'), dyn, split=6, cost=3),
    Unit('ConsumingCharSerializer round trip', S + 'ConsumingCharSerializer', ('C01', 'C04'), cons),
    Unit('NETCharSerializer round trip', S + 'NETCharSerializer', ('C01', 'C04'), net),
    Unit('TerminatedCharSerializer round trip', S + 'TerminatedCharSerializer', ('C01', 'C04'), termd),
]
