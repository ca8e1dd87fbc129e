"""Contracts of structured/serializers/strings.py"""
from .lib import *
from pyvc.engine import package

CODES = {'B': 1, 'H': 2, 'I': 4, 'Q': 8}


def mods():
    import structured.serializers.strings as m
    import structured.serializers.structs as t
    from structured import ByteOrder
    return m, t, ByteOrder


def dynamic(order, code):
    m, t, BO = mods()
    st = t.StructSerializer(code)
    s = m.DynamicCharSerializer(st)
    if order: s = s.with_byte_order(BO(order))
    return havoc(s)


def dyn_enc(v, order, w):
    n = blen(v)
    ok = mkbool(term(n) < 256 ** w)
    return ok, lambda: concat(SBytes((uint_bytes(n, w, endian(order)),)), v)


def pack_held(name, s, v, enc, ok):
    """the byte string may be held in a buffer of the caller, which stays as it is"""
    if pick(('bytes', 'bytearray'), 'value kind') == 'bytes': return contract_pack(name, s, (v,), enc, ok, tags=('C08', 'C05'))
    held = models.SBuf(v)
    contract_pack(name, s, (held,), enc, ok, tags=('C08', 'C05'))
    cur().prove(value_eq(held.content, v), f'{name}: packing leaves the packed value alone', ('C16', 'C01', 'C08'))


def dyn_pack():
    order, code = pick(ORDERS, 'order'), pick(list(CODES), 'code')
    s = dynamic(order, code)
    v = unknown_bytes('value')
    w = CODES[code]
    ok, enc = dyn_enc(v, order, w)
    pack_held('DynamicCharSerializer', s, v, enc(), ok)


def dyn_decode(order, w):
    def decode(view):
        c = cur()
        L = blen(view)
        if not c.branch(mkbool(term(L) >= w)): return False, None, None
        n = uint_from(view, 0, w, endian(order))
        return mkbool(term(L) >= w + term(n)), n + w, lambda: (view[w:w + n],)
    return decode


def dyn_unpack():
    order, code = pick(ORDERS, 'order'), pick(list(CODES), 'code')
    s = dynamic(order, code)
    contract_unpack('DynamicCharSerializer', s, dyn_decode(order, CODES[code]), tags=('C08', 'C05'))


def cons_pack():
    m, t, BO = mods()
    s = havoc(m.ConsumingCharSerializer())
    v = unknown_bytes('value')
    pack_held('ConsumingCharSerializer', s, v, v, True)


def cons_unpack():
    m, t, BO = mods()
    s = havoc(m.ConsumingCharSerializer())
    contract_unpack('ConsumingCharSerializer', s, lambda view: (True, blen(view), (view,)), tags=('C08',))


def terminator():
    c = cur()
    t = c.fresh('terminator', 0, 255)
    return SBytes((models.Terms([t.t]),)), t


def term_pack():
    m, t, BO = mods()
    tb, tt = terminator()
    s = havoc(m.TerminatedCharSerializer(tb))
    v = unknown_bytes('value')
    c = cur()
    n = blen(v)
    ends = c.branch(mkbool(term(n) > 0)) and c.branch(mkbool(v.byte(n - 1) == tt.t))
    enc = v if ends else concat(v, tb)
    pack_held('TerminatedCharSerializer', s, v, enc, True)


def term_unpack():
    m, t, BO = mods()
    tb, tt = terminator()
    s = havoc(m.TerminatedCharSerializer(tb))
    c = cur()

    def decode(view):
        p = models.find_first(view, tt)
        if isinstance(p, int) and p < 0: return False, None, None
        c.loop_preds.append(('not more iterations than bytes', lambda i: mkbool(term(i) <= term(p))))
        c.loop_preds.append(('terminator not passed', lambda i: mkbool(term(c.consumed()) <= term(p))))
        return True, p + 1, (view[:p],)
    contract_unpack('TerminatedCharSerializer', s, decode, tags=('C08',))


def net_pack():
    m, t, BO = mods()
    s = havoc(m.NETCharSerializer())
    v = unknown_bytes('value')
    c = cur()
    n = blen(v)
    ok = mkbool(term(n) <= 0x7FFF)
    if c.branch(mkbool(term(n) < 128)): enc = concat(SBytes((uint_bytes(n, 1, '<'),)), v)
    elif c.branch(ok):
        # two bytes, low seven bits first with the top bit set, in native order
        enc = concat(SBytes((uint_bytes(n % 128 + 128 + n // 128 * 256, 2, NATIVE),)), v)
    else: enc = None
    pack_held('NETCharSerializer', s, v, enc, ok)


def net_unpack():
    m, t, BO = mods()
    s = havoc(m.NETCharSerializer())
    c = cur()

    def decode(view):
        L = blen(view)
        if not c.branch(mkbool(term(L) >= 1)): return False, None, None
        b0 = mkint(view.byte(0))
        if c.branch(b0 < 128): w, n = 1, b0
        else:
            if not c.branch(mkbool(term(L) >= 2)): return False, None, None
            b1 = mkint(view.byte(1))
            if NATIVE == '<': w, n = 2, b0 % 128 + b1 * 128
            else: raise Unsupported('big-endian host')
            # the code refuses nothing here: 0x7FFF is the largest number of 15 bits
        return mkbool(term(L) >= w + term(n)), n + w, lambda: (view[w:w + n],)
    contract_unpack('NETCharSerializer', s, decode, tags=('C08',))


UNITS = [
    Unit('DynamicCharSerializer.pack*', 'structured.serializers.strings.DynamicCharSerializer', ('C01', 'C02', 'C04', 'C05', 'C08', 'C16'), dyn_pack, split=6, cost=5),
    Unit('DynamicCharSerializer.unpack*', 'structured.serializers.strings.DynamicCharSerializer', ('C01', 'C03', 'C04', 'C05', 'C08', 'C16', 'C17'), dyn_unpack, split=6, cost=8),
    Unit('ConsumingCharSerializer.pack*', 'structured.serializers.strings.ConsumingCharSerializer', ('C01', 'C02', 'C04', 'C08', 'C16'), cons_pack),
    Unit('ConsumingCharSerializer.unpack*', 'structured.serializers.strings.ConsumingCharSerializer', ('C01', 'C03', 'C04', 'C08', 'C16'), cons_unpack),
    Unit('TerminatedCharSerializer.pack*', 'structured.serializers.strings.TerminatedCharSerializer', ('C01', 'C02', 'C04', 'C08', 'C16'), term_pack),
    Unit('TerminatedCharSerializer.unpack*', 'structured.serializers.strings.TerminatedCharSerializer', ('C01', 'C03', 'C04', 'C08', 'C16', 'C17'), term_unpack),
    Unit('NETCharSerializer.pack*', 'structured.serializers.strings.NETCharSerializer', ('C01', 'C02', 'C04', 'C08', 'C16'), net_pack),
    Unit('NETCharSerializer.unpack*', 'structured.serializers.strings.NETCharSerializer', ('C01', 'C03', 'C04', 'C08', 'C16', 'C17'), net_unpack),
]
