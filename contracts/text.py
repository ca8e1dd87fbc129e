"""Contract of UnicodeSerializer: any byte-string serializer, any encoder and decoder
(unknown partial functions; the texts and bytes are not looked into)."""
from .lib import *
from .abstract import *
from .containers import prepared, reordered, with_order, ordered
from pyvc.core import SVal

V = core.V
ENC, DEC = z3.Function('encoded', V, V), z3.Function('decoded', V, V)
CAN_ENC, CAN_DEC = z3.Function('can_encode', V, z3.BoolSort()), z3.Function('can_decode', V, z3.BoolSort())
_fn = {}


def altered(how, t):
    if how not in _fn: _fn[how] = z3.Function(f'text_{len(_fn)}', V, V)
    return Text(_fn[how](t))


class CodecError(UnicodeError): pass


class Text:
    """a text about which nothing is known"""

    def __init__(self, t): self.t = t
    def __repr__(self): return '<text>'
    @property
    def __class__(self): return str
    def rstrip(self, chars=None): return altered(('rstrip', chars), self.t)
    def lstrip(self, chars=None): return altered(('lstrip', chars), self.t)
    def strip(self, chars=None): return altered(('strip', chars), self.t)
    def goal_eq(self, o): return type(o) is Text and mkbool(self.t == o.t)

    def __getattr__(self, n):
        if n.startswith('pyvc_') or n in ('sym', 'meant'): raise AttributeError(n)
        raise Unsupported(f'{n} of an unknown text')

    def _no(self, *a): raise Unsupported('operation on an unknown text')
    __eq__ = __ne__ = __add__ = __getitem__ = __iter__ = __len__ = __bool__ = __contains__ = __hash__ = _no


class Codec:
    def __init__(self): self.encoded = self.decoded = 0

    def encoder(self, x):
        if type(x) is not Text: raise Unsupported('encoding of something else than the text')
        self.encoded += 1
        if not cur().branch(CAN_ENC(x.t), 'the text can be encoded'): raise CodecError('encoder')
        return SVal(ENC(x.t))

    def decoder(self, x):
        if type(x) is not SVal: raise Unsupported('decoding of something else than the bytes')
        self.decoded += 1
        if not cur().branch(CAN_DEC(x.t), 'the bytes can be decoded'): raise CodecError('decoder')
        return Text(DEC(x.t))


def setup():
    import structured.serializers.strings as m
    w = World()
    w.name = 'UnicodeSerializer'
    w.po = PO('of the operation')
    # a char serializer gives a tuple, and does not look at the object
    chars = make(w, 'chars', 1, prep=(), lazy=False, needs=False)
    k = Codec()
    s0 = m.UnicodeSerializer(chars, k.encoder, k.decoder)
    cur().prove(s0.num_values == 1, 'UnicodeSerializer: takes one value', ('C01', 'C09'))
    s, order = reordered(s0, lambda o: m.UnicodeSerializer(with_order(chars, o), k.encoder, k.decoder))
    k.encoded = k.decoded = 0
    return w, chars, k, s, order


def unicode_pack():
    w, chars, k, s, order = setup()
    c = cur()
    t = Text(c.fresh_val('text').t)
    can = mkbool(CAN_ENC(t.t))
    ok, e = w.enc(ordered(chars.role, order), (SVal(ENC(t.t)),))
    p = prepared(w, s, 'prepack')
    contract_pack('UnicodeSerializer', p, (t,), e, And(can, ok), also=s, tags=('C05', 'C09'))
    c.prove(k.encoded == 1 and k.decoded == 0, 'UnicodeSerializer: the encoder is applied once, the decoder not at all when packing', ('C09',))


def unicode_unpack():
    w, chars, k, s, order = setup()
    c = cur()
    seen = []

    def decode(view):
        ok, n, (raw,) = w.dec(ordered(chars.role, order), view, 1)
        can = mkbool(CAN_DEC(raw.t))
        seen.append(And(ok, Not(can)))
        return And(ok, can), n, lambda: (altered(('rstrip', '\0'), DEC(raw.t)),)
    p = prepared(w, s, 'preunpack')
    r = contract_unpack('UnicodeSerializer', p, decode, also=s, tags=('C05', 'C09'))
    if isinstance(r, Raised): c.prove(Implies(seen[0], isinstance(r.e, CodecError)), 'UnicodeSerializer: a decoding error is raised as it is', ('C09',))
    else: c.prove(k.decoded == 1 and k.encoded == 0, 'UnicodeSerializer: the decoder is applied once, the encoder not at all when unpacking', ('C09',))


def unicode_final():
    """final exactly when its byte-string serializer is"""
    import structured.serializers.strings as m
    w = World()
    w.name = 'UnicodeSerializer'
    final = pick([True, False], 'consumes the rest')
    chars = make(w, 'chars', 1, prep=(), lazy=False, needs=False, final=final)
    s = m.UnicodeSerializer(chars, None, None)
    cur().prove(s.is_final() is final and (s.get_final() is not None) is final, 'UnicodeSerializer: is final exactly when its byte string is', ('C12',))


U = 'structured.serializers.strings.UnicodeSerializer'
UNITS = [
    Unit('UnicodeSerializer.pack*', U, ('C01', 'C02', 'C04', 'C05', 'C09', 'C16'), unicode_pack),
    Unit('UnicodeSerializer.unpack*', U, ('C01', 'C03', 'C04', 'C05', 'C09', 'C16', 'C17'), unicode_unpack),
    Unit('UnicodeSerializer.get_final', U, ('C12',), unicode_final),
]
