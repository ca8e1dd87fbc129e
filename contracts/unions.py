"""Contracts of unions.py, conditional.py, structured.py (serializers) and self.py"""
import sys
from .lib import *
from .abstract import *
from .containers import world, prepared, reordered, with_order
from pyvc.rt import SMap, Key


def decider(w, key, what, tags):
    """an arbitrary decider: a function of the object, which may raise"""
    def decide(po):
        cur().prove(po is w.po, f'{w.name}: {what} is given the object of the operation', tags)
        if not cur().branch(w.decides.t, f'{what} answers'): raise SubError(what)
        return key
    w.decides = cur().fresh_bool('decides')
    return decide


def choices(w):
    """the dictionary of choices and the serializer for a key"""
    subs = []

    def value(key):
        for k, s in subs:
            if k is key or isinstance(key, core.Sym) and isinstance(k, core.Sym) and cur().valid(value_eq(k, key)) is True: return s
        s = make(w, f'choice{len(subs)}', 1)
        subs.append((key, s))
        return s
    m = SMap('result_map', value)
    m.ordered = lambda o: m.mapped(lambda kv: (kv[0], with_order(kv[1], o)))
    return m


def expected(w, m, default, key, order):
    """role of the serializer the property asks for, or None"""
    if key in m: r = m.value(key).role
    elif default is not None: r = default.role
    else: return None
    return r if order is None else (r, order)


def lookback(which):
    def unit():
        import structured.serializers.unions as u
        w = world('LookbackDecider')
        m, key = choices(w), pick([Key('decided'), None, 0, True], 'the decision')
        default = make(w, 'default', 1) if pick([True, False], 'has a default') else None
        d = decider(w, key, 'the decider', ('C10', 'C16'))
        s0 = u.LookbackDecider(d, m, default)
        s, order = reordered(s0, lambda o: u.LookbackDecider(d, m.ordered(o), with_order(default, o)))
        s = prepared(w, s, which)
        role = expected(w, m, default, key, order)
        if which == 'prepack':
            v = (cur().fresh_val('value'),)
            ok, e = w.enc(role, v) if role else (False, None)
            contract_pack('LookbackDecider', s, v, e, And(w.decides, ok), tags=('C10', 'C05'))
        else:
            def decode(view):
                if role is None: return False, None, None
                ok, n, vals = w.dec(role, view, 1)
                return And(w.decides, ok), n, vals
            contract_unpack('LookbackDecider', s, decode, tags=('C10', 'C05'))
    return unit


def lookahead(which):
    def unit():
        import structured.serializers.unions as u
        w = world('LookaheadDecider')
        m, key = choices(w), pick([Key('decided'), None, 0, True], 'the decision')
        default = make(w, 'default', 1) if pick([True, False], 'has a default') else None
        nkeys = cur().fresh('key_values', 1)
        ahead = make(w, 'ahead', nkeys)
        d = decider(w, key, 'the write decider', ('C10', 'C16'))
        s0 = u.LookaheadDecider(ahead, d, m, default)
        s, order = reordered(s0, lambda o: u.LookaheadDecider(with_order(ahead, o), d, m.ordered(o), with_order(default, o)))
        s = prepared(w, s, which)
        if which == 'prepack':
            role = expected(w, m, default, key, order)
            v = (cur().fresh_val('value'),)
            ok, e = w.enc(role, v) if role else (False, None)
            contract_pack('LookaheadDecider', s, v, e, And(w.decides, ok), tags=('C10', 'C05'))
        else:
            def decode(view):
                okk, nk, keys = w.dec('ahead' if order is None else ('ahead', order), view, nkeys)
                if not cur().branch(okk.t, 'the key can be read'): return False, None, None
                role = expected(w, m, default, keys[0], order)
                if role is None: return False, None, None
                ok, n, vals = w.dec(role, view, 1)
                return ok, n, vals
            contract_unpack('LookaheadDecider', s, decode, tags=('C10', 'C05'))
    return unit


class Truth:
    """the result of a condition: any object, truthy or falsy"""

    def __init__(self, b): self.b = b
    def __bool__(self): return cur().branch(self.b.t, 'condition holds')


def conditional(which):
    def unit():
        import structured.serializers.conditional as cd
        w = world('ConditionalSerializer')
        n = cur().fresh('num_values', 0)
        holds = cur().fresh_bool('holds')
        sub = make(w, 'wrapped', n)
        defaults = opaque_seq('default', n)
        d = decider(w, Truth(holds), 'the condition', ('C11', 'C16'))
        s0 = cd.ConditionalSerializer(sub, d, defaults)
        cur().prove(mkbool(term(s0.num_values) == term(n)), 'ConditionalSerializer: as many values as the wrapped serializer', ('C11', 'C01'))
        s, order = reordered(s0, lambda o: cd.ConditionalSerializer(with_order(sub, o), d, defaults))
        s = prepared(w, s, which)
        role = 'wrapped' if order is None else ('wrapped', order)
        there = cur().branch(holds.t)
        if which == 'prepack':
            v = opaque_seq('value', n)
            if there: ok, e = w.enc(role, v)
            else: ok, e = True, SBytes(())
            contract_pack('ConditionalSerializer', s, v, e, And(w.decides, ok), tags=('C11', 'C05'), check_kind=True)
        else:
            def decode(view):
                if not there: return w.decides, 0, defaults
                ok, k, vals = w.dec(role, view, n)
                return And(w.decides, ok), k, vals
            contract_unpack('ConditionalSerializer', s, decode, tags=('C11', 'C05'))
    return unit


def conditional_init():
    import structured.serializers.conditional as cd
    w = world('ConditionalSerializer')
    n, d = cur().fresh('num_values', 0), cur().fresh('num_defaults', 0)
    sub = make(w, 'wrapped', n)
    r = attempt(cd.ConditionalSerializer, sub, lambda o: True, opaque_seq('default', d))
    same = mkbool(term(n) == term(d))
    if isinstance(r, Raised):
        cur().prove(Not(same), 'ConditionalSerializer: refuses only a wrong number of defaults', ('C19', 'C11'))
        cur().prove(isinstance(r.e, (ValueError, TypeError)), 'ConditionalSerializer: refuses with ValueError', ('C19',))
    else: cur().prove(same, 'ConditionalSerializer: a wrong number of defaults is refused', ('C19',))


# ---------------------------------------------------------------- nested classes
class Shadow:
    """a serializer attribute of a Structured class: only its size is looked at"""

    def __init__(self, w, name): self.w, self.name = w, name

    @property
    def size(self):
        l = self.w.last
        return l[1] if l is not None and l[0] is self else cur().fresh(f'stale_{self.name}')


def nested_class(w):
    """an arbitrary Structured class.  Its instances may have a serializer of their own
    (with_byte_order); the operations of Structured are those of structured.py"""
    class Nested:
        serializer = Shadow(w, 'class_serializer')

        def _run(self, f):
            w.last = None
            ok, e = w.enc(self.pyvc_role, (self.pyvc_value,))
            if not cur().branch(ok.t, 'the object can be packed'):
                w.disturb()
                raise SubError('nested object rejects')
            r = f(e)
            w.disturb()
            w.last = (self.serializer, blen(e))
            return r

        def pack(self): return self._run(lambda e: e)

        def pack_into(self, buffer, offset=0):
            def put(e):
                try: o = structm.place(buffer, offset, blen(e), 'pack_into')
                except real_struct.error:
                    w.disturb()
                    raise SubError('no room')
                buffer.splice(o, e)
            self._run(put)

        def pack_write(self, writable): self._run(lambda e: writable.write(e) and None)

        @classmethod
        def _make(cls, view):
            w.last = None
            ok, n, vals = w.dec('class', view, 1)
            if not cur().branch(ok.t, 'an object can be read'):
                w.disturb()
                raise SubError('nested class rejects')
            w.disturb()
            w.last = (cls.serializer, n)
            return n, vals[0]

        @classmethod
        def create_unpack(cls, buffer): return cls._make(sb(buffer, bytes))[1]

        @classmethod
        def create_unpack_from(cls, buffer, offset=0):
            L = blen(buffer)
            if cur().branch(Or(mkbool(term(offset) < 0), mkbool(term(offset) > term(L)))): raise Unsupported('odd offset')
            b = sb(buffer, bytes)
            return cls._make(SBytes(models.cutsegs(b.segs, offset, L - offset), bytes, L - offset))[1]

        @classmethod
        def create_unpack_read(cls, readable):
            L, pos = readable.content._len, readable.pos
            view = SBytes(models.cutsegs(readable.content.segs, pos, L - pos), bytes, L - pos)
            readable.pos = cur().fresh('anywhere', 0)
            n, v = cls._make(view)
            readable.pos = pos + n
            return v
    return Nested


def nested_object(w, cls):
    o = cls()
    o.pyvc_value = cur().fresh_val('object')
    o.pyvc_role = 'class'
    if pick([False, True], 'own serializer'):
        o.serializer = Shadow(w, 'own_serializer')
        o.pyvc_role = 'own'
    return o


def structured_ser(which, self_hint=False):
    name = 'SelfSerializer' if self_hint else 'StructuredSerializer'

    def unit():
        import structured.serializers.structured as st
        import structured.serializers.self as sf
        core_mod = sys.modules['structured.structured']
        w = world(name)
        cls = nested_class(w)
        if self_hint:
            w.po = cls()
            if which == 'preunpack' and pick([True, False], 'creating a new object'):
                cls.attrs = ()
                w.po = core_mod._Proxy(cls)
            s0 = sf.SelfSerializer()
        else: s0 = st.StructuredSerializer(cls)
        cur().prove(mkbool(term(s0.num_values) == 1), f'{name}: one value', ('C01',))
        s = s0
        if pick([False, True], 'after with_byte_order'):
            from structured import ByteOrder as BO
            s = s0.with_byte_order(BO(pick(ORDERS, 'order')))
        s = prepared(w, s, which)
        if which == 'prepack':
            o = nested_object(w, cls)
            ok, e = w.enc(o.pyvc_role, (o.pyvc_value,))
            contract_pack(name, s, (o,), e, ok, tags=('C05', 'C16'))
        else:
            def decode(view):
                return w.dec('class', view, 1)
            contract_unpack(name, s, decode, tags=('C05', 'C16'))
    return unit


U, CD, ST, SF = 'structured.serializers.unions.', 'structured.serializers.conditional.', 'structured.serializers.structured.', 'structured.serializers.self.'
PK, UP = ('C01', 'C02', 'C04', 'C05', 'C16'), ('C01', 'C03', 'C04', 'C05', 'C16', 'C17')
UNITS = [
    Unit('LookbackDecider.pack*', U + 'LookbackDecider', PK + ('C10',), lookback('prepack')),
    Unit('LookbackDecider.unpack*', U + 'LookbackDecider', UP + ('C10',), lookback('preunpack')),
    Unit('LookaheadDecider.pack*', U + 'LookaheadDecider', PK + ('C10',), lookahead('prepack')),
    Unit('LookaheadDecider.unpack*', U + 'LookaheadDecider', UP + ('C10',), lookahead('preunpack')),
    Unit('ConditionalSerializer.pack*', CD + 'ConditionalSerializer', PK + ('C11',), conditional('prepack')),
    Unit('ConditionalSerializer.unpack*', CD + 'ConditionalSerializer', UP + ('C11',), conditional('preunpack')),
    Unit('ConditionalSerializer.__init__', CD + 'ConditionalSerializer', ('C11', 'C19'), conditional_init),
    Unit('StructuredSerializer.pack*', ST + 'StructuredSerializer', PK, structured_ser('prepack')),
    Unit('StructuredSerializer.unpack*', ST + 'StructuredSerializer', UP, structured_ser('preunpack')),
    Unit('SelfSerializer.pack*', SF + 'SelfSerializer', PK, structured_ser('prepack', True)),
    Unit('SelfSerializer.unpack*', SF + 'SelfSerializer', UP, structured_ser('preunpack', True)),
]
