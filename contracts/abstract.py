"""The contract of an arbitrary serializer, for the serializers that contain others.

An abstract serializer is a pure function between values and bytes: `enc` gives the
encoding of given values (or none), `dec` the values and length of what is encoded at a
position of given bytes (or nothing).  Whatever order, variant or state the container
uses it with, the results are the same.  What it does promise and no more:
  * it has to be used through the object `prepack`/`preunpack` returned for the object
    of the current operation, before any other operation runs,
  * `size` is right just after an operation (after its values were taken, if they come
    lazily), and an arbitrary number at any other time,
  * an operation may run other operations of every serializer around it (recursive
    types), which changes whatever those store,
  * it consumes no more bytes than there are and leaves a stream after them; when it
    fails the stream is anywhere.
"""
import struct as real_struct
from .lib import *
from pyvc import rt
from pyvc.core import conc


class SubError(ValueError, TypeError, IndexError, KeyError, real_struct.error, EOFError, ArithmeticError):
    pass


class PO:
    """an object being packed or unpacked"""

    def __init__(self, name): self.__dict__['name'] = name
    def __repr__(self): return f'<object {self.__dict__["name"]}>'


class World:
    """all encodings and decodings of one path, by serializer and argument"""

    def __init__(self):
        self.encs, self.decs, self.shared, self.po = [], [], [], None
        self.ops = self.disturbed = 0
        self.on_prep = None       # what must hold when a sub-serializer is prepared
        self.last = None          # (abstract serializer, size) of the last finished operation

    def share(self, obj):
        """operations of sub-serializers may run operations of this object"""
        self.shared.append(obj)
        return obj

    def disturb(self):
        """another operation on the shared objects has run"""
        c = cur()
        self.disturbed += 1
        for o in self.shared:
            for a in mutable_attrs(type(o)):
                if a in vars(o):
                    v = vars(o)[a]
                    if isint(v): vars(o)[a] = rt.forget(a, v, True)
                    elif isinstance(v, PO): vars(o)[a] = PO('of another operation')
                    else: vars(o)[a] = rt.Poison(f'{a} after another operation')

    # -- encodings
    def enc(self, role, values):
        """(condition that there is one, encoding)"""
        c = cur()
        for r, v, res in self.encs:
            if same_role(r, role) and same_values(v, values): return res
        res = self.new_enc(role)
        self.encs.append((role, values, res))
        return res

    def new_enc(self, role):
        c = cur()
        ok = c.fresh_bool(f'encodable_{tag(role)}')
        n = c.fresh(f'len_enc_{tag(role)}', 0)
        b = Base(f'enc_{tag(role)}', n)
        return ok, SBytes((models.Ref(b, 0, n),), bytes, n)

    # -- decodings
    def dec(self, role, view, nvalues):
        """(condition that there is one, its length, values)"""
        c = cur()
        key = suffix(view)
        for r, k, res in self.decs:
            if same_role(r, role) and same_place(k, key): return res
        res = self.new_dec(role, view, nvalues)
        self.decs.append((role, key, res))
        return res

    def new_dec(self, role, view, nvalues):
        c = cur()
        ok = c.fresh_bool(f'decodable_{tag(role)}')
        n = c.fresh(f'len_dec_{tag(role)}', 0)
        c.assume(Implies(ok, n <= blen(view)))
        if conc(nvalues): vals = tuple(c.fresh_val(f'read_{tag(role)}') for _ in range(nvalues))
        else: vals = opaque_seq(f'read_{tag(role)}', nvalues)
        return ok, n, vals


def same_role(a, b):
    if a is b: return True
    if type(a) is not type(b): return isint(a) and isint(b) and cur().valid(mkbool(term(a) == term(b))) is True
    if isinstance(a, tuple): return len(a) == len(b) and all(same_role(x, y) for x, y in zip(a, b))
    if isint(a): return cur().valid(mkbool(term(a) == term(b))) is True
    return a == b


def base_order(role):
    """(role without its byte order, byte order or None)"""
    if isinstance(role, tuple) and len(role) == 2 and type(role[1]) is str: return role
    return role, None


def tag(role): return role if isinstance(role, str) else '_'.join(str(x) if conc(x) or isinstance(x, str) else tag(x) if isinstance(x, tuple) else 'k' for x in role)


def opaque_seq(name, n):
    f = cur().fresh_fn(name, z3.IntSort(), core.V)
    s = core.SSeq(n, lambda k: SVal(f(term(k))), tuple)
    s.key = (s, 0, n)
    return s


def same_values(a, b):
    if a is b: return True
    la = a.length if type(a) is core.SSeq else len(a)
    lb = b.length if type(b) is core.SSeq else len(b)
    if conc(la) and conc(lb) and la != lb: return False
    return cur().valid(value_eq(a, b)) is True


def suffix(view):
    segs = [s for s in view.segs if not (conc(s.length) and s.length == 0)]
    if not segs: return None
    if len(segs) == 1 and type(segs[0]) is models.Ref: return (segs[0].base, segs[0].start, segs[0].start + segs[0].length)
    raise Unsupported('decoding of composed bytes')


def same_place(a, b):
    c = cur()
    if a is None and b is None: return True
    if a is None or b is None:
        k = a or b
        return c.valid(mkbool(term(k[1]) >= term(k[2]))) is True
    return a[0] is b[0] and c.valid(And(mkbool(term(a[1]) == term(b[1])), mkbool(term(a[2]) == term(b[2])))) is True


def make(world, role, num_values, prep=('prepack', 'preunpack'), needs=True, lazy=True, final=False):
    """an abstract serializer of the loaded package.  needs: condition that its class
    overrides the methods `prep`"""
    from structured.serializers import Serializer
    return abstract_class(Serializer)(world, role, num_values, prep, needs, lazy, final)


_cls, _types = {}, {}


def overriding(Serializer, prep):
    """the class of a serializer that overrides these methods"""
    key = Serializer, prep
    if key not in _types: _types[key] = type('AbsSer', (Serializer,), {m: (lambda self, po: None) for m in prep})
    return _types[key]


def abstract_class(Serializer):
    if Serializer in _cls: return _cls[Serializer]

    class AbsSer(Serializer):
        def __init__(self, world, role, num_values, prep, needs, lazy, final, po=None, origin=None):
            self.__dict__.update(world=world, role=role, num_values=num_values, prep=prep, needs=needs, lazy=lazy, final=final, po=po, origin=origin or self, orders={})

        def _needs(self):
            """decided when something depends on it"""
            if type(self.needs) is SBool: self.__dict__['needs'] = cur().branch(self.needs.t, f'{tag(self.role)} looks at the object')
            return self.needs

        def pyvc_type(self): return overriding(Serializer, self.prep if self._needs() else ())

        def prepack(self, po): return self._prep(po, 'prepack')
        def preunpack(self, po): return self._prep(po, 'preunpack')

        def _prep(self, po, how):
            if how not in self.prep or not self._needs(): return self
            if self.world.on_prep is not None: self.world.on_prep(self)
            return type(self)(self.world, self.role, self.num_values, self.prep, self.needs, self.lazy, self.final, (po, self.world.disturbed), self.origin)

        def __setattr__(self, n, v): raise Unsupported(f'assignment to {n} of another serializer')
        def __repr__(self): return f'<{tag(self.role)}>'
        __str__ = __repr__

        @property
        def size(self):
            w = self.world
            if w.last is not None and (w.last[0] is self.origin or getattr(w.last[0], 'role', None) == self.role or type(getattr(w.last[0], 'role', None)) is tuple and same_role(w.last[0].role, self.role)): return w.last[1]
            return cur().fresh(f'stale_size_{tag(self.role)}')

        def with_byte_order(self, bo):
            role = (base_order(self.role)[0], str(bo.value))
            if role[1] not in self.orders: self.orders[role[1]] = type(self)(self.world, role, self.num_values, self.prep, self.needs, self.lazy, self.final)
            return self.orders[role[1]]

        def get_final(self):
            f = self.final
            if type(f) is SBool: f = cur().branch(f.t, f'{tag(self.role)} is final')
            if not f: return None
            # what makes it final may be anything inside of it
            if self.role == 'what is final': return self
            if 'inner' not in self.__dict__: self.__dict__['inner'] = type(self)(self.world, 'what is final', self.num_values, final=True, prep=(), needs=False, lazy=self.lazy)
            return self.inner

        def _begin(self, what):
            c, w = cur(), self.world
            w.ops += 1
            if ('preunpack' if what.startswith('unpack') else 'prepack') in self.prep and self._needs():
                ok = self.po is not None and self.po[0] is w.po
                c.prove(ok, f'{w.name}: {tag(self.role)} is prepared with the object of the operation', ('C10', 'C11', 'C16', 'C01'))
                c.prove(self.po is not None and self.po[1] == w.disturbed, f'{w.name}: {tag(self.role)} is used before anything else runs after its preparation', ('C16',))
            w.last = None

        def _done(self, n):
            self.world.disturb()
            self.world.last = (self.origin, n)

        def _fail(self, note):
            self.world.disturb()
            self.world.last = None
            raise SubError(note)

        def _enc(self, values):
            c = cur()
            values = rt.unstar(values)
            n = values.length if type(values) is core.SSeq else len(values)
            if not c.branch(mkbool(term(n) == term(self.num_values)), 'as many values as the serializer has'): self._fail('wrong number of values')
            ok, e = self.world.enc(self.role, values)
            if not c.branch(ok, f'{tag(self.role)} encodes the values'): self._fail('sub-serializer rejects the values')
            return e

        def pack(self, *values):
            self._begin('pack')
            e = self._enc(values)
            self._done(blen(e))
            return e

        def pack_into(self, buffer, offset, *values):
            self._begin('pack_into')
            e = self._enc(values)
            if type(buffer) is not SBuf: raise Unsupported('pack into something else than a buffer')
            try:
                offset = structm.place(buffer, offset, blen(e), 'pack_into')
            except real_struct.error:
                self._fail('no room')
            buffer.splice(offset, e)
            self._done(blen(e))

        def pack_write(self, writable, *values):
            self._begin('pack_write')
            e = self._enc(values)
            writable.write(e)
            self._done(blen(e))

        def _dec(self, view):
            ok, n, vals = self.world.dec(self.role, view, self.num_values)
            if not cur().branch(ok, f'{tag(self.role)} decodes the bytes'): self._fail('sub-serializer rejects the bytes')
            return n, vals

        def _result(self, run):
            if self.lazy and cur().choose(2, f'{tag(self.role)} gives its values lazily'):
                def values():
                    n, vals = run()
                    if type(vals) is core.SSeq: yield rt.Batch(vals)
                    else:
                        for v in vals: yield v
                    self._done(n)
                return values()
            n, vals = run()
            self._done(n)
            return vals

        def unpack(self, buffer):
            def run():
                self._begin('unpack')
                return self._dec(sb(buffer, bytes))
            return self._result(run)

        def unpack_from(self, buffer, offset=0):
            def run():
                self._begin('unpack_from')
                off = offset
                L = blen(buffer)
                if cur().branch(mkbool(term(off) < 0), 'negative offset'): off = off + L
                if cur().branch(Or(mkbool(term(off) < 0), mkbool(term(off) > term(L))), 'offset outside'): self._fail('offset out of range')
                b = sb(buffer, bytes)
                return self._dec(SBytes(models.cutsegs(b.segs, off, L - off), bytes, L - off))
            return self._result(run)

        def unpack_read(self, readable):
            def run():
                self._begin('unpack_read')
                if type(readable) is not SStream: raise Unsupported('some other stream')
                L = readable.content._len
                view = SBytes(models.cutsegs(readable.content.segs, readable.pos, L - readable.pos), bytes, L - readable.pos)
                pos = readable.pos
                readable.pos = cur().fresh('anywhere', 0)
                n, vals = self._dec(view)
                readable.pos = pos + n
                return n, vals
            return self._result(run)
    _cls[Serializer] = AbsSer
    return AbsSer
