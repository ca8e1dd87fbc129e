"""Contracts of the hint factories (hint_types/): what a hint with an unknown length,
header or item means, and which are refused.  The caches in front of them are taken to
give what the cached function gives."""
import typing
from .lib import *
from .abstract import *
from .structs import begin, made, text, BO, as_struct, order_of
from pyvc.structm import SFmt
from pyvc import structm
from pyvc.core import conc, PathEnd


def mod(name):
    import importlib
    return importlib.import_module('structured.' + name)


def serializer_of(hint):
    return mod('type_checking').annotated.transform(hint)


def is_a(x, cls):
    """an instance of just that class.  Another serializer may do the same: not decided"""
    if type(x) is not cls: raise Unsupported(f'{type(x).__name__} in place of {cls.__name__}')
    return x


SIZES = {'uint8': 'B', 'uint16': 'H', 'uint32': 'I', 'uint64': 'Q'}


def index(cls, *args):
    """cls[args]"""
    return attempt(lambda: rt.getitem(cls, args[0] if len(args) == 1 else args))


def refused(r, types, nm, tags=('C19',)):
    cur().prove(isinstance(r, Raised) and isinstance(r.e, types), nm, tags)


def junk(extra=()):
    """things that are no length"""
    import structured as st
    k = pick(['text', 'empty text', 'None', 'float', 'signed', 'class', 'nan', 'minus infinity', 'type'] + list(extra), 'junk')
    return {'text': 'x', 'empty text': '', 'empty tuple': (), 'None': None, 'float': 1.5, 'signed': st.int16, 'class': int, 'nan': float('nan'), 'minus infinity': float('-inf'), 'type': typing.Any,
            'bytes': b'\0', 'infinity': float('inf'), 'NET': st.NET, 'hint': st.float32, 'tuple': (1,)}[k]


# ---------------------------------------------------------------- strings
def string(which):
    def unit():
        import structured as st
        begin()
        sm = mod('serializers.strings')
        c = cur()
        cls = getattr(st, which)
        nm = f'{which}[]'
        kind = pick(['length', 'size type', 'NET', 'terminator', 'rest', 'junk'], 'kind')
        enc = ()
        if which == 'unicode':
            class Codec(st.EncoderDecoder):
                @classmethod
                def encode(cls, s): return ('encoded', s)
                @classmethod
                def decode(cls, b): return ('decoded', b)
            how = pick(['default', 'name', 'class', 'instance', 'junk codec'], 'encoding')
            codec = Codec()
            enc = {'default': (), 'name': ('latin1',), 'class': (Codec,), 'instance': (codec,), 'junk codec': (pick([7, None, object], 'codec'),)}[how]
        if kind == 'length': n = c.fresh('length', None)
        elif kind == 'size type': n = getattr(st, pick(list(SIZES), 'size'))
        elif kind == 'NET': n = st.NET
        elif kind == 'terminator': n = pick([b'\0', b'x', b'', b'ab'], 'terminator')
        elif kind == 'rest': n = float('inf')
        else: n = junk()
        r = index(cls, n, *enc)
        if which == 'unicode' and how == 'junk codec':
            return refused(r, TypeError, f'{nm}: no codec is refused with TypeError')
        if kind == 'junk': return refused(r, TypeError, f'{nm}: something that is no length is refused with TypeError')
        if kind == 'terminator' and len(n) != 1: return refused(r, ValueError, f'{nm}: a terminator that is not one byte is refused')
        if kind == 'length' and c.branch(n < 0, 'negative'): return refused(r, (TypeError, ValueError), f'{nm}: a negative length is refused')
        c.prove(not isinstance(r, Raised), f'{nm}: a hint with a length is accepted', ('C19', 'C08', 'C09'))
        if isinstance(r, Raised): return
        s = serializer_of(r)
        T = ('C08',)
        if which == 'unicode':
            T = ('C08', 'C09')
            s = is_a(s, sm.UnicodeSerializer)
            e, d = attempt(s.encoder, 'é'), attempt(s.decoder, b'\xe9' if how == 'name' else b'\xc3\xa9')
            if how in ('default', 'name'):
                c.prove(e == ('é'.encode('latin1') if how == 'name' else 'é'.encode()) and d == 'é', f'{nm}: encodes and decodes with the codec named, utf8 when none is', ('C09',))
            else: c.prove(e == ('encoded', 'é') and d == ('decoded', b'\xc3\xa9'), f'{nm}: encodes and decodes with the methods of the codec', ('C09',))
            s = s.serializer
        if kind == 'length': as_struct(s, '', SFmt.make((n, 's')) if not conc(n) else f'{n}s', nm, T)
        elif kind == 'size type':
            is_a(s, sm.DynamicCharSerializer)
            want = serializer_of(n)
            c.prove(s.st is want, f'{nm}: the length is stored as the type says', T)
        elif kind == 'NET': is_a(s, sm.NETCharSerializer)
        elif kind == 'terminator':
            is_a(s, sm.TerminatedCharSerializer)
            c.prove(s.terminator == n, f'{nm}: ends at the terminator', T)
        else: is_a(s, sm.ConsumingCharSerializer)
    return unit


def counted(which, code):
    def unit():
        import structured as st
        begin()
        c = cur()
        n = c.fresh('count', None)
        nm = f'{which}[]'
        r = index(getattr(st, which), n)
        if c.branch(n < 0, 'negative'): return refused(r, (TypeError, ValueError), f'{nm}: a negative count is refused')
        if which == 'pascal' and c.branch(n == 0, 'none'): raise PathEnd
        c.prove(not isinstance(r, Raised), f'{nm}: any other count is accepted', ('C19', 'C06'))
        if isinstance(r, Raised): return
        as_struct(serializer_of(r), '', SFmt.make((n, code)), nm, ('C06',))
    return unit


# ---------------------------------------------------------------- arrays
def length_arg():
    """(argument, what it has to be)"""
    import structured as st
    k = pick(['length', 'size type', 'junk'], 'length')
    if k == 'length':
        n = cur().fresh('length', None)
        return n, 'negative' if cur().branch(n < 0, 'negative') else 'length'
    if k == 'size type': return getattr(st, pick(list(SIZES), 'size')), k
    return junk(['bytes', 'infinity', 'NET', 'hint', 'empty tuple']), k


def size_arg():
    import structured as st
    k = pick(['none', 'size type', 'junk'], 'data size')
    if k == 'none': return None, k
    if k == 'size type': return getattr(st, pick(list(SIZES), 'data size type')), k
    return pick([5, 'x', 1.5, st.int16, int, st.char[3], st.float32, 0, '', (), 0.0], 'junk size'), k


def header():
    from structured.hint_types.arrays import Header
    begin()
    c = cur()
    n, nk = length_arg()
    form = pick(['one argument', 'two arguments', 'three arguments', 'no argument'], 'form')
    sk = 'none'
    if form == 'one argument': r = index(Header, n)
    elif form == 'two arguments':
        s, sk = size_arg()
        r = index(Header, n, s)
    else: r = index(Header, *((n, None, None) if form == 'three arguments' else ((),)))
    nm = 'Header[]'
    if form in ('three arguments', 'no argument'): return refused(r, TypeError, f'{nm}: another number of arguments is refused with TypeError')
    if nk == 'negative': return refused(r, (ValueError, TypeError) if sk == 'junk' else ValueError, f'{nm}: a negative length is refused with ValueError')
    if 'junk' in (nk, sk): return refused(r, TypeError, f'{nm}: a length or size that is none is refused with TypeError')
    c.prove(not isinstance(r, Raised), f'{nm}: a length and a size are accepted', ('C19', 'C07'))
    if isinstance(r, Raised): return
    is_a(r, Header)
    T = ('C07',)
    if nk == 'length': c.prove(isint(r.count) and mkbool(term(r.count) == term(n)), f'{nm}: keeps the length', T)
    else: c.prove(r.count is serializer_of(n), f'{nm}: stores the count as the type says', T)
    c.prove(r.data_size is (None if sk == 'none' else serializer_of(s)), f'{nm}: stores the data size as the type says', T)


def abstract_struct(S, n):
    """any struct serializer, of n values; its products are those of structs.py"""
    class AbsStruct(S):
        def __new__(cls): return object.__new__(cls)
        def __init__(self): pass
        num_values = n
        def __mul__(self, k): return ('product', self, k)
        def __add__(self, o): raise Unsupported('sum of an unknown struct')
        __radd__ = __matmul__ = with_byte_order = __add__

        @property
        def format(self): raise Unsupported('format of an unknown struct')
        size = base_format = byte_order = actions = format
        def __eq__(self, o): return self is o
        def __hash__(self): return id(self)
        def __repr__(self): return '<struct>'
    return AbsStruct()


def array():
    import structured as st
    from structured.hint_types.arrays import Header
    begin()
    c = cur()
    am, sm = mod('serializers.arrays'), mod('serializers.structs')
    nm = 'array[]'
    w = World()
    w.name = 'item'
    ik = pick(['serializer', 'final serializer', 'struct', 'no serializer'], 'item')
    fin = ik == 'final serializer'
    if ik == 'struct':
        item = abstract_struct(sm.StructSerializer, c.fresh('num_values', 0))
    else: item = make(w, 'item', c.fresh('num_values', 0), final=fin)
    hint = pick([int, None, 'x', typing.Any], 'junk item') if ik == 'no serializer' else rt.getitem(typing.Annotated, (int, item))
    hk = pick(['header', 'no header'], 'header') if ik != 'struct' else 'header'
    nk, sk = 'length', 'none'
    if hk == 'header':
        nk, sk = pick(['length', 'size type'], 'length'), pick(['none', 'size type'], 'data size')
        n = c.fresh('length', 0) if nk == 'length' else serializer_of(st.uint16)
        size = serializer_of(st.uint32) if sk == 'size type' else None
        h = Header(n, size)
    else: h = pick([5, None, st.uint8, 'x', c.fresh('number', None), Header], 'junk header')
    form = pick(['two arguments', 'one argument', 'three arguments'], 'form') if ik != 'struct' else 'two arguments'
    if hk == 'header' and form == 'two arguments' and pick([False, True], 'the header was used before'):
        index(st.array, h, pick([st.uint8, rt.getitem(typing.Annotated, (int, make(w, 'other', 1)))], 'items it was used with'))
    r = index(st.array, *{'one argument': (h,), 'two arguments': (h, hint), 'three arguments': (h, hint, hint)}[form])
    if form != 'two arguments': return refused(r, TypeError, f'{nm}: another number of arguments is refused with TypeError')
    if hk == 'no header' or ik == 'no serializer': return refused(r, TypeError, f'{nm}: a header or item that is none is refused with TypeError')
    if fin: return refused(r, TypeError, f'{nm}: a final item is refused with TypeError', ('C19', 'C12'))
    c.prove(not isinstance(r, Raised), f'{nm}: a header and an item are accepted', ('C19', 'C07'))
    if isinstance(r, Raised): return
    s = serializer_of(r)
    T = ('C07',)
    special = ik == 'struct' and sk == 'none' and c.branch(mkbool(term(item.num_values) == 1), 'items of one struct value')
    if special and nk == 'length':
        is_a(s, am.StaticStructArraySerializer)
        c.prove(isint(s.count) and mkbool(term(s.count) == term(n)), f'{nm}: has the length', T)
        c.prove(s.item_serializer is item, f'{nm}: has the items', T)
    elif special:
        is_a(s, am.DynamicStructArraySerializer)
        c.prove(s.count_serializer is n, f'{nm}: stores the count as the header says', T)
        c.prove(s.item_serializer is item, f'{nm}: has the items', T)
    else:
        if not isinstance(s, am.ArraySerializer): is_a(s, am.ArraySerializer)
        c.prove(s.item_serializer is item, f'{nm}: has the items', T)
        if nk == 'length':
            c.prove(isint(s.static_length) and mkbool(term(s.static_length) == term(n)), f'{nm}: has the length', T)
            c.prove(s.header_serializer is size if size is not None else isinstance(s.header_serializer, mod('serializers.api').NullSerializer), f'{nm}: stores the data size as the header says, and no count', T)
        else:
            c.prove(isint(s.static_length) and mkbool(term(s.static_length) < 0), f'{nm}: has no fixed length', T)
            if size is None: c.prove(s.header_serializer is n, f'{nm}: stores the count as the header says', T)
            else: as_struct(s.header_serializer, '', 'HI', f'{nm}: header of count and data size', T)


UNITS = [
    Unit('char[]', 'structured.hint_types.strings.char', ('C08', 'C19'), string('char')),
    Unit('unicode[]', 'structured.hint_types.strings.unicode', ('C08', 'C09', 'C19'), string('unicode')),
    Unit('pad[]', 'structured.hint_types.basic_types.pad', ('C06', 'C19'), counted('pad', 'x')),
    Unit('pascal[]', 'structured.hint_types.basic_types.pascal', ('C06', 'C19'), counted('pascal', 'p')),
    Unit('Header[]', 'structured.hint_types.arrays.Header', ('C07', 'C19'), header),
    Unit('array[]', 'structured.hint_types.arrays.array', ('C07', 'C12', 'C19'), array),
]


# ---------------------------------------------------------------- custom types
def serialize_as():
    import structured as st
    begin()
    c = cur()
    sm = mod('serializers.structs')
    nm = 'SerializeAs'
    kind = pick(['struct', 'struct with actions', 'other serializer', 'no serializer'], 'hint')
    class T:
        def __init__(self, v): pass
    class Other(T): pass
    acts = (lambda v: v,)
    if kind.startswith('struct'):
        f = text('format')
        s = made(sm.StructSerializer, f) if kind == 'struct' else made(sm.StructActionSerializer, f, BO(''), acts)
        hint = rt.getitem(typing.Annotated, (int, s))
        one = c.branch(mkbool(term(s.num_values) == 1), 'one value')
        if kind != 'struct': c.assume(mkbool(term(s.num_values) >= 1))
    elif kind == 'other serializer': hint = typing.Annotated[int, make(World(), 'other', 1)]
    else: hint = pick([int, None, 'x'], 'junk')
    r = attempt(st.SerializeAs, hint)
    if not kind.startswith('struct') or not one: return refused(r, TypeError, f'{nm}: only hints of one struct value are accepted, others refused with TypeError')
    c.prove(not isinstance(r, Raised), f'{nm}: a hint of one struct value is accepted', ('C19', 'C18'))
    if isinstance(r, Raised): return
    how = pick(['type', 'factory', 'factory again'], 'conversion')
    want = T if kind == 'struct' else acts[0]
    if how != 'type':
        want = lambda v: ('made', v)
        before = r
        r = attempt(r.with_factory, want)
        c.prove(not isinstance(r, Raised), f'{nm}.with_factory: accepted', ('C18',))
        if isinstance(r, Raised): return
        if how == 'factory again':
            # another factory for the first one leaves this one alone
            attempt(before.with_factory, lambda v: ('other', v))
    if pick([False, True], 'used with another type before'): attempt(serializer_of, rt.getitem(typing.Annotated, (Other, r)))
    x = attempt(serializer_of, rt.getitem(typing.Annotated, (T, r)))
    c.prove(isinstance(x, sm.StructSerializer), f'{nm}: is a struct serializer', ('C18', 'C06'))
    if isinstance(x, Raised): return
    is_a(x, sm.StructActionSerializer)
    as_struct(x, '', f, nm, ('C18', 'C06'))
    c.prove(len(x.actions) == 1 and x.actions[0] is want, f'{nm}: converts with the factory, or the type where there is none', ('C18', 'C16'))
    # the serializer the hint was made of is as it was
    c.prove(type(s) is (sm.StructSerializer if kind == 'struct' else sm.StructActionSerializer) and getattr(s, 'actions', acts) is s.__dict__.get('actions', acts), f'{nm}: leaves the hint alone', ('C18', 'C16'))


def condition():
    import structured as st
    begin()
    c = cur()
    nm = 'Condition'
    cd = mod('serializers.conditional')
    n = c.fresh('num_values', 0)
    k = pick([0, 1, 2, 3], 'defaults')
    s = make(World(), 'wrapped', n)
    cond = lambda o: True
    defaults = tuple(('default', j) for j in range(k))
    kind = pick(['serializer', 'no serializer'], 'hint')
    base = typing.Annotated[int, s] if kind == 'serializer' else pick([int, None], 'junk')
    h = st.Condition(cond, *defaults)
    if pick([False, True], 'used for another field before'): attempt(lambda: serializer_of(rt.getitem(typing.Annotated, (typing.Annotated[int, make(World(), 'other', pick([k, k + 1], 'values of the other'))], h))))
    x = attempt(lambda: serializer_of(rt.getitem(typing.Annotated, (base, h))))
    if kind == 'no serializer': return refused(x, TypeError, f'{nm}: on something that is not serialized is refused with TypeError', ('C19', 'C11'))
    if not c.branch(mkbool(term(n) == k), 'a default for every value'):
        return refused(x, ValueError, f'{nm}: another number of defaults than values is refused with ValueError', ('C19', 'C11'))
    c.prove(not isinstance(x, Raised), f'{nm}: accepted', ('C11', 'C19'))
    if isinstance(x, Raised): return
    is_a(x, cd.ConditionalSerializer)
    c.prove(x.condition is cond and x.serializers[True] is s, f'{nm}: wraps the serializer under the condition', ('C11', 'C16'))
    c.prove(x.serializers[False].values == defaults, f'{nm}: gives the defaults otherwise', ('C11', 'C16'))


# ---------------------------------------------------------------- tuples
def tuples():
    """an unknown number of hints"""
    from structured.utils import StructuredAlias
    tm = mod('hint_types.tuples')
    tc = mod('type_checking')
    begin()
    c = cur()
    nm = 'tuple hints'
    n = c.fresh('hints', 1)
    f = c.fresh_fn('kind', z3.IntSort(), z3.IntSort())
    w = World()
    w.name = 'tuple'
    subs, hooks = [], []
    TV = typing.TypeVar('TV')
    AL = StructuredAlias(int, (TV,))

    class Hint:
        """a hint of one of three kinds"""

        def __init__(self, k): self.k, self.s = k, make(w, ('element', k), c.fresh('num_values', 0))

        def kind(self):
            if cur().branch(mkbool(f(term(self.k)) == 0), 'serializer'): return 'serializer'
            if cur().branch(mkbool(f(term(self.k)) == 1), 'type variable'): return 'type variable'
            return 'alias' if cur().branch(mkbool(f(term(self.k)) == 2), 'alias') else 'other'

    def at(k):
        for j, h in subs:
            if j is k or cur().valid(mkbool(term(j) == term(k))) is True: return h
        h = Hint(k)
        subs.append((k, h))
        for g in list(hooks): g(k)
        return h
    args = core.SSeq(n, at, tuple)
    args.key = (args, 0, n)
    args.root, args.hooks = args, hooks

    def transform(h):
        if not isinstance(h, Hint): raise Unsupported('another hint')
        k = h.kind()
        return h.s if k == 'serializer' else TV if k == 'type variable' else AL if k == 'alias' else int
    class Annotated_:
        pass
    fake = Annotated_()
    fake.transform = transform
    real = tm.annotated, tm.istuple, tm.get_tuple_args
    tm.annotated, tm.istuple, tm.get_tuple_args = fake, (lambda t: t is args), (lambda t: args)
    got = []
    rts = tm.TupleSerializer

    def TS(serializers):
        got.append(core.as_seq(serializers))
        return 'the tuple'
    tm.TupleSerializer = TS
    # (what is made of unknown items is looked at item by item: also while the outcome is)
    try: tuple_outcome(nm, attempt(tm.transform_tuple, args, None), got, at, n, TV, AL)
    finally: (tm.annotated, tm.istuple, tm.get_tuple_args), tm.TupleSerializer = real, rts


def tuple_outcome(nm, r, got, at, n, TV, AL):
    from structured.utils import StructuredAlias
    c = cur()
    c.cover('transformed')
    j = c.fresh('some', 0)
    c.assume(mkbool(j.t < term(n)))
    if isinstance(r, Raised):
        return c.prove(False, f'{nm}: never refused here', ('C19',))
    if isinstance(r, StructuredAlias):
        c.cover('an alias')
        c.prove(r.cls is typing.Tuple, f'{nm}: with a type variable, an alias of a tuple', ('C15',))
        a = core.as_seq(r.args)
        c.prove(mkbool(term(a.length) == term(n)), f'{nm}: the alias has as many items', ('C15',))
        h = at(j)
        k, x = h.kind(), a.at(j)
        return c.prove(x is h or k == 'type variable' and x is TV or k == 'alias' and x is AL, f'{nm}: the items of the alias stand for the hints', ('C15',))
    h = at(j)
    if r == 'the tuple':
        c.cover('a tuple')
        c.prove(h.kind() == 'serializer', f'{nm}: only where every element is serialized', ('C13', 'C01', 'C19'))
        return c.prove(len(got) == 1 and mkbool(term(got[0].length) == term(n)) and value_eq(got[0].at(j), h.s) is True, f'{nm}: the serializers of the elements in order', ('C13', 'C01', 'C19'))
    c.cover('no tuple')
    c.prove(h.kind() in ('serializer', 'other'), f'{nm}: hints with type variables wait for their types', ('C15',))
    c.prove(r is None and not got, f'{nm}: no serializer unless every element is one', ('C19', 'C13', 'C01'))


# ---------------------------------------------------------------- unions
def union_choice():
    import structured as st
    um = mod('serializers.unions')
    c = cur()
    n = c.fresh('num_values', 0)
    s = make(World(), 'choice', n)
    kind = pick(['serializer', 'no serializer'], 'hint')
    hint = typing.Annotated[int, s] if kind == 'serializer' else pick([int, None, 'x'], 'junk')
    where = pick(['choice', 'default'], 'where')
    good = typing.Annotated[int, make(World(), 'good', 1)]
    key = object()
    ahead = pick([False, True], 'looks ahead')
    d = lambda o: key
    m, default = ({key: hint}, None) if where == 'choice' else ({key: good}, hint)
    if where == 'default' and hint is None: raise PathEnd
    r = attempt(um.LookaheadDecider, good, d, m, default) if ahead else attempt(um.LookbackDecider, d, m, default)
    nm = f'{"LookaheadDecider" if ahead else "LookbackDecider"}()'
    if kind == 'no serializer': return refused(r, TypeError, f'{nm}: a choice that is not serialized is refused with TypeError', ('C19', 'C10'))
    if not c.branch(mkbool(term(n) == 1), 'one value'): return refused(r, ValueError, f'{nm}: a choice of another number of values is refused with ValueError', ('C19', 'C10'))
    c.prove(not isinstance(r, Raised), f'{nm}: accepted', ('C10', 'C19'))
    if isinstance(r, Raised): return
    c.prove((r.result_map[key] if where == 'choice' else r.default) is s, f'{nm}: the choice is the serializer of the hint', ('C10',))
    c.prove(r.decider is d, f'{nm}: keeps the decider', ('C10',))
    c.prove(where == 'default' or r.default is None, f'{nm}: no default unless given', ('C10',))


def union_hint():
    """a union is serialized only if a decider is given and every member is serialized"""
    um = mod('serializers.unions')
    c = cur()
    w = World()
    good = lambda k: typing.Annotated[int, make(w, ('member', k), 1)]
    d = um.LookbackDecider(lambda o: 0, {0: good(9)})
    kind = pick(['union', 'no union'], 'base')
    base = {'union': typing.Union[good(0), good(1)], 'no union': good(0)}[kind]
    r = attempt(lambda: serializer_of(typing.Annotated[base, d]))
    nm = 'union hints'
    if kind == 'union': c.prove(r is d, f'{nm}: the decider serializes it', ('C10',))
    else: refused(r, TypeError, f'{nm}: a decider on something else is refused with TypeError', ('C19', 'C10'))


def unindexed():
    """any class that needs an index, bare or next to another hint"""
    import structured as st
    bt = mod('base_types')
    class Other(bt.requires_indexing): pass
    x = pick([st.char, st.unicode, st.pad, st.pascal, st.array, Other], 'class')
    where = pick(['alone', 'base', 'beside', 'inner'], 'where')
    s = make(World(), 'other', 1)
    h = {'alone': lambda: x, 'base': lambda: typing.Annotated[x, 'note'], 'beside': lambda: typing.Annotated[int, x], 'inner': lambda: typing.Annotated[x, s]}[where]()
    refused(attempt(serializer_of, h), TypeError, 'requires_indexing: a hint without its index is refused with TypeError')


UNITS += [
    Unit('SerializeAs', 'structured.hint_types.serialize_as.SerializeAs', ('C18', 'C19', 'C06', 'C16'), serialize_as),
    Unit('Condition', 'structured.hint_types.condition.Condition', ('C11', 'C19'), condition),
    Unit('tuple hints', 'structured.hint_types.tuples.transform_tuple', ('C13', 'C01', 'C15', 'C19'), tuples),
    Unit('union choices', 'structured.serializers.unions.AUnion.__init__', ('C10', 'C19'), union_choice),
    Unit('union hints (enumerated)', 'structured.serializers.unions.AUnion._transform', ('C10', 'C19'), union_hint),
    Unit('hints without their index', 'structured.base_types.requires_indexing', ('C19',), unindexed),
]
