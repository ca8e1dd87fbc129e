"""Random and enumerated class descriptions."""
from .model import *

CH = list('bBhHiIqQefd?')
UINT = list('BHIQ')


def basic(r):
    k = r.random()
    if k < .6: return Basic(r.choice(CH))
    if k < .75: return Char(r.choice([1, 1, 2, 3, 5, 10]))
    if k < .83: return Pascal(r.choice([1, 2, 5, 9]))
    if k < .86: return Padded(r.choice('bBhHiIq'), r.choice([0, 0, 1, 2]), r.choice([0, 1, 3]))
    return Custom(r.choice('bBhHiIqQfd'), r.randrange(4))


def strty(r, final=False):
    k = r.random()
    if final: inner = Consume()
    elif k < .45: inner = DynChar(r.choice(UINT))
    elif k < .7: inner = Term(r.choice([b'\0', b'H', b'\xff']))
    elif k < .85: inner = Net()
    else: inner = Char(r.choice([1, 2, 4, 6]))
    if r.random() < .4:
        codec = r.choice(['utf8', 'ascii', 'latin-1', 'rev', 'utf-16-le', 'add7'])
        if codec == 'utf-16-le' and isinstance(inner, (Term, Char)):
            codec = 'utf8'
        if codec in ('rev', 'add7') and isinstance(inner, Char):
            codec = 'ascii'
        return Uni(inner, codec)
    return basic(r) if isinstance(inner, Char) else inner


def classty(r, depth, bo=None, final=False):
    return Struct(rand_class(r, depth + 1, bo=bo, final=final))


def item(r, depth, bo, keys):
    """an array item / tuple member / union choice: non final, exactly one value"""
    k = r.random()
    if depth >= 3 or k < .35: return basic(r)
    if k < .6: return strty(r)
    if k < .7: return Tup(*members(r, depth + 1, bo, keys))
    if k < .83: return Arr(r.choice(UINT + [0, 1, 2, 3]), item(r, depth + 1, bo, keys), r.choice([None, None, 'H', 'I', 'Q']))
    if k < .95 or not keys: return classty(r, depth)
    return back(r, depth, bo, keys)


def members(r, depth, bo, keys):
    out = []
    for _ in range(r.choice([1, 2, 2, 3])):
        if r.random() < .15:
            out.append(Pad(r.choice([1, 2, 3])))
        out.append(item(r, depth, bo, keys))
    return out


def back(r, depth, bo, keys):
    k = r.choice(keys)
    ch = {0: item(r, depth + 1, bo, []), 1: item(r, depth + 1, bo, [])}
    return Back(k, ch, item(r, depth + 1, bo, []))


CONDS = [('>=1', lambda v: v >= 1), ('&1', lambda v: v & 1), ('true', lambda v: True), ('odd-list', lambda v: [1] * (v % 2)), ('none', lambda v: None)]


def cond(r, depth, bo, keys):
    d, f = r.choice(CONDS)
    inner = item(r, depth + 1, bo, keys)
    if isinstance(inner, Basic) and inner.nvals != 1:
        inner = Basic('H')
    return Cond(r.choice(keys), f, inner, r.choice([0, -1, None, b'', 'dflt']), d)


def ahead(r, name, bo):
    if r.random() < .5:
        # keys that have a byte order or no fixed size; nested classes would keep their own order
        kt, ks = r.choice([(Basic('H'), [3, 0x300]), (Basic('I'), [1, 1 << 24]), (DynChar('H'), [b'AA', b'']), (Uni(DynChar('I'), 'utf8'), ['AA', 'b']), (Net(), [b'', b'B' * 130])])
        mk = lambda: Tup(kt, *[basic(r) if r.random() < .6 else strty(r) for _ in range(r.choice([0, 1, 2]))])
    else:
        kt = r.choice([Basic('B'), Char(2)])
        ks = [b'AA', b'BB'] if isinstance(kt, Char) else [3, 200]
        mk = lambda: Struct(ClassDesc([('sig', kt)] + rand_fields(r, 2, bo, 1, False), bo))
    return Ahead(name, kt, {k: mk() for k in ks}, mk() if r.random() < .5 else None)


def harvest():
    """identifiers the package itself uses: a field may have any of these names"""
    import ast, keyword
    class K(S.Structured):
        x: S.uint8
    taken = set(dir(K)) | set(S.Structured.__annotations__) | set(keyword.kwlist) | {'self'}
    out = set()
    for f in (f for d, _, fs in os.walk(os.path.dirname(S.__file__)) for f in (os.path.join(d, f) for f in fs) if f.endswith('.py')):
        for n in ast.walk(ast.parse(open(f).read())):
            out |= {getattr(n, a) for a in ('attr', 'id', 'arg', 'name') if isinstance(getattr(n, a, None), str)}
    return sorted(n for n in out if n.isidentifier() and not n.startswith(('__', '_pad')) and n != '_' and n not in taken)


NAMES = harvest() + ['__val__', '__val', '_val_', 'val_', 'v_pad_', 'Val', 'é']
# those kept on objects
OWN = [n for n in NAMES if n.startswith('_')]


def names_for(r, pfx, n):
    if r.random() < .7 or len(OWN) < 2: return [f'{pfx}_{i}' for i in range(n)]
    return r.sample(r.choice([NAMES, OWN if len(OWN) >= n else NAMES]), n)


def rand_fields(r, depth, bo, n, final, pfx=None, allow_self=False):
    pfx = pfx or r.choice('abcdefgh') + str(r.randrange(100))
    out, keys = [], []
    ns = names_for(r, pfx, n) if pfx not in ('base', 'sub') else [f'{pfx}_{i}' for i in range(n)]
    for i in range(n):
        name = ns[i]
        last = i == n - 1
        k = r.random()
        if last and final:
            t = r.choice([strty(r, True), Tup(basic(r), strty(r, True))])
        elif k < .45:
            t = basic(r)
            if type(t) is Basic and t.fmt == 'B':
                keys.append(name)
            if r.random() < .1:
                out.append((name + 'p', Pad(r.choice([1, 2, 4]))))
        elif k < .62: t = strty(r)
        elif k < .70 and depth < 3: t = Tup(*members(r, depth + 1, bo, keys))
        elif k < .80 and depth < 3: t = Arr(r.choice(UINT + [0, 1, 2, 3]), item(r, depth + 1, bo, keys), r.choice([None, None, 'H', 'I', 'Q']))
        elif k < .85 and depth < 3: t = classty(r, depth)
        elif k < .89: t = ahead(r, name, bo)
        elif not keys:
            t = Basic('B')
            keys.append(name)
        elif k < .93: t = back(r, depth, bo, keys)
        elif k < .96: t = cond(r, depth, bo, keys)
        elif allow_self:
            t = selfy(r, depth, bo, keys)
        else:
            t = cond(r, depth, bo, keys)
        out.append((name, t))
    if out and not final and r.random() < .08: out.append((pfx + '_end', Pad(r.choice([1, 3, 8]))))
    return out


def selfy(r, depth, bo, keys):
    k = r.random()
    if k < .4: return Arr(r.choice(UINT), SelfT())
    if k < .6: return Arr(r.choice('BH'), Tup(Basic('B'), SelfT(), basic(r)))
    return Arr('B', Back(r.choice(keys), {0: SelfT(), 1: strty(r)}, SelfT()))


def rand_class(r, depth=0, bo=None, final=False, n=None):
    bo = bo if bo is not None else r.choice(ORDERS)
    n = n or r.choice([1, 2, 3, 4, 5] if depth == 0 else [1, 2, 3])
    if depth == 0 and r.random() < .15:
        base = ClassDesc(rand_fields(r, depth, bo, n, False, 'base'), bo)
        return ClassDesc(rand_fields(r, depth, bo, n, final, 'sub'), bo, base=base)
    return ClassDesc(rand_fields(r, depth, bo, n, final, allow_self=depth == 0 and not final), bo)


def C(bo, *tys):
    """class with the given field types, names f0.."""
    return ClassDesc([(f'f{i}', t) for i, t in enumerate(tys)], bo)


def leaf_types():
    for c in CH: yield Basic(c)
    for n in (1, 3): yield Char(n)
    yield Char(0)
    yield Pascal(1)
    yield Pascal(4)
    for k in range(4): yield Custom('H', k)
    for c in UINT: yield DynChar(c)
    yield Term()
    yield Term(b'H')
    yield Net()
    for inner in (Char(4), DynChar('B'), DynChar('H'), DynChar('I'), DynChar('Q'), Term(), Net()):
        yield Uni(inner, 'utf8')
    yield Uni(DynChar('H'), 'rev')
    yield Uni(DynChar('H'), 'utf-16-le')
    yield Uni(Net(), 'rev')
    yield Uni(Term(), 'latin-1')


def wrap_types(t, kname='k'):
    """every one-level composite around t; `kname` is a preceding uint8 field"""
    yield t
    yield Tup(t)
    yield Tup(Basic('B'), t, Basic('H'))
    for c in list('BHIQ') + [0, 1, 3]:
        yield Arr(c, t)
    for c in ('B', 'I', 2):
        yield Arr(c, t, 'H' if c != 2 else 'I')
    yield Struct(C(ByteOrder.BE, Basic('B'), t))
    yield Struct(C(ByteOrder.DEFAULT, t))
    yield Back(kname, {0: t, 1: Basic('H')}, t)
    yield Back(kname, {0: t, 1: t, 2: t, 3: t})
    yield Cond(kname, lambda v: v & 1, t, None, '&1')
    yield Arr('B', Tup(t, Basic('B')))
    yield Tup(Arr('B', t), t)
    yield Arr('H', Arr('B', t))
    yield Arr('H', Back(kname, {0: t, 1: Basic('H')}, t))


def enumerated():
    """small class shapes: key field, a composite, a following field"""
    for t in leaf_types():
        for w in wrap_types(t):
            yield [('k', Basic('B')), ('f', w), ('z', Basic('H'))]
        yield [('f', t)]
        yield [('f', t), ('g', t)]
        if not t.final:
            yield [('f', t), ('k', Basic('B')), ('y', Pad(2)), ('z', Consume())]
            yield [('f', t), ('z', Uni(Consume(), 'utf8'))]
            yield [('f', t), ('z', Tup(Basic('B'), Consume()))]
