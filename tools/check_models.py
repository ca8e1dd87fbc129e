"""Compares the models of the verifier (bytes, streams, struct, integers, loops, lists)
with CPython: every operation below runs natively on concrete inputs, and rewritten by
pyvc/load.py on unknown values that are assumed to equal those inputs.  The model has to
allow CPython's outcome (else it is unsound: reported, exit 1); whether it allows only
that outcome is counted as `exact`.  A cross-check on sampled cases, not a proof.

    python3-vt -B tools/check_models.py [cases per operation]"""
import ast
import io
import os
import random
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc import core, engine, load, models, rt, structm

OPS = '''
def slice_(A, i, j): return A[i:j]
def slice_from(A, i): return A[i:]
def slice_to(A, i): return A[:i]
def item(A, i): return A[i]
def length(A): return len(A)
def add(A, B): return A + B
def eq(A, B): return A == B
def join(A, B): return b''.join([A, B, b'-'])
def find(A, n1): return A.find(n1)
def find_from(A, n1, i): return A.find(n1, i)
def index(A, n1): return A.index(n1)
def contains(A, n1): return n1 in A
def ends(A, n1): return A.endswith(n1)
def starts(A, B): return A.startswith(B)
def partition(A, n1): return A.partition(n1)
def view(A, i, j): return bytes(memoryview(A)[i:j])
def view_len(A, i): return len(memoryview(A)[i:])
def conv(A): return bytes(bytearray(A)), bytearray(A)
def truth(A): return 1 if A else 0
def buf_slice(F, i, j, B):
    F[i:j] = B
    return bytes(F), len(F)
def buf_item(F, i, k):
    F[i] = k
    return bytes(F)
def buf_add(F, B):
    F += B
    return bytes(F)
def buf_view(F, i, B):
    m = memoryview(F)
    m[i:i + len(B)] = B
    return bytes(F)
def s_read(S, i, j):
    a = S.read(i)
    b = S.read(j)
    return a, b, S.tell()
def s_all(S): return S.read(), S.tell(), S.read(1)
def s_seek(S, i, w):
    r = S.seek(i, w)
    return r, S.tell(), S.read(2), S.tell()
def s_write(S, i, B):
    S.seek(i)
    n = S.write(B)
    return n, S.tell(), S.getvalue()
def s_two(S, B, A):
    S.write(B)
    S.write(A)
    return S.tell(), S.getvalue()
def st_pack(f0, i): return struct.pack(f0, i)
def st_pack2(f0, i, j): return struct.pack(f0, i, j)
def st_str(k, B): return struct.pack(f'{k}s', B)
def st_into(F, off, f0, i):
    struct.pack_into(f0, F, off, i)
    return bytes(F)
def st_unpack(A, f0): return struct.unpack(f0, A)
def st_from(A, off, f0): return struct.unpack_from(f0, A, off)
def st_size(k, c0): return struct.calcsize(f'{k}{c0}')
def st_many(k, A, c0): return struct.unpack(f'<{k}{c0}', A)
def st_mixed(i, B, j, o0): return struct.pack(f'{o0}BhxsI', i, j, B, i)
def to_bytes(i, w0, o1): return i.to_bytes(w0, o1)
def from_bytes(A, o1): return int.from_bytes(A[:2], o1)
def arith(i, j): return i + j, i - j, i * 3, -i, i // 7, i % 7, i & 127, (i & 127) | 128, i >> 7, i << 3, abs(i), min(i, j), max(i, j)
def compare(i, j): return i < j, i <= j, i == j, i != j, i >= j, i > j
def chain_cmp(i, j, k): return i < j < k, 0 <= i <= 9
def divide(i): return divmod(i, 8)
def rng(k): return len(range(k)), len(range(2, k))
def lists(i, j, k):
    x = [i, j]
    x.append(k)
    y = x[1:]
    y.extend((i,))
    x.pop()
    return x, y, len(x), tuple(y), list(reversed(y)), x + y, k in x
def comp(i, j, k): return [a + 1 for a in (i, j, k)], tuple(a for a in (i, j, k) if a), sum((i, j, k)), any((i, j)), all((i, j)), {a: b for a, b in zip('xy', (i, j))}
def zips(i, j, k): return list(zip((i, j), (j, k))), list(enumerate((i, j))), list(map(abs, (i, j)))
def gen(i, j):
    def g():
        yield i
        yield from (j, i)
    return list(g()), tuple(g())
def unpacking(i, j, k):
    a, *b = (i, j, k)
    return a, b
def loop_sum(k):
    n = 0
    for _ in range(k): n += 2
    return n
def loop_read(S, k):
    n = 0
    for _ in range(k):
        n += len(S.read(2))
    return n, S.tell()
def loop_join(A, k): return b''.join([A for _ in range(k)]) if k < 0 else len(b''.join(A for _ in range(2)))
def loop_while(k):
    n = 0
    while n < k: n += 1
    return n
def loop_first(A, k):
    for x in A:
        if x == k: return True
    return False
def tries(A, i):
    try: return A[i]
    except IndexError: return -1
    finally: i = 0
def fmt(i): return f'{i}x' == f'{i}x'
'''
ORDERS, CODES = ['<', '>', '!', '=', '@', ''], 'bBhHiIlLqQnN'


def alphabet(name, rnd):
    if name in ('A', 'B', 'F', 'S'): return bytes(rnd.choice([0, 1, 2, 3, 127, 128, 255]) for _ in range(rnd.choice([0, 1, 2, 3, 4, 5, 8, 12])))
    if name == 'n1': return bytes([rnd.choice([0, 1, 127, 255])])
    if name == 'k': return rnd.choice([-1, 0, 1, 2, 3, 4, 8, 255, 256])
    if name == 'w': return rnd.choice([0, 1, 2])
    if name == 'off': return rnd.choice([-9, -4, -1, 0, 1, 2, 3, 20])
    if name == 'f0': return rnd.choice(ORDERS[:4]) + rnd.choice(CODES[:10]) if rnd.random() < .7 else rnd.choice(ORDERS[4:]) + rnd.choice(CODES)
    if name == 'c0': return rnd.choice('xbBhHiIlLqQ')
    if name == 'w0': return rnd.choice([1, 2, 4, 8])
    if name == 'o0': return rnd.choice(ORDERS)
    if name == 'o1': return rnd.choice(['little', 'big'])
    return rnd.choice([-300, -129, -8, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 9, 12, 127, 128, 255, 256, 32767, 32768, 65535, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64])


def native(name, v): return bytearray(v) if name == 'F' else io.BytesIO(v) if name == 'S' else v


def unknown(name, v):
    """a value of the model that is not known to be v, but assumed to be"""
    c = core.cur()
    if type(v) is bytes:
        b = models.Base(name)
        n = len(v) if name == 'n1' else c.fresh('len_' + name, 0)
        c.assume(n == len(v))
        for i, x in enumerate(v): c.assume(core.mkbool(b.byte(i) == x))
        d = models.SBytes((models.Ref(b, 0, n),))
        return models.SBuf(d) if name == 'F' else models.SStream(d) if name == 'S' else d
    if type(v) is int and len(name) == 1 or name == 'off':
        x = c.fresh(name)
        c.assume(x == v)
        return x
    return v


def plain(x):
    """native outcomes in a comparable form"""
    if isinstance(x, (list, tuple)) or type(x).__name__ in ('dict_items', 'reversed', 'range'): return [plain(y) for y in x]
    return x


def may_equal(a, b):
    """condition: the model's value a is the native value b"""
    if isinstance(b, (list, tuple)):
        if isinstance(a, core.SSeq):
            return core.And(a.length == len(b), *[may_equal(a[i], y) for i, y in enumerate(b)])
        a = list(a)
        return len(a) == len(b) and core.And(*[may_equal(x, y) for x, y in zip(a, b)])
    if isinstance(b, dict): return dict(a).keys() == b.keys() and core.And(*[may_equal(a[k], b[k]) for k in b])
    if isinstance(b, (bytes, bytearray, memoryview)):
        if type(a) is models.SBuf: a = a.content
        if not isinstance(a, core.Sym): return bytes(a) == bytes(b)
        return core.And(a._len == len(b), *[core.mkbool(a.byte(i) == x) for i, x in enumerate(bytes(b))])
    r = a == b
    return r if isinstance(r, (bool, core.SBool)) else bool(r)


def run(name, fn_native, fn_model, params, args):
    try: want = ('value', fn_native(*[native(p, v) for p, v in zip(params, args)]))
    except Exception as e: want = ('raises', type(e))
    seen = []

    def once():
        c = core.cur()
        c.unknown_outcome = None
        xs = [unknown(p, v) for p, v in zip(params, args)]
        try: got = ('value', fn_model(*xs))
        except Exception as e: got = ('raises', type(e))
        if c.check() == z3.unsat: return
        if got[0] != want[0]: seen.append((False, False, str(got[0]))); return
        if got[0] == 'raises': seen.append((issubclass(got[1], want[1]) or issubclass(want[1], got[1]),) * 2 + (str(got),)); return
        m = core.tobool(may_equal(got[1], want[1]))
        ok = m if type(m) is bool else c.check(m) != z3.unsat
        seen.append((ok, m if type(m) is bool else c.valid(m) is True, 'value'))
    c = core.Ctx(20.0)
    core.set_cur(c)
    try: c.explore(once)
    except core.Unsupported as e: return 'outside', str(e), want
    finally: core.set_cur(None)
    if not any(ok for ok, _, _ in seen):
        if any(type(a) is int and abs(a) >= 2 ** 63 for a in args): return 'too large for the machine', '', want
        return 'UNSOUND', seen, want
    return ('exact' if all(e for _, e, _ in seen) else 'wider'), seen, want


def main():
    per = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    ns = dict(struct=struct)
    exec(OPS, ns)
    tree = ast.fix_missing_locations(load.Xform('models').visit(ast.parse(OPS)))
    ms = {load.RT: rt, 'struct': engine.fake('struct', structm.real, **{k: getattr(structm, k) for k in ('Struct', 'pack', 'pack_into', 'unpack', 'unpack_from', 'calcsize')})}
    exec(compile(tree, 'models', 'exec'), ms)
    total, bad = {}, 0
    for d in ast.parse(OPS).body:
        if len(sys.argv) > 2 and sys.argv[2] not in d.name: continue
        params = [a.arg for a in d.args.args]
        counts, out = {}, {}
        for _ in range(per):
            args = [alphabet(p, rnd) for p in params]
            kind, seen, want = run(d.name, ns[d.name], ms[d.name], params, args)
            counts[kind] = counts.get(kind, 0) + 1
            total[kind] = total.get(kind, 0) + 1
            out.setdefault(kind, (args, want, seen))
            if kind == 'UNSOUND':
                bad += 1
                print('UNSOUND', d.name, args, 'CPython:', want, 'model:', seen, flush=True)
        print(d.name, counts, {k: str(v)[:150] for k, v in out.items() if k != 'exact'} or '', flush=True)
    print('total', total)
    return 1 if bad else 0


if __name__ == '__main__': sys.exit(main())
