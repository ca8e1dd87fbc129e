"""Runs the contract units that bear on a property, in worker processes, and says what
was discharged."""
import importlib
import multiprocessing as mp
import os
import pkgutil
import time

WORKERS = 8
BUDGET = {'quick': 150.0, 'thorough': 400.0}
TOTAL = {'quick': 420.0, 'thorough': 700.0}


def all_units():
    import contracts
    out = []
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        out += getattr(importlib.import_module('contracts.' + m), 'UNITS', [])
    return out


def work(conn, unit, first, budget):
    from pyvc import engine
    try:
        r = engine.run_unit(unit, budget, first)
    except BaseException as e:          # the result is an answer in every case
        r = failed(unit, f'{type(e).__name__}: {e}')
    conn.send(r)
    conn.close()


def failed(unit, why):
    return dict(unit=unit.name, function=unit.function, tags=unit.tags, obligations=[], why=why, vacuous=[], covers={}, runs=0, restarts=0, solver_s=0.0, queries=0, seconds=0.0)


def run_all(units, tier):
    """[result] per unit, parts of a split unit merged"""
    ctx = mp.get_context('fork')
    todo = [(u, k) for u in sorted(units, key=lambda u: -u.cost) for k in (range(u.split) if u.split else [None])]
    t0 = time.time()
    running, parts = [], {}
    budget = BUDGET[tier]
    while todo or running:
        while todo and len(running) < WORKERS:
            u, k = todo.pop(0)
            if time.time() - t0 > TOTAL[tier]:
                parts.setdefault(u.name, []).append(failed(u, 'time of the check used up'))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b, u, k, budget))
            p.start()
            b.close()
            running.append((p, a, u, time.time()))
        ready = mp.connection.wait([a for _, a, _, _ in running], 1.0)
        for item in list(running):
            p, a, u, t = item
            if a in ready:
                try: r = a.recv()
                except EOFError: r = failed(u, 'the verifier process died')
            elif time.time() - t > budget + 60:
                p.kill()
                r = failed(u, 'the verifier process hung')
            else: continue
            parts.setdefault(u.name, []).append(r)
            running.remove(item)
            a.close()
            p.join()
    out = []
    for u in units:
        ps = parts[u.name]
        r = dict(ps[0])
        for q in ps[1:]:
            r['obligations'] = r['obligations'] + q['obligations']
            r['why'] = r['why'] or q['why']
            cv = dict(r['covers'])
            for n, ok in q['covers'].items(): cv[n] = cv.get(n) or ok
            r['covers'] = cv
            for f in ('runs', 'restarts', 'solver_s', 'queries', 'seconds'): r[f] += q[f]
        r['vacuous'] = [n for n, ok in r['covers'].items() if not ok]
        out.append(r)
    return out


def nothing(why): return dict(obligations=[], functions=[], undecided=[dict(unit='all', why=why)], units=[], solver_s=0.0, queries=0, paths=0, wall=0.0)


def run(pid, tier):
    import multiprocessing.connection
    from pyvc import engine
    try:
        units = [u for u in all_units() if pid in u.tags]
        engine.package()
    except Exception as e:
        return nothing(f'the verifier cannot load the package: {type(e).__name__}: {e}')
    t0 = time.time()
    res = run_all(units, tier)
    obs, und, fns = [], [], set()
    for r in res:
        mine = [dict(o, unit=r['unit'], function=r['function']) for o in r['obligations'] if pid in o['tags']]
        obs += mine
        if r['why']: und.append(dict(unit=r['unit'], why=r['why']))
        elif r['vacuous']: und.append(dict(unit=r['unit'], why=f'vacuous: {r["vacuous"]}'))
        elif any(o['status'] == 'unknown' for o in mine):
            und.append(dict(unit=r['unit'], why='solver or invariant: ' + '; '.join(sorted({o['name'] for o in mine if o['status'] == 'unknown'}))[:300]))
        elif not mine: und.append(dict(unit=r['unit'], why='no obligation was generated'))
        if mine: fns.add(r['function'])
    return dict(obligations=obs, functions=sorted(fns), undecided=und, units=[r['unit'] for r in res], solver_s=sum(r['solver_s'] for r in res),
                queries=sum(r['queries'] for r in res), paths=sum(r['runs'] for r in res), wall=time.time() - t0)


TRUSTED = [
    'pyvc: the symbolic executor of the rewritten source (pyvc/load.py states every rewriting; /repo\'s own tests are run through it as a cross-check)',
    'pyvc/models.py and pyvc/structm.py: assumed contracts of struct, bytes, bytearray, memoryview, io.BytesIO-like streams, int.from_bytes/to_bytes (checked against CPython by tools/check_models.py)',
    'z3 4.x (python3-vt z3-solver), the only solver',
    'CPython executes the statements of the rewritten source itself; integers are mathematical, as in Python',
    'abstract serializers (contracts/abstract.py): sub-serializers of a container obey the Serializer contract, which is itself proved for each concrete serializer class',
]


def coverage(pid, ded, dyn):
    bounded = [o for o in ded['obligations'] if 'bounded' in o['unit'] or 'enumerated' in o['unit']]
    obs = [o for o in ded['obligations'] if 'bounded' not in o['unit'] and 'enumerated' not in o['unit']]
    names = {}
    for o in obs: names.setdefault(f'{o["unit"]}: {o["name"]}', []).append(o['status'])
    st = lambda s: sum(o['status'] == s for o in obs)
    level = levels().get(pid, 'exploration')
    if level == 'proof' and (ded['undecided'] or not obs): level = 'exploration'
    return dict(level=level, obligations=len(obs), discharged=st('proved'), refuted=st('refuted'), undecided_obligations=st('unknown'),
                checker_cmd=f'python3-vt -B check.py {pid}', trusted_base=TRUSTED, back_end='z3 ' + z3_version(),
                functions_under_contract=ded['functions'], contract_units=ded['units'], undecided_units=ded['undecided'],
                bounded_units=sorted({o['unit'] for o in bounded}), bounded_obligations=len(bounded), bounded_obligations_held=sum(o['status'] == 'proved' for o in bounded),
                distinct_obligation_names=len(names), paths=ded['paths'], solver_queries=ded['queries'], solver_s=round(ded['solver_s'], 2), deductive_wall_s=round(ded['wall'], 2),
                evaluations=dyn['evaluations'], distinct_nontrivial=dyn['distinct'],
                rule='bounded stand-in, never counted as proved: oracle/props.py makes serializable classes and values from every hint kind (all listed shapes, then seeded random nesting), '
                     'evaluates the property on the natively imported package; a case counts as non-trivial when it reached the comparison, distinct by class text and values',
                samples=dyn['samples'])


def levels():
    import json
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return {c['property']: c['level'] for c in json.load(open(here + '/MANIFEST.json'))['checks']}


def z3_version():
    import z3
    return z3.get_version_string()


def assumptions(pid, ded):
    return TRUSTED[1:] + [f'undecided, bounded stand-in only: {u["unit"]}: {u["why"]}' for u in ded['undecided']]
