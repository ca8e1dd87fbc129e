#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current tree.
check.py --replay <file> : run a recorded failing input again.

1. deductive part: every obligation of the contracts tagged with the property is
   generated from /repo's current source and discharged (pyvc/, contracts/);
2. bounded run-time part: the oracle (oracle/) evaluates the property on the real,
   natively imported package, which supplies failing inputs for refuted obligations
   and stands in, bounded, for what no contract reaches."""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)


def load_props():
    return {p['id']: p for p in map(json.loads, open('properties.jsonl'))}


def known_findings(pid):
    out = []
    for line in open('known_findings.txt'):
        line = line.strip()
        if line.startswith('known: ') and f'property={pid} ' in line:
            out.append(line[len('known: '):])
    return out


def child(fn):
    """run fn in a child process, so that nothing it loads leaks out"""
    import multiprocessing as mp
    q = mp.get_context('fork').SimpleQueue()
    p = mp.get_context('fork').Process(target=lambda: q.put(fn()))
    p.start()
    r = q.get()
    p.join()
    return r


def import_failure():
    """a tree on which the package cannot be imported breaks every property"""
    import subprocess
    code = 'import sys; sys.dont_write_bytecode=True; sys.path.insert(0, %r); import structured, structured.serializers, structured.hint_types' % REPO
    r = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True)
    return r.stderr[-2000:] if r.returncode else None


REPO = os.environ.get('PYVC_REPO', '/repo')


def main():
    t0 = time.time()
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        if 'tag' not in rec:
            print(json.dumps(rec, indent=1))
            return 1
        from oracle import props
        tag = tuple(rec['tag'])
        e = props.run_case(rec['property'], tag, rec['case_seed'], props.Rec())
        print(e or 'does not fail on this tree')
        return 1 if e else 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ev_path = f'evidence/{pid}.json'
    os.makedirs('evidence/replay', exist_ok=True)
    replay = f'evidence/replay/{pid}.json'
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    prop = load_props()[pid]

    broken = import_failure()
    if broken:
        json.dump(dict(property=pid, message='the package cannot be imported', output=broken), open(replay, 'w'), indent=1)
        print(broken)
        print(f'VIOLATION property={pid} replay={HERE}/{replay}')
        json.dump(dict(property=pid, tier=tier, seed=seed, level='other', coverage=dict(explanation='import failed'), wall_s=time.time() - t0, violations=1), open(ev_path, 'w'))
        return 1

    from pyvc import report
    try: ded = report.run(pid, tier)         # obligations, in worker processes of their own
    except Exception as e: ded = report.nothing(f'the verifier failed: {type(e).__name__}: {e}')
    # the run-time part is about the package itself, not the text the verifier ran
    for k in [k for k in sys.modules if k == 'structured' or k.startswith('structured.')]: del sys.modules[k]
    from oracle import props
    dyn = props.run(pid, tier, seed)

    for k in known_findings(pid):
        still = props.known_finding_fails(pid, k)
        if still:
            print(f'KNOWN-FINDING: {k}')

    bad = dyn['bad']
    refuted = [o for o in ded['obligations'] if o['status'] == 'refuted']
    cov = report.coverage(pid, ded, dyn)
    evidence = dict(property=pid, tier=tier, seed=seed, level=cov.pop('level'), coverage=cov,
                    assumptions=report.assumptions(pid, ded), wall_s=round(time.time() - t0, 2), violations=1 if bad or refuted else 0)
    json.dump(evidence, open(ev_path, 'w'), indent=1, default=str)
    print(f'{pid} {prop["title"]}')
    print(f'  obligations: {len(ded["obligations"])} generated, {sum(o["status"] == "proved" for o in ded["obligations"])} discharged, '
          f'{len(refuted)} refuted, {sum(o["status"] == "unknown" for o in ded["obligations"])} undecided; '
          f'{len(ded["functions"])} functions under contract, {len(ded["undecided"])} units undecided; solver {ded["solver_s"]:.1f} s')
    for u in ded['undecided']:
        print(f'  undecided: {u["unit"]}: {u["why"]}')
    print(f'  bounded run-time cases: {dyn["evaluations"]} evaluations, {dyn["distinct"]} distinct, {dyn["seconds"]} s')
    if bad:
        tag, cs, msg = bad[0]
        json.dump(dict(property=pid, tag=list(tag), case_seed=cs, message=msg, others=[b[2][:500] for b in bad[1:6]],
                       failed_obligations=refuted[:20],
                       how='python3-vt /verif/check.py --replay <this file> evaluates the case again on the real package'),
                  open(replay, 'w'), indent=1, default=str)
        print('  failing input: ' + msg[:1500])
        for o in refuted[:10]:
            print(f'  refuted: {o["unit"]}: {o["name"]}')
        print(f'VIOLATION property={pid} replay={HERE}/{replay}')
        return 1
    if refuted:
        json.dump(dict(property=pid, message='obligation refuted by the verifier; no concrete failing input found', failed_obligations=refuted[:20]),
                  open(replay, 'w'), indent=1, default=str)
        for o in refuted[:10]:
            print(f'  refuted: {o["unit"]}: {o["name"]} :: {o["detail"][:300]}')
        print(f'VIOLATION property={pid} replay={HERE}/{replay} no-failing-input-found')
        return 1
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
