#!/usr/bin/env python3-vt
"""check.py <property> [--replay FILE]

Decides one property of properties.jsonl on /repo's current working tree:
  1. PyVC generates and discharges the proof obligations of every function under
     contract that the property depends on (pyvc/);
  2. the concrete harness (harness/) runs the real code, to replay failed
     obligations on real inputs and to cross-check the verifier;
  3. the evidence file is written.
Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import sys, os, json, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'harness')]
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
import logging
logging.disable(logging.CRITICAL)


def harness(prop):
    """(search function, replay function) of the concrete side."""
    import accessors, ctors, tables, reader, writer, xmlw
    if prop in ('C01', 'C02', 'C03'):
        return lambda tier, seed: accessors.search(prop, tier, seed), accessors.replay
    if prop == 'C04':
        return ctors.search, ctors.replay
    if prop == 'C05':
        return lambda tier, seed: tables.search(), tables.replay
    if prop in ('C06', 'C07', 'C08', 'C09', 'C10'):
        return lambda tier, seed: reader.search(prop, tier, seed), reader.replay
    m = writer if prop in ('C12', 'C13') else xmlw
    return lambda tier, seed: m.search(prop, tier, seed), lambda v: m.replay(prop, v)


def known_findings(prop):
    """Concrete reproductions of the recorded findings: lines to print."""
    import known
    return known.run(prop)


def main():
    prop = sys.argv[1]
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            v = json.load(f)
        r = harness(prop)[1](v['input']) if v.get('input') else None
        print('reproduced: %s\n%s' % tuple(r) if r else 'not reproduced')
        return 1 if r else 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    out = os.path.join(HERE, 'out')
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(out, f))

    from pyvc import prove, budget
    budget.start(tier)
    res = prove.run(prop, tier)
    t1 = time.time()
    try:
        n, viol = res.cached if hasattr(res, 'cached') else harness(prop)[0](tier, seed)
    except Exception:
        import accessors
        n, viol = 0, []
        imp = traceback.format_exc()
        # the real code cannot even be loaded: report it as what it is
        bad = import_failure()
        if bad is None:
            raise
        viol = [dict(msg=bad, text=imp, key='import')]
    t2 = time.time()
    if any(o.status != 'proved' for o in res.obligations) and not viol:
        # obligations not discharged and the small scope shows nothing: search directed and deeper
        nn, viol = prove.directed(prop, res, tier, seed, harness(prop)[0])
        n += nn
    findings = known_findings(prop)
    nviol = 0
    for i, v in enumerate(viol[:5]):
        p = os.path.join(out, '%s-%d.json' % (prop, i))
        failed = [o.brief() for o in res.obligations if o.status == 'failed'][:20]
        with open(p, 'w') as f:
            json.dump(dict(property=prop, input=v, message=v['msg'], shown=v['text'], failed_obligations=failed,
                           replay='python3-vt check.py %s --replay %s' % (prop, p)), f, indent=1, default=str)
        print('%s: %s\n    %s' % (prop, v['msg'], str(v['text'])[:800].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        nviol += 1
    if not viol:
        bad = [o for o in res.obligations if o.status == 'failed' and o.definite]
        for i, o in enumerate(bad[:5]):
            p = os.path.join(out, '%s-ob%d.json' % (prop, i))
            with open(p, 'w') as f:
                json.dump(dict(property=prop, input=None, obligation=o.brief(), verifier_output=o.detail), f, indent=1, default=str)
            print('%s: obligation not discharged: %s' % (prop, o.brief()))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
            nviol += 1
    for l in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, l))
    obs = res.obligations
    done = [o for o in obs if o.status == 'proved']
    undecided = [o for o in obs if o.status not in ('proved', 'failed')]
    cnt = lambda l: sum(o.count for o in l)
    if not obs and res.level == 'proof':
        print('%s: no obligation was generated' % prop)
        return 2
    ev = dict(property=prop, tier=tier, seed=seed, level=res.level, wall_s=round(time.time() - t0, 1), violations=nviol,
              assumptions=res.assumptions,
              coverage=dict(
                  obligations=cnt(obs), discharged=cnt(done),
                  undecided=[o.brief() for o in undecided][:30], undecided_count=len(undecided),
                  failed=[o.brief() for o in obs if o.status == 'failed'][:30],
                  checker_cmd='python3-vt check.py %s  (PyVC: obligations from the AST of the functions in /repo, discharged by z3 %s or by evaluation, see by_backend)' % (prop, z3v()),
                  trusted_base=res.trusted, functions_under_contract=len(res.functions), functions=res.functions[:40], by_backend=res.backends(),
                  solver_s=round(res.solver if res.solver is not None else sum(o.time for o in obs), 2), solver_queries=res.queries, proof_wall_s=round(t1 - t0, 1),
                  vacuity=res.vacuity, bounded=dict(what=res.bounded, evaluations=n, wall_s=round(t2 - t1, 1)),
                  samples=[o.brief() for o in obs[:3]], known_findings=findings))
    if res.level != 'proof':
        ev['coverage'].update(explanation=res.explanation, evaluations=n, distinct_nontrivial=n, rule=res.bounded,
                              samples=['harness/ search for %s, tier %s, seed %d' % (prop, tier, seed)])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d failed; %d concrete executions; %.1f s' % (
        prop, cnt(obs), cnt(done), len(undecided), cnt(obs) - cnt(done) - len(undecided), n, time.time() - t0))
    return 1 if nviol else 0


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def import_failure():
    """A class of the published class maps that cannot be imported, or None."""
    import model, importlib
    try:
        importlib.import_module('PyCIM.RDFXMLReader'), importlib.import_module('PyCIM.RDFXMLWriter'), importlib.import_module('PyCIM.PrettyPrintXML')
        for p in model.PROFILES:
            importlib.import_module(p)
        for k in model.CLASSES:
            model.cls(k)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    return None


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
