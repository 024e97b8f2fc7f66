"""Proof of cimread against the reader specification (C06-C10)."""
import os, time, traceback
from .interp import Explorer, Interp, Unsupported, PyRaise, certain
from . import rdrworld as R, src

ARGS = ['explicit', 'CIM14', 'CIM15', 'CIM16', 'other', 'none']
FULL = {'class by ID', 'class by about', 'unknown class', 'property of no object', 'property the class does not have', 'boolean', 'integer', 'float',
        'string', 'empty string', 'enumeration', 'enumeration, unset before', 'reference to no object', 'to-one reference',
        'to-one reference already set', 'to-many reference'}
# which property of the specification each case belongs to
BELONGS = {
    'class by ID': ['C06', 'C09'], 'class by about': ['C06', 'C09'], 'about-known': ['C06'],
    'unknown class': ['C06', 'C10'], 'property of no object': ['C10'], 'property the class does not have': ['C07', 'C10'],
    'boolean': ['C07'], 'integer': ['C07'], 'float': ['C07'], 'string': ['C07'], 'empty string': ['C07'], 'enumeration': ['C07'],
    'enumeration, unset before': ['C07'],
    'reference to no object': ['C08', 'C10'], 'to-one reference': ['C08'], 'to-one reference already set': ['C08'], 'to-many reference': ['C08'],
}
ALL = ['C06', 'C07', 'C08', 'C09', 'C10']
GENERAL = {
    'no exception escapes': ALL, 'nothing else changes the model': ALL, 'the map returned is the one filled': ['C06', 'C09'],
    'both passes read the whole document': ALL, 'a stream is at its start when it is parsed': ['C09'], 'no state is kept between reads': ['C09'],
    'the class map given is not modified': ['C09'], 'giving only one of class map and namespace raises ValueError': ['C09'],
}


def cases():
    out = [R.Case(s, d, a, r) for s in ('path', 'stream') for d in (False, True) for a in ARGS for r in (True, False)]
    out += [R.Case('path', d, a, True) for d in (False, True) for a in ('only packageMap', 'only nsURI')]
    return out


def explore(case, site, roles):
    import PyCIM.RDFXMLReader as M
    stats = dict(covered={}, sites=set(), new=set(), states=0, paths=0)
    seen = {}
    fails, und, failing = {}, {}, {}
    err = case.args.startswith('only')
    ex = Explorer(lambda pc: True, limit=60000)

    def thunk(ex):
        w = R.RdrWorld(case, site, roles, seen, stats)
        ip = Interp(ex, w)
        try:
            r = ip.call_real(M.cimread, [w.src], dict(w.kw))
        except PyRaise as e:
            if err and e.cls() is ValueError:
                if w.effects:
                    raise R.Mismatch('giving only one of class map and namespace raises ValueError', 'the start dictionary is changed')
                stats['covered']['ValueError'] = 1
                return None
            raise R.Mismatch('no exception escapes', '%s, at %s' % (e, where(ip, w)))
        if err:
            raise R.Mismatch('giving only one of class map and namespace raises ValueError', 'the call returns')
        w.settle(ip)
        ps = {s.role: s for s in w.streams if s.role}
        for p in ('P1', 'P2'):
            if p not in ps or not ps[p].exhausted:
                raise R.Mismatch('both passes read the whole document', 'pass %s %s' % (p[1], 'stops before the end of the document' if p in ps else 'is missing'))
        if any(s.role == 'P3' for s in w.streams):
            raise Unsupported('more than two passes over the elements')
        if w.d is None:
            if not (isinstance(r, R.SMap) and r.kind == 'own' and r.base == 'empty' and not r.chain):
                raise R.Mismatch('the map returned is the one filled', 'nothing was read, yet the result is not an empty map')
        elif r is not w.d:
            raise R.Mismatch('the map returned is the one filled', 'another value is returned')
        stats['covered']['return'] = stats['covered'].get('return', 0) + 1
        return None

    def guarded(ex):
        try:
            return thunk(ex)
        except Unsupported as e:
            # this path is not decided; the others still are
            und.setdefault(str(e), 0)
            und[str(e)] += 1
            if isinstance(e, R.Limit) or len(und) > 12 or sum(und.values()) > 200:
                raise
            return None
        except R.Mismatch as m:
            fails.setdefault(m.ob, m.detail)
            l = failing.setdefault(m.ob, [])
            if len(l) < 4000:
                l.append((tuple(ex.taken), tuple(ex.meta)))
            if len(fails) >= 6 or sum(1 for _ in fails) and stats['paths'] > 20000:
                raise
            return None
    status = 'proved'
    why = ''
    complete = False
    t = time.time()
    try:
        for _ in ex.run(guarded):
            stats['paths'] += 1
            if time.time() - t > 120:
                raise R.Limit('time limit')
        complete = not und
    except R.Mismatch:
        pass
    except Unsupported as e:
        status, why = 'undecided', str(e)
    except RecursionError:
        status, why = 'undecided', 'recursion'
    stats['paths'] = ex.paths
    if und and not why:
        status, why = 'undecided', '; '.join(list(und)[:4])
    if fails:
        status = 'failed'
    stats['new'] = sorted(x for x in stats['new'] if x)
    stats['sites'] = sorted(x for x in stats['sites'] if x)
    stats['time'] = time.time() - t
    complete = complete and not und
    sure = {ob for ob, l in failing.items() if ob != 'no state is kept between reads' and certain(l)}
    return dict(sure=sure, status=status, why=why, fails=fails, stats=stats, complete=complete)


def where(ip, w):
    return 'a path with %d decisions' % len(ip.ex.taken)


def job(args):
    i, = args
    case = cases()[i]
    best = None
    tried = []
    try:
        for roles in ('filter', 'order'):
            sites = [None]
            k = 0
            while k < len(sites):
                site = sites[k]
                k += 1
                r = explore(case, site, roles)
                if not case.start and site is None and not case.args.startswith('only') and case.args != 'none':
                    # the map that objects are stored in is the candidate for the result
                    sites += [tuple(x) for x in r['stats']['new'] or r['stats']['sites']]
                    if len(sites) > 1:
                        continue
                tried.append(r)
                if r['status'] == 'proved':
                    return i, r
                if case.start or case.args.startswith('only'):
                    break
    except Exception:
        return i, dict(status='undecided', why=traceback.format_exc()[-2500:], fails={}, sure=set(), complete=False, stats=dict(covered={}, sites=[], new=[], states=0, paths=0, time=0))
    # the most informative attempt
    tried.sort(key=lambda r: (r['status'] != 'undecided', len(r['fails'])))
    if tried[0]['status'] == 'undecided':
        return i, tried[0]
    return i, max(tried, key=lambda r: (len(r['stats']['covered']), -len(r['fails'])))


_res = {}


def prove():
    if 'r' not in _res:
        import multiprocessing as mp
        n = len(cases())
        with mp.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as p:
            _res['r'] = p.map(job, [(i,) for i in range(n)], chunksize=1)
    return _res['r']


if __name__ == '__main__':
    import sys
    i = int(sys.argv[1])
    c = cases()[i]
    print(c)
    print(job((i,)))
