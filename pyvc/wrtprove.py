"""Proof of cimwrite (C12), class by class."""
import time, os, traceback
from .interp import soft_path, Explorer, Unsupported, PyRaise, PathEnd
from .wrtworld import *
from . import wrtworld as W
from . import src

RDFNS = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'
ONE = 'one element of its class with its UUID for each object'
REST = 'nothing else is written'
FRAME = 'the document is one RDF element declaring both namespaces'
NOFAIL = 'never fails'
KEEP = 'objects and map are not modified'


class Bad(Exception):
    def __init__(s, ob, detail, definite): s.ob, s.detail, s.definite = ob, detail, definite


def pick(v, a):
    while isinstance(v, Ite):
        for g, x in v.cases:
            if holds(g, a):
                v = x
                break
        else:
            raise Unsupported('no case applies')
    return v


def vsupport(v, out):
    if isinstance(v, Ite):
        for g, x in v.cases:
            support(g, out)
            vsupport(x, out)
    return out


def canon(w, v, a):
    """String parts, with values the state determines filled in."""
    v = pick(v, a)
    out = []
    for p in parts_of(v):
        if isinstance(p, Atom) and p.owner.kind.startswith('value of '):
            f = p.owner.kind[9:]
            st = a.get(f)
            kind, k, x = w.attrs[f]
            if isinstance(st, tuple) and isinstance(st[1], str):
                p = st[1]
            elif st == 'd' and x[1] == 'str':
                p = x[2]
        out.append(p)
    return norm(out)


def has_fn(parts):
    return any(isinstance(p, Fn) for p in parts)


def show_state(a):
    return ', '.join('%s %s' % (f, {'d': 'at its default', 'o': 'set to some value', 'none': 'is None', 'object': 'holds an object'}.get(s, s if not isinstance(s, tuple) else '= %r' % (s[1],)))
                     for f, s in sorted(a.items(), key=repr)) or 'any object'


class Check:
    def __init__(c, w, key):
        c.w, c.m, c.key = w, w.m, key
        c.uri = c.m.PROFILES[w.version]['nsURI'] + '#'

    def bad(c, ob, a, what, definite=True):
        if any(isinstance(f, str) and f.startswith('unknown: ') for f in a):
            definite = False
        raise Bad(ob, '%s (%s)' % (what, show_state(a)), definite)

    def each(c, *gs, extra=()):
        for a in c.w.assignments(c.w.path, *gs, extra=extra):
            if holds(c.w.path, a) and all(holds(g, a) for g in gs):
                yield a

    def always(c, g): return not any(True for a in c.each(NOT(g)))
    def ever(c, g): return next(c.each(g), None)

    def blank(c, ob, g, text):
        """Text between elements is white space."""
        if isinstance(text, str) and not text.strip():
            return
        a = c.ever(g)
        if a is not None:
            c.bad(ob, a, 'text between elements', isinstance(text, str))

    def name(c, tag, ns, ob, a):
        p, _, l = tag.rpartition(':')
        if p and p not in ns:
            c.bad(ob, a, 'undeclared prefix in %s' % tag)
        return '{%s}%s' % (ns[p], l) if p else '{%s}%s' % (ns[''], l) if '' in ns else l

    def attrs(c, n, ns, ob, a, skip=False):
        out = {}
        for k, v in n.attrs.items():
            if skip and (k == 'xmlns' or k.startswith('xmlns:')):
                continue
            if k == 'xmlns' or k.startswith('xmlns:'):
                raise Unsupported('namespace declared in an inner element')
            p, _, l = k.rpartition(':')
            if p and p not in ns:
                c.bad(ob, a, 'undeclared prefix in %s' % k)
            out['{%s}%s' % (ns[p], l) if p else l] = canon(c.w, v, a)
        return out

    def document(c):
        w = c.w
        if w.open:
            c.bad(FRAME, {}, 'an element is not ended')
        top = [e for e in w.top if not (isinstance(e, tuple) and e[0] == 'flush')]
        root = None
        for i, e in enumerate(top):
            if isinstance(e, tuple) and e[0] == 'declaration':
                a = c.ever(e[1])
                if i and a is not None:
                    c.bad(FRAME, a, 'an XML declaration in the document')
            elif isinstance(e, Node):
                if root is not None or not c.always(e.g):
                    c.bad(FRAME, {}, 'more than one root element or none')
                root = e
            elif e[0] == 'loop':
                c.loop(e, None)
            elif e[0] == 'data':
                c.blank(FRAME, e[1], e[2])
                if root is None:
                    c.bad(FRAME, {}, 'text before the root element', False)
        if root is None:
            c.bad(FRAME, {}, 'no root element')
        if not any(isinstance(e, tuple) and e[0] == 'declaration' and c.always(e[1]) for e in top):
            c.bad(FRAME, {}, 'no XML declaration', False)
        ns = {}
        for k, v in root.attrs.items():
            if k == 'xmlns' or k.startswith('xmlns:'):
                ns[k[6:]] = v
        for p, v in ns.items():
            if not isinstance(v, str):
                raise Unsupported('namespace URI')
            if not v:
                c.bad(FRAME, {}, 'empty namespace')
        if not isinstance(root.tag, str):
            raise Unsupported('tag of the root')
        if c.name(root.tag, ns, FRAME, {}) != '{%s}RDF' % RDFNS:
            c.bad(FRAME, {}, 'the root element is %s' % root.tag)
        if c.attrs(root, ns, FRAME, {}, True):
            c.bad(FRAME, {}, 'attributes of the root element')
        uri = c.uri if not w.empty else c.m.PROFILES['CIM15']['nsURI'] + '#'
        if c.m.PROFILES and uri not in ns.values():
            c.bad(FRAME, {}, 'the CIM namespace declared is not %s: %s' % (uri, sorted(map(str, ns.values()))))
        objs = []
        for e in root.kids:
            if isinstance(e, Node):
                a = c.ever(e.g)
                if a is not None:
                    c.bad(REST, a, 'element %r that belongs to no object' % (e.tag,))
            elif e[0] == 'data':
                c.blank(REST, e[1], e[2])
            elif e[0] == 'loop':
                objs += c.loop(e, ns)
            elif e[0] == 'declaration':
                c.bad(FRAME, {}, 'an XML declaration in the document')
        if w.empty:
            return
        objs = [n for n in objs if c.ever(n.g) is not None]
        if len(objs) != 1 or not c.always(objs[0].g):
            a = {}
            if objs:
                a = c.ever(NOT(OR(*[n.g for n in objs]))) or {}
            c.bad(ONE, a, '%d elements written' % len(objs), len(objs) == 0 or bool(a))
        c.object(objs[0], ns)

    def loop(c, e, ns):
        kind, body = e[1], e[2]
        out = []
        for x in body:
            if isinstance(x, tuple) and x[0] == 'data':
                c.blank(REST, x[1], x[2])
            elif isinstance(x, tuple) and x[0] == 'declaration':
                c.bad(FRAME, {}, 'an XML declaration in the document')
            elif isinstance(x, Node):
                if ns is None:
                    c.bad(FRAME, {}, 'objects outside the root element')
                if kind != 'done':
                    c.bad(ONE, {}, 'the loop over the map is left after an object')
                out.append(x)
        return out

    def props(c):
        """Expected property elements: name -> (guard, text, attributes, obligation)."""
        w, m = c.w, c.m
        out = {}
        for k in m.mro(c.key):
            cn = k.rpartition('.')[2]
            if cn == 'Element':
                continue
            for n, typ, dflt, en in m.CLASSES[k]['attrs']:
                tag = '{%s}%s.%s' % (c.uri, cn, n)
                if en:
                    out[tag] = (NOT(w.st(n, 'none')), '', {'{%s}resource' % RDFNS: norm([c.uri + en + '.', w.text(n)])}, 'enumeration', n)
                else:
                    out[tag] = (NOT(w.const(n, dflt)), norm([w.text(n)]), {}, 'attribute', n)
            for r, many, t, inv in m.CLASSES[k]['refs']:
                if many:
                    continue
                tag = '{%s}%s.%s' % (c.uri, cn, r)
                st = r
                g = NOT(w.st(r, 'none')) if r in w.states else None
                if r in m.views(c.key):
                    st = 'PerLengthImpedance'
                    g = {'SequenceImpedance': w.st(st, 'seq'), 'PhaseImpedance': w.st(st, 'phase')}.get(r, w.st(st, 'seq', 'phase'))
                out[tag] = (g, '', {'{%s}resource' % RDFNS: norm(['#', w.atom('target UUID of ' + st)])}, 'reference', st)
        return out

    def object(c, o, ns):
        w = c.w
        for tag, a in c.tags(o):
            if c.name(tag, ns, ONE, a) != '{%s}%s' % (c.uri, c.key.rpartition('.')[2]):
                c.bad(ONE, a, 'the element is %s' % tag)
        sup = set()
        for v in o.attrs.values():
            vsupport(v, sup)
        for a in c.each(extra=sup | {'UUID'}):
            if c.attrs(o, ns, ONE, a) != {'{%s}ID' % RDFNS: canon(w, SStr((w.text('UUID'),)), a)}:
                c.bad(ONE, a, 'attributes of the element: %s' % {k: W.show(v) for k, v in c.attrs(o, ns, ONE, a).items()})
        props = c.props()
        by = {t: [] for t in props}
        for e in o.kids:
            if isinstance(e, Node):
                for tag, a in c.tags(e):
                    t = c.name(tag, ns, REST, a)
                    if t not in by:
                        if c.ever(e.g) is not None:
                            c.bad(REST, c.ever(e.g), 'property element %s' % tag)
                        continue
                    by[t].append(e)
            elif e[0] == 'data':
                c.blank(REST, e[1], e[2])
            elif e[0] == 'loop':
                raise Unsupported('a loop over the map within an element')
        for t, es in by.items():
            g, text, attrs, kind, f = props[t]
            ob = '%s %s is written exactly when set, with its value' % (kind, t.split('}')[1])
            sup = {f}
            for e in es:
                support(e.g, sup)
                for v in e.attrs.values():
                    vsupport(v, sup)
                for k in e.kids:
                    if isinstance(k, Node):
                        a = c.ever(k.g)
                        if a is not None:
                            c.bad(REST, a, 'an element within %s' % t)
                    elif k[0] == 'data':
                        support(k[1], sup)
                        vsupport(k[2], sup)
                    else:
                        raise Unsupported('%s within a property' % k[0])
            for a in c.each(g if g is not None else True, extra=sup):
                on = [e for e in es if holds(e.g, a)]
                if len(on) != 1:
                    c.bad(ob, a, 'written %d times' % len(on))
                e = on[0]
                tx = ()
                for k in e.kids:
                    if not isinstance(k, Node) and holds(k[1], a):
                        tx += canon(w, k[2], a)
                want = norm([text]) if isinstance(text, str) else canon(w, SStr(text), a)
                tx = norm(tx)
                if tx != want:
                    c.bad(ob, a, 'its text is %s' % W.show(tx), not has_fn(tx))
                at = c.attrs(e, ns, ob, a)
                wa = {k: canon(w, SStr(v), a) for k, v in attrs.items()}
                if at != wa:
                    c.bad(ob, a, 'its attributes are %s' % {k: W.show(v) for k, v in at.items()}, not any(has_fn(v) for v in at.values()))
            for a in c.each(NOT(g), extra=sup):
                if any(holds(e.g, a) for e in es):
                    c.bad(ob, a, 'written although not set')
        c.count = len(props)

    def tags(c, n):
        if isinstance(n.tag, str):
            return [(n.tag, {})]
        raise Unsupported('computed tag')


def check_class(m, key, learn, fails, und, stats):
    from PyCIM.RDFXMLWriter import cimwrite
    K = m.cls(key)
    consts = {}
    end = time.time() + 6
    for empty in (False, True):
        for tries in range(60):
            got, un, n, reached = {}, [], 0, 0
            try:
                ex = Explorer(lambda pc: True, limit=400)

                def note(ob, d):
                    if ob not in got or d[1] and not got[ob][1]:
                        got[ob] = d

                def thunk(ex):
                    nonlocal n, reached
                    if time.time() > end:
                        raise Unsupported('time')
                    w = WrtWorld(m, key, K, learn, empty, consts)
                    ip = WrtInterp(ex, w)
                    try:
                        dflt = empty and ex.choose(2)
                        ip.call_real(cimwrite, [w.d, w.source] + ([] if dflt else [w.encoding]), {})
                        if w.writer is None:
                            raise Mismatch(FRAME, 'nothing is written', False)
                        c = Check(w, key)
                        c.document()
                        reached += 1
                        n = max(n, getattr(c, 'count', 0))
                    except PyRaise as e:
                        a = next((a for a in w.assignments(w.path) if holds(w.path, a)), None)
                        if a is not None:
                            note(NOFAIL, ('%s (%s)' % (e, show_state(a)), not soft_path(ex) and not any(str(f).startswith('unknown: ') for f in a)))
                    except Mismatch as e:
                        note(e.ob, (e.detail, e.definite and not soft_path(ex) and not any(str(f).startswith('unknown: ') for f in support(w.now(), set()))))
                    except Bad as e:
                        note(e.ob, (e.detail, e.definite and not soft_path(ex)))
                for _ in ex.run(thunk):
                    pass
            except Restart:
                continue
            except (Unsupported, RecursionError) as e:
                un.append(str(e) or type(e).__name__)
            break
        else:
            un.append('no fixed point of the loops over the map')
        fails.update({k: v for k, v in got.items() if k not in fails})
        und += un
        stats['paths'] += ex.paths
        stats['reached'] += reached
        stats['props'] = max(stats['props'], n)


def job(a):
    import model as m, logging, copy
    logging.disable(logging.CRITICAL)
    ks, learn = a
    out = []
    hard = 0
    for k in ks:
        fails, und, st = {}, [], dict(paths=0, reached=0, props=0)
        t = time.time()
        if hard > 2:
            out.append(dict(key=k, fails=fails, und=['not attempted: similar classes are undecided'], time=0.0, **st))
            continue
        try:
            check_class(m, k, learn, fails, und, st)
        except Exception:
            und.append(traceback.format_exc()[-900:])
        hard += time.time() - t > 5
        out.append(dict(key=k, fails=fails, und=und, time=time.time() - t, **st))
    return out, learn


def merge(a, b):
    for k, L in b.items():
        M = a.setdefault(k, dict(head={}, exits=[]))
        for v, vals in L['head'].items():
            if v not in M['head'] or isinstance(vals, str):
                M['head'][v] = vals
            elif not isinstance(M['head'][v], str):
                M['head'][v] += [x for x in vals if x not in M['head'][v]]
                if len(M['head'][v]) > 4:
                    M['head'][v] = 'any'
        M['exits'] += [x for x in L['exits'] if x not in M['exits']]


def same(a, b):
    key = lambda d: {k: (L['head'] if 0 else {v: x if isinstance(x, str) else sorted(map(repr, x)) for v, x in L['head'].items()}, sorted(map(repr, L['exits']))) for k, L in d.items()}
    return key(a) == key(b)


def prove(only=None):
    import model as m, multiprocessing as mp, copy
    m.preload()
    ks = sorted(only or [k for k in m.CLASSES])
    learn = {}
    for v in sorted({m.version(k) for k in ks}):
        job(([next(k for k in ks if m.version(k) == v)], learn))
    chunks = [c for c in (ks[i::48] for i in range(48)) if c]
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as p:
        for _ in range(4):
            rs = p.map(job, [(c, learn) for c in chunks], chunksize=1)
            new = copy.deepcopy(learn)
            for out, l in rs:
                merge(new, l)
            if all(same(l, new) for out, l in rs):
                break
            learn = new
        else:
            rs[0][0][0]['und'].append('no fixed point of the loops over the map over all classes')
    return sorted((r for out, l in rs for r in out), key=lambda r: r['key'])

