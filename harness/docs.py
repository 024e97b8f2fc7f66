"""CIM RDF/XML documents as data, their rendering, and an independent oracle for
the result of reading them (C06-C10, C13)."""
import io, os, random, tempfile
from xml.sax.saxutils import escape, quoteattr
import model, mine

RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'


class El:
    """One identified element: ns 'cim' or other; idk 'ID' or 'about'."""
    __slots__ = ('cls', 'idk', 'id', 'kids', 'ns')

    def __init__(s, cls, id, kids=None, idk='ID', ns='cim'):
        s.cls, s.id, s.kids, s.idk, s.ns = cls, id, kids if kids is not None else [], idk, ns

    def copy(s):
        return El(s.cls, s.id, list(s.kids), s.idk, s.ns)

    def data(s):
        return [s.cls, s.id, [list(k) for k in s.kids], s.idk, s.ns]


# kids: ('text', name, text) ('ref', name, id) ('enum', name, type, literal) with name = Class.attr
#       ('ftext', name, text) / ('fref', name, res) the same in a foreign namespace

def render(els, cim, opts=None):
    o = dict(rdf='rdf', cim='cim', decl=True, hash='#', rdfns=RDF, nl='\n', extra=True, declare_rdf=True, wrap='RDF')
    o.update(opts or {})
    r, c = o['rdf'], o['cim']
    w = []
    if o['decl']:
        w.append('<?xml version="1.0" encoding="utf-8"?>\n')
    w.append('<%s:%s xmlns:%s="%s"' % (r, o['wrap'], r, o['rdfns']))
    if c is not None:
        w.append(' xmlns:%s="%s%s"' % (c, cim, o['hash']))
    w.append(' xmlns:ext="http://example.com/ext#">' + o['nl'])
    for e in els:
        p = c if e.ns == 'cim' else 'ext'
        idv = e.id if e.idk == 'ID' else '#' + e.id
        w.append('<%s:%s %s:%s=%s' % (p, e.cls, r, e.idk, quoteattr(idv)))
        if not e.kids and (len(e.id) % 2):
            w.append('/>' + o['nl'])
            continue
        w.append('>' + o['nl'])
        for k in e.kids:
            if k[0] in ('text', 'ftext'):
                q = c if k[0] == 'text' else 'ext'
                if k[2] == '':
                    w.append('<%s:%s/>' % (q, k[1]))
                elif k[2].startswith('<![CDATA['):
                    w.append('<%s:%s>%s</%s:%s>' % (q, k[1], k[2], q, k[1]))
                else:
                    w.append('<%s:%s>%s</%s:%s>' % (q, k[1], escape(k[2]), q, k[1]))
            elif k[0] in ('ref', 'fref'):
                w.append('<%s:%s %s:resource=%s/>' % (c if k[0] == 'ref' else 'ext', k[1], r, quoteattr('#' + k[2])))
            else:
                w.append('<%s:%s %s:resource=%s/>' % (c, k[1], r, quoteattr('%s%s%s.%s' % (cim, o['hash'], k[2], k[3]))))
            w.append(o['nl'])
        w.append('</%s:%s>' % (p, e.cls) + o['nl'])
    w.append('</%s:%s>' % (r, o['wrap']))
    return ''.join(w)


# ---------------------------------------------------------------- the oracle
class Spec:
    """Expected state of one object."""
    __slots__ = ('key', 'attrs', 'refs')

    def __init__(s, key):
        s.key = key
        s.attrs = {n: a[2] for n, (dk, a) in model.all_attrs(key).items()}
        s.refs = {n: ([] if r[1] else None) for n, (dk, r) in model.all_refs(key).items()}


def convert(typ, text):
    if typ == 'bool':
        return text.lower() == 'true'
    if typ == 'int':
        return int(text)
    if typ == 'float':
        return float(text)
    return text


def strip_cdata(t):
    return t[9:-3] if t.startswith('<![CDATA[') else t


def expected(els, pmap, start=None):
    """Map id -> Spec by the statements of C06, C07, C08, C10 (consistent documents)."""
    d = dict(start or {})
    for e in els:
        if e.ns != 'cim' or e.cls not in pmap:
            continue
        if e.idk == 'about' and e.id in d:
            continue
        d[e.id] = Spec(pmap[e.cls] + '.' + e.cls)
        d[e.id].attrs['UUID'] = e.id
    for e in els:
        if e.ns != 'cim' or e.id not in d:
            continue
        s = d[e.id]
        attrs, refs = model.all_attrs(s.key), model.all_refs(s.key)
        for k in e.kids:
            if k[0][0] == 'f':
                continue
            n = k[1].rsplit('.')[-1]
            if k[0] == 'text' and n in attrs:
                s.attrs[n] = convert(attrs[n][1][1], strip_cdata(k[2]))
            elif k[0] == 'enum' and n in attrs:
                s.attrs[n] = k[3]
            elif k[0] == 'ref' and n in refs and k[2] in d:
                link(d, e.id, n, k[2])
    return d


def link(d, i, n, j):
    r = model.all_refs(d[i].key)[n][1]
    if r[1]:
        if j not in d[i].refs[n]:
            d[i].refs[n].append(j)
    else:
        if d[i].refs[n] is not None:
            return
        d[i].refs[n] = j
        if n in model.views(d[i].key):
            d[i].refs['PerLengthImpedance'] = j
            d[i].refs['SequenceImpedance' if d[j].key.endswith('SequenceImpedance') else 'PhaseImpedance'] = j
    inv = r[3]
    if inv is None:
        return
    q = model.all_refs(d[j].key)[inv][1]
    if q[1]:
        if i not in d[j].refs[inv]:
            d[j].refs[inv].append(i)
    else:
        d[j].refs[inv] = i
        if inv in model.views(d[j].key):
            d[j].refs['PerLengthImpedance'] = i
            d[j].refs['SequenceImpedance' if d[i].key.endswith('SequenceImpedance') else 'PhaseImpedance'] = i


def compare(got, want, parts=('ids', 'attrs', 'refs'), same=None):
    """None or a message.  got: map of real objects; want: map of Spec."""
    if 'ids' in parts:
        if set(got) != set(want):
            return 'identifiers: unexpected %s, missing %s' % (sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4])
        for i, s in want.items():
            if type(got[i]) is not model.cls(s.key):
                return 'object %s is a %s.%s, expected %s' % (i, type(got[i]).__module__, type(got[i]).__name__, s.key)
            if got[i].UUID != s.attrs['UUID']:
                return 'object %s has UUID %r' % (i, got[i].UUID)
    if 'attrs' in parts:
        for i, s in want.items():
            for n, v in s.attrs.items():
                if i not in got:
                    return 'object %s is missing' % i
                g = getattr(got[i], n, '<missing>')
                if g != v and not (g != g and v != v) or type(g) is not type(v):
                    return '%s %s.%s is %r, expected %r' % (s.key.rpartition('.')[2], i, n, g, v)
    if 'refs' in parts:
        if set(want) - set(got):
            return 'missing objects %s' % sorted(set(want) - set(got))[:4]
        for i, s in want.items():
            for n, v in s.refs.items():
                if model.clash(s.key, n):
                    continue
                g = getattr(got[i], n)
                if isinstance(v, list):
                    ok = isinstance(g, (list, tuple)) and sorted(map(id, g)) == sorted(id(got[j]) for j in v)
                else:
                    ok = g is (None if v is None else got[v])
                if not ok:
                    names = {id(o): k for k, o in got.items()}
                    sg = [names.get(id(x), '?') for x in g] if isinstance(g, (list, tuple)) else names.get(id(g), repr(g))
                    return '%s %s.%s is %s, expected %s' % (s.key.rpartition('.')[2], i, n, sg, v)
    return None


def read(text, form='bytes', **kw):
    from PyCIM.RDFXMLReader import cimread
    if form == 'bytes':
        return cimread(io.BytesIO(text.encode('utf-8')), **kw)
    if form == 'text':
        return cimread(io.StringIO(text), **kw)
    fd, p = tempfile.mkstemp(suffix='.xml')
    try:
        with os.fdopen(fd, 'wb') as f:
            f.write(text.encode('utf-8'))
        if form == 'path':
            return cimread(p, **kw)
        with open(p, 'rb') as f:
            return cimread(f, **kw)
    finally:
        os.unlink(p)


# -------------------------------------------------------------- generators
def profile_classes(p):
    """class name -> key, for the classes of one class map that the schema knows."""
    out = {}
    for n, m in model.PROFILES[p]['packageMap'].items():
        k = m + '.' + n
        if k in model.CLASSES:
            out[n] = k
    return out


_prefs = {}


def profile_refs(p):
    """References usable inside one profile: (Ref, holder keys, target keys)."""
    if p in _prefs:
        return _prefs[p]
    pc = profile_classes(p)
    keys = set(pc.values())
    out = []
    for r in model.refs():
        if r.key not in keys:
            continue
        ts = [t for t in model.targets(r.target) if t in keys]
        if not ts:
            continue
        hs = [k for k in model.subclasses(r.key) if k in keys and not model.clash(k, r.name)]
        tt = [k for t in ts for k in model.subclasses(t) if k in keys and not (r.inv and model.clash(k, r.inv))]
        if r.name in model.views(r.key):
            hs = [r.key]
            tt = ts
        if hs and tt:
            out.append((r, hs, tt))
    _prefs[p] = out
    return out


TEXTS = ['v', 'hello world', 'a < b & c > "d"', "it's", 'Ärger €', '日本', '1', 'True', '#x', '<![CDATA[1 < 2]]>', '  two  ', 'None', 'x' * 40, '\U0001f600']


def value(rng, typ):
    m = mine.package()
    if mine.lucky(rng, .1):
        if typ == 'str':
            return rng.choice(m.texts)
        if typ == 'int' and m.nums:
            return str(rng.choice(m.nums))
        if typ == 'float' and m.fnums:
            return repr(rng.choice(m.fnums))
    if typ == 'str':
        return rng.choice(TEXTS + [''])
    if typ == 'int':
        return rng.choice(['0', '1', '-7', '42', '123456789012', ' 5 '])
    if typ == 'float':
        return rng.choice(['0', '1.5', '-2.25', '1e3', '0.1', '-1E-7', '3', ' 2.5 ', 'inf'])
    return rng.choice(['true', 'false', 'True', 'FALSE', 'TRUE', 'fAlSe', 'tRUE'])


def attr_kids(rng, key, p=.5, fixed=None):
    out = []
    for n, (dk, a) in model.all_attrs(key).items():
        if n == 'UUID' or rng.random() > p:
            continue
        cn = dk.rpartition('.')[2]
        if a[3]:
            lits = enum_literals(key, a[3])
            out.append(('enum', cn + '.' + n, a[3], rng.choice(lits)))
        else:
            out.append(('text', cn + '.' + n, value(rng, a[1])))
    return out


def enum_literals(key, name):
    best = ''
    for p in model.SCHEMA['enums']:
        if (key + '.').startswith(p + '.') and len(p) > len(best) and name in model.SCHEMA['enums'][p]:
            best = p
    l = model.SCHEMA['enums'].get(best, {}).get(name)
    return l or ['x1', 'y_2']


def tag(r):
    return r.key.rpartition('.')[2] + '.' + r.name


def inv_tag(r, tkey):
    dk, q = model.find_ref(tkey, r.inv)
    return dk.rpartition('.')[2] + '.' + r.inv


def ident(rng, i):
    return rng.choice(['_%d', 'id-%d', 'urn%d', 'Ä%d', '%d', 'a.b#%d', '_0x%d', 'x%dy'][:5]) % i if rng else '_%d' % i


def gen_links(rng, p, n, ids=None, want=None):
    """A document whose references are consistent: list of (El), with n links."""
    pr = profile_refs(p)
    els, c = [], [0]

    def new(k):
        c[0] += 1
        e = El(k.rpartition('.')[2], '_%s%d' % (ids or '', c[0]))
        els.append((e, k))
        return e
    pool = {}
    used = set()        # (id, ref name) to-one slots in use

    def pick(keys):
        ks = [k for k in keys if pool.get(k)]
        if ks and rng.random() < .6:
            return rng.choice([(e, k) for k in ks for e in pool[k]])
        k = rng.choice(keys)
        e = new(k)
        pool.setdefault(k, []).append(e)
        return e, k
    for r, hs, ts in (want or [rng.choice(pr) for _ in range(n)]):
        (a, ka), (b, kb) = pick(hs), pick(ts)
        s1 = (a.id, 'PerLengthImpedance' if r.name in model.views(ka) else r.name)
        s2 = (b.id, 'PerLengthImpedance' if r.inv in model.views(kb) else r.inv)
        q = model.find_ref(kb, r.inv)[1] if r.inv else None
        if r.inv and not q[1] and r.inv in model.views(kb) and r.inv[0] != ka.rpartition('.')[2][9]:
            continue
        if not r.many and s1 in used or q and not q[1] and s2 in used:
            continue
        if r.inv and r.inv == r.name and a is b:
            continue
        if not r.many:
            used.add(s1)
        if q and not q[1]:
            used.add(s2)
        m = rng.choice([1, 2, 3]) if r.inv else 1
        for _ in range(rng.choice([1, 1, 2])):
            if m & 1:
                a.kids.append(('ref', tag(r), b.id))
            if m & 2:
                b.kids.append(('ref', inv_tag(r, kb), a.id))
    rng.shuffle(els)
    return [e for e, k in els], [k for e, k in els]


def junk_kid(rng):
    return rng.choice([
        ('text', 'Nothing.noSuchAttribute', 'x'), ('ftext', 'IdentifiedObject.name', 'foreign'), ('ftext', 'Foo.bar', '1'),
        ('ref', 'Nothing.NoSuchReference', '_1'), ('fref', 'Terminal.ConductingEquipment', '_2'),
        ('enum', 'Nothing.noSuchEnum', 'UnitSymbol', 'V'), ('text', 'noDot', ''), ('text', 'Nothing.empty', '')])


def junk_el(rng, i):
    return El(rng.choice(['NoSuchClass', 'Terminal2', 'RDF', 'ACLineSegment']), '_junk%d' % i,
              [('text', 'IdentifiedObject.name', 'junk')] + [junk_kid(rng) for _ in range(rng.randrange(3))],
              rng.choice(['ID', 'about']), 'ext')


def unknown_el(rng, i):
    e = junk_el(rng, i)
    e.cls, e.ns = rng.choice(['NoSuchClass', 'Terminalx', 'unknown']), 'cim'
    return e
