"""Concrete cross-check and counterexample search for XMLWriter (C11), the
pretty printer (C14) and the impedance views (C15)."""
import io, os, random, tempfile, itertools
import xml.etree.ElementTree as ET
from html import unescape
import model
import mine

TXT = ['t', '', 'a & b', '<x>', '"q"', "it's", ']]>', '&amp;', 'Ä€', '日本', '\U0001f600', ' sp ', '\n', 'long' * 20, '&#65;', '%s', '>', '\t']
AV = ['v', '', 'a & b', '<x>', '"q"', "it's", '&lt;', 'Ä€', '日本\U0001f600', ' sp ', '>', '%d', '\'"<&>']
COM = ['c', '', ' a note ', '<a> & "b"', '-', '- x', 'x -', 'Ä日', ']]>', '>', 'two\nlines', '%s', '&amp;', '<!', '?>']   # no two hyphens in a row
TAGS = ['a', 'b', 'ns:c', 'd-e', 'f.g', 'Ä', 'h_1']
KEYS = ['x', 'y', 'name', 'id', 'ns:k', 'Ä']


def gen_program(rng, n):
    """Balanced calls: ('start', tag, attrib, extra) ('data', t) ('element', tag, text, attrib, extra) ('end', with_tag) ('close', depth)."""
    def at():
        a = {k: rng.choice(AV) for k in rng.sample(KEYS, rng.choice([0, 0, 1, 2]))}
        e = {k: rng.choice(AV) for k in rng.sample(['x', 'y', 'name', 'id', 'q'], rng.choice([0, 0, 1, 2]))}
        return a, e
    ops = [('start', 'root') + at()]
    depth = 1
    while len(ops) < n:
        c = rng.random()
        if c < .3:
            ops.append(('start', rng.choice(TAGS)) + at())
            depth += 1
        elif c < .55:
            ops.append(('data', rng.choice(TXT)))
        elif c < .6:
            ops.append(('comment', rng.choice(COM)))
        elif c < .75:
            ops.append(('element', rng.choice(TAGS), rng.choice(TXT + [None])) + at())
        elif c < .9 and depth > 1:
            ops.append(('end', rng.random() < .5))
            depth -= 1
        elif depth > 2:
            k = rng.randrange(1, depth)
            ops.append(('close', k))
            depth = k
    ops.append(rng.choice([('close', 0), ('close', 0)] + ([('end', True)] if depth == 1 else [])))
    return ops


def parse_raw(data):
    """Independent parse (expat), names as they are written."""
    from xml.parsers import expat
    root, open_, outside = [], [], []
    p = expat.ParserCreate('utf-8') if isinstance(data, str) else expat.ParserCreate()

    def start(tag, attrs):
        e = [tag, attrs, ['']]
        (open_[-1][2].extend((e, '')) if open_ else root.append(e))
        open_.append(e)

    def text(t):
        open_[-1][2][-1] += t

    def comment(t):
        (open_[-1][2].extend((('comment', t), '')) if open_ else outside.append(('comment', t)))
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler, p.CommentHandler = start, lambda t: open_.pop(), text, comment
    p.Parse(data.encode('utf-8') if isinstance(data, str) else data, True)
    return root[0], outside


def run11(c):
    from PyCIM.SimpleXMLWriter import XMLWriter
    ops, form, enc, decl = c['ops'], c['form'], c['encoding'], c['decl']
    path = None
    if form == 'text':
        f = io.StringIO()
    else:
        fd, path = tempfile.mkstemp(suffix='.xml')
        os.close(fd)
        f = path
    try:
        try:
            w = XMLWriter(f, enc) if enc else XMLWriter(f)
            if decl:
                w.declaration()
            ids = []
            tags = []
            root = None
            cur, outside = [], []
            for op in ops:
                if op[0] == 'comment':
                    w.comment(op[1])
                    (cur[-1][2] if cur else outside).append(op)
                elif op[0] == 'start':
                    a = dict(op[2])
                    r = w.start(op[1], a, **op[3]) if a or op[3] else w.start(op[1])
                    if a != op[2]:
                        return 'start changed the attribute dictionary', ''
                    ids.append(r)
                    tags.append(op[1])
                    e = [op[1], {**op[2], **op[3]}, []]
                    if cur:
                        cur[-1][2].append(e)
                    else:
                        root = e
                    cur.append(e)
                elif op[0] == 'data':
                    w.data(op[1])
                    cur[-1][2].append(op[1])
                elif op[0] == 'element':
                    a = dict(op[3])
                    w.element(op[1], op[2], a, **op[4]) if a or op[4] else w.element(op[1], op[2]) if op[2] is not None else w.element(op[1])
                    if a != op[3]:
                        return 'element changed the attribute dictionary', ''
                    cur[-1][2].append([op[1], {**op[3], **op[4]}, [op[2]] if op[2] else []])
                elif op[0] == 'end':
                    if op[1]:
                        for wrong in ['zz', tags[-1] + 'x', tags[-1][:-1], tags[-1].swapcase()] + [t for t in tags[-4:-1] if t != tags[-1]] + [x for x in tags[:1] if x != tags[-1]]:
                            if not wrong or wrong == tags[-1]:
                                continue
                            try:
                                w.end(wrong)
                            except Exception:
                                pass
                            else:
                                return 'end(%r) accepted, open element is %r' % (wrong, tags[-1]), ''
                        w.end(tags[-1])
                    else:
                        w.end()
                    ids.pop()
                    tags.pop()
                    cur.pop()
                else:
                    w.close(ids[op[1]])
                    del ids[op[1]:], tags[op[1]:], cur[op[1]:]
            w.flush()
        except Exception as e:
            return '%s: %s' % (type(e).__name__, e), ''
        if form == 'text':
            data = f.getvalue()
            if decl and enc and enc not in ('us-ascii', 'utf-8'):
                data = data.encode(enc, 'xmlcharrefreplace')
        else:
            with open(path, 'rb') as g:
                data = g.read()
    finally:
        if path:
            os.unlink(path)
    text = data if isinstance(data, str) else data.decode('utf-8' if not enc or enc == 'us-ascii' else enc, 'replace')
    try:
        p = parse_raw(data)
    except Exception as e:
        return 'not well-formed: %s' % e, text[:1500]

    def remark(g, w):
        # the text, in whatever form a comment may hold it
        t = w[1].strip()
        if g[0] != 'comment' or t not in g[1] and t not in unescape(g[1]):
            return 'comment %r, expected %r' % (g, w[1])

    def same(e, s):
        tag, at, kids = s
        if e[0] != tag:
            return 'tag %r, expected %r' % (e[0], tag)
        if e[1] != dict(at):
            return 'attributes %r, expected %r' % (e[1], at)
        got = e[2]
        want = ['']
        for k in kids:
            if isinstance(k, str):
                want[-1] += k
            else:
                want += [k, '']
        if len(got) != len(want):
            return '%d children, expected %d' % (len(got) // 2, len(want) // 2)
        after = False
        for g, w in zip(got, want):
            m = None
            if isinstance(w, str):
                if g != w and not (after and g.endswith(w) and not g[:len(g) - len(w)].strip()):    # white space after a comment
                    return 'text %r, expected %r' % (g, w)
            elif isinstance(w, tuple):
                m = remark(g, w)
            else:
                m = same(g, w) if isinstance(g, list) else 'a comment, expected <%s>' % w[0]
            if m:
                return m
            after = isinstance(w, tuple)
    p, out = p
    if len(out) != len(outside):
        return '%d comments outside the root, expected %d' % (len(out), len(outside)), text[:1500]
    for g, w in zip(out, outside):
        if remark(g, w):
            return remark(g, w), text[:1500]
    m = same(p, root)
    return (m, text[:1500]) if m else None


def cases11(rng, tier):
    m = mine.package()
    for t in m.texts:
        v = t if t in m.attr_texts else 'v'
        yield dict(ops=[('start', 'r', {'k': v}, {}), ('data', t), ('element', 'e', t, {}, {'x': v}), ('data', t), ('data', t), ('end', True)], form='text', encoding='utf-8', decl=True)
    for n in [n for n in m.sizes if n < 300]:
        yield dict(ops=[('start', 'r', {}, {})] + [('start', 'a', {'k': str(i)}, {}) for i in range(n)] + [('data', 'x')] + [('end', True)] * n + [('element', 'b', 'y', {}, {})] * n + [('data', 'z')] * n + [('end', True)], form='text', encoding='utf-8', decl=True)
    for t in COM + [t for t in m.texts if '--' not in t and t in m.attr_texts]:
        for form in ('text', 'path'):
            yield dict(ops=[('comment', t), ('start', 'r', {'k': 'v'}, {}), ('comment', t), ('data', 'x'), ('comment', t), ('element', 'e', 'y', {}, {}), ('comment', t), ('start', 'f', {}, {}), ('comment', t), ('end', False), ('data', 'x'), ('end', True), ('comment', t)], form=form, encoding='utf-8', decl=form == 'path')
    # every text and attribute value, alone
    for t in TXT:
        for v in AV:
            yield dict(ops=[('start', 'r', {'k': v}, {'x': v}), ('data', t), ('element', 'e', t, {'k': v}, {}), ('data', t), ('end', True)], form='text', encoding='utf-8', decl=True)
    for i in range(700 if tier == 'quick' else 20000):
        form = rng.choice(['text', 'text', 'path'])
        enc = rng.choice([None, 'us-ascii', 'utf-8', 'iso-8859-1'])
        p = gen_program(rng, rng.choice([2, 5, 12, 40]))
        if enc != 'utf-8':
            if form == 'path' or enc == 'iso-8859-1':      # names must be representable
                p = [tuple('n' if x == 'Ä' else {('n' if k == 'Ä' else k): v for k, v in x.items()} if isinstance(x, dict) else x for x in op) for op in p]
        yield dict(ops=p, form=form, encoding=enc, decl=rng.random() < .7 or enc in ('iso-8859-1',))


# ---------------------------------------------------------------- C14
def gen_tree(rng, n):
    def el(depth):
        t = rng.choice(['a', 'b', '{urn:x}c', 'd'])
        e = ET.Element(t, {k: rng.choice(AV) for k in rng.sample(['x', 'y', '{urn:y}z'], rng.choice([0, 0, 1, 2]))})
        e.text = rng.choice([None, None, ' ', '\n  ', 'text', ' pad ', 'Ä<&', '\n\n', '\t', '\u00a0'])
        if mine.lucky(rng, .05):
            e.text = rng.choice(mine.package().texts)
        e.tail = rng.choice([None, None, ' ', '\n', 'tail', ' tail ', '<&>', '   ', '\u2003'])
        return e
    root = el(0)
    root.tail = None
    nodes = [root]
    for _ in range(n):
        p = rng.choice(nodes[-5:] + [rng.choice(nodes)])
        c = el(0)
        p.insert(rng.randrange(len(p) + 1), c)
        nodes.append(c)
    return ET.tostring(root, 'unicode')


def run14(c):
    from PyCIM.PrettyPrintXML import xmlpp
    s = c['xml']
    try:
        if c['form'] == 'path':
            fd, p = tempfile.mkstemp(suffix='.xml')
            try:
                with os.fdopen(fd, 'wb') as f:
                    f.write(s.encode('utf-8'))
                out = xmlpp(p)
            finally:
                os.unlink(p)
        else:
            out = xmlpp(io.BytesIO(s.encode('utf-8')))
        got = ET.fromstring(out)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e), s
    want = ET.fromstring(s)

    def blank(t):
        return not (t or '').strip(' \t\r\n\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2003')

    def same(g, w, root):
        if g.tag != w.tag or g.attrib != w.attrib:
            return 'element %s %s, expected %s %s' % (g.tag, g.attrib, w.tag, w.attrib)
        if len(g) != len(w):
            return 'element %s has %d children, expected %d' % (g.tag, len(g), len(w))
        if (g.text or '') != (w.text or '') and not (len(w) and blank(g.text) and blank(w.text)):
            return 'text of %s is %r, expected %r' % (g.tag, g.text, w.text)
        if not root and (g.tail or '') != (w.tail or '') and not (blank(g.tail) and blank(w.tail)):
            return 'text after %s is %r, expected %r' % (g.tag, g.tail, w.tail)
        for x, y in zip(g, w):
            m = same(x, y, False)
            if m:
                return m
    m = same(got, want, True)
    return (m, s[:1500]) if m else None


def cases14(rng, tier):
    for t in [None, ' ', 'x', '\n y']:
        for u in [None, ' ', 'x', '\n y']:
            for v in [None, ' ', 'x']:
                a = ET.Element('a'); a.text = t
                b = ET.SubElement(a, 'b'); b.text = u; b.tail = v
                yield dict(xml=ET.tostring(a, 'unicode'), form='bytes')
                b = ET.SubElement(a, 'c'); b.text = v; b.tail = u
                yield dict(xml=ET.tostring(a, 'unicode'), form='bytes')
    for i in range(700 if tier == 'quick' else 20000):
        sizes = [n for n in mine.package().sizes if n < 600]
        yield dict(xml=gen_tree(rng, rng.choice(sizes) if sizes and mine.lucky(rng, .02) else rng.choice([0, 1, 3, 10, 60])), form=rng.choice(['bytes', 'path']))


# ---------------------------------------------------------------- C15
W = 'CIM15.IEC61970.Wires.'


def run15(c):
    """c['ops']: list of operations on 2 segments, 2 sequence and 2 phase impedances."""
    S = model.cls(W + 'ACLineSegment')
    Q, P = model.cls(W + 'PerLengthSequenceImpedance'), model.cls(W + 'PerLengthPhaseImpedance')
    imps = [Q(), P(), Q(), P()]
    names = ['q0', 'p0', 'q1', 'p1', 'None']
    segs = [S(), S()]
    held = [None, None]
    done = []
    I = lambda i: None if i is None else imps[i]
    for op in c['ops']:
        try:
            if op[0] == 'set':
                done.append('s%d.%s = %s' % (op[1], op[2], names[-1 if op[3] is None else op[3]]))
                setattr(segs[op[1]], op[2], I(op[3]))
                held[op[1]] = op[3]
            elif op[0] == 'list':
                done.append('%s.LineSegments = %s' % (names[op[1]], ['s%d' % s for s in op[2]]))
                imps[op[1]].LineSegments = [segs[s] for s in op[2]]
                held = [op[1] if s in op[2] else None if held[s] == op[1] else held[s] for s in range(len(segs))]
            elif op[0] == 'add':
                done.append('%s.addLineSegments(%s)' % (names[op[1]], ['s%d' % s for s in op[2]]))
                imps[op[1]].addLineSegments(*[segs[s] for s in op[2]])
                held = [op[1] if s in op[2] else held[s] for s in range(len(segs))]
            elif op[0] == 'remove':
                if any(held[s] != op[1] for s in op[2]):
                    continue
                done.append('%s.removeLineSegments(%s)' % (names[op[1]], ['s%d' % s for s in op[2]]))
                imps[op[1]].removeLineSegments(*[segs[s] for s in op[2]])
                held = [None if s in op[2] else held[s] for s in range(len(segs))]
            elif op[0] == 'new':
                kw = {k: I(v) for k, v in op[1].items()}
                done.append('ACLineSegment(%s)' % ', '.join('%s=%s' % (k, names[-1 if v is None else v]) for k, v in op[1].items()))
                n = [v for v in op[1].values() if v is not None]
                try:
                    s = S(**kw)
                except ValueError:
                    if len(n) < 2:
                        raise
                    for i in imps:
                        if len(i.LineSegments) != sum(names[h] == names[imps.index(i)] for h in held if h is not None):
                            return 'a refused construction left a segment in LineSegments', '; '.join(done)
                    continue
                if len(n) > 1:
                    return 'constructed with %d impedance models' % len(n), '; '.join(done)
                segs.append(s)
                held.append(n[0] if n else None)
        except Exception as e:
            return '%s: %s' % (type(e).__name__, e), '; '.join(done)
        for s, h in zip(segs, held):
            want = dict(PerLengthImpedance=I(h), SequenceImpedance=I(h) if h in (0, 2) else None, PhaseImpedance=I(h) if h in (1, 3) else None)
            for k, v in want.items():
                if getattr(s, k) is not v:
                    return 's%d.%s is %r, expected %s' % (segs.index(s), k, getattr(s, k), 'None' if v is None else names[h]), '; '.join(done)
        for i, o in enumerate(imps):
            if sorted(map(id, o.LineSegments)) != sorted(id(s) for s, h in zip(segs, held) if h == i):
                return '%s.LineSegments has segments %s, expected %s' % (names[i], [segs.index(s) for s in o.LineSegments], [j for j, h in enumerate(held) if h == i]), '; '.join(done)
    return None


VIEWS = ['SequenceImpedance', 'PhaseImpedance', 'PerLengthImpedance']


def ops15():
    out = [('set', s, v, i) for s in (0, 1) for v in VIEWS for i in (None, 0, 1, 2, 3)]
    out += [('list', i, l) for i in range(4) for l in ((), (0,), (1,), (0, 1), (1, 0, 0))]
    out += [(k, i, l) for k in ('add', 'remove') for i in range(4) for l in ((), (0,), (1,), (0, 1))]
    return out


def cases15(rng, tier):
    A = ops15()
    for a in itertools.product([None, 0, 1, 2], [None, 0, 1, 3], [None, 0, 1]):
        full = dict(zip(VIEWS, a))
        yield dict(ops=[('new', full)])
        yield dict(ops=[('new', {k: v for k, v in full.items() if v is not None})])
    for x in A:
        yield dict(ops=[x])
    for x, y in itertools.product(A, A):
        yield dict(ops=[x, y])
    for i in range(3000 if tier == 'quick' else 100000):
        yield dict(ops=[rng.choice(A) if rng.random() < .95 else ('new', {rng.choice(VIEWS): rng.randrange(4)}) for _ in range(rng.choice([3, 4, 8]))])


RUN = {'C11': run11, 'C14': run14, 'C15': run15}
CASES = {'C11': cases11, 'C14': cases14, 'C15': cases15}


def shrink(prop, c):
    r = RUN[prop](c)
    if prop == 'C15':
        i = 0
        while i < len(c['ops']):
            t = dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
            q = RUN[prop](t)
            if q:
                c, r = t, q
            else:
                i += 1
    elif prop == 'C11':
        i = 0
        while i < len(c['ops']):
            op = c['ops'][i]
            if op[0] in ('data', 'element'):
                t = dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
                q = RUN[prop](t)
                if q:
                    c, r = t, q
                    continue
            i += 1
    return dict(case=c, msg=r[0], text='%s | %s' % (c.get('ops', ''), r[1]))


def job(a):
    prop, tier, seed, i, n = a
    rng = random.Random('%s/%s' % (seed, prop))
    cnt, out = 0, []
    for j, c in enumerate(CASES[prop](rng, tier)):
        if j % n != i:
            continue
        if mine.late():
            break
        cnt += 1
        if RUN[prop](c):
            out.append(shrink(prop, c))
            break
    return cnt, out


def search(prop, tier, seed, procs=8):
    from accessors import pool_run
    model.preload()
    return pool_run(job, [(prop, tier, seed, i, 16) for i in range(16)], procs)


def replay(prop, v):
    c = dict(v['case'])
    if 'ops' in c:
        c['ops'] = [tuple(o) for o in c['ops']]
    return RUN[prop](c)
