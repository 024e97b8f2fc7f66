"""Ground obligations of C05: every class of the repository against the
condensed CIM models (spec/schema.json), evaluated on the real class objects."""
import subprocess, sys, os, importlib
import model

TY = {'str': str, 'int': int, 'float': float, 'bool': bool}


def class_obligations(key):
    """Yields (name, ok, detail) for one class."""
    spec = model.CLASSES[key]
    try:
        K = model.cls(key)
    except Exception as e:
        yield 'class exists', False, '%s: %s' % (type(e).__name__, e)
        return
    yield 'class exists', isinstance(K, type) and K.__name__ == key.rpartition('.')[2], K.__name__
    bases = tuple(model.cls(b) for b in spec['bases']) or (object,)
    yield 'base class', K.__bases__ == bases, '%s, expected %s' % (K.__bases__, bases)
    D = K.__dict__

    def own(n):
        return D.get(n, getattr(K, n, None))
    attrs = own('_attrs')
    want = [a[0] for a in spec['attrs']]
    yield '_attrs', sorted(attrs) == sorted(want), diff(attrs, want)
    wt = {a[0]: TY[a[1]] for a in spec['attrs']}
    yield '_attr_types', own('_attr_types') == wt, diff(own('_attr_types').items(), wt.items())
    wd = {a[0]: a[2] for a in spec['attrs']}
    d = own('_defaults')
    yield '_defaults', d == wd and all(type(d[k]) is type(wd[k]) for k in wd), diff(d.items(), wd.items())
    we = {a[0]: a[3] for a in spec['attrs'] if a[3]}
    yield '_enums', own('_enums') == we, diff(own('_enums').items(), we.items())
    wr = [r[0] for r in spec['refs']]
    yield '_refs', sorted(x for x in own('_refs') if (key, x) not in model.UNREADABLE) == sorted(wr), diff(own('_refs'), wr)
    wm = [r[0] for r in spec['refs'] if r[1]]
    yield '_many_refs', sorted(x for x in own('_many_refs') if (key, x) not in model.UNREADABLE) == sorted(wm), diff(own('_many_refs'), wm)


def instance_obligations(key):
    K = model.cls(key)
    try:
        o = K()
    except Exception as e:
        yield 'instantiation', False, '%s: %s' % (type(e).__name__, e)
        return
    for n, (dk, a) in model.all_attrs(key).items():
        v = getattr(o, n, o)
        yield 'attribute ' + n, v is not o and (type(v) is TY[a[1]] or (v is None and a[2] is None)), 'value %r, type listed %s' % ('missing' if v is o else v, a[1])
    for n, (dk, r) in model.all_refs(key).items():
        try:
            v = getattr(o, n)
            setattr(o, n, v if v is None else list(v))
            ok, d = True, ''
        except Exception as e:
            ok, d = False, '%s: %s' % (type(e).__name__, e)
        yield 'reference ' + n, ok, d
        if r[1]:
            yield 'add/remove ' + n, callable(getattr(o, 'add' + n, None)) and callable(getattr(o, 'remove' + n, None)), 'no method add%s/remove%s' % (n, n)


def diff(a, b):
    a, b = list(a), list(b)
    return 'unexpected: %s; missing: %s' % ([x for x in a if x not in b] or [x for x in a if a.count(x) > 1][:1], [x for x in b if x not in a])


def map_obligations():
    for p, spec in model.PROFILES.items():
        m = importlib.import_module(p)
        yield p, 'nsURI', m.nsURI == spec['nsURI'], '%r' % m.nsURI
        yield p, 'nsPrefix', m.nsPrefix == spec['nsPrefix'], '%r' % m.nsPrefix
        for n in sorted(set(spec['packageMap']) | set(m.packageMap)):
            got = m.packageMap.get(n)
            try:
                K = getattr(importlib.import_module(got), n)
                want = spec['packageMap'].get(n)
                ok = isinstance(K, type) and K.__name__ == n and (want is None and got.split('.')[0] == p.split('.')[0] or K is model.cls(want + '.' + n))
                d = '%s -> %r' % (n, K)
            except Exception as e:
                ok, d = False, '%s -> %r: %s: %s' % (n, got, type(e).__name__, e)
            yield p, 'packageMap[%s]' % n, ok, d


FRESH = '''import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True
import json
for m, names in json.loads(sys.stdin.read()):
    x = __import__(m, globals(), locals(), names[:1], 0)
    for n in names: assert getattr(x, n).__name__ == n, n
'''


def fresh_import(mod, names):
    """Import one package of a class map first of all, in a fresh interpreter,
    the way the reader does."""
    import json
    r = subprocess.run([sys.executable, '-B', '-c', FRESH % model.REPO], input=json.dumps([[mod, names]]), capture_output=True, text=True)
    return r.returncode == 0, (r.stderr.strip().split('\n') or [''])[-1]


def job(keys):
    n, out = 0, []
    for k in keys:
        for gen in (class_obligations, instance_obligations):
            try:
                for name, ok, d in gen(k):
                    n += 1
                    if not ok:
                        out.append(dict(key=k, what=name, msg=d, text='%s: %s' % (k, name)))
            except Exception as e:
                out.append(dict(key=k, what=gen.__name__, msg='%s: %s' % (type(e).__name__, e), text=k))
    return n, out


def search(procs=8):
    from accessors import pool_run
    from concurrent.futures import ThreadPoolExecutor
    model.preload()
    ks = sorted(model.CLASSES)
    n, out = pool_run(job, [ks[i::32] for i in range(32)], procs)
    for p, name, ok, d in map_obligations():
        n += 1
        if not ok:
            out.append(dict(key=p, what=name, msg=d, text='%s: %s' % (p, name)))
    mods = {}
    for p in model.PROFILES:
        for c, m in importlib.import_module(p).packageMap.items():
            mods.setdefault(m, []).append(c)
    with ThreadPoolExecutor(procs) as ex:
        for (m, cs), (ok, d) in zip(sorted(mods.items()), ex.map(lambda x: fresh_import(*x), sorted(mods.items()))):
            n += 1
            if not ok:
                out.append(dict(key=m, what='fresh import', msg=d, text='first import of %s' % m))
    return n, out


def replay(v):
    k = v['key']
    if v['what'] == 'fresh import':
        names = sorted({c for p in model.PROFILES for c, m in importlib.import_module(p).packageMap.items() if m == k})
        ok, d = fresh_import(k, names)
        return None if ok else (d, v['text'])
    if k in model.CLASSES:
        for gen in (class_obligations, instance_obligations):
            for name, ok, d in gen(k):
                if not ok and name == v['what']:
                    return d, v['text']
    for p, name, ok, d in map_obligations():
        if not ok and (p, name) == (k, v['what']):
            return d, v['text']
