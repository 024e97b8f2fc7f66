"""The oracle side of the concrete harness: spec/schema.json as Python objects,
and access to the real classes of the repository."""
import sys, os, json, importlib
REPO = os.environ.get('PYVC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

with open(os.path.join(HERE, '..', 'spec', 'schema.json')) as f:
    SCHEMA = json.load(f)
CLASSES = SCHEMA['classes']
# references whose name is no identifier cannot exist as attributes (known finding, C05)
UNREADABLE = [(k, r[0]) for k, c in CLASSES.items() for r in c['refs'] if not r[0].isidentifier()]
for c in CLASSES.values():
    c['refs'] = [r for r in c['refs'] if r[0].isidentifier()]
PROFILES = SCHEMA['profiles']
with open(os.path.join(HERE, '..', 'spec', 'known.json')) as f:
    KNOWN = json.load(f)
# (class key, reference): a subclass declares a reference of the same name and the
# two share their storage; recorded as known findings
CLASH = {(k, r) for k, rs in KNOWN['clash'].items() for r in rs}

_mods = {}


def preload():
    importlib.import_module('CIM14.ENTSOE.Dynamics.IEC61970.Wires')


def cls(key):
    pkg, _, name = key.rpartition('.')
    if not _mods:
        preload()
        _mods[''] = 1
    m = importlib.import_module(pkg)
    return getattr(m, name)


def mro(key):
    """Declared inheritance order, most basic class last (single inheritance)."""
    out = []
    while key:
        out.append(key)
        b = CLASSES[key]['bases']
        key = b[0] if b else None
    return out


def version(key):
    return key.split('.')[0]


_subs = {}


def subclasses(key):
    if not _subs:
        for k in CLASSES:
            for b in mro(k):
                _subs.setdefault(b, []).append(k)
    return _subs.get(key, [key])


def find_ref(key, name):
    """Declaration [name, many, target, inverse] of a reference, most derived first."""
    for k in mro(key):
        for r in CLASSES[k]['refs']:
            if r[0] == name:
                return k, r
    return None, None


def all_refs(key):
    out = {}
    for k in mro(key):
        for r in CLASSES[k]['refs']:
            out.setdefault(r[0], (k, r))
    return out


def all_attrs(key):
    out = {}
    for k in mro(key):
        for a in CLASSES[k]['attrs']:
            out.setdefault(a[0], (k, a))
    return out


VIEWS = {'SequenceImpedance', 'PhaseImpedance', 'PerLengthImpedance'}

SEGMENT = 'CIM15.IEC61970.Wires.ACLineSegment'


def views(key):
    return VIEWS if SEGMENT in mro(key) else set()


def targets(t):
    if t == '*':
        return ['CIM15.IEC61970.Wires.PerLengthSequenceImpedance', 'CIM15.IEC61970.Wires.PerLengthPhaseImpedance']
    return [t]


def inverse(key, ref):
    """(class key, declaration) of the reference that stores the other end."""
    k, i = find_ref(targets(ref[2])[0], ref[3])
    if i is not None and k == SEGMENT and i[0] in VIEWS:
        return find_ref(SEGMENT, 'PerLengthImpedance')
    return k, i


def kind(key, ref):
    name, many, target, inv = ref
    if inv is None:
        return 'um' if many else 'u1'
    _, r = find_ref(targets(target)[0], inv)
    if r is None:
        return '??'
    return {(0, 0): '11', (0, 1): 'n1', (1, 0): '1n', (1, 1): 'nn'}[int(many), int(r[1])]


class Ref:
    __slots__ = ('key', 'name', 'many', 'target', 'inv', 'kind')

    def __init__(s, key, r):
        s.key, s.name, s.many, s.target, s.inv = key, r[0], r[1], r[2], r[3]
        s.kind = kind(key, r)

    def __repr__(s):
        return '%s.%s' % (s.key, s.name)


def refs():
    return [Ref(k, r) for k in sorted(CLASSES) for r in CLASSES[k]['refs']]


def clash(key, name):
    return any((k, name) in CLASH for k in mro(key))
