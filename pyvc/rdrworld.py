"""Domain of the reader: documents as ghost event sequences, the map of objects,
and objects whose attributes are named by the document.

The contract of iterparse is the automaton in Stream: it delivers the events of
an arbitrary document of the class described in DESIGN.md.  The specification
runs in lockstep: every element of the document has an expected effect on the
model, which must have happened, alone, when the program asks for the event
after the element's end.  Loops are cut at their heads: the state there (all
variables, the ghost state and the facts about live strings) is generalised by
forgetting everything that belongs to passed elements; a state seen before is
not explored again, so the set of states at a loop head is its invariant."""
import ast, builtins, importlib, itertools, logging, operator, string, time as time_mod, types, collections
from . import src, liveness
from .interp import (World, Interp, Explorer, Sym, Unsupported, PathEnd, PyRaise, Bound, Closure, Frame, _Break, _Continue)
from . import interp as I
from .sstr import (Owner, Atom, Fn, Lin, SLen, SStr, StrMethod, str_method, norm, mk, parts_of, owners, decide_eq, decide_prefix,
                   show, SplitTail, SplitUnknown, PopLast, CASE, STRIPS)

RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'


class Limit(Unsupported):
    pass


class Mismatch(Exception):
    def __init__(s, ob, detail):
        s.ob, s.detail = ob, detail


# ------------------------------------------------------------ small symbols
class Stale(Sym):
    """A variable that refers to a passed part of the document."""
    unknown = True

    def __repr__(s): return 'stale'


STALE = Stale()


class Num(Sym):
    """Some number."""

    def s_binop(s, ip, op, o, sw):
        return s if isinstance(o, (int, float, Num, SLen, Opaque)) else s.un('operator ' + op)

    def s_unary(s, ip, op): return s
    def s_cmp(s, ip, op, o, sw):
        if o is None or isinstance(o, str):
            return op in ('!=', 'is not')
        return bool(ip.ex.choose(2, soft=True))

    def s_truth(s, ip): return bool(ip.ex.choose(2, soft=True))
    def s_str(s, ip): return ip.w.opaque_str(ip)
    def s_len(s, ip): s.un('len()')
    def s_type(s, ip): s.un('type()')
    def s_isinstance(s, ip, k): return bool(ip.ex.choose(2, soft=True))


class Opaque(Sym):
    """Some value nothing is known about (contents of the program's own tables)."""
    unknown = True

    def s_binop(s, ip, op, o, sw): return s
    def s_inplace(s, ip, op, o): return s
    def s_cmp(s, ip, op, o, sw): return bool(ip.ex.choose(2, soft=True))
    def s_truth(s, ip): return bool(ip.ex.choose(2, soft=True))
    def s_str(s, ip): return ip.w.opaque_str(ip)
    def s_contains(s, ip, x): return bool(ip.ex.choose(2, soft=True))
    def s_isinstance(s, ip, k): return bool(ip.ex.choose(2, soft=True))
    def s_len(s, ip): return Num()


class NoOp(Sym):
    """Logging: evaluated arguments, no effect, no result."""
    never_none = True


    def __init__(s, name=''): s.name = name

    def s_call(s, ip, args, kw):
        if s.name in ('isEnabledFor', 'hasHandlers'):
            return bool(ip.ex.choose(2, soft=True))
        return None

    def s_truth(s, ip): return True


class Dummy(Sym):
    """Value of globals() or locals() handed to __import__."""


# ------------------------------------------------------------------ the maps
class Same:
    """A map, compared by identity."""

    def __init__(s, x): s.x = x
    def __eq__(s, o): return isinstance(o, Same) and o.x is s.x
    def __hash__(s): return id(s.x)
    def __repr__(s): return '%s%d' % (type(s.x).__name__, id(s.x))


class SMap(Sym):
    """A mapping: known recent stores over a base of known or unknown contents."""
    n = 0

    def __init__(s, kind, site=None, default=None):
        s.kind, s.site, s.default = kind, site, default      # kind: 'own' (allocated by the program), 'start', 'pm'
        s.chain = []                                         # (key parts, value), latest last
        s.base = 'empty' if kind == 'own' else 'any'
        s.lits = None                                        # own: literals that may be among the forgotten keys (None: none forgotten)
        s.ver = 0

    def __repr__(s): return '%s map' % s.kind

    # -- queries
    def find(s, ip, k):
        """(found, value) for a key."""
        w = ip.w
        for q, v in reversed(s.chain):
            if w.key_eq(ip, q, k):
                return True, v
        if s.base == 'empty':
            return False, None
        if len(k) == 1 and isinstance(k[0], str) and s.kind == 'own' and k[0] in s.notin:
            return False, None
        if s.shapes and all(n in ('class', 'module', 'name') and w.pm_known(x, k) is False for n, x in s.shapes):
            return False, None             # everything remembered comes from the class map
        if w.ask(ip, ('in', s, s.ver, k), s.kind == 'own' and s is not w.d):
            return True, w.base_value(ip, s, k)
        return False, None

    notin = frozenset()
    shapes = frozenset()     # own: what every forgotten value is of its key (None: anything)

    def shape(s, k, v):
        """What the value is of the key, where that holds of the entry of any key: a
        memo of the class map."""
        if isinstance(v, SKlass) and v.pm is not None and v.tag == k:
            return 'class', Same(v.pm)
        if isinstance(v, (SModule, SStr)):
            f = v.name if isinstance(v, SModule) else v.parts
            f = f[0] if len(f) == 1 else None
            if isinstance(f, Fn) and f.name == 'pm' and f.args[1] == k:
                return ('module' if isinstance(v, SModule) else 'name'), Same(f.args[0])
            if isinstance(v, SModule) and v.name == k:
                return 'imported', None
        if v is None or v is True or v is False:
            return 'const', (type(v).__name__, v)
        return None

    def key(s, k):
        if isinstance(k, (str, SStr)):
            return parts_of(k)
        if k is None or isinstance(k, (int, tuple)) and not isinstance(k, bool):
            if isinstance(k, tuple):
                out = ()
                for x in k:
                    out += (Fn('item', s.key(x)),)
                return (Fn('tuple', out),)
            return (Fn('const', repr(k)),)
        if isinstance(k, (Opaque, Num)):
            return (Fn('opaque-key', id(k)),)
        if isinstance(k, type) or isinstance(k, types.ModuleType):
            return (Fn('const', repr(k)),)
        raise Unsupported('map key of type %s' % type(k).__name__)

    def s_getitem(s, ip, k):
        f, v = s.find(ip, s.key(k))
        if not f:
            if s.default is not None:
                v = ip.call(s.default, [], {})
                s.s_setitem(ip, k, v)
                return v
            raise PyRaise(KeyError('?'))
        return v

    def s_setitem(s, ip, k, v):
        if s.kind == 'pm':
            raise Mismatch('the class map given is not modified', 'store into the class map')
        k = s.key(k)
        ip.w.effect_store(ip, s, k, v)
        s.chain = [(q, x) for q, x in s.chain if q != k] + [(k, v)]

    def s_delitem(s, ip, k):
        ip.w.effect_store(ip, s, s.key(k), 'deleted')
        raise Unsupported('deletion from a map')

    def s_contains(s, ip, k):
        return s.find(ip, s.key(k))[0]

    def s_truth(s, ip):
        if s.chain:
            return True
        if s.base == 'empty':
            return False
        if s.kind == 'pm':
            return True
        return ip.w.ask(ip, ('nonempty', s, s.ver), s.kind == 'own' and s is not ip.w.d)

    def s_len(s, ip):
        return len(s.chain) if s.base == 'empty' and len(s.chain) < 2 else Num()

    def s_cmp(s, ip, op, o, sw):
        if op in ('is', 'is not'):
            return (o is s) == (op == 'is')
        if o is None:
            return op == '!='
        if isinstance(o, dict) and not o:
            return (not s.s_truth(ip)) == (op == '==')
        s.un('comparison ' + op)

    def s_type(s, ip): return dict
    def s_isinstance(s, ip, k): return any(isinstance(x, type) and issubclass(dict, x) for x in (k if isinstance(k, tuple) else (k,)))
    def s_str(s, ip): return ip.w.opaque_str(ip)

    def s_getattr(s, ip, name):
        if name in ('get', 'setdefault', 'items', 'keys', 'values', 'copy', 'update', 'pop', 'clear', '__contains__', '__getitem__', '__setitem__', 'popitem'):
            return MapMethod(s, name)
        raise PyRaise(AttributeError(name))

    def s_loop(s, ip, node, fr, body):
        return MapIter(s, 'keys').s_loop(ip, node, fr, body)


class MapMethod(Sym):
    never_none = True

    def __init__(s, m, name): s.m, s.name = m, name

    def s_truth(s, ip): return True

    def s_call(s, ip, args, kw):
        m, n = s.m, s.name
        if n == 'get':
            f, v = m.find(ip, m.key(args[0]))
            return v if f else (args[1] if len(args) > 1 else kw.get('default'))
        if n == '__contains__':
            return m.s_contains(ip, args[0])
        if n == '__getitem__':
            return m.s_getitem(ip, args[0])
        if n == '__setitem__':
            return m.s_setitem(ip, *args)
        if n == 'setdefault':
            f, v = m.find(ip, m.key(args[0]))
            if not f:
                v = args[1] if len(args) > 1 else None
                m.s_setitem(ip, args[0], v)
            return v
        if n in ('items', 'keys', 'values'):
            return MapIter(m, n)
        if n == 'update' and len(args) == 1 and isinstance(args[0], SMap) and not kw:
            o = args[0]
            if o.base == 'empty':
                for k, v in o.chain:
                    m.s_setitem(ip, mk(k), v)
                return None
        if n == 'pop' and len(args) == 2:
            f, v = m.find(ip, m.key(args[0]))
            if not f:
                return args[1]
        raise Unsupported('dict.%s' % n)


class MapIter(Sym):
    """Iteration over a map: any number of unknown entries."""
    never_none = True


    def __init__(s, m, what): s.m, s.what = m, what

    def s_loop(s, ip, node, fr, body):
        if s.m.base == 'empty':
            it = [{'keys': mk(k), 'values': v, 'items': (mk(k), v)}[s.what] for k, v in s.m.chain]
            tmp = ast.copy_location(ast.For(target=node.target, iter=ast.Constant(value=None), body=node.body, orelse=node.orelse), node)
            ip.pos.append(node)
            try:
                done = False
                for i, x in enumerate(it):
                    ip.assign(node.target, x, fr)
                    ip.pos.append(('for', i, it))
                    try:
                        ip.block(node.body, fr)
                    except _Continue:
                        pass
                    except _Break:
                        done = True
                        break
                    finally:
                        ip.pos.pop()
                if not done:
                    ip.block(node.orelse, fr)
            finally:
                ip.pos.pop()
            return True
        while True:
            ip.w.cut(ip, node)
            if not ip.ex.choose(2, soft=True):
                ip.block(node.orelse, fr)
                return True
            x = {'keys': (Opaque(),), 'values': (Opaque(),), 'items': (Opaque(), Opaque())}[s.what]
            ip.assign(node.target, x if len(x) > 1 else x[0], fr)
            try:
                ip.block(node.body, fr)
            except _Break:
                return True
            except _Continue:
                continue

    def s_len(s, ip): return s.m.s_len(ip)
    def s_truth(s, ip): return s.m.s_truth(ip)
    def s_contains(s, ip, k):
        if s.what == 'keys':
            return s.m.s_contains(ip, k)
        return bool(ip.ex.choose(2, soft=True))


# ------------------------------------------------------- classes and objects
class SModule(Sym):
    never_none = True

    def __init__(s, name): s.name = name

    def s_getattr(s, ip, name):
        if isinstance(name, str):
            raise Unsupported('attribute %s of a package module' % name)
        f = s.name[0] if len(s.name) == 1 else None
        if isinstance(f, Fn) and f.name == 'pm' and decide_eq(f.args[1], name.parts):
            return SKlass(f.args[0], name.parts)
        if ip.w.ask(ip, ('module attribute', s.name, name.parts)):
            return SKlass(None, name.parts)
        raise PyRaise(AttributeError('module attribute'))

    def s_truth(s, ip): return True
    def s_cmp(s, ip, op, o, sw): return op in ('!=', 'is not') if o is None else s.un('comparison')


class SKlass(Sym):
    never_none = True

    def __init__(s, pm, tag): s.pm, s.tag = pm, tag

    def __repr__(s): return 'class %s of the %s' % (show(s.tag), 'class map' if s.pm is not None else 'wrong module')

    def s_call(s, ip, args, kw):
        if args or set(kw) - {'UUID'}:
            raise Unsupported('constructor call with arguments other than UUID')
        ip.w.n_new += 1
        u = kw.get('UUID', '')
        return New(s, u)

    def s_getattr(s, ip, name):
        if name in ('__name__', '__qualname__'):
            return mk(s.tag)
        if name == '__module__':
            return ip.w.opaque_str(ip)
        raise Unsupported('class attribute %s' % name)

    def s_truth(s, ip): return True
    def s_cmp(s, ip, op, o, sw): return op in ('!=', 'is not') if o is None else s.un('comparison')
    def s_str(s, ip): return ip.w.opaque_str(ip)


class Obj(Sym):
    """A model object."""

    def s_truth(s, ip): return True

    def s_cmp(s, ip, op, o, sw):
        if not isinstance(o, Obj):
            return op in ('!=', 'is not')
        if o is s or (isinstance(s, Entry) and isinstance(o, Entry) and s.m is o.m and s.ver == o.ver and s.k == o.k):
            return op in ('==', 'is')
        r = ip.w.ask(ip, ('same', ) + tuple(sorted((ip.w.obj_key(s), ip.w.obj_key(o)), key=repr)))
        return r == (op in ('==', 'is'))

    def s_str(s, ip): return ip.w.opaque_str(ip)

    def s_type(s, ip): return ClassOf(s)

    def s_isinstance(s, ip, k):
        ks = k if isinstance(k, tuple) else (k,)
        if all(x in (list, dict, str, int, float, bool, tuple, set, bytes) for x in ks):
            return False
        if any(x is object for x in ks):
            return True
        return ip.w.ask(ip, ('isinstance', ip.w.obj_key(s), repr(k)), True)


class ClassOf(Sym):
    def __init__(s, o): s.o = o

    def s_getattr(s, ip, name):
        if name in ('__name__', '__qualname__', '__module__'):
            return ip.w.opaque_str(ip)
        raise Unsupported('class attribute %s' % name)

    def s_cmp(s, ip, op, o, sw):
        if o in (str, int, float, bool, list, type(None), dict, tuple):
            return op in ('!=', 'is not')
        return bool(ip.ex.choose(2, soft=True))

    def s_call(s, ip, args, kw):
        raise PyRaise(TypeError('class of a held object called'))

    def s_truth(s, ip): return True
    def s_contains(s, ip, x): return False
    def s_str(s, ip): return ip.w.opaque_str(ip)


class New(Obj):
    """An object the program has just created."""

    def __init__(s, cls, uuid): s.cls, s.uuid = cls, uuid

    def s_getattr(s, ip, name):
        if name == 'UUID':
            return s.uuid
        if name == '__class__':
            return s.cls
        raise Unsupported('attribute of a new object')

    def s_setattr(s, ip, name, v):
        if name == 'UUID':
            s.uuid = v
            return
        ip.w.effects.append(('set', s, parts_of(name), v))


class Entry(Obj):
    """The object a map holds for a key."""

    def __init__(s, m, ver, k): s.m, s.ver, s.k = m, ver, k

    def __repr__(s): return 'object of %s' % show(s.k)

    def s_getattr(s, ip, name):
        return ip.w.obj_getattr(ip, s, name)

    def s_setattr(s, ip, name, v):
        if name == 'UUID':
            ip.w.effects.append(('set', s, ('UUID',), v))
            return
        ip.w.effects.append(('set', s, parts_of(name), v))


class Held(Obj):
    """The object a to-one reference of the current object holds."""

    def __init__(s, o, p): s.o, s.p = o, p

    def __repr__(s): return 'object held'

    def s_getattr(s, ip, name): raise Unsupported('attribute of a held object')


class Val(Sym):
    """Current value of an attribute of a given type."""

    def __init__(s, typ, p): s.typ, s.p = typ, p

    def s_type(s, ip): return s.typ
    def s_truth(s, ip): return ip.w.ask(ip, ('value true', s.p))
    def s_cmp(s, ip, op, o, sw):
        if o is None:
            return op in ('!=', 'is not')
        if isinstance(o, Obj):
            return op in ('!=', 'is not')
        return ip.w.ask(ip, ('value', s.p, op, repr(o)))

    def s_isinstance(s, ip, k):
        return any(isinstance(x, type) and issubclass(s.typ, x) for x in (k if isinstance(k, tuple) else (k,)))

    def s_str(s, ip): return ip.w.opaque_str(ip)

    def s_getattr(s, ip, name):
        if name == '__class__':
            return s.typ
        if s.typ is str or name in ('append', 'add'):
            if hasattr(s.typ, name):
                raise Unsupported('method of an attribute value')
        raise PyRaise(AttributeError(str(name)))


class RefList(Sym):
    """The list a to-many reference of the current object shows."""

    def __init__(s, o, p): s.o, s.p = o, p

    def s_type(s, ip): return list
    def s_isinstance(s, ip, k): return any(isinstance(x, type) and issubclass(list, x) for x in (k if isinstance(k, tuple) else (k,)))
    def s_truth(s, ip): return ip.w.ask(ip, ('list nonempty', s.p))
    def s_len(s, ip): return Num()

    def s_cmp(s, ip, op, o, sw):
        if o is None or isinstance(o, (str, int, float)):
            return op in ('!=', 'is not')
        if isinstance(o, list) and not o and op in ('==', '!='):
            return s.s_truth(ip) == (op == '!=')
        s.un('comparison ' + op)

    def s_contains(s, ip, x):
        if isinstance(x, Obj):
            return ip.w.ask(ip, ('listed', s.p, ip.w.obj_key(x)))
        return False

    def s_getattr(s, ip, name):
        if name in ('append', 'insert', 'extend', 'remove'):
            return Method(s.o, ('list.' + name,), s.p)
        if name == '__class__':
            return list
        raise PyRaise(AttributeError(str(name)))


class Method(Sym):
    never_none = True

    def __init__(s, o, name, p): s.o, s.name, s.p = o, name, p

    def s_call(s, ip, args, kw):
        if kw:
            raise Unsupported('keyword arguments of an accessor')
        for a in args:
            ip.w.effects.append(('call', s.o, s.name, a))
        return None

    def s_truth(s, ip): return True


class Conv(Sym):
    """Result of int(text) or float(text)."""

    def __init__(s, typ, parts): s.typ, s.parts = typ, parts

    def __repr__(s): return '%s(%s)' % (s.typ.__name__, show(s.parts))
    def s_type(s, ip): return s.typ
    def s_isinstance(s, ip, k): return any(isinstance(x, type) and issubclass(s.typ, x) for x in (k if isinstance(k, tuple) else (k,)))
    def s_cmp(s, ip, op, o, sw): return op in ('!=', 'is not') if o is None else ip.w.ask(ip, ('conv', repr(s.typ), s.parts, op, repr(o)))
    def s_truth(s, ip): return ip.w.ask(ip, ('conv true', repr(s.typ), s.parts))
    def s_str(s, ip): return ip.w.opaque_str(ip)
    def s_binop(s, ip, op, o, sw): return Num()


# ------------------------------------------------------------------ document
class Elem(Sym):
    never_none = True

    def __init__(s, owner, kind, tag):
        s.owner, s.kind, s.tag, s.cleared, s.ended = owner, kind, tag, False, False

    def __repr__(s): return '%s element' % s.kind

    def attr(s, ip, k):
        """Value of an attribute or None."""
        w = ip.w
        if s.cleared:
            return None
        d = s.owner.data
        if s.kind == 'class':
            name, v = ('ID', d['id']) if d['idk'] == 'ID' else ('about', ('#',) + d['id'])
            if w.str_eq(ip, k, w.rdfname(name)):
                return mk(v)
        elif s.kind == 'prop':
            if w.str_eq(ip, k, w.rdfname('resource')):
                r = w.resource(ip, s.owner)
                return mk(r) if r is not None else None
        elif s.kind == 'foreign':
            if not w.ask(ip, ('has', s.owner, k)):
                return None
            return SStr((d.setdefault(('attr', k), Atom(s.owner, 'attr ' + show(k), nonempty=False)),))
        for n in ('ID', 'about', 'resource'):
            if w.str_eq(ip, k, w.rdfname(n)):
                return None
        # an attribute outside the specification
        if not w.ask(ip, ('has', s.owner, k)):
            return None
        return SStr((d.setdefault(('attr', k), Atom(s.owner, 'attr ' + show(k), nonempty=False)),))

    def s_getattr(s, ip, name):
        w = ip.w
        if name == 'tag':
            return mk(s.tag)
        if name == 'get':
            return ElemGet(s)
        if name == 'attrib':
            return Attrib(s)
        if name == 'text':
            return w.text(ip, s)
        if name == 'tail':
            return None if w.ask(ip, ('tail', s.owner)) else SStr((Atom(s.owner, 'tail', nonempty=False),))
        if name == 'clear':
            return Clear(s)
        if name in ('find', 'findall', 'iter', 'getchildren', 'remove', 'append', 'keys', 'items', 'set'):
            raise Unsupported('Element.%s' % name)
        raise PyRaise(AttributeError(name))

    def s_truth(s, ip): raise Unsupported('truth value of an element')

    def s_cmp(s, ip, op, o, sw):
        if op in ('is', 'is not', '==', '!='):
            return (o is s) == (op in ('is', '=='))
        s.un('comparison')

    def s_delitem(s, ip, k): pass
    def s_setitem(s, ip, k, v): pass
    def s_len(s, ip): return Num()


class Attrib(Sym):
    never_none = True

    def __init__(s, e): s.e = e

    def s_getitem(s, ip, k):
        v = s.e.attr(ip, parts_of(k))
        if v is None:
            raise PyRaise(KeyError('attribute'))
        return v

    def s_contains(s, ip, k): return s.e.attr(ip, parts_of(k)) is not None

    def s_getattr(s, ip, name):
        if name == 'get':
            return ElemGet(s.e)
        raise Unsupported('attrib.%s' % name)


class ElemGet(Sym):
    never_none = True

    def __init__(s, e): s.e = e

    def s_call(s, ip, args, kw):
        v = s.e.attr(ip, parts_of(args[0]))
        return (args[1] if len(args) > 1 else kw.get('default')) if v is None else v

    def s_truth(s, ip): return True


class Clear(Sym):
    never_none = True

    def __init__(s, e): s.e = e

    def s_call(s, ip, args, kw):
        e = s.e
        if e.kind != 'root':
            e.cleared = True
            if e.ended:
                e.text_gone = True
        return None


class Source(Sym):
    never_none = True

    def __init__(s, kind):
        s.kind, s.at0, s.reader = kind, True, None

    def s_getattr(s, ip, name):
        if s.kind == 'stream':
            if name == 'seek':
                return Seek(s)
            if name in ('seekable', 'tell'):
                return Ask(s, name)
            if name in ('read', 'close', 'name', 'readline'):
                raise Unsupported('stream.%s' % name)
        raise PyRaise(AttributeError(str(name)))

    def s_str(s, ip): return ip.w.opaque_str(ip)
    def s_truth(s, ip): return True

    def s_isinstance(s, ip, k):
        ks = k if isinstance(k, tuple) else (k,)
        if s.kind == 'path':
            return str in ks or object in ks
        if str in ks and len(ks) == 1:
            return False
        raise Unsupported('isinstance of the source')

    def s_cmp(s, ip, op, o, sw): return op in ('!=', 'is not') if o is None else s.un('comparison')


class Seek(Sym):
    never_none = True

    def __init__(s, o): s.o = o

    def s_truth(s, ip): return True

    def s_call(s, ip, args, kw):
        if args not in ([0], [0, 0]) or kw:
            raise Unsupported('seek elsewhere')
        s.o.at0, s.o.reader = True, None


class Ask(Sym):
    """seekable() of a seekable stream; tell() of one at its start"""
    never_none = True

    def __init__(s, o, name): s.o, s.name = o, name
    def s_truth(s, ip): return True

    def s_call(s, ip, args, kw):
        if args or kw:
            raise PyRaise(TypeError(s.name))
        if s.name == 'seekable':
            return True
        if not s.o.at0:
            raise Unsupported('position of the stream')
        return 0


EVENTS = ('start', 'end', 'start-ns', 'end-ns', 'comment', 'pi')


class Stream(Sym):
    never_none = True

    def __init__(s, w, src_, events, number):
        s.w, s.src, s.events, s.number = w, src_, frozenset(events), number
        s.st, s.ret, s.cls, s.prop, s.root, s.f = 'pre', None, None, None, None, None
        s.decl = list(w.decls)
        s.role = None
        s.started = s.exhausted = s.over = False

    def s_truth(s, ip): return True
    def s_iter(s, ip): return s

    def s_getattr(s, ip, name):
        if name == 'root':
            if not s.exhausted:
                raise Unsupported('iterparse.root')
            return s.root
        if name in ('close',):
            raise Unsupported('iterparse.close')
        if name == '__next__':
            return NextOf(s)
        raise PyRaise(AttributeError(name))

    def s_cmp(s, ip, op, o, sw): return (o is s) == (op in ('is', '==')) if op in ('is', 'is not', '==', '!=') else s.un('comparison')

    def s_loop(s, ip, node, fr, body):
        s.w.held.append(s)
        try:
            return s.loop(ip, node, fr)
        finally:
            s.w.held.pop()

    def loop(s, ip, node, fr):
        while True:
            s.w.cut(ip, node)
            ev = s.fetch(ip)
            if ev is None:
                ip.block(node.orelse, fr)
                return True
            ip.assign(node.target, ev, fr)
            try:
                ip.block(node.body, fr)
            except _Break:
                return True
            except _Continue:
                continue

    # -- the contract of iterparse
    def fetch(s, ip):
        """Next visible event (kind, value) or None at the end."""
        w = s.w
        w.settle(ip)
        if s.src.kind == 'stream':
            if not s.started:
                if not s.src.at0:
                    raise Mismatch('a stream is at its start when it is parsed', 'pass %d starts where an earlier one left the stream' % (s.number + 1))
            elif s.src.reader is not s and not s.exhausted:
                raise Mismatch('a stream is at its start when it is parsed', 'pass %d continues after the stream was moved' % (s.number + 1))
            s.src.at0, s.src.reader = False, s
        s.started = True
        w.active = s
        vis = s.events
        if s.exhausted:
            return None
        for _ in range(60):
            r = s.step(ip)
            if r is None:
                s.exhausted = True
                return None
            if r[0] in vis:
                return r
            w.settle(ip)
        raise Unsupported('no visible event')

    def new(s, kind, **d):
        o = Owner('%s%d' % (kind, s.number) if kind in 'CPFN' else kind, **d)
        s.w.owners.append(o)
        return o

    def foreign(s, ip):
        if s.f is not None:
            s.f.alive = False
        s.f = o = s.new('F')
        if s.w.nondet(ip):
            ns = Atom(o, 'ns', excl='{}', ne=[s.w.cimns])
            tag = norm(['{', ns, '}', Atom(o, 'local', excl='{}')])
        else:
            tag = (Atom(o, 'plain', excl='{}'),)
        return Elem(o, 'foreign', tag)

    def step(s, ip):
        w = s.w
        st = s.st
        vis = s.events
        if st == 'pre':
            if 'start-ns' in vis:
                k = ip.ex.choose(len(s.decl) + 2)
                if k < len(s.decl):
                    d = s.decl.pop(k)
                    return ('start-ns', (d[0], mk(d[1])))
                if k == len(s.decl):
                    o = s.new('N')
                    w.transient(o)
                    return ('start-ns', (SStr((Atom(o, 'prefix', nonempty=False, ne=['rdf', 'cim']),)), SStr((Atom(o, 'uri', nonempty=False),))))
            o = s.new('R%d' % s.number)
            s.root = Elem(o, 'root', norm(['{', *w.rdfns, '}RDF']))
            s.st = 'top'
            return ('start', s.root)
        if st == 'top':
            if s.decl and 'start-ns' in vis:
                # declarations not on the root element are on the first one inside it
                d = s.decl.pop(ip.ex.choose(len(s.decl)))
                return ('start-ns', (d[0], mk(d[1])))
            opts = (['class'] if w.has_cim else []) + (['foreign'] if vis & {'start', 'end'} else []) + ['end']
            if not vis & {'start', 'end'}:
                opts = ['end']
            k = opts[ip.ex.choose(len(opts))]
            if k == 'class':
                idk = ('ID', 'about')[ip.ex.choose(2)]
                o = s.new('C', idk=idk, stream=s)
                o.data['id'] = (Atom(o, 'id'),)
                o.data['tag'] = (Atom(o, 'class', excl='{}#.'),)
                s.cls = Elem(o, 'class', w.base + o.data['tag'])
                s.st = 'cls'
                return ('start', s.cls)
            if k == 'foreign':
                s.st, s.ret = 'F', 'top'
                return ('start', s.foreign(ip))
            s.st = 'post'
            s.root.ended = True
            return ('end', s.root)
        if st == 'F':
            # a foreign subtree: any further starts and ends, the last end closes it
            opts = [x for x in ('start', 'end') if x in vis] + ['close']
            k = opts[ip.ex.choose(len(opts))]
            e = s.foreign(ip)
            e.ended = k != 'start'
            if k == 'close':
                s.st = s.ret
            return ('start' if k == 'start' else 'end', e)
        if st == 'cls':
            k = ip.ex.choose(3)
            if k == 0:
                o = s.new('P', cls=s.cls.owner, stream=s)
                dotted = w.nondet(ip)
                o.data['dotted'] = dotted
                o.data['attr'] = (Atom(o, 'attribute', excl='{}#.'),)
                loc = norm([Atom(o, 'declaring', excl='{}#.'), '.', *o.data['attr']]) if dotted else o.data['attr']
                s.prop = Elem(o, 'prop', w.base + loc)
                s.st = 'prop'
                return ('start', s.prop)
            if k == 1:
                s.st, s.ret = 'F', 'cls'
                return ('start', s.foreign(ip))
            s.st = 'top'
            s.cls.ended = True
            w.ending = s.cls.owner
            return ('end', s.cls)
        if st == 'prop':
            if ip.ex.choose(2):
                s.st, s.ret = 'F', 'prop'
                return ('start', s.foreign(ip))
            s.st = 'cls'
            s.prop.ended = True
            w.ending = s.prop.owner
            return ('end', s.prop)
        if st == 'post':
            if 'end-ns' in vis and ip.ex.choose(2):
                return ('end-ns', None)
            return None
        raise AssertionError(st)


class NextOf(Sym):
    never_none = True

    def __init__(s, o): s.o = o

    def s_call(s, ip, args, kw):
        e = s.o.fetch(ip)
        if e is None:
            raise PyRaise(StopIteration())
        return e


# --------------------------------------------------------------------- world
MODS = {'time', 'logging', 'os', 'sys', 'collections'}
NAMES = {'bool': bool, 'int': int, 'float': float, 'str': str, 'enum': str}


class Case:
    """One way to enter the reader."""

    def __init__(s, source, start, args, rdf):
        s.source, s.start, s.args, s.rdf = source, start, args, rdf

    def __repr__(s):
        return '%s, %s, %s, rdf prefix %s' % (s.source, 'start dictionary' if s.start else 'no start dictionary', s.args, 'declared' if s.rdf else 'not declared')


class RdrWorld(World):
    def __init__(w, case, site, roles, seen, stats):
        w.case, w.site, w.roles, w.seen, w.stats = case, site, roles, seen, stats
        w.memo, w.effects, w.owners = {}, [], []
        w.created = {}
        w.held = []
        w.active, w.ending = None, None
        w.trans = []
        w.streams = []
        w.n_new = 0
        w.d = None
        w.pcount = 0
        g = Owner('G')
        w.g = g
        w.src = Source(case.source)
        a = case.args
        w.rdfns = (Atom(g, 'rdfns', excl='{}'),) if case.rdf else (RDF,)
        decls = [('rdf', w.rdfns)] if case.rdf else []
        w.has_cim = True
        w.kw = {}
        w.pm = None
        import CIM14, CIM15
        if a == 'explicit':
            uri = Atom(g, 'nsURI', excl='{}#', ne=[RDF[:-1]])
            w.cimns = norm([uri, '#'])
            w.pm = SMap('pm')
            w.kw = dict(packageMap=w.pm, nsURI=SStr((uri,)))
            if True:
                decls.append(('cim', (Atom(g, 'other cim', nonempty=False),)))
        elif a == 'none':
            w.cimns = ('#',)
            w.has_cim = False
            w.pm = CIM15.packageMap
        elif a in ('CIM14', 'CIM15', 'CIM16'):
            u = {'CIM14': CIM14.nsURI, 'CIM15': CIM15.nsURI, 'CIM16': 'http://iec.ch/TC57/2013/CIM-schema-cim16'}[a]
            w.cimns = (u + '#',)
            w.pm = (CIM14 if a == 'CIM14' else CIM15).packageMap
            decls.append(('cim', w.cimns))
        elif a == 'other':
            u = Atom(g, 'cimuri', excl='{}#', ne=[CIM14.nsURI, CIM15.nsURI, 'http://iec.ch/TC57/2013/CIM-schema-cim16', RDF[:-1]])
            w.cimns = norm([u, '#'])
            w.pm = CIM15.packageMap
            decls.append(('cim', w.cimns))
        elif a == 'only packageMap':
            w.cimns = ('#',)
            w.kw = dict(packageMap=SMap('pm'))
        elif a == 'only nsURI':
            w.cimns = ('#',)
            w.kw = dict(nsURI=SStr((Atom(g, 'nsURI', excl='{}#'),)))
        if w.rdfns and isinstance(w.rdfns[0], Atom):
            w.rdfns[0].ne.append(w.cimns)
        w.decls = decls
        w.base = norm(['{', *w.cimns, '}'])
        if case.start:
            w.d = SMap('start')
            w.kw['start_dict'] = w.d
        w.tags = set()

    # ------------------------------------------------------------ questions
    def nondet(w, ip):
        return bool(ip.ex.choose(2, soft=True))

    def ask(w, ip, key, soft=False):
        if key not in w.memo:
            w.memo[key] = bool(ip.ex.choose(2, soft=soft))
        return w.memo[key]

    def rdfname(w, n):
        return norm(['{', *w.rdfns, '}' + n])

    def num(w, ip): return Num()

    def opaque_str(w, ip):
        o = Owner('X')
        w.transient(o)
        return SStr((Atom(o, 'text', nonempty=False),))

    def transient(w, o):
        w.trans.append(o)

    def key_eq(w, ip, a, b):
        return w.str_eq(ip, a, b)

    def str_eq(w, ip, a, b):
        if any(isinstance(p, Fn) and p.name in ('const', 'tuple', 'opaque-key') for p in a + b):
            return a == b
        r = decide_eq(a, b)
        if r is None:
            r = w.text_eq(ip, a, b)
        if r is None:
            r = w.text_eq(ip, b, a)
        if r is None:
            k = ('eq',) + tuple(sorted((a, b), key=repr))
            r = w.ask(ip, k, w.vague(a) or w.vague(b))
        return r

    def vague(w, parts):
        """Built from strings nothing is known about or by functions that are not interpreted."""
        return any(x.owner in w.trans if isinstance(x, Atom) else isinstance(x, Fn) for x in parts)

    def text_eq(w, ip, a, b):
        """Comparison of (a case-changed form of) a property's text with a literal."""
        if len(a) != 1 or not (not b or len(b) == 1 and isinstance(b[0], str)):
            return None
        lit = b[0] if b else ''
        x, f = a[0], []
        while isinstance(x, Fn) and x.name in CASE and len(x.args[0]) == 1:
            f.append(x.name)
            x = x.args[0][0]
        if not isinstance(x, Atom) or x.sem != 'text':
            return None
        p = x.owner
        if w.kind(ip, p) != 'bool':
            return None
        word = 'true' if w.ask(ip, ('text true', p)) else 'false'
        if f:
            v = word
            for n in f:                       # the outermost function decides the case of every letter
                v = getattr(word, n)()
                break
            return v == lit
        if lit.lower() != word:
            return False
        return w.ask(ip, ('text is', p, lit))

    def strip(w, ip, s, name, cs):
        p = s.parts
        if len(p) == 1 and isinstance(p[0], Atom) and p[0].sem == 'text' and cs is None:
            k = w.memo.get(('kind', p[0].owner))
            if k == 'bool' or (k is None and w.kind(ip, p[0].owner) == 'bool'):
                return s
        return mk([Fn(name, p) if cs is None else Fn(name, p, cs)])

    # ------------------------------------------------------------- the model
    def content(w, ip, o):
        """What a property element holds: 'text', 'empty', 'ref' or 'enum'."""
        k = ('content', o)
        if k not in w.memo:
            w.memo[k] = ('text', 'empty', 'ref', 'enum')[ip.ex.choose(4)]
        return w.memo[k]

    def kind(w, ip, o):
        """What the addressed object's class offers under the property's name."""
        k = ('kind', o)
        if k not in w.memo:
            opts = {'text': ['absent', 'bool', 'int', 'float', 'str'], 'empty': ['absent', 'str'], 'ref': ['absent', 'one-unset', 'one-set', 'many'],
                    'enum': ['absent', 'enum', 'enum-unset']}[w.content(ip, o)]
            if not o.data['dotted']:
                opts = ['absent']
            w.memo[k] = opts[ip.ex.choose(len(opts))]
        return w.memo[k]

    def resource(w, ip, o):
        c = w.content(ip, o)
        d = o.data
        if c == 'ref':
            return norm(['#', d.setdefault('target', Atom(o, 'target'))])
        if c == 'enum':
            return norm([d.setdefault('uri', Atom(o, 'uri', excl='#', first_not='#')), '#', d.setdefault('etype', Atom(o, 'enumeration', excl='#.')), '.',
                         d.setdefault('lit', Atom(o, 'literal', excl='#.'))])
        return None

    def text(w, ip, e):
        o = e.owner
        if e.kind == 'prop':
            if not e.ended:
                if w.ask(ip, ('early text', o)):
                    return None
                return SStr((Atom(o, 'text before its end', nonempty=False),))
            if getattr(e, 'text_gone', False):
                return None
            if w.content(ip, o) != 'text':
                return None if w.content(ip, o) == 'empty' or not w.ask(ip, ('blank text', o)) else SStr((Atom(o, 'blank', nonempty=True),))
            return SStr((o.data.setdefault('text', Atom(o, 'text', sem='text')),))
        if w.ask(ip, ('text', o)):
            return None
        return SStr((Atom(o, 'blank', nonempty=False),))

    def obj_key(w, o):
        if isinstance(o, Entry):
            return ('entry', o.m, o.ver, o.k)
        if isinstance(o, Held):
            return ('held', o.p)
        return ('new', id(o))

    def base_value(w, ip, m, k):
        if m.kind == 'pm':
            return SStr((Fn('pm', m, k),))
        if m is w.d:
            return Entry(m, m.ver, k)
        if m.kind == 'own' and m.shapes:
            xs = sorted((x for x in m.shapes if x[0] in ('const', 'imported') or w.pm_known(x[1], k) is not False), key=repr)
            n, x = xs[ip.ex.choose(len(xs), soft=True) if len(xs) > 1 else 0]
            if n == 'const':
                return x[1]
            if n == 'imported':
                return SModule(k)
            w.memo[w.pm_fact(x, k)] = True
            x = x.x
            if n == 'class':
                return SKlass(x, k)
            return SModule((Fn('pm', x, k),)) if n == 'module' else SStr((Fn('pm', x, k),))
        return Opaque()

    def pm_fact(w, x, k):
        m = x.x
        return ('in', m, m.ver, k) if isinstance(m, SMap) else ('native map', id(m), k)

    def pm_known(w, x, k):
        return w.memo.get(w.pm_fact(x, k))

    def current(w, ip, o):
        """The property whose attribute of object o may be in question."""
        s = w.active
        if s is None or s.prop is None or not s.prop.owner.alive:
            return None
        p = s.prop.owner
        c = p.data['cls']
        if isinstance(o, Entry) and o.m is w.d and o.k == c.data['id']:
            return p
        return None

    def obj_getattr(w, ip, o, name):
        if name == 'UUID':
            return mk(o.k)
        if name == '__class__':
            return ClassOf(o)
        p = w.current(ip, o)
        n = parts_of(name)
        if p is not None:
            at = p.data['attr']
            if n == at:
                k = w.kind(ip, p)
                if k == 'absent':
                    raise PyRaise(AttributeError('?'))
                if k in NAMES:
                    return Val(NAMES[k], p)
                if k in ('one-unset', 'enum-unset'):
                    return None
                if k == 'one-set':
                    return Held(o, p)
                return RefList(o, p)
            if n == norm(['add', *at]):
                if w.kind(ip, p) == 'many':
                    return Method(o, n, p)
                raise PyRaise(AttributeError('?'))
        if len(n) == 1 and isinstance(n[0], str):
            raise Unsupported('attribute %s of an object' % n[0])
        if w.ask(ip, ('attribute', w.obj_key(o), n), True):
            return Opaque()
        raise PyRaise(AttributeError('?'))

    # ------------------------------------------------- effects and settlement
    def effect_store(w, ip, m, k, v):
        if m.kind == 'own' and isinstance(v, New):
            w.stats['new'].add(m.site)
        if m.kind == 'own' and w.d is None and m.site == w.site:
            w.d = m
        if m is w.d:
            s = w.active
            if s is not None and w.role(s) == 'P1' and s.cls is not None and s.cls.owner.alive and 'exp' not in s.cls.owner.data:
                # the specification looks at the map before the first store
                s.cls.owner.data['exp'] = w.expected_class(ip, s.cls.owner)
            w.effects.append(('store', k, v))

    def role(w, s):
        """'P1', 'P2' or None for the pass that looks at namespaces only."""
        if s.role is None:
            if w.roles == 'filter' and 'start-ns' in s.events:
                s.role = 'NS'
            else:
                w.pcount += 1
                s.role = 'P%d' % w.pcount
        return s.role

    def expected_class(w, ip, c):
        d = c.data
        if w.d is not None and d['idk'] == 'about' and w.in_d(ip, d['id']):
            return 'about-known', []
        if not w.in_pm(ip, d['tag']):
            return 'unknown class', []
        return ('class by ID' if d['idk'] == 'ID' else 'class by about'), [('store', d['id'], ('new', d['tag'], d['id']))]

    def in_pm(w, ip, tag):
        m = w.pm
        if isinstance(m, SMap):
            return m.find(ip, tag)[0]
        return w.ask(ip, ('native map', id(m), tag))

    def in_d(w, ip, k):
        return w.d.find(ip, k)[0] if w.d is not None else False

    def expected_prop(w, ip, p):
        c = p.data['cls']
        if not w.in_d(ip, c.data['id']):
            return 'property of no object', []
        o = w.d.find(ip, c.data['id'])[1]
        k, ct, at = w.kind(ip, p), w.content(ip, p), p.data['attr']
        if k == 'absent':
            return 'property the class does not have', []
        if k == 'bool':
            return 'boolean', [('set', o, at, w.ask(ip, ('text true', p)))]
        t = (p.data.setdefault('text', Atom(p, 'text', sem='text')),)
        if k in ('int', 'float'):
            return ('integer' if k == 'int' else k), [('set', o, at, Conv(NAMES[k], t))]
        if k == 'str':
            return ('string' if ct == 'text' else 'empty string'), [('set', o, at, mk(t) if ct == 'text' else '')]
        if k in ('enum', 'enum-unset'):
            w.resource(ip, p)
            return 'enumeration' + (', unset before' if k != 'enum' else ''), [('set', o, at, mk((p.data['lit'],)))]
        w.resource(ip, p)
        tk = (p.data['target'],)
        if not w.in_d(ip, tk):
            return 'reference to no object', []
        v = w.d.find(ip, tk)[1]
        if k == 'one-unset':
            return 'to-one reference', [('set', o, at, v)]
        if k == 'one-set':
            return 'to-one reference already set', []
        return 'to-many reference', [('call', o, norm(['add', *at]), v)]

    def settle(w, ip):
        s = w.active
        effs, w.effects = w.effects, []
        end, w.ending = w.ending, None
        role = w.role(s) if s is not None else None
        o = None
        if s is not None:
            if role == 'P1' and s.cls is not None and s.cls.owner.alive:
                o = s.cls.owner
            elif role == 'P2' and s.prop is not None and s.prop.owner.alive:
                o = s.prop.owner
        if effs:
            if o is None or o.data.get('done'):
                if not (o is not None and w.same(ip, effs, w.expected(ip, role, o)[1])):
                    raise Mismatch('nothing else changes the model', 'unexpected %s %s' % (w.show(effs), 'during pass %s' % role if s else 'before the document is read'))
            else:
                lab, exp = w.expected(ip, role, o)
                if not w.same(ip, effs, exp):
                    raise Mismatch(lab, 'expected %s, the code does %s' % (w.show(exp) or 'nothing', w.show(effs)))
                o.data['done'] = True
        if end is not None:
            if end is o:
                lab, exp = w.expected(ip, role, o) if not o.data.get('done') else (o.data.get('label', ''), [])
                if not o.data.get('done') and exp and not w.idle_ok(ip, o, exp):
                    raise Mismatch(lab, 'expected %s, the code does nothing' % w.show(exp))
            end.alive = False
            if end.kind[0] == 'C' and s is not None and s.prop is not None:
                s.prop.owner.alive = False

    def expected(w, ip, role, o):
        if role == 'P1':
            r = o.data['exp'] if 'exp' in o.data else w.expected_class(ip, o)
        else:
            r = w.expected_prop(ip, o)
        o.data['label'] = r[0]
        w.stats['covered'][r[0]] = w.stats['covered'].get(r[0], 0) + 1
        return r

    def idle_ok(w, ip, o, exp):
        """An addition of an object already listed needs no action."""
        e = exp[0]
        return e[0] == 'call' and w.memo.get(('listed', o, w.obj_key(e[3]))) is True

    def same(w, ip, effs, exp):
        out = []
        for e in effs:
            if out and w.eff_eq(ip, out[-1], e):
                continue
            if out and out[-1][0] == e[0] == 'set' and out[-1][1:3] == e[1:3] and not isinstance(e[3], Obj) and not isinstance(out[-1][3], Obj):
                out[-1] = e
                continue
            out.append(e)
        if not exp and len(out) == 1 and out[0][0] == 'set' and isinstance(out[0][3], Obj):
            # a reference set again to the object it holds
            k = ('same',) + tuple(sorted((w.obj_key(out[0][3]), ('held', w.active.prop.owner if w.active and w.active.prop else None)), key=repr))
            return w.memo.get(k) is True
        return len(out) == len(exp) and all(w.eff_eq(ip, x, y) for x, y in zip(out, exp))

    def eff_eq(w, ip, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'store':
            return decide_eq(a[1], b[1]) is True and w.val_eq(ip, a[2], b[2])
        return w.val_eq(ip, a[1], b[1]) and decide_eq(a[2], b[2]) is True and w.val_eq(ip, a[3], b[3])

    def val_eq(w, ip, a, b):
        if isinstance(b, tuple) and b and b[0] == 'new':
            return isinstance(a, New) and a.cls.pm is not None and a.cls.pm is w.pm and decide_eq(a.cls.tag, b[1]) is True and \
                isinstance(a.uuid, (str, SStr)) and decide_eq(parts_of(a.uuid), b[2]) is True
        if a is b:
            return True
        if isinstance(a, Entry) and isinstance(b, Entry):
            return a.m is b.m and a.ver == b.ver and a.k == b.k
        if isinstance(a, Conv) and isinstance(b, Conv):
            return a.typ is b.typ and decide_eq(w.unstrip(a.parts), w.unstrip(b.parts)) is True
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return decide_eq(parts_of(a), parts_of(b)) is True
        if isinstance(a, (Sym, tuple)) or isinstance(b, (Sym, tuple)):
            return False
        return type(a) is type(b) and a == b

    def unstrip(w, p):
        while len(p) == 1 and isinstance(p[0], Fn) and p[0].name == 'strip' and len(p[0].args) == 1:
            p = p[0].args[0]
        return p

    def show(w, effs):
        def v(x):
            if isinstance(x, New):
                return 'a new %s with UUID %s' % (x.cls, show(parts_of(x.uuid)) if isinstance(x.uuid, (str, SStr)) else x.uuid)
            if isinstance(x, tuple) and x and x[0] == 'new':
                return 'a new %s with UUID %s' % (show(x[1]), show(x[2]))
            return repr(x)
        return '; '.join('%s %s' % (e[0], ', '.join(show(x) if isinstance(x, tuple) and not (x and x[0] == 'new') else v(x) for x in e[1:])) for e in effs)

    # ---------------------------------------------------------------- cuts
    def dead(w, o):
        return not o.alive or o in w.trans

    def is_dead(w, v, depth=0):
        if isinstance(v, SStr):
            return any(w.dead(o) for o in owners(v.parts))
        if isinstance(v, Elem):
            return w.dead(v.owner)
        if isinstance(v, (Attrib, ElemGet, Clear)):
            return w.dead(v.e.owner)
        if isinstance(v, Entry):
            return v.ver != v.m.ver or any(w.dead(o) for o in owners(v.k))
        if isinstance(v, New):
            return any(w.dead(o) for o in owners(v.cls.tag)) or isinstance(v.uuid, SStr) and w.is_dead(v.uuid)
        if isinstance(v, SModule):
            return any(w.dead(o) for o in owners(v.name))
        if isinstance(v, SKlass):
            return any(w.dead(o) for o in owners(v.tag))
        if isinstance(v, (Held, RefList, Val, Method)):
            return v.p is not None and w.dead(v.p)
        if isinstance(v, Conv):
            return any(w.dead(o) for o in owners(v.parts))
        if isinstance(v, StrMethod):
            return w.is_dead(v.o)
        if isinstance(v, SLen):
            return any(w.dead(o) for a, _ in v.lin.t for o in owners((a,)))
        if isinstance(v, (SplitTail, SplitUnknown, PopLast, ClassOf, BaseException)):
            return True
        if isinstance(v, tuple):
            return any(w.is_dead(x) for x in v)
        return False

    def clean(w, v, seen):
        """v with everything that belongs to passed elements forgotten."""
        if w.is_dead(v):
            return STALE
        if isinstance(v, Stream) or isinstance(v, NextOf):
            w.reach.add(v if isinstance(v, Stream) else v.o)
            return v
        if isinstance(v, SMap):
            if id(v) in seen:
                return v
            seen[id(v)] = v
            keep, drop = [], []
            for k, x in v.chain:
                (drop if any(w.dead(o) for o in owners(k)) or v is w.d or w.is_dead(x) else keep).append((k, x))
            live = []
            if v is w.d:
                # entries are forgotten except those under live keys
                for k, x in drop:
                    if not any(w.dead(o) for o in owners(k)):
                        live.append(k)
            if drop:
                lits = [('rdf',), ('cim',)]
                v.notin = frozenset(l[0] for l in lits if (v.base == 'empty' or l[0] in v.notin) and all(decide_eq(l, k) is False for k, _ in drop))
                if v.kind == 'own' and v is not w.d and v.shapes is not None:
                    sh = [v.shape(k, x) for k, x in drop]
                    v.shapes = None if None in sh else v.shapes | frozenset(sh)
                v.base = 'any'
                v.ver += 1
                for k in live:
                    w.memo[('in', v, v.ver, k)] = True
            v.chain = keep
            for k, x in keep:
                w.clean(x, seen)
            return v
        if isinstance(v, list) and id(v) in w.created:
            if id(v) not in seen:
                seen[id(v)] = v
                v[:] = [w.clean(x, seen) for x in v]
            return v
        if isinstance(v, tuple):
            return tuple(w.clean(x, seen) for x in v)
        return v

    def live_key(w, k):
        """Is every thing a remembered fact talks about still there?"""
        if isinstance(k, Owner):
            return not w.dead(k)
        if isinstance(k, (Atom, Fn)):
            return not any(w.dead(o) for o in owners((k,)))
        if isinstance(k, tuple):
            if len(k) == 4 and k[0] == 'in' and isinstance(k[1], SMap):
                return k[2] == k[1].ver and w.live_key(k[3])
            if len(k) == 4 and k[0] == 'entry':
                return k[2] == k[1].ver and w.live_key(k[3])
            if len(k) == 3 and k[0] == 'nonempty':
                return k[2] == k[1].ver
            return all(w.live_key(x) for x in k)
        return True

    def cut(w, ip, node):
        w.settle(ip)
        w.forget(ip, node)
        # passes nothing refers to any more are over
        w.reach = set(w.held)
        seen = {}
        for fr in ip.frames:
            while fr is not None:
                for v in fr.vars.values():
                    w.clean(v, {}) if isinstance(v, (Stream, NextOf, tuple)) else None
                    if isinstance(v, list):
                        w.reach |= {x for x in v if isinstance(x, Stream)}
                fr = fr.parent
        for s in w.streams:
            if s not in w.reach and not s.over:
                s.over = True
                for e in (s.cls, s.prop):
                    if e is not None:
                        e.owner.alive = False
                for o in (s.f, s.root and s.root.owner):
                    if o is not None:
                        o.alive = False
                if w.active is s:
                    w.active = None
        for fr in ip.frames:
            f = fr
            while f is not None:
                if id(f) in seen:
                    break
                seen[id(f)] = f
                for k in list(f.vars):
                    f.vars[k] = w.clean(f.vars[k], seen)
                f = f.parent
        w.memo = {k: v for k, v in w.memo.items() if w.live_key(k)}
        w.owners = [o for o in w.owners if not w.dead(o)]
        kinds = [o.kind for o in w.owners]
        w.trans = []
        key = w.canon(ip, node)
        at = len(ip.ex.taken)
        first = w.seen.get(key)
        if first is None:
            w.seen[key] = tuple(ip.ex.taken)
            w.stats['states'] += 1
            if w.stats['states'] > 3000:
                raise Limit('more than 3000 states at loop heads')
        elif first != tuple(ip.ex.taken):
            raise PathEnd()
        if any(kinds.count(k) > 1 for k in kinds):
            raise Unsupported('two live elements of one kind')

    def forget(w, ip, node):
        """Drop the variables no continuation reads."""
        k = len(ip.frames) - 1
        inner = True
        cur = None
        for p in reversed(ip.pos):
            if isinstance(p, tuple):
                if p[0] == 'call':
                    fr = ip.frames[k]
                    k -= 1
                    lv = liveness.of(fr.node)
                    s = lv.at_head(node) if inner else lv.during(cur) if cur is not None else None
                    inner, cur = False, None
                    if s is not None:
                        for n in list(fr.vars):
                            if n not in s:
                                fr.vars[n] = STALE
            elif cur is None:
                cur = p

    def canon(w, ip, node):
        ids = {}
        out = []

        def nm(o):
            return o.kind

        def st(p):
            if isinstance(p, tuple):
                if len(p) > 2 and p[0] in ('in', 'entry', 'nonempty') and isinstance(p[1], SMap) and p[2] == p[1].ver:
                    p = p[:2] + p[3:]      # how often the map has been cleaned does not matter
                return '(' + ','.join(st(x) for x in p) + ')'
            if isinstance(p, Owner):
                return 'own:' + p.kind
            if isinstance(p, Atom):
                return '<%s.%s>' % (p.owner.kind, p.field)
            if isinstance(p, Fn):
                return '%s[%s]' % (p.name, ','.join(st(a) for a in p.args))
            if isinstance(p, Lin):
                return '%d+%s' % (p.c, ','.join(st(a) + str(k) for a, k in p.t))
            if isinstance(p, (SMap,)):
                return c(p)
            return repr(p)

        def c(v):
            if v is None or isinstance(v, (bool, int, float, str)):
                return repr(v)
            if isinstance(v, SStr):
                return 's' + st(v.parts)
            if isinstance(v, Elem):
                return 'elem:%s%s' % (v.owner.kind, v.cleared)
            if isinstance(v, SMap):
                if id(v) in ids:
                    return 'm%d' % ids[id(v)]
                ids[id(v)] = len(ids)
                return 'm%d=%s%s%s%s{%s}' % (ids[id(v)], v.kind, v.site, v.base, sorted(v.notin) + ['?' if v.shapes is None else sorted(map(repr, v.shapes))], ','.join(sorted(st(k) + ':' + c(x) for k, x in v.chain))) + ('D' if v is w.d else '')
            if isinstance(v, tuple):
                return '(' + ','.join(c(x) for x in v) + ')'
            if isinstance(v, list):
                if id(v) in ids:
                    return 'l%d' % ids[id(v)]
                ids[id(v)] = len(ids)
                return 'l%d[' % ids[id(v)] + ','.join(c(x) for x in v) + ']'
            if isinstance(v, Entry):
                return 'entry' + st(v.k) + c(v.m)
            if isinstance(v, New):
                return 'new' + st(v.cls.tag) + c(v.uuid)
            if isinstance(v, SModule):
                return 'mod' + st(v.name)
            if isinstance(v, SKlass):
                return 'kls' + st(v.tag)
            if isinstance(v, (Held, RefList, Val, Method)):
                return type(v).__name__ + nm(v.p) + str(getattr(v, 'name', ''))
            if isinstance(v, Conv):
                return 'conv' + v.typ.__name__ + st(v.parts)
            if isinstance(v, Stream):
                return 'stream%d' % v.number
            if isinstance(v, (StrMethod, Attrib, ElemGet, Clear, Seek, NextOf, MapMethod, MapIter, SLen, Bound)):
                return type(v).__name__ + ','.join('%s=%s' % (k, c(x) if not isinstance(x, Lin) else st(x)) for k, x in sorted(vars(v).items()))
            if isinstance(v, (Stale, Num, Opaque, NoOp, Dummy, Source)):
                return type(v).__name__
            if isinstance(v, Closure):
                return 'closure%d@%s' % (v.node.lineno, frame(v.frame))
            if isinstance(v, Sym):
                raise Unsupported('%s at a loop head' % type(v).__name__)
            if isinstance(v, dict):
                return 'dict%d' % id(v)
            if type(v) is object:
                ids.setdefault(id(v), len(ids))
                return 'marker%d' % ids[id(v)]
            if isinstance(v, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType, types.MethodDescriptorType, logging.Logger)):
                return repr(v)
            if isinstance(v, frozenset):
                return repr(sorted(v, key=repr))
            return '%s%d' % (type(v).__name__, id(v))

        def frame(f):
            if f is None:
                return ''
            if id(f) in ids:
                return 'f%d' % ids[id(f)]
            ids[id(f)] = len(ids)
            return 'f%d{' % ids[id(f)] + ';'.join('%s=%s' % (k, c(v)) for k, v in sorted(f.vars.items()) if v is not STALE) + '}' + frame(f.parent)
        out.append(frame_pos(ip))
        for f in ip.frames:
            out.append(frame(f))
        for p in ip.pos:
            if isinstance(p, tuple) and p[0] == 'for':
                out.append('%d/%s' % (p[1], c(list(p[2]))))
        for f in ip.frames:
            out.append(str(len(getattr(f, 'handling', []) or [])))
        out.append('at0=%s reader=%s active=%s p=%d' % (w.src.at0, w.src.reader.number if w.src.reader else None, w.active.number if w.active else None, w.pcount))
        for s in w.streams:
            if s.over:
                out.append('%d over %s %s' % (s.number, s.role, s.exhausted))
                continue
            out.append('%d %s %s %s %s %s %s %s' % (s.number, s.st, s.ret if s.st == 'F' else '', s.role, [d[0] for d in s.decl], s.started, s.exhausted, sorted(s.events)))
            for e in (s.cls, s.prop):
                if e is not None and e.owner.alive:
                    d = e.owner.data
                    out.append('%s %s %s %s %s' % (e.owner.kind, d.get('idk'), d.get('done', False), d.get('dotted'), e.ended))
        out.append('d=%s' % (c(w.d) if w.d is not None else None))
        out.append('|'.join(sorted('%s->%s' % (st(k), v) for k, v in w.memo.items())))
        return '\n'.join(out)

    # --------------------------------------------------------------- hooks
    def global_write(w, ip, o, what):
        raise Mismatch('no state is kept between reads', 'write to a shared %s (%s)' % (type(o).__name__, what))

    def may_mutate(w, ip, o):
        return id(o) in w.created

    def list_display(w, ip, xs):
        w.created[id(xs)] = xs
        return xs

    def dict_display(w, ip, d, e):
        m = SMap('own', (e.lineno, e.col_offset))
        w.stats['sites'].add(m.site)
        for k, v in d.items():
            m.chain.append((m.key(mk(k) if isinstance(k, tuple) and k and isinstance(k[0], (Atom, Fn)) else k), v))
        return m

    def dict_key(w, ip, k):
        if isinstance(k, SStr):
            return k.parts
        raise Unsupported('symbolic dictionary key')

    def native_setattr(w, ip, o, name, v):
        raise Mismatch('no state is kept between reads', 'assignment to attribute %s of a shared %s' % (name, type(o).__name__))

    def native_getattr(w, ip, o, name):
        if isinstance(o, logging.Logger):
            return NoOp(name)
        if isinstance(name, SStr):
            raise Unsupported('symbolic attribute of a native value')
        return NotImplemented

    def native_method(w, ip, m, name, args, kw):
        if m is None or isinstance(m, (int, float)):
            raise PyRaise(TypeError('%s is not subscriptable' % type(m).__name__))
        if isinstance(m, str):
            if name == '__getitem__':
                return SStr((m,)).s_getitem(ip, args[0]) if m else ''
            if name == 'join' and isinstance(args[0], (list, tuple)):
                return str_method(ip, SStr((m,)), name, args, kw)
            if name == 'format':
                return w.str_format(ip, m, args, kw)
            return str_method(ip, SStr((m,) if m else ()), name, args, kw)
        if isinstance(m, dict):
            if name in ('__setitem__', 'setdefault', 'pop', 'update'):
                w.global_write(ip, m, name)
            f = w.native_map(ip, m, args[0])
            if f is NotImplemented:
                return f
            if name == '__getitem__':
                if f is None:
                    raise PyRaise(KeyError('?'))
                return f
            if name == 'get':
                return f if f is not None else (args[1] if len(args) > 1 else None)
        return NotImplemented

    def native_map(w, ip, m, k):
        """Value of a native string map for a symbolic key, None if absent."""
        if not isinstance(k, SStr):
            return NotImplemented
        import CIM14, CIM15
        if m is CIM14.packageMap or m is CIM15.packageMap:
            return SStr((Fn('pm', m, k.parts),)) if w.ask(ip, ('native map', id(m), k.parts)) else None
        if len(m) <= 12 and all(isinstance(x, str) for x in m) and w.constant_dict(m):
            for x, v in m.items():
                if w.str_eq(ip, k.parts, parts_of(x)):
                    return v
            return None
        return NotImplemented

    def constant_dict(w, m):
        """A module-level table nothing in the reader's module writes to."""
        import PyCIM.RDFXMLReader as R
        names = [n for n, v in vars(R).items() if v is m]
        if not names:
            return False
        for n in ast.walk(src.tree(R.__file__)):
            t = None
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name) and n.value.id in names:
                t = n
                if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                    return False
                if isinstance(n, ast.Attribute) and n.attr in I.MUTATORS:
                    return False
        return True

    def contains_native(w, ip, a, b):
        if isinstance(b, dict):
            r = w.native_map(ip, b, a)
            if r is NotImplemented:
                raise Unsupported('membership in a native map')
            return r is not None
        if isinstance(b, (tuple, list, set, frozenset)):
            for x in b:
                if x is a or ip.truth(ip.compare(ast.Eq(), a, x, None)):
                    return True
            return False
        if isinstance(b, str):
            if not isinstance(a, SStr):
                raise PyRaise(TypeError('in <string>'))
            if len(a.parts) == 1 and b in [b]:
                return w.ask(ip, ('contains', (b,), a.parts), True)
        raise Unsupported('membership of a symbolic value')

    def unpack(w, ip, v, n):
        if isinstance(v, Opaque):
            return [Opaque() for _ in range(n)]
        if isinstance(v, (SplitTail, SplitUnknown)):
            if n == 2 and isinstance(v, SplitTail) and v.mx == 1:
                return [v.head, v.tail]
            raise Unsupported('unpacking pieces of a split')
        raise Unsupported('unpacking a symbolic value')

    def format(w, ip, fmt, args):
        out, i, k = [], 0, 0
        while i < len(fmt):
            if fmt[i] != '%':
                out.append(fmt[i])
                i += 1
                continue
            if fmt[i + 1:i + 2] == '%':
                out.append('%')
                i += 2
                continue
            j = i + 1
            while j < len(fmt) and fmt[j] in '0123456789.+- #':
                j += 1
            c = fmt[j]
            if k >= len(args):
                raise PyRaise(TypeError('not enough arguments for format string'))
            a = args[k]
            k += 1
            if c == 's' and j == i + 1:
                out.append(w.text_of(ip, a))
            elif c in 'dfeg':
                if isinstance(a, (str, SStr)) or a is None:
                    raise PyRaise(TypeError('a number is required'))
                out.append(w.opaque_str(ip))
            else:
                out.append(w.opaque_str(ip))
            i = j + 1
        if k < len(args):
            raise PyRaise(TypeError('not all arguments converted'))
        return w.concat(ip, out)

    def text_of(w, ip, a):
        if isinstance(a, (str, SStr)):
            return a
        if isinstance(a, Sym):
            return a.s_str(ip) if type(a).s_str is not Sym.s_str else w.opaque_str(ip)
        if isinstance(a, (int, float)) or a is None:
            return str(a)
        return w.opaque_str(ip)

    def str_format(w, ip, fmt, args, kw):
        out, n = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                out.append(lit)
                if field is None:
                    continue
                if field == '':
                    a, n = args[n], n + 1
                elif field.isdigit():
                    a = args[int(field)]
                elif field in kw:
                    a = kw[field]
                else:
                    raise Unsupported('format field')
                out.append(w.text_of(ip, a) if not spec and conv in (None, 's') else w.opaque_str(ip))
        except IndexError as e:
            raise PyRaise(e)
        return w.concat(ip, out)

    def concat(w, ip, parts):
        ps = ()
        for x in parts:
            ps += parts_of(x)
        return mk(ps)

    def while_(w, ip, s, fr):
        while True:
            w.cut(ip, s)
            if not ip.truth(ip.ev(s.test, fr)):
                ip.block(s.orelse, fr)
                return True
            try:
                ip.block(s.body, fr)
            except _Break:
                return True
            except _Continue:
                continue

    def comp_sym(w, ip, e, it, sub):
        if isinstance(it, MapIter) or isinstance(it, SMap):
            return Opaque()
        return NotImplemented

    def call(w, ip, f, args, kw):
        mod = getattr(f, '__module__', None)
        name = getattr(f, '__name__', '')
        if name == 'iterparse' and mod is not None and 'ElementTree' in mod:
            if not args or not isinstance(args[0], Source):
                raise Unsupported('iterparse of something else')
            ev = args[1] if len(args) > 1 else kw.get('events', None)
            if len(args) > 2 or set(kw) - {'events'}:
                raise Unsupported('iterparse arguments')
            ev = ('end',) if ev is None else tuple(ev)
            if not all(isinstance(x, str) for x in ev):
                raise Unsupported('iterparse events')
            if not set(ev) <= set(EVENTS):
                raise PyRaise(ValueError('unknown event'))
            if set(ev) & {'comment', 'pi'}:
                raise Unsupported('comment events')
            s = Stream(w, args[0], ev, len(w.streams))
            w.streams.append(s)
            if len(w.streams) > 6:
                raise Unsupported('more than six passes')
            return s
        if f is next and args and isinstance(args[0], Stream):
            e = args[0].fetch(ip)
            if e is None:
                if len(args) > 1:
                    return args[1]
                raise PyRaise(StopIteration())
            return e
        if f in (globals, locals) and not args:
            return Dummy()
        if f is __import__:
            n = args[0]
            if isinstance(n, SStr):
                fl = args[3] if len(args) > 3 else kw.get('fromlist')
                if not fl or (args[4] if len(args) > 4 else kw.get('level', 0)) != 0:
                    raise Unsupported('import of a package without a list of names')
                return SModule(n.parts)
            fl = args[3] if len(args) > 3 else kw.get('fromlist', [])
            if (args[4] if len(args) > 4 else kw.get('level', 0)) != 0:
                raise Unsupported('relative import')
            return ip.native(__import__, [n, {}, {}, [x for x in fl if isinstance(x, str)] or ([''] if fl else [])], {})
        if f is importlib.import_module:
            if isinstance(args[0], SStr):
                return SModule(args[0].parts)
            return ip.native(f, args, kw)
        if mod == 'time' or f in (time_mod.time, getattr(time_mod, 'perf_counter', None), getattr(time_mod, 'monotonic', None)):
            return Num()
        if f is logging.getLogger:
            return f(*[a for a in args if isinstance(a, str)])
        if mod == 'logging' and name in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'warn', 'log') or f is print:
            return None
        if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str:
            if args[0] is None or not isinstance(args[0], (str, SStr)):
                raise PyRaise(TypeError('descriptor of str'))
            if isinstance(args[0], SStr):
                return str_method(ip, args[0], f.__name__, args[1:], kw)
            if ip.has_sym(args):
                return str_method(ip, SStr(parts_of(args[0])), f.__name__, args[1:], kw)
            return ip.native(f, args, kw)
        if f in (int, float) and len(args) == 1 and isinstance(args[0], (SStr, Conv)):
            return w.convert(ip, f, args[0])
        if f is int and len(args) == 1 and isinstance(args[0], (Num, Val, SLen)) or f is float and len(args) == 1 and isinstance(args[0], (Num, Val)):
            return Num()
        if f is str and len(args) == 1 and isinstance(args[0], Conv):
            return w.opaque_str(ip)
        if f is type(None) and args:
            raise PyRaise(TypeError('NoneType takes no arguments'))
        if f in (list, tuple, set) and len(args) == 1 and isinstance(args[0], SStr):
            return Opaque()
        if f in (list, sorted, tuple, reversed) and len(args) == 1 and isinstance(args[0], (MapIter, SMap)):
            return args[0] if isinstance(args[0], MapIter) else MapIter(args[0], 'keys')
        if f is list and len(args) == 1 and isinstance(args[0], RefList):
            return Opaque()
        if f in (sum, len, max, min) and args and isinstance(args[0], (MapIter, Opaque)):
            return Num()
        if f in (round, abs) and isinstance(args[0], Num):
            return Num()
        if f in (dict, collections.OrderedDict) and not kw:
            if not args or isinstance(args[0], list) and not args[0]:
                return w.alloc(ip)
            if len(args) == 1 and isinstance(args[0], SMap):
                m = w.alloc(ip)
                o = args[0]
                if o.base == 'empty':
                    m.chain = list(o.chain)
                    return m
                if o is not w.d and o.kind == 'own':
                    m.chain, m.base, m.notin = list(o.chain), o.base, o.notin
                    return m
                raise Unsupported('copy of a map')
        if f is collections.defaultdict and not kw and len(args) == 1:
            m = w.alloc(ip)
            m.default = args[0]
            return m
        if f is collections.Counter and not args and not kw:
            m = w.alloc(ip)
            m.default = int
            return m
        if f is id and isinstance(args[0], Sym):
            return Num()
        return NotImplemented

    def alloc(w, ip):
        n = ip.cur_call
        m = SMap('own', (n.lineno, n.col_offset) if n is not None else None)
        w.stats['sites'].add(m.site)
        return m

    def convert(w, ip, f, v):
        if isinstance(v, Conv):
            return Conv(f, (Fn(v.typ.__name__, v.parts),))
        p = v.parts
        q = w.unstrip(p)
        if len(q) == 1 and isinstance(q[0], Atom) and q[0].sem == 'text':
            k = w.kind(ip, q[0].owner)
            if k == f.__name__ or (k == 'int' and f is float):
                return Conv(f, p)
        if w.ask(ip, ('convertible', f.__name__, p)):
            return Conv(f, p)
        raise PyRaise(ValueError('invalid literal'))


def frame_pos(ip):
    """Position of the interpreter; refuses positions with pending temporaries."""
    out = []
    for i, p in enumerate(ip.pos):
        if isinstance(p, tuple):
            if p[0] == 'call':
                if i > 0:
                    st = next((q for q in reversed(ip.pos[:i]) if not isinstance(q, tuple)), None)
                    c = p[1]
                    ok = c is None
                    if st is not None:
                        for e in (getattr(st, 'value', None), getattr(st, 'test', None), getattr(st, 'iter', None), getattr(st, 'exc', None)):
                            while isinstance(e, ast.UnaryOp):
                                e = e.operand
                            if e is c:
                                ok = True
                            if isinstance(e, ast.Compare) and e.left is c:
                                ok = True
                            if isinstance(e, (ast.BoolOp,)) and any(x is c or isinstance(x, ast.UnaryOp) and x.operand is c for x in e.values):
                                ok = True
                            # list(f(...)), iter(f(...)): a single call around it
                            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) == 1 and e.args[0] is c and not e.keywords:
                                ok = True
                            if isinstance(e, ast.Subscript) and e.value is c:
                                ok = True
                    if not ok:
                        raise Unsupported('a loop over events inside an expression')
                    out.append('call%s' % (getattr(c, 'lineno', None), ))
            continue
        out.append('%s%d.%d' % (type(p).__name__, p.lineno, p.col_offset))
    return '/'.join(out)
