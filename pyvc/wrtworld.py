"""Domain of cimwrite (C12): an arbitrary map of objects, seen through one
arbitrary object of a given class, and the contract of XMLWriter (C11).

The object's fields are in one of finitely many states (attribute at its default
or not, enumeration and reference set or not); conditions on them become guards,
and the calls on the writer build a guarded tree.  A loop over the map is run
once, for an arbitrary iteration from an arbitrary state of the loop: locals
live at the head hold any of the values seen there in any iteration of any
class, and the code after the loop sees any of the ways the loop is left."""
import ast, types, inspect, logging, string, time as time_mod
from . import src, liveness
from .interp import Interp, Explorer, Sym, Unsupported, PyRaise, PathEnd, Bound, Closure, _Return, _Break, _Continue, MUTATORS
from .guard import *
from .guard import truth_guard
from .sstr import *
from .sstr import join as sjoin
from .guard import join
from .rdrworld import Num, NoOp, RdrWorld


class Mismatch(Exception):
    def __init__(s, ob, detail, definite=True):
        s.ob, s.detail, s.definite = ob, detail, definite


class Restart(Exception):
    pass


class Havoc(Sym):
    """A variable nothing is known about."""
    unknown = True


# ---------------------------------------------------------------- the object
class SVal(Sym):
    """Value of a number or boolean attribute."""
    never_none = True

    def __init__(s, f, typ, dflt): s.f, s.typ, s.dflt = f, typ, dflt

    def __repr__(s): return '<value of %s>' % s.f
    def s_type(s, ip): return s.typ
    def s_isinstance(s, ip, k): return issubclass(s.typ, k)
    def s_str(s, ip): return SStr((ip.w.text(s.f),))
    def truth_guard(s, ip): return NOT(ip.w.const(s.f, s.typ()))
    def s_truth(s, ip): return ip.w.fork(ip, s.truth_guard(ip))
    def s_not(s, ip): return wrap(NOT(s.truth_guard(ip)))

    def s_cmp(s, ip, op, o, sw):
        if o is None:
            return op in ('!=', 'is not')
        if o is s:
            return op in ('==', 'is', '<=', '>=')
        if isinstance(o, bool) and s.typ is bool and op in ('is', 'is not'):
            op = '==' if op == 'is' else '!='
        if op in ('==', '!='):
            if isinstance(o, (SStr, str)) or not isinstance(o, Sym) and not isinstance(o, (bool, int, float)):
                return op == '!='
            if not isinstance(o, Sym):
                g = ip.w.const(s.f, o)
                return wrap(g if op == '==' else NOT(g))
        if isinstance(o, (SStr, str)):
            raise PyRaise(TypeError('ordering of a string and a number'))
        return ip.w.unknown(('cmp', s.f, op, repr(o)))

    def s_getattr(s, ip, name):
        if not hasattr(s.typ, name):
            raise PyRaise(AttributeError(name))
        s.un('attribute %s' % name)


class SText(SStr):
    """Value of a string attribute or of an enumeration attribute that is set."""

    def __init__(s, ip_w, f):
        super().__init__((ip_w.text(f),))
        s.f, s.w = f, ip_w

    def s_cmp(s, ip, op, o, sw):
        if o is s:
            return op in ('==', 'is', '<=', '>=')
        if op in ('==', '!=') and isinstance(o, str):
            g = ip.w.const(s.f, o)
            return wrap(g if op == '==' else NOT(g))
        if op in ('is', 'is not') and isinstance(o, (str, SStr)):
            return ip.w.unknown(('is', s.f, repr(o)))
        return super().s_cmp(ip, op, o, sw)

    def truth_guard(s, ip): return NOT(ip.w.const(s.f, ''))
    def s_truth(s, ip): return ip.w.fork(ip, s.truth_guard(ip))
    def s_not(s, ip): return wrap(NOT(s.truth_guard(ip)))


class STarget(Sym):
    """The object a to-one reference holds."""
    never_none = True

    def __init__(s, r, key, klass=None): s.r, s.key, s.klass = r, key, klass     # klass: exact class, when the state determines it

    def __repr__(s): return '<object in %s>' % s.r
    def s_truth(s, ip): return True

    def s_getattr(s, ip, name):
        if name in ('UUID', 'URI'):
            if name == 'URI' and 'URI' not in ip.w.m.all_attrs(s.key):
                raise PyRaise(AttributeError(name))
            return SStr((ip.w.atom('target %s of %s' % (name, s.r)),))
        if name == '__class__' and s.klass:
            return s.klass
        s.un('attribute %s' % name)

    def s_setattr(s, ip, name, v): raise Mismatch('objects and map are not modified', 'assignment to %s of the object in %s' % (name, s.r))

    def s_isinstance(s, ip, k):
        ks = k if isinstance(k, tuple) else (k,)
        if s.klass:
            return issubclass(s.klass, ks)
        T = ip.w.m.cls(s.key)
        if any(issubclass(T, x) for x in ks):
            return True
        if not any(isinstance(x, type) and issubclass(x, T) for x in ks):
            return False
        return ip.w.unknown(('isinstance', s.r, repr(k)))

    def s_type(s, ip): return s.klass or s.un('type()')

    def s_cmp(s, ip, op, o, sw):
        if o is s:
            return op in ('==', 'is')
        if isinstance(o, (SObj, STarget)):
            return ip.w.unknown(('same', s.r, repr(o))) if op in ('is', '==') else wrap(NOT(ip.w.unknown(('same', s.r, repr(o))).g))
        if not isinstance(o, Sym):
            return op in ('is not', '!=')
        s.un('comparison ' + op)


class SMembers(Sym):
    """The list behind a to-many reference."""
    never_none = True

    def __init__(s, r): s.r = r

    def __repr__(s): return '<members of %s>' % s.r
    def s_len(s, ip): return Num()
    def truth_guard(s, ip): return ip.w.unknown(('any members', s.r)).g
    def s_truth(s, ip): return ip.w.fork(ip, s.truth_guard(ip))
    def s_type(s, ip): return list
    def s_isinstance(s, ip, k): return list in (k if isinstance(k, tuple) else (k,))

    def s_cmp(s, ip, op, o, sw):
        if o is None or isinstance(o, (str, int, float)):
            return op in ('!=', 'is not')
        s.un('comparison ' + op)

    def s_getattr(s, ip, name):
        if name in MUTATORS:
            raise Mismatch('objects and map are not modified', '%s of the members of %s' % (name, s.r))
        if not hasattr(list, name):
            raise PyRaise(AttributeError("'list' object has no attribute %r" % name))
        s.un('attribute %s' % name)

    def s_setitem(s, ip, k, v): raise Mismatch('objects and map are not modified', 'members of %s' % s.r)
    def s_delitem(s, ip, k): raise Mismatch('objects and map are not modified', 'members of %s' % s.r)


class SVars(Sym):
    """obj.__dict__"""
    never_none = True

    def __init__(s, o): s.o = o

    def s_getitem(s, ip, k):
        v = s.o.field(ip, k)
        if v is NotImplemented:
            raise PyRaise(KeyError(k))
        return v

    def s_contains(s, ip, k): return s.o.field(ip, k) is not NotImplemented
    def s_setitem(s, ip, k, v): raise Mismatch('objects and map are not modified', 'assignment to field %s' % (k,))

    def s_getattr(s, ip, name):
        if name == 'get':
            return VarsGet(s)
        if name in MUTATORS:
            raise Mismatch('objects and map are not modified', '%s of the fields' % name)
        s.un('attribute %s' % name)


class VarsGet(Sym):
    never_none = True

    def __init__(s, o): s.o = o

    def s_call(s, ip, args, kw):
        v = s.o.o.field(ip, args[0])
        return (args[1] if len(args) > 1 else None) if v is NotImplemented else v


class SObj(Sym):
    """An arbitrary object of class key; K is the real class."""
    never_none = True

    def __init__(s, key, K): s.key, s.K = key, K

    def __repr__(s): return '<the object>'
    def s_truth(s, ip): return True
    def s_type(s, ip): return s.K
    def s_isinstance(s, ip, k): return issubclass(s.K, k)

    def field(s, ip, name):
        w = ip.w
        if name in w.fields:
            v = w.fields[name]
            return v() if isinstance(v, types.FunctionType) else v
        return NotImplemented

    def s_getattr(s, ip, name):
        w = ip.w
        if isinstance(name, SStr):
            s.un('computed attribute')
        if name == '__class__':
            return s.K
        if name == '__dict__':
            return SVars(s)
        a = None
        for c in s.K.__mro__:
            if name in c.__dict__:
                a = c.__dict__[name]
                break
        if isinstance(a, property):
            return ip.call(a.fget, [s], {})
        v = s.field(ip, name)
        if v is not NotImplemented:
            return v
        if a is None:
            raise PyRaise(AttributeError('%s has no attribute %s' % (s.K.__name__, name)))
        if isinstance(a, types.FunctionType):
            return Bound(a, s)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return Bound(a.__func__, s.K)
        if hasattr(a, '__get__'):
            s.un('attribute %s' % name)
        return a

    def s_setattr(s, ip, name, v):
        raise Mismatch('objects and map are not modified', 'assignment to %s' % (name,))

    def s_cmp(s, ip, op, o, sw):
        if o is s:
            return op in ('==', 'is')
        if isinstance(o, STarget):
            return o.s_cmp(ip, op, s, sw)
        if not isinstance(o, Sym):
            return op in ('is not', '!=')
        s.un('comparison ' + op)


# ------------------------------------------------------------------- the map
class SDict(Sym):
    """The map given to cimwrite."""
    never_none = True

    def __repr__(s): return '<the map>'
    def truth_guard(s, ip): return not ip.w.empty
    def s_truth(s, ip): return not ip.w.empty
    def s_len(s, ip): return 0 if ip.w.empty else Size()
    def s_type(s, ip): return dict
    def s_isinstance(s, ip, k): return issubclass(dict, k)
    def s_iter(s, ip): s.un('iteration')

    def s_getattr(s, ip, name):
        if name in ('items', 'keys', 'values', 'get', 'copy', '__len__', '__iter__', '__contains__', '__getitem__'):
            return MapMethod(s, name)
        if name in MUTATORS or name in ('__delitem__', 'move_to_end'):
            raise Mismatch('objects and map are not modified', 'call of %s of the map' % name)
        s.un('attribute %s' % name)

    def s_getitem(s, ip, k):
        if k is ip.w.key:
            return ip.w.obj
        s.un('subscript')

    def s_contains(s, ip, k):
        if k is ip.w.key:
            return not ip.w.empty
        return ip.w.in_map(k)

    def s_setitem(s, ip, k, v): raise Mismatch('objects and map are not modified', 'assignment to the map')
    def s_delitem(s, ip, k): raise Mismatch('objects and map are not modified', 'deletion from the map')
    def s_loop(s, ip, node, fr, body): return ip.w.loop(ip, node, fr, Seq(ip.w.key))

    def s_cmp(s, ip, op, o, sw):
        if o is s:
            return op in ('==', 'is')
        if o is None:
            return op in ('is not', '!=')
        if isinstance(o, dict) and not o and op in ('==', '!='):
            return ip.w.empty == (op == '==')
        s.un('comparison ' + op)


class Size(Num):
    """Number of objects in a non-empty map."""

    def s_truth(s, ip): return True

    def s_cmp(s, ip, op, o, sw):
        if isinstance(o, (int, float)) and o <= 0 and op in ('==', '!=', '>', '>=', '<', '<='):
            return op in ('!=', '>', '>=') or (op == '<=' and False)
        if o == 1 and op in ('<', '>='):
            return op == '>='
        return super().s_cmp(ip, op, o, sw)


class MapMethod(Sym):
    never_none = True

    def __init__(s, d, name): s.d, s.name = d, name

    def s_call(s, ip, args, kw):
        w, n = ip.w, s.name
        if n in ('items', 'keys', 'values', '__iter__'):
            return Seq({'items': (w.key, w.obj), 'values': w.obj}.get(n, w.key))
        if n == 'copy':
            return s.d
        if n == '__len__':
            return s.d.s_len(ip)
        if n == '__contains__':
            return s.d.s_contains(ip, args[0])
        return s.d.s_getitem(ip, args[0])


class Seq(Sym):
    """One item for each object of the map, in some order; g: only when."""
    never_none = True

    def __init__(s, item, g=True): s.item, s.g = item, g

    def s_loop(s, ip, node, fr, body): return ip.w.loop(ip, node, fr, s)

    def s_len(s, ip):
        return 0 if ip.w.empty or s.g is False else Size() if s.g is True else Num()

    def s_contains(s, ip, x):
        if s.g is not True:
            s.un('membership test')
        if x is s.item:
            return not ip.w.empty
        return ip.w.in_map(x)

    def truth_guard(s, ip):
        if ip.w.empty or s.g is True:
            return not ip.w.empty
        s.un('truth value')

    def s_truth(s, ip): return ip.w.fork(ip, s.truth_guard(ip))
    def s_type(s, ip): s.un('type()')


# ---------------------------------------------------------------- the writer
class Node:
    def __init__(s, tag, attrs, g):
        s.tag, s.attrs, s.g, s.kids = tag, attrs, g, []      # kids: Node, ('data', guard, text), ('loop', [...])


class SWriter(Sym):
    """XMLWriter by its contract."""
    never_none = True
    M = ('start', 'end', 'data', 'element', 'close', 'declaration', 'flush', 'comment')

    def __repr__(s): return '<writer>'
    def s_truth(s, ip): return True

    def s_getattr(s, ip, name):
        if name in s.M:
            return WMethod(name)
        s.un('attribute %s' % name)


class Depth(Sym):
    never_none = True

    def __init__(s, n): s.n = n


class WMethod(Sym):
    never_none = True

    def __init__(s, name): s.name = name

    def s_call(s, ip, args, kw):
        w = ip.w
        f = getattr(s, 'do_' + s.name)
        sig = dict(start=('tag', 'attrib'), element=('tag', 'text', 'attrib'), end=('tag',), data=('text',), close=('id',), declaration=(), flush=(), comment=('comment',))[s.name]
        if len(args) > len(sig):
            raise PyRaise(TypeError('%s: too many arguments' % s.name))
        a = dict(zip(sig, args))
        extra = {}
        for k, v in kw.items():
            if k == '**':
                raise Unsupported('** of a symbolic map')
            if k in sig:
                if k in a:
                    raise PyRaise(TypeError('multiple values for %s' % k))
                a[k] = v
            else:
                extra[k] = v
        if extra and s.name not in ('start', 'element'):
            raise PyRaise(TypeError('unexpected keyword'))
        need = dict(start=['tag'], element=['tag'], data=['text'], close=['id'], comment=['comment']).get(s.name, [])
        for n in need:
            if n not in a:
                raise PyRaise(TypeError('missing argument %s' % n))
        return f(ip, a, extra)

    def do_start(s, ip, a, extra):
        w = ip.w
        at = a.get('attrib', {})
        if not isinstance(at, dict):
            raise Unsupported('attributes that are no dictionary')
        at = dict(at)
        at.update(extra)
        if not at:
            at = {}
        for k, v in at.items():
            if not isinstance(k, str):
                raise Unsupported('attribute name')
            string_needed(ip, v, 'attribute value')
        string_needed(ip, a['tag'], 'tag')
        n = Node(a['tag'], at, w.rel())
        w.emit(ip, n)
        w.open.append(n)
        return Depth(len(w.open) - 1)

    def do_end(s, ip, a, extra):
        w = ip.w
        if len(w.open) <= w.floor[-1]:
            if not w.open:
                raise PyRaise(AssertionError('unbalanced end()'))
            raise Unsupported('an element ended in another iteration')
        n = w.open[-1]
        t = a.get('tag')
        if t is not None and ip.truth(t) and not ip.truth(ip.compare(ast.Eq(), t, n.tag, None)):
            raise PyRaise(AssertionError('end tag'))
        if not w.same_guard(n.g):
            raise Unsupported('an element started and ended under different conditions')
        w.open.pop()

    def do_close(s, ip, a, extra):
        w, d = ip.w, a['id']
        if not isinstance(d, Depth):
            raise Unsupported('close of something else')
        while len(w.open) > d.n:
            s.do_end(ip, {}, {})

    def do_data(s, ip, a, extra):
        string_needed(ip, a['text'], 'text')
        ip.w.emit(ip, ('data', ip.w.rel(), a['text']))

    def do_element(s, ip, a, extra):
        t = a.pop('text', None)
        s.do_start(ip, a, extra)
        if t is not None and not (isinstance(t, str) and not t):
            for g, x in split(t):
                if isinstance(x, (str, SStr)):
                    h = True                         # writing an empty text writes nothing
                elif not isinstance(x, Sym):
                    h = bool(x)
                else:
                    h = truth_guard(ip, x)
                if ip.w.sat(AND(ip.w.now(), g, h)):
                    ip.w.under(ip, AND(g, h), lambda: s.do_data(ip, dict(text=x), {}))
        s.do_end(ip, {}, {})

    def do_declaration(s, ip, a, extra): ip.w.emit(ip, ('declaration', ip.w.rel()))
    def do_flush(s, ip, a, extra): ip.w.emit(ip, ('flush', ip.w.rel()))

    def do_comment(s, ip, a, extra):
        if not isinstance(a['comment'], str) or '--' in a['comment'] or a['comment'].endswith('-'):
            raise Unsupported('comment')


def string_needed(ip, v, what):
    """XMLWriter takes strings; anything else fails."""
    w = ip.w
    for g, x in split(v):
        if isinstance(x, (str, SStr)):
            continue
        if isinstance(x, Sym) and not isinstance(x, (SVal, STarget, SMembers, SObj, Num)):
            raise Unsupported('%s of unknown type' % what)
        if w.sat(AND(w.now(), g)):
            w.raising(ip, g, TypeError('%s is no string: %r' % (what, x)))


class Source(Sym):
    never_none = True

    def __init__(s, name): s.name = name

    def __repr__(s): return '<%s>' % s.name
    def s_truth(s, ip): return True if s.name == 'source' else s.un('truth value')


# -------------------------------------------------------------------- world
class WrtWorld(GuardWorld):
    """learn: what the other runs of this version have learnt about the loops."""

    def __init__(w, m, key, K, learn, empty, consts):
        w.m, w.key_, w.K, w.learn, w.empty, w.consts = m, key, K, learn, empty, consts
        w.ginit({})
        w.version = m.version(key)
        w.atoms, w.nask = {}, 0
        w.key = SStr((w.atom('key'),))
        w.obj = SObj(key, K)
        w.d = SDict()
        w.source, w.encoding = Source('source'), Source('encoding')
        w.writer = None
        w.top = []
        w.open, w.floor, w.sinks = [], [0], [w.top]
        w.inloop = None
        w.used_unknown = False
        w.make_fields()

    # -- the object
    def make_fields(w):
        from .ctorprove import store_names
        w.fields, w.attrs, w.ones = {}, {}, {}
        for n, (k, a) in w.m.all_attrs(w.key_).items():
            if n == 'UUID':
                w.states[n] = tuple(('=', c) for c in w.consts.get(n, ())) + ('o',)
                w.attrs[n] = ('id', k, a)
                w.fields[n] = SText(w, n)
                continue
            typ = {'str': str, 'int': int, 'float': float, 'bool': bool}.get(a[1], str)
            if a[3]:
                w.attrs[n] = ('enum', k, a)
                w.states[n] = ('none',) + tuple(('=', c) for c in w.consts.get(n, ())) + ('o',)
                w.fields[n] = Ite([(w.st(n, 'none'), None), (NOT(w.st(n, 'none')), SText(w, n))])
            else:
                w.attrs[n] = ('attr', k, a)
                w.states[n] = ('d',) + tuple(('=', c) for c in w.consts.get(n, ())) + ('o',)
                w.fields[n] = SText(w, n) if typ is str else SVal(n, typ, a[2])
        seg = w.m.views(w.key_)
        for st, n in store_names(w.m, w.key_).items():
            k, r = w.m.find_ref(w.key_, n)
            if r[1]:
                w.fields[st] = SMembers(n)
            elif seg and n in seg:
                w.states[n] = ('none', 'seq', 'phase')
                cases = [(w.st(n, 'none'), None)]
                for t, tk in zip(('seq', 'phase'), w.m.targets('*')):
                    cases.append((w.st(n, t), STarget(n, tk, w.m.cls(tk))))
                w.fields[st] = Ite(cases)
            else:
                w.states[n] = ('none', 'object')
                w.fields[st] = Ite([(w.st(n, 'none'), None), (w.st(n, 'object'), STarget(n, r[2]))])

    def st(w, f, *st): return ('atom', f, frozenset(st))

    def const(w, f, c):
        """Guard: the value of the field equals a constant."""
        kind, k, a = w.attrs[f]
        if kind == 'attr' and a[2] == c:
            return w.st(f, 'd')
        if kind == 'attr' and a[1] == 'bool':
            return NOT(w.st(f, 'd')) if c in (True, False) else False
        if not isinstance(c, str) if kind != 'attr' else (a[1] == 'str') != isinstance(c, str):
            return False
        if c not in w.consts.setdefault(f, []):
            w.consts[f].append(c)
            raise Restart()
        return w.st(f, ('=', c))

    def unknown(w, key):
        key = ('?',) + key if isinstance(key, tuple) else ('?', key)
        n = 'unknown: ' + repr(key)
        w.states[n] = (False, True)
        return Cond(('atom', n, frozenset([True])))

    def ask(w, ip, key):
        return w.fork(ip, w.unknown(key).g)

    def in_map(w, x):
        """Is it among the keys or objects of the map?"""
        r = x.r if isinstance(x, STarget) else None
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Atom) and x.parts[0].owner.kind.startswith('target UUID of '):
            r = x.parts[0].owner.kind[15:]
        if r is None:
            return w.unknown(('in the map', repr(x)))
        n = '%s (its target: in the map)' % r
        w.states[n] = (False, True)
        return Cond(('atom', n, frozenset([True])))

    def cond(w, ip, key): return w.unknown(key)

    def atom(w, name):
        if name not in w.atoms:
            w.atoms[name] = Atom(Owner(name), 'text', nonempty=False)
        return w.atoms[name]

    def text(w, f):
        a = w.atom('value of ' + f)
        kind, k, x = w.attrs.get(f, ('enum', None, None))
        a.nonempty = kind == 'attr' and x[1] != 'str'
        return a

    # -- events
    def emit(w, ip, e):
        (w.open[-1].kids if len(w.open) > w.floor[-1] else w.sinks[-1]).append(e)

    def same_guard(w, g):
        h = w.rel()
        if repr(g) == repr(h):
            return True
        return not w.sat(AND(w.path, OR(AND(g, NOT(h)), AND(h, NOT(g)))))

    # -- loops over the map
    def loop(w, ip, node, fr, seq):
        if w.inloop is not None:
            raise Unsupported('a loop over the map within another')
        if w.rel() is not True:
            raise Unsupported('a loop over the map on a condition')
        if w.empty or seq.g is False:
            ip.block(node.orelse, fr)
            return True
        top = fr
        while top.fn is None and top.parent is not None:
            top = top.parent
        live = liveness.of(src.node_of(top.fn)) if top.fn is not None else None
        heads = live.at_head(node) if live is not None else None
        after = None
        if live is not None and id(node) in live.out:
            after = live.out[id(node)] | live.always
        nid = (node.lineno, node.col_offset, ip.pos_id())
        L = w.learn.setdefault((w.version, nid), dict(head={}, exits=[]))
        assigned = {n.id for x in node.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        assigned |= {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        for v in sorted(assigned):
            if v in fr.vars and (heads is None or v in heads):
                vals = L['head'].setdefault(v, [])
                if isinstance(vals, list):
                    note(L['head'], v, fr.vars[v])
                vals = L['head'][v]
                fr.vars[v] = {'num': Num(), 'any': Havoc()}[vals] if isinstance(vals, str) else dec(vals[ip.ex.choose(len(vals), soft=len(vals) > 1)])
            elif v in fr.vars and v not in {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}:
                fr.vars.pop(v)
        body = []
        item = seq.item
        w.inloop = node
        w.sinks.append(body)
        w.floor.append(len(w.open))
        keep, w.own_lists = w.own_lists, []
        from .guard import _Loop
        kind, ret = 'done', None
        G = _Loop(fr)
        loops, ip.loops = ip.loops, ip.loops + [G]
        if seq.g is not True:
            w.stack.append(seq.g)
        try:
            ip.assign(node.target, item, fr)
            ip.block(node.body, fr)
        except _Continue:
            pass
        except _Break:
            kind = 'break'
        except _Return as r:
            kind, ret = 'return', r.v
        finally:
            if seq.g is not True:
                w.stack.pop()
            ip.loops = loops
            w.inloop = None
        if G.all:
            raise Unsupported('loop over the map left on a condition')
        if G.iter:
            fr.maybe = getattr(fr, 'maybe', set()) | G.dirty
        ip.reskip()
        if getattr(fr, 'returns', None):
            raise Unsupported('return on a condition from a loop over the map')
        if len(w.open) != w.floor[-1]:
            if len(w.open) > w.floor[-1]:
                raise Mismatch('one element for each object', 'an element started in the loop over the map is not ended in it')
            raise Unsupported('elements ended in a loop')
        w.floor.pop()
        w.sinks.pop()
        w.own_lists = keep
        w.emit(ip, ('loop', kind, body))
        # what the loop leaves behind
        outs = []
        for v in sorted(assigned):
            if v not in fr.vars:
                continue
            if kind == 'done' and v in L['head']:
                note(L['head'], v, fr.vars[v], w)
            if v in getattr(fr, 'maybe', ()):
                fr.vars.pop(v)
                continue
            x = fr.vars.pop(v)
            if after is not None and v not in after:
                continue
            outs.append((v, enc(x)))
        ex = (kind, tuple(outs), enc(ret))
        if ex not in L['exits']:
            L['exits'].append(ex)
            if len(L['exits']) > 8:
                raise Unsupported('what a loop over the map leaves behind')
            raise Restart()
        kind, outs, ret = L['exits'][ip.ex.choose(len(L['exits']), soft=len(L['exits']) > 1)]
        for v, x in outs:
            fr.vars[v] = Havoc() if x is None else dec(x)
        if kind == 'return':
            if ret is None:
                raise Unsupported('an object returned from a loop over the map')
            raise _Return(dec(ret))
        if kind == 'done':
            ip.block(node.orelse, fr)
        return True

    # -- hooks
    def str_eq(w, ip, a, b):
        r = decide_eq(a, b)
        return w.ask(ip, ('eq', show(a), show(b))) if r is None else r

    def strip(w, ip, s, name, cs): return mk([Fn(name, s.parts) if cs is None else Fn(name, s.parts, cs)])
    def num(w, ip): return Num()

    def opaque_str(w, ip):
        w.nask += 1
        return SStr((Fn('unknown', str(w.nask)),))

    unpack = lambda w, ip, v, n: RdrWorld.unpack(w, ip, v, n)
    format = RdrWorld.format
    str_format = RdrWorld.str_format
    concat0 = RdrWorld.concat

    def concat(w, ip, parts):
        """Concatenation; conditional parts give a conditional string."""
        if any(isinstance(p, Ite) for p in parts):
            i = next(i for i, p in enumerate(parts) if isinstance(p, Ite))
            return parts[i].per(ip, lambda v: w.concat(ip, parts[:i] + [w.text_of(ip, v)] + parts[i + 1:]))
        return w.concat0(ip, parts)

    def text_of(w, ip, a):
        if isinstance(a, (str, SStr)):
            return a
        if isinstance(a, Ite):
            return a.per(ip, lambda v: w.text_of(ip, v))
        if isinstance(a, Sym):
            return a.s_str(ip) if type(a).s_str is not Sym.s_str else w.opaque_str(ip)
        if isinstance(a, (int, float)) or a is None:
            return str(a)
        return w.opaque_str(ip)

    def native_method(w, ip, m, name, args, kw):
        if isinstance(m, str):
            if name == 'format':
                return w.str_format(ip, m, args, kw)
            if name == 'join' and isinstance(args[0], (list, tuple)):
                out = []
                for i, x in enumerate(args[0]):
                    if isinstance(x, Sym) and not isinstance(x, (SStr, Ite)):
                        raise PyRaise(TypeError('join'))
                    out += ([m] if i else []) + [x]
                return w.concat(ip, out)
            if isinstance(args[0] if args else None, Ite):
                raise Unsupported('str.%s of a conditional value' % name)
            if name == '__getitem__':
                raise Unsupported('symbolic index')
            return str_method(ip, SStr((m,) if m else ()), name, args, kw)
        return NotImplemented

    def contains_native(w, ip, a, b):
        if isinstance(b, (tuple, list, set, frozenset)):
            if isinstance(b, (set, frozenset)) and not isinstance(a, (SStr, SVal, Ite)):
                raise Unsupported('membership')
            g = []
            for x in b:
                r = True if x is a else ip.compare(ast.Eq(), a, x, None)
                g.append(r.g if isinstance(r, Cond) else bool(r))
            return wrap(OR(*g))
        if isinstance(b, str) and isinstance(a, SStr):
            return w.ask(ip, ('in', b, show(a.parts)))
        raise Unsupported('membership of a symbolic value')

    def comp_sym(w, ip, e, it, sub):
        if isinstance(it, SDict):
            it = Seq(w.key)
        if not isinstance(it, Seq) or not isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return NotImplemented
        if w.inloop is not None:
            raise Unsupported('a loop over the map within another')
        if w.empty:
            return [] if isinstance(e, ast.GeneratorExp) else w.list_display(ip, [])
        if w.rel() is not True or len(e.generators) != 1:
            raise Unsupported('a loop over the map on a condition')
        ip.assign(e.generators[0].target, it.item, sub)
        g, n = it.g, len(w.stack)
        w.stack.append(g)
        try:
            for c in e.generators[0].ifs:
                h = truth_guard(ip, ip.ev(c, sub))
                g = AND(g, h)
                w.stack.append(h)
            if not w.sat(w.now()):
                return Seq(None, False)
            x = ip.ev(e.elt, sub)
        finally:
            del w.stack[n:]
        return Seq(x, g)

    def call(w, ip, f, args, kw):
        mod, name = getattr(f, '__module__', None), getattr(f, '__name__', '')
        import PyCIM.SimpleXMLWriter as X
        if f is X.XMLWriter:
            return w.make_writer(ip, args, kw)
        if f is inspect.getmro and not isinstance(args[0], Sym):
            return args[0].__mro__
        if isinstance(f, types.BuiltinMethodType) and name in ('mro', '__subclasses__') and isinstance(f.__self__, type) or f is type.mro:
            return w.own(list(ip.native(f, args, kw)))
        if mod == 'time' or f in (time_mod.time, time_mod.perf_counter, time_mod.monotonic):
            return Num()
        if f is logging.getLogger:
            return f(*[a for a in args if isinstance(a, str)])
        if mod == 'logging' and name in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'warn', 'log') or f is print:
            return None
        if mod == 'logging' and name in ('isEnabledFor', 'hasHandlers'):
            return w.ask(ip, ('logging', name))
        if f in (list, tuple, iter, sorted, reversed, dict) and args and isinstance(args[0], (SDict, Seq)):
            if f is dict:
                if isinstance(args[0], SDict) and len(args) == 1 and not kw:
                    return w.d
                raise Unsupported('dict of a symbolic sequence')
            s = args[0] if isinstance(args[0], Seq) else Seq(w.key)
            if f is sorted:
                k = kw.get('key')
                it = s.item if k is None else ip.call(k, [s.item], {})
                for y in it if isinstance(it, tuple) else (it,):
                    if isinstance(y, (SStr, str, int, float)):
                        if k is None:
                            break                # keys of the map differ
                        continue
                    raise Unsupported('sorting')
            return s
        if f is list and not args and not kw:
            return w.list_display(ip, [])
        if f is list and len(args) == 1 and isinstance(args[0], (list, tuple, dict, set, frozenset)):
            return w.list_display(ip, list(args[0]))
        if f is dict and not ip.has_sym([x for x in args if not isinstance(x, dict)]) and all(isinstance(x, dict) for x in args):
            return w.dict_display(ip, dict(*args, **kw), None)
        if f is reversed and isinstance(args[0], (list, tuple)):
            return list(reversed(args[0]))
        if f is enumerate and isinstance(args[0], (SDict, Seq)):
            s = args[0] if isinstance(args[0], Seq) else Seq(w.key)
            return Seq((Num(), s.item), s.g)
        if f in (len, sum, max, min) and args and isinstance(args[0], Num):
            return Num()
        if f in (repr, ascii) and len(args) == 1:
            if isinstance(args[0], SVal):
                return args[0].s_str(ip)
            if isinstance(args[0], Sym):
                return w.opaque_str(ip)
        if f is str and len(args) == 1 and isinstance(args[0], (Ite, STarget, SObj, SMembers, SDict)):
            return w.text_of(ip, args[0])
        if f is format and len(args) == 1:
            return w.text_of(ip, args[0])
        if f is vars and len(args) == 1 and isinstance(args[0], SObj):
            return SVars(args[0])
        if f is bool and len(args) == 1 and isinstance(args[0], Sym):
            return wrap(truth_guard(ip, args[0]))
        if f is id and isinstance(args[0], Sym):
            return Num()
        if f in (round, abs) and isinstance(args[0], Num):
            return Num()
        if f is float and args and isinstance(args[0], SVal) and args[0].typ is float:
            return args[0]
        if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str and args and isinstance(args[0], SStr):
            return str_method(ip, args[0], f.__name__, args[1:], kw)
        return NotImplemented

    def make_writer(w, ip, args, kw):
        a = dict(zip(('file', 'encoding'), args))
        a.update(kw)
        if w.writer is not None or w.rel() is not True:
            raise Unsupported('more than one writer')
        if a.get('file') is not w.source:
            raise Unsupported('the writer does not write to the file given')
        e = a.get('encoding', 'us-ascii')
        if e is not w.encoding and e not in ('utf-8', 'us-ascii'):
            raise Unsupported('encoding of the writer')
        w.writer = SWriter()
        return w.writer


def atomic(x):
    return x is None or isinstance(x, (str, bool, int, float, Num))


def enc(x):
    return ('num',) if isinstance(x, Num) else (x, type(x).__name__) if atomic(x) else None


def dec(x):
    return Num() if x == ('num',) else x[0]


def note(table, v, x, w=None):
    """Record a value of a variable at a loop head."""
    vals = table[v]
    if isinstance(vals, str):
        return
    if not atomic(x):
        table[v] = 'any'
        raise Restart()
    if isinstance(x, Num):
        table[v] = 'num'
        raise Restart()
    if enc(x) not in vals:
        vals.append(enc(x))
        if len(vals) > 4:
            table[v] = 'num' if all(t in ('int', 'float') for _, t in vals) else 'any'
        if w is not None:
            raise Restart()


class WrtInterp(GuardInterp):
    def assign(self, g, v, fr):
        if isinstance(g, ast.Name) and g.id in fr.nonlocals:
            self.unsupported('nonlocal', g)
        super().assign(g, v, fr)

    def pos_id(self):
        return tuple(type(p).__name__ + str(getattr(p, 'lineno', '')) for p in self.pos if not isinstance(p, tuple))
