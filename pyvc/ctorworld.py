"""Domain and contracts of constructors (C04; the model choice of C15).

The contract of C.__init__, for a new object self and keywords that are any
subset of the attributes, references and UUID of C and its bases:
  * for every attribute: the field holds the value given, else the declared default;
  * for every reference: its storage is created empty (a fresh list for a to-many
    reference) before anything is linked, then exactly the value given is
    assigned through the accessor (whose contract is C01/C03), nothing when
    none was given;
  * it raises nothing.
Obligations are generated by running the real body once over all keyword
subsets: each keyword is in one of the states below, conditions on keywords
become guards, and the guarded effects are compared with the contract for every
combination of the states an effect depends on.  The call of the base class's
constructor is replaced by that constructor's contract."""
import ast, itertools, types
from . import src
from .interp import World, Interp, Explorer, Sym, Unsupported, PyRaise, PathEnd, Bound, Closure, _Return, _Break, _Continue
from .guard import *
from .guard import truth_guard
from .accworld import storages

STATES = {'attr': ('absent', 'none', 'falsy', 'value'), 'one': ('absent', 'none', 'object'), 'many': ('absent', 'none', 'empty', 'items')}


# --------------------------------------------------------- keyword values
class PV(Sym):
    """The value given for a keyword."""

    def __init__(s, p, kind): s.p, s.kind = p, kind

    def __repr__(s): return '<%s given>' % s.p

    def state(s, *st): return ('atom', s.p, frozenset(st))

    def s_cmp(s, ip, op, o, sw):
        if o is None and op in ('is', '==', 'is not', '!='):
            g = s.state('none')
            return wrap(g if op in ('is', '==') else NOT(g))
        if isinstance(o, list) and not o and op in ('==', '!=') and s.kind == 'many':
            g = s.state('empty')
            return wrap(g if op == '==' else NOT(g))
        if o is s and op in ('is', 'is not'):
            return op == 'is'
        s.un('comparison ' + op)

    def s_truth(s, ip): return ip.w.fork(ip, s.truth_guard(ip))

    def truth_guard(s, ip):
        return s.state('object', 'items', 'value')

    def s_len(s, ip):
        ip.w.must(ip, NOT(s.state('none')), TypeError('len(None)'))
        return Size(s)

    def s_isinstance(s, ip, k):
        k = k if isinstance(k, tuple) else (k,)
        if s.kind == 'many' and set(k) <= {list, tuple, type(None), str} and (list in k):
            return wrap(NOT(s.state('none')) if type(None) not in k else True)
        s.un('isinstance()')

    def s_getitem(s, ip, k):
        if isinstance(k, slice) and k == slice(None) and s.kind == 'many':
            ip.w.must(ip, NOT(s.state('none')), TypeError('None is not subscriptable'))
            return Copy(s)
        s.un('subscript')

    def s_getattr(s, ip, name):
        if name in ('copy', '__iter__') and s.kind == 'many':
            return CopyOf(s)
        s.un('attribute %s' % name)


class CopyOf(Sym):
    never_none = True

    def __init__(s, v): s.v = v

    def s_call(s, ip, args, kw): return Copy(s.v)


class Size(Sym):
    never_none = True

    def __init__(s, v): s.v = v

    def s_truth(s, ip): return ip.w.fork(ip, s.v.state('items'))

    def truth_guard(s, ip): return s.v.state('items')

    def s_cmp(s, ip, op, o, sw):
        if o == 0 and op in ('==', '!=', '>', '<='):
            g = s.v.state('items')
            return wrap(g if op in ('!=', '>') else NOT(g))
        s.un('comparison ' + op)


class Copy(PV):
    """A fresh list (or tuple) with the members given."""

    def __init__(s, v): s.p, s.kind, s.v = v.p, v.kind, v


# -------------------------------------------------------- keyword dictionary
class KwDict(Sym):
    """**kw: names that may be present."""
    never_none = True

    def __init__(s, items): s.items = items              # name -> (guard, value)

    def s_getattr(s, ip, name):
        if name in ('get', 'pop', 'setdefault', 'copy', 'update', '__contains__'):
            return KwMethod(s, name)
        s.un('attribute %s' % name)

    def s_contains(s, ip, x):
        return wrap(s.items[x][0]) if x in s.items else False

    def s_getitem(s, ip, k):
        if k not in s.items:
            raise PyRaise(KeyError(k))
        ip.w.must(ip, s.items[k][0], KeyError(k))
        return s.items[k][1]

    def s_setitem(s, ip, k, v):
        g = ip.w.rel()
        if k in s.items:
            h, o = s.items[k]
            s.items[k] = (OR(h, g), join([(g, v), (NOT(g), o)]))
        else:
            s.items[k] = (g, v)

    def s_delitem(s, ip, k):
        s.s_getitem(ip, k)
        h, o = s.items[k]
        s.items[k] = (AND(h, NOT(ip.w.rel())), o)

    def s_truth(s, ip): return ip.w.fork(ip, s.truth_guard(ip))
    def truth_guard(s, ip): return OR(*[g for g, v in s.items.values()])


class KwMethod(Sym):
    never_none = True

    def __init__(s, d, n): s.d, s.n = d, n

    def s_call(s, ip, args, kw):
        d = s.d
        if s.n == '__contains__':
            return d.s_contains(ip, args[0])
        if s.n == 'copy':
            return KwDict(dict(d.items))
        if s.n == 'update':
            new = dict(args[0]) if args and isinstance(args[0], dict) else {} if not args else s.un('update')
            for k, v in list(new.items()) + list(kw.items()):
                d.s_setitem(ip, k, v)
            return None
        n = args[0]
        dflt = args[1] if len(args) > 1 else None
        if n not in d.items:
            if s.n == 'pop' and len(args) < 2:
                raise PyRaise(KeyError(n))
            if s.n == 'setdefault':
                d.s_setitem(ip, n, dflt)
            return dflt
        g, v = d.items[n]
        r = join([(g, v), (NOT(g), dflt)])
        if s.n == 'pop':
            if len(args) < 2:
                ip.w.must(ip, g, KeyError(n))
                r = v
            d.items[n] = (AND(g, NOT(ip.w.rel())), v)
        if s.n == 'setdefault':
            d.s_setitem(ip, n, r)
        return r


# --------------------------------------------------------------------- self
class Self(Sym):
    never_none = True

    def __init__(s, K): s.K = K

    def s_truth(s, ip): return True
    def s_type(s, ip): return s.K
    def s_isinstance(s, ip, k): return issubclass(s.K, k)

    def s_setattr(s, ip, name, v):
        a = ip.w.class_attr(s.K, name)
        if isinstance(a, property):
            if name in ip.w.refs:
                ip.w.event('set', name, v)
            elif a.fset is None:
                raise PyRaise(AttributeError(name))
            else:
                ip.call(a.fset, [s, v], {})
            return
        if hasattr(type(a), '__set__'):
            s.un('assignment to descriptor %s' % name)
        ip.w.event('store', name, v)

    def s_getattr(s, ip, name):
        if name == '__class__':
            return s.K
        a = ip.w.class_attr(s.K, name)
        if isinstance(a, property):
            if name in ip.w.refs:
                s.un('reading reference %s' % name)
            return ip.call(a.fget, [s], {})
        r = ip.w.field(name)
        if r is not None:
            return r
        if isinstance(a, (types.FunctionType,)):
            if name.startswith('add') and name[3:] in ip.w.refs and ip.w.refs[name[3:]][1][1]:
                return AddMethod(name[3:])
            if name.startswith('set') and name[3:] in ip.w.refs:
                return SetMethod(name[3:])
            if name == '__init__':
                return BaseInit(s.K)
            return Bound(a, s)
        if a is not None and not isinstance(a, (classmethod, staticmethod)):
            return a
        s.un('attribute %s' % name)


class SetMethod(Sym):
    never_none = True

    def __init__(s, n): s.n = n

    def s_call(s, ip, args, kw):
        if len(args) != 1 or kw:
            s.un('call')
        ip.w.event('set', s.n, args[0])


class AddMethod(Sym):
    never_none = True

    def __init__(s, n): s.n = n

    def s_call(s, ip, args, kw):
        if kw:
            raise PyRaise(TypeError('keyword arguments'))
        if not args:
            return
        if len(args) != 1 or not isinstance(args[0], Star):
            s.un('add call with single objects')
        ip.w.event('add', s.n, args[0].v)


class Star:
    def __init__(s, v): s.v = v


class BaseInit(Sym):
    """The constructor next in line: used through its contract."""
    never_none = True

    def __init__(s, B): s.B = B

    def s_call(s, ip, args, kw):
        if args and isinstance(args[0], Self):
            args = args[1:]
        ip.w.base_init(ip, s.B, args, kw)


class SuperOf(Sym):
    never_none = True

    def __init__(s, C, o): s.C, s.o = C, o

    def s_getattr(s, ip, name):
        mro = s.o.K.__mro__
        for K in mro[mro.index(s.C) + 1:]:
            if name in K.__dict__:
                if name == '__init__':
                    return BaseInit(K)
                if isinstance(K.__dict__[name], types.FunctionType):
                    return Bound(K.__dict__[name], s.o)
                s.un('super().%s' % name)
        raise PyRaise(AttributeError(name))


class CtorWorld(GuardWorld):
    def __init__(w, m, key, K):
        w.m, w.key, w.K = m, key, K
        w.attrs, w.refs = m.all_attrs(key), m.all_refs(key)
        w.events = []
        w.self = Self(K)
        w.owner = next(C for C in K.__mro__ if '__init__' in C.__dict__)
        w.entered = False
        w.ginit({})
        for n in w.attrs:
            w.states[n] = STATES['attr']
        for n, (k, r) in w.refs.items():
            w.states[n] = STATES['many' if r[1] else 'one']

    def event(w, kind, name, v):
        w.events.append((w.rel(), kind, name, v))

    def field(w, name):
        cur = None
        for g, k, n, v in w.events:
            if k == 'store' and n == name:
                cur = v if g is True or cur is None and not w.sat(AND(w.now(), NOT(g))) else join([(g, v), (NOT(g), cur)]) if cur is not None else None
                if cur is None:
                    raise Unsupported('read of a field that may be missing')
        return cur

    def class_attr(w, K, name):
        for C in K.__mro__:
            if name in C.__dict__:
                return C.__dict__[name]
        return None

    def lookup_name(w, ip, n, fr): return NotImplemented
    def new_list(w, ip, v):
        def one(v):
            if isinstance(v, PV):
                if v.kind != 'many':
                    raise Unsupported('list() of %r' % v)
                w.must(ip, NOT(v.state('none')), TypeError('NoneType is not iterable'))
                return Copy(v)
            if v is None:
                w.must(ip, False, TypeError('NoneType is not iterable'))
            x = list(v)
            w.own_lists.append(x)
            return x
        return v.per(ip, one) if isinstance(v, Ite) else one(v)

    new_tuple = new_list

    def star(w, ip, v):
        def one(v):
            if v is None or isinstance(v, PV):
                w.must(ip, NOT(v.state('none')) if isinstance(v, PV) else False, TypeError('* of None'))
            return v
        return Star(v.per(ip, one) if isinstance(v, Ite) else one(v))

    def super(w, ip, args, fr=None):
        if args is None:
            f = fr
            while f.fn is None and f.parent is not None:
                f = f.parent
            cell = f.fn.__closure__[f.fn.__code__.co_freevars.index('__class__')].cell_contents
            return SuperOf(cell, f.vars[f.node.args.args[0].arg])
        return SuperOf(args[0], args[1])

    def call(w, ip, f, args, kw):
        if isinstance(f, types.FunctionType) and f.__name__ == '__init__' and args and isinstance(args[0], Self):
            owner = next((K for K in w.K.__mro__ if K.__dict__.get('__init__') is f), None)
            if owner is None:
                raise Unsupported('a constructor of another class')
            if not (owner is w.owner and not w.entered):
                w.base_init(ip, owner, args[1:], kw)
                return None
            w.entered = True
            return NotImplemented
        if f is object.__init__:
            w.base_init(ip, object, args[1:], kw)
            return None
        if f is list and not args and not kw:
            x = []
            w.own_lists.append(x)
            return x
        if f is setattr and isinstance(args[0], Self):
            args[0].s_setattr(ip, args[1], args[2])
            return None
        if f in (dict,) and len(args) == 1 and isinstance(args[0], KwDict):
            d = KwDict(dict(args[0].items))
            for k, v in kw.items():
                d.s_setitem(ip, k, v)
            return d
        return NotImplemented

    def native_method(w, ip, o, name, args, kw): return NotImplemented

    def base_init(w, ip, B, args, kw):
        if args:
            raise Unsupported('positional arguments for the base constructor')
        kw = dict(kw)
        d = kw.pop('**', None)
        items = {k: (True, v) for k, v in kw.items()}
        if d is not None:
            for k, (g, v) in d.items.items():
                if k in items:
                    if w.sat(AND(w.now(), g)):
                        w.raising(ip, g, TypeError('multiple values for %s' % k))
                    continue
                items[k] = (g, v)
        if B is not object and B not in w.keys:
            ip.call_real(B.__dict__['__init__'], [w.self], {'**': KwDict(items)})      # not a class of the model: inlined
            return
        w.base_call(ip, B, items)

    def base_call(w, ip, B, items):
        bk = w.base_key(B)
        names = set() if bk is None else set(w.m.all_attrs(bk)) | set(w.m.all_refs(bk))
        for k, (g, v) in items.items():
            if k not in names and w.sat(AND(w.now(), g)):
                w.raising(ip, g, TypeError('unexpected keyword argument %s' % k))
        if bk is None:
            return
        for n, (k, a) in w.m.all_attrs(bk).items():
            g, v = items.get(n, (False, None))
            w.event('store', n, join([(g, v), (NOT(g), Default(bk, n, a[2]))]))
        for n, (k, r) in w.m.all_refs(bk).items():
            g, v = items.get(n, (False, None))
            w.event('base-create', n, None)
            if g is not False:
                w.stack.append(g)
                w.event('base-set', n, v)
                w.stack.pop()

    def base_key(w, B):
        """Class whose constructor contract B.__init__ satisfies (object: none)."""
        if B is object:
            return None
        return w.keys[B]


class Default(Sym):
    """The declared default of an attribute, stored by the base class's contract."""

    def __init__(s, key, n, v): s.key, s.n, s.v = key, n, v

    def truth_guard(s, ip): return bool(s.v)
    def s_truth(s, ip): return bool(s.v)
    def s_cmp(s, ip, op, o, sw): return ip.compare({'is': ast.Is, 'is not': ast.IsNot, '==': ast.Eq, '!=': ast.NotEq}[op](), s.v, o, None) if op in ('is', 'is not', '==', '!=') and not isinstance(o, Sym) else s.un('comparison')
    def __repr__(s): return '<default of %s>' % s.n


class CtorInterp(GuardInterp):
    def bind(self, fn, node, args, kw, defaults, kwdefaults):
        """Keywords that may be absent take the parameter's default."""
        kw = dict(kw)
        d = kw.pop('**', None)
        if d is None:
            return super().bind(fn, node, args, kw, defaults, kwdefaults)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dflt = dict(zip(names[len(names) - len(defaults):], defaults))
        dflt.update(kwdefaults or {})
        names += [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, (g, v) in d.items.items():
            if k in kw or k in names[:len(args)]:
                if self.w.sat(AND(self.w.now(), g)):
                    self.w.raising(self, g, TypeError('multiple values for %s' % k))
            elif k in names:
                if g is True:
                    kw[k] = v
                    continue
                if k not in dflt:
                    self.w.must(self, g, TypeError('missing argument %s' % k))
                    kw[k] = v
                else:
                    kw[k] = join([(g, v), (NOT(g), dflt[k])])
            else:
                rest[k] = (g, v)
        kwarg = a.kwarg
        if kwarg is None:
            for k, (g, v) in rest.items():
                if self.w.sat(AND(self.w.now(), g)):
                    self.w.raising(self, g, TypeError('unexpected keyword argument %s' % k))
            return super().bind(fn, node, args, kw, defaults, kwdefaults)
        named = {k: v for k, v in kw.items() if k in names}
        for k, v in kw.items():
            if k not in names:
                rest[k] = (True, v)
        out = super().bind(fn, node, args, named, defaults, kwdefaults)
        out[kwarg.arg] = KwDict(rest)
        return out
