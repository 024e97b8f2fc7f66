"""C14: the pretty printer changes only blank text between elements.

Ghost state: for every element the text and tail it was parsed with (absent,
white space only, or with other characters) and whether it has children.
Invariant, checked at every assignment of the code: an assigned text or tail
either equals the original, or both are blank (absent counts as empty), the new
one is made of white space XML allows, and a text is only changed in an element
that has children.  Nothing else of an element is assigned.  A text or tail
that was blank may therefore hold any blank value later (a version counter
forgets it at every assignment, loop and call).

Recursive calls are taken by contract (the invariant); the contract is proved
for the function with an arbitrary element and arbitrary integers."""
import ast, time, traceback, types, inspect
from . import src
from .interp import soft_path, World, Interp, Explorer, Sym, Unsupported, PyRaise, PathEnd, Bound, Closure, _Return, _Break, _Continue, MUTATORS
from .sstr import *
from .rdrworld import Num, RdrWorld

WS = ' \t\n\r'
BLANK, NEVER, STRUCT, RESULT, REC = ('only blank text and tails are replaced, by blank text', 'never fails', 'elements, nesting and attributes are not changed',
                                     'the tree of the source is returned, serialised', 'recursion is on children')


class Violation(Exception):
    def __init__(s, ob, detail): s.ob, s.detail = ob, detail


def blank_atom(name, nonempty=False): return Atom(Owner(name), 'white space', nonempty=nonempty, sem='blank')


def blankness(parts):
    """True: white space only (or empty); False: some other character; None."""
    r = True
    for p in parts:
        if isinstance(p, str):
            if p.strip():
                return False
        elif getattr(p, 'sem', None) == 'solid':
            return False
        elif getattr(p, 'sem', None) != 'blank':
            r = None
    return r


class Unknown(Sym):
    """A value forgotten by a loop."""
    unknown = True


class SLevel(Sym):
    """An integer of which at most a lower bound is known."""
    never_none = True

    def __init__(s, name, lo=None): s.name, s.lo = name, lo

    def s_truth(s, ip): return True if s.lo is not None and s.lo > 0 else ip.w.ask(ip, ('nonzero', s.name))
    def s_type(s, ip): return int
    def s_isinstance(s, ip, k): return int in (k if isinstance(k, tuple) else (k,))

    def s_cmp(s, ip, op, o, sw):
        if op in ('is', 'is not') and o is None:
            return op == 'is not'
        if isinstance(o, int) and s.lo is not None:
            r = decide_num(op, s.lo - o, None)
            if r is not None:
                return r
        if isinstance(o, (int, SLevel)):
            return ip.w.ask(ip, ('level', s.name, op, repr(o) if isinstance(o, int) else o.name, sw))
        s.un('comparison')

    def s_binop(s, ip, op, o, sw):
        if op == '*' and isinstance(o, (str, SStr)):
            p = parts_of(o)
            if blankness(p) is True and not any(isinstance(x, str) and x.strip(WS) for x in p):
                return SStr((blank_atom('indentation'),))
            return SStr((Atom(Owner('repeated'), show(p), nonempty=False, sem='solid'),))
        if isinstance(o, (int, SLevel)) and op in ('+', '-', '*', '//', '%'):
            lo = None
            if op == '+' and s.lo is not None:
                lo = s.lo + o if isinstance(o, int) else s.lo + o.lo if o.lo is not None else None
            elif op == '-' and isinstance(o, int) and not sw and s.lo is not None:
                lo = s.lo - o
            return SLevel('(%s %s %s)' % (s.name, op, o if isinstance(o, int) else o.name), lo)
        s.un('operator ' + op)

    def s_str(s, ip): return SStr((Atom(Owner('level'), 'digits', sem='solid'),))


class SElem(Sym):
    never_none = True
    n = 0

    def __init__(s, w, parent=None, root=False, kids=None):
        SElem.n += 1
        s.name = 'root' if root else 'element %d' % SElem.n
        s.w, s.parent, s.root, s.kids = w, parent, root, kids
        s.kind = {'tail': 'none'} if root else {}
        s.tag = SStr((Atom(Owner(s.name), 'tag', sem='solid'),))
        s.cur = {}                        # field -> (version, value)

    def __repr__(s): return '<%s>' % s.name

    def inside(s, o):
        """Strictly inside o."""
        p = s.parent
        while p is not None:
            if p is o:
                return True
            p = p.parent
        return False

    def has_kids(s, ip):
        if s.kids is None:
            s.kids = bool(ip.ex.choose(2))
            s.w.facts.append('%s has %schildren' % (s.name, '' if s.kids else 'no '))
        return s.kids

    def original(s, ip, f):
        if f not in s.kind:
            s.kind[f] = ('none', 'blank', 'solid')[ip.ex.choose(3)]
            s.w.facts.append('%s of %s is %s' % (f, s.name, {'none': 'absent', 'blank': 'white space', 'solid': 'text with other characters'}[s.kind[f]]))
        return s.kind[f]

    def value(s, ip, f):
        w = s.w
        k = s.original(ip, f)
        if k == 'solid':
            if f not in s.cur:
                s.cur[f] = (0, SStr((Atom(Owner(s.name), f, sem='solid'),)))
            return s.cur[f][1]
        c = s.cur.get(f)
        if c is not None and c[0] == w.version:
            return c[1]
        if c is None and w.version == 0 or f == 'text' and s.kids is False:
            v = None if k == 'none' else SStr((blank_atom(s.name + '.' + f, True),))
        else:
            v = [None, SStr((blank_atom(s.name + '.' + f, True),)), ''][ip.ex.choose(3)]
        s.cur[f] = (w.version, v)
        return v

    def s_truth(s, ip): return s.has_kids(ip)
    def s_isinstance(s, ip, k): return any(getattr(x, '__name__', '') == 'Element' for x in (k if isinstance(k, tuple) else (k,)))

    def s_len(s, ip): return SKids(s)

    def s_getattr(s, ip, name):
        if name in ('text', 'tail'):
            return s.value(ip, name)
        if name == 'tag':
            return s.tag
        if name in ('iter', 'findall', 'find', 'iterfind', '__len__', 'getchildren', 'get', 'keys', 'itertext'):
            return ElemMethod(s, name)
        if name in ('append', 'remove', 'insert', 'clear', 'extend', 'set'):
            raise Violation(STRUCT, '%s of an element is called' % name)
        s.un('attribute %s of an element' % name)

    def s_setattr(s, ip, name, v):
        w = s.w
        if name == 'tag' and isinstance(v, SStr) and v.parts == s.tag.parts:
            return
        if name in ('tag', 'attrib'):
            raise Violation(STRUCT, 'the %s of an element is assigned' % name)
        if name not in ('text', 'tail'):
            s.un('assignment to attribute %s of an element' % name)
        k = s.original(ip, name)
        where = '%s of an element%s' % (name, '' if name == 'tail' else ' with children' if s.kids else '')
        if k == 'solid':
            if isinstance(v, SStr) and v.parts == s.value(ip, name).parts:
                return
            if isinstance(v, Unknown):
                raise Unsupported('assignment of a forgotten value')
            raise Violation(BLANK, '%s, not blank, is replaced by %r' % (where, v))
        if v is None:
            p = ()
        elif isinstance(v, (str, SStr)):
            p = parts_of(v)
        elif isinstance(v, Sym):
            raise Unsupported('assignment of %s' % type(v).__name__)
        else:
            raise Violation(NEVER, '%s is replaced by %r' % (where, v))
        b = blankness(p)
        if b is None:
            raise Unsupported('assignment of %r' % (v,))
        if b is False:
            raise Violation(BLANK, '%s, blank, is replaced by %r' % (where, v))
        if any(isinstance(x, str) and x.strip(WS) for x in p):
            raise Violation(BLANK, '%s is replaced by %r, characters XML does not allow' % (where, v))
        if name == 'text' and not s.has_kids(ip):
            old = s.value(ip, name)
            if parts_of(old or '') != p:
                raise Violation(BLANK, 'the text of an element without children, %r, is replaced by %r' % (old, v))
            return
        w.version += 1
        s.cur[name] = (w.version, v)

    def s_setitem(s, ip, k, v): raise Violation(STRUCT, 'a child of an element is assigned')
    def s_delitem(s, ip, k): raise Violation(STRUCT, 'a child of an element is deleted')

    def s_getitem(s, ip, k):
        if isinstance(k, (int, SLevel, SKids)) and not isinstance(k, bool):
            if not s.has_kids(ip):
                raise PyRaise(IndexError('child index out of range'))
            if k not in (0, -1) and not (isinstance(k, SKids) and k.off == -1):
                raise Unsupported('a child by its number')
            return SElem(s.w, s)
        if isinstance(k, slice):
            return Kids(s, False)
        s.un('subscript')

    def s_cmp(s, ip, op, o, sw):
        if op in ('is', 'is not', '==', '!='):
            if o is s:
                return op in ('is', '==')
            if o is None:
                return op in ('is not', '!=')
            if isinstance(o, SElem):
                if o.inside(s) or s.inside(o):
                    return op in ('is not', '!=')
                return s.w.ask(ip, ('same', s.name, o.name)) == (op in ('is', '=='))
        return super().s_cmp(ip, op, o, sw)

    def s_loop(s, ip, node, fr, body): return Kids(s).s_loop(ip, node, fr, body)


class SKids(Sym):
    """The number of children plus off."""
    never_none = True

    def __init__(s, e, off=0): s.e, s.off = e, off

    def s_truth(s, ip):
        if s.off:
            s.un('truth of a number')
        return s.e.has_kids(ip)

    def s_binop(s, ip, op, o, sw):
        if isinstance(o, int) and op in '+-' and not sw:
            return SKids(s.e, s.off + o if op == '+' else s.off - o)
        return Num()

    def s_cmp(s, ip, op, o, sw):
        if isinstance(o, int) and not s.off and not sw:
            k = (op, o)
            if k in (('>', 0), ('!=', 0), ('>=', 1)):
                return s.e.has_kids(ip)
            if k in (('==', 0), ('<=', 0), ('<', 1)):
                return not s.e.has_kids(ip)
            if not s.e.has_kids(ip) and isinstance(o, int):
                return {'==': 0 == o, '!=': 0 != o, '<': 0 < o, '<=': 0 <= o, '>': 0 > o, '>=': 0 >= o}[op]
        if isinstance(o, (int, Sym)):
            return ip.w.choice(ip)
        s.un('comparison')


class ElemMethod(Sym):
    never_none = True

    def __init__(s, o, name): s.o, s.name = o, name

    def s_call(s, ip, args, kw):
        o, n = s.o, s.name
        if n == '__len__':
            return SKids(o)
        if n == 'iter' and not args and not kw:
            return Kids(o, True, True)
        if n in ('findall', 'iterfind', 'iter'):
            return Kids(o, True, n == 'iter' or None)
        if n == 'get':
            return SStr((Atom(Owner(o.name), 'attribute value', nonempty=False),))
        s.un('%s of an element' % n)


class Kids(Sym):
    """The children (or, deep, elements inside) of an element; all: none is left out."""
    never_none = True

    def __init__(s, o, deep=False, with_self=False): s.o, s.deep, s.with_self = o, deep, with_self

    def s_truth(s, ip): return s.o.has_kids(ip) if not s.deep else s.un('truth value')
    def s_len(s, ip): return SKids(s.o) if not s.deep else Num()

    def s_getitem(s, ip, k):
        if s.deep or not isinstance(k, int):
            s.un('subscript')
        return s.o.s_getitem(ip, k)

    def s_loop(s, ip, node, fr, body): return loop(ip, node, fr, s, lambda: s.member(ip))

    def member(s, ip):
        if s.with_self is True and s.deep and ip.ex.choose(2):
            return s.o
        return SElem(s.o.w, s.o)

    def some(s, ip):
        """Is there an iteration?"""
        if s.deep or s.with_self is None:
            return True if s.with_self is True else ip.w.choice(ip)
        return s.o.has_kids(ip)


class Numbered(Sym):
    never_none = True

    def __init__(s, k): s.k = k
    def s_loop(s, ip, node, fr, body): return loop(ip, node, fr, s.k, lambda: (SLevel('index'), s.k.member(ip)))


def loop(ip, node, fr, it, item):
    """The elements keep the invariant, so one iteration from forgotten values
    stands for all; its end state is that after the last one."""
    w = ip.w
    if not it.some(ip):
        ip.block(node.orelse, fr)
        return True
    targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
    assigned = {n.id for x in node.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for v in assigned - targets:
        fr.vars[v] = Unknown()
    for v in list(fr.vars):
        if isinstance(fr.vars[v], (list, dict, set)):
            fr.vars[v] = Unknown()
    w.version += 1
    x = item()
    ip.assign(node.target, x, fr)
    ip.pos.append(('for', 0, None))
    broke = False
    try:
        ip.block(node.body, fr)
    except _Continue:
        pass
    except _Break:
        broke = True
    finally:
        ip.pos.pop()
    w.version += 1
    for v in list(fr.vars):
        if isinstance(fr.vars[v], (list, dict, set)):
            fr.vars[v] = Unknown()
    if not broke:
        ip.block(node.orelse, fr)
    return True


class STree(Sym):
    never_none = True

    def __init__(s, w): s.w = w
    def s_truth(s, ip): return True

    def s_getattr(s, ip, name):
        if name in ('getroot', 'iter', 'write'):
            return TreeMethod(s, name)
        s.un('attribute %s of a tree' % name)


class TreeMethod(Sym):
    never_none = True

    def __init__(s, o, name): s.o, s.name = o, name

    def s_call(s, ip, args, kw):
        if s.name == 'getroot' and not args and not kw:
            return ip.w.root
        if s.name == 'iter' and not args and not kw:
            return Kids(ip.w.root, True, True)
        s.un('%s of a tree' % s.name)


class Doc(Sym):
    never_none = True

    def __init__(s, e, enc, at): s.e, s.enc, s.at = e, enc, at

    def s_truth(s, ip): return True

    def s_getattr(s, ip, name):
        if name == 'decode' and s.enc not in ('unicode', None) or name == 'encode' and s.enc == 'unicode':
            return DocMethod(s, name)
        s.un('%s of a document' % name)


class DocMethod(Sym):
    never_none = True

    def __init__(s, o, name): s.o, s.name = o, name

    def s_call(s, ip, args, kw):
        e = args[0] if args else kw.get('encoding', 'utf-8')
        o = s.o
        if s.name == 'decode':
            if str(e).lower().replace('_', '-') not in ('ascii', 'us-ascii', 'utf-8') or str(o.enc).lower() not in ('us-ascii', 'utf-8'):
                raise Unsupported('decode')
            if str(o.enc).lower() == 'utf-8' and str(e).lower() != 'utf-8':
                raise Violation(NEVER, 'characters that are not ASCII')
            return Doc(o.e, 'unicode', o.at)
        if str(e).lower() != 'utf-8':
            raise Unsupported('encode')
        return Doc(o.e, 'utf-8', o.at)


class Source(Sym):
    never_none = True


class PPWorld(World):
    def __init__(w):
        w.memo, w.asked, w.facts = {}, [], []
        w.version = 0
        w.root = SElem(w, root=True)
        w.source = Source()
        w.parsed = 0
        w.needs, w.active = [], None

    def choice(w, ip):
        w.asked.append(('choice', True))
        return bool(ip.ex.choose(2))

    def ask(w, ip, key):
        if key[0] == 'isspace':
            b = blankness(key[1])
            if b is False or b and any(isinstance(x, str) or x.nonempty for x in key[1]):
                return b
        if key not in w.memo:
            w.memo[key] = bool(ip.ex.choose(2))
            w.asked.append((key, w.memo[key]))
        return w.memo[key]

    def num(w, ip): return Num()
    def opaque_str(w, ip): return SStr((Atom(Owner('opaque'), 'text', nonempty=False),))

    def str_eq(w, ip, a, b):
        for x, y in ((a, b), (b, a)):
            if y == ():
                # known to be empty, or not
                if blankness(x) is False or any(isinstance(p, Atom) and p.nonempty for p in x):
                    return False
            if blankness(x) is False and blankness(y) is True:
                return False
        if isinstance(a, tuple) and a == b:
            return True
        r = decide_eq(a, b)
        return w.ask(ip, ('eq',) + tuple(sorted((a, b), key=repr))) if r is None else r

    def strip(w, ip, s, name, cs):
        b = blankness(s.parts)
        if cs is None:
            if b is True:
                return ''
            if b is False:
                if len(s.parts) == 1 and False:
                    return s
                return SStr((Atom(Owner(name), repr(s.parts), sem='solid'),))
        elif b is False and not set(cs) - set(' \t\n\r\x0b\x0c'):
            return SStr((Atom(Owner(name), repr(s.parts), sem='solid'),))
        elif b is True:
            return SStr((blank_atom('%s(%r)' % (s, cs)),))
        return w.opaque_str(ip)

    format = RdrWorld.format
    text_of = RdrWorld.text_of
    str_format = RdrWorld.str_format
    concat = RdrWorld.concat

    def native_method(w, ip, m, name, args, kw):
        if isinstance(m, str):
            if name == 'format':
                return w.str_format(ip, m, args, kw)
            return str_method(ip, SStr((m,) if m else ()), name, args, kw)
        return NotImplemented

    def may_mutate(w, ip, o): return False

    def contains_native(w, ip, a, b):
        if isinstance(b, (tuple, list, set, frozenset)):
            return any([ip.truth(ip.compare(ast.Eq(), a, x, None)) for x in sorted(b, key=repr)])
        raise Unsupported('membership of a symbolic value')

    def new_list(w, ip, v):
        if isinstance(v, (SElem, Kids)):
            return Kids(v) if isinstance(v, SElem) else v
        raise Unsupported('list()')

    new_tuple = new_list

    def call(w, ip, f, args, kw):
        mod, name = getattr(f, '__module__', None), getattr(f, '__name__', '')
        if mod in ('xml.etree.ElementTree', '_elementtree', 'xml.etree.cElementTree'):
            if name == 'parse' or name == 'ElementTree':
                src_ = args[0] if args and name == 'parse' else kw.get('source' if name == 'parse' else 'file')
                if src_ is not w.source or len(args) + len(kw) != 1:
                    raise Unsupported('%s of something else than the source' % name)
                w.parsed += 1
                if w.parsed > 1:
                    raise Violation(NEVER, 'a stream is parsed twice')
                return STree(w)
            if name == 'tostring':
                a = dict(zip(('element', 'encoding', 'method'), args))
                a.update(kw)
                if not isinstance(a.get('element'), SElem):
                    raise Unsupported('tostring of something else')
                m = a.get('method')
                if m not in (None, 'xml'):
                    raise Violation(RESULT, 'serialised with method %r' % (m,))
                enc = a.get('encoding')
                if enc is not None and enc not in ('us-ascii', 'utf-8', 'UTF-8', 'unicode', 'US-ASCII', 'ascii'):
                    raise Unsupported('tostring encoding %r' % (enc,))
                if set(a) - {'element', 'encoding', 'method', 'xml_declaration', 'short_empty_elements'}:
                    raise Unsupported('tostring arguments')
                return Doc(a['element'], enc or 'us-ascii', w.version)
            if name == 'indent':
                # contract of the library function: this very invariant
                w.version += 1
                return None
            raise Unsupported('%s of ElementTree' % name)
        if isinstance(f, Sym) or not isinstance(f, (types.FunctionType, Closure)):
            if f is len and len(args) == 1 and isinstance(args[0], (list, tuple, dict)):
                return len(args[0])
            if f in (list, tuple, iter) and len(args) == 1 and isinstance(args[0], (SElem, Kids)):
                return w.new_list(ip, args[0])
            if f is enumerate and args and isinstance(args[0], (SElem, Kids)):
                return Numbered(w.new_list(ip, args[0]))
            if f is reversed and args and isinstance(args[0], (SElem, Kids)):
                return w.new_list(ip, args[0])
            if f in (max, min, abs, int, divmod) and args and any(isinstance(x, SLevel) for x in args) and f is not divmod:
                if all(isinstance(x, (int, SLevel)) for x in args):
                    return SLevel('%s(%s)' % (f.__name__, ', '.join(x.name if isinstance(x, SLevel) else str(x) for x in args)))
            if f is bool and len(args) == 1 and isinstance(args[0], Sym):
                return ip.truth(args[0])
            if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str and args and isinstance(args[0], SStr):
                return str_method(ip, args[0], f.__name__, args[1:], kw)
            return NotImplemented
        # a repository function: by contract when it is active already
        if isinstance(f, types.FunctionType) and src.in_repo(f):
            fr = [x for x in ip.frames if x.fn is f]
            es = [x for x in list(args) + list(kw.values()) if isinstance(x, SElem)]
            if fr:
                if len(es) != 1:
                    raise Unsupported('recursion without an element')
                outer = [x for x in fr[-1].entry if isinstance(x, SElem)]
                if len(outer) != 1 or not es[0].inside(outer[0]):
                    raise Unsupported('recursion on something else than a child')
                pat = w.pattern(f, args, kw)
                w.needs.append((f, pat))
                if returns(f):
                    raise Unsupported('the value of a recursive call')
                w.version += 1
                return None
        return NotImplemented

    def pattern(w, f, args, kw):
        """Argument kinds a recursive call needs the contract for."""
        def kind(x):
            if isinstance(x, SElem):
                return 'element'
            if isinstance(x, (int, SLevel)) and not isinstance(x, bool):
                lo = x if isinstance(x, int) else x.lo
                return 'int' if lo is None or lo < 0 else 'int >= %d' % min(lo, 1)
            if isinstance(x, (str, SStr)) and blankness(parts_of(x)):
                if any(isinstance(p, str) and p.strip(WS) for p in parts_of(x)):
                    raise Unsupported('argument %r' % (x,))
                return 'blank'
            if x is None or isinstance(x, (bool, str)):
                return ('const', x)
            raise Unsupported('argument %r of a recursive call' % (x,))
        return tuple(kind(x) for x in args), tuple(sorted((k, kind(v)) for k, v in kw.items()))

    def instantiate(w, pat):
        def val(k, n):
            if k == 'element':
                return SElem(w)
            if isinstance(k, str) and k.startswith('int'):
                return SLevel(n, int(k[6:]) if k[3:] else None)
            if k == 'blank':
                return SStr((blank_atom(n),))
            return k[1]
        return [val(k, 'argument %d' % i) for i, k in enumerate(pat[0])], {n: val(k, n) for n, k in pat[1]}


def returns(f):
    n = src.node_of(f)
    return any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None) for x in ast.walk(n))


class PPInterp(Interp):
    def bind(self, fn, node, args, kw, defaults, kwdefaults):
        out = super().bind(fn, node, args, kw, defaults, kwdefaults)
        self.entry = list(out.values())
        return out

    def run_body(self, body, fr, node):
        fr.entry = self.entry
        return super().run_body(body, fr, node)

    def inplace(self, op, cur, v, node):
        return super().inplace(op, cur, v, node)


class Prover:
    def __init__(p):
        p.fails, p.und, p.paths, p.counts, p.done = {}, [], 0, {}, []

    def explore(p, name, body):
        ex = Explorer(lambda c: True, 20000)
        needs = []

        def thunk(ex):
            SElem.n = 0
            w = PPWorld()
            ip = PPInterp(ex, w)
            try:
                body(ip, w)
                p.counts[name] = p.counts.get(name, 0) + 1
            except Violation as e:
                p.fail(w, e.ob, e.detail, name)
            except PyRaise as e:
                p.fail(w, NEVER, str(e), name)
            finally:
                for n in w.needs:
                    if n not in needs:
                        needs.append(n)
        try:
            for _ in ex.run(thunk):
                pass
        except (Unsupported, RecursionError) as e:
            p.und.append('%s: %s' % (name, e))
        p.paths += ex.paths
        return needs

    def fail(p, w, ob, detail, name):
        soft = [k for k, v in w.asked if k[0] not in ('nonzero',)]
        d = ('%s: %s (%s)' % (name, detail, '; '.join(w.facts)), not soft and not soft_path())
        if ob not in p.fails or not p.fails[ob][1]:
            p.fails[ob] = d

    def run(p, M):
        def top(ip, w):
            r = ip.call(M.xmlpp, [w.source], {})
            if not isinstance(r, Doc):
                raise Violation(RESULT, 'xmlpp returns %r' % (r,))
            if r.e is not w.root:
                raise Violation(RESULT, 'the document of %r is returned' % (r.e,))
        todo = p.explore('xmlpp', top)
        while todo:
            f, pat = todo.pop()
            if (f, pat) in p.done:
                continue
            p.done.append((f, pat))
            if len(p.done) > 20:
                p.und.append('more than 20 contracts')
                break

            def body(ip, w):
                a, k = w.instantiate(pat)
                ip.call_real(f, a, k)
            todo += p.explore('%s(%s)' % (f.__name__, ', '.join([x if isinstance(x, str) else repr(x[1]) for x in pat[0]] + ['%s=%s' % (n, k if isinstance(k, str) else repr(k[1])) for n, k in pat[1]])), body)


def prove():
    import model, PyCIM.PrettyPrintXML as M
    p = Prover()
    t = time.time()
    try:
        p.run(M)
    except Exception:
        p.und.append(traceback.format_exc()[-900:])
    p.time = time.time() - t
    return p
