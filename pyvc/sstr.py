"""Symbolic strings: concatenations of literals, atoms and uninterpreted
functions.  An atom stands for an arbitrary string subject to declared facts
(characters it does not contain, not empty, values it differs from).  A question
the facts do not settle is put to the world, which tries both answers and
remembers them along the path."""
from .interp import Sym, PyRaise, Unsupported


class Owner:
    """A thing of the document that strings belong to; dead once it is passed."""
    __slots__ = ('kind', 'alive', 'data')

    def __init__(s, kind, **data):
        s.kind, s.alive, s.data = kind, True, data


class Atom:
    __slots__ = ('owner', 'field', 'excl', 'nonempty', 'ne', 'first_not', 'sem')

    def __init__(s, owner, field, excl='', nonempty=True, ne=(), first_not='', sem=None):
        s.owner, s.field, s.excl, s.nonempty, s.first_not, s.sem = owner, field, frozenset(excl), nonempty, frozenset(first_not), sem
        s.ne = [norm([x]) if isinstance(x, (str, Atom)) else tuple(x) for x in ne]

    def __repr__(s):
        return '<%s.%s>' % (s.owner.kind, s.field)


class Fn:
    """Value of an uninterpreted function of strings."""
    __slots__ = ('name', 'args')

    def __init__(s, name, *args):
        s.name, s.args = name, args

    def __eq__(s, o):
        return isinstance(o, Fn) and s.name == o.name and s.args == o.args

    def __hash__(s):
        return hash((s.name, s.args))

    def __repr__(s):
        return '%s(%s)' % (s.name, ', '.join(map(show, s.args)))

    excl, nonempty, ne, first_not = frozenset(), False, (), frozenset()


def show(x):
    if isinstance(x, tuple):
        return '+'.join(repr(p) for p in x) or "''"
    return repr(x)


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def owners(parts):
    s = set()
    for p in parts:
        if isinstance(p, Atom):
            s.add(p.owner)
        elif isinstance(p, Fn):
            for a in p.args:
                if isinstance(a, tuple):
                    s |= owners(a)
                elif isinstance(a, Lin):
                    s |= {x.owner if isinstance(x, Atom) else y for x, _ in a.t for y in (owners((x,)) if isinstance(x, Fn) else [None])}
                elif isinstance(a, Owner):
                    s.add(a)
    s.discard(None)
    return s


def parts_of(x):
    if isinstance(x, str):
        return norm([x])
    if isinstance(x, SStr):
        return x.parts
    raise Unsupported('a string was expected: %r' % type(x).__name__)


def mk(parts):
    """Native string when nothing is symbolic."""
    parts = norm(parts)
    if not parts:
        return ''
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return SStr(parts)


# ------------------------------------------------------------------ lengths
class Lin:
    """Linear expression over lengths of atoms."""

    def __init__(s, c=0, t=()):
        d = {}
        for a, k in t:
            d[a] = d.get(a, 0) + k
        s.c, s.t = c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: repr(x[0])))

    def __eq__(s, o):
        return isinstance(o, Lin) and s.c == o.c and dict(s.t) == dict(o.t)

    def __hash__(s):
        return hash((s.c, frozenset(s.t)))

    def __repr__(s):
        return ' + '.join([str(s.c)] + ['%d*|%r|' % (k, a) for a, k in s.t])

    def __add__(s, o):
        return Lin(s.c + o.c, s.t + o.t)

    def neg(s):
        return Lin(-s.c, [(a, -k) for a, k in s.t])

    def min(s):
        """A lower bound, or None."""
        n = s.c
        for a, k in s.t:
            if k < 0:
                return None
            n += k if a.nonempty else 0
        return n


def length(parts):
    return Lin(sum(len(p) for p in parts if isinstance(p, str)), [(p, 1) for p in parts if not isinstance(p, str)])


class SLen(Sym):
    never_none = True

    def __init__(s, lin):
        s.lin = lin

    def s_binop(s, ip, op, o, swapped):
        x = s.lin
        if isinstance(o, bool) or not isinstance(o, (int, SLen)):
            return ip.w.num(ip)
        y = Lin(o) if isinstance(o, int) else o.lin
        if op == '+':
            r = x + y
        elif op == '-':
            r = y + x.neg() if swapped else x + y.neg()
        else:
            return ip.w.num(ip)
        return r.c if not r.t else SLen(r)

    def s_unary(s, ip, op):
        return SLen(s.lin.neg()) if op == 'USub' else ip.w.num(ip)

    def s_cmp(s, ip, op, o, swapped):
        if isinstance(o, (int, SLen)) and not isinstance(o, bool):
            d = s.lin + (Lin(o) if isinstance(o, int) else o.lin).neg()
            lo, hi = d.min(), d.neg().min()
            hi = None if hi is None else -hi
            r = decide_num(op, lo, hi)
            if r is not None:
                return r
        return cond(ip, ('len', repr(s.lin), op, repr(o)))

    def s_truth(s, ip):
        return s.s_cmp(ip, '!=', 0, False)

    def s_str(s, ip):
        return ip.w.opaque_str(ip)

    def s_type(s, ip): return int
    def s_isinstance(s, ip, k): return int in (k if isinstance(k, tuple) else (k,))


def decide_num(op, lo, hi):
    if op == '==':
        return True if lo == hi == 0 else False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
    if op == '!=':
        r = decide_num('==', lo, hi)
        return None if r is None else not r
    if op == '>':
        return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
    if op == '>=':
        return True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
    r = decide_num('>' if op == '<=' else '>=', lo, hi)
    return None if r is None else not r


def position(parts, lin):
    """Split point (i, offset in literal i) at the given offset, or None."""
    if isinstance(lin, int):
        lin = Lin(lin)
    rest = lin
    for i, p in enumerate(parts):
        if not rest.t and rest.c == 0:
            return (i, 0)
        if isinstance(p, str):
            if not rest.t and 0 <= rest.c <= len(p):
                return (i, rest.c) if rest.c < len(p) else (i + 1, 0)
            rest = rest + Lin(-len(p))
        else:
            if (p, 1) not in [(a, k) for a, k in rest.t if k >= 1] and not any(a == p and k >= 1 for a, k in rest.t):
                return None
            rest = rest + Lin(0, [(p, -1)])
    return (len(parts), 0) if not rest.t and rest.c == 0 else None


def cut(parts, pos):
    i, o = pos
    if o == 0:
        return norm(parts[:i]), norm(parts[i:])
    return norm(parts[:i] + (parts[i][:o],)), norm((parts[i][o:],) + parts[i + 1:])


def cond(ip, key):
    """An undecided question whose answer is returned to the program."""
    return getattr(ip.w, 'cond', ip.w.ask)(ip, key)


# ----------------------------------------------------------------- equality
def chars_decidable(parts, c):
    return all(isinstance(p, str) or c in p.excl for p in parts)


def split_on(parts, c):
    """Pieces between the occurrences of character c, or None if unknown."""
    if not chars_decidable(parts, c):
        return None
    out, cur = [], []
    for p in parts:
        if isinstance(p, str) and c in p:
            q = p.split(c)
            cur.append(q[0])
            for x in q[1:]:
                out.append(norm(cur))
                cur = [x]
        else:
            cur.append(p)
    out.append(norm(cur))
    return out


def nonempty(parts):
    return any(isinstance(p, str) or p.nonempty for p in parts)


def strip_common(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return None
            a[0], b[0] = x[n:], y[n:]
            if not a[0]:
                a.pop(0)
            if not b[0]:
                b.pop(0)
        elif x == y:
            a.pop(0), b.pop(0)
        else:
            break
    return a, b


def strip_common_end(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return None
            a[-1], b[-1] = x[:len(x) - n], y[:len(y) - n]
            if not a[-1]:
                a.pop()
            if not b[-1]:
                b.pop()
        elif x == y:
            a.pop(), b.pop()
        else:
            break
    return a, b


def charset(parts):
    return set().union(*[set(p) for p in parts if isinstance(p, str)]) if parts else set()


def decide_eq(a, b):
    """True, False or None (not settled by the facts)."""
    if a == b:
        return True
    r = strip_common(a, b)
    if r is None:
        return False
    r = strip_common_end(*r)
    if r is None:
        return False
    a, b = norm(r[0]), norm(r[1])
    if not a and not b:
        return True
    if not a or not b:
        return False if nonempty(a or b) else None
    for x, y in ((a, b), (b, a)):
        if isinstance(x[0], str) and not isinstance(y[0], str) and y[0].nonempty and (x[0][0] in y[0].excl or x[0][0] in y[0].first_not):
            return False
        if isinstance(x[-1], str) and not isinstance(y[-1], str) and y[-1].nonempty and x[-1][-1] in y[-1].excl:
            return False
        for c in charset(x):
            if c not in charset(y) and chars_decidable(y, c):
                return False
        if len(x) == 1 and isinstance(x[0], Atom) and y in x[0].ne:
            return False
        if len(x) == 1 and isinstance(x[0], Fn) and x[0].name == 'slice' and not x[0].args[1].t and x[0].args[1].c == 0 and \
                x[0].args[2] is not None and length(y) == x[0].args[2]:
            return decide_prefix(x[0].args[0], y)
        lo = (length(x) + length(y).neg()).min()
        if lo is not None and lo > 0:
            return False
    for c in charset(a) | charset(b):
        p, q = split_on(a, c), split_on(b, c)
        if p is None or q is None or len(p) == len(q) == 1:
            continue
        if len(p) != len(q):
            return False
        rs = [decide_eq(x, y) for x, y in zip(p, q)]
        if False in rs:
            return False
        if all(rs):
            return True
    return None


def decide_prefix(s, p):
    """Does s start with p?"""
    s, p = tuple(s), tuple(p)
    r = strip_common(s, p)
    if r is None:
        return False
    s, p = norm(r[0]), norm(r[1])
    if not p:
        return True
    if not s:
        return False if nonempty(p) else None
    if isinstance(p[0], str) and not isinstance(s[0], str) and s[0].nonempty and (p[0][0] in s[0].excl or p[0][0] in s[0].first_not):
        return False
    if isinstance(s[0], str) and not isinstance(p[0], str) and p[0].nonempty and s[0][0] in p[0].excl:
        return False
    for c in charset(p):
        if c not in charset(s) and chars_decidable(s, c):
            return False
    for c in charset(p):
        x, y = split_on(s, c), split_on(p, c)
        if x is None or y is None or len(y) == 1:
            continue
        if len(x) < len(y):
            return False
        rs = [decide_eq(u, v) for u, v in zip(x, y[:-1])]
        if False in rs:
            return False
        if all(rs):
            return decide_prefix(x[len(y) - 1], y[-1]) if y[-1] else True
    return None


def decide_suffix(s, p):
    r = strip_common_end(s, p)
    if r is None:
        return False
    s, p = norm(r[0]), norm(r[1])
    if not p:
        return True
    if not s:
        return False if nonempty(p) else None
    if isinstance(p[-1], str) and not isinstance(s[-1], str) and s[-1].nonempty and p[-1][-1] in s[-1].excl:
        return False
    if isinstance(s[-1], str) and not isinstance(p[-1], str) and p[-1].nonempty and s[-1][-1] in p[-1].excl:
        return False
    for c in charset(p):
        if c not in charset(s) and chars_decidable(s, c):
            return False
    return None


# ---------------------------------------------------------------- the values
CASE = {'lower', 'upper', 'title', 'capitalize', 'casefold'}
STRIPS = {'strip', 'lstrip', 'rstrip'}


class SStr(Sym):
    def __init__(s, parts):
        s.parts = parts

    def __repr__(s):
        return show(s.parts)

    def s_cmp(s, ip, op, o, swapped):
        if op in ('is', 'is not'):
            if o is None or not isinstance(o, (str, SStr)):
                return op == 'is not'
            if isinstance(o, SStr) and o.parts == s.parts and o is s:
                return op == 'is'
            raise Unsupported('identity of strings')
        if op in ('==', '!='):
            r = ip.w.str_eq(ip, s.parts, parts_of(o)) if isinstance(o, (str, SStr)) else False
            return r if op == '==' else not r
        if not isinstance(o, (str, SStr)):
            raise PyRaise(TypeError('ordering of a string and %s' % type(o).__name__))
        return cond(ip, ('ord', s.parts, op, parts_of(o), swapped))

    def s_truth(s, ip):
        return True if nonempty(s.parts) else not ip.w.str_eq(ip, s.parts, ())

    def s_len(s, ip):
        l = length(s.parts)
        return l.c if not l.t else SLen(l)

    def s_str(s, ip): return s
    def s_type(s, ip): return str
    def s_isinstance(s, ip, k):
        return any(isinstance(x, type) and issubclass(str, x) for x in (k if isinstance(k, tuple) else (k,)))

    def s_binop(s, ip, op, o, swapped):
        if op == '+':
            if not isinstance(o, (str, SStr)):
                raise PyRaise(TypeError('concatenation of a string and %s' % type(o).__name__))
            return mk(parts_of(o) + s.parts if swapped else s.parts + parts_of(o))
        if op == '%' and not swapped:
            return ip.w.opaque_str(ip)
        if op == '*':
            return ip.w.opaque_str(ip)
        raise PyRaise(TypeError('string %s' % op))

    def s_contains(s, ip, x):
        if not isinstance(x, (str, SStr)):
            raise PyRaise(TypeError('in <string>'))
        p = parts_of(x)
        if not p:
            return True
        if len(p) == 1 and isinstance(p[0], str):
            if any(isinstance(q, str) and p[0] in q for q in s.parts):
                return True
            if any(c not in charset(s.parts) and chars_decidable(s.parts, c) for c in p[0]):
                return False
        for i in range(len(s.parts)):
            if s.parts[i:i + len(p)] == p:
                return True
        return cond(ip, ('contains', s.parts, p))

    def index(s, ip, i):
        if i is None:
            return None
        if isinstance(i, SLen):
            return i.lin
        if isinstance(i, bool) or not isinstance(i, int):
            raise Unsupported('string index')
        return Lin(i)

    def s_getitem(s, ip, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return mk([Fn('slice3', s.parts, repr(k))])
            lo, hi = s.index(ip, k.start), s.index(ip, k.stop)
            total = length(s.parts)
            if lo is None:
                lo = Lin(0)
            p = s.parts
            # negative bounds count from the end
            if not lo.t and lo.c < 0:
                lo = lo + total
            if hi is not None and not hi.t and hi.c < 0:
                hi = hi + total
            a, b = position(p, lo), position(p, hi) if hi is not None else (len(p), 0)
            if a is not None and b is not None:
                if b < a:
                    return ''
                left = cut(p, b)[0]
                return mk(cut(left, a)[1]) if position(left, lo) is not None else ''
            if a is not None and hi is None:
                return mk(cut(p, a)[1])
            if a is not None and a != (0, 0) and hi is not None:
                return SStr(cut(p, a)[1]).s_getitem(ip, slice(0, _idx(hi + lo.neg()), None)) if cut(p, a)[1] else ''
            return mk([Fn('slice', p, lo, hi)])
        i = s.index(ip, k)
        if not i.t and i.c < 0:
            q = SStr(s.parts).s_getitem(ip, slice(_idx(i), _idx(i + Lin(1)) if i.c != -1 else None, None))
        else:
            q = s.s_getitem(ip, slice(_idx(i), _idx(i + Lin(1)), None))
        if not nonempty(s.parts) or (i.c not in (0, -1) or i.t) and not isinstance(q, str) and not nonempty(parts_of(q)):
            if ip.w.ask(ip, ('index', s.parts, repr(i))):
                raise PyRaise(IndexError('string index out of range'))
        elif isinstance(q, str) and not q:
            raise PyRaise(IndexError('string index out of range'))
        return q

    def s_iter(s, ip):
        raise Unsupported('iteration over a symbolic string')

    def s_getattr(s, ip, name):
        if hasattr(str, name):
            return StrMethod(s, name)
        raise PyRaise(AttributeError(name))


def _idx(lin):
    return lin.c if not lin.t else SLen(lin)


class StrMethod(Sym):
    never_none = True

    def __init__(s, o, name):
        s.o, s.name = o, name

    def s_call(s, ip, args, kw):
        return str_method(ip, s.o, s.name, args, kw)

    def s_truth(s, ip): return True


def str_method(ip, s, name, args, kw):
    w = ip.w
    p = s.parts
    if any(a is None for a in args) and name not in ('strip', 'lstrip', 'rstrip', 'split', 'rsplit'):
        raise PyRaise(TypeError('%s: None' % name))
    if name in ('startswith', 'endswith'):
        f = decide_prefix if name == 'startswith' else decide_suffix
        if len(args) != 1:
            raise Unsupported('str.%s with bounds' % name)
        for a in args[0] if isinstance(args[0], tuple) else (args[0],):
            q = parts_of(a)
            r = f(p, q)
            if r is None:
                r = w.ask(ip, (name, p, q))
            if r:
                return True
        return False
    if name in CASE and not args:
        return mk([Fn(name, p)])
    if name in STRIPS:
        cs = args[0] if args else None
        if isinstance(cs, SStr):
            return mk([Fn(name, p, cs.parts)])
        return w.strip(ip, s, name, cs)
    if name in ('removeprefix', 'removesuffix') and len(args) == 1:
        q = parts_of(args[0])
        f = decide_prefix if name == 'removeprefix' else decide_suffix
        r = f(p, q)
        if r is None:
            r = w.ask(ip, (name, p, q))
            if r:
                return mk([Fn(name, p, q)])
        if not r:
            return s
        n = length(q)
        return s.s_getitem(ip, slice(_idx(n), None, None)) if name == 'removeprefix' else s.s_getitem(ip, slice(0, _idx(length(p) + n.neg()), None))
    if name in ('split', 'rsplit', 'partition', 'rpartition') and args and isinstance(args[0], (str, SStr)):
        sep = parts_of(args[0])
        mx = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
        if not isinstance(mx, int):
            raise Unsupported('split count')
        ps = pieces(p, sep)
        if name in ('partition', 'rpartition'):
            mx = 1
        if ps is None:
            ps = pieces_partial(p, sep, name[0] == 'r', mx)
        if ps is None:
            r = last_piece(p, sep) if name[0] == 'r' or mx < 0 else None
            if r is not None and mx != 0:
                # something precedes; only what follows the last separator is known
                return SplitTail(mk([Fn('split-head', p, sep, str(mx))]), mk(r), mx)
            return SplitUnknown(s, sep, name, mx)
        if mx >= 0 and len(ps) - 1 > mx:
            if name[0] == 'r':
                k = len(ps) - mx
                ps = [join(sep, ps[:k])] + ps[k:]
            else:
                ps = ps[:mx] + [join(sep, ps[mx:])]
        ps = [mk(x) for x in ps]
        if name == 'partition':
            return (ps[0], mk(sep), ps[1]) if len(ps) == 2 else (ps[0], '', '')
        if name == 'rpartition':
            return (ps[0], mk(sep), ps[1]) if len(ps) == 2 else ('', '', ps[0])
        return ip.w.list_display(ip, ps)
    if name in ('find', 'index', 'rfind', 'rindex') and len(args) == 1:
        sep = parts_of(args[0])
        ps = pieces(p, sep)
        if ps is not None:
            if len(ps) == 1:
                if name.endswith('index'):
                    raise PyRaise(ValueError('substring not found'))
                return -1
            n = length(join(sep, ps[:-1])) if name[0] == 'r' else length(ps[0])
            return _idx(n)
        t = last_piece(p, sep) if name[0] == 'r' else None
        if t is not None:
            return _idx(length(p) + length(t).neg() + length(sep).neg())
        return w.num(ip)
    if name == 'replace' and len(args) in (2, 3):
        a, b = parts_of(args[0]), parts_of(args[1])
        ps = pieces(p, a)
        if ps is None and decide_prefix(p, a):
            rest = parts_of(s.s_getitem(ip, slice(_idx(length(a)), None, None)))
            q = pieces(rest, a) if len(args) == 2 else [rest]
            if len(args) == 3 and args[2] != 1:
                q = None
            ps = [()] + q if q is not None else None
        if ps is not None and (len(args) == 2 or len(ps) <= args[2] + 1):
            return mk(join(b, ps))
        return mk([Fn('replace', p, a, b)] if len(args) == 2 else [Fn('replace', p, a, b, (repr(args[2]),))])
    if name == 'join' and len(args) == 1 and isinstance(args[0], (list, tuple)):
        return mk(join(p, [parts_of(x) for x in args[0]]))
    if name == 'format':
        return w.opaque_str(ip)
    if name.startswith('is') and not args:
        return w.ask(ip, (name, p))
    if name == 'count' and len(args) == 1:
        ps = pieces(p, parts_of(args[0]))
        return len(ps) - 1 if ps is not None else w.num(ip)
    if name == 'translate' and len(args) == 1 and isinstance(args[0], dict) and all(isinstance(k, int) and isinstance(v, (str, int)) for k, v in args[0].items()):
        return mk([Fn('charmap', p, tuple(sorted((chr(k), v if isinstance(v, str) else chr(v)) for k, v in args[0].items())))])
    if name in ('swapcase', 'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'translate', 'encode'):
        return mk([Fn(name, p, repr(args))])
    raise Unsupported('str.%s' % name)


def join(sep, ps):
    out = ()
    for i, x in enumerate(ps):
        out += (sep if i else ()) + x
    return norm(out)


def pieces(p, sep):
    """Pieces of p between all occurrences of sep, or None."""
    if not sep:
        return None
    if len(sep) == 1 and isinstance(sep[0], str):
        c = sep[0]
        if len(c) == 1:
            return split_on(p, c)
        ch = [x for x in c if chars_decidable(p, x)]
        if ch:
            # every occurrence lies within one literal (or crosses into an atom that excludes the character)
            if all(isinstance(q, str) or set(c) <= q.excl for q in p):
                out, cur = [], []
                for q in p:
                    if isinstance(q, str) and c in q:
                        z = q.split(c)
                        cur.append(z[0])
                        for x in z[1:]:
                            out.append(norm(cur))
                            cur = [x]
                    else:
                        cur.append(q)
                return out + [norm(cur)]
            if any(x not in charset(p) for x in ch):
                return [p]
        return None
    # symbolic separator: a prefix of p that contains a character nothing else contains
    if decide_prefix(p, sep):
        rest = None
        pos = position(p, length(sep))
        if pos is not None:
            rest = cut(p, pos)[1]
            if any(chars_decidable(rest, c) and c not in charset(rest) for c in charset(sep)):
                return [(), rest]
    elif any(chars_decidable(p, c) and c not in charset(p) for c in charset(sep)):
        return [p]
    return None


def pieces_partial(p, sep, right, mx):
    """With a bounded number of splits only one end must be known."""
    if mx < 0 or len(sep) != 1 or not isinstance(sep[0], str) or len(sep[0]) != 1:
        return None
    c = sep[0]
    out = []
    rest = p
    for _ in range(mx):
        q = last_cut(rest, c) if right else first_cut(rest, c)
        if q is None:
            return None
        if q is False:
            break
        if right:
            rest = q[0]
            out.insert(0, q[1])
        else:
            out.append(q[0])
            rest = q[1]
    return [rest] + out if right else out + [rest]


def last_cut(p, c):
    for i in range(len(p) - 1, -1, -1):
        if isinstance(p[i], str):
            if c in p[i]:
                a, b = p[i].rsplit(c, 1)
                return norm(p[:i] + (a,)), norm((b,) + p[i + 1:])
        elif c not in p[i].excl:
            return None
    return False


def first_cut(p, c):
    for i in range(len(p)):
        if isinstance(p[i], str):
            if c in p[i]:
                a, b = p[i].split(c, 1)
                return norm(p[:i] + (a,)), norm((b,) + p[i + 1:])
        elif c not in p[i].excl:
            return None
    return False


def last_piece(p, sep):
    if len(sep) == 1 and isinstance(sep[0], str) and len(sep[0]) == 1:
        q = last_cut(p, sep[0])
        if q:
            return q[1]
    return None


class SplitTail(Sym):
    """Result of a split of which only the last piece is known."""
    never_none = True


    def __init__(s, head, tail, mx):
        s.head, s.tail, s.mx = head, tail, mx

    popped = False

    def s_getitem(s, ip, k):
        if isinstance(k, int) and not s.popped:
            if k == -1 or s.mx == 1 and k == 1:
                return s.tail
            return mk([Fn('piece', parts_of(s.head), str(k))])
        raise Unsupported('pieces of a split')

    def s_getattr(s, ip, name):
        if name == 'pop':
            return PopLast(s)
        raise Unsupported('list.%s of a split' % name)

    def s_len(s, ip): return ip.w.num(ip)
    def s_truth(s, ip): return True


class PopLast(Sym):
    never_none = True

    def __init__(s, o):
        s.o = o

    def s_call(s, ip, args, kw):
        if args and args != [-1]:
            raise Unsupported('pieces of a split')
        if getattr(s.o, 'popped', False):
            raise Unsupported('pieces of a split')
        s.o.popped = True
        return s.o.tail


class SplitUnknown(Sym):
    """Result of a split nothing is known about."""
    never_none = True


    def __init__(s, o, sep, name, mx):
        s.o, s.sep, s.name, s.mx = o, sep, name, mx

    def s_getitem(s, ip, k):
        if not isinstance(k, int):
            raise Unsupported('pieces of a split')
        if k not in (0, -1) and 'partition' not in s.name and ip.w.ask(ip, ('pieces', s.o.parts, s.sep, k)):
            raise PyRaise(IndexError('list index out of range'))
        return mk([Fn('piece', s.o.parts, s.sep, s.name, str(s.mx), str(k))])

    def s_len(s, ip): return ip.w.num(ip)
    def s_truth(s, ip): return True
