"""Domain and contracts of XMLWriter (C11).

The output is read back, while it is being produced, by an XML parser automaton
working on symbolic strings.  For a call history H let E(H) be the parse events
it asks for (open with attributes, text, close).  The invariant of the writer,
at every point between calls, with `pending` the text given but not yet written:

    events parsed from the output so far, then text(pending)  =  E(H)
    the automaton is in content or inside a start tag; its stack of open
    elements is the stack of elements started and not ended

Each method is run from every abstract state that satisfies the invariant (the
private fields are whatever the real code makes of them: constants, a list that
mirrors the element stack, a list whose join is the pending text); the states
are those reachable from the constructor, closed under all methods."""
import ast, codecs, types
from . import src
from .interp import World, Interp, Sym, Unsupported, PyRaise, PathEnd, Bound, _Return, _Break, _Continue, MUTATORS
from .sstr import *
from .sstr import join as sjoin
from .rdrworld import Num, RdrWorld

NAMEX = '&<>"\' =/?!\t\n\r;#%'


class Violation(Exception):
    def __init__(s, ob, detail): s.ob, s.detail = ob, detail


def name_atom(kind, n):
    return Atom(Owner(kind), n, excl=NAMEX, sem='name')


# ---------------------------------------------------------- element stacks
class Base:
    """The unknown lower part of a stack: empty or (Base, top)."""
    n = 0

    def __init__(s):
        Base.n += 1
        s.state, s.lens = '?', None
        s.len = Atom(Owner('stack%d' % Base.n), 'length', nonempty=False)

    def expand(s, w, ip):
        if s.state == '?':
            if not w.choice(ip):
                s.state = None
            else:
                b = Base()
                if s.lens is not None:
                    b.lens = s.lens + Lin(-1)
                s.state = (b, SStr((name_atom('outer tag', 'name'),)))
        return s.state

    def lin(s):
        if s.state == '?':
            return s.lens or Lin(0, [(s.len, 1)])
        return Lin(0) if s.state is None else s.state[0].lin() + Lin(1)


class Stack:
    def __init__(s, base, suffix): s.base, s.suffix = base, list(suffix)

    def copy(s): return Stack(s.base, s.suffix)
    def lin(s): return (s.base.lin() if s.base else Lin(0)) + Lin(len(s.suffix))

    def settle(s, w, ip):
        """Is it empty?  The top, if any, is made known."""
        while not s.suffix:
            if s.base is None:
                return True
            x = s.base.expand(w, ip)
            if x is None:
                s.base = None
                return True
            s.base = x[0]
            s.suffix = [x[1]]
        return False

    def pop(s, w, ip):
        return None if s.settle(w, ip) else s.suffix.pop()

    def top(s, w, ip):
        return None if s.settle(w, ip) else s.suffix[-1]

    def same(s, o):
        norm_(s), norm_(o)
        return s.base is o.base and len(s.suffix) == len(o.suffix) and all(parts_of(a) == parts_of(b) for a, b in zip(s.suffix, o.suffix))


def norm_(s):
    while s.base is not None and s.base.state != '?':
        if s.base.state is None:
            s.base = None
        else:
            b, t = s.base.state
            s.base, s.suffix = b, [t] + s.suffix


class SStack(Sym):
    """A list of the writer that mirrors the element stack."""
    never_none = True

    def __init__(s, st): s.st = st

    def s_len(s, ip):
        l = s.st.lin()
        return l.c if not l.t else SLen(l)

    def s_truth(s, ip): return not s.st.settle(ip.w, ip)
    def s_type(s, ip): return list
    def s_isinstance(s, ip, k): return list in (k if isinstance(k, tuple) else (k,))

    def s_contains(s, ip, x):
        if any([ip.w.str_eq(ip, parts_of(x), parts_of(t)) for t in s.st.suffix]):
            return True
        if s.st.base is None:
            return False
        if not s.st.suffix:
            s.st.settle(ip.w, ip)
            return s.s_contains(ip, x)
        return ip.w.member(ip)

    def s_getitem(s, ip, k):
        if k == -1:
            t = s.st.top(ip.w, ip)
            if t is None:
                raise PyRaise(IndexError('list index out of range'))
            return t
        if isinstance(k, slice) and k == slice(None, -1, None):
            x = s.st.copy()
            x.pop(ip.w, ip)
            return SStack(x)
        if isinstance(k, slice) and k == slice(-1, None, None):
            t = s.st.top(ip.w, ip)
            return [] if t is None else [t]
        s.un('subscript')

    def s_delitem(s, ip, k):
        if k == -1 or isinstance(k, slice) and k == slice(-1, None, None):
            if s.st.pop(ip.w, ip) is None and k == -1:
                raise PyRaise(IndexError('list assignment index out of range'))
            return
        s.un('subscript deletion')

    def s_getattr(s, ip, name):
        if name in ('append', 'pop', 'copy', '__len__'):
            return ListMethod(s, name)
        s.un('list.%s' % name)

    def s_binop(s, ip, op, o, sw):
        if op == '+' and isinstance(o, list) and not sw:
            x = s.st.copy()
            x.suffix += o
            return SStack(x)
        s.un('operator ' + op)

    def s_inplace(s, ip, op, o):
        if op == '+' and isinstance(o, (list, tuple)):
            s.st.suffix += list(o)
            return s
        s.un('operator ' + op)

    def s_cmp(s, ip, op, o, sw):
        if isinstance(o, list) and not o and op in ('==', '!='):
            return s.s_truth(ip) == (op == '!=')
        return super().s_cmp(ip, op, o, sw)


class STexts(Sym):
    """A non-empty list of the writer whose members joined are the pending text."""
    never_none = True

    def __init__(s, parts): s.parts = parts

    def s_len(s, ip): return Num()
    def s_truth(s, ip): return True
    def s_type(s, ip): return list
    def s_isinstance(s, ip, k): return list in (k if isinstance(k, tuple) else (k,))

    def s_getattr(s, ip, name):
        if name in ('append', 'copy'):
            return ListMethod(s, name)
        s.un('list.%s' % name)

    def s_loop(s, ip, node, fr, body):
        # each member is written by the same homomorphism of characters (the
        # parser checks it is one), so writing the members is writing their join
        w = ip.w
        assigned = {n.id for x in node.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for v in assigned:
            if v in fr.vars:
                fr.vars[v] = Unknown()
        before, st = w.snapshot(ip), w.parser.state
        ip.assign(node.target, SStr(s.parts) if s.parts else '', fr)
        try:
            ip.block(node.body, fr)
        except _Continue:
            pass
        except _Break:
            raise Violation('the text parsed is the text given', 'the loop over the texts is left early')
        if w.snapshot(ip) != before or w.parser.state != st or st != 'content':
            raise Unsupported('a loop over the texts changes the writer')
        for v in assigned:
            fr.vars[v] = Unknown()
        ip.block(node.orelse, fr)
        return True

    def s_binop(s, ip, op, o, sw):
        if op == '+' and isinstance(o, list) and not sw:
            return STexts(norm(s.parts + sum((parts_of(x) for x in o), ())))
        s.un('operator ' + op)

    def s_inplace(s, ip, op, o):
        if op == '+' and isinstance(o, (list, tuple)):
            s.parts = norm(s.parts + sum((parts_of(x) for x in o), ()))
            return s
        s.un('operator ' + op)

    def s_cmp(s, ip, op, o, sw):
        if isinstance(o, list) and not o and op in ('==', '!='):
            return op == '!='
        return super().s_cmp(ip, op, o, sw)


class ListMethod(Sym):
    never_none = True

    def __init__(s, o, name): s.o, s.name = o, name

    def s_call(s, ip, args, kw):
        o, n = s.o, s.name
        if n == 'append':
            if isinstance(o, SStack):
                o.st.suffix.append(args[0])
            else:
                if not isinstance(args[0], (str, SStr)):
                    raise Unsupported('member of the text list')
                o.parts = norm(o.parts + parts_of(args[0]))
            return None
        if n == 'pop':
            if args and args != [-1]:
                raise Unsupported('pop of an inner element')
            t = o.st.pop(ip.w, ip)
            if t is None:
                raise PyRaise(IndexError('pop from empty list'))
            return t
        if n == '__len__':
            return o.s_len(ip)
        return SStack(o.st.copy()) if isinstance(o, SStack) else STexts(o.parts)


# -------------------------------------------------------------- attributes
class SAttrs(Sym):
    """A map of attributes: the union of what the caller gave, later parts winning."""
    never_none = True

    def __init__(s, parts, own): s.srcs, s.own = tuple(parts), own

    def __repr__(s): return '<attributes %s>' % (s.srcs,)
    def s_truth(s, ip): return any([ip.w.ask(ip, ('given', x)) for x in s.srcs])
    def s_len(s, ip): return Num() if s.srcs else 0
    def s_type(s, ip): return dict
    def s_isinstance(s, ip, k): return dict in (k if isinstance(k, tuple) else (k,))
    def s_loop(s, ip, node, fr, body): return Items(s, 'keys').s_loop(ip, node, fr, body)

    def merged(s, o):
        o = o.srcs if isinstance(o, SAttrs) else ()
        return tuple(x for x in s.srcs if x not in o) + o

    def s_getattr(s, ip, name):
        if name in ('items', 'keys', 'values', 'copy', 'update', 'get'):
            return AttrMethod(s, name)
        if name in MUTATORS and not s.own:
            raise Violation('the attribute dictionary is not changed', name)
        s.un('dict.%s' % name)

    def s_getitem(s, ip, k):
        if k is ip.w.attr[0]:
            return ip.w.attr[1]
        s.un('subscript')

    def s_setitem(s, ip, k, v):
        if not s.own:
            raise Violation('the attribute dictionary is not changed', 'assignment')
        s.un('subscript assignment')

    def s_binop(s, ip, op, o, sw):
        if op == '|' and isinstance(o, (SAttrs, dict)) and not (isinstance(o, dict) and o):
            return SAttrs(s.merged(o) if not sw else SAttrs((), True).merged(o) + s.srcs, True)
        s.un('operator ' + op)

    def s_inplace(s, ip, op, o):
        if op == '|' and isinstance(o, SAttrs):
            if not s.own:
                raise Violation('the attribute dictionary is not changed', '|=')
            s.srcs = s.merged(o)
            return s
        s.un('operator ' + op)


class AttrMethod(Sym):
    never_none = True

    def __init__(s, o, name): s.o, s.name = o, name

    def s_call(s, ip, args, kw):
        o, n = s.o, s.name
        if n == 'copy':
            return SAttrs(o.srcs, True)
        if n == 'update':
            add = list(args) + ([kw['**']] if '**' in kw else [])
            for x in add:
                if not isinstance(x, SAttrs):
                    if isinstance(x, dict) and not x:
                        continue
                    raise Unsupported('update of attributes')
                if not o.own:
                    if x.srcs:
                        raise Violation('the attribute dictionary is not changed', 'update')
                    continue
                o.srcs = o.merged(x)
            if set(kw) - {'**'}:
                raise Unsupported('update of attributes')
            return None
        if n == 'get':
            return o.s_getitem(ip, args[0])
        return Items(o, n)


class Items(Sym):
    never_none = True

    def __init__(s, o, kind): s.o, s.kind = o, kind

    def item(s, ip):
        k, v = ip.w.attr
        return {'items': (k, v), 'keys': k, 'values': v}[s.kind]

    def s_truth(s, ip): return s.o.s_truth(ip)
    def s_len(s, ip): return s.o.s_len(ip)

    def s_loop(s, ip, node, fr, body):
        w = ip.w
        if not s.o.srcs:
            ip.block(node.orelse, fr)
            return True
        assigned = {n.id for x in node.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for v in assigned:
            if v in fr.vars and v not in {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}:
                fr.vars[v] = Unknown()
        w.parser.each_begin(s.o.srcs)
        before = w.snapshot(ip)
        ip.assign(node.target, s.item(ip), fr)
        try:
            ip.block(node.body, fr)
        except _Continue:
            pass
        except _Break:
            raise Violation('attributes', 'the loop over the attributes is left early')
        w.parser.each_end()
        if w.snapshot(ip) != before:
            raise Unsupported('a loop over the attributes changes the writer')
        for v in assigned:
            fr.vars[v] = Unknown()
        ip.block(node.orelse, fr)
        return True


class Unknown(Sym):
    """A variable set in a loop over the attributes."""
    unknown = True


class Each:
    """In a string: one piece for each attribute."""
    excl, nonempty, ne, first_not = frozenset(), False, (), frozenset()

    def __init__(s, srcs, parts): s.srcs, s.parts = srcs, parts
    def __repr__(s): return 'each(%s)' % show(s.parts)


class EachSeq(Sym):
    """Comprehension over the attributes."""
    never_none = True

    def __init__(s, srcs, x): s.srcs, s.x = srcs, x


# ------------------------------------------------------------------ escaping
ENT = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}


def decode(t):
    """Characters and entities of a literal, or None if it is not character data."""
    out, i = '', 0
    while i < len(t):
        if t[i] == '<':
            return None
        if t[i] == '&':
            j = t.find(';', i)
            if j < 0:
                return None
            e = t[i + 1:j]
            try:
                out += chr(int(e[2:], 16)) if e[:2] == '#x' else chr(int(e[1:])) if e[:1] == '#' else ENT[e]
            except (KeyError, ValueError):
                return None
            i = j + 1
        else:
            out += t[i]
            i += 1
    return out


def chain(p):
    """(arguments, maps applied to each character, first to last) of a nest of replacements."""
    maps = []
    while True:
        if isinstance(p, Fn) and p.name == 'replace' and len(p.args) == 3 and len(p.args[1]) == 1 and isinstance(p.args[1][0], str) and \
                len(p.args[1][0]) == 1 and all(isinstance(x, str) for x in p.args[2]):
            a, b = p.args[1][0], ''.join(p.args[2])
            maps.insert(0, {a: b})
        elif isinstance(p, Fn) and p.name == 'charmap':
            maps.insert(0, dict(p.args[1]))
        else:
            return None
        q = p.args[0]
        if len(q) == 1 and isinstance(q[0], Fn):
            p = q[0]
            continue
        return q, maps


def escaped(p, quote):
    """(True, text) when a part of the output stands for exactly that text in
    element content (quote None) or an attribute value; (False, reason); (None, why) if unknown."""
    if isinstance(p, Atom):
        if p.sem == 'name':
            return True, (p,)
        return False, 'text is written without escaping'
    c = chain(p)
    if c is None:
        return None, 'a string whose characters are not known: %r' % (p,)
    q, maps = c
    if any(isinstance(x, Fn) for x in q):
        return None, 'nested string functions'
    chars = set('&<>"\'x]') | {quote or 'x'} | {k for m in maps for k in m} | {y for m in maps for v in m.values() for y in v}
    for ch in sorted(chars):
        t = ch
        for m in maps:
            t = ''.join(m.get(y, y) for y in t)
        d = decode(t)
        if d != ch:
            return False, 'the character %r is written as %r' % (ch, t)
        if quote and quote in t:
            return False, 'the character %r ends the attribute value' % ch
        if not quote and ch == '>' and t == '>':
            return False, 'the text ]]> is not escaped'
    return True, q


def commented(p):
    """The same for a part of a comment: its text may be changed by a function of characters, but gets no hyphens."""
    if isinstance(p, Atom):
        return (True, (p,)) if p.sem == 'comment' else (False, '%r is written into a comment' % (p,))
    c = chain(p)
    if c is None:
        return None, 'a string whose characters are not known: %r' % (p,)
    q, maps = c
    if not (len(q) == 1 and isinstance(q[0], Atom) and q[0].sem == 'comment'):
        return None, '%r in a comment' % (p,)
    for ch in sorted({'-', 'x'} | {k for m in maps for k in m} | {y for m in maps for v in m.values() for y in v}):
        t = ch
        for m in maps:
            t = ''.join(m.get(y, y) for y in t)
        if '-' in t and t != ch:
            return None, 'hyphens put into a comment'
    return True, q


# -------------------------------------------------------------------- parser
class Parser:
    """state: content, lt, oname, tag, space, aname, eq, aval, slash, cname, decl, bang, bang1, comment, gt (only '>' may follow)"""

    def __init__(s, w, state, stack):
        s.w, s.state, s.stack = w, state, stack
        s.events, s.cur, s.acc, s.ent = [], None, (), None
        s.each = None

    def bad(s, why): raise Violation('the output is well-formed', why)

    def text(s, parts):
        if s.each is not None:
            s.bad('text in the loop over the attributes')
        if s.events and s.events[-1][0] == 'text':
            s.events[-1] = ('text', norm(s.events[-1][1] + tuple(parts)))
        else:
            s.events.append(('text', norm(parts)))

    def feed(s, ip, parts):
        for p in parts:
            if isinstance(p, Each):
                s.each_begin(p.srcs)
                s.feed(ip, p.parts)
                s.each_end()
            elif isinstance(p, str):
                for ch in p:
                    s.char(ip, ch)
            else:
                s.part(ip, p)

    def named(s, ip, p):
        if not (isinstance(p, Atom) and p.sem == 'name'):
            if isinstance(p, Fn) and not (chain(p) and all(isinstance(x, Atom) for x in chain(p)[0])):
                raise Unsupported('name built from %r' % (p,))
            s.bad('%r is written as a name' % (p,))

    def part(s, ip, p):
        st = s.state
        if s.ent is not None:
            s.bad('a text after &')
        if st == 'content':
            ok, x = escaped(p, None)
            if ok is None:
                raise Unsupported(x)
            if not ok:
                s.bad(x)
            s.text(x)
        elif st == 'aval':
            ok, x = escaped(p, s.quote)
            if ok is None:
                raise Unsupported(x)
            if not ok:
                s.bad(x)
            s.acc += tuple(x)
        elif st in ('lt', 'oname'):
            s.named(ip, p)
            if st == 'lt':
                s.acc, s.state = (), 'oname'
            s.acc += (p,)
        elif st in ('space', 'aname'):
            s.named(ip, p)
            if st == 'space':
                s.acc, s.state = (), 'aname'
            s.acc += (p,)
        elif st == 'cname':
            s.named(ip, p)
            s.acc += (p,)
        elif st == 'decl':
            s.acc += (p,)
        elif st == 'comment':
            # a text without two hyphens in a row; it may begin or end with one
            if s.acc and (not isinstance(s.acc[-1], str) or s.acc[-1].endswith('-')):
                s.bad('a comment text next to %s' % show(s.acc[-1:]))
            ok, x = commented(p)
            if ok is None:
                raise Unsupported(x)
            if not ok:
                s.bad(x)
            s.acc += tuple(x)
        else:
            s.bad('%r in state %s' % (p, st))

    def open_done(s):
        """The name in a start tag is complete."""
        if s.state == 'oname':
            if s.each is not None:
                s.bad('an element in the loop over the attributes')
            s.cur = ('open', norm(s.acc), [])
            s.events.append(s.cur)
            s.stack.suffix.append(SStr(norm(s.acc)))
            s.state, s.acc = 'tag', ()

    def char(s, ip, ch):
        st = s.state
        if s.ent is not None:
            s.ent += ch
            if ch == ';':
                d = decode(s.ent)
                if d is None:
                    s.bad('unknown entity %s' % s.ent)
                s.ent = None
                if st == 'content':
                    s.text((d,))
                else:
                    s.acc += (d,)
            elif ch in '<&" ':
                s.bad('a raw &')
            return
        if st == 'oname' and ch in ' \n\t/>':
            s.open_done()
            st = s.state
        if st == 'content':
            if ch == '<':
                s.state = 'lt'
            elif ch == '&':
                s.ent = '&'
            else:
                s.text((ch,))
        elif st == 'lt':
            if ch == '/':
                s.state, s.acc = 'cname', ()
            elif ch == '?':
                s.state, s.acc = 'decl', ()
            elif ch == '!':
                s.state = 'bang'
                if s.each is not None:
                    s.bad('a comment in the loop over the attributes')
            elif ch in ' <>&"\'=\n\t':
                s.bad('%r after <' % ch)
            else:
                s.state, s.acc = 'oname', (ch,)
        elif st == 'oname':
            s.acc += (ch,)
        elif st in ('tag', 'space'):
            if ch in ' \n\t':
                s.state = 'space'
            elif ch == '>':
                s.state = 'content'
                s.no_each('the tag is closed')
            elif ch == '/':
                s.state = 'slash'
                s.no_each('the tag is closed')
            elif st == 'space' and ch not in '<&"\'=':
                s.state, s.acc = 'aname', (ch,)
            else:
                s.bad('%r in a start tag' % ch)
        elif st == 'aname':
            if ch == '=':
                s.state, s.an, s.acc = 'eq', norm(s.acc), ()
            elif ch in ' <>&"\'/\n\t':
                s.bad('%r in an attribute name' % ch)
            else:
                s.acc += (ch,)
        elif st == 'eq':
            if ch not in '"\'':
                s.bad('attribute value without quotes')
            s.quote, s.state = ch, 'aval'
        elif st == 'aval':
            if ch == s.quote:
                s.attribute(s.an, norm(s.acc))
                s.state, s.acc = 'tag', ()
            elif ch == '<':
                s.bad('< in an attribute value')
            elif ch == '&':
                s.ent = '&'
            else:
                s.acc += (ch,)
        elif st == 'slash':
            if ch != '>':
                s.bad('%r after /' % ch)
            s.closed(ip)
        elif st == 'cname':
            if ch == '>':
                s.close(ip, norm(s.acc))
            elif ch in '<&"\'=/':
                s.bad('%r in an end tag' % ch)
            else:
                s.acc += (ch,)
        elif st in ('bang', 'bang1'):
            if ch != '-':
                raise Unsupported('markup starting with <!')
            s.state, s.acc = 'bang1' if st == 'bang' else 'comment', ()
        elif st == 'comment':
            if s.acc and isinstance(s.acc[-1], str) and s.acc[-1].endswith('--'):
                if ch != '>':
                    s.bad('two hyphens in a comment')
                s.events.append(('comment', norm(s.acc[:-1] + (s.acc[-1][:-2],))))
                s.state, s.acc = 'content', ()
            elif ch == '-' and s.acc and not isinstance(s.acc[-1], str):
                s.bad('a hyphen after the comment text')
            else:
                s.acc = norm(s.acc + (ch,))
        elif st == 'decl':
            if ch == '>' and s.acc and isinstance(s.acc[-1], str) and s.acc[-1].endswith('?'):
                s.events.append(('decl', norm(s.acc[:-1] + (s.acc[-1][:-1],))))
                s.state = 'content'
            else:
                s.acc = norm(s.acc + (ch,))
        else:
            s.bad('%r in state %s' % (ch, st))

    def no_each(s, why):
        if s.each is not None:
            s.bad('%s in the loop over the attributes' % why)

    def attribute(s, k, v):
        if s.cur is None:
            s.bad('an attribute added to a start tag written by an earlier call')
        if s.each is not None:
            s.each[1].append((k, v))
        else:
            s.cur[2].append(((), k, v))

    def each_begin(s, srcs):
        if s.each is not None:
            raise Unsupported('nested loops over the attributes')
        if s.state == 'oname':
            s.open_done()
        if s.state == 'space':
            raise Unsupported('space before the loop over the attributes')
        s.each = (srcs, [], s.state)

    def each_end(s):
        srcs, got, st = s.each
        s.each = None
        if s.state != st:
            raise Unsupported('the loop over the attributes ends in another state')
        if got:
            s.cur[2].append((srcs, got))

    def closed(s, ip):
        t = s.stack.pop(s.w, ip)
        if t is None:
            s.bad('an end tag without an element')
        s.events.append(('close', parts_of(t)))
        s.state, s.cur = 'content', None

    def close(s, ip, name):
        if s.each is not None:
            s.bad('an end tag in the loop over the attributes')
        t = s.stack.top(s.w, ip)
        if t is None:
            s.bad('an end tag without an element')
        if parts_of(t) != name:
            r = decide_eq(parts_of(t), name)
            if r is not True:
                s.bad('the end tag is %s, the open element %s' % (show(name), show(parts_of(t))))
        s.closed(ip)


# --------------------------------------------------------------- the objects
class SSelf(Sym):
    never_none = True

    def __init__(s, cls): s.cls, s.f = cls, {}

    def s_truth(s, ip): return True

    def s_getattr(s, ip, name):
        if name in s.f:
            return s.f[name]
        for c in s.cls.__mro__:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, types.FunctionType):
                    return Bound(a, s)
                if isinstance(a, property):
                    return ip.call(a.fget, [s], {})
                if isinstance(a, staticmethod):
                    return a.__func__
                if hasattr(a, '__get__'):
                    s.un('attribute %s' % name)
                if isinstance(a, (list, dict, set)):
                    s.un('shared class attribute %s' % name)
                return a
        raise PyRaise(AttributeError(name))

    def s_setattr(s, ip, name, v):
        if isinstance(s.cls.__dict__.get(name), property):
            s.un('property')
        s.f[name] = v

    def s_type(s, ip): return s.cls
    def s_isinstance(s, ip, k): return issubclass(s.cls, k)


class SFile(Sym):
    """kind: 'stream' (given, has write), 'opened' (opened by the writer), 'path'"""
    never_none = True

    def __init__(s, kind): s.kind = kind

    def s_truth(s, ip): return True
    def s_type(s, ip): s.un('type()')

    def s_isinstance(s, ip, k):
        ks = k if isinstance(k, tuple) else (k,)
        if s.kind == 'path' and set(ks) <= {str, bytes}:
            return str in ks
        if s.kind == 'stream' and set(ks) <= {str, bytes}:
            return False
        s.un('isinstance()')

    def s_getattr(s, ip, name):
        if s.kind == 'path':
            if hasattr(str, name):
                s.un('attribute %s' % name)
            raise PyRaise(AttributeError(name))
        if name == 'write':
            return Write(s)
        if name == 'flush':
            if s.kind == 'stream' and not ip.w.ask(ip, ('has flush',)):
                raise PyRaise(AttributeError(name))
            return Flush()
        s.un('attribute %s of the file' % name)


class Write(Sym):
    never_none = True

    def __init__(s, f): s.file = f

    def s_truth(s, ip): return True

    def s_call(s, ip, args, kw):
        if len(args) != 1 or kw:
            raise PyRaise(TypeError('write'))
        if not isinstance(args[0], (str, SStr)):
            if isinstance(args[0], Sym):
                raise Unsupported('write of %s' % type(args[0]).__name__)
            raise PyRaise(TypeError('write of %r' % type(args[0]).__name__))
        ip.w.parser.feed(ip, parts_of(args[0]))


class Flush(Sym):
    never_none = True

    def s_truth(s, ip): return True

    def s_call(s, ip, args, kw):
        ip.w.flushed += 1


def codec(parts):
    """Name of the codec a literal stands for, None for none; '?' for what is not a literal."""
    if any(not isinstance(p, str) for p in parts):
        return '?'
    try:
        return codecs.lookup(''.join(parts)).name
    except (LookupError, ValueError):
        return None


class XmlWorld(World):
    def __init__(w, cls):
        w.cls = cls
        w.self = SSelf(cls)
        w.memo, w.asked = {}, []
        w.enc = SStr((Atom(Owner('encoding'), 'name', excl=NAMEX, sem='name'),))
        w.attr = (SStr((name_atom('attribute', 'name'),)), SStr((Atom(Owner('attribute'), 'value', nonempty=False),)))
        w.stack = Stack(None, [])                       # elements started and not ended
        w.parser = Parser(w, 'content', Stack(None, []))
        w.pending = None                                # parts, None: nothing given
        w.fresh, w.flushed, w.cfg, w.differ = True, 0, None, None
        w.own_lists = []
        w.close_loop = None

    def choice(w, ip): return bool(ip.ex.choose(2))

    def ask(w, ip, key):
        if key not in w.memo:
            w.memo[key] = bool(ip.ex.choose(2))
            w.asked.append((key, w.memo[key]))
        return w.memo[key]

    def member(w, ip):
        # an arbitrary name may be that of an element further out
        return w.choice(ip)

    def num(w, ip): return Num()

    def opaque_str(w, ip):
        return SStr((Fn('unknown', str(len(w.memo))),))

    def str_eq(w, ip, a, b):
        r = decide_eq(a, b)
        if r is None and w.differ in ((a, b), (b, a)):
            r = False
        if r is None and w.enc.parts in (a, b) and not codec(b if a == w.enc.parts else a):
            r = False                                   # the encoding is one Python has
        if r is None:
            r = w.ask(ip, ('eq',) + tuple(sorted((a, b), key=repr)))
        return r

    def strip(w, ip, s, name, cs): return mk([Fn(name, s.parts) if cs is None else Fn(name, s.parts, cs)])

    def empties(w):
        """Atoms known to be empty on this path."""
        out = set()
        for k, v in w.memo.items():
            if v and k[0] == 'eq':
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if a == () and all(isinstance(x, Atom) for x in b):
                        out |= set(b)
        return out

    def clean(w, parts):
        e = w.empties()
        return norm([p for p in parts if not (isinstance(p, Atom) and p in e)])

    # -- fields
    def describe(w, ip, v):
        if isinstance(v, Write):
            return ('write', v.file.kind)
        if isinstance(v, Flush):
            return ('flush',)
        if isinstance(v, SFile):
            return ('file', v.kind)
        if isinstance(v, SStr) and v.parts == w.enc.parts:
            return ('encoding',)
        if v is None or isinstance(v, (bool, int, str)):
            return ('const', v, type(v).__name__)
        if isinstance(v, SStack):
            if v.st.settle(w, ip):
                return ('empty',)
            if v.st.same(w.stack):
                return ('stack',)
        if isinstance(v, SStr) and not w.clean(v.parts):
            return ('const', '', 'str')
        if isinstance(v, SStr) and w.pending and w.clean(v.parts) == w.clean(w.pending):
            return ('textstr',)
        if isinstance(v, STexts) and w.pending is not None and w.clean(v.parts) == w.clean(w.pending):
            return ('texts',)
        if isinstance(v, list):
            if not v:
                return ('empty',)
            if all(isinstance(x, (str, SStr)) for x in v):
                if w.stack.base is None and len(v) == len(w.stack.suffix) and all(parts_of(a) == parts_of(b) for a, b in zip(v, w.stack.suffix)):
                    return ('stack',)
                if w.pending is not None and w.clean(sum((parts_of(x) for x in v), ())) == w.clean(w.pending):
                    return ('texts',)
        if isinstance(v, (Bound,)) and v.self_ is w.self:
            return ('method', v.fn.__name__)
        raise Unsupported('a field of the writer holds %r' % (v,))

    def undescribe(w, d):
        k = d[0]
        if k == 'write':
            return Write(SFile(d[1]))
        if k == 'flush':
            return Flush()
        if k == 'file':
            return SFile(d[1])
        if k == 'encoding':
            return w.enc
        if k == 'const':
            return d[1]
        if k == 'empty':
            x = []
            w.own_lists.append(x)
            return x
        if k == 'stack':
            return SStack(w.stack.copy())
        if k == 'texts':
            return STexts(w.pending)
        if k == 'textstr':
            return SStr(w.pending)
        if k == 'method':
            return Bound(getattr(w.cls, d[1]), w.self)

    def snapshot(w, ip):
        """Fields, for comparison within one run."""
        out = []
        for n, v in sorted(w.self.f.items()):
            out.append((n, ('list', len(v)) if isinstance(v, list) else ('stack', repr(v.st.lin())) if isinstance(v, SStack) else ('texts', v.parts) if isinstance(v, STexts) else id(v) if isinstance(v, Sym) else repr(v)))
        return out

    def state(w, ip):
        """The abstract state between calls."""
        w.parser.open_done()
        if w.parser.ent is not None or w.parser.state not in ('content', 'tag'):
            raise Violation('the output is well-formed', 'a call ends in the middle of a tag')
        empty = w.stack.settle(w, ip)
        if not empty:
            w.fresh = False
        w.parser.stack.settle(w, ip)
        if not w.parser.stack.same(w.stack):
            raise Violation('the open elements are those started and not ended', 'the stacks differ')
        fs = tuple((n, w.describe(ip, v)) for n, v in sorted(w.self.f.items()))
        held = any(d[0] in ('texts', 'textstr') for n, d in fs)
        if w.pending and not held:
            raise Violation('the text parsed is the text given', 'text is neither written nor kept: %s' % show(w.pending))
        return (w.cfg, fs, w.parser.state, ('fresh' if w.fresh else 'done') if empty else 'open', held)

    def load(w, st):
        w.cfg, fields, ps, pos, pend = st
        w.fresh = pos == 'fresh'
        w.stack, w.pending = Stack(None, []), None
        w.self.f = {}
        if pos == 'open':
            w.stack = Stack(Base(), [SStr((name_atom('open tag', 'name'),))])
        w.parser.stack = w.stack.copy()
        w.parser.state = ps
        if pend:
            w.pending = (Atom(Owner('pending'), 'text', nonempty=False),)
        for n, d in fields:
            w.self.f[n] = w.undescribe(d)
        return w

    # -- hooks
    format = RdrWorld.format
    text_of = RdrWorld.text_of
    str_format = RdrWorld.str_format
    concat = RdrWorld.concat
    unpack = RdrWorld.unpack

    def may_mutate(w, ip, o): return any(o is x for x in w.own_lists)

    def list_display(w, ip, xs):
        w.own_lists.append(xs)
        return xs

    def dict_display(w, ip, d, e):
        if not d:
            return SAttrs((), True)
        w.own_lists.append(d)
        return d

    def native_method(w, ip, m, name, args, kw):
        if isinstance(m, str):
            if name == 'format':
                return w.str_format(ip, m, args, kw)
            if name == 'join':
                x = args[0]
                if isinstance(x, STexts):
                    if m:
                        raise Violation('the text parsed is the text given', 'texts are joined with %r' % m)
                    return mk(x.parts)
                if isinstance(x, EachSeq):
                    if not isinstance(x.x, (str, SStr)):
                        raise PyRaise(TypeError('join'))
                    if m and m.strip():
                        raise Unsupported('join of the attributes')
                    if m:
                        raise Unsupported('join of the attributes with a separator')
                    return mk([Each(x.srcs, parts_of(x.x))])
            return str_method(ip, SStr((m,) if m else ()), name, args, kw)
        if isinstance(m, dict) and name == 'update' and not m and any(m is x for x in w.own_lists):
            raise Unsupported('update of a fresh dictionary')
        return NotImplemented

    def contains_native(w, ip, a, b):
        if isinstance(b, (tuple, list, set, frozenset)):
            return any([ip.truth(ip.compare(ast.Eq(), a, x, None)) for x in sorted(b, key=repr)])
        raise Unsupported('membership of a symbolic value')

    def comp_sym(w, ip, e, it, sub):
        if isinstance(it, STexts) and isinstance(e, (ast.ListComp, ast.GeneratorExp)) and not e.generators[0].ifs:
            ip.assign(e.generators[0].target, SStr(it.parts) if it.parts else '', sub)
            return STexts(parts_of(ip.ev(e.elt, sub)))
        if isinstance(it, SAttrs):
            it = Items(it, 'keys')
        if not isinstance(it, Items) or not isinstance(e, (ast.ListComp, ast.GeneratorExp)) or e.generators[0].ifs:
            return NotImplemented
        ip.assign(e.generators[0].target, it.item(ip), sub)
        return EachSeq(it.o.srcs, ip.ev(e.elt, sub))

    def call(w, ip, f, args, kw):
        mod, name = getattr(f, '__module__', None), getattr(f, '__name__', '')
        if name == 'open' and mod in ('io', '_io', 'builtins', 'codecs'):
            return w.open_file(ip, f, args, kw)
        if f in (list, sorted, tuple, iter, dict) and args and isinstance(args[0], (SAttrs, Items)):
            if f is dict:
                if isinstance(args[0], SAttrs) and len(args) == 1 and set(kw) <= {'**'}:
                    return SAttrs(args[0].merged(kw.get('**')), True)
                raise Unsupported('dict()')
            if set(kw) - {'key', 'reverse'}:
                raise Unsupported('sorted')
            return args[0] if isinstance(args[0], Items) else Items(args[0], 'keys')
        if f is dict and not args and set(kw) == {'**'}:
            return SAttrs(kw['**'].srcs, True)
        if f is dict and args and isinstance(args[0], dict) and not args[0]:
            return SAttrs(SAttrs((), True).merged(kw.get('**')), True)
        if f is list and len(args) == 1 and isinstance(args[0], SStack):
            return SStack(args[0].st.copy())
        if f is len and len(args) == 1 and isinstance(args[0], (list, tuple, dict)):
            return len(args[0])
        if f is list and not args:
            return w.list_display(ip, [])
        if name == 'escape' and mod == 'html' and isinstance(args[0], (SStr, str)):
            q = args[1] if len(args) > 1 else kw.get('quote', True)
            return w.replaces(ip, args[0], [('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')] + ([('"', '&quot;'), ("'", '&#x27;')] if q else []))
        if name == 'escape' and mod == 'xml.sax.saxutils' and isinstance(args[0], (SStr, str)):
            more = args[1] if len(args) > 1 else kw.get('entities', {})
            return w.replaces(ip, args[0], [('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;')] + list(more.items()))
        if f is range and len(args) == 1 and isinstance(args[0], SLen):
            return Count(args[0].lin)
        if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str and args and isinstance(args[0], SStr):
            return str_method(ip, args[0], f.__name__, args[1:], kw)
        if f is str and len(args) == 1 and isinstance(args[0], SStr):
            return args[0]
        return NotImplemented

    def replaces(w, ip, s, l):
        for a, b in l:
            s = str_method(ip, s if isinstance(s, SStr) else SStr(parts_of(s)), 'replace', [a, b], {})
        return s

    def open_file(w, ip, f, args, kw):
        a = dict(zip(('file', 'mode', 'buffering', 'encoding', 'errors', 'newline'), args))
        a.update(kw)
        if not isinstance(a.get('file'), SFile) or a['file'].kind != 'path':
            raise Unsupported('open of something else')
        m = a.get('mode', 'r')
        if 'w' not in m and 'x' not in m and 'a' not in m:
            raise Violation('the output reaches the file', 'it is opened with mode %r' % m)
        if m not in ('w', 'wt', 'w+', 'wt+'):
            raise Unsupported('mode %r' % m)
        e = a.get('encoding')
        if not (isinstance(e, (str, SStr)) and parts_of(e) == parts_of(w.self_enc)):
            raise Unsupported('the file is opened with encoding %r, the writer has %r' % (e, w.self_enc))
        if a.get('errors') != 'xmlcharrefreplace':
            raise Violation('characters the encoding lacks are written as references', 'the file is opened with errors=%r' % (a.get('errors'),))
        return SFile('opened')

    def while_(w, ip, s, fr):
        """A loop that ends elements: every iteration starts from any state of
        the invariant with the element identified still open, and ends one."""
        if w.close_loop is None:
            return NotImplemented
        return w.close_loop(ip, lambda: ip.truth(ip.ev(s.test, fr)), s, fr)


class Count(Sym):
    """range(n) for a symbolic number."""
    never_none = True

    def __init__(s, lin): s.lin = lin

    def s_loop(s, ip, node, fr, body):
        if ip.w.close_loop is None or ip.w.close_loop(ip, None, node, fr, s.lin) is NotImplemented:
            raise Unsupported('loop over a symbolic range')
        return True


class XmlInterp(Interp):
    def ev(self, e, fr):
        if isinstance(e, ast.Dict) and e.keys and all(k is None for k in e.keys):
            x = SAttrs((), True)
            for v in e.values:
                v = super().ev(v, fr)
                if isinstance(v, dict) and not v:
                    continue
                if not isinstance(v, SAttrs):
                    raise Unsupported('** of a map')
                x.srcs = x.merged(v)
            return x
        return super().ev(e, fr)

    def bind(self, fn, node, args, kw, defaults, kwdefaults):
        kw = dict(kw)
        d = kw.pop('**', None)
        given = set(kw) | {x.arg for x in node.args.args[:len(args)]}
        out = super().bind(fn, node, args, kw, defaults, kwdefaults)
        for n, v in out.items():
            if isinstance(v, dict) and not v and n not in given and (node.args.kwarg is None or n != node.args.kwarg.arg):
                out[n] = SAttrs((), False)                # an empty default
        if node.args.kwarg is not None:
            k = node.args.kwarg.arg
            if out[k]:
                raise Unsupported('keywords of an element')
            out[k] = d if d is not None else SAttrs((), True)
        elif d is not None and d.srcs:
            raise Unsupported('** of attributes')
        return out
