"""C11: every public method of XMLWriter keeps the invariant of xmlworld, from
every abstract state reachable from the constructor."""
import time, traceback, types, inspect
from . import src
from .interp import soft_path, Explorer, Unsupported, PyRaise, PathEnd, Bound, _Break, _Continue, Sym
from .sstr import *
from .xmlworld import *

WELL, PARSE, NEST, ATTR, TEXT, REFUSE, FAIL, DICT, FILE, CLOSE, FLUSH = (
    'the output is well-formed', 'the parse of the output is what was asked for', 'the open elements are those started and not ended',
    'an element has the attributes of the dictionary and the keywords', 'the text parsed is the text given', 'an end call naming another tag is refused',
    'never fails', 'the attribute dictionary is not changed', 'the output reaches the file', 'close ends the elements up to the one identified',
    'flush passes the output on')
ASCII = ('ascii', 'utf-8')                              # codecs whose output reads as UTF-8
COMMENT = 'a comment holds the text given'
ENTS = 'characters the encoding lacks are written as references'

CALLS = []
for a in (0, 1):
    for x in (0, 1):
        CALLS.append(('start', a, x))
        for t in ('none', 'given'):
            CALLS.append(('element', a, x, t))
CALLS += [('element', 0, 0, 'omitted'), ('declaration',), ('data',), ('end', 'none'), ('end', 'same'), ('end', 'other'), ('close',), ('flush',), ('comment',)]
CONFIGS = [('stream', 'given'), ('stream', 'default'), ('path', 'given'), ('path', 'default')]
STATE = {'fresh': {'start', 'declaration', 'element', 'flush', 'comment'}, 'open': {'start', 'element', 'data', 'end', 'close', 'flush', 'comment'}, 'done': {'flush', 'comment'}}


class Restart(Exception):
    pass


def clean(parts, empty):
    return norm([p for p in parts if p not in empty])


def events(l, empty, depth0):
    """Texts merged, empty ones dropped; white space outside the root dropped."""
    out, depth = [], depth0
    for e in l:
        if e[0] == 'text':
            t = clean(e[1], empty)
            if out and out[-1][0] == 'comment' and t and isinstance(t[0], str):
                t = norm((t[0].lstrip(),) + t[1:])      # white space after a comment
            if depth == 0 and depth is not None and all(isinstance(p, str) and not p.strip() for p in t):
                continue
            if out and out[-1][0] == 'text':
                out[-1] = ('text', norm(out[-1][1] + t))
            else:
                out.append(('text', t))
        else:
            out.append(e)
        if depth is not None and e[0] in ('open', 'close'):
            depth += 1 if e[0] == 'open' else -1
    return [e for e in out if e[0] != 'text' or e[1]]


def show_event(e):
    return '%s %s' % (e[0], show(e[1]))


class Run:
    """One call from one state, on one path."""

    def __init__(s, ex, P, st, call):
        s.P, s.call = P, call
        s.w = w = XmlWorld(P.K)
        s.ip = XmlInterp(ex, w)
        w.kind, w.self_enc = st[0][0], P.encoding(w, st[0][1])
        w.cfg = st[0]
        s.exp, s.entry = [], st
        if len(st) > 1:
            w.load(st)
            s.exp = [('text', w.pending)] if w.pending else []
        w.close_loop = s.close_loop

    def args(s, a, x):
        kw = {}
        srcs = []
        if a:
            kw['attrib'] = SAttrs(('attrib',), False)
            srcs.append('attrib')
        if x:
            kw['**'] = SAttrs(('extra',), True)
            srcs.append('extra')
        s.srcs = srcs
        return kw

    def method(s, name, args, kw={}):
        return s.ip.call(s.w.self.s_getattr(s.ip, name), list(args), dict(kw))

    def construct(s):
        w = s.w
        s.exp = []
        f = SFile(w.kind)
        K = s.P.K
        a = [f] + ([] if w.cfg[1] == 'default' else [w.self_enc])
        s.ip.call(Bound(K.__init__, w.self), a, {})
        s.finish()

    def go(s):
        w, c = s.w, s.call
        n = c[0]
        tag = SStr((name_atom('new tag', 'name'),))
        text = SStr((Atom(Owner('given'), 'text', nonempty=False),))
        pos = s.entry[3]
        s.depth0 = 0 if pos != 'open' else None
        s.srcs = []
        if n == 'start':
            d = w.stack.lin()
            kw = s.args(c[1], c[2])
            w.stack.suffix.append(tag)
            s.exp.append(('open', tag.parts))
            r = s.method('start', [tag], kw)
            s.finish()
            if isinstance(r, SLen):
                r = r.lin
            elif isinstance(r, int) and not isinstance(r, bool):
                r = Lin(r)
            else:
                raise Unsupported('start returns %r' % (r,))
            k = r + d.neg()
            if k.t:
                raise Unsupported('start returns %r' % (r,))
            s.P.learn_id(k.c)
            return
        if n == 'element':
            kw = s.args(c[1], c[2])
            if c[3] != 'omitted':
                kw = dict(kw, text=text if c[3] == 'given' else None)
            s.exp.append(('open', tag.parts))
            if c[3] == 'given':
                s.exp.append(('text', text.parts))
            s.exp.append(('close', tag.parts))
            s.method('element', [tag], kw)
        elif n == 'declaration':
            s.method('declaration', [])
            s.exp.append(('decl',))
        elif n == 'data':
            s.exp.append(('text', text.parts))
            s.method('data', [text])
        elif n == 'comment':
            c = Atom(Owner('given'), 'comment', nonempty=False, sem='comment')
            s.exp.append(('comment', (c,)))
            s.method('comment', [SStr((c,))])
        elif n == 'end':
            top = w.stack.top(w, s.ip)
            if c[1] == 'other':
                w.differ = (tag.parts, top.parts)
                try:
                    s.method('end', [tag])
                except PyRaise:
                    pass
                else:
                    raise Violation(REFUSE, 'end(%r) returns although %r is open' % (tag, top))
            else:
                w.stack.pop(w, s.ip)
                s.exp.append(('close', top.parts))
                s.method('end', [top] if c[1] == 'same' else [])
        elif n == 'close':
            if s.P.idc is None:
                raise Unsupported('the identifier is not known')
            s.target = Atom(Owner('the element identified'), 'depth', nonempty=False)
            s.above = Atom(Owner('elements inside the one identified'), 'number', nonempty=False)
            s.more()
            s.looped = False
            s.method('close', [s.idv])
            if not s.looped:
                raise Unsupported('close without a loop')
            if not s.ended:
                raise Violation(CLOSE, 'close returns while the element identified is open')
        elif n == 'flush':
            s.method('flush', [])
            if not w.flushed and (w.kind == 'path' or w.memo.get(('has flush',))):
                # a file-like object whose flush the writer keeps is known from its fields
                raise Violation(FLUSH, 'flush of the file is not called')
            if not w.flushed and any(d == ('flush',) for f, d in s.entry[1]):
                raise Violation(FLUSH, 'flush of the file is not called')
        s.finish()

    # -- the loop of close
    def more(s):
        """The element identified is open: depth+1+above elements are."""
        w = s.w
        b = Base()
        b.lens = Lin(0, [(s.target, 1), (s.above, 1)])
        s.reload(b)
        s.idv = SLen(Lin(s.P.idc, [(s.target, 1)]))
        s.ended = False

    def reload(s, b, st=None):
        w = s.w
        w.load(st or s.entry)
        if b is not None:
            w.stack.base = b
            w.parser.stack = w.stack.copy()
            w.self.f = {n: w.undescribe(d) for n, d in (st or s.entry)[1]}
        w.parser.events, w.parser.cur = [], None
        s.exp = [('text', w.pending)] if w.pending else []

    def close_loop(s, ip, test, node, fr, count=None):
        w = s.w
        if s.call[0] != 'close' or s.looped:
            return NotImplemented
        if count is not None:
            want = Lin(1, [(s.above, 1)])
            if count != want:
                raise Unsupported('close runs a loop %r times for %r elements' % (count, want))
        s.looped = True
        st = s.after()
        if s.P.loop_state(st):
            raise Restart()
        old = dict(w.self.f)
        idold = s.idv
        names = {n.id for x in node.body + node.orelse for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        S = s.P.loop_states()
        k = ip.ex.choose(2 * len(S))
        st, out = S[k // 2], k % 2
        if out:
            # the elements up to the one identified are ended
            s.reload(None, st)
            if st[3] == 'open':
                l = w.stack.lin()
            else:
                l = Lin(0)
            v = l + Lin(s.P.idc)
            s.idv = SLen(v) if v.t else v.c
            s.ended = True
        else:
            if st[3] != 'open':
                raise PathEnd()
            b = Base()
            b.lens = Lin(0, [(s.target, 1), (s.above, 1)])
            s.reload(b, st)
            s.idv = SLen(Lin(s.P.idc, [(s.target, 1)]))
        for n, v in list(fr.vars.items()):
            if n in names and v is not idold:
                fr.vars[n] = Unknown()
            elif v is idold:
                fr.vars[n] = s.idv
            elif v is w.self or isinstance(v, (int, str, type(None))):
                pass
            else:
                f = [m for m, x in old.items() if x is v]
                fr.vars[n] = w.self.f[f[0]] if f else Unknown() if isinstance(v, (Sym, list, dict)) else v
        if count is not None:
            if out:
                return
        elif not test():
            ip.block(node.orelse, fr)
            return
        if out:
            try:
                ip.block(node.body, fr)
            except _Break:
                if w.parser.events:
                    raise Unsupported('the loop of close')
                return
            except (PyRaise, _Continue):
                pass
            raise Violation(CLOSE, 'the loop goes on after the element identified is ended')
        top = w.stack.pop(w, ip)
        s.exp.append(('close', top.parts))
        broke = False
        try:
            ip.block(node.body, fr)
        except _Break:
            # the loop is left before an element is ended, or after
            broke = True
        except _Continue:
            pass
        if broke:
            raise Unsupported('break in the loop of close') if any(e[0] == 'close' for e in w.parser.events) else Violation(CLOSE, 'the loop stops while the element identified is open')
        if not any(e[0] == 'close' for e in w.parser.events):
            raise Violation(CLOSE, 'an iteration of the loop ends no element')
        st = s.after()
        if s.P.loop_state(st):
            raise Restart()
        raise PathEnd()

    # -- comparison
    def after(s):
        """Compare the parsed events with those asked for; the abstract state."""
        w, ip = s.w, s.ip
        w.parser.open_done()
        empty = w.empties()
        d0 = getattr(s, 'depth0', None)
        exp, got = events([e if e[0] != 'open' else e for e in s.exp], empty, d0), events(w.parser.events, empty, d0)
        rest = ()
        for i, e in enumerate(exp):
            if i >= len(got):
                if len(exp) - i == 1 and e[0] == 'text':
                    rest = e[1]
                    break
                raise Violation(TEXT if e[0] == 'text' else PARSE, 'expected %s, the output has %s' % (', '.join(map(show_event2, exp)), ', '.join(map(show_event2, got)) or 'nothing'))
            g = got[i]
            if e[0] == 'decl' == g[0]:
                s.declared(g[1])
                continue
            if e[0] == 'comment' == g[0]:
                t = clean(g[1], empty)
                t = norm([x.strip() if isinstance(x, str) else x for x in t])
                if t != clean(e[1], empty):
                    raise Violation(COMMENT, 'the comment holds %s, given is %s' % (show(t) if t else 'nothing', show(e[1])))
                continue
            if e[0] == 'text' == g[0] and i == len(got) - 1 and i == len(exp) - 1 and e[1][:len(g[1])] == g[1]:
                rest = e[1][len(g[1]):]
                continue
            if e[0] != g[0] or e[1] != g[1]:
                raise Violation(TEXT if 'text' in (e[0], g[0]) else PARSE, 'expected %s, the output has %s' % (', '.join(map(show_event2, exp)), ', '.join(map(show_event2, got)) or 'nothing'))
            if g[0] == 'open':
                s.attributes(g)
        if len(got) > len(exp):
            raise Violation(TEXT if got[len(exp)][0] == 'text' else PARSE, 'the output has %s' % show_event2(got[len(exp)]))
        w.pending = tuple(rest)
        return w.state(ip)

    def attributes(s, g):
        w = s.w
        want = [x for x in s.srcs if w.memo.get(('given', x)) is not False]
        k, v = w.attr
        loops = [x for x in g[2] if x[0]]
        if any(not x[0] for x in g[2]):
            raise Violation(ATTR, 'an attribute that was not given: %r' % (g[2],))
        loops = [([y for y in x[0] if w.memo.get(('given', y)) is not False], x[1]) for x in loops]
        loops = [x for x in loops if x[0]]
        if not want:
            if loops:
                raise Violation(ATTR, 'attributes that were not given')
            return
        if len(loops) != 1:
            raise Violation(ATTR, 'the attributes of the %s are not written' % ' and '.join(want) if not loops else 'a name in both the dictionary and the keywords is written twice')
        if loops[0][0] != want:
            raise Violation(ATTR, 'the attributes are those of %s (later ones first), expected %s' % (loops[0][0], want))
        e = w.empties()
        if len(loops[0][1]) != 1 or loops[0][1][0][0] != k.parts or clean(loops[0][1][0][1], e) != clean(v.parts, e):
            raise Violation(ATTR, 'an attribute is written as %s' % ['%s=%s' % (show(a), show(b)) for a, b in loops[0][1]])

    def declared(s, p):
        w = s.w
        rest = p
        ok = rest and isinstance(rest[0], str)
        q = None
        for a in ("'", '"'):
            h = 'xml version=%s1.0%s' % (a, a)
            if ok and rest[0].startswith(h):
                rest, q = norm((rest[0][len(h):],) + rest[1:]), a
                break
        else:
            raise Violation(WELL, 'the declaration is %s' % show(p))
        rest = norm([x if not isinstance(x, str) or i < len(rest) - 1 else x.rstrip() for i, x in enumerate(rest)])
        enc = parts_of(w.self_enc)
        for a in ("'", '"'):
            if rest == norm((' encoding=' + a,) + enc + (a,)):
                return
        known = codec(enc) in ASCII or any(v and k[0] == 'eq' and enc in k[1:] and any(codec(x) in ASCII for x in k[1:]) for k, v in w.memo.items())
        if not rest and known:
            return
        raise Violation(WELL, 'the declaration is %s, the encoding is %s' % (show(p), show(enc)))

    def finish(s):
        s.P.reached(s.after(), s.entry, s.call)


def show_event2(e):
    return show_event(e) if len(e) > 1 else e[0]


class Prover:
    def __init__(p, K):
        p.K = K
        p.idc, p.t0 = None, time.time()
        p.states, p.todo, p.loops = [], [], []
        p.fails, p.und = {}, []
        p.done, p.paths, p.counts = set(), 0, {}

    def encoding(p, w, mode):
        if mode == 'default':
            d = inspect.signature(p.K.__init__).parameters
            e = d['encoding'].default if 'encoding' in d else None
            if not isinstance(e, str) or not e:
                raise Unsupported('default encoding')
            return e
        return w.enc

    def learn_id(p, c):
        if p.idc is None:
            p.idc = c
        elif p.idc != c:
            raise Unsupported('start returns the depth plus %d or %d' % (p.idc, c))

    def reached(p, st, entry, call):
        p.counts[call] = p.counts.get(call, 0) + 1
        if st not in p.states:
            p.states.append(st)
            p.todo.append(st)

    def loop_states(p): return p.loops

    def loop_state(p, st):
        if st in p.loops:
            return False
        p.loops.append(st)
        if len(p.loops) > 40:
            raise Unsupported('the states at the loop of close')
        return True

    def explore(p, st, call):
        p.loops = []
        for _ in range(50):
            ex = Explorer(lambda c: True, 3000)

            def thunk(ex):
                r = None
                try:
                    r = Run(ex, p, st, call)
                    r.construct() if call[0] == 'init' else r.go()
                except Violation as e:
                    p.fail(r, e.ob, e.detail, call, st)
                except PyRaise as e:
                    p.fail(r, FAIL, str(e), call, st)
            try:
                for _ in ex.run(thunk):
                    pass
            except Restart:
                p.paths += ex.paths
                continue
            except (Unsupported, RecursionError) as e:
                p.und.append('%s: %s' % (' '.join(map(str, call)), e))
            p.paths += ex.paths
            return
        p.und.append('%s: no fixed point' % call[0])

    def fail(p, r, ob, detail, call, st):
        soft = [k for k, v in r.w.asked if not (k[0] in ('given', 'has flush') or k[0] == 'eq' and (
            () in k[1:] and all(isinstance(x, Atom) for y in k[1:] for x in y) or r.w.enc.parts in k[1:] and all(len(y) == 1 for y in k[1:])))]
        d = (('%s in state %s: %s' % (' '.join(map(str, call)), st, detail))[:900], not soft and not soft_path())
        if ob not in p.fails or not p.fails[ob][1]:
            p.fails[ob] = d

    def run(p):
        K = p.K
        for n in ('__new__', '__getattr__', '__getattribute__', '__setattr__', '__slots__', '__init_subclass__'):
            if any(n in c.__dict__ for c in K.__mro__[:-1]):
                p.und.append('the class defines %s' % n)
        if type(K) is not type:
            p.und.append('the class has a metaclass')
        for c in CONFIGS:
            p.explore((c,), ('init', c))
        i = 0
        while p.todo:
            if len(p.states) > 400 or time.time() - p.t0 > 120:
                p.und.append('too many states')
                break
            st = p.todo.pop()
            for call in CALLS:
                if call[0] not in STATE[st[3]]:
                    continue
                if call[0] == 'close':
                    continue
                p.explore(st, call)
        # close: needs the identifier; may add states
        seen = set()
        while True:
            new = [st for st in p.states if st not in seen]
            if not new:
                break
            if len(seen) > 400 or time.time() - p.t0 > 200:
                p.und.append('too many states')
                break
            for st in new:
                seen.add(st)
                for call in CALLS:
                    if call[0] in STATE[st[3]] and (call[0] == 'close' or st in p.todo):
                        p.explore(st, call)
                if st in p.todo:
                    p.todo.remove(st)
        return p


def prove():
    import model, PyCIM.SimpleXMLWriter as M
    p = Prover(M.XMLWriter)
    t = time.time()
    try:
        p.run()
    except Exception:
        p.und.append(traceback.format_exc()[-900:])
    p.time = time.time() - t
    return p
