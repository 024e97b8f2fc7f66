"""Live variables of a function at its loop heads and statements (backward
analysis over the AST).  Used to forget variables no continuation reads; a wrong
answer cannot make a proof succeed, since reading a forgotten variable is refused."""
import ast

_cache = {}


def names(e):
    """Names read by an expression (or statement part), nested scopes included."""
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} if e is not None else set()


def stores(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} if e is not None else set()


class Live:
    def __init__(self, fn):
        self.head, self.out = {}, {}
        self.always = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self.always |= names(n)
        body = fn.body if isinstance(fn.body, list) else [ast.Return(value=fn.body)]
        for _ in range(6):
            before = repr(sorted((k, sorted(v)) for k, v in self.head.items()))
            self.block(body, set(), None, None, set())
            if repr(sorted((k, sorted(v)) for k, v in self.head.items())) == before:
                break

    def note(self, table, key, s):
        table[key] = table.get(key, set()) | s

    def block(self, stmts, after, brk, cont, exc):
        live = set(after)
        for s in reversed(stmts):
            self.note(self.out, id(s), live | exc)
            live = self.stmt(s, live, brk, cont, exc) | exc
        return live

    def stmt(self, s, after, brk, cont, exc):
        t = type(s)
        if t is ast.Assign:
            tg = set()
            use = names(s.value)
            for g in s.targets:
                if isinstance(g, (ast.Name, ast.Tuple, ast.List)):
                    tg |= stores(g)
                use |= names(g)
            return (after - tg) | use
        if t is ast.AnnAssign:
            return (after - (stores(s.target) if s.value is not None else set())) | names(s.value) | names(s.target)
        if t is ast.AugAssign:
            return after | names(s.value) | names(s.target) | stores(s.target)
        if t is ast.If:
            return names(s.test) | self.block(s.body, after, brk, cont, exc) | self.block(s.orelse, after, brk, cont, exc)
        if t is ast.For:
            leave = self.block(s.orelse, after, brk, cont, exc)
            head = self.head.get(id(s), set()) | leave
            for _ in range(4):
                b = self.block(s.body, head, after, head, exc)
                tg = stores(s.target) if isinstance(s.target, (ast.Name, ast.Tuple)) else set()
                new = head | (b - tg) | names(s.target)
                if new == head:
                    break
                head = new
            self.note(self.head, id(s), head | exc)
            return head | names(s.iter)
        if t is ast.While:
            leave = self.block(s.orelse, after, brk, cont, exc)
            head = self.head.get(id(s), set()) | leave | names(s.test)
            for _ in range(4):
                b = self.block(s.body, head, after, head, exc)
                new = head | b
                if new == head:
                    break
                head = new
            self.note(self.head, id(s), head | exc)
            return head
        if t is ast.Break:
            return set(brk or ())
        if t is ast.Continue:
            return set(cont or ())
        if t in (ast.Return, ast.Raise):
            return set().union(*[names(x) for x in ast.iter_child_nodes(s)]) | exc
        if t is ast.Try:
            fin = self.block(s.finalbody, after, brk, cont, exc)
            hs = set(exc) | (fin if s.finalbody else set())
            for h in s.handlers:
                hs |= names(h.type) | self.block(h.body, fin, (brk or set()) | (fin if s.finalbody else set()) if brk is not None else None,
                                                 (cont or set()) | (fin if s.finalbody else set()) if cont is not None else None, exc)
            orl = self.block(s.orelse, fin, brk, cont, exc)
            return self.block(s.body, orl, brk, cont, hs)
        if t is ast.With:
            use = set()
            for i in s.items:
                use |= names(i.context_expr)
            return use | self.block(s.body, after, brk, cont, exc)
        if t in (ast.FunctionDef, ast.ClassDef):
            return after | names(s)
        if t in (ast.Import, ast.ImportFrom):
            return after - {a.asname or a.name.split('.')[0] for a in s.names}
        use = names(s)
        return after | use

    def at_head(self, node):
        s = self.head.get(id(node))
        return None if s is None else s | self.always

    def during(self, stmt):
        s = self.out.get(id(stmt))
        return None if s is None else s | names(stmt) | self.always


def of(fn_node):
    if id(fn_node) not in _cache:
        _cache[id(fn_node)] = (Live(fn_node), fn_node)
    return _cache[id(fn_node)][0]
