"""Strongly live variables: a variable matters at a point when its value can reach a result, a
condition, a call made for its effect or a store into an object.  Assignments to variables that
do not matter use nothing."""
import ast


def names(e):
    return set(n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)) if e is not None else set()


def bound(t):
    """plain variables bound by a target"""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set(x for e in t.elts for x in bound(e))
    if isinstance(t, ast.Starred):
        return bound(t.value)
    return set()


def stores(t):
    """does the target store into something other than plain variables"""
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(stores(e) for e in t.elts)
    return not isinstance(t, (ast.Name, ast.Starred))


class Live(object):
    def __init__(self):
        self.brk, self.cont, self.exc = [], [], []

    def block(self, body, out):
        for s in reversed(body):
            out = self.stmt(s, out)
        return out

    def assign(self, targets, value, out, keep=False):
        b = set(x for t in targets for x in bound(t))
        used = any(stores(t) for t in targets) or b & out or keep
        out = out - b
        if used:
            out = out | names(value)
            for t in targets:
                out |= names(t)
        return out

    def stmt(self, s, out):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            inside = set(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load))
            return (out - {s.name}) | inside
        if isinstance(s, ast.Return):
            return names(s.value)
        if isinstance(s, ast.Raise):
            return names(s.exc) | names(s.cause) | (self.exc[-1] if self.exc else set())
        if isinstance(s, ast.Assign):
            return self.assign(s.targets, s.value, out)
        if isinstance(s, ast.AnnAssign):
            return self.assign([s.target], s.value, out) if s.value is not None else out
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                # in place on an array it is a store as well
                return out | names(s.value) | {s.target.id} if s.target.id in out else out
            return out | names(s.value) | names(s.target)
        if isinstance(s, ast.Expr):
            return out | names(s.value) if not isinstance(s.value, (ast.Constant, ast.Name, ast.Attribute)) else out
        if isinstance(s, ast.If):
            return names(s.test) | self.block(s.body, out) | self.block(s.orelse, out)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(s.orelse, out)
            head = set(after)
            while True:
                self.brk.append(out)
                self.cont.append(head)
                body = self.block(s.body, head)
                self.brk.pop()
                self.cont.pop()
                if isinstance(s, ast.While):
                    new = head | body | names(s.test)
                else:
                    new = head | (body - bound(s.target)) | names(s.iter)
                if new == head:
                    return head
                head = new
        if isinstance(s, ast.Break):
            return self.brk[-1] if self.brk else out
        if isinstance(s, ast.Continue):
            return self.cont[-1] if self.cont else out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            out = self.block(s.body, out)
            for i in s.items:
                out = out | names(i.context_expr)
            return out
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            fin = self.block(s.finalbody, out)
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin) | names(h.type)
            self.exc.append(hs)
            o = self.block(s.orelse, fin)
            # an exception may leave the body after any statement
            for x in reversed(s.body):
                o = self.stmt(x, o) | hs
            self.exc.pop()
            return o
        if isinstance(s, ast.Assert):
            return out | names(s.test) | names(s.msg)
        if isinstance(s, ast.Delete):
            return out
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return out
        return out | set(n.id for n in ast.walk(s) if isinstance(n, ast.Name))


def entry(fn):
    """variables whose value on entry matters"""
    return Live().block(fn.body, set())


def parameters(fn):
    a = fn.args
    out = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out
