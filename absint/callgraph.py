"""whole-program structure: definitions, resolved names, over-approximated call graph"""
import ast
import builtins
import os
from .world import source_files, parse, SRC


class Func:
    def __init__(self, mod, qual, node, cls=None):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
        self.refs = []          # (dotted canonical name, node, is_call)
        self.calls = []         # ast.Call nodes
        self.imports = {}

    @property
    def name(self):
        return self.qual.rpartition('.')[2]

    def __repr__(self):
        return "%s:%s" % (self.mod.rel, self.qual)


class Mod:
    def __init__(self, path):
        self.path = path
        self.rel = os.path.relpath(path, os.path.join(SRC, 'dispersion'))
        self.name = 'dispersion.' + self.rel[:-3].replace(os.sep, '.')
        if self.name.endswith('.__init__'):
            self.name = self.name[:-9]
        self.imports = {}
        self.defs = set()


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return '.'.join([n.id] + parts[::-1])
    return None


class Program:
    def __init__(self):
        self.funcs = []
        self.mods = []
        self.by_name = {}
        for p in source_files():
            m = Mod(p)
            self.mods.append(m)
            tree = parse(p)
            for n in ast.walk(tree):
                self.imp(n, m.imports)
            top = Func(m, '<module>', tree)
            self.funcs.append(top)
            self.visit(tree.body, m, '', top, None)
        for f in self.funcs:
            self.by_name.setdefault(f.name, []).append(f)
            if f.name == '__init__' and f.cls:
                self.by_name.setdefault(f.cls, []).append(f)
        for f in self.funcs:
            self.resolve(f)

    def imp(self, n, table):
        if isinstance(n, ast.Import):
            for a in n.names:
                table[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module:
            for a in n.names:
                table[a.asname or a.name] = n.module + '.' + a.name

    def visit(self, body, m, prefix, owner, cls):
        for n in body:
            for d in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [n]:
                if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, prefix + d.name, d, cls)
                    m.defs.add(d.name)
                    self.funcs.append(f)
                    self.visit(d.body, m, prefix + d.name + '.', f, None)
                elif isinstance(d, ast.ClassDef):
                    m.defs.add(d.name)
                    self.visit(d.body, m, prefix + d.name + '.', owner, d.name)

    def own(self, f):
        """nodes of f without nested definitions (decorators and defaults included)"""
        stack = list(f.node.body)
        if not isinstance(f.node, ast.Module):
            a = f.node.args
            stack += [d for d in a.defaults + a.kw_defaults if d is not None] + f.node.decorator_list
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, ast.ClassDef):
                stack += [x for x in n.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))] + n.bases + n.decorator_list
                continue
            stack += list(ast.iter_child_nodes(n))

    def canon(self, f, n):
        """canonical dotted name of an expression, or None"""
        d = dotted(n)
        if d is not None:
            head, _, rest = d.partition('.')
            if head in f.mod.imports:
                head = f.mod.imports[head]
            elif hasattr(builtins, head) and head not in f.mod.defs and head not in self.locals(f):
                head = 'builtins.' + head if not head.startswith('__') or head == '__import__' else head
            return head + ('.' + rest if rest else '')
        if isinstance(n, ast.Call) and dotted(n.func) == 'getattr' and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            b = self.canon(f, n.args[0])
            return b and '%s.%s' % (b, n.args[1].value)
        if isinstance(n, ast.Call) and self.canon(f, n.func) in ('builtins.__import__', 'importlib.import_module') and n.args \
                and isinstance(n.args[0], ast.Constant):
            return str(n.args[0].value)
        if isinstance(n, ast.Attribute):
            b = self.canon(f, n.value)
            return b and b + '.' + n.attr
        return None

    def locals(self, f):
        if not hasattr(f, '_locals'):
            f._locals = set()
            if not isinstance(f.node, ast.Module):
                a = f.node.args
                f._locals |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | \
                    {x.arg for x in (a.vararg, a.kwarg) if x}
            for n in self.own(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    f._locals.add(n.id)
        return f._locals

    def resolve(self, f):
        calls = {id(n.func) for n in self.own(f) if isinstance(n, ast.Call)}
        inner = set()
        f.callees = set()
        for n in self.own(f):
            if isinstance(n, ast.Call):
                f.calls.append(n)
            if isinstance(n, (ast.Name, ast.Attribute)) or (isinstance(n, ast.Call) and dotted(n.func) == 'getattr'):
                if isinstance(getattr(n, 'ctx', None), (ast.Store, ast.Del)):
                    continue
                c = self.canon(f, n)
                if c:
                    f.refs.append((c, n, id(n) in calls))
                t = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                for g in self.by_name.get(t, ()) if t else ():
                    f.callees.add(g)

    def reach(self, roots):
        """func -> chain of functions from a root"""
        chain = {r: [r] for r in roots}
        todo = list(roots)
        while todo:
            f = todo.pop()
            for g in f.callees:
                if g not in chain:
                    chain[g] = chain[f] + [g]
                    todo.append(g)
        return chain
