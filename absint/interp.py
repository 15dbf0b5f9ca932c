"""The abstract interpreter: a transfer function for every syntax-tree node."""
import ast
import os
from . import nf as NFM
from .nf import NF
from .values import *
from .numops import NumOps, is_num
from .text import TextOps
from .natives import Natives
from .m_numpy import NumpyOps
from .flow import (Flow, Signal, Ret, Brk, Cont, Dead, SIGNALS, cnot, cand, cor)

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**',
          ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|',
          ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '**': 'pow', '//': 'floordiv',
          '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '@': 'matmul', '<<': 'lshift', '>>': 'rshift'}


class EnvVars(dict):
    is_env = True
    __hash__ = object.__hash__


class Env:
    __slots__ = ('vars', 'names', 'parent', 'module', 'globals', 'nonlocals', 'is_class',
                 'func', 'node', 'yields', 'cls', 'cm', 'call_node')

    def __init__(self, names, parent, module, func=None):
        self.vars = EnvVars()
        self.names = names
        self.parent = parent
        self.module = module
        self.globals = ()
        self.nonlocals = ()
        self.is_class = False
        self.func = func
        self.node = None
        self.yields = None
        self.cls = None
        self.cm = None


class CmSignal(Exception):
    def __init__(self, sig):
        self.sig = sig


_scope_cache = {}


def scope_of(node):
    """(local names, global names, nonlocal names, is_generator) of a function node"""
    r = _scope_cache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    names, glob, nonl = set(), set(), set()
    gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside comprehension binds outside
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            visit(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    names -= glob
    names -= nonl
    out = (frozenset(names), frozenset(glob), frozenset(nonl), gen[0])
    _scope_cache[id(node)] = (node, out)
    return out


class GenObj(ModelObj):
    tname = 'generator'

    def __init__(self, items):
        self.items = items
        self.pos = 0


class DictView(ModelObj):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind
        self.tname = 'dict_' + kind


class SuperObj(ModelObj):
    tname = 'super'

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class NativeM:
    """method of a builtin value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return "<method %s of %r>" % (self.name, type(self.obj).__name__)


class Interp(Flow, NumOps, TextOps, Natives, NumpyOps):
    def __init__(self, world):
        self.w = world
        world.interp = self
        self.flow_init()
        self.stack = []
        self.steps = 0
        self.builtins = {}
        self.handling = []
        from . import models
        models.install(self)
        self.dispatch_e = {}
        self.dispatch_s = {}

    # ------------------------------------------------------------ diagnostics
    def where(self):
        for env in reversed(self.stack):
            if env.node is not None and env.module is not None and not hasattr(env.module, 'prelude'):
                fn = os.path.basename(env.module.filename or env.module.name)
                return "%s:%d (%s)" % (fn, env.node.lineno,
                                       env.func.qualname if env.func else '<module>')
        return "<entry>"

    def callstack(self):
        out = []
        for env in self.stack:
            if env.node is not None and env.module is not None:
                fn = os.path.basename(env.module.filename or env.module.name)
                out.append("%s:%d (%s)" % (fn, env.node.lineno,
                                           env.func.qualname if env.func else '<module>'))
        return out

    def event(self, kind, data):
        self.w.events.append((kind, data, self.where(), tuple(self.guards)))

    def throw(self, pycls, *args):
        raise AbsRaise(ExcVal(ExcType(pycls), list(args), self.where(), self.callstack()))

    def save_stack(self):
        return len(self.stack), len(self.handling)

    def restore_stack(self, n):
        del self.stack[n[0]:]
        del self.handling[n[1]:]

    def write(self, o):
        """a mutation of o at the current site"""
        self.touch(o)
        lbl = self.w.owned.get(id(o))
        if lbl is not None:
            self.w.mutations.append((lbl[0], self.where()))

    def step(self):
        self.steps += 1
        if self.steps > self.w.max_steps:
            raise Gap("step budget exhausted at %s" % self.where())
        if not self.steps & 63:
            NFM.check_deadline()

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.step()
        env.node = s
        m = self.dispatch_s.get(type(s))
        if m is None:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Gap("statement %s" % type(s).__name__)
            self.dispatch_s[type(s)] = m
        if not env.is_class and env.vars is not env.module.ns:
            return m(s, env)
        try:
            m(s, env)
        except Gap as e:
            # names a module or class defines in a way that is not modelled are unknown; the others keep their meaning
            names = [t.id for t in s.targets if isinstance(t, ast.Name)] if isinstance(s, ast.Assign) else \
                [s.target.id] if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) else \
                [s.name] if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else []
            if not names or isinstance(s, ast.Assign) and len(names) != len(s.targets):
                raise
            for n in names:
                self.store_name(n, Unknown('definition: %s' % e), env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            new = self.augop(op, cur, self.ev(s.value, env))
            self.store_name(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            new = self.augop(op, cur, self.ev(s.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.getitem(o, k)
            new = self.augop(op, cur, self.ev(s.value, env))
            self.setitem(o, k, new)
        else:
            raise Gap("augmented assignment target")

    def augop(self, op, cur, val):
        if isinstance(cur, Phi):
            return self.dist(cur, lambda c: self.augop(op, c, val))
        if isinstance(cur, Arr):
            if isinstance(val, Unknown):
                raise Gap("array updated with unknown")
            res = self.binop(op, cur, val)
            ra = res if isinstance(res, Arr) else self.mkarr(res)
            if KORD.find(ra.dtype) > KORD.find(cur.dtype) and cur.dtype in KORD:
                self.throw(TypeError, "Cannot cast ufunc output from dtype('%s') to dtype('%s') with "
                           "casting rule 'same_kind'" % (ra.dtype, cur.dtype))
            if ra.shape != cur.shape:
                self.throw(ValueError, "non-broadcastable output operand")
            self.arr_store(cur, cur.idx, cur.shape, ra)
            return cur
        if isinstance(cur, list):
            if op == '+':
                items = self.iterate(val)
                self.write(cur)
                cur.extend(items)
                return cur
            if op == '*' and isinstance(val, int):
                self.write(cur)
                cur *= val
                return cur
        if isinstance(cur, dict) and op == '|':
            self.write(cur)
            cur.update(val)
            return cur
        if isinstance(cur, ASet) and op in ('|', '&', '-'):
            r = self.binop(op, cur, val)
            self.write(cur)
            cur.items = r.items
            return cur
        if isinstance(cur, AObj):
            m = cur.cls.lookup('__i%s__' % DUNDER[op])
            if m is not None:
                return self.call(Bound(m, cur), [val], {})
        return self.binop(op, cur, val)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                tgt = self.name_home(t.id, env)
                if t.id not in tgt:
                    self.throw(NameError, "name '%s' is not defined" % t.id)
                self.touch(tgt)
                del tgt[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, AObj) and t.attr in o.attrs:
                    self.write(o)
                    del o.attrs[t.attr]
                else:
                    self.throw(AttributeError, t.attr)
            else:
                raise Gap("del target")

    def s_If(self, s, env):
        t = self.truth(self.ev(s.test, env))
        if t is True:
            self.block(s.body, env)
        elif t is False:
            self.block(s.orelse, env)
        else:
            self.branch(t, lambda: self.block(s.body, env), lambda: self.block(s.orelse, env))

    def s_While(self, s, env):
        undecided = 0
        tgt = self.open_target()
        value, sig, dead = None, None, False
        try:
            broke = False
            while True:
                env.node = s
                self.step()
                t = self.truth(self.ev(s.test, env))
                if t is False:
                    break
                if t is not True:
                    undecided += 1
                    if undecided > self.w.max_undecided_loop:
                        raise Gap("loop with undecided condition at %s" % self.where())
                    # leaving the loop is an exit of this target
                    self.branch(t, lambda: None, lambda: self._raise(Brk2()))
                try:
                    self.iteration(s.body, env)
                except Brk:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse, env)
        except SIGNALS as e:
            sig = e
        except Dead:
            dead = True
        self.finish_loop(tgt, s, env, sig, dead)

    def _raise(self, e):
        raise e

    def finish_loop(self, tgt, s, env, sig, dead):
        if not tgt.exits:
            self.targets.pop()
            if dead:
                raise Dead()
            if sig is not None:
                if isinstance(sig, Brk):
                    return
                if isinstance(sig, Brk2):
                    self.block(s.orelse, env)
                    return
                raise sig
            return
        alts = self.close_target(tgt, None, sig, dead)
        out = []
        for g, sg, d, v in alts:
            if isinstance(sg, Brk2) and s.orelse:
                raise Gap("while-else with undecided condition")
            if isinstance(sg, (Brk, Brk2)):
                sg = None
            out.append((g, sg, d, v))
        self.resume(tgt, out)

    def iteration(self, body, env):
        """one loop iteration; continue-exits join at its end"""
        tgt = self.open_target()
        sig, dead = None, False
        st = self.save_stack()
        try:
            self.block(body, env)
        except SIGNALS as e:
            sig = e
        except Dead:
            self.restore_stack(st)
            dead = True
        except BaseException:
            self.targets.pop()
            raise
        if not tgt.exits:
            self.targets.pop()
            if dead:
                raise Dead()
            if sig is not None and not isinstance(sig, Cont):
                raise sig
            return
        alts = self.close_target(tgt, None, sig, dead)
        alts = [(g, None if isinstance(sg, Cont) else sg, d, v) for g, sg, d, v in alts]
        self.resume(tgt, alts)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, Phi):
            self.dist(it, lambda x: self.for_loop(x, s, env))
        else:
            self.for_loop(it, s, env)

    def for_loop(self, it, s, env):
        tgt = self.open_target()
        sig, dead = None, False
        try:
            broke = False
            for item in self.live_iter(it):
                env.node = s
                self.step()
                self.assign(s.target, item, env)
                try:
                    self.iteration(s.body, env)
                except Brk:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse, env)
        except SIGNALS as e:
            sig = e
        except Dead:
            dead = True
        except BaseException:
            self.targets.pop()
            raise
        if tgt.exits and s.orelse and any(isinstance(e.sig, Brk) for e in tgt.exits):
            pass
        self.finish_loop(tgt, s, env, sig, dead)

    def live_iter(self, it):
        """python iteration semantics for mutable containers"""
        if isinstance(it, list):
            i = 0
            while i < len(it):
                yield it[i]
                i += 1
            return
        if isinstance(it, (dict, DictView)):
            d = it.d if isinstance(it, DictView) else it
            kind = it.kind if isinstance(it, DictView) else 'keys'
            n = len(d)
            for k in list(d.keys()):
                if len(d) != n:
                    self.throw(RuntimeError, "dictionary changed size during iteration")
                if k not in d:
                    self.throw(RuntimeError, "dictionary keys changed during iteration")
                yield k if kind == 'keys' else d[k] if kind == 'values' else (k, d[k])
            if len(d) != n:
                self.throw(RuntimeError, "dictionary changed size during iteration")
            return
        if isinstance(it, ASet):
            n = len(it.items)
            for x in self.set_order(it):
                if len(it.items) != n:
                    self.throw(RuntimeError, "Set changed size during iteration")
                yield x
            return
        for x in self.iterate(it):
            yield x

    def set_order(self, s):
        items = list(s.items)
        if len(items) > 1:
            self.event('set_iteration', len(items))
        return self.permuted(items)

    def permuted(self, items):
        """an arbitrary order of an unordered collection (chosen by the context)"""
        o = self.w.set_reverse
        if o is True:
            items.reverse()
        elif o and all(isinstance(x, str) for x in items):
            import hashlib
            items.sort(key=lambda x: hashlib.md5(('%d/%s' % (o, x)).encode('utf-8', 'surrogatepass')).digest())
        return items

    def s_Try(self, s, env):
        if s.finalbody:
            self.try_finally(s, env)
        else:
            self.try_except(s, env)

    s_TryStar = None

    def try_finally(self, s, env):
        tgt = self.open_target()
        sig, dead = None, False
        st = self.save_stack()
        try:
            if s.handlers or s.orelse:
                self.try_except(s, env)
            else:
                self.block(s.body, env)
        except SIGNALS + (CmSignal,) as e:
            self.restore_stack(st)
            sig = e
        except Dead:
            self.restore_stack(st)
            dead = True
        except BaseException:
            self.targets.pop()
            raise
        if not tgt.exits:
            self.targets.pop()
            if dead:
                raise Dead()
            self.block(s.finalbody, env)
            if sig is not None:
                raise sig
            return
        alts = self.close_target(tgt, None, sig, dead)
        self.run_alts(tgt, alts, lambda a: self._fin(s, env, a))

    def _fin(self, s, env, alt):
        self.block(s.finalbody, env)
        if alt[1] is not None:
            raise alt[1]

    def run_alts(self, tgt, alts, f):
        """continue each alternative with f and join"""
        out = []
        for a in alts:
            pos = len(self.log)
            self.active = True
            self.curmark = pos
            ng, nfacts = len(self.guards), self.w.order.size()
            self.apply(a[2])
            for g in a[0]:
                self.assume(g)
            t2 = self.open_target()
            sig, dead, v = None, False, None
            st = self.save_stack()
            try:
                v = f(a)
            except SIGNALS as e:
                self.restore_stack(st)
                sig = e
            except Dead:
                self.restore_stack(st)
                dead = True
            except BaseException:
                self.targets.pop()
                raise
            self.targets.pop()
            for e in t2.exits:
                full = dict(a[2])
                full.update(e.diff)
                out.append((list(a[0]) + e.guards, e.sig, full, None))
            if not dead:
                out.append((self.guards[ng:], sig, self.changes(pos), v))
            self.rollback(pos)
            self.drop_assumptions(ng, nfacts)
        self.curmark = len(self.log)
        return self.resume(tgt, out)

    def match_handler(self, s, exc, env):
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, env)
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if isinstance(x, Unknown):
                    raise Gap("handler for unknown exception type")
                if self.exc_match(exc, x):
                    return h
        return None

    def exc_match(self, exc, t):
        if isinstance(t, ExcType):
            return exc.isa(t.pycls)
        if isinstance(t, AClass):
            return isinstance(exc.cls, AClass) and t in exc.cls.mro
        if isinstance(t, TypeObj):
            return False
        raise Gap("exception class %r" % (t,))

    def handle(self, s, exc, env):
        h = self.match_handler(s, exc, env)
        if h is None:
            raise AbsRaise(exc)
        if h.name:
            self.store_name(h.name, exc, env)
        self.handling.append(exc)
        try:
            self.block(h.body, env)
        finally:
            if self.handling and self.handling[-1] is exc:
                self.handling.pop()
            if h.name and h.name in env.vars:
                self.touch(env.vars)
                del env.vars[h.name]

    def try_except(self, s, env):
        tgt = self.open_target()
        sig, dead = None, False
        st = self.save_stack()
        try:
            self.block(s.body, env)
        except SIGNALS as e:
            self.restore_stack(st)
            sig = e
        except Dead:
            self.restore_stack(st)
            dead = True
        except BaseException:
            self.targets.pop()
            raise
        if not tgt.exits:
            self.targets.pop()
            if dead:
                raise Dead()
            if sig is None:
                self.block(s.orelse, env)
                return
            if isinstance(sig, AbsRaise):
                self.handle(s, sig.exc, env)
                return
            raise sig
        alts = self.close_target(tgt, None, sig, dead)

        def f(a):
            if a[1] is None:
                self.block(s.orelse, env)
            elif isinstance(a[1], AbsRaise):
                self.handle(s, a[1].exc, env)
            else:
                raise a[1]
        self.run_alts(tgt, alts, f)

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.handling:
                self.throw(RuntimeError, "No active exception to reraise")
            raise AbsRaise(self.handling[-1])
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(e, (ExcType, AClass)):
            e = self.call(e, [], {})
        if isinstance(e, Unknown):
            raise Gap("raise of unknown")
        if not isinstance(e, ExcVal):
            self.throw(TypeError, "exceptions must derive from BaseException")
        if e.site is None:
            e.site = self.where()
            e.stack = self.callstack()
        raise AbsRaise(e)

    def s_Assert(self, s, env):
        t = self.truth(self.ev(s.test, env))

        def fail():
            self.throw(AssertionError, *( [self.ev(s.msg, env)] if s.msg else []))
        if t is True:
            return
        if t is False:
            fail()
        self.branch(t, lambda: None, fail)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f], {})
        self.store_name(s.name, f, env)

    def make_func(self, node, env):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.ev(d, env)
        name = getattr(node, 'name', '<lambda>')
        f = AFunc(name, node, env.module, env, defaults, kwd)
        f.cls = env.cls if env.is_class else None
        f.outer_cls = env.cls
        return f

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        from . import m_class
        marks = [b for b in bases if isinstance(b, (m_class.EnumBase, m_class.NTBase))]
        strs = bool(marks) and any(isinstance(b, TypeObj) and b.name == 'str' for b in bases)
        unknown = None
        for b in bases:
            if isinstance(b, Unknown):
                if 'typing' not in b.tag and 'Generic' not in b.tag and 'Protocol' not in b.tag:
                    unknown = b.tag
            elif isinstance(b, TypeObj):
                if b.name in ('object', 'ABC') or (strs and b.name == 'str'):
                    continue
                unknown = b.name
        bases = [b for b in bases if b not in marks and not isinstance(b, (Unknown, TypeObj))]
        kws = {k.arg: self.ev(k.value, env) for k in s.keywords}
        c = AClass(s.name, bases, {}, env.module, s)
        cenv = Env(frozenset(), env, env.module, env.func)
        cenv.is_class = True
        cenv.cls = c
        self.stack.append(cenv)
        try:
            self.block(s.body, cenv)
        finally:
            self.stack.pop()
        c.ns = dict(cenv.vars)
        out = c
        if unknown is not None:
            out = Unknown('class derived from ' + unknown)
        elif marks and isinstance(marks[0], m_class.NTBase):
            out = m_class.build_nt(self, c)
        elif marks:
            out = m_class.build_enum(self, c, marks, strs)
        for d in reversed(s.decorator_list):
            out = self.call(self.ev(d, env), [out], {})
        self.store_name(s.name, out, env)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.w.import_module(a.name, self)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.w.import_module(top, self), env)

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            pkg = env.module.name
            if not getattr(env.module, 'is_pkg', False):
                pkg = pkg.rpartition('.')[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == '__future__':
            return
        m = self.w.import_module(name, self)
        for a in s.names:
            if a.name == '*':
                allv = m.ns.get('__all__')
                for k, v in list(m.ns.items()):
                    if (allv is not None and k in allv) or (allv is None and not k.startswith('_')):
                        self.store_name(k, v, env)
                continue
            if isinstance(m, Unknown):
                v = Unknown(name + '.' + a.name)
            elif a.name in m.ns:
                v = m.ns[a.name]
            else:
                ext = getattr(m, 'external', False)
                v = self.getattr_or(m, a.name) if ext else ABSENT
                try:
                    if v is ABSENT:
                        v = self.w.import_module(name + '.' + a.name, self)
                except AbsRaise:
                    if ext:
                        v = Unknown(name + '.' + a.name)
                        self.store_name(a.asname or a.name, v, env)
                        continue
                    self.throw(ImportError, "cannot import name '%s' from '%s'" % (a.name, name))
            self.store_name(a.asname or a.name, v, env)

    def s_With(self, s, env):
        self.with_items(s, list(s.items), env)

    def with_items(self, s, items, env):
        if not items:
            self.block(s.body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        if isinstance(cm, Phi):
            raise Gap("gated context manager")

        def bind(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        if isinstance(cm, CmGen):
            def body(v):
                try:
                    bind(v)
                    self.with_items(s, items[1:], env)
                except (Ret, Brk, Cont) as e:
                    raise CmSignal(e)
            try:
                self.call_func(cm.func, cm.args, cm.kwargs, cm=body)
            except CmSignal as c:
                raise c.sig
            return
        v = self.enter(cm)
        tgt = self.open_target()
        sig, dead = None, False
        st = self.save_stack()
        try:
            bind(v)
            self.with_items(s, items[1:], env)
        except SIGNALS + (CmSignal,) as e:
            self.restore_stack(st)
            sig = e
        except Dead:
            self.restore_stack(st)
            dead = True
        except BaseException:
            self.targets.pop()
            raise
        if not tgt.exits:
            self.targets.pop()
            if dead:
                raise Dead()
            self.leave(cm, sig)
            return
        alts = self.close_target(tgt, None, sig, dead)
        self.run_alts(tgt, alts, lambda a: self.leave(cm, a[1]))

    def enter(self, cm):
        if isinstance(cm, Unknown):
            return Unknown('enter')
        if isinstance(cm, AObj):
            return self.call(self.getattr(cm, '__enter__'), [], {})
        m = getattr(cm, 'm___enter__', None)
        if m is None:
            self.throw(TypeError, "object does not support the context manager protocol")
        return m(self)

    def leave(self, cm, sig):
        exc = sig.exc if isinstance(sig, AbsRaise) else None
        if isinstance(cm, AObj):
            r = self.call(self.getattr(cm, '__exit__'),
                          [exc.cls if exc else None, exc, None], {})
            swallow = exc is not None and self.truth(r) is True
        elif isinstance(cm, Unknown):
            swallow = False
        else:
            swallow = cm.m___exit__(self, exc)
        if sig is not None and not (swallow and exc is not None):
            raise sig

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, v, env):
                if c.guard is not None:
                    t = self.truth(self.ev(c.guard, env))
                    if not isinstance(t, bool):
                        raise Gap("undecided match guard")
                    if not t:
                        continue
                self.block(c.body, env)
                return

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            r = self.eq(v, self.ev(p.value, env))
            if not isinstance(r, bool):
                raise Gap("undecided match")
            return r
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.store_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)):
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Gap("match star")
            return len(v) == len(p.patterns) and all(
                self.match_pat(q, x, env) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchSequence):
            return False
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance(v, self.ev(p.cls, env))
        raise Gap("match pattern")

    # ------------------------------------------------------------ names
    def name_home(self, name, env):
        if name in env.globals:
            return env.module.ns
        if name in env.nonlocals:
            e = env.parent
            while e is not None and (e.is_class or name not in e.names):
                e = e.parent
            return e.vars
        if env.func is None and not env.is_class and env.parent is None:
            return env.module.ns
        return env.vars

    def store_name(self, name, v, env):
        e = env
        # comprehension scopes: walrus binds in the enclosing function
        home = self.name_home(name, e)
        if self.active:
            self.touch(home)
        home[name] = v
        if home is env.module.ns and env.func is not None:
            self.w.global_writes.append((env.module.name, name, self.where()))

    def load_name(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.is_class:
                if first and name in e.vars:
                    return self.checked(e.vars, name)
            elif name in e.globals:
                break
            elif name in e.names:
                if name in e.vars:
                    return self.checked(e.vars, name)
                if first:
                    self.throw(UnboundLocalError,
                               "cannot access local variable '%s' where it is not "
                               "associated with a value" % name)
                self.throw(NameError, "cannot access free variable '%s'" % name)
            first = False
            e = e.parent
        ns = env.module.ns
        if name in ns:
            return self.checked(ns, name)
        if name in self.builtins:
            return self.builtins[name]
        self.throw(NameError, "name '%s' is not defined" % name)

    def checked(self, ns, name):
        v = ns[name]
        if isinstance(v, Phi) and (v.a is ABSENT or v.b is ABSENT):
            def bad():
                self.throw(UnboundLocalError, "cannot access local variable '%s'" % name)
            c = v

            def alt(x):
                return bad() if x is ABSENT else x
            return self.branch(c.cond, lambda: alt(c.a), lambda: alt(c.b))
        if v is ABSENT:
            self.throw(UnboundLocalError, "cannot access local variable '%s'" % name)
        return v

    # ------------------------------------------------------------ assignment targets
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Phi):
                n = len(t.elts)
                v = self.dist(v, lambda x: tuple(self.iterate(x)))
                if isinstance(v, Phi):
                    raise Gap("unpacking of gated value")
            if isinstance(v, Unknown):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unknown('unpack'), env)
                return
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, list(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                self.throw(ValueError, "not enough values to unpack (expected %d, got %d)"
                           % (len(t.elts), len(items)) if len(items) < len(t.elts) else
                           "too many values to unpack (expected %d)" % len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Gap("assignment target")

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = self.dispatch_e.get(type(n))
        if m is None:
            m = getattr(self, 'e_' + type(n).__name__, None)
            if m is None:
                raise Gap("expression %s" % type(n).__name__)
            self.dispatch_e[type(n)] = m
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return fnum(v)
        if isinstance(v, complex):
            return Num(NF.num(Fraction(repr(v.imag))) * self.w.space.i(), 'c')
        return v

    def e_Name(self, n, env):
        return self.load_name(n.id, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.func is not None and getattr(e, 'names', None) is not None and \
                n.target.id not in e.names and e.parent is not None and not e.is_class:
            e = e.parent
        self.store_name(n.target.id, v, e)
        return v

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev_index(n.slice, env)
        return self.getitem(o, k)

    def ev_index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower, env) if n.lower else None,
                         self.ev(n.upper, env) if n.upper else None,
                         self.ev(n.step, env) if n.step else None)
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(e, env) for e in n.elts)
        return self.ev(n, env)

    def e_Slice(self, n, env):
        return self.ev_index(n, env)

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_List(self, n, env):
        return self.elts(n.elts, env)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return self.mkset(self.elts(n.elts, env))

    def mkset(self, items):
        s = ASet()
        for x in items:
            self.hashable(x)
            if not self.contains_raw(s.items, x):
                s.items.append(x)
        return s

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, env)
                if isinstance(m, dict):
                    d.update(m)
                else:
                    raise Gap("** of non-dict")
            else:
                kk = self.hashable(self.ev(k, env))
                d[kk] = self.ev(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, (list, dict, ASet, Arr)):
            self.throw(TypeError, "unhashable type: '%s'" % self.typename(k))
        if isinstance(k, (Phi, Unknown)):
            raise Gap("gated or unknown key")
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, NBool):
            return k.v
        if isinstance(k, Num) and k.special is None and k.nf.is_const() and \
                k.nf.const_value().denominator == 1:
            return int(k.nf.const_value())
        if isinstance(k, AObj) and k.cls.has('__eq__') and not k.cls.has('__hash__'):
            self.throw(TypeError, "unhashable type: '%s'" % k.cls.name)
        return k

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return Phi(t, False, True)
        name = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'inv'}[type(n.op)]
        return self.unop(name, v)

    def unop(self, name, v):
        if isinstance(v, Phi):
            return self.dist(v, lambda x: self.unop(name, x))
        if isinstance(v, Unknown):
            return v
        if isinstance(v, Arr):
            if name == 'inv':
                if v.dtype == 'b':
                    return self.arr_unary('not_', v)
                raise Gap("~ on integers")
            if v.dtype == 'b':
                self.throw(TypeError, "The numpy boolean negative, the `-` operator, is not supported")
            return self.arr_unary(name, v)
        if name == 'inv':
            if isinstance(v, NBool):
                return NBool(not v.v)
            if isinstance(v, int):
                return ~v
            if hasattr(v, 'op_inv'):
                return v.op_inv(self)
            self.throw(TypeError, "bad operand type for unary ~")
        if isinstance(v, int):
            return -v if name == 'neg' else +v
        if isinstance(v, Num):
            return self.unary(name, v)
        if isinstance(v, AObj):
            return self.call(self.getattr(v, '__neg__' if name == 'neg' else '__pos__'), [], {})
        if hasattr(v, 'as_array'):
            return self.unop(name, v.as_array(self))
        self.throw(TypeError, "bad operand type for unary operator: '%s'" % self.typename(v))

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(BINOPS[type(n.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Phi):
            if is_num_phi(a) and (is_num(b) or is_num_phi(b)):
                return self.arith(op, a, b)
            return self.dist(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Phi):
            if is_num(a) and is_num_phi(b):
                return self.arith(op, a, b)
            return self.dist(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown('binop')
        if isinstance(a, ModelObj) and hasattr(a, 'as_array') and not hasattr(a, 'op_binop'):
            a = a.as_array(self)
        if isinstance(b, ModelObj) and hasattr(b, 'as_array') and not hasattr(b, 'op_binop'):
            b = b.as_array(self)
        if is_num(a) and is_num(b):
            if isinstance(a, (bool, NBool)) and isinstance(b, (bool, NBool)) and op in '&|^':
                x, y = bool(a == True), bool(b == True)
                r = {'&': x and y, '|': x or y, '^': x != y}[op]
                return r if isinstance(a, bool) and isinstance(b, bool) else NBool(r)
            return self.arith(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            o = b if isinstance(a, Arr) else a
            if op == '@':
                return self.call(self.getattr(self.w.import_module('numpy', self), 'dot'), [a, b], {})
            if isinstance(o, (Arr, list, tuple)) or is_num(o):
                return self.arr_binary(op, a, b)
            if isinstance(o, str) or o is None or isinstance(o, (dict, ASet)):
                self.throw(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'"
                           % (op, self.typename(a), self.typename(b)))
        for x, y, pre in ((a, b, ''), (b, a, 'r')):
            if isinstance(x, AObj):
                m = x.cls.lookup('__%s%s__' % (pre, DUNDER[op]))
                if m is not None:
                    return self.call(Bound(m, x), [y], {})
        for x in (a, b):
            if hasattr(x, 'op_binop'):
                return x.op_binop(self, op, a, b)
        if isinstance(a, str):
            if op == '+' and isinstance(b, str):
                return a + b
            if op == '*' and isinstance(b, int):
                return a * b
            if op == '%':
                return self.percent(a, b)
        if isinstance(b, str) and op == '*' and isinstance(a, int):
            return a * b
        if isinstance(a, bytes) and isinstance(b, bytes) and op == '+':
            return a + b
        if isinstance(a, list) and isinstance(b, list) and op == '+':
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, (list, tuple)) and op == '*' and isinstance(b, int):
            return a * b
        if isinstance(b, (list, tuple)) and op == '*' and isinstance(a, int):
            return b * a
        if isinstance(a, (list, tuple)) and op == '*' and isinstance(b, Num) and b.np and b.kind == 'i':
            return self.arr_binary(op, self.mkarr(a), b)
        if isinstance(b, (list, tuple)) and isinstance(a, Num) and a.np:
            return self.arr_binary(op, a, self.mkarr(b))
        if isinstance(a, (list, tuple)) and isinstance(b, Num) and b.np:
            return self.arr_binary(op, self.mkarr(a), b)
        sa = a.items if isinstance(a, ASet) else list(a.d) if isinstance(a, DictView) else None
        sb = b.items if isinstance(b, ASet) else list(b.d) if isinstance(b, DictView) else None
        if sa is not None and sb is not None:
            if op == '|':
                return ASet(sa + sb)
            if op == '&':
                return ASet([x for x in sa if self.contains_raw(sb, x)])
            if op == '-':
                return ASet([x for x in sa if not self.contains_raw(sb, x)])
            if op == '^':
                return ASet([x for x in sa if not self.contains_raw(sb, x)] +
                            [x for x in sb if not self.contains_raw(sa, x)])
        if isinstance(a, dict) and isinstance(b, dict) and op == '|':
            r = dict(a)
            r.update(b)
            return r
        self.throw(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'"
                   % (op, self.typename(a), self.typename(b)))

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)

        def rest(i):
            v = self.ev(n.values[i], env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t is True:
                return rest(i + 1) if is_and else v
            if t is False:
                return v if is_and else rest(i + 1)
            vt = v
            if isinstance(v, Phi) and v.a is True and v.b is False:
                vt = (True, False)
                if is_and:
                    return self.branch(t, lambda: rest(i + 1), lambda: False)
                return self.branch(t, lambda: True, lambda: rest(i + 1))
            if is_and:
                return self.branch(t, lambda: rest(i + 1), lambda: v)
            return self.branch(t, lambda: v, lambda: rest(i + 1))
        return rest(0)

    def e_IfExp(self, n, env):
        t = self.truth(self.ev(n.test, env))
        if t is True:
            return self.ev(n.body, env)
        if t is False:
            return self.ev(n.orelse, env)
        return self.branch(t, lambda: self.ev(n.body, env), lambda: self.ev(n.orelse, env))

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = None

        def chain(i, left):
            right = self.ev(n.comparators[i], env)
            r = self.compare(n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return r
            t = self.truth(r)
            if t is False:
                return r
            if t is True:
                return chain(i + 1, right)
            return self.branch(t, lambda: chain(i + 1, right), lambda: False)
        return chain(0, left)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else self.unary('not_', r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                if isinstance(r, bool):
                    return not r
                t = self.truth(r)
                return (not t) if isinstance(t, bool) else Phi(t, False, True)
            return r
        return self.cmp(CMPOPS[type(op)], a, b)

    def is_same(self, a, b):
        if isinstance(a, Phi):
            return self.lift(lambda x: self.is_same(x, b), a)
        if isinstance(b, Phi):
            return self.lift(lambda x: self.is_same(a, x), b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            if a is None or b is None:
                return Unknown('is')
            return Unknown('is')
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, (ExcType,)) and isinstance(b, ExcType):
            return a == b
        if isinstance(a, Num) and isinstance(b, Num):
            return a is b or (a.special is not None and a.special == b.special and not a.np and not b.np)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        return a is b

    def cmp(self, op, a, b):
        if isinstance(a, Phi):
            if is_num_phi(a) and is_num(b):
                return self.cmpnum(op, a, b)
            return self.dist(a, lambda x: self.cmp(op, x, b))
        if isinstance(b, Phi):
            if is_num_phi(b) and is_num(a):
                return self.cmpnum(op, a, b)
            return self.dist(b, lambda x: self.cmp(op, a, x))
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown('compare')
        if isinstance(a, ModelObj) and hasattr(a, 'as_array') and not hasattr(a, 'op_cmp'):
            a = a.as_array(self)
        if isinstance(b, ModelObj) and hasattr(b, 'as_array') and not hasattr(b, 'op_cmp'):
            b = b.as_array(self)
        if is_num(a) and is_num(b):
            r = self.cmpnum(op, a, b)
            if isinstance(r, bool) and ((isinstance(a, Num) and a.np) or (isinstance(b, Num) and b.np)
                                        or isinstance(a, NBool) or isinstance(b, NBool)):
                return NBool(r)
            return r
        for x in (a, b):
            if hasattr(x, 'op_cmp'):
                return x.op_cmp(self, op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            o = b if isinstance(a, Arr) else a
            if isinstance(o, (Arr, list, tuple)) or is_num(o) or isinstance(o, str):
                if isinstance(o, str) and op in ('==', '!='):
                    arr = a if isinstance(a, Arr) else b
                    if arr.dtype not in 'UO':
                        return Arr.new([op == '!='] * arr.size, arr.shape, 'b') if arr.shape else NBool(op == '!=')
                return self.arr_binary(op, a, b)
            if op in ('==', '!=') :
                arr = a if isinstance(a, Arr) else b
                if o is None:
                    return Arr.new([op == '!='] * arr.size, arr.shape, 'b')
        if op in ('==', '!='):
            r = self.eq(a, b)
            if op == '!=':
                if isinstance(a, AObj) and a.cls.has('__ne__'):
                    return self.call(self.getattr(a, '__ne__'), [b], {})
                if isinstance(r, bool):
                    return not r
                t = self.truth(r)
                return (not t) if isinstance(t, bool) else Phi(t, False, True)
            return r
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if e is False:
                    return self.cmp(op, x, y)
                if e is not True and not (isinstance(e, NBool)):
                    raise Gap("undecided sequence comparison")
            return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b),
                    '>=': len(a) >= len(b)}[op]
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = all(self.contains_raw(b.items, x) for x in a.items)
            sup = all(self.contains_raw(a.items, x) for x in b.items)
            return {'<=': sub, '>=': sup, '<': sub and not sup, '>': sup and not sub}[op]
        if isinstance(a, AObj):
            nm = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
            if a.cls.has(nm):
                return self.call(self.getattr(a, nm), [b], {})
        self.throw(TypeError, "'%s' not supported between instances of '%s' and '%s'"
                   % (op, self.typename(a), self.typename(b)))

    def eq(self, a, b):
        """== for arbitrary values; bool, NBool, Arr or Phi"""
        if a is b and not isinstance(a, (Num, Arr, Phi, Unknown)):
            if isinstance(a, AObj) and a.cls.has('__eq__'):
                pass
            else:
                return True
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(self.eq, a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown('eq')
        if isinstance(a, AObj) and a.cls.has('__eq__'):
            r = self.call(self.getattr(a, '__eq__'), [b], {})
            if not is_notimpl(r):
                return r
        if isinstance(b, AObj) and b.cls.has('__eq__'):
            r = self.call(self.getattr(b, '__eq__'), [a], {})
            if not is_notimpl(r):
                return r
        if isinstance(a, AObj) or isinstance(b, AObj):
            return a is b
        if is_num(a) and is_num(b):
            r = self.cmpnum('==', a, b)
            return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            o = b if isinstance(a, Arr) else a
            if isinstance(o, (Arr, list, tuple, str)) or is_num(o):
                return self.cmp('==', a, b)
            return False
        for x in (a, b):
            if hasattr(x, 'op_cmp'):
                return x.op_cmp(self, '==', a, b)
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            out = True
            for x, y in zip(a, b):
                if x is y:
                    continue
                r = self.eq(x, y)
                t = self.truth(r)
                if t is False:
                    return False
                if t is not True:
                    out = t if out is True else cand(out, t)
            return out if out is True else Phi(out, True, False)
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b) or any(k not in b for k in a):
                return False
            out = True
            for k in a:
                if a[k] is b[k]:
                    continue
                t = self.truth(self.eq(a[k], b[k]))
                if t is False:
                    return False
                if t is not True:
                    out = t if out is True else cand(out, t)
            return out if out is True else Phi(out, True, False)
        if isinstance(a, ASet) and isinstance(b, ASet):
            return len(a.items) == len(b.items) and all(self.contains_raw(b.items, x) for x in a.items)
        if isinstance(a, DictView) and isinstance(b, DictView):
            return ASet(list(a.d)).items == ASet(list(b.d)).items
        if isinstance(a, (ExcType, TypeObj, AClass)) or isinstance(b, (ExcType, TypeObj, AClass)):
            return a is b or a == b
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        return a is b

    def contains_raw(self, items, x):
        for y in items:
            if y is x:
                return True
            r = self.eq(y, x)
            if r is True or (isinstance(r, NBool) and r.v):
                return True
            if isinstance(r, Phi):
                raise Gap("undecided membership")
        return False

    def contains(self, c, x):
        if isinstance(c, Phi):
            return self.dist(c, lambda y: self.contains(y, x))
        if isinstance(x, Phi):
            return self.dist(x, lambda y: self.contains(c, y))
        if isinstance(c, Unknown):
            return Unknown('in')
        if isinstance(c, AClass) and getattr(c, 'enum', None) is not None:
            from . import m_class
            c = list(c.enum) + [m_class.value_of(m) for m in c.enum]
        if isinstance(c, str):
            if isinstance(x, Unknown):
                return Unknown('in')
            if not isinstance(x, str):
                self.throw(TypeError, "'in <string>' requires string as left operand, not %s"
                           % self.typename(x))
            return x in c
        if isinstance(c, dict):
            return self.hashable(x) in c
        if isinstance(c, DictView):
            if c.kind == 'keys':
                return self.hashable(x) in c.d
            return self.contains(list(self.live_iter(c)), x)
        if isinstance(c, ASet):
            self.hashable(x)
            return self.contains_raw(c.items, x)
        if isinstance(c, range):
            if isinstance(x, int):
                return x in c
            c = list(c)
        if isinstance(c, Arr):
            r = [self.truth(e) for e in (self.arr_binary('==', c, x).elems()
                                         if c.shape else [self.eq(c, x)])]
            if any(t is True for t in r):
                return True
            und = [t for t in r if t is not False]
            if not und:
                return False
            cc = und[0]
            for t in und[1:]:
                cc = cor(cc, t)
            return Phi(cc, True, False)
        if isinstance(c, (list, tuple)):
            und = None
            for y in c:
                if y is x:
                    return True
                t = self.truth(self.eq(y, x))
                if t is True:
                    return True
                if t is not False:
                    und = t if und is None else cor(und, t)
            return False if und is None else Phi(und, True, False)
        if isinstance(c, AObj) and c.cls.has('__contains__'):
            return self.call(self.getattr(c, '__contains__'), [x], {})
        if hasattr(c, 'op_contains'):
            return c.op_contains(self, x)
        if isinstance(c, (GenObj, ModelObj, AObj)):
            return self.contains(list(self.iterate(c)), x)
        self.throw(TypeError, "argument of type '%s' is not iterable" % self.typename(c))

    def truth(self, v):
        """True / False / Cond"""
        if v is True or v is False:
            return v
        if isinstance(v, NBool):
            return v.v
        if v is None:
            return False
        if isinstance(v, (str, int, list, tuple, dict, bytes, range)):
            return bool(v)
        if isinstance(v, ASet):
            return bool(v.items)
        if isinstance(v, Phi):
            if v.a is ABSENT or v.b is ABSENT:
                raise Gap("truth of possibly unset value")
            d = self.decide(v.cond)
            if d is not None:
                return self.truth(v.a if d else v.b)
            ta, tb = self.truth(v.a), self.truth(v.b)
            if ta is True and tb is False:
                return v.cond
            if ta is False and tb is True:
                return cnot(v.cond)
            if ta is tb and isinstance(ta, bool):
                return ta
            ca = v.cond if ta is True else None if ta is False else cand(v.cond, ta)
            n = cnot(v.cond)
            cb = n if tb is True else None if tb is False else cand(n, tb)
            if ca is None:
                return cb
            if cb is None:
                return ca
            return cor(ca, cb)
        if isinstance(v, Num):
            if v.special:
                return True
            if not v.nf.is_real():
                return bool(v.nf.t)
            r = self.cmpnum('!=', v, 0)
            return r if isinstance(r, bool) else r.cond
        if isinstance(v, Arr):
            if v.size == 1:
                return self.truth(v.elems()[0])
            if v.size == 0:
                self.throw(ValueError, "The truth value of an empty array is ambiguous.")
            self.throw(ValueError, "The truth value of an array with more than one element is "
                       "ambiguous. Use a.any() or a.all()")
        if isinstance(v, Unknown):
            return Cond('opaque', "%s@%s" % (v.tag, self.where()))
        if isinstance(v, AObj):
            if v.cls.has('__bool__'):
                return self.truth(self.call(self.getattr(v, '__bool__'), [], {}))
            if v.cls.has('__len__'):
                return self.truth(self.call(self.getattr(v, '__len__'), [], {}))
            return True
        if isinstance(v, DictView):
            return bool(v.d)
        if hasattr(v, 'op_truth'):
            return v.op_truth(self)
        return True

    def e_JoinedStr(self, n, env):
        out = ""
        for p in n.values:
            if isinstance(p, ast.Constant):
                out = self.binop('+', out, p.value)
            else:
                out = self.binop('+', out, self.e_FormattedValue(p, env))
        return out

    def e_FormattedValue(self, p, env):
        v = self.ev(p.value, env)
        spec = self.ev(p.format_spec, env) if p.format_spec else ''
        if p.conversion == 114:
            v = self.to_repr(v)
        elif p.conversion == 115:
            v = self.to_str(v)
        return self.format(v, spec)

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def comp(self, gens, env, emit):
        cenv = Env(frozenset(), env, env.module, env.func)
        cenv.node = env.node
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        cenv.names = frozenset(names)

        def run(i):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            it = self.ev(g.iter, env if i == 0 else cenv)
            for x in self.live_iter(it):
                self.step()
                self.comp_assign(g.target, x, cenv)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, cenv))
                    if not isinstance(t, bool):
                        raise Gap("undecided comprehension filter")
                    if not t:
                        ok = False
                        break
                if ok:
                    run(i + 1)
        run(0)

    def comp_assign(self, t, v, cenv):
        if isinstance(t, ast.Name):
            cenv.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            if len(items) != len(t.elts):
                self.throw(ValueError, "unpack")
            for e, x in zip(t.elts, items):
                self.comp_assign(e, x, cenv)
        else:
            self.assign(t, v, cenv)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    def e_SetComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return self.mkset(out)

    def e_GeneratorExp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return GenObj(out)

    def e_DictComp(self, n, env):
        out = {}

        def emit(e):
            k = self.hashable(self.ev(n.key, e))
            out[k] = self.ev(n.value, e)
        self.comp(n.generators, env, emit)
        return out

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value else None
        e = env
        while e.yields is None and e.cm is None and e.parent is not None:
            e = e.parent
        if e.cm is not None:
            e.cm(v)
            return None
        e.yields.append(v)
        return None

    def e_YieldFrom(self, n, env):
        for v in self.iterate(self.ev(n.value, env)):
            env.yields.append(v)
        return None

    def e_Starred(self, n, env):
        raise Gap("starred expression")

    def e_Call(self, n, env):
        # zero-argument super / special forms
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = env
            while f is not None and (f.func is None or f.func.cls is None and
                                     getattr(f.func, 'outer_cls', None) is None):
                f = f.parent
            e = env
            while e.func is not None and e.func.cls is None and e.parent is not None:
                e = e.parent
            cls = e.func.cls if e.func else None
            if cls is None:
                raise Gap("super() outside class")
            a = e.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperObj(cls, e.vars[first])
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'vars') and not n.args:
            self.load_name(n.func.id, env)
            if n.func.id == 'globals':
                return env.module.ns
            return dict(env.vars)
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict):
                    raise Gap("** argument")
                for kk, vv in d.items():
                    if kk in kwargs:
                        self.throw(TypeError, "got multiple values for keyword argument '%s'" % kk)
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        env.node = n
        self.w.callsites.add((env.module.name, n.lineno, n.col_offset))
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.step()
        if isinstance(f, Bound):
            g = f.func
            if isinstance(g, AFunc):
                return self.call_func(g, [f.self_] + list(args), kwargs)
            return self.call(g, [f.self_] + list(args), kwargs)
        if isinstance(f, AFunc):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, AClass):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, ExtFunc):
            return self.call_ext(f, list(args), kwargs)
        if isinstance(f, NativeM):
            return self.call_native(f, list(args), kwargs)
        if isinstance(f, TypeObj):
            if f.make is None:
                raise Gap("constructor %s" % f.name)
            for i, a in enumerate(args):
                if isinstance(a, Phi):
                    return self.dist(a, lambda x: self.call(f, args[:i] + [x] + args[i + 1:], kwargs))
            return f.make(self, list(args), kwargs)
        if isinstance(f, ExcType):
            e = ExcVal(f, list(args))
            return e
        if isinstance(f, Unknown):
            self.event('unknown_call', f.tag)
            return Unknown(f.tag + '()')
        if isinstance(f, Phi):
            return self.dist(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, AObj):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        m = getattr(f, 'm___call__', None)
        if m is not None:
            for i, a in enumerate(args):
                if isinstance(a, Phi):
                    return self.dist(a, lambda x: self.call(f, args[:i] + [x] + args[i + 1:], kwargs))
            return m(self, *args, **kwargs)
        self.throw(TypeError, "'%s' object is not callable" % self.typename(f))

    def call_ext(self, f, args, kwargs):
        if not getattr(f, 'phi_ok', False):
            for i, a in enumerate(args):
                if isinstance(a, Phi):
                    return self.dist(a, lambda x: self.call_ext(f, args[:i] + [x] + args[i + 1:], kwargs))
            for k, a in kwargs.items():
                if isinstance(a, Phi):
                    return self.dist(a, lambda x: self.call_ext(f, args, dict(kwargs, **{k: x})))
        try:
            return f.f(self, args, kwargs)
        except RecursionError:
            raise Gap("recursion")

    def call_func(self, f, args, kwargs, cm=None):
        if len(self.stack) > self.w.max_depth:
            raise Gap("call depth bound")
        names, glob, nonl, gen = scope_of(f.node)
        env = Env(names, f.closure if f.closure.func is not None or f.closure.is_class
                  or f.closure.parent is not None else None, f.module, f)
        # class scopes are not visible from methods
        p = env.parent
        while p is not None and p.is_class:
            p = p.parent
        if p is not None and p.func is None and p.parent is None and not p.is_class:
            p = None
        env.parent = p
        env.globals = glob
        env.nonlocals = nonl
        env.cls = f.cls
        env.cm = cm
        self.bind_args(f, env, args, kwargs)
        self.w.functions.add((f.module.name, f.qualname))
        if gen and cm is None:
            env.yields = []
        body = f.node.body
        env.node = f.node if not isinstance(f.node, ast.Lambda) else f.node
        self.stack.append(env)
        depth = len(self.stack)
        tgt = self.open_target()
        value, sig, dead = None, None, False
        try:
            if isinstance(f.node, ast.Lambda):
                value = self.ev(body, env)
            else:
                self.block(body, env)
        except Ret as r:
            value = r.v
        except AbsRaise as e:
            sig = e
        except (Brk, Cont):
            raise Gap("break outside loop")
        except Dead:
            dead = True
        except BaseException:
            self.targets.pop()
            del self.stack[depth - 1:]
            raise
        del self.stack[depth - 1:]
        if not tgt.exits:
            self.targets.pop()
            if dead:
                raise Dead()
            if sig is not None:
                raise sig
        else:
            alts = self.close_target(tgt, value, sig, dead)
            out = []
            for g, sg, d, v in alts:
                if isinstance(sg, Ret):
                    out.append((g, None, d, sg.v))
                else:
                    out.append((g, sg, d, v))
            value = self.resume(tgt, out)
        if env.yields is not None:
            return GenObj(env.yields)
        return value

    def bind_args(self, f, env, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        v = env.vars
        n = len(pos)
        fname = f.name
        for name, x in zip(pos, args):
            v[name] = x
        if len(args) > n:
            if a.vararg is None:
                self.throw(TypeError, "%s() takes %d positional arguments but %d were given"
                           % (fname, n, len(args)))
            v[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        kwonly = {x.arg for x in a.kwonlyargs}
        npo = len(a.posonlyargs)
        extra = {}
        for k, x in kwargs.items():
            if k in pos[npo:]:
                if k in v:
                    self.throw(TypeError, "%s() got multiple values for argument '%s'" % (fname, k))
                v[k] = x
            elif k in kwonly:
                v[k] = x
            elif a.kwarg is not None:
                extra[k] = x
            else:
                self.throw(TypeError, "%s() got an unexpected keyword argument '%s'" % (fname, k))
        if a.kwarg is not None:
            v[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in v:
                j = i - (n - nd)
                if j >= 0:
                    v[name] = f.defaults[j]
                else:
                    self.throw(TypeError, "%s() missing required positional argument: '%s'"
                               % (fname, name))
        for x in a.kwonlyargs:
            if x.arg not in v:
                if x.arg in f.kwdefaults:
                    v[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.throw(TypeError, "%s() missing required keyword-only argument: '%s'"
                               % (fname, x.arg))

    def instantiate(self, c, args, kwargs):
        if c.exc_base() is not None:
            e = ExcVal(c, list(args))
            init = c.lookup('__init__')
            if init is not None:
                self.call(Bound(init, e), args, kwargs)
            return e
        if getattr(c, 'enum', None) is not None:
            from . import m_class
            return m_class.enum_call(self, c, args)
        new = c.lookup('__new__')
        if new is not None:
            raise Gap("__new__")
        abstract = [n for k in c.mro if isinstance(k, AClass) for n, m in k.ns.items()
                    if getattr(m, 'abstract', False) and c.lookup(n) is m]
        if abstract:
            self.throw(TypeError, "Can't instantiate abstract class %s" % c.name)
        o = AObj(c)
        init = c.lookup('__init__')
        if init is not None:
            self.call(self.bind_attr(init, o, c), args, kwargs)
        elif args or kwargs:
            self.throw(TypeError, "%s() takes no arguments" % c.name)
        return o

    # ------------------------------------------------------------ attributes
    def bind_attr(self, m, o, cls):
        if isinstance(m, (AFunc, ExtFunc)):
            return Bound(m, o)
        if isinstance(m, StaticM):
            return m.f
        if isinstance(m, ClassM):
            return Bound(m.f, cls)
        if isinstance(m, PropM):
            return self.call(m.fget, [o], {})
        if hasattr(m, 'bind_to'):
            return m.bind_to(self, o, cls)
        return m

    def getattr(self, o, name):
        r = self.getattr_or(o, name)
        if r is ABSENT:
            if isinstance(o, Module):
                if getattr(o, 'external', False):
                    raise Gap("unmodelled attribute %s.%s" % (o.name, name))
                self.throw(AttributeError, "module '%s' has no attribute '%s'" % (o.name, name))
            if isinstance(o, (AObj, AClass)):
                self.throw(AttributeError, "'%s' object has no attribute '%s'"
                           % (self.typename(o), name))
            if isinstance(o, (ModelObj, ExtFunc, TypeObj)):
                raise Gap("unmodelled attribute %s of %s" % (name, self.typename(o)))
            self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.typename(o), name))
        return r

    def getattr_or(self, o, name):
        if isinstance(o, Phi):
            return self.dist(o, lambda x: self.getattr(x, name))
        if isinstance(o, AObj):
            if name in o.attrs:
                cv = o.cls.lookup(name)
                if not isinstance(cv, PropM):
                    return self.checked(o.attrs, name) if isinstance(o.attrs[name], Phi) else o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            for c in o.cls.mro:
                if isinstance(c, AClass) and name in c.ns:
                    return self.bind_attr(c.ns[name], o, o.cls)
            if name == '__module__':
                return o.cls.module.name
            if name == '__doc__':
                return ''
            if name in ('__eq__', '__ne__'):
                ext = ExtFunc(name, lambda it, a, k: a[0] is o)
                return ext
            g = o.cls.lookup('__getattr__')
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            if name in ('__str__', '__repr__'):
                return ExtFunc(name, lambda it, a, k: it.to_repr(o))
            if name == '__init__':
                return ExtFunc('__init__', lambda it, a, k: None)
            return ABSENT
        if isinstance(o, AClass):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return dict(o.ns)
            if name == '__subclasses__':
                return ExtFunc(name, lambda it, a, k: self.subclasses(o))
            m = o.lookup(name)
            if m is None and not o.has(name):
                if name == '__doc__':
                    return ''
                eb = o.exc_base()
                if name == '__init__':
                    return ExtFunc('__init__', lambda it, a, k: self.base_init(a))
                return ABSENT
            if isinstance(m, StaticM):
                return m.f
            if isinstance(m, ClassM):
                return Bound(m.f, o)
            return m
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            if name == '__name__':
                return o.name
            if name == '__dict__':
                return o.ns
            if getattr(o, 'external', False):
                v = self.w.prelude(o.name, name, self)
                if v is not ABSENT:
                    o.ns[name] = v
                    return v
            lazy = getattr(o, 'lazy', None)
            if lazy is not None:
                v = lazy(self, name)
                if v is not ABSENT:
                    o.ns[name] = v
                return v
            try:
                if not getattr(o, 'external', False) and (o.name + '.' + name) in self.w.modules:
                    return self.w.modules[o.name + '.' + name]
            except Exception:
                pass
            return ABSENT
        if isinstance(o, Unknown):
            return Unknown(o.tag + '.' + name)
        if isinstance(o, SuperObj):
            mro = o.obj.cls.mro if isinstance(o.obj, (AObj, ExcVal)) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, AClass) and name in c.ns:
                    m = c.ns[name]
                    if isinstance(o.obj, AClass):
                        return m.f if isinstance(m, StaticM) else Bound(m.f, o.obj) if isinstance(m, ClassM) else m
                    return self.bind_attr(m, o.obj, o.obj.cls)
            if name == '__init__':
                return ExtFunc('object.__init__', lambda it, a, k: self.base_init([o.obj] + list(a)))
            if name == '__eq__':
                return ExtFunc('object.__eq__', lambda it, a, k: o.obj is a[0])
            if name == '__setattr__':
                return ExtFunc('object.__setattr__', lambda it, a, k: self.raw_setattr(o.obj, *a))
            return ABSENT
        if isinstance(o, AFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return ''
            if name == '__module__':
                return o.module.name
            return ABSENT
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.getattr_or(o.func, name)
        if isinstance(o, ExcVal):
            if name == 'args':
                return tuple(o.args)
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if isinstance(o.cls, AClass):
                m = o.cls.lookup(name)
                if m is not None:
                    return self.bind_attr(m, o, o.cls)
            if name in ('filename', 'strerror', 'errno', '__traceback__', '__cause__', '__context__'):
                return Unknown('exc.' + name)
            if name in ('with_traceback',):
                return ExtFunc(name, lambda it, a, k: o)
            return ABSENT
        if isinstance(o, PropM):
            if name in ('setter', 'getter', 'deleter'):
                return ExtFunc(name, lambda it, a, k: PropM(a[0], o.fset) if name == 'getter' else
                               PropM(o.fget, a[0]) if name == 'setter' else o)
            if name == 'fget':
                return o.fget
            return ABSENT
        if isinstance(o, (ExcType,)):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__init__':
                return ExtFunc('__init__', lambda it, a, k: None)
            return ABSENT
        if type(o).__name__ == 'EnumStr':
            if name in ('value', '_value_'):
                return str(o)
            if name in ('name', '_name_'):
                return o.mname
            for c in o.cls.mro:
                if isinstance(c, AClass) and name in c.ns:
                    return self.bind_attr(c.ns[name], o, o.cls)
            return self.native_attr(o, name)
        if isinstance(o, TypeObj):
            if name in ('__name__', '__qualname__'):
                return o.name
            return o.attrs.get(name, ABSENT)
        if isinstance(o, ExtFunc):
            if name in ('__name__', '__qualname__'):
                return o.name
            v = getattr(o, 'attrs', {}).get(name, ABSENT)
            return v
        if isinstance(o, ModelObj):
            m = getattr(o, 'm_' + name, None)
            if m is not None:
                return ExtFunc(name, lambda it, a, k: m(it, *a, **k))
            a = getattr(o, 'a_' + name, None)
            if a is not None:
                return a(self) if callable(a) else a
            g = getattr(o, 'getattr_', None)
            if g is not None:
                return g(self, name)
            if name == '__class__':
                return self.typeof(o)
            return ABSENT
        return self.native_attr(o, name)

    def subclasses(self, c):
        out = []
        for m in self.w.modules.values():
            if isinstance(m, Module):
                for v in m.ns.values():
                    if isinstance(v, AClass) and c in v.bases and v not in out:
                        out.append(v)
        return out

    def base_init(self, a):
        if a and isinstance(a[0], ExcVal):
            a[0].args = list(a[1:])
        return None

    def setattr(self, o, name, v):
        if isinstance(o, Phi):
            self.dist(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, AObj):
            cv = o.cls.lookup(name)
            if isinstance(cv, PropM):
                if cv.fset is None:
                    self.throw(AttributeError, "property '%s' has no setter" % name)
                self.call(cv.fset, [o, v], {})
                return
            sa = o.cls.lookup('__setattr__')
            if sa is not None:
                self.call(Bound(sa, o), [name, v], {})
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, AClass):
            self.write(o)
            o.ns[name] = v
            self.w.global_writes.append((o.module.name + '.' + o.name, name, self.where()))
            return
        if isinstance(o, Module):
            self.touch(o.ns)
            o.ns[name] = v
            self.w.global_writes.append((o.name, name, self.where()))
            return
        if isinstance(o, AFunc):
            o.attrs[name] = v
            return
        if isinstance(o, ExcVal):
            o.attrs[name] = v
            return
        if isinstance(o, Unknown):
            return
        if isinstance(o, Arr):
            if name == 'shape':
                raise Gap("shape assignment")
            raise Gap("array attribute assignment")
        if isinstance(o, ModelObj):
            f = getattr(o, 'setattr_', None)
            if f is not None:
                f(self, name, v)
                return
            raise Gap("attribute assignment on %s" % self.typename(o))
        self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.typename(o), name))

    def raw_setattr(self, o, name, v):
        self.write(o)
        o.attrs[name] = v

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        if isinstance(o, Phi):
            return self.dist(o, lambda x: self.getitem(x, k))
        if isinstance(k, Phi):
            return self.dist(k, lambda x: self.getitem(o, x))
        if isinstance(o, Unknown):
            return Unknown(o.tag + '[]')
        if isinstance(k, Unknown):
            return Unknown('[unknown]')
        if isinstance(o, dict):
            k = self.hashable(k)
            if k not in o:
                if getattr(o, 'default_factory', None) is not None:
                    v = self.call(o.default_factory, [], {})
                    self.write(o)
                    o[k] = v
                    return v
                self.throw(KeyError, k)
            return o[k]
        if isinstance(o, (list, tuple, str, range, bytes)):
            if isinstance(k, slice):
                r = self.slice_range(k, len(o))
                if isinstance(o, str):
                    return "".join(o[i] for i in r)
                if isinstance(o, bytes):
                    return bytes(o[i] for i in r)
                out = [o[i] for i in r]
                return out if isinstance(o, (list, range)) else tuple(out)
            if isinstance(k, NBool) or (isinstance(k, Num) and k.kind != 'i'):
                self.throw(TypeError, "%s indices must be integers or slices, not %s"
                           % (self.typename(o), self.typename(k)))
            if isinstance(k, Num):
                if not k.is_const():
                    raise Gap("symbolic index")
                k = int(k.const())
            if not isinstance(k, int):
                self.throw(TypeError, "%s indices must be integers or slices, not %s"
                           % (self.typename(o), self.typename(k)))
            if k >= len(o) or k < -len(o):
                self.throw(IndexError, "%s index out of range" % self.typename(o))
            return o[k]
        if isinstance(o, Arr):
            return self.arr_get(o, k)
        if isinstance(o, AObj):
            m = o.cls.lookup('__getitem__')
            if m is not None:
                return self.call(Bound(m, o), [k], {})
        if getattr(o, 'enum', None) is not None and isinstance(o, AClass):
            m = o.ns['__members__']
            if k not in m:
                self.throw(KeyError, k)
            return m[k]
        if isinstance(o, (TypeObj, AClass)):
            return o
        f = getattr(o, 'op_getitem', None)
        if f is not None:
            return f(self, k)
        if isinstance(o, Num) and o.np:
            self.throw(IndexError, "invalid index to scalar variable.")
        self.throw(TypeError, "'%s' object is not subscriptable" % self.typename(o))

    def setitem(self, o, k, v):
        if isinstance(o, Phi):
            self.dist(o, lambda x: self.setitem(x, k, v))
            return
        if isinstance(k, Phi):
            self.dist(k, lambda x: self.setitem(o, x, v))
            return
        if isinstance(o, Unknown):
            return
        if isinstance(o, dict):
            k = self.hashable(k)
            self.write(o)
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(k, slice):
                items = list(self.iterate(v))
                r = self.slice_range(k, len(o))
                self.write(o)
                if k.step is None:
                    o[slice(r.start, max(r.start, r.stop))] = items
                else:
                    if len(items) != len(r):
                        self.throw(ValueError, "attempt to assign sequence of size %d to extended slice"
                                   % len(items))
                    for i, x in zip(r, items):
                        o[i] = x
                return
            if isinstance(k, Num) and k.kind == 'i' and k.is_const():
                k = int(k.const())
            if not isinstance(k, int):
                self.throw(TypeError, "list indices must be integers or slices, not %s" % self.typename(k))
            if k >= len(o) or k < -len(o):
                self.throw(IndexError, "list assignment index out of range")
            self.write(o)
            o[k] = v
            return
        if isinstance(o, Arr):
            self.arr_set(o, k, v)
            return
        if isinstance(o, AObj):
            m = o.cls.lookup('__setitem__')
            if m is not None:
                self.call(Bound(m, o), [k, v], {})
                return
        f = getattr(o, 'op_setitem', None)
        if f is not None:
            f(self, k, v)
            return
        self.throw(TypeError, "'%s' object does not support item assignment" % self.typename(o))

    def delitem(self, o, k):
        if isinstance(o, dict):
            k = self.hashable(k)
            if k not in o:
                self.throw(KeyError, k)
            self.write(o)
            del o[k]
        elif isinstance(o, list):
            if isinstance(k, slice):
                r = set(self.slice_range(k, len(o)))
                self.write(o)
                o[:] = [x for i, x in enumerate(o) if i not in r]
                return
            if k >= len(o) or k < -len(o):
                self.throw(IndexError, "list assignment index out of range")
            self.write(o)
            del o[k]
        elif hasattr(o, 'op_delitem'):
            o.op_delitem(self, k)
        elif isinstance(o, (Unknown, Phi)):
            raise Gap("del on unknown")
        else:
            self.throw(TypeError, "object doesn't support item deletion")

    # ------------------------------------------------------------ iteration
    def iterate(self, it):
        """list of items"""
        if isinstance(it, Phi):
            r = self.dist(it, lambda x: tuple(self.iterate(x)))
            if isinstance(r, Phi):
                raise Gap("iteration over gated value")
            return list(r)
        if isinstance(it, (list, tuple, range)):
            return list(it)
        if isinstance(it, str):
            return self.str_chars(it)
        if isinstance(it, bytes):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, DictView):
            return list(self.live_iter(it))
        if isinstance(it, ASet):
            return self.set_order(it)
        if isinstance(it, GenObj):
            r = it.items[it.pos:]
            self.touch(it)
            it.pos = len(it.items)
            return r
        if isinstance(it, Arr):
            if it.ndim == 0:
                self.throw(TypeError, "iteration over a 0-d array")
            return [self.arr_get(it, i) for i in range(it.shape[0])]
        if isinstance(it, AClass) and getattr(it, 'enum', None) is not None:
            return list(it.enum)
        if isinstance(it, Unknown):
            raise Gap("iteration over unknown %s" % it.tag)
        if isinstance(it, AObj):
            m = it.cls.lookup('__iter__')
            if m is not None:
                return self.iterate(self.call(Bound(m, it), [], {}))
            m = it.cls.lookup('__getitem__')
            if m is not None:
                out = []
                i = 0
                while True:
                    try:
                        out.append(self.call(Bound(m, it), [i], {}))
                    except AbsRaise as e:
                        if e.exc.isa(IndexError):
                            return out
                        raise
                    i += 1
        f = getattr(it, 'op_iter', None)
        if f is not None:
            return list(f(self))
        if hasattr(it, 'as_array'):
            return self.iterate(it.as_array(self))
        self.throw(TypeError, "'%s' object is not iterable" % self.typename(it))

    def str_chars(self, s):
        """characters; a number token is one unit that must not be taken apart"""
        from . import text
        if text.T0 in s:
            raise Gap("characterwise iteration over a formatted number")
        return list(s)


class Brk2(Brk):
    """leaving a while loop because its condition is false"""


class CmGen:
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


def is_notimpl(r):
    from .natives import NOTIMPL
    return r is NOTIMPL


def is_num_phi(p):
    if isinstance(p, Phi):
        return is_num_phi(p.a) and is_num_phi(p.b)
    return is_num(p)
