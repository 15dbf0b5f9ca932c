"""Control-flow joins of the abstract interpreter.

Undecided tests are analysed on both sides from the same state and the two states are joined
with gated values (Phi).  A side that leaves (return, raise, break, continue) is kept as an
*exit* of the innermost enclosing target (function, try, loop body) and joined there.  The
state is one mutable store plus an undo log that is only active while a join is pending.
"""
from . import nf as NFM
from .values import *


class Signal(Exception):
    """non-local control flow"""


class Ret(Signal):
    def __init__(self, v):
        self.v = v


class Brk(Signal):
    pass


class Cont(Signal):
    pass


class Dead(Exception):
    """no continuing state; all exits were saved"""


SIGNALS = (Signal, AbsRaise)


def get_state(o):
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, list):
        return list(o)
    if isinstance(o, Buf):
        return list(o.data)
    if isinstance(o, AObj):
        return dict(o.attrs)
    if isinstance(o, ASet):
        return list(o.items)
    if isinstance(o, AClass):
        return dict(o.ns)
    if isinstance(o, Arr):
        return [o.shape, o.dtype, list(o.idx), o.buf]
    if isinstance(o, bytearray):
        return bytes(o)
    return dict(o.__dict__)


def set_state(o, s):
    if isinstance(o, dict):
        o.clear()
        o.update(s)
    elif isinstance(o, list):
        o[:] = s
    elif isinstance(o, Buf):
        o.data[:] = s
    elif isinstance(o, AObj):
        o.attrs = dict(s)
    elif isinstance(o, ASet):
        o.items = list(s)
    elif isinstance(o, AClass):
        o.ns = dict(s)
    elif isinstance(o, Arr):
        o.shape, o.dtype, o.idx, o.buf = s
    else:
        o.__dict__.clear()
        o.__dict__.update(s)


def cnot(c):
    if c.t[0] == 'not':
        return c.t[1]
    if c.t[0] == 'cmp':
        inv = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
        return Cond('cmp', inv[c.t[1]], c.t[2], c.t[3])
    return Cond('not', c)


def cand(a, b):
    return Cond('and', a, b)


def cor(a, b):
    return Cond('or', a, b)


class Exit:
    __slots__ = ('guards', 'sig', 'diff')

    def __init__(self, guards, sig, diff):
        self.guards = guards
        self.sig = sig
        self.diff = diff


class Target:
    __slots__ = ('base', 'exits', 'ng', 'nf', 'was_active')


class Flow:
    """mixin: joins"""

    def flow_init(self):
        self.log = []
        self.log_at = {}
        self.active = False
        self.curmark = 0
        self.targets = []
        self.guards = []
        self.njoins = 0
        self.joindepth = 0
        self.forced = {}        # number of an undecided test -> side taken (partition of the entry context)
        self.path = []          # [condition assumed for the whole context, first order fact of it]
        self.nforks = 0
        self.forks = {}         # number -> condition

    # ---- undo log
    def touch(self, o):
        if not self.active:
            return
        k = id(o)
        p = self.log_at.get(k)
        if p is not None and self.curmark <= p < len(self.log) and self.log[p][0] is o:
            return
        self.log_at[k] = len(self.log)
        self.log.append((o, get_state(o)))

    def changes(self, p):
        d = {}
        for o, _ in self.log[p:]:
            if id(o) not in d:
                d[id(o)] = (o, get_state(o))
        return d

    def rollback(self, p):
        for o, s in reversed(self.log[p:]):
            set_state(o, s)
        del self.log[p:]

    def apply(self, diff):
        for o, s in diff.values():
            self.touch(o)
            set_state(o, s)

    # ---- conditions
    def decide(self, c):
        """True / False / None"""
        if any(g.t == c.t for g in self.guards):
            return True
        if self.path:
            if any(g.t == c.t for g, _ in self.path):
                return True
            n = cnot(c)
            if any(g.t == n.t for g, _ in self.path):
                return False
        k = c.t[0]
        if k == 'cmp':
            _, op, a, b = c.t
            poss = self.w.order.query(a, b)
            sat = {'<': {'<'}, '<=': {'<', '='}, '>': {'>'}, '>=': {'>', '='},
                   '==': {'='}, '!=': {'<', '>'}}[op]
            if poss <= sat:
                return True
            if not (poss & sat):
                return False
            return None
        if k == 'not':
            r = self.decide(c.t[1])
            return None if r is None else not r
        if k in ('and', 'or'):
            x, y = self.decide(c.t[1]), self.decide(c.t[2])
            if k == 'and':
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        n = cnot(c)
        if any(g.t == n.t for g in self.guards):
            return False
        return None

    def assume(self, c):
        self.guards.append(c)
        self._assume(c)

    def _assume(self, c):
        k = c.t[0]
        if k == 'cmp':
            _, op, a, b = c.t
            self.w.order.add(a, {'==': '='}.get(op, op), b)
        elif k == 'and':
            self._assume(c.t[1])
            self._assume(c.t[2])
        elif k == 'or':
            if self.decide(c.t[1]) is False:
                self._assume(c.t[2])
            elif self.decide(c.t[2]) is False:
                self._assume(c.t[1])
        elif k == 'not':
            d = c.t[1]
            if d.t[0] == 'or':
                self._assume(cnot(d.t[1]))
                self._assume(cnot(d.t[2]))
            elif d.t[0] == 'and':
                if self.decide(d.t[1]) is True:
                    self._assume(cnot(d.t[2]))
                elif self.decide(d.t[2]) is True:
                    self._assume(cnot(d.t[1]))

    def drop_assumptions(self, ng, nfacts):
        del self.guards[ng:]
        self.w.order.truncate(nfacts)
        for p in self.path:
            if p[1] >= nfacts:
                p[1] = self.w.order.size()
                self._assume(p[0])

    # ---- joins
    def mergeval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if a.kind == b.kind and a.np == b.np and a.special == b.special and \
                    (a.special or NFM.equal(a.nf, b.nf)):
                return a
        elif type(a) is type(b) and isinstance(a, (str, int, bool, float, bytes)) and a == b:
            return a
        elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergeval(c, x, y) for x, y in zip(a, b))
        elif isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ is b.self_:
            return a
        return Phi(c, a, b)

    def mergestate(self, c, o, s1, s2):
        if isinstance(s1, dict):
            out = {}
            for k in list(s1) + [k for k in s2 if k not in s1]:
                out[k] = self.mergeval(c, s1.get(k, ABSENT), s2.get(k, ABSENT))
            if isinstance(o, dict) and any(isinstance(v, Phi) and (v.a is ABSENT or v.b is ABSENT)
                                           for v in out.values()) and not getattr(o, 'is_env', False):
                raise Gap("join of dictionaries with different keys")
            return out
        if len(s1) != len(s2):
            raise Gap("join of containers of different length")
        return [self.mergeval(c, x, y) for x, y in zip(s1, s2)]

    def join(self, alts):
        """alts: [(cond, diff, value)] on the current (base) state; last cond ignored"""
        objs = {}
        for _, d, _ in alts:
            for k, (o, _) in d.items():
                objs[k] = o
        finals = {}
        for k, o in objs.items():
            base = get_state(o)
            cur = alts[-1][1][k][1] if k in alts[-1][1] else base
            for c, d, _ in reversed(alts[:-1]):
                cur = self.mergestate(c, o, d[k][1] if k in d else base, cur)
            finals[k] = cur
        for k, o in objs.items():
            self.touch(o)
            set_state(o, finals[k])
        v = alts[-1][2]
        for c, _, x in reversed(alts[:-1]):
            v = self.mergeval(c, x, v)
        return v

    def branch(self, cond, fa, fb):
        d = self.decide(cond)
        if d is True:
            return fa()
        if d is False:
            return fb()
        number = self.nforks
        self.nforks += 1
        if number in self.forced:
            side = self.forced[number]
            c = cond if side else cnot(cond)
            self.path.append([c, self.w.order.size()])
            self._assume(c)
            return fa() if side else fb()
        if not cond.opaque():
            self.forks[number] = cond
        self.njoins += 1
        if self.njoins > self.w.max_joins or self.joindepth > self.w.max_join_depth:
            raise Gap("too many undecided tests (at %s)" % self.where())
        was = self.active
        self.active = True
        pos = len(self.log)
        self.curmark = pos
        res = []
        self.joindepth += 1
        try:
            for c, f in ((cond, fa), (cnot(cond), fb)):
                ng, nfacts = len(self.guards), self.w.order.size()
                self.assume(c)
                nt = len(self.targets)
                st = self.save_stack()
                try:
                    res.append(('n', f(), self.changes(pos), c, list(self.guards[ng:])))
                except SIGNALS as s:
                    self.restore_stack(st)
                    res.append(('s', s, self.changes(pos), c, list(self.guards[ng:])))
                except Dead:
                    self.restore_stack(st)
                    res.append(('d', None, None, c, None))
                assert len(self.targets) == nt
                self.rollback(pos)
                self.curmark = pos
                self.drop_assumptions(ng, nfacts)
        finally:
            self.joindepth -= 1
        for r in res:
            if r[0] == 's':
                self.save_exit(r[4], r[1], r[2])
        norm = [r for r in res if r[0] == 'n']
        if not norm:
            raise Dead()
        if len(norm) == 1:
            self.apply(norm[0][2])
            self.assume(norm[0][3])
            return norm[0][1]
        try:
            v = self.join([(norm[0][3], norm[0][2], norm[0][1]),
                           (norm[1][3], norm[1][2], norm[1][1])])
        except Gap as e:
            e.fork = getattr(e, 'fork', number)
            raise
        if not was and not any(t.exits for t in self.targets):
            self.active = False
            self.log.clear()
            self.log_at.clear()
        return v

    def save_exit(self, extra, sig, diff):
        t = self.targets[-1]
        full = self.changes(t.base)
        full.update(diff)
        t.exits.append(Exit(self.guards[t.ng:] + list(extra), sig, full))

    def open_target(self):
        t = Target()
        t.base = len(self.log)
        t.was_active = self.active
        t.exits = []
        t.ng = len(self.guards)
        t.nf = self.w.order.size()
        self.curmark = t.base
        self.targets.append(t)
        return t

    def close_target(self, t, value, sig, dead):
        """returns list of alternatives (guards, sig|None, diff, value); state = base"""
        assert self.targets[-1] is t
        self.targets.pop()
        alts = [(e.guards, e.sig, e.diff, None) for e in t.exits]
        if not dead:
            alts.append((self.guards[t.ng:], sig, self.changes(t.base), value))
        self.rollback(t.base)
        self.curmark = t.base
        self.drop_assumptions(t.ng, t.nf)
        return alts

    def guard_cond(self, guards):
        c = None
        for g in guards:
            c = g if c is None else cand(c, g)
        return c if c is not None else Cond('opaque', 'always')

    def resume(self, t, alts):
        """join the alternatives: normal ones are merged, the others become exits of the
        enclosing target; returns the merged value"""
        norm = [a for a in alts if a[1] is None]
        sigs = [a for a in alts if a[1] is not None]
        if not norm and len(sigs) == 1:
            self.apply(sigs[0][2])
            for g in sigs[0][0]:
                self.assume(g)
            raise sigs[0][1]
        for g, s, d, _ in sigs:
            self.save_exit(g, s, d)
        if not norm:
            raise Dead()
        if len(norm) == 1:
            self.apply(norm[0][2])
            for g in norm[0][0]:
                self.assume(g)
            v = norm[0][3]
        else:
            v = self.join([(self.guard_cond(g), d, x) for g, _, d, x in norm])
        if not t.was_active and not sigs and not any(x.exits for x in self.targets):
            self.active = False
            self.log.clear()
            self.log_at.clear()
        return v

    def dist(self, v, f):
        """apply f to the alternatives of a gated value"""
        if isinstance(v, Phi):
            return self.branch(v.cond, lambda: self.dist(v.a, f), lambda: self.dist(v.b, f))
        if v is ABSENT:
            self.throw(NameError, "variable or key not set on this path")
        return f(v)
