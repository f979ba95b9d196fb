"""Symbolic execution of Python code: the real functions run on symbolic integers (Z3); a branch on a symbolic
condition asks the solver which outcomes are feasible and the code is re-executed for every feasible outcome."""
import time, z3


class Stop(Exception):
    pass


class Violation(Exception):
    pass


def unmodelled(ex):
    return isinstance(ex, (AttributeError, ImportError)) and any(x in str(ex) for x in ("SimpleNamespace", "module 'wicked'", "from 'wicked'", "'Ix'", "'Te'", "'SInt'", "'SBool'", "'Sum'"))


class Engine:
    def __init__(self, seconds):
        self.solver = z3.Solver(); self.solver.set('rlimit', 20000000)
        self.queries = self.paths = self.asserts = self.sat = self.unsat = 0; self.ztime = 0.0
        self.deadline = time.time() + seconds; self.incomplete = False; self.unknown = 0
        self.reach = {}; self.violations = []; self.witnesses = []

    def check(self, *extra):
        self.queries += 1; t = time.time(); r = self.solver.check(*extra); self.ztime += time.time() - t
        if r == z3.sat: self.sat += 1
        elif r == z3.unsat: self.unsat += 1
        if r == z3.unknown: self.unknown += 1
        return r

    # --- one path
    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            t = self.check(cond) != z3.unsat; f = self.check(z3.Not(cond)) != z3.unsat
            if not t and not f: raise Stop()
            v = t
            if t and f: self.todo.append(self.prefix[:self.pos] + [False])
            self.prefix.append(v)
        self.pos += 1
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def var(self, name, lo, hi):
        x = z3.Int(name); self.vars[name] = x; self.solver.add(x >= lo, x <= hi)
        return SInt(self, x)

    def conc(self, e):  # one path per feasible value
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        if e.get_id() in self.known: return self.known[e.get_id()][1]
        ent = self.prefix[self.pos] if self.pos < len(self.prefix) else ('ne', [])
        if isinstance(ent, tuple):
            for v in ent[1]: self.solver.add(e != v)
            if self.check() != z3.sat: raise Stop()
            v = self.solver.model().eval(e, True).as_long()
            self.todo.append(self.prefix[:self.pos] + [('ne', ent[1] + [v])])
            self.prefix[self.pos:] = [v]; ent = v
        self.solver.add(e == ent); self.pos += 1; self.known[e.get_id()] = (e, ent)
        return ent

    def assume(self, cond):
        self.solver.add(cond)
        if self.check() == z3.unsat: raise Stop()

    def pick(self, name, lo, hi):
        return self.conc(self.var(name, lo, hi).e)

    def claim(self, cond, msg):
        self.asserts += 1
        if isinstance(cond, SBool): cond = cond.e
        if cond is True: return
        if cond is False: cond = z3.BoolVal(False)
        if self.check(z3.Not(cond)) == z3.unsat: return
        m = self.solver.model() if self.check(z3.Not(cond)) == z3.sat else None
        if m is None: self.unknown += 1; return
        self.violations.append((msg, self.model(m)))
        raise Stop()

    def model(self, m=None):
        m = m or self.solver.model()
        return {k: m.eval(v, True).as_long() for k, v in self.vars.items()}

    def witness(self):
        if self.check() == z3.sat: self.witnesses.append(self.model())

    def reached(self, label):
        self.reach[label] = self.reach.get(label, 0) + 1

    def run(self, body):
        self.todo = [[]]
        while self.todo:
            if time.time() > self.deadline: self.incomplete = True; return
            self.prefix = self.todo.pop(); self.pos = 0; self.vars = {}; self.known = {}
            self.solver.push()
            try:
                body(self); self.paths += 1
                if self.paths <= 8 or self.paths % 50 == 0 and len(self.witnesses) < 40: self.witness()
            except Stop:
                pass
            except Exception as ex:
                if unmodelled(ex): raise  # something the stubs do not have
                if self.check() == z3.sat: self.violations.append(('raised %s: %s' % (type(ex).__name__, ex), self.model()))
            finally:
                self.solver.pop()


def lift(e, x):
    return x.e if isinstance(x, SInt) else z3.IntVal(int(x))


class SBool:
    def __init__(self, g, e): self.g = g; self.e = e
    def __bool__(self): return self.g.fork(self.e)
    def __and__(self, o): return SBool(self.g, z3.And(self.e, o.e if isinstance(o, SBool) else z3.BoolVal(bool(o))))
    def __or__(self, o): return SBool(self.g, z3.Or(self.e, o.e if isinstance(o, SBool) else z3.BoolVal(bool(o))))
    __rand__ = __and__; __ror__ = __or__
    def __invert__(self): return SBool(self.g, z3.Not(self.e))
    def __eq__(self, o): return bool(self) == bool(o)
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    __index__ = __int__


class SInt:
    def __init__(self, g, e): self.g = g; self.e = e
    def _o(f):
        def op(self, o):
            if not isinstance(o, (int, SInt, SBool)): return NotImplemented
            r = f(self.e, lift(self.g, o if not isinstance(o, SBool) else int(o)))
            return SBool(self.g, r) if z3.is_bool(r) else SInt(self.g, r)
        return op
    __lt__ = _o(lambda a, b: a < b); __le__ = _o(lambda a, b: a <= b); __gt__ = _o(lambda a, b: a > b); __ge__ = _o(lambda a, b: a >= b)
    __add__ = _o(lambda a, b: a + b); __sub__ = _o(lambda a, b: a - b); __mul__ = _o(lambda a, b: a * b)
    __radd__ = _o(lambda a, b: b + a); __rsub__ = _o(lambda a, b: b - a); __rmul__ = _o(lambda a, b: b * a)
    __eq__ = _o(lambda a, b: a == b); __ne__ = _o(lambda a, b: a != b)
    def __neg__(self): return SInt(self.g, -self.e)
    def __bool__(self): return self.g.fork(self.e != 0)
    def __int__(self): return self.g.conc(self.e)
    __index__ = __int__
    def __hash__(self): return hash(int(self))
    def __str__(self): return str(int(self))
    __repr__ = __str__
    def __format__(self, s): return format(int(self), s)
    def __floordiv__(self, o): return int(self) // int(o)
    def __mod__(self, o): return int(self) % int(o)
    def __float__(self): return float(int(self))


class Concrete:
    """Replay: the same harness on the values of a counterexample, without the solver."""
    def __init__(self, model): self.model = model; self.failed = None; self.reach = {}
    def var(self, name, lo, hi): return self.model.get(name, lo)
    def pick(self, name, lo, hi): return self.model.get(name, lo)
    def assume(self, c): pass
    def fork(self, c): return c
    def claim(self, cond, msg):
        if not cond: self.failed = msg; raise Stop()
    def reached(self, label): self.reach[label] = 1
