"""Path exploration: depth first, by re-execution, with solver-checked branches."""
import time

import z3


DEBUG = False
_SIMP = {}


def simp(e):
    """Memoised z3.simplify (the memo keeps the terms, so ids stay valid)."""
    k = e.get_id()
    r = _SIMP.get(k)
    if r is None:
        if len(_SIMP) > 200000:
            _SIMP.clear()
        s = z3.simplify(e)
        _SIMP[k] = (e, s)
        return s
    return r[1]


_ALT = {}
_VARS = {}


def _alternatives(c):
    """(x, [(value, x == value)]) if c is a disjunction of such."""
    k = c.get_id()
    r = _ALT.get(k)
    if r is not None:
        return r[0]
    out = None
    if z3.is_or(c):
        var, vals = None, []
        for e in c.children():
            if not z3.is_eq(e):
                break
            x, v = e.arg(0), e.arg(1)
            if not is_value(v):
                x, v = v, x
            if not is_value(v) or x.num_args() or \
                    x.decl().kind() != z3.Z3_OP_UNINTERPRETED or \
                    (var is not None and not var.eq(x)):
                break
            var = x
            vals.append((v, e))
        else:
            out = (var, vals)
    if len(_ALT) > 100000:
        _ALT.clear()
    _ALT[k] = (out, c)
    return out


def vars_of(p):
    """{ast id: variable} of a term."""
    k = p.get_id()
    r = _VARS.get(k)
    if r is None:
        todo, seen, out = [p], set(), {}
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[i] = e
            else:
                todo.extend(e.children())
        if len(_VARS) > 200000:
            _VARS.clear()
        r = _VARS[k] = (out, p)
    return r[0]


def _default(v):
    """Any value of the sort of variable ``v``."""
    so = v.sort()
    if so == z3.BoolSort():
        return z3.BoolVal(False)
    if so == z3.IntSort():
        return z3.IntVal(0)
    if so == z3.StringSort():
        return z3.StringVal('')
    m = z3.Solver()
    m.check()
    return m.model().eval(v, model_completion=True)


class Model(object):
    """Values of variables, put together from independent parts."""

    def __init__(self):
        self.values = {}         # ast id -> (variable, value)

    def eval(self, e, model_completion=True):
        pairs = []
        for i, v in vars_of(e).items():
            x = self.values.get(i)
            if x is None:
                x = self.values[i] = (v, _default(v))
            pairs.append(x)
        return z3.simplify(z3.substitute(e, *pairs)) if pairs else simp(e)


_RS = z3.ReSort(z3.StringSort())
_REG = {}


def _regular(c):
    """(regex, harder than equality) equivalent to the one-variable string
    condition ``c``, or None."""
    k = c.get_id()
    r = _REG.get(k)
    if r is None:
        if len(_REG) > 100000:
            _REG.clear()
        r = _REG[k] = (_regular1(c), c)
    return r[0]


def _regular1(c):
    kind = c.decl().kind()
    if kind == z3.Z3_OP_NOT:
        r = _regular(c.arg(0))
        return r and (z3.Complement(r[0]), r[1])
    if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        rs = [_regular(x) for x in c.children()]
        if not rs or None in rs:
            return None
        f = z3.Intersect if kind == z3.Z3_OP_AND else z3.Union
        return (f(*[x for x, _ in rs]) if len(rs) > 1 else rs[0][0],
                any(h for _, h in rs))
    if kind == z3.Z3_OP_EQ:
        a, d = c.arg(0), c.arg(1)
        if z3.is_string_value(a):
            a, d = d, a
        if z3.is_string_value(d) and a.num_args() == 0:
            return z3.Re(d), False
        return None
    if kind == z3.Z3_OP_SEQ_IN_RE and c.arg(0).num_args() == 0:
        return c.arg(1), True
    if kind == z3.Z3_OP_SEQ_PREFIX and z3.is_string_value(c.arg(0)) and \
            c.arg(1).num_args() == 0:
        return z3.Concat(z3.Re(c.arg(0)), z3.Full(_RS)), True
    if kind == z3.Z3_OP_SEQ_SUFFIX and z3.is_string_value(c.arg(0)) and \
            c.arg(1).num_args() == 0:
        return z3.Concat(z3.Full(_RS), z3.Re(c.arg(0))), True
    if kind == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(c.arg(1)) and \
            c.arg(0).num_args() == 0:
        return z3.Concat(z3.Full(_RS), z3.Re(c.arg(1)), z3.Full(_RS)), True
    return None


def combine(cs):
    """Conjuncts about one string variable as one regular expression: the
    solver decides one membership far faster than many."""
    groups, out = {}, []
    for c in cs:
        vs = vars_of(c)
        r = None
        if len(vs) == 1:
            (i, v), = vs.items()
            if v.sort() == z3.StringSort():
                r = _regular(c)
        if r is None:
            out.append(c)
        else:
            groups.setdefault(i, (v, [], []))
            groups[i][1].append(c)
            groups[i][2].append(r)
    for v, conds, rs in groups.values():
        if len(rs) > 1 and any(h for _, h in rs):
            out.append(z3.InRe(v, z3.Intersect(*[x for x, _ in rs])))
        else:
            out += conds
    return out


class ControlFlow(BaseException):
    """Engine-internal: must pass through ``except Exception`` in the code."""


class PathPruned(ControlFlow):
    """An assumption is infeasible on this path."""


class PathTruncated(ControlFlow):
    """A bound of the exploration was hit: the path is not fully covered."""


class Unsupported(ControlFlow):
    """The engine cannot interpret an operation symbolically."""


class Inconclusive(ControlFlow):
    """The solver answered unknown / the exploration is not deterministic."""


class BudgetExceeded(ControlFlow):
    pass


#: Engine active in this process (None in concrete mode)
CURRENT = None

#: each query goes to the first, and to the next if the answer is unknown
SOLVERS = ((z3.SimpleSolver, 3000, True), (z3.SimpleSolver, 10000, False),
           (z3.Solver, 60000, True))
CONCRETISE_LIMIT = 80
BRANCH_LIMIT = 4000


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.truncated = 0
        self.branches = 0        # symbolic branch points visited (new nodes)
        self.transitions = 0     # decisions taken (tree edges, new)
        self.queries = 0         # solver calls (feasibility + property)
        self.assertions = 0      # property queries discharged (unsat)
        self.trivial = 0         # property instances true by simplification
        self.solver_s = 0.0
        self.concretised = 0

    def add(self, other):
        for k, v in other.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class PathResult(object):
    __slots__ = ('status', 'inputs', 'observations', 'reached', 'violations',
                 'detail', 'trace_len')

    def __init__(self):
        self.status = 'ok'
        self.inputs = None
        self.observations = []
        self.reached = []
        self.violations = []
        self.detail = None
        self.trace_len = 0


class Engine(object):
    """Explores all feasible paths of ``fn(engine)``."""

    def __init__(self, deadline=None):
        self.solved = {}
        self.stats = Stats()
        self.deadline = deadline
        self.pending = []
        self.tokens = {}         # ast id -> index
        self.narrowed = {}
        self.token_exprs = []    # index -> z3 expression (keeps it alive)

    # -- tokens: placeholder text that stands for a symbolic string --------
    def token_for(self, expr):
        key = expr.get_id()
        idx = self.tokens.get(key)
        if idx is None:
            idx = len(self.token_exprs)
            self.token_exprs.append(expr)
            self.tokens[key] = idx
        return idx

    def fresh_str(self):
        """A new string variable (same name on every run of this path)."""
        self.nfresh += 1
        return z3.String('!%d' % self.nfresh)

    def fresh_char(self):
        self.nfresh += 1
        return z3.Const('!c%d' % self.nfresh, z3.CharSort())

    # -- one of many constants ----------------------------------------------
    def _narrow(self, c):
        """Drop the alternatives of ``x == c1 or x == c2 ...`` that the path
        condition refutes by substitution and simplification alone (string
        solvers are slow at refuting long disjunctions of literals)."""
        alts = _alternatives(c)
        if alts is None or len(alts[1]) < 3:
            return c
        var, vals = alts
        rel = [p for p in self.pc if var.get_id() in vars_of(p)]
        key = (c.get_id(), tuple(p.get_id() for p in rel))
        hit = self.narrowed.get(key)
        if hit is not None:
            return hit[0]
        left = []
        for v, eq in vals:
            for p in rel:
                if z3.is_false(z3.simplify(z3.substitute(p, (var, v)))):
                    break
            else:
                left.append(eq)
        r = c if len(left) == len(vals) else (
            z3.BoolVal(False) if not left else
            left[0] if len(left) == 1 else z3.Or(left))
        self.narrowed[key] = (r, c, rel)
        return r

    # -- solver ------------------------------------------------------------
    def _slice(self, c):
        """The part of the path condition that shares variables with ``c``,
        directly or through other parts."""
        want = set(vars_of(c))
        rest = [(p, vars_of(p)) for p in self.pc]
        out, grown = [], True
        while grown:
            grown = False
            left = []
            for p, v in rest:
                if want.isdisjoint(v):
                    left.append((p, v))
                else:
                    out.append(p)
                    want.update(v)
                    grown = True
            rest = left
        return out

    def _solve(self, cs):
        """Satisfiability of the conjunction ``cs``, remembered: None or
        [(variable, value)]."""
        key = frozenset(c.get_id() for c in cs)
        hit = self.solved.get(key)
        if hit is not None:
            return hit[0]
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t0 = time.time()
        for make, limit, combined in SOLVERS:
            s = make()
            s.set('timeout', limit)
            s.add(*(combine(cs) if combined else cs))
            self.stats.queries += 1
            r = s.check()
            out = None
            if r == z3.sat:
                m, vs = s.model(), {}
                for c in cs:
                    vs.update(vars_of(c))
                out = [(v, m.eval(v, model_completion=True))
                       for v in vs.values()]
                bad = [c for c in cs if z3.is_false(
                    z3.simplify(z3.substitute(c, *out)))]
                if bad:
                    if DEBUG: print('BAD MODEL', cs, out, bad)
                    r = z3.unknown
            if r != z3.unknown:
                break
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            raise Inconclusive('solver answered unknown: %s'
                               % s.reason_unknown())
        if len(self.solved) > 100000:
            self.solved.clear()
        self.solved[key] = (out, cs)
        return out

    def _given(self, c):
        """``c`` with what the path condition says outright put in."""
        vs = vars_of(c)
        pairs = []
        todo = [p for p in self.pc if not vs.keys().isdisjoint(vars_of(p))]
        while todo:
            p = todo.pop()
            k = p.decl().kind()
            if k == z3.Z3_OP_AND:
                todo.extend(p.children())
            elif k == z3.Z3_OP_NOT:
                q = p.arg(0)
                if q.decl().kind() == z3.Z3_OP_OR:
                    todo.extend(z3.Not(x) for x in q.children())
                else:
                    pairs.append((q, z3.BoolVal(False)))
            else:
                pairs.append((p, z3.BoolVal(True)))
                if k == z3.Z3_OP_EQ:
                    a, d = p.arg(0), p.arg(1)
                    if is_value(a):
                        a, d = d, a
                    if is_value(d) and a.num_args() == 0:
                        pairs.append((a, d))
        return simp(z3.substitute(c, *pairs)) if pairs else c

    def _check(self, c):
        """Can ``c`` hold on this path?  A function making the model, or
        None."""
        c = self._narrow(c)
        if z3.is_false(c):
            return None
        c = self._given(c)
        if z3.is_false(c):
            return None
        cs = self._slice(c)
        part = self._solve(cs + [c])
        if part is None:
            return None

        def model():
            inside = set(p.get_id() for p in cs)
            m = self._model([p for p in self.pc if p.get_id() not in inside])
            for v, x in part:
                m.values[v.get_id()] = (v, x)
            return m
        return model

    def _model(self, pc):
        m = Model()
        rest = list(pc)
        while rest:
            want = set(vars_of(rest[0]))
            part, grown = [rest[0]], True
            rest = rest[1:]
            while grown:
                grown = False
                left = []
                for p in rest:
                    v = vars_of(p)
                    if want.isdisjoint(v):
                        left.append(p)
                    else:
                        part.append(p)
                        want.update(v)
                        grown = True
                rest = left
            r = self._solve(part)
            if r is None:
                raise PathPruned()
            for v, x in r:
                m.values[v.get_id()] = (v, x)
        return m

    def _add(self, c):
        self.pc.append(self._narrow(c))

    def get_model(self):
        if self.model is None:
            self.model = self._model(self.pc)
        return self.model

    def _abort_if_poisoned(self):
        if self.poison is not None:
            raise self.poison

    def assume(self, c):
        self._abort_if_poisoned()
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self._raise(PathPruned())
        self._add(c)
        if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)):
            self.model = None
        if self.model is None and len(self.trace) >= len(self.prefix):
            try:
                self.get_model()
            except PathPruned as e:
                self._raise(e)

    def _raise(self, e):
        self.poison = e
        raise e

    def branch(self, c):
        """Decide the truth of z3 condition ``c`` on this path."""
        self._abort_if_poisoned()
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if len(self.trace) > BRANCH_LIMIT:
            self._raise(PathTruncated('branch limit'))
        pos = len(self.trace)
        h = c.hash()
        if pos < len(self.prefix):
            kind, ph, val = self.prefix[pos]
            if kind != 'b':
                self._raise(Inconclusive('non-deterministic re-execution'))
            self.trace.append(('b', h, val))
            self._add(c if val else z3.Not(c))
            self.model = None
            return val
        try:
            m = self.get_model()
            val = z3.is_true(m.eval(c, model_completion=True))
            self.stats.branches += 1
            r = self._check(z3.Not(c) if val else c)
        except ControlFlow as e:
            self._raise(e)
        self.stats.transitions += 1
        if r is not None:
            self.stats.transitions += 1
            self.pending.append(self.trace + [('b', h, not val)])
        self.trace.append(('b', h, val))
        self._add(c if val else z3.Not(c))
        return val

    def concretise(self, expr, limit=CONCRETISE_LIMIT):
        """Case split on the value of ``expr`` until it is a constant."""
        self._abort_if_poisoned()
        expr = simp(expr)
        if z3.is_true(expr) or z3.is_false(expr) or is_value(expr):
            return expr
        for _ in range(limit):
            pos = len(self.trace)
            if pos < len(self.prefix):
                kind, pv, val = self.prefix[pos]
                if kind != 'v':
                    self._raise(Inconclusive('non-deterministic re-execution'))
                self.trace.append(('v', pv, val))
                self.model = None
                v = from_py(pv, expr)
            else:
                try:
                    v = simp(
                        self.get_model().eval(expr, model_completion=True))
                    pv = to_py(v)
                    self.stats.branches += 1
                    r = self._check(expr != v)
                except ControlFlow as e:
                    self._raise(e)
                self.stats.transitions += 1
                if r is not None:
                    self.stats.transitions += 1
                    self.pending.append(self.trace + [('v', pv, False)])
                val = True
                self.trace.append(('v', pv, True))
            self._add((expr == v) if val else (expr != v))
            if val:
                return v
        self.stats.concretised += 1
        self._raise(PathTruncated('more than %d values to case split on'
                                  % limit))

    def prove(self, c):
        """None if c holds on every value of this path, else a model."""
        self._abort_if_poisoned()
        c = simp(c)
        if z3.is_true(c):
            self.stats.trivial += 1
            return None
        try:
            r = self._check(simp(z3.Not(c)))
            if r is None:
                self.stats.assertions += 1
                return None
            return r()
        except ControlFlow as e:
            self._raise(e)

    # -- exploration -------------------------------------------------------
    def run_path(self, prefix, fn):
        global CURRENT
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.nfresh = 0
        self.model = None
        self.poison = None
        res = PathResult()
        CURRENT = self
        try:
            fn(self, res)
            if self.poison is not None:
                raise self.poison
        except PathPruned:
            res.status = 'pruned'
        except PathTruncated as e:
            res.status = 'truncated'
            res.detail = str(e)
        except (Unsupported, Inconclusive) as e:
            res.status = 'inconclusive'
            res.detail = '%s: %s' % (type(e).__name__, e)
        finally:
            CURRENT = None
        res.trace_len = len(self.trace)
        self.stats.paths += 1
        if res.status == 'pruned':
            self.stats.pruned += 1
        elif res.status == 'truncated':
            self.stats.truncated += 1
        return res


def is_value(e):
    return (z3.is_int_value(e) or z3.is_string_value(e) or z3.is_fp_value(e)
            or z3.is_bv_value(e) or z3.is_rational_value(e))


def to_py(v):
    if z3.is_fp(v):
        from .values import fp_to_py
        return ('fp', fp_to_py(v).hex())
    from .values import val_to_py
    return val_to_py(v)


def from_py(p, like):
    if isinstance(p, tuple):
        return z3.FPVal(float.fromhex(p[1]), like.sort())
    if isinstance(p, bool):
        return z3.BoolVal(p)
    if isinstance(p, int):
        return z3.IntVal(p)
    from .values import zstr
    return zstr(p)
