"""A stand-in for gurobipy: records the program that is posed; the "solution" is what the test prescribes.

Covers Model, variables, linear and quadratic expressions, constraints in the (expr, sense, rhs) and the comparison
form.  A program is kept as polynomials of degree two in the variables, so how it is built up does not matter.
"""
import numbers
import types


class Expr(object):
    __array_ufunc__ = None

    def __init__(self, arg1=0.0, arg2=None):
        self.t = {}
        if isinstance(arg1, (list, tuple)):
            for c, v in zip(arg1, arg2):
                self._acc(v._poly(), float(c))
        elif isinstance(arg1, Expr):
            self._acc(arg1._poly(), 1.0 if arg2 is None else float(arg2))
        else:
            self._acc({(): float(arg1)}, 1.0)

    def _poly(self):
        return self.t

    def _acc(self, t, c):
        for k, v in t.items():
            self.t[k] = self.t.get(k, 0.0) + c * v

    def _lift(self, o):
        if isinstance(o, Expr):
            return o._poly()
        return {(): float(o)}

    def copy(self):
        e = QuadExpr()
        e._acc(self._poly(), 1.0)
        return e

    def _lin(self, o, a, b):
        e = QuadExpr()
        e._acc(self._poly(), a)
        e._acc(self._lift(o), b)
        return e

    def __add__(self, o):
        return self._lin(o, 1.0, 1.0)
    __radd__ = __add__

    def __iadd__(self, o):
        if isinstance(self, Var):
            return self + o
        self._acc(dict(self._lift(o)), 1.0)
        return self

    def __isub__(self, o):
        if isinstance(self, Var):
            return self - o
        self._acc(dict(self._lift(o)), -1.0)
        return self

    def __sub__(self, o):
        return self._lin(o, 1.0, -1.0)

    def __rsub__(self, o):
        return self._lin(o, -1.0, 1.0)

    def __neg__(self):
        return self * -1.0

    def __mul__(self, o):
        e = QuadExpr()
        for k, v in self._poly().items():
            for l, w in self._lift(o).items():
                key = tuple(sorted(k + l))
                if len(key) > 2:
                    raise ValueError("degree")
                e.t[key] = e.t.get(key, 0.0) + v * w
        return e
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / float(o))

    def __pow__(self, k):
        if k != 2:
            raise ValueError("degree")
        return self * self

    def add(self, o, mult=1.0):
        self._acc(dict(self._lift(o)), float(mult))

    def addTerms(self, coeffs, vars, vars2=None):
        if isinstance(coeffs, numbers.Number):
            coeffs, vars, vars2 = [coeffs], [vars], None if vars2 is None else [vars2]
        for i, c in enumerate(coeffs):
            self._acc((vars[i] if vars2 is None else vars[i] * vars2[i])._poly(), float(c))

    def addConstant(self, c):
        self._acc({(): float(c)}, 1.0)

    def __le__(self, o):
        return Temp(self - o, "<")

    def __ge__(self, o):
        return Temp(self - o, ">")

    def __eq__(self, o):
        return Temp(self - o, "=")
    __hash__ = object.__hash__


class QuadExpr(Expr):
    pass


class LinExpr(Expr):
    pass


class Temp(object):
    def __init__(self, e, s):
        self.e, self.s = e, s


class Var(Expr):
    def __init__(self, i, lb, ub, vtype):
        self.i, self.lb, self.ub, self.vtype = i, float(lb), float(ub), vtype
        self.LB, self.UB = self.lb, self.ub
        self.x = None

    def _poly(self):
        return {(self.i,): 1.0}

    @property
    def X(self):
        return self.x


class Model(object):
    made = []
    plan = None         # function(model) -> (status, x)

    def __init__(self, *a, **k):
        self.vars, self.cons, self.obj, self.sense, self.status, self.params = [], [], QuadExpr(), GRB.MINIMIZE, 1, {}
        self.ModelSense = GRB.MINIMIZE
        self.solved = 0
        Model.made.append(self)

    def setParam(self, *a, **k):
        pass

    Params = types.SimpleNamespace()

    def addVar(self, lb=0.0, ub=1e100, obj=0.0, vtype="C", name="", column=None):
        v = Var(len(self.vars), lb, ub, vtype)
        self.vars.append(v)
        return v

    def update(self):
        pass

    def addConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, Temp):
            self.cons.append((lhs.e.copy(), lhs.s))
        else:
            e = lhs.copy() if isinstance(lhs, Expr) else Expr(lhs).copy()
            self.cons.append((e - (rhs if isinstance(rhs, Expr) else float(rhs)), {"<=": "<", ">=": ">", "==": "="}.get(sense, sense)))
    addLConstr = addConstr

    def setObjective(self, e, sense=None):
        self.obj = e.copy() if isinstance(e, Expr) else Expr(e).copy()
        if sense is not None:
            self.sense = sense

    def getVars(self):
        return list(self.vars)

    def optimize(self, *a):
        self.solved += 1
        self.final = (dict(self.obj.t), [(dict(e.t), s) for e, s in self.cons], [(v.lb, v.ub, v.vtype) for v in self.vars])
        self.status, x = Model.plan(self)
        if self.status == GRB.OPTIMAL:
            for v, t in zip(self.vars, x):
                v.x = float(t)

    @property
    def Status(self):
        return self.status

    def getAttr(self, name, objs=None):
        if name in ("x", "X"):
            if self.status != GRB.OPTIMAL:
                raise AttributeError("no solution")
            return [v.x for v in (self.vars if objs is None else objs)]
        if name.lower() == "status":
            return self.status
        raise AttributeError(name)

    def __reduce__(self):
        return (str, ("model",))


GRB = types.SimpleNamespace(CONTINUOUS="C", BINARY="B", INTEGER="I", EQUAL="=", LESS_EQUAL="<", GREATER_EQUAL=">", OPTIMAL=2,
                            INFEASIBLE=3, INF_OR_UNBD=4, UNBOUNDED=5, CUTOFF=6, ITERATION_LIMIT=7, NUMERIC=12, SUBOPTIMAL=13,
                            LOADED=1, INFINITY=1e100, MINIMIZE=1, MAXIMIZE=-1)


class GurobiError(Exception):
    pass


def quicksum(it):
    e = QuadExpr()
    for t in it:
        e += t
    return e


def module():
    m = types.ModuleType("gurobipy")
    for n in ("Model", "GRB", "LinExpr", "QuadExpr", "Var", "GurobiError", "quicksum"):
        setattr(m, n, globals()[n])
    return m
