"""Asking the real model about a complete plan.

The Pyomo model that solph built is turned into a matrix once (Pyomo's own
standard-form compiler) and handed to HiGHS; a plan is then asked about by
fixing every flow, status and investment of it and optimising what is left.
The answer is (feasible, objective, storage contents).
"""

import warnings
from fractions import Fraction as Fr

import highspy
import numpy as np
import pyomo.environ as po
from pyomo.repn import generate_standard_repn
from pyomo.repn.plugins.standard_form import LinearStandardFormCompiler

import build

INF = highspy.kHighsInf


class Probe:
    def __init__(self, b):
        self.b = b
        m = b.m
        self.fixed = []
        # variables solph fixed become variables with equal bounds
        for v in m.component_data_objects(po.Var):
            if v.fixed:
                val = v.value
                v.unfix()
                self.fixed.append((v, val))
        # every variable a plan sets takes part, even if no constraint names it
        self.plan_vars = self._plan_vars()
        m.verif_keep = po.Constraint(expr=sum(v for v in self.plan_vars.values()) >= -1e15)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sf = LinearStandardFormCompiler().write(m, mixed_form=True)
        self.cols = {id(v): j for j, v in enumerate(sf.columns)}
        self.columns = list(sf.columns)
        n = len(sf.columns)
        lo = np.array([-INF if v.lb is None else v.lb for v in sf.columns], dtype=float)
        hi = np.array([INF if v.ub is None else v.ub for v in sf.columns], dtype=float)
        for v, val in self.fixed:
            j = self.cols.get(id(v))
            if j is not None:
                lo[j] = hi[j] = val
        integ = [v.is_binary() or v.is_integer() for v in sf.columns]
        A = sf.A.tocsr()
        rhs = np.array(sf.rhs, dtype=float)
        rlo, rhi = np.full(len(rhs), -INF), np.full(len(rhs), INF)
        for r, (con, bt) in enumerate(sf.rows):
            if bt == 0:
                rlo[r] = rhi[r] = rhs[r]
            elif bt > 0:
                rhi[r] = rhs[r]
            else:
                rlo[r] = rhs[r]
        lp = highspy.HighsLp()
        lp.num_col_, lp.num_row_ = n, A.shape[0]
        c = np.asarray(sf.c.todense()).reshape(-1) if sf.c.shape[0] else np.zeros(n)
        off = sf.c_offset if hasattr(sf, "c_offset") else 0.0
        off = float(np.asarray(off).reshape(-1)[0]) if np.size(off) else 0.0
        lp.col_cost_ = c
        lp.offset_ = off
        lp.col_lower_, lp.col_upper_ = lo, hi
        lp.row_lower_, lp.row_upper_ = rlo, rhi
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.start_ = A.indptr
        lp.a_matrix_.index_ = A.indices
        lp.a_matrix_.value_ = A.data
        if any(integ):
            lp.integrality_ = [highspy.HighsVarType.kInteger if x else highspy.HighsVarType.kContinuous
                               for x in integ]
        self.lo, self.hi, self.c, self.n, self.integ = lo, hi, c, n, integ
        h = highspy.Highs()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("threads", 1)
        h.setOptionValue("presolve", "off")  # the presolve of HiGHS loops on some piecewise linear models
        h.setOptionValue("mip_rel_gap", 0.0)
        h.setOptionValue("mip_abs_gap", 0.0)
        h.setOptionValue("random_seed", 1)
        h.passModel(lp)
        self.h = h
        self.rlo, self.rhi = rlo, rhi
        self.queries = 0
        # where the model records the sums that are limited
        self.records = [[self._linear(e) for e in r] for r in b.records]

    # names of the variables of a plan: ("flow", f, t), ("status", f, t),
    # ("inv", u, p), ("ist", u, p), ("lv", label, tp)
    def _plan_vars(self):
        b, s = self.b, self.b.s
        d = {}
        for f in range(len(s.flows)):
            for t in range(s.T):
                d["flow", f, t] = build.var_flow(b, f, t)
                if s.flows[f][2].get("nc") is not None:
                    d["status", f, t] = build.var_status(b, f, t)
        for key, u in s.unit_of.items():
            for p in range(s.P):
                d["inv", u, p] = build.var_invest(b, key, p)
                if s.units[u - 1]["nc"]:
                    d["ist", u, p] = build.var_invest_status(b, key, p)
        for label in s.store_of:
            for tp in range(1 if s.N else s.T + 1):
                d["lv", label, tp] = build.var_level(b, label, tp)
        return d

    def _linear(self, expr):
        r = generate_standard_repn(expr)
        assert not r.nonlinear_vars and not r.quadratic_vars
        return float(r.constant), [(self.cols[id(v)], float(c)) for v, c in zip(r.linear_vars, r.linear_coefs)]

    def _recorded(self, x):
        return [[c + sum(x[j] * a for j, a in terms) for c, terms in r] for r in self.records]

    def _col(self, key):
        return self.cols[id(self.plan_vars[key])]

    def almost(self, plan):
        """whether a plan that is refused is refused by a hair only"""
        rows = np.arange(len(self.rlo), dtype=np.int32)
        bend = lambda a, by: a + by * (1 + np.minimum(np.abs(a), 1e6)) * (np.abs(a) < 1e12)
        with np.errstate(invalid="ignore"):
            lo, hi = bend(self.rlo, -1e-5), bend(self.rhi, 1e-5)
        self.h.changeRowsBounds(len(rows), rows, lo, hi)
        try:
            return self.ask(plan)["ok"]
        finally:
            self.h.changeRowsBounds(len(rows), rows, self.rlo, self.rhi)

    def _run(self, fix):
        h = self.h
        self.queries += 1
        cols = np.array([j for j, _ in fix], dtype=np.int32)
        vals = np.array([v for _, v in fix], dtype=float)
        lo, hi = self.lo[cols], self.hi[cols]
        eps = 1e-7
        if np.any(vals < lo - eps) or np.any(vals > hi + eps):
            return None
        h.changeColsBounds(len(cols), cols, vals, vals)
        h.run()
        st = h.getModelStatus()
        res = None
        if st == highspy.HighsModelStatus.kOptimal:
            res = (h.getInfo().objective_function_value, np.array(h.getSolution().col_value))
        elif st not in (highspy.HighsModelStatus.kInfeasible,
                        highspy.HighsModelStatus.kUnboundedOrInfeasible):
            raise RuntimeError(f"solver status {st}")
        h.changeColsBounds(len(cols), cols, lo, hi)
        return res

    def ask(self, plan):
        """plan: dict(inv, ist (unit-major lists), lv0, steps=[(v, st)]) in
        Fractions; returns dict(ok, obj, lv0, lvs)"""
        fix = {}
        s = self.b.s
        for u in range(len(s.units)):
            for p in range(s.P):
                fix[self._col(("inv", u + 1, p))] = float(plan["inv"][u][p])
                if s.units[u]["nc"]:
                    fix[self._col(("ist", u + 1, p))] = float(plan["ist"][u][p])
        for label, k in s.store_of.items():
            fix[self._col(("lv", label, 0))] = float(plan["lv0"][k - 1])
        for t, (v, st) in enumerate(plan["steps"]):
            for f in range(len(s.flows)):
                fix[self._col(("flow", f, t))] = float(v[f])
                if s.flows[f][2].get("nc") is not None:
                    fix[self._col(("status", f, t))] = float(st[f])
        r = self._run(list(fix.items()))
        if r is None:
            return dict(ok=False)
        obj, x = r
        self.x = x
        if s.N:
            return dict(ok=True, obj=obj, rec=self._recorded(x))
        lv = [[x[self._col(("lv", lab, tp))] for lab in sorted(s.store_of, key=s.store_of.get)]
              for tp in range(s.T + 1)]
        return dict(ok=True, obj=obj, lv=lv, rec=self._recorded(x))

    def optimum(self, cost=None, box=64.0):
        """Solve with the model's objective (cost None) or a given cost
        {plan key: coefficient}; returns the plan found or None."""
        h = self.h
        self.queries += 1
        s = self.b.s
        if cost is not None:
            c = np.zeros(self.n)
            for k, v in cost.items():
                c[self._col(k)] = v
            h.changeColsCost(self.n, np.arange(self.n, dtype=np.int32), c)
        if box is not None:  # keep the polyhedron bounded
            cols = np.array([self._col(k) for k in self.plan_vars], dtype=np.int32)
            h.changeColsBounds(len(cols), cols, np.maximum(self.lo[cols], np.minimum(-box, self.hi[cols])),
                               np.minimum(self.hi[cols], np.maximum(box, self.lo[cols])))
        h.clearSolver()
        h.run()
        st = h.getModelStatus()
        if box is not None:
            h.changeColsBounds(len(cols), cols, self.lo[cols], self.hi[cols])
        x = None
        if st == highspy.HighsModelStatus.kOptimal:
            x = np.array(h.getSolution().col_value)
            obj = h.getInfo().objective_function_value
        elif st in (highspy.HighsModelStatus.kUnbounded, highspy.HighsModelStatus.kUnboundedOrInfeasible,
                    highspy.HighsModelStatus.kInfeasible):
            x = None
        else:
            raise RuntimeError(f"solver status {st}")
        if cost is not None:
            h.changeColsCost(self.n, np.arange(self.n, dtype=np.int32), self.c)
        if x is None:
            return None
        return self._plan(x), obj

    def _plan(self, x):
        s = self.b.s
        R = lambda v: Fr(float(v)).limit_denominator(10 ** 6)
        B = lambda v: int(round(float(v)))
        g = lambda *k: x[self._col(k)]
        return dict(
            inv=[[R(g("inv", u + 1, p)) for p in range(s.P)] for u in range(len(s.units))],
            ist=[[B(g("ist", u + 1, p)) if s.units[u]["nc"] else 0 for p in range(s.P)]
                 for u in range(len(s.units))],
            lv0=[R(g("lv", lab, 0)) for lab in sorted(s.store_of, key=s.store_of.get)],
            steps=[([R(g("flow", f, t)) for f in range(len(s.flows))],
                    [B(g("status", f, t)) if s.flows[f][2].get("nc") is not None else 0
                     for f in range(len(s.flows))]) for t in range(s.T)])
