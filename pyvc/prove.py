"""Discharging obligations: z3, cvc5 and a rational-identity normaliser, with instantiation of definitions and
relational induction between loops."""
from __future__ import annotations
import time
import z3
from . import sym as S
from . import seqs as Q
from . import loops as LP
from . import laurent
from .sym import CTX, P, Path, Unsupported, to_real
from .seqs import mentions, consts_in


class Result:
    __slots__ = ('ok', 'backend', 'time', 'model', 'detail', 'sat')

    def __init__(self, ok, backend, t, model=None, detail='', sat=False):
        self.ok, self.backend, self.time, self.model, self.detail, self.sat = ok, backend, t, model, detail, sat


class scope:
    """a child path scope with extra facts and generic constants"""
    def __init__(self, facts=(), generic=()):
        self.facts, self.generic = facts, list(generic)

    def __enter__(self):
        parent = P()
        parent.solver.push()
        self.parent = parent
        self.child = Path([], parent=parent)
        self.old = CTX.params
        CTX.path = self.child
        CTX.params = self.old + self.generic
        for f in self.facts:
            self.child.fact(f)
        self.child.nbase = len(self.child.facts)
        return self.child

    def __exit__(self, *a):
        CTX.path = self.parent
        CTX.params = self.old
        self.parent.solver.pop()


def occurrences(zs, names):
    """applications of registered definitions inside the terms"""
    out, seen = [], set()
    stack = list(zs)
    ids = set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            nm = t.decl().name()
            if nm in names and t.get_id() not in ids:
                ids.add(t.get_id())
                out.append(t)
            stack.extend(t.children())
    return out


def size(z, limit=20000):
    seen = set()
    stack = [z]
    while stack and len(seen) < limit:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
    return len(seen)


class Prover:
    def __init__(self, timeout_ms=8000, budget_s=60):
        self.timeout_ms = timeout_ms
        self.budget_s = budget_s
        self.solver_s = 0.0
        self.queries = 0
        self.tried = {}
        self.rewrites = []

    # -- one solver call ---------------------------------------------------------------------------
    def quick(self, goal, ms=None):
        """is goal implied by the current path? 'unsat' means yes"""
        p = P()
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'unsat', None
        t = time.time()
        if CTX.deadline and t > CTX.deadline:
            raise S.Budget('time budget of the goal')
        s = z3.Solver()
        s.set('timeout', ms or self.timeout_ms)
        ctx = s.ctx.ref()
        for f in p.all_facts():
            z3.Z3_solver_assert(ctx, s.solver, f.as_ast())
        s.add(z3.Not(g))
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', s.reason_unknown()

    def nlsat(self, goal, ms):
        """nonlinear real arithmetic on the relevant facts with function applications made variables"""
        p = P()
        t0 = time.time()
        try:
            facts = relevant(p.all_facts(), goal)
            fs = ackermann(facts + [z3.Not(goal)])
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', ms)
            for f in fs:
                s.add(f)
            r = s.check()
        except z3.Z3Exception:
            return False
        finally:
            self.solver_s += time.time() - t0
        self.queries += 1
        return r == z3.unsat

    def cvc5(self, goal, ms):
        p = P()
        t0 = time.time()
        try:
            import cvc5
            s = z3.Solver()
            for f in p.all_facts():
                s.add(f)
            s.add(z3.Not(goal))
            text = s.to_smt2()
            if len(text) > 400_000:
                return False
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', str(ms))
            slv.setLogic('ALL')
            ip = cvc5.InputParser(slv)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'vc')
            sm = ip.getSymbolManager()
            res = None
            while True:
                c = ip.nextCommand()
                if c.isNull():
                    break
                out = c.invoke(slv, sm)
                if 'unsat' in str(out):
                    res = True
            return bool(res)
        except Exception:
            return False
        finally:
            self.solver_s += time.time() - t0
            self.queries += 1

    # -- main --------------------------------------------------------------------------------------
    def prove(self, goal, depth=2, final=True):
        old, self.rewrites = self.rewrites, []
        try:
            return self._prove(goal, depth, final)
        finally:
            self.rewrites = old

    def _prove(self, goal, depth, final):
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            return Result(True, 'simplifier', 0.0)
        if z3.is_and(g) and final:
            worst = None
            for c in g.children():
                r = self.prove(c, depth, final)
                if not r.ok:
                    return r
                worst = r if worst is None or worst.backend == 'simplifier' else worst
                P().fact(c)
            return worst
        ms = self.timeout_ms if final else min(self.timeout_ms, 3000)
        large = z3.is_eq(g) and size(g, 150) >= 150
        if large and self.identity(g):
            return Result(True, 'rational-identity', time.time() - t0)
        r, m = self.quick(g, min(ms, 2000))
        if r == 'unsat':
            return Result(True, 'z3', time.time() - t0)
        if not large and self.identity(g):
            return Result(True, 'rational-identity', time.time() - t0)
        if self.unrolled(g):
            return Result(True, 'z3', time.time() - t0)
        hist = set()
        # sums of values that follow a trajectory: the trajectory's own equations first
        late = any(d.kind == 'traj' and d.loop.leaves[d.index].get('closed') is None
                   for d in (P().root.defs[t.decl().name()] for t in occurrences([g], P().root.defs)))
        for rnd in range(4):
            if rnd == (1 if late else 0) and depth > 0 and self.linear_sums(g, depth, hist):
                r, m = self.quick(g, ms)
                if r == 'unsat' or self.identity(g):
                    return Result(True, 'z3', time.time() - t0)
            if time.time() - t0 > self.budget_s:
                break
            n0 = len(hist)
            self.saturate(g, rnd, depth, hist)
            if rnd == 0 and self.rewrites and self.rewritten(g):
                return Result(True, 'z3', time.time() - t0)
            if len(hist) != n0 or rnd == 0:
                r, m = self.quick(g, ms if rnd >= 1 else min(ms, 3000))
                if r == 'unsat':
                    return Result(True, 'z3', time.time() - t0)
                if self.identity(g):
                    return Result(True, 'rational-identity', time.time() - t0)
        if final:
            if self.ite_split(g, ms):
                return Result(True, 'z3', time.time() - t0)
            if self.nlsat(g, ms):
                return Result(True, 'z3-nlsat', time.time() - t0)
            if r != 'sat' and self.cvc5(g, ms):
                return Result(True, 'cvc5', time.time() - t0)
            cal = S.calendar_defs()
            if cal:
                with scope(cal):
                    r, m = self.quick(g, ms)
                    if r == 'unsat':
                        return Result(True, 'z3', time.time() - t0)
            if r == 'unknown' and not cal:
                r, m = self.quick(g, ms * 2)
                if r == 'unsat':
                    return Result(True, 'z3', time.time() - t0)
        return Result(False, 'z3', time.time() - t0, m if r == 'sat' else None,
                      f'solver answered {r}', r == 'sat')

    def unrolled(self, g):
        """the goal with the longer of two neighbouring sums written as the shorter and its next term, on its own"""
        names = P().root.defs
        occ = [t for t in occurrences([g], names) if names[t.decl().name()].kind == 'sum']
        pairs = []
        for t in occ[:12]:
            d, n = names[t.decl().name()], t.arg(t.num_args() - 1)
            for u in occ[:12]:
                if u.decl().eq(t.decl()) and all(a.eq(b) for a, b in zip(t.children()[:-1], u.children()[:-1])):
                    m = u.arg(u.num_args() - 1)
                    one = z3.simplify(n - m)
                    if z3.is_int_value(one) and one.as_long() == 1:
                        own = [(a, b) for a, b in zip(d.params, t.children()[:-1]) if not a.eq(b)]
                        b = z3.substitute(z3.substitute(d.body, *own) if own else d.body, (d.k, m))
                        pairs.append((t, z3.If(n >= 1, u + b, z3.RealVal(0))))
                        break
        if not pairs:
            return False
        h = g
        for _ in range(min(len(pairs), 3)):     # chains of neighbours unroll completely
            h = z3.substitute(h, *pairs)
        h = z3.simplify(h)
        p = P()
        s = z3.Solver()
        s.set('timeout', 1500)
        t0 = time.time()
        for f in p.all_facts():
            if not S.nonlinear(f) and size(f, 60) < 60:
                s.add(f)
        s.add(z3.Not(h))
        r = s.check()
        self.solver_s += time.time() - t0
        self.queries += 1
        return r == z3.unsat

    def rewritten(self, g):
        """the goal and the path conditions with sums of a trajectory's increments replaced by the trajectory"""
        names = P().root.defs
        pairs, seen = [], set()
        for t, init, s, rng in self.rewrites:
            c, app = (1, s) if s.decl().name() in names else (-1, s.arg(1)) if z3.is_mul(s) else (0, s)
            if c and app.get_id() not in seen and z3.is_app(app) and app.decl().name() in names and P().known(rng):
                seen.add(app.get_id())
                pairs.append((app, t - init if c == 1 else init - t))
        if not pairs:
            return False
        h = S.norm(z3.substitute(g, *pairs))
        if h.eq(g):
            return False
        if self.identity(h):
            return True
        p = P()
        cs = [f for f in p.conds + p.root.conds if any(mentions(f, a) for a, _ in pairs)]
        with scope([S.norm(z3.substitute(f, *pairs)) for f in cs]):
            return self.quick(h, 1500)[0] == 'unsat'

    def ite_split(self, g, ms):
        """case split on the if-then-else conditions of an equality between reals, then rational identity per case"""
        conds = []
        seen = set()
        stack = [g]
        while stack and len(conds) < 6:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                if not any(c.eq(x) for x in conds):
                    conds.append(c)
            stack.extend(t.children() if z3.is_app(t) else [])
        if not conds or len(conds) > 5:
            return False

        def rec(i, h):
            with scope([h] if h is not None else []):
                p = P()
                if p.check(z3.BoolVal(True)) == z3.unsat:
                    return True
                if i == len(conds):
                    gg = g
                    for c in conds:
                        gg = z3.substitute(gg, (c, z3.BoolVal(True))) if p.known(c) else \
                            z3.substitute(gg, (c, z3.BoolVal(False))) if p.known(z3.Not(c)) else gg
                    gg = z3.simplify(gg)
                    return self.identity(gg) or self.quick(gg, ms)[0] == 'unsat' or self.nlsat(gg, ms)
                return rec(i + 1, conds[i]) and rec(i + 1, z3.Not(conds[i]))
        return rec(0, None)

    def identity(self, g):
        if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
            try:
                return rational_identity(g.arg(0), g.arg(1))
            except Exception:
                return False
        return False

    # -- instantiation -----------------------------------------------------------------------------
    def saturate(self, goal, rnd, depth, hist):
        p = P()
        root = p.root
        names = root.defs
        # occurrences in the goal and in the equalities that talk about them
        occ = occurrences([goal] + (p.all_facts() if rnd >= 1 else p.conds + root.conds), names)
        for t in occ[:60]:
            self.inst(t, rnd, hist)
        for t in occ[:20]:
            d = names[t.decl().name()]
            if d.kind == 'sum' and not d.params:
                self.trajectories_of(t, d, rnd, hist)
        self.inst_qfacts(goal, rnd, hist)
        if root.input_fns:
            for t in occurrences([goal] + (p.all_facts() if rnd >= 1 else p.conds + root.conds), root.input_fns)[:16]:
                k = ('input', t.get_id())
                if k not in hist and t.num_args() > 0:
                    hist.add(k)
                    root.input_fns[t.decl().name()](t)
        if depth > 0:
            occ = occurrences([goal], names)
            if rnd >= 1:
                more = occurrences(p.all_facts(), names)
                ids = {t.get_id() for t in occ}
                occ = occ + [t for t in more if t.get_id() not in ids][:40]
            self.match(occ, depth, hist, rnd == 0)

    def trajectories_of(self, t, d, rnd, hist):
        """the trajectories whose increments a sum adds up"""
        key = ('incs', t.get_id())
        if key in hist:
            return
        hist.add(key)
        ix = t.arg(t.num_args() - 1)
        for L in P().root.loops:
            for i, l in enumerate(L.leaves):
                rhs = self.increments(L, i, ix)
                if rhs is not None and occurrences([rhs], {d.fn.name()}):
                    self.inst(L.term(i, ix), rnd, hist)

    def inst(self, t, rnd, hist):
        p = P()
        d = p.root.defs[t.decl().name()]
        key = ('inst', t.get_id(), rnd if d.kind in ('sum', 'prod') else 0)
        if key in hist:
            return
        hist.add(key)
        args = [t.arg(i) for i in range(t.num_args())]
        np_ = len(d.params)
        pairs = [(a, b) for a, b in zip(d.params, args[:np_]) if not a.eq(b)]
        if d.kind in ('sum', 'prod'):
            n = args[-1]
            unit = z3.RealVal(0 if d.kind == 'sum' else 1)
            p.fact(z3.Implies(n <= 0, t == unit))
            zn = z3.simplify(n)
            lim = rnd >= 2 or (z3.is_int_value(zn) and zn.as_long() <= 6)
            grown = z3.is_app(zn) and zn.decl().kind() == z3.Z3_OP_ADD
            if lim or grown:
                m = z3.simplify(n - 1)
                b = z3.substitute(z3.substitute(d.body, *pairs) if pairs else d.body, (d.k, m))
                prev = d.fn(*args[:-1], m)
                p.fact(z3.Implies(n >= 1, t == (prev + b if d.kind == 'sum' else prev * b)))
                for f in d.tmpl.inst(m, pairs):
                    p.fact(f)
            if d.kind == 'sum':
                self.sum_bounds(d, t, args, pairs, hist)
            if d.kind == 'prod':
                self.prod_bounds(d, t, args, pairs, hist)
        elif d.kind == 'traj':
            for f in d.loop.inst(args[-1], pairs, succ=rnd >= 1):
                p.fact(f)
            self.traj_invariants(d, args, pairs, hist)
        elif d.kind == 'count':
            L = d.loop
            sub = lambda f: z3.substitute(f, *pairs) if pairs else f
            g = [sub(x) for x in L.guard]
            p.fact(z3.Implies(z3.And(*g), t >= 0))
            if d.n is not None:
                n = sub(d.n)
                p.fact(z3.Implies(z3.And(n >= 0, *g), t <= n))
                p.fact(z3.Implies(z3.And(t < n, *g), z3.substitute(sub(L.E), (L.k, t))))
            else:
                p.fact(z3.Implies(z3.And(*g), z3.substitute(sub(L.E), (L.k, t))))
                if d.first is not None:
                    p.fact(z3.Implies(z3.And(*g), t == sub(d.first)))
            for e in (t, z3.simplify(t - 1)):
                for f in L.inst(e, pairs):
                    p.fact(f)
                rng = z3.And(e >= 0, e < t, *g)
                p.fact(z3.Implies(rng, z3.Not(z3.substitute(sub(L.E), (L.k, e)))))
        elif d.kind == 'any':
            sub = lambda f: z3.substitute(f, *pairs) if pairs else f
            w = d.wit(*args)
            n = sub(d.n)
            b = sub(d.body)
            p.fact(z3.Implies(t, z3.And(w >= 0, w < n, z3.substitute(b, (d.k, w)))))
            for f in d.tmpl.inst(w, pairs):
                p.fact(f)
            p.root.qfacts.append((d.k, n, z3.Implies(z3.Not(t), z3.Not(b)), d.tmpl))
        elif d.kind == 'perm':
            pass

    def sum_bounds(self, d, t, args, pairs, hist):
        """nonnegative terms give nonnegative sums (proved at a generic index)"""
        key = ('sumpos', d.fn.name())
        root = P().root
        st = root.defkey.get(key)
        if st is None:
            st = 0
            j = z3.FreshInt('j')
            if size(d.body, 400) < 400:
                with scope([j >= 0, j < d.tmpl.n] + list(d.tmpl.guard), []):
                    for f in d.tmpl.facts:
                        P().fact(z3.substitute(f, (d.k, j)))
                    b = z3.substitute(d.body, (d.k, j))
                    if self.quick(b > 0, 800)[0] == 'unsat':
                        st = 2
                    elif self.quick(b >= 0, 800)[0] == 'unsat':
                        st = 1
                    elif self.quick(b <= 0, 800)[0] == 'unsat':
                        st = -1
            if P().parent is None:
                root.defkey[key] = st
        if st in (1, 2):
            P().fact(t >= 0)
        if st == 2:
            n = args[-1]
            rng = d.tmpl.n if not pairs else z3.substitute(d.tmpl.n, *pairs)
            guard = [z3.substitute(x, *pairs) if pairs else x for x in d.tmpl.guard]
            P().fact(z3.Implies(z3.And(n >= 1, n <= rng, *guard), t > 0))
        elif st == -1:
            P().fact(t <= 0)

    def prod_bounds(self, d, t, args, pairs, hist):
        key = ('prodpos', d.fn.name())
        root = P().root
        st = root.defkey.get(key)
        if st is None:
            st = 0
            j = z3.FreshInt('j')
            with scope([j >= 0, j < d.tmpl.n] + list(d.tmpl.guard), []):
                for f in d.tmpl.facts:
                    P().fact(z3.substitute(f, (d.k, j)))
                if self.quick(z3.substitute(d.body, (d.k, j)) > 0, 800)[0] == 'unsat':
                    st = 1
            if P().parent is None:
                root.defkey[key] = st
        if st == 1:
            P().fact(t > 0)

    def invariants(self, L):
        """inductive facts about the state of a loop: bounds of its trajectories (v >= v0, v <= v0, v >= 0) and, for two
        of them, that the second still has its initial value unless the first is zero; the largest inductive set of these"""
        if L.__dict__.get('invs') is not None:
            return L.invs
        L.invs = []
        nums = (z3.IntSort(), z3.RealSort())
        open_ = [i for i, l in enumerate(L.leaves) if l.get('closed') is None and l['init'].sort() in nums]
        if L.params or not open_:
            return L.invs
        now = lambda i: L.term(i, L.k)
        cands = []
        for i in open_:
            l = L.leaves[i]
            cands += [(i, lambda v, i=i, l=l: v(i) >= l['init']), (i, lambda v, i=i, l=l: v(i) <= l['init'])]
            if not (z3.is_int_value(l['init']) or z3.is_rational_value(l['init'])) or not _is_zero(l['init']):
                cands.append((i, lambda v, i=i: v(i) >= 0))
        real = [i for i in open_ if L.leaves[i]['init'].sort() == z3.RealSort()]
        if len(real) <= 3:
            cands += [(i, lambda v, i=i, j=j: z3.Or(v(i) == 0, v(j) == L.leaves[j]['init'])) for i in real for j in real if i != j]
        init = lambda i: L.leaves[i]['init']
        step = lambda i: L.leaves[i]['step']
        cands = [c for i, c in cands if self.quick(c(init), 500)[0] == 'unsat']
        while cands:
            with scope([L.k >= 0, L.k < L.M] + L.facts + [c(now) for c in cands]):
                Q.note_index(L.k)
                self.saturate(z3.And(*[c(step) for c in cands]), 0, 0, set())
                keep = [c for c in cands if self.quick(c(step), 1500)[0] == 'unsat']
            if len(keep) == len(cands):
                break
            cands = keep
        L.invs = [(lambda t, c=c: c(lambda i: L.term(i, t))) for c in cands]
        return L.invs

    def increments(self, L, i, t):
        """the sum of a trajectory's first t increments, when that sum is in use"""
        l = L.leaves[i]
        if l.get('closed') is not None or l['init'].sort() != z3.RealSort() or L.params:
            return None
        inc = l.get('inc')
        if inc is None:
            inc = l['inc'] = LP._minus(l['step'], L.term(i, L.k)) if size(l['step'], 300) < 300 else False
        if inc is False:
            return None
        return Q.sum_def(L.k, inc, t, L.tmpl, existing=True)

    def traj_invariants(self, d, args, pairs, hist):
        L, t = d.loop, args[-1]
        l = L.leaves[d.index]
        if l.get('closed') is not None:
            return
        rhs = self.increments(L, d.index, t)
        if rhs is not None:
            # a trajectory is its initial value plus the sum of its increments
            rng = z3.And(t >= 0, t <= L.M)
            self.rewrites.append((L.term(d.index, t), l['init'], rhs, rng))
            P().fact(z3.Implies(rng, L.term(d.index, t) == l['init'] + rhs))
        for c in self.invariants(L):
            P().fact(z3.Implies(z3.And(t >= 0, t <= L.M), c(t)))

    def inst_qfacts(self, goal, rnd, hist):
        p = P()
        root = p.root
        if not root.qfacts:
            return
        idx = list(root.__dict__.get('indices', {}).values())
        idx = idx[-12:] if rnd < 2 else idx[-30:]
        ground = None
        for qi, (k, n, body, tmpl) in enumerate(root.qfacts[-60:]):
            cands = list(idx)
            if ground is None:
                ground = uf_apps([goal] + p.conds + root.conds + (p.facts if rnd >= 1 else []))
            cands = solve_index(body, k, ground) + cands
            seen = set()
            for t in cands[:24]:
                t = z3.simplify(t)
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                key = ('q', qi, len(root.qfacts) if False else k.get_id(), body.get_id(), t.get_id())
                if key in hist:
                    continue
                hist.add(key)
                root.keep.append(t)
                p.fact(z3.Implies(z3.And(t >= 0, t < n), z3.substitute(body, (k, t))))
                if tmpl is not None:
                    tmpl.assume_at(t)

    # -- matching ----------------------------------------------------------------------------------
    def match(self, occ, depth, hist, cheap=False):
        p = P()
        root = p.root
        byk = {}
        for t in occ:
            d = root.defs[t.decl().name()]
            byk.setdefault(d.kind, []).append((t, d))
        # loops first (their trajectories feed the sums)
        loops = {}
        for kind in ('traj', 'count'):
            for t, d in byk.get(kind, []):
                loops.setdefault(id(d.loop), (d.loop, []))[1].append(t)
        ls = list(loops.values()) if not cheap else []
        for i in range(len(ls)):
            for j in range(i + 1, len(ls)):
                self.match_loops(ls[i][0], ls[j][0], ls[i][1], ls[j][1], depth, hist)
        for kind in ('sum', 'prod'):
            xs = byk.get(kind, [])
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    self.match_sums(kind, xs[i], xs[j], depth, hist, cheap)
        xs = byk.get('any', [])
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                self.match_any(xs[i], xs[j], depth, hist, cheap)
        xs = byk.get('perm', [])
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                self.match_perm(xs[i], xs[j], depth, hist)

    def match_sums(self, kind, A, B, depth, hist, cheap=False):
        (t1, d1), (t2, d2) = A, B
        key = ('ms', t1.get_id(), t2.get_id(), cheap)
        if key in hist or t1.eq(t2) or ('done', t1.get_id(), t2.get_id()) in hist:
            return
        n1, n2 = t1.arg(t1.num_args() - 1), t2.arg(t2.num_args() - 1)
        if not n1.eq(n2) and self.quick(n1 == n2, 700)[0] != 'unsat':
            return
        hist.add(key)
        if self.quick(t1 == t2, 300)[0] == 'unsat':
            return
        a1 = [t1.arg(i) for i in range(t1.num_args() - 1)]
        a2 = [t2.arg(i) for i in range(t2.num_args() - 1)]
        p1 = [(x, y) for x, y in zip(d1.params, a1) if not x.eq(y)]
        p2 = [(x, y) for x, y in zip(d2.params, a2) if not x.eq(y)]
        j = z3.FreshInt('j')
        b1 = z3.substitute(z3.substitute(d1.body, *p1) if p1 else d1.body, (d1.k, j))
        b2 = z3.substitute(z3.substitute(d2.body, *p2) if p2 else d2.body, (d2.k, j))
        with scope([j >= 0, j < n1], [j]):
            for d, pr in ((d1, p1), (d2, p2)):
                for f in d.tmpl.inst(j, pr):
                    P().fact(f)
            Q.note_index(j)
            ok = self.pointwise(b1 == b2, depth, cheap)
            c = None
            if not ok and not cheap:
                # opposite sign or scaled by a constant
                ok2 = self.quick(b1 == -b2, 700)[0] == 'unsat'
                if ok2 and kind == 'sum':
                    c = -1
        if ok:
            hist.add(('done', t1.get_id(), t2.get_id()))
            P().fact(t1 == t2)
        elif c is not None:
            P().fact(t1 == -t2)

    def linear_sums(self, g, depth, hist):
        """a vanishing linear combination of sums over the same range: the combination of the bodies vanishes pointwise"""
        if not (z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()):
            return False
        defs = P().root.defs
        occ = [t for t in occurrences([g], defs) if defs[t.decl().name()].kind == 'sum']
        if len(occ) < 1 or len(occ) > 6 or any(not t.arg(t.num_args() - 1).eq(occ[0].arg(occ[0].num_args() - 1)) for t in occ):
            return False
        D = S.norm(g.arg(0) - g.arg(1))
        zero = z3.RealVal(0)
        D0 = S.norm(z3.substitute(D, *[(t, zero) for t in occ]))
        cs = []
        for t in occ:
            one = [(u, z3.RealVal(1) if u.eq(t) else zero) for u in occ]
            cs.append(S.norm(z3.substitute(D, *one) - D0))
        if not rational_identity(D, z3.Sum([c * t for c, t in zip(cs, occ)] + [D0])):
            return False
        n = occ[0].arg(occ[0].num_args() - 1)
        j = z3.FreshInt('j')
        with scope([j >= 0, j < n], [j]):
            body = []
            for c, t in zip(cs, occ):
                d = defs[t.decl().name()]
                pr = [(x, t.arg(i)) for i, x in enumerate(d.params) if not x.eq(t.arg(i))]
                body.append(c * z3.substitute(z3.substitute(d.body, *pr) if pr else d.body, (d.k, j)))
                for f in d.tmpl.inst(j, pr):
                    P().fact(f)
            Q.note_index(j)
            z = z3.simplify(z3.Sum(body)) == 0
            ok = self.pointwise(z, depth, True) or self.ite_split(z, 1500) or self.pointwise(z, depth, False)
        if ok:
            P().fact(z3.Sum([c * t for c, t in zip(cs, occ)]) == 0)
        return ok

    def match_any(self, A, B, depth, hist, cheap=False):
        (t1, d1), (t2, d2) = A, B
        key = ('ma', t1.get_id(), t2.get_id(), cheap)
        if key in hist or t1.eq(t2) or depth <= 0 or ('done', t1.get_id(), t2.get_id()) in hist:
            return
        hist.add(key)
        a1 = [t1.arg(i) for i in range(t1.num_args())]
        a2 = [t2.arg(i) for i in range(t2.num_args())]
        p1 = [(x, y) for x, y in zip(d1.params, a1) if not x.eq(y)]
        p2 = [(x, y) for x, y in zip(d2.params, a2) if not x.eq(y)]
        n1 = z3.substitute(d1.n, *p1) if p1 else d1.n
        n2 = z3.substitute(d2.n, *p2) if p2 else d2.n
        if not n1.eq(n2) and self.quick(n1 == n2, 700)[0] != 'unsat':
            return
        j = z3.FreshInt('j')
        b1 = z3.substitute(z3.substitute(d1.body, *p1) if p1 else d1.body, (d1.k, j))
        b2 = z3.substitute(z3.substitute(d2.body, *p2) if p2 else d2.body, (d2.k, j))
        with scope([j >= 0, j < n1], [j]):
            for d, pr in ((d1, p1), (d2, p2)):
                for f in d.tmpl.inst(j, pr):
                    P().fact(f)
            ok = self.pointwise(b1 == b2, depth, cheap)
        if ok:
            hist.add(('done', t1.get_id(), t2.get_id()))
            P().fact(t1 == t2)

    def pointwise(self, g, depth, cheap):
        if cheap:
            return self.quick(g, 500)[0] == 'unsat' or (size(g, 300) < 300 and self.identity(g))
        return self.prove(g, depth - 1, final=False).ok

    def match_perm(self, A, B, depth, hist):
        (t1, d1), (t2, d2) = A, B
        if d1 is d2 or depth <= 0:
            return
        key = ('mp', d1.fn.name(), d2.fn.name())
        if key not in hist:
            hist.add(key)
            st = False
            if self.quick(d1.n == d2.n, 700)[0] == 'unsat':
                j = z3.FreshInt('j')
                with scope([j >= 0, j < d1.n], [j]):
                    for d in (d1, d2):
                        for f in d.tmpl.inst(j, []):
                            P().fact(f)
                    st = self.prove(z3.substitute(d1.body, (d1.k, j)) == z3.substitute(d2.body, (d2.k, j)), depth - 1,
                                    final=False).ok
            P().root.defkey[key] = st
        if P().root.defkey.get(key):
            for t, d, o in ((t1, d1, d2), (t2, d2, d1)):
                i = t.arg(t.num_args() - 1)
                if not o.params and not d.params:
                    P().fact(t == o.fn(i))

    def match_loops(self, L1, L2, ts1, ts2, depth, hist):
        key = ('ml', id(L1), id(L2))
        if key not in hist:
            hist.add(key)
            P().root.defkey[key] = self.bisim(L1, L2, depth)
        pairs = P().root.defkey.get(key)
        if not pairs:
            return
        eqM, eqs = pairs
        p = P()
        if eqM:
            p.fact(L1.M == L2.M)
        if eqs and not L1.params and not L2.params:
            for t in ts1 + ts2:
                if t.num_args() == 0:
                    continue
                ix = t.arg(t.num_args() - 1)
                rng = z3.And(ix >= 0, ix <= L1.M, ix <= L2.M)
                for i, j in eqs:
                    p.fact(z3.Implies(rng, L1.term(i, ix) == L2.term(j, ix)))

    def bisim(self, L1, L2, depth):
        """leaf pairs of two loops that are equal at every iteration, by induction"""
        if L1.params or L2.params or depth <= 0:
            return None
        cands = []
        for i, a in enumerate(L1.leaves):
            for j, b in enumerate(L2.leaves):
                if a.get('closed') is not None and b.get('closed') is not None:
                    continue
                if a['init'].sort() == b['init'].sort():
                    if self.quick(a['init'] == b['init'], 500)[0] == 'unsat':
                        cands.append((i, j))
        exits = not z3.is_false(L1.E) or not z3.is_false(L2.E)
        if not cands and (not exits or any(l.get('closed') is None for L in (L1, L2) for l in L.leaves)):
            return None
        k = z3.FreshInt('k')
        E1 = z3.substitute(L1.E, (L1.k, k))
        E2 = z3.substitute(L2.E, (L2.k, k))
        for _ in range(8):
            base = [k >= 0, k < L1.M, k < L2.M]
            if getattr(L1, 'has_n', None) is not None:
                base.append(k < L1.has_n)
            if getattr(L2, 'has_n', None) is not None:
                base.append(k < L2.has_n)
            hyp = [L1.value_at(i, k) == L2.value_at(j, k) for i, j in cands]
            keep = []
            with scope(base + hyp, [k]):
                for L in (L1, L2):
                    for f in L.facts:
                        P().fact(z3.substitute(f, (L.k, k)))
                    for f in L.recurrence(k, False):
                        P().fact(f)
                    for c in self.invariants(L):
                        P().fact(c(k))
                for i, j in cands:
                    g = self.step_value(L1, i, k) == self.step_value(L2, j, k)
                    if self.prove(g, depth - 1, final=False).ok:
                        keep.append((i, j))
            if keep == cands:
                break
            cands = keep
        # exit conditions under the invariant
        if not exits:
            return (False, cands)
        eqM = False
        with scope([k >= 0, k <= L1.M, k <= L2.M] + [L1.value_at(i, k) == L2.value_at(j, k) for i, j in cands], [k]):
            n1, n2 = getattr(L1, 'has_n', None), getattr(L2, 'has_n', None)
            for L in (L1, L2):
                for f in L.recurrence(k, False):
                    P().fact(f)
            x1 = z3.Or(E1, k >= n1) if n1 is not None else E1
            x2 = z3.Or(E2, k >= n2) if n2 is not None else E2
            eqM = self.prove(x1 == x2, depth - 1, final=False).ok
        return (eqM, cands)

    def step_value(self, L, i, k):
        l = L.leaves[i]
        if l.get('closed') is not None:
            return l['closed'](z3.simplify(k + 1))
        return z3.substitute(l['step'], (L.k, k))


def _is_zero(z):
    return z3.is_rational_value(z) and z.numerator_as_long() == 0 or z3.is_int_value(z) and z.as_long() == 0


def uf_apps(zs):
    """ground applications of uninterpreted functions, by name"""
    out = {}
    seen = set()
    stack = list(zs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(t.decl().name(), []).append(t)
            stack.extend(t.children())
    return out


def solve_index(body, k, ground):
    """values of k that make a function application in body coincide with a ground one"""
    res = []
    for nm, apps in uf_apps([body]).items():
        gs = ground.get(nm)
        if not gs:
            continue
        for a in apps:
            for ai in range(a.num_args()):
                e = a.arg(ai)
                if e.sort() != z3.IntSort() or not mentions(e, k):
                    continue
                off = z3.simplify(e - k)
                if not mentions(off, k):
                    for g in gs[:12]:
                        if not mentions(g.arg(ai), k):
                            res.append(z3.simplify(g.arg(ai) - off))
                    continue
                off = z3.simplify(e + k)
                if not mentions(off, k):
                    for g in gs[:12]:
                        if not mentions(g.arg(ai), k):
                            res.append(z3.simplify(off - g.arg(ai)))
    out, ids = [], set()
    for r in res:
        if r.get_id() not in ids:
            ids.add(r.get_id())
            out.append(r)
    return out[:16]


def relevant(facts, goal, limit=60):
    """facts connected to the goal through shared constants/applications"""
    names = set(_atoms(goal))
    out, rest = [], [(f, set(_atoms(f))) for f in facts]
    for _ in range(3):
        nxt = []
        new = set()
        for f, a in rest:
            if a & names:
                out.append(f)
                new |= a
            else:
                nxt.append((f, a))
        names |= new
        rest = nxt
    return out[:limit]


def _atoms(z):
    seen = set()
    stack = [z]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                yield t.get_id()
                if t.num_args():
                    continue
            stack.extend(t.children())


def ackermann(fs):
    """replace applications by fresh variables (no congruence: weaker, still sound for unsat)"""
    cache = {}

    def go(t):
        if t.get_id() in cache:
            return cache[t.get_id()]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            r = z3.Const(f'ack{t.get_id()}', t.sort())
        elif z3.is_app(t) and t.num_args():
            r = t.decl()(*[go(c) for c in t.children()])
        else:
            r = t
        cache[t.get_id()] = r
        return r
    return [go(f) for f in fs]


def rational_identity(a, b):
    if size(a, 20000) + size(b, 20000) > 30000:
        return False
    return laurent.equal(a, b)


def instantiate(cond):
    """the universally quantified facts that talk about a term of the condition, at that term; whether there are new ones"""
    p = P()
    ground = uf_apps([cond])
    new = False
    for k, n, body, tmpl in p.root.qfacts[-20:]:
        for t in solve_index(body, k, ground)[:4]:
            def fs():
                nonlocal new
                new = True
                p.root.keep.append(t)
                return [z3.Implies(z3.And(t >= 0, t < n), z3.substitute(body, (k, t)))]
            p.axiom(('qinst', k.get_id(), body.get_id(), t.get_id()), fs)
    return new


CTX.instantiate = instantiate
