"""Symbolic summarisation of loops: every state variable becomes a trajectory indexed by the iteration."""
from __future__ import annotations
import numpy as np
import z3
from . import sym as S
from . import seqs as Q
from .sym import CTX, P, Sym, SInt, SReal, SBool, Unsupported, Infeasible, EngineSignal, num_z, to_real, bool_z
from .seqs import (flatten, unflatten, unify, subst, ite, SSeq, SList, as_seq, explore_local, Template, mentions,
                   free_params, Def, merge_values, concat)


class Ret(Exception):
    """not raised: marks a return outcome"""


class Loop:
    """k: generic index, M: number of completed iterations, leaves: trajectories"""
    def __init__(self):
        self.leaves = []       # (fn, params, init_z, step_z, kind, closed(t) or None)
        self.params = []
        self.facts = []

    def term(self, i, t):
        return self.leaves[i]['fn'](*self.params, t)

    def value_at(self, i, t):
        c = self.leaves[i].get('closed')
        return z3.simplify(c(t)) if c is not None else self.term(i, t)

    def assume_at(self, t):
        t = z3.simplify(t)
        p = P()
        p.root.keep.append((self, t))

        def fs():
            out = [z3.Implies(z3.And(t >= 0, t < self.M), z3.substitute(f, (self.k, t))) for f in self.facts]
            out += self.recurrence(t)
            return out
        p.axiom(('loop', id(self), t.get_id()), fs)

    def inst(self, t, pairs, succ=True):
        g = [z3.substitute(x, *pairs) if pairs else x for x in self.guard]
        sub = lambda f: z3.substitute(z3.substitute(f, *pairs) if pairs else f, (self.k, t))
        Ms = z3.substitute(self.M, *pairs) if pairs else self.M
        out = [z3.Implies(z3.And(t >= 0, t < Ms, *g), sub(f)) for f in self.facts]
        tt = z3.FreshInt('t')
        rec = self.recurrence(tt, succ)
        for f in rec:
            f = z3.substitute(f, *pairs) if pairs else f
            out.append(z3.Implies(z3.And(*g), z3.substitute(f, (tt, t))))
        return out

    def recurrence(self, t, succ=True):
        out = []
        for i, l in enumerate(self.leaves):
            if l.get('closed') is not None:
                out.append(z3.Implies(z3.And(t >= 0, t <= self.M), self.term(i, t) == l['closed'](t)))
                continue
            out.append(z3.Implies(t == 0, self.term(i, t) == l['init']))
            st = l['step']
            if succ:
                out.append(z3.Implies(z3.And(t >= 0, t < self.M),
                                      self.term(i, t + 1) == z3.substitute(st, (self.k, t))))
            tm = z3.simplify(t - 1)
            out.append(z3.Implies(z3.And(t >= 1, t <= self.M),
                                  self.term(i, t) == z3.substitute(st, (self.k, tm))))
        return out


class Recorder:
    """per-iteration recording of list appends and attribute writes"""


def summarise(interp, env, assigned, run_body, n, elem_at, target_bind, cond_run):
    """Returns (status, value): ('done', None) after the loop, or ('return', v).  Raises for exceptional exits.
    run_body() -> None | ('return', v) | 'break' | 'continue'"""
    p0 = P()
    names = [x for x in assigned if env.has_local(x) and x not in (target_bind or {}).get('names', ())]
    keys = [('loc', x) for x in names]
    skels = {}
    tries = 0
    while True:
        tries += 1
        if tries > 12:
            raise Unsupported('loop state does not stabilise')
        r = _attempt(interp, env, keys, skels, run_body, n, elem_at, target_bind, cond_run, assigned)
        if r[0] == 'retry':
            continue
        return r


def _get_key(env, key):
    if key[0] == 'loc':
        return env.get_local(key[1])
    if key[0] == 'len':
        s = as_seq(key[1])
        return SInt(s.n)
    if key[0] == 'last':
        return key[1].last_init() if hasattr(key[1], 'last_init') else key[1][-1]
    if key[0] == 'arr':
        return key[1]
    if key[0] == 'store':
        return None
    if key[0] == 'attr':
        return object.__getattribute__(key[1], key[2])
    raise Unsupported(str(key))


def _attempt(interp, env, keys, skels, run_body, n, elem_at, target_bind, cond_run, assigned):
    p0 = P()
    root = p0.root
    L = Loop()
    k = z3.FreshInt('k')
    L.k = k
    L.params = list(CTX.params)
    L.guard = Q.scope_guard()
    M = z3.Function(p0.fresh_name('COUNT'), *([z3.IntSort()] * (len(L.params))), z3.IntSort()) if L.params else None
    Mz = M(*L.params) if M is not None else z3.Int(p0.fresh_name('COUNT'))
    # initial values
    layout = []      # (key, skeleton, start, count)
    lists = [kk[1] for kk in keys if kk[0] == 'len']
    stores = [kk[1] for kk in keys if kk[0] == 'store']
    arrays = [kk[1] for kk in keys if kk[0] == 'arr']
    pinned = {}
    for key in keys:
        if key[0] == 'loc' and any(_get_key(env, key) is a for a in arrays):
            pinned[key[1]] = _get_key(env, key)      # a name of an array that the body changes in place
            continue
        v0 = _get_key(env, key)
        leaves = []
        sk = flatten(v0, leaves)
        want = skels.get(_kid(key))
        if want is not None and want != sk:
            # coerce the initial value to the wanted skeleton
            sk2, la, _ = unify(sk, leaves, want[0] if isinstance(want, list) else want, _dummy(want))
            if sk2 != want:
                skels[_kid(key)] = sk2
                return ('retry',)
            sk, leaves = sk2, la
        start = len(L.leaves)
        for z in leaves:
            fn = z3.Function(p0.fresh_name('T'), *([z3.IntSort()] * (len(L.params) + 1)), z.sort())
            L.leaves.append({'fn': fn, 'init': z3.simplify(z), 'key': key, 'step': None})
        layout.append((key, sk, start, len(leaves)))
    newkeys = []
    fresh_arrays = []
    retry = []

    base_mark = [None]

    def body():
        mark = len(Q.UNDO)
        vals = {}
        fresh_arrays.clear()
        for (key, sk, start, cnt) in layout:
            v = unflatten(sk, iter([L.term(i, k) for i in range(start, start + cnt)]))
            vals[_kid(key)] = v
            if isinstance(v, np.ndarray):
                fresh_arrays.append((v, key))
            if key[0] == 'arr':
                _set_array(key[1], v)
                continue
            if key[0] == 'loc':
                env.set_local(key[1], v)
            elif key[0] == 'attr':
                interp.raw_setattr(key[1], key[2], v)
        for lst in lists:
            _open_list(lst, vals)
        for x, a in pinned.items():
            env.set_local(x, a)
        for o in stores:
            o.opened = {'k': k, 'off': o.loop_offset, 'rec': [], 'last': vals.get(_kid(('last', o)))}
        writes = interp.begin_writes()
        try:
            if cond_run is not None:
                c = cond_run()
                if not bool(c):
                    return ('exit', snapshot(writes), None)
            if target_bind is not None:
                target_bind['bind'](elem_at(k))
            r = run_body()
            if r is None or r == 'continue':
                return ('next', snapshot(writes), None)
            if r == 'break':
                return ('break', snapshot(writes), None)
            return ('return', snapshot(writes), r[1])
        finally:
            interp.end_writes(writes)

    def snapshot(writes):
        st = {}
        for x, a in pinned.items():
            if env.get_local(x) is not a:
                raise Unsupported('a name for an array changed in place is bound to another array')
        for key in keys:
            if key[0] == 'loc':
                if key[1] in pinned:
                    continue
                st[_kid(key)] = v = env.get_local(key[1])
                for a, other in fresh_arrays:
                    if v is a and other != key:
                        raise Unsupported('two names of one array in a symbolic loop')
            elif key[0] == 'arr':
                st[_kid(key)] = key[1].copy()
            elif key[0] == 'store':
                st[_kid(key)] = None
                st[('rec', id(key[1]))] = [list(x) for x in key[1].opened['rec']]
            elif key[0] == 'last' and hasattr(key[1], 'last_init'):
                o = key[1].opened
                st[_kid(key)] = tuple(o['rec'][-1]) if o['rec'] else o['last']
            elif key[0] == 'attr':
                st[_kid(key)] = object.__getattribute__(key[1], key[2])
            elif key[0] == 'len':
                lst = key[1]
                st[_kid(key)] = SInt(z3.simplify(num_z(lst.reclen()) + len(lst.rec)))
                st[('rec', id(lst))] = list(lst.rec)
            elif key[0] == 'last':
                lst = key[1]
                st[_kid(key)] = lst.rec[-1] if lst.rec else lst.reclast()
        known = {_kid(kk) for kk in keys}
        for w in writes['attrs']:
            if _kid(w) not in known and not any(_kid(w) == _kid(x) for x in newkeys):
                newkeys.append(w)
        for lst in writes['lists']:
            if _kid(('len', lst)) not in known and not any(_kid(('len', lst)) == _kid(x) for x in newkeys):
                newkeys.append(('len', lst))
        for a in writes['arrays']:
            if hasattr(a, 'store_column'):
                if not any(a is x for x in stores) and not any(_kid(('store', a)) == _kid(x) for x in newkeys):
                    off = z3.simplify(a.stored_at - k)
                    if not z3.is_int_value(off):
                        raise Unsupported('array update at an index other than the position in the loop')
                    a.loop_offset = off.as_long()
                    newkeys.append(('store', a))
                continue
            mine = [kk for x, kk in fresh_arrays if x is a]
            if mine and mine[0][0] != 'loc':
                raise Unsupported('array update in a symbolic loop')
            a = saved[mine[0][1]] if mine else a
            if not isinstance(a, np.ndarray) or a.dtype != object:
                raise Unsupported('array update in a symbolic loop')
            if not any(a is x for x in arrays) and not any(_kid(('arr', a)) == _kid(x) for x in newkeys):
                newkeys.append(('arr', a))
        for lst in lists:
            if getattr(lst, 'want_last', False) and _kid(('last', lst)) not in known and \
                    not any(_kid(('last', lst)) == _kid(x) for x in newkeys):
                newkeys.append(('last', lst))
        st['locals'] = {x: env.get_local(x) for x in assigned if env.has_local(x)}
        return st

    facts = [k >= 0]
    if n is not None:
        facts.append(k < n)
    saved = {x: env.get_local(x) for x in assigned if env.has_local(x)}
    mark = len(Q.UNDO)
    try:
        outs = explore_local(body, facts=facts, generic=[k])
    except NeedLast as e:
        _restore(env, assigned, saved)
        Q.rollback(mark)
        if ('last', id(e.lst)) not in [(_k[0], id(_k[1])) for _k in keys]:
            if hasattr(e.lst, 'last_init'):
                keys.append(('last', e.lst))
                return ('retry',)
            s = as_seq(e.lst)
            if not P().known(s.n >= 1):
                raise Unsupported('last element of a list that may be empty')
            keys.append(('last', e.lst))
            return ('retry',)
        raise Unsupported('last element of a list')
    finally:
        _restore(env, assigned, saved)
        Q.rollback(mark)
        for lst in lists:
            lst.rec = None
        for o in stores:
            o.opened = None
    if newkeys:
        for w in newkeys:
            keys.append(w)
        return ('retry',)
    nexts = [o for o in outs if o.kind == 'ok' and o.value[0] == 'next']
    exits = [o for o in outs if not (o.kind == 'ok' and o.value[0] == 'next')]
    # unify skeletons
    for (key, sk, start, cnt) in layout:
        for o in outs:
            if o.kind != 'ok':
                continue
            lv = []
            s2 = flatten(o.value[1][_kid(key)], lv)
            if s2 != sk:
                sk3, _, _ = unify(sk, [l['init'] for l in L.leaves[start:start + cnt]], s2, lv)
                if sk3 != sk:
                    skels[_kid(key)] = sk3
                    return ('retry',)
    if n is not None and not exits:
        Mz = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
        if P().known(n >= 0):
            Mz = n
    L.M = Mz
    # merged steps
    for (key, sk, start, cnt) in layout:
        if not nexts:
            for i in range(cnt):
                L.leaves[start + i]['step'] = L.term(start + i, k)
            continue
        acc = None
        for o in reversed(nexts):
            lv = []
            s2 = flatten(o.value[1][_kid(key)], lv)
            if s2 != sk:
                _, _, lv = unify(sk, [l['init'] for l in L.leaves[start:start + cnt]], s2, lv)
            acc = lv if acc is None else [x if x.eq(y) else z3.If(o.cond, x, y) for x, y in zip(lv, acc)]
        for i in range(cnt):
            L.leaves[start + i]['step'] = z3.simplify(acc[i])
    for o in nexts:
        for f in o.facts:
            L.facts.append(f if z3.is_true(o.cond) else z3.Implies(o.cond, f))
    E = z3.simplify(z3.Or(*[o.cond for o in exits])) if exits else z3.BoolVal(False)
    if exits and nexts and n is not None and _never_left(L, E, n, k):
        # the loop runs to its end: by induction over the iterations no exit is taken
        L.facts.append(z3.Not(E))
        exits, E = [], z3.BoolVal(False)
        L.M = Mz = n if P().known(n >= 0) else z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
    if exits and nexts:
        L.facts.append(z3.Not(E))
    L.E = E
    pairs = _classify(L)
    root.loops.append(L)
    for i, l in enumerate(L.leaves):
        root.defs[l['fn'].name()] = Def('traj', l['fn'], L.params, loop=L, index=i)

    def sub(v, t):
        """value of the body at iteration t, with closed forms put in"""
        return subst(subst(v, pairs), [(k, t)]) if not isinstance(v, z3.ExprRef) else \
            z3.substitute(z3.substitute(v, *pairs) if pairs else v, (k, t))
    L.facts = [z3.substitute(f, *pairs) if pairs else f for f in L.facts]
    L.E = E = z3.simplify(z3.substitute(E, *pairs)) if pairs else E
    p = P()
    if exits:
        # canonical count: same exit condition, same count
        ck = ('count', Q.canon(E, k).get_id(), n.get_id() if n is not None else None,
              tuple(x.get_id() for x in free_params(E, *([n] if n is not None else []))))
        has_traj = any(l.get('closed') is None for l in L.leaves)
        if ck in root.defkey and not has_traj:
            L.M = Mz = root.defkey[ck]
        else:
            root.defkey[ck] = Mz
            root.keep.append((E, n))
            decl_name = Mz.decl().name()
            first = _first_exit(L, E, k) if n is None else None
            root.defs[decl_name] = Def('count', Mz.decl(), L.params, loop=L, n=n, first=first)
        first = getattr(root.defs[Mz.decl().name()], 'first', None)
        p.axiom(('count', Mz.get_id()), lambda: [Mz >= 0] + ([z3.Implies(n >= 0, Mz <= n), z3.Implies(n < 0, Mz == 0)]
                                                             if n is not None else []) +
                ([] if first is None else [Mz == first]))
        if not L.params:
            root.qfacts.append((k, Mz, z3.Not(E), L))
    for i, l in enumerate(L.leaves):
        if l.get('closed') is None:
            pass
    if not nexts and n is None:
        p.fact(Mz == 0)
    L.assume_at(Mz)
    L.has_n = n

    # lists
    recs = {}
    for lst in lists:
        counts = {len(o.value[1][('rec', id(lst))]) for o in nexts}
        recs[id(lst)] = counts

    def list_value(lst, done_n):
        base = as_seq(lst)
        counts = recs[id(lst)]
        if counts <= {0} or not nexts:
            return base
        if counts == {1}:
            try:
                el = merge_values(nexts, lambda o: o.value[1][('rec', id(lst))][0])
            except Unsupported:
                def get(i):
                    for o in nexts[:-1]:
                        if P().fork(sub(o.cond, i)):
                            return sub(o.value[1][('rec', id(lst))][0], i)
                    return sub(nexts[-1].value[1][('rec', id(lst))][0], i)
                return concat(base, SSeq(done_n, get))

            def get(i):
                L.assume_at(i)
                return sub(el, i)
            return concat(base, SSeq(done_n, get))
        if counts == {0, 1}:
            raise Unsupported('conditional append in a symbolic loop')
        raise Unsupported('several appends per iteration in a symbolic loop')

    columns = {}
    for o in stores:
        ends = [x for x in exits if x.kind == 'ok']
        if any(x.value[1][('rec', id(o))] for x in ends):
            raise Unsupported('array update in an iteration that leaves a symbolic loop')
        cs = {len(x.value[1][('rec', id(o))]) for x in nexts}
        if cs - {0, 1} or (cs == {0, 1} and any(kk[0] == 'last' and kk[1] is o for kk in keys)):
            raise Unsupported('several array updates per iteration in a symbolic loop')
        columns[id(o)] = cs

    def put_columns(o, t):
        if columns[id(o)] <= {0}:
            return
        off, width = o.loop_offset, len(o.rows_())

        def row(r, old):
            def new(x, i):
                rec = x.value[1][('rec', id(o))]
                return sub(rec[0][r], i) if rec else old.get(z3.simplify(i + off))

            def get(j):
                i = z3.simplify(j - off)

                def stored():
                    L.assume_at(i)
                    v = new(nexts[-1], i)
                    for x in reversed(nexts[:-1]):
                        v = ite(sub(x.cond, i), new(x, i), v)
                    return v
                inside = z3.simplify(z3.And(i >= 0, i < t))
                if P().known(inside):
                    return stored()
                if P().known(z3.Not(inside)):
                    return old.get(j)
                return ite(inside, stored(), old.get(j))
            return get
        o.put([row(r, old) for r, old in enumerate(o.rows_())])

    def commit(state_at, t, extra=None):
        for o in stores:
            put_columns(o, t)
        for (key, sk, start, cnt) in layout:
            v = state_at(key, sk, start, cnt)
            if key[0] == 'arr':
                _set_array(key[1], v)
                continue
            if key[0] == 'loc':
                env.set_local(key[1], v)
            elif key[0] == 'attr':
                interp.raw_setattr(key[1], key[2], v)
        for lst in lists:
            s = list_value(lst, t)
            ex = (extra or {}).get(id(lst), [])
            sym_n = z3.simplify(s.n)
            if recs[id(lst)] <= {0} and not ex:
                continue
            if z3.is_int_value(sym_n) and sym_n.as_long() <= 32:
                lst._set(None, [s.get(z3.IntVal(i)) for i in range(sym_n.as_long())])
            else:
                lst._set(s, None)
            for x in ex:
                lst.append(x)

    def plain(key, sk, start, cnt):
        return unflatten(sk, iter([L.value_at(i, Mz) for i in range(start, start + cnt)]))

    if n is not None:
        finished = True
        if exits:
            finished = p.fork(Mz == z3.If(n > 0, n, z3.IntVal(0)))
        if finished:
            commit(plain, Mz)
            # names first bound inside the body keep the last iteration's value
            _late_locals(env, assigned, nexts, L, sub, Mz, target_bind, elem_at, n, saved)
            return ('done', None)
    # left at iteration Mz through one of the exit outcomes
    if n is not None:
        p.fact(z3.And(Mz >= 0, Mz < n))
    for idx, o in enumerate(exits):
        c = sub(o.cond, Mz)
        if idx == len(exits) - 1:
            p.fact(c)
            taken = True
            if p.check(z3.BoolVal(True)) == z3.unsat:
                raise Infeasible()
        else:
            taken = p.fork(c)
        if not taken:
            continue
        for f in o.facts:
            p.fact(sub(f, Mz))
        if o.kind == 'raise':
            raise o.value
        kind, st, rv = o.value
        extra = {id(lst): [sub(x, Mz) for x in st[('rec', id(lst))]] for lst in lists}

        def at_exit(key, sk, start, cnt):
            return sub(st[_kid(key)], Mz)
        commit(at_exit, Mz, extra)
        for x, v in st['locals'].items():
            if ('loc', x) not in [(kk[0], kk[1]) for kk in keys if kk[0] == 'loc']:
                env.set_local(x, sub(v, Mz) if not isinstance(v, (SList,)) else v)
        if kind == 'return':
            return ('return', sub(rv, Mz) if not isinstance(rv, SList) or rv.sym is not None else rv)
        return ('done', kind)
    raise Infeasible()


def _set_array(a, v):
    old = a.copy()
    Q.journal(lambda: a.__setitem__(Ellipsis, old))
    a[...] = v


def _never_left(L, E, n, k):
    p = P()
    T = [(L.term(i, k), l) for i, l in enumerate(L.leaves)]
    if not any(mentions_term(E, t) for t, _ in T):
        return False
    base = z3.substitute(z3.substitute(E, *[(t, l['init']) for t, l in T]), (k, z3.IntVal(0)))
    if not p.known(z3.Implies(n > 0, z3.Not(base))):
        return False
    nxt = z3.substitute(E, (k, k + 1))
    nxt = z3.substitute(nxt, *[(L.term(i, k + 1), l['step']) for i, (_, l) in enumerate(T)])
    nxt = z3.substitute(nxt, *[(L.term(i, z3.simplify(k + 1)), l['step']) for i, (_, l) in enumerate(T)])
    return p.known(z3.Implies(z3.And(k >= 0, k + 1 < n, z3.Not(E), *L.facts), z3.Not(nxt)))


def _first_exit(L, E, k):
    """the number of iterations of a loop that is left within a week whatever its input, such as the search for a
    weekday; None when that is not evident from the arithmetic of the condition alone"""
    if any(l.get('closed') is None for l in L.leaves) or not mentions_term(E, k):
        return None
    seen, st = set(), [E]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 200 or not z3.is_app(x):
            return None
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            if mentions_term(x, k):
                return None
            continue
        st.extend(x.children())
    at = [z3.simplify(z3.substitute(E, (k, z3.IntVal(i)))) for i in range(8)]
    sv = z3.Solver()
    sv.set('timeout', 2000)
    sv.add(z3.Not(z3.Or(*at)))
    if sv.check() != z3.unsat:
        return None
    out = z3.IntVal(7)
    for i in reversed(range(7)):
        out = z3.If(at[i], z3.IntVal(i), out)
    return out


def mentions_term(e, t):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(t):
            return True
        if z3.is_app(x):
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return False


def _late_locals(env, assigned, nexts, L, sub, Mz, target_bind, elem_at, n, saved):
    late = [x for x in assigned if not env.has_local(x)]
    tnames = (target_bind or {}).get('names', ())
    late = [x for x in assigned if x not in saved or x in tnames]
    if not late or not nexts:
        return
    if not P().known(Mz >= 1):
        return
    t = z3.simplify(Mz - 1)
    for x in late:
        try:
            v = merge_values(nexts, lambda o: o.value[1]['locals'][x])
            L.assume_at(t)
            env.set_local(x, sub(v, t))
        except (Unsupported, KeyError):
            pass


class NeedLast(EngineSignal):
    def __init__(self, lst):
        self.lst = lst


def _open_list(lst, vals):
    lst.rec = []
    lenv = vals[_kid(('len', lst))]
    lst.reclen = lambda: lenv
    lastv = vals.get(_kid(('last', lst)))

    def reclast():
        if lastv is None:
            raise NeedLast(lst)
        return lastv
    lst.reclast = reclast


def _restore(env, assigned, saved):
    for x in assigned:
        if x in saved:
            env.set_local(x, saved[x])
        elif env.has_local(x):
            env.del_local(x)


def _kid(key):
    if key[0] == 'loc':
        return key
    if key[0] == 'attr':
        return ('attr', id(key[1]), key[2])
    return (key[0], id(key[1]))


def _dummy(sk):
    n = []

    def go(s):
        if s == 'bool':
            n.append(z3.BoolVal(False))
        elif s == 'real':
            n.append(z3.RealVal(0))
        elif s in ('int', 'date', 'datetime', 'delta'):
            n.append(z3.IntVal(0))
        elif isinstance(s, tuple):
            if s[0] == 'opt':
                n.append(z3.BoolVal(True)); go(s[1])
            elif s[0] in ('tuple', 'array'):
                for x in s[2]:
                    go(x)
            elif s[0] == 'list':
                for x in s[1]:
                    go(x)
            elif s[0] == 'dc':
                for _, x in s[2]:
                    go(x)
            elif s[0] == 'tenor':
                n.append(z3.IntVal(0))
            elif s[0] == 'rd':
                n.extend([z3.IntVal(0)] * 3)
    go(sk)
    return n


def _tdecls(z, names, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    stack = [z]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            nm = t.decl().name()
            if nm in names:
                acc.add(nm)
            stack.extend(t.children())
    return acc


def _classify(L):
    """closed forms of trajectories; returns substitution pairs T_i(k) -> closed form at k"""
    k = L.k
    names = {l['fn'].name(): i for i, l in enumerate(L.leaves)}
    pairs = []
    tmpl = Template(k, L.M, [])
    L.tmpl = tmpl
    changed = True
    while changed:
        changed = False
        for i, l in enumerate(L.leaves):
            if l.get('closed') is not None:
                continue
            Tk = L.term(i, k)
            st = z3.simplify(z3.substitute(l['step'], *pairs)) if pairs else l['step']
            l['step'] = st
            closed = _closed(L, i, l, Tk, st, names, k, tmpl)
            if closed is not None:
                l['closed'] = closed
                pairs.append((Tk, z3.simplify(closed(k))))
                changed = True
    # substitute inside pairs to fixpoint
    out = []
    for a, b in pairs:
        for _ in range(3):
            b = z3.simplify(z3.substitute(b, *[x for x in pairs if not x[0].eq(a)]))
        out.append((a, b))
    tmpl.facts = L.facts
    for l in L.leaves:
        if l.get('closed') is None and out:
            l['step'] = z3.simplify(z3.substitute(l['step'], *out))
    return out


def _each(st, f):
    if z3.is_app(st) and st.decl().kind() == z3.Z3_OP_ITE:
        a, b = _each(st.arg(1), f), _each(st.arg(2), f)
        return a if a.eq(b) else z3.If(st.arg(0), a, b)
    return f(st)


def _all(st, f):
    if z3.is_app(st) and st.decl().kind() == z3.Z3_OP_ITE:
        return _all(st.arg(1), f) and _all(st.arg(2), f)
    return f(st)


def _is0(z):
    return z3.is_rational_value(z) and z.numerator_as_long() == 0


def _minus(st, Tk):
    return _each(st, lambda x: S.norm(x - Tk))


def _closed(L, i, l, Tk, st, names, k, tmpl):
    init = l['init']
    if st.eq(Tk):
        return lambda t: init
    sort = st.sort()
    used = _tdecls(st, names)
    me = l['fn'].name()
    if me not in used:
        if used:
            return None
        if not mentions(st, k):
            return lambda t: z3.If(t <= 0, init, st)
        return lambda t: z3.If(t <= 0, init, z3.substitute(st, (k, z3.simplify(t - 1))))
    if sort in (z3.IntSort(), z3.RealSort()):
        d = _minus(st, Tk)
        du = _tdecls(d, names)
        if not du and not mentions(d, k):
            if sort == z3.IntSort():
                return lambda t: init + t * d
            return lambda t: init + z3.ToReal(t) * d
        if me not in du and sort == z3.RealSort() and not du:
            return lambda t: init + Q.sum_def(k, d, t, tmpl)
        if me not in du and sort == z3.IntSort() and not du:
            return None
        if sort == z3.RealSort():
            f = _each(st, lambda x: S.norm(z3.substitute(x, (Tk, z3.RealVal(1)))))
            fu = _tdecls(f, names)
            if not fu:
                if z3.is_app(st) and st.decl().kind() == z3.Z3_OP_ITE:
                    if _all(st, lambda x: _is0(S.norm(x - Tk * S.norm(z3.substitute(x, (Tk, z3.RealVal(1))))))):
                        return lambda t: init * Q.prod_def(k, f, t, tmpl)
                    return None
                diff = S.norm(st - Tk * f)
                if z3.is_rational_value(diff) and diff.numerator_as_long() == 0:
                    return lambda t: init * Q.prod_def(k, f, t, tmpl)
    return None
