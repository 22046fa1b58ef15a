"""Discharges obligations. Back ends, in order:
  syntactic   goal among hypotheses / constant
  poly        polynomial normal form (equality after clearing denominators and reducing by equations)
  z3-lin      z3 LRA/LIA over the monomials (linear abstraction; sound: it only forgets facts)
  z3-prod     the same with pairwise products of hypotheses added (Positivstellensatz degree-2 search by LRA)
  z3-nl       z3 nonlinear (nlsat)
  cvc5        cvc5 nonlinear, via SMT-LIB
"""
import time
import os
import subprocess
import tempfile
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, TRUE, FALSE, R, I, not_, and_, or_, eq, lt, le, poly

z3.set_param('smt.random_seed', 1)


def z3num(c, isint=False):
    if isint:
        return z3.IntVal(int(c))
    f = Fraction(c)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(str(f.numerator))


# --------------------------------------------------------------- full z3 encoding
class Z3Enc:
    """exact encoding (nonlinear, arrays, quantifiers)"""

    def __init__(self):
        self.cache = {}
        self.side = []
        self.vars = {}
        self.uf = {}

    def sort(self, s):
        if s == 'R':
            return z3.RealSort()
        if s == 'I':
            return z3.IntSort()
        if s == 'B':
            return z3.BoolSort()
        return z3.ArraySort(self.sort(s[1]), self.sort(s[2]))

    def enc(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._enc(t)
            self.cache[t.id] = r
        return r

    def _enc(self, t):
        op, a = t.op, t.args
        if op == 'const':
            if t.sort == 'B':
                return z3.BoolVal(a[0])
            return z3num(a[0], t.sort == 'I')
        if op == 'var':
            v = z3.Const(a[0] if not isinstance(a[0], tuple) else str(a[0]), self.sort(t.sort))
            self.vars[t] = v
            return v
        if op == 'add':
            return self.enc(a[0]) + self.enc(a[1])
        if op == 'neg':
            return -self.enc(a[0])
        if op == 'mul':
            return self.enc(a[0]) * self.enc(a[1])
        if op == 'div':
            d = self.enc(a[1])
            q = z3.Real(f"div!{t.id}")
            self.side.append(z3.Implies(d != 0, q * d == self.enc(a[0])))
            return q
        if op == 'den':
            return self.enc(a[0])
        if op == 'sqrt':
            s = z3.Real(f"sqrt!{t.id}")
            x = self.enc(a[0])
            self.side.append(s >= 0)
            self.side.append(z3.Implies(x >= 0, s * s == x))
            return s
        if op == 'toreal':
            return z3.ToReal(self.enc(a[0]))
        if op == 'ite':
            return z3.If(self.enc(a[0]), self.enc(a[1]), self.enc(a[2]))
        if op == 'not':
            return z3.Not(self.enc(a[0]))
        if op == 'and':
            return z3.And([self.enc(x) for x in a])
        if op == 'lt0':
            return self.enc(a[0]) < 0
        if op == 'eq0':
            return self.enc(a[0]) == 0
        if op == 'eq':
            return self.enc(a[0]) == self.enc(a[1])
        if op == 'mod':
            return self.enc(a[0]) % self.enc(a[1])
        if op == 'idiv':
            return self.enc(a[0]) / self.enc(a[1])
        if op == 'select':
            return z3.Select(self.enc(a[0]), self.enc(a[1]))
        if op == 'store':
            return z3.Store(self.enc(a[0]), self.enc(a[1]), self.enc(a[2]))
        if op == 'forall':
            bv = [self.enc(x) for x in a[:-1]]
            body = self.enc(a[-1])
            return z3.ForAll(bv, body)
        if op.startswith('bv'):
            k = 'and' if op.startswith('bvand') else 'or' if op.startswith('bvor') else 'xor'
            w = int(op[2 + len(k):])
            x, y = z3.Int2BV(self.enc(a[0]), w), z3.Int2BV(self.enc(a[1]), w)
            r = x & y if k == 'and' else x | y if k == 'or' else x ^ y
            return z3.BV2Int(r)
        if op.startswith('fn:'):
            f = z3.Function(op[3:], *([self.sort(x.sort) for x in a] + [self.sort(t.sort)]))
            return f(*[self.enc(x) for x in a])
        raise NotImplementedError(op)


# ------------------------------------------------------------ literal handling
def literals(ts):
    """flatten conjunctions; returns list of B terms"""
    out = []
    st = list(ts)[::-1]
    seen = set()
    while st:
        t = st.pop()
        if t is TRUE or t in seen:
            continue
        if t.op == 'and':
            st.extend(reversed(t.args))
            continue
        seen.add(t)
        out.append(t)
    return out


def lit(t):
    """(kind, term) with kind lt/ge/eq/ne for arithmetic literals, else None"""
    if t.op == 'lt0':
        return 'lt', t.args[0]
    if t.op == 'eq0':
        return 'eq', t.args[0]
    if t.op == 'not':
        u = t.args[0]
        if u.op == 'lt0':
            return 'ge', u.args[0]
        if u.op == 'eq0':
            return 'ne', u.args[0]
    return None


def has_sort(ts, pred):
    return any(pred(t) for t in tm.subterms(ts).values())


def is_arrayish(ts):
    return has_sort(ts, lambda t: isinstance(t.sort, tuple) or t.op in ('select', 'store', 'forall') or t.op.startswith('bv'))


class Lin:
    """linear abstraction over monomials"""

    def __init__(self):
        self.mono = {}
        self.cache = {}
        self.extra = []
        self.nonneg_atoms = set()
        self.defs_done = set()
        self.intatoms = {}

    def mvar(self, m, isint=False):
        v = self.mono.get(m)
        if v is None:
            if len(m) == 1 and m[0][1] == 1:
                a = tm.ATOM[m[0][0]]
                v = z3.Int(f"m!{len(self.mono)}") if a.sort == 'I' else z3.Real(f"m!{len(self.mono)}")
                self.mono[m] = v
                self.atom_facts(a, v)
            else:
                v = z3.Real(f"m!{len(self.mono)}")
                if all(tm.ATOM[x].sort == 'I' for x, _ in m):
                    v = z3.Int(f"m!{len(self.mono)}")
                self.mono[m] = v
                if all(e % 2 == 0 or x in self.nonneg_atoms or tm.ATOM[x].op == 'sqrt' for x, e in m):
                    self.extra.append(v >= 0)
        return v

    def atom_facts(self, a, v):
        if a.op == 'sqrt':
            self.extra.append(v >= 0)
        elif a.op == 'ite':
            self.extra.append(z3.If(self.b(a.args[0]), v == self.num(a.args[1]), v == self.num(a.args[2])))
        elif a.op == 'mod':
            self.extra.append(v >= 0)
            if a.args[1].op == 'const':
                k = a.args[1].args[0]
                q = z3.Int(f"q!{a.id}")
                self.extra.append(v < k)
                self.extra.append(self.num(a.args[0]) == q * k + v)
            else:
                self.extra.append(v < self.num(a.args[1]))
        elif a.op == 'idiv':
            if a.args[1].op == 'const':
                k = a.args[1].args[0]
                x = self.num(a.args[0])
                self.extra.append(v * k <= x)
                self.extra.append(x < v * k + k)
        elif a.op == 'toreal':
            self.extra.append(v == z3.ToReal(self.num(a.args[0])))
        elif a.op.startswith('fn:floor') or a.op.startswith('fn:trunc'):
            pass

    def num(self, t):
        p = poly(t)
        if p is None:
            p = {((tm.atom_id(t), 1),): 1}
        return self.pnum(p, t.sort == 'I')

    def pnum(self, p, isint=False):
        s = []
        for m, c in p.items():
            if m == ():
                s.append(z3num(c, isint))
            else:
                v = self.mvar(m)
                s.append(v if c == 1 else z3num(c, isint) * v)
        if not s:
            return z3num(0, isint)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def b(self, t):
        r = self.cache.get(t.id)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == 'const':
            r = z3.BoolVal(a[0])
        elif op == 'var':
            r = z3.Bool(f"b!{t.id}")
        elif op == 'not':
            r = z3.Not(self.b(a[0]))
        elif op == 'and':
            r = z3.And([self.b(x) for x in a])
        elif op == 'lt0':
            r = self.num(a[0]) < 0
        elif op == 'eq0':
            r = self.num(a[0]) == 0
        else:
            r = z3.Bool(f"b!{t.id}")
        self.cache[t.id] = r
        return r

    def check(self, ts, more=(), timeout=2000):
        zs = [self.b(t) for t in ts]
        s = z3.Solver()
        s.set('timeout', timeout)
        for z in zs:
            s.add(z)
        for m in more:
            s.add(m)
        done = 0
        while done < len(self.extra):
            n = len(self.extra)
            for e in self.extra[done:n]:
                s.add(e)
            done = n
        return s.check()


def feasible_quick(pc, c, timeout=400):
    """False only if pc & c is certainly unsatisfiable"""
    try:
        ts = literals(list(pc) + [c])
        if FALSE in ts:
            return False
        L = Lin()
        # relevant slice only
        return L.check(ts, timeout=timeout) != z3.unsat
    except tm.TooBig:
        return True


class Feas:
    def __init__(self):
        self.cache = {}
        self.calls = 0
        self.time = 0.0

    def __call__(self, pc, c):
        key = (c.id, frozenset(t.id for t in pc))
        r = self.cache.get(key)
        if r is None:
            t0 = time.time()
            r = feasible_quick(slice_pc(pc, c), c)
            self.time += time.time() - t0
            self.calls += 1
            self.cache[key] = r
        return r


_sup = {}


def support(t):
    s = _sup.get(t.id)
    if s is None:
        s = frozenset(x.id for x in tm.subterms([t]).values() if x.op == 'var' or x.op.startswith('fn:') or x.op == 'select')
        _sup[t.id] = s
    return s


def slice_pc(pc, c):
    """hypotheses connected to c through shared variables"""
    need = set(support(c))
    rest = list(pc)
    out = []
    changed = True
    while changed and rest:
        changed = False
        keep = []
        for t in rest:
            if support(t) & need or not support(t):
                out.append(t)
                need |= support(t)
                changed = True
            else:
                keep.append(t)
        rest = keep
    return out


# -------------------------------------------------------------- poly reasoning
def sos_positive(p):
    """p is trivially >0: sum of even monomials with positive coefficients and a positive constant"""
    return p.get((), 0) > 0 and all(c > 0 and all(e % 2 == 0 or tm.ATOM[v].op == 'sqrt' for v, e in m) for m, c in p.items())


class Ctx:
    """arithmetic facts from hypotheses: list of (kind, poly)"""

    def __init__(self, lits):
        self.facts = []
        for t in lits:
            l = lit(t)
            if l and l[1].sort == 'R':
                p = poly(l[1])
                if p is not None:
                    self.facts.append((l[0], p, t))
        self.subst = []      # (atom, poly)
        self.rules = []      # (atom, k, poly): atom^k -> poly
        self.signs = {}
        self._sign_from_facts()

    def _sign_from_facts(self):
        self.pos = {}
        for k, p, _ in self.facts:
            q = tm.primitive(p)
            key = frozenset(q.items())
            nkey = frozenset((m, -c) for m, c in q.items())
            if k == 'lt':
                self.pos[nkey] = 1
                self.pos[key] = -1
            elif k == 'ge':
                self.pos.setdefault(key, '>=')
                self.pos.setdefault(nkey, '<=')

    def sign(self, atom):
        """sign of an atom: +1/-1 (strict) or None"""
        t = tm.ATOM[atom]
        if atom in self.signs:
            return self.signs[atom]
        self.signs[atom] = None
        s = None
        p = tm.DEN_OF.get(atom)
        if p is None:
            p = {((atom, 1),): 1}
        key = frozenset(tm.primitive(p).items())
        v = self.pos.get(key)
        if v in (1, -1):
            s = v
        elif sos_positive(p):
            s = 1
        else:
            # linear consequence?
            try:
                lits = [f[2] for f in self.facts]
                g = tm.from_poly(p, 'R')
                if t.op == 'sqrt':
                    s = 1        # sqrt atoms in denominators are non-zero
                elif Lin().check(literals(lits + [le(g, R(0))]), timeout=300) == z3.unsat:
                    s = 1
                elif Lin().check(literals(lits + [le(R(0), g)]), timeout=300) == z3.unsat:
                    s = -1
            except tm.TooBig:
                pass
        self.signs[atom] = s
        return s

    def clear(self, p, kind):
        """multiply by denominators; returns (poly, flipped)"""
        flip = False
        for _ in range(60):
            negs = {}
            for m in p:
                for v, e in m:
                    if e < 0:
                        negs[v] = max(negs.get(v, 0), -e)
            dens = [v for m in p for v, e in m if v in tm.DEN_OF and e > 0]
            if not negs and not dens:
                break
            if negs:
                # innermost denominators last: pick the newest atom
                v = max(negs)
                k = negs[v]
                if kind in ('lt', 'ge') and k % 2 == 1:
                    s = self.sign(v)
                    if s is None:
                        k += 1
                    elif s < 0:
                        flip = not flip
                # multiply monomial-wise, then expand the denominator atom
                q = {}
                for m, c in p.items():
                    d = dict(m)
                    d[v] = d.get(v, 0) + k
                    if d[v] == 0:
                        del d[v]
                    mm = tuple(sorted(d.items()))
                    q[mm] = q.get(mm, 0) + c
                p = q
                if v in tm.DEN_OF:
                    p = tm.psub(p, v, tm.DEN_OF[v])
                if any(tm._needs_reduce(m) for m in p):
                    p = tm.reduce_sqrt(p)
            else:
                v = max(dens)
                p = tm.psub(p, v, tm.DEN_OF[v])
        return p, flip


def reduce_by(p, rules, limit=20000):
    """rules: list of (mono lead, poly tail): lead -> tail; normal form"""
    out = {}
    todo = dict(p)
    steps = 0
    while todo:
        batch, todo = todo, {}
        for m, c in batch.items():
            d = None
            for lead, tail in rules:
                dd = dict(m) if d is None else d
                d = dd
                if all(dd.get(v, 0) >= e for v, e in lead):
                    break
            else:
                x = out.get(m, 0) + c
                if x:
                    out[m] = x
                else:
                    out.pop(m, None)
                continue
            for v, e in lead:
                d[v] -= e
                if d[v] == 0:
                    del d[v]
            q = tm.pmul({tuple(sorted(d.items())): c}, tail)
            for k, v in q.items():
                x = todo.get(k, 0) + v
                if x:
                    todo[k] = x
                else:
                    todo.pop(k, None)
            steps += 1
        if len(out) + len(todo) > limit or steps > 400000:
            raise tm.TooBig()
    return out


def equation_rules(eqs):
    """turn equations (polys) into rewriting rules lead -> tail. Linear-in-an-atom equations first, then pure powers."""
    rules = []
    used = set()
    todo = list(eqs)
    subst = []
    progress = True
    while progress:
        progress = False
        for k, p in enumerate(todo):
            best = None
            for v in sorted(tm.atoms_of_poly(p), reverse=True):
                occ = [(m, c) for m, c in p.items() if any(x == v for x, _ in m)]
                if len(occ) == 1 and occ[0][0] == ((v, 1),):
                    best = (v, occ[0][1])
                    break
            if best:
                v, c = best
                if tm.ATOM[v].op == 'sqrt' or any(v in tm.atoms_of_poly(q) for q in tm.SQRT_OF.values()) or \
                        any(v in tm.atoms_of_poly(q) for q in tm.DEN_OF.values()):
                    continue
                rest = {m: cc for m, cc in p.items() if m != ((v, 1),)}
                tail = tm.pscale(rest, Fraction(-1) / Fraction(c))
                todo.pop(k)
                todo = [tm.psub(q, v, tail) for q in todo]
                todo = [q for q in todo if q]
                subst = [(w, tm.psub(q, v, tail)) for w, q in subst] + [(v, tail)]
                progress = True
                break
    for p in todo:
        # choose a pure even power v^2 with constant coefficient, atom unused as a lead so far
        cand = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] >= 2 and m[0][0] not in used:
                if cand is None or m[0][0] > cand[0][0][0]:
                    cand = (m, c)
        if cand is None:
            continue
        m, c = cand
        used.add(m[0][0])
        rest = {k: v for k, v in p.items() if k != m}
        rules.append((m, tm.pscale(rest, Fraction(-1) / Fraction(c))))
    return subst, rules, todo


class EqRed:
    """normal forms modulo the equations among the facts"""

    def __init__(self, facts):
        self.ctx = Ctx([])
        eqs = []
        for t in facts:
            l = lit(t)
            if l and l[0] == 'eq' and l[1].sort == 'R':
                p = poly(l[1])
                if p:
                    p, _ = self.ctx.clear(p, 'eq')
                    if p:
                        eqs.append(p)
        self.subst, self.rules, self.rest = equation_rules(eqs)
        self.mk_ = tm.atom_id(tm.var('mark!', 'R'))

    def red(self, p):
        for v, w in self.subst:
            p = tm.psub(p, v, w)
        return reduce_by(p, self.rules) if self.rules else p

    def numden(self, q):
        full = tm.padd(q, {((self.mk_, 1),): 1})
        full, _ = self.ctx.clear(full, 'eq')
        full = self.red(full)
        n, d = {}, {}
        for m, c in full.items():
            mm = tuple(x for x in m if x[0] != self.mk_)
            if len(mm) != len(m):
                d[mm] = d.get(mm, 0) + c
            else:
                n[m] = c
        return n, d

    def const(self, q):
        """constant value of q modulo the equations, else None"""
        n, d = self.numden(q)
        if not n:
            return Fraction(0)
        m0 = next(iter(n))
        if m0 in d and len(n) == len(d):
            k = Fraction(n[m0]) / Fraction(d[m0])
            if all(m in d and Fraction(n[m]) == k * d[m] for m in n):
                return k
        return None


_eqred = {}


def eqred_of(pc):
    eqs = [t for t in pc if t.op == 'eq0' and t.args[0].sort == 'R']
    if not eqs:
        return None
    key = tuple(t.id for t in eqs)
    r = _eqred.get(key)
    if r is None:
        try:
            r = EqRed(eqs)
        except tm.TooBig:
            r = False
        _eqred[key] = r
    return r or None


# -------------------------------------------------------------------- prover
class Result:
    __slots__ = ("status", "backend", "time", "model", "note")

    def __init__(self, status, backend, t=0.0, model=None, note=''):
        self.status, self.backend, self.time, self.model, self.note = status, backend, t, model, note


CVC5 = 'cvc5'
Z3NEW = 'z3-new'


class Prover:
    def __init__(self, nl_timeout=20000, use_ext=True):
        self.nl_timeout = nl_timeout
        self.use_ext = use_ext
        self.stats = {}
        self.want_model = True
        self.quick = False

    def prove(self, hyps, goal, hints=()):
        t0 = time.time()
        if tm.NAMED and any(i in tm.NAMED for i in tm.subterms(list(hyps) + [goal])):
            if goal.op == 'and':
                best = 'syntactic'
                acc = list(hyps)
                for g in goal.args:
                    r = self.prove(acc, g, hints)
                    if r.status != 'proved':
                        r.time = time.time() - t0
                        return r
                    best = max(best, r.backend, key=lambda b: RANK.get(b, 9))
                    acc.append(g)
                return Result('proved', best, time.time() - t0)
            return self.prove_named(hyps, goal, hints, t0)
        return self.prove1(hyps, goal, hints, t0)

    def prove_named(self, hyps, goal, hints, t0):
        # with the named values opaque (fewer facts, hence sound) and with ever more hypotheses, then with the
        # definitions; every variant gets the cheap back ends before any gets the expensive ones
        base = set()
        for v, d in tm.NAMED.values():
            for i, x in tm.subterms([d]).items():
                if x.op == 'var' and i not in tm.NAMED:
                    base.add(i)
        variants = []
        gv = {i for i, x in tm.subterms([goal]).items() if x.op == 'var'}
        h1 = [h for h in hyps if all(i in gv for i, x in tm.subterms([h]).items() if x.op == 'var')]
        if 0 < len(h1) < len(hyps):
            variants.append((h1, goal, hints))
        if not any(i in base for i in tm.subterms([goal])):
            h0 = [h for h in hyps if not any(i in base for i in tm.subterms([h]))]
            if len(h0) < len(hyps) and len(h0) != len(h1):
                variants.append((h0, goal, hints))
        variants.append((hyps, goal, hints))

        def expanded():
            hs, g, hi = hyps, goal, hints
            mp = {v: d for v, d in tm.NAMED.values()}
            while True:
                hs = [tm.substitute(h, mp) for h in hs]
                g = tm.substitute(g, mp)
                hi = [tm.substitute(h, mp) for h in hi]
                if not any(i in tm.NAMED for i in tm.subterms(list(hs) + [g])):
                    return hs, g, hi
        ex = None
        self.quick = True
        try:
            for v in variants:
                r = self.prove1(*v, t0)
                if r.status == 'proved':
                    return r
            try:
                ex = expanded()
                r = self.prove1(*ex, t0)
                if r.status == 'proved':
                    return r
            except tm.TooBig:
                ex = None
        finally:
            self.quick = False
        for v in variants:
            r = self.prove1(*v, t0)
            if r.status == 'proved':
                return r
        if ex is None:
            return Result('unknown', 'toobig', time.time() - t0)
        return self.prove1(*ex, t0)

    def prove1(self, hyps, goal, hints, t0):
        try:
            r = self._prove(hyps, goal, hints)
        except tm.TooBig:
            r = Result('unknown', 'toobig')
        except RecursionError:
            r = Result('unknown', 'recursion')
        except z3.Z3Exception as e:
            r = Result('unknown', 'z3: ' + str(e)[:100])
        r.time = time.time() - t0
        return r

    def _prove(self, hyps, goal, hints):
        if goal is TRUE:
            return Result('proved', 'syntactic')
        hl = literals(hyps)
        if FALSE in hl:
            return Result('proved', 'syntactic')
        hs = set(hl)
        if goal in hs:
            return Result('proved', 'syntactic')
        if goal.op == 'and':
            best = 'syntactic'
            acc = list(hyps)
            for g in goal.args:
                r = self._prove(acc, g, hints)
                if r.status != 'proved':
                    return r
                best = max(best, r.backend, key=lambda b: RANK.get(b, 9))
                acc = acc + [g]
            return Result('proved', best)
        if goal.op == 'not' and goal.args[0].op == 'and':
            # disjunction: assume the negation of all but try together
            pass
        neg = literals([not_(goal)])
        allh = hl + [n for n in neg if n not in hs]
        if is_arrayish(allh):
            if self.quick:
                return Result('unknown', 'quick')
            return self.full(hl, goal)
        return self.refute(allh, neg, hints, 0)

    # ---- arithmetic refutation: facts (list of B terms) is unsat?
    def refute(self, facts, neg, hints, depth):
        facts = literals(facts)
        if FALSE in facts:
            return Result('proved', 'syntactic')
        fs = set(facts)
        for t in facts:
            if not_(t) in fs:
                return Result('proved', 'syntactic')
        # unit propagate disjunctions
        facts2 = []
        changed = False
        for t in facts:
            if t.op == 'not' and t.args[0].op == 'and':
                rem = []
                sat = False
                for x in t.args[0].args:
                    if x in fs:
                        continue
                    if not_(x) in fs:
                        sat = True
                        break
                    rem.append(x)
                if sat:
                    changed = True
                    continue
                if len(rem) != len(t.args[0].args):
                    changed = True
                    facts2.append(not_(and_(*rem)))
                    continue
            facts2.append(t)
        if changed:
            return self.refute(facts2, neg, hints, depth)
        # S1: linear abstraction
        if Lin().check(facts, timeout=3000) == z3.unsat:
            return Result('proved', 'z3-lin')
        # case split on ite atoms occurring in the (negated) goal or facts
        c = self.pick_split(facts, neg)
        if c is not None and depth < 14:
            m1, m2 = {}, {}
            worst = 'syntactic'
            for val, cc in ((True, c), (False, not_(c))):
                f2 = [self.resolve_ite(t, c, val) for t in facts] + [cc]
                n2 = [self.resolve_ite(t, c, val) for t in neg]
                r = self.refute(f2, n2, hints, depth + 1)
                if r.status != 'proved':
                    return r
                worst = max(worst, r.backend, key=lambda b: RANK.get(b, 9))
            return Result('proved', worst)
        return self.arith(facts, neg, hints, depth)

    def pick_split(self, facts, neg):
        def cond_in(ts):
            best = None
            for t in tm.subterms(ts).values():
                if t.op == 'ite':
                    c = t.args[0]
                    # innermost first: condition without ites
                    if not any(x.op == 'ite' for x in tm.subterms([c]).values()):
                        if best is None or c.id < best.id:
                            best = c
            return best
        c = cond_in(neg)
        if c is None:
            c = cond_in(facts)
        if c is not None and c.op == 'and':
            c = c.args[0]
        if c is not None and c.op == 'not':
            c = c.args[0]
        return c

    def resolve_ite(self, t, c, val):
        return _resolve(t, c, val, {})

    def unify_sqrts(self, facts):
        """sqrt terms whose radicands are equal (or constant) under the equations: {term: term}"""
        subs = tm.subterms(facts).values()
        ats = [t for t in subs if t.op == 'sqrt']
        dens = [t for t in subs if t.op == 'den']
        if not ats and not dens:
            return {}
        for t in ats:
            poly(t)
        ats.sort(key=lambda t: t.id)
        E = EqRed(facts)
        numden, red = E.numden, E.red
        out, known = {}, []
        for t in ats:
            try:
                n, d = numden(poly(t.args[0]) or {})
                if not n:
                    out[t] = R(0)
                    continue
                m0 = next(iter(n))
                if m0 in d and len(n) == len(d):
                    k = Fraction(n[m0]) / Fraction(d[m0])
                    if all(m in d and Fraction(n[m]) == k * d[m] for m in n) and k >= 0:
                        s = tm.sqrt(R(k))
                        if s is not t:
                            out[t] = s
                        continue
                hit = None
                for (t2, n2, d2) in known:
                    if len(n) * len(d2) > 4000 or len(n2) * len(d) > 4000:
                        continue
                    x = red(tm.padd(tm.pmul(n, d2), tm.pmul(n2, d), -1))
                    if not x:
                        hit = t2
                        break
                if hit is not None:
                    out[t] = hit
                else:
                    known.append((t, n, d))
            except tm.TooBig:
                continue
        for t in dens:
            try:
                n, d = numden(poly(t.args[0]) or {})
                if not n:
                    continue
                m0 = next(iter(n))
                if m0 in d and len(n) == len(d):
                    k = Fraction(n[m0]) / Fraction(d[m0])
                    if all(m in d and Fraction(n[m]) == k * d[m] for m in n):
                        out[t] = R(k)
            except tm.TooBig:
                continue
        return out

    def arith(self, facts, neg, hints, depth):
        try:
            um = self.unify_sqrts(facts)
        except tm.TooBig:
            um = {}
        if um and depth < 20:
            f2 = [tm.substitute(t, um) for t in facts]
            n2 = [tm.substitute(t, um) for t in neg]
            return self.refute(f2, n2, [tm.substitute(h, um) for h in hints], depth + 1)
        ctx = Ctx(facts)
        eqs, geq, gts, nes = [], [], [], []
        other = []
        nset = set(neg)
        for t in facts:
            l = lit(t)
            if not l or l[1].sort != 'R':
                other.append(t)
                continue
            p = poly(l[1])
            if p is None:
                other.append(t)
                continue
            k = l[0]
            p, flip = ctx.clear(p, k)
            if k in ('lt', 'ge') and flip:
                p = tm.pscale(p, -1)
            tag = t in nset
            if k == 'eq':
                if p:
                    eqs.append((p, tag))
            elif k == 'lt':
                gts.append((tm.pscale(p, -1), tag))
            elif k == 'ge':
                geq.append((p, tag))
            else:
                nes.append((p, tag))
        # facts about sqrt atoms and denominators that occur
        subst, rules, resteq = equation_rules([p for p, _ in eqs])

        def red(p):
            for v, q in subst:
                p = tm.psub(p, v, q)
            if rules:
                p = reduce_by(p, rules)
            return p
        geq = [(red(p), t) for p, t in geq]
        gts = [(red(p), t) for p, t in gts]
        nes = [(red(p), t) for p, t in nes]
        for p, t in nes:
            if not p:
                return Result('proved', 'poly')
        for p, t in gts:
            c = tm.pconst(p)
            if c is not None and c <= 0:
                return Result('proved', 'poly')
        for p, t in geq:
            c = tm.pconst(p)
            if c is not None and c < 0:
                return Result('proved', 'poly')
        # sqrt atoms: a disequality A + B*s != 0 handled by solver below
        # S2 linear on reduced facts
        L = Lin()
        base = []

        def addl(L, base):
            for p, _ in geq:
                base.append(L.pnum(p) >= 0)
            for p, _ in gts:
                base.append(L.pnum(p) > 0)
            for p, _ in nes:
                base.append(L.pnum(p) != 0)
            for p in resteq:
                base.append(L.pnum(p) == 0)
        addl(L, base)
        others_ok = [t for t in other if not (lit(t) and lit(t)[1].sort == 'R')]
        if L.check(others_ok, base, timeout=3000) == z3.unsat:
            return Result('proved', 'z3-lin')
        if self.quick:
            return Result('unknown', 'quick')
        # S3 products
        r = self.products(geq, gts, nes, resteq, rules, others_ok, hints, red, ctx)
        if r is not None:
            return r
        # split disjunctions
        if depth < 14:
            for t in facts:
                if t.op == 'not' and t.args[0].op == 'and' and len(t.args[0].args) <= 6 and \
                        all(x.sort == 'B' for x in t.args[0].args):
                    worst = 'syntactic'
                    rest = [x for x in facts if x is not t]
                    ok = True
                    for i, x in enumerate(t.args[0].args):
                        prefix = list(t.args[0].args[:i])
                        r = self.refute(rest + prefix + [not_(x)], neg + [not_(x)], hints, depth + 1)
                        if r.status != 'proved':
                            return r
                        worst = max(worst, r.backend, key=lambda b: RANK.get(b, 9))
                    return Result('proved', worst)
        return self.nonlinear(geq, gts, nes, resteq, others_ok, facts, red)

    def products(self, geq, gts, nes, eqs, rules, others, hints, red, ctx):
        # hypotheses as >= 0 polys
        hs = [(p, True, t) for p, t in gts] + [(p, False, t) for p, t in geq]
        hs = [(p, s, t) for p, s, t in hs if len(p) <= 80]
        def deg(p):
            return max((sum(abs(e) for _, e in m) for m in p), default=0)
        L = Lin()
        # single sqrt atoms that occur are facts too
        ats = set()
        for p, _, _ in hs:
            ats |= tm.atoms_of_poly(p)
        for p, _ in nes:
            ats |= tm.atoms_of_poly(p)
        for v in ats:
            if tm.ATOM[v].op == 'sqrt':
                hs.append(({((v, 1),): 1}, False, False))
        base = []
        for p, s, _ in hs:
            base.append(L.pnum(p) > 0 if s else L.pnum(p) >= 0)
        for p, _ in nes:
            base.append(L.pnum(p) != 0)
        for p in eqs:
            base.append(L.pnum(p) == 0)
        # negated goal literals and hints get priority
        hs.sort(key=lambda h: (not h[2], deg(h[0]), len(h[0])))
        budget = 220
        maxdeg = 10
        hp = []
        for h in hints:
            p = poly(h)
            if p is not None:
                q, _ = ctx.clear(p, 'eq')
                hp.append(red(q))
        n = 0
        for i in range(len(hs)):
            for j in range(i, len(hs)):
                if n > budget:
                    break
                a, b = hs[i], hs[j]
                if deg(a[0]) + deg(b[0]) > maxdeg or len(a[0]) * len(b[0]) > 1500:
                    continue
                q = red(tm.pmul(a[0], b[0], 3000))
                base.append(L.pnum(q) > 0 if (a[1] and b[1]) else L.pnum(q) >= 0)
                n += 1
        for p in hp:
            q = red(tm.pmul(p, p, 3000))
            base.append(L.pnum(q) >= 0)
            for h in hs:
                if len(h[0]) * len(q) <= 3000:
                    q2 = red(tm.pmul(q, h[0], 6000))
                    base.append(L.pnum(q2) >= 0)
        # equations times atoms
        for p in eqs:
            for v in sorted(tm.atoms_of_poly(p))[:12]:
                base.append(L.pnum(red(tm.pmul(p, {((v, 1),): 1}))) == 0)
        try:
            if L.check(others, base, timeout=6000) == z3.unsat:
                return Result('proved', 'z3-prod')
        except z3.Z3Exception:
            pass
        return None

    def nonlinear(self, geq, gts, nes, eqs, others, facts, red=lambda p: p):
        E = NL()
        cs = []
        for p, _ in geq:
            cs.append(E.p(p) >= 0)
        for p, _ in gts:
            cs.append(E.p(p) > 0)
        for p, _ in nes:
            cs.append(E.p(p) != 0)
        for p in eqs:
            cs.append(E.p(p) == 0)
        if others:
            F = Z3Enc()
            # boolean/int facts: kept exactly
            for t in others:
                try:
                    cs.append(F.enc(t))
                except NotImplementedError:
                    pass
            cs += F.side
            for t, v in list(F.vars.items()):
                if t.sort == 'R':
                    q = poly(t)
                    if q is not None:
                        cs.append(v == E.p(red(q)))
        cs += E.side()
        # a short nlsat run, then cvc5 and the newer z3 side by side, then nlsat with the whole budget
        budget = self.nl_timeout

        def attempt(ms):
            s = z3.Tactic('qfnra-nlsat').solver() if not others else z3.Solver()
            s.set('timeout', ms)
            for c in cs:
                s.add(c)
            try:
                return s.check(), s
            except z3.Z3Exception:
                return z3.unknown, s
        r, s = attempt(min(4000, budget))
        if r == z3.unknown and self.use_ext:
            r = self.external(s, budget)
            if r == 'unsat':
                return Result('proved', 'cvc5/z3-new')
            r = z3.unknown
        if r == z3.unknown and budget > 4000:
            r, s = attempt(budget // 2)
        if r == z3.unsat:
            return Result('proved', 'z3-nl')
        if r == z3.sat:
            return Result('refuted', 'z3-nl', model=self.model_of(s.model(), E))
        return Result('unknown', 'timeout')

    def external(self, s, ms):
        txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
            fn = f.name
        procs = []
        try:
            for cmd in (['cvc5', '--nl-cov', f'--tlimit={ms}', fn], ['z3-new', f'-T:{ms//1000+1}', fn]):
                try:
                    procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
                except OSError:
                    pass
            res = 'unknown'
            end = time.time() + ms / 1000 + 3
            live = list(procs)
            while live and time.time() < end:
                for p in list(live):
                    if p.poll() is not None:
                        live.remove(p)
                        o = p.stdout.read()
                        if 'unsat' in o:
                            return 'unsat'
                        if o.startswith('sat'):
                            return 'sat'
                time.sleep(0.02)
            return res
        finally:
            for p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
            os.unlink(fn)

    def model_of(self, m, E):
        out = {}
        for v, z in E.vars.items():
            t = tm.ATOM[v]
            if t.op == 'var':
                out[t.args[0]] = z3val(m.eval(z, model_completion=True))
        return out

    def full(self, hyps, goal):
        E = Z3Enc()
        s = z3.Solver()
        s.set('timeout', self.nl_timeout)
        hs = slice_pc(hyps, goal) if len(hyps) > 30 else hyps
        for h in hyps:
            s.add(E.enc(h))
        s.add(z3.Not(E.enc(goal)))
        for x in E.side:
            s.add(x)
        r = s.check()
        if r == z3.unsat:
            return Result('proved', 'z3-full')
        if r == z3.sat:
            m = s.model()
            out = {}
            for t, z in E.vars.items():
                if t.sort in ('R', 'I', 'B'):
                    out[t.args[0]] = z3val(m.eval(z, model_completion=True))
            return Result('refuted', 'z3-full', model=out)
        if self.use_ext:
            r = self.external(s, self.nl_timeout)
            if r == 'unsat':
                return Result('proved', 'cvc5')
        return Result('unknown', 'timeout')


def z3val(v):
    try:
        if z3.is_true(v):
            return Fraction(1)
        if z3.is_false(v):
            return Fraction(0)
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(40)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        pass
    return Fraction(0)


class NL:
    """polys to z3 nonlinear reals"""

    def __init__(self):
        self.vars = {}

    def v(self, a):
        z = self.vars.get(a)
        if z is None:
            z = z3.Real(f"x{a}")
            self.vars[a] = z
        return z

    def p(self, p):
        s = []
        for m, c in p.items():
            x = None
            for v, e in m:
                for _ in range(e):
                    x = self.v(v) if x is None else x * self.v(v)
            if x is None:
                x = z3num(c)
            elif c != 1:
                x = z3num(c) * x
            s.append(x)
        return z3.Sum(s) if len(s) > 1 else (s[0] if s else z3num(0))

    def side(self):
        out = []
        done = set()
        while True:
            new = [a for a in self.vars if a not in done]
            if not new:
                return out
            for a in new:
                done.add(a)
                t = tm.ATOM[a]
                if t.op == 'sqrt':
                    q = tm.SQRT_OF[a]
                    out.append(self.v(a) >= 0)
                    cx = Ctx([])
                    if any(e < 0 for m in q for _, e in m) or any(v in tm.DEN_OF for m in q for v, _ in m):
                        # s^2 = q with denominators: multiply out (den != 0)
                        lhs = {((a, 2),): 1}
                        pp = dict(q)
                        # build s^2 - q and clear denominators by hand (avoid sqrt reduction of s^2)
                        marker = tm.var(f"sq!{a}", 'R')
                        ma = tm.atom_id(marker)
                        full = tm.padd({((ma, 1),): 1}, q, -1)
                        full, _ = cx.clear(full, 'eq')
                        self.vars[ma] = self.v(a) * self.v(a)
                        done.add(ma)
                        out.append(self.p(full) == 0)
                    else:
                        out.append(self.v(a) * self.v(a) == self.p(q))
                elif t.op == 'toreal':
                    pass


def _resolve(t, c, val, cache):
    r = cache.get(t.id)
    if r is not None:
        return r
    if t is c:
        r = TRUE if val else FALSE
    elif t.op in ('const', 'var') or not t.args:
        r = t
    elif t.op == 'ite' and t.args[0] is c:
        r = _resolve(t.args[1] if val else t.args[2], c, val, cache)
    elif t.op == 'ite' and t.args[0] is not_(c):
        r = _resolve(t.args[2] if val else t.args[1], c, val, cache)
    else:
        args = [_resolve(a, c, val, cache) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = tm.rebuild(t, args)
    cache[t.id] = r
    return r


RANK = {'syntactic': 0, 'poly': 1, 'z3-lin': 2, 'z3-prod': 3, 'z3-nl': 4, 'z3-full': 4, 'cvc5': 5, 'cvc5/z3-new': 5}
