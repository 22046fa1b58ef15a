"""Assumed contracts on things outside the repository (libm, allocation, a few libstdc++ functions) and the vc_* API."""
from fractions import Fraction
import re
import math
from . import terms as tm
from .terms import T, TRUE, FALSE, R, I, add, sub, mul, neg, div, ite, not_, and_, or_, lt, le, eq


def build_intrinsics():
    return INTR


INTR = {}


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        from . import symex
        symex.PATTERNS.append((re.compile(rx), f))
        return f
    return d


# ---------------------------------------------------------------- vc_* API
def input_name(ex, st, base):
    n = st.ghost.get(('n', base), 0)
    st.ghost[('n', base)] = n + 1
    return base if n == 0 else f"{base}#{n}"


@intr('vc_real')
def vc_real(ex, st, fr, ins, a, name):
    base = ex.cstr(st, a[0])
    c = ex.as_int(st, ex.signed(st, a[1], 32))
    if c >= 0:
        base += '.' + ('xyzw'[c] if c < 4 else str(c))
    nm = input_name(ex, st, base)
    if ex.concrete is not None:
        v = R(Fraction(ex.concrete.get(nm, 0)))
    else:
        v = tm.var(nm, 'R')
    st.inputs.append((nm, v, 'real'))
    return v


@intr('vc_int')
def vc_int(ex, st, fr, ins, a, name):
    nm = input_name(ex, st, ex.cstr(st, a[0]))
    lo, hi = ex.subst_known(st, a[1]), ex.subst_known(st, a[2])
    if ex.concrete is not None:
        v = I(int(ex.concrete.get(nm, lo.args[0])))
        st.inputs.append((nm, v, 'int'))
        if not (lo.args[0] <= v.args[0] <= hi.args[0]):
            from .symex import Done
            raise Done('assume')
        return v
    v = tm.var(nm, 'I')
    ll, hh = tm.rng(lo)[0], tm.rng(hi)[1]
    tm.RANGES[v] = (ll, hh)
    st.assume(le(lo, v))
    st.assume(le(v, hi))
    # interval facts are also recorded for the solver (rng folds them away)
    if ll is not None:
        st.assume(tm.mk('not', (tm.mk('lt0', (tm.from_poly(tm.poly(sub(v, I(ll))), 'I'),), 'B'),), 'B'))
    if hh is not None:
        st.assume(tm.mk('not', (tm.mk('lt0', (tm.from_poly(tm.poly(sub(I(hh), v)), 'I'),), 'B'),), 'B'))
    if lo.op == 'const' and hi.op == 'const' and lo.args[0] == hi.args[0]:
        v = lo
    st.inputs.append((nm, v, 'int'))
    return v


@intr('vc_bool')
def vc_bool(ex, st, fr, ins, a, name):
    nm = input_name(ex, st, ex.cstr(st, a[0]))
    if ex.concrete is not None:
        v = tm.Bc(bool(ex.concrete.get(nm, 0)))
    else:
        v = tm.var(nm, 'B')
    st.inputs.append((nm, v, 'bool'))
    return v


def boolv(ex, st, v):
    from .symex import UNDEF
    if v is UNDEF:
        return tm.fresh('undef', 'B')
    if v.sort == 'I':
        return not_(eq(v, I(0)))
    return v


@intr('vc_assume')
def vc_assume(ex, st, fr, ins, a, name):
    from .symex import Done
    c = boolv(ex, st, a[0])
    if ex.concrete is not None and c.op != 'const':
        from .symex import Unsupported
        raise Unsupported('symbolic value in exact evaluation')
    if c is FALSE:
        raise Done('assume')
    if c.op != 'const' and not ex.feasible(st, c):
        raise Done('assume')
    st.assume(c)
    return None


@intr('vc_check')
def vc_check(ex, st, fr, ins, a, name):
    lab = ex.cstr(st, a[1])
    # the spec is proved but not assumed afterwards
    ex._emit(st, boolv(ex, st, a[0]), lab, 'post')
    return None


@intr('vc_lemma')
def vc_lemma(ex, st, fr, ins, a, name):
    lab = ex.cstr(st, a[1])
    c = boolv(ex, st, a[0])
    ex._emit(st, c, lab, 'lemma')
    st.assume(c)
    return None


@intr('vc_cover')
def vc_cover(ex, st, fr, ins, a, name):
    lab = ex.cstr(st, a[0])
    ex.covers.setdefault(lab, []).append((list(st.pc), list(st.inputs)))
    return None


@intr('vc_hint')
def vc_hint(ex, st, fr, ins, a, name):
    st.ghost['hints'] = st.ghost.get('hints', ()) + (a[0],)
    return None


@intr('vc_name')
def vc_name(ex, st, fr, ins, a, name):
    t = a[0]
    if ex.concrete is not None or t.op in ('const', 'var'):
        return t
    p = tm.poly(t)
    if p is None or len(p) < 2:
        return t
    lead, key = ex.name_key(p)
    names = dict(st.ghost.get('names', {}))
    v = tm.fresh('N_' + ex.cstr(st, a[1]), 'R')
    tm.NAMED[v.id] = (v, t)
    names[key] = (v, lead)
    q = ex.reduce_units(p, st.ghost.get('units'))
    if q is not None and len(q) > 1:
        lead, key = ex.name_key(q)
        names.setdefault(key, (v, lead))
    st.ghost['names'] = names
    return v


@intr('vc_rewrite')
def vc_rewrite(ex, st, fr, ins, a, name):
    """later values equal to a[0] are represented by a[1]; that the two are equal is an obligation"""
    t, u = a[0], a[1]
    if ex.concrete is not None or t.op in ('const', 'var'):
        return u
    ex._emit(st, tm.eq(t, u), 'rewrite ' + ex.cstr(st, a[2]), 'lemma')
    p = tm.poly(t)
    if p is None or len(p) < 2:
        return u
    lead, key = ex.name_key(p)
    names = dict(st.ghost.get('names', {}))
    names[key] = (u, lead)
    q = ex.reduce_units(p, st.ghost.get('units'))
    if q is not None and len(q) > 1:
        lead, key = ex.name_key(q)
        names.setdefault(key, (u, lead))
    st.ghost['names'] = names
    return u


@intr('vc_opt')
def vc_opt(ex, st, fr, ins, a, name):
    st.opts[ex.cstr(st, a[0])] = ex.cstr(st, a[1])
    return None


@intr('vc_replace')
def vc_replace(ex, st, fr, ins, a, name):
    if ex.concrete is None:
        st.repl[a[0].obj[1]] = a[1].obj[1]
    return None


CTOL = Fraction(1, 10**24)


def _ctol(a, b):
    return CTOL * (1 + max(abs(Fraction(a.args[0])), abs(Fraction(b.args[0]))))


@intr('vc_eq')
def vc_eq(ex, st, fr, ins, a, name):
    if ex.concrete is not None and a[0].op == 'const' and a[1].op == 'const':
        return tm.Bc(abs(Fraction(a[0].args[0]) - a[1].args[0]) <= _ctol(*a))
    return eq(a[0], a[1])


@intr('vc_le')
def vc_le(ex, st, fr, ins, a, name):
    if ex.concrete is not None and a[0].op == 'const' and a[1].op == 'const':
        return tm.Bc(a[0].args[0] <= a[1].args[0] + _ctol(*a))
    return le(a[0], a[1])


@intr('vc_lt')
def vc_lt(ex, st, fr, ins, a, name):
    if ex.concrete is not None and a[0].op == 'const' and a[1].op == 'const':
        return tm.Bc(a[0].args[0] < a[1].args[0] + _ctol(*a))
    return lt(a[0], a[1])


@intr('vc_and')
def vc_and(ex, st, fr, ins, a, name):
    return and_(boolv(ex, st, a[0]), boolv(ex, st, a[1]))


@intr('vc_or')
def vc_or(ex, st, fr, ins, a, name):
    return or_(boolv(ex, st, a[0]), boolv(ex, st, a[1]))


@intr('vc_not')
def vc_not(ex, st, fr, ins, a, name):
    return not_(boolv(ex, st, a[0]))


@intr('vc_implies')
def vc_implies(ex, st, fr, ins, a, name):
    return or_(not_(boolv(ex, st, a[0])), boolv(ex, st, a[1]))


@intr('vc_sel')
def vc_sel(ex, st, fr, ins, a, name):
    return ite(boolv(ex, st, a[0]), a[1], a[2])


@intr('vc_sel_int')
def vc_sel_int(ex, st, fr, ins, a, name):
    return ite(boolv(ex, st, a[0]), a[1], a[2])


# ---------------------------------------------------------------- locks (ghost state)
def region_objects(ex, st, p, n):
    """the object and what it points to on the heap"""
    seen, todo = {}, [(p.obj, p.off, p.off + n)]
    while todo:
        o, lo, hi = todo.pop()
        if o in seen:
            continue
        seen[o] = (lo, hi)
        obj = st.mem.get(o)
        if obj is None or obj.kind != 'flat':
            continue
        for k, (size, v) in list(obj.cells.items()):
            q = getattr(v, 'obj', None)
            if lo <= k < hi and q is not None and not isinstance(q, tuple) and q in st.mem and st.mem[q].name == 'heap' and q not in seen:
                todo.append((q, 0, 1 << 60))
    return seen


@intr('vc_guard')
def vc_guard(ex, st, fr, ins, a, name):
    p, n = a[0], ex.as_int(st, a[1])
    region = (p.obj, p.off, p.off + n)
    g = dict(st.ghost.get('guard', {}))
    for o, (lo, hi) in region_objects(ex, st, p, n).items():
        g[o] = tuple(x for x in g.get(o, ()) if x[:2] != (lo, hi)) + ((lo, hi, region),)
    st.ghost['guard'] = g


@intr('vc_gone')
def vc_gone(ex, st, fr, ins, a, name):
    p, n = a[0], ex.as_int(st, a[1])
    g = dict(st.ghost.get('guard', {}))
    g[p.obj] = ((p.off, p.off + n, None),) + g.get(p.obj, ())
    st.ghost['guard'] = g


@intr('vc_unguard')
def vc_unguard(ex, st, fr, ins, a, name):
    st.ghost.pop('guard', None)


@intr('vc_touch')
def vc_touch(ex, st, fr, ins, a, name):
    g = st.ghost.get('guard', {}).get(a[0].obj, ())
    if any(r is None and lo <= a[0].off < hi for lo, hi, r in g):
        ex.guarded(st, a[0])


@intr('vc_lock')
def vc_lock(ex, st, fr, ins, a, name):
    p = (a[0].obj, a[0].off)
    vc_touch(ex, st, fr, ins, a, name)
    h = st.ghost.get('held', ())
    if p in h:
        ex.oblige(st, FALSE, "a thread does not lock a mutex that it holds", 'post')
        from .symex import Done
        raise Done('obligation false')
    st.ghost['held'] = h + (p,)


@intr('vc_unlock')
def vc_unlock(ex, st, fr, ins, a, name):
    p = (a[0].obj, a[0].off)
    h = st.ghost.get('held', ())
    if p not in h:
        ex.oblige(st, FALSE, "a thread unlocks only a mutex that it holds", 'post')
        from .symex import Done
        raise Done('obligation false')
    st.ghost['held'] = tuple(x for x in h if x != p)


@intr('vc_locks_held')
def vc_locks_held(ex, st, fr, ins, a, name):
    return I(len(st.ghost.get('held', ())))


@intr('vc_symbolic')
def vc_symbolic(ex, st, fr, ins, a, name):
    return tm.Bc(ex.concrete is None)


@intr('vc_unit')
def vc_unit(ex, st, fr, ins, a, name):
    n = ex.as_int(st, a[1])
    t = MiniTy('float', 4)
    ps = [ex.padd(a[0], 4 * i) for i in range(n)]
    xs = [ex.load(st, p, t) for p in ps]
    s = R(0)
    for x in xs:
        s = add(s, mul(x, x))
    if ex.concrete is None:
        st.assume(eq(s, R(1)))
        if all(x.op == 'var' for x in xs):
            ids = [tm.atom_id(x) for x in xs]
            vs, rules = st.ghost.get('units', (frozenset(), ()))
            tail = {(): 1}
            for i in ids[:-1]:
                tail[((i, 2),)] = -1
            st.ghost['units'] = (vs | {ids[-1]}, rules + ((((ids[-1], 2),), tail),))
        return None
    if s.args[0] < Fraction(1, 10**12):
        vals = [Fraction(int(i == n - 1)) for i in range(n)]
    else:
        k = 1 / tm.approx_sqrt(Fraction(s.args[0]))
        vals = [Fraction(x.args[0]) * k for x in xs]
    for p, v in zip(ps, vals):
        ex.store(st, p, R(v), t)
    return None


# ------------------------------------------------------------------- libm etc
def to_const(ex, f, *xs):
    return R(Fraction(f(*[float(x.args[0]) for x in xs])))


@intr('sqrt', 'sqrtf', 'llvm.sqrt.f32', 'llvm.sqrt.f64', '_ZSt4sqrtf')
def f_sqrt(ex, st, fr, ins, a, name):
    x = ex.fl(st, a[0])
    if x.op == 'const':
        if x.args[0] < 0:
            ex.oblige(st, FALSE, "square root of a negative number", 'safety')
        if ex.concrete is not None:
            return R(tm.approx_sqrt(Fraction(x.args[0])))
        return tm.sqrt(x)
    k = ex.eq_const(st, x)
    if k is not None and k >= 0:
        return tm.sqrt(R(k))
    ex.oblige(st, le(R(0), x), "square root of a non-negative number", 'safety')
    p = tm.poly(x)
    r = tm.sqrt(x if p is None else tm.from_poly(p, 'R'))
    tm.poly(r)
    st.assume(le(R(0), r))
    return r


@intr('llvm.fabs.f32', 'llvm.fabs.f64', 'fabsf', 'fabs')
def f_fabs(ex, st, fr, ins, a, name):
    x = ex.fl(st, a[0])
    if x.op == 'const':
        return R(abs(x.args[0]))
    if st.opts.get('angles') == 'opaque' and ex.concrete is None:
        if ex.holds(st, le(R(0), x)):
            return x
        if ex.holds(st, le(x, R(0))):
            return neg(x)
    c = lt(x, R(0))
    if c is FALSE or not_(c) in st.pcset:
        return x
    if c is TRUE or c in st.pcset:
        return neg(x)
    return ite(c, neg(x), x)


@intr('llvm.fmuladd.f32', 'llvm.fmuladd.f64', 'llvm.fma.f32')
def f_fma(ex, st, fr, ins, a, name):
    return add(mul(a[0], a[1]), a[2])


@intr('llvm.copysign.f32', 'llvm.copysign.f64', 'copysignf', 'copysign')
def f_copysign(ex, st, fr, ins, a, name):
    x, y = ex.fl(st, a[0]), ex.fl(st, a[1])
    m = ite(lt(x, R(0)), neg(x), x)
    return ite(lt(y, R(0)), neg(m), m)


@intr('fminf', 'fmin', 'llvm.minnum.f32', 'llvm.minnum.f64', 'fmaxf', 'fmax', 'llvm.maxnum.f32', 'llvm.maxnum.f64')
def f_fminmax(ex, st, fr, ins, a, name):
    x, y = ex.fl(st, a[0]), ex.fl(st, a[1])
    return ite(lt(y, x), y, x) if 'min' in name else ite(lt(x, y), y, x)


@intr('hypotf', 'hypot', '_ZSt5hypotff')
def f_hypot(ex, st, fr, ins, a, name):
    x, y = ex.fl(st, a[0]), ex.fl(st, a[1])
    return f_sqrt(ex, st, fr, ins, [add(mul(x, x), mul(y, y))], name)


@intr('_ZSt8isfinitef', '_ZSt8isfinited')
def f_isfinite(ex, st, fr, ins, a, name):
    return TRUE


@intr('_ZSt5isinff', '_ZSt5isinfd', '_ZSt5isnand')
def f_isinf(ex, st, fr, ins, a, name):
    return FALSE


@intr('_ZSt7signbitf', '_ZSt7signbitd')
def f_signbit(ex, st, fr, ins, a, name):
    return lt(ex.fl(st, a[0]), R(0))


@intr('llvm.trunc.f32', 'llvm.trunc.f64', 'truncf', 'trunc', 'llvm.round.f32', 'llvm.round.f64', 'roundf', 'round')
def f_trunc(ex, st, fr, ins, a, name):
    x = ex.fl(st, a[0])
    m = ite(lt(x, R(0)), neg(x), x)
    r = f_floor(ex, st, fr, ins, [add(m, R(Fraction(1, 2))) if 'round' in name else m], name)
    return ite(lt(x, R(0)), neg(r), r)


@pattern(r'^llvm\.(umax|umin|smax|smin)\.i(\d+)$')
def f_imax(ex, st, fr, ins, a, name):
    m = re.match(r'^llvm\.(u|s)(max|min)\.i(\d+)$', name)
    x, y = a[0], a[1]
    w = int(m.group(3))
    sx, sy = (ex.signed(st, x, w), ex.signed(st, y, w)) if m.group(1) == 's' else (x, y)
    return ite(lt(sy, sx), y, x) if m.group(2) == 'min' else ite(lt(sx, sy), y, x)


def mp_const(f, *xs):
    import mpmath
    mpmath.mp.prec = 240
    return R(mpf_frac(mpmath.re(f(*[mpmath.mpf(Fraction(x).numerator) / Fraction(x).denominator for x in xs]))))


def _angle_atom(ex, st, m, c):
    """(cos, sin) of the angle c*m, m a monomial, c > 0"""
    t = tm.from_poly({m: 1}, 'R')
    if c.denominator == 1 and c > 1 and c <= 8:
        # multiple angle
        c1, s1 = _angle_atom(ex, st, m, Fraction(1))
        cc, ss = c1, s1
        for _ in range(int(c) - 1):
            cc, ss = sub(mul(cc, c1), mul(ss, s1)), add(mul(ss, c1), mul(cc, s1))
        return cc, ss
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        a = tm.ATOM[m[0][0]]
        if a.op == 'fn:acos':
            x = a.args[0]
            return x, f_sqrt_of(ex, st, sub(R(1), mul(x, x)))
        if a.op == 'fn:asin':
            x = a.args[0]
            return f_sqrt_of(ex, st, sub(R(1), mul(x, x))), x
        if a.op == 'fn:atan2':
            y, x = a.args
            r = f_sqrt_of(ex, st, add(mul(x, x), mul(y, y)))
            return div(x, r), div(y, r)
    t = tm.from_poly({m: c}, 'R')
    if ex.concrete is not None:
        import mpmath
        return mp_const(mpmath.cos, t.args[0]), mp_const(mpmath.sin, t.args[0])
    cc, ss = tm.fun('cos', (t,)), tm.fun('sin', (t,))
    tm.poly(cc), tm.poly(ss)
    st.assume(eq(add(mul(cc, cc), mul(ss, ss)), R(1)))
    st.assume(le(sub(R(1), mul(mul(t, t), R(Fraction(1, 2)))), cc))
    return cc, ss


def f_sqrt_of(ex, st, x):
    if x.op == 'const':
        return tm.sqrt(x)
    p = tm.poly(x)
    x = x if p is None else tm.from_poly(p, 'R')
    if x.op == 'const':
        return tm.sqrt(x)
    r = tm.sqrt(x)
    tm.poly(r)
    st.assume(le(R(0), r))
    return r


PI = Fraction(3.1415927410125732421875)   # the float constant in the source: treated as pi


@intr('cosf', 'cos', 'llvm.cos.f32', 'llvm.cos.f64', 'sinf', 'sin', 'llvm.sin.f32', 'llvm.sin.f64')
def f_trig(ex, st, fr, ins, a, name):
    x = ex.fl(st, a[0])
    is_cos = 'cos' in name
    if x.op == 'const' and (ex.concrete is not None or x.args[0] == 0):
        import mpmath
        return mp_const(mpmath.cos if is_cos else mpmath.sin, x.args[0])
    ex.assumptions.add("sin/cos: addition and multiple-angle formulas, sin^2+cos^2=1, cos x >= 1-x^2/2, odd/even symmetry, sin/cos of acos/asin/atan2; otherwise uninterpreted")
    if st.opts.get('angles') == 'opaque' and ex.concrete is None:
        c, s = tm.fun('cos', (x,)), tm.fun('sin', (x,))
        tm.poly(c), tm.poly(s)
        st.assume(eq(add(mul(c, c), mul(s, s)), R(1)))
        st.assume(le(mul(s, s), R(1)))
        vs, rules = st.ghost.get('trig', (frozenset(), ()))
        ci, si = tm.atom_id(c), tm.atom_id(s)
        if ci not in vs:
            st.ghost['trig'] = (vs | {ci}, rules + ((((ci, 2),), {(): 1, ((si, 2),): -1}),))
        if x.op == 'fn:atan2':
            st.assume(eq(mul(s, x.args[1]), mul(c, x.args[0])))
            st.assume(le(R(0), add(mul(s, x.args[0]), mul(c, x.args[1]))))
        return c if is_cos else s
    p = tm.poly(x)
    if p is None or len(p) > 4:
        c, s = tm.fun('cos', (x,)), tm.fun('sin', (x,))
        tm.poly(c), tm.poly(s)
        st.assume(eq(add(mul(c, c), mul(s, s)), R(1)))
        return c if is_cos else s
    cc, ss = R(1), R(0)
    for m in sorted(p):
        k = Fraction(p[m])
        c1, s1 = _angle_atom(ex, st, m, abs(k))
        if k < 0:
            s1 = neg(s1)
        cc, ss = sub(mul(cc, c1), mul(ss, s1)), add(mul(ss, c1), mul(cc, s1))
    return cc if is_cos else ss


def mpf_frac(v):
    tm.APPROX = True
    import mpmath
    m, e = v.man_exp if hasattr(v, 'man_exp') else mpmath.mpf(v).man_exp
    return Fraction(m) * (Fraction(2) ** e)


@intr('acosf', 'acos', 'asinf', 'asin', 'atan2f', 'atan2', 'tanf', 'tan', 'expf', 'exp', 'powf', 'pow', 'fmodf', 'logf',
      'atanf')
def f_uf(ex, st, fr, ins, a, name):
    xs = [ex.fl(st, x) for x in a]
    base = name.rstrip('f') if name != 'fmodf' else 'fmod'
    if all(x.op == 'const' for x in xs) and ex.concrete is not None:
        import mpmath
        mpmath.mp.prec = 240
        fs = [mpmath.mpf(Fraction(x.args[0]).numerator) / Fraction(x.args[0]).denominator for x in xs]
        f = {'acos': mpmath.acos, 'asin': mpmath.asin, 'atan2': mpmath.atan2, 'tan': mpmath.tan, 'exp': mpmath.exp,
             'pow': mpmath.power, 'log': mpmath.log, 'atan': mpmath.atan, 'fmod': mpmath.fmod}[base]
        return R(mpf_frac(mpmath.re(f(*fs))))
    def canon(x):
        p = tm.poly(x)
        return x if p is None else tm.from_poly(p, 'R')
    if not (st.opts.get('angles') == 'opaque' and base == 'atan2'):
        xs = [canon(x) for x in xs]
    if base == 'fmod' and xs[1].op == 'const' and xs[1].args[0] > 0:
        y = xs[1]
        k = tm.fun('fmod_quotient', tuple(xs), 'I')
        r = sub(xs[0], mul(ex.to_real(k), y))
        st.assume(ite(lt(xs[0], R(0)), and_(le(r, R(0)), lt(neg(y), r)), and_(le(R(0), r), lt(r, y))))
        return r
    if base in ('acos', 'asin'):
        ex.oblige(st, and_(le(R(-1), xs[0]), le(xs[0], R(1))), base + " of a value in [-1, 1]", 'safety')
    r = tm.fun(base, tuple(xs))
    tm.poly(r)
    if base == 'acos':
        st.assume(and_(le(R(0), r), le(r, R(Fraction(355, 113)))))
    ex.assumptions.add(base + ": uninterpreted function of its real arguments (plus its range and its sine/cosine)")
    return r


@intr('ceilf', 'ceil', 'llvm.ceil.f32')
def f_ceil(ex, st, fr, ins, a, name):
    x = ex.fl(st, a[0])
    if x.op == 'const':
        return R(math.ceil(x.args[0]))
    k = tm.fun('ceil', (x,), 'I')
    r = ex.to_real(k)
    st.assume(le(x, r))
    st.assume(lt(sub(r, R(1)), x))
    return r


@intr('floorf', 'floor', 'llvm.floor.f32')
def f_floor(ex, st, fr, ins, a, name):
    x = ex.fl(st, a[0])
    if x.op == 'const':
        return R(math.floor(x.args[0]))
    k = tm.fun('floor', (x,), 'I')
    r = ex.to_real(k)
    st.assume(le(r, x))
    st.assume(lt(x, add(r, R(1))))
    return r


@intr('isnan', '_ZSt5isnanf')
def f_isnan(ex, st, fr, ins, a, name):
    return FALSE


# -------------------------------------------------------- std::min/max/clamp
def _minmax(ex, st, fr, ins, a, is_min, cls):
    ty = {'f': ('float', 4), 'd': ('float', 8), 'm': ('int', 8), 'j': ('int', 4), 'i': ('int', 4), 'l': ('int', 8),
          't': ('int', 2), 'h': ('int', 1)}[cls]
    t = MiniTy(*ty)
    x, y = ex.load(st, a[0], t), ex.load(st, a[1], t)
    if cls in 'il':
        sx, sy = ex.signed(st, x, t.width), ex.signed(st, y, t.width)
    else:
        sx, sy = x, y
    c = lt(sy, sx) if is_min else lt(sx, sy)
    c = ex.simplify_known(st, c)
    if c in st.pcset:
        c = TRUE
    elif not_(c) in st.pcset:
        c = FALSE
    if c is TRUE:
        return a[1]
    if c is FALSE:
        return a[0]
    p = ex.alloc(st, t.size, 'minmax')
    ex.store(st, p, ite(c, y, x), t)
    return p


class MiniTy:
    def __init__(self, kind, size):
        self.kind, self.size, self.width = kind, size, size * 8


@pattern(r'^_ZSt3(min|max)I([fdmjilth])ERKT_S2_S2_$')
def f_minmax(ex, st, fr, ins, a, name):
    m = re.match(r'^_ZSt3(min|max)I([fdmjilth])', name)
    return _minmax(ex, st, fr, ins, a, m.group(1) == 'min', m.group(2))


@pattern(r'^_ZSt5clampI([fdmj])ERKT_S2_S2_S2_$')
def f_clamp(ex, st, fr, ins, a, name):
    cls = name[len('_ZSt5clampI')]
    t = MiniTy('float' if cls in 'fd' else 'int', {'f': 4, 'd': 8, 'm': 8, 'j': 4}[cls])
    v, lo, hi = (ex.load(st, x, t) for x in a[:3])
    p = ex.alloc(st, t.size, 'clamp')
    r = ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
    ex.store(st, p, r, t)
    return p


# ------------------------------------------------------------ memory helpers
@pattern(r'^llvm\.mem(cpy|move)\.')
def f_memcpy(ex, st, fr, ins, a, name):
    ex.memcpy(st, a[0], a[1], a[2])
    return None


@intr('memcpy', 'memmove')
def f_memcpy2(ex, st, fr, ins, a, name):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


@pattern(r'^llvm\.memset\.')
def f_memset(ex, st, fr, ins, a, name):
    n = ex.as_int(st, a[2])
    if n is None:
        from .symex import Unsupported
        raise Unsupported("memset of symbolic size")
    if n == 0:
        return None
    oid, o, off = ex.locate(st, a[0], n, 'write')
    b = ex.as_int(st, a[1])
    o = st.wobj(oid)
    if o.kind != 'flat':
        from .symex import Unsupported
        raise Unsupported("memset of symbolic array")
    ex.clear(o, off, n)
    for k in range(n):
        o.cells[off + k] = (1, I(b))
    return None


@intr('_Znwm', '_Znam', 'malloc')
def f_new(ex, st, fr, ins, a, name):
    n = ex.as_int(st, a[0])
    if n is None:
        n = ex.concretize(st, a[0], 0, 4096)
    p = ex.alloc(st, n, 'heap')
    if 'guard' in st.ghost:
        # memory allocated with the mutex of shared data held belongs to that data
        regions = {r for g in st.ghost['guard'].values() for _, _, r in g if r}
        for m in st.ghost.get('held', ()):
            for r in regions:
                if m[0] == r[0] and r[1] <= m[1] < r[2]:
                    st.ghost['guard'] = {**st.ghost['guard'], p.obj: ((0, 1 << 60, r),)}
    return p


@intr('_ZnwmSt11align_val_t')
def f_new2(ex, st, fr, ins, a, name):
    return f_new(ex, st, fr, ins, a, name)


@intr('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def f_delete(ex, st, fr, ins, a, name):
    p = a[0]
    from .symex import Ptr
    if isinstance(p, Ptr) and p.obj is not None and p.obj in st.mem:
        st.wobj(p.obj).freed = True
    return None


@intr('__assert_fail')
def f_assert(ex, st, fr, ins, a, name):
    from .symex import Done
    if st.opts.get('noassert'):
        ex.assumptions.add("assert(" + ex.cstr(st, a[0]) + ") in " + fr.fn.name + " taken as a precondition")
        raise Done('assert taken as a precondition')
    ex.oblige(st, FALSE, "assert(" + ex.cstr(st, a[0]) + ") holds", 'assert')
    raise Done('assert')


@pattern(r'^(_ZSt\d+__throw_|abort$|_ZSt9terminatev|__cxa_pure_virtual|_ZSt21__glibcxx_assert_fail|_ZSt20__throw_)')
def f_throw(ex, st, fr, ins, a, name):
    ex.oblige(st, FALSE, "no call of " + name, 'safety')
    from .symex import Done
    raise Done('throw')


@intr('__cxa_guard_acquire')
def f_guard(ex, st, fr, ins, a, name):
    return I(1)


@intr('__cxa_guard_release', '__cxa_atexit')
def f_guard2(ex, st, fr, ins, a, name):
    return I(0)


@intr('memcmp')
def f_memcmp(ex, st, fr, ins, a, name):
    from .symex import Unsupported
    from .llvmir import int_type
    n = a[2]
    if n.op != 'const':
        n = I(ex.concretize(st, n, 0, 64))
    for k in range(n.args[0]):
        x, y = (ex.load(st, ex.padd(p, k), int_type(8)) for p in (a[0], a[1]))
        if not (isinstance(x, tm.T) and isinstance(y, tm.T)):
            raise Unsupported("memcmp")
        if x is y:
            continue
        if x.op == 'const' and y.op == 'const':
            return I(1 if x.args[0] > y.args[0] else (1 << 32) - 1)
        raise Unsupported("memcmp of symbolic bytes")
    return I(0)


@intr('llvm.umul.with.overflow.i64')
def f_umulo(ex, st, fr, ins, a, name):
    r = mul(a[0], a[1])
    c = le(I(1 << 64), r)
    return (tm.mod(r, I(1 << 64)), c)


@intr('llvm.trap')
def f_trap(ex, st, fr, ins, a, name):
    ex.oblige(st, FALSE, "no trap", 'safety')
    from .symex import Done
    raise Done('trap')


@pattern(r'^llvm\.(ctlz|cttz|ctpop)\.i\d+$')
def bit_counts(ex, st, fr, ins, a, name):
    from . import symex
    n = ex.as_int(st, ex.subst_known(st, a[0]))
    if n is None:
        raise symex.Unsupported(name + " of a symbolic value")
    w = int(name.rsplit('.i', 1)[1])
    if '.ctpop' in name:
        return I(bin(n).count('1'))
    if n == 0:
        return I(w)
    if '.ctlz' in name:
        return I(w - n.bit_length())
    return I((n & -n).bit_length() - 1)
