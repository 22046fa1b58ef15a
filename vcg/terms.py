"""Hash-consed terms (sorts R real, I int, B bool, A arrays) with lazily computed polynomial normal forms.

Machine floats are treated as mathematical reals, machine integers as mathematical integers with explicit
wrap-around where the executor cannot exclude it.
"""
from fractions import Fraction
import math

_table = {}
_count = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "_poly", "_atoms", "_rng")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args, sort):
    key = (op, sort, tuple(a.id if isinstance(a, T) else ('c', a) for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, tuple(args), sort
        _count[0] += 1
        t.id = _count[0]
        t._poly = None
        t._atoms = None
        t._rng = None
        _table[key] = t
    return t


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def R(c):
    return mk('const', (norm(Fraction(c)),), 'R')


def I(c):
    return mk('const', (int(c),), 'I')


TRUE = mk('const', (True,), 'B')
FALSE = mk('const', (False,), 'B')


def Bc(b):
    return TRUE if b else FALSE


def var(name, sort):
    return mk('var', (name,), sort)


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return mk('var', (f"{name}!{_fresh[0]}",), sort)


def is_const(t):
    return t.op == 'const'


# ------------------------------------------------------------------- numeric
def add(a, b):
    if a.op == 'const':
        if a.args[0] == 0:
            return b
        if b.op == 'const':
            return mk('const', (norm(a.args[0] + b.args[0]),), a.sort)
    elif b.op == 'const' and b.args[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), a.sort)


def neg(a):
    if a.op == 'const':
        return mk('const', (-a.args[0],), a.sort)
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), a.sort)


def sub(a, b):
    if a is b:
        return mk('const', (0,), a.sort)
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'const':
        if a.args[0] == 0:
            return a
        if a.args[0] == 1:
            return b
        if b.op == 'const':
            return mk('const', (norm(a.args[0] * b.args[0]),), a.sort)
    elif b.op == 'const':
        if b.args[0] == 0:
            return b
        if b.args[0] == 1:
            return a
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), a.sort)


def div(a, b):
    if b.op == 'const' and b.args[0] != 0:
        if a.op == 'const':
            return R(Fraction(a.args[0]) / Fraction(b.args[0]))
        return mul(a, R(Fraction(1) / Fraction(b.args[0])))
    if a.op == 'const' and a.args[0] == 0:
        return a
    return mk('div', (a, b), 'R')


CONCRETE_PREC = 240


def _isqrt_frac(c):
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


APPROX = False      # set when a concrete evaluation had to round an irrational value
FRAGILE = False     # set when a comparison after that was so close that the rounding might have decided it
TINY = Fraction(1, 1 << 120)


def _note(a, b):
    global FRAGILE
    if APPROX and a.args[0] != b.args[0] and abs(a.args[0] - b.args[0]) < TINY * max(1, abs(a.args[0])):
        FRAGILE = True


def approx_sqrt(c):
    r = _isqrt_frac(c)
    if r is not None:
        return r
    global APPROX
    APPROX = True
    n, d = c.numerator, c.denominator
    # scale so that the result has ~CONCRETE_PREC significant bits
    sh = 2 * CONCRETE_PREC + max(0, 2 * ((d.bit_length() - n.bit_length()) // 2 + 1))
    return Fraction(math.isqrt((n << sh) // d), 1 << (sh // 2))


def sqrt(a):
    if a.op == 'const':
        c = Fraction(a.args[0])
        if c >= 0:
            r = _isqrt_frac(c)
            if r is not None:
                return R(r)
    return mk('sqrt', (a,), 'R')


def fun(name, args, sort='R'):
    return mk('fn:' + name, args, sort)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), a.sort)


# ------------------------------------------------------------------- boolean
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def and_(*xs):
    s = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.args:
                if y not in s:
                    s.append(y)
        elif x not in s:
            s.append(x)
    if not s:
        return TRUE
    for x in s:
        if not_(x) in s:
            return FALSE
    if len(s) == 1:
        return s[0]
    return mk('and', s, 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def _cmpnorm(p, strict_kind):
    """canonical comparison atom for poly p (meaning p OP 0)."""
    pass


def le(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        _note(a, b)
        return Bc(a.args[0] <= b.args[0])
    return not_(lt(b, a))


def lt(a, b):
    """canonical: lt0(p) means p < 0"""
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        _note(a, b)
        return Bc(a.args[0] < b.args[0])
    d = sub(a, b)
    if a.sort == 'I':
        r = rng(d)
        if r[1] is not None and r[1] < 0:
            return TRUE
        if r[0] is not None and r[0] >= 0:
            return FALSE
    p = poly(d)
    if p is not None:
        c = pconst(p)
        if c is not None:
            return Bc(c < 0)
        p = primitive(p)
        d = from_poly(p, a.sort)
    return mk('lt0', (d,), 'B')


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B':
        if a.op == 'const':
            return b if a is TRUE else not_(b)
        if b.op == 'const':
            return a if b is TRUE else not_(a)
        return and_(implies(a, b), implies(b, a))
    if a.sort not in ('R', 'I'):
        return mk('eq', (a, b) if a.id < b.id else (b, a), 'B')
    if a.op == 'const' and b.op == 'const':
        _note(a, b)
        return Bc(a.args[0] == b.args[0])
    d = sub(a, b)
    if a.sort == 'I':
        r = rng(d)
        if (r[1] is not None and r[1] < 0) or (r[0] is not None and r[0] > 0):
            return FALSE
    p = poly(d)
    if p is not None:
        c = pconst(p)
        if c is not None:
            return Bc(c == 0)
        p = primitive(p)
        # sign-normalise
        m = min(p)
        if p[m] < 0:
            p = {k: -v for k, v in p.items()}
        d = from_poly(p, a.sort)
    return mk('eq0', (d,), 'B')


# ------------------------------------------------------------ integer ranges
RANGES = {}   # var term -> (lo, hi)


def rng(t):
    """cheap interval of an int term: (lo|None, hi|None)"""
    if t._rng is not None:
        return t._rng
    op = t.op
    r = (None, None)
    if op == 'const':
        r = (t.args[0], t.args[0])
    elif op == 'var' or op == 'select' or op.startswith('fn:'):
        return RANGES.get(t, (None, None))
    elif op == 'add':
        a, b = rng(t.args[0]), rng(t.args[1])
        r = (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])
    elif op == 'neg':
        a = rng(t.args[0])
        r = (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
    elif op == 'mul':
        a, b = rng(t.args[0]), rng(t.args[1])
        if None not in a and None not in b:
            v = [x * y for x in a for y in b]
            r = (min(v), max(v))
        elif a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            r = (a[0] * b[0], None)
    elif op == 'ite':
        a, b = rng(t.args[1]), rng(t.args[2])
        r = (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    elif op == 'mod':
        r = (0, t.args[1].args[0] - 1) if t.args[1].op == 'const' else (0, None)
        if t.args[1].op != 'const':
            h = rng(t.args[1])
            r = (0, None if h[1] is None else h[1] - 1)
    elif op == 'idiv':
        a = rng(t.args[0])
        if t.args[1].op == 'const' and t.args[1].args[0] > 0:
            k = t.args[1].args[0]
            r = (None if a[0] is None else a[0] // k, None if a[1] is None else a[1] // k)
    # note: vars may get ranges later than first query, so only cache closed results
    if r[0] is not None and r[1] is not None:
        t._rng = r
    return r


def mod(a, b):
    """euclidean mod for b>0"""
    if a.op == 'const' and b.op == 'const':
        return I(a.args[0] % b.args[0])
    if b.op == 'const':
        r = rng(a)
        if r[0] is not None and r[1] is not None and 0 <= r[0] and r[1] < b.args[0]:
            return a
        p = poly(a)
        if p is not None:
            k = b.args[0]
            q = {}
            for m, c in p.items():
                c2 = c % k
                if c2:
                    q[m] = c2
            if len(q) < len(p):
                return mod(from_poly(q, 'I'), b)
    return mk('mod', (a, b), 'I')


def idiv(a, b):
    """floor division for b>0"""
    if a.op == 'const' and b.op == 'const':
        return I(a.args[0] // b.args[0])
    if b.op == 'const':
        k = b.args[0]
        if k == 1:
            return a
        p = poly(a)
        if p is not None:
            q, rest = {}, {}
            for m, c in p.items():
                if c % k == 0:
                    q[m] = c // k
                else:
                    rest[m] = c
            if not rest:
                return from_poly(q, 'I')
            rt = from_poly(rest, 'I')
            r = rng(rt)
            if r[0] is not None and r[1] is not None and r[0] // k == r[1] // k:
                return add(from_poly(q, 'I'), I(r[0] // k))
            if q:
                return add(from_poly(q, 'I'), mk('idiv', (rt, b), 'I'))
    return mk('idiv', (a, b), 'I')


def select(arr, idx):
    while arr.op == 'store':
        a, i, v = arr.args
        e = eq(i, idx)
        if e is TRUE:
            return v
        if e is FALSE:
            arr = a
            continue
        break
    if arr.op == 'constarr':
        return arr.args[0]
    return mk('select', (arr, idx), arr.sort[2])


def store(arr, idx, v):
    if arr.op == 'store' and arr.args[1] is idx:
        arr = arr.args[0]
    return mk('store', (arr, idx, v), arr.sort)


# --------------------------------------------------------------- polynomials
# poly: dict mono -> coeff (int or Fraction); mono: tuple of (atom_id, exp) sorted by atom id; exp may be negative
ATOM = {}         # id -> term
SQRT_OF = {}      # atom id of sqrt -> radicand poly (already normalised)
DEN_OF = {}       # atom id of denominator atom -> poly
MAXTERMS = 4000


NAMED = {}     # var id -> (var, definition), see vc_name


class TooBig(Exception):
    pass


def pconst(p):
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, k):
    if k == 0:
        return {}
    return {m: norm(c * k) for m, c in p.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) + e
        if n:
            d[v] = n
        else:
            del d[v]
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    for v, e in m:
        if v in SQRT_OF and (e >= 2 or e < 0):
            return v, e
    return None


def pmul(p, q, limit=None):
    limit = limit or MAXTERMS
    if len(p) > len(q):
        p, q = q, p
    r = {}
    red = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > limit:
            raise TooBig()
    for m in r:
        for v, e in m:
            if v in SQRT_OF and (e >= 2 or e < 0):
                red = True
                break
    if red:
        r = reduce_sqrt(r)
    for m in r:
        c = r[m]
        if isinstance(c, Fraction) and c.denominator == 1:
            r[m] = int(c)
    return r


def reduce_sqrt(p):
    while True:
        hit = None
        for m in p:
            h = _needs_reduce(m)
            if h:
                hit = (m, h)
                break
        if hit is None:
            return p
        m, (v, e) = hit
        # rewrite every monomial containing this sqrt atom
        out = {}
        for mm, c in p.items():
            d = dict(mm)
            ee = d.get(v, 0)
            if ee >= 2 or ee < 0:
                k, rem = divmod(ee, 2)
                d.pop(v)
                if rem:
                    d[v] = 1
                base = {tuple(sorted(d.items())): c}
                f = ppow_signed(SQRT_OF[v], k)
                out = padd(out, pmul(base, f))
            else:
                out = padd(out, {mm: c})
        p = out


def ppow_signed(p, k):
    if k >= 0:
        r = {(): 1}
        for _ in range(k):
            r = pmul(r, p)
        return r
    i = pinv(p)
    r = {(): 1}
    for _ in range(-k):
        r = pmul(r, i)
    return r


def content(p):
    """positive rational gcd of coefficients"""
    num, den = 0, 1
    for c in p.values():
        f = Fraction(c)
        num = math.gcd(num, f.numerator)
        den = den * f.denominator // math.gcd(den, f.denominator)
    return Fraction(num, den)


def primitive(p):
    c = content(p)
    if c in (0, 1):
        return p
    return pscale(p, 1 / c)


def atom_id(t):
    ATOM[t.id] = t
    return t.id


def pinv(p):
    """1/p as a poly with negative exponents / denominator atoms"""
    c = pconst(p)
    if c is not None:
        return {(): norm(Fraction(1) / Fraction(c))} if c != 0 else None
    if len(p) == 1:
        (m, c), = p.items()
        r = {tuple((v, -e) for v, e in m): norm(Fraction(1) / Fraction(c))}
        return reduce_sqrt(r)
    # factor out the monomial content
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            for v in list(mins):
                mins[v] = min(mins[v], d.get(v, 0))
            for v in d:
                if v not in mins and d[v] < 0:
                    mins[v] = d[v]
    mins = {v: e for v, e in mins.items() if e != 0}
    if mins:
        inv = tuple(sorted((v, -e) for v, e in mins.items()))
        q = pmul(p, {inv: 1})
        mon = {tuple(sorted((v, -e) for v, e in mins.items())): 1}
        return pmul(reduce_sqrt(mon), pinv(q))
    k = content(p)
    lead = min(p)
    if p[lead] < 0:
        k = -k
    q = pscale(p, 1 / k)
    D = mk('den', (from_poly(q, 'R'),), 'R')
    a = atom_id(D)
    DEN_OF[a] = q
    return {((a, -1),): norm(Fraction(1) / k)}


def poly(t):
    if t._poly is not None:
        return t._poly if t._poly != 'big' else None
    try:
        p = _poly(t)
    except TooBig:
        t._poly = 'big'
        return None
    t._poly = p
    return p


def poly_or_atom(t):
    p = poly(t)
    if p is None:
        p = {((atom_id(t), 1),): 1}
    return p


def _poly(t):
    op = t.op
    if op == 'const':
        c = t.args[0]
        return {(): c} if c != 0 else {}
    if op == 'add':
        return padd(poly_or_atom(t.args[0]), poly_or_atom(t.args[1]))
    if op == 'neg':
        return pscale(poly_or_atom(t.args[0]), -1)
    if op == 'mul':
        return pmul(poly_or_atom(t.args[0]), poly_or_atom(t.args[1]))
    if op == 'div':
        i = pinv(poly_or_atom(t.args[1]))
        if i is None:
            return {((atom_id(t), 1),): 1}
        return pmul(poly_or_atom(t.args[0]), i)
    if op == 'sqrt':
        q = poly_or_atom(t.args[0])
        c = content(q)
        s = mk('sqrt', (from_poly(q, 'R'),), 'R')
        a = atom_id(s)
        if a not in SQRT_OF:
            SQRT_OF[a] = q
        return {((a, 1),): 1}
    return {((atom_id(t), 1),): 1}


def from_poly(p, sort):
    """term for a polynomial (deterministic)"""
    xs = []
    for m in sorted(p):
        c = p[m]
        x = mk('const', (c,), sort)
        for v, e in m:
            a = ATOM[v]
            if e > 0:
                for _ in range(e):
                    x = mul(x, a)
            else:
                for _ in range(-e):
                    x = div(x, a)
        xs.append(x)
    while len(xs) > 8:      # balanced, to keep terms shallow
        xs = [add(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    r = None
    for x in xs:
        r = x if r is None else add(r, x)
    if r is None:
        r = mk('const', (0,), sort)
    if r._poly is None:
        r._poly = p
    return r


def psub(p, v, q):
    """substitute atom v by poly q (non-negative exponents of v only, or q invertible)"""
    out = {}
    pw = {0: {(): 1}}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(v, 0)
        base = {tuple(sorted(d.items())): c}
        if e == 0:
            out = padd(out, base)
            continue
        if e not in pw:
            pw[e] = ppow_signed(q, e)
        out = padd(out, pmul(base, pw[e]))
    return out


def atoms_of_poly(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def subterms(ts):
    seen = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        for a in t.args:
            if isinstance(a, T):
                st.append(a)
    return seen


def substitute(t, mapping, cache=None):
    """mapping: term->term"""
    if cache is None:
        cache = {}
    if t in mapping:
        return mapping[t]
    r = cache.get(t.id)
    if r is not None:
        return r
    if not t.args or t.op in ('const', 'var'):
        return t
    args = [substitute(a, mapping, cache) if isinstance(a, T) else a for a in t.args]
    r = rebuild(t, args)
    cache[t.id] = r
    return r


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'neg':
        return neg(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'div':
        return div(*args)
    if op == 'den':
        return args[0]
    if op == 'sqrt':
        return sqrt(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'lt0':
        return lt(args[0], mk('const', (0,), args[0].sort))
    if op == 'eq0':
        return eq(args[0], mk('const', (0,), args[0].sort))
    if op == 'eq':
        return eq(*args)
    if op == 'mod':
        return mod(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'select':
        return select(*args)
    if op == 'store':
        return store(*args)
    return mk(op, args, t.sort)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    op = t.op
    if op == 'const':
        c = t.args[0]
        if isinstance(c, Fraction):
            return f"{c.numerator}/{c.denominator}" if c.denominator < 10**9 else repr(float(c))
        return str(c)
    if op == 'var':
        return t.args[0]
    if d > 12:
        return '...'
    a = [show(x, d + 1) for x in t.args]
    inf = {'add': ' + ', 'mul': '*', 'div': '/', 'and': ' & '}
    if op in inf:
        return '(' + inf[op].join(a) + ')'
    if op == 'neg':
        return '-' + a[0]
    if op == 'not':
        if t.args[0].op == 'lt0':
            return f"({show(t.args[0].args[0], d+1)} >= 0)"
        if t.args[0].op == 'eq0':
            return f"({show(t.args[0].args[0], d+1)} != 0)"
        return '!' + a[0]
    if op == 'lt0':
        return f"({a[0]} < 0)"
    if op == 'eq0':
        return f"({a[0]} = 0)"
    return f"{op}({', '.join(a)})"
