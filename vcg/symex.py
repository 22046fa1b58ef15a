"""Forward VC generation over LLVM IR: symbolic execution with path forking, loop contracts and callee contracts."""
from fractions import Fraction
import re
import struct
import math
import sys
import time
from . import terms as tm
from .terms import T, TRUE, FALSE, R, I, add, sub, mul, neg, div, sqrt, ite, not_, and_, or_, lt, le, eq, \
    select, store, poly, is_const

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class PathLimit(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj      # object id, None for null, ('fn', name)
        self.off = off      # int or T

    def __repr__(self):
        return f"Ptr({self.obj},{self.off})"


NULL = Ptr(None, 0)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


# words of which only some bits are known: id -> (base, mask of known bits, their values); (base id, mask, value) -> term
KNOWN = {}


class Pack:
    """several memory cells seen as one wide integer"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts  # list of (off, size, value)


class PInt:
    """integer made from a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Flat:
    kind = 'flat'
    __slots__ = ("size", "cells", "owner", "name", "const", "freed")

    def __init__(self, size, name=''):
        self.size, self.cells, self.owner, self.name = size, {}, None, name
        self.const = False
        self.freed = False

    def clone(self):
        o = Flat(self.size, self.name)
        o.cells = dict(self.cells)
        o.const = self.const
        o.freed = self.freed
        return o


class Arr:
    """array of symbolic length: per (field offset, type) SMT arrays indexed by element number"""
    kind = 'arr'
    __slots__ = ("stride", "length", "fields", "owner", "name", "freed")

    def __init__(self, stride, length, name):
        self.stride, self.length, self.name = stride, length, name
        self.fields = {}     # off -> (term array, kind, width)
        self.owner = None
        self.freed = False

    def clone(self):
        o = Arr(self.stride, self.length, self.name)
        o.fields = dict(self.fields)
        o.freed = self.freed
        return o


class Frame:
    __slots__ = ("fn", "blk", "ip", "prev", "regs", "ret", "allocas", "loops", "post")

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev = self.fn, self.blk, self.ip, self.prev
        f.regs = dict(self.regs)
        f.ret = self.ret
        f.allocas = self.allocas
        f.loops = dict(self.loops)
        f.post = self.post
        return f


class State:
    _n = 0

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.frames = []
        self.known = {}      # atom id -> int value
        self.trace = []
        self.inputs = []
        self.repl = {}
        self.ghost = {}
        self.steps = 0
        self.opts = {}
        self.cuts = []       # loops being cut: (frame depth, header, body, newest object at entry, objects it may write, key)

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.frames = [f.copy() for f in self.frames]
        s.known = dict(self.known)
        s.trace = list(self.trace)
        s.inputs = list(self.inputs)
        s.repl = dict(self.repl)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.opts = dict(self.opts)
        s.cuts = list(self.cuts)
        # objects are now shared: drop ownership
        for o in self.mem.values():
            o.owner = None
        return s

    def assume(self, c):
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        if c not in self.pcset:
            self.pcset.add(c)
            self.pc.append(c)
            # remember integer equalities with constants
            if c.op == 'eq0' and c.args[0].sort == 'I':
                p = poly(c.args[0])
                if p and len(tm.atoms_of_poly(p)) == 1 and all(len(m) <= 1 and (not m or m[0][1] == 1) for m in p):
                    (v,) = tm.atoms_of_poly(p)
                    k = Fraction(-p.get((), 0)) / p[((v, 1),)]
                    if k.denominator == 1:
                        self.known[v] = int(k)

    def wobj(self, oid):
        o = self.mem[oid]
        for c in self.cuts:
            if oid <= c[3] and oid not in c[4]:
                c[6](self, oid, c)
        if o.owner is not self:
            o = o.clone()
            o.owner = self
            self.mem[oid] = o
        return o


class Obligation:
    __slots__ = ("hyps", "goal", "label", "kind", "trace", "inputs", "status", "backend", "time", "where", "model", "path", "hints")


class Done(Exception):
    """path ended"""

    def __init__(self, why):
        self.why = why


class Fork(Exception):
    """instruction must be re-executed in each of these (cond) successors"""

    def __init__(self, conds):
        self.conds = conds


def demangle_hint(n):
    return n


class Executor:
    def __init__(self, module, feas=None, concrete=None, max_paths=20000, max_steps=4000000):
        self.m = module
        self.feas = feas                 # function(list of B terms) -> False if certainly unsat
        self.concrete = concrete         # dict of input name -> list of values, or None
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.obligations = []
        self.paths = 0
        self.ended = {}
        self.nobj = 0
        self.globals = {}
        self.covers = {}
        self.functions_seen = {}
        self.assumptions = set()
        self.div0_ok = False
        self.total_steps = 0
        self.loop_specs = {}
        self.intr = build_intrinsics()
        self.strcache = {}
        self.deadline = None
        self.bounded = set()
        self.cut_frame = {}              # loop -> variables its iterations write (the frame condition of its invariant)
        self.redo = False

    # ----------------------------------------------------------------- memory
    def new_obj(self, st, o):
        self.nobj += 1
        o.owner = st
        st.mem[self.nobj] = o
        return self.nobj

    def guarded(self, st, p):
        """data declared as shared may be accessed only while a mutex that belongs to it is held (or through atomics)"""
        g = st.ghost['guard'].get(p.obj)
        if not g:
            return
        off = p.off if isinstance(p.off, int) else None
        for lo, hi, region in g:
            if off is not None and not (lo <= off < hi):
                continue
            if region is None:
                self.oblige(st, FALSE, "an object is not used after the thread that waits for it may have destroyed it", 'post')
                raise Done('obligation false')
            o, rlo, rhi = region
            if not any(m[0] == o and rlo <= m[1] < rhi for m in st.ghost.get('held', ())):
                self.oblige(st, FALSE, "shared data is accessed only with its mutex held", 'post')
                raise Done('obligation false')

    def alloc(self, st, size, name=''):
        return Ptr(self.new_obj(st, Flat(size, name)), 0)

    def new_arr(self, st, stride, length, name):
        return Ptr(self.new_obj(st, Arr(stride, length, name)), 0)

    def as_int(self, st, t):
        """concrete int of a term if determined, else None"""
        if isinstance(t, int):
            return t
        if t.op == 'const':
            return t.args[0]
        p = poly(t)
        if p is None:
            return None
        acc = 0
        for m, c in p.items():
            v = c
            for a, e in m:
                if a not in st.known:
                    return None
                v *= st.known[a] ** e
            acc += v
        return acc

    def concretize(self, st, t, lo, hi, step=1):
        """concrete value of t; forks over lo..hi (inclusive) when symbolic"""
        v = self.as_int(st, t)
        if v is not None:
            return v
        r = tm.rng(t)
        if r[0] is not None:
            lo = max(lo, r[0])
        if r[1] is not None:
            hi = min(hi, r[1])
        if (hi - lo) // step > 4096:
            raise Unsupported(f"concretize wide range {lo}..{hi}: {t}")
        conds = []
        for k in range(lo, hi + 1, step):
            conds.append(eq(t, I(k)))
        outside = and_(*[not_(c) for c in conds])
        conds.append(outside)
        raise Fork(conds)

    def oterm(self, off):
        return I(off) if isinstance(off, int) else off

    def padd(self, p, d):
        if isinstance(d, int):
            if isinstance(p.off, int):
                return Ptr(p.obj, p.off + d)
            return Ptr(p.obj, add(p.off, I(d)))
        n = add(self.oterm(p.off), d)
        if n.op == 'const':
            return Ptr(p.obj, n.args[0])
        return Ptr(p.obj, n)

    def locate(self, st, p, size, what):
        """resolve pointer to (obj id, obj, key); emits the in-bounds obligation"""
        if p.obj is None:
            self.oblige(st, FALSE, f"null dereference ({what})", 'safety')
            raise Done('null')
        if isinstance(p.obj, tuple) and p.obj[0] == 'fn':
            raise Unsupported("data access through function pointer")
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported("dangling object")
        if o.freed:
            self.oblige(st, FALSE, f"use after free ({what} {o.name})", 'safety')
            raise Done('uaf')
        if o.kind == 'flat':
            off = p.off
            if not isinstance(off, int):
                off = self.concretize(st, off, 0, max(o.size - size, 0), 1 if o.size < 64 else self.gcd_step(off))
            if off < 0 or off + size > o.size:
                self.oblige(st, FALSE, f"out-of-bounds {what} of {o.name or 'object'}", 'safety')
                raise Done('oob')
            return p.obj, o, off
        # symbolic array
        idx, c = self.split_off(st, p.off, o.stride)
        inb = and_(le(I(0), idx), lt(idx, o.length))
        self.oblige(st, inb, f"in-bounds {what} of {o.name}", 'safety')
        return p.obj, o, (idx, c)

    @staticmethod
    def gcd_step(t):
        p = poly(t)
        if p is None:
            return 1
        g = 0
        for m, c in p.items():
            g = math.gcd(g, int(c))
        return g or 1

    def split_off(self, st, off, stride):
        if isinstance(off, int):
            return I(off // stride), off % stride
        p = poly(off)
        if p is None:
            raise Unsupported("offset too complex")
        q, rest = {}, {}
        for m, c in p.items():
            if c % stride == 0:
                q[m] = c // stride
            elif m == ():
                if c // stride:
                    q[()] = c // stride
                rest[m] = c % stride
            else:
                rest[m] = c
        if rest and set(rest) != {()}:
            v = self.as_int(st, off)
            if v is not None:
                return I(v // stride), v % stride
            raise Unsupported(f"offset {off} not a multiple of {stride}")
        return tm.from_poly(q, 'I'), rest.get((), 0)

    def load(self, st, p, ty):
        k = ty.kind
        if k == 'struct':
            return tuple(self.load(st, self.padd(p, o), e) for o, e in zip(ty.offs, ty.elems))
        if k in ('array', 'vector'):
            return tuple(self.load(st, self.padd(p, ty.stride * i), ty.elem) for i in range(ty.n))
        size = ty.size
        oid, o, key = self.locate(st, p, size, 'read')
        if o.kind == 'flat':
            cell = o.cells.get(key)
            if cell is not None and cell[0] == size:
                return self.coerce(cell[1], ty)
            # wide/narrow access
            parts = self.parts_of(st, oid, o, key, size, ty)
            return parts
        idx, c = key
        f = o.fields.get(c)
        sort = 'R' if k == 'float' else 'I'
        if k == 'ptr':
            raise Unsupported("pointer inside symbolic array")
        if f is None:
            f = self.fresh_field(st, oid, c, sort, size)
        if f[2] != size:
            raise Unsupported(f"symbolic array access with a different width ({f[2]} vs {size}) in {o.name}")
        v = select(f[0], idx)
        if sort == 'I':
            if v.op == 'select':
                tm.RANGES[v] = (0, (1 << (8 * size)) - 1)
                st.assume(le(I(0), v))
                st.assume(lt(v, I(1 << (8 * size))))
            if k == 'int' and ty.width == 1:
                return not_(eq(v, I(0)))
        return v

    def fresh_field(self, st, oid, c, sort, size):
        o = st.wobj(oid)
        f = (tm.var(f"{o.name}.{c}", ('A', 'I', sort)), sort, size)
        o.fields[c] = f
        return f

    def coerce(self, v, ty):
        if v is UNDEF:
            return v
        if isinstance(v, T):
            if ty.kind == 'float' and v.sort == 'R':
                return v
            if ty.kind == 'int':
                if v.sort == 'I':
                    return v
                if v.sort == 'B':
                    return v if ty.width == 1 else ite(v, I(1), I(0))
                if v.sort == 'R':
                    # bits of a float seen as an integer: keep it opaque
                    return Pack([(0, ty.size, v)])
            if ty.kind == 'float' and v.sort == 'I':
                if v.op == 'const':
                    b = int(v.args[0]).to_bytes(ty.size, 'little')
                    return R(Fraction(struct.unpack('<f' if ty.size == 4 else '<d', b)[0]))
                raise Unsupported("integer bits read as float")
            if ty.kind == 'ptr' and is_const(v) and v.args[0] == 0:
                return NULL
        if isinstance(v, Pack):
            if ty.kind == 'float' and len(v.parts) == 1 and isinstance(v.parts[0][2], T) and v.parts[0][2].sort == 'R':
                return v.parts[0][2]
            return v
        if isinstance(v, Ptr) and ty.kind == 'int':
            return PInt(v)
        if isinstance(v, PInt) and ty.kind == 'ptr':
            return v.p
        return v

    def parts_of(self, st, oid, o, off, size, ty):
        covered = []
        a = off
        while a < off + size:
            c = o.cells.get(a)
            if c is None:
                # inside another cell?
                hit = None
                for b in range(max(0, a - 15), a):
                    cc = o.cells.get(b)
                    if cc is not None and b + cc[0] > a:
                        hit = (b, cc)
                if hit:
                    b, cc = hit
                    v = cc[1]
                    if isinstance(v, T) and v.sort == 'I':
                        sh = (a - b) * 8
                        n = min(b + cc[0], off + size) - a
                        x = tm.mod(tm.idiv(v, I(1 << sh)), I(1 << (8 * n)))
                        covered.append((a - off, n, x))
                        a += n
                        continue
                    if isinstance(v, Pack):
                        for (po, ps, pv) in v.parts:
                            if b + po == a and a + ps <= off + size:
                                covered.append((a - off, ps, pv))
                                a += ps
                                break
                        else:
                            raise Unsupported("partial read of packed cell")
                        continue
                    raise Unsupported(f"partial read of cell in {o.name}")
                # uninitialised byte(s): up to the next cell
                n = 1
                while a + n < off + size and (a + n) not in o.cells:
                    n += 1
                covered.append((a - off, n, UNDEF))
                a += n
                continue
            s, v = c
            if a + s > off + size:
                if isinstance(v, T) and v.sort == 'I':
                    n = off + size - a
                    covered.append((a - off, n, tm.mod(v, I(1 << (8 * n)))))
                    a += n
                    continue
                if isinstance(v, Pack):
                    n = off + size - a
                    sel = [(po, ps, pv) for po, ps, pv in v.parts if po + ps <= n]
                    if sum(x[1] for x in sel) == n:
                        for po, ps, pv in sel:
                            covered.append((a - off + po, ps, pv))
                        a += n
                        continue
                if isinstance(v, T) and v.sort == 'R' and v.op == 'const':
                    n = off + size - a
                    bits = struct.unpack('<I' if s == 4 else '<Q', struct.pack('<f' if s == 4 else '<d', float(v.args[0])))[0]
                    covered.append((a - off, n, I(bits & ((1 << (8 * n)) - 1))))
                    a += n
                    continue
                raise Unsupported(f"partial read of cell in {o.name}")
            covered.append((a - off, s, v))
            a += s
        if len(covered) == 1:
            v = covered[0][2]
            if v is UNDEF:
                v = self.havoc_val(st, ty, (o.name or 'uninit'))
                w = st.wobj(oid)
                w.cells[off] = (size, v)
                return v
            return self.coerce(v, ty)
        if all(isinstance(v, T) and v.sort == 'I' for _, _, v in covered):
            r = I(0)
            for o2, s, v in covered:
                r = add(r, mul(v, I(1 << (8 * o2))))
            if ty.kind == 'int':
                return r
            if r.op == 'const':
                return self.coerce(r, ty)
        if ty.kind == 'int':
            return Pack(covered)
        raise Unsupported(f"wide read {ty} of {o.name}: {covered}")

    def havoc_val(self, st, ty, name):
        if ty.kind == 'float':
            return tm.fresh(name, 'R')
        if ty.kind == 'int':
            if ty.width == 1:
                return tm.fresh(name, 'B')
            v = tm.fresh(name, 'I')
            tm.RANGES[v] = (0, (1 << ty.width) - 1)
            KNOWN[v.id] = (v, 0, 0)
            st.assume(le(I(0), v))
            st.assume(lt(v, I(1 << ty.width)))
            return v
        if ty.kind == 'ptr':
            return UNDEF
        if ty.kind == 'struct':
            return tuple(self.havoc_val(st, e, name) for e in ty.elems)
        if ty.kind in ('array', 'vector'):
            return tuple(self.havoc_val(st, ty.elem, name) for _ in range(ty.n))
        raise Unsupported("havoc " + ty.kind)

    def store(self, st, p, v, ty):
        k = ty.kind
        if k == 'struct':
            if v is UNDEF:
                return
            for i, (o, e) in enumerate(zip(ty.offs, ty.elems)):
                self.store(st, self.padd(p, o), v[i], e)
            return
        if k in ('array', 'vector'):
            if v is UNDEF:
                return
            for i in range(ty.n):
                self.store(st, self.padd(p, ty.stride * i), v[i], ty.elem)
            return
        size = ty.size
        oid, o, key = self.locate(st, p, size, 'write')
        o = st.wobj(oid)
        if o.kind == 'flat':
            self.clear(o, key, size)
            if v is UNDEF:
                return
            if isinstance(v, Pack):
                for (po, ps, pv) in v.parts:
                    if pv is not UNDEF:
                        o.cells[key + po] = (ps, pv)
                return
            if isinstance(v, T) and v.sort == 'B':
                if ty.width == 8:
                    v = ite(v, I(1), I(0))
            o.cells[key] = (size, v)
            return
        idx, c = key
        if v is UNDEF:
            v = self.havoc_val(st, ty, 'undef')
        if isinstance(v, T) and v.sort == 'B':
            v = ite(v, I(1), I(0))
        if isinstance(v, Pack):
            for (po, ps, pv) in v.parts:
                self.store_arr(st, oid, idx, c + po, ps, pv)
            return
        if not isinstance(v, T):
            raise Unsupported("pointer stored in symbolic array")
        self.store_arr(st, oid, idx, c, size, v)

    def store_arr(self, st, oid, idx, c, size, v):
        o = st.wobj(oid)
        f = o.fields.get(c)
        if f is None:
            f = self.fresh_field(st, oid, c, v.sort, size)
        if f[1] != v.sort or f[2] != size:
            raise Unsupported("mixed typed symbolic array")
        o = st.wobj(oid)
        o.fields[c] = (tm.store(f[0], idx, v), f[1], f[2])

    @staticmethod
    def clear(o, off, size):
        for b in range(max(0, off - 15), off + size):
            c = o.cells.get(b)
            if c is None:
                continue
            if b + c[0] > off and not (b >= off and b + c[0] <= off + size):
                v = c[1]
                # partially overwritten: split when we can
                if isinstance(v, T) and v.sort == 'I':
                    del o.cells[b]
                    for j in range(c[0]):
                        if not (off <= b + j < off + size):
                            o.cells[b + j] = (1, tm.mod(tm.idiv(v, I(1 << (8 * j))), I(256)))
                    continue
                del o.cells[b]
                continue
            if b >= off:
                del o.cells[b]

    def memcpy(self, st, d, s, n):
        n = self.as_int(st, n) if not isinstance(n, int) else n
        if n is None:
            raise Unsupported("memcpy of symbolic size")
        if n == 0:
            return
        so_id, so, soff = self.locate(st, s, n, 'read')
        do_id, do, doff = self.locate(st, d, n, 'write')
        if so.kind == 'flat':
            cells = []
            covered = 0
            for b in range(max(0, soff - 15), soff + n):
                c = so.cells.get(b)
                if c is None or b + c[0] <= soff:
                    continue
                if b >= soff and b + c[0] <= soff + n:
                    cells.append((b - soff, c[0], c[1]))
                else:
                    # straddles
                    v = c[1]
                    if isinstance(v, T) and v.sort == 'I':
                        for j in range(c[0]):
                            if soff <= b + j < soff + n:
                                cells.append((b + j - soff, 1, tm.mod(tm.idiv(v, I(1 << (8 * j))), I(256))))
                    else:
                        raise Unsupported("memcpy of a partial cell")
        else:
            idx, c0 = soff
            cells = []
            lo, hi = c0, c0 + n
            if n % so.stride == 0 and c0 == 0 and n > so.stride:
                for k in range(n // so.stride):
                    self.oblige(st, lt(add(idx, I(k)), so.length), f"in-bounds read of {so.name}", 'safety')
                    for c, f in so.fields.items():
                        cells.append((k * so.stride + c, f[2], select(f[0], add(idx, I(k)))))
            else:
                if hi > so.stride:
                    raise Unsupported("memcpy across elements of a symbolic array")
                missing = set(range(lo, hi))
                for c, f in so.fields.items():
                    if lo <= c < hi:
                        cells.append((c - c0, f[2], select(f[0], idx)))
                        missing -= set(range(c, c + f[2]))
                if missing:
                    # not yet typed: needs an explicit type
                    raise Unsupported(f"memcpy from untyped part of symbolic array {so.name}")
                for (_, sz, v) in cells:
                    if v.sort == 'I' and v.op == 'select':
                        tm.RANGES[v] = (0, (1 << (8 * sz)) - 1)
                        st.assume(le(I(0), v))
                        st.assume(lt(v, I(1 << (8 * sz))))
        do = st.wobj(do_id)
        if do.kind == 'flat':
            self.clear(do, doff, n)
            for b, sz, v in cells:
                do.cells[doff + b] = (sz, v)
        else:
            idx, c0 = doff
            if c0 + n > do.stride:
                if c0 == 0 and n % do.stride == 0:
                    for b, sz, v in cells:
                        k = b // do.stride
                        self.oblige(st, lt(add(idx, I(k)), do.length), f"in-bounds write of {do.name}", 'safety')
                        self.store_arr(st, do_id, add(idx, I(k)), b % do.stride, sz, v)
                    return
                raise Unsupported("memcpy across elements of a symbolic array")
            for b, sz, v in cells:
                if not isinstance(v, T):
                    raise Unsupported("pointer stored in symbolic array")
                if v.sort == 'B':
                    v = ite(v, I(1), I(0))
                self.store_arr(st, do_id, idx, c0 + b, sz, v)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, label, kind, assume=True):
        if goal is TRUE or goal in st.pcset:
            if kind != 'safety':
                self._emit(st, goal, label, kind)
            return
        if kind == 'safety' and st.opts.get('nosafety'):
            st.assume(goal)
            return
        self._emit(st, goal, label, kind)
        if assume:
            st.assume(goal)
            if goal is FALSE:
                raise Done('obligation false')

    def _emit(self, st, goal, label, kind):
        o = Obligation()
        o.hyps, o.goal, o.label, o.kind = list(st.pc), goal, label, kind
        o.trace = list(st.trace)
        o.inputs = list(st.inputs)
        o.where = st.frames[-1].fn.name if st.frames else ''
        o.path = None
        o.status = None
        o.model = None
        o.hints = list(st.ghost.get('hints', ()))
        self.obligations.append(o)

    # ----------------------------------------------------------------- values
    def value(self, st, fr, v):
        k = v[0]
        if k == 'L':
            return fr.regs[v[1]]
        if k == 'i':
            if v[1] == 1:
                return tm.Bc(v[2])
            return I(v[2])
        if k == 'f':
            return self.fconst(v[1])
        if k == 'null':
            return NULL
        if k == 'G':
            return self.global_ptr(st, v[1])
        if k == 'F':
            return Ptr(('fn', v[1]), 0)
        if k == 'alias':
            return Ptr(('fn', v[1]), 0)
        if k == 'undef':
            return self.undef_of(v[1])
        if k == 'zero':
            return self.zero(v[1])
        if k == 'agg':
            return tuple(self.value(st, fr, x) for x in v[1])
        if k == 'cgep':
            return self.gep(st, v[1], self.value(st, fr, v[2]), [self.value(st, fr, x) for x in v[3]])
        if k == 'ccast':
            a = [self.value(st, fr, x) for x in v[2]]
            if v[1] in ('bitcast', 'addrspacecast'):
                return a[0]
            if v[1] == 'ptrtoint':
                return self.p2i(a[0])
            if v[1] == 'inttoptr':
                return self.i2p(a[0])
            raise Unsupported("constant expression " + v[1])
        return None

    def fconst(self, x):
        if math.isinf(x) or math.isnan(x):
            # +-infinity: a value larger than anything else that occurs
            self.assumptions.add("infinities in the source are modelled as unconstrained huge reals")
            t = tm.var('inf' if x > 0 else ('ninf' if x < 0 else 'nan'), 'R')
            return t
        return R(Fraction(x))

    def undef_of(self, ty):
        if ty.kind == 'struct':
            return tuple(self.undef_of(e) for e in ty.elems)
        if ty.kind in ('array', 'vector'):
            return tuple(self.undef_of(ty.elem) for _ in range(ty.n))
        return UNDEF

    def zero(self, ty):
        if ty.kind == 'int':
            return FALSE if ty.width == 1 else I(0)
        if ty.kind == 'float':
            return R(0)
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'struct':
            return tuple(self.zero(e) for e in ty.elems)
        if ty.kind in ('array', 'vector'):
            return tuple(self.zero(ty.elem) for _ in range(ty.n))
        raise Unsupported("zero " + ty.kind)

    def global_ptr(self, st, name):
        oid = ('g', name)
        if oid not in st.mem:
            t, init, const = self.m.global_init(name)
            o = Flat(t.size, name)
            o.owner = st
            st.mem[oid] = o
            if init is not None and init[0] != 'undef':
                v = self.value(st, None, init)
                self.store(st, Ptr(oid, 0), v, t)
            if name == '__libc_single_threaded':
                self.store(st, Ptr(oid, 0), I(1), t)
            o = st.mem[oid]
            o.const = const
        return Ptr(oid, 0)

    def cstr(self, st, p):
        oid = p.obj
        if isinstance(oid, tuple) and oid[0] == 'g':
            key = (oid, p.off)
            if key in self.strcache:
                return self.strcache[key]
        o = st.mem[oid]
        out = []
        a = p.off
        while True:
            c = o.cells.get(a)
            if c is None:
                break
            v = c[1].args[0]
            if v == 0:
                break
            out.append(v)
            a += 1
        s = bytes(out).decode(errors='replace')
        if isinstance(oid, tuple):
            self.strcache[(oid, p.off)] = s
        return s

    def p2i(self, p):
        if isinstance(p, Ptr):
            if p.obj is None:
                return self.oterm(p.off)
            return PInt(p)
        return p

    def i2p(self, v):
        if isinstance(v, PInt):
            return v.p
        if isinstance(v, T) and is_const(v) and v.args[0] == 0:
            return NULL
        if isinstance(v, T) and is_const(v):
            return Ptr(None, v.args[0])
        if isinstance(v, Ptr):
            return v
        raise Unsupported("inttoptr")

    def sidx(self, v, w=64):
        """index operand as signed int (python int or term)"""
        if isinstance(v, int):
            return v
        if v.op == 'const':
            c = v.args[0]
            return c - (1 << w) if c >= (1 << (w - 1)) else c
        return v

    def gep(self, st, ty, base, idx, widths=None):
        if base is UNDEF:
            return UNDEF
        p = base
        cur = None
        for i, x in enumerate(idx):
            w = widths[i] if widths else 64
            x = self.sidx(x, w)
            if i == 0:
                stride = self.tysize(ty)
                p = self.padd(p, x * stride if isinstance(x, int) else mul(x, I(stride)))
                cur = ty
                continue
            if cur.kind == 'struct':
                p = self.padd(p, cur.offs[x])
                cur = cur.elems[x]
            else:
                p = self.padd(p, x * cur.stride if isinstance(x, int) else mul(x, I(cur.stride)))
                cur = cur.elem
        return p

    @staticmethod
    def tysize(ty):
        if ty.kind == 'int':
            n = 1
            while n < ty.size:
                n *= 2
            return n
        return ty.size

    # ---------------------------------------------------------------- running
    def run(self, fname):
        f = self.m.func(fname)
        work = None
        while work or work is None:
            if self.redo or work is None:
                # (again, once the variables written by a loop that is cut are known)
                self.redo = False
                self.obligations, self.paths, self.ended, self.covers, self.total_steps = [], 0, {}, {}, 0
                st = State()
                self.enter(st, f, [], None)
                work = [st]
            s = work.pop()
            try:
                new = self.run_path(s)
            except Done as d:
                if self.redo:
                    work.append(s)
                    continue
                self.ended[d.why] = self.ended.get(d.why, 0) + 1
                self.paths += 1
                self.on_end(s, d.why)
                continue
            work.extend(new)
            if self.paths + len(work) > self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
        return self

    def on_end(self, st, why):
        pass

    def enter(self, st, f, args, ret):
        if f.decl:
            raise Unsupported("call of undefined function " + f.name)
        fr = Frame()
        fr.fn, fr.blk, fr.ip, fr.prev = f, f.blocks[0], 0, None
        fr.regs = {}
        fr.ret = ret
        fr.allocas = []
        fr.loops = {}
        fr.post = None
        for (pid, ty, nm), v in zip(f.params, args):
            fr.regs[pid] = v
        if len(st.frames) > 200:
            raise Unsupported("recursion too deep in " + f.name)
        st.frames.append(fr)
        self.functions_seen[f.name] = self.functions_seen.get(f.name, 0) + 1

    def run_path(self, st):
        """run until the path forks or ends"""
        while True:
            fr = st.frames[-1]
            ins = fr.blk.instrs[fr.ip]
            st.steps += 1
            self.total_steps += 1
            if self.deadline and not (self.total_steps & 1023) and time.time() > self.deadline:
                raise Unsupported("timeout: symbolic execution budget exhausted")
            if st.steps > self.max_steps:
                raise Unsupported("step limit: unbounded loop without a contract?")
            try:
                r = self.step(st, fr, ins)
            except Fork as fk:
                out = []
                for c in fk.conds:
                    if c is FALSE:
                        continue
                    if not self.feasible(st, c):
                        continue
                    s2 = st.fork()
                    s2.assume(c)
                    out.append(s2)
                return out
            except Unsupported as u:
                if not getattr(u, 'located', False):
                    u.located = True
                    u.args = (f"{u.args[0]} [in {fr.fn.name}: {Module_text(ins)}]",)
                raise
            if r is not None:
                return r

    def feasible(self, st, c):
        if c is TRUE or c in st.pcset:
            return True
        if c is FALSE or not_(c) in st.pcset:
            return False
        if self.feas is None:
            return True
        return self.feas(st.pc, c)

    def simplify_known(self, st, c):
        if c.op == 'const' or not st.known:
            return c
        ats = None
        m = {}
        for v, k in st.known.items():
            m[tm.ATOM[v]] = I(k)
        sub_ = tm.subterms([c])
        if any(t.id in sub_ for t in m):
            return tm.substitute(c, m)
        return c

    # ------------------------------------------------------------------ loops
    # A loop that is cut is replaced by one arbitrary iteration: its variables take any values on entry (the invariant is
    # true, its frame the variables that iterations write), and a path ends when it comes back to the head of the loop.
    def loops_of(self, fn):
        if fn._loops is None:
            n = len(fn.blocks)
            preds = [[] for _ in range(n)]
            reach, todo = {0}, [0]
            while todo:
                b = todo.pop()
                for s in fn.blocks[b].succs:
                    preds[s].append(b)
                    if s not in reach:
                        reach.add(s)
                        todo.append(s)
            full = set(range(n))
            dom = [full] * n
            dom[0] = {0}
            change = True
            while change:
                change = False
                for b in sorted(reach - {0}):
                    d = set(full)
                    for p in preds[b]:
                        d &= dom[p]
                    d = d | {b}
                    if d != dom[b]:
                        dom[b] = d
                        change = True
            fn._loops = {}
            for b in sorted(reach):
                for h in fn.blocks[b].succs:
                    if h in dom[b]:
                        body = fn._loops.setdefault(h, {h})
                        todo = [b]
                        while todo:
                            x = todo.pop()
                            if x not in body:
                                body.add(x)
                                todo.extend(preds[x])
        return fn._loops

    def cut_write(self, st, oid, c):
        for depth, f in enumerate(st.frames[:c[0]]):
            for rid, v in f.regs.items():
                if isinstance(v, Ptr) and v.obj == oid and v.off == 0 and rid in self.allocas_of(f.fn):
                    self.cut_frame[c[5]].add((depth, f.fn.name, rid))
                    c[4].add(oid)
                    self.redo = True
                    return
        raise Unsupported("a loop that is cut writes memory that is not a local variable")

    @staticmethod
    def allocas_of(fn):
        if not hasattr(fn, '_allocas'):
            fn._allocas = {i.id for b in fn.blocks for i in b.instrs if i.op == 'alloca'}
        return fn._allocas

    def cut_loop(self, st, fr, idx):
        body = self.loops_of(fr.fn).get(idx)
        if body is None:
            return
        if fr.blk.idx in body:
            raise Done('end of an iteration')
        key = (fr.fn.name, idx, len(st.frames))
        frame = self.cut_frame.setdefault(key, set())
        self.assumptions.add("loops cut by havoc (invariant true): " + fr.fn.name)
        may = set()
        for depth, fname, rid in frame:
            f = st.frames[depth]
            v = f.regs.get(rid) if f.fn.name == fname else None
            if v is None:
                continue
            may.add(v.obj)
            o = st.wobj(v.obj)
            if o.kind != 'flat':
                raise Unsupported("a loop that is cut writes an array")
            for off, (sz, val) in list(o.cells.items()):
                if not isinstance(val, T) or val.sort == 'B':
                    del o.cells[off]
                elif val.sort == 'R':
                    o.cells[off] = (sz, tm.fresh('any', 'R'))
                else:
                    w = tm.fresh('any', 'I')
                    tm.RANGES[w] = (0, (1 << (8 * sz)) - 1)
                    KNOWN[w.id] = (w, 0, 0)
                    st.assume(le(I(0), w))
                    st.assume(lt(w, I(1 << (8 * sz))))
                    o.cells[off] = (sz, w)
        for ins in fr.fn.blocks[idx].instrs:
            if ins.op == 'phi':
                raise Unsupported("a loop that is cut has phis")
        st.cuts.append((len(st.frames), idx, body, self.nobj, may, key, self.cut_write))

    def goto(self, st, fr, idx):
        while st.cuts and (st.cuts[-1][0] > len(st.frames) or (st.cuts[-1][0] == len(st.frames) and idx not in st.cuts[-1][2])):
            st.cuts.pop()
        if st.opts.get('cut') and self.concrete is None and '4edyn' in fr.fn.name and 'vc_contract' not in fr.fn.name:
            self.cut_loop(st, fr, idx)
        prev = fr.blk
        fr.prev = prev.idx
        fr.blk = fr.fn.blocks[idx]
        fr.ip = 0
        # phis evaluate in parallel
        vals = []
        for ins in fr.blk.instrs:
            if ins.op != 'phi':
                break
            for b, v in ins.x:
                if b == fr.prev:
                    vals.append((ins.id, self.value(st, fr, v)))
                    break
            fr.ip += 1
        for i, v in vals:
            fr.regs[i] = v

    def branch(self, st, fr, cond, tgt_t, tgt_f):
        cond = self.simplify_known(st, cond)
        if cond is TRUE or cond in st.pcset:
            return self.jump(st, fr, tgt_t)
        if cond is FALSE or not_(cond) in st.pcset:
            return self.jump(st, fr, tgt_f)
        ft = self.feasible(st, cond)
        ff = self.feasible(st, not_(cond))
        if ft and not ff:
            st.assume(cond)
            return self.jump(st, fr, tgt_t)
        if ff and not ft:
            st.assume(not_(cond))
            return self.jump(st, fr, tgt_f)
        if not ft and not ff:
            raise Done('infeasible')
        s2 = st.fork()
        st.assume(cond)
        st.trace.append((fr.fn.name, fr.blk.idx, True))
        s2.assume(not_(cond))
        s2.trace.append((fr.fn.name, fr.blk.idx, False))
        out = []
        for s, t in ((st, tgt_t), (s2, tgt_f)):
            try:
                r = self.jump(s, s.frames[-1], t)
                if r is None:
                    out.append(s)
                else:
                    out.extend(r)
            except Done as d:
                self.ended[d.why] = self.ended.get(d.why, 0) + 1
                self.paths += 1
                self.on_end(s, d.why)
        return out

    def jump(self, st, fr, idx):
        self.goto(st, fr, idx)
        return None

    # ------------------------------------------------------------ integer ops
    def wrap(self, st, raw, w, what):
        r = tm.rng(raw)
        M = 1 << w
        if r[0] is not None and r[1] is not None and r[0] >= 0 and r[1] < M:
            return raw
        if raw.op == 'const':
            return I(raw.args[0] % M)
        inr = and_(le(I(0), raw), lt(raw, I(M)))
        if inr is TRUE or inr in st.pcset:
            return raw
        if self.feas is not None and not self.feas(st.pc, not_(inr)):
            return raw
        raise Fork([inr, and_(le(I(M), raw), lt(raw, I(2 * M))), and_(lt(raw, I(0)), le(I(-M), raw)),
                    or_(lt(raw, I(-M)), le(I(2 * M), raw))])

    def wrapped(self, st, raw, w, what):
        """raw reduced mod 2^w; forks at most once per path"""
        M = 1 << w
        raw = self.subst_known(st, raw)
        r = tm.rng(raw)
        if r[0] is not None and r[1] is not None:
            if r[0] >= 0 and r[1] < M:
                return raw
        if raw.op == 'const':
            return I(raw.args[0] % M)
        lo_ok = le(I(0), raw)
        hi_ok = lt(raw, I(M))
        if self.holds(st, and_(lo_ok, hi_ok)):
            return raw
        if self.holds(st, and_(le(I(M), raw), lt(raw, I(2 * M)))):
            return sub(raw, I(M))
        if self.holds(st, and_(lt(raw, I(0)), le(I(-M), raw))):
            return add(raw, I(M))
        if self.holds(st, or_(lt(raw, I(-M)), le(I(2 * M), raw))):
            return tm.mod(raw, I(M))
        raise Fork([and_(lo_ok, hi_ok), and_(le(I(M), raw), lt(raw, I(2 * M))), and_(lt(raw, I(0)), le(I(-M), raw)),
                    or_(lt(raw, I(-M)), le(I(2 * M), raw))])

    def subst_known(self, st, t):
        v = self.as_int(st, t)
        return I(v) if v is not None else t

    def holds(self, st, c):
        if c is TRUE or c in st.pcset:
            return True
        if c is FALSE:
            return False
        if c.op == 'and' and all(x in st.pcset for x in c.args):
            return True
        if self.feas is None:
            return False
        return not self.feas(st.pc, not_(c))

    def signed(self, st, v, w):
        if v.op == 'const':
            c = v.args[0]
            return I(c - (1 << w) if c >= (1 << (w - 1)) else c)
        v = self.subst_known(st, v)
        if v.op == 'const':
            return self.signed(st, v, w)
        r = tm.rng(v)
        if r[1] is not None and r[1] < (1 << (w - 1)):
            return v
        c = lt(v, I(1 << (w - 1)))
        if self.holds(st, c):
            return v
        if self.holds(st, not_(c)):
            return sub(v, I(1 << w))
        raise Fork([c, not_(c)])

    def toint(self, st, v, ty):
        """operand to an int term"""
        if v is UNDEF:
            return self.havoc_val(st, ty, 'undef')
        return v

    def binop(self, st, op, a, b, ty, flags):
        w = ty.width
        if ty.kind == 'vector':
            return tuple(self.binop(st, op, x, y, ty.elem, flags) for x, y in zip(a, b))
        if w == 1:
            a = a if a is not UNDEF else tm.fresh('undef', 'B')
            b = b if b is not UNDEF else tm.fresh('undef', 'B')
            if op == 'and':
                return and_(a, b)
            if op == 'or':
                return or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return not_(eq(a, b)) if not (b is TRUE) else not_(a)
            raise Unsupported("i1 " + op)
        # pointer difference and friends
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj != b.p.obj:
                    if isinstance(a.p.off, int) and a.p.off == 0 and b.p.obj is None:
                        pass
                    raise Unsupported("difference of pointers into different objects")
                d = sub(self.oterm(a.p.off), self.oterm(b.p.off))
                return self.wrapped(st, d, w, 'ptrdiff')
            if op == 'add' and isinstance(a, PInt) and isinstance(b, T):
                return PInt(self.padd(a.p, self.sidx(b)))
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, T):
                return PInt(self.padd(a.p, neg(b)))
            if op == 'and' and isinstance(a, PInt) and isinstance(b, T) and b.op == 'const' and b.args[0] == 1 and isinstance(a.p.off, int) and a.p.off == 0:
                return tm.I(0)         # functions and objects start at even addresses (pointer to member functions: bit 0 set means virtual)
            raise Unsupported("arithmetic on pointer bits: " + op)
        if a is UNDEF or b is UNDEF:
            v = self.havoc_val(st, ty, 'undef')
            if op in ('and', 'or') and isinstance(v, T) and isinstance(b if a is UNDEF else a, T):
                return self.bitop(st, op, v, b if a is UNDEF else a, w)
            return v
        if isinstance(a, Pack) or isinstance(b, Pack):
            return self.pack_op(st, op, a, b, w)
        M = 1 << w
        if op == 'add':
            if b.op == 'const' and b.args[0] >= M // 2:
                return self.wrapped(st, sub(a, I(M - b.args[0])), w, 'add')
            return self.wrapped(st, add(a, b), w, 'add')
        if op == 'sub':
            return self.wrapped(st, sub(a, b), w, 'sub')
        if op == 'mul':
            if b.op == 'const' and b.args[0] >= M // 2:
                return self.wrapped(st, neg(mul(self.signed(st, a, w), I(M - b.args[0]))), w, 'mul')
            return self.wrapped(st, mul(a, b), w, 'mul')
        if op in ('udiv', 'urem'):
            b = self.subst_known(st, b)
            self.oblige(st, not_(eq(b, I(0))), "integer division by zero", 'safety')
            if b.op != 'const':
                return tm.mk('idiv' if op == 'udiv' else 'mod', (a, b), 'I')
            return tm.idiv(a, b) if op == 'udiv' else tm.mod(a, b)
        if op in ('sdiv', 'srem'):
            sa, sb = self.signed(st, a, w), self.signed(st, b, w)
            self.oblige(st, not_(eq(sb, I(0))), "integer division by zero", 'safety')
            if sb.op != 'const' or sb.args[0] <= 0:
                raise Unsupported("signed division by non-constant")
            if sa.op == 'const':
                q = abs(sa.args[0]) // sb.args[0] * (1 if sa.args[0] >= 0 else -1)
                return I(q % M) if op == 'sdiv' else I((sa.args[0] - q * sb.args[0]) % M)
            if not self.holds(st, le(I(0), sa)):
                if self.holds(st, lt(sa, I(0))):
                    p = poly(sa)
                    if op == 'sdiv' and p and all(c % sb.args[0] == 0 for c in p.values()):
                        return self.wrapped(st, tm.idiv(sa, sb), w, 'sdiv')
                    raise Unsupported("signed division of a negative value")
                p = poly(sa)
                if op == 'sdiv' and p and all(c % sb.args[0] == 0 for c in p.values()):
                    return self.wrapped(st, tm.idiv(sa, sb), w, 'sdiv')
                raise Fork([le(I(0), sa), lt(sa, I(0))])
            return tm.idiv(sa, sb) if op == 'sdiv' else tm.mod(sa, sb)
        a, b = self.subst_known(st, a), self.subst_known(st, b)
        if op == 'shl':
            if b.op != 'const':
                if a.op == 'const' or True:
                    b = I(self.concretize(st, b, 0, w - 1))
            return tm.mod(mul(a, I(1 << b.args[0])), I(M))
        if op == 'lshr':
            if b.op != 'const':
                b = I(self.concretize(st, b, 0, w - 1))
            return tm.idiv(a, I(1 << b.args[0]))
        if op == 'ashr':
            if b.op != 'const':
                b = I(self.concretize(st, b, 0, w - 1))
            return self.wrapped(st, tm.idiv(self.signed(st, a, w), I(1 << b.args[0])), w, 'ashr')
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, a, b, w)
        raise Unsupported("int op " + op)

    def bitop(self, st, op, a, b, w):
        if op in ('and', 'or'):
            x, y = (a, b) if a.id in KNOWN else (b, a)
            if x.id in KNOWN and y.op == 'const':
                # a word of which only some bits were ever written: keep track of those
                base, mask, val = KNOWN[x.id]
                full, k = (1 << w) - 1, y.args[0]
                if op == 'and':
                    mask, val = mask | (full & ~k), val & k
                else:
                    mask, val = mask | k, val | k
                if mask == full:
                    return I(val)
                if (base.id, mask, val) not in KNOWN:
                    v = tm.fresh('word', 'I')
                    st.assume(and_(le(I(0), v), lt(v, I(full + 1))))
                    KNOWN[v.id] = (base, mask, val)
                    KNOWN[(base.id, mask, val)] = v
                return KNOWN[(base.id, mask, val)]
            if x.id in KNOWN and y.op == 'ite' and y.args[1].op == 'const' and y.args[2].op == 'const':
                return ite(y.args[0], self.bitop(st, op, x, y.args[1], w), self.bitop(st, op, x, y.args[2], w))
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            return I(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            k = b.args[0]
            M = (1 << w) - 1
            if op == 'and':
                if k == 0:
                    return I(0)
                if k == M:
                    return a
                if (k & (k + 1)) == 0:       # low mask
                    return tm.mod(a, I(k + 1))
                if k & (k - 1) == 0:         # single bit
                    return mul(tm.mod(tm.idiv(a, I(k)), I(2)), I(k))
                low = (k & -k)
                if (k // low) & (k // low + 1) == 0:
                    return mul(tm.mod(tm.idiv(a, I(low)), I(k // low + 1)), I(low))
            if op == 'or':
                if k == 0:
                    return a
                if k & (k - 1) == 0:
                    bit = tm.mod(tm.idiv(a, I(k)), I(2))
                    return ite(eq(bit, I(0)), add(a, I(k)), a)
            if op == 'xor':
                if k == 0:
                    return a
                if k == M:
                    return sub(I(M), a)
        if op == 'or':
            # disjoint bits?
            ra = tm.rng(a)
            rb = tm.rng(b)
            for x, y, ry in ((a, b, rb), (b, a, ra)):
                p = poly(x)
                if p and ry[0] is not None and ry[0] >= 0 and ry[1] is not None:
                    g = 0
                    for c in p.values():
                        g = math.gcd(g, int(c))
                    low = g & -g if g else 0
                    if low and ry[1] < low:
                        return add(a, b)
            for x, y in ((a, b), (b, a)):
                if y.op == 'ite' and y.args[1].op == 'const' and y.args[2].op == 'const':
                    return ite(y.args[0], self.bitop(st, op, x, y.args[1], w), self.bitop(st, op, x, y.args[2], w))
        return tm.mk('bv' + op + str(w), (a, b) if a.id < b.id else (b, a), 'I')

    def pack_op(self, st, op, a, b, w):
        if isinstance(a, Pack) and isinstance(b, T) and b.op == 'const':
            k = b.args[0]
            if op == 'lshr':
                out = []
                for (o, s, v) in a.parts:
                    if o * 8 >= k:
                        out.append((o - k // 8, s, v))
                    elif (o + s) * 8 > k:
                        raise Unsupported("shift through a packed cell")
                return out[0][2] if len(out) == 1 and isinstance(out[0][2], T) and out[0][0] == 0 and out[0][2].sort == 'I' else Pack(out)
            if op == 'and':
                out = []
                for (o, s, v) in a.parts:
                    msk = (k >> (8 * o)) & ((1 << (8 * s)) - 1)
                    if msk == (1 << (8 * s)) - 1:
                        out.append((o, s, v))
                    elif msk:
                        raise Unsupported("mask through a packed cell")
                return Pack(out)
            if op == 'shl':
                return Pack([(o + k // 8, s, v) for o, s, v in a.parts if (o + s) * 8 + k <= w])
        if op == 'or':
            pa = a.parts if isinstance(a, Pack) else [(0, w // 8, a)]
            pb = b.parts if isinstance(b, Pack) else [(0, w // 8, b)]
            return Pack(sorted(pa + pb, key=lambda x: x[0]))
        raise Unsupported("operation on packed value: " + op)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            a = a.p if isinstance(a, PInt) else a
            b = b.p if isinstance(b, PInt) else b
            if isinstance(a, T):
                a = Ptr(None, a)
            if isinstance(b, T):
                b = Ptr(None, b)
            if a is UNDEF or b is UNDEF:
                return tm.fresh('undefcmp', 'B')
            if a.obj == b.obj:
                x, y = self.oterm(a.off), self.oterm(b.off)
            else:
                if pred == 'eq':
                    return FALSE
                if pred == 'ne':
                    return TRUE
                if a.obj is None or b.obj is None or pred[0] != 'u':
                    raise Unsupported("ordering of unrelated pointers")
                # which of two objects has the lower address is not known
                ka, kb = str(a.obj), str(b.obj)
                below = tm.var(f"below!{min(ka, kb)}!{max(ka, kb)}", "B")
                low = below if ka < kb else not_(below)
                return low if pred in ('ult', 'ule') else not_(low)
            return {'eq': lambda: eq(x, y), 'ne': lambda: not_(eq(x, y)), 'ult': lambda: lt(x, y), 'ule': lambda: le(x, y),
                    'ugt': lambda: lt(y, x), 'uge': lambda: le(y, x), 'slt': lambda: lt(x, y), 'sgt': lambda: lt(y, x),
                    'sle': lambda: le(x, y), 'sge': lambda: le(y, x)}[pred]()
        if a is UNDEF or b is UNDEF:
            return tm.fresh('undefcmp', 'B')
        if isinstance(a, Pack) or isinstance(b, Pack):
            raise Unsupported("comparison of packed values")
        if a.sort == 'B':
            if pred == 'eq':
                return eq(a, b)
            if pred == 'ne':
                return not_(eq(a, b))
            a, b = ite(a, I(1), I(0)), ite(b, I(1), I(0))
        a, b = self.subst_known(st, a), self.subst_known(st, b)
        if pred[0] == 's':
            a, b = self.signed(st, a, ty.width), self.signed(st, b, ty.width)
            pred = 'u' + pred[1:]
        if pred == 'eq' or pred == 'ne':
            # boolean-valued ints
            for x, y in ((a, b), (b, a)):
                if x.op == 'ite' and y.op == 'const' and x.args[1].op == 'const' and x.args[2].op == 'const':
                    r = ite(x.args[0], tm.Bc(x.args[1].args[0] == y.args[0]), tm.Bc(x.args[2].args[0] == y.args[0]))
                    return r if pred == 'eq' else not_(r)
            r = eq(a, b)
            return r if pred == 'eq' else not_(r)
        if pred == 'ult':
            return lt(a, b)
        if pred == 'ule':
            return le(a, b)
        if pred == 'ugt':
            return lt(b, a)
        return le(b, a)

    def fcmp(self, pred, a, b):
        if isinstance(a, tuple):
            return tuple(self.fcmp(pred, x, y) for x, y in zip(a, b))
        if pred in ('ord', 'true'):
            return TRUE
        if pred in ('uno', 'false'):
            return FALSE
        p = pred[1:]
        if p == 'eq':
            return eq(a, b)
        if p == 'ne':
            return not_(eq(a, b))
        if p == 'lt':
            return lt(a, b)
        if p == 'le':
            return le(a, b)
        if p == 'gt':
            return lt(b, a)
        return le(b, a)

    def fl(self, st, v):
        if v is UNDEF:
            return tm.fresh('undef', 'R')
        if isinstance(v, tuple):
            return tuple(self.fl(st, x) for x in v)
        return v

    def fop(self, st, op, a, b):
        if isinstance(a, tuple):
            return tuple(self.fop(st, op, x, y) for x, y in zip(a, b))
        if op == 'fadd':
            r = add(a, b)
        elif op == 'fsub':
            r = sub(a, b)
        elif op == 'fmul':
            r = mul(a, b)
        elif op == 'fdiv':
            r = self.fdiv(st, a, b)
        else:
            raise Unsupported(op)
        trig = st.ghost.get('trig')
        if trig and op in ('fadd', 'fsub') and r.op not in ('const', 'var'):
            p = poly(r)
            if p is not None and len(p) < 400:
                q = self.reduce_units(p, trig)
                if q is not None:
                    r = tm.from_poly(q, 'R')
        names = st.ghost.get('names')
        return self.named(names, r, st.ghost.get('units')) if names else r

    @staticmethod
    def name_key(p):
        lead = Fraction(p[min(p)])
        return lead, frozenset((m, Fraction(c) / lead) for m, c in p.items())

    @staticmethod
    def reduce_units(p, units):
        """normal form modulo the unit length equations of the contract's inputs, or None when nothing changes"""
        if not units or not any(v in units[0] and e >= 2 for m in p for v, e in m):
            return None
        from . import prover
        try:
            return prover.reduce_by(p, units[1])
        except tm.TooBig:
            return None

    def named(self, names, t, units=None):
        """a value equal (up to a constant factor) to one the contract gave a name is represented by that name"""
        if t.op in ('const', 'var'):
            return t
        p = poly(t)
        if p is None or len(p) < 2 or len(p) > 60:
            return t
        lead, key = self.name_key(p)
        hit = names.get(key)
        fac = None
        if hit is None:
            q = self.reduce_units(p, units)
            if q is not None and len(q) > 1:
                l2, k2 = self.name_key(q)
                hit = names.get(k2)
                if hit is not None:
                    lead = l2
        if hit is None:
            # common monomial factor
            ms = list(p)
            com = dict(ms[0])
            for m in ms[1:]:
                d = dict(m)
                com = {x: min(e, d[x]) if e > 0 and d.get(x, 0) > 0 else (max(e, d[x]) if e < 0 and d.get(x, 0) < 0 else 0)
                       for x, e in com.items() if x in d}
                com = {x: e for x, e in com.items() if e}
                if not com:
                    return t
            q = {}
            for m, c in p.items():
                q[tuple((x, e - com.get(x, 0)) for x, e in m if e != com.get(x, 0))] = c
            lead, key = self.name_key(q)
            hit = names.get(key)
            if hit is None:
                return t
            fac = tm.from_poly({tuple(sorted(com.items())): 1}, 'R')
        v, l0 = hit
        k = lead / l0
        r = v if k == 1 else mul(tm.R(k), v)
        return r if fac is None else mul(fac, r)

    def eq_const(self, st, x):
        """constant value of x modulo the equations on the path, or None"""
        if x.op == 'const':
            return Fraction(x.args[0])
        if self.concrete is not None:
            return None
        from . import prover
        E = prover.eqred_of(st.pc)
        if E is None:
            return None
        p = poly(x)
        if p is None or len(p) > 400:
            return None
        key = (id(E), x.id)
        r = self._eqc.get(key, 0)
        if r == 0:
            try:
                r = E.const(p)
            except tm.TooBig:
                r = None
            self._eqc[key] = r
        return r

    _eqc = {}

    def fdiv(self, st, a, b):
        if b.op == 'const' and b.args[0] != 0:
            return div(a, b)
        k = self.eq_const(st, b)
        if k:
            return div(a, R(k))
        z = eq(b, R(0))
        if z is FALSE or not_(z) in st.pcset:
            return div(a, b)
        mode = st.opts.get('div0')
        if mode == 'havoc':
            if z is TRUE or z in st.pcset:
                self.assumptions.add("x/0 is an unconstrained real")
                return tm.fresh('div0', 'R')
            if self.holds(st, not_(z)):
                return div(a, b)
            if self.holds(st, z):
                return tm.fresh('div0', 'R')
            raise Fork([z, not_(z)])
        self.oblige(st, not_(z), "no division by zero", 'safety')
        return div(a, b)

    # ------------------------------------------------------------------- step
    def step(self, st, fr, ins):
        op = ins.op
        V = lambda k: self.value(st, fr, ins.ops[k])
        if op == 'load':
            p = V(0)
            if not isinstance(p, Ptr):
                self.oblige(st, FALSE, "read through an invalid pointer", 'safety')
                raise Done('badptr')
            if 'guard' in st.ghost and ins.x is None:
                self.guarded(st, p)
            fr.regs[ins.id] = self.load(st, p, ins.ty)
        elif op == 'store':
            v, p = V(0), V(1)
            if not isinstance(p, Ptr):
                self.oblige(st, FALSE, "write through an invalid pointer", 'safety')
                raise Done('badptr')
            ty = self.store_ty(ins)
            if 'guard' in st.ghost and ins.x is None:
                self.guarded(st, p)
            self.store(st, p, v, ty)
        elif op == 'gep':
            ws = self.gep_widths(ins)
            fr.regs[ins.id] = self.gep(st, ins.x, V(0), [V(k) for k in range(1, len(ins.ops))], ws)
        elif op == 'alloca':
            p = self.alloc(st, self.tysize(ins.x), ins.name)
            fr.regs[ins.id] = p
        elif op == 'br':
            if not ins.ops:
                return self.jump(st, fr, ins.x[0])
            c = V(0)
            if c is UNDEF:
                c = tm.fresh('undef', 'B')
            return self.branch(st, fr, c, ins.x[0], ins.x[1])
        elif op == 'switch':
            v = self.subst_known(st, V(0))
            default, cases = ins.x
            if v.op == 'const':
                for k, b in cases:
                    if k == v.args[0]:
                        return self.jump(st, fr, b)
                return self.jump(st, fr, default)
            conds = [eq(v, I(k)) for k, _ in cases]
            dc = and_(*[not_(c) for c in conds])
            for c in conds:
                if c in st.pcset:
                    raise Unsupported("switch on known value")
            if self.holds(st, dc):
                return self.jump(st, fr, default)
            for c, (k, b) in zip(conds, cases):
                if self.holds(st, c):
                    return self.jump(st, fr, b)
            raise Fork(conds + [dc])
        elif op == 'ret':
            v = V(0) if ins.ops else None
            return self.do_ret(st, fr, v)
        elif op in ('call', 'invoke'):
            return self.do_call(st, fr, ins)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            fr.regs[ins.id] = self.fop(st, op, self.fl(st, V(0)), self.fl(st, V(1)))
        elif op == 'fneg':
            a = self.fl(st, V(0))
            fr.regs[ins.id] = tuple(neg(x) for x in a) if isinstance(a, tuple) else neg(a)
        elif op == 'fcmp':
            fr.regs[ins.id] = self.fcmp(ins.x, self.fl(st, V(0)), self.fl(st, V(1)))
        elif op == 'icmp':
            ty = self.op_ty(ins, 0)
            fr.regs[ins.id] = self.icmp(st, ins.x, V(0), V(1), ty)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fr.regs[ins.id] = self.binop(st, op, V(0), V(1), ins.ty, ins.x)
        elif op == 'zext':
            v = V(0)
            if v is UNDEF:
                v = self.havoc_val(st, self.op_ty(ins, 0), 'undef')
            if isinstance(v, T) and v.sort == 'B':
                v = ite(v, I(1), I(0))
            fr.regs[ins.id] = v
        elif op == 'sext':
            v = V(0)
            w = self.op_ty(ins, 0).width
            if isinstance(v, T) and v.sort == 'B':
                v = ite(v, I((1 << ins.ty.width) - 1), I(0))
            else:
                s = self.signed(st, v, w)
                v = self.wrapped(st, s, ins.ty.width, 'sext')
            fr.regs[ins.id] = v
        elif op == 'trunc':
            v = V(0)
            if v is UNDEF:
                v = self.havoc_val(st, ins.ty, 'undef')
            elif isinstance(v, Pack):
                n = ins.ty.width // 8
                parts = [(o, s, x) for o, s, x in v.parts if o + s <= n]
                v = parts[0][2] if len(parts) == 1 and isinstance(parts[0][2], T) and parts[0][2].sort == 'I' else Pack(parts)
            elif ins.ty.width == 1:
                if v.op == 'ite' and v.args[1].op == 'const' and v.args[2].op == 'const':
                    v = ite(v.args[0], tm.Bc(v.args[1].args[0] & 1), tm.Bc(v.args[2].args[0] & 1))
                else:
                    x = tm.mod(v, I(2))
                    v = eq(x, I(1))
            else:
                v = tm.mod(v, I(1 << ins.ty.width))
            fr.regs[ins.id] = v
        elif op in ('fptrunc', 'fpext', 'freeze'):
            fr.regs[ins.id] = V(0)
        elif op == 'bitcast':
            fr.regs[ins.id] = self.bitcast(V(0), ins)
        elif op in ('uitofp', 'sitofp'):
            v = V(0)
            if op == 'sitofp':
                v = self.signed(st, v, self.op_ty(ins, 0).width)
            if v.sort == 'B':
                v = ite(v, I(1), I(0))
            fr.regs[ins.id] = self.to_real(self.subst_known(st, v))
        elif op in ('fptoui', 'fptosi'):
            v = V(0)
            w = ins.ty.width
            if v.op == 'const':
                k = int(v.args[0])
                fr.regs[ins.id] = I(k % (1 << w))
            else:
                if op == 'fptosi':
                    r = tm.fun('trunc', (v,), 'I')
                    st.assume(or_(and_(le(R(0), v), le(self.to_real(r), v), lt(v, add(self.to_real(r), R(1)))),
                                  and_(lt(v, R(0)), le(v, self.to_real(r)), lt(sub(self.to_real(r), R(1)), v))))
                    self.oblige(st, and_(lt(R(-(1 << (w - 1)) - 1), v), lt(v, R(1 << (w - 1)))), "float to int in range", 'safety')
                    fr.regs[ins.id] = self.wrapped(st, r, w, 'fptosi')
                else:
                    r = tm.fun('trunc', (v,), 'I')
                    st.assume(and_(le(self.to_real(r), v), lt(v, add(self.to_real(r), R(1)))))
                    self.oblige(st, and_(lt(R(-1), v), lt(v, R(1 << w))), "float to int in range", 'safety')
                    fr.regs[ins.id] = r
        elif op == 'ptrtoint':
            fr.regs[ins.id] = self.p2i(V(0))
        elif op == 'inttoptr':
            fr.regs[ins.id] = self.i2p(V(0))
        elif op == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, tuple):
                fr.regs[ins.id] = tuple(ite(x, y, z) for x, y, z in zip(c, a, b))
            else:
                c = self.simplify_known(st, c)
                if c in st.pcset:
                    c = TRUE
                elif not_(c) in st.pcset:
                    c = FALSE
                if c is TRUE:
                    fr.regs[ins.id] = a
                elif c is FALSE:
                    fr.regs[ins.id] = b
                elif isinstance(a, T) and isinstance(b, T):
                    fr.regs[ins.id] = ite(c, a, b)
                else:
                    raise Fork([c, not_(c)])
        elif op == 'extractvalue':
            v = V(0)
            for k in ins.x:
                v = UNDEF if v is UNDEF else v[k]
            fr.regs[ins.id] = v
        elif op == 'insertvalue':
            agg, v = V(0), V(1)
            if agg is UNDEF:
                agg = self.undef_of(ins.ty)
            fr.regs[ins.id] = self.insert(agg, v, ins.x)
        elif op == 'extractelement':
            fr.regs[ins.id] = V(0)[self.as_int(st, V(1))]
        elif op == 'insertelement':
            a = list(V(0))
            a[self.as_int(st, V(2))] = V(1)
            fr.regs[ins.id] = tuple(a)
        elif op == 'shufflevector':
            x = V(0) + V(1)
            fr.regs[ins.id] = tuple(UNDEF if k < 0 else x[k] for k in ins.x)
        elif op == 'unreachable':
            self.oblige(st, FALSE, "unreachable code is reached", 'safety')
            raise Done('unreachable')
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':      # sequential execution
            p, v = V(0), V(1)
            if not isinstance(p, Ptr) or ins.x is None:
                raise Unsupported(op)
            old = self.load(st, p, ins.ty)
            if old is UNDEF:
                self.oblige(st, FALSE, "an atomic variable is initialised before it is used", 'safety', assume=False)
                old = self.toint(st, old, ins.ty)
            new = v if ins.x == 'xchg' else self.binop(st, ins.x, old, v, ins.ty, (False, False))
            self.store(st, p, new, ins.ty)
            fr.regs[ins.id] = old
        elif op == 'cmpxchg':
            p, c, n = V(0), V(1), V(2)
            if not isinstance(p, Ptr):
                raise Unsupported(op)
            ty = self.op_ty(ins, 1)
            old = self.load(st, p, ty)
            same = self.icmp(st, 'eq', old, c, ty)
            if same is not TRUE and same is not FALSE:
                if self.holds(st, same):
                    same = TRUE
                elif self.holds(st, not_(same)):
                    same = FALSE
                else:
                    raise Fork([same, not_(same)])
            if same is TRUE:
                self.store(st, p, n, ty)
            fr.regs[ins.id] = (old, same)
        else:
            raise Unsupported("instruction " + op)
        fr.ip += 1
        return None

    def insert(self, agg, v, idx):
        a = list(agg)
        if len(idx) == 1:
            a[idx[0]] = v
        else:
            a[idx[0]] = self.insert(a[idx[0]], v, idx[1:])
        return tuple(a)

    def bitcast(self, v, ins):
        t = ins.ty
        if isinstance(v, tuple) and t.kind == 'float':
            raise Unsupported("bitcast vector to scalar")
        if t.kind == 'int' and isinstance(v, T) and v.sort == 'R':
            return Pack([(0, t.size, v)])
        if t.kind == 'float' and isinstance(v, Pack):
            return v.parts[0][2]
        if t.kind == 'int' and isinstance(v, tuple):
            n = t.size // len(v)
            return Pack([(i * n, n, x) for i, x in enumerate(v)])
        if t.kind == 'vector' and isinstance(v, Pack):
            return tuple(p[2] for p in v.parts)
        return v

    def to_real(self, v):
        if v.op == 'const':
            return R(v.args[0])
        if v.op == 'ite':
            return ite(v.args[0], self.to_real(v.args[1]), self.to_real(v.args[2]))
        if v.op == 'add':
            return add(self.to_real(v.args[0]), self.to_real(v.args[1]))
        if v.op == 'neg':
            return neg(self.to_real(v.args[0]))
        if v.op == 'mul':
            return mul(self.to_real(v.args[0]), self.to_real(v.args[1]))
        return tm.mk('toreal', (v,), 'R')

    _stc = {}

    def store_ty(self, ins):
        k = ins.text
        t = self._stc.get(k)
        if t is None:
            from . import llvmir
            t = self.m.ty(llvmir.TypeOf(llvmir.Operand(k, 0)))
            self._stc[k] = t
        return t

    _otc = {}

    def op_ty(self, ins, n):
        k = (ins.text, n)
        t = self._otc.get(k)
        if t is None:
            from . import llvmir
            t = self.m.ty(llvmir.TypeOf(llvmir.Operand(ins.text, n)))
            self._otc[k] = t
        return t

    _gwc = {}

    def gep_widths(self, ins):
        t = self._gwc.get(ins.text)
        if t is None:
            t = [self.op_ty(ins, n).width or 64 for n in range(1, len(ins.ops))]
            self._gwc[ins.text] = t
        return t

    # ------------------------------------------------------------------ calls
    def do_ret(self, st, fr, v):
        st.frames.pop()
        while st.cuts and st.cuts[-1][0] > len(st.frames):
            st.cuts.pop()
        if fr.post is not None:
            v2 = fr.post(self, st, v)
            if v2 is not None:
                v = v2
        if not st.frames:
            raise Done('ok')
        caller = st.frames[-1]
        if fr.ret is not None:
            caller.regs[fr.ret] = v
        caller.ip += 1
        return None

    def do_call(self, st, fr, ins):
        name = ins.fn
        if name is None:
            cv = self.value(st, fr, ins.x)
            if isinstance(cv, Ptr) and isinstance(cv.obj, tuple) and cv.obj[0] == 'fn':
                name = cv.obj[1]
            else:
                raise Unsupported("indirect call")
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') \
                or name.startswith('llvm.assume'):
            fr.ip += 1
            return None
        if name.startswith('llvm.is.constant'):
            fr.regs[ins.id] = FALSE
            fr.ip += 1
            return None
        args = [self.value(st, fr, o) for o in ins.ops]
        name = st.repl.get(name, name)
        h = self.find_intrinsic(name)
        if h is not None:
            r = h(self, st, fr, ins, args, name)
            if r is DEFER:
                pass
            else:
                if isinstance(r, list):       # forks handled by the intrinsic itself
                    return r
                fr.regs[ins.id] = r
                fr.ip += 1
                return None
        f = self.m.func(name)
        if f is None or f.decl:
            raise Unsupported("call of external function " + name)
        self.enter(st, f, args, ins.id)
        return None

    _icache = {}

    def find_intrinsic(self, name):
        if name in self._icache:
            return self._icache[name]
        h = self.intr.get(name)
        if h is None:
            for rx, fn in PATTERNS:
                if rx.match(name):
                    h = fn
                    break
        self._icache[name] = h
        return h


class _Defer:
    pass


DEFER = _Defer()
PATTERNS = []


def Module_text(ins):
    from . import llvmir
    try:
        return llvmir.text_of(ins).strip()[:200]
    except Exception:
        return ins.op


from .intrinsics import build_intrinsics  # noqa: E402
