"""Symbolic executor / verification-condition generator over LLVM IR.

 * paths between cut points are executed symbolically;
 * a loop is cut at its header: the loop-carried state (phis, mutable memory, ghost state) is
   havocked and the largest inductive subset of a candidate set is assumed (Houdini);
 * every load/store, signed operation, division, assertion, callee precondition and the
   function's postcondition is an obligation discharged by the SMT solver;
 * calls to functions under contract use the contract, other defined functions are entered.
"""
import re
import time
import itertools
import os
import z3
import llir
from llir import Unsupported, size_of, field_offs, INT, PTR
from dom import BVDom, IntDom, HybDom, is_c, to_signed, mask, simp

UNDEF = ("UNDEF",)


DEBUG = bool(os.environ.get("VC_DEBUG"))          # prints the loop-invariant candidates that fail

class Obj:
    _n = itertools.count()

    def __init__(self, name, kind, unit=1, size=None, ro=False):
        self.id = next(Obj._n)
        self.name, self.kind, self.unit, self.size, self.ro = name, kind, unit, size, ro
        self.g = None
        self.base = None
        self.tag = None
        self.stream = None
        self.onread = None  # buf: called after a read, with the index; virt: gives the value that is read
        self.subs = ()      # array members modelled as typed buffers: (first byte, end byte, buffer object)

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


NULL = Obj("null", "null", 1, 0)


class Ptr:
    __slots__ = ("o", "i", "b")

    def __init__(self, o, i=0, b=0):
        self.o, self.i, self.b = o, i, b

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.o, self.i, self.b)


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class PDiff:
    """difference of two pointers of one object: i units of size u"""
    __slots__ = ("i", "u")

    def __init__(self, i, u):
        self.i, self.u = i, u


class Frame:
    __slots__ = ("f", "env", "blk", "ip", "prev", "retdst", "depth", "loops", "on_ret")

    def __init__(self, f, env, depth):
        self.f, self.env, self.depth = f, env, depth
        self.blk = f.entry
        self.ip = 0
        self.prev = None
        self.retdst = None
        self.loops = []
        self.on_ret = None

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.env, n.blk, n.ip, n.prev, n.retdst, n.depth = (
            self.f, dict(self.env), self.blk, self.ip, self.prev, self.retdst, self.depth)
        n.loops = list(self.loops)
        n.on_ret = self.on_ret
        return n


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.ghost = {}
        self.pending = []
        self.trace = []
        self.unroll = {}
        self.objs = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.pending = list(self.pending)
        s.trace = self.trace[-60:]
        s.unroll = dict(self.unroll)
        s.objs = dict(self.objs)
        return s


def int_arrays(t, off, least):
    """integer array members of a struct type with at least `least` elements: (offset, unit, count)"""
    if t.k == "struct":
        for o, e in zip(field_offs(t), t.elems):
            yield from int_arrays(e, off + o, least)
    elif t.k == "arr" and t.elems[0].k == "int" and size_of(t) // size_of(t.elems[0]) >= least:
        u = size_of(t.elems[0])
        yield (off, u, size_of(t) // u)


class BufMem:
    """contents of a typed buffer: base symbol + writes"""
    __slots__ = ("base", "writes")

    def __init__(self, base, writes=()):
        self.base, self.writes = base, writes


class LoopCut:
    def __init__(self, fname, hdr, depth):
        self.fname, self.hdr, self.depth = fname, hdr, depth
        self.vars = None
        self.cands = None
        self.mode = None
        self.dropped = False
        self.backedges = 0
        self.measures = None


class PathEnd(Exception):
    pass


class Stop(Exception):
    pass


class Obligation:
    __slots__ = ("kind", "where", "msg", "status", "detail", "count", "time")

    def __init__(self, kind, where, msg):
        self.kind, self.where, self.msg = kind, where, msg
        self.status = "discharged"
        self.detail = None
        self.count = 0
        self.time = 0.0


class Exec:
    def __init__(self, mod, dom=None, timeout_ms=20000, log=None):
        self.m = mod
        self.dom = dom or BVDom()
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        if self.dom.name == "lin":
            self.solver.set("arith.solver", 2)
        self.timeout_ms = timeout_ms
        self.undecided = 0      # loop invariant candidates given up because the solver gave no answer
        self.kept_cands = {}
        self.contracts = {}
        self.spec = None
        self.obls = {}
        self.mode = "final"
        self.deadline = None
        self.stats = dict(queries=0, solver_s=0.0, paths=0, loops=0, houdini_rounds=0, cands_tried=0,
                          cands_kept=0, inv_checks=0, contract_calls={}, inlined=set())
        self.gobj = {}
        self.nfresh = itertools.count()
        self.unroll_mode = None        # None: cut loops; int: unroll up to N
        self.unroll_loops = set()      # (func substr)
        self.unroll_hit = False
        self.max_paths = 200000
        self.failures = []
        self.check_overflow = True
        self.cut_summary = []
        self.loop_invs = {}
        self.reached = {}
        self.defer = None
        self.max_fail = 6
        self.force_unroll = None
        self.want_termination = True

    # ------------------------------------------------------------ solver
    def inr(self, i, size):
        """0 <= i < size"""
        f = getattr(self.dom, "inrange", None)
        if f and not (is_c(i) and is_c(size)):
            return f(i, size)
        return self.dom.cmp("ult", 64, i, size)

    def bnd(self, st, o, i):
        if o.stream is None:
            return self.inr(i, o.size)
        if hasattr(o.stream, "bnd"):
            return o.stream.bnd(self, st, o, i)
        lo, hi = st.ghost["wlo"], st.ghost["whi"]
        d = self.dom
        return simp(z3.And(d.lift(d.cmp("sle", 64, lo, i), 1), d.lift(d.cmp("slt", 64, i, hi), 1)))

    def bnd_range(self, st, o, i, n):
        if o.stream is None:
            return self.range_ok(o, i, n)
        if hasattr(o.stream, "bnd_range"):
            return o.stream.bnd_range(self, st, o, i, n)
        d = self.dom
        lo, hi = st.ghost["wlo"], st.ghost["whi"]
        I, N, L, H = (d.lift(x, 64) for x in (i, n, lo, hi))
        return simp(z3.And(L <= I, N >= 0, I + N <= H))

    def padd(self, a, b):
        """pointer offset arithmetic (pointer arithmetic does not wrap)"""
        if self.dom.name in ("hyb", "lin"):
            return self.dom.binop("add", 64, a, b, True)
        return self.dom.binop("add", 64, a, b)

    def fresh(self, nm, w, like=None):
        n = "%s!%d" % (nm, next(self.nfresh))
        t = self.dom.fresh_like(n, w, like) if like is not None and self.dom.name == "lin" else self.dom.fresh(n, w)
        r = self.dom.range_assume(t, w)
        if r is not None:
            self.solver.add(r)
        return t

    def chk(self, *assump):
        if self.deadline and time.time() > self.deadline:
            raise Stop("deadline")
        t = time.time()
        r = self.solver.check(*assump)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        return self.chk(c) != z3.unsat

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.solver.add(c)

    # ------------------------------------------------------------ obligations
    def where(self, st, ins=None):
        fr = st.frames[-1] if st.frames else None
        if fr is None:
            return "?"
        if ins is None:
            b = fr.f.blocks[fr.blk]
            ins = b.ins[min(fr.ip, len(b.ins) - 1)]
        loc = self.m.src_line(ins.dbg)
        return "%s@%s" % (fr.f.name, loc)

    def oblige(self, st, cond, kind, msg="", where=None):
        """queue an obligation; it is assumed once checked"""
        if isinstance(cond, bool) and cond:
            self._note(kind, where or self.where(st), msg)
            return
        st.pending.append((cond, kind, where or self.where(st), msg))
        if isinstance(cond, bool):
            self.flush(st)
            raise PathEnd()

    def _note(self, kind, where, msg, t=0.0):
        if self.mode != "final":
            return
        key = (kind, where)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obligation(kind, where, msg)
        o.count += 1
        o.time += t
        return o

    def flush(self, st):
        if not st.pending:
            return
        pend, st.pending = st.pending, []
        if self.mode != "final":
            for c, *_ in pend:
                if isinstance(c, bool):
                    if not c:
                        raise PathEnd()
                    continue
                self.solver.add(c)
            return
        conds = [z3.BoolVal(c) if isinstance(c, bool) else c for c, *_ in pend]
        t0 = time.time()
        r = self.chk(z3.Not(z3.And(conds)) if len(conds) > 1 else z3.Not(conds[0]))
        dt = (time.time() - t0) / len(conds)
        if r == z3.unsat:
            for (c, k, w, m) in pend:
                self._note(k, w, m, dt)
            for c in conds:
                self.solver.add(c)
            return
        for (c, k, w, m), cc in zip(pend, conds):
            t0 = time.time()
            r = self.chk(z3.Not(cc))
            if r == z3.unknown:
                r = self.second_opinion(z3.Not(cc))
            o = self._note(k, w, m, time.time() - t0)
            if r != z3.unsat:
                st_ = "refuted" if r == z3.sat else "unknown"
                if o.status != "refuted":
                    o.status = st_
                model = None
                if r == z3.sat:
                    try:
                        model = self.solver.model()
                    except z3.Z3Exception:
                        model = None
                self.record_failure(st, k, w, m, st_, model, cc)
            self.solver.add(cc)

    def second_opinion(self, goal):
        """solver said unknown: a fresh non-incremental run"""
        s = z3.SolverFor("QF_UFBV") if self.dom.name == "bv" else z3.Solver()
        s.set("timeout", self.timeout_ms * 3)
        s.add(self.solver.assertions())
        s.add(goal)
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self._so_model = s.model() if r == z3.sat else None
        return r

    def record_failure(self, st, kind, where, msg, status, model, cond):
        d = dict(kind=kind, where=where, msg=msg, status=status, trace=list(st.trace[-40:]),
                 loops=[(k[0].fname, k[0].hdr) for f in st.frames for k in f.loops if True])
        if model is not None and self.spec is not None:
            try:
                d["model"] = self.spec.model_inputs(self, model)
            except Exception as e:            # noqa
                d["model"] = None
                d["model_err"] = repr(e)
        d["cond"] = str(cond)[:1500]
        key = (kind, where)
        o = self.obls.get(key)
        if o is not None and o.detail is None:
            o.detail = d
        self.failures.append(d)
        if len(self.failures) >= self.max_fail:
            raise Stop("too many failures")

    # ------------------------------------------------------------ memory
    def new_cell(self, st, name, size, ro=False):
        o = Obj(name, "cell", 1, size, ro)
        st.mem[o.id] = {}
        st.objs[o.id] = o
        return o

    def new_buf(self, st, name, unit, size, ro=False, base=None):
        o = Obj(name, "buf", unit, size, ro)
        st.mem[o.id] = BufMem(base or self.base_fn(name, unit))
        st.objs[o.id] = o
        return o

    def base_fn(self, name, unit):
        nm = "%s!%d" % (name, next(self.nfresh))
        if self.dom.name == "bv":
            return z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(8 * unit))
        if self.dom.name == "hyb":
            return z3.Function(nm, z3.IntSort(), z3.BitVecSort(8 * unit) if unit < 8 else z3.IntSort())
        return z3.Function(nm, z3.IntSort(), z3.IntSort())

    def base_read(self, fn, idx, unit, st=None):
        if callable(getattr(fn, "read", None)):
            return fn.read(idx)
        if callable(getattr(fn, "read_in", None)):
            return fn.read_in(st, idx)
        v = fn(self.dom.lift(idx, 64))
        if self.dom.name == "int" or self.dom.name == "lin" and unit < 8:
            self.dom.setb(v, 0, mask(8 * unit))
            self.solver.add(v >= 0, v <= mask(8 * unit))
        return v

    def buf_read(self, st, o, idx):
        if o.stream is not None and hasattr(o.stream, "write"):
            raise Unsupported("read from the destination buffer")
        bm = st.mem[o.id]
        r = self.base_read(bm.base, idx, o.unit, st)
        w = 8 * o.unit
        # oldest -> newest so that newest ends outermost
        for kind, a, v, n in bm.writes:
            if kind == "w":
                c = self.dom.cmp("eq", 64, a, idx)
                r = self.dom.ite(c, w, v, r)
            else:
                rel = self.dom.nowrap("sub", idx, a) if self.dom.name in ("hyb", "lin") else self.dom.binop("sub", 64, idx, a)
                c = self.inr(rel, n)
                if isinstance(c, bool) and not c:
                    continue
                r = self.dom.ite(c, w, v(rel), r)
        return r

    def buf_write(self, st, o, idx, val):
        if o.stream is not None and hasattr(o.stream, "write"):
            o.stream.write(self, st, o, idx, val)
            return
        bm = st.mem[o.id]
        st.mem[o.id] = BufMem(bm.base, bm.writes + (("w", idx, val, None),))

    def buf_write_range(self, st, o, idx, n, fn):
        if o.stream is not None and hasattr(o.stream, "write_range"):
            o.stream.write_range(self, st, o, idx, n, fn)
            return
        bm = st.mem[o.id]
        st.mem[o.id] = BufMem(bm.base, bm.writes + (("r", idx, fn, n),))

    def global_obj(self, name):
        if name in self.gobj:
            return self.gobj[name]
        if name in self.m.funcs or name in self.m.decls:
            o = Obj(name, "func", 1, 1, True)
            self.gobj[name] = o
            return o
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported("unknown global " + name)
        if isinstance(g.init, tuple) and g.init and g.init[0] == "alias":
            p = self.const(g.ty, g.init[1])
            self.gobj[name] = p.o
            return p.o
        o = Obj(name, "const" if g.const else "glob", 1, size_of(g.ty), g.const)
        o.g = g
        o.tag = None
        self.gobj[name] = o
        return o

    def const_cells(self, o):
        if o.tag is None:
            cells = {}
            if o.g.init is None:
                raise Unsupported("external global " + o.name)
            self._flat(o.g.ty, o.g.init, 0, cells)
            o.tag = cells
        return o.tag

    def _flat(self, ty, op, off, cells):
        k = op[0]
        if ty.k == "arr":
            es = size_of(ty.elems[0])
            if k == "str":
                for i, b in enumerate(op[1]):
                    cells[off + i] = (1, b)
            elif k == "zero":
                for i in range(ty.n):
                    self._flat(ty.elems[0], op, off + i * es, cells)
            elif k == "agg":
                for i, (t, v) in enumerate(op[1]):
                    self._flat(t, v, off + i * es, cells)
            elif k == "undef":
                pass
            else:
                raise Unsupported("const arr " + k)
        elif ty.k == "struct":
            offs = field_offs(ty)
            for i, t in enumerate(ty.elems):
                if k in ("zero", "undef"):
                    self._flat(t, op, off + offs[i], cells)
                else:
                    self._flat(t, op[1][i][1], off + offs[i], cells)
        elif ty.k == "int":
            cells[off] = (size_of(ty), 0 if k in ("zero", "undef") else self.const(ty, op))
        elif ty.k == "ptr":
            cells[off] = (8, self.const(ty, op))
        elif ty.k == "fp":
            cells[off] = (size_of(ty), ("fp", op))
        else:
            raise Unsupported("const " + ty.k)

    # load/store on cells
    def cell_load(self, st, cells, off, size, ty):
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(c[1], ty)
        # assemble bytes
        bs = []
        for k in range(size):
            b = self.cell_byte(cells, off + k)
            if b is None:
                return UNDEF
            bs.append(b)
        if ty.k != "int":
            raise Unsupported("byte-assembled non-int load")
        v = self.dom.concat_bytes(bs)
        return self.coerce(v, ty)

    def cell_byte(self, cells, off):
        for s in (8, 4, 2, 1, 16):
            for d in range(s):
                c = cells.get(off - d)
                if c is not None and c[0] == s and d < s:
                    v = c[1]
                    if v is UNDEF:
                        return None
                    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
                        v = self.dom.cast("zext", v, 1, 8)
                    if isinstance(v, Ptr) and v.o is NULL:
                        return 0
                    if isinstance(v, (Ptr, PInt, PDiff, tuple, list)):
                        raise Unsupported("byte of pointer")
                    return self.dom.byte(v, 8 * s, d)
        for o2, c in cells.items():
            if o2 <= off < o2 + c[0] and c[0] not in (1, 2, 4, 8, 16):
                raise Unsupported("odd cell")
        return None

    def coerce(self, v, ty):
        if v is UNDEF:
            return v
        if ty.k == "int":
            if isinstance(v, Ptr):
                return PInt(v)
            if ty.w == 1 and not isinstance(v, bool) and not (z3.is_expr(v) and z3.is_bool(v)):
                return self.dom.cast("trunc", v, 8, 1)
            if ty.w == 8 and (isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))):
                return self.dom.cast("zext", v, 1, 8)
            if isinstance(v, tuple) and v and v[0] == "fp":
                raise Unsupported("fp bits")
        elif ty.k == "ptr":
            if isinstance(v, PInt):
                return v.p
            if is_c(v):
                if int(v) == 0:
                    return Ptr(NULL)
                raise Unsupported("int as ptr")
            if z3.is_expr(v):
                raise Unsupported("symbolic int as ptr")
        return v

    def cell_store(self, cells, off, size, v):
        # split / kill overlapping cells
        c = cells.get(off)
        if c is None or c[0] != size:
            for o2 in [x for x, cc in cells.items() if x < off + size and x + cc[0] > off]:
                s2, v2 = cells[o2]
                if v2 is not UNDEF and (o2 < off or o2 + s2 > off + size):
                    bs = {k: self.cell_byte(cells, k) for k in range(o2, o2 + s2) if not (off <= k < off + size)}
                    del cells[o2]
                    for k, b in bs.items():
                        if b is not None:
                            cells[k] = (1, b)
                else:
                    del cells[o2]
        cells[off] = (size, v)

    def ptr_byteoff(self, p):
        if p.o.unit == 1:
            return self.dom.binop("add", 64, p.i, p.b & mask(64)) if p.b else p.i
        r = self.dom.binop("mul", 64, p.i, p.o.unit)
        return self.dom.binop("add", 64, r, p.b & mask(64)) if p.b else r

    def in_bounds(self, o, off, size):
        """byte offset form for non-buf objects"""
        lim = o.size - size
        if lim < 0:
            return False
        return self.dom.cmp("ule", 64, off, lim)

    def load(self, st, p, ty, ins=None):
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if ty.k == "struct":
            return [self.load(st, Ptr(p.o, p.i, p.b + o) if p.o.unit != 1 else
                              Ptr(p.o, self.dom.binop("add", 64, p.i, o), p.b), t, ins)
                    for o, t in zip(field_offs(ty), ty.elems)]
        if ty.k == "vec":
            raise Unsupported("vector load")
        size = size_of(ty)
        o = p.o
        if o.kind in ("null", "func", "dead", "opaque"):
            self.oblige(st, False, "valid-pointer", "load through %s pointer" % o.kind)
        if o.kind == "buf":
            return self.buf_load(st, p, size, ty)
        if o.kind == "virt":
            return o.onread(self, st, p, size, ty)
        off = self.ptr_byteoff(p)
        ok = self.in_bounds(o, off, size)
        self.oblige(st, ok, "load-in-bounds", o.name)
        cells = self.const_cells(o) if o.kind == "const" else st.mem.get(o.id)
        if o.kind == "glob":
            if o.id not in st.mem:
                st.mem[o.id] = dict(self.const_cells(o))
                st.objs[o.id] = o
            cells = st.mem[o.id]
        if is_c(off):
            v = self.cell_load(st, cells, int(off), size, ty)
            if v is UNDEF and ty.k == "int":
                hook = getattr(self.spec, "lazy_cell", None)
                if hook:
                    v2 = hook(self, st, o, int(off), size, ty)
                    if v2 is not None:
                        st.mem[o.id] = dict(st.mem[o.id])
                        st.mem[o.id][int(off)] = (size, v2)
                        return self.coerce(v2, ty)
            return v
        return self.sym_load(st, o, cells, off, size, ty)

    def sym_load(self, st, o, cells, off, size, ty):
        if o.kind == "const" and ty.k == "int" and self.dom.name == "bv":
            return self.table_read(o, cells, off, size, ty)
        cand = sorted(k for k, c in cells.items() if c[0] == size)
        if ty.k == "ptr":
            # fork over the possible values
            feas = [k for k in cand if self.feasible(self.dom.cmp("eq", 64, off, k))]
            raise Fork([(self.dom.cmp("eq", 64, off, k), (lambda k=k: cells[k][1])) for k in feas])
        if ty.k != "int":
            raise Unsupported("symbolic load of " + ty.k)
        if self.dom.name == "lin" and o.kind == "const" and len(cells) > 32:
            for form in getattr(self.spec, "table_forms", ()):
                # closed form of a constant table, checked entry by entry
                if set(cells) == set(range(o.size)) and all(is_c(cells[k][1]) and cells[k][1] == form(k) for k in cells):
                    return self.dom.setb(form(self.dom.lift(off, 64)), 0, 255)
        # only offsets consistent with alignment pattern are considered; others must be infeasible
        conds = [self.dom.cmp("eq", 64, off, k) for k in cand]
        live = [(c, k) for c, k in zip(conds, cand) if not (isinstance(c, bool) and not c)]
        if len(live) > 300 and self.dom.name == "int":
            raise Unsupported("big table in int mode")
        cover = z3.Or([self.dom.lift(c, 1) for c, k in live]) if live else z3.BoolVal(False)
        # uninitialised parts: undefined value -> fresh
        r = None
        if self.chk(z3.Not(cover)) != z3.unsat:
            if self.mode == "final":
                # bytes not stored as whole cells
                allb = set()
                for k2, c in cells.items():
                    allb.update(range(k2, k2 + c[0]))
                if len(allb) == o.size and any(c[0] != size for c in cells.values()):
                    raise Unsupported("symbolic load over mixed cells of " + o.name)
            r = self.fresh("undef_" + o.name, ty.w)
        for c, k in live:
            v = cells[k][1]
            if v is UNDEF:
                v = self.fresh("undef_" + o.name, ty.w)
            v = self.coerce(v, ty)
            r = v if r is None else self.dom.ite(c, ty.w, v, r)
        return r

    def table_read(self, o, cells, off, size, ty):
        """symbolic index into a constant table (bit-vector mode): balanced ite tree"""
        key = ("tab", o.name, size, ty.w, off.get_id())
        offs = sorted(k for k, c in cells.items() if c[0] == size)
        if not offs:
            raise Unsupported("table size mismatch")
        vals = [cells[k][1] for k in offs]
        # stride form
        def build(lo, hi):
            if all(v is vals[lo] or (is_c(v) and is_c(vals[lo]) and v == vals[lo]) for v in vals[lo:hi]):
                return self.dom.lift(self.coerce(vals[lo], ty), ty.w)
            m = (lo + hi) // 2
            return z3.If(z3.ULT(off, offs[m]), build(lo, m), build(m, hi))
        # reading between cells would be mis-modelled: require exact cell hit
        bad = None
        st = offs[1] - offs[0] if len(offs) > 1 else size
        if all(offs[i] == offs[0] + i * st for i in range(len(offs))):
            hit = z3.URem(off - offs[0], z3.BitVecVal(st, 64)) == 0 if st & (st - 1) else ((off - offs[0]) & (st - 1)) == 0
        else:
            hit = z3.Or([off == k for k in offs])
        if self.chk(z3.Not(hit)) != z3.unsat:
            raise Unsupported("misaligned table read " + o.name)
        return self.dom.norm(build(0, len(offs)))

    def buf_load(self, st, p, size, ty):
        o = p.o
        if ty.k != "int":
            raise Unsupported("non-int load from buffer")
        u = o.unit
        if size == u and p.b == 0:
            self.oblige(st, self.bnd(st, o, p.i), "load-in-bounds", o.name)
            if o.onread:
                o.onread(self, st, p.i)
            return self.coerce(self.buf_read(st, o, p.i), ty)
        if u == 1:
            n = size
            i0 = self.ptr_byteoff(p)
            bs = []
            for k in range(n):
                ik = self.dom.binop("add", 64, i0, k)
                self.oblige(st, self.bnd(st, o, ik), "load-in-bounds", o.name)
                bs.append(self.buf_read(st, o, ik))
            return self.dom.concat_bytes(bs)
        if p.b == 0 and size % u == 0:
            vs = []
            for k in range(size // u):
                ik = self.dom.binop("add", 64, p.i, k)
                self.oblige(st, self.bnd(st, o, ik), "load-in-bounds", o.name)
                v = self.buf_read(st, o, ik)
                vs += [self.dom.byte(v, 8 * u, j) for j in range(u)]
            return self.dom.concat_bytes(vs)
        raise Unsupported("sub-unit buffer access")

    def store(self, st, p, ty, v, ins=None):
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if ty.k == "struct":
            if v is UNDEF:
                return
            for o, t, x in zip(field_offs(ty), ty.elems, v):
                self.store(st, Ptr(p.o, self.dom.binop("add", 64, p.i, o) if p.o.unit == 1 else p.i,
                                   p.b if p.o.unit == 1 else p.b + o), t, x, ins)
            return
        if ty.k == "vec":
            raise Unsupported("vector store")
        size = size_of(ty)
        o = p.o
        if o.kind in ("null", "func", "dead", "opaque") or o.ro:
            self.oblige(st, False, "valid-pointer", "store through %s pointer" % o.kind)
        if o.kind == "buf":
            self.buf_store(st, p, size, ty, v)
            return
        off = self.ptr_byteoff(p)
        self.oblige(st, self.in_bounds(o, off, size), "store-in-bounds", o.name)
        if o.kind == "glob" and o.id not in st.mem:
            st.mem[o.id] = dict(self.const_cells(o))
            st.objs[o.id] = o
        cells = dict(st.mem[o.id])
        if is_c(off):
            self.cell_store(cells, int(off), size, v)
        else:
            if ty.k != "int" and not isinstance(v, Ptr):
                raise Unsupported("symbolic store of " + ty.k)
            # lazily create cells of this size over the object
            w = ty.w if ty.k == "int" else 64
            if o.size > 1024:
                raise Unsupported("symbolic store to large object")
            offs = [k for k, c in cells.items() if c[0] == size]
            if any(c[0] != size for c in cells.values()):
                raise Unsupported("symbolic store over mixed cells in " + o.name)
            al = offs[0] % size if offs else 0
            for k in range(al, o.size - size + 1, size):
                c = self.dom.cmp("eq", 64, off, k)
                if isinstance(c, bool) and not c:
                    continue
                old = cells.get(k, (size, UNDEF))[1]
                if isinstance(c, bool):
                    cells[k] = (size, v)
                    continue
                if not self.feasible(c):
                    continue
                if ty.k == "ptr":
                    raise Unsupported("symbolic pointer store")
                if old is UNDEF:
                    old = self.fresh("undef_" + o.name, w)
                cells[k] = (size, self.dom.ite(c, w, v, old))
            if self.chk(z3.Not(self.dom.lift(self.dom.cmp("eq", 64, self.dom.binop("urem", 64,
                        self.dom.binop("sub", 64, off, al), size), 0), 1))) != z3.unsat:
                raise Unsupported("misaligned symbolic store")
        st.mem[o.id] = cells

    def buf_store(self, st, p, size, ty, v):
        o = p.o
        if ty.k != "int":
            raise Unsupported("non-int store to buffer")
        if v is UNDEF:
            v = self.fresh("undef", ty.w)
        if ty.w == 1:
            v = self.dom.cast("zext", v, 1, 8)
        u = o.unit
        if size == u and p.b == 0:
            self.oblige(st, self.bnd(st, o, p.i), "store-in-bounds", o.name)
            self.buf_write(st, o, p.i, v)
            hook = getattr(self.spec, "on_buf_store", None)
            if hook:
                hook(self, st, o, p.i, v)
            return
        if p.b == 0 and size % u == 0:
            for k in range(size // u):
                ik = self.dom.binop("add", 64, p.i, k)
                self.oblige(st, self.bnd(st, o, ik), "store-in-bounds", o.name)
                bs = [self.dom.byte(v, 8 * size, k * u + j) for j in range(u)]
                self.buf_write(st, o, ik, self.dom.concat_bytes(bs))
            return
        raise Unsupported("sub-unit buffer store")

    # ------------------------------------------------------------ values
    def const(self, ty, op, st=None):
        k = op[0]
        if k == "int":
            return bool(op[1]) if ty.w == 1 else op[1]
        if k == "null":
            return Ptr(NULL)
        if k == "undef":
            if ty.k == "struct":
                return [self.const(t, op) for t in ty.elems]
            return UNDEF
        if k == "global":
            g = self.m.globals.get(op[1])
            if g is not None and isinstance(g.init, tuple) and g.init[0] == "alias":
                return self.const(PTR, g.init[1])
            hook = getattr(self.spec, "global_ptr", None)
            if hook is not None:
                r = hook(self, op[1])
                if r is not None:
                    return r
            return Ptr(self.global_obj(op[1]))
        if k == "zero":
            if ty.k == "int":
                return False if ty.w == 1 else 0
            if ty.k == "ptr":
                return Ptr(NULL)
            if ty.k == "struct":
                return [self.const(t, op) for t in ty.elems]
            if ty.k == "fp":
                return ("fp", op)
        if k == "agg":
            return [self.const(t, v) for t, v in op[1]]
        if k == "cgep":
            base = self.const(PTR, op[2][0][1])
            return self.gep(op[1], base, [(t, self.const(t, v)) for t, v in op[2][1:]])
        if k == "ccast":
            v = self.const(op[2], op[3])
            return self.docast(op[1], op[2], v, op[4])
        if k == "cbin":
            return self.arith(op[1], op[2].w, self.const(op[2], op[3]), self.const(op[2], op[4]))
        if k == "fp":
            return ("fp", op)
        raise Unsupported("const " + k)

    def val(self, st, ty, op):
        if op[0] == "reg":
            env = st.frames[-1].env
            if op[1] not in env:
                raise Unsupported("unset reg %" + op[1])
            return env[op[1]]
        return self.const(ty, op, st)

    def ival(self, st, ty, op):
        """integer value; UNDEF -> fresh"""
        v = self.val(st, ty, op)
        if v is UNDEF:
            return self.fresh("undef", ty.w)
        return v

    def mat(self, v, w=64):
        """materialise PInt/PDiff as plain integers"""
        if isinstance(v, PDiff):
            return self.dom.binop("mul", 64, v.i, v.u)
        if isinstance(v, PInt):
            o = v.p.o
            if o is NULL:
                return self.ptr_byteoff(v.p)
            if o.base is None:
                o.base = self.dom.fresh("addr_%s_%d" % (o.name, o.id), 64)
            return self.dom.binop("add", 64, o.base, self.ptr_byteoff(v.p))
        return v

    def gep(self, bt, base, idxs):
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        # constant byte part and symbolic parts
        cb = 0
        syms = []
        t = bt
        for n, (ity, v) in enumerate(idxs):
            if n == 0:
                es = size_of(t)
            elif t.k == "struct":
                cb += field_offs(t)[int(v)]
                t = t.elems[int(v)]
                continue
            else:
                t = t.elems[0]
                es = size_of(t)
            if v is UNDEF:
                raise Unsupported("undef index")
            if isinstance(v, PDiff):
                if es == 1:
                    syms.append((v.u, v.i))
                    continue
                v = self.mat(v)
            if isinstance(v, PInt):
                v = self.mat(v)
            if is_c(v):
                cb += es * to_signed(int(v), ity.w)
            else:
                if ity.w < 64:
                    v = self.dom.cast("sext", v, ity.w, 64)
                syms.append((es, v))
        o, i, b = base.o, base.i, base.b
        if o.subs and is_c(i):
            at = b + cb + int(i)
            for a0, e0, sub in o.subs:
                if a0 <= at <= e0:
                    o, i, b, cb = sub, 0, at - a0, 0
                    break
        u = o.unit
        tot = b + cb
        q, r = divmod(tot, u) if u > 1 else (tot, 0)
        d = self.dom
        i2 = i
        if q:
            i2 = self.padd(i2, q & mask(64))
        for es, v in syms:
            if es % u == 0:
                i2 = self.padd(i2, d.binop("mul", 64, v, es // u) if es != u else v)
            elif u % es == 0:
                k = u // es
                if self.chk(z3.Not(d.lift(d.cmp("eq", 64, d.binop("urem", 64, v, k), 0), 1))) != z3.unsat:
                    raise Unsupported("misaligned gep")
                i2 = self.padd(i2, d.binop("sdiv", 64, v, k))
            else:
                raise Unsupported("gep stride")
        return Ptr(o, i2, r)

    def arith(self, op, w, a, b, nsw=False):
        if isinstance(a, (PInt, PDiff)) or isinstance(b, (PInt, PDiff)):
            r = self.parith(op, w, a, b)
            if r is not None:
                return r
            a, b = self.mat(a), self.mat(b)
        if nsw and (w == 64 and self.dom.name == "hyb" or self.dom.name == "lin"):
            return self.dom.binop(op, w, a, b, True)
        return self.dom.binop(op, w, a, b)

    def parith(self, op, w, a, b):
        d = self.dom
        if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
            pa, pb = a.p, b.p
            if pa.o is pb.o:
                if pa.b == pb.b:
                    return PDiff(d.nowrap("sub", pa.i, pb.i) if d.name in ("hyb", "lin") else d.binop("sub", 64, pa.i, pb.i), pa.o.unit)
                return d.binop("sub", 64, self.ptr_byteoff(pa), self.ptr_byteoff(pb))
            raise Unsupported("difference of pointers to different objects %s %s" % (pa.o, pb.o))
        if isinstance(a, PInt) and op in ("add", "sub") and not isinstance(b, PInt):
            q = self.gep(INT(8), a.p, [(INT(64), b if op == "add" else self.arith("sub", 64, 0, b))])
            return PInt(q)
        if isinstance(b, PInt) and op == "add":
            return self.parith(op, w, b, a)
        if isinstance(a, PDiff):
            u = a.u
            if op in ("sdiv", "udiv") and is_c(b) and int(b) == u:
                return a.i
            if op == "ashr" and is_c(b) and (1 << int(b)) == u:
                return a.i
            if op in ("add", "sub") and isinstance(b, PDiff) and b.u == u:
                return PDiff(d.binop(op, 64, a.i, b.i), u)
            if op == "sub" and is_c(b) and int(b) == 0:
                return a
            if u == 1:
                return d.binop(op, w, a.i, self.mat(b))
        if isinstance(b, PDiff):
            if op == "sub" and is_c(a) and int(a) == 0:
                return PDiff(d.binop("sub", 64, 0, b.i), b.u)
            if b.u == 1:
                return d.binop(op, w, self.mat(a), b.i)
        return None

    def pcmp(self, pred, a, b):
        d = self.dom
        if a.o is b.o:
            if a.o is NULL:
                return d.cmp(pred, 64, a.i, b.i)
            if a.b == b.b:
                p = pred
                if pred[0] == "u":
                    p = "s" + pred[1:]
                return d.cmp(p, 64, a.i, b.i)
            x, y = self.ptr_byteoff(a), self.ptr_byteoff(b)
            return d.cmp("s" + pred[1:] if pred[0] == "u" else pred, 64, x, y)
        for x, y in ((a, b), (b, a)):
            ni = getattr(x.o.stream, "nullidx", None)
            if ni is not None and y.o is NULL and pred in ("eq", "ne"):
                return d.cmp(pred, 64, x.i, ni)
        if pred == "eq":
            if a.o.tag == b.o.tag and a.o.tag == "zero-size":
                raise Unsupported("compare zero-size")
            return False
        if pred == "ne":
            return True
        if b.o is NULL and is_c(b.i) and int(b.i) == 0 or a.o is NULL and is_c(a.i) and int(a.i) == 0:
            # ordering against null
            if b.o is NULL:
                return pred[1:] in ("gt", "ge")
            return pred[1:] in ("lt", "le")
        raise Unsupported("ordering of pointers to different objects %s %s" % (a.o, b.o))

    def docast(self, op, t1, v, t2):
        if v is UNDEF:
            return UNDEF
        if op == "ptrtoint":
            if v.o is NULL and is_c(v.i):
                return int(v.i)
            return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt):
                return v.p
            if is_c(v) and int(v) == 0:
                return Ptr(NULL)
            raise Unsupported("inttoptr")
        if op == "bitcast":
            if t1.k == t2.k:
                return v
            raise Unsupported("bitcast")
        if op in ("zext", "sext", "trunc"):
            if op == "trunc" and isinstance(v, PDiff):
                v = self.mat(v)
            elif isinstance(v, (PInt, PDiff)):
                v = self.mat(v)
            return self.dom.cast(op, v, t1.w, t2.w)
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ running
    def start(self, st, fname, args):
        f = self.m.funcs[fname]
        env = {}
        for (t, nm), a in zip(f.params, args):
            env[nm] = a
        fr = Frame(f, env, len(st.frames))
        st.frames.append(fr)

    def explore(self, st):
        """run one state to all its ends (DFS)"""
        if self.deadline and time.time() > self.deadline:
            raise Stop("deadline")
        try:
            self._run(st)
        except PathEnd:
            pass

    def branch(self, st, alts):
        """alts: list of (cond, fn(state)) ; explores every feasible one"""
        self.flush(st)
        alts = [(c, f) for c, f in alts if not (isinstance(c, bool) and not c)]
        if len(alts) == 1 and isinstance(alts[0][0], bool):
            alts[0][1](st)
            self._run(st)
            return
        last = len(alts) - 1
        n_feas = 0
        for k, (c, f) in enumerate(alts):
            self.solver.push()
            try:
                if not isinstance(c, bool):
                    self.solver.add(c)
                    if not (k == last and n_feas == 0):
                        if self.chk() == z3.unsat:
                            continue
                n_feas += 1
                s2 = st.copy()
                try:
                    f(s2)
                    self._run(s2)
                except PathEnd:
                    pass
            finally:
                self.solver.pop()

    def _run(self, st):
        while True:
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            while True:
                ins = blk.ins[fr.ip]
                op = ins.op
                try:
                    r = self.step(st, fr, ins)
                except Fork as fk:
                    # re-execute with fixed outcome
                    def mk(v):
                        def g(s2):
                            f2 = s2.frames[-1]
                            if ins.dst is not None:
                                f2.env[ins.dst] = v()
                            else:
                                v()
                            f2.ip += 1
                        return g
                    self.branch(st, [(c, mk(v)) for c, v in fk.alts])
                    return
                except CallFork as fk:
                    self.branch(st, fk.alts)
                    return
                if r is None:
                    fr.ip += 1
                    continue
                if r == "frame":
                    break            # frame/ block switched
                if r == "end":
                    return
            continue

    def goto(self, st, fr, target):
        """transfer control; evaluates phis; returns after handling loop cuts"""
        f = fr.f
        src = fr.blk
        tb = f.blocks[target]
        # leaving loops
        while fr.loops and target not in f.blocks[fr.loops[-1][0].hdr].loop:
            cut = fr.loops.pop()[0]
            if cut.mode == "infer":
                # exits are not explored while inferring
                self.flush_infer(st)
                self.stats["paths"] += 1
                raise PathEnd()
        newv = {}
        for p in tb.phis:
            if src not in p.a:
                raise Unsupported("phi")
            newv[p.dst] = self.val(st, p.ty, p.a[src])
        fr.env.update(newv)
        fr.prev, fr.blk, fr.ip = src, target, 0
        if tb.is_header:
            active = fr.loops[-1][0] if fr.loops else None
            if active is not None and active.hdr == target:
                self.back_edge(st, fr, active)
                raise PathEnd()
            um = self.unroll_limit(st, fr, target)
            if um is not None:
                key = (fr.depth, f.name, target)
                inside = src in tb.loop
                n = st.unroll.get(key, 0) + 1 if inside else 0
                st.unroll[key] = n
                if n > um:
                    self.flush(st)
                    if self.chk() != z3.unsat:
                        self.unroll_hit = True
                        if self.force_unroll is None:
                            self.oblige(st, False, "unwinding", "more than %d iterations" % um)
                            self.flush(st)
                    raise PathEnd()
                return
            self.cut_loop(st, fr, target)
            raise PathEnd()

    def flush_infer(self, st):
        self.flush(st)

    def unroll_limit(self, st, fr, hdr):
        if self.force_unroll is not None:
            return self.force_unroll
        if self.spec is not None:
            return self.spec.unroll(self, st, fr.f.name, hdr)
        return self.unroll_mode

    # ------------------------------------------------------------ loops
    def loop_vars(self, st, fr, hdr):
        """[(key, value, ty)] of havocked state"""
        out = []
        for p in fr.f.blocks[hdr].phis:
            out.append((("phi", p.dst), fr.env[p.dst], p.ty))
        for oid, c in st.mem.items():
            o = st.objs.get(oid)
            if o is None or o.ro or o.kind in ("const",):
                continue
            if isinstance(c, BufMem):
                out.append((("buf", oid), c, None))
            else:
                for off, (sz, v) in sorted(c.items()):
                    out.append((("cell", oid, off, sz), v, None))
        for g, v in st.ghost.items():
            out.append((("ghost", g), v, None))
        return out

    def set_var(self, st, fr, key, v):
        if key[0] == "phi":
            fr.env[key[1]] = v
        elif key[0] == "buf":
            st.mem[key[1]] = v
        elif key[0] == "cell":
            m = dict(st.mem[key[1]])
            m[key[2]] = (key[3], v)
            st.mem[key[1]] = m
        else:
            st.ghost[key[1]] = v

    def get_var(self, st, fr, key):
        if key[0] == "phi":
            return fr.env[key[1]]
        if key[0] == "buf":
            return st.mem[key[1]]
        if key[0] == "cell":
            c = st.mem[key[1]].get(key[2])
            if c is None or c[0] != key[3]:
                cc = st.mem[key[1]]
                try:
                    return self.cell_load(st, cc, key[2], key[3], INT(8 * key[3]))
                except Unsupported:
                    return UNDEF
            return c[1]
        return st.ghost[key[1]]

    def width_of(self, v):
        if isinstance(v, bool):
            return 1
        if z3.is_expr(v):
            if z3.is_bool(v):
                return 1
            if z3.is_bv(v):
                return v.size()
            if z3.is_int(v) and self.dom.name in ("hyb", "lin"):
                return 64
        return None

    def is_packed(self, v):
        p = getattr(self.spec, "packed", False)
        return p(self, v) if callable(p) else p

    def packed(self, nm):
        """any 64-bit value, as two 32-bit fields"""
        r = [self.fresh(nm + x, 32) for x in ("_hi", "_lo")]
        if self.dom.name == "lin":
            r = [self.dom.setb(x, 0, mask(32)) for x in r]
            self.solver.add(*[z3.And(x >= 0, x <= mask(32)) for x in r])
        return self.dom.join(*r)

    def havoc_like(self, nm, key, v, ty):
        if key[0] == "phi":
            if v is UNDEF:
                return UNDEF
            if ty.k == "int":
                if isinstance(v, PInt):
                    return PInt(Ptr(v.p.o, self.fresh(nm, 64), v.p.b))
                if isinstance(v, PDiff):
                    return PDiff(self.fresh(nm, 64), v.u)
                if ty.w == 64 and self.is_packed(v):
                    return self.packed(nm)
                return self.fresh(nm, ty.w, v)
            if ty.k == "ptr":
                if v.o is NULL or v.o.kind == "func":
                    return v
                return Ptr(v.o, self.fresh(nm, 64), v.b)
            raise Unsupported("phi type " + ty.k)
        if key[0] == "buf":
            bm = v
            o = self.cur_objs[key[1]]
            return BufMem(self.base_fn(o.name, o.unit))
        if key[0] == "cell":
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Ptr):
                if v.o is NULL or v.o.kind == "func":
                    return v
                return Ptr(v.o, self.fresh(nm, 64), v.b)
            if isinstance(v, PInt):
                return PInt(Ptr(v.p.o, self.fresh(nm, 64), v.p.b))
            if isinstance(v, PDiff):
                return PDiff(self.fresh(nm, 64), v.u)
            w = 1 if (isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))) else 8 * key[3]
            if isinstance(v, tuple):
                return v
            if w == 64 and self.is_packed(v):
                return self.packed(nm)
            return self.fresh(nm, w, v)
        # ghost
        w = self.width_of(v) or 64
        return self.fresh(nm, w)

    def same_shape(self, a, b):
        """may value b (at back edge) be described by variable shaped like a (havocked)?"""
        if a is UNDEF:
            return True
        if b is UNDEF:
            return False
        if isinstance(a, Ptr):
            return isinstance(b, Ptr) and a.o is b.o and a.b == b.b and (
                not (a.o is NULL or a.o.kind == "func") or
                (is_c(a.i) and is_c(b.i) and a.i == b.i) or not is_c(a.i))
        if isinstance(a, PInt):
            return isinstance(b, PInt) and a.p.o is b.p.o and a.p.b == b.p.b
        if isinstance(a, PDiff):
            return isinstance(b, PDiff) and a.u == b.u
        if isinstance(a, BufMem):
            return True
        if isinstance(a, tuple):
            return a == b
        return not isinstance(b, (Ptr, PInt, tuple, BufMem, list))

    def norm_to(self, a, b):
        """materialise b if needed to match plain int a"""
        if isinstance(a, (int,)) or z3.is_expr(a):
            if isinstance(b, (PDiff,)):
                return self.mat(b)
        return b

    def cut_loop(self, st, fr, hdr):
        self.flush(st)
        cut = LoopCut(fr.f.name, hdr, fr.depth)
        cut.where = self.where(st)
        self.cur_objs = st.objs
        vs = self.loop_vars(st, fr, hdr)
        entry = {k: v for k, v, t in vs}
        unstable = set()
        for attempt in range(80):
            try:
                self._cut_attempt(st, fr, hdr, cut, vs, entry, unstable)
                return
            except ShapeMismatch as e:
                if e.cut is not cut:
                    raise
                if e.key in unstable:
                    raise Unsupported("unstable loop variable %r" % (e.key,))
                unstable.add(e.key)
        raise Unsupported("unstable loop state")

    def _cut_attempt(self, st, fr, hdr, cut, vs, entry, unstable):
        tag = "L"
        hv = {}
        s1 = st.copy()
        f1 = s1.frames[-1]
        self.solver.push()
        try:
            for k, v, t in vs:
                if k[0] == "buf" and k not in unstable:
                    nv = v          # frame condition: not modified by the loop (checked at every back edge)
                elif k in unstable and k[0] != "buf":
                    nv = self.spec.unstable_havoc(self, s1, k, v, t) if hasattr(self.spec, "unstable_havoc") else None
                    if nv is None and k[0] == "phi" and isinstance(v, PDiff) and t is not None and t.k == "int":
                        nv = self.fresh("%s_%s" % (tag, k[1]), t.w)       # a difference of pointers, then any integer
                    if nv is None:
                        nv = UNDEF
                else:
                    nv = self.havoc_like("%s_%s" % (tag, "_".join(map(str, k[1:]))), k, v, t)
                hv[k] = nv
                self.set_var(s1, f1, k, nv)
            cut.framed = {k for k in hv if k[0] == "buf" and k not in unstable}
            skip = getattr(self.spec, "skip_cands", None)
            cands = [(l, f) for l, f in self.gen_cands(s1, f1, hdr, vs, entry, hv) if not (skip and skip.search(str(l)))]
            # 1. entry
            reuse = getattr(self.spec, "reuse_cands", 0)
            known = self.kept_cands.setdefault((f1.f.name, hdr), [0, set()])
            if reuse and known[0] >= reuse:
                # at earlier visits (under assumptions at least as strong) all others were dropped
                cands = [(l, f) for l, f in cands if str(l) in known[1]]
            live = []
            for lab, fn in cands:
                try:
                    c = fn(entry)
                except (Skip, Unsupported):
                    continue
                if c is None:
                    continue
                if isinstance(c, bool):
                    if c:
                        live.append((lab, fn))
                    continue
                self.stats["cands_tried"] += 1
                r = self.chk(z3.Not(c))
                if r == z3.unsat:
                    live.append((lab, fn))
                    continue
                if r == z3.unknown:
                    self.undecided += 1
                if DEBUG:
                    print("not on entry", cut.where, lab, flush=True)
            cut.vars = hv
            cut.widths = {k: (t.w if k[0] == "phi" and t is not None and t.k == "int" else 8 * k[3] if k[0] == "cell" else 64) for k, v, t in vs}
            cut.cands = live
            saved = self.mode
            self.mode = "infer"
            cut.mode = "infer"
            try:
                while True:
                    self.stats["houdini_rounds"] += 1
                    cut.dropped = False
                    cut.backedges = 0
                    self._assume_and_run(s1, f1, cut, hv)
                    if not cut.dropped:
                        break
            finally:
                self.mode = saved
            known[0] += 1
            known[1] |= {str(l) for l, _ in cut.cands}
            if saved == "final":
                self.stats["loops"] += 1
                self.stats["cands_kept"] += len(cut.cands)
                self.cut_summary.append(dict(loop=cut.where, header=hdr, invariants=[l for l, _ in cut.cands],
                                             backedges=cut.backedges))
                for l, _ in cut.cands:
                    self._note("loop-invariant", cut.where, "established and preserved: " + str(l))
            cut.mode = "final"
            cut.measures = None
            self._assume_and_run(s1, f1, cut, hv)
            if saved == "final" and self.want_termination and cut.measures is not None:
                o = self._note("termination", cut.where, "some loop variable is strictly monotone on every back edge")
                if not cut.measures:
                    o.status = "unknown"
        finally:
            self.solver.pop()

    def measure_terms(self, cut, vals):
        """variables of a bounded ordered domain that may serve as a termination measure"""
        for k, h in cut.vars.items():
            v = vals.get(k)
            if isinstance(h, Ptr) and isinstance(v, Ptr) and not is_c(h.i):
                yield k, h.i, v.i, 64
            elif isinstance(h, PInt) and isinstance(v, PInt):
                yield k, h.p.i, v.p.i, 64
            elif isinstance(h, PDiff) and isinstance(v, PDiff):
                yield k, h.i, v.i, 64
            elif z3.is_expr(h) and not z3.is_bool(h) and not isinstance(v, (Ptr, PInt, PDiff, tuple, BufMem)) \
                    and v is not UNDEF:
                yield k, h, v, (h.size() if z3.is_bv(h) else 64)

    def measure_edge(self, st, fr, cut, vals):
        alive = cut.measures
        new = set()
        for k, h, v, w in self.measure_terms(cut, vals):
            for dirn, p in (("up", "gt"), ("down", "lt")):
                if alive is not None and (k, dirn) not in alive:
                    continue
                for sg in ("s", "u"):
                    if (k, dirn, sg) in new or (k, dirn, "s") in new or not getattr(self.spec, "try_measure", lambda *a: True)(k, dirn, sg):
                        continue
                    key = (k, dirn)
                    try:
                        c = self.dom.cmp(sg + p, w, v, h)
                    except Unsupported:
                        continue
                    if isinstance(c, bool):
                        ok = c
                    else:
                        ok = self.chk(z3.Not(c)) == z3.unsat
                    if ok:
                        new.add((k, dirn, sg))
        prev = cut.measures
        ks = {(k, d) for k, d, s in new}
        cut.measures = ks if prev is None else (prev & ks)

    def _assume_and_run(self, s1, f1, cut, hv):
        self.solver.push()
        try:
            for lab, fn in cut.cands:
                c = fn(hv)
                if isinstance(c, bool):
                    continue
                self.solver.add(c)
            s2 = s1.copy()
            f2 = s2.frames[-1]
            f2.loops.append((cut,))
            for a in self.spec.head_axioms(self, s2, f2, hv):
                if not isinstance(a, bool):
                    self.solver.add(a)
            if self.mode == "final":
                r = self.chk()
                self.reached["loop " + cut.where] = self.reached.get("loop " + cut.where, False) or r != z3.unsat
            try:
                self._run(s2)
            except PathEnd:
                pass
        finally:
            self.solver.pop()

    def back_edge(self, st, fr, cut):
        self.flush(st)
        self.stats["paths"] += 1
        cut.backedges += 1
        vals = {}
        for k, hvv in cut.vars.items():
            v = self.get_var(st, fr, k)
            v = self.norm_to(hvv, v)
            if not self.same_shape(hvv, v) or (k in cut.framed and v is not hvv):
                raise ShapeMismatch(cut, k)
            if self.dom.name == "lin" and z3.is_expr(hvv) and z3.is_int(hvv) and k[0] != "ghost" and not isinstance(v, (Ptr, PInt, PDiff, tuple, BufMem)):
                v = self.dom.like(hvv, v, cut.widths.get(k, 64))
            vals[k] = v
        # memory cells that appeared in the loop are not carried (they become undefined at the head)
        for a in self.spec.back_axioms(self, st, fr, vals):
            self.solver.add(a)
        conds = []
        for lab, fn in cut.cands:
            try:
                c = fn(vals)
            except Skip:
                c = False
            if c is None:
                c = False
            conds.append((lab, fn, c))
        if cut.mode == "final":
            # re-check: invariants were established under the same assumptions; discharge for the record
            cs = [c for _, _, c in conds if not isinstance(c, bool)]
            bad = [l for l, _, c in conds if isinstance(c, bool) and not c]
            if bad:
                self.oblige(st, False, "loop-invariant", "not preserved: %s" % bad, cut.where)
            if cs and self.mode == "final":
                self.oblige(st, z3.And(cs), "loop-invariant", "preserved", cut.where)
                self.flush(st)
            if self.mode == "final":
                self.measure_edge(st, fr, cut, vals)
                self.spec.check_progress(self, st, fr, cut, vals)
            return
        # infer: drop what fails
        keep = [(l, f, c) for l, f, c in conds if not (isinstance(c, bool) and not c)]
        if len(keep) != len(conds):
            cut.dropped = True
        while True:
            cs = [c for _, _, c in keep if not isinstance(c, bool)]
            if not cs:
                break
            r = self.chk(z3.Not(z3.And(cs)))
            self.stats["inv_checks"] += 1
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = self.solver.model()
                k2 = []
                nd = 0
                for l, f, c in keep:
                    if isinstance(c, bool) or z3.is_true(m.eval(c, model_completion=True)):
                        k2.append((l, f, c))
                    else:
                        nd += 1
                        if DEBUG:
                            print("drop", cut.where, l, flush=True)
                if nd == 0:
                    r = z3.unknown
                else:
                    keep = k2
                    cut.dropped = True
                    continue
            if r == z3.unknown:
                k2 = []
                for l, f, c in keep:
                    r = z3.unsat if isinstance(c, bool) else self.chk(z3.Not(c))
                    if r == z3.unsat:
                        k2.append((l, f, c))
                    else:
                        self.undecided += r == z3.unknown
                        if DEBUG:
                            print("drop?", cut.where, l, flush=True)
                        cut.dropped = True
                keep = k2
                break
        cut.cands = [(l, f) for l, f, c in keep]

    def gen_cands(self, st, fr, hdr, vs, entry, hv):
        d = self.dom

        def eqc(k):
            def fn(vals):
                a, b = vals[k], entry[k]
                return self.val_eq(a, b)
            return fn
        for k, v, t in vs:
            h = hv[k]
            if h is UNDEF or isinstance(h, tuple):
                continue
            if isinstance(h, BufMem):
                continue
            if isinstance(h, Ptr) and is_c(h.i) and h.o is v.o if isinstance(v, Ptr) else False:
                continue
            yield ("%s == entry" % (k,), eqc(k))
        for c in self.spec.candidates(self, st, fr, hdr, vs, entry, hv):
            yield c

    def val_eq(self, a, b):
        d = self.dom
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is not b.o or a.b != b.b:
                return False
            return d.cmp("eq", 64, a.i, b.i)
        if isinstance(a, PInt) and isinstance(b, PInt):
            return self.val_eq(a.p, b.p)
        if isinstance(a, PDiff) and isinstance(b, PDiff) and a.u == b.u:
            return d.cmp("eq", 64, a.i, b.i)
        if a is UNDEF or b is UNDEF:
            return None
        if isinstance(a, (PDiff, PInt)):
            a = self.mat(a)
        if isinstance(b, (PDiff, PInt)):
            b = self.mat(b)
        if isinstance(a, (Ptr, tuple, list, BufMem)) or isinstance(b, (Ptr, tuple, list, BufMem)):
            return None
        w = self.width_of(a) or self.width_of(b) or 64
        if w == 1:
            return d.cmp("eq", 1, a, b)
        wa, wb = self.width_of(a), self.width_of(b)
        if wa and wb and wa != wb:
            return None
        return d.cmp("eq", w, a, b)

    # ------------------------------------------------------------ instructions
    def speculated(self, fn):
        """registers whose values go nowhere except into the arms of selects (through arithmetic and casts)"""
        r = getattr(fn, "_spec", None)
        if r is None:
            uses, cand = {}, set()

            def regs(x):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "reg":
                    yield x[1]
                elif isinstance(x, (tuple, list)):
                    for y in x:
                        yield from regs(y)
            for b in fn.blocks.values():
                for ins in list(getattr(b, "phis", ())) + list(b.ins):
                    if ins.dst is not None and (ins.op in llir.BINOPS and ins.op not in ("udiv", "sdiv", "urem", "srem") or ins.op in llir.CASTS or ins.op == "select"):
                        cand.add(ins.dst)
                    for k, x in enumerate(ins.a):
                        for q in regs(x):
                            uses.setdefault(q, []).append((ins, k))
                    for q in regs(ins.x):
                        uses.setdefault(q, []).append((ins, -1))
            cand &= set(uses)
            while True:
                bad = {q for q in cand for ins, k in uses[q]
                       if not (ins.op == "select" and k > 0 or ins.op != "select" and ins.dst in cand)}
                if not bad:
                    break
                cand -= bad
            r = fn._spec = cand
        return r

    def okconj(self, env, ok, ins):
        cs = [ok] + [env.get(("ok", x[1]), True) for x in ins.a[:2] if isinstance(x, tuple) and x[0] == "reg"]
        cs = [c for c in cs if c is not True]
        return simp(z3.And(cs)) if cs else True

    def step(self, st, fr, ins):
        op = ins.op
        env = fr.env
        d = self.dom
        if op in llir.BINOPS:
            if ins.ty.k != "int":
                raise Unsupported("vector arith")
            w = ins.ty.w
            a, b = self.ival(st, ins.ty, ins.a[0]), self.ival(st, ins.ty, ins.a[1])
            if op in ("udiv", "sdiv", "urem", "srem"):
                bb = self.mat(b)
                self.oblige(st, d.cmp("ne", w, bb, 0), "division-by-zero")
                if op[0] == "s" and self.check_overflow and not (is_c(bb) and int(bb) != mask(w)):
                    aa = self.mat(a)
                    self.oblige(st, simp(z3.Or(d.lift(d.cmp("ne", w, bb, mask(w)), 1),
                                               d.lift(d.cmp("ne", w, aa, 1 << (w - 1)), 1))), "signed-overflow")
            elif op in ("shl", "lshr", "ashr"):
                if not is_c(b):
                    self.oblige(st, d.cmp("ult", w, b, w), "shift-range")
                elif int(b) >= w:
                    self.oblige(st, False, "shift-range")
            if self.check_overflow:
                ok = True
                if "nsw" in ins.flags and not isinstance(a, (PInt, PDiff)) and not isinstance(b, (PInt, PDiff)):
                    ok = simp(d.no_overflow(op, w, a, b, True))
                if ins.dst in self.speculated(fr.f):
                    # only ever chosen by a select: no overflow is needed where it is not chosen
                    env[("ok", ins.dst)] = self.okconj(env, ok, ins)
                elif ok is not True:
                    self.oblige(st, ok, "signed-overflow")
            env[ins.dst] = self.arith(op, w, a, b, "nsw" in ins.flags and self.check_overflow)
            return None
        if op == "icmp":
            if ins.ty.k == "ptr":
                a, b = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
                if a is UNDEF or b is UNDEF:
                    raise Unsupported("compare undef pointer")
                env[ins.dst] = self.pcmp(ins.x, a, b)
            else:
                a, b = self.ival(st, ins.ty, ins.a[0]), self.ival(st, ins.ty, ins.a[1])
                if isinstance(a, PInt) and isinstance(b, PInt):
                    env[ins.dst] = self.pcmp(ins.x, a.p, b.p)
                else:
                    if isinstance(a, PDiff) and isinstance(b, PDiff) and a.u == b.u and ins.x[0] != "u":
                        a, b = a.i, b.i
                    elif isinstance(a, PDiff) and is_c(b) and int(b) == 0 and (ins.x[0] in "sen"):
                        a = a.i
                    env[ins.dst] = d.cmp(ins.x, ins.ty.w, self.mat(a), self.mat(b))
            return None
        if op == "gep":
            t0, b0 = ins.a[0]
            base = self.val(st, t0, b0)
            if base is UNDEF:
                raise Unsupported("gep undef")
            env[ins.dst] = self.gep(ins.ty, base, [(t, self.val(st, t, v)) for t, v in ins.a[1:]])
            return None
        if op == "load":
            p = self.val(st, PTR, ins.a[0])
            env[ins.dst] = self.load(st, p, ins.ty, ins)
            return None
        if op == "store":
            v = self.val(st, ins.ty, ins.a[0])
            p = self.val(st, PTR, ins.a[1])
            self.store(st, p, ins.ty, v, ins)
            return None
        if op == "br":
            c = self.val(st, INT(1), ins.a[0])
            if c is UNDEF:
                c = self.fresh("undef", 1)
            if isinstance(c, bool):
                self.goto(st, fr, ins.a[1] if c else ins.a[2])
                return "frame"
            nc = simp(z3.Not(c))

            def g(t):
                def h(s2):
                    self.goto(s2, s2.frames[-1], t)
                return h
            st.trace.append(self.m.src_line(ins.dbg))
            raise CallFork([(c, g(ins.a[1])), (nc, g(ins.a[2]))])
        if op == "jmp":
            self.goto(st, fr, ins.a[0])
            return "frame"
        if op == "switch":
            v = self.ival(st, ins.ty, ins.a[0])
            alts = []
            neg = []
            bytgt = {}
            for k, t in ins.a[2]:
                c = d.cmp("eq", ins.ty.w, v, k)
                neg.append(d.lift(c, 1))
                bytgt.setdefault(t, []).append(c)

            def g(t):
                def h(s2):
                    self.goto(s2, s2.frames[-1], t)
                return h
            for t, cs in bytgt.items():
                alts.append((simp(z3.Or([d.lift(c, 1) for c in cs])), g(t)))
            alts.append((simp(z3.Not(z3.Or(neg))) if neg else True, g(ins.a[1])))
            for c, f in alts:
                if isinstance(c, bool) and c:
                    alts = [(c, f)]
                    break
            raise CallFork(alts)
        if op in llir.CASTS:
            v = self.val(st, ins.x, ins.a[0])
            if ins.dst in self.speculated(fr.f):
                env[("ok", ins.dst)] = self.okconj(env, True, ins)
            if ins.ty.k == "int" and v is UNDEF:
                env[ins.dst] = UNDEF
            else:
                env[ins.dst] = self.docast(op, ins.x, v, ins.ty)
            return None
        if op == "select":
            c = self.val(st, INT(1), ins.a[0])
            if c is UNDEF:
                c = self.fresh("undef", 1)
            a, b = self.val(st, ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2])
            oks = [env.get(("ok", x[1]), True) if isinstance(x, tuple) and x[0] == "reg" else True for x in ins.a[1:3]]
            if oks != [True, True]:
                ok = simp(z3.If(c, *oks)) if not isinstance(c, bool) else oks[0] if c else oks[1]
                if ins.dst in self.speculated(fr.f):
                    env[("ok", ins.dst)] = ok
                elif ok is not True:
                    self.oblige(st, ok, "signed-overflow")
            if isinstance(c, bool):
                env[ins.dst] = a if c else b
                return None
            if getattr(self.spec, "fork_select", False):
                # case split: keeps table searches over constant tables concrete
                kc = lambda x: is_c(x) or (isinstance(x, Ptr) and is_c(x.i))
                if kc(a) and kc(b):
                    raise Fork([(c, lambda: a), (simp(z3.Not(c)), lambda: b)])
            if ins.ty.k == "int" and a is not UNDEF and b is not UNDEF and not isinstance(a, (PInt, PDiff)) \
                    and not isinstance(b, (PInt, PDiff)):
                env[ins.dst] = d.ite(c, ins.ty.w, a, b)
                return None
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and a.b == b.b:
                env[ins.dst] = Ptr(a.o, d.ite(c, 64, a.i, b.i), a.b)
                return None
            if isinstance(a, PDiff) and isinstance(b, PDiff) and a.u == b.u:
                env[ins.dst] = PDiff(d.ite(c, 64, a.i, b.i), a.u)
                return None
            if ins.ty.k == "int" and not isinstance(a, PInt) and not isinstance(b, PInt) and a is not UNDEF and b is not UNDEF:
                env[ins.dst] = d.ite(c, ins.ty.w, self.mat(a), self.mat(b))
                return None
            raise Fork([(c, lambda: a), (simp(z3.Not(c)), lambda: b)])
        if op == "ret":
            v = self.val(st, ins.ty, ins.a[0]) if ins.a else None
            fr = st.frames.pop()
            fr2 = fr
            # a return from inside loops: exits
            for (cut,) in reversed(fr.loops):
                if cut.mode == "infer":
                    st.frames.append(fr)
                    self.flush(st)
                    self.stats["paths"] += 1
                    raise PathEnd()
            if not st.frames:
                st.frames.append(fr)
                self.stats["paths"] += 1
                if self.stats["paths"] > self.max_paths:
                    raise Stop("too many paths")
                self.flush(st)
                if self.mode == "final":
                    self.reached["return"] = True
                self.spec.on_return(self, st, v)
                self.flush(st)
                raise PathEnd()
            caller = st.frames[-1]
            if fr.retdst is not None:
                caller.env[fr.retdst] = v
            caller.ip += 1
            if fr.on_ret:
                fr.on_ret(self, st, v)
            return "frame"
        if op == "alloca":
            n = ins.a[0]
            if not isinstance(n, int):
                nv = self.val(st, INT(64), n)
                if not is_c(nv):
                    raise Unsupported("dynamic alloca")
                n = int(nv)
            key = ins.dst
            sz = size_of(ins.ty) * n
            u = self.spec.alloca_buf(self, st, fr, ins, sz) if self.spec and hasattr(self.spec, "alloca_buf") else None
            if u is not None:
                env[ins.dst] = u
            else:
                o = self.new_cell(st, "%s.%s" % (fr.f.name[-20:], key), sz)
                if getattr(self.spec, "sub_arrays", 0) and n == 1:
                    o.subs = tuple((a, a + k * u, self.new_buf(st, "%s.array" % o.name, u, k))
                                   for a, u, k in int_arrays(ins.ty, 0, self.spec.sub_arrays))
                env[ins.dst] = Ptr(o)
            return None
        if op == "unreachable":
            self.oblige(st, False, "unreachable-code")
            return "end"
        if op == "freeze":
            v = self.val(st, ins.ty, ins.a[0])
            if v is UNDEF and ins.ty.k == "int":
                v = self.fresh("undef", ins.ty.w)
            env[ins.dst] = v
            return None
        if op == "extractvalue":
            v = self.val(st, ins.ty, ins.a[0])
            for i in ins.a[1]:
                v = UNDEF if v is UNDEF else v[i]
            env[ins.dst] = v
            return None
        if op == "insertvalue":
            v = self.val(st, ins.ty, ins.a[0])
            x = self.val(st, ins.x, ins.a[1])

            def upd(v, t, idx):
                if not idx:
                    return x
                if v is UNDEF:
                    v = [UNDEF] * len(t.elems)
                v = list(v)
                v[idx[0]] = upd(v[idx[0]], t.elems[idx[0]], idx[1:])
                return v
            env[ins.dst] = upd(v, ins.ty, ins.a[2])
            return None
        if op == "call":
            return self.call(st, fr, ins)
        raise Unsupported("op " + op)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        callee, args = ins.a
        if callee[0] == "reg":
            cv = fr.env[callee[1]]
            if not isinstance(cv, Ptr) or cv.o.kind != "func":
                if isinstance(cv, Ptr) and cv.o.kind == "null":
                    self.oblige(st, False, "valid-pointer", "call through null")
                raise Unsupported("indirect call to %r" % (cv,))
            name = cv.o.name
        else:
            name = callee[1]
            if name in self.m.globals and name not in self.m.funcs:
                p = self.const(PTR, ("global", name))
                name = p.o.name
        vals = []
        for t, a in args:
            if t.k == "metadata":
                vals.append(None)
            else:
                vals.append(self.val(st, t, a))
        if name.startswith("llvm."):
            r = self.intrinsic(st, name, ins, vals, args)
            if ins.dst is not None:
                fr.env[ins.dst] = r
            return None
        c = self.find_contract(name)
        if c is not None:
            self.stats["contract_calls"][name] = self.stats["contract_calls"].get(name, 0) + 1
            r = c(self, st, ins, vals)
            if ins.dst is not None and r is not NotImplemented:
                fr.env[ins.dst] = r
            return None
        if name == "__assert_fail":
            self.oblige(st, False, "assertion", "STRF_ASSERT")
            raise PathEnd()
        if name in ("wmemset", "memset"):
            n = vals[2]
            v = self.mat(vals[1])
            if name == "memset":
                self.memset(st, vals[0], self.dom.cast("trunc", v, 32, 8) if not is_c(v) else int(v) & 255, n)
            else:
                dp = vals[0]
                if dp.o.kind != "buf" or dp.o.unit != 4 or dp.b:
                    raise Unsupported("wmemset")
                k = self.mat(n)
                self.oblige(st, self.bnd_range(st, dp.o, dp.i, k), "store-in-bounds", dp.o.name)
                self.buf_write_range(st, dp.o, dp.i, k, lambda rel, v=v: v)
            if ins.dst is not None:
                fr.env[ins.dst] = vals[0]
            return None
        if name in self.m.funcs:
            f = self.m.funcs[name]
            if len(st.frames) > 40:
                raise Unsupported("recursion depth")
            self.stats["inlined"].add(name)
            nf = Frame(f, {}, len(st.frames))
            for (t, nm), a in zip(f.params, vals):
                nf.env[nm] = a
            nf.retdst = ins.dst
            st.frames.append(nf)
            return "frame"
        raise Unsupported("call to undefined " + name)

    def find_contract(self, name):
        c = self.contracts.get(name)
        if c is None:
            for k, v in self.contracts.items():
                if k.endswith("*") and name.startswith(k[:-1]):
                    return v
                if k.startswith("re:") and re.search(k[3:], name):
                    return v
        return c

    def intrinsic(self, st, name, ins, v, args):
        d = self.dom
        w = ins.ty.w if ins.ty.k == "int" else 0
        base = name.split(".")[1]
        if base == "expect":
            return v[0]
        if base == "assume":
            return None
        if base in ("trap", "ubsantrap"):
            self.oblige(st, False, "unreachable-code")
        if base in ("umin", "umax", "smin", "smax"):
            p = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[base]
            a, b = self.mat(v[0]), self.mat(v[1])
            return d.ite(d.cmp(p, w, a, b), w, a, b)
        if base == "abs":
            a = v[0]
            return d.ite(d.cmp("slt", w, a, 0), w, d.binop("sub", w, 0, a), a)
        if base in ("memcpy", "memmove"):
            self.memcpy(st, v[0], v[1], v[2], base)
            return None
        if base == "memset":
            self.memset(st, v[0], v[1], v[2])
            return None
        if base == "is":      # is.constant
            return False
        if base in ("ctlz", "cttz", "ctpop"):
            if is_c(v[0]):
                x = int(v[0])
                if base == "ctpop":
                    return bin(x).count("1")
                if base == "ctlz":
                    return w - x.bit_length()
                return w if x == 0 else (x & -x).bit_length() - 1
            a = v[0]
            r = None
            if base == "ctlz":
                r = w
                for k in range(w):
                    # highest set bit k
                    r = d.ite(d.cmp("uge", w, a, 1 << k), w, w - 1 - k, r)
                return r
            raise Unsupported("intrinsic " + name)
        if name.startswith(("llvm.sadd.with", "llvm.uadd.with", "llvm.ssub.with", "llvm.usub.with",
                            "llvm.smul.with", "llvm.umul.with")):
            op = name[6:9]
            sgn = name[5] == "s"
            t = args[0][0]
            a, b = self.mat(v[0]), self.mat(v[1])
            no = d.no_overflow(op, t.w, a, b, sgn)
            return [d.binop(op, t.w, a, b), simp(z3.Not(d.lift(no, 1)))]
        if name.startswith(("llvm.usub.sat",)):
            a, b = self.mat(v[0]), self.mat(v[1])
            return d.ite(d.cmp("ult", w, a, b), w, 0, d.binop("sub", w, a, b))
        if name.startswith(("llvm.uadd.sat",)):
            a, b = self.mat(v[0]), self.mat(v[1])
            s = d.binop("add", w, a, b)
            return d.ite(d.cmp("ult", w, s, a), w, mask(w), s)
        raise Unsupported("intrinsic " + name)

    def _units(self, n, u):
        """byte count -> unit count"""
        if isinstance(n, PDiff):
            if n.u == u:
                return n.i
            n = self.mat(n)
        if is_c(n):
            if int(n) % u:
                raise Unsupported("partial unit copy")
            return int(n) // u
        if u == 1:
            return n
        if z3.is_expr(n) and self.dom.name == "bv":
            # x * u  or x << k pattern
            q = self.dom.binop("lshr", 64, n, u.bit_length() - 1)
            bad = self.chk(z3.Not((n & (u - 1)) == 0))
            if bad != z3.unsat:
                raise Unsupported("partial unit copy")
            return q
        if self.dom.name in ("hyb", "lin") and z3.is_mul(n) and z3.is_int_value(n.arg(0)) and n.arg(0).as_long() % u == 0:
            f = n.arg(0).as_long() // u
            rest = n.arg(1) if n.num_args() == 2 else z3.Product(*[n.arg(i) for i in range(1, n.num_args())])
            lo, hi = self.dom.sb(n)
            return self.dom.setb(z3.simplify(rest * f), -((-lo) // u) if lo < 0 else lo // u, hi // u)
        if self.dom.name in ("int", "hyb", "lin"):
            q = self.dom.binop("udiv", 64, n, u)
            if self.chk(z3.Not(self.dom.lift(n, 64) == self.dom.lift(q, 64) * u)) != z3.unsat:
                raise Unsupported("partial unit copy")
            return q
        raise Unsupported("unit count")

    def range_ok(self, o, i, n):
        d = self.dom
        # 0 <= i, n <= size - i   (signed, no wrap because i <= size)
        sz = o.size
        if d.name in ("hyb", "lin"):
            I, N, S = d.lift(i, 64), d.lift(n, 64), d.lift(sz, 64)
            return simp(z3.And(I >= 0, N >= 0, I + N <= S))
        return simp(z3.And(d.lift(d.cmp("ule", 64, i, sz), 1),
                           d.lift(d.cmp("ule", 64, n, d.binop("sub", 64, sz, i)), 1)))

    def memcpy(self, st, dp, sp, n, base="memcpy"):
        if isinstance(n, PInt):
            n = self.mat(n)
        nn = self.mat(n) if not isinstance(n, PDiff) else n
        if is_c(nn) and int(nn) == 0:
            return
        if isinstance(nn, PDiff) and is_c(nn.i) and int(nn.i) == 0:
            return
        do, so = dp.o, sp.o
        for x in (do, so):
            if x.kind in ("null", "func", "dead", "opaque"):
                z = self.dom.cmp("eq", 64, self.mat(n), 0)
                self.oblige(st, z, "valid-pointer", "copy through %s pointer" % x.kind)
                return
        if do.kind == "buf":
            u = do.unit
            k = self._units(n, u)
            if dp.b or sp.b:
                raise Unsupported("copy misaligned")
            self.oblige(st, self.bnd_range(st, do, dp.i, k), "store-in-bounds", do.name)
            if so.kind == "buf" and so.unit == u:
                self.oblige(st, self.bnd_range(st, so, sp.i, k), "load-in-bounds", so.name)
                snap = st.mem[so.id]
                si = sp.i

                def fn(rel, snap=snap, so=so, si=si):
                    idx = self.dom.binop("add", 64, si, rel)
                    tmp = State()
                    tmp.mem = {so.id: snap}
                    return self.buf_read(tmp, so, idx)
                if is_c(k) and int(k) <= 16:
                    vals = [fn(j) for j in range(int(k))]
                    for j, v in enumerate(vals):
                        self.buf_write(st, do, self.dom.binop("add", 64, dp.i, j), v)
                else:
                    self.buf_write_range(st, do, dp.i, k, fn)
                return
            # from cells
            soff = self.ptr_byteoff(sp)
            if is_c(soff) and is_c(k):
                for j in range(int(k)):
                    v = self.load(st, Ptr(so, self.dom.binop("add", 64, sp.i, j * u), sp.b), INT(8 * u))
                    if v is UNDEF:
                        v = self.fresh("undef", 8 * u)
                    self.buf_write(st, do, self.dom.binop("add", 64, dp.i, j), v)
                return
            # symbolic length / offset from a small cell object: snapshot lookup
            if so.size is not None and so.size <= 4096:
                # in bounds: soff + k*u <= size
                self.oblige(st, simp(z3.And(self.dom.lift(self.dom.cmp("ule", 64, soff, so.size), 1),
                            self.dom.lift(self.dom.cmp("ule", 64, self.mat(n), self.dom.binop("sub", 64, so.size, soff)), 1))),
                            "load-in-bounds", so.name)
                cells = self.const_cells(so) if so.kind == "const" else st.mem[so.id]
                cells = dict(cells)

                def fn2(rel, cells=cells, soff=soff):
                    off = self.dom.binop("add", 64, soff, self.dom.binop("mul", 64, rel, u))
                    r = None
                    for kk, c in sorted(cells.items()):
                        if c[0] != u or c[1] is UNDEF:
                            continue
                        cc = self.dom.cmp("eq", 64, off, kk)
                        if isinstance(cc, bool):
                            if cc:
                                return c[1]
                            continue
                        r = c[1] if r is None else self.dom.ite(cc, 8 * u, c[1], r)
                    return r if r is not None else self.fresh("undef", 8 * u)
                self.buf_write_range(st, do, dp.i, k, fn2)
                return
            raise Unsupported("memcpy to buffer from %s" % so)
        n = self.mat(n)
        if not is_c(n):
            raise Unsupported("symbolic memcpy to cells")
        n = int(n)
        doff, soff = self.ptr_byteoff(dp), self.ptr_byteoff(sp)
        self.oblige(st, self.in_bounds(do, doff, n), "store-in-bounds", do.name)
        if not is_c(doff):
            raise Unsupported("symbolic memcpy dest")
        doff = int(doff)
        if so.kind == "buf":
            u = so.unit
            if n % u or sp.b:
                raise Unsupported("memcpy partial")
            vals = []
            for j in range(n // u):
                ij = self.dom.binop("add", 64, sp.i, j)
                self.oblige(st, self.bnd(st, so, ij), "load-in-bounds", so.name)
                vals.append((j * u, u, self.buf_read(st, so, ij)))
        else:
            self.oblige(st, self.in_bounds(so, soff, n), "load-in-bounds", so.name)
            if not is_c(soff):
                # e.g. two digits from the digit-pair table
                vals = []
                for j in range(n):
                    vals.append((j, 1, self.load(st, Ptr(so, self.dom.binop("add", 64, soff, j)), INT(8))))
            else:
                soff = int(soff)
                if so.kind == "glob" and so.id not in st.mem:
                    st.mem[so.id] = dict(self.const_cells(so))
                    st.objs[so.id] = so
                cells = self.const_cells(so) if so.kind == "const" else st.mem[so.id]
                vals = []
                k = soff
                while k < soff + n:
                    c = cells.get(k)
                    if c is not None and k + c[0] <= soff + n:
                        vals.append((k - soff, c[0], c[1]))
                        k += c[0]
                    else:
                        b = self.cell_byte(cells, k)
                        if b is not None:
                            vals.append((k - soff, 1, b))
                        k += 1
        cells = dict(st.mem[do.id])
        for o2 in [x for x, cc in cells.items() if doff <= x < doff + n]:
            if o2 + cells[o2][0] <= doff + n:
                del cells[o2]
        for off, sz, v in vals:
            self.cell_store(cells, doff + off, sz, v)
        st.mem[do.id] = cells

    def memset(self, st, dp, v, n):
        do = dp.o
        nn = self.mat(n)
        if is_c(nn) and int(nn) == 0:
            return
        if do.kind == "buf" and do.unit == 1:
            self.oblige(st, self.bnd_range(st, do, self.ptr_byteoff(dp), nn), "store-in-bounds", do.name)
            self.buf_write_range(st, do, self.ptr_byteoff(dp), nn, lambda rel, v=v: v)
            return
        if do.kind == "buf":
            if not is_c(v):
                raise Unsupported("memset unit")
            k = self._units(n, do.unit)
            self.oblige(st, self.bnd_range(st, do, dp.i, k), "store-in-bounds", do.name)
            pat = int.from_bytes(bytes([int(v)]) * do.unit, "little")
            self.buf_write_range(st, do, dp.i, k, lambda rel, p=pat: p)
            return
        if not is_c(nn):
            raise Unsupported("symbolic memset to cells")
        off = self.ptr_byteoff(dp)
        if not is_c(off):
            raise Unsupported("symbolic memset")
        self.oblige(st, self.in_bounds(do, off, int(nn)), "store-in-bounds", do.name)
        cells = dict(st.mem[do.id])
        off, nn = int(off), int(nn)
        k = 0
        while k < nn:
            if (nn - k) >= 8 and (off + k) % 8 == 0:
                s = 8
            elif (nn - k) >= 4 and (off + k) % 4 == 0:
                s = 4
            else:
                s = 1
            if is_c(v):
                vv = int.from_bytes(bytes([int(v)]) * s, "little")
            elif s == 1:
                vv = v
            else:
                vv = self.dom.concat_bytes([v] * s)
            self.cell_store(cells, off + k, s, vv)
            k += s
        st.mem[do.id] = cells


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class CallFork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Skip(Exception):
    pass


class ShapeMismatch(Exception):
    def __init__(self, cut, key):
        self.cut, self.key = cut, key


class BaseSpec:
    """default hooks"""

    def unroll(self, ex, st, fname, hdr):
        return None

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        return []

    def head_axioms(self, ex, st, fr, hv):
        return []

    def back_axioms(self, ex, st, fr, vals):
        return []

    def check_progress(self, ex, st, fr, cut, vals):
        pass

    def on_return(self, ex, st, ret):
        pass

    def model_inputs(self, ex, model):
        return None
