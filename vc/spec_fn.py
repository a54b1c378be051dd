"""Generic contract for functions described by a list of symbolic arguments and a postcondition."""
import z3
from dom import is_c
from exec import BaseSpec, Ptr, UNDEF, PDiff, PInt, simp


class FnSpec(BaseSpec):
    """args(ex, st, spec) -> list of argument values; post(ex, st, ret, spec) adds obligations.
    spec.vars: name -> term, reported in counterexamples"""

    def __init__(self, args, post, unroll=None, cands=None, head=None):
        self.args, self.post = args, post
        self._unroll, self._cands, self._head = unroll, cands, head
        self.vars = {}

    def setup(self, ex, st, fname):
        self.fname = fname
        a = self.args(ex, st, self)
        ex.start(st, fname, a)

    def var(self, ex, name, w):
        v = ex.dom.fresh(name, w)
        r = ex.dom.range_assume(v, w)
        if r is not None:
            ex.solver.add(r)
        self.vars[name] = v
        return v

    def unroll(self, ex, st, fname, hdr):
        return self._unroll(ex, st, fname, hdr) if callable(self._unroll) else self._unroll

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        if self._cands:
            yield from self._cands(ex, st, fr, hdr, vs, entry, hv, self)

    def head_axioms(self, ex, st, fr, hv):
        return self._head(ex, st, fr, hv, self) if self._head else []

    def on_return(self, ex, st, ret):
        self.post(ex, st, ret, self)

    def model_inputs(self, ex, model):
        out = {}
        for k, v in self.vars.items():
            r = model.eval(v, model_completion=True)
            out[k] = bool(z3.is_true(r)) if z3.is_bool(v) else r.as_long()
        return out
