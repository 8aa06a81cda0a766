"""Loops with stated invariants (in-place algorithms working entry by entry).

A contract may name, next to its postcondition, a `Guide`: given the storages a loop of the
function body modifies, it states the loop invariant as
  - `head(v)`  the most general state before iteration v (closed forms and arbitrary values), with
               the facts assumed about it,
  - `check(v, state)`  the obligations that the state after iteration v satisfies the invariant of v+1,
  - `leave()`  the state after the last iteration.
The loop rule (loops.Loop) runs the real body once from the stated head state; the obligations
are discharged by the algebra engine like any other.  Variables the invariant does not mention
must be written before they are read in each iteration."""
from . import alg
from .contracts import Obligation
from .lin import ctx
from .loops import Loop, MISSING, SAME, _undo
from .vals import Arr, Poison, ST, UNDEF, Unsupported, storage_mat
from .fams import record
from .lin import ACTIVE, Lin, ONE, ZERO, branch, f_ge, f_lt
from .vals import fresh


class Guided:
    """one execution of a loop under an invariant"""

    def __init__(self, L, guide):
        self.L, self.guide = L, guide

    def enter(self, caps):
        L = self.L
        L.state = "run"
        L.entry = L._caps(caps)
        L.id, L.vname = fresh("L"), fresh("i")
        L.v = Lin.of(L.vname)
        L.off = 0
        L.count = L.n
        L.clock0 = ST.clock
        L.k0 = ctx().snapshot()
        ctx().assume(f_ge(L.v, ZERO))
        ctx().assume(f_lt(L.v, L.count))
        L.k1 = ctx().snapshot()
        L.outer = ACTIVE["explorer"]
        L.draws0 = len(ST.draws)
        ACTIVE["explorer"] = L
        ST.loops.append(L)
        L.h_st, L.h_loc, L.h_attr, L.h_list = {}, {}, {}, {}
        L.jn0 = len(ST.journal)
        self.guide.entered(L)
        self.stage = "discover"
        alg.DISCOVER[0] += 1
        self.mod, self.loc = set(), set()
        self.ninv = None
        return L._begin_pass()

    def advance(self, caps):
        L = self.L
        if L.pending:
            raise Unsupported("break out of a loop under an invariant (%s)" % L.where)
        ends = L._caps(caps)
        jr = ST.journal[L.jn2:]
        if any(e[0] in ("list", "mk") for e in jr) or any(e[0] == "attr" for e in jr) or len(ST.draws) > L.d2:
            raise Unsupported("loop under an invariant changes more than arrays (%s)" % L.where)
        if self.stage == "discover":
            self.mod |= {e[1] for e in jr if e[0] == "st" and e[1].birth <= L.clock0}
            self.loc |= {nm for nm, a, b in zip(L.names, L.start_vals, ends) if a is not b}
        else:
            if any(e[0] == "st" and e[1].birth <= L.clock0 and e[1] not in self.mod for e in jr):
                raise Unsupported("loop under an invariant changes another array (%s)" % L.where)
            vals = dict(zip(L.names, ends))
            self.inv.check(L.v, {st: storage_mat(st) for st in self.mod}, vals, self.oblige)
        _undo(L.jn2)
        ctx().restore(L.k1)
        L.todo.extend(L.new)
        if L.todo:
            return L._begin_path()
        _undo(L.jn0)
        if self.stage == "discover":
            return self.start()
        return self.finish()

    def oblige(self, name, ok, detail="", pair=None):
        ST.guide_out.append(Obligation("%s, %s: %s" % (self.inv.name, self.L.where.rpartition("@")[0], name), ok, detail, pair))

    def start(self):
        """state the invariant, go to the general iteration"""
        L = self.L
        C = ctx()
        alg.DISCOVER[0] -= 1
        facts = C.facts[L.k0:]
        C.restore(L.k0)
        entry = dict(zip(L.names, L.entry))
        if any(st.rank > 2 for st in self.mod):
            raise Unsupported("no invariant for this loop (%s)" % L.where)
        self.inv = self.guide.bind(L, {st: storage_mat(st) for st in self.mod}, entry, self.loc)
        if self.inv is None:
            raise Unsupported("no invariant for this loop (%s)" % L.where)
        self.inv.entry(self.oblige)
        for f in facts:
            C.assume(f)
        sts, loc, fs = self.inv.head(L.v)
        for f in fs:
            C.assume(f)
        self.inv.lemmas(L.v, self.oblige)
        L.k1 = C.snapshot()
        if set(sts) != self.mod:
            raise Unsupported("the invariant does not cover the arrays this loop modifies (%s)" % L.where)
        for st, m in sts.items():
            ST.journal.append(("st", st, st.snap()))
            put(st, m)
        for nm in self.loc:
            L.h_loc[nm] = (lambda x: lambda: x)(loc[nm]) if nm in loc else (lambda: Poison(None))
        self.stage = "verify"
        L.h_st = {}
        return L._begin_pass()

    def finish(self):
        L = self.L
        ST.loops.pop()
        ACTIVE["explorer"] = L.outer
        ctx().restore(L.k0)
        record("invariant", L.where, self.inv.name, True)
        sts, loc = self.inv.leave()
        for st, m in sts.items():
            ST.journal.append(("st", st, st.snap()))
            put(st, m)
        L.vals = tuple((loc[nm] if nm in loc else UNDEF if nm in L.dead else Poison(None)) if nm in self.loc else e
                       for nm, e in zip(L.names, L.entry))
        L.state = "done"
        return False


def put(st, m):
    st.base, st.log, st.axis, st.whole = ("mat", m), [], 0, True
    st.version += 1


class Invariant:
    name = "invariant"

    def entry(self, oblige):
        pass

    def lemmas(self, v, oblige):
        pass


class Guide:
    """chooses the invariant of each loop of a function body"""

    def wants(self, loop):
        return True

    def entered(self, loop):
        pass

    def bind(self, loop, storages, entry, modified):
        return None
