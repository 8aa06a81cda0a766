"""The loop rule.

`loader` rewrites  `for x in it: BODY`  into a drive of a `Loop` object around the unchanged
body.  Concrete iterables run as usual.  For a symbolic iterable the body is executed on a
symbolic iteration index v:

  pass 0   on the entry state, only to learn which storages / locals / attributes it modifies;
  pass 1.. with everything modified replaced by an arbitrary ("havoc") state: a cell written
           by an earlier iteration is the atom cell(j), a carried value the atom carry(v);
           repeated until the modified set is stable;
  summary  the effect of all iterations.  A carried value or cell array is summarised by
             - a value that does not depend on earlier iterations,
             - an additive recurrence (a sum over the iterations),
             - a member of a candidate family of the active specification, after checking
               that every path of the body establishes it (loop invariant), or
             - an anonymous family defined by the recurrence itself.
Nothing is bounded: v ranges over all iterations.
"""
import builtins

from . import alg, npmodel
from .alg import Mat, Sc, base, node, replace_nodes, sc_sym, subst
from .lin import ACTIVE, Lin, ONE, ZERO, branch, ctx, decide, f_and, f_eq, f_ge, f_lt, f_not
from .vals import (Arr, LoopWrite, Poison, SBool, SInt, SReal, ST, Storage, SymList, UNDEF, Unsupported, Write,
                   _scalarish, _sc_lin, fresh, is_intlike, mk_int, new_arr, new_fam, obj_map, same_dim,
                   storage_entry, storage_mat, val_subst)
from .fams import FAMS, candidates, equal_values, record


SymListT = SymList


class VList(builtins.list):
    """list display; appends inside a symbolic loop are summarised"""
    sym = None

    def append(self, x):
        if ST.loops:
            ST.journal.append(("list", self, builtins.list(self), self.sym))
        if self.sym is not None:
            raise Unsupported("append to a symbolic list")
        builtins.list.append(self, x)


def _undo(upto):
    while len(ST.journal) > upto:
        e = ST.journal.pop()
        if e[0] == "st":
            e[1].restore(e[2])
        elif e[0] == "attr":
            if e[3] is MISSING:
                object.__delattr__(e[1], e[2])
            else:
                object.__setattr__(e[1], e[2], e[3])
        elif e[0] == "list":
            e[1][:] = e[2]
            e[1].sym = e[3]
        elif e[0] == "mk":
            e[1].mk = e[2]


MISSING = object()


class Path:
    __slots__ = ("facts", "locals", "attrs", "cells", "whole", "lists", "draws")


class Loop:
    def __init__(self, it, where, names, dead=()):
        self.where, self.names, self.dead = where, names, dead
        self.mode = None
        self.it = it
        self.vals = None
        self.item = None
        self.completed = True
        self.pending = False
        self.guided = None

    # ------------------------------------------------------------------ protocol
    def ok(self):
        self.pending = False

    def next(self, caps):
        if self.mode is None:
            self._start(caps)
        if self.mode == "concrete":
            return self._next_concrete(caps)
        return self._next_symbolic(caps)

    def _caps(self, caps):
        out = []
        for c in caps:
            try:
                out.append(c())
            except NameError:
                out.append(UNDEF)
        return tuple(out)

    def _start(self, caps):
        t = npmodel.to_iter(self.it)
        if t is None:
            self.mode = "concrete"
            self.iter = iter(self.it)
            return
        self.mode = "symbolic"
        self.n, self.at = t
        self.state = "begin"
        self.off = 0
        self.peeled = False

    def _next_concrete(self, caps):
        self.vals = self._caps(caps)
        if self.pending:
            self.completed = False
            return False
        try:
            self.item = next(self.iter)
        except StopIteration:
            return False
        self.pending = True
        return True

    # ------------------------------------------------------------------ symbolic
    def _next_symbolic(self, caps):
        if self.state == "begin":
            if not branch(f_ge(self.n, ONE)):
                self.vals = self._caps(caps)
                return False
            if ST.guide is not None and ST.guide.wants(self):
                from .inv import Guided
                self.guided = Guided(self, ST.guide)
                return self.guided.enter(caps)
            if self.where in ST.peel:
                self.state = "peeled"
                self.vals = self._caps(caps)
                self.item = self.at(ZERO)
                self.pending = True
                return True
            return self._enter(caps)
        if self.state == "peeled":
            if self.pending:
                raise Unsupported("break out of a symbolic loop")
            self.off = 1
            if not branch(f_ge(self.n, Lin(2))):
                self.vals = self._caps(caps)
                return False
            return self._enter(caps)
        assert ST.loops and ST.loops[-1] is self, "loop nesting"
        return self.guided.advance(caps) if self.guided is not None else self._advance(caps)

    def _enter(self, caps):
        self.state = "run"
        self.entry = self._caps(caps)
        self.id = fresh("L")
        self.vname = fresh("i")
        self.v = Lin.of(self.vname)
        self.count = self.n - self.off              # iterations summarised, v in [0, count)
        self.clock0 = ST.clock
        self.k0 = ctx().snapshot()
        ctx().assume(f_ge(self.v, ZERO))
        ctx().assume(f_lt(self.v, self.count))
        self.k1 = ctx().snapshot()
        self.outer = ACTIVE["explorer"]
        self.draws0 = len(ST.draws)
        ACTIVE["explorer"] = self
        ST.loops.append(self)
        self.h_st, self.h_loc, self.h_attr, self.h_list = {}, {}, {}, {}
        self.refined = {}
        self.passno = 0
        self.jn0 = len(ST.journal)
        return self._begin_pass()

    def _begin_pass(self):
        self.todo = [[]]
        self.paths = []
        # install the havoc state
        for st, inf in self.h_st.items():
            ST.journal.append(("st", st, st.snap()))
            self._havoc_storage(st, inf)
        self.jn1 = len(ST.journal)
        return self._begin_path()

    def _begin_path(self):
        self.trace, self.pos, self.new = self.todo.pop(), 0, []
        self.npaths = getattr(self, "npaths", 0) + 1
        if self.npaths > 6000:
            raise Unsupported("too many paths in a loop body")
        for (oid, name), (obj, fac) in self.h_attr.items():
            ST.journal.append(("attr", obj, name, obj.__dict__.get(name, MISSING)))
            object.__setattr__(obj, name, fac())
        vals = []
        for nm, e in zip(self.names, self.entry):
            vals.append(self.h_loc[nm]() if nm in self.h_loc else e)
        self.vals = tuple(vals)
        self.start_vals = self.vals
        self.jn2 = len(ST.journal)
        self.d2 = len(ST.draws)
        self.item = self.at(self.v + self.off)
        self.pending = True
        return True

    # explorer interface -------------------------------------------------------
    def branch(self, f):
        d = ctx().decide(f)
        if d is not None:
            return d
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            v = True
            self.new.append(self.trace[:self.pos] + [False])
            self.trace = self.trace[:self.pos] + [True]
        self.pos += 1
        ctx().assume(f if v else f_not(f))
        return v

    # -----------------------------------------------------------------------------
    def _advance(self, caps):
        if self.pending:
            raise Unsupported("break out of a symbolic loop (%s)" % self.where)
        p = Path()
        ends = self._caps(caps)
        p.locals, p.attrs, p.cells, p.whole, p.lists = {}, {}, {}, {}, {}
        jr = ST.journal[self.jn2:]
        for nm, a, b in zip(self.names, self.start_vals, ends):
            if a is not b:
                p.locals[nm] = b
        seen = set()
        first = {}
        for e in jr:
            if e[0] == "st" and e[1].birth <= self.clock0:
                st = e[1]
                if st in seen:
                    continue
                seen.add(st)
                if st.base is not e[2][0]:
                    p.whole[st] = None
                else:
                    p.cells.setdefault(st, None)
            elif e[0] == "attr":
                first.setdefault((id(e[1]), e[2]), e[3])
                p.attrs[(id(e[1]), e[2])] = e[1]
            elif e[0] == "list":
                p.lists[id(e[1])] = e[1]
            elif e[0] == "mk":
                raise Unsupported("mask assignment inside a symbolic loop")
        for st in list(p.whole):
            p.cells.pop(st, None)
            if st.rank > 2:
                raise Unsupported("whole write of a rank 3 array in a symbolic loop")
            p.whole[st] = storage_mat(st)
        for st in p.cells:
            first = [e for e in jr if e[0] == "st" and e[1] is st][0]
            p.cells[st] = [w for w in st.log if not any(w is x for x in first[2][1])]
        for key, obj in list(p.attrs.items()):
            if obj.__dict__.get(key[1], MISSING) is first[key]:
                del p.attrs[key]              # the same object as before the iteration
                continue
            p.attrs[key] = (obj, _snap(obj.__dict__.get(key[1], MISSING)))
        for nm in p.locals:
            p.locals[nm] = _snap(p.locals[nm])
        for key, l in list(p.lists.items()):
            p.lists[key] = (l, [_snap(x) for x in l])
        # initial content at the written places, for cells with a known pattern
        for st, inf in self.h_st.items():
            if inf["kind"] == "cells" and st not in p.whole:
                p.cells[st] = self._cell_value(st, inf, p.cells.get(st))
        p.draws = ST.draws[self.d2:]
        p.facts = list(ctx().facts[self.k1:])
        self.paths.append(p)
        _undo(self.jn2 - len(self.h_attr))
        del ST.draws[self.d2:]
        ctx().restore(self.k1)
        self.todo.extend(self.new)
        if self.todo:
            return self._begin_path()
        return self._end_pass()

    def _cell_value(self, st, inf, log):
        """value of the cell of this iteration at the end of the path"""
        idx = inf["idx"]
        own = self._own_writes(st, log)
        if not own:
            return storage_entry_of(inf["snap"], st, idx)
        vals = None
        for w in own:
            if not isinstance(w, Write):
                raise Unsupported("nested symbolic loops writing the same array")
            if branch(f_eq(w.idx, idx)):
                vals = w.val
            else:
                raise Unsupported("several cells are written in one iteration")
        return _snap(vals) if not isinstance(vals, Mat) else vals

    def _own_writes(self, st, log):
        if log is None:
            return []
        return log                       # the havoc state has an empty log

    def _end_pass(self):
        _undo(self.jn0)
        self.passno += 1
        # ---- what is modified
        new = False
        for p in self.paths:
            for st, log in p.cells.items():
                inf = self.h_st.get(st)
                if inf is None:
                    self._new_cells(st)
                    new = True
            for st in p.whole:
                inf = self.h_st.get(st)
                if inf is None or inf["kind"] != "whole":
                    self.h_st[st] = dict(kind="whole", snap=st.snap(), key=("st", st.birth), init=storage_mat(st))
                    new = True
            for key, (obj, val) in p.attrs.items():
                if key not in self.h_attr:
                    self.h_attr[key] = (obj, self._factory(("attr",) + key[1:] + (len(self.h_attr),),
                                                          obj.__dict__.get(key[1], UNDEF), val))
                    new = True
            for nm, val in p.locals.items():
                if nm not in self.h_loc:
                    self.h_loc[nm] = self._factory(("loc", nm), self.entry[self.names.index(nm)], val)
                    new = True
            for key, (l, items) in p.lists.items():
                self.h_list[key] = l
        if new:
            if self.passno > 8:
                raise Unsupported("no stable set of modified variables (%s)" % self.where)
            return self._begin_pass()
        if self._refine():
            return self._begin_pass()
        self._summarise()
        return False

    # ------------------------------------------------------------------ havoc states
    def _new_cells(self, st):
        pat = None
        for p in self.paths:
            for w in p.cells.get(st) or []:
                if isinstance(w, LoopWrite):
                    raise Unsupported("nested symbolic loops writing the same array")
                k = dict(w.idx.t).get(self.vname)
                if k in (1, -1):
                    if pat is not None and pat != w.idx:
                        raise Unsupported("several cells are written in one iteration")
                    pat = w.idx
                elif k not in (None,):
                    raise Unsupported("write with stride")
        if pat is None:
            # always the same cell: treated as a whole value
            if st.rank <= 2:
                self.h_st[st] = dict(kind="whole", snap=st.snap(), key=("st", st.birth), init=storage_mat(st))
                return
            raise Unsupported("loop writes a fixed cell of a rank 3 array")
        w = None
        for p in self.paths:
            for x in p.cells.get(st) or []:
                w = x
        self.h_st[st] = dict(kind="cells", snap=st.snap(), idx=pat, key=("st", st.birth), proto=w.val,
                             name=("cell", self.id, st.birth))

    def _havoc_storage(self, st, inf):
        if inf["kind"] == "whole":
            st.base, st.log, st.axis, st.whole = ("mat", self._whole_value(inf)), [], 0, False
            st.version += 1
            return
        idx, snap = inf["idx"], inf["snap"]
        axis = inf.get("axis", 0)
        k = dict(idx.t)[self.vname]
        rest = idx - Lin(0, ((self.vname, k),))

        def read(j):
            it = (j - rest) if k == 1 else (rest - j)
            if branch(f_and(f_ge(it, ZERO), f_lt(it, self.v))):
                return self._cell_atom(inf, j)
            return storage_entry_of(snap, st, j)
        st.base, st.log, st.whole = ("fam", read), [], False
        st.version += 1

    def _cell_atom(self, inf, j):
        name = inf["name"]
        cnt = [0]

        def mk(m):
            cnt[0] += 1
            if isinstance(m, Sc):
                return sc_sym(name + (cnt[0],), j)
            return base(name + (cnt[0],), m.r, m.c, (j,))
        return obj_map(inf["proto"], mk)

    def _whole_value(self, inf):
        return inf["fac"]() if "fac" in inf else base(("carry", self.id) + inf["key"], inf["init"].r, inf["init"].c,
                                                      (self.v,))

    def _factory(self, key, entry, end):
        tag = ("carry", self.id) + key
        v = self.v
        if entry is UNDEF or entry is MISSING:
            w0 = self.where
            return lambda: Poison(w0)
        ok = _same_shape(entry, end)
        if not ok:
            where = self.where
            return lambda: Poison(where)
        if is_intlike(entry) and is_intlike(end):
            nm = "c~%s~%s" % (self.id, "_".join(str(x) for x in key))
            return lambda: SInt(Lin.of(nm))
        cnt = [0]

        def mk(m):
            cnt[0] += 1
            if isinstance(m, Sc):
                return sc_sym(tag + (cnt[0],), v)
            return base(tag + (cnt[0],), m.r, m.c, (v,))

        def fac():
            cnt[0] = 0
            return _havoc_obj(end, mk)
        return fac

    # ------------------------------------------------------------------ carried values
    def _carried(self):
        """(key, entry value, [(facts, end value)], start value) for every carried variable"""
        out = []
        for st, inf in self.h_st.items():
            if inf["kind"] == "whole":
                s = base(("carry", self.id) + inf["key"], inf["init"].r, inf["init"].c, (self.v,))
                out.append((("S", st), inf["init"], [(p.facts, p.whole.get(st, s)) for p in self.paths], s))
        return out

    def _vars(self):
        """all carried variables as [key, entry, start, ends]"""
        out = []
        for st, inf in self.h_st.items():
            if inf["kind"] == "whole":
                s = inf.get("cur") or base(("carry", self.id) + inf["key"], inf["init"].r, inf["init"].c, (self.v,))
                if ("S", st) in self.refined:
                    ends = [p.whole.get(st) for p in self.paths]
                else:
                    ends = [p.whole.get(st, s) for p in self.paths]
                out.append((("S", st), inf["init"], s, ends))
        for nm in self.h_loc:
            e = self.entry[self.names.index(nm)]
            s = self.h_loc[nm]() if ("L", nm) not in self.refined else None
            out.append((("L", nm), e, s, [p.locals.get(nm, SAME) for p in self.paths]))
        for key, (obj, fac) in self.h_attr.items():
            e = obj.__dict__.get(key[1], MISSING)
            s = fac() if ("A",) + key not in self.refined else None
            out.append((("A",) + key, e, s, [p.attrs[key][1] if key in p.attrs else SAME for p in self.paths]))
        return out

    def _carry_atoms(self, x):
        """nodes of this loop's havoc state inside a value"""
        out = set()

        def vis(m):
            for n in alg.all_nodes(m):
                if n.kind in ("base", "sym") and isinstance(n.args[0], tuple) and len(n.args[0]) > 1 and \
                        n.args[0][0] in ("carry", "cell") and n.args[0][1] == self.id:
                    out.add(n)
            return m
        if isinstance(x, (Mat, Sc)):
            vis(x)
        elif isinstance(x, SInt):
            for s in x.lin.syms():
                if s.startswith("c~%s~" % self.id):
                    out.add(s)
        else:
            obj_map(x, vis)
        return out

    def _refine(self):
        """decide how carried variables are summarised; True when another pass is needed"""
        if self.refined.get("done"):
            return False
        self.refined["done"] = True
        self.additive = {}
        todo = []
        used = set()
        vs = self._vars()
        for key, e, s, ends in vs:
            if isinstance(s, Poison) and key[0] == "L" and key[1] in self.dead:
                continue                      # private to one iteration
            for x in ends:
                if x is not SAME:
                    used |= self._carry_atoms(x)
        for p in self.paths:
            for st, val in p.cells.items():
                used |= self._carry_atoms(val) if not isinstance(val, list) else set()
            for f in p.facts:
                pass
        for key, e, s, ends in vs:
            if s is None or e is UNDEF or e is MISSING or s is UNDEF or isinstance(s, Poison):
                continue
            a = self._additive(e, s, ends)
            if a is not None:
                self.additive[key] = a
                continue
            if not (self._carry_atoms(s) & used) and not self._in_facts(s):
                continue                      # never read before it is overwritten
            todo.append((key, e, s, ends))
        if not todo:
            return False
        for key, e, s, ends in todo:
            self._refine_var(key, e, s, ends)
        return True

    def _in_facts(self, s):
        at = self._carry_atoms(s)
        for p in self.paths:
            for f in p.facts:
                if f[0] == "spos" and self._carry_atoms(f[1]) & at:
                    return True
                if isinstance(s, SInt) and f[0] in ("ge", "eq", "ne") and s.lin.syms() & f[1].syms():
                    return True
        return False

    def _refine_var(self, key, e, s, ends):
        """start value: entry value at the first iteration, cell(v-1) afterwards"""
        if isinstance(s, SInt):
            raise Unsupported("integer recurrence in a symbolic loop (%s, %s)" % (self.where, key[1]))
        name = ("cell", self.id) + tuple(str(k) if not isinstance(k, (str, int)) else k for k in
                                         (key if key[0] != "S" else ("S", key[1].birth)))
        v = self.v

        def fac():
            if branch(f_eq(v, ZERO)):
                return _copyval(e)
            cnt = [0]

            def mk(m):
                cnt[0] += 1
                if isinstance(m, Sc):
                    return sc_sym(name + (cnt[0],), v - 1)
                return base(name + (cnt[0],), m.r, m.c, (v - 1,))
            return _havoc_obj(s, mk)
        self.refined[key] = dict(name=name, proto=s, entry=e)
        if key[0] == "S":
            # the storage is reset at pass start, before the path's branching: use a lazy family
            st = key[1]
            inf = self.h_st[st]
            raise Unsupported("recurrence of a whole array modified in place (%s)" % self.where)
        elif key[0] == "L":
            self.h_loc[key[1]] = fac
        else:
            self.h_attr[key[1:]] = (self.h_attr[key[1:]][0], fac)

    def _additive(self, e, s, ends):
        """per path increments when every end value is start + increment, else None"""
        if isinstance(s, SInt):
            incs = []
            for x in ends:
                if x is SAME:
                    incs.append(ZERO)
                    continue
                if not is_intlike(x):
                    return None
                d = Lin.of(x) - s.lin
                if d.syms() & s.lin.syms():
                    return None
                incs.append(d)
            return ("int", incs)
        if not isinstance(s, (SReal, Mat)) and not (isinstance(s, Arr) and s.ndim <= 2):
            return None
        sm = _m(s)
        at = self._carry_atoms(sm)
        incs = []
        for x in ends:
            if x is SAME:
                incs.append(None)
                continue
            if not isinstance(x, (SReal, Mat, int, float)) and not isinstance(x, Arr):
                return None
            d = _m(x) - sm
            if self._carry_atoms(d) & at:
                return None
            incs.append(d)
        return ("mat", incs)

    # ------------------------------------------------------------------ summary
    def _guard(self, p):
        return f_and(*p.facts)

    def _summarise(self):
        C = ctx()
        ST.loops.pop()
        ACTIVE["explorer"] = self.outer
        try:
            self._summarise2()
        finally:
            C.restore(self.k0)
        self.state = "done"
        self._apply()

    def _prefix(self, key, e, upto):
        """value of an additive variable before iteration `upto`"""
        kind, incs = self.additive[key]
        if kind == "int":
            if all(i == incs[0] for i in incs) and self.vname not in incs[0].syms() and \
                    (incs[0].is_const() or True):
                try:
                    return mk_int(Lin.of(e) + incs[0] * upto)
                except ValueError:
                    raise Unsupported("nonlinear counter")
            tot = Sc.of(Lin.of(e))
            for p, i in zip(self.paths, incs):
                if i != ZERO:
                    tot = tot + self._gsum(upto, Sc.of(i), self._guard(p))
            return SReal(tot)
        tot = _m(e)
        for p, i in zip(self.paths, incs):
            if i is not None and not i.is_zero():
                tot = tot + self._gsum(upto, i, self._guard(p))
        return tot

    def _gsum(self, n, body, g):
        v = fresh("s")
        s = {self.vname: Lin.of(v)}
        body, g = subst(body, s), subst(g, s) if g is not True else True
        # facts mentioning only v's range are dropped by mat_sum
        if isinstance(body, Sc):
            from .vals import guarded_sum
            return guarded_sum(n, body, v, g)
        from .vals import point_guard
        pg = point_guard(g, v) if g is not True else None
        if pg is not None and pg[1] is True:
            return subst(body, {v: pg[0]})
        return alg.mat_sum(n, body, v, () if g is True else (g,))

    def _summarise2(self):
        C = ctx()
        # prefix sums of additive variables that are read inside the body
        vs = {k: (e, s, ends) for k, e, s, ends in self._vars()}
        sub = {}
        for key, a in self.additive.items():
            e, s, ends = vs[key]
            if a[0] == "mat":
                sub[key] = (_m(s), lambda e=e, key=key: self._prefix(key, e, self.v))
        amap = {}
        for key, (sm, th) in sub.items():
            for n in self._carry_atoms(sm):
                amap[n] = th

        def fix(x):
            if not amap:
                return x

            def rep(n):
                if n in amap:
                    r = amap[n]()
                    return r.as_scalar() if isinstance(r, Mat) and n.kind == "sym" else r
                return None
            if isinstance(x, (Mat, Sc)):
                return replace_nodes(x, rep)
            return obj_map(x, lambda m: replace_nodes(m, rep))
        if amap:
            for p in self.paths:
                for st in list(p.cells):
                    if not isinstance(p.cells[st], list):
                        p.cells[st] = fix(p.cells[st])
                for nm in p.locals:
                    if ("L", nm) not in self.additive:
                        p.locals[nm] = fix(p.locals[nm])
                for k in p.attrs:
                    if ("A",) + k not in self.additive:
                        p.attrs[k] = (p.attrs[k][0], fix(p.attrs[k][1]))
        # ---- cell families: arrays and refined carried values
        fams = {}
        for st, inf in self.h_st.items():
            if inf["kind"] == "cells":
                fams[("S", st)] = dict(name=inf["name"], idx=inf["idx"], vals=[p.cells[st] for p in self.paths],
                                       proto=inf["proto"], st=st)
        for key, r in self.refined.items():
            if key == "done":
                continue
            ends = vs[key][2]
            vals = []
            for x, p in zip(ends, self.paths):
                if x is SAME:
                    raise Unsupported("conditionally updated carried variable %s" % (key[1],))
                vals.append(x)
            fams[key] = dict(name=r["name"], idx=self.v, vals=vals, proto=r["proto"], st=None)
        self.solved = solve_families(self, fams)
        self.fams = fams
        self.varinfo = vs

    def _apply(self):
        # ---- storages
        for st, inf in self.h_st.items():
            key = ("S", st)
            ST.journal.append(("st", st, st.snap()))
            if inf["kind"] == "cells":
                cases = self._cases(self.fams[key], self.solved[key])
                lw = LoopWrite(self.vname, ZERO, self.count, inf["idx"], cases, True)
                st.log = list(st.log) + [lw]
                st.axis = inf.get("axis", 0)
                st.version += 1
            else:
                e, s, ends = self.varinfo[key]
                if key in self.additive:
                    val = self._prefix(key, e, self.count)
                else:
                    val = self._last([x for x in ends])
                st.base, st.log, st.axis, st.whole = ("mat", val), [], 0, True
                st.version += 1
        # ---- attributes
        for key, (obj, fac) in self.h_attr.items():
            k = ("A",) + key
            ST.journal.append(("attr", obj, key[1], obj.__dict__.get(key[1], MISSING)))
            object.__setattr__(obj, key[1], self._final(k))
        # ---- locals
        out = []
        for nm, e in zip(self.names, self.entry):
            if nm not in self.h_loc:
                out.append(e)
            elif nm in self.dead:
                out.append(UNDEF)
            else:
                out.append(self._final(("L", nm)))
        self.vals = tuple(out)
        # ---- lists
        for key, l in self.h_list.items():
            self._apply_list(key, l)
        # ---- draws
        for p in self.paths:
            for d in p.draws:
                ST.draws.append(("loop", self.vname, self.count, p.facts, d))

    def _cases(self, fam, sol):
        if sol is not None and sol[0] == "spec":
            return [(True, sol[1](fam["idx"]))]
        if sol is not None:
            return [(self._guard(p), val_replace(x, sol[1])) for p, x in zip(self.paths, fam["vals"])]
        return [(self._guard(p), x) for p, x in zip(self.paths, fam["vals"])]

    def _final(self, key):
        e, s, ends = self.varinfo[key]
        if key in self.additive:
            r = self._prefix(key, e, self.count)
            if isinstance(r, Mat):
                return new_arr(r, e.dims()) if isinstance(e, Arr) else SReal(r.as_scalar())
            if isinstance(r, Sc):
                return SReal(r)
            return r
        if key in self.fams:
            fam, sol = self.fams[key], self.solved[key]
            for g, x in self._cases(fam, sol):
                if branch(subst(g, {self.vname: self.count - 1})):
                    return val_subst(x, {self.vname: self.count - 1})
            raise Unsupported("no final case")
        return self._last(ends, key if key[0] == "L" else None)

    def _last(self, ends, key=None):
        m = {self.vname: self.count - 1}
        x0 = ends[0]
        if not all(x is x0 or (is_intlike(x) and is_intlike(x0) and Lin.of(x) == Lin.of(x0)) for x in ends):
            w = (self.where, key)
            if key is not None and w not in ST.peel:
                return Poison(w)
        else:
            if x0 is SAME:
                return UNDEF
            return val_subst(val_replace(x0, self._solved_map()), m)
        for p, x in zip(self.paths, ends):
            if branch(subst(self._guard(p), m) if p.facts else True):
                if x is SAME:
                    return UNDEF
                y = val_replace(x, self._solved_map())
                return val_subst(y, m)
        raise Unsupported("no case of the last iteration applies")

    def _solved_map(self):
        out = []
        for k, s in self.solved.items():
            if s is not None:
                out.append(s[1] if s[0] != "spec" else s[2])
        return compose(out)

    def _apply_list(self, key, l):
        vals = []
        for p in self.paths:
            it = p.lists.get(key)
            if it is None or len(it[1]) != len(l) + 1:
                raise Unsupported("conditional append in a symbolic loop")
            vals.append(it[1][-1])
        n0 = len(l)
        guards = [self._guard(p) for p in self.paths]
        vn = self.vname
        mp = self._solved_map()
        vals = [val_replace(x, mp) for x in vals]
        first = builtins.list(l)

        def at(i):
            i = Lin.of(i)
            for k in range(n0):
                if branch(f_eq(i, Lin(k))):
                    return first[k]
            m = {vn: i - n0}
            for g, x in zip(guards, vals):
                if branch(subst(g, m)):
                    return val_subst(x, m)
            raise Unsupported("no case")
        ST.journal.append(("list", l, builtins.list(l), l.sym))
        l.sym = SymList(self.count + n0, at)


class _Same:
    def __repr__(self):
        return "<same>"


SAME = _Same()


def _m(x):
    if isinstance(x, (Mat, Sc)):
        return x
    if isinstance(x, Arr):
        return x.mat()
    if isinstance(x, SReal):
        return Mat.scalar(x.s)
    if isinstance(x, SInt):
        return Mat.scalar(Sc.of(x.lin))
    return Mat.scalar(Sc.of(x))


def _copyval(e):
    return e


def _snap(x):
    """a value that does not change when the storages it refers to are restored"""
    if isinstance(x, Arr):
        if x.ndim > 2:
            from .vals import freeze3
            r = new_fam(x.shape, freeze3(x), x.root().dtype)
            r.mk = x.mk
            return r
        if x.root().owner is not None:
            return x
        return new_arr(x.mat(), x.dims(), x.root().dtype, x.mk) if x.ndim else x
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[_snap(y) for y in x])
    if isinstance(x, tuple):
        return tuple(_snap(y) for y in x)
    if isinstance(x, builtins.list) and not isinstance(x, VList):
        return [_snap(y) for y in x]
    return x


def _same_shape(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.ndim == b.ndim and a.ndim <= 2 and all(same_dim(x, y) for x, y in zip(a.dims(), b.dims())) and \
            a.mk is None and b.mk is None
    if is_intlike(a) and is_intlike(b):
        return True
    if _scalarish(a) and _scalarish(b):
        return True
    if isinstance(a, tuple) and type(a) is type(b) and len(a) == len(b):
        return all(_same_shape(x, y) for x, y in zip(a, b))
    if hasattr(a, "__dict__") and type(a) is type(b) and type(a).__module__.startswith("pykalman"):
        da, db = vars(a), vars(b)
        return da.keys() == db.keys() and all(_same_shape(da[k], db[k]) for k in da)
    if isinstance(a, (str, bool, type(None))) and type(a) is type(b):
        return a == b
    return False


def _havoc_obj(end, mk):
    if _scalarish(end) and not isinstance(end, SReal):
        return SReal(mk(Sc.of(0)))
    return obj_map(end, mk)


def storage_entry_of(snap, st, i):
    s = Storage(st.shape, snap[0], st.dtype)
    s.log, s.axis = list(snap[1]), snap[2]
    return storage_entry(s, i)


def compose(maps):
    maps = [m for m in maps if m]
    if not maps:
        return None

    def rep(n):
        for m in maps:
            r = m(n)
            if r is not None:
                return r
        return None
    return rep


def val_replace(x, rep):
    if rep is None:
        return x
    if isinstance(x, (Mat, Sc)):
        return replace_nodes(x, rep)
    return obj_map(x, lambda m: replace_nodes(m, rep))


# ------------------------------------------------------------------ family solving
def leaves(x):
    out = []

    def add(m):
        out.append(m)
        return m
    if isinstance(x, (Mat, Sc)):
        return [x]
    obj_map(x, add)
    return out


def solve_families(L, fams):
    """for each cell family: ('spec', value-at(idx), replacer), ('anon', replacer) or None"""
    C = ctx()
    name2key = {f["name"]: k for k, f in fams.items()}

    def cell_of(n):
        if n.kind in ("base", "sym") and isinstance(n.args[0], tuple) and len(n.args[0]) > 2 and \
                n.args[0][0] == "cell" and n.args[0][1] == L.id:
            k = name2key.get(n.args[0][:-1])
            if k is not None:
                return k, n.args[0][-1], n.args[1]
        return None
    # candidates: functions idx -> value of the same structure (with Mats as leaves)
    cands, ptr = {}, {}
    for k, f in fams.items():
        cands[k] = candidates(f["proto"], f["idx"], L) + [None]
        if k[0] == "A":                       # families named after the attribute first
            cands[k].sort(key=lambda c: 2 if c is None else 0 if c.attr == k[-1] else 1)
        ptr[k] = 0
    dep = {}
    for k, f in fams.items():
        d = set()
        for x in f["vals"]:
            for m in leaves(x):
                for n in alg.all_nodes(m):
                    c = cell_of(n)
                    if c:
                        d.add(c[0])
        dep[k] = d

    def current(k):
        return cands[k][ptr[k]]

    def rep(n):
        c = cell_of(n)
        if c is None:
            return None
        k, leaf, j = c
        cd = current(k)
        if cd is None:
            return None
        return leaves(cd.value(j))[leaf - 1]

    def check(k, base_only=False):
        cd = current(k)
        if cd is None:
            return True
        f = fams[k]
        for p, x in zip(L.paths, f["vals"]):
            if base_only:
                if any(cell_of(n) for m in leaves(x) for n in alg.all_nodes(m)):
                    continue
            k0 = C.snapshot()
            for g in p.facts:
                C.assume(g)
            try:
                y = val_replace(x, rep)
                ok = cd.check(f["idx"], y)
            finally:
                C.restore(k0)
            if not ok:
                return False
        return True
    # sound filter on the paths that do not read earlier cells
    for k in fams:
        good = []
        for i, cd in enumerate(cands[k]):
            ptr[k] = i
            if cd is None or check(k, True):
                good.append(cd)
        cands[k] = good
        ptr[k] = 0
    keys = list(fams)
    import itertools
    combos = 1
    for k in keys:
        combos *= len(cands[k])
    done = False
    if combos <= 64:
        for combo in itertools.product(*[range(len(cands[k])) for k in keys]):
            if any(cands[k][i] is None and len(cands[k]) > 1 for k, i in zip(keys, combo)):
                continue
            for k, i in zip(keys, combo):
                ptr[k] = i
            if all(check(k) for k in keys):
                done = True
                break
        if not done:
            for k in keys:
                ptr[k] = 0
    if not done:
        while True:
            bad = [k for k in keys if not check(k)]
            if not bad:
                break
            ptr[bad[0]] += 1
    out = {}
    for k in keys:
        cd = current(k)
        if cd is not None:
            record("invariant", L.where, "%s = %s" % (keyname(k), cd.name), True)
            out[k] = ("spec", cd.value, rep)
        else:
            out[k] = None
    for k in keys:
        for x in fams[k]["vals"]:
            if any(alg.bad_factors(m) for m in leaves(x)) and any(alg.bad_factors(m) for m in leaves(val_replace(x, rep))):
                raise Unsupported("Cholesky factor of a loop value that is not known to be symmetric (%s)" % L.where)
    # anonymous families for the rest that is self-dependent
    reps = None
    for k in keys:
        if out[k] is None:
            f = fams[k]
            xs = [val_replace(x, rep) for x in f["vals"]]
            f["vals"] = xs
            rest = {cell_of(n)[0] for x in xs for m in leaves(x) for n in alg.all_nodes(m) if cell_of(n)}
            if rest:
                record("recurrence", L.where, "%s has no matching invariant" % keyname(k), None)
                FAMS.define_cells(L, k, f, [p.facts for p in L.paths])
    return out


def keyname(k):
    return str(k[1].name if k[0] == "S" else k[1:]) if not (k[0] == "S" and k[1].name is None) else \
        "array#%d" % k[1].birth


# ------------------------------------------------------------------ comprehensions
def listcomp(it, elt, conds):
    t = npmodel.to_iter(it)
    if t is None:
        return builtins.list(_gen(it, elt, conds))
    if conds:
        raise Unsupported("filtered comprehension over a symbolic iterable")
    n, at = t
    return SymList(n, lambda i: elt(at(i)))


def _gen(it, elt, conds):
    for x in it:
        if builtins.all(bool(c(x)) for c in conds):
            yield elt(x)


def genexp(it, elt, conds):
    if npmodel.to_iter(it) is not None:
        return listcomp(it, elt, conds)
    return _gen(it, elt, conds)


def unpack(spec, x):
    """values bound by the assignment target `spec` (nested tuples of names)"""
    import ast as _ast
    t = _ast.parse(spec, mode="eval").body

    def go(t, x):
        if isinstance(t, _ast.Name):
            return [x]
        out = []
        xs = builtins.list(x)
        if len(xs) != len(t.elts):
            raise ValueError("unpack")
        for a, b in zip(t.elts, xs):
            out += go(a, b)
        return out
    return go(t, x)


def both(c):
    """drives the body of a conditional that changes nothing but names read only inside of it:
    the body is executed when its condition may hold, and the path is not split"""
    if not isinstance(c, SBool):
        if c:
            yield None
        return
    C = ctx()
    d = C.decide(c.f)
    if d is False:
        return
    k = C.snapshot()
    if d is None:
        C.assume(c.f)
    try:
        yield None
    finally:
        C.restore(k)
