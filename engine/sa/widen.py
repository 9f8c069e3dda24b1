"""Loop heads: subsumption and widening of abstract states.

A state is flattened, from its live registers and everything reachable from
them, into a token list (shape, with objects and fresh symbols numbered in
order of discovery) and a list of numeric leaves.  Two states with the same
tokens differ only in their numeric leaves and constraints; those are joined
by replacing differing leaves with fresh atoms and keeping the linear facts
that hold in both states."""
from .dom import *

class Walk:
    def __init__(self, I, st, repl=None):
        self.I = I; self.st = st; self.tok = []; self.leaves = []; self.oid = {}; self.fid = {}; self.queue = []
        self.repl = repl; self.n = 0; self.rigid = set()
    def leaf(self, v):
        self.tok.append("#")
        i = len(self.leaves); self.leaves.append(v)
        if self.repl is not None: return self.repl[i]
        return v
    def obj(self, o):
        if o.__class__ is T and o.op == "obj" and o.args and o.args[-1].__class__ is int:
            i = self.oid.get(o)
            if i is None:
                i = self.oid[o] = len(self.oid); self.queue.append(o)
            return ("O", i)
        if o.__class__ is T and o.op == "obj" or o.__class__ is tuple:
            if o not in self.oid: self.oid[o] = -1; self.queue.append(o)
        return o
    def term(self, t):
        """token for a term; returns possibly rewritten term"""
        if t.op == "obj": self.tok.append(self.obj(t)); return t
        if t.__class__ is T and t.op.__class__ is str and "#" in t.op and not t.args:
            i = self.fid.setdefault(t, len(self.fid)); self.tok.append(("F", i)); return t
        self.tok.append(t.op); self.tok.append(len(t.args))
        if not t.args: return t
        ch = False; out = []
        for a in t.args:
            if t.op == "elem" and is_num(a): b = self.leaf(a)
            elif a.__class__ is T: b = self.term(a)
            else:
                b = a; self.tok.append(a)
            ch = ch or b is not a; out.append(b)
        return T(t.op, *out) if ch else t
    def value(self, v):
        c = v.__class__
        if c is int or c is Lin: return self.leaf(v)
        if c is T: return self.term(v)
        if c is Ptr:
            self.tok.append("P"); self.tok.append(self.obj(v.o))
            inf = self.st.objs.get(v.o)
            if inf is not None and inf.get("kind") == "array" and inf["es"] > 1 and v.off.__class__ is not int:
                ix = self.I.div_exact(v.off, inf["es"])
                if ix is not None:
                    self.tok.append("ix"); r = self.leaf(ix)
                    return v if r is ix else Ptr(v.o, lscale(r, inf["es"]))
            elif inf is not None and inf.get("kind") == "array" and inf["es"] > 1 and v.off % inf["es"] == 0:
                self.tok.append("ix"); r = self.leaf(v.off // inf["es"])
                return Ptr(v.o, lscale(r, inf["es"]))
            off = self.leaf(v.off)
            return v if off is v.off else Ptr(v.o, off)
        if c is BV:
            self.tok.append("BV")
            ats = {}
            out = []
            for x in v.b:
                if x.__class__ is int: self.tok.append(x); out.append(x); continue
                a = x[-2]
                if a not in ats:
                    n = len(self.tok); r = self.term(a) if a.__class__ is T else a
                    ats[a] = (len(ats), r)
                self.tok.append((ats[a][0], x[-1], len(x)))
                out.append(x[:-2] + (ats[a][1], x[-1]))
            return BV(tuple(out))
        if c is Agg:
            self.tok.append(("A", len(v)))
            return Agg([self.value(x) for x in v])
        if c is tuple:
            self.tok.append(("t", len(v)))
            return tuple([self.value(x) for x in v])
        if c is list:
            self.tok.append(("l", len(v)))
            return [self.value(x) for x in v]
        if c is dict:
            ks = sorted(v, key=repr); self.tok.append(("d", tuple(map(repr, ks))))
            return {k: self.value(v[k]) for k in ks}
        if c is bool: self.tok.append(v); return v
        if callable(v): self.tok.append(getattr(v, "__qualname__", repr(v))); return v
        self.tok.append(v if c in (str, frozenset, type(None)) else repr(v))
        return v
    def run(self):
        st = self.st; top = len(st.frames) - 1
        bits = st.bits
        cur = self.I.opts.get("cursor"); pos0 = st.mon.get(cur) if cur else None
        for i, f in enumerate(st.frames):
            live = f.fn.live_at(f.bb, f.pc if i == top else f.pc + 1)
            self.tok.append((f.fn.name, f.bb, f.pc, getattr(f.post, "__qualname__", None)))
            nr = {}
            for r in live:
                if r not in f.regs: continue
                self.tok.append(r)
                v = f.regs[r]
                if bits and v.__class__ is BV: v = bv_subst(v, bits)
                if v.__class__ is int and small_reg(f.fn, r): self.tok.append(v); nr[r] = v
                else: nr[r] = self.value(v)
            if self.repl is not None: f.regs = nr
            if f.va is not None: f.va = self.value(f.va)
        for nm in ("mon", "ghost"):
            self.tok.append(nm)
            v = self.value(getattr(st, nm))
            if self.repl is not None: setattr(st, nm, v)
        self.tok.append(repr(st.exc)); self.value(tuple(st.caught))
        k = 0; mem2 = {}; objs2 = {}; models2 = {}
        bym = {}
        for key in st.models: bym.setdefault(key[0], []).append(key)
        for key in sorted(bym.get("*", []), key=repr):
            self.tok.append(key); models2[key] = self.value(st.models[key])
        while k < len(self.queue):
            o = self.queue[k]; k += 1
            if o not in st.objs: self.tok.append("gone"); continue
            info = st.objs[o]
            self.tok.append(("obj", info["kind"]))
            if info["kind"] == "global" and info.get("const"): continue
            ni = {}
            for key in sorted(info):
                if key == "kind": ni[key] = info[key]; continue
                self.tok.append(key)
                ni[key] = self.value(info[key])
            m = st.mem[o]; nm = {}
            for off in sorted(m, key=repr):
                sz, v = m[off]
                self.tok.append((off, sz))
                if bits and v.__class__ is BV: v = bv_subst(v, bits)
                if v.__class__ is int and sz == 1 and info["kind"] not in ("shared", "fnode"): self.tok.append(v); nm[off] = (sz, v)
                else: nm[off] = (sz, self.value(v))
            for key in sorted(bym.get(o, []), key=repr):
                self.tok.append(("m", key[1], key[2:]))
                models2[key] = self.value(st.models[key])
            mem2[o] = nm; objs2[o] = ni
        if self.repl is not None:
            for o in mem2: st.mem[o] = mem2[o]; st.objs[o] = objs2[o]
            st.models.update(models2)
        # facts
        def known(t):
            if t.__class__ is not T: return True
            if t.op == "obj": return t in self.oid or not (t.args and t.args[-1].__class__ is int)
            if t.op.__class__ is str and "#" in t.op and not t.args: return t in self.fid
            if t.op == "elem" and any(a.__class__ is Lin for a in t.args): return False
            return all(known(a) for a in t.args)
        facts = []
        for t, v in st.tf.items():
            if known(t): facts.append((t, v))
        ft = []
        for t, v in facts:
            n = len(self.tok); self.term(t); tk = tuple(self.tok[n:]); del self.tok[n:]; ft.append((repr(tk), v))
        self.tok.append(tuple(sorted(ft)))
        bt = []; keepb = {}
        for (a, i), v in st.bits.items():
            if cur and a.__class__ is T and a.op == "elem":
                # facts about input units not consumed yet are kept, relative to the cursor
                d = lsub(a.args[1], pos0)
                if d.__class__ is int and d >= 0:
                    bt.append((repr((a.args[0], d)), i, v)); keepb[(T("elem", a.args[0], ladd(st.mon[cur], d)), i)] = v
                continue
            if known(a):
                n = len(self.tok); self.term(a) if a.__class__ is T else self.tok.append(a); tk = repr(self.tok[n:]); del self.tok[n:]
                bt.append((tk, i, v)); keepb[(a, i)] = v
        self.tok.append(tuple(sorted(bt)))
        self.keep = (dict(facts), keepb)
        if self.repl is not None: st.tf, st.bits = self.keep
        return self

def small_reg(fn, r):
    m = getattr(fn, "_small", None)
    if m is None:
        m = set()
        for i, a in enumerate(fn.args):
            if a["ty"] in ("i1", "i8"): m.add(i)
        for b in fn.blocks:
            for ins in b:
                if ins.id is not None and ins.ty in ("i1", "i8"): m.add(ins.id)
        fn._small = m
    return r in m

def bindable(a):
    return a.__class__ is T and a.op.__class__ is str and "#" in a.op and not a.args

class Entry:
    __slots__ = ("st", "tok", "leaves", "num", "visits", "fid", "keep", "dist", "exact")

def flat(I, st):
    w = Walk(I, st).run()
    e = Entry(); e.st = st; e.tok = w.tok; e.leaves = w.leaves; e.visits = 1; e.exact = False; e.fid = w.fid; e.keep = w.keep
    live = set(w.fid)
    for l in e.leaves: live.update(latoms(l))
    def keep(a): return (a in live) or not bindable(a) and atoms_ok(a, live)
    e.num = st.num.project(keep)
    return e
def atoms_ok(a, live):
    """non-bindable atoms are kept unless built from dead bindable ones"""
    if a.__class__ is not T: return True
    for x in a.args:
        if x.__class__ is T:
            if bindable(x) and x not in live: return False
            if not atoms_ok(x, live): return False
        elif x.__class__ is Lin:
            for y, _ in x.t:
                if bindable(y) and y not in live: return False
    return True

def subsumed(S, O):
    """is S covered by O?"""
    if S.tok != O.tok: return False
    b = {}
    rev = {i: t for t, i in S.fid.items()}
    for t, i in O.fid.items(): b[t] = atom(rev[i])
    todo = []
    for o, s in zip(O.leaves, S.leaves):
        if o.__class__ is int:
            if not (s == o or S.num.entails_eq(lsub(s, o))): return False
            continue
        if len(o.t) == 1 and o.c == 0 and o.t[0][1] == 1 and bindable(o.t[0][0]) and o.t[0][0] not in b:
            b[o.t[0][0]] = s; continue
        todo.append((o, s))
    prog = True
    while todo and prog:
        prog = False; nxt = []
        for o, s in todo:
            un = [(x, q) for x, q in o.t if bindable(x) and x not in b]
            if not un:
                if not S.num.entails_eq(lsub(lsubst(o, b), s)): return False
                prog = True
            elif len(un) == 1 and abs(un[0][1]) == 1:
                x, q = un[0]
                rest = lsubst(ladd(o, atom(x), -q), b)
                b[x] = lscale(lsub(s, rest), q); prog = True
            else: nxt.append((o, s))
        todo = nxt
        if todo and not prog:
            # several free symbols: keep a symbol of O as itself, or bind all but one to themselves
            o, s = todo[0]
            for x, q in o.t:
                if bindable(x) and x not in b and (o == s or any(x == y for y in latoms(s))): b[x] = atom(x); prog = True; break
            if not prog:
                for x, q in o.t[1:]:
                    if bindable(x) and x not in b: b[x] = 0; prog = True; break
    if todo: return False
    for f in O.num.ge:
        if any(bindable(x) and x not in b for x, _ in f.t): continue
        if not S.num.entails(lsubst(f, b)): return False
    return True

def join_pair(I, O, S, st, narrow=False):
    """widen O with S: returns the joined state (a modified copy of st) or None"""
    if S.tok != O.tok: return None
    pairs = {}; repl = []; new = {}
    J = st.copy()
    order = []
    for o, s in zip(O.leaves, S.leaves):
        # an expression shared by both states keeps its symbols
        if o != s and (o, s) not in pairs: pairs[(o, s)] = None; order.append((o, s))
    def weight(p):
        d = lsub(p[1], p[0])
        return (max([abs(q) for l in p if l.__class__ is Lin for _, q in l.t] or [0]), abs(d) if d.__class__ is int else 0)
    order.sort(key=weight)
    done = []  # (o, s, atom)
    stay = set(); ratios = []
    for o, s in zip(O.leaves, S.leaves):
        if o == s: stay.update(latoms(o))
    for o, s in order:
        d = lsub(s, o); e = None; ratio = []
        for o2, s2, a2 in done:
            d2 = lsub(s2, o2)
            if I.opts.get("arrgep") and d.__class__ is int and d2.__class__ is int and d and d2 % d == 0 and abs(d2) > abs(d):
                # the other one moves a multiple of this one
                k = d2 // d; c = lsub(o2, lscale(o, k))
                if c == lsub(s2, lscale(s, k)) and (c.__class__ is int or not any(bindable(x) and x not in stay for x in latoms(c))): ratio.append((a2, k, c))
            ks = [1, -1, 2, 4, 8, 16, 24, 32]
            if d.__class__ is int and d2.__class__ is int and d2 and d % d2 == 0: ks = [d // d2]
            elif d.__class__ is int and d2.__class__ is int: continue
            for k in ks:
                c = lsub(o, lscale(o2, k))
                # o = k*o2 + c and s = k*s2 + c with c the same in both
                if c == lsub(s, lscale(s2, k)) and (c.__class__ is int or not any(x in new or bindable(x) and x not in stay for x in latoms(c))):
                    e = ladd(lscale(a2, k), c); break
            if e is not None: break
        if e is None:
            a = atom(J.fresh("w")); new[a.t[0][0]] = (o, s)
            e = a; done.append((o, s, a))
        for a2, k, c in ratio: ratios.append(lsub(a2, ladd(lscale(e, k), c)))
        pairs[(o, s)] = e
    for o, s in zip(O.leaves, S.leaves):
        repl.append(s if o == s else pairs[(o, s)])
    # facts valid in both
    facts = set()
    def try_fact(fo, fs, f):
        """fo/fs: instance of f (>=0) in O and S"""
        if O.num.entails(fo) and S.num.entails(fs):
            if f.__class__ is not int: facts.add(f)
            return True
        return False
    for f in ratios:
        if f.__class__ is Lin: facts.add(f); facts.add(lscale(f, -1))
    shared = [l for l in O.num.ge if not any(bindable(x) and x in new for x, _ in l.t)]
    for l in (set(O.num.ge) if narrow else set(O.num.ge) | set(S.num.ge)):
        try_fact(l, l, l)
    if narrow:
        # the ranges of unknowns that never change stay (a sharper fact may have hidden them in the old state)
        for l in S.num.ge:
            if len(l.t) == 1 and not bindable(l.t[0][0]) and (l.c == 0 and l.t[0][1] == 1 or l.t[0][1] == -1 and (l.c == 1 or l.c >= 127)): try_fact(l, l, l)
    # facts of O about leaves that were plain atoms
    mo = {}
    for (o, s), e in pairs.items():
        if o.__class__ is Lin and len(o.t) == 1 and o.c == 0 and o.t[0][1] == 1: mo.setdefault(o.t[0][0], (s, e))
    if narrow: old_facts(O, S, pairs, try_fact)
    elif mo:
        ms = {k: v[0] for k, v in mo.items()}; me = {k: v[1] for k, v in mo.items()}
        for l in O.num.ge:
            if any(x in mo for x, _ in l.t):
                try_fact(l, lsubst(l, ms), lsubst(l, me))
    rig = set()
    for l in list(O.leaves) + list(S.leaves):
        rig.update(latoms(l))
    for n in (O.num, S.num):
        for l in n.ge: rig.update(x for x, _ in l.t)
    live = set()
    for l in repl: live.update(latoms(l))
    for t in S.fid: live.add(t)
    rig = [x for x in rig if not (bindable(x) and (x in new or x not in live)) and atoms_ok(x, live)]
    refs = [(0, 0, 0)] + [(atom(x), atom(x), atom(x)) for x in sorted(rig, key=repr)[:24]]
    news = [(o, s, atom(a)) for a, (o, s) in new.items()]
    news += [(o, s, e) for (o, s), e in sorted(pairs.items(), key=repr) if e.__class__ is Lin and (len(e.t) > 1 or e.c or e.t[0][1] != 1)][:12]
    for i, (o, s, a) in enumerate(news):
        for ro, rs, r in refs + news[:i]:
            for sg in (1, -1):
                # sg*(a - r) >= c
                fo = lscale(lsub(o, ro), sg); fs = lscale(lsub(s, rs), sg); f = lscale(lsub(a, r), sg)
                if f.__class__ is int: continue
                cands = []
                for v in (fo, fs):
                    if v.__class__ is int: cands.append(v)
                cs = ([min(cands)] if len(cands) == 2 and fo.__class__ is int and fo <= fs else []) + [c for c in (cands[:1] if fo.__class__ is int else [])]
                if narrow: cs = []
                cs += [1, 0, -1]
                for c in sorted(set(cs), reverse=True):
                    if try_fact(ladd(fo, -c), ladd(fs, -c), ladd(f, -c)): break
    return close_join(I, J, facts, repl)

def close_join(I, J, facts, repl):
    num = Num()
    for f in sorted(prune(facts), key=repr):
        n2 = num.add(f)
        if n2 is None: return None
        num = n2
    J.num = num
    w = Walk(I, J, repl).run()
    J.num = num
    return J

def old_facts(O, S, pairs, try_fact):
    """late widening: only facts of the old state may survive, so the chain is finite"""
    import itertools
    opts = {}
    for (o, s), e in pairs.items():
        if o.__class__ is Lin and len(o.t) == 1 and o.c == 0 and o.t[0][1] == 1:
            l = opts.setdefault(o.t[0][0], [])
            if (s, e) not in l: l.append((s, e))
    for o, s in zip(O.leaves, S.leaves):
        if o == s and o.__class__ is Lin and len(o.t) == 1 and o.c == 0 and o.t[0][1] == 1 and o.t[0][0] in opts:
            l = opts[o.t[0][0]]
            if (s, o) not in l: l.append((s, o))
    for l in O.num.ge:
        xs = [x for x, _ in l.t if x in opts]
        if not xs: continue
        n = 0
        for ch in itertools.product(*[opts[x] for x in xs]):
            n += 1
            if n > 64: break
            ms = {x: c[0] for x, c in zip(xs, ch)}; me = {x: c[1] for x, c in zip(xs, ch)}
            try_fact(l, lsubst(l, ms), lsubst(l, me))

def distances(I, st, e):
    """states in which an index keeps a different constant distance to the cursor are not merged"""
    cur = I.opts.get("cursor"); p = st.mon.get(cur) if cur else None
    if p.__class__ is not Lin: return ()
    r = []
    for l in e.leaves:
        d = lsub(l, p) if l.__class__ is Lin else None
        r.append(d if d.__class__ is int and abs(d) <= 8 else None)
    return tuple(r)

def join(I, st, lst, widen_after):
    """returns None if st is already covered, else the state to continue with"""
    S = flat(I, st)
    if I.opts.get("progress"):
        # the same state twice at one loop head of one path: the loop repeats for ever
        hs = dict(st.heads); key = tuple((f.fn.name, f.bb, f.pc) for f in st.frames); P = hs.get(key)
        if P is not None and P[0] == S.tok and P[1] == S.leaves and P[2] == list(S.fid):
            from .interp import Violation
            raise Violation("no-progress", "the loop can repeat without any change, so it need not terminate")
        hs[key] = (S.tok, S.leaves, list(S.fid)); st.heads = tuple(hs.items())
    for O in lst:
        if subsumed(S, O): return None
    S.dist = distances(I, st, S)
    same = [O for O in lst if O.tok == S.tok and not any(x is not None and y is not None and x != y for x, y in zip(O.dist, S.dist))]
    if len(lst) > 400:
        from .interp import Undecided
        raise Undecided("loop did not converge")
    limit = widen_after
    if not st.wide and I.opts.get("exact_visits") and not (I.opts.get("exact_skip") and any(I.opts["exact_skip"] in f.fn.norm for f in st.frames)):
        # a path that has seen this loop head only a few times stays exact, up to a number of such states
        k = tuple((f.fn.name, f.bb, f.pc) for f in st.frames); d = dict(st.visits); d[k] = d.get(k, 0) + 1; st.visits = tuple(d.items())
        if d[k] <= I.opts["exact_visits"] and len(same) < I.opts["exact_max"]: S.exact = True; limit = I.opts["exact_max"]
    if not S.exact: same = [O for O in same if not O.exact]
    if len(same) < limit:
        st.num = S.num; st.tf, st.bits = dict(S.keep[0]), dict(S.keep[1])
        lst.append(S)
        return st
    O = same[-1]
    J = join_pair(I, O, S, st, O.visits >= 4)
    if J is None:
        st.tf, st.bits = dict(S.keep[0]), dict(S.keep[1])
        lst.append(S); return st
    J.trace = st.trace
    e = flat(I, J)
    e.visits = O.visits + 1; e.dist = distances(I, J, e)
    if e.visits > 40:
        from .interp import Undecided
        raise Undecided("widening did not converge")
    lst.remove(O)
    lst.append(e)
    J.num = e.num; J.wide = True
    if I.opts.get("progress"):
        hs = dict(J.heads); hs[tuple((f.fn.name, f.bb, f.pc) for f in J.frames)] = (e.tok, e.leaves, list(e.fid)); J.heads = tuple(hs.items())
    return J
