"""Shape domain for std::list and std::map (libstdc++): a list is a sequence of
explicit nodes and segments of unknown length, a map is a set of explicit
entries and of segments of entries, each entry of which holds an iterator to
the node of the same content.  Everything above the link operations (hooking,
rebalancing, lookup) is interpreted from the library's source.

A content segment ("seg", sid, length) stands for that many distinct
(key, value) pairs; a list holds copies of it as ("seg", sid, length, cid),
where cid tells apart different node families for the same contents; a map
holds ("eseg", sid, cid): one entry per pair, pointing to the nodes of
family cid.  Segments are split when an element inside becomes visible and
folded back at loop heads."""
from .dom import *
from .interp import *

DBG = False
KOFF = 16      # element in a list node
EOFF = 32      # pair in a tree node

class Shape:
    def __init__(self, vo=8, io=16, names=("K", "V")):
        self.vo = vo; self.io = io; self.K, self.V = names
        self.access = None   # callback(I, st, write, what)
    # ---------------------------------------------------------------- helpers
    def acc(self, I, st, write, what, owner=None):
        if self.access: self.access(I, st, write, what, owner)
    def lists(self, st): return [(k, v) for k, v in st.models.items() if v.__class__ is tuple and v and v[0] == "list"]
    def maps(self, st): return [(k, v) for k, v in st.models.items() if v.__class__ is tuple and v and v[0] == "map"]
    def canon(self, st, t):
        k = st.ghost.get("k")
        if t == KARG and k.__class__ is tuple: return T("key", k[1])
        return t
    def val(self, st, p, what="value"):
        v = st.models.get((p.o, p.off)) if p.__class__ is Ptr else None
        if p.__class__ is Ptr and p.o is not None and st.objs.get(p.o, {}).get("dead"): raise Violation("use-after-lifetime", "a %s is read after its node was destroyed" % what)
        if v is None or v[0] != "val": raise Violation("invalid-read", "a %s is read where there is none" % what)
        return v[1]
    # ---------------------------------------------------------------- splitting
    def split(self, st, sid, mode):
        """make one element of content segment sid explicit; returns its content, or None if that is impossible"""
        c = st.fresh("c"); L = None
        for nm, items in st.ghost["pre"].items():
            for it in items:
                if it[0] == "seg" and it[1] == sid: L = it[2]
        if L is None: raise Undecided("segment lost")
        if not st.assume_ge(ladd(L, -1)): return None
        if mode == "first": nl, nr = None, ladd(L, -1)
        elif mode == "last": nl, nr = ladd(L, -1), None
        else:
            nl = atom(st.fresh("n")); nr = lsub(ladd(L, -1), nl)
            if not (st.assume_ge(nl) and st.assume_ge(nr)): return None
        sl = st.fresh("s") if nl is not None else None; sr = st.fresh("s") if nr is not None else None
        fam = {}
        for k, (_, items) in self.lists(st):
            for it in items:
                if it[0] == "seg" and it[1] == sid: fam[it[3]] = True
        for k, v in self.maps(st):
            for e in v[2]:
                if e[1] == sid: fam.setdefault(e[2], False)
        node = {}
        for cid, live in fam.items():
            o = st.new_obj("heap", KOFF + 8, name="list node")
            if live: st.models[(o, KOFF)] = ("val", T("key", c))
            else: st.objs[o] = dict(st.objs[o], dead=True)
            node[cid] = o
        for k, (_, items) in self.lists(st):
            out = []
            for it in items:
                if it[0] == "seg" and it[1] == sid:
                    if sl: out.append(("seg", sl, nl, it[3]))
                    out.append(("node", node[it[3]]))
                    if sr: out.append(("seg", sr, nr, it[3]))
                else: out.append(it)
            st.models[k] = ("list", tuple(out))
        for k, v in self.maps(st):
            es = list(v[1]); eseg = []
            for e in v[2]:
                if e[1] != sid: eseg.append(e); continue
                if sl: eseg.append(("eseg", sl, e[2]))
                if sr: eseg.append(("eseg", sr, e[2]))
                E = st.new_obj("heap", EOFF + 24, name="map node")
                st.models[(E, EOFF)] = ("val", T("key", c)); st.models[(E, EOFF + self.vo)] = ("val", T("val0", c))
                st.mem[E] = {EOFF + self.io: (8, Ptr(node[e[2]], 0))}
                es.append(E)
            st.models[k] = ("map", tuple(es), tuple(eseg))
        pre = {}
        for nm, items in st.ghost["pre"].items():
            out = []
            for it in items:
                if it[0] == "seg" and it[1] == sid:
                    if sl: out.append(("seg", sl, nl))
                    out.append(("c", c))
                    if sr: out.append(("seg", sr, nr))
                else: out.append(it)
            pre[nm] = tuple(out)
        st.ghost["pre"] = pre
        return c
    def empty(self, st, sid, L):
        """the segment is empty: drop it everywhere"""
        if not st.assume_eq(L): return False
        for k, (_, items) in self.lists(st): st.models[k] = ("list", tuple(i for i in items if not (i[0] == "seg" and i[1] == sid)))
        for k, v in self.maps(st): st.models[k] = ("map", v[1], tuple(e for e in v[2] if e[1] != sid))
        st.ghost["pre"] = {n: tuple(i for i in items if not (i[0] == "seg" and i[1] == sid)) for n, items in st.ghost["pre"].items()}
        return True
    def force(self, st, it, mode):
        """a neighbour inside segment it is needed: split the state"""
        alts = []
        a = st.copy()
        if self.empty(a, it[1], it[2]): alts.append(a)
        b = st.copy()
        if self.split(b, it[1], mode) is not None: alts.append(b)
        raise Split(alts)
    # ---------------------------------------------------------------- lists
    def find_list(self, st, p):
        """(key, index of the position) for a sentinel or node pointer"""
        if p.__class__ is not Ptr: return None
        for k, (_, items) in self.lists(st):
            if k == (p.o, p.off): return k, items, len(items)
            if p.off == 0:
                for i, it in enumerate(items):
                    if it[0] == "node" and it[1] == p.o: return k, items, i
        return None
    def neighbour(self, I, st, k, items, i, fwd):
        j = i + 1 if fwd else i - 1
        if i == len(items): j = 0 if fwd else len(items) - 1
        if j < 0 or j >= len(items): return Ptr(k[0], k[1])
        it = items[j]
        if it[0] == "node": return Ptr(it[1], 0)
        self.force(st, it, "first" if fwd else "last")
    def on_load(self, I, st, p, size, ty):
        if p.off.__class__ is not int: return None
        for d, fwd in ((0, True), (8, False)):
            q = Ptr(p.o, p.off - d)
            m = st.models.get((q.o, q.off))
            if m is not None and m.__class__ is tuple and m[0] == "list" or (q.off == 0 and any(it[0] == "node" and it[1] == q.o for _, v in self.lists(st) for it in v[1])):
                r = self.find_list(st, q); self.acc(I, st, False, "the recency list", r[0])
                return self.neighbour(I, st, *r, fwd)
        for d in (8, 16, 24):
            m = st.models.get((p.o, p.off - d))
            if m is not None and m.__class__ is tuple and m[0] == "map":
                self.acc(I, st, False, "the map", (p.o, p.off - d))
                if d == 8:
                    n = st.mem[p.o].get(p.off - 8 + 32)
                    if n is None: raise Undecided("map size unknown")
                    return Ptr(p.o, p.off - 8) if I.split_ge(st, ladd(n[1], -1)) else NULL
                raise Undecided("order of the map's keys")
        self.owned(I, st, p, False)
        return None
    def owned(self, I, st, p, write):
        """plain accesses to list sizes, map sizes and entries"""
        if not self.access or p.off.__class__ is not int: return
        for k, v in list(st.models.items()):
            if v.__class__ is not tuple or not v: continue
            if v[0] == "list" and (k[0] == p.o and k[1] <= p.off < k[1] + 24 or any(i[0] == "node" and i[1] == p.o for i in v[1])): self.acc(I, st, write, "the recency list", k)
            if v[0] == "map" and (k[0] == p.o and k[1] <= p.off < k[1] + 40 or p.o in v[1]): self.acc(I, st, write, "the map", k)
    def on_store(self, I, st, p, size, v):
        if p.off.__class__ is not int: return
        m = st.models.get((p.o, p.off)) or st.models.get((p.o, p.off - 8))
        if m is not None and m.__class__ is tuple and m[0] == "list": raise Undecided("links of a list are written directly")
        self.owned(I, st, p, True)
    # ---------------------------------------------------------------- presence
    def present(self, st, mk, t):
        M = st.models[mk]; t = self.canon(st, t)
        for E in M[1]:
            if self.canon(st, self.val(st, Ptr(E, EOFF), "key")) == t: return E
        if t != KARG: return None
        k = st.ghost.get("k")
        if k == "absent": return None
        self.decide_key(st)
    def decide_key(self, st):
        no = st.ghost.get("kne", ()); alts = []
        a = st.copy(); a.ghost["k"] = "absent"; alts.append(a)
        for nm, items in sorted(st.ghost["pre"].items()):
            for it in items:
                if it[0] == "c" and it[1] not in no:
                    b = st.copy(); b.ghost["k"] = ("c", it[1]); alts.append(b)
                elif it[0] == "seg":
                    b = st.copy(); c = self.split(b, it[1], "mid")
                    if c is not None: b.ghost["k"] = ("c", c); alts.append(b)
        raise Split(alts)
    def same_key(self, st, a, b):
        a = self.canon(st, a); b = self.canon(st, b)
        if a == b: return True
        if KARG not in (a, b): return False
        o = b if a == KARG else a
        if st.ghost.get("k") == "absent" or o.op != "key": return False
        if o.args[0] in st.ghost.get("kne", ()): return False
        x = st.copy(); x.ghost["k"] = ("c", o.args[0])
        y = st.copy(); y.ghost["kne"] = y.ghost.get("kne", ()) + (o.args[0],)
        raise Split([x, y])
    # ---------------------------------------------------------------- folding
    def fold(self, I, st):
        """merge explicit contents that nothing refers to into the neighbouring segment"""
        ch = True
        while ch:
            ch = False
            for nm, items in sorted(st.ghost["pre"].items()):
                for i, it in enumerate(items):
                    if it[0] != "seg": continue
                    if (it[2] == 0 or st.num.entails_eq(it[2])) and self.empty(st, it[1], it[2]): ch = True; break
                    if i and items[i - 1][0] == "seg" and self.merge(st, nm, items, i): ch = True; break
                if ch: break
                for i, it in enumerate(items):
                    if it[0] == "c" and self.fold_one(I, st, nm, items, i): ch = True; break
                if ch: break
    def refs(self, st, objs):
        for i, f in enumerate(st.frames):
            live = f.fn.live_at(f.bb, f.pc if i == len(st.frames) - 1 else f.pc + 1)
            for r in live:
                v = f.regs.get(r)
                if v.__class__ is Ptr and v.o in objs: return True
                if v.__class__ is Agg and any(x.__class__ is Ptr and x.o in objs for x in v): return True
        for o, m in st.mem.items():
            if o in objs: continue
            for x in m.values():
                if x[1].__class__ is Ptr and x[1].o in objs:
                    if DBG: print("REF", o, st.objs[o], [(f.fn.norm, [a for a in f.allocas]) for f in st.frames if o in f.allocas])
                    return True
        return False
    def merge(self, st, nm, items, i):
        """two neighbouring segments that are neighbours everywhere become one"""
        a, b = items[i - 1], items[i]; fa = set(); fb = set(); new = {}
        sid = st.fresh("s"); n = ladd(a[2], b[2])
        for k, (_, its) in self.lists(st):
            out = []; j = 0
            while j < len(its):
                x = its[j]
                if x[0] == "seg" and x[1] == a[1]:
                    if j + 1 == len(its) or its[j + 1][0] != "seg" or its[j + 1][1] != b[1] or its[j + 1][3] != x[3]: return False
                    out.append(("seg", sid, n, x[3])); j += 2; continue
                if x[0] == "seg" and x[1] == b[1]: return False
                out.append(x); j += 1
            new[k] = ("list", tuple(out))
        for k, v in self.maps(st):
            ea = {e[2] for e in v[2] if e[1] == a[1]}; eb = {e[2] for e in v[2] if e[1] == b[1]}
            if ea != eb: return False
            new[k] = ("map", v[1], tuple(e for e in v[2] if e[1] not in (a[1], b[1])) + tuple(("eseg", sid, c) for c in sorted(ea, key=repr)))
        st.models.update(new)
        st.ghost["pre"] = dict(st.ghost["pre"]); st.ghost["pre"][nm] = items[:i - 1] + (("seg", sid, n),) + items[i + 1:]
        return True
    def fold_one(self, I, st, nm, items, i):
        c = items[i][1]; kt = T("key", c)
        if st.ghost.get("k") == ("c", c): return False
        nodes = []; ents = []
        for k, (_, its) in self.lists(st):
            for j, x in enumerate(its):
                if x[0] == "node" and st.models.get((x[1], KOFF)) == ("val", kt): nodes.append((k, j, x[1]))
        for k, v in self.maps(st):
            for E in v[1]:
                if st.models.get((E, EOFF)) == ("val", kt): ents.append((k, E))
        objs = {n[2] for n in nodes} | {e[1] for e in ents}
        if self.refs(st, objs): return False
        if not nodes and not ents:
            # the content is gone
            j = i; n = 1; lo = i; hi = i + 1
            if i and items[i - 1][0] == "gone": n = ladd(items[i - 1][1], 1); lo = i - 1
            if hi < len(items) and items[hi][0] == "gone": n = ladd(items[hi][1], n); hi += 1
            st.ghost["pre"] = dict(st.ghost["pre"]); st.ghost["pre"][nm] = items[:lo] + (("gone", n),) + items[hi:]
            return True
        prev = items[i - 1] if i and items[i - 1][0] == "seg" else None
        # families: every list holds at most one node for c, directly after the previous segment
        fam = []; used = set()
        for k, j, o in nodes:
            its = st.models[k][1]
            if prev:
                if j == 0 or its[j - 1][0] != "seg" or its[j - 1][1] != prev[1]: return False
                cid = its[j - 1][3]
            else: cid = T("own", k[0], k[1])
            if cid in used: return False
            used.add(cid); fam.append((k, j, o, cid))
        byo = {o: cid for _, _, o, cid in fam}
        ec = []
        for k, E in ents:
            it = st.mem[E].get(EOFF + self.io); v = st.models.get((E, EOFF + self.vo))
            if v != ("val", T("val0", c)) or it is None or it[1].__class__ is not Ptr or it[1].off != 0 or it[1].o not in byo: return False
            if prev and ("eseg", prev[1], byo[it[1].o]) not in st.models[k][2]: return False
            ec.append((k, E, byo[it[1].o]))
        if prev:
            if sum(1 for k, (_, its) in self.lists(st) for x in its if x[0] == "seg" and x[1] == prev[1]) != len(fam): return False
            if sum(1 for k, v in self.maps(st) for e in v[2] if e[1] == prev[1]) != len(ec): return False
        sid = st.fresh("s"); n = ladd(prev[2], 1) if prev else 1
        for k, j, o, cid in fam:
            its = st.models[k][1]; lo = j - 1 if prev else j
            st.models[k] = ("list", its[:lo] + (("seg", sid, n, cid),) + its[j + 1:])
        for k, E, cid in ec:
            v = st.models[k]
            st.models[k] = ("map", tuple(x for x in v[1] if x is not E and x != E), tuple(e for e in v[2] if not (prev and e[1] == prev[1] and e[2] == cid)) + (("eseg", sid, cid),))
        st.ghost["pre"] = dict(st.ghost["pre"])
        st.ghost["pre"][nm] = items[:i - 1 if prev else i] + (("seg", sid, n),) + items[i + 1:]
        for o in objs:
            st.objs.pop(o, None); st.mem.pop(o, None)
            for k in [k for k in st.models if k[0] == o]: del st.models[k]
        return True
    # ---------------------------------------------------------------- end of an operation
    def sequence(self, st, lk, mk):
        """contents in order; raises Violation when list and map disagree"""
        L = st.models.get(lk); M = st.models.get(mk)
        if L is None or M is None: raise Undecided("the cache's containers are gone")
        left = list(M[1]); segs = list(M[2]); out = []; n = 0
        for it in L[1]:
            if it[0] == "seg":
                if st.num.entails_eq(it[2]): continue
                e = ("eseg", it[1], it[3])
                if e not in segs: raise Violation("list-map", "the list holds keys whose map entries are missing or point elsewhere")
                segs.remove(e); out.append(("seg", it[1], it[2])); n = ladd(n, it[2]); continue
            o = it[1]; n = ladd(n, 1)
            if st.objs[o].get("dead"): raise Violation("list-map", "a destroyed node is still linked in the list")
            key = self.canon(st, self.val(st, Ptr(o, KOFF), "key"))
            es = [E for E in left if self.canon(st, self.val(st, Ptr(E, EOFF), "key")) == key]
            if not es: raise Violation("list-map", "a key of the recency list has no map entry")
            E = es[0]; left.remove(E)
            ip = st.mem[E].get(EOFF + self.io)
            if ip is None or ip[1] != Ptr(o, 0): raise Violation("list-map", "the iterator stored in a map entry does not designate its list node")
            out.append(("e", key, self.val(st, Ptr(E, EOFF + self.vo), "value")))
        keys = [x[1] for x in out if x[0] == "e"]
        if len(keys) != len(set(keys)): raise Violation("list-map", "a key is twice in the list")
        if left: raise Violation("list-map", "a map entry has no node in the recency list")
        for e in segs:
            ln = [it[2] for its in st.ghost["pre"].values() for it in its if it[0] == "seg" and it[1] == e[1]]
            if not ln or not st.num.entails_eq(ln[0]): raise Violation("list-map", "map entries have no node in the recency list")
        for k, off, what in ((lk, 16, "list"), (mk, 32, "map")):
            s = st.mem[k[0]].get(k[1] + off)
            if s is None or not (s[1] == n or st.num.entails_eq(lsub(s[1], n))): raise Undecided("stored size of the %s" % what)
        return out, n

KARG = T("k"); VARG = T("v")

def sig(fn): 
    d = fn.dem
    return d

def install(I, ms, S, throwing=True):
    K, V = S.K, S.V
    def throws(st, out, what):
        if throwing:
            s = st.copy(); s.note("%s throws" % what); out.append((s, Throw(None, what)))
        return out
    def copyctor(cls, what):
        def h(I, st, ins, fn, args):
            out = throws(st, [], "copying a " + what)
            v = S.val(st, args[1], what); S.owned(I, st, args[1], False)
            st.models[(args[0].o, args[0].off)] = ("val", v)
            return [(st, args[0])] + out
        return h
    def assign(cls, what):
        def h(I, st, ins, fn, args):
            out = throws(st, [], "assigning a " + what)
            v = S.val(st, args[1], what); S.owned(I, st, args[1], False); S.owned(I, st, args[0], True)
            S.val(st, args[0], what)
            st.models[(args[0].o, args[0].off)] = ("val", v)
            return [(st, args[0])] + out
        return h
    def dtor(what):
        def h(I, st, ins, fn, args):
            S.val(st, args[0], what)
            del st.models[(args[0].o, args[0].off)]
            return [(st, None)]
        return h
    ms["K::K"] = copyctor(K, "key"); ms["V::V"] = copyctor(V, "value")
    ms["K::operator="] = assign(K, "key"); ms["V::operator="] = assign(V, "value")
    ms["K::~K"] = dtor("key"); ms["V::~V"] = dtor("value")
    def m_less(I, st, ins, fn, args):
        a = S.canon(st, S.val(st, args[0], "key")); b = S.canon(st, S.val(st, args[1], "key"))
        if S.same_key(st, a, b): return [(st, 0)]
        r = I.term_bool(st, T("less", a, b)); st.tf[T("less", b, a)] = 1 - int(r)
        return [(st, int(r))]
    def m_eq(I, st, ins, fn, args):
        return [(st, int(S.same_key(st, S.val(st, args[0], "key"), S.val(st, args[1], "key"))))]
    ms["operator<"] = m_less; ms["operator=="] = m_eq
    def m_new(I, st, ins, fn, args):
        out = throws(st, [], "an allocation")
        for s, t in out: t.typ = "_ZTISt9bad_alloc"
        n = args[0]
        return [(st, Ptr(st.new_obj("heap", n if n.__class__ is int else None, name="node"), 0))] + out
    ms["_Znwm"] = m_new
    # ---- list links
    H = "std::__detail::_List_node_header::"; B = "std::__detail::_List_node_base::"
    def lst(st, p, what):
        r = S.find_list(st, p)
        if r is None: raise Violation("invalid-iterator", "%s with an iterator that designates no element of a list" % what)
        return r
    def l_init(I, st, ins, fn, args):
        p = args[0]; st.models[(p.o, p.off)] = ("list", ()); I.put(st, p.o, p.off + 16, 8, 0)
        S.acc(I, st, True, "the recency list", (p.o, p.off))
        return [(st, None)]
    def l_move(I, st, ins, fn, args):
        p, q = args[0], args[1]; m = st.models.get((q.o, q.off))
        if m is None or m[0] != "list": raise Undecided("move of an unknown list")
        S.acc(I, st, True, "the recency list", (p.o, p.off)); S.acc(I, st, True, "the recency list", (q.o, q.off))
        st.models[(p.o, p.off)] = m; st.models[(q.o, q.off)] = ("list", ())
        I.put(st, p.o, p.off + 16, 8, st.mem[q.o][q.off + 16][1]); I.put(st, q.o, q.off + 16, 8, 0)
        return [(st, None)]
    def l_clear(I, st, ins, fn, args):
        p = args[0]; m = st.models.get((p.o, p.off))
        if m is None or m[0] != "list": raise Undecided("clear of an unknown list")
        S.acc(I, st, True, "the recency list", (p.o, p.off))
        for it in m[1]:
            if it[0] == "node":
                st.objs[it[1]] = dict(st.objs[it[1]], dead=True); st.models.pop((it[1], KOFF), None)
        st.models[(p.o, p.off)] = ("list", ())
        return [(st, None)]
    def l_hook(I, st, ins, fn, args):
        n, pos = args[0], args[1]
        if S.find_list(st, n): raise Violation("invalid-iterator", "a node is linked twice")
        k, items, i = lst(st, pos, "insertion"); S.acc(I, st, True, "the recency list", k)
        st.models[k] = ("list", items[:i] + (("node", n.o),) + items[i:])
        return [(st, None)]
    def l_unhook(I, st, ins, fn, args):
        k, items, i = lst(st, args[0], "removal"); S.acc(I, st, True, "the recency list", k)
        if i == len(items): raise Violation("invalid-iterator", "end() is removed from a list")
        st.models[k] = ("list", items[:i] + items[i + 1:])
        return [(st, None)]
    def l_transfer(I, st, ins, fn, args):
        pos, a, b = args[:3]
        k1, it1, i = lst(st, a, "splice"); k2, it2, j = lst(st, b, "splice")
        if k1 != k2 or j < i: raise Violation("invalid-iterator", "splice of an invalid range")
        mid = it1[i:j]; st.models[k1] = ("list", it1[:i] + it1[j:])
        k3, it3, q = lst(st, pos, "splice")
        S.acc(I, st, True, "the recency list", k1); S.acc(I, st, True, "the recency list", k3)
        st.models[k3] = ("list", it3[:q] + mid + it3[q:])
        return [(st, None)]
    def l_swap(I, st, ins, fn, args):
        a, b = args[:2]; ka, kb = (a.o, a.off), (b.o, b.off)
        S.acc(I, st, True, "the recency list", ka); S.acc(I, st, True, "the recency list", kb)
        st.models[ka], st.models[kb] = st.models[kb], st.models[ka]
        return [(st, None)]
    ms[H + "_M_init"] = l_init; ms[H + "_M_move_nodes"] = l_move
    ms["std::_List_base::_M_clear"] = l_clear
    ms[B + "_M_hook"] = l_hook; ms[B + "_M_unhook"] = l_unhook; ms[B + "_M_transfer"] = l_transfer; ms[B + "swap"] = l_swap
    def pred_hmove(fn): return fn.norm == H + "_List_node_header" and fn.nargs == 2
    ms["*"].append((pred_hmove, l_move))
    # ---- tree
    R = "std::_Rb_tree::"; RH = "std::_Rb_tree_header::"
    def mk(st, p):
        k = (p.o, p.off + 8); m = st.models.get(k)
        if m is None or m[0] != "map": raise Undecided("unknown map")
        return k
    def r_reset(I, st, ins, fn, args):
        p = args[0]; st.models[(p.o, p.off)] = ("map", (), ()); I.put(st, p.o, p.off + 32, 8, 0)
        S.acc(I, st, True, "the map", (p.o, p.off))
        return [(st, None)]
    def r_move(I, st, ins, fn, args):
        p, q = args[:2]; m = st.models.get((q.o, q.off))
        if m is None or m[0] != "map": raise Undecided("move of an unknown map")
        S.acc(I, st, True, "the map", (p.o, p.off)); S.acc(I, st, True, "the map", (q.o, q.off))
        st.models[(p.o, p.off)] = m; st.models[(q.o, q.off)] = ("map", (), ())
        I.put(st, p.o, p.off + 32, 8, st.mem[q.o][q.off + 32][1]); I.put(st, q.o, q.off + 32, 8, 0)
        return [(st, None)]
    def kill(st, E):
        st.objs[E] = dict(st.objs[E], dead=True)
        for k in [k for k in st.models if k[0] == E]: del st.models[k]
    def r_eraseall(I, st, ins, fn, args):
        k = mk(st, args[0]); S.acc(I, st, True, "the map", k)
        for E in st.models[k][1]: kill(st, E)
        st.models[k] = ("map", (), ())
        return [(st, None)]
    def key(st, p): return S.val(st, p, "key")
    def r_find(I, st, ins, fn, args):
        k = mk(st, args[0]); S.acc(I, st, False, "the map", k)
        E = S.present(st, k, key(st, args[1]))
        return [(st, Ptr(E, 0) if E is not None else Ptr(*k))]
    def r_pos(ki):
        def h(I, st, ins, fn, args):
            k = mk(st, args[0]); S.acc(I, st, False, "the map", k)
            E = S.present(st, k, key(st, args[ki]))
            return [(st, Agg((Ptr(E, 0), NULL)) if E is not None else Agg((NULL, Ptr(*k))))]
        return h
    def r_lower(I, st, ins, fn, args):
        k = mk(st, args[0]); S.acc(I, st, False, "the map", k)
        t = key(st, args[1]); E = S.present(st, k, t)
        if E is not None: return [(st, Ptr(E, 0))]
        out = [(st, Ptr(*k))]
        for e in st.models[k][2][:1]:
            s = st.copy(); c = S.split(s, e[1], "mid")
            if c is not None:
                g = [E for E in s.models[k][1] if s.models.get((E, EOFF)) == ("val", T("key", c))][0]
                s.tf[T("less", S.canon(s, t), T("key", c))] = 1; s.tf[T("less", T("key", c), S.canon(s, t))] = 0
                out.append((s, Ptr(g, 0)))
        return out
    def r_insert(I, st, ins, fn, args):
        z, h = args[1], args[3]; k = (h.o, h.off); m = st.models.get(k)
        if m is None or m[0] != "map": raise Undecided("insertion into an unknown map")
        S.acc(I, st, True, "the map", k)
        st.models[k] = ("map", m[1] + (z.o,), m[2])
        return [(st, None)]
    def r_unlink(I, st, ins, fn, args):
        z, h = args[:2]; k = (h.o, h.off); m = st.models.get(k)
        if m is None or m[0] != "map": raise Undecided("erasure from an unknown map")
        S.acc(I, st, True, "the map", k)
        if z.o not in m[1]: raise Violation("invalid-iterator", "an iterator that designates no entry is erased from the map")
        st.models[k] = ("map", tuple(x for x in m[1] if x != z.o), m[2])
        return [(st, z)]
    def r_erasekey(I, st, ins, fn, args):
        k = mk(st, args[0]); S.acc(I, st, True, "the map", k)
        E = S.present(st, k, key(st, args[1]))
        if E is None: return [(st, 0)]
        m = st.models[k]; st.models[k] = ("map", tuple(x for x in m[1] if x != E), m[2]); kill(st, E)
        n = st.mem[k[0]][k[1] + 32][1]; I.put(st, k[0], k[1] + 32, 8, ladd(n, -1))
        return [(st, 1)]
    def r_copy(I, st, ins, fn, args):
        out = throws(st, [], "copying the map")
        q = mk(st, args[1]); m = st.models[q]; k = (args[0].o, args[0].off + 8)
        S.acc(I, st, False, "the map", q); S.acc(I, st, True, "the map", k)
        if k == q: return [(st, args[0])]
        if fn.norm.endswith("operator=") and k in st.models:
            for E in st.models[k][1]: kill(st, E)
        es = []
        for E in m[1]:
            N = st.new_obj("heap", EOFF + 24, name="map node"); es.append(N)
            for off in (EOFF, EOFF + S.vo): st.models[(N, off)] = st.models[(E, off)]
            st.mem[N] = dict(st.mem[E])
        st.models[k] = ("map", tuple(es), m[2]); I.put(st, k[0], k[1] + 32, 8, st.mem[q[0]][q[1] + 32][1])
        return [(st, args[0])] + out
    ms[RH + "_M_reset"] = r_reset; ms[RH + "_M_move_data"] = r_move
    ms["*"].append((lambda fn: fn.norm == RH + "_Rb_tree_header" and fn.nargs == 2, r_move))
    ms[R + "_M_erase"] = r_eraseall; ms[R + "find"] = r_find
    ms[R + "_M_get_insert_unique_pos"] = r_pos(1); ms[R + "_M_get_insert_hint_unique_pos"] = r_pos(2)
    ms[R + "lower_bound"] = r_lower
    def r_next(I, st, ins, fn, args):
        z = args[0]
        if z.__class__ is not Ptr: raise Undecided("increment of %r" % (z,))
        m = st.models.get((z.o, z.off))
        if m is not None and m.__class__ is tuple and m[0] == "map" or st.objs.get(z.o, {}).get("dead"): raise Violation("invalid-iterator", "an iterator that designates no entry is moved")
        o = T("obj", "other entry", 0)
        st.objs[o] = dict(kind="other", size=None); st.mem[o] = {}
        return [(st, Ptr(o, 0))]
    ms["std::_Rb_tree_increment"] = r_next; ms["std::_Rb_tree_decrement"] = r_next
    ms["std::_Rb_tree_insert_and_rebalance"] = r_insert; ms["std::_Rb_tree_rebalance_for_erase"] = r_unlink
    ms["*"].append((lambda fn: fn.norm == R + "erase" and fn.dem.rstrip().endswith("::erase(%s const&)" % K), r_erasekey))
    ms["*"].append((lambda fn: fn.norm in (R + "_Rb_tree", R + "operator=") and fn.nargs == 2 and fn.dem.rstrip().endswith("const&)"), r_copy))
    def refuse(what):
        def h(I, st, ins, fn, args): raise Undecided(what)
        return h
    for n in ("equal_range", "upper_bound", "_M_lower_bound", "_M_upper_bound", "_M_copy"): ms[R + n] = refuse("map operation " + n)
    I.on_load = S.on_load; I.on_store = lambda I, st, p, size, v: S.on_store(I, st, p, size, v)
    I.on_head = S.fold
