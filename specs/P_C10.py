"""C10: breadth-first search"""
from speclib import *
from hops import Hops, INF
import itertools

MAX = 2**32 - 1


def heap32(ex, st):
    """(maps, queues): 32-bit heap arrays that were filled with a value / only appended to"""
    ks = [k for k in st.mem if k[0] in ex.heap and ex.objs[k[0]].fields.get(k[1]) == 32]
    return [k for k in ks if k[0] in ex.filled], [k for k in ks if k[0] not in ex.filled]


def bfs(ex):
    c = CSR(ex)
    root = ex.int('root', 32)
    ex.assume(root.e < c.n)
    own = c.owner(uniq=False)
    h = Hops(ex, c, root.e, own)
    ex.params = csr_params(ex, c) + [root]
    H = std_handlers(ex)
    ex.filled = set()
    f0 = H['vp_fill32']

    def fill(ex, i, args, st, R, b):
        ex.filled.add(args[0].base.name)
        return f0(ex, i, args, st, R, b)
    H['vp_fill32'] = fill
    ex.handlers = H
    I, T, n, D, at, sv = c.I, c.T, c.n, h.D, h.at, h.sv
    i, x, e, j = z3.Ints('i x e j')

    # isedge(u, v): defined as "some edge slot of u's row holds v"; only the introduction direction is ever needed
    isedge = z3.Function('isedge', Int, Int, z3.BoolSort())
    ex.assume(FA([e], Imp(rng(0, e, c.m), isedge(own(e), T[e])), [T[e]]))

    def ptr_edge(P, x, D):
        return And(P[x] < n, D(x) == D(P[x]) + 1, D(P[x]) < INF, isedge(P[x], x))

    def cands(ex, L, st):
        out = []
        ch = L.chain()
        O = [l for l in ch][-1]
        maps, qs = heap32(ex, st)
        if not maps or len(qs) < 2:
            return out
        iv = [p for p in O.ints(64)]
        for kp in maps:
            P = st.mem[kp]
            out.append(('root parent %s' % kp[0], P[root.e] == root.e))
            out.append(('parents %s' % kp[0], FA([x], Imp(And(0 <= x, x < n, x != root.e, P[x] != MAX), ptr_edge(P, x, D)), [P[x]])))
            for kv in maps:
                if kv != kp:
                    V = st.mem[kv]
                    if True:
                        out.append(('same %s %s' % (kp[0], kv[0]), FA([x], Imp(And(0 <= x, x < n), (P[x] == MAX) == (V[x] == MAX)), [P[x]])))
        for lv in iv:
            l = lv.sym
            if L is O:
                out.append(('lvl %s' % lv.name, And(1 <= l, l <= n + 1)))
            for kv in maps:
                V = st.mem[kv]
                tag = '[%s %s]' % (lv.name, kv[0])
                if L is O:
                    out.append(('known' + tag, FA([x], Imp(And(gm(x), 0 <= x, x < n), (V[x] != MAX) == (D(x) < l)), [V[x]])))
                    out.append(('val' + tag, FA([x], Imp(And(0 <= x, x < n, V[x] != MAX), V[x] == D(x)), [V[x]])))
                else:
                    out.append(('near' + tag, FA([x], Imp(And(0 <= x, x < n, D(x) < l), V[x] != MAX), [V[x]])))
                    out.append(('val' + tag, FA([x], Imp(And(0 <= x, x < n, V[x] != MAX), And(V[x] == D(x), D(x) <= l)), [V[x]])))
            for qa in qs:
                QA = st.mem[qa]
                tag = '[%s %s]' % (lv.name, qa[0])
                for sz in iv if L is O else []:
                    if sz is lv:
                        continue
                    s = sz.sym
                    t2 = tag + sz.name
                    out.append(('head' + t2, Imp(s > 0, D(QA[z3.IntVal(0)]) == l - 1)))
                    out.append(('front' + t2, FA([i], Imp(And(0 <= i, i < s), And(QA[i] < n, D(QA[i]) == l - 1)), [QA[i]])))
                    inq = lambda y, s: EX([j], And(0 <= j, j < s, QA[j] == y), patterns=[QA[j]])
                    out.append(('front complete' + t2, z3.ForAll([x], Imp(And(gm(x), D(x) == l - 1), inq(x, s)), patterns=[at(x)])))
                if L is O:
                    continue
                for kv in maps:
                    V = st.mem[kv]
                    for ip in ex.phis_in(L, ex.role_idx(qa[0], 'load')):
                        if ip in iv:
                            continue
                        t2 = tag + kv[0] + ip.name
                        out.append(('scanned' + t2, FA([i, e], Imp(And(0 <= i, i < ip.sym, c.row(QA[i], e)), V[T[e]] != MAX), [z3.MultiPattern(QA[i], T[e])])))
                        for ep in ex.phis_in(L, ex.role_idx('tgt', 'load')):
                            if ep is ip or ep not in L.phis:
                                continue
                            out.append(('row scanned' + t2 + ep.name, FA([e], Imp(And(I[QA[ip.sym]] <= e, e < ep.sym), V[T[e]] != MAX), [T[e]])))
                    for cn in ex.phis_in(L, ex.role_idx(qa[0], 'store'), True):
                        if cn not in L.phis:
                            continue
                        t2 = tag + kv[0] + cn.name
                        inq = lambda y, s: EX([j], And(0 <= j, j < s, QA[j] == y), patterns=[QA[j]])
                        out.append(('next complete' + t2, FA([x], Imp(And(mark(x), D(x) == l, V[x] != MAX), inq(x, cn.sym)), [mark(x)])))
                        out.append(('next some' + t2, Imp(And(D(sv(l)) == l, V[sv(l)] != MAX), inq(sv(l), cn.sym))))
                        if kv == maps[0]:
                            out.append(('next' + t2, FA([i], Imp(And(0 <= i, i < cn.sym), And(QA[i] < n, D(QA[i]) == l)), [QA[i]])))
        return out

    def post(ex, st, r):
        P = st.mem[(r.base.name, 0)]
        return [('root is its own parent', P[root.e] == root.e),
                ('a parent is recorded exactly for the reachable vertices', FA([x], Imp(And(mark(x), 0 <= x, x < n), (P[x] != MAX) == (D(x) < INF)), [mark(x)])),
                ('every other parent is joined to its child by an edge and is one hop nearer the root',
                 FA([x], Imp(And(mark(x), 0 <= x, x < n, x != root.e, P[x] != MAX), ptr_edge(P, x, D)), [mark(x)]))]
    ex.cand_fn, ex.post_fn = cands, post


FUNCS = [FS('nw::graph::bfs(const Graph&, root)', 'bfs.cpp', 'vp_bfs',
            'parents = a shortest-path tree: defined exactly on reachable vertices, parent edge exists, parent one hop nearer', bfs)]
ASSUME = []
HARNESS = "C10.cpp"
BOUND = ("all directed graphs on at most 3 vertices, seeded random graphs up to 90 vertices, path/star/tree shapes up to 300 vertices; "
         "one uncontrolled schedule per case for the parallel variants")
BOUNDED = ["nw::graph::bfs(out_graph, in_graph, root, ...)", "experimental bfs_v1/v2/v6/v7/v8/v9/top_down/top_down_bitmap/bottom_up"]
