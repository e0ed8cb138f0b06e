"""C07: degree counts"""
from speclib import *
from edges import EdgeList, counter


def el(cols, d, bipartite=False):
    def f(ex):
        E = EdgeList(ex, bipartite)
        ex.params = E.params
        ex.handlers = std_handlers(ex)
        n = E.n[d]
        C = counter(ex, 'cnt', [E.c[q] for q in cols], E.m, lambda a, b: a == b)
        x = z3.Int('x')

        def cands(ex, L, st):
            out = []
            for nm in ex.heap:
                D = st.mem.get((nm, 0))
                if D is None:
                    continue
                for p in [z3.IntVal(0), E.m] + [q.sym for q in L.idxlike() if q in L.phis]:
                    out.append(('counted %s %s' % (nm, p), FA([x], Imp(And(0 <= x, x < n), D[x] == C(x, p)), [D[x]])))
                for q in L.idxlike():
                    out.append(('copied %s %s' % (nm, q.name), FA([x], Imp(And(0 <= x, x < q.sym), D[x] == C(x, E.m)), [D[x]])))
            return out

        def post(ex, st, r):
            D = st.mem[(r.base.name, 0)]
            return [('the count of every vertex is its number of incident entries', FA([x], Imp(And(0 <= x, x < n), D[x] == C(x, E.m))))]
        ex.cand_fn, ex.post_fn = cands, post
    return f


def graph(ex):
    c = CSR(ex)
    ex.params = csr_params(ex, c)
    ex.handlers = std_handlers(ex)
    x = z3.Int('x')
    deg = lambda u: c.I[u + 1] - c.I[u]

    def cands(ex, L, st):
        out = []
        for nm in ex.heap:
            D = st.mem.get((nm, 0))
            if D is not None:
                for q in L.idxlike():
                    out.append(('rows %s %s' % (nm, q.name), FA([x], Imp(And(0 <= x, x < q.sym), D[x] == deg(x)), [D[x]])))
        return out

    def post(ex, st, r):
        D = st.mem[(r.base.name, 0)]
        return [('every degree is the row length', FA([x], Imp(And(0 <= x, x < c.n), D[x] == deg(x))))]
    ex.cand_fn, ex.post_fn = cands, post


FUNCS = [FS('nw::graph::degrees<0>(directed edge_list)', 'degrees.cpp', 'vp_deg_dir0', 'degree[v] = number of edges whose source is v', el([0], 0)),
         FS('nw::graph::degrees<1>(directed edge_list)', 'degrees.cpp', 'vp_deg_dir1', 'degree[v] = number of edges whose target is v', el([1], 1)),
         FS('nw::graph::degrees(undirected edge_list)', 'degrees.cpp', 'vp_deg_und', 'degree[v] = number of endpoint slots holding v', el([0, 1], 0)),
         FS('nw::graph::degrees<0>(bi_edge_list)', 'degrees.cpp', 'vp_deg_bi0', 'degree[v] = number of entries of column 0 equal to v', el([0], 0, True)),
         FS('nw::graph::degrees<1>(bi_edge_list)', 'degrees.cpp', 'vp_deg_bi1', 'degree[v] = number of entries of column 1 equal to v', el([1], 1, True)),
         FS('nw::graph::degrees(graph)', 'degrees.cpp', 'vp_deg_graph', 'degree[v] = length of row v', graph)]
ASSUME = []
HARNESS = "C07.cpp"
BOUND = "all edge lists of at most 3 edges on at most 3 vertices, seeded random edge lists and graphs up to 60 vertices"
BOUNDED = ["the same functions under TBB scheduling"]
