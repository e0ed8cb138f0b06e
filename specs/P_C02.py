"""C02: rows of a compressed adjacency and the flattened views over it"""
from speclib import *


def row(kind, weights=False):
    def f(ex):
        c = CSR(ex, weights=weights, wbits=64)
        u = ex.int('u', 32)
        ps = [ex.ptr(c.ind), c.nv, ex.ptr(c.tgt)] + ([ex.ptr(c.w)] if weights else []) + [c.mv, u]
        ex.assume(u.e < c.n)
        if kind != 'size':
            k = ex.int('j', 32)
            ex.assume(k.e < c.I[u.e + 1] - c.I[u.e])
            ps.append(k)
        ex.assume(And(c.I[u.e] >= 0, c.I[u.e + 1] >= 0, c.I[u.e + 1] <= c.I[c.n]))
        ex.params = ps
        ex.handlers = std_handlers(ex)
        if kind == 'size':
            ex.post_fn = lambda ex, st, r: [('size is the difference of the offsets', ex.dom.uns(r) == c.I[u.e + 1] - c.I[u.e])]
        else:
            A = c.W if kind == 'attr' else c.T
            ex.post_fn = lambda ex, st, r: [('element j of row u is entry offset(u)+j', ex.dom.uns(r) == A[c.I[u.e] + k.e])]
    return f


def source(ex):
    c = CSR(ex)
    e = ex.int('e', 32)
    ex.assume(e.e < c.m)
    ex.params = csr_params(ex, c) + [e]
    ex.handlers = std_handlers(ex)
    p = z3.Int('p')
    ex.cand_fn = lambda ex, L, st: [('below %s' % q.name, FA([p], Imp(And(0 <= p, p < q.sym), c.I[p] <= e.e), [c.I[p]])) for q in L.idxlike()]

    def post(ex, st, r):
        v = ex.dom.uns(r)
        return [('the source of entry e is the row holding it', And(0 <= v, v < c.n, c.I[v] <= e.e, e.e < c.I[v + 1]))]
    ex.post_fn = post


def trav(kind, weights=False, split=False):
    """kind: 'edges' every stored entry in order, labelled with its row; 'plain' every vertex in order; 'degree' with its degree"""
    def f(ex):
        c = CSR(ex, weights=weights, wbits=64)
        N = c.m if kind == 'edges' else c.n
        if split:
            ex.assume(c.n < 2**31)
        outs = [ex.array('os', 32, N)] + ([ex.array('ot', 32, N)] if kind != 'plain' else []) + ([ex.array('ow', 64, N)] if weights else [])
        ex.params = [ex.ptr(c.ind), c.nv, ex.ptr(c.tgt)] + ([ex.ptr(c.w)] if weights else []) + [c.mv] + [ex.ptr(o) for o in outs]
        ex.handlers = std_handlers(ex)
        p = z3.Int('p')

        def good(st, q):
            OS = st.mem[('os', 0)]
            out = []
            if kind == 'edges':
                out.append(('labels', FA([p], Imp(And(0 <= p, p < q), And(0 <= OS[p], OS[p] < c.n, c.I[OS[p]] <= p, p < c.I[OS[p] + 1])), [OS[p]])))
                out.append(('targets', FA([p], Imp(And(0 <= p, p < q), st.mem[('ot', 0)][p] == c.T[p]), [st.mem[('ot', 0)][p]])))
                if weights:
                    out.append(('weights', FA([p], Imp(And(0 <= p, p < q), st.mem[('ow', 0)][p] == c.W[p]), [st.mem[('ow', 0)][p]])))
            else:
                out.append(('labels', FA([p], Imp(And(0 <= p, p < q), OS[p] == p), [OS[p]])))
                if kind == 'degree':
                    OT = st.mem[('ot', 0)]
                    out.append(('degrees', FA([p], Imp(And(0 <= p, p < q), OT[p] == c.I[p + 1] - c.I[p]), [OT[p]])))
            return out

        def cands(ex, L, st):
            out = []
            for q in L.idxlike():
                out += [('%s %s' % (nm, q.name), g) for nm, g in good(st, q.sym)]
            if kind == 'edges':
                ids = L.idxlike()
                qs = [(q.name, q.sym, q) for q in ids] + [('0', z3.IntVal(0), None)]
                qs += [('%s+1' % q.name, q.sym + 1, q) for l in L.chain() if l is not L for q in l.idxlike()]
                for r in ids:
                    out += [('rows since %s%+d are empty' % (r.name, d), c.I[r.sym + d] == c.I[r.entry + d]) for d in (0, 1)]
                for nm, q, ph in qs:
                    if ph in ids:
                        out.append(('%s at end' % nm, q == c.m))
                    for r in ids:
                        if r is not ph:
                            for d in (0, 1, -1):
                                rr = r.sym + d
                                out.append(('%s first of row %s%+d' % (nm, r.name, d), And(0 <= rr, rr <= c.n, q == c.I[rr])))
                                out.append(('%s in row %s%+d' % (nm, r.name, d), And(0 <= rr, rr < c.n, c.I[rr] <= q, q < c.I[rr + 1])))
                                out.append(('%s limit of row %s%+d' % (nm, r.name, d), And(0 <= rr, rr < c.n, q == c.I[rr + 1])))
                                out.append(('%s up to row %s%+d' % (nm, r.name, d), And(0 <= rr, rr < c.n, c.I[rr] <= q, q <= c.I[rr + 1])))
            return out

        def post(ex, st, r):
            q = ex.results[0][1]
            nm = {'edges': 'stored entry', 'plain': 'vertex', 'degree': 'vertex'}[kind]
            return [('exactly one element per %s' % nm, q == N)] + [('in storage order: ' + a, b) for a, b in good(st, N)]
        ex.cand_fn, ex.post_fn = cands, post
    return f


R = 'nw::graph::indexed_struct_of_arrays::'
ONCE = 'yields every stored entry exactly once, in storage order, labelled with its own row'
FUNCS = [FS(R + 'operator[]', 'csr.cpp', 'vp_row_size', 'size of row u = difference of its offsets', row('size')),
         FS(R + 'operator[], splittable_range_adaptor::begin, soa iterator []', 'csr.cpp', 'vp_row_elem', 'element j of row u is stored entry offset(u)+j', row('elem')),
         FS(R + 'operator[] (attribute column)', 'csr.cpp', 'vp_row_attr', 'attribute j of row u is that of stored entry offset(u)+j', row('attr', True)),
         FS(R + 'source', 'csr.cpp', 'vp_source', 'the row holding entry e', source),
         FS(R + 'begin/end, my_outer_iterator', 'csr.cpp', 'vp_outer', ONCE, trav('edges')),
         FS('nw::graph::edge_range', 'csr.cpp', 'vp_edges', ONCE, trav('edges')),
         FS('nw::graph::edge_range with attributes', 'csr.cpp', 'vp_edges_w', ONCE, trav('edges', True)),
         FS('nw::graph::edge_range(edge_range&, tbb::split)', 'csr.cpp', 'vp_edges_split', 'the two halves together: ' + ONCE, trav('edges', split=True)),
         FS('nw::graph::plain_range', 'csr.cpp', 'vp_plain', 'yields every vertex exactly once, in order', trav('plain')),
         FS('nw::graph::plain_degree_range', 'csr.cpp', 'vp_plain_degree', 'yields every vertex exactly once with its row length', trav('degree')),
         FS('nw::graph::neighbor_range', 'csr.cpp', 'vp_neigh', ONCE, trav('edges'))]
ASSUME = ['splitting an edge range: fewer than 2^31 vertices (the outer difference_type is signed 32-bit)']
HARNESS = "C02.cpp"
BOUND = "all graphs on at most 3 vertices, seeded random graphs up to 70 vertices and sparse ones with long runs of empty rows"
BOUNDED = ["views over vov and adj_list", "edge_range / neighbor_range from a given row, recursive splits"]
