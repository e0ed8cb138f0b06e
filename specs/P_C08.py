"""C08: neighbourhood intersection size"""
from speclib import *
from graphspec import Inter


def common(ex, tail=False):
    c = CSR(ex)
    c.sorted_rows(strict=True)
    t = Inter(ex, c)
    u, v = ex.int('u', 32), ex.int('v', 32)
    ex.assume(u.e < c.n)
    ex.assume(v.e < c.n)
    ex.handlers = std_handlers(ex)
    base = None
    if tail:
        k = ex.int('k0', 64, 0, 2**32)
        ex.assume(c.I[u.e] + k.e <= c.I[u.e + 1])
        base = c.I[u.e] + k.e
        ex.params = csr_params(ex, c) + [u, k, v]
        ex.extra_bounds += [base]
    else:
        ex.params = csr_params(ex, c) + [u, v]
    ex.extra_bounds += [c.I[u.e], c.I[u.e + 1], c.I[v.e], c.I[v.e + 1]]
    ex.cand_fn = lambda ex, L, st: t.cands(L, u.e, v.e, base)
    lo = c.I[u.e] if base is None else base
    want = t.E(v.e, u.e) - t.P(v.e, lo)
    ex.post_fn = lambda ex, st, r: [('result = number of entries of the first range whose target is in the second', ex.dom.uns(r) == want)]


def is2(ex):
    common(ex)


def is3(ex):
    common(ex, True)


FUNCS = [FS('nw::graph::intersection_size(R,S)', 'tc.cpp', 'vp_is', 'sorted duplicate-free rows: result = |N(u) cap N(v)|', is2),
         FS('nw::graph::intersection_size(A,B,C,D)', 'tc.cpp', 'vp_is_its', 'sorted duplicate-free rows: result = |N(u) cap N(v)|', is2),
         FS('nw::graph::intersection_size(A,B,Range)', 'tc.cpp', 'vp_is_tail', 'result = |{entries of row u from offset k} cap N(v)|', is3)]
ASSUME = []
HARNESS = "C08.cpp"
BOUND = "all pairs of subsets of {0..5} as rows, seeded random rows up to 60 entries; parallel policies sampled"
BOUNDED = ["nw::graph::intersection_size with a parallel execution policy (std::set_intersection)"]
