"""Compressed columns of a sparse matrix of symbolic size.

For a matrix m with R rows and C columns the contract of Eigen's compressed storage provides (uninterpreted) functions
  o(k)  column starts, total: 0 for k <= 0, nnz for k >= C, non-decreasing;   nnz = o(C)
  i(p)  row of entry p, c(p) its column, for 0 <= p < nnz:  0 <= i(p) < R, 0 <= c(p) < C, o(c(p)) <= p < o(c(p)+1)
        rows strictly increase within a column
  v(p)  value of entry p: m(i(p), c(p))
  e(r,k) position of entry (r,k), when m(r,k) is not zero:  o(k) <= e(r,k) < o(k+1), i(e(r,k)) = r
The axioms enter the solver in smt.py (atom_axioms and sparse_pairs)."""
import terms as TT
from terms import *
from values import Mat

SP = {}     # id -> (rows, columns, matrix)


def enum(I, v):
    m = v.m
    s = freshname('spm')
    SP[s] = (num(m.r), num(m.c), m)
    for f in 'oice':
        TT._ireads_nonneg.add('sp%s:%s' % (f, s))
    o = Mat(add(m.c, ONE), 1, lambda k, j: start(s, k), 'I')
    nnz = start(s, m.c)
    inner = Mat(nnz, 1, lambda p, j: iread('spi:' + s, num(p)), 'I')
    vals = Mat(nnz, 1, lambda p, j: read('spv:' + s, num(p)))
    return nnz, o, inner, vals


def start(s, k):
    k = num(k)
    if k is ZERO:
        return ZERO
    return iread('spo:' + s, k)


def column(s, p):
    return iread('spc:' + s, num(p))


def telescope(k, d):
    """(closed part summed over 0..k-1, rest) of increments o(k+1)-o(k)"""
    ka = TT.atom(k)
    done = ZERO
    rest = d
    for m, c in d.args:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == 'iread' and a.args[0].startswith('spo:') and num(a.args[1]) is add(k, ONE):
                s = a.args[0][4:]
                rest = sub(rest, scale(sub(numof(a), iread('spo:' + s, k)), c))
                done = add(done, scale(iread("spo:" + s, k), c))
    return done, rest
