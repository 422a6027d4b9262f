'''
The compiled module, as its caller sees it: the factor the obligation supplies,
of what it was given. What the C source does with it is decided by sa/csource.py.
'''


class Factor(object):
    pretend = None
    seen = None


def lchol_c(A):
    Factor.seen = A
    indices, indptr, data, nonpsd, perm = Factor.pretend
    return [indices.copy(), indptr.copy(), data.copy(), nonpsd, perm.copy()]
