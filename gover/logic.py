"""Sorts, uninterpreted symbols and axioms of the verifier.

Integers are mathematical.  Every Go int/intN/uintN value is an Int term inside
its range; wrap-around of unsigned arithmetic is explicit, signed overflow is an
obligation.  A byte in memory is a Cell: its value, plus (ghost) the random draw
it came from."""
import z3

I = z3.IntSort()
B = z3.BoolSort()
Cell = z3.DeclareSort('Cell')
Mat = z3.DeclareSort('Mat')
Vec = z3.DeclareSort('Vec')
Str = z3.DeclareSort('Str')
_S = z3.Datatype('Slice')
_S.declare('mkS', ('sref', I), ('soff', I), ('slen', I), ('scap', I))
Slice = _S.create()
AC = z3.ArraySort(I, Cell)
AI = z3.ArraySort(I, I)
AS = z3.ArraySort(I, Slice)
ELEM = {'b': Cell, 'i': I, 's': Slice}
CONT = {'b': AC, 'i': AI, 's': AS}
HEAP = {k: z3.ArraySort(I, v) for k, v in CONT.items()}

F = z3.Function
val = F('val', Cell, I)
tag = F('tag', Cell, I)
src = F('src', Cell, I)
mkc = F('mkc', I, Cell)
xor = F('bxor', I, I, I)
gm = F('gm', I, I, I)          # multiplication in GF(2^8) mod 0x11D
gi = F('gi', I, I)             # inverse (gi(0)=0)
gpow = F('gpow', I, I, I)
glog = F('glog', I, I)
g2 = F('g2', I, I)
mul = F('mul', I, I, I)
div = F('udiv', I, I, I)
rem = F('urem', I, I, I)
band = F('band', I, I, I)
bor = F('bor', I, I, I)
ix = F('ix', I, I, I, I)       # ix(w,p,j) = w*p+j
at = F('at', Mat, I, I, Cell)
mat1 = F('mat1', AC, I, I, Mat)                    # flat, row length w
mat2 = F('mat2', HEAP['b'], AS, I, Mat)            # slice of rows
poly = F('poly', Mat, I, B)
hor = F('hor', Mat, I, I, I, I, I)                 # hor(M,j,d,k,x)
diag = F('diag', z3.ArraySort(I, Mat), Mat)        # column k is P[k]
mdiff = F('mdiff', Mat, Mat, I, I, I, I)
vat = F('vat', Vec, I, I)
vec1 = F('vec1', AC, I, Vec)
col = F('col', HEAP['b'], AS, I, I, Vec)           # col(MB,rows,off,k)
bas = F('bas', Vec, I, I, I, I)                    # bas(X,x,i,j)
lag = F('lag', Vec, Vec, I, I, I, I)               # lag(X,Y,x,m,i)
vdiff = F('vdiff', Vec, Vec, I, I)
nn = F('nn', AS, I, I, I)                          # nn(rows,off,i): non-nil rows among the first i
ks = F('ks', I, Vec, I, I)                          # ks(gen, iv, pos)

A = z3.And
O = z3.Or
N = z3.Not
Im = z3.Implies


def _vars(spec):
    return [z3.Const(n, s) for n, s in spec]


_keep = []


def MP(*ts):
    # this z3 release frees the terms of a pattern too early: keep them alive
    p = z3.MultiPattern(*ts)
    _keep.append((ts, p))
    return p


def ax(vs, pats, body):
    _keep.append((vs, pats, body))
    return z3.ForAll(vs, body, patterns=pats)


def byte(t):
    return A(0 <= t, t <= 255)


def axioms():
    a, b, c, d = z3.Ints('a b c d')
    w, p, j, k, x, o, i, m = z3.Ints('w p j k x o i m')
    j2, i2, m2 = z3.Ints('j2 i2 m2')
    u = z3.Const('u', Cell)
    M, M2 = z3.Consts('M M2', Mat)
    X, Y, X2, Y2 = z3.Consts('X Y X2 Y2', Vec)
    Ar = z3.Const('Ar', AC)
    Rw = z3.Const('Rw', AS)
    H = z3.Const('H', HEAP['b'])
    ax_ = []

    def add(vs, pats, body):
        ax_.append(ax(vs, pats, body))
    # cells
    add([u], [val(u)], byte(val(u)))
    add([a], [mkc(a)], A(Im(byte(a), val(mkc(a)) == a), tag(mkc(a)) == -1, src(mkc(a)) == 0))
    # xor on bytes
    add([a, b], [xor(a, b)], A(xor(a, b) == xor(b, a), Im(A(byte(a), byte(b)), A(byte(xor(a, b)), (xor(a, b) == 0) == (a == b))),
                               Im(a == 0, Im(b >= 0, xor(a, b) == b)), Im(b == 0, Im(a >= 0, xor(a, b) == a))))
    # gf
    add([a, b], [gm(a, b)], A(gm(a, b) == gm(b, a), byte(gm(a, b)),
                              Im(a == 0, gm(a, b) == 0), Im(b == 0, gm(a, b) == 0),
                              Im(A(a == 1, byte(b)), gm(a, b) == b), Im(A(b == 1, byte(a)), gm(a, b) == a)))
    add([a], [gi(a)], byte(gi(a)))
    add([a, b], [gpow(a, b)], A(byte(gpow(a, b)), Im(b == 0, gpow(a, b) == 1), Im(A(a == 0, b > 0), gpow(a, b) == 0)))
    # b = 2^l: b^c = 2^(l*c), exponents of 2 count modulo 255 (gf.selfcheck: every b, and b^255 = 1)
    add([b, c], [gpow(b, c)], Im(A(b > 0, b <= 255, c >= 0), gpow(b, c) == g2(mul(glog(b), c % 255))))
    add([a], [glog(a)], Im(A(a > 0, a <= 255), A(g2(glog(a)) == a, 0 <= glog(a), glog(a) < 255)))
    add([a, b], [MP(g2(a), g2(b))], Im(A(a >= 0, b >= 0, (a - b) % 255 == 0), g2(a) == g2(b)))
    add([a], [g2(a)], byte(g2(a)))
    # products
    add([a, b], [mul(a, b)], A(mul(a, b) == mul(b, a),
                               Im(A(a >= 0, b >= 0), mul(a, b) >= 0),
                               Im(a == 0, mul(a, b) == 0), Im(a == 1, mul(a, b) == b), Im(a == -1, mul(a, b) == -b),
                               Im(b == 0, mul(a, b) == 0), Im(b == 1, mul(a, b) == a), Im(b == -1, mul(a, b) == -a),
                               Im(A(a >= 0, b >= 0, b <= 256), mul(a, b) <= 256 * a),
                               Im(A(a >= 1, b >= 1), A(mul(a, b) >= a, mul(a, b) >= b))))
    add([a, b, c], [MP(mul(a, b), mul(a, c))],
        A(Im(A(a >= 0, b < c), mul(a, b) + a <= mul(a, c)), Im(c == b + 1, mul(a, c) == mul(a, b) + a)))
    # Euclidean division
    add([a, b], [div(a, b)], Im(A(a >= 0, b > 0), A(div(a, b) >= 0, div(a, b) <= a, mul(b, div(a, b)) <= a, a < mul(b, div(a, b)) + b)))
    add([a, b], [rem(a, b)], Im(A(a >= 0, b > 0), A(rem(a, b) >= 0, rem(a, b) < b, rem(a, b) <= a, rem(a, b) == a - mul(b, div(a, b)))))
    # matrix index
    add([w, p, j], [ix(w, p, j)], ix(w, p, j) == mul(w, p) + j)
    # polynomial matrices
    add([Ar, o, w, j, k], [at(mat1(Ar, o, w), j, k)], at(mat1(Ar, o, w), j, k) == Ar[o + ix(w, j, k)])
    row = Rw[o + j]
    add([H, Rw, o, j, k], [at(mat2(H, Rw, o), j, k)], at(mat2(H, Rw, o), j, k) == H[Slice.sref(row)][Slice.soff(row) + k])
    # the same rows in another heap: bring the corresponding read into play
    H2 = z3.Const('H2', HEAP['b'])
    add([H, H2, Rw, o, j, k], [MP(at(mat2(H, Rw, o), j, k), mat2(H2, Rw, o))], at(mat2(H2, Rw, o), j, k) == H2[Slice.sref(row)][Slice.soff(row) + k])
    # one polynomial per column
    P = z3.Const('P', z3.ArraySort(I, Mat))
    add([P, j, k], [at(diag(P), j, k)], at(diag(P), j, k) == at(P[k], j, 0))
    add([P, j, d, k, x], [hor(diag(P), j, d, k, x)], hor(diag(P), j, d, k, x) == hor(P[k], j, d, 0, x))
    # Horner
    add([M, d, k, x], [hor(M, d, d, k, x)], hor(M, d, d, k, x) == val(at(M, d, k)))
    add([M, j, d, k, x], [hor(M, j, d, k, x)], A(byte(hor(M, j, d, k, x)), Im(j == d, hor(M, j, d, k, x) == val(at(M, d, k)))))
    add([M, j, j2, d, k, x], [MP(hor(M, j, d, k, x), hor(M, j2, d, k, x))],
        Im(A(j2 == j + 1, j < d), hor(M, j, d, k, x) == xor(val(at(M, j, k)), gm(x, hor(M, j2, d, k, x)))))
    j3, d3, k3, x3 = z3.Ints('j3 d3 k3 x3')
    add([M, M2, j, d, k, x, j3, d3, k3, x3], [MP(hor(M, j, d, k, x), hor(M2, j3, d3, k3, x3))],
        O(j != j3, d != d3, k != k3, x != x3, hor(M, j, d, k, x) == hor(M2, j3, d3, k3, x3),
          A(at(M, mdiff(M, M2, j, d, k), k) != at(M2, mdiff(M, M2, j, d, k), k),
            j <= mdiff(M, M2, j, d, k), mdiff(M, M2, j, d, k) <= d)))
    # same column read at another column number (rows of a transposed matrix)
    # counting the rows that are not nil
    rowk = Rw[o + i]
    add([Rw, o, i], [nn(Rw, o, i)], A(Im(i == 0, nn(Rw, o, i) == 0), Im(i >= 0, A(nn(Rw, o, i) >= 0, nn(Rw, o, i) <= i))))
    add([Rw, o, i, i2], [MP(nn(Rw, o, i), nn(Rw, o, i2))], Im(i >= 0, A(
        Im(i2 == i + 1, nn(Rw, o, i2) == nn(Rw, o, i) + z3.If(Slice.sref(rowk) == 0, z3.IntVal(0), z3.IntVal(1))),
        Im(i <= i2, nn(Rw, o, i) <= nn(Rw, o, i2)),
        Im(i <= i2, nn(Rw, o, i2) - nn(Rw, o, i) <= i2 - i),
        Im(A(i < i2, Slice.sref(rowk) != 0), nn(Rw, o, i) < nn(Rw, o, i2)))))
    # Lagrange
    add([Ar, o, i], [vat(vec1(Ar, o), i)], vat(vec1(Ar, o), i) == val(Ar[o + i]))
    rowi = Rw[o + i]
    add([H, Rw, o, k, i], [vat(col(H, Rw, o, k), i)],
        vat(col(H, Rw, o, k), i) == val(H[Slice.sref(rowi)][Slice.soff(rowi) + k]))
    add([X, x, i, j], [bas(X, x, i, j)], A(byte(bas(X, x, i, j)), Im(j == 0, bas(X, x, i, j) == 1)))
    add([X, x, i, j, j2], [MP(bas(X, x, i, j), bas(X, x, i, j2))],
        Im(A(j2 == j + 1, j >= 0), bas(X, x, i, j2) == z3.If(i == j, bas(X, x, i, j),
            gm(bas(X, x, i, j), gm(xor(x, vat(X, j)), gi(xor(vat(X, i), vat(X, j))))))))
    add([X, Y, x, m, i], [lag(X, Y, x, m, i)], A(byte(lag(X, Y, x, m, i)), Im(i == 0, lag(X, Y, x, m, i) == 0)))
    add([X, Y, x, m, i, i2], [MP(lag(X, Y, x, m, i), lag(X, Y, x, m, i2))],
        Im(A(i2 == i + 1, i >= 0), lag(X, Y, x, m, i2) == xor(lag(X, Y, x, m, i), gm(vat(Y, i), bas(X, x, i, m)))))
    add([X, Y, X2, Y2, x, m], [MP(lag(X, Y, x, m, m), lag(X2, Y2, x, m, m))],
        O(lag(X, Y, x, m, m) == lag(X2, Y2, x, m, m),
          A(vat(X, vdiff(X, X2, m)) != vat(X2, vdiff(X, X2, m)), 0 <= vdiff(X, X2, m), vdiff(X, X2, m) < m),
          A(vat(Y, vdiff(Y, Y2, m)) != vat(Y2, vdiff(Y, Y2, m)), 0 <= vdiff(Y, Y2, m), vdiff(Y, Y2, m) < m)))
    # a marker: M is looked at as polynomials of degree d
    add([M, d], [poly(M, d)], poly(M, d))
    # Lemma (lean/Interp.lean, combine_split): a polynomial of degree d < m is its own
    # interpolation through m points of distinct x
    kx = z3.Int('kx')
    X1, Y1 = col(H, Rw, o, kx), col(H, Rw, o, k)
    w_, u_, v_ = [F(n_, Vec, Vec, Mat, I, I, I, I)(X1, Y1, M, d, k, m) for n_ in ('ipw', 'ipu', 'ipv')]
    add([H, Rw, o, kx, k, x, m, M, d], [MP(lag(X1, Y1, x, m, m), poly(M, d))],
        Im(A(0 <= d, d < m, byte(x)), O(lag(X1, Y1, x, m, m) == hor(M, 0, d, k, x),
            A(0 <= w_, w_ < m, vat(Y1, w_) != hor(M, 0, d, k, vat(X1, w_))),
            A(0 <= u_, u_ < v_, v_ < m, vat(X1, u_) == vat(X1, v_)))))
    # Lemma (lean/Interp.lean, hor_zero)
    add([M, j, d, k, x], [hor(M, j, d, k, x)], Im(A(x == 0, j <= d), hor(M, j, d, k, x) == val(at(M, j, k))))
    return ax_


AX = None


def all_axioms():
    global AX
    if AX is None:
        AX = axioms()
    return AX + [strnum(c) == k for c, k in STRS.values()]


STRS = {}
strnum = F('strnum', Str, I)


def strlit(text):
    n = 'str_' + repr(text)
    if n not in STRS:
        STRS[n] = (z3.Const(n, Str), len(STRS))
    return STRS[n][0]
