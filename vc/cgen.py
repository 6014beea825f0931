"""Complete evaluation of a function's path conditions and results over a finite domain, by intervals.

The paths of the function (from the symbolic executor, as bit-vector terms) become one C function that
evaluates every term on an interval [lo, hi] of the argument; a term whose value is not the same on the
whole interval is over-approximated.  An interval is accepted when exactly one path is certainly taken on
all of it and its result is certainly the expected one; otherwise it is halved.  A single point is always
evaluated exactly, so the enumeration decides the property for every argument of the domain."""
import os, subprocess, tempfile
import z3
from dom import Unsupported

HEAD = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned _BitInt(%(W)d) U;
typedef struct { U a, b; } I;
#define M(w) ((((U)1) << (w)) - 1)
static inline I top(int w) { I r = {0, M(w)}; return r; }
static inline I pt(U x) { I r = {x, x}; return r; }
static inline int one(I x) { return x.a == x.b; }
static inline I cat(I x, I y, int wy) { I r = {(x.a << wy) + y.a, (x.b << wy) + y.b}; return r; }
static inline I ext(I x, int h, int l) { int n = h - l + 1; U p = x.a >> l, q = x.b >> l; if ((p >> n) == (q >> n)) { I r = {p & M(n), q & M(n)}; return r; } return top(n); }
static inline I add(I x, I y, int w) { U p = x.a + y.a, q = x.b + y.b; if ((p >> w) == (q >> w)) { I r = {p & M(w), q & M(w)}; return r; } return top(w); }
static inline I sub(I x, I y, int w) { U c = ((U)1) << w; U p = x.a + c - y.b, q = x.b + c - y.a; if ((p >> w) == (q >> w)) { I r = {p & M(w), q & M(w)}; return r; } return top(w); }
static inline I mul(I x, I y, int w) { U p = x.a * y.a, q = x.b * y.b; if ((p >> w) == (q >> w) && (one(x) || one(y) || (q >> w) == 0)) { if ((q >> w) == 0 || (one(x) && one(y))) { I r = {p & M(w), q & M(w)}; return r; } } return top(w); }
static inline I shr(I x, I s, int w) { I r; r.a = s.b >= w ? 0 : x.a >> (int)s.b; r.b = s.a >= w ? 0 : x.b >> (int)s.a; return r; }
static inline I shl(I x, I s, int w) { if (!one(s)) return top(w); if (s.a >= w) return pt(0); U p = x.a << (int)s.a, q = x.b << (int)s.a; if ((p >> w) == (q >> w)) { I r = {p & M(w), q & M(w)}; return r; } return top(w); }
static inline I ashr(I x, I s, int w) { if (!one(s) || ((x.a >> (w - 1)) != (x.b >> (w - 1)))) return top(w); int k = s.a >= w ? w - 1 : (int)s.a; U sg = (x.a >> (w - 1)) ? (M(w) ^ (M(w) >> k)) : 0; I r = {(x.a >> k) | sg, (x.b >> k) | sg}; return r; }
static inline I band(I x, I y, int w) { if (one(x) && one(y)) return pt(x.a & y.a); I r = {0, x.b < y.b ? x.b : y.b}; return r; }
static inline I bor(I x, I y, int w) { if (one(x) && one(y)) return pt(x.a | y.a); return top(w); }
static inline I bxor_(I x, I y, int w) { if (one(x) && one(y)) return pt(x.a ^ y.a); return top(w); }
static inline I bnot(I x, int w) { I r = {M(w) - x.b, M(w) - x.a}; return r; }
static inline I neg(I x, int w) { if (one(x)) return pt((M(w) - x.a + 1) & M(w)); if (x.a > 0) { I r = {M(w) - x.b + 1, M(w) - x.a + 1}; return r; } return top(w); }
static inline I udiv(I x, I y, int w) { if (one(y) && y.a) { I r = {x.a / y.a, x.b / y.a}; return r; } return top(w); }
static inline I urem(I x, I y, int w) { if (one(y) && y.a) { if (x.a / y.a == x.b / y.a) { I r = {x.a % y.a, x.b % y.a}; return r; } I r = {0, y.a - 1}; return r; } return top(w); }
static inline I sx(I x, int w, int n) { if ((x.a >> (w - 1)) != (x.b >> (w - 1))) return top(w + n); U s = (x.a >> (w - 1)) ? (M(w + n) ^ M(w)) : 0; I r = {x.a | s, x.b | s}; return r; }
static inline I itev(int c, I x, I y) { if (c == 1) return x; if (c == 0) return y; I r = {x.a < y.a ? x.a : y.a, x.b > y.b ? x.b : y.b}; return r; }
static inline int iteb(int c, int x, int y) { if (c == 1) return x; if (c == 0) return y; return x == y ? x : 2; }
static inline int ult(I x, I y) { return x.b < y.a ? 1 : x.a >= y.b ? 0 : 2; }
static inline int ule(I x, I y) { return x.b <= y.a ? 1 : x.a > y.b ? 0 : 2; }
static inline int fl(I *x, int w) { U s = ((U)1) << (w - 1); if ((x->a >> (w - 1)) != (x->b >> (w - 1))) return 0; x->a ^= s; x->b ^= s; return 1; }
static inline int slt(I x, I y, int w) { if (!fl(&x, w) || !fl(&y, w)) return 2; return ult(x, y); }
static inline int sle(I x, I y, int w) { if (!fl(&x, w) || !fl(&y, w)) return 2; return ule(x, y); }
static inline int eqv(I x, I y) { if (one(x) && one(y)) return x.a == y.a; return (x.b < y.a || y.b < x.a) ? 0 : 2; }
static inline int eqb(int x, int y) { return (x == 2 || y == 2) ? 2 : x == y; }
static inline int bn(int x) { return x == 2 ? 2 : !x; }
static inline int ba(int x, int y) { return (!x || !y) ? 0 : (x == 1 && y == 1) ? 1 : 2; }
static inline int bo(int x, int y) { return (x == 1 || y == 1) ? 1 : (!x && !y) ? 0 : 2; }
static unsigned long long *TAB; static int TLO, THI;
static I look(I x) { if (!one(x)) return top(64); int t = (int)(unsigned)x.a; if (t < TLO || t > THI) return top(64); return pt(TAB[t - TLO]); }
"""


def bv(e): return z3.is_bv(e)


class Gen:
    def __init__(self, var):
        self.var, self.ids, self.lines, self.w = var, {}, [], 64

    def expr(self, e):
        stack = [e]
        while stack:
            x = stack[-1]
            if x.get_id() in self.ids:
                stack.pop()
                continue
            miss = [c for c in x.children() if c.get_id() not in self.ids]
            if miss:
                stack += miss
                continue
            stack.pop()
            self.emit(x)
        return self.ids[e.get_id()]

    def emit(self, x):
        n = "v%d" % len(self.ids)
        c = [self.ids[y.get_id()] for y in x.children()]
        k = x.decl().kind()
        w = x.size() if bv(x) else 0
        self.w = max(self.w, w)
        cw = x.arg(0).size() if x.num_args() and bv(x.arg(0)) else 0

        def fold(f, xs, *a):
            r = xs[0]
            for y in xs[1:]:
                r = "%s(%s)" % (f, ", ".join([r, y] + [str(z) for z in a]))
            return r
        if z3.is_bv_value(x):
            v = x.as_long()
            parts = []
            i = 0
            while v or not parts:
                parts.append("((U)%dULL << %d)" % (v & (1 << 64) - 1, 64 * i))
                v >>= 64
                i += 1
            r = "pt(%s)" % " | ".join(parts)
        elif z3.is_true(x): r = "1"
        elif z3.is_false(x): r = "0"
        elif x.eq(self.var): r = "X"
        elif k == z3.Z3_OP_CONCAT:
            r, ww = c[0], 0
            for i in range(1, len(c)):
                r = "cat(%s, %s, %d)" % (r, c[i], x.arg(i).size())
        elif k == z3.Z3_OP_EXTRACT: r = "ext(%s, %d, %d)" % (c[0], x.params()[0], x.params()[1])
        elif k == z3.Z3_OP_BADD: r = fold("add", c, w)
        elif k == z3.Z3_OP_BSUB: r = fold("sub", c, w)
        elif k == z3.Z3_OP_BMUL: r = fold("mul", c, w)
        elif k == z3.Z3_OP_BLSHR: r = fold("shr", c, w)
        elif k == z3.Z3_OP_BASHR: r = fold("ashr", c, w)
        elif k == z3.Z3_OP_BSHL: r = fold("shl", c, w)
        elif k == z3.Z3_OP_BAND: r = fold("band", c, w)
        elif k == z3.Z3_OP_BOR: r = fold("bor", c, w)
        elif k == z3.Z3_OP_BXOR: r = fold("bxor_", c, w)
        elif k == z3.Z3_OP_BNOT: r = "bnot(%s, %d)" % (c[0], w)
        elif k == z3.Z3_OP_BNEG: r = "neg(%s, %d)" % (c[0], w)
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I): r = "udiv(%s, %s, %d)" % (c[0], c[1], w)
        elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I): r = "urem(%s, %s, %d)" % (c[0], c[1], w)
        elif k == z3.Z3_OP_SIGN_EXT: r = "sx(%s, %d, %d)" % (c[0], cw, w - cw)
        elif k == z3.Z3_OP_ZERO_EXT: r = c[0]
        elif k == z3.Z3_OP_ITE: r = "%s(%s)" % ("itev" if w else "iteb", ", ".join(c))
        elif k == z3.Z3_OP_ULT: r = "ult(%s, %s)" % tuple(c)
        elif k == z3.Z3_OP_ULEQ: r = "ule(%s, %s)" % tuple(c)
        elif k == z3.Z3_OP_UGT: r = "ult(%s, %s)" % (c[1], c[0])
        elif k == z3.Z3_OP_UGEQ: r = "ule(%s, %s)" % (c[1], c[0])
        elif k == z3.Z3_OP_SLT: r = "slt(%s, %s, %d)" % (c[0], c[1], cw)
        elif k == z3.Z3_OP_SLEQ: r = "sle(%s, %s, %d)" % (c[0], c[1], cw)
        elif k == z3.Z3_OP_SGT: r = "slt(%s, %s, %d)" % (c[1], c[0], cw)
        elif k == z3.Z3_OP_SGEQ: r = "sle(%s, %s, %d)" % (c[1], c[0], cw)
        elif k == z3.Z3_OP_EQ: r = ("eqv(%s, %s)" if cw else "eqb(%s, %s)") % tuple(c)
        elif k == z3.Z3_OP_DISTINCT and len(c) == 2: r = ("bn(eqv(%s, %s))" if cw else "bn(eqb(%s, %s))") % tuple(c)
        elif k == z3.Z3_OP_NOT: r = "bn(%s)" % c[0]
        elif k == z3.Z3_OP_AND: r = fold("ba", c)
        elif k == z3.Z3_OP_OR: r = fold("bo", c)
        elif k == z3.Z3_OP_XOR: r = "bn(eqb(%s, %s))" % tuple(c)
        elif k == z3.Z3_OP_IMPLIES: r = "bo(bn(%s), %s)" % tuple(c)
        elif k == z3.Z3_OP_UNINTERPRETED and x.decl().name() == "RATIO": r = "look(%s)" % c[0]
        else:
            raise Unsupported("interval evaluation of %s" % x.decl().name())
        self.lines.append("  %s %s = %s;" % ("I" if w else "int", n, r))
        self.ids[x.get_id()] = n
        self.keep = getattr(self, "keep", []) + [x]


def program(var, paths, main):
    """paths: [(condition, result or None)] -> C source; eval() returns the index of the path certainly taken (or -1) and its result"""
    g = Gen(var)
    body = []
    for i, (c, v) in enumerate(paths):
        cn = g.expr(c)
        vn = g.expr(v) if v is not None else None
        body.append((cn, vn))
    w = 2 * max(g.w, 64)
    src = HEAD.replace("%(W)d", str(w))
    src += "static int eval(I X, I *out) {\n" + "\n".join(g.lines) + "\n  int k = -1, maybe = 0;\n"
    for i, (cn, vn) in enumerate(body):
        src += "  if (%s == 1 && k < 0) { k = %d; %s } else if (%s != 0) maybe = 1;\n" % (cn, i, "*out = %s;" % vn if vn else "out->a = out->b = 0;", cn)
    src += "  return maybe ? -1 : k;\n}\n" + main
    return src


def compile_(src, name):
    d = tempfile.mkdtemp(prefix="cgen")
    c, o = os.path.join(d, name + ".c"), os.path.join(d, name)
    open(c, "w").write(src)
    p = subprocess.run(["clang", "-O2", "-w", "-o", o, c], capture_output=True, text=True)
    if p.returncode:
        raise Unsupported("clang: " + p.stderr[:500])
    return o
