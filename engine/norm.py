"""Normal form for real-valued expression DAGs: rational functions over atoms, where a monomial
carries one merged exp() factor (exp(p)exp(q) = exp(p+q)), sqrt atoms are reduced by s^2 = arg and
well-known constants (pi, sqrt 2, ...) given as double literals are lifted to exact atoms."""
from fractions import Fraction as Fr
import math
import struct
import mpmath

mpmath.mp.dps = 40


class Unsupported(Exception):
    pass


class Ctx:
    def __init__(self):
        self.atoms = []      # (kind, payload)
        self.akey = {}
        self.exps = [{}]     # exp keys: polynomials
        self.ekey = {frozenset(): 0}
        self.eadd = {}
        self.PI = self.atom('pi', None, None)
        self.divisors = []   # polynomials assumed non-zero
        self._divset = set()
        self.consts = None

    # ---- atoms
    def atom(self, kind, key, payload):
        k = (kind, key)
        i = self.akey.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload))
            self.akey[k] = i
        return i

    def expid(self, p):
        k = frozenset(p.items())
        i = self.ekey.get(k)
        if i is None:
            i = len(self.exps)
            self.exps.append(dict(p))
            self.ekey[k] = i
        return i

    def exp_add(self, i, j):
        if i == 0:
            return j
        if j == 0:
            return i
        k = (i, j) if i <= j else (j, i)
        r = self.eadd.get(k)
        if r is None:
            r = self.expid(padd(self.exps[i], self.exps[j]))
            self.eadd[k] = r
        return r

    def exp_neg(self, i):
        return self.expid(pscale(self.exps[i], Fr(-1)))

    # ---- monomials / polynomials
    def mmul(self, a, b):
        """product of two monomials (no reduction)"""
        va, ea = a
        vb, eb = b
        if not va:
            v = vb
        elif not vb:
            v = va
        else:
            d = dict(va)
            for k, e in vb:
                d[k] = d.get(k, 0) + e
            v = tuple(sorted(d.items()))
        return (v, self.exp_add(ea, eb))

    def reducible(self, m):
        for k, e in m[0]:
            if e >= 2:
                kind, pl = self.atoms[k]
                if kind in ('sqrt', 'abs') and pl.get('sq') is not None:
                    return k, e
        return None

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        r = {}
        pend = []
        for ma, ca in p.items():
            for mb, cb in q.items():
                m = self.mmul(ma, mb)
                red = self.reducible(m)
                if red is not None:
                    pend.append((m, ca * cb, red))
                    continue
                c = r.get(m)
                if c is None:
                    r[m] = ca * cb
                else:
                    c = c + ca * cb
                    if c == 0:
                        del r[m]
                    else:
                        r[m] = c
        for m, c, (k, e) in pend:
            d = dict(m[0])
            h, rem = divmod(e, 2)
            if rem:
                d[k] = 1
            else:
                del d[k]
            t = {(tuple(sorted(d.items())), m[1]): c}
            sq = self.atoms[k][1]['sq']
            for _ in range(h):
                t = self.pmul(t, sq)
            r = padd(r, t)
        if len(r) > 60000:
            raise Unsupported('polynomial too large')
        return r

    def ppow(self, p, n):
        r = ONE
        for _ in range(n):
            r = self.pmul(r, p)
        return r


def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pscale(p, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in p.items()}


UNIT = ((), 0)
ONE = {UNIT: Fr(1)}


def pconst(c):
    return {UNIT: Fr(c)} if c != 0 else {}


def pis_const(p):
    return not p or (len(p) == 1 and UNIT in p)


def pval(p):
    return p.get(UNIT, Fr(0)) if p else Fr(0)


class RF:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n            # poly
        self.d = d or {}      # {frozenset(poly items): power}

    def key(self):
        return (frozenset(self.n.items()), frozenset(self.d.items()))

    def is_const(self):
        return not self.d and pis_const(self.n)

    def val(self):
        return pval(self.n)


def rconst(c):
    return RF(pconst(c))


class Norm:
    """arithmetic on RF"""

    def __init__(self):
        self.c = Ctx()
        self.sq_cache = {}

    def den_poly(self, d):
        r = ONE
        for f, k in d.items():
            fp = dict(f)
            for _ in range(k):
                r = self.c.pmul(r, fp)
        return r

    def add(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.d == b.d:
            n = padd(a.n, b.n)
            return RF(n, a.d if n else {})
        d = dict(a.d)
        for f, k in b.d.items():
            if d.get(f, 0) < k:
                d[f] = k
        na, nb = a.n, b.n
        for f, k in d.items():
            ka, kb = k - a.d.get(f, 0), k - b.d.get(f, 0)
            fp = dict(f)
            for _ in range(ka):
                na = self.c.pmul(na, fp)
            for _ in range(kb):
                nb = self.c.pmul(nb, fp)
        n = padd(na, nb)
        if not n:
            return RF({})
        return RF(n, d)

    def neg(self, a):
        return RF(pscale(a.n, Fr(-1)), a.d)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF({})
        an, bn, ad, bd = a.n, b.n, a.d, b.d
        # cancel whole numerators against denominators
        fa = self.split(an) if bd else None
        if fa is not None and fa[1] in bd:
            bd = dict(bd)
            bd[fa[1]] -= 1
            if not bd[fa[1]]:
                del bd[fa[1]]
            an = fa[0]
        fb = self.split(bn) if ad else None
        if fb is not None and fb[1] in ad:
            ad = dict(ad)
            ad[fb[1]] -= 1
            if not ad[fb[1]]:
                del ad[fb[1]]
            bn = fb[0]
        n = self.c.pmul(an, bn)
        if not ad:
            d = bd
        elif not bd:
            d = ad
        else:
            d = dict(ad)
            for f, k in bd.items():
                d[f] = d.get(f, 0) + k
        return RF(n, d)

    def split(self, p):
        """p = mono * q with q primitive; returns (mono poly, frozenset q) or None when p is a monomial"""
        if len(p) < 2:
            return None
        m0 = None
        for (v, e) in p:
            dv = dict(v)
            if m0 is None:
                m0 = dv
            else:
                m0 = {k: min(x, dv[k]) for k, x in m0.items() if k in dv}
            if not m0:
                break
        emin = min(e for (v, e) in p)
        e_all = emin if all(e == emin for (v, e) in p) else 0
        lead = min(p.items(), key=lambda t: (len(t[0][0]), t[0]))
        c = lead[1]
        q = {}
        ne = self.c.exp_neg(e_all) if e_all else 0
        for (v, e), cc in p.items():
            d = dict(v)
            for k, x in (m0 or {}).items():
                d[k] -= x
                if not d[k]:
                    del d[k]
            q[(tuple(sorted(d.items())), self.c.exp_add(e, ne))] = cc / c
        mono = {(tuple(sorted((m0 or {}).items())), e_all): c}
        return mono, frozenset(q.items())

    def inv_poly(self, p):
        """RF 1/p"""
        if not p:
            raise Unsupported('division by zero')
        if len(p) == 1:
            (m, c), = p.items()
            # c * mono * exp
            v, e = m
            n = {((), self.c.exp_neg(e) if e else 0): 1 / c}
            r = RF(n)
            for k, x in v:
                kind, pl = self.c.atoms[k]
                if kind == 'sqrt' and pl.get('sq') is not None and pis_const(pl['sq']):
                    # 1/s = s/arg
                    for _ in range(x):
                        r = RF(pscale(self.c.pmul(r.n, {(((k, 1),), 0): Fr(1)}), 1 / pval(pl['sq'])), r.d)
                elif kind == 'sqrt' and pl.get('sq') is not None and len(pl['sq']) == 1 and \
                        self.is_const_poly(pl['sq']):
                    iv = self.inv_poly(pl['sq'])
                    for _ in range(x):
                        r = self.mul(self.mul(r, RF({(((k, 1),), 0): Fr(1)})), iv)
                else:
                    f = frozenset({(((k, 1),), 0): Fr(1)}.items())
                    self.note_div(f)
                    d = dict(r.d)
                    d[f] = d.get(f, 0) + x
                    r = RF(r.n, d)
            return r
        mono, q = self.split(p)
        r = self.inv_poly(mono)
        self.note_div(q)
        d = dict(r.d)
        d[q] = d.get(q, 0) + 1
        return RF(r.n, d)

    def note_div(self, f):
        if f not in self.c._divset:
            self.c._divset.add(f)
            self.c.divisors.append(f)

    def inv(self, a):
        r = self.inv_poly(a.n)
        for f, k in a.d.items():
            fp = dict(f)
            for _ in range(k):
                r = self.mul(r, RF(fp))
        return r

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def is_const_poly(self, p):
        """no free variables"""
        for (v, e) in p:
            if e and not self.is_const_poly(self.c.exps[e]):
                return False
            for k, _ in v:
                if not self.atom_const(k):
                    return False
        return True

    def atom_const(self, k):
        kind, pl = self.c.atoms[k]
        if kind in ('pi', 'cst'):
            return True
        if kind in ('sqrt', 'log', 'erf', 'abs', 'sin', 'cos'):
            return self.is_const_rf(pl['arg'])
        return False

    def is_const_rf(self, r):
        return self.is_const_poly(r.n) and all(self.is_const_poly(dict(f)) for f in r.d)

    # numeric value of constant expressions (mpmath)
    def nval_poly(self, p):
        s = mpmath.mpf(0)
        for (v, e), c in p.items():
            t = mpmath.mpf(c.numerator) / c.denominator
            for k, x in v:
                t *= self.nval_atom(k) ** x
            if e:
                t *= mpmath.exp(self.nval_poly(self.c.exps[e]))
            s += t
        return s

    def nval_atom(self, k):
        kind, pl = self.c.atoms[k]
        if kind == 'pi':
            return +mpmath.pi
        if kind == 'cst':
            return pl['val']
        x = self.nval_rf(pl['arg'])
        return {'sqrt': mpmath.sqrt, 'log': mpmath.log, 'erf': mpmath.erf, 'abs': abs, 'sin': mpmath.sin, 'cos': mpmath.cos}[kind](x)

    def nval_rf(self, r):
        v = self.nval_poly(r.n)
        for f, k in r.d.items():
            v /= self.nval_poly(dict(f)) ** k
        return v

    # ---- functions
    def poly_of(self, a):
        """a as a polynomial (denominators become inverse atoms)"""
        if not a.d:
            return a.n
        p = a.n
        for f, k in sorted(a.d.items(), key=lambda t: repr(sorted(t[0], key=repr))):
            i = self.c.atom('inv', f, {'poly': dict(f)})
            p = self.c.pmul(p, {(((i, k),), 0): Fr(1)})
        return p

    def exp(self, a):
        p = self.poly_of(a)
        if not p:
            return RF(ONE)
        # exp(c*log(u)) is left alone
        return RF({((), self.c.expid(p)): Fr(1)})

    def _sqfree(self, n):
        """n = s^2 * r"""
        s, r = 1, 1
        d = 2
        m = n
        while d * d <= m and d < 2000:
            k = 0
            while m % d == 0:
                m //= d
                k += 1
            s *= d ** (k // 2)
            if k % 2:
                r *= d
            d += 1
        q = math.isqrt(m)
        if q * q == m:
            s *= q
        else:
            r *= m
        return s, r

    def sqrt(self, a):
        if not a.n:
            return RF({})
        if a.is_const():
            v = a.val()
            if v < 0:
                raise Unsupported('sqrt of negative')
            s, r = self._sqfree(v.numerator * v.denominator)
            out = rconst(Fr(s, v.denominator))
            if r == 1:
                return out
            arg = rconst(r)
            i = self.c.atom('sqrt', arg.key(), {'arg': arg, 'sq': arg.n})
            return self.mul(out, RF({(((i, 1),), 0): Fr(1)}))
        if not a.d and len(a.n) == 1:
            (m, c), = a.n.items()
            v, e = m
            if c > 0 and self.is_const_poly(a.n) and (c != 1 or e):
                # sqrt(c * pi^k * exp) = sqrt(c) sqrt(pi^k) exp/2
                r = self.sqrt(rconst(c))
                if e:
                    r = self.mul(r, RF({((), self.c.expid(pscale(self.c.exps[e], Fr(1, 2)))): Fr(1)}))
                if v:
                    r = self.mul(r, self.sqrt(RF({(v, 0): Fr(1)})))
                return r
        pl = {'arg': a, 'sq': a.n if not a.d else None}
        i = self.c.atom('sqrt', a.key(), pl)
        return RF({(((i, 1),), 0): Fr(1)})

    def fn(self, kind, a):
        if kind == 'log':
            if a.is_const() and a.val() == 1:
                return RF({})
            if not a.d and len(a.n) == 1:
                (m, c), = a.n.items()
                if c == 1 and not m[0] and m[1]:
                    return RF(self.c.exps[m[1]])
        if kind in ('erf', 'sin', 'cos'):
            if not a.n:
                return RF(ONE) if kind == 'cos' else RF({})
            lead = min(a.n.items(), key=lambda t: (len(t[0][0]), t[0]))
            if lead[1] < 0:
                r = self.fn(kind, self.neg(a))
                return r if kind == 'cos' else self.neg(r)
        if kind == 'abs':
            if not a.n:
                return RF({})
            if self.is_const_rf(a):
                return a if self.nval_rf(a) >= 0 else self.neg(a)
            lead = min(a.n.items(), key=lambda t: (len(t[0][0]), t[0]))
            if lead[1] < 0:
                a = self.neg(a)
            pl = {'arg': a}
            i = self.c.atom('abs', a.key(), pl)
            if 'sq' not in pl and 'sq' not in self.c.atoms[i][1]:
                self.c.atoms[i][1]['sq'] = self.c.pmul(a.n, a.n) if not a.d and len(a.n) <= 12 else None
            return RF({(((i, 1),), 0): Fr(1)})
        i = self.c.atom(kind, a.key(), {'arg': a})
        return RF({(((i, 1),), 0): Fr(1)})

    def fn2(self, kind, a, b):
        i = self.c.atom(kind, (a.key(), b.key()), {'arg': a, 'arg2': b})
        return RF({(((i, 1),), 0): Fr(1)})

    def lit(self, bits):
        v = struct.unpack('<d', struct.pack('<Q', bits))[0]
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        fr = Fr(v)
        if fr.denominator > 1 << 20:
            s = self.lift(v)
            if s is not None:
                return s
        return RF(pconst(fr))

    def lift(self, v):
        if self.c.consts is None:
            pi = RF({(((self.c.PI, 1),), 0): Fr(1)})
            s2 = self.sqrt(rconst(2))
            spi = self.sqrt(pi)
            e = self.exp(rconst(1))
            se = self.exp(rconst(Fr(1, 2)))
            base = [(math.pi, pi), (math.sqrt(2), s2), (math.sqrt(math.pi), spi), (math.e, e), (math.exp(0.5), se),
                    (1 / math.pi, self.inv(pi)), (1 / math.sqrt(math.pi), self.inv(spi)), (1 / math.e, self.inv(e)),
                    (math.exp(-0.5), self.inv(se)), (math.sqrt(2 * math.pi), self.mul(s2, spi)),
                    (1 / math.sqrt(2 * math.pi), self.inv(self.mul(s2, spi))),
                    (math.sqrt(math.pi / 2), self.mul(rconst(Fr(1, 2)), self.mul(s2, spi))),
                    (math.sqrt(3), self.sqrt(rconst(3))),
                    (math.sqrt(math.pi * math.e), self.mul(spi, se)),
                    (math.log(2), self.fn('log', rconst(2)))]
            self.c.consts = base
        for x, r in self.c.consts:
            q = v / x
            for k in (1, 2, 0.5, 4, 0.25, 8, 0.125):
                if abs(abs(q) / k - 1) < 4e-16:
                    return self.mul(rconst(Fr(k) * (1 if q > 0 else -1)), r)
        return None
