"""Encoding of the runtime's expression DAG for z3: REAL (exact reals, transcendental atoms with
axioms) and FP (IEEE double) back ends, plus vectorised numeric evaluation for candidate models."""
import math
import struct
import time
from fractions import Fraction as Fr
import numpy as np
import mpmath
import z3
from norm import Norm, RF, Unsupported, padd, pscale, pis_const, pval, rconst, UNIT, ONE, pconst

np.seterr(all='ignore')


def bits2d(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


class Dag:
    def __init__(self):
        self.op = {}
        self.args = {}
        self.hint = {}
        self.varid = {}

    def add(self, toks):
        i = int(toks[0])
        op = toks[1]
        if op == 'CONST':
            self.op[i] = op
            self.args[i] = int(toks[2], 16)
        elif op in ('VAR', 'BVAR'):
            self.op[i] = op
            self.args[i] = toks[2]
            self.varid[toks[2]] = i
        elif op == 'UF':
            self.op[i] = op
            self.args[i] = (toks[2], tuple(int(t) for t in toks[3:]))
        else:
            self.op[i] = op
            self.args[i] = tuple(int(t) for t in toks[2:5])


ARITY = {'ADD': 2, 'SUB': 2, 'MUL': 2, 'DIV': 2, 'NEG': 1, 'ABS': 1, 'SQRT': 1, 'EXP': 1, 'LOG': 1, 'ERF': 1, 'ERFC': 1,
         'POW': 2, 'MIN': 2, 'MAX': 2, 'DERIV': 2, 'ITE': 3, 'LT': 2, 'LE': 2, 'EQ': 2, 'ISNAN': 1, 'AND': 2, 'OR': 2,
         'NOT': 1, 'SIN': 1, 'COS': 1}


def topo(dag, root, done):
    """ids reachable from root not in done, children first"""
    out = []
    st = [(root, False)]
    seen = set()
    while st:
        n, ex = st.pop()
        if n < 2 or n in done:
            continue
        if ex:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        st.append((n, True))
        op = dag.op[n]
        if op == 'UF':
            ch = dag.args[n][1]
        elif op in ('CONST', 'VAR', 'BVAR'):
            ch = ()
        else:
            ch = dag.args[n][:ARITY[op]]
        for c in ch:
            if c >= 2 and c not in done and c not in seen:
                st.append((c, False))
    return out


# ------------------------------------------------------------------------------------------------
class Numeric:
    """vectorised evaluation over a population of samples"""

    def __init__(self, dag, npop, seed, ieee=False):
        self.dag = dag
        self.n = npop
        self.ieee = ieee
        if ieee:
            np.seterr(all='ignore')
        self.rng = np.random.default_rng(seed)
        self.v = {}
        self.real = None  # RealEnc for DERIV nodes
        from scipy.special import erf, erfc
        self._erf, self._erfc = erf, erfc
        self.erfs = {'ERF': erf, 'ERFC': erfc}

    def sample_var(self, name):
        h = self.dag.hint.get(name)
        n = self.n
        if h is not None:
            lo, hi = h
            u = self.rng.random(n)
            x = lo + (hi - lo) * u
            k = n // 16
            x[:k] = lo
            x[k:2 * k] = hi
            w = hi - lo
            x[2 * k:3 * k] = lo + w * 1e-3 * self.rng.random(k)
            x[3 * k:4 * k] = hi - w * 1e-3 * self.rng.random(k)
            if lo < 0 < hi:
                x[4 * k:5 * k] = 0.0
                x[5 * k:7 * k] = np.clip(self.rng.normal(size=2 * k), lo, hi)
            self.rng.shuffle(x)
            return x
        x = self.rng.normal(size=n) * 1.5
        k = n // 8
        x[:k] = self.rng.integers(-3, 4, size=k)
        x[k:2 * k] = self.rng.normal(size=k) * 30
        if self.ieee:
            x[2 * k:3 * k] = self.rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e300, -1e300, 1e-310], size=k)
            x[3 * k:4 * k] = self.rng.normal(size=k) * 10.0 ** self.rng.integers(-20, 20, size=k)
        self.rng.shuffle(x)
        return x

    def get(self, root):
        if root == 0:
            return np.zeros(self.n, bool)
        if root == 1:
            return np.ones(self.n, bool)
        if root in self.v:
            return self.v[root]
        g = self.v
        for n in topo(self.dag, root, g):
            op = self.dag.op[n]
            a = self.dag.args[n]
            if op == 'CONST':
                g[n] = np.full(self.n, bits2d(a))
            elif op == 'VAR':
                g[n] = self.sample_var(a)
            elif op == 'UF':
                s = np.full(self.n, (sum(map(ord, a[0])) % 97) * 0.7312)
                for j, c in enumerate(a[1]):
                    s = s + g[c] * (3.1 + 1.7 * j)
                g[n] = np.sin(s * 12.9898 + 4.1)
            elif op == 'DERIV':
                g[n] = self.real.eval_rf(self.real.rf(n), self)
            elif op == 'ITE':
                g[n] = np.where(self.get(a[0]), g[a[1]], g[a[2]])
            else:
                k = ARITY[op]
                x = self.get(a[0]) if a[0] < 2 else g[a[0]]
                y = (self.get(a[1]) if a[1] < 2 else g[a[1]]) if k > 1 else None
                if op == 'ADD': r = x + y
                elif op == 'SUB': r = x - y
                elif op == 'MUL': r = x * y
                elif op == 'DIV': r = x / y
                elif op == 'NEG': r = -x
                elif op == 'ABS': r = np.abs(x)
                elif op == 'SQRT': r = np.sqrt(x)
                elif op == 'EXP': r = np.exp(x)
                elif op == 'LOG': r = np.log(x)
                elif op in ('ERF', 'ERFC'): r = self.erfs[op](x)
                elif op == 'SIN': r = np.sin(x)
                elif op == 'COS': r = np.cos(x)
                elif op == 'POW': r = np.power(x, y)
                elif op == 'MIN': r = np.fmin(x, y)
                elif op == 'MAX': r = np.fmax(x, y)
                elif op == 'LT': r = x < y
                elif op == 'LE': r = x <= y
                elif op == 'EQ': r = x == y
                elif op == 'ISNAN': r = np.isnan(x)
                elif op == 'AND': r = x & y
                elif op == 'OR': r = x | y
                elif op == 'NOT': r = ~x
                else:
                    raise Unsupported(op)
                g[n] = r
        return g[root]


# ------------------------------------------------------------------------------------------------
PIVOTS = [-700, -300, -100, -80, -60, -50, -45, -40, -35, -30, -25, -20, -15, -10, -7, -5, -3, -2, -1, Fr(-1, 2), 0, Fr(1, 2), 1, 2, 3, 5, 7, 10, 15, 20, 30, 35, 40, 80]
ERFP = [Fr(1, 10), Fr(1, 4), Fr(1, 2), 1, Fr(3, 2), 2, 3, 4, 5, 6, 7, 8]


def mp2fr(x, up):
    """directed rational approximation of an mpf"""
    x = mpmath.mpf(x)
    if x == 0:
        return Fr(0)
    m, e = mpmath.frexp(x)
    k = int(mpmath.floor(m * 2 ** 60)) + (1 if up else 0)
    return Fr(k) * (Fr(2) ** (int(e) - 60))


def q(fr):
    fr = Fr(fr)
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class RealEnc:
    def __init__(self, dag, stats, goal_timeout_ms=20000):
        self.dag = dag
        self.N = Norm()
        self.c = self.N.c
        self.cache = {}
        self.dcache = {}
        self.st = stats
        self.pc = []           # boolean node ids with polarity
        self.zmono = {}
        self.goal_timeout = goal_timeout_ms
        self.bcache = {}
        self.axcache = {}
        self.lazy_feas = False
        self.opaque = False
        self.opaque_mul = 64
        self.opaque_nodes = set()
        self.const_atoms = 0   # > 0: larger constant expressions become atoms with tight bounds
        self.csize = {}
        self.cval = {}
        self.extra = []        # refinement lemmas: z3 exprs (nl mode)
        self.feas_timeout = 1500

    def set_opaque(self, n):
        self.opaque_nodes.add(n)
        self.cache.clear()
        self.bcache.clear()
        for k in self.opaque_nodes:
            self.cache[k] = RF({(((self.c.atom('opq', ('node', k), {'node': k}), 1),), 0): Fr(1)})

    def const_size(self, n):
        """number of operations of a variable-free expression (0: has variables or is not supported); its value goes to cval"""
        g = self.csize
        if n in g:
            return g[n]
        M = mpmath
        for k in topo(self.dag, n, g):
            op = self.dag.op[k]
            a = self.dag.args[k]
            if op == 'CONST':
                g[k] = 1
                self.cval[k] = self.N.nval_rf(self.N.lit(a))
                continue
            g[k] = 0
            if op not in ('ADD', 'SUB', 'MUL', 'DIV', 'NEG', 'ABS', 'SQRT', 'EXP', 'LOG', 'ERF', 'ERFC'):
                continue
            ar = a[:ARITY[op]]
            if not all(g.get(x) for x in ar):
                continue
            v = [self.cval[x] for x in ar]
            try:
                if op == 'ADD': r = v[0] + v[1]
                elif op == 'SUB': r = v[0] - v[1]
                elif op == 'MUL': r = v[0] * v[1]
                elif op == 'DIV': r = v[0] / v[1]
                elif op == 'NEG': r = -v[0]
                elif op == 'ABS': r = abs(v[0])
                elif op == 'SQRT': r = M.sqrt(v[0])
                elif op == 'EXP': r = M.exp(v[0])
                elif op == 'LOG': r = M.log(v[0])
                elif op == 'ERF': r = M.erf(v[0])
                else: r = M.erfc(v[0])
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            if not isinstance(r, M.mpf) or not M.isfinite(r):
                continue
            self.cval[k] = r
            g[k] = min(1 + sum(g[x] for x in ar), 10 ** 6)
        return g[n]

    # -------- DAG -> RF
    def rf(self, root):
        g = self.cache
        if root in g:
            return g[root]
        N = self.N
        for n in topo(self.dag, root, g):
            op = self.dag.op[n]
            a = self.dag.args[n]
            if op in ('LT', 'LE', 'EQ', 'AND', 'OR', 'NOT', 'ISNAN', 'BVAR'):
                continue
            if self.const_atoms and op != 'CONST' and self.const_size(n) >= self.const_atoms:
                r = RF({(((self.c.atom('cst', n, {'node': n, 'val': self.cval[n]}), 1),), 0): Fr(1)})
            elif op == 'CONST': r = N.lit(a)
            elif op == 'VAR': r = RF({(((self.c.atom('var', a, {'name': a, 'node': n}), 1),), 0): Fr(1)})
            elif op == 'ADD': r = N.add(g[a[0]], g[a[1]])
            elif op == 'SUB': r = N.sub(g[a[0]], g[a[1]])
            elif self.opaque and (op == 'DIV' and not N.is_const_rf(g[a[1]]) or op == 'MUL' and len(g[a[0]].n) * len(g[a[1]].n) > self.opaque_mul):
                # over-approximation: the result is an arbitrary value (the same for equal operands)
                i = self.c.atom('opq', (op, g[a[0]].key(), g[a[1]].key()), {'node': n})
                r = RF({(((i, 1),), 0): Fr(1)})
            elif op == 'MUL': r = N.mul(g[a[0]], g[a[1]])
            elif op == 'DIV': r = N.div(g[a[0]], g[a[1]])
            elif op == 'NEG': r = N.neg(g[a[0]])
            elif op == 'SQRT': r = N.sqrt(g[a[0]])
            elif op == 'EXP': r = N.exp(g[a[0]])
            elif op == 'LOG': r = N.fn('log', g[a[0]])
            elif op == 'ERF': r = N.fn('erf', g[a[0]])
            elif op == 'ERFC': r = N.sub(rconst(1), N.fn('erf', g[a[0]]))
            elif op == 'ABS': r = N.fn('abs', g[a[0]])
            elif op == 'SIN': r = N.fn('sin', g[a[0]])
            elif op == 'COS': r = N.fn('cos', g[a[0]])
            elif op in ('MIN', 'MAX', 'POW'): r = N.fn2(op.lower(), g[a[0]], g[a[1]])
            elif op == 'ITE':
                i = self.c.atom('ite', (a[0], g[a[1]].key(), g[a[2]].key()), {'cond': a[0], 'arg': g[a[1]], 'arg2': g[a[2]], 'node': n})
                r = RF({(((i, 1),), 0): Fr(1)})
            elif op == 'UF':
                args = [g[x] for x in a[1]]
                i = self.c.atom('uf', (a[0], tuple(x.key() for x in args)), {'name': a[0], 'args': args, 'node': n})
                r = RF({(((i, 1),), 0): Fr(1)})
            elif op == 'DERIV':
                r = self.deriv(a[0], a[1])
            else:
                raise Unsupported(op)
            if len(r.n) > 20000:
                raise Unsupported('expression too large')
            g[n] = r
        return g[root]

    def deriv(self, y, x):
        if self.dag.op.get(x) != 'VAR':
            raise Unsupported('derivative with respect to a non-variable')
        N = self.N
        g = {}
        order = topo(self.dag, y, {})
        two_spi = N.div(rconst(2), N.sqrt(RF({(((self.c.PI, 1),), 0): Fr(1)})))
        zero = RF({})
        for n in order:
            op = self.dag.op[n]
            a = self.dag.args[n]
            if op in ('LT', 'LE', 'EQ', 'AND', 'OR', 'NOT', 'ISNAN', 'BVAR'):
                continue
            if op == 'VAR':
                g[n] = rconst(1) if n == x else zero
                continue
            if op == 'CONST':
                g[n] = zero
                continue
            if op == 'UF':
                if any(g[c].n for c in a[1]):
                    raise Unsupported('derivative of UF')
                g[n] = zero
                continue
            d0 = g.get(a[0], zero)
            d1 = g.get(a[1], zero) if ARITY[op] > 1 else zero
            if op == 'ADD': r = N.add(d0, d1)
            elif op == 'SUB': r = N.sub(d0, d1)
            elif op == 'NEG': r = N.neg(d0)
            elif op == 'MUL': r = N.add(N.mul(d0, self.rf(a[1])), N.mul(self.rf(a[0]), d1))
            elif op == 'DIV':
                v = self.rf(a[1])
                r = N.div(d0, v) if d0.n else zero
                if d1.n:
                    r = N.sub(r, N.div(N.mul(self.rf(n), d1), v))
            elif not d0.n and not d1.n and op != 'ITE': r = zero
            elif op == 'SQRT': r = N.div(d0, N.mul(rconst(2), self.rf(n)))
            elif op == 'EXP': r = N.mul(d0, self.rf(n))
            elif op == 'LOG': r = N.div(d0, self.rf(a[0]))
            elif op in ('ERF', 'ERFC'):
                u = self.rf(a[0])
                r = N.mul(N.mul(two_spi, N.exp(N.neg(N.mul(u, u)))), d0)
                if op == 'ERFC': r = N.neg(r)
            elif op == 'ABS': r = N.mul(d0, N.div(self.rf(n), self.rf(a[0])))
            elif op == 'SIN': r = N.mul(d0, N.fn('cos', self.rf(a[0])))
            elif op == 'COS': r = N.neg(N.mul(d0, N.fn('sin', self.rf(a[0]))))
            elif op == 'POW' and not d1.n:
                r = N.mul(N.mul(self.rf(a[1]), N.div(self.rf(n), self.rf(a[0]))), d0)
            else:
                raise Unsupported('derivative of ' + op)
            g[n] = r
        return g[y]

    # -------- numeric evaluation of an RF over a Numeric population
    def eval_poly(self, p, num):
        s = np.zeros(num.n)
        for (v, e), c in p.items():
            t = np.full(num.n, float(c))
            for k, x in v:
                t = t * self.eval_atom(k, num) ** x
            if e:
                t = t * np.exp(self.eval_poly(self.c.exps[e], num))
            s = s + t
        return s

    def eval_atom(self, k, num):
        ck = ('atom', k)
        if ck in num.v:
            return num.v[ck]
        kind, pl = self.c.atoms[k]
        if kind == 'pi': r = np.full(num.n, math.pi)
        elif kind in ('var', 'uf', 'ite', 'opq', 'cst'): r = num.get(pl['node'])
        elif kind == 'inv': r = 1 / self.eval_poly(pl['poly'], num)
        else:
            x = self.eval_rf(pl['arg'], num)
            if kind == 'sqrt': r = np.sqrt(x)
            elif kind == 'log': r = np.log(x)
            elif kind == 'erf': r = num._erf(x)
            elif kind == 'abs': r = np.abs(x)
            elif kind == 'sin': r = np.sin(x)
            elif kind == 'cos': r = np.cos(x)
            else:
                y = self.eval_rf(pl['arg2'], num)
                r = {'min': np.fmin, 'max': np.fmax, 'pow': np.power}[kind](x, y)
        num.v[ck] = r
        return r

    def eval_rf(self, r, num):
        v = self.eval_poly(r.n, num)
        for f, k in r.d.items():
            v = v / self.eval_poly(dict(f), num) ** k
        return v

    # -------- z3 terms.  mode 'nl': products; mode 'lin': one variable per monomial
    def z_atom(self, k):
        kind, pl = self.c.atoms[k]
        return z3.Real('%s_%d%s' % (kind, k, '_' + pl['name'] if pl and 'name' in pl else ''))

    def z_exp(self, e):
        return z3.Real('exp_%d' % e)

    def z_mono(self, m, mode, used):
        used[0].update(k for k, _ in m[0])
        if m[1]:
            used[1].add(m[1])
        key = (m, mode)
        r = self.zmono.get(key)
        if r is None:
            fs = []
            for k, x in m[0]:
                fs += [self.z_atom(k)] * x
            if m[1]:
                fs.append(self.z_exp(m[1]))
            if len(fs) == 1:
                r = fs[0]
            elif mode == 'lin':
                r = z3.Real('mono_' + '_'.join('%d^%d' % kx for kx in m[0]) + ('_e%d' % m[1] if m[1] else ''))
            else:
                r = fs[0]
                for f in fs[1:]:
                    r = r * f
            self.zmono[key] = r
        return r

    def z_poly(self, p, mode, used):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            if m == UNIT:
                ts.append(q(c))
            else:
                t = self.z_mono(m, mode, used)
                ts.append(t if c == 1 else q(c) * t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def mono_sign(self, m):
        """+1 manifestly > 0, +2 manifestly >= 0, 0 unknown"""
        r = 1
        for k, x in m[0]:
            kind, pl = self.c.atoms[k]
            if kind in ('pi',):
                continue
            if kind == 'cst' and pl['val'] > 1e-20:
                continue
            if kind == 'sqrt':
                if self.N.is_const_rf(pl['arg']):
                    continue
                r = 2
                continue
            if kind == 'abs' or x % 2 == 0:
                r = 2
                continue
            return 0
        return r

    def manifest_sign(self, p):
        """1 / -1 if p is manifestly positive / negative, else 0"""
        if self.N.is_const_poly(p):
            v = self.N.nval_poly(p)
            if abs(v) > mpmath.mpf(10) ** -25:
                return 1 if v > 0 else -1
            return 0
        for s in (1, -1):
            strict = False
            ok = True
            for m, c in p.items():
                g = self.mono_sign(m)
                if not g or c * s < 0:
                    ok = False
                    break
                if g == 1:
                    strict = True
            if ok and strict:
                return s
        return 0

    def cmp0(self, r, op, mode, used):
        """z3 bool for  r op 0, op in lt, le, eq"""
        if not r.n:
            return z3.BoolVal(op != 'lt')
        if self.N.is_const_rf(r):
            v = self.N.nval_rf(r)
            if abs(v) > mpmath.mpf(10) ** -25:
                return z3.BoolVal(op != 'eq' and v < 0)
        n = r.n
        sg = 1
        rest = []
        for f, k in r.d.items():
            if k % 2 == 0:
                continue
            s = self.manifest_sign(dict(f))
            if s:
                sg *= s
            else:
                rest.append(dict(f))
        # drop a manifestly positive monomial factor of the numerator
        sp = self.N.split(n)
        if sp is not None:
            (m, c), = sp[0].items()
            if self.mono_sign(m) == 1:
                n = pscale(dict(sp[1]), c)
        zn = self.z_poly(n, mode, used)
        if op == 'eq':
            return zn == 0
        neg = (zn < 0) if op == 'lt' else (zn <= 0)
        pos = (zn > 0) if op == 'lt' else (zn >= 0)
        if sg < 0:
            neg, pos = pos, neg
        if not rest:
            return neg
        # sign of the product of the remaining odd factors
        par = None
        for f in rest:
            b = self.z_poly(f, mode, used) < 0
            par = b if par is None else z3.Xor(par, b)
        return z3.If(par, pos, neg)

    def z_bool(self, b, mode, used):
        if b == 0:
            return z3.BoolVal(False)
        if b == 1:
            return z3.BoolVal(True)
        key = (b, mode)
        if key in self.bcache:
            r, ua, ue = self.bcache[key]
            used[0].update(ua)
            used[1].update(ue)
            return r
        u = (set(), set())
        op = self.dag.op[b]
        a = self.dag.args[b]
        if op == 'AND': r = z3.And(self.z_bool(a[0], mode, u), self.z_bool(a[1], mode, u))
        elif op == 'OR': r = z3.Or(self.z_bool(a[0], mode, u), self.z_bool(a[1], mode, u))
        elif op == 'NOT': r = z3.Not(self.z_bool(a[0], mode, u))
        elif op in ('LT', 'LE', 'EQ'):
            d = self.N.sub(self.rf(a[0]), self.rf(a[1]))
            r = self.cmp0(d, op.lower(), mode, u)
        elif op == 'ISNAN': r = z3.BoolVal(False)
        else:
            raise Unsupported('bool ' + op)
        self.bcache[key] = (r, u[0], u[1])
        used[0].update(u[0])
        used[1].update(u[1])
        return r

    # -------- axioms for the atoms in use
    def axioms(self, used, mode):
        """side constraints for used atoms/exp keys, closed under the atoms of their arguments"""
        out = []
        atoms, exps = used
        doneA, doneE = set(), set()
        while True:
            todoA = atoms - doneA
            todoE = exps - doneE
            if not todoA and not todoE:
                break
            for k in sorted(todoA):
                doneA.add(k)
                self.cached_axioms('a', self.atom_axioms, k, mode, used, out)
            for e in sorted(todoE):
                doneE.add(e)
                self.cached_axioms('e', self.exp_axioms, e, mode, used, out)
        # pairwise
        el = sorted(e for e in exps if not self.N.is_const_poly(self.c.exps[e]))
        if len(el) <= 8:
            for i in range(len(el)):
                for j in range(i):
                    d = padd(self.c.exps[el[i]], pscale(self.c.exps[el[j]], Fr(-1)))
                    u = (set(), set())
                    zd = self.z_poly(d, mode, u)
                    atoms |= u[0]
                    exps |= u[1]
                    a, b = self.z_exp(el[i]), self.z_exp(el[j])
                    out.append(z3.And((zd > 0) == (a > b), (zd < 0) == (a < b)))
                    if not padd(self.c.exps[el[i]], self.c.exps[el[j]]):
                        out.append(a * b == 1)
                    # e_i = e_j^2
                    if not padd(self.c.exps[el[i]], pscale(self.c.exps[el[j]], Fr(-2))):
                        out.append(a == b * b)
                    if not padd(self.c.exps[el[j]], pscale(self.c.exps[el[i]], Fr(-2))):
                        out.append(b == a * a)
        er = sorted(k for k in atoms if self.c.atoms[k][0] == 'erf')
        if len(er) <= 8:
            for i in range(len(er)):
                for j in range(i):
                    d = self.N.sub(self.c.atoms[er[i]][1]['arg'], self.c.atoms[er[j]][1]['arg'])
                    a, b = self.z_atom(er[i]), self.z_atom(er[j])
                    out.append(self.cmp0(d, 'lt', mode, used) == (a < b))
                    out.append(self.cmp0(self.N.neg(d), 'lt', mode, used) == (a > b))
                    d = self.N.add(self.c.atoms[er[i]][1]['arg'], self.c.atoms[er[j]][1]['arg'])
                    out.append(self.cmp0(d, 'lt', mode, used) == (a + b < 0))
                    out.append(self.cmp0(self.N.neg(d), 'lt', mode, used) == (a + b > 0))
        lg = sorted(k for k in atoms if self.c.atoms[k][0] == 'log')
        for k in lg[:4]:
            arg = self.c.atoms[k][1]['arg']
            for e in el[:4]:
                # log(arg) >= p  <=>  arg >= exp(p)
                d = self.N.sub(arg, RF({((), e): Fr(1)}))
                zp = self.z_poly(self.c.exps[e], mode, used)
                out.append((self.z_atom(k) < zp) == self.cmp0(d, 'lt', mode, used))
            for j in lg[:4]:
                if j < k:
                    d = self.N.sub(arg, self.c.atoms[j][1]['arg'])
                    out.append((self.z_atom(k) < self.z_atom(j)) == self.cmp0(d, 'lt', mode, used))
                    out.append((self.z_atom(k) > self.z_atom(j)) == self.cmp0(self.N.neg(d), 'lt', mode, used))
        ufs = [k for k in atoms if self.c.atoms[k][0] == 'uf']
        for i in range(len(ufs)):
            for j in range(i):
                p1, p2 = self.c.atoms[ufs[i]][1], self.c.atoms[ufs[j]][1]
                if p1['name'] == p2['name'] and len(p1['args']) == len(p2['args']) and len(ufs) <= 24:
                    eqs = [self.cmp0(self.N.sub(x, y), 'eq', mode, used) for x, y in zip(p1['args'], p2['args'])]
                    out.append(z3.Implies(z3.And(eqs), self.z_atom(ufs[i]) == self.z_atom(ufs[j])))
        # the pairwise part may have pulled in more atoms; give them their basic axioms
        for k in sorted(atoms - doneA):
            self.atom_axioms(k, mode, (set(), set()), out)
        for e in sorted(exps - doneE):
            out.append(self.z_exp(e) > 0)
        return out

    def cached_axioms(self, tag, f, k, mode, used, out):
        key = (tag, k, mode)
        r = self.axcache.get(key)
        if r is None:
            u, o = (set(), set()), []
            f(k, mode, u, o)
            r = self.axcache[key] = (o, u)
        out.extend(r[0])
        used[0].update(r[1][0])
        used[1].update(r[1][1])

    def exp_axioms(self, e, mode, used, out):
        p = self.c.exps[e]
        E = self.z_exp(e)
        if self.N.is_const_poly(p):
            v = mpmath.exp(self.N.nval_poly(p))
            out.append(E >= q(mp2fr(v * (1 - mpmath.mpf(10) ** -30), False)))
            out.append(E <= q(mp2fr(v * (1 + mpmath.mpf(10) ** -30), True)))
            return
        zp = self.z_poly(p, mode, used)
        out.append(E > 0)
        out.append(E >= 1 + zp)
        if mode == 'nl':
            out.append(E * (1 - zp) <= 1)
        for c in PIVOTS:
            v = mpmath.exp(mpmath.mpf(Fr(c).numerator) / Fr(c).denominator)
            lo, hi = mp2fr(v, False), mp2fr(v, True)
            out.append(z3.Implies(zp <= q(c), E <= q(hi)))
            out.append(z3.Implies(zp >= q(c), E >= q(lo)))

    def atom_axioms(self, k, mode, used, out):
        kind, pl = self.c.atoms[k]
        a = self.z_atom(k)
        N = self.N
        if kind == 'pi':
            out.append(a >= q(mp2fr(mpmath.pi - mpmath.mpf(10) ** -30, False)))
            out.append(a <= q(mp2fr(mpmath.pi + mpmath.mpf(10) ** -30, True)))
        elif kind == 'cst':
            w = abs(pl['val']) * mpmath.mpf(10) ** -25 + mpmath.mpf(10) ** -28
            out.append(a >= q(mp2fr(pl['val'] - w, False)))
            out.append(a <= q(mp2fr(pl['val'] + w, True)))
        elif kind == 'sqrt':
            if N.is_const_rf(pl['arg']):
                v = mpmath.sqrt(N.nval_rf(pl['arg']))
                out.append(a >= q(mp2fr(v * (1 - mpmath.mpf(10) ** -30), False)))
                out.append(a <= q(mp2fr(v * (1 + mpmath.mpf(10) ** -30), True)))
            else:
                out.append(a >= 0)
                if mode == 'nl':
                    r = pl['arg']
                    zn = self.z_poly(r.n, mode, used)
                    if r.d:
                        zd = self.z_poly(N.den_poly(r.d), mode, used)
                        out.append(a * a * zd == zn)
                    else:
                        out.append(a * a == zn)
        elif kind == 'inv':
            if mode == 'nl':
                out.append(a * self.z_poly(pl['poly'], mode, used) == 1)
        elif kind == 'abs':
            neg = self.cmp0(pl['arg'], 'lt', mode, used)
            r = pl['arg']
            out.append(a >= 0)
            if not r.d:
                z = self.z_poly(r.n, mode, used)
                out.append(a == z3.If(neg, -z, z))
            else:
                d1 = N.sub(RF({(((k, 1),), 0): Fr(1)}), r)
                d2 = N.add(RF({(((k, 1),), 0): Fr(1)}), r)
                out.append(z3.If(neg, self.cmp0(d2, 'eq', mode, used), self.cmp0(d1, 'eq', mode, used)))
        elif kind in ('min', 'max'):
            lt = self.cmp0(N.sub(pl['arg'], pl['arg2']), 'lt', mode, used)
            me = RF({(((k, 1),), 0): Fr(1)})
            e1 = self.cmp0(N.sub(me, pl['arg']), 'eq', mode, used)
            e2 = self.cmp0(N.sub(me, pl['arg2']), 'eq', mode, used)
            out.append(z3.If(lt, e1, e2) if kind == 'min' else z3.If(lt, e2, e1))
        elif kind == 'ite':
            me = RF({(((k, 1),), 0): Fr(1)})
            cz = self.z_bool(pl['cond'], mode, used)
            out.append(z3.If(cz, self.cmp0(N.sub(me, pl['arg']), 'eq', mode, used), self.cmp0(N.sub(me, pl['arg2']), 'eq', mode, used)))
        elif kind == 'erf':
            r = pl['arg']
            if N.is_const_rf(r):
                v = mpmath.erf(N.nval_rf(r))
                w = mpmath.mpf(10) ** -30
                out.append(a >= q(mp2fr(v - w, False)))
                out.append(a <= q(mp2fr(v + w, True)))
                return
            out.append(a < 1)
            out.append(a > -1)
            out.append((a > 0) == self.cmp0(N.neg(r), 'lt', mode, used))
            out.append((a < 0) == self.cmp0(r, 'lt', mode, used))
            for c in ERFP:
                v = mpmath.erf(mpmath.mpf(Fr(c).numerator) / Fr(c).denominator)
                mpmath.mp.dps = 60
                tail = mpmath.erfc(mpmath.mpf(Fr(c).numerator) / Fr(c).denominator)
                mpmath.mp.dps = 40
                hi = 1 - mp2fr(tail * (1 - mpmath.mpf(10) ** -20), False)
                lo = 1 - mp2fr(tail * (1 + mpmath.mpf(10) ** -20), True)
                ge = z3.Not(self.cmp0(N.sub(r, rconst(c)), 'lt', mode, used))
                le = self.cmp0(N.sub(r, rconst(c)), 'le', mode, used)
                out.append(z3.Implies(ge, a >= q(lo)))
                out.append(z3.Implies(le, a <= q(hi)))
                ge = z3.Not(self.cmp0(N.add(r, rconst(c)), 'lt', mode, used))
                le = self.cmp0(N.add(r, rconst(c)), 'le', mode, used)
                out.append(z3.Implies(le, a <= q(-lo)))
                out.append(z3.Implies(ge, a >= q(-hi)))
        elif kind == 'log':
            r = pl['arg']
            if N.is_const_rf(r):
                v = mpmath.log(N.nval_rf(r))
                w = mpmath.mpf(10) ** -30
                out.append(a >= q(mp2fr(v - w, False)))
                out.append(a <= q(mp2fr(v + w, True)))
                return
            d = N.sub(r, rconst(1))
            out.append((a > 0) == self.cmp0(N.neg(d), 'lt', mode, used))
            out.append((a < 0) == self.cmp0(d, 'lt', mode, used))
            # log(u) <= u - 1
            out.append(self.cmp0(N.sub(RF({(((k, 1),), 0): Fr(1)}), d), 'le', mode, used))
            for c in (-20, -10, -5, -2, 2, 5, 10, 20, 36, 41):
                v = mpmath.exp(c)
                lo, hi = mp2fr(v, False), mp2fr(v, True)
                out.append(z3.Implies(a >= c, z3.Not(self.cmp0(N.sub(r, rconst(lo)), 'lt', mode, used))))
                out.append(z3.Implies(a <= c, self.cmp0(N.sub(r, rconst(hi)), 'le', mode, used)))
        elif kind in ('sin', 'cos'):
            out.append(a <= 1)
            out.append(a >= -1)
        elif kind == 'pow':
            out.append(z3.Implies(z3.Not(self.cmp0(pl['arg'], 'le', mode, used)), a > 0))

    def divisor_facts(self, mode, used):
        out = []
        for f in self.c.divisors:
            p = dict(f)
            if self.manifest_sign(p) or len(p) > 40:
                continue
            # only divisors whose atoms are already in use
            at = set()
            for (v, e) in p:
                at |= {k for k, _ in v}
            if at <= used[0]:
                out.append(self.z_poly(p, mode, used) != 0)
        return out

    # -------- ideal-membership style strengthening for mode 'lin'
    def hyp_polys(self):
        out = []
        for b, pol in self.pc:
            if pol and self.dag.op.get(b) == 'EQ':
                a = self.dag.args[b]
                d = self.N.sub(self.rf(a[0]), self.rf(a[1]))
                if d.n:
                    out.append(d.n)
        # s^2 = arg for sqrt atoms with denominators, inv atoms
        for k, (kind, pl) in enumerate(self.c.atoms):
            if kind == 'sqrt' and pl.get('sq') is None:
                r = pl['arg']
                out.append(padd(self.c.pmul({(((k, 2),), 0): Fr(1)}, self.N.den_poly(r.d)), pscale(r.n, Fr(-1))))
            elif kind == 'inv':
                out.append(padd(self.c.pmul({(((k, 1),), 0): Fr(1)}, pl['poly']), pconst(-1)))
        return out

    def goal_polys(self, b, acc):
        if b < 2:
            return
        op = self.dag.op[b]
        a = self.dag.args[b]
        if op in ('AND', 'OR', 'NOT'):
            self.goal_polys(a[0], acc)
            if op != 'NOT':
                self.goal_polys(a[1], acc)
        elif op in ('LT', 'LE', 'EQ'):
            d = self.N.sub(self.rf(a[0]), self.rf(a[1]))
            if d.n:
                acc.append(d.n)

    def lin_products(self, b, rounds=2, cap=3000):
        hyps = self.hyp_polys()
        if not hyps:
            return []
        goals = []
        self.goal_polys(b, goals)
        frontier = set()
        for p in goals:
            frontier |= set(p.keys())
        # abs atoms of goals: also their arguments
        for m in list(frontier):
            for k, _ in m[0]:
                kind, pl = self.c.atoms[k]
                if kind == 'abs':
                    frontier |= set(pl['arg'].n.keys())
        prods = {}
        seen = set()
        for r in range(rounds):
            new = set()
            for g in frontier:
                if g in seen:
                    continue
                seen.add(g)
                gd = dict(g[0])
                for hi, h in enumerate(hyps):
                    for t in h:
                        if t == UNIT:
                            continue
                        q_ = dict(gd)
                        ok = True
                        for k, x in t[0]:
                            if q_.get(k, 0) < x:
                                ok = False
                                break
                            q_[k] -= x
                            if not q_[k]:
                                del q_[k]
                        if not ok:
                            continue
                        e = self.c.exp_add(g[1], self.c.exp_neg(t[1])) if t[1] else g[1]
                        m = (tuple(sorted(q_.items())), e)
                        if (hi, m) in prods:
                            continue
                        pr = self.c.pmul(h, {m: Fr(1)})
                        prods[(hi, m)] = pr
                        new |= set(pr.keys())
                        if len(prods) > cap:
                            return list(prods.values())
            frontier = new
        return list(prods.values())

    # -------- queries
    def run(self, assertions, timeout, want_model=False, tactic=None):
        s = z3.Solver() if tactic is None else z3.SolverFor(tactic)
        s.set('timeout', int(timeout))
        for a in assertions:
            s.add(a)
        t = time.time()
        r = s.check()
        self.st.queries += 1
        self.st.time += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        self.st.unknown += 1
        return 'unknown', None

    def base(self, mode, used, extra_bools):
        out = []
        for b, pol in self.pc:
            z = self.z_bool(b, mode, used)
            out.append(z if pol else z3.Not(z))
        for b, pol in extra_bools:
            z = self.z_bool(b, mode, used)
            out.append(z if pol else z3.Not(z))
        return out

    def feasible(self, b, pol):
        """may the path continue with b == pol?  (unknown counts as yes)"""
        try:
            used2 = (set(), set())
            L = self.base('lin', used2, [(b, pol)])
            if not self.lazy_feas:
                L += self.axioms(used2, 'lin')
            r, _ = self.run(L, 500)
            if r == 'unsat':
                return False
            if self.lazy_feas:
                return True
            used = (set(), set())
            A = self.base('nl', used, [(b, pol)])
            A += self.axioms(used, 'nl')
            A += self.divisor_facts('nl', used)
        except Unsupported:
            return True
        r, _ = self.run(A, self.feas_timeout)
        return r != 'unsat'

    def prove(self, b):
        """('proved'|'model'|'unknown', model dict)"""
        used = (set(), set())
        L = self.base('lin', used, [(b, False)])
        if self.lazy_feas:
            r, _ = self.run(L, 3000)
            if r == 'unsat':
                return 'proved', None
        # products of equality hypotheses, as linear facts over monomials
        for p in self.lin_products(b):
            L.append(self.z_poly(p, 'lin', used) == 0)
        L += self.axioms(used, 'lin')
        r, _ = self.run(L, 10000)
        if r == 'unsat':
            return 'proved', None
        lemmas = []
        model = None
        for rnd in range(6):
            used = (set(), set())
            A = self.base('nl', used, [(b, False)])
            A += self.axioms(used, 'nl')
            A += self.divisor_facts('nl', used)
            A += lemmas
            r, m = self.run(A, self.goal_timeout if rnd == 0 else self.goal_timeout / 2)
            if r == 'unsat':
                return 'proved', None
            if r == 'unknown':
                return ('model', model) if model is not None else ('unknown', None)
            model = self.extract(m)
            new = self.refine(m, used)
            if not new:
                return 'model', model
            lemmas += new
        return 'model', model

    def zval(self, m, e):
        v = m.eval(e, model_completion=True)
        if z3.is_rational_value(v):
            return Fr(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            v = v.approx(20)
            return Fr(v.numerator_as_long(), v.denominator_as_long())
        return None

    def extract(self, m):
        out = {}
        for k, (kind, pl) in enumerate(self.c.atoms):
            if kind == 'var':
                v = self.zval(m, self.z_atom(k))
                if v is not None:
                    try:
                        out[pl['name']] = float(v)
                    except OverflowError:
                        pass
        return out

    def refine(self, m, used):
        out = []
        for e in sorted(used[1]):
            p = self.c.exps[e]
            if self.N.is_const_poly(p):
                continue
            u = (set(), set())
            zp = self.z_poly(p, 'nl', u)
            pv, Ev = self.zval(m, zp), self.zval(m, self.z_exp(e))
            if pv is None or Ev is None or abs(pv) > 690:
                continue
            c = Fr(int(round(pv * 1024)), 1024)
            t = mpmath.exp(mpmath.mpf(c.numerator) / c.denominator)
            lo, hi = mp2fr(t, False), mp2fr(t, True)
            E = self.z_exp(e)
            tv = float(t)
            if abs(float(Ev) - math.exp(float(pv))) <= 1e-6 * (1 + math.exp(float(pv))):
                continue
            out.append(E >= q(lo) * (1 + zp - q(c)))
            out.append(E * (1 - zp + q(c)) <= q(hi))
            out.append(z3.Implies(zp <= q(c), E <= q(hi)))
            out.append(z3.Implies(zp >= q(c), E >= q(lo)))
        for k in sorted(used[0]):
            kind, pl = self.c.atoms[k]
            if kind == 'erf' and not self.N.is_const_rf(pl['arg']):
                r = pl['arg']
                u = (set(), set())
                zn = self.z_poly(r.n, 'nl', u)
                nv = self.zval(m, zn)
                if nv is None:
                    continue
                dv = Fr(1)
                if r.d:
                    dv = self.zval(m, self.z_poly(self.N.den_poly(r.d), 'nl', u))
                    if not dv:
                        continue
                av = nv / dv
                ev = self.zval(m, self.z_atom(k))
                if abs(av) > 8 or ev is None or abs(float(ev) - math.erf(float(av))) < 1e-6:
                    continue
                c = Fr(int(round(av * 1024)), 1024)
                t = mpmath.erf(mpmath.mpf(c.numerator) / c.denominator)
                lo, hi = mp2fr(t - mpmath.mpf(10) ** -25, False), mp2fr(t + mpmath.mpf(10) ** -25, True)
                a = self.z_atom(k)
                d = self.N.sub(r, rconst(c))
                out.append(z3.Implies(self.cmp0(d, 'le', 'nl', u), a <= q(hi)))
                out.append(z3.Implies(z3.Not(self.cmp0(d, 'lt', 'nl', u)), a >= q(lo)))
                # Lipschitz bounds around c: |erf(x)-erf(c)| <= 2/sqrt(pi)|x-c|
                if not r.d:
                    zd = zn - q(c)
                    out.append(z3.Implies(zd >= 0, a <= q(hi) + q(Fr(11284, 10000)) * zd))
                    out.append(z3.Implies(zd <= 0, a >= q(lo) + q(Fr(11284, 10000)) * zd))
        return out


# ------------------------------------------------------------------------------------------------
class FpEnc:
    """IEEE doubles.  Products, quotients and transcendental functions of symbolic values are
    fresh variables in the first (abstract) encoding and exact in the second where z3 can."""

    def __init__(self, dag, stats, goal_timeout_ms=20000):
        self.dag = dag
        self.st = stats
        self.pc = []
        self.g = {0: {}, 1: {}, 2: {}}   # 0: + and - abstract as well, 1: * / abstract, 2: exact
        self.ax = {0: {}, 1: {}, 2: {}}
        self.sort = z3.Float64()
        self.rm = z3.RNE()
        self.goal_timeout = goal_timeout_ms
        self.feas_timeout = 4000
        self.exact_feas = True
        self.solver = None
        self.npc = 0
        self.asserted = set()

    def term(self, root, exact):
        g = self.g[exact]
        ax = self.ax[exact]
        if root in g:
            return g[root]
        for n in topo(self.dag, root, g):
            op = self.dag.op[n]
            a = self.dag.args[n]
            if op == 'CONST':
                r = z3.fpBVToFP(z3.BitVecVal(a, 64), self.sort)
                v = bits2d(a)
                r = z3.FPVal(v, self.sort) if v == v else z3.fpNaN(self.sort)
            elif op == 'VAR': r = z3.FP('v_' + a, self.sort)
            elif op == 'UF':
                f = z3.Function('uf_' + a[0], *([self.sort] * (len(a[1]) + 1)))
                r = f(*[g[c] for c in a[1]])
            elif op == 'ADD' and exact: r = z3.fpAdd(self.rm, g[a[0]], g[a[1]])
            elif op == 'SUB' and exact: r = z3.fpSub(self.rm, g[a[0]], g[a[1]])
            elif op == 'NEG': r = z3.fpNeg(g[a[0]])
            elif op == 'ABS': r = z3.fpAbs(g[a[0]])
            elif op == 'LT': r = z3.fpLT(g[a[0]], g[a[1]])
            elif op == 'LE': r = z3.fpLEQ(g[a[0]], g[a[1]])
            elif op == 'EQ': r = z3.fpEQ(g[a[0]], g[a[1]])
            elif op == 'ISNAN': r = z3.fpIsNaN(g[a[0]])
            elif op == 'AND': r = z3.And(self.b(a[0], exact), self.b(a[1], exact))
            elif op == 'OR': r = z3.Or(self.b(a[0], exact), self.b(a[1], exact))
            elif op == 'NOT': r = z3.Not(self.b(a[0], exact))
            elif op == 'ITE': r = z3.If(self.b(a[0], exact), g[a[1]], g[a[2]])
            elif op in ('MIN', 'MAX'):
                x, y = g[a[0]], g[a[1]]
                lt = z3.fpLT(x, y)
                r = z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(lt, x, y) if op == 'MIN' else z3.If(lt, y, x)))
            elif op == 'MUL' and exact == 2: r = z3.fpMul(self.rm, g[a[0]], g[a[1]])
            elif op == 'DIV' and exact == 2: r = z3.fpDiv(self.rm, g[a[0]], g[a[1]])
            elif op == 'SQRT' and exact == 2: r = z3.fpSqrt(self.rm, g[a[0]])
            else:
                r = z3.FP('abs_%s_%d' % (op, n), self.sort)
                xs = [g[c] for c in a[:ARITY[op]]]
                l = []
                zero = z3.FPVal(0.0, self.sort)
                anynan = z3.Or([z3.fpIsNaN(x) for x in xs])
                l.append(z3.Implies(anynan, z3.fpIsNaN(r)))
                if op in ('ADD', 'SUB'):
                    x, y = xs
                    ny = y if op == 'ADD' else z3.fpNeg(y)
                    for u in (x, ny):
                        l.append(z3.Implies(z3.fpIsInf(u), z3.Or(z3.fpIsNaN(r), r == u)))
                    l.append(z3.Implies(z3.And(z3.fpGEQ(x, zero), z3.fpGEQ(ny, zero)), z3.fpGEQ(r, zero)))
                    l.append(z3.Implies(z3.And(z3.fpLEQ(x, zero), z3.fpLEQ(ny, zero)), z3.fpLEQ(r, zero)))
                    l.append(z3.Implies(z3.And(z3.Not(anynan), z3.Not(z3.And(z3.fpIsInf(x), z3.fpIsInf(y)))), z3.Not(z3.fpIsNaN(r))))
                elif op in ('MUL', 'DIV'):
                    x, y = xs
                    fin = z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpIsInf(y)))
                    if op == 'MUL':
                        l.append(z3.Implies(fin, z3.Not(z3.fpIsNaN(r))))
                        l.append(z3.Implies(z3.And(fin, z3.Or(z3.fpIsZero(x), z3.fpIsZero(y))), z3.fpIsZero(r)))
                    neg = z3.Xor(z3.fpIsNegative(x), z3.fpIsNegative(y))
                    l.append(z3.Implies(z3.Not(z3.fpIsNaN(r)), z3.fpIsNegative(r) == neg))
                elif op == 'SQRT':
                    l.append(z3.Implies(z3.fpGEQ(xs[0], zero), z3.fpGEQ(r, zero)))
                elif op == 'EXP':
                    l.append(z3.Implies(z3.Not(anynan), z3.fpGEQ(r, zero)))
                ax[n] = l
            g[n] = r
        return g[root]

    def b(self, i, exact):
        if i == 0:
            return z3.BoolVal(False)
        if i == 1:
            return z3.BoolVal(True)
        return self.term(i, exact)

    def axs(self, exact):
        return [x for l in self.ax[exact].values() for x in l]

    def run(self, A, timeout):
        s = z3.SolverFor('QF_FP') if True else z3.Solver()
        s.set('timeout', int(timeout))
        for a in A:
            s.add(a)
        t = time.time()
        r = s.check()
        self.st.queries += 1
        self.st.time += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        self.st.unknown += 1
        return 'unknown', None

    def conj(self, exact, extra):
        out = []
        for b, pol in self.pc + extra:
            z = self.b(b, exact)
            out.append(z if pol else z3.Not(z))
        return out + self.axs(exact)

    def feasible(self, b, pol):
        r, _ = self.run(self.conj(0, [(b, pol)]), self.feas_timeout)
        if r != 'unsat' and self.exact_feas:
            r, _ = self.run(self.conj(1, [(b, pol)]), self.feas_timeout)
        return r != 'unsat'

    def extract(self, m):
        out = {}
        for name, i in self.dag.varid.items():
            t = self.g[2].get(i)
            if t is None:
                t = self.g[1].get(i)
            if t is None:
                t = self.g[0].get(i)
            if t is None:
                continue
            v = m.eval(t, model_completion=True)
            try:
                if z3.is_fp_value(v):
                    if v.isNaN():
                        out[name] = float('nan')
                    elif v.isInf():
                        out[name] = float('-inf') if v.isNegative() else float('inf')
                    else:
                        bv = z3.simplify(z3.fpToIEEEBV(v))
                        out[name] = bits2d(bv.as_long())
            except Exception:
                pass
        return out

    def prove(self, b, levels=(0, 1, 2)):
        best = None
        self.exact_model = False
        for lv in levels:
            r, m = self.run(self.conj(lv, [(b, False)]), self.goal_timeout)
            if r == 'unsat':
                return 'proved', None
            if r == 'sat':
                best = m
                self.exact_model = lv == 2
            if lv == 0 and not self.ax[0]:
                break
            if lv == 1 and not self.ax[1]:
                break
        return ('model', self.extract(best)) if best is not None else ('unknown', None)
