"""Path exploration: the instrumented program is re-executed once per path; every branch on a
symbolic value is decided by the solver, alternatives are queued."""
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback
import pickle
import struct
import json
from multiprocessing import Process, Pipe
from multiprocessing.connection import wait as mp_wait
import numpy as np
from encode import Dag, Numeric, RealEnc, FpEnc, Stats
from norm import Unsupported


class Cfg:
    def __init__(self, **kw):
        self.mode = 'real'
        self.env = {}
        self.npop = 2048
        self.path_time = 120
        self.goal_timeout = 20000
        self.feas_timeout = 1500
        self.wit_timeout = 3000
        self.max_forks = 10 ** 9
        self.opaque = False
        self.opaque_first = False
        self.const_atoms = 0
        self.lazy_feas = False
        self.decision_cut = False
        self.exact_feas = True
        self.max_decisions = 400
        self.seed = 1
        self.replay_env = {}
        self.replay_seeds = 6
        self.slack = None
        self.branch_first = 1
        self.native_witness = True
        self.__dict__.update(kw)


def fmt(v):
    if v != v:
        return 'nan'
    if v in (float('inf'), float('-inf')):
        return 'inf' if v > 0 else '-inf'
    return float(v).hex()


class PathRun:
    def __init__(self, binaries, cfg, prefix, conn):
        self.b = binaries
        self.cfg = cfg
        self.prefix = prefix
        self.conn = conn
        self.taken = []
        self.choices = []
        self.ccount = {}
        self.dag = Dag()
        self.st = Stats()
        self.st.checks = 0
        self.num = None
        self.alive = None
        if cfg.mode == 'real':
            self.enc = RealEnc(self.dag, self.st, cfg.goal_timeout)
            self.num = Numeric(self.dag, cfg.npop, cfg.seed + len(prefix))
            self.num.real = self.enc
            self.alive = np.ones(cfg.npop, bool)
        else:
            self.enc = FpEnc(self.dag, self.st, cfg.goal_timeout)
            self.num = Numeric(self.dag, 8 * cfg.npop, cfg.seed + len(prefix), True)
            self.alive = np.ones(8 * cfg.npop, bool)
        self.enc.feas_timeout = cfg.feas_timeout
        self.enc.exact_feas = cfg.exact_feas
        self.enc.opaque = cfg.opaque
        if cfg.mode == 'real':
            self.enc.const_atoms = cfg.const_atoms
        self.enc.lazy_feas = cfg.lazy_feas
        self.enco = None
        if cfg.mode == 'real' and cfg.opaque_first:
            # quotients and large products as opaque atoms, no path condition: sound for proofs only
            self.enco = RealEnc(self.dag, self.st, cfg.goal_timeout)
            self.enco.opaque = True
            self.enco.opaque_mul = 30000
        self.notes = []
        self.poison = []
        self.proven = set()
        self.reported = set()
        self.tried = 0
        self.forks = 0

    def send(self, *m):
        self.conn.send(m)

    # ---- population helpers
    def popval(self, b):
        if self.num is None:
            return None
        try:
            return self.num.get(b)
        except (Unsupported, KeyError, FloatingPointError):
            return None

    def restrict(self, b, pol):
        self.enc.pc.append((b, pol))
        if self.alive is not None:
            v = self.popval(b)
            if v is None:
                self.alive = np.zeros_like(self.alive)
            else:
                self.alive = self.alive & (v if pol else ~v)

    def branch(self, b):
        # decisions are recorded as 0/1 when only one side was possible and 2/3 when both were
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if k >= self.cfg.max_decisions or self.forks >= self.cfg.max_forks:
                if self.cfg.decision_cut:
                    self.send('cut', 'bound: %s' % ('%d decisions on a path' % k if k >= self.cfg.max_decisions else '%d two-sided decisions on a path' % self.forks))
                else:
                    self.send('undecided', 'decision-bound', 'more than %d decisions on a path' % k)
                return None
            v = self.popval(b)
            t = v is not None and bool((self.alive & v).any())
            f = v is not None and bool((self.alive & ~v).any())
            if not t:
                t = self.enc.feasible(b, True)
            if not f:
                f = self.enc.feasible(b, False) if t else True
            if t and f:
                d = self.cfg.branch_first | 2
                self.send('prefix', self.taken + [(1 - self.cfg.branch_first) | 2])
            elif t:
                d = 1
            else:
                # neither side established: verify the other side really is feasible
                d = 0
        self.taken.append(d)
        self.forks += d >> 1
        d &= 1
        self.restrict(b, bool(d))
        return d

    def choose(self, name, n):
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for i in range(1, n):
                self.send('prefix', self.taken + [i])
        self.taken.append(d)
        c = self.ccount.get(name, 0)
        self.ccount[name] = c + 1
        self.choices.append(('%s@%d' % (name, c), d))
        return d

    # ---- replay on the uninstrumented build
    def replay(self, vals, seed=1, slack=None):
        txt = ''
        for n, v in sorted(vals.items()):
            txt += 'v %s %s\n' % (n, fmt(v))
        for n, k in self.choices:
            txt += 'c %s %d\n' % (n, k)
        txt += 'seed %d\n' % seed
        sl = slack or self.cfg.slack or ((0.0, 0.0) if self.cfg.mode == 'fp' else None)
        if sl:
            txt += 'slack %r %r\n' % sl
        self.tried += 1
        fn = os.path.join(os.path.dirname(self.b['replay']), 'rp_%d_%d.txt' % (os.getpid(), self.tried))
        with open(fn, 'w') as f:
            f.write(txt)
        env = dict(os.environ)
        env.update(self.cfg.env)
        env.update(self.cfg.replay_env)
        env['OPENBLAS_NUM_THREADS'] = '1'
        try:
            r = subprocess.run([self.b['replay'], fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env, cwd=os.path.dirname(self.b['sym']))
            rc, out = r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            rc, out = -999, 'TIMEOUT'
        os.unlink(fn)
        return rc, out, txt

    def candidates(self, model, b):
        """assignments worth replaying"""
        if model is not None:
            yield dict(model), 1
        if self.alive is not None and b is not None and b >= 2:
            try:
                ok = self.alive & ~self.num.get(b)
                idx = np.nonzero(ok)[0]
                for i in idx[:12]:
                    vals = {}
                    for name, vid in self.dag.varid.items():
                        if vid in self.num.v:
                            vals[name] = float(self.num.v[vid][i])
                    yield vals, 1
            except (Unsupported, KeyError):
                pass
        if self.cfg.mode == 'real':
            if self.alive is not None:
                idx = np.nonzero(self.alive)[0][:4]
                for i in idx:
                    vals = {n: float(self.num.v[v][i]) for n, v in self.dag.varid.items() if v in self.num.v}
                    yield vals, 1
            for s in range(1, self.cfg.replay_seeds + 1):
                yield {}, s

    def try_reproduce(self, model, b, label, want='check'):
        seen = 0
        log = []
        for vals, seed in self.candidates(model, b):
            rc, out, txt = self.replay(vals, seed)
            log.append(rc)
            seen += 1
            if want == 'check' and rc == 1:
                labs = re.findall(r'^CHECK-FAILED (.*)$', out, re.M)
                return txt, labs, out
            if want == 'check' and rc in (-6, -11, -8, -7, 134, 139, 136, 135):
                return txt, ['crash'], out
            if want == 'crash' and (rc < 0 and rc != -999 or rc in (134, 139, 136)):
                return txt, ['crash'], out
            if want == 'uncaught' and (rc == 5 or rc == 1):
                return txt, [re.findall(r'^UNCAUGHT(.*)$', out, re.M)[0] if 'UNCAUGHT' in out else 'check'], out
            if want == 'hang' and rc == -999:
                return txt, ['does not terminate'], out
            if seen > 30:
                break
        self.last_rc = log
        return None

    def identity(self, b):
        if self.cfg.mode != 'real':
            return 0
        pc, self.enc.pc = self.enc.pc, []
        try:
            r, _ = self.enc.run(self.enc.base('lin', (set(), set()), [(b, False)]), 5000)
            return int(r == 'unsat')
        except Unsupported:
            return 0
        finally:
            self.enc.pc = pc

    def check(self, b, label):
        self.st.checks += 1
        if b == 1 or (b, label) in self.proven:
            self.send('check', label, 'trivial' if b == 1 else 'proved', None)
            return
        if label in self.reported:
            return
        status, model = 'model', None
        if b == -1:
            status = 'poison'
        elif b == 0:
            status = 'model'
            model = self.pc_model()
            if model is False:
                self.send('check', label, 'proved', 'path infeasible')
                return
        else:
            try:
                if self.enco is not None:
                    try:
                        r, _ = self.enco.run(self.enco.base('lin', (set(), set()), [(b, False)]), 2000)
                        if r == 'unsat':
                            self.proven.add((b, label))
                            self.send('check', label, 'proved', None)
                            return
                    except Unsupported:
                        pass
                status, model = self.enc.prove(b)
            except Unsupported as e:
                status = 'unknown'
                self.notes.append('unsupported: %s' % e)
        if status == 'proved':
            self.proven.add((b, label))
            self.send('check', label, 'proved', None)
            return
        if b == -1:
            model = self.pc_model() or {}
        rep = self.try_reproduce(model if isinstance(model, dict) else None, b if b >= 2 else None, label)
        if rep:
            self.reported.add(label)
            self.send('violation', label, rep[0], rep[1], status, rep[2][-2000:])
        else:
            self.send('check', label, 'undecided', '%s; replays %s %s; choices %s' % (status, getattr(self, 'last_rc', []), self.notes[-1:], ' '.join('%s=%d' % (a.split('@')[0], b) for a, b in self.choices)))

    def pc_model(self):
        """a model of the path condition; False if infeasible"""
        if self.alive is not None and self.alive.any():
            i = np.nonzero(self.alive)[0][0]
            return {n: float(self.num.v[v][i]) for n, v in self.dag.varid.items() if v in self.num.v}
        try:
            g = self.enc.goal_timeout
            self.enc.goal_timeout = min(g, self.cfg.wit_timeout)
            if self.cfg.mode == 'fp':
                st, m = self.enc.prove(0, (0, 2))
                if st == 'model' and self.enc.ax[0] and not self.enc.exact_model:
                    m = None   # model of the abstraction only
            else:
                st, m = self.enc.prove(0)
            self.enc.goal_timeout = g
        except Unsupported:
            return None
        if st == 'proved':
            return False
        return m

    # ---- main loop
    def go(self):
        cfg = self.cfg
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ)
        env.update(cfg.env)
        env.update({'VMODE': cfg.mode, 'VSYM_OUT': str(w1), 'VSYM_IN': str(r2)})
        p = subprocess.Popen([self.b['sym']], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=(w1, r2), env=env, cwd=os.path.dirname(self.b['sym']))
        self.proc = p
        os.close(w1)
        os.close(r2)
        fin = os.fdopen(r1, 'r', buffering=1 << 16)
        status = 'eof'
        funcs = []

        def reply(s):
            try:
                os.write(w2, (s + '\n').encode())
            except BrokenPipeError:
                pass
        for line in fin:
            c = line[0]
            t = line.split()
            if c == 'N':
                self.dag.add(t[1:])
            elif c == 'H':
                self.dag.hint[t[1]] = (float(t[2]), float(t[3]))
            elif c == 'Q':
                reply(str(self.identity(int(t[1]))))
            elif c == 'O':
                if self.enco is not None:
                    self.enco.set_opaque(int(t[1]))
                    self.enc.set_opaque(int(t[1]))
            elif c == 'B':
                d = self.branch(int(t[1]))
                reply('X' if d is None else str(d))
            elif c == 'C':
                reply(str(self.choose(t[1], int(t[2]))))
            elif c == 'A':
                self.restrict(int(t[1]), True)
                reply('1')
            elif c == 'K':
                self.check(int(t[1]), line.split(' ', 2)[2].rstrip('\n'))
                reply('1')
            elif c == 'P':
                self.poison.append(line.strip())
                reply('0')
            elif c == 'M':
                self.notes.append(line[2:].strip())
            elif c == 'U':
                self.send('cut', line[2:].strip())
            elif c == 'T':
                self.check_uncaught(line[2:].strip())
            elif c == 'F':
                funcs = [int(x) for x in t[1:]]
            elif c == 'Z':
                status = line[2:].strip()
                break
        p.kill()
        p.wait()
        fin.close()
        os.close(w2)
        if status == 'eof':
            # crashed: is it the code under test?
            m = self.pc_model()
            if m is not False:
                rep = self.try_reproduce(m if isinstance(m, dict) else None, None, 'crash', 'crash')
                if rep:
                    self.send('violation', 'no-crash', rep[0], rep[1], 'crash rc=%s' % p.returncode, rep[2][-2000:])
                else:
                    self.send('undecided', 'crash', 'instrumented run died rc=%s; replays %s' % (p.returncode, self.last_rc))
        wit = None
        if status == 'ok':
            m = self.pc_model() if self.st.checks else None
            wit = 'infeasible' if m is False else ('sat' if m is not None else 'unknown')
            if isinstance(m, dict) and not self.reported and cfg.native_witness:
                rc, out, txt = self.replay(m)
                self.send('native', rc, out[-300:] if rc not in (0, 77, 78) else '', txt)
        self.send('end', status, funcs, self.st.queries, self.st.time, self.st.unknown, len(self.taken), wit, self.notes[:20], len(self.poison), len(self.dag.op))

    def check_uncaught(self, what):
        self.st.checks += 1
        m = self.pc_model()
        if m is False:
            return
        rep = self.try_reproduce(m if isinstance(m, dict) else None, None, what, 'uncaught')
        if rep:
            self.send('violation', 'no-unexpected-exception', rep[0], rep[1], 'uncaught: ' + what, rep[2][-2000:])
        else:
            self.send('undecided', 'uncaught', what + ' (not reproduced natively: %s)' % self.last_rc)


def job(binaries, cfg, prefix, conn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    pr = PathRun(binaries, cfg, prefix, conn)
    try:
        pr.go()
    except Exception:
        try:
            pr.proc.kill()
        except Exception:
            pass
        conn.send(('undecided', 'engine', traceback.format_exc()[-1500:]))
    conn.close()
    os._exit(0)


class Result:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.labels = {}
        self.violations = []
        self.undecided = []
        self.cuts = {}
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.funcs = set()
        self.maxdepth = 0
        self.unexplored = 0
        self.wit = 0
        self.notes = {}
        self.poison = 0
        self.maxnodes = 0
        self.path_timeouts = 0
        self.native_ok = 0
        self.native_bad = []
        self.samples = []
        self.decisions = 0


def explore(binaries, cfg, deadline, workers=8, on_violation=None, stop_first=True, verbose=False):
    """depth-first over prefixes with a pool of one-process-per-path workers"""
    res = Result()
    front = [[]]
    active = {}
    stop = False
    while (front or active) and not stop:
        while front and len(active) < workers and time.time() < deadline:
            pre = front.pop()
            a, b = Pipe(False)
            pr = Process(target=job, args=(binaries, cfg, pre, b))
            pr.start()
            b.close()
            active[a] = (pr, pre, time.time())
        if not active:
            break
        for c in mp_wait(list(active), timeout=0.5):
            pr, pre, t0 = active[c]
            try:
                m = c.recv()
            except EOFError:
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                c.close()
                del active[c]
                continue
            k = m[0]
            if k == 'prefix':
                front.append(m[1])
            elif k == 'check':
                d = res.labels.setdefault(m[1], {'proved': 0, 'undecided': 0, 'trivial': 0})
                d[m[2]] += 1
                if m[2] == 'undecided':
                    res.undecided.append((m[1], m[3]))
                    if verbose:
                        print('   undecided', m[1], m[3], file=sys.stderr)
            elif k == 'undecided':
                res.undecided.append((m[1], m[2]))
                if verbose:
                    print('   undecided', m[1], m[2][-600:], file=sys.stderr)
            elif k == 'violation':
                v = {'label': m[1], 'replay': m[2], 'native_labels': m[3], 'status': m[4], 'native_output': m[5], 'prefix': pre}
                if on_violation is None or on_violation(v):
                    res.violations.append(v)
                    if stop_first:
                        stop = True
                d = res.labels.setdefault(m[1], {'proved': 0, 'undecided': 0, 'trivial': 0})
                d['violated'] = d.get('violated', 0) + 1
            elif k == 'native':
                if m[1] == 0:
                    res.native_ok += 1
                    if len(res.samples) < 6:
                        res.samples.append({'path': list(pre)[:40], 'witness': m[3].replace('\n', '; ')[:600], 'native': 'all assertions hold'})
                elif m[1] not in (77, 78):
                    res.native_bad.append([m[1], m[2], m[3]])
                    if verbose:
                        print('   NATIVE DISAGREES', m[1], m[2], m[3].replace('\n', ';'), file=sys.stderr)
            elif k == 'cut':
                res.cuts[m[1]] = res.cuts.get(m[1], 0) + 1
            elif k == 'end':
                _, status, funcs, q, t, u, depth, wit, notes, npois, nn = m
                res.paths += 1
                if verbose and time.time() - t0 > 15:
                    print('   slow', round(time.time() - t0, 1), pre, status, depth, q, round(t, 1), nn, file=sys.stderr)
                res.decisions += max(0, depth - len(pre)) + (1 if pre else 0)
                if status.startswith('X assume'):
                    res.infeasible += 1
                res.queries += q
                res.solver_s += t
                res.unknown += u
                res.funcs |= set(funcs)
                res.maxdepth = max(res.maxdepth, depth)
                res.maxnodes = max(res.maxnodes, nn)
                res.poison += npois
                if wit == 'sat':
                    res.wit += 1
                for n in notes:
                    res.notes[n] = res.notes.get(n, 0) + 1
        now = time.time()
        for c in list(active):
            pr, pre, t0 = active[c]
            if now - t0 > cfg.path_time or now > deadline + 20:
                # the child may have a subprocess: kill its group members by pid tree
                kill_tree(pr.pid)
                c.close()
                del active[c]
                res.path_timeouts += 1
                if verbose:
                    print('   killed', pre, file=sys.stderr)
                res.undecided.append(('path-time-limit', 'prefix %s' % (pre,)))
    for c in list(active):
        kill_tree(active[c][0].pid)
        if not stop:
            res.undecided.append(('deadline', 'path not finished'))
    res.unexplored = len(front)
    return res


def kill_tree(pid):
    try:
        kids = subprocess.run(['pgrep', '-P', str(pid)], stdout=subprocess.PIPE, text=True).stdout.split()
    except Exception:
        kids = []
    for k in kids + [pid]:
        try:
            os.kill(int(k), signal.SIGKILL)
        except OSError:
            pass
    try:
        os.waitpid(int(pid), 0)
    except OSError:
        pass
