"""Discharging obligations with SMT solvers (z3 processes run in parallel)."""
import subprocess, time, os, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
from terms import *
import terms as T

Z3 = os.environ.get('VERIF_Z3', 'z3')
RATE = 2000000     # units of z3's deterministic resource count per second, about
WORKERS = int(os.environ.get('VERIF_JOBS', '8'))
STATS = {'queries': 0, 'seconds': 0.0, 'trivial': 0, 'cached': 0, 'smt': 0}
_lock = threading.Lock()
AXIOMS = []        # functions: set of function names -> list of (name, Term, trigger function names)
CACHE = {}


def flat(ts):
    out = []
    for t in ts:
        if t.op == 'and':
            out.extend(flat(t.args))
        elif t is not TRUE:
            out.append(t)
    return out


def trivial(hyps, goal):
    if goal is TRUE:
        return True
    ids = set()
    for h in hyps:
        if h is FALSE:
            return True
        ids.add(h.id)
        if h.op == 'and':
            for a in h.args:
                ids.add(a.id)
    for h in hyps:
        if Not(h).id in ids:
            return True
    def ok(g):
        if g is TRUE or g.id in ids:
            return True
        if g.op == 'and':
            return all(ok(a) for a in g.args)
        if g.op == 'or':
            return any(ok(a) for a in g.args)
        if g.op == '=>':
            return ok(g.args[1]) or Not(g.args[0]).id in ids
        return False
    return ok(goal)


PRELUDE = """(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.ematching true)
(set-option :smt.random_seed 1)
(declare-sort Str 0)
(declare-datatypes () ((BL BL_nil (BL_snoc (BL_init BL) (BL_last Bool)))))
(declare-datatypes () ((RL RL_nil (RL_snoc (RL_init RL) (RL_last Int)))))
(declare-datatypes () ((PL PL_nil (PL_snoc (PL_init PL) (PL_last Str)))))
"""


def query(hyps, goal, extra=()):
    """SMT-LIB text asserting hyps and the negated goal"""
    pr = Printer()
    ts = [h for h in hyps if h is not TRUE]
    funs = occurs_funs(ts + [goal])
    ax = []
    todo = True
    have = set()
    while todo:
        todo = False
        for n, t, trig in AXIOMS:
            if n in have:
                continue
            if trig & funs:
                have.add(n)
                ax.append(t)
                funs |= occurs_funs([t])
                todo = True
    all_ = ax + ts + [Not(goal)]
    for t in all_:
        pr.scan(t)
    strs = list(pr.strs.values())
    lines = []
    body = []
    for t in all_:
        # defs are emitted before the assertion that first needs them
        s = pr.p(t)
        while pr.defs and len(body) < 0:
            pass
        body.append((len(pr.defs), s))
    head = [PRELUDE]
    for n, s in pr.consts.items():
        head.append('(declare-fun %s () %s)' % (sym(n), s))
    fs = set(pr.funs)
    if strs:
        fs |= {'slen', 'sbyte'}
    for n in sorted(fs):
        a, r = FUNS[n]
        head.append('(declare-fun %s (%s) %s)' % (n, ' '.join(a), r))
    for x in strs:
        head.append('(declare-fun %s () Str)' % sym('str:' + x.data.hex()))
    for x in strs:
        nm = sym('str:' + x.data.hex())
        head.append('(assert (= (slen %s) %d))' % (nm, len(x.data)))
        for k, b in enumerate(x.data[:32]):
            head.append('(assert (= (sbyte %s %d) %d))' % (nm, k, b))
    if len(strs) > 1:
        head.append('(assert (distinct %s))' % ' '.join(sym('str:' + x.data.hex()) for x in strs))
    out = head
    k = 0
    for n, s in body:
        while k < n:
            out.append(pr.defs[k])
            k += 1
        out.append('(assert %s)' % s)
    return '\n'.join(out)


_pids = set()


def runz3(text, timeout, solver=None):
    t0 = time.time()
    cmd = [solver or Z3, '-in', '-T:%d' % max(1, int(timeout + 1)), '-t:%d' % int(timeout * 1000)]
    try:
        p = subprocess.run(cmd, input=text + '\n(check-sat)\n(get-info :reason-unknown)\n', capture_output=True, text=True, timeout=timeout + 10)
        out = p.stdout.strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    dt = time.time() - t0
    with _lock:
        STATS['queries'] += 1
        STATS['seconds'] += dt
    first = out.split('\n')[0] if out else 'error'
    if first not in ('unsat', 'sat', 'unknown', 'timeout'):
        return 'error', out, dt
    return first, out, dt


def dump(text, tag):
    d = os.environ.get('VERIF_DUMP')
    if d:
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, tag + '.smt2'), 'w').write(text + '\n(check-sat)\n')


_goalid = [0]


def prove(hyps, goal, timeout=10, tag=None):
    """True if hyps entail goal"""
    r, out, dt = decide(hyps, goal, timeout, tag)
    return r == 'unsat'


def decide(hyps, goal, timeout=10, tag=None):
    if trivial(hyps, goal):
        STATS['trivial'] += 1
        return 'unsat', 'trivial', 0.0
    text = query(hyps, goal)
    if tag:
        dump(text, tag)
    return runz3(text, timeout)


def pool_map(fn, items):
    if not items:
        return []
    with ThreadPoolExecutor(WORKERS) as ex:
        return list(ex.map(fn, items))


def prove_all(goals, timeout=10):
    """goals: list of (hyps, goal) -> list of bool; printing is done in this thread"""
    res = [None] * len(goals)
    jobs = []
    for k, (h, g) in enumerate(goals):
        if trivial(h, g):
            STATS['trivial'] += 1
            res[k] = True
        else:
            jobs.append((k, query(h, g)))
    for (k, _), r in zip(jobs, pool_map(lambda j: runz3(j[1], timeout)[0] == 'unsat', jobs)):
        res[k] = r
    return res


def conj_split(g):
    if g.op == 'and':
        return [y for x in g.args for y in conj_split(x)]
    if g.op == '=>':
        return [Imp(g.args[0], y) for y in conj_split(g.args[1])]
    return [g]


def discharge(obls, timeout=20, retry=None, progress=None):
    """sets res/secs/out of every obligation"""
    jobs = []
    for o in obls:
        if trivial(o.hyps, o.goal):
            STATS['trivial'] += 1
            o.res, o.out = 'unsat', 'syntactic'
            continue
        text = query(o.hyps, o.goal)
        key = hashlib.sha1(text.encode()).hexdigest()
        jobs.append((o, text, key))
    uniq = {}
    for o, text, key in jobs:
        uniq.setdefault(key, (text, []))[1].append(o)
    items = list(uniq.items())
    stop = [False]

    def work(it):
        key, (text, os_) = it
        if stop[0]:
            return it, ('skipped', 'skipped', 0.0)
        r = runz3(text, timeout)
        if r[0] in ('unknown', 'timeout') and retry:
            for solver, to, seed in retry:
                t2 = text.replace('(set-option :smt.random_seed 1)', '(set-option :smt.random_seed %d)' % seed)
                r2 = runz3(t2, to, solver)
                if r2[0] == 'unsat':
                    r = (r2[0], r2[1] + ' (retry %s seed %d)' % (solver or Z3, seed), r[2] + r2[2])
                    break
        return it, r
    for it, (r, out, dt) in pool_map(work, items):
        for o in it[1][1]:
            o.res, o.out, o.secs = r, out, dt / len(it[1][1])
            STATS['smt'] += 1


# ---------------------------------------------------------------- ground instances of list functions
UNFOLD = {}        # function name -> fn(term) -> list of terms (instances)


def unfold(ts, fuel=2):
    """instances of the definitions of list functions for the ground applications in ts"""
    out = []
    seen, done = set(), set()
    work = [(t, fuel) for t in ts]
    while work:
        x, f = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'app' and not x.fv and x.data in UNFOLD and f > 0 and x.id not in done:
            done.add(x.id)
            for y in UNFOLD[x.data](x):
                if y is not TRUE:
                    out.append(y)
                    work.append((y, f - 1))
        if x.op in ('forall', 'exists'):
            work.append((x.args[0], f))
        else:
            for a in x.args:
                work.append((a, f))
    return out


OPTS = {'a': """(set-option :smt.relevancy 0)
(set-option :smt.arith.solver 2)
(set-option :smt.delay_units true)
(set-option :smt.qi.eager_threshold 100)
""", 'b': """(set-option :smt.case_split 3)
(set-option :smt.arith.solver 2)
(set-option :smt.delay_units true)
(set-option :smt.qi.eager_threshold 100)
""", 'c': ''}


class Session:
    """one incremental z3 process; the assertions are kept as a stack of levels"""

    def __init__(self, strs=(), seed=1, solver=None, axioms=True, opts=None):
        self.opts = OPTS[opts or os.environ.get('VERIF_OPTS', 'b')] if solver in (None, 'z3', 'z3-new') else ''
        self.strs = set(strs) | {b''}
        self.axioms = axioms
        self.seed, self.solver = seed, solver
        self.limits = solver in (None, 'z3', 'z3-new')
        self.used = 0
        self.p = None
        self.queries = 0

    def start(self):
        self.close()
        self.p = subprocess.Popen([self.solver or Z3, '-in', '-memory:4000'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.names, self.consts, self.funs = {}, set(), set()
        self.levels = []
        self.buf = ['(set-option :global-declarations true)', self.opts, PRELUDE.replace('random_seed 1', 'random_seed %d' % self.seed)]
        self.to = None
        self.queries = self.used = 0
        for f in ('slen', 'sbyte'):
            self.fun(f)
        strs = sorted(self.strs)
        for b in strs:
            self.buf.append('(declare-fun %s () Str)' % sym('str:' + b.hex()))
        for b in strs:
            nm = sym('str:' + b.hex())
            self.buf.append('(assert (= (slen %s) %d))' % (nm, len(b)))
            for k, c in enumerate(b[:32]):
                self.buf.append('(assert (= (sbyte %s %d) %d))' % (nm, k, c))
        if len(strs) > 1:
            self.buf.append('(assert (distinct %s))' % ' '.join(sym('str:' + b.hex()) for b in strs))
        for n, t, trig in (AXIOMS if self.axioms else ()):
            self.buf.append('(assert %s)' % self.ref(t))

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def fun(self, n):
        if n not in self.funs:
            self.funs.add(n)
            a, r = FUNS[n]
            self.buf.append('(declare-fun %s (%s) %s)' % (n, ' '.join(a), r))

    def ref(self, t):
        r = self.names.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == 'int':
            s = str(t.data) if t.data >= 0 else '(- %d)' % -t.data
        elif op == 'bool':
            s = 'true' if t.data else 'false'
        elif op == 'var':
            s = sym(t.data)
        elif op == 'const':
            if t.data not in self.consts:
                self.consts.add(t.data)
                self.buf.append('(declare-fun %s () %s)' % (sym(t.data), t.sort))
            s = sym(t.data)
        elif op == 'str':
            if t.data not in self.strs:
                raise NewString(t.data)
            s = sym('str:' + t.data.hex())
        elif op == 'app':
            if t.data in FUNS:
                self.fun(t.data)
            s = t.data if not t.args else '(%s %s)' % (t.data, ' '.join([self.ref(a) for a in t.args]))
        elif op == 'constarr':
            s = '((as const %s) %s)' % (t.sort, self.ref(t.args[0]))
        elif op in ('forall', 'exists'):
            vs = ' '.join('(%s %s)' % (sym(n), so) for n, so in t.data[0])
            body = self.ref(t.args[0])
            flat = t.args[1:]
            ps, i = '', 0
            for k in t.data[1]:
                ps += ' :pattern (%s)' % ' '.join(self.ref(x) for x in flat[i:i + k])
                i += k
            s = '(%s (%s) %s)' % (op, vs, '(! %s%s)' % (body, ps) if ps else body)
        else:
            s = '(%s %s)' % (op, ' '.join([self.ref(a) for a in t.args]))
        if not t.fv:
            if t.args and t.sort != 'Bool' and len(s) > 24:
                n = 'd!%d' % t.id
                self.buf.append('(define-fun %s () %s %s)' % (n, t.sort, s))
                s = n
            self.names[t.id] = s
        elif len(s) < 4000:
            self.names[t.id] = s
        return s

    def align(self, hyps):
        ids = [h.id for h in hyps]
        k, pos = 0, 0
        while k < len(self.levels):
            lv = self.levels[k]
            if ids[pos:pos + len(lv)] == lv:
                pos += len(lv)
                k += 1
            else:
                break
        d = len(self.levels) - k
        if d:
            # keep the common part of the level that differs
            self.buf.append('(pop %d)' % d)
            lv = self.levels[k]
            n = 0
            while n < len(lv) and pos + n < len(ids) and lv[n] == ids[pos + n]:
                n += 1
            del self.levels[k:]
            if n > 8:
                self.push(hyps[pos:pos + n])
                pos += n
        if pos < len(hyps):
            self.push(hyps[pos:])

    def push(self, hs):
        self.buf.append('(push 1)')
        self.levels.append([h.id for h in hs])
        for h in hs:
            s = self.ref(h)
            self.buf.append('(assert %s)' % s)
        for h in unfold(hs):
            s = self.ref(h)
            self.buf.append('(assert %s)' % s)

    def check(self, hyps, extra, goal, timeout=5):
        hyps = [h for h in hyps if h is not TRUE]
        t0 = time.time()
        for attempt in (1, 2):
            if self.p is None or self.queries > 4000 or self.used > 3000000000:
                self.start()
            try:
                self.align(hyps)
                more = list(extra) + ([Not(goal)] if goal is not None else [])
                # the limit that counts is deterministic (z3 compares it with what the process has used so far); time is only a safety net
                if self.to != timeout:
                    self.to = timeout
                    self.buf.append('(set-option :timeout %d)' % int(timeout * 5000))
                self.buf.append('(push 1)')
                for h in more + unfold(more):
                    s = self.ref(h)
                    self.buf.append('(assert %s)' % s)
                self.buf.append('(set-option :rlimit %d)\n(check-sat)\n(set-option :rlimit 0)\n(pop 1)\n(get-info :rlimit)\n' % int(timeout * RATE) if self.limits else '(check-sat)\n(pop 1)\n')
                text = '\n'.join(self.buf)
                if os.environ.get('VERIF_LOG'):
                    open(os.environ['VERIF_LOG'] + '.%d' % self.p.pid, 'a').write(text)
                self.buf = []
                self.p.stdin.write(text)
                self.p.stdin.flush()
                while True:
                    r = self.p.stdout.readline()
                    if r == '':
                        raise BrokenPipeError
                    r = r.strip()
                    if r in ('sat', 'unsat', 'unknown', 'timeout'):
                        break
                    if r.startswith('(error'):
                        if os.environ.get('VERIF_DEBUG'):
                            print('z3:', r)
                        if 'canceled' in r or 'timeout' in r or 'resource' in r:
                            continue
                        self.close()
                        return 'error ' + r
                if self.limits:
                    x = self.p.stdout.readline()
                    while x and ':rlimit' not in x:
                        x = self.p.stdout.readline()
                    self.used = int(x.strip().strip('()').split()[1])
                self.queries += 1
                break
            except NewString as e:
                self.strs.add(e.args[0])
                self.close()
                r = 'error'
            except (BrokenPipeError, OSError, ValueError):
                self.close()
                r = 'error'
        STATS['queries'] += 1
        STATS['seconds'] += time.time() - t0
        return r


class NewString(Exception):
    pass
