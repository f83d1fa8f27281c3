"""Runs the tasks of FULL mode (functions under contract, lemmas) in parallel processes and collects the obligations."""
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import full
import objinv
import contracts
import lists
import solve
import steps
from full import ALLP, FALSE, Light, Obl, Unsupported

JOBS = int(os.environ.get('VERIF_JOBS', '8'))
HEAVY = ['(remark.Aggregate).AddFactToStory:A', '(remark.Aggregate).CreateChildStory:A', '(remark.Aggregate).AddRemarkToFact:A', '(*fact.Repository).AppendChildStory:A',
         '(*phrase.Repository).Provide:A', '(*fact.Repository).AppendFact:A', '(*semnet.Graph).CreateStory:A', '(phrase.Element).ProvideNextElement:A', '(word.Element).ProvideNextElement:A',
         '(*phrase.Elements).ProvideFirstElement:A', '(*word.Elements).ProvideFirstElement:A', '(*word.Repository).Provide:A', '(*character.Repository).Provide:A', '(*detail.Repository).Provide:A']
FEW = 3          # open obligations of a chunk that get the long limits


class OutOfTime(BaseException):
    pass


def alarm(*_):
    raise OutOfTime()


def tasks_of(prog):
    """(tasks, skipped): functions of the code that are gone or have another signature lose their contract unless users call them"""
    out, skipped = [], []
    for fn, c in contracts.CONTRACTS.items():
        f = prog.funcs.get(fn)
        sig = signature(prog, fn) if f else None
        if sig != contracts.SIGS.get(fn, sig) or f is None:
            if not contracts.user_level(fn):
                skipped.append(fn)
                continue
        for sc in c.scens:
            out.append(('fn', fn, sc))
    for fn in skipped:
        contracts.CONTRACTS.pop(fn)
    for nm, sc in steps.lemma_tasks():
        out.append(('lemma', nm, sc))
    out.append(('lists', 'lists', ''))
    rank = {n: k for k, n in enumerate(HEAVY)}
    out.sort(key=lambda t: rank.get(t[1] + ':' + t[2], 100 + (t[0] == 'fn')))
    return out, skipped


def signature(prog, fn):
    f = prog.funcs[fn]
    return '%s -> %s' % (', '.join(p['t'] for p in f['params']), ', '.join(prog.T(f['sig'])['results']))


def unsupported(fn, why):
    return Obl(fn, 'within reach of the verifier: %s' % why, 'unsupported', ALLP, [], FALSE, why)


def symbolic(prog, task):
    """(mode, ex) of one task"""
    kind, name, scen = task
    sess = solve.Session(seed=1)
    mode = full.Full(prog, sess, scen or 'A')
    try:
        if kind == 'lists':
            ex = full.Ex(prog, mode, 'lemmas about lists')
            ex.exits = 1
            ex.obls = []
            for nm, hyps, goal in lists.lemmas():
                o = Obl('lemmas about lists', nm, 'lemma', ALLP, hyps, goal, '')
                ex.obls.append(o)
        elif kind == 'lemma':
            ex = steps.lemma(mode, name, scen)
        else:
            ex = full.verify(mode, name)
    except OutOfTime:
        ex = mode.ex or full.Ex(prog, mode, name)
        ex.obls = [unsupported(name, 'out of time')]
        ex.exits = 0
    except Exception as e:
        ex = mode.ex or full.Ex(prog, mode, name)
        ex.obls = (ex.obls or []) + [unsupported(name, '%s: %s' % (type(e).__name__, traceback.format_exc().strip().split('\n')[-3:]))]
        ex.exits = 0
    sess.close()
    return mode, ex


class Token:
    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.write(self.w, b'x' * n)

    def get(self):
        os.read(self.r, 1)

    def put(self):
        os.write(self.w, b'x')


def dump(path, x):
    with open(path + '.part', 'wb') as f:
        pickle.dump(x, f)
    os.rename(path + '.part', path)


def spawn(fn):
    """fn in a forked process"""
    sys.stdout.flush()
    pid = os.fork()
    if pid:
        return pid
    rc = 1
    try:
        fn()
        rc = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stderr.flush()
        os._exit(rc)


def run_task(prog, task, k, d, tok, want, timeout, retry, deadline):
    def work():
        t0 = time.time()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(max(1, int(deadline - t0)))
        for x in solve.STATS:
            solve.STATS[x] = 0
        try:
            mode, ex = symbolic(prog, task)
        finally:
            signal.alarm(0)
        obls = [o for o in ex.obls if want is None or set(o.props) & want]
        n = max(6, (len(obls) + 11) // 12)
        chunks = [obls[i:i + n] for i in range(0, len(obls), n)]
        first = [[Light(o.fn, o) for o in c] for c in chunks]
        dump('%s/%d.task' % (d, k), dict(task=task, chunks=first, exits=ex.exits, inlined=sorted(ex.inlined), assumed=sorted(ex.assumed), called=sorted(mode.called), lemmas=sorted(mode.lemmas),
                                         loops={a: b[-1] for a, b in mode.loop_log.items()}, stats=dict(solve.STATS), symbolic=time.time() - t0, all=len(ex.obls)))
        tok.put()
        kids = []
        for j, c in enumerate(chunks):
            tok.get()
            if time.time() > deadline:
                tok.put()
                break

            def chunk(c=c, j=j):
                try:
                    for x in solve.STATS:
                        solve.STATS[x] = 0
                    t1 = time.time()
                    axioms = task[0] != 'lists'
                    ls = full.discharge(mode, c, None, timeout, retry, lambda so, se: solve.Session(seed=se, solver=so, axioms=axioms), deadline, FEW)
                    dump('%s/%d.%d.chunk' % (d, k, j), dict(obls=ls, stats=dict(solve.STATS), secs=time.time() - t1))
                finally:
                    tok.put()
            kids.append(spawn(chunk))
        for p in kids:
            os.waitpid(p, 0)
    return spawn(work)


def check(prog, prop, tier, timeout, retry, only=None):
    want = None
    deadline = time.time() + (450 if tier == 'quick' else 3000)
    objinv.chosen(prog)
    tasks, skipped = tasks_of(prog)
    if only:
        tasks = [t for t in tasks if only(t)]
    d = tempfile.mkdtemp(prefix='tasks.', dir=os.environ.get('VERIF_TMP'))
    tok = Token(JOBS)
    pids = []
    for k, t in enumerate(tasks):
        tok.get()
        pids.append(run_task(prog, t, k, d, tok, want, timeout, retry, deadline))
    for p in pids:
        os.waitpid(p, 0)
    obls, info = [], {'functions': [], 'inlined': set(), 'assumed': set(), 'loops': {}}
    called, lemmas = set(), set()
    sym = {}
    done = set((t[1], t[2]) for t in tasks)
    total = 0
    stats = dict(solve.STATS)
    times = {}
    for k, t in enumerate(tasks):
        f = '%s/%d.task' % (d, k)
        if not os.path.exists(f):
            l = Light(t[1], unsupported(t[1], 'the process of this task ended early or ran out of time'))
            l.res = 'error'
            obls.append(l)
            continue
        r = pickle.load(open(f, 'rb'))
        total += r['all']
        secs = r['symbolic']
        for x in stats:
            stats[x] += r['stats'].get(x, 0)
        if t[0] == 'fn':
            info['functions'].append(t[1])
        info['inlined'] |= set(r['inlined'])
        info['assumed'] |= set(r['assumed'])
        for a, b in r['loops'].items():
            info['loops']['%s (%s)' % (a, t[2])] = b
        called |= set(r['called'])
        lemmas |= set(r['lemmas'])
        mine = []
        for j, c in enumerate(r['chunks']):
            g = '%s/%d.%d.chunk' % (d, k, j)
            if os.path.exists(g):
                q = pickle.load(open(g, 'rb'))
                secs += q['secs']
                for x in stats:
                    stats[x] += q['stats'].get(x, 0)
                mine += q['obls']
            else:
                for l in c:
                    l.res, l.out = 'error', 'out of time'
                    mine.append(l)
        for l in mine:
            if t[2]:
                l.name += ' {%s}' % t[2]
        obls += mine
        times['%s:%s' % (t[1], t[2])] = secs
    missing = sorted(x for x in called if x not in done) + sorted(x for x in lemmas if x not in done)
    for fn, sc in missing if not only else ():
        l = Light(fn, unsupported(fn, 'the contract or lemma is used (%s) but not verified' % sc))
        l.res = 'error'
        obls.append(l)
    solve.STATS.update(stats)
    info['inlined'], info['assumed'] = sorted(info['inlined']), sorted(info['assumed'])
    info['extra'] = {'obligations_generated_for_all_properties': total, 'lemmas_proved': sum(1 for t in tasks if t[0] != 'fn'), 'contracts_without_function': skipped,
                     'slowest_tasks_cpu_s': {a: round(b, 1) for a, b in sorted(times.items(), key=lambda x: -x[1])[:8]}}
    info['assumptions'] = list(lists.TRUSTED_LIB)
    return obls, info
