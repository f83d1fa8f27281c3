"""FULL mode: functional contracts over the data structure invariant of the storage."""
import os
import sys
import time
import multiprocessing
from modes import *
import modes
import objinv
import engine
import solve
from state import *
import state
import lists
from lists import pref, rev, ARR, lemmas

ALLP = ('C01', 'C02', 'C03', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20')
ENT = {KINDS[k][1] + '.Entity': k for k in KINDS}
NODESORT = {'failed': 'Bool', 'stC': 'Bool', 'stB': 'Bool'}
WRITES = ('Create', 'SetReference', 'Connect')
ALIVE_FRAME = REALN


FAM = {}
for _k in 'CWPDRFS':
    FAM['is' + _k] = _k
for _k in 'CWP':
    for _n in ('val', 'of', 'ix'):
        FAM[_n + _k] = _k
for _k, _ns in (('D', 'dO dP ofD dI dJ'), ('R', 'rD rF'), ('F', 'fFirst fStory fOrd'), ('S', 'sLen sFact cPar cOrd cLen cSt')):
    for _n in _ns.split():
        FAM[_n] = _k
PKGF = {'bit': '', 'class': '', 'character': 'C', 'word': 'CW', 'phrase': 'CWP', 'detail': 'PD', 'remark': 'PDRFS', 'fact': 'DRFS', 'story': 'RFS', 'semnet': 'PDRFS'}
ADJ = {'C': 'C', 'W': 'WC', 'P': 'PW', 'D': 'DP', 'R': 'RDF', 'F': 'FRS', 'S': 'SF'}
_fam = {}
NOF = frozenset()


def fams(t):
    """kinds of entities whose ghost state a term mentions"""
    r = _fam.get(t.id)
    if r is None:
        if t.op == 'const':
            b = t.data.split('!')[0].rsplit('.', 1)[-1]
            r = frozenset((FAM[b],)) if b in FAM and t.sort.startswith('(') else NOF
        else:
            r = NOF
            for a in t.args:
                f = fams(a)
                if f and not f <= r:
                    r = r | f
        _fam[t.id] = r
    return r


_vers = {}


def vers(t):
    """the versions of state arrays a term mentions"""
    r = _vers.get(t.id)
    if r is None:
        if t.op == 'const':
            b = t.data.split('!')[0].rsplit('.', 1)
            r = frozenset((t.id,)) if len(b) == 2 and b[1] in SORTS and t.sort.startswith('(') else NOF
        else:
            r = NOF
            for a in t.args:
                f = vers(a)
                if f and not f <= r:
                    r = r | f
        _vers[t.id] = r
    return r


def sliced(hyps, cur):
    return [h for h in hyps if h.op != 'forall' or vers(h) <= cur]


def relevant(hyps, keep):
    return [h for h in hyps if h.op != 'forall' or fams(h) <= keep]


def key(sig):
    return tuple(sig[n].id for n in SORTS)


def steps_partrole():
    import steps
    return steps.PARTROLE


INVEDGES = {b: a for a, b in EDGES.items()}


class Full(Mode):
    wprops = ALLP
    timeout = 5

    def __init__(self, prog, sess, scen):
        super().__init__(prog)
        self.sess = sess
        self.scen = scen
        self.icache = {}
        self.entry_sig = None
        self.rout, self.rin = set(), set()
        self.pruned = 0
        self.fams = frozenset('CWPDRFS')
        self.called = set()
        self.lemmas = set()
        self.ex = None

    # ------------------------------------------------------------ solver helpers
    def entails(self, hyps, fact, timeout=2):
        if isinstance(fact, (list, tuple)):
            return all(self.entails(hyps, f, timeout) for f in fact)
        extra = []
        if not isinstance(fact, Term):
            extra, fact = fact.goal()
        if fact is TRUE or solve.trivial(hyps, fact):
            return True
        if self.ex is not None and self.ex.probing:
            timeout = min(timeout, 0.3)
        return self.sess.check(relevant(hyps, self.fams), extra, fact, timeout) == 'unsat'

    def infeasible(self, st):
        return self.sess.check(relevant(st.pc, self.fams), [], None, 2) == 'unsat'

    def holds(self, st, g):
        return g is TRUE or g is not FALSE and self.entails(st.pc, g)

    def true(self, st, c):
        if c is TRUE or c.id in st.pcs:
            return True
        if c is FALSE or Not(c).id in st.pcs:
            return False
        r = self.entails(sliced(st.pc, self.versions(st) | vers(c)), c, 1) or self.entails(st.pc, c, 1)
        if r:
            st.pcs.add(c.id)
            st.pc.append(c)
        return r

    def prune(self, ex, st):
        if st.dead:
            return True
        if ex.probing:
            return False
        if self.sess.check(relevant(st.pc, self.fams), [], None, 2) == 'unsat':
            st.dead = True
            self.pruned += 1
            return True
        return False

    def lit(self, st, t):
        """t as a literal integer if the path says so"""
        if t.op == 'int':
            return t
        for k in range(0, 9):
            if eq(t, I(k)).id in st.pcs:
                return I(k)
        for h in st.pc:
            if h.op == '=>' and h.args[0].id in st.pcs:
                for c in (h.args[1].args if h.args[1].op == 'and' else (h.args[1],)):
                    if c.op == '=' and t in c.args:
                        o = c.args[0] if c.args[1] is t else c.args[1]
                        if o.op == 'int':
                            return o
        return t

    def touch(self, st, *ts):
        for t in ts:
            if t.op == 'ite':
                self.touch(st, *t.args[1:])
            st.add(F('touch', t))

    def resolve(self, st, t):
        """t as one of the nodes created here, if it provably is one"""
        mine = st.hist.get('mine', ())
        if t in mine or t.op == 'int':
            return t
        for m in mine:
            if eq(t, m).id in st.pcs:
                return m
        if not mine or t.id in st.hist.get('foreign', ()):
            return t
        before = st.hist.get('before', {})
        left = [m for m in mine if t.id not in before.get(m, ())]
        if left:
            pc = sliced(st.pc, self.versions(st) | vers(t))
            if not self.entails(pc, And(*[ne(t, m) for m in left]), 1):
                for m in reversed(left):
                    if self.entails(pc, eq(t, m), 1):
                        st.add(eq(t, m))
                        return m
                return t
        st.hist['foreign'] = st.hist.get('foreign', frozenset()) | {t.id}
        for m in mine:
            st.add(ne(t, m))
        return t

    def touched(self, st):
        return [h.args[0] for h in st.pc if h.op == 'app' and h.data == 'touch' and not h.fv and h.args[0].op != 'int']

    def note(self, st, t, r):
        """t is recorded to have role r if that is provable"""
        if r is None or t.op in ('int', 'ite') or t.id in st.hist.get('rl', {}) or t in st.hist.get('mine', ()):
            return
        s = Sg(st.sig)
        if self.true(st, s.hasrole(t, r)):
            st.hist['rl'] = dict(st.hist.get('rl', {}))
            st.hist['rl'][t.id] = r
            st.hist['seen'] = st.hist.get('seen', frozenset()) | {t.id}
            if all(self.role_of(st, m) not in (None, r) for m in st.hist.get('mine', ())):
                st.hist['foreign'] = st.hist.get('foreign', frozenset()) | {t.id}
                for m in st.hist.get('mine', ()):
                    st.add(ne(t, m))

    def exist(self, st, ts):
        """identifiers that exist already differ from those created later"""
        s = Sg(st.sig)
        ts = [t for t in ts if t.op not in ('int', 'ite')]
        if not ts:
            return
        if not self.entails(sliced(st.pc, self.versions(st)), And(*[s.g('alive', t) for t in ts]), 1):
            return
        mine = st.hist.get('mine', ())
        st.hist['seen'] = st.hist.get('seen', frozenset()) | frozenset(t.id for t in ts if t not in mine)
        return True

    def exist_entity(self, st, v):
        n = self.named(v, v.t)
        K = ENT[v.t]
        base, _, fields = KINDS[K]
        if not self.exist(st, [n[f] for f in fields]):
            return
        s = Sg(st.sig)
        for p, f in enumerate(fields):
            self.note(st, n[f], base * 10 + p + 1)

    def norm(self, st, t):
        """t with the updates at own nodes skipped where another node is read"""
        mine = st.hist.get('mine', ())
        if not mine or t.fv:
            return t
        own, other = {m.id: b for m, b in st.hist.get('before', {}).items()}, st.hist.get('foreign', ())
        memo = {}
        rl = st.hist.get('rl', {})

        def apart(i, j):
            if i is j:
                return False
            if i.id in rl and j.id in rl and rl[i.id] != rl[j.id]:
                return True
            a, b = i.id in own, j.id in own
            return a and (b or j.id in other or j.id in own[i.id] or j.op == 'int' and 0 <= j.data <= 8) or b and (i.id in other or i.id in own[j.id] or i.op == 'int' and 0 <= i.data <= 8)

        def go(t):
            if not t.args or t.op in ('forall', 'exists'):
                return t
            r = memo.get(t.id)
            if r is None:
                if t.op == 'select':
                    a, j = t.args[0], go(t.args[1])
                    while a.op == 'store' and (a.args[1] is not j) and apart(a.args[1], j):
                        a = a.args[0]
                    r = sel(a, j)
                    if r.op == 'select' and r.args[0].op == 'select':
                        r = sel(go(r.args[0]), j)
                elif t.op == 'store':
                    r = t
                else:
                    r = rebuild(t, [go(a) for a in t.args])
                memo[t.id] = r
            return r
        return go(t)

    def place(self, st, t):
        """a node that is read or written: one of those created here or another one"""
        t = self.norm(st, self.resolve(st, t))
        if t.op == 'int' or t in st.hist.get('mine', ()):
            return t
        return t

    def versions(self, st):
        r = NOF
        for v in st.sig.values():
            r = r | vers(v)
        return r

    # ------------------------------------------------------------ invariant
    def inv(self, sig):
        k = (key(sig), sig['stC'].id, sig['stB'].id)
        r = self.icache.get(k)
        if r is None:
            r = inv(sig, sig['stC'] is TRUE, sig['stB'] is TRUE)
            self.icache[k] = r
        return r

    def ext(self, o, c, rout=None, rin=None):
        rout, rin = frozenset(self.rout if rout is None else rout), frozenset(self.rin if rin is None else rin)
        k = ('x', key(o), key(c), o['stB'].id, rout, rin)
        r = self.icache.get(k)
        if r is None:
            if o['stC'] is not TRUE:
                r = []
            else:
                r = ext(o, c, rout, rin, True, o['stB'] is TRUE)
            self.icache[k] = r
        return r

    def current(self, st):
        k = st.hist.get('known')
        return k is not None and all(st.sig[n] is k[n] for n in SORTS) and k['stC'] is st.sig['stC'] and k['stB'] is st.sig['stB']

    def cut(self, ex, st, force=False, why='state is consistent'):
        """the invariant holds here and everything stored before is still there"""
        if st.dead or self.current(st):
            return
        if self.scen != 'A' and not force:
            return
        k = st.hist.get('known')
        had = set()
        if k is not None:
            had = set(q.body.id for q in self.inv(k)) | set(q.body.id for q in self.ext(self.entry_sig, k))
        for q in self.inv(st.sig):
            if q.body.id not in had:
                ex.oblige(st, 'invariant', q, None, why)
        for q in self.ext(self.entry_sig, st.sig):
            if q.body.id not in had:
                ex.oblige(st, 'frame', q, None, why)
        st.hist['known'] = dict(st.sig)

    def keep(self, st, before):
        """an update that is proved (lemma tasks) to keep the invariant and everything stored"""
        if before:
            st.hist['known'] = dict(st.sig)

    def havoc_names(self, st, names, old, rout, rin):
        """an unknown later state; what X1 to X3 promise about nodes created here is written into it"""
        for n in names:
            st.sig[n] = fresh('call.' + n, SORTS[n])
        for m in st.hist.get('mine', ()):
            keep = ['alive', 'role', 'nxt', 'prv']
            r = sel(old['role'], m)
            if r.op == 'int' and r.data not in rout:
                keep += ['En', 'Ea']
            if r.op == 'int' and r.data not in rin:
                keep += ['In', 'Ia']
            for c in keep:
                if c in names:
                    self.upd(st, c, m, TRUE if c == 'alive' else sel(old[c], m))

    # ------------------------------------------------------------ values
    def fresh_struct(self, ex, st, t, name):
        s = Sg(st.sig)
        if t in ENT and st.sig['stB'] is TRUE:
            K = ENT[t]
            names = self.names_of(t)
            if any(n not in KINDS[K][2] and not self.P.is_storage(f['type']) for n, f in zip(names, self.P.fields(t))) or any(n not in names for n in KINDS[K][2]):
                return None
            m = fresh(name + '.' + K, 'Int')
            ps = parts_of(s, K, m, MID[K])
            st.add(s.is_(K, m))
            self.touch(st, *ps)
            if K == 'F':
                y = s.g('fStory', m)
                self.touch(st, y, sel(sel(s.sFact, y), add(s.g('fOrd', m), ONE)))
            if K == 'S':
                y = s.g('cPar', m)
                self.touch(st, y, sel(sel(s.cSt, y), add(s.g('cOrd', m), ONE)))
            return SV(t, [dict(zip(KINDS[K][2], ps)).get(n) or IV(FALSE, 'SIGMA', 'SIGMA') for n in names])
        if t == 'class.Entity':
            f = []
            for x in self.P.fields(t):
                nm = class_of(x)
                if nm not in CLASSN.values() or self.P.kind(x['type']) != 'struct':
                    return None
                k = [a for a, b in CLASSN.items() if b == nm][0]
                g = []
                for y in self.P.fields(x['type']):
                    if self.P.is_storage(y['type']):
                        g.append(IV(FALSE, 'SIGMA', 'SIGMA'))
                    elif ex.sortof(y['type']) == 'Int':
                        g.append(I(k))
                    else:
                        return None
                f.append(SV(x['type'], g))
            return SV(t, f)
        if t == 'bit.Entity' and st.sig['stB'] is TRUE:
            b = fresh(name + '.b', 'Bool')
            f = []
            for x, n in zip(self.P.fields(t), self.names_of(t)):
                if n == 'value':
                    f.append(b)
                elif n == 'class':
                    f.append(ite(b, s.gOc, s.gZc))
                elif n == 'character':
                    f.append(ite(b, s.gO, s.gZ))
                elif self.P.is_storage(x['type']):
                    f.append(IV(FALSE, 'SIGMA', 'SIGMA'))
                else:
                    return None
            self.touch(st, s.gO, s.gZ, s.gOc, s.gZc)
            return SV(t, f)
        return None

    def names_of(self, t):
        """the names of the fields of an entity as contracts call them: fields with another name are those missing, in order"""
        if not hasattr(self.P, '_names'):
            self.P._names = {}
        if t not in self.P._names:
            names = [f['name'] for f in self.P.fields(t)]
            want = KINDS[ENT[t]][2] if t in ENT else ['class', 'character', 'value'] if t == 'bit.Entity' else []
            kind = lambda n: 'bool' if n == 'value' else 'uint'
            for k in ('uint', 'bool'):
                gone = [n for n in want if n not in names and kind(n) == k]
                here = [i for i, f in enumerate(self.P.fields(t)) if f['name'] not in want and self.P.under(f['type'])[1].get('name') == k]
                if len(gone) == len(here):
                    for i, n in zip(here, gone):
                        names[i] = n
            self.P._names[t] = names
        return self.P._names[t]

    def named(self, v, t):
        return dict(zip(self.names_of(t), v.f))

    def value_inv(self, ex, st, v, t):
        s = Sg(st.sig)
        if t in ENT:
            if st.sig['stB'] is not TRUE:
                return FALSE
            K = ENT[t]
            n = self.named(v, t)
            fields = KINDS[K][2]
            if any(f not in n for f in fields):
                raise Unsupported('fields of ' + t)
            m = n[fields[MID[K]]]
            ps = parts_of(s, K, m, MID[K])
            return And(s.is_(K, m), *[eq(n[f], p) for f, p in zip(fields, ps)])
        if t == 'class.Entity':
            r = []
            for f, x in zip(self.P.fields(t), v.f):
                nm = class_of(f)
                if nm in CLASSN.values() and isinstance(x, SV):
                    k = [a for a, b in CLASSN.items() if b == nm][0]
                    for g, y in zip(self.P.fields(x.t), x.f):
                        if g['name'] == 'identifier':
                            r.append(eq(y, I(k)))
            return And(*r)
        if t == 'bit.Entity':
            if st.sig['stB'] is not TRUE:
                return FALSE
            n = self.named(v, t)
            b = n['value']
            return And(eq(n['class'], ite(b, s.gOc, s.gZc)), eq(n['character'], ite(b, s.gO, s.gZ)))
        return TRUE

    def object_inv(self, ex, st, t, mut):
        def whole(v, tt):
            # nothing of a kind is cached before the storage has it
            if tt == 'class.Entity' and st.sig['stC'] is not TRUE:
                return FALSE
            return ex.wired(st, v, tt)
        return And(*[g for _, g in objinv.terms(self.P, ex, st, t, mut, whole, objinv.chosen(self.P))])

    def entities(self, v, st=None, depth=0):
        """kinds and identifying parts of the entities inside a value"""
        out = []
        if depth > 6:
            return out
        if isinstance(v, SV):
            if v.t in ENT:
                n = self.named(v, v.t)
                K = ENT[v.t]
                out.append((K, n[KINDS[K][2][MID[K]]], v))
            else:
                for x in v.f:
                    out += self.entities(x, st, depth + 1)
        elif isinstance(v, IV) and v.pay not in (None, 'SIGMA'):
            out += self.entities(v.pay, st, depth + 1)
        return out

    def ent(self, v, K):
        for k, m, _ in self.entities(v):
            if k == K:
                return m
        raise Unsupported('no %s inside' % KINDS[K][1])

    # ------------------------------------------------------------ storage
    def zeros(self, ex, st, op):
        rt = {'Has': ['bool'], 'Create': ['uint'], 'ReadSources': ['[]uint'], 'ReadTargets': ['[]uint'], 'GetReference': ['uint', 'uint']}.get(op, [])
        return [ex.fresh_value(st, t, 'undefined', False) for t in rt]

    def storage_op(self, ex, st, op, args):
        if op in ('Disconnect', 'Delete'):
            raise Unsupported('storage operation ' + op)
        self.cut(ex, st, why='before ' + op)
        args = [self.lit(st, a) for a in args]
        outs = []
        if st.sig['stB'] is TRUE and op != 'Has':
            args = [self.place(st, a) for a in args]
        self.touch(st, *args)
        if self.scen == 'A':
            f = st.copy()
            f.sig['failed'] = TRUE
            outs.append((f, self.zeros(ex, f, op) + [fresh_err('storage.' + op)]))
        sig = st.sig
        s = Sg(sig)
        if op == 'Has':
            n = args[0]
            if n is ONE and sig['stC'] is TRUE:
                r = TRUE
            elif sig['stC'] is not TRUE and sel(sig['alive'], n) in (TRUE, FALSE):
                r = sel(sig['alive'], n)
            else:
                r = fresh('has', 'Bool')
                st.add(Imp(s.g('alive', n), r))
            return [(st, [r, ZERO])] + outs
        for a in args:
            c = s.g('alive', a)
            if not self.true(st, c):
                g = st.copy()
                g.add(Not(c))
                if not g.dead:
                    outs.append((g, self.zeros(ex, g, op) + [fresh_err('storage.refused')]))
                st.add(c)
                if st.dead:
                    return outs
            elif a.op != 'int' and a not in st.hist.get('mine', ()):
                st.hist['seen'] = st.hist.get('seen', frozenset()) | {a.id}
        if op in ('ReadTargets', 'ReadSources'):
            n = args[0]
            a, l = (sel(sig['Ea'], n), s.en(n)) if op == 'ReadTargets' else (sel(sig['Ia'], n), s.inn(n))
            a, l = self.norm(st, a), self.norm(st, l)
            c = ex.newcell()
            st.mem[c] = ArrC('uint', [a])
            st.add(ge(l, ZERO))
            r = st.hist.get('rl', {}).get(n.id) or self.role_of(st, n)
            r = (EDGES if op == 'ReadTargets' else INVEDGES).get(r)
            if r:
                st.hist['rows'] = dict(st.hist.get('rows', {}))
                st.hist['rows'][a.id] = r
            return [(st, [SL(fresh('row.nil', 'Bool'), c, ZERO, l, l, 'uint'), ZERO])] + outs
        if op == 'GetReference':
            n = args[0]
            p, x = self.norm(st, s.pv(n)), self.norm(st, s.nx(n))
            self.touch(st, p, x)
            r = st.hist.get('rl', {}).get(n.id)
            if r:
                self.note(st, p, r - 1 if r - 1 in steps_partrole() else None)
                self.note(st, x, r + 1 if r + 1 in steps_partrole() else None)
            return [(st, [p, x, ZERO])] + outs
        if op == 'Create':
            n = self.create(ex, st)
            return [(st, [n, ZERO])] + outs
        if op == 'SetReference':
            self.setref(ex, st, args[0], args[1])
            return [(st, [ZERO])] + outs
        if op == 'Connect':
            return [(s2, [ZERO]) for s2 in self.connect(ex, st, args[0], args[1])] + outs
        raise Unsupported('storage operation ' + op)

    def upd(self, st, name, n, v):
        st.sig[name] = store(st.sig[name], n, v)

    def create(self, ex, st):
        cur = self.current(st)
        sig = st.sig
        s = Sg(sig)
        if sig['stC'] is not TRUE:
            n = I(st.hist.get('count', 0) + 1)
            st.hist['count'] = n.data
            self.upd(st, 'alive', n, TRUE)
            self.upd(st, 'role', n, n)
            if n.data == 8:
                sig['stC'] = TRUE
            self.touch(st, n)
            return n
        n = fresh('node', 'Int')
        st.hist['before'] = dict(st.hist.get('before', {}))
        st.hist['before'][n] = st.hist.get('seen', frozenset())
        self.touch(st, n)
        st.add(And(Not(s.g('alive', n)), gt(n, ZERO)))
        mine = st.hist.get('mine', ())
        for x in mine:
            st.add(ne(n, x))
        st.hist['mine'] = mine + (n,)
        self.upd(st, 'alive', n, TRUE)
        for c, v in (('role', ZERO), ('nxt', ZERO), ('prv', ZERO), ('En', ZERO), ('In', ZERO)):
            self.upd(st, c, n, v)
        if cur:
            self.lemmas.add(('create', 'A' if st.sig['stB'] is TRUE else 'B2'))
        self.keep(st, cur)
        return n

    def setref(self, ex, st, a, b):
        cur = self.current(st)
        a, b = self.resolve(st, a), self.resolve(st, b)
        mine = st.hist.get('mine', ())
        rb = sel(st.sig['role'], b)
        ra = sel(st.sig['role'], a)
        ok = cur and a in mine and b in mine and rb is ZERO and ra.op == 'int' and (ra.data == 0 or ra.data % 10 == 0)
        self.upd(st, 'nxt', a, b)
        self.upd(st, 'prv', b, a)
        if ok:
            self.lemmas.add(('reference', 'A' if st.sig['stB'] is TRUE else 'B2'))
        self.keep(st, ok)
        self.chains(st, ok)

    def isnew(self, st, a, b):
        """literally: there is no edge from a to b yet"""
        s = Sg(st.sig)
        if s.en(a) is ZERO or s.inn(b) is ZERO:
            return True
        mine = st.hist.get('mine', ())
        if a in mine and self.true(st, eq(s.en(a), ZERO)):
            return True
        if b in mine and self.true(st, eq(s.inn(b), ZERO)):
            return True
        return False

    def connect(self, ex, st, a, b):
        cur = self.current(st)
        a, b = self.resolve(st, a), self.resolve(st, b)
        edges = st.hist.get('edges', ())
        if (a, b) in edges:
            return [st]
        outs = []
        s = Sg(st.sig)
        if not self.isnew(st, a, b):
            old = st.copy()
            i, j = fresh('at', 'Int'), fresh('at', 'Int')
            self.touch(old, i, j)
            old.add(And(le(ZERO, i), lt(i, s.en(a)), eq(s.ea(a, i), b), le(ZERO, j), lt(j, s.inn(b)), eq(s.ia(b, j), a)))
            if ex.probing or not self.prune(ex, old):
                outs.append(old)
            k = V('k', 'Int')
            st.add(Forall([k], Imp(And(le(ZERO, k), lt(k, s.en(a))), ne(s.ea(a, k), b)), [[s.ea(a, k)]]))
        st.hist['edges'] = edges + ((a, b),)
        ra = self.role_of(st, a) or st.hist.get('rl', {}).get(a.id)
        if ra == 84:
            par, y = s.pv(b, 2), s.pv(a, 2)
            if self.true(st, And(s.is_('S', par), Not(s.is_('S', y)))):
                n = s.g('cLen', par)
                self.touch(st, par, y, s.nx(par, 2), sel(sel(s.cSt, par), ZERO))
                first = st.copy()
                first.add(eq(n, ZERO))
                if ex.probing or not self.prune(ex, first):
                    outs += self.edge(ex, first, a, b, cur)
                    self.firstchild(outs[-1], y)
                st.add(gt(n, ZERO))
        return outs + self.edge(ex, st, a, b, cur)

    def firstchild(self, st, y):
        """the first child of a story becomes part of the graph as soon as it is connected to its parent"""
        import contracts
        s = Sg(st.sig)
        y = self.resolve(st, y)
        f = self.place(st, self.norm(st, s.pv(s.ea(y), 2)))
        r = self.place(st, self.norm(st, s.pv(s.ea(f), 3)))
        self.touch(st, f, r)
        contracts.publish_remark(self, st, r, self.norm(st, s.nx(r)), f, y, True, True)

    def edge(self, ex, st, a, b, cur):
        outs = []
        s = Sg(st.sig)
        ok = cur and self.keeps_edge(st, a, b)
        en, inn = self.norm(st, s.en(a)), self.norm(st, s.inn(b))
        st.add(And(ge(en, ZERO), ge(inn, ZERO)))
        rowA, rowB = store(self.norm(st, sel(st.sig['Ea'], a)), en, b), store(self.norm(st, sel(st.sig['Ia'], b)), inn, a)
        self.upd(st, 'Ea', a, rowA)
        self.upd(st, 'En', a, add(en, ONE))
        self.upd(st, 'Ia', b, rowB)
        self.upd(st, 'In', b, add(inn, ONE))
        self.touch(st, en, inn)
        mine = st.hist.get('mine', ())
        ra, rb = sel(st.sig['role'], a), sel(st.sig['role'], b)
        # membership
        if a in mine and b.op == 'int' and 1 <= b.data <= 8 and ra is ZERO and en is ZERO:
            self.upd(st, 'role', a, I(10 * b.data))
            st.hist['heads'] = st.hist.get('heads', ()) + ((a, b.data),)
            ok = cur and b.data != 1 and b.data in self.rin
            if ok:
                self.lemmas.add(('member %d' % b.data, 'A' if st.sig['stB'] is TRUE else 'B2'))
            self.keep(st, ok)
            self.chains(st, ok)
            return outs + [st]
        rt = self.role_of(st, b)
        rs = self.role_of(st, a)
        if rt in (23, 33, 43):
            self.publish(st, {23: 'C', 33: 'W', 43: 'P'}[rt], b, a, en)
        elif rt in (22, 32, 42):
            self.publish(st, {22: 'C', 32: 'W', 42: 'P'}[rt], sel(st.sig['nxt'], b), None, None)
        elif rt == 52:
            self.upd(st, 'dI', b, en)
            self.detail(st, b)
        elif rs == 52:
            self.upd(st, 'dJ', a, inn)
            self.detail(st, a)
        self.keep(st, ok)
        return outs + [st]

    def keeps_edge(self, st, a, b):
        """a lemma of steps.py applies to the new edge"""
        import steps
        if st.sig['stB'] is not TRUE:
            return False
        s = Sg(st.sig)
        ra, rb = self.role_of(st, a) or st.hist.get('rl', {}).get(a.id), self.role_of(st, b) or st.hist.get('rl', {}).get(b.id)
        if ra is None and rb in INVEDGES:
            ra = INVEDGES[rb]
        if ra is None or EDGES.get(ra) is None:
            return False
        mine = st.hist.get('mine', ())
        if a not in mine and ra in (63, 73, 83):
            return False
        if a not in mine and ra not in self.rout or b not in mine and EDGES[ra] not in self.rin:
            return False
        conds = steps.edge_conds(s, a, b, ra)
        if conds is None:
            return False
        self.touch(st, *(steps.near_nodes(s, a, ra) + steps.near_nodes(s, b, EDGES[ra])))
        if not all(self.true(st, c) for c in conds):
            return False
        self.lemmas.add(('edge %d' % ra, 'A'))
        return True

    def role_of(self, st, n):
        if n not in st.hist.get('mine', ()):
            return None
        r = sel(st.sig['role'], n)
        if r.op == 'int':
            return r.data
        return st.hist.get('roles', {}).get(n)

    def setrole(self, st, n, r):
        self.upd(st, 'role', n, I(r))
        d = dict(st.hist.get('roles', {}))
        d[n] = r
        st.hist['roles'] = d

    def chains(self, st, ok):
        """completed chains of new nodes get their roles"""
        mine = st.hist.get('mine', ())
        s = Sg(st.sig)
        for n, k in st.hist.get('heads', ()):
            if s.role(n) is not I(10 * k):
                continue
            L = 2 if k == 1 else len([x for x in KINDS.values() if x[0] == k][0][2])
            ch = [n]
            while len(ch) < L:
                x = s.nx(ch[-1])
                if x not in mine or x in ch or s.role(x) is not ZERO:
                    break
                if s.pv(x) is not ch[-1]:
                    break
                ch.append(x)
            if len(ch) < L:
                continue
            fine = ok and k != 1 and (k == 6 or st.sig['stB'] is TRUE) and all(self.true(st, And(eq(s.inn(x), ZERO), eq(s.en(x), ZERO))) for x in ch[1:]) and self.true(st, eq(s.inn(n), ZERO))
            if fine:
                self.lemmas.add(('chain %d' % k, 'A' if st.sig['stB'] is TRUE else 'B2'))
            for i, x in enumerate(ch):
                self.setrole(st, x, 10 * k + i + 1)
            st.hist['chains'] = st.hist.get('chains', ()) + ((k, tuple(ch)),)
            self.keep(st, fine)
            if k == 1:
                bs = [c for kk, c in st.hist['chains'] if kk == 1]
                if len(bs) == 2 and st.sig['stB'] is not TRUE:
                    (c1, b1), (c2, b2) = bs
                    w = lt(c1, c2)
                    st.sig['gZc'], st.sig['gOc'] = ite(w, c1, c2), ite(w, c2, c1)
                    st.sig['gZ'], st.sig['gO'] = ite(w, b1, b2), ite(w, b2, b1)
                    st.sig['stB'] = TRUE

    def lastval(self, st, K, m):
        """the element the lower node of a new entity points to"""
        s = Sg(st.sig)
        h = s.ea(s.pv(m))
        if K == 'C':
            return eq(h, s.gO)
        return reads(K, s, h)

    def publish(self, st, K, m, parent, idx):
        s = Sg(st.sig)
        m = self.resolve(st, m)
        v = self.lastval(st, K, m)
        base = s.val(K, parent) if parent is not None else nil(LS[K])
        val = snoc(base, v)
        h = s.ea(s.pv(m))
        self.touch(st, h, s.pv(h))
        self.upd(st, 'is' + K, m, TRUE)
        self.upd(st, 'val' + K, m, val)
        st.sig['of' + K] = store(st.sig['of' + K], val, m)
        if idx is not None:
            self.upd(st, 'ix' + K, m, idx)

    def detail(self, st, m):
        s = Sg(st.sig)
        en, inn = s.en(m), s.inn(m)
        if not (self.true(st, eq(en, ONE)) and self.true(st, eq(inn, ONE))):
            return
        o, p = s.ia(m), s.ea(m)
        self.upd(st, 'isD', m, TRUE)
        self.upd(st, 'dO', m, o)
        self.upd(st, 'dP', m, p)
        row = store(sel(st.sig['ofD'], o), p, m)
        self.upd(st, 'ofD', o, row)

    # ------------------------------------------------------------ arithmetic and library functions
    def arith(self, ex, st, v, t):
        if v.op == 'int':
            return v
        n = self.P.under(t)[1].get('name')
        if n in ('int', 'uint', 'untyped int'):
            return v
        if n in ('int32', 'rune', 'untyped rune', 'int64'):
            # a result that wraps around is some number; what depends on it will not be proved
            if self.holds(st, ex.rangefact(t, v)):
                st.add(ex.rangefact(t, v))
                return v
        r = fresh('wrap', 'Int')
        st.add(ex.rangefact(t, r))
        st.add(Imp(ex.rangefact(t, v), eq(r, v)))
        return r

    def arr(self, st, sl):
        """(SMT array, length) of a slice of scalars starting at index 0"""
        c = st.mem[sl.cell]
        if isinstance(c, ArrC) and sl.off is ZERO and len(c.leaves) == 1:
            return c.leaves[0]
        return None

    def external(self, ex, st, name, args, rts, i):
        if name == 'unicode/utf8.ValidString' or name == 'utf8.ValidString':
            return [(st, [F('valid', args[0])])]
        if name == 'strings.Split' and args[1] is S(b' '):
            return [(st, [self.list_slice(ex, st, 'P', F('split', args[0]), 'string', 'words')])]
        if name == 'strings.Join' and args[1] is S(b' '):
            a = self.slice_arr(ex, st, args[0])
            l = pref('P', a, args[0].len)
            return [(st, [F('pjoin', l)])]
        if name == 'strings.Join' and args[1] is S(b''):
            return [(st, [F('cat', pref('P', self.slice_arr(ex, st, args[0]), args[0].len))])]
        sprintf = name == 'fmt.Sprintf' and args[0] is S(b'%b') and isinstance(args[1], SL) and args[1].len is ONE
        if sprintf or name in ('strconv.FormatInt', 'strconv.FormatUint') and args[1] is I(2):
            if sprintf:
                c = st.mem[args[1].cell]
                x = c.e[0] if isinstance(c, ListC) and c.e else None
                x = x.pay if isinstance(x, IV) else None
            else:
                x = args[0]
            if isinstance(x, Term) and x.sort == 'Int':
                r = x
                s = fresh('digits', 'Str')
                a = fresh('digits.one', ARR['C'])
                j = V('j', 'Int')
                n = engine.slen(s)
                st.add(ge(n, ONE))
                b = F('sbyte', s, j)
                inr = And(le(ZERO, j), lt(j, n))
                st.add(Imp(ge(r, ZERO), Forall([j], Imp(inr, And(eq(sel(a, j), eq(b, I(49))), Or(eq(b, I(48)), eq(b, I(49))))), [[sel(a, j)], [b]])))
                st.add(Imp(ge(r, ZERO), eq(pref('C', a, n), F('bits', r))))
                st.add(Imp(lt(r, ZERO), eq(F('sbyte', s, ZERO), I(45))))
                ex.assumed.add(lists.TRUSTED_LIB[0])
                return [(st, [s])]
        return None

    def slice_arr(self, ex, st, sl):
        leaves, off = ex_to_arr(ex, st, sl)
        if off is ZERO:
            return leaves[0]
        n = fresh('shift', leaves[0].sort)
        j = V('j', 'Int')
        st.add(Forall([j], Imp(And(le(ZERO, j), lt(j, sl.len)), eq(sel(n, j), sel(leaves[0], add(off, j)))), [[sel(n, j)]]))
        return n

    def list_slice(self, ex, st, K, l, et, name):
        c = ex.newcell()
        a = fresh(name, ARR[K])
        st.mem[c] = ArrC(et, [a])
        n = fresh(name + '.len', 'Int')
        st.add(And(ge(n, ZERO), le(n, I(2 ** 62))))
        st.add(eq(pref(K, a, n), l))
        if K == 'W':
            j = V('j', 'Int')
            st.add(Forall([j], Imp(And(le(ZERO, j), lt(j, n)), And(le(ZERO, sel(a, j)), le(sel(a, j), I(0x10FFFF)))), [[sel(a, j)]]))
        return SL(fresh(name + '.nil', 'Bool'), c, ZERO, n, n, et)

    def convert(self, ex, st, x, f, t):
        fu, tu = self.P.under(f), self.P.under(t)
        if isinstance(x, Term) and x.sort == 'Str' and tu[1]['kind'] == 'slice' and self.P.under(tu[1]['elem'])[1].get('name') in ('int32', 'rune'):
            return self.list_slice(ex, st, 'W', F('runes', x), tu[1]['elem'], 'runes')
        if isinstance(x, SL) and tu[1].get('name') == 'string' and self.P.under(fu[1]['elem'])[1].get('name') in ('int32', 'rune'):
            return F('rstr', pref('W', self.slice_arr(ex, st, x), x.len))
        return super().convert(ex, st, x, f, t)

    def on_element(self, st, v):
        """entities inside a composite element of a slice"""
        if isinstance(v, SV) and v.t not in ENT:
            for K, m, _ in self.entities(v):
                self.touch(st, m)

    def on_loose(self, st, v):
        for K, m, _ in self.entities(v):
            self.touch(st, m)

    def on_load(self, st, v):
        """the elements of rows are nodes"""
        if v.op == 'select' and v.args[0].op == 'select' and v.args[0].args[0].sort == AIR:
            self.touch(st, v)
            r = st.hist.get('rows', {}).get(v.args[0].id)
            if r and st.sig['stB'] is TRUE:
                self.note(st, v, r)

    def on_len(self, ex, st, x):
        c = st.mem.get(x.cell)
        if isinstance(c, ArrC) and len(c.leaves) == 1:
            n = self.P.under(x.et)[1].get('name')
            K = {'bool': 'C', 'int32': 'W', 'rune': 'W', 'string': 'P'}.get(n)
            if K:
                l = pref(K, c.leaves[0], add(x.off, x.len))
                st.add(F('tl' + lists.SUF[K], l))
                if K == 'C':
                    st.add(ge(F('num', l), ZERO))
                    if x.off is ZERO:
                        st.add(ge(F('num', F(END['C'], c.leaves[0], x.len, x.len)), ZERO))

    def on_next(self, ex, st, it, ok, r):
        a, n = F('runearr', it.s), F('nrunes', it.s)
        st.add(And(eq(ok, lt(it.k, n)), ge(n, ZERO), eq(pref('W', a, n), F('runes', it.s)), Imp(ok, eq(r, sel(a, it.k)))))
        j = V('j', 'Int')
        st.add(Forall([j], Imp(And(le(ZERO, j), lt(j, n)), And(le(ZERO, sel(a, j)), le(sel(a, j), I(0x10FFFF)))), [[sel(a, j)]]))
        ex.assumed.add(lists.TRUSTED_LIB[4])

    # ------------------------------------------------------------ contracts
    def contract(self, ex, st, fname, args, boundary):
        for a in args:
            if isinstance(a, SV) and a.t in ENT:
                n = self.named(a, a.t)
                self.touch(st, *[n[f] for f in KINDS[ENT[a.t]][2] if f in n])
        import contracts
        c = contracts.CONTRACTS.get(fname)
        if c is None or ex.fn == fname:
            return None
        return c.apply(self, ex, st, fname, args)

    # ------------------------------------------------------------ loops
    def after_havoc(self, ex, entry, st, mod_sig):
        names = [n for n in mod_sig if n in SORTS]
        if not names:
            return
        if any(n in mod_sig for n in ('stC', 'stB')):
            raise engine.TooEarly('the storage is initialised in a loop')
        for q in self.inv(st.sig):
            st.add(q.hyp())
        for q in self.ext(entry.sig, st.sig):
            st.add(q.hyp())
        if entry.sig is not self.entry_sig:
            for q in self.ext(self.entry_sig, st.sig):
                st.add(q.hyp())
        st.hist['known'] = dict(st.sig)
        st.hist['edges'] = ()

    def loop_cut(self, ex, st):
        self.cut(ex, st, True, 'at the loop')

    def havoc_sig(self, ex, st, k, tag):
        if k not in SORTS:
            return fresh('%s.%s' % (tag, k), 'Bool')
        return fresh('%s.%s' % (tag, k), SORTS[k])

    def on_entry(self, ctx, cands):
        out, seen = [], set()
        for c in cands:
            try:
                t0 = c.at(ctx, ctx.entry, ctx.entry_env)
                th = c.at(ctx, ctx.hst, ctx.henv)
            except (KeyError, AttributeError, Unsupported, AssertionError, TypeError):
                continue
            if th is None or th is TRUE or t0 is None:
                continue
            k = tuple(y.id if isinstance(y, Term) else y.body.id for y in (th if isinstance(th, (list, tuple)) else [th]))
            if k not in seen and self.entails(ctx.entry.pc, t0):
                seen.add(k)
                out.append(c)
        return out

    def choose(self, ctx, cands):
        live = []
        seen = set()

        def flat(x):
            if isinstance(x, (list, tuple)):
                return [z for y in x for z in flat(y)]
            return [x]

        def ident(x):
            return tuple(y.id if isinstance(y, Term) else y.body.id for y in flat(x))
        for c in cands:
            try:
                t0 = c.at(ctx, ctx.entry, ctx.entry_env)
                th = c.at(ctx, ctx.hst, ctx.henv)
                tb = [c.at(ctx, s, e) for s, e in ctx.backs]
            except (KeyError, AttributeError, Unsupported, AssertionError, TypeError):
                continue
            if th is None or th is TRUE or t0 is None:
                continue
            k = ident(th)
            if k in seen:
                continue
            seen.add(k)
            live.append((c, t0, th, tb))
        live = [x for x in live if self.entails(ctx.entry.pc, x[1])]
        hyp = lambda x: [y.hyp() if not isinstance(y, Term) else y for y in flat(x)]
        changed = True
        while changed:
            changed = False
            hyps = [h for x in live for h in hyp(x[2])]
            nxt = []
            for n, (s, e) in enumerate(ctx.backs):
                # the head facts come first so that the solver session is shared
                base = s.pc + hyps
                if self.sess.check(relevant(base, self.fams), [], None, 1) == 'unsat':
                    continue
                keepers = []
                for x in live:
                    g = x[3][n]
                    if g is None or not self.entails(base, g):
                        changed = True
                    else:
                        keepers.append(x)
                live = keepers
        self.loop_log.setdefault(self.loop_key(ctx), []).append([x[0].name for x in live])
        return [x[0] for x in live]

    def loop_candidates(self, ctx):
        import loopinv
        out = loopinv.candidates(self, ctx)
        more = []
        sort = lambda n: ctx.entry_env[n].sort if isinstance(ctx.entry_env[n], Term) else None
        errs = [n for n, t in ctx.phis if t == 'error' and sort(n) == 'Int']
        flags = [n for n, t in ctx.phis if sort(n) == 'Bool'][:4]
        conds = [('unless %s' % e, e, lambda env, e=e: eq(env[e], ZERO)) for e in errs]
        sides = [(w % b, b, lambda env, b=b, yes=yes: env[b] if yes else Not(env[b])) for b in flags for w, yes in (('if %s', True), ('if not %s', False))]
        for c in out:
            mine = list(conds)
            if any(x in c.name for x in ('backwards', 'stands for', 'is not among')):
                mine += sides + [(p + ' ' + q, x + ' ' + y, lambda env, f=f, g=g: And(f(env), g(env))) for p, x, f in sides for q, y, g in conds]
            for what, names, p in mine:
                def under(x, st, env, c=c, p=p):
                    try:
                        f = c.fn(x, st, env)
                        if f is None:
                            raise KeyError
                    except (KeyError, AttributeError):
                        # nothing there to speak of, which is fine if the condition is false
                        if not self.entails(st.pc, Not(p(env))):
                            raise
                        return TRUE
                    return conditional(p(env), f)
                if not set(names.split()) & set(c.name.split()):
                    more.append(Cand('%s %s' % (c.name, what), under, c.props))
        return self.wired_cands(ctx, ALLP) + self.affine_cands(ctx, ALLP) + out + more


def conditional(p, f):
    if isinstance(f, (list, tuple)):
        return [conditional(p, x) for x in f]
    if f is None:
        return None
    if isinstance(f, Term):
        return Imp(p, f)
    if isinstance(f, Hint):
        return Hint(f.name, Imp(p, f.body), f.touches, f.props)
    return Q(f.name, f.vs, Imp(p, f.body), f.props, f.pats, f.touches)


def ex_to_arr(ex, st, sl):
    fr = engine.Frame.__new__(engine.Frame)
    fr.ex = ex
    return fr.to_arr(st, sl)


# ------------------------------------------------------------ verification of one function
def start_state(mode, scen):
    st = St()
    sig = fresh_sig('s0')
    sig['failed'], sig['stC'], sig['stB'] = FALSE, B(scen != 'B1'), B(scen == 'A')
    if scen == 'B1':
        for n in ('alive',) + tuple('is' + k for k in ALLK):
            sig[n] = constarr(SORTS[n], FALSE)
        for n in ('role', 'nxt', 'prv', 'En', 'In'):
            sig[n] = constarr(SORTS[n], ZERO)
    st.sig = sig
    mode.entry_sig = dict(sig)
    for q in mode.inv(sig):
        st.add(q.hyp())
    st.hist['known'] = mode.entry_sig
    return st


def verify(mode, fname):
    import contracts
    P, scen = mode.P, mode.scen
    ex = Ex(P, mode, fname)
    c = contracts.CONTRACTS[fname]
    ex.exits = 0
    mode.ex = ex
    mode.fams = frozenset(PKGF.get(fname.lstrip('(*').split('.')[0], 'CWPDRFS'))
    try:
        f = P.funcs.get(fname)
        if f is None:
            raise Unsupported('function not found: ' + fname)
        mode.rout, mode.rin = c.roles(scen)
        st = start_state(mode, scen)
        args = []
        for p in f['params']:
            if P.is_storage(p['t']):
                args.append(IV(FALSE, 'SIGMA', 'SIGMA'))
                continue
            v = ex.fresh_value(st, p['t'], 'arg.' + p['n'], True)
            st.add(ex.wired(st, v, p['t']))
            args.append(v)
        for a in args:
            for K, m, v in mode.entities(a):
                n = mode.named(v, v.t)
                mode.touch(st, *[n[x] for x in KINDS[K][2]])
                mode.exist_entity(st, v)
            if isinstance(a, Term) and a.sort == 'Int':
                mode.touch(st, a)
        old = dict(st.sig)
        if c.start:
            args = c.start(mode, ex, st, args)
            if not c.early:
                st.hist['mine'], st.hist['before'] = (), {}
                mode.entry_sig = old = dict(st.sig)
                st.hist['known'] = mode.entry_sig
        entry = contracts.Call(mode, ex, st, old, args)
        for p in (c.pre(entry) if c.pre else ()):
            mode.touch(st, *p.touches)
            st.add(p.fact if isinstance(p.fact, Term) else p.fact.hyp())
        refuse = c.refuse(entry) if c.refuse else FALSE
        mode.refusal = refuse
        if c.hint:
            mode.touch(st, *c.hint(entry))
        for k, r in c.argroles.items():
            mode.note(st, args[k], r)
        start = list(st.pc)
        ex.stack = []
        outs = ex.run(fname, args, st)
        ex.stack = [(fname, f.get('line', 0))]
        rs = P.T(f['sig'])['results']
        err = bool(rs) and rs[-1] == 'error'
        mod = c.modifies(scen)
        good = 0
        for s, res in outs:
            parts = [(s, res, None)]
            if err:
                e = res[-1]
                if e is ZERO:
                    parts = [(s, res, True)]
                elif eq(e, ZERO) is FALSE:
                    parts = [(s, res, False)]
                else:
                    b = s.copy()
                    b.add(ne(e, ZERO))
                    s.add(eq(e, ZERO))
                    parts = [(s, res, True), (b, res, False)]
            else:
                parts = [(s, res, True)]
            for s, res, ok in parts:
                if s.dead:
                    continue
                finish(mode, ex, c, s, args, res, rs, ok, old, refuse, mod)
                if ok and not good and mode.sess.check(s.pc, [], None, 2) != 'unsat':
                    good += 1
        ex.exits = len(outs)
        if not good and not (refuse is not FALSE and mode.entails(start, refuse)):
            raise Unsupported('no successful path')
    except Unsupported as u:
        ex.obls = ex.obls or []
        o = Obl(fname, 'within reach of the verifier: %s' % u, 'unsupported', ALLP, [], FALSE, str(u))
        ex.obls.append(o)
    return ex


def finish(mode, ex, c, s, args, res, rs, ok, old, refuse, mod):
    import contracts
    scen = mode.scen
    if not ok:
        mode.cut(ex, s, True, 'on error')
        ex.oblige(s, 'post', Or(s.sig['failed'], refuse), c.rprops, 'only what cannot be represented or a failing storage is an error')
    else:
        if c.publish:
            c.publish(mode, ex, s, args, res)
        mode.cut(ex, s, True, 'on return')
        if refuse is not FALSE and c.strict:
            ex.oblige(s, 'post', Not(refuse), c.fprops, 'what cannot be represented is refused')
        ex.oblige(s, 'post', Not(s.sig['failed']), ('C03', 'C15'), 'no storage failure is ignored')
        if c.wired:
            for v, t in zip(res, rs):
                if t != 'error':
                    ts = []
                    for K, m, e in mode.entities(v):
                        n = mode.named(e, e.t)
                        ts += [F('touch', n[x]) for x in KINDS[K][2] if x in n]
                    ex.oblige(s, 'post', ex.wired(s, v, t), ALLP, 'the result is complete', None, ts)
        for v in res:
            for K, m, e in mode.entities(v):
                n = mode.named(e, e.t)
                mode.touch(s, *[n[x] for x in KINDS[K][2] if x in n])
        call = contracts.Call(mode, ex, s, old, args, res)
        for p in (c.post(call) if c.post else ()):
            g = mode.norm(s, p.fact) if isinstance(p.fact, Term) else p.fact
            ex.oblige(s, 'post', g, p.props, p.name, None, [F('touch', mode.norm(s, t)) for t in p.touches])
        lv = {'B1': 0, 'B2': 1, 'A': 2}
        if lv[contracts.scen_of(s.sig)] < lv[c.after]:
            ex.oblige(s, 'post', FALSE, ('C16',), 'classes and bits exist afterwards')
    for n in SORTS:
        if n not in mod and s.sig[n] is not old[n]:
            v = V('x', sort_dom(SORTS[n])) if SORTS[n].startswith('(') else None
            if v is None:
                ex.oblige(s, 'frame', eq(s.sig[n], old[n]), ALLP, '%s is not changed' % n)
            else:
                ex.oblige(s, 'frame', Q('%s is not changed' % n, [v], eq(sel(s.sig[n], v), sel(old[n], v)), ALLP), None, 'frame')
    ex.oblige(s, 'post', ex.canon_mutable_inv(s), ('C16', 'C15', 'C02'), 'cached state is consistent on return')


# ------------------------------------------------------------ tasks and their discharge
# (which hypotheses, limit) of the attempts at an obligation
ROUNDS = ((0, 0.6), (3, 0.6), (1, 0.6), (2, 0.6), (0, 3), (3, 3), (2, 3), (1, 3))


class Light:
    __slots__ = ('fn', 'name', 'kind', 'props', 'where', 'res', 'secs', 'out', 'goal')

    def __init__(self, fn, o):
        self.fn, self.name, self.kind, self.props, self.where = fn, o.name, o.kind, o.props, o.where
        self.res, self.secs, self.out, self.goal = None, 0.0, '', ''


def stores_at(t):
    """indices at which the goal changes something"""
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'store' and x.args[1].sort == 'Int' and x.args[1].op == 'const' and x.args[1] not in out:
            out.append(x.args[1])
        todo += x.args
    return out


def swap(t, a, b, memo):
    """t with the constant b in the place of a (a is not below a quantifier)"""
    r = memo.get(t.id)
    if r is None:
        if t is a:
            r = b
        elif t.op in ('forall', 'exists') or not t.args:
            r = t
        else:
            r = T.rebuild(t, [swap(x, a, b, memo) for x in t.args])
        memo[t.id] = r
    return r


def occurs(t, a, seen):
    if t is a:
        return True
    if t.id in seen:
        return False
    seen.add(t.id)
    return any(occurs(x, a, seen) for x in t.args)


def by_cases(o, limit, fresh_session, late):
    """the goal for each of the changed places and for all others"""
    seen, sk, todo = set(), [], [o.goal]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'const' and isinstance(x.data, str) and x.data.startswith('any.') and x.sort == 'Int':
            sk.append(x)
        todo += x.args
    if not sk:
        return False
    sk = sorted(sk, key=lambda x: x.data)[0]
    if any(occurs(h, sk, set()) for h in o.hyps):
        return False
    at = [x for x in stores_at(o.goal) if x is not sk][:14]
    if not at:
        return False
    # which of the places can it be at all
    x = fresh_session(None, 1)
    try:
        others = [ne(sk, a) for a in at]
        if x.check(o.hyps, list(o.extra) + others, o.goal, limit) != 'unsat':
            return False
        for a in at:
            if late():
                return False
            m = {}
            g, es = swap(o.goal, sk, a, m), [swap(e, sk, a, m) for e in o.extra]
            if occurs(g, sk, set()):
                return False
            if x.check(o.hyps, es, g, limit) != 'unsat':
                return False
        return True
    finally:
        x.close()


def discharge(mode, obls, want, timeout, retry, fresh_session, deadline=None, few=None):
    out, every = [], []
    late = lambda: deadline is not None and time.time() > deadline
    todo = []
    for o in obls:
        if want is not None and not (set(o.props) & want):
            continue
        l = Light(o.fn, o)
        out.append(l)
        every.append((l, o))
        if solve.trivial(o.hyps, o.goal):
            l.res, l.out = 'unsat', 'syntactic'
            solve.STATS['trivial'] += 1
            continue
        solve.STATS['smt'] += 1
        f = fams(o.goal)
        for e in o.extra:
            f = f | fams(e)
        todo.append((o, l, f))
    allf = frozenset('CWPDRFS')

    def need(o):
        c = (o.cur or NOF) | vers(o.goal)
        for e in o.extra:
            c = c | vers(e)
        return c
    # growing sets of hypotheses: of the current state and of the kinds of entities concerned first
    for level, limit in ROUNDS + ((1, timeout), (3, timeout)):
        by = {}
        if late():
            break
        if few is not None and limit > 0.6 and len(todo) > few:
            for o, l, f in todo[few:]:
                l.out = 'short limits only'
            todo = todo[:few]
        for o, l, f in todo:
            k = (f | mode.fams if level in (0, 2) else allf, need(o) if level in (0, 1) else None)
            by.setdefault(k, []).append((o, l, f))
        todo = []
        for k, os_ in by.items():
            x = fresh_session(None, 1)
            for o, l, f in os_:
                if o.goal is FALSE and not o.hyps:
                    l.res = 'unsupported'
                    continue
                if late():
                    l.res = l.res or 'out of time'
                    continue
                t0 = time.time()
                hs = relevant(o.hyps, k[0]) if k[0] != allf else o.hyps
                if k[1] is not None:
                    hs = sliced(hs, k[1])
                r = x.check(hs, o.extra, o.goal, limit)
                l.secs += time.time() - t0
                l.res = r
                if r == 'unsat':
                    l.out = 'hypotheses %d, limit %g' % (level, limit)
                else:
                    todo.append((o, l, f))
            x.close()
    if few is not None:
        todo = todo[:max(few, 4)] if len(todo) > max(few, 4) else todo
    for o, l, f in todo:
        if not retry or late():
            break
        t0 = time.time()
        if by_cases(o, timeout, fresh_session, late):
            l.res, l.out = 'unsat', 'by cases'
        l.secs += time.time() - t0
    for o, l, f in todo:
        if l.res == 'unsat':
            continue
        for solver, to, seed in retry:
            if late():
                break
            t0 = time.time()
            x = fresh_session(solver, seed)
            r = x.check(o.hyps, o.extra, o.goal, to)
            x.close()
            l.secs += time.time() - t0
            if r == 'unsat':
                l.res, l.out = r, 'retry %s seed %d' % (solver or 'z3', seed)
                break
    for l, o in every:
        if l.res != 'unsat':
            l.goal = show(o.goal, 8)[:1500]
            l.res = l.res or 'not tried'
    return out
