"""The contracts of FULL mode: what each function promises about the storage, for every state that satisfies the invariant."""
from full import *
import full

TXT = ('C01', 'C02', 'C06', 'C10', 'C03', 'C15')
VALP = {'C': ('C09', 'C01', 'C07', 'C08', 'C15'), 'W': ('C01', 'C07', 'C08', 'C06', 'C15'), 'P': ('C01', 'C07', 'C08', 'C06', 'C10', 'C15')}


def scen_of(sig):
    return 'A' if sig['stB'] is TRUE else 'B2' if sig['stC'] is TRUE else 'B1'


STATES = {'A': (TRUE, TRUE), 'B2': (TRUE, FALSE), 'B1': (FALSE, FALSE)}
LATER = {'A': ['A'], 'B2': ['B2', 'A'], 'B1': ['B1', 'B2', 'A']}


class Post:
    def __init__(self, name, props, fact, touches=(), roles=()):
        self.name, self.props, self.fact, self.touches, self.roles = name, tuple(props), fact, list(touches), list(roles)


ERRPROPS = [('character.', ('C01', 'C07', 'C09', 'C15')), ('word.', ('C01', 'C07', 'C15')), ('phrase.', ('C01', 'C07', 'C15')), ('detail.Storage', ('C18', 'C08', 'C15')),
            ('detail.Aggregate', ('C01', 'C02', 'C03', 'C08', 'C13', 'C15')), ('detail.', ('C01', 'C08', 'C15')), ('bit.', ('C01', 'C09', 'C15', 'C16')), ('class.', ('C01', 'C15', 'C16', 'C17')),
            ('Graph).CreateStory', ('C01', 'C15', 'C16', 'C20')), ('CreateChildStory', ('C01', 'C12', 'C15', 'C20')), ('AddFactToStory', ('C01', 'C11', 'C15', 'C20')), ('AddRemarkToFact', ('C01', 'C10', 'C15', 'C20')),
            ('Graph).GetRemark', ('C02', 'C03', 'C15', 'C18')), ('GetObjectAndProperty', ('C01', 'C02', 'C03', 'C10', 'C15')), ('NextRemark', ('C03', 'C13', 'C15')), ('FirstFact', ('C02', 'C03', 'C10', 'C11', 'C13', 'C15')),
            ('NextFact', ('C02', 'C03', 'C10', 'C11', 'C15')), ('NextStory', ('C02', 'C03', 'C10', 'C12', 'C15')), ('GetStory', ('C13', 'C15')), ('AppendFact', ('C11', 'C15')), ('AppendChildStory', ('C12', 'C15'))]


def errprops(fn):
    """the properties that a needless error of a function breaks"""
    for k, v in ERRPROPS:
        if k in fn:
            return v + (('C18',) if '.Storage)' in fn else ())
    return ('C01', 'C15', 'C18')


class Contract:
    """pre, refuse and post are functions of a Call; refuse says when an error is allowed although the storage did not fail"""

    def __init__(self, fn, scens=('A',), M=(), rout=(), rin=(), pre=None, refuse=None, post=None, publish=None, use=True, start=None, hint=None, rprops=None, after='A', wired=True, early=False, strict=True, api=True, argroles=None):
        self.argroles = argroles or {}
        self.fn, self.scens, self.M, self.rout, self.rin = fn, tuple(scens), tuple(M), frozenset(rout), frozenset(rin)
        self.pre, self.refuse, self.post, self.publish, self.use, self.start, self.rprops = pre, refuse, post, publish, use, start, tuple(rprops or errprops(fn))
        self.fprops = ('C06', 'C09') if '(*character.' in fn or '(character.' in fn else ('C06', 'C02') if 'GetRemark' in fn else ('C06',)
        self.after, self.wired, self.hint, self.early, self.strict, self.api = after, wired, hint, early, strict, api

    def modifies(self, scen):
        if scen == 'A':
            return [n for n in self.M if n not in BITG]
        if scen == 'B2' and self.after == 'B2':
            return list(self.M)
        if self.after == 'A':
            return list(self.M) + [n for n in REALN + ['role'] + BITG if n not in self.M]
        return list(self.M) + [n for n in REALN + ['role'] if n not in self.M]

    def roles(self, scen):
        return self.rout, (self.rin if scen == 'A' else self.rin | {1})

    def apply(self, mode, ex, st, fname, args):
        if not self.use:
            return None
        scen = scen_of(st.sig)
        if scen not in self.scens:
            return None
        f = mode.P.funcs[fname]
        rs = mode.P.T(f['sig'])['results']
        mode.called.add((fname, scen))
        for a, p in zip(args, f['params']):
            ex.oblige(st, 'pre', ex.wired(st, a, p['t']), ALLP, 'argument %s of %s is complete' % (p['n'], fname))
        ex.oblige(st, 'pre', ex.canon_mutable_inv(st), ALLP, 'cached state is consistent before ' + fname)
        call = Call(mode, ex, st, dict(st.sig), args)
        for p in (self.pre(call) if self.pre else ()):
            ex.oblige(st, 'pre', p.fact, p.props, '%s of %s' % (p.name, fname), None, [F('touch', t) for t in p.touches])
        mode.cut(ex, st, True, 'before the call of ' + fname)
        o = call.old
        refuse = self.refuse(call) if self.refuse else FALSE
        rout, rin = self.roles(scen)
        if not (rout <= mode.rout and rin <= mode.rin):
            ex.oblige(st, 'frame', FALSE, ALLP, 'the call of %s may change more than %s' % (fname, ex.fn))
        names = self.modifies(scen)
        bad0 = st.copy()

        def after(s, scen2):
            s.sig['stC'], s.sig['stB'] = STATES[scen2]
            if names:
                mode.havoc_names(s, names, o, rout, rin)
                for q in mode.inv(s.sig):
                    s.add(q.hyp())
                for q in mode.ext(o, s.sig, rout, rin):
                    s.add(q.hyp())
                for t in mode.touched(s):
                    for q in mode.ext(o, s.sig, rout, rin):
                        if len(q.vs) == 1:
                            s.add(substitute(q.body, {q.vs[0].data: t}))
                if mode.entry_sig is not o:
                    for q in mode.ext(mode.entry_sig, s.sig):
                        s.add(q.hyp())
                s.hist['known'] = dict(s.sig)
                s.hist['edges'] = ()
            ex.havoc_canon(s, fname)
        outs = []
        s2 = self.after if scen != 'A' else 'A'
        if LATER['B1'].index(s2) < LATER['B1'].index(scen):
            s2 = scen
        if refuse is not TRUE:
            st.add(Not(refuse))
        after(st, s2)
        short_ = fname.split('.')[-1]
        res = [ex.fresh_value(st, t, short_, self.wired) for t in rs if t != 'error']
        c = Call(mode, ex, st, o, args, res)
        for p in (self.post(c) if self.post else ()):
            mode.touch(st, *p.touches)
            st.add(mode.norm(st, p.fact) if isinstance(p.fact, Term) else p.fact.hyp())
            for t, r in p.roles:
                mode.note(st, mode.norm(st, t), r)
        if s2 == 'A':
            for v in res:
                for K, m, e in mode.entities(v):
                    mode.exist_entity(st, e)
        outs.append((st, res + ([ZERO] if rs and rs[-1] == 'error' else [])))
        if rs and rs[-1] == 'error':
            if scen == 'A':
                b = bad0.copy()
                w = fresh('failed', 'Bool')
                b.add(Or(w, refuse))
                b.sig['failed'] = Or(b.sig['failed'], w)
                after(b, 'A')
                outs.append((b, [ex.fresh_value(b, t, 'undefined', False) for t in rs[:-1]] + [fresh_err('err.' + short_)]))
            elif refuse is not FALSE:
                for l in LATER[scen]:
                    b = bad0.copy()
                    b.add(refuse)
                    if l == scen and names:
                        pass
                    after(b, l)
                    outs.append((b, [ex.fresh_value(b, t, 'undefined', False) for t in rs[:-1]] + [fresh_err('err.' + short_)]))
        return outs


class Call:
    def __init__(self, mode, ex, st, old, args, res=None):
        self.mode, self.ex, self.st, self.old, self.args, self.res = mode, ex, st, old, args, res
        self.o, self.c = Sg(old), Sg(st.sig)

    def arg(self, k, K):
        return self.mode.ent(self.args[k], K)

    def ent(self, K, k=0):
        return self.mode.ent(self.res[k], K)


CONTRACTS = {}


def contract(fn, *a, **k):
    CONTRACTS[fn] = Contract(fn, *a, **k)


PKG = {K: KINDS[K][1] for K in KINDS}
MK = {'C': MC, 'W': MW, 'P': MP, 'D': MD}
ROUT = {'C': ROUT_C, 'W': ROUT_W, 'P': ROUT_P, 'D': ROUT_D}
RIN = {'C': RIN_C, 'W': RIN_W, 'P': RIN_P, 'D': RIN_D}
ABIT = ('A', 'B2', 'B1')


# ------------------------------------------------------------ bits
def bitval(c):
    v = c.res[0]
    while isinstance(v, IV):
        v = v.pay
    return c.mode.named(v, 'bit.Entity')


def onlynew(c, name, *allowed):
    """nothing is created but the nodes in allowed"""
    if c.c.alive is c.o.alive:
        return []
    n = n_
    q = Q(name, [n], Imp(c.c.g('alive', n), Or(c.o.g('alive', n), *[eq(n, a) for a in allowed])), ('C16', 'C15', 'C17'))
    return [Post(name, q.props, q)]


CLS = [I(k) for k in range(1, 9)]
contract('(*bit.Repository).Provide', ABIT, [], (), (),
         post=lambda c: [Post('the bit has the value asked for', ('C16', 'C09', 'C01', 'C07'), eq(bitval(c)['value'], c.args[1]))] +
         onlynew(c, 'nothing is created but the classes and one pair of nodes for each bit', *(CLS + [c.c.gZ, c.c.gO, c.c.gZc, c.c.gOc])))
contract('(*bit.Repository).Fetch', ('A',), [], (), (),
         refuse=lambda c: And(ne(c.args[1], c.o.gZ), ne(c.args[1], c.o.gO)),
         post=lambda c: [Post('the bit has the identifier asked for', ('C16', 'C09', 'C01', 'C07'), eq(bitval(c)['character'], c.args[1]))])


# ------------------------------------------------------------ tries
def near(s, K, m):
    """nodes around a published entity whose facts are used"""
    lo = s.pv(m)
    h = s.ea(lo)
    return [m, lo, h, s.pv(h), s.ia(m)]


def once(c, K, m):
    """C07: if the entity was there before, nothing is created"""
    return Post('a stored %s is found again, nothing is created' % PKG[K], ('C07',), Imp(c.o.is_(K, m), eq(c.c.alive, c.o.alive)), near(c.o, K, m) + near(c.c, K, m))


def first(K):
    def pre(c):
        return [Post('word without spaces', ('C01', 'C06'), F('spfree', c.args[1]))] if K == 'P' else []

    def refuse(c):
        return {'C': lambda: FALSE, 'W': lambda: lt(c.args[1], ZERO), 'P': lambda: Not(lists.okword(c.args[1]))}[K]()

    def post(c):
        m = c.ent(K)
        return [Post('the first element stands for the value given', VALP[K], eq(c.c.val(K, m), snoc(nil(LS[K]), c.args[1])), near(c.c, K, m)), once(c, K, m)]
    contract('(*%s.Elements).ProvideFirstElement' % PKG[K], ABIT, MK[K], ROUT[K], RIN[K], pre=pre, refuse=refuse, post=post)


def nextel(K):
    def pre(c):
        m = c.arg(0, K)
        v = snoc(c.o.val(K, m), c.args[1])
        if K == 'C':
            return [Post('the value stays below 2^31', ('C09', 'C01'), le(F('num', v), I(MAXRUNE)))]
        return [Post('word without spaces', ('C01', 'C06'), F('spfree', c.args[1]))] if K == 'P' else []

    def refuse(c):
        return {'C': lambda: FALSE, 'W': lambda: lt(c.args[1], ZERO), 'P': lambda: Not(lists.okword(c.args[1]))}[K]()

    def post(c):
        m, p = c.ent(K), c.arg(0, K)
        return [Post('the next element extends the value', VALP[K], eq(c.c.val(K, m), snoc(c.o.val(K, p), c.args[1])), near(c.c, K, m) + [p]), once(c, K, m)]
    contract('(%s.Element).ProvideNextElement' % PKG[K], ('A',), MK[K], ROUT[K], RIN[K], pre=pre, refuse=refuse, post=post)


def coded(K, v):
    return {'C': F('bits', v) if v.sort == 'Int' else None, 'W': F('runes', v) if v.sort == 'Str' else None, 'P': F('split', v) if v.sort == 'Str' else None}[K]


def badtext(v):
    return Not(F('okp', F('split', v)))


def provide(K):
    def refuse(c):
        v = c.args[1]
        return {'C': lambda: lt(v, ZERO), 'W': lambda: Not(lists.okword(v)), 'P': lambda: badtext(v)}[K]()

    def post(c):
        m = c.ent(K)
        return [Post('the %s stands for the value given' % PKG[K], VALP[K], eq(c.c.val(K, m), coded(K, c.args[1])), near(c.c, K, m)), once(c, K, m)]
    contract('(*%s.Repository).Provide' % PKG[K], ABIT, MK[K], ROUT[K], RIN[K], refuse=refuse, post=post)


def decoded(s, K, m):
    return F({'C': 'num', 'W': 'rstr', 'P': 'pjoin'}[K], s.val(K, m))


def extract(K):
    contract('(%s.Aggregate).Extract' % PKG[K], ('A',), post=lambda c: [Post('the value is read back', VALP[K] + ('C02', 'C03', 'C13'), eq(c.res[0], decoded(c.o, K, c.arg(0, K))), [c.arg(0, K)])])


for K_ in 'CWP':
    first(K_)
    nextel(K_)
    provide(K_)
    extract(K_)


# ------------------------------------------------------------ details
def dval(s, m, part):
    """text list of the object or property of a detail"""
    return s.val('P', s.pv(s.g(part, m)))


DTP = ('C08', 'C01', 'C02', 'C10', 'C13', 'C06')


def dprov_post(c):
    m = c.ent('D')
    t = [m, c.c.g('dO', m), c.c.g('dP', m), c.c.pv(c.c.g('dO', m)), c.c.pv(c.c.g('dP', m))]
    return [Post('the object of the detail is the text given', DTP, eq(dval(c.c, m, 'dO'), F('split', c.args[1])), t),
            Post('the property of the detail is the text given', DTP, eq(dval(c.c, m, 'dP'), F('split', c.args[2])), t)]


def dfac_post(c):
    m = c.ent('D')
    s = c.c
    o, p = c.o.nx(c.arg(2, 'P')), c.o.nx(c.arg(3, 'P'))
    t = [m, o, p]
    return [Post('the detail leads from the object to the property', DTP, And(eq(s.g('dO', m), o), eq(s.g('dP', m), p)), t)]


MDD = [n for n in MD if n not in MP] + REALN + ['role']
contract('(*detail.Factory).ProvideEntity', ('A',), MDD, {44}, {5, 44}, post=dfac_post, api=False)
contract('(*detail.Repository).Provide', ABIT, MD, ROUT_D, RIN_D, refuse=lambda c: Or(badtext(c.args[1]), badtext(c.args[2])), post=dprov_post)


def dget_post(c):
    m = c.arg(0, 'D')
    t = [m, c.o.g('dO', m), c.o.g('dP', m)]
    return [Post('the object is read back', DTP, eq(c.res[0], F('pjoin', dval(c.o, m, 'dO'))), t),
            Post('the property is read back', DTP, eq(c.res[1], F('pjoin', dval(c.o, m, 'dP'))), t)]


contract('(detail.Aggregate).GetObjectAndProperty', ('A',), post=dget_post)

# ------------------------------------------------------------ calls of the user
MR = MD + ['isR', 'rD', 'rF']
MF = MR + ['isF', 'fFirst', 'fStory', 'fOrd', 'isS', 'sLen', 'sFact']
MS = MF + ['cPar', 'cOrd', 'cLen', 'cSt']


def rdet(s, r):
    return s.pv(s.g('rD', r))


def rtouch(s, r):
    d = rdet(s, r)
    f = s.g('rF', r)
    st = s.g('fStory', f)
    return [r, s.g('rD', r), d, f, st, s.g('dO', d), s.g('dP', d), s.pv(s.g('dO', d)), s.pv(s.g('dP', d)), s.nx(r, 2)]


def others(c, name, *keep):
    """stories other than those in keep have the same number of facts or children as before"""
    n = n_
    q = Q('other stories have the same %s' % {'sLen': 'facts', 'cLen': 'children'}[name], [n],
          Imp(And(c.o.is_('S', n), *[ne(n, k) for k in keep]), eq(c.c.g(name, n), c.o.g(name, n))), ('C03', 'C11', 'C12', 'C20', 'C15'))
    return Post(q.name, q.props, q)


def newremark(c, r):
    return [Post('the remark is a new one', ('C20',), Not(c.o.g('alive', r)), [r])]


def texts(c, r, o, p):
    s = c.c
    t = rtouch(s, r)
    d = rdet(s, r)
    return [Post('the remark has the object given', TXT, eq(dval(s, d, 'dO'), o), t), Post('the remark has the property given', TXT, eq(dval(s, d, 'dP'), p), t),
            Post('no remark follows the new one', ('C13', 'C20'), eq(s.en(s.nx(r, 2)), ZERO), t)]


def story_post(c, child):
    s, o = c.c, c.o
    r = c.ent('R')
    f = s.g('rF', r)
    st = s.g('fStory', f)
    P = ('C20', 'C11', 'C12')
    out = newremark(c, r) + texts(c, r, F('split', c.args[1]), F('split', c.args[2]))
    out += [Post('the remark belongs to a new fact', P, And(Not(o.g('alive', f)), eq(s.g('fFirst', f), r), s.is_('F', f)), rtouch(s, r)),
            Post('the fact belongs to a new story and is its only fact', P + ('C13',), And(Not(o.g('alive', st)), s.is_('S', st), eq(s.g('sLen', st), ONE), eq(sel(sel(s.sFact, st), ZERO), f), eq(s.g('fOrd', f), ZERO)), rtouch(s, r)),
            Post('the story has no children', P, eq(s.g('cLen', st), ZERO), rtouch(s, r)), others(c, 'sLen')]
    if child:
        par = o.g('fStory', o.g('rF', c.arg(0, 'R')))
        out += [Post('the story is the last child of the story of the remark', P, And(eq(s.g('cPar', st), par), eq(s.g('cOrd', st), o.g('cLen', par)), eq(s.g('cLen', par), add(o.g('cLen', par), ONE))), rtouch(s, r) + rtouch(o, c.arg(0, 'R'))),
                others(c, 'cLen', par)]
    else:
        out += [Post('the story has no parent', P, eq(s.g('cPar', st), ZERO), rtouch(s, r)), others(c, 'cLen')]
    return out


def remark_post(c):
    s, o = c.c, c.o
    r, q = c.ent('R'), c.arg(0, 'R')
    return newremark(c, r) + texts(c, r, dval(o, rdet(o, q), 'dO'), F('split', c.args[1])) + [
        Post('the remark belongs to the fact of the remark it was added to', ('C10', 'C11', 'C20'), eq(s.g('rF', r), o.g('rF', q)), rtouch(s, r) + rtouch(o, q))]


def fact_post(c):
    s, o = c.c, c.o
    r, q = c.ent('R'), c.arg(0, 'R')
    f = s.g('rF', r)
    st = o.g('fStory', o.g('rF', q))
    t = rtouch(s, r) + rtouch(o, q)
    P = ('C11', 'C20')
    return newremark(c, r) + texts(c, r, F('split', c.args[1]), F('split', c.args[2])) + [
        Post('the remark belongs to a new fact', P, And(Not(o.g('alive', f)), eq(s.g('fFirst', f), r), s.is_('F', f)), t),
        Post('the fact is the last one of the story', P, And(eq(s.g('fStory', f), st), eq(s.g('fOrd', f), o.g('sLen', st)), eq(s.g('sLen', st), add(o.g('sLen', st), ONE))), t),
        others(c, 'sLen', st)]


def publish(mode, ex, st, args, res):
    """the new remark (and fact and story) becomes part of the graph when the call returns"""
    r = None
    for K, m, v in mode.entities(res[0]):
        if K == 'R':
            n = mode.named(v, v.t)
            r, d62, p63, f64 = [mode.resolve(st, n[x]) for x in KINDS['R'][2]]
    if r is None:
        raise Unsupported('no remark is returned')
    s = Sg(st.sig)
    mode.fams = frozenset('CWPDRFS')
    if sel(s.isR, r) is not FALSE and mode.true(st, s.is_('R', r)):
        return
    mine = st.hist.get('mine', ())
    f = mode.place(st, mode.norm(st, s.ea(f64)))
    y = mode.place(st, mode.norm(st, s.ea(mode.resolve(st, s.nx(f, 2))))) if f in mine else None
    publish_remark(mode, st, r, d62, f, y, f in mine, y in mine)


def publish_remark(mode, st, r, d62, f, y, newfact, newstory):
    up = lambda name, n, v: mode.upd(st, name, n, v)
    s = Sg(st.sig)
    mode.touch(st, r, d62, f, s.ia(d62), s.pv(s.ia(d62)))
    up('isR', r, TRUE)
    up('rD', r, s.ia(d62))
    up('rF', r, f)
    if not newfact:
        return
    up('isF', f, TRUE)
    up('fFirst', f, r)
    mode.touch(st, y, s.nx(f, 2))
    up('fStory', f, y)
    s = Sg(st.sig)
    if not newstory:
        n = s.g('sLen', y)
        mode.touch(st, sel(sel(s.sFact, y), sub(n, ONE)), n, sub(n, ONE))
        up('fOrd', f, n)
        up('sFact', y, store(sel(s.sFact, y), n, f))
        up('sLen', y, add(n, ONE))
        return
    up('fOrd', f, ZERO)
    up('isS', y, TRUE)
    up('sLen', y, ONE)
    up('sFact', y, store(sel(s.sFact, y), ZERO, f))
    t84 = mode.resolve(st, s.nx(y, 2))
    up('cLen', y, ZERO)
    if mode.true(st, eq(s.en(t84), ZERO)):
        up('cPar', y, ZERO)
        return
    p = s.pv(mode.norm(st, s.ea(t84)), 2)
    mode.touch(st, p, s.ea(t84))
    up('cPar', y, p)
    s = Sg(st.sig)
    n = s.g('cLen', p)
    mode.touch(st, sel(sel(s.cSt, p), sub(n, ONE)), n, sub(n, ONE), sel(sel(s.cSt, p), ZERO))
    up('cOrd', y, n)
    up('cSt', p, store(sel(s.cSt, p), n, y))
    up('cLen', p, add(n, ONE))


# the last step of adding facts and stories: complete new entities become part of the graph
def complete(s, f, newstory):
    """f is a complete fact that is not part of the graph yet"""
    r = s.pv(s.ea(f), 3)
    d62, p63, f64 = s.nx(r), s.nx(r, 2), s.nx(r, 3)
    y = s.ea(s.nx(f, 2))
    c = [s.hasrole(f, 72), Not(s.is_('F', f)), eq(s.en(f), ONE), s.hasrole(s.ea(f), 64), eq(s.en(s.nx(f)), ZERO), eq(s.en(s.nx(f, 2)), ONE), s.hasrole(y, 82),
         s.hasrole(r, 61), Not(s.is_('R', r)), eq(s.inn(d62), ONE), s.hasrole(s.ia(d62), 53), s.is_('D', s.pv(s.ia(d62))), eq(s.en(p63), ZERO), eq(s.en(f64), ONE), eq(s.ea(f64), f)]
    t = [f, s.nx(f), s.nx(f, 2), s.ea(f), r, d62, p63, f64, s.ia(d62), s.pv(s.ia(d62)), y, s.nx(y), s.nx(y, 2)]
    if newstory:
        c += [Not(s.is_('S', y)), eq(s.en(y), ONE), eq(s.ea(y), s.nx(f, 2)), eq(s.en(s.nx(y)), ZERO), eq(s.en(s.nx(y, 2)), ZERO), eq(s.inn(s.nx(y, 2)), ZERO)]
    return And(*c), t


def detail_roles(s, r):
    d = s.g('rD', r)
    e = s.pv(d)
    return [(d, 53), (e, 52), (s.g('dO', e), 44), (s.g('dP', e), 44), (s.pv(s.g('dO', e)), 43), (s.pv(s.g('dP', e)), 43)]


def append(fn, M, rout, rin, newstory):
    def pre(c):
        s, f, g = c.o, c.args[1], c.args[2]
        y = s.g('fStory', f)
        e, t = complete(s, g, newstory)
        if not newstory:
            e = And(e, eq(s.ea(s.nx(g, 2)), y))
        return [Post('a fact of the graph', ALLP, s.is_('F', f), [f, y]), Post('a complete new fact', ALLP, e, t)]

    def publish_(mode, ex, st, args, res):
        s = Sg(st.sig)
        f = args[2]
        r = s.pv(s.ea(f), 3)
        mode.fams = frozenset('CWPDRFS')
        if sel(s.isR, r) is not FALSE and mode.true(st, s.is_('R', r)):
            return
        publish_remark(mode, st, r, s.nx(r), f, mode.norm(st, s.ea(s.nx(f, 2))), True, newstory)

    def post(c):
        s, o, f, g = c.c, c.o, c.args[1], c.args[2]
        r = o.pv(o.ea(g), 3)
        y = o.ea(o.nx(g, 2))
        t = [f, g, r, y, o.nx(r), o.ia(o.nx(r)), o.pv(o.ia(o.nx(r))), o.nx(r, 2), s.nx(r, 2)]
        P = ('C11', 'C12', 'C20', 'C10', 'C01', 'C02', 'C13', 'C15', 'C03')
        p = o.g('fStory', f)
        out = [Post('the remark is stored', P, And(s.is_('R', r), eq(s.g('rD', r), o.ia(o.nx(r))), eq(s.g('rF', r), g), eq(s.en(s.nx(r, 2)), ZERO)), t, detail_roles(s, r)),
               Post('the fact is stored', P, And(s.is_('F', g), eq(s.g('fFirst', g), r), eq(s.g('fStory', g), y)), t),
               others(c, 'sLen', y)]
        if newstory:
            out += [Post('the story is stored', P, And(s.is_('S', y), eq(s.g('sLen', y), ONE), eq(sel(sel(s.sFact, y), ZERO), g), eq(s.g('fOrd', g), ZERO), eq(s.g('cLen', y), ZERO)), t),
                    Post('the story is the last child', P, And(eq(s.g('cPar', y), p), eq(s.g('cOrd', y), o.g('cLen', p)), eq(s.g('cLen', p), add(o.g('cLen', p), ONE))), t + [p]),
                    others(c, 'cLen', p, y)]
        else:
            out += [Post('the fact is the last one', P, And(eq(s.g('fOrd', g), o.g('sLen', y)), eq(s.g('sLen', y), add(o.g('sLen', y), ONE))), t), others(c, 'cLen')]
        return out
    contract(fn, ('A',), M, rout, rin, pre=pre, post=post, publish=publish_, api=False, argroles={1: 72, 2: 72}, hint=lambda c: [c.args[1], c.o.g('fStory', c.args[1])])


MRF = ['isR', 'rD', 'rF', 'isF', 'fFirst', 'fStory', 'fOrd', 'isS', 'sLen', 'sFact']
append('(*fact.Repository).AppendFact', REALN + MRF, {73}, {73}, False)
append('(*fact.Repository).AppendChildStory', REALN + MRF + ['cPar', 'cOrd', 'cLen', 'cSt'], {83, 84}, {83, 84}, True)


bad2 = lambda c: Or(badtext(c.args[1]), badtext(c.args[2]))
contract('(*semnet.Graph).CreateStory', ABIT, MS, ROUT_D | {53}, RIN_D | {6, 7, 8}, refuse=bad2, publish=publish, post=lambda c: story_post(c, False), use=False)
contract('(remark.Aggregate).CreateChildStory', ('A',), MS, ROUT_D | {53, 83, 84}, RIN_D | {6, 7, 8, 84, 83}, refuse=bad2, publish=publish, post=lambda c: story_post(c, True), use=False)
contract('(remark.Aggregate).AddFactToStory', ('A',), MF, ROUT_D | {53, 73}, RIN_D | {6, 7, 82, 73}, refuse=bad2, publish=publish, post=fact_post, use=False)
contract('(remark.Aggregate).AddRemarkToFact', ('A',), MR, ROUT_D | {53}, RIN_D | {6, 72}, refuse=lambda c: badtext(c.args[1]), publish=publish, post=remark_post, use=False, hint=lambda c: rtouch(c.o, rem(c)))


# looking
def getremark_post(c):
    s, n = c.c, c.args[1]
    out = []
    es = c.mode.entities(c.res[0])
    if len(es) != 1 or es[0][0] != 'R':
        raise Unsupported('GetRemark returns no remark')
    r, v = es[0][1], c.mode.named(es[0][2], es[0][2].t)
    g = v[KINDS['R'][2][0]]
    out.append(Post('only identifiers of remarks are accepted', ('C19', 'C02'), And(Or(s.hasrole(n, 60), s.hasrole(n, 61)), eq(g, n)), [n]))
    if c.old['stB'] is TRUE:
        rs = c.mode.P.T(c.mode.P.funcs[c.ex.fn]['sig'])['results']
        out.append(Post('the remark found is the one stored', ('C02', 'C01', 'C20', 'C15'), Imp(s.is_('R', n), And(eq(r, n), c.ex.wired(c.st, c.res[0], rs[0]))), [n, s.nx(n), s.nx(n, 2), s.nx(n, 3)]))
    return out


contract('(*semnet.Graph).GetRemark', ABIT, [], refuse=lambda c: Not(c.o.is_('R', c.args[1])), post=getremark_post, use=False, after='B2', wired=False, strict=False)


def rem(c):
    return c.arg(0, 'R')


def fact_of(s, r):
    return s.g('rF', r)


def nextfact(s, f):
    st = s.g('fStory', f)
    return sel(sel(s.sFact, st), add(s.g('fOrd', f), ONE))


def hasnextfact(s, f):
    return lt(add(s.g('fOrd', f), ONE), s.g('sLen', s.g('fStory', f)))


def nextstory(s, y):
    return sel(sel(s.cSt, s.g('cPar', y)), add(s.g('cOrd', y), ONE))


def hasnextstory(s, y):
    return And(ne(s.g('cPar', y), ZERO), lt(add(s.g('cOrd', y), ONE), s.g('cLen', s.g('cPar', y))))


def firstfact(s, y):
    return sel(sel(s.sFact, y), ZERO)


def ntouch(s, r):
    f = fact_of(s, r)
    y = s.g('fStory', f)
    ns = nextstory(s, y)
    return rtouch(s, r) + [nextfact(s, f), firstfact(s, y), ns, firstfact(s, ns), s.g('cPar', y), s.g('fFirst', nextfact(s, f)), s.g('fFirst', firstfact(s, y)), s.g('fFirst', firstfact(s, ns))]


def nav(m, props, post=None, refuse=None):
    contract('(remark.Aggregate).' + m, ('A',), refuse=refuse, use=False, hint=lambda c: ntouch(c.o, rem(c)), post=lambda c: [Post('it answers what is stored', props, post(c), ntouch(c.o, rem(c)))])


NAVP = ('C11', 'C10', 'C03', 'C02', 'C15')
nav('GetIdentifier', ('C02', 'C20'), lambda c: eq(c.res[0], rem(c)))
nav('HasNextRemark', ('C13', 'C03', 'C02'), lambda c: eq(c.res[0], ne(c.o.en(c.o.nx(rem(c), 2)), ZERO)))
nav('GetNextRemark', ('C13', 'C03', 'C02'), lambda c: eq(c.ent('R'), c.o.pv(c.o.ea(c.o.nx(rem(c), 2)), 2)), refuse=lambda c: eq(c.o.en(c.o.nx(rem(c), 2)), ZERO))
nav('HasNextFact', NAVP, lambda c: eq(c.res[0], hasnextfact(c.o, fact_of(c.o, rem(c)))))
nav('GetNextFact', NAVP, lambda c: eq(c.ent('R'), c.o.g('fFirst', nextfact(c.o, fact_of(c.o, rem(c))))), refuse=lambda c: Not(hasnextfact(c.o, fact_of(c.o, rem(c)))))
nav('GetFirstFact', NAVP + ('C13', 'C12', 'C20'), lambda c: eq(c.ent('R'), c.o.g('fFirst', firstfact(c.o, c.o.g('fStory', fact_of(c.o, rem(c)))))))
nav('HasNextStory', NAVP + ('C12',), lambda c: eq(c.res[0], hasnextstory(c.o, c.o.g('fStory', fact_of(c.o, rem(c))))))
nav('GetNextStory', NAVP + ('C12',), lambda c: eq(c.ent('R'), c.o.g('fFirst', firstfact(c.o, nextstory(c.o, c.o.g('fStory', fact_of(c.o, rem(c))))))),
    refuse=lambda c: Not(hasnextstory(c.o, c.o.g('fStory', fact_of(c.o, rem(c))))))
contract('(remark.Aggregate).GetObjectAndProperty', ('A',), use=False, post=lambda c: [
    Post('the object stored is reported', TXT + ('C13', 'C08'), eq(c.res[0], F('pjoin', dval(c.o, rdet(c.o, rem(c)), 'dO'))), rtouch(c.o, rem(c))),
    Post('the property stored is reported', TXT + ('C13', 'C08'), eq(c.res[1], F('pjoin', dval(c.o, rdet(c.o, rem(c)), 'dP'))), rtouch(c.o, rem(c)))])


def remark_text(s, r):
    """the definition of the printed text"""
    d = rdet(s, r)
    sp = S(b' ')
    p63 = s.nx(r, 2)
    rest = ite(eq(s.en(p63), ZERO), S(b''), F('stext', s.pv(s.ea(p63), 2)))
    ob, pr = F('pjoin', dval(s, d, 'dO')), F('pjoin', dval(s, d, 'dP'))
    cat = lambda x: engine.sconcat(ob, engine.sconcat(sp, engine.sconcat(pr, engine.sconcat(sp, x))))
    return And(Imp(eq(s.en(p63), ZERO), eq(F('stext', r), cat(S(b'')))), Imp(ne(s.en(p63), ZERO), eq(F('stext', r), cat(F('stext', s.pv(s.ea(p63), 2))))))


def getstory_start(mode, ex, st, args):
    r = V('r', 'Int')
    s = Sg(st.sig)
    st.add(Forall([r], Imp(s.is_('R', r), remark_text(s, r)), [[F('stext', r), F('touch', r)]]))
    return args


def getstory_arg(c):
    return c.arg(1, 'R')


contract('(*semnet.Output).GetStory', ('A',), use=False, start=getstory_start, hint=lambda c: ntouch(c.o, getstory_arg(c)), post=lambda c: [
    Post('the text is that of the remarks of the first fact', ('C13',), eq(c.res[0], F('stext', c.o.g('fFirst', firstfact(c.o, c.o.g('fStory', fact_of(c.o, getstory_arg(c))))))), ntouch(c.o, getstory_arg(c)))])


# ------------------------------------------------------------ reading and creating entities (C17, C18)
def readby(K, part):
    base, pkg, fields = KINDS[K]
    role = base * 10 + part + 1

    def pre(c):
        return [Post('identifier of the right kind', ('C18',), c.o.hasrole(c.args[1], role), [c.args[1]])]

    def post(c):
        es = c.mode.entities(c.res[0])
        if len(es) != 1 or es[0][0] != K:
            raise Unsupported('not one entity is returned')
        v = c.mode.named(es[0][2], es[0][2].t)
        ps = parts_of(c.o, K, c.args[1], part)
        return [Post('%s is the one stored' % f, ('C18', 'C02'), eq(v[f], p), [c.args[1]] + ps) for f, p in zip(fields, ps)]
    contract('(*%s.Storage).ReadEntityBy%s' % (pkg, fields[part].capitalize()), ('A', 'B2') if K == 'R' and part == 0 else ('A',), pre=pre, post=post, use=False, wired=False,
             after='B2' if K == 'R' and part == 0 else 'A')


for K_ in KINDS:
    for p_ in range(len(KINDS[K_][2])):
        readby(K_, p_)


def newpair(c):
    s = c.o
    o, p = s.nx(c.arg(2, 'P')), s.nx(c.arg(3, 'P'))
    x = sel(sel(c.old['ofD'], o), p)
    return [Post('phrases without a common detail', ('C08', 'C18'), And(s.hasrole(o, 44), s.hasrole(p, 44), s.is_('P', s.pv(o)), s.is_('P', s.pv(p)),
            Not(And(s.is_('D', x), eq(s.g('dO', x), o), eq(s.g('dP', x), p)))), [o, p, s.pv(o), s.pv(p), x])]


def creating(K):
    base, pkg, fields = KINDS[K]

    def start(mode, ex, st, args):
        n = mode.create(ex, st)
        r = mode.connect(ex, st, n, I(base))
        return [args[0], n] + args[2:]

    def post(c):
        es = c.mode.entities(c.res[0])
        if len(es) != 1 or es[0][0] != K:
            raise Unsupported('not one entity is returned')
        v = c.mode.named(es[0][2], es[0][2].t)
        ids = [v[f] for f in fields]
        out = []
        if K != 'D':
            out.append(Post('the entity is created for the class identifier given', ('C18',), eq(ids[0], c.args[1])))
        for k, i in enumerate(ids):
            out.append(Post('%s is a new identifier of its own' % fields[k], ('C18', 'C17'), And(Not(c.o.g('alive', i)), c.c.hasrole(i, base * 10 + k + 1)), ids))
            if k:
                out.append(Post('%s is linked to %s both ways' % (fields[k - 1], fields[k]), ('C18',), And(eq(c.c.nx(ids[k - 1]), i), eq(c.c.pv(i), ids[k - 1])), ids))
        return out
    contract('(*%s.Storage).CreateEntity' % pkg, ('A',), REALN + ['role'] + ([n for n in MD if n not in MP] if K == 'D' else []), {44} if K == 'D' else (), {base, 44} if K == 'D' else {base},
             start=start if K != 'D' else None, early=True, pre=newpair if K == 'D' else None, post=post, use=False, wired=(K == 'D'))


for K_ in KINDS:
    creating(K_)

for k_, nm_ in CLASSN.items():
    def mk(k, nm):
        contract('(class.Entity).Create' + nm.capitalize(), ('A', 'B2') if k > 1 else (), REALN + ['role'], (), {k}, use=False, after='B2', post=lambda c: [
            Post('a new member of the class %s and of no other' % nm, ('C17',), And(Not(c.o.g('alive', c.res[0])), c.c.hasrole(c.res[0], 10 * k), eq(c.c.en(c.res[0]), ONE), eq(c.c.ea(c.res[0]), I(k))), [c.res[0]])])
        contract('(class.Entity).Is' + nm.capitalize(), ('A', 'B2'), use=False, after='B2',
                 pre=lambda c: [Post('member of a class', ('C17',), Or(*[Or(c.o.hasrole(c.args[1], 10 * j), c.o.hasrole(c.args[1], 10 * j + 1)) for j in range(1, 9)]), [c.args[1]])],
                 post=lambda c: [Post('exactly the members of the class %s are recognised' % nm, ('C17', 'C19'), eq(c.res[0], Or(c.o.hasrole(c.args[1], 10 * k), c.o.hasrole(c.args[1], 10 * k + 1))), [c.args[1]])])
    mk(k_, nm_)
contract('(*class.Repository).ProvideEntity', ABIT, [], (), (), after='B2', post=lambda c: onlynew(c, 'nothing is created but the eight classes', *CLS))


def user_level(fn):
    return fn.startswith('(*semnet.') or fn.startswith('(remark.Aggregate).')


import json, os as _os
_f = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'sigs.json')
SIGS = json.load(open(_f)) if _os.path.exists(_f) else {}
