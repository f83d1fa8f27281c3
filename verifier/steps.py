"""Lemmas about single storage operations: under stated local conditions an operation keeps the invariant and everything
stored.  Each lemma is itself an obligation (checked on every run, for an arbitrary state); at an operation of the code
only the conditions are checked."""
from full import *
import full

PARTROLE = {}
for _k, (_b, _n, _f) in KINDS.items():
    for _p in range(len(_f)):
        PARTROLE[_b * 10 + _p + 1] = (_k, _p)


def published(s, n, r):
    """the entity whose part with role r is n is published"""
    K, p = PARTROLE[r]
    return s.is_(K, parts_of(s, K, n, p)[MID[K]])


# source role -> target may belong to anything; the entity of the source is not published yet
PLAIN = (22, 32, 42, 63, 64, 72, 73, 74, 82, 83)


def edge_conds(s, a, b, ra):
    rb = EDGES[ra]
    c = [s.hasrole(a, ra), s.hasrole(b, rb)]
    if ra in PLAIN:
        c.append(Not(published(s, a, ra)))
    elif ra == 53:
        c.append(Not(published(s, b, rb)))
    elif ra == 84:
        c += [Not(published(s, a, ra)), Or(Not(published(s, b, rb)), gt(s.g('cLen', s.pv(b, 2)), ZERO))]
    elif ra == 44:
        c += [eq(s.inn(b), ZERO), eq(s.en(b), ZERO), Not(published(s, b, rb))]
    else:
        return None
    return c


def edge_update(sig, a, b, ra=None):
    s = Sg(sig)
    n = dict(sig)
    en, inn = s.en(a), s.inn(b)
    n['Ea'] = store(sig['Ea'], a, store(sel(sig['Ea'], a), en, b))
    n['En'] = store(sig['En'], a, add(en, ONE))
    n['Ia'] = store(sig['Ia'], b, store(sel(sig['Ia'], b), inn, a))
    n['In'] = store(sig['In'], b, add(inn, ONE))
    if ra == 44:
        n['dI'] = store(sig['dI'], b, en)
    return n


def near_nodes(s, n, r):
    if r is None or r not in PARTROLE:
        return [n]
    K, p = PARTROLE[r]
    return parts_of(s, K, n, p)


def create_update(sig, n):
    d = dict(sig)
    d['alive'] = store(sig['alive'], n, TRUE)
    for c in ('role', 'nxt', 'prv', 'En', 'In'):
        d[c] = store(sig[c], n, ZERO)
    return d


def ref_update(sig, a, b):
    d = dict(sig)
    d['nxt'] = store(sig['nxt'], a, b)
    d['prv'] = store(sig['prv'], b, a)
    return d


def ref_conds(s, a, b):
    ra = s.role(a)
    return [s.g('alive', a), s.g('alive', b), eq(s.role(b), ZERO), Or(eq(ra, ZERO), *[eq(ra, I(10 * k)) for k in range(1, 9)])]


def member_conds(s, a, k):
    return [s.g('alive', a), eq(s.role(a), ZERO), eq(s.en(a), ZERO)]


def member_update(sig, a, k):
    d = edge_update(sig, a, I(k))
    d['role'] = store(sig['role'], a, I(10 * k))
    return d


def chain_conds(s, ns, k):
    c = [s.hasrole(ns[0], 10 * k)] + [s.g('alive', n) for n in ns] + [s.hasrole(n, 0) for n in ns[1:]]
    c += [eq(s.en(n), ZERO) for n in ns[1:]] + [eq(s.inn(n), ZERO) for n in ns]
    for x, y in zip(ns, ns[1:]):
        c += [eq(s.nx(x), y), eq(s.pv(y), x)]
    c += [ne(x, y) for i, x in enumerate(ns) for y in ns[:i]]
    return c


def chain_update(sig, ns, k):
    d = dict(sig)
    for i, n in enumerate(ns):
        d['role'] = store(d['role'], n, I(10 * k + i + 1))
    return d


# ------------------------------------------------------------ the lemmas as obligations
def lemma_state(mode, scen):
    """an arbitrary earlier state o (of the call), an arbitrary current state that keeps it, both consistent"""
    sig = fresh_sig('cur')
    sig['failed'], sig['stC'], sig['stB'] = FALSE, TRUE, B(scen == 'A')
    o = fresh_sig('ent')
    o['failed'], o['stC'], o['stB'] = FALSE, TRUE, B(scen == 'A')
    mode.entry_sig = o
    return o, sig


declare('rolesout', ['Int'], 'Bool')
declare('rolesin', ['Int'], 'Bool')


class AnyRoles:
    """an arbitrary set of roles"""
    def __init__(self, f):
        self.f = f


def lemma_tasks(scens=('A', 'B2')):
    out = []
    for sc in scens:
        out.append(('create', sc))
        out.append(('reference', sc))
        for k in range(2, 9):
            out.append(('member %d' % k, sc))
            if sc == 'A' or k == 6:
                out.append(('chain %d' % k, sc))
        if sc == 'A':
            for ra in sorted(EDGES):
                if edge_conds(Sg(fresh_sig('t')), fresh('a', 'Int'), fresh('b', 'Int'), ra) is not None:
                    out.append(('edge %d' % ra, sc))
    return out


def lemma(mode, name, scen):
    """obligations of one lemma"""
    P = mode.P
    fn = 'lemma: ' + name
    ex = Ex(P, mode, fn)
    ex.stack = [(fn, 0)]
    st = St()
    o, sig = lemma_state(mode, scen)
    st.sig = dict(sig)
    s = Sg(sig)
    for q in mode.inv(sig):
        st.add(q.hyp())
    anyout, anyin = (lambda r: F('rolesout', r)), (lambda r: F('rolesin', r))
    for q in ext(o, sig, anyout, anyin, True, scen == 'A'):
        st.add(q.hyp())
    a, b = C('lem.a', 'Int'), C('lem.b', 'Int')
    base = Sg(o)
    w = name.split()
    foreign = lambda n: Not(base.g('alive', n))
    if w[0] == 'create':
        conds = [Not(s.g('alive', a)), gt(a, ZERO)]
        new = create_update(sig, a)
        t = [a]
    elif w[0] == 'reference':
        conds = ref_conds(s, a, b) + [foreign(a), foreign(b)]
        new = ref_update(sig, a, b)
        t = [a, b]
    elif w[0] == 'member':
        k = int(w[1])
        conds = member_conds(s, a, k) + [foreign(a), F('rolesin', I(k))]
        new = member_update(sig, a, k)
        t = [a, I(k)]
    elif w[0] == 'chain':
        k = int(w[1])
        K = [x for x, v in KINDS.items() if v[0] == k][0]
        ns = [C('lem.c%d' % i, 'Int') for i in range(len(KINDS[K][2]))]
        conds = chain_conds(s, ns, k) + [foreign(n) for n in ns]
        new = chain_update(sig, ns, k)
        t = ns
    else:
        ra = int(w[1])
        conds = edge_conds(s, a, b, ra) + [Or(foreign(a), F('rolesout', I(ra))), Or(foreign(b), F('rolesin', I(EDGES[ra])))]
        new = edge_update(sig, a, b, ra)
        t = near_nodes(s, a, ra) + near_nodes(s, b, EDGES[ra]) + [s.en(a), s.inn(b)]
    for c in conds:
        st.add(c)
    mode.touch(st, *t)
    st.sig = new
    for q in mode.inv(new):
        ex.oblige(st, 'invariant', q, None, 'kept by the operation')
    for q in ext(o, new, anyout, anyin, True, scen == 'A'):
        ex.oblige(st, 'frame', q, None, 'kept by the operation')
    ex.exits = 1
    return ex
