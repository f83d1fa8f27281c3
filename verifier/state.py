"""The abstract state of FULL mode: the storage, the ghost state and the data structure invariant."""
from terms import *
import terms as T

AII, AIB, AIR = asort('Int', 'Int'), asort('Int', 'Bool'), asort('Int', asort('Int', 'Int'))
ROW = asort('Int', 'Int')

declare('touch', ['Int'], 'Bool')
declare('bits', ['Int'], 'BL')          # binary representation of a non-negative integer
declare('num', ['BL'], 'Int')           # value of a bit list
declare('runes', ['Str'], 'RL')         # code points of a string
declare('runearr', ['Str'], asort('Int', 'Int'))
declare('nrunes', ['Str'], 'Int')
declare('rstr', ['RL'], 'Str')          # string of code points
declare('valid', ['Str'], 'Bool')       # valid UTF-8
declare('split', ['Str'], 'PL')         # strings.Split(s, " ")
declare('pjoin', ['PL'], 'Str')         # strings.Join(l, " ")
declare('prefB', [asort('Int', 'Bool'), 'Int'], 'BL')   # list of the first k elements of an array
declare('prefR', [asort('Int', 'Int'), 'Int'], 'RL')
declare('prefP', [asort('Int', 'Str'), 'Int'], 'PL')
declare('endB', [asort('Int', 'Bool'), 'Int', 'Int'], 'BL')   # a[n-1], ..., a[n-k]
declare('endR', [asort('Int', 'Int'), 'Int', 'Int'], 'RL')
declare('endP', [asort('Int', 'Str'), 'Int', 'Int'], 'PL')
declare('revB', ['BL', asort('Int', 'Bool'), 'Int'], 'BL')   # base extended by a[k-1], ..., a[0]
declare('revR', ['RL', asort('Int', 'Int'), 'Int'], 'RL')
declare('revP', ['PL', asort('Int', 'Str'), 'Int'], 'PL')
declare('okp', ['PL'], 'Bool')          # every word is non-empty and valid UTF-8
declare('nosp', ['PL'], 'Bool')         # no word contains a space
declare('spfree', ['Str'], 'Bool')      # contains no space
declare('stext', ['Int'], 'Str')        # text of the remarks of a fact from a remark on

# storage, then ghost state
REAL = [('alive', AIB), ('nxt', AII), ('prv', AII), ('En', AII), ('Ea', AIR), ('In', AII), ('Ia', AIR)]
TRIE = [('is', AIB), ('val', None), ('of', None), ('ix', AII)]
GHOST = [('role', AII), ('gZ', 'Int'), ('gO', 'Int'), ('gZc', 'Int'), ('gOc', 'Int')]
LS = {'C': 'BL', 'W': 'RL', 'P': 'PL'}
PREF = {'C': 'prefB', 'W': 'prefR', 'P': 'prefP'}
END = {'C': 'endB', 'W': 'endR', 'P': 'endP'}
REV = {'C': 'revB', 'W': 'revR', 'P': 'revP'}
for k in 'CWP':
    GHOST += [('is' + k, AIB), ('val' + k, asort('Int', LS[k])), ('of' + k, asort(LS[k], 'Int')), ('ix' + k, AII)]
GHOST += [('isD', AIB), ('dO', AII), ('dP', AII), ('ofD', AIR), ('dI', AII), ('dJ', AII),
          ('isR', AIB), ('rD', AII), ('rF', AII),
          ('isF', AIB), ('fFirst', AII), ('fStory', AII), ('fOrd', AII),
          ('isS', AIB), ('sLen', AII), ('sFact', AIR), ('cPar', AII), ('cOrd', AII), ('cLen', AII), ('cSt', AIR)]
SORTS = dict(REAL + GHOST)
REALN = [n for n, _ in REAL]
MC = REALN + ['role', 'isC', 'valC', 'ofC', 'ixC']
MW = MC + ['isW', 'valW', 'ofW', 'ixW']
MP = MW + ['isP', 'valP', 'ofP', 'ixP']
MD = MP + ['isD', 'dO', 'dP', 'ofD', 'dI', 'dJ']
MBITS = REALN + ['role', 'gZ', 'gO', 'gZc', 'gOc']
BITG = ['gZ', 'gO', 'gZc', 'gOc']

# kinds of entities: class number, parts (field names of the entity struct)
KINDS = {
    'C': (2, 'character', ['class', 'bit', 'character', 'word']),
    'W': (3, 'word', ['class', 'character', 'word', 'phrase']),
    'P': (4, 'phrase', ['class', 'word', 'phrase', 'detail']),
    'D': (5, 'detail', ['class', 'phrase', 'remark']),
    'R': (6, 'remark', ['class', 'detail', 'position', 'fact']),
    'F': (7, 'fact', ['class', 'remark', 'position', 'story']),
    'S': (8, 'story', ['class', 'fact', 'position', 'tree']),
}
MID = {'C': 2, 'W': 2, 'P': 2, 'D': 1, 'R': 0, 'F': 1, 'S': 1}   # the part that identifies a published entity
CLASSN = {1: 'bit', 2: 'character', 3: 'word', 4: 'phrase', 5: 'detail', 6: 'remark', 7: 'fact', 8: 'story'}
# allowed edges: role of the source -> role of every target
EDGES = {12: 22, 22: 12, 23: 23, 24: 32, 32: 24, 33: 33, 34: 42, 42: 34, 43: 43, 44: 52, 52: 44, 53: 62,
         63: 63, 64: 72, 72: 64, 73: 73, 74: 82, 82: 74, 83: 83, 84: 84}
MAXRUNE = 2 ** 31 - 1

TEXT = ('C01', 'C02', 'C03', 'C06', 'C07', 'C08', 'C10', 'C13', 'C15')


class Q:
    """a (possibly) quantified fact: assumed with controlled triggers, proved for arbitrary constants"""
    __slots__ = ('name', 'vs', 'body', 'pats', 'touches', 'props')

    def __init__(self, name, vs, body, props, pats=None, touches=()):
        self.name, self.vs, self.body, self.props = name, vs, body, tuple(props)
        self.pats = pats if pats is not None else ([[F('touch', v) for v in vs]] if vs else None)
        self.touches = list(touches)

    def hyp(self):
        if not self.vs:
            return self.body
        return Forall(self.vs, self.body, self.pats)

    def goal(self):
        """(extra hypotheses, goal)"""
        m = {v.data: fresh('any.' + v.data, v.sort) for v in self.vs}
        hs = []
        for v in self.vs:
            if v.sort == 'Int':
                hs.append(F('touch', m[v.data]))
        for t in self.touches:
            hs.append(F('touch', substitute(t, m)))
        return hs, substitute(self.body, m)


class Hint(Q):
    """a fact about particular nodes whose invariants are needed with it"""
    def __init__(self, name, body, touches, props=()):
        Q.__init__(self, name, [], body, props, None, touches)

    def hyp(self):
        return And(self.body, *[F('touch', t) for t in self.touches])


n_, j_, m_, s_, i_ = V('n', 'Int'), V('j', 'Int'), V('m', 'Int'), V('s', 'Int'), V('i', 'Int')


def fresh_sig(tag, names=None):
    return {n: fresh('%s.%s' % (tag, n), SORTS[n]) for n in (names or SORTS)}


class Sg:
    """readable access to a state"""

    def __init__(self, sig):
        self.sig = sig

    def __getattr__(self, k):
        sig = object.__getattribute__(self, 'sig')
        if k in sig:
            return sig[k]
        raise AttributeError(k)

    def role(self, n):
        return sel(self.sig['role'], n)

    def nx(self, n, k=1):
        for _ in range(k):
            n = sel(self.sig['nxt'], n)
        return n

    def pv(self, n, k=1):
        for _ in range(k):
            n = sel(self.sig['prv'], n)
        return n

    def en(self, n):
        return sel(self.sig['En'], n)

    def ea(self, n, j=ZERO):
        return sel(sel(self.sig['Ea'], n), j)

    def inn(self, n):
        return sel(self.sig['In'], n)

    def ia(self, n, j=ZERO):
        return sel(sel(self.sig['Ia'], n), j)

    def g(self, name, n):
        return sel(self.sig[name], n)

    def is_(self, k, n):
        return sel(self.sig['is' + k], n)

    def val(self, k, n):
        return sel(self.sig['val' + k], n)

    def hasrole(self, n, r):
        return eq(self.role(n), I(r))


def chain_facts(s, k, n, part):
    """n has the role of part number `part` of kind k: the whole chain around it"""
    base, _, fields = KINDS[k]
    L = len(fields)
    r = []
    cur = n
    for p in range(part - 1, -1, -1):
        x = s.pv(cur)
        r += [s.hasrole(x, base * 10 + p + 1), eq(s.nx(x), cur)]
        cur = x
    cur = n
    for p in range(part + 1, L):
        x = s.nx(cur)
        r += [s.hasrole(x, base * 10 + p + 1), eq(s.pv(x), cur)]
        cur = x
    return And(*r)


def parts_of(s, k, n, part):
    """identifiers of all parts, given one"""
    L = len(KINDS[k][2])
    out = []
    for p in range(L):
        if p < part:
            out.append(s.pv(n, part - p))
        else:
            out.append(s.nx(n, p - part))
    return out


def bitnode(s, b):
    return ite(b, s.gO, s.gZ)


def lower(s, K, m):
    """K3: the lower node points to what stands for the last element of the value"""
    lo = s.pv(m)
    last = llast(s.val(K, m))
    h = s.ea(lo)
    if K == 'C':
        return And(eq(s.en(lo), ONE), eq(h, bitnode(s, last)))
    if K == 'W':
        return And(eq(s.en(lo), ONE), s.hasrole(h, 24), s.is_('C', s.pv(h)), eq(s.val('C', s.pv(h)), F('bits', last)), le(ZERO, last), le(last, I(MAXRUNE)))
    return And(eq(s.en(lo), ONE), s.hasrole(h, 34), s.is_('W', s.pv(h)), eq(s.val('W', s.pv(h)), F('runes', last)), eq(F('rstr', s.val('W', s.pv(h))), last))


def reads(K, s, h):
    """the element a lower hi node h stands for"""
    if K == 'W':
        return F('num', s.val('C', s.pv(h)))
    return F('rstr', s.val('W', s.pv(h)))


def inv(sig, stC=True, stB=True):
    """the data structure invariant as a list of Q"""
    s = Sg(sig)
    out = []

    def q(*a, **k):
        out.append(Q(*a, **k))
    n, j, m = n_, j_, m_
    role = s.role(n)
    if not stC:
        q('empty storage', [n], And(Not(s.g('alive', n)), eq(role, ZERO)), ['C16'])
        for k in ('C', 'W', 'P', 'D', 'R', 'F', 'S'):
            q('nothing of kind %s is stored' % k, [n], Not(s.is_(k, n)), ['C16'])
        return out
    q('R0 only created nodes have a role', [n], Imp(ne(role, ZERO), And(s.g('alive', n), gt(n, ZERO))), ['C17', 'C18'])
    q('R1 row lengths', [n], Imp(s.g('alive', n), And(ge(s.en(n), ZERO), ge(s.inn(n), ZERO), gt(n, ZERO))), ['C17'])
    for k in range(1, 9):
        q('CL class node %s' % CLASSN[k], [], And(eq(s.role(I(k)), I(k)), s.g('alive', I(k))), ['C16', 'C17', 'C19'])
    q('CL class nodes have fixed identifiers', [n], Imp(And(le(ONE, role), le(role, I(8))), eq(n, role)), ['C16', 'C17', 'C19'])
    # membership
    mem = []
    for k in range(1, 9):
        mem.append(Imp(Or(eq(role, I(10 * k)), eq(role, I(10 * k + 1))), And(eq(s.en(n), ONE), eq(s.ea(n), I(k)))))
    q('TE members point to their class only', [n], And(*mem), ['C17', 'C19', 'C02'])
    q('TE nodes without edges', [n], Imp(And(s.g('alive', n), Or(And(le(ZERO, role), le(role, I(8))), eq(role, I(62)))), eq(s.en(n), ZERO)), ['C17', 'C19'])
    ed = []
    d = s.role(s.ea(n, j))
    for a, b in sorted(EDGES.items()):
        ed.append(Imp(eq(role, I(a)), eq(d, I(b))))
    q('TE edges lead to nodes of the right kind', [n, j], Imp(And(le(ZERO, j), lt(j, s.en(n))), And(*ed)), ['C17', 'C19'],
      pats=[[F('touch', n), s.ea(n, j)]], touches=[s.ea(n, j)])
    for k in 'CWPDRFS':
        base, _, fields = KINDS[k]
        q('CH chain of %s' % CLASSN[base], [n], And(*[Imp(eq(role, I(base * 10 + p + 1)), chain_facts(s, k, n, p)) for p in range(len(fields))]),
          ['C18', 'C02'] + (['C19'] if k == 'R' else []))
    known = [0] + list(range(1, 9)) + [10, 11, 12] + [10 * b + p for k, (b, _, f) in KINDS.items() for p in range(0, len(f) + 1)]
    q('R2 known roles', [n], Or(*[eq(role, I(r)) for r in sorted(known)]), ['C17'])
    # bits
    if stB:
        q('B bits', [], And(s.hasrole(s.gZ, 12), s.hasrole(s.gO, 12), s.hasrole(s.gZc, 11), s.hasrole(s.gOc, 11), lt(s.gZc, s.gOc), ne(s.gZ, s.gO),
                            eq(s.nx(s.gZc), s.gZ), eq(s.nx(s.gOc), s.gO), eq(s.inn(ONE), I(2)),
                            Or(And(eq(s.ia(ONE, ZERO), s.gZc), eq(s.ia(ONE, ONE), s.gOc)), And(eq(s.ia(ONE, ZERO), s.gOc), eq(s.ia(ONE, ONE), s.gZc)))),
          ['C16', 'C09'])
        q('B only two bits', [n], And(Imp(eq(role, I(12)), Or(eq(n, s.gZ), eq(n, s.gO))), Imp(eq(role, I(11)), Or(eq(n, s.gZc), eq(n, s.gOc))), ne(role, I(10))), ['C16', 'C09'])
    else:
        q('B no bits yet', [], eq(s.inn(ONE), ZERO), ['C16'])
        q('B nothing but classes', [n], And(le(ZERO, role), Or(le(role, I(8)), And(eq(mod(role, I(10)), ZERO), ge(role, I(20))), And(ge(role, I(61)), le(role, I(64))))), ['C16'])
        for k in ('C', 'W', 'P', 'D', 'R', 'F', 'S'):
            q('nothing of kind %s is stored' % k, [n], Not(s.is_(k, n)), ['C16'])
        return out
    # tries
    for K in 'CWP':
        base = KINDS[K][0]
        nm = CLASSN[base]
        mid = base * 10 + 3
        val = s.val(K, m)
        ls = LS[K]
        P = {'C': TEXT + ('C09',), 'W': TEXT, 'P': TEXT}[K]
        isk = s.is_(K, m)
        q('K1 %s: published entities are chains' % nm, [m], Imp(isk, s.hasrole(m, mid)), P + ('C18',))
        q('K2 %s: equal values are one entity' % nm, [m], Imp(isk, And(eq(sel(sig['of' + K], val), m), ne(val, nil(ls)))), ('C07', 'C08', 'C09', 'C01', 'C15'),
          touches=[s.ia(m), s.pv(m), s.ea(s.pv(m)), s.pv(s.ea(s.pv(m)))])
        if K == 'C':
            q('K2 character: value is a rune', [m], Imp(isk, And(le(ZERO, F('num', val)), le(F('num', val), I(MAXRUNE)))), ['C09', 'C01'])
        if K == 'P':
            q('K2 phrase: words are valid', [m], Imp(isk, And(F('okp', val), F('nosp', val))), ('C01', 'C06', 'C10'))
        q('K3 %s: lower node leads to the last element' % nm, [m], Imp(isk, lower(s, K, m)), P)
        p = s.ia(m)
        q('K4 %s: parent holds the shorter value' % nm, [m], Imp(isk, And(
            Imp(eq(linit(val), nil(ls)), eq(s.inn(m), ZERO)),
            Imp(ne(linit(val), nil(ls)), And(eq(s.inn(m), ONE), s.is_(K, p), eq(s.val(K, p), linit(val)), le(ZERO, s.g('ix' + K, m)),
                                             lt(s.g('ix' + K, m), s.en(p)), eq(s.ea(p, s.g('ix' + K, m)), m))))), P,
          touches=[p])
        ch = s.ea(m, j)
        q('K5 %s: children extend the value' % nm, [m, j], Imp(And(isk, le(ZERO, j), lt(j, s.en(m))), And(
            s.is_(K, ch), eq(linit(s.val(K, ch)), val), ne(s.val(K, ch), nil(ls)), eq(s.g('ix' + K, ch), j))), P,
          pats=[[F('touch', m), ch]], touches=[ch])
        q('K5 %s: unpublished entities have no relatives' % nm, [m], Imp(And(s.hasrole(m, mid), Not(isk)), And(eq(s.en(m), ZERO), eq(s.inn(m), ZERO))), P + ('C15',))
        h = n
        if K == 'C':
            for b in (FALSE, TRUE):
                g = bitnode(s, b)
                t = s.ea(g)
                q('K6 character: head of bit %d' % (b is TRUE), [], And(le(s.en(g), ONE), Imp(ne(s.en(g), ZERO), And(
                    s.hasrole(t, 22), s.is_(K, s.nx(t)), eq(s.val(K, s.nx(t)), snoc(nil('BL'), b))))), P, touches=[g, t, s.nx(t)])
        else:
            t = s.ea(h)
            q('K6 %s: head of a value of one element' % nm, [h], Imp(s.hasrole(h, base * 10 - 6), And(le(s.en(h), ONE), Imp(ne(s.en(h), ZERO), And(
                s.is_({'W': 'C', 'P': 'W'}[K], s.pv(h)), s.hasrole(t, base * 10 + 2), s.is_(K, s.nx(t)), eq(s.val(K, s.nx(t)), snoc(nil(ls), reads(K, s, h))))))),
              P, touches=[t, s.nx(t), s.pv(h)])
        hh = s.ea(s.pv(m))
        q('K6 %s: a value of one element is a head' % nm, [m], Imp(And(isk, eq(linit(val), nil(ls))), And(eq(s.en(hh), ONE), eq(s.ea(hh), s.pv(m)))), P,
          touches=[hh, s.pv(m)])
    # details: key is the phrase node (52)
    DP = ('C08', 'C01', 'C02', 'C03', 'C10', 'C13', 'C15')
    isd = s.is_('D', m)
    dO, dP = s.g('dO', m), s.g('dP', m)
    q('D1 detail: object and property', [m], Imp(isd, And(
        s.hasrole(m, 52), eq(s.inn(m), ONE), eq(s.ia(m), dO), eq(s.en(m), ONE), eq(s.ea(m), dP), s.hasrole(dO, 44), s.hasrole(dP, 44),
        s.is_('P', s.pv(dO)), s.is_('P', s.pv(dP)))), DP, touches=[dO, dP, s.pv(dO), s.pv(dP)])
    q('D2 detail: equal pairs are one detail', [m], Imp(isd, And(eq(sel(sel(sig['ofD'], dO), dP), m),
      le(ZERO, s.g('dI', m)), lt(s.g('dI', m), s.en(dO)), eq(s.ea(dO, s.g('dI', m)), m),
      le(ZERO, s.g('dJ', m)), lt(s.g('dJ', m), s.inn(dP)), eq(s.ia(dP, s.g('dJ', m)), m))), ('C08',), touches=[dO, dP])
    x = s.ea(n, j)
    q('D3 object phrase leads to its details', [n, j], Imp(And(s.hasrole(n, 44), le(ZERO, j), lt(j, s.en(n))), And(
        s.hasrole(x, 52), eq(s.inn(x), ONE), eq(s.ia(x), n), eq(s.g('dI', x), j))), DP, pats=[[F('touch', n), x]], touches=[x])
    y = s.ia(n, j)
    q('D3 property phrase is reached from its details', [n, j], Imp(And(s.hasrole(n, 44), le(ZERO, j), lt(j, s.inn(n))), And(
        s.hasrole(y, 52), eq(s.en(y), ONE), eq(s.ea(y), n), eq(s.g('dJ', y), j))), DP, pats=[[F('touch', n), y]], touches=[y])
    q('D4 linked details are published', [m], Imp(And(s.hasrole(m, 52), ne(s.inn(m), ZERO), ne(s.en(m), ZERO)), isd), DP)
    q('D5 detail rows', [m], Imp(s.hasrole(m, 52), And(le(s.inn(m), ONE), le(s.en(m), ONE))), DP)
    # remarks: key is the class node (61)
    RP = ('C02', 'C01', 'C03', 'C10', 'C15', 'C20', 'C13', 'C11', 'C12')
    r = m
    f64, p63, d62 = s.nx(r, 3), s.nx(r, 2), s.nx(r)
    isr = s.is_('R', r)
    q('R1 remark: detail', [r], Imp(isr, And(s.hasrole(r, 61), eq(s.inn(d62), ONE), eq(s.ia(d62), s.g('rD', r)), s.hasrole(s.g('rD', r), 53), s.is_('D', s.pv(s.g('rD', r))))), RP,
      touches=[s.g('rD', r), s.pv(s.g('rD', r)), d62])
    q('R2 remark: fact', [r], Imp(isr, And(eq(s.en(f64), ONE), eq(s.ea(f64), s.g('rF', r)), s.is_('F', s.g('rF', r)))), RP, touches=[f64, s.g('rF', r)])
    t = s.ea(p63)
    q('R3 remark: next remark', [r], Imp(isr, And(le(s.en(p63), ONE), Imp(ne(s.en(p63), ZERO), And(
        s.hasrole(t, 63), s.is_('R', s.pv(t, 2)), eq(s.g('rF', s.pv(t, 2)), s.g('rF', r)))))), ('C13', 'C10', 'C11', 'C03', 'C15'), touches=[p63, t, s.pv(t, 2)])
    # facts: key is the remark node (72)
    FP = ('C11', 'C03', 'C15', 'C20', 'C12', 'C10', 'C13', 'C02')
    isf = s.is_('F', m)
    st = s.g('fStory', m)
    o = s.g('fOrd', m)
    t = s.ea(m)
    ff = s.g('fFirst', m)
    q('F1 fact: first remark', [m], Imp(isf, And(s.hasrole(m, 72), eq(s.en(m), ONE), s.hasrole(t, 64), eq(s.pv(t, 3), ff), s.is_('R', ff), eq(s.g('rF', ff), m))), FP,
      touches=[t, ff])
    g74 = s.nx(m, 2)
    q('F2 fact: story', [m], Imp(isf, And(eq(s.en(g74), ONE), eq(s.ea(g74), st), s.is_('S', st), le(ZERO, o), lt(o, s.g('sLen', st)),
                                          eq(sel(sel(sig['sFact'], st), o), m))), FP, touches=[g74, st])
    p73 = s.nx(m)
    nf = sel(sel(sig['sFact'], st), add(o, ONE))
    q('F3 fact: next fact', [m], Imp(isf, And(Imp(lt(add(o, ONE), s.g('sLen', st)), And(eq(s.en(p73), ONE), eq(s.ea(p73), s.nx(nf)))),
                                              Imp(ge(add(o, ONE), s.g('sLen', st)), eq(s.en(p73), ZERO)))), FP, touches=[p73, st, nf])
    # stories: key is the fact node (82)
    SP = ('C11', 'C12', 'C03', 'C15', 'C20', 'C13', 'C10')
    iss = s.is_('S', m)
    f0 = sel(sel(sig['sFact'], m), ZERO)
    q('S1 story: first fact', [m], Imp(iss, And(s.hasrole(m, 82), ge(s.g('sLen', m), ONE), eq(s.en(m), ONE), eq(s.ea(m), s.nx(f0, 2)))), SP, touches=[f0])
    fi = sel(sel(sig['sFact'], m), i_)
    q('S2 story: facts in order', [m, i_], Imp(And(iss, le(ZERO, i_), lt(i_, s.g('sLen', m))), And(s.is_('F', fi), eq(s.g('fStory', fi), m), eq(s.g('fOrd', fi), i_))), SP,
      pats=[[F('touch', m), fi]], touches=[fi])
    t84, p83 = s.nx(m, 2), s.nx(m)
    par, co = s.g('cPar', m), s.g('cOrd', m)
    CP = ('C12', 'C10', 'C15', 'C03', 'C20')
    q('S3 story: parent story', [m], Imp(iss, And(Imp(eq(par, ZERO), eq(s.en(t84), ZERO)), Imp(ne(par, ZERO), And(
        eq(s.en(t84), ONE), eq(s.ea(t84), s.nx(par, 2)), s.is_('S', par), le(ZERO, co), lt(co, s.g('cLen', par)), eq(sel(sel(sig['cSt'], par), co), m))))), CP, touches=[t84, par])
    ns = sel(sel(sig['cSt'], par), add(co, ONE))
    more = And(ne(par, ZERO), lt(add(co, ONE), s.g('cLen', par)))
    q('S4 story: next story', [m], Imp(iss, And(Imp(more, And(eq(s.en(p83), ONE), eq(s.ea(p83), s.nx(ns)))), Imp(Not(more), eq(s.en(p83), ZERO)))), CP, touches=[p83, par, ns])
    ci = sel(sel(sig['cSt'], m), i_)
    q('S5 story: children in order', [m, i_], Imp(And(iss, le(ZERO, i_), lt(i_, s.g('cLen', m))), And(s.is_('S', ci), eq(s.g('cPar', ci), m), eq(s.g('cOrd', ci), i_))), CP,
      pats=[[F('touch', m), ci]], touches=[ci])
    c0 = sel(sel(sig['cSt'], m), ZERO)
    q('S6 story: children are reached from the parent', [m], Imp(iss, And(ge(s.g('cLen', m), ZERO), Imp(eq(s.g('cLen', m), ZERO), eq(s.inn(t84), ZERO)),
      Imp(gt(s.g('cLen', m), ZERO), And(ge(s.inn(t84), ONE), eq(s.ia(t84), s.nx(c0, 2)), s.hasrole(s.ia(t84), 84))))), CP, touches=[t84, c0, s.nx(c0), s.nx(c0, 2)])
    return out


ALLK = 'CWPDRFS'
EXT = ('C03', 'C15', 'C07', 'C18', 'C20')


def ext(o, c, rout, rin, stC=True, stB=True):
    """what every call preserves: o is the state before, c the state after"""
    a, b = Sg(o), Sg(c)
    out = []
    n, i = n_, i_

    def changed(*names):
        return any(o[x] is not c[x] for x in names)

    def q(*x, **k):
        out.append(Q(*x, **k))
    if changed('alive', 'role', 'nxt', 'prv'):
        q('X1 nodes keep role and references', [n], Imp(a.g('alive', n), And(b.g('alive', n), eq(b.role(n), a.role(n)), eq(b.nx(n), a.nx(n)), eq(b.pv(n), a.pv(n)))), EXT + ('C17',))
    if changed('En', 'Ea'):
        g = And(a.g('alive', n), Not(rout(a.role(n))) if callable(rout) else And(*[ne(a.role(n), I(r)) for r in sorted(rout)]))
        q('X2 targets of other kinds of nodes stay', [n], Imp(g, And(eq(b.en(n), a.en(n)), eq(sel(c['Ea'], n), sel(o['Ea'], n)))), EXT)
    if changed('In', 'Ia'):
        g = And(a.g('alive', n), Not(rin(a.role(n))) if callable(rin) else And(*[ne(a.role(n), I(r)) for r in sorted(rin)]))
        q('X3 sources of other kinds of nodes stay', [n], Imp(g, And(eq(b.inn(n), a.inn(n)), eq(sel(c['Ia'], n), sel(o['Ia'], n)))), EXT + ('C17',))
    for k in 'CWP':
        if changed('is' + k, 'val' + k, 'ix' + k):
            q('X4 %s values stay' % KINDS[k][1], [n], Imp(a.is_(k, n), And(b.is_(k, n), eq(b.val(k, n), a.val(k, n)), eq(b.g('ix' + k, n), a.g('ix' + k, n)))), EXT)
    if changed('isD', 'dO', 'dP'):
        q('X5 details stay', [n], Imp(a.is_('D', n), And(b.is_('D', n), eq(b.g('dO', n), a.g('dO', n)), eq(b.g('dP', n), a.g('dP', n)))), EXT)
    if changed('isR', 'rD', 'rF'):
        q('X6 remarks stay', [n], Imp(a.is_('R', n), And(b.is_('R', n), eq(b.g('rD', n), a.g('rD', n)), eq(b.g('rF', n), a.g('rF', n)))), EXT)
    if changed('isF', 'fFirst', 'fStory', 'fOrd'):
        q('X7 facts stay', [n], Imp(a.is_('F', n), And(b.is_('F', n), *[eq(b.g(x, n), a.g(x, n)) for x in ('fFirst', 'fStory', 'fOrd')])), EXT + ('C11',))
    if changed('isS', 'sLen', 'sFact', 'cPar', 'cOrd', 'cLen', 'cSt'):
        q('X8 stories stay', [n], Imp(a.is_('S', n), And(b.is_('S', n), ge(b.g('sLen', n), a.g('sLen', n)), ge(b.g('cLen', n), a.g('cLen', n)),
                                                         eq(b.g('cPar', n), a.g('cPar', n)), eq(b.g('cOrd', n), a.g('cOrd', n)))), EXT + ('C11', 'C12'))
        for arr, ln in (('sFact', 'sLen'), ('cSt', 'cLen')):
            q('X8 %s of stories stay' % {'sFact': 'facts', 'cSt': 'children'}[arr], [n, i], Imp(And(a.is_('S', n), le(ZERO, i), lt(i, a.g(ln, n))),
              eq(sel(sel(c[arr], n), i), sel(sel(o[arr], n), i))), EXT + ('C11', 'C12'),
              pats=[[F('touch', n), sel(sel(c[arr], n), i)], [F('touch', n), sel(sel(o[arr], n), i)]])
    if stB and changed(*BITG):
        q('X9 bits stay', [], And(*[eq(c[x], o[x]) for x in BITG]), EXT + ('C16',))
    return out


ROUT_C, RIN_C = {12, 23}, {2, 12}
ROUT_W, RIN_W = ROUT_C | {24, 33}, RIN_C | {3, 24}
ROUT_P, RIN_P = ROUT_W | {34, 43}, RIN_W | {4, 34}
ROUT_D, RIN_D = ROUT_P | {44}, RIN_P | {5, 44}
