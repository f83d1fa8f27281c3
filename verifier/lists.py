"""Specification functions over bit, rune and word lists: definitions, lemmas, trusted facts about the Go library."""
from terms import *
import terms as T
import solve
import engine
from state import *

AB, AI, AS = asort('Int', 'Bool'), asort('Int', 'Int'), asort('Int', 'Str')
ARR = {'C': AB, 'W': AI, 'P': AS}
for k, s in (('B', AB), ('R', AI), ('P', AS)):
    declare('ext' + k, [s, s, 'Int'], 'Int')
    declare('tl' + k, [LS[{'B': 'C', 'R': 'W', 'P': 'P'}[k]]], 'Bool')
    declare('rvx' + k, [s, s, 'Int'], 'Int')
SUF = {'C': 'B', 'W': 'R', 'P': 'P'}
EMPTY = S(b'')


def pref(K, a, n):
    return F(PREF[K], a, n)


def rev(K, b, a, n):
    return F(REV[K], b, a, n)


# ------------------------------------------------------------ definitions, unfolded on ground terms
def u_pref(K):
    ls = LS[K]

    def f(t):
        a, n = t.args
        if n is ZERO:
            return [eq(t, nil(ls))]
        r = [Imp(eq(n, ZERO), eq(t, nil(ls)))]
        m = sub(n, ONE)
        r.append(Imp(gt(n, ZERO), eq(t, snoc(pref(K, a, m), sel(a, m)))))
        r.append(Imp(ge(n, ZERO), eq(pref(K, a, add(n, ONE)), snoc(t, sel(a, n)))))
        if a.op == 'store':
            r.append(Imp(le(n, a.args[1]), eq(t, pref(K, a.args[0], n))))
        return r
    return f


def u_rev(K):
    def f(t):
        b, a, n = t.args
        if n is ZERO:
            return [eq(t, b)]
        m = sub(n, ONE)
        r = [Imp(le(n, ZERO), eq(t, b)), Imp(gt(n, ZERO), eq(t, rev(K, snoc(b, sel(a, m)), a, m)))]
        if a.op == 'store':
            r.append(Imp(le(n, a.args[1]), eq(t, rev(K, b, a.args[0], n))))
        elif b is not nil(LS[K]):
            # one element more in the array
            r.append(Imp(And(ge(n, ZERO), ne(b, nil(LS[K]))), eq(t, rev(K, linit(b), store(a, n, llast(b)), add(n, ONE)))))
        return r
    return f


def end(K, a, n, k):
    return F(END[K], a, n, k)


def u_end(K):
    def f(t):
        a, n, k = t.args
        if k is ZERO:
            return [eq(t, nil(LS[K]))]
        return [Imp(eq(k, ZERO), eq(t, nil(LS[K]))), Imp(gt(k, ZERO), eq(t, snoc(end(K, a, n, sub(k, ONE)), sel(a, sub(n, k))))),
                Imp(ge(k, ZERO), eq(end(K, a, n, add(k, ONE)), snoc(t, sel(a, sub(sub(n, ONE), k)))))]
    return f


def u_pjoin(t):
    l = t.args[0]
    r = [Imp(eq(l, nil('PL')), eq(t, EMPTY))]

    def step(l, more, x):
        """more = l extended by x"""
        return eq(F('pjoin', more), ite(eq(l, nil('PL')), x, engine.sconcat(F('pjoin', l), engine.sconcat(S(b' '), x))))
    if l.op == 'app' and l.data == PREF['P']:
        a, n = l.args
        r.append(Imp(ge(n, ZERO), step(l, pref('P', a, add(n, ONE)), sel(a, n))))
    if l.op == 'app' and l.data == END['P']:
        a, n, k = l.args
        r.append(Imp(ge(k, ZERO), step(l, end('P', a, n, add(k, ONE)), sel(a, sub(sub(n, ONE), k)))))
    if not r[1:]:
        r.append(Imp(ne(l, nil('PL')), step(linit(l), l, llast(l))))
    return r


declare('cat', ['PL'], 'Str')


def u_cat(t):
    """all the texts of a list one after the other"""
    l = t.args[0]
    r = [Imp(eq(l, nil('PL')), eq(t, EMPTY)), Imp(ne(l, nil('PL')), eq(t, engine.sconcat(F('cat', linit(l)), llast(l))))]
    if l.op == 'app' and l.data == PREF['P']:
        a, n = l.args
        r.append(Imp(ge(n, ZERO), eq(F('cat', pref('P', a, add(n, ONE))), engine.sconcat(t, sel(a, n)))))
    return r


def u_concat(t):
    a, b = t.args
    return [Imp(eq(a, EMPTY), eq(t, b)), Imp(eq(b, EMPTY), eq(t, a))]


def u_num(t):
    l = t.args[0]
    more = []
    if l.op == 'app' and l.data == PREF['C']:
        a, n = l.args
        more = [Imp(ge(n, ZERO), eq(F('num', pref('C', a, add(n, ONE))), add(mul(t, I(2)), ite(sel(a, n), ONE, ZERO))))]
    if l.op == 'app' and l.data == END['C']:
        a, n, k = l.args
        more = [Imp(ge(k, ZERO), eq(F('num', end('C', a, n, add(k, ONE))), add(mul(t, I(2)), ite(sel(a, sub(sub(n, ONE), k)), ONE, ZERO))))]
    return more + [Imp(eq(l, nil('BL')), eq(t, ZERO)), Imp(ne(l, nil('BL')), eq(t, add(mul(F('num', linit(l)), I(2)), ite(llast(l), ONE, ZERO)))), ge(t, ZERO)]


def okword(w):
    return And(F('valid', w), ne(w, EMPTY))


def u_okp(t):
    l = t.args[0]
    return [Imp(eq(l, nil('PL')), t), Imp(ne(l, nil('PL')), eq(t, And(F('okp', linit(l)), okword(llast(l)))))]


def u_nosp(t):
    l = t.args[0]
    return [Imp(eq(l, nil('PL')), t), Imp(ne(l, nil('PL')), eq(t, And(F('nosp', linit(l)), F('spfree', llast(l)))))]


def bits_def(r):
    """definition of the binary representation"""
    h = div(r, I(2))
    d = eq(sub(r, mul(h, I(2))), ONE)
    return [Imp(ge(r, I(2)), eq(F('bits', r), snoc(F('bits', h), d))), Imp(And(ge(r, ZERO), lt(r, I(2))), eq(F('bits', r), snoc(nil('BL'), d)))]


def u_bits(t):
    """only where a program computes it itself: everything else needs no more than the value"""
    r = t.args[0]
    s = show(r, 4)
    return bits_def(r) if s.startswith('L') or '(div' in s else []


for K in 'CWP':
    solve.UNFOLD[PREF[K]] = u_pref(K)
    solve.UNFOLD[REV[K]] = u_rev(K)
    solve.UNFOLD[END[K]] = u_end(K)
solve.UNFOLD['pjoin'] = u_pjoin
solve.UNFOLD['cat'] = u_cat
solve.UNFOLD['sconcat'] = u_concat
solve.UNFOLD['num'] = u_num
solve.UNFOLD['bits'] = u_bits
solve.UNFOLD['okp'] = u_okp
solve.UNFOLD['nosp'] = u_nosp

# ------------------------------------------------------------ lemmas (proved in lemma tasks) and trusted facts
a_, b_, l_, r_, w_, n2_, i2_ = {}, {}, {}, V('r', 'Int'), V('w', 'Str'), V('n', 'Int'), V('i', 'Int')


def ax(name, t, trig):
    solve.AXIOMS.append((name, t, set(trig)))


def lemmas():
    """[(name, hyps, goal)] : the induction steps that justify the lemma axioms (checked without the axioms)"""
    out = []
    n = C('lem.n', 'Int')
    for K in 'CWP':
        a, b = C('lem.a' + K, ARR[K]), C('lem.b' + K, ARR[K])
        t = V('t', 'Int')

        def same(k):
            return Forall([t], Imp(And(le(ZERO, t), lt(t, k)), eq(sel(a, t), sel(b, t))), [[sel(a, t)]])
        out.append(('equal arrays have equal prefixes (%s), base' % K, [], eq(pref(K, a, ZERO), pref(K, b, ZERO))))
        out.append(('equal arrays have equal prefixes (%s), step' % K, [ge(n, ZERO), same(add(n, ONE)), Imp(same(n), eq(pref(K, a, n), pref(K, b, n)))],
                    eq(pref(K, a, add(n, ONE)), pref(K, b, add(n, ONE)))))
        # rev(pref(r, n-k), a, k) = pref(r, n) by induction on k
        k = C('lem.k', 'Int')
        mir = Forall([t], Imp(And(le(ZERO, t), lt(t, n)), eq(sel(b, t), sel(a, sub(sub(n, ONE), t)))), [[sel(b, t)]])
        out.append(('reversed arrays (%s), base' % K, [ge(n, ZERO)], eq(rev(K, pref(K, b, n), a, ZERO), pref(K, b, n))))
        out.append(('reversed arrays (%s), step' % K, [ge(k, ZERO), lt(k, n), mir, eq(rev(K, pref(K, b, sub(n, k)), a, k), pref(K, b, n))],
                    eq(rev(K, pref(K, b, sub(sub(n, k), ONE)), a, add(k, ONE)), pref(K, b, n))))
        # rev(end(a, n, k), a, n-k) = rev([], a, n) by induction on k
        out.append(('lists taken from the end (%s), base' % K, [], eq(rev(K, end(K, a, n, ZERO), a, n), rev(K, nil(LS[K]), a, n))))
        out.append(('lists taken from the end (%s), step' % K, [ge(k, ZERO), lt(k, n), eq(rev(K, end(K, a, n, k), a, sub(n, k)), rev(K, nil(LS[K]), a, n))],
                    eq(rev(K, end(K, a, n, add(k, ONE)), a, sub(n, add(k, ONE))), rev(K, nil(LS[K]), a, n))))
        out.append(('lists taken from the end (%s), all' % K, [ge(n, ZERO), eq(rev(K, end(K, a, n, n), a, ZERO), rev(K, nil(LS[K]), a, n))], eq(end(K, a, n, n), rev(K, nil(LS[K]), a, n))))
    a = C('lem.aC', ARR['C'])
    i = C('lem.i', 'Int')
    out.append(('a longer bit list has no smaller value, base', [], le(F('num', pref('C', a, n)), F('num', pref('C', a, n)))))
    out.append(('a longer bit list has no smaller value, step', [le(ZERO, i), le(i, n), le(F('num', pref('C', a, i)), F('num', pref('C', a, n)))],
                le(F('num', pref('C', a, i)), F('num', pref('C', a, add(n, ONE))))))
    out.append(('a longer bit list taken from the end has no smaller value, base', [], le(F('num', end('C', a, n, i)), F('num', end('C', a, n, i)))))
    k = C('lem.k', 'Int')
    out.append(('a longer bit list taken from the end has no smaller value, step', [le(ZERO, i), le(i, k), le(F('num', end('C', a, n, i)), F('num', end('C', a, n, k)))],
                le(F('num', end('C', a, n, i)), F('num', end('C', a, n, add(k, ONE))))))
    r = C('lem.r', 'Int')
    h = div(r, I(2))
    out.append(('the value of a binary representation, base', [ge(r, ZERO), lt(r, I(2))] + bits_def(r), And(eq(F('num', F('bits', r)), r), ne(F('bits', r), nil('BL')))))
    out.append(('the value of a binary representation, step', [ge(r, I(2)), lt(h, r), ge(h, ZERO), And(eq(F('num', F('bits', h)), h), ne(F('bits', h), nil('BL')))] + bits_def(r),
                And(eq(F('num', F('bits', r)), r), ne(F('bits', r), nil('BL')))))
    p = C('lem.aP', ARR['P'])
    for f, g in (('okp', okword), ('nosp', lambda w: F('spfree', w))):
        out.append(('every word of a good list is good (%s), base' % f, [le(ZERO, i), lt(i, ZERO)], FALSE))
        out.append(('every word of a good list is good (%s), step' % f, [le(ZERO, n), le(ZERO, i), le(i, n), F(f, pref('P', p, add(n, ONE))), Imp(And(F(f, pref('P', p, n)), lt(i, n)), g(sel(p, i)))],
                    g(sel(p, i))))
    return out


def axioms():
    n, i = V('n', 'Int'), V('i', 'Int')
    for K in 'CWP':
        a, b = V('a', ARR[K]), V('b', ARR[K])
        sk = F('ext' + SUF[K], a, b, n)
        ax('equal arrays have equal prefixes', Forall([a, b, n, i], Or(ne(n, i), eq(pref(K, a, n), pref(K, b, i)), And(le(ZERO, sk), lt(sk, n), ne(sel(a, sk), sel(b, sk))), lt(n, ZERO)),
                                                      [[pref(K, a, n), pref(K, b, i)]]), [PREF[K]])
        sk = F('rvx' + SUF[K], b, a, n)
        rv = rev(K, nil(LS[K]), a, n)
        ax('reversed arrays', Forall([a, b, n, i], Or(ne(n, i), eq(pref(K, b, i), rv), And(le(ZERO, sk), lt(sk, n), ne(sel(b, sk), sel(a, sub(sub(n, ONE), sk)))), lt(n, ZERO)),
                                     [[pref(K, b, i), rv]]), [PREF[K]])
        m = V('m', 'Int')
        ax('lists taken from the end', Forall([a, n, m], Or(ne(n, m), lt(n, ZERO), eq(end(K, a, n, m), rev(K, nil(LS[K]), a, n))), [[end(K, a, n, m)]]), [END[K]])
    a = V('a', ARR['C'])
    k = V('k', 'Int')
    ax('a longer bit list taken from the end has no smaller value', Forall([a, n, i, k], Imp(And(le(ZERO, i), le(i, k)), le(F('num', end('C', a, n, i)), F('num', end('C', a, n, k)))),
                                                        [[F('num', end('C', a, n, i)), F('num', end('C', a, n, k))]]), [END['C']])
    a = V('a', ARR['C'])
    ax('a longer bit list has no smaller value', Forall([a, i, n], Imp(And(le(ZERO, i), le(i, n)), le(F('num', pref('C', a, i)), F('num', pref('C', a, n)))),
                                                        [[pref('C', a, i), F('num', pref('C', a, n))]]), ['num'])
    p = V('a', ARR['P'])
    l = V('l', 'PL')
    for f, g in (('okp', okword), ('nosp', lambda w: F('spfree', w))):
        ax('every word of a good list is good', Forall([p, n, i], Imp(And(F(f, pref('P', p, n)), le(ZERO, i), lt(i, n)), g(sel(p, i))), [[pref('P', p, n), F('tlP', pref('P', p, n)), sel(p, i)]]), [f])
        ax('last word of a good list', Forall([l], Imp(And(F(f, l), ne(l, nil('PL'))), g(llast(l))), [[F(f, l)]]), [f])
    s1, s2, s3 = V('s1', 'Str'), V('s2', 'Str'), V('s3', 'Str')
    for f in ('cat', 'pjoin'):
        ax('texts put together in order', Forall([s1, s2, s3], eq(F('sconcat', F('sconcat', s1, s2), s3), F('sconcat', s1, F('sconcat', s2, s3))), [[F('sconcat', F('sconcat', s1, s2), s3)]]), [f])
    r, w, l = V('r', 'Int'), V('w', 'Str'), V('l', 'PL')
    ax('the value of a binary representation', Forall([r], Imp(ge(r, ZERO), And(eq(F('num', F('bits', r)), r), ne(F('bits', r), nil('BL')))), [[F('bits', r)]]), ['bits'])
    # trusted
    ax('code points', Forall([w], And(eq(eq(F('runes', w), nil('RL')), eq(w, EMPTY)), Imp(F('valid', w), eq(F('rstr', F('runes', w)), w))), [[F('runes', w)]]), ['runes'])
    ax('split at spaces', Forall([w], And(ne(F('split', w), nil('PL')), eq(F('pjoin', F('split', w)), w), F('nosp', F('split', w))), [[F('split', w)]]), ['split'])
    ax('join with spaces', Forall([l], Imp(And(F('nosp', l), ne(l, nil('PL'))), eq(F('split', F('pjoin', l)), l)), [[F('pjoin', l)]]), ['pjoin'])


TRUSTED_LIB = [
    'fmt.Sprintf("%b", r) and strconv.FormatInt(r, 2) write the binary representation of r, the last digit last (negative numbers start with a minus sign)',
    '[]rune(s) of a valid UTF-8 text gives back s when converted to a string; it is empty only for the empty text; its elements are between 0 and 0x10FFFF',
    'strings.Split(s, " ") gives words without spaces and strings.Join is its inverse',
    'utf8.ValidString decides valid UTF-8',
    'a range loop over s goes through the elements of []rune(s)',
]
axioms()
