"""Candidate loop invariants of FULL mode (the solver keeps those that are inductive)."""
from full import *
from lists import end

FAMILY = {'F': ['fStory'], 'S': ['cPar'], 'R': ['rF']}


def types_of(f):
    r = f.get('_vtypes')
    if r is None:
        r = {p['n']: p['t'] for p in f['params'] + f['freevars']}
        for b in f['blocks']:
            for i in b['instrs']:
                if 'n' in i and 't' in i:
                    r[i['n']] = i['t']
        f['_vtypes'] = r
    return r


def candidates(mode, ctx):
    P, ex = mode.P, ctx.ex
    types = dict(types_of(ctx.fr.f), **ctx.ptypes)
    env0 = ctx.entry_env
    phis = [n for n, _ in ctx.phis]
    isphi = set(phis)
    out = []

    errs = [n for n in phis if types.get(n) == 'error' and isinstance(env0[n], Term) and env0[n].sort == 'Int']

    def C(name, fn):
        out.append(Cand(name, fn, ALLP))

    def basic(n):
        t = types.get(n)
        if t is None or t not in P.types:
            return None
        return P.under(t)[1].get('name')

    def run(t):
        """type name of slice elements"""
        return P.under(t)[1].get('name')
    # ---------------------------------------------------- what is there
    ints = []
    for n in phis:
        if isinstance(env0[n], Term) and env0[n].sort == 'Int' and basic(n) in ('int', 'uint', 'int64'):
            for c in (0, 1, 2):
                ints.append(('%s+%d' % (n, c), lambda st, env, n=n, c=c: add(env[n], I(c))))
    for c0 in sorted(ctx.mod_mem):
        if isinstance(ctx.hst.mem.get(c0), IterC):
            ints.append(('pos(%d)' % c0, lambda st, env, c0=c0: st.mem[c0].pos))
            ints.append(('count(%d)' % c0, lambda st, env, c0=c0: st.mem[c0].k))
    for n in phis:
        v = env0[n]
        if isinstance(v, SL) and isinstance(ctx.henv[n], SL) and ctx.henv[n].cell == v.cell:
            ints.append(('start(%s)' % n, lambda st, env, n=n, v=v: sub(env[n].off, v.off)))
            ints.append(('end(%s)' % n, lambda st, env, n=n, v=v: sub(add(env[n].off, env[n].len), v.off)))
            C('%s ends where it ended' % n, lambda c, st, env, n=n, v=v: eq(add(env[n].off, env[n].len), add(v.off, v.len)))
            C('%s begins where it began' % n, lambda c, st, env, n=n, v=v: eq(env[n].off, v.off))
    # counters of this and the enclosing loops
    idx = []
    allphi = {i['n'] for b in ctx.fr.f['blocks'] for i in b['instrs'] if i['op'] == 'phi'} | isphi
    for n, v in env0.items():
        if n in allphi and isinstance(v, Term) and v.sort == 'Int' and basic(n) == 'int':
            for c in (0, 1):
                idx.append(('%s+%d' % (n, c), lambda st, env, n=n, c=c: add(env[n], I(c))))
    srcs, seen = [], set()
    for n, v in env0.items():
        if isinstance(v, SL) and n not in isphi and n[0] != '*' and isinstance(v.et, str) and v.cell in ctx.entry.mem and v.cell not in ctx.mod_mem:
            m = ctx.entry.mem[v.cell]
            if isinstance(m, ArrC) and len(m.leaves) >= 1:
                k = (v.cell, v.off.id, v.len.id)
                if k not in seen:
                    seen.add(k)
                    srcs.append((n, v, m))
    for c0 in sorted(ctx.mod_mem):
        it = ctx.hst.mem.get(c0)
        if isinstance(it, IterC):
            v = SL(FALSE, None, ZERO, F('nrunes', it.s), F('nrunes', it.s), 'rune')
            C('count(%d) within the text' % c0, lambda c, st, env, c0=c0: Or(lt(F('nrunes', st.mem[c0].s), ZERO), And(le(ZERO, st.mem[c0].k), le(st.mem[c0].k, F('nrunes', st.mem[c0].s)))))
            srcs.append(('characters of %s' % show(it.s, 3), v, ArrC('rune', [F('runearr', it.s)])))
    scal = [(n, v, m) for n, v, m in srcs if len(m.leaves) == 1]
    strs = []
    for n, v in env0.items():
        if isinstance(v, Term) and v.sort == 'Str' and n not in isphi and v not in strs and v.op != 'str':
            strs.append(v)
    ents = []
    for n in phis:
        for K, m, _ in mode.entities(env0[n]):
            ents.append((n, K))

    def cur(env, n, K):
        for k, m, _ in mode.entities(env[n]):
            if k == K:
                return m
        return None
    dsts = []          # (name, getter -> (leaf arrays, offset, length, element type))
    for n in phis:
        v = env0[n]
        if isinstance(v, SL):
            def get(st, env, n=n):
                v = env[n]
                leaves, off = ex_to_arr(ex, st, v)
                return leaves, off, v.len
            dsts.append((n, get, v.et, True))
    for c0 in sorted(ctx.mod_mem):
        v = ctx.hst.mem.get(c0)
        if isinstance(v, ArrC):
            sl = [x for x in env0.values() if isinstance(x, SL) and x.cell == c0]
            if sl:
                def get(st, env, c0=c0, l=sl[0]):
                    return st.mem[c0].leaves, l.off, l.len
                dsts.append(('mem(%d)' % c0, get, sl[0].et, False))
    rng = []
    # ---------------------------------------------------- tries
    for n, K in ents:
        if K in LS:
            cur0 = cur(env0, n, K)
            s0 = Sg(ctx.entry.sig)
            for a, v, m in scal:
                arr = m.leaves[0]
                if arr.sort == ARR[K] and (K != 'W' or run(v.et) in ('int32', 'rune')):
                    for i, g in ints:
                        C('%s stands for the first %s of %s' % (n, i, a), lambda c, st, env, n=n, K=K, g=g, v=v, arr=arr: eq(Sg(st.sig).val(K, cur(env, n, K)), pref(K, arr, add(v.off, g(st, env)))))
            for d, get, et, app in dsts:
                def back(c, st, env, n=n, K=K, get=get, all_=False, cur0=cur0, v0=s0.val(K, cur0)):
                    leaves, off, ln = get(st, env)
                    if len(leaves) != 1 or leaves[0].sort != ARR[K] or off is not ZERO:
                        return None
                    x = Sg(st.sig).val(K, cur(env, n, K))
                    return eq(rev(K, x if all_ else linit(x), leaves[0], ln), v0)
                C('%s continues %s backwards' % (d, n), back)
                C('%s continues the rest of %s backwards' % (d, n), lambda c, st, env, back=back: back(c, st, env, all_=True))
            if 'alive' in ctx.mod_sig:
                a0 = ctx.entry.sig
                C('nothing is created while %s was stored before' % n, lambda c, st, env, n=n, K=K, a0=a0: Imp(sel(a0['is' + K], cur(env, n, K)), eq(st.sig['alive'], a0['alive'])))
                e0 = mode.entry_sig
                C('nothing has been created while %s was stored at the beginning' % n, lambda c, st, env, n=n, K=K, e0=e0: Imp(sel(e0['is' + K], cur(env, n, K)), eq(st.sig['alive'], e0['alive'])))
        for fam in FAMILY.get(K, ()):
            x0 = sel(ctx.entry.sig[fam], cur(env0, n, K))
            C('%s stays in its %s' % (n, fam), lambda c, st, env, n=n, K=K, fam=fam, x0=x0: eq(sel(st.sig[fam], cur(env, n, K)), x0))
    # ---------------------------------------------------- what the current entity is connected to
    for n, K in ents:
        def part(st, env, k, n=n, K=K):
            m = cur(env, n, K)
            return None if m is None else parts_of(Sg(st.sig), K, m, MID[K])[k]
        for k in range(len(KINDS[K][2])):
            for b in phis:
                if not isinstance(env0[b], Term):
                    continue
                if env0[b].sort == 'Bool':
                    for out_ in (True, False):
                        for yes in (True, False):
                            for one in (True, False):
                                def conn(c, st, env, b=b, k=k, out_=out_, yes=yes, one=one, part=part):
                                    s, x = Sg(st.sig), part(st, env, k)
                                    if x is None:
                                        return None
                                    f = ne(s.en(x) if out_ else s.inn(x), ZERO)
                                    return Imp(env[b] if one else Not(env[b]), f if yes else Not(f))
                                C('%s has %s%s connections at part %d if %s%s' % (n, '' if yes else 'no ', 'outgoing' if out_ else 'incoming', k, '' if one else 'not ', b), conn)
                elif env0[b].sort == 'Int' and basic(b) == 'uint':
                    C('%s is part %d of %s' % (b, k, n), lambda c, st, env, b=b, k=k, part=part: eq(env[b], part(st, env, k)))
                    C('%s is what part %d of %s leads to' % (b, k, n), lambda c, st, env, b=b, k=k, part=part: Imp(ne(Sg(st.sig).en(part(st, env, k)), ZERO), eq(env[b], Sg(st.sig).ea(part(st, env, k)))))
    for n in phis:
        if types.get(n) == 'error' and isinstance(env0[n], Term) and env0[n].sort == 'Int':
            C('%s is nil' % n, lambda c, st, env, n=n: eq(env[n], ZERO))
            C('%s is an error' % n, lambda c, st, env, n=n: ne(env[n], ZERO))
            C('%s is a failure or refusal' % n, lambda c, st, env, n=n: Or(eq(env[n], ZERO), st.sig['failed'], mode.refusal))
            C('%s is a refusal' % n, lambda c, st, env, n=n: Or(eq(env[n], ZERO), mode.refusal))
            if 'failed' in ctx.mod_sig:
                C('a failure is in %s' % n, lambda c, st, env, n=n: Or(Not(st.sig['failed']), ne(env[n], ZERO)))
                C('%s is a failure' % n, lambda c, st, env, n=n: Or(st.sig['failed'], eq(env[n], ZERO)))
    # ---------------------------------------------------- printed text
    for n, K in ents:
        if K != 'R':
            continue
        t0 = F('stext', cur(env0, n, K))
        bufs = []
        for c0 in sorted(ctx.mod_mem):
            if isinstance(ctx.hst.mem.get(c0), BufC):
                bufs.append(('buffer(%d)' % c0, lambda st, env, c0=c0: st.mem[c0].s))
        for p in phis:
            if isinstance(env0[p], Term) and env0[p].sort == 'Str':
                bufs.append((p, lambda st, env, p=p: env[p]))
        for p in phis:
            if isinstance(env0[p], SL) and basic_of(P, env0[p].et) == 'string':
                def parts(st, env, p=p):
                    leaves, off = ex_to_arr(ex, st, env[p])
                    if off is not ZERO:
                        raise Unsupported('part of an array')
                    return F('cat', pref('P', leaves[0], env[p].len))
                bufs.append((p, parts))
        for b, g in bufs:
            b0 = g(ctx.entry, env0)
            for p in phis:
                if isinstance(env0[p], Term) and env0[p].sort == 'Bool':
                    def cond(c, st, env, p=p, g=g, n=n, K=K, t0=t0, b0=b0):
                        rest = engine.sconcat(g(st, env), F('stext', cur(env, n, K)))
                        all_ = engine.sconcat(b0, t0)
                        return And(Imp(env[p], eq(rest, all_)), Imp(Not(env[p]), eq(g(st, env), all_)))
                    C('%s and what follows if %s is the text' % (b, p), cond)
            C('%s and what follows is the text' % b, lambda c, st, env, n=n, K=K, g=g, t0=t0: eq(engine.sconcat(g(st, env), F('stext', cur(env, n, K))), t0))
    # ---------------------------------------------------- numbers
    for n in phis:
        if isinstance(env0[n], Term) and env0[n].sort == 'Int' and basic(n) in ('int', 'uint', 'int32', 'rune', 'int64', 'uint32', 'uint64'):
            for a, v, m in scal:
                if m.leaves[0].sort == ARR['C'] and v.off is ZERO:
                    for i, g in ints:
                        if not i.startswith(n + '+'):
                            C('%s is the value of the first %s of %s' % (n, i, a), lambda c, st, env, n=n, g=g, arr=m.leaves[0]: eq(env[n], F('num', pref('C', arr, g(st, env)))))
                        # read from the end
                        if not i.startswith(n + '+'):
                            C('%s is the value of the last elements of %s down to %s' % (n, a, i), lambda c, st, env, n=n, g=g, arr=m.leaves[0], v=v: eq(env[n], F('num', end('C', arr, v.len, sub(v.len, g(st, env))))))
                            C('%s is the value of the last %s elements of %s' % (n, i, a), lambda c, st, env, n=n, g=g, arr=m.leaves[0], v=v: eq(env[n], F('num', end('C', arr, v.len, g(st, env)))))
        # binary digits, the last one first
        if isinstance(env0[n], Term) and env0[n].sort == 'Int' and basic(n) in ('int', 'uint', 'int32', 'rune', 'int64', 'uint32', 'uint64'):
            C('%s is not negative' % n, lambda c, st, env, n=n: le(ZERO, env[n]))
            for d, get, et, app in dsts:
                if app and len(leaves_of(ex, ctx, get)) == 1 and leaves_of(ex, ctx, get)[0].sort == ARR['C']:
                    def digits(c, st, env, n=n, get=get, n0=env0[n]):
                        leaves, off, ln = get(st, env)
                        if off is not ZERO:
                            return None
                        left = ite(And(eq(env[n], ZERO), gt(ln, ZERO)), nil('BL'), F('bits', env[n]))
                        return eq(rev('C', left, leaves[0], ln), F('bits', n0))
                    C('%s continues the digits of %s backwards' % (d, n), digits)

                    def before(c, st, env, n=n, get=get, n0=env0[n]):
                        leaves, off, ln = get(st, env)
                        return eq(rev('C', F('bits', env[n]), leaves[0], ln), F('bits', n0)) if off is ZERO else None
                    C('%s continues the remaining digits of %s backwards' % (d, n), before)
    # ---------------------------------------------------- counters
    cs = [n for n in phis if isinstance(env0[n], Term) and env0[n].sort == 'Int' and basic(n) == 'int']
    for k, n in enumerate(cs):
        for m in cs[k + 1:]:
            C('%s and %s have a fixed sum' % (n, m), lambda c, st, env, n=n, m=m: eq(add(env[n], env[m]), add(env0[n], env0[m])))
    # ---------------------------------------------------- joined words
    texts = [('buffer(%d)' % c0, lambda st, env, c0=c0: st.mem[c0].s) for c0 in sorted(ctx.mod_mem) if isinstance(ctx.hst.mem.get(c0), BufC)]
    texts += [(p, lambda st, env, p=p: env[p]) for p in phis if isinstance(env0[p], Term) and env0[p].sort == 'Str']
    for b, t in texts:
        for a, v, m in scal:
            if m.leaves[0].sort == ARR['P'] and v.off is ZERO:
                for i, g in ints:
                    C('%s is the text of the first %s of %s' % (b, i, a), lambda c, st, env, t=t, g=g, arr=m.leaves[0]: eq(t(st, env), F('pjoin', pref('P', arr, g(st, env)))))
                    C('%s is the text of the last elements of %s down to %s' % (b, a, i), lambda c, st, env, t=t, g=g, arr=m.leaves[0], v=v: eq(t(st, env), F('pjoin', end('P', arr, v.len, sub(v.len, g(st, env))))))
        for n, K in ents:
            if K == 'P':
                l0 = Sg(ctx.entry.sig).val(K, cur(env0, n, K))

                def prepended(c, st, env, t=t, n=n, K=K, l0=l0):
                    l = linit(Sg(st.sig).val(K, cur(env, n, K)))
                    return eq(ite(eq(l, nil('PL')), t(st, env), engine.sconcat(F('pjoin', l), engine.sconcat(S(b' '), t(st, env)))), F('pjoin', l0))
                C('%s after the words before %s is the text' % (b, n), prepended)
    # ---------------------------------------------------- element-wise
    u = V('u', 'Int')
    for d, get, et, app in dsts:
        for s, v, m in srcs:
            if len(m.leaves) > 1:
                continue
            src = m.leaves[0]
            n_ = v.len
            for i, g in ints + ([('len', None)] if app else []):
                def mapped(c, st, env, get=get, g=g, src=src, v=v, how='copy', mode_=None):
                    leaves, off, ln = get(st, env)
                    p = g(st, env) if g else ln
                    r = []
                    for k, l in enumerate(leaves):
                        if l.sort != src.sort:
                            r.append(None)
                            continue
                        x = sel(l, add(off, u))
                        if how == 'copy':
                            f = Forall([u], Imp(And(le(ZERO, u), lt(u, p)), eq(x, sel(src, add(v.off, u)))), [[x]] + ([[sel(src, add(v.off, u))]] if v.off is ZERO else []))
                        elif how == 'rev-down':
                            f = Forall([u], Imp(And(le(sub(v.len, p), u), lt(u, v.len)), eq(x, sel(src, sub(add(v.off, sub(v.len, ONE)), u)))), [[x]])
                        elif how == 'rev-above':
                            f = Forall([u], Imp(And(lt(p, u), lt(u, v.len)), eq(x, sel(src, sub(add(v.off, sub(v.len, ONE)), u)))), [[x]])
                        else:
                            f = Forall([u], Imp(And(le(ZERO, u), lt(u, p)), eq(x, sel(src, sub(add(v.off, sub(v.len, ONE)), u)))), [[x]])
                        r.append(f)
                    return r
                nl = len(ctx.hst.mem[v.cell].leaves) if False else None
                try:
                    leaves = get(ctx.hst, ctx.henv)[0]
                except Unsupported:
                    continue
                for k, l in enumerate(leaves):
                    if l.sort != src.sort:
                        continue
                    for how in ('copy', 'rev-up') + (('rev-down', 'rev-above') if not app else ()):
                        if len(leaves) > 1 and how != 'copy':
                            continue
                        C('%s.%d is %s of %s up to %s' % (d, k, how, s, i), lambda c, st, env, k=k, how=how, mapped=mapped: mapped(c, st, env, how=how)[k])
        # entities with what they lead to
        if app and isinstance(et, str) and et in P.types and P.under(et)[1]['kind'] == 'struct' and not et.endswith('.Entity'):
            m = ArrC(et, leaves_of(ex, ctx, get))
            for Kx in ALLK:
                k = mid_leaf(ex, et, Kx, m) if m.leaves else None
                for k2, l in enumerate(m.leaves):
                    if k is not None and k2 != k and l.sort == ROW:
                        for p in range(len(KINDS[Kx][2])):
                            def leads(c, st, env, get=get, Kx=Kx, k=k, k2=k2, p=p):
                                leaves, off, ln = get(st, env)
                                sg = Sg(st.sig)
                                x = sel(leaves[k2], add(off, u))
                                return Forall([u], Imp(And(le(ZERO, u), lt(u, ln)), eq(x, sg.ea(parts_of(sg, Kx, sel(leaves[k], add(off, u)), MID[Kx])[p]))), [[x]])
                            C('%s.%d is what part %d of %s leads to' % (d, k2, p, Kx), leads)
        # exchanged in place
        if not app:
            for k, l in enumerate(leaves_of(ex, ctx, get)):
                l0 = get(ctx.entry, env0)[0][k]
                for i, g in ints:
                    def swapped(c, st, env, get=get, g=g, k=k, l0=l0):
                        leaves, off, ln = get(st, env)
                        if off is not ZERO:
                            return None
                        p = g(st, env)
                        x = sel(leaves[k], u)
                        return Forall([u], Imp(And(le(ZERO, u), lt(u, ln)), eq(x, ite(Or(lt(u, p), ge(u, sub(ln, p))), sel(l0, sub(sub(ln, ONE), u)), sel(l0, u)))), [[x]])
                    C('%s.%d is exchanged up to %s' % (d, k, i), swapped)
        # digits
        if len(leaves_of(ex, ctx, get)) == 1 and leaves_of(ex, ctx, get)[0].sort == ARR['C']:
            for t in strs:
                for i, g in ints:
                    def digits(c, st, env, get=get, g=g, t=t):
                        leaves, off, ln = get(st, env)
                        x, b = sel(leaves[0], add(off, u)), F('sbyte', t, u)
                        return Forall([u], Imp(And(le(ZERO, u), lt(u, g(st, env))), eq(x, eq(b, I(49)))), [[x], [b]])
                    C('%s holds the digits up to %s' % (d, i), digits)
                    def isdigit(c, st, env, g=g, t=t):
                        b = F('sbyte', t, u)
                        return Forall([u], Imp(And(le(ZERO, u), lt(u, g(st, env))), Or(eq(b, I(48)), eq(b, I(49)))), [[b]])
                    C('digits up to %s' % i, isdigit)
    # ---------------------------------------------------- maps
    for c0 in sorted(ctx.mod_mem):
        mm = ctx.hst.mem.get(c0)
        if not isinstance(mm, engine.MapC):
            continue
        key = V('key', sort_range_dom(mm.dom.sort))
        for k, l in enumerate(mm.leaves):
            if l.sort == asort(key.sort, 'Bool'):
                C('map(%d).%d is true for the keys it has' % (c0, k), lambda c, st, env, c0=c0, k=k: Forall([key], Imp(sel(st.mem[c0].dom, key), sel(st.mem[c0].leaves[k], key)), [[sel(st.mem[c0].dom, key)]]))
        for s, v, m in scal:
            src = m.leaves[0]
            if src.sort != asort('Int', key.sort):
                continue
            for i, g in ints:
                C('map(%d) has the first %s of %s' % (c0, i, s), lambda c, st, env, c0=c0, g=g, src=src, v=v: Forall([u], Imp(And(le(ZERO, u), lt(u, g(st, env))), sel(st.mem[c0].dom, sel(src, add(v.off, u)))), [[sel(src, add(v.off, u))]]))
                C('map(%d) was updated %s times' % (c0, i), lambda c, st, env, c0=c0, g=g: eq(st.mem[c0].n, g(st, env)))
            def only(c, st, env, c0=c0, src=src, v=v):
                w = st.mem[c0]
                x = sel(w.pos, key)
                return Forall([key], Imp(sel(w.dom, key), And(le(ZERO, x), lt(x, w.n), eq(sel(src, add(v.off, x)), key))), [[sel(w.dom, key)], [x]])
            C('map(%d) has only elements of %s' % (c0, s), only)
    # ---------------------------------------------------- searching
    vals = {'C': [], 'W': [], 'P': []}
    for n, v in env0.items():
        if isinstance(v, Term) and n not in isphi and v.op != 'int' and v.op != 'str':
            K = {'Bool': 'C', 'Str': 'P', 'Int': 'W'}[v.sort] if v.sort in ('Bool', 'Str', 'Int') else None
            if K == 'W' and basic(n) not in ('int32', 'rune'):
                continue
            if K and v not in vals[K]:
                vals[K].append(v)
    own = {'character': 'C', 'word': 'W', 'phrase': 'P'}.get(ctx.fn.lstrip('(*').split('.')[0])
    for s, v, m in srcs:
        which = []
        for Kx in 'CWP':
            if v.et in P.types and len(m.leaves) > 1:
                k = mid_leaf(ex, v.et, Kx, m)
                if k is not None:
                    which.append((Kx, m.leaves[k]))
        if len(m.leaves) == 1 and m.leaves[0].sort == ROW and run(v.et) == 'uint' and own:
            which.append((own, m.leaves[0]))
        for Kx, leaf in which:
            for X in vals[Kx]:
                for i, g in ints:
                    def absent(c, st, env, Kx=Kx, leaf=leaf, X=X, g=g, v=v):
                        x = sel(leaf, add(v.off, u))
                        return Forall([u], Imp(And(le(ZERO, u), lt(u, g(st, env))), ne(llast(Sg(st.sig).val(Kx, x)), X)), [[x]])
                    C('%s is not among the first %s of %s' % (show(X, 3), i, s), absent)
                    def absent_after(c, st, env, Kx=Kx, leaf=leaf, X=X, g=g, v=v):
                        x = sel(leaf, add(v.off, u))
                        return Forall([u], Imp(And(lt(g(st, env), u), lt(u, v.len)), ne(llast(Sg(st.sig).val(Kx, x)), X)), [[x]])
                    C('%s is not among those after %s of %s' % (show(X, 3), i, s), absent_after)
                for n, K in ents:
                    if K == Kx:
                        C('%s stands for a value that ends with %s' % (n, show(X, 3)), lambda c, st, env, n=n, K=K, X=X: eq(llast(Sg(st.sig).val(K, cur(env, n, K))), X))
            for n, K in ents:
                if K == Kx:
                    for i, g in ints:
                        def found(c, st, env, n=n, K=K, leaf=leaf, v=v, g=g):
                            p = sub(g(st, env), ONE)
                            return And(le(ZERO, p), lt(p, v.len), eq(cur(env, n, K), sel(leaf, add(v.off, p))))
                        C('%s stands for element %s-1 of %s' % (n, i, s), found)
    # ---------------------------------------------------- lists of what leads to a value, the last one first
    def mids(et, m):
        return [(Kx, k) for Kx in 'CWP' for k in [mid_leaf(ex, et, Kx, m) if et in P.types and len(m.leaves) > 1 else None] if k is not None]
    for d, get, et, app in dsts:
        for Kx, k in mids(et, ArrC(et, leaves_of(ex, ctx, get))) if app and isinstance(et, str) else []:
            try:
                l0, o0, n0 = get(ctx.entry, env0)
            except Unsupported:
                continue
            v0 = Sg(ctx.entry.sig).val(Kx, sel(l0[k], o0))

            def linked(c, st, env, get=get, Kx=Kx, k=k):
                leaves, off, ln = get(st, env)
                if off is not ZERO:
                    return None
                val = lambda x: Sg(st.sig).val(Kx, x)
                a, b = sel(leaves[k], u), sel(leaves[k], sub(u, ONE))
                return Forall([u], Imp(And(lt(ZERO, u), lt(u, ln)), eq(val(a), linit(val(b)))), [[a]])
            C('%s leads backwards through values' % d, linked)
            C('%s begins with what it began with' % d, lambda c, st, env, get=get, Kx=Kx, k=k, v0=v0: eq(Sg(st.sig).val(Kx, sel(get(st, env)[0][k], get(st, env)[1])), v0))
            for n, K in ents:
                if K == Kx:
                    C('%s begins with what %s began with' % (d, n), lambda c, st, env, get=get, Kx=Kx, k=k, v0=Sg(ctx.entry.sig).val(K, cur(env0, n, K)): Imp(gt(get(st, env)[2], ZERO), eq(Sg(st.sig).val(Kx, sel(get(st, env)[0][k], get(st, env)[1])), v0)))
                    C('%s ends with %s' % (d, n), lambda c, st, env, get=get, Kx=Kx, k=k, n=n: eq(sel(get(st, env)[0][k], add(get(st, env)[1], sub(get(st, env)[2], ONE))), cur(env, n, Kx)))

                    def before(c, st, env, get=get, Kx=Kx, k=k, n=n):
                        leaves, off, ln = get(st, env)
                        return Imp(gt(ln, ZERO), eq(Sg(st.sig).val(Kx, cur(env, n, Kx)), linit(Sg(st.sig).val(Kx, sel(leaves[k], add(off, sub(ln, ONE)))))))
                    C('%s ends before %s' % (d, n), before)
    for s, v, m in srcs:
        for Kx, k in mids(v.et, m):
            leaf = m.leaves[k]
            at = lambda st, i, Kx=Kx, leaf=leaf, v=v: Sg(st.sig).val(Kx, sel(leaf, add(v.off, i)))
            none = nil({'C': 'BL', 'W': 'RL', 'P': 'PL'}[Kx])
            for d, get, et, app in dsts:
                if not app:
                    continue
                for i, g in ints + [('len', lambda st, env, get=get: get(st, env)[2])]:
                    def gathered(c, st, env, get=get, Kx=Kx, g=g, at=at, v=v, none=none):
                        leaves, off, ln = get(st, env)
                        if len(leaves) != 1 or leaves[0].sort != ARR[Kx] or off is not ZERO:
                            return None
                        p = g(st, env)
                        return eq(rev(Kx, ite(lt(p, v.len), at(st, p), none), leaves[0], ln), at(st, ZERO))
                    C('%s is what %s up to %s leads to' % (d, s, i), gathered)

                    def forward(c, st, env, get=get, Kx=Kx, g=g, at=at, v=v, none=none):
                        leaves, off, ln = get(st, env)
                        if len(leaves) != 1 or leaves[0].sort != ARR[Kx] or off is not ZERO:
                            return None
                        p = g(st, env)
                        return eq(pref(Kx, leaves[0], ln), ite(And(le(ZERO, p), lt(p, v.len)), at(st, p), none))
                    C('%s is the value of %s at %s' % (d, s, i), forward)
    # ---------------------------------------------------- details: common elements of two rows
    rows = {'Ea': [], 'Ia': []}
    for s, v, m in scal:
        l = m.leaves[0]
        if l.op == 'select' and l.args[0].sort == AIR and v.off is ZERO:
            for c in rows:
                if l.args[0] is ctx.entry.sig[c]:
                    rows[c].append(l.args[1])
    for o in rows['Ea']:
        for p in rows['Ia']:
            lens = [(i, g) for i, g in idx]
            pairs = [(a, None) for a in lens] + [(a, b) for a in lens for b in lens if a[0].split('+')[0] != b[0].split('+')[0]]
            # a list of common elements, or their number and the last one
            found = []
            for d, get, et, app in dsts:
                if app:
                    def byList(st, env, get=get):
                        leaves, off, ln = get(st, env)
                        return ln, sel(leaves[0], off)
                    found.append((d, byList))
            near = phis + [n for n in env0 if n in allphi and n not in isphi]
            cnt = [n for n in near if isinstance(env0[n], Term) and env0[n].sort == 'Int' and types.get(n) == 'int']
            one = [n for n in near if isinstance(env0[n], Term) and env0[n].sort == 'Int' and types.get(n) == 'uint']
            flag = [n for n in near if isinstance(env0[n], Term) and env0[n].sort == 'Bool']
            for y in one:
                for x in cnt:
                    found.append(('%s, %s' % (x, y), lambda st, env, x=x, y=y: (env[x], env[y])))
                for x in flag:
                    found.append(('%s, %s' % (x, y), lambda st, env, x=x, y=y: (ite(env[x], ONE, ZERO), env[y])))
            for d, get in found:
                for a, b in pairs:
                    for sw in (False, True):
                        def common(c, st, env, a=a, b=b, sw=sw, o=o, p=p, get=get):
                            sg = Sg(st.sig)
                            ln, first = get(st, env)
                            x = sel(sel(st.sig['ofD'], o), p)
                            i, j = (sg.g('dJ', x), sg.g('dI', x)) if sw else (sg.g('dI', x), sg.g('dJ', x))
                            A = a[1](st, env)
                            where = lt(i, A) if b is None else Or(lt(i, A), And(eq(i, A), lt(j, b[1](st, env))))
                            hit = And(sg.is_('D', x), eq(sg.g('dO', x), o), eq(sg.g('dP', x), p), where)
                            return Hint('common', And(eq(ln, ite(hit, ONE, ZERO)), Imp(eq(ln, ONE), eq(first, x))), [x, o, p], ALLP)
                        C('%s holds the common detail up to %s%s%s' % (d, a[0], '' if b is None else ', ' + b[0], ' swapped' if sw else ''), common)
    return out


def basic_of(P, t):
    return P.under(t)[1].get('name') if isinstance(t, str) and t in P.types else None


def sort_range_dom(s):
    """sort of the indexes of an array sort whose index sort is not an array"""
    return s[len('(Array '):].split(' ')[0]


def leaves_of(ex, ctx, get):
    try:
        return get(ctx.hst, ctx.henv)[0]
    except Unsupported:
        return []


def mid_leaf(ex, et, K, m):
    """number of the leaf that holds the identifying part of entities of kind K in a slice of et"""
    try:
        v = ex.unflatten(et, iter([C('leaf%d' % k, sort_range(a.sort)) for k, a in enumerate(m.leaves)]))
    except Unsupported:
        return None
    for k, x, _ in ex.mode.entities(v):
        if k == K and x.op == 'const' and x.data.startswith('leaf'):
            return int(x.data[4:])
    return None
