"""Behaviour shared by the two verification modes."""
from terms import *
import terms as T
from engine import *
import solve


def class_of(field):
    """the class a field of class.Entity stands for"""
    n = field['type'].split('.')[-1].lower()
    return n if n in ('bit', 'character', 'word', 'phrase', 'detail', 'remark', 'fact', 'story') else field['name'].replace('Node', '')


class Cand:
    """a candidate loop invariant"""
    __slots__ = ('name', 'fn', 'props')

    def __init__(self, name, fn, props=()):
        self.name, self.fn, self.props = name, fn, tuple(props)

    def at(self, ctx, st, env):
        return self.fn(ctx, st, env)


class Mode:
    max_steps = 400000
    timeout = 10
    wprops = ('C05', 'C14')

    def __init__(self, prog):
        self.P = prog
        self.loop_log = {}

    def value_inv(self, ex, st, v, t):
        return TRUE

    def fresh_struct(self, ex, st, t, name):
        return None

    def object_inv(self, ex, st, t, mut):
        return TRUE

    def holds(self, st, g):
        return g is TRUE or g is not FALSE and solve.prove_all([(st.pc, g)], 3)[0]

    def prune(self, ex, st):
        return st.dead

    def arith(self, ex, st, v, t):
        return v

    def havoc_sig(self, ex, st, k, tag):
        return fresh('%s.%s' % (tag, k), st.sig[k].sort)

    def after_havoc(self, ex, entry, st, mod_sig):
        pass

    def versions(self, st):
        return None

    def on_element(self, st, v):
        pass

    def on_loose(self, st, v):
        pass

    def on_load(self, st, v):
        pass

    def on_len(self, ex, st, x):
        pass

    def on_next(self, ex, st, it, ok, r):
        pass

    def loop_cut(self, ex, st):
        pass

    def loop_head(self, ctx, st, env):
        pass

    def external(self, ex, st, name, args, rts, i):
        return None

    def convert(self, ex, st, x, f, t):
        fk, tk = self.P.under(f)[1], self.P.under(t)[1]
        if fk['kind'] == 'basic' and tk['kind'] == 'basic':
            fn, tn = fk['name'], tk['name']
            if fn in INTK and tn in INTK:
                if fn == tn:
                    return x
                lo, hi = RANGE.get(tn, (None, None))
                fl, fh = RANGE.get(fn, (-2**63, 2**63))
                if lo is not None and fl >= lo and fh <= hi:
                    return x
                if x.op == 'int' and lo <= x.data <= hi:
                    return x
                r = fresh('conv', 'Int')
                st.add(And(le(I(lo), r), le(r, I(hi))))
                st.add(Imp(And(le(I(lo), x), le(x, I(hi))), eq(r, x)))
                return r
        return ex.fresh_value(st, t, 'conv', False)

    # -------------------------------------------------- loops
    def ints(self, ctx, st, env):
        """named integer quantities of a loop iteration"""
        out = []
        for n, t in ctx.phis:
            v = env[n]
            if isinstance(v, Term) and v.sort == 'Int' and t != 'error':
                out.append((n, v))
            elif isinstance(v, SL):
                out.append(('len(%s)' % n, v.len))
        for c in sorted(ctx.mod_mem):
            v = st.mem.get(c)
            if isinstance(v, IterC):
                out.append(('pos(%d)' % c, v.pos))
                out.append(('count(%d)' % c, v.k))
        return out

    def bounds_of(self, ctx):
        """loop-invariant integer terms a loop compares with"""
        out = []
        seen = set()
        mod = set(n for n, _ in ctx.phis)
        env = ctx.entry_env

        def addt(t):
            if isinstance(t, Term) and t.sort == 'Int' and t.id not in seen:
                seen.add(t.id)
                out.append(t)
        bl = ctx.fr.f['blocks']
        defs = set()
        for b in ctx.body:
            for i in bl[b]['instrs']:
                if 'n' in i:
                    defs.add(i['n'])
        for b in sorted(ctx.body):
            for i in bl[b]['instrs']:
                if i['op'] == 'binop' and i['o'] in ('<', '<=', '>', '>=', '==', '!='):
                    for k in ('x', 'y'):
                        v = i[k]
                        if v['k'] == 'v' and v['n'] not in defs and v['n'] in env:
                            addt(env[v['n']])
                        elif v['k'] == 'const' and v.get('int'):
                            addt(I(int(v['v'])))
                if i['op'] in ('indexaddr', 'call', 'slice'):
                    vs = [i.get('x')] if i['op'] != 'call' else i['args']
                    for v in vs:
                        if v and v['k'] == 'v' and v['n'] not in defs and v['n'] in env and isinstance(env[v['n']], SL):
                            addt(env[v['n']].len)
                        elif v and i['op'] == 'call' and i.get('fn', {}).get('k') == 'builtin' and v['k'] == 'v' and v['n'] not in defs and isinstance(env.get(v['n']), Term) and env[v['n']].sort == 'Str':
                            addt(slen(env[v['n']]))
        for n, t in ctx.phis:
            pass
        return out

    def affine_cands(self, ctx, props):
        es = self.ints(ctx, ctx.entry, ctx.entry_env)
        bs = self.bounds_of(ctx)
        out = []

        def get(n):
            def f(st, env):
                for m, v in self.ints(ctx, st, env):
                    if m == n:
                        return v
                return None
            return f
        for n, e in es:
            g = get(n)
            out.append(Cand('%s >= %s' % (n, show(e)), lambda c, st, env, g=g, e=e: ge(g(st, env), e), props))
            out.append(Cand('%s <= %s' % (n, show(e)), lambda c, st, env, g=g, e=e: le(g(st, env), e), props))
            for k in (-1, 0, 1):
                out.append(Cand('%s >= %d' % (n, k), lambda c, st, env, g=g, k=k: ge(g(st, env), I(k)), props))
            for b in bs:
                out.append(Cand('%s <= %s' % (n, show(b)), lambda c, st, env, g=g, b=b: le(g(st, env), b), props))
                out.append(Cand('%s < %s' % (n, show(b)), lambda c, st, env, g=g, b=b: lt(g(st, env), b), props))
        for a in range(len(es)):
            for b in range(a + 1, len(es)):
                (n, e), (m, d) = es[a], es[b]
                g, h = get(n), get(m)
                s0, d0 = add(e, d), sub(e, d)
                out.append(Cand('%s + %s constant' % (n, m), lambda c, st, env, g=g, h=h, s0=s0: eq(add(g(st, env), h(st, env)), s0), props))
                out.append(Cand('%s - %s constant' % (n, m), lambda c, st, env, g=g, h=h, d0=d0: eq(sub(g(st, env), h(st, env)), d0), props))
        for c0 in sorted(ctx.mod_mem):
            v = ctx.entry.mem.get(c0)
            if isinstance(v, IterC):
                out.append(Cand('0 <= pos(%d) <= len' % c0, lambda c, st, env, c0=c0: And(le(ZERO, st.mem[c0].pos), le(st.mem[c0].pos, slen(st.mem[c0].s))), props))
        return out

    def wired_cands(self, ctx, props):
        out = []
        ex = ctx.ex
        for n, t in ctx.phis:
            v = ctx.entry_env[n]
            if isinstance(v, (IV, PV, SV, SL)) and t is not None:
                out.append(Cand('%s has no nil inside' % n, lambda c, st, env, n=n, t=t: ex.wired(st, env[n], t), props))
                if isinstance(v, IV):
                    out.append(Cand('%s has no nil inside unless nil' % n, lambda c, st, env, n=n, t=t: Or(env[n].nil, ex.wired(st, env[n], t)), props))
                for m, t2 in ctx.phis:
                    x = ctx.entry_env[m]
                    if isinstance(x, Term) and t2 == 'error':
                        out.append(Cand('%s has no nil inside unless %s' % (n, m), lambda c, st, env, n=n, t=t, m=m: Imp(eq(env[m], ZERO), ex.wired(st, env[n], t)), props))
                    if isinstance(x, Term) and x.sort == 'Bool':
                        out.append(Cand('%s has no nil inside if %s' % (n, m), lambda c, st, env, n=n, t=t, m=m: Imp(env[m], ex.wired(st, env[n], t)), props))
                        out.append(Cand('%s has no nil inside if not %s' % (n, m), lambda c, st, env, n=n, t=t, m=m: Or(env[m], ex.wired(st, env[n], t)), props))
        for c0 in sorted(ctx.mod_mem):
            v = ctx.hst.mem.get(c0)
            if isinstance(v, IV):
                pass
            if isinstance(v, ArrC):
                sls = [(n, x) for n, x in ctx.entry_env.items() if isinstance(x, SL) and x.cell == c0]
                for n, x in sls[:1]:
                    out.append(Cand('elements of %s have no nil inside' % n, lambda c, st, env, x=x: ex.elems_wired(st, x), props))
                    if ex.sortof(x.et):
                        continue
                    for m, _ in self.ints(ctx, ctx.entry, ctx.entry_env):
                        for k in (0, 1):
                            def part(c, st, env, x=x, m=m, k=k, up=True):
                                p = add(dict(self.ints(ctx, st, env))[m], I(k))
                                return ex.elems_wired(st, x, None, p) if up else ex.elems_wired(st, x, p, None)
                            out.append(Cand('elements of %s below %s+%d have no nil inside' % (n, m, k), part, props))
                            out.append(Cand('elements of %s from %s+%d have no nil inside' % (n, m, k), lambda c, st, env, part=part: part(c, st, env, up=False), props))
        return out

    def choose(self, ctx, cands):
        """Houdini: the largest inductive subset of the candidates"""
        live = []
        for c in cands:
            try:
                t0 = c.at(ctx, ctx.entry, ctx.entry_env)
                th = c.at(ctx, ctx.hst, ctx.henv)
                tb = [c.at(ctx, s, e) for s, e in ctx.backs]
            except (KeyError, AttributeError, Unsupported):
                continue
            if th is None or th is TRUE or t0 is None:
                continue
            live.append((c, t0, th, tb))
        # entry
        hints = self.hints.get(self.loop_key(ctx)) if self.hints else None
        if hints is not None:
            sub = [x for x in live if x[0].name in hints]
            if len(sub) == len(hints) and self.inductive(ctx, sub):
                return [x[0] for x in sub]
        seen, uniq = set(), []
        for x in live:
            if x[2].id not in seen:
                seen.add(x[2].id)
                uniq.append(x)
        live = uniq
        ok = solve.prove_all([(ctx.entry.pc, t0) for (_, t0, _, _) in live], self.timeout)
        live = [x for x, r in zip(live, ok) if r]
        while True:
            hyp = [x[2] for x in live]
            goals, own = [], []
            for k, (c, _, th, tb) in enumerate(live):
                for (s, e), g in zip(ctx.backs, tb):
                    if g is None:
                        g = FALSE
                    goals.append((hyp + s.pc, g))
                    own.append(k)
            r = solve.prove_all(goals, self.timeout)
            bad = set(k for k, v in zip(own, r) if not v)
            if not bad:
                break
            live = [x for k, x in enumerate(live) if k not in bad]
        self.loop_log.setdefault(self.loop_key(ctx), []).append([x[0].name for x in live])
        return [x[0] for x in live]

    hints = None

    def loop_key(self, ctx):
        return '%s#%d' % (ctx.fn, ctx.head)

    def inductive(self, ctx, live):
        hyp = [x[2] for x in live]
        goals = [(ctx.entry.pc, t0) for (_, t0, _, _) in live]
        for (c, _, th, tb) in live:
            for (s, e), g in zip(ctx.backs, tb):
                goals.append((hyp + s.pc, g if g is not None else FALSE))
        return all(solve.prove_all(goals, self.timeout))
