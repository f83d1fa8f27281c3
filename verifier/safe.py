"""SAFE mode: contracts that hold whatever the storage contains.

Decides C04 (every storage failure is reported), C05 (no call panics) and C14 (looking
never changes the storage).  The storage is arbitrary: every operation may fail and every
successful one may return anything (C14 alone assumes that the two classes-and-bits facts
the look functions ask the storage about hold: node 1 exists and has two sources).
"""
from modes import *
import objinv

WRITES = ('Create', 'SetReference', 'Connect', 'Disconnect', 'Delete')
ROOTS_CREATE = ['(*semnet.Graph).CreateStory', '(remark.Aggregate).AddRemarkToFact', '(remark.Aggregate).AddFactToStory', '(remark.Aggregate).CreateChildStory']
ROOTS_LOOK = ['(*semnet.Graph).GetRemark', '(*semnet.Output).GetStory'] + ['(remark.Aggregate).' + m for m in (
    'GetIdentifier', 'HasNextRemark', 'GetNextRemark', 'HasNextFact', 'GetNextFact', 'GetFirstFact', 'HasNextStory', 'GetNextStory', 'GetObjectAndProperty')]
ROOTS_NEW = ['semnet.NewGraph', 'semnet.NewOutput']
CLASSES = ['bit', 'character', 'word', 'phrase', 'detail', 'remark', 'fact', 'story']


class Safe(Mode):
    def __init__(self, prog, look):
        super().__init__(prog)
        self.look = look
        self.todo = []
        self.seen = set()

    def start(self, ex, f, name):
        st = St()
        st.sig['failed'] = FALSE
        st.sig['wrote'] = FALSE
        args = []
        for p in f['params']:
            if p['t'] in ('abstract.Storage',):
                args.append(IV(FALSE, 'SIGMA', 'SIGMA'))
            else:
                args.append(ex.fresh_value(st, p['t'], 'arg.' + p['n'], True))
        return st, args

    # class nodes carry the identifier of their class
    def value_inv(self, ex, st, v, t):
        if t == 'class.Entity':
            return TRUE if not self.look else And(*self.class_ids(v))
        return TRUE

    def class_ids(self, v):
        r = []
        for k, (f, x) in enumerate(zip(self.P.fields('class.Entity'), v.f)):
            nm = class_of(f)
            if nm in CLASSES and isinstance(x, SV):
                for g, y in zip(self.P.fields(x.t), x.f):
                    if g['name'] == 'identifier':
                        r.append(eq(y, I(CLASSES.index(nm) + 1)))
        return r

    def object_inv(self, ex, st, t, mut):
        return And(*[g for _, g in objinv.terms(self.P, ex, st, t, mut, lambda v, tt: ex.wired(st, v, tt), objinv.chosen(self.P))])

    def storage_op(self, ex, st, op, args):
        f = st.copy()
        f.sig['failed'] = TRUE
        e = fresh_err('storage.' + op)
        s = st
        rt = {'Has': ['bool'], 'Create': ['uint'], 'ReadSources': ['[]uint'], 'ReadTargets': ['[]uint'], 'SetReference': [],
              'GetReference': ['uint', 'uint'], 'Connect': [], 'Disconnect': [], 'Delete': []}[op]
        if op in WRITES:
            if self.look:
                ex.oblige(st, 'no-write', FALSE, ['C14'], 'looking never modifies the storage: ' + op)
            s.sig['wrote'] = TRUE
            f.sig['wrote'] = TRUE

        def results(stt, good):
            out = []
            for t in rt:
                if t == '[]uint':
                    v = ex.fresh_slice(stt, 'uint', op)
                    if self.look and good and op == 'ReadSources' and args[0].op == 'int' and args[0].data == 1:
                        v = SL(v.nil, v.cell, v.off, I(2), I(2), v.et)
                    elif self.look and good and op == 'ReadSources':
                        stt.add(Imp(eq(args[0], ONE), eq(v.len, I(2))))
                    out.append(v)
                elif t == 'bool':
                    if self.look and good and op == 'Has':
                        if args[0] is ONE:
                            out.append(TRUE)
                            continue
                    out.append(fresh(op, 'Bool'))
                else:
                    out.append(ex.fresh_value(stt, t, op))
            return out
        good = results(s, True) + [ZERO]
        bad = results(f, False) + [e]
        return [(s, good), (f, bad)]

    def is_boundary(self, fname, boundary):
        f = self.P.funcs[fname]
        rs = self.P.T(f['sig'])['results']
        if self.look and fname.startswith('(class.Entity).'):
            return False
        return boundary and bool(rs) and rs[-1] == 'error' and fname in self.reach_storage()

    def reach_storage(self):
        """functions that may (transitively) reach the storage or contain a loop"""
        if hasattr(self, '_rs'):
            return self._rs
        P = self.P
        direct, edges = set(), {}
        for n, f in P.funcs.items():
            edges[n] = set()
            if loops_of(f) if f['blocks'] else False:
                direct.add(n)
            for b in f['blocks']:
                for i in b['instrs']:
                    if i['op'] != 'call':
                        continue
                    if 'invoke' in i:
                        if i['iface'] == 'error':
                            continue
                        if P.is_storage(i['iface']):
                            direct.add(n)
                            continue
                        try:
                            edges[n].add(P.method_fn(P.concrete(i['iface']), i['invoke']))
                        except Unsupported:
                            pass
                    elif i['fn'].get('k') == 'func':
                        edges[n].add(i['fn']['n'])
        r = set(direct)
        ch = True
        while ch:
            ch = False
            for n, e in edges.items():
                if n not in r and e & r:
                    r.add(n)
                    ch = True
        self._rs = r
        return r

    def contract(self, ex, st, fname, args, boundary):
        rec = any(fname == s for s, _ in ex.stack)
        if not self.is_boundary(fname, boundary) and not rec:
            return None
        f = self.P.funcs[fname]
        if fname not in self.seen:
            self.seen.add(fname)
            self.todo.append(fname)
        ex.oblige(st, 'pre', And(*[ex.wired(st, a, p['t']) for a, p in zip(args, f['params'])]), ['C05'], 'arguments of %s have no nil inside' % fname)
        inv = ex.canon_mutable_inv(st)
        ex.oblige(st, 'pre', inv, ['C05'], 'cached state is consistent before ' + fname)
        rs = self.P.T(f['sig'])['results']
        for a in args:
            if isinstance(a, SL) and isinstance(st.mem.get(a.cell), ArrC):
                st.mem[a.cell] = ArrC(a.et, [fresh('havoc', l.sort) for l in st.mem[a.cell].leaves])
        ex.havoc_canon(st, fname)
        if not rs or rs[-1] != 'error':
            g = st
            w = fresh('wrote', 'Bool')
            if not self.look:
                g.sig['wrote'] = Or(g.sig['wrote'], w)
            return [(g, [ex.fresh_value(g, t, 'res', True) for t in rs])]
        bad = st.copy()
        # failure: the storage failed or the call refused; either way an error
        bad.sig['failed'] = Or(bad.sig['failed'], fresh('failed', 'Bool'))
        rb = [ex.fresh_value(bad, t, 'bad', False) for t in rs[:-1]] + [fresh_err('err.' + fname)]
        rg = [ex.fresh_value(st, t, 'res.' + fname.split('.')[-1], True) for t in rs[:-1]] + [ZERO]
        return [(st, rg), (bad, rb)]

    def loop_candidates(self, ctx):
        P = ['C04', 'C05', 'C14']
        out = []
        if 'failed' in ctx.mod_sig:
            out.append(Cand('no storage operation has failed', lambda c, st, env: Not(st.sig['failed']), P))
            for n, t in ctx.phis:
                if t == 'error':
                    out.append(Cand('a failure is in %s' % n, lambda c, st, env, n=n: Or(Not(st.sig['failed']), ne(env[n], ZERO)), P))
        return out + self.wired_cands(ctx, P) + self.affine_cands(ctx, P)

    def convert(self, ex, st, x, f, t):
        r = super().convert(ex, st, x, f, t)
        if isinstance(r, SL) and isinstance(x, Term) and x.sort == 'Str':
            st.add(eq(eq(r.len, ZERO), eq(x, S(b''))))
            st.add(eq(eq(slen(x), ZERO), eq(x, S(b''))))
        return r

    def arith(self, ex, st, v, t):
        if v.op == 'int':
            return v
        n = self.P.under(t)[1].get('name')
        if n in ('int', 'uint', 'untyped int'):
            return v
        r = fresh('wrap', 'Int')
        st.add(ex.rangefact(t, r))
        return r

    # ------------------------------------------------------------ driver
    def verify(self, fname):
        f = self.P.funcs[fname]
        ex = Ex(self.P, self, fname)
        try:
            st, args = self.start(ex, f, fname)
            outs = ex.run(fname, args, st)
            ex.stack = [(fname, f.get('line', 0))]
            rs = self.P.T(f['sig'])['results']
            for k, (s, res) in enumerate(outs):
                err = rs and rs[-1] == 'error'
                if err:
                    e = res[-1]
                    ex.oblige(s, 'post', Or(ne(e, ZERO), Not(s.sig['failed'])), ['C04'], 'a failed storage operation is reported as an error')
                    ok = eq(e, ZERO)
                else:
                    ok = TRUE
                    ex.oblige(s, 'post', Not(s.sig['failed']), ['C04'], 'a failed storage operation is reported as an error')
                w = And(*[ex.wired(s, v, t) for v, t in zip(res, rs) if t != 'error'])
                ex.oblige(s, 'post', Imp(ok, w), ['C05', 'C04'], 'a successful call returns a usable result')
                ex.oblige(s, 'post', ex.canon_mutable_inv(s), ['C05'], 'cached state is consistent on return')
            ex.exits = len(outs)
        except Unsupported as u:
            ex.obls = (ex.obls or [])
            ex.obls.append(Obl(fname, 'unsupported', 'unsupported', ['C04', 'C05', 'C14'], [], FALSE, str(u)))
            ex.exits = 0
        return ex


def run_safe(prog, look, hints=None):
    m = Safe(prog, look)
    m.hints = hints
    roots = (ROOTS_LOOK if look else ROOTS_NEW + ROOTS_CREATE + ROOTS_LOOK)
    m.todo = list(roots)
    m.seen = set(roots)
    exs = []
    while m.todo:
        n = m.todo.pop(0)
        if n not in prog.funcs:
            ex = Ex(prog, m, n)
            ex.obls = [Obl(n, 'missing', 'missing', ['C04', 'C05', 'C14'], [], FALSE, 'function not found')]
            ex.exits = 0
            exs.append(ex)
            continue
        exs.append(m.verify(n))
    return m, exs
