"""Invariants of shared objects that are assigned to after their construction (caches, flags).

Candidates "condition on one field => another field has no nil inside / has this truth value"
are kept by Houdini: those that hold for the objects NewGraph makes and that every function
that assigns to such an object keeps.  What is kept here is only a choice: it is an obligation
of every contract afterwards, in both modes.
"""
from engine import *
import solve


def leaves(P, ex, v, t, path, depth=0):
    """(path, value) of the parts of a value that can carry a condition"""
    if isinstance(v, Term):
        yield path, v, t
    elif isinstance(v, (IV, PV)):
        if not P.is_storage(t):
            yield path, v, t
    elif isinstance(v, SV) and depth < 2:
        for f, x in zip(P.fields(v.t), v.f):
            yield from leaves(P, ex, x, f['type'], path + (f['name'],), depth + 1)


def conditions(P, ex, t, mut):
    types = {f['name']: f['type'] for f in P.fields(t)}
    r = {}
    for n, v in mut.items():
        number = False
        for path, x, tt in leaves(P, ex, v, types[n], (n,)):
            if isinstance(x, (IV, PV)):
                r[path, 'there'] = Not(x.nil)
            elif x.sort == 'Bool':
                r[path, 'set'] = x
                r[path, 'unset'] = Not(x)
            elif x.sort == 'Int' and tt == 'uint' and not number:
                number = True
                r[path, 'nonzero'] = ne(x, ZERO)
    return r


def targets(P, ex, st, t, mut, whole):
    types = {f['name']: f['type'] for f in P.fields(t)}
    r = {}
    for n, v in mut.items():
        if isinstance(v, Term) or isinstance(v, OPQ):
            continue
        r[(n,), 'complete'] = whole(v, types[n])
        for path, x, tt in leaves(P, ex, v, types[n], (n,)):
            if len(path) > 1 and isinstance(x, Term) and x.sort == 'Bool':
                r[path, 'true'] = x
                r[path, 'false'] = Not(x)
    return r


def terms(P, ex, st, t, mut, whole, keys):
    """[(key, formula)]; keys None: all"""
    cs = conditions(P, ex, t, mut)
    ts = targets(P, ex, st, t, mut, whole)
    out = []
    for ck, c in cs.items():
        for tk, g in ts.items():
            k = (t, ck, tk)
            if ck[0] == tk[0]:
                continue
            if keys is None or k in keys:
                out.append((k, Imp(c, g)))
    return out


def chosen(P):
    if not hasattr(P, '_objinv'):
        P._objinv = set()
        try:
            P._objinv = choose(P)
        except Unsupported:
            pass
    return P._objinv


def choose(P):
    import safe

    class Probe(safe.Safe):
        keys = None
        recording = False

        def object_inv(self, ex, st, t, mut):
            r = terms(self.P, ex, st, t, mut, lambda v, tt: ex.wired(st, v, tt), self.keys)
            if self.recording:
                for k, g in r:
                    if g is not TRUE:
                        self.found.append((list(st.pc), k, g))
                    self.all.add(k)
            else:
                self.all |= {k for k, _ in r}
            return And(*[g for _, g in r])

    if not any(t in P.types and P.kind(t) == 'struct' for t, _ in P.mutable):
        return set()
    probe = Probe(P, False)
    own = [n for n, s in P.stores.items() if s]
    if all(probe.is_boundary(n, True) for n in own):
        fns = own
    else:
        fns = [n for n in P.funcs if P.mutates(n) and P.funcs[n]['blocks'] and probe.is_boundary(n, True)]
    fns = [n for n in sorted(fns) + safe.ROOTS_NEW if n in P.funcs]

    class E2(Ex):
        def canon_mutable_inv(self, st):
            self.mode.recording = True
            try:
                return super().canon_mutable_inv(st)
            finally:
                self.mode.recording = False

    real = safe.Ex
    safe.Ex = E2

    def survivors(keys, fixed):
        for _ in range(8):
            probe = Probe(P, False)
            probe.keys, probe.found, probe.all = None if keys is None else keys | fixed, [], set()
            for n in fns:
                probe.recording = n in safe.ROOTS_NEW
                probe.verify(n)
                probe.recording = False
            if keys is None:
                return probe.all
            todo = [x for x in probe.found if x[1] in keys]
            ok = solve.prove_all([(pc, g) for pc, _, g in todo], 5)
            bad = {k for (_, k, _), r in zip(todo, ok) if not r}
            if not bad:
                break
            keys = keys - bad
        return keys
    try:
        assigned = {(t, P.fields(t)[i]['name']) for t, i in P.assigned}
        every = survivors(None, set())
        kept = set()
        # the simplest condition that will do is taken for each target
        for kind in ('set', 'unset', 'there', 'nonzero', None):
            have = {(k[0], k[2][0][0]) for k in kept if k[2][1] == 'complete' and (k[0], k[1][0][0]) in assigned}
            more = {k for k in every if (len(k[1][0]) > 1 if kind is None else len(k[1][0]) == 1 and k[1][1] == kind) and (k[0], k[2][0][0]) not in have}
            if any(k[2][1] == 'complete' for k in more):
                kept |= survivors(more, kept)
    finally:
        safe.Ex = real
    # truth values belong to what is complete under the same condition
    return {k for k in kept if k[2][1] == 'complete' or (k[0], k[1], ((k[2][0][0],), 'complete')) in kept}
