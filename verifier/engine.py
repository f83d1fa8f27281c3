"""Path-wise symbolic execution of the SSA form of /repo, generating proof obligations.

A function body is executed once per acyclic path; loops are cut at their heads with
invariants; calls across interface boundaries use contracts supplied by a Mode; helper
functions without a contract are inlined.
"""
import json
from terms import *
import terms as T

MOD = 'github.com/mem-memov/semnet'


def short(n):
    return n.replace(MOD + '/internal/concrete/', '').replace(MOD + '/internal/', '').replace(MOD, 'semnet')


class Unsupported(Exception):
    pass


class TooEarly(Unsupported):
    pass


# ------------------------------------------------------------------ program

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = {short(k): v for k, v in d['funcs'].items()}
        self.types = {short(k): self._st(v) for k, v in d['types'].items()}
        for f in self.funcs.values():
            self._sf(f)
        for f in self.funcs.values():
            self._tail(f)
        self.pkgs = [short(p) for p in d['pkgs']]
        self._iface = {}
        self._converted = None
        self.scan()

    def _st(self, e):
        e = dict(e)
        for k in ('under', 'elem', 'key'):
            if k in e:
                e[k] = short(e[k])
        if 'fields' in e:
            e['fields'] = [dict(f, type=short(f['type'])) for f in e['fields']]
        for k in ('elems', 'params', 'results'):
            if k in e:
                e[k] = [short(x) for x in e[k]]
        for k in ('methods', 'pmethods', 'ms'):
            if e.get(k):
                e[k] = [{kk: short(vv) for kk, vv in m.items()} for m in e[k]]
        return e

    def _sv(self, v):
        if isinstance(v, dict):
            for k in list(v):
                if k in ('t', 'sig', 'iface', 'at') and isinstance(v[k], str):
                    v[k] = short(v[k])
                elif k == 'n' and v.get('k') in ('func', 'global'):
                    v[k] = short(v[k])
                else:
                    self._sv(v[k])
        elif isinstance(v, list):
            for x in v:
                self._sv(x)

    def _sf(self, f):
        f['name'] = short(f['name'])
        for k in ('sig', 'recv'):
            if k in f:
                f[k] = short(f[k])
        self._sv(f['params'])
        self._sv(f['freevars'])
        self._sv(f['blocks'])

    def _tail(self, f):
        """calls of a function to itself whose results are returned as they are become jumps to its beginning"""
        if f['freevars'] or f.get('recover') or not f['blocks']:
            return
        sites = []
        for b in f['blocks']:
            for k, i in enumerate(b['instrs']):
                if i['op'] == 'call' and (i.get('fn') or {}).get('k') == 'func' and i['fn']['n'] == f['name']:
                    rest = b['instrs'][k + 1:]
                    if not rest or rest[-1]['op'] != 'return' or any(x['op'] != 'extract' for x in rest[:-1]):
                        return
                    ex = {x['n']: x['i'] for x in rest[:-1] if x['x'].get('n') == i['n']}
                    got = rest[-1]['args']
                    if len(rest) == 1:
                        ok = [x.get('n') for x in got] == [i.get('n')] or not got
                    else:
                        ok = [ex.get(x.get('n')) for x in got] == list(range(len(got)))
                    if not ok or len(i['args']) != len(f['params']):
                        return
                    sites.append((b, k, i['args']))
                elif i['op'] in ('defer', 'go', 'rundefers'):
                    return
        if not sites:
            return
        first = f['blocks'][0]
        if first['preds']:
            return
        n = len(f['blocks'])
        names = {p['n']: p['n'] + "'" for p in f['params']}

        def ren(x):
            if isinstance(x, dict):
                if x.get('k') == 'v' and x.get('n') in names:
                    x['n'] = names[x['n']]
                else:
                    for y in x.values():
                        ren(y)
            elif isinstance(x, list):
                for y in x:
                    ren(y)
        ren([b['instrs'] for b in f['blocks']])
        for b in f['blocks']:
            b['preds'] = [n if x == 0 else x for x in b['preds']]
        head = dict(first, i=n, preds=[0] + [b['i'] if b is not first else n for b, _, _ in sites])
        phis = [{'op': 'phi', 'n': names[p['n']], 't': p['t'], 'args': [{'k': 'v', 'n': p['n'], 't': p['t']}] + [json.loads(json.dumps(a[j])) for _, _, a in sites], 'line': f.get('line', 0), 'comment': p['n']}
                for j, p in enumerate(f['params'])]
        for b, k, _ in sites:
            x = head if b is first else b
            x['instrs'] = x['instrs'][:k] + [{'op': 'jump'}]
            x['succs'] = [n]
        head['instrs'] = phis + head['instrs']
        f['blocks'][0] = {'i': 0, 'comment': 'entry', 'instrs': [{'op': 'jump'}], 'preds': [], 'succs': [n]}
        f['blocks'].append(head)

    def T(self, t):
        return self.types[t]

    def under(self, t):
        e = self.types[t]
        while e['kind'] == 'named':
            t = e['under']
            e = self.types[t]
        return t, e

    def kind(self, t):
        return self.under(t)[1]['kind']

    def fields(self, t):
        return self.under(t)[1]['fields']

    def elem(self, t):
        return self.under(t)[1]['elem']

    def is_error(self, t):
        return t == 'error'

    STORAGE_OPS = ('Has', 'Create', 'ReadSources', 'ReadTargets', 'SetReference', 'GetReference', 'Connect', 'Disconnect', 'Delete')

    def is_storage(self, t):
        e = self.under(t)[1]
        if e['kind'] != 'interface' or not e.get('ms'):
            return False
        return all(m['name'] in self.STORAGE_OPS for m in e['ms'])

    def scan(self):
        conv = set()
        self.mutable = set()
        self.stores = {}
        loaded = set()
        for fn, f in self.funcs.items():
            own = self.stores[fn] = set()
            defs = {}
            for b in f['blocks']:
                for i in b['instrs']:
                    if 'n' in i:
                        defs[i['n']] = i
                    if i['op'] == 'makeiface':
                        conv.add(i['x']['t'])
            for b in f['blocks']:
                for i in b['instrs']:
                    if i['op'] == 'field':
                        loaded.add((i['x']['t'], i['i']))
                    elif i['op'] == 'fieldaddr':
                        st = self.elem(i['x']['t'])
                        # used other than as the address of a store?
                        for b2 in f['blocks']:
                            for j in b2['instrs']:
                                if j is i:
                                    continue
                                if j['op'] == 'store':
                                    if (j['val'] or {}).get('n') == i['n']:
                                        loaded.add((st, i['i']))
                                    continue
                                if i['n'] in json.dumps(j) and self._mentions(j, i['n']):
                                    loaded.add((st, i['i']))
                    elif i['op'] == 'store':
                        a = i['addr']
                        path = []
                        while a.get('k') == 'v' and a['n'] in defs and defs[a['n']]['op'] == 'fieldaddr':
                            d = defs[a['n']]
                            path.insert(0, (self.elem(d['x']['t']), d['i']))
                            a = d['x']
                        if path and not (a.get('k') == 'v' and a['n'] in defs and defs[a['n']]['op'] == 'alloc'):
                            self.mutable.add(path[0])
                            own.add(path[0][0])
        self.converted = conv
        self.assigned = set(self.mutable)
        for t in set(t for t, _ in self.mutable):
            for i, f in enumerate(self.fields(t)):
                if self.types[f['type']]['kind'] == 'basic':
                    self.mutable.add((t, i))
        self.loaded = loaded

    def mutates(self, fname):
        """types of the shared objects that a call of fname may assign to; None: any"""
        if not hasattr(self, '_mut'):
            edges, wild = {}, set()
            for n, f in self.funcs.items():
                e = edges[n] = set()
                for b in f['blocks']:
                    for i in b['instrs']:
                        if i['op'] == 'call' or i['op'] in ('go', 'defer'):
                            if 'invoke' in i:
                                if i['iface'] == 'error' or self.is_storage(i['iface']):
                                    continue
                                try:
                                    e.add(self.method_fn(self.concrete(i['iface']), i['invoke']))
                                except Unsupported:
                                    wild.add(n)
                            elif i['fn'].get('k') == 'v':
                                wild.add(n)
                            elif i['fn'].get('k') == 'func':
                                e.add(i['fn']['n'])
                        for v in i.values():
                            for x in v if isinstance(v, list) else [v]:
                                if isinstance(x, dict) and x.get('k') == 'func':
                                    e.add(x['n'])
            r = {n: set(s) for n, s in self.stores.items()}
            ch = True
            while ch:
                ch = False
                for n, e in edges.items():
                    new = set().union(*[r[g] for g in e if g in r]) - r[n]
                    if new:
                        r[n] |= new
                        ch = True
                    if n not in wild and wild & e:
                        wild.add(n)
                        ch = True
            self._mut = {n: None if n in wild else s for n, s in r.items()}
        return self._mut.get(fname)

    def _mentions(self, j, n):
        st = [v for k, v in j.items() if k not in ('n', 't')]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'v' and x.get('n') == n:
                    return True
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return False

    def methods(self, t):
        e = self.types[t]
        if e['kind'] == 'pointer':
            b = self.types[e['elem']]
            return b.get('pmethods') or []
        return e.get('methods') or []

    def concrete(self, it):
        """the unique concrete type behind an interface type"""
        r = self._iface.get(it)
        if r is None:
            ms = self.under(it)[1].get('ms') or []
            c = []
            for t in sorted(self.converted):
                if t not in self.types:
                    continue
                have = {m['name']: self.sigkey(m['sig']) for m in self.methods(t)}
                if ms and all(have.get(m['name']) == self.sigkey(m['sig']) for m in ms):
                    c.append(t)
            r = c
            self._iface[it] = r
        if len(r) != 1:
            raise Unsupported('interface %s has %d implementations %s' % (it, len(r), r))
        return r[0]

    def sigkey(self, s):
        e = self.types[s]
        return tuple(e['params']), tuple(e['results'])

    def method_fn(self, t, name):
        for m in self.methods(t):
            if m['name'] == name:
                return m['func']
        raise Unsupported('no method %s on %s' % (name, t))


# ------------------------------------------------------------------- values

class SV:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, list(f)


class IV:
    """interface value: nil flag, dynamic type and payload; payload 'SIGMA' is the storage"""
    __slots__ = ('nil', 'ct', 'pay')

    def __init__(self, nil, ct, pay):
        self.nil, self.ct, self.pay = nil, ct, pay


class PV:
    """pointer: base ('cell', id) or ('canon', type); path of field / index steps"""
    __slots__ = ('nil', 'base', 'path')

    def __init__(self, nil, base, path=()):
        self.nil, self.base, self.path = nil, base, tuple(path)


class SL:
    __slots__ = ('nil', 'cell', 'off', 'len', 'cap', 'et')

    def __init__(self, nil, cell, off, ln, cap, et):
        self.nil, self.cell, self.off, self.len, self.cap, self.et = nil, cell, off, ln, cap, et


class FN:
    def __init__(self, name, binds=()):
        self.name, self.binds = name, list(binds)


class OPQ:
    """value nothing is known about (and nothing depends on)"""

    def __init__(self, what=''):
        self.what = what


class ArrC:
    """contents of a backing array: one SMT array per scalar leaf of the element type"""
    __slots__ = ('et', 'leaves')

    def __init__(self, et, leaves):
        self.et, self.leaves = et, list(leaves)


class ListC:
    """contents of a small array accessed at constant indexes only"""
    __slots__ = ('et', 'e')

    def __init__(self, et, e):
        self.et, self.e = et, list(e)


class IterC:
    __slots__ = ('s', 'pos', 'k')           # text, byte position, number of characters so far

    def __init__(self, s, pos, k):
        self.s, self.pos, self.k = s, pos, k


class MapC:
    """contents of a map: which keys are there, one array of values per scalar leaf; ghost: number of the update that set a key"""
    __slots__ = ('kt', 'vt', 'dom', 'leaves', 'pos', 'n', 'size')

    def __init__(self, kt, vt, dom, leaves, pos, n, size):
        self.kt, self.vt, self.dom, self.leaves, self.pos, self.n, self.size = kt, vt, dom, list(leaves), pos, n, size


class BufC:
    """bytes.Buffer / strings.Builder"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


declare('slen', ['Str'], 'Int')
declare('sbyte', ['Str', 'Int'], 'Int')
declare('sconcat', ['Str', 'Str'], 'Str')
declare('ssub', ['Str', 'Int', 'Int'], 'Str')
EMPTY = S(b'')
INTK = {'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64', 'uintptr', 'rune', 'byte', 'untyped int', 'untyped rune'}
RANGE = {'int8': (-2**7, 2**7 - 1), 'int16': (-2**15, 2**15 - 1), 'int32': (-2**31, 2**31 - 1), 'rune': (-2**31, 2**31 - 1),
         'int64': (-2**63, 2**63 - 1), 'int': (-2**63, 2**63 - 1), 'uint8': (0, 255), 'byte': (0, 255), 'uint16': (0, 65535),
         'uint32': (0, 2**32 - 1), 'uint64': (0, 2**64 - 1), 'uint': (0, 2**64 - 1), 'uintptr': (0, 2**64 - 1)}


def sconcat(a, b):
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    if a.op == 'str' and b.op == 'str':
        return S(a.data + b.data)
    # right-nested normal form
    if a.op == 'app' and a.data == 'sconcat':
        return sconcat(a.args[0], sconcat(a.args[1], b))
    if a.op == 'str' and b.op == 'app' and b.data == 'sconcat' and b.args[0].op == 'str':
        return sconcat(S(a.data + b.args[0].data), b.args[1])
    return F('sconcat', a, b)


def slen(a):
    if a.op == 'str':
        return I(len(a.data))
    return F('slen', a)


class St:
    """symbolic state"""
    __slots__ = ('mem', 'cm', 'sig', 'pc', 'pcs', 'app', 'dead', 'trace', 'hist')

    def __init__(self):
        self.mem, self.cm, self.sig, self.pc, self.pcs, self.app = {}, {}, {}, [], set(), set()
        self.dead = False
        self.trace = []
        self.hist = {}

    def copy(self):
        s = St.__new__(St)
        s.mem, s.cm, s.sig, s.pc, s.pcs, s.app = dict(self.mem), dict(self.cm), dict(self.sig), list(self.pc), set(self.pcs), set(self.app)
        s.dead = self.dead
        s.trace = list(self.trace)
        s.hist = dict(self.hist)
        return s

    def add(self, c):
        if c is TRUE:
            return self
        if c.op == 'and':
            for a in c.args:
                self.add(a)
            return self
        if c is FALSE or Not(c).id in self.pcs:
            self.dead = True
        if c.id not in self.pcs:
            self.pcs.add(c.id)
            self.pc.append(c)
        return self


class Obl:
    __slots__ = ('name', 'kind', 'props', 'hyps', 'goal', 'where', 'res', 'secs', 'out', 'fn', 'axioms', 'extra', 'cur')

    def __init__(self, fn, name, kind, props, hyps, goal, where):
        self.fn, self.name, self.kind, self.props, self.hyps, self.goal, self.where = fn, name, kind, tuple(props), hyps, goal, where
        self.res, self.secs, self.out = None, 0.0, ''
        self.extra, self.cur = [], None


class LoopCtx:
    pass


class Ex:
    """symbolic execution of one top-level function under a mode"""

    def __init__(self, prog, mode, fn):
        self.P, self.mode, self.fn = prog, mode, fn
        self.obls = []
        self.cells = 0
        self.ctypes = {}
        self.stack = []
        self.assumed = set()
        self.inlined = set()
        self.called = set()
        self.loops = {}
        self.hypconst = {}
        self.steps = 0
        self.probing = False

    # ------------------------------------------------ obligations
    def oblige(self, st, kind, goal, props, name=None, where=None, extra=()):
        if self.obls is None:
            return
        if st.dead:
            return
        where = where or self.where()
        if isinstance(goal, (list, tuple)):
            for g in goal:
                self.oblige(st, kind, g, props, name, where, extra)
            return
        if not isinstance(goal, Term):      # a quantified fact
            hs, g = goal.goal()
            self.oblige(st, kind, g, goal.props if props is None else props, '%s: %s' % (name or kind, goal.name), where, list(extra) + hs)
            return
        o = Obl(self.fn, name or kind, kind, props, list(st.pc), goal, where)
        o.extra = list(extra)
        o.cur = self.mode.versions(st)
        self.obls.append(o)

    def assume(self, st, fact):
        if isinstance(fact, (list, tuple)):
            for f in fact:
                self.assume(st, f)
        elif isinstance(fact, Term):
            st.add(fact)
        elif fact is not None:
            st.add(fact.hyp())

    def payload_ok(self, st, v, t):
        """what the havoc of a loop variable takes for granted: no nil below a non-nil interface"""
        if isinstance(v, SV):
            return And(*[self.payload_ok(st, x, f['type']) for x, f in zip(v.f, self.P.fields(v.t))])
        if isinstance(v, IV):
            if v.pay == 'SIGMA' or v.pay is None or v.nil is TRUE:
                return TRUE
            return Or(v.nil, self.wired(st, v.pay, v.ct))
        if isinstance(v, ListC):
            return And(*[self.payload_ok(st, x, v.et) for x in v.e])
        return TRUE

    def where(self):
        return ' > '.join('%s:%s' % (short(f), l) for f, l in self.stack[-2:])

    # ------------------------------------------------ value construction
    def newcell(self):
        self.cells += 1
        return self.cells

    def sortof(self, t):
        k, e = self.P.under(t)
        if e['kind'] == 'basic':
            n = e['name']
            if n in INTK:
                return 'Int'
            if n in ('bool', 'untyped bool'):
                return 'Bool'
            if n in ('string', 'untyped string'):
                return 'Str'
        if t == 'error':
            return 'Int'
        return None

    def leafsorts(self, t):
        s = self.sortof(t)
        if s:
            return [s]
        e = self.P.under(t)[1]
        k = e['kind']
        if k == 'struct':
            return [x for f in e['fields'] for x in self.leafsorts(f['type'])]
        if k == 'interface':
            if self.P.is_storage(t):
                return ['Bool']
            return ['Bool'] + self.leafsorts(self.P.concrete(t))
        if k == 'pointer':
            return ['Bool']
        raise Unsupported('leaves of ' + t)

    def flatten(self, v, t):
        s = self.sortof(t)
        if s:
            return [v]
        e = self.P.under(t)[1]
        k = e['kind']
        if k == 'struct':
            return [x for f, fv in zip(e['fields'], v.f) for x in self.flatten(fv, f['type'])]
        if k == 'interface':
            if self.P.is_storage(t):
                return [v.nil]
            ct = self.P.concrete(t)
            if v.nil is TRUE or v.pay is None:
                return [TRUE] + [self.dummy(x) for x in self.leafsorts(ct)]
            if v.ct != ct:
                raise Unsupported('dynamic type %s for %s' % (v.ct, t))
            return [v.nil] + self.flatten(v.pay, ct)
        if k == 'pointer':
            if v.base[0] != 'canon' and v.nil is not TRUE:
                raise Unsupported('pointer to local memory stored in a slice')
            return [v.nil]
        raise Unsupported('flatten ' + t)

    def dummy(self, s):
        return {'Bool': FALSE, 'Int': ZERO, 'Str': EMPTY}.get(s)

    def unflatten(self, t, it):
        s = self.sortof(t)
        if s:
            return next(it)
        e = self.P.under(t)[1]
        k = e['kind']
        if k == 'struct':
            return SV(t, [self.unflatten(f['type'], it) for f in e['fields']])
        if k == 'interface':
            if self.P.is_storage(t):
                return IV(next(it), 'SIGMA', 'SIGMA')
            n = next(it)
            ct = self.P.concrete(t)
            return IV(n, ct, self.unflatten(ct, it))
        if k == 'pointer':
            return PV(next(it), ('canon', e['elem']))
        raise Unsupported('unflatten ' + t)

    def rangefact(self, t, v):
        n = self.P.under(t)[1].get('name')
        if n in RANGE:
            lo, hi = RANGE[n]
            return And(le(I(lo), v), le(v, I(hi)))
        return TRUE

    def fresh_value(self, st, t, name, wired=True, ranges=True):
        """an unknown value of type t; wired: no nil inside"""
        s = self.sortof(t)
        if s:
            v = fresh(name, s)
            if ranges and s == 'Int' and t != 'error':
                st.add(self.rangefact(t, v))
            return v
        e = self.P.under(t)[1]
        k = e['kind']
        nil = FALSE if wired else None
        if k == 'struct':
            if wired:
                v = self.mode.fresh_struct(self, st, t, name)
                if v is not None:
                    return v
            v = SV(t, [self.fresh_value(st, f['type'], name + '.' + f['name'], wired and (t, i) in self.P.loaded) for i, f in enumerate(e['fields'])])
            if wired:
                st.add(self.mode.value_inv(self, st, v, t))
            return v
        if k == 'interface':
            if self.P.is_storage(t):
                return IV(nil or fresh(name + '.nil', 'Bool'), 'SIGMA', 'SIGMA')
            if not e.get('ms'):
                return OPQ(name)
            ct = self.P.concrete(t)
            return IV(nil or fresh(name + '.nil', 'Bool'), ct, self.fresh_value(st, ct, name, wired))
        if k == 'pointer':
            return PV(nil or fresh(name + '.nil', 'Bool'), ('canon', e['elem']))
        if k == 'slice':
            return self.fresh_slice(st, e['elem'], name, wired)
        return OPQ(name)

    def fresh_slice(self, st, et, name, wired=True):
        c = self.newcell()
        try:
            sorts = self.leafsorts(et)
        except Unsupported:
            return OPQ(name)
        leaves = []
        for i, s in enumerate(sorts):
            leaves.append(fresh('%s.arr%d' % (name, i), asort('Int', s)))
        st.mem[c] = ArrC(et, leaves)
        ln = fresh(name + '.len', 'Int')
        st.add(ge(ln, ZERO))
        st.add(le(ln, I(2**62)))
        if wired:
            st.add(self.elems_wired(st, SL(FALSE, c, ZERO, ln, ln, et)))
        return SL(fresh(name + '.nil', 'Bool'), c, ZERO, ln, ln, et)

    def elems_wired(self, st, sl, lo=None, hi=None):
        """every element of the slice (from lo, below hi) has no nil inside"""
        c = st.mem[sl.cell]
        if isinstance(c, ListC):
            return And(*[Imp(And(le(lo or ZERO, I(k)), lt(I(k), hi or I(len(c.e)))), self.wired(st, x, c.et)) for k, x in enumerate(c.e)])
        sorts = self.leafsorts(sl.et)
        i = V('i', 'Int')
        el = self.unflatten(sl.et, iter([sel(a, add(sl.off, i)) for a in c.leaves]))
        w = self.wired(st, el, sl.et)
        if w is TRUE:
            return TRUE
        pat = [[sel(a, add(sl.off, i))] for a in c.leaves]
        return Forall([i], Imp(And(le(lo or ZERO, i), lt(i, hi or sl.len)), w), pat)

    def wired(self, st, v, t, depth=0):
        if depth > 80:
            raise Unsupported('recursive structure')
        s = self.sortof(t)
        if s:
            return TRUE
        if isinstance(v, OPQ):
            return TRUE
        e = self.P.under(t)[1]
        k = e['kind']
        if k == 'struct':
            r = [self.wired(st, x, f['type'], depth + 1) for i, (x, f) in enumerate(zip(v.f, e['fields'])) if (t, i) in self.P.loaded]
            r.append(self.mode.value_inv(self, st, v, t))
            return And(*r)
        if k == 'interface':
            if not e.get('ms'):
                return TRUE
            if v.pay == 'SIGMA':
                return Not(v.nil)
            if v.nil is TRUE or v.pay is None:
                return FALSE
            return And(Not(v.nil), self.wired(st, v.pay, v.ct, depth + 1))
        if k == 'pointer':
            if v.base is None:
                return Not(v.nil)
            if v.base[0] == 'canon':
                return Not(v.nil)
            c = st.mem[v.base[1]]
            tt = e['elem']
            if v.path:
                c = self.getpath(c, v.path)
            if isinstance(c, (ArrC, ListC, IterC, BufC, MapC)):
                return Not(v.nil)
            if not isinstance(c, SV):
                return Not(v.nil)
            r = [Not(v.nil), self.wired_obj(st, c, tt, depth)]
            return And(*r)
        if k == 'slice':
            if v.nil is TRUE and v.cell is None:
                return TRUE
            return self.elems_wired(st, v)
        return TRUE

    def wired_obj(self, st, c, tt, depth=0):
        r = []
        for i, (x, f) in enumerate(zip(c.f, self.P.fields(tt))):
            if (tt, i) in self.P.mutable or (tt, i) not in self.P.loaded:
                continue
            r.append(self.wired(st, x, f['type'], depth + 1))
        mut = {f['name']: x for i, (x, f) in enumerate(zip(c.f, self.P.fields(tt))) if (tt, i) in self.P.mutable}
        if mut:
            r.append(self.mode.object_inv(self, st, tt, mut))
        return And(*r)

    def zero(self, st, t):
        s = self.sortof(t)
        if s:
            return {'Int': ZERO, 'Bool': FALSE, 'Str': EMPTY}[s]
        e = self.P.under(t)[1]
        k = e['kind']
        if k == 'struct':
            if t in ('bytes.Buffer', 'strings.Builder'):
                return BufC(EMPTY)
            return SV(t, [self.zero(st, f['type']) for f in e['fields']])
        if k == 'interface':
            if not e.get('ms'):
                return OPQ('nil')
            return IV(TRUE, None, None)
        if k == 'pointer':
            return PV(TRUE, None)
        if k == 'slice':
            c = self.newcell()
            st.mem[c] = ListC(e['elem'], [])
            return SL(TRUE, c, ZERO, ZERO, ZERO, e['elem'])
        if k == 'array':
            if e['len'] > 64:
                raise Unsupported('large array')
            return ListC(e['elem'], [self.zero(st, e['elem']) for _ in range(e['len'])])
        return OPQ('zero ' + t)

    # ------------------------------------------------ memory
    def getpath(self, v, path):
        for p in path:
            if isinstance(p, int):
                if not isinstance(v, SV):
                    raise Unsupported('field of %s' % type(v).__name__)
                v = v.f[p]
            else:
                v = self.getidx(v, p[1])
        return v

    def getidx(self, c, i):
        if isinstance(c, ListC):
            if i.op == 'int':
                if 0 <= i.data < len(c.e):
                    return c.e[i.data]
                return OPQ('out of range')
            # symbolic index into a small array
            if not c.e:
                return OPQ('out of range')
            fl = [self.flatten(x, c.et) for x in c.e]
            out = []
            for k in range(len(fl[0])):
                r = fl[0][k]
                for n in range(1, len(fl)):
                    r = ite(eq(i, I(n)), fl[n][k], r)
                out.append(r)
            return self.unflatten(c.et, iter(out))
        if isinstance(c, ArrC):
            return self.unflatten(c.et, iter([sel(a, i) for a in c.leaves]))
        raise Unsupported('index of %s' % type(c).__name__)

    def setidx(self, c, i, v):
        if isinstance(c, ListC):
            if i.op != 'int':
                raise Unsupported('store at symbolic index of a small array')
            e = list(c.e)
            if 0 <= i.data < len(e):
                e[i.data] = v
            return ListC(c.et, e)
        if isinstance(c, ArrC):
            return ArrC(c.et, [store(a, i, x) for a, x in zip(c.leaves, self.flatten(v, c.et))])
        raise Unsupported('index store of %s' % type(c).__name__)

    def setpath(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(p, int):
            if not isinstance(v, SV):
                raise Unsupported('field store')
            f = list(v.f)
            f[p] = self.setpath(f[p], path[1:], x)
            return SV(v.t, f)
        if len(path) == 1:
            return self.setidx(v, p[1], x)
        return self.setidx(v, p[1], self.setpath(self.getidx(v, p[1]), path[1:], x))

    def canon_field(self, st, t, i):
        key = (t, i)
        f = self.P.fields(t)[i]
        if key in self.P.mutable:
            if key not in st.cm:
                self.init_canon(st, t)
            return st.cm[key]
        k = 'canon:%s.%s' % (t, f['name'])
        if k not in self.hypconst:
            s = self.sortof(f['type'])
            if s:
                self.hypconst[k] = C(k, s)
            else:
                tmp = St()
                v = self.fresh_value(tmp, f['type'], k, key in self.P.loaded)
                if tmp.mem:
                    raise Unsupported('slice in shared object ' + k)
                self.hypconst[k] = v
        return self.hypconst[k]

    def init_canon(self, st, t):
        mut = {}
        for i, f in enumerate(self.P.fields(t)):
            if (t, i) in self.P.mutable:
                v = self.fresh_value(st, f['type'], 'obj:%s.%s' % (t, f['name']), False)
                st.cm[(t, i)] = v
                mut[f['name']] = v
        st.add(self.mode.object_inv(self, st, t, mut))

    def havoc_canon(self, st, fname):
        may = self.P.mutates(fname)
        for t in sorted(set(k[0] for k in st.cm)):
            if may is not None and t not in may:
                continue
            for k in [k for k in st.cm if k[0] == t]:
                del st.cm[k]

    def canon_mutable_inv(self, st):
        r = []
        for t in sorted(set(k[0] for k in st.cm)):
            mut = {self.P.fields(t)[i]['name']: v for (tt, i), v in st.cm.items() if tt == t}
            r.append(self.mode.object_inv(self, st, t, mut))
        return And(*r)

    def load(self, st, p, t):
        if p.base is None:
            return OPQ('load of nil')
        if p.base[0] == 'cell':
            v = st.mem[p.base[1]]
            r = self.getpath(v, p.path)
            if p.path and isinstance(r, Term):
                self.mode.on_load(st, r)
            if p.path and isinstance(p.path[0], tuple) and (len(p.path) > 1 or isinstance(r, SV)):
                self.mode.on_element(st, r if len(p.path) == 1 else self.getpath(v, p.path[:1]))
            return r
        ct = p.base[1]
        if not p.path:
            return SV(ct, [self.canon_field(st, ct, i) for i in range(len(self.P.fields(ct)))])
        if p.path[0] == 'whole':
            raise Unsupported('load')
        v = self.canon_field(st, ct, p.path[0])
        return self.getpath(v, p.path[1:])

    def store_at(self, st, p, x):
        if p.base is None:
            return
        if p.base[0] == 'cell':
            st.mem[p.base[1]] = self.setpath(st.mem[p.base[1]], p.path, x)
            return
        ct = p.base[1]
        if not p.path:
            raise Unsupported('assignment of a whole shared object')
        key = (ct, p.path[0])
        if key not in self.P.mutable:
            raise Unsupported('store to shared object %s' % ct)
        if key not in st.cm:
            self.init_canon(st, ct)
        st.cm[key] = self.setpath(st.cm[key], p.path[1:], x)

    # ------------------------------------------------ function execution
    def run(self, fname, args, st, binds=()):
        """all outcomes [(state, [results])] of calling fname"""
        f = self.P.funcs[fname]
        if not f['blocks']:
            raise Unsupported('no body: ' + fname)
        if any(fname == s for s, _ in self.stack):
            raise Unsupported('recursion: ' + fname)
        if len(self.stack) > 40:
            raise Unsupported('inlining depth')
        self.stack.append((fname, f.get('line', 0)))
        if len(self.stack) > 1:
            self.inlined.add(fname)
        env = {}
        for p, a in zip(f['params'], args):
            env[p['n']] = a
        for p, a in zip(f['freevars'], binds):
            env[p['n']] = a
        fr = Frame(self, f)
        out, _ = fr.go(st, env, 0, None, None)
        self.stack.pop()
        return out


def dominators(blocks):
    n = len(blocks)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in blocks[1:]:
            ps = [dom[p] for p in b['preds']]
            d = set.intersection(*ps) if ps else set()
            d = d | {b['i']}
            if d != dom[b['i']]:
                dom[b['i']] = d
                ch = True
    return dom


def loops_of(f):
    if '_loops' in f:
        return f['_loops']
    bl = f['blocks']
    dom = dominators(bl)
    heads = {}
    for b in bl:
        for s in b['succs']:
            if s in dom[b['i']]:
                body = heads.setdefault(s, {s})
                st = [b['i']]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(bl[x]['preds'])
    # irreducible or inner back edges are not expected
    f['_loops'] = heads
    return heads


class Frame:
    def __init__(self, ex, f):
        self.ex, self.f = ex, f
        self.loops = loops_of(f)

    def go(self, st, env, block, pred, stop, start=None):
        """execute from block; stop: None or (head, body) of the loop being executed.
        returns (returns, leaving) with leaving = [(kind, st, env, target, pred)]"""
        ex = self.ex
        work = [(st, env, block, pred, start or 0)]
        rets, leaving = [], []
        first = start is not None
        while work:
            st, env, b, pred, idx = work.pop()
            if st.dead:
                continue
            if idx == 0 and not first:
                if stop and b == stop[0]:
                    leaving.append(('back', st, env, b, pred))
                    continue
                if stop and b not in stop[1]:
                    leaving.append(('exit', st, env, b, pred))
                    continue
                if b in self.loops:
                    r, l = self.loop(st, env, b, pred)
                    rets += r
                    for (_, s2, e2, t2, p2) in l:
                        work.append((s2, e2, t2, p2, 0))
                    continue
                env = self.phis(st, env, b, pred)
                idx = self.nphis(b)
            elif first and idx == 0:
                idx = self.nphis(b)
            first = False
            instrs = self.f['blocks'][b]['instrs']
            n = len(instrs)
            dead = False
            while idx < n:
                i = instrs[idx]
                ex.steps += 1
                if ex.steps > ex.mode.max_steps:
                    raise Unsupported('too many paths')
                if i.get('line'):
                    ex.stack[-1] = (self.f['name'], i['line'])
                op = i['op']
                if op == 'jump':
                    work.append((st, env, self.f['blocks'][b]['succs'][0], b, 0))
                    break
                if op == 'if':
                    c = self.val(st, env, i['x'])
                    su = self.f['blocks'][b]['succs']
                    if c is TRUE or c.id in st.pcs:
                        work.append((st, env, su[0], b, 0))
                    elif c is FALSE or Not(c).id in st.pcs:
                        work.append((st, env, su[1], b, 0))
                    else:
                        s2 = st.copy()
                        st.add(c)
                        s2.add(Not(c))
                        if ex.mode.prune(ex, s2):
                            if not st.dead:
                                work.append((st, env, su[0], b, 0))
                        else:
                            work.append((s2, dict(env), su[1], b, 0))
                            if not ex.mode.prune(ex, st):
                                work.append((st, env, su[0], b, 0))
                    break
                if op == 'return':
                    rets.append((st, [self.val(st, env, a) for a in i['args']]))
                    break
                if op == 'panic':
                    ex.oblige(st, 'no-panic', FALSE, ['C05'], 'explicit panic is not reachable')
                    break
                if op == 'call':
                    outs = self.call(st, env, i)
                    if len(outs) == 1:
                        st, res = outs[0]
                        if st.dead:
                            break
                        env[i['n']] = res
                        idx += 1
                        continue
                    for s2, res in reversed(outs):
                        if s2.dead:
                            continue
                        e2 = dict(env)
                        e2[i['n']] = res
                        work.append((s2, e2, b, pred, idx + 1))
                    break
                if op == 'defer':
                    if stop is not None:
                        raise Unsupported('defer in a loop')
                    self.defer(st, env, i)
                    idx += 1
                    continue
                if op == 'rundefers':
                    ds = env.get('$defers', ())
                    if not ds:
                        idx += 1
                        continue
                    env['$defers'] = ds[:-1]
                    d, vals = ds[-1]
                    for s2, _ in self.call(st, dict(env, **vals), d):
                        if not s2.dead:
                            work.append((s2, dict(env), b, pred, idx))
                    break
                r = self.step(st, env, i)
                if st.dead:
                    break
                if r is not None and 'n' in i:
                    env[i['n']] = r
                idx += 1
        return rets, leaving

    def nphis(self, b):
        n = 0
        for i in self.f['blocks'][b]['instrs']:
            if i['op'] != 'phi':
                break
            n += 1
        return n

    def phis(self, st, env, b, pred):
        bl = self.f['blocks'][b]
        n = self.nphis(b)
        if not n:
            return env
        k = bl['preds'].index(pred)
        vals = [(i['n'], self.val(st, env, i['args'][k])) for i in bl['instrs'][:n]]
        env = dict(env)
        env.update(vals)
        return env

    # -------------------------------------------- loops
    def loop(self, st, env, head, pred):
        """iterations with a condition that is known (constant number of rounds) are executed one by one, as is the first
        one when a variable is nil at first; everything else by invariants"""
        ex = self.ex
        rets, out = [], []
        line = ex.stack[-1]
        work = [(st, self.phis(st, env, head, pred), 0)]
        while work:
            s, e, k = work.pop()
            ex.stack[-1] = line
            c = self.counted(s, e, head) if k < 16 else None
            if c is None and not (k == 0 and self.nil_first(e, head)):
                obls, probing = ex.obls, ex.probing
                n = len(obls) if obls is not None else 0
                try:
                    r, l = self.cut(s.copy(), e, head)
                except TooEarly:
                    # a round without the storage initialised: executed as it is
                    if k:
                        if ex.mode.holds(s, FALSE) or ex.mode.infeasible(s):
                            continue
                        raise
                    ex.obls, ex.probing = obls, probing
                    if obls is not None:
                        del obls[n:]
                    ex.stack[-1] = line
                    r, l = self.go(s, dict(e), head, None, (head, self.loops[head]), start=0)
            else:
                r, l = self.go(s, dict(e), head, None, (head, self.loops[head]), start=0)
            rets += r
            for x in l:
                if x[0] == 'back':
                    work.append((x[1], self.phis(x[1], x[2], head, x[4]), k + 1))
                else:
                    out.append(x)
        ex.stack[-1] = line
        return rets, out

    def nil_first(self, env, head):
        for i in self.f['blocks'][head]['instrs'][:self.nphis(head)]:
            v = env[i['n']]
            if isinstance(v, IV) and i['t'] != 'error' and v.nil is TRUE:
                return True
        return False

    def counted(self, st, env, head):
        """the condition of the loop if it compares numbers that are known now"""
        ins = self.f['blocks'][head]['instrs']
        if not ins or ins[-1]['op'] != 'if' or ins[-1]['x'].get('k') != 'v':
            return None
        cond = [i for i in ins if i.get('n') == ins[-1]['x']['n']]
        if not cond or cond[0]['op'] != 'binop' or cond[0]['o'] not in ('<', '<=', '>', '>=', '==', '!='):
            return None
        if self.ex.P.under(cond[0]['x']['t'])[1].get('name') not in INTK:
            return None
        ex = self.ex
        st, env = st.copy(), dict(env)
        saved, ex.obls, probing, ex.probing = ex.obls, None, ex.probing, True
        try:
            for i in ins[self.nphis(head):-1]:
                if i['op'] == 'call':
                    if i.get('fn', {}).get('k') != 'builtin':
                        return None
                    outs = self.call(st, env, i)
                    if len(outs) != 1:
                        return None
                    st, r = outs[0]
                elif i['op'] in ('binop', 'convert', 'unop', 'field', 'fieldaddr', 'indexaddr'):
                    r = self.step(st, env, i)
                else:
                    return None
                env[i['n']] = r
            c = self.val(st, env, ins[-1]['x'])
            return c if c is TRUE or c is FALSE else None
        except Unsupported:
            return None
        finally:
            ex.obls, ex.probing = saved, probing

    def cut(self, st, entry_env, head):
        ex = self.ex
        mode = ex.mode
        body = self.loops[head]
        bl = self.f['blocks'][head]
        phis = [(i['n'], i['t']) for i in bl['instrs'][:self.nphis(head)]]
        entry = st
        saved = ex.obls
        line = ex.stack[-1]
        # a variable of an outer loop or function may hold a slice that the loop replaces: all phis are unknown
        mod_mem, mod_sig, mod_cm = set(), set(), set()
        mod_fields = {'loose': set(), 'moved': set()}
        probing = ex.probing
        for rnd in range(12):
            ex.obls = None
            ex.probing = True
            hst, henv = self.havoc(entry, entry_env, phis, mod_mem, mod_sig, mod_cm, head, mod_fields)
            mode.after_havoc(ex, entry, hst, mod_sig)
            ex.stack[-1] = line
            r, l = self.go(hst.copy(), dict(henv), head, None, (head, body), start=0)
            changed = False
            for (kind, s2, e2, t2, p2) in l:
                if kind != 'back':
                    continue
                for c, v in s2.mem.items():
                    if c in hst.mem and v is not hst.mem[c] and not self.same(v, hst.mem[c]):
                        if c not in mod_mem:
                            mod_mem.add(c)
                            changed = True
                        if isinstance(v, SV) and isinstance(hst.mem[c], SV):
                            for k, (x, y) in enumerate(zip(v.f, hst.mem[c].f)):
                                if not self.same(x, y) and k not in mod_fields.setdefault(c, set()):
                                    mod_fields[c].add(k)
                                    changed = True
                for k, v in s2.sig.items():
                    if hst.sig.get(k) is not v and k not in mod_sig:
                        mod_sig.add(k)
                        changed = True
                for k, v in s2.cm.items():
                    if k in hst.cm and v is not hst.cm[k] and k not in mod_cm:
                        mod_cm.add(k)
                        changed = True
                for k in hst.cm:
                    if k not in s2.cm and k not in mod_cm:
                        mod_cm.add(k)
                        changed = True
                e3 = self.phis(s2, e2, head, p2)
                for n, t in phis:
                    if isinstance(e3[n], SL) and n not in mod_fields['moved'] and isinstance(entry_env[n], SL) and (e3[n].cell != entry_env[n].cell or e3[n].cell in mod_mem or not isinstance(hst.mem.get(e3[n].cell), ArrC)):
                        mod_fields['moved'].add(n)
                        changed = True
            if not changed:
                # interface variables that always hold something complete
                ends = [(entry, entry_env)] + [(s2, self.phis(s2, e2, head, p2)) for (kind, s2, e2, t2, p2) in l if kind == 'back']
                for s2, e2 in ends:
                    here = []
                    for n, t in phis:
                        here += self.complete(s2, e2[n], t, 'L%d.%s' % (head, n))
                    for c in sorted(mod_mem):
                        here += self.complete(s2, s2.mem[c], ex.ctypes.get(c), 'L%d.m%d' % (head, c), mod_fields.get(c))
                    for n, t in phis:
                        if isinstance(e2[n], SL) and n not in mod_fields['moved'] and not mode.holds(s2, self.within(e2[n], entry_env[n])):
                            mod_fields['moved'].add(n)
                            changed = True
                    for n, g in here:
                        if n not in mod_fields['loose'] and not mode.holds(s2, g):
                            mod_fields['loose'].add(n)
                            changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop modification set')
        ex.probing = probing
        ctx = LoopCtx()
        named = {}

        def named_memory(s, e):
            """the variables that the loop keeps in memory get names like the loop variables"""
            e = {n: v for n, v in e.items() if n[0] not in '*@'}

            def put(n, v, t, mark, deep):
                if mark == '*' or isinstance(v, SL):
                    e[mark + n] = v
                    named[mark + n] = t
                if isinstance(v, SV) and deep:
                    for x, f in zip(v.f, ex.P.fields(v.t)):
                        put(n + '.' + f['name'], x, f['type'], mark, deep - 1)
            for c in sorted(s.mem):
                v = s.mem[c]
                if c in mod_mem and isinstance(v, (SV, Term, IV, SL)):
                    put(str(c), v, ex.ctypes.get(c), '*', 2)
                elif isinstance(v, (SV, SL)):
                    put(str(c), v, ex.ctypes.get(c), '@', 2)
            for n, t in phis:
                if isinstance(e[n], SV):
                    put(n, e[n], t, '*', 2)
            return e
        back = lambda s2, e2, p2: named_memory(s2, self.phis(s2, e2, head, p2))
        entry_env, henv = named_memory(entry, entry_env), named_memory(hst, henv)
        ctx.ptypes = named
        ctx.ex, ctx.fr, ctx.fn, ctx.head, ctx.entry, ctx.entry_env = ex, self, self.f['name'], head, entry, entry_env
        ctx.phis = phis + [(n, t) for n, t in sorted(named.items()) if n[0] == '*' and n in entry_env]
        ctx.hst, ctx.henv, ctx.mod_mem, ctx.mod_sig, ctx.body = hst, henv, mod_mem, mod_sig, body
        ctx.line = line[1]
        ctx.backs = []
        for (kind, s2, e2, t2, p2) in l:
            if kind == 'back':
                ctx.backs.append((s2, back(s2, e2, p2)))
        ctx.exits = [(s2, e2) for (kind, s2, e2, t2, p2) in l if kind == 'exit'] + [(s2, {}) for s2, _ in r]
        cands = mode.loop_candidates(ctx)
        if any(h in body for h in self.loops if h != head) and hasattr(mode, 'on_entry'):
            # the invariants of inner loops depend on those of this one: start with all candidates
            chosen = mode.on_entry(ctx, cands)
            while True:
                h2 = hst.copy()
                for c in chosen:
                    ex.assume(h2, c.at(ctx, hst, henv))
                ex.obls, ex.probing = None, True
                ex.stack[-1] = line
                r, l = self.go(h2.copy(), dict(henv), head, None, (head, body), start=0)
                ex.probing = probing
                ctx.backs = [(s2, back(s2, e2, p2)) for (kind, s2, e2, t2, p2) in l if kind == 'back']
                less = mode.choose(ctx, chosen)
                if len(less) == len(chosen):
                    break
                chosen = less
            ex.obls = saved
        else:
            ex.obls = saved
            chosen = mode.choose(ctx, cands)
        # final run with the chosen invariants
        hst2 = hst.copy()
        for c in chosen:
            ex.assume(hst2, c.at(ctx, hst2, henv))
        mode.loop_head(ctx, hst2, henv)

        def taken(s, e, kind):
            for n, t in phis:
                if isinstance(e[n], SL) and n not in mod_fields['moved'] and isinstance(hst.mem.get(e[n].cell), ArrC):
                    g = self.within(e[n], entry_env[n])
                    if g is not TRUE:
                        ex.oblige(s, kind, g, mode.wprops, 'loop variable %s stays within its array' % n)
                for k, g in self.complete(s, e[n], t, 'L%d.%s' % (head, n)):
                    if k not in mod_fields['loose'] and g is not TRUE:
                        ex.oblige(s, kind, g, mode.wprops, 'loop variable %s has no nil inside' % n)
            for c in sorted(mod_mem):
                for k, g in self.complete(s, s.mem[c], ex.ctypes.get(c), 'L%d.m%d' % (head, c), mod_fields.get(c)):
                    if k not in mod_fields['loose'] and g is not TRUE:
                        ex.oblige(s, kind, g, mode.wprops, 'loop memory has no nil inside')
        if mod_sig:
            mode.loop_cut(ex, entry)
        if ex.obls is not None:
            taken(entry, entry_env, 'loop-entry')
            for c in chosen:
                g = c.at(ctx, entry, entry_env)
                if g is not None:
                    ex.oblige(entry, 'loop-entry', g, c.props, 'loop invariant holds on entry: ' + c.name)
        ex.stack[-1] = line
        r, l = self.go(hst2.copy(), dict(henv), head, None, (head, body), start=0)
        out = []
        for (kind, s2, e2, t2, p2) in l:
            if kind == 'back':
                if mod_sig:
                    mode.loop_cut(ex, s2)
                if ex.obls is not None:
                    e3 = back(s2, e2, p2)
                    taken(s2, e3, 'loop-preserve')
                    for c in chosen:
                        g = c.at(ctx, s2, e3)
                        if g is not None:
                            ex.oblige(s2, 'loop-preserve', g, c.props, 'loop invariant is preserved: ' + c.name)
            else:
                out.append((kind, s2, e2, t2, p2))
        return r, out

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Term):
            return a is b
        if isinstance(a, SV):
            return all(self.same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, ArrC):
            return all(x is y for x, y in zip(a.leaves, b.leaves))
        if isinstance(a, ListC):
            return len(a.e) == len(b.e) and all(self.same(x, y) for x, y in zip(a.e, b.e))
        if isinstance(a, IV):
            return a.nil is b.nil and a.ct == b.ct and (a.pay is b.pay or self.same(a.pay, b.pay))
        if isinstance(a, PV):
            return a.nil is b.nil and a.base == b.base and a.path == b.path
        if isinstance(a, SL):
            return a.nil is b.nil and a.cell == b.cell and a.off is b.off and a.len is b.len
        if isinstance(a, IterC):
            return a.s is b.s and a.pos is b.pos and a.k is b.k
        if isinstance(a, BufC):
            return a.s is b.s
        if isinstance(a, MapC):
            return a.dom is b.dom and a.n is b.n and a.pos is b.pos and a.size is b.size and all(x is y for x, y in zip(a.leaves, b.leaves))
        if isinstance(a, OPQ):
            return True
        return False

    def within(self, a, b):
        return And(le(b.off, a.off), le(add(a.off, a.cap), add(b.off, b.cap)), le(ZERO, a.len), le(a.len, a.cap))

    def complete(self, st, v, t, name, fields=None):
        """what the havoc of a loop variable takes for granted: (name, interface value inside has no nil)"""
        ex = self.ex
        if isinstance(v, SV):
            return [y for k, (x, f) in enumerate(zip(v.f, ex.P.fields(v.t))) if fields is None or k in fields for y in self.complete(st, x, f['type'], name + '.' + f['name'])]
        if isinstance(v, ListC):
            return [y for k, x in enumerate(v.e) for y in self.complete(st, x, v.et, '%s.%d' % (name, k))]
        if isinstance(v, IV):
            if t is None:
                t = v.ct
            if v.pay == 'SIGMA' or t == 'SIGMA' or t is None or ex.P.is_storage(t) or not isinstance(t, str):
                return []
            if v.nil is TRUE or v.pay is None:
                return [(name, FALSE)]
            return [(name, And(Not(v.nil), ex.wired(st, v.pay, v.ct)))]
        return []

    def havoc(self, entry, entry_env, phis, mod_mem, mod_sig, mod_cm, head, mod_fields):
        ex = self.ex
        st = entry.copy()
        env = dict(entry_env)
        tag = 'L%d' % head
        for k in sorted(mod_sig):
            v = ex.mode.havoc_sig(ex, st, k, tag)
            st.sig[k] = v
        for n, t in phis:
            env[n] = self.havoc_val(st, entry_env[n], t, '%s.%s' % (tag, n), mod_fields['loose'], n not in mod_fields['moved'])
        for c in sorted(mod_mem):
            st.mem[c] = self.havoc_mem(st, st.mem[c], '%s.m%d' % (tag, c), mod_fields.get(c), ex.ctypes.get(c), mod_fields['loose'])
        for k in mod_cm:
            f = ex.P.fields(k[0])[k[1]]
            st.cm.pop(k, None)
        for k in mod_cm:
            for kk in [x for x in st.cm if x[0] == k[0]]:
                del st.cm[kk]
        return st, env

    def havoc_val(self, st, v, t, name, loose=(), keep=False):
        ex = self.ex
        if isinstance(v, Term):
            nv = fresh(name, v.sort)
            if v.sort == 'Int' and t != 'error':
                st.add(ex.rangefact(t, nv))
            return nv
        if isinstance(v, SV):
            return SV(v.t, [self.havoc_val(st, x, f['type'], name + '.' + f['name'], loose) for x, f in zip(v.f, ex.P.fields(v.t))])
        if isinstance(v, IV):
            if v.pay == 'SIGMA' or ex.P.is_storage(t):
                return IV(fresh(name + '.nil', 'Bool'), 'SIGMA', 'SIGMA')
            ct = ex.P.concrete(t)
            if name not in loose:
                return IV(FALSE, ct, ex.fresh_value(st, ct, name, True))
            r = ex.fresh_value(st, ct, name, False)
            ex.mode.on_loose(st, r)
            return IV(fresh(name + '.nil', 'Bool'), ct, r)
        if isinstance(v, PV):
            if v.base is None or v.base[0] == 'canon':
                e = ex.P.under(t)[1]
                return PV(fresh(name + '.nil', 'Bool'), ('canon', e['elem']))
            raise Unsupported('pointer to local memory changed in a loop')
        if isinstance(v, SL):
            if keep and isinstance(st.mem.get(v.cell), ArrC):
                off, ln, cap = fresh(name + '.off', 'Int'), fresh(name + '.len', 'Int'), fresh(name + '.cap', 'Int')
                r = SL(fresh(name + '.nil', 'Bool'), v.cell, off, ln, cap, v.et)
                st.add(self.within(r, v))
                return r
            s = ex.fresh_slice(st, v.et, name, False)
            if isinstance(s, OPQ):
                return s
            st.app.discard(s.cell)
            return s
        if isinstance(v, OPQ):
            return v
        raise Unsupported('loop variable of kind %s' % type(v).__name__)

    def havoc_mem(self, st, v, name, fields=None, t=None, loose=()):
        ex = self.ex
        if isinstance(v, ArrC):
            return ArrC(v.et, [fresh('%s.arr%d' % (name, i), a.sort) for i, a in enumerate(v.leaves)])
        if isinstance(v, IterC):
            return IterC(v.s, fresh(name + '.pos', 'Int'), fresh(name + '.count', 'Int'))
        if isinstance(v, BufC):
            return BufC(fresh(name + '.buf', 'Str'))
        if isinstance(v, MapC):
            n, size = fresh(name + '.updates', 'Int'), fresh(name + '.size', 'Int')
            st.add(le(ZERO, size))
            st.add(le(size, n))
            return MapC(v.kt, v.vt, fresh(name + '.dom', v.dom.sort), [fresh('%s.val%d' % (name, i), a.sort) for i, a in enumerate(v.leaves)], fresh(name + '.pos', v.pos.sort), n, size)
        if isinstance(v, ListC):
            return ListC(v.et, [self.havoc_val(st, x, v.et, '%s.%d' % (name, i), loose) for i, x in enumerate(v.e)])
        if isinstance(v, SV):
            fs = ex.P.fields(v.t)
            return SV(v.t, [self.havoc_val(st, x, fs[k]['type'], name + '.' + fs[k]['name'], loose) if fields is None or k in fields else x for k, x in enumerate(v.f)])
        if t is not None and isinstance(v, (Term, IV)):
            return self.havoc_val(st, v, t, name, loose)
        if isinstance(v, Term):
            return fresh(name, v.sort)
        if isinstance(v, IV):
            if v.ct == 'SIGMA':
                return IV(fresh(name + '.nil', 'Bool'), 'SIGMA', 'SIGMA')
            if v.ct is None:
                raise Unsupported('nil interface variable in loop memory')
            return IV(fresh(name + '.nil', 'Bool') if name in loose else FALSE, v.ct, ex.fresh_value(st, v.ct, name, name not in loose))
        if isinstance(v, SL):
            return self.havoc_val(st, v, None, name)
        if isinstance(v, OPQ):
            return v
        raise Unsupported('loop memory of kind %s' % type(v).__name__)

    # -------------------------------------------- instructions
    def val(self, st, env, v):
        ex = self.ex
        if v is None:
            return None
        k = v['k']
        if k == 'v':
            if v['n'] not in env:
                raise Unsupported('undefined value ' + v['n'])
            return env[v['n']]
        if k == 'const':
            t = v['t']
            if v.get('nil'):
                return ex.zero(st, t)
            x = v['v']
            if isinstance(x, bool):
                return B(x)
            if v.get('str'):
                return S(bytes(x))
            if v.get('int'):
                if ex.sortof(t) == 'Int':
                    return I(int(x))
            return OPQ('const')
        if k == 'func':
            return FN(v['n'])
        if k == 'builtin':
            return FN('builtin ' + v['n'])
        if k == 'global':
            return OPQ('global ' + v['n'])
        raise Unsupported('value ' + k)

    def nonnil(self, st, nil, what):
        if nil is FALSE:
            return
        self.ex.oblige(st, 'no-nil', Not(nil), ['C05'], 'no nil dereference: ' + what)
        st.add(Not(nil))

    def step(self, st, env, i):
        ex = self.ex
        op = i['op']
        V_ = lambda x: self.val(st, env, x)
        if op == 'alloc':
            t = ex.P.elem(i['t'])
            c = ex.newcell()
            st.mem[c] = ex.zero(st, t)
            ex.ctypes[c] = t
            return PV(FALSE, ('cell', c))
        if op == 'fieldaddr':
            p = V_(i['x'])
            if isinstance(p, OPQ):
                return OPQ('field')
            self.nonnil(st, p.nil, 'field access')
            return PV(FALSE, p.base, p.path + (i['i'],))
        if op == 'field':
            v = V_(i['x'])
            if isinstance(v, OPQ):
                return OPQ('field')
            return v.f[i['i']]
        if op == 'unop':
            x = V_(i['x'])
            o = i['o']
            if o == 'load':
                if isinstance(x, OPQ):
                    if x.what.startswith('global'):
                        return ex.fresh_value(st, i['t'], 'global', False)
                    return OPQ('load')
                self.nonnil(st, x.nil, 'load')
                return ex.load(st, x, i['t'])
            if o == '!':
                return Not(x)
            if o == '-':
                return ex.mode.arith(ex, st, neg(x), i['t'])
            raise Unsupported('unary ' + o)
        if op == 'store':
            p, x = V_(i['addr']), V_(i['val'])
            if isinstance(p, OPQ):
                raise Unsupported('store through unknown pointer')
            self.nonnil(st, p.nil, 'store')
            if p.base and p.base[0] == 'cell' and p.base[1] in st.app and p.path and isinstance(p.path[0], tuple):
                raise Unsupported('write to a slice whose backing array may be shared')
            ex.store_at(st, p, x)
            return None
        if op == 'binop':
            return self.binop(st, i, V_(i['x']), V_(i['y']))
        if op == 'extract':
            x = V_(i['x'])
            if isinstance(x, OPQ):
                return OPQ('tuple')
            return x[i['i']]
        if op in ('changetype', 'changeiface'):
            return V_(i['x'])
        if op == 'makeiface':
            x = V_(i['x'])
            e = ex.P.under(i['t'])[1]
            if i['t'] == 'error':
                return fresh_err('err')
            if not e.get('ms'):
                return IV(FALSE, i['x']['t'], x)
            if isinstance(x, IV):
                return x
            return IV(FALSE, i['x']['t'], x)
        if op == 'makeclosure':
            f = V_(i['fn'])
            return FN(f.name, [V_(a) for a in i['args']])
        if op == 'makeslice':
            ln, cap = V_(i['len']), V_(i['cap'])
            et = ex.P.elem(i['t'])
            ex.oblige(st, 'no-panic', And(le(ZERO, ln), le(ln, cap)), ['C05'], 'makeslice: length is not negative')
            st.add(le(ZERO, ln))
            st.add(le(ln, cap))
            c = ex.newcell()
            leaves = [constarr(asort('Int', s), ex.dummy(s) if not (s == 'Bool' and ex.sortof(et) is None) else TRUE) for s in ex.leafsorts(et)]
            st.mem[c] = ArrC(et, leaves)
            return SL(FALSE, c, ZERO, ln, cap, et)
        if op == 'indexaddr':
            x, k = V_(i['x']), V_(i['y'])
            if isinstance(x, SL):
                self.bounds(st, k, x.len, 'index')
                return PV(FALSE, ('cell', x.cell), (('i', add(x.off, k)),))
            if isinstance(x, PV):
                self.nonnil(st, x.nil, 'array access')
                n = ex.P.T(ex.P.under(ex.P.elem(i['x']['t']))[0])['len']
                self.bounds(st, k, I(n), 'index')
                return PV(FALSE, x.base, x.path + (('i', k),))
            raise Unsupported('indexaddr of %s' % type(x).__name__)
        if op == 'index':
            x, k = V_(i['x']), V_(i['y'])
            if isinstance(x, Term) and x.sort == 'Str':
                self.bounds(st, k, slen(x), 'string index')
                return self.strbyte(st, x, k)
            if isinstance(x, ListC):
                self.bounds(st, k, I(len(x.e)), 'index')
                return ex.getidx(x, k)
            raise Unsupported('index')
        if op == 'lookup':
            x, k = V_(i['x']), V_(i['y'])
            if isinstance(x, Term) and x.sort == 'Str':
                self.bounds(st, k, slen(x), 'string index')
                return self.strbyte(st, x, k)
            m = self.themap(st, x)
            there = sel(m.dom, k)
            v = ex.unflatten(m.vt, iter([ite(there, sel(a, k), d) for a, d in zip(m.leaves, ex.flatten(ex.zero(st, m.vt), m.vt))]))
            return [v, there] if i.get('commaok') else v
        if op == 'makemap':
            e = ex.P.under(i['t'])[1]
            ks = ex.sortof(e['key'])
            if ks is None:
                raise Unsupported('map with keys of type ' + e['key'])
            zs = ex.flatten(ex.zero(st, e['elem']), e['elem'])
            c = ex.newcell()
            st.mem[c] = MapC(e['key'], e['elem'], constarr(asort(ks, 'Bool'), FALSE), [constarr(asort(ks, z.sort), z) for z in zs], constarr(asort(ks, 'Int'), ZERO), ZERO, ZERO)
            return PV(FALSE, ('cell', c))
        if op == 'mapupdate':
            x, k = V_(i['x']), V_(i['key'])
            m = self.themap(st, x)
            vs = ex.flatten(V_(i['val']), m.vt)
            st.mem[x.base[1]] = MapC(m.kt, m.vt, store(m.dom, k, TRUE), [store(a, k, v) for a, v in zip(m.leaves, vs)], store(m.pos, k, m.n), add(m.n, ONE), ite(sel(m.dom, k), m.size, add(m.size, ONE)))
            return None
        if op == 'slice':
            return self.slice(st, env, i)
        if op == 'convert':
            return ex.mode.convert(ex, st, V_(i['x']), i['x']['t'], i['t'])
        if op == 'range':
            x = V_(i['x'])
            if isinstance(x, Term) and x.sort == 'Str':
                c = ex.newcell()
                st.mem[c] = IterC(x, ZERO, ZERO)
                return PV(FALSE, ('cell', c))
            raise Unsupported('range over map')
        if op == 'next':
            if not i.get('isstr'):
                raise Unsupported('next over map')
            p = V_(i['x'])
            it = st.mem[p.base[1]]
            ok = lt(it.pos, slen(it.s))
            b = F('sbyte', it.s, it.pos)
            r = fresh('rune', 'Int')
            w = fresh('width', 'Int')
            st.add(And(le(ZERO, b), lt(b, I(256))))
            st.add(And(le(ONE, w), le(w, I(4))))
            st.add(Imp(lt(b, I(128)), And(eq(r, b), eq(w, ONE))))
            st.add(Imp(ge(b, I(128)), And(ge(r, I(128)), le(r, I(0x10FFFF)))))
            st.add(Imp(ok, le(add(it.pos, w), slen(it.s))))
            k = it.pos
            ex.mode.on_next(ex, st, it, ok, r)
            st.mem[p.base[1]] = IterC(it.s, ite(ok, add(it.pos, w), it.pos), ite(ok, add(it.k, ONE), it.k))
            return [ok, k, r]
        if op == 'typeassert':
            x = V_(i['x'])
            if isinstance(x, IV) and x.ct == i['at']:
                if i.get('commaok'):
                    return [x.pay, Not(x.nil)]
                self.nonnil(st, x.nil, 'type assertion')
                return x.pay
            raise Unsupported('type assertion')
        raise Unsupported('instruction ' + op)

    def themap(self, st, x):
        if isinstance(x, PV) and x.base and x.base[0] == 'cell' and not x.path and isinstance(st.mem.get(x.base[1]), MapC):
            return st.mem[x.base[1]]
        raise Unsupported('map of unknown origin')

    def strbyte(self, st, x, k):
        if x.op == 'str' and k.op == 'int':
            return I(x.data[k.data]) if 0 <= k.data < len(x.data) else ZERO
        b = F('sbyte', x, k)
        st.add(And(le(ZERO, b), lt(b, I(256))))
        return b

    def bounds(self, st, k, n, what):
        g = And(le(ZERO, k), lt(k, n))
        if g is TRUE:
            return
        self.ex.oblige(st, 'no-bounds', g, ['C05'], what + ' in range')
        st.add(g)

    def slice(self, st, env, i):
        ex = self.ex
        x = self.val(st, env, i['x'])
        lo = self.val(st, env, i['lo']) if i['lo'] else ZERO
        hi = self.val(st, env, i['hi']) if i['hi'] else None
        if isinstance(x, Term) and x.sort == 'Str':
            h = hi if hi is not None else slen(x)
            g = And(le(ZERO, lo), le(lo, h), le(h, slen(x)))
            if g is not TRUE:
                ex.oblige(st, 'no-bounds', g, ['C05'], 'string slice in range')
                st.add(g)
            if lo is ZERO and hi is None:
                return x
            r = F('ssub', x, lo, h)
            st.add(eq(slen(r), sub(h, lo)))
            return r
        if isinstance(x, PV):
            self.nonnil(st, x.nil, 'slice of array')
            if x.path:
                raise Unsupported('slice of an array inside an object')
            c = x.base[1]
            n = len(st.mem[c].e)
            x = SL(FALSE, c, ZERO, I(n), I(n), st.mem[c].et)
        if isinstance(x, SL):
            h = hi if hi is not None else x.len
            g = And(le(ZERO, lo), le(lo, h), le(h, x.cap))
            if g is not TRUE:
                ex.oblige(st, 'no-bounds', g, ['C05'], 'slice in range')
                st.add(g)
            if i.get('max'):
                raise Unsupported('three-index slice')
            return SL(x.nil, x.cell, add(x.off, lo), sub(h, lo), sub(x.cap, lo), x.et)
        raise Unsupported('slice of %s' % type(x).__name__)

    def binop(self, st, i, x, y):
        ex = self.ex
        o = i['o']
        xt = i['x'].get('t', '')
        if o in ('==', '!='):
            r = self.equal(st, x, y)
            return r if o == '==' else Not(r)
        if not (isinstance(x, Term) and isinstance(y, Term)):
            raise Unsupported('operator %s' % o)
        if x.sort == 'Str':
            if o == '+':
                return sconcat(x, y)
            return fresh('strcmp', 'Bool')
        if o == '<':
            return lt(x, y)
        if o == '<=':
            return le(x, y)
        if o == '>':
            return lt(y, x)
        if o == '>=':
            return le(y, x)
        if x.sort == 'Bool':
            if o == '&':
                return And(x, y)
            if o == '|':
                return Or(x, y)
            if o == '^':
                return ne(x, y)
            raise Unsupported('boolean operator ' + o)
        t = i['t']
        if o == '+':
            return ex.mode.arith(ex, st, add(x, y), t)
        if o == '-':
            return ex.mode.arith(ex, st, sub(x, y), t)
        if o == '*':
            return ex.mode.arith(ex, st, mul(x, y), t)
        if o in ('/', '%'):
            if y.op != 'int':
                ex.oblige(st, 'no-panic', ne(y, ZERO), ['C05'], 'divisor is not zero')
                st.add(ne(y, ZERO))
            elif y.data == 0:
                ex.oblige(st, 'no-panic', FALSE, ['C05'], 'divisor is not zero')
            if y.op == 'int' and y.data > 0:
                # Go truncates toward zero
                q = ite(ge(x, ZERO), div(x, y), neg(div(neg(x), y)))
                if o == '/':
                    return q
                return sub(x, mul(q, y))
            r = fresh('quot', 'Int')
            st.add(ex.rangefact(t, r))
            return r
        if o == '<<' and y.op == 'int':
            return ex.mode.arith(ex, st, mul(x, I(2 ** y.data)), t)
        if o == '>>' and y.op == 'int':
            return div(x, I(2 ** y.data))
        if o == '<<' or o == '>>':
            yt = ex.P.under(i['y']['t'])[1].get('name', '')
            if not yt.startswith('u'):
                ex.oblige(st, 'no-panic', ge(y, ZERO), ['C05'], 'shift count is not negative')
                st.add(ge(y, ZERO))
        if o == '&' and y.op == 'int' and (y.data & (y.data + 1)) == 0 and y.data >= 0:
            return mod(x, I(y.data + 1))
        if o == '|' and y.op == 'int' and y.data == 1 and x.op == '*' and x.args[1].op == 'int' and x.args[1].data % 2 == 0:
            return add(x, ONE)
        r = fresh('bitop', 'Int')
        st.add(ex.rangefact(t, r))
        return r

    def equal(self, st, x, y):
        if isinstance(x, Term) and isinstance(y, Term):
            return eq(x, y)
        if isinstance(x, PV) and isinstance(y, PV):
            if y.nil is TRUE:
                return x.nil
            if x.nil is TRUE:
                return y.nil
            if x.base == y.base and x.path == y.path and x.base[0] == 'cell':
                return TRUE
            return fresh('ptreq', 'Bool')
        if isinstance(x, IV) and isinstance(y, IV):
            if y.nil is TRUE:
                return x.nil
            if x.nil is TRUE:
                return y.nil
            return fresh('ifaceeq', 'Bool')
        if isinstance(x, SL) and isinstance(y, SL):
            if y.nil is TRUE:
                return x.nil
            if x.nil is TRUE:
                return y.nil
        if isinstance(x, SV) and isinstance(y, SV):
            return And(*[self.equal(st, a, b) for a, b in zip(x.f, y.f)])
        return fresh('opaqueeq', 'Bool')

    # -------------------------------------------- calls
    def defer(self, st, env, i):
        """a call with its operands as they are now, made when the function returns"""
        d, vals = dict(i), {}

        def keep(a):
            n = '$defer%d.%d' % (len(env.get('$defers', ())), len(vals))
            vals[n] = self.val(st, env, a)
            return dict(a, k='v', n=n)
        d['args'] = [keep(a) for a in i['args']]
        if 'invoke' in i:
            d['recv'] = keep(i['recv'])
            self.nonnil(st, getattr(vals[d['recv']['n']], 'nil', FALSE), 'deferred call')
        elif i['fn'].get('k') == 'v':
            d['fn'] = keep(i['fn'])
        env['$defers'] = env.get('$defers', ()) + ((d, vals),)

    def call(self, st, env, i):
        ex = self.ex
        args = [self.val(st, env, a) for a in i['args']]
        wrap = self.unpack(i)
        if 'invoke' in i:
            recv = self.val(st, env, i['recv'])
            if isinstance(recv, OPQ):
                raise Unsupported('call on unknown value')
            if not isinstance(recv, IV):
                if i['iface'] == 'error' or isinstance(recv, Term):
                    # err.Error()
                    if isinstance(recv, Term) and recv.sort == 'Int':
                        ex.oblige(st, 'no-nil', ne(recv, ZERO), ['C05'], 'no nil dereference: method of a nil error')
                        st.add(ne(recv, ZERO))
                    return [(st, wrap([ex.fresh_value(st, t, 'errtext', False) for t in ex.P.T(i['sig'])['results']]))]
                raise Unsupported('invoke on %s' % type(recv).__name__)
            self.nonnil(st, recv.nil, 'call of %s' % i['invoke'])
            if recv.nil is TRUE or st.dead:
                st.dead = True
                return [(st, None)]
            if ex.P.is_storage(i['iface']) or recv.pay == 'SIGMA':
                return [(s, wrap(r)) for s, r in ex.mode.storage_op(ex, st, i['invoke'], args)]
            fname = ex.P.method_fn(recv.ct, i['invoke'])
            return [(s, wrap(r)) for s, r in self.invoke(st, fname, [recv.pay] + args, True)]
        fn = self.val(st, env, i['fn'])
        if isinstance(fn, OPQ):
            raise Unsupported('call of unknown function')
        name = fn.name
        if name.startswith('builtin '):
            return self.builtin(st, name[8:], args, i, wrap)
        if name in ex.P.funcs and ex.P.funcs[name]['blocks']:
            return [(s, wrap(r)) for s, r in self.invoke(st, name, args, False, fn.binds)]
        return self.external(st, name, args, i, wrap)

    def unpack(self, i):
        rs = self.ex.P.T(i['sig'])['results'] if self.ex.P.T(i['sig'])['kind'] == 'func' else []
        if len(rs) == 1:
            return lambda r: r[0] if isinstance(r, list) else r
        return lambda r: r

    def invoke(self, st, fname, args, boundary, binds=()):
        ex = self.ex
        f = ex.P.funcs.get(fname)
        if f is None:
            raise Unsupported('unknown function ' + fname)
        r = ex.mode.contract(ex, st, fname, args, boundary)
        if r is not None:
            ex.called.add(fname)
            return r
        return ex.run(fname, args, st, binds)

    def builtin(self, st, n, args, i, wrap):
        ex = self.ex
        if n == 'len' or n == 'cap':
            x = args[0]
            if isinstance(x, Term) and x.sort == 'Str':
                st.add(ge(slen(x), ZERO))
                return [(st, slen(x))]
            if isinstance(x, SL):
                ex.mode.on_len(ex, st, x)
                if n == 'cap' and x.cap.op != 'int':
                    c = fresh('cap', 'Int')
                    st.add(ge(c, x.cap))
                    return [(st, c)]
                return [(st, x.len if n == 'len' else x.cap)]
            if isinstance(x, ListC):
                return [(st, I(len(x.e)))]
            if isinstance(x, PV) and n == 'len':
                return [(st, self.themap(st, x).size)]
            raise Unsupported('len of %s' % type(x).__name__)
        if n == 'append':
            a = args[0]
            if len(args) == 1:
                return [(st, a)]
            b = args[1]
            if isinstance(b, Term) and b.sort == 'Str':
                raise Unsupported('append of a string')
            return [(st, self.append(st, a, b))]
        if n == 'copy':
            return [(st, self.copy(st, args[0], args[1]))]
        if n in ('min', 'max') and all(isinstance(a, Term) and a.sort == 'Int' for a in args):
            r = args[0]
            for a in args[1:]:
                r = ite(le(r, a) if n == 'min' else ge(r, a), r, a)
            return [(st, r)]
        if n == 'ssa:wrapnilchk':
            self.nonnil(st, args[0].nil, 'method of an embedded value')
            return [(st, args[0])]
        if n in ('print', 'println'):
            return [(st, None)]
        raise Unsupported('builtin ' + n)

    def to_arr(self, st, sl):
        """contents of a slice as (leaves, offset) arrays"""
        ex = self.ex
        c = st.mem[sl.cell]
        if isinstance(c, ArrC):
            return c.leaves, sl.off
        leaves = []
        sorts = ex.leafsorts(sl.et)
        fl = [ex.flatten(x, c.et) for x in c.e]
        for k, s in enumerate(sorts):
            a = constarr(asort('Int', s), ex.dummy(s))
            for n, x in enumerate(fl):
                a = store(a, I(n), x[k])
            leaves.append(a)
        return leaves, sl.off

    def copy(self, st, a, b):
        """copy(a, b)"""
        ex = self.ex
        if not isinstance(a, SL) or not isinstance(b, SL):
            raise Unsupported('copy')
        n = a.len if a.len is b.len else ite(le(a.len, b.len), a.len, b.len)
        if a.cell not in st.mem or b.cell not in st.mem:
            return n
        if a.cell in st.app or not isinstance(st.mem[a.cell], ArrC):
            raise Unsupported('copy to a slice whose backing array may be shared')
        lb, ob = self.to_arr(st, b)
        la, oa = self.to_arr(st, a)
        new = []
        for l, m in zip(la, lb):
            if a.len is b.len and oa is ZERO and ob is ZERO and a.cap is a.len:
                new.append(m)
                continue
            x = fresh('copy', l.sort)
            j = V('j', 'Int')
            inside = And(le(oa, j), lt(j, add(oa, n)))
            st.add(Forall([j], eq(sel(x, j), ite(inside, sel(m, add(ob, sub(j, oa))), sel(l, j))), [[sel(x, j)]]))
            new.append(x)
        st.mem[a.cell] = ArrC(st.mem[a.cell].et, new)
        return n

    def append(self, st, a, b):
        ex = self.ex
        if isinstance(a, OPQ) or isinstance(b, OPQ):
            return OPQ('append')
        et = a.et
        try:
            ex.leafsorts(et)
        except Unsupported:
            return OPQ('append')
        if b.len is ZERO:
            return a
        if a.cell in st.app and not (a.len is ZERO and a.cap is ZERO):
            raise Unsupported('two appends to one slice')
        leaves, off = self.to_arr(st, a)
        st.app.add(a.cell)
        c = ex.newcell()
        if b.len.op == 'int' and b.len.data <= 16:
            cb = st.mem[b.cell]
            if off is not ZERO:
                shifted = []
                for k, l in enumerate(leaves):
                    n = fresh('shift', l.sort)
                    j = V('j', 'Int')
                    st.add(Forall([j], Imp(And(le(ZERO, j), lt(j, a.len)), eq(sel(n, j), sel(l, add(off, j)))), [[sel(n, j)], [sel(l, add(off, j))]]))
                    shifted.append(n)
                leaves = shifted
            for k in range(b.len.data):
                v = ex.getidx(cb, add(b.off, I(k)))
                fl = ex.flatten(v, et)
                leaves = [store(l, add(a.len, I(k)), x) for l, x in zip(leaves, fl)]
            st.mem[c] = ArrC(et, leaves)
        else:
            lb, ob = self.to_arr(st, b)
            if a.len is ZERO and ob is ZERO:
                # what lies behind the elements is not known: nothing may be read there
                st.mem[c] = ArrC(et, lb)
                return SL(FALSE, c, ZERO, b.len, b.len, et)
            new = []
            for l, m in zip(leaves, lb):
                n = fresh('append', l.sort)
                j = V('j', 'Int')
                st.add(Forall([j], Imp(And(le(ZERO, j), lt(j, a.len)), eq(sel(n, j), sel(l, add(off, j)))), [[sel(n, j)]]))
                st.add(Forall([j], Imp(And(le(a.len, j), lt(j, add(a.len, b.len))), eq(sel(n, j), sel(m, add(ob, sub(j, a.len))))), [[sel(n, j)]]))
                new.append(n)
            st.mem[c] = ArrC(et, new)
        ln = add(a.len, b.len)
        cap = fresh('cap', 'Int')
        st.add(ge(cap, ln))
        return SL(FALSE, c, ZERO, ln, cap, et)

    # -------------------------------------------- external functions
    def formatted(self, st, fmt_, args):
        """the text that the fmt functions make of text operands (verbs %s and %v); None: not known"""
        if not isinstance(args, SL) or args.len.op != 'int':
            return None
        m = st.mem.get(args.cell)
        if args.len is ZERO:
            xs = []
        elif isinstance(m, ListC) and args.off is ZERO:
            xs = m.e[:args.len.data]
        else:
            return None
        xs = [x.pay if isinstance(x, IV) and x.ct in self.ex.P.types and self.ex.P.types[x.ct]['kind'] == 'basic' and self.ex.sortof(x.ct) == 'Str' else None for x in xs]
        if any(x is None for x in xs):
            return None
        if fmt_ is None:
            parts = xs
        else:
            if fmt_.op != 'str':
                return None
            parts, lit, k, d = [], b'', 0, fmt_.data
            while k < len(d):
                if d[k:k + 1] != b'%':
                    lit += d[k:k + 1]
                    k += 1
                elif d[k + 1:k + 2] == b'%':
                    lit += b'%'
                    k += 2
                elif d[k + 1:k + 2] in (b's', b'v') and xs:
                    parts += [S(lit), xs.pop(0)]
                    lit = b''
                    k += 2
                else:
                    return None
            if xs:
                return None
            parts.append(S(lit))
        r = EMPTY
        for x in reversed(parts):
            r = sconcat(x, r)
        self.ex.assumed.add('the fmt functions write text operands as they are for the verbs %s and %v')
        return r

    def external(self, st, name, args, i, wrap):
        ex = self.ex
        rts = ex.P.T(i['sig'])['results']
        if name in ('fmt.Errorf', 'errors.New'):
            return [(st, fresh_err('err'))]
        r = ex.mode.external(ex, st, name, args, rts, i)
        if r is not None:
            return [(s, wrap(x)) for s, x in r]
        if name in ('strconv.FormatInt', 'strconv.FormatUint', 'strconv.Itoa'):
            x = fresh('digits', 'Str')
            st.add(ge(slen(x), ONE))
            ex.assumed.add('strconv writes numbers as texts that are not empty')
            return [(st, wrap([x]))]
        if name in ('fmt.Sprintf', 'fmt.Sprint', 'fmt.Fprintf', 'fmt.Fprint', 'io.WriteString'):
            a = list(args)
            w = a.pop(0) if name != 'fmt.Sprintf' and name != 'fmt.Sprint' else None
            x = a[0] if name == 'io.WriteString' else self.formatted(st, a[0] if name.endswith('f') else None, a[-1])
            if x is not None and w is None:
                return [(st, wrap([x]))]
            if x is not None and isinstance(w, IV) and w.ct in ('*bytes.Buffer', '*strings.Builder') and isinstance(w.pay, PV):
                p = w.pay
                if p.base and p.base[0] == 'cell':
                    b = ex.getpath(st.mem[p.base[1]], p.path)
                    if isinstance(b, BufC):
                        self.nonnil(st, p.nil, 'buffer')
                        ex.store_at(st, p, BufC(sconcat(b.s, x)))
                        return [(st, wrap([slen(x), ZERO]))]
        if name.startswith('(*bytes.Buffer).') or name.startswith('(*strings.Builder).'):
            m = name.split('.')[-1]
            p = args[0]
            self.nonnil(st, p.nil, 'buffer')
            if p.base and p.base[0] == 'cell':
                b = ex.getpath(st.mem[p.base[1]], p.path)
                if isinstance(b, BufC):
                    if m == 'WriteString':
                        ex.store_at(st, p, BufC(sconcat(b.s, args[1])))
                        return [(st, wrap([slen(args[1]), ZERO]))]
                    if m == 'WriteByte' and args[1].op == 'int':
                        ex.store_at(st, p, BufC(sconcat(b.s, S(bytes([args[1].data])))))
                        return [(st, wrap([ZERO]))]
                    if m == 'WriteRune' and args[1].op == 'int':
                        ex.store_at(st, p, BufC(sconcat(b.s, S(chr(args[1].data).encode()))))
                        return [(st, wrap([ONE, ZERO]))]
                    if m == 'String':
                        return [(st, wrap([b.s]))]
                    if m == 'Len':
                        return [(st, wrap([slen(b.s)]))]
                    if m == 'Reset':
                        ex.store_at(st, p, BufC(EMPTY))
                        return [(st, wrap([]))]
                    if m == 'Grow':
                        return [(st, wrap([]))]
                    if rts:
                        ex.store_at(st, p, BufC(fresh('buf', 'Str')))
        ex.assumed.add('external function %s does not panic and does not reach the storage' % name)
        for a in args:
            if isinstance(a, FN):
                raise Unsupported('function value given to ' + name)
            if isinstance(a, IV) and a.pay == 'SIGMA':
                raise Unsupported('storage given to ' + name)
            if isinstance(a, SL) and a.cell in st.mem and not name.startswith('fmt.'):
                st.mem[a.cell] = self.havoc_mem(st, st.mem[a.cell], 'ext')
            if isinstance(a, PV) and a.base and a.base[0] == 'cell' and not name.startswith('fmt.'):
                if isinstance(st.mem.get(a.base[1]), SV):
                    st.mem[a.base[1]] = self.havoc_mem(st, st.mem[a.base[1]], 'ext')
        return [(st, wrap([ex.fresh_value(st, t, 'ext', False) for t in rts]))]
