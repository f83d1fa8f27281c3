"""Hash-consed SMT terms with light simplification, and SMT-LIB printing."""

_tab = {}
_cnt = [0]


class Term:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)


def _mk(op, args, sort, data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        _cnt[0] += 1
        t.id = _cnt[0]
        fv = frozenset()
        if op == 'var':
            fv = frozenset([data])
        else:
            for a in args:
                if a.fv:
                    fv = fv | a.fv
            if op in ('forall', 'exists'):
                fv = fv - frozenset(v for v, _ in data[0])
        t.fv = fv
        _tab[key] = t
    return t


def asort(dom, rng):
    return '(Array %s %s)' % (dom, rng)


_sortparts = {}


def sort_range(s):
    r = _sortparts.get(s)
    if r is not None:
        return r
    # "(Array D R)"
    body = s[len('(Array '):-1]
    depth = 0
    for i, c in enumerate(body):
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        elif c == ' ' and depth == 0:
            r = body[i + 1:]
            _sortparts[s] = r
            return r
    raise ValueError(s)


def sort_dom(s):
    r = sort_range(s)
    return s[len('(Array '):-1 - len(r) - 1]


TRUE = _mk('bool', (), 'Bool', True)
FALSE = _mk('bool', (), 'Bool', False)


def B(b):
    return TRUE if b else FALSE


def I(n):
    return _mk('int', (), 'Int', int(n))


ZERO, ONE = I(0), I(1)


def C(name, sort):
    return _mk('const', (), sort, name)


def V(name, sort):
    return _mk('var', (), sort, name)


_fresh = {}


def reset_fresh():
    _fresh.clear()


NONZERO = set()


def fresh(name, sort):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return C('%s!%d' % (name, n), sort)


def fresh_err(name='err'):
    t = fresh(name, 'Int')
    NONZERO.add(t.id)
    return t


FUNS = {}


def declare(name, args, res):
    FUNS[name] = (tuple(args), res)


def F(name, *args):
    a, r = FUNS[name]
    for x, s in zip(args, a):
        assert x.sort == s, (name, x, x.sort, s)
    assert len(args) == len(a), name
    return _mk('app', args, r, name)


# datatype lists: constructors and selectors are simplified
LISTS = {'BL': 'Bool', 'RL': 'Int', 'PL': 'Str'}


def nil(ls):
    return _mk('app', (), ls, ls + '_nil')


def snoc(l, e):
    return _mk('app', (l, e), l.sort, l.sort + '_snoc')


def linit(l):
    if l.op == 'app' and l.data == l.sort + '_snoc':
        return l.args[0]
    return _mk('app', (l,), l.sort, l.sort + '_init')


def llast(l):
    if l.op == 'app' and l.data == l.sort + '_snoc':
        return l.args[1]
    return _mk('app', (l,), LISTS[l.sort], l.sort + '_last')


def isnil(l):
    if l.op == 'app' and l.data == l.sort + '_snoc':
        return FALSE
    return eq(l, nil(l.sort))


def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'Bool')


def And(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st.extend(reversed(x))
            continue
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', out, 'Bool')


def Or(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st.extend(reversed(x))
            continue
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', out, 'Bool')


def Imp(a, b):
    if a is TRUE:
        return b
    if a is FALSE or b is TRUE:
        return TRUE
    if b is FALSE:
        return Not(a)
    if a is b:
        return TRUE
    return _mk('=>', (a, b), 'Bool')


def Iff(a, b):
    return eq(a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'Bool':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return Not(c)
    return _mk('ite', (c, a, b), a.sort)


def eq(a, b):
    assert a.sort == b.sort, (a, b, a.sort, b.sort)
    if a is b:
        return TRUE
    if a.sort == 'Bool':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
    if a.op == 'int' and b.op == 'int':
        return B(a.data == b.data)
    if a.op == 'str' and b.op == 'str':
        return B(a.data == b.data)
    if a is ZERO and b.id in NONZERO or b is ZERO and a.id in NONZERO:
        return FALSE
    if a.sort in LISTS:
        ca, cb = a.op == 'app' and a.data, b.op == 'app' and b.data
        s, n = a.sort + '_snoc', a.sort + '_nil'
        if (ca == s and cb == n) or (ca == n and cb == s):
            return FALSE
        if ca == s and cb == s:
            return And(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
    if a.op == 'ite' and b.op in ('int', 'bool'):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and a.op in ('int', 'bool'):
        return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
    # linear: (x + c) = (x + d)
    if a.sort == 'Int':
        ba, ka = _lin(a)
        bb, kb = _lin(b)
        if ba is bb and ba is not None:
            return B(ka == kb)
    if a.id > b.id:
        a, b = b, a
    return _mk('=', (a, b), 'Bool')


def ne(a, b):
    return Not(eq(a, b))


def _lin(t):
    """t as base + constant"""
    if t.op == 'int':
        return None, t.data
    if t.op == '+' and len(t.args) == 2 and t.args[1].op == 'int':
        return t.args[0], t.args[1].data
    return t, 0


def add(a, b):
    if a.op == 'int' and b.op != 'int':
        a, b = b, a
    if b.op == 'int':
        base, k = _lin(a)
        k += b.data
        if base is None:
            return I(k)
        if k == 0:
            return base
        return _mk('+', (base, I(k)), 'Int')
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ka or kb:
        return add(_mk('+', (ba, bb), 'Int'), I(ka + kb))
    return _mk('+', (a, b), 'Int')


def neg(a):
    if a.op == 'int':
        return I(-a.data)
    return _mk('-', (a,), 'Int')


def sub(a, b):
    if b.op == 'int':
        return add(a, I(-b.data))
    if a is b:
        return ZERO
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ba is bb:
        return I(ka - kb)
    if ka or kb:
        return add(sub(ba if ba is not None else ZERO, bb), I(ka - kb))
    return _mk('-', (a, b), 'Int')


def mul(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.data * b.data)
    if a.op == 'int':
        a, b = b, a
    if b.op == 'int':
        if b.data == 0:
            return ZERO
        if b.data == 1:
            return a
    return _mk('*', (a, b), 'Int')


def div(a, b):
    if a.op == 'int' and b.op == 'int' and b.data > 0:
        return I(a.data // b.data)
    return _mk('div', (a, b), 'Int')


def mod(a, b):
    if a.op == 'int' and b.op == 'int' and b.data > 0:
        return I(a.data % b.data)
    return _mk('mod', (a, b), 'Int')


def le(a, b):
    if a is b:
        return TRUE
    if a.op == 'int' and b.op == 'int':
        return B(a.data <= b.data)
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ba is bb:
        return B(ka <= kb)
    return _mk('<=', (a, b), 'Bool')


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'int' and b.op == 'int':
        return B(a.data < b.data)
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ba is bb:
        return B(ka < kb)
    return _mk('<', (a, b), 'Bool')


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def distinct_known(i, j):
    if i.op == 'int' and j.op == 'int':
        return i.data != j.data
    bi, ki = _lin(i)
    bj, kj = _lin(j)
    if bi is bj and bi is not None:
        return ki != kj
    # two identifiers handed out by the storage on one path
    if i.op == 'const' and j.op == 'const' and i.data.startswith('node!') and j.data.startswith('node!'):
        return i is not j
    return False


def sel(a, i):
    while a.op == 'store':
        if a.args[1] is i:
            return a.args[2]
        if distinct_known(a.args[1], i):
            a = a.args[0]
            continue
        break
    if a.op == 'constarr':
        return a.args[0]
    return _mk('select', (a, i), sort_range(a.sort))


def store(a, i, v):
    if a.op == 'store' and a.args[1] is i:
        a = a.args[0]
    if v.op == 'select' and v.args[0] is a and v.args[1] is i:
        return a
    assert sort_range(a.sort) == v.sort, (a.sort, v.sort)
    return _mk('store', (a, i, v), a.sort)


def constarr(sort, v):
    return _mk('constarr', (v,), sort)


STRLITS = {}


def S(bs):
    """string literal (bytes)"""
    bs = bytes(bs)
    return _mk('str', (), 'Str', bs)


def Forall(vs, body, pats=None):
    """vs: list of var Terms; pats: list of lists of terms"""
    if body is TRUE or body is FALSE:
        return body
    used = [v for v in vs if v.data in body.fv]
    if not used:
        return body
    ps = []
    for p in (pats or []):
        p = [x for x in p if x.fv]
        if p and all(x.op in ('select', 'app', 'store', '=') for x in p) and set(v.data for v in used) <= set().union(*[x.fv for x in p]):
            ps.append(tuple(p))
    flat = [x for p in ps for x in p]
    data = (tuple((v.data, v.sort) for v in used), tuple(len(p) for p in ps))
    return _mk('forall', (body,) + tuple(flat), 'Bool', data)


def substitute(t, m, memo=None):
    """m: dict var name -> Term"""
    if memo is None:
        memo = {}
    if not t.fv or not any(k in t.fv for k in m):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'var':
        r = m.get(t.data, t)
    elif t.op in ('forall', 'exists'):
        m2 = {k: v for k, v in m.items() if k not in dict(t.data[0])}
        args = [substitute(a, m2, {}) for a in t.args]
        body, flat = args[0], args[1:]
        pats, i = [], 0
        for n in t.data[1]:
            pats.append(flat[i:i + n])
            i += n
        r = Forall([V(n, s) for n, s in t.data[0]], body, pats)
    else:
        r = rebuild(t, [substitute(a, m, memo) for a in t.args])
    memo[t.id] = r
    return r


def rebuild(t, a):
    op = t.op
    if op == 'not':
        return Not(a[0])
    if op == 'and':
        return And(*a)
    if op == 'or':
        return Or(*a)
    if op == '=>':
        return Imp(*a)
    if op == '=':
        return eq(*a)
    if op == 'ite':
        return ite(*a)
    if op == '+':
        return add(*a)
    if op == '-':
        return sub(*a) if len(a) == 2 else neg(a[0])
    if op == '*':
        return mul(*a)
    if op == '<=':
        return le(*a)
    if op == '<':
        return lt(*a)
    if op == 'select':
        return sel(*a)
    if op == 'store':
        return store(*a)
    if op == 'app':
        n = t.data
        if n.endswith('_init'):
            return linit(a[0])
        if n.endswith('_last') and n[:2] in LISTS:
            return llast(a[0])
    return _mk(op, a, t.sort, t.data)


# ---------------------------------------------------------------- printing

def sym(n):
    return '|%s|' % n


def show(t, depth=12):
    if depth == 0:
        return '...'
    if t.op == 'int':
        return str(t.data)
    if t.op == 'bool':
        return 'true' if t.data else 'false'
    if t.op in ('const', 'var'):
        return t.data
    if t.op == 'str':
        return repr(t.data)
    if t.op == 'app':
        if not t.args:
            return t.data
        return '(%s %s)' % (t.data, ' '.join(show(a, depth - 1) for a in t.args))
    if t.op in ('forall', 'exists'):
        return '(%s (%s) %s)' % (t.op, ' '.join(v for v, _ in t.data[0]), show(t.args[0], depth - 1))
    if t.op == 'select':
        return '%s[%s]' % (show(t.args[0], depth - 1), show(t.args[1], depth - 1))
    return '(%s %s)' % (t.op, ' '.join(show(a, depth - 1) for a in t.args))


class Printer:
    """prints a set of assertions with shared ground subterms defined once"""

    def __init__(self):
        self.consts = {}
        self.funs = set()
        self.strs = {}
        self.count = {}
        self.defs = []
        self.names = {}
        self.sorts = set()

    def scan(self, t):
        st = [t]
        while st:
            x = st.pop()
            c = self.count.get(x.id, 0)
            self.count[x.id] = c + 1
            if c:
                continue
            if x.op == 'const':
                self.consts[x.data] = x.sort
            elif x.op == 'app':
                if x.data in FUNS:
                    self.funs.add(x.data)
            elif x.op == 'str':
                self.strs.setdefault(x.data, x)
            st.extend(x.args)

    def p(self, t):
        n = self.names.get(t.id)
        if n is not None:
            return n
        op = t.op
        if op == 'int':
            s = str(t.data) if t.data >= 0 else '(- %d)' % -t.data
        elif op == 'bool':
            s = 'true' if t.data else 'false'
        elif op in ('const', 'var'):
            s = sym(t.data)
        elif op == 'str':
            s = sym('str:' + t.data.hex())
        elif op == 'app':
            s = t.data if not t.args else '(%s %s)' % (t.data, ' '.join(self.p(a) for a in t.args))
        elif op == 'constarr':
            s = '((as const %s) %s)' % (t.sort, self.p(t.args[0]))
        elif op in ('forall', 'exists'):
            vs = ' '.join('(%s %s)' % (sym(n), so) for n, so in t.data[0])
            body = self.p(t.args[0])
            flat = t.args[1:]
            ps, i = '', 0
            for k in t.data[1]:
                ps += ' :pattern (%s)' % ' '.join(self.p(x) for x in flat[i:i + k])
                i += k
            s = '(%s (%s) %s)' % (op, vs, '(! %s%s)' % (body, ps) if ps else body)
        else:
            s = '(%s %s)' % (op, ' '.join(self.p(a) for a in t.args))
        if not t.fv and t.args and self.count.get(t.id, 0) > 1 and len(s) > 24 and t.sort != 'Bool':
            n = 's!%d' % len(self.defs)
            self.defs.append('(define-fun %s () %s %s)' % (n, t.sort, s))
            self.names[t.id] = n
            return n
        if not t.fv:
            self.names[t.id] = s
        return s


def occurs_funs(ts):
    seen, out = set(), set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'app':
            out.add(x.data)
        st.extend(x.args)
    return out
