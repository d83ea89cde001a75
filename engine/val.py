"""Symbolic values: trees whose leaves are z3 terms (arity 0) or index-closures (arity >= 1).

A container is a node whose element subtree is lifted by one arity, so that structs of arrays of
structs are uniformly handled; an array update is a python closure building If-terms over
uninterpreted base functions, hence the queries need no array theory."""
import z3
from ast_ import Unsupported


class L:
    """leaf of arity >= 1"""
    __slots__ = ('ar', 'fn', 'cache')

    def __init__(self, ar, fn):
        self.ar = ar
        self.fn = fn
        self.cache = {}

    def __call__(self, *idx):
        key = tuple(i.get_id() for i in idx)
        r = self.cache.get(key)
        if r is None:
            v = self.fn(*idx)
            r = (idx, v)            # keep idx alive so that ids are not reused
            self.cache[key] = r
        return r[1]


def is_leaf(x):
    return isinstance(x, L) or z3.is_expr(x)


def arity(x):
    return x.ar if isinstance(x, L) else 0


def app(leaf, *idx):
    """apply to a (possibly partial) index tuple"""
    if not idx:
        return leaf
    if not isinstance(leaf, L):
        raise Unsupported('index applied to scalar leaf')
    if len(idx) == leaf.ar:
        return leaf(*idx)
    return L(leaf.ar - len(idx), lambda *r: leaf(*(idx + r)))


def is_true(c):
    return z3.is_true(c)


def is_false(c):
    return z3.is_false(c)


def num(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def Eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return z3.BoolVal(na == nb)
    if z3.is_fp(a):
        return z3.fpEQ(a, b)
    return a == b


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = And(*c)
        if is_true(c):
            continue
        if is_false(c):
            return c
        out.append(c)
    if not out:
        return z3.BoolVal(True)
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if is_false(c):
            continue
        if is_true(c):
            return c
        out.append(c)
    if not out:
        return z3.BoolVal(False)
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(c):
    if is_true(c):
        return z3.BoolVal(False)
    if is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def Implies(a, b):
    if is_true(a) or is_true(b):
        return b
    if is_false(a):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return Not(c)
    return z3.If(c, a, b)


def lite(c, a, b):
    """leaf if-then-else"""
    if a is b or is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, L) or isinstance(b, L):
        if not (isinstance(a, L) and isinstance(b, L)):
            raise Unsupported('merge of different arities')
        if a.ar != b.ar:
            raise Unsupported('merge of different arities')
        return L(a.ar, lambda *i: If(c, a(*i), b(*i)))
    return If(c, a, b)


def lstore(leaf, idx, v):
    """leaf with the (partial) index tuple idx mapped to v"""
    k = len(idx)
    if k == 0:
        return v
    if isinstance(v, L):
        return L(leaf.ar, lambda *r: If(And(*[Eq(r[j], idx[j]) for j in range(k)]), v(*r[k:]), leaf(*r)))
    return L(leaf.ar, lambda *r: If(And(*[Eq(r[j], idx[j]) for j in range(k)]), v, leaf(*r)))


class Node:
    __slots__ = ('kind', 'static', 'kids')

    def __init__(self, kind, static, kids):
        self.kind = kind
        self.static = static
        self.kids = kids

    def __repr__(self):
        return 'Node(%s,%s,%s)' % (self.kind, self.static, list(self.kids))

    def map(self, f):
        return Node(self.kind, self.static,
                    {k: (v.map(f) if isinstance(v, Node) else f(v)) for k, v in self.kids.items()})

    def leaves(self, path=()):
        for k, v in self.kids.items():
            if isinstance(v, Node):
                yield from v.leaves(path + (k,))
            else:
                yield path + (k,), v

    def get(self, *path):
        v = self
        for p in path:
            v = v.kids[p]
        return v

    def put(self, path, leaf):
        if len(path) == 1:
            k = dict(self.kids)
            k[path[0]] = leaf
            return Node(self.kind, self.static, k)
        k = dict(self.kids)
        k[path[0]] = k[path[0]].put(path[1:], leaf)
        return Node(self.kind, self.static, k)


ANY = Node('any', None, {})


def lift(node, n=1):
    def f(leaf):
        a = arity(leaf)
        if a == 0:
            return L(n, lambda *i: leaf)
        return L(a + n, lambda *i: leaf(*i[n:]))
    return node.map(f)


def select(node, *idx):
    return node.map(lambda leaf: app(leaf, *idx))


FUNCS = []                                   # function values that were stored in arrays or merged: their numbers are the places here


def fn_id(v):
    """the function value as a number"""
    if v.static[0] == 'id':
        return v
    if v.kids:
        raise Unsupported('array of function objects with state')
    for k, s in enumerate(FUNCS):
        if s == v.static:
            break
    else:
        k = len(FUNCS)
        FUNCS.append(v.static)
    return Node('fn', ('id',), {'id': z3.IntVal(k)})


def same_shape(a, b):
    return a.kind == b.kind and a.static == b.static and list(a.kids) == list(b.kids)


def merge(c, a, b):
    if a is b:
        return a
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.kind == 'any':
        return b
    if b.kind == 'any':
        return a
    if a.kind == 'fn' and b.kind == 'fn' and a.static != b.static:
        a, b = fn_id(a), fn_id(b)
    if a.kind == 'ptr' and b.kind == 'ptr' and a.static != b.static:
        # a null constant merges with anything
        if a.static is None:
            return b.put(('null',), lite(c, a.kids['null'], b.kids['null']))
        if b.static is None:
            return a.put(('null',), lite(c, a.kids['null'], b.kids['null']))
        raise Unsupported('merge of pointers into different objects %s %s' % (a.static, b.static))
    if a.kind == 'arr' and b.kind == 'arr' and a.kids['el'].kind != b.kids['el'].kind:
        if a.kids['el'].kind == 'any':
            a = Node('arr', b.static, dict(b.kids, n=a.kids['n']))
        elif b.kids['el'].kind == 'any':
            b = Node('arr', a.static, dict(a.kids, n=b.kids['n']))
    if not same_shape(a, b):
        raise Unsupported('merge of different shapes %s/%s' % (a, b))
    kids = {}
    changed = False
    for k, v in a.kids.items():
        w = b.kids[k]
        if v is w:
            kids[k] = v
            continue
        r = merge(c, v, w) if isinstance(v, Node) else lite(c, v, w)
        kids[k] = r
        changed = changed or (r is not v)
    if not changed:
        return a
    return Node(a.kind, a.static, kids)


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def f(self, name):
        return Loc(self.root, self.path + (('f', name),))

    def i(self, idx):
        return Loc(self.root, self.path + (('i', idx),))

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)


def ptr_of(loc, null=None):
    kids = {}
    spec = []
    for kind, x in loc.path:
        if kind == 'f':
            spec.append(('f', x))
        else:
            kids['i%d' % len(kids)] = x
            spec.append(('i',))
    kids['null'] = null if null is not None else z3.BoolVal(False)
    return Node('ptr', (loc.root, tuple(spec)), kids)


def loc_of(ptr):
    if ptr.kind != 'ptr':
        raise Unsupported('dereference of ' + ptr.kind)
    if ptr.static is None:
        raise Unsupported('dereference of null')
    root, spec = ptr.static
    path = []
    j = 0
    for s in spec:
        if s[0] == 'f':
            path.append(s)
        else:
            path.append(('i', ptr.kids['i%d' % j]))
            j += 1
    return Loc(root, tuple(path))


NULLP = Node('ptr', None, {'null': z3.BoolVal(True)})


def sc(e):
    return Node('sc', None, {'e': e})


class View:
    """writable view of an array-like location: element k of the view is element fwd(k) of base"""
    __slots__ = ('base', 'n', 'rows', 'cols', 'fwd', 'inv')

    def __init__(self, base, n, rows, cols, fwd, inv):
        self.base, self.n, self.rows, self.cols, self.fwd, self.inv = base, n, rows, cols, fwd, inv


def descend(node, path):
    """(node at path still lifted, accumulated index tuple)"""
    idx = ()
    for kind, x in path:
        if kind == 'f':
            if node.kind == 'any':
                return ANY, idx
            if x not in node.kids:
                raise Unsupported('no field %s in %s' % (x, node))
            node = node.kids[x]
        else:
            if node.kind in ('arr', 'lst'):
                node = node.kids['el']
                idx = idx + (x,)
            elif node.kind == 'any':
                return ANY, idx
            else:
                raise Unsupported('index into ' + node.kind)
    return node, idx


def adopt(val, nidx, fresh):
    """shape of val lifted nidx times with arbitrary content (for so far untyped storage)"""
    def f(leaf):
        return fresh(leaf, nidx)
    return val.map(f)


def update(node, path, val, idx, fresh):
    """node with the value at path replaced; leaves not written keep their identity"""
    if not path:
        if not idx:
            return val
        if val.kind == 'fn' and (node.kind == 'any' or node.kind == 'fn' and node.static[0] == 'id'):
            val = fn_id(val)
        if node.kind == 'any' and val.kind != 'any':
            node = adopt(val, len(idx), fresh)
        if val.kind == 'any':
            return node
        return _store(node, idx, val, fresh)
    kind, x = path[0]
    kids = dict(node.kids)
    if kind == 'f':
        if x not in kids:
            raise Unsupported('write to missing field ' + str(x))
        if not isinstance(kids[x], Node):
            kids[x] = lstore(kids[x], idx, val)
            return Node(node.kind, node.static, kids)
        kids[x] = update(kids[x], path[1:], val, idx, fresh)
    else:
        if node.kind not in ('arr', 'lst'):
            raise Unsupported('indexed write into ' + node.kind)
        kids['el'] = update(kids['el'], path[1:], val, idx + (x,), fresh)
    return Node(node.kind, node.static, kids)


def _store(node, idx, val, fresh):
    if val.kind == 'fn':
        if node.kind not in ('any', 'fn') or node.kind == 'fn' and node.static[0] != 'id' and node.static != val.static:
            raise Unsupported('store of a function value over %s' % node)
        if node.kind == 'any' or node.static[0] == 'id':
            val = fn_id(val)
    if node.kind == 'any':
        node = adopt(val, len(idx), fresh)
    if node.kind == 'ptr' and val.kind == 'ptr' and node.static != val.static:
        if val.static is None:
            return node.put(('null',), lstore(node.kids['null'], idx, val.kids['null']))
        if node.static is None:
            nk = adopt(val, len(idx), fresh)
            return _store(nk, idx, val, fresh)
        raise Unsupported('pointer store into array of pointers to another object')
    if node.kind == 'arr' and val.kind == 'arr':
        a, b = node.kids['el'], val.kids['el']
        if a.kind == 'any' and b.kind != 'any':
            node = Node('arr', node.static, dict(node.kids, el=adopt(b, len(idx), fresh)))
        elif b.kind == 'any' and a.kind != 'any':
            kids = dict(node.kids)
            kids['n'] = lstore(kids['n'], idx, val.kids['n'])
            return Node('arr', node.static, kids)
    if node.kind != val.kind or list(node.kids) != list(val.kids):
        raise Unsupported('store of different shape %s <- %s' % (node, val))
    kids = {}
    for k, v in node.kids.items():
        w = val.kids[k]
        kids[k] = _store(v, idx, w, fresh) if isinstance(v, Node) else lstore(v, idx, w)
    return Node(node.kind, node.static, kids)


def below(k, X):
    return () if X is None else (k < X,)
