"""Syntactic frame conditions: which data members a function and everything it calls may write or read."""


def reach(P, fids):
    """functions reachable from the given ones (with a body)"""
    seen, todo = set(), list(fids)
    while todo:
        i = todo.pop()
        f = P.fns.get(i)
        if i in seen or f is None or 'body' not in f:
            continue
        seen.add(i)
        walk([f['body'], f.get('inits')], lambda n, up: todo.append(n['fn']) if isinstance(n.get('fn'), int) else None)
    return seen


def walk(n, visit, up=()):
    if isinstance(n, list):
        for x in n:
            walk(x, visit, up)
    elif isinstance(n, dict):
        visit(n, up)
        for k, x in n.items():
            if isinstance(x, (dict, list)):
                walk(x, visit, up + ((n, k),))


def only_read(P, up):
    """the member expression below these ancestors is only read"""
    for n, k in reversed(up):
        if n.get('k') == 'member' and k == 'e':
            continue
        if n.get('k') == 'cast':
            if n.get('ck') == 'LValueToRValue':
                return True
            if n.get('ck') == 'NoOp':
                t = P.ty(n['t'])
                if t.get('const'):
                    return True
                continue
            return False
        if n.get('k') == 'paren':
            continue
        if n.get('k') == 'call' and k == 'args' and n.get('callee', {}).get('base', '').startswith('Eigen::operator'):
            return True    # operands are taken by reference to const
        if n.get('k') == 'call' and k == 'obj':
            return bool(n.get('callee', {}).get('const'))
        return False
    return False


def writes(P, fids, fields):
    """members among `fields` that are not provably only read: [(function, member, location)]"""
    out = []
    for i in reach(P, fids):
        f = P.fns[i]

        def visit(n, up):
            if n.get('k') == 'member' and n.get('field') in fields and not only_read(P, up):
                loc = next((x.get('loc') for x, _ in reversed(up) if x.get('loc')), f.get('loc'))
                out.append((f['base'], n['field'], loc))
        walk([f['body'], f.get('inits')], visit)
        for ini in f.get('inits', []) or []:
            if ini.get('field') in fields:
                out.append((f['base'], ini['field'], f.get('loc')))
    return out


def mentions(P, fid, rec_fields):
    """data members of `this` the function itself mentions"""
    out = set()
    f = P.fns[fid]

    def visit(n, up):
        if n.get('k') == 'member' and n.get('field'):
            e = n.get('e', {})
            while e.get('k') == 'cast' or e.get('k') == 'paren':
                e = e['e']
            if e.get('k') == 'this':
                out.add(n['field'])
    walk(f['body'], visit)
    return out
