"""Loader for the JSON typed AST written by frontend/heuast."""
import json


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j['types']
        self.recs = {r['id']: r for r in j['records']}
        self.fns = {f['id']: f for f in j['functions']}
        self._flat = {}

    def ty(self, i):
        return self.types[i]

    def strip(self, t):
        """index of type without reference"""
        d = self.types[t]
        while d['k'] == 'ref':
            t = d['to']
            d = self.types[t]
        return t

    def s(self, t):
        return self.types[t]['s']

    def find(self, base, **kw):
        """functions with a body whose template-argument-free qualified name is `base`"""
        r = []
        for f in self.fns.values():
            if f['base'] == base and 'body' in f:
                if 'full' in kw and kw['full'] not in f['full']:
                    continue
                if 'nparams' in kw and len(f['params']) != kw['nparams']:
                    continue
                r.append(f)
        return r

    def one(self, base, **kw):
        r = self.find(base, **kw)
        if not r:
            raise Unsupported('function %s not found' % base)
        return r[0]

    def fields(self, t):
        """flattened (own and inherited) fields of a heu record type: list of (name, type, init)"""
        d = self.types[t]
        rid = d.get('id')
        if rid is None:
            raise Unsupported('fields of ' + d['s'])
        if rid in self._flat:
            return self._flat[rid]
        rec = self.recs[rid]
        out = []
        seen = set()
        for b in rec.get('bases', []):
            bd = self.types[b]
            if bd['k'] == 'rec' and bd.get('name') == 'std::vector':
                out.append(('$seq', b, None))
            if bd['k'] == 'rec' and 'id' in bd:
                for (n, ft, ini) in self.fields(b):
                    if n not in seen:
                        seen.add(n)
                        out.append((n, ft, ini))
        own = [(f['name'], f['t'], f.get('init')) for f in rec.get('fields', [])]
        names = {n for n, _, _ in own}
        out = [x for x in out if x[0] not in names] + own
        self._flat[rid] = out
        return out

    def is_lambda_type(self, t):
        d = self.types[t]
        return d['k'] == 'rec' and d.get('lambda')
