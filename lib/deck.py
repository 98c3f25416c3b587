"""SAMRAI input decks as nested dicts (key -> list of tokens, or dict)"""
import re, os, json, glob, copy
HERE = os.path.dirname(os.path.abspath(__file__))

def parse(t):
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    toks = []
    for l in t.split('\n'):
        out = ''; q = False
        i = 0
        while i < len(l):
            if l[i] == '"': q = not q
            if not q and l[i:i + 2] == '//': break
            out += l[i]; i += 1
        toks += re.findall(r'"[^"]*"|[{}=,]|[^\s{}=,"]+', out)
    def block(i):
        d = {}
        while i < len(toks) and toks[i] != '}':
            k = toks[i]
            if toks[i + 1] == '{':
                d[k], i = block(i + 2)
            elif toks[i + 1] == '=':
                v = [toks[i + 2]]; i += 3
                while i < len(toks) and toks[i] == ',':
                    v.append(toks[i + 1]); i += 2
                d[k] = v
            else: raise ValueError('parse at ' + ' '.join(toks[i:i + 4]))
        return d, i + 1
    return block(0)[0]

def _tok(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, float): return '%.17g' % v if not float(v).is_integer() or abs(v) > 1e15 else '%.1f' % v
    if isinstance(v, str) and not v.startswith('"') and not re.match(r'^[-+.\d]|TRUE$|FALSE$', v): return '"%s"' % v
    return str(v)

def text(d, ind=0):
    o = []
    for k, v in d.items():
        if isinstance(v, dict): o.append(' ' * ind + k + ' {\n' + text(v, ind + 2) + ' ' * ind + '}\n')
        else: o.append(' ' * ind + k + ' = ' + ', '.join(_tok(x) for x in (v if isinstance(v, (list, tuple)) else [v])) + '\n')
    return ''.join(o)

class Deck(dict):
    """nested dict with path access: d['A/b']"""
    def get_path(self, p, default=None):
        x = self
        for q in p.split('/'):
            if not isinstance(x, dict) or not dict.__contains__(x, q): return default
            x = dict.__getitem__(x, q)
        return x
    def put(self, p, v):
        x = self
        q = p.split('/')
        for y in q[:-1]:
            if not dict.__contains__(x, y): dict.__setitem__(x, y, {})
            x = dict.__getitem__(x, y)
        if v is None: x.pop(q[-1], None)
        else: dict.__setitem__(x, q[-1], v)
        return self
    def one(self, p, default=None):
        v = self.get_path(p)
        if v is None: return default
        v = v[0] if isinstance(v, (list, tuple)) else v
        return v.strip('"') if isinstance(v, str) else v
    def num(self, p, default=None):
        v = self.one(p)
        return default if v is None else float(v)
    def text(self): return text(self)
    def copy(self): return Deck(copy.deepcopy(dict(self)))

def load(name):
    """deck of the repository; 'deck+changes': one of more.py"""
    if '+' in name:
        import more
        return more.load(name, 0, load)
    return Deck(json.load(open(os.path.join(HERE, '..', 'native', 'decks', 'decks.json')))[name])
def names():
    return sorted(json.load(open(os.path.join(HERE, '..', 'native', 'decks', 'decks.json'))))
