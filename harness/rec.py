"""Engine records, symbolic text, and parsers of the tool's output (dot and top)."""
import re, json
import z3
from sx import nodes_to_z3, free


class Num:
    """a decimal number printed from a symbolic value"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return '<num %s>' % z3.simplify(self.e)


class Malformed(Exception):
    def __init__(self, msg, cond=None):
        super().__init__(msg)
        self.cond = cond          # z3 condition under which it is malformed (None: always)


class Rec:
    """one explored path: what the program did, and the condition under which it does it"""
    def __init__(self, j=None, sc=None):
        self.sc = sc
        if j is None: return
        self.kind, self.code, self.msg = j['kind'], j['code'], j['msg']
        self.m = nodes_to_z3(j['nodes'])
        self.pc = [self.m[e] == b for e, b in j['pc']]
        self.wit = j['wit']
        self.j = j
        self.out = self.text(j['out'])
        self.err = self.text(j['err'])
        self.ev = []
        for e in j['ev']:
            if e[0] == 'spawn':
                _, f, av, extra, missing, mid, dups = e
                self.ev.append(dict(kind='spawn', file=self.text(f), argv=[self.text(a) for a in av], extra=self.envd(extra), missing=[x.encode('latin-1').partition(b'=')[0] for x in missing], id=mid, dups=dups))
            else:
                self.ev.append(dict(kind=e[0], path=e[1], ok=e[2] if len(e) > 2 else None, time=e[3] if len(e) > 3 else None))
        self._solver = None

    def envd(self, l):
        d = {}
        for t in l:
            t = self.text(t)
            k = t.index(61)
            d[bytes(t[:k])] = t[k + 1:]
        return d

    @staticmethod
    def concrete(r, model, vars_, sc=None):
        """a native run under one assignment, seen as a path with a point condition"""
        x = Rec(sc=sc)
        x.kind, x.code, x.msg, x.m = r['kind'], r['code'], '', {}
        x.pc = [v == z3.BitVecVal(model.get(n, 0), v.size()) for n, v in vars_.items()]
        x.wit, x.j = model, None
        x.out, x.err = list(r['out']), list(r['err'])
        x.ev = [dict(e, argv=[list(a) for a in e['argv']], extra={k: list(v) for k, v in e['extra'].items()}, file=list(e['argv'][0])) if e['kind'] == 'spawn' else e for e in r['ev']]
        x._solver = None
        return x

    def text(self, segs):
        """list of int | z3 BV8 | Num"""
        out = []
        for s in segs:
            if isinstance(s, int):
                out.append(self.m[s])
                continue
            i = 0
            for g in re.finditer('\x01([SI])(\\d+)\x02', s):
                out += [ord(c) for c in s[i:g.start()]]
                e = self.m[int(g.group(2))]
                w = e.size()
                if w < 64: e = z3.ZeroExt(64 - w, e) if g.group(1) == 'S' else z3.SignExt(64 - w, e)
                out.append(Num(e))
                i = g.end()
            out += [ord(c) for c in s[i:]]
        return out

    # ---- solver
    @property
    def solver(self):
        if self._solver is None:
            self._solver = z3.SolverFor('QF_BV')
            self._solver.add(*self.pc)
            self.nq = 0
        return self._solver

    def sat(self, cond):
        """model {name: int} of PC and cond, or None"""
        if cond is True: cond = z3.BoolVal(True)
        if cond is False: return None
        c = z3.simplify(cond)
        if z3.is_false(c): return None
        s = self.solver
        s.push()
        s.add(c)
        self.nq += 1
        r = s.check()
        if r == z3.unknown:
            s.pop()
            raise RuntimeError('solver: unknown')
        m = None
        if r == z3.sat:
            md = s.model()
            m = {}
            for n, v in (self.sc.vars if self.sc else {}).items():
                x = md.eval(v, model_completion=False)
                m[n] = x.as_long() if z3.is_bv_value(x) else self.wit.get(n, 0)
            # variables the model leaves open keep the witness value; make sure that is still a model
        s.pop()
        return m

    def must(self, cond):
        return self.sat(z3.Not(cond)) is None

    def pin(self, t):
        """text with the symbolic bytes replaced that have one value on this path"""
        if all(isinstance(x, (int, Num)) for x in t): return t
        from sx import val
        out = []
        for x in t:
            if not isinstance(x, (int, Num)):
                v = val(x, self.wit)
                if self.must(x == v): x = v
            out.append(x)
        return out

    def stdout_is_empty(self):
        return len(self.out) == 0


def show(t):
    return ''.join(chr(x) if isinstance(x, int) and x < 128 else ('\\x%02x' % x if isinstance(x, int) else ('<%s>' % x if isinstance(x, Num) else '?')) for x in t)


def concretize(t, model):
    """text -> bytes under an assignment"""
    from sx import val
    o = bytearray()
    for x in t:
        if isinstance(x, int): o.append(x)
        elif isinstance(x, Num): o += str(val(x.e, model)).encode()
        else: o.append(val(x, model))
    return bytes(o)


class Node:
    __slots__ = ('id', 'name', 'max', 'exact', 'local', 'dashed')
    def key(self):
        return tuple(self.name)


class Graph:
    def __init__(self):
        self.nodes = {}      # id -> Node
        self.edges = []      # (id, id)
        self.clusters = []   # [label, [ids]]

    def by_name(self, name):
        k = list(name.encode('utf-8')) if isinstance(name, str) else list(name)
        return [n for n in self.nodes.values() if n.name == k]

    def succ(self, i):
        return [b for a, b in self.edges if a == i]

    def edge_names(self):
        return [(self.nm(a), self.nm(b)) for a, b in self.edges]

    def nm(self, i):
        return show(self.nodes[i].name)


def _dot_tokens(t, rec):
    """DOT lexer. Symbolic bytes may appear inside quoted strings only."""
    i, n = 0, len(t)
    toks = []
    ident = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.')
    while i < n:
        c = t[i]
        if not isinstance(c, int):
            raise Malformed('symbolic data outside a quoted string')
        if c in b' \t\r\n':
            i += 1
        elif c == 34:
            i += 1
            s = []
            while True:
                if i >= n: raise Malformed('unterminated string')
                c = t[i]
                if isinstance(c, int):
                    if c == 34: break
                    if c == 92:
                        if i + 1 >= n: raise Malformed('unterminated string')
                        d = t[i + 1]
                        s.append(('esc', d))
                        i += 2
                        continue
                    s.append(c)
                elif isinstance(c, Num):
                    s.append(c)
                else:
                    # a symbolic byte must not be able to end the string or start an escape
                    if rec.sat(c == 34): raise Malformed('a quote in the name ends the label', c == 34)
                    if rec.sat(c == 92):
                        if rec.must(c == 92):
                            if i + 1 >= n: raise Malformed('unterminated string')
                            s.append(('esc', t[i + 1]))
                            i += 2
                            continue
                        raise Malformed('an unescaped backslash in the name', c == 92)
                    s.append(c)
                i += 1
            i += 1
            toks.append(('str', s))
        elif c in b'{}[]=;,':
            toks.append((chr(c), None))
            i += 1
        elif c == 45:
            if i + 1 < n and t[i + 1] == 62:
                toks.append(('->', None))
                i += 2
            else:
                raise Malformed('stray - in the output')
        elif c in ident:
            j = i
            while j < n and isinstance(t[j], int) and t[j] in ident: j += 1
            toks.append(('id', bytes(t[i:j]).decode()))
            i = j
        else:
            raise Malformed('unexpected character %r' % chr(c))
    return toks


def parse_dot(t, rec):
    """strict parser of the subset of DOT that a `digraph` of nodes, edges and clusters needs"""
    toks = _dot_tokens(t, rec)
    g = Graph()
    p = [0]
    def peek(k=0): return toks[p[0] + k] if p[0] + k < len(toks) else ('eof', None)
    def take(kind, v=None):
        x = peek()
        if x[0] != kind or (v is not None and x[1] != v): raise Malformed('expected %s %s, found %s' % (kind, v or '', x[0]))
        p[0] += 1
        return x[1]
    def attrs():
        a = {}
        take('[')
        while peek()[0] != ']':
            k = take('id')
            take('=')
            x = peek()
            if x[0] not in ('id', 'str'): raise Malformed('bad attribute value')
            p[0] += 1
            a[k] = x
            if peek()[0] in ',;': p[0] += 1
        take(']')
        return a
    raw = {}
    take('id', 'digraph')
    if peek()[0] in ('id', 'str'): p[0] += 1
    take('{')
    def stmt(cluster):
        if peek()[0] == ';':
            p[0] += 1
            return
        x = peek()
        if x == ('id', 'subgraph'):
            p[0] += 1
            cname = take('id')
            take('{')
            c = [cname, [], {}]
            while peek()[0] != '}': stmt(c)
            take('}')
            g.clusters.append(c)
            return
        if x[0] != 'id': raise Malformed('unexpected %s' % x[0])
        name = x[1]
        if name in ('node', 'edge', 'graph') and peek(1)[0] == '[':
            p[0] += 1
            attrs()
            return
        if peek(1)[0] == '=':
            p[0] += 2
            v = peek()
            p[0] += 1
            if cluster is not None: cluster[2][name] = v
            return
        if not name.isdigit(): raise Malformed('node id %r is not a number' % name)
        p[0] += 1
        if peek()[0] == '->':
            take('->')
            b = take('id')
            if not b.isdigit(): raise Malformed('node id %r is not a number' % b)
            if peek()[0] == '[': attrs()
            g.edges.append((int(name), int(b)))
        elif peek()[0] == '[':
            if cluster is not None: raise Malformed('node declared inside a cluster')
            if int(name) in raw: raise Malformed('node id %s declared twice' % name)
            raw[int(name)] = attrs()
        else:
            if cluster is None: raise Malformed('node %s without attributes' % name)
            cluster[1].append(int(name))
    while peek()[0] != '}': stmt(None)
    take('}')
    if peek()[0] != 'eof': raise Malformed('text after the graph')
    for i, a in raw.items():
        g.nodes[i] = _node(i, a, rec)
    for a, b in g.edges:
        for x in (a, b):
            if x not in g.nodes: raise Malformed('edge refers to undeclared node %d' % x)
    for c in g.clusters:
        for x in c[1]:
            if x not in g.nodes: raise Malformed('cluster refers to undeclared node %d' % x)
    return g


def _num(t):
    if len(t) == 1 and isinstance(t[0], Num): return t[0].e
    if t and all(isinstance(x, int) and 48 <= x <= 57 for x in t):
        v = int(bytes(t))
        if v >= 1 << 64: raise Malformed('number out of range')
        return z3.BitVecVal(v, 64)
    raise Malformed('not a number: %s' % show(t))


def _node(i, a, rec=None):
    n = Node()
    n.id = i
    n.dashed = a.get('style') == ('id', 'dashed') or (a.get('style', ('', 0))[0] == 'str' and a['style'][1] == list(b'dashed'))
    if 'label' not in a: raise Malformed('node %d has no label' % i)
    if a['label'][0] != 'str': raise Malformed('label of node %d is not quoted' % i)
    lines = [[]]
    for x in a['label'][1]:
        if isinstance(x, tuple):
            d = x[1]
            if d in (110, 108, 114) if isinstance(d, int) else False: lines.append([])
            elif isinstance(d, int) or not isinstance(d, Num): lines[-1].append(d)
            else: raise Malformed('bad escape')
        else:
            lines[-1].append(x)
    pre = list(b'local = ')
    if len(lines) < 2 or lines[-1][:8] != pre: raise Malformed('label of node %d has no local usage' % i)
    l = lines[-1][8:]
    n.local = None if l == [63] else _num(l)
    n.max, n.exact = None, None
    k = len(lines) - 1
    if k >= 2:
        for p, ex in ((b'max = ', True), (b'max >= ', False)):
            if lines[k - 1][:len(p)] == list(p):
                n.max, n.exact = _num(lines[k - 1][len(p):]), ex
                k -= 1
                break
    name = lines[0]
    for x in lines[1:k]: name = name + [10] + x
    n.name = rec.pin(name) if rec is not None else name
    return n


def parse_top(t, rec):
    """returns (max or None, [(usage, name)])"""
    lines = [[]]
    for x in t:
        if x == 10: lines.append([])
        else: lines[-1].append(x)
    if lines[-1] != []: raise Malformed('output does not end with a newline')
    lines.pop()
    mx = None
    k = 0
    if lines and lines[0][-4:] == list(b' MAX'):
        mx = _num(lines[0][:-4])
        k = 1
    if k >= len(lines) or lines[k] != list(b'Usage Function'): raise Malformed('no header line')
    rows = []
    for l in lines[k + 1:]:
        if 32 not in l: raise Malformed('bad row %s' % show(l))
        j = l.index(32)
        rows.append((_num(l[:j]), rec.pin(l[j + 1:])))
    return mx, rows


def canon(g):
    """structural summary of a graph with concrete texts, for comparing runs"""
    from collections import Counter
    def f(i):
        n = g.nodes[i]
        v = lambda e: None if e is None else z3.simplify(e).as_long()
        return (bytes(n.name), v(n.max), n.exact, v(n.local), n.dashed)
    return (Counter(f(i) for i in g.nodes), Counter((f(a), f(b)) for a, b in g.edges),
            Counter(tuple(sorted(f(i) for i in c[1])) for c in g.clusters))
