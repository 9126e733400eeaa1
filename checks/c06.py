"""C06: the document tree against the list-of-lists model spec/Dom.tla.

Exhaustive part: TLC explores every sequence of operations over two small pools
and prints the labelled transitions and what each state looks like; every path
through that graph is walked with the real classes, and the tree found at its
end is compared with the model's. Random part: longer histories over larger
pools are recorded from the real classes and validated by spec/DomTrace.tla.
"""
import json, os, re
from vf import pool, core

LEVEL = 'model_checking'


class World:
    """The real nodes, numbered as in the model."""

    def __init__(self, start, tex=False):
        self.start = start
        from plasTeX.DOM import Document
        self.tex = tex
        if tex:
            import plasTeX
            from plasTeX import TeXDocument, Command
            if not hasattr(World, 'classes'):
                World.texdoc = TeXDocument()
                World.classes = {t: type(t, (Command,), {'nodeName': t, 'macroName': t}) for t in 'rabc'}
            # making one takes long, and only those with a "doc" node change it
            self.doc = TeXDocument() if 'doc' in start['kind'] else World.texdoc
            self.mk = lambda t: self._own(World.classes[t]())
        else:
            self.doc = Document()
            self.mk = self.doc.createElement
        self.nodes, self.ids = [], {}
        st = start
        for k, d in zip(st['kind'], st['data']):
            self.add(self.doc if k == 'doc' else self.mk(d) if k == 'elem' else
                     self.doc.createTextNode(d) if k == 'text' else self.doc.createDocumentFragment())
        nd = lambda n: self.nodes[n - 1]
        for i in range(len(st['kind'])):
            if st['kind'][i] == 'frag':
                for c in st['kids'][i]:
                    nd(i + 1).append(nd(c))
        for i in range(len(st['kind'])):
            for name, vals, shape in st['att'][i]:
                nd(i + 1).attributes[name] = nd(vals[0]) if shape == 'node' else [nd(v) for v in vals]
        for i in range(len(st['kind'])):
            if st['kind'][i] != 'frag':
                for c in st['kids'][i]:
                    nd(i + 1).append(nd(c))

    def _own(self, o):
        o.parentNode = None
        o.ownerDocument = self.doc
        return o

    def add(self, o):
        self.nodes.append(o)
        self.ids[id(o)] = len(self.nodes)

    def num(self, o):
        if o is None:
            return 0
        return self.ids.get(id(o), -1)

    def arg(self, a):
        return self.nodes[a['n'] - 1] if a['n'] else a['s']

    def kids(self, n):
        o = self.nodes[n - 1]
        return [] if isinstance(o, str) else list(o)

    # numbering of new nodes: preorder, attribute values first
    def walk_new(self, o, texts_only, like=None):
        from plasTeX.DOM import Node
        kids = None
        if not texts_only:
            self.add(o)
        if isinstance(o, str):
            return
        att = getattr(o, 'attributes', None) or {}
        names = list(like.attributes) if like is not None and getattr(like, 'attributes', None) else list(att)
        own = list(o)
        alias = att.get('self')
        for name in names:
            v = att.get(name)
            lv = None if like is None else like.attributes.get(name)
            vs = v if isinstance(v, list) else [v]
            lvs = lv if isinstance(lv, list) else [lv] * len(vs)
            for x, lx in zip(vs, lvs):
                if isinstance(x, Node) and not (texts_only and x is alias):
                    if not texts_only and id(x) in self.ids:
                        continue
                    self.walk_new(x, texts_only, lx)
        if not texts_only and alias is not None and o.childNodes is alias:
            return
        lk = list(like) if like is not None else [None] * len(own)
        for c, lc in zip(own, lk + [None] * len(own)):
            if isinstance(c, str):
                if texts_only or id(c) not in self.ids:
                    self.add(c)
            elif not (not texts_only and id(c) in self.ids):
                self.walk_new(c, texts_only, lc)

    def do(self, op):
        """-> (ok, number of the node returned, 0 if it isn't one of interest)"""
        from plasTeX.DOM import NotFoundErr
        o, p = op['o'], self.nodes[op['p'] - 1]
        nd = lambda n: self.nodes[n - 1]
        ret = None
        before = set(self.ids)
        a = self.arg(op['a']) if o in ('append', 'insert', 'before', 'after', 'replace', 'set', 'extendf', 'attr') else None
        try:
            if o == 'append':
                ret = (p.appendChild if op['i'] else p.append)(a)
            elif o == 'insert':
                ret = p.insert(op['i'], a)
            elif o == 'before':
                ret = p.insertBefore(a, nd(op['r']))
            elif o == 'after':
                ret = p.insertAfter(a, nd(op['r']))
            elif o == 'replace':
                ret = p.replaceChild(a, nd(op['r']))
            elif o == 'remove':
                ret = (p.remove if op['i'] else p.removeChild)(nd(op['r']))
            elif o == 'pop':
                ret = p.pop() if op['i'] == -1 else p.pop(op['i'])
            elif o == 'set':
                p[op['i']] = a
            elif o == 'extend':
                ret = p.extend([self.arg(x) for x in op['as']])
            elif o == 'extendf':
                q = p
                q += a
                ret = q
            elif o == 'normalize':
                p.normalize([tuple(x) for x in op['subs']]) if op['subs'] else p.normalize()
                self.walk_new(p, True)
                return True, 0
            elif o == 'clone':
                c = p.cloneNode(True)
                k = len(self.nodes)
                if id(c) in self.ids:
                    return True, self.num(c)
                self.walk_new(c, False, p)
                return True, k + 1
            elif o == 'shallow':
                self.keep = getattr(self, 'keep', []) + [p.cloneNode()]
                return True, 0
            elif o == 'attr':
                p.setAttribute(op['s'], a)
        except (NotFoundErr, IndexError):
            return False, 0
        # strings become text nodes
        for x in ([op['a']] if o not in ('extend',) else op['as']):
            if x['n'] == 0 and x['s'] and o != 'attr':
                for c in p:
                    if isinstance(c, str) and id(c) not in self.ids:
                        self.add(c)
                        break
        return True, (self.num(ret) if ret is not None and not (type(ret) is str) else 0)

    def snap(self):
        out = []
        num, doc = self.num, self.doc
        for o in self.nodes:
            if isinstance(o, str):
                out.append({'kids': [], 'parent': num(o.parentNode), 'owner': o.ownerDocument is doc,
                            'first': 0, 'last': 0, 'prev': num(o.previousSibling), 'next': num(o.nextSibling),
                            'text': str.__str__(o), 'att': []})
                continue
            att = []
            if o.nodeType == 1:
                for name, v in o.attributes.items():
                    att.append([name, [num(x) for x in v] if isinstance(v, list) else [num(v)]])
            out.append({'kids': [num(c) for c in o], 'parent': num(o.parentNode), 'owner': o.ownerDocument is doc,
                        'first': num(o.firstChild), 'last': num(o.lastChild),
                        'prev': num(o.previousSibling), 'next': num(o.nextSibling),
                        'text': ''.join(o.textContent), 'att': att})
        return out


# ---------------------------------------------------------------- exhaustive
def unq(s):
    return json.loads('"' + s + '"')


_E = re.compile(r'^<<"E", "(.*)", "(.*)", "(.*)", "(.*)">>$')
_S = re.compile(r'^<<"S", "(.*)", "(.*)">>$')


def graph(out):
    """{state: [(op, ok, ret, state')]}, {state: views}, first state"""
    num, edges, views, ops, first = {}, {}, {}, {}, None
    for line in out.splitlines():
        if line.startswith('<<"E"'):
            m = _E.match(line)
            if not m:
                raise core.MachineryError('unreadable line %r' % line[:300])
            s, op, r, t = m.groups()
            o = ops.get(op)
            if o is None:
                o = ops[op] = json.loads(unq(op))
            r = r.replace('\\"', '"')
            i = num.setdefault(s, len(num))
            edges.setdefault(i, {})[op] = (o, '"ok":true' in r, int(re.search(r'"ret":(\d+)', r).group(1)), num.setdefault(t, len(num)))
        elif line.startswith('<<"S"'):
            m = _S.match(line)
            i = num.setdefault(m.group(1), len(num))
            v = json.loads(unq(m.group(2)))
            if isinstance(v, list):
                v = {str(k + 1): x for k, x in enumerate(v)}
            views[i] = {int(k): x for k, x in v.items()}
            if first is None:
                first = i
    return {i: list(e.values()) for i, e in edges.items()}, views, first


def compare(view, snap):
    """'' or what is different"""
    for n, w in view.items():
        o, v = snap[n - 1], w['v']
        if o['kids'] == v['kids'] and o['prev'] == v['prev'] and o['next'] == v['next'] and o['first'] == v['first'] and \
                o['last'] == v['last'] and o['text'] == v['text'] and o['owner'] and (not w['par'] or o['parent'] in w['par']):
            continue
        return 'node %d is %s, expected %s with parent %s' % (n, o, v, w['par'])
    return ''


G = {}


def walk(case):
    """every path below one prefix; -> (paths, transitions, [failures])"""
    start, tex, which, prefix, depth = case
    edges, views, first = G[which]
    count, bad = 0, []

    def rec(path, node, left):
        nonlocal count
        for op, ok, ret, to in edges.get(node, ()):
            p = path + [op]
            # the whole path again: nothing but the operations decides
            w = World(start, tex)
            try:
                for q in path:
                    w.do(q)
                got = w.do(op)
                msg = ''
                if got[0] != ok:
                    msg = 'should %s' % ('work' if ok else 'be refused')
                elif ret and got[1] != ret:
                    msg = 'returned node %s, expected %s' % (got[1], ret)
                else:
                    msg = compare(views[to], w.snap())
            except Exception as e:
                msg = '%s: %s' % (type(e).__name__, e)
            count += 1
            if msg:
                bad.append((p, msg))
                if len(bad) > 20:
                    return
            elif left > 1:
                rec(p, to, left - 1)
    node = first
    for op, to in prefix:
        node = to
    rec([op for op, to in prefix], node, depth)
    return count, bad


# -------------------------------------------------------------------- random
def rpool(rng):
    """a start state: trees, attribute-held fragments, detached nodes"""
    st = {'kind': [], 'data': [], 'kids': [], 'att': [], 'self': [], 'stale': []}

    def new(kind, data=''):
        st['kind'].append(kind); st['data'].append(data); st['kids'].append([]); st['att'].append([]); st['self'].append(0)
        return len(st['kind'])

    def text():
        return new('text', rng.choice(['p', 'q', 'xy', 'a-', '-', '--', 'b', "''", 'w', ' ']))

    def frag(depth):
        f = new('frag')
        for _ in range(rng.randrange(0, 4)):
            k = text() if rng.random() < .6 or depth <= 0 else elem(depth - 1)
            st['kids'][f - 1].append(k)
        return f

    def elem(depth, tag=None):
        e = new('elem', tag or rng.choice('aabbc'))
        own = False
        for name in ('opt', 'self', 'title', 'lst'):
            r = rng.random()
            if name == 'self' and r < .25:
                f = frag(depth - 1)
                st['att'][e - 1].append([name, [f], 'node'])
                st['self'][e - 1] = f
                own = True
            elif name in ('opt', 'title') and r < .25:
                v = frag(depth - 1) if rng.random() < .75 or depth <= 0 else elem(depth - 1)
                st['att'][e - 1].append([name, [v], 'node'])
            elif name == 'lst' and r < .06 and depth > 0:
                st['att'][e - 1].append([name, [elem(0) for _ in range(rng.randrange(1, 3))], 'list'])
        if not own:
            for _ in range(rng.randrange(0, 4)):
                k = text() if rng.random() < .6 or depth <= 0 else elem(depth - 1)
                st['kids'][e - 1].append(k)
        return e

    if rng.random() < .4:
        d = new('doc')
        st['kids'][d - 1].append(elem(2, 'r'))
    else:
        elem(2, 'r')
    for _ in range(rng.randrange(1, 3)):
        elem(rng.randrange(0, 2))
    for _ in range(rng.randrange(1, 4)):
        text()
    for _ in range(rng.randrange(1, 3)):
        frag(rng.randrange(0, 2))
    return st


def rhistory(case):
    """make up a history while performing it; -> trace"""
    import random
    seed, length, tex = case
    rng = random.Random(seed)
    start = rpool(rng)
    ev = []
    dead = set()
    try:
        w = World(start, tex)
        kinds = list(start['kind'])
        pairs = []

        def live():
            return [n for n in range(1, len(w.nodes) + 1) if n not in dead]

        def kind(n):
            o = w.nodes[n - 1]
            return 'text' if isinstance(o, str) else {1: 'elem', 9: 'doc', 11: 'frag'}[o.nodeType]

        def held():
            """child/value -> holder, read from the real tree"""
            h = {}
            for n in live():
                if kind(n) == 'text':
                    continue
                o = w.nodes[n - 1]
                alias = None
                if kind(n) == 'elem':
                    for name, v in o.attributes.items():
                        for x in (v if isinstance(v, list) else [v]):
                            h[w.num(x)] = n
                    alias = o.attributes.get('self')
                if alias is None or o.childNodes is not alias:
                    for c in o:
                        h[w.num(c)] = n
            return h
        for _ in range(length):
            h = held()
            lv = live()
            holders = [n for n in lv if kind(n) != 'text']
            # prefer the larger trees
            p = rng.choice(holders)
            up = set([p])
            q = p
            while q in h and h[q] not in up:
                q = h[q]
                up.add(q)
            det = [n for n in lv if n not in h and kind(n) != 'doc' and n not in up]

            def arg(strs=True):
                if strs and (not det or rng.random() < .15):
                    return {'n': 0, 's': rng.choice(['z', 'yy', '-', 'a'])}
                return {'n': rng.choice(det), 's': ''} if det else None
            kids = [w.num(c) for c in w.nodes[p - 1]]
            o = rng.choice(['append', 'append', 'insert', 'insert', 'before', 'before', 'after', 'after', 'replace', 'remove', 'pop',
                            'set', 'set', 'extend', 'extendf', 'normalize', 'clone', 'shallow', 'attr', 'tags', 'pos', 'all', 'same'])
            n = len(kids)
            op = {'o': o, 'p': p, 'a': {'n': 0, 's': ''}, 'i': 0, 'r': 0, 'as': [], 'subs': [], 's': ''}
            if o in ('append', 'insert', 'before', 'after', 'replace', 'set'):
                op['a'] = arg()
            if o == 'append':
                op['i'] = rng.randrange(2)
            if o in ('insert', 'pop', 'set'):
                op['i'] = rng.randrange(-n - 2, n + 2) if rng.random() < .8 or not n else rng.randrange(-n, n)
            if o in ('before', 'after', 'replace', 'remove'):
                op['r'] = rng.choice(kids) if kids and rng.random() < .9 else rng.choice(lv)
                if o != 'remove' and len(kids) > 1 and rng.random() < .2:
                    x, y = rng.sample(kids, 2)
                    op['a'], op['r'] = {'n': x, 's': ''}, y
                elif op['r'] == op['a']['n']:
                    continue
            if o == 'remove':
                op['i'] = rng.randrange(2)
            if o == 'extend':
                c = rng.sample(det, min(len(det), rng.randrange(0, 3)))
                op['as'] = [{'n': x, 's': ''} for x in c] + ([{'n': 0, 's': 'e'}] if rng.random() < .3 else [])
                rng.shuffle(op['as'])
            if o == 'extendf':
                f = [x for x in det if kind(x) == 'frag']
                if not f:
                    continue
                op['a'] = {'n': rng.choice(f), 's': ''}
            if o == 'attr':
                f = [x for x in det if kind(x) != 'text']
                names = [x for x in ('opt', 'title', 'new', 'cap') if kind(p) == 'elem' and x not in w.nodes[p - 1].attributes]
                if not f or not names:
                    continue
                op['a'] = {'n': rng.choice(f), 's': ''}
                op['s'] = rng.choice(names)
            if o in ('clone', 'shallow') and (kind(p) == 'doc' or len(w.nodes) > 90):
                continue
            if o == 'normalize':
                bel, todo, lists = set(), [p], False
                while todo:
                    x = todo.pop()
                    for c, par in h.items():
                        if par == x and c not in bel:
                            bel.add(c)
                            todo.append(c)
                for x in bel | {p}:
                    if kind(x) == 'elem' and any(isinstance(v, list) for v in w.nodes[x - 1].attributes.values()):
                        lists = True
                if lists:
                    continue
                op['subs'] = rng.choice([[], [], [], [['--', '~']], [['---', '='], ['--', '~']], [["''", '"']], [['p', 'q'], ['xy', '!']]])
                gone = [x for x in bel if kind(x) == 'text']
            if o == 'tags':
                t = rng.choice('abcr')
                ev.append({'k': 'tags', 'p': p, 't': t, 'x': [w.num(x) for x in w.nodes[p - 1].getElementsByTagName(t)]})
                continue
            if o == 'all':
                ev.append({'k': 'all', 'p': p, 'x': [w.num(x) for x in w.nodes[p - 1].allChildNodes]})
                continue
            if o == 'same':
                if pairs:
                    a, b = rng.choice(pairs)
                    if a not in dead and b not in dead:
                        ev.append({'k': 'same', 'a': a, 'b': b, 'x': bool(w.nodes[a - 1].isEqualNode(w.nodes[b - 1])) if rng.random() < .5 else bool(w.nodes[a - 1] == w.nodes[b - 1])})
                continue
            if o == 'pos':
                ns = rng.sample(lv, min(len(lv), 10))
                ev.append({'k': 'pos', 'ns': ns, 'x': [[w.nodes[a - 1].compareDocumentPosition(w.nodes[b - 1]) for b in ns] for a in ns]})
                continue
            if op['a'] is None:
                continue
            n0 = len(w.nodes)
            ok, ret = w.do(op)
            if ok:
                for a in [op['a']] + op['as']:
                    if a['n'] and kind(a['n']) == 'frag' and o != 'attr':
                        dead.add(a['n'])
                if o == 'normalize':
                    dead.update(gone)
            ev.append({'k': 'op', 'op': op, 'ok': ok, 'ret': ret, 'snap': w.snap()})
            if o == 'clone':
                pairs.append((p, ret))
                ev.append({'k': 'same', 'a': p, 'b': ret, 'x': bool(w.nodes[p - 1] == w.nodes[ret - 1])})
        lv = live()
        ns = rng.sample(lv, min(len(lv), 14))
        ev.append({'k': 'pos', 'ns': ns, 'x': [[w.nodes[a - 1].compareDocumentPosition(w.nodes[b - 1]) for b in ns] for a in ns]})
        for n in lv:
            if kind(n) != 'text':
                for t in 'abc':
                    ev.append({'k': 'tags', 'p': n, 't': t, 'x': [w.num(x) for x in w.nodes[n - 1].getElementsByTagName(t)]})
                ev.append({'k': 'all', 'p': n, 'x': [w.num(x) for x in w.nodes[n - 1].allChildNodes]})
    except Exception as e:
        ev.append({'k': 'exc', 'what': pool._short_tb()})
    return {'start': start, 'ev': ev}


def run(ck):
    if ck.thorough:
        ck.model('MC_Dom', 'MC_DomA2.cfg', timeout=600)
        ck.model('MC_Dom', 'MC_DomB2.cfg', timeout=600)
        outs = ['A05', 'B05', 'A14', 'A23', 'B23']
    else:
        ck.model('MC_Dom', 'MC_DomA1.cfg', timeout=600)
        ck.model('MC_Dom', 'MC_DomB1.cfg', timeout=600)
        outs = ['A05', 'B04', 'A13', 'B13', 'A22', 'B22']
    paths = 0
    for name in outs:
        depth = int(name[2])
        split = 1 if depth < 4 else 2
        r = ck.model('MC_Dom', 'MC_DomOut%s.cfg' % name, env={'OUT': '1'}, timeout=600)
        G[name] = graph(r.out)
        edges, views, first = G[name]
        if not edges or first is None:
            raise core.MachineryError('no transitions exported')
        start = START[name[0]]
        heads = [[]]
        for _ in range(split):
            heads = [h + [(e[0], e[3])] for h in heads for e in edges.get(h[-1][1] if h else first, ())]
        cases = []
        for tex in (False, True):
            # plain DOM classes and the ones of TeX documents; alternating where there are many paths
            both = depth < 3 or ck.thorough and name != 'B05'
            cases += [(start, tex, name, h, depth - split) for i, h in enumerate(heads) if both or i % 2 == tex]
            cases += [(start, tex, name, [], split)]
        ck.rng.shuffle(cases)
        res = pool.run(walk, cases, chunk=4, timeout=300)
        for c, x in zip(cases, res):
            if isinstance(x, dict):
                ck.violation('walk %s %s' % (name, [o for o, _ in c[3]]), 'walking failed: %s' % x['exc'], {'case': c})
                continue
            paths += x[0]
            for p, msg in x[1]:
                ck.violation(json.dumps([name, p]), 'pool %s after %s: %s' % (name, show(p), msg),
                             {'pool': start, 'history': p, 'what': msg, 'classes': 'TeXDocument' if c[1] else 'Document'})
        # the comparison notices: wrong expectations for the first state are refused
        if True:
            v = {n: dict(w, v=dict(w['v'], kids=w['v']['kids'] + [1])) for n, w in views[first].items()}
            if not compare(v, World(start).snap()) or compare(views[first], World(start).snap()):
                if not ck.violations:
                    raise core.MachineryError('comparison of the start state')
        G.pop(name)
    n = 12000 if ck.thorough else 1200
    trs = pool.run(rhistory, [('%s/%d' % (ck.seed, i), ck.rng.choice([5, 10, 20, 40, 40, 40]), i % 2) for i in range(n)], chunk=20, timeout=30)
    trs = [t if 'ev' in t else {'start': START['A'], 'ev': [{'k': 'exc', 'what': t['exc']}]} for t in trs]
    bad = []
    for t in ck.rng.sample(trs, min(len(trs), 120)):
        t = json.loads(json.dumps(t))
        e = ck.rng.choice(t['ev'])
        how = len(bad) % 4
        if e['k'] == 'tags' or e['k'] == 'all':
            e['x'] = e['x'] + [1]
        elif e['k'] == 'same':
            e['x'] = not e['x']
        elif e['k'] == 'op' and how == 0:
            e['ok'] = not e['ok']
        elif e['k'] == 'op':
            x = [s for s in e['snap'] if len(s['kids']) > 1 and s['kids'][0] in range(1, len(e['snap']) + 1)]
            # the root's tree is always live
            x = [s for s in x if s is e['snap'][0]]
            if not x:
                continue
            x = x[0]
            if how == 1:
                x['kids'] = x['kids'][::-1]
            elif how == 2:
                x['last'] = x['first']
            else:
                e['snap'][x['kids'][1] - 1]['parent'] = x['kids'][0]
        else:
            continue
        bad.append(t)
    vs = ck.validate('DomTrace', trs + bad[:40], batch=max(1, (len(trs) + 40) // 8 + 1), parallel=8, timeout=800)
    for t, v in zip(trs, vs):
        if v[0] == 'illegal':
            raise core.MachineryError('generated an operation outside of the model: %s' % (v,))
        if v[0] != 'ok':
            ck.violation(json.dumps([t['start'], [e.get('op') for e in t['ev']]]), 'history: %s' % (v[1],), {'trace': t, 'verdict': v})
    ck.selftest(vs[len(trs):])
    ck.cov['traces_validated_against_impl'] += paths + len(trs)
    ck.cov['paths_walked_exhaustively'] = paths
    ck.cov['random_histories'] = len(trs)
    ck.cov['operations_in_random_histories'] = sum(1 for t in trs for e in t['ev'] if e['k'] == 'op')
    for t in trs[:3]:
        ck.sample(show([e['op'] for e in t['ev'] if e['k'] == 'op'][:12]))
    ck.assumptions += ['arguments are detached nodes, fragments or strings, or children of the same node (moves)',
                       'nothing is required of fragments whose children were inserted elsewhere, nor of the parent link of removed nodes']


def show(ops):
    out = []
    for o in ops:
        a = o['a']['n'] or repr(o['a']['s'])
        out.append('%s(%s)' % (o['o'], ','.join(str(x) for x in ([o['p']] + ([a] if o['o'] not in ('remove', 'pop', 'normalize', 'clone', 'shallow') else []) +
                   ([o['i']] if o['o'] in ('insert', 'pop', 'set') else []) + (['ref %d' % o['r']] if o['r'] else []) + [x['n'] or x['s'] for x in o['as']]))))
    return ' '.join(out)


START = {
    'A': {'kind': ["elem", "elem", "text", "elem", "text", "frag", "text", "elem"], 'data': ["r", "a", "p", "b", "q", "", "s", "a"],
          'kids': [[2], [3], [], [], [], [7, 8], [], []], 'att': [[], [], [], [], [], [], [], []], 'self': [0] * 8, 'stale': []},
    'B': {'kind': ["elem", "frag", "text", "text", "frag", "text", "elem", "text"], 'data': ["r", "", "p", "q", "", "s", "a", "t"],
          'kids': [[], [3, 4], [], [], [6], [], [], []],
          'att': [[['self', [2], 'node'], ['x', [5], 'node']], [], [], [], [], [], [], []], 'self': [2] + [0] * 7, 'stale': []}}
