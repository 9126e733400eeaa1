"""Random programs of the MiniTeX language (spec/MiniTeX.tla).

Only generates token lists and renders them to source text; what a program
means is decided by the specification.  Programs that leave the language are
recognised there ("skip").
"""
import string

NAMES = ['\\m' + c for c in 'abcdefgh']          # rank = index; bodies only call lower ranks
ENVS = ['center', 'quote', 'flushleft']
UENVS = ['uea', 'ueb']
LETTERS = 'pqrstuvwxyz'
PUNCT = '.,;:()'
DELIMS = [['.'], [';'], ['.', ';'], ['p', 'q'], ['p', 'p', 'q'], [' '], ['\\stop'], [','], ['.', '.'], ['t', ' ']]


class Gen:
    def __init__(self, rng, w, budget=60):
        self.rng, self.w, self.budget = rng, w, budget
        self.scopes = [{}]
        self.counters, self.switches = [], []
        self.nq = False
        self.noif = 0
        self.conddepth = 0
        self.incell = False
        self.mathok = True
        self.hashlvl = 1          # how many # a parameter of the macro being defined needs
        self.params = []          # parameter references usable in the current body
        self.maxrank = len(NAMES)
        self.bang = False
        self.taint = False
        self.inbody = 0

    def chance(self, p):
        return self.rng.random() < p

    # -- scopes
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]

    def known(self):
        r = []
        for n in NAMES[:self.maxrank]:
            if self.lookup(n):
                r.append(n)
        return r

    # -- text
    def char(self):
        if self.params and self.chance(.5):
            return self.rng.choice(self.params)
        return [self.rng.choice(LETTERS if self.chance(.8) else PUNCT)]

    def chars(self, lo=1, hi=3):
        out = []
        for _ in range(self.rng.randint(lo, hi)):
            out += self.char()
        return out

    def content(self, depth, allow=True):
        """text, possibly with calls and groups; no global side effects"""
        out = self.chars(0, 2)
        if depth > 0 and allow and self.budget > 0:
            for _ in range(self.rng.randint(0, 2)):
                self.budget -= 1
                x = self.rng.random()
                if x < .5:
                    out += self.call(depth - 1)
                elif x < .7:
                    out += self.group(depth - 1)
                elif x < .7 + .3 * self.w.get('cond', 0):
                    out += self.cond(depth - 1, inner=True)
                elif x < .92 and self.w.get('let', 0):
                    out += self.assign(depth - 1)
                else:
                    out += self.chars()
        out += self.chars(0, 2)
        return out

    def balanced_scope(self, fn):
        self.scopes.append({})
        r = fn()
        self.scopes.pop()
        return r

    def group(self, depth):
        k = self.rng.random()

        def body():
            return self.items(self.rng.randint(1, 3), depth)
        b = self.balanced_scope(body)
        if k < .6:
            return ['{'] + b + ['}']
        if k < .8:
            return ['\\begingroup'] + b + ['\\endgroup']
        return ['{'] + b + ['}']

    # -- calls
    def call(self, depth, name=None):
        ks = self.known()
        if name is None:
            if not ks:
                return self.chars()
            name = self.rng.choice(ks)
        sig = self.lookup(name)
        return [name] + self.args(sig, depth, name)

    def args(self, sig, depth, name=None):
        # what is passed only calls lower ranked macros: expansion ends
        save = self.maxrank
        if name in NAMES:
            self.maxrank = min(self.maxrank, NAMES.index(name))
        if sig.get('text'):
            depth, self.maxrank = 0, 0
        r = self._args(sig, depth)
        self.maxrank = save
        return r

    def _args(self, sig, depth):
        out = list(sig['pre'])
        if sig['kind'] != 'mac':
            return out
        n = len(sig['del'])
        for i, d in enumerate(sig['del']):
            last = i == n - 1
            if i == 0 and sig['opt']:
                if self.chance(.5):
                    if self.chance(.2):
                        out.append(' ')
                    inner = self.content(min(depth, 1))
                    inner = [t for t in inner if t not in '[]']
                    if inner[:1] == ['{']:
                        inner = ['s'] + inner
                    out += ['['] + inner + [']']
                continue
            if d or (last and sig['brace']):
                c = self.content(depth)
                if self.chance(.15):
                    c = ['{'] + c + ['}'] + (self.chars(0, 1))
                out += [t for t in c] + d
            else:
                if self.chance(.15):
                    out.append(' ')
                if self.chance(.65):
                    out += ['{'] + self.content(depth) + ['}']
                else:
                    ks = self.known()
                    if self.params and self.chance(.3):
                        out += self.rng.choice(self.params)
                    elif ks and self.chance(.2) and depth > 0:
                        c = self.rng.choice(ks)
                        s = self.lookup(c)
                        if s['kind'] != 'mac' or not s['del'] and not s['pre'] and not s['brace']:
                            out.append(c)
                        else:
                            out += [self.rng.choice(LETTERS)]
                    else:
                        out += [self.rng.choice(LETTERS)]
        if sig['brace']:
            out += ['{'] + self.content(min(depth, 1)) + ['}']
        return out

    # -- definitions
    def mksig(self, cmd):
        r = self.rng
        n = r.choice([0, 0, 1, 1, 1, 2, 2, 3]) if self.chance(.93) else r.randint(4, 9)
        if cmd:
            return dict(kind='mac', pre=[], opt=n > 0 and self.chance(.4), brace=False, **{'del': [[] for _ in range(n)]})
        pre, brace = [], False
        dl = [[] for _ in range(n)]
        if self.chance(.45):
            for i in range(n):
                if self.chance(.55):
                    dl[i] = list(r.choice(DELIMS))
            if self.chance(.2):
                pre = list(r.choice([['.'], ['p'], ['(', '('], ['\\stop']]))
            if self.chance(.15):
                brace = True
        return dict(kind='mac', pre=pre, opt=False, brace=brace, **{'del': dl})

    def body(self, name, sig, depth):
        """tokens of a replacement text; parameters written with hashlvl #s"""
        rank = NAMES.index(name) if name in NAMES else (self.maxrank if name in UENV_RANK else self.maxrank)
        save = self.params, self.maxrank, self.hashlvl
        h = ['#'] * self.hashlvl
        mine = [h + [str(i + 1)] for i in range(len(sig['del']))]
        self.params = save[0] + mine
        self.maxrank = min(self.maxrank, rank)
        self.hashlvl *= 2
        self.scopes.append({})
        self.inbody += 1
        b = self.content(depth)
        for p in mine:
            if self.chance(.7):
                k = self.rng.randint(0, len(self.top_positions(b)) - 1)
                k = self.top_positions(b)[k]
                b = b[:k] + p + b[k:]
        # a nested definition
        if self.chance(self.w.get('nested', 0)) and rank > 1 and self.hashlvl <= 4 and depth > 0:
            inner = NAMES[self.rng.randrange(rank)]
            b += self.define(inner, depth - 1)
            b += self.call(0, inner)
            if mine:
                sig['text'] = True
        self.scopes.pop()
        self.inbody -= 1
        self.params, self.maxrank, self.hashlvl = save
        return b

    @staticmethod
    def top_positions(b):
        """positions outside parameters, arguments etc: here just the ends"""
        return [0, len(b)]

    def define(self, name, depth, allow_global=True):
        r = self.rng
        old = self.lookup(name)
        x = self.rng.random()
        cmd = x < self.w.get('newcommand', .3)
        glob = not cmd and allow_global and self.chance(.15)
        sig = self.mksig(cmd)
        if old and self.chance(.4) and not (cmd and (old['pre'] or old['brace'] or any(old['del']) or old['kind'] != 'mac')):
            sig = dict(old) if old['kind'] == 'mac' else sig
            if not cmd and sig['opt']:
                sig = self.mksig(False)
        if self.params:
            sig['text'] = True
        self.taint = False
        b = self.body(name, sig, depth)
        if self.taint:
            sig['text'] = True
        self.taint = bool(self.params)
        out = []
        h = ['#'] * self.hashlvl
        if cmd:
            out.append('\\renewcommand' if old else '\\newcommand')
            out += [name] if self.chance(.6) else ['{', name, '}']
            n = len(sig['del'])
            if n:
                out += ['[', str(n), ']']
                if sig['opt']:
                    d = [t for t in self.chars(0, 3) if t not in ('[', ']', '#')] if not self.params else ['o']
                    out += ['['] + d + [']']
            out += ['{'] + b + ['}']
        else:
            out += ['\\gdef' if glob else '\\def', name] + sig['pre']
            for i, d in enumerate(sig['del']):
                out += h + [str(i + 1)] + d
            if sig['brace']:
                out += h
            out += ['{'] + b + ['}']
        if glob:
            for s in self.scopes:
                s.pop(name, None)
            self.scopes[0][name] = sig
        else:
            self.scopes[-1][name] = sig
        return out

    def assign(self, depth):
        """a definition or alias"""
        ks = [n for n in NAMES[:self.maxrank]]
        if not ks:
            return self.chars()
        name = self.rng.choice(ks)
        x = self.rng.random()
        if x < .3 and self.w.get('let', .3):
            out = ['\\let', name]
            if self.chance(.5):
                out.append('=')
            lower = [n for n in self.known() if NAMES.index(n) <= NAMES.index(name)]
            if lower and self.chance(.6):
                src = self.rng.choice(lower)
                self.scopes[-1][name] = dict(self.lookup(src))
                return out + [src]
            self.scopes[-1][name] = dict(kind='char', pre=[], brace=False, opt=False, **{'del': []})
            return out + [self.rng.choice(LETTERS)]
        d = self.define(name, depth)
        if self.chance(.1) and d[0] in ('\\def', '\\gdef') and d[1] == name:
            d = ['\\expandafter', d[0], '\\csname'] + list(name[1:]) + ['\\endcsname'] + d[2:]
        return d

    # -- numbers and conditionals
    def number(self):
        r = self.rng
        x = r.random()
        if self.counters and x < .35:
            return ['\\value', '{'] + list(r.choice(self.counters)) + ['}']
        nm = [n for n in self.known() if self.lookup(n).get('num')]
        if nm and x < .55:
            return [r.choice(nm), '\\relax'] if self.chance(.7) else ['-', r.choice(nm), '\\relax']
        sg = r.choice([[], [], [], ['-'], ['-', '-'], ['+'], ['-', ' ', '+']])
        end = ['\\relax'] if self.chance(.5) else [' '] if self.chance(.5) else []
        return sg + list(str(r.randint(0, 4) if self.chance(.7) else r.randint(0, 3000))) + end

    def rel(self, num):
        """numbers before a relation are ended by the relation itself"""
        if num[-1] in ('\\relax', ' '):
            num = num[:-1]
        return num

    def dim(self):
        r = self.rng
        n = str(r.randint(0, 3))
        if self.chance(.6):
            n += '.' + r.choice(['5', '25', '0', '99', '75', '1', '02'])
        u = r.choice(['pt', 'pt', 'pt', 'in', 'cm', 'mm', 'pc', 'bp', 'dd', 'cc', 'sp'])
        return r.choice([[], [], ['-'], ['+']]) + list(n.split('.')[0] if u == 'sp' else n) + list(u)

    def branch(self, depth, inner):
        if self.chance(.5):
            return self.content(depth)
        return self.items(self.rng.randint(0, 2), depth, incond=True)

    def cond(self, depth, inner=False):
        r = self.rng
        self.conddepth += 1
        kinds = ['true', 'false', 'num', 'num', 'odd', 'case', 'case', 'x', 'defined', 'dim', 'switch']
        k = r.choice(kinds)
        if k == 'switch' and not self.switches:
            k = 'num'
        head = []
        if k in ('true', 'false'):
            head = ['\\if' + k]
        elif k == 'num':
            head = ['\\ifnum'] + self.rel(self.number()) + [r.choice('<=>')] + self.number()
        elif k == 'odd':
            head = ['\\ifodd'] + self.number()
        elif k == 'dim':
            head = ['\\ifdim'] + self.dim() + [r.choice('<>=')] + self.dim() + r.choice([['\\relax'], [' '], []])
        elif k == 'case':
            head = ['\\ifcase'] + self.number()
        elif k == 'x':
            pl = [n for n in self.known() if self.lookup(n).get('plain')]
            if pl and self.chance(.5):
                head = ['\\ifx', r.choice(pl), r.choice(pl)]
            else:
                head = ['\\ifx', r.choice('pq'), r.choice('pq')]
        elif k == 'defined':
            head = ['\\ifdefined', r.choice(NAMES + ['\\undefd', '\\relax'])]
        elif k == 'switch':
            head = ['\\if' + r.choice(self.switches)]
        # the signatures known after a branch are uncertain: keep changes local
        out = head
        self.scopes.append({})
        out = out + self.branch(depth, inner)
        self.scopes.pop()
        if k == 'case':
            for _ in range(r.randint(0, 3)):
                out.append('\\or')
                self.scopes.append({})
                out += self.branch(depth, inner)
                self.scopes.pop()
        if self.chance(.6):
            out.append('\\else')
            self.scopes.append({})
            out += self.branch(depth, inner)
            self.scopes.pop()
        out.append('\\fi')
        self.conddepth -= 1
        return out

    # -- other items
    def special(self, kind, depth):
        r = self.rng
        if kind == 'counter':
            if not self.counters or self.chance(.15) and len(self.counters) < 3:
                if self.conddepth or self.inbody:
                    return self.chars()
                c = 'c' + 'xyz'[len(self.counters)]
                self.counters.append(c)
                return ['\\newcounter', '{'] + list(c) + ['}']
            c = list(r.choice(self.counters))
            k = r.choice(['set', 'add', 'step', 'arabic', 'arabic'])
            if k == 'step':
                return ['\\stepcounter', '{'] + c + ['}']
            if k == 'arabic':
                return ['\\arabic', '{'] + c + ['}']
            return ['\\%scounter' % dict(set='set', add='addto')[k], '{'] + c + ['}', '{'] + \
                self.rel(self.number()) + ['}']
        if kind == 'switch':
            if not self.switches or self.chance(.15) and len(self.switches) < 3:
                if self.conddepth or self.inbody:
                    return self.chars()
                s = 'sw' + 'abc'[len(self.switches)]
                self.switches.append(s)
                return ['\\newif', '\\if' + s]
            return ['\\' + r.choice(self.switches) + r.choice(['true', 'false'])]
        if kind == 'numdef':
            ks = [n for n in NAMES[:self.maxrank]]
            if not ks:
                return self.chars()
            n = r.choice(ks)
            self.scopes[-1][n] = dict(kind='mac', pre=[], opt=False, brace=False, num=True, plain=True, **{'del': []})
            return ['\\def', n, '{'] + list(str(r.randint(0, 5))) + ['}']
        if kind == 'plaindef':
            ks = [n for n in NAMES[:self.maxrank]]
            if not ks:
                return self.chars()
            n = r.choice(ks)
            self.scopes[-1][n] = dict(kind='mac', pre=[], opt=False, brace=False, plain=True, **{'del': []})
            return ['\\def', n, '{'] + r.choice([[], ['p'], ['q'], ['p', 'q'], ['p', 'q', 'r']]) + ['}']
        if kind == 'csname':
            ks = self.known()
            if ks and self.chance(.8):
                n = r.choice(ks)
                mid = list(n[1:])
                if self.chance(.2):
                    em = [x for x in ks if self.lookup(x).get('plain')]
                    if em:
                        mid = mid[:-1] + [r.choice(em)] + mid[-1:]
                return ['\\csname'] + mid + ['\\endcsname'] + self.args(self.lookup(n), min(depth, 1))
            return ['\\csname', 'n', 'o', 'n', '\\endcsname']
        if kind == 'expandafter':
            ks = self.known()
            if not ks:
                return self.chars()
            a, b = r.choice(ks), r.choice(ks)
            x = r.random()
            if x < .5:
                # \a applied to what \b expands to
                return ['\\expandafter', a] + self.call(min(depth, 1), b) + self.args(self.lookup(a), 0)
            if x < .7:
                return ['\\expandafter', '\\expandafter', '\\expandafter', a] + self.call(0, b) + self.args(self.lookup(a), 0)
            if x < .85:
                return ['\\expandafter', a, '\\csname'] + list(b[1:]) + ['\\endcsname'] + self.args(self.lookup(b), 0) + self.args(self.lookup(a), 0)
            return ['\\expandafter', r.choice(LETTERS)] + self.call(0, b)
        if kind == 'catcode':
            if self.conddepth or self.params:
                return ['\\vfcat']
            x = r.random()
            if x < .2:
                return [r.choice(['\\makeatletter', '\\makeatother'])]
            if x < .4:
                return ['\\catcode', '`', '\\@', '='] + list(r.choice(['11', '12'])) + ['\\relax']
            if x < .55 and self.bang:
                return ['\\catcode', '`', '\\!', '='] + list(r.choice(['11', '12', '13'])) + ['\\relax']
            if x < .75:
                return ['\\vfcat']
            return ['LEX@' if self.nq and self.chance(.6) else 'LEX!']
        if kind == 'env':
            if self.incell:
                return self.group(depth)
            e = r.choice(ENVS)
            b = self.balanced_scope(lambda: self.items(r.randint(1, 3), depth))
            return ['\\begin', '{'] + list(e) + ['}'] + b + ['\\end', '{'] + list(e) + ['}']
        if kind == 'math':
            if not self.mathok or self.inbody:
                return self.chars()
            self.mathok = False
            b = self.balanced_scope(lambda: self.items(r.randint(1, 3), min(depth, 1), math=True))
            self.mathok = True
            return ['$', 'k'] + b + ['$']
        if kind == 'tabular':
            if self.incell or not self.mathok:
                return self.group(depth)
            self.incell = True
            out = ['\\begin', '{'] + list('tabular') + ['}', '{', 'l', 'l', '}']
            rows = r.randint(1, 3)
            for i in range(rows):
                for j in range(2):
                    out += ['k'] + self.balanced_scope(lambda: self.items(r.randint(1, 2), min(depth, 1)))
                    if j == 0:
                        out.append('&')
                if i < rows - 1:
                    out += ['\\\\']
            self.incell = False
            return out + ['\\end', '{'] + list('tabular') + ['}']
        if kind == 'box':
            b = self.balanced_scope(lambda: self.items(r.randint(1, 2), min(depth, 1)))
            return [r.choice(['\\textbf', '\\emph', '\\mbox']), '{'] + b + ['}']
        if kind == 'uenv':
            if self.conddepth or self.params or self.incell:
                return self.chars()
            e = r.choice(UENVS)
            old = self.lookup('env:' + e)
            if not old or self.chance(.2):
                sig = dict(kind='mac', pre=[], opt=self.chance(.3), brace=False, **{'del': [[] for _ in range(r.randint(0, 2))]})
                if not sig['del']:
                    sig['opt'] = False
                out = ['\\renewenvironment' if old else '\\newenvironment', '{'] + list(e) + ['}']
                if sig['del']:
                    out += ['[', str(len(sig['del'])), ']']
                    if sig['opt']:
                        out += ['[', 'o', ']']
                out += ['{'] + self.body(e, sig, min(depth, 1)) + ['}', '{'] + self.body(e, dict(sig, **{'del': []}), min(depth, 1)) + ['}']
                self.scopes[-1]['env:' + e] = sig
                return out
            b = self.balanced_scope(lambda: self.items(r.randint(1, 2), min(depth, 1)))
            return ['\\begin', '{'] + list(e) + ['}'] + self.args(old, 1) + ['k'] + b + ['\\end', '{'] + list(e) + ['}']
        raise KeyError(kind)

    def items(self, n, depth, incond=False, math=False):
        out = []
        kinds = [(k, v) for k, v in self.w.items() if k in
                 ('text', 'call', 'assign', 'group', 'cond', 'counter', 'switch', 'numdef', 'plaindef', 'csname',
                  'expandafter', 'catcode', 'env', 'math', 'tabular', 'box', 'uenv', 'space') and v > 0]
        for _ in range(n):
            if self.budget <= 0:
                out += self.chars()
                break
            self.budget -= 1
            k = self.rng.choices([x[0] for x in kinds], [x[1] for x in kinds])[0]
            if math and k in ('env', 'math', 'tabular', 'uenv', 'catcode'):
                k = 'call'
            if k in ('env', 'tabular', 'box', 'group', 'cond', 'math', 'uenv') and depth <= 0:
                k = 'text'
            if k == 'text':
                out += self.chars()
            elif k == 'space':
                out.append(' ')
            elif k == 'call':
                out += self.call(depth)
            elif k == 'assign':
                out += self.assign(min(depth, 2))
            elif k == 'group':
                out += self.group(depth - 1)
            elif k == 'cond':
                out += self.cond(depth - 1)
            else:
                out += self.special(k, depth - 1)
        return out

    def program(self, n, depth=3):
        out = []
        if self.w.get('catcode'):
            self.nq = True
            self.bang = True
            out += ['\\def', '\\q', '{', 'Q', '}', '\\makeatletter'] if False else []
        return self.prelude() + self.items(n, depth)

    def prelude(self):
        if not self.w.get('catcode'):
            return []
        # \q and \q@z exist, the active ! is defined
        return ['\\def', '\\q', '{', 'Q', '}', '{', '\\makeatletter', '\\expandafter', '\\gdef', '\\csname', 'q', '@', 'z',
                '\\endcsname', '{', 'Z', '}', '}', '{', '\\catcode', '`', '\\!', '=', '1', '3', '\\relax',
                '\\gdef', 'LEX!', '{', 'A', '}', '}']


UENV_RANK = set(UENVS)


def is_cs(t):
    return len(t) > 1 and t[0] == '\\'


def is_word(t):
    return is_cs(t) and t[1].isalpha() and t[1] < '\x7f'


def clean(toks):
    """drop space tokens the lexer could not produce"""
    out = []
    for t in toks:
        if t == ' ' and (not out or out[-1] == ' ' or is_word(out[-1]) or out[-1] in ('LEX@', '\\\\')):
            continue
        out.append(t)
    return out


def render(toks):
    s = ''
    for t in toks:
        if t == 'LEX@':
            s += '\\q@z\\relax '
        elif t == 'LEX!':
            s += '!'
        elif is_word(t):
            s += t + ' '
        else:
            s += t
    return s
