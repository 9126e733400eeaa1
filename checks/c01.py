"""C01: the tokenizer follows Lexer.tla for every input and catcode table."""
import itertools
from vf import pool

DEFAULT = {92: 0, 123: 1, 125: 2, 36: 3, 38: 4, 10: 5, 35: 6, 94: 7, 95: 8, 0: 9,
           32: 10, 9: 10, 13: 10, 12: 10, 126: 13, 37: 14}
ALPHA = '\\{}$&#^_~% \t\n\r\0aAbZz09@!.é☃'


def tokenize(case):
    """case: {inp: str, sets: [(char, code)], at: {k: [(char, code)]}, via}"""
    from plasTeX.TeX import TeX
    from plasTeX.Tokenizer import EscapeSequence
    tex = TeX()
    ctx = tex.ownerDocument.context
    for ch, code in case['sets']:
        ctx.catcode(ch, code)
    src = case['inp']
    if case.get('via') == 'bytes':
        src = src.encode('utf-8')
    tex.input(src)
    ev = []
    at = {int(k): v for k, v in case.get('at', {}).items()}
    for ch in case.get('which', ''):
        ev.append({'k': 'which', 'ch': ord(ch), 'code': int(ctx.whichCode(ch))})
    n = 0
    limit = 4 * len(case['inp']) + 20
    try:
        it = tex.itertokens()
        while True:
            for ch, code in at.get(n, ()):
                ctx.catcode(ch, code)
                ev.append({'k': 'cat', 'ch': ord(ch), 'code': code})
            try:
                t = next(it)
            except StopIteration:
                ev.append({'k': 'end'})
                break
            n += 1
            text = str(t)
            c = t.catcode
            if type(t) is EscapeSequence and text.startswith('active::') and c == 0:
                c, text = 13, text[len('active::'):]
            ev.append({'k': 'tok', 'c': -1 if c is None else int(c), 'cls': type(t).__name__,
                       't': [ord(x) for x in text]})
            if n > limit:
                ev.append({'k': 'exc', 'what': 'endless token stream'})
                break
    except Exception as e:
        ev.append({'k': 'exc', 'what': '%s: %s' % (type(e).__name__, str(e)[:100])})
    return ev


def to_trace(case, ev):
    tab = dict(DEFAULT)
    for ch, code in case['sets']:
        tab[ord(ch)] = code
    if isinstance(ev, dict):
        ev = [{'k': 'exc', 'what': ev['exc']}]
    return {'inp': [ord(c) for c in case['inp']], 'tab': sorted(tab.items()), 'ev': ev}


def ok_table(sets):
    """the normal form for the line-end character (see DESIGN.md)"""
    return not any(ch == '\n' and code in (0, 7, 11) for ch, code in sets)


TABLES = {
    'default': [],
    'atletter': [('@', 11)],
    'eol-other': [('\n', 12)],
    'eol-active': [('\n', 13), (' ', 13)],
    'Zeol': [('Z', 5), ('!', 10), ('A', 9), ('z', 15)],
    'swap': [('!', 0), ('\\', 12), ('@', 1), ('Z', 2), ('{', 12), ('}', 12), ('b', 14), ('%', 12)],
    'aother': [('a', 12), ('b', 12), ('0', 11)],
    'supA': [('A', 7), ('^', 12), ('~', 9), ('.', 10)],
    'verb': [(c, 12) for c in '\\{}$&#^_~% \t\n\r'],
}


def cases_exhaustive(ck):
    thorough = ck.thorough
    n = 0
    small = '\\{^ \n%a@~\0'
    for k in range(0, (5 if thorough else 4) + 1):
        if k == 5:
            al = '\\^ \na%'
        else:
            al = small if k < 4 or thorough else '\\^ \na%~'
        for s in itertools.product(al, repeat=k):
            yield {'inp': ''.join(s), 'sets': []}
    for name, sets in sorted(TABLES.items()):
        al = {'Zeol': '\\Z!A \nza', 'swap': '!\\@Zb a\n', 'aother': '\\ab0 \n@', 'atletter': '\\@ a!\n^',
              'supA': 'AM^\\.~ ', 'verb': '\\a \n%', 'eol-other': '\\a \n%^', 'eol-active': '\\a \n%^',
              'default': '\\ \t\n\r%a'}[name]
        for k in range(1, (4 if thorough else 3) + 1):
            for s in itertools.product(al, repeat=k):
                yield {'inp': ''.join(s), 'sets': sets}
    # every single character and every escaped character
    for o in list(range(0, 256)) + [0x2028, 0x85, 0xd7ff, 0xe000, 0xffff, 0x10ffff, 0x1d400]:
        for f in ('%s', '\\%s', '\\%s x', 'a%sb', '^^%s', '\\a%s b', '^^%sx', 'x\n%s\ny'):
            yield {'inp': f % chr(o), 'sets': []}


def random_sets(rng):
    mode = rng.randrange(5)
    if mode == 0:
        return []
    if mode == 1:
        return rng.choice(sorted(TABLES.values()))
    if mode == 2:
        chars = list(ALPHA)
        codes = [DEFAULT.get(ord(c), 11 if c.isalpha() and ord(c) < 128 else 12) for c in chars]
        rng.shuffle(codes)
        sets = list(zip(chars, codes))
    else:
        sets = [(rng.choice(ALPHA), rng.randrange(16)) for _ in range(rng.randrange(1, 9))]
    return [(c, 5 if c == '\n' and k in (0, 7, 11) else k) for c, k in sets]


FRAG = ['\\', '\\par', '\\par ', '\\a', '\\ab ', '\\@', '\\a@b', '\\ ', '\\  ', '\\\n', '\n', '\n\n', '\n \n', '\n\n\n', ' ', '  ',
        '\t', '%x\n', '%', '% a\n\n', '^^M', '^^@', '^^J', '^^a', '^^41', '^^5e', '^^', '^', '^^^', '^^5e^A', '\\^^41 x',
        '\\foo^^41b ', '\\foo^^@b', '\\^^@', '^^\n', '^^é', '{', '}', '$', '$$', '&', '#', '##1', '_', '~', '~ ', 'é', 'a', 'Z', '0',
        '.', '\0', '\r', '\r\n', '!', '@', '\x7f', '\x1e', '^^\x1e', '\\~', '\\é', '\\é x', '\\0 x', '\\A%\n  b', '--', "``",
        '\\verb|x|', '\f', '\\\t', 'x\\\n\ny', '\\par\n\n']


def cases_random(ck, n):
    rng = ck.rng
    for i in range(n):
        sets = random_sets(rng)
        if rng.random() < .7:
            s = ''.join(rng.choice(FRAG) for _ in range(rng.randrange(1, 12)))
        else:
            s = ''.join(rng.choice(ALPHA) for _ in range(rng.randrange(1, 30)))
        case = {'inp': s, 'sets': sets}
        if rng.random() < .3:
            at = {}
            for _ in range(rng.randrange(1, 4)):
                ch = rng.choice(ALPHA) if rng.random() < .5 else rng.choice(s)
                code = rng.randrange(16)
                if ch == '\n' and code in (0, 7, 11):
                    code = 12
                at.setdefault(str(rng.randrange(0, 8)), []).append((ch, code))
            case['at'] = at
        if rng.random() < .3:
            case['which'] = ALPHA
        if rng.random() < .1 and '\r' not in s and not any('\ud800' <= c < '\ue000' for c in s):
            case['via'] = 'bytes'
        yield case


def has_normal_form(case):
    s = case['inp']
    return True


def run(ck):
    ck.model('MC_Lexer', timeout=300, expect_states=10000)
    cases = list(cases_exhaustive(ck))
    nex = len(cases)
    cases += list(cases_random(ck, 40000 if ck.thorough else 9000))
    evs = pool.run(tokenize, cases, chunk=400, timeout=10)
    traces = [to_trace(c, e) for c, e in zip(cases, evs)]
    # binding self-test: corrupted recordings must be rejected
    bad = []
    for t in traces[nex:nex + 400]:
        toks = [i for i, e in enumerate(t['ev']) if e['k'] == 'tok']
        if len(toks) < 3:
            continue
        ev = [dict(e) for e in t['ev']]
        m = len(bad) % 3
        i = toks[len(toks) // 2]
        if m == 0:
            ev[i]['c'] = 12 if ev[i]['c'] != 12 else 11
        elif m == 1:
            ev[i]['t'] = ev[i]['t'] + [120]
        else:
            ev.pop()  # the end of the input was not reported
            ev.append({'k': 'tok', 'c': 11, 'cls': 'Letter', 't': [97]})
        bad.append(dict(t, ev=ev))
        if len(bad) == 9:
            break
    vs = ck.validate('LexerTrace', traces + bad, timeout=900)
    for c, t, v in zip(cases, traces, vs):
        if v[0] != 'ok':
            ck.violation(('lex', c['inp'], str(c['sets']), str(c.get('at'))),
                         'input %r table %r: %s' % (c['inp'], c['sets'] or 'default', v[1]),
                         {'case': c, 'observed': t['ev'], 'verdict': v})
    ck.selftest(vs[len(traces):])
    ck.cov['traces_validated_against_impl'] += len(traces)
    ck.cov['exhaustive_strings'] = nex
    ck.cov['tokens_checked'] = sum(1 for t in traces for e in t['ev'] if e['k'] == 'tok')
    for c in cases[nex:nex + 4]:
        ck.sample({'input': c['inp'], 'catcodes': c['sets'], 'changes': c.get('at')})
    ck.assumptions += ['line-end character never given category 0, 7 or 11 (normal form)',
                       'TLC evaluates Lexer.tla correctly']
