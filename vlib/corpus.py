"""The cases of each property. Patterns are program texts, not inputs: each is decided for every input up to its
length bound. Lists live in corpus/*.txt (one pattern per line, as written between the quotes of a raw string;
\\u00XX style lines are avoided, byte values above 127 are written as latin-1 characters)."""
import os

from . import cases as C
from . import harness as H
from .core import cstr

HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(os.path.dirname(HERE), 'corpus')

CHUNK = {'C11': 2, 'C16': 4, 'C14': 5, 'C15': 5, 'C18': 8}

ASSUMPTIONS = [
    'patterns and token definitions are template arguments: each of the listed ones is decided for all inputs, patterns outside the list are not',
    'of inputs longer than the stated length, only those given by the longer templates (concrete texts with one to four symbolic bytes) are inside the bound',
    'clang 18 front end and the LLVM passes applied before execution (inlining, SROA, instruction combining) are trusted, and validated by running the compiled code on models of explored paths',
    'the reference matcher (vlib/pat.py) states what the documentation says a pattern denotes',
    'char is 8 bits and signed (x86-64)',
]
_S = ('every input of length 0..n (n: quick / thorough), all byte values, and per pattern a few longer texts (up to 40, 150 or 340 bytes) in which one to four '
      'bytes take every value; ')
BOUNDS = {
    'C01': _S + 'n = length of the construct + 1..3; single-character constructs alone and in small contexts',
    'C02': _S + 'n = 6 / 9',
    'C03': _S + 'n = 6 / 8; a grid of 8 atoms x 63 quantifier texts x 12 contexts (an even selection of 430 in the quick tier) and lists; runs of 252 to 340 bytes for 24 patterns',
    'C04': _S + 'n = 6 / 8; a grid of alternatives x group kind x quantifier x what follows (an even selection of 190 in the quick tier) and lists',
    'C05': _S + 'n = 6 / 8 for a search, 5 / 7 for iteration',
    'C06': _S + 'n = 6 / 8',
    'C07': _S + 'n = 5 / 7 (tokenizers 4 / 6), the null view included; every load and store of every path',
    'C08': _S + 'n = 6 / 8 for next(), 3 / 4 for the comparison of the ways to iterate; runs of 252 to 340 bytes',
    'C09': _S + 'n = 4..5 / 6..8 for equivalence, 3 for the admission of first characters',
    'C10': _S + 'n = 5 / 7',
    'C11': 'first characters of all matches within inputs of length 1 .. 3-4 / 5; every pair within groups of patterns and with a fixed set of patterns',
    'C12': _S + 'n = 6 / 8 for a search, 5 / 7 for iteration',
    'C13': _S + 'n = length of the escape\'s bytes + 1, at most 5 / 6',
    'C14': _S + 'n = 5 / 7; tokens and separators of 256 bytes and more; up to 12 token types',
    'C15': _S + 'n = 4 / 6 (2 / 3 with more than six token types); equality of iterators over every two inputs of up to 3 / 4 bytes',
    'C16': 'every byte value; the listed sets and pairs of sets',
    'C17': 'all contents of buffers of length 0..4-6 / 6-8, and of all pairs of such buffers; views of up to 600 / 4097 bytes with two symbolic bytes each',
    'C18': _S + 'n = 4 / 5',
    'C19': _S + 'n = 6 / 8 (3 / 4 for all ways to iterate, tokenizers 5 / 6); steps per path bounded by a fixed limit',
    'C20': _S + 'n = 4 / 5 (iteration 3 / 4, tokenizers 3 / 5), the null view included; equality of views and of token iterators over two texts of 4 / 5 and 3 / 4 bytes; all ways to read a match for five patterns',
    'C21': _S + 'n = 5 / 7',
}


def lines(name):
    with open(os.path.join(DIR, name + '.txt'), encoding='latin-1') as f:
        return [l.rstrip('\n') for l in f if l.rstrip('\n') and not l.startswith('#!')]


def uniq(xs):
    seen = set()
    r = []
    for x in xs:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


def pats(tier, *names, every=1):
    r = []
    for n in names:
        if ':' in n:
            n, k = n.split(':')
            l = lines(n)
            r += l if tier == 'thorough' else l[:int(k)]
        else:
            r += lines(n)
    return uniq(r)


_memo = {}


def cases(prop, tier):
    k = (prop, tier)
    if k not in _memo:
        _memo[k] = globals()['make_' + prop](tier) + known(prop)
    return _memo[k]


def known(prop):
    """the cases of the known findings (known_findings.json), each up to the length at which the listed inputs are all that fail"""
    return {
        'C02': lambda: [C.Search('(?:ab?)*b', 0, 2, mode='begin')],
        'C03': lambda: [C.Search('(?:a{1,2}){2}b', 0, 3, mode='span')],
        'C04': lambda: [C.Search('(?:a|ab){2}c', 0, 4, mode='caps')],
        'C09': lambda: [C.Diff('(?:[ab]+c*?)+b', 0, 3)],
    }.get(prop, lambda: [])()


def nmax(tier, q, t):
    return q if tier == 'quick' else t


def make_LAB(tier):
    kind = os.environ['LAB_KIND'].split(',')
    ps = [l.rstrip('\n') for l in open(os.environ['LAB_FILE'], encoding='latin-1') if l.rstrip('\n')]
    n = int(os.environ.get('LAB_N', '5'))
    r = []
    for p in ps:
        for k in kind:
            r.append({'search': lambda: C.Search(p, 0, n), 'iter': lambda: C.Iterate(p, 0, n), 'ways': lambda: C.Ways(p, 0, n),
                      'lang': lambda: C.Search(p, 0, n, mode='lang'), 'unopt': lambda: C.Diff(p, 0, n), 'safe': lambda: C.Safe(p, 0, n),
                      'reparse': lambda: C.Diff(p, 0, n, how='reparsed', what='search'), 'agree': lambda: C.Agree(p, 0, min(n, 4))}[k]())
    if os.environ.get('LAB_EXTRA'):
        k, l = map(int, os.environ['LAB_EXTRA'].split(','))
        lengthen(r, k, l, os.environ.get('LAB_SEED', ''))
    return r


def lengthen(cs, k, longest=40, seed='', shortest=None, long=0):
    """inputs beyond the exhaustive lengths: texts around words of the pattern, with a few symbolic bytes.
    long: so many more, much longer ones for patterns without groups"""
    from . import pat as PT
    for c in cs:
        short = c.nmax if shortest is None else shortest
        if hasattr(c, 'p') and c.pattern not in atomic():
            c.extra = PT.templates(c.p, k, short, longest, seed)
            if long and '(' not in c.pattern:
                c.extra += PT.templates(c.p, long, longest, 150, seed + 'long')
        elif hasattr(c, 'defs'):
            c.extra = PT.token_templates([(t, PT.P(x)) for t, x in c.defs], k, short, longest, seed)
    return cs


def longer(tier, cs, seed='', long=1):
    """the usual number of longer inputs"""
    return lengthen(cs, 3, 40, seed, long=long) if tier == 'quick' else lengthen(cs, 16, 60, seed, long=4 * long)


def wide(tier, make, counts=0, heavy=True):
    """patterns with many groups and alternatives, long literals and large counts: short inputs and long ones around their words"""
    ps = lines('wide')
    if not heavy:
        # what follows each of many optional parts is instantiated anew
        ps = [p for p in ps if sum(p.count(c) for c in '*+?') - p.count('(?') <= 5]
    n = nmax(tier, 2, 4)
    r = lengthen(dedup([make(p, 0, n) for p in ps]), nmax(tier, 3, 12), 60, 'w')
    if counts:
        r += lengthen(dedup([make(p, 0, n) for p in some(lines('counts'), tier, counts)]), nmax(tier, 3, 8), 150, 'w')
    return r


def atomic():
    """patterns that fail on longer inputs because of the known finding (iterations of quantified groups are atomic)"""
    if 'atomic' not in _memo:
        _memo['atomic'] = frozenset(lines('atomic'))
    return _memo['atomic']


def some(xs, tier, quick):
    """an even selection for the quick tier"""
    xs = list(xs)
    if tier == 'thorough' or len(xs) <= quick:
        return xs
    return [xs[i * len(xs) // quick] for i in range(quick)]


# ---------------------------------------------------------------- C01
CLASSES = ['.', '\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\N', '\\a', '\\e', '\\t', '\\n', '\\r', '\\f']
ESCAPED = ['\\' + c for c in '.*+?()[]{}|^$\\/-,"\'!#%&:;<=>@_`~']
SETS = ['[a]', '[abc]', '[a-f]', '[^a-f]', '[a-fA-F0-9]', '[^a-fA-F0-9]', '[-a]', '[a-]', '[\\d]', '[\\w]', '[^\\w]', '[\\s\\d]',
        '[\\D]', '[^\\D]', '[^\\s]', '[\\n]', '[^\\n]', '[ -~]', '[!-/]', '[.]', '[$]', '[+*?]', '[\\\\]', '[\\]]', '[\\-]', '[a\\-z]',
        '[\xe9]', '[\xe0-\xff]', '[^\xe9]', '[^\xe0-\xff]', '[0-35-7]', '[a-cx-z_]', '[z]', '[^-a]', '[a^]', '[^^]', '[,]', '[ ]', '["]',
        '[a-a]', '[^a-a]', '[^z]', '[a-z]', '[A-Z]', '[0-9]', '[^0-9]', '[^a-z]', '[^A-Z0-9]', '[\\w-]', '[\\w.]', '[^\\w.]', '[^\\d\\s]',
        '[\\S]', '[^\\S]', '[\\W]', '[^\\W]', '[\\t\\n]', '[^\\t]', '[\\a]', '[\\e]', '[\\f\\r]', '[b-ce-fh]', '[^b-ce-fh]', '[aa]', '[ab-b]',
        '[a-cb-d]', '[^a-cb-d]', '[\\.]', '[\\*]', '[^\\*]', '[\\^a]', '[|]', '[^|]', '[&-)]', '[:-@]', '[\x80-\x8f]', '[^\x80-\x8f]', '[\x7f]',
        '[~]', '[a-z\xe0-\xff]', '[\\x]', '[\\o]', '[#-&]', '[!]', '[^!]', '[/]', '[<->]', '[=]', '[\']', '[`]', '[_]', '[@]', '[%a]',
        '[^\\\\]', '[^\\]]', '[^\\-]', '[^.]', '[^$]', '[^+]', '[0]', '[^0]', '[0-1]', '[8-9]', '[y-z]', '[Y-Z]', '[\xf0-\x10]', '[^\xf0-\x10]', '[\x80-\x7e]', '[\xc0-a]', '[^\xc0-a]', '[\x01-\x7f]', '[\x81-\xfe]', '[^\x81-\xfe]']
LITERALS = [c for c in map(chr, list(range(1, 127))) if c not in '\\^$.|?*+()[]{}\n'] + ['\xe9', '\x80', '\xff', '\x7f', '\xa0', '\xc3']


def make_C01(tier):
    r = []
    one = CLASSES + SETS
    for x in one:
        r.append(C.Search(x, 0, 3))
        r.append(C.Search(x + 'b', 0, 4))
        r.append(C.Search('a' + x, 0, 4))
    for x in CLASSES + some(SETS, tier, 12):
        for c in ('%s{2}', '(%s)', '%s\\d', '\\D%s', '(%s)(%s)', '%sab', '[ab]%s', '%s[^a]', '%s|zz', '(?:%s|zz)b', '%s$', '^%s'):
            r.append(C.Search(c.replace('%s', x), 0, 3))
    for x in ESCAPED + LITERALS:
        r.append(C.Search(x, 0, 2))
    for x in ESCAPED:
        r.append(C.Search('a' + x + 'b', 0, 4))
    for x in some(ESCAPED, tier, 12) + some(LITERALS, tier, 20):
        for c in ('%s\\w', '%s+', '(%s)b', '[a]%s', '%s%s'):
            r.append(C.Search(c.replace('%s', x), 0, 3))
    return lengthen(dedup(r), 1, 16, '01')


def dedup(cs):
    seen = set()
    r = []
    for c in cs:
        k = (type(c).__name__, c.key, getattr(c, 'mode', ''), getattr(c, 'how', ''))
        if k not in seen:
            seen.add(k)
            r.append(c)
    return r


def searches(ps, mode, n):
    return dedup([C.Search(p, 0, n, mode=mode) for p in ps])


# ---------------------------------------------------------------- C02 .. C06
def make_C02(tier):
    return longer(tier, searches(pats(tier, 'search', 'hand', 'mix:90', 'more:0'), 'begin', nmax(tier, 6, 9)), '02') + wide(tier, lambda *a: C.Search(*a, mode='begin'))


QUANTS = ['*', '+', '?', '{2}', '{3}', '{1}', '{0}', '{1,}', '{2,}', '{0,}', '{0,1}', '{0,2}', '{1,2}', '{1,3}', '{2,3}', '{2,4}', '{0,3}', '{3,}', '{2,2}', '{10}', '{3,12}']
QTEXTS = [q + m for q in QUANTS for m in ('', '?', '+')]


def quant_grid():
    r = []
    for a in ('a', '[ab]', '(?:ab)', '(a|b)', '.', '\\w', '(ab|c)', '[^b]'):
        for q in QTEXTS:
            for pre, post in (('', ''), ('', 'b'), ('', 'a'), ('', 'ab'), ('c', 'c'), ('', '[^a]'), ('(', ')b'), ('', 'a*b'), ('b', '(a?)'), ('', '$'), ('', 'a?b+?'), ('', '(?:a|bc)')):
                r.append(pre + a + q + post)
    return r


# repetitions beyond the range of a byte
RUNS = ['a{257,}?b', 'a{257,259}?b', 'a{256,}+b', 'a{257}?b', 'a{257}+b', '(?:a|b){256,}?c', 'a*ab', 'a+a', '[ab]*b', '.*a', 'a*?b', 'a*+b', '(?:ab)*ab', '\\w+\\d', 'a{2,}?ab', '[^b]*b', 'a{250,260}ab', 'a{256}a', 'a{257,}b', 'a{1,258}?b', 'a*aab', '[a-z]+ ?', '(?:a|b)*b',
        'x?a+ab', 'a*b?', 'b*a*ab', 'a{0,300}a', '[ab]+?[^a]', '(?:a{2})*a', 'a*a*b']


def runs(tier, make):
    from . import pat as PT
    r = []
    for p in RUNS:
        c = make(p, 0, 1)
        c.extra = PT.long_words(p, nmax(tier, 1, 3)) + PT.long_words(p, nmax(tier, 1, 3), 254, 259, 'b', (252, 258))
        r.append(c)
    return r


def make_C03(tier):
    grid = quant_grid()
    # every quantifier text with every kind of what follows, whatever the atom
    return longer(tier, searches(uniq(some(grid, tier, 430) + pats(tier, 'quant', 'handq')), 'span', nmax(tier, 6, 8)), '03') + wide(tier, lambda *a: C.Search(*a, mode='span'), counts=99) + runs(tier, lambda *a: C.Search(*a, mode='span'))


BRANCHES = ['ab|a', 'a|ab', 'abc|ab', 'ab|abc', 'a|bc', 'bc|a', 'ab|a|b', 'a|b|ab', '[ab]|aa', 'abc|a', 'aa|a', 'a|(b)c', 'a?|b', 'ab?|a', 'a+|b', 'a{1,2}|c']


def branch_grid():
    r = []
    for a in BRANCHES:
        for o in ('(', '(?:'):
            for q in ('', '?', '??', '?+'):
                for t in ('b', 'bc', 'c', '', 'a', '(?:b|bc)', '[^a]', 'c?b'):
                    r.append('%s%s)%s%s' % (o, a, q, t))
    return r


def make_C04(tier):
    return longer(tier, searches(uniq(pats(tier, 'alt', 'handalt', 'more:0') + some(branch_grid(), tier, 190)), 'caps', nmax(tier, 6, 8)), '04') + wide(tier, lambda *a: C.Search(*a, mode='caps'))


def make_C05(tier):
    ps = pats(tier, 'caps', 'handcaps', 'more:0')
    return longer(tier, searches(ps, 'caps', nmax(tier, 6, 8)) + dedup([C.Iterate(p, 0, nmax(tier, 5, 7)) for p in some([p for p in ps if '(' in p], tier, 110)]), '05') + wide(tier, lambda *a: C.Search(*a, mode='caps')) + wide(tier, C.Iterate)


def make_C06(tier):
    return longer(tier, searches(pats(tier, 'mix', 'alt:90', 'caps:90', 'quant:90', 'hand'), 'lang', nmax(tier, 6, 8)), '06') + wide(tier, lambda *a: C.Search(*a, mode='lang'), counts=6)


# ---------------------------------------------------------------- C07 .. C10
def make_C07(tier):
    n = nmax(tier, 5, 7)
    ps = pats(tier, 'hand', 'anch:50', 'mix:60', 'search:40', 'quant:50', 'caps:50', 'parse:40', 'alt:30') + ESC_FEW
    r = dedup([C.Safe(p, 0, n) for p in uniq(ps)])
    r += [C.TokSafe(d, 0, nmax(tier, 4, 6)) for d in some(TOKDEFS, tier, 25)]
    return longer(tier, r, '07') + wide(tier, C.Safe)


def make_C08(tier):
    ps = pats(tier, 'iter', 'hand', 'mix:60', 'search:60', 'anch:40', 'caps:40', 'quant:40')
    return longer(tier, dedup([C.Iterate(p, 0, nmax(tier, 6, 8)) for p in ps]) + dedup([C.Ways(p, 0, nmax(tier, 3, 4)) for p in some(ps, tier, 60)]), '08') + wide(tier, C.Iterate) + runs(tier, C.Iterate)


NULLABLE = ['(?:b?)', '(?:b*)', '(b?)', '(?:b|c?)', '(?:b?c?)', '(?:b??)', '(?:b*+)', 'b*?', 'b?', 'b{0}', 'b{0,2}', '(?:b?|c)', '(b*|c)', '(?:b{0,1})?', '(?:b?){2}', '(?:(b)?|c)', '(?:c|(?:b*))', '(?:b?)+', '(?:b?)*', '(?:b|c)?', '(b|c*)??',
            '[bc]{0,1}?', '(?:b?)(?:c?)', 'b*c*', 'b?c??', '(?:(?:b)?)?']
CHOICE = ['(?:b|a)', '(?:bc|ac)', '(?:[^a]|ab)', '(b|a)', '(?:b|(?:c|a))', '(?:b|c|a)c', '(?:c|\\wb)', '(?:b+|a)', '(?:(b)|(a))', '(?:b{2}|a)', '(?:b|a?)c', '[^b]', '\\w', '.', '[a-c]', '(?:\\d|\\w)', '[b-da]', '\\D', '(?:[bc]|[^bc])', '(?:a{2}|b)']


def opt_grid():
    """a quantifier before what can begin with its character in spite of what comes first"""
    r = []
    for x in ('a', '[ab]'):
        for q in ('*', '*?', '+', '?', '??', '+?', '{1,2}', '{0,2}?'):
            for h in NULLABLE:
                for t in ('a', 'ac', ''):
                    r.append(x + q + h + t)
            for h in CHOICE:
                r.append(x + q + h)
                r.append('(' + x + ')' + q + h + 'c')
    return r


def heads():
    """patterns whose admission set is checked on its own"""
    r = CLASSES + SETS + ESCAPED + LITERALS + ['\\x41', '\\x{4142}', '\\101', '\\xE9', '\\x{E9EA}', '\\351', '^a', '^', 'a$', '$', '(?:$|a)b', '^?a', '(^a|b)']
    for h in NULLABLE:
        r += [h + 'a', h + '[^b]', h]
    for h in CHOICE:
        r += [h, h + '?c', h + '*c', h + '{2}', '(' + h + ')']
    for x in ('a', '\\W', '[^a]', '[a-c]'):
        for q in QTEXTS if x == 'a' else QTEXTS[::7]:
            r.append(x + q + 'd')
    return uniq(r)


def make_C09(tier):
    return dedup([C.Rely(p, 1, 3) for p in heads()]) + longer(tier, dedup([C.Diff(p, 0, nmax(tier, 4, 6)) for p in some(opt_grid(), tier, 160)] + [C.Diff(p, 0, nmax(tier, 5, 8)) for p in pats(tier, 'opt', 'hand', 'quant:110', 'mix:80', 'caps:40', 'more:0') if not lit_only(p)]), '09') + wide(tier, C.Diff, heavy=False)


def lit_only(p):
    return p.isalnum()


def make_C10(tier):
    ps = pats(tier, 'hand', 'parse', 'opt:80', 'quant:60', 'alt:60', 'anch:50', 'mix:60', 'caps:30') + ESC_FEW
    return longer(tier, dedup([C.Diff(p, 0, nmax(tier, 5, 7), how='reparsed', what='search') for p in uniq(ps + CLASSES + some(SETS, tier, 40) + some(ESCAPED, tier, 40))]), '10') + wide(tier, lambda *a: C.Diff(*a, how='reparsed', what='search'), counts=8)


# ---------------------------------------------------------------- C11
INDEP_FIXED = ['a', 'b', '[ab]', '[^a]', '[a-m]', '[n-z]', '\\d', '\\w', '\\W', '\\D', '.', '\\s', '\\S', '\\n', '\\N', '[^b]', '\\t', '[\xe0-\xff]', '\xe9', '[^\xe9]', '[^a-z]', ' ']


def make_C11(tier):
    r = []
    ps = pats(tier, 'indep', 'opt:60', 'mix:60', 'anch:30', 'alt:30', 'hand:60')
    ps = [p for p in ps if len(p) < 22]
    n = nmax(tier, 4, 5)
    # classes and sets with each other
    for i in range(0, len(INDEP_FIXED), 5):
        own = INDEP_FIXED[i:i + 5]
        r.append(C.Independent(own, [], 1))
        for j in range(i + 5, len(INDEP_FIXED), 5):
            r.append(C.Independent(own, INDEP_FIXED[j:j + 5], 1, inner=False))
    for i in range(0, len(ps), 4):
        own = ps[i:i + 4]
        fixed = ['a', 'b', '[^ab]', INDEP_FIXED[i // 4 % len(INDEP_FIXED)]]
        r.append(C.Independent(own, [x for x in uniq(fixed) if x not in own], n))
    small = some([p for p in small_heads() if p not in ps], tier, 120)
    for i in range(0, len(small), 6):
        r.append(C.Independent(small[i:i + 6], ['a', 'b', 'c', 'd'], min(n, 3)))
    for c in r:
        c.nmin = c.nmax
    # every class and set alone and composed: first characters outside the admission set lead to pairs
    hs = []
    for x in CLASSES + some(SETS, tier, 40) + ['\xe9', '\\xE9', '\\x{E941}', '[\xe0-\xff]', '\x80', '\xff']:
        hs += [x, '(?:%s)' % x, '(%s)b' % x, 'z|' + x]
    r += [C.RelyPair(p, 1, 3) for p in uniq(some(hs, tier, 130) + some(heads(), tier, 110))]
    return r


def small_heads():
    r = []
    for h in NULLABLE:
        r += [h + 'a', h + 'd']
    for x in ('a', '[ab]', '(a|b)', '(?:ab|c)'):
        for q in QTEXTS:
            r.append(x + q + 'd')
    r += [c for c in CHOICE if not any(k in c for k in ('^', '\\w', '.', '\\D'))]
    return uniq(r)


# ---------------------------------------------------------------- C12, C13
def make_C12(tier):
    return longer(tier, searches(pats(tier, 'anch', 'handanch'), 'caps', nmax(tier, 6, 8)) + dedup([C.Iterate(p, 0, nmax(tier, 5, 7)) for p in pats(tier, 'handanch', 'anch:30')]), '12')


ESC_FEW = ['\\x41', '\\x4', '\\x{4142}', '\\x{414243}', '\\101', '\\o101', '\\o{101102}', '\\x41b', 'a\\x{6162}', '\\x{6162}+', '(\\x{6162})?a', '[^a]\\x{6162}', 'b*\\x{6261}', '\\x{6162}|ac', '\\o{141142}b?', '\\n\\x{0a0d}']


def make_C13(tier):
    r = []
    up, lo = '0123456789ABCDEF', '0123456789abcdef'
    # every pair of digits in one case, a selection in the other
    for v in range(256):
        r.append('\\x%02X' % v)
    for v in range(160, 256, 1):
        r.append('\\x%02x' % v)
    for v in range(10, 160):
        if any(c in 'abcdef' for c in '%02x' % v) and v % 3 == 0:
            r.append('\\x%02x' % v)
    for d in '0123456789ABCDEFabcdef':
        r.append('\\x' + d)
        r.append('\\x%sG' % d)
        r.append('\\x%sg' % d)
        r.append('\\x{%s0}' % d)
        r.append('\\x{0%s}' % d)
        r.append('\\x{41%s1}' % d)
        r.append('\\x%s\\d' % d)
    for v in range(256):
        r.append('\\%03o' % v)
        if v % 5 == 0 or v > 250:
            r.append('\\o%03o' % v)
    for v in range(0, 256, 7):
        r.append('\\o{%03o%03o}' % (v, 255 - v))
        r.append('\\o{%03o}' % (255 - v))
        r.append('\\x{%02X%02X}' % (v, 255 - v))
        r.append('\\x{%02x%02x%02x}' % (255 - v, v, 65))
        r.append('\\x%02X%02X' % (v, 49))
        r.append('\\%03o%d' % (v, v % 10))
    r += ['\\x{41424344}', '\\x{6162636465}', '\\o{101102103}', '\\o{141142143144}', '\\x414', '\\x4142', '\\1012', '\\10177', '\\x41+', '\\x41*b', '\\101+', '\\x{6162}+',
          '(\\x41)(\\101)', '\\x41|\\102', '\\x{4142}|C', '(?:\\x{4142})+C', '\\o101*\\o102', '\\x61\\x62', '\\141\\142', 'a\\x62c', 'a\\142c', '\\x{6162}c', 'a\\x{6263}', '\\x41?A', '\\x41{2}',
          '\\x{616161}b', '\\x0\\x1', '\\000', '\\0000', '\\x00', '\\x{00}', '\\x{0000}', '\\o000', '\\o{000}', '\\xFF+', '\\377+', '[a-z]\\x41', '\\x41[a-z]', '\\x41$', '^\\x41', '\\x0a', '\\012b', '\\x2e',
          '\\x2B', '\\x28', '\\x5b', '\\x5Cn', '\\x7c', '\\056', '\\052', '\\o{056052}', '\\x{2a2b}', '\\x{5b5d}', '\\x{28}a\\x{29}']
    # a zero, a sign bit and an operator at every place of longer sequences
    for k in (2, 3, 4, 5, 8):
        for v in (0, 255, 128, 42, 10):
            for i in range(k):
                b = [65 + j for j in range(k)]
                b[i] = v
                r.append('\\x{%s}' % ''.join('%02X' % x for x in b))
                if k < 5:
                    r.append('\\o{%s}' % ''.join('%03o' % x for x in b))
    for k in (2, 3, 4):
        r += ['\\x{%s}' % ('00' * k), '\\x{%s}' % ('ff' * k), '\\o{%s}' % ('000' * k), '\\o{%s}' % ('377' * k)]
    r = uniq(r)
    full = len(r)
    return lengthen([C.Search(p, 0, min(nmax(tier, 5, 6), pat_len(p) + 1)) for p in r], 1, 16, '13')


def pat_len(p):
    from . import pat as PT
    a = PT.P(p).ast

    def f(n):
        if n[0] == 'cat':
            return sum(f(x) for x in n[1])
        if n[0] == 'alt':
            return max(f(x) for x in n[1])
        if n[0] == 'rep':
            return 2 * f(n[1])
        if n[0] in ('nc',):
            return f(n[1])
        if n[0] == 'grp':
            return f(n[2])
        return 1
    return f(a)


# ---------------------------------------------------------------- C14, C15
def D(*a):
    r = []
    for x in a:
        k, t = x.split('=', 1)
        r.append((k, t))
    return r


TOKDEFS = [
    D('t0=a', 't1=b', 't2=c', 't3=d', 't4=e', 't5=f', 't6=g', 't7=h', 's= '),
    D('t0=a', 's= ', 't1=b', 's=,', 't2=c', 's=;', 't3=d', 's=-', 't4=e', 's=:', 't5=f', 's=\\.'),
    D('t0=\\d', 't1=\\d\\d', 't2=[a-c]', 't3=[a-c]{2}', 't4=[d-f]', 't5=[d-f]+', 't6=g', 't7=g+', 't8=h', 't9=[a-h]h', 't10=i', 't11=[a-z]i', 's= ', 's=,'),
    D('t0=[a-z]+', 't1=\\d+', 's=\\s'),
    D('t0=a', 't1=ab', 't2=abc', 's= '),
    D('t2=abc', 't1=ab', 't0=a', 's= '),
    D('t0=ab', 't1=[ab]+', 's= '),
    D('t0=[ab]+', 't1=ab', 's= '),
    D('s= ', 't0=a+', 't1=b+'),
    D('t0=a', 's= ', 't1=b', 's=,'),
    D('t0=[a-c]+', 's=,', 's=, '),
    D('t0=[a-c]+', 's=, ', 's=,'),
    D('t0=a', 's=\\s+'),
    D('t0=a', 's=\\s*'),
    D('t0=a*', 's= '),
    D('t0=a*', 't1=b', 's=,'),
    D('t0=a?b', 't1=a', 's=-'),
    D('t0=(a)(b)?', 't1=b', 's=-'),
    D('t0=a|b', 't1=ab', 's= '),
    D('t0=a|ab', 't1=[abc]', 's= '),
    D('t0=\\w+', 't1=[+*]', 's=\\s'),
    D('t0=\\d+', 't1=\\d+\\.\\d+', 's= '),
    D('t0=[ab]', 's=b'),
    D('t0=a+', 's=a'),
    D('t0=ab', 's=a', 's=b'),
    D('t0=a+?', 's= '),
    D('t0=a+?b', 't1=a', 's=,'),
    D('t0=a{2}', 't1=a', 's= '),
    D('t0=a{2,3}', 't1=a', 's=,'),
    D('t0=.', 's=;'),
    D('t0=[^;]+', 's=;'),
    D('t0="[^"]*"', 't1=\\w', 's= '),
    D('t0=a$', 't1=a', 's= '),
    D('t1=b', 't0=a', 't1=c', 's= '),
    D('t3=b', 't0=a', 's= '),
    D('t0=a', 't1=a', 's= '),
    D('t1=a', 't0=a', 's= '),
    D('t0=if', 't1=[a-z]+', 's= '),
    D('t0=[a-z]+', 't1=if', 's= '),
    D('t0=<', 't1=<=', 't2==', 's= '),
    D('t0=a', 's=ab', 's=a'),
    D('t0=[ab]+', 's=\\n'),
    D('t0=\\s', 't1=a', 's=-'),
    D('t0=a', 's=-+', 's=-*>'),
    D('t0=aa', 't1=a', 's=b|bb'),
    D('t0=b', 't1=ba', 's=a'),
    D('t0=(?:ab)+', 't1=a', 's= '),
    D('t0=(ab|c)+', 's=,'),
    D('t0=\\xe9', 't1=a', 's= '),
    D('t0=[^\\s]+', 's=\\s+'),
    D('t0=\\(', 't1=\\)', 't2=a', 's= '),
    D('t0=a', 't1=b', 't2=c', 't3=ab', 't4=bc', 's= '),
    D('s=-', 's=_', 't0=a+', 's= '),
    D('t0=a++', 't1=ab', 's= '),
    D('t0=a*+b', 't1=a', 's=,'),
    D('t0=b?a', 't1=b', 's= *,'),
    D('t0=a', 's=(?: |,)+'),
    D('t0=ab|abc', 's=c'),
    D('t0=aab', 't1=ab', 't2=a', 's= '),
]


def long_tokens(tier, cs):
    """a token of more than 255 characters, a separator and a part of another token"""
    from . import pat as PT
    import random
    for c in cs:
        rnd = random.Random(repr(c.defs))
        seps = [PT.word(PT.P(x).ast, rnd, 1) for t, x in c.defs if t == 's']
        toks = [x for t, x in c.defs if t != 's']
        for x in toks:
            for w in PT.long_words(x, nmax(tier, 2, 4), 256, 258, seed='t', reps=(254, 258)):
                c.extra.append(w[1:-1] + tuple(rnd.choice(seps)) + tuple(PT.word(PT.P(rnd.choice(toks)).ast, rnd, 2)) + (None,))
        # a long separator
        for t, x in c.defs:
            if t == 's':
                for w in PT.long_words(x, 1, seed='s'):
                    c.extra.append(tuple(PT.word(PT.P(rnd.choice(toks)).ast, rnd, 2)) + w[1:-1] + tuple(PT.word(PT.P(rnd.choice(toks)).ast, rnd, 2)) + (None,))
    return cs


def make_C14(tier):
    return long_tokens(tier, lengthen([C.Tok(d, 0, nmax(tier, 5, 7)) for d in TOKDEFS], nmax(tier, 4, 20), nmax(tier, 40, 70), '14'))


def make_C15(tier):
    n = nmax(tier, 3, 4)
    same = []
    for d in some(TOKDEFS, tier, 12):
        # iterators over two inputs: equal if they hold the same token and the same text remains
        text = ('auto x=%s(view_t{b,e}), y=%s(view_t{b1,e1}); bool ok=true; for(int i=0;i<%d;++i){ auto z=%s(view_t{b1,e1}); for(int j=0;j<%d;++j){'
                'bool q; if(!x||!z) q=!x&&!z; else { auto r=(e-x->value.begin()), s=(e1-z->value.begin()); q=r==s&&x->value.size()==z->value.size();'
                'if(q) for(long k=0;k<r;++k) if(x->value.begin()[k]!=z->value.begin()[k]) q=false; }'
                'if((x==z)!=q||(z==x)!=q||(x!=z)==q) ok=false; if(z) ++z; } if(x) ++x; } out[0]=ok;') % ((H.tokenizer_type(d),) * 2 + (n // 2 + 2, H.tokenizer_type(d), n // 2 + 2))
        same.append(C.Expr('equality of iterators over two inputs: %s' % ' '.join('%s=%s' % x for x in d), lambda tag, text=text: H.fn(tag, text, 2), 1,
                           [(i, j) for i in range(n + 1) for j in range(n + 1)], lambda v: [1], nbufs=2))
    many = [d for d in TOKDEFS if len(d) > 8]   # comparisons over many token types cost most of the executor's memory
    return lengthen([C.Protocol(d, 0, nmax(tier, 4, 6)) for d in TOKDEFS if d not in many], nmax(tier, 4, 20), nmax(tier, 40, 70), '15') + [C.Protocol(d, 0, nmax(tier, 2, 3)) for d in many] + same


# ---------------------------------------------------------------- C16
def make_C16(tier):
    import random
    from . import pat as PT
    r = []
    rnd = random.Random(16)
    sets = [[], [0], [-128], [127], [-1], [-128, 127], [0, 1, 2], [97, 98, 99], [98], [97, 99], [-3, -2, -1, 0, 1], list(range(-128, 128)), list(range(-128, 0)), list(range(0, 128)),
            list(range(-127, 128)), list(range(-128, 127)), [10], list(range(97, 123)), list(range(48, 58)), [65, 97], [-128, 0, 127], [1, 3, 5, 7], [2, 4, 6], [-5, 5], list(range(97, 110)), list(range(105, 118))]
    for k in range(8):
        sets.append(sorted(rnd.sample(range(-128, 128), rnd.choice([2, 3, 5, 9, 30]))))
    pairs = [(a, b) for i, a in enumerate(sets) for b in sets]
    pairs = some(pairs, tier, 170)

    def ty(s):
        return 'e_regex::admitted_set<char%s>' % ''.join(',(char)%d' % x for x in s)

    def u(s):
        return frozenset(x & 255 for x in s)
    for a, b in pairs:
        A, B = u(a), u(b)

        comp = len(a) < 40 and len(b) < 40

        def text(tag, a=a, b=b, comp=comp):
            t = 'using A=%s; using B=%s; using M=e_regex::merge_admitted_sets_t<A,B>; using I=e_regex::admitted_sets_intersection_t<A,B>; using X=e_regex::admitted_sets_difference_t<A,B>; using K=e_regex::admitted_set_complement_t<A>; char c=b[0];' % (ty(a), ty(b))
            names = 'AMIXK'
            if comp:
                t += 'using J=e_regex::admitted_sets_intersection_t<M,A>; using Q=e_regex::admitted_sets_difference_t<M,B>; using Y=e_regex::merge_admitted_sets_t<X,I>; using Z=e_regex::admitted_set_complement_t<M>; using W=e_regex::admitted_sets_intersection_t<Y,B>; using V=e_regex::admitted_sets_intersection_t<K,e_regex::admitted_set_complement_t<Z>>;'
                names += 'JQYZWV'
            for k, n in enumerate(names):
                t += 'out[%d]=%s::can_admit(c)?1:0; out[%d]=%s::empty?1:0;' % (2 * k, n, 2 * k + 1, n)
            return H.fn(tag, t)

        def expected(vs, A=A, B=B, comp=comp):
            c = vs[0][0]
            r = []
            # operations on sets that are themselves results of operations
            for s in (A, A | B, A & B, A ^ B, PT.ALL - A) + ((A, (A | B) ^ B, A | B, PT.ALL - (A | B), B, (PT.ALL - A) & (A | B)) if comp else ()):
                r += [PT.in_set(c, s), int(not s)]
            return r
        r.append(C.Expr('sets %s %s' % (short(a), short(b)), text, 22 if comp else 10, [(1,)], expected, public=False))
    for lo, hi in [(-128, 127), (0, 0), (-1, 1), (97, 122), (-128, -128), (127, 127), (48, 57), (0, 127), (-128, -1), (32, 126), (-3, 4), (10, 13)]:
        s = u(range(lo, hi + 1))

        def text(tag, lo=lo, hi=hi):
            return H.fn(tag, 'using R=e_regex::admitted_set_range_t<char,(char)%d,(char)%d>; using K=e_regex::admitted_set_complement_t<R>; char c=b[0]; out[0]=R::can_admit(c)?1:0; out[1]=R::empty?1:0; out[2]=K::can_admit(c)?1:0; out[3]=K::empty?1:0; using KK=e_regex::admitted_set_complement_t<K>; out[4]=KK::can_admit(c)?1:0; out[5]=KK::empty?1:0;' % (lo, hi))

        def expected(vs, s=s):
            c = vs[0][0]
            n = PT.ALL - s
            return [PT.in_set(c, s), int(not s), PT.in_set(c, n), int(not n), PT.in_set(c, s), int(not s)]
        r.append(C.Expr('range %d..%d' % (lo, hi), text, 6, [(1,)], expected, public=False))
    return r


def short(s):
    return '{%s}' % ','.join(map(str, s)) if len(s) < 12 else '{%d..%d: %d}' % (s[0], s[-1], len(s))


# ---------------------------------------------------------------- C17
def make_C17(tier):
    import z3
    r = []
    n = nmax(tier, 4, 6)

    def eqb(x, y):
        x, y = x or [], y or []
        if len(x) != len(y):
            return False
        return z3.And([p == q for p, q in zip(x, y)]) if x else True

    def z8(x):
        return z3.ZeroExt(24, x)

    def add(key, text, nout, lens, expected, nbufs=1):
        r.append(C.Expr(key, lambda tag: H.fn(tag, text, nbufs), nout, lens, expected, nbufs=nbufs))
    two = [(i, j) for i in range(n + 1) for j in range(n + 1)] + [(i, i) for i in (7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40)] + [(8, 9), (9, 8), (16, 17), (17, 16), (32, 33), (24, 16), (8, 16), (0, 16), (16, 0)] + [('n', 'n'), ('n', 0), (0, 'n'), ('n', 1), (2, 'n')]
    add('views equal', 'view_t x{b,e},y{b1,e1}; out[0]=x==y; out[1]=y==x; out[2]=x!=y; out[3]=x==x; out[4]=x.empty(); out[5]=(int)x.size(); const view_t z=x; out[6]=(z==y); view_t w; w=y; out[7]=(w==x);', 8, two,
        lambda v: [eqb(v[0], v[1]), eqb(v[0], v[1]), neg(eqb(v[0], v[1])), 1, int(not v[0]), len(v[0] or []), eqb(v[0], v[1]), eqb(v[0], v[1])], 2)
    add('views equal to std::string_view', 'view_t x{b,e}; std::string_view y{b1,(std::size_t)(e1-b1)}; view_t c{y}; out[0]=x==c; out[1]=c==x; out[2]=(x==view_t{y}); out[3]=(int)c.size(); out[4]=off(c.begin(),b1); out[5]=off(c.end(),b1);', 6,
        [(i, j) for i in range(n + 1) for j in range(n + 1)] + [(8, 8), (16, 16), (17, 17), (33, 33), (16, 8), (8, 16)], lambda v: [eqb(v[0], v[1])] * 3 + [len(v[1]), 0, len(v[1])], 2)
    # long views that may differ in two places only
    for l in [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 280, 512, 600] + nmax(tier, [], [1000, 1024, 4097]):
        for k in {0, l // 2, l - 2, min(l - 2, 256)}:
            for d in nmax(tier, (0, 256), (0, 1, 128, 256, 512)):
                if d and k:
                    continue
                add('long views %d %d %d' % (l, k, d), 'char p[%d],q[%d]; for(int i=0;i<%d;++i) p[i]=\'x\'; for(int i=0;i<%d;++i) q[i]=\'x\'; p[%d]=b[0]; p[%d]=b[1]; q[%d]=b1[0]; q[%d]=b1[1]; view_t x{p,p+%d},y{q,q+%d}; out[0]=x==y; out[1]=x!=y;'
                    % (l, l + d, l, l + d, k, l - 1, k, l - 1, l, l + d), 2, [(2, 2)], lambda v, d=d: [not d and eqb(v[0], v[1]), d > 0 or neg(eqb(v[0], v[1]))], 2)
    for i in range(0, 3):
        for j in range(0, 3):
            for l in range(0, 4):
                add('overlapping views %d %d %d' % (i, j, l), 'view_t x{b+%d,b+%d},y{b+%d,b+%d}; out[0]=x==y; out[1]=y==x; out[2]=x!=y;' % (i, i + l, j, j + l), 3, [(6,)],
                    lambda v, i=i, j=j, l=l: [eqb(v[0][i:i + l], v[0][j:j + l])] * 2 + [neg(eqb(v[0][i:i + l], v[0][j:j + l]))])
    add('conversions', 'view_t x{b,e}; std::string_view s=x; view_t y=s; std::string_view t=y; out[0]=off(s.data(),b); out[1]=(int)s.size(); out[2]=off(y.begin(),b); out[3]=off(y.end(),b); out[4]=(int)t.size(); out[5]=off(t.data(),b); const view_t c=x; out[6]=off(c.begin(),b); out[7]=off(c.end(),b); out[8]=c.empty(); out[9]=(int)c.size();', 10,
        [(i,) for i in list(range(n + 3)) + [15, 16, 17, 31, 32, 33, 127, 128, 129, 255, 256, 257, 300]], lambda v: [0, len(v[0]), 0, len(v[0]), len(v[0]), 0, 0, len(v[0]), int(not v[0]), len(v[0])])
    # static strings from symbolic bytes
    for l in list(range(1, n + 3)) + [9, 16, 17, 33, 65, 100, 130, 257]:
        add('static_string of %d' % l, 'std::array<char,%d> a; for(int i=0;i<%d;++i) a[i]=b[i]; e_regex::static_string<%d> s{a}; auto v=s.to_view(); out[0]=(int)v.size(); for(int i=0;i<%d;++i) out[1+i]=(unsigned char)v[i]; view_t w=s; out[%d]=(int)w.size(); for(int i=0;i<%d;++i) out[%d+i]=(unsigned char)w.begin()[i]; out[%d]=s.empty(); out[%d]=(int)s.size; out[%d]=(w==view_t{b,e});' % (l, l, l, l, 1 + l, l, 2 + l, 2 + 2 * l, 3 + 2 * l, 4 + 2 * l),
            5 + 2 * l, [(l,)], lambda v, l=l: [l] + [z8(x) for x in v[0]] + [l] + [z8(x) for x in v[0]] + [0, l, 1])
        for bb in range(0, l):
            for ee in range(bb + 1, l + 1):
                if l > 5 and (bb + ee) % 2 or l > 8 and (bb not in (0, 1, 8, l - 1) or ee not in (1, 9, l - 1, l)) or l > 60 and bb == 8:
                    continue
                tmpl = '%d' % bb if ee == l else '%d,%d' % (bb, ee)
                add('substring %d %d of %d' % (bb, ee, l), 'std::array<char,%d> a; for(int i=0;i<%d;++i) a[i]=b[i]; const e_regex::static_string<%d> s{a}; auto t=s.substring<%s>(); auto v=t.to_view(); out[0]=(int)v.size(); out[1]=(int)t.size; for(int i=0;i<%d;++i) out[2+i]=(unsigned char)v[i];' % (l, l, l, tmpl, ee - bb),
                    2 + ee - bb, [(l,)], lambda v, bb=bb, ee=ee: [ee - bb, ee - bb] + [z8(x) for x in v[0][bb:ee]])
    for i, j in [(i, j) for i in range(n) for j in range(n)] + [(8, 9), (16, 1), (1, 16), (9, 0), (17, 17), (3, 100), (100, 3), (64, 65), (33, 130), (97, 33), (1, 257)]:
            if i + j == 0:
                continue
            mk = lambda k, nm, src: ('std::array<char,%d> a%s; for(int i=0;i<%d;++i) a%s[i]=%s[i]; const e_regex::static_string<%d> %s{a%s};' % (k, nm, k, nm, src, k, nm, nm)) if k else 'const e_regex::static_string<0> %s{};' % nm
            body = mk(i, 'x', 'b') + mk(j, 'y', 'b1') + 'auto t=x+y; auto v=t.to_view(); out[0]=(int)v.size(); out[1]=(int)t.size; for(int i=0;i<%d;++i) out[2+i]=(unsigned char)v[i];' % (i + j)
            add('concatenation %d %d' % (i, j), body, 2 + i + j, [(i, j)], lambda v, k=i + j: [k, k] + [z8(x) for x in v[0] + v[1]], 2)
            if i:
                # three parts, a character and a literal
                body = mk(i, 'x', 'b') + mk(j, 'y', 'b1') + 'auto t=x+y+x; auto v=t.to_view(); out[0]=(int)v.size(); for(int i=0;i<%d;++i) out[1+i]=(unsigned char)v[i]; auto u=(x+\'c\')+y; auto w=u.to_view(); out[%d]=(int)w.size(); for(int i=0;i<%d;++i) out[%d+i]=(unsigned char)w[i];' % (2 * i + j, 1 + 2 * i + j, i + j + 1, 2 + 2 * i + j)
                add('concatenation of three %d %d' % (i, j), body, 3 + 3 * i + 2 * j, [(i, j)], lambda v, i=i, j=j: [2 * i + j] + [z8(x) for x in v[0] + v[1] + v[0]] + [i + j + 1] + [z8(x) for x in v[0]] + [ord('c')] + [z8(x) for x in v[1]], 2)
                body = mk(i, 'x', 'b') + 'auto t="de"+x; auto v=t.to_view(); out[0]=(int)v.size(); for(int i=0;i<%d;++i) out[1+i]=(unsigned char)v[i]; auto u=x+"fgh"; auto w=u.to_view(); out[%d]=(int)w.size(); for(int i=0;i<%d;++i) out[%d+i]=(unsigned char)w[i]; auto q=\'z\'+x; auto p=q.to_view(); out[%d]=(int)p.size(); for(int i=0;i<%d;++i) out[%d+i]=(unsigned char)p[i];' % (
                    i + 2, i + 3, i + 3, i + 4, 2 * i + 7, i + 1, 2 * i + 8)
                if j == 0:
                    add('concatenation with literals %d' % i, body, 3 * i + 9, [(i,)], lambda v, i=i: [i + 2, 100, 101] + [z8(x) for x in v[0]] + [i + 3] + [z8(x) for x in v[0]] + [102, 103, 104] + [i + 1, 122] + [z8(x) for x in v[0]])
    # literals: comparison of a literal with the input
    for s in ('', 'a', 'ab', 'a\0b', '\0', 'abc', '\xe9', 'aab'):
        k = len(s)
        add('literal %r' % s, 'view_t x{b,e}; view_t l{%s}; constexpr e_regex::static_string st{%s}; auto v=st.to_view(); out[0]=(int)l.size(); out[1]=x==l; out[2]=l==x; out[3]=(int)v.size(); out[4]=(x==view_t{v}); out[5]=(int)st.size; out[6]=st.empty();' % (cstr(s), cstr(s)), 7,
            [(i,) for i in range(k + 2)], lambda v, s=s, k=k: [k] + [lit_eq(v[0], s)] * 2 + [k] + [lit_eq(v[0], s)] + [k, int(k == 0)])
    return r


def neg(x):
    import z3
    return (not x) if isinstance(x, bool) else z3.Not(x)


def lit_eq(v, s):
    import z3
    if len(v) != len(s):
        return False
    return z3.And([x == (ord(c) & 255) for x, c in zip(v, s)]) if v else True


# ---------------------------------------------------------------- C18, C19, C21
def make_C18(tier):
    return longer(tier, dedup([C.Agree(p, 0, nmax(tier, 4, 5)) for p in pats(tier, 'handcaps', 'hand', 'caps:60', 'alt:30', 'mix:40', 'anch:20')]), '18') + wide(tier, C.Agree)


def make_C19(tier):
    ps = pats(tier, 'loops', 'hand', 'quant:70', 'caps:60', 'mix:60', 'anch:40')
    return longer(tier, dedup([C.Finish(p, 0, nmax(tier, 6, 8)) for p in ps]) + dedup([C.FinishWays(p, 0, nmax(tier, 3, 4)) for p in some(ps, tier, 70)]) + [C.TokFinish(d, 0, nmax(tier, 5, 6) if len(d) < 9 else nmax(tier, 3, 4)) for d in TOKDEFS], '19') + wide(tier, C.Finish)


def make_C20(tier):
    ps = pats(tier, 'hand:60', 'anch:14', 'quant:24', 'caps:16', 'alt:12', 'mix:16', 'parse:10') + CLASSES + some(SETS, tier, 20) + ['\\x41+', '\\o101', '\\x{4142}', 'a\\x{6162}']
    ps = uniq(ps)
    # the two texts alternate in the input: the executor's tables of equal inputs stay small
    h = 'const auto h=(e-b)/2; char u[8]={},w[8]={}; for(int i=0;i<h;++i){ u[i]=b[2*i]; w[i]=b[2*i+1]; } '
    texts = [C.ConstText('equality of views', h + 'view_t x{u,u+h},y{w,w+h}; out[0]=x==y; out[1]=x!=y; out[2]=x.empty(); out[3]=(int)y.size(); out[4]=x==x; std::string_view s=x; view_t z{s}; out[5]=z==x; out[6]=z==y;', 7, 0, nmax(tier, 8, 10))]
    for d in some(TOKDEFS, tier, 6):
        t = H.tokenizer_type(d)
        texts.append(C.ConstText('equality of iterators %s' % ' '.join('%s=%s' % x for x in d), h + 'auto x=%s(view_t{u,u+h}), y=%s(view_t{w,w+h}); out[0]=x==y; out[1]=x!=y; out[2]=x==x.begin(); if(x) ++x; out[3]=x==y; out[4]=x==x.end(); out[5]=y==y.end(); out[6]=x?(int)x->value.size():0; out[7]=y?(int)(*y).value.size():0;' % (t, t),
                                 8, 0, nmax(tier, 6, 8)))
    for q in ('(a)?b', '([ab]+)(c)?', 'a*', '(a|b)*?c', '^(\\w)$'):
        g = C.P(q).groups if hasattr(C, 'P') else q.count('(')
        texts.append(C.ConstText('ways to read a match of %s' % q, 'auto r=e_regex::regex<%s>{}(view_t{b,e}); out[0]=r.is_accepted(); out[1]=(int)r.size(); out[2]=(int)r.to_view().size(); out[3]=(int)(*r).size(); out[4]=(int)r[0].size(); auto x=std::get<0U>(r); out[5]=(int)x.size(); '
                                 'view_t w=r; out[6]=(int)w.size(); for(unsigned i=1;i<=%d;++i) out[6+i]=(int)r[i].size()+100*(int)r.get_group(i).size(); int k=0; for(auto y:r){ k+=1+(int)y.size()*20; } out[%d]=k; out[%d]=(r!=r.end()); auto s=r; ++s; out[%d]=s?(int)s.to_view().size():-1; out[%d]=(r!=s);' % (cstr(q), g, 7 + g, 8 + g, 9 + g, 10 + g),
                                 11 + g, 0, nmax(tier, 3, 4)))
    return texts + lengthen(dedup([C.ConstEval(p, 0, nmax(tier, 4, 5)) for p in ps]) + dedup([C.ConstEval(p, 0, nmax(tier, 3, 4), what='iter') for p in some(ps, tier, 40)])
                    + [C.ConstTok(d, 0, nmax(tier, 3, 5)) for d in some(TOKDEFS, tier, 24)], nmax(tier, 1, 6), 30, '20')


def make_C21(tier):
    return longer(tier, searches(pats(tier, 'handparse', 'parse', 'hand', 'more:0'), 'caps', nmax(tier, 5, 7)), '21') + wide(tier, lambda *a: C.Search(*a, mode='caps'), counts=99)
