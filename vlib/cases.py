"""The kinds of cases the checks decide. A case knows its harness functions, the input lengths to explore,
the z3 condition under which an outcome of the real code breaks the property, and a concrete oracle used
to confirm a counterexample on the compiled code."""
import z3

from . import harness as H
from . import pat
from .core import Tpl, cstr

QUICK_LIMITS = dict(outcomes=150, paths=700)
THOROUGH_LIMITS = dict(outcomes=4000, paths=6000)


def same_out(got, want):
    """z3 condition (or bool) that two output vectors differ"""
    cs = []
    for g, w in zip(got, want):
        gz, wz = z3.is_expr(g), z3.is_expr(w)
        if not gz and not wz:
            if g != w:
                return None
        else:
            cs.append(g == w)
    return cs


class Case:
    header = ''
    concretize = True     # split outcomes whose outputs are symbolic
    memory_matters = False
    public = True         # uses public interface only: not compiling is a violation
    nbufs = 1
    maxsteps = 400000

    grows = True   # stop before the lengths that have too many paths

    def __init__(self, key, nmin=0, nmax=6):
        self.key = key
        self.nmin, self.nmax = nmin, nmax
        self.extra = []   # longer inputs: tuples of bytes, None for a symbolic one

    @property
    def cap(self):
        return max([self.nmax] + [len(t) for t in self.extra])

    # --- to be defined
    def functions(self, tag):
        """[(name, text, nbufs, nout)]"""
        raise NotImplementedError

    def lens(self):
        return [(n,) for n in range(self.nmin, self.nmax + 1)] + [(Tpl(t),) for t in self.extra]

    def prepare(self, lens, vs):
        """vs: z3 bytes of each buffer (None: null view)"""

    def bad_ret(self, fi, out, vs):
        """condition under which the result `out` of function fi breaks the property (False: never)"""
        raise NotImplementedError

    def bad_all(self, outs, vs):
        """for cases that compare functions: outs = [[(pc, out)]]; conditions over all of them"""
        return None

    def judge(self, data, outs):
        """concrete oracle: None if the outputs are as they should be, else a description"""
        raise NotImplementedError

    def too_big(self, nout, limits):
        return nout > limits['outcomes']

    def describe(self):
        return self.key

    def plain_patterns(self):
        """patterns whose plain matcher must compile for this case to be meaningful"""
        return []


class PatCase(Case):
    def __init__(self, pattern, nmin=0, nmax=6, **kw):
        super().__init__(pattern, nmin, nmax)
        self.pattern = pattern
        self.p = pat.P(pattern)
        self.groups = self.p.groups
        self.spec = None
        for k, v in kw.items():
            setattr(self, k, v)

    def prepare(self, lens, vs):
        self.spec = pat.Spec(self.p, vs[0]) if vs[0] is not None else pat.Spec(self.p, [])

    def plain_patterns(self):
        return [self.pattern]

    def too_big(self, nout, limits):
        return nout > limits['outcomes'] or (self.spec is not None and self.spec.npaths > limits['paths'])


class Search(PatCase):
    """one search; mode caps: everything, span: accepted/begin/size, begin: accepted/begin, lang: genuine"""
    mode = 'caps'

    def functions(self, tag):
        t, n = H.search(tag, self.pattern, self.groups)
        return [(tag, t, 1, n)]

    def prepare(self, lens, vs):
        super().prepare(lens, vs)
        self.want = {}
        if self.mode == 'lang':
            self.lang = {}
            m = pat.Matcher(self.p, self.spec.dom, self.spec.member)
            full = FullLang(self.p, self.spec.dom, self.spec.member)
            for i in range(self.spec.n + 1):
                for s in full.paths(i):
                    self.lang.setdefault((i, s[0]), []).append(m.guard(s))
            self.spec.npaths = full.count
            return
        for r, g in self.spec.search(0).items():
            o = H.expect_search(r, self.groups)
            self.want.setdefault(tuple(self.view(o)), []).append(g)

    def view(self, o):
        return o if self.mode == 'caps' else (o[:2] if self.mode == 'begin' else o[:3])

    def shape(self, out, n):
        """a genuine result lies inside the view, captures inside the match; nothing if not accepted"""
        if out[0] not in (0, 1):
            return 'acceptance %d' % out[0]
        if out[0] == 0:
            if out[2] != 0 or any(out[3 + 2 * i] != 0 for i in range(self.groups)):
                return 'a rejected search reports text'
            return None
        b, s = out[1], out[2]
        if b == -1 and n == 0 and s == 0:
            b = 0
        if b < 0 or s < 0 or b + s > n:
            return 'the match lies outside the input'
        for i in range(self.groups):
            gs, gb = out[3 + 2 * i], out[4 + 2 * i]
            if gs and (gs < 0 or gb < b or gb + gs > b + s):
                return 'group %d lies outside the match' % (i + 1)
        return None

    def bad_ret(self, fi, out, vs):
        n = self.spec.n
        if self.mode == 'lang':
            if self.shape(out, n):
                return True
            if not out[0]:
                return False
            g = self.lang.get((max(out[1], 0), max(out[1], 0) + out[2]))
            return z3.Not(z3.Or(g)) if g else True
        if vs[0] is None and out[0] == 1 and out[1] == -1:
            out = [1, 0] + out[2:]
        g = self.want.get(tuple(self.view(out)))
        return z3.Not(z3.Or(g)) if g else True

    def judge(self, data, outs):
        d = data[0] if data[0] is not None else b''
        out = outs[0]
        if data[0] is None and out[0] == 1 and out[1] == -1:
            out = [1, 0] + out[2:]
        if self.mode == 'lang':
            w = self.shape(out, len(d))
            if w or not out[0]:
                return w
            b = max(out[1], 0)
            for s in FullLang(self.p, [frozenset([x]) for x in d]).paths(b):
                if s[0] == b + out[2]:
                    return None
            return 'the reported match %r of %r is no word of the pattern' % (d[b:b + out[2]], d)
        want = self.view(H.expect_search(pat.concrete_search(self.p, d), self.groups))
        got = self.view(out)
        return None if want == got else 'on %r: [accepted, begin, size, (size, begin) of the groups] is %s, should be %s' % (d, got, want)


class FullLang(pat.Matcher):
    """all ways to match, whatever the order: possessive quantifiers may give back"""

    def run(self, node, st):
        if node[0] == 'rep' and node[4] == 'p':
            node = node[:4] + ('g',)
        yield from super().run(node, st)

    def paths(self, start):
        st = (start, ((-1, -1),) * self.p.groups, (None,) * self.n, ())
        seen = set()
        for s in self.run(self.p.ast, st):
            k = (s[0], s[2], len(s[3]))
            if k in seen and not s[3]:
                continue
            seen.add(k)
            self.count += 1
            if self.count > 200000:
                raise pat.Bad('too many paths')
            yield s


class Iterate(PatCase):
    """the chain of matches that next() yields"""
    caps = True

    def functions(self, tag):
        t, n = H.iterate(tag, self.pattern, self.groups, self.cap)
        return [(tag, t, 1, n)]

    def decode(self, out):
        k, flags = out[0], out[1]
        w = 2 + 2 * self.groups
        return k, flags, [list(out[2 + i * w:2 + (i + 1) * w]) for i in range(min(max(k, 0), self.cap + 3))]

    def bad_ret(self, fi, out, vs):
        k, flags, recs = self.decode(out)
        n = self.spec.n
        if flags or k > n + 1:
            return True
        conds = []
        frm = 0
        for r in recs:
            if r[0] == -1:
                r = [0] + r[1:]  # a null view
            gs = []
            for res, g in self.spec.search(frm).items():
                if res is None:
                    continue
                want = [res[0], res[1] - res[0]] + H.expect_caps(res[2])
                if (want if self.caps else want[:2]) == (r if self.caps else r[:2]):
                    gs.append(g)
            if not gs:
                return True
            conds.append(z3.Or(gs))
            frm = r[0] + r[1] + (1 if r[1] == 0 else 0)
            if frm > n:
                frm = None
                break
        if frm is None:
            if k != len(conds):
                return True
        else:
            g = self.spec.search(frm).get(None)
            if g is None:
                return True      # there is always another match
            conds.append(g)
        return z3.Not(z3.And(conds))

    def expected(self, d):
        recs = []
        frm = 0
        while frm <= len(d):
            r = pat.concrete_search(self.p, d, frm)
            if r is None:
                break
            recs.append([r[0], r[1] - r[0]] + H.expect_caps(r[2]))
            frm = r[1] + (1 if r[1] == r[0] else 0)
        return recs

    def judge(self, data, outs):
        d = data[0] if data[0] is not None else b''
        k, flags, recs = self.decode(outs[0])
        if flags:
            return 'on %r: next() and the accessors disagree about the end (flags %d)' % (d, flags)
        want = self.expected(d)
        if data[0] is None:
            recs = [[0] + r[1:] if r[0] == -1 else r for r in recs]
        if not self.caps:
            recs, want = [r[:2] for r in recs], [r[:2] for r in want]
        if k == len(want) and recs == want:
            return None
        return 'on %r: matches [begin, size, (size, begin) of the groups] are %s, should be %s' % (d, recs, want)


class Ways(PatCase):
    """range-based for and ++ visit what next() visits"""

    def functions(self, tag):
        t, n = H.ways(tag, self.pattern, self.groups, self.cap)
        return [(tag, t, 1, n)]

    def prepare(self, lens, vs):
        self.spec = None

    def bad_ret(self, fi, out, vs):
        return out[1] != 0

    def judge(self, data, outs):
        return None if outs[0][1] == 0 else 'on %r: iterating in different ways disagrees (flags %d)' % (data[0], outs[0][1])


class Agree(PatCase):
    def functions(self, tag):
        t, n = H.agree(tag, self.pattern, self.groups)
        return [(tag, t, 1, n)]

    def prepare(self, lens, vs):
        self.spec = None

    def bad_ret(self, fi, out, vs):
        return out[0] != 0

    def judge(self, data, outs):
        return None if outs[0][0] == 0 else 'on %r: ways of reading the result disagree (flags %d)' % (data[0], outs[0][0])


class Diff(PatCase):
    """two matchers behave alike on every input"""
    how = 'unoptimized'
    public = False
    what = 'iter'

    @property
    def header(self):
        return H.UNOPT if self.how == 'unoptimized' else H.REPARSE

    def functions(self, tag):
        r = []
        for i, how in enumerate(('plain', self.how)):
            if self.what == 'iter':
                t, n = H.iterate('%s_%d' % (tag, i), self.pattern, self.groups, self.cap, how)
            else:
                t, n = H.search('%s_%d' % (tag, i), self.pattern, 0, how)
            r.append(('%s_%d' % (tag, i), t, 1, n))
        return r

    def prepare(self, lens, vs):
        self.spec = None

    def norm(self, out):
        if self.what == 'iter':
            w = 2 + 2 * self.groups
            return tuple(out[:2 + w * min(max(out[0], 0), self.cap + 3)])
        return tuple(out)

    def bad_all(self, outs, vs):
        conds = []
        for o in outs:
            d = {}
            for pc, out in o:
                d.setdefault(self.norm(out), []).append(pc)
            conds.append(d)
        a, b = conds
        r = []
        for k in set(a) | set(b):
            x = z3.Or(a[k]) if k in a else z3.BoolVal(False)
            y = z3.Or(b[k]) if k in b else z3.BoolVal(False)
            r.append(z3.Xor(x, y))
        return r

    def judge(self, data, outs):
        a, b = (self.norm(o) for o in outs)
        if a == b:
            return None
        return 'on %r: the matcher gives %s, the %s one %s' % (data[0], list(a), self.how, list(b))


class Rely(PatCase):
    """what the optimizer assumes of a pattern: a non-empty match begins with a character of its admission set.
    The assumption is internal, so a counterexample is only a lead: it is a violation if a pattern built from it
    makes the optimized and the unoptimized matcher differ."""
    public = False
    how = 'admission'
    leads = 0
    both = True

    def functions(self, tag):
        t, n = H.admits(tag, self.pattern, self.both)
        return [(tag, t, 1, n)]

    def prepare(self, lens, vs):
        self.spec = None

    def bad_ret(self, fi, out, vs):
        return out[0] != 0

    def judge(self, data, outs):
        return None

    def escalate(self, data):
        c = data[0][0]
        x = chr(c) if chr(c).isalnum() and c < 128 else '\\x%02X' % c
        y = 'z' if c != ord('z') else 'y'
        p = self.pattern
        ps = []
        for q in ('*', '*?', '?', '??', '+?', '{0,2}'):
            for t in (x, '[%s%s]' % (chr(c), y) if chr(c).isalnum() and c < 128 else x):
                ps.append('%s%s(?:%s)' % (t, q, p))
                if '|' not in p and p[:1] not in '*+?{':
                    ps.append('%s%s%s' % (t, q, p))
        if '|' not in p:
            for q in ('*', '*?', '?', '??'):
                ps.append('(?:%s)%s%s' % (p, q, x))
                if len(p) == 1 or (p[0] == '[' and p.find(']') == len(p) - 1) or (p[0] == '\\' and len(p) == 2):
                    ps.append('%s%s%s' % (p, q, x))
        r = []
        for q in ps:
            if q not in r:
                r.append(q)
        return [Diff(q, 0, len(data[0]) + 2) for q in r]


class RelyPair(Rely):
    """the same lead, followed up with pairs for is_independent"""
    both = False

    def escalate(self, data):
        c = data[0][0]
        x = chr(c) if chr(c).isalnum() and c < 128 else '\\x%02X' % c
        others = [x, x + 'b', '(?:%s)' % x, x + '*b', '(%s|b)' % x]
        if c not in b'\\]^-[\n' and c:
            others += ['[%s]' % chr(c), '[%s]b' % chr(c)]
        others.append('[^b]' if c == 97 else '[^a]')
        return [Independent([self.pattern], [o], max(len(data[0]), 3)) for o in others]


class Safe(PatCase):
    """no read outside the view, no write but to the result, nothing uninitialised, results inside the view"""
    memory_matters = True

    def functions(self, tag):
        t, n = H.iterate(tag, self.pattern, self.groups, self.cap)
        return [(tag, t, 1, n)]

    def lens(self):
        return [('n',)] + super().lens()

    def prepare(self, lens, vs):
        self.n = len(vs[0]) if vs[0] is not None else 0
        self.spec = None

    def bad_ret(self, fi, out, vs):
        return self.outside(out, self.n)

    def outside(self, out, n):
        w = 2 + 2 * self.groups
        k = min(max(out[0], 0), self.cap + 3)
        for i in range(k):
            r = out[2 + i * w:2 + (i + 1) * w]
            if r[1] and (r[0] < 0 or r[1] < 0 or r[0] + r[1] > n):
                return True
            if r[0] > n or r[0] < -1 or (r[1] != 0 and r[0] == -1):
                return True
            for g in range(self.groups):
                s, b = r[2 + 2 * g], r[3 + 2 * g]
                if s and (b < 0 or s < 0 or b + s > n):
                    return True
        return False

    def judge(self, data, outs):
        n = len(data[0]) if data[0] is not None else 0
        return 'on %r: a returned view lies outside the input: %s' % (data[0], outs[0]) if self.outside(outs[0], n) else None


class Tok(Case):
    """tokenizer against the reference"""
    header = H.TOKHEAD

    def __init__(self, defs, nmin=0, nmax=5, **kw):
        super().__init__(' '.join('%s=%s' % (k, t) for k, t in defs), nmin, nmax)
        self.defs = defs
        self.toks = [(int(k[1:]), pat.P(t)) for k, t in defs if k != 's']
        self.seps = [pat.P(t) for k, t in defs if k == 's']
        for k, v in kw.items():
            setattr(self, k, v)

    def functions(self, tag):
        m = self.cap + 2
        return [(tag, H.fn(tag, 'run_tok<%d>(%s,b,e,out);' % (m, H.tokenizer_type(self.defs))), 1, 1 + 3 * m)]

    def prepare(self, lens, vs):
        self.v = vs[0] if vs[0] is not None else []
        self.memo = {}

    def lengths(self, p, pos):
        """length -> condition for a match at the beginning of the rest of the input"""
        k = (id(p), pos)
        if k not in self.memo:
            d = {}
            for r, g in pat.Spec(p, self.v[pos:]).at(0).items():
                d.setdefault(r[1], []).append(g)
            d = {l: z3.Or(g) for l, g in d.items() if l > 0}
            self.memo[k] = d
        return self.memo[k]

    def sep(self, pos):
        """best separator length -> condition"""
        k = ('s', pos)
        if k not in self.memo:
            ls = [self.lengths(p, pos) for p in self.seps]
            r = {}
            lens = sorted({l for d in ls for l in d})
            for l in lens:
                r[l] = z3.And(z3.Or([d[l] for d in ls if l in d]),
                              z3.Not(z3.Or([d[x] for d in ls for x in d if x > l] or [z3.BoolVal(False)])))
            r[0] = z3.Not(z3.Or([d[x] for d in ls for x in d] or [z3.BoolVal(False)]))
            self.memo[k] = r
        return self.memo[k]

    def tok(self, pos):
        """(type, length) or None -> condition"""
        k = ('t', pos)
        if k not in self.memo:
            ls = [(t, self.lengths(p, pos)) for t, p in self.toks]
            r = {}
            for i, (t, d) in enumerate(ls):
                for l, g in d.items():
                    worse = [g]
                    for j, (_, e) in enumerate(ls):
                        bigger = [e[x] for x in e if x > l or (x == l and j < i)]
                        if bigger and j != i:
                            worse.append(z3.Not(z3.Or(bigger)))
                    r.setdefault((t, l), []).append(z3.And(worse))
            r = {k2: z3.Or(g) for k2, g in r.items()}
            r[None] = z3.Not(z3.Or([g for _, d in ls for g in d.values()] or [z3.BoolVal(False)]))
            self.memo[k] = r
        return self.memo[k]

    def bad_ret(self, fi, out, vs):
        n = len(self.v)
        k = out[0]
        if k < 0 or k > n:
            return True
        pos = 0
        conds = []
        for i in range(k):
            b, s, t = out[1 + 3 * i:4 + 3 * i]
            gap = b - pos
            if gap < 0 or s < 1 or b + s > n:
                return True
            sep = self.sep(pos)
            if gap not in sep or (gap == 0 and pos != 0):
                return True
            tok = self.tok(b)
            if (t, s) not in tok:
                return True
            conds += [sep[gap], tok[(t, s)]]
            pos = b + s
        ends = []
        if n > 0:
            for gap, g in self.sep(pos).items():
                if gap == 0 and pos != 0:
                    ends.append(g)
                else:
                    ends.append(z3.And(g, self.tok(pos + gap)[None]))
            conds.append(z3.Or(ends))
        return z3.Not(z3.And(conds)) if conds else False

    def expected(self, d):
        pos, r = 0, []
        if not d:
            return r
        while True:
            def best(ps):
                bl, bi = 0, None
                for i, p in enumerate(ps):
                    m = pat.concrete_at(p, d[pos:], 0)
                    if m and m[1] > bl:
                        bl, bi = m[1], i
                return bl, bi
            l, _ = best(self.seps)
            if l == 0 and pos != 0:
                return r
            pos += l
            l, i = best([p for _, p in self.toks])
            if l == 0:
                return r
            r.append([pos, l, self.toks[i][0]])
            pos += l

    def judge(self, data, outs):
        d = data[0] if data[0] is not None else b''
        out = outs[0]
        want = self.expected(d)
        got = [out[1 + 3 * i:4 + 3 * i] for i in range(min(out[0] % 1000, self.cap + 2))]
        if out[0] == len(want) and got == want:
            return None
        return 'on %r: tokens [begin, size, type] are %s, should be %s' % (d, got, want)


class TokSafe(Tok):
    memory_matters = True

    def lens(self):
        return [('n',)] + super().lens()

    def bad_ret(self, fi, out, vs):
        return self.outside(out, len(self.v))

    def outside(self, out, n):
        for i in range(min(out[0] % 1000, self.cap + 2)):
            b, s, t = out[1 + 3 * i:4 + 3 * i]
            if b < 0 or s < 0 or b + s > n:
                return True
        return False

    def judge(self, data, outs):
        n = len(data[0]) if data[0] is not None else 0
        return 'a token lies outside the input: %s' % outs[0] if self.outside(outs[0], n) else None


class Protocol(Case):
    header = H.TOKHEAD

    def __init__(self, defs, nmin=0, nmax=5, **kw):
        super().__init__('protocol ' + ' '.join('%s=%s' % (k, t) for k, t in defs), nmin, nmax)
        self.defs = defs

    def functions(self, tag):
        return [(tag, H.fn(tag, 'run_protocol<%d>(%s,b,e,out);' % (self.cap + 2, H.tokenizer_type(self.defs))), 1, 2)]

    def bad_ret(self, fi, out, vs):
        return out[1] != 0

    def judge(self, data, outs):
        return None if outs[0][1] == 0 else 'on %r: the iterator breaks its protocol (flags %d)' % (data[0], outs[0][1])


class Expr(Case):
    """a harness whose outputs must equal given expressions of the input bytes"""
    concretize = False
    grows = False

    def too_big(self, nout, limits):
        return nout > max(600, limits['outcomes'])

    def __init__(self, key, text, nout, lens, expected, header='', nbufs=1, public=True):
        """text(tag) -> function text; expected(bufs) -> list of ints / z3 expressions (None: anything)
        where bufs holds lists of z3 bytes or of ints"""
        super().__init__(key)
        self.text, self.nout, self._lens, self.expected = text, nout, lens, expected
        self.header, self.nbufs, self.public = header, nbufs, public

    def functions(self, tag):
        return [(tag, self.text(tag), self.nbufs, self.nout)]

    def lens(self):
        return self._lens

    def prepare(self, lens, vs):
        self.want = self.expected(vs)

    def bad_ret(self, fi, out, vs):
        return self.differs(out, self.want)

    def differs(self, out, want):
        cs = []
        for g, w in zip(out, want):
            if w is None:
                continue
            if z3.is_bool(w):
                w = z3.If(w, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            if isinstance(w, bool):
                w = int(w)
            if not z3.is_expr(g) and not z3.is_expr(w):
                if g != w:
                    return True
            else:
                cs.append(g != w)
        return z3.Or(cs) if cs else False

    def judge(self, data, outs):
        vs = [None if d is None else [z3.BitVecVal(x, 8) for x in d] for d in data]
        want = self.expected(vs)
        ws = []
        for w in want:
            if z3.is_bool(w):
                w = 1 if z3.is_true(z3.simplify(w)) else 0
            elif z3.is_expr(w):
                w = z3.simplify(w).as_signed_long()
            ws.append(None if w is None else int(w))
        got = [None if w is None else g for g, w in zip(outs[0], ws)]
        return None if got == ws else 'on %r: got %s, should be %s' % (data, got, ws)


def indep_name(i, j):
    return 'i_%d_%d' % (i, j)


class Independent(Case):
    """pairs of patterns: reported independent => no common first byte"""

    def __init__(self, own, fixed, nmax=4, inner=True):
        """pairs of own x (own and fixed), or of own x fixed"""
        super().__init__('pairs of %s with %s%s' % (' , '.join(own), 'each other and ' if inner else '', ' , '.join(fixed)), 1, nmax)
        self.patterns = own + fixed
        self.n_own = len(own)
        self.inner = inner

    def plain_patterns(self):
        return self.patterns

    def functions(self, tag):
        r = []
        for i, p in enumerate(self.patterns):
            t = '%s_m%d' % (tag, i)
            r.append((t, H.search(t, p, 0)[0], 1, 3))
        b = []
        for k, i, j in self.pairs():
            # both orders of a pair would double the work of the compiler: every other pair is turned round
            a, c = ('e_regex::regex<%s>' % cstr(self.patterns[x]) for x in ((i, j) if (i + j) % 2 else (j, i)))
            b.append('out[%d]=(%s::is_independent<%s>()?1:0)|(%s{}.is_independent(%s{})?2:0);' % (k, a, c, a, c))
        t = tag + '_ind'
        r.append((t, H.fn(t, '\n'.join(b)), 1, len(b)))
        return r

    def pairs(self):
        k = 0
        for i in range(self.n_own):
            for j in range(i if self.inner else self.n_own, len(self.patterns)):
                yield k, i, j
                k += 1

    def prepare(self, lens, vs):
        self.v = vs[0]

    def bad_all(self, outs, vs):
        n = len(self.patterns)
        ind = outs[n][0][1]
        b0 = vs[0][0]
        r = []
        sets = []
        for i in range(n):
            # what the matcher of pattern i does, on bytes of its own after the shared first one
            sub = [(x, z3.BitVec('p%d_%d' % (i, k + 1), 8)) for k, x in enumerate(vs[0][1:])]
            c = z3.Or([pc for pc, out in outs[i] if out[0] == 1 and out[1] == 0 and out[2] > 0] or [z3.BoolVal(False)])
            sets.append(z3.substitute(c, *sub) if sub else c)
        self.sub = [[z3.BitVec('p%d_%d' % (i, k + 1), 8) for k in range(len(vs[0]) - 1)] for i in range(n)]
        for k, i, j in self.pairs():
            if ind[k] != 0 and i != j:
                r.append(z3.And(sets[i], sets[j]))
            elif ind[k] != 0:
                r.append(sets[i])
        return r

    def pick(self, model, vs):
        """inputs of each function for a counterexample"""
        first = model.eval(vs[0][0], model_completion=True).as_long()
        return [bytes([first] + [model.eval(x, model_completion=True).as_long() for x in s]) for s in self.sub] + [bytes([first])]

    def judge_each(self, datas, outs):
        ind = outs[-1]
        for k, i, j in self.pairs():
            a, b = outs[i], outs[j]
            if ind[k] and a[:2] == [1, 0] and a[2] > 0 and b[:2] == [1, 0] and b[2] > 0 and datas[i][:1] == datas[j][:1]:
                return '%r and %r are reported independent (%d), yet match %r and %r from their start' % (
                    self.patterns[i], self.patterns[j], ind[k], datas[i], datas[j])
        return None


class Finish(Iterate):
    """a search and an iteration over all matches end"""

    def prepare(self, lens, vs):
        self.n = len(vs[0]) if vs[0] is not None else 0
        self.spec = None

    def bad_ret(self, fi, out, vs):
        return out[0] > self.n + 1

    def judge(self, data, outs):
        n = len(data[0]) if data[0] is not None else 0
        return 'on %r: iterating goes on after %d matches' % (data[0], outs[0][0]) if outs[0][0] > n + 1 else None


class FinishWays(PatCase):
    """so does every other way to iterate"""

    def functions(self, tag):
        t, n = H.finish(tag, self.pattern, self.cap)
        return [(tag, t, 1, n)]

    def prepare(self, lens, vs):
        self.n = len(vs[0]) if vs[0] is not None else 0
        self.spec = None

    def bad_ret(self, fi, out, vs):
        return max(out) > self.n + 1

    def judge(self, data, outs):
        n = len(data[0]) if data[0] is not None else 0
        return 'on %r: iterating goes on after %s steps' % (data[0], outs[0]) if max(outs[0]) > n + 1 else None


class TokFinish(Tok):
    def functions(self, tag):
        return [(tag, H.fn(tag, 'run_tokfinish<%d>(%s,b,e,out);' % (self.cap + 2, H.tokenizer_type(self.defs))), 1, 4)]

    def prepare(self, lens, vs):
        self.n = len(vs[0]) if vs[0] is not None else 0

    def bad_ret(self, fi, out, vs):
        return max(out) > self.n

    def judge(self, data, outs):
        return 'on %r: tokenizing goes on after %s tokens' % (data[0], outs[0]) if max(outs[0]) > len(data[0] or b'') else None


class ConstEval(Diff):
    """the code of constant evaluation and that of run time give the same result, and constant evaluation rejects nothing:
    function 0 is the run-time one, function 1 the same from sources in which constant evaluation is assumed, executed strictly"""
    public = True
    two = True
    memory_matters = True
    header = ''
    how = 'constant evaluation'
    what = 'search'

    def body(self):
        if self.what == 'iter':
            return 'run_iter<%d,%d>(plain<%s>{},b,e,out);' % (self.groups, self.cap + 3, cstr(self.pattern)), 2 + (self.cap + 3) * (2 + 2 * self.groups)
        return 'run_search<%d>(plain<%s>{},b,e,out);' % (self.groups, cstr(self.pattern)), 3 + 2 * self.groups

    def functions(self, tag):
        t, n = self.body()
        return [('%s_%s' % (tag, k), H.cefn('%s_%s' % (tag, k), t), 1, n) for k in 'rc']

    def lens(self):
        return [('n',)] + super().lens()

    def judge(self, data, outs):
        a, b = (self.norm(o) for o in outs)
        return None if a == b else 'on %r: constant evaluation gives %s, run time %s' % (data[0], list(b), list(a))


class ConstText(ConstEval):
    """any harness text over the input b..e"""
    header = H.TOKHEAD

    def __init__(self, key, text, nout, nmin=0, nmax=4):
        Case.__init__(self, key, nmin, nmax)
        self.text, self.nout = text, nout

    def body(self):
        return self.text, self.nout

    def norm(self, out):
        return tuple(out)

    def too_big(self, nout, limits):
        return nout > limits['outcomes']


class ConstTok(ConstEval):
    header = H.TOKHEAD

    def __init__(self, defs, nmin=0, nmax=3):
        Case.__init__(self, 'tokens ' + ' '.join('%s=%s' % (k, t) for k, t in defs), nmin, nmax)
        self.defs = defs

    def body(self):
        m = self.cap + 2
        return 'run_tok<%d>(%s,b,e,out);' % (m, H.tokenizer_type(self.defs)), 1 + 3 * m

    def norm(self, out):
        return tuple(out[:1 + 3 * min(max(out[0] % 1000, 0), self.cap + 2)])

    def too_big(self, nout, limits):
        return nout > limits['outcomes']
