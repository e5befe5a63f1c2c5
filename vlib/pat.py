"""Independent reference for the regular expressions under test.

A pattern text is parsed here (nothing of the library is used) and matched with ordered (Perl)
backtracking semantics, symbolically over N input bytes: `paths` enumerates, in priority order, the
ways a pattern can match at a position; each is a cube of byte sets plus extra conditions.
With one-element byte sets the same code is a concrete matcher (validated against Python's re).
"""
import time

import z3

ALL = frozenset(range(256))
NL = frozenset([10])
DIGIT = frozenset(range(48, 58))
WORD = frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95])
SPACE = frozenset([9, 10, 12, 13, 32])
CLASSES = {
    'd': DIGIT, 'D': ALL - DIGIT, 'w': WORD, 'W': ALL - WORD, 's': SPACE, 'S': ALL - SPACE, 'N': ALL - NL,
    'a': frozenset([7]), 'e': frozenset([27]), 't': frozenset([9]), 'n': NL, 'r': frozenset([13]), 'f': frozenset([12]),
}


class Bad(Exception):
    pass


class TooLong(Exception):
    pass


class P:
    """parsed pattern"""

    def __init__(self, text):
        self.t = text
        self.i = 0
        self.groups = 0
        self.ast = self.alt()
        if self.i != len(text):
            raise Bad(text)

    def peek(self, n=1):
        return self.t[self.i:self.i + n]

    def alt(self):
        alts = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            alts.append(self.cat())
        return alts[0] if len(alts) == 1 else ('alt', alts)

    def cat(self):
        items = []
        while self.i < len(self.t) and self.peek() not in '|)':
            items.append(self.quant(self.atom()))
        return items[0] if len(items) == 1 else ('cat', items)

    def quant(self, a):
        while self.i < len(self.t):
            c = self.peek()
            if c == '*':
                lo, hi = 0, None
            elif c == '+':
                lo, hi = 1, None
            elif c == '?':
                lo, hi = 0, 1
            elif c == '{':
                j = self.t.index('}', self.i)
                body = self.t[self.i + 1:j]
                self.i = j
                if ',' in body:
                    x, y = body.split(',')
                    lo, hi = int(x), (int(y) if y else None)
                else:
                    lo = hi = int(body)
            else:
                return a
            self.i += 1
            mode = 'g'
            if self.peek() == '?':
                mode = 'l'
                self.i += 1
            elif self.peek() == '+':
                mode = 'p'
                self.i += 1
            a = ('rep', a, lo, hi, mode)
        return a

    def hexes(self, s):
        if len(s) == 1:
            return [int(s, 16)]
        return [int(s[k:k + 2], 16) for k in range(0, len(s), 2)]

    def esc(self, inset=False):
        """after the backslash; returns an ast"""
        c = self.t[self.i]
        self.i += 1
        if c in CLASSES:
            return ('set', CLASSES[c])
        HEX = '0123456789ABCDEFabcdef'
        if c == 'x' and not inset and (self.peek() == '{' or (self.peek() and self.peek() in HEX)):
            if self.peek() == '{':
                j = self.t.index('}', self.i)
                s = self.t[self.i + 1:j]
                self.i = j + 1
            else:
                s = self.t[self.i]
                self.i += 1
                if self.i < len(self.t) and self.t[self.i] in HEX:
                    s += self.t[self.i]
                    self.i += 1
            return self.bytes(self.hexes(s))
        if c == 'o' and self.peek() == '{' and not inset:
            j = self.t.index('}', self.i)
            s = self.t[self.i + 1:j]
            self.i = j + 1
            return self.bytes([int(s[k:k + 3], 8) for k in range(0, len(s), 3)])
        if c == 'o' and not inset and len(self.peek(3)) == 3 and all(d in '01234567' for d in self.peek(3)):
            v = int(self.peek(3), 8)
            self.i += 3
            return self.bytes([v])
        if c in '01234567' and not inset and len(self.peek(2)) == 2 and all(d in '01234567' for d in self.peek(2)):
            v = int(c + self.peek(2), 8)
            self.i += 2
            return self.bytes([v])
        return ('set', frozenset([ord(c) & 255]))

    def bytes(self, bs):
        its = [('set', frozenset([b & 255])) for b in bs]
        return its[0] if len(its) == 1 else ('cat', its)

    def atom(self):
        c = self.t[self.i]
        self.i += 1
        if c == '\\':
            return self.esc()
        if c == '.':
            return ('set', ALL - NL)
        if c == '^':
            return ('bol',)
        if c == '$':
            return ('eol',)
        if c == '[':
            return self.bracket()
        if c == '(':
            if self.peek(2) == '?:':
                self.i += 2
                a = self.alt()
                self.close()
                return ('nc', a)
            self.groups += 1
            n = self.groups
            a = self.alt()
            self.close()
            return ('grp', n, a)
        return ('set', frozenset([ord(c)]))

    def close(self):
        if self.peek() != ')':
            raise Bad(self.t)
        self.i += 1

    def bracket(self):
        neg = False
        if self.peek() == '^':
            neg = True
            self.i += 1
        s = set()
        while self.peek() != ']':
            c = self.t[self.i]
            self.i += 1
            if c == '\\':
                s |= self.esc(True)[1]
            elif self.peek() == '-' and self.t[self.i + 1] != ']':
                hi = self.t[self.i + 1]
                self.i += 2
                # char is signed
                s |= set(x & 255 for x in range((ord(c) ^ 128) - 128, (ord(hi) ^ 128) - 128 + 1))
            else:
                s.add(ord(c))
        self.i += 1
        return ('set', (ALL - s) if neg else frozenset(s))


class Matcher:
    """paths of one pattern over a domain: a list of byte sets, one for each input position"""

    def __init__(self, pattern, dom, member=None):
        self.p = pattern if isinstance(pattern, P) else P(pattern)
        self.dom = dom
        self.n = len(dom)
        self.member = member  # (pos, set) -> z3 Bool; None: concrete
        self.count = 0
        self.steps = 0
        self.maxsteps = 60000 if self.n > 12 else 3000000
        self.until = time.process_time() + (8 if self.n > 12 else 10000)

    # state: (pos, caps, cube, extras)
    def run(self, node, st):
        k = node[0]
        self.steps += 1
        if self.steps > self.maxsteps or self.steps % 512 == 0 and time.process_time() > self.until:
            raise TooLong('the reference takes too long')
        if k == 'set':
            pos, caps, cube, ex = st
            if pos >= self.n:
                return
            cur = cube[pos]
            new = (cur if cur is not None else self.dom[pos]) & node[1]
            if not new:
                return
            if new != cur:
                cube = cube[:pos] + (new,) + cube[pos + 1:]
            yield (pos + 1, caps, cube, ex)
        elif k == 'cat':
            yield from self.cat(node[1], 0, st)
        elif k == 'alt':
            for a in node[1]:
                yield from self.run(a, st)
        elif k == 'nc':
            yield from self.run(node[1], st)
        elif k == 'grp':
            for pos, caps, cube, ex in self.run(node[2], st):
                i = node[1] - 1
                yield (pos, caps[:i] + ((st[0], pos),) + caps[i + 1:], cube, ex)
        elif k == 'rep':
            _, a, lo, hi, mode = node
            if mode == 'p':
                none = None      # none of the earlier ways is there
                seen = set()
                for o in self.rep(a, lo, hi, 'g', 0, st):
                    if self.member is None:
                        yield o
                        return
                    key = None
                    if len(o[3]) == len(st[3]):
                        # what it needs beyond what is already required
                        key = tuple((i, x) for i, x in enumerate(o[2]) if x is not None and x != (self.dom[i] if st[2][i] is None else st[2][i]))
                        if key in seen:
                            continue
                        seen.add(key)
                    yield o if none is None else (o[0], o[1], o[2], o[3] + (none,))
                    if key == ():
                        return
                    if self.n > 12 and time.process_time() > self.until:
                        raise TooLong('the reference takes too long')
                    g = z3.Not(self.guard(o))
                    none = g if none is None else z3.And(none, g)
            else:
                yield from self.rep(a, lo, hi, mode, 0, st)
        elif k == 'bol':
            pos, caps, cube, ex = st
            if pos == 0:
                yield st
            else:  # the byte before is a newline
                cur = cube[pos - 1]
                new = (cur if cur is not None else self.dom[pos - 1]) & NL
                if new:
                    yield (pos, caps, cube[:pos - 1] + (new,) + cube[pos:], ex)
        elif k == 'eol':
            if st[0] == self.n:
                yield st
            else:
                yield from self.run(('set', NL), st)
        else:
            raise Bad(k)

    def cat(self, items, i, st):
        if i == len(items):
            yield st
            return
        for s in self.run(items[i], st):
            yield from self.cat(items, i + 1, s)

    def rep(self, a, lo, hi, mode, c, st):
        if c < lo:
            for s in self.run(a, st):
                yield from self.rep(a, lo, hi, mode, c + 1, s)
            return
        if mode == 'l':
            yield st
        if hi is None or c < hi:
            for s in self.run(a, st):
                if s[0] != st[0]:
                    yield from self.rep(a, lo, hi, mode, c + 1, s)
                else:
                    # an iteration that matches nothing ends the repetition and leaves no trace
                    yield (st[0], st[1], s[2], s[3])
        if mode == 'g':
            yield st

    def guard(self, st):
        g = [self.member(i, s) for i, s in enumerate(st[2]) if s is not None and s != self.dom[i]]
        g += list(st[3])
        return z3.And(g) if g else z3.BoolVal(True)

    def paths(self, start):
        st = (start, ((-1, -1),) * self.p.groups, (None,) * self.n, ())
        for s in self.run(self.p.ast, st):
            self.count += 1
            if self.count > 200000:
                raise Bad('too many paths')
            yield s


def concrete_at(p, data, start):
    m = Matcher(p, [frozenset([b]) for b in data])
    for s in m.paths(start):
        return (start, s[0], s[1])
    return None


def concrete_search(p, data, frm=0):
    for i in range(frm, len(data) + 1):
        r = concrete_at(p, data, i)
        if r:
            return r
    return None


class Spec:
    """symbolic specification of a search over N bytes; `bytes`: z3 bit-vectors"""

    def __init__(self, pattern, bytes_):
        self.p = pattern if isinstance(pattern, P) else P(pattern)
        self.b = bytes_
        self.n = len(bytes_)
        self.dom = [frozenset([b.as_long()]) if z3.is_bv_value(b) else ALL for b in bytes_]
        self.mem = {}
        self.at_ = {}
        self.any_ = {}
        self.from_ = {}
        self.npaths = 0
        self.until = time.process_time() + 8

    def member(self, i, s):
        k = (i, s)
        if k in self.mem:
            return self.mem[k]
        self.mem[k] = r = in_set(self.b[i], s)
        return r

    def at(self, start):
        """list of (result, guard), mutually exclusive, for a match starting exactly at start"""
        if start in self.at_:
            return self.at_[start]
        m = Matcher(self.p, self.dom, self.member)
        if self.n > 12:
            m.until = self.until
        out = {}
        n = 0
        none = True       # no path so far (z3 once there are any)
        seen = set()
        for s in m.paths(start):
            if not s[3]:
                # the same bytes as an earlier path: never taken
                key = tuple((i, x) for i, x in enumerate(s[2]) if x is not None and x != self.dom[i])
                if key in seen:
                    continue
                seen.add(key)
            else:
                key = None
            if n > 400 and self.n > 12:
                raise TooLong('the reference takes too long')
            g = z3.BoolVal(True) if key == () else m.guard(s)
            n += 1
            out.setdefault((start, s[0], s[1]), []).append(g if none is True else none if z3.is_true(g) else z3.And(g, none))
            if z3.is_true(g):
                none = False
                break
            none = z3.Not(g) if none is True else z3.And(none, z3.Not(g))
        self.npaths += n
        self.any_[start] = z3.BoolVal(not none) if isinstance(none, bool) else z3.Not(none)
        self.at_[start] = {r: (z3.Or(gs) if len(gs) > 1 else gs[0]) for r, gs in out.items()}
        return self.at_[start]

    def any(self, start):
        self.at(start)
        return self.any_[start]

    def search(self, frm):
        """dict: result or None -> condition, for a search over the positions frm..N"""
        if frm in self.from_:
            return self.from_[frm]
        out = {}
        no = True         # nothing found before
        for i in range(frm, self.n + 1):
            a = self.at(i)
            for r, g in a.items():
                out[r] = g if no is True else z3.And(no, g)
            x = self.any(i)
            if z3.is_true(x):
                no = False
                break
            if not z3.is_false(x):
                no = z3.Not(x) if no is True else z3.And(no, z3.Not(x))
        if no is not False:
            out[None] = z3.BoolVal(True) if no is True else no
        self.from_[frm] = out
        return out


def ranges(s):
    xs = sorted(s)
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out


def in_set(b, s):
    if len(s) == 256:
        return z3.BoolVal(True)
    if not s:
        return z3.BoolVal(False)
    if len(s) > 128:
        return z3.Not(in_set(b, ALL - s))
    cs = []
    for lo, hi in ranges(s):
        if lo == hi:
            cs.append(b == lo)
        else:
            cs.append(z3.And(z3.UGE(b, lo), z3.ULE(b, hi)))
    return cs[0] if len(cs) == 1 else z3.Or(cs)


# ---------------------------------------------------------------- samples
def word(node, rnd, long=0):
    """a text that the node describes (up to possessive quantifiers and anchors)"""
    k = node[0]
    if k == 'set':
        pool = [c for c in (97, 98, 99, 49, 32, 44, 10, 66, 95, 233) if c in node[1]] or sorted(node[1])
        return bytes([rnd.choice(pool[:3])]) if pool else b''
    if k == 'cat':
        return b''.join(word(x, rnd, long) for x in node[1])
    if k == 'alt':
        return word(rnd.choice(node[1]), rnd, long)
    if k == 'nc':
        return word(node[1], rnd, long)
    if k == 'grp':
        return word(node[2], rnd, long)
    if k == 'rep':
        lo, hi = node[2], node[3]
        top = lo + long if hi is None else hi
        n = rnd.choice([lo, top, rnd.randint(lo, max(lo, min(top, lo + 3)))])
        same = rnd.random() < .4
        w = word(node[1], rnd, 1)
        r = b''
        for _ in range(n):
            r += w if same else word(node[1], rnd, 1)
            if len(r) > 400:
                break
        return r
    return b''


def templates(pattern, k, shortest=0, longest=40, seed=''):
    """inputs longer than the exhaustive ones, around words of the pattern, with a few symbolic bytes"""
    import random
    p = pattern if isinstance(pattern, P) else P(pattern)
    rnd = random.Random('%r %s' % (p.t, seed))
    r = []
    for i in range(60 * k):
        if len(r) >= k:
            break
        parts = [word(p.ast, rnd, rnd.choice([1, 3, 8, 16])) for _ in range(rnd.choice([1, 1, 2, 3, 6]))]
        if rnd.random() < .5:
            parts = [rnd.choice([b'', b'b', b'-', b'a', b'\n'])] + parts + [rnd.choice([b'', b'a', b'b', b'-', b'\n'])]
        w = b''.join(parts)
        if len(w) > longest:
            w = w[len(w) - longest:] if rnd.random() < .5 else w[:longest]
        if len(w) <= shortest:
            continue
        t = list(w)
        if rnd.random() < .7:
            spots = [rnd.randrange(len(t)), rnd.choice([0, len(t) - 1, rnd.randrange(len(t))])]
        else:
            spots = [rnd.randrange(len(t) - 1)]
            spots.append(spots[0] + 1)
        for s in spots:
            t[s] = None
        r.append(tuple(t))
    return r


def long_words(p, k, least=257, most=340, seed='', reps=(256, 300)):
    """texts with a long run of repetitions, one symbolic byte before and one after it"""
    import random
    p = p if isinstance(p, P) else P(p)
    rnd = random.Random('%r %s' % (p.t, seed))
    r = []
    for _ in range(40 * k):
        w = word(p.ast, rnd, rnd.randint(*reps))
        if least <= len(w) <= most:
            r.append((None,) + tuple(w) + (None,))
            if len(r) == k:
                break
    return r


def token_templates(defs, k, shortest=0, longest=40, seed=''):
    """the same around tokens and separators"""
    import random
    rnd = random.Random('%r %s' % ([(t, p.t) for t, p in defs], seed))
    toks = [p for t, p in defs if t != 's']
    seps = [p for t, p in defs if t == 's']
    r = []
    for i in range(60 * k):
        if len(r) >= k:
            break
        w = b''
        size = rnd.choice([shortest + 4, longest // 2, longest])
        while len(w) < size:
            a = word(rnd.choice(toks).ast, rnd, rnd.choice([1, 1, 3, 8]))
            b = word(rnd.choice(seps).ast, rnd, rnd.choice([1, 1, 3]))
            if not a + b:
                break
            w += a + b
        if rnd.random() < .2 and seps:
            w = word(rnd.choice(seps).ast, rnd, 1) + w
        w = w[:longest]
        if len(w) <= shortest:
            continue
        t = list(w)
        for s in (rnd.randrange(len(t)), rnd.randrange(len(t))):
            t[s] = None
        r.append(tuple(t))
    return r
