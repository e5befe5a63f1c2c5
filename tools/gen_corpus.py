#!/usr/bin/env python3-vt
"""Generates candidate patterns for the corpora (development only; the committed lists in corpus/ are what the
checks read). gen_corpus.py FOCUS COUNT SEED"""
import random
import sys

sys.path.insert(0, '/verif')
from vlib import pat  # noqa: E402


class G:
    def __init__(self, seed, focus):
        self.r = random.Random('%s-%s' % (focus, seed))
        self.focus = focus

    def pick(self, *xs):
        return self.r.choice(xs)

    def w(self, pairs):
        t = self.r.uniform(0, sum(p for p, _ in pairs))
        for p, x in pairs:
            t -= p
            if t <= 0:
                return x
        return pairs[-1][1]

    def lit(self):
        return self.w([(8, 'a'), (8, 'b'), (5, 'c'), (1, 'd')])

    def cls(self):
        return self.w([(2, '.'), (2, '\\d'), (2, '\\w'), (1, '\\D'), (1, '\\W'), (1.5, '\\s'), (1, '\\S'), (.5, '\\N'), (3, '[ab]'),
                       (3, '[a-c]'), (2, '[^a]'), (1, '[^ab]'), (1, '[b-d]'), (.6, '[^a-c]'), (.5, '\\n'), (.4, '\\t'),
                       (.5, '[a-cx]'), (.5, '[0-9a]'), (.5, '[^\\d]'), (.5, '[\\da]'), (.3, '\\.'), (.3, '[\\s.]'), (.2, '\\x41'), (.2, '\\*'), (.2, '-')])

    def atom(self, depth):
        k = {'quant': .25, 'alt': .2, 'caps': .1, 'mix': .3, 'opt': .5, 'parse': .3, 'search': .15, 'anch': .15}[self.focus]
        x = self.r.random()
        if depth > 0 and x < {'quant': .2, 'alt': .4, 'caps': .5, 'mix': .3, 'opt': .2, 'parse': .4, 'search': .2, 'anch': .3}[self.focus]:
            return self.group(depth - 1)
        return self.cls() if self.r.random() < k else self.lit()

    def group(self, depth):
        open_ = '(' if self.r.random() < {'caps': .8, 'alt': .5}.get(self.focus, .5) else '(?:'
        return open_ + self.alts(depth, .45 if self.focus in ('alt', 'caps') else .25) + ')'

    def quantifier(self):
        q = self.w([(6, '*'), (6, '+'), (6, '?'), (1.2, '{2}'), (1, '{1,2}'), (1, '{2,}'), (1, '{0,2}'), (.7, '{1,3}'), (.5, '{2,3}'), (.4, '{3}'),
                    (.3, '{1}'), (.3, '{0,1}'), (.3, '{1,}'), (.2, '{0,}'), (.1, '{0}')])
        return q + self.w([(5, ''), (2.2, '?'), (1, '+')])

    def item(self, depth):
        a = self.atom(depth)
        p = {'quant': .65, 'alt': .2, 'caps': .35, 'mix': .45, 'opt': .7, 'parse': .3, 'search': .4, 'anch': .3}[self.focus]
        if self.r.random() < p:
            return a + self.quantifier()
        return a

    def cat(self, depth):
        n = self.w([(2, 1), (4, 2), (3, 3), (1, 4)])
        return ''.join(self.item(depth) for _ in range(n))

    def alts(self, depth, p):
        n = 1
        while n < 4 and self.r.random() < p:
            n += 1
        xs = [self.cat(depth) for _ in range(n)]
        if self.focus == 'anch':
            xs = [('^' if self.r.random() < .35 else '') + x + ('$' if self.r.random() < .35 else '') for x in xs]
        return '|'.join(xs)

    def pattern(self):
        d = self.w([(2, 0), (4, 1), (3, 2), (1, 3)]) if self.focus != 'quant' else self.w([(4, 0), (4, 1), (1, 2)])
        return self.alts(d, {'alt': .55, 'caps': .25, 'anch': .4}.get(self.focus, .12))


def anchors_ok(p):
    """^ only opens and $ only closes an alternative"""
    i = 0
    while i < len(p):
        if p[i] == '\\':
            i += 2
            continue
        if p[i] == '[':
            i = p.index(']', i + 1) + 1
            continue
        if p[i] == '^' and i and p[i - 1] not in '(|:':
            return False
        if p[i] == '$' and i + 1 < len(p) and p[i + 1] not in ')|':
            return False
        i += 1
    return True


if __name__ == '__main__':
    focus, count, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    g = G(seed, focus)
    seen = set()
    while len(seen) < count:
        p = g.pattern()
        if p in seen or len(p) > 24 or len(p) < 2:
            continue
        if not anchors_ok(p):
            continue
        try:
            pp = pat.P(p)
            m = pat.Matcher(pp, [pat.ALL] * 5)
            m.member = lambda i, s: __import__('z3').BoolVal(True)
            n = sum(1 for _ in m.paths(0))
        except Exception:
            continue
        if n == 0 and '$' not in p or n > 400:
            continue
        seen.add(p)
        print(p)
