"""Context free grammars: what bison read, automata of their regular parts, recognition."""
from collections import deque
import xml.etree.ElementTree as ET


class Grammar(object):
    def __init__(self, prods, start):
        self.prods = prods          # [(lhs, (symbols..), number)]
        self.start = start
        self.by = {}
        for l, r, n in prods:
            self.by.setdefault(l, []).append((r, n))

    def nts(self):
        return set(self.by)

    def reach(self):
        seen, q = {self.start}, [self.start]
        while q:
            for r, _ in self.by.get(q.pop(), ()):
                for x in r:
                    if x in self.by and x not in seen:
                        seen.add(x)
                        q.append(x)
        return seen

    def sccs(self, calls):
        """recursive components of the grammar with `calls` taken for terminals: [(set, kind)], kind left|right|None"""
        g = {a: {x for r, _ in rs for x in r if x in self.by and x not in calls} for a, rs in self.by.items() if a not in calls or True}
        idx, low, st, on, out = {}, {}, [], set(), []

        def go(v):
            work = [(v, iter(sorted(g.get(v, ()))))]
            idx[v] = low[v] = len(idx)
            st.append(v)
            on.add(v)
            while work:
                x, it = work[-1]
                for y in it:
                    if y not in idx:
                        idx[y] = low[y] = len(idx)
                        st.append(y)
                        on.add(y)
                        work.append((y, iter(sorted(g.get(y, ())))))
                        break
                    if y in on:
                        low[x] = min(low[x], idx[y])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[x])
                    if low[x] == idx[x]:
                        c = set()
                        while True:
                            y = st.pop()
                            on.discard(y)
                            c.add(y)
                            if y == x:
                                break
                        if len(c) > 1 or x in g.get(x, ()):
                            out.append(c)
        for v in sorted(g):
            if v not in idx:
                go(v)
        res = []
        for c in out:
            left = right = True
            for a in c:
                for r, _ in self.by[a]:
                    ms = [i for i, x in enumerate(r) if x in c and x not in calls]
                    if len(ms) > 1:
                        left = right = False
                    elif ms:
                        left = left and ms[0] == 0
                        right = right and ms[0] == len(r) - 1
            res.append((c, "left" if left else "right" if right else None))
        return res

    def regular(self, calls):
        return all(k for _, k in self.sccs(calls))

    def nfa(self, symbol, calls, ren):
        """automaton of the words over terminals and calls that `symbol` (expanded once even when it is a call) derives"""
        comp = {}
        for c, k in self.sccs(calls):
            for a in c:
                comp[a] = (c, k)
        edges = {}
        n = [2]

        def fresh():
            n[0] += 1
            return n[0] - 1

        def edge(p, a, q):
            edges.setdefault(p, []).append((a, q))

        def seq(p, xs, q):
            if not xs:
                edge(p, None, q)
                return
            for x in xs[:-1]:
                m = fresh()
                one(p, x, m)
                p = m
            one(p, xs[-1], q)

        def one(p, x, q, force=False):
            if x not in self.by or x in calls and not force:
                edge(p, ren.get(x, x), q)
                return
            if x not in comp or force and x in calls:
                for r, _ in self.by[x]:
                    seq(p, r, q)
                return
            c, kind = comp[x]
            st = {b: fresh() for b in c}
            for b in c:
                for r, _ in self.by[b]:
                    inn = [y for y in r if y in c and y not in calls]
                    if kind == "left":
                        if inn:
                            seq(st[r[0]], r[1:], st[b])
                        else:
                            seq(p, r, st[b])
                    else:
                        if inn:
                            seq(st[b], r[:-1], st[r[-1]])
                        else:
                            seq(st[b], r, q)
            if kind == "left":
                edge(st[x], None, q)
            else:
                edge(p, None, st[x])
        one(0, symbol, 1, True)
        return Nfa(edges)

    def shortest(self):
        """a shortest word of every nonterminal"""
        w = {}
        ch = True
        while ch:
            ch = False
            for l, r, _ in self.prods:
                if all(x not in self.by or x in w for x in r):
                    v = sum((w.get(x, (x,)) if x in self.by else (x,) for x in r), ())
                    if l not in w or len(v) < len(w[l]):
                        w[l] = v
                        ch = True
        return w

    def earley(self, word, start=None):
        """does the grammar derive the word (terminals, or nonterminals standing for themselves)?"""
        return self.parse(word, start, False)

    def parse(self, word, start=None, tree=True):
        start = start or self.start
        n = len(word)
        nullable = {l for l, v in self.shortest().items() if not v}
        chart = [dict() for _ in range(n + 1)]

        def addi(k, item, back):
            if item not in chart[k]:
                chart[k][item] = back
                agenda.append(item)
        for k in range(n + 1):
            agenda = list(chart[k])
            if k == 0:
                for r, num in self.by.get(start, ()):
                    addi(0, (start, r, num, 0, 0), ())
            while agenda:
                it = agenda.pop()
                l, r, num, d, o = it
                if d < len(r):
                    x = r[d]
                    if k < n and word[k] == x:
                        chart[k + 1].setdefault((l, r, num, d + 1, o), (it, k, None))
                    if x in self.by:
                        for r2, n2 in self.by[x]:
                            addi(k, (x, r2, n2, 0, k), ())
                        if x in nullable:
                            # completed at the same place: look for it
                            for it2 in list(chart[k]):
                                if it2[0] == x and it2[3] == len(it2[1]) and it2[4] == k:
                                    addi(k, (l, r, num, d + 1, o), (it, k, it2))
                else:
                    for it2 in list(chart[o]):
                        l2, r2, num2, d2, o2 = it2
                        if d2 < len(r2) and r2[d2] == l:
                            addi(k, (l2, r2, num2, d2 + 1, o2), (it2, o, it))
        fin = [it for it in chart[n] if it[0] == start and it[3] == len(it[1]) and it[4] == 0]
        if not tree:
            return bool(fin)
        if not fin:
            return None

        def build(it, k):
            l, r, num, d, o = it
            kids = []
            while d:
                back = chart[k][it]
                prev, pk, sub = back
                if sub is None:
                    kids.append(("leaf", word[pk], pk))
                else:
                    kids.append(build(sub, k))
                it, k = prev, pk
                d = it[3]
            return ("node", l, num, kids[::-1])
        return build(fin[0], n)


class Nfa(object):
    def __init__(self, edges):
        self.e = edges

    def clos(self, ss):
        seen, q = set(ss), list(ss)
        while q:
            for a, y in self.e.get(q.pop(), ()):
                if a is None and y not in seen:
                    seen.add(y)
                    q.append(y)
        return frozenset(seen)

    def start(self):
        return self.clos([0])

    def step(self, s, a):
        r = {y for x in s for b, y in self.e.get(x, ()) if b == a}
        return self.clos(r)

    def acc(self, s):
        return 1 in s

    def out(self, s):
        return {b for x in s for b, _ in self.e.get(x, ()) if b is not None}


def differences(a, b, limit=200):
    """words in exactly one of the two languages, shortest first, each with its own pair of states"""
    st = (a.start(), b.start())
    seen, q, out = {st: ()}, deque([st]), []
    while q:
        x, y = q.popleft()
        w = seen[(x, y)]
        if a.acc(x) != b.acc(y):
            out.append((w, a.acc(x)))
            if len(out) >= limit:
                break
        for t in sorted(a.out(x) | b.out(y)):
            n = (a.step(x, t), b.step(y, t))
            if n not in seen and (n[0] or n[1]):
                seen[n] = w + (t,)
                q.append(n)
    # beyond the difference: complete words that are rejected or accepted later on
    return out, len(seen)


class Lalr(object):
    """the automaton bison built: recognition exactly as the generated parser does it, actions aside"""

    def __init__(self, path):
        r = ET.parse(path).getroot()
        self.terms = {}
        for t in r.iter("terminal"):
            self.terms[t.get("name")] = int(t.get("token-number"))
        self.nts = {t.get("name") for t in r.iter("nonterminal")}
        self.rules = []
        self.useless = []
        for x in r.find("grammar").find("rules"):
            lhs = x.find("lhs").text
            rhs = tuple(s.text for s in x.find("rhs").findall("symbol"))
            self.rules.append((lhs, rhs, int(x.get("number"))))
            if x.get("usefulness") != "useful":
                self.useless.append(int(x.get("number")))
        self.states = []
        self.conflicts = []
        self.solved = []
        for s in r.find("automaton"):
            n = int(s.get("number"))
            act = s.find("actions")
            sh, go, red = {}, {}, []
            for t in act.find("transitions"):
                (sh if t.get("type") == "shift" else go)[t.get("symbol")] = int(t.get("state"))
            for t in act.find("reductions"):
                if t.get("enabled") != "true":
                    self.conflicts.append((n, t.get("symbol"), t.get("rule")))
                    continue
                red.append((t.get("symbol"), t.get("rule")))
            er = act.find("errors")
            errs = {t.get("symbol") for t in er} if er is not None else set()
            sc = s.find("solved-conflicts")
            if sc is not None and len(sc):
                self.solved.append((n, [x.attrib for x in sc]))
            self.states.append((sh, go, dict(red), errs))
        self.rule = {n: (l, r) for l, r, n in self.rules}

    def grammar(self):
        prods = [(l, r, n) for l, r, n in self.rules if l != "$accept"]
        start = [r[0] for l, r, n in self.rules if l == "$accept"][0]
        return Grammar(prods, start)

    def accepts(self, word, eof):
        st = [0]
        word = list(word) + [eof]
        i = 0
        for _ in range(100000):
            sh, go, red, errs = self.states[st[-1]]
            t = word[i]
            if t in sh and t not in errs:
                st.append(sh[t])
                i += 1
                if i == len(word):
                    # $end shifted: the accepting state follows by default
                    sh, go, red, errs = self.states[st[-1]]
                    return red.get("$default") == "accept" or red.get(t) == "accept"
                continue
            r = red.get(t, red.get("$default"))
            if r is None or t in errs:
                return False
            if r == "accept":
                return True
            l, rhs = self.rule[int(r)]
            if rhs:
                del st[-len(rhs):]
            st.append(self.states[st[-1]][1][l])
        return False
