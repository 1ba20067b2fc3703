"""An interpreter for the subset of ANTLR4 grammars that pyudunits2 ships.

It shares nothing with the ANTLR runtime: lexer rules become an NFA simulated
for the longest match (earliest rule wins ties, per-mode), parser rules are
explored by ordered choice with full backtracking, a left recursive rule being
a greedy loop. For a valid sentence this picks the same tree as ALL(*), which
takes the lowest numbered alternative that is viable in full context.
"""
from __future__ import annotations

import collections
import dataclasses
import re

# --------------------------------------------------------------------------
# Reading .g4 text

_TOKEN = re.compile(
    r"""
    (?P<comment>//[^\n]*|/\*.*?\*/)
  | (?P<ws>\s+)
  | (?P<lit>'(?:\\.|[^'\\])*')
  | (?P<set>\[(?:\\.|[^\]\\])*\])
  | (?P<range>\.\.)
  | (?P<arrow>->)
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*)
  | (?P<op>[:;|()?*+.,{}=])
    """,
    re.X | re.S,
)


def _tokenise(text):
    pos, out = 0, []
    while pos < len(text):
        m = _TOKEN.match(text, pos)
        if not m:
            raise ValueError(f"cannot read grammar at {text[pos:pos+30]!r}")
        pos = m.end()
        if m.lastgroup not in ("comment", "ws"):
            out.append((m.lastgroup, m.group()))
    return out


def _unescape(body):
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c == "\\":
            n = body[i + 1]
            if n == "u":
                out.append(chr(int(body[i + 2 : i + 6], 16)))
                i += 6
                continue
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f", "b": "\b"}.get(n, n))
            i += 2
            continue
        out.append(c)
        i += 1
    return "".join(out)


@dataclasses.dataclass
class Rule:
    name: str
    fragment: bool
    mode: str
    body: tuple
    commands: list
    index: int


class Grammar:
    """Element forms: ('alt', [seq...]) ('seq', [...]) ('ref', name) ('lit', s)
    ('chars', frozenset-of-(lo,hi)) ('any',) ('opt', e) ('star', e) ('plus', e)"""

    def __init__(self, text: str):
        self.toks = _tokenise(text)
        self.i = 0
        self.rules: "collections.OrderedDict[str, Rule]" = collections.OrderedDict()
        mode = "DEFAULT_MODE"
        while self.i < len(self.toks):
            kind, t = self.toks[self.i]
            if kind == "id" and t in ("lexer", "parser", "grammar"):
                while self._next()[1] != ";":
                    pass
                continue
            if t == "options":
                while self._next()[1] != "}":
                    pass
                continue
            if t == "mode":
                self.i += 1
                mode = self._next()[1]
                self._expect(";")
                continue
            fragment = False
            if t == "fragment":
                fragment = True
                self.i += 1
            name = self._next()[1]
            self._expect(":")
            body, commands = self._alts(top=True)
            self._expect(";")
            if name in self.rules:
                raise ValueError(f"duplicate rule {name}")
            self.rules[name] = Rule(name, fragment, mode, body, commands, len(self.rules))

    def _next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def _peek(self):
        return self.toks[self.i]

    def _expect(self, t):
        got = self._next()
        if got[1] != t:
            raise ValueError(f"grammar: expected {t!r}, got {got[1]!r}")

    def _alts(self, top=False):
        alts, commands = [], []
        while True:
            seq = []
            while self._peek()[1] not in ("|", ")", ";") and self._peek()[0] != "arrow":
                seq.append(self._element())
            if self._peek()[0] == "arrow":
                self._next()
                while True:
                    cmd = self._next()[1]
                    arg = None
                    if self._peek()[1] == "(":
                        self._next()
                        arg = self._next()[1]
                        self._expect(")")
                    commands.append((cmd, arg))
                    if self._peek()[1] == ",":
                        self._next()
                        continue
                    break
            alts.append(("seq", seq))
            if self._peek()[1] == "|":
                self._next()
                continue
            break
        body = ("alt", alts)
        return (body, commands) if top else body

    def _element(self):
        kind, t = self._next()
        if kind == "lit":
            s = _unescape(t[1:-1])
            if self._peek()[0] == "range":
                self._next()
                hi = _unescape(self._next()[1][1:-1])
                e = ("chars", ((ord(s), ord(hi)),))
            else:
                e = ("lit", s)
        elif kind == "set":
            body, ranges, i = _unescape(t[1:-1]), [], 0
            while i < len(body):
                if i + 2 < len(body) and body[i + 1] == "-":
                    ranges.append((ord(body[i]), ord(body[i + 2])))
                    i += 3
                else:
                    ranges.append((ord(body[i]), ord(body[i])))
                    i += 1
            e = ("chars", tuple(ranges))
        elif kind == "id":
            e = ("ref", t)
        elif t == "(":
            e = self._alts()
            self._expect(")")
        elif t == ".":
            e = ("any",)
        else:
            raise ValueError(f"grammar: unexpected {t!r}")
        while self._peek()[1] in ("?", "*", "+"):
            e = ({"?": "opt", "*": "star", "+": "plus"}[self._next()[1]], e)
        return e


# --------------------------------------------------------------------------
# Lexing


class Lexer:
    def __init__(self, grammar: Grammar):
        self.g = grammar
        self.eps: list[list[int]] = []
        self.edges: list[list[tuple]] = []
        self.accept: dict[int, Rule] = {}
        self.start: dict[str, int] = {}
        for rule in grammar.rules.values():
            if rule.mode not in self.start:
                self.start[rule.mode] = self._state()
        for rule in grammar.rules.values():
            if rule.fragment:
                continue
            a, b = self._build(("ref", rule.name))
            self.eps[self.start[rule.mode]].append(a)
            self.accept[b] = rule

    def _state(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def _build(self, e):
        kind = e[0]
        a = self._state()
        if kind == "ref":
            return self._build(self.g.rules[e[1]].body)
        if kind == "lit":
            cur = a
            for ch in e[1]:
                n = self._state()
                self.edges[cur].append((((ord(ch), ord(ch)),), n))
                cur = n
            return a, cur
        b = self._state()
        if kind == "chars":
            self.edges[a].append((e[1], b))
        elif kind == "any":
            self.edges[a].append((((0, 0x10FFFF),), b))
        elif kind == "alt":
            for s in e[1]:
                x, y = self._build(s)
                self.eps[a].append(x)
                self.eps[y].append(b)
        elif kind == "seq":
            cur = a
            for part in e[1]:
                x, y = self._build(part)
                self.eps[cur].append(x)
                cur = y
            self.eps[cur].append(b)
        elif kind in ("opt", "star", "plus"):
            x, y = self._build(e[1])
            self.eps[a].append(x)
            self.eps[y].append(b)
            if kind != "plus":
                self.eps[a].append(b)
            if kind != "opt":
                self.eps[y].append(x)
        else:
            raise ValueError(kind)
        return a, b

    def _close(self, states):
        seen, stack = set(states), list(states)
        while stack:
            for n in self.eps[stack.pop()]:
                if n not in seen:
                    seen.add(n)
                    stack.append(n)
        return seen

    def tokens(self, text):
        """[(type, text, mode)], with modes followed."""
        out, pos, mode = [], 0, "DEFAULT_MODE"
        cache = self.__dict__.setdefault("_cache", {})
        while pos < len(text):
            key = ("start", mode)
            if key not in cache:
                cache[key] = frozenset(self._close([self.start[mode]]))
            cur = cache[key]
            best = None
            p = pos
            while p < len(text) and cur:
                c = ord(text[p])
                key = (cur, c)
                nxt = cache.get(key)
                if nxt is None:
                    moved = [n for s in cur for ranges, n in self.edges[s]
                             if any(lo <= c <= hi for lo, hi in ranges)]
                    nxt = frozenset(self._close(moved))
                    acc = [self.accept[s] for s in nxt if s in self.accept]
                    acc = min(acc, key=lambda r: r.index) if acc else None
                    nxt = cache[key] = (nxt, acc)
                cur, acc = nxt
                p += 1
                if acc is not None:
                    best = (p, acc)
            if best is None:
                raise ValueError(f"no token at {text[pos:]!r}")
            end, rule = best
            ttype = rule.name
            was = mode
            for cmd, arg in rule.commands:
                if cmd == "type":
                    ttype = arg
                elif cmd in ("mode", "pushMode"):
                    mode = arg
                else:
                    raise ValueError(f"lexer command {cmd}")
            out.append((ttype, text[pos:end], was))
            pos = end
        return out


# --------------------------------------------------------------------------
# Parsing


class Parser:
    """Trees are (rule, [children]); a terminal is (TYPE, 'text') with a str."""

    def __init__(self, grammar: Grammar, lexer: Grammar):
        self.g = grammar
        # Literals in the parser grammar stand for the token of that literal.
        self.literal = {}
        for r in lexer.rules.values():
            if r.fragment or r.mode != "DEFAULT_MODE":
                continue
            alts = r.body[1]
            if len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0][0] == "lit":
                self.literal[alts[0][1][0][1]] = r.name
        self.left = {}
        for name, r in grammar.rules.items():
            base, rec = [], []
            for seq in r.body[1]:
                parts = seq[1]
                if parts and parts[0] == ("ref", name):
                    rec.append(("seq", parts[1:]))
                else:
                    base.append(seq)
            if rec:
                self.left[name] = (("alt", base), ("alt", rec))

    def parse(self, tokens, start="unit_spec"):
        """The parse tree, or None if the sentence is not in the language."""
        self.toks = [(t, s) for t, s, *_ in tokens] + [("EOF", "<EOF>")]
        self.memo = {}
        for end, tree in self._rule(start, 0):
            if end == len(self.toks):
                return tree
        return None

    def _rule(self, name, pos):
        key = (name, pos)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []  # no non-left recursion through the same position
        out, seen = [], set()
        if name in self.left:
            base, rec = self.left[name]
            firsts = [(e, (name, k)) for e, k in self._match(base, pos)]
            # Depth first, continuing the loop before leaving it.
            visited = set()
            def guarded(end, tree):
                if end in visited:
                    return
                visited.add(end)
                for e2, kids in self._match(rec, end):
                    if e2 > end:
                        guarded(e2, (name, [tree] + kids))
                out.append((end, tree))
            for e, t in firsts:
                guarded(e, t)
        else:
            for e, kids in self._match(self.g.rules[name].body, pos):
                if e not in seen:
                    seen.add(e)
                    out.append((e, (name, kids)))
        self.memo[key] = out
        return out

    def _match(self, e, pos):
        """Ordered [(end, children)], one per distinct end."""
        kind = e[0]
        if kind == "alt":
            res = [m for s in e[1] for m in self._match(s, pos)]
        elif kind == "seq":
            res = [(pos, [])]
            for part in e[1]:
                res = self._uniq([(e2, k + k2) for e1, k in res for e2, k2 in self._match(part, e1)])
        elif kind == "opt":
            res = self._match(e[1], pos) + [(pos, [])]
        elif kind in ("star", "plus"):
            res = []

            def loop(p, kids, n):
                for e2, k2 in self._match(e[1], p):
                    if e2 > p:
                        loop(e2, kids + k2, n + 1)
                if n or kind == "star":
                    res.append((p, kids))

            loop(pos, [], 0)
        elif kind == "lit":
            res = self._terminal(self.literal[e[1]], pos)
        elif kind == "ref":
            if e[1] in self.g.rules:
                res = [(e2, [t]) for e2, t in self._rule(e[1], pos)]
            else:
                res = self._terminal(e[1], pos)
        else:
            raise ValueError(kind)
        return self._uniq(res)

    @staticmethod
    def _uniq(res):
        seen, out = set(), []
        for e, k in res:
            if e not in seen:
                seen.add(e)
                out.append((e, k))
        return out

    def _terminal(self, ttype, pos):
        if pos < len(self.toks) and self.toks[pos][0] == ttype:
            return [(pos + 1, [self.toks[pos]])]
        return []


def expand_lexer_template(content: str) -> str:
    """What compile.py does to the Jinja2 template."""
    import jinja2

    tokens = collections.defaultdict(list)
    mode = "DEFAULT_MODE"
    for line in content.split("\n"):
        m = re.match(r"mode ([A-Z_]+)\;", line)
        if m:
            mode = m.group(1)
        m = re.match(r"([A-Z_]+) ?\:.*", line)
        if m:
            tokens[mode].append(m.group(1))
    template = jinja2.Environment(loader=jinja2.BaseLoader).from_string(content)
    return template.render(tokens=tokens)


def load(lexer_template: str, parser_text: str):
    lg = Grammar(expand_lexer_template(lexer_template))
    pg = Grammar(parser_text)
    return lg, Lexer(lg), Parser(pg, lg)
