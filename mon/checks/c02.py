"""The generated lexer and parser do what the shipped grammar files say."""
import functools

from .. import core, drive, g4, gen, refparse

PROPERTY = "C02"
RULE = (
    "Random sentences, token soup and character noise. For each text the recorded events are the token stream "
    "(type, text) and the parse tree (rule names, tokens) of the generated lexer/parser in the working tree; the "
    "oracle interprets the .g4/.jinja files of the same working tree. Non-trivial: two or more tokens."
)
ASSUMPTIONS = ["lowest viable alternative in full context, as ALL(*) specifies"]
FLOORS = {"trees": {"quick": 1500, "thorough": 20000}, "token_streams": {"quick": 3000, "thorough": 50000},
          "token_types": 20}
BATCH = 20


@functools.lru_cache(None)
def shipped():
    here = core.REPO / "pyudunits2" / "_grammar"
    return g4.load((here / "udunits2Lexer.g4.jinja").read_text(), (here / "udunits2Parser.g4").read_text())


CORNERS = ["m2.3", "m.2", "m-2", "m--2", "(K @ 1) T", "(K @ 1) m2.5", "(K@1) 2-3", "m2 3", "lb(re lb)", "lb re", "m+2",
           "s since 1990-1", "s@-19:1", "s since 20000101T12", "%'\"", "°C", "µΩπ", "1.e3.e4", "..", "1..2", "E5", "1E5E5",
           "m per s", "m PER s", "mper s", "per", "a**b", "a*b", "a^*b", "⁻¹", "m⁻¹²", "m²3", "\u00ad\u0080", "UTC", "s @ UTC",
           "s since 2000 UTC", "s since 2000-01-01 TZ", "s since 1 Z", "s ref 5", "sref 5", "s refs", "after", "m after 3", "lg(reK)",
           "log (RE:  m)", "ln( re m)", "lg (m)", "  m", "m  s", "m /s", "m/ s", "m  per  s", "·", "−", "m−1", "0x1", "1_000"]


def plan(ctx):
    return [("fixed", t) for t in CORNERS] + [("rand", i) for i in range(ctx.pick(10000, 200000))]


def make(ctx, item):
    kind, x = item
    if kind == "fixed":
        return x
    rng = ctx.rng(x)
    text = plain(rng)
    return gen.confuse(rng, text) if rng.random() < 0.06 else text


def plain(rng):
    k = rng.random()
    if k < 0.45:
        return gen.sentence(rng, rng.randint(2, 5))
    if k < 0.75:
        return gen.soup(rng, 1, 10)
    if k < 0.9:
        return gen.mutate(rng, gen.sentence(rng, 3))
    pool = "mskKTZ @^*/.-+:()0123459eE²⁻µ%'\"°Ω reglbnPERto\u00c0\u00d7\u00f7\u2126\u212b\u2103"
    return "".join(rng.choice(pool) for _ in range(rng.randint(1, 14)))


def real_tokens(text):
    from pyudunits2._grammar import CommonTokenStream, InputStream, udunits2Lexer

    lexer = udunits2Lexer(InputStream(text))
    lexer.removeErrorListeners()
    stream = CommonTokenStream(lexer)
    stream.fill()
    names = lexer.symbolicNames
    return [(names[t.type], t.text) for t in stream.tokens if t.type != -1]


def real_tree(text):
    from pyudunits2._grammar import CommonTokenStream, InputStream, SyntaxErrorRaiser, udunits2Lexer, udunits2Parser

    parser = udunits2Parser(CommonTokenStream(udunits2Lexer(InputStream(text))))
    parser.removeErrorListeners()
    parser.addErrorListener(SyntaxErrorRaiser(text))
    names = parser.symbolicNames

    def conv(node):
        if hasattr(node, "symbol"):
            t = node.symbol.type
            return ("EOF", "<EOF>") if t == -1 else (names[t], node.symbol.text)
        return (parser.ruleNames[node.getRuleIndex()], [conv(c) for c in (node.children or [])])

    return conv(parser.unit_spec())


def run_items(ctx, obs, items, shard):
    _, lexer, parser = shipped()
    seen = obs.__dict__.setdefault("types", set())
    for item in items:
        text = make(ctx, item)
        if len(text) > 90:
            continue
        want = [(t, s) for t, s, _ in lexer.tokens(text)]
        try:
            got = real_tokens(text)
        except Exception as exc:
            obs.violation(f"lexer failed on {text!r}: {exc!r}", text=text)
            continue
        obs.count("token_streams")
        for t, _ in want:
            if t not in seen:
                seen.add(t)
                obs.count("token_types")
        if got != want:
            obs.violation(f"tokens of {text!r}: generated lexer {got}, grammar file {want}", text=text)
            continue
        tree = parser.parse([(t, s) for t, s in want])
        real = drive.outcome(real_tree, text)
        if tree is None:
            obs.count("rejected")
            if real[0] == "ok":
                obs.violation(f"generated parser accepts {text!r}; the grammar file does not", text=text)
            elif real[1] != "SyntaxError":
                obs.violation(f"generated parser raised {real[1]} for {text!r}", text=text)
        else:
            obs.count("trees")
            if real[0] != "ok":
                obs.violation(f"generated parser refuses {text!r} ({real[2]}); the grammar file accepts it", text=text)
            elif real[1] != tree:
                obs.violation(f"tree of {text!r}: generated parser {real[1]}, grammar file {tree}", text=text)
        if len(want) > 1:
            obs.case(text, f"{text!r} -> {len(want)} tokens, {'tree' if tree else 'rejected'}")
