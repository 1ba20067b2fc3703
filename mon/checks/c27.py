"""Reading unit databases."""
from xml.sax.saxutils import escape

from .. import drive, model, refparse, registry

PROPERTY = "C27"
RULE = (
    "Random database documents: prefixes, basis, dimensionless and defined units, plurals given, derived and ruled out, "
    "aliases, definitions that refer forwards, with and without namespaces, encodings, comments, processing instructions, "
    "attributes, character references, CDATA and white space; some not well-formed, some with duplicate names, some with content that is not part of the format. Recorded: "
    "outcome of loading (lenient and strict), and what every text then denotes. Oracle: an independent reader of the "
    "same document, exact definitions and a sequential dictionary model. Non-trivial: distinct document."
)
ASSUMPTIONS = ["documents of the structure the UDUNITS-2 files have"]
FLOORS = {"documents": {"quick": 200, "thorough": 3000}, "duplicates": {"quick": 10, "thorough": 200}, "lookups": {"quick": 15000, "thorough": 200000},
          "resolved": {"quick": 2500, "thorough": 40000}, "strict_refused": {"quick": 40, "thorough": 500}, "strict_loaded": {"quick": 40, "thorough": 500},
          "ill_formed": {"quick": 10, "thorough": 200}, "plurals": {"quick": 400, "thorough": 5000}, "time": 20, "dimensionless": 50}
BATCH = 2
WORDS = ["a", "x", "berry", "day", "box", "fish", "glass", "watch", "quartz", "gas", "y", "sky", "key", "toy", "s", "foo", "bar", "ka", "µz",
         "lux", "gravity", "Henry", "bus", "pitch", "ash", "ax", "soliloquy", "guy", "mm", "kk", "hertz", "inch", "century",
         "A", "X", "Ka", "KA", "Day", "BOX", "Foo", "henry", "S", "sea mile", "sea  mile", "a\tb"]
LETTERS = "abcdefghij"


def plan(ctx):
    return list(range(ctx.pick(800, 10000)))


def document(rng):
    """(text, kind of unknown content or None, codec)."""
    ns = rng.choice([None, None, "d", ""])
    bad = rng.choice([None, None, "unit", "name", "prefix", "aliases", "system", "text", "prefix text"])
    used_bad = [None]

    def tag(name):
        return f"{ns}:{name}" if ns else name

    def noise():
        k = rng.random()
        if k < 0.12:
            return "<!-- a comment: <name> kilo -->"
        if k < 0.16:
            return "<?target some data?>"
        return rng.choice(["", "", "\n   ", " ", "\t"])

    def el(name, *content, attrs=""):
        if not content:
            return noise() + f"<{tag(name)}{attrs}/>"
        return noise() + f"<{tag(name)}{attrs}>" + "".join(content) + noise() + f"</{tag(name)}>"

    def leaf(name, text):
        pad = rng.choice(["", "", " ", "\n    "])
        t = escape(text)
        if rng.random() < 0.03 and len(text) > 1:
            t = escape(text[:1]) + "<!-- x -->" + escape(text[1:])
        k = rng.random()
        if k < 0.02:
            t = "".join(f"&#{ord(c)};" if rng.random() < 0.5 else f"&#x{ord(c):X};" for c in text)
        elif k < 0.04:
            t = f"<![CDATA[{text}]]>"
        elif k < 0.05:
            t = escape(text[:1]) + f"<![CDATA[{text[1:]}]]>"
        attrs = rng.choice(["", "", ' comment="a name"'])
        return noise() + f"<{tag(name)}{attrs}>{pad}{t}{pad}</{tag(name)}>"

    def junk(where):
        if bad == where and used_bad[0] is None and rng.random() < 0.7:
            used_bad[0] = where
            return el("zork") if rng.random() < 0.5 else leaf("zork", "x")
        return ""

    fresh = [0]
    seen = set()
    prefixed: list = []  # what definitions are made of and other units may be called

    def word(dup=0.1):
        w = rng.choice(WORDS)
        if w in seen and rng.random() > dup:
            fresh[0] += 1
            w = w + "".join(LETTERS[int(c)] for c in str(fresh[0]))
        seen.add(w)
        return w

    def name(where="name", whole=False):
        w = word()
        if whole and prefixed and rng.random() < 0.3:
            w = prefixed.pop()
            seen.add(w)
        parts = [leaf("singular", w)]
        k = rng.random()
        if k < 0.2:
            parts.append(el("noplural"))
        elif k < 0.35:
            p = word()
            parts.append(leaf("plural", p))
        rng.shuffle(parts)
        if bad == "text" and used_bad[0] is None and rng.random() < 0.5:
            used_bad[0] = "text"
            parts.insert(0, "stray")
        return el("name", *parts, junk("name"))

    out = []
    for p, syms in rng.sample([("kilo", ["k"]), ("deka", ["da"]), ("deci", ["d"]), ("micro", ["µ", "u"]), ("tri", []), ("ki", ["ka", "kk"])], rng.randint(1, 5)):
        value = rng.choice(["1e3", "10", ".1", "1e-6", "3", "100", "2.5", "1E2"])
        parts = [leaf("name", p), leaf("value", value)] + [leaf("symbol", s) for s in syms]
        rng.shuffle(parts)
        if bad == "prefix text" and used_bad[0] is None:
            used_bad[0] = bad
            parts.insert(0, rng.choice(["stray", " 1e3\n", "k"]))
        out.append(el("prefix", *parts, junk("prefix")))
    bases = []
    for n in range(rng.randint(1, 3)):
        b = "second" if n == 0 and rng.random() < 0.4 else "b" + rng.choice(LETTERS) + LETTERS[n]
        if n and rng.random() < 0.2:
            b = rng.choice(["bsecond", "Second", "secondb", "arcsecond", "seconde"]) + LETTERS[n]
            b = b[:-1] if b[:-1] not in bases else b
        bases.append(b)
        kind = "dimensionless" if b != "second" and rng.random() < 0.25 else "base"
        parts = [el("name", leaf("singular", b), *([el("noplural")] if rng.random() < 0.3 else [])), el(kind)]
        if rng.random() < 0.5:
            parts.append(leaf("symbol", word()))
        rng.shuffle(parts)
        out.append(el("unit", *parts, junk("unit")))
    for n in range(rng.randint(2, 9)):
        tail = rng.choice(["", "", "-1", "2"])
        dep = rng.choice(bases + ["ba" + rng.choice(LETTERS)])
        whole = dep in bases and dep[-6:] != "second"
        if rng.random() < 0.3:
            whole = False
            dep = rng.choice(["kilo", "k", "da", "d"]) + dep
            prefixed.append(dep)
        d = f"{registry.PRIMES[rng.randrange(200)]} {dep}{tail}"
        k = rng.random()
        if k < 0.1 and "second" != dep[-6:]:
            d = f"{dep} @ 3.5"
        elif k < 0.2:
            d = f"{d}/{rng.choice(bases)}"
        parts = [leaf("def", d)]
        if rng.random() < 0.8:
            parts.append(name(whole=whole))
        parts += [leaf("symbol", word()) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        if rng.random() < 0.5:
            al = [name() for _ in range(rng.randint(0, 2))] + [leaf("symbol", word()) for _ in range(rng.randint(0, 2))]
            if rng.random() < 0.1:
                al.append(el("noplural"))
            rng.shuffle(al)
            if al:
                parts.append(el("aliases", *al, junk("aliases")))
        if rng.random() < 0.3:
            parts.append(leaf("definition", "what a human says: 5 zork"))
        if rng.random() < 0.2:
            parts.append(leaf("comment", "some words"))
        if len(parts) < 2:
            parts.append(leaf("symbol", word()))
        rng.shuffle(parts)
        out.append(el("unit", *parts, junk("unit")))
    if rng.random() < 0.5:
        rng.shuffle(out)
    if bad == "system" and rng.random() < 0.7:
        out.insert(rng.randrange(len(out) + 1), el("zork"))
        used_bad[0] = "system"
    attrs = {None: "", "d": ' xmlns:d="https://example.org/units"', "": ' xmlns="https://example.org/units"'}[ns]
    body = f"<{tag('unit-system')}{attrs}>" + "".join(out) + noise() + f"</{tag('unit-system')}>"
    if rng.random() < 0.4:
        body = f"<root><!-- c -->{body}</root>"
    head, codec = rng.choice([("<?xml version='1.0' encoding='UTF-8'?>\n", "utf8")] * 3 + [("<?xml version='1.0'?>", "utf8"), ("", "utf8"),
                              ("<?xml version='1.0' encoding='ISO-8859-1'?>", "latin1"), ("<?xml version='1.0' encoding='UTF-16'?>", "utf-16")])
    return head + body, used_bad[0], codec


def spoil(rng, text):
    """The document, not well-formed any more."""
    end = text.rindex("</")
    return rng.choice([
        lambda: text[:end],
        lambda: text[: rng.randint(text.index("unit-system") + 12, end)],
        lambda: text[:end] + "<unit>" + text[end:],
        lambda: text[:end] + "&nosuchentity;" + text[end:],
        lambda: text[:end] + "</unit>" + text[end:],
        lambda: text + "<more/>",
        lambda: text[:end] + "<a b='1' b='2'/>" + text[end:],
    ])()


def expected(path):
    """(model system, whether a duplicate must be refused)."""
    pnames, psymbols, entries = model.read_xml(path)
    M = registry.Model()
    for table, mine in ((M.pnames, pnames), (M.psymbols, psymbols)):
        table.update(mine)
    for e in entries:
        if not M.add(e, False):
            return M, entries, True
    return M, entries, False


def run_items(ctx, obs, items, shard):
    from pyudunits2 import _udunits2_xml_parser as x

    for i in items:
        rng = ctx.rng(i)
        text, bad, codec = document(rng)
        path = ctx.scratch / f"db-{shard}.xml"
        if rng.random() < 0.08:
            broken = spoil(rng, text)
            path.write_bytes(broken.encode(codec))
            obs.count("ill_formed")
            for reader in (x.UDUNITS2XMLParser, x.UnhandledContentDisallowed):
                r = drive.outcome(reader.parse_file, path)
                if r[0] == "ok":
                    obs.violation(f"{reader.__name__} loads a document that is not well-formed", document=broken)
            continue
        path.write_bytes(text.encode(codec))
        M, entries, dup = expected(path)
        obs.count("documents")
        obs.case(text, text[:400])
        r = drive.outcome(x.UDUNITS2XMLParser.parse_file, path)
        strict = drive.outcome(x.UnhandledContentDisallowed.parse_file, path)
        if dup:
            obs.count("duplicates")
            for how, q in (("", r), ("strict ", strict)):
                if q[0] == "ok" or q[1] != "ValueError":
                    obs.violation(f"a document with a duplicate name is {how}{q[:2]}", document=text)
            continue
        if r[0] != "ok":
            obs.violation(f"loading raised {r[1]}: {r[2]}", document=text)
            continue
        if bad:
            obs.count("strict_refused")
            if strict[0] == "ok" or strict[1] != "ValueError":
                obs.violation(f"strict loading of a document with unknown content ({bad}) gives {strict[:2]}", document=text)
            systems = [r[1]]
        else:
            obs.count("strict_loaded")
            if strict[0] != "ok":
                obs.violation(f"strict loading raised {strict[1]}: {strict[2]}", document=text)
                continue
            systems = [r[1], strict[1]]
        for S in systems[:: 1 if rng.random() < 0.3 else -1][:1 if len(systems) == 1 or rng.random() < 0.8 else 2]:
            if not compare(obs, rng, S, M, entries, text):
                break


def compare(obs, rng, S, M, entries, text):
    free = {e.basis for e in entries if e.definition is None and e.dimensionless}
    keys = sorted({k for t in M.tables for k in t})
    tried = keys + [p + k for p in sorted(set(M.pnames) | set(M.psymbols)) for k in keys]
    tried += [k + "s" for k in keys] + [k + "es" for k in keys] + [k[:-1] + "ies" for k in keys if k.endswith("y")]
    if len(tried) > 160:
        tried = keys + rng.sample(tried, 160)
    for key in tried:
        obs.count("lookups")
        try:
            want = M.lookup(key)
        except (model.Unknown, model.Undefined, refparse.Rejected) as exc:
            want = exc
        r = drive.outcome(S.unit_by_name_or_symbol, key)
        if isinstance(want, model.Undefined):
            continue
        if isinstance(want, Exception):
            if r[0] == "ok" or r[1] != "UnresolvableUnitException":
                obs.violation(f"{key!r} gives {r[:2]}, expected it to be unknown ({want!r})", document=text)
                return False
            continue
        if r[0] != "ok":
            obs.violation(f"{key!r} raises {r[1]}: {r[2]}, expected {want}", document=text)
            return False
        obs.count("resolved")
        u = r[1]
        m = model.evaluate(refparse.parse(u.expanded()),
                           lambda n: model.Lin(model.Fraction(1), () if n in free else ((n, 1),), angles=((n, 1),) if n in free else ()))
        if m != want or drive.dims_of(u) != want.dims:
            obs.violation(f"{key!r} denotes {m} {drive.dims_of(u)}, expected {want}", document=text)
            return False
        if u.is_time_unit() is not (want.dims == drive.SECOND) or u.is_dimensionless() is not (not want.dims):
            obs.violation(f"{key!r}: is_time_unit {u.is_time_unit()}, is_dimensionless {u.is_dimensionless()}, dimensions {want.dims}", document=text)
            return False
        if key not in M.tables[0] and key not in M.tables[1]:
            pass
        elif any(key in e.names[1:] or key in e.alias_names for e in entries):
            obs.count("plurals")
        if want.dims == drive.SECOND:
            obs.count("time")
        if not want.dims:
            obs.count("dimensionless")
    return True
