"""A dictionary for the generators: the constants that occur in the code under test.

Nothing is concluded from them; they only make it likelier that inputs the code treats specially
are among those tried."""
import ast, importlib.util, os

MAXLEN = 60


def _collect():
    strings, ints = set(), set()
    root = importlib.util.find_spec("asyncapi3").submodule_search_locations[0]
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(d, f), encoding="utf-8") as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, ValueError):
                continue
            skip = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr):
                    skip.add(id(n.value))
                elif isinstance(n, ast.keyword) and n.arg in ("description", "title"):
                    skip.update(id(x) for x in ast.walk(n.value))
                elif isinstance(n, (ast.Assign, ast.AnnAssign)) and "__all__" in ast.dump(n)[:120]:
                    skip.update(id(x) for x in ast.walk(n))
                elif isinstance(n, (ast.Raise, ast.JoinedStr)):
                    skip.update(id(x) for x in ast.walk(n) if not isinstance(n, ast.JoinedStr) or isinstance(x, ast.FormattedValue))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in skip:
                    v = n.value
                    if isinstance(v, bytes):
                        v = v.decode("latin-1")
                    if isinstance(v, str) and 0 < len(v) <= MAXLEN and v.isascii() and v.isprintable():
                        strings.add(v)
                    elif isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**62:
                        ints.add(v)
    return sorted(strings), sorted(ints)


STRINGS, INTS = _collect()
KEYWORDS = sorted({w for s in STRINGS for w in {s, *s.replace("#", "/").split("/"), *s.split(".")} if w and all(c.isalnum() or c in "-_" for c in w)})
LENGTHS = sorted({n + d for n in INTS if 2 <= n <= 2000 for d in (-1, 0, 1)})


def vary(rng, s):
    """something close to a string"""
    return rng.choice([s.upper(), s.lower(), s.capitalize(), s.swapcase(), s + " ", " " + s, s + "\n", s[:-1], s[1:], s + "s", s + s, s.replace("-", "_"), s.replace("_", "-"), s.replace("-", ""), s.title(), s + "/", s + "."])


def string(rng):
    x = rng.random()
    if x < 0.55:
        return rng.choice(STRINGS)
    if x < 0.9:
        return vary(rng, rng.choice(STRINGS))
    return rng.choice("as0") * rng.choice(LENGTHS or [3])


def number(rng):
    return rng.choice(INTS or [0]) + rng.choice([-1, 0, 0, 1])
