"""Statement forms with one meaning are given one form before evaluation."""


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("l", "ld")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def refs(x, d):
    if isinstance(x, dict):
        if x.get("k") == "ref" and x.get("d") == d:
            return True
        return any(refs(v, d) for v in x.values())
    if isinstance(x, list):
        return any(refs(v, d) for v in x)
    return False


LOOPS = ("for", "while", "do", "rfor")


def continues(x):
    """A continue that belongs to the statement's own loop."""
    if isinstance(x, dict):
        if x.get("k") == "continue":
            return True
        if x.get("k") in LOOPS or x.get("k") == "lambda":
            return False
        return any(continues(v) for v in x.values())
    if isinstance(x, list):
        return any(continues(v) for v in x)
    return False


def variable(c):
    while isinstance(c, dict) and c.get("k") in ("paren", "cast", "fullexpr"):
        c = c.get("e")
    return c["d"] if isinstance(c, dict) and c.get("k") == "ref" and c.get("dk") == "var" else None


def assigned(s, d):
    """The expression a statement assigns to variable d."""
    if not isinstance(s, dict):
        return None
    if s.get("k") == "expr":
        s = s.get("e")
    if isinstance(s, dict) and s.get("k") == "asg" and s.get("op") == "=" and variable(s.get("a")) == d:
        return s.get("b")
    return None


def initialised(s, d):
    if isinstance(s, dict) and s.get("k") == "decl" and len(s.get("vars", ())) == 1 and s["vars"][0].get("d") == d and not s["vars"][0].get("static"):
        return s["vars"][0].get("init")
    return assigned(s, d)


def rotate(stmts):
    """v = E; while (v) { B; v = E; }  ->  while (E) { B }   (v used nowhere else)"""
    i = 0
    while i < len(stmts):
        w = stmts[i]
        if isinstance(w, dict) and w.get("k") == "for" and not w.get("var") and w.get("inc") and w.get("init"):
            d = variable(w.get("c"))
            E = d is not None and initialised(w["init"], d)
            if E and assigned(w["inc"], d) is not None and strip(assigned(w["inc"], d)) == strip(E) and not refs(w["body"], d) and not refs(stmts[i + 1:], d):
                stmts[i] = {"k": "while", "l": w.get("l"), "c": E, "body": w["body"]}
        if i and isinstance(w, dict) and w.get("k") == "while" and not w.get("var") and isinstance(w.get("body"), dict) and w["body"].get("k") == "compound" and w["body"].get("body"):
            d = variable(w.get("c"))
            if d is not None:
                body = w["body"]["body"]
                E, E2 = initialised(stmts[i - 1], d), assigned(body[-1], d)
                if E is not None and E2 is not None and strip(E) == strip(E2) and not refs(E, d) and not refs(body[:-1], d) and not refs(stmts[i + 1:], d) and not continues(body):
                    nb = dict(w["body"], body=body[:-1])
                    stmts[i - 1:i + 1] = [dict(w, c=E, body=nb)]
                    i -= 1
        i += 1


def normalise(x):
    if isinstance(x, dict):
        if x.get("k") == "compound":
            rotate(x["body"])
        for v in x.values():
            normalise(v)
    elif isinstance(x, list):
        for v in x:
            normalise(v)
