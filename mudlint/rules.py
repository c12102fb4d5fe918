"""Obligations decided directly on the syntax tree."""
RULES = {}


def rule(*pids):
    def d(f):
        for p in pids:
            RULES.setdefault(p, []).append(f)
        return f

    return d


def run(pid, src, tier):
    out = []
    for f in RULES.get(pid, []):
        out += f(src, tier)
    return out


WHAT = {
    "name": "every name read is bound",
    "import": "every imported name exists",
    "call": "every call binds to the signature of its target",
    "attr": "every attribute read is one its object can have",
}


@rule("C35")
def binding(src, tier):
    from . import binding as B

    p = B.check(src)
    out = []
    for kind, text in WHAT.items():
        for m in sorted(p.mods):
            mine = [x for x in p.problems if x[0] == kind and x[1].name == m]
            out.append({
                "name": "%s in %s" % (kind, m), "status": "violated" if mine else "proved", "probes": p.counts.get((kind, m), 0), "functions": [],
                "problems": [{"what": what, "site": "%s:%d (%s)" % (mod.path, line, where), "rule": text, "key": "%s:%s:%s" % (kind, m, what.replace(" ", "_")), "once": True}
                             for k, mod, where, line, what in mine],
            })
    return out


OPTION = {
    "accepted": "a declared option or argument is a parameter of its function",
    "once": "an option is declared once",
    "given": "every parameter has a declaration that gives it",
    "used": "a declared value is used by the command or by what it calls",
    "kept": "a command reads what its group keeps",
    "attached": "every command can be reached from the entry point",
}


@rule("C36")
def options(src, tier):
    from . import options as O

    out = []
    for name, problems, n, key in O.check(src):
        out.append({
            "name": name, "status": "violated" if problems else "proved", "probes": n, "functions": [],
            "problems": [{"what": what, "site": site, "rule": OPTION[kind], "key": "%s:%s" % (kind, what.replace(" ", "_"))} for kind, what, site in problems],
        })
    return out
