"""Guarded use of optionals: a dereference must be preceded, on every path, by a test that the value is there."""
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms

OPT = {"std::optional", "std::_Optional_base_impl"}


def deref_of(fn, n):
    """(object node, kind) when node n reads the value of an optional: '*', '->', 'value'."""
    cal = n.get("callee")
    if not cal or cal.get("rec") not in OPT: return None
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("*", "->"): return n["args"][0], n["op"]
    if n["k"] == "CXXMemberCallExpr" and cal["n"] == "value": return n.get("obj"), "value"
    return None


def present_facts(t, pol):
    """Access paths of optionals known to be engaged (True) or empty (False) when t has value pol."""
    out = []
    for a, p in conjuncts(t, pol):
        if a[0] == "call" and a[1] == "has_value": out.append((a[2], p))
        r = relation(a, p)
        if r and r[0] in ("==", "!="):
            for x, y in ((r[1], r[2]), (r[2], r[1])):
                if y[0] == "g" and y[1].endswith("nullopt") or y[0] == "ctor" and "nullopt" in y[1]: out.append((x, r[0] == "!="))
                elif y[0] == "c" and r[0] == "==" : out.append((x, True))
    return out
