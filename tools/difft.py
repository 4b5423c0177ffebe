"""python3 tools/difft.py FILE FUNC "kw=..": where do computed and expected value graphs differ? (development aid)"""
import sys; sys.path.insert(0, '/verif')
import sa.harness as h, sa.terms as tm


SEEN = set()


def diff(x, y, path=""):
    if x is y or (x, y) in SEEN or len(SEEN) > 400:
        return
    SEEN.add((x, y))
    if x.op != y.op:
        print("  DIFF", path, "\n     ", tm.show(x, 6)[:700], "\n     ", tm.show(y, 6)[:700]); return
    a, b = list(tm.children(x)), list(tm.children(y))
    sa, sb = [c for c in a if c not in b], [c for c in b if c not in a]
    if len(a) == len(b) and x.op not in ("add", "and", "or", "poly", "mul"):
        for i, (p, q) in enumerate(zip(a, b)):
            diff(p, q, path + "/%s.%d" % (x.op, i))
        return
    if len(sa) == 1 and len(sb) == 1:
        return diff(sa[0], sb[0], path + "/" + x.op)
    if len(sa) == len(sb) and len(sa) <= 6:
        rest = list(sb)
        pairs = []
        for c in sa:
            best = max(rest, key=lambda d: (d.op == c.op, len(set(tm.children(d)) & set(tm.children(c)))))
            rest.remove(best)
            pairs.append((c, best))
        for c, d in pairs:
            diff(c, d, path + "/" + x.op)
        return
    print("  DIFF", path + "/" + x.op)
    for c in sa: print("     -", tm.show(c, 6)[:600])
    for c in sb: print("     +", tm.show(c, 6)[:600])


def dl(D, V, label, loc, gd, x, y, ws, dims=None):
    if x is not y:
        print("NONCONG", label)
        diff(x, y)
    V.congruent += 1


def dh(D, V, label, loc, c, g):
    if c is not tm.TRUE:
        print("HOLDS", label, loc, tm.show(c, 9)[:1500])
    V.congruent += 1


if __name__ == "__main__":
    h.decide_leaf = dl
    h.decide_holds = dh
    r = h.run_case(dict(prop="P", file=sys.argv[1], func=sys.argv[2], kw=eval("dict(%s)" % (sys.argv[3] if len(sys.argv) > 3 else ""))))
    print(r["undecided"], r["bad"], r["congruent"], r["seconds"])
