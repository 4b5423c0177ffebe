import sys, cProfile, pstats; sys.path.insert(0, '/verif')
import sa.harness as h
c = dict(prop="P", file=sys.argv[1], func=sys.argv[2], kw=eval("dict(%s)" % (sys.argv[3] if len(sys.argv) > 3 else "")))
p = cProfile.Profile(); p.enable(); r = h.run_case(c); p.disable()
print(r["undecided"], r["bad"], r["congruent"], r["unrefuted"], r["seconds"])
pstats.Stats(p).sort_stats("cumtime").print_stats(45)
