UW = ["--unwindset", "commas.0:28,h_commas.0:28,h_commas_groups.0:28,h_commas_edges.0:28,h_readable.0:66,parse.0:66"]
H("P03", "h_commas", "p03_text.c", "comma-separated rendering of every small time", "every time in [0, 99999]", 9, ["core/tag.c"], flags=UW, defs=["HI=99999"], cost=3)
for j in range(7):
    for f in (0, 7, 60, 999):
        H("P03", "h_commas_groups", "p03_text.c", "one symbolic group of three digits", "quick: group 0 takes all values 0..999 above six constant groups, the top group all of 1..9; thorough: every group position", 9, ["core/tag.c"], flags=UW, defs=["J=%d" % j, "FILL=%d" % f], tiers=("quick", "thorough") if (j, f) in ((0, 60), (6, 7), (6, 999)) else ("thorough",), cost=2, timeout=3000 if j in (1,2,3,4,5) else None)
H("P03", "h_commas_edges", "p03_text.c", "values around powers of ten up to 2^63-1", "a symbolic choice among 28 boundary values", 9, ["core/tag.c"], flags=UW)
CH = dict(WK="pick(0,1,15249)", DY="pick(0,1,6)", HR="pick(0,1,23)", MN="pick(0,10,59)", SE="pick(0,1,59)", SUB="pick(0,999999999,5000000)")
SUBS = ("pick(0,7000,1)",)
def readable(tiers, **c):
    H("P03", "h_readable", "p03_text.c", "human-readable rendering, symbolic in " + ", ".join(sorted(k for k in c if "pick" in str(c[k]))),
      "each symbolic unit takes zero, one or the largest count (sub-second part: three values), pairs of units at a time (thorough: all units at once), the others constant; weeks up to 15249", 9, ["core/tag.c"], flags=UW,
      defs=["%s=%s" % (u, c.get(u, 0)) for u in CH] + (["PLEN=%d" % c["PLEN"]] if "PLEN" in c else []), tiers=tiers, cost=2)
Q = ("quick", "thorough")
T = ("thorough",)
readable(Q, WK=CH["WK"], SUB=CH["SUB"], PLEN=32)
readable(Q, HR=CH["HR"], MN=CH["MN"], DY=2, PLEN=24)
readable(Q, SE=CH["SE"], SUB="pick(0,7000,1)", PLEN=24)
readable(Q, DY=CH["DY"], SUB="pick(0,5000001,1)", PLEN=24)
readable(T, WK=CH["WK"], DY=CH["DY"])
readable(T, SE=CH["SE"], SUB=CH["SUB"])
readable(T, SE=CH["SE"], MN=CH["MN"], WK=3, SUB=1)
readable(T, DY=CH["DY"], HR=CH["HR"], SE=5)
readable(T, SUB="pick(0,7000,1)", MN=CH["MN"])
for w in (0, 1, 15249): readable(("thorough",), **dict(CH, WK=w))
