"""Which configurations, how many workers and for how long, per property."""
def legs(q, *cs):
    return [dict(cfg=c, n=n, s=q) for c, n in cs]

GEN = "Histories of random operations on collections of random element types; operations are retried under enumerated allocation failures where the property is about failures."
A0 = ["the monitoring allocator stands for any allocator; requests above 256 MiB are refused as a small machine would"]
PLAN = {}

def prop(id, q, t, rule=GEN, assumptions=A0, level="exploration"):
    PLAN[f"C{id:02}"] = dict(quick=q, thorough=t, rule=rule, assumptions=assumptions, level=level)

# s: worker seconds of the quick and thorough tiers
Q, T = 20, 540
BOTH = [("ss", 2), ("sh", 2), ("u", 4)]
ALL = [("ss", 2), ("sh", 1), ("ssr", 1), ("u", 2), ("ur", 1), ("mu", 1)]
TREE = [("u", 4), ("ur", 2), ("ua", 1), ("mu", 1)]
NOHASH = [("ss", 2), ("ssr", 1), ("u", 3), ("ur", 1), ("mu", 1)]

for i in (1, 2, 16):
    prop(i, legs(Q, *BOTH), legs(T, *ALL))
prop(15, legs(Q, ("ss", 1), ("sh", 2), ("u", 3), ("ua", 2), ("mu", 1)), legs(T, ("ss", 1), ("sh", 1), ("u", 2), ("ur", 1), ("ua", 2), ("ms", 1), ("mu", 1)))
for i in (4, 7):
    prop(i, legs(Q, ("ss", 1), ("sh", 2), ("u", 4), ("mu", 1)), legs(T, ("ss", 1), ("sh", 1), ("u", 2), ("ur", 1), ("ua", 1), ("ms", 1), ("mu", 1)))
for i in (6, 18):
    prop(i, legs(Q, ("ss", 3), ("sh", 2), ("u", 3)), legs(T, ("ss", 2), ("sh", 2), ("ssr", 1), ("u", 2), ("ur", 1)))
prop(5, legs(Q, ("ss", 4), ("u", 4)), legs(T, *NOHASH))
for i in (17, 19, 21):
    prop(i, legs(Q, ("ss", 4), ("u", 4)), legs(T, *NOHASH))
for i in (10, 11, 12, 13, 14):
    prop(i, legs(Q, ("u", 8)), legs(T, *TREE))
prop(8, legs(Q, ("ss", 4), ("sh", 4)), legs(T, ("ss", 3), ("sh", 3), ("ssr", 1), ("mh", 1)))
prop(9, legs(Q, ("ss", 8)), legs(T, ("ss", 5), ("ssr", 2), ("ms", 1)))
prop(3, legs(30, ("ss", 1), ("u", 1), ("ur", 1), ("ua", 2), ("ms", 1), ("mu", 2)),
     legs(700, ("ss", 1), ("u", 1), ("ur", 1), ("ua", 1), ("sa", 1), ("ms", 1), ("mu", 2)))
prop(20, legs(Q, ("ss", 1), ("u", 2), ("st", 1), ("ut", 2), ("mu", 2)), legs(T, ("ss", 1), ("u", 1), ("st", 1), ("ut", 2), ("ms", 1), ("mu", 2)))

# configurations in which the lifetime probes (probes.py) run as well
PROBES = {"C03": ["ss", "u"]}
