"""How much each check explores.  A round is one generation of sessions (spec/Gen.tla): n sessions,
nexh of them from the exhaustive part, random terms of the given depth."""


def rounds(n, nexh, depth, k=1):
    return [dict(n=n, nexh=nexh, depth=depth, seed=j) for j in range(k)]


def std(nq=1500, xq=700, nt=3000, kt=20, floor=200):
    thorough = rounds(nt, 100000, 3, 1)
    for j in range(kt):
        thorough.append(dict(n=nt, nexh=nt // 3 if j % 4 == 0 else 0, depth=3 + (j % 2), seed=100 + j))
    return dict(quick=rounds(nq, xq, 3, 1), thorough=thorough, floor=floor)


NQ = dict(C15=500, C01=1800, C09=3000, C11=3000, C12=3000, C13=3000, C16=3000, C17=3000, C18=1200, C19=5000, C07=1000)
PLAN = {p: std(nq=NQ.get(p, 2000), xq=NQ.get(p, 2000) // 2) for p in ["C%02d" % j for j in range(1, 20)]}
# the laws of the oracle itself (spec/FieldsLaws.tla), model checked in the thorough tier
for p, env in (("C01", {}), ("C07", {"LAWS": "terms"}), ("C08", {"LAWS": "terms"}), ("C09", {"LAWS": "terms"})):
    PLAN[p]["models_thorough"] = [dict(module="FieldsLaws", env=env)]
