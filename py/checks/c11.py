from checks.cfspec import *

TITLE = "ECEF to geodetic conversion is the published closed-form inverse everywhere"
EXPLANATION = ("ecef2lla and ecef2ll are evaluated into closed forms in which both latitude branches and the hemisphere sign are "
               "gated values; each component is compared with Olson's (1996) closed-form inverse derived here from a and e^2 alone, "
               "on sample domains that straddle each branch, both hemispheres and all quadrants.")


def doms(a):
    def mk(latlo, lathi, lonlo, lonhi):
        def dom(t, rnd, ev):
            if t is a:
                g = rnd("p")
                return ell(g.uniform(latlo, lathi), g.uniform(lonlo, lonhi), g.uniform(-500, 10000))
            return None
        return dom
    return [(n, mk(*r)) for n, r in (
        ("low latitude, NE", (0, 50, 0, 180)), ("low latitude, SW", (-50, 0, -180, 0)), ("low latitude, NW", (0, 50, -180, 0)),
        ("low latitude, SE", (-50, 0, 0, 180)), ("high latitude north", (60, 89, -180, 180)), ("high latitude south", (-89, -60, -180, 180)),
        ("branch boundary north", (56.5, 57.2, -180, 180)), ("branch boundary south", (-57.2, -56.5, -180, 180)))]


def run(P, rep):
    rep.rule = "each result component == Olson's closed form with a=6378137, e^2=6.6943799901377997e-3, on every branch"
    for name, n in (("ecef2lla", 3), ("ecef2ll", 2)):
        for x in fns(P, name):
            a = x.args[0]
            w = fromecef(*comps(a, 3))
            for label, dom in doms(a):
                for i in range(n):
                    same_or_report(rep, el(x.ret, i, 0), el(w, i, 0), "%s is Olson's inverse (%s), component %d" % (name, label, i), x.where,
                                   "%s.%s[%d]" % (name, label, i), dom, 1e-11 if i < 2 else 1e-8)
    rep.assumption("series constants are accepted within 1e-12 relative; floating-point rounding is not modelled")
