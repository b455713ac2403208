from checks.cfspec import *
from checks.cfspec import _FN

TITLE = "Two- and three-coordinate conversions agree"
EXPLANATION = ("Every instantiation of the 2-D conversions in cf.hpp is evaluated abstractly into a closed form over its "
               "arguments (helpers inlined, branches merged into gated values, Eigen expressions into matrix normal form); the "
               "closed form is compared with the 3-D counterpart specialised to zero altitude. Equal normal forms discharge "
               "an obligation; otherwise identity testing of the two formulas decides.")


def run(P, rep):
    rep.rule = "2-D result == first two components of the 3-D result at altitude 0, per instantiation and component"
    nedrot, lla2ecef, ecef2lla = [fn1(P, n) for n in ("nedrot", "lla2ecef", "ecef2lla")]
    ecef2ned, lla2ned, ned2ecef, ned2lla = [fn1(P, n) for n in ("ecef2ned", "lla2ned", "ned2ecef", "ned2lla")]
    ip = interp(P)

    def z(a):
        return colv(el(a, 0, 0), el(a, 1, 0), ZERO)

    def role(x, i, two):
        return two + "4" if dims(x.args[i])[0] == 4 else two

    def v(a, n):
        return colv(*comps(a, n))
    for x in fns(P, "nerot"):
        o = x.args[0]
        w = nedrot.call(z(o))
        for i in range(2):
            for j in range(3):
                same_or_report(rep, el(x.ret, i, j), el(w, i, j), "nerot(%d,%d) equals nedrot" % (i, j), x.where, "nerot[%d,%d]" % (i, j), domain({o: "ll"}), 1e-11)
    for x in fns(P, "ll2ecef"):
        o = x.args[0]
        compare(rep, x.ret, lla2ecef.call(z(o)), 3, "ll2ecef equals lla2ecef at altitude 0", x.where, "ll2ecef", domain({o: role(x, 0, "ll")}), 1e-11)
    for x in fns(P, "ecef2ll"):
        a = x.args[0]
        compare(rep, x.ret, ecef2lla.call(v(a, 3)), 2, "ecef2ll equals ecef2lla", x.where, "ecef2ll", domain({a: "ecef"}), 1e-12)
    for x in fns(P, "ecef2ne"):
        a, o = x.args
        compare(rep, x.ret, ecef2ned.call(v(a, 3), z(o)), 2, "ecef2ne equals ecef2ned", x.where, "ecef2ne", domain({a: "ecef", o: "ll"}), ip=ip)
    for x in fns(P, "ll2ne"):
        a, o = x.args
        compare(rep, x.ret, lla2ned.call(z(a), z(o)), 2, "ll2ne equals lla2ned", x.where, "ll2ne", domain({a: role(x, 0, "ll"), o: "ll"}), ip=ip)
    for x in fns(P, "ne2ecef"):
        a, o = x.args
        ll = fcall("ecef2lla", ned2ecef.call(z(a), z(o)))
        compare(rep, x.ret, fcall("lla2ecef", z(ll)), 3, "ne2ecef equals ned2ecef brought back to altitude 0",
                x.where, "ne2ecef", domain({a: role(x, 0, "ne"), o: "ll"}), ip=ip)
    ne2ll, ll2ne, ne2ecef = fn1(P, "ne2ll"), fn1(P, "ll2ne"), fn1(P, "ne2ecef")
    for x in fns(P, "ne2ll"):
        a, o = x.args
        e = fcall("ecef2lla", ne2ecef.call(v(a, 2), v(o, 2)))
        compare(rep, x.ret, e, 2, "ne2ll equals ecef2lla of ne2ecef", x.where, "ne2ll", domain({a: role(x, 0, "ne"), o: "ll"}), ip=ip)
    for name, ref, ro in (("ne2ll_i", ne2ll, "ne"), ("ll2ne_i", ll2ne, "ll")):
        for x in fns(P, name):
            a, o = x.args
            fin = x.v.read(x.v.args[0], note=False)
            n = 4 if dims(a)[0] == 4 else 2
            compare(rep, fin, ref.call(v(a, 2), v(o, 2)), 2, name + " replaces the position by the converted one",
                    x.where, name, domain({a: role(x, 0, ro), o: "ll"}), ip=ip)
            for i in range(2, n):
                same_or_report(rep, el(fin, i, 0), el(a, i, 0), name + " keeps component %d" % i, x.where, name + ".keep[%d]" % i)
    rep.count("functions", sum(len(v) for v in _FN.values()))
    rep.assumption("altitude argument of the 3-D counterpart is exactly zero")
    rep.assumption("floating-point rounding is not modelled: formulas are compared over the reals (constants within 1e-10)")
