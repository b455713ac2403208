from checks.cfspec import *

TITLE = "Geodetic to ECEF and local-tangent conversions are exact and mutually inverse"
EXPLANATION = ("The geodetic->ECEF and tangent-plane conversions of cf.hpp are evaluated into closed forms over their arguments "
               "and compared with the WGS-84 definition (prime-vertical radius, NED rotation), for every instantiation; the "
               "compositions ecef->ned->ecef and ned->ecef->ned are evaluated and compared with the identity, and the rotation "
               "with orthonormality. Normal-form equality or formula identity testing discharges each obligation.")


def run(P, rep):
    rep.rule = "extracted closed form == WGS-84 definition; f(g(x)) == x for each tangent-plane pair; R R^T == I"
    ip = interp(P)
    for x in fns(P, "lla2ecef"):
        a = x.args[0]
        compare(rep, x.ret, toecef(*comps(a, 3)), 3, "lla2ecef is the WGS-84 formula", x.where, "lla2ecef", domain({a: "lla"}), 1e-12)
    for x in fns(P, "ll2ecef"):
        a = x.args[0]
        compare(rep, x.ret, toecef(el(a, 0, 0), el(a, 1, 0), ZERO), 3, "ll2ecef is the WGS-84 formula", x.where, "ll2ecef", domain({a: "ll4" if dims(a)[0] == 4 else "ll"}), 1e-12)
    for n, ref, rows in (("nedrot", rot3, 3), ("nerot", rot2, 2)):
        for x in fns(P, n):
            a = x.args[0]
            w = ref(el(a, 0, 0), el(a, 1, 0))
            for i in range(rows):
                for j in range(3):
                    same_or_report(rep, el(x.ret, i, j), el(w, i, j), "%s(%d,%d) is the NED rotation" % (n, i, j), x.where,
                                   "%s[%d,%d]" % (n, i, j), domain({a: "ll"}), 1e-12)
                for j in range(rows):
                    d = add(*[mul(el(x.ret, i, k), el(x.ret, j, k)) for k in range(3)])
                    same_or_report(rep, d, ONE if i == j else ZERO, "%s rows %d,%d orthonormal" % (n, i, j), x.where,
                                   "%s.orth[%d,%d]" % (n, i, j), domain({a: "ll"}), 1e-12)

    def e(name, *a):
        return fn1(P, name).call(*a)
    for x in fns(P, "ecef2ned"):
        a, o = x.args
        r = rot3(el(o, 0, 0), el(o, 1, 0))
        d = madd(colv(*comps(a, 3)), mscale(num(-1), fcall("lla2ecef", colv(*comps(o, 3)))))
        w = mmul(r, d)
        dom = domain({a: "ecef", o: "lla"})
        compare(rep, x.ret, w, 3, "ecef2ned rotates the offset from the origin", x.where, "ecef2ned", dom, ip=ip)
        back = e("ned2ecef", x.ret, colv(*comps(o, 3)))
        compare(rep, back, colv(*comps(a, 3)), 3, "ned2ecef inverts ecef2ned", x.where, "ecef2ned.inv", dom, ip=ip)
    for x in fns(P, "ned2ecef"):
        a, o = x.args
        dom = domain({a: "ned", o: "lla"})
        back = e("ecef2ned", x.ret, colv(*comps(o, 3)))
        compare(rep, back, colv(*comps(a, 3)), 3, "ecef2ned inverts ned2ecef", x.where, "ned2ecef.inv", dom, ip=ip)
    for x in fns(P, "lla2ned"):
        a, o = x.args
        w = e("ecef2ned", fcall("lla2ecef", colv(*comps(a, 3))), colv(*comps(o, 3)))
        compare(rep, x.ret, w, 3, "lla2ned goes through ECEF", x.where, "lla2ned", domain({a: "lla", o: "lla"}), ip=ip)
    for x in fns(P, "ned2lla"):
        a, o = x.args
        w = fcall("ecef2lla", e("ned2ecef", colv(*comps(a, 3)), colv(*comps(o, 3))))
        compare(rep, x.ret, w, 3, "ned2lla goes through ECEF", x.where, "ned2lla", domain({a: "ned", o: "lla"}), ip=ip)
    rep.assumption("formulas are compared over the reals; floating-point rounding is not modelled")
