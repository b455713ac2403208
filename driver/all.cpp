// The translation unit the analyses look at: both Python modules (the production
// instantiation of every template) plus the public class templates the modules leave
// uninstantiated. Nothing here is ever run.
#include "lmb/lmb.cpp"
#include "lmb/cf.cpp"

#ifndef VERIF_NO_EXTRA
namespace lmb {
template struct PF<4, 64>;
template struct ConnectedComponents<GaussianReport_<2>>;
}
namespace verif {
using PFTracker = lmb::SILMB<lmb::PF<4, 64>>;
using PFSensor = lmb::PositionSensor<PFTracker::Target>;
inline void use(PFTracker& t, PFSensor& s, PFSensor::Scan& scan, lmb::CV<PFTracker::Target>& m, std::ostream& os) {
    t.predict(m, 1.0, 0.0);
    os << t;
    lmb::GaussianReport_<2> z;
    PFTracker::Target::PDF p;
    p.correct(z, s);
    p.missed(s);
    std::vector<lmb::PF<4, 64>> ps;
    Eigen::Matrix<double, 1, Eigen::Dynamic> pw;
    PFTracker::Target::PDF::join(p, pw, ps);
}
inline void use(Tracker& t, std::ostream& os, lmb::AABBox& a, lmb::Cluster_<lmb::GaussianReport_<2>, Tracker::Target>& cl, std::vector<lmb::GaussianReport_<2>>& rs) {
    os << cl << rs;
    os << t;
    auto s = t.get_targets();
    os << s[0];
    s[0] = s[1];
    lmb::GM<4> g;
    g = g + g;
    g += g;
    g.overlap(a);
    g.pos();
    g.vel();
    g.poscov();
    g.velcov();
    g.intersects(a);
    Eigen::Array<double, 2, Eigen::Dynamic> pts;
    Eigen::Array<double, 1, Eigen::Dynamic> res;
    g.sampled_pos_pdf(pts, res);
    Eigen::Matrix<double, 4, Eigen::Dynamic> smp;
    g.sample(smp);
    lmb::Gaussian_<4> c;
    c.overlap(a);
    c.bbox();
    lmb::BBox b;
    g.overlap(b);
    b.intersects(a);
    cf::LL at;
    t.targettree.query(at);
}
using Index = RTree<int, double, 2>;
inline void use(Index& t, const double* a, const double* b, bool (*cb)(int, void*), RTFileStream& f) {
    t.Insert(a, b, 1);
    t.Remove(a, b, 1);
    t.Search(a, b, cb, nullptr);
    t.RemoveAll();
    t.Count();
    t.Load("x");
    t.Load(f);
    t.Save("x");
    t.Save(f);
    Index::Iterator it;
    for (t.GetFirst(it); !t.IsNull(it); t.GetNext(it)) {
        t.GetAt(it);
        *it;
        double p[2], q[2];
        it.GetBounds(p, q);
    }
    ++it;
}
inline void use(lap::Murty& m) {
    m.draw_tuple();
}
}  // namespace verif
#endif
