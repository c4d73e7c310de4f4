// G22: contact cones, grasp wrench space, force closure and grasp quality; convex hulls.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <GraspPlanning/ContactConeGenerator.h>
#include <GraspPlanning/ConvexHullGenerator.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Grasping/BasicGraspQualityMeasure.h>
#include <VirtualRobot/Obstacle.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;
namespace MT = VirtualRobot::MathTools;
typedef MT::ContactPoint CP;

// ------------------------------------------------------------ polytopes by enumeration, in any dimension
template <int D> struct Poly
{
    typedef Eigen::Matrix<double, D, 1> P;
    typedef Eigen::Matrix<double, D, D> M;
    struct Facet
    {
        P n;
        double o;              // n.x + o <= 0 inside
        std::vector<int> on;   // points on it
    };
    std::vector<P, Eigen::aligned_allocator<P>> pts;
    std::vector<Facet, Eigen::aligned_allocator<Facet>> facets;
    int rank = 0;
    double outside = 0;        // distance of the origin from the hull (0: inside)
    double rOrigin = 0;        // rank D: smallest distance of the origin to the plane of a facet, negative when outside
    bool distinct = true;      // no two points closer than 1e-4
    bool simplicial = true;
    double volume = 0;         // only if simplicial
    std::vector<char> extreme; // strictly extreme

    void compute()
    {
        int n = (int)pts.size();
        for (int i = 0; i < n; i++)
            for (int k = 0; k < i; k++)
                if ((pts[i] - pts[k]).norm() < 1e-4) distinct = false;
        Eigen::MatrixXd A(D, std::max(1, n - 1));
        A.setZero();
        for (int i = 1; i < n; i++) A.col(i - 1) = pts[i] - pts[0];
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(A);
        for (int i = 0; i < svd.singularValues().size(); i++) rank += svd.singularValues()[i] > 1e-5;
        outside = distance(P::Zero());
        extreme.assign(n, 0);
        if (rank < D) return;
        std::set<std::vector<int>> seen;
        std::vector<int> s(D);
        enumerate(0, 0, s, seen);
        rOrigin = 1e300;
        for (auto& f : facets)
        {
            rOrigin = std::min(rOrigin, -f.o);
            if ((int)f.on.size() != D) simplicial = false;
        }
        // vertices: the normals of the facets a point lies on span the space
        for (int i = 0; i < n; i++)
        {
            Eigen::MatrixXd N(D, 0);
            for (auto& f : facets)
                if (std::find(f.on.begin(), f.on.end(), i) != f.on.end())
                {
                    N.conservativeResize(D, N.cols() + 1);
                    N.col(N.cols() - 1) = f.n;
                }
            if (N.cols() < D) continue;
            Eigen::JacobiSVD<Eigen::MatrixXd> sv(N);
            extreme[i] = sv.singularValues()[D - 1] > 1e-3;
        }
        if (simplicial)
        {
            P c = P::Zero();
            for (auto& p : pts) c += p / n;
            double fact = 1;
            for (int k = 2; k <= D; k++) fact *= k;
            for (auto& f : facets)
            {
                M m;
                for (int k = 0; k < D; k++) m.col(k) = pts[f.on[k]] - c;
                volume += std::fabs(m.determinant()) / fact;
            }
        }
    }
    // distance of the origin from the smallest affine space that holds all points
    double toSpan() const
    {
        int n = (int)pts.size();
        if (n < 2) return n ? pts[0].norm() : 1e300;
        Eigen::MatrixXd A(D, n - 1);
        for (int i = 1; i < n; i++) A.col(i - 1) = pts[i] - pts[0];
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeThinU);
        P x = pts[0];
        for (int i = 0; i < svd.singularValues().size(); i++)
            if (svd.singularValues()[i] > 1e-5)
            {
                P u = svd.matrixU().col(i);
                x -= u.dot(x) * u;
            }
        return x.norm();
    }
    // smallest distance of a point to the plane of a facet
    double toFacet(const P& c) const
    {
        double r = 1e300;
        for (auto& f : facets) r = std::min(r, -(f.n.dot(c) + f.o));
        return r;
    }
    // distance from the hull: least squares with nonnegative coefficients (Lawson-Hanson)
    double distance(const P& x) const
    {
        int n = (int)pts.size();
        double B = 1e4;
        Eigen::MatrixXd A(D + 1, n);
        Eigen::VectorXd b = Eigen::VectorXd::Zero(D + 1), l = Eigen::VectorXd::Zero(n);
        for (int i = 0; i < n; i++)
        {
            A.col(i).head(D) = pts[i] - x;
            A(D, i) = B;
        }
        b[D] = B;
        std::vector<char> in(n, 0);
        for (int it = 0; it < 200; it++)
        {
            Eigen::VectorXd w = A.transpose() * (b - A * l);
            int best = -1;
            for (int i = 0; i < n; i++)
                if (!in[i] && w[i] > 1e-9 * B && (best < 0 || w[i] > w[best])) best = i;
            if (best < 0) break;
            in[best] = 1;
            for (int it2 = 0; it2 < 200; it2++)
            {
                std::vector<int> id;
                for (int i = 0; i < n; i++)
                    if (in[i]) id.push_back(i);
                Eigen::MatrixXd S(D + 1, id.size());
                for (size_t k = 0; k < id.size(); k++) S.col(k) = A.col(id[k]);
                Eigen::VectorXd z = S.completeOrthogonalDecomposition().solve(b);
                double t = 1;
                for (size_t k = 0; k < id.size(); k++)
                    if (z[k] <= 1e-12) t = std::min(t, l[id[k]] - z[k] > 1e-300 ? l[id[k]] / (l[id[k]] - z[k]) : 0.0);
                bool done = true;
                for (size_t k = 0; k < id.size(); k++)
                    if (z[k] <= 1e-12) done = false;
                for (size_t k = 0; k < id.size(); k++) l[id[k]] += (done ? 1 : t) * (z[k] - l[id[k]]);
                if (done) break;
                for (int i : id)
                    if (l[i] <= 1e-12)
                    {
                        in[i] = 0;
                        l[i] = 0;
                    }
            }
        }
        P r = P::Zero();
        double s = 0;
        for (int i = 0; i < n; i++)
        {
            r += l[i] * (pts[i] - x);
            s += l[i];
        }
        return s > 0 ? r.norm() / s : 1e300;
    }

private:
    void enumerate(int k, int from, std::vector<int>& s, std::set<std::vector<int>>& seen)
    {
        if (k < D)
        {
            for (int i = from; i < (int)pts.size(); i++)
            {
                s[k] = i;
                enumerate(k + 1, i + 1, s, seen);
            }
            return;
        }
        // the subset must not be inside a known facet
        for (auto& f : facets)
            if (std::includes(f.on.begin(), f.on.end(), s.begin(), s.end())) return;
        // hyperplane through the points
        Eigen::Matrix<double, D, D - 1> E;
        for (int i = 1; i < D; i++) E.col(i - 1) = pts[s[i]] - pts[s[0]];
        Eigen::ColPivHouseholderQR<Eigen::Matrix<double, D, D - 1>> qr(E);
        if (std::fabs(qr.matrixR()(D - 2, D - 2)) < 1e-6) return;
        P n = qr.householderQ() * P::Unit(D - 1);
        double o = -n.dot(pts[s[0]]), lo = 0, hi = 0;
        for (auto& p : pts)
        {
            double d = n.dot(p) + o;
            lo = std::min(lo, d);
            hi = std::max(hi, d);
            if (lo < -2e-6 && hi > 2e-6) return;
        }
        if (hi > 2e-6)
        {
            n = -n;
            o = -o;
        }
        Facet f;
        f.n = n;
        f.o = o;
        for (int i = 0; i < (int)pts.size(); i++)
            if (std::fabs(n.dot(pts[i]) + o) < 4e-6) f.on.push_back(i);
        facets.push_back(f);
    }
};
typedef Poly<6> Poly6;
typedef Poly<3> Poly3;

// ------------------------------------------------------------ 1. contact cones
static void cones(mc::Run& r)
{
    static const std::vector<double> mus = {0.05, 0.25, 0.35, 1.0, 2.0};
    static const std::vector<double> units = {1.0, 2.5};
    static const std::vector<double> forces = {1.0, 0.5, 3.0};
    double mu = r.pick(mus, "friction"), unit = r.pick(units, "unit force");
    int samples = 1 + r.choose(r.thorough ? 16 : 9, "samples");
    GraspStudio::ContactConeGenerator g(samples, (float)mu, (float)unit);
    double a = std::atan(mu);
    r.check(std::fabs(g.getConeAngle() - a) < 1e-5, "cone angle value", "getConeAngle %g for friction %g, expected %g", g.getConeAngle(), mu, a);
    r.check(std::fabs(g.getConeRadius() - unit * std::sin(a)) < 1e-5, "cone radius value", "getConeRadius %g, expected %g", g.getConeRadius(), unit * std::sin(a));
    r.check(std::fabs(g.getConeHeight() - unit * std::cos(a)) < 1e-5, "cone height value", "getConeHeight %g, expected %g", g.getConeHeight(), unit * std::cos(a));
    int R = r.thorough ? 2 : 1;
    double force = r.pick(forces, "force");
    CP before;
    before.p = V3(7, 7, 7).cast<float>();
    before.n = V3(0, 1, 0).cast<float>();
    before.force = 1;
    mc::Hash h;
    for (int x = -R; x <= R; x++)
        for (int y = -R; y <= R; y++)
            for (int z = -R; z <= R; z++)
                for (double eps : {0.0, 1e-3})
                {
                    V3 n(x + eps, y, z);
                    if (V3(x, y, z).norm() < 0.5) continue;
                    n.normalize();
                    CP c;
                    c.p = V3(0.1, -0.2, 0.05).cast<float>();
                    c.n = n.cast<float>();
                    c.force = (float)force;
                    std::vector<CP> out(1, before);
                    std::vector<Eigen::Vector3f> out3(1, before.p);
                    g.computeConePoints(c, out);
                    g.computeConePoints(c, out3);
                    r.compared();
                    r.check((int)out.size() == samples + 1 && (int)out3.size() == samples + 1, "cone size", "%d and %d points appended instead of %d", (int)out.size() - 1, (int)out3.size() - 1, samples);
                    r.check(out[0].p == before.p && out[0].n == before.n && out3[0] == before.p, "cone appended", "points that were there before are gone");
                    V3 mean(0, 0, 0);
                    for (int i = 1; i <= samples; i++)
                    {
                        V3 d = out[i].n.cast<double>(), p = out[i].p.cast<double>();
                        mean += d / samples;
                        double ang = std::atan2(d.cross(n).norm(), d.dot(n));
                        r.check(std::fabs(d.norm() - 1) < 1e-4, "cone normal", "force direction of length %g", d.norm());
                        r.check(std::fabs(ang - a) < 2e-3, "cone angle", "normal (%g %g %g), friction %g: force direction %d of %d is at %g rad from the normal, the cone has %g", n.x(), n.y(), n.z(), mu, i, samples, ang, a);
                        V3 want = c.p.cast<double>() + unit * force * d;
                        r.check((p - want).norm() < 1e-3, "cone point", "cone point (%g %g %g), expected (%g %g %g)", p.x(), p.y(), p.z(), want.x(), want.y(), want.z());
                        r.check((out3[i].cast<double>() - p).norm() < 1e-5, "cone point variants", "both variants differ");
                        r.check(out[i].force == c.force, "cone force", "force %g instead of %g", out[i].force, c.force);
                        // evenly around the normal
                        V3 e = out[i == samples ? 1 : i + 1].n.cast<double>();
                        double chord = 2 * std::sin(a) * std::sin(M_PI / samples);
                        r.check(std::fabs((e - d).norm() - chord) < 3e-3, "cone even", "neighbours %d and %d of %d are %g apart, expected %g", i, i % samples + 1, samples, (e - d).norm(), chord);
                    }
                    if (samples > 1) r.check((mean - std::cos(a) * n).norm() < 3e-3, "cone around normal", "the directions are not distributed around the normal (%g %g %g): mean (%g %g %g)", n.x(), n.y(), n.z(), mean.x(), mean.y(), mean.z());
                }
    h.f(mu).f(unit).f(force).i(samples);
    r.state(h.h);
    r.outcome(strf("cones with %d directions", samples));
}

// ------------------------------------------------------------ 2. wrench space
struct Obj
{
    SceneObjectPtr o;
    V3 com;
    double length;
    std::vector<std::pair<V3, V3>> contacts; // position (mm, object system) and normal
    std::vector<std::pair<V3, V3>> faces;
};
static Pts tetra()
{
    Eigen::Vector3f a(10, 5, 0), b(70, 10, 5), c(20, 60, 0), d(30, 25, 55);
    return sx::vec<Eigen::Vector3f>({a, c, b, a, b, d, b, c, d, c, a, d});
}
static Pts wedge()
{
    // square pyramid
    Eigen::Vector3f a(-20, -30, 0), b(20, -30, 0), c(20, 30, 0), d(-20, 30, 0), t(5, 0, 35);
    return sx::vec<Eigen::Vector3f>({a, c, b, a, d, c, a, b, t, b, c, t, c, d, t, d, a, t});
}
static const Obj& object(int which)
{
    static std::map<int, Obj> cache;
    auto it = cache.find(which);
    if (it != cache.end()) return it->second;
    Pts p = which == 0 ? boxPts(40, 60, 100) : which == 1 ? tetra() : wedge();
    Obj o;
    auto v = visu(p);
    o.o.reset(new ManipulationObject("obj", v, colmodel(p, "obj_col")));
    V3 lo(1e9, 1e9, 1e9), hi = -lo;
    o.com = V3(0, 0, 0);
    for (auto& q : p)
    {
        V3 d = q.cast<double>();
        o.com += d / p.size();
        lo = lo.cwiseMin(d);
        hi = hi.cwiseMax(d);
    }
    o.length = (hi - lo).maxCoeff();
    for (size_t i = 0; i + 2 < p.size(); i += 3)
    {
        V3 a = p[i].cast<double>(), b = p[i + 1].cast<double>(), c = p[i + 2].cast<double>();
        o.faces.push_back({(a + b + c) / 3, V3((b - a).cross(c - a).normalized())});
    }
    if (which == 0)
        o.contacts = {{V3(20, 0, 0), V3(1, 0, 0)}, {V3(-20, 5, 10), V3(-1, 0, 0)}, {V3(3, 30, -10), V3(0, 1, 0)}, {V3(-7, -30, 12), V3(0, -1, 0)}, {V3(4, 9, 50), V3(0, 0, 1)}, {V3(0, 0, -50), V3(0, 0, -1)}, {V3(20, -20, 35), V3(1, 0, 0)}, {V3(20, 30, 50), V3(1, 1, 1)}};
    else
    {
        for (auto& f : o.faces) o.contacts.push_back(f);
        // further points on the faces
        for (size_t i = 0; i < 3; i++)
        {
            V3 a = p[3 * i].cast<double>();
            o.contacts.push_back({0.6 * o.faces[i].first + 0.4 * a, o.faces[i].second});
        }
    }
    return cache.emplace(which, o).first->second;
}
// the wrenches of a contact: forces of the friction cone and their torques about the centre, torques scaled by half of the object's length
// (contacts push against the surface: the sign of all of them is irrelevant for what is judged here)
static void wrenches(const Obj& o, const V3& pos, const V3& normal, double mu, int samples, Poly6& out)
{
    V3 n = normal.normalized(), r = (pos - o.com) / 1000.0;
    // as for the directions the choice of the first one is the generator's: it is the rotation that takes z to the normal the direct way
    Eigen::Quaterniond q = Eigen::Quaterniond::FromTwoVectors(V3(0, 0, 1), n);
    if (n.z() < -1 + 1e-9) q = Eigen::Quaterniond(0, 0, 1, 0);
    double a = std::atan(mu);
    for (int i = 0; i < samples; i++)
    {
        double t = 2 * M_PI * i / samples;
        V3 f = q * V3(std::sin(a) * std::cos(t), std::sin(a) * std::sin(t), std::cos(a));
        Poly6::P w;
        w.head<3>() = f;
        w.tail<3>() = -(2.0 / (o.length / 1000.0)) * r.cross(f);
        out.pts.push_back(w);
    }
}
struct Expect
{
    Poly6 poly;
};
static const Poly6& gws(int obj, std::vector<int> c, double mu, int samples)
{
    static std::map<std::string, std::shared_ptr<Poly6>> cache;
    std::sort(c.begin(), c.end());
    std::string k = strf("%d|%g|%d", obj, mu, samples);
    for (int i : c) k += strf(",%d", i);
    auto& e = cache[k];
    if (!e)
    {
        e.reset(new Poly6);
        const Obj& o = object(obj);
        for (int i : c)
        {
            const auto& ct = i >= 1000 ? o.faces[i - 1000] : o.contacts[i];
            wrenches(o, ct.first, ct.second, mu, samples, *e);
        }
        if (!e->pts.empty()) e->compute();
    }
    return *e;
}
static std::string ids(const std::vector<int>& c)
{
    std::string s = "{";
    for (int i : c) s += strf("%s%d", s.size() > 1 ? "," : "", i);
    return s + "}";
}
static Poly6::P vec(const CP& c)
{
    Poly6::P p;
    p << c.p.cast<double>(), c.n.cast<double>();
    return p;
}
template <class Q> static void setContacts(Q& q, const Obj& o, const std::vector<int>& c, bool infos)
{
    if (!infos)
    {
        std::vector<CP> v;
        for (int i : c)
        {
            CP p;
            p.p = o.contacts[i].first.cast<float>();
            p.n = (o.contacts[i].second * 1.7).cast<float>(); // normalised by the measure
            p.force = 5;
            v.push_back(p);
        }
        q.setContactPoints(v);
        return;
    }
    EndEffector::ContactInfoVector v;
    M4 g = mk(100, -50, 20, V3(0, 0, 1), 0.7);
    for (int i : c)
    {
        EndEffector::ContactInfo ci;
        V3 p = o.contacts[i].first, n = o.contacts[i].second.normalized(), fl = p + 2 * n;
        V3 pg = g.block<3, 3>(0, 0) * p + g.block<3, 1>(0, 3), fg = g.block<3, 3>(0, 0) * fl + g.block<3, 1>(0, 3);
        ci.distance = 2;
        ci.obstacle = o.o;
        ci.contactPointFingerLocal = fl.cast<float>();
        ci.contactPointObstacleLocal = p.cast<float>();
        ci.contactPointFingerGlobal = fg.cast<float>();
        ci.contactPointObstacleGlobal = pg.cast<float>();
        ci.approachDirectionGlobal = V3(g.block<3, 3>(0, 0) * -n).cast<float>();
        v.push_back(ci);
    }
    q.setContactPoints(v);
}
static double expectedQuality(const Poly6& p, const Poly6::P& center)
{
    return p.rank < 6 ? 0 : std::max(0.0, p.toFacet(center));
}
// what the measure says about its hull agrees with the enumeration
static void judgeHull(mc::Run& r, const std::string& what, const Poly6& p, MT::ConvexHull6DPtr hull, const CP& center)
{
    r.check(!!hull, "no hull", "%s: no hull", what.c_str());
    if (p.rank < 6) return;
    r.check(!hull->faces.empty(), "no facets", "%s: the hull has no facets although the wrenches span the space", what.c_str());
    // all reported facets support the wrenches, at the right distance
    for (auto& f : hull->faces)
    {
        Poly6::P n;
        n << f.normal.p.cast<double>(), f.normal.n.cast<double>();
        double m = -1e300;
        for (auto& w : p.pts) m = std::max(m, n.dot(w));
        r.check(std::fabs(n.norm() - 1) < 1e-4, "facet normal", "%s: facet normal of length %g", what.c_str(), n.norm());
        r.check(std::fabs(m + f.offset) < 1e-3, "facet position", "%s: a facet is at %g, the wrenches reach %g in its direction", what.c_str(), -f.offset, m);
        r.check(std::fabs(f.distPlaneZero - f.offset) < 1e-3, "facet distance", "%s: distance of the origin %g, expected %g", what.c_str(), f.distPlaneZero, f.offset);
    }
    // every real facet is there
    for (auto& g : p.facets)
    {
        double best = 1e300;
        for (auto& f : hull->faces)
        {
            Poly6::P n;
            n << f.normal.p.cast<double>(), f.normal.n.cast<double>();
            best = std::min(best, (n - g.n).norm());
        }
        r.check(best < 0.02, "facet missing", "%s: no facet with the normal of a facet of the hull (closest differs by %g)", what.c_str(), best);
    }
    if (p.distinct && std::count(p.extreme.begin(), p.extreme.end(), 1) == (long)p.pts.size())
    {
        Poly6::P c = Poly6::P::Zero();
        for (auto& w : p.pts) c += w / p.pts.size();
        r.check((vec(center) - c).norm() < 1e-3, "hull centre", "%s: centre off by %g", what.c_str(), (vec(center) - c).norm());
    }
    r.check(p.distance(vec(center)) < 1e-3, "hull centre outside", "%s: the centre is outside of the hull by %g", what.c_str(), p.distance(vec(center)));
    if (p.simplicial) r.check(std::fabs(hull->volume - p.volume) < 1e-3 * (p.volume + 1e-2), "hull volume", "%s: volume %g, expected %g", what.c_str(), hull->volume, p.volume);
}
struct Measures
{
    std::unique_ptr<GraspStudio::GraspQualityMeasureWrenchSpace> ws;
    std::unique_ptr<GraspStudio::GraspQualityMeasureWrenchSpaceNotNormalized> nn;
    std::unique_ptr<BasicGraspQualityMeasure> basic;
};
static void judge(mc::Run& r, Measures& m, int obj, const std::vector<int>& c, double mu, int samples, double owsMin, double owsVol, int order)
{
    const Poly6& p = gws(obj, c, mu, samples);
    std::string what = strf("object %d, contacts %s, friction %g, %d directions", obj, ids(c).c_str(), mu, samples);
    int verdict = c.empty() ? -1 : p.outside > 1e-3 ? -1 : p.rank == 6 && p.rOrigin > 1e-3 ? 1 : 0; // 0: on the border
    r.compared();
    const char* vs[] = {"outside of", "on the border of", "inside"};
    auto closure = [&](const char* n, bool b)
    {
        if (verdict < 0 && b && !c.empty() && p.rank < 6 && p.toSpan() < 1e-6)
        {
            // recorded in known_findings.txt: a flat hull has no facets around its rim
            r.soft("force closure, origin beside the hull but in the span of wrenches that do not span the space", "%s: %s reports force closure, the origin is %g outside of the hull", what.c_str(), n, p.outside);
            return;
        }
        if (verdict) r.check(b == (verdict > 0), "force closure", "%s: %s reports force closure = %d, the origin is %s the hull of the wrenches (distance %g)", what.c_str(), n, (int)b, vs[verdict + 1], verdict < 0 ? p.outside : p.rOrigin);
    };
    // every order of asking gives the same
    auto askClosure = [&]()
    {
        closure("the normalised measure", m.ws->isGraspForceClosure());
        closure("the normalised measure (isValid)", m.ws->isValid());
        closure("the plain measure", m.nn->isGraspForceClosure());
    };
    auto askQuality = [&]()
    {
        double q = m.ws->getGraspQuality(), qn = m.nn->getGraspQuality();
        // no set of wrenches that does not span the space resists anything: the quality vanishes
        double e = c.empty() || p.rank < 6 ? 0 : expectedQuality(p, vec(m.ws->getCenterGWS()));
        r.check(std::fabs(q - e / owsMin) < 2e-3 / owsMin, "quality", "%s: quality %g, expected %g / %g (rank %d)", what.c_str(), q, e, owsMin, p.rank);
        r.check(std::fabs(qn - e) < 2e-3, "quality not normalised", "%s: quality %g, expected %g (rank %d)", what.c_str(), qn, e, p.rank);
    };
    auto askVolume = [&]()
    {
        double v = m.ws->getVolumeGraspMeasure(), vn = m.nn->getVolumeGraspMeasure();
        r.check(std::fabs(v - vn / owsVol) < 1e-4 + 1e-3 * v, "volume measures", "%s: volume measure %g, not normalised %g, object %g", what.c_str(), v, vn, owsVol);
        if (c.empty() || p.rank < 6) r.check(std::fabs(vn) < 1e-4, "volume of flat hull", "%s: volume %g of a hull of rank %d", what.c_str(), vn, p.rank);
        else if (p.simplicial) r.check(std::fabs(vn - p.volume) < 1e-3 * (p.volume + 1e-2), "volume", "%s: volume %g, expected %g", what.c_str(), vn, p.volume);
    };
    static const int orders[4][3] = {{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {1, 2, 0}};
    for (int k : orders[order])
    {
        r.step("%s", k == 0 ? "force closure" : k == 1 ? "quality" : "volume");
        if (k == 0) askClosure();
        else if (k == 1) askQuality();
        else askVolume();
    }
    if (!c.empty())
    {
        judgeHull(r, what, p, m.ws->getConvexHullGWS(), m.ws->getCenterGWS());
        judgeHull(r, what + " (not normalised)", p, m.nn->getConvexHullGWS(), m.nn->getCenterGWS());
    }
    // the basic measure
    double b = m.basic->getGraspQuality(), be = std::min(1.0, c.size() / 5.0);
    r.check(std::fabs(b - be) < 1e-5, "basic quality", "%d contacts: quality %g", (int)c.size(), b);
    r.check(m.basic->isValid() == (c.size() >= 2), "basic valid", "%d contacts: valid %d", (int)c.size(), (int)m.basic->isValid());
    V3 mp(0, 0, 0), mn(0, 0, 0);
    const Obj& o = object(obj);
    for (int i : c)
    {
        mp += (o.contacts[i].first - o.com) / c.size();
        mn += o.contacts[i].second.normalized() / c.size();
    }
    CP ctr = m.basic->getContactPointsCenter();
    r.check((ctr.p.cast<double>() - mp).norm() < 1e-2 && (ctr.n.cast<double>() - mn).norm() < 1e-4, "contacts centre", "%s: centre of the contacts (%g %g %g), expected (%g %g %g)", what.c_str(), ctr.p.x(), ctr.p.y(), ctr.p.z(), mp.x(), mp.y(), mp.z());
    mc::Hash h;
    h.i(obj).i(samples).f(mu).i(verdict).f(p.rOrigin).f(p.volume).i(p.rank);
    std::vector<int> s = c;
    std::sort(s.begin(), s.end());
    for (int i : s) h.i(i);
    r.state(h.h);
    r.outcome(strf("%s%s", c.empty() ? "no contacts" : p.rank < 6 ? "flat, origin " : "origin ", c.empty() ? "" : vs[verdict + 1]));
}
static Measures measures(const Obj& o, double mu, int samples, double unit, double owsMin, double owsVol)
{
    Measures m;
    m.ws.reset(new GraspStudio::GraspQualityMeasureWrenchSpace(o.o, (float)unit, (float)mu, samples));
    m.nn.reset(new GraspStudio::GraspQualityMeasureWrenchSpaceNotNormalized(o.o, (float)unit, (float)mu, samples));
    m.basic.reset(new BasicGraspQualityMeasure(o.o));
    m.ws->preCalculatedOWS((float)owsMin, (float)owsVol);
    return m;
}
// all ordered selections of contacts
static void grasps(mc::Run& r)
{
    static const std::vector<double> mus = {0.35, 1.0};
    int obj = r.choose(3, "object");
    const Obj& o = object(obj);
    double mu = r.pick(mus, "friction");
    int n = 1 + r.choose(4, "number of contacts");
    int samples = n <= 3 ? (r.thorough ? 4 + r.choose(2, "directions") : 4) : (r.thorough ? 4 : 3);
    std::vector<int> c;
    bool sorted = true;
    for (int k = 0; k < n; k++)
    {
        int i = r.choose((int)o.contacts.size(), "contact");
        if (std::find(c.begin(), c.end(), i) != c.end()) r.prune();
        if (k && i < c.back()) sorted = false;
        c.push_back(i);
    }
    if (!r.thorough && n == 4 && !sorted && !(c[0] > c[1] && c[1] > c[2] && c[2] > c[3])) r.prune(); // both directions
    bool infos = r.flip("from an end effector's contacts");
    Measures m = measures(o, mu, samples, infos ? 2.0 : 1.0, 0.4, 0.05);
    setContacts(*m.ws, o, c, infos);
    setContacts(*m.nn, o, c, infos);
    setContacts(*m.basic, o, c, infos);
    judge(r, m, obj, c, mu, samples, 0.4, 0.05, (c[0] + n) % 4);
}
// histories: one measure, several grasps after each other, questions in all orders
static void histories(mc::Run& r)
{
    static const std::vector<std::vector<int>> sets = {{}, {0}, {0, 1}, {0, 2, 4}, {0, 1, 2, 3}, {3, 2, 1}};
    int obj = r.choose(2, "object");
    const Obj& o = object(obj);
    Measures m = measures(o, 1.0, 3, 1.0, 0.4, 0.05);
    int steps = r.thorough ? 4 : 3;
    bool infos = r.flip("from an end effector's contacts");
    for (int k = 0; k < steps; k++)
    {
        int i = r.choose((int)sets.size() + (k ? 1 : 0), "grasp");
        if (i == (int)sets.size()) break;
        if (k == 1) infos = !infos;
        r.step("setContactPoints %s", ids(sets[i]).c_str());
        setContacts(*m.ws, o, sets[i], infos);
        setContacts(*m.nn, o, sets[i], infos);
        setContacts(*m.basic, o, sets[i], infos);
        int ask = r.choose(5, "questions");
        if (ask < 4) judge(r, m, obj, sets[i], 1.0, 3, 0.4, 0.05, ask);
    }
}
// the object's own wrench space
static void objectWrenches(mc::Run& r)
{
    static const std::vector<double> mus = {0.2, 0.35, 1.0};
    int obj = 1 + r.choose(2, "object");
    double mu = r.pick(mus, "friction");
    int samples = 3 + r.choose(obj == 1 ? 2 : 1, "directions");
    const Obj& o = object(obj);
    srand(17 * r.choose(3, "random seed"));
    std::vector<int> all;
    for (size_t i = 0; i < o.faces.size(); i++) all.push_back(1000 + (int)i);
    const Poly6& p = gws(obj, all, mu, samples);
    GraspStudio::GraspQualityMeasureWrenchSpace q(o.o, 1.0f, (float)mu, samples);
    std::string what = strf("object %d, friction %g, %d directions", obj, mu, samples);
    q.calculateObjectProperties();
    r.check(q.OWSExists(), "no object wrench space", "%s: not calculated", what.c_str());
    judgeHull(r, what, p, q.getConvexHullOWS(), q.getCenterOWS());
    double e = expectedQuality(p, vec(q.getCenterOWS()));
    r.check(std::fabs(q.getOWSMinOffset() - e) < 1e-3, "object offset", "%s: offset %g, expected %g", what.c_str(), q.getOWSMinOffset(), e);
    r.check(std::fabs(q.getOWSVolume() - q.getConvexHullOWS()->volume) < 1e-6, "object volume", "%s: volume", what.c_str());
    r.compared();
    // grasping all over the object is as good as it gets: quality 1
    std::vector<CP> v;
    for (auto& f : o.faces)
    {
        CP c;
        c.p = f.first.cast<float>();
        c.n = f.second.cast<float>();
        c.force = 1;
        v.push_back(c);
    }
    int rev = r.choose(2, "reversed");
    if (rev) std::reverse(v.begin(), v.end());
    q.setContactPoints(v);
    double g = q.getGraspQuality(), vol = q.getVolumeGraspMeasure();
    r.check(std::fabs(g - 1) < 0.02, "perfect grasp", "%s: the grasp that touches every face has quality %g instead of 1", what.c_str(), g);
    r.check(std::fabs(vol - 1) < 0.02, "perfect grasp volume", "%s: the grasp that touches every face has volume %g instead of 1", what.c_str(), vol);
    mc::Hash h;
    h.i(obj).f(mu).i(samples).f(e);
    r.state(h.h);
    r.outcome("object wrench space");
}

// ------------------------------------------------------------ 3. convex hulls of points in space
static void hulls(mc::Run& r)
{
    static const auto grid = sx::vec<V3>({V3(0, 0, 0), V3(100, 0, 0), V3(0, 100, 0), V3(0, 0, 100), V3(100, 100, 0), V3(100, 0, 100), V3(100, 100, 100), V3(50, 50, 50), V3(50, 0, 0), V3(30, 30, 30), V3(-20, 40, 10)});
    int n = r.choose(r.thorough ? 8 : 7, "points");
    std::vector<int> id;
    for (int k = 0; k < n; k++)
    {
        int i = r.choose((int)grid.size(), "point");
        if (k && i <= id.back()) r.prune();
        id.push_back(i);
    }
    bool rev = r.flip("reversed");
    if (rev) std::reverse(id.begin(), id.end());
    std::vector<Eigen::Vector3f> in;
    Poly3 p;
    for (int i : id)
    {
        in.push_back(grid[i].cast<float>());
        p.pts.push_back(grid[i] / 100.0);
    }
    if (n) p.compute();
    std::string what = "points " + ids(id);
    auto hull = GraspStudio::ConvexHullGenerator::CreateConvexHull(in);
    r.compared();
    r.check(!!hull, "3d no hull", "%s: no hull", what.c_str());
    r.check((int)in.size() == n, "3d input changed", "%s: the input was changed", what.c_str());
    mc::Hash h;
    for (int i : id) h.i(i);
    r.state(h.h);
    if (p.rank < 3)
    {
        r.check(hull->faces.empty(), "3d flat", "%s: %d faces for points that span no volume", what.c_str(), (int)hull->faces.size());
        r.outcome("flat");
        return;
    }
    r.check(!hull->faces.empty(), "3d no faces", "%s: no faces", what.c_str());
    // volume of the enumerated hull: fan over every facet
    V3 c(0, 0, 0);
    for (auto& q : p.pts) c += q / n;
    double area = 0, vol = 0;
    for (auto& f : p.facets)
    {
        // order the corners around the centre of the facet
        V3 m(0, 0, 0);
        for (int i : f.on) m += p.pts[i] / f.on.size();
        V3 u = f.n.unitOrthogonal(), w = f.n.cross(u);
        std::vector<std::pair<double, int>> a;
        for (int i : f.on)
            if (p.extreme[i]) a.push_back({std::atan2((p.pts[i] - m).dot(w), (p.pts[i] - m).dot(u)), i});
        std::sort(a.begin(), a.end());
        double s = 0;
        for (size_t i = 1; i + 1 < a.size(); i++) s += V3((p.pts[a[i].second] - p.pts[a[0].second]).cross(p.pts[a[i + 1].second] - p.pts[a[0].second])).norm() / 2;
        area += s;
        vol += s * -(f.n.dot(c) + f.o) / 3;
    }
    double ra = 0, rv = 0;
    std::set<int> used;
    for (auto& f : hull->faces)
    {
        V3 t[3];
        unsigned fid[3] = {f.id1, f.id2, f.id3};
        for (int k = 0; k < 3; k++)
        {
            r.check(fid[k] < hull->vertices.size(), "3d vertex id", "%s: vertex id out of range", what.c_str());
            t[k] = hull->vertices[fid[k]].cast<double>() / 100.0;
            int w = -1;
            for (int i = 0; i < n; i++)
                if ((p.pts[i] - t[k]).norm() < 1e-5) w = i;
            r.check(w >= 0, "3d foreign vertex", "%s: a corner of the hull is none of the points", what.c_str());
            used.insert(w);
        }
        V3 nn = f.normal.cast<double>(), x = (t[1] - t[0]).cross(t[2] - t[0]);
        r.check(std::fabs(nn.norm() - 1) < 1e-4 && x.cross(nn).norm() < 1e-4, "3d normal", "%s: the normal of a face is not perpendicular to it", what.c_str());
        for (auto& q : p.pts) r.check(nn.dot(q - t[0]) < 1e-4, "3d not convex", "%s: a point is %g outside of a face", what.c_str(), nn.dot(q - t[0]));
        ra += x.norm() / 2;
        rv += x.norm() / 2 * nn.dot(t[0] - c) / 3;
    }
    r.check(std::fabs(ra - area) < 1e-3, "3d area", "%s: the faces have an area of %g, the hull of %g", what.c_str(), ra, area);
    r.check(std::fabs(rv - vol) < 1e-3 && std::fabs(hull->volume * 1e-6 - vol) < 1e-3, "3d volume", "%s: volume %g (faces %g), expected %g", what.c_str(), hull->volume * 1e-6, rv, vol);
    for (int i = 0; i < n; i++)
        if (p.extreme[i]) r.check(used.count(i), "3d corner missing", "%s: corner %d is not used", what.c_str(), i);
    V3 hc = hull->center.cast<double>() / 100.0;
    r.check(p.distance(hc) < 1e-4, "3d centre", "%s: the centre is outside", what.c_str());
    double far = 0;
    for (auto& f : p.facets) far = std::max(far, -(f.n.dot(hc) + f.o));
    r.check(std::fabs(hull->maxDistFacetCenter / 100.0 - far) < 1e-3, "3d facet distance", "%s: largest distance of a face from the centre %g, expected %g", what.c_str(), hull->maxDistFacetCenter / 100.0, far);
    r.outcome(strf("hull with %d corners", (int)std::count(p.extreme.begin(), p.extreme.end(), 1)));
}

int main(int argc, char** argv)
{
    mc::suite("cones", cones, 3);
    mc::suite("grasps", grasps, 4);
    mc::suite("histories", histories, 4);
    mc::suite("object", objectWrenches, 3);
    mc::suite("hulls", hulls, 3);
    return mc::main(argc, argv);
}
