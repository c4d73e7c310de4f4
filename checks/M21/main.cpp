// Geometric helpers against exact or double precision reference computations, over all small inputs.
#include "geom.h"
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/math/Bezier.h>
#include <VirtualRobot/math/FitPlane.h>
#include <VirtualRobot/math/Grid3D.h>
#include <VirtualRobot/math/GridCacheFloat3.h>
#include <VirtualRobot/math/Helpers.h>
#include <VirtualRobot/math/Histogram.h>
#include <VirtualRobot/math/ImplicitPlane.h>
#include <VirtualRobot/math/Index3.h>
#include <VirtualRobot/math/Line.h>
#include <VirtualRobot/math/LineStrip.h>
#include <VirtualRobot/math/LinearContinuedBezier.h>
#include <VirtualRobot/math/MarchingCubes.h>
#include <VirtualRobot/math/Plane.h>
#include <VirtualRobot/math/Primitive.h>
#include <VirtualRobot/math/Triangle.h>
#include <array>
#include <algorithm>
#include <set>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;
typedef Eigen::Vector3f F3;
typedef Eigen::Vector2f F2;
typedef std::pair<int, int> I2;

// ------------------------------------------------------------ convex hull in the plane
static long cross(I2 o, I2 a, I2 b)
{
    return (long)(a.first - o.first) * (b.second - o.second) - (long)(a.second - o.second) * (b.first - o.first);
}
// strictly convex corners, by definition: p is a corner unless it lies in the hull of the others
static std::vector<I2> corners(const std::vector<I2>& p)
{
    std::vector<I2> c;
    for (auto& q : p)
    {
        // q is a corner iff some line through q has all other points strictly on one side or ... : brute force with all pairs
        bool inside = false;
        for (auto& a : p)
            for (auto& b : p)
            {
                if (inside || a == q || b == q || a == b) continue;
                if (cross(a, b, q) == 0 && (q.first - a.first) * (q.first - b.first) <= 0 && (q.second - a.second) * (q.second - b.second) <= 0) inside = true;
                for (auto& d : p)
                {
                    if (inside || d == q || d == a || d == b) continue;
                    long x = cross(a, b, q), y = cross(b, d, q), z = cross(d, a, q);
                    if (cross(a, b, d) != 0 && ((x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0))) inside = true;
                }
            }
        if (!inside) c.push_back(q);
    }
    return c;
}
static void hull2d(mc::Run& r)
{
    int cols = r.thorough ? 5 : 4, rows = r.thorough ? 4 : 4;
    std::vector<I2> pts;
    int top = r.choose(1 << cols);   // first row
    int mask = top;
    for (int y = 1; y < rows; y++) mask |= r.choose(1 << cols) << (cols * y);
    for (int i = 0; i < cols * rows; i++)
        if (mask >> i & 1) pts.push_back({i % cols, i / cols});
    if (pts.size() < 3) r.prune();
    r.at("points %x", mask);
    std::vector<I2> want = corners(pts);
    bool flat = true;
    for (auto& p : pts)
        if (cross(pts[0], pts[1], p) != 0) flat = false;
    for (int variant = 0; variant < 4; variant++)
    {
        double sc = variant == 1 ? 0.125 : variant == 2 ? 256 : 1;
        double ox = variant == 2 ? -1024 : variant == 3 ? -1 : 0, oy = variant == 1 ? -0.25 : variant == 3 ? 512 : 0;
        std::vector<F2> in;
        for (auto& p : pts) in.push_back(F2((float)(p.first * sc + ox), (float)(p.second * sc + oy)));
        if (variant == 1) std::reverse(in.begin(), in.end());
        if (variant == 2)
            for (size_t i = 0; i < in.size(); i++) std::swap(in[i], in[(i * 7 + 3) % in.size()]);
        if (variant == 3) in.insert(in.begin(), in.back()), in.push_back(in[1]);   // repeated points
        std::string what = strf("%zu points (mask %x, variant %d)", in.size(), mask, variant);
        MathTools::ConvexHull2DPtr h = MathTools::createConvexHull2D(in);
        if (!h) r.fail("no hull", "%s", what.c_str());
        std::vector<I2> got;
        for (auto& v : h->vertices)
        {
            I2 g((int)std::lround((v[0] - ox) / sc), (int)std::lround((v[1] - oy) / sc));
            if (g.first * sc + ox != v[0] || g.second * sc + oy != v[1] || !std::count(pts.begin(), pts.end(), g)) r.fail("a corner of the hull is no input point", "%s: (%g %g)", what.c_str(), v[0], v[1]);
            got.push_back(g);
        }
        std::set<I2> a(got.begin(), got.end()), b(want.begin(), want.end());
        r.check(a == b, "the hull has the wrong corners", "%s: %zu corners, expected %zu", what.c_str(), a.size(), b.size());
        if (!flat) r.check(got.size() == want.size(), "the hull repeats a corner", "%s: %zu corners, expected %zu", what.c_str(), got.size(), want.size());
        r.check(h->segments.size() == h->vertices.size(), "the hull is not closed", "%s: %zu segments, %zu corners", what.c_str(), h->segments.size(), h->vertices.size());
        for (size_t i = 0; i < h->segments.size(); i++)
        {
            auto& s = h->segments[i];
            r.check(s.id1 >= 0 && s.id2 >= 0 && s.id1 < (int)got.size() && s.id2 < (int)got.size() && s.id2 == h->segments[(i + 1) % h->segments.size()].id1, "the hull is not a closed chain", "%s: segment %zu is %d-%d", what.c_str(), i, s.id1, s.id2);
            if (!flat)
                for (auto& p : pts) r.check(cross(got[s.id1], got[s.id2], p) >= 0, "an input point lies outside the hull", "%s: (%d %d) right of segment %zu", what.c_str(), p.first, p.second, i);
        }
        // membership of a grid of half steps
        for (int y = -1; y <= 2 * rows; y++)
            for (int x = -1; x <= 2 * cols; x++)
            {
                bool in2 = true;
                I2 q(x, y);
                if (flat)
                {
                    I2 lo = pts.front(), hi = pts.back();
                    lo.first *= 2, lo.second *= 2, hi.first *= 2, hi.second *= 2;
                    in2 = cross(lo, hi, q) == 0 && (x - lo.first) * (x - hi.first) <= 0 && (y - lo.second) * (y - hi.second) <= 0;
                }
                else
                    for (auto& s : h->segments)
                    {
                        I2 c = got[s.id1], d = got[s.id2];
                        if (cross(I2(2 * c.first, 2 * c.second), I2(2 * d.first, 2 * d.second), q) < 0) in2 = false;
                    }
                bool g = MathTools::isInside(F2((float)(x * 0.5 * sc + ox), (float)(y * 0.5 * sc + oy)), h);
                r.check(g == in2, "isInside is wrong", "%s: point (%g %g) in grid units is %s", what.c_str(), x * 0.5, y * 0.5, g ? "reported inside" : "reported outside");
            }
        F2 c = MathTools::getConvexHullCenter(h);
        int lx = 99, hx = -99, ly = 99, hy = -99;
        for (auto& p : pts) lx = std::min(lx, p.first), hx = std::max(hx, p.first), ly = std::min(ly, p.second), hy = std::max(hy, p.second);
        r.check(c[0] == (float)((lx + hx) * 0.5 * sc + ox) && c[1] == (float)((ly + hy) * 0.5 * sc + oy), "the centre of the hull is wrong", "%s: (%g %g)", what.c_str(), c[0], c[1]);
        r.compared();
    }
    mc::Hash hh;
    for (auto& c : want) hh.i(c.first - want[0].first).i(c.second - want[0].second);
    r.state(hh);
    r.outcome(flat ? "collinear" : strf("%zu corners", want.size()));
}

// ------------------------------------------------------------ planes, lines, segments
static std::vector<F3> grid(int n, float s)
{
    std::vector<F3> v;
    for (int x = -n; x <= n; x++)
        for (int y = -n; y <= n; y++)
            for (int z = -n; z <= n; z++) v.push_back(F3(x * s, y * s, z * s));
    return v;
}
static V3 D(const F3& a)
{
    return a.cast<double>();
}
static void planeSuite(mc::Run& r)
{
    static const std::vector<F3> nrm = [] {
        std::vector<F3> v;
        for (auto& g : grid(1, 1))
            if (g.norm() > 0) v.push_back(g);
        v.push_back(F3(1, 2, -3));
        v.push_back(F3(-0.2f, 0.05f, 0.97f));
        v.push_back(F3(1e-3f, 0, 1));
        v.push_back(F3(0, 1e-3f, -1));
        v.push_back(F3(1e-7f, 0, -1));
        return v;
    }();
    F3 n = r.pick(nrm);
    F3 p0 = r.pick(vec<F3>({F3(0, 0, 0), F3(0, 0, 250), F3(30, -40, 70), F3(-1000, 500, 20)}));
    r.at("plane through %s normal %s", showv(p0).c_str(), showv(n).c_str());
    MathTools::Plane pl(p0, n);
    V3 nd = D(n).normalized(), pd = D(p0);
    for (auto& q : grid(r.thorough ? 3 : 2, 35))
    {
        std::string in = strf("plane through %s normal %s, point %s", showv(p0).c_str(), showv(n).c_str(), showv(q).c_str());
        double d = nd.dot(D(q) - pd);
        float g = MathTools::getDistancePointPlane(q, pl);
        r.check(std::fabs(g - d) < 2e-3, "getDistancePointPlane is wrong", "%s: %.7g, expected %.7g", in.c_str(), g, d);
        if (std::fabs(d) > 1e-3) r.check(MathTools::onNormalPointingSide(q, pl) == (d > 0), "onNormalPointingSide is wrong", "%s", in.c_str());
        F3 pr = MathTools::projectPointToPlane(q, pl);
        V3 foot = D(q) - d * nd;
        r.check((D(pr) - foot).norm() < 4e-3, "projectPointToPlane is wrong", "%s: %s, expected %s", in.c_str(), showv(pr).c_str(), showv(foot).c_str());
        F2 loc = MathTools::projectPointToPlane2D(q, pl);
        F3 back = MathTools::planePoint3D(loc, pl);
        r.check((D(back) - foot).norm() < 2e-2, "projectPointToPlane2D and back is another point", "%s: %s becomes %s", in.c_str(), showv(foot).c_str(), showv(back).c_str());
        double len = (foot - pd).norm();
        r.check(std::fabs(loc.norm() - len) < 2e-2, "local coordinates on a plane do not preserve distances", "%s: %.6g from the origin of the plane, expected %.6g", in.c_str(), loc.norm(), len);
        math::ImplicitPlane ip = math::ImplicitPlane::FromPositionNormal(p0, n), ipn = ip.Normalize();
        F3 cl = ip.GetClosestPoint(q);
        r.check((D(cl) - foot).norm() < 1e-2, "ImplicitPlane::GetClosestPoint is wrong", "%s: %s, expected %s", in.c_str(), showv(cl).c_str(), showv(foot).c_str());
        r.check(std::fabs(ipn.GetSignedDistance(q) - d) < 4e-3, "ImplicitPlane::GetSignedDistance is wrong", "%s: %.7g, expected %.7g", in.c_str(), ipn.GetSignedDistance(q), d);
        r.check(std::fabs(ipn.Get(q) - d) < 4e-3, "ImplicitPlane::Get is wrong", "%s: %.7g, expected %.7g", in.c_str(), ipn.Get(q), d);
        r.check(std::fabs(ipn.Flipped().GetSignedDistance(q) + d) < 4e-3, "ImplicitPlane::Flipped is wrong", "%s", in.c_str());
        math::Plane mp = math::Plane::FromNormal(p0, n);
        float u, v, w;
        mp.GetUVW(q, u, v, w);
        V3 re = D(mp.Pos()) + u * D(mp.Dir1()) + v * D(mp.Dir2()) + w * D(mp.GetNormal());
        r.check((re - D(q)).norm() < 2e-2 && std::fabs(std::fabs(w) - std::fabs(d)) < 4e-3, "Plane::GetUVW does not describe the point", "%s: %s", in.c_str(), showv(re).c_str());
        mp.GetUV(q, u, v);
        r.check((D(mp.GetPoint(u, v)) - foot).norm() < 2e-2, "Plane::GetUV does not describe the projection", "%s", in.c_str());
        r.compared(6);
    }
    mc::Hash h;
    for (int i = 0; i < 3; i++) h.f(n[i]).f(p0[i]);
    r.state(h);
    r.outcome("plane");
}
static void planePair(mc::Run& r)
{
    static const std::vector<F3> nrm = [] {
        std::vector<F3> v;
        for (auto& g : grid(1, 1))
            if (g.norm() > 0) v.push_back(g);
        v.push_back(F3(2, 2, 2));
        v.push_back(F3(-3, -3, -3));
        v.push_back(F3(1, 2, -3));
        v.push_back(F3(-0.3f, -0.6f, 0.9f));
        v.push_back(F3(0.1f, 0, 1));
        v.push_back(F3(0.2f, 0.3f, 0.7f));
        v.push_back(F3(-0.6f, -0.9f, -2.1f));
        return v;
    }();
    static const std::vector<F3> pos = {vec<F3>({F3(0, 0, 0), F3(10, -20, 30), F3(0, 0, 400)})};
    F3 n1 = r.pick(nrm), n2 = r.pick(nrm), p1 = r.pick(pos), p2 = r.pick(pos);
    std::string in = strf("plane through %s normal %s and plane through %s normal %s", showv(p1).c_str(), showv(n1).c_str(), showv(p2).c_str(), showv(n2).c_str());
    r.at("%s", in.c_str());
    MathTools::Plane a(p1, n1), b(p2, n2);
    MathTools::Line l = MathTools::intersectPlanes(a, b);
    V3 u = D(n1).normalized(), v = D(n2).normalized();
    double s = u.cross(v).norm();
    r.outcome(s < 1e-5 ? "parallel" : "crossing");
    if (s < 1e-5)
        r.check(!l.isValid(), "parallel planes intersect", "%s: line through %s in direction %s", in.c_str(), showv(l.p).c_str(), showv(l.d).c_str());
    else
    {
        r.check(l.isValid(), "crossing planes do not intersect", "%s", in.c_str());
        r.check(std::fabs(l.d.norm() - 1) < 1e-4, "the direction of an intersection line is not of unit length", "%s: %g", in.c_str(), l.d.norm());
        for (double t : {0., 100., -300.})
        {
            V3 q = D(l.p) + t * D(l.d);
            r.check(std::fabs(u.dot(q - D(p1))) < 0.05 && std::fabs(v.dot(q - D(p2))) < 0.05, "the intersection line leaves the planes", "%s: %.5g and %.5g away at %g", in.c_str(), u.dot(q - D(p1)), v.dot(q - D(p2)), t);
        }
        math::Plane mp = math::Plane::FromNormal(p2, n2);
        math::Line ml = math::ImplicitPlane::FromPositionNormal(p1, F3(n1.normalized())).Intersect(mp);
        for (double t : {0., 100., -300.})
        {
            V3 q = D(ml.Get((float)t));
            r.check(std::fabs(u.dot(q - D(p1))) < 0.2 && std::fabs(v.dot(q - D(p2))) < 0.2, "ImplicitPlane::Intersect leaves the planes", "%s: %.5g and %.5g away at %g", in.c_str(), u.dot(q - D(p1)), v.dot(q - D(p2)), t);
        }
        r.check(ml.Dir().norm() > 1e-3, "ImplicitPlane::Intersect has no direction", "%s", in.c_str());
    }
    r.compared();
    mc::Hash h;
    for (int i = 0; i < 3; i++) h.f(u[i]).f(v[i]).f(p1[i]).f(p2[i]);
    r.state(h);
}
static V3 nearSeg(V3 a, V3 b, V3 p)
{
    double t = (p - a).dot(b - a) / (b - a).squaredNorm();
    t = std::max(0., std::min(1., t));
    return V3(a + t * (b - a));
}
static void segmentSuite(mc::Run& r)
{
    static const std::vector<F3> g = grid(r.thorough ? 2 : 1, 40);
    F3 a = r.pick(g), b = r.pick(g);
    if (a == b) r.prune();
    r.at("segment %s to %s", showv(a).c_str(), showv(b).c_str());
    for (auto& q0 : grid(2, 30))
    {
        F3 q = q0 + F3(1, 2, 3);
        std::string in = strf("segment %s to %s, point %s", showv(a).c_str(), showv(b).c_str(), showv(q).c_str());
        V3 s = nearSeg(D(a), D(b), D(q)), dir = (D(b) - D(a)).normalized(), ln = D(a) + dir * dir.dot(D(q) - D(a));
        F3 ns = MathTools::nearestPointOnSegment<F3>(a, b, q);
        r.check((D(ns) - s).norm() < 1e-3, "nearestPointOnSegment is wrong", "%s: %s, expected %s", in.c_str(), showv(ns).c_str(), showv(s).c_str());
        r.check(std::fabs(MathTools::distPointSegment<F3>(a, b, q) - (D(q) - s).norm()) < 1e-3, "distPointSegment is wrong", "%s", in.c_str());
        MathTools::Line l(a, F3(b - a));
        r.check((D(MathTools::nearestPointOnLine<F3>(l, q)) - ln).norm() < 1e-3 && std::fabs(MathTools::distPointLine<F3>(l, q) - (D(q) - ln).norm()) < 1e-3, "nearestPointOnLine is wrong", "%s", in.c_str());
        math::Line ml = math::Line::FromPoints(a, b);
        r.check((D(ml.GetClosestPoint(q)) - ln).norm() < 1e-3, "Line::GetClosestPoint is wrong", "%s: %s", in.c_str(), showv(ml.GetClosestPoint(q)).c_str());
        r.check((D(ml.GetDistanceToPoint(q)) - (D(q) - ln)).norm() < 1e-3, "Line::GetDistanceToPoint is wrong", "%s: %s", in.c_str(), showv(ml.GetDistanceToPoint(q)).c_str());
        r.check((D(ml.Get(ml.GetT(q))) - ln).norm() < 1e-3 && (D(ml.Normalized().Get(ml.Normalized().GetT(q))) - ln).norm() < 1e-3, "Line::GetT is wrong", "%s", in.c_str());
        Eigen::Vector2f a2 = a.head<2>(), b2 = b.head<2>(), q2 = q.head<2>();
        if (a2 != b2)
        {
            V3 s2 = nearSeg(V3(a[0], a[1], 0), V3(b[0], b[1], 0), V3(q[0], q[1], 0));
            r.check(std::fabs(MathTools::distPointSegment<Eigen::Vector2f>(a2, b2, q2) - (V3(q[0], q[1], 0) - s2).norm()) < 1e-3, "distPointSegment in the plane is wrong", "%s", in.c_str());
        }
    }
    // with planes
    for (auto& nn : grid(1, 1))
    {
        if (nn.norm() == 0) continue;
        for (float off : {0.f, 10.f, -37.f, 55.f})
        {
            V3 nd = D(nn).normalized();
            F3 pp = (nd * off).cast<float>();
            MathTools::Plane pl(pp, nn);
            double da = nd.dot(D(a) - D(pp)), db = nd.dot(D(b) - D(pp));
            F3 res(7e7f, 7e7f, 7e7f);
            auto ir = MathTools::intersectSegmentPlane(MathTools::Segment(a, b), pl, res);
            std::string in = strf("segment %s to %s and plane normal %s at %g", showv(a).c_str(), showv(b).c_str(), showv(nn).c_str(), off);
            bool touch = std::fabs(da) < 1e-3 || std::fabs(db) < 1e-3;
            if (!touch) r.check((ir == MathTools::eIntersection) == (da * db < 0), "intersectSegmentPlane is wrong", "%s: ends at %.5g and %.5g, reported %d", in.c_str(), da, db, (int)ir);
            if (ir == MathTools::eIntersection)
            {
                r.check(std::fabs(nd.dot(D(res) - D(pp))) < 1e-2 && (nearSeg(D(a), D(b), D(res)) - D(res)).norm() < 1e-2, "the intersection of segment and plane lies on neither", "%s: %s", in.c_str(), showv(res).c_str());
            }
        }
    }
    r.compared(6);
    mc::Hash h;
    for (int i = 0; i < 3; i++) h.f(a[i]).f(b[i]);
    r.state(h);
    r.outcome("segment");
}

// ------------------------------------------------------------ oriented boxes
static void boxSuite(mc::Run& r)
{
    static const std::vector<M4> poses = {vec<M4>({M4(M4::Identity()), tr(10, 20, -30), rot(V3(0, 0, 1), PI / 2), mk(5, 0, -80, V3(1, 1, 1), 1.1), mk(-40, 10, 0, V3(1, 0, 0), PI / 4), mk(300, 200, 100, V3(0.2, -0.5, 1), 2.5)})};
    M4 p = r.pick(poses), q = r.pick(poses);
    F3 lo = r.pick(vec<F3>({F3(-10, -20, -30), F3(0, 0, 0), F3(5, -60, 2)})), hi = r.pick(vec<F3>({F3(10, 20, 30), F3(40, 1, 90)}));
    if (!((hi - lo).minCoeff() > 0)) r.prune();
    MathTools::OOBB b(lo, hi, f(p));
    std::string in = strf("box %s to %s at %s", showv(lo).c_str(), showv(hi).c_str(), show(p).c_str());
    r.at("%s", in.c_str());
    auto pts = b.getOOBBPoints();
    r.check(pts.size() == 8, "an oriented box has not 8 corners", "%s: %zu", in.c_str(), pts.size());
    std::set<int> seen;
    M4 pi = inv(p);
    for (auto& c : pts)
    {
        V3 l = (pi * V4(c[0], c[1], c[2], 1)).head<3>();
        int id = 0;
        for (int k = 0; k < 3; k++)
        {
            if (std::fabs(l[k] - hi[k]) < 1e-3) id |= 1 << k;
            else r.check(std::fabs(l[k] - lo[k]) < 1e-3, "a corner of an oriented box is wrong", "%s: %s", in.c_str(), showv(c).c_str());
        }
        seen.insert(id);
    }
    r.check(seen.size() == 8, "corners of an oriented box are missing", "%s: %zu distinct", in.c_str(), seen.size());
    auto segs = b.getSegments();
    std::set<std::pair<int, int>> es;
    auto idOf = [&](const F3& c) {
        V3 l = (pi * V4(c[0], c[1], c[2], 1)).head<3>();
        int id = 0;
        for (int k = 0; k < 3; k++)
            if (std::fabs(l[k] - hi[k]) < 1e-3) id |= 1 << k;
        return id;
    };
    for (auto& s : segs)
    {
        int i = idOf(s.p0), j = idOf(s.p1), x = i ^ j;
        r.check(x == 1 || x == 2 || x == 4, "an edge of an oriented box is wrong", "%s: %s to %s", in.c_str(), showv(s.p0).c_str(), showv(s.p1).c_str());
        es.insert({std::min(i, j), std::max(i, j)});
    }
    r.check(segs.size() == 12 && es.size() == 12, "edges of an oriented box are missing", "%s: %zu, %zu distinct", in.c_str(), segs.size(), es.size());
    // the smallest box in another frame
    MathTools::OOBB c = b;
    c.changeCoordSystem(f(q));
    V3 mn(1e30, 1e30, 1e30), mx = -mn;
    for (auto& e : pts)
    {
        V3 l = (inv(q) * V4(e[0], e[1], e[2], 1)).head<3>();
        mn = mn.cwiseMin(l);
        mx = mx.cwiseMax(l);
    }
    r.check((D(c.minBB) - mn).norm() < 5e-3 && (D(c.maxBB) - mx).norm() < 5e-3 && dev(q, c.pose) <= 1, "changing the frame of a box gives a wrong box", "%s to %s: %s to %s, expected %s to %s", in.c_str(), show(q).c_str(), showv(c.minBB).c_str(), showv(c.maxBB).c_str(), showv(mn).c_str(), showv(mx).c_str());
    // cut with planes
    for (auto& nn : grid(1, 1))
    {
        if (nn.norm() == 0) continue;
        V3 nd = D(nn).normalized();
        double a = 1e30, z = -1e30;
        std::vector<double> cs;
        for (auto& e : pts) cs.push_back(nd.dot(D(e))), a = std::min(a, cs.back()), z = std::max(z, cs.back());
        for (double t : {-0.2, 0.013, 0.21, 0.47, 0.83, 0.991, 1.1})
        {
            double off = a + t * (z - a);
            bool nearCorner = false;
            for (double x : cs)
                if (std::fabs(x - off) < 1e-2) nearCorner = true;
            if (nearCorner) continue;
            F3 pp = (nd * off).cast<float>();
            std::vector<F3> got;
            auto ir = MathTools::intersectOOBBPlane(b, MathTools::Plane(pp, nn), got);
            bool want = t > 0 && t < 1;
            r.check((ir == MathTools::eIntersection) == want, "intersectOOBBPlane is wrong", "%s: plane normal %s at %g of the extent: %d", in.c_str(), showv(nn).c_str(), t, (int)ir);
            if (!want) continue;
            std::vector<V3> ex;
            for (auto& s : segs)
            {
                double u = nd.dot(D(s.p0)) - off, v = nd.dot(D(s.p1)) - off;
                if (u * v < 0) ex.push_back(V3(D(s.p0) + u / (u - v) * (D(s.p1) - D(s.p0))));
            }
            r.check(ex.size() == got.size(), "intersectOOBBPlane has a wrong number of corners", "%s: plane normal %s at %g: %zu, expected %zu", in.c_str(), showv(nn).c_str(), t, got.size(), ex.size());
            for (auto& e : ex)
            {
                double best = 1e30;
                for (auto& g : got) best = std::min(best, (D(g) - e).norm());
                r.check(best < 2e-2, "intersectOOBBPlane misses a corner", "%s: plane normal %s at %g: %s is %g away", in.c_str(), showv(nn).c_str(), t, showv(e).c_str(), best);
            }
            r.compared();
        }
    }
    mc::Hash h;
    h.f(c.minBB[0]).f(c.minBB[1]).f(c.maxBB[2]).f(p(0, 3));
    r.state(h);
    r.outcome("box");
}

// ------------------------------------------------------------ triangles and rays
static void triangleSuite(mc::Run& r)
{
    static const std::vector<F3> g = grid(1, 30);
    F3 a = r.pick(g), b = r.pick(g);
    int ci = r.choose(27);
    F3 c = g[ci] + (r.thorough && r.flip() ? F3(3, 1, -2) : F3(0, 0, 0));
    r.at("triangle %s %s %s", showv(a).c_str(), showv(b).c_str(), showv(c).c_str());
    std::string in = strf("triangle %s %s %s", showv(a).c_str(), showv(b).c_str(), showv(c).c_str());
    V3 n = (D(b) - D(a)).cross(D(c) - D(a));
    double area = n.norm() / 2;
    for (double s : {1., 0.7, 13.37})
    {
        F3 sa = a * (float)s, sb = b * (float)s, sc = c * (float)s;
        double want = (D(sb) - D(sa)).cross(D(sc) - D(sa)).norm() / 2;
        float ga = MathTools::getTriangleArea(sa, sb, sc);
        // single precision: half of the product of the two sides, times the error of the sine
        double tol = 1e-3 * want + 5e-4 * (D(sb) - D(sa)).norm() * (D(sc) - D(sa)).norm() + 1e-6;
        r.check(std::fabs(ga - want) <= tol, "getTriangleArea is wrong", "%s scaled by %g: %.7g, expected %.7g", in.c_str(), s, ga, want);
    }
    math::Triangle t(a, b, c);
    if (a != b && b != c && a != c) r.check(MathTools::collinear(a, b, c) == (area < 1e-3), "collinear is wrong", "%s", in.c_str());
    r.check((D(t.Normal()) - n).norm() < 1e-2 && (D(t.Flipped().Normal()) + n).norm() < 1e-2, "Triangle::Normal is wrong", "%s", in.c_str());
    r.check((D(t.Centroid()) - (D(a) + D(b) + D(c)) / 3).norm() < 1e-3, "Triangle::Centroid is wrong", "%s", in.c_str());
    int want = 1;
    for (int depth = 0; depth < 4; depth++)
    {
        auto sub = t.Subdivide(depth);
        double sum = 0;
        for (auto& x : sub)
        {
            sum += D(x.Normal()).norm() / 2;
            if (area > 1) r.check(D(x.Normal()).normalized().dot(n.normalized()) > 0.999, "Triangle::Subdivide turns a triangle", "%s depth %d", in.c_str(), depth);
        }
        r.check((int)sub.size() == want && std::fabs(sum - area) < 1e-2 * (1 + area), "Triangle::Subdivide does not cover the triangle", "%s depth %d: %zu parts of area %g, expected %d of %g", in.c_str(), depth, sub.size(), sum, want, area);
        want *= 3;
    }
    if (area > 1)
    {
        F3 fn = MathTools::findNormal(vec<F3>({a, b, c}));
        r.check(std::fabs(std::fabs(D(fn).dot(n.normalized())) - 1) < 1e-4, "findNormal is wrong", "%s: %s", in.c_str(), showv(fn).c_str());
        // rays: through a grid of barycentric targets and beyond, from both sides, and parallel ones
        for (int i = -1; i <= 5; i++)
            for (int k = -1; k <= 5; k++)
            {
                double u = i * 0.25 - 0.03, v = k * 0.25 + 0.02;
                V3 hit = D(a) + u * (D(b) - D(a)) + v * (D(c) - D(a));
                bool inside = u > 0 && v > 0 && u + v < 1;
                if (std::fabs(u) < 1e-3 || std::fabs(v) < 1e-3 || std::fabs(u + v - 1) < 1e-3) continue;
                for (int side = 0; side < 3; side++)
                {
                    V3 dir = (side == 0 ? n : side == 1 ? V3(-n) : V3(n + (D(b) - D(a)) * n.norm() / (D(b) - D(a)).norm())).normalized();
                    for (double len : {50., -50.})
                        for (double sc : {1., 4.})
                        {
                            V3 from = hit - dir * len;
                            float out = -77;
                            bool got = math::Line(from.cast<float>(), (dir * sc).cast<float>()).IntersectsTriangle(t, out);
                            bool should = inside && len > 0;
                            r.check(got == should, "Line::IntersectsTriangle is wrong", "%s: ray from %s towards (%g,%g) of it: %d", in.c_str(), showv(from).c_str(), u, v, got);
                            if (got) r.check(std::fabs(out - len / sc) < 1e-2, "Line::IntersectsTriangle reports a wrong distance", "%s: %g, expected %g", in.c_str(), out, len / sc);
                        }
                }
                for (auto& e : vec<V3>({V3(D(b) - D(a)), V3(D(c) - D(a)), V3(D(c) - D(b)), V3(D(a) - D(c))}))
                    for (double h : {25., -25.})
                    {
                        // a ray parallel to the triangle, at a distance
                        V3 dir = e.normalized(), from = hit + n.normalized() * h;
                        float out = -77;
                        F3 fd = e.cast<float>();
                        // exactly representable cases only: parallel within single precision otherwise decides nothing
                        F3 ff = from.cast<float>();
                        double par = std::fabs(D(fd).dot(n));
                        bool got = math::Line(ff, fd).IntersectsTriangle(t, out);
                        double tt = par > 0 ? std::fabs(h) * n.norm() / par : 1e30;
                        r.check(!got || (std::isfinite(out) && tt < 1e6), "a ray parallel to a triangle hits it", "%s: ray from %s direction %s reported at %g", in.c_str(), showv(from).c_str(), showv(dir).c_str(), out);
                    }
            }
        math::PrimitivePtr prim(new math::Primitive());
        prim->AddTriangle(a, b, c);
        V3 up = n.normalized();
        prim->AddTriangle((D(a) + up * 20).cast<float>(), (D(b) + up * 20).cast<float>(), (D(c) + up * 20).cast<float>());
        V3 cen = (D(a) + D(b) + D(c)) / 3;
        for (double h : {60., 10., -10., -60.})
            for (int s : {1, -1})
            {
                math::Line l((cen + up * h).cast<float>(), (up * s).cast<float>());
                float out = -77;
                bool got = l.IntersectsPrimitive(prim, out);
                double first = 1e30;
                for (double z : {0., 20.})
                    if ((z - h) * s > 0) first = std::min(first, (z - h) * s);
                r.check(got == (first < 1e29) && (!got || std::fabs(out - first) < 1e-2), "Line::IntersectsPrimitive does not report the first hit", "%s: from %g in direction %d: %d at %g, expected %g", in.c_str(), h, s, got, out, first);
            }
        // plane fit
        std::vector<F3> ps = vec<F3>({a, b, c, F3((a + b) / 2), F3((a + c) * 0.5f)});
        math::Plane fp = math::FitPlane::Fit(ps);
        r.check(std::fabs(std::fabs(D(fp.GetNormal()).normalized().dot(up)) - 1) < 1e-3, "FitPlane is wrong", "%s", in.c_str());
        for (auto& p : ps) r.check(std::fabs(D(fp.GetNormal()).normalized().dot(D(p) - D(fp.Pos()))) < 2e-2, "FitPlane misses its points", "%s", in.c_str());
    }
    r.compared(5);
    mc::Hash h;
    h.f(area).f(n[0]).f(n[1]).f(a[0]).f(a[1]).f(a[2]);
    r.state(h);
    r.outcome(area < 1e-3 ? "degenerate" : "triangle");
}

// ------------------------------------------------------------ bases and matrices
static void basisSuite(mc::Run& r)
{
    static const std::vector<F3> g = [] {
        std::vector<F3> v = grid(1, 1);
        v.push_back(F3(2, 0, 0));
        v.push_back(F3(0, -3, 0));
        v.push_back(F3(0.5f, 0.25f, 4));
        return v;
    }();
    F3 x = r.pick(g), y = r.pick(g), z = r.pick(g);
    if (x.norm() == 0 && y.norm() == 0 && z.norm() == 0) r.prune();
    std::string in = showv(x) + showv(y) + showv(z);
    r.at("basis %s", in.c_str());
    Eigen::Matrix3d m;
    m << D(x), D(y), D(z);
    bool full = std::fabs(m.determinant()) > 1e-6;
    F3 a = x, b = y, c = z;
    bool ok = MathTools::ensureOrthonormalBasis(a, b, c);
    r.check(ok, "no orthonormal basis found", "%s", in.c_str());
    Eigen::Matrix3d o;
    o << D(a), D(b), D(c);
    double e = (o.transpose() * o - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff();
    r.check(e < (full ? 1e-3 : 2e-2), "ensureOrthonormalBasis gives no orthonormal basis", "%s becomes %s%s%s", in.c_str(), showv(a).c_str(), showv(b).c_str(), showv(c).c_str());
    if (full)
    {
        // Gram-Schmidt keeps the first direction and the successively spanned spaces
        r.check((D(a) - D(x).normalized()).norm() < 1e-3, "the first direction of the basis is not kept", "%s becomes %s", in.c_str(), showv(a).c_str());
        V3 n = D(x).cross(D(y)).normalized();
        r.check(std::fabs(n.dot(D(b))) < 1e-3, "the plane of the first two directions is not kept", "%s", in.c_str());
        r.check(D(b).dot(D(y)) > 0 && D(c).dot(D(z)) > 0, "a direction of the basis is turned round", "%s becomes %s%s%s", in.c_str(), showv(a).c_str(), showv(b).c_str(), showv(c).c_str());
        std::vector<Eigen::VectorXf> src, dst;
        for (auto& v : {x, y, z}) src.push_back(v);
        for (auto& v : {F3(1, 1, 0), F3(0, 2, 1), F3(1, 0, 1)}) dst.push_back(v);
        Eigen::MatrixXf T = MathTools::getBasisTransformation(src, dst);
        Eigen::Matrix3d dm;
        dm << V3(1, 1, 0), V3(0, 2, 1), V3(1, 0, 1);
        r.check((dm * T.cast<double>() - m).cwiseAbs().maxCoeff() < 1e-4, "getBasisTransformation is wrong", "%s", in.c_str());
    }
    std::vector<Eigen::VectorXf> in2;
    for (auto& v : {x, y}) in2.push_back(v.head<2>());
    if (std::fabs(x[0] * y[1] - x[1] * y[0]) > 1e-6)
    {
        r.check(MathTools::GramSchmidt(in2) && in2.size() == 2 && std::fabs(in2[0].norm() - 1) < 1e-4 && std::fabs(in2[1].norm() - 1) < 1e-4 && std::fabs(in2[0].dot(in2[1])) < 1e-4, "GramSchmidt in the plane is wrong", "%s%s", showv(x).c_str(), showv(y).c_str());
    }
    std::vector<Eigen::VectorXf> in4;
    for (auto& v : {x, y, z})
    {
        Eigen::VectorXf q(4);
        q << v, v[0] + 1;
        in4.push_back(q);
    }
    {
        Eigen::VectorXf q(4);
        q << 1, 2, 3, -5;
        in4.push_back(q);
        Eigen::MatrixXd w(4, 4);
        for (int i = 0; i < 4; i++) w.col(i) = in4[i].cast<double>();
        if (std::fabs(w.determinant()) > 1e-3)
        {
            r.check(MathTools::GramSchmidt(in4) && in4.size() == 4, "GramSchmidt in four dimensions fails", "%s", in.c_str());
            for (int i = 0; i < 4; i++)
                for (int k = 0; k < 4; k++) r.check(std::fabs(in4[i].dot(in4[k]) - (i == k)) < 1e-3, "GramSchmidt in four dimensions is not orthonormal", "%s: %d %d: %g", in.c_str(), i, k, in4[i].dot(in4[k]));
        }
    }
    for (unsigned i = 0; i < 8; i++)
    {
        Eigen::VectorXf pm = MathTools::getPermutation(Eigen::VectorXf(x), Eigen::VectorXf(y), i);
        for (int k = 0; k < 3; k++) r.check(pm[k] == (i >> k & 1 ? x[k] : y[k]), "getPermutation is wrong", "%s %u", in.c_str(), i);
    }
    r.compared(4);
    mc::Hash h;
    h.f(m.determinant()).f(a[0]).f(a[1]).f(b[0]);
    r.state(h);
    r.outcome(full ? "independent" : "dependent");
}
static void pinvSuite(mc::Run& r)
{
    static const int shapes[6][2] = {{1, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};
    auto& s = shapes[r.choose(6)];
    int n = s[0] * s[1];
    static const std::vector<double> vals = {0, 1, -1, 2, 0.5};
    Eigen::MatrixXd A(s[0], s[1]);
    int lim = r.thorough ? 5 : n > 4 ? 4 : 5;
    for (int i = 0; i < n; i++) A(i) = vals[r.choose(lim)];
    r.at("matrix of %d x %d", s[0], s[1]);
    auto show2 = [&] {
        std::string t;
        for (int i = 0; i < n; i++) t += strf("%g ", A(i));
        return t;
    };
    for (int d = 0; d < 2; d++)
    {
        Eigen::MatrixXd P = d ? MathTools::getPseudoInverseD(A) : MathTools::getPseudoInverse(Eigen::MatrixXf(A.cast<float>())).cast<double>();
        double tol = d ? 1e-9 : 2e-4;
        r.check(P.rows() == s[1] && P.cols() == s[0], "pseudo inverse has the wrong shape", "%s", show2().c_str());
        double e1 = (A * P * A - A).cwiseAbs().maxCoeff(), e2 = (P * A * P - P).cwiseAbs().maxCoeff(), e3 = (A * P - (A * P).transpose()).cwiseAbs().maxCoeff(), e4 = (P * A - (P * A).transpose()).cwiseAbs().maxCoeff();
        r.check(e1 < tol && e2 < tol * 5 && e3 < tol && e4 < tol, "pseudo inverse violates its defining equations", "%d x %d %s: %g %g %g %g", s[0], s[1], show2().c_str(), e1, e2, e3, e4);
        for (double lam : {1., 0.25})
        {
            Eigen::MatrixXd Q = d ? MathTools::getPseudoInverseDampedD(A, lam) : MathTools::getPseudoInverseDamped(Eigen::MatrixXf(A.cast<float>()), (float)lam).cast<double>();
            // (A'A + lam^2 I) Q = A'
            Eigen::MatrixXd L = (A.transpose() * A + lam * lam * Eigen::MatrixXd::Identity(s[1], s[1])) * Q - A.transpose();
            r.check(L.cwiseAbs().maxCoeff() < (d ? 1e-9 : 2e-4), "damped pseudo inverse violates its defining equation", "%d x %d %s, damping %g: %g", s[0], s[1], show2().c_str(), lam, L.cwiseAbs().maxCoeff());
        }
        r.compared(3);
    }
    r.outcome(strf("%d x %d", s[0], s[1]));
    mc::Hash h;
    h.i(s[0]).i(s[1]);
    for (int i = 0; i < n; i++) h.f(A(i));
    r.state(h);
}

// ------------------------------------------------------------ sampled functions
static void sampledSuite(mc::Run& r)
{
    int nx = 1 + r.choose(4), ny = 1 + r.choose(3), nz = 1 + r.choose(3);
    F3 p1(-10, 5, 0), p2(30, 25, -60);
    math::Grid3D g(p1, p2, nx, ny, nz);
    r.at("grid %d %d %d", nx, ny, nz);
    auto all = g.AllGridPoints();
    r.check((int)all.size() == (nx + 1) * (ny + 1) * (nz + 1), "Grid3D has a wrong number of points", "%d %d %d: %zu", nx, ny, nz, all.size());
    size_t i = 0;
    for (int x = 0; x <= nx; x++)
        for (int y = 0; y <= ny; y++)
            for (int z = 0; z <= nz; z++, i++)
            {
                V3 w(p1[0] + (p2[0] - p1[0]) * x / nx, p1[1] + (p2[1] - p1[1]) * y / ny, p1[2] + (p2[2] - p1[2]) * z / nz);
                r.check((D(g.Get(x, y, z)) - w).norm() < 1e-3 && (D(all[i]) - w).norm() < 1e-3, "Grid3D gives a wrong point", "%d %d %d of %d %d %d: %s, expected %s", x, y, z, nx, ny, nz, showv(all[i]).c_str(), showv(w).c_str());
            }
    auto bx = math::Grid3D::CreateFromBox(F3(0, 0, 0), F3((float)nx, (float)ny * 2, (float)nz), 0.5f);
    r.check(bx->StepsX() == 2 * nx && bx->StepsY() == 4 * ny && bx->StepsZ() == 2 * nz, "Grid3D::CreateFromBox has wrong steps", "%d %d %d", bx->StepsX(), bx->StepsY(), bx->StepsZ());
    // polylines and curves
    std::vector<F3> pts;
    for (int k = 0; k <= nx; k++) pts.push_back(F3(10.f * k * (k % 2 ? 1 : -1), 7.f * k * ny, 3.f - k * nz));
    math::LineStrip ls(pts, 2, 2 + 3.f * ny);
    for (int k = 0; k <= 8 * nx; k++)
    {
        double u = k / 8., t = 2 + 3. * ny * u / nx;
        int s = std::min(nx - 1, (int)u);
        V3 w = D(pts[s]) + (u - s) * (D(pts[s + 1]) - D(pts[s]));
        r.check((D(ls.Get((float)t)) - w).norm() < 1e-2, "LineStrip gives a wrong point", "%d points, at %g: %s, expected %s", nx + 1, t, showv(ls.Get((float)t)).c_str(), showv(w).c_str());
        r.check(ls.InLimits((float)t), "LineStrip::InLimits is wrong", "%g", t);
    }
    r.check(!ls.InLimits(1.9f) && !ls.InLimits(2.1f + 3 * ny), "LineStrip::InLimits is wrong", "outside");
    F3 c0(0, 0, 0), c1(nx, ny, 0), c2(5, -ny, nz), c3(10, 0, -nz);
    math::Bezier bz(c0, c1, c2, c3);
    math::LinearContinuedBezier lb(c0, c1, c2, c3);
    auto casteljau = [&](double t) {
        V3 a = D(c0) * (1 - t) + D(c1) * t, b = D(c1) * (1 - t) + D(c2) * t, c = D(c2) * (1 - t) + D(c3) * t;
        V3 d = a * (1 - t) + b * t, e = b * (1 - t) + c * t;
        return V3(d * (1 - t) + e * t);
    };
    for (int k = 0; k <= 10; k++)
    {
        double t = k / 10.;
        V3 w = casteljau(t), dw = (casteljau(t + 1e-4) - casteljau(t - 1e-4)) / 2e-4;
        r.check((D(bz.Get((float)t)) - w).norm() < 1e-4 && (D(lb.Get((float)t)) - w).norm() < 1e-4, "Bezier gives a wrong point", "at %g", t);
        r.check((D(bz.GetDerivative((float)t)) - dw).norm() < 1e-2 && (D(lb.GetDerivative((float)t)) - dw).norm() < 1e-2, "Bezier gives a wrong derivative", "at %g: %s, expected %s", t, showv(bz.GetDerivative((float)t)).c_str(), showv(dw).c_str());
    }
    for (double t : {-2., -0.5, 1.5, 3.})
    {
        V3 e = t < 0 ? D(c0) : D(c3), de = t < 0 ? V3(3 * (D(c1) - D(c0))) : V3(3 * (D(c3) - D(c2)));
        V3 w = e + de * (t < 0 ? t : t - 1);
        r.check((D(lb.Get((float)t)) - w).norm() < 1e-3 && (D(lb.GetDerivative((float)t)) - de).norm() < 1e-3, "LinearContinuedBezier leaves its tangent", "at %g: %s, expected %s", t, showv(lb.Get((float)t)).c_str(), showv(w).c_str());
    }
    auto cb = math::Bezier::CubicBezier(c0, c1, c2, c3, nx);
    r.check((int)cb.size() == nx + 1 && (D(cb.back()) - D(c3)).norm() < 1e-3 && (D(cb[0]) - D(c0)).norm() < 1e-3, "CubicBezier does not sample its ends", "%zu", cb.size());
    r.compared(6);
    mc::Hash h;
    h.i(nx).i(ny).i(nz);
    r.state(h);
    r.outcome("sampled");
}
static void histoSuite(mc::Run& r)
{
    int bins = 1 + r.choose(5), n = 1 + r.choose(r.thorough ? 5 : 4);
    std::vector<float> data;
    for (int i = 0; i < n; i++) data.push_back(-1.f + 0.5f * r.choose(5));
    int filter = r.choose(4);
    bool limits = r.flip();
    float lo = *std::min_element(data.begin(), data.end()), hi = *std::max_element(data.begin(), data.end());
    if (limits) lo = -1, hi = 1;
    if (lo == hi) r.prune();
    r.at("%d values in %d bins", n, bins);
    VirtualRobot::Histogram h = limits ? VirtualRobot::Histogram(data, -1, 1, (size_t)bins) : VirtualRobot::Histogram(data, (size_t)bins);
    std::vector<size_t> want(bins);
    for (float d : data) want[std::min(bins - 1, (int)((d - lo) / (hi - lo) * bins))]++;
    std::string in;
    for (float d : data) in += strf("%g ", d);
    in += strf("in %d bins of [%g,%g]", bins, lo, hi);
    r.check(h.getMin() == lo && h.getMax() == hi && h.getNumberOfBins() == (size_t)bins, "histogram has wrong limits", "%s", in.c_str());
    r.check(h.getBins() == want, "histogram counts are wrong", "%s", in.c_str());
    size_t mn = h.getMinBinIndex(), mx = h.getMaxBinIndex();
    r.check(mn < (size_t)bins && mx < (size_t)bins && want[mn] == *std::min_element(want.begin(), want.end()) && want[mx] == *std::max_element(want.begin(), want.end()), "histogram extremes are wrong", "%s", in.c_str());
    r.check(h.getMinBinValue() == h.indexToValue(mn) && h.getMaxBinValue() == h.indexToValue(mx), "histogram values of the extremes are wrong", "%s: fewest in bin %zu at %g, reported %g", in.c_str(), mn, h.indexToValue(mn), h.getMinBinValue());
    for (int i = 0; i < bins; i++)
    {
        double w = (hi - lo) / bins, v = h.indexToValue(i);
        r.check(v >= lo + w * i - 1e-5 && v <= lo + w * (i + 1) + 1e-5, "histogram value of a bin lies outside the bin", "%s: bin %d at %g", in.c_str(), i, v);
    }
    h.applyMedianFilter((size_t)filter);
    std::vector<size_t> med(bins);
    for (int i = 0; i < bins; i++)
    {
        std::vector<size_t> v;
        for (int k = std::max(0, i - filter); k <= std::min(bins - 1, i + filter); k++) v.push_back(want[k]);
        std::sort(v.begin(), v.end());
        med[i] = v[v.size() / 2];
    }
    r.check(h.getBins() == med, "median filter is wrong", "%s, size %d", in.c_str(), filter);
    r.compared(3);
    mc::Hash hh;
    for (auto w : want) hh.i((long long)w);
    hh.i(filter);
    r.state(hh);
    r.outcome(strf("%d bins", bins));
}

// ------------------------------------------------------------ marching cubes
typedef std::array<int, 3> P3;
static P3 q3(const F3& p)
{
    return P3{(int)std::lround(p[0] * 1000), (int)std::lround(p[1] * 1000), (int)std::lround(p[2] * 1000)};
}
static void cubesSuite(mc::Run& r)
{
    // a block of 3 x 2 x 2 samples with every combination of inside and outside, surrounded by outside samples
    int bits = r.choose(64);
    bits = bits * 64 + r.choose(64);
    bool complement = r.flip();
    if ((bits == 0)) r.prune();
    r.at("pattern %x%s", bits, complement ? " complemented" : "");
    const int size = 5;
    auto val = [bits, complement](int x, int y, int z) {
        bool in = false;
        if (x >= 1 && x <= 3 && y >= 2 && y <= 3 && z >= 2 && z <= 3) in = bits >> ((x - 1) + 3 * (y - 2) + 6 * (z - 2)) & 1;
        if (x == 0 || y == 0 || z == 0 || x == size || y == size || z == size) in = false;
        float mag = 1.f + 0.5f * ((x * 3 + y * 5 + z * 7) % 4);
        return (in != complement) ? mag : -mag;
    };
    std::function<float(math::Index3)> fn = [val](math::Index3 i) { return val(i.X(), i.Y(), i.Z()); };
    math::MarchingCubes m;
    math::GridCacheFloat3Ptr cache(new math::GridCacheFloat3(size + 1, fn));
    m.Init(size, F3(0, 0, 0), F3(0, 0, 0), 0, 1, cache);
    math::PrimitivePtr prim = m.Process(0);
    auto judge = [&](const math::Primitive& tris, const char* what) {
        std::map<std::pair<P3, P3>, int> edges;
        double vol = 0;
        std::set<P3> used;
        for (auto t : tris)
        {
            P3 v[3] = {q3(t.P1()), q3(t.P2()), q3(t.P3())};
            for (int i = 0; i < 3; i++) edges[{v[i], v[(i + 1) % 3]}]++, used.insert(v[i]);
            vol += D(t.P1()).dot(D(t.P2()).cross(D(t.P3()))) / 6;
            for (F3 p : {t.P1(), t.P2(), t.P3()})
            {
                // on exactly one cut grid edge, at the zero of the linear interpolation
                int ax = -1;
                for (int k = 0; k < 3; k++)
                    if (std::fabs(p[k] - std::round(p[k])) > 1e-4) r.check(ax < 0, "a vertex of the iso surface is on no grid edge", "pattern %x: %s", bits, showv(p).c_str()), ax = k;
                r.check(ax >= 0, "a vertex of the iso surface is a grid point", "pattern %x: %s", bits, showv(p).c_str());
                int a[3] = {(int)std::floor(p[0] + (ax != 0) * 0.5f), (int)std::floor(p[1] + (ax != 1) * 0.5f), (int)std::floor(p[2] + (ax != 2) * 0.5f)}, b[3] = {a[0], a[1], a[2]};
                b[ax]++;
                double va = val(a[0], a[1], a[2]), vb = val(b[0], b[1], b[2]);
                r.check(va * vb < 0 && std::fabs(p[ax] - a[ax] - va / (va - vb)) < 1e-3, "a vertex of the iso surface is not on the surface", "pattern %x: %s between values %g and %g", bits, showv(p).c_str(), va, vb);
            }
        }
        for (auto& e : edges)
        {
            int back = edges.count({e.first.second, e.first.first}) ? edges[{e.first.second, e.first.first}] : 0;
            r.check(back == e.second, std::string("the iso surface has a hole") + what, "pattern %x%s: edge (%d %d %d)-(%d %d %d) used %d times, back %d times", bits, complement ? " complemented" : "", e.first.first[0], e.first.first[1], e.first.first[2], e.first.second[0], e.first.second[1], e.first.second[2], e.second, back);
        }
        return vol;
    };
    size_t cut = 0;
    for (int x = 0; x <= size; x++)
        for (int y = 0; y <= size; y++)
            for (int z = 0; z <= size; z++)
                for (int k = 0; k < 3; k++)
                {
                    int b[3] = {x, y, z};
                    if (++b[k] > size) continue;
                    if (val(x, y, z) * val(b[0], b[1], b[2]) < 0) cut++;
                }
    double vol = judge(*prim, "");
    std::set<P3> verts;
    for (auto t : *prim) verts.insert(q3(t.P1())), verts.insert(q3(t.P2())), verts.insert(q3(t.P3()));
    r.check(verts.size() == cut, "the iso surface misses a cut edge", "pattern %x: %zu vertices, %zu cut edges", bits, verts.size(), cut);
    r.check(complement ? vol > 0 : vol < 0, "the iso surface is turned inside out", "pattern %x%s: signed volume %g", bits, complement ? " complemented" : "", vol);
    // only the surface reached from the start
    for (auto s : {math::Index3(0, 0, 0), math::Index3(2, 2, 2), math::Index3(4, 4, 1)})
    {
        math::PrimitivePtr one = m.ProcessSingleSurfaceOptimized(0, s);
        r.check(!one->empty() && one->size() <= prim->size(), "no surface found from the start", "pattern %x: %zu triangles of %zu", bits, one->size(), prim->size());
        judge(*one, " (from a start)");
    }
    r.compared(2);
    mc::Hash h;
    h.i(bits).i(complement);
    r.state(h);
    r.outcome(strf("%s", complement ? "complemented" : "plain"));
}

int main(int argc, char** argv)
{
    mc::setup(silence);
    mc::suite("2D hull", hull2d, 2);
    mc::suite("plane", planeSuite, 1);
    mc::suite("two planes", planePair, 1);
    mc::suite("segment", segmentSuite, 1);
    mc::suite("box", boxSuite, 1);
    mc::suite("triangle", triangleSuite, 1);
    mc::suite("basis", basisSuite, 1);
    mc::suite("pseudo inverse", pinvSuite, 2);
    mc::suite("sampled functions", sampledSuite, 1);
    mc::suite("histogram", histoSuite, 2);
    mc::suite("marching cubes", cubesSuite, 1);
    return mc::main(argc, argv);
}
