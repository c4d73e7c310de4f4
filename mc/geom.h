// Triangle geometry in double precision, written without reference to the library under test.
#pragma once
#include "simox.h"

namespace geo
{
    using sx::M4;
    using sx::V3;
    struct Tri
    {
        V3 p[3];
    };
    typedef std::vector<Tri> Mesh;
    inline Mesh mesh(const sx::Pts& pts, const M4& m = M4::Identity())
    {
        Mesh r;
        for (size_t i = 0; i + 2 < pts.size(); i += 3)
        {
            Tri t;
            for (int k = 0; k < 3; k++) t.p[k] = m.block<3, 3>(0, 0) * pts[i + k].cast<double>() + m.block<3, 1>(0, 3);
            r.push_back(t);
        }
        return r;
    }
    inline Mesh moved(const Mesh& a, const M4& m)
    {
        Mesh r = a;
        for (auto& t : r)
            for (auto& p : t.p) p = (m.block<3, 3>(0, 0) * p + m.block<3, 1>(0, 3)).eval();
        return r;
    }
    inline double pointSegment(const V3& x, const V3& a, const V3& b)
    {
        V3 d = b - a;
        double n = d.dot(d), t = n > 0 ? (x - a).dot(d) / n : 0;
        t = t < 0 ? 0 : t > 1 ? 1 : t;
        return (x - a - t * d).norm();
    }
    inline double pointTriangle(const V3& x, const Tri& t)
    {
        V3 n = (t.p[1] - t.p[0]).cross(t.p[2] - t.p[0]);
        double nn = n.norm();
        if (nn > 1e-12)
        {
            n /= nn;
            bool in = true;
            for (int k = 0; k < 3; k++)
                if (n.cross(t.p[(k + 1) % 3] - t.p[k]).dot(x - t.p[k]) < 0) in = false;
            if (in) return std::fabs(n.dot(x - t.p[0]));
        }
        double d = 1e300;
        for (int k = 0; k < 3; k++) d = std::min(d, pointSegment(x, t.p[k], t.p[(k + 1) % 3]));
        return d;
    }
    inline double segmentSegment(const V3& a, const V3& b, const V3& c, const V3& d)
    {
        // candidates: the four end points, and the inner critical point
        double r = std::min(std::min(pointSegment(a, c, d), pointSegment(b, c, d)), std::min(pointSegment(c, a, b), pointSegment(d, a, b)));
        V3 u = b - a, v = d - c, w = a - c;
        double A = u.dot(u), B = u.dot(v), C = v.dot(v), D = u.dot(w), E = v.dot(w), den = A * C - B * B;
        if (den > 1e-9 * A * C)
        {
            double s = (B * E - C * D) / den, t = (A * E - B * D) / den;
            if (s >= 0 && s <= 1 && t >= 0 && t <= 1) r = std::min(r, (w + s * u - t * v).norm());
        }
        return r;
    }
    // the segment passes through the triangle, clear of its border and of the end points by eps (eps < 0: also when close)
    inline bool pierces(const V3& a, const V3& b, const Tri& t, double eps)
    {
        V3 n = (t.p[1] - t.p[0]).cross(t.p[2] - t.p[0]);
        double nn = n.norm();
        if (nn < 1e-12) return false;
        n /= nn;
        double da = n.dot(a - t.p[0]), db = n.dot(b - t.p[0]);
        if (da * db >= 0 || std::min(std::fabs(da), std::fabs(db)) < eps) return false;
        V3 x = a + (b - a) * (da / (da - db));
        for (int k = 0; k < 3; k++)
        {
            V3 e = t.p[(k + 1) % 3] - t.p[k];
            if (n.cross(e).dot(x - t.p[k]) / e.norm() < eps) return false;
        }
        return true;
    }
    inline bool intersect(const Tri& a, const Tri& b, double eps)
    {
        for (int k = 0; k < 3; k++)
            if (pierces(a.p[k], a.p[(k + 1) % 3], b, eps) || pierces(b.p[k], b.p[(k + 1) % 3], a, eps)) return true;
        return false;
    }
    inline double distance(const Tri& a, const Tri& b)
    {
        if (intersect(a, b, 0)) return 0;
        double r = 1e300;
        for (int i = 0; i < 3; i++)
        {
            r = std::min(r, pointTriangle(a.p[i], b));
            r = std::min(r, pointTriangle(b.p[i], a));
            for (int k = 0; k < 3; k++) r = std::min(r, segmentSegment(a.p[i], a.p[(i + 1) % 3], b.p[k], b.p[(k + 1) % 3]));
        }
        return r;
    }
    struct Box
    {
        V3 lo, hi;
    };
    inline Box box(const Tri& t)
    {
        return {t.p[0].cwiseMin(t.p[1]).cwiseMin(t.p[2]), t.p[0].cwiseMax(t.p[1]).cwiseMax(t.p[2])};
    }
    // lower bound
    inline double boxDistance(const Box& a, const Box& b)
    {
        V3 d = (a.lo - b.hi).cwiseMax(b.lo - a.hi).cwiseMax(V3(0, 0, 0));
        return d.norm();
    }
    inline double distance(const Mesh& a, const Mesh& b)
    {
        double r = 1e300;
        std::vector<Box> bb;
        for (auto& t : b) bb.push_back(box(t));
        for (auto& s : a)
        {
            Box ba = box(s);
            for (size_t k = 0; k < b.size(); k++)
                if (boxDistance(ba, bb[k]) < r) r = std::min(r, distance(s, b[k]));
        }
        return r;
    }
    inline double distance(const V3& x, const Mesh& b)
    {
        double r = 1e300;
        for (auto& t : b) r = std::min(r, pointTriangle(x, t));
        return r;
    }
    // some pair of triangles intersects, clear of the borders
    inline bool intersect(const Mesh& a, const Mesh& b, double eps)
    {
        for (auto& s : a)
            for (auto& t : b)
                if (intersect(s, t, eps)) return true;
        return false;
    }
    // +1 collide for sure, -1 free for sure, 0 too close to call
    struct Rel
    {
        double d;
        int hit;
    };
    inline Rel relation(const Mesh& a, const Mesh& b, double eps = 0.02)
    {
        Rel r;
        r.d = distance(a, b);
        r.hit = r.d > eps ? -1 : intersect(a, b, eps) ? 1 : 0;
        return r;
    }
}
