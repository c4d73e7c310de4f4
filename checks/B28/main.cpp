// B28: bounding boxes and mesh operations keep the geometry.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/BoundingBox.h>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Visualization/TriMeshUtils.h>
#include <algorithm>
#include <cmath>
#include <set>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

// ============================================================ bounding boxes
struct Box
{
    bool empty = true;
    V3 lo, hi;
    void add(const V3& p)
    {
        if (empty) lo = hi = p;
        else
        {
            lo = lo.cwiseMin(p);
            hi = hi.cwiseMax(p);
        }
        empty = false;
    }
    std::vector<V3> corners() const
    {
        std::vector<V3> c;
        for (int i = 0; i < 8; i++) c.push_back(V3(i & 1 ? hi(0) : lo(0), i & 2 ? hi(1) : lo(1), i & 4 ? hi(2) : lo(2)));
        return c;
    }
};
static void compareBox(mc::Run& r, const BoundingBox& b, const Box& m, const char* after)
{
    r.compared();
    if (m.empty)
    {
        r.check(b.getPoints().empty(), strf("an empty box has corners after %s", after), "%zu", b.getPoints().size());
        return;
    }
    V3 lo = b.getMin().cast<double>(), hi = b.getMax().cast<double>();
    double tol = 1e-5 * (1 + m.lo.norm() + m.hi.norm());
    r.check((lo - m.lo).norm() <= tol && (hi - m.hi).norm() <= tol, strf("the box does not contain exactly its points after %s", after), "%s..%s instead of %s..%s", showv(lo).c_str(), showv(hi).c_str(), showv(m.lo).c_str(), showv(m.hi).c_str());
    auto pts = b.getPoints();
    r.check(pts.size() == 8, strf("a box has not eight corners after %s", after), "%zu", pts.size());
    for (auto& c : m.corners())
    {
        bool found = false;
        for (auto& p : pts) found = found || (p.cast<double>() - c).norm() <= tol;
        r.check(found, strf("a corner of the box is missing after %s", after), "%s", showv(c).c_str());
    }
}
static std::vector<V3> points()
{
    return vec<V3>({{0, 0, 0}, {100, -50, 20}, {-3, -3, -3}, {100, 10, -0.5}, {0, 25, 1000}});
}
static void inside(mc::Run& r, const BoundingBox& b, const Box& m)
{
    // all positions below, at, between and above the bounds, per axis; one axis may be ignored (nan)
    for (int k = 0; k < 6 * 6 * 6; k++)
    {
        int s[3] = {k % 6, k / 6 % 6, k / 36};
        Eigen::Vector3f p;
        bool in = !m.empty;
        for (int a = 0; a < 3; a++)
        {
            float lo = m.empty ? 0 : b.getMin()(a), hi = m.empty ? 0 : b.getMax()(a);
            float v[6] = {lo - 1, lo, (lo + hi) / 2, hi, hi + 1, NAN};
            p(a) = v[s[a]];
            if (!m.empty && !std::isnan(p(a))) in = in && lo <= p(a) && p(a) <= hi;
        }
        if (std::isnan(p(0)) + std::isnan(p(1)) + std::isnan(p(2)) > 1) continue;
        bool got = b.isInside(p);
        r.check(got == in, in ? "a point inside the box counts as outside" : "a point outside the box counts as inside", "(%g %g %g), bounds %s %s", p(0), p(1), p(2), showv(m.lo).c_str(), showv(m.hi).c_str());
    }
    // planes
    static const std::vector<V3> normals = vec<V3>({V3(1, 0, 0), V3(0, -1, 0), V3(0, 0, 1), V3(1, 1, 1), V3(-2, 1, 0)});
    for (auto& n0 : normals)
    {
        V3 n = n0.normalized();
        double lo = 1e30, hi = -1e30;
        for (auto& c : m.corners())
        {
            if (m.empty) break;
            lo = std::min(lo, c.dot(n));
            hi = std::max(hi, c.dot(n));
        }
        for (int k = 0; k < 3; k++)
        {
            double d = m.empty ? k : k == 0 ? lo - 1 : k == 1 ? (lo + hi) / 2 : hi + 1;
            if (!m.empty && k == 1 && hi - lo < 1e-2) continue;
            MathTools::Plane pl((n * d).cast<float>(), n.cast<float>());
            BoundingBox copy = b;
            bool got = copy.planeGoesThrough(pl), want = !m.empty && k == 1;
            r.check(got == want, want ? "a plane through the box is not seen" : "a plane beside the box is seen as going through it", "normal %s at %g", showv(n).c_str(), d);
        }
    }
}
static void boxes(mc::Run& r)
{
    auto pl = points();
    Box m;
    BoundingBox b;
    int how = r.choose(3, "construction");
    std::vector<V3> init;
    int n = r.choose(3, "points");
    for (int i = 0; i < n; i++) init.push_back(r.pick(pl, "point"));
    std::vector<Eigen::Vector3f> fi;
    for (auto& p : init)
    {
        m.add(p);
        fi.push_back(p.cast<float>());
    }
    if (how == 0) b = BoundingBox(fi);
    else if (how == 1) b.addPoints(fi);
    else
        for (auto& p : fi) b.addPoint(p);
    compareBox(r, b, m, "construction");
    int len = r.choose(r.thorough ? 4 : 3, "length");
    for (int i = 0; i < len; i++)
    {
        int op = r.choose(11, "op");
        const char* name = "";
        if (op < 3)
        {
            name = "adding a point";
            V3 p = pl[(size_t)(op + 1)];
            r.step("add %s", showv(p).c_str());
            b.addPoint(p.cast<float>());
            m.add(p);
        }
        else if (op < 5)
        {
            name = "adding a box";
            BoundingBox o;
            if (op == 4)
            {
                o.addPoint(Eigen::Vector3f(-5, 5, 7));
                o.addPoint(Eigen::Vector3f(3, 400, 7));
                m.add(V3(-5, 5, 7));
                m.add(V3(3, 400, 7));
            }
            r.step("add a box (%zu)", o.getPoints().size());
            b.addPoints(o);
        }
        else if (op < 7)
        {
            name = "a transformation";
            M4 t = op == 5 ? mk(10, 0, -3, V3(0, 0, 1), PI / 2) : mk(0, 50, 0, V3(1, 2, -1).normalized(), 0.7);
            Eigen::Matrix4f tf = f(t);
            r.step("transform");
            b.transform(tf);
            if (!m.empty)
            {
                Box q;
                for (auto& c : m.corners())
                {
                    Eigen::Vector4d h;
                    h << c, 1;
                    q.add((t * h).head<3>());
                }
                m = q;
            }
        }
        else if (op < 10)
        {
            name = "scaling";
            V3 s = op == 7 ? V3(2, 2, 2) : op == 8 ? V3(0.5, 1, 3) : V3(-1, 2, -0.5);
            r.step("scale %s", showv(s).c_str());
            b.scale(s.cast<float>());
            if (!m.empty)
            {
                V3 x = m.lo.cwiseProduct(s), y = m.hi.cwiseProduct(s);
                m.lo = x.cwiseMin(y);
                m.hi = x.cwiseMax(y);
            }
        }
        else
        {
            name = "clearing";
            r.step("clear");
            b.clear();
            m = Box();
        }
        compareBox(r, b, m, name);
        mc::Hash h;
        r.state(h.i(m.empty).f(m.empty ? 0 : b.getMin()(0)).f(m.empty ? 0 : b.getMax()(1)).f(m.empty ? 0 : b.getMax()(2)).f(m.empty ? 0 : b.getMin()(2)));
    }
    inside(r, b, m);
    r.outcome(m.empty ? "empty box" : (m.hi - m.lo).minCoeff() == 0 ? "flat box" : "box");
}
// ============================================================ meshes
typedef VisualizationFactory::Color Color;
struct Corner
{
    V3 p;
    bool colored = false;
    float rgba[4] = {0, 0, 0, 0};
};
struct Face
{
    Corner c[3];
    int sign = 1; // the normal points along (+1) or against (-1) the winding, 0: none stored
    bool cornerNormals = false;
};
typedef std::vector<Face> Faces;
static V3 winding(const V3& a, const V3& b, const V3& c)
{
    return (b - a).cross(c - a);
}
static bool sameColor(const Color& c, const float* v)
{
    return std::fabs(c.r - v[0]) < 1e-6 && std::fabs(c.g - v[1]) < 1e-6 && std::fabs(c.b - v[2]) < 1e-6;
}
// what the mesh describes
static Faces read(mc::Run& r, const TriMeshModel& m, const char* after)
{
    Faces fs;
    for (auto& f : m.faces)
    {
        Face x;
        unsigned id[3] = {f.id1, f.id2, f.id3}, ic[3] = {f.idColor1, f.idColor2, f.idColor3}, in[3] = {f.idNormal1, f.idNormal2, f.idNormal3};
        for (int k = 0; k < 3; k++)
        {
            r.check(id[k] < m.vertices.size(), strf("a face refers to a missing vertex after %s", after), "%u of %zu", id[k], m.vertices.size());
            x.c[k].p = m.vertices[id[k]].cast<double>();
            r.check(ic[k] == UINT_MAX || ic[k] < m.colors.size(), strf("a face refers to a missing color after %s", after), "%u of %zu", ic[k], m.colors.size());
            x.c[k].colored = ic[k] != UINT_MAX;
            if (x.c[k].colored)
            {
                const Color& c = m.colors[ic[k]];
                x.c[k].rgba[0] = c.r;
                x.c[k].rgba[1] = c.g;
                x.c[k].rgba[2] = c.b;
                x.c[k].rgba[3] = c.transparency;
            }
            r.check(in[k] == UINT_MAX || in[k] < m.normals.size(), strf("a face refers to a missing normal after %s", after), "%u of %zu", in[k], m.normals.size());
        }
        x.cornerNormals = in[0] != UINT_MAX && in[1] != UINT_MAX && in[2] != UINT_MAX;
        V3 w = winding(x.c[0].p, x.c[1].p, x.c[2].p), n = f.normal.cast<double>();
        if (w.norm() < 1e-3) x.sign = 0;
        else if (n.norm() < 1e-6) x.sign = 0;
        else
        {
            r.check(std::fabs(n.norm() - 1) < 1e-3, strf("a face normal has not unit length after %s", after), "%s", showv(n).c_str());
            double d = n.normalized().dot(w.normalized());
            r.check(std::fabs(d) > 0.999, strf("a face normal is not perpendicular to its face after %s", after), "%s, winding %s", showv(n).c_str(), showv(w.normalized()).c_str());
            x.sign = d > 0 ? 1 : -1;
        }
        fs.push_back(x);
    }
    return fs;
}
static void compareMesh(mc::Run& r, const TriMeshModel& m, const Faces& want, const char* after, double tol = 1e-4)
{
    r.compared();
    Faces got = read(r, m, after);
    r.check(got.size() == want.size(), strf("the number of faces differs after %s", after), "%zu instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
    {
        for (int k = 0; k < 3; k++)
        {
            r.check((got[i].c[k].p - want[i].c[k].p).norm() <= tol, strf("a corner of a face differs after %s", after), "face %zu corner %d: %s instead of %s", i, k, showv(got[i].c[k].p).c_str(), showv(want[i].c[k].p).c_str());
            r.check(got[i].c[k].colored == want[i].c[k].colored, strf("a corner gets or loses its color after %s", after), "face %zu corner %d", i, k);
            if (want[i].c[k].colored)
                for (int q = 0; q < 4; q++)
                    r.check(std::fabs(got[i].c[k].rgba[q] - want[i].c[k].rgba[q]) < 1e-6, strf("the color of a corner differs after %s", after), "face %zu corner %d component %d: %g instead of %g", i, k, q, got[i].c[k].rgba[q], want[i].c[k].rgba[q]);
        }
        bool flat = winding(want[i].c[0].p, want[i].c[1].p, want[i].c[2].p).norm() < 1e-3;
        if (!flat) r.check(got[i].sign == want[i].sign, strf("a face normal points the other way or is missing after %s", after), "face %zu: %d instead of %d", i, got[i].sign, want[i].sign);
    }
    // bounding box, size and centre of the vertices
    V3 lo(1e30, 1e30, 1e30), hi(-1e30, -1e30, -1e30), sum(0, 0, 0);
    for (auto& v : m.vertices)
    {
        lo = lo.cwiseMin(v.cast<double>());
        hi = hi.cwiseMax(v.cast<double>());
        sum += v.cast<double>();
    }
    TriMeshModel& mm = const_cast<TriMeshModel&>(m);
    Eigen::Vector3f slo, shi;
    bool sz = mm.getSize(slo, shi);
    r.check(sz == !m.vertices.empty(), "the size of a mesh is known exactly if it has vertices", "%d", (int)sz);
    if (sz)
    {
        r.check((slo.cast<double>() - lo).norm() < 1e-6 && (shi.cast<double>() - hi).norm() < 1e-6, "the size of a mesh differs from its vertices", "%s", after);
        r.check((m.boundingBox.getMin().cast<double>() - lo).norm() < 1e-3 && (m.boundingBox.getMax().cast<double>() - hi).norm() < 1e-3, strf("the bounding box of a mesh does not contain exactly its vertices after %s", after), "%s..%s instead of %s..%s",
                showv(m.boundingBox.getMin().cast<double>()).c_str(), showv(m.boundingBox.getMax().cast<double>()).c_str(), showv(lo).c_str(), showv(hi).c_str());
        r.check((mm.getCOM().cast<double>() - sum / (double)m.vertices.size()).norm() < 1e-2, "the centre of a mesh is not the mean of its vertices", "%s", after);
    }
    else r.check(m.boundingBox.getPoints().empty(), strf("the bounding box of a mesh without vertices is not empty after %s", after), "%zu", m.boundingBox.getPoints().size());
    auto areas = m.getFaceAreas();
    r.check(areas.size() == want.size(), "there is not one area per face", "%zu", areas.size());
    for (size_t i = 0; i < areas.size(); i++)
    {
        double a = winding(want[i].c[0].p, want[i].c[1].p, want[i].c[2].p).norm() / 2;
        r.check(std::fabs(areas[i] - a) < 1e-3 * (1 + a) + 10 * tol, strf("the area of a face differs after %s", after), "face %zu: %g instead of %g", i, areas[i], a);
    }
}
static void put(Corner& c, const V3& p, const float* col)
{
    c.p = p;
    c.colored = col != nullptr;
    if (col)
        for (int k = 0; k < 4; k++) c.rgba[k] = col[k];
}
static const float GRAY[4] = {0.5f, 0.5f, 0.5f, 0};
static const float RED[4] = {1, 0, 0, 0.25f}, GREEN[4] = {0, 1, 0, 0.5f}, BLUE[4] = {0, 0, 1, 0.75f};
static Face triangle(const V3& a, const V3& b, const V3& c, const float* x = GRAY, const float* y = GRAY, const float* z = GRAY, int sign = 1)
{
    Face f;
    put(f.c[0], a, x);
    put(f.c[1], b, y);
    put(f.c[2], c, z);
    f.sign = sign;
    return f;
}
static Eigen::Vector3f fv(const V3& v)
{
    return v.cast<float>();
}
static Color color(const float* c)
{
    return Color(c[0], c[1], c[2], c[3]);
}
struct Model
{
    TriMeshModelPtr m;
    Faces f;
};
static void addIds(TriMeshModel& m, Faces& f)
{
    std::vector<V3> p = vec<V3>({{0, 0, 0}, {50, 0, 0}, {0, 50, 0}, {0, 0, 50}});
    unsigned b = (unsigned)m.vertices.size();
    for (auto& x : p) m.addVertex(fv(x));
    static const unsigned id[2][3] = {{0, 2, 1}, {0, 1, 3}};
    for (auto& i : id)
    {
        m.addFace(b + i[0], b + i[1], b + i[2]);
        f.push_back(triangle(p[i[0]], p[i[1]], p[i[2]], nullptr, nullptr, nullptr, 0));
    }
}
static Model initial(int k)
{
    Model x;
    x.m.reset(new TriMeshModel());
    if (k == 1)
    {
        std::vector<TriMeshModel::triangle> t;
        t.emplace_back(fv(V3(0, 0, 0)), fv(V3(100, 0, 0)), fv(V3(0, 100, 0)));
        t.emplace_back(fv(V3(100, 0, 0)), fv(V3(100, 100, 30)), fv(V3(0, 100, 0)));
        x.m.reset(new TriMeshModel(t));
        for (auto& q : t) x.f.push_back(triangle(q.vertex1.cast<double>(), q.vertex2.cast<double>(), q.vertex3.cast<double>()));
    }
    if (k == 2) addIds(*x.m, x.f);
    if (k == 3)
    {
        // corners that nearly coincide
        const V3 a(0, 0, 0), b(100, 0, 0), c(0, 100, 0), d(100, 100, 0), e(0.004, 0, 0.003);
        x.m->addTriangleWithFace(fv(a), fv(b), fv(c), Eigen::Vector4f(1, 0, 0, 0.25f), Eigen::Vector4f(0, 1, 0, 0.5f), Eigen::Vector4f(0, 0, 1, 0.75f));
        x.f.push_back(triangle(a, b, c, RED, GREEN, BLUE));
        x.m->addTriangleWithFace(fv(b + e), fv(d), fv(c - e), Eigen::Vector3f(0, 0, 3), color(BLUE), color(RED), color(RED));
        x.f.push_back(triangle(b + e, d, c - e, BLUE, RED, RED));
    }
    return x;
}
// corners that are merged: the reference keeps the real positions, they may move by the threshold only
static void merged(mc::Run& r, Model& x, const Faces& before, double dist, bool removed, const char* name)
{
    Faces now = read(r, *x.m, name);
    r.check(now.size() == before.size(), strf("the number of faces differs after %s", name), "%zu instead of %zu", now.size(), before.size());
    std::vector<unsigned> ids;
    std::vector<V3> pos;
    for (size_t i = 0; i < now.size(); i++)
    {
        auto& f = x.m->faces[i];
        unsigned id[3] = {f.id1, f.id2, f.id3};
        for (int k = 0; k < 3; k++)
        {
            ids.push_back(id[k]);
            pos.push_back(before[i].c[k].p);
        }
    }
    // chains of close corners may be merged into one
    std::vector<size_t> comp(ids.size());
    for (size_t i = 0; i < comp.size(); i++) comp[i] = i;
    for (bool changed = true; changed;)
    {
        changed = false;
        for (size_t i = 0; i < comp.size(); i++)
            for (size_t j = 0; j < comp.size(); j++)
                if (comp[j] < comp[i] && (pos[i] - pos[j]).norm() <= dist * 1.1)
                {
                    comp[i] = comp[j];
                    changed = true;
                }
    }
    for (size_t i = 0; i < ids.size(); i++)
    {
        V3 p = now[i / 3].c[i % 3].p;
        bool ok = false;
        for (size_t j = 0; j < ids.size(); j++) ok = ok || (comp[i] == comp[j] && (pos[j] - p).norm() < 1e-3);
        r.check(ok, strf("a corner moves to a place that is not one of those it is merged with in %s", name), "%s to %s", showv(pos[i]).c_str(), showv(p).c_str());
    }
    for (size_t i = 0; i < ids.size(); i++)
        for (size_t j = i + 1; j < ids.size(); j++)
        {
            double d = (pos[i] - pos[j]).norm();
            if (d < dist * 0.9) r.check(ids[i] == ids[j], strf("corners closer than the threshold are not merged in %s", name), "%s %s", showv(pos[i]).c_str(), showv(pos[j]).c_str());
            if (comp[i] != comp[j]) r.check(ids[i] != ids[j], strf("corners further apart than the threshold are merged in %s", name), "%s %s", showv(pos[i]).c_str(), showv(pos[j]).c_str());
        }
    if (removed)
    {
        std::set<unsigned> used(ids.begin(), ids.end());
        r.check(used.size() == x.m->vertices.size(), strf("unused vertices remain after %s", name), "%zu of %zu used", used.size(), x.m->vertices.size());
    }
    Faces want = before;
    for (size_t i = 0; i < want.size(); i++)
        for (int k = 0; k < 3; k++) want[i].c[k].p = now[i].c[k].p;
    x.f = want;
}
static std::vector<V3> averages(const TriMeshModel& m)
{
    std::vector<V3> n(m.vertices.size(), V3(0, 0, 0));
    for (auto& f : m.faces)
    {
        unsigned id[3] = {f.id1, f.id2, f.id3}, in[3] = {f.idNormal1, f.idNormal2, f.idNormal3};
        for (int k = 0; k < 3; k++)
        {
            V3 v = (in[k] < m.normals.size() ? m.normals[in[k]] : f.normal).cast<double>();
            if (v.norm() == 0) continue;
            V3 a = m.vertices[id[(k + 1) % 3]].cast<double>() - m.vertices[id[k]].cast<double>(), b = m.vertices[id[(k + 2) % 3]].cast<double>() - m.vertices[id[k]].cast<double>();
            double ang = std::atan2(a.cross(b).norm(), a.dot(b));
            n[id[k]] += v.normalized() * ang;
        }
    }
    for (auto& v : n)
        if (v.norm() > 1e-3) v.normalize();
        else v.setZero();
    return n;
}
static int nOps = 18;
static std::string apply(mc::Run& r, Model& x, int op)
{
    const V3 a(10, 0, 5), b(60, 0, 5), c(10, 40, 25);
    switch (op)
    {
        case 0:
            r.step("add a triangle");
            x.m->addTriangleWithFace(fv(a), fv(b), fv(c));
            x.f.push_back(triangle(a, b, c));
            return "adding a triangle";
        case 1:
        {
            r.step("add a triangle with normal and colors");
            V3 n = -winding(a, c, b); // against the winding
            x.m->addTriangleWithFace(fv(a), fv(c), fv(b), fv(n), color(RED), color(GREEN), color(BLUE));
            x.f.push_back(triangle(a, c, b, RED, GREEN, BLUE, -1));
            return "adding a triangle with normal";
        }
        case 2:
            r.step("add vertices and faces");
            addIds(*x.m, x.f);
            return "adding faces by vertex";
        case 3:
        {
            Model o = initial(3);
            r.step("add a mesh");
            x.m->addMesh(*o.m);
            x.f.insert(x.f.end(), o.f.begin(), o.f.end());
            return "adding a mesh";
        }
        case 4:
        {
            Model o = initial(2);
            r.step("add a mesh without colors and normals");
            x.m->addMesh(*o.m);
            for (auto& f : o.f)
            {
                for (auto& q : f.c) put(q, q.p, GRAY);
                f.sign = 1;
                x.f.push_back(f);
            }
            return "adding a mesh without colors";
        }
        case 5:
        {
            if (x.f.size() > 24) r.prune();
            r.step("add the mesh to itself");
            x.m->addMesh(*x.m);
            size_t n = x.f.size();
            for (size_t i = 0; i < n; i++)
            {
                Face f = x.f[i];
                for (auto& q : f.c)
                    if (!q.colored) put(q, q.p, GRAY);
                if (!f.sign) f.sign = 1;
                f.cornerNormals = false;
                x.f.push_back(f);
            }
            return "adding a mesh to itself";
        }
        case 6:
            r.step("flip");
            x.m->flipVertexOrientations();
            for (auto& f : x.f) std::swap(f.c[0], f.c[2]); // the normal follows the winding
            return "flipping";
        case 7:
        case 8:
        {
            // the faces of x.f are before; threshold is a squared distance
            Faces before = x.f;
            bool rem = op == 7;
            r.step("merge vertices%s", rem ? "" : " without removing");
            x.m->mergeVertices(0.0001f, rem);
            merged(r, x, before, 0.01, rem, "merging vertices");
            return "merging vertices";
        }
        case 9:
        {
            size_t n = x.m->vertices.size();
            r.step("remove unused vertices");
            size_t k = x.m->removeUnusedVertices();
            r.check(n - k == x.m->vertices.size(), "the number of removed vertices is wrong", "%zu of %zu, %zu left", k, n, x.m->vertices.size());
            return "removing unused vertices";
        }
        case 10:
        case 11:
        case 12:
        {
            V3 s = op == 10 ? V3(2, 2, 2) : op == 11 ? V3(1, 3, 0.5) : V3(-1, 1, 2);
            r.step("scale %s", showv(s).c_str());
            if (r.flip("scaled clone"))
            {
                Faces old = x.f;
                TriMeshModelPtr c2 = x.m->clone(fv(s));
                compareMesh(r, *x.m, old, "cloning scaled");
                x.m = c2;
            }
            else x.m->scale(fv(s));
            for (auto& f : x.f)
            {
                for (auto& q : f.c) q.p = q.p.cwiseProduct(s);
                if (s.prod() < 0) f.sign = -f.sign;
            }
            return "scaling";
        }
        case 13:
        {
            r.step("add missing normals");
            unsigned before = (unsigned)x.m->normals.size();
            unsigned n = x.m->addMissingNormals();
            r.check(x.m->normals.size() == before + n, "the number of created normals is wrong", "%u", n);
            for (size_t i = 0; i < x.f.size(); i++)
            {
                auto& f = x.m->faces[i];
                r.check(f.idNormal1 != UINT_MAX && f.idNormal2 != UINT_MAX && f.idNormal3 != UINT_MAX, "a face has no normals after adding the missing ones", "face %zu", i);
                if (!x.f[i].sign) x.f[i].sign = f.normal.norm() > 0.5 ? 1 : 0;
                x.f[i].cornerNormals = true;
            }
            r.check(x.m->addMissingNormals() == 0, "adding missing normals twice creates some", "%u", n);
            return "adding missing normals";
        }
        case 14:
        {
            Faces before = x.f;
            r.step("add missing colors");
            x.m->addMissingColors(color(BLUE));
            Faces now = read(r, *x.m, "adding missing colors");
            merged(r, x, before, 0.01, true, "adding missing colors");
            for (size_t i = 0; i < x.f.size(); i++)
                for (int k = 0; k < 3; k++)
                    if (!x.f[i].c[k].colored)
                    {
                        r.check(now[i].c[k].colored, "a corner has no color after adding the missing ones", "face %zu corner %d", i, k);
                        // that of another corner at this place, or the given one
                        bool ok = sameColor(color(now[i].c[k].rgba), BLUE);
                        for (auto& g : before)
                            for (auto& q : g.c) ok = ok || (q.colored && (q.p - before[i].c[k].p).norm() < 0.02 && sameColor(color(now[i].c[k].rgba), q.rgba));
                        r.check(ok, "a missing color is neither that of the vertex nor the given one", "face %zu corner %d", i, k);
                        put(x.f[i].c[k], x.f[i].c[k].p, now[i].c[k].rgba);
                    }
            return "adding missing colors";
        }
        case 15:
            r.step("set the color");
            x.m->setColor(color(GREEN));
            for (auto& f : x.f)
                for (auto& q : f.c) put(q, q.p, GREEN);
            return "setting the color";
        case 16:
            r.step("clear");
            x.m->clear();
            x.f.clear();
            r.check(x.m->vertices.empty() && x.m->faces.empty() && x.m->colors.empty() && x.m->normals.empty() && x.m->materials.empty(), "something is left after clearing", "%zu %zu", x.m->vertices.size(), x.m->normals.size());
            return "clearing";
        default:
        {
            TriMeshModelPtr c2 = x.m->clone();
            Faces f = x.f;
            compareMesh(r, *c2, f, "cloning");
            r.step("change a clone");
            c2->addTriangleWithFace(fv(a), fv(b), fv(c));
            c2->scale(Eigen::Vector3f(3, 3, 3));
            c2->flipVertexOrientations();
            c2->setColor(color(RED));
            return "changing a clone";
        }
    }
}
static uint64_t hash(const Model& x)
{
    mc::Hash h;
    h.i((long long)x.m->vertices.size()).i((long long)x.m->normals.size()).i((long long)x.m->colors.size());
    for (auto& f : x.f)
        for (auto& q : f.c) h.f(q.p(0), 0.01).f(q.p(1), 0.01).f(q.p(2), 0.01).i(q.colored).f(q.rgba[0]).i(f.sign);
    return h;
}
static void meshes(mc::Run& r)
{
    int k = r.choose(4, "mesh");
    Model x = initial(k);
    compareMesh(r, *x.m, x.f, "construction");
    int len = 1 + r.choose(r.thorough ? 4 : 3, "length");
    for (int i = 0; i < len; i++)
    {
        int op = r.choose(nOps, "op");
        r.at("operation %d", op);
        std::string name = apply(r, x, op);
        compareMesh(r, *x.m, x.f, name.c_str());
        r.state(hash(x));
    }
    r.outcome(x.f.empty() ? "empty mesh" : "mesh");
}
static void fatten(mc::Run& r)
{
    int k = 1 + r.choose(3, "mesh");
    Model x = initial(k);
    int pre = r.choose(2, "operations before");
    for (int i = 0; i <= pre; i++)
    {
        int op = r.choose(nOps, "op");
        apply(r, x, op);
    }
    static const float offs[3] = {0.5f, -2, 0};
    float off = offs[r.choose(3, "offset")];
    int mode = r.choose(3, "update normals");
    if (mode == 2)
    {
        if (off != 0) r.prune();
        x.m->mergeVertices();
        x.m->addMissingNormals();
    }
    auto n = averages(*x.m);
    auto v = x.m->vertices;
    r.step("fatten by %g", off);
    if (mode == 2) x.m->smoothNormalSurface();
    else x.m->fattenShrink(off, mode == 1);
    r.compared();
    r.check(x.m->vertices.size() == v.size(), "fattening changes the number of vertices", "%zu", x.m->vertices.size());
    V3 lo(1e30, 1e30, 1e30), hi(-1e30, -1e30, -1e30);
    std::vector<V3> nn(n);
    for (size_t i = 0; i < v.size(); i++)
    {
        V3 d = x.m->vertices[i].cast<double>() - v[i].cast<double>();
        // vertices whose normals cancel out may go anywhere along them
        if (n[i].norm() > 0.5) r.check((d - n[i] * off).norm() < 1e-2 * (1 + std::fabs(off)), "fattening does not move a vertex along the mean of its normals by the offset", "%s instead of %s", showv(d).c_str(), showv(n[i] * off).c_str());
        else r.check(d.norm() <= std::fabs(off) * 1.001 + 1e-4, "fattening moves a vertex by more than the offset", "%s", showv(d).c_str());
        lo = lo.cwiseMin(x.m->vertices[i].cast<double>());
        hi = hi.cwiseMax(x.m->vertices[i].cast<double>());
    }
    if (!v.empty()) r.check((x.m->boundingBox.getMin().cast<double>() - lo).norm() < 1e-3 && (x.m->boundingBox.getMax().cast<double>() - hi).norm() < 1e-3, "the bounding box of a fattened mesh does not contain exactly its vertices", "%s", showv(lo).c_str());
    if (mode >= 1)
        for (auto& f : x.m->faces)
        {
            unsigned id[3] = {f.id1, f.id2, f.id3}, in[3] = {f.idNormal1, f.idNormal2, f.idNormal3};
            for (int q = 0; q < 3; q++)
            {
                r.check(in[q] < x.m->normals.size(), "a face has no normal after averaging", "%u of %zu", in[q], x.m->normals.size());
                if (n[id[q]].norm() > 0.5) r.check((x.m->normals[in[q]].cast<double>() - n[id[q]]).norm() < 2e-2, "an averaged normal is not the mean of the normals at the vertex", "%s instead of %s", showv(x.m->normals[in[q]].cast<double>()).c_str(), showv(n[id[q]]).c_str());
            }
        }
    r.state(hash(x));
    r.outcome("fattened");
}
// ------------------------------------------------------------ consistent orientation
static void orientation(mc::Run& r)
{
    // a strip, a fan and a closed surface, all orders and orientations of their faces
    int shape = r.choose(3, "shape");
    std::vector<V3> p = vec<V3>({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, 2, 0}, {1, 2, 0}});
    std::vector<std::array<int, 3>> t;
    if (shape == 0) t = {{{0, 1, 2}}, {{2, 1, 3}}, {{2, 3, 4}}, {{4, 3, 5}}};
    if (shape == 1) t = {{{2, 0, 1}}, {{2, 1, 3}}, {{2, 3, 5}}, {{2, 5, 4}}};
    if (shape == 2)
    {
        p = vec<V3>({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}});
        t = {{{0, 2, 1}}, {{0, 1, 3}}, {{0, 3, 2}}, {{1, 2, 3}}};
    }
    std::vector<int> order = {0, 1, 2, 3};
    for (int i = 0; i < 3; i++) std::swap(order[(size_t)i], order[(size_t)(i + r.choose(4 - i, "order"))]);
    int flips = r.choose(16, "flipped"), rotn = r.choose(3, "first corner");
    bool shared = r.flip("shared vertices");
    TriMeshModel m;
    if (shared)
        for (auto& q : p) m.addVertex(fv(q));
    for (int k : order)
    {
        auto a = t[(size_t)k];
        std::rotate(a.begin(), a.begin() + (rotn + k) % 3, a.end());
        if (shared) m.addFace((unsigned)a[0], (unsigned)a[1], (unsigned)a[2]);
        else m.addTriangleWithFace(fv(p[(size_t)a[0]]), fv(p[(size_t)a[1]]), fv(p[(size_t)a[2]]));
        if (flips >> k & 1) m.faces.back().flipOrientation();
    }
    r.step("correct the orientation");
    unsigned n = m.checkAndCorrectNormals(false);
    r.compared();
    std::map<std::string, int> dir;
    for (auto& f : m.faces)
    {
        unsigned id[3] = {f.id1, f.id2, f.id3};
        for (int k = 0; k < 3; k++) dir[showv(m.vertices[id[k]].cast<double>()) + showv(m.vertices[id[(k + 1) % 3]].cast<double>())]++;
    }
    for (auto& d : dir) r.check(d.second == 1, "neighbouring faces have opposite orientations after the correction", "%s, shape %d, %u flipped", d.first.c_str(), shape, n);
    r.check(m.faces.size() == 4, "the correction changes the number of faces", "%zu", m.faces.size());
    if (flips == 0 || flips == 15) r.check(n == 0, "consistently oriented faces are flipped", "%u", n);
    r.state(mc::Hash().i(shape).i((long long)n).i(flips));
    r.outcome(n ? "corrected" : "unchanged");
}
// ------------------------------------------------------------ boxes as meshes
static void boxMeshes(mc::Run& r)
{
    static const float ext[3] = {1, 50, 7.5f};
    float w = ext[r.choose(3, "w")], h = ext[r.choose(3, "h")], d = ext[r.choose(3, "d")];
    int pose = r.choose(3, "pose"), grid = r.choose(4, "grid");
    M4 t = pose == 0 ? M4::Identity() : pose == 1 ? tr(10, -20, 30) : mk(1, 2, 3, V3(1, 2, -1).normalized(), 0.7);
    std::vector<Eigen::Vector3f> pos;
    for (int i = 0; i < grid; i++) pos.push_back(Eigen::Vector3f((float)i * 100, 0, (float)-i));
    std::vector<Color> cols;
    int nc = r.choose(3, "colors");
    for (int i = 0; i < nc; i++) cols.push_back(color(i ? GREEN : RED));
    r.step("create");
    bool single = grid == 0;
    TriMeshModelPtr m = single ? TriMeshUtils::CreateBox(f(t), w, h, d, color(BLUE), cols) : TriMeshUtils::CreateSparseBoxGrid(f(t), pos, w, h, d, color(BLUE), cols);
    if (single) pos.push_back(Eigen::Vector3f::Zero());
    r.compared();
    Faces fs = read(r, *m, "creating boxes");
    r.check(fs.size() == 12 * pos.size(), "a box has not twelve triangles", "%zu", fs.size());
    for (size_t b = 0; b < pos.size(); b++)
    {
        V3 c = (t * tr(pos[b](0), pos[b](1), pos[b](2))).block<3, 1>(0, 3);
        double vol = 0;
        std::map<std::string, int> edge;
        std::set<std::string> corners;
        for (size_t i = 12 * b; i < 12 * b + 12; i++)
        {
            for (int k = 0; k < 3; k++)
            {
                V3 l = t.block<3, 3>(0, 0).transpose() * (fs[i].c[k].p - c);
                r.check(std::fabs(std::fabs(l(0)) - w / 2) < 1e-3 && std::fabs(std::fabs(l(1)) - h / 2) < 1e-3 && std::fabs(std::fabs(l(2)) - d / 2) < 1e-3, "a corner of a box is at another place", "%s", showv(l).c_str());
                auto key = [&](const V3& v) {
                    V3 q = t.block<3, 3>(0, 0).transpose() * (v - c);
                    return strf("%d%d%d", q(0) > 0, q(1) > 0, q(2) > 0);
                };
                corners.insert(key(fs[i].c[k].p));
                edge[key(fs[i].c[k].p) + key(fs[i].c[(k + 1) % 3].p)]++;
                size_t ci = single ? i : b;
                const float* want = ci < cols.size() ? (ci ? GREEN : RED) : BLUE;
                r.check(fs[i].c[k].colored && sameColor(color(fs[i].c[k].rgba), want), "a box has another color", "triangle %zu", i);
            }
            vol += (fs[i].c[0].p - c).dot((fs[i].c[1].p - c).cross(fs[i].c[2].p - c)) / 6;
            V3 mid = (fs[i].c[0].p + fs[i].c[1].p + fs[i].c[2].p) / 3 - c, n = m->faces[i].normal.cast<double>();
            r.check(n.dot(mid) > 0, "a normal of a box points inwards", "triangle %zu", i);
        }
        r.check(std::fabs(vol - (double)w * h * d) < 1e-3 * w * h * d + 1e-2, "the surface of a box does not enclose its volume", "%g instead of %g", vol, w * h * d);
        for (auto& e : edge) r.check(e.second == 1, "the surface of a box is not closed", "%s", e.first.c_str());
        r.check(corners.size() == 8, "a box has not eight corners", "%zu", corners.size());
    }
    r.state(mc::Hash().i(pose).i(grid).f(w).f(h).f(d));
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("boxes", boxes, 4);
    mc::suite("meshes", meshes, 4);
    mc::suite("fatten", fatten, 4);
    mc::suite("orientation", orientation, 3);
    mc::suite("box meshes", boxMeshes, 3);
    return mc::main(argc, argv);
}
