// Collision and distance queries against brute force triangle geometry in double precision.
#include "geom.h"
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;
typedef Eigen::Vector3f F3;

struct Shape
{
    const char* name;
    Pts pts;
};
static void add(Pts& p, const Pts& q)
{
    p.insert(p.end(), q.begin(), q.end());
}
static const std::vector<Shape>& shapes()
{
    static std::vector<Shape> v;
    if (!v.empty()) return v;
    v.push_back({"triangle", vec<F3>({F3(-40, -30, 0), F3(50, -20, 5), F3(0, 45, -10)})});
    v.push_back({"needle", vec<F3>({F3(0, 0, -80), F3(0.5, 0, 80), F3(0, 0.5, 80)})});
    {
        F3 a(-30, -20, -15), b(40, -25, -10), c(0, 45, -12), d(2, 3, 50);
        v.push_back({"tetrahedron", vec<F3>({a, c, b, a, b, d, b, c, d, c, a, d})});
    }
    v.push_back({"box", boxPts(60, 80, 100)});
    v.push_back({"plate", boxPts(200, 150, 2)});
    {
        Pts p = boxPts(120, 20, 60, 0, -50, 0);
        add(p, boxPts(20, 80, 60, -50, 0, 0));
        add(p, boxPts(20, 80, 60, 50, 0, 0));
        v.push_back({"U", p});
    }
    {
        Pts p; // a landscape of 2 x 6 x 6 triangles
        auto z = [](int i, int k) { return (float)(12 * ((i * 7 + k * 5 + i * k) % 5) - 20); };
        for (int i = 0; i < 6; i++)
            for (int k = 0; k < 6; k++)
            {
                auto q = [&](int x, int y) { return F3(25.f * x - 75, 25.f * y - 75, z(x, y)); };
                F3 a = q(i, k), b = q(i + 1, k), c = q(i, k + 1), d = q(i + 1, k + 1);
                add(p, vec<F3>({a, b, c, b, d, c}));
            }
        v.push_back({"landscape", p});
    }
    {
        Pts p; // a closed ring of 48 triangles
        for (int i = 0; i < 8; i++)
        {
            double w0 = 2 * PI * i / 8, w1 = 2 * PI * (i + 1) / 8;
            for (int k = 0; k < 3; k++)
            {
                auto q = [&](double w, int s) {
                    double a = 2 * PI * (s % 3) / 3, r = 80 + 20 * std::cos(a);
                    return F3(r * std::cos(w), r * std::sin(w), 20 * std::sin(a));
                };
                F3 a = q(w0, k), b = q(w1, k), c = q(w0, k + 1), d = q(w1, k + 1);
                add(p, vec<F3>({a, b, c, b, d, c}));
            }
        }
        v.push_back({"ring", p});
    }
    return v;
}
static const double EPS = 0.02;
static double tol(double d)
{
    return 0.02 + 2e-5 * d;
}
static std::vector<M4> turns(bool more)
{
    std::vector<M4> r;
    r.push_back(M4::Identity());
    r.push_back(rot(V3(0, 0, 1), PI / 2));
    r.push_back(rot(V3(1, 0, 0), PI / 4));
    r.push_back(rot(V3(1, 2, 3), 1.1));
    r.push_back(rot(V3(1, -1, 0.2), 2.5));
    if (more)
    {
        r.push_back(rot(V3(0, 1, 0), PI));
        r.push_back(rot(V3(0, 1, 0), -PI / 2));
        r.push_back(rot(V3(-3, 1, 2), -0.4));
        r.push_back(rot(V3(1, 1, 1), 2 * PI / 3));
    }
    return r;
}
// everything that is said about a pair of points reported as closest
static void points(mc::Run& r, const std::string& sig, const std::string& what, float d, const F3& P1, const F3& P2, const geo::Mesh& A, const geo::Mesh& B, const geo::Rel& want)
{
    double t = tol(want.d);
    r.check(std::fabs(d - want.d) <= t, sig + " distance", "%s: distance %.6g, is %.6g", what.c_str(), d, want.d);
    double d1 = geo::distance(V3(P1.cast<double>()), A), d2 = geo::distance(V3(P2.cast<double>()), B);
    r.check(d1 <= t, sig + " first point", "%s: the first point %s is %.5g off the first surface", what.c_str(), showv(P1).c_str(), d1);
    r.check(d2 <= t, sig + " second point", "%s: the second point %s is %.5g off the second surface", what.c_str(), showv(P2).c_str(), d2);
    if (want.hit < 0)
        r.check(std::fabs((P1 - P2).norm() - want.d) <= 2 * t, sig + " points", "%s: the points %s and %s are %.6g apart, the distance is %.6g", what.c_str(), showv(P1).c_str(), showv(P2).c_str(), (P1 - P2).norm(), want.d);
    r.compared(4);
}
static void query(mc::Run& r, const std::string& what, CollisionModelPtr a, CollisionModelPtr b, const geo::Mesh& A, const geo::Mesh& B, const geo::Rel& want, int form)
{
    CollisionCheckerPtr cc = a->getCollisionChecker();
    if (form == 0)
    {
        bool hit = cc->checkCollision(a, b);
        if (want.hit) r.check(hit == (want.hit > 0), "models collision", "%s: checkCollision says %d, the distance is %.5g", what.c_str(), hit, want.d);
        r.compared();
    }
    else if (form == 1)
    {
        float d = cc->calculateDistance(a, b);
        r.check(std::fabs(d - want.d) <= tol(want.d), "models distance", "%s: calculateDistance gives %.6g, is %.6g", what.c_str(), d, want.d);
        r.compared();
    }
    else
    {
        F3 P1, P2;
        int i1 = -5, i2 = -5;
        float d = cc->calculateDistance(a, b, P1, P2, &i1, &i2);
        points(r, "models", what, d, P1, P2, A, B, want);
        r.check(i1 == a->getId() && i2 == b->getId(), "models ids", "%s: ids %d %d, models have %d %d", what.c_str(), i1, i2, a->getId(), b->getId());
    }
}
static CollisionModelPtr model(int s, int id, CollisionCheckerPtr cc)
{
    return CollisionModelPtr(new CollisionModel(visu(shapes()[s].pts), shapes()[s].name, cc, id));
}

// ---------------------------------------------------------------- all pairs, all placements
static void placements(mc::Run& r)
{
    const int N = (int)shapes().size();
    int a = r.choose(N, "first shape"), b = r.choose(N, "second shape");
    auto T = turns(r.thorough);
    int ra = r.choose(r.thorough ? 3 : 2, "frame");
    M4 frame = ra == 0 ? M4(M4::Identity()) : ra == 1 ? mk(310, -240, 130, V3(2, -1, 1), 2.2) : mk(-1500, 900, -20, V3(0, 1, 0), PI / 2);
    const M4& R = T[r.choose((int)T.size(), "turn")];
    CollisionCheckerPtr cc(new CollisionChecker());
    CollisionModelPtr A = model(a, 11, cc), B = model(b, 22, cc);
    geo::Mesh ga = geo::mesh(shapes()[a].pts), gb = geo::mesh(shapes()[b].pts);
    std::vector<double> g = r.thorough ? std::vector<double>{-170, -90.3, -41.7, -13.1, 0.3, 18.9, 52.4, 97.6, 230} : std::vector<double>{-151, -46.7, 0.3, 28.9, 97.6};
    int hits = 0, free = 0, close = 0, k = 0;
    A->setGlobalPose(f(frame));
    geo::Mesh ma = geo::moved(ga, frame);
    for (double x : g)
        for (double y : g)
            for (double z : g)
            {
                M4 P = M4(frame * tr(x, y, z) * R);
                geo::Mesh mb = geo::moved(gb, P);
                B->setGlobalPose(f(P));
                geo::Rel w = geo::relation(ma, mb, EPS);
                (w.hit > 0 ? hits : w.hit < 0 ? free : close)++;
                std::string what = strf("%s and %s, displaced by (%g %g %g)", shapes()[a].name, shapes()[b].name, x, y, z);
                r.at("%s", what.c_str());
                query(r, what, A, B, ma, mb, w, 0);
                query(r, what + " (exchanged)", B, A, mb, ma, w, 0);
                query(r, what, A, B, ma, mb, w, 2);
                query(r, what + " (exchanged)", B, A, mb, ma, w, k++ & 1 ? 1 : 2);
                mc::Hash h;
                h.i(a).i(b).i(ra).f(w.d);
                r.state(h);
            }
    r.step("%s and %s: %d colliding, %d free, %d touching", shapes()[a].name, shapes()[b].name, hits, free, close);
    r.outcome(strf("%s%s", hits ? "colliding " : "", free ? "free" : ""));
}

// ---------------------------------------------------------------- histories of moves and queries
static void histories(mc::Run& r)
{
    const int S[3] = {3, 6, 2};
    const int D = r.thorough ? 4 : 3;
    CollisionCheckerPtr cc(new CollisionChecker());
    std::vector<M4> pose = {tr(0, 0, 0), mk(40.3, 10.2, 61.7, V3(1, 2, 3), 1.1), mk(-180, 30, 20, V3(0, 0, 1), PI / 2), mk(11, -230.5, -90, V3(1, 0, 0), PI)};
    // an operation is a move (3 x 4) or a query (pairs in both orders x 2 forms)
    const int pairs[6][2] = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}};
    std::vector<int> ops;
    for (int i = 0; i < D; i++) ops.push_back(r.choose(12 + 12, "operation"));
    std::vector<CollisionModelPtr> m;
    std::vector<geo::Mesh> g;
    std::vector<int> at = {0, 1, 2};
    for (int i = 0; i < 3; i++)
    {
        m.push_back(model(S[i], 100 + i, cc));
        g.push_back(geo::mesh(shapes()[S[i]].pts));
        m[i]->setGlobalPose(f(pose[at[i]]));
    }
    static std::map<int, geo::Rel> memo;
    static std::map<int, geo::Mesh> meshes;
    auto mesh = [&](int i) -> const geo::Mesh& {
        int key = i * 10 + at[i];
        auto it = meshes.find(key);
        if (it == meshes.end()) it = meshes.emplace(key, geo::moved(g[i], pose[at[i]])).first;
        return it->second;
    };
    auto rel = [&](int i, int k) {
        if (i > k) std::swap(i, k);
        int key = ((i * 10 + at[i]) * 10 + k) * 10 + at[k];
        auto it = memo.find(key);
        if (it == memo.end()) it = memo.emplace(key, geo::relation(mesh(i), mesh(k), EPS)).first;
        return it->second;
    };
    auto ask = [&](int p, int form) {
        int i = pairs[p][0], k = pairs[p][1];
        query(r, strf("models %d (pose %d) and %d (pose %d)", i, at[i], k, at[k]), m[i], m[k], mesh(i), mesh(k), rel(i, k), form);
    };
    for (int o : ops)
    {
        if (o < 12)
        {
            at[o / 4] = o % 4;
            m[o / 4]->setGlobalPose(f(pose[o % 4]));
            r.step("move %d to pose %d", o / 4, o % 4);
        }
        else
        {
            r.step("%s of %d and %d", o % 2 ? "distance" : "collision", pairs[(o - 12) / 2][0], pairs[(o - 12) / 2][1]);
            ask((o - 12) / 2, o % 2 ? 2 : 0);
        }
    }
    for (int p = 0; p < 6; p++)
        for (int f2 : {0, 2}) ask(p, f2);
    mc::Hash h;
    for (int x : at) h.i(x);
    r.state(h);
    r.outcome("ok");
}

// ---------------------------------------------------------------- objects, sets and robots
struct Thing
{
    SceneObjectPtr o;         // a single object, or a robot
    SceneObjectSetPtr set;    // the same bodies as a set
    std::vector<std::pair<int, geo::Mesh>> parts; // collision model ids and surfaces
};
static void forms(mc::Run& r)
{
    CollisionCheckerPtr cc(new CollisionChecker());
    // what is on either side: an obstacle, a robot with several bodies, a set of several obstacles (no single object)
    static const char* kinds[] = {"obstacle", "robot", "set"};
    int ka = r.choose(3, "first"), kb = r.choose(3, "second"), pl = r.choose(r.thorough ? 8 : 6, "placement"), cfg = r.choose(2, "configuration");
    std::vector<M4> P = {tr(0, 0, 0), mk(80, 30, 50, V3(1, 1, 0), 0.4), tr(400, 0, 0), mk(-260, 120, 330, V3(0, 1, 0), 2), mk(0, 0, 160, V3(3, 1, 2), PI), mk(12, -60, 90, V3(1, 0, 0), 1), mk(150, 150, 150, V3(0, 1, 1), -1), tr(0, -190, 0)};
    auto make = [&](int kind, int side) {
        Thing t;
        M4 base = side == 0 ? M4(M4::Identity()) : P[pl];
        int id = side * 1000 + 1;
        t.set.reset(new SceneObjectSet(strf("set%d", side), cc));
        auto obstacle = [&](int shape, const M4& at) {
            CollisionModelPtr c = model(shape, id, cc);
            ObstaclePtr o(new Obstacle(strf("o%d", id), visu(shapes()[shape].pts), c, SceneObject::Physics(), cc));
            o->setGlobalPose(f(at));
            t.parts.push_back({id, geo::mesh(shapes()[shape].pts, at)});
            t.set->addSceneObject(o);
            id++;
            return o;
        };
        if (kind == 0) t.o = obstacle(side ? 5 : 3, base);
        else if (kind == 2)
        {
            obstacle(2, base);
            obstacle(6, M4(base * mk(0, 0, cfg ? -300 : 150, V3(1, 0, 0), 0.3)));
            ObstaclePtr empty(new Obstacle("nothing", VisualizationNodePtr(), CollisionModelPtr(), SceneObject::Physics(), cc));
            t.set->addSceneObject(empty);
            obstacle(0, M4(base * tr(cfg ? 150 : -90, 20, 0)));
        }
        else
        {
            Tree tree = trees()[2];
            Kin k(tree);
            RobotPtr rob(new LocalRobot(strf("rob%d", side), "t"));
            std::vector<RobotNodePtr> nodes;
            std::map<RobotNodePtr, std::vector<std::string>> ch;
            for (size_t i = 0; i < tree.n.size(); i++)
            {
                const Node& n = tree.n[i];
                CollisionModelPtr c;
                if (i % 3 != 1) c = CollisionModelPtr(new CollisionModel(visu(shapes()[i % 2 ? 2 : 3].pts), n.name, cc, id));
                VisualizationNodePtr v;
                RobotNodePtr x;
                SceneObject::Physics ph;
                if (n.kind == 'F') x.reset(new RobotNodeFixed(rob, n.name, f(n.local), v, c, ph, cc));
                else if (n.kind == 'R') x.reset(new RobotNodeRevolute(rob, n.name, n.lo, n.hi, f(n.local), n.axis.cast<float>(), v, c, n.offset, ph, cc));
                else
                    x.reset(new RobotNodePrismatic(rob, n.name, n.lo, n.hi, f(n.local), n.axis.cast<float>(), v, c, n.offset, ph, cc));
                rob->registerRobotNode(x);
                nodes.push_back(x);
                if (c) t.parts.push_back({id, geo::Mesh()});
                id++;
            }
            for (size_t i = 0; i < tree.n.size(); i++)
                for (size_t c = 0; c < tree.n.size(); c++)
                    if (tree.n[c].parent == (int)i) ch[nodes[i]].push_back(tree.n[c].name);
            if (!RobotFactory::initializeRobot(rob, nodes, ch, nodes[0])) r.fail("setup", "initializeRobot failed");
            k.base = base;
            rob->setGlobalPose(f(base));
            std::map<std::string, float> q;
            for (int j : tree.joints())
            {
                double v = cfg ? tree.n[j].hi * 0.7 : tree.n[j].lo * 0.3;
                k.set(j, v);
                q[tree.n[j].name] = (float)v;
            }
            rob->setJointValues(q);
            auto pose = k.poses();
            size_t n = 0;
            for (size_t i = 0; i < tree.n.size(); i++)
            {
                if (i % 3 == 1) continue;
                t.parts[n++].second = geo::mesh(shapes()[i % 2 ? 2 : 3].pts, pose[i]);
                t.set->addSceneObject(nodes[i]);
            }
            t.o = rob;
        }
        return t;
    };
    Thing a = make(ka, 0), b = make(kb, 1);
    // expected
    geo::Rel w = {1e300, -1};
    bool unsure = false;
    std::map<std::pair<int, int>, double> dist;
    geo::Mesh A, B;
    for (auto& x : a.parts) A.insert(A.end(), x.second.begin(), x.second.end());
    for (auto& x : b.parts) B.insert(B.end(), x.second.begin(), x.second.end());
    for (auto& x : a.parts)
        for (auto& y : b.parts)
        {
            geo::Rel q = geo::relation(x.second, y.second, EPS);
            dist[{x.first, y.first}] = q.d;
            w.d = std::min(w.d, q.d);
            if (q.hit > 0) w.hit = 1;
            if (q.hit == 0) unsure = true;
        }
    if (w.hit < 0 && unsure) w.hit = 0;
    r.step("%s against %s: distance %.4g, hit %d", kinds[ka], kinds[kb], w.d, w.hit);
    auto hit = [&](const char* form, bool h) {
        if (w.hit) r.check(h == (w.hit > 0), strf("%s collision", form), "%s: checkCollision says %d, the distance is %.5g", form, h, w.d);
        r.compared();
    };
    auto plain = [&](const char* form, float d) {
        r.check(std::fabs(d - w.d) <= tol(w.d), strf("%s plain distance", form), "%s: %.6g, is %.6g", form, d, w.d);
        r.compared();
    };
    auto full = [&](const char* form, float d, const F3& p1, const F3& p2, int i1, int i2, bool swap) {
        points(r, form, form, d, p1, p2, swap ? B : A, swap ? A : B, w);
        auto it = swap ? dist.find({i2, i1}) : dist.find({i1, i2});
        r.check(it != dist.end(), strf("%s ids", form), "%s: ids %d %d are not those of a pair of models", form, i1, i2);
        r.check(it->second <= w.d + tol(w.d), strf("%s ids", form), "%s: ids %d %d name a pair at distance %.5g, the minimum is %.5g", form, i1, i2, it->second, w.d);
    };
    F3 p1, p2;
    int i1, i2;
#define ALL(form, X, Y, swap)                                              \
    do                                                                     \
    {                                                                      \
        r.at("%s", form);                                                  \
        hit(form, cc->checkCollision(X, Y));                               \
        plain(form, cc->calculateDistance(X, Y));                          \
        i1 = i2 = -5;                                                      \
        float d_ = cc->calculateDistance(X, Y, p1, p2, &i1, &i2);          \
        full(form, d_, p1, p2, i1, i2, swap);                              \
        float e_ = cc->calculateDistance(X, Y, p1, p2);                    \
        points(r, form, std::string(form) + " without ids", e_, p1, p2, swap ? B : A, swap ? A : B, w); \
    } while (0)
    ALL("set/set", a.set, b.set, false);
    ALL("set/set exchanged", b.set, a.set, true);
    if (a.o && b.o)
    {
        ALL("object/object", a.o, b.o, false);
        ALL("object/object exchanged", b.o, a.o, true);
    }
    if (a.o) ALL("object/set", a.o, b.set, false);
    if (b.o) ALL("object/set exchanged", b.o, a.set, true);
    if (ka == 0)
    {
        CollisionModelPtr c = a.o->getCollisionModel();
        ALL("model/set", c, b.set, false);
        std::vector<CollisionModelPtr> v = b.set->getCollisionModels();
        hit("models/model", cc->checkCollision(v, c));
    }
    mc::Hash h;
    h.i(ka).i(kb).f(w.d);
    r.state(h);
    r.outcome(strf("%s", w.hit > 0 ? "colliding" : w.hit < 0 ? "free" : "touching"));
}

// ---------------------------------------------------------------- a point against a surface
static void pointQueries(mc::Run& r)
{
    int s = r.choose((int)shapes().size(), "shape"), fr = r.choose(2, "frame"), ti = r.choose(6, "tolerance");
    static const float tols[] = {0.f, 0.5f, 5.f, 30.f, 75.f, 200.f};
    M4 F = fr ? mk(310, -240, 130, V3(2, -1, 1), 2.2) : M4(M4::Identity());
    CollisionCheckerPtr cc(new CollisionChecker());
    CollisionModelPtr m = model(s, 3, cc);
    ObstaclePtr o(new Obstacle("o", visu(shapes()[s].pts), m, SceneObject::Physics(), cc)), far(new Obstacle("far", visu(boxPts(5, 5, 5)), colmodel(boxPts(5, 5, 5), "far", cc), SceneObject::Physics(), cc));
    o->setGlobalPose(f(F));
    far->setGlobalPose(f(M4(F * tr(0, 0, 700))));
    SceneObjectSetPtr set(new SceneObjectSet("s", cc));
    set->addSceneObject(o);
    set->addSceneObject(far);
    geo::Mesh g = geo::mesh(shapes()[s].pts, F);
    std::vector<double> grid = r.thorough ? std::vector<double>{-260, -130, -77, -46, -21, 1, 15, 39, 60, 111, 250} : std::vector<double>{-260, -77, -31, 1, 15, 60, 111};
    int in = 0, out = 0;
    for (double x : grid)
        for (double y : grid)
            for (double z : grid)
            {
                V3 p = V3((F * V4(x, y, z, 1)).head<3>());
                double d = geo::distance(p, g);
                if (std::fabs(d - tols[ti]) < 0.05) continue;
                bool want = d < tols[ti];
                (want ? in : out)++;
                bool got = cc->checkCollision(m, F3(p.cast<float>()), tols[ti]);
                r.check(got == want, "point against model", "point (%g %g %g) is %.5g off the %s, tolerance %g: %d", x, y, z, d, shapes()[s].name, tols[ti], got);
                got = cc->checkCollision(set, F3(p.cast<float>()), tols[ti]);
                r.check(got == want, "point against set", "point (%g %g %g) is %.5g off the %s, tolerance %g: %d", x, y, z, d, shapes()[s].name, tols[ti], got);
                r.compared(2);
            }
    r.step("%s, tolerance %g: %d within, %d beyond", shapes()[s].name, tols[ti], in, out);
    mc::Hash h;
    h.i(s).i(fr).i(ti);
    r.state(h);
    r.outcome("ok");
}

// ---------------------------------------------------------------- copies, scaled models, vertices, boxes, contacts with a plane
static void models(mc::Run& r)
{
    int s = r.choose((int)shapes().size(), "shape"), pi = r.choose(3, "pose"), how = r.choose(5, "how");
    const Pts& pts = shapes()[s].pts;
    M4 P = pi == 0 ? tr(0, 0, 0) : pi == 1 ? mk(310, -240, 130, V3(2, -1, 1), 2.2) : mk(5, 6, 7, V3(0, 0, 1), PI / 2);
    CollisionCheckerPtr cc(new CollisionChecker()), cc2(new CollisionChecker());
    CollisionModelPtr m = model(s, 9, cc), orig = m;
    m->setGlobalPose(f(P));
    Pts want = pts;
    CollisionCheckerPtr use = cc;
    if (how == 1) m = m->clone(cc), r.step("copy");
    if (how == 2) m = m->clone(use = cc2), r.step("copy for another checker");
    if (how == 3)
    {
        m = m->clone(cc, 2.f);
        r.step("copy of twice the size");
        for (auto& p : want) p *= 2;
    }
    if (how == 4)
    {
        m = m->clone(use = cc2, 1.f, false);
        r.step("copy that shares the mesh");
    }
    r.check(m->getCollisionChecker() == use, "checker", "the model is linked to another checker");
    geo::Mesh g = geo::mesh(want, P);
    if (m != orig)
    {
        r.check(dev(P, m->getGlobalPose()) <= 1, "pose of the copy", "%s instead of %s", show(m->getGlobalPose()).c_str(), show(P).c_str());
        orig->setGlobalPose(f(tr(5000, 0, 0))); // the copy stays
    }
    // queries against a probe
    CollisionModelPtr probe = model(3, 77, use);
    std::vector<M4> at = {mk(20, 30, 55, V3(1, 2, 0), 0.8), tr(150, -60, 10), mk(-300, 40, 220, V3(0, 1, 1), 2)};
    for (auto& x : at)
    {
        M4 W = M4(P * x);
        probe->setGlobalPose(f(W));
        geo::Mesh gp = geo::mesh(shapes()[3].pts, W);
        geo::Rel w = geo::relation(g, gp, EPS);
        query(r, strf("%s against box", shapes()[s].name), m, probe, g, gp, w, 0);
        query(r, strf("%s against box", shapes()[s].name), m, probe, g, gp, w, 2);
    }
    // vertices
    auto vs = m->getModelVeticesGlobal();
    for (auto& v : vs)
    {
        double best = 1e300;
        for (auto& t : g)
            for (auto& p : t.p) best = std::min(best, (p - v.cast<double>()).norm());
        r.check(best < 0.02, "vertices", "vertex %s is not a vertex of the placed mesh", showv(v).c_str());
    }
    for (auto& t : g)
        for (auto& p : t.p)
        {
            double best = 1e300;
            for (auto& v : vs) best = std::min(best, (p - v.cast<double>()).norm());
            r.check(best < 0.02, "vertices", "vertex %s of the placed mesh is missing", showv(p).c_str());
        }
    // boxes: the local one is tight, the global one encloses
    BoundingBox lb = m->getBoundingBox(false), gb = m->getBoundingBox(true);
    geo::Mesh loc = geo::mesh(want);
    V3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
    for (auto& t : loc)
        for (auto& p : t.p)
        {
            lo = lo.cwiseMin(p);
            hi = hi.cwiseMax(p);
        }
    r.check((lb.getMin().cast<double>() - lo).norm() < 0.01 && (lb.getMax().cast<double>() - hi).norm() < 0.01, "local box", "%s %s instead of %s %s", showv(lb.getMin()).c_str(), showv(lb.getMax()).c_str(), showv(lo).c_str(), showv(hi).c_str());
    V3 glo(1e300, 1e300, 1e300), ghi(-1e300, -1e300, -1e300);
    for (int i = 0; i < 8; i++)
    {
        V4 c = P * V4(i & 1 ? lo[0] : hi[0], i & 2 ? lo[1] : hi[1], i & 4 ? lo[2] : hi[2], 1);
        glo = glo.cwiseMin(V3(c.head<3>()));
        ghi = ghi.cwiseMax(V3(c.head<3>()));
    }
    r.check((gb.getMin().cast<double>() - glo).norm() < 0.02 && (gb.getMax().cast<double>() - ghi).norm() < 0.02, "global box", "%s %s instead of %s %s", showv(gb.getMin()).c_str(), showv(gb.getMax()).c_str(), showv(glo).c_str(), showv(ghi).c_str());
    // contacts with a plane
    static const double hs[] = {-120, -30, -9.7, 0.4, 21, 49, 130};
    std::vector<V3> normals = vec<V3>({V3(0, 0, 1), V3(0, 0, -1), V3(V3(1, 1, 0).normalized()), V3(V3(1, -2, 2).normalized())});
    for (auto& n : normals)
        for (double hgt : hs)
            for (double md : {0.5, 8., 40.})
            {
                V3 pp = V3(P.block<3, 1>(0, 3)) + n * hgt;
                MathTools::Plane pl(F3(pp.cast<float>()), F3(n.cast<float>()));
                std::vector<MathTools::ContactPoint> c;
                use->getContacts(pl, m, c, (float)md);
                for (auto& x : c)
                {
                    double d = n.dot(x.p.cast<double>() - pp);
                    r.check(d <= md + 0.02, "contact too far", "point %s is %.4g off the plane, at most %g", showv(x.p).c_str(), d, md);
                    double best = 1e300;
                    for (auto& t : g)
                        for (auto& p : t.p) best = std::min(best, (p - x.p.cast<double>()).norm());
                    r.check(best < 0.02, "contact not a vertex", "%s", showv(x.p).c_str());
                    r.check((x.n.cast<double>() - n).norm() < 1e-4, "contact normal", "%s", showv(x.n).c_str());
                }
                for (auto& t : g)
                    for (auto& p : t.p)
                    {
                        if (std::fabs(n.dot(p - pp)) > md - 0.05) continue;
                        double best = 1e300;
                        for (auto& x : c) best = std::min(best, (p - x.p.cast<double>()).norm());
                        r.check(best < 0.02, "contact missing", "vertex %s is %.4g off the plane (limit %g) but not listed", showv(p).c_str(), n.dot(p - pp), md);
                    }
                r.compared();
            }
    mc::Hash h;
    h.i(s).i(pi).i(how);
    r.state(h);
    r.outcome("ok");
}

int main(int argc, char** argv)
{
    mc::setup(silence);
    mc::suite("all pairs of shapes and placements", placements, 4);
    mc::suite("histories of moves and queries", histories, 2);
    mc::suite("objects, sets and robots", forms, 3);
    mc::suite("points", pointQueries, 2);
    mc::suite("copies, vertices, boxes, plane contacts", models, 2);
    return mc::main(argc, argv);
}
