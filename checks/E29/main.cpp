// Hands: closing, opening, preshapes, contacts.  The final posture and the contacts are judged by own
// kinematics and own triangle geometry.
#include "geom.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <set>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

enum { NONE = 0, ACT = 1, STA = 2, ALL = 3 };
struct ActorModel
{
    std::string name;
    std::vector<int> nodes;
    std::vector<double> speed;
    std::vector<int> mode;
};
struct Hand
{
    Tree t;
    std::vector<Pts> shape;   // per node, may be empty
    std::vector<ActorModel> actors;
    std::vector<int> statics;
    int base, tcp;
    std::vector<int> preshape;
};
static const V3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
static Hand hand(int variant)
{
    Hand h;
    h.t.name = "hand";
    auto& n = h.t.n;
    n = {F("root", -1, tr(0, 0, 0)), F("palm", 0, tr(5, 0, 20)),
         R("a1", 1, tr(26, 0, 8), Y, -0.31, 1.23), R("a2", 2, tr(0, 0, 44), Y, -0.1, 1.31),
         R("b1", 1, tr(-26, 0, 8), Y, -1.27, 0.31), R("b2", 4, tr(0, 0, 40), Y, -1.23, 0.13),
         P("jaw", 1, tr(0, 44, 8), Y, -31.7, 11.3), F("tcp", 1, tr(0, 0, 60))};
    h.shape.resize(n.size());
    h.shape[1] = boxPts(70, 30, 10);
    h.shape[2] = boxPts(8, 18, 36, 0, 0, 22);
    h.shape[3] = boxPts(8, 16, 30, 0, 0, 17);
    h.shape[4] = boxPts(8, 18, 32, 0, 0, 20);
    h.shape[5] = boxPts(8, 14, 28, 0, 0, 16);
    h.shape[6] = boxPts(20, 6, 50, 0, 0, 26);
    // closing turns a inwards: the tip moves towards negative x with negative angles about y
    // R about y by positive w moves z towards x, so a closes with negative speed: mirror the limits
    n[2].lo = -1.23, n[2].hi = 0.31, n[3].lo = -1.31, n[3].hi = 0.1;
    n[4].lo = -0.31, n[4].hi = 1.27, n[5].lo = -0.13, n[5].hi = 1.23;
    h.actors = {{"A", {2, 3}, {-1, -0.5}, {ALL, ALL}}, {"B", {4, 5}, {1, 0.7}, {ALL, ALL}}, {"J", {6}, {-50}, {ALL}}};
    h.statics = {1};
    h.base = 1;
    h.tcp = 7;
    if (variant == 1) h.actors[0].mode = {NONE, ALL};
    if (variant == 2)
    {
        h.actors[0].mode = {ACT, STA};
        h.actors[1].mode = {STA, ACT};
    }
    if (variant == 3)   // one actor only, coupled joints, no static part
    {
        h.actors.resize(2);
        h.actors[0].speed = {-0.6, -1.1};
        h.statics.clear();
    }
    return h;
}
// as geo::relation, but bodies with distant bounding boxes are told apart at once
static int touching(const geo::Mesh& a, const geo::Mesh& b)
{
    geo::Box x = geo::box(a[0]), y = geo::box(b[0]);
    auto grow = [](geo::Box& o, const geo::Mesh& m) {
        for (auto& t : m)
            for (auto& p : t.p) o.lo = o.lo.cwiseMin(p).eval(), o.hi = o.hi.cwiseMax(p).eval();
    };
    grow(x, a);
    grow(y, b);
    if (geo::boxDistance(x, y) > 0.5) return -1;
    return geo::relation(a, b).hit;
}
struct Thing
{
    ObstaclePtr o;
    Pts pts;
    M4 pose;
    geo::Mesh mesh() const
    {
        return geo::mesh(pts, pose);
    }
};
struct World
{
    Hand h;
    RobotPtr r;
    std::vector<RobotNodePtr> nodes;
    std::vector<EndEffectorActorPtr> actors;
    EndEffectorPtr eef;
    Kin k;
    std::vector<Thing> things;
    std::map<std::string, std::map<int, double>> shapes;
    explicit World(const Hand& hd) : h(hd), k(hd.t)
    {
        BuildOpt o;
        o.tweak = [&](int i, RobotNodePtr x) {
            if (h.shape[i].empty()) return;
            x->setVisualization(visu(h.shape[i]));
            x->setCollisionModel(colmodel(h.shape[i], x->getName() + "_col"));
        };
        r = build(h.t, "hand", o);
        for (auto& n : h.t.n) nodes.push_back(r->getRobotNode(n.name));
        k.base = mk(100, -30, 15, V3(1, 2, -1), 0.7);
        r->setGlobalPose(f(k.base));
        for (auto& a : h.actors)
        {
            std::vector<EndEffectorActor::ActorDefinition> d;
            for (size_t i = 0; i < a.nodes.size(); i++)
            {
                EndEffectorActor::ActorDefinition x;
                x.colMode = (EndEffectorActor::CollisionMode)a.mode[i];
                x.robotNode = nodes[a.nodes[i]];
                x.directionAndSpeed = (float)a.speed[i];
                d.push_back(x);
            }
            actors.push_back(EndEffectorActorPtr(new EndEffectorActor(a.name, d)));
        }
        std::vector<RobotNodePtr> st;
        for (int s : h.statics) st.push_back(nodes[s]);
        eef.reset(new EndEffector("hand", actors, st, nodes[h.base], nodes[h.tcp]));
        r->registerEndEffector(eef);
    }
    void thing(const Pts& p, const M4& pose)   // relative to the palm
    {
        Thing t;
        t.pts = p;
        t.pose = k.poses()[1] * pose;
        t.o.reset(new Obstacle(strf("thing%zu", things.size()), visu(p), colmodel(p, strf("thing%zu_col", things.size()))));
        t.o->setGlobalPose(f(t.pose));
        things.push_back(t);
    }
    void read()
    {
        for (int j : h.t.joints()) k.q[j] = nodes[j]->getJointValue();
    }
    int actorOf(int node) const
    {
        for (size_t a = 0; a < h.actors.size(); a++)
            for (int x : h.actors[a].nodes)
                if (x == node) return (int)a;
        return -1;
    }
    std::vector<geo::Mesh> meshes(const Kin& kk) const
    {
        auto p = kk.poses();
        std::vector<geo::Mesh> m(p.size());
        for (size_t i = 0; i < p.size(); i++)
            if (!h.shape[i].empty()) m[i] = geo::mesh(h.shape[i], p[i]);
        return m;
    }
    // does actor a touch anything?  +1 sure, -1 surely not, 0 too close to call; pairs: (node, thing) -> relation
    int touches(int a, const std::vector<geo::Mesh>& m, const std::set<int>& with, std::map<std::pair<int, int>, int>* pairs, bool mutual = false) const
    {
        int res = -1;
        const ActorModel& A = h.actors[a];
        for (size_t i = 0; i < A.nodes.size(); i++)
        {
            int node = A.nodes[i];
            if (m[node].empty()) continue;
            for (int w : with)
                if (A.mode[i] & ALL)
                {
                    int r = touching(m[node], things[w].mesh());
                    res = std::max(res, r);
                    if (pairs && r >= 0)
                    {
                        int& x = pairs->emplace(std::make_pair(node, w), r).first->second;
                        x = std::max(x, r);
                    }
                }
            for (size_t b = 0; b < h.actors.size(); b++)
                if ((int)b != a && (A.mode[i] & ACT))
                    for (size_t j = 0; j < h.actors[b].nodes.size(); j++)
                        if ((h.actors[b].mode[j] & (mutual ? ACT : ALL)) && !m[h.actors[b].nodes[j]].empty()) res = std::max(res, touching(m[node], m[h.actors[b].nodes[j]]));
            if (A.mode[i] & STA)
                for (int s : h.statics)
                    if (!m[s].empty()) res = std::max(res, touching(m[node], m[s]));
        }
        return res;
    }
};
static std::string posture(const World& w)
{
    std::string s;
    for (int j : w.h.t.joints()) s += strf(" %s=%.4f", w.h.t.n[j].name.c_str(), w.k.q[j]);
    return s;
}
// can joint i move by one step?  +1 inside the limits, -1 outside, 0 too close to call
static int inside(const Node& n, double v)
{
    double t = 1e-5 * (1 + std::fabs(v));
    if (v > n.hi + t || v < n.lo - t) return -1;
    if (v < n.hi - t && v > n.lo + t) return 1;
    return 0;
}
static void contactInfo(mc::Run& run, World& w, const EndEffector::ContactInfo& c, int node, int thing, const std::string& what)
{
    const Thing& t = w.things[thing];
    auto p = w.k.poses();
    geo::Mesh m = geo::mesh(w.h.shape[node], p[node]), o = t.mesh();
    double d = geo::distance(m, o);
    run.check(std::fabs(c.distance - d) < 0.02, "distance of a contact", "%s: %g instead of %g", what.c_str(), c.distance, d);
    if (d < 0.02) return;
    V3 a = c.contactPointFingerGlobal.cast<double>(), b = c.contactPointObstacleGlobal.cast<double>();
    run.check(geo::distance(a, m) < 0.02, "the contact point of the finger is not on the finger", "%s: %g away", what.c_str(), geo::distance(a, m));
    run.check(geo::distance(b, o) < 0.02, "the contact point of the obstacle is not on the obstacle", "%s: %g away", what.c_str(), geo::distance(b, o));
    run.check(std::fabs((a - b).norm() - d) < 0.02, "the contact points are not the closest ones", "%s: %g instead of %g", what.c_str(), (a - b).norm(), d);
    M4 i = inv(t.pose);
    V3 la = i.block<3, 3>(0, 0) * a + i.block<3, 1>(0, 3), lb = i.block<3, 3>(0, 0) * b + i.block<3, 1>(0, 3);
    run.check((la - c.contactPointFingerLocal.cast<double>()).norm() < 0.02 && (lb - c.contactPointObstacleLocal.cast<double>()).norm() < 0.02, "local contact points", "%s", what.c_str());
}
// judges the posture and the contacts after closing (or opening) with a step
static void judge(mc::Run& run, World& w, const std::vector<double>& before, double step, const std::set<int>& with, const EndEffector::ContactInfoVector* got, const std::string& what)
{
    w.read();
    run.compared();
    std::string at = what + ":" + posture(w);
    std::map<std::pair<int, int>, int> pairs;   // contacts that must (1) or may (0) be there
    bool free0 = true;
    {
        Kin k0 = w.k;
        k0.q = before;
        auto m0 = w.meshes(k0);
        for (size_t a = 0; a < w.h.actors.size(); a++) free0 = free0 && w.touches((int)a, m0, with, nullptr) < 0;
    }
    auto m = w.meshes(w.k);
    for (size_t i = 0; i < w.h.t.n.size(); i++)
        if (w.h.t.n[i].kind != 'F' && w.actorOf((int)i) < 0) run.check(w.k.q[i] == before[i], "a joint that belongs to no actor moved", "%s: %s", at.c_str(), w.h.t.n[i].name.c_str());
    for (size_t a = 0; a < w.h.actors.size(); a++)
    {
        const ActorModel& A = w.h.actors[a];
        if (free0) run.check(w.touches((int)a, m, with, nullptr, true) <= 0, "an actor ends inside something", "%s: actor %s", at.c_str(), A.name.c_str());
        for (size_t i = 0; i < A.nodes.size(); i++)
        {
            int j = A.nodes[i];
            const Node& n = w.h.t.n[j];
            double d = A.speed[i] * step, moved = w.k.q[j] - before[j], ks = moved / d;
            const double tol = 2e-4;
            run.check(ks > -tol, "a joint moved against its direction", "%s: %s from %g", at.c_str(), n.name.c_str(), before[j]);
            run.check(std::fabs(ks - std::round(ks)) < tol * (1 + std::fabs(ks)), "a joint did not move in whole steps", "%s: %s from %g", at.c_str(), n.name.c_str(), before[j]);
            if (inside(n, before[j]) >= 0) run.check(inside(n, w.k.q[j]) >= 0, "a joint left its limits", "%s: %s", at.c_str(), n.name.c_str());
            // it cannot go on
            Kin k2 = w.k;
            k2.q[j] += d;
            int in = inside(n, k2.q[j]);
            if (in < 0) continue;
            std::map<std::pair<int, int>, int> mine;
            int hit = w.touches((int)a, w.meshes(k2), with, &mine);
            if (in > 0) run.check(hit >= 0, "a joint stopped although nothing is in its way", "%s: %s", at.c_str(), n.name.c_str());
            for (auto& x : mine)
            {
                int& y = pairs.emplace(x.first, in > 0 ? x.second : 0).first->second;
                if (in > 0) y = std::max(y, x.second);
            }
        }
    }
    mc::Hash h;
    for (int j : w.h.t.joints()) h.f(w.k.q[j], 1e-3);
    h.i((long long)with.size());
    run.state(h);
    if (!got) return;
    run.outcome(strf("contacts %zu", got->size()));
    std::set<std::pair<int, int>> have;
    for (auto& c : *got)
    {
        run.check(c.eef == w.eef && c.robotNode && c.obstacle && c.actor, "contact without participants", "%s", at.c_str());
        int node = w.h.t.find(c.robotNode->getName()), thing = -1;
        for (size_t i = 0; i < w.things.size(); i++)
            if (w.things[i].o == c.obstacle) thing = (int)i;
        std::string cw = at + strf(" contact %s thing%d", c.robotNode->getName().c_str(), thing);
        run.check(thing >= 0 && with.count(thing), "contact with something else", "%s", cw.c_str());
        run.check(pairs.count({node, thing}), "contact without touching", "%s", cw.c_str());
        run.check(have.insert({node, thing}).second, "a contact is reported twice", "%s", cw.c_str());
        run.check(c.actor == w.actors[w.actorOf(node)], "actor of a contact", "%s", cw.c_str());
        contactInfo(run, w, c, node, thing, cw);
        // the direction in which the point of the finger moves when all joints of the actor go on
        Kin k2 = w.k;
        const ActorModel& A = w.h.actors[w.actorOf(node)];
        bool sure = true;
        for (size_t i = 0; i < A.nodes.size(); i++)
        {
            int in = inside(w.h.t.n[A.nodes[i]], w.k.q[A.nodes[i]] + A.speed[i] * step);
            if (in == 0) sure = false;
            if (in > 0) k2.q[A.nodes[i]] += A.speed[i] * step;
        }
        V4 p(c.contactPointFingerGlobal[0], c.contactPointFingerGlobal[1], c.contactPointFingerGlobal[2], 1);
        V3 dir = (k2.poses()[node] * inv(w.k.poses()[node]) * p - p).head<3>();
        if (sure && dir.norm() > 0.1)
        {
            V3 g = c.approachDirectionGlobal.cast<double>();
            run.check((g - dir.normalized()).norm() < 0.01, "approach direction", "%s: %s instead of %s", cw.c_str(), showv(g).c_str(), showv(V3(dir.normalized())).c_str());
        }
    }
    for (auto& p : pairs)
        if (p.second > 0) run.check(have.count(p.first), "a contact is missing", "%s: %s thing%d", at.c_str(), w.h.t.n[p.first.first].name.c_str(), p.first.second);
}
// queries in the current posture
static void queries(mc::Run& run, World& w, const std::set<int>& with, const std::string& what)
{
    auto m = w.meshes(w.k);
    auto expect = [&](const std::string& q, bool got, int want) {
        run.compared();
        if (want) run.check(got == (want > 0), q, "%s:%s: %s", what.c_str(), posture(w).c_str(), got ? "yes" : "no");
    };
    SceneObjectSetPtr set(new SceneObjectSet("set"));
    for (int x : with) set->addSceneObject(w.things[x].o);
    for (size_t a = 0; a < w.h.actors.size(); a++)
    {
        const ActorModel& A = w.h.actors[a];
        for (int mode : {ALL, ACT, STA, NONE})
        {
            int all = -1;
            for (int x : with)
            {
                int one = -1;
                for (size_t i = 0; i < A.nodes.size(); i++)
                    if (A.mode[i] & mode) one = std::max(one, touching(m[A.nodes[i]], w.things[x].mesh()));
                expect("actor and obstacle", w.actors[a]->isColliding(SceneObjectPtr(w.things[x].o), (EndEffectorActor::CollisionMode)mode), one);
                EndEffector::ContactInfoVector c;
                expect("actor and obstacle with contacts", w.actors[a]->isColliding(w.eef, SceneObjectPtr(w.things[x].o), c, (EndEffectorActor::CollisionMode)mode), one);
                if (one < 0) run.check(c.empty(), "contacts without collision", "%s", what.c_str());
                all = std::max(all, one);
            }
            expect("actor and set of obstacles", w.actors[a]->isColliding(set, (EndEffectorActor::CollisionMode)mode), all);
            EndEffector::ContactInfoVector c;
            expect("actor and set of obstacles with contacts", w.actors[a]->isColliding(w.eef, set, c, (EndEffectorActor::CollisionMode)mode), all);
        }
        int self = -1;
        for (size_t b = 0; b < w.h.actors.size(); b++)
        {
            if (a == b) continue;
            int one = -1;
            for (size_t i = 0; i < A.nodes.size(); i++)
                for (size_t j = 0; j < w.h.actors[b].nodes.size(); j++)
                    if ((A.mode[i] & ACT) && (w.h.actors[b].mode[j] & ALL)) one = std::max(one, touching(m[A.nodes[i]], m[w.h.actors[b].nodes[j]]));
            expect("two actors", w.actors[a]->isColliding(w.actors[b]), one);
            self = std::max(self, one);
        }
        for (int s : w.h.statics)
            for (size_t i = 0; i < A.nodes.size(); i++)
                if (A.mode[i] & STA) self = std::max(self, touching(m[A.nodes[i]], m[s]));
        expect("actor and hand", w.actors[a]->isColliding(w.eef), self);
    }
    auto p = w.k.poses();
    for (int x : with)
        for (double maxd : {0.5, 3.0, 12.0})
        {
            EndEffector::ContactInfoVector c;
            Eigen::Vector3f dir(0, 0.6f, 0.8f);
            int n = w.eef->addStaticPartContacts(w.things[x].o, c, dir, (float)maxd), want = 0;
            bool sure = true;
            for (int s : w.h.statics)
            {
                double d = geo::distance(m[s], w.things[x].mesh());
                if (std::fabs(d - maxd) < 0.02) sure = false;
                want += d <= maxd;
            }
            run.compared();
            if (sure) run.check(n == want && (int)c.size() == want, "contacts of the static part", "%s: %d instead of %d", what.c_str(), n, want);
            for (auto& ci : c)
            {
                run.check(ci.eef == w.eef && ci.robotNode == w.nodes[w.h.statics[0]] && ci.obstacle == w.things[x].o, "contact of the static part", "%s", what.c_str());
                run.check((ci.approachDirectionGlobal + dir).norm() < 1e-6, "approach direction of the static part", "%s", what.c_str());
                contactInfo(run, w, ci, w.h.statics[0], x, what + " static part");
            }
        }
}
static void place(World& w, mc::Run& run, int number, bool few = false)
{
    static const double OX[5] = {0, -14, 11, 24, -31}, OZ[3] = {32, 52, 74};
    static const int FEW[4] = {1, 4, 6, 9};
    int c = few ? FEW[run.choose(4, "place of the object")] : run.choose(run.thorough ? 15 : 12, "place of the object");
    double x = OX[c % (run.thorough ? 5 : 4)], z = OZ[c / (run.thorough ? 5 : 4)];
    int s = run.choose(3, "object");
    // 0 small block, 1 turned block, 2 long bar through the hand
    if (s == 0) w.thing(boxPts(14, 12, 14), tr(x, 3 + number, z));
    if (s == 1) w.thing(boxPts(20, 26, 11), mk(x, 1, z, V3(0.2, 1, 0.1), 0.6));
    if (s == 2) w.thing(boxPts(10, 90, 12), mk(x, 0, z, V3(0, 0, 1), 0.15));
}
static void apply(World& w, const std::vector<double>& q)
{
    std::map<RobotNodePtr, float> m;
    for (int j : w.h.t.joints()) m[w.nodes[j]] = (float)q[j];
    w.r->setJointValues(m);
    w.read();
}
static std::vector<double> start(const World& w, int s)
{
    std::vector<double> q(w.h.t.n.size(), 0.0);
    for (int j : w.h.t.joints())
    {
        const Node& n = w.h.t.n[j];
        int a = w.actorOf(j);
        double dir = 1;
        for (size_t i = 0; a >= 0 && i < w.h.actors[a].nodes.size(); i++)
            if (w.h.actors[a].nodes[i] == j) dir = w.h.actors[a].speed[i];
        double open = dir > 0 ? n.lo : n.hi, closed = dir > 0 ? n.hi : n.lo;
        double fr = s == 0 ? 0.03 : s == 1 ? 0.3 + 0.1 * (j % 3) : s == 2 ? 1.0 : 0.0;
        q[j] = open + (closed - open) * fr;
    }
    return q;
}
static const double STEP[3] = {0.1, 0.037, 0.25};

// one closing movement
static void closing(mc::Run& run)
{
    World w(hand(run.choose(4, "hand")));
    apply(w, start(w, run.choose(3, "start")));
    int si = run.choose(run.thorough ? 3 : 2, "step");
    place(w, run, 0);
    std::set<int> with = {0};
    int how = run.choose(3, "obstacles");   // the object, nothing, the set of both
    if (how == 2)
    {
        w.thing(boxPts(60, 12, 10), mk(2, 31, 40, V3(1, 0, 0), 0.2));
        with = {0, 1};
    }
    std::string what = strf("step %g obstacles %d", STEP[si], how);
    auto before = w.k.q;
    EndEffector::ContactInfoVector c;
    run.at("%s", what.c_str());
    if (how == 0) c = w.eef->closeActors(SceneObjectPtr(w.things[0].o), (float)STEP[si]);
    else if (how == 1)
    {
        with.clear();
        c = run.flip("null object") ? w.eef->closeActors(SceneObjectPtr(), (float)STEP[si]) : w.eef->closeActors(SceneObjectSetPtr(), (float)STEP[si]);
    }
    else
    {
        SceneObjectSetPtr s(new SceneObjectSet("s"));
        for (auto& t : w.things) s->addSceneObject(t.o);
        c = w.eef->closeActors(s, (float)STEP[si]);
    }
    run.step("close");
    judge(run, w, before, STEP[si], with, &c, what);
    queries(run, w, {0}, what);
}
// sequences of operations
static void sequences(mc::Run& run)
{
    World w(hand(run.thorough ? run.choose(4, "hand") : 2 * run.choose(2, "hand")));
    std::map<std::string, std::map<int, double>> shapes;
    auto open = start(w, 3), half = start(w, 1);
    auto reg = [&](const std::string& name, const std::vector<double>& q, int skip) {
        RobotConfigPtr c(new RobotConfig(w.r, name));
        for (int j : w.h.t.joints())
            if (j != skip)
            {
                c->setConfig(w.nodes[j], (float)q[j]);
                shapes[name][j] = q[j];
            }
        w.eef->registerPreshape(c);
    };
    reg("open", open, -1);
    reg("half", half, 4);
    apply(w, start(w, 0));
    place(w, run, 1, !run.thorough);
    const int depth = run.thorough ? 4 : 3;
    std::string what = "sequence";
    for (int d = 0; d < depth; d++)
    {
        int op = run.choose(8, "operation");
        auto before = w.k.q;
        std::set<int> with = {0};
        SceneObjectSetPtr s(new SceneObjectSet("s"));
        s->addSceneObject(w.things[0].o);
        switch (op)
        {
            case 0:
            {
                what += " close";
                run.at("%s", what.c_str());
                auto c = w.eef->closeActors(SceneObjectPtr(w.things[0].o), 0.1f);
                judge(run, w, before, 0.1, with, &c, what);
                break;
            }
            case 1:
                what += " open";
                run.at("%s", what.c_str());
                w.eef->openActors(s, 0.1f);
                judge(run, w, before, -0.1, with, nullptr, what);
                break;
            case 2:
                what += " openfree";
                run.at("%s", what.c_str());
                w.eef->openActors(SceneObjectSetPtr(), 0.25f);
                judge(run, w, before, -0.25, {}, nullptr, what);
                break;
            case 3:
            case 4:
            {
                std::string n = op == 3 ? "open" : "half";
                what += " preshape " + n;
                run.check(w.eef->setPreshape(n), "preshape refused", "%s", what.c_str());
                w.read();
                for (int j : w.h.t.joints())
                {
                    auto& m = shapes[n];
                    double want = m.count(j) ? m[j] : before[j];
                    run.check(std::fabs(w.k.q[j] - want) < 1e-5 * (1 + std::fabs(want)), "preshape", "%s: %s at %g instead of %g", what.c_str(), w.h.t.n[j].name.c_str(), w.k.q[j], want);
                }
                run.check(!w.eef->setPreshape("unknown"), "unknown preshape", "%s", what.c_str());
                break;
            }
            case 5:
                what += " shift";
                w.things[0].pose = w.things[0].pose * mk(3, 0, -4, Y, 0.1);
                w.things[0].o->setGlobalPose(f(w.things[0].pose));
                break;
            case 6:
                what += " hand";
                w.k.base = w.k.base * mk(1, 0.5, 2, X, 0.02);
                w.r->setGlobalPose(f(w.k.base));
                break;
            case 7:
            {
                // one actor alone moves by one step
                what += " step";
                int a = d % (int)w.h.actors.size();
                const ActorModel& A = w.h.actors[a];
                bool allStop = true, sure = true;
                std::vector<double> want = before;
                for (size_t i = 0; i < A.nodes.size(); i++)
                {
                    int in = inside(w.h.t.n[A.nodes[i]], before[A.nodes[i]] + 0.1 * A.speed[i]);
                    if (in == 0) sure = false;
                    if (in > 0)
                    {
                        want[A.nodes[i]] += 0.1 * A.speed[i];
                        allStop = false;
                    }
                }
                bool res = w.actors[a]->moveActor(0.1f);
                w.read();
                run.compared();
                if (sure)
                {
                    run.check(res == allStop, "moveActor reports the limits", "%s: %d", what.c_str(), res);
                    for (int j : w.h.t.joints()) run.check(std::fabs(w.k.q[j] - want[j]) < 1e-5 * (1 + std::fabs(want[j])), "moveActor", "%s: %s at %g instead of %g", what.c_str(), w.h.t.n[j].name.c_str(), w.k.q[j], want[j]);
                }
                break;
            }
        }
        run.step("operation");
        w.read();
    }
    queries(run, w, {0}, what);
}
// a copy of the hand behaves as the hand
static void copies(mc::Run& run)
{
    World w(hand(run.choose(4, "hand")));
    apply(w, start(w, run.choose(2, "start")));
    RobotConfigPtr pc(new RobotConfig(w.r, "shape"));
    for (int j : w.h.t.joints()) pc->setConfig(w.nodes[j], (float)start(w, 1)[j]);
    w.eef->registerPreshape(pc);
    place(w, run, 0);
    int kind = run.choose(2, "copy");
    RobotPtr r2;
    if (kind == 0) r2 = w.r->clone("clone");
    else
        r2 = w.eef->createEefRobot("model", "eef");
    run.check(!!r2, "no copy", "%d", kind);
    EndEffectorPtr e2 = r2->getEndEffector("hand");
    run.check(!!e2 && e2 != w.eef, "the copy has no hand", "%d", kind);
    run.step("copy");
    // same structure
    std::vector<EndEffectorActorPtr> a2;
    e2->getActors(a2);
    run.check(a2.size() == w.h.actors.size(), "actors of the copy", "%zu", a2.size());
    for (size_t a = 0; a < a2.size(); a++)
    {
        auto d = a2[a]->getDefinition();
        const ActorModel& A = w.h.actors[a];
        run.check(a2[a]->getName() == A.name && d.size() == A.nodes.size(), "actors of the copy", "%s", a2[a]->getName().c_str());
        for (size_t i = 0; i < d.size(); i++) run.check(d[i].robotNode == r2->getRobotNode(w.h.t.n[A.nodes[i]].name) && d[i].colMode == A.mode[i] && d[i].directionAndSpeed == (float)A.speed[i], "actors of the copy", "%s %zu", A.name.c_str(), i);
    }
    std::vector<RobotNodePtr> s2;
    e2->getStatics(s2);
    run.check(s2.size() == w.h.statics.size() && (s2.empty() || s2[0] == r2->getRobotNode("palm")), "static part of the copy", "%zu", s2.size());
    run.check(e2->getTcp() == r2->getRobotNode("tcp") && e2->getGCP() == r2->getRobotNode("tcp") && e2->getBase() == r2->getRobotNode("palm"), "frames of the copy", "%d", kind);
    run.check(e2->getPreshapes() == w.eef->getPreshapes() && e2->hasPreshape("shape"), "preshapes of the copy", "%d", kind);
    // membership
    for (size_t i = 0; i < w.h.t.n.size(); i++)
    {
        bool in = (int)i == w.h.base || (int)i == w.h.tcp || w.actorOf((int)i) >= 0 || std::find(w.h.statics.begin(), w.h.statics.end(), (int)i) != w.h.statics.end();
        auto all = w.eef->getAllNodes();
        run.check(w.eef->hasNode(w.nodes[i]) == in && (std::count(all.begin(), all.end(), w.nodes[i]) == (in ? 1 : 0)), "nodes of the hand", "%s", w.h.t.n[i].name.c_str());
        // a hand can be built without the node only if it is not needed
        std::vector<RobotNodePtr> others;
        for (size_t k = 0; k < w.nodes.size(); k++)
            if (k != i) others.push_back(w.nodes[k]);
        bool needed = (int)i == w.h.base || (int)i == w.h.tcp || w.actorOf((int)i) >= 0;
        run.check(w.eef->nodesSufficient(others) == !needed, "nodesSufficient", "without %s", w.h.t.n[i].name.c_str());
    }
    run.check(w.eef->nodesSufficient(w.nodes), "nodesSufficient", "all");
    {
        auto so = w.eef->createSceneObjectSet()->getSceneObjects();
        std::set<SceneObjectPtr> want, have(so.begin(), so.end());
        for (int s : w.h.statics) want.insert(w.nodes[s]);
        for (auto& a : w.h.actors)
            for (int x : a.nodes) want.insert(w.nodes[x]);
        run.check(want == have, "objects of the hand", "%zu instead of %zu", have.size(), want.size());
        auto conf = w.eef->getConfiguration()->getRobotNodeJointValueMap();
        for (auto& a : w.h.actors)
            for (int x : a.nodes) run.check(conf.count(w.h.t.n[x].name) && conf[w.h.t.n[x].name] == w.nodes[x]->getJointValue(), "configuration of the hand", "%s", w.h.t.n[x].name.c_str());
    }
    for (int j : w.h.t.joints())
        if (w.actorOf(j) >= 0) run.check(r2->getRobotNode(w.h.t.n[j].name)->getJointValue() == w.nodes[j]->getJointValue(), "posture of the copy", "%s", w.h.t.n[j].name.c_str());
    // moves as the hand: same object relative to the palm
    Thing t = w.things[0];
    M4 palm2 = r2->getRobotNode("palm")->getGlobalPose().cast<double>();
    M4 rel = inv(w.k.poses()[1]) * t.pose;
    ObstaclePtr o2(new Obstacle("copy", visu(t.pts), colmodel(t.pts, "copy_col")));
    o2->setGlobalPose(f(M4(palm2 * rel)));
    std::vector<float> q0;
    for (auto& n : w.nodes) q0.push_back(n->getJointValue());
    auto c2 = e2->closeActors(SceneObjectPtr(o2), 0.1f);
    for (size_t i = 0; i < w.nodes.size(); i++) run.check(w.nodes[i]->getJointValue() == q0[i], "closing the copy moves the hand", "%s", w.h.t.n[i].name.c_str());
    auto before = w.k.q;
    auto c1 = w.eef->closeActors(SceneObjectPtr(t.o), 0.1f);
    judge(run, w, before, 0.1, {0}, &c1, "original");
    int differ = 0;
    for (int j : w.h.t.joints()) differ += std::fabs(r2->getRobotNode(w.h.t.n[j].name)->getJointValue() - w.nodes[j]->getJointValue()) > 1e-4;
    // a touch may be decided differently in other coordinates: judge the copy by the same rules instead of comparing
    if (differ)
    {
        for (int j : w.h.t.joints()) run.check(std::fabs(r2->getRobotNode(w.h.t.n[j].name)->getJointValue() - w.nodes[j]->getJointValue()) < 0.11 * 51, "the copy closes differently", "%s", w.h.t.n[j].name.c_str());
        run.outcome("copy closes one step differently");
    }
    else
        run.check(c1.size() == c2.size(), "contacts of the copy", "%zu instead of %zu", c2.size(), c1.size());
    for (auto& c : c2) run.check(c.eef == e2 && c.robotNode->getRobot() == r2 && c.obstacle == o2, "contacts of the copy", "%s", c.robotNode->getName().c_str());
}
int main(int argc, char** argv)
{
    mc::hangSeconds(20);
    mc::setup([] { silence(); });
    mc::suite("closing", closing, 3);
    mc::suite("sequences", sequences, 4);
    mc::suite("copies", copies, 3);
    return mc::main(argc, argv);
}
