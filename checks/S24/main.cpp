// S24: a scene and its object sets hold exactly what was added and not removed.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Trajectory.h>
#include <algorithm>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

static Tree small()
{
    Tree t;
    t.name = "s";
    t.n = {F("b", -1, tr(0, 0, 0)), R("j", 0, tr(10, 0, 0), V3(0, 0, 1)), P("k", 1, tr(10, 0, 0), V3(1, 0, 0))};
    return t;
}
static RobotPtr robots(int i)
{
    static RobotPtr r[3];
    static const char* n[3] = {"alpha", "beta", "alpha"};
    if (!r[i])
    {
        r[i] = build(small(), n[i]);
        RobotNodeSet::createRobotNodeSet(r[i], strf("set%d", i), {r[i]->getRobotNode("j")}, r[i]->getRobotNode("b"), r[i]->getRobotNode("k"), true);
    }
    return r[i];
}

// one kind of entry
struct Kind
{
    std::string name;
    std::function<void(int)> add, remove;                      // -1 is NULL
    std::function<void(const std::string&)> removeName;
    std::function<bool(int)> has;
    std::function<bool(const std::string&)> hasName;
    std::function<int(const std::string&)> find;               // index, -1 nothing, -2 something unknown
    std::function<std::vector<int>()> all;
    std::string names[3];
    std::vector<int> model;
};
template <class T> int indexOf(const std::vector<T>& v, const T& x)
{
    if (!x) return -1;
    for (size_t i = 0; i < v.size(); i++)
        if (v[i] == x) return (int)i;
    return -2;
}
template <class T> std::vector<int> indices(const std::vector<T>& v, const std::vector<T>& xs)
{
    std::vector<int> r;
    for (auto& x : xs) r.push_back(indexOf(v, x));
    return r;
}
static std::vector<Kind> kinds(ScenePtr s)
{
    std::vector<Kind> k;
#define KIND(TITLE, TYPE, ITEMS, ONE, MANY, REG, DEREG, HAS, ...)                                                             \
    {                                                                                                                    \
        std::vector<TYPE> v = ITEMS;                                                                                     \
        Kind x;                                                                                                          \
        x.name = TITLE;                                                                                                  \
        auto at = [v](int i) { return i < 0 ? TYPE() : v[i]; };                                                          \
        x.add = [=](int i) { s->REG(__VA_ARGS__ at(i)); };                                                               \
        x.remove = [=](int i) { s->DEREG(__VA_ARGS__ at(i)); };                                                          \
        x.removeName = [=](const std::string& n) { s->DEREG(__VA_ARGS__ n); };                                           \
        x.has = [=](int i) { return s->HAS(__VA_ARGS__ at(i)); };                                                        \
        x.hasName = [=](const std::string& n) { return s->HAS(__VA_ARGS__ n); };                                         \
        x.find = [=](const std::string& n) { return indexOf(v, s->ONE(__VA_ARGS__ n)); };                                \
        x.all = [=] { return indices(v, s->MANY); };                                                                     \
        for (int i = 0; i < 3; i++) x.names[i] = v[i]->getName();                                                        \
        k.push_back(x);                                                                                                  \
    }
    static std::vector<RobotPtr> rob;
    static std::vector<ObstaclePtr> obs;
    static std::vector<ManipulationObjectPtr> man;
    static std::vector<TrajectoryPtr> tra;
    static std::vector<SceneObjectSetPtr> set;
    static std::vector<RobotConfigPtr> con, con2;
    if (rob.empty())
    {
        static const char* n[3] = {"x", "y", "x"};
        for (int i = 0; i < 3; i++)
        {
            rob.push_back(robots(i));
            obs.push_back(ObstaclePtr(new Obstacle(n[i])));
            man.push_back(ManipulationObjectPtr(new ManipulationObject(n[i])));
            tra.push_back(TrajectoryPtr(new Trajectory(robots(i == 1 ? 1 : 0)->getRobotNodeSet(i == 1 ? "set1" : "set0"), n[i])));
            set.push_back(SceneObjectSetPtr(new SceneObjectSet(n[i])));
            std::vector<std::string> jn(1, "j");
            std::vector<float> jv(1, 0.1f * i);
            con.push_back(RobotConfigPtr(new RobotConfig(robots(0), n[i], jn, jv)));
            con2.push_back(RobotConfigPtr(new RobotConfig(robots(1), n[i], jn, jv)));
        }
    }
    KIND("robot", RobotPtr, rob, getRobot, getRobots(), registerRobot, deRegisterRobot, hasRobot)
    KIND("obstacle", ObstaclePtr, obs, getObstacle, getObstacles(), registerObstacle, deRegisterObstacle, hasObstacle)
    KIND("object", ManipulationObjectPtr, man, getManipulationObject, getManipulationObjects(), registerManipulationObject, deRegisterManipulationObject, hasManipulationObject)
    KIND("trajectory", TrajectoryPtr, tra, getTrajectory, getTrajectories(), registerTrajectory, deRegisterTrajectory, hasTrajectory)
    KIND("set", SceneObjectSetPtr, set, getSceneObjectSet, getSceneObjectSets(), registerSceneObjectSet, deRegisterSceneObjectSet, hasSceneObjectSet)
#define COMMA ,
    KIND("configuration", RobotConfigPtr, con, getRobotConfig, getRobotConfigs(robots(0)), registerRobotConfig, deRegisterRobotConfig, hasRobotConfig, robots(0) COMMA)
    KIND("configuration of another robot", RobotConfigPtr, con2, getRobotConfig, getRobotConfigs(robots(1)), registerRobotConfig, deRegisterRobotConfig, hasRobotConfig, robots(1) COMMA)
    return k;
}
static std::string showi(const std::vector<int>& v)
{
    std::string s = "[";
    for (int i : v) s += strf("%d ", i);
    return s + "]";
}
static void look(mc::Run& r, ScenePtr s, std::vector<Kind>& k, const std::vector<int>& which)
{
    mc::Hash h;
    bool reg[2] = {false, false};
    for (int i = 0; i < 2; i++)
        for (int m : k[0].model)
            if (k[0].names[m] == robots(i)->getName()) reg[i] = true;
    for (int w : which)
    {
        Kind& x = k[w];
        r.compared();
        h.i(w);
        for (int m : x.model) h.i(m);
        if (w < 5 || reg[w - 5])
        {
            std::vector<int> got = x.all();
            r.check(got == x.model, "the scene does not hold what was registered", "%s: %s, expected %s", x.name.c_str(), showi(got).c_str(), showi(x.model).c_str());
        }
        for (int i = 0; i < 3; i++)
        {
            bool in = std::count(x.model.begin(), x.model.end(), i) > 0;
            r.check(x.has(i) == in, "a registered entry is not known or an unknown one is", "%s %d: %d, expected %d", x.name.c_str(), i, (int)!in, (int)in);
        }
        for (std::string n : {x.names[0], x.names[1], std::string("nobody"), std::string()})
        {
            bool in = false;
            for (int m : x.model) in = in || x.names[m] == n;
            r.check(x.hasName(n) == in, "an entry is not known by its name", "%s '%s': %d, expected %d", x.name.c_str(), n.c_str(), (int)!in, (int)in);
            int f = x.find(n);
            r.check((f >= 0) == in, "an entry is not found by its name", "%s '%s': %d", x.name.c_str(), n.c_str(), f);
            if (in) r.check(x.names[f] == n && std::count(x.model.begin(), x.model.end(), f), "a wrong entry is found by name", "%s '%s': %d", x.name.c_str(), n.c_str(), f);
        }
    }
    // trajectories of a robot
    for (std::string rn : {"alpha", "beta", "gamma"})
    {
        std::vector<std::string> want, got;
        for (int m : k[3].model)
            if ((m == 1 ? "beta" : "alpha") == rn) want.push_back(k[3].names[m]);
        for (auto& t : s->getTrajectories(rn)) got.push_back(t->getName());
        r.check(want == got, "the trajectories of a robot are wrong", "%s: %zu, expected %zu", rn.c_str(), got.size(), want.size());
    }
    if (reg[1])
    {
        r.check(s->getRobotNodeSet("beta", "set1") == robots(1)->getRobotNodeSet("set1"), "a node set of a robot of the scene is not found", "beta");
        // by the name of the robot
        bool in = std::count(k[6].model.begin(), k[6].model.end(), 1) > 0;
        RobotConfigPtr c = s->getRobotConfig("beta", "y");
        r.check(bool(c) == in, "a configuration is not found by the name of its robot", "%d", (int)in);
    }
    r.state(h);
}
static void operate(mc::Run& r, Kind& x, int op)
{
    auto& m = x.model;
    if (op < 3)
    {
        r.step("register %s %d", x.name.c_str(), op);
        x.add(op);
        if (!std::count(m.begin(), m.end(), op)) m.push_back(op);
    }
    else if (op < 6)
    {
        r.step("deregister %s %d", x.name.c_str(), op - 3);
        x.remove(op - 3);
        m.erase(std::remove(m.begin(), m.end(), op - 3), m.end());
    }
    else if (op < 9)
    {
        std::string n = op == 8 ? "nobody" : x.names[op - 6];
        r.step("deregister %s '%s'", x.name.c_str(), n.c_str());
        x.removeName(n);
        // one entry with that name goes, whichever
        int cnt = 0, gone = -1, still = 0;
        for (int i : m)
            if (x.names[i] == n)
            {
                cnt++;
                if (!x.has(i)) gone = i;
                else still++;
            }
        r.check(cnt == 0 || still == cnt - 1, "deregistering by name does not remove one entry", "%s '%s': %d of %d left", x.name.c_str(), n.c_str(), still, cnt);
        m.erase(std::remove(m.begin(), m.end(), gone), m.end());
    }
    else
    {
        r.step("%s NULL %s", op == 9 ? "register" : "deregister", x.name.c_str());
        try
        {
            op == 9 ? x.add(-1) : x.remove(-1);
        }
        catch (VirtualRobotException&)
        {
        }
    }
}
static void perKind(mc::Run& r)
{
    ScenePtr s(new Scene("scene"));
    std::vector<Kind> k = kinds(s);
    int w = r.choose(7, "kind");
    r.at("%s", k[w].name.c_str());
    // configurations are listed for robots of the scene
    if (w >= 5)
    {
        s->registerRobot(robots(0));
        s->registerRobot(robots(1));
        k[0].model = {0, 1};
    }
    int D = r.thorough ? 6 : 5;
    for (int op = 0; op < D; op++)
    {
        int o = r.choose(12, "operation");
        if (o == 11) break;
        operate(r, k[w], o);
        look(r, s, k, {w});
    }
    r.outcome(strf("%s %s", k[w].name.c_str(), showi(k[w].model).c_str()));
}
static void together(mc::Run& r)
{
    ScenePtr s(new Scene("scene"));
    std::vector<Kind> k = kinds(s);
    r.at("all kinds");
    int D = r.thorough ? 4 : 3;
    for (int op = 0; op < D; op++)
    {
        int w = r.choose(8, "kind");
        if (w == 7) break;
        operate(r, k[w], r.choose(8, "operation"));
        look(r, s, k, {0, 1, 2, 3, 4, 5, 6});
    }
    r.check(s->getName() == "scene", "the name of the scene changes", "%s", s->getName().c_str());
}

// ---- object sets
static void sets(mc::Run& r)
{
    static std::vector<SceneObjectPtr> o;
    static CollisionCheckerPtr other;
    static SceneObjectSetPtr more, foreign;
    static RobotPtr rob;
    static RobotNodeSetPtr rns;
    if (o.empty())
    {
        other.reset(new CollisionChecker());
        for (int i = 0; i < 4; i++) o.push_back(SceneObjectPtr(new Obstacle(strf("o%d", i % 3), VisualizationNodePtr(), i < 3 ? colmodel(boxPts(1, 1, 1), "c") : CollisionModelPtr())));
        o.push_back(SceneObjectPtr(new Obstacle("foreign", VisualizationNodePtr(), CollisionModelPtr(), SceneObject::Physics(), other)));
        rob = build(small(), "r");
        for (const char* n : {"b", "j", "k"}) o.push_back(rob->getRobotNode(n));
        rns = RobotNodeSet::createRobotNodeSet(rob, "ns", {rob->getRobotNode("j"), rob->getRobotNode("k")}, rob->getRobotNode("b"), rob->getRobotNode("k"), true);
        more.reset(new SceneObjectSet("more"));
        for (int i : {1, 2, 3}) more->addSceneObject(o[i]);
        foreign.reset(new SceneObjectSet("foreign", other));
        foreign->addSceneObject(o[4]);
    }
    SceneObjectSetPtr s(new SceneObjectSet("set"));
    std::vector<int> m;
    auto has = [&](int i) { return std::count(m.begin(), m.end(), i) > 0; };
    auto give = [&](std::initializer_list<int> l) {
        bool dup = false;
        for (int i : l)
            if (has(i)) dup = true;
            else m.push_back(i);
        return !dup;
    };
    r.at("object set");
    int D = r.thorough ? 5 : 4;
    for (int op = 0; op < D; op++)
    {
        int k = r.choose(19, "operation");
        if (k == 18) break;
        if (k < 4)
        {
            r.step("add %d", k);
            bool ok = s->addSceneObject(o[k]), was = has(k);
            r.check(ok == !was, "adding an object reports the wrong thing", "%d: %d", k, (int)ok);
            give({k});
        }
        else if (k < 8)
        {
            r.step("remove %d", k - 4);
            bool ok = s->removeSceneObject(o[k - 4]);
            r.check(ok == has(k - 4), "removing an object reports the wrong thing", "%d: %d", k - 4, (int)ok);
            m.erase(std::remove(m.begin(), m.end(), k - 4), m.end());
        }
        else if (k == 8)
        {
            r.step("add foreign");
            r.check(!s->addSceneObject(o[4]), "an object of another collision checker is accepted", "%d", op);
        }
        else if (k == 9)
        {
            r.step("add NULL");
            r.check(!s->addSceneObject(SceneObjectPtr()) && !s->removeSceneObject(SceneObjectPtr()) && !s->addSceneObjects(SceneObjectSetPtr()) && !s->addSceneObjects(RobotNodeSetPtr()), "NULL is accepted", "%d", op);
        }
        else if (k == 10)
        {
            r.step("add a set");
            s->addSceneObjects(more);
            give({1, 2, 3});
            r.check(more->getSize() == 3, "adding a set changes it", "%u", more->getSize());
        }
        else if (k == 11)
        {
            r.step("add a foreign set");
            r.check(!s->addSceneObjects(foreign), "a set of another collision checker is accepted", "%d", op);
        }
        else if (k == 12)
        {
            r.step("add a node set");
            s->addSceneObjects(rns);
            give({6, 7});
        }
        else if (k == 13)
        {
            r.step("add nodes");
            s->addSceneObjects(std::vector<RobotNodePtr>({rob->getRobotNode("b"), rob->getRobotNode("j"), rob->getRobotNode("b")}));
            give({5, 6});
        }
        else if (k == 14)
        {
            r.step("remove a node");
            bool ok = s->removeSceneObject(o[6]);
            r.check(ok == has(6), "removing an object reports the wrong thing", "node: %d", (int)ok);
            m.erase(std::remove(m.begin(), m.end(), 6), m.end());
        }
        else if (k == 15)
        {
            r.step("go on with a copy");
            SceneObjectSetPtr c = s->clone("copy");
            s->removeSceneObject(o[m.empty() ? 0 : m[0]]);
            r.check(c->getName() == "copy", "a copy has another name", "%s", c->getName().c_str());
            s = c;
        }
        else if (k == 16)
        {
            r.step("add to a copy");
            SceneObjectSetPtr c = s->clone("copy");
            c->addSceneObject(o[0]);
            c->removeSceneObject(o[1]);
        }
        else
        {
            r.step("copy for another collision checker");
            std::vector<SceneObjectPtr> before = s->getSceneObjects();
            SceneObjectSetPtr c;
            try
            {
                c = s->clone("copy", other);
            }
            catch (VirtualRobotException&)
            {
                // nodes of robots cannot be copied on their own
                r.check(has(5) || has(6) || has(7), "a set cannot be copied for another collision checker", "%s", showi(m).c_str());
                r.outcome("nodes are not copied");
                continue;
            }
            r.check(c->getCollisionChecker() == other, "a copy has the wrong collision checker", "%d", op);
            std::vector<SceneObjectPtr> now = c->getSceneObjects();
            r.check(now.size() == before.size(), "a copy has lost objects", "%zu of %zu", now.size(), before.size());
            for (size_t i = 0; i < now.size(); i++)
            {
                r.check(now[i]->getName() == before[i]->getName() && now[i] != before[i], "a copy holds the wrong objects", "%zu", i);
                r.check(now[i]->getCollisionChecker() == other, "an object of a copy has the wrong collision checker", "%zu", i);
                r.check(bool(now[i]->getCollisionModel()) == bool(before[i]->getCollisionModel()), "an object of a copy has lost its collision model", "%zu", i);
                r.check((now[i]->getGlobalPose() - before[i]->getGlobalPose()).norm() < 1e-4, "an object of a copy is somewhere else", "%zu", i);
            }
        }
        // ---- compare
        r.compared();
        std::vector<SceneObjectPtr> all = s->getSceneObjects();
        std::vector<int> got = indices(o, all);
        r.check(got == m && s->getSize() == m.size(), "a set does not hold what was added and not removed", "%s, expected %s", showi(got).c_str(), showi(m).c_str());
        size_t models = 0;
        for (size_t i = 0; i < o.size(); i++)
        {
            r.check(s->hasSceneObject(o[i]) == has((int)i), "membership in a set is wrong", "%zu", i);
            if (has((int)i) && o[i]->getCollisionModel()) models++;
        }
        for (size_t i = 0; i < m.size(); i++) r.check(s->getSceneObject((unsigned)i) == o[m[i]], "an object of a set is at the wrong place", "%zu", i);
        r.check(s->getCollisionModels().size() == models, "the collision models of a set are wrong", "%zu, expected %zu", s->getCollisionModels().size(), models);
        std::map<SceneObjectPtr, Eigen::Matrix4f> cfg;
        s->getCurrentSceneObjectConfig(cfg);
        r.check(cfg.size() == m.size(), "the poses of a set are wrong", "%zu", cfg.size());
        mc::Hash h;
        for (int i : m) h.i(i);
        r.state(h);
    }
    r.outcome(strf("set of %zu", m.size()));
}

int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("kinds", perKind, 2);
    mc::suite("together", together, 2);
    mc::suite("sets", sets, 2);
    return mc::main(argc, argv);
}
