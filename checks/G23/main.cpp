// G23: grasps relate object and tool poses; grasp sets and objects hold exactly what was added and not removed.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/ManipulationObject.h>
#include <algorithm>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

static std::vector<M4> poses()
{
    std::vector<M4> p;
    const V3 ax[5] = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, 1, 1), V3(-1, 2, 0.5)};
    const double an[3] = {0.4, PI, -2.1};
    const V3 t[4] = {V3(0, 0, 0), V3(10, -20, 30), V3(-1000, 500, 250), V3(0.1, 0, 4000)};
    for (auto& x : t)
        for (auto& a : ax)
            for (double w : an) p.push_back(mk(x[0], x[1], x[2], a, w));
    p[0] = M4::Identity();
    return p;
}
static void transformations(mc::Run& r)
{
    static std::vector<M4> P = poses();
    const M4& g = P[r.choose((int)P.size(), "grasp")];
    const M4& o = P[r.choose((int)P.size(), "object")];
    r.at("transformation");
    r.step("grasp");
    Grasp gr("g", "model", "hand", f(g), "c", 0.5f, "p");
    if (r.flip("set later"))
    {
        gr.setTransformation(Eigen::Matrix4f::Identity());
        gr.setTransformation(f(o));
        gr.setTransformation(f(g));
    }
    r.check(gr.getTransformation() == f(g), "a grasp changes its transformation", "%s", show(gr.getTransformation()).c_str());
    r.compared(3);
    Eigen::Matrix4f tcp = gr.getTcpPoseGlobal(f(o));
    double d = dev(M4(o * inv(g)), tcp);
    r.check(d <= 1, "the tool pose for an object pose is wrong", "%s, expected %s", show(tcp).c_str(), show(M4(o * inv(g))).c_str());
    Eigen::Matrix4f obj = gr.getObjectTargetPoseGlobal(f(o));
    d = dev(M4(o * g), obj);
    r.check(d <= 1, "the object pose for a tool pose is wrong", "%s, expected %s", show(obj).c_str(), show(M4(o * g)).c_str());
    r.check(dev(o, gr.getObjectTargetPoseGlobal(tcp), 0.05, 5e-5) <= 1, "object and tool pose are not inverse to each other", "%s, object %s", show(gr.getObjectTargetPoseGlobal(tcp)).c_str(), show(o).c_str());
    r.check(dev(o, gr.getTcpPoseGlobal(obj), 0.05, 5e-5) <= 1, "tool and object pose are not inverse to each other", "%s, tool %s", show(gr.getTcpPoseGlobal(obj)).c_str(), show(o).c_str());
    GraspPtr c = gr.clone();
    r.check(c->getTransformation() == f(g) && c->getTcpPoseGlobal(f(o)) == tcp, "a copy of a grasp has another pose", "%s", show(c->getTransformation()).c_str());
    mc::Hash h;
    hash(h, tcp);
    hash(h, obj);
    r.state(h);
}
static void onRobot(mc::Run& r)
{
    static std::vector<M4> P = poses();
    static std::vector<Tree> T = trees();
    static std::map<std::pair<int, int>, RobotPtr> cache;
    int t = r.choose((int)T.size(), "robot"), tcp = r.choose((int)T[t].n.size(), "tcp");
    r.at("robot %d", t);
    RobotPtr& rob = cache[{t, tcp}];
    if (!rob)
    {
        rob = build(T[t], "r");
        EndEffectorPtr e(new EndEffector("hand", {}, {}, rob->getRobotNode(T[t].n[0].name), rob->getRobotNode(T[t].n[tcp].name)));
        rob->registerEndEffector(e);
    }
    Kin k(T[t]);
    k.base = r.flip("base") ? mk(200, -50, 70, V3(1, 2, -1), 1.1) : M4::Identity();
    rob->setGlobalPose(f(k.base));
    for (int j : T[t].joints())
    {
        int v = r.choose(r.thorough ? 3 : 2, "value");
        double q = v == 0 ? T[t].n[j].lo : v == 1 ? T[t].n[j].hi * 0.6 : 0.5 * (T[t].n[j].lo + T[t].n[j].hi);
        k.set(j, q);
        rob->getRobotNode(T[t].n[j].name)->setJointValue((float)q);
    }
    std::vector<M4> w = k.poses();
    r.step("target pose");
    for (int i : {1, 7, 22, 37, 59})
    {
        Grasp g("g", "model", "hand", f(P[i]));
        r.compared();
        Eigen::Matrix4f o = g.getTargetPoseGlobal(rob);
        r.check(dev(M4(w[tcp] * P[i]), o) <= 1, "the object pose of a grasp on a robot is wrong", "%s, expected %s", show(o).c_str(), show(M4(w[tcp] * P[i])).c_str());
        r.check(dev(w[tcp], g.getTcpPoseGlobal(o), 0.05, 5e-5) <= 1, "the grasp does not lead back to the tool pose of the robot", "%s", show(g.getTcpPoseGlobal(o)).c_str());
        mc::Hash h;
        hash(h, o);
        r.state(h);
    }
    Grasp other("g", "another model", "hand", f(P[1])), none("g", "model", "foot", f(P[1]));
    bool thrown = false;
    try
    {
        other.getTargetPoseGlobal(rob);
    }
    catch (VirtualRobotException&)
    {
        thrown = true;
    }
    r.check(thrown, "a grasp for another robot is accepted", "%d", t);
    r.check(none.getTargetPoseGlobal(rob) == Eigen::Matrix4f::Identity(), "a grasp for an unknown end effector yields a pose", "%d", t);
}

// ------------------------------------------------------------ grasp sets
static GraspPtr mkGrasp(int i)
{
    static std::vector<M4> P = poses();
    static const char* n[4] = {"a", "b", "a", "c"};
    GraspPtr g(new Grasp(n[i], "model", i == 3 ? "foot" : "hand", f(P[3 + 7 * i]), strf("by%d", i), 0.25f * i, i == 1 ? "open" : ""));
    std::map<std::string, float> c;
    if (i != 1) c[strf("finger%d", i)] = 0.1f * i;
    g->setConfiguration(c);
    return g;
}
// what a grasp says
static std::string say(GraspPtr g, bool shape = true)
{
    std::string s = g->getName() + "|" + g->getRobotType() + "|" + g->getEefName() + "|" + g->getCreationMethod() + strf("|%g|", g->getQuality()) + (shape ? g->getPreshapeName() : "") + "|" + show(g->getTransformation());
    for (auto& c : g->getConfiguration()) s += strf("|%s=%g", c.first.c_str(), c.second);
    return s;
}
template <class F> static bool throws(F f)
{
    try
    {
        f();
    }
    catch (VirtualRobotException&)
    {
        return true;
    }
    return false;
}
static void sets(mc::Run& r)
{
    std::vector<GraspPtr> g;
    for (int i = 0; i < 4; i++) g.push_back(mkGrasp(i));
    GraspSetPtr s(new GraspSet("set", "model", "hand"));
    GraspSetPtr more(new GraspSet("more", "model", "hand"));
    more->addGrasp(g[1]);
    more->addGrasp(g[2]);
    std::vector<int> m;
    std::vector<std::string> shape = {"", "open", "", ""};
    auto has = [&](int i) { return std::count(m.begin(), m.end(), i) > 0; };
    r.at("grasp set");
    int D = r.thorough ? 6 : 5;
    for (int op = 0; op < D; op++)
    {
        int k = r.choose(18, "operation");
        if (k == 17) break;
        if (k < 4)
        {
            // adding a duplicate or incompatible grasp is the caller's mistake (an assertion in debug builds)
            if (k == 3 || has(k)) r.prune();
            r.step("add %d", k);
            s->addGrasp(g[k]);
            m.push_back(k);
        }
        else if (k < 8)
        {
            r.step("remove %d", k - 4);
            bool ok = s->removeGrasp(g[k - 4]);
            r.check(ok == has(k - 4), "removing a grasp reports the wrong thing", "%d: %d", k - 4, (int)ok);
            m.erase(std::remove(m.begin(), m.end(), k - 4), m.end());
        }
        else if (k < 12)
        {
            r.step("remove number %d", k - 8);
            bool ok = s->removeGrasp((unsigned)(k - 8));
            r.check(ok == (k - 8 < (int)m.size()), "removing a grasp by number reports the wrong thing", "%d: %d", k - 8, (int)ok);
            if (ok) m.erase(m.begin() + (k - 8));
        }
        else if (k == 12)
        {
            r.step("remove NULL");
            r.check(!s->removeGrasp(GraspPtr()), "NULL is removed", "%d", op);
        }
        else if (k == 13)
        {
            r.step("include a set");
            s->includeGraspSet(more);
            for (int i : {1, 2})
                if (!has(i)) m.push_back(i);
            r.check(more->getSize() == 2, "including a set changes it", "%u", more->getSize());
        }
        else if (k == 14)
        {
            int how = r.choose(2, "how");
            r.step("clear %d", how);
            how ? s->clear() : s->removeAllGrasps();
            m.clear();
        }
        else if (k == 15)
        {
            r.step("set the preshape");
            std::string p = strf("shape%d", op);
            s->setPreshape(p);
            for (int i : m) shape[i] = p;
        }
        else
        {
            r.step("go on with a copy");
            GraspSetPtr c = s->clone();
            r.check(c->getName() == "set" && c->getRobotType() == "model" && c->getEndEffector() == "hand", "a copy of a set says something else", "%s", c->getName().c_str());
            r.check(c->getSize() == m.size(), "a copy of a set has lost grasps", "%u of %zu", c->getSize(), m.size());
            for (size_t i = 0; i < m.size(); i++)
            {
                r.check(c->getGrasp((unsigned)i) != g[m[i]] && say(c->getGrasp((unsigned)i)) == say(g[m[i]]), "a copy of a grasp differs", "%s, original %s", say(c->getGrasp((unsigned)i)).c_str(), say(g[m[i]]).c_str());
            }
            // the original no longer matters
            std::vector<GraspPtr> old = g;
            for (size_t i = 0; i < m.size(); i++) g[m[i]] = c->getGrasp((unsigned)i);
            s->setPreshape("spoiled");
            for (int i : m) old[i]->setTransformation(Eigen::Matrix4f::Identity());
            s->clear();
            s = c;
            more->clear();
            more->addGrasp(g[1]);
            more->addGrasp(g[2]);
        }
        // ---- compare
        r.compared();
        std::vector<GraspPtr> all = s->getGrasps();
        std::string got = "[";
        for (auto& x : all) got += strf("%d ", (int)(std::find(g.begin(), g.end(), x) - g.begin()));
        std::string want = "[";
        for (int i : m) want += strf("%d ", i);
        r.check(got == want && s->getSize() == m.size(), "a grasp set does not hold what was added and not removed", "%s], expected %s]", got.c_str(), want.c_str());
        mc::Hash h;
        for (int i = 0; i < 4; i++)
        {
            r.check(s->hasGrasp(g[i]) == has(i), "membership in a grasp set is wrong", "%d", i);
            GraspPtr x = s->getGrasp((unsigned)i);
            r.check(i < (int)m.size() ? x == g[m[i]] : !x, "a grasp is at the wrong place", "%d", i);
            r.check(g[i]->getPreshapeName() == shape[i], "a grasp has the wrong preshape", "%d: %s, expected %s", i, g[i]->getPreshapeName().c_str(), shape[i].c_str());
            r.check(say(g[i], false) == say(mkGrasp(i), false), "a grasp changes in a set", "%s, expected %s", say(g[i]).c_str(), say(mkGrasp(i)).c_str());
        }
        for (std::string n : {"a", "b", "c", "nobody"})
        {
            GraspPtr first;
            for (int i : m)
                if (!first && g[i]->getName() == n) first = g[i];
            r.check(s->hasGrasp(n) == bool(first), "a grasp is not known by its name", "%s", n.c_str());
            r.check(s->getGrasp(n) == first, "a wrong grasp is found by its name", "%s", n.c_str());
        }
        r.check(s->isCompatibleGrasp(g[0]) && !s->isCompatibleGrasp(g[3]) && !s->isCompatibleGrasp(GraspPtr(new Grasp("x", "robo", "hand", Eigen::Matrix4f::Identity()))), "compatibility of grasps is wrong", "%d", op);
        for (int i : m) h.i(i).s(shape[i]);
        r.state(h);
    }
    r.outcome(strf("set of %zu", m.size()));
}

// ------------------------------------------------------------ objects
static void objects(mc::Run& r)
{
    static const struct
    {
        const char *name, *robot, *eef;
    } D5[4] = {{"s", "model", "hand"}, {"t", "model", "foot"}, {"u", "model", "hand"}, {"s", "robo", "hand"}};
    std::vector<GraspSetPtr> gs;
    std::vector<std::vector<std::string>> held; // grasps of the sets, in order
    for (int i = 0; i < 4; i++)
    {
        GraspSetPtr s(new GraspSet(D5[i].name, D5[i].robot, D5[i].eef));
        s->addGrasp(GraspPtr(new Grasp(strf("g%d", i), D5[i].robot, D5[i].eef, f(tr(i, 0, 0)))));
        gs.push_back(s);
        held.push_back({strf("g%d", i)});
    }
    ManipulationObjectPtr o(new ManipulationObject("object"));
    M4 pose = mk(10, 20, 30, V3(1, 1, 0), 0.6);
    o->setGlobalPose(f(pose));
    std::vector<int> m;
    auto has = [&](int i) { return std::count(m.begin(), m.end(), i) > 0; };
    auto match = [&](int i, const std::string& rb, const std::string& e) { return rb == D5[i].robot && e == D5[i].eef; };
    r.at("object");
    int extra = 0;
    int D = r.thorough ? 5 : 4;
    for (int op = 0; op < D; op++)
    {
        int k = r.choose(13, "operation");
        if (k == 12) break;
        if (k < 4)
        {
            r.step("add set %d", k);
            bool t = throws([&] { o->addGraspSet(gs[k]); });
            r.check(t == has(k), has(k) ? "a grasp set is added twice" : "a grasp set is refused", "%d", k);
            if (!has(k)) m.push_back(k);
        }
        else if (k < 7)
        {
            static const int W[3] = {0, 1, 3};
            int w = W[k - 4];
            r.step("include grasps for %s/%s", D5[w].robot, D5[w].eef);
            GraspSetPtr x(new GraspSet("extra", D5[w].robot, D5[w].eef));
            std::string n = strf("extra%d", extra++);
            x->addGrasp(GraspPtr(new Grasp(n, D5[w].robot, D5[w].eef, f(tr(0, extra, 0)))));
            int cand = 0;
            for (int i : m) cand += match(i, D5[w].robot, D5[w].eef);
            bool t = throws([&] { o->includeGraspSet(x); });
            r.check(t == (cand == 0), "including grasps is refused or accepted wrongly", "%d candidates", cand);
            // one of the sets for that end effector takes them
            int taken = 0;
            for (int i : m)
                if (gs[i]->hasGrasp(n))
                {
                    taken++;
                    held[i].push_back(n);
                    r.check(match(i, D5[w].robot, D5[w].eef), "grasps are included in a set for another end effector", "%d", i);
                }
            r.check(taken == (cand ? 1 : 0), "included grasps get lost or are doubled", "%d", taken);
            r.check(x->getSize() == 1, "including a set changes it", "%u", x->getSize());
        }
        else if (k == 7)
        {
            r.step("NULL");
            r.check(throws([&] { o->addGraspSet(GraspSetPtr()); }), "a NULL grasp set is accepted", "%d", op);
            r.check(throws([&] { o->includeGraspSet(GraspSetPtr()); }), "a NULL grasp set is included", "%d", op);
        }
        else if (k == 8)
        {
            r.step("move");
            pose = M4(pose * mk(5, 0, 0, V3(0, 0, 1), 0.3));
            o->setGlobalPose(f(pose));
        }
        else if (k == 9 || k == 10)
        {
            r.step(k == 9 ? "go on with a copy" : "spoil a copy");
            ManipulationObjectPtr c = o->clone("copy");
            r.check(c->getName() == "copy", "a copy has another name", "%s", c->getName().c_str());
            std::vector<GraspSetPtr> all = c->getAllGraspSets();
            r.check(all.size() == m.size(), "a copy has lost grasp sets", "%zu of %zu", all.size(), m.size());
            for (size_t i = 0; i < m.size(); i++) r.check(all[i] != gs[m[i]], "a copy shares a grasp set", "%zu", i);
            if (k == 9)
            {
                for (size_t i = 0; i < m.size(); i++)
                {
                    gs[m[i]]->clear();
                    gs[m[i]] = all[i];
                }
                o->setGlobalPose(Eigen::Matrix4f::Identity());
                o = c;
            }
            else
            {
                for (auto& s : all) s->clear();
                c->setGlobalPose(Eigen::Matrix4f::Identity());
            }
        }
        else
        {
            r.step("add to set 0");
            std::string n = strf("later%d", extra++);
            gs[0]->addGrasp(GraspPtr(new Grasp(n, "model", "hand", f(tr(0, 0, extra)))));
            held[0].push_back(n);
        }
        // ---- compare
        r.compared();
        std::vector<GraspSetPtr> all = o->getAllGraspSets();
        bool same = all.size() == m.size();
        for (size_t i = 0; same && i < m.size(); i++) same = all[i] == gs[m[i]];
        r.check(same, "an object does not hold the grasp sets added", "%zu, expected %zu", all.size(), m.size());
        mc::Hash h;
        for (int i = 0; i < 4; i++)
        {
            r.check(o->hasGraspSet(gs[i]) == has(i), "a grasp set of an object is not known", "%d", i);
            std::vector<std::string> got;
            for (auto& x : gs[i]->getGrasps()) got.push_back(x->getName());
            r.check(got == held[i], "the grasps of a set of an object are wrong", "set %d: %zu, expected %zu", i, got.size(), held[i].size());
            if (has(i)) h.i(i).i((long long)held[i].size());
        }
        for (std::string rb : {"model", "robo"})
            for (std::string e : {"hand", "foot"})
            {
                GraspSetPtr x = o->getGraspSet(rb, e);
                bool any = false, right = false;
                for (int i : m)
                    if (match(i, rb, e))
                    {
                        any = true;
                        right = right || x == gs[i];
                    }
                r.check(bool(x) == any && right == any && o->hasGraspSet(rb, e) == any, "grasps for an end effector are not found or wrong", "%s/%s", rb.c_str(), e.c_str());
            }
        for (std::string n : {"s", "t", "u", "nobody"})
        {
            GraspSetPtr x = o->getGraspSet(n);
            bool any = false, right = false;
            for (int i : m)
                if (D5[i].name == n)
                {
                    any = true;
                    right = right || x == gs[i];
                }
            r.check(bool(x) == any && right == any, "a grasp set is not found by its name", "%s", n.c_str());
        }
        r.check(dev(pose, o->getGlobalPose()) <= 1, "an object is somewhere else", "%s, expected %s", show(o->getGlobalPose()).c_str(), show(pose).c_str());
        r.state(h);
    }
    r.outcome(strf("object with %zu sets", m.size()));
}

int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("transformations", transformations, 2);
    mc::suite("robot", onRobot, 2);
    mc::suite("sets", sets, 2);
    mc::suite("objects", objects, 2);
    return mc::main(argc, argv);
}
