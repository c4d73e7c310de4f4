// P10: what the planners return joins the requested start and goal and is valid, whatever the random decisions.
#include "../../mc/mc.h"
#include "../../mc/plan2d.h"
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/IK/AdvancedIKSolver.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <MotionPlanning/Planner/BiRrt.h>
#include <MotionPlanning/Planner/GraspIkRrt.h>
#include <MotionPlanning/Planner/Rrt.h>

static void checkTrees(mc::Run& r, const Env& e, CSpaceTreePtr t, const char* name)
{
    for (auto& n : t->getNodes())
    {
        if (n->parentID < 0) continue;
        CSpaceNodePtr q = t->getNode(n->parentID);
        r.check(bool(q), "a node of a tree has no parent", "%s: %u", name, n->ID);
        double in = longestInside(e, vec<VX>({n->configuration, q->configuration}));
        r.check(in <= DCD * 1.02 + 1e-4, "an edge of a tree passes through an obstacle or a violated constraint", "%s: %.4g in one piece", name, in);
    }
}
struct PubRrt : public Rrt
{
    using Rrt::Rrt;
};

// decisions of the random source for the planners
struct Decide
{
    mc::Run& r;
    const Env& e;
    bool single;                        // first decision of a cycle is goal or sample
    std::vector<VX> samples;
    std::vector<double> pending;
    std::function<void()> before;       // called before every decision
    std::vector<int> script;            // fixed decisions (0 goal, i sample i)
    size_t used = 0;
    int cycles = 0;
    bool lastInvalid = false;
    std::string log;
    Decide(mc::Run& run, const Env& env, bool s) : r(run), e(env), single(s) {}
    double frac(const VX& c, int i)
    {
        if (i == 0 && e.wrap) return (c[0] + PI) / (2 * PI);
        return c[i] / 4;
    }
    double operator()()
    {
        if (!pending.empty())
        {
            double v = pending.back();
            pending.pop_back();
            return v;
        }
        if (before) before();
        int k;
        if (used < script.size()) k = script[used++];
        else
        {
            int n = (int)samples.size() + (single ? 1 : 0);
            // an invalid sample is drawn again at once by the planners that ask for valid ones
            if (lastInvalid && !single)
            {
                std::vector<int> good;
                for (size_t i = 0; i < samples.size(); i++)
                    if (Space::ok(e, samples[i], 2)) good.push_back((int)i + 1);
                k = good[r.choose((int)good.size(), "next sample")];
            }
            else k = r.choose(n, "random decision") + (single ? 0 : 1);
        }
        log += strf("%s%d", log.empty() ? "" : ",", k);
        if (k == 0) return 0.0;
        const VX& c = samples[k - 1];
        lastInvalid = !Space::ok(e, c, 2);
        pending = {frac(c, 1), frac(c, 0)};
        if (single) return 0.999;
        double v = pending.back();
        pending.pop_back();
        return v;
    }
};
struct Guard
{
    ~Guard()
    {
        g_random = nullptr;
        g_rand = nullptr;
        g_tick = 0;
    }
};
static void hashTree(mc::Hash& h, CSpaceTreePtr t)
{
    for (auto& n : t->getNodes()) h.i(n->parentID).f(n->configuration[0]).f(n->configuration[1]);
}
static const char* MODE[3] = {"extend", "connect", "complete"};

// ---- one planning run, every random decision
static void plans(mc::Run& r)
{
    Guard g;
    bool two = r.flip("two trees");
    const Env& e = r.pick(envs(), "layout");
    int m1 = r.choose(3, "mode"), m2 = two ? r.choose(3, "mode of the second tree") : 0;
    int pair = r.choose(4, "start and goal");
    float step = r.flip("step") ? 1.6f : -1;
    static const int PS[4][2] = {{0, 1}, {1, 0}, {2, 1}, {0, 2}};
    VX start = e.at[PS[pair][0]], goal = e.at[PS[pair][1]];
    int cycles = r.thorough ? 4 : (two ? 2 : 3);
    int abort = r.choose(3, "nothing, stop request or timeout");
    SpacePtr s = space(e);
    boost::shared_ptr<Rrt> p;
    if (two) p.reset(new BiRrt(s, (Rrt::RrtMethod)m1, (Rrt::RrtMethod)m2, step));
    else p.reset(new Rrt(s, (Rrt::RrtMethod)m1, 0.3f, step));
    p->setMaxCycles(cycles);
    Decide d(r, e, !two);
    d.samples = e.at;
    if (two) d.samples.push_back(e.wrap ? v2(-0.9, 3.0) : v2(3.7, 1.1));
    int stopAt = -1, decisions = 0;
    if (abort)
    {
        if (pair > 1 || (two && m2 != 1)) r.prune();
        stopAt = r.choose(cycles, "when") + 1;
    }
    bool stopped = false;
    d.before = [&] {
        decisions++;
        if (abort == 1 && decisions == stopAt && !stopped) stopped = true, p->stopExecution();
        if (abort == 2 && decisions == stopAt) g_tick = 50 * 1000;
    };
    if (abort == 2) p->setPlanningTimeout(10);
    bool vis = r.choose(2, "visualisation") == 0;
    if (!vis && (pair || step > 0)) r.prune();
    s->getRobot()->setUpdateVisualization(vis);
    r.check(p->setStart(start) && p->setGoal(goal), "a valid start or goal is refused", "%s", e.name);
    r.check(p->isInitialized(), "a planner with start and goal is not initialised", "%s", e.name);
    g_random = [&] { return d(); };
    r.at("%s planning in %s", two ? "two tree" : "one tree", e.name);
    r.step("%s %s %s/%s in %s from %s to %s, step %g, %d cycles", abort == 1 ? "stopped" : abort == 2 ? "timed out" : "plain", two ? "BiRrt" : "Rrt", MODE[m1], two ? MODE[m2] : "-", e.name, showv(start).c_str(), showv(goal).c_str(), step, cycles);
    bool ok = p->plan(true);
    g_random = nullptr;
    g_tick = 0;
    r.note("decisions %s", d.log.c_str());
    r.compared();
    r.check(s->getRobot()->getUpdateVisualizationStatus() == vis, "planning changes the visualisation setting of the robot", "%s: %d", e.name, (int)vis);
    r.check((int)p->getNrOfCycles() <= cycles, "a planner exceeds its cycle limit", "%u", p->getNrOfCycles());
    if (stopAt > 0) r.check((int)p->getNrOfCycles() <= stopAt, "a planner goes on after a stop request or timeout", "%u cycles, %d", p->getNrOfCycles(), stopAt);
    CSpacePathPtr sol = p->getSolution();
    if (ok) r.check(bool(sol), "success without a solution", "%s", e.name);
    if (sol) checkPath(r, e, sol, start, &goal, ok ? "after success" : "after failure");
    r.check(p->getStartConfig() == start && p->getGoalConfig() == goal, "planning changes start or goal", "%s", e.name);
    checkTrees(r, e, p->getTree(), "tree");
    mc::Hash h;
    hashTree(h, p->getTree());
    if (two)
    {
        auto b = boost::dynamic_pointer_cast<BiRrt>(p);
        checkTrees(r, e, b->getTree2(), "second tree");
        hashTree(h, b->getTree2());
    }
    r.state(h);
    r.outcome(strf("%s %s", two ? "two trees" : "one tree", ok ? strf("solved in %u", p->getNrOfCycles()).c_str() : sol ? "failed, earlier solution" : "failed"));
    // a clear straight way has to be found at once when the planner tries it first
    std::vector<std::pair<double, double>> iv;
    inside(e, start, goal, 0, iv);
    if (!two && !abort && iv.empty() && d.log.size() && d.log[0] == '0')
    {
        if (m1 != 0) r.check(ok && p->getNrOfCycles() == 1, "a clear straight way to the goal is not found", "%s %s", e.name, MODE[m1]);
        double len = sol ? sol->getLength() : 0;
        if (m1 != 0) r.check(std::fabs(len - dist(e, start, goal)) < 1e-3, "a clear straight way is not taken straight", "%g for %g", len, dist(e, start, goal));
    }
    if (!two && !abort && m1 == 0 && iv.empty())
    {
        float st = step > 0 ? step : SS;
        int need = (int)std::ceil(dist(e, start, goal) / st - 1e-4);
        bool all = true;
        for (int i = 0; i < need; i++) all = all && (size_t)(2 * i) < d.log.size() && d.log[2 * i] == '0';
        if (all && need <= cycles) r.check(ok, "growing straight to the goal does not arrive", "%s: %d steps", e.name, need);
    }
    if (two && !abort && m1 != 0 && m2 != 0)
    {
        // a first sample that sees both ends joins the trees
        int k = d.log.empty() ? 0 : d.log[0] - '0';
        if (k > 0)
        {
            const VX& c = d.samples[k - 1];
            std::vector<std::pair<double, double>> a, b;
            inside(e, start, c, 0, a);
            inside(e, c, goal, 0, b);
            bool distinct = dist(e, c, start) > 1e-3 && dist(e, c, goal) > 1e-3;
            if (a.empty() && b.empty() && Space::ok(e, c, 2) && distinct) r.check(ok && p->getNrOfCycles() == 1, "two trees that see the same configuration are not joined", "%s, sample %s", e.name, showv(c).c_str());
        }
    }
}

// ---- a planner is used again and again
static void history(mc::Run& r)
{
    Guard g;
    int kind = r.choose(4, "planner");
    // the usual beginning is only one case
    const Env& e = r.pick(std::vector<const Env*>({&envs()[1], &envs()[4], &envs()[2]}), "layout")[0];
    SpacePtr s = space(e);
    boost::shared_ptr<Rrt> p;
    if (kind == 0) p.reset(new Rrt(s, Rrt::eConnect, 0.3f));
    if (kind == 1) p.reset(new Rrt(s, Rrt::eExtend, 0.3f, 2.5f));
    if (kind == 2) p.reset(new BiRrt(s, Rrt::eConnect, Rrt::eConnect));
    if (kind == 3) p.reset(new BiRrt(s, Rrt::eExtend, Rrt::eExtend, 2.0f));
    bool two = kind >= 2;
    VX bad = e.wrap ? v2(0.1, 1) : e.constraint >= 0 ? v2(1.9, 1.5) : v2(1.9, 1.0), far = v2(1, 5.0);
    p->setMaxCycles(2);
    VX start, goal;
    bool sv = false, gv = false, solved = false;
    Decide d(r, e, !two);
    d.samples = vec<VX>({e.at[3], e.at[2]});
    int D = r.thorough ? 5 : 4;
    bool ready = r.flip("start and goal first");
    if (e.constraint >= 0 && (kind == 1 || kind == 3)) r.prune();
    for (int op = ready ? -2 : 0; op < D; op++)
    {
        int k = op == -2 ? 0 : op == -1 ? 2 : r.choose(11, "operation");
        if (k == 10) break;
        if (k == 0 || k == 1)
        {
            start = e.at[k == 0 ? 0 : 2];
            r.step("start %s", showv(start).c_str());
            sv = p->setStart(start);
            r.check(sv, "a valid start is refused", "%s", showv(start).c_str());
            solved = false;
        }
        else if (k == 2 || k == 3)
        {
            goal = e.at[k == 2 ? 1 : 3];
            r.step("goal %s", showv(goal).c_str());
            gv = p->setGoal(goal);
            r.check(gv, "a valid goal is refused", "%s", showv(goal).c_str());
            solved = false;
        }
        else if (k == 4)
        {
            start = op % 2 ? bad : far;
            r.step("start %s", showv(start).c_str());
            r.check(!p->setStart(start), "an invalid start is accepted", "%s", showv(start).c_str());
            sv = false;
            solved = false;
        }
        else if (k == 5)
        {
            goal = op % 2 ? far : bad;
            r.step("goal %s", showv(goal).c_str());
            r.check(!p->setGoal(goal), "an invalid goal is accepted", "%s", showv(goal).c_str());
            gv = false;
            solved = false;
        }
        else if (k == 6 || k == 7)
        {
            p->setPlanningTimeout(k == 7 ? -1.f : 1e9f);
            g_random = [&] { return d(); };
            d.log.clear();
            d.pending.clear();
            r.at("plan again");
            bool ok = p->plan(true);
            g_random = nullptr;
            r.step("plan%s: %s -> %d", k == 7 ? " without time" : "", d.log.c_str(), (int)ok);
            r.check(!ok || (sv && gv), "success without a valid start and goal", "%d %d", (int)sv, (int)gv);
            solved = ok;
            if (ok) r.check(bool(p->getSolution()), "success without a solution", "%s", e.name);
        }
        else if (k == 8)
        {
            r.step("reset");
            p->reset();
            sv = gv = false;
            g_random = nullptr;
            solved = false;
            r.check(p->getTree()->getNrOfNodes() == 0, "a reset planner keeps its tree", "%u", p->getTree()->getNrOfNodes());
        }
        else
        {
            r.step("look");
        }
        r.compared();
        r.check(p->isInitialized() == (sv && gv), "initialised state is wrong", "%d, expected %d", (int)p->isInitialized(), (int)(sv && gv));
        r.check(s->getRobot()->getUpdateVisualizationStatus(), "planning changes the visualisation setting of the robot", "history");
        // the solution is looked at now or only later
        if (k == 9 || op == D - 1)
        {
            r.at("get solution");
            CSpacePathPtr sol = p->getSolution();
            if (solved) r.check(bool(sol), "the solution is lost", "op %d", op);
            if (sol)
            {
                r.check(sv && gv, "a solution without a valid start and goal", "%d %d", (int)sv, (int)gv);
                checkPath(r, e, sol, start, &goal, "in a history");
            }
        }
        mc::Hash h;
        h.i(sv).i(gv).i(solved).i(kind);
        hashTree(h, p->getTree());
        r.state(h);
    }
}

// ---- goals sampled from grasps
struct XY : public AdvancedIKSolver
{
    mc::Run& r;
    int tried = 0;
    XY(RobotNodeSetPtr s, mc::Run& run) : AdvancedIKSolver(s), r(run) {}
    bool solve(const Eigen::Matrix4f& m, CartesianSelection, int) override
    {
        tried++;
        VX v(2);
        v << m(0, 3), m(1, 3);
        if (v[0] < -5) return false;
        std::vector<RobotNodePtr> n = rns->getAllRobotNodes();
        rns->getRobot()->setJointValues(rns, v);
        return v[0] <= 4 && v[1] <= 4;   // the joints stop at their limits
    }
    bool solve(const Eigen::Vector3f&) override
    {
        return false;
    }
    using AdvancedIKSolver::solve;
};
static void grasps(mc::Run& r)
{
    Guard g;
    const Env& e = envs()[r.choose(4, "layout")];
    SpacePtr s = space(e);
    Eigen::Matrix4f op = f(tr(0.3, -0.2, 0));
    ManipulationObjectPtr o(new ManipulationObject("o"));
    o->setGlobalPose(op);
    GraspSetPtr gs(new GraspSet("s", "rob", "eef"));
    // reachable, reachable elsewhere, in collision, outside of the limits, unreachable
    std::vector<VX> targets = vec<VX>({e.at[1], e.at[2], e.boxes.empty() ? v2(2, 9) : v2((std::max(0., e.boxes[0].lo[0]) + std::min(4., e.boxes[0].hi[0])) / 2, (std::max(0., e.boxes[0].lo[1]) + std::min(4., e.boxes[0].hi[1])) / 2), v2(9, 9), v2(-9, 0)});
    int use = r.choose(3, "grasps");
    std::vector<int> which = use == 0 ? std::vector<int>{0, 1} : use == 1 ? std::vector<int>{2, 0, 4} : std::vector<int>{3, 4};
    for (int i : which)
    {
        // tcp pose = object pose * inverse of the grasp transformation
        M4 want = tr(targets[i][0], targets[i][1], 0);
        Eigen::Matrix4f T = f(inv(want) * M4(op.cast<double>()));
        gs->addGrasp(GraspPtr(new Grasp(strf("g%d", i), "rob", "eef", T)));
    }
    boost::shared_ptr<XY> ik(new XY(s->getRobotNodeSet(), r));
    GraspIkRrt p(s, o, ik, gs, 0.5f);
    int cycles = r.thorough ? 5 : 4;
    p.setMaxCycles(cycles);
    Decide d(r, e, true);
    d.samples = vec<VX>({e.at[3], e.at[4]});
    VX start = e.at[0];
    int rounds = 1 + r.choose(3, "again");  // 1 once, 2 reset and again, 3 new start and again
    for (int k = 0; k < (rounds > 1 ? 2 : 1); k++)
    {
        if (k && rounds == 2) p.reset();
        if (k && rounds == 3) start = e.at[3];
        if (!k || rounds == 2 || rounds == 3) r.check(p.setStart(start), "a valid start is refused", "%s", e.name);
        if (rounds > 1) p.setMaxCycles(cycles - 1);
        int timeout = rounds == 1 ? r.choose(2, "timeout") : 0;
        if (timeout) p.setPlanningTimeout(-1);
        // the goal decision draws one number, a random extension draws one number and a configuration
        bool inSample = false;
        g_random = [&]() -> double {
            if (inSample || !d.pending.empty())
            {
                inSample = false;
                if (!d.pending.empty()) return d();
            }
            // before the first solution the number is not looked at
            if (boost::dynamic_pointer_cast<CSpaceTree>(p.getTree2())->getNrOfNodes() == 0) return 0.0;
            return d();
        };
        // a valid sample is demanded: a rejected one is followed by the valid one
        d.samples = vec<VX>({e.at[3]});
        if (Space::ok(e, e.at[4], 2)) d.samples.push_back(e.at[4]);
        g_rand = [&] { return r.choose((int)which.size(), "grasp"); };
        r.at("grasp planning in %s", e.name);
        bool ok = p.plan(true);
        g_random = nullptr;
        g_rand = nullptr;
        r.step("plan from %s in %s with %zu grasps: %s -> %d", showv(start).c_str(), e.name, which.size(), d.log.c_str(), (int)ok);
        r.compared();
        r.check(s->getRobot()->getUpdateVisualizationStatus(), "planning changes the visualisation setting of the robot", "grasp planner");
        CSpacePathPtr sol = p.getSolution();
        if (ok) r.check(bool(sol), "success without a solution", "%s", e.name);
        if (sol)
        {
            checkPath(r, e, sol, start, nullptr, "grasp planner");
            VX end = sol->getPoint(sol->getNrOfPoints() - 1);
            bool hit = false;
            for (int i : which)
                if (i < 2 && dist(e, end, targets[i]) < 1e-3) hit = true;
            r.check(hit, "the end of the solution is no valid solution for a grasp", "%s", showv(end).c_str());
        }
        if (use == 2) r.check(!ok, "success without a reachable grasp", "%s", e.name);
        mc::Hash h;
        hashTree(h, p.getTree());
        hashTree(h, p.getTree2());
        r.state(h);
        r.outcome(ok ? "grasp reached" : "no grasp");
    }
}

// ---- the pool of nodes is nearly empty
static void pools(mc::Run& r)
{
    Guard g;
    const Env& e = envs()[r.choose(2, "layout")];
    bool two = r.flip("two trees");
    int mode = r.choose(3, "mode");
    int n = 2 + r.choose(9, "nodes");
    SpacePtr s = space(e, n);
    boost::shared_ptr<Rrt> p;
    if (two) p.reset(new BiRrt(s, (Rrt::RrtMethod)mode, (Rrt::RrtMethod)mode));
    else p.reset(new Rrt(s, (Rrt::RrtMethod)mode, 0.3f));
    p->setMaxCycles(3);
    Decide d(r, e, !two);
    d.samples = vec<VX>({e.at[3], e.at[2]});
    VX start = e.at[0], goal = e.at[1];
    r.check(p->setStart(start) && p->setGoal(goal), "a valid start or goal is refused", "%d nodes", n);
    g_random = [&] { return d(); };
    r.at("planning with a pool of few nodes");
    bool ok = false, out = false;
    try
    {
        ok = p->plan(true);
    }
    catch (VirtualRobot::VirtualRobotException&)
    {
        out = true;
    }
    g_random = nullptr;
    r.step("%s %s in %s with %d nodes: %s -> %d", two ? "BiRrt" : "Rrt", MODE[mode], e.name, n, d.log.c_str(), (int)ok);
    r.compared();
    CSpacePathPtr sol = p->getSolution();
    if (ok) r.check(bool(sol), "success without a solution", "%d nodes", n);
    if (sol) checkPath(r, e, sol, start, &goal, "small pool");
    checkTrees(r, e, p->getTree(), "tree");
    mc::Hash h;
    hashTree(h, p->getTree());
    r.state(h);
    r.outcome(ok ? "solved with few nodes" : out ? "out of nodes" : "not solved with few nodes");
    // the planner is still usable
    p->reset();
    if (n < 10) return;
    r.check(p->setStart(goal) && p->setGoal(start), "a planner cannot be used again after it ran out of nodes", "%d", n);
}

// ---- real bodies and a real obstacle
static void bodies(mc::Run& r)
{
    Guard g;
    RobotPtr rob = robot(false, true);
    rob->setUpdateVisualization(true);
    static ObstaclePtr o;
    if (!o) o.reset(new Obstacle("wall", visu(boxPts(8, 50, 30)), colmodel(boxPts(8, 50, 30), "wall")));
    o->setGlobalPose(f(tr(42, 10, 0)));
    RobotNodeSetPtr link = rob->getRobotNodeSet("link");
    if (!link) link = RobotNodeSet::createRobotNodeSet(rob, "link", {rob->getRobotNode("j1")}, rob->getRobotNode("base"), rob->getRobotNode("j1"), true);
    CDManagerPtr cdm(new CDManager(rob->getCollisionChecker()));
    cdm->addCollisionModelPair(SceneObjectPtr(o), SceneObjectSetPtr(link));
    static const Env real = {"bodies", false, {{{33, -20}, {51, 40}}}, -1, {}};
    CSpaceSampledPtr s(new CSpaceSampled(rob, cdm, rob->getRobotNodeSet("all"), 2000));
    s->setSamplingSize(10);
    s->setSamplingSizeDCD(2);
    std::vector<VX> at = vec<VX>({v2(10, 12), v2(70, 15), v2(12, 66), v2(44, 60), v2(75, 44), v2(30, 28)});
    int a = r.choose((int)at.size(), "start"), b = r.choose((int)at.size(), "goal");
    if (a == b) r.prune();
    bool two = r.flip("two trees");
    int mode = r.choose(3, "mode");
    boost::shared_ptr<Rrt> p;
    if (two) p.reset(new BiRrt(s, (Rrt::RrtMethod)mode, (Rrt::RrtMethod)mode, 40));
    else p.reset(new Rrt(s, (Rrt::RrtMethod)mode, 0.3f, 40));
    p->setMaxCycles(2);
    Decide d(r, real, !two);
    for (int i = 2; i < 5; i++) d.samples.push_back(v2(at[i][0] / 20, at[i][1] / 20));
    r.check(p->setStart(at[a]) && p->setGoal(at[b]), "a valid start or goal is refused", "bodies");
    g_random = [&] { return d(); };
    r.at("planning with bodies");
    bool ok = p->plan(true);
    g_random = nullptr;
    r.step("%s %s among bodies %s to %s: %s -> %d", two ? "BiRrt" : "Rrt", MODE[mode], showv(at[a]).c_str(), showv(at[b]).c_str(), d.log.c_str(), (int)ok);
    r.compared();
    CSpacePathPtr sol = p->getSolution();
    if (ok) r.check(bool(sol), "success without a solution", "bodies");
    if (sol)
    {
        std::vector<VX> pts;
        for (unsigned i = 0; i < sol->getNrOfPoints(); i++) pts.push_back(sol->getPoint(i));
        r.check(dist(real, pts[0], at[a]) < 1e-3 && dist(real, pts.back(), at[b]) < 1e-3, "a solution does not join start and goal", "bodies");
        double in = longestInside(real, pts);
        r.check(in <= 2 * 1.02 + 1e-3, "a solution passes through a body", "%.4g in one piece", in);
    }
    mc::Hash h;
    hashTree(h, p->getTree());
    r.state(h);
    r.outcome(ok ? "solved among bodies" : "not solved among bodies");
}

int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("plans", plans, 3);
    mc::suite("history", history, 4);
    mc::suite("grasps", grasps, 3);
    mc::suite("pools", pools, 3);
    mc::suite("bodies", bodies, 3);
    return mc::main(argc, argv);
}
