#include "random.h"
#include "simox.h"
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/ConstrainedHierarchicalIK.h>
#include <VirtualRobot/IK/ConstrainedStackedIK.h>
#include <VirtualRobot/IK/DifferentialIK.h>
#include <VirtualRobot/IK/GazeIK.h>
#include <VirtualRobot/IK/GenericIKSolver.h>
#include <VirtualRobot/IK/HierarchicalIKSolver.h>
#include <VirtualRobot/IK/constraints/BalanceConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Workspace/Reachability.h>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

static std::vector<Tree> family()
{
    std::vector<Tree> v = trees();
    for (auto& t : v)
        for (size_t i = 0; i < t.n.size(); i++)
        {
            t.n[i].mass = 1.0 + 0.7 * (double)((i * 3) % 5);
            t.n[i].com = V3(10. * ((int)i % 3) - 12, 25 - 9. * (double)i, 7 + 3. * (double)(i * i % 4));
        }
    return v;
}
struct World
{
    Tree t;
    RobotPtr r;
    std::vector<int> joints;
    std::vector<RobotNodePtr> nodes;
    Kin k;
    explicit World(const Tree& tree, const BuildOpt& o = BuildOpt()) : t(tree), r(build(tree, "rob", o)), joints(tree.joints()), k(tree)
    {
        for (auto& n : t.n) nodes.push_back(r->getRobotNode(n.name));
        k.base = mk(120, -40, 60, V3(1, 1, -2), 0.6);
        r->setGlobalPose(f(k.base));
    }
    RobotNodeSetPtr set(const std::vector<int>& ids, const std::string& name, int tcp = -1)
    {
        std::vector<RobotNodePtr> v;
        for (int i : ids) v.push_back(nodes[i]);
        return RobotNodeSet::createRobotNodeSet(r, name, v, RobotNodePtr(), tcp < 0 ? RobotNodePtr() : nodes[tcp]);
    }
    void apply()
    {
        std::map<RobotNodePtr, float> m;
        for (int i : joints) m[nodes[i]] = (float)k.q[i];
        r->setGlobalPose(f(k.base));
        r->setJointValues(m);
    }
    Kin now()
    {
        Kin n = k;
        // a pose constraint on the root node may move the whole robot
        n.base = r->getGlobalPose().cast<double>();
        for (int i : joints) n.q[i] = nodes[i]->getJointValue();
        return n;
    }
    double value(int i, double frac) const
    {
        const Node& n = t.n[i];
        return n.lo + (n.hi - n.lo) * frac;
    }
    void grid(mc::Run& run, int nv, int maxJoints = 3)
    {
        for (size_t i = 0; i < joints.size(); i++)
        {
            int v = (int)i < maxJoints ? run.choose(nv, "start value") : (int)i % nv;
            k.q[joints[i]] = value(joints[i], (v + 0.2 + 0.1 * (double)(i % 5)) / nv);
        }
        apply();
    }
    // what an attempt left must be finite, within the limits, and the other joints where they were
    void sane(mc::Run& run, const std::vector<int>& used, const std::string& what)
    {
        mc::Hash h;
        h.s(t.name);
        for (int i : joints)
        {
            double v = nodes[i]->getJointValue();
            const Node& n = t.n[i];
            h.f(v, 1e-3);
            run.check(v == v && std::isfinite(v), "joint value is not a number", "%s: joint %s", what.c_str(), n.name.c_str());
            run.check(v >= n.lo - 1e-5 - 1e-5 * std::fabs(n.lo) && v <= n.hi + 1e-5 + 1e-5 * std::fabs(n.hi), "joint limits", "%s: joint %s is at %g, limits %g %g", what.c_str(), n.name.c_str(), v, n.lo, n.hi);
            bool u = false;
            for (int x : used) u = u || x == i;
            if (!u) run.check(std::fabs(v - k.q[i]) < 1e-4 * (1 + std::fabs(v)), "a joint outside the joint set moved", "%s: joint %s from %g to %g", what.c_str(), n.name.c_str(), k.q[i], v);
        }
        run.state(h);
    }
};
static double posErr(const M4& goal, const M4& is, int mode)
{
    double s = 0;
    for (int i = 0; i < 3; i++)
        if (mode & (1 << i)) s += std::pow(goal(i, 3) - is(i, 3), 2);
    return std::sqrt(s);
}
static double rotErr(const M4& goal, const M4& is)
{
    M3 R = goal.block<3, 3>(0, 0) * is.block<3, 3>(0, 0).transpose();
    V3 v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
    return std::atan2(v.norm() / 2, (R.trace() - 1) / 2);
}
static void solution(mc::Run& run, const M4& goal, const M4& is, int mode, double tp, double tr_, const std::string& what)
{
    run.compared();
    double p = posErr(goal, is, mode), r = (mode & 8) ? rotErr(goal, is) : 0;
    run.check(p <= tp + 0.01, "success without reaching the position", "%s: %g mm away, tolerance %g", what.c_str(), p, tp);
    run.check(r <= tr_ + 0.002, "success without reaching the orientation", "%s: %g rad away, tolerance %g", what.c_str(), r, tr_);
}
static std::vector<M4> goals(const World& w, int tip, bool more)
{
    std::vector<M4> g;
    auto reachable = [&](int c) {
        Kin k = w.k;
        for (size_t i = 0; i < w.joints.size(); i++) k.q[w.joints[i]] = w.value(w.joints[i], 0.2 + 0.15 * ((c * 2 + (int)i * 3) % 5));
        g.push_back(k.poses()[tip]);
    };
    for (int c = 0; c < 3; c++) reachable(c);
    M4 now = w.k.poses()[tip];
    g.push_back(now * mk(12, -8, 5, V3(1, 0, 0), 0.05));
    g.push_back(now * mk(0, 0, 0, V3(0, 1, 0), 0.3));
    g.push_back(tr(5000, 0, 0) * now);
    g.push_back(now);
    g.push_back(now * mk(2, 1, -1, V3(0, 1, 1), -0.03));
    for (int c = 3; more && c < 5; c++) reachable(c);
    return g;
}
static const IKSolver::CartesianSelection SEL[6] = {IKSolver::X, IKSolver::Y, IKSolver::Z, IKSolver::Position, IKSolver::Orientation, IKSolver::All};
static const JacobiProvider::InverseJacobiMethod INV[3] = {JacobiProvider::eSVD, JacobiProvider::eSVDDamped, JacobiProvider::eTranspose};

static void differential(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    int ti = run.choose((int)fam.size(), "tree"), variant = run.choose(3, "variant");
    World w(fam[ti]);
    w.grid(run, run.thorough ? 5 : 3);
    int last = (int)w.t.n.size() - 1;
    std::vector<int> ids = w.joints;
    if (variant == 1)
    {
        ids.erase(ids.begin());   // a subset, default tool centre point
        if (ids.empty()) run.prune();
    }
    int tip = variant == 1 ? ids.back() : last;
    RobotNodeSetPtr rns = w.set(ids, "set", variant == 1 ? -1 : last);
    RobotNodePtr frame = variant == 2 ? w.nodes[0] : RobotNodePtr();
    auto gs = goals(w, tip, run.thorough);
    int second = w.joints[w.joints.size() / 2];
    for (size_t gi = 0; gi < gs.size(); gi++)
        for (int s = 0; s < 6; s++)
        {
            if (variant == 2 && s < 3) continue;   // the coordinates of the frame: see J26
            for (int im = 0; im < 3; im++)
                for (int fast = 0; fast < 2; fast++)
                {
                    const double tp = fast ? 5 : 0.5, tro = fast ? 0.05 : 0.01;
                    w.apply();
                    DifferentialIK ik(rns, frame, INV[im]);
                    if (im == 1) ik.setDampedSvdLambda(0.5);
                    ik.setGoal(f(gs[gi]), variant == 1 ? SceneObjectPtr() : SceneObjectPtr(w.nodes[tip]), SEL[s], (float)tp, (float)tro);
                    ik.checkImprovements(fast == 1);
                    if (im == 0 && fast) ik.setMaxPositionStep(40);
                    std::string what = w.t.name + strf(" variant %d goal %zu selection %d inverse %d fast %d", variant, gi, s, im, fast);
                    run.step("solve");
                    // the errors it reports are the errors
                    M4 p0 = w.now().poses()[tip];
                    SceneObjectPtr at = w.nodes[tip];
                    run.check(std::fabs(ik.getErrorPosition(at) - posErr(gs[gi], p0, SEL[s])) < 0.02 + 1e-4 * posErr(gs[gi], p0, 7), "reported position error", "%s: %g instead of %g", what.c_str(), ik.getErrorPosition(at), posErr(gs[gi], p0, SEL[s]));
                    if (rotErr(gs[gi], p0) < 3) run.check(std::fabs(ik.getErrorRotation(at) - (SEL[s] & 8 ? rotErr(gs[gi], p0) : 0)) < 0.002, "reported orientation error", "%s: %g", what.c_str(), ik.getErrorRotation(at));
                    if (tip == last || variant == 1)
                    {
                        run.check(std::fabs(ik.getErrorPosition() - ik.getErrorPosition(at)) < 1e-6, "reported position error of the default tool centre point", "%s: %g instead of %g", what.c_str(), ik.getErrorPosition(), ik.getErrorPosition(at));
                        run.check(std::fabs(ik.getErrorRotation() - ik.getErrorRotation(at)) < 1e-6, "reported orientation error of the default tool centre point", "%s: %g instead of %g", what.c_str(), ik.getErrorRotation(), ik.getErrorRotation(at));
                    }
                    bool ok = ik.solveIK(fast ? 0.9f : 0.3f, 0.0f, fast ? 20 : 40);
                    run.outcome(ok ? "solved" : "failed");
                    w.sane(run, ids, what);
                    M4 p = w.now().poses()[tip];
                    run.check(ik.checkTolerances() == ok || !ok, "tolerances after success", "%s", what.c_str());
                    if (ok) solution(run, gs[gi], p, SEL[s], tp, tro, what);
                    else if (gi == 6 && variant != 2 && im == 0) run.fail("the goal is where the tool already is, but the solver fails", "%s", what.c_str());
                    // another goal for another node on the same solver: both must hold
                    if (im == 0 && (gi % 2) == 0 && variant == 0 && fast)
                    {
                        w.apply();
                        M4 g2 = w.k.poses()[second] * mk(4, -3, 2, V3(0, 0, 1), 0.1);
                        for (int far = 0; far < 2; far++)
                        {
                            if (far) g2 = tr(0, 3000, 0) * g2;
                            ik.setGoal(f(g2), w.nodes[second], IKSolver::Position, (float)tp, (float)tro);
                            bool ok2 = ik.solveIK(0.5f, 0.0f, 25);
                            w.sane(run, ids, what);
                            auto ps = w.now().poses();
                            if (ok2)
                            {
                                solution(run, gs[gi], ps[tip], SEL[s], tp, tro, what + " (first of two)");
                                solution(run, g2, ps[second], 7, tp, tro, what + " (second of two)");
                            }
                            double m = (posErr(gs[gi], ps[tip], SEL[s]) + posErr(g2, ps[second], 7)) / 2;
                            run.check(std::fabs(ik.getMeanErrorPosition() - m) < 0.02 + 1e-4 * m, "mean error", "%s: %g instead of %g", what.c_str(), ik.getMeanErrorPosition(), m);
                        }
                    }
                }
        }
}

// ------------------------------------------------------------------ generic solver, restarts, obstacles, grasps
static void generic(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    static const int which[3] = {0, 3, 4};
    int ti = which[run.choose(3, "tree")];
    int kind = run.choose(5, "kind"); // plain, obstacle, no-update, reachability, grasps
    BuildOpt o;
    o.meshes = kind == 1;
    World w(fam[ti], o);
    int start = run.choose(run.thorough ? 4 : 2, "start");
    for (size_t i = 0; i < w.joints.size(); i++) w.k.q[w.joints[i]] = w.value(w.joints[i], 0.15 + 0.2 * ((start * 2 + (int)i) % 4));
    w.apply();
    int tip = (int)w.t.n.size() - 1;
    RobotNodeSetPtr rns = w.set(w.joints, "set", tip);
    auto gs = goals(w, tip, false);
    int gi = run.choose((int)gs.size(), "goal");
    int s = 3 + run.choose(3, "selection");
    int loops = 1 + run.choose(run.thorough ? 3 : 2, "restarts");
    int answers = 0;
    // the answers of the random source: values of the joints at a restart (the first ones are enumerated)
    g_random = [&]() -> double {
        if (++answers > (run.thorough ? 6 : 4)) return 0.37;
        return 0.12 + 0.35 * run.choose(3, "random");
    };
    g_rand = [&]() -> int { return run.choose(2, "random grasp"); };
    struct Reset
    {
        ~Reset()
        {
            g_random = nullptr;
            g_rand = nullptr;
        }
    } reset;
    const double tp = 2, tro = 0.03;
    GenericIKSolver ik(rns);
    ik.setMaximumError((float)tp, (float)tro);
    ik.setupJacobian(0.5f, 15);
    std::string what = w.t.name + strf(" kind %d start %d goal %d selection %d restarts %d", kind, start, gi, s, loops);
    if (kind == 0)
    {
        bool ok = ik.solve(f(gs[gi]), SEL[s], loops);
        w.sane(run, w.joints, what);
        run.outcome(ok ? "solved" : "failed");
        if (ok) solution(run, gs[gi], w.now().poses()[tip], SEL[s], tp, tro, what);
        if (!ok && gi == 6) run.fail("the goal is where the tool already is, but the solver fails", "%s", what.c_str());
    }
    else if (kind == 1)
    {
        // an obstacle around the goal, around the elbow, or away
        int place = run.choose(3, "obstacle");
        M4 at = place == 0 ? gs[gi] : place == 1 ? w.k.poses()[w.joints[1]] : M4(tr(0, 0, -4000));
        ObstaclePtr ob(new Obstacle("ob", visu(boxPts(60, 60, 4)), colmodel(boxPts(60, 60, 4), "ob")));
        ob->setGlobalPose(f(at));
        int via = run.choose(3, "registered as");
        CDManagerPtr cdm(new CDManager());
        SceneObjectSetPtr set(new SceneObjectSet("obs"));
        set->addSceneObject(ob);
        if (via == 0) ik.collisionDetection(ob);
        else if (via == 1) ik.collisionDetection(set);
        else
        {
            cdm->addCollisionModel(ob);
            cdm->addCollisionModel(rns);
            ik.collisionDetection(cdm);
        }
        bool ok = ik.solve(f(gs[gi]), SEL[s], loops);
        w.sane(run, w.joints, what);
        run.outcome(ok ? "solved without collision" : "failed");
        if (ok)
        {
            solution(run, gs[gi], w.now().poses()[tip], SEL[s], tp, tro, what);
            auto ps = w.now().poses();
            for (int i : w.joints)
            {
                V4 c = inv(at) * ps[i].col(3);
                run.check(std::max(std::fabs(c[0]) / 30, std::max(std::fabs(c[1]) / 30, std::fabs(c[2]) / 2)) > 0.99, "success in collision", "%s obstacle %d: node %s is inside the obstacle", what.c_str(), place, w.t.n[i].name.c_str());
            }
        }
    }
    else if (kind == 2)
    {
        std::vector<float> r = ik.solveNoRNSUpdate(f(gs[gi]), SEL[s]);
        for (int i : w.joints) run.check(std::fabs(w.nodes[i]->getJointValue() - w.k.q[i]) < 1e-4 * (1 + std::fabs(w.k.q[i])), "the joints moved", "%s: %s", what.c_str(), w.t.n[i].name.c_str());
        run.outcome(r.empty() ? "failed" : "solved");
        if (!r.empty())
        {
            run.check(r.size() == w.joints.size(), "size of the solution", "%s", what.c_str());
            Kin k = w.k;
            for (size_t i = 0; i < r.size(); i++)
            {
                k.q[w.joints[i]] = r[i];
                const Node& n = w.t.n[w.joints[i]];
                run.check(r[i] >= n.lo - 1e-4 && r[i] <= n.hi + 1e-4, "joint limits of the returned solution", "%s: %g", what.c_str(), r[i]);
            }
            solution(run, gs[gi], k.poses()[tip], SEL[s], tp, tro, what);
        }
    }
    else if (kind == 3)
    {
        // nothing is known to be reachable
        ReachabilityPtr re(new Reachability(w.r));
        float lo[6] = {-1000, -1000, -1000, -4, -4, -4}, hi[6] = {1000, 1000, 1000, 4, 4, 4};
        re->initialize(rns, 400, 2, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), w.t.n[0].kind == 'F' ? w.nodes[0] : RobotNodePtr(), w.nodes[tip]);
        bool some = run.flip("something reachable");
        if (some)
        {
            re->addCurrentTCPPose();
        }
        ik.setReachabilityCheck(re);
        bool can = re->isReachable(f(gs[gi]));
        run.check(some || !can, "empty reachability", "%s", what.c_str());
        bool ok = ik.solve(f(gs[gi]), SEL[s], loops);
        w.sane(run, w.joints, what);
        run.outcome(std::string(ok ? "solved" : "failed") + (can ? " reachable" : " unreachable"));
        run.check(can || !ok, "success for a pose that is not reachable", "%s", what.c_str());
        if (ok) solution(run, gs[gi], w.now().poses()[tip], SEL[s], tp, tro, what);
        if (!can)
            for (int i : w.joints) run.check(std::fabs(w.nodes[i]->getJointValue() - w.k.q[i]) < 1e-4 * (1 + std::fabs(w.k.q[i])), "the joints moved", "%s: %s", what.c_str(), w.t.n[i].name.c_str());
    }
    else
    {
        // grasps of an object: 0, 1 or 2 grasps, reachable or not
        EndEffectorPtr eef(new EndEffector("eef", std::vector<EndEffectorActorPtr>(), std::vector<RobotNodePtr>(), w.nodes[w.joints[0]], w.nodes[tip]));
        bool haveEEF = run.choose(2, "end effector") == 0;
        if (haveEEF) w.r->registerEndEffector(eef);
        ManipulationObjectPtr ob(new ManipulationObject("ob"));
        M4 op = mk(300, -200, 100, V3(1, 0, 2), 0.7);
        ob->setGlobalPose(f(op));
        int ng = run.choose(4, "grasps") - 1; // -1: no grasp set
        GraspSetPtr set(new GraspSet("gs", w.r->getType(), "eef"));
        std::vector<M4> at = {gs[gi], gs[5], gs[0]};
        std::vector<GraspPtr> grasps;
        for (int i = 0; i < ng; i++)
        {
            M4 m = inv(at[i]) * op;   // tool pose = object pose * inverse(grasp)
            GraspPtr g(new Grasp(strf("g%d", i), w.r->getType(), "eef", f(m)));
            set->addGrasp(g);
            grasps.push_back(g);
        }
        if (ng >= 0) ob->addGraspSet(set);
        bool single = ng > 0 && run.flip("one grasp given");
        if (single)
        {
            bool ok = ik.solve(ob, grasps[0], SEL[s], loops);
            w.sane(run, w.joints, what);
            run.outcome(ok ? "grasp solved" : "failed");
            if (ok) solution(run, at[0], w.now().poses()[tip], SEL[s], tp, tro, what);
            else
                for (int i : w.joints) run.check(std::fabs(w.nodes[i]->getJointValue() - w.k.q[i]) < 1e-4 * (1 + std::fabs(w.k.q[i])), "the joints moved", "%s: %s", what.c_str(), w.t.n[i].name.c_str());
        }
        else
        {
            GraspPtr g = ik.solve(ob, SEL[s], loops);
            w.sane(run, w.joints, what);
            run.outcome(g ? "grasp found" : "no grasp");
            if (!haveEEF || ng <= 0) run.check(!g, "a grasp was found, but there is none", "%s", what.c_str());
            if (g)
            {
                int idx = -1;
                for (int i = 0; i < ng; i++)
                    if (g->getName() == strf("g%d", i)) idx = i;
                run.check(idx >= 0, "unknown grasp", "%s", what.c_str());
                solution(run, at[idx], w.now().poses()[tip], SEL[s], tp, tro, what);
            }
            if (ng >= 0) run.check(ob->getGraspSet(eef) && (int)ob->getGraspSet(eef)->getSize() == ng, "the object lost grasps", "%s", what.c_str());
        }
    }
}

// ------------------------------------------------------------------ gaze
static void gaze(mc::Run& run)
{
    Tree t;
    t.name = "head";
    const V3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
    t.n = {F("base", -1, tr(0, 0, 0)), R("yaw", 0, tr(0, 0, 300), Z, -1.5, 1.5), R("pitch", 1, tr(20, 0, 40), Y, -0.9, 0.9), P("gaze", 2, tr(0, 0, 60), X, 0, 2000)};
    World w(t);
    w.grid(run, 3, 2);
    bool jla = run.flip("joint limit avoidance");
    int loops = 1 + run.choose(run.thorough ? 3 : 2, "restarts");
    int answers = 0;
    g_random = [&]() -> double {
        if (++answers > 4) return 0.4;
        return 0.1 + 0.4 * run.choose(3, "random");
    };
    struct Reset
    {
        ~Reset()
        {
            g_random = nullptr;
        }
    } reset;
    RobotNodeSetPtr rns = w.set(w.joints, "gaze", 3);
    RobotNodePrismaticPtr virt = boost::dynamic_pointer_cast<RobotNodePrismatic>(w.nodes[3]);
    GazeIK ik(rns, virt);
    ik.enableJointLimitAvoidance(jla);
    static const double P5[6][3] = {{900, 200, 500}, {600, -900, 100}, {-900, 50, 400}, {300, 10, 1800}, {4000, 0, 0}, {130, 0, 380}};
    int gi = run.choose(6, "goal");
    V4 gl(P5[gi][0], P5[gi][1], P5[gi][2], 1);
    V4 g = w.k.base * gl;
    const double tp = gi % 2 ? 5 : 1;
    ik.setup((float)tp, loops, 15);
    Eigen::Vector3f gf = g.head<3>().cast<float>();
    bool ok = ik.solve(gf, 0.6f);
    std::string what = strf("gaze goal %d", gi);
    w.sane(run, w.joints, what);
    run.outcome(ok ? "gaze solved" : "gaze failed");
    run.step("gaze");
    if (ok) solution(run, M4(tr(g[0], g[1], g[2])), w.now().poses()[3], 7, tp, 1, what);
    if (gi == 4) run.check(!ok, "a point out of reach", "%s", what.c_str());
}

// ------------------------------------------------------------------ constraint based solvers
static V3 ownRpyClampedError(const M4& rel, const Eigen::Matrix<float, 6, 2>& b, V3& pos)
{
    double y = std::atan2(rel(1, 0), rel(0, 0)), p = std::atan2(-rel(2, 0), std::hypot(rel(0, 0), rel(1, 0))), r = std::atan2(rel(2, 1), rel(2, 2));
    double v[6] = {rel(0, 3), rel(1, 3), rel(2, 3), r, p, y}, t[6];
    for (int i = 0; i < 6; i++) t[i] = v[i] < b(i, 0) ? b(i, 0) : v[i] > b(i, 1) ? b(i, 1) : v[i];
    pos = V3(v[0] - t[0], v[1] - t[1], v[2] - t[2]);
    M3 T = rot3(V3(0, 0, 1), t[5]) * rot3(V3(0, 1, 0), t[4]) * rot3(V3(1, 0, 0), t[3]);
    M4 a = M4::Identity();
    a.block<3, 3>(0, 0) = T;
    return V3(rotErr(a, rel), 0, 0);
}
struct Goal
{
    ConstraintPtr c;
    bool hard;
    std::function<double()> ratio;   // error relative to the tolerance: satisfied when <= 1
    double slack;
    std::string name;
};
static double plateIndex(const Eigen::Vector3d& com, double cx, double cy, double sx_, double sy_)
{
    double d = std::min(sx_ / 2 - std::fabs(com[0] - cx), sy_ / 2 - std::fabs(com[1] - cy));
    if (d <= 0) return 0;
    double c = std::min(sx_, sy_) / 2;
    return std::min(1.0, d / c);
}
static V3 comOf(const Kin& k)
{
    auto p = k.poses();
    V3 c(0, 0, 0);
    double m = 0;
    for (size_t i = 0; i < p.size(); i++)
    {
        V4 x(k.t.n[i].com[0], k.t.n[i].com[1], k.t.n[i].com[2], 1);
        V4 g = p[i] * x;
        c += k.t.n[i].mass * g.head<3>();
        m += k.t.n[i].mass;
    }
    return V3(c / m);
}
static Goal makeGoal(World& w, RobotNodeSetPtr rns, int kind, const M4& g, int tip, double tp, double tro, std::vector<boost::shared_ptr<void>>& keep)
{
    Goal r;
    r.hard = true;
    r.slack = 1 + std::max(0.01 / tp, 0.002 / tro);
    World* wp = &w;
    if (kind < 3)
    {
        IKSolver::CartesianSelection s = SEL[3 + kind];
        r.c.reset(new PoseConstraint(w.r, rns, w.nodes[tip], f(g), s, (float)tp, (float)tro));
        r.ratio = [=] {
            M4 p = wp->now().poses()[tip];
            return std::max(posErr(g, p, s) / tp, (s & 8) ? rotErr(g, p) / tro : 0);
        };
        r.name = strf("pose selection %d", (int)s);
    }
    else if (kind < 6)
    {
        Eigen::Matrix<float, 6, 2> b = Eigen::Matrix<float, 6, 2>::Zero();
        if (kind == 4) b << -30, 30, -10, 50, -20, 0, -4, 4, -4, 4, -4, 4;
        if (kind == 5) b << -4000, 4000, -4000, 4000, -4000, 4000, 0, 0, -4, 4, -4, 4;
        M4 off = kind == 4 ? mk(20, -10, 5, V3(1, 0, 1), 0.4) : M4(M4::Identity());
        if (kind == 5) b.block<3, 2>(3, 0).setZero();
        r.c.reset(new TSRConstraint(w.r, rns, w.nodes[tip], f(g), f(off), b, (float)tp, (float)tro));
        r.ratio = [=] {
            V3 pos, a = ownRpyClampedError(inv(g) * wp->now().poses()[tip] * off, b, pos);
            return std::max(pos.norm() / tp, a[0] / tro);
        };
        r.name = strf("region %d", kind);
    }
    else
    {
        std::vector<int> all;
        for (size_t i = 0; i < w.t.n.size(); i++) all.push_back((int)i);
        static int n = 0;
        RobotNodeSetPtr bodies = w.set(all, strf("bodies%d", ++n));
        V3 c0 = comOf(w.k);
        double cx = c0[0] + 25, cy = c0[1] - 8, sx_ = 80, sy_ = 60, minimum = 0.4;
        Pts plate = boxPts(sx_, sy_, 4, cx, cy, 2);
        ObstaclePtr o(new Obstacle("plate", visu(plate), colmodel(plate, "plate")));
        SceneObjectSetPtr contact(new SceneObjectSet("contact"));
        contact->addSceneObject(o);
        keep.push_back(o);
        r.c.reset(new BalanceConstraint(w.r, rns, bodies, contact, 0.1f, (float)minimum, 10.f, false, false));
        r.ratio = [=] {
            double s = plateIndex(comOf(wp->now()), cx, cy, sx_, sy_);
            return s > 0 ? minimum / s : 1e9;
        };
        r.slack = 1.01;
        r.name = "balance";
    }
    return r;
}
static void constrained(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    static const int which[3] = {0, 3, 4};
    World w(fam[which[run.choose(3, "tree")]]);
    w.grid(run, run.thorough ? 3 : 2);
    int tip = (int)w.t.n.size() - 1;
    RobotNodeSetPtr rns = w.set(w.joints, "set", tip);
    auto gs = goals(w, tip, false);
    int solver = run.choose(2, "solver");
    int a = run.choose(7, "constraint"), b = run.choose(4, "second constraint");   // none, soft pose, hard far pose, balance
    bool stepwise = run.flip("stepwise");
    for (size_t gi : {(size_t)0, (size_t)3, (size_t)5, (size_t)6})
        for (int tight = 0; tight < 2; tight++)
        {
            w.apply();
            std::vector<boost::shared_ptr<void>> keep;
            const double tp = tight ? 0.4 : 4, tro = tight ? 0.01 : 0.2;
            std::vector<Goal> cs;
            cs.push_back(makeGoal(w, rns, a, gs[gi], tip, tp, tro, keep));
            if (b == 1)
            {
                cs.push_back(makeGoal(w, rns, 0, gs[1], w.joints[0], tp, tro, keep));
                cs.back().hard = false;
            }
            else if (b == 2)
                cs.push_back(makeGoal(w, rns, 0, gs[5], tip, tp, tro, keep));
            else if (b == 3)
                cs.push_back(makeGoal(w, rns, 6, gs[gi], tip, tp, tro, keep));
            ConstrainedIKPtr ik;
            if (solver == 0) ik.reset(new ConstrainedStackedIK(w.r, rns, 0.4f, 25, JacobiProvider::eSVD));
            else
                ik.reset(new ConstrainedHierarchicalIK(w.r, rns, 0.4f, 25));
            for (size_t i = 0; i < cs.size(); i++) ik->addConstraint(cs[i].c, (int)(cs.size() - i), cs[i].hard);
            std::string what = w.t.name + strf(" solver %d goal %zu tight %d: ", solver, gi, tight) + cs[0].name + (cs.size() > 1 ? " and " + cs[1].name : "");
            run.check(ik->initialize(), "initialize", "%s", what.c_str());
            bool ok;
            int steps = 0;
            if (stepwise)
            {
                do ok = ik->solve(true);
                while (ik->getRunning() && ++steps < 60);
                run.check(!ik->getRunning(), "still running", "%s", what.c_str());
            }
            else
                ok = ik->solve();
            run.step("constrained solve");
            run.outcome(ok ? "solved" : "failed");
            w.sane(run, w.joints, what);
            run.compared();
            for (auto& c : cs)
            {
                double r = c.ratio();
                if (ok && c.hard) run.check(r <= c.slack, "success with a hard constraint that does not hold", "%s: %s misses its tolerance %g times", what.c_str(), c.name.c_str(), r);
            }
        }
}

// every tolerance test at errors just inside and just outside
static void tolerances(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    World w(fam[run.choose((int)fam.size(), "tree")]);
    w.grid(run, run.thorough ? 3 : 2, 2);
    int tip = (int)w.t.n.size() - 1;
    RobotNodeSetPtr rns = w.set(w.joints, "set", tip);
    const double tp = 4, tro = 0.1;
    M4 p = w.k.poses()[tip];
    static const double off[6] = {-40, -4.5, -3.5, 0, 3.5, 4.5};
    V3 d(off[run.choose(6, "dx")], off[run.choose(6, "dy")], off[run.choose(6, "dz")]);
    static const double an[4] = {0, 0.09, 0.11, -1};
    double angle = an[run.choose(4, "angle")];
    for (int ax = 0; ax < 3; ax++)
    {
        V3 axis(0, 0, 0);
        axis[ax] = 1;
        if (ax == 1) axis = V3(1, -1, 2).normalized();
        M4 g = M4::Identity();
        g.block<3, 3>(0, 0) = rot3(axis, angle) * p.block<3, 3>(0, 0);
        g.block<3, 1>(0, 3) = p.block<3, 1>(0, 3) + d;
        auto expect = [&](const std::string& name, bool got, double ratio) {
            run.compared();
            run.step("tolerance");
            if (std::fabs(ratio - 1) < 0.03) return;
            run.check(got == (ratio < 1), "tolerance test: " + name, "%s offset %s angle %g: %s, the error is %g times the tolerance", w.t.name.c_str(), showv(d).c_str(), angle, got ? "accepted" : "refused", ratio);
        };
        for (int s = 0; s < 6; s++)
        {
            double pr = posErr(g, p, SEL[s] & 7) / tp, rr = SEL[s] & 8 ? std::fabs(angle) / tro : 0;
            PoseConstraint c(w.r, rns, w.nodes[tip], f(g), SEL[s], (float)tp, (float)tro);
            expect(strf("pose constraint selection %d", s), c.checkTolerances(), std::max(pr, rr));
            DifferentialIK ik(rns);
            ik.setGoal(f(g), w.nodes[tip], SEL[s], (float)tp, (float)tro);
            expect(strf("differential solver selection %d", s), ik.checkTolerances(), std::max(pr, rr));
            PositionConstraint pc(w.r, rns, w.nodes[tip], f(g).block<3, 1>(0, 3), SEL[s], (float)tp);
            expect(strf("position constraint selection %d", s), pc.checkTolerances(), pr);
            OrientationConstraint oc(w.r, rns, w.nodes[tip], f(g).block<3, 3>(0, 0), SEL[s], (float)tro);
            expect(strf("orientation constraint selection %d", s), oc.checkTolerances(), rr);
        }
        {
            Eigen::Matrix<float, 6, 2> b = Eigen::Matrix<float, 6, 2>::Zero();
            TSRConstraint c(w.r, rns, w.nodes[tip], f(g), f(M4::Identity()), b, (float)tp, (float)tro);
            expect("task space region", c.checkTolerances(), std::max(d.norm() / tp, std::fabs(angle) / tro));
            // a region that allows the offset
            for (int i = 0; i < 3; i++)
            {
                b(i, 0) = -100;
                b(i, 1) = 100;
            }
            TSRConstraint c2(w.r, rns, w.nodes[tip], f(g), f(M4::Identity()), b, (float)tp, (float)tro);
            expect("task space region with free position", c2.checkTolerances(), std::fabs(angle) / tro);
        }
    }
    {
        std::vector<int> all;
        for (size_t i = 0; i < w.t.n.size(); i++) all.push_back((int)i);
        RobotNodeSetPtr bodies = w.set(all, "all");
        V3 c = comOf(w.k);
        Eigen::Vector3f t3 = (c + d).cast<float>();
        Eigen::Vector2f t2 = t3.head(2);
        CoMConstraint a(w.r, rns, bodies, t3, (float)tp), b(w.r, rns, bodies, t2, (float)tp);
        CoMIK i3(rns, bodies, RobotNodePtr(), 3), i2(rns, bodies, RobotNodePtr(), 2);
        i3.setGoal(t3, (float)tp);
        i2.setGoal(t2, (float)tp);
        double r3 = d.norm() / tp, r2 = std::hypot(d[0], d[1]) / tp;
        bool got[4] = {a.checkTolerances(), b.checkTolerances(), i3.checkTolerances(), i2.checkTolerances()};
        double want[4] = {r3, r2, r3, r2};
        for (int i = 0; i < 4; i++)
            if (std::fabs(want[i] - 1) > 0.02) run.check(got[i] == (want[i] < 1), "tolerance test: centre of mass", "%s offset %s: %s, the error is %g times the tolerance", w.t.name.c_str(), showv(d).c_str(), got[i] ? "accepted" : "refused", want[i]);
        if (angle == 0)
        {
            double sx_ = 80, sy_ = 50, mi = 0.5;
            Pts plate = boxPts(sx_, sy_, 4, c[0] + d[0], c[1] + 3 * d[1], 2);
            ObstaclePtr o(new Obstacle("plate", visu(plate), colmodel(plate, "plate")));
            SceneObjectSetPtr contact(new SceneObjectSet("contact"));
            contact->addSceneObject(o);
            BalanceConstraint bc(w.r, rns, bodies, contact, 0.1f, (float)mi, 10.f, false, false);
            double s = plateIndex(c, c[0] + d[0], c[1] + 3 * d[1], sx_, sy_);
            if (std::fabs(s - mi) > 0.01) run.check(bc.checkTolerances() == (s >= mi), "tolerance test: balance", "%s offset %s: stability is %g", w.t.name.c_str(), showv(d).c_str(), s);
        }
    }
}

// centre of mass solver, and the hierarchical solver with both
static void others(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    int ti = run.choose((int)fam.size(), "tree");
    World w(fam[ti]);
    w.grid(run, run.thorough ? 4 : 3);
    int tip = (int)w.t.n.size() - 1;
    RobotNodeSetPtr rns = w.set(w.joints, "set", tip);
    std::vector<int> all;
    for (size_t i = 0; i < w.t.n.size(); i++) all.push_back((int)i);
    RobotNodeSetPtr bodies = w.set(all, "all");
    auto gs = goals(w, tip, false);
    V3 c0 = comOf(w.k);
    Kin k1 = w.k;
    for (size_t i = 0; i < w.joints.size(); i++) k1.q[w.joints[i]] = w.value(w.joints[i], 0.3 + 0.1 * (double)i);
    std::vector<V3> cg = vec<V3>({c0, V3(c0 + V3(10, -5, 4)), comOf(k1), V3(c0 + V3(4000, 0, 0))});
    for (size_t ci = 0; ci < cg.size(); ci++)
        for (int dim = 2; dim <= 3; dim++)
            for (int frame = 0; frame < 2; frame++)
            {
                if (frame && dim == 2) continue;
                const double tol = ci % 2 ? 1 : 5;
                CoMIK ik(rns, bodies, frame ? w.nodes[0] : RobotNodePtr(), dim);
                Eigen::VectorXf g = cg[ci].cast<float>().head(dim);
                ik.setGoal(g, (float)tol);
                std::string what = w.t.name + strf(" centre of mass goal %zu dimension %d", ci, dim);
                auto error = [&] {
                    V3 d = comOf(w.now()) - cg[ci];
                    return dim == 2 ? std::hypot(d[0], d[1]) : d.norm();
                };
                w.apply();
                ik.checkImprovements(ci == 2);
                bool ok = ik.solveIK(0.4f, 0.0f, 30);
                run.step("centre of mass");
                w.sane(run, w.joints, what);
                run.outcome(ok ? "solved" : "failed");
                run.compared();
                if (ok) run.check(error() <= tol + 0.02, "success without reaching the centre of mass", "%s: %g mm away", what.c_str(), error());
                if (frame) continue;
                for (int gi : {0, 3, 5, 6})
                    for (int order = 0; order < 2; order++)
                    {
                        w.apply();
                        boost::shared_ptr<DifferentialIK> dik(new DifferentialIK(rns));
                        IKSolver::CartesianSelection s = SEL[3 + (gi + (int)ci) % 3];
                        dik->setGoal(f(gs[gi]), w.nodes[tip], s, 3.f, 0.05f);
                        boost::shared_ptr<CoMIK> cik(new CoMIK(rns, bodies, RobotNodePtr(), dim));
                        cik->setGoal(g, (float)tol);
                        HierarchicalIKSolver h(rns);
                        if (order) h.addIK(cik);
                        h.addIK(dik);
                        if (!order) h.addIK(cik);
                        bool ok = h.solveIK(0.4f, 0.0f, 20);
                        run.step("hierarchical");
                        w.sane(run, w.joints, what + " hierarchical");
                        run.outcome(ok ? "hierarchical solved" : "hierarchical failed");
                        if (ok)
                        {
                            run.check(error() <= tol + 0.02, "hierarchical success without reaching the centre of mass", "%s: %g mm away", what.c_str(), error());
                            solution(run, gs[gi], w.now().poses()[tip], s, 3, 0.05, what + strf(" hierarchical goal %d", gi));
                        }
                    }
            }
}

int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("differential", differential, 4);
    mc::suite("generic", generic, 5);
    mc::suite("gaze", gaze, 4);
    mc::suite("constrained", constrained, 4);
    mc::suite("tolerances", tolerances, 4);
    mc::suite("others", others, 3);
    return mc::main(argc, argv);
}
