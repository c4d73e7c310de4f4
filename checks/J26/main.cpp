#include "simox.h"
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/DifferentialIK.h>
#include <VirtualRobot/IK/SupportPolygon.h>
#include <VirtualRobot/IK/constraints/BalanceConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

static std::vector<Tree> family()
{
    std::vector<Tree> v = trees();
    for (auto& t : v)
        for (size_t i = 0; i < t.n.size(); i++)
        {
            t.n[i].mass = 1.0 + 0.7 * (double)((i * 3) % 5);
            t.n[i].com = V3(10. * ((int)i % 3) - 12, 25 - 9. * (double)i, 7 + 3. * (double)(i * i % 4));
            if (i == 2) t.n[i].mass = 0;
        }
    v[0].n[4].sensor = true;
    v[3].n[1].sensor = true;
    return v;
}

struct World
{
    Tree t;
    RobotPtr r;
    std::vector<int> joints;
    std::vector<RobotNodePtr> nodes;
    Kin k;
    explicit World(const Tree& tree) : t(tree), r(build(tree)), joints(tree.joints()), k(tree)
    {
        for (auto& n : t.n) nodes.push_back(r->getRobotNode(n.name));
    }
    RobotNodeSetPtr set(const std::vector<int>& ids, const std::string& name, int tcp = -1)
    {
        std::vector<RobotNodePtr> v;
        for (int i : ids) v.push_back(nodes[i]);
        return RobotNodeSet::createRobotNodeSet(r, name, v, RobotNodePtr(), tcp < 0 ? RobotNodePtr() : nodes[tcp]);
    }
    void apply()
    {
        r->setGlobalPose(f(k.base), false);
        std::map<RobotNodePtr, float> m;
        for (int i : joints) m[nodes[i]] = (float)k.q[i];
        r->setJointValues(m);
        for (int i : joints) k.q[i] = nodes[i]->getJointValue();
    }
};
// every configuration with nv values per joint
static void configuration(mc::Run& run, World& w, int nv, size_t maxJoints = 5)
{
    static const M4 bases[2] = {mk(300, -120, 40, V3(1, 2, -1), 0.8), M4::Identity()};
    w.k = Kin(w.t);
    w.k.base = bases[run.thorough ? run.choose(2, "base") : w.joints.size() % 2];
    for (size_t i = 0; i < w.joints.size(); i++)
    {
        const Node& n = w.t.n[w.joints[i]];
        int v = i < maxJoints ? run.choose(nv, "value") : 1;
        double a = n.lo, b = n.hi;
        w.k.q[w.joints[i]] = a + (b - a) * (v + 0.1 + 0.17 * ((v * 3) % 5)) / nv + 0.013 * (double)i;
    }
    w.apply();
    mc::Hash h;
    h.s(w.t.name);
    for (int i : w.joints) h.f(w.k.q[i], 1e-3);
    h.f(w.k.base(0, 3));
    run.state(h);
}
// numeric derivative of poses of all nodes with respect to joint i of the model (6 rows: position, rotation vector), world frame
static std::vector<Eigen::Matrix<double, 6, 1>> dposes(const Kin& k, int i, const std::vector<M4>& off = std::vector<M4>())
{
    const double h = k.t.n[i].kind == 'R' ? 1e-5 : 1e-2;
    Kin a = k, b = k;
    a.q[i] -= h;
    b.q[i] += h;
    auto pa = a.poses(), pb = b.poses(), p = k.poses();
    std::vector<Eigen::Matrix<double, 6, 1>> r(p.size());
    for (size_t n = 0; n < p.size(); n++)
    {
        M4 A = pa[n], B = pb[n];
        if (n < off.size())
        {
            A = A * off[n];
            B = B * off[n];
        }
        r[n].head<3>() = (B.block<3, 1>(0, 3) - A.block<3, 1>(0, 3)) / (2 * h);
        M3 d = B.block<3, 3>(0, 0) * A.block<3, 3>(0, 0).transpose();
        r[n].tail<3>() = V3(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)) / 2 / (2 * h);
    }
    return r;
}
static void compare(mc::Run& run, const std::string& sig, const MX& want, const Eigen::MatrixXf& got, double scale, const std::string& what, double tol = 2e-4)
{
    run.compared();
    if (got.rows() != want.rows() || got.cols() != want.cols()) run.fail(sig + " size", "%s: %dx%d instead of %dx%d", what.c_str(), (int)got.rows(), (int)got.cols(), (int)want.rows(), (int)want.cols());
    for (int i = 0; i < want.rows(); i++)
        for (int j = 0; j < want.cols(); j++)
        {
            double e = std::fabs((double)got(i, j) - want(i, j));
            if (!(e <= 1e-4 + tol * scale)) run.fail(sig, "%s: entry (%d,%d) is %g, the derivative is %g", what.c_str(), i, j, got(i, j), want(i, j));
        }
}

static const int MODES[15] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
static std::vector<int> modeRows(int mode)
{
    std::vector<int> r;
    if (mode & IKSolver::X) r.push_back(0);
    if (mode & IKSolver::Y) r.push_back(1);
    if (mode & IKSolver::Z) r.push_back(2);
    if (mode & IKSolver::Orientation)
        for (int i = 3; i < 6; i++) r.push_back(i);
    return r;
}
static std::vector<std::vector<int>> jointSets(const Tree& t)
{
    std::vector<int> all, joints = t.joints(), rev(joints.rbegin(), joints.rend()), every;
    for (size_t i = 0; i < t.n.size(); i++) all.push_back((int)i);
    for (size_t i = 0; i < joints.size(); i += 2) every.push_back(joints[i]);
    std::vector<int> tail(joints.begin() + 1, joints.end());
    return {all, joints, rev, every, tail};
}

static void jacobian(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    int ti = run.choose((int)fam.size(), "tree");
    // built once per tree and worker: the queries of all configurations form one long history
    static std::map<int, std::shared_ptr<World>> cache;
    if (!cache[ti]) cache[ti].reset(new World(fam[ti]));
    World& w = *cache[ti];
    configuration(run, w, run.thorough ? 7 : 5);
    const Tree& t = w.t;
    auto sets = jointSets(t);
    std::vector<M4> poses = w.k.poses();
    // derivatives with respect to every joint, for nodes and for sensors
    std::vector<std::vector<Eigen::Matrix<double, 6, 1>>> dn(t.n.size()), ds(t.n.size());
    std::vector<M4> soff(t.n.size(), sensorTrafo());
    for (int j : w.joints)
    {
        dn[j] = dposes(w.k, j);
        ds[j] = dposes(w.k, j, soff);
    }
    std::vector<int> frames = {-1, 0, (int)t.n.size() - 1, w.joints[w.joints.size() / 2]};
    for (size_t si = 0; si < sets.size(); si++)
        for (int fr : frames)
        {
            static std::map<std::string, std::pair<RobotNodeSetPtr, DifferentialIKPtr>> iks;
            std::string key = strf("%d %zu %d", ti, si, fr);
            if (!iks.count(key))
            {
                RobotNodeSetPtr s = w.set(sets[si], "s " + key, si == 1 ? (int)t.n.size() - 1 : -1);
                iks[key] = {s, DifferentialIKPtr(new DifferentialIK(s, fr < 0 ? RobotNodePtr() : w.nodes[fr]))};
            }
            DifferentialIKPtr ik = iks[key].second;
            M3 Rf = fr < 0 ? M3(M3::Identity()) : M3(poses[fr].block<3, 3>(0, 0).transpose());
            auto full = [&](bool sensor, int n) {
                MX J = MX::Zero(6, (int)sets[si].size());
                for (size_t c = 0; c < sets[si].size(); c++)
                {
                    int j = sets[si][c];
                    if (t.n[j].kind == 'F') continue;
                    auto& d = sensor ? ds[j][n] : dn[j][n];
                    J.block<3, 1>(0, (int)c) = Rf * d.head<3>();
                    J.block<3, 1>(3, (int)c) = Rf * d.tail<3>();
                }
                return J;
            };
            auto sel = [&](const MX& J, int mode, double s) {
                auto rows = modeRows(mode);
                MX r((int)rows.size(), J.cols());
                for (size_t i = 0; i < rows.size(); i++)
                {
                    r.row((int)i) = J.row(rows[i]);
                    if (rows[i] < 3)
                        for (int c = 0; c < J.cols(); c++)
                            if (t.n[sets[si][c]].kind == 'R') r((int)i, c) *= s;
                }
                return r;
            };
            std::string head = t.name + " set " + strf("%zu", si) + " frame " + (fr < 0 ? "world" : t.n[fr].name);
            const double L = 600;
            for (int sensor = 0; sensor < 2; sensor++)
                for (size_t n = 0; n < t.n.size(); n++)
                {
                    if (sensor && !t.n[n].sensor) continue;
                    SceneObjectPtr tcp = sensor ? SceneObjectPtr(w.nodes[n]->getSensor(t.n[n].name + "_sensor")) : SceneObjectPtr(w.nodes[n]);
                    MX J = full(sensor, (int)n);
                    run.step("Jacobians of %s", tcp->getName().c_str());
                    compare(run, "jacobian of a tool centre point", J, ik->getJacobianMatrix(tcp), L, head + " tcp " + tcp->getName());
                    for (int m : MODES) compare(run, "jacobian selection", sel(J, m, 1), ik->getJacobianMatrix(tcp, (IKSolver::CartesianSelection)m), L, head + " tcp " + tcp->getName() + strf(" selection %d", m));
                    ik->convertModelScalingtoM(true);
                    compare(run, "jacobian in metres", sel(J, 15, 1e-3), ik->getJacobianMatrix(tcp, IKSolver::All), 1, head + " tcp " + tcp->getName());
                    ik->convertModelScalingtoM(false);
                }
            // the default tool centre point
            int dt = si == 1 ? (int)t.n.size() - 1 : sets[si].back();
            compare(run, "jacobian of the default tool centre point", sel(full(false, dt), 7, 1), ik->getJacobianMatrix(IKSolver::Position), L, head);
        }
    // several goals at once: stacked in the order they were given, and the step they ask for
    for (int order = 0; order < 2; order++)
        for (int fr : frames)
        {
            int a = (int)t.n.size() - 1, b = w.joints[0];
            if (order) std::swap(a, b);
            M3 Rf = fr < 0 ? M3(M3::Identity()) : M3(poses[fr].block<3, 3>(0, 0).transpose());
            static std::map<std::string, RobotNodeSetPtr> ss;
            std::string key = strf("st%d", ti);
            if (!ss[key]) ss[key] = w.set(sets[1], key);
            DifferentialIK ik(ss[key], fr < 0 ? RobotNodePtr() : w.nodes[fr]);
            M4 goals[2] = {M4(poses[a] * mk(12, 30, -25, V3(1, 0, 2), 0.4)), M4(poses[b] * mk(-8, 3, 22, V3(0, 1, -2), -0.3))};
            int ms[2] = {5 | 8, 7};
            ik.setGoal(f(goals[0]), w.nodes[a], (IKSolver::CartesianSelection)ms[0], 1, 0.02, false);
            ik.setGoal(f(goals[1]), w.nodes[b], (IKSolver::CartesianSelection)ms[1], 1, 0.02, true);
            MX want(5 + 3, (int)sets[1].size());
            VX err(8);
            int row = 0;
            for (int g = 0; g < 2; g++)
            {
                int n = g ? b : a;
                Eigen::Matrix<double, 6, 1> e;
                e.head<3>() = Rf * (goals[g].block<3, 1>(0, 3) - poses[n].block<3, 1>(0, 3));
                Eigen::AngleAxisd aa(M3(goals[g].block<3, 3>(0, 0) * poses[n].block<3, 3>(0, 0).transpose()));
                e.tail<3>() = Rf * aa.axis() * aa.angle();
                for (int m : modeRows(ms[g]))
                {
                    for (size_t c = 0; c < sets[1].size(); c++)
                    {
                        auto& d = dn[sets[1][c]][n];
                        V3 x = m < 3 ? V3(Rf * d.head<3>()) : V3(Rf * d.tail<3>());
                        want(row, (int)c) = x[m % 3];
                    }
                    err(row++) = e[m];
                }
            }
            std::string head = t.name + strf(" two goals, order %d, frame ", order) + (fr < 0 ? "world" : t.n[fr].name);
            compare(run, "stacked jacobian", want, ik.getJacobianMatrix(), 600, head);
            Eigen::VectorXf e = ik.getError(1.0f), e2 = ik.getError(0.25f);
            compare(run, "error of the goals", err, e, 40, head);
            compare(run, "scaled error of the goals", 0.25 * err, e2, 40, head);
        }
}

static void com(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    int ti = run.choose((int)fam.size(), "tree");
    static std::map<int, std::shared_ptr<World>> cache;
    if (!cache[ti]) cache[ti].reset(new World(fam[ti]));
    World& w = *cache[ti];
    configuration(run, w, run.thorough ? 7 : 5);
    const Tree& t = w.t;
    auto sets = jointSets(t);
    std::vector<std::vector<int>> bodies(3);
    for (size_t i = 0; i < t.n.size(); i++)
    {
        bodies[0].push_back((int)i);
        if (i % 2) bodies[1].push_back((int)i);
    }
    bodies[2] = {(int)t.n.size() - 1};
    auto center = [&](const Kin& k, const std::vector<int>& b) {
        auto p = k.poses();
        V3 c(0, 0, 0);
        double m = 0;
        for (int i : b)
        {
            V4 x(t.n[i].com[0], t.n[i].com[1], t.n[i].com[2], 1);
            V4 g = p[i] * x;
            c += t.n[i].mass * g.head<3>();
            m += t.n[i].mass;
        }
        return V3(c / m);
    };
    auto near = [&](const char* sig, const V3& want, const Eigen::Vector3f& got) {
        run.compared();
        if (!((want - got.cast<double>()).norm() < 0.02)) run.fail(sig, "%s: %s instead of %s", t.name.c_str(), showv(got).c_str(), showv(want).c_str());
    };
    V3 all = center(w.k, bodies[0]);
    near("centre of mass of the robot", all, w.r->getCoMGlobal());
    V4 a4(all[0], all[1], all[2], 1);
    near("centre of mass in the robot's frame", V3((inv(w.k.base) * a4).head<3>()), w.r->getCoMLocal());
    auto poses = w.k.poses();
    std::vector<int> frames = {-1, 0, (int)t.n.size() - 1, w.joints[w.joints.size() / 2]};
    for (size_t bi = 0; bi < bodies.size(); bi++)
    {
        static std::map<std::string, RobotNodeSetPtr> bs, js;
        std::string bk = strf("b%d %zu", ti, bi);
        if (!bs[bk]) bs[bk] = w.set(bodies[bi], bk);
        near("centre of mass of a node set", center(w.k, bodies[bi]), bs[bk]->getCoM());
        double mass = 0;
        for (int i : bodies[bi]) mass += t.n[i].mass;
        run.check(std::fabs(bs[bk]->getMass() - mass) < 1e-5, "mass of a node set", "%s: %g instead of %g", t.name.c_str(), bs[bk]->getMass(), mass);
        for (size_t si = 0; si < sets.size(); si++)
        {
            std::string jk = strf("j%d %zu", ti, si);
            if (!js[jk]) js[jk] = w.set(sets[si], jk);
            for (int fr : frames)
                for (int dim = 2; dim <= 3; dim++)
                {
                    static std::map<std::string, CoMIKPtr> iks;
                    std::string key = bk + jk + strf(" %d %d", fr, dim);
                    if (!iks[key])
                    {
                        iks[key].reset(new CoMIK(js[jk], bs[bk], fr < 0 ? RobotNodePtr() : w.nodes[fr], dim));
                    }
                    CoMIKPtr ik = iks[key];
                    V3 now = center(w.k, bodies[bi]), goal = now + V3(20, -35, 12);
                    Eigen::VectorXf g = goal.cast<float>().head(dim);
                    ik->setGoal(g, 5.0f);
                    M3 Rf = fr < 0 ? M3(M3::Identity()) : M3(poses[fr].block<3, 3>(0, 0).transpose());
                    MX J = MX::Zero(3, (int)sets[si].size());
                    for (size_t c = 0; c < sets[si].size(); c++)
                    {
                        int j = sets[si][c];
                        if (t.n[j].kind == 'F') continue;
                        const double h = t.n[j].kind == 'R' ? 1e-5 : 1e-2;
                        Kin a = w.k, b = w.k;
                        a.q[j] -= h;
                        b.q[j] += h;
                        J.block<3, 1>(0, (int)c) = Rf * (center(b, bodies[bi]) - center(a, bodies[bi])) / (2 * h);
                    }
                    std::string head = t.name + strf(" bodies %zu joints %zu dimension %d frame ", bi, si, dim) + (fr < 0 ? "world" : t.n[fr].name);
                    run.step("centre of mass jacobian");
                    compare(run, "jacobian of the centre of mass", J.topRows(dim), ik->getJacobianMatrix(), 400, head);
                    // the third coordinate of a planar goal is not part of it: only frames that keep the plane have a planar error
                    V3 ge = goal - now;
                    if (fr < 0 || dim == 3) compare(run, "error of the centre of mass", V3(Rf * ge).head(dim), ik->getError(), 60, head);
                    MX Jm = J;
                    for (size_t c = 0; c < sets[si].size(); c++)
                        if (t.n[sets[si][c]].kind == 'R') Jm.col((int)c) *= 1e-3;
                    ik->convertModelScalingtoM(true);
                    compare(run, "jacobian of the centre of mass in metres", Jm.topRows(dim), ik->getJacobianMatrix(), 1, head);
                    ik->convertModelScalingtoM(false);
                }
        }
    }
}

// the gradient an optimiser gets is the derivative of the function it gets
static void gradient(mc::Run& run, World& w, const std::vector<int>& ids, Constraint& c, const std::string& what, double noise, float step = 0.01f)
{
    for (auto& setup : c.getOptimizationFunctions())
    {
        Eigen::VectorXf g = c.optimizationGradient(setup.id);
        VX want(ids.size());
        std::vector<float> q0;
        for (int i : w.joints) q0.push_back(w.nodes[i]->getJointValue());
        for (size_t k = 0; k < ids.size(); k++)
        {
            if (w.t.n[ids[k]].kind == 'F')
            {
                want(k) = 0;
                continue;
            }
            RobotNodePtr n = w.nodes[ids[k]];
            float q = n->getJointValue(), h = w.t.n[ids[k]].kind == 'R' ? step : 100 * step;
            w.r->setJointValue(n, q + h);
            double b = c.optimizationFunction(setup.id), qb = n->getJointValue();
            w.r->setJointValue(n, q - h);
            double a = c.optimizationFunction(setup.id), qa = n->getJointValue();
            w.r->setJointValue(n, q);
            want(k) = (b - a) / (qb - qa);
        }
        double scale = 1e-30;
        for (int k = 0; k < want.size(); k++) scale = std::max(scale, std::fabs(want(k)));
        run.compared();
        run.step("gradient of %s", what.c_str());
        if ((size_t)g.size() != ids.size()) run.fail("gradient size", "%s, %s: %d entries for %zu joints", w.t.name.c_str(), what.c_str(), (int)g.size(), ids.size());
        for (int k = 0; k < want.size(); k++)
            if (!(std::fabs(g(k) - want(k)) <= 0.02 * scale + noise)) run.fail("gradient of " + what, "%s component %u joint %s: %g, the function's derivative is %g", w.t.name.c_str(), setup.id, w.t.n[ids[k]].name.c_str(), g(k), want(k));
    }
}
static void constraints(mc::Run& run)
{
    static std::vector<Tree> fam = family();
    int ti = run.choose((int)fam.size(), "tree");
    static std::map<int, std::shared_ptr<World>> cache;
    if (!cache[ti]) cache[ti].reset(new World(fam[ti]));
    World& w = *cache[ti];
    configuration(run, w, run.thorough ? 7 : 5);
    const Tree& t = w.t;
    auto sets = jointSets(t);
    auto poses = w.k.poses();
    static std::map<std::string, RobotNodeSetPtr> js;
    for (size_t si = 1; si < sets.size(); si += 2)
    {
        std::string jk = strf("c%d %zu", ti, si);
        if (!js[jk]) js[jk] = w.set(sets[si], jk);
        RobotNodeSetPtr rns = js[jk];
        int tip = (int)t.n.size() - 1;
        const std::vector<int>& ids = sets[si];
        std::vector<M4> targets = {M4(poses[tip] * mk(30, -20, 50, V3(1, 2, 3), 0.5)), M4(mk(200, 100, 300, V3(1, -1, 0), 1) * rot(V3(poses[tip](0, 1), 0.2, 1), 0.3)), poses[tip]};
        const IKSolver::CartesianSelection sel[6] = {IKSolver::X, IKSolver::Y, IKSolver::Z, IKSolver::Position, IKSolver::Orientation, IKSolver::All};
        for (size_t gi = 0; gi < targets.size(); gi++)
            for (int fac = 0; fac < 2; fac++)
            {
                const M4& g = targets[gi];
                V3 d = poses[tip].block<3, 1>(0, 3) - g.block<3, 1>(0, 3);
                double ang = Eigen::AngleAxisd(M3(g.block<3, 3>(0, 0) * poses[tip].block<3, 3>(0, 0).transpose())).angle();
                bool turn = ang < 2.9;
                for (int s = 0; s < 6; s++)
                {
                    double pos = s == 0 ? d[0] * d[0] : s == 1 ? d[1] * d[1] : s == 2 ? d[2] * d[2] : s == 4 ? 0 : d.squaredNorm();
                    double F = fac ? 3 : 1;
                    {
                        PositionConstraint c(w.r, rns, w.nodes[tip], f(g).block<3, 1>(0, 3), sel[s]);
                        if (fac) c.setOptimizationFunctionFactor(3);
                        double v = c.optimizationFunction(0);
                        run.check(std::fabs(v - F * pos) < 0.05 + 1e-3 * F * pos, "value of the position constraint", "%s selection %d: %g, the squared distance is %g", t.name.c_str(), s, v, F * pos);
                        gradient(run, w, ids, c, "position constraint", 60);
                    }
                    if (turn)
                    {
                        OrientationConstraint c(w.r, rns, w.nodes[tip], f(g).block<3, 3>(0, 0), sel[s]);
                        if (fac) c.setOptimizationFunctionFactor(3);
                        double v = c.optimizationFunction(0), wv = s >= 4 ? F * ang * ang : 0;
                        run.check(std::fabs(v - wv) < 1e-3, "value of the orientation constraint", "%s selection %d: %g, the squared angle is %g", t.name.c_str(), s, v, wv);
                        gradient(run, w, ids, c, "orientation constraint", 0.003);
                    }
                    {
                        PoseConstraint c(w.r, rns, w.nodes[tip], f(g), sel[s]);
                        if (fac) c.setOptimizationFunctionFactor(3);
                        if (turn) gradient(run, w, ids, c, "pose constraint", 0.6);
                        if (gi == 2)
                        {
                            // at the goal the error is zero and its change is minus the jacobian
                            Eigen::VectorXf e = c.getError(1);
                            MX z = MX::Zero(e.size(), 1);
                            compare(run, "error at the goal", z, e, 1, t.name, 0.02);
                        }
                    }
                }
                // task space regions: a point target with and without tool offset, and a region
                Eigen::Matrix<float, 6, 2> pt = Eigen::Matrix<float, 6, 2>::Zero(), region;
                region << -20, 20, -5, 60, 0, 0, -0.1, 0.1, -4, 4, -4, 4;
                for (int off = 0; off < 2; off++)
                    for (int reg = 0; reg < 2; reg++)
                    {
                        M4 o = off ? mk(40, -10, 25, V3(0, 1, 1), 0.6) : M4(M4::Identity());
                        Eigen::Matrix4f T = f(g), O = f(o);
                        M4 rel = inv(g) * poses[tip] * o;
                        double ra = Eigen::AngleAxisd(M3(rel.block<3, 3>(0, 0))).angle();
                        Eigen::Matrix<float, 6, 2> b = reg ? region : pt;
                        if (reg) b.block<3, 2>(3, 0) = pt.block<3, 2>(3, 0);
                        bool edge = false;   // at the border of the region the function has a kink
                        for (int i = 0; i < 3; i++)
                            for (int k = 0; k < 2; k++)
                                if (reg && std::fabs(rel(i, 3) - b(i, k)) < 8 && b(i, 0) != b(i, 1)) edge = true;
                        if (edge || ra > 2.9) continue;
                        TSRConstraint c(w.r, rns, w.nodes[tip], T, O, b);
                        if (fac) c.setOptimizationFunctionFactor(3);
                        gradient(run, w, ids, c, off ? "task space region constraint with a tool offset" : "task space region constraint", 0.6);
                        // the error used by the Jacobian based solvers, for a point target
                        if (!reg)
                        {
                            V3 dp = g.block<3, 1>(0, 3) - (poses[tip] * o).block<3, 1>(0, 3);
                            Eigen::VectorXf e = c.getError(1);
                            compare(run, "error of the task space region", dp, e.head(3), 300, t.name);
                            MX J = MX::Zero(6, (int)ids.size());
                            std::vector<M4> offs(t.n.size(), o);
                            for (size_t k = 0; k < ids.size(); k++)
                                if (t.n[ids[k]].kind != 'F') J.col((int)k) = dposes(w.k, ids[k], offs)[tip];
                            compare(run, off ? "jacobian of the task space region with a tool offset" : "jacobian of the task space region", J, c.getJacobianMatrix(), 600, t.name);
                        }
                    }
                // centre of mass
                {
                    std::vector<int> bodies;
                    for (size_t i = 0; i < t.n.size(); i++) bodies.push_back((int)i);
                    static std::map<int, RobotNodeSetPtr> bs;
                    if (!bs[ti]) bs[ti] = w.set(bodies, strf("cb%d", ti));
                    Eigen::Vector3f tg = bs[ti]->getCoM() + Eigen::Vector3f(30, -60, 20);
                    Eigen::Vector2f tg2 = tg.head(2);
                    CoMConstraint c3(w.r, rns, bs[ti], tg, 5), c2(w.r, rns, bs[ti], tg2, 5);
                    if (fac)
                    {
                        c3.setOptimizationFunctionFactor(3);
                        c2.setOptimizationFunctionFactor(3);
                    }
                    double F = fac ? 3 : 1;
                    run.check(std::fabs(c3.optimizationFunction(0) - F * 4900) < 5 && std::fabs(c2.optimizationFunction(0) - F * 4500) < 5, "value of the centre of mass constraint", "%s: %g and %g", t.name.c_str(), c3.optimizationFunction(0), c2.optimizationFunction(0));
                    gradient(run, w, ids, c3, "centre of mass constraint", 60);
                    gradient(run, w, ids, c2, "centre of mass constraint (2d)", 60);
                    Eigen::Vector3f tn = tg + Eigen::Vector3f(0, 0, -20);
                    Eigen::Vector2f tn2 = tg2 + Eigen::Vector2f(-30, 0);
                    c3.updateTarget(tn);
                    c2.updateTarget(tn2);
                    run.check(std::fabs(c3.optimizationFunction(0) - F * 4500) < 5 && std::fabs(c2.optimizationFunction(0) - F * 3600) < 5, "value of the centre of mass constraint after a new target", "%s: %g and %g", t.name.c_str(), c3.optimizationFunction(0), c2.optimizationFunction(0));
                    gradient(run, w, ids, c3, "centre of mass constraint after a new target", 60);
                    gradient(run, w, ids, c2, "centre of mass constraint (2d) after a new target", 60);
                    // balance
                    if (gi == 0)
                    {
                        Eigen::Vector3f com = bs[ti]->getCoM();
                        // the floor contact: a plate around (and beside) the current centre of mass
                        for (int side = 0; side < 2; side++)
                        {
                            Pts plate = boxPts(60, 50, 4, com[0] + (side ? 45 : 7), com[1] - 5, 2);
                            ObstaclePtr o(new Obstacle("plate", visu(plate), colmodel(plate, "plate")));
                            SceneObjectSetPtr contact(new SceneObjectSet("contact"));
                            contact->addSceneObject(o);
                            BalanceConstraint b(w.r, rns, bs[ti], contact, 0.1f, 0.5f, 10.f, false, false);
                            if (fac) b.setOptimizationFunctionFactor(3);
                            gradient(run, w, ids, b, "balance constraint", 4e-3, 0.003f);
                        }
                    }
                }
                // configurations
                {
                    Eigen::VectorXf ref(ids.size());
                    double vr = 0, vl = 0;
                    for (size_t i = 0; i < ids.size(); i++)
                    {
                        const Node& n = t.n[ids[i]];
                        ref((int)i) = 0.1f * (float)i - 0.2f;
                        vr += std::pow(w.k.q[ids[i]] - ref((int)i), 2);
                        if (!n.limitless) vl += std::pow(w.k.q[ids[i]] - (n.lo + n.hi) / 2, 2);
                    }
                    ReferenceConfigurationConstraint c(w.r, rns, ref);
                    JointLimitAvoidanceConstraint jl(w.r, rns);
                    Constraint& l = jl;
                    if (fac)
                    {
                        c.setOptimizationFunctionFactor(3);
                        l.setOptimizationFunctionFactor(3);
                        vr *= 3;
                        vl *= 3;
                    }
                    run.check(std::fabs(c.optimizationFunction(0) - vr) < 0.01 + 1e-4 * vr, "value of the reference configuration constraint", "%s: %g instead of %g", t.name.c_str(), c.optimizationFunction(0), vr);
                    run.check(std::fabs(l.optimizationFunction(0) - vl) < 0.01 + 1e-4 * vl, "value of the joint limit constraint", "%s: %g instead of %g", t.name.c_str(), l.optimizationFunction(0), vl);
                    gradient(run, w, ids, c, "reference configuration constraint", 0.01);
                    gradient(run, w, ids, l, "joint limit constraint", 0.01);
                }
            }
    }
}

int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("tool jacobians", jacobian, 3);
    mc::suite("centre of mass", com, 3);
    mc::suite("constraints", constraints, 3);
    return mc::main(argc, argv);
}
