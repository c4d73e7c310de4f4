#include "robops.h"
using namespace VirtualRobot;
using namespace sx;

static std::vector<Tree> T;
static std::vector<std::vector<Op>> wideOps, deepOps;

static void expect(mc::Run& r, const char* what, const std::string& who, const M4& want, const Eigen::Matrix4f& got, double tt = 0.02, double tr = 2e-5)
{
    double d = dev(want, got, tt, tr);
    r.compared();
    if (d > 1) r.fail(what, "%s of %s is %s, the tree gives %s", what, who.c_str(), show(got).c_str(), show(want).c_str());
}
static void expectV(mc::Run& r, const char* what, const std::string& who, const V3& want, const Eigen::Vector3f& got, double tol = 0.02)
{
    r.compared();
    double d = (want - got.cast<double>()).norm();
    if (!(d <= tol * (1 + want.norm() / 3000))) r.fail(what, "%s of %s is %s, the tree gives %s", what, who.c_str(), showv(got).c_str(), showv(want).c_str());
}

static void observe(mc::Run& r, World& w, bool full)
{
    std::vector<M4> P = w.k.poses();
    mc::Hash h;
    int n = (int)P.size();
    expect(r, "base pose", "robot", w.k.base, w.r->getGlobalPose());
    for (int i = 0; i < n; i++)
    {
        const std::string& nm = w.k.t.n[i].name;
        RobotNodePtr x = w.node(i);
        hash(h, x->getGlobalPose());
        expect(r, "global pose", nm, P[i], x->getGlobalPose());
        double q = x->getJointValue();
        r.check(std::fabs(q - w.k.q[i]) < 2e-4, "joint value", "joint %s has value %.7g, expected %.7g", nm.c_str(), q, w.k.q[i]);
        expect(r, "collision body pose", nm, P[i], x->getCollisionModel()->getGlobalPose());
        expect(r, "visual body pose", nm, P[i], x->getVisualization()->getGlobalPose());
        if (w.k.t.n[i].sensor)
        {
            SensorPtr s = w.r->getSensor(nm + "_sensor");
            r.check((bool)s, "sensor missing", "sensor of %s not found", nm.c_str());
            expect(r, "sensor pose", nm, P[i] * sensorTrafo(), s->getGlobalPose());
        }
    }
    r.state(h);
    if (!full) return;
    const M4 L = mk(10, 20, -30, V3(0.3, 1, -0.2), 0.9);
    const V3 lp(13, -6, 8);
    auto R3 = [](const M4& m) { return M3(m.block<3, 3>(0, 0)); };
    auto P3 = [](const M4& m) { return V3(m.block<3, 1>(0, 3)); };
    auto up = [](const M3& m) { M4 x = M4::Identity(); x.block<3, 3>(0, 0) = m; return x; };
    auto upf = [](const Eigen::Matrix3f& m) { Eigen::Matrix4f x = Eigen::Matrix4f::Identity(); x.block<3, 3>(0, 0) = m; return x; };
    for (int i = 0; i < n; i++)
    {
        const std::string& nm = w.k.t.n[i].name;
        RobotNodePtr x = w.node(i);
        const M4& g = P[i];
        M4 root = inv(P[0]) * g;
        expectV(r, "global position", nm, P3(g), x->getGlobalPosition());
        expect(r, "global orientation", nm, up(R3(g)), upf(x->getGlobalOrientation()));
        expect(r, "global pose of a local pose", nm, g * L, x->getGlobalPose(f(L)));
        expectV(r, "global position of a local position", nm, R3(g) * lp + P3(g), x->getGlobalPosition(lp.cast<float>()));
        expectV(r, "global direction of a local direction", nm, R3(g) * lp, x->getGlobalDirection(lp.cast<float>()));
        expect(r, "global orientation of a local orientation", nm, up(R3(g) * R3(L)), upf(x->getGlobalOrientation(Eigen::Matrix3f(R3(L).cast<float>()))));
        expect(r, "pose in root frame", nm, root, x->getPoseInRootFrame());
        expectV(r, "position in root frame", nm, P3(root), x->getPositionInRootFrame());
        expect(r, "orientation in root frame", nm, up(R3(root)), upf(x->getOrientationInRootFrame()));
        expect(r, "local pose in root frame", nm, root * L, x->getPoseInRootFrame(f(L)));
        expectV(r, "local position in root frame", nm, R3(root) * lp + P3(root), x->getPositionInRootFrame(lp.cast<float>()));
        expectV(r, "local direction in root frame", nm, R3(root) * lp, x->getDirectionInRootFrame(lp.cast<float>()));
        expect(r, "local orientation in root frame", nm, up(R3(root) * R3(L)), upf(x->getOrientationInRootFrame(Eigen::Matrix3f(R3(L).cast<float>()))));
        expect(r, "toLocalCoordinateSystem", nm, inv(g) * L, x->toLocalCoordinateSystem(f(L)));
        expect(r, "toGlobalCoordinateSystem", nm, g * L, x->toGlobalCoordinateSystem(f(L)));
        expectV(r, "toLocalCoordinateSystemVec", nm, P3(inv(g) * tr(lp[0], lp[1], lp[2])), x->toLocalCoordinateSystemVec(lp.cast<float>()));
        expectV(r, "toGlobalCoordinateSystemVec", nm, P3(g * tr(lp[0], lp[1], lp[2])), x->toGlobalCoordinateSystemVec(lp.cast<float>()));
        for (int k = 0; k < n; k++)
        {
            RobotNodePtr y = w.node(k);
            M4 to = inv(g) * P[k];
            expect(r, "getTransformationTo", nm, to, x->getTransformationTo(y));
            expect(r, "getTransformationFrom", nm, inv(to), x->getTransformationFrom(y));
            expect(r, "transformTo", nm, to * L, x->transformTo(y, f(L)));
            expectV(r, "transformTo(position)", nm, P3(to * tr(lp[0], lp[1], lp[2])), x->transformTo(y, Eigen::Vector3f(lp.cast<float>())));
        }
        const Node& nd = w.k.t.n[i];
        V3 ax = nd.axis / nd.axis.norm();
        if (nd.kind == 'R')
        {
            RobotNodeRevolute* v = dynamic_cast<RobotNodeRevolute*>(x.get());
            expectV(r, "rotation axis", nm, R3(g) * ax, v->getJointRotationAxis(), 1e-4);
            expectV(r, "rotation axis in a frame", nm, R3(inv(P[0]) * g) * ax, v->getJointRotationAxis(w.node(0)), 1e-4);
            expectV(r, "rotation axis (joint frame)", nm, ax, v->getJointRotationAxisInJointCoordSystem(), 1e-4);
            r.check(x->isRotationalJoint() && !x->isTranslationalJoint(), "joint kind", "%s", nm.c_str());
        }
        else if (nd.kind == 'P')
        {
            RobotNodePrismatic* v = dynamic_cast<RobotNodePrismatic*>(x.get());
            expectV(r, "translation direction", nm, R3(g) * ax, v->getJointTranslationDirection(), 1e-4);
            expectV(r, "translation direction in a frame", nm, R3(inv(P[0]) * g) * ax, v->getJointTranslationDirection(w.node(0)), 1e-4);
            expectV(r, "translation direction (joint frame)", nm, ax, v->getJointTranslationDirectionJointCoordSystem(), 1e-4);
            r.check(!x->isRotationalJoint() && x->isTranslationalJoint(), "joint kind", "%s", nm.c_str());
        }
        else
            r.check(!x->isRotationalJoint() && !x->isTranslationalJoint(), "joint kind", "%s", nm.c_str());
        // who moves this node: all strict ancestors
        for (int k = 0; k < n; k++)
        {
            bool anc = k != i && w.k.t.below(i, k), real = false;
            for (auto& p : x->getAllParents()) real = real || p == w.node(k);
            r.check(anc == real, "getAllParents", "%s listed as parent of %s: %d, expected %d", w.k.t.n[k].name.c_str(), nm.c_str(), real, anc);
        }
    }
    expect(r, "robot.toLocalCoordinateSystem", "robot", inv(w.k.base) * L, w.r->toLocalCoordinateSystem(f(L)));
    expectV(r, "robot.toGlobalCoordinateSystemVec", "robot", P3(w.k.base * tr(lp[0], lp[1], lp[2])), w.r->toGlobalCoordinateSystemVec(lp.cast<float>()));
}

static void walk(mc::Run& r, const std::vector<std::vector<Op>>& ops, int depth, bool full)
{
    int t = r.choose((int)T.size(), "tree");
    r.note("tree %s", T[t].name.c_str());
    BuildOpt o;
    o.meshes = true;
    World w(T[t], o);
    if (full) observe(r, w, full);
    for (int d = 0; d < depth; d++)
    {
        const Op& op = r.pick(ops[t], "op");
        r.step("%s", op.name.c_str());
        op.run(w);
        // a frame query must not change anything: the robot is queried twice
        observe(r, w, full && d == depth - 1);
        if (full && d == depth - 1) observe(r, w, false);
    }
    r.outcome(T[t].name);
}

int main(int argc, char** argv)
{
    silence();
    T = trees();
    for (auto& t : T)
    {
        wideOps.push_back(moveOps(t, true));
        deepOps.push_back(moveOps(t, false));
    }
    mc::suite("wide2", [](mc::Run& r) { walk(r, wideOps, 2, true); }, 2);
    mc::suite("deep", [](mc::Run& r) { walk(r, deepOps, r.thorough ? 6 : 5, false); }, 3);
    mc::suite("wide3", [](mc::Run& r) { walk(r, wideOps, 3, false); }, 2, true);
    return mc::main(argc, argv);
}
