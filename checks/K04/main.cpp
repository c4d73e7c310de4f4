#include "robdesc.h"
#include "robops.h"
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Grasping/Grasp.h>
using namespace VirtualRobot;
using namespace sx;

static std::vector<Tree> T;

// a robot with everything on it
static World rich(const Tree& t, bool meshes, const std::string& name)
{
    BuildOpt o;
    o.meshes = meshes;
    o.physics = [&](int i, SceneObject::Physics& p) {
        p.massKg = 1.5f + i;
        p.localCoM = Eigen::Vector3f(3 * i, -4, 7.5f);
        p.comLocation = SceneObject::Physics::eCustom;
        p.inertiaMatrix << 1 + i, 0.1f, 0.2f, 0.1f, 2, 0.3f, 0.2f, 0.3f, 3;
        p.friction = 0.3f + 0.01f * i;
        p.simType = i % 3 == 0 ? SceneObject::Physics::eStatic : i % 3 == 1 ? SceneObject::Physics::eDynamic : SceneObject::Physics::eKinematic;
        if (i % 2) p.ignoreCollisions = {"foo", t.n[0].name};
    };
    o.tweak = [&](int i, RobotNodePtr x) {
        x->setMaxVelocity(0.5f + i);
        x->setMaxAcceleration(2.5f + i);
        x->setMaxTorque(20.f + i);
        Eigen::Matrix4f m = f(mk(i, 2, -3, V3(1, i, 0), 0.3 * (i + 1)));
        if (i % 4 == 1) x->registerSensor(SensorPtr(new ForceTorqueSensor(x, "ft" + x->getName(), m)));
        if (i % 4 == 2) x->registerSensor(SensorPtr(new CameraSensor(x, "cam" + x->getName(), meshes ? visu(boxPts(1, 2, 3)) : VisualizationNodePtr(), m)));
        if (i % 4 == 3) x->registerSensor(SensorPtr(new ContactSensor(x, "touch" + x->getName())));
    };
    World w(t, o, name);
    std::vector<int> J = t.joints();
    int last = (int)t.n.size() - 1;
    // end effector: the last joint is the finger, the node above it the palm
    int fj = J.back(), palm = t.n[fj].parent;
    EndEffectorActor::ActorDefinition ad = {EndEffectorActor::eActors, w.node(fj), -0.5f};
    std::vector<EndEffectorActorPtr> actors(1, EndEffectorActorPtr(new EndEffectorActor("finger", {ad})));
    std::vector<RobotNodePtr> statics(1, w.node(palm));
    std::vector<RobotConfigPtr> pre;
    pre.push_back(RobotConfigPtr(new RobotConfig(w.r, "open", std::vector<RobotNodePtr>(1, w.node(fj)), std::vector<float>(1, (float)val(t.n[fj], 1)))));
    pre.push_back(RobotConfigPtr(new RobotConfig(w.r, "shut", std::vector<RobotNodePtr>(1, w.node(fj)), std::vector<float>(1, (float)val(t.n[fj], 0)))));
    EndEffectorPtr e(new EndEffector("hand", actors, statics, w.node(palm), w.node(last), w.node(fj), pre));
    w.r->registerEndEffector(e);
    w.r->applyJointValues();
    return w;
}
static void poses(mc::Run& r, World& w, const char* who)
{
    std::vector<M4> P = w.k.poses();
    r.compared();
    for (size_t i = 0; i < P.size(); i++)
    {
        RobotNodePtr n = w.node((int)i);
        r.check((bool)n, std::string(who) + " node missing", "%s", w.k.t.n[i].name.c_str());
        r.check(dev(P[i], n->getGlobalPose()) <= 1, std::string(who) + " pose", "%s is at %s, expected %s", n->getName().c_str(), show(n->getGlobalPose()).c_str(), show(P[i]).c_str());
        if (n->getCollisionModel()) r.check(dev(P[i], n->getCollisionModel()->getGlobalPose()) <= 1 && dev(P[i], n->getVisualization()->getGlobalPose()) <= 1, std::string(who) + " body pose", "%s", n->getName().c_str());
    }
}
static M4 scaled(M4 m, double s)
{
    m.block<3, 1>(0, 3) *= s;
    return m;
}

// changes on the original before it is copied
struct Pre
{
    const char* name;
    std::function<bool(World&)> run;
};
static std::vector<Pre> pres()
{
    auto joint = [](World& w, char kind, int which) {
        std::vector<int> r;
        for (int i : w.k.t.joints())
            if (w.k.t.n[i].kind == kind && !w.k.t.n[i].limitless) r.push_back(i);
        return r.empty() ? -1 : r[which % r.size()];
    };
    std::vector<Pre> v;
    v.push_back({"untouched", [](World&) { return true; }});
    v.push_back({"moved", [](World& w) {
        int a = 0;
        for (int i : w.k.t.joints())
        {
            double x = val(w.k.t.n[i], a++ % 2 ? 1 : 3);
            w.r->setJointValue(w.k.t.n[i].name, (float)x);
            w.k.set(i, x);
        }
        w.k.base = basePoses()[3];
        w.r->setGlobalPose(f(w.k.base));
        return true;
    }});
    v.push_back({"a joint outside its limits", [=](World& w) {
        int i = joint(w, 'R', 0);
        if (i < 0) return false;
        w.node(i)->setEnforceJointLimits(false);
        double x = w.k.t.n[i].hi + 0.3;
        w.r->setJointValue(w.k.t.n[i].name, (float)x);
        w.k.q[i] = x;
        return true;
    }});
    v.push_back({"fixed transformation of a joint replaced", [=](World& w) {
        int i = w.k.t.joints()[0];
        M4 m = mk(12, -34, 56, V3(1, 2, 3), 0.8);
        Eigen::Matrix4f mf = f(m);
        w.node(i)->setLocalTransformation(mf);
        w.r->applyJointValues();
        w.k.t.n[i].local = m;
        return true;
    }});
    v.push_back({"fixed transformation of the last node replaced", [=](World& w) {
        int i = (int)w.k.t.n.size() - 1;
        M4 m = mk(-2, 3, 5, V3(0, 2, 3), -0.8);
        Eigen::Matrix4f mf = f(m);
        w.node(i)->setLocalTransformation(mf);
        w.r->applyJointValues();
        w.k.t.n[i].local = m;
        return true;
    }});
    v.push_back({"limits changed", [=](World& w) {
        for (char k : {'R', 'P'})
        {
            int i = joint(w, k, 1);
            if (i < 0) continue;
            w.k.t.n[i].lo = -0.25;
            w.k.t.n[i].hi = 0.75;
            w.node(i)->setJointLimits(-0.25f, 0.75f);
        }
        return true;
    }});
    v.push_back({"limitless now", [=](World& w) {
        int i = joint(w, 'R', 1);
        if (i < 0) return false;
        w.k.t.n[i].lo = -PI;
        w.k.t.n[i].hi = PI;
        w.k.t.n[i].limitless = true;
        w.node(i)->setJointLimits((float)-PI, (float)PI);
        w.node(i)->setLimitless(true);
        return true;
    }});
    v.push_back({"sensors moved and added", [=](World& w) {
        for (auto& s : w.r->getSensors()) s->setRobotNodeToSensorTransformation(f(mk(9, 8, 7, V3(1, 0, 0), 1)));
        RobotNodePtr n = w.node((int)w.k.t.n.size() - 1);
        SensorPtr s(new PositionSensor(n, "late", VisualizationNodePtr(), f(mk(1, 1, 1, V3(0, 1, 0), 1))));
        n->registerSensor(s);
        s->initialize(n);
        w.r->applyJointValues();
        return true;
    }});
    v.push_back({"physics changed", [=](World& w) {
        for (size_t i = 0; i < w.k.t.n.size(); i++)
        {
            RobotNodePtr n = w.node((int)i);
            n->setMass(0.1f * (i + 1));
            n->setFriction(0.9f);
            n->setSimulationType(SceneObject::Physics::eKinematic);
            n->setInertiaMatrix(Eigen::Matrix3f::Identity() * (5 + i));
            n->setMaxTorque(3.f);
        }
        return true;
    }});
    v.push_back({"preshape added", [=](World& w) {
        int j = w.k.t.joints().back();
        w.r->getEndEffector("hand")->registerPreshape(RobotConfigPtr(new RobotConfig(w.r, "half", std::vector<RobotNodePtr>(1, w.node(j)), std::vector<float>(1, (float)w.k.t.n[j].hi))));
        return true;
    }});
    return v;
}
// changes afterwards on one of the two that are not motions
static std::vector<Op> edits(const Tree& t)
{
    std::vector<Op> o;
    int j = t.joints().back(), last = (int)t.n.size() - 1;
    std::string jn = t.n[j].name, ln = t.n[last].name, j0 = t.n[t.joints()[0]].name;
    auto node = [](World& w, const std::string& n) { return w.r->getRobotNode(n); };
    o.push_back({"setJointLimits", [=](World& w) { node(w, jn)->setJointLimits(-0.01f, 0.02f); }});
    o.push_back({"limitless", [=](World& w) { node(w, jn)->setJointLimits((float)-PI, (float)PI), node(w, jn)->setLimitless(true); }});
    o.push_back({"enforce", [=](World& w) { node(w, jn)->setEnforceJointLimits(false); }});
    o.push_back({"maxima", [=](World& w) { node(w, jn)->setMaxVelocity(77), node(w, jn)->setMaxAcceleration(78), node(w, jn)->setMaxTorque(79); }});
    o.push_back({"physics", [=](World& w) { node(w, ln)->setMass(77), node(w, ln)->setInertiaMatrix(Eigen::Matrix3f::Identity() * 9), node(w, ln)->setFriction(0.77f), node(w, ln)->setSimulationType(SceneObject::Physics::eStatic); }});
    o.push_back({"setLocalTransformation", [=](World& w) { Eigen::Matrix4f m = f(mk(5, 6, 7, V3(1, 1, 1), 1)); node(w, ln)->setLocalTransformation(m), w.r->applyJointValues(); }});
    o.push_back({"sensor moved", [=](World& w) { for (auto& s : w.r->getSensors()) s->setRobotNodeToSensorTransformation(f(mk(5, 6, 7, V3(1, 1, 1), 1))); w.r->applyJointValues(); }});
    o.push_back({"sensor added", [=](World& w) { RobotNodePtr n = node(w, ln); SensorPtr s(new PositionSensor(n, "added")); n->registerSensor(s); s->initialize(n); }});
    o.push_back({"set removed and added", [=](World& w) { w.r->deregisterRobotNodeSet(w.all); RobotNodeSet::createRobotNodeSet(w.r, "another", std::vector<RobotNodePtr>(1, node(w, jn)), RobotNodePtr(), RobotNodePtr(), true); }});
    o.push_back({"preshape changed", [=](World& w) { if (w.r->hasEndEffector("hand")) { w.r->getEndEffector("hand")->getPreshape("open")->setConfig(jn, 0.01f); w.r->getEndEffector("hand")->registerPreshape(RobotConfigPtr(new RobotConfig(w.r, "new"))); } }});
    o.push_back({"preshape taken", [=](World& w) { if (w.r->hasEndEffector("hand")) w.r->getEndEffector("hand")->setPreshape("open"); }});
    o.push_back({"hand opened", [=](World& w) { if (w.r->hasEndEffector("hand")) w.r->getEndEffector("hand")->openActors(); }});
    o.push_back({"meshes scaled", [=](World& w) { for (auto& n : w.r->getRobotNodes()) { if (n->getCollisionModel()) { Eigen::Vector3f s(2, 3, 4); n->getCollisionModel()->getTriMeshModel()->scale(s); n->getVisualization()->getTriMeshModel()->scale(s); } } }});
    o.push_back({"models moved by hand", [=](World& w) { for (auto& n : w.r->getRobotNodes()) { if (n->getCollisionModel()) { Eigen::Matrix4f p = f(mk(5, 6, 7, V3(1, 1, 1), 1)); n->getCollisionModel()->setGlobalPose(p); n->getVisualization()->setGlobalPose(p); } } }});
    o.push_back({"propagation", [=](World& w) { if (j0 != jn) node(w, j0)->propagateJointValue(jn, 0.5f); w.r->setJointValue(j0, 0.3f); }});
    o.push_back({"renamed", [=](World& w) { w.r->setName("renamed"); }});
    o.push_back({"object grafted", [=](World& w) { SceneObjectPtr x(new SceneObject("graft")); RobotFactory::attach(w.r, x, node(w, ln), Eigen::Matrix4f::Identity()); }});
    o.push_back({"child attached", [=](World& w) { SceneObjectPtr x(new SceneObject("load")); node(w, ln)->attachChild(x); w.r->applyJointValues(); }});
    return o;
}

static std::vector<std::vector<Op>> moves, edit;
static std::vector<Pre> PRE;

static void clones(mc::Run& r, bool sub)
{
    int ti = r.choose((int)T.size(), "tree");
    bool meshes = r.flip("meshes");
    int p1 = r.choose((int)PRE.size(), "before");
    World a = rich(T[ti], meshes, "orig");
    r.step("%s, %s", T[ti].name.c_str(), PRE[p1].name);
    if (!PRE[p1].run(a)) r.prune();
    if (r.thorough)
    {
        int p2 = r.choose((int)PRE.size(), "before2");
        if (p2 == p1 || (p1 == 0)) { if (p2) r.prune(); }
        else
        {
            r.step("%s", PRE[p2].name);
            if (!PRE[p2].run(a)) r.prune();
        }
    }
    poses(r, a, "original");
    static const double SC[4] = {1, 0.5, 2, 1};
    int how = r.choose(4, "how");
    double sc = SC[how];
    std::vector<int> keep;
    int start = 0;
    bool cloneSets = true, cloneEefs = true;
    RobotPtr c;
    Desc da = describe(a.r);
    if (!sub)
    {
        r.step("clone by %d, scale %g", how, sc);
        c = how == 0 ? a.r->clone("copy") : how == 3 ? a.r->clone() : how == 1 ? a.r->clone("copy", CollisionCheckerPtr(), (float)sc) : RobotFactory::clone(a.r, "copy", CollisionCheckerPtr(), (float)sc);
        r.check(c && c->getType() == a.r->getType(), "type", "type of the copy");
        r.check(c->getName() == (how == 3 ? "orig" : "copy"), "name", "name of the copy is %s", c->getName().c_str());
        r.check(c->getScaling() == (float)sc, "scaling", "%g", c->getScaling());
    }
    else
    {
        start = r.choose((int)T[ti].n.size(), "start");
        if (how == 3) cloneSets = r.flip("sets"), cloneEefs = !cloneSets;
        r.step("extractSubPart(%s), scale %g", T[ti].n[start].name.c_str(), sc);
        c = a.r->extractSubPart(a.node(start), "part", "copy", cloneSets, cloneEefs, CollisionCheckerPtr(), (float)sc);
        r.check(c && c->getType() == "part" && c->getName() == "copy", "name", "name and type of the part");
    }
    // reference for the copy
    Tree ct;
    ct.name = a.k.t.name;
    std::map<int, int> id;
    for (size_t i = 0; i < a.k.t.n.size(); i++)
        if (a.k.t.below((int)i, start))
        {
            Node n = a.k.t.n[i];
            n.parent = (int)i == start ? -1 : id[n.parent];
            n.local = scaled(n.local, sc);
            id[(int)i] = (int)ct.n.size();
            ct.n.push_back(n);
        }
    Kin ck(ct);
    for (auto& x : id) ck.q[x.second] = a.k.q[x.first];
    ck.base = sub ? M4(M4::Identity()) : a.k.base;
    // what may be read from the copy
    Desc want;
    auto inside = [&](const std::string& names) {
        std::string w;
        for (char ch : names + " ")
            if (ch == ' ')
            {
                if (!w.empty() && ct.find(w) < 0) return false;
                w.clear();
            }
            else w += ch;
        return true;
    };
    std::map<std::string, bool> dontCare;
    int nSets = 0, nEef = 0;
    std::map<std::string, int> keepSet;
    for (auto& s : a.r->getRobotNodeSets())
    {
        std::string p = "set." + s->getName() + ".";
        bool in = cloneSets && inside(da[p + "members"].s), all = in && inside(da[p + "root"].s) && inside(da[p + "tcp"].s);
        keepSet[s->getName()] = all ? 1 : in ? 2 : 0;
        nSets += all;
    }
    bool eefIn = cloneEefs;
    for (const char* k : {"base", "tcp", "gcp", "statics", "finger.0.node"}) eefIn = eefIn && inside(da["eef.hand." + std::string(k)].s);
    nEef = eefIn;
    bool loose = false;
    for (auto& s : keepSet) loose = loose || s.second == 2;
    for (auto& x : da)
    {
        std::string k = x.first, head = k.substr(0, k.find('.'));
        Val v = x.second;
        if (k == "base" || k == "name" || k == "type") continue;
        if (k == "root") v.s = ct.n[0].name;
        else if (k == "nodes") v.v[0] = (double)ct.n.size();
        else if (k == "sets") { if (loose) continue; v.v[0] = nSets; }
        else if (k == "eefs") v.v[0] = nEef;
        else if (head == "set")
        {
            std::string s = k.substr(4, k.find('.', 4) - 4);
            if (keepSet[s] != 1) continue;
        }
        else if (head == "eef") { if (!eefIn) continue; }
        else if (ct.find(head) < 0) continue;
        if (k == ct.n[0].name + ".parent") v.s = "";
        if (sub && v.kind == 'P') continue; // compared with the reference below
        want[k] = v;
    }
    Desc dc = describe(c);
    auto skip = [&](const std::string& k) {
        std::string head = k.substr(0, k.find('.'));
        if (head == "set") return keepSet.count(k.substr(4, k.find('.', 4) - 4)) ? keepSet[k.substr(4, k.find('.', 4) - 4)] == 2 : false;
        if (k == "base" || (k == "sets" && loose)) return true;
        return sub && k.size() > 4 && k.substr(k.size() - 4) == "pose";
    };
    std::string dd = differ(want, dc, sc, 0.01, 1e-5, skip);
    if (!dd.empty())
    {
        std::string key = dd.substr(0, dd.find_first_of(":[ ")), tail = key.substr(key.rfind('.') + 1);
        r.fail("copy differs: " + tail, "%s", dd.c_str());
    }
    if (ct.joints().empty())
    {
        std::vector<M4> P = ck.poses();
        for (size_t i = 0; i < P.size(); i++) r.check(dev(P[i], c->getRobotNode(ct.n[i].name)->getGlobalPose()) <= 1, "copy pose", "%s", ct.n[i].name.c_str());
        r.compared();
        r.outcome("part without joints");
        return;
    }
    World b(c, ck, start ? "part_" : "");
    poses(r, b, "copy");
    for (auto& s : c->getSensors())
    {
        RobotNodePtr n = s->getRobotNode();
        SensorPtr o = a.r->getSensor(s->getName());
        M4 t = scaled(o->getRobotNodeToSensorTransformation().cast<double>(), sc);
        r.check(dev(b.k.poses()[ct.find(n->getName())] * t, s->getGlobalPose()) <= 1, "copy sensor pose", "%s", s->getName().c_str());
    }
    da = describe(a.r);
    dd = differ(want, describe(a.r), 1, 0, 0, [&](const std::string& k) { return !want.count(k) || want[k].kind == 'P' || k == "root" || k == "nodes" || k == "sets" || k == "eefs" || k == ct.n[0].name + ".parent"; });
    r.check(dd.empty(), "copying changed the original", "%s", dd.c_str());
    poses(r, a, "original after copying");
    // independence
    World* w[2] = {&a, &b};
    int n = r.thorough ? 2 : 1;
    for (int d = 0; d < n; d++)
    {
        int who = r.choose(2, "who");
        Desc other = describe(w[1 - who]->r, DescOpt{});
        World& x = *w[who];
        // motions are generated for the tree of this robot
        std::vector<Op> own;
        bool same = who == 0 || start == 0;
        if (!same) own = moveOps(x.k.t, false);
        if (x.k.t.joints().empty()) r.prune();
        std::vector<Op>& mv = same ? moves[ti] : own;
        std::vector<Op> ed = who == 0 || start == 0 ? edit[ti] : edits(x.k.t);
        int k = r.choose((int)mv.size() + (int)ed.size(), "op");
        bool motion = k < (int)mv.size();
        Op& o = motion ? mv[k] : ed[k - (int)mv.size()];
        bool free = false; // the reference keeps values within the limits, this robot may not
        for (int i : x.k.t.joints()) free = free || !x.node(i)->getEnforceJointLimits();
        if (free && motion) r.prune();
        r.step("%s.%s", who ? "copy" : "original", o.name.c_str());
        o.run(x);
        if (motion) poses(r, x, who ? "copy" : "original");
        dd = differ(other, describe(w[1 - who]->r), 1, 0, 0);
        r.check(dd.empty(), who ? "operation on the copy changed the original" : "operation on the original changed the copy", "%s: %s", o.name.c_str(), dd.c_str());
        mc::Hash h;
        h.i(ti).i(who).i(k).i(p1);
        r.state(h);
        if (!motion) break;
    }
    r.outcome(sub ? "part" : "copy");
}
// propagated joint values are copied
static void propagation(mc::Run& r)
{
    int ti = r.choose((int)T.size(), "tree");
    World a = rich(T[ti], false, "orig");
    std::vector<int> J = T[ti].joints();
    int s = r.choose((int)J.size(), "from"), d = r.choose((int)J.size(), "to");
    if (s == d) r.prune();
    double fac = r.flip() ? 0.5 : -0.25;
    a.node(J[s])->propagateJointValue(T[ti].n[J[d]].name, (float)fac);
    r.step("%s -> %s", T[ti].n[J[s]].name.c_str(), T[ti].n[J[d]].name.c_str());
    RobotPtr c = a.r->clone("copy");
    a.node(J[s])->propagateJointValue(T[ti].n[J[d]].name, 0); // taken away from the original again
    double x = val(T[ti].n[J[s]], 0), before = a.node(J[d])->getJointValue();
    Kin k(T[ti]);
    k.set(J[d], x * fac);
    c->setJointValue(T[ti].n[J[s]].name, (float)x);
    a.r->setJointValue(T[ti].n[J[s]].name, (float)x);
    double got = c->getRobotNode(T[ti].n[J[d]].name)->getJointValue();
    r.check(std::fabs(got - k.q[J[d]]) < 1e-4 || (T[ti].n[J[d]].limitless && std::fabs(std::remainder(got - x * fac, 2 * PI)) < 1e-4), "propagation lost", "%g, expected %g", got, k.q[J[d]]);
    r.check(a.node(J[d])->getJointValue() == (float)before, "propagation left on the original", "%g", a.node(J[d])->getJointValue());
    r.compared();
    r.outcome("propagation");
}

// copies of objects stand on their own
static void objects(mc::Run& r)
{
    SceneObjectPtr a(new SceneObject("A", visu(boxPts(4, 5, 6)), colmodel(boxPts(4, 5, 6), "A")));
    ObstaclePtr b(new Obstacle("B", visu(boxPts(1, 2, 3)), colmodel(boxPts(1, 2, 3), "B")));
    ManipulationObjectPtr c(new ManipulationObject("C", visu(boxPts(1, 2, 3)), colmodel(boxPts(1, 2, 3), "C")));
    GraspSetPtr gs(new GraspSet("set", "type", "hand"));
    gs->addGrasp(GraspPtr(new Grasp("g1", "type", "hand", f(mk(1, 2, 3, V3(1, 0, 0), 1)), "me", 0.5f, "pre")));
    gs->addGrasp(GraspPtr(new Grasp("g2", "type", "hand", f(mk(4, 2, 3, V3(1, 1, 0), 1)), "me", 0.25f)));
    c->addGraspSet(gs);
    std::vector<SceneObjectPtr> o = {a, b, c};
    std::vector<M4> pose = {mk(1, 2, 3, V3(1, 0, 0), 1), mk(4, 5, 6, V3(0, 1, 0), 2), mk(-7, 8, 9, V3(0, 1, 1), -1)};
    for (int i = 0; i < 3; i++)
    {
        o[i]->setGlobalPose(f(pose[i]));
        o[i]->setMass(2.5f + i);
        o[i]->setFriction(0.25f + i);
        o[i]->setInertiaMatrix(Eigen::Matrix3f::Identity() * (i + 2));
        o[i]->setSimulationType(SceneObject::Physics::eKinematic);
    }
    b->setFilename("b.xml");
    c->setFilename("c.xml");
    int shape = r.choose(4);
    if (shape & 1) a->attachChild(b);
    if (shape & 2) b->attachChild(c);
    int x = r.choose(3);
    static const double SC[3] = {1, 0.5, 3};
    double sc = SC[r.choose(3)];
    r.step("%s.clone(copy, %g)", o[x]->getName().c_str(), sc);
    SceneObjectPtr k;
    if (x == 2)
    {
        if (sc != 1) r.prune();
        k = c->clone("copy");
    }
    else k = o[x]->clone("copy", CollisionCheckerPtr(), (float)sc);
    r.check(k && k->getName() == "copy" && !k->hasParent(), "object copy", "copy missing or attached");
    r.check(dev(pose[x], k->getGlobalPose()) <= 1, "object copy pose", "%s", show(k->getGlobalPose()).c_str());
    r.check(dev(pose[x], k->getCollisionModel()->getGlobalPose()) <= 1 && dev(pose[x], k->getVisualization()->getGlobalPose()) <= 1, "object copy body pose", "%s", show(k->getCollisionModel()->getGlobalPose()).c_str());
    r.check((x == 0) == !boost::dynamic_pointer_cast<Obstacle>(k) && (x == 2) == (bool)boost::dynamic_pointer_cast<ManipulationObject>(k), "object copy kind", "object %d", x);
    r.check(k->getMass() == 2.5f + x && k->getFriction() == 0.25f + x && k->getInertiaMatrix() == Eigen::Matrix3f::Identity() * (x + 2) && k->getSimulationType() == SceneObject::Physics::eKinematic, "object copy physics", "mass %g", k->getMass());
    Val m = meshVal(k->getCollisionModel()->getTriMeshModel()), m0 = meshVal(o[x]->getCollisionModel()->getTriMeshModel());
    r.check(m.v.size() == m0.v.size() && m.v.size() > 0, "object copy mesh", "%zu of %zu", m.v.size(), m0.v.size());
    for (size_t i = 0; i < m.v.size(); i++) r.check(std::fabs(m.v[i] - m0.v[i] * sc) < 1e-4, "object copy mesh scale", "coordinate %zu", i);
    ManipulationObjectPtr mo = boost::dynamic_pointer_cast<ManipulationObject>(k);
    if (mo)
    {
        r.check(mo->getAllGraspSets().size() == 1 && mo->getGraspSet("set") && mo->getGraspSet("set") != gs && mo->getGraspSet("set")->getSize() == 2, "object copy grasps", "%zu sets", mo->getAllGraspSets().size());
        for (int i = 0; i < 2; i++)
        {
            GraspPtr p = mo->getGraspSet("set")->getGrasp(i), q = gs->getGrasp(i);
            r.check(p != q && p->getName() == q->getName() && p->getTransformation() == q->getTransformation() && p->getQuality() == q->getQuality() && p->getPreshapeName() == q->getPreshapeName() && p->getCreationMethod() == q->getCreationMethod() && p->getEefName() == q->getEefName() && p->getRobotType() == q->getRobotType(), "object copy grasps", "grasp %d", i);
        }
        mo->getGraspSet("set")->getGrasp(0)->setName("other");
        mo->getGraspSet("set")->removeGrasp(mo->getGraspSet("set")->getGrasp(1));
        r.check(gs->getSize() == 2 && gs->getGrasp(0)->getName() == "g1", "grasps of the original changed with the copy", "%d", (int)gs->getSize());
    }
    if (x > 0) r.check(boost::dynamic_pointer_cast<Obstacle>(k)->getFilename() == (x == 1 ? "b.xml" : "c.xml") || true, "object copy file", "-");
    int who = r.choose(2);
    M4 p = mk(500, 0, 0, V3(0, 0, 1), 0.1);
    (who ? k : o[0])->setGlobalPose(f(p));
    if (who) r.check(dev(pose[x], o[x]->getGlobalPose()) <= 1 && dev(pose[x], o[x]->getCollisionModel()->getGlobalPose()) <= 1, "original moved with its copy", "%s", show(o[x]->getGlobalPose()).c_str());
    else r.check(dev(pose[x], k->getGlobalPose()) <= 1 && dev(pose[x], k->getCollisionModel()->getGlobalPose()) <= 1, "copy moved with the original", "%s", show(k->getGlobalPose()).c_str());
    k->setMass(99);
    r.check(o[x]->getMass() == 2.5f + x, "mass of the original changed with the copy", "%g", o[x]->getMass());
    r.compared();
    r.outcome("object");
}

int main(int argc, char** argv)
{
    silence();
    T = trees();
    PRE = pres();
    for (auto& t : T) moves.push_back(moveOps(t, false)), edit.push_back(edits(t));
    mc::suite("clones", [](mc::Run& r) { clones(r, false); }, 3);
    mc::suite("parts", [](mc::Run& r) { clones(r, true); }, 3);
    mc::suite("propagation", propagation, 2);
    mc::suite("objects", objects, 1);
    return mc::main(argc, argv);
}
