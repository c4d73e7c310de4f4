// Y31: the physics world holds exactly what was added and mirrors the poses of the model.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <SimDynamics/DynamicsWorld.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletObject.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Primitive.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <map>
#include <set>
using namespace VirtualRobot;
using namespace SimDynamics;
using namespace sx;
using mc::strf;
typedef SceneObject::Physics Ph;

struct StubFactory : public VisualizationFactory
{
    static boost::shared_ptr<VisualizationFactory> make(void*)
    {
        return boost::shared_ptr<VisualizationFactory>(new StubFactory());
    }
    VisualizationNodePtr createBox(float w, float h, float d, float, float, float) override
    {
        return visu(boxPts(w, h, d));
    }
    VisualizationNodePtr createVisualization() override
    {
        return visu(boxPts(1, 1, 1));
    }
};
static VisualizationFactory::SubClassRegistry reg("stub", &StubFactory::make);

// keeps its primitives when copied, and shows the mesh it was given
struct PrimVisu : public MeshVisu
{
    Pts pts;
    explicit PrimVisu(const Pts& p) : MeshVisu(mesh(p)), pts(p) {}
    VisualizationNodePtr clone(bool, float s) override
    {
        Pts q = pts;
        for (auto& x : q) x *= s;
        VisualizationNodePtr r(new PrimVisu(q));
        r->primitives = primitives;
        r->setGlobalPose(getGlobalPose());
        return r;
    }
};

static void boot()
{
    silence();
    CollisionChecker::getGlobalCollisionChecker();
}

struct World
{
    BulletEnginePtr e;
    explicit World(float g = 0)
    {
        DynamicsWorld::Close();
        BulletEngineConfigPtr c(new BulletEngineConfig());
        c->gravity = Eigen::Vector3f(0, 0, g);
        DynamicsWorld::Init(c);
        e = boost::dynamic_pointer_cast<BulletEngine>(DynamicsWorld::GetWorld()->getEngine());
    }
    ~World()
    {
        e.reset();
        DynamicsWorld::Close();
    }
};

static ObstaclePtr box(const std::string& name, V3 size, V3 com, Ph::SimulationType t, M4 pose, double mass = 1)
{
    Ph p;
    p.massKg = (float)mass;
    p.comLocation = Ph::eCustom;
    p.localCoM = com.cast<float>();
    p.simType = t;
    ObstaclePtr o(new Obstacle(name, visu(boxPts(size[0], size[1], size[2])), colmodel(boxPts(size[0], size[1], size[2]), name + "_c"), p));
    o->initialize();
    o->setGlobalPose(f(pose));
    return o;
}
// where the world has a body: pose of the model frame that belongs to the pose of its centre of mass
static M4 bodyPose(BulletObjectPtr o, V3 com)
{
    btTransform t = o->getRigidBody()->getWorldTransform();
    M4 m = M4::Identity();
    for (int i = 0; i < 3; i++)
    {
        for (int k = 0; k < 3; k++) m(i, k) = t.getBasis()[i][k];
        m(i, 3) = t.getOrigin()[i] * 1000. / BulletObject::ScaleFactor;
    }
    return M4(m * tr(-com[0], -com[1], -com[2]));
}
static M4 motionPose(BulletObjectPtr o, V3 com)
{
    return M4(o->getComGlobal().cast<double>() * tr(-com[0], -com[1], -com[2]));
}

// ------------------------------------------------------------ robots
static Tree arm()
{
    Tree t;
    t.name = "arm";
    t.n = {F("base", -1, tr(0, 0, 0)), R("j1", 0, mk(0, 0, 100, V3(1, 0, 0), 0.4), V3(0, 0, 1), -1, 1), P("j2", 1, tr(0, 80, 0), V3(1, 0, 0), -50, 50)};
    for (auto& n : t.n) n.mass = 1;
    t.n[1].com = V3(5, -3, 4);
    return t;
}
static RobotPtr armRobot(const std::string& name, M4 at)
{
    BuildOpt o;
    o.meshes = true;
    o.physics = [](int i, Ph& p) { p.simType = i == 0 ? Ph::eKinematic : Ph::eDynamic; };
    RobotPtr r = build(arm(), name, o);
    r->setGlobalPose(f(at));
    return r;
}

// ------------------------------------------------------------ A: what the world contains
static void contents(mc::Run& r)
{
    World w;
    std::vector<DynamicsObjectPtr> obj;
    const V3 com[3] = {V3(3, -2, 1), V3(0, 0, 0), V3(0, 5, 0)};
    const Ph::SimulationType ty[3] = {Ph::eDynamic, Ph::eKinematic, Ph::eStatic};
    for (int i = 0; i < 3; i++) obj.push_back(DynamicsWorld::CreateDynamicsObject(box(strf("o%d", i), V3(40, 30, 20), com[i], ty[i], mk(300 * i, 0, 500, V3(0, 0, 1), 0.3 * i))));
    RobotPtr R1 = armRobot("R1", mk(0, 1000, 0, V3(0, 0, 1), 0.5)), R2 = armRobot("R2", mk(0, -1000, 0, V3(0, 0, 1), 1));
    std::vector<DynamicsRobotPtr> rob = {DynamicsWorld::CreateDynamicsRobot(R1), DynamicsWorld::CreateDynamicsRobot(R1), DynamicsWorld::CreateDynamicsRobot(R2)};
    std::vector<RobotPtr> model = {R1, R1, R2};
    bool in[3] = {}, rin[3] = {}, att = false;
    int depth = r.thorough ? 5 : 4;
    for (int d = 0; d <= depth; d++)
    {
        // ---- compare
        r.at("looking at the world after %d operations", d);
        std::multiset<DynamicsObject*> want, got;
        for (int i = 0; i < 3; i++)
            if (in[i]) want.insert(obj[i].get());
        std::multiset<const btTypedConstraint*> wantC, gotC;
        std::multiset<DynamicsRobot*> wantR, gotR;
        for (int i = 0; i < 3; i++)
            if (rin[i])
            {
                wantR.insert(rob[i].get());
                for (auto& n : rob[i]->getDynamicsRobotNodes()) want.insert(n.get());
                auto links = boost::dynamic_pointer_cast<BulletRobot>(rob[i])->getLinks();
                r.check(links.size() == size_t(2 + (i == 0 && att)), "number of links of a robot", "robot %d has %d links", i, (int)links.size());
                for (auto& l : links) wantC.insert(l.joint.get());
            }
        for (auto& o : w.e->getObjects()) got.insert(o.get());
        r.compared();
        r.check(got == want, "objects of the engine", "the engine lists %d objects, %d were added", (int)got.size(), (int)want.size());
        got.clear();
        btCollisionObjectArray& a = w.e->getBulletWorld()->getCollisionObjectArray();
        for (int i = 0; i < a.size(); i++) got.insert(static_cast<BulletObject*>(a[i]->getUserPointer()));
        r.check(got == want, "bodies in the physics world", "the physics world simulates %d bodies, %d were added", (int)got.size(), (int)want.size());
        for (auto& x : w.e->getRobots()) gotR.insert(x.get());
        r.check(gotR == wantR, "robots of the engine", "the engine lists %d robots, %d were added", (int)gotR.size(), (int)wantR.size());
        for (int i = 0; i < w.e->getBulletWorld()->getNumConstraints(); i++) gotC.insert(w.e->getBulletWorld()->getConstraint(i));
        r.check(gotC == wantC, "joints in the physics world", "the physics world has %d joints, %d belong to added robots", (int)gotC.size(), (int)wantC.size());
        for (int i = 0; i < 3; i++) r.check(w.e->getObject(strf("o%d", i)) == (in[i] ? obj[i] : DynamicsObjectPtr()), "object by name", "looking up o%d gives the wrong object", i);
        DynamicsRobotPtr r1 = rin[0] ? rob[0] : rin[1] ? rob[1] : DynamicsRobotPtr(), r2 = rin[2] ? rob[2] : DynamicsRobotPtr();
        r.check(w.e->getRobot("R1") == r1 && w.e->getRobot(R1) == r1 && w.e->getRobot("R2") == r2 && w.e->getRobot(R2) == r2, "robot by name or model", "looking up a robot gives the wrong one");
        for (int i = 0; i < 3; i++)
            if (rin[i])
                for (auto& l : boost::dynamic_pointer_cast<BulletRobot>(rob[i])->getLinks())
                    r.check(!w.e->checkCollisionEnabled(l.dynNode1.get(), l.dynNode2.get()), "linked bodies collide", "the bodies on both sides of a joint of an added robot may collide");
        mc::Hash h;
        for (int i = 0; i < 3; i++) h.i(in[i]), h.i(rin[i]);
        h.i(att);
        for (int i = 0; i < 3; i++) hash(h, obj[i]->getSceneObject()->getGlobalPose());
        r.state(h);
        if (d == depth) break;
        // ---- operate
        int op = r.choose(15, "operation");
        if (op < 3)
        {
            r.step("add o%d", op);
            bool ok = DynamicsWorld::GetWorld()->addObject(obj[op]);
            if (!in[op]) r.check(ok, "adding an object", "a new object is refused");
            in[op] = true;
        }
        else if (op < 6)
        {
            int i = op - 3;
            if (i == 0 && att) r.prune(); // detach first
            r.step("remove o%d", i);
            bool ok = DynamicsWorld::GetWorld()->removeObject(obj[i]);
            r.check(ok == in[i], "removing an object", "removing o%d reports %d", i, ok);
            in[i] = false;
        }
        else if (op < 9)
        {
            int i = op - 6;
            bool other = i < 2 && rin[1 - i];
            r.step("add robot %d", i);
            bool ok = DynamicsWorld::GetWorld()->addRobot(rob[i]);
            if (!rin[i]) r.check(ok == !other, "adding a robot", "adding robot %d reports %d", i, ok);
            if (!other) rin[i] = true;
        }
        else if (op < 12)
        {
            int i = op - 9;
            r.step("remove robot %d", i);
            bool ok = DynamicsWorld::GetWorld()->removeRobot(rob[i]);
            r.check(ok == rin[i], "removing a robot", "removing robot %d reports %d", i, ok);
            rin[i] = false;
        }
        else if (op == 12)
        {
            if (att || !in[0] || rin[1]) r.prune();
            r.step("attach o0 to the tip of R1");
            bool ok = w.e->DynamicsEngine::attachObjectToRobot("R1", "j2", obj[0]);
            r.check(ok == rin[0], "attaching an object", "reports %d", ok);
            if (ok) att = true;
        }
        else if (op == 13)
        {
            if (!rin[0]) r.prune();
            r.step("detach o0");
            bool ok = w.e->DynamicsEngine::detachObjectFromRobot("R1", obj[0]);
            r.check(ok, "detaching an object", "fails");
            att = false;
        }
        else
        {
            r.step("simulate 20 ms");
            w.e->stepSimulation(0.02, 2, 0.01);
        }
    }
    r.outcome(strf("%d objects, %d robots", in[0] + in[1] + in[2], rin[0] + rin[1] + rin[2]));
}

// ------------------------------------------------------------ B: poses of objects
static void poses(mc::Run& r)
{
    const std::vector<V3> coms = vec<V3>({V3(0, 0, 0), V3(30, -20, 10)});
    const std::vector<M4> at = vec<M4>({M4(tr(0, 0, 0)), mk(100, -200, 300, V3(0, 0, 1), PI / 2), mk(-50, 700, 1500, V3(1, 2, -1), 2.2)});
    V3 com = r.pick(coms, "centre of mass");
    static const Ph::SimulationType ty[] = {Ph::eDynamic, Ph::eKinematic};
    Ph::SimulationType t = ty[r.choose(2, "type")];
    double g = r.choose(2, "gravity") ? -9.81 : 0;
    M4 want = r.pick(at, "start");
    World w((float)g);
    r.step("box of type %d with centre of mass %s at %s", (int)t, showv(com).c_str(), show(want).c_str());
    ObstaclePtr m = box("b", V3(80, 60, 40), com, t, want);
    BulletObjectPtr o = boost::dynamic_pointer_cast<BulletObject>(DynamicsWorld::CreateDynamicsObject(m));
    bool in = false;
    bool known = true;     // the pose is the one last requested
    double lag = 0;    // the model may be one internal step behind
    auto look = [&]() {
        r.compared();
        M4 scene = m->getGlobalPose().cast<double>();
        if (known)
        {
            r.check(dev(want, m->getGlobalPose(), 0.05, 5e-5) <= 1, "pose of the model", "the object is at %s, requested was %s", show(m->getGlobalPose()).c_str(), show(want).c_str());
            r.check(dev(want, f(bodyPose(o, com)), 0.05, 5e-5) <= 1, "pose in the simulation", "the simulation has the object at %s, requested was %s", show(bodyPose(o, com)).c_str(), show(want).c_str());
        }
        r.check(dev(scene, f(motionPose(o, com)), 0.05, 5e-5) <= 1, "pose of the model and reported centre of mass", "the object is at %s, the simulation reports %s", show(scene).c_str(), show(motionPose(o, com)).c_str());
        r.check(dev(bodyPose(o, com), f(scene), 0.05 + lag, 5e-5) <= 1, "model follows the simulation", "the object is at %s, the simulation has it at %s", show(scene).c_str(), show(bodyPose(o, com)).c_str());
        mc::Hash h;
        hash(h, m->getGlobalPose());
        r.state(h);
    };
    look();
    int depth = r.thorough ? 4 : 3;
    for (int d = 0; d < depth; d++)
    {
        int op = r.choose(7, "operation");
        if (op < 3)
        {
            want = at[op];
            known = true;
            lag = 0;
            r.step("set the pose %d", op);
            o->setPose(f(want));
        }
        else if (op == 3)
        {
            want = m->getGlobalPose().cast<double>();
            want.block<3, 1>(0, 3) = V3(-400, 250, 60);
            known = true;
            lag = 0;
            r.step("set the position");
            o->setPosition(Eigen::Vector3f(-400, 250, 60));
        }
        else if (op == 4)
        {
            r.step(in ? "remove it" : "add it");
            r.check(in ? DynamicsWorld::GetWorld()->removeObject(o) : DynamicsWorld::GetWorld()->addObject(o), "adding and removing", "fails");
            in = !in;
        }
        else if (op == 5)
        {
            V3 before = m->getGlobalPose().block<3, 1>(0, 3).cast<double>();
            r.step("simulate 50 ms");
            w.e->stepSimulation(0.05, 5, 0.01);
            lag = o->getLinearVelocity().cast<double>().norm() * 0.011;
            V3 after = m->getGlobalPose().block<3, 1>(0, 3).cast<double>();
            bool moves = in && t == Ph::eDynamic && g != 0;
            if (moves)
            {
                known = false;
                r.check(after[2] < before[2] - 0.5, "a dynamic object falls", "height %g -> %g", before[2], after[2]);
            }
            else if (known) r.check((after - before).norm() < 0.05, "nothing moves without cause", "the object moved by %g mm", (after - before).norm());
            else if (t == Ph::eKinematic || !in) r.check((after - before).norm() < 0.05, "nothing moves without cause", "the object moved by %g mm", (after - before).norm());
        }
        else
        {
            r.step("stop it");
            o->setLinearVelocity(Eigen::Vector3f::Zero());
            o->setAngularVelocity(Eigen::Vector3f::Zero());
        }
        look();
    }
    r.outcome(known ? "pose requested" : "pose simulated");
}

// ------------------------------------------------------------ C: shapes
static void shapes(mc::Run& r)
{
    World w;
    V3 com = r.flip("centre of mass off the origin") ? V3(10, 20, -30) : V3(0, 0, 0);
    int kind = r.choose(4, "shape");
    M4 local = r.flip("shifted primitive") && kind ? mk(15, -25, 35, V3(0, 0, 1), PI / 2) : M4(tr(0, 0, 0));
    M4 pose = r.flip("pose") ? mk(100, 200, 300, V3(1, 0, 0), PI / 2) : M4(tr(0, 0, 0));
    Ph p;
    p.massKg = 1;
    p.comLocation = Ph::eCustom;
    p.localCoM = com.cast<float>();
    p.simType = Ph::eDynamic;
    V3 half = kind == 0 ? V3(40, 30, 20) : kind == 1 ? V3(25, 45, 10) : kind == 2 ? V3(35, 35, 35) : V3(20, 50, 20);
    Pts pts = boxPts(2 * half[0], 2 * half[1], 2 * half[2]);
    for (auto& x : pts) x = (local * V4(x[0], x[1], x[2], 1)).head<3>().cast<float>();
    VisualizationNodePtr v(new PrimVisu(pts)), c(new PrimVisu(pts));
    Primitive::PrimitivePtr pr;
    if (kind == 1) pr.reset(new Primitive::Box(50, 90, 20));
    if (kind == 2) pr.reset(new Primitive::Sphere(35));
    if (kind == 3) pr.reset(new Primitive::Cylinder(20, 100));
    if (pr)
    {
        pr->transform = f(local);
        c->primitives.push_back(pr);
    }
    ObstaclePtr o(new Obstacle("s", v, CollisionModelPtr(new CollisionModel(c, "s_c")), p));
    o->initialize();
    o->setGlobalPose(f(pose));
    static const char* names[] = {"mesh of a box", "box", "sphere", "cylinder"};
    r.step("%s, centre of mass %s, placed in the object at %s, object at %s", names[kind], showv(com).c_str(), show(local).c_str(), show(pose).c_str());
    BulletObjectPtr b = boost::dynamic_pointer_cast<BulletObject>(DynamicsWorld::CreateDynamicsObject(o));
    DynamicsWorld::GetWorld()->addObject(b);
    btVector3 lo, hi;
    b->getRigidBody()->getAabb(lo, hi);
    M4 m(pose * local);
    for (int i = 0; i < 3; i++)
    {
        double e = 0;
        for (int k = 0; k < 3; k++) e += std::fabs(m(i, k)) * half[k];
        double sc = 1000. / BulletObject::ScaleFactor, wl = m(i, 3) - e, wh = m(i, 3) + e;
        r.compared();
        // Bullet surrounds shapes by a margin of 20 mm at most at this scale; rounded shapes are boxed exactly
        r.check(lo[i] * sc <= wl + 0.5 && hi[i] * sc >= wh - 0.5 && lo[i] * sc >= wl - 21 && hi[i] * sc <= wh + 21, strf("extent of a %s in the simulation", names[kind]), "axis %d: the simulated body covers %g to %g, the model %g to %g", i, lo[i] * sc, hi[i] * sc, wl, wh);
    }
    mc::Hash h;
    h.i(kind);
    h.f(com[0], 1).f(local(0, 3), 1).f(pose(0, 3), 1);
    r.state(h);
    r.outcome(names[kind]);
}

// ------------------------------------------------------------ D: robots
static Tree joints(int k)
{
    Tree t;
    t.name = "r" + std::to_string(k);
    double off = k == 1 || k == 3 ? 1 : 0;
    t.n = {F("base", -1, tr(0, 0, 0))};
    if (k < 2) t.n.push_back(R("j1", 0, mk(0, 0, 100, V3(1, 0, 0), 0.4), V3(0, 0, 1), -1, 1.2, 0.4 * off));
    else if (k < 4) t.n.push_back(P("j1", 0, mk(0, 0, 100, V3(1, 0, 0), 0.4), V3(0, 1, 0), -60, 50, 20 * off));
    else
    {
        t.n.push_back(R("j1", 0, mk(0, 0, 100, V3(1, 0, 0), 0.4), V3(0, 1, 0), -1, 1));
        t.n.push_back(P("j2", 1, mk(0, 80, 0, V3(0, 0, 1), 1), V3(0, 0, 1), -50, 60));
    }
    for (auto& n : t.n) n.mass = 1;
    t.n[1].com = V3(5, -3, 4);
    return t;
}
static void robots(mc::Run& r)
{
    const std::vector<M4> at = vec<M4>({M4(tr(0, 0, 0)), mk(300, -200, 100, V3(1, 2, 3), 1.2)});
    int kind = r.choose(5, "robot");
    World w;
    Tree t = joints(kind);
    BuildOpt o;
    o.meshes = true;
    o.physics = [](int i, Ph& p) { p.simType = i == 0 ? Ph::eKinematic : Ph::eDynamic; };
    RobotPtr R = build(t, "R", o);
    for (auto& n : R->getRobotNodes())
    {
        n->setMaxVelocity(2);
        n->setMaxAcceleration(20);
    }
    int b = r.choose(2, "pose of the base");
    M4 base = at[b];
    R->setGlobalPose(f(base));
    r.step("robot %d at pose %d", kind, b);
    BulletRobotPtr D = boost::dynamic_pointer_cast<BulletRobot>(DynamicsWorld::CreateDynamicsRobot(R));
    DynamicsWorld::GetWorld()->addRobot(D);
    std::vector<int> js = t.joints();
    std::map<int, double> target; // position targets
    std::set<int> act;
    for (int j : js) target[j] = 0, act.insert(j);
    bool moved = false;  // simulated since the robot was placed
    bool jumped = false; // a kinematic base that was placed anew throws the bodies for a moment
    auto look = [&]() {
        mc::Hash h;
        Kin kin(t);
        kin.base = base;
        for (size_t i = 0; i < t.n.size(); i++) kin.q[i] = R->getRobotNode(t.n[i].name)->getJointValue();
        auto P = kin.poses();
        for (size_t i = 0; i < t.n.size(); i++)
        {
            RobotNodePtr n = R->getRobotNode(t.n[i].name);
            BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(D->getDynamicsRobotNode(n));
            r.check(bool(bo), "bodies of the robot", "%s has no body", t.n[i].name.c_str());
            r.compared();
            double lag = moved ? bo->getLinearVelocity().cast<double>().norm() * 0.011 : 0;
            double lagR = moved ? bo->getAngularVelocity().cast<double>().norm() * 0.011 : 0;
            M4 scene = n->getGlobalPose().cast<double>();
            r.check(dev(scene, f(bodyPose(bo, t.n[i].com)), (moved ? 1 : 0.05) + lag + 10 * lagR, (moved ? 3e-3 : 1e-4) + lagR) <= 1, "pose of a node in the simulation", "%s: the model is at %s, the simulation at %s", t.n[i].name.c_str(), show(scene).c_str(), show(bodyPose(bo, t.n[i].com)).c_str());
            // joints in the simulation give way a little
            if (!jumped || !moved) r.check(dev(P[i], n->getGlobalPose(), moved ? 4 : 0.05, moved ? 0.03 : 1e-4) <= 1, "joint values and poses of the nodes", "%s is at %s; joint values and base put it at %s", t.n[i].name.c_str(), show(scene).c_str(), show(P[i]).c_str());
            h.f(kin.q[i], 0.01);
            if (t.n[i].kind == 'F') continue;
            r.check(std::fabs(D->getJointAngle(n) - kin.q[i]) <= (t.n[i].kind == 'R' ? 0.001 + 2 * lagR : 0.5 + lag + 100 * lagR), "joint value in the simulation", "%s: the model has %g, the simulation reports %g", t.n[i].name.c_str(), kin.q[i], D->getJointAngle(n));
            r.check(D->isNodeActuated(n) == (act.count((int)i) > 0), "actuated joints", "%s is reported as %sactuated", t.n[i].name.c_str(), D->isNodeActuated(n) ? "" : "not ");
            if (target.count((int)i)) r.check(std::fabs(D->getNodeTarget(n) - target[(int)i]) < 1e-9, "target of a joint", "%s: target %g, requested was %g", t.n[i].name.c_str(), D->getNodeTarget(n), target[(int)i]);
        }
        hash(h, R->getGlobalPose());
        r.state(h);
    };
    r.at("after creating the robot");
    look();
    int depth = r.thorough ? 4 : 3;
    for (int d = 0; d < depth; d++)
    {
        int op = r.choose(2 + 4 * (int)js.size(), "operation");
        if (op == 0)
        {
            base = at[1 - b];
            b = 1 - b;
            r.step("set the pose of the robot");
            D->setGlobalPose(f(base));
            moved = false;
            jumped = true;
        }
        else if (op == 1)
        {
            r.step("simulate 50 ms");
            for (int i = 0; i < 5; i++) w.e->stepSimulation(0.01, 1, 0.01);
            moved = true;
        }
        else
        {
            int j = js[(op - 2) / 4];
            RobotNodePtr n = R->getRobotNode(t.n[j].name);
            double v = t.n[j].kind == 'R' ? 0.6 : 35;
            switch ((op - 2) % 4)
            {
                case 0:
                case 1:
                {
                    v = (op - 2) % 4 ? -v : v;
                    r.step("move %s to %g and simulate 4 s", n->getName().c_str(), v);
                    D->actuateNode(n, v);
                    target[j] = v;
                    act.insert(j);
                    for (int i = 0; i < 400; i++) w.e->stepSimulation(0.01, 1, 0.01);
                    double q = n->getJointValue();
                    r.check(std::fabs(q - v) < (t.n[j].kind == 'R' ? 0.03 : 3), "an actuated joint reaches its target", "%s: target %g, value after 4 s %g", n->getName().c_str(), v, q);
                    moved = true;
                    jumped = false;
                    break;
                }
                case 2:
                    r.step("velocity of %s", n->getName().c_str());
                    D->actuateNodeVel(n, t.n[j].kind == 'R' ? 0.3 : 20);
                    act.insert(j);
                    target.erase(j);
                    break;
                default:
                    r.step("no actuation of %s", n->getName().c_str());
                    D->disableNodeActuation(n);
                    act.erase(j);
                    target[j] = 0;
                    break;
            }
        }
        r.at("after operation %d", d);
        look();
    }
    r.outcome(strf("%d joints actuated", (int)act.size()));
}

// ------------------------------------------------------------ E: which collisions are considered
static void collisions(mc::Run& r)
{
    World w;
    BulletObjectPtr o[3];
    ObstaclePtr m[3];
    for (int i = 0; i < 3; i++)
    {
        m[i] = box(strf("o%d", i), V3(40, 40, 40), V3(0, 0, 0), Ph::eDynamic, tr(1000 * i, 0, 0));
        o[i] = boost::dynamic_pointer_cast<BulletObject>(DynamicsWorld::CreateDynamicsObject(m[i]));
        DynamicsWorld::GetWorld()->addObject(o[i]);
    }
    bool pair[3][3] = {}, all[3] = {};
    int depth = r.thorough ? 5 : 4;
    for (int d = 0; d < depth; d++)
    {
        int op = r.choose(11, "operation");
        DynamicsObject *a = o[0].get(), *b = o[1].get(), *c = o[2].get();
        auto set = [&](int i, int k, bool v) { pair[i][k] = pair[k][i] = v; };
        switch (op)
        {
            case 0: r.step("disable 0-1"); w.e->disableCollision(a, b); set(0, 1, true); break;
            case 1: r.step("disable 1-0"); w.e->disableCollision(b, a); set(0, 1, true); break;
            case 2: r.step("enable 0-1"); w.e->enableCollision(a, b); set(0, 1, false); break;
            case 3: r.step("enable 1-0"); w.e->enableCollision(b, a); set(0, 1, false); break;
            case 4: r.step("disable 1-2"); w.e->disableCollision(b, c); set(1, 2, true); break;
            case 5: r.step("disable 0"); w.e->disableCollision(a); all[0] = true; break;
            case 6: r.step("enable 0"); w.e->enableCollision(a); all[0] = false; break;
            case 7: r.step("disable 2"); w.e->disableCollision(c); all[2] = true; break;
            case 8: r.step("reset 0"); w.e->resetCollisions(a); all[0] = false; set(0, 1, false); set(0, 2, false); break;
            case 9: r.step("reset 1"); w.e->resetCollisions(b); all[1] = false; set(1, 0, false); set(1, 2, false); break;
            default: r.step("simulate with all apart"); w.e->stepSimulation(0.01, 1, 0.01); break;
        }
        for (int i = 0; i < 3; i++)
        {
            r.check(w.e->checkCollisionEnabled(o[i].get()) == !all[i], "collisions of an object", "object %d: enabled is reported as %d", i, !all[i] ? 0 : 1);
            for (int k = 0; k < 3; k++)
            {
                r.compared();
                bool want = !all[i] && !all[k] && !pair[i][k];
                r.check(w.e->checkCollisionEnabled(o[i].get(), o[k].get()) == want, "collisions of a pair", "objects %d and %d: enabled is reported as %d", i, k, !want);
            }
        }
    }
    // bring them together: a bit of overlap between 0-1 and 1-2, and between 0-2
    const double x[3] = {0, 39, 20}, y[3] = {0, 0, 39};
    for (int i = 0; i < 3; i++) o[i]->setPose(f(tr(x[i], y[i], 0)));
    w.e->activateAllObjects();
    w.e->stepSimulation(0.01, 1, 0.01);
    bool got[3][3] = {};
    for (auto& c : w.e->getContacts())
    {
        int i = c.objectAName[1] - '0', k = c.objectBName[1] - '0';
        if (i >= 0 && i < 3 && k >= 0 && k < 3) got[i][k] = got[k][i] = true;
    }
    mc::Hash h;
    int n = 0;
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < i; k++)
        {
            bool want = !all[i] && !all[k] && !pair[i][k];
            r.compared();
            r.check(got[i][k] == want, want ? "contact of touching bodies" : "contact of bodies whose collision is disabled", "objects %d and %d touch: contact %d", k, i, got[i][k]);
            h.i(want);
            n += want;
        }
    r.state(h);
    r.outcome(strf("%d contacts", n));
}

// ------------------------------------------------------------ F: floor and configuration
static void floorAndConfig(mc::Run& r)
{
    const std::vector<V3> ups = vec<V3>({V3(0, 0, 1), V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, -1)});
    const std::vector<V3> at = vec<V3>({V3(0, 0, 0), V3(0, 0, 200), V3(100, -300, 50)});
    V3 up = r.pick(ups, "up"), pos = r.pick(at, "position");
    double g2 = r.choose(2, "new gravity") ? -5 : 0;
    double fr = r.choose(2, "friction") ? 0.8 : 0; // of the object
    int after = r.choose(2, "object added after the change");
    World w;
    BulletEngineConfigPtr c(new BulletEngineConfig());
    c->gravity = Eigen::Vector3f(1, 0, (float)g2);
    c->bulletObjectFriction = btScalar(0.3);
    ObstaclePtr m = box("o", V3(40, 40, 40), V3(0, 0, 0), Ph::eDynamic, M4(tr(pos[0], pos[1], pos[2])));
    m->setGlobalPose(f(M4(tr(pos[0] + 300 * up[0], pos[1] + 300 * up[1], pos[2] + 300 * up[2]))));
    m->setFriction((float)fr);
    BulletObjectPtr o = boost::dynamic_pointer_cast<BulletObject>(DynamicsWorld::CreateDynamicsObject(m));
    r.step("floor at %s up %s", showv(pos).c_str(), showv(up).c_str());
    DynamicsWorld::GetWorld()->createFloorPlane(pos.cast<float>(), up.cast<float>());
    if (!after) DynamicsWorld::GetWorld()->addObject(o);
    r.step("new configuration");
    w.e->updateConfig(c);
    if (after) DynamicsWorld::GetWorld()->addObject(o);
    btVector3 g = w.e->getBulletWorld()->getGravity();
    r.compared();
    r.check(std::fabs(g[0] - BulletObject::ScaleFactor) < 1e-5 && std::fabs(g[2] - g2 * BulletObject::ScaleFactor) < 1e-5, "gravity of the simulation", "the simulation has %g %g %g", g[0], g[1], g[2]);
    r.check((w.e->getGravity() - c->gravity).norm() < 1e-6, "reported gravity", "the engine reports %s after the configuration was changed to %s", showv(w.e->getGravity()).c_str(), showv(c->gravity).c_str());
    r.check(std::fabs(o->getRigidBody()->getFriction() - (fr > 0 ? fr : 0.3)) < 1e-6, "friction of an object", "friction is %g", o->getRigidBody()->getFriction());
    r.check(w.e->getObjects().size() == 2 && bool(w.e->getFloor()), "floor is part of the world", "%d objects", (int)w.e->getObjects().size());
    Eigen::Vector3f fp, fu;
    double ext, dep;
    w.e->getFloorInfo(fp, fu, ext, dep);
    r.check((fp - pos.cast<float>()).norm() < 1e-3 && (fu - up.cast<float>()).norm() < 1e-5, "floor that is reported", "at %s", showv(fp).c_str());
    btVector3 lo, hi;
    boost::dynamic_pointer_cast<BulletObject>(w.e->getFloor())->getRigidBody()->getAabb(lo, hi);
    int ax = std::fabs(up[0]) > 0.5 ? 0 : std::fabs(up[1]) > 0.5 ? 1 : 2;
    double surf = (up[ax] > 0 ? hi[ax] : lo[ax]) * 1000. / BulletObject::ScaleFactor;
    r.check(std::fabs(surf - pos[ax]) < 1, "surface of the floor", "the surface lies at %g along axis %d, requested was %g", surf, ax, pos[ax]);
    mc::Hash h;
    h.i(ax).f(pos[0], 1).f(pos[2], 1).f(up[ax], 1);
    r.state(h);
    r.outcome(strf("axis %d", ax));
}

int main(int argc, char** argv)
{
    mc::setup(boot);
    mc::suite("contents of the world", contents, 2);
    mc::suite("poses", poses, 2);
    mc::suite("shapes", shapes, 1);
    mc::suite("robots", robots, 2);
    mc::suite("collisions", collisions, 2);
    mc::suite("floor and configuration", floorAndConfig, 2);
    return mc::main(argc, argv);
}
