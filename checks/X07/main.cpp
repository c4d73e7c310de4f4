// X07: scenes, objects, grasps, configurations and trajectories survive saving and loading.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Primitive.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <VirtualRobot/XML/ObjectIO.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/XML/SceneIO.h>
#include <algorithm>
#include <csignal>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

// ------------------------------------------------------------ a stub visualisation back end
struct StubVisu : public MeshVisu
{
    float w, h, d;
    StubVisu(float w, float h, float d) : MeshVisu(mesh(boxPts(w, h, d))), w(w), h(h), d(d) {}
    std::string getType() override
    {
        return "stub";
    }
    VisualizationNodePtr clone(bool, float s) override
    {
        boost::shared_ptr<StubVisu> r(new StubVisu(w * s, h * s, d * s));
        r->setGlobalPose(getGlobalPose());
        r->setFilename(getFilename(), usedBoundingBoxVisu());
        r->primitives = primitives;
        return r;
    }
};
struct StubFactory : public VisualizationFactory
{
    static boost::shared_ptr<VisualizationFactory> make(void*)
    {
        return boost::shared_ptr<VisualizationFactory>(new StubFactory());
    }
    VisualizationNodePtr getVisualizationFromPrimitives(const std::vector<Primitive::PrimitivePtr>& p, bool bb, Color) override
    {
        VisualizationNodePtr v(new StubVisu(1, 1, 1));
        v->primitives = p;
        v->setFilename("", bb);
        return v;
    }
    VisualizationNodePtr getVisualizationFromFile(const std::string& f, bool bb, float, float, float) override
    {
        std::ifstream in(f);
        float w, h, d;
        if (!(in >> w >> h >> d)) return VisualizationNodePtr();
        VisualizationNodePtr v(new StubVisu(w, h, d));
        v->setFilename(f, bb);
        return v;
    }
    VisualizationNodePtr createVisualization() override
    {
        return VisualizationNodePtr(new StubVisu(1, 1, 1));
    }
};
static VisualizationFactory::SubClassRegistry reg("stub", &StubFactory::make);

// ------------------------------------------------------------ files
static std::string root()
{
    static std::string s;
    if (s.empty())
    {
        char b[4096];
        s = realpath(mc::scratch().c_str(), b);
    }
    return s;
}
static const char* DIRS[5] = {"obj", "obj/sub", "obj2", ".", "ob"};   // where models lie; objects are written to obj
static std::string modelFile(int dir, int k)
{
    return root() + "/" + DIRS[dir] + strf("/m%d.txt", k);
}
static void write(const std::string& f, const std::string& s)
{
    std::ofstream o(f);
    o << s;
}
static void layout()
{
    static bool done = false;
    if (done) return;
    done = true;
    for (const char* d : {"obj", "obj/sub", "obj2", "ob", "elsewhere", "elsewhere/deep", "cwd", "cwd/sub"}) mkdir((root() + "/" + d).c_str(), 0755);
    for (int d = 0; d < 5; d++)
        for (int k = 0; k < 2; k++) write(modelFile(d, k), strf("%d %d %d", 10 + d, 20 + k, 30 + d + k));
    // files of the same names in a working directory
    for (int k = 0; k < 2; k++)
    {
        write(root() + strf("/cwd/m%d.txt", k), "99 98 97");
        write(root() + strf("/cwd/sub/m%d.txt", k), "96 95 94");
    }
    if (chdir(root().c_str())) throw std::runtime_error("chdir");
}
static VisualizationNodePtr fromFile(int dir, int k, bool bb = false)
{
    return StubFactory().getVisualizationFromFile(modelFile(dir, k), bb, 1, 1, 1);
}
static VisualizationNodePtr fromPrimitives(int k)
{
    std::vector<Primitive::PrimitivePtr> p;
    if (k == 0 || k == 2) p.push_back(Primitive::PrimitivePtr(new Primitive::Box(1.5f, 20, 300.25f)));
    if (k >= 1) p.push_back(Primitive::PrimitivePtr(new Primitive::Sphere(12.5f)));
    if (k == 2)
    {
        p.push_back(Primitive::PrimitivePtr(new Primitive::Cylinder(5, 0.125f)));
        p[0]->transform = f(mk(1, -2, 3.5, V3(1, 1, 0), 0.7));
        p[2]->transform = f(mk(-100, 0, 0, V3(0, 1, 0), -1.1));
    }
    return StubFactory().getVisualizationFromPrimitives(p, false, VisualizationFactory::Color::Gray());
}
static std::string visuSays(VisualizationNodePtr v)
{
    if (!v) return "nothing";
    std::string fn = v->getFilename();
    if (!fn.empty())
    {
        char b[4096];
        const char* p = realpath(fn.c_str(), b);
        fn = p ? p : "missing " + fn;
        if (fn.compare(0, root().size(), root()) == 0) fn = fn.substr(root().size());
    }
    std::string s = v->getType() + " " + fn + (v->usedBoundingBoxVisu() ? " bb" : "");
    for (auto& p : v->primitives)
    {
        if (auto* b = dynamic_cast<Primitive::Box*>(p.get())) s += strf(" box %g %g %g", b->width, b->height, b->depth);
        if (auto* b = dynamic_cast<Primitive::Sphere*>(p.get())) s += strf(" sphere %g", b->radius);
        if (auto* b = dynamic_cast<Primitive::Cylinder*>(p.get())) s += strf(" cylinder %g %g", b->radius, b->height);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 4; j++) s += strf(" %.4g", p->transform(i, j) + 0.f);
    }
    return s;
}

// ------------------------------------------------------------ comparing
static bool near(double a, double b, double rel = 2e-5)
{
    return std::fabs(a - b) <= rel * (0.1 + std::fabs(a));
}
static void samePose(mc::Run& r, const Eigen::Matrix4f& w, const Eigen::Matrix4f& g, const std::string& what)
{
    r.check(dev(w.cast<double>(), g, 0.02, 3e-5) <= 1, what, "%s, expected %s", show(g).c_str(), show(w).c_str());
}
static void sameGrasp(mc::Run& r, GraspPtr w, GraspPtr g)
{
    r.check(w->getName() == g->getName(), "the name of a grasp is lost", "'%s', expected '%s'", g->getName().c_str(), w->getName().c_str());
    r.check(w->getRobotType() == g->getRobotType() && w->getEefName() == g->getEefName(), "the robot or end effector of a grasp is lost", "%s/%s", g->getRobotType().c_str(), g->getEefName().c_str());
    r.check(w->getCreationMethod() == g->getCreationMethod(), "the creation method of a grasp is lost", "'%s', expected '%s'", g->getCreationMethod().c_str(), w->getCreationMethod().c_str());
    r.check(near(w->getQuality(), g->getQuality()), "the quality of a grasp is lost", "%g, expected %g", g->getQuality(), w->getQuality());
    r.check(w->getPreshapeName() == g->getPreshapeName(), "the preshape of a grasp is lost", "'%s', expected '%s'", g->getPreshapeName().c_str(), w->getPreshapeName().c_str());
    samePose(r, w->getTransformation(), g->getTransformation(), "the pose of a grasp is lost");
    auto a = w->getConfiguration(), b = g->getConfiguration();
    bool ok = a.size() == b.size();
    for (auto& x : a) ok = ok && b.count(x.first) && near(x.second, b[x.first]);
    r.check(ok, "the finger configuration of a grasp is lost", "%zu values, expected %zu", b.size(), a.size());
}
static void sameObject(mc::Run& r, ObstaclePtr w, ObstaclePtr g)
{
    r.check(bool(g), "an object is not loaded", "%s", w->getName().c_str());
    r.compared();
    r.check(w->getName() == g->getName(), "the name of an object is lost", "'%s', expected '%s'", g->getName().c_str(), w->getName().c_str());
    samePose(r, w->getGlobalPose(), g->getGlobalPose(), "the pose of an object is lost");
    SceneObject::Physics p = w->getPhysics(), q = g->getPhysics();
    r.check(near(p.massKg, q.massKg), "the mass of an object is lost", "%g, expected %g", q.massKg, p.massKg);
    r.check(p.comLocation == q.comLocation && (p.localCoM - q.localCoM).norm() < 0.01, "the centre of mass of an object is lost", "%s, expected %s", showv(q.localCoM).c_str(), showv(p.localCoM).c_str());
    r.check((p.inertiaMatrix - q.inertiaMatrix).cwiseAbs().maxCoeff() < 1e-4 * (1 + p.inertiaMatrix.cwiseAbs().maxCoeff()), "the inertia of an object is lost", "%g %g %g, expected %g %g %g", q.inertiaMatrix(0, 0), q.inertiaMatrix(0, 1), q.inertiaMatrix(1, 1), p.inertiaMatrix(0, 0), p.inertiaMatrix(0, 1), p.inertiaMatrix(1, 1));
    r.check(p.simType == q.simType, "the simulation type of an object is lost", "%d, expected %d", (int)q.simType, (int)p.simType);
    r.check(near(p.friction, q.friction), "the friction of an object is lost", "%g, expected %g", q.friction, p.friction);
    r.check(p.ignoreCollisions == q.ignoreCollisions, "the ignored collisions of an object are lost", "%zu, expected %zu", q.ignoreCollisions.size(), p.ignoreCollisions.size());
    std::string a = visuSays(w->getVisualization()), b = visuSays(g->getVisualization());
    r.check(a == b, "the visualisation of an object is lost", "%s, expected %s", b.c_str(), a.c_str());
    r.check(bool(w->getCollisionModel()) == bool(g->getCollisionModel()), "the collision model of an object is lost", "%d", (int)bool(g->getCollisionModel()));
    if (w->getCollisionModel())
    {
        a = visuSays(w->getCollisionModel()->getVisualization());
        b = visuSays(g->getCollisionModel()->getVisualization());
        r.check(a == b, "the collision model of an object is lost", "%s, expected %s", b.c_str(), a.c_str());
    }
    ManipulationObjectPtr mw = boost::dynamic_pointer_cast<ManipulationObject>(w), mg = boost::dynamic_pointer_cast<ManipulationObject>(g);
    r.check(bool(mw) == bool(mg), "an object is loaded as another kind", "%d", (int)bool(mg));
    if (!mw) return;
    auto s = mw->getAllGraspSets(), t = mg->getAllGraspSets();
    r.check(s.size() == t.size(), "grasp sets are lost", "%zu, expected %zu", t.size(), s.size());
    for (size_t i = 0; i < s.size(); i++)
    {
        r.check(s[i]->getName() == t[i]->getName() && s[i]->getRobotType() == t[i]->getRobotType() && s[i]->getEndEffector() == t[i]->getEndEffector(), "the name, robot or end effector of a grasp set is lost", "%s/%s/%s", t[i]->getName().c_str(), t[i]->getRobotType().c_str(), t[i]->getEndEffector().c_str());
        r.check(s[i]->getSize() == t[i]->getSize(), "grasps are lost", "%u, expected %u", t[i]->getSize(), s[i]->getSize());
        for (unsigned k = 0; k < s[i]->getSize(); k++) sameGrasp(r, s[i]->getGrasp(k), t[i]->getGrasp(k));
    }
    mc::Hash h;
    h.s(mw->toXML());
    r.state(h);
}

// ------------------------------------------------------------ objects
// brings derived data up to date where it is
static void init(ObstaclePtr o)
{
    Eigen::Matrix4f p = o->getGlobalPose();
    o->initialize();
    o->setGlobalPose(p);
}
struct Spec
{
    std::string name = "thing";
    M4 pose = M4::Identity();
    SceneObject::Physics ph;
    VisualizationNodePtr visu, col;
    std::vector<GraspSetPtr> sets;
};
struct Feat
{
    std::string name;
    std::function<bool(Spec&)> add;
};
static GraspPtr grasp(int i, const char* robot = "model", const char* eef = "hand")
{
    GraspPtr g(new Grasp(strf("grasp %d", i), robot, eef, f(mk(10 * i - 3.25, 0.5, -1234.5, V3(1, i, 2), 0.3 + i)), i % 2 ? "planned" : "", 0.123456f * i, i % 3 == 1 ? "open" : ""));
    return g;
}
static std::vector<Feat> feats()
{
    std::vector<Feat> v;
    auto add = [&](const std::string& n, std::function<void(Spec&)> fn) { v.push_back({n, [fn](Spec& s) { fn(s); return true; }}); };
    add("name with blanks", [](Spec& s) { s.name = "a thing, 2.0"; });
    add("pose", [](Spec& s) { s.pose = mk(10.25, -20, 3000.5, V3(1, 2, 3), 1.1); });
    add("turned", [](Spec& s) { s.pose = rot(V3(0, 0, 1), PI); });
    add("slightly moved", [](Spec& s) { s.pose = tr(0.01, 0, 0); });
    add("far away", [](Spec& s) { s.pose = mk(-123456, 7, 98765, V3(0, 1, 1), -2); });
    add("mass", [](Spec& s) { s.ph.massKg = 2.125f; });
    add("centre of mass", [](Spec& s) { s.ph.comLocation = SceneObject::Physics::eCustom; s.ph.localCoM = Eigen::Vector3f(1.5f, -200, 0.25f); });
    add("centre of mass at zero", [](Spec& s) { s.ph.comLocation = SceneObject::Physics::eCustom; s.ph.localCoM = Eigen::Vector3f(0, 0, 0); });
    add("inertia", [](Spec& s) { s.ph.inertiaMatrix << 1.5f, 0.1f, -0.2f, 0.1f, 2, 0.3f, -0.2f, 0.3f, 3; });
    add("static", [](Spec& s) { s.ph.simType = SceneObject::Physics::eStatic; });
    add("dynamic", [](Spec& s) { s.ph.simType = SceneObject::Physics::eDynamic; });
    add("kinematic", [](Spec& s) { s.ph.simType = SceneObject::Physics::eKinematic; });
    add("friction", [](Spec& s) { s.ph.friction = 0.75f; });
    add("no friction", [](Spec& s) { s.ph.friction = 0; });
    add("ignored collisions", [](Spec& s) { s.ph.ignoreCollisions = {"table", "a b", "x"}; });
    for (int d = 0; d < 5; d++)
    {
        add(strf("visualisation in %s", DIRS[d]), [d](Spec& s) { s.visu = fromFile(d, 0); });
        add(strf("collision model in %s", DIRS[d]), [d](Spec& s) { s.col = fromFile(d, 1); });
    }
    add("visualisation by bounding box", [](Spec& s) { s.visu = fromFile(0, 0, true); });
    add("collision model by bounding box", [](Spec& s) { s.col = fromFile(1, 1, true); });
    for (int k = 0; k < 3; k++)
    {
        add(strf("visualisation of primitives %d", k), [k](Spec& s) { s.visu = fromPrimitives(k); });
        add(strf("collision model of primitives %d", k), [k](Spec& s) { s.col = fromPrimitives(k); });
    }
    add("the same model for both", [](Spec& s) { s.visu = fromFile(1, 0); s.col = s.visu; });
    auto gs = [](Spec& s, const char* n, const char* e) {
        GraspSetPtr x(new GraspSet(n, "model", e));
        s.sets.push_back(x);
        return x;
    };
    add("empty grasp set", [gs](Spec& s) { gs(s, "empty", "hand"); });
    add("grasp set", [gs](Spec& s) { gs(s, "some grasps", "hand")->addGrasp(grasp(1)); });
    add("grasp set for the other hand", [gs](Spec& s) {
        GraspSetPtr x = gs(s, "others", "other hand");
        x->addGrasp(grasp(2, "model", "other hand"));
        x->addGrasp(grasp(0, "model", "other hand"));
    });
    add("many grasps", [gs](Spec& s) {
        GraspSetPtr x = gs(s, "many", "hand");
        for (int i : {3, 1, 4, 1, 5, 9, 2, 6}) x->addGrasp(grasp(i));
    });
    add("finger configurations", [gs](Spec& s) {
        GraspSetPtr x = gs(s, "fingers", "hand");
        for (int i : {1, 2})
        {
            GraspPtr g = grasp(i);
            std::map<std::string, float> c;
            c["thumb"] = -0.5f * i;
            if (i == 2) c["index finger"] = 0.123456f;
            g->setConfiguration(c);
            x->addGrasp(g);
        }
    });
    add("negative quality, no pose", [gs](Spec& s) { gs(s, "neg", "hand")->addGrasp(GraspPtr(new Grasp("n", "model", "hand", Eigen::Matrix4f::Identity(), "by hand", -3.5f, "a shape"))); });
    return v;
}
static ObstaclePtr make(const Spec& s, bool manipulation)
{
    CollisionModelPtr c;
    if (s.col) c.reset(new CollisionModel(s.col, s.name + "_ColModel"));
    ObstaclePtr o;
    if (manipulation)
    {
        ManipulationObjectPtr m(new ManipulationObject(s.name, s.visu, c, s.ph));
        for (auto& g : s.sets) m->addGraspSet(g->clone());
        o = m;
    }
    else
        o.reset(new Obstacle(s.name, s.visu, c, s.ph));
    o->initialize();
    o->setGlobalPose(f(s.pose));
    return o;
}
static ObstaclePtr reread(mc::Run& r, ObstaclePtr o, int how, const std::string& dir)
{
    ManipulationObjectPtr m = boost::dynamic_pointer_cast<ManipulationObject>(o);
    std::string base = root() + "/" + dir, file = base + "/saved.xml";
    ObstaclePtr g;
    if (how == 0)
    {
        r.step("text");
        std::string x = m ? m->toXML(base) : o->toXML(base);
        r.note("%s", x.c_str());
        if (m) g = ObjectIO::createManipulationObjectFromString(x, base);
        else g = ObjectIO::createObstacleFromString(x, base);
        if (g) init(g);
    }
    else if (how == 1)
    {
        r.step("file");
        if (m)
        {
            r.check(ObjectIO::saveManipulationObject(m, file), "an object cannot be saved", "%s", file.c_str());
            g = ObjectIO::loadManipulationObject(file);
        }
        else
        {
            write(file, o->toXML(base));
            g = ObjectIO::loadObstacle(file);
            if (g) init(g);
        }
    }
    else
    {
        r.step("scene");
        ScenePtr s(new Scene("scene"));
        if (m) s->registerManipulationObject(m);
        else s->registerObstacle(o);
        r.check(SceneIO::saveScene(s, file), "a scene cannot be saved", "%s", file.c_str());
        ScenePtr t = SceneIO::loadScene(file);
        r.check(t->getManipulationObjects().size() == (m ? 1u : 0u) && t->getObstacles().size() == (m ? 0u : 1u), "a scene loses an object", "%zu %zu", t->getManipulationObjects().size(), t->getObstacles().size());
        if (m) g = t->getManipulationObjects()[0];
        else g = t->getObstacles()[0];
        init(g);
    }
    r.check(bool(g), "an object is not loaded", "%d", how);
    return g;
}
static void objects(mc::Run& r)
{
    layout();
    static std::vector<Feat> F = feats();
    Spec s;
    int n = r.thorough ? 3 : 2, from = 0;
    r.at("object");
    for (int i = 0; i < n; i++)
    {
        int k = from + r.choose((int)F.size() + 1 - from, "feature");
        if (k == (int)F.size()) break;
        from = k + 1;
        r.note("%s", F[k].name.c_str());
        F[k].add(s);
    }
    bool manip = r.flip("manipulation object");
    if (!manip && !s.sets.empty()) r.prune();
    int how = r.choose(3, "how");
    // the working directory holds files of the same names
    bool cwd = r.flip("working directory");
    if (chdir((root() + (cwd ? "/cwd" : "")).c_str())) r.prune();
    ObstaclePtr o = make(s, manip);
    r.at("read again");
    ObstaclePtr g = reread(r, o, how, "obj");
    sameObject(r, o, g);
    r.at("second generation");
    ObstaclePtr g2 = reread(r, g, how, "elsewhere");
    sameObject(r, o, g2);
    if (chdir(root().c_str())) r.prune();
    r.outcome(strf("object %d", how));
}

// ------------------------------------------------------------ scenes
static const char* LAYOUT[3] = {"", "elsewhere/deep", "obj"};   // robots lie in obj
static std::string robotFile(int k)
{
    layout();
    static bool done = false;
    std::string d = root() + "/obj";
    if (!done)
    {
        done = true;
        for (int i = 0; i < 2; i++)
        {
            Tree t = trees()[i == 0 ? 0 : 2];
            RobotPtr rb = build(t, i == 0 ? "rob A" : "rob B");
            rb = build(t, i == 0 ? "robA" : "robB");
            std::vector<RobotNodePtr> j;
            for (int x : t.joints()) j.push_back(rb->getRobotNode(t.n[x].name));
            RobotNodeSet::createRobotNodeSet(rb, "all", j, rb->getRobotNode(t.n[0].name), rb->getRobotNode(t.n.back().name), true);
            if (!RobotIO::saveXML(rb, strf("rob%d.xml", i), d, "models", true, true, true, false)) throw std::runtime_error("saveXML");
        }
    }
    return d + strf("/rob%d.xml", k);
}
struct World
{
    ScenePtr s;
    RobotPtr a, b;
    ObstaclePtr table;
    ManipulationObjectPtr cup;
    RobotPtr robot(int which)
    {
        if (which == 0) return a;
        if (!b) add(1, "second");
        return b;
    }
    void add(int file, const std::string& name)
    {
        RobotPtr x = RobotIO::loadRobot(robotFile(file));
        x->setName(name);
        s->registerRobot(x);
        if (!a) a = x;
        else if (!b) b = x;
    }
};
struct SFeat
{
    std::string name;
    std::function<bool(World&)> add;
};
static RobotConfigPtr config(RobotPtr r, const std::string& n, int k, bool tcp = false)
{
    RobotNodeSetPtr all = r->getRobotNodeSet("all");
    RobotConfigPtr c(new RobotConfig(r, n));
    for (unsigned i = 0; i < all->getSize(); i++)
        if (k != 1 || i == 0) c->setConfig(all->getNode((int)i), k == 2 ? 0.f : 0.123456f * (i + 1) * (k ? -1 : 1));
    if (tcp) c->setTCP(all->getTCP());
    return c;
}
static std::vector<SFeat> sfeats()
{
    std::vector<SFeat> v;
    auto add = [&](const std::string& n, std::function<void(World&)> fn) { v.push_back({n, [fn](World& w) { fn(w); return true; }}); };
    for (int k : {0, 1})
    {
        std::string who = k ? "second robot: " : "first robot: ";
        add(who + "present", [k](World& w) { w.robot(k); });
        add(who + "pose", [k](World& w) { w.robot(k)->setGlobalPose(f(mk(100.5, -20, 7, V3(1, 1, 2), 0.8))); });
        add(who + "values", [k](World& w) {
            RobotNodeSetPtr a = w.robot(k)->getRobotNodeSet("all");
            std::vector<float> q;
            for (unsigned i = 0; i < a->getSize(); i++) q.push_back(0.25f + 0.123456f * i);
            a->setJointValues(q);
        });
        add(who + "configuration", [k](World& w) { w.s->registerRobotConfig(w.robot(k), config(w.robot(k), "start", 0)); });
        add(who + "partial configuration", [k](World& w) { w.s->registerRobotConfig(w.robot(k), config(w.robot(k), "partial one", 1)); });
        add(who + "zero configuration", [k](World& w) { w.s->registerRobotConfig(w.robot(k), config(w.robot(k), "zero", 2)); });
        add(who + "configuration with tcp", [k](World& w) { w.s->registerRobotConfig(w.robot(k), config(w.robot(k), "with tcp", 0, true)); });
        add(who + "trajectory", [k](World& w) {
            TrajectoryPtr t(new Trajectory(w.robot(k)->getRobotNodeSet("all"), strf("way %d", k)));
            for (int i = 0; i < 3; i++)
            {
                Eigen::VectorXf q(t->getDimension());
                for (unsigned d = 0; d < t->getDimension(); d++) q[d] = 0.1f * i - 0.0654321f * d;
                t->addPoint(q);
            }
            w.s->registerTrajectory(t);
        });
        add(who + "empty trajectory", [k](World& w) { w.s->registerTrajectory(TrajectoryPtr(new Trajectory(w.robot(k)->getRobotNodeSet("all"), strf("empty %d", k)))); });
    }
    add("a robot of the same kind", [](World& w) { w.add(0, "twin"); });
    add("a trajectory of the second robot of the same kind", [](World& w) {
        RobotPtr t = w.s->getRobot("twin");
        if (!t)
        {
            w.add(0, "twin");
            t = w.s->getRobot("twin");
        }
        TrajectoryPtr x(new Trajectory(t->getRobotNodeSet("all"), "twin way"));
        x->addPoint(Eigen::VectorXf::Constant(x->getDimension(), 0.25f));
        w.s->registerTrajectory(x);
    });
    add("obstacle", [](World& w) {
        ObstaclePtr o(new Obstacle("box"));
        o->setGlobalPose(f(tr(1, 2, 3)));
        w.s->registerObstacle(o);
    });
    add("obstacle with models", [](World& w) {
        VisualizationNodePtr a = fromFile(2, 0), b = fromFile(1, 1);
        ObstaclePtr o(new Obstacle("wall", a, CollisionModelPtr(new CollisionModel(b, "wall_ColModel"))));
        w.s->registerObstacle(o);
    });
    add("object with grasps", [](World& w) {
        ManipulationObjectPtr o(new ManipulationObject("mug", fromFile(1, 0)));
        GraspSetPtr g(new GraspSet("g", "robA", "hand"));
        g->addGrasp(grasp(1, "robA", "hand"));
        o->addGraspSet(g);
        o->setGlobalPose(f(mk(9, 8, 7, V3(1, 0, 0), 0.5)));
        w.s->registerManipulationObject(o);
    });
    // objects that are linked to their file, moved afterwards
    for (int k = 0; k < 4; k++)
        add(strf("linked object %d", k), [k](World& w) {
            ManipulationObjectPtr o(new ManipulationObject("linked", fromFile(1, 0)));
            GraspSetPtr g(new GraspSet("g", "robA", "hand"));
            g->addGrasp(grasp(2, "robA", "hand"));
            o->addGraspSet(g);
            if (k & 1) o->setGlobalPose(f(mk(50, 60, 70, V3(1, 2, 0), 0.9)));
            std::string file = root() + strf("/obj2/linked%d.xml", k);
            ObjectIO::saveManipulationObject(o, file);
            o = ObjectIO::loadManipulationObject(file);
            o->setGlobalPose(k & 2 ? f(mk(-5, 6, 7, V3(0, 2, 1), 0.4)) : Eigen::Matrix4f(Eigen::Matrix4f::Identity()));
            w.s->registerManipulationObject(o);
        });
    add("linked object under another name", [](World& w) {
        ManipulationObjectPtr o(new ManipulationObject("its name"));
        std::string file = root() + "/obj2/renamed.xml";
        ObjectIO::saveManipulationObject(o, file);
        o = ObjectIO::loadManipulationObject(file);
        o->setName("another name");
        w.s->registerManipulationObject(o);
    });
    auto setOf = [&](const std::string& n, std::vector<int> m) {
        add(n, [n, m](World& w) {
            SceneObjectSetPtr s(new SceneObjectSet(n));
            for (int k : m) s->addSceneObject(k == 0 ? SceneObjectPtr(w.table) : SceneObjectPtr(w.cup));
            w.s->registerSceneObjectSet(s);
        });
    };
    setOf("empty set", {});
    setOf("set of the table", {0});
    setOf("set of both", {1, 0});
    return v;
}
static std::map<std::string, float> says(RobotConfigPtr c)
{
    return c->getRobotNodeJointValueMap();
}
static bool sameMap(const std::map<std::string, float>& a, std::map<std::string, float> b)
{
    if (a.size() != b.size()) return false;
    for (auto& x : a)
        if (!b.count(x.first) || !near(x.second, b[x.first])) return false;
    return true;
}
static void sameScene(mc::Run& r, ScenePtr w, ScenePtr g)
{
    r.compared();
    r.check(w->getName() == g->getName(), "the name of a scene is lost", "%s", g->getName().c_str());
    auto A = w->getRobots(), B = g->getRobots();
    r.check(A.size() == B.size(), "a scene loses robots", "%zu, expected %zu", B.size(), A.size());
    for (size_t i = 0; i < A.size(); i++)
    {
        r.check(A[i]->getType() == B[i]->getType(), "a robot of a scene is replaced by another", "%s, expected %s", B[i]->getType().c_str(), A[i]->getType().c_str());
        r.check(A[i]->getName() == B[i]->getName(), "the name of a robot of a scene is lost", "'%s', expected '%s'", B[i]->getName().c_str(), A[i]->getName().c_str());
        samePose(r, A[i]->getGlobalPose(), B[i]->getGlobalPose(), "the pose of a robot of a scene is lost");
        r.check(sameMap(says(A[i]->getConfig()), says(B[i]->getConfig())), "the joint values of a robot of a scene are lost", "robot %zu", i);
        std::vector<RobotConfigPtr> c = w->getRobotConfigs(A[i]), d = g->getRobotConfigs(B[i]);
        // beside the registered ones there may be one for the current values, named like the robot
        std::vector<RobotConfigPtr> e;
        bool cur = false;
        for (auto& x : c)
            if (x->getName() == A[i]->getName()) cur = true;
        for (auto& x : d)
            if (cur || x->getName() != A[i]->getName()) e.push_back(x);
        r.check(c.size() == e.size(), "configurations of a robot of a scene are lost or doubled", "%zu, expected %zu", e.size(), c.size());
        r.check(d.size() <= e.size() + 1, "configurations of a robot of a scene are doubled", "%zu, expected %zu", d.size(), c.size() + 1);
        for (size_t k = 0; k < c.size(); k++)
        {
            r.check(c[k]->getName() == e[k]->getName(), "the name of a configuration is lost", "%s, expected %s", e[k]->getName().c_str(), c[k]->getName().c_str());
            r.check(sameMap(says(c[k]), says(e[k])), "the values of a configuration are lost", "%s", c[k]->getName().c_str());
            r.check(e[k]->getRobot() == B[i], "a configuration belongs to another robot", "%s", c[k]->getName().c_str());
            std::string tw = c[k]->hasTCP() ? c[k]->getTCP()->getName() : "", tg = e[k]->hasTCP() ? e[k]->getTCP()->getName() : "";
            r.check(tw == tg, "the tool centre point of a configuration is lost", "%s: '%s', expected '%s'", c[k]->getName().c_str(), tg.c_str(), tw.c_str());
        }
    }
    auto oa = w->getObstacles(), ob = g->getObstacles();
    r.check(oa.size() == ob.size(), "a scene loses obstacles", "%zu, expected %zu", ob.size(), oa.size());
    for (size_t i = 0; i < oa.size(); i++)
    {
        init(ob[i]);
        sameObject(r, oa[i], ob[i]);
    }
    auto ma = w->getManipulationObjects(), mb = g->getManipulationObjects();
    r.check(ma.size() == mb.size(), "a scene loses objects", "%zu, expected %zu", mb.size(), ma.size());
    for (size_t i = 0; i < ma.size(); i++)
    {
        init(mb[i]);
        sameObject(r, ma[i], mb[i]);
    }
    auto sa = w->getSceneObjectSets(), sb = g->getSceneObjectSets();
    r.check(sa.size() == sb.size(), "a scene loses object sets", "%zu, expected %zu", sb.size(), sa.size());
    for (size_t i = 0; i < sa.size(); i++)
    {
        std::vector<std::string> x, y;
        for (auto& o : sa[i]->getSceneObjects()) x.push_back(o->getName());
        for (auto& o : sb[i]->getSceneObjects())
        {
            y.push_back(o->getName());
            bool mine = false;
            for (auto& q : ob) mine = mine || q == o;
            for (auto& q : mb) mine = mine || q == o;
            r.check(mine, "an object of a set is not the one of the scene", "%s", o->getName().c_str());
        }
        r.check(sa[i]->getName() == sb[i]->getName() && x == y, "an object set of a scene is wrong", "%s: %zu, expected %zu", sb[i]->getName().c_str(), y.size(), x.size());
    }
    auto ta = w->getTrajectories(), tb = g->getTrajectories();
    r.check(ta.size() == tb.size(), "a scene loses trajectories", "%zu, expected %zu", tb.size(), ta.size());
    for (size_t i = 0; i < ta.size(); i++)
    {
        r.check(ta[i]->getName() == tb[i]->getName() && ta[i]->getRobotNodeSet()->getName() == tb[i]->getRobotNodeSet()->getName(), "the name or node set of a trajectory is lost", "%s", tb[i]->getName().c_str());
        r.check(ta[i]->getRobotName() == tb[i]->getRobotName(), "a trajectory belongs to another robot", "%s: %s, expected %s", ta[i]->getName().c_str(), tb[i]->getRobotName().c_str(), ta[i]->getRobotName().c_str());
        bool mine = false;
        for (auto& q : B) mine = mine || tb[i]->getRobotNodeSet()->getRobot() == q;
        r.check(mine, "the robot of a trajectory is not the one of the scene", "%s", tb[i]->getName().c_str());
        bool ok = ta[i]->getNrOfPoints() == tb[i]->getNrOfPoints();
        for (unsigned k = 0; ok && k < ta[i]->getNrOfPoints(); k++)
            for (unsigned d = 0; d < ta[i]->getDimension(); d++) ok = ok && near(ta[i]->getPoint(k)[d], tb[i]->getPoint(k)[d]);
        r.check(ok, "the points of a trajectory are lost", "%s: %u, expected %u", ta[i]->getName().c_str(), tb[i]->getNrOfPoints(), ta[i]->getNrOfPoints());
    }
}
static World base()
{
    World w;
    w.s.reset(new Scene("the scene"));
    w.add(0, "robA");
    w.table.reset(new Obstacle("table"));
    w.table->initialize();
    w.s->registerObstacle(w.table);
    w.cup.reset(new ManipulationObject("cup", fromFile(0, 0)));
    w.cup->initialize();
    w.s->registerManipulationObject(w.cup);
    return w;
}
static void scenes(mc::Run& r)
{
    static std::vector<SFeat> F = sfeats();
    layout();
    int n = r.thorough ? 3 : 2, from = 0;
    r.at("scene");
    World w = base();
    for (int i = 0; i < n; i++)
    {
        int k = from + r.choose((int)F.size() + 1 - from, "feature");
        if (k == (int)F.size()) break;
        from = k + 1;
        r.note("%s", F[k].name.c_str());
        F[k].add(w);
    }
    // bring derived data of objects up to date
    for (auto& o : w.s->getObstacles()) init(o);
    for (auto& o : w.s->getManipulationObjects()) init(o);
    int l = r.choose(3, "layout");
    std::string file = root() + "/" + LAYOUT[l] + "/scene.xml";
    r.step("save and load");
    r.check(SceneIO::saveScene(w.s, file), "a scene cannot be saved", "%s", file.c_str());
    ScenePtr g = SceneIO::loadScene(file);
    sameScene(r, w.s, g);
    mc::Hash h;
    h.s(w.s->getXMLString(root()));
    r.state(h);
    // once more, to another place
    r.at("second generation");
    r.step("save and load again");
    std::string file2 = root() + "/" + LAYOUT[(l + 1) % 3] + "/scene2.xml";
    r.check(SceneIO::saveScene(g, file2), "a loaded scene cannot be saved", "%s", file2.c_str());
    ScenePtr g2 = SceneIO::loadScene(file2);
    sameScene(r, w.s, g2);
    r.outcome(strf("layout %d", l));
}

// ------------------------------------------------------------ a save that fails is reported
struct Limit
{
    rlimit old;
    explicit Limit(rlim_t n)
    {
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit l = old;
        l.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~Limit()
    {
        setrlimit(RLIMIT_FSIZE, &old);
    }
};
static void failing(mc::Run& r)
{
    layout();
    int what = r.choose(3, "what");
    r.at("save %d", what);
    std::string dir = root() + "/elsewhere", file = dir + "/limited.xml";
    World w = base();
    auto save = [&](const std::string& f) {
        if (what == 0) return SceneIO::saveScene(w.s, f);
        if (what == 1) return ObjectIO::saveManipulationObject(w.cup, f);
        return RobotIO::saveXML(w.a, f.substr(f.rfind('/') + 1), f.substr(0, f.rfind('/')), ".", true, true, true, false);
    };
    auto content = [](const std::string& f) {
        std::ifstream in(f);
        std::stringstream s;
        s << in.rdbuf();
        return s.str();
    };
    signal(SIGXFSZ, SIG_IGN);
    r.check(save(file), "a save into an existing directory fails", "%d", what);
    std::string all = content(file);
    int n = (int)all.size();
    r.check(n > 40, "nothing is saved", "%d bytes", n);
    int fan = 64, blk = r.choose(fan, "block");
    int lo = (int)((long)(n + 2) * blk / fan), hi = (int)((long)(n + 2) * (blk + 1) / fan);
    if (hi <= lo) r.prune();
    int lim = lo + r.choose(hi - lo, "limit");
    bool ok;
    r.step("save with at most %d bytes", lim);
    {
        Limit l((rlim_t)lim);
        ok = save(file);
    }
    std::string got = content(file);
    r.compared();
    r.check(ok == (lim >= n), ok ? "a save that wrote only a part reports success" : "a complete save reports a failure", "%d of %d bytes, limit %d", (int)got.size(), n, lim);
    r.check(!ok || got == all, "a reported save is incomplete", "%d of %d bytes", (int)got.size(), n);
    if (lim == 0 && what < 2)
    {
        bool reported = true;
        try
        {
            reported = save(root() + "/no such directory/x.xml");
        }
        catch (const std::exception&)
        {
            reported = false; // an exception is a report, too
        }
        r.check(!reported, "saving into a missing directory reports success", "%d", what);
    }
    mc::Hash h;
    r.state(h.i(what).i((long long)got.size()));
    r.outcome(ok ? "saved" : "refused");
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("objects", objects, 2);
    mc::suite("scenes", scenes, 2);
    mc::suite("failing", failing, 2);
    return mc::main(argc, argv);
}
