#include "robdesc.h"
#include "robops.h"
#include <VirtualRobot/XML/RobotIO.h>
#include <fstream>
using namespace VirtualRobot;
using namespace sx;

static std::vector<Tree> T;

struct Spec
{
    Tree t;
    std::map<int, SceneObject::Physics> phys;
    std::vector<std::function<void(int, RobotNodePtr)>> tweak;
    std::vector<std::function<void(World&)>> post;
};
struct Feat
{
    std::string name;
    std::function<bool(Spec&)> add;   // false: not applicable to this tree
};
static int nth(const Spec& s, char kind, int k)
{
    int c = 0;
    for (size_t i = 0; i < s.t.n.size(); i++)
        if (s.t.n[i].kind == kind && c++ == k) return (int)i;
    return -1;
}
static std::vector<Feat> feats()
{
    std::vector<Feat> v;
    // joints
    for (char kind : {'R', 'P'})
        for (int k : {0, 1})
        {
            std::string who = mc::strf("%c%d ", kind, k);
            auto onNode = [&, who, kind, k](const std::string& n, std::function<void(Spec&, int)> fn) {
                v.push_back({who + n, [=](Spec& s) {
                    int i = nth(s, kind, k);
                    if (i < 0 || s.t.name == "dh") return false;
                    fn(s, i);
                    return true;
                }});
            };
            onNode("offset", [](Spec& s, int i) { s.t.n[i].offset = 0.37 + i; });
            onNode("offset negative", [](Spec& s, int i) { s.t.n[i].offset = -1.25; });
            onNode("range above zero", [](Spec& s, int i) { s.t.n[i].lo = 0.125; s.t.n[i].hi = 1.875; s.t.n[i].limitless = false; });
            onNode("range below zero", [](Spec& s, int i) { s.t.n[i].lo = -2.123456; s.t.n[i].hi = -0.5; s.t.n[i].limitless = false; });
            onNode("empty range", [](Spec& s, int i) { s.t.n[i].lo = s.t.n[i].hi = 0.5; s.t.n[i].limitless = false; });
            if (kind == 'R')
            {
                onNode("limitless pi", [](Spec& s, int i) { s.t.n[i].lo = -PI; s.t.n[i].hi = PI; s.t.n[i].limitless = true; });
                onNode("limitless from zero", [](Spec& s, int i) { s.t.n[i].lo = 0; s.t.n[i].hi = 2 * PI; s.t.n[i].limitless = true; });
                onNode("limitless from one", [](Spec& s, int i) { s.t.n[i].lo = 1; s.t.n[i].hi = 1 + 2 * PI; s.t.n[i].limitless = true; });
                onNode("full range, limited", [](Spec& s, int i) { s.t.n[i].lo = -PI; s.t.n[i].hi = PI; s.t.n[i].limitless = false; });
            }
            else
                onNode("large range", [](Spec& s, int i) { s.t.n[i].lo = -1234.5; s.t.n[i].hi = 98765; });
            onNode("axis", [](Spec& s, int i) { s.t.n[i].axis = V3(-0.36, 0.48, 0.8); });
            onNode("dynamics limits", [](Spec& s, int i) {
                s.tweak.push_back([=](int j, RobotNodePtr x) {
                    if (j != i) return;
                    x->setMaxVelocity(0.75f);
                    x->setMaxAcceleration(12.5f);
                    x->setMaxTorque(33.f);
                });
            });
            onNode("propagation", [](Spec& s, int i) {
                std::vector<int> J = s.t.joints();
                int to = J.back();
                std::string n = s.t.n[to].name;
                if (to != i) s.tweak.push_back([=](int j, RobotNodePtr x) {
                    if (j == i) x->propagateJointValue(n, -0.625f);
                });
            });
        }
    // any node: physics, sensors, transformation
    for (int w : {0, 1, 2})
    {
        auto at = [&, w](const std::string& n, std::function<void(Spec&, int)> fn) {
            v.push_back({mc::strf("node%d ", w) + n, [=](Spec& s) {
                fn(s, w == 0 ? 0 : w == 1 ? 1 : (int)s.t.n.size() - 1);
                return true;
            }});
        };
        at("mass and com", [](Spec& s, int i) {
            SceneObject::Physics& p = s.phys[i];
            p.massKg = 2.5f;
            p.comLocation = SceneObject::Physics::eCustom;
            p.localCoM = Eigen::Vector3f(12.25f, -7, 1003);
        });
        at("inertia", [](Spec& s, int i) {
            SceneObject::Physics& p = s.phys[i];
            p.inertiaMatrix << 1.5f, 0.1f, -0.2f, 0.1f, 2, 0.3f, -0.2f, 0.3f, 3;
        });
        at("simulation type", [=](Spec& s, int i) { s.phys[i].simType = w == 0 ? SceneObject::Physics::eStatic : w == 1 ? SceneObject::Physics::eKinematic : SceneObject::Physics::eDynamic; });
        at("ignored collisions", [](Spec& s, int i) { s.phys[i].ignoreCollisions = {"other", s.t.n[0].name, "third"}; });
        at("friction", [](Spec& s, int i) { s.phys[i].friction = 0.55f; });
        at("position sensor", [](Spec& s, int i) {
            s.tweak.push_back([=](int j, RobotNodePtr x) {
                if (j == i) x->registerSensor(SensorPtr(new PositionSensor(x, "pos" + x->getName(), VisualizationNodePtr(), f(mk(1, 2, 3, V3(1, 1, 0), 0.5)))));
            });
        });
        at("force sensor", [](Spec& s, int i) {
            s.tweak.push_back([=](int j, RobotNodePtr x) {
                if (j == i) x->registerSensor(SensorPtr(new ForceTorqueSensor(x, "ft" + x->getName(), f(mk(-1, 20, 3, V3(1, 1, 5), -0.5)))));
            });
        });
        at("camera", [](Spec& s, int i) {
            s.tweak.push_back([=](int j, RobotNodePtr x) {
                if (j == i) x->registerSensor(SensorPtr(new CameraSensor(x, "cam" + x->getName(), VisualizationNodePtr(), f(mk(1, 2, -3, V3(-1, 1, 0), 2.5)))));
            });
        });
        at("contact sensor", [](Spec& s, int i) {
            s.tweak.push_back([=](int j, RobotNodePtr x) {
                if (j == i) x->registerSensor(SensorPtr(new ContactSensor(x, "touch" + x->getName())));
            });
        });
    }
    // saved in another state
    v.push_back({"moved", [](Spec& s) {
        s.post.push_back([](World& w) {
            int a = 0;
            for (int i : w.k.t.joints()) w.r->setJointValue(w.k.t.n[i].name, (float)val(w.k.t.n[i], a++ % 2 ? 0 : 5));
            w.r->setGlobalPose(f(basePoses()[3]));
        });
        return true;
    }});
    v.push_back({"transformation replaced", [](Spec& s) {
        int i = s.t.joints()[0];
        M4 m = mk(12, -34, 56, V3(1, 2, 3), 0.8);
        s.post.push_back([=](World& w) {
            Eigen::Matrix4f mf = f(m);
            w.node(i)->setLocalTransformation(mf);
            w.k.t.n[i].local = m;
            w.r->applyJointValues();
        });
        return true;
    }});
    // node sets: root and tool centre point given or not, members in tree order or not
    struct
    {
        const char* n;
        int order, root, tcp;
    } sets[] = {{"set default", 0, -1, -1}, {"set with root", 0, 1, -1}, {"set with tcp", 0, -1, 0}, {"set with both", 1, 1, 1}, {"set of one", 2, 0, 2}, {"set reversed", 1, -1, -1}, {"set of every second", 3, 2, 0}};
    for (auto& d : sets)
    {
        auto e = d;
        v.push_back({e.n, [=](Spec& s) {
            s.post.push_back([=](World& w) {
                std::vector<RobotNodePtr> m;
                int N = (int)w.k.t.n.size();
                for (int i = 0; i < N; i++)
                {
                    if (e.order == 2 && i != N / 2) continue;
                    if (e.order == 3 && i % 2) continue;
                    m.push_back(w.node(e.order == 1 ? N - 1 - i : i));
                }
                RobotNodeSet::createRobotNodeSet(w.r, e.n, m, e.root < 0 ? RobotNodePtr() : w.node(e.root % N), e.tcp < 0 ? RobotNodePtr() : w.node(e.tcp % N), true);
            });
            return true;
        }});
    }
    // end effectors
    struct
    {
        const char* n;
        int tcp, gcp, actors, statics, pre;
        EndEffectorActor::CollisionMode mode;
        float dir;
    } eefs[] = {{"hand plain", 1, 1, 1, 0, 0, EndEffectorActor::eAll, 1}, {"hand other gcp", 1, 0, 2, 1, 1, EndEffectorActor::eActors, -0.5f}, {"hand static", 0, 2, 1, 2, 2, EndEffectorActor::eStatic, 0.25f}, {"hand none", 2, 2, 2, 3, 1, EndEffectorActor::eNone, -1}};
    for (auto& d : eefs)
    {
        auto e = d;
        v.push_back({e.n, [=](Spec& s) {
            s.post.push_back([=](World& w) {
                int N = (int)w.k.t.n.size();
                std::vector<int> J = w.k.t.joints();
                std::vector<EndEffectorActorPtr> ac;
                for (int a = 0; a < e.actors; a++)
                {
                    std::vector<EndEffectorActor::ActorDefinition> ad;
                    for (size_t j = a; j < J.size(); j += e.actors) ad.push_back({e.mode, w.node(J[j]), e.dir * (1 + j)});
                    ac.push_back(EndEffectorActorPtr(new EndEffectorActor(mc::strf("finger%d", a), ad)));
                }
                std::vector<RobotNodePtr> st;
                for (int i = 0; i < e.statics; i++) st.push_back(w.node((2 * i + 1) % N));
                std::vector<RobotConfigPtr> pre;
                for (int p = 0; p < e.pre; p++)
                {
                    RobotConfigPtr c(new RobotConfig(w.r, mc::strf("shape%d", p)));
                    for (size_t j = p; j < J.size(); j++) c->setConfig(w.node(J[j]), (float)val(w.k.t.n[J[j]], p));
                    pre.push_back(c);
                }
                EndEffectorPtr x(new EndEffector(e.n, ac, st, w.node(0), w.node(e.tcp % N), w.node(e.gcp % N), pre));
                w.r->registerEndEffector(x);
            });
            return true;
        }});
    }
    return v;
}
static std::vector<Feat> FE;

static World make(const Spec& s)
{
    BuildOpt o;
    o.dhCtor = true;
    o.physics = [&](int i, SceneObject::Physics& p) {
        auto it = s.phys.find(i);
        if (it != s.phys.end()) p = it->second;
    };
    o.tweak = [&](int i, RobotNodePtr x) {
        for (auto& t : s.tweak) t(i, x);
    };
    World w(s.t, o, "rob");
    for (auto& p : s.post) p(w);
    return w;
}
static Desc desc(RobotPtr r)
{
    DescOpt o;
    o.meshes = false;
    o.state = false;
    return describe(r, o);
}
static bool skip(const std::string& k)
{
    return k.size() > 8 && k.compare(k.size() - 8, 8, ".enforce") == 0;
}
static std::string category(const std::string& diff)
{
    std::string k = diff.substr(0, diff.find_first_of(":[ "));
    if (k.compare(0, 4, "set.") == 0) return "node set " + k.substr(k.rfind('.') + 1);
    if (k.compare(0, 4, "eef.") == 0) return "end effector " + k.substr(k.rfind('.') + 1);
    if (k.find(".sensor") != std::string::npos) return "sensors";
    return "node " + k.substr(k.rfind('.') + 1);
}
static void same(mc::Run& r, const Desc& a, const Desc& b, const char* what, const std::function<bool(const std::string&)>& sk = skip)
{
    r.compared();
    std::string d = differ(a, b, 1, 0.01, 1e-5, sk);
    r.check(d.empty(), std::string(what) + ": " + category(d), "%s", d.c_str());
}
// equal joint values, equal poses: the loaded robot against the reference model
static void motions(mc::Run& r, const World& orig, RobotPtr q, const char* what)
{
    std::vector<int> J = orig.k.t.joints();
    std::map<std::string, std::map<std::string, float>> prop;
    for (int pat = 0; pat < 3; pat++)
    {
        // propagation is part of the model: set on both sides and compare the two real robots; poses against the model
        RobotPtr a = orig.r;
        M4 base = basePoses()[pat];
        a->setGlobalPose(f(base));
        q->setGlobalPose(f(base));
        for (size_t j = 0; j < J.size(); j++)
        {
            float x = (float)val(orig.k.t.n[J[j]], (pat + (int)j) % 2 ? 0 : 1);
            a->setJointValue(orig.k.t.n[J[j]].name, x);
            q->setJointValue(orig.k.t.n[J[j]].name, x);
        }
        Kin k = orig.k;
        k.base = base;
        for (int j : J)
        {
            double va = a->getRobotNode(k.t.n[j].name)->getJointValue(), vq = q->getRobotNode(k.t.n[j].name)->getJointValue();
            r.check(std::fabs(va - vq) < 1e-4 * (1 + std::fabs(va)), std::string(what) + ": joint value", "%s is %.7g in the original and %.7g in the copy", k.t.n[j].name.c_str(), va, vq);
            k.q[j] = va;
        }
        std::vector<M4> P = k.poses();
        r.compared();
        for (size_t i = 0; i < P.size(); i++)
        {
            Eigen::Matrix4f g = q->getRobotNode(k.t.n[i].name)->getGlobalPose();
            r.check(dev(P[i], g, 0.2, 1e-4) <= 1, std::string(what) + ": pose", "%s is at %s, expected %s", k.t.n[i].name.c_str(), show(g).c_str(), show(P[i]).c_str());
        }
        for (auto& s : a->getSensors())
        {
            SensorPtr t = q->getSensor(s->getName());
            if (t) r.check(dev(M4(s->getGlobalPose().cast<double>()), t->getGlobalPose(), 0.2, 1e-4) <= 1, std::string(what) + ": sensor pose", "%s", s->getName().c_str());
        }
    }
}
static std::string slurp(const std::string& f)
{
    std::ifstream in(f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}

static void roundtrip(mc::Run& r, Spec s)
{
    World w = make(s);
    Desc d = desc(w.r);
    int way = r.choose(4, "way");
    std::string x;
    RobotPtr q;
    if (way < 3)
    {
        r.step("write and read as text, mode %d", way);
        x = w.r->toXML();
        q = RobotIO::createRobotFromString(x, "", way == 0 ? RobotIO::eFull : way == 1 ? RobotIO::eCollisionModel : RobotIO::eStructure);
    }
    else
    {
        r.step("save to a file and load it");
        r.check(RobotIO::saveXML(w.r, "out.xml", mc::scratch()), "file: not saved", "saveXML returned false");
        x = slurp(mc::scratch() + "/out.xml");
        q = RobotIO::loadRobot(mc::scratch() + "/out.xml");
    }
    r.state(mc::Hash().s(x));
    r.check((bool)q, "not read back", "no robot");
    same(r, d, desc(q), "round trip");
    same(r, d, desc(w.r), "the original");
    motions(r, w, q, "round trip");
    if (way == 0)
    {
        r.step("a second generation");
        q->setGlobalPose(Eigen::Matrix4f::Identity());
        RobotPtr q2 = RobotIO::createRobotFromString(q->toXML(), "", RobotIO::eFull);
        same(r, d, desc(q2), "second generation");
    }
    r.outcome(q->getType() == w.r->getType() ? "same" : "type differs");
    r.check(q->getType() == w.r->getType(), "round trip: type", "'%s'", q->getType().c_str());
}

int main(int argc, char** argv)
{
    silence();
    mc::setup([] {
        T = trees();
        FE = feats();
    });
    mc::suite("features", [](mc::Run& r) {
        Spec s;
        s.t = r.pick(T, "tree");
        int n = (int)FE.size();
        int a = r.choose(n + 1, "first"), b = a < n ? a + 1 + r.choose(n - a, "second") : n;
        if (a < n && !FE[a].add(s)) r.prune();
        if (b < n && !FE[b].add(s)) r.prune();
        int c = n;
        if (r.thorough && b < n)
        {
            c = b + 1 + r.choose(n - b, "third");
            if (c < n && !FE[c].add(s)) r.prune();
        }
        r.step("robot %s with '%s', '%s', '%s'", s.t.name.c_str(), a < n ? FE[a].name.c_str() : "-", b < n ? FE[b].name.c_str() : "-", c < n ? FE[c].name.c_str() : "-");
        roundtrip(r, s);
    });
    mc::suite("parts left out", [](mc::Run& r) {
        Spec s;
        s.t = r.pick(T, "tree");
        for (size_t i = 0; i < FE.size(); i++)
            if (FE[i].name.find("sensor") != std::string::npos || FE[i].name.find("set ") == 0 || FE[i].name.find("hand") == 0) FE[i].add(s);
        bool eef = r.flip("end effectors"), rns = r.flip("node sets"), sen = r.flip("sensors");
        World w = make(s);
        r.step("robot %s without %s%s%s", s.t.name.c_str(), eef ? "" : "end effectors ", rns ? "" : "node sets ", sen ? "" : "sensors");
        std::string x;
        RobotPtr q;
        if (r.flip("file"))
        {
            r.check(RobotIO::saveXML(w.r, "out.xml", mc::scratch(), "models", eef, rns, sen), "file: not saved", "saveXML returned false");
            x = slurp(mc::scratch() + "/out.xml");
            q = RobotIO::loadRobot(mc::scratch() + "/out.xml");
        }
        else
        {
            x = w.r->toXML(".", "models", eef, rns, sen);
            q = RobotIO::createRobotFromString(x);
        }
        r.state(mc::Hash().s(x));
        auto sk = [&](const std::string& k) {
            if (skip(k)) return true;
            if (!eef && k.compare(0, 3, "eef") == 0) return true;
            if (!rns && k.compare(0, 3, "set") == 0) return true;
            return !sen && k.find(".sensor") != std::string::npos;
        };
        same(r, desc(w.r), desc(q), "round trip", sk);
        r.check(eef || q->getEndEffectors().empty(), "left out end effectors appear", "%zu", q->getEndEffectors().size());
        r.check(rns || q->getRobotNodeSets().empty(), "left out node sets appear", "%zu", q->getRobotNodeSets().size());
        r.check(sen || q->getSensors().empty(), "left out sensors appear", "%zu", q->getSensors().size());
        r.outcome("same");
    });
    return mc::main(argc, argv);
}
