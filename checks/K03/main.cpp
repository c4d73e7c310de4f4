#include "simox.h"
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
using namespace VirtualRobot;
using namespace sx;

// Objects: 0..2 plain objects, 3.. robot nodes (fixed n0 -> revolute n1 with a sensor -> prismatic n2), then grafted nodes.
struct O
{
    SceneObjectPtr p; // null once released by its owner
    boost::weak_ptr<SceneObject> weak;
    std::string name;
    bool plain;
    int parent = -1;
    std::vector<int> ch;
    M4 pose;
    M4 fixed; // transformation applied to the parent's pose
    bool gone = false;
};
struct W
{
    RobotPtr r;
    Tree t;
    Kin k;
    std::vector<O> o;
    int graft = 0;
    explicit W(const Tree& tr) : t(tr), k(tr) {}
    void place(int i, const M4& parentPose)
    {
        o[i].pose = parentPose * o[i].fixed;
        for (int c : o[i].ch) place(c, o[i].pose);
    }
    void moveNode(int i) // joint value changed: everything below is placed again
    {
        o[3 + i].fixed = t.n[i].local * k.motion(i);
        place(3 + i, o[3 + i].parent < 0 ? k.base : o[o[3 + i].parent].pose);
    }
};

static Tree smallTree()
{
    Tree t;
    t.name = "small";
    t.n = {F("n0", -1, tr(10, 0, 0)), R("n1", 0, mk(0, 50, 0, V3(1, 0, 0), 0.4), V3(0, 0, 1)), P("n2", 1, mk(20, 0, 5, V3(0, 1, 0), -1), V3(1, 0, 0))};
    return t;
}

static void observe(mc::Run& r, W& w)
{
    mc::Hash h;
    for (size_t i = 0; i < w.o.size(); i++)
    {
        O& x = w.o[i];
        SceneObjectPtr s = x.p ? x.p : x.weak.lock();
        const char* nm = x.name.c_str();
        r.compared();
        if (x.gone)
        {
            r.check(!s, "released object kept alive", "%s", nm);
            continue;
        }
        r.check((bool)s, "object vanished", "%s", nm);
        SceneObjectPtr par = s->getParent();
        SceneObjectPtr want;
        if (x.parent >= 0) want = w.o[x.parent].p ? w.o[x.parent].p : w.o[x.parent].weak.lock();
        r.check(par == want, "parent", "parent of %s is %s, expected %s", nm, par ? par->getName().c_str() : "none", want ? want->getName().c_str() : "none");
        r.check(s->hasParent() == (x.parent >= 0), "hasParent", "%s", nm);
        std::vector<SceneObjectPtr> c = s->getChildren();
        std::string got, exp;
        for (auto& y : c)
            if (!boost::dynamic_pointer_cast<Sensor>(y)) got += y->getName() + " ";
        for (int y : x.ch) exp += w.o[y].name + " ";
        // the order of the children is not promised
        std::vector<std::string> gs, es;
        for (auto& y : c)
            if (!boost::dynamic_pointer_cast<Sensor>(y)) gs.push_back(y->getName());
        for (int y : x.ch) es.push_back(w.o[y].name);
        std::sort(gs.begin(), gs.end());
        std::sort(es.begin(), es.end());
        r.check(gs == es, "children", "children of %s are '%s', expected '%s'", nm, got.c_str(), exp.c_str());
        for (size_t j = 0; j < w.o.size(); j++)
        {
            if (w.o[j].gone) continue;
            SceneObjectPtr z = w.o[j].p ? w.o[j].p : w.o[j].weak.lock();
            bool direct = w.o[j].parent == (int)i, any = false;
            for (int q = w.o[j].parent; q >= 0; q = w.o[q].parent) any = any || q == (int)i;
            r.check(s->hasChild(z) == direct && s->hasChild(z, true) == any, "hasChild", "%s has child %s: %d/%d expected %d/%d", nm, w.o[j].name.c_str(), s->hasChild(z), s->hasChild(z, true), direct, any);
        }
        Eigen::Matrix4f g = s->getGlobalPose();
        r.check(dev(x.pose, g) <= 1, "pose", "%s is at %s, expected %s", nm, show(g).c_str(), show(x.pose).c_str());
        if (s->getCollisionModel()) r.check(dev(x.pose, s->getCollisionModel()->getGlobalPose()) <= 1 && dev(x.pose, s->getVisualization()->getGlobalPose()) <= 1, "body pose", "%s", nm);
        h.i(x.parent);
        hash(h, g);
    }
    for (auto& s : w.r->getSensors())
    {
        int i = 3 + w.t.find(s->getRobotNode()->getName());
        r.check(dev(w.o[i].pose * sensorTrafo(), s->getGlobalPose()) <= 1, "sensor pose", "%s", s->getName().c_str());
        r.check(s->getParent() == w.o[i].p, "sensor parent", "%s", s->getName().c_str());
    }
    r.state(h);
}

static void histories(mc::Run& r, int nodesMask, int depth, bool grafts, bool inits)
{
    Tree t = smallTree();
    t.n[1].sensor = true;
    W w(t);
    BuildOpt bo;
    bo.meshes = grafts;
    auto V = [&](int) { return grafts ? visu(boxPts(4, 5, 6)) : VisualizationNodePtr(); };
    auto C = [&](int i) { return grafts ? colmodel(boxPts(4, 5, 6), i ? "o" : "p") : CollisionModelPtr(); };
    w.r = build(t, "rob", bo);
    for (int i = 0; i < 3; i++)
    {
        static const char* nm[3] = {"A", "B", "C"};
        O o;
        o.name = nm[i];
        o.plain = true;
        if (i == 0) o.p.reset(new SceneObject(nm[i], V(i), C(i)));
        if (i == 1) o.p.reset(new Obstacle(nm[i], V(i), C(i)));
        if (i == 2) o.p.reset(new ManipulationObject(nm[i], V(i), C(i)));
        o.fixed = M4::Identity();
        o.pose = mk(100 * (i + 1), 7 * i, -3, V3(0, 1, i), 0.5 * (i + 1));
        o.p->setGlobalPose(f(o.pose));
        w.o.push_back(o);
    }
    for (int i = 0; i < 3; i++)
    {
        O o;
        o.name = t.n[i].name;
        o.plain = false;
        o.p = w.r->getRobotNode(o.name);
        o.parent = t.n[i].parent < 0 ? -1 : 3 + t.n[i].parent;
        if (o.parent >= 0) w.o[o.parent].ch.push_back(3 + i);
        w.o.push_back(o);
    }
    w.moveNode(0);
    for (int i = 0; i < 3; i++) w.moveNode(i);
    observe(r, w);
    int refused = 0; // operations that must be refused: at most one per history before the last step (thorough: any number)
    std::vector<int> par = {0, 1, 2};
    for (int i = 0; i < 3; i++)
        if (nodesMask & (1 << i)) par.push_back(3 + i);
    for (int d = 0; d < depth; d++)
    {
        int nPair = (int)par.size() * 3;
        int op = r.choose(nPair * 2 + 3 + 3 + 3 + 3 + (grafts ? 4 : 0) + (inits ? 6 : 0), "op");
        if (op < nPair)
        {
            int a = par[op / 3], c = op % 3;
            if (w.o[a].gone || w.o[c].gone || !w.o[c].p || !w.o[a].p) r.prune();
            bool circle = false;
            for (int q = a; q >= 0; q = w.o[q].parent) circle = circle || q == c;
            bool already = w.o[c].parent == a;
            bool clash = false;
            for (int y : w.o[a].ch) clash = clash || (y != c && w.o[y].name == w.o[c].name);
            bool ok = already || (!circle && !clash && w.o[c].parent < 0);
            if ((!ok || already) && refused++ && !r.thorough && d < depth - 1) r.prune();
            r.step("%s.attachChild(%s)", w.o[a].name.c_str(), w.o[c].name.c_str());
            bool got = w.o[a].p->attachChild(w.o[c].p);
            r.check(got == ok, circle && a != c ? "circle accepted" : "attach result", "attaching %s to %s returned %d, expected %d", w.o[c].name.c_str(), w.o[a].name.c_str(), got, ok);
            if (ok && !already)
            {
                w.o[c].parent = a;
                w.o[a].ch.push_back(c);
            }
        }
        else if (op < nPair * 2)
        {
            op -= nPair;
            int a = par[op / 3], c = op % 3;
            if (w.o[a].gone || w.o[c].gone || !w.o[c].p || !w.o[a].p) r.prune();
            if (w.o[c].parent != a && refused++ && !r.thorough && d < depth - 1) r.prune();
            r.step("%s.detachChild(%s)", w.o[a].name.c_str(), w.o[c].name.c_str());
            w.o[a].p->detachChild(w.o[c].p);
            if (w.o[c].parent == a)
            {
                w.o[c].parent = -1;
                w.o[a].ch.erase(std::find(w.o[a].ch.begin(), w.o[a].ch.end(), c));
            }
        }
        else if ((op -= nPair * 2) < 3)
        {
            if (w.o[op].gone || !w.o[op].p) r.prune();
            M4 p = mk(11 * (d + 1), 5, -d, V3(1, op, 2), 0.3 * (d + 1));
            r.step("%s.setGlobalPose", w.o[op].name.c_str());
            w.o[op].p->setGlobalPose(f(p));
            if (w.o[op].parent < 0) w.place(op, p);
        }
        else if ((op -= 3) < 3) // placed where it is: everything below it follows
        {
            if (w.o[op].gone || !w.o[op].p || w.o[op].ch.empty()) r.prune();
            r.step("%s.setGlobalPose(where it is)", w.o[op].name.c_str());
            w.o[op].p->setGlobalPose(w.o[op].p->getGlobalPose());
            if (w.o[op].parent < 0) w.place(op, w.o[op].pose);
        }
        else if ((op -= 3) < 3) // robot motions
        {
            if (op < 2)
            {
                double v = op ? 30 + 20 * d : 0.3 + 0.2 * d;
                r.step("joint %s = %g", t.n[op + 1].name.c_str(), v);
                w.r->setJointValue(t.n[op + 1].name, (float)v);
                w.k.set(op + 1, v);
                w.moveNode(op + 1);
            }
            else
            {
                M4 p = mk(-70 - d, 15, 3, V3(0, 0, 1), 0.7 * (d + 1));
                if (r.flip("where it is")) p = w.k.base;
                r.step("robot.setGlobalPose");
                w.r->setGlobalPose(f(p));
                w.k.base = p;
                w.moveNode(0);
            }
        }
        else if ((op -= 3) < 3) // the owner lets go of an object
        {
            O& x = w.o[op];
            if (x.gone || !x.p) r.prune();
            r.step("release %s", x.name.c_str());
            x.weak = x.p;
            x.p.reset();
            // it dies if no parent holds it
            std::function<void(int)> die = [&](int i) {
                O& y = w.o[i];
                if (y.p || y.parent >= 0 || y.gone) return;
                y.gone = true;
                for (int c : y.ch)
                {
                    w.o[c].parent = -1;
                    die(c);
                }
                y.ch.clear();
            };
            die(op);
        }
        else if ((op -= 3) < (grafts ? 4 : 0))
        {
            if (op < 2)
            {
                // graft an object onto the robot as a new fixed node
                int c = op == 0 ? 1 : 2, a = op == 0 ? 4 : 5;
                if (w.o[c].gone || !w.o[c].p) r.prune();
                bool dup = w.r->hasRobotNode(w.o[c].name);
                M4 T = mk(3, 4, 5, V3(1, 1, 0), 1.2);
                r.step("RobotFactory::attach(%s to %s)", w.o[c].name.c_str(), w.o[a].name.c_str());
                // a node may not get two children of the same name
                bool clash = false;
                for (int y : w.o[a].ch) clash = clash || w.o[y].name == w.o[c].name;
                if (clash) r.prune();
                bool ok = RobotFactory::attach(w.r, w.o[c].p, boost::static_pointer_cast<RobotNode>(w.o[a].p), f(T));
                r.check(ok == !dup, "graft result", "attach returned %d, node present before: %d", ok, dup);
                if (ok)
                {
                    O n;
                    n.name = w.o[c].name;
                    n.plain = false;
                    n.p = w.r->getRobotNode(n.name);
                    r.check((bool)n.p, "graft missing", "node %s", n.name.c_str());
                    n.parent = a;
                    n.fixed = T;
                    n.pose = w.o[a].pose * T;
                    w.o[a].ch.push_back((int)w.o.size());
                    w.o.push_back(n);
                }
            }
            else
            {
                int i = op == 2 ? (int)w.o.size() - 1 : 5; // the last graft, or the last link of the robot
                O& n = w.o[i];
                if (op == 2 && i < 6) r.prune();
                bool inside = n.parent >= 0;
                r.step("RobotFactory::detach(%s)", n.name.c_str());
                bool ok = RobotFactory::detach(w.r, boost::static_pointer_cast<RobotNode>(n.p));
                r.check(ok == inside, "detach result", "detach returned %d, was in the robot %d", ok, inside);
                if (inside)
                {
                    w.o[n.parent].ch.erase(std::find(w.o[n.parent].ch.begin(), w.o[n.parent].ch.end(), i));
                    n.parent = -1;
                    r.check(!w.r->hasRobotNode(n.name), "detached node still registered", "%s", n.name.c_str());
                    observe(r, w);
                    if (op == 3) { r.outcome("link removed"); return; }
                }
            }
        }
        else
        {
            op -= grafts ? 4 : 0;
            // initialize with parent and child
            int a = op % 3, b = (a + 1 + op / 3) % 3;
            if (w.o[a].gone || w.o[b].gone || !w.o[a].p || !w.o[b].p) r.prune();
            bool circle = false;
            for (int q = b; q >= 0; q = w.o[q].parent) circle = circle || q == a;
            if (circle || (w.o[a].parent >= 0 && w.o[a].parent != b)) r.prune();
            bool clash = false;
            for (int y : w.o[b].ch) clash = clash || (y != a && w.o[y].name == w.o[a].name);
            if (clash) r.prune();
            r.step("%s.initialize(parent %s)", w.o[a].name.c_str(), w.o[b].name.c_str());
            w.o[a].p->initialize(w.o[b].p);
            if (w.o[a].parent < 0)
            {
                w.o[a].parent = b;
                w.o[b].ch.push_back(a);
            }
            w.place(a, w.o[b].pose); // initialising places the object and everything below it
        }
        observe(r, w);
    }
    r.outcome(mc::strf("%d objects", (int)w.o.size()));
}

int main(int argc, char** argv)
{
    silence();
    mc::suite("objects", [](mc::Run& r) { histories(r, 2, r.thorough ? 5 : 4, false, false); }, 2);
    mc::suite("grafts", [](mc::Run& r) { histories(r, 7, r.thorough ? 4 : 3, true, true); }, 2);
    return mc::main(argc, argv);
}
