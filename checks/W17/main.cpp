#include "simox.h"
#include <VirtualRobot/IK/PoseQualityExtendedManipulability.h>
#include <VirtualRobot/IK/PoseQualityManipulability.h>
#include <VirtualRobot/Workspace/Manipulability.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <csignal>
#include <fstream>
#include <memory>
#include <sys/resource.h>
using namespace VirtualRobot;
using namespace sx;

static Tree arm()
{
    Tree t;
    t.name = "arm";
    t.n = {F("base", -1, mk(50, 20, 10, V3(0, 0, 1), 0.4)), R("j1", 0, tr(0, 0, 100), V3(0, 0, 1), -3, 3), R("j2", 1, tr(120, 0, 30), V3(1, 0, 0), -1.2, 1.2), F("tip", 2, tr(0, 40, 60)), F("side", 0, tr(-80, 0, 0))};
    return t;
}
static RobotPtr robot()
{
    BuildOpt o;
    o.meshes = true;
    RobotPtr r = build(arm(), "rob", o);
    RobotNodeSet::createRobotNodeSet(r, "chain", std::vector<std::string>{"j1", "j2"}, "base", "tip", true);
    RobotNodeSet::createRobotNodeSet(r, "long", std::vector<std::string>{"j1", "j2", "tip"}, "j1", "tip", true);
    RobotNodeSet::createRobotNodeSet(r, "fixed part", std::vector<std::string>{"side"}, "", "", true);
    RobotNodeSet::createRobotNodeSet(r, "moving part", std::vector<std::string>{"tip"}, "", "", true);
    return r;
}
struct Cfg
{
    int kind, grid, content, base, set, col;
};
static const int KINDS = 3, GRIDS = 3, CONTENTS = 8;
static boost::shared_ptr<WorkspaceRepresentation> make(RobotPtr r, const Cfg& c)
{
    boost::shared_ptr<WorkspaceRepresentation> w;
    boost::shared_ptr<Manipulability> m;
    RobotNodeSetPtr set = r->getRobotNodeSet(c.set ? "long" : "chain");
    if (c.kind == 0) w.reset(new Reachability(r));
    else
    {
        m.reset(new Manipulability(r));
        w = m;
        if (c.kind == 1) m->setManipulabilityMeasure(PoseQualityMeasurementPtr(new PoseQualityManipulability(set)));
        else m->setManipulabilityMeasure(PoseQualityMeasurementPtr(new PoseQualityExtendedManipulability(set)));
    }
    float lo[6] = {-200, -100, 0, 0, 0, 0}, hi[6] = {200, 200, 400, 6.2831855f, 6.2831855f, 1.5707964f};
    float dt = c.grid == 0 ? 1000 : c.grid == 1 ? 250 : 130, dr = c.grid == 0 ? 7 : c.grid == 1 ? 3.5f : 1.2f;
    SceneObjectSetPtr a, b;
    if (c.col) a = r->getRobotNodeSet("fixed part"), b = r->getRobotNodeSet("moving part");
    w->initialize(set, dt, dr, lo, hi, a, b, c.base == 1 ? r->getRobotNode("base") : c.base == 2 ? r->getRobotNode("side") : RobotNodePtr());
    if (m)
    {
        m->setMaxManipulability(0.25f + c.content);
        if (c.kind == 2 && c.col) m->initSelfDistanceCheck(r->getRobotNodeSet("fixed part"), r->getRobotNodeSet("moving part"));
        if (c.kind == 2) boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(m->getManipulabilityMeasure())->considerObstacles(c.col, 30.f, 1.5f);
    }
    unsigned k = 0, x[6];
    for (x[0] = 0; (int)x[0] < w->getNumVoxels(0); x[0]++)
        for (x[1] = 0; (int)x[1] < w->getNumVoxels(1); x[1]++)
            for (x[2] = 0; (int)x[2] < w->getNumVoxels(2); x[2]++)
                for (x[3] = 0; (int)x[3] < w->getNumVoxels(3); x[3]++)
                    for (x[4] = 0; (int)x[4] < w->getNumVoxels(4); x[4]++)
                        for (x[5] = 0; (int)x[5] < w->getNumVoxels(5); x[5]++, k++)
                        {
                            int e = 0;
                            if (c.content == 1) e = k == 0 ? 255 : 0;
                            if (c.content == 2) e = 1;
                            if (c.content == 3) e = (int)(k * 2654435761u >> 24);
                            if (c.content == 4) e = x[1] == 1 || (x[0] == 0 && x[2] == 0) ? 1 + k % 7 : 0;
                            if (c.content == 5) e = k % 5 ? 0 : 200;
                            if (c.content == 6) e = x[5] == 0 && x[0] + 1 == (unsigned)w->getNumVoxels(0) && x[1] + 1 == (unsigned)w->getNumVoxels(1) && x[2] + 1 == (unsigned)w->getNumVoxels(2) ? 9 : 0;
                            if (c.content == 7) e = k % 256;
                            if (e) w->setVoxelEntry(x, (unsigned char)e);
                        }
    if (c.content == 1 || c.content == 3)
    {
        Eigen::Matrix4f p = f(mk(33, 44, 55, V3(1, 2, 3), 1));
        w->setEntry(p, 77);
        p = f(mk(-150, -20, 255, V3(-1, 2, 3), 2));
        w->addPose(p);
    }
    return w;
}
static std::string nm(SceneObjectPtr o)
{
    return o ? o->getName() : "-";
}
static std::string nms(SceneObjectSetPtr o)
{
    return o ? o->getName() : "-";
}
static void same(mc::Run& r, WorkspaceRepresentation& a, WorkspaceRepresentation& b, const char* when)
{
    r.compared();
    mc::Hash h;
    r.check((bool)b.getData(), "no data", "%s", when);
    for (int i = 0; i < 6; i++)
    {
        r.check(a.getNumVoxels(i) == b.getNumVoxels(i) && a.getMinBound(i) == b.getMinBound(i) && a.getMaxBound(i) == b.getMaxBound(i) && a.getVoxelSize(i) == b.getVoxelSize(i), "extents", "%s: dimension %d", when, i);
        h.i(a.getNumVoxels(i));
    }
    r.check(a.getDiscretizeParameterTranslation() == b.getDiscretizeParameterTranslation() && a.getDiscretizeParameterRotation() == b.getDiscretizeParameterRotation(), "discretisation", "%s", when);
    r.check(nm(a.getBaseNode()) == nm(b.getBaseNode()), "base node", "%s: %s instead of %s", when, nm(b.getBaseNode()).c_str(), nm(a.getBaseNode()).c_str());
    r.check(nm(a.getTCP()) == nm(b.getTCP()) && nm(a.getTcp()) == nm(b.getTcp()), "tcp", "%s: %s", when, nm(b.getTCP()).c_str());
    r.check(nms(a.getNodeSet()) == nms(b.getNodeSet()), "node set", "%s: %s", when, nms(b.getNodeSet()).c_str());
    r.check(nms(a.getCollisionModelStatic()) == nms(b.getCollisionModelStatic()) && nms(a.getCollisionModelDynamic()) == nms(b.getCollisionModelDynamic()), "collision models", "%s", when);
    r.check(a.getMaxEntry() == b.getMaxEntry(), "maximum entry", "%s: %d instead of %d", when, b.getMaxEntry(), a.getMaxEntry());
    r.check(a.getData()->getVoxelFilledCount() == b.getData()->getVoxelFilledCount(), "filled voxels", "%s", when);
    bool touched = a.getOOBB(true).minBB[0] <= a.getOOBB(true).maxBB[0];
    for (int k = 0; k < 2; k++)
    {
        if (k && !touched) continue;
        auto p = a.getOOBB(k), q = b.getOOBB(k);
        r.check((p.minBB - q.minBB).norm() < 1e-3 && (p.maxBB - q.maxBB).norm() < 1e-3 && (p.pose - q.pose).norm() < 1e-3, "box", "%s: %d", when, k);
    }
    unsigned x[6];
    for (x[0] = 0; (int)x[0] < a.getNumVoxels(0); x[0]++)
        for (x[1] = 0; (int)x[1] < a.getNumVoxels(1); x[1]++)
            for (x[2] = 0; (int)x[2] < a.getNumVoxels(2); x[2]++)
                for (x[3] = 0; (int)x[3] < a.getNumVoxels(3); x[3]++)
                    for (x[4] = 0; (int)x[4] < a.getNumVoxels(4); x[4]++)
                        for (x[5] = 0; (int)x[5] < a.getNumVoxels(5); x[5]++)
                        {
                            int e = a.getVoxelEntry(x[0], x[1], x[2], x[3], x[4], x[5]), g = b.getVoxelEntry(x[0], x[1], x[2], x[3], x[4], x[5]);
                            r.check(e == g, "voxel", "%s: [%u %u %u %u %u %u] is %d instead of %d", when, x[0], x[1], x[2], x[3], x[4], x[5], g, e);
                            h.i(e);
                            if ((x[0] + x[1] + x[2] + x[3] + x[4] + x[5]) % 4) continue;
                            Eigen::Matrix4f p = a.getPoseFromVoxel(x);
                            r.check(b.getEntry(p) == e && a.getEntry(p) == e, "entry of a pose", "%s: %d, expected %d", when, b.getEntry(p), e);
                        }
    Manipulability *m = dynamic_cast<Manipulability*>(&a), *n = dynamic_cast<Manipulability*>(&b);
    if (m && n)
    {
        r.check(m->getMaxManipulability() == n->getMaxManipulability() && m->getMeasureName() == n->getMeasureName() && m->consideringJointLimits() == n->consideringJointLimits(), "manipulability parameters", "%s: %g %s", when, n->getMaxManipulability(), n->getMeasureName().c_str());
        bool u, v;
        RobotNodeSetPtr s, t, s2, t2;
        m->getSelfDistConfig(u, s, t);
        n->getSelfDistConfig(v, s2, t2);
        r.check(u == v && nms(u ? s : RobotNodeSetPtr()) == nms(s2) && nms(u ? t : RobotNodeSetPtr()) == nms(t2), "self distance parameters", "%s: %d %d", when, u, v);
        PoseQualityExtendedManipulabilityPtr p = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(m->getManipulabilityMeasure()), q = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(n->getManipulabilityMeasure());
        if (p && u)
        {
            r.check((bool)q, "measure", "%s", when);
            float w, x, y, z;
            p->getSelfDistParameters(w, x);
            q->getSelfDistParameters(y, z);
            r.check(w == y && x == z, "self distance weights", "%s: %g %g instead of %g %g", when, y, z, w, x);
        }
    }
    r.state(h);
}
static boost::shared_ptr<WorkspaceRepresentation> blank(RobotPtr r, int kind)
{
    if (kind == 0) return boost::shared_ptr<WorkspaceRepresentation>(new Reachability(r));
    return boost::shared_ptr<WorkspaceRepresentation>(new Manipulability(r));
}
static void roundtrip(mc::Run& r)
{
    Cfg c;
    c.kind = r.choose(KINDS, "kind");
    c.grid = r.choose(GRIDS, "grid");
    c.content = r.choose(CONTENTS, "content");
    c.base = r.choose(3, "base node");
    c.set = r.choose(2, "node set");
    c.col = r.choose(2, "collision models");
    RobotPtr a = robot(), b = r.flip("other robot instance") ? robot() : a;
    auto w = make(a, c);
    std::string fn = mc::scratch() + "/w.bin";
    int hist = r.choose(4, "history");
    std::unique_ptr<bool> dummy;
    if (hist == 1)
    {
        auto k = w->clone();
        same(r, *w, *k, "clone");
        w = k;
    }
    r.step("save");
    w->save(fn);
    auto l = blank(b, c.kind);
    if (hist == 2)
    {
        // the loading map held something else before
        Cfg d = c;
        d.grid = (c.grid + 1) % 2;
        d.content = 2;
        d.base = (c.base + 1) % 3;
        d.col = !c.col;
        l = make(b, d);
    }
    r.step("load");
    l->load(fn);
    same(r, *w, *l, "loaded");
    if (hist == 3)
    {
        l->save(fn);
        auto k = blank(b, c.kind);
        k->load(fn);
        same(r, *w, *k, "loaded twice");
        l = k;
    }
    // both robots are moved: the map goes with its base node
    Eigen::Matrix4f p = f(mk(-300, 500, 20, V3(0, 1, 1), 0.7));
    a->setGlobalPose(p);
    b->setGlobalPose(p);
    same(r, *w, *l, "robot moved");
    // and both can be extended
    unsigned x[6] = {0, 0, 0, 0, 0, 0};
    w->setVoxelEntry(x, 250);
    l->setVoxelEntry(x, 250);
    same(r, *w, *l, "extended");
    r.outcome("restored");
}
struct File
{
    std::string bytes;
    size_t data;
};
static File stored(const Cfg& c, boost::shared_ptr<WorkspaceRepresentation>& w, RobotPtr rob)
{
    w = make(rob, c);
    std::string fn = mc::scratch() + "/d.bin";
    w->save(fn);
    std::ifstream i(fn.c_str(), std::ios::binary);
    File f;
    f.bytes.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
    f.data = f.bytes.find("DATA_START") + 10;
    return f;
}
// per configuration the stored file is kept: making it is the expensive part
struct Kept
{
    RobotPtr rob;
    boost::shared_ptr<WorkspaceRepresentation> w;
    File f;
};
static Kept& kept(const Cfg& c)
{
    static std::map<std::vector<int>, Kept> all;
    Kept& k = all[{c.kind, c.grid, c.content, c.base, c.set, c.col}];
    if (!k.rob)
    {
        k.rob = robot();
        k.f = stored(c, k.w, k.rob);
    }
    return k;
}
static void load(mc::Run& r, const Cfg& c, Kept& k, const std::string& bytes, bool mayBeSame)
{
    std::string fn = mc::scratch() + "/l.bin";
    {
        std::ofstream o(fn.c_str(), std::ios::binary);
        o.write(bytes.data(), bytes.size());
    }
    auto l = blank(k.rob, c.kind);
    r.compared();
    r.at("loading a damaged map");
    try
    {
        l->load(fn);
    }
    catch (std::exception& e)
    {
        r.outcome("refused");
        return;
    }
    r.check(mayBeSame, "truncated file accepted", "%d of %d bytes", (int)bytes.size(), (int)k.f.bytes.size());
    same(r, *k.w, *l, "damaged file");
    r.outcome("unharmed");
}
static Cfg damagedCfg(mc::Run& r)
{
    static const Cfg C[] = {{0, 0, 1, 1, 0, 0}, {0, 1, 3, 0, 0, 1}, {1, 1, 5, 1, 0, 0}, {2, 0, 2, 2, 1, 1}, {0, 2, 4, 1, 0, 0}};
    return C[r.choose(r.thorough ? 5 : 4, "map")];
}
static void truncated(mc::Run& r)
{
    Cfg c = damagedCfg(r);
    Kept& k = kept(c);
    int n = r.choose((int)k.f.bytes.size(), "length");
    r.step("load the first %d of %d bytes", n, (int)k.f.bytes.size());
    load(r, c, k, k.f.bytes.substr(0, n), false);
}
static void damaged(mc::Run& r)
{
    Cfg c = damagedCfg(r);
    Kept& k = kept(c);
    int n = (int)k.f.data + r.choose((int)(k.f.bytes.size() - k.f.data), "byte");
    int b = r.choose(r.thorough ? 9 : 3, "alteration");
    std::string s = k.f.bytes;
    s[n] = (char)((unsigned char)s[n] ^ (b == 0 ? 0xff : b == 1 ? 1 : b == 2 ? 0x80 : 1 << (b - 2)));
    r.step("load with byte %d of %d altered", n, (int)s.size());
    load(r, c, k, s, true);
}
// the disk is full after some number of bytes
static void full(mc::Run& r)
{
    Cfg c = damagedCfg(r);
    Kept& k = kept(c);
    int n = r.choose((int)k.f.bytes.size() + 1, "room");
    std::string fn = mc::scratch() + "/f.bin";
    unlink(fn.c_str());
    struct rlimit o, l;
    getrlimit(RLIMIT_FSIZE, &o);
    l = o;
    l.rlim_cur = n;
    signal(SIGXFSZ, SIG_IGN);
    r.step("save with room for %d of %d bytes", n, (int)k.f.bytes.size());
    bool thrown = false;
    setrlimit(RLIMIT_FSIZE, &l);
    try
    {
        k.w->save(fn);
    }
    catch (std::exception&)
    {
        thrown = true;
    }
    setrlimit(RLIMIT_FSIZE, &o);
    r.compared();
    bool whole = n == (int)k.f.bytes.size();
    r.check(thrown == !whole, whole ? "saving refused" : "incomplete saving not reported", "room for %d of %d bytes", n, (int)k.f.bytes.size());
    auto b = blank(k.rob, c.kind);
    bool ok = true;
    try
    {
        b->load(fn);
    }
    catch (std::exception&)
    {
        ok = false;
    }
    r.check(ok == whole, "incomplete file accepted", "%d of %d bytes", n, (int)k.f.bytes.size());
    r.outcome(whole ? "saved" : "reported");
}
// other robots and node sets
static void mismatch(mc::Run& r)
{
    Cfg c = {r.choose(2, "kind"), 0, 1, 1, 0, 0};
    Kept& k = kept(c);
    Tree t = arm();
    int w = r.choose(5, "difference");
    RobotPtr b;
    if (w == 0) b = RobotFactory::createRobot("other", "another model");
    else b = build(t);
    if (w != 1 && w != 0) RobotNodeSet::createRobotNodeSet(b, "chain", w == 2 ? std::vector<std::string>{"j1"} : std::vector<std::string>{"j1", "j2"}, "base", "tip", true);
    std::string fn = mc::scratch() + "/m.bin", s = k.f.bytes;
    if (w == 3) s[5] ^= 4;
    if (w == 4) s.clear();
    {
        std::ofstream o(fn.c_str(), std::ios::binary);
        o.write(s.data(), s.size());
    }
    auto l = blank(b, c.kind);
    bool ok = true;
    try
    {
        l->load(fn);
    }
    catch (std::exception&)
    {
        ok = false;
    }
    r.compared();
    r.check(!ok, "foreign file accepted", "difference %d", w);
    r.outcome("refused");
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("save and load", roundtrip, 4);
    mc::suite("truncated", truncated, 2);
    mc::suite("damaged", damaged, 2);
    mc::suite("disk full", full, 2);
    mc::suite("foreign", mismatch, 2);
    return mc::main(argc, argv);
}
