// R13: concurrent users of one robot.  The real robot runs in real threads under a controlled scheduler; all
// schedules up to a preemption bound are executed, every query must return the state between two complete
// updates of some sequential order that respects real time, and no two unsynchronised accesses may conflict.
#include "ctlsched.h"
#include "simox.h"
#include <VirtualRobot/LinkedCoordinate.h>
#include <VirtualRobot/Trajectory.h>
#include <thread>

using namespace VirtualRobot;
using namespace sx;
using mc::Run;
typedef std::vector<double> Vec;

struct World
{
    Tree t;
    RobotPtr rob;
    RobotNodeSetPtr all, part;
    RobotNodePtr j1, j2, j3, tip;
    SensorPtr sensor;
    RobotConfigPtr cfg[2];
    TrajectoryPtr trj[2];
};
static World* W;

static const double VAL[2][3] = {{0.9, -0.7, 60}, {-0.5, 0.8, -30}};
static M4 BASE(int k)
{
    return k ? mk(-300, 40, 10, V3(1, 0, 0), -0.8) : mk(500, 100, -50, V3(0, 1, 1), 0.6);
}
static M4 TIP(int k)
{
    return k ? mk(100, 900, 0, V3(0, 0, 1), 0.4) : mk(-700, 0, 300, V3(1, 1, 0), -1.1);
}

static Vec flat(const Eigen::MatrixXf& m)
{
    Vec v;
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++) v.push_back(m(i, j) * (m.cols() == 4 && j == 3 ? 1 : 1000));
    return v;
}
static Vec flat(const M4& m)
{
    return flat(Eigen::MatrixXf(m.cast<float>()));
}
static Vec pos(const V3& p)
{
    return Vec{p[0], p[1], p[2]};
}
static Vec joints(const Vec& q)
{
    return Vec{q[0] * 1000, q[1] * 1000, q[2]};
}
static Vec cat(Vec a, const Vec& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

struct Op
{
    std::string name;
    std::function<Vec()> real;
    std::function<Vec(Kin&)> model;
};
struct WriteOp
{
    std::string name;
    std::function<void(int)> real;
    std::function<void(Kin&, int)> model;
};
static std::vector<WriteOp> writers;
static std::vector<Op> readers;

static void setAll(Kin& k, int v)
{
    for (int i = 0; i < 3; i++) k.set(i + 1, VAL[v][i]);
}
static Vec q3(const Kin& k)
{
    return Vec{k.q[1], k.q[2], k.q[3]};
}

static void world()
{
    W = new World();
    World& w = *W;
    w.t = trees()[0];
    for (auto& n : w.t.n)
    {
        n.mass = 1 + (n.name == "tip") * 2;
        n.com = V3(5, -3, 8);
    }
    w.t.n[2].sensor = true;
    BuildOpt o;
    o.meshes = true;
    w.rob = build(w.t, "rob", o);
    w.rob->setThreadsafe(true);
    w.j1 = w.rob->getRobotNode("j1");
    w.j2 = w.rob->getRobotNode("j2");
    w.j3 = w.rob->getRobotNode("j3");
    w.tip = w.rob->getRobotNode("tip");
    w.sensor = w.rob->getSensor("j2_sensor");
    w.all = RobotNodeSet::createRobotNodeSet(w.rob, "all", std::vector<RobotNodePtr>{w.j1, w.j2, w.j3}, RobotNodePtr(), w.tip, true);
    w.part = RobotNodeSet::createRobotNodeSet(w.rob, "part", std::vector<RobotNodePtr>{w.j1, w.j2, w.j3}, w.j1, w.tip, true);
    for (int v = 0; v < 2; v++)
    {
        std::map<RobotNodePtr, float> c;
        c[w.j1] = VAL[v][0];
        c[w.j2] = VAL[v][1];
        c[w.j3] = VAL[v][2];
        w.cfg[v].reset(new RobotConfig(w.rob, "cfg", c));
        w.trj[v].reset(new Trajectory(w.all, "trj"));
        Eigen::VectorXf p(3);
        p << VAL[v][0], VAL[v][1], VAL[v][2];
        w.trj[v]->addPoint(p);
        p[0] += 0.1;
        w.trj[v]->addPoint(p);
    }

    auto vecf = [](int v) { return std::vector<float>{(float)VAL[v][0], (float)VAL[v][1], (float)VAL[v][2]}; };
    auto vece = [](int v) { Eigen::VectorXf p(3); p << VAL[v][0], VAL[v][1], VAL[v][2]; return p; };
    auto W1 = [](const char* n, std::function<void(int)> real) { writers.push_back(WriteOp{n, real, setAll}); };
    writers.push_back(WriteOp{"setJointValue(node)", [](int v) { W->rob->setJointValue(W->j1, VAL[v][0]); }, [](Kin& k, int v) { k.set(1, VAL[v][0]); }});
    writers.push_back(WriteOp{"setJointValue(name)", [](int v) { W->rob->setJointValue("j2", VAL[v][1]); }, [](Kin& k, int v) { k.set(2, VAL[v][1]); }});
    W1("setJointValues(map of names)", [](int v) { W->rob->setJointValues(std::map<std::string, float>{{"j1", VAL[v][0]}, {"j2", VAL[v][1]}, {"j3", VAL[v][2]}}); });
    W1("setJointValues(map of nodes)", [](int v) { W->rob->setJointValues(std::map<RobotNodePtr, float>{{W->j1, VAL[v][0]}, {W->j2, VAL[v][1]}, {W->j3, VAL[v][2]}}); });
    W1("setJointValues(nodes, values)", [vecf](int v) { W->rob->setJointValues(std::vector<RobotNodePtr>{W->j1, W->j2, W->j3}, vecf(v)); });
    W1("setJointValues(node set, vector)", [vecf](int v) { W->rob->setJointValues(W->all, vecf(v)); });
    W1("node set setJointValues(Eigen)", [vece](int v) { W->all->setJointValues(vece(v)); });
    W1("node set with root setJointValues", [vecf](int v) { W->part->setJointValues(vecf(v)); });
    W1("node set setJointValues(config)", [](int v) { W->all->setJointValues(W->cfg[v]); });
    W1("setConfig", [](int v) { W->rob->setConfig(W->cfg[v]); });
    W1("config setJointValues", [](int v) { W->cfg[v]->setJointValues(); });
    W1("setJointValues(trajectory)", [](int v) { W->rob->setJointValues(W->trj[v], 0); });
    W1("setJointValueNoUpdate and applyJointValues under the write lock", [](int v) {
        WriteLockPtr l = W->rob->getWriteLock();
        W->j1->setJointValueNoUpdate(VAL[v][0]);
        W->j2->setJointValueNoUpdate(VAL[v][1]);
        W->j3->setJointValueNoUpdate(VAL[v][2]);
        W->rob->applyJointValues();
    });
    W1("three updates under the read lock", [](int v) {
        ReadLockPtr l = W->rob->getReadLock();
        W->j1->setJointValue(VAL[v][0]);
        W->rob->setJointValue("j2", VAL[v][1]);
        W->rob->setJointValues(std::map<std::string, float>{{"j3", VAL[v][2]}});
    });
    writers.push_back(WriteOp{"setGlobalPose", [](int v) { W->rob->setGlobalPose(f(BASE(v))); }, [](Kin& k, int v) { k.base = BASE(v); }});
    writers.push_back(WriteOp{"setGlobalPoseForRobotNode", [](int v) { W->rob->setGlobalPoseForRobotNode(W->tip, f(TIP(v))); },
                              [](Kin& k, int v) { k.base = M4(TIP(v) * inv(k.poses()[4]) * k.base); }});
    writers.push_back(WriteOp{"setGlobalPositionForRobotNode", [](int v) { W->rob->setGlobalPositionForRobotNode(W->tip, f(TIP(v)).block<3, 1>(0, 3)); },
                              [](Kin& k, int v) {
                                  V3 d = V3(TIP(v).block<3, 1>(0, 3)) - V3(k.poses()[4].block<3, 1>(0, 3));
                                  for (int i = 0; i < 3; i++) k.base(i, 3) += d[i];
                              }});

    auto R1 = [](const char* n, std::function<Vec()> real, std::function<Vec(Kin&)> m) { readers.push_back(Op{n, real, m}); };
    auto Q = [](Kin& k) { return joints(q3(k)); };
    R1("getGlobalPose of a node", [] { return flat(Eigen::MatrixXf(W->tip->getGlobalPose())); }, [](Kin& k) { return flat(k.poses()[4]); });
    R1("getGlobalPosition of a node", [] { return flat(Eigen::MatrixXf(W->tip->getGlobalPose(f(tr(1, 2, 3))))); }, [](Kin& k) { return flat(M4(k.poses()[4] * tr(1, 2, 3))); });
    R1("getPoseInRootFrame", [] { return flat(Eigen::MatrixXf(W->tip->getPoseInRootFrame())); }, [](Kin& k) { auto p = k.poses(); return flat(M4(inv(p[0]) * p[4])); });
    R1("getPositionInRootFrame", [] { Eigen::Vector3f p = W->tip->getPositionInRootFrame(); return Vec{p[0], p[1], p[2]}; },
       [](Kin& k) { auto p = k.poses(); return pos(V3(M4(inv(p[0]) * p[4]).block<3, 1>(0, 3))); });
    R1("getJointValue", [] { return Vec{W->j2->getJointValue() * 1000}; }, [](Kin& k) { return Vec{k.q[2] * 1000}; });
    R1("getGlobalPose of the robot", [] { return flat(Eigen::MatrixXf(W->rob->getGlobalPose())); }, [](Kin& k) { return flat(k.base); });
    R1("getConfig", [] {
        std::map<std::string, float> m = W->rob->getConfig()->getRobotNodeJointValueMap();
        return joints(Vec{m["j1"], m["j2"], m["j3"]});
    }, Q);
    R1("node set getJointValues(vector)", [] { std::vector<float> v; W->all->getJointValues(v); return joints(Vec{v[0], v[1], v[2]}); }, Q);
    R1("node set getJointValues()", [] { std::vector<float> v = W->part->getJointValues(); return joints(Vec{v[0], v[1], v[2]}); }, Q);
    R1("node set getJointValuesEigen", [] { Eigen::VectorXf v = W->all->getJointValuesEigen(); return joints(Vec{v[0], v[1], v[2]}); }, Q);
    R1("node set getJointValues(config)", [] {
        RobotConfigPtr c(new RobotConfig(W->rob, "tmp"));
        W->all->getJointValues(c);
        return joints(Vec{c->getConfig("j1"), c->getConfig("j2"), c->getConfig("j3")});
    }, Q);
    R1("node set getJointValueMap", [] { std::map<std::string, float> m = W->all->getJointValueMap(); return joints(Vec{m["j1"], m["j2"], m["j3"]}); }, Q);
    R1("several queries under the read lock", [] {
        ReadLockPtr l = W->rob->getReadLock();
        Vec v = flat(Eigen::MatrixXf(W->j1->getGlobalPose()));
        v = cat(v, flat(Eigen::MatrixXf(W->tip->getGlobalPose())));
        v.push_back(W->j1->getJointValue() * 1000);
        v.push_back(W->j3->getJointValue());
        return cat(v, flat(Eigen::MatrixXf(W->rob->getGlobalPose())));
    }, [](Kin& k) {
        auto p = k.poses();
        Vec v = cat(flat(p[1]), flat(p[4]));
        v.push_back(k.q[1] * 1000);
        v.push_back(k.q[3]);
        return cat(v, flat(k.base));
    });
    R1("LinkedCoordinate in another frame", [] {
        LinkedCoordinate c(W->rob);
        c.set(W->tip, f(tr(10, 0, 0)));
        return flat(Eigen::MatrixXf(c.getInFrame(W->j1)));
    }, [](Kin& k) { auto p = k.poses(); return flat(M4(inv(p[1]) * p[4] * tr(10, 0, 0))); });
    auto com = [](Kin& k) {
        auto p = k.poses();
        V4 s(0, 0, 0, 0);
        double m = 0;
        for (size_t i = 0; i < p.size(); i++)
        {
            V4 c;
            c << k.t.n[i].com, 1;
            s += p[i] * c * k.t.n[i].mass;
            m += k.t.n[i].mass;
        }
        return V4(s / m);
    };
    R1("centre of mass of the robot", [] { Eigen::Vector3f p = W->rob->getCoMGlobal(); return Vec{p[0], p[1], p[2]}; }, [com](Kin& k) { V4 p = com(k); return Vec{p[0], p[1], p[2]}; });
    R1("centre of mass of the node set", [] { Eigen::Vector3f p = W->all->getCoM(); return Vec{p[0], p[1], p[2]}; }, [](Kin& k) {
        auto p = k.poses();
        V4 s(0, 0, 0, 0);
        for (int i = 1; i <= 3; i++)
        {
            V4 c;
            c << k.t.n[i].com, 1;
            s += p[i] * c;
        }
        return Vec{s[0] / 3, s[1] / 3, s[2] / 3};
    });
    R1("clone of the robot", [] {
        RobotPtr c = W->rob->clone("copy");
        Vec v = flat(Eigen::MatrixXf(c->getRobotNode("tip")->getGlobalPose()));
        return cat(v, joints(Vec{c->getRobotNode("j1")->getJointValue(), c->getRobotNode("j2")->getJointValue(), c->getRobotNode("j3")->getJointValue()}));
    }, [Q](Kin& k) { return cat(flat(k.poses()[4]), Q(k)); });
    R1("pose of a sensor", [] { return flat(Eigen::MatrixXf(W->sensor->getGlobalPose())); }, [](Kin& k) { return flat(M4(k.poses()[2] * sensorTrafo())); });
}

static bool same(const Vec& a, const Vec& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!(std::fabs(a[i] - b[i]) <= 0.2)) return false;
    return true;
}

struct Call
{
    std::string name;
    bool write;
    int op, v, thread;
    int inv = 0, res = 0;
    Vec got;
    std::string error;
};
static int clockNow;

static void runCall(Call& c)
{
    c.inv = clockNow++;
    try
    {
        if (c.write) writers[c.op].real(c.v);
        else c.got = readers[c.op].real();
    }
    catch (std::exception& e)
    {
        c.error = e.what();
    }
    c.res = clockNow++;
}
// is there a sequential order of the calls, respecting real time, that explains all answers?
static bool explain(std::vector<Call*>& left, Kin& k)
{
    if (left.empty()) return true;
    for (size_t i = 0; i < left.size(); i++)
    {
        Call* c = left[i];
        bool first = true;
        for (Call* d : left) first = first && (d == c || d->res > c->inv);
        if (!first) continue;
        Kin m = k;
        if (c->write) writers[c->op].model(m, c->v);
        else if (!same(readers[c->op].model(m), c->got)) continue;
        std::vector<Call*> rest;
        for (Call* d : left)
            if (d != c) rest.push_back(d);
        if (explain(rest, m)) return true;
    }
    return false;
}

static void play(Run& r, std::vector<std::vector<Call>> prog, int preemptions)
{
    World& w = *W;
    // the start state
    Kin k(w.t);
    w.rob->setJointValues(std::map<std::string, float>{{"j1", 0.1f}, {"j2", 0.2f}, {"j3", 5.f}});
    w.rob->setGlobalPose(f(mk(1, 2, 3, V3(0, 0, 1), 0.2)));
    k.set(1, 0.1f);
    k.set(2, 0.2f);
    k.set(3, 5.f);
    k.base = mk(1, 2, 3, V3(0, 0, 1), 0.2);
    clockNow = 0;

    sched::Options o;
    o.preemptions = preemptions;
    sched::begin(r, o);
    {
        std::vector<std::thread> th;
        for (size_t i = 1; i < prog.size(); i++)
            th.emplace_back([&prog, i] {
                for (auto& c : prog[i]) runCall(c);
            });
        for (auto& c : prog[0]) runCall(c);
        for (auto& t : th) t.join();
    }
    sched::end();

    std::vector<Call> fin;
    for (int op : {0, 5, 12})
    {
        fin.push_back(Call{readers[op].name, false, op, 0, 0});
        runCall(fin.back());
    }
    std::vector<Call*> c;
    for (auto& p : prog)
        for (auto& x : p)
        {
            std::string s;
            for (double d : x.got) s += mc::strf("%.6g ", d);
            r.step("thread %d: %s [%d,%d] %s", x.thread, x.name.c_str(), x.inv, x.res, s.c_str());
            r.check(x.error.empty(), "exception in " + x.name, "%s", x.error.c_str());
            c.push_back(&x);
        }
    for (auto& x : fin) c.push_back(&x);
    r.compared((int)c.size());
    if (!explain(c, k))
    {
        // name the smallest culprit: does it still fail without the final state?
        std::string names;
        std::vector<Call*> onlyCalls(c.begin(), c.end() - fin.size());
        bool reads = !explain(onlyCalls, k);
        std::vector<std::string> n;
        for (auto x : onlyCalls)
            if (!reads || !x->write) n.push_back(x->name);
        std::sort(n.begin(), n.end());
        n.erase(std::unique(n.begin(), n.end()), n.end());
        for (auto& x : n) names += (names.empty() ? "" : " + ") + x;
        r.fail((reads ? "mixture of updates seen by " : "lost or partial update: ") + names, "no order of the complete updates explains what was seen");
    }
    mc::Hash h;
    for (auto x : c)
    {
        h.s(x->name).i(x->inv).i(x->res);
        for (double d : x->got) h.f(d, 1);
    }
    r.state(h);
}

static Call wr(int op, int v, int thread)
{
    return Call{writers[op].name, true, op, v, thread};
}
static Call rd(int op, int thread)
{
    return Call{readers[op].name, false, op, 0, thread};
}

int main(int argc, char** argv)
{
    mc::setup([] {
        silence();
        world();
        // statics and caches of a single threaded start
        for (auto& w : writers) w.real(0);
        for (auto& x : readers) x.real();
    });
    mc::hangSeconds(60);
    mc::suite("update-query", [](Run& r) {
        int w = r.choose((int)writers.size(), "update"), q = r.choose((int)readers.size(), "query");
        play(r, {{rd(q, 0), rd(q, 0)}, {wr(w, 0, 1)}}, r.thorough ? 4 : 2);
    }, 2);
    mc::suite("two-updates", [](Run& r) {
        int a = r.choose((int)writers.size(), "update"), b = r.choose((int)writers.size(), "update");
        play(r, {{wr(a, 0, 0)}, {wr(b, 1, 1)}}, r.thorough ? 4 : 3);
    }, 2);
    // two threads update, a third one asks twice
    mc::suite("three-threads", [](Run& r) {
        static const std::vector<int> ws = {0, 2, 5, 7, 12, 13, 14, 15}, qs = {0, 5, 6, 7, 12, 13};
        int a = r.pick(ws, "update"), b = r.pick(ws, "update"), q = r.pick(qs, "query");
        play(r, {{rd(q, 0), rd(q, 0)}, {wr(a, 0, 1)}, {wr(b, 1, 2)}}, r.thorough ? 3 : 2);
    }, 3);
    // both threads update and ask
    mc::suite("update-then-query", [](Run& r) {
        static const std::vector<int> ws = {0, 2, 5, 9, 14, 15}, qs = {0, 6, 7, 12};
        int a = r.pick(ws, "update"), p = r.pick(qs, "query"), b = r.pick(ws, "update"), q = r.pick(qs, "query");
        play(r, {{wr(a, 0, 0), rd(p, 0)}, {wr(b, 1, 1), rd(q, 1)}}, r.thorough ? 3 : 2);
    }, 4);
    return mc::main(argc, argv);
}
