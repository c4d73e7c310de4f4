// T08: a joint trajectory is an edited list of points with linear interpolation.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/Trajectory.h>
#include <algorithm>
#include <set>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;
typedef std::vector<Eigen::VectorXf> Path;

static Eigen::VectorXf vx(float a, float b)
{
    Eigen::VectorXf v(2);
    v << a, b;
    return v;
}
static Eigen::VectorXf point(int i)
{
    switch (i)
    {
        case 0: return vx(0, 0);
        case 1: return vx(0.3f, -0.4f);
        case 2: return vx(0.3f, -0.399f);
        default: return vx(-1, 0.7f);
    }
}
static std::string showp(const Path& p)
{
    std::string s = "[";
    for (auto& x : p) s += showv(x);
    return s + "]";
}
static bool same(const Path& a, const Path& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].size() != b[i].size() || a[i] != b[i]) return false;
    return true;
}
static double length(const Path& m, std::vector<double>* cum = nullptr)
{
    double l = 0;
    if (cum) cum->assign(1, 0.0);
    for (size_t i = 1; i < m.size(); i++)
    {
        l += std::hypot((double)m[i][0] - m[i - 1][0], (double)m[i][1] - m[i - 1][1]);
        if (cum) cum->push_back(l);
    }
    return l;
}
// the point at relative time t
static V3 where(const Path& m, double t)
{
    std::vector<double> c;
    double l = length(m, &c), w = l * std::min(1.0, std::max(0.0, t));
    for (size_t i = 1; i < m.size(); i++)
        if (c[i] >= w && c[i] > c[i - 1])
        {
            double k = (w - c[i - 1]) / (c[i] - c[i - 1]);
            return V3(m[i - 1][0] + k * ((double)m[i][0] - m[i - 1][0]), m[i - 1][1] + k * ((double)m[i][1] - m[i - 1][1]), 0);
        }
    return V3(m.back()[0], m.back()[1], 0);
}
static RobotPtr rob()
{
    static RobotPtr r;
    if (!r)
    {
        r = build(trees()[0], "rob");
        RobotNodeSet::createRobotNodeSet(r, "set", {r->getRobotNode("j1"), r->getRobotNode("j2")}, r->getRobotNode("base"), r->getRobotNode("tip"), true);
        RobotNodeSet::createRobotNodeSet(r, "other", {r->getRobotNode("j2"), r->getRobotNode("j3")}, r->getRobotNode("base"), r->getRobotNode("tip"), true);
    }
    return r;
}
// everything a trajectory says
static void compare(mc::Run& r, TrajectoryPtr t, const Path& m, bool interpolation)
{
    r.compared();
    unsigned n = (unsigned)m.size();
    r.check(t->getNrOfPoints() == n && same(t->getPoints(), m) && same(t->getData(), m), "a trajectory does not hold the points the edits describe", "%s, expected %s", showp(t->getPoints()).c_str(), showp(m).c_str());
    r.check(t->getDimension() == 2 && t->getName() == "tra" && t->getRobotNodeSet() == rob()->getRobotNodeSet("set") && t->getRobotName() == "rob", "a trajectory forgets its robot, set or name", "%s", t->getName().c_str());
    for (unsigned i = 0; i < n + 2; i++)
    {
        Eigen::VectorXf p = t->getPoint(i), e = n ? m[std::min(i, n - 1)] : Eigen::VectorXf(Eigen::VectorXf::Zero(2));
        r.check(p == e, "a point of a trajectory is wrong", "%u: %s, expected %s", i, showv(p).c_str(), showv(e).c_str());
    }
    for (unsigned a = 0; a < n + 1; a++)
        for (unsigned b = 0; b < n + 1; b++)
        {
            Path s;
            bool ok = t->getPoints(a, b, s);
            Path w;
            if (a <= b && b < n) w = Path(m.begin() + a, m.begin() + b + 1);
            r.check(ok == (a <= b && b < n) && same(s, w), "a range of a trajectory is wrong", "%u..%u: %d %s", a, b, (int)ok, showp(s).c_str());
        }
    std::vector<double> cum;
    double l = length(m, &cum);
    r.check(std::fabs(t->getLength() - l) <= 1e-5 * (1 + l), "the length of a trajectory is wrong", "%.7g, expected %.7g", t->getLength(), l);
    mc::Hash h;
    for (auto& p : m) h.f(p[0]).f(p[1]);
    r.state(h);
    uint64_t exact = h;
    if (!interpolation || m.empty()) return;
    // the whole grid once per list of points and worker, three times always
    static std::set<uint64_t> seen;
    std::vector<double> times = {0.2, 0.5, 0.7};
    if (seen.insert(exact).second) times = {-0.5, 0, 1e-7, 0.001, 0.1, 0.25, 1. / 3, 0.5, 0.6180339, 0.75, 0.9, 0.999, 0.9999999, 1, 1.0000001, 2};
    if (l > 0 && times.size() > 3)
        for (double c : cum)
        {
            times.push_back(c / l);
            times.push_back(c / l + 1e-4);
        }
    for (double q : times)
    {
        float x = (float)q;
        Eigen::VectorXf p;
        int idx = -77;
        t->interpolate(x, p, &idx);
        V3 e = where(m, x);
        r.check(p.size() == 2 && std::fabs(p[0] - e[0]) < 2e-5 * (1 + l) && std::fabs(p[1] - e[1]) < 2e-5 * (1 + l), "the position at a relative time is wrong", "t=%g of %s: %s, expected (%.6g %.6g)", x, showp(m).c_str(), showv(p).c_str(), e[0], e[1]);
        double w = l * std::min(1.0, std::max(0.0, (double)x));
        bool ok = idx >= 0 && idx < (int)n && cum[idx] <= w + 1e-5 * (1 + l) && (idx + 1 >= (int)n || cum[idx + 1] >= w - 1e-5 * (1 + l));
        r.check(ok, "the index of the last point before a relative time is wrong", "t=%g of %s: %d", x, showp(m).c_str(), idx);
        Eigen::VectorXf p2;
        t->interpolate(x, p2);
        r.check(p2 == p, "the position depends on asking for the index", "t=%g", x);
        rob()->setJointValues(t, x);
        Eigen::VectorXf now;
        rob()->getRobotNodeSet("set")->getJointValues(now);
        Kin k(trees()[0]);
        double c0 = k.clamp(1, p[0]), c1 = k.clamp(2, p[1]);
        r.check(std::fabs(now[0] - c0) < 1e-5 && std::fabs(now[1] - c1) < 1e-5, "the robot is not put to the position at a relative time", "t=%g: %s", x, showv(now).c_str());
    }
}
static void edits(mc::Run& r)
{
    RobotPtr rb = rob();
    TrajectoryPtr t(new Trajectory(rb->getRobotNodeSet("set"), "tra"));
    Path m;
    r.at("edits");
    int D = r.thorough ? 4 : 3;
    // start with some points
    int n0 = r.choose(4, "points");
    for (int i = 0; i < n0; i++)
    {
        int p = i == 0 ? 0 : i == 1 ? 1 : r.choose(3, "point");
        t->addPoint(point(p));
        m.push_back(point(p));
    }
    compare(r, t, m, true);
    for (int op = 0; op < D; op++)
    {
        int k = r.choose(14, "edit");
        unsigned n = (unsigned)m.size();
        if (k == 13) break;
        TrajectoryPtr kept;
        Path km = m;
        if (k == 0)
        {
            int p = r.choose(2, "point") ? 3 : 1;
            r.step("append %d", p);
            t->addPoint(point(p));
            m.push_back(point(p));
        }
        else if (k == 1)
        {
            unsigned pos = (unsigned)r.choose((int)n + 2, "place");
            r.step("insert at %u", pos);
            t->insertPosition(pos, point(3));
            if (pos <= n) m.insert(m.begin() + pos, point(3));
        }
        else if (k == 2)
        {
            unsigned pos = (unsigned)r.choose((int)n + 2, "place");
            r.step("insert a list at %u", pos);
            Path l = vec<Eigen::VectorXf>({point(1), point(0), point(3)});
            t->insertPosition(pos, l);
            r.check(l.size() == 3 && l[1] == point(0), "inserting a list changes it", "%zu", l.size());
            if (pos <= n) m.insert(m.begin() + pos, l.begin(), l.end());
        }
        else if (k == 3)
        {
            unsigned pos = (unsigned)r.choose((int)n + 2, "place");
            r.step("insert a trajectory at %u", pos);
            TrajectoryPtr o(new Trajectory(rb->getRobotNodeSet("other"), "o"));
            Path l = vec<Eigen::VectorXf>({point(2), point(3)});
            for (auto& p : l) o->addPoint(p);
            t->insertTrajectory(pos, o);
            t->insertTrajectory(pos, TrajectoryPtr());
            r.check(same(o->getPoints(), l), "inserting a trajectory changes it", "%u", o->getNrOfPoints());
            if (pos <= n) m.insert(m.begin() + pos, l.begin(), l.end());
        }
        else if (k == 4)
        {
            if (n > 4) r.prune();
            unsigned pos = (unsigned)r.choose((int)n + 2, "place");
            r.step("insert the trajectory into itself at %u", pos);
            t->insertTrajectory(pos, t);
            if (pos <= n) m.insert(m.begin() + pos, km.begin(), km.end());
        }
        else if (k == 5)
        {
            unsigned pos = (unsigned)r.choose((int)n + 2, "place");
            r.step("erase %u", pos);
            t->erasePosition(pos);
            if (pos < n) m.erase(m.begin() + pos);
        }
        else if (k == 6)
        {
            unsigned a = (unsigned)r.choose((int)n + 1, "first"), b = (unsigned)r.choose((int)n + 1, "last");
            r.step("remove %u to %u", a, b);
            unsigned c = t->removePositions(a, b), w = 0;
            if (a <= b && b < n)
            {
                w = b - a + 1;
                m.erase(m.begin() + a, m.begin() + b + 1);
            }
            r.check(c == w, "the number of removed points is wrong", "%u, expected %u", c, w);
        }
        else if (k == 7)
        {
            r.step("reverse");
            t->reverse();
            std::reverse(m.begin(), m.end());
        }
        else if (k == 8)
        {
            r.step("reset");
            t->reset();
            m.clear();
        }
        else if (k == 9)
        {
            unsigned pos = (unsigned)r.choose((int)n + 1, "place");
            r.step("write %u", pos);
            if (pos < n)
            {
                t->getPointRef(pos) = point(2);
                m[pos] = point(2);
            }
            else
            {
                bool thrown = false;
                try
                {
                    t->getPointRef(pos);
                }
                catch (std::exception&)
                {
                    thrown = true;
                }
                r.check(thrown, "a point outside the trajectory can be written", "%u", pos);
            }
        }
        else if (k == 10)
        {
            r.step("go on with a copy");
            kept = t;
            t = t->clone();
            r.check(t != kept, "a copy is the original", "%d", op);
        }
        else if (k == 11)
        {
            r.step("change a copy");
            kept = t->clone();
            kept->reverse();
            kept->addPoint(point(1));
            if (n) kept->getPointRef(0) = point(3);
            kept.reset();
        }
        else
        {
            unsigned a = (unsigned)r.choose((int)n + 1, "first"), b = (unsigned)r.choose((int)n + 1, "last");
            r.step("go on with the part %u to %u", a, b);
            TrajectoryPtr s = t->createSubPath(a, b);
            r.check(bool(s) || a > b || b >= n, "a part of a trajectory is not created", "%u..%u of %u", a, b, n);
            r.check(!s || (a < n && b < n), "a part that does not exist is created", "%u..%u of %u", a, b, n);
            if (s)
            {
                kept = t;
                t = s;
                m.clear();
                for (unsigned i = a; i <= b; i++) m.push_back(km[i]);
            }
        }
        compare(r, t, m, true);
        if (kept)
        {
            r.check(same(kept->getPoints(), km), "copying or taking a part changes the original", "%s, before %s", showp(kept->getPoints()).c_str(), showp(km).c_str());
            t->addPoint(point(0));
            m.push_back(point(0));
            r.check(same(kept->getPoints(), km), "a copy shares points with the original", "%s, before %s", showp(kept->getPoints()).c_str(), showp(km).c_str());
        }
    }
    r.outcome(strf("%zu points", m.size()));
}
// poses along a trajectory
static void workspace(mc::Run& r)
{
    static std::vector<Tree> T = trees();
    static std::vector<RobotPtr> R;
    if (R.empty())
        for (auto& t : T)
        {
            RobotPtr x = build(t, t.name);
            std::vector<RobotNodePtr> j;
            for (int i : t.joints()) j.push_back(x->getRobotNode(t.n[i].name));
            RobotNodeSet::createRobotNodeSet(x, "all", j, x->getRobotNode(t.n[0].name), x->getRobotNode(t.n.back().name), true);
            R.push_back(x);
        }
    int w = r.choose((int)T.size(), "robot");
    const Tree& t = T[w];
    r.at("workspace %s", t.name.c_str());
    std::vector<int> J = t.joints();
    auto val = [&](int j, int c) { return c == 0 ? t.n[j].lo : c == 1 ? t.n[j].hi : c == 2 ? 0.3 * t.n[j].lo + 0.7 * t.n[j].hi : t.n[j].hi + 0.3; };
    auto cfg = [&](int c) {
        Eigen::VectorXf v(J.size());
        for (size_t i = 0; i < J.size(); i++) v[i] = (float)val(J[i], (c + (int)i * 3) % 4);
        return v;
    };
    TrajectoryPtr x(new Trajectory(R[w]->getRobotNodeSet("all"), "tra"));
    int n = r.choose(4, "points");
    std::vector<int> pts;
    for (int i = 0; i < n; i++)
    {
        pts.push_back(r.choose(4, "point"));
        x->addPoint(cfg(pts.back()));
    }
    int start = r.choose(3, "start");
    M4 base = r.flip("base") ? mk(100, 50, -20, V3(1, 2, 3), 0.9) : M4::Identity();
    R[w]->setGlobalPose(f(base));
    R[w]->getRobotNodeSet("all")->setJointValues(cfg(start));
    int node = r.choose((int)t.n.size() + 1, "node");
    r.step("workspace trajectory");
    std::vector<Eigen::Matrix4f> got = x->createWorkspaceTrajectory(node < (int)t.n.size() ? R[w]->getRobotNode(t.n[node].name) : RobotNodePtr());
    if (node == (int)t.n.size()) node--;
    r.check((int)got.size() == n, "the number of poses is wrong", "%zu, expected %d", got.size(), n);
    Kin k(t);
    k.base = base;
    for (int i = 0; i <= n; i++)
    {
        Eigen::VectorXf c = cfg(i < n ? pts[i] : start);
        for (size_t j = 0; j < J.size(); j++) k.set(J[j], c[j]);
        Eigen::Matrix4f is = i < n ? got[i] : R[w]->getRobotNode(t.n[node].name)->getGlobalPose();
        r.compared();
        r.check(dev(k.poses()[node], is, 0.05, 1e-4) <= 1, i < n ? "a pose along a trajectory is wrong" : "the robot is not put back", "%d: %s, expected %s", i, show(is).c_str(), show(k.poses()[node]).c_str());
        mc::Hash h;
        hash(h, is);
        r.state(h);
    }
    r.check(x->getNrOfPoints() == (unsigned)n, "the trajectory changes", "%u", x->getNrOfPoints());
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("edits", edits, 3);
    mc::suite("workspace", workspace, 2);
    return mc::main(argc, argv);
}
