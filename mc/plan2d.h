// A planar planning problem with analytic obstacles, and the random sources and the clock of the library under control.
#pragma once
#include "mc.h"
#include "random.h"
#include "simox.h"
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/Random.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <MotionPlanning/CSpace/CSpaceNode.h>
#include <MotionPlanning/CSpace/CSpacePath.h>
#include <MotionPlanning/CSpace/CSpaceSampled.h>
#include <MotionPlanning/CSpace/CSpaceTree.h>
#include <MotionPlanning/CSpace/ConfigurationConstraint.h>
#include <algorithm>
#include <ctime>
using namespace VirtualRobot;
using namespace Saba;
using namespace sx;
using mc::strf;
typedef Eigen::VectorXf VX;

// ---- planning problems
struct Box
{
    double lo[2], hi[2];
};
struct Env
{
    const char* name;
    bool wrap;               // the first dimension is limitless, range -pi..pi
    std::vector<Box> boxes;  // forbidden, open sets
    int constraint;          // this box is a constraint instead of an obstacle, or -1
    std::vector<VX> at;      // A, B valid; C valid; then samples
};
static VX v2(double a, double b)
{
    VX r(2);
    r << (float)a, (float)b;
    return r;
}
static const std::vector<Env>& envs()
{
    static std::vector<Env> e;
    if (e.empty())
    {
        e.push_back({"free", false, {}, -1, vec<VX>({v2(0.5, 0.5), v2(3.5, 0.6), v2(0.5, 3.5), v2(2.0, 2.0), v2(3.2, 3.4)})});
        e.push_back({"wall", false, {{{1.7, -1}, {2.2, 2.9}}}, -1, vec<VX>({v2(0.5, 0.5), v2(3.5, 0.6), v2(0.5, 3.5), v2(2.0, 3.4), v2(1.9, 1.0)})});
        e.push_back({"constraint", false, {{{1.0, 1.2}, {4.5, 1.8}}, {{2.4, -1}, {2.8, 0.7}}}, 0, vec<VX>({v2(0.5, 0.5), v2(3.5, 2.6), v2(3.5, 0.4), v2(0.6, 2.4), v2(2.0, 1.0)})});
        e.push_back({"thin", false, {{{1.95, 0.3}, {2.05, 5}}}, -1, vec<VX>({v2(0.5, 0.8), v2(3.5, 0.9), v2(0.5, 3.5), v2(2.0, 0.1), v2(3.4, 3.5)})});
        e.push_back({"wrap", true, {{{-0.4, -1}, {0.5, 5}}, {{2.9, -1}, {3.4, 1.0}}}, -1, vec<VX>({v2(-1.2, 0.5), v2(1.5, 0.6), v2(-2.6, 3.5), v2(3.0, 2.4), v2(2.4, 0.4)})});
    }
    return e;
}
struct Space : public CSpaceSampled
{
    const Env* env;
    bool real = false;
    std::function<void()> hook;
    Space(const Env* e, RobotPtr r, CDManagerPtr c, RobotNodeSetPtr s, unsigned n) : CSpaceSampled(r, c, s, n), env(e) {}
    static bool in(const Env& e, int b, const VX& c)
    {
        const Box& B = e.boxes[b];
        if (!(c[1] > B.lo[1] && c[1] < B.hi[1])) return false;
        for (int k = e.wrap ? -1 : 0; k <= (e.wrap ? 1 : 0); k++)
            if (c[0] + 2 * PI * k > B.lo[0] && c[0] + 2 * PI * k < B.hi[0]) return true;
        return false;
    }
    static bool ok(const Env& e, const VX& c, int what)   // 0 obstacles, 1 constraints, 2 both
    {
        for (size_t b = 0; b < e.boxes.size(); b++)
            if ((what == 2 || ((int)b == e.constraint) == (what == 1)) && in(e, (int)b, c)) return false;
        return true;
    }
    bool isCollisionFree(const VX& c) override
    {
        if (hook) hook();
        return ok(*env, c, 0);
    }
};
typedef boost::shared_ptr<Space> SpacePtr;
struct BoxConstraint : public ConfigurationConstraint
{
    const Env* e;
    BoxConstraint(const Env* env) : ConfigurationConstraint(2), e(env) {}
    bool isValid(const VX& c) override
    {
        return Space::ok(*e, c, 1);
    }
};
static RobotPtr robot(bool wrap, bool meshes = false)
{
    static std::map<int, RobotPtr> cache;
    RobotPtr& r = cache[wrap + 2 * meshes];
    if (r) return r;
    Tree t;
    t.name = "c";
    double s = meshes ? 20 : 1;
    t.n.push_back(F("base", -1, tr(0, 0, 0)));
    if (wrap) t.n.push_back(R("j0", 0, tr(0, 0, 0), V3(0, 0, 1), -(double)(float)PI, (double)(float)PI, 0, true));
    else t.n.push_back(P("j0", 0, tr(0, 0, 0), V3(1, 0, 0), 0, 4 * s));
    t.n.push_back(P("j1", 1, tr(0, 0, 0), V3(0, 1, 0), 0, 4 * s));
    BuildOpt o;
    o.meshes = meshes;
    r = build(t, "rob", o);
    RobotNodeSet::createRobotNodeSet(r, "all", {r->getRobotNode("j0"), r->getRobotNode("j1")}, r->getRobotNode("base"), r->getRobotNode("j1"), true);
    return r;
}
static const float SS = 0.5f, DCD = 0.12f;
static SpacePtr space(const Env& e, unsigned n = 3000)
{
    RobotPtr r = robot(e.wrap);
    r->setUpdateVisualization(true);
    SpacePtr s(new Space(&e, r, CDManagerPtr(new CDManager(r->getCollisionChecker())), r->getRobotNodeSet("all"), n));
    s->setSamplingSize(SS);
    s->setSamplingSizeDCD(DCD);
    if (e.constraint >= 0) s->addConstraintCheck(ConfigurationConstraintPtr(new BoxConstraint(&e)));
    return s;
}
static double delta0(bool wrap, double a, double b)
{
    double x = b - a;
    if (wrap)
    {
        x = std::fmod(x, 2 * PI);
        if (x > PI) x -= 2 * PI;
        if (x < -PI) x += 2 * PI;
    }
    return x;
}
static double dist(const Env& e, const VX& a, const VX& b)
{
    return std::hypot(delta0(e.wrap, a[0], b[0]), (double)b[1] - a[1]);
}
// intervals [s,t] of the straight way a->b inside the forbidden sets, in arc length
static void inside(const Env& e, const VX& a, const VX& b, double at, std::vector<std::pair<double, double>>& out)
{
    double d[2] = {delta0(e.wrap, a[0], b[0]), (double)b[1] - a[1]};
    double len = std::hypot(d[0], d[1]);
    for (auto& B : e.boxes)
        for (int k = e.wrap ? -2 : 0; k <= (e.wrap ? 2 : 0); k++)
        {
            double lo = 0, hi = 1, p[2] = {a[0] + 2 * PI * k, a[1]};
            for (int i = 0; i < 2; i++)
            {
                if (std::fabs(d[i]) < 1e-12)
                {
                    if (!(p[i] > B.lo[i] && p[i] < B.hi[i])) hi = -1;
                    continue;
                }
                double x = (B.lo[i] - p[i]) / d[i], y = (B.hi[i] - p[i]) / d[i];
                lo = std::max(lo, std::min(x, y));
                hi = std::min(hi, std::max(x, y));
            }
            if (hi > lo) out.push_back({at + lo * len, at + hi * len});
        }
}
static double longestInside(const Env& e, const std::vector<VX>& p)
{
    std::vector<std::pair<double, double>> iv;
    double at = 0;
    for (size_t i = 1; i < p.size(); i++)
    {
        inside(e, p[i - 1], p[i], at, iv);
        at += dist(e, p[i - 1], p[i]);
    }
    std::sort(iv.begin(), iv.end());
    double best = 0, s = 0, t = -1;
    for (auto& x : iv)
    {
        if (x.first > t + 1e-5) s = x.first, t = x.second;
        t = std::max(t, x.second);
        best = std::max(best, t - s);
    }
    return best;
}
static void checkPath(mc::Run& r, const Env& e, CSpacePathPtr path, const VX& start, const VX* goal, const char* when, double dcd = DCD)
{
    std::vector<VX> p;
    for (unsigned i = 0; i < path->getNrOfPoints(); i++) p.push_back(path->getPoint(i));
    r.check(p.size() >= 1, "a solution has no points", "%s", when);
    r.check(dist(e, p[0], start) < 1e-4, "a solution does not begin at the requested start", "%s: %s instead of %s", when, showv(p[0]).c_str(), showv(start).c_str());
    if (goal) r.check(dist(e, p.back(), *goal) < 1e-4, "a solution does not end at the requested goal", "%s: %s instead of %s", when, showv(p.back()).c_str(), showv(*goal).c_str());
    for (auto& c : p)
    {
        bool lim = c[1] >= -1e-4 && c[1] <= 4 + 1e-4 && (e.wrap || (c[0] >= -1e-4 && c[0] <= 4 + 1e-4));
        r.check(lim, "a solution leaves the joint limits", "%s: %s", when, showv(c).c_str());
    }
    double in = longestInside(e, p);
    r.check(in <= dcd * 1.02 + 1e-4, "a solution passes through an obstacle or a violated constraint", "%s: %.4g in one piece, collisions are checked every %.4g", when, in, dcd);
}
