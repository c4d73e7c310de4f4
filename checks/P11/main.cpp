// P11: post-processing keeps the ends of a path, its validity and the path it was given.
#include "../../mc/mc.h"
#include "../../mc/plan2d.h"
#include <VirtualRobot/SceneObjectSet.h>
#include <MotionPlanning/PostProcessing/ElasticBandProcessor.h>
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>

struct Guard
{
    ~Guard()
    {
        g_random = nullptr;
        g_rand = nullptr;
        g_tick = 0;
    }
};
struct Given
{
    int env;
    std::vector<VX> way;
    double spacing;   // points are put in at this distance
};
static const std::vector<Given>& given()
{
    static std::vector<Given> g;
    if (g.empty())
    {
        auto V = [](std::initializer_list<VX> l) { return vec<VX>(l); };
        g.push_back({0, V({v2(.5, .5), v2(1, 3), v2(2, .5), v2(3, 3), v2(3.5, .6)}), 9});
        g.push_back({0, V({v2(.5, .5), v2(3.5, .5), v2(3.5, .5), v2(.5, .5), v2(2, 2)}), 1.2});
        g.push_back({1, V({v2(.5, .5), v2(.5, 3.5), v2(2, 3.4), v2(3.5, 3.5), v2(3.5, .6)}), 1.3});
        g.push_back({1, V({v2(1.5, 1), v2(.2, 2), v2(1, 3.3), v2(2.5, 3.3), v2(2.6, 2), v2(2.4, .2)}), 9});
        g.push_back({2, V({v2(3.5, .4), v2(3, 1), v2(2, 1), v2(.6, .8), v2(.6, 2.4), v2(3.5, 2.6)}), 9});
        g.push_back({2, V({v2(.5, .5), v2(.7, 3.5), v2(3.8, 3.5), v2(1, 2)}), 1.6});
        g.push_back({3, V({v2(.5, 3.5), v2(.5, .1), v2(3.5, .1), v2(3.5, 3.5)}), 1.7});
        g.push_back({3, V({v2(1.8, .5), v2(1.7, .2), v2(2.1, .2), v2(2.3, .5), v2(3, 3)}), 9});
        g.push_back({4, V({v2(-1.2, .5), v2(-2.6, 3.5), v2(3., 2.4), v2(1.5, .6)}), 1.1});
        g.push_back({4, V({v2(2.5, .5), v2(2.7, 1.8), v2(-2.8, 1.9), v2(-2.4, .5), v2(-1, .2)}), 9});
        g.push_back({0, V({v2(.5, .5), v2(3.5, 3.5)}), 9});
        g.push_back({1, V({v2(.5, .5)}), 9});
        g.push_back({1, {}, 9});
    }
    return g;
}
static std::vector<VX> subdivide(const Env& e, const Given& g)
{
    std::vector<VX> p;
    for (size_t i = 0; i < g.way.size(); i++)
    {
        if (i)
        {
            VX a = g.way[i - 1], b = g.way[i];
            double d[2] = {delta0(e.wrap, a[0], b[0]), (double)b[1] - a[1]};
            int n = (int)std::ceil(std::hypot(d[0], d[1]) / g.spacing);
            for (int k = 1; k < n; k++)
            {
                double x = a[0] + d[0] * k / n;
                if (e.wrap && x > PI) x -= 2 * PI;
                if (e.wrap && x < -PI) x += 2 * PI;
                p.push_back(v2(x, a[1] + d[1] * k / n));
            }
        }
        p.push_back(g.way[i]);
    }
    return p;
}
static const double W[2] = {2, 0.5};
static double length(const Env& e, const std::vector<VX>& p, bool w)
{
    double s = 0;
    for (size_t i = 1; i < p.size(); i++)
    {
        double a = delta0(e.wrap, p[i - 1][0], p[i][0]), b = (double)p[i][1] - p[i - 1][1];
        s += w ? std::hypot(W[0] * a, W[1] * b) : std::hypot(a, b);
    }
    return s;
}
static std::vector<VX> points(CSpacePathPtr p)
{
    std::vector<VX> r;
    for (unsigned i = 0; i < p->getNrOfPoints(); i++) r.push_back(p->getPoint(i));
    return r;
}
static std::string shows(const std::vector<VX>& p)
{
    std::string s;
    for (auto& x : p) s += showv(x);
    return s;
}
static void hashPath(mc::Hash& h, const std::vector<VX>& p)
{
    for (auto& x : p) h.f(x[0]).f(x[1]);
}
struct Case
{
    const Given* g;
    const Env* e;
    SpacePtr s;
    std::vector<VX> in;
    CSpacePathPtr path;
    double dcd;
    bool w;
};
static Case make(mc::Run& r, bool weights)
{
    Case c;
    c.g = &r.pick(given(), "given path");
    c.e = &envs()[c.g->env];
    c.w = weights && r.flip("weights");
    c.s = space(*c.e, 10);
    if (c.w)
    {
        VX w = v2(W[0], W[1]);
        c.s->setMetricWeights(w);
    }
    c.dcd = r.flip("dcd") ? 0.05 : 0.2;
    c.s->setSamplingSizeDCD((float)c.dcd);
    c.s->setSamplingSize(c.dcd > 0.1 ? 0.9f : 0.6f);
    c.in = subdivide(*c.e, *c.g);
    for (size_t i = 0; i < c.in.size(); i++) r.check(Space::ok(*c.e, c.in[i], 2), "the check gives an invalid path", "%s", showv(c.in[i]).c_str());
    r.check(longestInside(*c.e, c.in) < 1e-6, "the check gives an invalid path", "%s", shows(c.in).c_str());
    c.path.reset(new CSpacePath(c.s));
    for (auto& x : c.in) c.path->addPoint(x);
    return c;
}
static std::vector<VX> judge(mc::Run& r, const Case& c, CSpacePathPtr res, double before, const char* when)
{
    r.check(bool(res), "no optimised path", "%s", when);
    r.check(res != c.path, "the given path itself is returned", "%s", when);
    std::vector<VX> p = points(res);
    r.check(points(c.path) == c.in, "the given path is modified", "%s: %s instead of %s", when, shows(points(c.path)).c_str(), shows(c.in).c_str());
    if (c.in.empty())
    {
        r.check(p.empty(), "points out of nothing", "%s: %s", when, shows(p).c_str());
        return p;
    }
    r.check(!p.empty() && p[0] == c.in[0] && p.back() == c.in.back(), "an optimised path has other ends", "%s: %s for %s", when, shows(p).c_str(), shows(c.in).c_str());
    double len = length(*c.e, p, c.w);
    r.check(len <= before + 1e-4, "an optimised path is longer", "%s: %.6g after %.6g: %s", when, len, before, shows(p).c_str());
    // a connection is looked at every dcd; two connections may meet at a point that was not looked at
    double lim = c.dcd / (c.w ? W[1] : 1);
    double in = longestInside(*c.e, p);
    r.check(in <= 2 * lim * 1.02 + 1e-4, "an optimised path passes through an obstacle or a violated constraint", "%s: %.4g in one piece, looked at every %.4g: %s", when, in, lim, shows(p).c_str());
    // a straight way between two corners was looked at as a whole
    std::vector<VX> run;
    for (size_t i = 0; i < p.size(); i++)
    {
        if (run.size() >= 2)
        {
            // still on the line?
            const VX &a = run[0], &b = run.back();
            double u = delta0(c.e->wrap, a[0], b[0]), v = (double)b[1] - a[1], x = delta0(c.e->wrap, b[0], p[i][0]), y = (double)p[i][1] - b[1];
            if (std::fabs(u * y - v * x) > 1e-4 * std::hypot(u, v) || u * x + v * y < 0) {
                VX last = b;
                run.clear();
                run.push_back(last);
            }
        }
        run.push_back(p[i]);
        double one = longestInside(*c.e, run);
        r.check(one <= lim * 1.02 + 1e-3, "a straight part of an optimised path passes through an obstacle or a violated constraint", "%s: %.4g in one piece, looked at every %.4g: %s", when, one, lim, shows(p).c_str());
    }
    for (auto& x : p)
        if (!c.e->wrap) r.check(x[0] >= -1e-4 && x[0] <= 4 + 1e-4 && x[1] >= -1e-4 && x[1] <= 4 + 1e-4, "an optimised path leaves the joint limits", "%s: %s", when, showv(x).c_str());
    return p;
}

static void shortcuts(mc::Run& r)
{
    Guard g;
    Case c = make(r, true);
    int loops = r.thorough ? 4 : 3;
    int maxDist = r.choose(2, "distance") ? 3 : 30;
    ShortcutProcessor sp(c.path, c.s);
    // numbers are reduced modulo the number of candidates
    bool first = true;
    int start = 0;
    g_rand = [&] {
        CSpacePathPtr o = sp.getOptimizedPath();
        int n = o ? (int)o->getNrOfPoints() : (int)c.in.size();
        int k;
        if (first)
        {
            k = start = r.choose(std::max(1, n - 2), "start");
        }
        else k = r.choose(std::max(1, std::min(n - 2 - start, maxDist)), "distance to the end");
        first = !first;
        return k;
    };
    double before = length(*c.e, c.in, c.w);
    r.at("shortcuts");
    CSpacePathPtr res = sp.shortenSolutionRandom(loops, maxDist);
    g_rand = nullptr;
    r.step("%d shortcuts of %s", loops, shows(c.in).c_str());
    r.compared();
    std::vector<VX> p = judge(r, c, res, before, "shortcuts");
    r.check(res == sp.getOptimizedPath(), "another path is kept than returned", "shortcuts");
    mc::Hash h;
    hashPath(h, p);
    r.state(h);
    r.outcome(p == c.in ? "unchanged" : p.size() < c.in.size() ? "fewer points" : "other points");
}
// one attempt at a time through the public steps
static void single(mc::Run& r)
{
    Guard g;
    Case c = make(r, false);
    if (c.in.size() < 2) r.prune();
    ShortcutProcessor sp(c.path, c.s);
    int n = (int)c.in.size();
    int a = r.choose(n, "start"), b = r.choose(n, "end");
    if (a >= b) r.prune();
    r.at("one shortcut");
    bool ok = sp.validShortcut(a, b);
    std::vector<std::pair<double, double>> iv;
    double d = dist(*c.e, c.in[a], c.in[b]);
    std::vector<VX> part(c.in.begin() + a, c.in.begin() + b + 1);
    double in = longestInside(*c.e, vec<VX>({c.in[a], c.in[b]}));
    double len = length(*c.e, part, false);
    r.step("shortcut %d-%d of %s: %d", a, b, shows(c.in).c_str(), (int)ok);
    r.compared();
    if (ok) r.check(in <= c.dcd * 1.02 + 1e-4, "a shortcut through an obstacle or a violated constraint is called valid", "%s to %s: %.4g in one piece", showv(c.in[a]).c_str(), showv(c.in[b]).c_str(), in);
    if (ok) r.check(d <= len + 1e-4, "a shortcut that is longer is called valid", "%g for %g", d, len);
    if (!ok && len > 1e-3) r.check(in > 0 || d > len * 0.98, "a free and much shorter way is not taken", "%s to %s: %g for %g", showv(c.in[a]).c_str(), showv(c.in[b]).c_str(), d, len);
    if (!ok) return;
    sp.doShortcut(a, b);
    std::vector<VX> p = judge(r, c, sp.getOptimizedPath(), length(*c.e, c.in, false), "one shortcut");
    // the rest is untouched, the way between is straight
    int tail = n - 1 - b;
    bool same = (int)p.size() >= a + 1 + 1 + tail;
    for (int i = 0; same && i <= a; i++) same = p[i] == c.in[i];
    for (int i = 0; same && i <= tail; i++) same = p[p.size() - 1 - i] == c.in[n - 1 - i];
    r.check(same, "a shortcut changes the rest of the path", "%s for %s", shows(p).c_str(), shows(c.in).c_str());
    std::vector<VX> mid(p.begin() + a, p.end() - tail);
    r.check(std::fabs(length(*c.e, mid, false) - d) < 1e-3, "a shortcut is not straight", "%s", shows(mid).c_str());
    mc::Hash h;
    hashPath(h, p);
    r.state(h);
}
// a stop request while the path is being optimised
static void stops(mc::Run& r)
{
    Guard g;
    Case c = make(r, false);
    ShortcutProcessor sp(c.path, c.s);
    int at = r.choose(6, "stop at check");
    int kind = r.choose(3, "numbers");
    int k = 0, n = 0, after = 0;
    bool stopped = false;
    c.s->hook = [&] {
        if (n++ == at * 7) stopped = true, sp.stopExecution();
    };
    g_rand = [&] {
        if (stopped) after++;
        k++;
        return kind == 0 ? k * 7 : kind == 1 ? k * 3 + 1 : k;
    };
    double before = length(*c.e, c.in, false);
    r.at("stopped shortcuts");
    CSpacePathPtr res = sp.optimize(40);
    g_rand = nullptr;
    c.s->hook = nullptr;
    r.step("shortcuts of %s stopped after %d numbers", shows(c.in).c_str(), k);
    r.compared();
    r.check(after == 0, "optimising goes on after a stop request", "%d numbers drawn", after);
    std::vector<VX> p = judge(r, c, res, before, "stopped");
    mc::Hash h;
    hashPath(h, p);
    r.state(h);
}
static void pruning(mc::Run& r)
{
    Guard g;
    Case c = make(r, true);
    // drop some of the inner points of long paths
    ShortcutProcessor sp(c.path, c.s);
    bool first = r.flip("shortcuts first");
    if (first)
    {
        int k = r.choose(4, "numbers");
        int i = 0;
        g_rand = [&] { return (i++) * (k + 1) + k; };
        sp.shortenSolutionRandom(4);
        g_rand = nullptr;
    }
    r.at("pruning");
    sp.doPathPruning();
    r.step("pruning %s", shows(c.in).c_str());
    r.compared();
    std::vector<VX> p = judge(r, c, sp.getOptimizedPath(), length(*c.e, c.in, c.w), "pruning");
    if (c.in.empty()) return;
    size_t j = 0;
    for (auto& x : p)
    {
        while (j < c.in.size() && c.in[j] != x) j++;
        r.check(j < c.in.size(), "pruning invents a point", "%s for %s", shows(p).c_str(), shows(c.in).c_str());
        j++;
    }
    for (size_t i = 0; i + 2 < p.size(); i++)
    {
        std::vector<std::pair<double, double>> iv;
        double in = longestInside(*c.e, vec<VX>({p[i], p[i + 2]}));
        r.check(in > 0, "pruning leaves a point that is not needed", "%s in %s", showv(p[i + 1]).c_str(), shows(p).c_str());
    }
    mc::Hash h;
    hashPath(h, p);
    r.state(h);
    r.outcome(strf("pruned %zu to %zu points", c.in.size(), p.size()));
}

// ---- elastic band
static void band(mc::Run& r)
{
    Guard g;
    RobotPtr rob = robot(false, true);
    bool vis = r.flip("visualisation");
    rob->setUpdateVisualization(vis);
    static ObstaclePtr o;
    if (!o) o.reset(new Obstacle("wall", visu(boxPts(8, 10, 30)), colmodel(boxPts(8, 10, 30), "wall")));
    static const double OX[4] = {40, 40, 70, 1000};
    int k = r.choose(4, "obstacle");
    o->setGlobalPose(f(tr(OX[k], k == 1 ? 15 : 30, 0)));
    SceneObjectSetPtr set(new SceneObjectSet("obstacles", rob->getCollisionChecker()));
    if (k != 3 || r.flip("far obstacle")) set->addSceneObject(o);
    CSpaceSampledPtr s(new CSpaceSampled(rob, CDManagerPtr(new CDManager(rob->getCollisionChecker())), rob->getRobotNodeSet("all"), 10));
    s->setSamplingSize(10);
    s->setSamplingSizeDCD(5);
    static const int N[5] = {0, 1, 2, 3, 6};
    int n = N[r.choose(5, "points")];
    int shape = r.choose(3, "shape");
    std::vector<VX> in;
    for (int i = 0; i < n; i++) in.push_back(v2(10 + 12 * i, 10 + (shape == 0 ? 0 : shape == 1 ? (i % 2) * 30 : i * 2)));
    if (shape == 2 && n > 3) in[2] = in[1];
    CSpacePathPtr path(new CSpacePath(s));
    for (auto& x : in) path->addPoint(x);
    ElasticBandProcessor eb(path, s, rob->getRobotNode("j1"), set);
    if (r.flip("weights")) eb.setWeights(v2(1, 0));
    int steps = r.choose(5, "steps");
    r.at("elastic band over %d points", n);
    CSpacePathPtr res = eb.optimize(steps);
    r.step("elastic band of %s, %d steps", shows(in).c_str(), steps);
    r.compared();
    r.check(bool(res) && res != path, "no optimised path", "elastic band");
    std::vector<VX> p = points(res);
    r.check(points(path) == in, "the given path is modified", "elastic band");
    r.check(p.size() <= in.size(), "the elastic band adds points", "%zu for %zu", p.size(), in.size());
    if (n) r.check(p[0] == in[0] && p.back() == in.back(), "an optimised path has other ends", "elastic band: %s for %s", shows(p).c_str(), shows(in).c_str());
    if (n) r.check(p.size() >= 2 || n < 2, "the elastic band loses an end", "%zu", p.size());
    for (auto& x : p) r.check(std::isfinite(x[0]) && std::isfinite(x[1]), "an optimised path has undefined points", "elastic band: %s", shows(p).c_str());
    if (steps == 0) r.check(p == in, "no step changes the path", "%s", shows(p).c_str());
    r.check(rob->getUpdateVisualizationStatus() == vis, "optimising changes the visualisation setting of the robot", "%d", (int)vis);
    rob->setUpdateVisualization(true);
    mc::Hash h;
    hashPath(h, p);
    r.state(h);
    r.outcome(strf("band of %d points, %zu left", n, p.size()));
}

int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("shortcuts", shortcuts, 4);
    mc::suite("single", single, 2);
    mc::suite("stops", stops, 2);
    mc::suite("pruning", pruning, 2);
    mc::suite("band", band, 3);
    return mc::main(argc, argv);
}
