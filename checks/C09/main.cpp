// C09: metric, interpolation, sampled connections, paths and search trees of the configuration space.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/Random.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <MotionPlanning/CSpace/CSpaceNode.h>
#include <MotionPlanning/CSpace/CSpacePath.h>
#include <MotionPlanning/CSpace/CSpaceSampled.h>
#include <MotionPlanning/CSpace/CSpaceTree.h>
#include <MotionPlanning/CSpace/Sampler.h>
#include <fstream>
#include <sstream>
using namespace VirtualRobot;
using namespace Saba;
using namespace sx;
using mc::strf;
typedef Eigen::VectorXf VX;
typedef std::vector<double> Q;

// ---- the random source of the library is ours
static uint64_t g_word = 0;
static uint64_t untemper(uint64_t z)
{
    z ^= z >> 43;
    uint64_t y = z;
    y = z ^ ((y << 37) & 0xfff7eee000000000ull);
    z = y;
    for (int i = 0; i < 4; i++) y = z ^ ((y << 17) & 0x71d67fffeda60000ull);
    z = y;
    for (int i = 0; i < 3; i++) y = z ^ ((y >> 29) & 0x5555555555555555ull);
    return y;
}
namespace VirtualRobot
{
    std::mt19937_64& PRNG64Bit()
    {
        static std::mt19937_64 g;
        struct Raw
        {
            uint64_t x[312];
            size_t p;
        };
        static_assert(sizeof(Raw) == sizeof(std::mt19937_64), "layout");
        Raw* r = reinterpret_cast<Raw*>(&g);
        r->x[0] = untemper(g_word);
        r->p = 0;
        return g;
    }
}

// ---- spaces
struct Kind
{
    char k;
    float lo, hi;
    std::vector<float> v;
};
static const float FPI = 3.14159265f;
static const std::vector<Kind> K = {
    {'R', -2.f, 1.5f, {-2.f, -0.7f, 0.f, 0.4f, 1.5f}},
    {'P', -0.7f, 3.1f, {-0.7f, -0.3f, 0.f, 1.9f, 3.1f}},
    {'C', -FPI, FPI, {-3.1f, -1.6f, 0.f, 1.55f, 3.0f}},
    {'D', 0, 2 * FPI, {0.f, 0.1f, 2.0f, 3.2f, 6.2f}},
    {'S', -3.5f, 3.5f, {-3.5f, -1.f, 0.2f, 2.8f, 3.5f}},   // more than a turn, but with limits
};
struct Space : public CSpaceSampled
{
    std::function<bool(const VX&)> valid;
    long asked = 0;
    Space(RobotPtr r, CDManagerPtr c, RobotNodeSetPtr s, unsigned n) : CSpaceSampled(r, c, s, n) {}
    bool isCollisionFree(const VX& c) override
    {
        asked++;
        return !valid || valid(c);
    }
    void gen(const VX& to, const VX& from, VX& out, float step)
    {
        generateNewConfig(to, from, out, step);
    }
};
typedef boost::shared_ptr<Space> SpacePtr;
static RobotPtr robot(const std::vector<int>& d)
{
    static std::map<std::vector<int>, RobotPtr> cache;
    RobotPtr& r = cache[d];
    if (r) return r;
    Tree t;
    t.name = "c";
    t.n.push_back(F("base", -1, tr(0, 0, 0)));
    for (size_t i = 0; i < d.size(); i++)
    {
        const Kind& k = K[d[i]];
        std::string nm = strf("j%zu", i);
        if (k.k == 'P') t.n.push_back(P(nm.c_str(), (int)i, tr(0, 0, 10), V3(1, 0, 0), k.lo, k.hi));
        else t.n.push_back(R(nm.c_str(), (int)i, tr(10, 0, 0), V3(0, 0, 1), k.lo, k.hi, 0, k.k == 'C' || k.k == 'D'));
    }
    r = build(t, "rob");
    std::vector<RobotNodePtr> n;
    for (size_t i = 0; i < d.size(); i++) n.push_back(r->getRobotNode(strf("j%zu", i)));
    RobotNodeSet::createRobotNodeSet(r, "all", n, r->getRobotNode("base"), n.back(), true);
    return r;
}
static SpacePtr space(const std::vector<int>& d, unsigned n = 64)
{
    RobotPtr r = robot(d);
    return SpacePtr(new Space(r, CDManagerPtr(new CDManager(r->getCollisionChecker())), r->getRobotNodeSet("all"), n));
}
static const std::vector<std::vector<int>> DIMS = {{0}, {1}, {2}, {3}, {4}, {0, 1}, {0, 2}, {2, 0}, {1, 3}, {2, 3}, {3, 2}, {4, 2}, {2, 2}, {1, 2, 0}, {3, 4, 1}, {0, 1, 2}};
static const float WGT[3] = {2.f, 0.5f, 3.f};

// reference
struct Metric
{
    std::vector<int> d;
    bool weights = false, border = true;
    bool round(int i) const
    {
        return border && (K[d[i]].k == 'C' || K[d[i]].k == 'D');
    }
    double delta(const VX& a, const VX& b, int i) const
    {
        double x = (double)b[i] - (double)a[i];
        if (round(i))
        {
            x = std::fmod(x, 2 * PI);
            if (x > PI) x -= 2 * PI;
            if (x < -PI) x += 2 * PI;
        }
        return x;
    }
    double dist(const VX& a, const VX& b, bool w = true) const
    {
        double s = 0;
        for (size_t i = 0; i < d.size(); i++)
        {
            double x = delta(a, b, i) * (w && weights ? WGT[i] : 1);
            s += x * x;
        }
        return std::sqrt(s);
    }
    bool ambiguous(const VX& a, const VX& b) const
    {
        for (size_t i = 0; i < d.size(); i++)
            if (round(i) && std::fabs(std::fabs(delta(a, b, i)) - PI) < 2e-5) return true;
        return false;
    }
    // distance of c from the point at fraction t of the way from a to b (largest over the dimensions, angles modulo a turn)
    double off(const VX& a, const VX& b, double t, const VX& c) const
    {
        double m = 0;
        for (size_t i = 0; i < d.size(); i++)
        {
            double x = (double)c[i] - ((double)a[i] + t * delta(a, b, i));
            if (round(i))
            {
                x = std::fmod(x, 2 * PI);
                if (x > PI) x -= 2 * PI;
                if (x < -PI) x += 2 * PI;
            }
            m = std::max(m, std::fabs(x));
        }
        return m;
    }
};
static void configure(Space& s, Metric& m, int w, int b)
{
    VX W(s.getDimension());
    for (int i = 0; i < W.rows(); i++) W[i] = WGT[i];
    if (w) s.setMetricWeights(W);
    if (w >= 2) s.enableWeights(false);
    if (w == 3) s.enableWeights(true);
    if (b == 1) s.checkForBorderlessDimensions(false);
    if (b == 2)
    {
        s.checkForBorderlessDimensions(false);
        s.checkForBorderlessDimensions(true);
    }
    m.weights = w == 1 || w == 3;
    m.border = b != 1;
}
static VX conf(const std::vector<int>& d, int code)
{
    VX c(d.size());
    for (size_t i = 0; i < d.size(); i++, code /= 5) c[i] = K[d[i]].v[code % 5];
    return c;
}
static int ncodes(const std::vector<int>& d)
{
    return d.size() == 1 ? 5 : d.size() == 2 ? 25 : 125;
}

// ---- metric and interpolation
static void metric(mc::Run& r)
{
    int di = r.choose((int)DIMS.size(), "space");
    int wt = r.choose(4, "weights"), bo = r.choose(3, "borders");
    const auto& d = DIMS[di];
    int c1 = r.choose(ncodes(d), "from");
    SpacePtr s = space(d, 4);
    Metric m;
    m.d = d;
    configure(*s, m, wt, bo);
    VX a = conf(d, c1);
    int n = ncodes(d);
    r.state(mc::Hash().i(di).i(wt).i(bo).i(c1));
    for (int c2 = 0; c2 < n; c2++)
    {
        VX b = conf(d, c2);
        std::string in = strf("space %d, weights %d, borders %d: %s to %s", di, wt, bo, showv(a).c_str(), showv(b).c_str());
        r.at("%s", in.c_str());
        double D = m.dist(a, b);
        float g = s->calcDist(a, b);
        r.compared();
        r.check(std::fabs(g - D) < 1e-5 * (1 + D), "calcDist is wrong", "%s: %.7g, expected %.7g", in.c_str(), g, D);
        r.check(std::fabs(s->calcDist(b, a) - g) < 1e-6 * (1 + D), "calcDist is not symmetric", "%s: %.7g and %.7g", in.c_str(), g, s->calcDist(b, a));
        r.check(std::fabs(s->calcDist2(a, b) - D * D) < 2e-5 * (1 + D * D), "calcDist2 is wrong", "%s: %.7g, expected %.7g", in.c_str(), s->calcDist2(a, b), D * D);
        double D0 = m.dist(a, b, false);
        r.check(std::fabs(s->calcDist(a, b, true) - D0) < 1e-5 * (1 + D0), "unweighted distance is wrong", "%s: %.7g, expected %.7g", in.c_str(), s->calcDist(a, b, true), D0);
        r.check((g == 0) == (c1 == c2), "distance is zero for different or positive for equal configurations", "%s: %.7g", in.c_str(), g);
        for (double t : {0., 0.1, 0.25, 0.5, 0.6, 0.9, 1.})
        {
            VX x = s->interpolate(a, b, (float)t);
            double e = m.off(a, b, t, x);
            if (m.ambiguous(a, b)) e = std::min(e, m.off(b, a, 1 - t, x));
            r.check(e < 2e-5, "interpolation leaves the short way", "%s at %g: %s is off by %.4g", in.c_str(), t, showv(x).c_str(), e);
            for (size_t i = 0; i < d.size(); i++)
            {
                r.check(std::fabs(s->interpolate(a, b, (int)i, (float)t) - x[i]) < 1e-6, "interpolation of one dimension differs", "%s at %g, dimension %zu", in.c_str(), t, i);
                if (m.round(i)) r.check(x[i] > K[d[i]].lo - 1e-5 && x[i] < K[d[i]].hi + 1e-5, "interpolation leaves the range of a limitless joint", "%s at %g: %s", in.c_str(), t, showv(x).c_str());
            }
        }
        // a step of a given length towards a configuration
        for (float st : {0.05f, 0.7f, 100.f})
        {
            VX x(d.size());
            s->gen(b, a, x, st);
            double t = D <= st ? 1 : st / D;
            if (m.ambiguous(a, b)) continue;
            r.check(m.off(a, b, t, x) < 3e-5, "a step towards a configuration is wrong", "%s, length %g: %s", in.c_str(), st, showv(x).c_str());
        }
        // connection without checks
        for (float sz : {0.3f, 1.1f})
        {
            s->setSamplingSize(sz);
            CSpacePathPtr p = s->createPath(a, b);
            unsigned k = p->getNrOfPoints();
            r.check(k >= 1 && p->getPoint(0) == a && (p->getPoint(k - 1) - b).norm() < 1e-6f, "a created path does not join its ends", "%s: %u points", in.c_str(), k);
            if (c1 == c2) continue;
            double len = 0;
            for (unsigned i = 0; i + 1 < k; i++)
            {
                double x = m.dist(p->getPoint(i), p->getPoint(i + 1));
                len += x;
                r.check(x <= sz * 1.06, "points of a created path are further apart than the sampling size", "%s, sampling %g: %.6g between point %u and the next", in.c_str(), sz, x, i);
                if (!m.ambiguous(a, b)) r.check(m.off(a, b, len / D, p->getPoint(i + 1)) < 1e-4, "a created path leaves the short way", "%s, sampling %g: point %u is %s", in.c_str(), sz, i + 1, showv(p->getPoint(i + 1)).c_str());
            }
            r.check(std::fabs(len - D) < 1e-3, "a created path is longer than the distance", "%s, sampling %g: %.6g, distance %.6g", in.c_str(), sz, len, D);
            r.check(k < D / sz + 3.5, "a created path has needless points", "%s, sampling %g: %u points", in.c_str(), sz, k);
        }
    }
}

// ---- connections with an invalid stretch
static void connect(mc::Run& r)
{
    static const std::vector<std::vector<int>> D2 = {{0}, {2}, {3}, {1, 2}, {0, 1}};
    int di = r.choose((int)D2.size(), "space");
    int wt = r.choose(2, "weights");
    const auto& d = D2[di];
    int sz = r.choose(3, "sizes");
    int c1 = r.choose(d.size() == 1 ? 5 : 6, "from"), c2 = r.choose(d.size() == 1 ? 5 : 6, "to");
    static const int CODE[6] = {0, 4, 7, 13, 20, 24};
    VX a = conf(d, d.size() == 1 ? c1 : CODE[c1]), b = conf(d, d.size() == 1 ? c2 : CODE[c2]);
    if (c1 == c2) r.prune();
    // which stretch [t0, t1] of the connection is invalid
    int from = r.choose(13, "invalid from"), to = r.choose(13, "invalid to");
    if (to < from) r.prune();
    bool none = from == 12 && to == 12;
    double t0 = from / 12. + 0.003, t1 = to / 12. + 0.03;
    SpacePtr s = space(d, 4);
    Metric m;
    m.d = d;
    configure(*s, m, wt, 0);
    if (m.ambiguous(a, b)) r.prune();
    float path = sz == 0 ? 0.1f : sz == 1 ? 0.5f : 0.31f, dcd = sz == 0 ? 0.1f : sz == 1 ? 0.07f : 0.6f;
    s->setSamplingSize(path);
    s->setSamplingSizeDCD(dcd);
    double D = m.dist(a, b);
    bool ends = from == 0; // the start itself is never asked
    // position of a configuration on the connection, by the dimension that moves most
    int big = 0;
    for (size_t i = 0; i < d.size(); i++)
        if (std::fabs(m.delta(a, b, i)) > std::fabs(m.delta(a, b, big))) big = (int)i;
    auto where = [&](const VX& c) {
        return m.delta(a, c, big) / m.delta(a, b, big);
    };
    auto where2 = [&](const VX& c) { // for angles: the nearest of the equivalent positions
        double t = where(c), turn = 2 * PI / std::fabs(m.delta(a, b, big));
        if (!m.round(big)) return t;
        double best = t;
        for (int k = -1; k <= 1; k++)
            if (std::fabs(t + k * turn - 0.5) < std::fabs(best - 0.5)) best = t + k * turn;
        return best;
    };
    double stray = 0;
    s->valid = [&](const VX& c) {
        double t = where2(c);
        stray = std::max(stray, m.off(a, b, t, c));
        if (t < -1e-4 || t > 1 + 1e-4) stray = std::max(stray, 1.);
        return none || t < t0 || t > t1;
    };
    double chord = none ? 0 : (std::min(t1, 1.) - t0) * D;
    bool goalBad = !none && t1 > 1 && t0 < 1;
    std::string in = strf("space %d%s: %s to %s (%.5g), path %g, checks %g, invalid %s", di, wt ? " weighted" : "", showv(a).c_str(), showv(b).c_str(), D, path, dcd, none ? "nowhere" : strf("%.4g to %.4g", t0, t1).c_str());
    r.at("%s", in.c_str());
    r.state(mc::Hash().i(di).i(wt).i(sz).i(c1).i(c2).i(from).i(to));
    r.step("isPathValid");
    bool v = s->isPathValid(a, b);
    r.compared();
    r.check(stray < 1e-4, "a configuration off the connection was checked", "%s", in.c_str());
    if (none) r.check(v, "a valid connection is refused", "%s", in.c_str());
    if (!none && (chord > dcd * 1.01 || goalBad)) r.check(!v, "an invalid connection is accepted", "%s", in.c_str());
    r.check(s->asked >= (v ? std::floor(D / dcd) : 1), "a connection was accepted with too few checks", "%s: %ld checks", in.c_str(), s->asked);
    float len = -1;
    CSpacePathPtr p = s->createPathUntilInvalid(a, b, len);
    r.check(stray < 1e-4, "a configuration off the connection was checked", "%s", in.c_str());
    unsigned n = p->getNrOfPoints();
    r.check(n >= 1 && p->getPoint(0) == a, "a path until the first invalid configuration does not begin at its start", "%s", in.c_str());
    bool whole = n > 1 && p->getPoint(n - 1) == b;
    r.check(whole == (len == 1.f), "the reported length disagrees with the path", "%s: length %.6g, last point %s", in.c_str(), len, showv(p->getPoint(n - 1)).c_str());
    if (none) r.check(whole, "a valid connection is cut short", "%s: length %.6g", in.c_str(), len);
    if (!none && (chord > dcd * 1.01 || goalBad)) r.check(!whole, "a path leads through an invalid stretch", "%s", in.c_str());
    double last = 0;
    for (unsigned i = 1; i < n; i++)
    {
        double t = where2(p->getPoint(i));
        r.check(m.off(a, b, t, p->getPoint(i)) < 1e-4, "a path until the first invalid configuration leaves the connection", "%s: point %u is %s", in.c_str(), i, showv(p->getPoint(i)).c_str());
        r.check(t > last - 1e-5, "a path until the first invalid configuration goes back", "%s: point %u", in.c_str(), i);
        r.check((t - last) * D < path + dcd + 1e-3, "points of a path until the first invalid configuration are too far apart", "%s: point %u after %.5g", in.c_str(), i, (t - last) * D);
        if (!none && chord > dcd * 1.01) r.check(t < t0 + 1e-5, "a path leads through an invalid stretch", "%s: point %u at %.5g", in.c_str(), i, t);
        r.check(none || i == n || t < t0 + 1e-5 || t > t1 - 1e-5, "a point of a path until the first invalid configuration is invalid", "%s: point %u at %.5g", in.c_str(), i, t);
        last = t;
    }
    r.check(len >= 0 && len <= 1, "the reported length is no fraction", "%s: %.6g", in.c_str(), len);
    r.check(std::fabs(len - last) * D < std::max(path, dcd) + 1e-3, "the reported length disagrees with the path", "%s: length %.6g, the path ends at %.6g", in.c_str(), len, last);
    r.outcome(strf("%s %s", v ? "valid" : "refused", whole ? "whole" : n > 1 ? "part" : "nothing"));
    (void)ends;
    s->requestStop();
    r.check(!s->isPathValid(a, b), "a path check goes on after a stop request", "%s", in.c_str());
}

// ---- bounds, samples, clones
struct Uni : public Sampler
{
    Uni(unsigned d) : Sampler(d) {}
    void sample(VX& c, CSpacePtr s) override
    {
        getUniformlyRandomConfig(c, s);
    }
    void enableMetricWeights(const VX&) override {}
    void disableMetricWeights() override {}
};
static void bounds(mc::Run& r)
{
    int di = r.choose((int)DIMS.size(), "space");
    const auto& d = DIMS[di];
    int mode = r.choose(4, "limits");
    SpacePtr s = space(d, 4);
    int n = (int)d.size();
    VX lo(n), hi(n);
    for (int i = 0; i < n; i++)
    {
        lo[i] = K[d[i]].lo;
        hi[i] = K[d[i]].hi;
    }
    static const float LIM[6][2] = {{-0.1f, 0.7f}, {-1.7f, 1.9f}, {0.3f, 0.9f}, {-0.33f, -0.21f}, {1e-3f, 1.7f}, {-2.9f, 0.f}};
    if (mode == 1 || mode == 2)
    {
        for (int i = 0; i < n; i++)
        {
            lo[i] = LIM[(di + i) % 6][0];
            hi[i] = LIM[(di + i) % 6][1];
        }
        if (mode == 1) s->setBoundaries(lo, hi);
        else
            for (int i = 0; i < n; i++) s->setBoundary(i, hi[i], lo[i]); // either order
    }
    if (mode == 3)
    {
        lo[n - 1] = -0.27f;
        s->setBoundary(n - 1, lo[n - 1], hi[n - 1]);
    }
    std::string in = strf("space %d, limits %d", di, mode);
    r.at("%s", in.c_str());
    r.state(mc::Hash().i(di).i(mode));
    r.compared();
    for (int i = 0; i < n; i++)
    {
        r.check(s->getBoundaryMin(i) == lo[i] && s->getBoundaryMax(i) == hi[i] && std::fabs(s->getBoundaryDist(i) - (hi[i] - lo[i])) < 1e-6, "limits are not the ones that were set", "%s, dimension %d: %.7g..%.7g", in.c_str(), i, s->getBoundaryMin(i), s->getBoundaryMax(i));
        r.check(s->isBorderlessDimension(i) == (K[d[i]].k == 'C' || K[d[i]].k == 'D'), "a dimension has borders or not", "%s, dimension %d", in.c_str(), i);
    }
    // every position relative to the limits in every dimension
    int N = 1;
    for (int i = 0; i < n; i++) N *= 5;
    for (int c = 0; c < N; c++)
    {
        VX q(n), want(n);
        bool inside = true;
        for (int i = 0, x = c; i < n; i++, x /= 5)
        {
            float v[5] = {lo[i], hi[i], 0.5f * (lo[i] + hi[i]), std::nextafter(lo[i], -100.f), hi[i] + 1.f};
            q[i] = v[x % 5];
            want[i] = q[i] < lo[i] ? lo[i] : q[i] > hi[i] ? hi[i] : q[i];
            inside = inside && x % 5 < 3;
        }
        r.check(s->isInBoundary(q) == inside, "isInBoundary is wrong", "%s: %s", in.c_str(), showv(q).c_str());
        r.check(s->isConfigValid(q) == inside && s->isConfigValid(q, false), "isConfigValid is wrong", "%s: %s", in.c_str(), showv(q).c_str());
        VX w = q;
        s->respectBoundaries(w);
        r.check(w == want, "respectBoundaries is wrong", "%s: %s becomes %s", in.c_str(), showv(q).c_str(), showv(w).c_str());
    }
    // every corner of the random source
    static const uint64_t W[] = {0, ~0ull, 1ull << 63, ~0ull - (1ull << 39), 1ull << 38, 0x123456789abcdef0ull};
    for (uint64_t w : W)
    {
        g_word = w;
        double u = (double)w / 18446744073709551616.0;
        VX q(n);
        s->setRandomSampler(SamplerPtr());
        s->getRandomConfig(q);
        for (int i = 0; i < n; i++) r.check(std::fabs(q[i] - (lo[i] + u * (hi[i] - lo[i]))) < 1e-5, "a random configuration is not uniform", "%s: %s for %.6g", in.c_str(), showv(q).c_str(), u);
        r.check(s->isInBoundary(q), "a random configuration is outside the limits", "%s: %s for %.9g", in.c_str(), showv(q).c_str(), u);
        for (int i = 0; i < n; i++)
        {
            float x = s->getRandomConfig_UniformSampling(i);
            r.check(x >= lo[i] && x <= hi[i], "a random value is outside the limits", "%s: %.9g for %.9g", in.c_str(), x, u);
        }
        s->setRandomSampler(SamplerPtr(new Uni(n)));
        VX q2 = VX::Constant(n, 77.f);
        s->getRandomConfig(q2);
        r.check(q2 == q, "a sampler draws another configuration", "%s: %s and %s", in.c_str(), showv(q2).c_str(), showv(q).c_str());
    }
    // clones
    RobotPtr rob2 = robot(d)->clone("rob2");
    CDManagerPtr cdm2(new CDManager(rob2->getCollisionChecker()));
    Metric m;
    m.d = d;
    int wt = r.choose(4, "weights"), bo = r.choose(2, "borders");
    configure(*s, m, wt, bo);
    s->setSamplingSize(0.37f);
    s->setSamplingSizeDCD(0.21f);
    CSpacePtr cl = s->clone(rob2->getCollisionChecker(), rob2, cdm2, 0);
    r.check(bool(cl), "clone gives nothing", "%s", in.c_str());
    CSpaceSampledPtr cs = boost::dynamic_pointer_cast<CSpaceSampled>(cl);
    r.check(cs && cs->getSamplingSize() == 0.37f && cs->getSamplingSizeDCD() == 0.21f, "a clone has other sampling sizes", "%s", in.c_str());
    r.check(cl->getRobot() == rob2 && cl->getRobotNodeSet() && cl->getRobotNodeSet()->getRobot() == rob2, "a clone does not work on the new robot", "%s", in.c_str());
    for (int i = 0; i < n; i++) r.check(cl->getBoundaryMin(i) == lo[i] && cl->getBoundaryMax(i) == hi[i], "a clone has other limits", "%s", in.c_str());
    for (int c = 0; c < ncodes(d); c += n > 1 ? 3 : 1)
    {
        VX a = conf(d, c), b = conf(d, (c * 7 + 3) % ncodes(d));
        r.check(std::fabs(cl->calcDist(a, b) - m.dist(a, b)) < 1e-5 * (1 + m.dist(a, b)), "a clone has another metric", "%s, weights %d, borders %d: %.7g, expected %.7g", in.c_str(), wt, bo, cl->calcDist(a, b), m.dist(a, b));
    }
    VX q = conf(d, 1);
    robot(d)->setJointValues(robot(d)->getRobotNodeSet("all"), conf(d, 0));
    cl->isCollisionFree(q);
    for (int i = 0; i < n; i++)
    {
        r.check(std::fabs(rob2->getRobotNode(strf("j%d", i))->getJointValue() - q[i]) < 1e-5, "a clone does not move its own robot", "%s", in.c_str());
        r.check(std::fabs(robot(d)->getRobotNode(strf("j%d", i))->getJointValue() - conf(d, 0)[i]) < 1e-5, "a clone moves the original robot", "%s", in.c_str());
    }
}

// ---- search trees
struct PubTree : public CSpaceTree
{
    PubTree(CSpacePtr c) : CSpaceTree(c) {}
    using CSpaceTree::getPathDist;
};
struct MNode
{
    CSpaceNodePtr n;
    VX c;
    int parent; // index or -1
};
static void tree(mc::Run& r)
{
    static const std::vector<int> d = {0, 2};
    int wt = r.choose(2, "weights");
    bool kids = r.flip("children");
    SpacePtr s = space(d, 40);
    Metric m;
    m.d = d;
    configure(*s, m, wt, 0);
    s->setSamplingSize(0.6f);
    s->setSamplingSizeDCD(0.3f);
    s->valid = [](const VX& c) { return !(c[0] > 0.3f && c[0] < 1.0f); }; // a wall
    static VX C[4];
    C[0] = conf(d, 0 + 0 * 5), C[1] = conf(d, 1 + 4 * 5), C[2] = conf(d, 4 + 2 * 5), C[3] = conf(d, 2 + 1 * 5);
    boost::shared_ptr<PubTree> t[2];
    std::vector<MNode> M[2];
    std::vector<CSpaceNodePtr> gone;
    for (auto& x : t)
    {
        x.reset(new PubTree(s));
        x->setUpdateChildren(kids);
    }
    int D = r.thorough ? 5 : 4;
    for (int op = 0; op < D; op++)
    {
        // the first operation always makes a root
        int kind = op == 0 ? 0 : r.choose(7, "operation");
        int which = 0;
        if (kind == 5) which = 1, kind = 0;
        if (kind == 6) break;
        auto& L = M[which];
        PubTree& T = *t[which];
        std::string what;
        if (kind == 0)
        {
            int c = r.choose(4, "configuration");
            int p = L.empty() ? -1 : r.choose((int)std::min<size_t>(L.size(), 4) + (op < 2 ? 1 : 0), "parent") - (op < 2 ? 1 : 0);
            if (p >= 0 && L.size() > 4) p = (int)L.size() - 1 - p;
            r.step("tree %d: append %s below %d", which, showv(C[c]).c_str(), p);
            CSpaceNodePtr n = T.appendNode(C[c], p < 0 ? -1 : (int)L[p].n->ID);
            r.check(bool(n), "appendNode gives nothing", "%d", op);
            L.push_back({n, C[c], p});
        }
        else if (kind == 1)
        {
            std::vector<int> leaves;
            for (size_t i = 0; i < L.size(); i++)
            {
                bool leaf = true;
                for (auto& x : L) leaf = leaf && x.parent != (int)i;
                if (leaf) leaves.push_back((int)i);
            }
            if (leaves.empty()) r.prune();
            int k = leaves[r.choose((int)leaves.size(), "leaf")];
            r.step("tree %d: remove %d", which, k);
            gone.push_back(L[k].n);
            T.removeNode(L[k].n);
            L.erase(L.begin() + k);
            for (auto& x : L)
                if (x.parent > k) x.parent--;
        }
        else if (kind == 2 || kind == 3)
        {
            if (L.empty()) r.prune();
            int c = r.choose(4, "configuration"), p = r.choose((int)std::min<size_t>(L.size(), 3), "from");
            if (L.size() > 3) p = (int)L.size() - 1 - p;
            int last = -77;
            r.step("tree %d: %s to %s from %d", which, kind == 2 ? "append path" : "append until collision", showv(C[c]).c_str(), p);
            size_t before = T.getNodes().size();
            bool ok = kind == 2 ? T.appendPath(L[p].n, C[c], &last) : T.appendPathUntilCollision(L[p].n, C[c], &last);
            std::vector<CSpaceNodePtr> now = T.getNodes();
            r.check(now.size() >= before, "appending a path removes nodes", "%zu after %zu", now.size(), before);
            VX from = L[p].c;
            bool same = from == C[c];
            double len = 0, DD = m.dist(from, C[c]);
            int par = p;
            for (size_t i = before; i < now.size(); i++)
            {
                len += m.dist(L[par].c, now[i]->configuration);
                r.check(m.off(from, C[c], len / DD, now[i]->configuration) < 1e-4, "an appended path leaves the connection", "%s to %s: %s", showv(from).c_str(), showv(C[c]).c_str(), showv(now[i]->configuration).c_str());
                if (kind == 3) r.check(s->valid(now[i]->configuration), "an invalid configuration was appended", "%s", showv(now[i]->configuration).c_str());
                L.push_back({now[i], now[i]->configuration, par});
                par = (int)L.size() - 1;
            }
            bool reach = now.size() > before && m.dist(now.back()->configuration, C[c]) < 1e-5;
            if (kind == 2 && !same) r.check(ok && reach, "an appended path does not reach its end", "%s to %s", showv(from).c_str(), showv(C[c]).c_str());
            if (kind == 3) r.check(ok == reach, "appendPathUntilCollision reports the wrong success", "%s to %s: %d but %s", showv(from).c_str(), showv(C[c]).c_str(), (int)ok, reach ? "reached" : "not reached");
            if (kind == 3 && !same && s->valid(from))
            {
                // the wall is 0.7 wide in the first dimension: it cannot be stepped over
                bool crosses = (from[0] < 0.3f) != (C[c][0] < 0.3f);
                r.check(ok == !crosses, "appendPathUntilCollision stops without reason or passes the wall", "%s to %s: %d", showv(from).c_str(), showv(C[c]).c_str(), (int)ok);
            }
            if (now.size() > before) r.check(last == (int)now.back()->ID, "the last added node is not reported", "%d, expected %u", last, now.back()->ID);
        }
        else if (kind == 4)
        {
            r.step("tree %d: reset", which);
            for (auto& x : L) gone.push_back(x.n);
            L.clear();
            T.reset();
        }
        // ---- compare
        r.compared();
        for (int k = 0; k < 2; k++)
        {
            auto& L2 = M[k];
            PubTree& T2 = *t[k];
            r.check(T2.getNrOfNodes() == L2.size() && T2.getNodes().size() == L2.size(), "number of nodes is wrong", "tree %d: %u, expected %zu", k, T2.getNrOfNodes(), L2.size());
            std::vector<CSpaceNodePtr> nodes = T2.getNodes();
            double lw = 0, l0 = 0;
            for (size_t i = 0; i < L2.size(); i++)
            {
                CSpaceNodePtr n = L2[i].n;
                r.check(nodes[i] == n, "nodes are not in the order they were added", "tree %d, node %zu", k, i);
                r.check(n->configuration == L2[i].c, "a node holds another configuration", "tree %d, node %zu: %s, expected %s", k, i, showv(n->configuration).c_str(), showv(L2[i].c).c_str());
                r.check(n->parentID == (L2[i].parent < 0 ? -1 : (int)L2[L2[i].parent].n->ID), "a node has another parent", "tree %d, node %zu", k, i);
                r.check(T2.hasNode(n) && T2.getNode(n->ID) == n && s->getNode(n->ID) == n && n->allocated, "a node is not found", "tree %d, node %zu", k, i);
                for (int kk = 0; kk < 2; kk++)
                    for (size_t j = 0; j < M[kk].size(); j++)
                        if (kk != k || i != j) r.check(M[kk][j].n != n && M[kk][j].n->ID != n->ID, "two nodes share an ID", "ID %u", n->ID);
                if (kids)
                {
                    std::vector<CSpaceNodePtr> ch;
                    for (auto& x : L2)
                        if (x.parent == (int)i) ch.push_back(x.n);
                    r.check(n->children == ch, "the children of a node are wrong", "tree %d, node %zu: %zu children, expected %zu", k, i, n->children.size(), ch.size());
                }
                if (L2[i].parent >= 0)
                {
                    lw += m.dist(L2[i].c, L2[L2[i].parent].c);
                    l0 += m.dist(L2[i].c, L2[L2[i].parent].c, false);
                }
            }
            for (auto& g : gone)
            {
                bool back = false;
                for (auto& x : L2) back = back || x.n == g;
                if (!back) r.check(!T2.hasNode(g), "a removed node is still found", "tree %d, ID %u", k, g->ID);
            }
            r.check(std::fabs(T2.getTreeLength(true) - lw) < 1e-4 * (1 + lw), "getTreeLength is wrong", "tree %d of %zu nodes: %.6g, expected %.6g", k, L2.size(), T2.getTreeLength(true), lw);
            r.check(std::fabs(T2.getTreeLength(false) - l0) < 1e-4 * (1 + l0), "unweighted getTreeLength is wrong", "tree %d of %zu nodes: %.6g, expected %.6g", k, L2.size(), T2.getTreeLength(false), l0);
            r.check(T2.getLastAddedNode() == (L2.empty() ? CSpaceNodePtr() : L2.back().n), "getLastAddedNode is wrong", "tree %d", k);
            if (L2.empty()) continue;
            for (int c : {0, 3, 6, 9, 12, 16, 18, 22, 24})
            {
                VX q = conf(d, c);
                double best = 1e9;
                for (auto& x : L2) best = std::min(best, m.dist(q, x.c));
                float dd = -1;
                CSpaceNodePtr n = T2.getNearestNeighbor(q, &dd);
                r.check(bool(n), "no nearest neighbour", "tree %d", k);
                r.check(m.dist(q, n->configuration) < best + 1e-4, "a stored configuration is nearer than the nearest neighbour", "tree %d%s, query %s: %s at %.6g, nearest is at %.6g", k, wt ? " weighted" : "", showv(q).c_str(), showv(n->configuration).c_str(), m.dist(q, n->configuration), best);
                r.check(std::fabs(dd - best) < 1e-4, "the distance of the nearest neighbour is wrong", "tree %d%s, query %s: %.6g, expected %.6g", k, wt ? " weighted" : "", showv(q).c_str(), dd, best);
                r.check(T2.getNode(T2.getNearestNeighborID(q)) == n, "getNearestNeighborID differs from getNearestNeighbor", "tree %d", k);
            }
            for (size_t i = 0; i < L2.size(); i++)
                for (size_t j = 0; j < L2.size(); j++)
                {
                    std::vector<int> w;
                    int x = (int)j;
                    for (; x >= 0; x = L2[x].parent)
                    {
                        w.push_back(x);
                        if (x == (int)i) break;
                    }
                    bool anc = x == (int)i;
                    CSpacePathPtr p(new CSpacePath(s));
                    p->addPoint(C[0]);
                    bool got = T2.createPath(L2[i].n, L2[j].n, p);
                    r.check(got == anc, "createPath finds a path where there is none or none where there is one", "tree %d: %zu to %zu", k, i, j);
                    if (!anc) continue;
                    bool ok = p->getNrOfPoints() == w.size();
                    double len = 0;
                    for (size_t q = 0; ok && q < w.size(); q++) ok = p->getPoint((unsigned)q) == L2[w[w.size() - 1 - q]].c;
                    r.check(ok, "createPath gives other configurations", "tree %d: %zu to %zu", k, i, j);
                    for (size_t q = 0; q + 1 < w.size(); q++) len += m.dist(L2[w[q]].c, L2[w[q + 1]].c);
                    if (i != j) r.check(std::fabs(T2.getPathDist(L2[i].n->ID, L2[j].n->ID, true) - len) < 1e-4 * (1 + len), "getPathDist is wrong", "tree %d: %zu to %zu: %.6g, expected %.6g", k, i, j, T2.getPathDist(L2[i].n->ID, L2[j].n->ID, true), len);
                }
        }
        mc::Hash h;
        for (int k = 0; k < 2; k++)
            for (auto& x : M[k]) h.i(k).i(x.parent).f(x.c[0]).f(x.c[1]);
        r.state(h.i(wt).i(kids));
    }
    r.outcome(strf("%zu + %zu nodes", M[0].size(), M[1].size()));
    if (!M[0].empty())
    {
        std::string fn = mc::scratch() + "/nodes.txt";
        r.check(t[0]->saveAllNodes(fn.c_str()), "the nodes cannot be saved", "%s", fn.c_str());
        std::ifstream in(fn);
        std::string line;
        std::vector<std::string> rows;
        while (std::getline(in, line))
            if (!line.empty() && line[0] != '#') rows.push_back(line);
        r.check(rows.size() == 3 + M[0].size() && rows[0] == "all" && rows[1] == "2" && rows[2] == strf("%zu", M[0].size()), "the saved nodes are incomplete", "%zu rows for %zu nodes", rows.size(), M[0].size());
        for (size_t i = 0; i < M[0].size(); i++)
        {
            std::istringstream ss(rows[3 + i]);
            unsigned id;
            float a, b;
            int p;
            ss >> id >> a >> b >> p;
            r.check(id == M[0][i].n->ID && p == M[0][i].n->parentID && std::fabs(a - M[0][i].c[0]) < 1e-4 && std::fabs(b - M[0][i].c[1]) < 1e-4, "a saved node is wrong", "%s", rows[3 + i].c_str());
        }
    }
}

// the store of nodes: what is taken is not given out again until it is returned
static void pool(mc::Run& r)
{
    SpacePtr s = space({0}, 3);
    boost::shared_ptr<CSpaceTree> t[2];
    for (auto& x : t) x.reset(new CSpaceTree(s));
    std::vector<std::pair<int, CSpaceNodePtr>> live;
    int D = r.thorough ? 9 : 7;
    for (int op = 0; op < D; op++)
    {
        int n = (int)live.size();
        int k = r.choose(2 + n + 1, "operation");
        if (k < 2)
        {
            r.step("append to %d", k);
            bool thrown = false;
            CSpaceNodePtr x;
            try
            {
                x = t[k]->appendNode(VX::Constant(1, (float)op * 0.1f), -1);
            }
            catch (...)
            {
                thrown = true;
            }
            r.check(thrown == (n == 3), "a node was refused or given out beyond the maximum", "%d in use of 3", n);
            if (thrown) continue;
            for (auto& l : live) r.check(l.second != x && l.second->ID != x->ID, "a node in use was given out again", "%d", op);
            live.push_back({k, x});
        }
        else if (k < 2 + n)
        {
            r.step("remove %d", k - 2);
            t[live[k - 2].first]->removeNode(live[k - 2].second);
            live.erase(live.begin() + k - 2);
        }
        else
        {
            r.step("reset all");
            s->reset();
            t[0]->reset();
            t[1]->reset();
            live.clear();
        }
        r.compared();
        size_t a = 0;
        for (auto& l : live)
        {
            a += l.first == 0;
            r.check(l.second->allocated && t[l.first]->hasNode(l.second) && !t[1 - l.first]->hasNode(l.second), "a node in use is not found", "%d", op);
        }
        r.check(t[0]->getNrOfNodes() == a && t[1]->getNrOfNodes() == live.size() - a, "number of nodes is wrong", "%u + %u, expected %zu + %zu", t[0]->getNrOfNodes(), t[1]->getNrOfNodes(), a, live.size() - a);
        mc::Hash h;
        for (auto& l : live) h.i(l.first).i(l.second->ID);
        r.state(h);
    }
}

// ---- paths
static void path(mc::Run& r)
{
    static const std::vector<std::vector<int>> D2 = {{0, 2}, {3, 1}, {2}};
    int di = r.choose(3, "space");
    const auto& d = D2[di];
    int wt = r.choose(3, "weights"), bo = r.choose(2, "borders");
    SpacePtr s = space(d, 4);
    Metric m;
    m.d = d;
    configure(*s, m, wt, bo);
    std::vector<VX> C;
    for (int c : {0, 4, 12, 23}) C.push_back(conf(d, d.size() == 1 ? (c == 0 ? 0 : c == 4 ? 4 : c == 12 ? 2 : 1) : c));
    CSpacePathPtr p(new CSpacePath(s, "p"));
    std::vector<VX> P;
    int n = 1 + r.choose(r.thorough ? 5 : 4, "points");
    for (int i = 0; i < n; i++)
    {
        P.push_back(C[r.choose(4, "point")]);
        p->addPoint(P.back());
    }
    std::string in = strf("space %d, weights %d, borders %d:", di, wt, bo);
    for (auto& x : P) in += " " + showv(x);
    r.at("%s", in.c_str());
    mc::Hash h;
    h.i(di).i(wt).i(bo);
    for (auto& x : P)
        for (int i = 0; i < x.rows(); i++) h.f(x[i]);
    r.state(h);
    auto length = [&](int a, int b, bool w) {
        double l = 0;
        for (int i = a; i < b; i++) l += m.dist(P[i], P[i + 1], w);
        return l;
    };
    double L = length(0, n - 1, true);
    r.compared();
    r.check(std::fabs(p->getLength() - L) < 1e-4, "the length of a path is wrong", "%s: %.6g, expected %.6g", in.c_str(), p->getLength(), L);
    for (int w = 0; w < 2; w++)
    {
        r.check(std::fabs(p->getLength(w == 1) - length(0, n - 1, w == 1)) < 1e-4, w ? "the weighted length of a path is wrong" : "the unweighted length of a path is wrong", "%s: %.6g, expected %.6g", in.c_str(), p->getLength(w == 1), length(0, n - 1, w == 1));
        for (int a = 0; a < n; a++)
            for (int b = a; b < n; b++)
                r.check(std::fabs(p->getLength((unsigned)a, (unsigned)b, w == 1) - length(a, b, w == 1)) < 1e-4, w ? "the weighted length of a part is wrong" : "the unweighted length of a part is wrong", "%s, %d to %d: %.6g, expected %.6g", in.c_str(), a, b, p->getLength((unsigned)a, (unsigned)b, w == 1), length(a, b, w == 1));
    }
    CSpacePathPtr c = p->clone();
    r.check(c->getNrOfPoints() == (unsigned)n && c->getCSpace() == p->getCSpace() && c->getName() == "p", "a cloned path differs", "%s", in.c_str());
    for (int i = 0; i < n; i++) r.check(c->getPoint(i) == P[i], "a cloned path differs", "%s at %d", in.c_str(), i);
    c->addPoint(C[0]);
    r.check(p->getNrOfPoints() == (unsigned)n, "changing the clone changes the path", "%s", in.c_str());
    for (int a = 0; a < n; a++)
        for (int b = a; b < n; b++)
        {
            CSpacePathPtr q = p->createSubPath(a, b);
            bool ok = q && q->getNrOfPoints() == (unsigned)(b - a + 1) && q->getCSpace() == p->getCSpace();
            for (int i = a; ok && i <= b; i++) ok = q->getPoint(i - a) == P[i];
            r.check(ok, "createSubPath gives other points", "%s, %d to %d", in.c_str(), a, b);
        }
    for (int i = 0; i < n; i++)
    {
        if (L == 0) break;
        double want = length(0, i, true) / L;
        r.check(std::fabs(p->getTime(i) - want) < 1e-5, "getTime is wrong", "%s, point %d: %.6g, expected %.6g", in.c_str(), i, p->getTime(i), want);
    }
    for (double t : {0., 0.01, 0.2, 0.37, 0.5, 0.73, 0.999, 1.})
    {
        VX x;
        int idx = -5;
        p->interpolate((float)t, x, &idx);
        double want = t * L, acc = 0;
        r.check(x.rows() == (int)d.size(), "interpolation gives another dimension", "%s", in.c_str());
        if (t == 0) r.check(x == P[0], "interpolation at the start", "%s: %s", in.c_str(), showv(x).c_str());
        if (t == 1) r.check(x == P[n - 1], "interpolation at the end", "%s: %s", in.c_str(), showv(x).c_str());
        if (t == 0 || t == 1) continue;
        r.check(idx >= 0 && (idx < n - 1 || n == 1), "interpolation reports no point of the path", "%s at %g: %d", in.c_str(), t, idx);
        double best = 1e9;
        bool amb = false;
        for (int i = 0; i + 1 < n; i++)
        {
            double l = m.dist(P[i], P[i + 1]);
            if (want >= acc - 1e-5 && want <= acc + l + 1e-5)
            {
                amb = amb || m.ambiguous(P[i], P[i + 1]);
                best = std::min(best, m.off(P[i], P[i + 1], l > 0 ? std::min(1., std::max(0., (want - acc) / l)) : 0, x));
            }
            acc += l;
        }
        if (n == 1) best = (x - P[0]).norm();
        if (!amb) r.check(best < 2e-4, "interpolation leaves the path", "%s at %g: %s is off by %.4g", in.c_str(), t, showv(x).c_str(), best);
        if (n > 1 && !amb)
        {
            double a0 = length(0, idx, true), a1 = length(0, idx + 1, true);
            r.check(want >= a0 - 1e-4 && want <= a1 + 1e-4, "interpolation reports another segment", "%s at %g: %d", in.c_str(), t, idx);
        }
    }
    // the whole path is valid exactly when its segments are
    s->valid = [&](const VX& q) { return !(q[0] > 0.6f && q[0] < 1.1f); };
    bool ok = true;
    for (int i = 0; i + 1 < n; i++) ok = ok && s->isPathValid(P[i], P[i + 1]);
    bool back = true;
    for (int i = 0; i + 1 < n; i++) back = back && s->isPathValid(P[i + 1], P[i]);
    bool got = s->checkSolution(p);
    r.check(got == ok || got == back, "checkSolution disagrees with its segments", "%s: %d", in.c_str(), (int)got);
}

int main(int argc, char** argv)
{
    silence();
    mc::suite("metric", metric, 2);
    mc::suite("connect", connect, 4);
    mc::suite("bounds", bounds, 2);
    mc::suite("tree", tree, 4);
    mc::suite("pool", pool, 3);
    mc::suite("path", path, 4);
    return mc::main(argc, argv);
}
