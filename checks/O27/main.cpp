// Paths with circular blends and time optimal trajectories along them.
// Oracle for the duration: reachability analysis of the phase plane on a fine grid (backward and forward pass).
#include "mc.h"
#include <VirtualRobot/TimeOptimalTrajectory/Path.h>
#include <VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h>
#include <cmath>
#include <list>
#include <memory>
using mc::strf;
typedef Eigen::VectorXd VX;
typedef std::vector<VX> Way;

static std::string show(const VX& v)
{
    std::string s = "(";
    for (int i = 0; i < v.size(); i++) s += strf(i ? " %g" : "%g", v[i]);
    return s + ")";
}
static std::string show(const Way& w)
{
    std::string s;
    for (auto& v : w) s += show(v);
    return s;
}
static double distSeg(const VX& p, const VX& a, const VX& b)
{
    VX d = b - a;
    double l = d.squaredNorm(), t = l > 0 ? (p - a).dot(d) / l : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    return (p - (a + t * d)).norm();
}
static VX v1(double a)
{
    VX v(1);
    v << a;
    return v;
}
static VX v2(double a, double b)
{
    VX v(2);
    v << a, b;
    return v;
}
static VX v3(double a, double b, double c)
{
    VX v(3);
    v << a, b, c;
    return v;
}
// the angle by which the path turns at waypoint i
static double turn(const Way& w, size_t i)
{
    VX a = (w[i] - w[i - 1]).normalized(), b = (w[i + 1] - w[i]).normalized();
    return 2 * std::atan2((a - b).norm(), (a + b).norm());
}

// ---------------------------------------------------------------- the path
struct Corner
{
    double s0, s1;   // where the blend starts and ends
};
// length of the path and of its pieces, from the definition: every corner is replaced by the arc of the largest
// circle that touches both segments, does not use more than half of them and stays within the deviation
static double ownLength(const Way& w, double dev, std::vector<double>& joints)
{
    double s = 0, used = 0;
    for (size_t i = 1; i < w.size(); i++)
    {
        double l = (w[i] - w[i - 1]).norm();
        if (i + 1 == w.size() || dev <= 0)
        {
            s += l - used;
            used = 0;
            joints.push_back(s);
            continue;
        }
        double a = turn(w, i);
        const bool none = a < 1e-6 || a > M_PI - 1e-6;   // straight, or turning back on the spot: no blend
        double d = none ? 0 : std::min(std::min(l / 2, (w[i + 1] - w[i]).norm() / 2), dev * std::sin(a / 2) / (1 - std::cos(a / 2)));
        s += l - used - d;
        joints.push_back(s);
        s += none ? 0 : a * d / std::tan(a / 2);
        joints.push_back(s);
        used = d;
    }
    return s;
}
static void checkPath(mc::Run& run, const VirtualRobot::Path& p, const Way& w, double dev, const std::string& what, std::vector<double>& joints)
{
    double scale = 0;
    for (size_t i = 1; i < w.size(); i++) scale += (w[i] - w[i - 1]).norm();
    const double tiny = 1e-9 + 2e-6 * scale;
    double len = ownLength(w, dev, joints);
    double L = p.getLength();
    run.check(std::fabs(L - len) <= tiny, "length of the path", "%s: %.9g instead of %.9g", what.c_str(), L, len);
    run.check((p.getConfig(0) - w.front()).norm() <= tiny, "start of the path", "%s: %s", what.c_str(), show(p.getConfig(0)).c_str());
    run.check((p.getConfig(L) - w.back()).norm() <= tiny, "end of the path", "%s: %s", what.c_str(), show(p.getConfig(L)).c_str());
    const int n = run.thorough ? 240 : 100;
    std::vector<double> at;
    for (int i = 0; i <= n; i++) at.push_back(L * i / n);
    for (double j : joints)
    {
        at.push_back(std::max(0.0, std::min(L, j - 1e-4 * scale)));
        at.push_back(std::max(0.0, std::min(L, j + 1e-4 * scale)));
    }
    std::sort(at.begin(), at.end());
    std::vector<double> nearest(w.size(), 1e300);
    VirtualRobot::Path copy(p);
    const double h = 1e-5 * scale;
    VX last;
    double lastS = 0;
    for (double s : at)
    {
        VX q = p.getConfig(s), t = p.getTangent(s), c = p.getCurvature(s);
        bool finite = true;
        for (int i = 0; i < q.size(); i++) finite = finite && std::isfinite(q[i]) && std::isfinite(t[i]) && std::isfinite(c[i]);
        run.check(finite, "the path is not a number", "%s at %g", what.c_str(), s);
        run.check(copy.getConfig(s) == q && copy.getTangent(s) == t && copy.getCurvature(s) == c, "copy of a path", "%s at %g", what.c_str(), s);
        double d = 1e300;
        for (size_t i = 1; i < w.size(); i++) d = std::min(d, distSeg(q, w[i - 1], w[i]));
        run.check(d <= dev + tiny, "the path leaves the allowed deviation", "%s at %g: %s is %g away, allowed %g", what.c_str(), s, show(q).c_str(), d, dev);
        for (size_t i = 0; i < w.size(); i++) nearest[i] = std::min(nearest[i], (q - w[i]).norm());
        run.check(std::fabs(t.norm() - 1) < 1e-6, "the path is not parametrized by its length", "%s at %g: the tangent has length %g", what.c_str(), s, t.norm());
        if (last.size()) run.check((q - last).norm() <= (s - lastS) + tiny * 1e-3 + 1e-9, "the path is not continuous", "%s between %g and %g: %g", what.c_str(), lastS, s, (q - last).norm());
        last = q;
        lastS = s;
        // derivatives, away from the joints of two pieces
        bool clear = s > 2 * h && s < L - 2 * h;
        for (double j : joints) clear = clear && std::fabs(s - j) > 2 * h;
        if (clear)
        {
            VX dq = (p.getConfig(s + h) - p.getConfig(s - h)) / (2 * h), dt = (p.getTangent(s + h) - p.getTangent(s - h)) / (2 * h);
            run.check((dq - t).norm() < 1e-5 + std::pow(h * c.norm(), 2), "tangent of the path", "%s at %g: %s instead of %s", what.c_str(), s, show(t).c_str(), show(dq).c_str());
            run.check((dt - c).norm() < (1e-4 + std::pow(h * c.norm(), 2)) * (c.norm() + 1 / scale), "curvature of the path", "%s at %g: %s instead of %s", what.c_str(), s, show(c).c_str(), show(dt).c_str());
        }
    }
    run.compared((int)at.size());
    for (size_t i = 0; i < w.size(); i++) run.check(nearest[i] <= dev + tiny + L / n, "the path passes a waypoint outside the allowed deviation", "%s waypoint %zu: %g", what.c_str(), i, nearest[i]);
    // every change of a piece is announced as a discontinuity
    if (dev > 0)
    {
        double s = 0;
        size_t k = 0;
        bool disc = false;
        while ((s = p.getNextSwitchingPoint(s, disc)) < L - 1e-6 * scale && k < 10000)
        {
            k++;
            double best = 1e300;
            for (double j : joints) best = std::min(best, std::fabs(j - s));
            if (disc) run.check(best < tiny, "a discontinuity is announced inside a piece", "%s at %g", what.c_str(), s);
            else
            {
                // one coordinate of the tangent vanishes here
                VX t = p.getTangent(s);
                run.check(t.cwiseAbs().minCoeff() < 1e-6, "a switching point where no coordinate turns", "%s at %g: tangent %s", what.c_str(), s, show(t).c_str());
            }
        }
        run.check(k < 10000, "endless switching points", "%s", what.c_str());
        double pos = 0;
        for (double j : joints)
        {
            if (j <= tiny || j >= L - tiny) continue;
            double f = pos;
            bool found = false, dd = false;
            for (double x = 0; (x = p.getNextSwitchingPoint(x, dd)) < L - 1e-9;)
                if (dd && std::fabs(x - j) < tiny) found = true;
            (void)f;
            run.check(found, "a change of the curvature is not announced", "%s at %g", what.c_str(), j);
        }
    }
}

// ---------------------------------------------------------------- shortest possible duration
static double optimum(const VirtualRobot::Path& p, const std::vector<double>& joints, const VX& vm, const VX& am, int n)
{
    const double L = p.getLength();
    std::vector<double> cut = {0};
    for (double j : joints)
        if (j > cut.back() + 1e-9 && j < L - 1e-9) cut.push_back(j);
    cut.push_back(L);
    std::vector<double> s = {0};
    for (size_t c = 1; c < cut.size(); c++)
    {
        int m = std::max(12, (int)std::ceil(n * (cut[c] - cut[c - 1]) / L));
        for (int i = 1; i <= m; i++) s.push_back(cut[c - 1] + (cut[c] - cut[c - 1]) * i / m);
    }
    const int N = (int)s.size() - 1, D = (int)vm.size();
    std::vector<VX> t(N), k(N);
    std::vector<double> vmax(N + 1, 1e300), hi(N + 1, 0);
    for (int i = 0; i < N; i++)
    {
        double m = (s[i] + s[i + 1]) / 2;
        t[i] = p.getTangent(m);
        k[i] = p.getCurvature(m);
        double x = 1e300;
        for (int d = 0; d < D; d++)
            if (std::fabs(t[i][d]) > 1e-12) x = std::min(x, std::pow(vm[d] / t[i][d], 2));
        vmax[i] = std::min(vmax[i], x);
        vmax[i + 1] = std::min(vmax[i + 1], x);
    }
    // the interval of accelerations allowed in interval i at squared velocity x
    auto range = [&](int i, double x, double& lo, double& up) {
        lo = -1e300;
        up = 1e300;
        for (int d = 0; d < D; d++)
        {
            double a = t[i][d], b = k[i][d] * x, m = am[d];
            if (std::fabs(a) < 1e-12)
            {
                if (std::fabs(b) > m) lo = 1, up = 0;
                continue;
            }
            double l = (-m - b) / a, u = (m - b) / a;
            if (l > u) std::swap(l, u);
            lo = std::max(lo, l);
            up = std::min(up, u);
        }
        return lo <= up;
    };
    hi[N] = 0;
    for (int i = N - 1; i >= 0; i--)
    {
        double h2 = 2 * (s[i + 1] - s[i]), a = 0, b = std::min(vmax[i], 1e9);
        auto ok = [&](double x) {
            double lo, up;
            if (!range(i, x, lo, up)) return false;
            lo = std::max(lo, -x / h2);
            up = std::min(up, (hi[i + 1] - x) / h2);
            return lo <= up + 1e-12;
        };
        if (ok(b)) a = b;
        else
            for (int r = 0; r < 45; r++) (ok((a + b) / 2) ? a : b) = (a + b) / 2;
        hi[i] = a;
    }
    double x = 0, T = 0;
    for (int i = 0; i < N; i++)
    {
        double h2 = 2 * (s[i + 1] - s[i]), lo, up;
        if (!range(i, x, lo, up)) return -1;
        double y = std::max(0.0, std::min(hi[i + 1], x + h2 * up));
        double v = std::sqrt(x) + std::sqrt(y);
        if (v <= 0) return -1;
        T += h2 / v;
        x = y;
    }
    return T;
}

// ---------------------------------------------------------------- the trajectory
struct Limits
{
    VX v, a;
};
static bool reverses(const Way& w)
{
    for (size_t i = 1; i + 1 < w.size(); i++)
        if (turn(w, i) > M_PI - 1e-3) return true;
    return false;
}
static double worst[8];
static void trajectory(mc::Run& run, const Way& w, double dev, const Limits& lim, double step, const std::string& what, const Way* given = nullptr)
{
    std::list<VX> l = given ? std::list<VX>(given->begin(), given->end()) : std::list<VX>(w.begin(), w.end());
    VirtualRobot::Path p(l, dev);
    std::vector<double> joints;
    checkPath(run, p, w, dev, what, joints);
    run.at("%s", what.c_str());
    VirtualRobot::TimeOptimalTrajectory tr(p, lim.v, lim.a, step);
    run.step("trajectory %s", what.c_str());
    const bool corners = dev <= 0 && w.size() > 2;
    const bool smooth = !reverses(w);
    if (!tr.isValid())
    {
        run.outcome("no trajectory");
        if (!smooth) return;
        // rounding may spoil the integration with one time step, but not with every one
        for (double f : {1.13, 0.87, 1.31, 0.71, 1.7})
            if (VirtualRobot::TimeOptimalTrajectory(p, lim.v, lim.a, step * f).isValid()) return;
        run.check(corners, "no trajectory along a smooth path", "%s", what.c_str());
        return;
    }
    run.outcome("trajectory");
    const double T = tr.getDuration(), L = p.getLength();
    run.check(std::isfinite(T) && T > 0, "duration", "%s: %g", what.c_str(), T);
    mc::Hash hs;
    hs.f(T, 1e-4).f(L, 1e-6);
    run.state(hs);
    const double eps = 1e-5 * (1 + L);
    run.check((tr.getPosition(0) - w.front()).norm() < eps, "position at the start", "%s: %s", what.c_str(), show(tr.getPosition(0)).c_str());
    run.check((tr.getPosition(T) - w.back()).norm() < eps, "position at the end", "%s: %s", what.c_str(), show(tr.getPosition(T)).c_str());
    run.check(tr.getVelocity(0).norm() < 1e-6, "at rest at the start", "%s: %s", what.c_str(), show(tr.getVelocity(0)).c_str());
    run.check(tr.getVelocity(T).norm() < 1e-4, "at rest at the end", "%s: %s", what.c_str(), show(tr.getVelocity(T)).c_str());
    const int n = run.thorough ? 600 : 300;
    const double dt = T / n;
    std::vector<VX> P(n + 1), V(n + 1);
    for (int i = 0; i <= n; i++)
    {
        P[i] = tr.getPosition(T * i / n);
        V[i] = tr.getVelocity(T * i / n);
        for (int d = 0; d < P[i].size(); d++) run.check(std::isfinite(P[i][d]) && std::isfinite(V[i][d]), "the trajectory is not a number", "%s at %g", what.c_str(), T * i / n);
    }
    // the answer does not depend on the order of the questions
    for (int i = n; i >= 0; i -= 3)
    {
        run.check(tr.getVelocity(T * i / n) == V[i] && tr.getPosition(T * i / n) == P[i], "the answers depend on the order of the questions", "%s at %g", what.c_str(), T * i / n);
        int j = (i * 7 + 3) % (n + 1);
        run.check(tr.getPosition(T * j / n) == P[j] && tr.getVelocity(T * j / n) == V[j], "the answers depend on the order of the questions", "%s at %g", what.c_str(), T * j / n);
    }
    for (int i = 0; i <= n; i++)
    {
        double t = T * i / n, d = 1e300;
        for (size_t k = 1; k < w.size(); k++) d = std::min(d, distSeg(P[i], w[k - 1], w[k]));
        run.check(d <= dev + eps, "the trajectory leaves the allowed deviation", "%s at %g: %g", what.c_str(), t, d);
        for (int k = 0; k < V[i].size(); k++)
        {
            worst[0] = std::max(worst[0], std::fabs(V[i][k]) / lim.v[k]);
            run.check(std::fabs(V[i][k]) <= lim.v[k] * 1.002 + 1e-9, "velocity limit", "%s at %g: joint %d moves with %g, limit %g", what.c_str(), t, k, V[i][k], lim.v[k]);
        }
        if (i == 0) continue;
        VX dp = P[i] - P[i - 1];
        for (int k = 0; k < dp.size(); k++)
        {
            // mean velocity and acceleration over the interval
            double mean = dp[k] / dt, a = (V[i][k] - V[i - 1][k]) / dt;
            worst[1] = std::max(worst[1], std::fabs(mean) / lim.v[k]);
            run.check(std::fabs(mean) <= lim.v[k] * 1.002 + 1e-6, "velocity limit", "%s at %g: joint %d moves with %g, limit %g", what.c_str(), t, k, mean, lim.v[k]);
            if (corners) continue;
            double m2 = (V[i][k] + V[i - 1][k]) / 2;
            run.check(std::fabs(mean - m2) <= lim.a[k] * dt * 0.6 + 1e-6, "the velocity is not the change of the position", "%s at %g: joint %d moves with %g, reported %g", what.c_str(), t, k, mean, m2);
        }
    }
    run.compared(n);
    if (!corners)
    {
        // the acceleration may be held for one time step too long: look at its mean over 20 steps
        const double win = 20 * step;
        if (T > 3 * win)
            for (int i = 0; i <= n; i++)
            {
                double t = (T - win) * i / n;
                VX a = (tr.getVelocity(t + win) - tr.getVelocity(t)) / win;
                for (int k = 0; k < a.size(); k++)
                {
                    worst[2] = std::max(worst[2], std::fabs(a[k]) / lim.a[k]);
                    run.check(std::fabs(a[k]) <= lim.a[k] * 1.08, "acceleration limit", "%s at %g: joint %d accelerates with %g, limit %g", what.c_str(), t, k, a[k], lim.a[k]);
                }
            }
        double best = optimum(p, joints, lim.v, lim.a, run.thorough ? 3000 : 1500);
        run.check(best > 0, "oracle", "%s", what.c_str());
        worst[3] = std::max(worst[3], T / best);
        worst[4] = std::min(worst[4] == 0 ? 1e9 : worst[4], T / best);
        run.check(T <= best * 1.03 + 3 * step, "the trajectory takes longer than necessary", "%s: %g instead of %g", what.c_str(), T, best);
        run.check(T >= best * 0.97 - 3 * step, "the trajectory is faster than the limits permit", "%s: %g instead of %g", what.c_str(), T, best);
    }
}
static Limits limits(int dim, int which)
{
    Limits l;
    l.v = VX::Constant(dim, 1.0);
    l.a = VX::Constant(dim, 1.0);
    for (int d = 0; d < dim; d++)
    {
        if (which == 1) l.v[d] = 0.4 + 0.5 * d, l.a[d] = 2.0 - 0.6 * d;
        if (which == 2) l.v[d] = 10, l.a[d] = 0.5 + d;      // never at the velocity limit
        if (which == 3) l.v[d] = 0.3, l.a[d] = 5 - d;       // mostly at the velocity limit
    }
    return l;
}
static const double DEV[4] = {0.1, 0.5, 0.01, 0};

static void run2d(mc::Run& run, int len, int grid, double cell)
{
    Way w;
    int prev = -1;
    for (int i = 0; i < len; i++)
    {
        int c = run.choose(grid * grid, "waypoint");
        if (c == prev) run.prune();
        prev = c;
        w.push_back(v2(cell * (c % grid), cell * (c / grid) * 0.7));
    }
    if (reverses(w)) run.prune();
    double dev = DEV[run.choose(run.thorough ? 4 : 3, "deviation")] * cell;
    int li = run.choose(run.thorough ? 4 : 3, "limits");
    double step = (run.thorough ? 0.0004 : 0.001);
    trajectory(run, w, dev, limits(2, li), step, strf("%s deviation %g limits %d", show(w).c_str(), dev, li));
}
static void plane3(mc::Run& run)
{
    run2d(run, 2 + run.choose(2, "length"), 3, 1);
}
static void plane4(mc::Run& run)
{
    run2d(run, run.thorough ? 4 + run.choose(2, "length") : 4, 2, 1);
}
static void plane4big(mc::Run& run)
{
    run2d(run, 4, 3, 1);
}
static void coarse(mc::Run& run)
{
    run2d(run, 3, 2, 30);
}
static void space(mc::Run& run)
{
    int len = 3 + (run.thorough ? run.choose(2, "length") : 0);
    Way w;
    int prev = -1;
    for (int i = 0; i < len; i++)
    {
        int c = run.choose(8, "waypoint");
        if (c == prev) run.prune();
        prev = c;
        w.push_back(v3(c & 1, (c >> 1) & 1, 0.5 * (c >> 2) + 0.03 * i));
    }
    if (reverses(w)) run.prune();
    double dev = DEV[run.choose(3, "deviation")];
    int li = run.choose(4, "limits");
    trajectory(run, w, dev, limits(3, li), run.thorough ? 0.0004 : 0.001, strf("%s deviation %g limits %d", show(w).c_str(), dev, li));
}
// one joint, straight: the shape is a trapezoid
static void line(mc::Run& run)
{
    static const double X[6] = {-1, 0, 0.001, 0.7, 3, 250};
    int a = run.choose(6, "from"), b = run.choose(6, "to"), m = run.choose(3, "waypoints between");
    if (a == b) run.prune();
    Way w(1, v1(X[a]));
    for (int i = 1; i <= m; i++) w.push_back(v1(X[a] + (X[b] - X[a]) * i / (m + 1.0)));
    w.push_back(v1(X[b]));
    static const double VM[4] = {0.2, 1, 4, 100}, AM[3] = {0.3, 1, 20};
    Limits l;
    l.v = v1(VM[run.choose(4, "velocity")]);
    l.a = v1(AM[run.choose(3, "acceleration")]);
    double dev = run.flip("deviation") ? 0.1 : 0, d = std::fabs(X[b] - X[a]), v = l.v[0], acc = l.a[0];
    double want = d >= v * v / acc ? d / v + v / acc : 2 * std::sqrt(d / acc);
    double step = std::min(want / 800, v / acc / 30);
    if (want / step > 60000) run.prune();
    std::string what = strf("line %s velocity %g acceleration %g deviation %g", show(w).c_str(), v, acc, dev);
    trajectory(run, w, dev, l, step, what);
    std::list<VX> li(w.begin(), w.end());
    VirtualRobot::TimeOptimalTrajectory tr(VirtualRobot::Path(li, dev), l.v, l.a, step);
    run.compared();
    run.check(std::fabs(tr.getDuration() - want) < 0.01 * want, "duration along a line", "%s: %g instead of %g", what.c_str(), tr.getDuration(), want);
    for (int i = 0; i <= 20; i++)
    {
        double t = want * i / 20, tv = std::min(v / acc, want / 2), top = acc * tv;
        double s = t < tv ? acc * t * t / 2 : t > want - tv ? d - acc * (want - t) * (want - t) / 2 : acc * tv * tv / 2 + (t - tv) * top;
        double x = X[a] + (X[b] > X[a] ? s : -s);
        if (t < tr.getDuration()) run.check(std::fabs(tr.getPosition(t)[0] - x) < 0.006 * d, "position along a line", "%s at %g: %g instead of %g", what.c_str(), t, tr.getPosition(t)[0], x);
    }
}
// repeated waypoints and turning back on the spot
static void degenerate(mc::Run& run)
{
    int len = 2 + run.choose(run.thorough ? 4 : 3, "length");
    Way w;
    for (int i = 0; i < len; i++)
    {
        int c = run.choose(3, "waypoint");
        w.push_back(c == 0 ? v2(0, 0) : c == 1 ? v2(1, 0.4) : v2(0.5, 0.2));
    }
    bool moves = false;
    for (auto& x : w) moves = moves || x != w[0];
    if (!moves) run.prune();
    double dev = DEV[run.choose(4, "deviation")];
    int li = run.choose(3, "limits");
    Way own(1, w[0]);
    for (auto& x : w)
        if (x != own.back()) own.push_back(x);
    trajectory(run, own, dev, limits(2, li), 0.001, strf("%s deviation %g limits %d", show(w).c_str(), dev, li), &w);
}
int main(int argc, char** argv)
{
    mc::hangSeconds(40);
    mc::suite("line", line, 3);
    mc::suite("plane3", plane3, 3);
    mc::suite("plane4", plane4, 3);
    mc::suite("plane4 wide", plane4big, 3, true);
    mc::suite("degenerate", degenerate, 3);
    mc::suite("coarse", coarse, 3);
    mc::suite("space", space, 3);
    return mc::main(argc, argv);
}
