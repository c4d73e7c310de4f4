// Rotation and pose conversions, distances and interpolations against plain double precision formulas.
#include "simox.h"
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/math/Helpers.h>
#include <VirtualRobot/math/LinearInterpolatedOrientation.h>
#include <set>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;
typedef Eigen::Vector3f F3;
typedef Eigen::Matrix3f FM3;
typedef Eigen::Matrix4f FM4;
typedef MathTools::Quaternion Q;
typedef math::Helpers H;

static bool fine(const M3& m)
{
    for (int i = 0; i < 9; i++)
        if (!std::isfinite(m(i))) return false;
    return true;
}
static double rotAngle(const M3& m)   // of a proper rotation
{
    if (!fine(m)) return 1e9;
    V3 s(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1));
    return std::atan2(s.norm() / 2, (m.trace() - 1) / 2);
}
static double between(const M3& a, const M3& b)
{
    return rotAngle(M3(a.transpose() * b));
}
static double improper(const M3& m)   // deviation from a rotation matrix
{
    if (!fine(m)) return 1e9;
    return std::max((m * m.transpose() - M3::Identity()).cwiseAbs().maxCoeff(), std::fabs(m.determinant() - 1));
}
static M3 quat(double x, double y, double z, double w)
{
    M3 r;
    r << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
    return r;
}
static M3 quat(const Q& q)
{
    return quat(q.x, q.y, q.z, q.w);
}
static double qnorm(const Q& q)
{
    return std::sqrt((double)q.x * q.x + (double)q.y * q.y + (double)q.z * q.z + (double)q.w * q.w);
}
static Q toQ(const V3& axis, double w, int sign = 1)
{
    V3 a = axis / axis.norm() * std::sin(w / 2);
    Q q;
    q.x = (float)(sign * a[0]);
    q.y = (float)(sign * a[1]);
    q.z = (float)(sign * a[2]);
    q.w = (float)(sign * std::cos(w / 2));
    return q;
}
static M3 rpy(double r, double p, double y)
{
    return M3(rot3(V3(0, 0, 1), y) * rot3(V3(0, 1, 0), p) * rot3(V3(1, 0, 0), r));
}
static FM4 pose(const V3& t, const M3& r)
{
    FM4 m = FM4::Identity();
    m.block<3, 3>(0, 0) = r.cast<float>();
    m.block<3, 1>(0, 3) = t.cast<float>();
    return m;
}
static M3 ori(const FM4& m)
{
    return m.block<3, 3>(0, 0).cast<double>();
}
static void same(mc::Run& r, const std::string& what, const M3& want, const M3& got, double tol, const std::string& in)
{
    double e = improper(got);
    if (!(e < std::max(tol, 2e-5))) r.fail(what + " is not a rotation", "%s of %s gives %s, off a rotation by %.3g", what.c_str(), in.c_str(), show(pose(V3(0, 0, 0), got)).c_str(), e);
    double d = between(want, got);
    if (!(d <= tol)) r.fail(what + " gives another rotation", "%s of %s is off by %.6f rad (tolerance %.6f)", what.c_str(), in.c_str(), d, tol);
    r.compared();
}
static void samePose(mc::Run& r, const std::string& what, const FM4& want, const FM4& got, double tol, const std::string& in)
{
    double e = (want - got).cwiseAbs().maxCoeff();
    if (!(e <= tol)) r.fail(what + " gives another pose", "%s of %s: expected %s, got %s with last row (%g %g %g %g)", what.c_str(), in.c_str(), show(want).c_str(), show(got).c_str(), got(3, 0), got(3, 1), got(3, 2), got(3, 3));
    r.compared();
}

static const double EPS = 3e-5;

// ------------------------------------------------------------ roll pitch yaw
static std::vector<double> circle(int n)
{
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(-PI + 2 * PI * i / n);
    return v;
}
static void rpySuite(mc::Run& r)
{
    std::vector<double> pitch, other = circle(r.thorough ? 36 : 23);
    other.push_back(1e-4);
    int n = r.thorough ? 40 : 12;
    for (int i = 0; i <= n; i++) pitch.push_back(-PI + 2 * PI * i / n);
    for (double s : {-1., 1.})
        for (double d : {0., 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, -1e-6, -1e-4, -1e-2}) pitch.push_back(s * (PI / 2 + d));
    double p = r.pick(pitch), a = r.pick(other), y = r.pick(other);
    std::string in = strf("roll %.7g pitch %.9g yaw %.7g", a, p, y);
    r.at("%s", in.c_str());
    M3 want = rpy((float)a, (float)p, (float)y);
    FM4 m = FM4::Constant(7);
    MathTools::rpy2eigen4f((float)a, (float)p, (float)y, m);
    samePose(r, "rpy2eigen4f", pose(V3(0, 0, 0), want), m, 2e-6, in);
    samePose(r, "rpy2eigen4f (returned)", m, MathTools::rpy2eigen4f((float)a, (float)p, (float)y), 0, in);
    same(r, "rpy2eigen3f", want, MathTools::rpy2eigen3f((float)a, (float)p, (float)y).cast<double>(), EPS, in);
    // back: once from the matrix this library made, once from an independently computed one, once with noise
    for (int k = 0; k < 6; k++)
    {
        FM4 src = k == 0 ? m : pose(V3(1, -2, 3000), want);
        if (k >= 2)
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++) src(i, j) += 6e-8f * (((i * 5 + j * 3 + k * 7) % 5) - 2);
        F3 v;
        MathTools::eigen4f2rpy(src, v);
        std::string in2 = in + strf(" (matrix variant %d)", k);
        same(r, "eigen4f2rpy", want, rpy(v[0], v[1], v[2]), EPS, in2);
        if (k < 2)
        {
            float x[6];
            MathTools::eigen4f2rpy(src, x);
            Eigen::Matrix<float, 6, 1> pr = MathTools::eigen4f2posrpy(src);
            F3 v3 = MathTools::eigen3f2rpy(FM3(src.block<3, 3>(0, 0))), v4 = MathTools::eigen4f2rpy(src);
            for (int i = 0; i < 3; i++)
                r.check(x[3 + i] == v[i] && pr[3 + i] == v[i] && v3[i] == v[i] && v4[i] == v[i] && x[i] == src(i, 3) && pr[i] == src(i, 3), "variants of eigen4f2rpy differ", "%s: component %d: %g %g %g %g %g, position %g %g of %g", in2.c_str(), i, v[i], x[3 + i], pr[3 + i], v3[i], v4[i], x[i], pr[i], src(i, 3));
            FM4 back = FM4::Constant(5);
            MathTools::posrpy2eigen4f(x, back);
            samePose(r, "posrpy2eigen4f(array)", src, back, 3e-5, in2);
            F3 pos(x[0], x[1], x[2]), ang(x[3], x[4], x[5]);
            FM4 b2 = FM4::Constant(5), b3 = FM4::Constant(5);
            MathTools::posrpy2eigen4f(pos, ang, b2);
            MathTools::posrpy2eigen4f(x[0], x[1], x[2], x[3], x[4], x[5], b3);
            samePose(r, "posrpy2eigen4f(vectors)", back, b2, 0, in2);
            samePose(r, "posrpy2eigen4f(numbers)", back, b3, 0, in2);
            samePose(r, "posrpy2eigen4f(vectors, returned)", back, MathTools::posrpy2eigen4f(pos, ang), 0, in2);
            samePose(r, "posrpy2eigen4f(numbers, returned)", back, MathTools::posrpy2eigen4f(x[0], x[1], x[2], x[3], x[4], x[5]), 0, in2);
        }
    }
    mc::Hash h;
    h.f(want(0, 0)).f(want(1, 0)).f(want(2, 0)).f(want(2, 1)).f(want(2, 2));
    r.state(h);
    r.outcome(std::fabs(std::cos(p)) < 2e-2 ? "near the singular pitch" : "regular");
}

// ------------------------------------------------------------ single rotations
static std::vector<V3> dirs(bool more)
{
    std::vector<V3> v;
    int n = more ? 2 : 1;
    std::set<std::vector<int>> seen;
    for (int x = -n; x <= n; x++)
        for (int y = -n; y <= n; y++)
            for (int z = -n; z <= n; z++)
            {
                int g = std::abs(x) | std::abs(y) | std::abs(z);
                if (!g) continue;
                if (x % 2 == 0 && y % 2 == 0 && z % 2 == 0) continue;
                v.push_back(V3(x, y, z).normalized());
            }
    return v;
}
static std::vector<double> angles(bool more)
{
    std::vector<double> v = {0, 1e-5, 1e-3, 0.02, 0.3, PI / 4, 1.2, PI / 2 - 1e-4, PI / 2, 2, 2.5, 3, PI - 0.02, PI - 1e-3, PI - 1e-5, PI, PI + 1e-3, PI + 0.5, 2 * PI - 1e-3};
    if (more)
        for (int i = 1; i < 13; i++) v.push_back(2 * PI * i / 13);
    return v;
}
static void single(mc::Run& r)
{
    V3 a = r.pick(dirs(r.thorough));
    double w = r.pick(angles(r.thorough));
    std::string in = strf("the rotation by %.7g about %s", w, showv(a).c_str());
    r.at("%s", in.c_str());
    M3 want = rot3(a, w);
    double ang = std::fabs(std::remainder(w, 2 * PI));
    F3 af = a.cast<float>();
    same(r, "axisangle2eigen3f", want, MathTools::axisangle2eigen3f(af, (float)w).cast<double>(), EPS, in);
    FM4 p0 = pose(V3(0, 0, 0), want);
    samePose(r, "axisangle2eigen4f", p0, MathTools::axisangle2eigen4f(af, (float)w), 3e-6, in);
    FM4 st = FM4::Identity();
    MathTools::axisangle2eigen4f(af, (float)w, st);
    samePose(r, "axisangle2eigen4f(stored)", p0, st, 3e-6, in);
    same(r, "axisangle2quat", want, quat(MathTools::axisangle2quat(af, (float)w)), EPS, in);
    same(r, "RotationVectorToOrientation", want, H::RotationVectorToOrientation(F3(af * (float)w)).cast<double>(), EPS, in);
    for (int k = 0; k < 5; k++)
    {
        FM4 m = pose(V3(10, -20, 30), want);
        if (k)
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++) m(i, j) += 6e-8f * (((i * 5 + j * 3 + k * 7) % 5) - 2);
        std::string in2 = in + strf(" (matrix variant %d)", k);
        F3 ax;
        float g = 99;
        MathTools::eigen4f2axisangle(m, ax, g);
        if (!(std::fabs(ax.norm() - 1) < 1e-5)) r.fail("eigen4f2axisangle gives no unit axis", "%s: axis %s", in2.c_str(), showv(ax).c_str());
        same(r, "eigen4f2axisangle", want, rot3(ax.cast<double>(), g), EPS, in2);
        r.check(std::fabs(std::fabs((double)g) - ang) < EPS, "eigen4f2axisangle reports an angle that is not the smallest", "%s: %.7g, expected %.7g", in2.c_str(), g, ang);
        Q q = MathTools::eigen4f2quat(m), q2;
        MathTools::eigen4f2quat(m, q2);
        r.check(q.x == q2.x && q.y == q2.y && q.z == q2.z && q.w == q2.w, "variants of eigen4f2quat differ", "%s", in2.c_str());
        r.check(std::fabs(qnorm(q) - 1) < 1e-5, "eigen4f2quat gives no unit quaternion", "%s: norm %.8g", in2.c_str(), qnorm(q));
        same(r, "eigen4f2quat", want, quat(q), EPS, in2);
        FM3 o = m.block<3, 3>(0, 0);
        F3 rv = H::GetRotationVector(FM3::Identity(), o);
        same(r, "GetRotationVector", want, rv.norm() == 0 ? M3(M3::Identity()) : rot3(rv.cast<double>(), rv.cast<double>().norm()), EPS, in2);
        r.check(std::fabs(rv.norm() - ang) < EPS, "GetRotationVector is not the shortest rotation", "%s: length %.7g, expected %.7g", in2.c_str(), rv.norm(), ang);
        same(r, "GetRotationVector and back", want, H::RotationVectorToOrientation(rv).cast<double>(), EPS, in2);
        // repairing a disturbed rotation
        FM3 dist = o;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) dist(i, j) += 1e-3f * (((i * 5 + j * 3 + k * 7) % 5) - 2);
        same(r, "Orthogonalize", want, H::Orthogonalize(dist).cast<double>(), 6e-3, in2);
        same(r, "OrthogonalizeQR", want, H::OrthogonalizeQR(dist).cast<double>(), 8e-3, in2);
        FM4 dp = m;
        dp.block<3, 3>(0, 0) = dist;
        dp.row(3) << 0.1f, 0.2f, 0.3f, 1.1f;
        FM4 op = H::Orthogonalize(dp);
        same(r, "Orthogonalize(pose)", want, ori(op), 6e-3, in2);
        r.check(op(3, 0) == 0 && op(3, 1) == 0 && op(3, 2) == 0 && op(3, 3) == 1 && op(0, 3) == 10 && op(1, 3) == -20 && op(2, 3) == 30, "Orthogonalize(pose) damages the pose", "%s: %s", in2.c_str(), show(op).c_str());
        // inverses
        FM4 iv = H::InvertedPose(m), iv2 = m;
        H::InvertPose(iv2);
        samePose(r, "InvertedPose", f(inv(mk(10, -20, 30, a, w))), iv, 1e-4, in2);
        samePose(r, "InvertPose", iv, iv2, 0, in2);
    }
    for (int s : {1, -1})
    {
        Q q = toQ(a, w, s);
        std::string in2 = in + (s < 0 ? " (negated quaternion)" : " (quaternion)");
        FM4 m = FM4::Constant(4), m2 = FM4::Constant(4);
        samePose(r, "quat2eigen4f", p0, MathTools::quat2eigen4f(q), 3e-6, in2);
        samePose(r, "quat2eigen4f(numbers)", p0, MathTools::quat2eigen4f(q.x, q.y, q.z, q.w), 3e-6, in2);
        MathTools::quat2eigen4f(q, m);
        samePose(r, "quat2eigen4f(stored)", p0, m, 3e-6, in2);
        MathTools::quat2eigen4f(q.x, q.y, q.z, q.w, m2);
        samePose(r, "quat2eigen4f(numbers, stored)", p0, m2, 3e-6, in2);
        same(r, "quat2eigen3f", want, MathTools::quat2eigen3f(q.x, q.y, q.z, q.w).cast<double>(), EPS, in2);
        samePose(r, "posquat2eigen4f", pose(V3(1, 2, 3), want), MathTools::posquat2eigen4f(1, 2, 3, q.x, q.y, q.z, q.w), 3e-6, in2);
        r.check(std::fabs(MathTools::getAngle(q) - ang) < EPS, "getAngle(quaternion) is not the rotation angle", "%s: %.7g, expected %.7g", in2.c_str(), MathTools::getAngle(q), ang);
        F3 hopf = MathTools::quat2hopf(q);
        for (int i = 0; i < 3; i++) r.check(hopf[i] >= -1e-6 && hopf[i] <= 2 * PI + 1e-5, "quat2hopf leaves its range", "%s: %s", in2.c_str(), showv(hopf).c_str());
        same(r, "quat2hopf and back", want, quat(MathTools::hopf2quat(hopf)), 3e-3, in2);
        Q i = MathTools::getInverse(q), c = MathTools::getConjugated(q);
        same(r, "getInverse", want.transpose(), quat(i), EPS, in2);
        same(r, "getConjugated", want.transpose(), quat(c), EPS, in2);
        Q q3 = q;
        q3.x *= 3, q3.y *= 3, q3.z *= 3, q3.w *= 3;
        Q one = MathTools::multiplyQuaternions(q3, MathTools::getInverse(q3));
        r.check(std::fabs(one.w - 1) < 1e-5 && std::fabs(one.x) < 1e-5 && std::fabs(one.y) < 1e-5 && std::fabs(one.z) < 1e-5, "a quaternion times its inverse is not one", "%s: (%g %g %g %g)", in2.c_str(), one.x, one.y, one.z, one.w);
    }
    mc::Hash h;
    for (int i = 0; i < 9; i++) h.f(want(i), 1e-5);
    r.state(h);
    r.outcome(ang < 1e-4 ? "identity" : ang > PI - 1e-2 ? "half turn" : "rotation");
}

// ------------------------------------------------------------ pairs of rotations
struct R1
{
    V3 a;
    double w;
    M3 m;
};
static const std::vector<R1>& rots(bool more)
{
    static std::vector<R1> v;
    if (!v.empty()) return v;
    std::vector<V3> d = vec<V3>({V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, 1, 0), V3(1, 0, -1), V3(0, -1, 1), V3(1, 1, 1), V3(-1, 1, 1), V3(1, -1, 1), V3(1, 1, -1), V3(-1, 0, 0), V3(0.3, -0.5, 0.8), V3(0, 0, -1)});
    std::vector<double> w = {0, 0.005, 0.012, 0.025, 0.1, PI / 4, PI / 2, 2, 2.8, PI - 0.01, PI, 3 * PI / 2, 2 * PI - 0.02};
    if (more) w = {0, 0.005, 0.012, 0.025, 0.03, 0.1, 0.4, PI / 4, 1, PI / 2, 1.8, 2, 2.4, 2.8, 3, PI - 0.01, PI, PI + 0.01, 4, 3 * PI / 2, 5, 5.5, 2 * PI - 0.1, 2 * PI - 0.02};
    for (auto& a : d)
        for (auto x : w)
        {
            R1 o;
            o.a = a.normalized();
            o.w = x;
            o.m = rot3(o.a, x);
            bool dup = false;
            for (auto& e : v)
                if (between(e.m, o.m) < 1e-6) dup = true;
            if (!dup) v.push_back(o);
        }
    return v;
}
static void pairs(mc::Run& r)
{
    const R1& A = r.pick(rots(r.thorough));
    const R1& B = r.pick(rots(r.thorough));
    std::string in = strf("%.5g about %s and %.5g about %s", A.w, showv(A.a).c_str(), B.w, showv(B.a).c_str());
    r.at("%s", in.c_str());
    double ang = between(A.m, B.m);
    V3 ta(100, -50, 20), tb(-30, 70, 900);
    FM4 pa = pose(ta, A.m), pb = pose(tb, B.m);
    double dist = (tb - ta).norm();
    // distances
    for (int sw = 0; sw < 2; sw++)
    {
        const FM4 &x = sw ? pb : pa, &y = sw ? pa : pb;
        float dp = -1, dr = -1;
        MathTools::getPoseDiff(x, y, dp, dr);
        r.check(std::fabs(dp - dist) < 2e-3, "getPoseDiff reports a wrong distance", "%s%s: %.7g, expected %.7g", in.c_str(), sw ? " swapped" : "", dp, dist);
        r.check(std::fabs(dr - ang) < EPS, "getPoseDiff reports a wrong angle", "%s%s: %.7g, expected %.7g", in.c_str(), sw ? " swapped" : "", dr, ang);
        float ep = -1, er = -1;
        MathTools::getDelta(x, y, ep, er);
        r.check(std::fabs(ep - dist) < 2e-3 && std::fabs(er - ang) < EPS, "getDelta reports a wrong distance", "%s%s: %.7g and %.7g, expected %.7g and %.7g", in.c_str(), sw ? " swapped" : "", ep, er, dist, ang);
        float hd = H::Distance(x, y, 100);
        r.check(std::fabs(hd - dist - 100 * ang) < 6e-3, "Helpers::Distance is wrong", "%s%s: %.7g, expected %.7g", in.c_str(), sw ? " swapped" : "", hd, dist + 100 * ang);
        float c0 = MathTools::getCartesianPoseDiff(x, y, 0), c1 = MathTools::getCartesianPoseDiff(x, y), c3 = MathTools::getCartesianPoseDiff(x, y, 7);
        r.check(std::fabs(c0 - dist) < 2e-3, "getCartesianPoseDiff ignores its weight", "%s: weight 0 gives %.7g, the positions are %.7g apart", in.c_str(), c0, dist);
        double rad = (c1 - c0) / 3, rad7 = (c3 - c0) / 7;
        r.check(std::fabs(rad - rad7) < 1e-3 * (1 + rad), "getCartesianPoseDiff is not linear in its weight", "%s: %.7g, %.7g, %.7g for weights 0, 3, 7", in.c_str(), c0, c1, c3);
        r.check((std::fabs(rad - ang) < 1e-3 || std::fabs(rad - ang * 180 / PI) < 1e-2 * (1 + ang)), "getCartesianPoseDiff reports a wrong angle", "%s: %.7g, expected %.7g", in.c_str(), rad, ang);
    }
    for (int s1 : {1, -1})
        for (int s2 : {1, -1})
        {
            Q qa = toQ(A.a, A.w, s1), qb = toQ(B.a, B.w, s2);
            std::string in2 = in + strf(" (quaternion signs %d %d)", s1, s2);
            Q d = MathTools::getDelta(qa, qb);
            same(r, "getDelta(quaternions)", M3(B.m * A.m.transpose()), quat(d), EPS, in2);
            r.check(std::fabs(MathTools::getAngle(d) - ang) < 2 * EPS, "the angle of getDelta is wrong", "%s: %.7g, expected %.7g", in2.c_str(), MathTools::getAngle(d), ang);
            same(r, "multiplyQuaternions", M3(A.m * B.m), quat(MathTools::multiplyQuaternions(qa, qb)), EPS, in2);
            double dot = MathTools::getDot(qa, qb);
            r.check(std::fabs(2 * std::acos(std::min(1., std::fabs(dot))) - ang) < 3e-3, "getDot is wrong", "%s: %.7g", in2.c_str(), dot);
            if (ang < PI - 0.02)
            {
                std::vector<Q> qs;
                qs.push_back(qa);
                qs.push_back(qb);
                M3 mid = quat(MathTools::getMean(qs));
                r.check(improper(mid) < 1e-4 && std::fabs(between(mid, A.m) - ang / 2) < 1e-3 && std::fabs(between(mid, B.m) - ang / 2) < 1e-3, "the mean of two rotations is not half way", "%s: %.6g and %.6g from the ends, %.6g between them", in2.c_str(), between(mid, A.m), between(mid, B.m), ang);
            }
            for (double al : {0., 0.001, 0.25, 0.5, 0.8, 1.})
            {
                M3 m = quat(MathTools::slerp(qa, qb, (float)al));
                std::string in3 = in2 + strf(" at %g", al);
                r.check(improper(m) < 1e-4, "slerp gives no rotation", "%s: off by %.4g", in3.c_str(), improper(m));
                double da = between(A.m, m), db = between(m, B.m);
                r.check(std::fabs(da - al * ang) < 1e-3 && std::fabs(db - (1 - al) * ang) < 1e-3, "slerp leaves the shortest rotation", "%s: %.6g from the start, %.6g from the end, %.6g between them", in3.c_str(), da, db, ang);
            }
        }
    // interpolation over time
    static const double T[4][2] = {{0, 1}, {0, 100}, {2, 2.5}, {-3, 400}};
    for (auto& t : T)
        for (int cl = 0; cl < 2; cl++)
        {
            math::LinearInterpolatedOrientation li(FM3(A.m.cast<float>()), FM3(B.m.cast<float>()), (float)t[0], (float)t[1], cl == 1);
            for (double al : {-0.25, 0., 0.1, 0.5, 0.9, 1., 1.5})
            {
                if (cl == 0 && (al == 1.5 || al == -0.25) && ang > 2) continue; // beyond half a turn
                float x = (float)(t[0] + al * (t[1] - t[0]));
                Eigen::Quaternionf q = li.Get(x);
                M3 m = quat(q.x(), q.y(), q.z(), q.w());
                double u = cl ? std::max(0., std::min(1., al)) : al;
                std::string in3 = in + strf(" over [%g,%g]%s at %g", t[0], t[1], cl ? " clamped" : "", x);
                double da = between(A.m, m), db = between(m, B.m);
                // rotations of less than 0.01 rad may be treated as none
                double tol = ang < 0.0101 ? 0.02 : 1e-3;
                r.check(improper(m) < 1e-4, "interpolated orientation is no rotation", "%s: off by %.4g", in3.c_str(), improper(m));
                r.check(std::fabs(da - std::fabs(u) * ang) < tol && std::fabs(db - std::fabs(1 - u) * ang) < tol, "interpolated orientation leaves the shortest rotation", "%s: %.6g from the start, %.6g from the end, %.6g between them", in3.c_str(), da, db, ang);
                F3 v = li.GetDerivative(x);
                double speed = cl && (al < 0 || al > 1) ? 0 : ang / (t[1] - t[0]);
                r.check(std::fabs(v.norm() - speed) < tol / (t[1] - t[0]) + 1e-6, "derivative of the interpolated orientation is wrong", "%s: %.6g, expected %.6g", in3.c_str(), v.norm(), speed);
                r.compared();
            }
        }
    Eigen::Quaternionf qa(A.m.cast<float>()), qb(B.m.cast<float>());
    for (double al : {-0.25, 0., 0.25, 0.5, 1., 1.25})
    {
        if (ang < 0.0101 || ang > 2.4) break;
        Eigen::Quaternionf l = H::Lerp(qa, qb, (float)al), lc = H::LerpClamp(qa, qb, (float)al);
        double c = std::max(0., std::min(1., al));
        M3 m = quat(l.x(), l.y(), l.z(), l.w()), m2 = quat(lc.x(), lc.y(), lc.z(), lc.w());
        r.check(std::fabs(between(A.m, m) - std::fabs(al) * ang) < 1e-3 && std::fabs(between(m, B.m) - std::fabs(1 - al) * ang) < 1e-3, "Helpers::Lerp leaves the shortest rotation", "%s at %g", in.c_str(), al);
        r.check(std::fabs(between(A.m, m2) - c * ang) < 1e-3 && std::fabs(between(m2, B.m) - (1 - c) * ang) < 1e-3, "Helpers::LerpClamp leaves the shortest rotation", "%s at %g", in.c_str(), al);
    }
    // applying one to the other
    M4 ma = pa.cast<double>();
    F3 v = tb.cast<float>();
    r.check((H::TransformPosition(pa, v).cast<double>() - (A.m * tb + ta)).norm() < 2e-3, "TransformPosition is wrong", "%s", in.c_str());
    r.check((MathTools::transformPosition(v, pa).cast<double>() - (A.m * tb + ta)).norm() < 2e-3, "transformPosition is wrong", "%s", in.c_str());
    r.check((H::TransformDirection(pa, v).cast<double>() - A.m * tb).norm() < 2e-3, "TransformDirection is wrong", "%s", in.c_str());
    same(r, "TransformOrientation", M3(A.m * B.m), H::TransformOrientation(pa, FM3(B.m.cast<float>())).cast<double>(), EPS, in);
    same(r, "GetAngleAxisFromTo", M3(B.m * A.m.transpose()), M3(H::GetAngleAxisFromTo(FM3(A.m.cast<float>()), FM3(B.m.cast<float>())).toRotationMatrix().cast<double>()), EPS, in);
    mc::Hash h;
    h.f(ang, 1e-5).f((A.m * B.m)(0), 1e-4).f((A.m * B.m)(5), 1e-4);
    r.state(h);
    r.outcome(ang < 1e-4 ? "same" : ang > PI - 0.02 ? "half turn apart" : "apart");
}

// ------------------------------------------------------------ vectors
static std::vector<V3> vecs()
{
    std::vector<V3> v;
    for (auto& d : dirs(false)) v.push_back(d);
    v.push_back(V3(1, 2, 3));
    v.push_back(V3(-1, -2, -3));
    v.push_back(V3(1, 1e-3, 0));
    v.push_back(V3(-1, 1e-4, 0));
    v.push_back(V3(-1, 0, 1e-6));
    v.push_back(V3(0, -1, 1e-5));
    v.push_back(V3(1e-7, 0, -1));
    v.push_back(V3(1e-3, -1e-3, -1));
    v.push_back(V3(-0.267261, -0.534522, -0.801783));
    v.push_back(V3(-0.3333333, -0.3333334, -0.3333333));
    for (int i = 0; i < 26; i++) v.push_back(V3(-dirs(false)[i] * (1 + i) * 0.37 + V3(1e-7 * i, -2e-7, 3e-7)));
    return v;
}
static void vectors(mc::Run& r)
{
    F3 a = r.pick(vecs()).cast<float>(), b = r.pick(vecs()).cast<float>();
    std::string in = showv(a) + " to " + showv(b);
    r.at("%s", in.c_str());
    V3 ad = a.cast<double>().normalized(), bd = b.cast<double>().normalized();
    double ang = std::atan2(ad.cross(bd).norm(), ad.dot(bd));
    Q q = MathTools::getRotation(a, b);
    M3 m = quat(q);
    r.check(improper(m) < 1e-4, "getRotation gives no rotation", "%s: quaternion (%g %g %g %g)", in.c_str(), q.x, q.y, q.z, q.w);
    double e = (m * ad - bd).norm();
    r.check(e < 1e-3, "getRotation does not turn the first vector into the second", "%s: off by %.4g rad", in.c_str(), e);
    r.check(std::fabs(rotAngle(m) - ang) < 2e-3, "getRotation is not the shortest", "%s: %.6g, the vectors enclose %.6g", in.c_str(), rotAngle(m), ang);
    FM3 g = H::GetRotationMatrix(a, b);
    r.check(improper(g.cast<double>()) < 1e-4 && (g.cast<double>() * ad - bd).norm() < 4e-3, "GetRotationMatrix does not turn the first vector into the second", "%s", in.c_str());
    FM3 o = rot3(V3(1, -2, 0.5), 1.1).cast<float>();
    FM3 fit = H::RotateOrientationToFitVector(o, a, b);
    r.check(improper(fit.cast<double>()) < 1e-4 && (fit.cast<double>() * ad - bd).norm() < 4e-3, "RotateOrientationToFitVector does not fit", "%s", in.c_str());
    float av = MathTools::getAngle(a, b), sa = H::SmallestAngle(a, b);
    r.check(std::fabs(av - ang) < 2e-3, "getAngle(vectors) is wrong", "%s: %.7g, expected %.7g", in.c_str(), av, ang);
    r.check(std::fabs(sa - ang) < EPS, "SmallestAngle is wrong", "%s: %.7g, expected %.7g", in.c_str(), sa, ang);
    F3 d1, d2, n = H::GetOrthonormalVectors(a, d1, d2);
    V3 nd = n.cast<double>(), e1 = d1.cast<double>(), e2 = d2.cast<double>();
    r.check((nd - ad).norm() < 1e-5 && std::fabs(e1.norm() - 1) < 1e-5 && std::fabs(e2.norm() - 1) < 1e-5 && std::fabs(e1.dot(nd)) < 1e-5 && std::fabs(e2.dot(nd)) < 1e-5 && std::fabs(e1.dot(e2)) < 1e-5, "GetOrthonormalVectors are not orthonormal", "%s: %s %s %s", in.c_str(), showv(n).c_str(), showv(d1).c_str(), showv(d2).c_str());
    F3 big = a * 250.f + b * 100.f;
    MathTools::SphericalCoord sc = MathTools::toSphericalCoords(big);
    F3 back = MathTools::toPosition(sc);
    r.check((back - big).norm() <= 1e-3 * (1 + big.norm()), "spherical coordinates and back give another point", "%s becomes %s", showv(big).c_str(), showv(back).c_str());
    r.check(std::fabs(sc.r - big.norm()) < 1e-2, "the radius of spherical coordinates is wrong", "%s: %g", showv(big).c_str(), sc.r);
    F3 cs = H::CartesianFromSphere(sc.r, sc.theta, sc.phi);
    r.check((cs - big).norm() <= 1e-3 * (1 + big.norm()), "CartesianFromSphere is wrong", "%s becomes %s", showv(big).c_str(), showv(cs).c_str());
    F3 cy = H::CartesianFromCylinder(std::hypot(big[0], big[1]), std::atan2(big[1], big[0]), big[2]);
    r.check((cy - big).norm() <= 1e-3 * (1 + big.norm()), "CartesianFromCylinder is wrong", "%s becomes %s", showv(big).c_str(), showv(cy).c_str());
    r.compared(8);
    // limiting a vector to a box of allowed lengths: the result fits, keeps the direction and is not shorter than needed
    for (double s : {0.5, 2., 30.})
    {
        Eigen::VectorXf v(3), lim(3), one(1);
        v << a[0] * (float)s, a[1] * (float)s, a[2] * (float)s;
        lim << std::fabs(b[0]) + 0.1f, std::fabs(b[1]) + 0.1f, std::fabs(b[2]) + 0.1f;
        one << 1.f;
        for (int k = 0; k < 2; k++)
        {
            Eigen::VectorXf res = H::LimitVectorLength(v, k ? one : lim);
            double sc2 = 1;
            for (int i = 0; i < 3; i++) sc2 = std::min(sc2, (double)(k ? 1.f : lim[i]) / std::max(1e-30, (double)std::fabs(v[i])));
            r.check((res.cast<double>() - v.cast<double>() * sc2).norm() < 1e-4, "LimitVectorLength does not limit", "%s with limits %s becomes %s", showv(v).c_str(), showv(k ? one : lim).c_str(), showv(res).c_str());
        }
    }
    r.outcome(ang < 1e-3 ? "parallel" : ang > PI - 1e-3 ? "opposite" : "skew");
    mc::Hash h;
    h.f(ang, 1e-5);
    for (int i = 0; i < 3; i++) h.f(a[i]).f(b[i]);
    r.state(h);
}

// ------------------------------------------------------------ angles
static double mod(double v, double lo, double hi)
{
    double r = std::fmod(v - lo, hi - lo);
    if (r < 0) r += hi - lo;
    return r + lo;
}
static double circDist(double a, double b)
{
    return std::fabs(std::remainder(a - b, 2 * PI));
}
static void angleSuite(mc::Run& r)
{
    int n = r.thorough ? 120 : 60;
    double a = -10 + 20. * r.choose(n + 1) / n, b = -10 + 20. * r.choose(n + 1) / n;
    std::string in = strf("%.6g and %.6g", a, b);
    r.at("%s", in.c_str());
    float fa = (float)a, fb = (float)b;
    const double T = 1e-5;
    float m2 = MathTools::angleMod2PI(fa), m1 = MathTools::angleModPI(fa), mx = MathTools::angleModX(fa, fb);
    r.check(circDist(m2, a) < T && m2 >= -T && m2 <= 2 * PI + T, "angleMod2PI is wrong", "%g: %g", a, m2);
    r.check(circDist(m1, a) < T && m1 >= -PI - T && m1 <= PI + T, "angleModPI is wrong", "%g: %g", a, m1);
    r.check(circDist(mx, a) < T && mx >= b - PI - T && mx <= b + PI + T, "angleModX is wrong", "%s: %g", in.c_str(), mx);
    float s = H::ShiftAngle0_2PI(fa), hm = H::AngleModPI(fa);
    r.check(circDist(s, a) < T && s >= -T && s <= 2 * PI + T, "ShiftAngle0_2PI is wrong", "%g: %g", a, s);
    r.check(circDist(hm, a) < T && hm >= -PI - T && hm <= PI + T, "Helpers::AngleModPI is wrong", "%g: %g", a, hm);
    float d = MathTools::AngleDelta(fa, fb);
    double want = std::fabs(std::remainder(b - a, 2 * PI));
    r.check(std::fabs(std::fabs(d) - want) < T && circDist(a + d, b) < T, "AngleDelta is not the shortest turn", "%s: %g", in.c_str(), d);
    for (double t : {0., 0.25, 0.5, 1.})
    {
        float l = MathTools::AngleLerp(fa, fb, (float)t);
        r.check(std::fabs(circDist(l, a) - t * want) < T && std::fabs(circDist(l, b) - (1 - t) * want) < T, "AngleLerp is not the shortest turn", "%s at %g: %g", in.c_str(), t, l);
        float ll = MathTools::Lerp(fa, fb, (float)t), hl = H::Lerp(fa, fb, (float)t);
        r.check(std::fabs(ll - (a + t * (b - a))) < T && ll == hl, "Lerp is wrong", "%s at %g: %g and %g", in.c_str(), t, ll, hl);
        if (std::fabs(a - b) > 0.1) r.check(std::fabs(MathTools::ILerp(fa, fb, ll) - t) < 1e-4 && std::fabs(H::ILerp(fa, fb, ll) - t) < 1e-4, "ILerp does not undo Lerp", "%s at %g: %g", in.c_str(), t, MathTools::ILerp(fa, fb, ll));
    }
    r.check(std::fabs(MathTools::rad2deg(fa) - a * 180 / PI) < 1e-3 && std::fabs(MathTools::deg2rad(MathTools::rad2deg(fa)) - a) < T, "rad2deg or deg2rad is wrong", "%g", a);
    r.check(std::fabs(H::rad2deg(fa) - a * 180 / PI) < 1e-3 && std::fabs(H::deg2rad(H::rad2deg(fa)) - a) < T, "Helpers rad2deg or deg2rad is wrong", "%g", a);
    if (b > 0.5)
        for (float lo : {-2.f, 0.f, 1.5f})
        {
            float g = MathTools::fmod(fa, lo, lo + fb);
            double wf = mod(fa, lo, (double)lo + fb), e = std::fabs(g - wf);
            r.check((e < T || std::fabs(e - fb) < T) && g >= lo - T && g <= lo + fb + T, "fmod is wrong", "%g into [%g,%g): %g, expected %g", a, lo, lo + fb, g, wf);
        }
    // index of a sample
    for (int count : {2, 3, 7})
    {
        if (std::fabs(a - b) < 0.2) continue;
        for (double t : {-0.5, 0., 0.2, 0.5, 0.99, 1., 1.3})
        {
            int i = -7;
            float fr = -7, x = (float)(a + t * (b - a));
            H::GetIndex(x, fa, fb, count, i, fr);
            r.check(i >= 0 && i <= count - 2 && std::fabs((i + fr) - t * (count - 1)) < 1e-3, "GetIndex is wrong", "%g in [%g,%g], %d samples: %d + %g", x, a, b, count, i, fr);
        }
    }
    r.compared(12);
    mc::Hash h;
    h.f(m1).f(mx).f(d);
    r.state(h);
    r.outcome(d >= 0 ? "forward" : "backward");
}

int main(int argc, char** argv)
{
    mc::setup(silence);
    mc::suite("roll pitch yaw", rpySuite, 1);
    mc::suite("single rotation", single, 1);
    mc::suite("pairs", pairs, 1);
    mc::suite("vectors", vectors, 1);
    mc::suite("angles", angleSuite, 1);
    return mc::main(argc, argv);
}
