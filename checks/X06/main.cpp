#include "robdesc.h"
#include "robops.h"
#include <VirtualRobot/XML/RobotIO.h>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

static RobotPtr parse(const std::string& x, RobotIO::RobotDescription m = RobotIO::eFull)
{
    RobotPtr r = RobotIO::createRobotFromString(x, "", m);
    if (r) r->applyJointValues();
    return r;
}
// ---------------------------------------------------------------- transformations
struct Elem
{
    std::string name;
    M4 m;
    std::vector<std::pair<std::string, std::string>> notations;
};
static std::string rows(const M4& m, int n, double s = 1)
{
    std::string r;
    for (int i = 0; i < n; i++)
    {
        r += strf("<row%d", i + 1);
        for (int j = 0; j < n; j++) r += strf(" c%d='%.9g'", j + 1, m(i, j) * (i < 3 && j == 3 ? s : 1));
        r += "/>";
    }
    return r;
}
static void addRotation(Elem& e, const M3& R)
{
    M4 m = M4::Identity();
    m.block<3, 3>(0, 0) = R;
    e.notations.push_back({"matrix3x3", "<Matrix3x3>" + rows(m, 3) + "</Matrix3x3>"});
    e.notations.push_back({"matrix4x4", "<Matrix4x4>" + rows(m, 4) + "</Matrix4x4>"});
    // R = Rz(yaw) Ry(pitch) Rx(roll)
    double p = std::atan2(-R(2, 0), std::sqrt(R(0, 0) * R(0, 0) + R(1, 0) * R(1, 0))), r, y;
    if (std::fabs(std::fabs(p) - PI / 2) < 1e-7)
    {
        y = 0;
        r = p > 0 ? std::atan2(R(0, 1), R(1, 1)) : -std::atan2(R(0, 1), R(1, 1));
    }
    else
    {
        r = std::atan2(R(2, 1), R(2, 2));
        y = std::atan2(R(1, 0), R(0, 0));
    }
    e.notations.push_back({"rpy rad", strf("<rollpitchyaw roll='%.9g' pitch='%.9g' yaw='%.9g' units='radian'/>", r, p, y)});
    e.notations.push_back({"rpy deg", strf("<rpy roll='%.9g' pitch='%.9g' yaw='%.9g' unitsAngle='degree'/>", r * 180 / PI, p * 180 / PI, y * 180 / PI)});
    e.notations.push_back({"rpy deg turned", strf("<RPY roll='%.9g' pitch='%.9g' yaw='%.9g' unit='Deg'/>", r * 180 / PI + 360, p * 180 / PI, y * 180 / PI - 360)});
    Eigen::Quaterniond q(R);
    e.notations.push_back({"quaternion", strf("<Quaternion x='%.9g' y='%.9g' z='%.9g' w='%.9g'/>", q.x(), q.y(), q.z(), q.w())});
    e.notations.push_back({"-quaternion", strf("<quat x='%.9g' y='%.9g' z='%.9g' w='%.9g'/>", -q.x(), -q.y(), -q.z(), -q.w())});
}
static std::vector<Elem> elems()
{
    std::vector<Elem> v;
    auto translation = [&](double x, double y, double z) {
        Elem e;
        e.name = strf("translation(%g %g %g)", x, y, z);
        e.m = tr(x, y, z);
        auto t = [&](const char* tag, double s, const char* u) { return strf("<%s x='%.9g' y='%.9g' z='%.9g'%s/>", tag, x * s, y * s, z * s, u); };
        e.notations.push_back({"no unit", t("Translation", 1, "")});
        e.notations.push_back({"mm", t("translation", 1, " units='mm'")});
        e.notations.push_back({"millimeter", t("trans", 1, " unitsLength='Millimeter'")});
        e.notations.push_back({"m", t("Trans", 0.001, " unit='m'")});
        e.notations.push_back({"meter", t("TRANSLATION", 0.001, " UNITSLENGTH='METER'")});
        e.notations.push_back({"matrix4x4 mm", "<matrix4x4 units='mm'>" + rows(e.m, 4) + "</matrix4x4>"});
        e.notations.push_back({"matrix4x4 m", "<Matrix4x4 unitsLength='m'>" + rows(e.m, 4, 0.001) + "</Matrix4x4>"});
        v.push_back(e);
    };
    auto rotation = [&](const char* n, const M3& R) {
        Elem e;
        e.name = std::string("rotation ") + n;
        e.m = M4::Identity();
        e.m.block<3, 3>(0, 0) = R;
        addRotation(e, R);
        v.push_back(e);
        return v.size() - 1;
    };
    translation(12.5, -3, 1100);
    translation(0, 0.25, 0);
    size_t rx = rotation("x 0.7", rot3(V3(1, 0, 0), 0.7));
    v[rx].notations.push_back({"dh alpha", "<DH alpha='0.7'/>"});
    size_t rz = rotation("z -2", rot3(V3(0, 0, 1), -2));
    v[rz].notations.push_back({"dh theta", strf("<DH theta='%.9g' units='degree'/>", -2 * 180 / PI)});
    rotation("oblique", rot3(V3(1, -2, 0.5), 2.3));
    rotation("pitch 90", M3(rot3(V3(0, 1, 0), PI / 2) * rot3(V3(1, 0, 0), 0.4)));
    rotation("pitch -90", M3(rot3(V3(0, 1, 0), -PI / 2) * rot3(V3(1, 0, 0), 1.4)));
    rotation("half turn", rot3(V3(1, 1, 0), PI));
    {
        Elem e;
        e.name = "pose";
        e.m = mk(100, -2000, 3.5, V3(0.2, 1, -1), 1.9);
        e.notations.push_back({"mm", "<Matrix4x4 units='mm'>" + rows(e.m, 4) + "</Matrix4x4>"});
        e.notations.push_back({"no unit", "<MATRIX4X4>" + rows(e.m, 4) + "</MATRIX4X4>"});
        e.notations.push_back({"m", "<matrix4x4 unit='meter'>" + rows(e.m, 4, 0.001) + "</matrix4x4>"});
        v.push_back(e);
    }
    struct
    {
        double th, d, a, al;
    } dhs[] = {{0.3, 100, 50, PI / 2}, {-1.2, 0, 200, -0.4}, {0, 30, 0, 2.5}};
    for (auto& h : dhs)
    {
        Elem e;
        e.name = strf("dh(%g %g %g %g)", h.th, h.d, h.a, h.al);
        e.m = M4(rot(V3(0, 0, 1), h.th) * tr(0, 0, h.d) * tr(h.a, 0, 0) * rot(V3(1, 0, 0), h.al));
        double g = 180 / PI;
        e.notations.push_back({"no unit", strf("<DH theta='%.9g' d='%.9g' a='%.9g' alpha='%.9g'/>", h.th, h.d, h.a, h.al)});
        e.notations.push_back({"rad mm", strf("<dh a='%.9g' d='%.9g' alpha='%.9g' theta='%.9g' unitsLength='mm' unitsAngle='radian'/>", h.a, h.d, h.al, h.th)});
        e.notations.push_back({"deg mm", strf("<DH a='%.9g' d='%.9g' alpha='%.9g' theta='%.9g' unitsAngle='degree' unitsLength='mm'/>", h.a, h.d, h.al * g, h.th * g)});
        e.notations.push_back({"deg m", strf("<DH a='%.9g' d='%.9g' alpha='%.9g' theta='%.9g' units='degree' unitsLength='m'/>", h.a / 1000, h.d / 1000, h.al * g, h.th * g)});
        e.notations.push_back({"rad m", strf("<DH a='%.9g' d='%.9g' alpha='%.9g' theta='%.9g' units='meter'/>", h.a / 1000, h.d / 1000, h.al, h.th)});
        e.notations.push_back({"in parts", strf("<DH theta='%.9g'/><Translation x='0' y='0' z='%.9g'/><DH a='%.9g'/><rpy roll='%.9g' pitch='0' yaw='0' units='radian'/>", h.th, h.d, h.a, h.al)});
        e.notations.push_back({"matrix", "<Matrix4x4 units='mm'>" + rows(e.m, 4) + "</Matrix4x4>"});
        v.push_back(e);
    }
    return v;
}
static std::vector<Elem> E;
static void pose(mc::Run& r, const char* what, const M4& want, const Eigen::Matrix4f& got)
{
    r.compared();
    r.check(dev(want, got, 0.05, 1e-5) <= 1, what, "expected %s, the robot has %s", show(want).c_str(), show(got).c_str());
}
static void transformations(mc::Run& r)
{
    int len = 1 + r.choose(r.thorough ? 3 : 2, "length");
    std::string x, names;
    M4 m = M4::Identity();
    for (int i = 0; i < len; i++)
    {
        const Elem& e = r.pick(E, "element");
        auto& n = r.pick(e.notations, "notation");
        x += n.second;
        names += e.name + " as " + n.first + "; ";
        m = m * e.m;
    }
    std::string doc = "<Robot Type='t' RootNode='a'><RobotNode name='a'><Transform>" + x + "</Transform><Child name='b'/>"
                      "<Sensor type='position' name='s'><Transform>" + x + "</Transform></Sensor><Sensor type='forcetorque' name='ft'><Transform>" + x + "</Transform></Sensor><Sensor type='camera' name='c'><Transform>" + x + "</Transform></Sensor></RobotNode>"
                      "<RobotNode name='b'><Joint type='revolute'/><Transform>" + x + "</Transform><Child name='c'/></RobotNode>"
                      "<RobotNode name='c'><Transform>" + x + "</Transform><Joint type='prismatic'><TranslationDirection x='0' y='2' z='0'/></Joint></RobotNode></Robot>";
    r.step("%s", names.c_str());
    r.state(mc::Hash().s(doc));
    RobotPtr q = parse(doc);
    for (const char* n : {"a", "b", "c"}) pose(r, "transformation of a node", m, q->getRobotNode(n)->getLocalTransformation());
    pose(r, "pose", M4(m * m * m), q->getRobotNode("c")->getGlobalPose());
    r.check(q->getSensors().size() == 3, "sensors", "%zu", q->getSensors().size());
    for (auto& s : q->getSensors()) pose(r, "transformation of a sensor", m, s->getRobotNodeToSensorTransformation());
    r.outcome("equal");
}
// ---------------------------------------------------------------- joints
struct Q   // a quantity and its notations
{
    double v;
    std::vector<std::string> n;
};
static void num(mc::Run& r, const char* what, double want, double got)
{
    r.compared();
    r.check(std::fabs(want - got) <= 2e-6 * (1 + std::fabs(want)), what, "expected %.9g, the robot has %.9g", want, got);
}
static void limits(mc::Run& r)
{
    bool rev = r.flip("prismatic or revolute");
    double g = 180 / PI;
    struct L
    {
        const char *lo, *hi, *u;
        double f;
    };
    double lo, hi;
    std::string x;
    if (rev)
    {
        struct
        {
            double lo, hi;
        } a[] = {{-30, 100}, {0, 360}, {-180, 180}, {10, 20}, {-90, -45}};
        auto& p = a[r.choose(5, "range")];
        int u = r.choose(6, "unit");
        const char* un[] = {"unit='degree'", "units='deg'", "unitsAngle='Degree'", "unit='radian'", "UNITS='RAD'", "unitsAngle='radian'"};
        double s = u < 3 ? 1 : 1 / g;
        lo = p.lo / g;
        hi = p.hi / g;
        int miss = r.choose(4, "missing");
        x = std::string("<Limits ") + un[u];
        if (!(miss & 1)) x += strf(" lo='%.9g'", p.lo * s);
        else
            lo = -PI;
        if (!(miss & 2)) x += strf(" hi='%.9g'", p.hi * s);
        else
            hi = PI;
        int ll = r.choose(7, "limitless");
        const char* lt[] = {"", " limitless='true'", " limitless='1'", " limitless='yes'", " limitless='false'", " limitless='0'", " LIMITLESS='True'"};
        bool want = ll == 1 || ll == 2 || ll == 3 || ll == 6;
        x += std::string(lt[ll]) + "/>";
        if (want && std::fabs(hi - lo - 2 * PI) > 1e-3)
        {
            lo = -PI;
            hi = PI;
        }
        if (r.flip("tag")) x = "<limits" + x.substr(7);
        r.step("%s", x.c_str());
        RobotPtr q = parse("<Robot Type='t' RootNode='a'><RobotNode name='a'><Joint type='revolute'>" + x + "</Joint></RobotNode></Robot>");
        RobotNodePtr n = q->getRobotNode("a");
        num(r, "lower limit", lo, n->getJointLimitLow());
        num(r, "upper limit", hi, n->getJointLimitHigh());
        r.check(n->isLimitless() == want, "limitless", "%d", (int)n->isLimitless());
    }
    else
    {
        struct
        {
            double lo, hi;
        } a[] = {{-50, 120}, {0, 2500}, {10, 20}, {-90, -45}};
        auto& p = a[r.choose(4, "range")];
        int u = r.choose(4, "unit");
        const char* un[] = {"unit='mm'", "unitsLength='millimeter'", "units='m'", "unitsLength='Meter'"};
        double s = u < 2 ? 1 : 0.001;
        int miss = r.choose(4, "missing");
        lo = p.lo;
        hi = p.hi;
        x = std::string("<Limits ") + un[u];
        if (!(miss & 1)) x += strf(" lo='%.9g'", p.lo * s);
        else
            lo = -1000;
        if (!(miss & 2)) x += strf(" hi='%.9g'", p.hi * s);
        else
            hi = 1000;
        x += "/>";
        r.step("%s", x.c_str());
        RobotPtr q = parse("<Robot Type='t' RootNode='a'><RobotNode name='a'><Joint type='prismatic'><TranslationDirection x='1' y='0' z='0'/>" + x + "</Joint></RobotNode></Robot>");
        RobotNodePtr n = q->getRobotNode("a");
        num(r, "lower limit", lo, n->getJointLimitLow());
        num(r, "upper limit", hi, n->getJointLimitHigh());
    }
    r.state(mc::Hash().s(x));
    r.outcome("equal");
}
static void dynamics(mc::Run& r)
{
    bool rev = r.flip("revolute");
    int which = r.choose(3, "quantity");
    const char* tags[] = {"MaxVelocity", "MaxAcceleration", "MaxTorque"};
    double val = 12.5, f = 1;
    std::string u;
    if (which < 2)
    {
        int t = r.choose(4, "time");
        const char* tn[] = {"", " unitsTime='sec'", " unitsTime='min'", " unitsTime='hour'"};
        double tf[] = {1, 1, 60, 3600};
        u += tn[t];
        f /= which == 0 ? tf[t] : tf[t] * tf[t];
    }
    int l = r.choose(4, "length or angle");
    const char *ln[] = {"", " unitsLength='m'", " unitsLength='mm'", " unitsLength='millimeter'"}, *an[] = {"", " unitsAngle='rad'", " unitsAngle='degree'", " unitsAngle='deg'"};
    if (which == 2 || !rev)
    {
        u += ln[l];
        f *= l < 2 ? 1 : 0.001;
    }
    else
    {
        u += an[l];
        f *= l < 2 ? 1 : PI / 180;
    }
    std::string tag = r.flip("upper case") ? tags[which] : strf("%s", which == 0 ? "maxvelocity" : which == 1 ? "MAXACCELERATION" : "maxTorque");
    std::string x = "<" + tag + strf(" value='%g'", val) + u + "/>";
    r.step("%s", x.c_str());
    r.state(mc::Hash().s(x).i(rev));
    RobotPtr q = parse(std::string("<Robot Type='t' RootNode='a'><RobotNode name='a'><Joint type='") + (rev ? "revolute'>" : "prismatic'><TranslationDirection x='1' y='0' z='0'/>") + x + "</Joint></RobotNode></Robot>");
    RobotNodePtr n = q->getRobotNode("a");
    double got[] = {n->getMaxVelocity(), n->getMaxAcceleration(), n->getMaxTorque()};
    num(r, tags[which], val * f, got[which]);
    for (int i = 0; i < 3; i++)
        if (i != which) num(r, "unset dynamics limit", -1, got[i]);
    r.outcome("equal");
}
static void jointDetails(mc::Run& r)
{
    // offset, initial value, axis of any length, default axis, propagation
    int ax = r.choose(4, "axis");
    const char* an[] = {"", "<Axis x='0' y='0' z='1'/>", "<axis x='0' y='0' z='0.01'/>", "<AXIS Z='250' y='0' x='0'/>"};
    int of = r.choose(3, "offset"), in = r.choose(4, "initial");
    double ofs[] = {0, 0.5, -1.25}, ins[] = {0, 0.75, 5, -5};
    std::string x = "<Joint type='Revolute'";
    if (of) x += strf(" offset='%g'", ofs[of]);
    if (in) x += strf(" InitialValue='%g'", ins[in]);
    x += std::string(">") + an[ax] + "<Limits unit='radian' lo='-1' hi='1.5'/>";
    int pr = r.choose(3, "propagation");
    const char* pn[] = {"", "<PropagateJointValue name='b'/>", "<PropagateJointValue name='b' factor='-0.5'/>"};
    double pf[] = {0, 1, -0.5};
    x += std::string(pn[pr]) + "</Joint>";
    std::string doc = "<Robot Type='t' RootNode='a'><RobotNode name='a'>" + x + "<Child name='b'/></RobotNode><RobotNode name='b'><Joint type='prismatic'><translationdirection x='1' y='0' z='0'/><limits lo='-3' hi='0.003' units='m'/></Joint></RobotNode></Robot>";
    if (r.flip("nodes listed the other way round"))
    {
        size_t p = doc.find("<RobotNode name='a'>"), e = doc.find("</RobotNode>") + 12, z = doc.find("</Robot>");
        doc = doc.substr(0, p) + doc.substr(e, z - e) + doc.substr(p, e - p) + "</Robot>";
    }
    r.step("%s", doc.c_str());
    r.state(mc::Hash().s(doc));
    RobotPtr q = parse(doc);
    RobotNodePtr a = q->getRobotNode("a"), b = q->getRobotNode("b");
    double w = std::min(1.5, std::max(-1.0, ins[in]));
    num(r, "initial value", w, a->getJointValue());
    num(r, "offset", ofs[of], a->getJointValueOffset());
    pose(r, "pose at the initial value", rot(V3(0, 0, 1), w + ofs[of]), a->getGlobalPose());
    for (double v : {-0.5, 1.0, 0.25})
    {
        q->setJointValue("a", (float)v);
        double pv = std::min(3.0, std::max(-3000.0, pr ? v * pf[pr] : 0));
        pose(r, "pose", rot(V3(0, 0, 1), v + ofs[of]), a->getGlobalPose());
        num(r, "propagated value", pv, b->getJointValue());
        pose(r, "pose of the child", M4(rot(V3(0, 0, 1), v + ofs[of]) * tr(pv, 0, 0)), b->getGlobalPose());
    }
    r.outcome("equal");
}
// ---------------------------------------------------------------- physics
static void physics(mc::Run& r)
{
    struct
    {
        const char* u;
        double f;
    } mu[] = {{"unit='kg'", 1}, {"units='kilogram'", 1}, {"unitsWeight='g'", 0.001}, {"unit='gram'", 0.001}, {"UNITS='T'", 1000}, {"unitsWeight='ton'", 1000}}, cu[] = {{"", 1}, {" unit='mm'", 1}, {" units='m'", 1000}, {" unitsLength='meter'", 1000}, {" unitsLength='millimeter'", 1}},
      iw[] = {{"", 1}, {" unitsWeight='kg'", 1}, {" unitsWeight='g'", 0.001}, {" unitsWeight='t'", 1000}}, il[] = {{"", 1}, {" unitsLength='m'", 1}, {" unitsLength='mm'", 1e-6}};
    auto& m = mu[r.choose(6, "mass")];
    auto& c = cu[r.choose(5, "com")];
    int comv = r.choose(4, "com location");
    auto& w = iw[r.choose(4, "inertia weight")];
    auto& l = il[r.choose(3, "inertia length")];
    const char* loc[] = {" location='Custom'", "", " location='joint'", " LOCATION='CUSTOM'"};
    int extra = r.choose(4, "extras");
    const char* en[] = {"", "<Friction value='0.25'/>", "<SimulationType value='Static'/><IgnoreCollision name='p'/>", "<simulationtype value='KINEMATIC'/><ignorecollision name='p'/><IgnoreCollision name='q'/><friction value='1.5'/>"};
    std::string x = strf("<Physics><Mass value='2.5' %s/><CoM%s x='1.5' y='-2' z='30'%s/><InertiaMatrix%s%s><row1 c1='1' c2='0.5' c3='0.25'/><row2 c1='0.5' c2='2' c3='0'/><row3 c1='0.25' c2='0' c3='3'/></InertiaMatrix>%s</Physics>", m.u, loc[comv], c.u, w.u, l.u, en[extra]);
    r.step("%s", x.c_str());
    r.state(mc::Hash().s(x));
    RobotPtr q = parse("<Robot Type='t' RootNode='a'><RobotNode name='a'>" + x + "</RobotNode></Robot>");
    RobotNodePtr n = q->getRobotNode("a");
    num(r, "mass", 2.5 * m.f, n->getMass());
    num(r, "com x", 1.5 * c.f, n->getCoMLocal()[0]);
    num(r, "com y", -2 * c.f, n->getCoMLocal()[1]);
    num(r, "com z", 30 * c.f, n->getCoMLocal()[2]);
    double I[3][3] = {{1, 0.5, 0.25}, {0.5, 2, 0}, {0.25, 0, 3}};
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            double want = I[i][j] * w.f * l.f, got = n->getInertiaMatrix()(i, j);
            r.check(std::fabs(want - got) <= 1e-5 * std::fabs(want) + 1e-12, "inertia", "(%d,%d) expected %.9g, the robot has %.9g", i, j, want, got);
        }
    r.compared();
    num(r, "friction", extra == 1 ? 0.25 : extra == 3 ? 1.5 : -1, n->getFriction());
    r.check(n->getSimulationType() == (extra == 2 ? SceneObject::Physics::eStatic : extra == 3 ? SceneObject::Physics::eKinematic : SceneObject::Physics::eUnknown), "simulation type", "%d", (int)n->getSimulationType());
    std::vector<std::string> ig = n->getIgnoredCollisionModels();
    r.check(ig.size() == (extra < 2 ? 0u : extra - 1u) && (ig.empty() || ig[0] == "p"), "ignored collisions", "%zu", ig.size());
    r.outcome("equal");
}
// ---------------------------------------------------------------- configurations
static void preshapes(mc::Run& r)
{
    struct
    {
        const char* u;
        double f;
    } ru[] = {{"unit='radian'", 1}, {"units='rad'", 1}, {"unit='degree'", PI / 180}, {"unitsAngle='Deg'", PI / 180}}, pu[] = {{"unit='mm'", 1}, {"unitsLength='millimeter'", 1}, {"unit='m'", 1000}, {"units='meter'", 1000}};
    auto& a = ru[r.choose(4, "revolute")];
    auto& b = pu[r.choose(4, "prismatic")];
    double va = r.flip("value") ? -0.375 : 1.25, vb = r.flip("value") ? 0.5 : -120;
    std::string x = strf("<Preshape name='p'><Node name='a' value='%.9g' %s/><Node name='b' value='%.9g' %s/></Preshape>", va / a.f, a.u, vb / b.f, b.u);
    r.step("%s", x.c_str());
    r.state(mc::Hash().s(x));
    RobotPtr q = parse("<Robot Type='t' RootNode='a'><RobotNode name='a'><Joint type='revolute'/><Child name='b'/></RobotNode><RobotNode name='b'><Joint type='prismatic'><translationdirection x='1' y='0' z='0'/><limits lo='-3' hi='3' units='m'/></Joint></RobotNode>"
                       "<EndEffector name='e' base='a'><Actor name='f'><Node name='b'/></Actor>" + x + "</EndEffector></Robot>");
    EndEffectorPtr e = q->getEndEffector("e");
    std::map<std::string, float> jv = e->getPreshape("p")->getRobotNodeJointValueMap();
    num(r, "preshape angle", va, jv["a"]);
    num(r, "preshape length", vb, jv["b"]);
    r.check(e->getTcp() == q->getRobotNode("a") && e->getGCP() == q->getRobotNode("a"), "default tool centre point", "%s", e->getTcp() ? e->getTcp()->getName().c_str() : "none");
    r.outcome("equal");
}
// ---------------------------------------------------------------- refusals
static const char* FULL =
    "<Robot Type='full' RootNode='base'>\n"
    "<RobotNode name='base'><Transform><Translation x='1' y='2' z='3' units='mm'/><rollpitchyaw roll='0.1' pitch='0.2' yaw='0.3' units='radian'/><Quaternion x='0' y='0' z='0' w='1'/></Transform>"
    "<Physics><Mass value='1.5' unit='kg'/><CoM location='custom' x='1' y='2' z='3' unit='mm'/><InertiaMatrix unitsWeight='kg' unitsLength='m'><row1 c1='1' c2='0' c3='0'/><row2 c1='0' c2='2' c3='0'/><row3 c1='0' c2='0' c3='3'/></InertiaMatrix><Friction value='0.5'/><IgnoreCollision name='x'/></Physics>"
    "<Child name='j1'/></RobotNode>\n"
    "<RobotNode name='j1'><Transform><DH a='10' d='20' alpha='30' theta='40' unitsLength='mm' unitsAngle='degree'/></Transform><Joint type='revolute' offset='0.1' initialvalue='0.2'><Axis x='0' y='1' z='0'/><Limits unit='degree' lo='-90' hi='100'/><MaxVelocity value='1' unitsAngle='degree' unitsTime='min'/><MaxAcceleration value='2' unitsAngle='rad' unitsTime='sec'/><MaxTorque value='3' unitsLength='m'/><PropagateJointValue name='j2' factor='2'/></Joint>"
    "<Sensor type='position' name='s'><Transform><Matrix4x4 units='mm'><row1 c1='1' c2='0' c3='0' c4='7'/><row2 c1='0' c2='1' c3='0' c4='8'/><row3 c1='0' c2='0' c3='1' c4='9'/><row4 c1='0' c2='0' c3='0' c4='1'/></Matrix4x4></Transform></Sensor>"
    "<Child name='j2'/></RobotNode>\n"
    "<RobotNode name='j2'><Joint type='prismatic'><TranslationDirection x='1' y='0' z='0'/><Limits unit='mm' lo='-5' hi='50'/></Joint><Child name='tip'/></RobotNode>\n"
    "<RobotNode name='tip'/>\n"
    "<RobotNodeSet name='arm' kinematicRoot='base' tcp='tip'><Node name='j1'/><Node name='j2'/></RobotNodeSet>\n"
    "<EndEffector name='hand' base='j1' tcp='tip' gcp='j2'><Preshape name='open'><Node name='j2' unit='mm' value='3'/></Preshape><Static><Node name='base'/></Static><Actor name='f'><Node name='j2' considerCollisions='All' direction='-1'/></Actor></EndEffector>\n"
    "</Robot>\n";
struct Attr
{
    std::string tag, name, value, kind;
    size_t at, len; // of the value
};
static std::vector<Attr> A;
static void findAttrs()
{
    std::string s = FULL, tag;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == '<' && s[i + 1] != '/')
        {
            size_t e = s.find_first_of(" />", i + 1);
            tag = s.substr(i + 1, e - i - 1);
        }
        if (s[i] == '=')
        {
            size_t b = s.find_last_of(" <", i) + 1, e = s.find('\'', i + 2);
            Attr a = {tag, s.substr(b, i - b), s.substr(i + 2, e - i - 2), "", i + 2, e - i - 2};
            if (a.name.compare(0, 4, "unit") == 0) a.kind = "unit";
            else if (a.name.size() && (isdigit(a.value[0]) || a.value[0] == '-')) a.kind = "number";
            else if ((a.name == "name" && (tag == "Node" || tag == "Child")) || a.name == "RootNode" || a.name == "kinematicRoot" || a.name == "base" || a.name == "tcp" || a.name == "gcp") a.kind = a.value == "j2" && s.rfind("<Preshape", i) != std::string::npos && s.rfind("</Preshape", i) == std::string::npos ? "" : "reference";
            else if (a.name == "location" || a.name == "considerCollisions" || (tag == "Joint" && a.name == "type")) a.kind = "keyword";
            A.push_back(a);
            i = e;
        }
    }
}
static bool refused(mc::Run& r, const std::string& doc, RobotPtr& q)
{
    r.state(mc::Hash().s(doc));
    r.compared();
    try
    {
        q = parse(doc);
    }
    catch (VirtualRobotException& e)
    {
        return true;
    }
    return !q;
}
static void unusable(mc::Run& r)
{
    const Attr& a = r.pick(A, "attribute");
    std::vector<std::string> bad;
    if (a.kind == "number") bad = {"", " ", "abc", "1.5x", "--1", "1,5", "0x", "1 2", "e5", "."};
    else if (a.kind == "unit")
    {
        bad = {"", "furlong", "unit", "mmm", "radians!"};
        // a unit of another dimension
        static const std::map<std::string, std::string> other = {{"mm", "kg"}, {"m", "degree"}, {"kg", "sec"}, {"radian", "mm"}, {"degree", "g"}};
        bool single = a.tag == "Translation" || a.tag == "rollpitchyaw" || a.tag == "Mass" || a.tag == "CoM" || a.tag == "Matrix4x4";
        if (single) bad.push_back(other.at(a.value));
    }
    else if (a.kind == "reference") bad = {"nosuchnode", "j1x", "J", "tip "};
    else if (a.kind == "keyword") bad = {"nonsense", "rev", "al"};
    else
        r.prune();
    const std::string& b = r.pick(bad, "content");
    std::string doc = std::string(FULL).replace(a.at, a.len, b);
    r.step("<%s %s='%s'> instead of '%s'", a.tag.c_str(), a.name.c_str(), b.c_str(), a.value.c_str());
    RobotPtr q;
    r.check(refused(r, doc, q), "accepted: " + a.kind + " of " + a.tag + " " + a.name, "<%s %s='%s'> is accepted", a.tag.c_str(), a.name.c_str(), b.c_str());
    r.outcome("refused");
}
static void truncated(mc::Run& r)
{
    std::string full = FULL;
    size_t end = full.rfind('>');
    int n = r.choose((int)end, "length");
    r.step("only the first %d characters", n);
    RobotPtr q;
    r.check(refused(r, full.substr(0, n), q), "truncated description accepted", "the first %d of %zu characters give a robot", n, full.size());
    r.outcome("refused");
}
static std::string cut(const std::string& s, const std::string& what, const std::string& with)
{
    size_t p = s.find(what);
    if (p == std::string::npos) throw std::runtime_error("fixture: " + what);
    return std::string(s).replace(p, what.size(), with);
}
static void structure(mc::Run& r)
{
    struct
    {
        const char *what, *a, *b;
    } c[] = {
        {"two nodes of one name", "<RobotNode name='tip'/>", "<RobotNode name='tip'/><RobotNode name='tip'/>"},
        {"two joints in a node", "<Joint type='prismatic'>", "<Joint type='revolute'/><Joint type='prismatic'>"},
        {"two physics in a node", "<Physics>", "<Physics><Mass value='1' unit='kg'/></Physics><Physics>"},
        {"two limits", "<Limits unit='mm'", "<Limits unit='mm' lo='1' hi='2'/><Limits unit='mm'"},
        {"two axes", "<Axis ", "<Axis x='1' y='0' z='0'/><Axis "},
        {"two directions", "<TranslationDirection ", "<TranslationDirection x='1' y='0' z='0'/><TranslationDirection "},
        {"a node without parent", "<Child name='tip'/>", ""},
        {"a node with two parents", "<Child name='j1'/>", "<Child name='j1'/><Child name='tip'/>"},
        {"a circle", "<RobotNode name='tip'/>", "<RobotNode name='tip'><Child name='j1'/></RobotNode>"},
        {"prismatic joint without direction", "<TranslationDirection x='1' y='0' z='0'/>", ""},
        {"no root", " RootNode='base'", ""},
        {"missing axis component", "<Axis x='0' y='1' z='0'/>", "<Axis x='0' z='0'/>"},
        {"missing mass value", "<Mass value='1.5'", "<Mass "},
        {"missing translation component", "<Translation x='1' y='2' z='3'", "<Translation x='1' y='2'"},
        {"missing angle", " yaw='0.3'", ""},
        {"missing angle unit", " yaw='0.3' units='radian'", " yaw='0.3'"},
        {"missing matrix entry", "<row3 c1='0' c2='0' c3='1' c4='9'/>", "<row3 c1='0' c2='0' c4='9'/>"},
        {"unknown element in the robot", "<RobotNode name='tip'/>", "<RobotNode name='tip'/><Nonsense/>"},
        {"unknown element in a node", "<RobotNode name='tip'/>", "<RobotNode name='tip'><Nonsense/></RobotNode>"},
        {"unknown element in a joint", "<Axis ", "<Nonsense/><Axis "},
        {"unknown element in an end effector", "<Static>", "<Nonsense/><Static>"},
        {"deprecated joint transformation", "<Axis ", "<PreJointTransform/><Axis "},
        {"node without a name in a set", "<Node name='j1'/>", "<Node/>"},
        {"limits without unit", "<Limits unit='mm'", "<Limits "},
    };
    auto& x = c[r.choose(sizeof c / sizeof *c, "structure")];
    r.step("%s", x.what);
    RobotPtr q;
    r.check(refused(r, cut(FULL, x.a, x.b), q), std::string("accepted: ") + x.what, "the description is accepted");
    r.outcome("refused");
}
static void letterCase(mc::Run& r)
{
    int how = r.choose(6, "tags"), ha = r.choose(4, "attributes");
    std::string s = FULL, o;
    int n = 0;
    auto conv = [&](std::string w, int h) {
        int k = 0;
        for (char& ch : w)
        {
            if (h == 1 || (h == 3 && (k + n) % 2)) ch = (char)toupper(ch);
            if (h == 2 || (h == 3 && !((k + n) % 2))) ch = (char)tolower(ch);
            k++;
        }
        n++;
        return w;
    };
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] == '<')
        {
            size_t b = i + 1 + (s[i + 1] == '/'), e = s.find_first_of(" />", b);
            std::string t = s.substr(b, e - b);
            n = (int)t.size();          // opening and closing tag alike
            o += s.substr(i, b - i) + conv(t, how % 4);
            i = e;
        }
        else if (s[i] == '=')
        {
            size_t b = o.find_last_of(" ") + 1, e = s.find('\'', i + 2);
            std::string an = o.substr(b);
            o = o.substr(0, b) + conv(an, ha);
            o += s.substr(i, e - i + 1);
            i = e + 1;
        }
        else
        {
            if (how == 4 && s[i] == ' ') o += "\n\t ";
            if (how == 5 && s[i] == '\n') o += "<!-- note <Robot> -->";
            o += s[i++];
        }
    }
    r.step("tags %d, attributes %d", how, ha);
    r.state(mc::Hash().s(o));
    DescOpt d;
    d.meshes = false;
    d.names = false;
    RobotIO::RobotDescription modes[] = {RobotIO::eFull, RobotIO::eCollisionModel, RobotIO::eStructure};
    RobotPtr a = parse(FULL), b = parse(o, modes[r.choose(3, "mode")]);
    std::string e = differ(describe(a, d), describe(b, d));
    r.compared();
    r.check(e.empty(), "spelling matters", "%s", e.c_str());
    r.outcome("equal");
}

int main(int argc, char** argv)
{
    silence();
    mc::setup([] {
        E = elems();
        findAttrs();
    });
    mc::suite("transformations", transformations, 3);
    mc::suite("limits", limits, 3);
    mc::suite("dynamics limits", dynamics);
    mc::suite("joint details", jointDetails);
    mc::suite("physics", physics, 3);
    mc::suite("preshapes", preshapes);
    mc::suite("unusable content", unusable);
    mc::suite("truncated", truncated, 1);
    mc::suite("structure", structure, 1);
    mc::suite("spelling", letterCase);
    return mc::main(argc, argv);
}
