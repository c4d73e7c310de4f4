#include "simox.h"
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Workspace/WorkspaceDataArray.h>
#include <VirtualRobot/Workspace/WorkspaceRepresentation.h>
#include <array>
#include <memory>
using namespace VirtualRobot;
using namespace sx;
typedef std::array<unsigned, 6> Vx;

struct Model
{
    Vx n;
    std::map<Vx, int> v; // only values above zero
    int hist = 0;        // largest value ever stored, adapted by bisecting and binarising
    int minValid = 1;
    bool counted = true, adjust = true;
    std::vector<Vx> all() const
    {
        std::vector<Vx> r;
        Vx x = {};
        for (;;)
        {
            r.push_back(x);
            int i = 0;
            while (i < 6 && ++x[i] == n[i]) x[i++] = 0;
            if (i == 6) break;
        }
        return r;
    }
    int get(const Vx& x) const
    {
        auto i = v.find(x);
        return i == v.end() ? 0 : i->second;
    }
    void set(const Vx& x, int e)
    {
        if (e) v[x] = e;
        else v.erase(x);
        hist = std::max(hist, e);
    }
    void inc(const Vx& x)
    {
        int e = get(x);
        if (e < 255) set(x, e + 1);
        else if (adjust) bisect();
    }
    void bisect()
    {
        for (auto& x : v)
            if (x.second > minValid) x.second = std::max(minValid, x.second / 2);
        if (hist > minValid) hist = std::max(minValid, hist / 2);
    }
    void binarize()
    {
        for (auto& x : v) x.second = std::min(x.second, minValid);
        hist = std::min(hist, minValid);
    }
    void neighbors(const Vx& c, int e, int d)
    {
        set(c, e);
        if (!d) return;
        for (auto& x : all())
        {
            bool near = true;
            for (int i = 0; i < 6; i++) near = near && std::abs((int)x[i] - (int)c[i]) <= d;
            if (near && get(x) < e) set(x, e);
        }
    }
    void clear()
    {
        v.clear();
        hist = 0;
        counted = true;
    }
    int max() const
    {
        int m = 0;
        for (auto& x : v) m = std::max(m, x.second);
        return m;
    }
    int sum(unsigned a, unsigned b, unsigned c) const
    {
        int s = 0;
        for (auto& x : v)
            if (x.first[0] == a && x.first[1] == b && x.first[2] == c) s += x.second;
        return s;
    }
    uint64_t hash() const
    {
        mc::Hash h;
        for (auto& x : v)
        {
            for (unsigned i : x.first) h.i(i);
            h.i(x.second);
        }
        return h.i(hist);
    }
};
static std::string show(const Vx& x)
{
    return mc::strf("[%u %u %u %u %u %u]", x[0], x[1], x[2], x[3], x[4], x[5]);
}
static void counters(mc::Run& r, const Model& m, WorkspaceData& d, const char* when)
{
    int mx = d.getMaxEntry();
    r.check(mx == m.max() || mx == m.hist, "maximum entry", "%s: %d, the largest value is %d (was %d)", when, mx, m.max(), m.hist);
    if (m.counted) r.check(d.getVoxelFilledCount() == m.v.size(), "filled voxels", "%s: %u, expected %d", when, d.getVoxelFilledCount(), (int)m.v.size());
}
static void observe(mc::Run& r, const Model& m, WorkspaceDataArray& d, const char* when)
{
    r.compared();
    WorkspaceData& b = d;
    for (auto& x : m.all())
    {
        unsigned y[6];
        std::copy(x.begin(), x.end(), y);
        int want = m.get(x);
        r.check(b.get(y) == want && b.get(x[0], x[1], x[2], x[3], x[4], x[5]) == want, "voxel value", "%s: %s holds %d/%d, expected %d", when, show(x).c_str(), b.get(y), b.get(x[0], x[1], x[2], x[3], x[4], x[5]), want);
        if (want) r.check(d.hasEntry(x[0], x[1], x[2]), "hasEntry", "%s: %s", when, show(x).c_str());
    }
    r.check(!d.hasEntry(m.n[0], 0, 0) && !d.hasEntry(0, m.n[1], 0) && !d.hasEntry(0, 0, m.n[2]), "hasEntry outside", "%s", when);
    counters(r, m, d, when);
    int best = 0;
    for (unsigned a = 0; a < m.n[0]; a++)
        for (unsigned bb = 0; bb < m.n[1]; bb++)
            for (unsigned c = 0; c < m.n[2]; c++) best = std::max(best, m.sum(a, bb, c));
    int got = d.getMaxSummedAngleReachablity();
    r.check(got == best, "largest angle sum", "%s: %d, expected %d", when, got, best);
    r.state(m.hash());
}
static void array(mc::Run& r)
{
    int k = r.choose(3, "size");
    Model m;
    m.n = k == 0 ? Vx{{2, 3, 2, 2, 1, 3}} : k == 1 ? Vx{{1, 1, 1, 2, 2, 2}} : Vx{{2, 1, 1, 1, 1, 1}};
    m.adjust = true;
    std::unique_ptr<WorkspaceDataArray> d(new WorkspaceDataArray(m.n[0], m.n[1], m.n[2], m.n[3], m.n[4], m.n[5], m.adjust));
    std::unique_ptr<WorkspaceDataArray> other;
    Model om;
    for (int i = 0; i < 6; i++) r.check(d->getSize(i) == m.n[i], "size", "dimension %d", i);
    r.check(d->getSizeTr() == m.n[0] * m.n[1] * m.n[2] && d->getSizeRot() == m.n[3] * m.n[4] * m.n[5], "size", "products");
    std::vector<Vx> pos;
    std::vector<Vx> all = m.all();
    for (size_t i = 0; i < all.size(); i += std::max<size_t>(1, (all.size() - 1) / 3)) pos.push_back(all[i]);
    int np = (int)pos.size(), depth = r.thorough ? 4 : 3;
    static const int VAL[] = {1, 0, 3, 255};
    observe(r, m, *d, "new");
    for (int s = 0; s < depth; s++)
    {
        int o = r.choose(np * 4 + np * 2 + 2 + 7, "op");
        if (o < np * 4)
        {
            Vx x = pos[o / 4];
            int e = VAL[o % 4];
            unsigned y[6];
            std::copy(x.begin(), x.end(), y);
            r.step("set %s to %d", show(x).c_str(), e);
            WorkspaceData& b = *d;
            if (s % 2) b.setDatum(y, (unsigned char)e);
            else b.setDatum(x[0], x[1], x[2], x[3], x[4], x[5], (unsigned char)e);
            m.set(x, e);
        }
        else if (o < np * 6)
        {
            o -= np * 4;
            Vx x = pos[o / 2];
            int e = 2 + 30 * (o % 2), dist = 1 + o % 2;
            unsigned y[6];
            std::copy(x.begin(), x.end(), y);
            r.step("set %s and neighbours within %d to %d", show(x).c_str(), dist, e);
            d->setDatumCheckNeighbors(y, (unsigned char)e, dist);
            m.neighbors(x, e, dist);
        }
        else
        {
            o -= np * 6;
            if (o < 2)
            {
                const Vx& x = o ? pos.back() : pos[0];
                std::vector<unsigned char> blk(d->getSizeRot());
                for (size_t i = 0; i < blk.size(); i++) blk[i] = (unsigned char)(i * 37 % 5);
                r.step("store the block of %s", show(x).c_str());
                d->setDataRot(blk.data(), x[0], x[1], x[2]);
                size_t i = 0;
                int h = m.hist;
                for (unsigned a = 0; a < m.n[3]; a++)
                    for (unsigned b = 0; b < m.n[4]; b++)
                        for (unsigned c = 0; c < m.n[5]; c++) m.set(Vx{{x[0], x[1], x[2], a, b, c}}, blk[i++]);
                m.hist = h;
                m.counted = false; // blocks are stored together with their counters (see load)
                d->setMaxEntry((unsigned char)std::max(m.max(), h));
                m.hist = std::max(m.max(), h);
                const unsigned char* q = d->getDataRot(x[0], x[1], x[2]);
                r.check(!memcmp(q, blk.data(), blk.size()), "block", "%s", show(x).c_str());
            }
            else if (o == 2) r.step("clear"), d->clear(), m.clear();
            else if (o == 3) r.step("binarize"), d->binarize(), m.binarize();
            else if (o == 4) r.step("bisect"), d->bisectData(), m.bisect();
            else if (o == 5)
            {
                r.step("minimum valid value 2");
                d->setMinValidValue(2);
                m.minValid = 2;
            }
            else if (o == 6 || o == 7)
            {
                r.step("clone, go on with the %s", o == 6 ? "clone" : "original");
                std::unique_ptr<WorkspaceDataArray> c(dynamic_cast<WorkspaceDataArray*>(d->clone()));
                r.check((bool)c, "clone", "type");
                om = m;
                other = std::move(c);
                if (o == 6) std::swap(d, other);
            }
            else
            {
                const unsigned char* q = d->getDataRot(pos[0][0], pos[0][1], pos[0][2]);
                size_t i = 0;
                r.step("read a block");
                for (unsigned a = 0; a < m.n[3]; a++)
                    for (unsigned b = 0; b < m.n[4]; b++)
                        for (unsigned c = 0; c < m.n[5]; c++) r.check(q[i++] == m.get(Vx{{pos[0][0], pos[0][1], pos[0][2], a, b, c}}), "block read", "entry %d", (int)i - 1);
            }
        }
        observe(r, m, *d, "after an operation");
    }
    if (other) observe(r, om, *other, "the other copy");
    r.outcome(mc::strf("%d filled", (int)m.v.size()));
}

// ------------------------------------------------------------ the representation: poses instead of indices
struct Space
{
    float lo[6], hi[6], dt, dr;
    WorkspaceRepresentation::eOrientationType type;
    Vx n;
    // a pose inside voxel x, at fraction f of it in every dimension
    M4 pose(const Vx& x, double f) const
    {
        double q[6];
        for (int i = 0; i < 6; i++) q[i] = lo[i] + (x[i] + f) * ((double)hi[i] - lo[i]) / n[i];
        M4 m = tr(q[0], q[1], q[2]);
        const V3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
        if (type == WorkspaceRepresentation::RPY) m.block<3, 3>(0, 0) = rot3(Z, q[5]) * rot3(Y, q[4]) * rot3(X, q[3]);
        else if (type == WorkspaceRepresentation::EulerXYZ) m.block<3, 3>(0, 0) = rot3(X, q[3]) * rot3(Y, q[4]) * rot3(Z, q[5]);
        else if (type == WorkspaceRepresentation::EulerXYZExtrinsic) m.block<3, 3>(0, 0) = rot3(X, q[5]) * rot3(Y, q[4]) * rot3(Z, q[3]);
        else
        {
            double a = q[3], b = q[4], c = q[5];
            double x_ = std::cos((a + b) / 2) * std::sin(c), y_ = std::sin((a + b) / 2) * std::sin(c), w = std::cos((b - a) / 2) * std::cos(c), z = std::sin((b - a) / 2) * std::cos(c);
            m.block<3, 3>(0, 0) << 1 - 2 * (y_ * y_ + z * z), 2 * (x_ * y_ - z * w), 2 * (x_ * z + y_ * w), 2 * (x_ * y_ + z * w), 1 - 2 * (x_ * x_ + z * z), 2 * (y_ * z - x_ * w), 2 * (x_ * z - y_ * w), 2 * (y_ * z + x_ * w), 1 - 2 * (x_ * x_ + y_ * y_);
        }
        return m;
    }
};
static Space mkspace(int k)
{
    static const WorkspaceRepresentation::eOrientationType T[4] = {WorkspaceRepresentation::RPY, WorkspaceRepresentation::EulerXYZ, WorkspaceRepresentation::EulerXYZExtrinsic, WorkspaceRepresentation::Hopf};
    const float P = (float)PI;
    static const float R[4][6] = {{-P, -P / 2, -P, P, P / 2, P}, {0, -P / 2, -P, P, P / 2, P}, {-P, -P / 2, 0, P, P / 2, P}, {0, 0, 0, 2 * P, 2 * P, P / 2}};
    Space s;
    s.type = T[k];
    static const float L[6] = {-200, -100, 0, 200, 200, 400};
    for (int i = 0; i < 3; i++)
    {
        s.lo[i] = L[i];
        s.hi[i] = L[i + 3];
        s.lo[i + 3] = R[k][i];
        s.hi[i + 3] = R[k][i + 3];
    }
    s.dt = 130;
    s.dr = 2.2f;
    for (int i = 0; i < 6; i++) s.n[i] = (unsigned)((s.hi[i] - s.lo[i]) / (i < 3 ? s.dt : s.dr)) + 1;
    return s;
}
struct Rep
{
    RobotPtr rob;
    RobotNodeSetPtr set;
    Space s;
    Kin kin;
    bool based;
    explicit Rep(const Tree& t) : kin(t) {}
    M4 base() const
    {
        return based ? kin.poses()[0] : M4(M4::Identity());
    }
};
static Tree arm()
{
    Tree t;
    t.name = "arm";
    t.n = {F("base", -1, mk(50, 20, 10, V3(0, 0, 1), 0.4)), R("j1", 0, tr(0, 0, 100), V3(0, 0, 1), -3, 3), R("j2", 1, tr(120, 0, 30), V3(1, 0, 0), -1.2, 1.2), F("tip", 2, tr(0, 40, 60))};
    return t;
}
static void look(mc::Run& r, Rep& w, const Model& m, WorkspaceRepresentation& ws, const char* when, bool full)
{
    r.compared();
    M4 B = w.base();
    std::vector<Vx> all = m.all();
    for (size_t k = 0; k < all.size(); k++)
    {
        const Vx& x = all[k];
        int want = m.get(x);
        r.check(ws.getVoxelEntry(x[0], x[1], x[2], x[3], x[4], x[5]) == want, "voxel entry", "%s: %s", when, show(x).c_str());
        unsigned y[6];
        std::copy(x.begin(), x.end(), y);
        r.check(ws.isCovered(y) == (want > 0), "isCovered(voxel)", "%s: %s", when, show(x).c_str());
        if (want) r.check(ws.hasEntry(x[0], x[1], x[2]), "hasEntry", "%s: %s", when, show(x).c_str());
        if (!full && k % 3 && !want) continue;
        for (double f : {0.5, 0.06, 0.94})
        {
            if (!full && f != 0.5) continue;
            Eigen::Matrix4f p = sx::f(M4(B * w.s.pose(x, f)));
            unsigned g[6] = {99, 99, 99, 99, 99, 99};
            bool ok = ws.getVoxelFromPose(p, g);
            r.check(ok && std::equal(g, g + 6, x.begin()), "pose to voxel", "%s: pose in %s is found in [%u %u %u %u %u %u] (%d)", when, show(x).c_str(), g[0], g[1], g[2], g[3], g[4], g[5], ok);
            r.check(ws.getEntry(p) == want && ws.isCovered(p) == (want > 0), "entry of a pose", "%s: in %s: %d, expected %d", when, show(x).c_str(), ws.getEntry(p), want);
            unsigned g3[3] = {99, 99, 99};
            r.check(ws.getVoxelFromPosition(p, g3) && std::equal(g3, g3 + 3, x.begin()), "position to voxel", "%s: %s", when, show(x).c_str());
            if (f == 0.5)
            {
                Eigen::Matrix4f c = ws.getPoseFromVoxel(y);
                r.check(dev(B * w.s.pose(x, f), c, 0.05, 2e-4) <= 1, "voxel to pose", "%s: %s is %s expected %s", when, show(x).c_str(), sx::show(c).c_str(), sx::show(M4(B * w.s.pose(x, f))).c_str());
            }
        }
    }
    // outside
    for (int i = 0; i < 3; i++)
        for (int up = 0; up < 2; up++)
        {
            M4 c = w.s.pose(all[all.size() / 2], 0.5);
            double vs = (w.s.hi[i] - w.s.lo[i]) / m.n[i];
            c(i, 3) = up ? w.s.hi[i] + 1.7 * vs : w.s.lo[i] - 1.7 * vs;
            Eigen::Matrix4f p = sx::f(M4(B * c));
            unsigned g[6];
            r.check(!ws.getVoxelFromPose(p, g) && !ws.getVoxelFromPosition(p, g) && ws.getEntry(p) == 0 && !ws.isCovered(p), "pose outside", "%s: dimension %d", when, i);
            r.check(ws.getMaxEntry(Eigen::Vector3f(p.block<3, 1>(0, 3))) == 0, "position outside", "%s: dimension %d", when, i);
        }
    int best = 0, filled = 0, border = 0;
    for (unsigned a = 0; a < m.n[0]; a++)
        for (unsigned b = 0; b < m.n[1]; b++)
            for (unsigned c = 0; c < m.n[2]; c++)
            {
                int s = m.sum(a, b, c), mx = 0;
                best = std::max(best, s);
                for (auto& x : m.v)
                    if (x.first[0] == a && x.first[1] == b && x.first[2] == c) mx = std::max(mx, x.second);
                r.check(ws.sumAngleReachabilities(a, b, c) == s, "angle sum", "%s: (%u %u %u) %d, expected %d", when, a, b, c, ws.sumAngleReachabilities(a, b, c), s);
                r.check(ws.avgAngleReachabilities(a, b, c) == s / (int)(m.n[3] * m.n[4] * m.n[5]), "angle average", "%s: (%u %u %u)", when, a, b, c);
                r.check(ws.getMaxEntry((int)a, (int)b, (int)c) == mx, "largest entry of a position", "%s: (%u %u %u)", when, a, b, c);
                Eigen::Matrix4f p = sx::f(M4(B * w.s.pose(Vx{{a, b, c, 0, 0, 0}}, 0.3)));
                r.check(ws.getMaxEntry(Eigen::Vector3f(p.block<3, 1>(0, 3))) == mx, "largest entry at a position", "%s: (%u %u %u)", when, a, b, c);
                if (!s) continue;
                filled++;
                bool edge = !a || !b || !c || a == m.n[0] - 1 || b == m.n[1] - 1 || c == m.n[2] - 1;
                border += edge || !m.sum(a - 1, b, c) || !m.sum(a + 1, b, c) || !m.sum(a, b - 1, c) || !m.sum(a, b + 1, c) || !m.sum(a, b, c - 1) || !m.sum(a, b, c + 1);
            }
    r.check(ws.getMaxSummedAngleReachablity() == best, "largest angle sum", "%s: %d, expected %d", when, ws.getMaxSummedAngleReachablity(), best);
    r.check(ws.getMaxEntry() == m.max() || ws.getMaxEntry() == m.hist, "maximum entry", "%s: %d", when, ws.getMaxEntry());
    WorkspaceRepresentation::VolumeInfo vi = ws.computeVolumeInformation();
    r.check((int)vi.filledVoxelCount3D == filled && (int)vi.borderVoxelCount3D == border && vi.voxelCount3D == m.n[0] * m.n[1] * m.n[2], "volume", "%s: %u filled %u border, expected %d %d", when, vi.filledVoxelCount3D, vi.borderVoxelCount3D, filled, border);
    counters(r, m, *ws.getData(), when);
    r.state(m.hash());
}
static void representation(mc::Run& r, bool moved)
{
    int sp = r.choose(4, "orientation");
    Tree t = arm();
    Rep w(t);
    w.s = mkspace(sp);
    w.rob = build(t);
    std::vector<std::string> names = {"j1", "j2"};
    w.set = RobotNodeSet::createRobotNodeSet(w.rob, "set", names, "base", "tip", true);
    w.based = r.flip("base node");
    boost::shared_ptr<WorkspaceRepresentation> ws(new Reachability(w.rob)), other;
    ws->setOrientationType(w.s.type);
    bool adjust = true;
    ws->initialize(w.set, w.s.dt, w.s.dr, w.s.lo, w.s.hi, SceneObjectSetPtr(), SceneObjectSetPtr(), w.based ? w.rob->getRobotNode("base") : RobotNodePtr(), RobotNodePtr(), adjust);
    Model m, om;
    m.n = w.s.n;
    for (int i = 0; i < 6; i++)
    {
        r.check((unsigned)ws->getNumVoxels(i) == m.n[i] && ws->getMinBound(i) == w.s.lo[i] && ws->getMaxBound(i) == w.s.hi[i], "extents", "dimension %d: %d voxels", i, ws->getNumVoxels(i));
        r.check(std::fabs(ws->getVoxelSize(i) - (w.s.hi[i] - w.s.lo[i]) / m.n[i]) < 1e-3, "voxel size", "dimension %d", i);
    }
    r.check(ws->getTCP()->getName() == "tip" && ws->getNodeSet() == w.set && (w.based ? (bool)ws->getBaseNode() : !ws->getBaseNode()), "parameters", "tcp %s", ws->getTCP()->getName().c_str());
    std::vector<Vx> all = m.all();
    std::vector<Vx> pos = {all[0], all[all.size() / 2 + 1], all[all.size() / 3], all.back()};
    int depth = r.choose(r.thorough ? 5 : 4, "operations");
    if (!depth) look(r, w, m, *ws, "new", true);
    for (int d = 0; d < depth; d++)
    {
        int o = r.choose(moved ? 20 : 15, "op");
        if (o < 4)
        {
            r.step("setEntry in %s", show(pos[o]).c_str());
            ws->setEntry(f(M4(w.base() * w.s.pose(pos[o], 0.4))), (unsigned char)(3 + 50 * d));
            m.set(pos[o], 3 + 50 * d);
        }
        else if (o < 8)
        {
            r.step("addPose in %s", show(pos[o - 4]).c_str());
            ws->addPose(f(M4(w.base() * w.s.pose(pos[o - 4], 0.6))));
            m.inc(pos[o - 4]);
        }
        else if (o < 10)
        {
            r.step("setEntryCheckNeighbors in %s", show(pos[o - 8]).c_str());
            ws->setEntryCheckNeighbors(f(M4(w.base() * w.s.pose(pos[o - 8], 0.3))), 20, 1);
            m.neighbors(pos[o - 8], 20, 1);
        }
        else if (o == 10)
        {
            unsigned y[6];
            std::copy(pos[2].begin(), pos[2].end(), y);
            r.step("setVoxelEntry");
            ws->setVoxelEntry(y, 255);
            m.set(pos[2], 255);
        }
        else if (o == 11) r.step("binarize"), ws->binarize(), m.binarize();
        else if (o == 12) r.step("clear"), ws->clear(), m.clear();
        else if (o == 13 || o == 14)
        {
            r.step("clone, go on with the %s", o == 13 ? "clone" : "original");
            other = ws->clone();
            om = m;
            if (o == 13) std::swap(other, ws);
        }
        else if (o < 17)
        {
            M4 b = o == 15 ? mk(300, -50, 20, V3(0, 0, 1), 1) : mk(-10, 500, 3, V3(1, 1, 0), -0.6);
            r.step("move the robot");
            w.rob->setGlobalPose(f(b));
            w.kin.base = b;
        }
        else
        {
            // the pose the robot's tool has
            Vx x;
            std::vector<float> jv(2);
            M4 tip, loc;
            double v[6];
            jv[0] = o == 18 ? 0.8f : -1.1f;
            jv[1] = 0.35f;
            w.set->setJointValues(jv);
            w.kin.q[1] = jv[0];
            w.kin.q[2] = jv[1];
            tip = w.kin.poses()[3];
            loc = inv(w.base()) * tip;
            float xf[6];
            Eigen::Matrix4f lf = f(loc);
            ws->matrix2Vector(lf, xf);
            bool in = true, unsafe = false;
            for (int i = 0; i < 6; i++)
            {
                v[i] = (xf[i] - w.s.lo[i]) / (w.s.hi[i] - w.s.lo[i]) * m.n[i];
                if (std::fabs(v[i] - std::floor(v[i] + 0.5)) < 1e-2 || (v[i] > -1.6 && v[i] < 0) || (v[i] > m.n[i] && v[i] < m.n[i] + 1.6)) unsafe = true;
                in = in && v[i] > 0 && v[i] < m.n[i];
                if (in) x[i] = (unsigned)v[i];
            }
            if (unsafe) r.prune();
            if (o == 17) r.step("setCurrentTCPPoseEntryIfLower"), ws->setCurrentTCPPoseEntryIfLower(9);
            else if (o == 18) r.step("addCurrentTCPPose"), ws->addCurrentTCPPose();
            else r.step("setCurrentTCPPoseEntry"), ws->setCurrentTCPPoseEntry(7);
            if (in)
            {
                if (o == 17) m.set(x, std::max(9, m.get(x)));
                else if (o == 18) m.inc(x);
                else m.set(x, 7);
            }
        }
        if (d == depth - 1) look(r, w, m, *ws, "after an operation", d < 2 || r.thorough);
    }
    if (other) look(r, w, om, *other, "the other copy", false);
    r.outcome(mc::strf("%d filled", (int)m.v.size()));
}
// counting up to the largest value and over it
static void overflow(mc::Run& r)
{
    int sp = r.choose(4, "orientation");
    Tree t = arm();
    Rep w(t);
    w.s = mkspace(sp);
    w.rob = build(t);
    std::vector<std::string> names = {"j1", "j2"};
    w.set = RobotNodeSet::createRobotNodeSet(w.rob, "set", names, "base", "tip", true);
    w.based = false;
    boost::shared_ptr<WorkspaceRepresentation> ws(new Reachability(w.rob));
    ws->setOrientationType(w.s.type);
    Model m;
    m.n = w.s.n;
    m.adjust = r.flip("adjust on overflow");
    ws->initialize(w.set, w.s.dt, w.s.dr, w.s.lo, w.s.hi, SceneObjectSetPtr(), SceneObjectSetPtr(), RobotNodePtr(), RobotNodePtr(), m.adjust);
    r.check(ws->getAdjustOnOverflow() == m.adjust, "adjust on overflow", "expected %d", m.adjust);
    std::vector<Vx> all = m.all();
    int n = r.choose(5, "count");
    static const int C[5] = {1, 254, 255, 256, 600};
    bool cl = r.flip("clone first");
    if (cl) ws = ws->clone();
    ws->addPose(f(w.s.pose(all[5], 0.5)));
    m.inc(all[5]);
    ws->setEntry(f(w.s.pose(all[8], 0.5)), 201);
    m.set(all[8], 201);
    Eigen::Matrix4f p = f(w.s.pose(all.back(), 0.5));
    r.step("add the same pose %d times", C[n]);
    for (int i = 0; i < C[n]; i++)
    {
        ws->addPose(p);
        m.inc(all.back());
        r.check(ws->getEntry(p) == m.get(all.back()), "counting", "after %d: %d, expected %d", i + 1, ws->getEntry(p), m.get(all.back()));
    }
    look(r, w, m, *ws, "after counting", true);
    r.outcome("counted");
}
// holes: all fillings of the neighbourhood of one inner voxel
static void holes(mc::Run& r)
{
    Tree t = arm();
    RobotPtr rob = build(t);
    std::vector<std::string> names = {"j1", "j2"};
    RobotNodeSetPtr set = RobotNodeSet::createRobotNodeSet(rob, "set", names, "base", "tip", true);
    WorkspaceRepresentationPtr ws(new Reachability(rob));
    float lo[6] = {0, 0, 0, 0, 0, 0}, hi[6] = {290, 290, 390, 2.9f, 2.9f, 2.9f};
    ws->initialize(set, 100, 1, lo, hi);
    Model m;
    m.n = Vx{{3, 3, 4, 3, 3, 3}};
    for (int i = 0; i < 6; i++) r.check((unsigned)ws->getNumVoxels(i) == m.n[i], "extents", "%d", ws->getNumVoxels(i));
    Vx c = {{1, 1, 1, 1, 1, 1}};
    auto put = [&](Vx x, int e) {
        unsigned y[6];
        std::copy(x.begin(), x.end(), y);
        ws->setVoxelEntry(y, (unsigned char)e);
        m.set(x, e);
    };
    for (int k = 0; k < 12; k += 2)
    {
        int q = r.choose(4, "neighbours");
        for (int s = 0; s < 2; s++)
        {
            Vx x = c;
            x[k / 2] += s ? 1 : -1;
            if (q & (1 << s)) put(x, 10 + 7 * k + 90 * s);
        }
    }
    if (r.flip("occupied")) put(c, 77);
    if (r.flip("further")) put(Vx{{1, 1, 3, 1, 1, 1}}, 200);
    unsigned mn = (unsigned)r.choose(4, "required");
    r.step("fillHoles(%u)", mn);
    int n = ws->fillHoles(mn);
    unsigned need = mn ? mn : 1;
    Model w = m;
    int changed = 0;
    for (auto& x : m.all())
    {
        bool inner = true;
        for (int i = 0; i < 6; i++) inner = inner && x[i] > 0 && x[i] + 1 < m.n[i];
        if (!inner || m.get(x)) continue;
        int cnt = 0, sum = 0;
        for (int i = 0; i < 6; i++)
            for (int s = -1; s < 2; s += 2)
            {
                Vx y = x;
                y[i] += s;
                if (m.get(y)) cnt++, sum += m.get(y);
            }
        if (cnt >= (int)need) w.set(x, sum / cnt), changed++;
    }
    r.compared();
    r.check(n == changed, "number of filled holes", "%d, expected %d", n, changed);
    for (auto& x : w.all()) r.check(ws->getVoxelEntry(x[0], x[1], x[2], x[3], x[4], x[5]) == w.get(x), "filled hole", "%s is %d, expected %d", show(x).c_str(), ws->getVoxelEntry(x[0], x[1], x[2], x[3], x[4], x[5]), w.get(x));
    counters(r, w, *ws->getData(), "filled");
    r.state(w.hash());
    r.outcome(mc::strf("%d filled", changed));
}
// horizontal cuts
static void cuts(mc::Run& r)
{
    int sp = r.choose(4, "orientation");
    Tree t = arm();
    Rep w(t);
    w.s = mkspace(sp);
    w.rob = build(t);
    std::vector<std::string> names = {"j1", "j2"};
    w.set = RobotNodeSet::createRobotNodeSet(w.rob, "set", names, "base", "tip", true);
    w.based = r.flip("base node");
    int mv = r.choose(3, "robot pose");
    M4 b = mv == 0 ? M4(M4::Identity()) : mv == 1 ? mk(300, -50, 20, V3(0, 0, 1), 1) : mk(-10, 500, 3, V3(1, 1, 0), -0.6);
    w.rob->setGlobalPose(f(b));
    w.kin.base = b;
    WorkspaceRepresentationPtr ws(new Reachability(w.rob));
    ws->setOrientationType(w.s.type);
    ws->initialize(w.set, w.s.dt, w.s.dr, w.s.lo, w.s.hi, SceneObjectSetPtr(), SceneObjectSetPtr(), w.based ? w.rob->getRobotNode("base") : RobotNodePtr());
    Model m;
    m.n = w.s.n;
    int k = 0;
    int pat = r.choose(3, "contents");
    for (auto& x : m.all())
    {
        k++;
        if (pat == 0 || (pat == 1 && k % 3) || (pat == 2 && k % 7)) continue;
        unsigned y[6];
        std::copy(x.begin(), x.end(), y);
        ws->setVoxelEntry(y, (unsigned char)(1 + k % 11));
        m.set(x, 1 + k % 11);
    }
    M4 B = w.base();
    V3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9);
    for (int i = 0; i < 8; i++)
    {
        V4 c(i & 1 ? w.s.hi[0] : w.s.lo[0], i & 2 ? w.s.hi[1] : w.s.lo[1], i & 4 ? w.s.hi[2] : w.s.lo[2], 1), g = B * c;
        for (int j = 0; j < 3; j++) lo[j] = std::min(lo[j], g[j]), hi[j] = std::max(hi[j], g[j]);
    }
    Eigen::Vector3f l, h;
    ws->getWorkspaceExtends(l, h);
    r.check((l.cast<double>() - lo).norm() < 0.05 && (h.cast<double>() - hi).norm() < 0.05, "global extents", "%s..%s expected %s..%s", showv(l).c_str(), showv(h).c_str(), showv(lo).c_str(), showv(hi).c_str());
    M4 ref = B * w.s.pose(m.all()[m.all().size() / 3], 0.37);
    ref(2, 3) = lo[2] + 0.43 * (hi[2] - lo[2]);
    bool sum = r.flip("sum angles");
    float cell = r.flip("fine") ? 31.f : 77.f;
    r.step("createCut");
    auto cut = ws->createCut(f(ref), cell, sum);
    r.compared();
    int nx = (int)((h[0] - l[0]) / cell), ny = (int)((h[1] - l[1]) / cell);
    r.check(cut->entries.rows() == nx && cut->entries.cols() == ny, "cut size", "%d x %d", (int)cut->entries.rows(), (int)cut->entries.cols());
    r.check(std::fabs(cut->minBounds[0] - l[0]) < 1e-2 && std::fabs(cut->minBounds[1] - l[1]) < 1e-2 && std::fabs((cut->maxBounds[0] - cut->minBounds[0]) - nx * cell) < 1e-1 && std::fabs((cut->maxBounds[1] - cut->minBounds[1]) - ny * cell) < 1e-1, "cut bounds", "%g..%g, %g..%g for %d x %d cells of %g", cut->minBounds[0], cut->maxBounds[0], cut->minBounds[1], cut->maxBounds[1], nx, ny, cell);
    int seen = 0;
    for (int a = 0; a < nx; a++)
        for (int c = 0; c < ny; c++)
        {
            M4 p = ref;
            p(0, 3) = lo[0] + (a + 0.5) * cell;
            p(1, 3) = lo[1] + (c + 0.5) * cell;
            M4 q = inv(B) * p;
            float xf[6];
            Eigen::Matrix4f qf = f(q);
            ws->matrix2Vector(qf, xf);
            bool in = true, unsafe = false;
            Vx x;
            for (int i = 0; i < 6; i++)
            {
                double v = (xf[i] - w.s.lo[i]) / (w.s.hi[i] - w.s.lo[i]) * m.n[i];
                if (std::fabs(v - std::floor(v + 0.5)) < 1e-2 || (v > -1.6 && v < 0) || (v > m.n[i] && v < m.n[i] + 1.6)) unsafe = true;
                in = in && v > 0 && v < m.n[i];
                if (in) x[i] = (unsigned)v;
            }
            if (unsafe) continue;
            int want = !in ? 0 : sum ? m.sum(x[0], x[1], x[2]) : m.get(x);
            r.check(cut->entries(a, c) == want, "cut entry", "(%d,%d) is %d, expected %d", a, c, cut->entries(a, c), want);
            seen += in;
        }
    // transformations of a cut: one for every positive cell, at its position
    auto tf = ws->createCutTransformations(cut);
    int pos = 0;
    for (int a = 0; a < nx; a++)
        for (int c = 0; c < ny; c++) pos += cut->entries(a, c) > 0;
    r.check((int)tf.size() == pos, "cut transformations", "%d, expected %d", (int)tf.size(), pos);
    for (auto& x : tf)
    {
        int a = (int)((x->transformation(0, 3) - l[0]) / cell), c = (int)((x->transformation(1, 3) - l[1]) / cell);
        r.check(a >= 0 && c >= 0 && a < nx && c < ny && cut->entries(a, c) == x->value, "cut transformation", "at %g %g value %d", x->transformation(0, 3), x->transformation(1, 3), x->value);
        M4 want = ref;
        want(0, 3) = lo[0] + (a + 0.5) * cell;
        want(1, 3) = lo[1] + (c + 0.5) * cell;
        r.check(dev(want, x->transformation, 0.2, 1e-4) <= 1, "cut transformation", "pose %s expected %s", sx::show(x->transformation).c_str(), sx::show(want).c_str());
    }
    if (w.based && sum)
    {
        auto rel = ws->createCutTransformations(cut, w.rob->getRobotNode("tip"));
        r.check(rel.size() == tf.size(), "relative cut transformations", "%d", (int)rel.size());
        M4 T = w.kin.poses()[3];
        for (size_t i = 0; i < rel.size(); i++) r.check(dev(M4(inv(T) * tf[i]->transformation.cast<double>()), rel[i]->transformation, 0.3, 1e-4) <= 1, "relative cut transformation", "%d", (int)i);
    }
    mc::Hash hh;
    for (int a = 0; a < nx; a++)
        for (int c = 0; c < ny; c++) hh.i(cut->entries(a, c));
    r.state(hh);
    r.outcome(seen ? "cut" : "empty cut");
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("array", array, 3);
    mc::suite("poses", [](mc::Run& r) { representation(r, false); }, 4);
    mc::suite("moving robot", [](mc::Run& r) { representation(r, true); }, 4);
    mc::suite("overflow", overflow, 4);
    mc::suite("holes", holes, 4);
    mc::suite("cuts", cuts, 4);
    return mc::main(argc, argv);
}
