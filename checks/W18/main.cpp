#include "simox.h"
#include <VirtualRobot/Workspace/VoxelTreeND.hpp>
#include <fstream>
#include <memory>
using namespace VirtualRobot;
using namespace sx;

struct Val
{
    int a;
    short b;
    bool operator>(const Val& o) const
    {
        return a != o.a ? a > o.a : b > o.b;
    }
    bool operator==(const Val& o) const
    {
        return a == o.a && b == o.b;
    }
};
template <class T> T make(int i);
template <> unsigned char make<unsigned char>(int i)
{
    static const unsigned char v[] = {7, 0, 255, 7, 128, 1};
    return v[i % 6];
}
template <> Val make<Val>(int i)
{
    Val v;
    memset(&v, 0, sizeof v);
    v.a = i * 1000003 - 5;
    v.b = (short)(-i);
    return v;
}
template <> double make<double>(int i)
{
    static const double v[] = {-1.5, 0, 1e300, 3, -1e-300, 3};
    return v[i % 6];
}
// a space: extents and discretisation; every extent is exactly divisible so that voxel borders are exact in float
template <unsigned int N> struct Space
{
    float lo[N], hi[N], di[N];
    int levels;
};
template <unsigned int N> std::vector<int> cell(const Space<N>& s, const float* p) // empty: outside
{
    std::vector<int> c;
    int n = 1 << (s.levels - 1);
    for (unsigned i = 0; i < N; i++)
    {
        if (p[i] < s.lo[i] || p[i] > s.hi[i]) return std::vector<int>();
        double w = ((double)s.hi[i] - s.lo[i]) / n;
        int k = (int)std::ceil(((double)p[i] - s.lo[i]) / w) - 1; // a border belongs to the lower voxel
        c.push_back(k < 0 ? 0 : k >= n ? n - 1 : k);
    }
    return c;
}
template <class T, unsigned int N> struct Checker
{
    typedef VoxelTreeND<T, N> Tree;
    typedef std::map<std::vector<int>, T> Map;
    static void observe(mc::Run& r, const Space<N>& s, Tree& t, const Map& m, const std::vector<std::vector<float>>& probes, const char* when)
    {
        r.compared();
        int n = 1 << (s.levels - 1);
        mc::Hash h;
        for (auto& q : probes)
        {
            std::vector<float> p = q;
            std::vector<int> c = cell<N>(s, p.data());
            r.check(t.isCovered(p.data()) == !c.empty(), "isCovered", "%s: %s", when, showv(p).c_str());
            T* e = t.getEntry(p.data());
            auto it = c.empty() ? m.end() : m.find(c);
            if (it == m.end())
            {
                r.check(!e, c.empty() ? "entry outside" : "entry in an empty voxel", "%s: %s", when, showv(p).c_str());
                if (s.levels > 1) r.check(!t.getLeafElement(p.data()), "leaf in an empty voxel", "%s: %s", when, showv(p).c_str());
                continue;
            }
            r.check(e != nullptr, "entry lost", "%s: %s", when, showv(p).c_str());
            r.check(*e == it->second, "entry value", "%s: %s holds another value", when, showv(p).c_str());
            VoxelTreeNDElement<T, N>* l = t.getLeafElement(p.data());
            r.check(l && l->isLeaf() && l->getEntry() == e && l->getLevel() == s.levels - 1, "leaf", "%s: %s", when, showv(p).c_str());
            Eigen::VectorXf ctr = l->getVoxelCenter();
            for (unsigned i = 0; i < N; i++)
            {
                double w = ((double)s.hi[i] - s.lo[i]) / n;
                r.check(std::fabs(ctr[i] - (s.lo[i] + (c[i] + 0.5) * w)) < 1e-4 * w && std::fabs(l->getExtend(i) - w) < 1e-4 * w, "voxel centre", "%s: %s centre %s", when, showv(p).c_str(), showv(ctr).c_str());
            }
            h.add(e, sizeof(T));
        }
        r.state(h);
        // iteration
        if (s.levels > 1 && !m.empty())
        {
            typename Tree::ElementIterator it;
            VoxelTreeNDElement<T, N>* e = it.init(&t);
            size_t k = 0;
            Map seen;
            while (e && k <= m.size() + 2)
            {
                Eigen::VectorXf c = e->getVoxelCenter();
                std::vector<int> id = cell<N>(s, c.data());
                auto w = m.find(id);
                r.check(e->isLeaf() && e->getEntry() && w != m.end() && *e->getEntry() == w->second, "iterated element", "%s: element %s", when, showv(c).c_str());
                r.check(!seen.count(id), "iterated twice", "%s: %s", when, showv(c).c_str());
                seen[id] = w->second;
                k++;
                e = it.getNextElement();
            }
            r.check(seen.size() == m.size(), "iteration incomplete", "%s: %d of %d", when, (int)seen.size(), (int)m.size());
        }
        // sub trees selected by leading coordinates
        for (size_t a = 0; a < probes.size(); a += 1 + probes.size() / 6)
            for (unsigned d = 1; d <= N && s.levels > 1; d++)
            {
                std::vector<int> c = cell<N>(s, probes[a].data());
                if (c.empty()) continue;
                Eigen::VectorXf p(d);
                for (unsigned i = 0; i < d; i++) p[i] = probes[a][i];
                std::map<std::vector<int>, int> want;
                const T* mx = nullptr;
                for (auto& x : m)
                {
                    bool in = true;
                    for (unsigned i = 0; i < d; i++) in = in && x.first[i] == c[i];
                    if (!in) continue;
                    want[x.first] = 0;
                    if (!mx || x.second > *mx) mx = &x.second;
                }
                auto L = t.getAllLeafs(p);
                for (auto* l : L)
                {
                    Eigen::VectorXf ctr = l->getVoxelCenter();
                    auto w = want.find(cell<N>(s, ctr.data()));
                    r.check(w != want.end() && !w->second++, "getAllLeafs", "%s: %s below %s", when, showv(ctr).c_str(), showv(p).c_str());
                }
                r.check(L.size() == want.size(), "getAllLeafs count", "%s: %d, expected %d below %s", when, (int)L.size(), (int)want.size(), showv(p).c_str());
                VoxelTreeNDElement<T, N>* e = t.getMaxEntry(p);
                r.check(!e == !mx, "getMaxEntry", "%s: below %s", when, showv(p).c_str());
                if (e) r.check(e->getEntry() && *e->getEntry() == *mx, "getMaxEntry value", "%s: below %s", when, showv(p).c_str());
            }
    }
    static void parameters(mc::Run& r, const Space<N>& s, Tree& t)
    {
        float a[N], b[N], c[N], d[N], e[N];
        t.getMinExtend(a);
        t.getMaxExtend(b);
        t.getSize(c);
        t.getDiscretization(d);
        t.getRealDiscretization(e);
        r.check(t.getMaxLevels() == s.levels, "levels", "%d, expected %d", t.getMaxLevels(), s.levels);
        for (unsigned i = 0; i < N; i++)
            r.check(a[i] == s.lo[i] && b[i] == s.hi[i] && c[i] == s.hi[i] - s.lo[i] && d[i] == s.di[i] && e[i] <= d[i] * 1.0001 && std::fabs(e[i] - c[i] / (1 << (s.levels - 1))) < 1e-5 * c[i], "extents", "dimension %u: %g %g %g %g %g", i, a[i], b[i], c[i], d[i], e[i]);
    }
    static std::vector<std::vector<float>> probes(const Space<N>& s, int limit)
    {
        // per dimension: both ends, a border, just beside it, inside; all combinations in few dimensions, diagonals and single deviations in many
        int n = 1 << (s.levels - 1);
        std::vector<std::vector<float>> per(N);
        for (unsigned i = 0; i < N; i++)
        {
            float w = (s.hi[i] - s.lo[i]) / n;
            for (int k = 0; k < n; k++)
            {
                per[i].push_back(s.lo[i] + w * (k + 0.5f));
                per[i].push_back(s.lo[i] + w * k);
                per[i].push_back(s.lo[i] + w * k + w / 1024);
            }
            per[i].push_back(s.hi[i]);
            per[i].push_back(s.hi[i] + w / 1024);
            per[i].push_back(s.lo[i] - w / 1024);
            per[i].push_back(s.hi[i] + w);
        }
        std::vector<std::vector<float>> v;
        double total = 1;
        for (auto& p : per) total *= p.size();
        if (total <= limit)
        {
            std::vector<size_t> ix(N, 0);
            for (;;)
            {
                std::vector<float> p;
                for (unsigned i = 0; i < N; i++) p.push_back(per[i][ix[i]]);
                v.push_back(p);
                unsigned i = 0;
                while (i < N && ++ix[i] == per[i].size()) ix[i++] = 0;
                if (i == N) break;
            }
        }
        else
            for (size_t base = 0; base < per[0].size(); base += std::max<size_t>(2, per[0].size() / 8))
                for (unsigned i = 0; i < N; i++)
                    for (size_t k = 0; k < per[i].size(); k++)
                    {
                        if (per[i].size() > 48 && k % (per[i].size() / 24) > 2 && k + 5 < per[i].size()) continue; // voxels all over the range, their centre and both sides of a border
                        std::vector<float> p;
                        for (unsigned j = 0; j < N; j++) p.push_back(per[j][j == i ? k : (base + j * (base % 3)) % (per[j].size() - 3)]);
                        v.push_back(p);
                    }
        return v;
    }
    static void run(mc::Run& r, const Space<N>& s, int depth, int grid, bool files)
    {
        float lo[N], hi[N], di[N];
        memcpy(lo, s.lo, sizeof lo);
        memcpy(hi, s.hi, sizeof hi);
        memcpy(di, s.di, sizeof di);
        std::unique_ptr<Tree> t(new Tree(lo, hi, di));
        parameters(r, s, *t);
        auto all = probes(s, grid);
        // the positions that are written: a spread selection with the corners
        std::vector<std::vector<float>> w;
        for (size_t i = 0; i < all.size(); i += std::max<size_t>(1, all.size() / 13)) w.push_back(all[i]);
        w.push_back(all.back());
        Map m;
        for (int d = 0; d < depth; d++)
        {
            int k = r.choose((int)w.size() + (d ? 1 : 0), "position");
            if (k == (int)w.size()) break;
            std::vector<float> p = w[k];
            std::vector<int> c = cell<N>(s, p.data());
            T v = make<T>(d);
            r.step("setEntry(%s)", showv(p).c_str());
            bool ok = t->setEntry(p.data(), v);
            r.check(ok == !c.empty(), "setEntry result", "%s returned %d", showv(p).c_str(), ok);
            if (ok) m[c] = v;
        }
        observe(r, s, *t, m, all, "after writing");
        if (files && (int)m.size() < depth)
        {
            std::string fn = mc::scratch() + "/t.vox";
            if (s.levels > 1 || !m.empty())
            {
                bool viaStream = r.flip("stream");
                if (viaStream)
                {
                    std::ofstream o(fn.c_str(), std::ios::binary);
                    o << "before";
                    r.check(t->save(o), "save", "stream");
                    o << "after";
                    o.close();
                    std::ifstream i(fn.c_str(), std::ios::binary);
                    char b[6];
                    i.read(b, 6);
                    t.reset(Tree::load(i));
                    r.check((bool)t, "load refused", "stream");
                    char e[6] = {};
                    i.read(e, 5);
                    r.check(std::string(e) == "after", "stream position after loading", "'%s'", e);
                }
                else
                {
                    r.check(t->save(fn), "save", "file");
                    t.reset(Tree::load(fn));
                    r.check((bool)t, "load refused", "file");
                }
                r.step("save and load");
                parameters(r, s, *t);
                observe(r, s, *t, m, all, "after loading");
                // the loaded tree goes on working
                for (int j = 0; j < 2; j++)
                {
                    std::vector<float> p = w[(j * 5 + 1) % w.size()];
                    std::vector<int> c = cell<N>(s, p.data());
                    T v = make<T>(4 + j);
                    bool ok = t->setEntry(p.data(), v);
                    r.check(ok == !c.empty(), "setEntry result", "after loading: %s returned %d", showv(p).c_str(), ok);
                    if (ok) m[c] = v;
                }
                observe(r, s, *t, m, all, "written after loading");
                if (s.levels > 1 || !m.empty())
                {
                    r.check(t->save(fn), "save", "second");
                    t.reset(Tree::load(fn));
                    r.check((bool)t, "load refused", "second");
                    observe(r, s, *t, m, all, "after the second loading");
                }
            }
        }
        r.outcome(mc::strf("%d voxels", (int)m.size()));
    }
};
template <unsigned int N> Space<N> space(int kind)
{
    Space<N> s;
    for (unsigned i = 0; i < N; i++)
    {
        s.lo[i] = kind == 0 ? 0 : kind == 1 ? -128.f * (i + 1) : -2.f + i;
        float size = kind == 0 ? 8.f : kind == 1 ? 256.f * (i + 1) : 4.f * (1 + i % 2);
        s.hi[i] = s.lo[i] + size;
        s.di[i] = kind == 0 ? 4 : kind == 1 ? size / (i == 0 ? 4 : 1) : size;
    }
    s.levels = kind == 0 ? 2 : kind == 1 ? 3 : 1;
    return s;
}
static void d1(mc::Run& r)
{
    int k = r.choose(3, "space");
    Checker<unsigned char, 1>::run(r, space<1>(k), r.thorough ? 4 : 3, 100, true);
}
static void d2(mc::Run& r)
{
    int k = r.choose(3, "space");
    Checker<Val, 2>::run(r, space<2>(k), r.thorough ? 4 : 3, 300, true);
}
static void d3(mc::Run& r)
{
    int k = r.choose(3, "space");
    Checker<double, 3>::run(r, space<3>(k), r.thorough ? 4 : 3, 700, true);
}
static void d6(mc::Run& r)
{
    int k = r.choose(2, "space");
    Checker<unsigned char, 6>::run(r, space<6>(k), r.thorough ? 3 : 2, 700, true);
}
// depth: a deep tree, as in the documentation
static void deep(mc::Run& r)
{
    Space<2> s;
    int lv = r.choose(8, "levels") + 2;
    s.levels = lv;
    s.lo[0] = -64;
    s.hi[0] = 64;
    s.lo[1] = 0;
    s.hi[1] = 1024;
    s.di[0] = 128.f / (1 << (lv - 1));
    s.di[1] = r.flip("coarse") ? 1024 : 1024.f / (1 << (lv - 1));
    Checker<Val, 2>::run(r, s, r.thorough ? 3 : 2, lv < 4 ? 700 : 0, true);
}
// every truncation of a stored tree and every altered byte of its data
static void faults(mc::Run& r)
{
    int kind = r.choose(2, "space");
    Space<2> s = space<2>(kind);
    float lo[2] = {s.lo[0], s.lo[1]}, hi[2] = {s.hi[0], s.hi[1]}, di[2] = {s.di[0], s.di[1]};
    typedef VoxelTreeND<Val, 2> T;
    T t(lo, hi, di);
    int n = r.choose(4, "entries");
    std::map<std::vector<int>, Val> m;
    for (int i = 0; i < n; i++)
    {
        float p[2] = {s.lo[0] + 1.1f + i, s.hi[1] - 1.3f - i * 2};
        t.setEntry(p, make<Val>(i));
        m[cell<2>(s, p)] = make<Val>(i);
    }
    std::string fn = mc::scratch() + "/f.vox";
    if (!t.save(fn)) r.fail("save", "n=%d", n);
    std::string all;
    {
        std::ifstream i(fn.c_str(), std::ios::binary);
        all.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
    }
    size_t data = all.find("DATA_START") + 10;
    std::string cut = all;
    if (r.flip("truncate"))
    {
        int k = r.choose((int)all.size(), "length");
        cut.resize(k);
        r.step("load the first %d of %d bytes", k, (int)all.size());
    }
    else
    {
        int k = r.choose((int)(all.size() - data), "byte"), b = r.choose(3, "alteration");
        unsigned char c = cut[data + k];
        cut[data + k] = (char)(b == 0 ? c ^ 1 : b == 1 ? c ^ 0x80 : c ^ 0xff);
        r.step("load with byte %d altered", (int)data + k);
    }
    {
        std::ofstream o(fn.c_str(), std::ios::binary);
        o.write(cut.data(), cut.size());
    }
    r.at("reading a damaged tree");
    std::unique_ptr<T> l;
    try
    {
        l.reset(T::load(fn));
        r.outcome(l ? "loaded" : "refused");
    }
    catch (std::exception&)
    {
        r.outcome("exception");
    }
    r.compared();
    if (l)
    {
        r.check(cut.size() == all.size(), "truncated file accepted", "%d of %d bytes", (int)cut.size(), (int)all.size());
        Checker<Val, 2>::observe(r, s, *l, m, Checker<Val, 2>::probes(s, 300), "damaged file");
    }
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("one dimension", d1, 3);
    mc::suite("two dimensions", d2, 3);
    mc::suite("three dimensions", d3, 3);
    mc::suite("six dimensions", d6, 2);
    mc::suite("depth", deep, 3);
    mc::suite("damaged files", faults, 4);
    return mc::main(argc, argv);
}
