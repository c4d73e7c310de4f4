// Collision managers: which pairs are registered after any history of registrations, seen through collisions and distances.
#include "geom.h"
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <cfloat>
#include <set>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

static const int NB = 6;
static const double SZ[NB] = {10, 14, 18, 22, 26, 30};
// in placement 0 nobody collides; placement k > 0 makes the k-th pair overlap; all distances differ
static V3 home(int i)
{
    static const double x[NB] = {0, 211, 467, 801, 1223, 1747};
    return V3(x[i], 7. * i, -3. * i * i);
}
static std::vector<std::pair<int, int>> bodyPairs()
{
    std::vector<std::pair<int, int>> v;
    for (int i = 0; i < NB; i++)
        for (int k = i + 1; k < NB; k++) v.push_back({i, k});
    return v;
}
static std::vector<V3> placement(int p)
{
    std::vector<V3> v;
    for (int i = 0; i < NB; i++) v.push_back(home(i));
    if (p)
    {
        auto q = bodyPairs()[p - 1];
        v[q.second] = v[q.first] + V3(3, 2, -1);
    }
    return v;
}
static geo::Mesh body(int i, const V3& at)
{
    return geo::mesh(boxPts(SZ[i], SZ[i], SZ[i]), tr(at[0], at[1], at[2]));
}
struct World
{
    CollisionCheckerPtr cc;
    std::vector<ObstaclePtr> o;
    std::vector<SceneObjectSetPtr> T; // {0}, {1,2}, {3}, {5}
    std::vector<std::set<int>> members;
};
typedef std::set<int> S;
static S only(int i)
{
    S s;
    s.insert(i);
    return s;
}
static void managers(mc::Run& r)
{
    static const char* names[] = {"add set{0}", "add set{1,2}", "add set{3}", "add object 3", "add object 4", "add object 5", "pair set{0} set{1,2}", "pair set{1,2} set{3}", "pair object 4 set{1,2}", "pair object 4 object 5", "pair object 5 object 3", "pair object 0 set{3}", "nothing"};
    const int D = r.thorough ? 5 : 4;
    std::vector<int> ops;
    for (int i = 0; i < D; i++) ops.push_back(r.choose(12 + (i >= 1), "registration"));
    for (int i = 1; i + 1 < D; i++)
        if (ops[i] == 12 && ops[i + 1] != 12) r.prune();
    World w;
    w.cc.reset(new CollisionChecker());
    for (int i = 0; i < NB; i++)
    {
        CollisionModelPtr c(new CollisionModel(visu(boxPts(SZ[i], SZ[i], SZ[i])), strf("c%d", i), w.cc, 50 + i));
        w.o.push_back(ObstaclePtr(new Obstacle(strf("o%d", i), VisualizationNodePtr(), c, SceneObject::Physics(), w.cc)));
    }
    const int grp[3][2] = {{0, -1}, {1, 2}, {3, -1}};
    for (int t = 0; t < 3; t++)
    {
        SceneObjectSetPtr s(new SceneObjectSet(strf("T%d", t), w.cc));
        S m;
        for (int k : grp[t])
            if (k >= 0)
            {
                s->addSceneObject(w.o[k]);
                m.insert(k);
            }
        w.T.push_back(s);
        w.members.push_back(m);
    }
    CDManager man(w.cc);
    // reference: groups of bodies in order of registration, and pairs of groups
    std::vector<S> groups;
    std::set<std::pair<S, S>> pairs;
    auto know = [&](const S& s) {
        for (auto& g : groups)
            if (g == s) return;
        groups.push_back(s);
    };
    auto pair = [&](const S& a, const S& b) {
        know(a);
        know(b);
        pairs.insert({a, b});
    };
    auto single = [&](const S& s) {
        std::vector<S> before = groups;
        for (auto& g : before)
            if (g != s) pair(g, s);
        know(s);
    };
    for (int op : ops)
    {
        if (op == 12) continue;
        r.step("%s", names[op]);
        switch (op)
        {
            case 0: case 1: case 2: man.addCollisionModel(w.T[op]); single(w.members[op]); break;
            case 3: case 4: case 5: man.addCollisionModel(SceneObjectPtr(w.o[op])); single(only(op)); break;
            case 6: man.addCollisionModelPair(w.T[0], w.T[1]); pair(w.members[0], w.members[1]); break;
            case 7: man.addCollisionModelPair(w.T[1], w.T[2]); pair(w.members[1], w.members[2]); break;
            case 8: man.addCollisionModelPair(SceneObjectPtr(w.o[4]), w.T[1]); pair(only(4), w.members[1]); break;
            case 9: man.addCollisionModelPair(SceneObjectPtr(w.o[4]), SceneObjectPtr(w.o[5])); pair(only(4), only(5)); break;
            case 10: man.addCollisionModelPair(SceneObjectPtr(w.o[5]), SceneObjectPtr(w.o[3])); pair(only(5), only(3)); break;
            case 11: man.addCollisionModelPair(SceneObjectPtr(w.o[0]), w.T[2]); pair(only(0), w.members[2]); break;
        }
    }
    // registered sets
    std::vector<SceneObjectSetPtr> L = man.getSceneObjectSets();
    std::multiset<S> have, want(groups.begin(), groups.end());
    for (auto& s : L)
    {
        S m;
        for (auto& o : s->getSceneObjects())
            for (int i = 0; i < NB; i++)
                if (w.o[i] == o) m.insert(i);
        have.insert(m);
        r.check(man.hasSceneObjectSet(s), "a listed set is unknown", "hasSceneObjectSet denies a set of getSceneObjectSets");
    }
    r.check(have == want, "registered sets", "%zu sets are registered, expected %zu", have.size(), want.size());
    for (int i = 0; i < NB; i++)
        r.check(man.hasSceneObject(w.o[i]) == (want.count(only(i)) > 0), "hasSceneObject", "object %d: %d", i, (int)man.hasSceneObject(w.o[i]));
    SceneObjectSetPtr stranger(new SceneObjectSet("x", w.cc));
    r.check(!man.hasSceneObjectSet(stranger), "an unknown set is listed", "hasSceneObjectSet accepts a set that was never added");
    // every placement
    static std::map<std::pair<int, std::pair<int, int>>, std::pair<double, bool>> memo;
    auto rel = [&](int p, int i, int k) {
        auto key = std::make_pair(p, std::make_pair(std::min(i, k), std::max(i, k)));
        auto it = memo.find(key);
        if (it == memo.end())
        {
            auto at = placement(p);
            geo::Rel q = geo::relation(body(i, at[i]), body(k, at[k]));
            if (!q.hit) r.fail("setup", "bodies %d and %d touch in placement %d", i, k, p);
            it = memo.emplace(key, std::make_pair(q.d, q.hit > 0)).first;
        }
        return it->second;
    };
    auto groupRel = [&](int p, const S& a, const S& b) {
        std::pair<double, bool> z(FLT_MAX, false);
        for (int i : a)
            for (int k : b)
            {
                auto q = rel(p, i, k);
                z.first = std::min(z.first, q.first);
                z.second |= q.second;
            }
        return z;
    };
    auto eq = [](double got, double want) { return want >= FLT_MAX / 2 ? got >= FLT_MAX / 2 : std::fabs(got - want) < 0.02 + 1e-5 * want; };
    auto onBody = [&](const Eigen::Vector3f& x, int i, const std::vector<V3>& at) { return i >= 0 && i < NB && geo::distance(V3(x.cast<double>()), body(i, at[i])) < 0.05; };
    int nHit = 0;
    int np = 1 + (int)bodyPairs().size();
    for (int p = 0; p < np; p++)
    {
        auto at = placement(p);
        for (int i = 0; i < NB; i++) w.o[i]->setGlobalPose(f(tr(at[i][0], at[i][1], at[i][2])));
        double d = FLT_MAX;
        bool hit = false;
        for (auto& q : pairs)
        {
            auto z = groupRel(p, q.first, q.second);
            d = std::min(d, z.first);
            hit |= z.second;
        }
        nHit += hit;
        r.note("placement %d", p);
        bool gotHit = man.isInCollision();
        r.check(gotHit == hit, hit ? "missed collision" : "false collision", "placement %d: isInCollision is %d", p, gotHit);
        float gd = man.getDistance();
        r.check(eq(gd, d), "distance", "placement %d: getDistance is %g, the registered pairs have %g", p, gd, d);
        Eigen::Vector3f p1(0, 0, 0), p2(0, 0, 0);
        int i1 = -1, i2 = -1;
        gd = man.getDistance(p1, p2, i1, i2);
        r.check(eq(gd, d), "distance with points", "placement %d: getDistance is %g, the registered pairs have %g", p, gd, d);
        if (d < FLT_MAX / 2)
        {
            r.check(onBody(p1, i1 - 50, at) && onBody(p2, i2 - 50, at), "closest points", "placement %d: %s on %d, %s on %d", p, showv(p1).c_str(), i1, showv(p2).c_str(), i2);
            r.check(std::fabs(rel(p, i1 - 50, i2 - 50).first - d) < 0.05, "closest ids", "placement %d: bodies %d and %d are not the closest", p, i1 - 50, i2 - 50);
            bool reg = false;
            for (auto& q : pairs) reg |= q.first.count(i1 - 50) && q.second.count(i2 - 50);
            for (auto& q : pairs) reg |= q.second.count(i1 - 50) && q.first.count(i2 - 50);
            r.check(reg, "closest ids", "placement %d: %d and %d were never registered as a pair", p, i1 - 50, i2 - 50);
        }
        r.compared(3);
        // one set against all that were added
        for (int t = 0; t < 4; t++)
        {
            SceneObjectSetPtr m;
            S mem;
            if (t < 3)
            {
                m = w.T[t];
                mem = w.members[t];
            }
            else
            {
                // the set that was registered for an object
                for (auto& s : L)
                    if (s->getSize() == 1 && s->getSceneObject(0) == w.o[5]) m = s;
                mem = only(5);
                if (!m) continue;
            }
            double dm = FLT_MAX;
            bool hm = false;
            for (auto& g : groups)
                if (g != mem)
                {
                    auto z = groupRel(p, g, mem);
                    dm = std::min(dm, z.first);
                    hm |= z.second;
                }
            bool got = man.isInCollision(m);
            r.check(got == hm, "set against all", "placement %d: isInCollision(set %d) is %d", p, t, got);
            float g = man.getDistance(m);
            r.check(eq(g, dm), "distance of a set to all", "placement %d: getDistance(set %d) is %g instead of %g", p, t, g, dm);
            i1 = i2 = -1;
            g = man.getDistance(m, p1, p2, i1, i2);
            r.check(eq(g, dm), "distance of a set to all, with points", "placement %d: getDistance(set %d, ...) is %g instead of %g", p, t, g, dm);
            if (dm < FLT_MAX / 2)
            {
                r.check(mem.count(i1 - 50) && onBody(p1, i1 - 50, at), "closest points of a set", "placement %d set %d: %s on %d", p, t, showv(p1).c_str(), i1);
                r.check(onBody(p2, i2 - 50, at) && std::fabs(rel(p, i1 - 50, i2 - 50).first - dm) < 0.05, "closest points of a set", "placement %d set %d: %s on %d", p, t, showv(p2).c_str(), i2);
            }
            r.compared(3);
        }
    }
    mc::Hash h;
    for (auto& g : groups)
    {
        h.i(-1);
        for (int i : g) h.i(i);
    }
    for (auto& q : pairs)
    {
        h.i(-2);
        for (int i : q.first) h.i(i);
        h.i(-3);
        for (int i : q.second) h.i(i);
    }
    r.state(h);
    r.outcome(strf("%zu groups, %zu pairs", groups.size(), pairs.size()));
}
int main(int argc, char** argv)
{
    mc::setup(silence);
    mc::suite("registrations", managers, 2);
    return mc::main(argc, argv);
}
