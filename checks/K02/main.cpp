#include "robops.h"
using namespace VirtualRobot;
using namespace sx;

static std::vector<Tree> T;

// Reference: the joint values, as floats, exactly.
struct J
{
    float lo, hi, v;
    bool limitless, enforce;
    bool fresh = false; // set since the last look
    J(float l, float h, float x, bool ll, bool e) : lo(l), hi(h), v(x), limitless(ll), enforce(e) {}
};
struct M
{
    std::vector<J> j;
    std::vector<int> id; // tree index of each joint
    M(const Tree& t) : id(t.joints())
    {
        for (int i : id) j.push_back({(float)t.n[i].lo, (float)t.n[i].hi, 0.f, t.n[i].limitless, true});
    }
    // returns the expected value; for a limitless joint outside its range an equivalent angle (compared modulo a turn)
    void set(int k, float x)
    {
        J& a = j[k];
        a.fresh = true;
        if (a.limitless || !a.enforce) a.v = x;
        else a.v = x < a.lo ? a.lo : x > a.hi ? a.hi : x;
    }
};
static const float VAL[] = {0.f, 0.3f, -0.7f, 0.99999f, 100.f, -1000.f, 3.1415927f, -3.1415927f, 6.2831855f, 7.5f, 23.f};
static float value(const J& a, int v)
{
    switch (v)
    {
        case 0: return a.lo;
        case 1: return a.hi;
        case 2: return a.lo + 0.37f * (a.hi - a.lo);
        case 3: return std::nextafter(a.hi, 1e9f);
        case 4: return std::nextafter(a.lo, -1e9f);
        case 5: return a.hi + 0.31f * (a.hi - a.lo);
        case 6: return a.lo - 2.6f * (a.hi - a.lo);
        case 7: return a.lo + 0.93f * (a.hi - a.lo);
        case 8: return a.hi + 8.7f * (a.hi - a.lo);
        case 9: return 0.4f * (a.limitless ? a.lo : a.hi);
        case 10: return a.lo - 1.2f * (a.hi - a.lo);
        default: return a.limitless && a.lo > 0.1f ? a.lo : 0.f;
    }
}
static const int NV = 11;

static void same(mc::Run& r, const char* how, const char* nm, const J& a, float got)
{
    r.compared();
    if (!a.limitless || !a.fresh || (a.v >= a.lo && a.v <= a.hi))
    {
        r.check(got == a.v, std::string("value:") + how, "%s: %s is %.9g, expected %.9g (limits %g..%g%s)", how, nm, got, a.v, a.lo, a.hi, a.limitless ? ", limitless" : "");
        return;
    }
    double d = std::remainder((double)got - (double)a.v, 2 * PI);
    r.check(std::fabs(d) < 2e-5 * (1 + std::fabs(a.v) / 6) && got >= a.lo - 1e-5f && got <= a.hi + 1e-5f, std::string("limitless value:") + how, "%s: %s is %.9g after setting %.9g (range %g..%g)", how, nm, got, a.v, a.lo, a.hi);
}
static void observe(mc::Run& r, World& w, M& m, bool full)
{
    mc::Hash h;
    for (size_t k = 0; k < m.id.size(); k++)
    {
        RobotNodePtr n = w.node(m.id[k]);
        float g = n->getJointValue();
        h.f(g, 1e-5);
        same(r, "getJointValue", n->getName().c_str(), m.j[k], g);
        m.j[k].fresh = false;
        m.j[k].v = g; // from here on what the joint keeps must stay exactly
    }
    r.state(h);
    if (!full) return;
    std::vector<float> v = w.all->getJointValues(), v2;
    Eigen::VectorXf e = w.all->getJointValuesEigen(), e2;
    w.all->getJointValues(v2);
    w.all->getJointValues(e2);
    std::map<std::string, float> mp = w.all->getJointValueMap();
    RobotConfigPtr c = w.r->getConfig(), c2(new RobotConfig(w.r, "x"));
    w.all->getJointValues(c2);
    size_t n = m.id.size();
    r.check(v.size() == n && v2.size() == n && (size_t)e.size() == n && (size_t)e2.size() == n && mp.size() == n && c->getNodes().size() == n && c2->getNodes().size() == n, "number of values", "a joint set of %zu reports %zu/%zu/%d/%d/%zu/%zu/%zu values", n, v.size(), v2.size(), (int)e.size(), (int)e2.size(), mp.size(), c->getNodes().size(), c2->getNodes().size());
    auto cm = c->getRobotNodeJointValueMap();
    for (size_t k = 0; k < n; k++)
    {
        std::string nm = w.k.t.n[m.id[k]].name;
        float x = m.j[k].v;
        r.check(v[k] == x && v2[k] == x && e[k] == x && e2[k] == x && mp[nm] == x && c->getConfig(nm) == x && c2->getConfig(nm) == x && cm[nm] == x && c->hasConfig(nm), "value readers disagree", "%s: %g %g %g %g %g %g %g %g", nm.c_str(), v[k], v2[k], e[k], e2[k], mp[nm], c->getConfig(nm), c2->getConfig(nm), cm[nm]);
        r.check(w.all->getNode((int)k)->getName() == nm && (*w.all)[(int)k]->getName() == nm && w.all->getNodeNames()[k] == nm && w.all->hasRobotNode(nm), "set member", "member %zu is not %s", k, nm.c_str());
    }
}

// every setter, with the joints given by mask, values given by a pattern
static const char* SET[] = {"node", "robot(name)", "robot(node)", "noUpdate+apply", "map<name>", "map<node>", "nodes,values", "set(vector)", "set(eigen)", "robot(set,vector)", "robot(set,eigen)", "config.setJointValues()", "config.setJointValues(robot)", "robot(config)", "robot.setConfig", "set(config)", "robot(set,config)"};
static const int NS = 17;
static void apply(mc::Run& r, World& w, M& m, int s, const std::vector<int>& k, const std::vector<float>& x)
{
    std::string arg;
    for (size_t i = 0; i < k.size(); i++) arg += mc::strf("%s=%.7g ", w.k.t.n[m.id[k[i]]].name.c_str(), x[i]);
    r.step("%s %s", SET[s], arg.c_str());
    std::map<std::string, float> mn;
    std::map<RobotNodePtr, float> mm;
    std::vector<RobotNodePtr> nn;
    std::vector<std::string> ns;
    Eigen::VectorXf e((int)x.size());
    for (size_t i = 0; i < k.size(); i++)
    {
        RobotNodePtr n = w.node(m.id[k[i]]);
        mn[n->getName()] = x[i];
        mm[n] = x[i];
        nn.push_back(n);
        ns.push_back(n->getName());
        e[(int)i] = x[i];
        m.set(k[i], x[i]);
    }
    RobotNodeSetPtr rns;
    if (s >= 7 && s <= 10) rns = RobotNodeSet::createRobotNodeSet(w.r, "tmp", nn, w.r->getRootNode(), nn.back(), false);
    RobotConfigPtr c;
    if (s >= 11) c.reset(s & 1 ? new RobotConfig(w.r, "c", nn, x) : new RobotConfig(w.r, "c", ns, x));
    switch (s)
    {
        case 0: for (size_t i = 0; i < k.size(); i++) nn[i]->setJointValue(x[i]); break;
        case 1: for (size_t i = 0; i < k.size(); i++) w.r->setJointValue(ns[i], x[i]); break;
        case 2: for (size_t i = 0; i < k.size(); i++) w.r->setJointValue(nn[i], x[i]); break;
        case 3: for (size_t i = 0; i < k.size(); i++) nn[i]->setJointValueNoUpdate(x[i]); w.r->applyJointValues(); break;
        case 4: w.r->setJointValues(mn); break;
        case 5: w.r->setJointValues(mm); break;
        case 6: w.r->setJointValues(nn, x); break;
        case 7: rns->setJointValues(x); break;
        case 8: rns->setJointValues(e); break;
        case 9: w.r->setJointValues(rns, x); break;
        case 10: w.r->setJointValues(rns, e); break;
        case 11: r.check(c->setJointValues(), "config refused", "RobotConfig::setJointValues"); break;
        case 12: r.check(c->setJointValues(w.r), "config refused", "RobotConfig::setJointValues(robot)"); break;
        case 13: w.r->setJointValues(c); break;
        case 14: r.check(w.r->setConfig(c), "config refused", "Robot::setConfig"); break;
        case 15: w.all->setJointValues(c); break;
        case 16: w.r->setJointValues(w.all, c); break;
    }
}

static void setters(mc::Run& r)
{
    int t = r.choose((int)T.size(), "tree");
    World w(T[t]);
    M m(T[t]);
    for (size_t k = 0; k < m.j.size(); k++) m.j[k].v = w.node(m.id[k])->getJointValue();
    int n = (int)m.id.size(), depth = 2;
    for (int d = 0; d < depth; d++)
    {
        int s = r.choose(NS, "setter");
        int mask = 1 + r.choose((1 << n) - 1, "joints");
        int base = r.choose(d && !r.thorough ? 2 : NV, "value");
        if (d && !r.thorough) base = base ? 8 : 2;
        std::vector<int> k;
        std::vector<float> x;
        for (int i = 0; i < n; i++)
            if (mask & (1 << i))
            {
                k.push_back(i);
                x.push_back(value(m.j[i], (base + 2 * (int)k.size() - 2) % NV));
            }
        if (s % 2 && k.size() > 1) // the order of the joints in a set is free
        {
            std::reverse(k.begin(), k.end());
            std::reverse(x.begin(), x.end());
        }
        apply(r, w, m, s, k, x);
        observe(r, w, m, d == depth - 1);
    }
    r.outcome(T[t].name);
}

// limits, limit enforcement and limitless switch change in between
static void limits(mc::Run& r)
{
    int t = r.choose((int)T.size(), "tree");
    World w(T[t]);
    M m(T[t]);
    int n = (int)m.id.size();
    int k = r.choose(n, "joint"), depth = r.thorough ? 5 : 4;
    RobotNodePtr x = w.node(m.id[k]);
    J& a = m.j[k];
    for (int d = 0; d < depth; d++)
    {
        int o = r.choose(d == depth - 1 ? 8 : 13, "op");
        if (o < 8)
        {
            float v = value(a, (int[]){0, 1, 2, 5, 6, 8, 9, 10}[o]);
            if (fabsf(v) > 1e6) r.prune();
            r.step("setJointValue(%.7g)", v);
            if ((o + d) % 2) x->setJointValue(v);
            else
            {
                std::vector<float> c = w.all->getJointValues();
                for (int i = 0; i < n; i++) m.set(i, c[i]);
                c[k] = v;
                w.all->setJointValues(c);
            }
            m.set(k, v);
            observe(r, w, m, false);
            continue;
        }
        if (o == 8 || o == 9)
        {
            bool turn = a.limitless;
            a.lo = o == 8 ? -0.25f : 1.f;
            a.hi = turn ? a.lo + (float)((o == 8 ? 2 : 3.1) * PI) : o == 8 ? 0.5f : 1.5f;
            r.step("setJointLimits(%g,%g)", a.lo, a.hi);
            x->setJointLimits(a.lo, a.hi);
        }
        if (o == 10 || o == 11)
        {
            a.enforce = o == 10;
            r.step("setEnforceJointLimits(%d)", a.enforce);
            x->setEnforceJointLimits(a.enforce);
        }
        if (o == 12)
        {
            if (T[t].n[m.id[k]].kind != 'R') r.prune();
            a.limitless = !a.limitless;
            if (a.limitless) a.hi = a.lo + (float)(2 * PI), x->setJointLimits(a.lo, a.hi);
            r.step("setLimitless(%d)", a.limitless);
            x->setLimitless(a.limitless);
        }
        r.check(x->getJointLimitLo() == a.lo && x->getJointLimitHi() == a.hi && x->getJointLimitLow() == a.lo && x->getJointLimitHigh() == a.hi && x->isLimitless() == a.limitless && x->getEnforceJointLimits() == a.enforce, "limits read back", "%g %g", x->getJointLimitLo(), x->getJointLimitHi());
        observe(r, w, m, false); // changing limits alone does not move the robot
    }
    // queries that only ask about limits, and how far away a value is
    for (int v = 0; v < NV; v++)
    {
        float y = value(a, v), z = y;
        bool in = y >= a.lo && y <= a.hi;
        r.check(x->checkJointLimits(y) == in, "checkJointLimits", "%.9g in %g..%g reported %d", y, a.lo, a.hi, !in);
        x->respectJointLimits(z);
        r.check(z == (y < a.lo ? a.lo : y > a.hi ? a.hi : y), "respectJointLimits", "%.9g became %.9g in %g..%g", y, z, a.lo, a.hi);
        std::vector<float> all = w.all->getJointValues();
        bool others = true;
        for (int i = 0; i < n; i++)
            if (i != k) others = others && m.j[i].v >= m.j[i].lo && m.j[i].v <= m.j[i].hi;
        all[k] = y;
        Eigen::VectorXf e(n);
        for (int i = 0; i < n; i++) e[i] = all[i];
        r.check(w.all->checkJointLimits(all) == (in && others) && w.all->checkJointLimits(e) == (in && others), "set.checkJointLimits", "%.9g in %g..%g", y, a.lo, a.hi);
        w.all->respectJointLimits(all);
        w.all->respectJointLimits(e);
        for (int i = 0; i < n; i++)
        {
            float want = i == k ? y : m.j[i].v;
            want = want < m.j[i].lo ? m.j[i].lo : want > m.j[i].hi ? m.j[i].hi : want;
            r.check(all[i] == want && e[i] == want, "set.respectJointLimits", "member %d: %.9g/%.9g expected %.9g", i, all[i], e[i], want);
        }
        float dl = x->getDelta(y);
        double want = !a.limitless ? (in ? (double)y - a.v : 0) : std::remainder((double)y - a.v, 2 * PI);
        if (a.limitless && (!in || a.v < a.lo || a.v > a.hi)) continue;
        if (a.limitless && a.hi - a.lo > 6.2832f && std::fabs(std::remainder((double)dl - want, 2 * PI)) < 1e-4 * (1 + fabs(y)) && std::fabs(dl) <= std::fabs(y - a.v) + 1e-4) continue; // a range of more than a turn: some equivalent way, no longer than the direct one
        r.check(std::fabs(dl - want) < 1e-4 * (1 + fabs(y)) || (a.limitless && std::fabs(std::fabs(want) - PI) < 1e-4 && std::fabs(std::fabs(dl) - PI) < 1e-4), "getDelta", "from %.9g to %.9g: %.9g, expected %.9g", a.v, y, dl, want);
    }
    observe(r, w, m, true);
    r.outcome("limits");
}

// stored configurations: what was stored is what is applied later, to this robot or to a copy, and nothing else moves
static void configs(mc::Run& r)
{
    int t = r.choose((int)T.size(), "tree");
    World w(T[t]);
    World w2(T[t], BuildOpt(), "twin");
    M m(T[t]), m2(T[t]);
    int n = (int)m.id.size();
    struct S
    {
        RobotConfigPtr c;
        std::map<int, float> v;
        bool twin;
    };
    std::vector<S> st;
    int depth = r.thorough ? 6 : 5;
    for (int d = 0; d < depth; d++)
    {
        int o = r.choose(8, "op");
        if (o >= 3 && st.empty()) r.prune();
        if (o < 2)
        {
            std::vector<int> k;
            std::vector<float> x;
            for (int i = 0; i < n; i++) k.push_back(i), x.push_back(value(m.j[i], o ? 2 : (i % 2 ? 7 : 0)));
            apply(r, w, m, 7, k, x);
        }
        else if (o == 2)
        {
            r.step("store = robot.getConfig()");
            S s;
            s.c = w.r->getConfig();
            s.twin = false;
            for (int i = 0; i < n; i++) s.v[i] = m.j[i].v;
            st.push_back(s);
        }
        else if (o == 3)
        {
            r.step("store.setConfig(joint0, above its limit)");
            int k = d % n;
            float x = value(m.j[k], m.j[k].limitless ? 7 : 5);
            std::string nm = T[t].n[m.id[k]].name;
            bool ok = d % 2 ? st.back().c->setConfig(nm, x) : st.back().c->setConfig(st.back().c->getRobot()->getRobotNode(nm), x);
            r.check(ok, "config refused", "RobotConfig::setConfig");
            st.back().v[k] = x;
        }
        else if (o == 4)
        {
            r.step("store2 = store.clone(twin)");
            S s = st.back();
            s.c = st.back().c->clone(s.twin ? w.r : w2.r);
            s.twin = !s.twin;
            st.push_back(s);
        }
        else if (o == 5 || o == 6)
        {
            S& s = o == 5 ? st.back() : st.front();
            r.step("%s.setJointValues()", o == 5 ? "last" : "first");
            r.check(s.c->setJointValues(), "config refused", "setJointValues");
            for (auto& v : s.v) (s.twin ? m2 : m).set(v.first, v.second);
        }
        else
        {
            S& s = st.back();
            r.step("other robot.setConfig(last)");
            r.check((s.twin ? w.r : w2.r)->setConfig(s.c), "config refused", "setConfig on the twin");
            for (auto& v : s.v) (s.twin ? m : m2).set(v.first, v.second);
        }
        observe(r, w, m, false);
        observe(r, w2, m2, false);
        for (auto& s : st)
            for (int i = 0; i < n; i++)
            {
                std::string nm = T[t].n[m.id[i]].name;
                bool has = s.v.count(i) > 0;
                r.check(s.c->hasConfig(nm) == has && s.c->getConfig(nm) == (has ? s.v[i] : 0.f), "stored configuration changed", "%s: has %d value %.9g, stored %.9g", nm.c_str(), s.c->hasConfig(nm), s.c->getConfig(nm), has ? s.v[i] : 0.f);
            }
    }
    r.outcome("configs");
}

// a configuration that names joints the robot does not have is refused as a whole
static void foreign(mc::Run& r)
{
    int t = r.choose((int)T.size()), u = r.choose((int)T.size());
    if (t == u) r.prune();
    World w(T[t]), o(T[u]);
    M m(T[t]);
    o.all->setJointValues(std::vector<float>(o.all->getSize(), 0.2f));
    for (size_t k = 0; k < m.j.size(); k++) m.set((int)k, value(m.j[k], 2)), w.node(m.id[k])->setJointValue(value(m.j[k], 2));
    RobotConfigPtr c = o.r->getConfig();
    bool known = true;
    for (auto& n : c->getNodes()) known = known && w.r->hasRobotNode(n->getName());
    if (known) r.prune();
    int how = r.choose(2);
    r.step("apply a configuration of %s to %s", T[u].name.c_str(), T[t].name.c_str());
    bool ok = how ? w.r->setConfig(c) : c->setJointValues(w.r);
    r.check(!ok, "foreign configuration accepted", "a configuration with unknown joints was reported as applied");
    observe(r, w, m, true);
    // wrong number of values
    std::vector<float> bad(m.id.size() + 1, 0.1f);
    bool threw = false;
    try { w.all->setJointValues(bad); } catch (VirtualRobotException&) { threw = true; }
    r.check(threw, "wrong dimension accepted", "%zu values for %zu joints", bad.size(), m.id.size());
    observe(r, w, m, true);
    r.outcome("foreign");
}

// value propagation
static void propagate(mc::Run& r)
{
    int t = r.choose((int)T.size(), "tree");
    World w(T[t]);
    M m(T[t]);
    int n = (int)m.id.size();
    if (n < 3) r.prune();
    // edges only from a lower to a higher position of a permuted order, so that there is no circle
    static const int ord[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {2, 0, 3, 1}};
    int p = r.choose(4);
    std::vector<int> s;
    for (int i = 0; i < 4; i++)
        if (ord[p][i] < n) s.push_back(ord[p][i]);
    std::vector<std::map<int, float>> e(n);
    int shape = r.choose(4), fac = r.choose(3);
    static const float F[] = {1.f, -0.5f, 3.f};
    auto edge = [&](int a, int b, float x) {
        e[s[a]][s[b]] = x;
        w.node(m.id[s[a]])->propagateJointValue(T[t].n[m.id[s[b]]].name, x);
        r.note("%s -> %s factor %g", T[t].n[m.id[s[a]]].name.c_str(), T[t].n[m.id[s[b]]].name.c_str(), x);
    };
    edge(0, 1, F[fac]);
    if (shape == 1) edge(1, 2, F[(fac + 1) % 3]);
    if (shape == 2) edge(0, 2, F[(fac + 2) % 3]);
    if (shape == 3 && n > 3) edge(0, 2, F[(fac + 1) % 3]), edge(2, 3, 2.f);
    // apply the model's rule
    std::function<void(int)> spread = [&](int a) {
        for (auto& x : e[a])
        {
            float v = w.node(m.id[a])->getJointValue() * x.second;
            m.set(x.first, v);
            spread(x.first);
        }
    };
    int depth = r.thorough ? 4 : 3;
    for (int d = 0; d < depth; d++)
    {
        int a = r.choose(n + 1, "joint");
        if (a == n) // drop the first propagation
        {
            r.step("propagation %d -> %d removed", s[0], s[1]);
            w.node(m.id[s[0]])->propagateJointValue(T[t].n[m.id[s[1]]].name, 0.f);
            e[s[0]].erase(s[1]);
            observe(r, w, m, false);
            continue;
        }
        float v = value(m.j[a], (int[]){2, 7, 5}[r.choose(3)]);
        r.step("%s = %.7g", T[t].n[m.id[a]].name.c_str(), v);
        switch (d % 3)
        {
            case 0: w.node(m.id[a])->setJointValue(v); break;
            case 1: w.r->setJointValue(T[t].n[m.id[a]].name, v); break;
            default: w.r->setJointValue(w.node(m.id[a]), v);
        }
        m.set(a, v);
        // the value kept by the joint is what is passed on
        float kept = w.node(m.id[a])->getJointValue();
        same(r, "set", "source", m.j[a], kept);
        m.j[a].v = kept;
        std::function<void(int)> sp = [&](int q) {
            for (auto& x : e[q])
            {
                m.set(x.first, m.j[q].v * x.second);
                float g = w.node(m.id[x.first])->getJointValue();
                same(r, "propagated", T[t].n[m.id[x.first]].name.c_str(), m.j[x.first], g);
                m.j[x.first].v = g;
                sp(x.first);
            }
        };
        sp(a);
        observe(r, w, m, false);
        // and the poses follow
        Kin k(T[t]);
        for (int i = 0; i < n; i++) k.q[m.id[i]] = m.j[i].v;
        std::vector<M4> P = k.poses();
        for (size_t i = 0; i < P.size(); i++) r.check(dev(P[i], w.node((int)i)->getGlobalPose()) <= 1, "pose after propagation", "%s", T[t].n[i].name.c_str());
    }
    r.outcome(mc::strf("propagation shape %d", shape));
}

int main(int argc, char** argv)
{
    silence();
    T = trees();
    {
        Tree t; // ranges that do not contain zero
        t.name = "offrange";
        t.n = {R("a", -1, tr(0, 0, 0), V3(0, 0, 1), PI, 3 * PI, 0, true), R("b", 0, tr(10, 0, 0), V3(0, 1, 0), -9, -9 + 2 * PI, 0.2, true), P("c", 1, tr(0, 5, 0), V3(1, 0, 0), 20, 90)};
        T.push_back(t);
    }
    mc::suite("setters", setters, 2);
    mc::suite("limits", limits, 3);
    mc::suite("configs", configs, 3);
    mc::suite("foreign", foreign, 1);
    mc::suite("propagate", propagate, 3);
    return mc::main(argc, argv);
}
