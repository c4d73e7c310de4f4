// Operations on a robot together with their effect on the reference model.
#pragma once
#include "simox.h"

namespace sx
{
    struct World
    {
        VirtualRobot::RobotPtr r;
        Kin k;
        VirtualRobot::RobotNodeSetPtr all, sub, rev; // rev: all, listed backwards; all joints (root: robot root); the joints below joint 0 of the tree's joint list
        int subRoot;
        explicit World(const Tree& t, const BuildOpt& o = BuildOpt(), const std::string& name = "rob") : r(build(t, name, o)), k(t), subRoot(-1)
        {
            sets();
        }
        std::string pfx;
        World(VirtualRobot::RobotPtr rr, const Kin& kk, const std::string& prefix = "") : r(rr), k(kk), subRoot(-1), pfx(prefix)
        {
            sets();
        }
        VirtualRobot::RobotNodePtr node(int i)
        {
            return r->getRobotNode(k.t.n[i].name);
        }
        void sets()
        {
            using namespace VirtualRobot;
            std::vector<RobotNodePtr> a, s;
            std::vector<int> j = k.t.joints();
            for (int i : j) a.push_back(node(i));
            subRoot = j.size() > 1 ? j[1] : j[0];
            for (int i : j)
                if (k.t.below(i, subRoot)) s.push_back(node(i));
            if (r->hasRobotNodeSet(pfx + "all"))
            {
                all = r->getRobotNodeSet(pfx + "all");
                sub = r->getRobotNodeSet(pfx + "sub");
                rev = r->getRobotNodeSet(pfx + "rev");
                return;
            }
            all = RobotNodeSet::createRobotNodeSet(r, pfx + "all", a, r->getRootNode(), a.back(), true);
            sub = RobotNodeSet::createRobotNodeSet(r, pfx + "sub", s, node(subRoot), s.back(), true);
            rev = RobotNodeSet::createRobotNodeSet(r, pfx + "rev", std::vector<RobotNodePtr>(a.rbegin(), a.rend()), r->getRootNode(), a.back(), true);
        }
        std::vector<int> subJoints()
        {
            std::vector<int> s;
            for (int i : k.t.joints())
                if (k.t.below(i, subRoot)) s.push_back(i);
            return s;
        }
    };
    struct Op
    {
        std::string name;
        std::function<void(World&)> run;
    };

    // representative values of a joint: 0 interior, 1 interior', 2 above the range, 3 lower limit, 4 below the range, 5 upper limit
    inline double val(const Node& n, int v)
    {
        double w = n.hi - n.lo;
        switch (v)
        {
            case 0: return n.lo + 0.3 * w;
            case 1: return n.lo + 0.85 * w;
            case 2: return n.hi + 0.4 * w;
            case 3: return n.lo;
            case 4: return n.lo - 0.15 * w;
            case 5: return n.hi;
            default: return 0;
        }
    }
    inline std::vector<M4> basePoses()
    {
        return {M4::Identity(), tr(100, -50, 20), mk(300, 200, -100, V3(0, 0, 1), 1.1), mk(-1000, 50, 10, V3(1, -2, 0.5), 2.4), mk(0, 0, 0, V3(1, 0, 0), PI)};
    }

    // every public way of moving the robot; wide: with more values
    inline std::vector<Op> moveOps(const Tree& t, bool wide)
    {
        using namespace VirtualRobot;
        std::vector<Op> o;
        std::vector<int> J = t.joints();
        for (size_t a = 0; a < J.size(); a++)
        {
            int i = J[a];
            for (int v = 0; v < (wide ? 3 : 1); v++)
            {
                double x = val(t.n[i], v == 0 ? (int)(a % 2) : v + 1);
                auto say = [&](const char* f) { return mc::strf("%s(%s,%.4g)", f, t.n[i].name.c_str(), x); };
                o.push_back({say("node.setJointValue"), [=](World& w) { w.node(i)->setJointValue((float)x); w.k.set(i, x); }});
                if (!wide) continue;
                o.push_back({say("robot.setJointValue"), [=](World& w) { w.r->setJointValue(w.k.t.n[i].name, (float)x); w.k.set(i, x); }});
                if (v == 0) o.push_back({say("robot.setJointValue(node)"), [=](World& w) { w.r->setJointValue(w.node(i), (float)x); w.k.set(i, x); }});
                if (v == 0) o.push_back({say("noUpdate+apply"), [=](World& w) { w.node(i)->setJointValueNoUpdate((float)x); w.r->applyJointValues(); w.k.set(i, x); }});
            }
        }
        for (int b = 0; b < 11; b++)
            for (int v = 0; v < (wide ? 2 : 1); v++)
            {
                if (!wide && b != 0 && b != 5 && b != 6) continue;
                static const char* nm[11] = {"setJointValues(names)", "setJointValues(nodemap)", "setJointValues(nodes)", "set.setJointValues(vector)", "robot.setJointValues(set,eigen)", "sub.setJointValues(vector)", "config.apply", "setJointValues(sub,config)", "rev.setJointValues(config)", "rev.setJointValues(vector)", "robot.setJointValues(rev,eigen)"};
                o.push_back({mc::strf("%s#%d", nm[b], v), [=](World& w) {
                    std::vector<int> j = b == 5 || b == 7 ? w.subJoints() : w.k.t.joints();
                    if (b > 7) std::reverse(j.begin(), j.end());
                    std::map<std::string, float> m;
                    std::map<RobotNodePtr, float> mn;
                    std::vector<RobotNodePtr> nn;
                    std::vector<float> x;
                    for (size_t a = 0; a < j.size(); a++)
                    {
                        double y = val(w.k.t.n[j[a]], v == 0 ? (int)(a + 1) % 2 : (int)a % 6);
                        w.k.set(j[a], y);
                        m[w.k.t.n[j[a]].name] = (float)y;
                        mn[w.node(j[a])] = (float)y;
                        nn.push_back(w.node(j[a]));
                        x.push_back((float)y);
                    }
                    Eigen::VectorXf e((int)x.size());
                    for (size_t a = 0; a < x.size(); a++) e[a] = x[a];
                    RobotConfigPtr c(new RobotConfig(w.r, "c", nn, x));
                    if (b == 0) w.r->setJointValues(m);
                    if (b == 1) w.r->setJointValues(mn);
                    if (b == 2) w.r->setJointValues(nn, x);
                    if (b == 3) w.all->setJointValues(x);
                    if (b == 4) w.r->setJointValues(w.all, e);
                    if (b == 5) w.sub->setJointValues(x);
                    if (b == 6) { if (v) w.r->setJointValues(c); else c->setJointValues(); }
                    if (b == 7) w.r->setJointValues(w.sub, c);
                    if (b == 8) w.rev->setJointValues(c);
                    if (b == 9) w.rev->setJointValues(x);
                    if (b == 10) w.r->setJointValues(w.rev, e);
                }});
            }
        std::vector<M4> B = basePoses();
        for (int b = 0; b < (wide ? (int)B.size() : 1); b++)
        {
            M4 p = wide ? B[b] : B[3];
            o.push_back({mc::strf("setGlobalPose#%d", b), [=](World& w) { w.r->setGlobalPose(f(p)); w.k.base = p; }});
            if (b == 2) o.push_back({"setGlobalPose(no apply)+apply", [=](World& w) { w.r->setGlobalPose(f(p), false); w.r->applyJointValues(); w.k.base = p; }});
        }
        for (size_t i = 0; i < t.n.size(); i++)
        {
            if (!wide && i != t.n.size() - 1) continue;
            for (int b = 0; b < (wide ? 3 : 1); b++)
            {
                M4 p = B[wide ? (b == 2 ? 3 : b) : 1]; // identity orientation first
                o.push_back({mc::strf("setGlobalPoseForRobotNode(%s)#%d", t.n[i].name.c_str(), b), [=](World& w) {
                    M4 cur = w.k.poses()[i];
                    w.r->setGlobalPoseForRobotNode(w.node((int)i), f(p));
                    w.k.base = p * inv(cur) * w.k.base;
                }});
            }
            o.push_back({mc::strf("setGlobalPositionForRobotNode(%s)", t.n[i].name.c_str()), [=](World& w) {
                M4 cur = w.k.poses()[i];
                V3 want(40, -30, 77);
                w.r->setGlobalPositionForRobotNode(w.node((int)i), want.cast<float>());
                w.k.base.block<3, 1>(0, 3) += want - cur.block<3, 1>(0, 3);
            }});
        }
        return o;
    }
}
