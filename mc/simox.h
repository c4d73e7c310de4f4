// Small worlds built through the public API, and an independent double precision kinematic model.
#pragma once
#include "mc.h"
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <VirtualRobot/Nodes/RobotNodeFixed.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <VirtualRobot/Nodes/Sensor.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/RobotFactory.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>
#include <cmath>
#include <iostream>

namespace sx
{
    typedef Eigen::Matrix4d M4;
    typedef Eigen::Matrix3d M3;
    typedef Eigen::Vector3d V3;
    typedef Eigen::Vector4d V4;

    // ------------------------------------------------------------ plain geometry, written out
    inline M4 tr(double x, double y, double z)
    {
        M4 m = M4::Identity();
        m(0, 3) = x;
        m(1, 3) = y;
        m(2, 3) = z;
        return m;
    }
    inline M3 rot3(V3 a, double w)
    {
        double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
        double x = a[0] / n, y = a[1] / n, z = a[2] / n, c = std::cos(w), s = std::sin(w), t = 1 - c;
        M3 r;
        r << t * x * x + c, t * x * y - s * z, t * x * z + s * y, t * x * y + s * z, t * y * y + c, t * y * z - s * x, t * x * z - s * y, t * y * z + s * x, t * z * z + c;
        return r;
    }
    inline M4 rot(V3 a, double w)
    {
        M4 m = M4::Identity();
        m.block<3, 3>(0, 0) = rot3(a, w);
        return m;
    }
    inline M4 mk(double x, double y, double z, V3 a, double w)
    {
        return M4(tr(x, y, z) * rot(a, w));
    }
    inline M4 inv(const M4& m)
    {
        M4 r = M4::Identity();
        r.block<3, 3>(0, 0) = m.block<3, 3>(0, 0).transpose();
        r.block<3, 1>(0, 3) = -(m.block<3, 3>(0, 0).transpose() * m.block<3, 1>(0, 3));
        return r;
    }
    // std::vector of Eigen types is specialised without list constructors
    template <class T> std::vector<T> vec(std::initializer_list<T> l)
    {
        std::vector<T> r;
        for (auto& x : l) r.push_back(x);
        return r;
    }
    inline Eigen::Matrix4f f(const M4& m)
    {
        return m.cast<float>();
    }
    // largest deviation: translation in mm against tolT (scaled by magnitude), rotation entries against tolR; returns <=1 if equal
    inline double dev(const M4& want, const Eigen::Matrix4f& got, double tolT = 0.02, double tolR = 2e-5)
    {
        double d = 0, mag = 1 + want.block<3, 1>(0, 3).norm() / 3000.;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 4; j++)
            {
                double e = std::fabs((double)got(i, j) - want(i, j));
                if (!(e == e)) return 1e30;
                d = std::max(d, e / (j == 3 ? tolT * mag : tolR));
            }
        for (int j = 0; j < 4; j++)
            if (!(std::fabs((double)got(3, j) - (j == 3)) < 1e-6)) d = std::max(d, 1e20);
        return d;
    }
    inline std::string show(const Eigen::Matrix4f& m)
    {
        std::string s = "[";
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 4; j++) s += mc::strf("%.6g%s", m(i, j), j == 3 ? (i == 2 ? "]" : "; ") : " ");
        return s;
    }
    inline std::string show(const M4& m)
    {
        return show(f(m));
    }
    template <class V> std::string showv(const V& v)
    {
        std::string s = "(";
        for (int i = 0; i < (int)v.size(); i++) s += mc::strf(i ? " %.7g" : "%.7g", (double)v[i]);
        return s + ")";
    }
    inline void hash(mc::Hash& h, const Eigen::Matrix4f& m, double qt = 0.1, double qr = 1e-3)
    {
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 4; j++) h.f(m(i, j), j == 3 ? qt : qr);
    }

    // ------------------------------------------------------------ kinematic trees
    struct Node
    {
        std::string name;
        char kind; // F fixed, R revolute, P prismatic
        int parent;
        M4 local;
        V3 axis;
        double lo, hi, offset;
        bool limitless;
        bool sensor;
        double mass;
        V3 com;
    };
    struct Tree
    {
        std::string name;
        std::vector<Node> n;
        std::vector<int> joints() const
        {
            std::vector<int> r;
            for (size_t i = 0; i < n.size(); i++)
                if (n[i].kind != 'F') r.push_back((int)i);
            return r;
        }
        int find(const std::string& s) const
        {
            for (size_t i = 0; i < n.size(); i++)
                if (n[i].name == s) return (int)i;
            return -1;
        }
        bool below(int i, int root) const   // i is root or in the subtree of root
        {
            for (; i >= 0; i = n[i].parent)
                if (i == root) return true;
            return false;
        }
    };
    const double PI = 3.14159265358979323846;
    inline M4 sensorTrafo()
    {
        return mk(11, -7, 5, V3(1, 2, 3), 0.7);
    }

    inline Node F(const char* n, int p, M4 l)
    {
        return {n, 'F', p, l, V3(0, 0, 1), 0, 0, 0, false, false, 0, V3(0, 0, 0)};
    }
    inline Node R(const char* n, int p, M4 l, V3 a, double lo = -PI / 2, double hi = PI / 2, double off = 0, bool limitless = false)
    {
        return {n, 'R', p, l, a, lo, hi, off, limitless, false, 0, V3(0, 0, 0)};
    }
    inline Node P(const char* n, int p, M4 l, V3 a, double lo = -100, double hi = 250, double off = 0)
    {
        return {n, 'P', p, l, a, lo, hi, off, false, false, 0, V3(0, 0, 0)};
    }
    inline Node dh(const char* n, int p, double a, double d, double al, double th)
    {
        M4 m = M4(rot(V3(0, 0, 1), th) * tr(0, 0, d) * tr(a, 0, 0) * rot(V3(1, 0, 0), al));
        return R(n, p, m, V3(0, 0, 1), -2, 2);
    }
    inline std::vector<Tree> trees()
    {
        std::vector<Tree> v;
        const V3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
        {
            Tree t;
            t.name = "chain";
            t.n = {F("base", -1, mk(10, 20, 30, Z, 0.3)), R("j1", 0, tr(0, 0, 100), Z), R("j2", 1, mk(200, 0, 0, X, PI / 2), V3(1, 1, 0), -1, 1.2, 0.25), P("j3", 2, tr(0, 150, 0), X, -50, 120, 7), F("tip", 3, mk(0, 0, 80, Y, -PI / 2))};
            t.n[2].sensor = true;
            v.push_back(t);
        }
        {
            Tree t; // the root itself is a moved joint
            t.name = "rootjoint";
            t.n = {R("root", -1, mk(5, -4, 3, Y, 0.5), Y, -PI, PI, -0.4), R("a", 0, tr(100, 0, 0), X), F("b", 0, mk(0, 60, 0, Z, PI)), P("c", 2, tr(0, 0, 0), V3(0, 0, -1), -100, 100, 0)};
            v.push_back(t);
        }
        {
            Tree t; // branches, a joint whose children come before other joints in name order
            t.name = "branch";
            t.n = {F("r", -1, tr(0, 0, 0)), R("z", 0, tr(0, 0, 50), Z, -2, 2), P("m", 1, mk(30, 0, 0, X, 1), Y, 0, 100, -3), R("a", 1, tr(-30, 0, 0), X, -1, 1), R("k", 3, tr(0, 40, 0), Z, -PI, PI, 0, true), F("leaf1", 2, tr(1, 2, 3)), F("leaf2", 4, mk(9, 0, 0, Y, 2))};
            t.n[3].sensor = t.n[0].sensor = true;
            v.push_back(t);
        }
        {
            Tree t; // limitless joint with a shifted range, oblique axes
            t.name = "limitless";
            t.n = {F("r", -1, mk(1000, -2000, 500, V3(1, 1, 1), 2)), R("u", 0, mk(70, 0, 0, V3(0, 1, 1), -1), V3(-1, 2, 0.5), 0, 2 * PI, 0.5, true), P("v", 1, mk(0, 0, 30, V3(1, 0, 1), 1.5), V3(1, -1, 1).normalized(), -20, 30, 4), R("w", 2, tr(0, 0, 60), V3(0, 0, -1), -0.5, 2)};
            t.n[3].sensor = true;
            v.push_back(t);
        }
        {
            Tree t;
            t.name = "dh";
            t.n = {dh("d1", -1, 50, 100, PI / 2, 0.3), dh("d2", 0, 200, 0, 0, -0.7), dh("d3", 1, 0, 150, -PI / 2, PI / 2), dh("d4", 2, 20, 30, 0.4, 0)};
            v.push_back(t);
        }
        return v;
    }

    struct Kin
    {
        Tree t;
        std::vector<double> q;
        M4 base;
        explicit Kin(const Tree& tree) : t(tree), q(tree.n.size(), 0.0), base(M4::Identity()) {}
        M4 motion(int i) const
        {
            const Node& n = t.n[i];
            if (n.kind == 'R') return rot(n.axis, q[i] + n.offset);
            if (n.kind == 'P')
            {
                V3 d = n.axis / n.axis.norm() * (q[i] + n.offset);
                return tr(d[0], d[1], d[2]);
            }
            return M4::Identity();
        }
        std::vector<M4> poses() const
        {
            std::vector<M4> p(t.n.size());
            for (size_t i = 0; i < t.n.size(); i++) p[i] = (t.n[i].parent < 0 ? base : p[t.n[i].parent]) * t.n[i].local * motion((int)i);
            return p;
        }
        // values that are no longer what was asked for are put to where the joint keeps them
        double clamp(int i, double v) const
        {
            const Node& n = t.n[i];
            if (n.limitless)
            {
                while (v > n.hi + 1e-12) v -= 2 * PI;
                while (v < n.lo - 1e-12) v += 2 * PI;
                return v;
            }
            return v < n.lo ? n.lo : v > n.hi ? n.hi : v;
        }
        void set(int i, double v)
        {
            q[i] = clamp(i, v);
        }
    };

    // ------------------------------------------------------------ meshes and stub visualisation
    struct MeshVisu : public VirtualRobot::VisualizationNode
    {
        VirtualRobot::TriMeshModelPtr triMeshModel;
        explicit MeshVisu(VirtualRobot::TriMeshModelPtr m)
        {
            triMeshModel = m;
        }
        VirtualRobot::TriMeshModelPtr getTriMeshModel() override
        {
            return triMeshModel;
        }
        int getNumFaces() override
        {
            return (int)triMeshModel->faces.size();
        }
        VirtualRobot::VisualizationNodePtr clone(bool deep = true, float scaling = 1.0f) override
        {
            (void)deep;
            Eigen::Vector3f s(scaling, scaling, scaling);
            VirtualRobot::VisualizationNodePtr r(new MeshVisu(triMeshModel->clone(s)));
            r->setGlobalPose(getGlobalPose());
            return r;
        }
    };
    typedef std::vector<Eigen::Vector3f> Pts;
    inline VirtualRobot::TriMeshModelPtr mesh(const Pts& tri) // three points per triangle
    {
        VirtualRobot::TriMeshModelPtr m(new VirtualRobot::TriMeshModel());
        for (size_t i = 0; i + 2 < tri.size(); i += 3)
        {
            Eigen::Vector3f a = tri[i], b = tri[i + 1], c = tri[i + 2];
            m->addTriangleWithFace(a, b, c);
        }
        return m;
    }
    inline Pts boxPts(double sx, double sy, double sz, double cx = 0, double cy = 0, double cz = 0)
    {
        std::vector<Eigen::Vector3f> c;
        for (int i = 0; i < 8; i++) c.push_back(Eigen::Vector3f(cx + ((i & 1) ? sx : -sx) / 2, cy + ((i & 2) ? sy : -sy) / 2, cz + ((i & 4) ? sz : -sz) / 2));
        static const int t[36] = {0, 2, 1, 1, 2, 3, 4, 5, 6, 5, 7, 6, 0, 1, 4, 1, 5, 4, 2, 6, 3, 3, 6, 7, 0, 4, 2, 2, 4, 6, 1, 3, 5, 3, 7, 5};
        Pts p;
        for (int i : t) p.push_back(c[i]);
        return p;
    }
    inline VirtualRobot::VisualizationNodePtr visu(const Pts& p)
    {
        return VirtualRobot::VisualizationNodePtr(new MeshVisu(mesh(p)));
    }
    inline VirtualRobot::CollisionModelPtr colmodel(const Pts& p, const std::string& name, VirtualRobot::CollisionCheckerPtr cc = VirtualRobot::CollisionCheckerPtr())
    {
        return VirtualRobot::CollisionModelPtr(new VirtualRobot::CollisionModel(visu(p), name, cc));
    }

    // ------------------------------------------------------------ the real robot for a tree
    struct BuildOpt
    {
        bool meshes = false;   // every node gets a 10 mm box at its origin
        bool dhCtor = true;    // trees named "dh" are built through the DH constructors
        VirtualRobot::CollisionCheckerPtr cc;
        std::function<void(int, VirtualRobot::RobotNodePtr)> tweak;
        std::function<void(int, VirtualRobot::SceneObject::Physics&)> physics;
    };
    inline VirtualRobot::RobotPtr build(const Tree& t, const std::string& name = "rob", const BuildOpt& o = BuildOpt())
    {
        using namespace VirtualRobot;
        RobotPtr r = RobotFactory::createRobot(name, "model");
        std::vector<RobotNodePtr> nodes;
        std::map<RobotNodePtr, std::vector<std::string>> ch;
        for (size_t i = 0; i < t.n.size(); i++)
        {
            const Node& n = t.n[i];
            VisualizationNodePtr v;
            CollisionModelPtr c;
            if (o.meshes)
            {
                v = visu(boxPts(10, 10, 10));
                c = colmodel(boxPts(10, 10, 10), n.name + "_col", o.cc);
            }
            SceneObject::Physics ph;
            ph.massKg = (float)n.mass;
            ph.localCoM = n.com.cast<float>();
            if (n.mass > 0) ph.comLocation = SceneObject::Physics::eCustom;
            if (o.physics) o.physics((int)i, ph);
            RobotNodePtr x;
            if (n.kind == 'F') x.reset(new RobotNodeFixed(r, n.name, f(n.local), v, c, ph, o.cc));
            else if (n.kind == 'R' && t.name == "dh" && o.dhCtor)
            {
                static const double DH[4][4] = {{50, 100, PI / 2, 0.3}, {200, 0, 0, -0.7}, {0, 150, -PI / 2, PI / 2}, {20, 30, 0.4, 0}};
                x.reset(new RobotNodeRevolute(r, n.name, n.lo, n.hi, DH[i][0], DH[i][1], DH[i][2], DH[i][3], v, c, n.offset, ph, o.cc));
            }
            else if (n.kind == 'R') x.reset(new RobotNodeRevolute(r, n.name, n.lo, n.hi, f(n.local), n.axis.cast<float>(), v, c, n.offset, ph, o.cc));
            else
                x.reset(new RobotNodePrismatic(r, n.name, n.lo, n.hi, f(n.local), n.axis.cast<float>(), v, c, n.offset, ph, o.cc));
            if (n.limitless) x->setLimitless(true);
            if (n.sensor)
            {
                SensorPtr s(new PositionSensor(x, n.name + "_sensor", VisualizationNodePtr(), f(sensorTrafo())));
                x->registerSensor(s);
            }
            if (o.tweak) o.tweak((int)i, x);
            r->registerRobotNode(x);
            nodes.push_back(x);
        }
        for (size_t i = 0; i < t.n.size(); i++)
        {
            std::vector<std::string> c;
            for (size_t k = 0; k < t.n.size(); k++)
                if (t.n[k].parent == (int)i) c.push_back(t.n[k].name);
            ch[nodes[i]] = c;
        }
        if (!RobotFactory::initializeRobot(r, nodes, ch, nodes[0])) throw std::runtime_error("initializeRobot failed");
        return r;
    }
    // swallow the library's console output
    struct Quiet
    {
        std::streambuf *a, *b;
        struct Null : std::streambuf
        {
            int overflow(int c) override
            {
                return c;
            }
        } nul;
        Quiet() : a(std::cout.rdbuf(&nul)), b(std::cerr.rdbuf(&nul)) {}
        ~Quiet()
        {
            std::cout.rdbuf(a);
            std::cerr.rdbuf(b);
        }
    };
    inline void silence()
    {
        static Quiet q;
    }
}
