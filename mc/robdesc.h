// Everything a user can read from a robot, as a flat list of named values.
#pragma once
#include "simox.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/Nodes/CameraSensor.h>
#include <VirtualRobot/Nodes/ContactSensor.h>
#include <VirtualRobot/Nodes/ForceTorqueSensor.h>

namespace sx
{
    // kind: t text, n numbers, l numbers that scale with the robot, p pose (translation scales), a angles / plain joint quantities
    struct Val
    {
        char kind;
        std::string s;
        std::vector<double> v;
    };
    typedef std::map<std::string, Val> Desc;
    struct DescOpt
    {
        bool meshes = true;
        bool state = true;     // joint values and poses
        bool names = false;    // robot name and type
        bool files = true;
    };
    inline Val text(const std::string& s)
    {
        return {'t', s, {}};
    }
    inline Val num(double x, char k = 'n')
    {
        return {k, "", {x}};
    }
    template <class M> Val mat(const M& m, char k = 'n')
    {
        Val r = {k, "", {}};
        for (int i = 0; i < m.rows(); i++)
            for (int j = 0; j < m.cols(); j++) r.v.push_back(m(i, j));
        return r;
    }
    inline Val meshVal(VirtualRobot::TriMeshModelPtr m)
    {
        Val r = {'l', "", {}};
        if (!m) return r;
        for (auto& f : m->faces)
            for (unsigned k : {f.id1, f.id2, f.id3})
                for (int i = 0; i < 3; i++) r.v.push_back(m->vertices.at(k)[i]);
        return r;
    }
    inline std::string sensorKind(VirtualRobot::SensorPtr s)
    {
        using namespace VirtualRobot;
        if (boost::dynamic_pointer_cast<ForceTorqueSensor>(s)) return "forcetorque";
        if (boost::dynamic_pointer_cast<ContactSensor>(s)) return "contact";
        if (boost::dynamic_pointer_cast<CameraSensor>(s)) return "camera";
        if (boost::dynamic_pointer_cast<PositionSensor>(s)) return "position";
        return "?";
    }
    inline void describeConfig(Desc& d, const std::string& p, VirtualRobot::RobotConfigPtr c)
    {
        for (auto& x : c->getRobotNodeJointValueMap()) d[p + "." + x.first] = num(x.second, 'a');
        d[p + ".size"] = num((double)c->getNodes().size());
    }
    inline Desc describe(VirtualRobot::RobotPtr r, const DescOpt& o = DescOpt())
    {
        using namespace VirtualRobot;
        Desc d;
        if (o.names)
        {
            d["name"] = text(r->getName());
            d["type"] = text(r->getType());
        }
        d["root"] = text(r->getRootNode() ? r->getRootNode()->getName() : "");
        std::vector<RobotNodePtr> nodes = r->getRobotNodes();
        d["nodes"] = num((double)nodes.size());
        if (o.state) d["base"] = mat(r->getGlobalPose(), 'n');
        for (auto& n : nodes)
        {
            std::string p = n->getName() + ".";
            d[p + "kind"] = text(n->isRotationalJoint() ? "revolute" : n->isTranslationalJoint() ? "prismatic" : "fixed");
            RobotNodePtr par = boost::dynamic_pointer_cast<RobotNode>(n->getParent());
            d[p + "parent"] = text(par ? par->getName() : "");
            d[p + "robot"] = text(n->getRobot() == r ? "own" : "other");
            d[p + "local"] = mat(n->getLocalTransformation(), 'p');
            if (n->isRotationalJoint()) d[p + "axis"] = mat(boost::static_pointer_cast<RobotNodeRevolute>(n)->getJointRotationAxisInJointCoordSystem());
            if (n->isTranslationalJoint()) d[p + "direction"] = mat(boost::static_pointer_cast<RobotNodePrismatic>(n)->getJointTranslationDirectionJointCoordSystem());
            if (!d[p + "kind"].s.compare("fixed") == 0)
            {
                d[p + "lo"] = num(n->getJointLimitLow(), 'a');
                d[p + "hi"] = num(n->getJointLimitHigh(), 'a');
                d[p + "offset"] = num(n->getJointValueOffset(), 'a');
                d[p + "limitless"] = num(n->isLimitless());
                d[p + "enforce"] = num(n->getEnforceJointLimits());
                d[p + "maxVelocity"] = num(n->getMaxVelocity());
                d[p + "maxAcceleration"] = num(n->getMaxAcceleration());
                d[p + "maxTorque"] = num(n->getMaxTorque());
                if (o.state) d[p + "value"] = num(n->getJointValue(), 'a');
            }
            d[p + "mass"] = num(n->getMass());
            d[p + "com"] = mat(n->getCoMLocal(), 'l');
            d[p + "inertia"] = mat(n->getInertiaMatrix());
            d[p + "friction"] = num(n->getFriction());
            d[p + "simulation"] = num(n->getSimulationType());
            std::string ign;
            std::vector<std::string> ic = n->getIgnoredCollisionModels();
            std::sort(ic.begin(), ic.end());
            for (auto& x : ic) ign += x + " ";
            d[p + "ignore"] = text(ign);
            if (o.meshes)
            {
                d[p + "visu"] = meshVal(n->getVisualization() ? n->getVisualization()->getTriMeshModel() : TriMeshModelPtr());
                d[p + "col"] = meshVal(n->getCollisionModel() ? n->getCollisionModel()->getTriMeshModel() : TriMeshModelPtr());
            }
            if (o.state)
            {
                d[p + "pose"] = mat(n->getGlobalPose(), 'P');
                if (o.meshes && n->getCollisionModel()) d[p + "col.pose"] = mat(n->getCollisionModel()->getGlobalPose(), 'P');
                if (o.meshes && n->getVisualization()) d[p + "visu.pose"] = mat(n->getVisualization()->getGlobalPose(), 'P');
            }
            std::vector<SensorPtr> ss = n->getSensors();
            d[p + "sensors"] = num((double)ss.size());
            for (auto& s : ss)
            {
                std::string q = p + "sensor." + s->getName() + ".";
                d[q + "kind"] = text(sensorKind(s));
                d[q + "node"] = text(s->getRobotNode() == n ? "own" : "other");
                d[q + "local"] = mat(s->getRobotNodeToSensorTransformation(), 'p');
                if (o.state) d[q + "pose"] = mat(s->getGlobalPose(), 'P');
                d[q + "found"] = num(r->getSensor(s->getName()) == s);
            }
        }
        std::vector<RobotNodeSetPtr> sets = r->getRobotNodeSets();
        d["sets"] = num((double)sets.size());
        for (auto& s : sets)
        {
            std::string p = "set." + s->getName() + ".", m;
            for (auto& n : s->getAllRobotNodes()) m += n->getName() + (n->getRobot() == r ? " " : "(foreign) ");
            d[p + "members"] = text(m);
            d[p + "root"] = text(s->getKinematicRoot() ? s->getKinematicRoot()->getName() : "");
            d[p + "tcp"] = text(s->getTCP() ? s->getTCP()->getName() : "");
            d[p + "robot"] = text(s->getRobot() == r ? "own" : "other");
        }
        std::vector<EndEffectorPtr> eefs = r->getEndEffectors();
        d["eefs"] = num((double)eefs.size());
        for (auto& e : eefs)
        {
            std::string p = "eef." + e->getName() + ".", m;
            d[p + "base"] = text(e->getBase() ? e->getBase()->getName() : "");
            d[p + "tcp"] = text(e->getTcp() ? e->getTcp()->getName() : "");
            d[p + "gcp"] = text(e->getGCP() ? e->getGCP()->getName() : "");
            d[p + "robot"] = text(e->getRobot() == r ? "own" : "other");
            std::vector<RobotNodePtr> st;
            e->getStatics(st);
            for (auto& n : st) m += n ? n->getName() + (n->getRobot() == r ? " " : "(foreign) ") : "(none) ";
            d[p + "statics"] = text(m);
            std::vector<EndEffectorActorPtr> ac;
            e->getActors(ac);
            d[p + "actors"] = num((double)ac.size());
            for (auto& a : ac)
            {
                int k = 0;
                for (auto& x : a->getDefinition())
                {
                    std::string q = p + a->getName() + mc::strf(".%d.", k++);
                    d[q + "node"] = text(x.robotNode->getName() + (x.robotNode->getRobot() == r ? "" : "(foreign)"));
                    d[q + "mode"] = num(x.colMode);
                    d[q + "direction"] = num(x.directionAndSpeed);
                }
            }
            std::vector<std::string> pr = e->getPreshapes();
            d[p + "preshapes"] = num((double)pr.size());
            for (auto& x : pr) describeConfig(d, p + "preshape." + x, e->getPreshape(x));
        }
        return d;
    }
    // first difference, or ""; 'P' entries are compared unscaled only when scale is 1 (otherwise skipped)
    inline std::string differ(const Desc& a, const Desc& b, double scale = 1, double tolL = 0.01, double tolR = 1e-5, const std::function<bool(const std::string&)>& skip = nullptr)
    {
        for (auto& x : a)
        {
            if (skip && skip(x.first)) continue;
            auto y = b.find(x.first);
            if (y == b.end()) return x.first + " is missing";
            const Val &p = x.second, &q = y->second;
            if (p.kind != q.kind || p.s != q.s) return x.first + ": '" + p.s + "' became '" + q.s + "'";
            if (p.v.size() != q.v.size()) return x.first + mc::strf(": %zu values became %zu", p.v.size(), q.v.size());
            if (p.kind == 'P' && scale != 1) continue;
            for (size_t i = 0; i < p.v.size(); i++)
            {
                bool tr = p.kind == 'l' || ((p.kind == 'p' || p.kind == 'P') && i % 4 == 3 && i < 12);
                double w = p.v[i] * (tr && p.kind != 'P' ? scale : 1), e = std::fabs(w - q.v[i]);
                double tol = tr ? tolL * (1 + std::fabs(w) / 1000) : tolR * (1 + std::fabs(w));
                if (!(e <= tol) && !(p.v[i] == q.v[i])) return x.first + mc::strf("[%zu]: expected %.9g, found %.9g", i, w, q.v[i]);
            }
        }
        for (auto& y : b)
            if (!a.count(y.first) && !(skip && skip(y.first))) return y.first + " appeared";
        return "";
    }
}
