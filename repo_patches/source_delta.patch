From cb83150efa666f3015ebd6a655c5be5115ce558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 001/146] fix: CompressionBZip2 leaves part of the stream
 trailer unread

When the compressed trailer crossed the 5000 byte input buffer, a reader that asked for exactly the
stored number of bytes and closed was left in front of the remaining trailer bytes instead of behind
the compressed data.
---
 VirtualRobot/Compression/CompressionBZip2.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/VirtualRobot/Compression/CompressionBZip2.cpp b/VirtualRobot/Compression/CompressionBZip2.cpp
index 74a0604..a207259 100644
--- a/VirtualRobot/Compression/CompressionBZip2.cpp
+++ b/VirtualRobot/Compression/CompressionBZip2.cpp
@@ -5093,6 +5093,14 @@ preswitch:
 
             if (bzf->strm.avail_out == 0)
             {
+                // The data is complete, but the stream's trailer may continue behind the input buffer: fetch it,
+                // otherwise its remainder would be left in front of whatever follows in the stream.
+                if (bzf->strm.avail_in == 0 && ((DState*)bzf->strm.state)->state != BZ_X_OUTPUT
+                    && !myfeof(bzf->handleIn))
+                {
+                    continue;
+                }
+
                 BZ_SETERR(BZ_OK);
                 return len;
             };
-- 
2.43.0


From 954c2d1f4ee54595b231bc6d75ffccc9d733ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 002/146] fix: placing a robot by the position of a node resets
 its orientation

---
 VirtualRobot/Robot.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index b8e226a..e2e7a5c 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -831,7 +831,8 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
         
-        if (math::Helpers::Orientation(globalPoseNode).isIdentity())
+        if (math::Helpers::Orientation(globalPoseNode).isIdentity()
+            && math::Helpers::Orientation(node->getGlobalPose()).isIdentity())
         {
             // set position to avoid accumulating rounding errors when using rotation
             return getGlobalPositionForRobotNode(node, math::Helpers::Position(globalPoseNode));
@@ -867,7 +868,10 @@ namespace VirtualRobot
         // apply translation to current global position of robot
         const Eigen::Vector3f robotPosition = getGlobalPosition() + translation;
         
-        return math::Helpers::Pose(robotPosition);
+        // the orientation of the robot stays as it is
+        Eigen::Matrix4f robotPose = getGlobalPose();
+        math::Helpers::Position(robotPose) = robotPosition;
+        return robotPose;
     }
     
     void Robot::setGlobalPositionForRobotNode(
-- 
2.43.0


From 16ce2f896c50174bfe738a6f1d396beec8455409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 003/146] fix: Robot::setConfig reports success for a
 configuration that was refused

---
 VirtualRobot/Robot.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index e2e7a5c..101be24 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -944,8 +944,7 @@ namespace VirtualRobot
             return false;
         }
 
-        setJointValues(c);
-        return true;
+        return c->setJointValues(shared_from_this());
     }
 
     void Robot::setFilename(const std::string& filename)
-- 
2.43.0


From 21503f7a361bd9db180731f69aa11a0cfc754caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 004/146] fix: RobotFactory::attach moves the collision model
 of the object that was copied

---
 VirtualRobot/RobotFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 00c2270..d643be8 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -300,7 +300,7 @@ namespace VirtualRobot
 
         if (o->getCollisionModel())
         {
-            c = o->getCollisionModel();
+            c = o->getCollisionModel()->clone(o->getCollisionChecker());
         }
 
         auto rnf = RobotNodeFixedFactory::createInstance(nullptr);
-- 
2.43.0


From 36aaf143480c1efe046f47e0117e773c6f82925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 005/146] fix: an object can be attached below itself

---
 VirtualRobot/SceneObject.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 3e6ac76..08642b9 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1152,6 +1152,15 @@ namespace VirtualRobot
             return false;
         }
 
+        for (SceneObjectPtr p = getParent(); p; p = p->getParent())
+        {
+            if (p == child)
+            {
+                VR_WARNING << "Trying to attach an object to one of its descendants: " << getName() << "->" << child->getName() << endl;
+                return false;
+            }
+        }
+
         if (hasChild(child->getName()))
         {
             VR_ERROR << " Trying to attach object with name: " << child->getName() << " to " << getName() << ", but a child with same name is already present!" << endl;
-- 
2.43.0


From db3c7d2d1a4242dea5c3f8d8753aed661c4684f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 006/146] fix: a limitless joint whose range does not contain
 zero is put to a wrong angle

Values between zero and the lower limit were negated, and values were reduced towards zero instead of towards the
range, so that they could end beyond its other end.
---
 VirtualRobot/Nodes/RobotNode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 4287337..843f2fc 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -184,10 +184,10 @@ namespace VirtualRobot
         {
             // limitless joint: map q to allowed interval
             if(q > jointLimitHi)
-                q = fmod(q, 2.0f * M_PI);
+                q = jointLimitHi + fmod(q - jointLimitHi, 2.0f * M_PI);
             while (q > jointLimitHi) q -= 2.0f * M_PI;
             if(q < jointLimitLo)
-                q = -fmod(fabs(q), 2.0f * M_PI);
+                q = jointLimitLo - fmod(jointLimitLo - q, 2.0f * M_PI);
             while (q < jointLimitLo) q += 2.0f * M_PI;
         }
         else
-- 
2.43.0


From 4b55e96e59c3111282814973f75f42ecda4e411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 007/146] fix: a cloned contact sensor loses its transformation

---
 VirtualRobot/Nodes/ContactSensor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/ContactSensor.cpp b/VirtualRobot/Nodes/ContactSensor.cpp
index 5f78e2a..531472a 100644
--- a/VirtualRobot/Nodes/ContactSensor.cpp
+++ b/VirtualRobot/Nodes/ContactSensor.cpp
@@ -30,9 +30,12 @@ namespace VirtualRobot
     }
 
 
-    SensorPtr ContactSensor::_clone(const RobotNodePtr newRobotNode, const VisualizationNodePtr /*visualizationModel*/, float /*scaling*/)
+    SensorPtr ContactSensor::_clone(const RobotNodePtr newRobotNode, const VisualizationNodePtr /*visualizationModel*/, float scaling)
     {
-        SensorPtr result(new ContactSensor(newRobotNode, name/*, rnTransformation*/));
+        Eigen::Matrix4f rnt = rnTransformation;
+        rnt.block(0, 3, 3, 1) *= scaling;
+        ContactSensorPtr result(new ContactSensor(newRobotNode, name));
+        result->rnTransformation = rnt;
         return result;
     }
 
-- 
2.43.0


From 394481ddfc7d797a4bb09cba3ef16ad21ff4a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 008/146] fix: a cloned robot node ignores changed limit
 enforcement and local transformation

enforceJointLimits was not copied, so values outside of the limits were clamped while cloning, and nodes that were
defined by DH parameters went back to these when their transformation had been replaced since.
---
 VirtualRobot/Nodes/RobotNode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 843f2fc..20b04b7 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -563,6 +563,11 @@ namespace VirtualRobot
         result->setMaxAcceleration(maxAcceleration);
         result->setMaxTorque(maxTorque);
         result->setLimitless(limitless);
+        result->setEnforceJointLimits(enforceJointLimits);
+
+        // may have been changed since construction
+        result->localTransformation = localTransformation;
+        result->localTransformation.block(0, 3, 3, 1) *= scaling;
 
         std::map< std::string, float>::iterator it = propagatedJointValues.begin();
 
-- 
2.43.0


From c0c3429cd08fa79ff49edcb1c3f97901f29ced0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 009/146] fix: write joint value offset and limitless flag of a
 joint to XML

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp |  9 ++++++++-
 VirtualRobot/Nodes/RobotNodeRevolute.cpp  | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index b5b86fd..02dafd8 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -261,7 +261,14 @@ namespace VirtualRobot
     std::string RobotNodePrismatic::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='prismatic'>" << endl;
+        ss << "\t\t<Joint type='prismatic'";
+
+        if (jointValueOffset != 0.0f)
+        {
+            ss << " offset='" << jointValueOffset << "'";
+        }
+
+        ss << ">" << endl;
         ss << "\t\t\t<translationdirection x='" << jointTranslationDirection[0] << "' y='" << jointTranslationDirection[1] << "' z='" << jointTranslationDirection[2] << "'/>" << endl;
         ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
diff --git a/VirtualRobot/Nodes/RobotNodeRevolute.cpp b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
index 4547b84..192811f 100644
--- a/VirtualRobot/Nodes/RobotNodeRevolute.cpp
+++ b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
@@ -215,9 +215,23 @@ namespace VirtualRobot
     std::string RobotNodeRevolute::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='revolute'>" << endl;
+        ss << "\t\t<Joint type='revolute'";
+
+        if (jointValueOffset != 0.0f)
+        {
+            ss << " offset='" << jointValueOffset << "'";
+        }
+
+        ss << ">" << endl;
         ss << "\t\t\t<axis x='" << jointRotationAxis[0] << "' y='" << jointRotationAxis[1] << "' z='" << jointRotationAxis[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'";
+
+        if (limitless)
+        {
+            ss << " limitless='true'";
+        }
+
+        ss << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
-- 
2.43.0


From 6bb03766c72584111f1ad9bf9a2a1146d7ceb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 010/146] fix: accept the full range of a limitless joint
 despite rounding of its limits

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 825ce02..09c537a 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -155,7 +155,7 @@ namespace VirtualRobot
         if (llAttr != nullptr)
         {
             limitless = isTrue(llAttr->value());
-            if (limitless && unit.isAngle() && (unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) != 360))
+            if (limitless && unit.isAngle() && std::abs(unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) - 360) > 0.01f)
             {
                 VR_WARNING << "Limitless Joint: Angular distance between 'lo' and 'hi' attributes should equal 2*pi [rad] or 360 [deg]." << endl
                            << "Setting 'lo' to -pi and 'hi' to pi [rad]..." << endl;
-- 
2.43.0


From 6d1320deca8310d511fd9aca363a5dc1949f22ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 011/146] fix: write kinematic root and TCP of a robot node set
 to XML

---
 VirtualRobot/RobotNodeSet.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 38cc155..86077aa 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -770,7 +770,19 @@ namespace VirtualRobot
             pre += "\t";
         }
 
-        ss << pre << "<RobotNodeSet name='" << name << "'>\n";
+        ss << pre << "<RobotNodeSet name='" << name << "'";
+
+        if (kinematicRoot)
+        {
+            ss << " kinematicRoot='" << kinematicRoot->getName() << "'";
+        }
+
+        if (tcp)
+        {
+            ss << " tcp='" << tcp->getName() << "'";
+        }
+
+        ss << ">\n";
 
         for (auto & robotNode : robotNodes)
         {
-- 
2.43.0


From b337b295da9b9d06b3f2792cbff3bf6fab96229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 012/146] fix: write the name of a contact sensor to XML

---
 VirtualRobot/Nodes/ContactSensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Nodes/ContactSensor.cpp b/VirtualRobot/Nodes/ContactSensor.cpp
index 531472a..3a59993 100644
--- a/VirtualRobot/Nodes/ContactSensor.cpp
+++ b/VirtualRobot/Nodes/ContactSensor.cpp
@@ -50,7 +50,7 @@ namespace VirtualRobot
             pre += t;
         }
 
-        ss << pre << "<Sensor type='" << ContactSensorFactory::getName() << "'/>" << endl;
+        ss << pre << "<Sensor type='" << ContactSensorFactory::getName() << "' name='" << name << "'/>" << endl;
         std::string pre2 = pre + t;
 
         return ss.str();
-- 
2.43.0


From 598e061460999fac0de429bb26347263b39d7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 013/146] fix: write ignored collisions and friction to XML as
 they are read

---
 VirtualRobot/SceneObject.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 08642b9..1184045 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1387,7 +1387,7 @@ namespace VirtualRobot
 
     bool SceneObject::Physics::isSet()
     {
-        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0);
+        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || friction >= 0.0f || ignoreCollisions.size() > 0);
     }
 
     std::string SceneObject::Physics::toXML(int tabs)
@@ -1423,9 +1423,14 @@ namespace VirtualRobot
         ss << MathTools::getTransformXMLString(inertiaMatrix, tabs + 2, true);
         ss << ta << "\t</InertiaMatrix>\n";
 
+        if (friction >= 0.0f)
+        {
+            ss << ta << "\t<Friction value='" << friction << "'/>\n";
+        }
+
         for (size_t i = 0; i < ignoreCollisions.size(); i++)
         {
-            ss << ta << "\t<IgnoreCollisions name='" << ignoreCollisions[i] << "'/>\n";
+            ss << ta << "\t<IgnoreCollision name='" << ignoreCollisions[i] << "'/>\n";
         }
 
         ss << ta << "</Physics>\n";
-- 
2.43.0


From 59701300a2e6f2c74c75943dca87a56237b4e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 014/146] fix: refuse numbers with trailing characters in XML
 attributes

---
 VirtualRobot/XML/BaseIO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index a15989e..154977f 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -55,7 +55,7 @@ namespace VirtualRobot
         floatStream << std::string(s);
         float result;
 
-        if (!(floatStream >> result))
+        if (!(floatStream >> result) || !(floatStream >> std::ws).eof())
         {
             THROW_VR_EXCEPTION("The string can not be parsed into a float value");
         }
@@ -70,7 +70,7 @@ namespace VirtualRobot
         intStream << std::string(s);
         int result;
 
-        if (!(intStream >> result))
+        if (!(intStream >> result) || !(intStream >> std::ws).eof())
         {
             THROW_VR_EXCEPTION("The string can not be parsed into an int value");
         }
-- 
2.43.0


From 67a24b5c843384ecfb7f825ed310da3ef5da7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 015/146] fix: refuse unknown units in XML attributes

---
 VirtualRobot/XML/BaseIO.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index 154977f..d4fab86 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -458,6 +458,7 @@ namespace VirtualRobot
         for (auto & i : attrStr)
         {
             Units unitsAttribute(getLowerCase(i.c_str()));
+            THROW_VR_EXCEPTION_IF(!unitsAttribute.isAngle() && !unitsAttribute.isLength() && !unitsAttribute.isWeight() && !unitsAttribute.isTime(), "Unknown unit '" << i << "' in <" << node->name() << "> tag." << endl);
             result.push_back(unitsAttribute);
         }
 
@@ -556,6 +557,7 @@ namespace VirtualRobot
             break;
 
             default:
+                THROW_VR_EXCEPTION_IF(!unitsAttribute.isAngle() && !unitsAttribute.isLength() && !unitsAttribute.isWeight() && !unitsAttribute.isTime(), "Unknown unit '" << attr->value() << "' in <" << node->name() << "> tag." << endl);
                 break;
         }
 
-- 
2.43.0


From cca3e9acbb5a934a434aa29b26b5fd13c9d76e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 016/146] fix: a missing joint limit takes its default without
 changing the other limit

---
 VirtualRobot/XML/RobotIO.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 09c537a..91cdc00 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -104,14 +104,12 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -1000 [mm]." << endl;
-                jointLimitLo = -1000.0f;
-                unit = Units("mm");
+                jointLimitLo = unit.isMeter() ? -1.0f : -1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -180 [deg]." << endl;
-                jointLimitLo = float(-M_PI);
-                unit = Units("rad");
+                jointLimitLo = unit.isDegree() ? -180.0f : float(-M_PI);
             }
         }
 
@@ -124,14 +122,12 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 1000 [mm]." << endl;
-                jointLimitLo = 1000.0f;
-                unit = Units("mm");
+                jointLimitHi = unit.isMeter() ? 1.0f : 1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 180 [deg]." << endl;
-                jointLimitHi = float(M_PI);
-                unit = Units("rad");
+                jointLimitHi = unit.isDegree() ? 180.0f : float(M_PI);
             }
         }
 
-- 
2.43.0


From f421bdc32a94d2405592d005ab5c08b38355e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 017/146] fix: convert MaxTorque given in Nmm to Nm

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 91cdc00..ad4a223 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -444,7 +444,7 @@ namespace VirtualRobot
 
                 if (uLength.isMillimeter())
                 {
-                    factor *= 1000.0f;
+                    factor *= 0.001f;
                 }
 
                 maxTorque *= factor;
-- 
2.43.0


From f1f25070bb0e2308128034f938466702f3c71d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 018/146] fix: convert configuration values given in meter to
 mm

---
 VirtualRobot/XML/BaseIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index d4fab86..de7b81b 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1540,7 +1540,7 @@ namespace VirtualRobot
                 }
                 else if (u.isMeter())
                 {
-                    c.value = c.value / 1000.0f;
+                    c.value = c.value * 1000.0f;
                 }
 
                 storeConfigDefinitions.push_back(c);
-- 
2.43.0


From bc72bbe9f2d937984b0ff877e08d6e8da8a35e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 019/146] fix: refuse a robot node set with an unknown
 kinematic root or TCP

---
 VirtualRobot/XML/BaseIO.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index de7b81b..ab0f180 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1639,6 +1639,7 @@ namespace VirtualRobot
         if (!rootNodeName.empty())
         {
             kinRoot = robo->getRobotNode(rootNodeName);
+            THROW_VR_EXCEPTION_IF(!kinRoot, "kinematicRoot '" << rootNodeName << "' of RobotNodeSet '" << nodeSetName << "' not present in the current robot" << endl);
         }
 
         RobotNodePtr tcp;
@@ -1646,6 +1647,7 @@ namespace VirtualRobot
         if (!tcpName.empty())
         {
             tcp = robo->getRobotNode(tcpName);
+            THROW_VR_EXCEPTION_IF(!tcp, "tcp '" << tcpName << "' of RobotNodeSet '" << nodeSetName << "' not present in the current robot" << endl);
         }
 
         RobotNodeSetPtr rns = RobotNodeSet::createRobotNodeSet(robo, nodeSetName, nodeList, kinRoot, tcp, true);
-- 
2.43.0


From 20c4029941c78860344f40fab2007311a3ca15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 020/146] fix: read the limitless attribute in any letter case

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index ad4a223..bfa57c2 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -147,7 +147,7 @@ namespace VirtualRobot
         }
 
         // limitless attribute
-        rapidxml::xml_attribute<>* llAttr = limitsXMLNode->first_attribute("limitless");
+        rapidxml::xml_attribute<>* llAttr = limitsXMLNode->first_attribute("limitless", 0, false);
         if (llAttr != nullptr)
         {
             limitless = isTrue(llAttr->value());
-- 
2.43.0


From 189b274d3c2aca0b9c1b310275beef09ca261fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 021/146] fix: use of freed memory in the error message for
 malformed XML

---
 VirtualRobot/XML/ObjectIO.cpp | 6 ++++--
 VirtualRobot/XML/RobotIO.cpp  | 3 ++-
 VirtualRobot/XML/SceneIO.cpp  | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index 5cbbd92..eb9d162 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -476,10 +476,11 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return ManipulationObjectPtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
@@ -528,10 +529,11 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return ObstaclePtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index bfa57c2..1aa0544 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -1379,10 +1379,11 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return RobotPtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index bf3af0d..2b36688 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -360,10 +360,11 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return ScenePtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
-- 
2.43.0


From af462d493a9820dfd2a3fe4039663539c2f5f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 022/146] fix: refuse a robot structure with a node that has
 several parents or is part of a circle

---
 VirtualRobot/RobotFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index d643be8..6b32446 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -79,7 +79,7 @@ namespace VirtualRobot
                 }
 
                 RobotNodePtr c = robot->getRobotNode(childName);
-                node->attachChild(c);
+                THROW_VR_EXCEPTION_IF(!node->attachChild(c), "Robot " << robot->getName() << ": RobotNode <" << childName << "> can not be a child of <" << node->getName() << ">");
             }
 
             iterC++;
-- 
2.43.0


From 9f9e1aa84866e6093f0a5024f56b11dcc6873664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 023/146] fix: refuse joint limits that are not numbers instead
 of taking the default

---
 VirtualRobot/XML/RobotIO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 1aa0544..9320654 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -95,11 +95,11 @@ namespace VirtualRobot
 
         Units unit = getUnitsAttribute(limitsXMLNode, Units::eIgnore);
 
-        try
+        if (limitsXMLNode->first_attribute("lo", 0, false))
         {
             jointLimitLo = getFloatByAttributeName(limitsXMLNode, "lo");
         }
-        catch (...)
+        else
         {
             if (unit.isLength())
             {
@@ -113,11 +113,11 @@ namespace VirtualRobot
             }
         }
 
-        try
+        if (limitsXMLNode->first_attribute("hi", 0, false))
         {
             jointLimitHi = getFloatByAttributeName(limitsXMLNode, "hi");
         }
-        catch (...)
+        else
         {
             if (unit.isLength())
             {
-- 
2.43.0


From d796b1847a7bca02eca70018ee7303565db39d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 024/146] fix: keep a small inertia matrix instead of replacing
 it by an estimate

---
 VirtualRobot/SceneObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 1184045..dba0cb5 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -737,7 +737,7 @@ namespace VirtualRobot
         }
 
         // check for inertia matrix determination
-        if (physics.inertiaMatrix.isZero())
+        if (physics.inertiaMatrix.isZero(0))
         {
             if (physics.massKg <= 0)
             {
-- 
2.43.0


From 16bc63a703a90fa27b71114e3cc13477a01f54c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 025/146] fix: VoxelTreeND::getEntry returns nothing for
 positions outside of a single voxel tree

---
 VirtualRobot/Workspace/VoxelTreeND.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/Workspace/VoxelTreeND.hpp b/VirtualRobot/Workspace/VoxelTreeND.hpp
index ab7fd8a..fe60e7d 100644
--- a/VirtualRobot/Workspace/VoxelTreeND.hpp
+++ b/VirtualRobot/Workspace/VoxelTreeND.hpp
@@ -160,6 +160,12 @@ namespace VirtualRobot
         */
         T* getEntry(float pos[N])
         {
+            // a tree that consists of a single voxel has no child lookup that would reject positions outside of the extends
+            if (!root->covers(pos))
+            {
+                return NULL;
+            }
+
             return root->getEntry(pos);
         }
 
-- 
2.43.0


From cc96f09238332962257efadd3fffad2b7640ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 026/146] fix: FileIO reports an unexpected end of file instead
 of returning uninitialized values

---
 VirtualRobot/XML/FileIO.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VirtualRobot/XML/FileIO.h b/VirtualRobot/XML/FileIO.h
index 85489fa..e8bdad0 100644
--- a/VirtualRobot/XML/FileIO.h
+++ b/VirtualRobot/XML/FileIO.h
@@ -23,6 +23,7 @@
 #pragma once
 
 #include "../VirtualRobot.h"
+#include "../VirtualRobotException.h"
 
 #include <vector>
 #include <fstream>
@@ -37,12 +38,14 @@ namespace VirtualRobot
         {
             T t;
             file.read((char*)&t, sizeof(T));
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
             return t;
         }
 
         template<typename T> inline void readArray(T* res, int num, std::ifstream& file)
         {
             file.read((char*)res, num * sizeof(T));
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
         }
 
         template<typename T> inline void write(std::ofstream& file, T value)
@@ -70,6 +73,7 @@ namespace VirtualRobot
             data[length] = '\0';
             res = data;
             delete[] data;
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
             return true;
         }
 
-- 
2.43.0


From 9cab7ac98c7c2e553babfe66b568e311077e9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 027/146] fix: workspace data without base node no longer gets
 the TCP as base node when loaded

---
 VirtualRobot/XML/FileIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/XML/FileIO.h b/VirtualRobot/XML/FileIO.h
index e8bdad0..461dee3 100644
--- a/VirtualRobot/XML/FileIO.h
+++ b/VirtualRobot/XML/FileIO.h
@@ -64,6 +64,7 @@ namespace VirtualRobot
 
             if (length <= 0)
             {
+                res.clear();
                 VR_WARNING << "Bad string length: " << length << std::endl;
                 return false;
             }
-- 
2.43.0


From a9daf3f9aa2a4174e80b1448e6911089356a4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 028/146] fix: WorkspaceRepresentation::load reports damaged
 data instead of returning a part of it

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 99f3d32..ffab384 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -428,10 +428,9 @@ namespace VirtualRobot
 
                                 if (!readOK || (n != dataSize && n != 0))
                                 {
-                                    VR_ERROR << "Invalid number of bytes?!" << endl;
+                                    delete[] uncompressedData;
                                     bzip2->close();
-                                    file.close();
-                                    return;
+                                    THROW_VR_EXCEPTION("Invalid number of bytes?!");
                                 }
 
                                 if (n == 0) // no data in block
-- 
2.43.0


From c2e3a26523e2e0abc45ccf4cac24206d0deff93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 029/146] fix: WorkspaceRepresentation::save reports when the
 file could not be written

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index ffab384..b936d18 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -607,11 +607,12 @@ namespace VirtualRobot
 
             if (!data->save(file))
             {
-                VR_ERROR << "Unable to store data!" << endl;
-                return;
+                THROW_VR_EXCEPTION("Unable to store data!");
             }
 
             FileIO::writeString(file, "DATA_END");
+            file.flush();
+            THROW_VR_EXCEPTION_IF(!file, "Could not write file " << filename);
         }
         catch (VirtualRobotException& e)
         {
-- 
2.43.0


From b963d8f00f26ff9c702c2d4d684849ef650f55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 030/146] fix: WorkspaceDataArray::setDatum keeps the number of
 filled voxels when zero is written

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 5a888dc..3a838b1 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -167,10 +167,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x0, x1, x2, x3, x4, x5, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value > 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] > 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
@@ -186,10 +190,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value > 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] > 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
-- 
2.43.0


From 3e993a866bc0a6cdf2499b50a588ddc79115541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 031/146] fix: WorkspaceDataArray::sumAngleReachabilities sums
 up existing entries

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 3a838b1..77595fa 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -269,7 +269,7 @@ namespace VirtualRobot
     {
         int res = 0;
 
-        if (hasEntry(x0, x1, x2))
+        if (!hasEntry(x0, x1, x2))
         {
             return 0;
         }
-- 
2.43.0


From f3a21f9a3b0f2e6407e03f182571b67ec66ce3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 032/146] fix: WorkspaceDataArray::binarize does not raise the
 maximum entry

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 77595fa..c70ecd9 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -348,7 +348,10 @@ namespace VirtualRobot
             }
         }
 
-        maxEntry = minValidValue;
+        if (maxEntry > minValidValue)
+        {
+            maxEntry = minValidValue;
+        }
     }
 
     void WorkspaceDataArray::bisectData()
-- 
2.43.0


From 5d7ce00a59e0cd969a348e9f99437bc1c7ad8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 033/146] fix: WorkspaceRepresentation::fillHoles fills empty
 voxels, not the covered ones

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index b936d18..f8ab956 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1392,7 +1392,7 @@ namespace VirtualRobot
                         for (x[4] = 1; x[4] < (unsigned int)numVoxels[4] - 1; x[4]++)
                             for (x[5] = 1; x[5] < (unsigned int)numVoxels[5] - 1; x[5]++)
                             {
-                                if (data->get(x) > 0)
+                                if (data->get(x) == 0)
                                 {
                                     int sum = 0;
                                     int count = 0;
-- 
2.43.0


From b1b3a493ef00ab2fd41f2393c1b4648e4e2f5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 034/146] fix: WorkspaceRepresentation initializes
 adjustOnOverflow

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index f8ab956..1a5e7ca 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -31,6 +31,7 @@ namespace VirtualRobot
         versionMajor = 2;
         versionMinor = 9;
         orientationType = Hopf;//EulerXYZExtrinsic;
+        adjustOnOverflow = true;
         reset();
     }
 
-- 
2.43.0


From 8ba85efa4859c354258696422252bcc692949656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 035/146] fix: VoxelTreeND::load does not read arbitrary bytes
 into a bool

---
 VirtualRobot/Workspace/VoxelTreeND.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/VoxelTreeND.hpp b/VirtualRobot/Workspace/VoxelTreeND.hpp
index fe60e7d..748959e 100644
--- a/VirtualRobot/Workspace/VoxelTreeND.hpp
+++ b/VirtualRobot/Workspace/VoxelTreeND.hpp
@@ -381,7 +381,7 @@ namespace VirtualRobot
                         return NULL;
                     }*/
                     // read leaf
-                    bool leaf = false;
+                    unsigned char leaf = 0; // not a bool, damaged files may contain other values than 0 and 1
                     dataSize = sizeof(bool);
                     bzip2->read((void*)(&(leaf)), dataSize, n);
 
-- 
2.43.0


From 4b4a987000eba89af6245acd4fdb7cbeab53dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 036/146] fix: the bounds of a workspace cut match its cells

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 1a5e7ca..15fc09a 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1632,6 +1632,9 @@ namespace VirtualRobot
         unsigned int v[6];
 
         result->entries.resize(numVoxelsX, numVoxelsY);
+        // the extends of the cells that are set up here (the last, partial cells are not part of the cut)
+        result->maxBounds[0] = result->minBounds[0] + (float)numVoxelsX * cellSize;
+        result->maxBounds[1] = result->minBounds[1] + (float)numVoxelsY * cellSize;
 
 
         for (int a = 0; a < numVoxelsX; a++)
-- 
2.43.0


From d943b11900eb169c8b7a3aea330b650e7018508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 037/146] fix: WorkspaceRepresentation keeps adjustOnOverflow
 when initialized or loaded

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 15fc09a..3066e74 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -344,6 +344,7 @@ namespace VirtualRobot
             THROW_VR_EXCEPTION_IF(tmpString != "DATA_START", "Bad file format, expecting DATA_START.");
 
             long size = numVoxels[0] * numVoxels[1] * numVoxels[2] * numVoxels[3] * numVoxels[4] * numVoxels[5];
+            adjustOnOverflow = true;
             data.reset(new WorkspaceDataArray(numVoxels[0], numVoxels[1], numVoxels[2], numVoxels[3], numVoxels[4], numVoxels[5], true));
 
             if (version[0] <= 1 || (version[0] == 2 && version[1] <= 3))
@@ -1193,6 +1194,7 @@ namespace VirtualRobot
             THROW_VR_EXCEPTION_IF((numVoxels[i] <= 0), " numVoxels <= 0 in dimension " << i);
         }
 
+        this->adjustOnOverflow = adjustOnOverflow;
         data.reset(new WorkspaceDataArray(numVoxels[0], numVoxels[1], numVoxels[2], numVoxels[3], numVoxels[4], numVoxels[5], adjustOnOverflow));
 
         customInitialize();
-- 
2.43.0


From e9121ab7f27ea2bca71736738438a4fc229ae301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 038/146] fix: VoxelTreeND::load refuses unknown element ids
 instead of dereferencing NULL

---
 VirtualRobot/Workspace/VoxelTreeND.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/VoxelTreeND.hpp b/VirtualRobot/Workspace/VoxelTreeND.hpp
index 748959e..ebb9375 100644
--- a/VirtualRobot/Workspace/VoxelTreeND.hpp
+++ b/VirtualRobot/Workspace/VoxelTreeND.hpp
@@ -436,7 +436,7 @@ namespace VirtualRobot
                     VoxelTreeNDElement<T, N>* e = idElementMapping[d.id];
 
                     //VoxelTreeNDElement<T,N> *e = idElementMapping[unsigned int(i+1)];
-                    if (!e->read(d, idElementMapping))
+                    if (!e || !e->read(d, idElementMapping))
                     {
                         VR_ERROR << "Could not create element" << endl;
                         bzip2->close();
-- 
2.43.0


From c932d6344fe75665aa4d7cebf3b17ffee27cb5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 039/146] fix: VoxelTreeND::load refuses damaged files in which
 elements are shared

---
 VirtualRobot/Workspace/VoxelTreeND.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/VirtualRobot/Workspace/VoxelTreeND.hpp b/VirtualRobot/Workspace/VoxelTreeND.hpp
index ebb9375..599453f 100644
--- a/VirtualRobot/Workspace/VoxelTreeND.hpp
+++ b/VirtualRobot/Workspace/VoxelTreeND.hpp
@@ -30,6 +30,7 @@
 #include "VoxelTreeNDElement.hpp"
 
 #include <string>
+#include <set>
 #include <vector>
 #include <iomanip>
 
@@ -331,6 +332,8 @@ namespace VirtualRobot
                 int numChildren = VirtualRobot::MathTools::pow_int(2, N);
                 unsigned int* childIDs = new unsigned int[numChildren];
                 int n;
+                std::set<unsigned int> elementIDs;
+                std::set<unsigned int> childElementIDs;
 
                 for (int64_t i = 0; i < nrElements; i++)
                 {
@@ -433,6 +436,14 @@ namespace VirtualRobot
                         }
                     }
 
+                    // each element must be given once and must have one parent (except the root)
+                    THROW_VR_EXCEPTION_IF(!elementIDs.insert(d.id).second, "Element is given twice: " << d.id);
+
+                    for (size_t c = 0; c < d.children.size(); c++)
+                    {
+                        THROW_VR_EXCEPTION_IF(d.children[c] == 1 || (d.children[c] > 0 && !childElementIDs.insert(d.children[c]).second), "Invalid child element: " << d.children[c]);
+                    }
+
                     VoxelTreeNDElement<T, N>* e = idElementMapping[d.id];
 
                     //VoxelTreeNDElement<T,N> *e = idElementMapping[unsigned int(i+1)];
-- 
2.43.0


From cfd5f6265a530e63e4a0efb750f12f5326d7ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 040/146] fix: CDManager: each pair of different objects is
 registered and queried once, no object against itself

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index aa854b6..7561767 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -14,6 +14,15 @@ using namespace std;
 namespace VirtualRobot
 {
 
+    namespace
+    {
+        //! Two sets are the same if they are identical or if both hold nothing but the same object.
+        bool isSameSet(const SceneObjectSetPtr& a, const SceneObjectSetPtr& b)
+        {
+            return a == b || (a->getSize() == 1 && b->getSize() == 1 && a->getSceneObject(0) == b->getSceneObject(0));
+        }
+    }
+
     CDManager::CDManager(CollisionCheckerPtr colChecker)
     {
         if (colChecker == nullptr)
@@ -38,9 +47,12 @@ namespace VirtualRobot
                 VR_WARNING << "CollisionModel of SceneObjectSet '" << m->getName() << "' is linked to a different instance of collision checker than this CollisionManager..." << endl;
             }
 
-            for (const auto & colModel : colModels)
+            // addCollisionModelPair may extend colModels
+            const std::vector<SceneObjectSetPtr> currentModels = colModels;
+
+            for (const auto & colModel : currentModels)
             {
-                if (m != colModel)
+                if (!isSameSet(m, colModel))
                 {
                     addCollisionModelPair(colModel, m);
                 }
@@ -74,7 +86,7 @@ namespace VirtualRobot
         // check all colmodels
         for (const auto & colModel : colModels)
         {
-            if (m != colModel)
+            if (!isSameSet(m, colModel))
             {
                 if (colChecker->checkCollision(colModel, m))
                 {
@@ -102,7 +114,7 @@ namespace VirtualRobot
         // check all colmodels
         for (const auto & colModel : colModels)
         {
-            if (m != colModel)
+            if (!isSameSet(m, colModel))
             {
                 tmp = (float)colChecker->calculateDistance(colModel, m);
 
@@ -248,6 +260,11 @@ namespace VirtualRobot
 
         for (const auto & colModel : colModels)
         {
+            if (isSameSet(m, colModel))
+            {
+                continue;
+            }
+
             tmp = (float)colChecker->calculateDistance(m, colModel, _P1, _P2, &_trID1, &_trID2);
 
             if (tmp < minDist)
@@ -332,12 +349,7 @@ namespace VirtualRobot
     {
         for (auto & colModel : colModels)
         {
-            if (colModel == m)
-            {
-                return true;
-            }
-
-            if (m->getSize() == 1 && colModel->getSize() == 1 &&  colModel->getSceneObject(0) == m->getSceneObject(0))
+            if (isSameSet(m, colModel))
             {
                 return true;
             }
-- 
2.43.0


From af50ef6e7c0b2182790809ae81e2afec0d70f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 041/146] fix: CollisionCheckerPQP: point check uses the given
 tolerance

---
 VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
index 23bd8cd..878ae15 100644
--- a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
+++ b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
@@ -132,7 +132,7 @@ namespace VirtualRobot
             pqpChecker->PQP_Tolerance(&result,
                                       R1, T1, m1.get(),
                                       R2, T2, pointModel.get(),
-                                      50);
+                                      tolerance);
 
 
 
-- 
2.43.0


From 146030acc16f2a035f0c7ab0a8b6eaa5569bd509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 042/146] fix: MathTools::slerp returns the interpolated
 quaternion

---
 VirtualRobot/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 8fe6837..66f14e0 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1541,8 +1541,8 @@ namespace VirtualRobot
         Eigen::Quaternion<float> eq = eq1.slerp(alpha, eq2);
         MathTools::Quaternion res;
         res.x = eq.x();
-        res.y = eq.z();
-        res.z = eq.x();
+        res.y = eq.y();
+        res.z = eq.z();
         res.w = eq.w();
         return res;
     }
-- 
2.43.0


From 9610e241e257919ec6dd0bd4dd3c55b833cb2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 043/146] fix: MathTools::eigen4f2rpy is accurate near the
 singularities

---
 VirtualRobot/MathTools.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 66f14e0..ab78e8b 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -213,9 +213,11 @@ namespace VirtualRobot
         }
         else
         {
-            float cb = 1.0f / cosf(beta);
-            alpha = std::atan2(m(1, 0) * cb, m(0, 0) * cb);
-            gamma = std::atan2(m(2, 1) * cb, m(2, 2) * cb);
+            // gamma is computed relative to alpha, so that their sum stays accurate near the singularities
+            alpha = std::atan2(m(1, 0), m(0, 0));
+            const float sa = sinf(alpha);
+            const float ca = cosf(alpha);
+            gamma = std::atan2(sa * m(0, 2) - ca * m(1, 2), ca * m(1, 1) - sa * m(0, 1));
         }
 
         x[0] = m(0, 3);
-- 
2.43.0


From 5eeb8f5e0957071708311e26549a3cd3d2efe16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 044/146] fix: MathTools::quat2eigen3f is defined in its
 namespace

---
 VirtualRobot/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index ab78e8b..79dce9b 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -759,7 +759,7 @@ namespace VirtualRobot
     }
 
 
-    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT quat2eigen3f(float qx, float qy, float qz, float qw)
+    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT MathTools::quat2eigen3f(float qx, float qy, float qz, float qw)
     {
         return Eigen::Quaternionf{qw, qx, qy, qz}.toRotationMatrix();
     }
-- 
2.43.0


From 7dc5a31688426ccb5c5cc3e365a009ffaa623acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 045/146] fix: Helpers::LimitVectorLength limits the vector

---
 VirtualRobot/math/Helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Helpers.cpp b/VirtualRobot/math/Helpers.cpp
index 59a264a..64b2d9d 100644
--- a/VirtualRobot/math/Helpers.cpp
+++ b/VirtualRobot/math/Helpers.cpp
@@ -343,7 +343,7 @@ Eigen::VectorXf Helpers::LimitVectorLength(const Eigen::VectorXf& vec, const Eig
             scale = std::min(scale, maxLen(j) / std::abs(vec(i)));
         }
     }
-    return vec / scale;
+    return vec * scale;
 }
 
 Eigen::AngleAxisf Helpers::GetAngleAxisFromTo(const Eigen::Matrix3f& start, const Eigen::Matrix3f& target)
-- 
2.43.0


From d5daddc4df0617881dcb6b13e181de90e9c7ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 046/146] fix: LinearInterpolatedOrientation does not depend on
 the time scale

---
 VirtualRobot/math/LinearInterpolatedOrientation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/LinearInterpolatedOrientation.cpp b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
index ffea50c..371d70a 100644
--- a/VirtualRobot/math/LinearInterpolatedOrientation.cpp
+++ b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
@@ -45,7 +45,7 @@ LinearInterpolatedOrientation::LinearInterpolatedOrientation(const Eigen::Matrix
 
 Eigen::Quaternionf math::LinearInterpolatedOrientation::Get(float t)
 {
-    if(derivative.squaredNorm() < 0.001)
+    if(fabs(angle) < 0.01)
     {
         return startOri;
     }
-- 
2.43.0


From 02e40e39499bc2a03902caf7705272ef0b093a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 047/146] fix: MathTools::getRotation is accurate for nearly
 opposite vectors

---
 VirtualRobot/MathTools.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 79dce9b..42363dc 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -618,18 +618,19 @@ namespace VirtualRobot
 
     MathTools::Quaternion MathTools::getRotation(const Eigen::Vector3f& from, const Eigen::Vector3f& to)
     {
-        Eigen::Vector3f fromN = from;
+        // single precision is not sufficient for (nearly) opposite vectors
+        Eigen::Vector3d fromN = from.cast<double>();
         fromN.normalize();
-        Eigen::Vector3f toN = to;
+        Eigen::Vector3d toN = to.cast<double>();
         toN.normalize();
 
         // rotation of the plane
-        float d = fromN.dot(toN);
-        Eigen::Vector3f crossvec = fromN.cross(toN);
-        float crosslen = crossvec.norm();
+        double d = fromN.dot(toN);
+        Eigen::Vector3d crossvec = fromN.cross(toN);
+        double crosslen = crossvec.norm();
         MathTools::Quaternion quat;
 
-        if (crosslen == 0.0f)
+        if (crosslen < 1e-7)
         {
             // Parallel vectors
             if (d > 0.0f)
@@ -640,12 +641,12 @@ namespace VirtualRobot
             {
                 // parallel and pointing in opposite direction
                 // crossing with x axis.
-                Eigen::Vector3f t = fromN.cross(Eigen::Vector3f(1.0f, 0.0f, 0.0f));
+                Eigen::Vector3d t = fromN.cross(Eigen::Vector3d(1.0, 0.0, 0.0));
 
                 // no->cross with y axis.
-                if (t.norm() == 0.0f)
+                if (t.norm() < 1e-6)
                 {
-                    t = fromN.cross(Eigen::Vector3f(0.0f, 1.0f, 0.0f));
+                    t = fromN.cross(Eigen::Vector3d(0.0, 1.0, 0.0));
                 }
 
                 t.normalize();
@@ -660,11 +661,11 @@ namespace VirtualRobot
             // not parallel
             crossvec.normalize();
             // The abs() wrapping is to avoid problems when d overflows
-            crossvec *= std::sqrt(0.5f * std::abs(1.0f - d));
+            crossvec *= std::sqrt(0.5 * std::abs(1.0 - d));
             quat.x = crossvec[0];
             quat.y = crossvec[1];
             quat.z = crossvec[2];
-            quat.w = std::sqrt(0.5f * std::abs(1.f + d));
+            quat.w = std::sqrt(0.5 * std::abs(1.0 + d));
         }
 
         return quat;
-- 
2.43.0


From ebdead6715e0a92a435278a90f3f966bcf01134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 048/146] fix: MathTools::projectPointToPlane2D is the inverse
 of planePoint3D

---
 VirtualRobot/MathTools.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 42363dc..95a9f0f 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -702,12 +702,10 @@ namespace VirtualRobot
         Quaternion quat = getRotation(plane.n, normalUp);
 
         Eigen::Matrix4f rotationMatrix = quat2eigen4f(quat);
-        rotationMatrix(0, 3) = -plane.p(0);
-        rotationMatrix(1, 3) = -plane.p(1);
-        rotationMatrix(2, 3) = -plane.p(2);
 
-        // transform point
-        Eigen::Vector4f pt4(ptPlane(0), ptPlane(1), ptPlane(2), 1.0f);
+        // transform point relative to plane.p
+        Eigen::Vector3f ptLocal = ptPlane - plane.p;
+        Eigen::Vector4f pt4(ptLocal(0), ptLocal(1), ptLocal(2), 1.0f);
         pt4 = rotationMatrix * pt4;
 
         // now the z coordinate is 0 and we are in the local 2d coordinate system
-- 
2.43.0


From 981ac8a6535589e90f43bbeb5dc8a7cce0c289d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 049/146] fix: MathTools::intersectPlanes recognises
 anti-parallel planes

---
 VirtualRobot/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 95a9f0f..8f30712 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1590,7 +1590,7 @@ namespace VirtualRobot
 
         float dotpr = p1.n.dot(p2.n);
 
-        if (std::abs(dotpr - 1.0f) < 1.e-6f)
+        if (std::abs(std::abs(dotpr) - 1.0f) < 1.e-6f)
         {
             // planes are parallel
             MathTools::Line l(Eigen::Vector3f(0, 0, 0), Eigen::Vector3f(0, 0, 0));
-- 
2.43.0


From ecf952848d189682cfebb42237e2de2cef3cd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 050/146] fix: MathTools::getTriangleArea of degenerate
 triangles is not NaN

---
 VirtualRobot/MathTools.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 8f30712..d1c4ee8 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -2117,22 +2117,9 @@ namespace VirtualRobot
     {
         Eigen::Vector3f ab = b - a;
         Eigen::Vector3f ac = c - a;
-        
-        float abNorm = ab.norm();
-        float acNorm = ac.norm();
-        
-        if (abNorm <= 0 || acNorm <= 0) return 0;  // collapsed triangle
-        
-        // alpha := angle at a, i.e. between ab and ac
-        // => cos(alpha) = ab * ac
-        // => sin(alpha) = sqrt( 1 - cos(alpha)^2 )
-        float cos_alpha = (ab / abNorm).dot(ac / acNorm);
-        float sin_alpha = std::sqrt(1 - cos_alpha * cos_alpha);
-        
-        // area = 1/2 * sin(alpha) * |ab| * |ac|
-        // (where sin(alpha) * |ab| = distance of b to |ac|)
-        float area = 0.5f * sin_alpha * abNorm * acNorm;
-        return area;
+
+        // area = 1/2 * sin(alpha) * |ab| * |ac| = 1/2 * |ab x ac|
+        return 0.5f * ab.cross(ac).norm();
     }
 
 
-- 
2.43.0


From 0a80d59b72630f7ddc1c09e37db9e0a647a2c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 051/146] fix: MathTools::GramSchmidt orthonormalises every
 basis

---
 VirtualRobot/MathTools.cpp | 43 ++++----------------------------------
 1 file changed, 4 insertions(+), 39 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index d1c4ee8..7b83905 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1049,7 +1049,8 @@ namespace VirtualRobot
             // remain order of basis vectors
             for (size_t i = 0; i < dim; i++)
             {
-                if (containsVector(basisVectors, basis[i]))
+                if (containsVector(basisVectors, basis[i])
+                    && std::find(tmpBasisV.begin(), tmpBasisV.end(), basis[i]) == tmpBasisV.end())
                 {
                     tmpBasisV.push_back(basis[i]);
                 }
@@ -1126,51 +1127,15 @@ namespace VirtualRobot
             }
         }*/
 
-        // check with which basis vector we must start
-
         // norm the first vector
         basis[0].normalize();
-        std::size_t startWith = 0;
-		size_t pos = 1;
 
-        while (pos < dim)
+        for (size_t i = 1; i < dim; i++) // each basis vector
         {
-            for (size_t i = 0; i < pos; i++)
-            {
-                if (basis[i].dot(basis[pos]) != 0)
-                {
-                    startWith = pos;
-                    pos = dim + 1; // end loop
-                    break;
-                }
-            }
-
-            pos++;
-        }
-
-        if (startWith == 0)
-        {
-            // nothing to do
-            return true;
-        }
-
-
-        float scPr;
-
-        for (size_t i = startWith; i < dim; i++) // each basis vector
-        {
-            // store original vector
-            Eigen::Vector3f tmp = basis[i];
-
             for (size_t j = 0; j < i; j++) // subtract scalar products of former basises
             {
-                // create scalar product
-                scPr = tmp.dot(basis[j]);
+                const float scPr = basis[i].dot(basis[j]);
                 basis[i] -= scPr * basis[j];
-                /*for (k=0;k<dim;k++) // each entry in vector
-                {
-                    basis[i][k] -= scPr*basis[j][k];
-                }*/
             }
 
             basis[i].normalize();
-- 
2.43.0


From 3e45f830efab41e96610dc53101641677b731cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 052/146] fix: ImplicitPlane::GetSignedDistance has the sign of
 d used everywhere else

---
 VirtualRobot/math/ImplicitPlane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/ImplicitPlane.cpp b/VirtualRobot/math/ImplicitPlane.cpp
index 34890df..888bbf2 100644
--- a/VirtualRobot/math/ImplicitPlane.cpp
+++ b/VirtualRobot/math/ImplicitPlane.cpp
@@ -68,7 +68,7 @@ ImplicitPlane ImplicitPlane::FromContact(Contact c)
 
 float ImplicitPlane::GetSignedDistance(const Eigen::Vector3f &p)
 {
-    return GetNormal().dot(p) + d;
+    return GetNormal().dot(p) - d;
 }
 
 Line ImplicitPlane::Intersect(Plane plane)
-- 
2.43.0


From 638ba49eec1525d31add150c69960672f89a62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 053/146] fix: Line::IntersectsTriangle rejects parallel rays

---
 VirtualRobot/math/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Line.cpp b/VirtualRobot/math/Line.cpp
index ddc2519..1e8b4ca 100644
--- a/VirtualRobot/math/Line.cpp
+++ b/VirtualRobot/math/Line.cpp
@@ -97,7 +97,7 @@ bool Line::IntersectsTriangle(Triangle tri, float &out) const
     //if determinant is near zero, ray lies in plane of triangle
     det =e1.dot( P);
     //NOT CULLING
-    if(det > -EPS && det < EPS) return 0;
+    if(det >= -EPS && det <= EPS) return 0;
     inv_det = 1.f / det;
 
     //calculate distance from V1 to ray origin
-- 
2.43.0


From 2632bf4f12488f3efad670b137a99f62e1d02ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 054/146] fix: Histogram::getMinBinValue returns the value of
 the minimal bin

---
 VirtualRobot/math/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Histogram.cpp b/VirtualRobot/math/Histogram.cpp
index 3ec3cd1..bb6fa98 100644
--- a/VirtualRobot/math/Histogram.cpp
+++ b/VirtualRobot/math/Histogram.cpp
@@ -106,7 +106,7 @@ std::size_t Histogram::getMinBinIndex() const
 
 float Histogram::getMinBinValue() const
 {
-    return indexToValue(getMaxBinIndex());
+    return indexToValue(getMinBinIndex());
 }
 
 std::size_t Histogram::getMaxBinIndex() const
-- 
2.43.0


From 4863395ba97f9d112d9ad6dfb7ebc76772193934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 055/146] fix: Histogram::applyMedianFilter handles the left
 border

---
 VirtualRobot/math/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Histogram.cpp b/VirtualRobot/math/Histogram.cpp
index bb6fa98..74ad448 100644
--- a/VirtualRobot/math/Histogram.cpp
+++ b/VirtualRobot/math/Histogram.cpp
@@ -128,7 +128,7 @@ void Histogram::applyMedianFilter(std::size_t size)
     for (std::size_t index = 0; index < bins.size(); index++)
     {
         // handle cases at borders
-        std::size_t beginIndex = std::max(index - size, std::size_t(0));
+        std::size_t beginIndex = index > size ? index - size : std::size_t(0);
         std::size_t endIndex   = std::min(index + size + 1, bins.size());
         std::size_t num = endIndex - beginIndex; // common case: num == 2*size+1
 
-- 
2.43.0


From a2bce850e5813138966b0822767c9f1cf47bb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 056/146] fix: CSpacePath::createSubPath is implemented

---
 MotionPlanning/CSpace/CSpacePath.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 411d947..7430176 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -41,6 +41,25 @@ namespace Saba
     }
 
 
+    CSpacePathPtr CSpacePath::createSubPath(unsigned int startIndex, unsigned int endIndex) const
+    {
+        if (startIndex >= getNrOfPoints() || endIndex >= getNrOfPoints())
+        {
+            SABA_ERROR << " wrong start or end pos" << std::endl;
+            return CSpacePathPtr();
+        }
+
+        CSpacePathPtr res(new CSpacePath(cspace, name));
+
+        for (unsigned int i = startIndex; i <= endIndex; i++)
+        {
+            res->addPoint(getPoint(i));
+        }
+
+        return res;
+    }
+
+
     /*
     bool CSpacePath::movePosition(unsigned int pos, const Eigen::VectorXf &moveVector, int sideSteps)
     {
-- 
2.43.0


From e2fab13ba122a880c4d14e3ff784951987a0084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 057/146] fix: Sampler stores its dimension

---
 MotionPlanning/CSpace/Sampler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/Sampler.cpp b/MotionPlanning/CSpace/Sampler.cpp
index 2ce3810..276d879 100644
--- a/MotionPlanning/CSpace/Sampler.cpp
+++ b/MotionPlanning/CSpace/Sampler.cpp
@@ -6,8 +6,8 @@ namespace Saba
 
     Sampler::Sampler(unsigned int dimension)
     {
-        dimension = dimension;
-        metricWeights.Ones(dimension);
+        this->dimension = dimension;
+        metricWeights.setOnes(dimension);
     }
 
     Sampler::~Sampler()
-- 
2.43.0


From 3741816a4e97e34bc19deade15267e64d321a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 058/146] fix: CSpaceTree::getTreeLength looks parents up by ID

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 44b6fb5..7973861 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -463,9 +463,14 @@ namespace Saba
 
         for (unsigned int i = 0; i < nMaxNodes; i++)
         {
-            if (nodes[i] && nodes[i]->parentID >= 0 && nodes[i]->parentID < (int)nMaxNodes)
+            if (nodes[i] && nodes[i]->parentID >= 0)
             {
-                res += cspace->calcDist(nodes[i]->configuration, nodes[nodes[i]->parentID]->configuration, !useMetricWeights);
+                CSpaceNodePtr parent = getNode(nodes[i]->parentID);
+
+                if (parent)
+                {
+                    res += cspace->calcDist(nodes[i]->configuration, parent->configuration, !useMetricWeights);
+                }
             }
         }
 
-- 
2.43.0


From 9d5dc6e10e5e37418b74f710560dbdf907747ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 059/146] fix: CSpaceTree::removeNode removes the node from the
 children of its parent

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 7973861..d76239d 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -6,6 +6,7 @@
 #include "CSpace.h"
 #include "VirtualRobot/Robot.h"
 #include "VirtualRobot/RobotNodeSet.h"
+#include <algorithm>
 #include <cfloat>
 #include <cmath>
 #include <fstream>
@@ -285,6 +286,13 @@ namespace Saba
 
         nodes.erase(it);
         idNodeMapping.erase(n->ID);
+
+        if (updateChildren && n->parentID >= 0 && idNodeMapping.find(n->parentID) != idNodeMapping.end())
+        {
+            std::vector<CSpaceNodePtr>& children = idNodeMapping[n->parentID]->children;
+            children.erase(std::remove(children.begin(), children.end(), n), children.end());
+        }
+
         cspace->removeNode(n);
     }
 
-- 
2.43.0


From cf40f378e5eeeeb0b3b4edbdcf10a7bfea0fbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 060/146] fix: CSpaceTree finds nearest neighbours in the
 metric of its c-space

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index d76239d..75bdae3 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -315,12 +315,12 @@ namespace Saba
         }
 
         unsigned int bestID = nodes[0]->ID;
-        float dist2 = cspace->calcDist2(config, nodes[0]->configuration, true);
+        float dist2 = cspace->calcDist2(config, nodes[0]->configuration);
         float test;
 
         for (unsigned int i = 1; i < nodes.size(); i++)
         {
-            test = cspace->calcDist2(config, nodes[i]->configuration, true);
+            test = cspace->calcDist2(config, nodes[i]->configuration);
 
             if (test < dist2)
             {
-- 
2.43.0


From 10e41c6e046616e1ef42be8823b06ef2e07632a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 061/146] fix: CSpacePath::getLength considers the weights when
 asked to

---
 MotionPlanning/CSpace/CSpacePath.cpp                | 2 +-
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 7430176..ae68956 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -154,7 +154,7 @@ namespace Saba
             c1 = path[i];
             c2 = path[i + 1];
 
-            l = cspace->calcDist(c1, c2, useCSpaceWeights);
+            l = cspace->calcDist(c1, c2, !useCSpaceWeights);
             pathLength += l;
         }
 
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 665932f..06a0375 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -291,10 +291,9 @@ namespace Saba
 
         Eigen::VectorXf s = optimizedPath->getPoint(startIndex);
         Eigen::VectorXf e = optimizedPath->getPoint(endIndex);
-        Eigen::VectorXf d = e - s;
 
         // test line between start and end
-        float distShortcut = d.norm();
+        float distShortcut = cspace->calcDist(s, e);
         float distPath = optimizedPath->getLength(startIndex, endIndex);
 
         // -------------------------------------------------------------------
-- 
2.43.0


From 0ad3e8e1c5423a3b47b945e64cf67a8e18d73726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 062/146] fix: CSpacePath::interpolate reports a valid index
 for paths without length

---
 MotionPlanning/CSpace/CSpacePath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index ae68956..7864af6 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -366,7 +366,7 @@ namespace Saba
         float lastLength = 0.0f;
 
         // search path segment for wantedLength
-        while (actLength < wantedLength && startIndex < getNrOfPoints() - 1)
+        while ((actLength < wantedLength || startIndex == 0) && startIndex < getNrOfPoints() - 1)
         {
             c1 = c2;
             startIndex++;
@@ -376,7 +376,11 @@ namespace Saba
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
-- 
2.43.0


From 46e39ce59ea5950960db636b2304b8669693c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 063/146] fix: CSpacePath::interpolate follows the
 interpolation of its c-space

---
 MotionPlanning/CSpace/CSpacePath.cpp | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 7864af6..aa43788 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -399,29 +399,7 @@ namespace Saba
             factor = 1.0f;
         }
 
-        for (unsigned int j = 0; j < dimension; j++)
-        {
-            if (cspace->isBorderlessDimension(j))
-            {
-                float diff = (c2[j] - c1[j]);
-
-                if (diff > M_PI) // TODO maybe better: while (diff > M_PI) diff -= M_PI * 2.0f;
-                {
-                    diff -= (float)M_PI * 2.0f;
-                }
-
-                if (diff < -M_PI) // TODO same as above
-                {
-                    diff += (float)M_PI * 2.0f;
-                }
-
-                storePathPos[j] = c1[j] +  diff * factor; // storePos = startPos + factor*segment
-            }
-            else
-            {
-                storePathPos[j] = c1[j] + (c2[j] - c1[j]) * factor; // storePos = startPos + factor*segment
-            }
-        }
+        storePathPos = cspace->interpolate(c1, c2, factor);
 
         if (storeIndex != nullptr)
         {
-- 
2.43.0


From f43820dd7548cf253671eddcd364b9ae41cebb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 064/146] fix: CSpaceSampled::clone works on the joints of the
 new robot

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 3ec0733..0f929e7 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -51,8 +51,17 @@ namespace Saba
             return CSpaceSampledPtr();
         }
 
-        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, robotNodes, newRandomSeed));
+        VirtualRobot::RobotNodeSetPtr newRobotNodes = robotNodes;
+
+        if (newRobot != robo)
+        {
+            newRobotNodes = newRobot->getRobotNodeSet(robotNodes->getName());
+            THROW_VR_EXCEPTION_IF(!newRobotNodes, "New robot has no robot node set " << robotNodes->getName());
+        }
+
+        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, newRobotNodes, maxNodes, newRandomSeed));
         result->setBoundaries(boundaryMin, boundaryMax);
+        result->checkForBorderlessDimensions(checkForBorderlessDims);
 
         if (useMetricWeights)
         {
-- 
2.43.0


From 6283d3361d0f529e31390666c6af460229f3e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 065/146] fix: planners that run out of time leave plan()
 regularly

---
 MotionPlanning/Planner/BiRrt.cpp      | 2 +-
 MotionPlanning/Planner/GraspIkRrt.cpp | 2 +-
 MotionPlanning/Planner/Rrt.cpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index aa666c2..5e25bf0 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -224,7 +224,7 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
-                return false;
+                stopSearch = true;
             }
 
         }
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 2c6b1fd..cf06eea 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -233,7 +233,7 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
-                return false;
+                stopSearch = true;
             }
         }
         while (!stopSearch && cycles < maxCycles && !found);
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 1c5ab1e..a0b13ab 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -191,7 +191,7 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
-                return false;
+                stopSearch = true;
             }
 
         }
-- 
2.43.0


From 0cec1ce0a5679147b8e3e597e8d0c4aaead5649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 066/146] fix: planners forget the previous problem when start
 or goal change

---
 MotionPlanning/Planner/BiRrt.cpp         | 9 +++++----
 MotionPlanning/Planner/MotionPlanner.cpp | 3 +++
 MotionPlanning/Planner/Rrt.cpp           | 4 ++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 5e25bf0..3eecfba 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -383,13 +383,14 @@ namespace Saba
             return false;
         }
 
-        // copy goal values
-        if (goalNode)
+        if (tree2->getNrOfNodes() > 0)
         {
-            tree2->removeNode(goalNode);
+            SABA_WARNING << "Removing all nodes from goal tree..." << endl;
+            tree2->reset();
         }
 
-        goalNode =  tree2->appendNode(c, -1);
+        // init root node of second RRT
+        goalNode = tree2->appendNode(c, -1);
 
         return true;
     }
diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 1ab9648..d538ded 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -99,6 +99,7 @@ namespace Saba
     {
         this->startConfig = c;
         startValid = false;
+        solution.reset();
 
         if (cspace && !cspace->isCollisionFree(startConfig))
         {
@@ -128,6 +129,7 @@ namespace Saba
     {
         this->goalConfig = c;
         goalValid = false;
+        solution.reset();
 
         //tree->calculateObstacleDistance(goalNode);
         if (cspace && !cspace->isCollisionFree(goalConfig))
@@ -196,6 +198,7 @@ namespace Saba
         goalConfig.setZero(1);
         startValid = false;
         goalValid = false;
+        solution.reset();
 
         if (cspace)
         {
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index a0b13ab..10f0fec 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -400,6 +400,8 @@ namespace Saba
 
     bool Rrt::setStart(const Eigen::VectorXf& c)
     {
+        goalNode.reset();
+
         if (!MotionPlanner::setStart(c))
         {
             return false;
@@ -420,6 +422,8 @@ namespace Saba
 
     bool Rrt::setGoal(const Eigen::VectorXf& c)
     {
+        goalNode.reset();
+
         if (!MotionPlanner::setGoal(c))
         {
             return false;
-- 
2.43.0


From 4591ee2c20b2ee7c161cedc9d5784f92722e503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 067/146] fix: BiRrt offers no solution unless its trees are
 connected

---
 MotionPlanning/Planner/BiRrt.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 3eecfba..e621d60 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -291,6 +291,11 @@ namespace Saba
         // delete an existing solution if necessary
         solution.reset();
 
+        if (!isInitialized())
+        {
+            return false;
+        }
+
         // vectors to save the node ids for solution path
         std::vector<int> tmpSol; // tree
         std::vector<int> tmpSol2; // tree2
@@ -311,6 +316,12 @@ namespace Saba
             return false;
         }
 
+        if (!actNode->configuration.isApprox(actNode2->configuration))
+        {
+            SABA_WARNING << "The trees are not connected..." << std::endl;
+            return false;
+        }
+
         // bridgeover node only once in solution vector
         tmpSol.push_back(actNode->ID);
 
-- 
2.43.0


From 1dd460b9d141e7cc702bb90339468b38e53b7a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 068/146] fix: planners refuse a start or goal that violates
 constraints

---
 MotionPlanning/Planner/MotionPlanner.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index d538ded..4b39c81 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -120,6 +120,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(startConfig))
+        {
+            SABA_WARNING << " start node does violate constraints! " << std::endl;
+            return false;
+        }
+
         startValid = true;
         return true;
     }
@@ -150,6 +156,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(goalConfig))
+        {
+            SABA_WARNING << " goal pos does violate constraints!" << std::endl;
+            return false;
+        }
+
         goalValid = true;
         return true;
     }
-- 
2.43.0


From 42836c4f6f71ebccb3da8b32f712520d235b6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 069/146] fix: ShortcutProcessor::doPathPruning leaves paths of
 less than two points alone

---
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 06a0375..af72f57 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -202,7 +202,7 @@ namespace Saba
 
         unsigned int i = 0;
 
-        while (i < optimizedPath->getNrOfPoints() - 2)
+        while (i + 2 < optimizedPath->getNrOfPoints())
         {
             Eigen::VectorXf startConfig = optimizedPath->getPoint(i);
             Eigen::VectorXf endConfig = optimizedPath->getPoint(i + 2);
-- 
2.43.0


From d3eb01e9699555f8439aaa4496a3220b46230136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 070/146] fix: ElasticBandProcessor leaves paths of less than
 two points alone

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 1596a84..5634fb6 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -174,7 +174,7 @@ using namespace VirtualRobot;
          Eigen::VectorXf fc;
 
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-1;i++)
+        for (unsigned int i=1;i+1<optimizedPath->getNrOfPoints();i++)
         {
 
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
@@ -222,7 +222,7 @@ using namespace VirtualRobot;
     {
         float ssd = 2 * cspace->getSamplingSize()*cspace->getSamplingSize();
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-2;i++)
+        for (unsigned int i=1;i+2<optimizedPath->getNrOfPoints();i++)
         {
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
             Eigen::VectorXf& act = optimizedPath->getPointRef(i);
-- 
2.43.0


From c94640d43d86b40766fd4edc1608b8832bf932fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 071/146] fix: ElasticBandProcessor restores the visualization
 setting of the robot

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 5634fb6..e6701dc 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -304,6 +304,7 @@ using namespace VirtualRobot;
     {
         initSolution();
 
+        bool updateVisualization = rns->getRobot()->getUpdateVisualizationStatus();
         rns->getRobot()->setUpdateVisualization(false);
 
         for (int i=0;i<optimizeSteps;i++)
@@ -325,7 +326,7 @@ using namespace VirtualRobot;
             }
         }
 
-        rns->getRobot()->setUpdateVisualization(true);
+        rns->getRobot()->setUpdateVisualization(updateVisualization);
 
 
         return optimizedPath;
-- 
2.43.0


From 9b057958ac5999cb6c1a38d794b36c1049ad82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 072/146] fix: SceneObjectSet::addSceneObjects adds the objects
 after a duplicate, too

---
 VirtualRobot/SceneObjectSet.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/SceneObjectSet.cpp b/VirtualRobot/SceneObjectSet.cpp
index 1ebbc66..a932521 100644
--- a/VirtualRobot/SceneObjectSet.cpp
+++ b/VirtualRobot/SceneObjectSet.cpp
@@ -91,15 +91,17 @@ namespace VirtualRobot
 
         std::vector< SceneObjectPtr > so = sceneObjectSet->getSceneObjects();
 
+        bool result = true;
+
         for (const auto & i : so)
         {
             if (!addSceneObject(i))
             {
-                return false;
+                result = false;
             }
         }
 
-        return true;
+        return result;
     }
 
     bool SceneObjectSet::addSceneObjects(RobotNodeSetPtr robotNodeSet)
@@ -116,6 +118,8 @@ namespace VirtualRobot
 
     bool SceneObjectSet::addSceneObjects(std::vector<RobotNodePtr> robotNodes)
     {
+        bool result = true;
+
         for (auto & robotNode : robotNodes)
         {
             SceneObjectPtr cm = boost::dynamic_pointer_cast<SceneObject>(robotNode);
@@ -130,13 +134,13 @@ namespace VirtualRobot
                 {
                     if (!addSceneObject(cm))
                     {
-                        return false;
+                        result = false;
                     }
                 }
             }
         }
 
-        return true;
+        return result;
     }
 
     bool SceneObjectSet::removeSceneObject(SceneObjectPtr sceneObject)
-- 
2.43.0


From 49849cfdc64e186df69ccee724ebda69816478e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 073/146] fix: Trajectory::insertTrajectory can insert a
 trajectory into itself

---
 VirtualRobot/Trajectory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 976896e..b613023 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -208,11 +208,13 @@ namespace VirtualRobot
             return;
         }
 
-        int i = trajectoryToInsert->getNrOfPoints() - 1;
+        // copy the points first, the trajectory may be inserted into itself
+        std::vector<Eigen::VectorXf> points = trajectoryToInsert->getPoints();
+        int i = (int)points.size() - 1;
 
         while (i >= 0)
         {
-            insertPosition(pos, trajectoryToInsert->getPoint(i));
+            insertPosition(pos, points[i]);
             i--;
         }
     }
-- 
2.43.0


From d46de6a2d163940cd4ceb0a96289c85f738d3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 074/146] fix: Trajectory::interpolate reports a valid index
 for trajectories without length

---
 VirtualRobot/Trajectory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index b613023..750dfcb 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -293,7 +293,11 @@ namespace VirtualRobot
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
-- 
2.43.0


From e15533910c5139ff5112417955880c3641eac3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 075/146] fix: saving XML files reports write errors

---
 VirtualRobot/XML/BaseIO.cpp  | 2 +-
 VirtualRobot/XML/RobotIO.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index ab0f180..f9901b6 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1812,7 +1812,7 @@ namespace VirtualRobot
 
         out << content;
         out.close();
-        return true;
+        return !out.fail();
     }
 
     std::string BaseIO::toXML(const Eigen::Matrix4f& m, std::string ident /*= "\t"*/)
diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 9320654..a598161 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -1497,6 +1497,12 @@ namespace VirtualRobot
         f << xmlRob;
         f.close();
 
+        if (f.fail())
+        {
+            VR_ERROR << "Could not write file " << fnComplete.string() << endl;
+            return false;
+        }
+
         if (storeModelFiles)
         {
             std::vector<RobotNodePtr> nodes = robot->getRobotNodes();
-- 
2.43.0


From 63a71fd7483f7d68fa66498134a566071c7dd9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 076/146] fix: files in XML descriptions are searched beside
 the description before the working directory

---
 VirtualRobot/XML/BaseIO.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index f9901b6..2549aa3 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1460,7 +1460,7 @@ namespace VirtualRobot
 
             try
             {
-                if (boost::filesystem::exists(fn))
+                if (fn.is_absolute() && boost::filesystem::exists(fn))
                 {
                     return fileName;
                 }
@@ -1481,6 +1481,18 @@ namespace VirtualRobot
             }
             catch (...) {}
 
+            // check file in current directory
+            fn = fileName;
+
+            try
+            {
+                if (boost::filesystem::exists(fn))
+                {
+                    return fileName;
+                }
+            }
+            catch (...) {}
+
             // check file in data paths
             absFileName = fileName;
 
-- 
2.43.0


From e9e9ba52ec18b32fd20f117a7d32106329481186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 077/146] fix: ObjectIO::loadManipulationObject keeps the
 global pose of the file

---
 VirtualRobot/XML/ObjectIO.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index eb9d162..27b6839 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -82,8 +82,11 @@ namespace VirtualRobot
         std::string objectXML(buffer.str());
 
         VirtualRobot::ManipulationObjectPtr res = createManipulationObjectFromString(objectXML, basePath);
-        res->initialize();
         THROW_VR_EXCEPTION_IF(!res, "Error while parsing file.");
+        // initialize() resets the pose
+        Eigen::Matrix4f pose = res->getGlobalPose();
+        res->initialize();
+        res->setGlobalPose(pose);
         return res;
     }
 
-- 
2.43.0


From 13fae37562e8975c3f8c1b098aa93cc01800e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 078/146] fix: SceneIO gives robots the name stored in the
 scene

---
 VirtualRobot/XML/SceneIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index 2b36688..6ee6daf 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -115,6 +115,7 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(fileName.empty(), "Missing file definition in scene's robot tag '" << robotName << "'." << endl);
         RobotPtr robot = RobotIO::loadRobot(fileName);
         THROW_VR_EXCEPTION_IF(!robot, "Invalid robot file in scene's robot tag '" << robotName << "'." << endl);
+        robot->setName(robotName);
         robot->setGlobalPose(globalPose);
         scene->registerRobot(robot);
 
-- 
2.43.0


From d58fb6c2cf4eb3b500c4d9d5ffd4fcf3f0cc076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 079/146] fix: trajectories in scene files identify their robot
 by name

---
 VirtualRobot/Trajectory.cpp |  2 +-
 VirtualRobot/XML/BaseIO.cpp | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 750dfcb..6046de5 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -405,7 +405,7 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF((!robot || !rns), "Need a valid robot and rns");
 
 
-        ss << tab << "<Trajectory Robot='" << robot->getType() << "' RobotNodeSet='" << rns->getName() << "' name='" << name << "' dim='" << dimension << "'>\n";
+        ss << tab << "<Trajectory Robot='" << robot->getType() << "' RobotName='" << robot->getName() << "' RobotNodeSet='" << rns->getName() << "' name='" << name << "' dim='" << dimension << "'>\n";
 
         for (unsigned int i = 0; i < path.size(); i++)
         {
diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index 2549aa3..63e6c4f 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1705,6 +1705,7 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(!trajectoryXMLNode, "NULL data for trajectoryXMLNode");
 
         std::string robotName;
+        std::string robotInstanceName;
         std::string nodeSetName;
         std::string trajName;
         int dim = -1;
@@ -1726,6 +1727,10 @@ namespace VirtualRobot
                 THROW_VR_EXCEPTION_IF(!robotName.empty(), "Trajectory contains multiple definitions of attribute Robot. First value is: " << robotName);
                 robotName = attr->value();
             }
+            else if (name == "robotname")
+            {
+                robotInstanceName = attr->value();
+            }
             else if (name == "robotnodeset" || name == "modelnodeset")
             {
                 THROW_VR_EXCEPTION_IF(!nodeSetName.empty(), "Trajectory contains multiple definitions of attribute RobotNodeSet. First value is: " << nodeSetName);
@@ -1753,10 +1758,15 @@ namespace VirtualRobot
 
         for (auto & robot : robots)
         {
-            if (robot->getType() == robotName)
+            // several robots of this type: the one with the stored name, otherwise the first one
+            if (robot->getType() == robotName && (!r || robot->getName() == robotInstanceName))
             {
                 r = robot;
-                break;
+
+                if (robot->getName() == robotInstanceName)
+                {
+                    break;
+                }
             }
         }
 
-- 
2.43.0


From 0db428c59790b30175f5db15825593a6677282de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 080/146] fix: Scene::getXMLString stores the current
 configuration once

---
 VirtualRobot/Scene.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Scene.cpp b/VirtualRobot/Scene.cpp
index eaa2bb3..cf97d97 100644
--- a/VirtualRobot/Scene.cpp
+++ b/VirtualRobot/Scene.cpp
@@ -732,7 +732,11 @@ namespace VirtualRobot
 
             for (auto & j : rc)
             {
-                ss << j->toXML(2);
+                // the entry with this name holds the current config
+                if (j->getName() != currentConfig->getName())
+                {
+                    ss << j->toXML(2);
+                }
             }
 
             ss << "\t</Robot>\n";
-- 
2.43.0


From 162eeaaf62b7912aaa10a9817e5263e6192ea6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 081/146] fix: the BoundingBox flag is written where it is read
 (at the File tag)

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 13 ++++---------
 VirtualRobot/Visualization/VisualizationNode.cpp   | 13 ++++---------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 762d47d..d0e2ef0 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -280,14 +280,7 @@ namespace VirtualRobot
             pre += "\t";
         }
 
-        ss << pre << "<CollisionModel";
-
-        if (getVisualization()->usedBoundingBoxVisu())
-        {
-            ss << " BoundingBox='true'";
-        }
-
-        ss << ">\n";
+        ss << pre << "<CollisionModel>\n";
 
         std::string fileType("unknown");
 
@@ -305,7 +298,9 @@ namespace VirtualRobot
             std::string tmpFilename = filename;
             BaseIO::makeRelativePath(basePath, tmpFilename);
             ss << pre << t
-               << "<File type='" << fileType << "'>"
+               << "<File type='" << fileType << "'"
+               << (getVisualization()->usedBoundingBoxVisu() ? " BoundingBox='true'" : "")
+               << ">"
                << tmpFilename
                << "</File>\n";
         }
diff --git a/VirtualRobot/Visualization/VisualizationNode.cpp b/VirtualRobot/Visualization/VisualizationNode.cpp
index 97a25ce..a88d162 100644
--- a/VirtualRobot/Visualization/VisualizationNode.cpp
+++ b/VirtualRobot/Visualization/VisualizationNode.cpp
@@ -146,20 +146,15 @@ namespace VirtualRobot
             pre += "\t";
         }
 
-        ss << pre << "<Visualization";
-
-        if (usedBoundingBoxVisu())
-        {
-            ss << " BoundingBox='true'";
-        }
-
-        ss << ">\n";
+        ss << pre << "<Visualization>\n";
 
         if (!filename.empty())
         {
             std::string tmpFilename = filename;
             BaseIO::makeRelativePath(basePath, tmpFilename);
-            ss << pre << t << "<File type='" << getType() << "'>" << tmpFilename << "</File>\n";
+            ss << pre << t << "<File type='" << getType() << "'"
+               << (usedBoundingBoxVisu() ? " BoundingBox='true'" : "")
+               << ">" << tmpFilename << "</File>\n";
         }
         else if (primitives.size() != 0)
         {
-- 
2.43.0


From 0557bdc08a795ca6a155fdc81be3a5aa71bd78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 082/146] fix: linked manipulation objects store an identity
 pose, too

---
 VirtualRobot/ManipulationObject.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/ManipulationObject.cpp b/VirtualRobot/ManipulationObject.cpp
index 813efeb..ec9c718 100644
--- a/VirtualRobot/ManipulationObject.cpp
+++ b/VirtualRobot/ManipulationObject.cpp
@@ -151,14 +151,12 @@ namespace VirtualRobot
             ss << pre << t << "<File>" << relFile << "</File>\n";
             Eigen::Matrix4f gp = getGlobalPose();
 
-            if (!gp.isIdentity())
-            {
-                ss << pre << t << "<GlobalPose>\n";
-                ss << pre << t  << t  << "<Transform>\n";
-                ss << MathTools::getTransformXMLString(gp, tabs + 3);
-                ss << pre << t  << t  << "</Transform>\n";
-                ss << pre << t << "</GlobalPose>\n";
-            }
+            // also if identity: the linked file may hold another pose
+            ss << pre << t << "<GlobalPose>\n";
+            ss << pre << t  << t  << "<Transform>\n";
+            ss << MathTools::getTransformXMLString(gp, tabs + 3);
+            ss << pre << t  << t  << "</Transform>\n";
+            ss << pre << t << "</GlobalPose>\n";
         }
         else
         {
-- 
2.43.0


From 85859b44b8ab2d235439489b3745718452960014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 083/146] fix: SceneIO keeps the TCP of robot configurations

---
 VirtualRobot/XML/SceneIO.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index 6ee6daf..5d982f9 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -135,6 +135,12 @@ namespace VirtualRobot
         for (size_t i = 0; i < configDefinitions.size(); i++)
         {
             RobotConfigPtr rc(new RobotConfig(robot, configNames[i], configDefinitions[i]));
+
+            if (i < tcpNames.size() && !tcpNames[i].empty())
+            {
+                rc->setTCP(tcpNames[i]);
+            }
+
             scene->registerRobotConfig(robot, rc);
         }
 
-- 
2.43.0


From 086369bef6abddd6a668f1c46ec60485a5646c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 084/146] fix: STLReader reads short text files

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 39021a4..98a39c2 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -577,11 +577,14 @@ namespace VirtualRobot
 
         // read number of triangles
         char dummy[100];
-        if(80 != std::fread(dummy, 1, 80, in))
+        if (84 != std::fread(dummy, 1, 84, in))
         {
-            throw std::runtime_error{__FILE__ " error in line " + std::to_string(__LINE__) + " failed to read 80 bytes."};
+            // too short for a binary file
+            fclose(in);
+            return STLA;
         }
-        size_t nT = read_int(in, swapFlag);
+        fseek(in, 80, SEEK_SET);
+        size_t nT = static_cast<unsigned int>(read_int(in, swapFlag));
 
 
         // compute file size from nT
-- 
2.43.0


From 349a3c4c14bd2a630620bc183e092d89c428f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 085/146] fix: STLReader takes keywords only at the start of a
 line

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 98a39c2..b3df09d 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -256,7 +256,9 @@ namespace VirtualRobot
             trimStdString(line);
 
             // Normal found?
-            if (line.find("facet normal") != std::string::npos)
+            const std::string keyword = BaseIO::getLowerCase(line.substr(0, 12).c_str());
+
+            if (keyword.find("facet normal") == 0)
             {
                 std::stringstream strstream(line);
 
@@ -276,7 +278,7 @@ namespace VirtualRobot
             }
 
             // Detected a triangle
-            if ((line.find("outer") != std::string::npos) || (line.find("OUTER") != std::string::npos))
+            if (keyword.find("outer") == 0)
             {
 
                 vhandles.clear();
-- 
2.43.0


From 9e8f5e13bb66540a3f2ccf167d2541b6e7e798dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 086/146] fix: STLReader refuses text files with incomplete
 triangles

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index b3df09d..7aab559 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -300,6 +300,12 @@ namespace VirtualRobot
 
                     v *= scaling;
 
+                    if (!strstream || !v.allFinite())
+                    {
+                        VR_ERROR << "[STLReader] : invalid vertex: " << line << std::endl;
+                        return false;
+                    }
+
                     // has vector been referenced before?
                     if ((vMapIt = vMap.find(v)) == vMap.end())
                     {
@@ -316,6 +322,16 @@ namespace VirtualRobot
                     }
                 }
 
+                // a triangle is complete if its loop is closed
+                std::getline(_in, line);
+                trimStdString(line);
+
+                if (BaseIO::getLowerCase(line.c_str()).find("endloop") != 0)
+                {
+                    VR_ERROR << "[STLReader] : incomplete triangle" << std::endl;
+                    return false;
+                }
+
                 // Add face only if it is not degenerated
                 if ((vhandles[0] != vhandles[1]) &&
                     (vhandles[0] != vhandles[2]) &&
-- 
2.43.0


From 26c29cbe08417cf45dc4a5724ce0d4230d1b6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 087/146] fix: STLReader::set_epsilon holds for binary files,
 too

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 7aab559..2ab08b8 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -440,7 +440,8 @@ namespace VirtualRobot
         std::vector<unsigned int> vhandles;
 
 
-        std::map<Eigen::Vector3f, unsigned int, CmpVec>  vMap;
+        CmpVec comp(eps_);
+        std::map<Eigen::Vector3f, unsigned int, CmpVec>  vMap(comp);
         std::map<Eigen::Vector3f, unsigned int, CmpVec>::iterator vMapIt;
 
 
-- 
2.43.0


From bf8016d6c108c220359cbf855b32209c59c6e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 088/146] fix: STLReader refuses truncated binary files

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 2ab08b8..7fb8fea 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -465,6 +465,12 @@ namespace VirtualRobot
         _in.read(dummy, 80);
         nT = read_int(_in, swapFlag);
 
+        if (!_in)
+        {
+            VR_ERROR << "[STLReader] : incomplete header" << std::endl;
+            return false;
+        }
+
         // read triangles
         while (nT)
         {
@@ -484,6 +490,12 @@ namespace VirtualRobot
 
                 v *= scaling;
 
+                if (!_in || !v.allFinite())
+                {
+                    VR_ERROR << "[STLReader] : incomplete or invalid triangle" << std::endl;
+                    return false;
+                }
+
                 // has vector been referenced before?
                 if ((vMapIt = vMap.find(v)) == vMap.end())
                 {
-- 
2.43.0


From 0c5b30b41df08ccc05b2212ac4b206a479a5229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 089/146] fix: ObjectIO::writeSTL writes all digits and reports
 write errors

---
 VirtualRobot/XML/ObjectIO.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index 27b6839..06a1b36 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -161,6 +161,8 @@ namespace VirtualRobot
             return false;
         }
 
+        // all digits that are needed to read back the same values
+        of.precision(9);
         of << "solid " << objectName << endl;
 
         // write triangles
@@ -193,6 +195,13 @@ namespace VirtualRobot
 
         of << "endsolid " << objectName << endl;
         of.close();
+
+        if (!of)
+        {
+            VR_ERROR << "Could not write " << filename << endl;
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From a9085985ac17b87c838415a326efbbfbd6f0caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 090/146] fix: BaseIO::makeRelativePath stops at the end of the
 paths

---
 VirtualRobot/XML/BaseIO.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index 63e6c4f..b1f5566 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -815,7 +815,7 @@ namespace VirtualRobot
         fs::path::iterator itFile = filepath.begin();
         fs::path newPath;
 
-        while (*itBasePath == *itFile)
+        while (itBasePath != basePathDir.end() && itFile != filepath.end() && *itBasePath == *itFile)
         {
             itFile++;
             itBasePath++;
@@ -831,6 +831,12 @@ namespace VirtualRobot
             newPath /= *itFile;
         }
 
+        // the base path itself
+        if (newPath.empty())
+        {
+            newPath = ".";
+        }
+
         filename = newPath.generic_string();
 #else
         // version compatible with boost below version 1.48,
-- 
2.43.0


From ef4c28ed240fdf5d18c8e7e608b0eb9242949dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 091/146] fix: RuntimeEnvironment::getDataFileAbsolute returns
 absolute paths

---
 VirtualRobot/RuntimeEnvironment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/RuntimeEnvironment.cpp b/VirtualRobot/RuntimeEnvironment.cpp
index 7ffdb66..d9d1eda 100644
--- a/VirtualRobot/RuntimeEnvironment.cpp
+++ b/VirtualRobot/RuntimeEnvironment.cpp
@@ -115,7 +115,7 @@ namespace VirtualRobot
             // first check current path
             if (boost::filesystem::exists(fn) && boost::filesystem::is_regular_file(fn))
             {
-                fileName = fn.string();
+                fileName = boost::filesystem::absolute(fn).string();
                 return true;
             }
         }
@@ -139,7 +139,7 @@ namespace VirtualRobot
                     //boost::filesystem::file_status s = boost::filesystem::status(fnComplete);
                     //printf("%o\n",s.permissions());
 
-                    fileName = fnComplete.string();
+                    fileName = boost::filesystem::absolute(fnComplete).string();
                     return true;
                 }
             }
-- 
2.43.0


From b5350e2d0c0714516736d152d83e06b3bb67c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 092/146] fix: RuntimeEnvironment::considerKey accepts a key
 twice

---
 VirtualRobot/RuntimeEnvironment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RuntimeEnvironment.cpp b/VirtualRobot/RuntimeEnvironment.cpp
index d9d1eda..e88f871 100644
--- a/VirtualRobot/RuntimeEnvironment.cpp
+++ b/VirtualRobot/RuntimeEnvironment.cpp
@@ -8,6 +8,8 @@
 #include "VirtualRobotException.h"
 #include "Visualization/VisualizationFactory.h"
 
+#include <algorithm>
+
 
 namespace VirtualRobot
 {
@@ -336,7 +338,11 @@ namespace VirtualRobot
 
     void RuntimeEnvironment::considerKey(const std::string& key)
     {
-        processKeys.push_back(key);
+        // the parser does not accept ambiguous options
+        if (std::find(processKeys.begin(), processKeys.end(), key) == processKeys.end())
+        {
+            processKeys.push_back(key);
+        }
     }
 
     bool RuntimeEnvironment::hasValue(const std::string& key)
-- 
2.43.0


From 0bc3edb400eb54c604801fd1d0c0a8b8f607d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 093/146] fix: BaseIO::makeRelativePath handles base paths with
 a trailing slash

---
 VirtualRobot/XML/BaseIO.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index b1f5566..e55d298 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -811,6 +811,13 @@ namespace VirtualRobot
         }
 
         fs::path basePathDir = fs::canonical(fs::path(basePath));
+
+        // a trailing slash is no directory of its own
+        if (basePathDir.filename() == ".")
+        {
+            basePathDir.remove_filename();
+        }
+
         fs::path::iterator itBasePath = basePathDir.begin();
         fs::path::iterator itFile = filepath.begin();
         fs::path newPath;
-- 
2.43.0


From 265dc82c37fba7bf834b8d0276a8f3c4d2ee26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 094/146] fix: BoundingBox::scale keeps minimum and maximum
 ordered

---
 VirtualRobot/BoundingBox.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index 1af12ff..f1c06e4 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -188,6 +188,12 @@ namespace VirtualRobot
         {
             min(i) *= scaleFactor(i);
             max(i) *= scaleFactor(i);
+
+            // mirrored
+            if (min(i) > max(i))
+            {
+                std::swap(min(i), max(i));
+            }
         }
     }
 
-- 
2.43.0


From 87420d33b4f35074b70156e1104376abe9bab8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 095/146] fix: BoundingBox::planeGoesThrough handles empty
 boxes

---
 VirtualRobot/BoundingBox.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index f1c06e4..f7fa3e8 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -15,6 +15,12 @@ namespace VirtualRobot
 
         std::vector < Eigen::Vector3f > points = getPoints();
 
+        // an empty box
+        if (points.empty())
+        {
+            return false;
+        }
+
         for (int i = 0; i < 8; i++)
             if (MathTools::onNormalPointingSide(points[i], p))
             {
-- 
2.43.0


From 0bdf0d815df5b06e8383786a276425c4a62600fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 096/146] fix: BoundingBox::isInside handles flat boxes

---
 VirtualRobot/BoundingBox.cpp | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index f7fa3e8..5ba6edb 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -231,32 +231,12 @@ namespace VirtualRobot
 
     bool BoundingBox::isInside(Eigen::Vector3f point) const
     {
-        Eigen::Vector3f p0(min(0), min(1), min(2));
-        Eigen::Vector3f p1(min(0), min(1), max(2));
-        Eigen::Vector3f p2(min(0), max(1), min(2));
-        Eigen::Vector3f p4(max(0), min(1), min(2));
-
-        Eigen::Vector3f v01 = p0 - p1;
-        Eigen::Vector3f v02 = p0 - p2;
-        Eigen::Vector3f v04 = p0 - p4;
-
         point(0) = std::isnan(point(0)) ? (max(0) + min(0)) / 2 : point(0);
         point(1) = std::isnan(point(1)) ? (max(1) + min(1)) / 2 : point(1);
         point(2) = std::isnan(point(2)) ? (max(2) + min(2)) / 2 : point(2);
 
-        auto isBetween = [](float x, float a, float b) {
-            if (a <= b)
-            {
-                return a <= x && x <= b;
-            }
-            else
-            {
-                return b <= x && x <= a;
-            }
-        };
-
-        return isBetween(v01.dot(point), v01.dot(p0), v01.dot(p1))
-                && isBetween(v02.dot(point), v02.dot(p0), v02.dot(p2))
-                && isBetween(v04.dot(point), v04.dot(p0), v04.dot(p4));
+        return min(0) <= point(0) && point(0) <= max(0)
+                && min(1) <= point(1) && point(1) <= max(1)
+                && min(2) <= point(2) && point(2) <= max(2);
     }
 }
-- 
2.43.0


From 18d5178f3c88ac8677a2b0bf13edf1e95ab48256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 097/146] fix: TriMeshModel::addTriangleWithFace reads the
 alpha value inside the color

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 06f6cac..6e65847 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -91,9 +91,9 @@ namespace VirtualRobot
     void TriMeshModel::addTriangleWithFace(const Eigen::Vector3f& vertex1, const Eigen::Vector3f& vertex2, const Eigen::Vector3f& vertex3, const Eigen::Vector4f& vertexColor1, const Eigen::Vector4f& vertexColor2, const Eigen::Vector4f& vertexColor3)
     {
         Eigen::Vector3f normal = TriMeshModel::CreateNormal(vertex1, vertex2, vertex3);
-        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(4));
-        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(4));
-        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(4));
+        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(3));
+        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(3));
+        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(3));
         addTriangleWithFace(vertex1, vertex2, vertex3, normal, color1, color2, color3);
     }
 
-- 
2.43.0


From 3960c6e57f44d413b06a9ddfa739a7c9141cbfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 098/146] fix: TriMeshModel::addMissingNormals sets all normals
 of a face

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 6e65847..fabe0b6 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -251,7 +251,7 @@ namespace VirtualRobot
             }
             if(face.idNormal2 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal2 = normalId;
                 else
                 {
@@ -261,7 +261,7 @@ namespace VirtualRobot
             }
             if(face.idNormal3 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal3 = normalId;
                 else
                 {
-- 
2.43.0


From c5920aeb60d304230299811885fcd8e1139fa254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 099/146] fix: TriMeshModel::addMesh accepts meshes without
 colors and the mesh itself

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index fabe0b6..39b1979 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -99,10 +99,22 @@ namespace VirtualRobot
 
     void TriMeshModel::addMesh(const TriMeshModel &mesh)
     {
+        if (&mesh == this)
+        {
+            // vectors that grow must not be read
+            addMesh(TriMeshModel(mesh));
+            return;
+        }
+
+        auto getColor = [&mesh](unsigned int id)
+        {
+            return id < mesh.colors.size() ? mesh.colors.at(id) : VisualizationFactory::Color::Gray();
+        };
+
         for(const auto& face : mesh.faces)
         {
             addTriangleWithFace(mesh.vertices.at(face.id1), mesh.vertices.at(face.id2), mesh.vertices.at(face.id3),
-                                face.normal, mesh.colors.at(face.idColor1), mesh.colors.at(face.idColor2), mesh.colors.at(face.idColor3));
+                                face.normal, getColor(face.idColor1), getColor(face.idColor2), getColor(face.idColor3));
         }
 //        VR_INFO << " size after : " << vertices.size() << std::endl;
     }
-- 
2.43.0


From b21bcabb0941566634ccfefff0b9e47be0c19c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 100/146] fix: TriMeshModel::clear removes the normals

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 39b1979..c7b1bfe 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -235,6 +235,7 @@ namespace VirtualRobot
     void TriMeshModel::clear()
     {
         vertices.clear();
+        normals.clear();
         colors.clear();
         faces.clear();
         materials.clear();
-- 
2.43.0


From 2afd83ada3f97b972d8e4780da548d600cad0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 101/146] fix: flipping a face keeps colors and normals at
 their corners

---
 VirtualRobot/MathTools.h                    | 2 ++
 VirtualRobot/Visualization/TriMeshModel.cpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index 0a41d8c..a61ab23 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -411,6 +411,8 @@ namespace VirtualRobot
             void flipOrientation()
             {
                 std::swap(id3, id1);
+                std::swap(idColor3, idColor1);
+                std::swap(idNormal3, idNormal1);
                 normal *= -1.0f;
             }
             void set(unsigned int id1, unsigned int id2, unsigned int id3)
diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index c7b1bfe..3f6b1a8 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -346,6 +346,11 @@ namespace VirtualRobot
     void TriMeshModel::flipVertexOrientations()
     {
         std::for_each(faces.begin(), faces.end(), std::mem_fun_ref(&MathTools::TriangleFace::flipOrientation));
+
+        for (auto& normal : normals)
+        {
+            normal *= -1.0f;
+        }
     }
 
 
-- 
2.43.0


From 60bd36224b2d73d18c7534a00fac0a6371a496dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 102/146] fix: fattenShrink and removeUnusedVertices update the
 bounding box

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 3f6b1a8..9709feb 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -513,6 +513,8 @@ namespace VirtualRobot
         size_t removed = vertices.size() - newVertices.size();
 
         vertices.swap(newVertices);
+        boundingBox.clear();
+        boundingBox.addPoints(vertices);
         return removed;
     }
     
@@ -594,6 +596,9 @@ namespace VirtualRobot
             }
         }
 
+        boundingBox.clear();
+        boundingBox.addPoints(vertices);
+
         if(updateNormals)
         {
             normals.clear();
-- 
2.43.0


From 01ff12cddf8e72bfacc6c646dfcf4f435f0651b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 103/146] fix: TriMeshModel::setColor leaves valid color ids

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 9709feb..1042337 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -620,6 +620,12 @@ namespace VirtualRobot
         colors.clear();
         for (size_t i=0; i<vertices.size(); i++)
             colors.push_back(color);
+
+        // one color per vertex
+        for (auto& face : faces)
+        {
+            face.setColor(face.id1, face.id2, face.id3);
+        }
     }
 
 
-- 
2.43.0


From 5915d680d40066d766626ee4da642deafcb63e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 104/146] fix: TriMeshModel::scale keeps the normals
 perpendicular to the surface

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 29 +++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 1042337..7b5b67f 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -876,6 +876,35 @@ namespace VirtualRobot
             }
         }
 
+        // normals stay perpendicular to the surface
+        Eigen::Vector3f normalFactor(scaleFactor(1) * scaleFactor(2), scaleFactor(0) * scaleFactor(2), scaleFactor(0) * scaleFactor(1));
+
+        if (scaleFactor(0) * scaleFactor(1) * scaleFactor(2) < 0.0f)
+        {
+            normalFactor *= -1.0f;
+        }
+
+        auto scaleNormal = [&normalFactor](Eigen::Vector3f & normal)
+        {
+            Eigen::Vector3f n = normal.cwiseProduct(normalFactor);
+            float length = n.norm();
+
+            if (length > 0.0f)
+            {
+                normal = n / length * normal.norm();
+            }
+        };
+
+        for (auto& normal : normals)
+        {
+            scaleNormal(normal);
+        }
+
+        for (auto& face : faces)
+        {
+            scaleNormal(face.normal);
+        }
+
         boundingBox.scale(scaleFactor);
     }
 
-- 
2.43.0


From 16538411ae9aebf41bf4224533b3e4354e0c8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 105/146] fix: faces without normal have a zero normal

---
 VirtualRobot/MathTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index a61ab23..d20f695 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -403,7 +403,7 @@ namespace VirtualRobot
                 : id1(UINT_MAX), id2(UINT_MAX), id3(UINT_MAX),
                   idColor1(UINT_MAX), idColor2(UINT_MAX), idColor3(UINT_MAX),
                   idNormal1(UINT_MAX), idNormal2(UINT_MAX), idNormal3(UINT_MAX),
-                  idMaterial(UINT_MAX) {}
+                  idMaterial(UINT_MAX), normal(Eigen::Vector3f::Zero()) {}
 
             /**
              * Flips the orientation of the contained vertex and the normal.
-- 
2.43.0


From f8c1392227abcfeea7aeb851e5090f3e242f28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 106/146] fix: TriMeshModel::checkAndCorrectNormals visits the
 faces from neighbor to neighbor

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 28 +++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 7b5b67f..837b061 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -771,15 +771,31 @@ namespace VirtualRobot
         int a1, a2, b1, b2;
         int flippedFacesCount = 0;
 
-        // compare each vertex with every other vertex
-        for (unsigned int i = 0; i < faces.size(); i++)
+        // visit the faces from neighbor to neighbor: each face is adjusted once,
+        // to the already adjusted face from which it was reached
+        std::vector<unsigned int> order;
+        std::vector<bool> visited(faces.size(), false);
+        unsigned int nextStart = 0;
+
+        for (unsigned int n = 0; n < faces.size(); n++)
         {
-            f1 = &(faces[i]);
+            if (n == order.size())
+            {
+                // start with a face that is not connected to the visited ones
+                while (visited[nextStart])
+                {
+                    nextStart++;
+                }
+
+                visited[nextStart] = true;
+                order.push_back(nextStart);
+            }
+
+            f1 = &(faces[order[n]]);
 
             for (unsigned int j = 0; j < faces.size(); j++)
             {
-                // don't compare each face with itself
-                if (i == j)
+                if (visited[j])
                 {
                     continue;
                 }
@@ -789,6 +805,8 @@ namespace VirtualRobot
 
                 if (checkFacesHaveSameEdge(*f1, *f2, commonVertexIds))
                 {
+                    visited[j] = true;
+                    order.push_back(j);
                     a1 = commonVertexIds[0].first; // first common vertex id face1
                     a2 = commonVertexIds[1].first; // second common vertex id face1
                     b1 = commonVertexIds[0].second; // first common vertex id face
-- 
2.43.0


From a872526f53a7c0a6f15ef963f59e7cb97a939806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 107/146] fix: CoMIK computes the Jacobian in one coordinate
 system

---
 VirtualRobot/IK/CoMIK.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/IK/CoMIK.cpp b/VirtualRobot/IK/CoMIK.cpp
index d68aef4..4873347 100644
--- a/VirtualRobot/IK/CoMIK.cpp
+++ b/VirtualRobot/IK/CoMIK.cpp
@@ -79,6 +79,12 @@ namespace VirtualRobot
                     Eigen::Vector3f toTCP = node->getCoMGlobal()
                                             - dof->getGlobalPose().block(0, 3, 3, 1);
 
+                    // the axis is given in coordSystem
+                    if (coordSystem)
+                    {
+                        toTCP = coordSystem->getGlobalPose().block<3, 3>(0, 0).transpose() * toTCP;
+                    }
+
                     if (convertMMtoM)
                     {
                         toTCP /= 1000.0f;
-- 
2.43.0


From f9d0df291c831498758fc0de39aa8776fa2c0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 108/146] fix: CoMIK gives the error in the coordinate system
 of the Jacobian

---
 VirtualRobot/IK/CoMIK.cpp | 20 ++++++++++++++++++--
 VirtualRobot/IK/CoMIK.h   |  3 +++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/CoMIK.cpp b/VirtualRobot/IK/CoMIK.cpp
index 4873347..76636c9 100644
--- a/VirtualRobot/IK/CoMIK.cpp
+++ b/VirtualRobot/IK/CoMIK.cpp
@@ -162,14 +162,30 @@ namespace VirtualRobot
         return Jsum;
     }
 
+    Eigen::VectorXf CoMIK::getDelta()
+    {
+        Eigen::VectorXf delta = target - rnsBodies->getCoM().head(target.rows());
+
+        if (coordSystem)
+        {
+            // the Jacobian is defined in coordSystem
+            Eigen::Vector3f delta3D = Eigen::Vector3f::Zero();
+            delta3D.head(delta.rows()) = delta;
+            delta3D = coordSystem->getGlobalPose().block<3, 3>(0, 0).transpose() * delta3D;
+            delta = delta3D.head(target.rows()).eval();
+        }
+
+        return delta;
+    }
+
     Eigen::VectorXf CoMIK::getError(float /*stepSize*/)
     {
-        return (target - rnsBodies->getCoM().head(target.rows()));
+        return getDelta();
     }
 
     Eigen::VectorXf CoMIK::computeStep(float stepSize)
     {
-        Eigen::VectorXf error = (target - rnsBodies->getCoM().head(target.rows())) * stepSize;
+        Eigen::VectorXf error = getDelta() * stepSize;
         return getPseudoInverseJacobianMatrix() * error;
     }
 
diff --git a/VirtualRobot/IK/CoMIK.h b/VirtualRobot/IK/CoMIK.h
index 2011f44..54d7fd5 100644
--- a/VirtualRobot/IK/CoMIK.h
+++ b/VirtualRobot/IK/CoMIK.h
@@ -67,6 +67,9 @@ namespace VirtualRobot
 
         void print() override;
     private:
+        //! The current distance to the target, in coordSystem
+        Eigen::VectorXf getDelta();
+
         RobotNodePtr coordSystem;
         RobotNodeSetPtr rnsBodies;
 
-- 
2.43.0


From bf71440ff443774e7783549ca8a372be8e45faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 109/146] fix: DifferentialIK gives the error in the coordinate
 system of the Jacobian

---
 VirtualRobot/IK/DifferentialIK.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/DifferentialIK.cpp b/VirtualRobot/IK/DifferentialIK.cpp
index 4cb382d..8ab4d42 100644
--- a/VirtualRobot/IK/DifferentialIK.cpp
+++ b/VirtualRobot/IK/DifferentialIK.cpp
@@ -693,7 +693,16 @@ namespace VirtualRobot
         }
 
         VR_ASSERT(tcp);
-        updateDelta(delta, tcp->getGlobalPose(), this->targets[tcp], this->modes[tcp]);
+
+        if (coordSystem)
+        {
+            // the Jacobian is defined in coordSystem, so is the error
+            updateDelta(delta, coordSystem->toLocalCoordinateSystem(tcp->getGlobalPose()), coordSystem->toLocalCoordinateSystem(this->targets[tcp]), this->modes[tcp]);
+        }
+        else
+        {
+            updateDelta(delta, tcp->getGlobalPose(), this->targets[tcp], this->modes[tcp]);
+        }
     }
 
     void DifferentialIK::updateDelta(Eigen::VectorXf& delta, const Eigen::Matrix4f& current, const Eigen::Matrix4f& goal, IKSolver::CartesianSelection mode)
@@ -778,6 +787,12 @@ namespace VirtualRobot
         }
 
         Vector3f position = targets[tcp].block(0, 3, 3, 1) - tcp->getGlobalPose().block(0, 3, 3, 1);
+
+        if (coordSystem)
+        {
+            position = (coordSystem->getGlobalPose().block<3, 3>(0, 0).transpose() * position).eval();
+        }
+
         float result = 0.0f;
 
         if (modes[tcp] & IKSolver::X)
-- 
2.43.0


From 47af03326392a7db54a515a8dc58e04cde679dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 110/146] fix: PoseConstraint's position gradient belongs to
 its function

---
 VirtualRobot/IK/constraints/PoseConstraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/constraints/PoseConstraint.cpp b/VirtualRobot/IK/constraints/PoseConstraint.cpp
index 2d88b0e..44a3b7c 100644
--- a/VirtualRobot/IK/constraints/PoseConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PoseConstraint.cpp
@@ -167,7 +167,8 @@ Eigen::VectorXf PoseConstraint::positionOptimizationGradient()
     int size = nodeSet->getSize();
 
     Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(0, 0, 3, size);
-    Eigen::Vector3f d = posRotTradeoff * (eef->getGlobalPose().block<3,1>(0,3) - target.block<3,1>(0,3));
+    // the factor of the optimization function enters squared
+    Eigen::Vector3f d = posRotTradeoff * posRotTradeoff * (eef->getGlobalPose().block<3,1>(0,3) - target.block<3,1>(0,3));
 
     switch(cartesianSelection)
     {
-- 
2.43.0


From fc78e4650a3a74475fb13e5094a63d760df6cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 111/146] fix: TSRConstraint's gradients and Jacobian belong to
 its functions

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index c8d3a5b..188bcd4 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -58,7 +58,17 @@ TSRConstraint::TSRConstraint(const RobotPtr& robot, const RobotNodeSetPtr& nodeS
 
 Eigen::MatrixXf TSRConstraint::getJacobianMatrix()
 {
-    return ik->getJacobianMatrix();
+    // The error is the one of the point given by eefOffset
+    Eigen::MatrixXf J = ik->getJacobianMatrix(eef);
+    Eigen::Vector3f r = eef->getGlobalPose().block<3, 3>(0, 0) * eefOffset.block<3, 1>(0, 3);
+
+    for (int i = 0; i < J.cols(); i++)
+    {
+        Eigen::Vector3f rotation = J.block<3, 1>(3, i);
+        J.block<3, 1>(0, i) += rotation.cross(r);
+    }
+
+    return J;
 }
 
 Eigen::MatrixXf TSRConstraint::getJacobianMatrix(SceneObjectPtr tcp)
@@ -159,8 +169,9 @@ double TSRConstraint::positionOptimizationFunction()
 
 Eigen::VectorXf TSRConstraint::positionOptimizationGradient()
 {
-    Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(0, 0, 3, nodeSet->getSize());
-    Eigen::VectorXf e = posRotTradeoff * getPositionError();
+    Eigen::MatrixXf J = getJacobianMatrix().block(0, 0, 3, nodeSet->getSize());
+    // The error is given in the frame of the task space region, the Jacobian in the global frame
+    Eigen::VectorXf e = posRotTradeoff * posRotTradeoff * (transformation.block<3, 3>(0, 0) * getPositionError());
     return 2 * e.transpose() * J;
 }
 
@@ -173,7 +184,8 @@ double TSRConstraint::orientationOptimizationFunction()
 Eigen::VectorXf TSRConstraint::orientationOptimizationGradient()
 {
     Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(3, 0, 3, nodeSet->getSize());
-    Eigen::VectorXf e = getOrientationError();
+    // The error is given in the frame of the task space region, the Jacobian in the global frame
+    Eigen::VectorXf e = transformation.block<3, 3>(0, 0) * getOrientationError();
     Eigen::VectorXf result = 2 * e.transpose() * J;
     return result;
 }
-- 
2.43.0


From 903a982ae42f9f3754eae1df5d94bfdc87d9517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:52 +0000
Subject: [PATCH 112/146] fix: CoMConstraint::updateTarget changes the target

---
 VirtualRobot/IK/constraints/CoMConstraint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/IK/constraints/CoMConstraint.cpp b/VirtualRobot/IK/constraints/CoMConstraint.cpp
index debe401..63ac70e 100644
--- a/VirtualRobot/IK/constraints/CoMConstraint.cpp
+++ b/VirtualRobot/IK/constraints/CoMConstraint.cpp
@@ -59,11 +59,13 @@ CoMConstraint::CoMConstraint(const RobotPtr &robot, const RobotNodeSetPtr &joint
 
 void CoMConstraint::updateTarget(const Eigen::Vector3f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
 void CoMConstraint::updateTarget(const Eigen::Vector2f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
-- 
2.43.0


From b316ec23af56a4ec8bfce97b4eac1c62f47ff024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 113/146] fix: BalanceConstraint: sigmoid_prime is the
 derivative of sigmoid

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 9a4bb52..8bc0bbd 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -130,7 +130,8 @@ double BalanceConstraintOptimizationFunction::sigmoid(double x)
 
 double BalanceConstraintOptimizationFunction::sigmoid_prime(double x)
 {
-    return sigmoid(x) * (1 - sigmoid(x));
+    float beta = 0.1f;
+    return beta * sigmoid(x) * (1 - sigmoid(x));
 }
 
 
-- 
2.43.0


From a224e91700ba523f4bbb62cfcd15ba037496fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 114/146] fix: BalanceConstraint evaluates the center of mass
 of its bodies

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 8bc0bbd..0be5c0b 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -247,7 +247,7 @@ double BalanceConstraint::optimizationFunction(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
@@ -263,7 +263,7 @@ Eigen::VectorXf BalanceConstraint::optimizationGradient(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
-- 
2.43.0


From da8f356b125c51595d028f0c9da2cc6f8700c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 115/146] fix: AdvancedIKSolver::solve fails for objects
 without grasps

---
 VirtualRobot/IK/AdvancedIKSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/AdvancedIKSolver.cpp b/VirtualRobot/IK/AdvancedIKSolver.cpp
index a91953e..d3174bf 100644
--- a/VirtualRobot/IK/AdvancedIKSolver.cpp
+++ b/VirtualRobot/IK/AdvancedIKSolver.cpp
@@ -128,7 +128,7 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
-        GraspSetPtr gs = object->getGraspSet(eef)->clone();
+        GraspSetPtr gs = object->getGraspSet(eef);
 
         if (!gs || gs->getSize() == 0)
         {
@@ -136,6 +136,8 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
+        gs = gs->clone();
+
         bool updateStatus = robot->getUpdateVisualizationStatus();
         robot->setUpdateVisualization(false);
 
-- 
2.43.0


From 25b4c7c7f00acb68e1cdd477618815e5aa4faa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 116/146] fix: DifferentialIK::getErrorRotation works for the
 default TCP

---
 VirtualRobot/IK/DifferentialIK.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/IK/DifferentialIK.cpp b/VirtualRobot/IK/DifferentialIK.cpp
index 8ab4d42..4788d8a 100644
--- a/VirtualRobot/IK/DifferentialIK.cpp
+++ b/VirtualRobot/IK/DifferentialIK.cpp
@@ -776,14 +776,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorPosition(SceneObjectPtr tcp)
     {
-        if (modes[tcp] == IKSolver::Orientation)
+        if (!tcp)
         {
-            return 0.0f;    // ignoring position
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (modes[tcp] == IKSolver::Orientation)
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // ignoring position
         }
 
         Vector3f position = targets[tcp].block(0, 3, 3, 1) - tcp->getGlobalPose().block(0, 3, 3, 1);
@@ -815,14 +815,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorRotation(SceneObjectPtr tcp)
     {
-        if (!(modes[tcp] & IKSolver::Orientation))
+        if (!tcp)
         {
-            return 0.0f;    // no error in this dimensions
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (!(modes[tcp] & IKSolver::Orientation))
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // no error in this dimensions
         }
 
         Matrix4f orientation = this->targets[tcp] * tcp->getGlobalPose().inverse();
-- 
2.43.0


From b9bbb923806601bd6a63389a8c822d01a62a8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 117/146] fix: TSRConstraint uses the tolerances it is given

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index 188bcd4..10fb180 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -40,8 +40,8 @@ TSRConstraint::TSRConstraint(const RobotPtr& robot, const RobotNodeSetPtr& nodeS
     transformation(transformation),
     eefOffset(eefOffset),
     bounds(bounds),
-    toleranceTranslation(1.0f),
-    toleranceRotation(0.1f),
+    toleranceTranslation(tolerancePosition),
+    toleranceRotation(toleranceRotation),
     posRotTradeoff(0.1f)
 {
     ik.reset(new DifferentialIK(nodeSet));
-- 
2.43.0


From 671ae0d418f7c7594d91ddd2b8d830bafbe93442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 118/146] fix: PositionConstraint checks the distance along one
 axis on both sides

---
 VirtualRobot/IK/constraints/PositionConstraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PositionConstraint.cpp b/VirtualRobot/IK/constraints/PositionConstraint.cpp
index 12d1e7e..b662a30 100644
--- a/VirtualRobot/IK/constraints/PositionConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PositionConstraint.cpp
@@ -105,13 +105,13 @@ bool PositionConstraint::checkTolerances()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return d.x() <= tolerance;
+            return std::abs(d.x()) <= tolerance;
 
         case IKSolver::CartesianSelection::Y:
-            return d.y() <= tolerance;
+            return std::abs(d.y()) <= tolerance;
 
         case IKSolver::CartesianSelection::Z:
-            return d.z() <= tolerance;
+            return std::abs(d.z()) <= tolerance;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-- 
2.43.0


From 67d1edef4e7f762ceb3e43636404c5050b445e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 119/146] fix: TimeOptimalTrajectory does not skip the
 deceleration when the steps are small

---
 VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
index bfbd33d..b3d3c4c 100644
--- a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
@@ -353,7 +353,9 @@ namespace VirtualRobot
             // check for intersection between current start trajectory and backward trajectory segments
             const double startSlope = (start2->pathVel - start1->pathVel) / (start2->pathPos - start1->pathPos);
             const double intersectionPathPos = (start1->pathVel - pathVel + slope * pathPos - startSlope * start1->pathPos) / (slope - startSlope);
-            if(max(start1->pathPos, pathPos) - eps <= intersectionPathPos && intersectionPathPos <= eps + min(start2->pathPos, trajectory.front().pathPos)) {
+            // the tolerance has to be small compared with the segments, otherwise the velocity jumps
+            const double tolerance = min(eps, 0.1 * min(start2->pathPos - start1->pathPos, trajectory.front().pathPos - pathPos));
+            if(max(start1->pathPos, pathPos) - tolerance <= intersectionPathPos && intersectionPathPos <= tolerance + min(start2->pathPos, trajectory.front().pathPos)) {
                 const double intersectionPathVel = start1->pathVel + startSlope * (intersectionPathPos - start1->pathPos);
                 startTrajectory.erase(start2, startTrajectory.end());
                 startTrajectory.push_back(TimeOptimalTrajectoryStep(intersectionPathPos, intersectionPathVel));
-- 
2.43.0


From ddf5561a36bacfd1691f4c37521172d2eda2ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 120/146] fix: Path ignores repeated waypoints

---
 VirtualRobot/TimeOptimalTrajectory/Path.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/TimeOptimalTrajectory/Path.cpp b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
index fe51f30..960e12e 100644
--- a/VirtualRobot/TimeOptimalTrajectory/Path.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
@@ -173,9 +173,19 @@ namespace VirtualRobot
 
 
 
-    Path::Path(const list<VectorXd> &path, double maxDeviation) :
+    Path::Path(const list<VectorXd> &waypoints, double maxDeviation) :
         length(0.0)
     {
+        // waypoints that repeat the previous one do not contribute a segment
+        list<VectorXd> path;
+        for(const auto & waypoint : waypoints) {
+            if(path.empty() || (waypoint - path.back()).norm() > 0.000001) {
+                path.push_back(waypoint);
+            }
+        }
+        if(path.size() == 1 && waypoints.size() > 1) {
+            path.push_back(path.front());
+        }
         if(path.size() < 2)
             return;
         list<VectorXd>::const_iterator config1 = path.begin();
-- 
2.43.0


From 9c677997d9810b770b5cb97854812fd41c9ff7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 121/146] fix: no TimeOptimalTrajectory along paths that turn
 back on the spot

---
 VirtualRobot/TimeOptimalTrajectory/Path.cpp                | 3 ++-
 .../TimeOptimalTrajectory/TimeOptimalTrajectory.cpp        | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/TimeOptimalTrajectory/Path.cpp b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
index 960e12e..70222e7 100644
--- a/VirtualRobot/TimeOptimalTrajectory/Path.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
@@ -103,7 +103,8 @@ namespace VirtualRobot
             const Eigen::VectorXd startDirection = (intersection - start).normalized();
             const Eigen::VectorXd endDirection = (end - intersection).normalized();
 
-            if((startDirection - endDirection).norm() < 0.000001) {
+            // no blend for a straight path and for a path that turns back on the spot
+            if((startDirection - endDirection).norm() < 0.000001 || (startDirection + endDirection).norm() < 0.000001) {
                 length = 0.0;
                 radius = 1.0;
                 center = intersection;
diff --git a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
index b3d3c4c..c27d787 100644
--- a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
@@ -62,6 +62,13 @@ namespace VirtualRobot
         cachedTime(numeric_limits<double>::max())
     {
         trajectory.push_back(TimeOptimalTrajectoryStep(0.0, 0.0));
+        for(const auto & point : path.getSwitchingPoints()) {
+            if(point.second && path.getTangent(point.first - eps).dot(path.getTangent(point.first + eps)) < eps - 1.0) {
+                cout << "error: the path turns back on the spot" << endl;
+                valid = false;
+                return;
+            }
+        }
         double afterAcceleration = getMinMaxPathAcceleration(0.0, 0.0, true);
         while(valid && !integrateForward(trajectory, afterAcceleration) && valid) {
             double beforeAcceleration;
-- 
2.43.0


From 0783caaa3fb68fb1b1131005bcbfaebd7db7e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 122/146] fix: BasicGraspQualityMeasure uses the contact points
 it is given

---
 VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
index 8abfe98..6297085 100644
--- a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
+++ b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
@@ -70,13 +70,13 @@ namespace VirtualRobot
     BasicGraspQualityMeasure::~BasicGraspQualityMeasure()
     = default;
 
-    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& /*contactPoints6d*/)
+    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints6d)
     {
         this->contactPoints.clear();
         this->contactPointsM.clear();
         std::vector<MathTools::ContactPoint>::const_iterator objPointsIter;
 
-        for (objPointsIter = contactPoints.begin(); objPointsIter != contactPoints.end(); objPointsIter++)
+        for (objPointsIter = contactPoints6d.begin(); objPointsIter != contactPoints6d.end(); objPointsIter++)
         {
             MathTools::ContactPoint point = (*objPointsIter);
             point.p -= centerOfModel;
-- 
2.43.0


From 0ad93876c7959802a85c96e8b1c6202e216d923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 123/146] fix: the contact cone has the angle of the friction
 cone

---
 GraspPlanning/ContactConeGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ContactConeGenerator.cpp b/GraspPlanning/ContactConeGenerator.cpp
index 31e84c3..2e6bef5 100644
--- a/GraspPlanning/ContactConeGenerator.cpp
+++ b/GraspPlanning/ContactConeGenerator.cpp
@@ -39,8 +39,8 @@ namespace GraspStudio
         for (int i = 0; i < frictionConeSamples; i++)
         {
             Eigen::Vector3f p;
-            p(0) = unitForce * (float)(cos(frictionConeAngle) * cos(i * 2.0 * M_PI / frictionConeSamples));
-            p(1) = unitForce * (float)(cos(frictionConeAngle) * sin(i * 2.0 * M_PI / frictionConeSamples));
+            p(0) = unitForce * (float)(sin(frictionConeAngle) * cos(i * 2.0 * M_PI / frictionConeSamples));
+            p(1) = unitForce * (float)(sin(frictionConeAngle) * sin(i * 2.0 * M_PI / frictionConeSamples));
             p(2) = (float)frictionConeHeight;
             frictionConeRimPoints.push_back(p);
         }
-- 
2.43.0


From 9f8d072be92d09a4a7407de328ea98eec54cd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 124/146] fix: GraspQualityMeasureWrenchSpaceNotNormalized
 finds the smallest offset

---
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 7433974..5ac8b8d 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -294,7 +294,7 @@ namespace GraspStudio
                 nWrongFacets++;
                 continue;
             }
-            fRes = std::max(fRes, -dist);
+            fRes = std::min<float>(fRes, -dist);
         }
 
         if (nWrongFacets > 0)
-- 
2.43.0


From 43debe1b7ec64c736bc29bf0f63628582553e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 125/146] fix: a grasp wrench space without facets is no force
 closure

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp   | 2 +-
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 86f4408..35829d4 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -374,7 +374,7 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpace::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 5ac8b8d..e290096 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -256,7 +256,7 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpaceNotNormalized::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
-- 
2.43.0


From b438c05a0a77fab535652a855bb2ff119d5058f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 126/146] fix: new contact points discard the grasp wrench
 space of the old ones

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp   | 2 ++
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 35829d4..478e5ec 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -46,12 +46,14 @@ namespace GraspStudio
     {
         GraspQualityMeasure::setContactPoints(contactPoints);
         GWSCalculated = false;
+        convexHullGWS.reset();
     }
 
     void GraspQualityMeasureWrenchSpace::setContactPoints(const VirtualRobot::EndEffector::ContactInfoVector& contactPoints)
     {
         GraspQualityMeasure::setContactPoints(contactPoints);
         GWSCalculated = false;
+        convexHullGWS.reset();
     }
 
 
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index e290096..6d8288e 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -31,12 +31,14 @@ namespace GraspStudio
     {
         GraspQualityMeasure::setContactPoints(contactPoints);
         GWSCalculated = false;
+        convexHullGWS.reset();
     }
 
     void GraspQualityMeasureWrenchSpaceNotNormalized::setContactPoints(const VirtualRobot::EndEffector::ContactInfoVector& contactPoints)
     {
         GraspQualityMeasure::setContactPoints(contactPoints);
         GWSCalculated = false;
+        convexHullGWS.reset();
     }
 
 
-- 
2.43.0


From 139ee57b62709a4e91bec480a159de0353bad7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 127/146] fix: BulletEngine adds objects and robots to the
 physics world only once

---
 .../BulletEngine/BulletEngine.cpp             | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 7fa7948..57e30aa 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -5,6 +5,8 @@
 #include <VirtualRobot/Obstacle.h>
 #include <VirtualRobot/MathTools.h>
 
+#include <algorithm>
+
 //#define DEBUG_FIXED_OBJECTS
 
 namespace SimDynamics
@@ -203,6 +205,12 @@ namespace SimDynamics
             return false;
         }
 
+        if (std::find(objects.begin(), objects.end(), o) != objects.end())
+        {
+            // the object is already part of the bullet world
+            return DynamicsEngine::addObject(o);
+        }
+
         int btColFlag;
 
         switch (o->getSimType())
@@ -426,6 +434,19 @@ namespace SimDynamics
             return false;
         }
 
+        bool alreadyAdded = std::find(robots.begin(), robots.end(), r) != robots.end();
+
+        // do not touch the bullet world, if the robot is already part of it or if it is refused
+        if (!DynamicsEngine::addRobot(r))
+        {
+            return false;
+        }
+
+        if (alreadyAdded)
+        {
+            return true;
+        }
+
         std::vector<BulletRobot::LinkInfo> links = btRobot->getLinks();
         std::vector<DynamicsObjectPtr> nodes = btRobot->getDynamicsRobotNodes();
 
@@ -439,7 +460,7 @@ namespace SimDynamics
             addLink(link);
         }
 
-        return DynamicsEngine::addRobot(r);
+        return true;
     }
 
     void BulletEngine::addExternalCallback(BulletStepCallback function, void* data)
-- 
2.43.0


From b779a87dfb55f6199f8a051a7e95a16f775f4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 128/146] fix: SimoxMotionState::setGlobalPose applies the CoM
 offset in the new orientation

---
 .../DynamicsEngine/BulletEngine/SimoxMotionState.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
index ce9f4a0..70cadb6 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
@@ -181,9 +181,9 @@ namespace SimDynamics
     {
         initalGlobalPose = pose;
         /* convert to local coord system, apply comoffset and convert back*/
-        Eigen::Matrix4f poseLocal = sceneObject->getGlobalPose().inverse() * pose;
-        poseLocal.block(0, 3, 3, 1) += com;
-        Eigen::Matrix4f poseGlobal = sceneObject->getGlobalPose() * poseLocal;
+        Eigen::Matrix4f poseLocal = Eigen::Matrix4f::Identity();
+        poseLocal.block(0, 3, 3, 1) = com;
+        Eigen::Matrix4f poseGlobal = pose * poseLocal;
         m_startWorldTrans = BulletEngine::getPoseBullet(poseGlobal);
         //m_startWorldTrans.getOrigin() -= _comOffset.getOrigin();
         updateTransform();
-- 
2.43.0


From ab2fe45916ad6a9e6fa27edc31ecc43e167bd577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 129/146] fix: BulletObject::setPosition keeps the orientation

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 95a6633..b5327ca 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -276,7 +276,7 @@ namespace SimDynamics
     void BulletObject::setPosition(const Eigen::Vector3f& posMM)
     {
         MutexLockPtr lock = getScopedLock();
-        Eigen::Matrix4f pose = Eigen::Matrix4f::Identity();
+        Eigen::Matrix4f pose = sceneObject->getGlobalPose();
         pose.block(0, 3, 3, 1) = posMM;
         setPose(pose);
     }
-- 
2.43.0


From fc130dfd7004f726f20f2c6a378e46adac36cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 130/146] fix: BulletEngine::updateConfig keeps the friction of
 objects which have their own

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 57e30aa..ff00508 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -187,7 +187,6 @@ namespace SimDynamics
 
             btObject->getRigidBody()->setRestitution(bulletConfig->bulletObjectRestitution);
             btObject->getRigidBody()->setFriction(friction>0.0?friction:bulletConfig->bulletObjectFriction);
-            btObject->getRigidBody()->setFriction(bulletConfig->bulletObjectFriction);
             btObject->getRigidBody()->setDamping(bulletConfig->bulletObjectDampingLinear, bulletConfig->bulletObjectDampingAngular);
             btObject->getRigidBody()->setDeactivationTime(bulletConfig->bulletObjectDeactivation);
             btObject->getRigidBody()->setSleepingThresholds(bulletConfig->bulletObjectSleepingThresholdLinear, bulletConfig->bulletObjectSleepingThresholdAngular);
-- 
2.43.0


From 1ffa837109edf403354295827d6468f68bf31bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 131/146] fix: cylinders are not twice as high in the
 simulation

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index b5327ca..2b89738 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -196,7 +196,8 @@ namespace SimDynamics
         else if (primitive->type == Primitive::Cylinder::TYPE)
         {
             Primitive::Cylinder* cyl = boost::dynamic_pointer_cast<Primitive::Cylinder>(primitive).get();
-            btCylinderShape* cylShape = new btCylinderShape(btVector3(cyl->radius / 1000.0  * ScaleFactor, cyl->height / 1000.0  * ScaleFactor, cyl->radius / 1000.0  * ScaleFactor));
+            // the height has to be halved
+            btCylinderShape* cylShape = new btCylinderShape(btVector3(cyl->radius / 1000.0  * ScaleFactor, cyl->height / 2000.0  * ScaleFactor, cyl->radius / 1000.0  * ScaleFactor));
             result = cylShape;
         }
         else
-- 
2.43.0


From c955c6f5fed339fce3a4096a5e14011c51d03b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 132/146] fix: BulletRobot does not count joint value offsets
 twice

---
 .../DynamicsEngine/BulletEngine/BulletRobot.cpp  | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 1e65be5..0aca53c 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -376,15 +376,13 @@ namespace SimDynamics
             boost::shared_ptr<RobotNodePrismatic> rnPrisJoint = boost::dynamic_pointer_cast<RobotNodePrismatic>(joint);
 
             double limMin, limMax;
-            btScalar diff = joint->getJointValueOffset();
-            limMin = (joint->getJointLimitLo() + diff) / 1000 * BulletObject::ScaleFactor; //mm -> m
-            limMax = (joint->getJointLimitHi() + diff) / 1000 * BulletObject::ScaleFactor; //mm -> m
+            // the bullet joint is at zero, when the joint value is zero (the pose of the joint covers the joint value offset)
+            limMin = joint->getJointLimitLo() / 1000 * BulletObject::ScaleFactor; //mm -> m
+            limMax = joint->getJointLimitHi() / 1000 * BulletObject::ScaleFactor; //mm -> m
 
             Eigen::Vector3f directionLocal = rnPrisJoint->getJointTranslationDirectionJointCoordSystem();
 
             jointbt = createTranslationalJoint(btBody1, btBody2, coordSystemNode1, coordSystemNode2, anchor_inNode1, anchor_inNode2, directionLocal, coordSystemJoint, limMin, limMax);
-
-            vr2bulletOffset = diff;
         }
         else if (joint->isRotationalJoint())
         {
@@ -405,12 +403,10 @@ namespace SimDynamics
             Eigen::Vector3f axisGlobal = rnRevJoint->getJointRotationAxis();
             Eigen::Vector3f axisLocal = rnRevJoint->getJointRotationAxisInJointCoordSystem();
             btScalar limMinBT, limMaxBT;
-            btScalar diff = joint->getJointValueOffset();//startAngleBT + startAngle);
-            limMinBT = btScalar(limMin) + diff;//diff - limMax;//
-            limMaxBT = btScalar(limMax) + diff;//diff - limMin;//
+            // the bullet joint is at zero, when the joint value is zero (the pose of the joint covers the joint value offset)
+            limMinBT = btScalar(limMin);
+            limMaxBT = btScalar(limMax);
             jointbt = createHingeJoint(btBody1, btBody2, coordSystemNode1, coordSystemNode2, anchor_inNode1, anchor_inNode2, axisGlobal, axisLocal, coordSystemJoint, limMinBT, limMaxBT);
-
-            vr2bulletOffset = diff;
         }
         else
         {
-- 
2.43.0


From 7704635fce896a2848b80d7e9be1076af2264963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 133/146] fix: the pose of robot nodes reaches the motion state

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp  | 5 +++++
 .../DynamicsEngine/BulletEngine/SimoxMotionState.cpp      | 8 ++++++++
 .../DynamicsEngine/BulletEngine/SimoxMotionState.h        | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 2b89738..e86cbed 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -296,6 +296,11 @@ namespace SimDynamics
         {
             motionState->setGlobalPose(pose);
         }
+        else
+        {
+            // kinematic bodies are placed at the pose of the motion state in every step
+            motionState->setBulletPose(this->rigidBody->getWorldTransform());
+        }
     }
 
     void BulletObject::setPose(const Eigen::Matrix4f& pose)
diff --git a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
index 70cadb6..3c3084e 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
@@ -191,6 +191,14 @@ namespace SimDynamics
 
 
 
+    void SimoxMotionState::setBulletPose(const btTransform& worldPose)
+    {
+        m_startWorldTrans = worldPose;
+        m_graphicsWorldTrans = worldPose;
+        _transform = worldPose;
+        _graphicsTransfrom = worldPose;
+    }
+
     std::vector<SimoxMotionStateCallback*> SimoxMotionState::getCallbacks()
     {
         return callbacks;
diff --git a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.h b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.h
index dd8e55b..1501467 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.h
+++ b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.h
@@ -107,6 +107,11 @@ namespace SimDynamics
         */
         void setGlobalPose(const Eigen::Matrix4f& pose);
 
+        /*!
+            Update the pose which is reported to bullet without changing the object.
+        */
+        void setBulletPose(const btTransform& worldPose);
+
     protected:
         void updateTransform();
         void _setCOM(const Eigen::Vector3f& com);
-- 
2.43.0


From 123d43232262083f8c145064dbf75aac89c9758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 134/146] fix: BulletEngine::getGravity reports the gravity of
 an updated configuration

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index ff00508..d11b845 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -162,6 +162,7 @@ namespace SimDynamics
         MutexLockPtr lock = getScopedLock();
 
         bulletConfig = newConfig;
+        dynamicsConfig = newConfig;
 
         dynamicsWorld->setGravity(btVector3(btScalar(newConfig->gravity[0] * BulletObject::ScaleFactor),
                                   btScalar(newConfig->gravity[1] * BulletObject::ScaleFactor),
-- 
2.43.0


From 960a6fbaa6235471073cbaba4e4cde522c18f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 135/146] fix: BulletEngine::createFloorPlane puts the floor at
 the given position

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index d11b845..6c08b2f 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -314,7 +314,8 @@ namespace SimDynamics
         groundObject->setName(name);
         Eigen::Matrix4f gp;
         gp.setIdentity();
-        gp(2, 3) = -sizeSmall * 0.5f;
+        // the surface of the floor lies at pos
+        gp.block(0, 3, 3, 1) = pos - up.normalized() * sizeSmall * 0.5f;
         groundObject->setGlobalPose(gp);
 
         groundObject->getVisualization();
-- 
2.43.0


From 651a766296182a81e1dc9a7256bb097f6f6f482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:32 +0000
Subject: [PATCH 136/146] fix: the robot lock is held while the robot is
 updated

---
 VirtualRobot/Robot.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 101be24..2336a3c 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -418,7 +418,7 @@ namespace VirtualRobot
      */
     void Robot::applyJointValues()
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->getRootNode()->updatePose(this->getGlobalPose());
     }
 
@@ -667,7 +667,7 @@ namespace VirtualRobot
 
     void LocalRobot::setGlobalPose(const Eigen::Matrix4f& globalPose, bool applyJointValues /*= true*/)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->globalPose = globalPose;
 
         if (applyJointValues)
@@ -678,7 +678,7 @@ namespace VirtualRobot
 
     Eigen::Matrix4f LocalRobot::getGlobalPose() const
     {
-        ReadLock(mutex, use_mutex);
+        ReadLock lock(mutex, use_mutex);
         return globalPose;
     }
 
@@ -995,7 +995,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map< std::string, float >& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< std::string, float >::const_iterator it = jointValues.begin();
 
@@ -1017,7 +1017,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map<RobotNodePtr, float>& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< RobotNodePtr, float >::const_iterator it = jointValues.begin();
 
@@ -1067,7 +1067,7 @@ namespace VirtualRobot
     void Robot::setJointValues(const std::vector<RobotNodePtr> rn, const std::vector<float>& jointValues)
     {
         VR_ASSERT(rn.size() == jointValues.size());
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         for (size_t i = 0; i < rn.size(); i++)
         {
-- 
2.43.0


From 30e7f5b7bcb803a95434e5c8dc508b3267ff7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:32 +0000
Subject: [PATCH 137/146] fix: Robot::getConfig and getCoMGlobal see one state
 of the robot

---
 VirtualRobot/Robot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 2336a3c..835d2f5 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -691,6 +691,7 @@ namespace VirtualRobot
 
     Eigen::Vector3f Robot::getCoMGlobal()
     {
+        ReadLock lock(mutex, use_mutex);
         Eigen::Vector3f res;
         res.setZero();
 
@@ -917,6 +918,7 @@ namespace VirtualRobot
 
     VirtualRobot::RobotConfigPtr Robot::getConfig()
     {
+        ReadLock lock(mutex, use_mutex);
         RobotConfigPtr r(new RobotConfig(shared_from_this(), getName()));
 
         std::vector<RobotNodePtr> robotNodes = this->getRobotNodes();
-- 
2.43.0


From f2836c6a235b33a3bbe4c7dff599d8a1b2488af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:32 +0000
Subject: [PATCH 138/146] fix: placing the robot by one of its nodes is one
 update

---
 VirtualRobot/Robot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 835d2f5..db1cc96 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -857,6 +857,7 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
         
+        WriteLock lock(mutex, use_mutex);
         setGlobalPose(getGlobalPoseForRobotNode(node, globalPoseNode));
     }
     
@@ -878,6 +879,7 @@ namespace VirtualRobot
     void Robot::setGlobalPositionForRobotNode(
             const RobotNodePtr& node, const Eigen::Vector3f& globalPositionNode)
     {
+        WriteLock lock(mutex, use_mutex);
         setGlobalPose(getGlobalPositionForRobotNode(node, globalPositionNode));
     }
     
-- 
2.43.0


From 2525d7f488d0198b49e7af9b3807a547c868405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:32 +0000
Subject: [PATCH 139/146] fix: RobotNodeSet reads all joint values under one
 lock

---
 VirtualRobot/RobotNodeSet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 86077aa..62f8856 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -342,12 +342,16 @@ namespace VirtualRobot
 
     void RobotNodeSet::getJointValues(std::vector<float>& fillVector) const
     {
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         fillVector.resize(robotNodes.size());
         std::transform(robotNodes.begin(), robotNodes.end(), fillVector.begin(), boost::mem_fn(&RobotNode::getJointValue));
     }
 
     void RobotNodeSet::getJointValues(Eigen::VectorXf& fillVector) const
     {
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         fillVector.resize(robotNodes.size());
 
         for (size_t i = 0; i < robotNodes.size(); i++)
@@ -360,6 +364,8 @@ namespace VirtualRobot
     void RobotNodeSet::getJointValues(RobotConfigPtr fillVector) const
     {
         THROW_VR_EXCEPTION_IF(!fillVector, "NULL data");
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
 
         for (const auto & robotNode : robotNodes)
         {
@@ -369,6 +375,8 @@ namespace VirtualRobot
 
     std::map<std::string, float> RobotNodeSet::getJointValueMap() const
     {
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         std::map<std::string, float> res;
         for (auto n: robotNodes)
         {
-- 
2.43.0


From 1fdce2cc89a983087c7ab07e0f068d969e66a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:32 +0000
Subject: [PATCH 140/146] fix: LinkedCoordinate transforms with the poses of
 one robot state

---
 VirtualRobot/LinkedCoordinate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/LinkedCoordinate.cpp b/VirtualRobot/LinkedCoordinate.cpp
index 7e66fb4..8f33efe 100644
--- a/VirtualRobot/LinkedCoordinate.cpp
+++ b/VirtualRobot/LinkedCoordinate.cpp
@@ -161,5 +161,6 @@ Eigen::Matrix4f LinkedCoordinate::getCoordinateTransformation(const RobotNodePtr
 
     //  std::cout << "Destination: " << destination->getName() <<std::endl << "Origin: " << origin->getName() << std::endl;
     //  std::cout << "Destination:\n" << destination->getGlobalPose() <<std::endl << "Origin:\n" << origin->getGlobalPose() << std::endl;
+    ReadLockPtr lock = robot->getReadLock();
     return destination->getGlobalPose().inverse() * origin->getGlobalPose();
 }
-- 
2.43.0


From ed9a3b2a743b7ac662af31e3a8c1b9fa0dcdd75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 141/146] fix: the pose of a sensor is read under the lock of
 the robot

---
 VirtualRobot/Nodes/Sensor.cpp | 8 ++++++++
 VirtualRobot/Nodes/Sensor.h   | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/VirtualRobot/Nodes/Sensor.cpp b/VirtualRobot/Nodes/Sensor.cpp
index 5dd29e4..9cc36d6 100644
--- a/VirtualRobot/Nodes/Sensor.cpp
+++ b/VirtualRobot/Nodes/Sensor.cpp
@@ -1,5 +1,6 @@
 
 #include "Sensor.h"
+#include "../Robot.h"
 #include "../VirtualRobot.h"
 #include "../VirtualRobotException.h"
 #include "../XML/BaseIO.h"
@@ -53,6 +54,13 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION("Use setJointValues of parent RobotNode to control the position of a Sensor");
     }
 
+    Eigen::Matrix4f Sensor::getGlobalPose() const
+    {
+        RobotNodePtr rn = robotNode.lock();
+        ReadLockPtr lock = rn ? rn->getRobot()->getReadLock() : ReadLockPtr();
+        return globalPose;
+    }
+
     void Sensor::print(bool printChildren, bool printDecoration) const
     {
         if (printDecoration)
diff --git a/VirtualRobot/Nodes/Sensor.h b/VirtualRobot/Nodes/Sensor.h
index bf9488a..bea5229 100644
--- a/VirtualRobot/Nodes/Sensor.h
+++ b/VirtualRobot/Nodes/Sensor.h
@@ -90,6 +90,12 @@ namespace VirtualRobot
         */
         void setGlobalPose(const Eigen::Matrix4f& pose) override;
 
+        // Make all overloads of getGlobalPose from SceneObject available.
+        using SceneObject::getGlobalPose;
+
+        //! The pose of the sensor; protected by the lock of the robot, as the poses of the nodes are.
+        Eigen::Matrix4f getGlobalPose() const override;
+
         /*!
             Print status information.
         */
-- 
2.43.0


From cd06c9a4eccfff74e737f452054c5bcc27a0646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 142/146] fix: RobotNodeSet::getCoM sees one state of the robot

---
 VirtualRobot/RobotNodeSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 62f8856..1fe354d 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -587,6 +587,8 @@ namespace VirtualRobot
 
     Eigen::Vector3f RobotNodeSet::getCoM()
     {
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         Eigen::Vector3f res;
         res.setZero();
 
-- 
2.43.0


From dafc76243e26fa5afb5cee6ca1f8fc53b208c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 143/146] fix: a cloned robot has one state of the original

---
 VirtualRobot/Robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index db1cc96..a7a90ac 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -755,6 +755,9 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(!hasRobotNode(startJoint), " StartJoint '" + startJoint->getName() + "' is not part of this robot '" + getName() + "'");
         THROW_VR_EXCEPTION_IF(scaling <= 0, " Scaling must be >0.");
 
+        // the part gets one state of this robot
+        ReadLock lock(mutex, use_mutex);
+
         CollisionCheckerPtr colChecker = collisionChecker;
 
         if (!colChecker)
@@ -886,6 +889,7 @@ namespace VirtualRobot
 
     VirtualRobot::RobotPtr Robot::clone(const std::string& name, CollisionCheckerPtr collisionChecker, float scaling)
     {
+        ReadLock lock(mutex, use_mutex);
         VirtualRobot::RobotPtr result = extractSubPart(this->getRootNode(), this->getType(), name, true, true, collisionChecker, scaling);
         result->setGlobalPose(getGlobalPose());
         result->filename = filename;
-- 
2.43.0


From 0fc86ac241df97f8940640143a55bdbd95751277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 144/146] fix: the stop flags of planners and path processors
 are atomic

---
 MotionPlanning/Planner/MotionPlanner.h        | 3 ++-
 MotionPlanning/PostProcessing/PathProcessor.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/MotionPlanner.h b/MotionPlanning/Planner/MotionPlanner.h
index 68c9359..fe78caf 100644
--- a/MotionPlanning/Planner/MotionPlanner.h
+++ b/MotionPlanning/Planner/MotionPlanner.h
@@ -22,6 +22,7 @@
 */
 #pragma once
 
+#include <atomic>
 #include "../Saba.h"
 #include "../CSpace/CSpace.h"
 #include "../CSpace/CSpaceNode.h"
@@ -142,7 +143,7 @@ namespace Saba
         CSpacePtr cspace;                   //!< the cspace on which are operating
         CSpacePathPtr solution;             //!< the solution
 
-        bool stopSearch;                    //!< indicates that the search should be interrupted
+        std::atomic<bool> stopSearch;       //!< indicates that the search should be interrupted
 
         unsigned int dimension;             //!< dimension of c-space
 
diff --git a/MotionPlanning/PostProcessing/PathProcessor.h b/MotionPlanning/PostProcessing/PathProcessor.h
index 80494e0..ece8650 100644
--- a/MotionPlanning/PostProcessing/PathProcessor.h
+++ b/MotionPlanning/PostProcessing/PathProcessor.h
@@ -22,6 +22,7 @@
 */
 #pragma once
 
+#include <atomic>
 #include "../Saba.h"
 
 namespace Saba
@@ -65,7 +66,7 @@ namespace Saba
         unsigned int dim;
         bool verbose;
 
-        bool stopOptimization; // allows to stop a running optimization process
+        std::atomic<bool> stopOptimization; // allows to stop a running optimization process
     };
 
 } // namespace
-- 
2.43.0


From 85b9f7435da8d13c21757d6691e83acedc27a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 145/146] fix: stop() of the background threads also stops a
 run that has not begun yet

---
 MotionPlanning/Planner/PlanningThread.cpp              | 6 +++++-
 MotionPlanning/PostProcessing/PathProcessingThread.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index 18365c3..b44487f 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -60,7 +60,11 @@ namespace Saba
 
         if (waitUntilStopped)
         {
-            planningThread.join();
+            // a request that arrives before the run has begun is reset by it, so repeat it until the thread ends
+            while (!planningThread.timed_join(boost::posix_time::milliseconds(10)))
+            {
+                planner->stopExecution();
+            }
         }
     }
 
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index 2417168..8750cc2 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -65,7 +65,11 @@ namespace Saba
 
         if (waitUntilStopped)
         {
-            processingThread.join();
+            // a request that arrives before the run has begun is reset by it, so repeat it until the thread ends
+            while (!processingThread.timed_join(boost::posix_time::milliseconds(10)))
+            {
+                pathProcessor->stopExecution();
+            }
         }
     }
 
-- 
2.43.0


From 733b848f1aa3d95330d457c9882b50d9bf936cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 146/146] fix: ElasticBandProcessor honours stopExecution

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index e6701dc..6c52011 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -307,7 +307,9 @@ using namespace VirtualRobot;
         bool updateVisualization = rns->getRobot()->getUpdateVisualizationStatus();
         rns->getRobot()->setUpdateVisualization(false);
 
-        for (int i=0;i<optimizeSteps;i++)
+        stopOptimization = false;
+
+        for (int i=0;i<optimizeSteps && !stopOptimization;i++)
         {
             if (!elasticBandLoop())
             {
-- 
2.43.0

