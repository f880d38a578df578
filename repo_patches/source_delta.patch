From 3b6aa3c4a223faed5e6aa30ec64807053e65dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 01/43] fix: SlackTerminal shrinks by the number of removed
 variants instead of to that number

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..a8cc5a5 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -82,7 +82,7 @@ bool SlackTerminal::isEmpty() const {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 void SlackTerminal::reset(Network& network) {
-- 
2.43.0


From e8e9131d6d217f42e29ca9aae8614b94c4ff12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 02/43] fix: names of HvdcType follow the order of its values

---
 src/iidm/HvdcConverterStation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/HvdcConverterStation.cpp b/src/iidm/HvdcConverterStation.cpp
index b89bd82..eb491da 100644
--- a/src/iidm/HvdcConverterStation.cpp
+++ b/src/iidm/HvdcConverterStation.cpp
@@ -52,8 +52,8 @@ namespace Enum {
 template <>
 const std::initializer_list<std::string>& getNames<HvdcConverterStation::HvdcType>() {
     static std::initializer_list<std::string> s_typeNames {
-            "LCC",
-            "VSC"
+            "VSC",
+            "LCC"
     };
     return s_typeNames;
 }
-- 
2.43.0


From 7090ccd0c3a65b01530138c521107205bbbdc0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 03/43] fix: adding a measurement without an id returns the
 measurement added

---
 extensions/iidm/src/DiscreteMeasurementAdder.cpp | 3 ++-
 extensions/iidm/src/MeasurementAdder.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index aeb5606..383aaf2 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -32,9 +32,10 @@ DiscreteMeasurement& DiscreteMeasurementAdder::add() {
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
         new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+    DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-    return m_discreteMeasurements.getDiscreteMeasurement(m_id);
+    return result;
 }
 
 DiscreteMeasurementAdder& DiscreteMeasurementAdder::putProperty(const std::string& name, const std::string& value) {
diff --git a/extensions/iidm/src/MeasurementAdder.cpp b/extensions/iidm/src/MeasurementAdder.cpp
index 8caabb7..bb02786 100644
--- a/extensions/iidm/src/MeasurementAdder.cpp
+++ b/extensions/iidm/src/MeasurementAdder.cpp
@@ -31,8 +31,9 @@ Measurement& MeasurementAdder::add() {
     MeasurementValidationUtil::checkValue(m_value, m_valid);
     MeasurementValidationUtil::checkSide(*m_type, m_side, m_measurements.getExtendable<Connectable>().get());
     std::unique_ptr<Measurement> measurement = stdcxx::make_unique<Measurement>(m_measurements, m_id, *m_type, m_properties, m_value, m_standardDeviation, m_valid, m_side);
+    Measurement& result = *measurement;
     m_measurements.add(std::move(measurement));
-    return m_measurements.getMeasurement(m_id).get();
+    return result;
 }
 
 MeasurementAdder& MeasurementAdder::putProperty(const std::string& name, const std::string& value) {
-- 
2.43.0


From 2f908dfd3e50d8ea0ce687c9b486cfdd7fcb416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 04/43] fix: refuse a discrete measurement without a type
 instead of reading an uninitialised one

---
 .../iidm/extensions/iidm/DiscreteMeasurementAdder.hpp    | 2 +-
 extensions/iidm/src/DiscreteMeasurementAdder.cpp         | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
index 904e835..85309d9 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
@@ -80,7 +80,7 @@ private:
 
     std::string m_id;
 
-    DiscreteMeasurement::Type m_type;
+    stdcxx::optional<DiscreteMeasurement::Type> m_type;
 
     stdcxx::optional<DiscreteMeasurement::TapChanger> m_tapChanger;
 
diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index 383aaf2..4c66e65 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -26,12 +26,15 @@ DiscreteMeasurementAdder::DiscreteMeasurementAdder(DiscreteMeasurements& discret
 
 DiscreteMeasurement& DiscreteMeasurementAdder::add() {
     DiscreteMeasurementValidationUtil::checkId(m_id, m_discreteMeasurements);
-    DiscreteMeasurementValidationUtil::checkType(m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
-    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    if (!m_type) {
+        throw PowsyblException("Measurement type can not be null");
+    }
+    DiscreteMeasurementValidationUtil::checkType(*m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, *m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
     DiscreteMeasurementValidationUtil::checkValue(m_value, m_valid);
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
-        new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+        new DiscreteMeasurement(m_discreteMeasurements, m_id, *m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
     DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-- 
2.43.0


From 62ff6aba8ad2f04c4477988c1cb2d78a87aa4463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 05/43] fix: setLowTapPosition keeps the current step in every
 variant

---
 include/powsybl/iidm/TapChanger.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..279f83f 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -165,9 +165,12 @@ void TapChanger<H, C, S>::reduceVariantArraySize(unsigned long number) {
 
 template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
-    long oldValue = m_lowTapPosition;
+    long shift = lowTapPosition - m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    // the low tap position is common to all the variants: keep the same current step in each of them
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += shift;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From 677f35c96f55a88f5639a4bf03de6e422672d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 06/43] fix: a ratio tap changer is validated with its new load
 tap changing capabilities and never with a missing or foreign terminal

---
 src/iidm/RatioTapChanger.cpp | 2 +-
 src/iidm/ValidationUtils.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..f3134ed 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -56,7 +56,7 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..68dc3e6 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -331,9 +331,9 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
         }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
-            throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
-        }
+    }
+    if (regulationTerminal && !stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        throw ValidationException(validable, "regulation terminal is not part of the network");
     }
 }
 
-- 
2.43.0


From 0b7b438da3ae46996173f4d73420994d8d5d59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 07/43] fix: switching on the regulation of a tap changer
 enforces the rules of its creation

---
 include/powsybl/iidm/PhaseTapChanger.hpp  | 2 ++
 include/powsybl/iidm/TapChanger.hxx       | 2 ++
 include/powsybl/iidm/TapChangerHolder.hpp | 3 +++
 src/iidm/PhaseTapChanger.cpp              | 5 +++++
 4 files changed, 12 insertions(+)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..f67a9b8 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -47,6 +47,8 @@ public:
 
     double getRegulationValue() const;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationMode(const RegulationMode& regulationMode);
 
     PhaseTapChanger& setRegulationValue(double regulationValue);
diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 279f83f..29fb132 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -19,6 +19,7 @@ namespace powsybl {
 
 namespace iidm {
 
+void checkOnlyOneTapChangerRegulatingEnabled(const Validable& validable, unsigned long regulatingTapChangerCount, bool regulating);
 long checkTapPosition(const Validable& validable, long tapPosition, long lowTapPosition, long highTapPosition);
 double checkTargetDeadband(const Validable& validable, const std::string& validableType, bool regulating, double targetDeadband);
 
@@ -178,6 +179,7 @@ C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
 template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setRegulating(bool regulating) {
     checkTargetDeadband(m_parent, m_type, regulating, m_targetDeadband[getNetwork().getVariantIndex()]);
+    checkOnlyOneTapChangerRegulatingEnabled(m_parent, m_parent.getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     m_regulating[getNetwork().getVariantIndex()] = regulating;
 
     return static_cast<C&>(*this);
diff --git a/include/powsybl/iidm/TapChangerHolder.hpp b/include/powsybl/iidm/TapChangerHolder.hpp
index bb1d534..0a08daa 100644
--- a/include/powsybl/iidm/TapChangerHolder.hpp
+++ b/include/powsybl/iidm/TapChangerHolder.hpp
@@ -39,6 +39,9 @@ private:
     friend class PhaseTapChangerAdder;
 
     friend class RatioTapChangerAdder;
+
+    template <typename H, typename C, typename S>
+    friend class TapChanger;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..6f924e4 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -57,6 +57,11 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
     checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
     m_regulationMode = regulationMode;
-- 
2.43.0


From 9704a849145126c9e371b0389e7c2c7889056018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 08/43] fix: measurements and feeders cannot be changed to what
 their creation refuses

---
 extensions/iidm/src/DiscreteMeasurement.cpp | 1 +
 extensions/iidm/src/Measurement.cpp         | 3 +++
 extensions/sld/src/ConnectablePosition.cpp  | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/extensions/iidm/src/DiscreteMeasurement.cpp b/extensions/iidm/src/DiscreteMeasurement.cpp
index ce6c1cc..8c70008 100644
--- a/extensions/iidm/src/DiscreteMeasurement.cpp
+++ b/extensions/iidm/src/DiscreteMeasurement.cpp
@@ -159,6 +159,7 @@ DiscreteMeasurement& DiscreteMeasurement::removeProperty(const std::string& name
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValid(bool valid) {
+    DiscreteMeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
diff --git a/extensions/iidm/src/Measurement.cpp b/extensions/iidm/src/Measurement.cpp
index b03f2b6..dbc6fdf 100644
--- a/extensions/iidm/src/Measurement.cpp
+++ b/extensions/iidm/src/Measurement.cpp
@@ -10,6 +10,7 @@
 #include <boost/range/adaptor/map.hpp>
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/extensions/iidm/MeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/Measurements.hpp>
 
 namespace powsybl {
@@ -127,11 +128,13 @@ Measurement& Measurement::setStandardDeviation(double standardDeviation) {
 }
 
 Measurement& Measurement::setValid(bool valid) {
+    MeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
 
 Measurement& Measurement::setValue(double value) {
+    MeasurementValidationUtil::checkValue(value, m_valid);
     m_value = value;
     return *this;
 }
diff --git a/extensions/sld/src/ConnectablePosition.cpp b/extensions/sld/src/ConnectablePosition.cpp
index 42b8391..693fea0 100644
--- a/extensions/sld/src/ConnectablePosition.cpp
+++ b/extensions/sld/src/ConnectablePosition.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
 
+#include <powsybl/PowsyblException.hpp>
 #include <powsybl/iidm/Connectable.hpp>
 #include <powsybl/iidm/Enum.hpp>
 #include <powsybl/stdcxx/format.hpp>
@@ -57,6 +58,9 @@ ConnectablePosition::Feeder& ConnectablePosition::Feeder::setDirection(const Dir
 }
 
 ConnectablePosition::Feeder& ConnectablePosition::Feeder::setName(const std::string& name) {
+    if (name.empty()) {
+        throw PowsyblException("Feeder name is empty");
+    }
     m_name = name;
     return *this;
 }
-- 
2.43.0


From 6f871ba14bcf3ea2710422d8919cdee825a1b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 09/43] fix: a dangling line generation is checked with the
 limits it is created with

---
 src/iidm/DanglingLineGenerationAdder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/DanglingLineGenerationAdder.cpp b/src/iidm/DanglingLineGenerationAdder.cpp
index 4a967f5..f230f59 100644
--- a/src/iidm/DanglingLineGenerationAdder.cpp
+++ b/src/iidm/DanglingLineGenerationAdder.cpp
@@ -7,6 +7,9 @@
 
 #include <powsybl/iidm/DanglingLineGenerationAdder.hpp>
 
+#include <cmath>
+#include <limits>
+
 #include <powsybl/iidm/DanglingLineAdder.hpp>
 #include <powsybl/iidm/DanglingLineGeneration.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
@@ -22,7 +25,9 @@ GenerationAdder::GenerationAdder(DanglingLineAdder& parent) :
 }
 
 DanglingLineAdder& GenerationAdder::add() {
-    checkActivePowerLimits(m_parent, m_minP, m_maxP);
+    // an undefined limit is the largest one of its sign (see Generation)
+    checkActivePowerLimits(m_parent, std::isnan(m_minP) ? -std::numeric_limits<double>::max() : m_minP,
+                           std::isnan(m_maxP) ? std::numeric_limits<double>::max() : m_maxP);
     checkActivePowerSetpoint(m_parent, m_targetP);
     checkVoltageControl(m_parent, m_voltageRegulationOn, m_targetV, m_targetQ);
     m_parent.setGenerationAdder(*this);
-- 
2.43.0


From cf5beea900bccdf1d22539db9950392f09e586fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 10/43] fix: sections of a shunt compensator know their shunt
 compensator

---
 include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp | 2 ++
 src/iidm/ShuntCompensatorNonLinearModel.cpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
index f22f846..796f593 100644
--- a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
+++ b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
@@ -35,6 +35,8 @@ public:
     private:
         Section& attach(ShuntCompensator& shuntCompensator);
 
+        friend class ShuntCompensatorNonLinearModel;
+
     private:
         stdcxx::Reference<ShuntCompensator> m_shuntCompensator;
 
diff --git a/src/iidm/ShuntCompensatorNonLinearModel.cpp b/src/iidm/ShuntCompensatorNonLinearModel.cpp
index 8120cbd..0c04b40 100644
--- a/src/iidm/ShuntCompensatorNonLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorNonLinearModel.cpp
@@ -59,6 +59,9 @@ ShuntCompensatorNonLinearModel& ShuntCompensatorNonLinearModel::attach(ShuntComp
         throw AssertionError(stdcxx::format("ShuntCompensatorNonLinearModel already attached to %1%", m_shuntCompensator.get().getId()));
     }
     m_shuntCompensator = shuntCompensator;
+    for (auto& section : m_sections) {
+        section.attach(shuntCompensator);
+    }
     return *this;
 }
 
-- 
2.43.0


From 07880c0b170b39b54e1b6a21c97a6116c6d2decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 11/43] fix: adding or removing switches and internal
 connections invalidates the topology caches of every variant

---
 src/iidm/BusBreakerVoltageLevel.cpp  |  9 +++++++++
 src/iidm/NodeBreakerVoltageLevel.cpp | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..b7d591a 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -48,6 +48,9 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     Switch& aSwitch = getNetwork().checkAndAdd(std::move(ptrSwitch));
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -318,6 +321,9 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
     m_graph.removeAllEdges();
     m_switches.clear();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
@@ -354,6 +360,9 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void BusBreakerVoltageLevel::removeTopology() {
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..856cfcd 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -34,7 +34,9 @@ void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigne
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
@@ -43,6 +45,9 @@ Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch,
     m_graph.addVertexIfNotPresent(node2);
     unsigned long e = m_graph.addEdge(node1, node2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -366,7 +371,9 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -380,6 +387,9 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
@@ -388,6 +398,9 @@ void NodeBreakerVoltageLevel::removeTopology() {
     }
     m_graph.removeAllEdges();
     m_switches.clear();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::TopologyTraverser& traverser) const {
-- 
2.43.0


From ec0f30e3dfc9d212a76f765159a326e6a9e5175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 12/43] fix: invalidating the network's bus/breaker view
 forgets its own buses

---
 src/iidm/NetworkViews.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NetworkViews.cpp b/src/iidm/NetworkViews.cpp
index bc848bf..1634833 100644
--- a/src/iidm/NetworkViews.cpp
+++ b/src/iidm/NetworkViews.cpp
@@ -86,7 +86,7 @@ stdcxx::range<Switch> BusBreakerView::getSwitches() {
 }
 
 void BusBreakerView::invalidateCache() {
-    m_network.getBusViewCache().invalidate();
+    m_network.getBusBreakerViewCache().invalidate();
 }
 
 BusView::BusView(Network& network) :
-- 
2.43.0


From ea8cee1918a1b5d3e71118c27da7cf4d3340cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 13/43] fix: a node/breaker voltage level with internal
 connections can be removed

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 856cfcd..bf1baf5 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -393,8 +393,11 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
-    for (Switch& s : m_graph.getEdgeObjects()) {
-        getNetwork().getIndex().remove(s);
+    for (const auto& s : m_graph.getEdgeObjects()) {
+        // internal connections have no switch
+        if (static_cast<bool>(s)) {
+            getNetwork().getIndex().remove(s.get());
+        }
     }
     m_graph.removeAllEdges();
     m_switches.clear();
-- 
2.43.0


From b1c24165d0e77d20c1fff8928fffb886c6942d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 14/43] fix: all the vertices of a graph can be removed once
 all its edges are

---
 include/powsybl/math/UndirectedGraph.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..84112c3 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -342,7 +342,7 @@ void UndirectedGraph<V, E>::removeAllEdges() {
 
 template <typename V, typename E>
 void UndirectedGraph<V, E>::removeAllVertices() {
-    if (!m_edges.empty()) {
+    if (getEdgeCount() > 0) {
         throw PowsyblException("Cannot remove all vertices because there is still some edges in the graph");
     }
 
-- 
2.43.0


From e322b39dd0e3202279f6b68c3a70e2c46048cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 15/43] fix: moving a terminal to another bus moves it in every
 variant

---
 src/iidm/BusTerminalViews.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..86b1e18 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -7,6 +7,7 @@
 
 #include "BusTerminalViews.hpp"
 
+#include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
 
 #include "BusBreakerVoltageLevel.hpp"
@@ -51,7 +52,9 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
     voltageLevel.getConfiguredBus(busId, true);
 
     voltageLevel.detach(m_terminal);
-    m_terminal.setConnectableBusId(busId);
+    voltageLevel.getNetwork().getVariantManager().forEachVariant([this, &busId]() {
+        m_terminal.setConnectableBusId(busId);
+    });
     voltageLevel.attach(m_terminal, false);
 }
 
-- 
2.43.0


From 88daa739d7c0779bacae6f96faae0f2a701d2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 16/43] fix: creating or removing an HVDC line invalidates the
 connected components

---
 src/iidm/HvdcLine.cpp      | 5 +++++
 src/iidm/HvdcLineAdder.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index 1c0e66b..da4ae5a 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -130,6 +130,11 @@ void HvdcLine::remove() {
     m_converterStation2 = stdcxx::ref<HvdcConverterStation>();
 
     network.remove(*this);
+
+    // the converter stations may not be in the same connected component any more
+    network.getVariantManager().forEachVariant([&network]() {
+        network.getConnectedComponentsManager().invalidate();
+    });
 }
 
 HvdcLine& HvdcLine::setActivePowerSetpoint(double activePowerSetpoint) {
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index c24ca9c..5557ba2 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -37,6 +37,12 @@ HvdcLine& HvdcLineAdder::add() {
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
 
+    // the converter stations are now in the same connected component
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        getNetwork().getConnectedComponentsManager().invalidate();
+    });
+
+
     return line;
 }
 
-- 
2.43.0


From e0aa8dc5f6dda8d266fc581b32a625b524eb9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 17/43] fix: the bus/breaker view of a voltage level only gives
 its own buses

---
 src/iidm/BusBreakerVoltageLevelViews.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevelViews.cpp b/src/iidm/BusBreakerVoltageLevelViews.cpp
index 668eaac..ef093f1 100644
--- a/src/iidm/BusBreakerVoltageLevelViews.cpp
+++ b/src/iidm/BusBreakerVoltageLevelViews.cpp
@@ -30,10 +30,6 @@ stdcxx::CReference<Bus> BusBreakerViewImpl::getBus(const std::string& busId) con
 }
 
 stdcxx::Reference<Bus> BusBreakerViewImpl::getBus(const std::string& busId) {
-    const auto& bus = m_voltageLevel.getNetwork().find<Bus>(busId);
-    if (bus) {
-        return stdcxx::ref(bus.get());
-    }
     return stdcxx::ref<Bus>(m_voltageLevel.getConfiguredBus(busId, false));
 }
 
-- 
2.43.0


From 41e229340372e5b411d43c743f4f4e171e5f2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 18/43] fix: the merged buses are computed over every vertex
 number of the graph

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..48f1cc8 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getMaxVertex(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
-- 
2.43.0


From 925cda0480c2263372568989472f73947830d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 19/43] fix: listing the objects of a type does not modify a
 constant network index

---
 include/powsybl/iidm/NetworkIndex.hpp |  2 +-
 include/powsybl/iidm/NetworkIndex.hxx | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/powsybl/iidm/NetworkIndex.hpp b/include/powsybl/iidm/NetworkIndex.hpp
index e48e555..911b41e 100644
--- a/include/powsybl/iidm/NetworkIndex.hpp
+++ b/include/powsybl/iidm/NetworkIndex.hpp
@@ -87,7 +87,7 @@ private:
 private:
     IdentifiableById m_objectsById;
 
-    mutable IdentifiablesByType m_objectsByType;
+    IdentifiablesByType m_objectsByType;
 
     std::map<std::string, std::string> m_idByAlias;
 };
diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 813b307..8c26632 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -92,20 +92,26 @@ stdcxx::range<VoltageLevel> NetworkIndex::getAll<VoltageLevel, VoltageLevel>();
 
 template <typename T, typename U>
 stdcxx::const_range<U> NetworkIndex::getAll() const {
-    const auto& it = m_objectsByType[typeid(T)];
+    static const Identifiables NO_OBJECTS;
+
+    const auto& it = m_objectsByType.find(typeid(T));
+    const auto& objects = it != m_objectsByType.end() ? it->second : NO_OBJECTS;
 
     const auto& mapper = map<const U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return objects | boost::adaptors::transformed(mapper);
 }
 
 template <typename T, typename U>
 stdcxx::range<U> NetworkIndex::getAll() {
-    auto& it = m_objectsByType[typeid(T)];
+    static Identifiables NO_OBJECTS;
+
+    const auto& it = m_objectsByType.find(typeid(T));
+    auto& objects = it != m_objectsByType.end() ? it->second : NO_OBJECTS;
 
     const auto& mapper = map<U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return objects | boost::adaptors::transformed(mapper);
 }
 
 template <typename T>
-- 
2.43.0


From c50fadfa6ba9544cf4653ceb2df219debb84ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 20/43] fix: exporting an extension that has no serializer or
 is not serializable skips it

---
 src/iidm/converter/xml/NetworkXml.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 1fbf7cb..ba57018 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -76,15 +76,14 @@ stdcxx::CReference<ExtensionXmlSerializer> getExtensionSerializer(const ExportOp
         serializer = stdcxx::cref(extensionProviders.findProviderOrThrowException(extension.getName()));
     } else {
         serializer = extensionProviders.findProvider(extension.getName());
-        if (serializer) {
-            if (!serializer.get().isSerializable(extension)) {
-                serializer.reset();
-            }
-        } else {
+        if (!serializer) {
             logging::Logger& logger = logging::LoggerFactory::getLogger<NetworkXml>();
             logger.warn("No extension XML serializer for %1%", extension.getName());
         }
     }
+    if (serializer && !serializer.get().isSerializable(extension)) {
+        serializer.reset();
+    }
 
     return serializer;
 }
@@ -170,7 +169,7 @@ void writeExtension(const Extension& extension, NetworkXmlWriterContext& context
     powsybl::xml::XmlStreamWriter& writer = context.getWriter();
     stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
     if (!serializer) {
-        throw AssertionError(stdcxx::format("Extension XML Serializer of %1% should not be null", extension.getName()));
+        return;
     }
 
     const std::string& version = context.getExtensionVersion(extension.getName());
-- 
2.43.0


From 5fa47b2363529a7d1c7c92a413ae3785be3de01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 21/43] fix: the reactive power at the boundary of the second
 half of a tie line is read under its own name

---
 src/iidm/converter/xml/TieLineXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/TieLineXml.cpp b/src/iidm/converter/xml/TieLineXml.cpp
index 9f315d4..6956bf8 100644
--- a/src/iidm/converter/xml/TieLineXml.cpp
+++ b/src/iidm/converter/xml/TieLineXml.cpp
@@ -78,12 +78,12 @@ TieLine& TieLineXml::readRootElementAttributes(TieLineAdder& adder, NetworkXmlRe
         double half1BoundaryP = context.getReader().getOptionalAttributeValue(toString(XNODE_P_, 1), stdcxx::nan());
         double half2BoundaryP = context.getReader().getOptionalAttributeValue(toString(XNODE_P_, 2), stdcxx::nan());
         double half1BoundaryQ = context.getReader().getOptionalAttributeValue(toString(XNODE_Q_, 1), stdcxx::nan());
-        double half2BoundaryQ = context.getReader().getOptionalAttributeValue(toString(XNODE_Q_, 1), stdcxx::nan());
+        double half2BoundaryQ = context.getReader().getOptionalAttributeValue(toString(XNODE_Q_, 2), stdcxx::nan());
         context.addEndTask([&tl, half1BoundaryP, half2BoundaryP, half1BoundaryQ, half2BoundaryQ]() {
             checkBoundaryValue(half1BoundaryP, tl.getHalf1().getBoundary().getP(), toString(XNODE_P_, 1), tl.getId());
             checkBoundaryValue(half2BoundaryP, tl.getHalf2().getBoundary().getP(), toString(XNODE_P_, 2), tl.getId());
             checkBoundaryValue(half1BoundaryQ, tl.getHalf1().getBoundary().getQ(), toString(XNODE_Q_, 1), tl.getId());
-            checkBoundaryValue(half2BoundaryQ, tl.getHalf2().getBoundary().getQ(), toString(XNODE_P_, 2), tl.getId());
+            checkBoundaryValue(half2BoundaryQ, tl.getHalf2().getBoundary().getQ(), toString(XNODE_Q_, 2), tl.getId());
         });
     });
     return tl;
-- 
2.43.0


From 6eec2dc885f900180a708ed1f8d03313106c8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 22/43] fix: an active power control without droop can be
 imported again

---
 extensions/iidm/src/ActivePowerControlXmlSerializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
index 5d03fb5..92552bc 100644
--- a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
+++ b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
@@ -19,6 +19,8 @@
 #include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
 #include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
 
+#include <powsybl/stdcxx/math.hpp>
+
 #include <powsybl/xml/XmlStreamReader.hpp>
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
@@ -36,7 +38,7 @@ ActivePowerControlXmlSerializer::ActivePowerControlXmlSerializer() :
 
 Extension& ActivePowerControlXmlSerializer::read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const {
     const auto& participate = context.getReader().getAttributeValue<bool>("participate");
-    const auto& droop = context.getReader().getAttributeValue<double>("droop");
+    const auto& droop = context.getReader().getOptionalAttributeValue("droop", stdcxx::nan());
 
     extendable.newExtension<ActivePowerControlAdder>().withParticipate(participate).withDroop(droop).add();
     return extendable.getExtension<ActivePowerControl>();
-- 
2.43.0


From 2b2e310523a7ce6b783e624441a3c4b69e1330ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 23/43] fix: reading a bus with properties stops at the end of
 the bus

---
 src/iidm/converter/xml/BusXml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusXml.cpp b/src/iidm/converter/xml/BusXml.cpp
index d8381f4..6a504f2 100644
--- a/src/iidm/converter/xml/BusXml.cpp
+++ b/src/iidm/converter/xml/BusXml.cpp
@@ -38,7 +38,7 @@ Bus& BusXml::readRootElementAttributes(BusAdder& adder, NetworkXmlReaderContext&
 }
 
 void BusXml::readSubElements(Bus& bus, NetworkXmlReaderContext& context) const {
-    context.getReader().readUntilEndElement(SUBSTATION, [this, &bus, &context]() {
+    context.getReader().readUntilEndElement(BUS, [this, &bus, &context]() {
         AbstractIdentifiableXml::readSubElements(bus, context);
     });
 }
-- 
2.43.0


From b7cb17f5ce6e0825259da36eeda22a79270276de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 24/43] fix: an unknown element among loading limits is refused
 on import

---
 include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
index 8694810..ccf5e07 100644
--- a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
+++ b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
@@ -57,6 +57,8 @@ void AbstractConnectableXml<Added, Adder, Parent>::readLoadingLimits(const std::
                 .setValue(value)
                 .setFictitious(fictitious)
                 .endTemporaryLimit();
+        } else {
+            throw powsybl::xml::XmlStreamException(stdcxx::format("Unexpected element: %1%", reader.getLocalName()));
         }
     });
     adder.add();
-- 
2.43.0


From 4b4ca904e7fb1f277155fe972c5a398dd93d528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 25/43] fix: a shunt regulating terminal, its typed aliases and
 a transformer ratedS are only imported from the versions that have them

---
 src/iidm/converter/xml/ShuntCompensatorXml.cpp       | 6 +++++-
 src/iidm/converter/xml/TwoWindingsTransformerXml.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iidm/converter/xml/ShuntCompensatorXml.cpp b/src/iidm/converter/xml/ShuntCompensatorXml.cpp
index 06095d9..80a223d 100644
--- a/src/iidm/converter/xml/ShuntCompensatorXml.cpp
+++ b/src/iidm/converter/xml/ShuntCompensatorXml.cpp
@@ -67,6 +67,7 @@ void ShuntCompensatorXml::readElement(const std::string& id, ShuntCompensatorAdd
     std::map<std::string, std::string> aliases;
     context.getReader().readUntilEndElement(SHUNT, [&context, &adder, &regId, &regSide, &properties, &id, &aliases]() {
         if (context.getReader().getLocalName() == REGULATING_TERMINAL) {
+            IidmXmlUtil::assertMinimumVersion(SHUNT, REGULATING_TERMINAL, ErrorMessage::NOT_SUPPORTED, IidmXmlVersion::V1_2(), context);
             regId = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(ID));
             regSide = context.getReader().getOptionalAttributeValue(SIDE, "");
         } else if (context.getReader().getLocalName() == PROPERTY) {
@@ -75,7 +76,10 @@ void ShuntCompensatorXml::readElement(const std::string& id, ShuntCompensatorAdd
             properties.set(name, value);
         } else if (context.getReader().getLocalName() == ALIAS) {
             IidmXmlUtil::assertMinimumVersion(SHUNT, ALIAS, ErrorMessage::NOT_SUPPORTED, IidmXmlVersion::V1_3(), context);
-            const auto& aliasType = context.getReader().getOptionalAttributeValue(TYPE, "");
+            std::string aliasType;
+            IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_4(), context.getVersion(), [&context, &aliasType]() {
+                aliasType = context.getReader().getOptionalAttributeValue(TYPE, "");
+            });
             const auto& alias = context.getAnonymizer().deanonymizeString(context.getReader().readCharacters());
             aliases[alias] = aliasType;
         } else if (context.getReader().getLocalName() == SHUNT_LINEAR_MODEL) {
diff --git a/src/iidm/converter/xml/TwoWindingsTransformerXml.cpp b/src/iidm/converter/xml/TwoWindingsTransformerXml.cpp
index d201923..ef0c8ab 100644
--- a/src/iidm/converter/xml/TwoWindingsTransformerXml.cpp
+++ b/src/iidm/converter/xml/TwoWindingsTransformerXml.cpp
@@ -45,8 +45,10 @@ TwoWindingsTransformer& TwoWindingsTransformerXml::readRootElementAttributes(Two
         .setB(b)
         .setRatedU1(ratedU1)
         .setRatedU2(ratedU2);
-    readRatedS("ratedS", context, [&adder](double ratedS) {
-        adder.setRatedS(ratedS);
+    IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_2(), context.getVersion(), [&context, &adder]() {
+        readRatedS(RATED_S, context, [&adder](double ratedS) {
+            adder.setRatedS(ratedS);
+        });
     });
     readNodeOrBus(adder, context);
     TwoWindingsTransformer& twt = adder.add();
-- 
2.43.0


From 6f87f7cc12a2461c9b6625127c1421b21adc4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 26/43] fix: exporting an extension to a version it does not
 support is refused with its name

---
 .../xml/AbstractVersionableExtensionXmlSerializer.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
index 3e6c357..db72864 100644
--- a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
+++ b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
@@ -77,7 +77,12 @@ const std::string& AbstractVersionableExtensionXmlSerializer::getVersion() const
 }
 
 const std::string& AbstractVersionableExtensionXmlSerializer::getVersion(const IidmXmlVersion& networkVersion) const {
-    return m_extensionVersions.at(networkVersion.toString(".")).back();
+    const auto& version = networkVersion.toString(".");
+    const auto& it = m_extensionVersions.find(version);
+    if (it == m_extensionVersions.end()) {
+        throw PowsyblException(stdcxx::format("IIDM-XML version of network (%1%) is not supported by the %2% extension's XML serializer", version, getExtensionName()));
+    }
+    return it->second.back();
 }
 
 }  // namespace xml
-- 
2.43.0


From 3add48e8d1aa7626846ffff26fa524de79c824eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 27/43] fix: anonymised export of a bus/breaker voltage level
 looks its switches up by their own id

---
 src/iidm/converter/xml/VoltageLevelXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index dd4524c..881c6f5 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -177,8 +177,8 @@ void VoltageLevelXml::writeBusBreakerTopology(const VoltageLevel& voltageLevel,
         BusXml::getInstance().write(bus, voltageLevel, context);
     }
     for (const Switch& sw : voltageLevel.getBusBreakerView().getSwitches()) {
-        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(context.getAnonymizer().anonymizeString(sw.getId()));
-        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(context.getAnonymizer().anonymizeString(sw.getId()));
+        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(sw.getId());
+        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(sw.getId());
         if (!context.getFilter().test(b1) || !context.getFilter().test(b2)) {
             continue;
         }
-- 
2.43.0


From e7b68bc8301de7099f750bc0f7929bfd027031f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 28/43] fix: the anonymisation mapping is read back when an
 original identifier contains its separator

---
 src/iidm/converter/SimpleAnonymizer.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..93f079f 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -10,8 +10,6 @@
 #include <istream>
 #include <ostream>
 
-#include <boost/algorithm/string.hpp>
-
 #include <powsybl/PowsyblException.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
@@ -76,14 +74,13 @@ void SimpleAnonymizer::read(std::istream& stream) {
     std::string line;
     while (std::getline(stream, line))
     {
-        std::vector<std::string> cells;
-        boost::split(cells, line, boost::is_any_of(";"));
-
-        if (cells.size() != 2) {
+        // an anonymized string never contains the separator, an original one may
+        const std::string::size_type separator = line.rfind(';');
+        if (separator == std::string::npos) {
             throw PowsyblException(stdcxx::format("Invalid line '%1%'", line));
         }
 
-        m_mapping.insert(Mapping::value_type(cells[0], cells[1]));
+        m_mapping.insert(Mapping::value_type(line.substr(0, separator), line.substr(separator + 1)));
     }
 }
 
-- 
2.43.0


From 9017b2e0d9c7ffe85233f9b15ee86055bb2ce9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 29/43] fix: a missing, boolean or numeric XML attribute that
 is not valid is refused instead of misread

---
 src/iidm/converter/xml/VoltageLevelXml.cpp |  6 +-
 src/xml/XmlStreamReader.cpp                | 66 ++++++++++++++++++----
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index 881c6f5..c600646 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -79,7 +79,11 @@ void VoltageLevelXml::readCalculatedBus(VoltageLevel &voltageLevel, NetworkXmlRe
         std::vector<std::string> nodes;
         boost::algorithm::split(nodes, strNodes, [](char c) { return c == ','; });
         for (const std::string& nodeStr : nodes) {
-            unsigned long node = std::stoul(nodeStr);
+            std::size_t length = 0;
+            unsigned long node = std::stoul(nodeStr, &length);
+            if (length != nodeStr.size()) {
+                throw powsybl::xml::XmlStreamException(stdcxx::format("Invalid node '%1%' in '%2%'", nodeStr, strNodes));
+            }
             const auto& terminal = voltageLevel.getNodeBreakerView().getTerminal(node);
             if (terminal) {
                 const auto& b = terminal.get().getBusView().getBus();
diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 914a81f..f8dd380 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -22,6 +22,49 @@ namespace powsybl {
 
 namespace xml {
 
+namespace {
+
+bool parseBoolean(const std::string& attributeName, const std::string& value) {
+    if (boost::iequals(value, "true") || value == "1") {
+        return true;
+    }
+    if (boost::iequals(value, "false") || value == "0") {
+        return false;
+    }
+    throw XmlStreamException(stdcxx::format("Attribute %1%: '%2%' is not a boolean", attributeName, value));
+}
+
+template <typename Parser>
+auto parseNumber(const std::string& attributeName, const std::string& value, Parser&& parser) -> decltype(parser(value, nullptr)) {
+    std::size_t length = 0;
+    const auto number = parser(value, &length);
+    if (value.find_first_not_of(" \t\r\n", length) != std::string::npos) {
+        throw XmlStreamException(stdcxx::format("Attribute %1%: '%2%' is not a number", attributeName, value));
+    }
+    return number;
+}
+
+double parseDouble(const std::string& attributeName, const std::string& value) {
+    return parseNumber(attributeName, value, [](const std::string& str, std::size_t* length) { return std::stod(str, length); });
+}
+
+int parseInt(const std::string& attributeName, const std::string& value) {
+    return parseNumber(attributeName, value, [](const std::string& str, std::size_t* length) { return std::stoi(str, length); });
+}
+
+long parseLong(const std::string& attributeName, const std::string& value) {
+    return parseNumber(attributeName, value, [](const std::string& str, std::size_t* length) { return std::stol(str, length); });
+}
+
+unsigned long parseUnsignedLong(const std::string& attributeName, const std::string& value) {
+    if (value.find('-') != std::string::npos) {
+        throw XmlStreamException(stdcxx::format("Attribute %1%: '%2%' is not a positive number", attributeName, value));
+    }
+    return parseNumber(attributeName, value, [](const std::string& str, std::size_t* length) { return std::stoul(str, length); });
+}
+
+}  // namespace
+
 void checkNodeType(xmlTextReader& reader, const xmlReaderTypes& expected) {
     int nodeType = xmlTextReaderNodeType(&reader);
     if (nodeType != expected) {
@@ -63,33 +106,32 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
 template <>
 bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
-    const std::string& booleanStr = XML2S(value.get());
-    return boost::iequals(booleanStr, "true");
+    XmlString value = getAttributeValue(attributeName, true);
+    return parseBoolean(attributeName, XML2S(value.get()));
 }
 
 template <>
 double XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stod(XML2S(value.get()));
+    return parseDouble(attributeName, XML2S(value.get()));
 }
 
 template <>
 int XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stoi(XML2S(value.get()));
+    return parseInt(attributeName, XML2S(value.get()));
 }
 
 template <>
 long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stol(XML2S(value.get()));
+    return parseLong(attributeName, XML2S(value.get()));
 }
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
-    return std::stoul(XML2S(value.get()));
+    XmlString value = getAttributeValue(attributeName, true);
+    return parseUnsignedLong(attributeName, XML2S(value.get()));
 }
 
 std::string XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
@@ -153,7 +195,7 @@ stdcxx::optional<bool> XmlStreamReader::getOptionalAttributeValue(const std::str
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = boost::iequals(XML2S(str.get()), "true");
+        value = parseBoolean(attributeName, XML2S(str.get()));
     }
 
     return value;
@@ -165,7 +207,7 @@ stdcxx::optional<int> XmlStreamReader::getOptionalAttributeValue(const std::stri
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoi(XML2S(str.get()));
+        value = parseInt(attributeName, XML2S(str.get()));
     }
 
     return value;
@@ -177,7 +219,7 @@ stdcxx::optional<double> XmlStreamReader::getOptionalAttributeValue(const std::s
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stod(XML2S(str.get()));
+        value = parseDouble(attributeName, XML2S(str.get()));
     }
 
     return value;
@@ -189,7 +231,7 @@ stdcxx::optional<unsigned long> XmlStreamReader::getOptionalAttributeValue(const
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoul(XML2S(str.get()));
+        value = parseUnsignedLong(attributeName, XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 239c04cb36ba95260560a63cf064ddd259648203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 30/43] fix: a document or mapping file that could not be
 written is reported

---
 src/iidm/converter/xml/NetworkXml.cpp | 4 ++++
 src/xml/XmlStreamWriter.cpp           | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index ba57018..b0ebfbc 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -342,6 +342,10 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
             throw PowsyblException(stdcxx::format("Unable to open file '%1%' for writing", csvPath.string()));
         }
         context.getAnonymizer().write(csvStream);
+        csvStream.flush();
+        if (!csvStream) {
+            throw PowsyblException(stdcxx::format("Failed to write file '%1%'", csvPath.string()));
+        }
     }
 
     auto endTime = std::chrono::high_resolution_clock::now();
diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 9f80944..9f3afd3 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -85,6 +85,11 @@ void XmlStreamWriter::writeEndDocument() {
     // deleting the xmlTextWriter pointer automatically calls xmlTextWriterFlush() and write to stream
     // m_writer is instanciated in writeStartElement, so it must be deleted here
     m_writer.reset();
+
+    m_stream.flush();
+    if (!m_stream) {
+        throw XmlStreamException("Failed to write the document");
+    }
 }
 
 void XmlStreamWriter::writeEndElement() {
-- 
2.43.0


From bdb058a9aeb2f44a8f7b1ad0611e4ea314cae216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 31/43] fix: the output buffer is closed when the XML writer
 cannot be created

---
 src/xml/XmlStreamWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 9f3afd3..ee31bc6 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -172,6 +172,7 @@ void XmlStreamWriter::writeStartDocument(const std::string& encoding, const std:
     m_writer = XmlStreamWriterPtr(xmlNewTextWriter(buffer), deleteWriterCallback);
 
     if (!m_writer) {
+        xmlOutputBufferClose(buffer);
         throw XmlStreamException(stdcxx::format("Unable to create xml writer"));
     }
 
-- 
2.43.0


From f11c54f02d9e9ee43019e52bca361f66779aa1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 32/43] fix: a negative node of a line or two windings
 transformer is refused on import

---
 include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
index ccf5e07..f6f084d 100644
--- a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
+++ b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
@@ -68,11 +68,11 @@ template <typename Added, typename Adder, typename Parent>
 void AbstractConnectableXml<Added, Adder, Parent>::readNodeOrBus(BranchAdder<Adder>& adder, const NetworkXmlReaderContext& context) {
     const auto& bus1 = context.getReader().getOptionalAttributeValue<std::string>(BUS1);
     const auto& connectableBus1 = context.getReader().getOptionalAttributeValue<std::string>(CONNECTABLE_BUS1);
-    const auto& node1 = context.getReader().getOptionalAttributeValue<int>(NODE1);
+    const auto& node1 = context.getReader().getOptionalAttributeValue<unsigned long>(NODE1);
     const std::string& voltageLevelId1 = context.getReader().getAttributeValue(VOLTAGE_LEVEL_ID1);
     const auto& bus2 = context.getReader().getOptionalAttributeValue<std::string>(BUS2);
     const auto& connectableBus2 = context.getReader().getOptionalAttributeValue<std::string>(CONNECTABLE_BUS2);
-    const auto& node2 = context.getReader().getOptionalAttributeValue<int>(NODE2);
+    const auto& node2 = context.getReader().getOptionalAttributeValue<unsigned long>(NODE2);
     const std::string& voltageLevelId2 = context.getReader().getAttributeValue(VOLTAGE_LEVEL_ID2);
     if (bus1) {
         adder.setBus1(context.getAnonymizer().deanonymizeString(*bus1));
-- 
2.43.0


From 635d6bb9c8227fa484cfae0a45294dc1387ad005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 33/43] fix: moving a network keeps the aliases of its elements

---
 src/iidm/NetworkIndex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..a0b57da 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From 2dab9d65e46ac556dcf49136f47d845a19f17be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 34/43] fix: a network whose variants were removed can be moved

---
 include/powsybl/iidm/VariantArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/VariantArray.hxx b/include/powsybl/iidm/VariantArray.hxx
index b4a103a..5377664 100644
--- a/include/powsybl/iidm/VariantArray.hxx
+++ b/include/powsybl/iidm/VariantArray.hxx
@@ -34,7 +34,8 @@ VariantArray<Owner, V, Dummy>::VariantArray(Owner& owner, VariantArray&& variant
     m_owner(owner) {
 
     for (auto& variant : variantArray.m_variants) {
-        m_variants.emplace_back(stdcxx::make_unique<V>(owner, std::move(*variant)));
+        // the slot of a removed variant is empty
+        m_variants.emplace_back(variant ? stdcxx::make_unique<V>(owner, std::move(*variant)) : std::unique_ptr<V>());
     }
 }
 
-- 
2.43.0


From ad2d1f63e1b73ef2b4a63da3d3ec23fe1bc3d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 35/43] fix: the extensions of a moved network follow it

---
 include/powsybl/iidm/Extendable.hpp |  6 ++++++
 src/iidm/Extendable.cpp             | 13 +++++++++----
 src/iidm/Network.cpp                |  2 ++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/powsybl/iidm/Extendable.hpp b/include/powsybl/iidm/Extendable.hpp
index ccac9f1..edce5e2 100644
--- a/include/powsybl/iidm/Extendable.hpp
+++ b/include/powsybl/iidm/Extendable.hpp
@@ -73,6 +73,12 @@ public:
     template <typename E, typename = typename std::enable_if<std::is_base_of<Extension, E>::value>::type>
     void removeExtension();
 
+protected:
+    /**
+     * Associates the extensions to this object. It has to be called by the move constructor of the most derived class
+     */
+    void updateExtendable();
+
 private:
     std::map<std::string, std::unique_ptr<Extension> > m_extensionsByName;
 
diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..25bfaa4 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -20,10 +20,7 @@ namespace iidm {
 Extendable::Extendable(Extendable&& extendable) noexcept :
     m_extensionsByName(std::move(extendable.m_extensionsByName)),
     m_extensionsByType(std::move(extendable.m_extensionsByType)) {
-
-    for (auto& it : m_extensionsByName) {
-        it.second->setExtendable(*this);
-    }
+    // the extensions check the type of their extendable: see updateExtendable
 }
 
 void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
@@ -50,6 +47,14 @@ stdcxx::range<Extension> Extendable::getExtensions() {
     return boost::adaptors::values(m_extensionsByName) | boost::adaptors::indirected;
 }
 
+void Extendable::updateExtendable() {
+    for (auto& it : m_extensionsByName) {
+        // An extension has to be dissociated from the moved object before being associated to this one
+        it.second->setExtendable(stdcxx::ref<Extendable>());
+        it.second->setExtendable(*this);
+    }
+}
+
 }  // namespace iidm
 
 }  // namespace powsybl
\ No newline at end of file
diff --git a/src/iidm/Network.cpp b/src/iidm/Network.cpp
index b7dd6c6..48ef760 100644
--- a/src/iidm/Network.cpp
+++ b/src/iidm/Network.cpp
@@ -90,6 +90,8 @@ Network::Network(Network&& network) noexcept :
     m_variants(*this, std::move(network.m_variants)),
     m_busBreakerView(*this),
     m_busView(*this) {
+
+    updateExtendable();
 }
 
 void Network::allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) {
-- 
2.43.0


From c320d0115251b8f72ff9ca97b88f39b9f506e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 36/43] fix: the connectables of a voltage level can be listed
 more than once from the same range

---
 include/powsybl/iidm/Substation.hpp   |  6 ++++
 include/powsybl/iidm/VoltageLevel.hpp |  5 +++
 include/powsybl/iidm/VoltageLevel.hxx | 13 +++++--
 src/iidm/Substation.cpp               | 49 ++++++++++++++++++++-------
 src/iidm/VoltageLevel.cpp             | 20 +++++++++++
 5 files changed, 77 insertions(+), 16 deletions(-)

diff --git a/include/powsybl/iidm/Substation.hpp b/include/powsybl/iidm/Substation.hpp
index e2cd9fc..f4c13b5 100644
--- a/include/powsybl/iidm/Substation.hpp
+++ b/include/powsybl/iidm/Substation.hpp
@@ -23,6 +23,7 @@ namespace powsybl {
 
 namespace iidm {
 
+class Connectable;
 class Network;
 class NetworkIndex;
 class ThreeWindingsTransformer;
@@ -83,6 +84,11 @@ private: // Identifiable
 private:
     void addVoltageLevel(VoltageLevel& voltageLevel);
 
+    /**
+     * Returns true if the voltage level is, among the voltage levels of this substation, the first one the connectable is connected to
+     */
+    bool isFirstVoltageLevel(const VoltageLevel& voltageLevel, const Connectable& connectable) const;
+
     void remove(const VoltageLevel& voltageLevel);
 
     void setNetworkRef(Network& network);
diff --git a/include/powsybl/iidm/VoltageLevel.hpp b/include/powsybl/iidm/VoltageLevel.hpp
index 71b4ca0..d6464e9 100644
--- a/include/powsybl/iidm/VoltageLevel.hpp
+++ b/include/powsybl/iidm/VoltageLevel.hpp
@@ -203,6 +203,11 @@ protected:
 
     virtual stdcxx::range<Terminal> getTerminals() = 0;
 
+    /**
+     * Returns true if the terminal is, among the terminals of this voltage level, the first one of its connectable
+     */
+    bool isFirstTerminal(const Terminal& terminal) const;
+
 private: // Identifiable
     const std::string& getTypeDescription() const override;
 
diff --git a/include/powsybl/iidm/VoltageLevel.hxx b/include/powsybl/iidm/VoltageLevel.hxx
index c322fd0..eb9d597 100644
--- a/include/powsybl/iidm/VoltageLevel.hxx
+++ b/include/powsybl/iidm/VoltageLevel.hxx
@@ -23,7 +23,6 @@
 #include <powsybl/iidm/PhaseTapChanger.hpp>
 #include <powsybl/iidm/RatioTapChanger.hpp>
 #include <powsybl/iidm/ThreeWindingsTransformer.hpp>
-#include <powsybl/iidm/util/DistinctPredicate.hpp>
 #include <powsybl/stdcxx/instanceof.hpp>
 #include <powsybl/stdcxx/memory.hpp>
 
@@ -76,12 +75,20 @@ unsigned long VoltageLevel::getConnectableCount() const {
 
 template <typename T, typename>
 stdcxx::const_range<T> VoltageLevel::getConnectables() const {
-    return getTerminals() | boost::adaptors::filtered(Terminal::isInstanceOf<T>) | boost::adaptors::transformed(Terminal::map<const T>) | boost::adaptors::filtered(DistinctPredicate());
+    const auto& filter = [this](const Terminal& terminal) {
+        return Terminal::isInstanceOf<T>(terminal) && isFirstTerminal(terminal);
+    };
+
+    return getTerminals() | boost::adaptors::filtered(filter) | boost::adaptors::transformed(Terminal::map<const T>);
 }
 
 template <typename T, typename>
 stdcxx::range<T> VoltageLevel::getConnectables() {
-    return getTerminals() | boost::adaptors::filtered(Terminal::isInstanceOf<T>) | boost::adaptors::transformed(Terminal::map<T>) | boost::adaptors::filtered(DistinctPredicate());
+    const auto& filter = [this](const Terminal& terminal) {
+        return Terminal::isInstanceOf<T>(terminal) && isFirstTerminal(terminal);
+    };
+
+    return getTerminals() | boost::adaptors::filtered(filter) | boost::adaptors::transformed(Terminal::map<T>);
 }
 
 }  // namespace iidm
diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index f0d550c..b9a832a 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -7,6 +7,8 @@
 
 #include <powsybl/iidm/Substation.hpp>
 
+#include <algorithm>
+
 #include <boost/range/adaptor/filtered.hpp>
 #include <boost/range/adaptor/transformed.hpp>
 
@@ -15,7 +17,6 @@
 #include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
 #include <powsybl/iidm/TwoWindingsTransformer.hpp>
 #include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
-#include <powsybl/iidm/util/DistinctPredicate.hpp>
 #include <powsybl/iidm/util/Substations.hpp>
 #include <powsybl/iidm/util/VoltageLevels.hpp>
 #include <powsybl/stdcxx/flattened.hpp>
@@ -62,19 +63,25 @@ unsigned long Substation::getThreeWindingsTransformerCount() const {
 }
 
 stdcxx::const_range<ThreeWindingsTransformer> Substation::getThreeWindingsTransformers() const {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<ThreeWindingsTransformer>();
+    const auto& mapper = [this](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::const_range<ThreeWindingsTransformer> {
+        const auto& filter = [this, voltageLevel](const Connectable& transformer) {
+            return isFirstVoltageLevel(voltageLevel, transformer);
+        };
+        return static_cast<const VoltageLevel&>(voltageLevel.get()).getConnectables<ThreeWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 stdcxx::range<ThreeWindingsTransformer> Substation::getThreeWindingsTransformers() {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<ThreeWindingsTransformer>();
+    const auto& mapper = [this](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::range<ThreeWindingsTransformer> {
+        const auto& filter = [this, voltageLevel](const Connectable& transformer) {
+            return isFirstVoltageLevel(voltageLevel, transformer);
+        };
+        return voltageLevel.get().getConnectables<ThreeWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 const std::string& Substation::getTso() const {
@@ -86,19 +93,25 @@ unsigned long Substation::getTwoWindingsTransformerCount() const {
 }
 
 stdcxx::const_range<TwoWindingsTransformer> Substation::getTwoWindingsTransformers() const {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<TwoWindingsTransformer>();
+    const auto& mapper = [this](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::const_range<TwoWindingsTransformer> {
+        const auto& filter = [this, voltageLevel](const Connectable& transformer) {
+            return isFirstVoltageLevel(voltageLevel, transformer);
+        };
+        return static_cast<const VoltageLevel&>(voltageLevel.get()).getConnectables<TwoWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 stdcxx::range<TwoWindingsTransformer> Substation::getTwoWindingsTransformers() {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<TwoWindingsTransformer>();
+    const auto& mapper = [this](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::range<TwoWindingsTransformer> {
+        const auto& filter = [this, voltageLevel](const Connectable& transformer) {
+            return isFirstVoltageLevel(voltageLevel, transformer);
+        };
+        return voltageLevel.get().getConnectables<TwoWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 const std::string& Substation::getTypeDescription() const {
@@ -127,6 +140,16 @@ VoltageLevelAdder Substation::newVoltageLevel() {
     return VoltageLevelAdder(*this);
 }
 
+bool Substation::isFirstVoltageLevel(const VoltageLevel& voltageLevel, const Connectable& connectable) const {
+    const auto& terminals = connectable.getTerminals();
+    const auto& it = std::find_if(m_voltageLevels.begin(), m_voltageLevels.end(), [&terminals](const std::reference_wrapper<VoltageLevel>& vl) {
+        return std::any_of(terminals.begin(), terminals.end(), [&vl](const Terminal& terminal) {
+            return stdcxx::areSame(terminal.getVoltageLevel(), vl.get());
+        });
+    });
+    return it != m_voltageLevels.end() && stdcxx::areSame(it->get(), voltageLevel);
+}
+
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 312a6ba..cd6cbe6 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -7,6 +7,8 @@
 
 #include <powsybl/iidm/VoltageLevel.hpp>
 
+#include <algorithm>
+
 #include <powsybl/iidm/Battery.hpp>
 #include <powsybl/iidm/BatteryAdder.hpp>
 #include <powsybl/iidm/Bus.hpp>
@@ -234,6 +236,24 @@ VscConverterStationAdder VoltageLevel::newVscConverterStation() {
     return VscConverterStationAdder(*this);
 }
 
+bool VoltageLevel::isFirstTerminal(const Terminal& terminal) const {
+    const Connectable& connectable = terminal.getConnectable().get();
+    const auto& terminals = connectable.getTerminals();
+    const auto& count = std::count_if(terminals.begin(), terminals.end(), [this](const Terminal& item) {
+        return stdcxx::areSame(item.getVoltageLevel(), *this);
+    });
+    if (count < 2) {
+        return true;
+    }
+    for (const Terminal& item : getTerminals()) {
+        const auto& other = item.getConnectable();
+        if (other && stdcxx::areSame(other.get(), connectable)) {
+            return stdcxx::areSame(item, terminal);
+        }
+    }
+    return false;
+}
+
 void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
-- 
2.43.0


From fa1896280edef5583c298535f8e6365468a3c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 37/43] fix: a voltage level or a substation does not iterate
 over the equipments it removes

---
 src/iidm/Substation.cpp   | 6 ++++--
 src/iidm/VoltageLevel.cpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index b9a832a..b1fb458 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -153,9 +153,11 @@ bool Substation::isFirstVoltageLevel(const VoltageLevel& voltageLevel, const Con
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
-    for (VoltageLevel& vl : m_voltageLevels) {
+    // Removing a voltage level or a connectable changes the collection: it cannot be done while iterating over it
+    for (VoltageLevel& vl : std::vector<std::reference_wrapper<VoltageLevel>>(m_voltageLevels)) {
         // Remove all branches, transformers and HVDC lines
-        for (Connectable& connectable : vl.getConnectables()) {
+        const auto& connectables = vl.getConnectables();
+        for (Connectable& connectable : std::vector<std::reference_wrapper<Connectable>>(connectables.begin(), connectables.end())) {
             ConnectableType type = connectable.getType();
             if (VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.find(type) != VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.end()) {
                 connectable.remove();
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index cd6cbe6..47e4717 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -257,8 +257,9 @@ bool VoltageLevel::isFirstTerminal(const Terminal& terminal) const {
 void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
-    // Remove all connectables
-    for (Connectable& connectable : getConnectables()) {
+    // Remove all connectables (removing a connectable changes the range: it cannot be done while iterating over it)
+    const auto& connectables = getConnectables();
+    for (Connectable& connectable : std::vector<std::reference_wrapper<Connectable>>(connectables.begin(), connectables.end())) {
         connectable.remove();
     }
 
-- 
2.43.0


From 2ecb67ab9ed5998435537143609462846823ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 38/43] fix: the limits attribute name of a leg is not built
 from an uninitialised leg number

---
 src/iidm/ThreeWindingsTransformerLeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ThreeWindingsTransformerLeg.cpp b/src/iidm/ThreeWindingsTransformerLeg.cpp
index db4587d..1b96843 100644
--- a/src/iidm/ThreeWindingsTransformerLeg.cpp
+++ b/src/iidm/ThreeWindingsTransformerLeg.cpp
@@ -21,7 +21,7 @@ namespace iidm {
 namespace three_windings_transformer {
 
 Leg::Leg(unsigned long legNumber, double r, double x, double g, double b, double ratedU, double ratedS) :
-    FlowsLimitsHolder(stdcxx::format("limits%1%", m_legNumber)),
+    FlowsLimitsHolder(stdcxx::format("limits%1%", legNumber)),
     m_legNumber(legNumber),
     m_r(checkR(*this, r)),
     m_x(checkX(*this, x)),
-- 
2.43.0


From 5115bc16fdd8343d960e4111ec5a7a5a5b721983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 39/43] fix: the measurements of a type can be walked after the
 type given is gone

---
 extensions/iidm/src/DiscreteMeasurements.cpp | 4 ++--
 extensions/iidm/src/Measurements.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurements.cpp b/extensions/iidm/src/DiscreteMeasurements.cpp
index 519ff06..35e7aec 100644
--- a/extensions/iidm/src/DiscreteMeasurements.cpp
+++ b/extensions/iidm/src/DiscreteMeasurements.cpp
@@ -64,7 +64,7 @@ stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements
 }
 
 stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -72,7 +72,7 @@ stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasur
 }
 
 stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
diff --git a/extensions/iidm/src/Measurements.cpp b/extensions/iidm/src/Measurements.cpp
index 6853d7a..d2c03fb 100644
--- a/extensions/iidm/src/Measurements.cpp
+++ b/extensions/iidm/src/Measurements.cpp
@@ -59,7 +59,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements() const {
 }
 
 stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -67,7 +67,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement
 }
 
 stdcxx::range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
-- 
2.43.0


From d4c8bb53083e889c10fd733be6b1e3a5b10c9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 40/43] fix: check all the target variants before cloning any
 of them

---
 src/iidm/VariantManager.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..4ff5070 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -91,16 +91,26 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     std::lock_guard<std::mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
+
+    // check all the targets before creating any of them
+    std::set<std::string> createdIds;
+    for (const auto& targetVariantId : targetVariantIds) {
+        bool exists = m_variantsById.find(targetVariantId) != m_variantsById.end();
+        bool duplicate = !exists && !createdIds.insert(targetVariantId).second;
+        if (!mayOverwrite && (exists || duplicate)) {
+            throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+        }
+    }
+
     unsigned long initVariantArraySize = m_variantArraySize;
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
     for (const auto& targetVariantId : targetVariantIds) {
-        if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
-                overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
-                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+        const auto& it = m_variantsById.find(targetVariantId);
+        if (it != m_variantsById.end()) {
+            if (createdIds.find(targetVariantId) == createdIds.end()) {
+                overwritten.emplace(it->second);
             }
         }
         else if (m_unusedIndexes.empty()) {
-- 
2.43.0


From 2714ccb234312c751eb0faaeda7920dd29652e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 41/43] fix: keep the existing extension when the new one is
 refused

---
 src/iidm/Extendable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 25bfaa4..c778a76 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -24,6 +24,8 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
 }
 
 void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
+    extension->setExtendable(*this);
+
     auto it = m_extensionsByName.find(extension->getName());
     if (it != m_extensionsByName.end()) {
         // Clean the existing extension
@@ -32,7 +34,6 @@ void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
         m_extensionsByType.erase(extension->getType());
     }
 
-    extension->setExtendable(*this);
     auto newIt = m_extensionsByName.emplace(std::make_pair(extension->getName(), std::move(extension)));
 
     std::reference_wrapper<Extension> refExtension = *newIt.first->second;
-- 
2.43.0


From 50062940b9c3137aa60352676207ecbc72bd0a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 42/43] fix: check that an equipment is attachable before
 registering it

---
 src/iidm/BatteryAdder.cpp                  |  6 +++--
 src/iidm/DanglingLineAdder.cpp             |  6 +++--
 src/iidm/GeneratorAdder.cpp                |  6 +++--
 src/iidm/LccConverterStationAdder.cpp      |  6 +++--
 src/iidm/LineAdder.cpp                     | 14 +++++------
 src/iidm/LoadAdder.cpp                     |  6 +++--
 src/iidm/NodeBreakerVoltageLevel.cpp       | 28 ++++++++++++++++------
 src/iidm/ShuntCompensatorAdder.cpp         |  6 +++--
 src/iidm/StaticVarCompensatorAdder.cpp     |  6 +++--
 src/iidm/ThreeWindingsTransformerAdder.cpp | 17 +++++++------
 src/iidm/TieLineAdder.cpp                  | 14 +++++------
 src/iidm/TwoWindingsTransformerAdder.cpp   | 14 +++++------
 src/iidm/VscConverterStationAdder.cpp      |  6 +++--
 13 files changed, 82 insertions(+), 53 deletions(-)

diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..ee858b6 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -30,9 +30,11 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
-    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
+    // check that the battery is attachable, before it is part of the network
+    Terminal& terminal = ptrBattery->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
     getVoltageLevel().attach(terminal, false);
 
     return battery;
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..31321e7 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,9 +34,11 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
-    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
+    // check that the dangling line is attachable, before it is part of the network
+    Terminal& terminal = ptrDanglingLine->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
     getVoltageLevel().attach(terminal, false);
 
     return danglingLine;
diff --git a/src/iidm/GeneratorAdder.cpp b/src/iidm/GeneratorAdder.cpp
index 877c6b5..e4d0bf4 100644
--- a/src/iidm/GeneratorAdder.cpp
+++ b/src/iidm/GeneratorAdder.cpp
@@ -37,9 +37,11 @@ Generator& GeneratorAdder::add() {
     std::unique_ptr<Generator> ptrGenerator = stdcxx::make_unique<Generator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
         m_energySource, m_minP, m_maxP, *m_voltageRegulatorOn, regulatingTerminal,
         m_activePowerSetpoint, m_reactivePowerSetpoint, m_voltageSetpoint, m_ratedS);
-    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
+    // check that the generator is attachable, before it is part of the network
+    Terminal& terminal = ptrGenerator->addTerminal(std::move(terminalPtr));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = generator.addTerminal(std::move(terminalPtr));
+    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
     getVoltageLevel().attach(terminal, false);
 
     return generator;
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..03993f2 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,9 +24,11 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
-    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
+    // check that the converter station is attachable, before it is part of the network
+    Terminal& terminal = ptrLcc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
     getVoltageLevel().attach(terminal, false);
 
     return lcc;
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..e74c768 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -37,15 +37,15 @@ Line& LineAdder::add() {
     checkR(*this, m_r);
     checkX(*this, m_x);
 
-    // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
-    auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
+    Terminal& terminal1 = ptrLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrLine->addTerminal(std::move(ptrTerminal2));
 
-    Terminal& terminal1 = line.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = line.addTerminal(std::move(ptrTerminal2));
+    // check that the line is attachable on both sides, before it is part of the network
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
+
+    auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..969a02f 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,9 +27,11 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
-    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
+    // check that the load is attachable, before it is part of the network
+    Terminal& terminal = ptrLoad->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
     getVoltageLevel().attach(terminal, false);
 
     return load;
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index bf1baf5..c845193 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -64,13 +64,6 @@ void NodeBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
         unsigned long node = nodeTerminal.getNode();
         m_graph.addVertexIfNotPresent(node);
 
-        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
-        if (static_cast<bool>(tmp)) {
-            throw ValidationException(terminal.getConnectable(),
-                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
-                                tmp.get().getConnectable().get().getId(), node, getId()));
-        }
-
         // create the link terminal <-> graph vertex
         m_graph.setVertexObject(node, stdcxx::ref(nodeTerminal));
 
@@ -86,6 +79,27 @@ void NodeBreakerVoltageLevel::checkTerminal(Terminal& terminal) const {
             stdcxx::format("Voltage level %1% has a node/breaker topology, a node connection should be specified instead of a bus connection",
                             getId()));
     }
+
+    // check that the node is free
+    unsigned long node = dynamic_cast<NodeTerminal&>(terminal).getNode();
+    if (m_graph.vertexExists(node)) {
+        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
+        if (static_cast<bool>(tmp)) {
+            throw ValidationException(terminal.getConnectable(),
+                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                                tmp.get().getConnectable().get().getId(), node, getId()));
+        }
+    }
+
+    // check that no other terminal of the same equipment is connected to the node
+    for (const Terminal& other : terminal.getConnectable().get().getTerminals()) {
+        if (!stdcxx::areSame(other, terminal) && stdcxx::areSame(other.getVoltageLevel(), *this) &&
+            stdcxx::isInstanceOf<NodeTerminal>(other) && dynamic_cast<const NodeTerminal&>(other).getNode() == node) {
+            throw ValidationException(terminal.getConnectable(),
+                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                                terminal.getConnectable().get().getId(), node, getId()));
+        }
+    }
 }
 
 void NodeBreakerVoltageLevel::clean() {
diff --git a/src/iidm/ShuntCompensatorAdder.cpp b/src/iidm/ShuntCompensatorAdder.cpp
index 99cd059..bafa181 100644
--- a/src/iidm/ShuntCompensatorAdder.cpp
+++ b/src/iidm/ShuntCompensatorAdder.cpp
@@ -34,9 +34,11 @@ ShuntCompensator& ShuntCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<ShuntCompensator> ptrShunt = stdcxx::make_unique<ShuntCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_modelBuilder->build(),
                                                                                        *m_sectionCount, regulatingTerminal, m_voltageRegulatorOn, m_targetV, m_targetDeadband);
-    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
+    // check that the shunt compensator is attachable, before it is part of the network
+    Terminal& terminal = ptrShunt->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = shunt.addTerminal(std::move(ptrTerminal));
+    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
     getVoltageLevel().attach(terminal, false);
 
     return shunt;
diff --git a/src/iidm/StaticVarCompensatorAdder.cpp b/src/iidm/StaticVarCompensatorAdder.cpp
index 751e139..1488e64 100644
--- a/src/iidm/StaticVarCompensatorAdder.cpp
+++ b/src/iidm/StaticVarCompensatorAdder.cpp
@@ -31,9 +31,11 @@ StaticVarCompensator& StaticVarCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<StaticVarCompensator> ptrSvc = stdcxx::make_unique<StaticVarCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_bMin, m_bMax, m_voltageSetpoint,
         m_reactivePowerSetpoint, *m_regulationMode, regulatingTerminal);
-    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
+    // check that the static var compensator is attachable, before it is part of the network
+    Terminal& terminal = ptrSvc->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = svc.addTerminal(std::move(ptrTerminal));
+    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
     getVoltageLevel().attach(terminal, false);
 
     return svc;
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..2abc4a0 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -45,11 +45,6 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     VoltageLevel& voltageLevel3 = m_adder3->checkAndGetVoltageLevel();
     std::unique_ptr<Terminal> ptrTerminal3 = m_adder3->checkAndGetTerminal(voltageLevel3);
 
-    // check that the 3 windings transformer is attachable on the 3 sides
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-    voltageLevel3.attach(*ptrTerminal3, true);
-
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
         m_ratedU0 = leg1.getRatedU();
@@ -57,12 +52,16 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     }
 
     std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), m_ratedU0);
-    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal3 = ptrTransformer->addTerminal(std::move(ptrTerminal3));
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
-    Terminal& terminal3 = transformer.addTerminal(std::move(ptrTerminal3));
+    // check that the 3 windings transformer is attachable on the 3 sides, before it is part of the network
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
+    voltageLevel3.attach(terminal3, true);
 
+    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
     voltageLevel3.attach(terminal3, false);
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..8a2d482 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -39,15 +39,15 @@ TieLine& TieLineAdder::add() {
     TieLine::HalfLine half1 = m_halfLineAdder1->build();
     TieLine::HalfLine half2 = m_halfLineAdder2->build();
 
-    // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
-    auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
+    Terminal& terminal1 = ptrTieLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTieLine->addTerminal(std::move(ptrTerminal2));
 
-    Terminal& terminal1 = tieLine.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = tieLine.addTerminal(std::move(ptrTerminal2));
+    // check that the tie line is attachable on both sides, before it is part of the network
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
+
+    auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..4591adf 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -40,15 +40,15 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     checkRatedU2(*this, m_ratedU2);
     checkRatedS(*this, m_ratedS);
 
-    // check that the two windings transformer is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
-    auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
+    // check that the two windings transformer is attachable on both sides, before it is part of the network
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
+
+    auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..2f8341e 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,9 +24,11 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
-    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
+    // check that the converter station is attachable, before it is part of the network
+    Terminal& terminal = ptrVsc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
     getVoltageLevel().attach(terminal, false);
 
     return vsc;
-- 
2.43.0


From 6ae3cdabcac73bc3f5660805ac4fc83a2b190360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:11 +0000
Subject: [PATCH 43/43] fix: refuse an undefined side when asking a converter
 station to an HVDC line

---
 src/iidm/HvdcLine.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index da4ae5a..94c68cb 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -7,9 +7,11 @@
 
 #include <powsybl/iidm/HvdcLine.hpp>
 
+#include <powsybl/AssertionError.hpp>
 #include <powsybl/iidm/Enum.hpp>
 #include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/stdcxx/format.hpp>
 
 namespace powsybl {
 
@@ -57,11 +59,29 @@ const HvdcLine::ConvertersMode& HvdcLine::getConvertersMode() const {
 }
 
 stdcxx::CReference<HvdcConverterStation> HvdcLine::getConverterStation(const HvdcLine::Side& side) const {
-    return side == Side::ONE ? getConverterStation1() : getConverterStation2();
+    switch (side) {
+        case Side::ONE:
+            return getConverterStation1();
+
+        case Side::TWO:
+            return getConverterStation2();
+
+        default:
+            throw AssertionError(stdcxx::format("Unexpected side value: %1%", static_cast<unsigned int>(side)));
+    }
 }
 
 stdcxx::Reference<HvdcConverterStation> HvdcLine::getConverterStation(const HvdcLine::Side& side) {
-    return side == Side::ONE ? getConverterStation1() : getConverterStation2();
+    switch (side) {
+        case Side::ONE:
+            return getConverterStation1();
+
+        case Side::TWO:
+            return getConverterStation2();
+
+        default:
+            throw AssertionError(stdcxx::format("Unexpected side value: %1%", static_cast<unsigned int>(side)));
+    }
 }
 
 stdcxx::CReference<HvdcConverterStation> HvdcLine::getConverterStation1() const {
-- 
2.43.0

