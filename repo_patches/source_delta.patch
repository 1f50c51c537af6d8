From 49356d239085400bcfca97d67dfd7e8c5688eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:46 +0000
Subject: [PATCH 001/109] fix: read gas model coefficients without overrunning
 or leaking them

---
 ThermoFun/Substances/Gases/GasCGF.cpp      | 11 +++----
 ThermoFun/Substances/Gases/GasCORK.cpp     |  9 ++----
 ThermoFun/Substances/Gases/GasPR78.cpp     | 11 +++----
 ThermoFun/Substances/Gases/GasPRSV.cpp     | 11 +++----
 ThermoFun/Substances/Gases/GasParameters.h | 36 ++++++++++++++++++++++
 ThermoFun/Substances/Gases/GasSRK.cpp      | 11 +++----
 ThermoFun/Substances/Gases/GasSTP.cpp      | 17 +++++-----
 7 files changed, 63 insertions(+), 43 deletions(-)
 create mode 100644 ThermoFun/Substances/Gases/GasParameters.h

diff --git a/ThermoFun/Substances/Gases/GasCGF.cpp b/ThermoFun/Substances/Gases/GasCGF.cpp
index df3ab15..007c354 100644
--- a/ThermoFun/Substances/Gases/GasCGF.cpp
+++ b/ThermoFun/Substances/Gases/GasCGF.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasCGF.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasCGF(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TCGFcalc myCGF( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasModelLowerT(subst);
+    auto CPg = gasModelCoefficients(subst, "Churakov-Gottschalk");
 
-    myCGF.CGcalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myCGF.CGcalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasCORK.cpp b/ThermoFun/Substances/Gases/GasCORK.cpp
index 58d50bb..62ac9a2 100644
--- a/ThermoFun/Substances/Gases/GasCORK.cpp
+++ b/ThermoFun/Substances/Gases/GasCORK.cpp
@@ -1,5 +1,6 @@
 #include <array>
 #include "Substances/Gases/GasCORK.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -18,12 +19,8 @@ auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TCORKcalc myCORK( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    std::array<double, 7> CPg;
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasModelLowerT(subst);
+    auto CPg = gasModelCoefficients(subst, "CORK");
 
     myCORK.CORKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
diff --git a/ThermoFun/Substances/Gases/GasPR78.cpp b/ThermoFun/Substances/Gases/GasPR78.cpp
index a8c93cd..96a53d5 100644
--- a/ThermoFun/Substances/Gases/GasPR78.cpp
+++ b/ThermoFun/Substances/Gases/GasPR78.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasPR78.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasPR78(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPR78calc myPR78( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasModelLowerT(subst);
+    auto CPg = gasModelCoefficients(subst, "PR78");
 
-    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasPRSV.cpp b/ThermoFun/Substances/Gases/GasPRSV.cpp
index 86026a8..652b79d 100644
--- a/ThermoFun/Substances/Gases/GasPRSV.cpp
+++ b/ThermoFun/Substances/Gases/GasPRSV.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasPRSV.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasPRSV(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPRSVcalc myPRSV( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasModelLowerT(subst);
+    auto CPg = gasModelCoefficients(subst, "PRSV");
 
-    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasParameters.h b/ThermoFun/Substances/Gases/GasParameters.h
new file mode 100644
index 0000000..03d4b1d
--- /dev/null
+++ b/ThermoFun/Substances/Gases/GasParameters.h
@@ -0,0 +1,36 @@
+#ifndef GASPARAMETERS_H
+#define GASPARAMETERS_H
+
+#include <algorithm>
+#include <array>
+#include "Common/Exception.h"
+#include "Substance.h"
+#include "ThermoParameters.h"
+
+namespace ThermoFun {
+
+/// Returns the coefficients of a gas model; the ones missing in the record are zero.
+/// The fluid models read up to 12 coefficients.
+inline auto gasModelCoefficients(const Substance& subst, const std::string& model) -> std::array<double, 12>
+{
+    const auto crit = subst.thermoParameters().critical_parameters;
+    if (crit.empty())
+        errorModelParameters("critical parameters", subst.symbol() + " " + model, __LINE__, __FILE__);
+
+    std::array<double, 12> coeff{};
+    std::copy_n(crit.begin(), std::min(crit.size(), coeff.size()), coeff.begin());
+    return coeff;
+}
+
+/// Returns the lower temperature limit of a gas model
+inline auto gasModelLowerT(const Substance& subst) -> double
+{
+    const auto intervals = subst.thermoParameters().temperature_intervals;
+    if (intervals.empty() || intervals[0].empty())
+        return subst.lowerT();
+    return intervals[0][0];
+}
+
+}
+
+#endif // GASPARAMETERS_H
diff --git a/ThermoFun/Substances/Gases/GasSRK.cpp b/ThermoFun/Substances/Gases/GasSRK.cpp
index 48afa27..ead37fa 100644
--- a/ThermoFun/Substances/Gases/GasSRK.cpp
+++ b/ThermoFun/Substances/Gases/GasSRK.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasSRK.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasSRK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TSRKcalc mySRK( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasModelLowerT(subst);
+    auto CPg = gasModelCoefficients(subst, "SRK");
 
-    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSTP.cpp b/ThermoFun/Substances/Gases/GasSTP.cpp
index f8bac3a..fad0a55 100644
--- a/ThermoFun/Substances/Gases/GasSTP.cpp
+++ b/ThermoFun/Substances/Gases/GasSTP.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasSTP.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -9,22 +10,20 @@ namespace ThermoFun {
 auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
     double FugProps[6];
-    char Eos_Code;
+    char Eos_Code = 0;
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
 
     if (subst.formula() == "CO2") Eos_Code = 'C';
     if (subst.formula() == "H2O") Eos_Code = 'V';
+    if (Eos_Code == 0)
+        errorMethodNotFound("substance", subst.symbol() + " (Sterner-Pitzer is for CO2 and H2O only)", __LINE__, __FILE__);
 
     solmod::TSTPcalc mySTP( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
-
-    mySTP.STPCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    double TClow = gasModelLowerT(subst);
+    auto CPg = gasModelCoefficients(subst, "Sterner-Pitzer");
+
+    mySTP.STPCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
-- 
2.43.0


From d1776bc919cea181a20d121bf9e06a839cae97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 002/109] fix: key memoized results by value and report the
 pressure of a cached result

---
 ThermoFun/OptimizationUtils.h | 91 ++++++++++++++++++++++++++---------
 1 file changed, 69 insertions(+), 22 deletions(-)

diff --git a/ThermoFun/OptimizationUtils.h b/ThermoFun/OptimizationUtils.h
index b6cea7a..399d9f1 100644
--- a/ThermoFun/OptimizationUtils.h
+++ b/ThermoFun/OptimizationUtils.h
@@ -3,21 +3,65 @@
 #include <map>
 #include <memory>
 #include <tuple>
+#include <utility>
 
 #include <list>
 
 namespace ThermoFun {
 
+/// The arguments of a memoized function, by value also where the function takes references.
+template <typename... Args>
+using MemoizeKey = std::tuple<typename std::decay<Args>::type...>;
+
+/// A memoized result, and the values the function left in its arguments.
+template <typename Ret, typename... Args>
+struct MemoizeEntry
+{
+    Ret result;
+    MemoizeKey<Args...> args;
+};
+
+/// Strict weak order of memoization keys, also for keys which contain NaN.
+struct MemoizeLess
+{
+    template <typename T>
+    static auto order(const T& a, const T& b) -> int
+    {
+        if (a < b) return -1;
+        if (b < a) return 1;
+        return int(b == b) - int(a == a); // NaN comes after all numbers
+    }
+
+    template <typename Key, size_t... I>
+    static auto less(const Key& a, const Key& b, std::index_sequence<I...>) -> bool
+    {
+        int c = 0;
+        ((c = c ? c : order(std::get<I>(a), std::get<I>(b))), ...);
+        return c < 0;
+    }
+
+    template <typename... T>
+    auto operator()(const std::tuple<T...>& a, const std::tuple<T...>& b) const -> bool
+    {
+        return less(a, b, std::index_sequence_for<T...>());
+    }
+};
+
 template <typename Ret, typename... Args>
 auto memoize(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
+    auto cache = std::make_shared<std::map<MemoizeKey<Args...>, MemoizeEntry<Ret, Args...>, MemoizeLess>>();
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...);
-        if(cache->find(t) == cache->end())
-            (*cache)[t] = f(args...);
-        return (*cache)[t];
+        MemoizeKey<Args...> t(args...);
+        auto it = cache->find(t);
+        if(it == cache->end())
+        {
+            Ret result = f(args...);
+            it = cache->insert_or_assign(t, MemoizeEntry<Ret, Args...>{result, MemoizeKey<Args...>(args...)}).first;
+        }
+        std::tie(args...) = it->second.args;
+        return it->second.result;
     };
 }
 
@@ -52,29 +96,32 @@ auto dereference(const std::shared_ptr<std::function<Ret(Args...)>>& f) -> std::
 template <typename Ret, typename... Args>
 auto memoizeN(std::function<Ret(Args...)> f, size_t max_cache_size) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    std::list<std::tuple<Args...>> usage_order; // List to track the order of usage for LRU cache management
+    auto cache = std::make_shared<std::map<MemoizeKey<Args...>, MemoizeEntry<Ret, Args...>, MemoizeLess>>();
+    auto usage_order = std::make_shared<std::list<MemoizeKey<Args...>>>(); // List to track the order of insertion for cache management
 
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...); // Create a tuple key from the arguments
-
-        // Check cache size and evict the least recently used item if necessary before adding
-        if (cache->size() >= max_cache_size) {
-            if (!usage_order.empty()) {
-                std::tuple<Args...> lru_t = usage_order.back(); // Get the least recently used key
-                usage_order.pop_back();                           // Remove from usage order
-                cache->erase(lru_t);                             // Remove from cache
-            }
-        }
+        MemoizeKey<Args...> t(args...); // Create a tuple key from the arguments
 
         // Check if result is already in cache
-        if (cache->find(t) == cache->end()) { // t not found; compute the result
-            (*cache)[t] = f(args...); // Cache the result
-            usage_order.push_front(t); // Track the usage order
+        auto it = cache->find(t);
+        if (it == cache->end()) { // t not found; compute the result
+            Ret result = f(args...); // can add to the cache itself
+
+            // Check cache size and evict the oldest items if necessary before adding
+            while (cache->size() >= max_cache_size && !usage_order->empty()) {
+                cache->erase(usage_order->back());
+                usage_order->pop_back();
+            }
+
+            bool added;
+            std::tie(it, added) = cache->insert_or_assign(t, MemoizeEntry<Ret, Args...>{result, MemoizeKey<Args...>(args...)}); // Cache the result
+            if (added)
+                usage_order->push_front(t); // Track the usage order
         }
-        
-        return (*cache)[t]; // Return the cached result
+
+        std::tie(args...) = it->second.args; // what the function left in its arguments
+        return it->second.result; // Return the cached result
     };
 }
 
-- 
2.43.0


From 428589b7f15d32b336f820c1c8eff3e95ac293fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:24 +0000
Subject: [PATCH 003/109] fix: a copied or assigned engine is independent of
 the original

---
 ThermoFun/ThermoEngine.cpp | 13 +++++++++++++
 ThermoFun/ThermoEngine.h   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 57ebee0..fb53eea 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -88,6 +88,13 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    /// The functions of a copy have to refer to the copy
+    Impl(const Impl &other)
+        : database(other.database), preferences(other.preferences), prefs(other.prefs), conventions(other.conventions)
+    {
+        set_fn();
+    }
+
     void set_fn()
     {
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
@@ -853,6 +860,12 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 {
 }
 
+auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine&
+{
+    pimpl = std::move(other.pimpl);
+    return *this;
+}
+
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
     return pimpl->thermo_properties_substance_fn(T, P, P, substance);
diff --git a/ThermoFun/ThermoEngine.h b/ThermoFun/ThermoEngine.h
index ec968b4..dfa23f7 100644
--- a/ThermoFun/ThermoEngine.h
+++ b/ThermoFun/ThermoEngine.h
@@ -63,6 +63,9 @@ public:
     /// Construct a copy of an ThermoEngine instance
     ThermoEngine(const ThermoEngine &other);
 
+    /// Assign an ThermoEngine instance to this
+    auto operator=(ThermoEngine other) -> ThermoEngine&;
+
     /// Sets the symbol of the solvent which is used to calculate properties using the thermo instance
     auto setSolventSymbol(const std::string solvent_symbol) -> void;
 
-- 
2.43.0


From 1ba114de12a5b2c6c45df788187d3a1fa47eb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 004/109] fix: restore the gas correction setting after
 reactions and keep its results apart in the cache

---
 ThermoFun/ThermoEngine.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index fb53eea..172faef 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -46,8 +46,18 @@ struct WorkPreferences
     bool isReacFromReactants = false;
 };
 
+/// Sets a flag for the duration of a scope, however it is left
+struct ScopedFlag
+{
+    bool &flag;
+    const bool before;
+    ScopedFlag(bool &flag, bool value) : flag(flag), before(flag) { flag = value; }
+    ~ScopedFlag() { flag = before; }
+    ScopedFlag(const ScopedFlag&) = delete;
+};
+
 using ThermoPropertiesSubstanceFunction =
-    std::function<ThermoPropertiesSubstance(double, double, double &, std::string)>;
+    std::function<ThermoPropertiesSubstance(double, double, double &, std::string, bool)>;
 
 using ElectroPropertiesSolventFunction =
     std::function<ElectroPropertiesSolvent(double, double, double &, std::string, int)>;
@@ -97,8 +107,10 @@ struct ThermoEngine::Impl
 
     void set_fn()
     {
-        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
+        // the gas correction is part of the key under which a result is cached
+        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool gas_correction) {
             auto x = P_;
+            ScopedFlag correction(preferences.apply_pressure_correction_to_gas_props, gas_correction);
             return thermoPropertiesSubstance(T, P, symbol);
         };
 
@@ -330,10 +342,10 @@ struct ThermoEngine::Impl
                 {
                     double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
                     double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol),
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
                                                                                         properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
                                                                                         properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
                     break;
@@ -596,7 +608,7 @@ struct ThermoEngine::Impl
         std::map<std::string, double> reactants;
 
         // if reaction involves gases we switch on the P correction to the thermo props
-        preferences.apply_pressure_correction_to_gas_props = true;
+        ScopedFlag correction(preferences.apply_pressure_correction_to_gas_props, true);
 
         if (!reactionSymbol.empty())
         {
@@ -619,7 +631,7 @@ struct ThermoEngine::Impl
             {
                 if (reactant.first != subst.symbol())
                 {
-                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first); /* thermoPropertiesSubstance(T, P, reactant.first);*/
+                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first, preferences.apply_pressure_correction_to_gas_props); /* thermoPropertiesSubstance(T, P, reactant.first);*/
                     tps.enthalpy -= reacTps.enthalpy * reactant.second;
                     tps.entropy -= reacTps.entropy * reactant.second;
                     tps.gibbs_energy -= reacTps.gibbs_energy * reactant.second;
@@ -647,8 +659,6 @@ struct ThermoEngine::Impl
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
-
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -800,7 +810,7 @@ struct ThermoEngine::Impl
         tpr.reaction_internal_energy = 0.0;
         tpr.reaction_helmholtz_energy = 0.0;
 
-        preferences.apply_pressure_correction_to_gas_props = true;
+        ScopedFlag correction(preferences.apply_pressure_correction_to_gas_props, true);
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
@@ -816,7 +826,7 @@ struct ThermoEngine::Impl
                 errorMethodNotFound("reaction", reaction.symbol(), __LINE__, __FILE__);
             }
 
-            auto tps        = thermo_properties_substance_fn(T, P,P, substance); /*thermoPropertiesSubstance(T, P, substance);*/
+            auto tps        = thermo_properties_substance_fn(T, P,P, substance, preferences.apply_pressure_correction_to_gas_props); /*thermoPropertiesSubstance(T, P, substance);*/
 
             tpr.reaction_heat_capacity_cp   += tps.heat_capacity_cp*coeff;
             tpr.reaction_gibbs_energy       += tps.gibbs_energy*coeff;
@@ -838,7 +848,6 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
         return tpr;
     }
 };
@@ -868,7 +877,7 @@ auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine&
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
-    return pimpl->thermo_properties_substance_fn(T, P, P, substance);
+    return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
-- 
2.43.0


From ccb6ea78e52012a41fffb0a566bb4fdef3b31cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 005/109] fix: queries find the solvent and its state without
 changing the preferences

---
 ThermoFun/ThermoEngine.cpp | 102 +++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 50 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 172faef..e769340 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -38,6 +38,7 @@ struct WorkPreferences
     MethodGenEoS_Thrift::type method_genEOS;
     MethodCorrT_Thrift::type method_T;
     MethodCorrP_Thrift::type method_P;
+    int solvent_state = 0; // 0: liquid; 1: vapor
 
     bool isHydrogen = false;
     bool isH2Ovapor = false;
@@ -177,6 +178,21 @@ struct ThermoEngine::Impl
         return preferences;
     }
 
+    /// The default solvent if it is in the database, otherwise a solvent that is in the database
+    auto solventInUse() const -> std::string
+    {
+        std::string symbol = preferences.solvent_symbol;
+        if (!database.containsSubstance(symbol))
+        {
+            for (const auto& pair : database.mapSubstances()) {
+                if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
+                    symbol = pair.first;
+                }
+            }
+        }
+        return symbol;
+    }
+
     auto getThermoPreferencesSubstance(const Substance &substance) const -> WorkPreferences
     {
         WorkPreferences workPreferences;
@@ -205,9 +221,9 @@ struct ThermoEngine::Impl
 
         // set solvent state
         if (workPreferences.workSubstance.aggregateState() == AggregateState::type::GAS)
-            preferences.solvent_state = 1; // vapor
+            workPreferences.solvent_state = 1; // vapor
         else
-            preferences.solvent_state = 0; // liquid
+            workPreferences.solvent_state = 0; // liquid
 
         bool noMethods =
             !workPreferences.method_genEOS &&
@@ -228,20 +244,6 @@ struct ThermoEngine::Impl
         else
             workPreferences.isReacDC = false;
 
-        // check if substance is aq solute and needs a solvent
-        if (workPreferences.workSubstance.substanceClass() == SubstanceClass::type::AQSOLUTE)
-        {
-            // see if default solvent is in the database if not search for solvent
-            if (!database.containsSubstance(preferences.solvent_symbol))
-            {
-                for (const auto& pair : database.mapSubstances()) {
-                    if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
-                        preferences.solvent_symbol = pair.first;
-                    }
-                }
-            }
-        }
-
         return workPreferences;
     }
 
@@ -287,26 +289,26 @@ struct ThermoEngine::Impl
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKF:
                 {
-                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventInUse(), -1), electro_properties_solvent_fn(T, P, P, solventInUse(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKFR:
                 {
-                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventInUse(), -1), electro_properties_solvent_fn(T, P, P, solventInUse(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HP98:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventInUse()).referenceP();
+                    double Tr = database.getSubstance(solventInUse()).referenceT();
+                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, solventInUse(), -1), properties_solvent_fn(T, P, P, solventInUse(), -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_AN91:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventInUse()).referenceP();
+                    double Tr = database.getSubstance(solventInUse()).referenceT();
+                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, solventInUse(), -1), properties_solvent_fn(T, P, P, solventInUse(), -1));
                     break;
                 }
                     //                default:
@@ -340,14 +342,14 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrP_Thrift::type::CPM_AKI:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
-                                                                                        properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
-                                                                                        properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(solventInUse()).referenceP();
+                    double Tr = database.getSubstance(solventInUse()).referenceT();
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, solventInUse(), preferences.apply_pressure_correction_to_gas_props),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(solventInUse())).thermoProperties(T, P),
+                                                                                        properties_solvent_fn(T, P, P, solventInUse(), -1),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, solventInUse(), preferences.apply_pressure_correction_to_gas_props),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(solventInUse())).thermoProperties(Tr, Pr),
+                                                                                        properties_solvent_fn(Tr, Pr, Pr, solventInUse(), -1));
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_CEH:
@@ -423,22 +425,22 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrT_Thrift::type::CTM_WAT:
                 {
-                    tps = WaterHGK(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterHGK(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WAR:
                 {
-                    tps = WaterHGKreaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterHGKreaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WWP:
                 {
-                    tps = WaterWP95reaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterWP95reaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WZD:
                 {
-                    tps = WaterZhangDuan2005(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state);
+                    tps = WaterZhangDuan2005(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state);
                     break;
                 }
                 default:
@@ -519,8 +521,8 @@ struct ThermoEngine::Impl
     {
         WorkPreferences pref = getThermoPreferencesSubstance(solvent);
         if (state>-1 && state<2)
-            preferences.solvent_state = state;
-        PropertiesSolvent ps = propertiesSolvent(T, P, solvent, preferences.solvent_state);
+            pref.solvent_state = state;
+        PropertiesSolvent ps = propertiesSolvent(T, P, solvent, pref.solvent_state);
         ElectroPropertiesSolvent eps;
 
         if (pref.isH2OSolvent)
@@ -529,22 +531,22 @@ struct ThermoEngine::Impl
             {
             case MethodGenEoS_Thrift::type::CTPM_WJNR:
             {
-                eps = WaterJNreaktoro(pref.workSubstance).electroPropertiesSolvent(T, P, ps, preferences.solvent_state);
+                eps = WaterJNreaktoro(pref.workSubstance).electroPropertiesSolvent(T, P, ps, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WJNG:
             {
-                eps = WaterJNgems(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterJNgems(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WSV14:
             {
-                eps = WaterElectroSverjensky2014(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterElectroSverjensky2014(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WF97:
             {
-                eps = WaterElectroFernandez1997(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterElectroFernandez1997(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
                 //            default:
@@ -564,7 +566,7 @@ struct ThermoEngine::Impl
     {
         WorkPreferences pref = getThermoPreferencesSubstance(solvent);
         if (state > -1 && state <2)
-            preferences.solvent_state = state;
+            pref.solvent_state = state;
         PropertiesSolvent ps;
 
         if (pref.isH2OSolvent)
@@ -573,22 +575,22 @@ struct ThermoEngine::Impl
             {
             case MethodCorrT_Thrift::type::CTM_WAT:
             {
-                ps = WaterHGK(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterHGK(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WAR:
             {
-                ps = WaterHGKreaktoro(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterHGKreaktoro(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WWP:
             {
-                ps = WaterWP95reaktoro(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterWP95reaktoro(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WZD:
             {
-                ps = WaterZhangDuan2005(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterZhangDuan2005(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
                 //            default:
@@ -720,17 +722,17 @@ struct ThermoEngine::Impl
             }
             case MethodCorrT_Thrift::type::CTM_DMD: // Dolejs-Maning 2010 density model
             {
-                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventInUse(), -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_DKR: // Marshall-Franck density model
             {
-                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventInUse(), -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_MRB: // Calling modified Ryzhenko-Bryzgalin model TW KD 08.2007
             {
-                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1)); // NOT TESTED!!!
+                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, solventInUse(), -1)); // NOT TESTED!!!
             }
             case MethodCorrT_Thrift::type::CTM_IKZ:
             {
-- 
2.43.0


From 298c8cac481818ec27b6a6b35f25fb0e30a955b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 006/109] fix: changed data, preferences and conventions take
 effect at the next query

---
 ThermoFun/ThermoEngine.cpp | 31 +++++++++++++++++++++++++++++++
 ThermoFun/ThermoEngine.h   |  4 ++++
 2 files changed, 35 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index e769340..330278d 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -88,6 +88,10 @@ struct ThermoEngine::Impl
 
     ThermoPropertiesReactionFunction thermo_properties_reaction_fn;
 
+    /// The preferences and conventions for which results are being cached
+    EnginePreferences cached_preferences;
+    EngineConventions cached_conventions;
+
     Impl()
     {
         set_fn() ;
@@ -106,8 +110,18 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    /// Discards the cached results if they were calculated with other preferences or conventions
+    void update_fn()
+    {
+        if (!(cached_preferences == preferences) || !(cached_conventions == conventions))
+            set_fn();
+    }
+
     void set_fn()
     {
+        cached_preferences = preferences;
+        cached_conventions = conventions;
+
         // the gas correction is part of the key under which a result is cached
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool gas_correction) {
             auto x = P_;
@@ -879,52 +893,62 @@ auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine&
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->update_fn();
     return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->electro_properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesSubstance(T, P, substance);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->electroPropertiesSolvent(T, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->propertiesSolvent(T, P, solvent, state);
 }
 
 // Reaction
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, std::string reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermo_properties_reaction_fn(T, P, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, std::string symbol) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, symbol);
 }
 
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesReaction(T, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, reaction);
 }
 
@@ -933,6 +957,11 @@ auto ThermoEngine::setSolventSymbol(const std::string solvent_symbol) -> void
     pimpl->preferences.solvent_symbol = solvent_symbol;
 }
 
+auto ThermoEngine::setPreferences(const EnginePreferences preferences) -> void
+{
+    pimpl->preferences = preferences;
+}
+
 auto ThermoEngine::solventSymbol() -> std::string&
 {
     return pimpl->preferences.solvent_symbol;
@@ -953,11 +982,13 @@ auto ThermoEngine::database() const -> const Database &
 
 auto ThermoEngine::appendData(std::string filename) -> void
 {
+    pimpl->set_fn(); // the results of the old data
     pimpl->database.appendData(filename);
 }
 
 auto ThermoEngine::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
+    pimpl->set_fn(); // the results of the old data
     pimpl->database.appendData(jsonRecords, _label);
 }
 
diff --git a/ThermoFun/ThermoEngine.h b/ThermoFun/ThermoEngine.h
index dfa23f7..74a8a65 100644
--- a/ThermoFun/ThermoEngine.h
+++ b/ThermoFun/ThermoEngine.h
@@ -29,6 +29,8 @@ struct EnginePreferences
     std::string solvent_symbol = "H2O@"; // default
     bool fallback_to_reference_properties = false; // leave properties as is given in substance record database, if no functions to calculate them are defined or there are missing data in the calculation chain, value undefined only if not present in the database record
     bool apply_pressure_correction_to_gas_props = false; // making the pressure/fugacity correction in the G0, H0, ... properties of gases
+
+    auto operator==(const EnginePreferences&) const -> bool = default;
 };
 
 struct EngineConventions {
@@ -36,6 +38,8 @@ struct EngineConventions {
     std::string apparent_properties = "BENSON_HELGESON";
     // e.g. "STEAM_TABLES"
     std::string water_properties = "GEOCHEMICAL";
+
+    auto operator==(const EngineConventions&) const -> bool = default;
 };
 
 
-- 
2.43.0


From 2296ecd6966fbd0ee5782fcafde00c78805b8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 007/109] fix: keep the memory of the gas fluid integrals per
 thread

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 3ae47b4..dd8f5c7 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1421,8 +1421,8 @@ long int TCGFcalc::CGActivCoefRhoT( double *X, double *param, double *act,
 
 double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 		{{-0.257431, 0.439229,  0.414783,  -0.457019, -0.145520,  0.299666},
 		{-0.396724, 0.690721,  0.628935,  -0.652622, -0.201462, -0.23163 },
@@ -1480,8 +1480,8 @@ double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 
 double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.010391, 1.628552,  2.077476,  -2.30162 , -0.689931, -2.688117},
 	{ -1.228611, 2.060090,  2.463396,  -2.453303, -0.573894, -3.350638},
@@ -1522,8 +1522,8 @@ double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720},
 	{ -1.309550, 2.249120,  2.135877,  -2.278530, -0.773166, -3.704690},
@@ -1575,8 +1575,8 @@ double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::K23_13( double T, double ro )
 {
-	static double TOld,roOld,KOLD;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld,KOLD;
+	static thread_local double a,b,c,d,e;
 	static double dtmp[]=
 	{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720};
 
@@ -1755,7 +1755,7 @@ double TCGFcalc::dHS( double beta,double ro )
 
 double TCGFcalc::FWCA( double T,double ro )
 {
-	static double TOld,roOld,F;
+	static thread_local double TOld,roOld,F;
 	double d,beta,nu,nuw;
 	double nu1w1,nu1w2,nu1w3,nu1w4,nu1w5;
 	double a0,a1,a2,a3;
-- 
2.43.0


From 3211a22305b3613ef1c126f7c3479470a10f929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 008/109] fix: keep the working variables of the HGK water
 model per thread

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 7e60a0b..28eb9a1 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -252,7 +252,7 @@ NCONST  nc_ ={ /* g(40), ii(40), jj(40), nc */
      1, 4, 4, 4, 0, 2, 0, 0},                        /* jj[40] */
     36};                                           /*  nc    */
 
-ELLCON  el_ = { /* g1, g2, gf */
+thread_local ELLCON  el_ = { /* g1, g2, gf */
     0.11e2, 0.44333333333333e2, 0.35e1, 0., 0., 0., 0., 0., 0.};
 
 BCONST  bc_ = { /* bp(10), bq(10) */
@@ -291,7 +291,7 @@ LIQICE  li_ = { /* sDli1, sPli1, sDli37, sPli37, sDIB30,
     0.145e3,
     0.102631640581853166397515716306e1};
 
-TPOINT  tt_ = {/* Utri,Stri,Htri,Atri,Gtri
+thread_local TPOINT  tt_ = {/* Utri,Stri,Htri,Atri,Gtri
                        Ttr, Ptripl, Dltrip, Dvtrip */
     0e0, 0e0, 0e0, 0.0e0, 0e0,
     2.7316e2,
-- 
2.43.0


From b5b636da042ba306332fcdbdb3a23b35494f82df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:40 +0000
Subject: [PATCH 009/109] fix: integrate the heat capacity at interval limits,
 in gaps and with incomplete records without overrunning the tables

---
 .../Substances/EmpiricalCpIntegration.cpp     | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 25d4bec..77799ca 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -44,7 +44,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     // get Cp interval -> this has to go!!!!
     for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
     {
-        if (thermo_parameters.temperature_intervals[i].size() > 0)
+        if (thermo_parameters.temperature_intervals[i].size() > 1)
         {
             if ((thermo_parameters.temperature_intervals[i][0] <= TK) && (thermo_parameters.temperature_intervals[i][1] > TK))
             {
@@ -60,17 +60,24 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if (k < 0)
     {
-        if (TK_ <= thermo_parameters.temperature_intervals[0][0])
-            k = 0;
-        if (TK_ > thermo_parameters.temperature_intervals[thermo_parameters.temperature_intervals.size() - 1][1])
-            k = thermo_parameters.temperature_intervals.size() - 1;
+        // outside of the intervals: the last one that starts below the temperature, or the first
+        k = 0;
+        for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
+        {
+            if (thermo_parameters.temperature_intervals[i].size() > 1 && thermo_parameters.temperature_intervals[i][0] <= TK_)
+                k = i;
+        }
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
                            "The temperature is not inside the specified interval for the substance {}.",
                            __FILE__, __LINE__, static_cast<double>(TK_), substance.symbol());
     }
 
-    //k = 0; fix
+    if (std::isnan(TK_.val) || k >= int(thermo_parameters.Cp_coeff.size()))
+    {
+        errorModelParameters("Cp empirical coefficients", substance.symbol() + " empirical Cp integration, no coefficients for the temperature", __LINE__, __FILE__);
+        return thermo_properties_PrTr;
+    }
 
     for (unsigned i = 0; i < thermo_parameters.Cp_coeff[k].size(); i++)
     {
@@ -90,7 +97,16 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 ac[8] / TK +
                 ac[9] * (pow(TK, (1 / 2))) /*+ ac[10]*log(T)*/);
 
-    for (unsigned j = 0, ft = 0; j <= k; j++)
+    for (int j = 0; j < k; j++)
+    {
+        if (thermo_parameters.temperature_intervals[j].size() < 2 || thermo_parameters.temperature_intervals[j+1].empty())
+        {
+            errorModelParameters("temperature intervals", substance.symbol() + " empirical Cp integration", __LINE__, __FILE__);
+            return thermo_properties_PrTr;
+        }
+    }
+
+    for (int j = 0, ft = 0; j <= k; j++)
     {
         if (j == k)
             TK = TK_.val /* + C_to_K*/; // current T is the end T for phase transition Cp calculations
@@ -119,7 +135,8 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
             RaiseError(exception)
         }
 
-        if (j && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
+        if (j && ft < int(thermo_parameters.phase_transition_prop.size()) && thermo_parameters.phase_transition_prop[ft].size() > 0 &&
+            thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
         {                                                               // Adding parameters of phase transition
             if (thermo_parameters.phase_transition_prop[ft].size() > 1) // dS
                 S += thermo_parameters.phase_transition_prop[ft][1];
-- 
2.43.0


From 3490953da9b64aea14a0dc4350917f23121dcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:40 +0000
Subject: [PATCH 010/109] fix: heat capacity term in the square root of
 temperature

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 77799ca..cfb0182 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -95,7 +95,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 ac[6] * (TK * TK * TK * TK) +
                 ac[7] / (TK * TK * TK) +
                 ac[8] / TK +
-                ac[9] * (pow(TK, (1 / 2))) /*+ ac[10]*log(T)*/);
+                ac[9] * (pow(TK, 0.5)) /*+ ac[10]*log(T)*/);
 
     for (int j = 0; j < k; j++)
     {
-- 
2.43.0


From a3948c60fbf565a174aa1ef2a036111c22674ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:43 +0000
Subject: [PATCH 011/109] fix: take every component of a reaction in water at
 the saturation pressure when the pressure is zero

---
 ThermoFun/ThermoEngine.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 330278d..fb482dc 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -12,6 +12,7 @@
 #include "ThermoModelsReaction.h"
 
 #include "OptimizationUtils.h"
+#include "Substances/Solvent/Reaktoro/WaterConstants.hpp"
 #include <functional>
 
 namespace ThermoFun
@@ -207,6 +208,26 @@ struct ThermoEngine::Impl
         return symbol;
     }
 
+    /// At pressure zero the components of a reaction in water are all taken at the saturation pressure,
+    /// whichever of them is evaluated first
+    auto setSaturationPressure(double T, double &P, const Reaction &reaction) const -> void
+    {
+        const auto solvent = solventInUse();
+        if (P != 0 || !(T < waterCriticalTemperature) || !database.containsSubstance(solvent))
+            return;
+        for (const auto &reactant : reaction.reactants())
+        {
+            if (!database.containsSubstance(reactant.first))
+                continue;
+            const auto substanceClass = database.getSubstance(reactant.first).substanceClass();
+            if (substanceClass == SubstanceClass::type::AQSOLUTE || substanceClass == SubstanceClass::type::AQSOLVENT)
+            {
+                properties_solvent_fn(T, P, P, solvent, -1);
+                return;
+            }
+        }
+    }
+
     auto getThermoPreferencesSubstance(const Substance &substance) const -> WorkPreferences
     {
         WorkPreferences workPreferences;
@@ -704,6 +725,7 @@ struct ThermoEngine::Impl
     {
         ThermoPropertiesReaction tpr;
         WorkPreferences pref = getThermoPreferencesReaction(reaction);
+        setSaturationPressure(T, P, reaction);
 
         if (!pref.isReacFromReactants)
         {
@@ -827,6 +849,7 @@ struct ThermoEngine::Impl
         tpr.reaction_helmholtz_energy = 0.0;
 
         ScopedFlag correction(preferences.apply_pressure_correction_to_gas_props, true);
+        setSaturationPressure(T, P, reaction);
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
-- 
2.43.0


From 8dd0229305e57a89cca405c856a365b07b2ec979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:42 +0000
Subject: [PATCH 012/109] fix: propagate uncertainties of arithmetic to first
 order

---
 ThermoFun/Common/ThermoScalar.hpp | 60 +++++++++----------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index a6cc69d..c89e3c5 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -141,14 +141,10 @@ public:
     template<typename VR>
     ThermoScalarBase& operator*=(const ThermoScalarBase<VR>& other)
     {
-        const double tmp_err = err / val;
+        err  = std::hypot(err * other.val, val * other.err);
         ddt  = ddt * other.val + val * other.ddt;
         ddp  = ddp * other.val + val * other.ddp;
         val *= other.val;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -164,14 +160,10 @@ public:
     {
         const double tmp1 = 1.0/other.val;
         const double tmp2 = tmp1 * tmp1;
-        const double tmp_err = err / val;
+        err  = std::hypot(err * other.val, val * other.err) * tmp2;
         ddt  = (ddt * other.val - val * other.ddt) * tmp2;
         ddp  = (ddp * other.val - val * other.ddp) * tmp2;
         val *= tmp1;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -198,26 +190,17 @@ public:
     /// Assign-multiplication of a ThermoScalar instance
     ThermoScalarBase& operator*=(double other)
     {
-        const double tmp_err = err/val*err/val;
         val *= other;
         ddt *= other;
         ddp *= other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
+        err *= std::fabs(other);
         return *this;
     }
 
     /// Assign-division of a ThermoScalar instance
     ThermoScalarBase& operator/=(double other)
     {
-        const double tmp_err = err/val*err/val;
         *this *= 1.0/other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
         return *this;
     }
 
@@ -285,8 +268,7 @@ inline auto status(const ThermoScalarBase<VL>& l) -> StatusMessage
 template<typename V>
 inline auto operator+(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
 {
-    l.sta = status(l);
-    return l;
+    return {l.val, l.ddt, l.ddp, l.err, status(l)};
 }
 
 /// Add two ThermoScalar instances
@@ -340,22 +322,14 @@ inline auto operator-(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
 template<typename VL, typename VR>
 inline auto operator*(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& r) -> ThermoScalarBase<double>
 {
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, (l.val * r.val)*std::sqrt(a+b), status(l,r)};
+    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, std::hypot(l.err * r.val, l.val * r.err), status(l,r)};
 }
 
 /// Left-multiply a ThermoScalar instance by a scalar
 template<typename V>
 inline auto operator*(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBase<double>
 {
-    if (r.val == 0)
-        return {l * r.val, l * r.ddt, l * r.ddp, 0.0, status(r)};
-    auto err = (l * r.val)*std::sqrt(r.err/r.val*r.err/r.val);
-    return {l * r.val, l * r.ddt, l * r.ddp, err, status(r)};
+    return {l * r.val, l * r.ddt, l * r.ddp, l * r.err, status(r)};
 }
 
 /// Right-multiply a ThermoScalar instance by a scalar
@@ -371,12 +345,7 @@ inline auto operator/(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>&
 {
     const double tmp1 = 1.0/r.val;
     const double tmp2 = tmp1 * tmp1;
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), (tmp1 * l.val)*std::sqrt(a+b), status(l,r)};
+    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), tmp2 * std::hypot(l.err * r.val, l.val * r.err), status(l,r)};
 }
 
 /// Left-divide a ThermoScalar instance by a scalar
@@ -387,7 +356,7 @@ inline auto operator/(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
     const double tmp2 = -l*tmp1*tmp1;
     if (r.val == 0)
         return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, 0.0, status(r)};
-    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, (tmp1 * r.val)*std::sqrt(r.err/r.val*r.err/r.val), status(r)};
+    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, tmp2 * r.err, status(r)};
 }
 
 /// Right-divide a ThermoScalar instance by a scalar
@@ -405,7 +374,7 @@ inline auto sqrt(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 0.5 * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0,0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.5*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -415,8 +384,11 @@ inline auto pow(const ThermoScalarBase<V>& l, double power) -> ThermoScalarBase<
     const double tmp1 = std::pow(l.val, power);
     const double tmp2 = power * tmp1/l.val;
     if (l.val == 0)
-        return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, std::fabs(power)*(l.err/l.val), status(l)};
+    {
+        const double slope = power == 1.0 ? 1.0 : 0.0;
+        return {tmp1, slope * l.ddt, slope * l.ddp, slope * l.err, status(l)};
+    }
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -428,7 +400,7 @@ inline auto pow(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& power
     const double tmp = power.val/l.val;
     if (l.val == 0)
         return {powl, powl * (logl * power.ddt + /*tmp * l.ddt*/0.0), powl * (logl * power.ddp + /*tmp * l.ddp*/0.0), 0.0, status(l,power)};
-    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl*(l.err/l.val), status(l,power)};
+    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl * std::hypot(tmp * l.err, logl * power.err), status(l,power)};
 }
 
 /// Return the natural exponential of a ThermoScalar instance
@@ -447,7 +419,7 @@ inline auto log(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 1.0/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.434*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the log10 of a ThermoScalar instance
-- 
2.43.0


From fe55b9830c84a7e063a61ace5bd5f76bae6c108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:42 +0000
Subject: [PATCH 013/109] fix: powers of bar are powers of a pressure

---
 ThermoFun/Common/Units.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 373dfcd..c099aa9 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -395,11 +395,11 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"K^0.5"        , {{1, "K", 0.5}}},
     {"K^1.5"        , {{1, "K", 1.5}}},
 
-    {"bar^2"          , {{1, "K", 2}}},
-    {"bar^3"          , {{1, "K", 3}}},
-    {"bar^4"          , {{1, "K", 4}}},
-    {"bar^5"          , {{1, "K", 5}}},
-    {"bar^0.5"        , {{1, "K", 0.5}}}
+    {"bar^2"          , {{1, "bar", 2}}},
+    {"bar^3"          , {{1, "bar", 3}}},
+    {"bar^4"          , {{1, "bar", 4}}},
+    {"bar^5"          , {{1, "bar", 5}}},
+    {"bar^0.5"        , {{1, "bar", 0.5}}}
 };
 
 map<string, TemperatureUnit> temperatureUnitsMap =
-- 
2.43.0


From 7f4c05e014affff772ff3a30ada87a35f3f68133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 014/109] fix: keep fractional powers in the dimension of a
 unit

---
 ThermoFun/Common/Units.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index c099aa9..2054729 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -478,13 +478,13 @@ double factor(const DerivedUnit& derivedUnit)
     return factor(derivedUnit, 0);
 }
 
-void removeZero(map<string, int>& res)
+void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
         if(iter->second == 0) res.erase(iter++); else ++iter;
 }
 
-void dimension(const string& symbol, int multpower, map<string, int>& res)
+void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
@@ -494,24 +494,24 @@ void dimension(const string& symbol, int multpower, map<string, int>& res)
         dimension(unit.symbol, unit.power * multpower, res);
 }
 
-void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, int>& res)
+void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, double>& res)
 {
     if(pos == derivedUnit.size()) return;
     dimension(derivedUnit[pos].symbol, derivedUnit[pos].power, res);
     dimension(derivedUnit, pos + 1, res);
 }
 
-map<string, int> dimension(const string& symbol)
+map<string, double> dimension(const string& symbol)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(symbol, 1, res);
     removeZero(res);
     return res;
 }
 
-map<string, int> dimension(const DerivedUnit& derivedUnit)
+map<string, double> dimension(const DerivedUnit& derivedUnit)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(derivedUnit, 0, res);
     removeZero(res);
     return res;
-- 
2.43.0


From 1c5d58e801518e166caca301896ede4622331a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 015/109] fix: tesla is weber per square metre

---
 ThermoFun/Common/Units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 2054729..3f23c96 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -359,7 +359,7 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"webers"       , {{1, "Wb" , 1}}},
 
     // Magnetic Flux Density Units
-    {"T"            , {{1 , "Wb" , 1}, {1 , "m", 2}}},
+    {"T"            , {{1 , "Wb" , 1}, {1 , "m", -2}}},
     {"gauss"        , {{0.0001 , "T", 1}}},
     {"tesla"        , {{1, "T", 1}}},
     {"teslas"       , {{1, "T", 1}}},
-- 
2.43.0


From 5ec25e9082d5243567b5f9c25ec6e7e5f10e9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 016/109] fix: pure numbers are no dimension of a unit

---
 ThermoFun/Common/Units.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 3f23c96..1df1f94 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -478,10 +478,11 @@ double factor(const DerivedUnit& derivedUnit)
     return factor(derivedUnit, 0);
 }
 
+// Remove what is no dimension: zero powers and the pure number "1"
 void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
-        if(iter->second == 0) res.erase(iter++); else ++iter;
+        if(iter->second == 0 || iter->first == "1") res.erase(iter++); else ++iter;
 }
 
 void dimension(const string& symbol, double multpower, map<string, double>& res)
-- 
2.43.0


From 08bb6fbac18313cf51a7e0828dc46364074e63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 017/109] fix: temperature units within an expression measure
 temperature differences

---
 ThermoFun/Common/Units.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 1df1f94..03c87a8 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -456,7 +456,12 @@ double convertTemperature(double value, const string& from, const string& to)
 
 double factor(const string& symbol)
 {
-    if(temperatureUnitsMap.count(symbol)) return 1.0;
+    if(temperatureUnitsMap.count(symbol))
+    {   // within an expression a temperature unit is the size of its degree
+        if(symbol == "K") return 1.0;
+        const auto& unit = temperatureUnitsMap[symbol];
+        return factor(unit.symbol)/unit.factor;
+    }
     checkDerivedUnit(symbol);
     const auto& units = derivedUnitsMap[symbol];
     if(units.front().symbol == symbol) return pow(units.front().factor, units.front().power);
@@ -487,7 +492,7 @@ void removeZero(map<string, double>& res)
 
 void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
-    if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
+    if(temperatureUnitsMap.count(symbol)) { res["K"] += multpower; return; }
     checkDerivedUnit(symbol);
     const auto& units = derivedUnitsMap[symbol];
     if(units.front().symbol == symbol) res[units.front().symbol] += units.front().power * multpower;
-- 
2.43.0


From bbb806281c900546f601540ce55d7448d0752dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 018/109] fix: report unit strings that are not well formed

---
 ThermoFun/Common/Units.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 03c87a8..b1662eb 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -551,9 +551,14 @@ inline void unmatchedParenthesisError()
     throw std::runtime_error("*** Error *** there is unmatched parenthesis in the unit string.");
 }
 
+inline void malformedUnitError()
+{
+    throw std::runtime_error("*** Error *** the unit string is not well formed.");
+}
+
 std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
 {
-    if(symbol.empty()) return nullptr;
+    if(symbol.empty()) malformedUnitError();
 
     if(symbol[pos] == ')')
     {
@@ -562,6 +567,7 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
         if(i > 0)
         {
             string op_str    = symbol.substr(i-1, 1);
+            if(op_str != "*" && op_str != "/") malformedUnitError();
             string left_str  = symbol.substr(0, i-1);
             string right_str = symbol.substr(i+1, pos-i-1);
 
@@ -583,6 +589,8 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
         if(found == string::npos)
             return std::shared_ptr<Node>(new Node(symbol.substr(0, pos+1)));
 
+        if(found == 0 || found == pos) malformedUnitError();
+
         std::shared_ptr<Node> right(new Node());
         right->str = symbol.substr(found+1, pos-found);
 
-- 
2.43.0


From 1c15996108ab24a737bcc1c9ce58678a1eca4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:23 +0000
Subject: [PATCH 019/109] fix: adding a map of records keeps the records
 already there; define setMap functions

---
 ThermoFun/Database.cpp | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index e95ebb6..cd67a0f 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -118,13 +118,26 @@ struct Database::Impl
 
     auto addMapElements(const ElementsMap& elements) -> void
     {
-        elements_map = elements;
+        elements_map.insert(elements.begin(), elements.end());
+        setDBElements(elements_map);
+    }
+
+    auto setMapElements(const ElementsMap& elements) -> void
+    {
+        for (const auto& element : elements)
+            elements_map[element.first] = element.second;
         setDBElements(elements_map);
     }
 
     auto addMapSubstances(const SubstancesMap& substances) -> void
     {
-        substances_map = substances;
+        substances_map.insert(substances.begin(), substances.end());
+    }
+
+    auto setMapSubstances(const SubstancesMap& substances) -> void
+    {
+        for (const auto& substance : substances)
+            substances_map[substance.first] = substance.second;
     }
 
     auto addReaction(const Reaction& reaction) -> void
@@ -140,7 +153,13 @@ struct Database::Impl
 
     auto addMapReactions(const ReactionsMap& reactions) -> void
     {
-        reactions_map = reactions;
+        reactions_map.insert(reactions.begin(), reactions.end());
+    }
+
+    auto setMapReactions(const ReactionsMap& reactions) -> void
+    {
+        for (const auto& reaction : reactions)
+            reactions_map[reaction.first] = reaction.second;
     }
 
     auto getElements() const -> std::vector<Element>
@@ -452,6 +471,11 @@ auto Database::addMapElements(const ElementsMap& elements) -> void
     pimpl->addMapElements(elements);
 }
 
+auto Database::setMapElements(const ElementsMap& elements) -> void
+{
+    pimpl->setMapElements(elements);
+}
+
 auto Database::addSubstance(const Substance& substance) -> void
 {
     pimpl->addSubstance(substance);
@@ -477,6 +501,11 @@ auto Database::addMapSubstances(const SubstancesMap& substances) -> void
     pimpl->addMapSubstances(substances);
 }
 
+auto Database::setMapSubstances(const SubstancesMap& substances) -> void
+{
+    pimpl->setMapSubstances(substances);
+}
+
 auto Database::addReaction(const Reaction& reaction) -> void
 {
     pimpl->addReaction(reaction);
@@ -502,6 +531,11 @@ auto Database::addMapReactions(const ReactionsMap& reactions) -> void
     pimpl->addMapReactions(reactions);
 }
 
+auto Database::setMapReactions(const ReactionsMap& reactions) -> void
+{
+    pimpl->setMapReactions(reactions);
+}
+
 auto Database::getElement(std::string symbol) const -> const Element&
 {
     return pimpl->getElement(symbol);
-- 
2.43.0


From e4e1ed6b517907535506237a6dbf8bc6617908b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:23 +0000
Subject: [PATCH 020/109] fix: formulas use the data of elements overwritten by
 appended records

---
 ThermoFun/Database.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index cd67a0f..4c61bf0 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -431,18 +431,14 @@ auto Database::operator=(Database other) -> Database&
 
 auto Database::appendData(std::string filename) -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromFile(filename);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromJSONs(jsonRecords, _label);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::addElement(const Element& element) -> void
-- 
2.43.0


From 7950e18358853ae4aead00b000c1f10eb26704a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:23 +0000
Subject: [PATCH 021/109] fix: ordering of elements is a strict order that
 agrees with their equality

---
 ThermoFun/Element.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Element.cpp b/ThermoFun/Element.cpp
index b11e98e..27aee1d 100644
--- a/ThermoFun/Element.cpp
+++ b/ThermoFun/Element.cpp
@@ -226,7 +226,7 @@ auto operator<(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() < rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() < rhs.valence());
             }
         }
@@ -250,7 +250,7 @@ auto operator>(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() > rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() > rhs.valence());
             }
         }
@@ -263,7 +263,8 @@ auto operator==(const Element& lhs, const Element& rhs) -> bool
     return (lhs.symbol()        == rhs.symbol()) &&
            (lhs.name()          == rhs.name()) &&
            (lhs.class_()        == rhs.class_()) &&
-           (lhs.isotopeMass()   == rhs.isotopeMass());
+           (lhs.isotopeMass()   == rhs.isotopeMass()) &&
+           (lhs.valence()       == rhs.valence());
 }
 
 
-- 
2.43.0


From 9055f50941354d7bac83613bdb3bbd84810ec6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:23 +0000
Subject: [PATCH 022/109] fix: fields absent from a record take their default
 instead of the value read before

---
 ThermoFun/Common/ParseJsonToData.cpp | 24 ++++++++++++------------
 ThermoFun/ThermoParameters.h         |  4 ++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 2be4ad0..fb59457 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -155,7 +155,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
     if (j.contains(data)) {
         const auto& entry = j[data];
 
-        if (entry.contains("units") && entry["units"].is_array() && !entry["units"][0].is_null())
+        if (entry.contains("units") && entry["units"].is_array() && !entry["units"].empty() && !entry["units"][0].is_null())
             unit_from = entry["units"][0].get<std::string>();
 
         // Temporary fixes
@@ -169,7 +169,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
             factor = 1;
         }
 
-        if (entry.contains("values") && entry["values"].is_array() && !entry["values"][0].is_null()) {
+        if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
             value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
         }
     }
@@ -488,15 +488,15 @@ auto parseElement(const std::string &data) -> Element
         if (j.contains("number"))
             if (!j["number"].is_null())
                 e.setNumber(j["number"].get<int>());
-        double val;
-        read_value_unit(j, "entropy", val, "J/(mol*K)");
-        e.setEntropy(val);
-        read_value_unit(j, "heat_capacity", val, "J/(mol*K)");
-        e.setHeatCapacity(val);
-        read_value_unit(j, "atomic_mass", val, "g/mol");
-        e.setMolarMass(val);
-        read_value_unit(j, "volume", val, "J/bar");
-        e.setVolume(val);
+        double entropy = 0.0, heat_capacity = 0.0, atomic_mass = 0.0, volume = 0.0;
+        read_value_unit(j, "entropy", entropy, "J/(mol*K)");
+        e.setEntropy(entropy);
+        read_value_unit(j, "heat_capacity", heat_capacity, "J/(mol*K)");
+        e.setHeatCapacity(heat_capacity);
+        read_value_unit(j, "atomic_mass", atomic_mass, "g/mol");
+        e.setMolarMass(atomic_mass);
+        read_value_unit(j, "volume", volume, "J/bar");
+        e.setVolume(volume);
 
         if (j.contains("class_"))
         {
@@ -551,7 +551,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["reaction"].is_null())
                 s.setReactionSymbol(j["reaction"]);
 
-        double val;
+        double val = 0.0;
         read_value_unit(j, "mass_per_mole", val, "g/mol");
         s.setMolarMass(val);
 
diff --git a/ThermoFun/ThermoParameters.h b/ThermoFun/ThermoParameters.h
index 957a873..a9ea6d5 100644
--- a/ThermoFun/ThermoParameters.h
+++ b/ThermoFun/ThermoParameters.h
@@ -75,10 +75,10 @@ typedef std::vector<std::pair<std::string,Method>> listmethods;
 struct ThermoParametersSubstance
 {
     /// Isothermal compressibility (for condensed substances)
-    double isothermal_compresibility;
+    double isothermal_compresibility = 0.0;
 
     /// Isobaric expansivity (for condensed substances)
-    double isobaric_expansivity;
+    double isobaric_expansivity = 0.0;
 
     /// Lower and upper T limits for Cp=f(T) equation
     vvd temperature_intervals;
-- 
2.43.0


From a5fc14276d2584a7e493483f38b655e053a73f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:23 +0000
Subject: [PATCH 023/109] fix: read the pressure limits of substance and
 reaction records

---
 ThermoFun/Common/ParseJsonToData.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index fb59457..e619d81 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -574,6 +574,12 @@ auto parseSubstance(const std::string &data) -> Substance
                 if (j["limitsTP"].contains("upperT"))
                     if (!j["limitsTP"]["upperT"].is_null())
                         s.setUpperT(j["limitsTP"]["upperT"].get<double>());
+                if (j["limitsTP"].contains("lowerP"))
+                    if (!j["limitsTP"]["lowerP"].is_null())
+                        s.setLowerP(j["limitsTP"]["lowerP"].get<double>());
+                if (j["limitsTP"].contains("upperP"))
+                    if (!j["limitsTP"]["upperP"].is_null())
+                        s.setUpperP(j["limitsTP"]["upperP"].get<double>());
             }
 
         if (j.contains("Tst"))
@@ -643,6 +649,12 @@ auto parseReaction(const std::string &data) -> Reaction
                 if (j["limitsTP"].contains("upperT"))
                     if (!j["limitsTP"]["upperT"].is_null())
                         r.setUpperT(j["limitsTP"]["upperT"].get<double>());
+                if (j["limitsTP"].contains("lowerP"))
+                    if (!j["limitsTP"]["lowerP"].is_null())
+                        r.setLowerP(j["limitsTP"]["lowerP"].get<double>());
+                if (j["limitsTP"].contains("upperP"))
+                    if (!j["limitsTP"]["upperP"].is_null())
+                        r.setUpperP(j["limitsTP"]["upperP"].get<double>());
             }
 
         if (j.contains("Tst"))
-- 
2.43.0


From c9cda0611128942adcf0a9f688ee1d93ff3222e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 024/109] fix: records can select the Holland-Powell and
 Anderson models of dissolved species

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 ++
 ThermoFun/GlobalVariables.h          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index e619d81..4684944 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -233,6 +233,8 @@ auto setTPMethods_old(const SubstanceTPMethodType &type, Substance &s) -> void
     case SubstanceTPMethodType::water_diel_jnort91_gems:
     case SubstanceTPMethodType::water_diel_sverj14:
     case SubstanceTPMethodType::water_diel_fern97:
+    case SubstanceTPMethodType::solute_holland_powell98:
+    case SubstanceTPMethodType::solute_anderson91:
         s.setMethodGenEoS(MethodGenEoS_Thrift::type(new_old_s_methodtype.at(type)));
         break;
     case SubstanceTPMethodType::landau_holland_powell98:
diff --git a/ThermoFun/GlobalVariables.h b/ThermoFun/GlobalVariables.h
index 8fd9466..1bf067b 100644
--- a/ThermoFun/GlobalVariables.h
+++ b/ThermoFun/GlobalVariables.h
@@ -519,6 +519,8 @@ static const std::map<const SubstanceTPMethodType, const int> new_old_s_methodty
   {SubstanceTPMethodType::water_diel_jnort91_gems, 118},
   {SubstanceTPMethodType::water_diel_sverj14, 120},
   {SubstanceTPMethodType::water_diel_fern97, 121},
+  {SubstanceTPMethodType::solute_holland_powell98, 122},
+  {SubstanceTPMethodType::solute_anderson91, 123},
   {SubstanceTPMethodType::landau_holland_powell98, 201},
   {SubstanceTPMethodType::landau_berman88, 202},
   {SubstanceTPMethodType::cp_ft_equation_saxena86, 203},
-- 
2.43.0


From 9fc2cb771b2ee46825871f372d75278f25f4f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 025/109] fix: read the documented coefficient fields of
 Birch-Murnaghan, volume, Berman and Holland-Powell models

---
 ThermoFun/Common/ParseJsonToData.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 4684944..d1a1f81 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -363,7 +363,8 @@ auto thermoParamSubst(const json &j, std::string prop_name, ThermoParametersSubs
     std::string kbuf;
 
     read_values_units(j, "eos_akinfiev_diamond_coeffs", ps.Cp_nonElectrolyte_coeff, {"1", "(cm^3)/g", "(cm^3*K^0.5)/g"});
-    // ps.volume_BirchM_coeff = read_values_units(j, "eos_birch_murnaghan_coeffs", {});
+    read_values_units(j, "eos_birch_murnaghan_coeffs", ps.volume_BirchM_coeff, {});
+    read_values_units(j, "m_volume_fpt_coeffs", ps.volume_coeff, {});
     read_values_units(j, "eos_gas_crit_props", ps.critical_parameters, {"K", "bar", "1", "1"});
     read_values_units(j, "eos_hkf_coeffs", ps.HKF_parameters, {"cal/(mol*bar)", "cal/mol", "(cal*K)/(mol*bar)", "(cal*K)/mol", "cal/(mol*K)", "(cal*K)/mol", "cal/mol"});
 
@@ -391,7 +392,11 @@ auto thermoParamSubst(const json &j, std::string prop_name, ThermoParametersSubs
         ps.phase_transition_prop.push_back(ph);
     read_values_units(j, "m_landau_phase_trans_props", ps.m_landau_phase_trans_props, {"degC", "J/(mol*K)", "J/bar"});
     read_values_units(j, "solute_holland_powell98_coeff", ps.solute_holland_powell98_coeff, {"kJ/(mol*K^2)"});
-    // ps.phase_transition_prop_Berman.push_back(read_values_units(j, "", {});
+    read_values_units(j, "solute_holland_powell98_coeffs", ps.solute_holland_powell98_coeff, {"kJ/(mol*K^2)"});
+    std::vector<double> berman;
+    read_values_units(j, "m_berman_phase_trans_props", berman, {});
+    if (berman.size() > 0)
+        ps.phase_transition_prop_Berman.push_back(berman);
 }
 
 auto thermoParamReac(const json &j, ThermoParametersReaction &pr) -> void
-- 
2.43.0


From 005ce57be5add89e9bf87205b671f07493295bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 026/109] fix: read expansivity and compressibility also for
 records without TPMethods

---
 ThermoFun/Common/ParseJsonToData.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index d1a1f81..143fdcb 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -351,9 +351,6 @@ auto getTPMethods(const json &j, Substance &s) -> void
         }
     }
 
-    read_value_unit(j, "m_expansivity", ps.isobaric_expansivity, "1/K");
-    read_value_unit(j, "m_compressibility", ps.isothermal_compresibility, "kbar");
-
     s.setThermoParameters(ps);
 }
 
@@ -601,6 +598,10 @@ auto parseSubstance(const std::string &data) -> Substance
         if (j.contains("TPMethods"))
             if (!j["TPMethods"].is_null())
                 getTPMethods(j, s);
+        ThermoParametersSubstance ps = s.thermoParameters();
+        read_value_unit(j, "m_expansivity", ps.isobaric_expansivity, "1/K");
+        read_value_unit(j, "m_compressibility", ps.isothermal_compresibility, "kbar");
+        s.setThermoParameters(ps);
         // if no TPMethod is given but there is a reaction which defines the properties of the given substance
         if (!j.contains("TPMethods") && j.contains("reaction"))
             if (!j["reaction"].is_null())
-- 
2.43.0


From 8ec90d7e46084df230b24f4bbdb4b3063fb09d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 027/109] fix: sum the coefficients of a species repeated in an
 equation, and drop the species of the previous equation

---
 ThermoFun/Reaction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 86a9395..0169ecd 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -125,6 +125,7 @@ struct Reaction::Impl
         std::string  str_products = equation.substr( eqpos+1);
         double coef = 1.;
         std::string reactant;
+        reactants.clear();
 
         std::vector<std::string> parts = regexp_split(str_reactants,  "\\s+\\+\\s+" /*"\\s+"*/ );
         for( const auto& el: parts)
@@ -132,7 +133,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef*(-1.);
+                reactants[reactant] += coef*(-1.);
         }
 
         parts = regexp_split(str_products, "\\s+\\+\\s+" /*"\\s+"*/ );
@@ -141,7 +142,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef;
+                reactants[reactant] += coef;
         }
     }
 };
-- 
2.43.0


From 1f35b4e29481802f6e3fe55e66b0314b02e72dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 028/109] fix: sum Cv, internal and Helmholtz energy over all
 components of a reaction

---
 ThermoFun/ThermoEngine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index fb482dc..525b551 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -874,9 +874,9 @@ struct ThermoEngine::Impl
             tpr.reaction_volume             += tps.volume*coeff;
             tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
-            tpr.reaction_heat_capacity_cv = tps.heat_capacity_cv*coeff;
-            tpr.reaction_internal_energy  = tps.internal_energy*coeff;
-            tpr.reaction_helmholtz_energy = tps.helmholtz_energy*coeff;
+            tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
+            tpr.reaction_internal_energy    += tps.internal_energy*coeff;
+            tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
             setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-- 
2.43.0


From 30913d0cc860de948e9aba6caa23bc620f08a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 029/109] fix: complete reference enthalpy and entropy of a
 reaction at the reference temperature

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index e99d572..136c682 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -74,9 +74,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     const bool has_dGr = dGr.sta.first != Status::notdefined;
 
     if(has_dSr && has_dGr && !has_dHr)
-        dHr = dGr + dSr * TK;
+        dHr = dGr + dSr * Tr;
     if(has_dHr && has_dGr && !has_dSr)
-        dSr = (dHr-dGr)/TK;
+        dSr = (dHr-dGr)/Tr;
 
     if (CE == MethodCorrT_Thrift::type::CTM_EK3)
         CE = determineMethod(dGr,dHr,dSr,dCpr);
-- 
2.43.0


From d1656e1239ab392800c07ef204c2b01f5ed84f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 030/109] fix: integrate the heat capacity function of a
 reaction from the reference temperature

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index 136c682..a145ab2 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -119,11 +119,11 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff.resize(5, 0.0);
 
                 // calculation of logK=f(T) coeffs (only first 5 Cp coefficients, conforming to Haas-Fisher function)
-                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(TK) - CpCoeff[1]*TK + CpCoeff[2]/(2.0*TK*TK)
-                              + 2.0*CpCoeff[3]/pow(TK,0.5) - CpCoeff[4]*TK*TK/2.0 ) / Rln10).val;
+                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(Tr) - CpCoeff[1]*Tr + CpCoeff[2]/(2.0*Tr*Tr)
+                              + 2.0*CpCoeff[3]/pow(Tr,0.5) - CpCoeff[4]*Tr*Tr/2.0 ) / Rln10).val;
                 A[1] = CpCoeff[1]/(2.0*Rln10);
-                A[2] = (-( dHr - CpCoeff[0]*TK - CpCoeff[1]*TK*TK/2.0 + CpCoeff[2]/TK
-                           - 2.0*CpCoeff[3]*pow(TK,0.5) - CpCoeff[4]*TK*TK*TK/3.0 ) / Rln10).val;
+                A[2] = (-( dHr - CpCoeff[0]*Tr - CpCoeff[1]*Tr*Tr/2.0 + CpCoeff[2]/Tr
+                           - 2.0*CpCoeff[3]*pow(Tr,0.5) - CpCoeff[4]*Tr*Tr*Tr/3.0 ) / Rln10).val;
                 A[3] = CpCoeff[0]/Rln10;
                 A[4] = CpCoeff[2]/(2.0*Rln10);
                 A[5] = CpCoeff[4]/(6.0*Rln10);
-- 
2.43.0


From 88f8ef2fe7d8d5d647077e7a9307a3400cf1e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 031/109] fix: report a logK(T) reaction without coefficients
 and do not read short coefficient vectors beyond their end

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index a145ab2..4e9920f 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -1,6 +1,7 @@
 #include "LogK_function_of_T.h"
 #include "ThermoParameters.h"
 #include "Reaction.h"
+#include "Common/Exception.h"
 #include <algorithm>
 
 namespace ThermoFun {
@@ -112,6 +113,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
           break;
        case MethodCorrT_Thrift::type::CTM_LGK:  // full 7-term logK approx
        case MethodCorrT_Thrift::type::CTM_LGX:  // (derived from dCp=f(T))
+            if (A.size() == 0 && CpCoeff.size() == 0)
+                errorModelParameters("logKfT", "logK or Cp function of temperature for reaction " + reaction.symbol(), __LINE__, __FILE__);
+
             if (A.size() == 0 && CpCoeff.size() > 0)
             {
                 //from Cp to A
@@ -143,6 +147,10 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff[4] = Rln10 * 6.0 * A[5];
             }
 
+            // short vectors: the terms left out are zero
+            A.resize(7, 0.0);
+            CpCoeff.resize(5, 0.0);
+
             lgK = A[0] + A[1] * TK + A[2]/TK + A[3] * log(TK) + A[4] / (TK*TK) +
                   A[5] * (TK*TK) + A[6] / pow(TK,0.5);
             dHr = Rln10 *( A[1]*(TK*TK) - A[2] + A[3]*TK - 2.0*A[4]/TK
-- 
2.43.0


From 5a9dd24b529d3586746566d670e00fdb837e9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 032/109] fix: one- and two-term extrapolations of a reaction
 have the enthalpy, entropy and heat capacity they assume

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index 4e9920f..4e3e5e1 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -87,20 +87,21 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     {
         case MethodCorrT_Thrift::type::CTM_EK0: // 1-term lgK = const
         // lgK = A[0];
-        // dCpr = 0.0;
-        // dHr  = 0.0;
+            dCpr = 0.0;
+            dHr  = 0.0;
+            dSr  = Rln10 * lgK;
             break;
         case MethodCorrT_Thrift::type::CTM_EK1: // 1-term dGr = const
                 // lgK = A[2]/T;
-            // dCpr = 0.0;
-            // dSr  = 0.0;
+            dCpr = 0.0;
+            dSr  = 0.0;
             dHr = dGr;
                 // dGr_d = dHr;
             lgK  = - dHr / TK / Rln10;
           break;
         case MethodCorrT_Thrift::type::CTM_EK2:  // 2-term or 1-term lgK=const at dHr=0
                 // lgK = A[0] + A[2]/T;
-            // dCpr = 0.0;
+            dCpr = 0.0;
                 // dGr_d = dHr - dSr * T;
             lgK  = (dSr - dHr/TK ) / Rln10;
           break;
-- 
2.43.0


From c7d01266d5f660af7a1eaeb7c9f23f806ba25d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 033/109] fix: a reaction enthalpy given as zero alone means a
 constant logK; internal and Helmholtz energies also at zero enthalpy

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index 4e3e5e1..0735896 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -29,9 +29,8 @@ MethodCorrT_Thrift::type determineMethod(const Reaktoro_::ThermoScalar& dGr,
         return MethodCorrT_Thrift::type::CTM_EK2;
     }
 
-    // --- EK1: one defined AND that one equals zero ---
-    if ((has_dHr && dHr.val == 0.0) ||
-        (has_dSr && dSr.val == 0.0))
+    // --- EK1: entropy defined and equal to zero (an enthalpy equal to zero is EK0) ---
+    if (has_dSr && dSr.val == 0.0)
     {
         return MethodCorrT_Thrift::type::CTM_EK1;
     }
@@ -172,12 +171,8 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     // Calculation of dGr
     dGr  = -R_T * lgK * lg_to_ln;
 //    if (dHr.val == 0) dHr = dGr + dSr * TK;
-    Reaktoro_::ThermoScalar dUr, dAr;
-    if (dHr.val != 0)
-    {
-        dUr  = dHr - Pbar*dVr;
-        dAr  = dUr - TK*dSr;
-    }
+    auto dUr  = dHr - Pbar*dVr;
+    auto dAr  = dUr - TK*dSr;
 
     // Loading output data
     tpr.log_equilibrium_constant   = lgK;
-- 
2.43.0


From 5eacf14612f10614a0de2e2f3822a2252500761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 034/109] fix: the constant volume correction of a reaction
 changes ln K, log K and Gibbs energy alike

---
 ThermoFun/ThermoEngine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 525b551..7f52c6f 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -799,8 +799,8 @@ struct ThermoEngine::Impl
                 auto VP = tpr.reaction_volume * (P_ - Pref);
                 tpr.reaction_gibbs_energy += VP;
                 tpr.reaction_enthalpy += VP;
-                auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
-                tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
+                tpr.log_equilibrium_constant -= VP / (R_CONSTANT * T) / lg_to_ln;
+                tpr.ln_equilibrium_constant = tpr.log_equilibrium_constant * lg_to_ln;
                 tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
                 tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
-- 
2.43.0


From 0ccbeab75a1715f1a4a65885f27650dc2221a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 035/109] fix: calculate reactions described by a heat capacity
 function alone

---
 ThermoFun/ThermoEngine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 7f52c6f..9ef9225 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -741,6 +741,12 @@ struct ThermoEngine::Impl
                 pref.method_T = MethodCorrT_Thrift::type::CTM_LGK;
                 break;
             }
+            case MethodGenEoS_Thrift::type::CTPM_CPT:
+            {
+                if (!pref.method_T)
+                    pref.method_T = MethodCorrT_Thrift::type::CTM_LGX;
+                break;
+            }
             }
 
             if (pref.method_genEOS != MethodGenEoS_Thrift::type::CTPM_CON)
-- 
2.43.0


From eeba16b3281c0c205cd32dcf1520bed8dd36b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 036/109] fix: Dolejs-Manning reactions use the Dolejs-Manning
 model

---
 ThermoFun/ThermoModelsReaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/ThermoModelsReaction.cpp b/ThermoFun/ThermoModelsReaction.cpp
index ad59aa4..a8715b9 100644
--- a/ThermoFun/ThermoModelsReaction.cpp
+++ b/ThermoFun/ThermoModelsReaction.cpp
@@ -35,7 +35,7 @@ auto ReactionDolejsManning10::thermoProperties(double T, double P, PropertiesSol
     auto t = Reaktoro_::Temperature(T);
     auto p = Reaktoro_::Pressure(P); p /= bar_to_Pa;
 
-    return thermoPropertiesFrantzMarshall(t, p, pimpl->reaction, wp);
+    return thermoPropertiesDolejsManning2010(t, p, pimpl->reaction, wp);
 }
 
 //=======================================================================================================
-- 
2.43.0


From f85e6394a05c401f9eba700b4a0e90df9754d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 037/109] fix: density models report the decimal logarithm of
 the equilibrium constant

---
 ThermoFun/Reactions/DolejsManning2010.cpp | 3 ++-
 ThermoFun/Reactions/FrantzMarshall.cpp    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index aa20847..cdae3be 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -38,7 +38,8 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
     // if (std::fabs((-R_CONSTANT*TK*lnK) - dGr) > 0.1)
            // Error( GetName(),"DM denisty model: dGr and lnK not consistent!");
 
-    tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
+    tpr.ln_equilibrium_constant    = lnK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index f5bbce7..22a1223 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -46,6 +46,7 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dUr  = dHr - Pbar*dVr;
     auto dAr  = dUr - TK*dSr;
 
+    tpr.log_equilibrium_constant   = logK;
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
-- 
2.43.0


From 5e8b8a6de2aeb1577f2bed5fba535f5de622999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 038/109] fix: internal energy of Ryzhenko-Bryzgalin reactions
 uses the volume in J/bar

---
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index d2e7c9b..3808e2e 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -60,7 +60,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dSr  = R_CONSTANT*log(10.)/zzH2O * ( dI*J + dJ*I );
     auto dCPr = R_CONSTANT*log(10.)/zzH2O * TK * ( d2I*J + 2.*dI*dJ + d2J*I );
     auto dVr  = - R_CONSTANT*log(10.)/zzH2O * ( e*TK + f + g/TK ) * 1./(RHO*log(10.))
-                * dRHOdP * ( A + B/TK);
+                * dRHOdP * ( A + B/TK) * 1e5; // to J/bar
     auto dHr  = dGr + dSr*TK;
     auto dUr  = dHr - Pbar*dVr;
     auto dAr  = dUr - TK*dSr;
@@ -71,7 +71,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     tpr.reaction_entropy           = dSr;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_heat_capacity_cp  = dCPr;
-    tpr.reaction_volume            = dVr*1e5; // to J/bar
+    tpr.reaction_volume            = dVr;
     tpr.reaction_helmholtz_energy  = dAr;
     tpr.reaction_internal_energy   = dUr;
 
-- 
2.43.0


From 364dd8f96a3b7e68ba1404ceee917d0a2514e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 039/109] fix: read the enthalpy coefficient of Dolejs-Manning
 reactions in the unit the model uses

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 143fdcb..c05c803 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -408,7 +408,7 @@ auto thermoParamReac(const json &j, ThermoParametersReaction &pr) -> void
     read_values_units(j, "dr_volume_fpt_coeffs", pr.reaction_V_fT_coeff, {"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"});
     read_values_units(j, "dr_ryzhenko_coeffs", pr.reaction_RB_coeff, {"1", "1", "1"});
     read_values_units(j, "dr_marshall_franck_coeffs", pr.reaction_FM_coeff, {"1", "K", "K^2", "K^3", "1", "K", "K^2"});
-    read_values_units(j, "dr_dolejs_manning10_coeffs", pr.reaction_DM10_coeff, {"kJ/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"});
+    read_values_units(j, "dr_dolejs_manning10_coeffs", pr.reaction_DM10_coeff, {"J/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"});
 }
 
 auto thermoRefPropSubst(const json &j) -> ThermoPropertiesSubstance
-- 
2.43.0


From f027f62178f39dad772d9cbc72487d3de49374a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 040/109] fix: the logK(T) coefficients of a reaction that has
 them are those of its record

---
 ThermoFun/Reaction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 0169ecd..42f6ab0 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -480,8 +480,14 @@ auto Reaction::calc_logK_fT_coefficients() -> vd
     { // calculation 2- and 3-term param approximation
     case MethodCorrT_Thrift::type::CTM_DKR: // 3-term extrap. from Franck-Marshall density model
     case MethodCorrT_Thrift::type::CTM_MRB: // 3-term extrap. from MRB at 25 C (provisional DK 06.08.07)
+        break;
     case MethodCorrT_Thrift::type::CTM_LGK:  // Here, all logK-f(T) coeffs are given
     case MethodCorrT_Thrift::type::CTM_LGX:  // uncommented, 19.06.2008
+        if (!pimpl->thermo_parameters.reaction_logK_fT_coeff.empty())
+        {
+            K_fT_Coeff = pimpl->thermo_parameters.reaction_logK_fT_coeff;
+            K_fT_Coeff.resize(7, 0.0);
+        }
         break;
     case MethodCorrT_Thrift::type::CTM_IKZ:  // Isotopic forms
         return K_fT_Coeff;
-- 
2.43.0


From bc1a7823374359a0c4c909cff255892a7b71b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 041/109] fix: Birch-Murnaghan model: sign of the entropy
 correction, heat capacity correction

---
 .../Substances/Solids/SolidBMGottschalk.cpp      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 09364f5..11456bf 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -64,7 +64,7 @@ auto BM_Volume( Reaktoro_::Pressure P, Reaktoro_::ThermoScalar vt, Reaktoro_::Th
 // this function will be incorporated into GEM-Selektor v.2.1.0 code
 auto BirchMurnaghan( double Pref, Reaktoro_::Pressure P, Reaktoro_::Temperature Tref, Reaktoro_::Temperature T, Reaktoro_::ThermoScalar v0,
           std::vector<double> BMConst, Reaktoro_::ThermoScalar &vv, Reaktoro_::ThermoScalar &alpha, Reaktoro_::ThermoScalar &beta,
-          Reaktoro_::ThermoScalar &dG, Reaktoro_::ThermoScalar &dH, Reaktoro_::ThermoScalar &dS ) -> void
+          Reaktoro_::ThermoScalar &dG, Reaktoro_::ThermoScalar &dH, Reaktoro_::ThermoScalar &dS, Reaktoro_::ThermoScalar &dCp ) -> void
 {
 Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp, kpp, vstart,
          /*Volume, IntVol, */ Pincr, Tincr, /*Pplus, Pminus,*/ Tplus, Tminus,
@@ -76,7 +76,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     kt0Tplus = kt0Tminus = kppTplus = kppTminus = vtTplus = vtTminus = dGTplus = dGTminus = 0.0;
 
     Pincr.val = 0.01;
-    Tincr.val = 0.1;
+    Tincr.val = 1.;
        // v0 = BMConst(1) - in GEMS passed as a separate function parameter
     a1 = BMConst[0];
     a2 = BMConst[1];
@@ -134,10 +134,13 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     // calculate vdP (P-T correction of G ->  dG)
     dG = BM_IntVol(P, Pref, vt, vv, kt0, kp, kpp);
 
-    // calculate d(vdP)/dT (dS)
+    // calculate -d(vdP)/dT (dS)
     dGTplus = BM_IntVol(P,Pref,vtTplus,vTplus,kt0Tplus,kp,kppTplus);
     dGTminus = BM_IntVol(P,Pref,vtTminus,vTminus,kt0Tminus,kp,kppTminus);
-    dS = (dGTplus-dGTminus)/(2.*Tincr);
+    dS = -(dGTplus-dGTminus)/(2.*Tincr);
+
+    // calculate -T*d2(vdP)/dT2 (dCp)
+    dCp = -T*(dGTplus-2.*dG+dGTminus)/(Tincr*Tincr);
 
     // calculate dH
     dH = dG + T*dS;
@@ -165,16 +168,17 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 8 )
     {
-       Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, aC, aE;
+       Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, CC0, aC, aE;
 
        BirchMurnaghan( Pst, P, Tst, T, Vst*10., BMc,
-                       VV0, aC, aE, GG0, HH0, SS0 );
+                       VV0, aC, aE, GG0, HH0, SS0, CC0 );
        // increments to V, G, H, S
        tps.volume += Vst+VV0/10.;    // fixed by KD on 22.11.04
            // aW.twp->V += VV0/10.;
        tps.entropy      += SS0;
        tps.gibbs_energy += GG0;
        tps.enthalpy     += HH0;
+       tps.heat_capacity_cp += CC0;
 
        tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
        tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
-- 
2.43.0


From e7159deee4590369df06b60f449a612e7b15765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 042/109] fix: Birch-Murnaghan model: the volume at the
 reference conditions was added twice, or not at all

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 11456bf..fd518f4 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -173,18 +173,20 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
        BirchMurnaghan( Pst, P, Tst, T, Vst*10., BMc,
                        VV0, aC, aE, GG0, HH0, SS0, CC0 );
        // increments to V, G, H, S
-       tps.volume += Vst+VV0/10.;    // fixed by KD on 22.11.04
-           // aW.twp->V += VV0/10.;
+       tps.volume       += VV0/10.;
        tps.entropy      += SS0;
        tps.gibbs_energy += GG0;
        tps.enthalpy     += HH0;
        tps.heat_capacity_cp += CC0;
 
-       tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
-       tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
 //       aW.twp->Alp = aC;
 //       aW.twp->Bet = aE;
     }
+    else
+       tps.volume       += Vst;
+
+    tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
+    tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
 
     subst.checkCalcMethodBounds("BMGottschalk model", TK.val, Pbar.val*1e05, tps);
 
-- 
2.43.0


From 69cb01c92a8ece3f71a8f250df613566cb403f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 043/109] fix: Birch-Murnaghan model: a second pressure
 derivative of the bulk modulus given in the record was left out of the
 temperature increments

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index fd518f4..96cd57d 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -99,6 +99,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     kt0Tminus = kt00 + dkdt*(Tminus - Tref);
 
     // set kpp if not already defined and its T increments
+    kppTplus = kppTminus = kpp;
     if ( fabs(kpp.val) < 1e-20 )
     {
       kpp = -((35./9.+(3.-kp)*(4.-kp))/kt0);
@@ -161,12 +162,12 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
     auto T_Tst = T -Tst;
 
     auto BMc = subst.thermoParameters().volume_BirchM_coeff;
-    if (BMc.size() < 8)
+    if (BMc.size() < 9)
     {
         errorModelParameters("Birch M.", "BMGottschalk", __LINE__, __FILE__);
     }
 
-    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 8 )
+    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 9 )
     {
        Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, CC0, aC, aE;
 
-- 
2.43.0


From d792b21efdcbe1fcb21143ad984a170096c1d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 044/109] fix: Berman volume model: cubic thermal expansion
 term, heat capacity correction, energies at the reference conditions

---
 ThermoFun/Substances/Solids/SolidBerman88.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index b45706c..806d46f 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -13,7 +13,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto Vst = subst.thermoReferenceProperties().volume; // j/bar
     auto T   = TK;
     auto P   = Pbar; // in bar
-    auto Ts2   = Tst*Tst;
+    auto Ts2   = (T-Tst)*(T-Tst);
 
     auto vc = subst.thermoParameters().volume_coeff;
 
@@ -38,11 +38,12 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         tps.entropy      += ( - vc[0]*VP - vc[1]*VP*2.*(T-Tst) - vc[2]*VP*3*Ts2 );
         tps.gibbs_energy += ( vc[0]*(T-Tst)*VP + vc[1]*VP*Ts2 + vc[2]*VP*Ts2*(T-Tst) + vc[3]*VP*(P-Pst) / 2.
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) + vc[2]*VP*Ts2*(2.*T + Tst)
+        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
                             + vc[3]*VP*(P-Pst) / 2. + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
-        tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
+        tps.heat_capacity_cp += ( - T*VP*(2.*vc[1] + 6.*vc[2]*(T-Tst)) );
     }
+    tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
+    tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
 
     subst.checkCalcMethodBounds("Berman multisite model", TK.val, P.val*1e05, tps);
 
-- 
2.43.0


From b810d2f9aef348ef6632ebd30906d2f2c37e2437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 045/109] fix: Landau transition below the reference
 temperature gave no numbers

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index cd6790f..9409c0d 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -40,7 +40,7 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
 
     Tcr += C_to_K;
     Tcr0 += C_to_K;     // dT is a constant equal 273.15
-    auto Q298 = pow( 1.- TrK/Tcr0, 0.25 );
+    auto Q298 = TrK < Tcr0 ? pow( 1.- TrK/Tcr0, 0.25 ) : 0.;
 
     if( TK<Tcr )
     {
-- 
2.43.0


From e30649bcf8a6356b08f8e9be260ffb29732a2851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 046/109] fix: Landau transition: the volume is the pressure
 derivative of the Gibbs energy

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index 9409c0d..e6c2ade 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -8,8 +8,8 @@ namespace ThermoFun {
 
 auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    Reaktoro_::ThermoScalar Tcr, Qq, dQq;
-    Tcr = 0.0; Qq = 0.0; dQq = 0.0;
+    Reaktoro_::ThermoScalar Tcr, Qq;
+    Tcr = 0.0; Qq = 0.0;
     std::vector<double> transProp = subst.thermoParameters().m_landau_phase_trans_props;
 //    auto (P/1000) = Reaktoro::Pressure (p.val /1000);  // in kbar
     auto TrK = subst.referenceT();
@@ -45,12 +45,10 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     if( TK<Tcr )
     {
         Qq = pow( 1.- TK/Tcr, 0.25 );
-        dQq = - TK*Vmax/(4.*pow((1.+TK/Tcr),0.75)*pow(Tcr,2.)*Smax);
     }
     else
     {
         Qq = 0.;
-        dQq = 0.;
     }
 
     auto kT = k298 * (1. - (1.5e-4) * ( TK-TrK ));
@@ -63,21 +61,21 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     auto smq = Smax * Tcr0 *( pow(Q298,2.) - pow(Q298,6.)/3. );
 
     // increment thermodynamic properties
-    if (Qq == 0. && dQq == 0.)
+    // dG/dP: the order parameter makes no contribution of its own, as dG/dQ = 0
+    auto vp = v_bis * pow( (1.- 4.*(Pbar/1000)/(kT + 4.*(Pbar/1000))), 0.25 );
+    if (Qq == 0.)
     {
-        double Qq_ = 0.0; double dQq_ = 0.0;
+        double Qq_ = 0.0;
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq_,2.) + Tcr*pow(Qq_,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq_,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq_,2.) - pow(Qq_,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq_*dQq_ - Smax*pow(Qq_,2.)*Vmax/Smax + Tcr*pow(Qq_,2.)*dQq_
-                              + Vmax/Smax*pow(Qq_,3.)/3. );  // in J/bar
+        tps.volume        = ( vp - Vmax*( pow(Qq_,2.) - pow(Qq_,6.)/3.) );  // in J/bar
     } else
     {
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq,2.) + Tcr*pow(Qq,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq*dQq - Smax*pow(Qq,2.)*Vmax/Smax + Tcr*pow(Qq,2.)*dQq
-                              + Vmax/Smax*pow(Qq,3.)/3. );  // in J/bar
+        tps.volume        = ( vp - Vmax*( pow(Qq,2.) - pow(Qq,6.)/3.) );  // in J/bar
     }
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
-- 
2.43.0


From 56959a225f87c76c4aa2577ffa4f165a35c1b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 047/109] fix: Landau transition: heat capacity contribution of
 the volume

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index e6c2ade..1a75101 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -58,6 +58,13 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     auto idvdtdp = ( ((Vmax*pow(Q298,2.))*kT/3.)*(a0-10.*a0*pow(TK,-0.5)) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
                      - ((v_bis)*k298/3)*(1.5e-4) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
                      + (v_bis)*(Pbar/1000)*(1.5e-4)/(1.-(1.5e-4)*(TK-TrK)) * pow((1.+4.*(Pbar/1000)/kT),-0.25) ) * (1000.);
+    // d2(ivdp)/dT2
+    auto v298 = Vmax*pow(Q298,2.);
+    auto id2vdt2dp = ( (5./3.)*v298*a0*kT/pow(TK,1.5) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
+                     - (2./3.)*v298*(a0-10.*a0/pow(TK,0.5))*k298*(1.5e-4) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
+                     + 2.*v298*(a0-10.*a0/pow(TK,0.5))*(Pbar/1000)*(1.5e-4)/(1.-(1.5e-4)*(TK-TrK)) * pow((1.+4.*(Pbar/1000)/kT),-0.25)
+                     - v_bis*pow((Pbar/1000),2.)*pow((1.5e-4),2.) / ( pow((1.-(1.5e-4)*(TK-TrK)),3.)*k298 )
+                     * pow((1.+4.*(Pbar/1000)/kT),-1.25) ) * (1000.);
     auto smq = Smax * Tcr0 *( pow(Q298,2.) - pow(Q298,6.)/3. );
 
     // increment thermodynamic properties
@@ -77,7 +84,8 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
         tps.volume        = ( vp - Vmax*( pow(Qq,2.) - pow(Qq,6.)/3.) );  // in J/bar
     }
-    if( TK<Tcr )  // Cp is corrected at subcritical T only
+    tps.heat_capacity_cp -= TK*id2vdt2dp;
+    if( TK<Tcr )  // Cp of the transition is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
 
     tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
-- 
2.43.0


From 4dd0fe3cef0b1dededcd516992ac863a18569c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 048/109] fix: Holland and Powell model of dissolved species:
 entropy and heat capacity are derivatives of the Gibbs energy, enthalpy is G
 + TS

---
 ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
index 8fc3561..885071c 100644
--- a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
@@ -55,12 +55,15 @@ auto thermoPropertiesAqSoluteHP98(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     else
         Tprime = 500;
 
+    // derivative of T/Tprime with respect to the temperature
+    double dTT = T <= 500 ? 0. : 1./Tprime;
+
     auto G_bb = H298 - T*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
     auto G = G298 - (T - T298)*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
-    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 - log(RHOw/RHOw298)/Tprime - (T/Tprime)*ALPw);
+    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 + log(RHOw/RHOw298)*dTT - (T/Tprime)*ALPw);
     auto V = V298 + (Cp298 - T298*b)/(T298*dALPdTw298)*( -BETw298 + T/Tprime*BETw );
-    auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw))/(T298*dALPdTw298*Tprime));
-    auto H = G_bb + T*S298;
+    auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw))/(T298*dALPdTw298*Tprime) + 2.*ALPw*dTT*(Cp298 - T298*b)/(T298*dALPdTw298));
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
-- 
2.43.0


From 5b57d98df4d4b80c2be0ce49877838c402579519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 049/109] fix: Anderson density model of dissolved species:
 enthalpy is G + TS

---
 ThermoFun/Substances/Solute/SoluteAnderson91.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
index 928011d..b440469 100644
--- a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
+++ b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
@@ -35,7 +35,7 @@ auto thermoPropertiesAqSoluteAN91(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto S = S298 - (Cp298*(ALPw298 - ALPw))/(T298*dALPdTw298);
     Reaktoro_::ThermoScalar V(V298); //-(Cp298*ALPw)/(T298*dALPdTw298); // the model does not include a volume term!
     auto Cp = T*(Cp298*dALPdTw)/(T298*dALPdTw298);
-    auto H = G_bb + T*S298;
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
-- 
2.43.0


From 6f007779f202867306148b429e2fb05cc3fa5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:28 +0000
Subject: [PATCH 050/109] fix: HKF model: internal and Helmholtz energies mixed
 calories and cubic centimetres

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 8 +++-----
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 1cc3a3e..9575817 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -110,19 +110,17 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
     // GZterm = W * (-Z - 1.0e0);
 
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
 
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01; // J/bar
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 52f9f03..43a83d5 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -114,19 +114,17 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto Cp = c1 + c2/pow(TK - theta, 2) - (2*TK/pow(TK - theta, 3))*(a3*(Pbar - Pr)
         + a4*log((psi + Pbar)/(psi + Pr))) + w*TK*X + 2*TK*Y*wT + TK*(Z + 1)*wTT;
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
 
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01/**cal_to_J/bar_to_Pa*/;
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
-- 
2.43.0


From 6c4109273e7d41846c876dafca1a84306f2e04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:28 +0000
Subject: [PATCH 051/109] fix: HKF model: temperature and pressure bounds were
 compared with values in other units

---
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 43a83d5..58fd624 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -135,7 +135,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     tps.heat_capacity_cp = Cp;
     tps.heat_capacity_cv = tps.heat_capacity_cp; // approximate Cp = Cv for an aqueous solution
 
-    subst.checkCalcMethodBounds("HKF model", TK.val-C_to_K, Pbar.val, tps);
+    subst.checkCalcMethodBounds("HKF model", TK.val, Pbar.val*1e05, tps);
     if (wp.density >= 1400 || wp.density<=600)
     {
         setMessage(Reaktoro_::Status::calculated, "HKF model: outside of 600-1400 kg/m3 density of pure H2O interval", tps);
-- 
2.43.0


From 6163753f285bdd942a0992a8a7caac4992f71c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:28 +0000
Subject: [PATCH 052/109] fix: HKF model: derivatives of the g function of
 water denser than 1 g/cm3 had the wrong sign

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 9575817..7e50b0c 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -191,12 +191,14 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
 //        return g;
 
     const auto pw = fabs(1.0e0 - D.val); // insert Sveta 19/02/2000
+    const double sw = D.val > 1.0 ? -1.0 : 1.0; // sign of 1 - D, for the derivatives of pw
+    const double lnpw = pw > 0.0 ? log(pw) : 0.0; // multiplied by a power of pw everywhere below
 
     a = C[0] + C[1]*TC + C[2]*pow(TC,2.);
     b = C[3] + C[4]*TC + C[5]*pow(TC,2.);
     g.g = a * pow(pw, b.val);
 
-    dgdD = - a*b*pow(pw,(b.val - 1.0e0));
+    dgdD = - sw*a*b*pow(pw,(b.val - 1.0e0));
     // dgdD2 = a * b * (b - 1.0e0) * pow((1.0e0 - D),(b - 2.0e0));
 
     dadT = C[1] + 2.0*C[2]*TC;
@@ -209,15 +211,15 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
     dDdTT = - D * (daldT - pow(alpha,2.));
         // Db = pow((1.0 - D),b);  Fixed by DAK 01.11.00
     Db = pow( pw , b.val );
-    dDbdT = -b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
+    dDbdT = -sw * b * pow(pw,(b.val - 1.0)) * dDdT + lnpw * Db  * dbdT;
 
 
-    dDbdTT = -(b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
-                + b * dDdT * ( -(b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
-                + log(pw) * pow(pw,(b.val - 1.0)) * dbdT))
-                + log(pw) * pow(pw,b.val) * dbdTT
-                - pow(pw,b.val) * dbdT * dDdT / (1.0 - D)
-                + log(pw) * dbdT * dDbdT;
+    dDbdTT = -sw * (b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
+                + b * dDdT * ( -sw * (b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
+                + lnpw * pow(pw,(b.val - 1.0)) * dbdT))
+                + lnpw * pow(pw,b.val) * dbdTT
+                - sw * pow(pw,(b.val - 1.0)) * dbdT * dDdT
+                + lnpw * dbdT * dDbdT;
 
     g.gP = dgdD * dDdP; // from bar to Pa not necessary!!
     g.gT = a * dDbdT + Db * dadT;
-- 
2.43.0


From 53de08b13bdd173f54a82ac499e5347c82035b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 053/109] fix: HKF model: no numbers for water of exactly 1
 g/cm3

---
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 58fd624..4db3a72 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -213,7 +213,7 @@ auto functionG(Reaktoro_::Temperature T, Reaktoro_::Pressure P, const Properties
     // Check if the point (T,P) is inside region III or the shaded region in Fig. 6 of
     // Shock and others (1992), on page 809. In this case, we assume the g function to be zero.
     //if(ps.density > 1000.0 || ps.density < 350.0)
-    if(ps.density > 1000.0)
+    if(ps.density >= 1000.0)
         return funcG;
 
     // Auxiliary references
-- 
2.43.0


From a772151dc0d8257c1773b8a80f0e0586c10af643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 054/109] fix: heat capacity integration: an interval with
 fewer coefficients than another one used those of the other

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index cfb0182..cfd2174 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -150,6 +150,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
         G -= S * (TK - TrK);
 
+        ac.assign(16, 0.0); // the coefficients of another interval may be more
         for (unsigned i = 0; i < thermo_parameters.Cp_coeff[j].size(); i++)
         {
             if (i == 16)
-- 
2.43.0


From df078eefaa6a02e295891b930913af8fe67ab27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 055/109] fix: volume of Murnaghan and Birch-Murnaghan models
 stayed undefined when nothing before had set it

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp  | 3 +++
 ThermoFun/Substances/Solids/SolidMurnaghanHP98.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 96cd57d..1c556a2 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -161,6 +161,9 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
     auto P_Pst = P - Pst;
     auto T_Tst = T -Tst;
 
+    if (tps.volume.sta.first == Reaktoro_::Status::notdefined)
+        tps.volume = 0.0; // nothing but what is added here
+
     auto BMc = subst.thermoParameters().volume_BirchM_coeff;
     if (BMc.size() < 9)
     {
diff --git a/ThermoFun/Substances/Solids/SolidMurnaghanHP98.cpp b/ThermoFun/Substances/Solids/SolidMurnaghanHP98.cpp
index ab8c801..d6f35be 100644
--- a/ThermoFun/Substances/Solids/SolidMurnaghanHP98.cpp
+++ b/ThermoFun/Substances/Solids/SolidMurnaghanHP98.cpp
@@ -15,6 +15,9 @@ auto thermoPropertiesMinMurnaghanEOSHP98(Reaktoro_::Temperature TK, Reaktoro_::P
     auto k0 = subst.thermoParameters().isothermal_compresibility; // bulk modulus k in kbar at 298 K
     auto a0 = subst.thermoParameters().isobaric_expansivity*1e-05; // in 1/K
 
+    if (tps.volume.sta.first == Reaktoro_::Status::notdefined)
+        tps.volume = 0.0; // nothing but what is added here
+
     auto dg  = tps.gibbs_energy;
     auto ds  = tps.entropy;
     auto dh  = tps.enthalpy;
-- 
2.43.0


From 67a7e04d11a56442a11bd97122e3122d7201481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 056/109] fix: heat capacity integration reported a volume of
 zero for substances without a volume model

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index cfd2174..18a2883 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -196,7 +196,8 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     thermo_properties_PT.gibbs_energy = G;
     thermo_properties_PT.enthalpy = H;
     thermo_properties_PT.entropy = S;
-    thermo_properties_PT.volume = V;
+    if (V.val != 0.0) // the volume changes of transitions; otherwise the volume is left to the models of volume
+        thermo_properties_PT.volume = V;
 
     if (k < 0)
     {
-- 
2.43.0


From af40d02adc69df1658b2f9a8af4817644fd707ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 057/109] fix: Peng-Robinson residual enthalpy and entropy were
 undefined at the critical temperature and wrong far above it

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index dd8f5c7..ad4d218 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -486,7 +486,7 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 /// calculates fugacities and residual functions of pure fluid species
 long int TPRSVcalc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, aprsv, bprsv, alph, da, d2a, k, A, B, a2, a1, a0,
+	double aprsv, bprsv, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -498,9 +498,6 @@ long int TPRSVcalc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	aprsv = Pureparm[i][0];
 	bprsv = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -552,12 +549,10 @@ long int TPRSVcalc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = aprsv/((0.457235)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (aprsv-Tk*da)/(bprsv*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
@@ -3691,7 +3686,7 @@ long int TPR78calc::AB( double Tcrit, double Pcrit, double omg, double /*N*/,
 /// Calculates fugacities and residual functions of pure fluid species
 long int TPR78calc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, apr, bpr, alph, da, d2a, k, A, B, a2, a1, a0,
+	double apr, bpr, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -3703,9 +3698,6 @@ long int TPR78calc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	apr = Pureparm[i][0];
 	bpr = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -3757,12 +3749,10 @@ long int TPR78calc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = apr/((0.457235529)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (apr-Tk*da)/(bpr*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
-- 
2.43.0


From 0da42ad68723580882e70386dc61614b6cfe962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 058/109] fix: Peng-Robinson-Stryjek-Vera: temperature
 derivative of the attraction term ignored the parameters k2 and k3

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index ad4d218..b4dbf40 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -453,7 +453,7 @@ long int TPRSVcalc::FugacityPT( long int i, double *EoSparam )
 long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, double k2, double k3,
 		double &apure, double &bpure, double &da, double &d2a )
 {
-	double Tred, k0, k, alph, ac, sqa, dsqa, d2sqa;
+	double Tred, k0, k, alph, ac, sqa, dsqa, d2sqa, ds, d2s, f, df, d2f, g, dg, d2g, dk, d2k;
 
 	Tred = Tk/Tcrit;
 	k0 = 0.378893 + 1.4897153*omg - 0.17131848*pow(omg,2.) + 0.0196554*pow(omg,3.);
@@ -469,13 +469,20 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 	apure = alph*ac;
 	bpure = (0.077796)*R_CONST*Tcrit/Pcrit;
 	sqa = 1.+k*(1.-sqrt(Tred));
-	// dsqa = (-1.)*k0/(2.*sqrt(Tk*Tcrit)) - 1.7*k1/Tcrit + 2.*k1*Tk/(pow(Tcrit,2.));  // extend dA/dT for k2, k3
-	dsqa = ( k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) * (1.-sqrt(Tred))
-				- (k0 + k1*(1.+sqrt(Tred))*(0.7-Tred))/(2*sqrt(Tred)*Tcrit);
+	// derivatives of k = k0 + f*g, f = k1 + k2*(k3-Tred)*(1-sqrt(Tred)), g = (1+sqrt(Tred))*(0.7-Tred)
+	ds = 1./(2.*sqrt(Tred)*Tcrit);
+	d2s = (-1.)/(4.*pow(Tred,1.5)*pow(Tcrit,2.));
+	f = k1 + k2*(k3-Tred)*(1.-sqrt(Tred));
+	df = (-1.)*k2*( (1.-sqrt(Tred))/Tcrit + (k3-Tred)*ds );
+	d2f = k2*( 2.*ds/Tcrit - (k3-Tred)*d2s );
+	g = (1.+sqrt(Tred))*(0.7-Tred);
+	dg = ds*(0.7-Tred) - (1.+sqrt(Tred))/Tcrit;
+	d2g = d2s*(0.7-Tred) - 2.*ds/Tcrit;
+	dk = df*g + f*dg;
+	d2k = d2f*g + 2.*df*dg + f*d2g;
+	dsqa = dk*(1.-sqrt(Tred)) - k*ds;
 	da = 2.*ac*(sqa*dsqa);
-	d2sqa = ( - (k1*(0.7-Tred))/(4.*pow(Tred,1.5)*pow(Tcrit,2.)) - k1/(sqrt(Tred)*pow(Tcrit,2.)) ) * (1.-sqrt(Tred))
-				+ ( - k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) / (sqrt(Tred)*Tcrit)
-				+ ( k0 + k1*(1.+sqrt(Tred))*(0.7-Tred) ) / (4.*pow(Tred,1.5)*pow(Tcrit,2.));
+	d2sqa = d2k*(1.-sqrt(Tred)) - 2.*dk*ds - k*d2s;
 	d2a = 2.*ac*(dsqa*dsqa + sqa*d2sqa);
 
 	return 0;
-- 
2.43.0


From 9a87cd60f66ca7b3617c1f36ae73cfc77721c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 059/109] fix: volume of gases at low pressure (CORK) was two
 thirds of the right one, roots of cubic equations of state were imprecise

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index b4dbf40..9b125f1 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -597,8 +597,8 @@ long int TPRSVcalc::Cardano( double a2, double a1, double a0, double &z1, double
 	{
 		theta = acos(rc/sqrt(q3));
 		z1 = (-2.)*sqrt(q)*cos(theta/3.)-a2/3.;
-		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.1415927)-a2/3.;
-		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.1415927)-a2/3.;
+		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.14159265358979324)-a2/3.;
+		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.14159265358979324)-a2/3.;
 	}
 	else  // one real root
 	{
@@ -2988,8 +2988,8 @@ long int TSRKcalc::Cardano( double a2, double a1, double a0, double &z1, double
 	{
 		theta = acos(rc/sqrt(q3));
 		z1 = (-2.)*sqrt(q)*cos(theta/3.)-a2/3.;
-		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.1415927)-a2/3.;
-		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.1415927)-a2/3.;
+		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.14159265358979324)-a2/3.;
+		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.14159265358979324)-a2/3.;
 	}
 
 	else  // one real root
@@ -3797,8 +3797,8 @@ long int TPR78calc::Cardano( double a2, double a1, double a0, double &z1, double
 	{
 		theta = acos(rc/sqrt(q3));
 		z1 = (-2.)*sqrt(q)*cos(theta/3.)-a2/3.;
-		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.1415927)-a2/3.;
-		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.1415927)-a2/3.;
+		z2 = (-2.)*sqrt(q)*cos(theta/3.+2./3.*3.14159265358979324)-a2/3.;
+		z3 = (-2.)*sqrt(q)*cos(theta/3.-2./3.*3.14159265358979324)-a2/3.;
 	}
 	else  // one real root
 	{
@@ -4808,7 +4808,7 @@ long int TCORKcalc::VolumeFugacity( long int phState, double pp, double p0, doub
             vmrk = v3;
         if ( (v2<vmrk) && (v2>0.) )
             vmrk = v2;
-        if ( (v3<vmrk) && (v2>0.) )
+        if ( (v3<vmrk) && (v3>0.) )
             vmrk = v3;
     }
 
@@ -4862,12 +4862,11 @@ long int TCORKcalc::Cardano(double cb, double cc, double cd, double &v1, double
 
     else  //three real roots
     {
-        co = atan(sqrt(1.-cp2/(cq3))/(cp/sqrt(cq3)));
-        if (co<0.)
-            co = co + 3.1415927;
+        co = cp/sqrt(cq3);
+        co = (co>=1.) ? 0. : ( (co<=-1.) ? 3.14159265358979324 : acos(co) );
         v1 = (-2.)*sqrt(cq)*cos(co/3.) - cb/3.;
-        v2 = (-2.)*sqrt(cq)*cos((co+2.*3.1415927)/3.) - cb/3.;
-        v3 = (-2.)*sqrt(cq)*cos((co-2.*3.1415927)/3.) - cb/3.;
+        v2 = (-2.)*sqrt(cq)*cos((co+2.*3.14159265358979324)/3.) - cb/3.;
+        v3 = (-2.)*sqrt(cq)*cos((co-2.*3.14159265358979324)/3.) - cb/3.;
     }
 
     return 0;
-- 
2.43.0


From 4b2115e635ca505c9868659e5726ee5bbeabdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 060/109] fix: CORK model of H2O above 673 K: temperature
 function of the attraction term and its derivatives had the wrong sign

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 9b125f1..2f1cb4a 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4455,8 +4455,8 @@ long int TCORKcalc::FugacityH2O( long int j )
     {
         phState = 1;
         a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
-        da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-        d2a = 2.*a5 + 6.*a6*(673.-Tk);
+        da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+        d2a = 2.*a5 + 6.*a6*(Tk-673.);
         VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
     }
 
@@ -4474,9 +4474,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
         }
@@ -4492,9 +4492,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g1);
 
@@ -4507,9 +4507,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g2);
 
@@ -4522,9 +4522,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, g3);  // corrected from (phState, Pkb, psat ...)
             fc = g1/g2*g3;  // this formula needs checking
-- 
2.43.0


From d696eca74dacdc27a205bbd818b5b6819e36af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 061/109] fix: CORK residual enthalpy and entropy of H2O and
 CO2 left out the high-pressure virial part

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 32 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 2f1cb4a..b98bb5f 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4425,7 +4425,7 @@ long int TCORKcalc::FugacityH2O( long int j )
     double a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a, da, d2a, b, c0, c1, c,
             d0, d1, d, e0, e, /*dc, dd,*/ p0, Psat, vc, fc, v, g1, g2, g3, rho, z;
     double grs, hrs, srs, cprs, cvrs, dpr, dprr, dpt, dptt, dprt,
-            drt, drtt, drp, drpp, drtp, dpv, dvt;
+            drt, drtt, drp, drpp, drtp, dpv, dvt, vmrk, hvir;
 
     a0 = 1113.4;
     a1 = -0.88517;
@@ -4531,6 +4531,16 @@ long int TCORKcalc::FugacityH2O( long int j )
         }
     }
 
+    // virial part of the volume and of the residual enthalpy
+    vmrk = vc;
+    hvir = 0.;
+    if (Pkb>p0)
+    {
+        vmrk = vc - (c*sqrt(Pkb-p0) + d*(Pkb-p0) + e*sqrt(sqrt(Pkb-p0)));
+        hvir = ( (2./3.)*(c-Tk*c1)*pow((Pkb-p0),1.5) + (d-Tk*d1)/2.*pow((Pkb-p0),2.)
+                + (4./5.)*e*pow((Pkb-p0),1.25) )*1000.;
+    }
+
     // pressure and density derivatives (MRK part)
     rho = (1./vc);
     dpr = (RR*Tk)/(pow((1./rho-b),2.)*pow(rho,2.)) - a/((1./rho+b)*pow(Tk,0.5))
@@ -4551,9 +4561,9 @@ long int TCORKcalc::FugacityH2O( long int j )
     drtp = - pow(dpr,-1.) - (dprt-dpr)*pow(dpr,-2.) + dprr*dpt*pow(dpr,-3.);
 
     // thermodynamic properties (MRK part)
-    z = (Pkb*vc)/(RR*Tk);
+    z = (Pkb*vmrk)/(RR*Tk);
     grs = R_CONST*Tk*log(fc);
-    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vc/(vc+b)) )*R_CONST*Tk;
+    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vmrk/(vmrk+b)) )*R_CONST*Tk + hvir;
     srs = (hrs-grs)/Tk;
     cvrs = ( -1./(b*RR)*(-da/pow(Tk,0.5)+pow(Tk,0.5)*d2a+(3.*a)/(4.*pow(Tk,1.5))))*log(vc/(vc+b) )*R_CONST;
     dpv = (- RR*Tk/pow((vc-b),2.) + a/(pow(vc,2.)*(vc+b)*pow(Tk,0.5))
@@ -4591,7 +4601,7 @@ long int TCORKcalc::FugacityCO2( long int j )
     long int phState;
     double a0, a1, a2, a, b, c0, c1, c, d0, d1, d, e0, e, da, d2a, p0, vc, fc, rho, z;
     double grs, hrs, srs, cprs, cvrs, dpr, dprr, dpt, dptt, dprt,
-            drt, drtt, drp, drpp, drtp, dpv, dvt;
+            drt, drtt, drp, drpp, drtp, dpv, dvt, vmrk, hvir;
 
     a0 = 659.8;
     a1 = 0.21078;
@@ -4614,6 +4624,16 @@ long int TCORKcalc::FugacityCO2( long int j )
     phState = 1;
     VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
 
+    // virial part of the volume and of the residual enthalpy
+    vmrk = vc;
+    hvir = 0.;
+    if (Pkb>p0)
+    {
+        vmrk = vc - (c*sqrt(Pkb-p0) + d*(Pkb-p0) + e*sqrt(sqrt(Pkb-p0)));
+        hvir = ( (2./3.)*(c-Tk*c1)*pow((Pkb-p0),1.5) + (d-Tk*d1)/2.*pow((Pkb-p0),2.)
+                + (4./5.)*e*pow((Pkb-p0),1.25) )*1000.;
+    }
+
     // pressure and density derivatives (MRK part)
     rho = (1./vc);
     dpr = (RR*Tk)/(pow((1./rho-b),2.)*pow(rho,2.)) - a/((1./rho+b)*pow(Tk,0.5))
@@ -4634,9 +4654,9 @@ long int TCORKcalc::FugacityCO2( long int j )
     drtp = - pow(dpr,-1.) - (dprt-dpr)*pow(dpr,-2.) + dprr*dpt*pow(dpr,-3.);
 
     // thermodynamic properties (MRK part)
-    z = (Pkb*vc)/(RR*Tk);
+    z = (Pkb*vmrk)/(RR*Tk);
     grs = R_CONST*Tk*log(fc);
-    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vc/(vc+b)) )*R_CONST*Tk;
+    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vmrk/(vmrk+b)) )*R_CONST*Tk + hvir;
     srs = (hrs-grs)/Tk;
     cvrs = ( -1./(b*RR)*(-da/pow(Tk,0.5)+pow(Tk,0.5)*d2a+(3.*a)/(4.*pow(Tk,1.5))))*log(vc/(vc+b) )*R_CONST;
     dpv = (- RR*Tk/pow((vc-b),2.) + a/(pow(vc,2.)*(vc+b)*pow(Tk,0.5))
-- 
2.43.0


From 0ff537e411f184c49cc8263a31438ab9e444c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 062/109] fix: CORK residual enthalpy and entropy of liquid H2O
 left out the transition at the saturation pressure

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index b98bb5f..cf16347 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4425,7 +4425,7 @@ long int TCORKcalc::FugacityH2O( long int j )
     double a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a, da, d2a, b, c0, c1, c,
             d0, d1, d, e0, e, /*dc, dd,*/ p0, Psat, vc, fc, v, g1, g2, g3, rho, z;
     double grs, hrs, srs, cprs, cvrs, dpr, dprr, dpt, dptt, dprt,
-            drt, drtt, drp, drpp, drtp, dpv, dvt, vmrk, hvir;
+            drt, drtt, drp, drpp, drtp, dpv, dvt, vmrk, hvir, hsat, vsat, dPsat;
 
     a0 = 1113.4;
     a1 = -0.88517;
@@ -4449,6 +4449,13 @@ long int TCORKcalc::FugacityH2O( long int j )
     //dc = c1;
     //dd = d1;
     p0 = 2.;
+    hsat = 0.;
+
+    // residual enthalpy (MRK part) over RR*Tk, of the phase with the volume vm
+    auto mrkEnthalpy = [&]( double pp, double vm )
+    {
+        return pp*vm/(RR*Tk) - 1. - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vm/(vm+b));
+    };
 
     // molar volume and fugacity coefficient
     if (Tk > 695.)   // supercritical fluid phase
@@ -4497,6 +4504,8 @@ long int TCORKcalc::FugacityH2O( long int j )
                 d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g1);
+            hsat = mrkEnthalpy(Psat, v);
+            vsat = v;
 
             phState = 2; // liquid phase at Psat
             if (Tk < 673.)
@@ -4512,6 +4521,9 @@ long int TCORKcalc::FugacityH2O( long int j )
                 d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g2);
+            // temperature dependence of g1/g2, also that of the saturation pressure
+            dPsat = 2.*(7.29395e-7)*Tk - 3.*(2.34622e-9)*pow(Tk,2.) + 5.*(4.83607e-15)*pow(Tk,4.);
+            hsat = (hsat - mrkEnthalpy(Psat, v) - (vsat-v)*dPsat/RR)*R_CONST*Tk;
 
             phState = 2; // fluid phase at Pkb
             if (Tk < 673.)
@@ -4563,7 +4575,7 @@ long int TCORKcalc::FugacityH2O( long int j )
     // thermodynamic properties (MRK part)
     z = (Pkb*vmrk)/(RR*Tk);
     grs = R_CONST*Tk*log(fc);
-    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vmrk/(vmrk+b)) )*R_CONST*Tk + hvir;
+    hrs = ( (z-1.) - 1./(b*RR*Tk)*(pow(Tk,0.5)*da-(3./2.)*a/pow(Tk,0.5))*log(vmrk/(vmrk+b)) )*R_CONST*Tk + hvir + hsat;
     srs = (hrs-grs)/Tk;
     cvrs = ( -1./(b*RR)*(-da/pow(Tk,0.5)+pow(Tk,0.5)*d2a+(3.*a)/(4.*pow(Tk,1.5))))*log(vc/(vc+b) )*R_CONST;
     dpv = (- RR*Tk/pow((vc-b),2.) + a/(pow(vc,2.)*(vc+b)*pow(Tk,0.5))
-- 
2.43.0


From 0c9f242be95f06b79babec1b6ea021beee5d025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 063/109] fix: Churakov-Gottschalk residual enthalpy and
 entropy were not those relative to the ideal gas at the same pressure

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index cf16347..5f8a3b4 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1337,7 +1337,9 @@ long int TCGFcalc::CGResidualFunct( double *X, double *param, double *param1, un
 	// F1 = FTOTALMIX(T+T*delta,ro,paar);
 
 	Srs = - ( (F1-F0)/(delta*Tk)*Tk + F0 ) * R_CONST;	// corrected, 20.06.2008 (TW)
-	Hrs = (F0*Tk*R_CONST + Tk*Srs) + Z*R_CONST*Tk;
+	// relative to the ideal gas at the same pressure (not the same density)
+	Hrs = (F0*Tk*R_CONST + Tk*Srs) + (Z-1.)*R_CONST*Tk;
+	Srs += R_CONST*log(Z);
 	Grs = Hrs - Tk*Srs;
 	CPrs = 0.;
 	vmix = Z*R_CONST*Tk/Pbar;
@@ -2270,6 +2272,7 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 	double T, P, Fugacity = 0.1, Volume = 0.0;
 	double X[1] = {1.};
 	double roro = 1.;  // added 21.06.2008 (TW)
+	double roro1 = 1.;
 	double Coeff[12];  // MAXEOSPARAM = 20;
 	double Eos4parPT[4] = { 0.0, 0.0, 0.0, 0.0 },
 		Eos4parPT1[4] = { 0.0, 0.0, 0.0, 0.0 } ;
@@ -2287,7 +2290,7 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 		FugProps[0] = Fugacity/Pbar;
 		FugProps[1] = 8.31451 * Tk * log( Fugacity / P );
 		FugProps[4] = Volume;
-		retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro );
+		retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro1 );
 		CGResidualFunct( X, Eos4parPT, Eos4parPT1, 1, roro, T );
 		FugProps[2] = Hrs;
 		FugProps[3] = Srs;
-- 
2.43.0


From 5d6829bdb3df95dd31657c66301fbcd4e20b4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 064/109] fix: Sterner-Pitzer model outside its limits returned
 uninitialised values

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 25 +++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 5f8a3b4..9ab6623 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -6290,21 +6290,20 @@ long int TSTPcalc::STPCalcFugPure(double Tmin, double *Cpg, double *FugProps )
     if( (Tk >= Tmin) && (Tk < 1e4) && (Pbar >= 1e-5) && (Pbar < 1e5) )
     {
         iErr = FugacityPT( 0, Coeff );
-        for( int i=0; i<6; i++ )
-            FugProps[i] = Fugpure[0][i];
-        return iErr;
-    }
-
-    else
-    {
-        for( int i=1; i<6; i++ )
-            FugProps[i] = 0.;
-        FugProps[0] = 1.;
-        FugProps[4] = 8.31451*Tk/Pbar;
-        return -1;
+        if( iErr == 0 )
+        {
+            for( int i=0; i<6; i++ )
+                FugProps[i] = Fugpure[0][i];
+            return iErr;
+        }
     }
 
-    return 0;
+    // ideal gas outside the limits and if the density was not found
+    for( int i=1; i<6; i++ )
+        FugProps[i] = 0.;
+    FugProps[0] = 1.;
+    FugProps[4] = 8.31451*Tk/Pbar;
+    return ( iErr != 0 ) ? iErr : -1;
 }
 
 
-- 
2.43.0


From 74b97c89ce408a0e780440dbf1d38a555189bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 065/109] fix: Churakov-Gottschalk model took the ideal gas
 density for a dilute gas, the volume jumped at the end of this range

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 9ab6623..8fe79ba 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -2143,9 +2143,17 @@ double TCGFcalc::ROTOTALMIX( double P,double TT,EOSPARAM* param )
       }
      }
 
-     if ( i==0 )  // Uses aproximation of ideal gas
+     if ( i==0 )  // low density, starts from ideal gas
      {
-            return P/(R*TT);
+            ro0 = P/(R*TT);
+            for ( i=0; i<100; i++)
+            {
+              ro1 = P/(R*TT*ZTOTALMIX(TT,ro0,param));
+              if ( fabs(ro1-ro0) <= 1e-9*ro1 )
+                break;
+              ro0 = ro1;
+            }
+            return ro1;
      }
 
      // additional high pressure inteval
-- 
2.43.0


From 0d59242c9a9125e0ec9f42803550ea6f99dee615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 066/109] fix: misplaced parentheses in the temperature
 derivative of the expansivity of water near its critical point (HGK)

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 28eb9a1..a764a0b 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1411,11 +1411,11 @@ auto WaterHGKgems::dalLVS(double D, double T, double P, double alpha) -> double
                                      dsdT[i] + s[i] * (1.0 - calpha[i]) *
                                      pow(a2.r,-calpha[i]) * drdT);
         dPdMMT = dPdMMT + k[i] * ((pow(a2.r,(-cgamma[i])) * dudT[i] -
-                                   u[i] * cgamma[i] * pow(a2.r,(-1.0 - cgamma[i]) * drdT)) /
+                                   u[i] * cgamma[i] * pow(a2.r,(-1.0 - cgamma[i])) * drdT) /
                                   a + 2.0 * c * (pow(a2.r,(cbeta[i] - 1.0)) * dvdT[i] +
                                                  v[i] * (cbeta[i] - 1.0) * pow(a2.r,(cbeta[i] - 2.0)) * drdT)
                                   + a * pow(c,2.) * (pow(a2.r,(-calpha[i])) * dwdT[i] -
-                                                     calpha[i] * w[i] * pow(a2.r,(-1.0 - calpha[i]) * drdT)));
+                                                     calpha[i] * w[i] * pow(a2.r,(-1.0 - calpha[i])) * drdT));
         dPdMTT = dPdMTT + k[i] * (pow(a2.r,(cbeta[i] - 1.0)) * dvdT[i] +
                                   v[i] * (cbeta[i] - 1.0) * pow(a2.r,(cbeta[i] - 2.0)) *
                                   drdT + a * c * (pow(a2.r,(-calpha[i])) * dwdT[i] -
-- 
2.43.0


From f7ad97904cbd8c6c88079c73ed76b0f8b856c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 067/109] fix: mixed derivative TDD of the HGK Helmholtz energy
 of water

---
 .../Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
index 5d6fe4e..3a7f4d0 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
@@ -266,7 +266,7 @@ namespace ThermoFun {
             const auto x_tt = y_tt * x2 + 2.0 * y_t * x_t * x;
             const auto x_rt = y_rt * x2 + 2.0 * y_r * x_t * x;
             const auto x_rrr = y_rrr * x2 + 4 * y_rr * x_r * x + 2 * y_r * (x_rr * x + x_r * x_r);
-            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) + 2 * y_r * (x_rt * x + x_r * x_t);
+            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) * x + 2 * y_r * (x_rt * x + x_r * x_t);
             const auto x_rtt = y_rtt * x2 + 4 * y_rt * x_t * x + 2 * y_r * (x_tt * x + x_t * x_t);
             const auto x_ttt = y_ttt * x2 + 4 * y_tt * x_t * x + 2 * y_t * (x_tt * x + x_t * x_t);
 
@@ -369,7 +369,7 @@ namespace ThermoFun {
                 const auto theta_tt = 2 * beta[i] * (2 * beta[i] * tau * tau - 1) * tau_t * tau_t * theta;
                 const auto theta_rt = -2 * beta[i] * tau * tau_t * theta_r;
                 const auto theta_rrr = psi_rr * theta + 2 * psi_r * theta_r + psi * theta_rr;
-                const auto theta_rrt = psi_r * theta_r + psi * theta_rt;
+                const auto theta_rrt = psi_r * theta_t + psi * theta_rt;
                 const auto theta_rtt = psi * theta_tt;
                 const auto theta_ttt = -2 * beta[i] * (2 * tau_t * tau_t * theta_t + tau * tau_t * theta_tt);
 
-- 
2.43.0


From a84e10e6898fa8aa483ae204af79906e7de2d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 068/109] fix: third temperature derivative of the Helmholtz
 energies of water

---
 .../Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp      | 2 +-
 .../Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
index 3a7f4d0..8b08abc 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
@@ -294,7 +294,7 @@ namespace ThermoFun {
             s.helmholtzDDD = A20 * t * (u_rrr + c1 * x_rrr + 2 * c2 * (3 * x_r * x_rr + x * x_rrr) + c3 * y_rrr);
             s.helmholtzTDD = A20 * t * (u_rrt + c1 * x_rrt + 2 * c2 * (x_t * x_rr + 2 * x_r * x_rt + x * x_rrt) + c3 * y_rrt) + s.helmholtzDD / t;
             s.helmholtzTTD = A20 * t * (u_rtt + c1 * x_rtt + 2 * c2 * (x_r * x_tt + 2 * x_t * x_rt + x * x_rtt) + c3 * y_rtt) + 2 * (s.helmholtzTD - s.helmholtzD / t) / t;
-            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + s.helmholtz / (t * t)) / t;
+            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + 2 * s.helmholtz / (t * t)) / t;
 
             return s;
         }
diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
index 52194f1..aa52ba4 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
@@ -370,7 +370,7 @@ auto waterHelmholtzStateWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoS
 	const auto phiTT  = phi_tt*tT*tT + phi_t*tTT;
 	const auto phiTD  = phi_dt*tT*dD;
 	const auto phiDD  = phi_dd*dD*dD;
-	const auto phiTTT = phi_ttt*tT*tT*tau*T + 3*phi_tt*tT*tTT + phi_t*tTTT;
+	const auto phiTTT = phi_ttt*tT*tT*tT + 3*phi_tt*tT*tTT + phi_t*tTTT;
 	const auto phiTTD = phi_dtt*tT*tT*dD + phi_dt*tTT*dD;
 	const auto phiTDD = phi_ddt*tT*dD*dD;
 	const auto phiDDD = phi_ddd*dD*dD*dD;
-- 
2.43.0


From b234eb7c7ba8a6d2aaf5ccfdb2a03de768a596e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 069/109] fix: triple point temperature of water in the HGK
 model

---
 ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp b/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp
index 6e9442d..3e573c7 100644
--- a/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp
@@ -10,7 +10,7 @@ namespace ThermoFun {
 auto thermoPropertiesWaterHGKreaktoro(Reaktoro_::Temperature T, const WaterThermoState& wt, const WaterTripleProperties& wtr) -> ThermoPropertiesSubstance
 {
     // Auxiliary data from Helgeson and Kirkham (1974), on page 1098
-    const auto Ttr =  273.15;             // unit: K
+    const auto Ttr =  273.16;             // unit: K
 //    const auto Str =  15.1320 * cal_to_J; // unit: J/(mol*K)
 //    const auto Gtr = -56290.0 * cal_to_J; // unit: J/mol
 //    const auto Htr = -68767.0 * cal_to_J; // unit: J/mol
-- 
2.43.0


From 5871186c479c3c9048fdd35c86cabdf520ad9b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 070/109] fix: HGK density of water did not converge next to
 the critical isotherm at high pressure

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index dc39d41..fb43abc 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -66,7 +66,11 @@ auto waterDensity(Reaktoro_::Temperature T, Reaktoro_::Pressure P, int solvent_s
         const auto f  = (D*D*h.helmholtzD - P)/waterCriticalPressure;
         const auto df = (2*D*h.helmholtzD + D*D*h.helmholtzDD)/waterCriticalPressure;
 
-        D = (D.val > f.val/df.val) ? D - f/df : P/(D*h.helmholtzD);
+        // do not let a nearly flat isotherm near the critical point throw the density out of the range of the equation of state
+        if (state != 1 && P.val > waterCriticalPressure && -f.val/df.val > D.val)
+            D = 2.0*D;
+        else
+            D = (D.val > f.val/df.val) ? D - f/df : P/(D*h.helmholtzD);
 
         if(std::abs(f.val) < tolerance)
             return D;
-- 
2.43.0


From 1978a90b0b0bb1b7a104784d4a481302e7134101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 071/109] fix: waterPressureWagnerPruss used the HGK equation
 of state

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index fb43abc..4d5a64b 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -110,7 +110,7 @@ auto waterPressureHGK(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Re
 
 auto waterPressureWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Reaktoro_::ThermoScalar
 {
-    return waterPressure(T, D, waterHelmholtzStateHGK);
+    return waterPressure(T, D, waterHelmholtzStateWagnerPruss);
 }
 
 auto waterSaturatedPressureWagnerPruss(Reaktoro_::Temperature T) -> Reaktoro_::ThermoScalar
-- 
2.43.0


From 141ff3dd2ea1ad47f91401ef88f7fe498a5a625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 072/109] fix: saturated vapour density of water (auxiliary
 equation of Wagner and Pruss)

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index 4d5a64b..d5683c8 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -179,7 +179,7 @@ auto waterSaturatedVapourDensityWagnerPruss(Reaktoro_::Temperature T) -> Reaktor
     const auto t376 = t186 * t186 * t16;
     const auto t716 = t376 * t186 * t86 * t86;
 
-    return Dcr * exp(Tcr/T * (c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716));
+    return Dcr * exp(c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716);
 }
 
 } // namespace Reaktoro
-- 
2.43.0


From 61dc4b2347c8edaffdc75131ae720316e0b80057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 073/109] fix: viscosity and thermal conductivity of water
 summed only the first row of their coefficients (HGK)

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index a764a0b..debb2e3 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -2358,6 +2358,7 @@ auto WaterHGKgems::viscos(double Tk, double Pbars, double Dkgm3, double betaPa)
     i=-1;
     while (++i <= 5)
     {
+        j=-1;
         while (++j <= 6)
         {
             sum += b[j][i] * pow((1.0e0/T-1),i) * pow((D-1),j);
@@ -2438,6 +2439,7 @@ auto WaterHGKgems::thcond(double Tk, double Pbars, double Dkgm3, double alph,
     i=-1;
     while(++i <= 4)
     {
+        j=-1;
         while (++j <= 5)
         {
             sum += bL[i][j] * pow((1.0e0 / T-1),(double)i) * pow((D-1),(double)j);
@@ -2456,6 +2458,7 @@ auto WaterHGKgems::thcond(double Tk, double Pbars, double Dkgm3, double alph,
     j=-1;
     while (++i <= 5)
     {
+        j=-1;
         while (++j <= 4)
         {
             sum += bu[i][j] * pow((1.0e0 / T-1),(double)i) *
-- 
2.43.0


From 8d8d8d832aeab8db5bdad60566198ff681030b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 074/109] fix: unit of the second pressure derivative of the
 density of water (Zhang and Duan)

---
 ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
index ecc57d1..7d96945 100644
--- a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
+++ b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
@@ -196,7 +196,7 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
     ps.densityT  = DdT; ps.densityT.ddp*=1e-05;
     ps.densityP  = DdP*1e-05;
     ps.densityTT = Dd2T; ps.densityTT.ddp*=1e-05;
-    ps.densityPP = Dd2P*1e-05;
+    ps.densityPP = Dd2P*1e-10; // from 1/bar2 to 1/Pa2
     ps.Alpha     = -ps.densityT/ps.density;
     ps.Beta      = ps.densityP/ps.density/*/1e+05*/; // from 1/bar to 1/Pa
     ps.dAldT     = -ps.densityTT/ps.density + ps.Alpha*ps.Alpha;
-- 
2.43.0


From f9a34bfb12991eb8608a1e63a063764cb919f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 075/109] fix: pressure derivatives carried by the density of
 water and its derivatives (Zhang and Duan)

---
 ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
index 7d96945..c0fa003 100644
--- a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
+++ b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
@@ -176,12 +176,12 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
 //    const auto Vd2T = (V_plus + V_minus - 2*V)/pow(((T_plus-T_minus)*0.5),2);
 
     // finite difference P
-    Reaktoro_::Pressure P_plus (P.val + P.val*0.001);
+    Reaktoro_::Pressure P_plus (P.val + P.val*0.001); P_plus.ddp = P.ddp;
     Vr_plus = waterMolarVolume(T, P_plus, Vr);
     V_plus = Vr_plus * waterCriticalVolume/10;
     D_plus = H2OMolarMass/V_plus *100;
 
-    Reaktoro_::Pressure P_minus (P.val - P.val*0.001);
+    Reaktoro_::Pressure P_minus (P.val - P.val*0.001); P_minus.ddp = P.ddp;
     Vr_minus = waterMolarVolume(T, P_minus, Vr);
     V_minus = Vr_minus * waterCriticalVolume/10;
     D_minus = H2OMolarMass/V_minus *100;
@@ -192,10 +192,10 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
     const auto Dd2P = (D_plus + D_minus - 2*D)/pow(((P_plus-P_minus)*0.5),2);
 //    const auto Vd2P = (V_plus + V_minus - 2*V)/pow(((P_plus-P_minus)*0.5),2);
 
-    ps.density   = D /* * 1000*/; ps.density.ddp*=1e-05;
-    ps.densityT  = DdT; ps.densityT.ddp*=1e-05;
+    ps.density   = D /* * 1000*/;
+    ps.densityT  = DdT;
     ps.densityP  = DdP*1e-05;
-    ps.densityTT = Dd2T; ps.densityTT.ddp*=1e-05;
+    ps.densityTT = Dd2T;
     ps.densityPP = Dd2P*1e-10; // from 1/bar2 to 1/Pa2
     ps.Alpha     = -ps.densityT/ps.density;
     ps.Beta      = ps.densityP/ps.density/*/1e+05*/; // from 1/bar to 1/Pa
-- 
2.43.0


From 6a1e1ab56b5d748b580ff0b4358df7274d4aa396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 076/109] fix: properties of metastable water vapour mixed
 those of liquid and vapour (HGK)

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index debb2e3..2a7ea9d 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1748,9 +1748,9 @@ auto WaterHGKgems::HGKeqn(int isat, int iopt, int itripl, double Temp,
 
         if ((aSta.Pres*10 > aSta.Psat) && (Temp < 0.647126e3) && (!aSpc.isat))
         {
-            calcv2(3, itripl, Temp, Pres, &aSta.Dens[0], epseqn);
-            thmHGK(&aSta.Dens[0], Temp);
-            dimHGK(1, itripl, Temp, Pres, &aSta.Dens[0], epseqn);
+            calcv2(3, itripl, Temp, Pres, &aSta.Dens[1], epseqn);
+            thmHGK(&aSta.Dens[1], Temp);
+            dimHGK(1, itripl, Temp, Pres, &aSta.Dens[1], epseqn);
 
             double temp = aSta.Dens[0];
             aSta.Dens[0] = aSta.Dens[1];
-- 
2.43.0


From b8cd8c4b0fa57ea6e71ea185fcb843479048ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 077/109] fix: water close to its saturation pressure had the
 density of the other phase (HGK)

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 2a7ea9d..f1caa61 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1742,11 +1742,16 @@ auto WaterHGKgems::HGKeqn(int isat, int iopt, int itripl, double Temp,
 
         memcpy(&wl, &wr, sizeof(WPROPS));
 
+        double ps=0., dll=0., dvv=0.;
+        if ((Temp < 0.647126e3) && (!aSpc.isat))
+            pcorr(itripl, Temp, &ps, &dll, &dvv, epseqn);
+
         calcv3(iopt, itripl, Temp, Pres, Dens0, epseqn);
         thmHGK(Dens0, Temp);
         dimHGK(isat, itripl, Temp, Pres, Dens0, epseqn);
 
-        if ((aSta.Pres*10 > aSta.Psat) && (Temp < 0.647126e3) && (!aSpc.isat))
+        // same condition as in calcv3, which calculated the liquid if pressure is above saturation
+        if ((*Pres > ps) && (Temp < 0.647126e3) && (!aSpc.isat))
         {
             calcv2(3, itripl, Temp, Pres, &aSta.Dens[1], epseqn);
             thmHGK(&aSta.Dens[1], Temp);
-- 
2.43.0


From 40f0858a65db6a735d9d8e6e648e5b5bd86cc973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:24 +0000
Subject: [PATCH 078/109] fix: derivatives of the dielectric constant of water:
 numerical differences failed at 0 C, on the saturation line and at the limits
 of the density model, and the pressure derivatives were per bar (Sverjensky,
 Fernandez)

---
 .../Solvent/WaterElectroDerivatives.h         | 70 +++++++++++++++++++
 .../Solvent/WaterElectroFernandez1997.cpp     | 51 +-------------
 .../Solvent/WaterElectroSverjensky2014.cpp    | 51 ++------------
 3 files changed, 79 insertions(+), 93 deletions(-)
 create mode 100644 ThermoFun/Substances/Solvent/WaterElectroDerivatives.h

diff --git a/ThermoFun/Substances/Solvent/WaterElectroDerivatives.h b/ThermoFun/Substances/Solvent/WaterElectroDerivatives.h
new file mode 100644
index 0000000..7e34b08
--- /dev/null
+++ b/ThermoFun/Substances/Solvent/WaterElectroDerivatives.h
@@ -0,0 +1,70 @@
+#ifndef WATERELECTRODERIVATIVES_H
+#define WATERELECTRODERIVATIVES_H
+
+#include "ThermoProperties.h"
+
+namespace ThermoFun {
+
+/**
+ * @brief electroPropertiesFromDensity calculates the dielectric constant of water, its derivatives and the Born functions
+ * from an equation for the dielectric constant as a function of temperature and density, and the derivatives of density
+ * @param epsilon function returning the dielectric constant for temperature (K) and density (kg/m3)
+ * @param TK temperature (K)
+ * @param ps properties of the solvent (density and its derivatives)
+ */
+template<typename Function>
+auto electroPropertiesFromDensity(Function epsilon, Reaktoro_::Temperature TK, const PropertiesSolvent &ps) -> ElectroPropertiesSolvent
+{
+    ElectroPropertiesSolvent wep;
+
+    // derivatives at constant density (ddt), and with respect to density at constant temperature (ddp)
+    auto partial = [&](double T, double density) -> Reaktoro_::ThermoScalar
+    {
+        auto rho = ps.density;
+        rho.val = density; rho.ddt = 0.0; rho.ddp = 1.0;
+        return epsilon(Reaktoro_::Temperature(T), rho);
+    };
+
+    const double T = TK.val, D = ps.density.val;
+    const double hT = 1e-4*T, hD = 1e-4*D;
+    const auto e = partial(T, D);
+    const auto eTp = partial(T + hT, D), eTm = partial(T - hT, D);
+    const auto eDp = partial(T, D + hD), eDm = partial(T, D - hD);
+    const double e_TT = (eTp.ddt - eTm.ddt)/(2.0*hT);
+    const double e_TD = (eTp.ddp - eTm.ddp)/(2.0*hT);
+    const double e_DD = (eDp.ddp - eDm.ddp)/(2.0*hD);
+    const double DT = ps.densityT.val, DP = ps.densityP.val;
+    const double DTT = ps.densityTT.val, DTP = ps.densityTP.val, DPP = ps.densityPP.val;
+
+    wep.epsilon = epsilon(TK, ps.density);
+    wep.epsilonT = wep.epsilonP = wep.epsilonTT = wep.epsilon; // status
+
+    const double eT  = e.ddt + e.ddp*DT;
+    const double eP  = e.ddp*DP;
+    const double eTT = e_TT + 2.0*e_TD*DT + e_DD*DT*DT + e.ddp*DTT;
+    const double eTP = e_TD*DP + e_DD*DT*DP + e.ddp*DTP;
+    const double ePP = e_DD*DP*DP + e.ddp*DPP;
+
+    wep.epsilon.ddt  = eT;
+    wep.epsilon.ddp  = eP;
+    wep.epsilonT.val = eT;   wep.epsilonT.ddt  = eTT; wep.epsilonT.ddp  = eTP;
+    wep.epsilonP.val = eP;   wep.epsilonP.ddt  = eTP; wep.epsilonP.ddp  = ePP;
+    wep.epsilonTT.val = eTT; wep.epsilonTT.ddt = 0.0; wep.epsilonTT.ddp = 0.0;
+    if (ps.densityPP.sta.first != Reaktoro_::Status::notdefined)
+    {
+        wep.epsilonPP = wep.epsilon;
+        wep.epsilonPP.val = ePP; wep.epsilonPP.ddt = 0.0; wep.epsilonPP.ddp = 0.0;
+    }
+
+    const auto epsilon2 = wep.epsilon * wep.epsilon;
+    wep.bornZ = -1.0/wep.epsilon;
+    wep.bornY = wep.epsilonT/epsilon2;
+    wep.bornQ = wep.epsilonP/epsilon2;
+    wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
+
+    return wep;
+}
+
+}
+
+#endif // WATERELECTRODERIVATIVES_H
diff --git a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
index a3ede01..858055e 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
@@ -1,4 +1,5 @@
 #include "WaterElectroFernandez1997.h"
+#include "WaterElectroDerivatives.h"
 #include "ThermoEngine.h"
 #include "Database.h"
 #include "Substance.h"
@@ -44,8 +45,6 @@ auto epsilonF (Reaktoro_::Temperature T, Reaktoro_::ThermoScalar rho) -> Reaktor
 
 auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, Substance substance, int state) -> ElectroPropertiesSolvent
 {
-    ElectroPropertiesSolvent wep;
-
     Database db; db.addSubstance(substance);
     ThermoEngine   th(db);
 
@@ -53,52 +52,8 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     Reaktoro_::Pressure P(Pbar.val * 1e05);
 
     auto psol = th.propertiesSolvent(TK.val, P.val, substance.symbol(), state);
-    const auto RHO = psol.density ;
-
-    const auto eps = epsilonF(TK, RHO);
-    const auto epsilon2 = eps * eps;
-
-    // numerical approximation of epsilonT and epsilonTT
-    Reaktoro_::Temperature T_plus (TC.val+TC.val*0.001);
-    Reaktoro_::Temperature TK_plus (T_plus.val + 273.15);
-    auto RHO_plus = th.propertiesSolvent(TK_plus.val, P.val, substance.symbol(), state).density;
-    auto eps_plus = epsilonF(TK_plus, RHO_plus);
-
-    Reaktoro_::Temperature T_minus (TC.val-TC.val*0.001);
-    Reaktoro_::Temperature TK_minus (T_minus.val + 273.15);
-    auto RHO_minus  = th.propertiesSolvent(TK_minus.val, P.val, substance.symbol(), state).density;
-    auto eps_minus = epsilonF(TK_minus, RHO_minus);
-
-    const auto epsilonT  = (eps_plus - eps_minus) / ((TK_plus-TK_minus));
-    const auto epsilonTT = (eps_plus + eps_minus - 2*eps)/pow(((TK_plus-TK_minus)*0.5),2);
-
-    // numerical approximation of epsilonP and epsilonPP
-    Reaktoro_::Pressure P_plus (Pbar.val+Pbar.val*0.001);
-    Reaktoro_::Pressure P_plusPa (P_plus.val*1e05);
-    RHO_plus = th.propertiesSolvent(TK.val, P_plusPa.val, substance.symbol(), state).density;
-    eps_plus = epsilonF(TK, RHO_plus);
-
-    Reaktoro_::Pressure P_minus (Pbar.val-Pbar.val*0.001);
-    Reaktoro_::Pressure P_minusPa (P_minus.val*1e05);
-    RHO_minus = th.propertiesSolvent(TK.val, P_minusPa.val, substance.symbol(), state).density;
-    eps_minus = epsilonF(TK, RHO_minus);
-
-    const auto epsilonP  = (eps_plus - eps_minus) / ((P_plus-P_minus));
-    const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
-
-    wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
-    wep.epsilonT  = epsilonT;
-    wep.epsilonTT = epsilonTT;
-    wep.bornZ = -1.0/wep.epsilon;
-    wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
-//	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
-//	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
-    wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
-
-    return wep;
+
+    return electroPropertiesFromDensity(epsilonF, TK, psol);
 }
 
 
diff --git a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
index e5a907b..befe216 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
@@ -1,4 +1,5 @@
 #include "WaterElectroSverjensky2014.h"
+#include "WaterElectroDerivatives.h"
 #include "ThermoEngine.h"
 #include "Database.h"
 #include "Substance.h"
@@ -29,8 +30,6 @@ auto epsilonS(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar RHO) -> Reaktoro
 
 auto electroPropertiesWaterSverjensky2014(/*PropertiesSolvent ps,*/ Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, Substance substance, int state) -> ElectroPropertiesSolvent
 {
-    ElectroPropertiesSolvent wep;
-
     Database db; db.addSubstance(substance);
     ThermoEngine   th(db);
 
@@ -39,49 +38,11 @@ auto electroPropertiesWaterSverjensky2014(/*PropertiesSolvent ps,*/ Reaktoro_::T
 
     auto psol = th.propertiesSolvent(TK.val, P.val, substance.symbol(), state);
 
-    const auto RHO = psol.density /1000;
-    const auto eps = epsilonS(TC, RHO);
-    const auto epsilon2 = eps * eps;
-
-    // numerical approximation of epsilonT and epsilonTT
-    Reaktoro_::Temperature T_plus (TC.val+TC.val*0.001);
-    auto RHO_plus = th.propertiesSolvent(T_plus.val+273.15, P.val, substance.symbol(), state).density / 1000;
-    auto eps_plus = epsilonS(T_plus, RHO_plus);
-
-    Reaktoro_::Temperature T_minus (TC.val-TC.val*0.001);
-    auto RHO_minus  = th.propertiesSolvent(T_minus.val+273.15, P.val, substance.symbol(), state).density / 1000;
-    auto eps_minus = epsilonS(T_minus, RHO_minus);
-
-    const auto epsilonT  = (eps_plus - eps_minus) / ((T_plus-T_minus));
-    const auto epsilonTT = (eps_plus + eps_minus - 2*eps)/pow(((T_plus-T_minus)*0.5),2);
-
-    // numerical approximation of epsilonP and epsilonPP
-    Reaktoro_::Pressure P_plus (Pbar.val+Pbar.val*0.001);
-    Reaktoro_::Pressure P_plusPa (P_plus.val*1e05);
-    RHO_plus = th.propertiesSolvent(TK.val, P_plusPa.val, substance.symbol(), state).density / 1000;
-    eps_plus = epsilonS(TC, RHO_plus);
-
-    Reaktoro_::Pressure P_minus (Pbar.val-Pbar.val*0.001);
-    Reaktoro_::Pressure P_minusPa (P_minus.val*1e05);
-    RHO_minus = th.propertiesSolvent(TK.val, P_minusPa.val, substance.symbol(), state).density / 1000;
-    eps_minus = epsilonS(TC, RHO_minus);
-
-    const auto epsilonP  = (eps_plus - eps_minus) / ((P_plus-P_minus));
-    const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
-
-    wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
-    wep.epsilonT  = epsilonT;
-    wep.epsilonTT = epsilonTT;
-    wep.bornZ = -1.0/wep.epsilon;
-    wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
-//	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
-//	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
-    wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
-
-    return wep;
+    return electroPropertiesFromDensity([](Reaktoro_::Temperature T, Reaktoro_::ThermoScalar RHO) -> Reaktoro_::ThermoScalar
+    {
+        Reaktoro_::Temperature t(T.val - 273.15);
+        return epsilonS(t, RHO / 1000);
+    }, TK, psol);
 }
 
 }
-- 
2.43.0


From 4f13e921ce1e1c51907e73ec3e3471bdd9c0543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:24 +0000
Subject: [PATCH 079/109] fix: pressure derivative of the dielectric constant
 of water was per bar (Johnson and Norton, GEMS)

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index f1caa61..135580a 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -210,7 +210,7 @@ auto WaterHGKgems::electroPropertiesWaterJNgems(int state) -> ElectroPropertiesS
 
     wp.epsilonT  = yborn * pow(eps,2.);
     wp.epsilonTT = (xborn + 2.*eps*pow(yborn,2.)) * pow(eps,2.);
-    wp.epsilonP  = qborn * pow(eps,2.);
+    wp.epsilonP  = qborn / 1e05 * pow(eps,2.); // from bar-1 to Pa-1
 
 return wp;
 }
-- 
2.43.0


From 2ca420f226582ff1259533095339700c04145d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 080/109] fix: Akinfiev-Diamond solutes do not depend on the
 convention for water

---
 ThermoFun/ThermoEngine.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 9ef9225..e35feec 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -170,6 +170,24 @@ struct ThermoEngine::Impl
         tps.internal_energy -= wat.Utr;
     }
 
+    auto fromSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
+    {
+        tps.gibbs_energy += wat.Gtr;
+        tps.enthalpy += wat.Htr;
+        tps.entropy += wat.Str;
+        tps.helmholtz_energy += wat.Atr;
+        tps.internal_energy += wat.Utr;
+    }
+
+    /// The properties of the solvent in the geochemical convention, whichever is used for the results
+    auto geochemicalPropertiesSolvent(double T, double &P, std::string symbol) const -> ThermoPropertiesSubstance
+    {
+        auto tps = thermo_properties_substance_fn(T, P, P, symbol, preferences.apply_pressure_correction_to_gas_props);
+        if (iequals(conventions.water_properties, "STEAM_TABLES") && getThermoPreferencesSubstance(database.getSubstance(symbol)).isH2OSolvent)
+            fromSteamTables(tps, waterTripleData.at(database.conventions().water_triple_point_reference));
+        return tps;
+    }
+
     auto toBermanBrown(ThermoPropertiesSubstance &tps, const Substance &subst) const -> void
     {
         const auto Tr = subst.referenceT();
@@ -379,10 +397,11 @@ struct ThermoEngine::Impl
                 {
                     double Pr = database.getSubstance(solventInUse()).referenceP();
                     double Tr = database.getSubstance(solventInUse()).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, solventInUse(), preferences.apply_pressure_correction_to_gas_props),
+                    // the ideal gas the solvent is compared with is in the geochemical convention
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, geochemicalPropertiesSolvent(T, P, solventInUse()),
                                                                                         WaterIdealGasWoolley(database.getSubstance(solventInUse())).thermoProperties(T, P),
                                                                                         properties_solvent_fn(T, P, P, solventInUse(), -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, solventInUse(), preferences.apply_pressure_correction_to_gas_props),
+                                                                                        geochemicalPropertiesSolvent(Tr, Pr, solventInUse()),
                                                                                         WaterIdealGasWoolley(database.getSubstance(solventInUse())).thermoProperties(Tr, Pr),
                                                                                         properties_solvent_fn(Tr, Pr, Pr, solventInUse(), -1));
                     break;
-- 
2.43.0


From d6f4c28a4885deac26149823b3df9fa3b0c10ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 081/109] fix: properties taken from the reference record are
 in the convention in use

---
 ThermoFun/ThermoEngine.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index e35feec..83e8528 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -195,6 +195,25 @@ struct ThermoEngine::Impl
         tps.gibbs_energy -= (Tr * entropyElements);
     }
 
+    /// Converts geochemical, Benson-Helgeson properties to the conventions in use
+    auto toConventions(ThermoPropertiesSubstance &tps, const WorkPreferences &pref) const -> void
+    {
+        if (pref.isH2OSolvent)
+        {
+            if (iequals(conventions.water_properties, "STEAM_TABLES"))
+            {
+                toSteamTables(tps, waterTripleData.at(database.conventions().water_triple_point_reference));
+            }
+        }
+        else
+        {
+            if (iequals(conventions.apparent_properties, "BERMAN_BROWN"))
+            {
+                toBermanBrown(tps, pref.workSubstance);
+            }
+        }
+    }
+
     auto getThermoPreferencesReaction(const Reaction &reaction) const -> WorkPreferences
     {
         WorkPreferences preferences;
@@ -514,20 +533,7 @@ struct ThermoEngine::Impl
             }
 
             /// Convetion convert
-            if (pref.isH2OSolvent)
-            {
-                if (iequals(conventions.water_properties, "STEAM_TABLES"))
-                {
-                    toSteamTables(tps, waterTripleData.at(water_triple_reference));
-                }
-            }
-            else
-            {
-                if (iequals(conventions.apparent_properties, "BERMAN_BROWN"))
-                {
-                    toBermanBrown(tps, pref.workSubstance);
-                }
-            }
+            toConventions(tps, pref);
         }
         else // substance properties calculated using the properties of a reaction
         {
@@ -546,6 +552,7 @@ struct ThermoEngine::Impl
         // leave volume as is in substance record if no function to calculate it exists
         if (preferences.fallback_to_reference_properties)
         {
+            toConventions(tpref, getThermoPreferencesSubstance(subst));
             if (tps.volume.sta.first == Reaktoro_::Status::notdefined)
                 tps.volume = tpref.volume;
             if (tps.gibbs_energy.sta.first == Reaktoro_::Status::notdefined)
-- 
2.43.0


From 6398aa00076b3f146c0dcb497df1faf9a679ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 082/109] fix: temperature and pressure grids do not go beyond
 the end and do not run forever for a zero increment

---
 ThermoFun/Batch/ThermoBatch.cpp | 38 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e73029..7d6b5d8 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -2,12 +2,14 @@
 
 // C++ includes
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 // ThermoFun includes
 #include "ThermoProperties.h"
 #include "Database.h"
 #include "ThermoEngine.h"
 #include "Common/Units.hpp"
+#include "Common/Exception.h"
 
 #if _MSC_VER >= 1929
 #include <array>
@@ -143,28 +145,26 @@ struct ThermoBatch::Impl
                     addTPpair(c,r);
     }
 
+    /// The points start, start + step, start + 2 step... that do not exceed end
+    auto gridPoints (double start, double end, double step) const -> std::vector<double>
+    {
+        funErrorIf(!(std::isfinite(start) && std::isfinite(end) && std::isfinite(step) && step >= 0), "Cannot generate the temperature-pressure grid",
+                   "The limits have to be finite and the increment must not be negative", __LINE__, __FILE__);
+        std::vector<double> points;
+        if (start > end)
+            return points;
+        // the number of steps, with an allowance for the rounding of the limits and of the increment
+        double steps = step > 0 ? std::floor((end - start)/step * (1 + 1e-12) + 1e-9) : 0;
+        funErrorIf(steps > 1e7, "Cannot generate the temperature-pressure grid", "The increment is too small for the range", __LINE__, __FILE__);
+        for (double k = 0; k <= steps; k++)
+            points.push_back(std::min(start + k*step, end));
+        return points;
+    }
+
     auto addTPpairs (const double &Tmin, const double &Tmax, const double &Tstep,
                      const double &Pmin, const double &Pmax, const double &Pstep) -> void
     {
-        clearTPpairs();
-        double t = Tmin-Tstep;
-        double p = Pmin-Pstep;
-        std::vector<double> temperatures;
-        std::vector<double> pressures;
-
-        do
-        {
-            p = p + Pstep;
-            pressures.push_back(p);
-        } while (p < Pmax);
-
-        do
-        {
-            t = t + Tstep;
-            temperatures.push_back(t);
-        } while (t < Tmax);
-
-        addTPpairs(temperatures, pressures);
+        addTPpairs(gridPoints(Tmin, Tmax, Tstep), gridPoints(Pmin, Pmax, Pstep));
     }
 
     auto addTPpairs (const vvd &tpPairs) -> void
-- 
2.43.0


From fb05b3f2344c440d04a3961711ff8c509365d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 083/109] fix: results of a batch do not depend on the order of
 its symbols at pressure zero

---
 ThermoFun/Batch/ThermoBatch.cpp | 60 ++++++++++++++-------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 7d6b5d8..35a686a 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -246,53 +246,43 @@ struct ThermoBatch::Impl
 
     auto calculate(Calculation calculation) -> void
     {
-        double T, P; std::string symbol; size_t j_size, i_size;
+        size_t n_pairs = tpPairs.size(), n_symbols = symbols.size();
         auto defUnitT = defaultPropertyUnits.at("temperature");
         auto unitT    =   givenPropertyUnits.at("temperature");
         auto defUnitP = defaultPropertyUnits.at("pressure");
         auto unitP    =   givenPropertyUnits.at("pressure");
         results.clear();
+        results.resize(n_pairs * n_symbols);
 
-        if (outSettings.loopOverTPpairsFirst)
-        {j_size = tpPairs.size(); i_size = symbols.size();}
-        else
-        {j_size = symbols.size(); i_size = tpPairs.size();}
-
-        results.resize(j_size * i_size);
-
-        for (unsigned j=0; j<j_size; j++)
+        for (size_t i=0; i<n_pairs; i++)
         {
-            for (unsigned i=0; i<i_size; i++)
-            {
-                if (outSettings.loopOverTPpairsFirst)
-                {
-                    T = units::convert(tpPairs[j][0], unitT, defUnitT);
-                    P = units::convert(tpPairs[j][1], unitP, defUnitP);
-                    symbol = symbols[i];
-                } else
-                {
-                    T = units::convert(tpPairs[i][0], unitT, defUnitT);
-                    P = units::convert(tpPairs[i][1], unitP, defUnitP);
-                    symbol = symbols[j];
-                }
+            const double T = units::convert(tpPairs[i][0], unitT, defUnitT);
+            const double givenP = units::convert(tpPairs[i][1], unitP, defUnitP);
+            double P = givenP;
 
+            auto calculateSymbol = [&](size_t j)
+            {
+                size_t index = outSettings.loopOverTPpairsFirst ? n_pairs*j + i : n_symbols*i + j;
                 switch(calculation) {
-                case forSUBSTANCE: calculateSubstProp(T, P, symbol, (j_size*i)+(j)); break;
-                case forREACTION: calculateReactProp (T, P, symbol, (j_size*i)+(j)); break;
-                case forSOLVENT: calculateSolventProp(T, P, symbol, (j_size*i)+(j)); break;
+                case forSUBSTANCE: calculateSubstProp(T, P, symbols[j], index); break;
+                case forREACTION: calculateReactProp (T, P, symbols[j], index); break;
+                case forSOLVENT: calculateSolventProp(T, P, symbols[j], index); break;
                 }
+            };
 
-                // in case of Psat = 0 updating with real value
-                if (outSettings.loopOverTPpairsFirst)
-                {
-                    tpPairs[j][1] = units::convert(P, defUnitP, unitP);
-                    symbol = symbols[i];
-                } else
-                {
-                    tpPairs[i][1] = units::convert(P, defUnitP, unitP);
-                    symbol = symbols[j];
-                }
+            for (size_t j=0; j<n_symbols; j++)
+            {
+                bool zeroP = P == 0;
+                calculateSymbol(j);
+                // in case of P = 0 all are at the saturation pressure, also those before the one that needed it
+                if (zeroP && P != 0)
+                    for (size_t k=0; k<j; k++)
+                        calculateSymbol(k);
             }
+
+            // in case of Psat = 0 updating with real value
+            if (P != givenP)
+                tpPairs[i][1] = units::convert(P, defUnitP, unitP);
         }
         auto tpp = tpPairs;
         addTPpairs(tpp);
-- 
2.43.0


From 3a72bfe47803d17d9017f29a58f17d1f8d15857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 084/109] fix: results that were handed out and copies of a
 batch do not change with later calculations

---
 ThermoFun/Batch/OutputBatch.cpp | 30 ++++++++++++++++++++++++++----
 ThermoFun/Batch/ThermoBatch.cpp | 28 +++++++++++++++++++---------
 ThermoFun/Batch/ThermoBatch.h   | 26 ++++++++++++++++----------
 3 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 6783832..ce710f5 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -11,14 +11,36 @@ namespace ThermoFun {
 
 struct Output::Impl
 {
-    /// Interface instance
-    ThermoBatch api;
+    /// The results and settings of the batch at the moment this output was created
+    struct Results
+    {
+        vstr                                symbols_, properties_;
+        vvThScalar                          results_;
+        vvd                                 tpPairs_;
+        std::vector<double>                 temperatures_, pressures_;
+        std::map<std::string, std::string>  units_;
+        std::map<std::string, int>          digits_;
+        BatchPreferences                    outSettings_;
+
+        auto symbols        () const -> const vstr& { return symbols_; }
+        auto properties     () const -> const vstr& { return properties_; }
+        auto results        () const -> const vvThScalar& { return results_; }
+        auto TPpairs        () const -> const vvd& { return tpPairs_; }
+        auto Temperatures   () const -> const std::vector<double>& { return temperatures_; }
+        auto Pressures      () const -> const std::vector<double>& { return pressures_; }
+        auto units          () const -> const std::map<std::string, std::string>& { return units_; }
+        auto digits         () const -> const std::map<std::string, int>& { return digits_; }
+        auto outputSettings () const -> const BatchPreferences& { return outSettings_; }
+    };
+
+    Results                             api;
 
     std::string                         header = "";
     std::ofstream                       fProperties;
 
-    Impl(const ThermoBatch& batch_)
-    : api(ThermoBatch(batch_))
+    Impl(const ThermoBatch& batch)
+    : api{batch.symbols(), batch.properties(), batch.results(), batch.TPpairs(), batch.Temperatures(), batch.Pressures(),
+          batch.units(), batch.digits(), batch.outputSettings()}
     {}
 
 };
diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 35a686a..7ae104e 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -327,6 +327,16 @@ struct ThermoBatch::Impl
     }
 };
 
+ThermoBatch::ThermoBatch(const ThermoBatch& other)
+    : pimpl(new Impl(*other.pimpl))
+{}
+
+auto ThermoBatch::operator=(ThermoBatch other) -> ThermoBatch&
+{
+    pimpl = std::move(other.pimpl);
+    return *this;
+}
+
 ThermoBatch::ThermoBatch(const Database& database)
     : pimpl(new Impl(database))
 {}
@@ -569,47 +579,47 @@ auto ThermoBatch::setPressureIncrement (const double& Pmin, const double& Pmax,
 
 // Private
 // get functions
-auto ThermoBatch::symbols() -> const vstr
+auto ThermoBatch::symbols() const -> const vstr
 {
     return pimpl->symbols;
 }
 
-auto ThermoBatch::outputSettings() -> const BatchPreferences
+auto ThermoBatch::outputSettings() const -> const BatchPreferences
 {
     return pimpl->outSettings;
 }
 
-auto ThermoBatch::TPpairs() -> const vvd
+auto ThermoBatch::TPpairs() const -> const vvd
 {
     return pimpl->tpPairs;
 }
 
-auto ThermoBatch::Temperatures() -> const std::vector <double>
+auto ThermoBatch::Temperatures() const -> const std::vector <double>
 {
     return pimpl->Ts;
 }
 
-auto ThermoBatch::Pressures() -> const std::vector <double>
+auto ThermoBatch::Pressures() const -> const std::vector <double>
 {
     return pimpl->Ps;
 }
 
-auto ThermoBatch::properties() -> const vstr
+auto ThermoBatch::properties() const -> const vstr
 {
     return pimpl->properties;
 }
 
-auto ThermoBatch::units() -> const std::map<std::string, std::string>
+auto ThermoBatch::units() const -> const std::map<std::string, std::string>
 {
     return pimpl->givenPropertyUnits;
 }
 
-auto ThermoBatch::digits() -> const std::map<std::string, int>
+auto ThermoBatch::digits() const -> const std::map<std::string, int>
 {
     return pimpl->givenPropertyDigits;
 }
 
-auto ThermoBatch::results() -> const vvThScalar
+auto ThermoBatch::results() const -> const vvThScalar
 {
     return pimpl->results;
 }
diff --git a/ThermoFun/Batch/ThermoBatch.h b/ThermoFun/Batch/ThermoBatch.h
index 3fe5563..0ae39bc 100644
--- a/ThermoFun/Batch/ThermoBatch.h
+++ b/ThermoFun/Batch/ThermoBatch.h
@@ -110,6 +110,12 @@ public:
     ///
     ThermoBatch(const ThermoEngine &engine);
 
+    /// Construct a copy that shares nothing with the other
+    ThermoBatch(const ThermoBatch& other);
+
+    /// Assign a copy that shares nothing with the other
+    auto operator=(ThermoBatch other) -> ThermoBatch&;
+
     auto setUnits                   (const std::map<std::string, std::string> &units)-> void;
     auto setDigits                  (const std::map<std::string, int> &digits)-> void;
     auto setPropertiesUnits         (const vstr &properties, const vstr &units)-> void;
@@ -154,16 +160,16 @@ private:
     std::shared_ptr<Impl> pimpl;
 
     // Substances
-    auto symbols        () -> const vstr;
-    auto results        () -> const vvThScalar;
-
-    auto TPpairs        () -> const vvd;
-    auto Temperatures   () -> const std::vector <double>;
-    auto Pressures      () -> const std::vector <double>;
-    auto properties     () -> const vstr;
-    auto units          () -> const std::map<std::string, std::string>;
-    auto digits         () -> const std::map<std::string, int>;
-    auto outputSettings () -> const BatchPreferences;
+    auto symbols        () const -> const vstr;
+    auto results        () const -> const vvThScalar;
+
+    auto TPpairs        () const -> const vvd;
+    auto Temperatures   () const -> const std::vector <double>;
+    auto Pressures      () const -> const std::vector <double>;
+    auto properties     () const -> const vstr;
+    auto units          () const -> const std::map<std::string, std::string>;
+    auto digits         () const -> const std::map<std::string, int>;
+    auto outputSettings () const -> const BatchPreferences;
 };
 
 const std::map<std::string, const std::string> defaultPropertyNames =
-- 
2.43.0


From c3678a64187e4820e11550cc84fc4380f9870620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 085/109] fix: property grids can be written to another folder

---
 ThermoFun/Batch/OutputBatch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index ce710f5..9929aa3 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -90,7 +90,8 @@ auto Output::toCSVPropertyGrid(std::string filename) -> void
     auto properties = pimpl->api.properties();
     for (size_t i = 0; i<properties.size(); i++)
     {
-        pimpl->fProperties.open(std::string(properties[i]+"_"+filename), std::ios::trunc );
+        auto name = filename.find_last_of("/\\") + 1; // after the folder, if there is one
+        pimpl->fProperties.open(filename.substr(0, name) + properties[i] + "_" + filename.substr(name), std::ios::trunc );
 
         pimpl->fProperties << CSVHeaderPropertyGrid() << std::endl;
 
-- 
2.43.0


From 6112ff07f08f353cbf0d7eb05b456867e7bb8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 086/109] fix: property grids of repeated, saturation or listed
 temperature-pressure pairs

---
 ThermoFun/Batch/OutputBatch.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 9929aa3..f49a797 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -342,8 +342,6 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
-    size_t count = 0;
-
     if (outSettings.loopTemperatureThenPressure)
     {
         columns          = pressures;
@@ -355,23 +353,29 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     for (unsigned i=0; i<symbols.size(); i++)
         for (auto r : rows)
         {
-            if (count == results.size())
-                break;
             pimpl->fProperties << find_and_replace(symbols[i], s, "_");
             pimpl->fProperties << std::setprecision(digits.at(rowData));
             pimpl->fProperties << s << r;
 
             for(auto c : columns)
             {
-                auto result = results[count][index_property];
+                // the T-P pairs do not have to make up a full grid, and a pair can be there more than once
+                std::vector<double> pair = {r, c};
+                if (!outSettings.loopTemperatureThenPressure)
+                    pair = {c, r};
+                auto found = std::find(tpPairs.begin(), tpPairs.end(), pair);
+                if (found == tpPairs.end())
+                {
+                    pimpl->fProperties << s;
+                    continue;
+                }
+                auto result = results[tpPairs.size()*i + (found - tpPairs.begin())][index_property];
                 pimpl->fProperties << std::setprecision(digits.at(property));
 
                 if (result.sta.first == Reaktoro_::Status::notdefined && outSettings.writeNaNifNotDefinedValue)
                     pimpl->fProperties << s << "NaN";
                 else
                     pimpl->fProperties << s << units::convert(result.val, fromUnits.at(property), toUnits.at(property));
-                    
-                count++;
             }
             pimpl->fProperties << std::endl;
         }
-- 
2.43.0


From d25a2c7881cb8caabd5bf6b562679581c769f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 087/109] fix: a property that a batch cannot calculate is
 reported instead of shifting the columns after it

---
 ThermoFun/Batch/ThermoBatch.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 7ae104e..30cad4f 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -176,6 +176,17 @@ struct ThermoBatch::Impl
         }
     }
 
+    /// The results have one value for each of the properties only if all of them can be calculated
+    auto checkProperties(const std::string &kind) const -> void
+    {
+        for (const auto& name : properties)
+        {
+            auto known = defaultPropertyNames.find(name);
+            funErrorIf(known == defaultPropertyNames.end() || known->second != kind, "Cannot calculate the property " + name,
+                       "It is not a property of a " + kind, __LINE__, __FILE__);
+        }
+    }
+
     // select functions
     auto selectResultsSubst ( ThermoPropertiesSubstance tps ) -> vThScalar
     {
@@ -252,6 +263,7 @@ struct ThermoBatch::Impl
         auto defUnitP = defaultPropertyUnits.at("pressure");
         auto unitP    =   givenPropertyUnits.at("pressure");
         results.clear();
+        checkProperties(calculation == forSUBSTANCE ? "substance" : calculation == forREACTION ? "reaction" : "solvent");
         results.resize(n_pairs * n_symbols);
 
         for (size_t i=0; i<n_pairs; i++)
@@ -291,6 +303,7 @@ struct ThermoBatch::Impl
     auto selectProvidedSubstancesProperties(vtps vTps) -> void
     {
         results.clear();
+        checkProperties("substance");
         for (auto result : vTps)
         {
             results.push_back(selectResultsSubst(result));
@@ -300,6 +313,7 @@ struct ThermoBatch::Impl
     auto selectProvidedReactionsProperties(vtpr vTpr) -> void
     {
         results.clear();
+        checkProperties("reaction");
         for (auto result : vTpr)
         {
             results.push_back(selectResultsReact(result));
-- 
2.43.0


From c64af8442ab1d32c3ad6bd23c24b562415021c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 088/109] fix: setUnits and setDigits keep the units and digits
 that are not given

---
 ThermoFun/Batch/ThermoBatch.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 30cad4f..4adc142 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -523,12 +523,14 @@ auto ThermoBatch::thermoPropertiesReaction(vvd tpPairs, vstr symbols, vstr prope
 // Set functions
 auto ThermoBatch::setDigits(const std::map<std::string, int> &propDigits)-> void
 {
-    pimpl->givenPropertyDigits = propDigits;
+    for (const auto& digit : propDigits)
+        setPropertyDigit(digit.first, digit.second);
 }
 
 auto ThermoBatch::setUnits(const std::map<std::string, std::string> &units)-> void
 {
-    pimpl->givenPropertyUnits = units;
+    for (const auto& unit : units)
+        setPropertyUnit(unit.first, unit.second);
 }
 
 auto ThermoBatch::setPropertiesUnits(const vstr &properties, const vstr &units)-> void
-- 
2.43.0


From 1a8d4183f6b10751a854a6086a192418d9ddf179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 089/109] fix: lists of different lengths given to a batch are
 reported instead of reading beyond their end

---
 ThermoFun/Batch/ThermoBatch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4adc142..f9c0011 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -304,6 +304,7 @@ struct ThermoBatch::Impl
     {
         results.clear();
         checkProperties("substance");
+        funErrorIf(vTps.size() != symbols.size()*tpPairs.size(), "Cannot use the provided properties", "There has to be one for each symbol and T-P pair", __LINE__, __FILE__);
         for (auto result : vTps)
         {
             results.push_back(selectResultsSubst(result));
@@ -314,6 +315,7 @@ struct ThermoBatch::Impl
     {
         results.clear();
         checkProperties("reaction");
+        funErrorIf(vTpr.size() != symbols.size()*tpPairs.size(), "Cannot use the provided properties", "There has to be one for each symbol and T-P pair", __LINE__, __FILE__);
         for (auto result : vTpr)
         {
             results.push_back(selectResultsReact(result));
@@ -535,12 +537,14 @@ auto ThermoBatch::setUnits(const std::map<std::string, std::string> &units)-> vo
 
 auto ThermoBatch::setPropertiesUnits(const vstr &properties, const vstr &units)-> void
 {
+    funErrorIf(properties.size() != units.size(), "Cannot set the units", "There has to be one unit for each property", __LINE__, __FILE__);
     for (std::size_t i=0; i<properties.size(); i++)
         setPropertyUnit(properties[i], units[i]);
 }
 
 auto ThermoBatch::setPropertiesDigits(const vstr &properties, const std::vector<int> &propDigits)-> void
 {
+    funErrorIf(properties.size() != propDigits.size(), "Cannot set the digits", "There has to be one number of digits for each property", __LINE__, __FILE__);
     for (std::size_t i=0; i<properties.size(); i++)
         setPropertyDigit(properties[i], propDigits[i]);
 }
-- 
2.43.0


From be3cd879554efd24e41e97badfd8f271eec5a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 090/109] fix: an empty separator does not make the output of a
 batch run forever

---
 ThermoFun/Batch/OutputBatch.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index f49a797..811da29 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -55,6 +55,8 @@ Output::Output(const ThermoBatch& batch)
 
 auto find_and_replace(std::string source, std::string const& find, std::string const& replace) -> std::string
 {
+    if (find.empty())
+        return source;
     for(std::string::size_type i = 0; (i = source.find(find, i)) != std::string::npos;)
     {
         source.replace(i, find.length(), replace);
-- 
2.43.0


From 52ca3d52c66747814d4e3c90b838c09562609ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 091/109] fix: a results file that cannot be opened is reported

---
 ThermoFun/Batch/OutputBatch.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 811da29..ec2d302 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include "../GlobalVariables.h"
 #include "../Common/Units.hpp"
+#include "../Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -43,6 +44,13 @@ struct Output::Impl
           batch.units(), batch.digits(), batch.outputSettings()}
     {}
 
+    auto open(const std::string &filename) -> void
+    {
+        // a new stream, without the state an earlier file that was not completed has left
+        fProperties = std::ofstream(filename, std::ios::trunc);
+        funErrorIf(!fProperties.is_open(), "Cannot write the results", "The file cannot be opened: " + filename, __LINE__, __FILE__);
+    }
+
 };
 
 Output::Output(const ThermoBatch& batch)
@@ -67,7 +75,7 @@ auto find_and_replace(std::string source, std::string const& find, std::string c
 
 auto Output::toCSV(std::string filename) -> void
 {
-    pimpl->fProperties.open( filename, std::ios::trunc );
+    pimpl->open(filename);
 
     pimpl->fProperties << CSVHeader() << std::endl;
 
@@ -78,7 +86,7 @@ auto Output::toCSV(std::string filename) -> void
 
 auto Output::toCSVTransposed(std::string filename) -> void
 {
-    pimpl->fProperties.open( filename, std::ios::trunc );
+    pimpl->open(filename);
 
     pimpl->fProperties << CSVHeaderTransposed() << std::endl;
 
@@ -93,7 +101,7 @@ auto Output::toCSVPropertyGrid(std::string filename) -> void
     for (size_t i = 0; i<properties.size(); i++)
     {
         auto name = filename.find_last_of("/\\") + 1; // after the folder, if there is one
-        pimpl->fProperties.open(filename.substr(0, name) + properties[i] + "_" + filename.substr(name), std::ios::trunc );
+        pimpl->open(filename.substr(0, name) + properties[i] + "_" + filename.substr(name));
 
         pimpl->fProperties << CSVHeaderPropertyGrid() << std::endl;
 
-- 
2.43.0


From d754de8b6b70ef5718f34cf3b48856ff3920773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 092/109] fix: asking an empty batch for its value is reported

---
 ThermoFun/Batch/OutputBatch.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index ec2d302..6c0d337 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -113,11 +113,13 @@ auto Output::toCSVPropertyGrid(std::string filename) -> void
 
 auto Output::toDouble() -> double
 {
+    funErrorIf(pimpl->api.results().empty() || pimpl->api.results()[0].empty(), "There is no result to return", "Nothing has been calculated", __LINE__, __FILE__);
     return pimpl->api.results()[0][0].val;
 }
 
 auto Output::toThermoScalar() -> Reaktoro_::ThermoScalar
 {
+    funErrorIf(pimpl->api.results().empty() || pimpl->api.results()[0].empty(), "There is no result to return", "Nothing has been calculated", __LINE__, __FILE__);
     return pimpl->api.results()[0][0];
 }
 
-- 
2.43.0


From 7584fc52b7315538908453af114b0054ddc3bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 093/109] fix: the columns of the dielectric properties agree
 with their header

---
 ThermoFun/Common/OutputToCSV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index d686b5a..95434c9 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -147,7 +147,7 @@ auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, d
     }
 
     fElectroPropertiesSolvent << symbol << c << T << c << P << c <<
-                                 eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c << eps.bornX     << c <<
+                                 eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c <<
                                  eps.bornX     << c << eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
                                  eps.epsilonP  << c << eps.epsilonPP << c << eps.epsilonT  << c << eps.epsilonTP << c <<
                                  eps.epsilonTT << std::endl;
-- 
2.43.0


From 7ba32ba0b856d490cf9637641b8a029b1fb1015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 094/109] fix: opening another output file does not lose what
 is written to it

---
 ThermoFun/Common/OutputToCSV.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index 95434c9..a439f09 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -80,6 +80,8 @@ auto OutputToCSV::closeElectroPropertiesSolventFile ( ) ->void
 
 auto OutputToCSV::openThermoPropertiesSubstanceFile (std::string fileName) ->void
 {
+    closeThermoPropertiesSubstanceFile();
+
     fileThermoPropertiesSubstance = fileName;
 
     std::string fullPath = outputFolderPath + "/" + fileName;
@@ -89,6 +91,8 @@ auto OutputToCSV::openThermoPropertiesSubstanceFile (std::string fileName) ->voi
 
 auto OutputToCSV::openPropertiesSolventFile (std::string fileName) ->void
 {
+    closePropertiesSolventFile();
+
     filePropertiesSolvent = fileName;
 
     std::string fullPath = outputFolderPath + "/" + fileName;
@@ -98,6 +102,8 @@ auto OutputToCSV::openPropertiesSolventFile (std::string fileName) ->void
 
 auto OutputToCSV::openElectroPropertiesSolventFile (std::string fileName) ->void
 {
+    closeElectroPropertiesSolventFile();
+
     fileElectroPropertiesSolvent = fileName;
 
     std::string fullPath = outputFolderPath + "/" + fileName;
-- 
2.43.0


From 20fb628f8a76fab1636b739914cc9587134a9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 095/109] fix: copying a calculator does not read indeterminate
 method codes

---
 ThermoFun/ThermoEngine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 83e8528..0c0dc87 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -36,9 +36,9 @@ struct WorkPreferences
 {
     Substance workSubstance;
     Reaction workReaction;
-    MethodGenEoS_Thrift::type method_genEOS;
-    MethodCorrT_Thrift::type method_T;
-    MethodCorrP_Thrift::type method_P;
+    MethodGenEoS_Thrift::type method_genEOS = {};
+    MethodCorrT_Thrift::type method_T = {};
+    MethodCorrP_Thrift::type method_P = {};
     int solvent_state = 0; // 0: liquid; 1: vapor
 
     bool isHydrogen = false;
-- 
2.43.0


From 63e30583a4b18248d4b7bd5328eb49f3c2b1a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:20 +0000
Subject: [PATCH 096/109] fix: the HGK water model (GEMS) kept terms of its
 density in process-wide variables

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 135580a..d63101f 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -225,7 +225,7 @@ return wp;
 *            comparisons are set and stored in COMMON /tolers/.     */
 
 
-ACONST  ac_ = { /* wm, gascon, tz, aa, uref, sref*/
+thread_local ACONST  ac_ = { /* wm, gascon, tz, aa, uref, sref*/
     0.1801520000e2, 0.46152200e0, 0.647073e3, 0.1e1,
     -0.4328455039e4, 0.76180802e1,  0., 0., 0.};
 
-- 
2.43.0


From 0020f3ec319eb529a264d81ce89843ff4ae0d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:30 +0000
Subject: [PATCH 097/109] fix: models with too few coefficients report it and
 do not read past them

---
 ThermoFun/Reactions/DolejsManning2010.cpp         | 4 ++++
 ThermoFun/Reactions/FrantzMarshall.cpp            | 4 ++++
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp         | 4 ++++
 ThermoFun/Substances/Solute/SoluteADgems.cpp      | 4 ++--
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 6 +++++-
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 6 +++++-
 6 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index cdae3be..2f577e3 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -1,4 +1,5 @@
 #include "DolejsManning2010.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -14,6 +15,9 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdTw = wp.dAldT;
     auto DMcoef = reaction.thermoParameters().reaction_DM10_coeff;
 
+    if (DMcoef.size() < 5)
+        errorModelParameters("five Dolejs-Manning", reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALPw*RHOw;
     auto dRHOdP = BETw*RHOw;
     auto d2RHOdT2 = RHOw*(pow(ALPw,2)-dALPdTw);
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index 22a1223..4054fcb 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -1,4 +1,5 @@
 #include "FrantzMarshall.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -14,6 +15,9 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dALPdT = wp.dAldT;
     auto MFcoef = reaction.thermoParameters().reaction_FM_coeff;
 
+    if (MFcoef.size() < 7)
+        errorModelParameters("seven Marshall-Franck", reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index 3808e2e..b13237f 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -1,4 +1,5 @@
 #include "RyzhenkoBryzgalyn.h"
+#include "Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -14,6 +15,9 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdT = wp.dAldT;
     auto RBcoef = reaction.thermoParameters().reaction_RB_coeff;
 
+    if (RBcoef.size() < 3)
+        errorModelParameters("three Ryzhenko-Bryzgalin", reaction.symbol(), __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 80d9e1a..29c5ae5 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -39,11 +39,11 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
 
     const auto ADparam = subst.thermoParameters().Cp_nonElectrolyte_coeff;
 
-    if (ADparam.size() == 0)
+    if (ADparam.size() < 3)
     {
         Exception exception;
         exception.error << "Error in Akinfiev Diamond EOS";
-        exception.reason << "There are no model parameters given for "<<subst.symbol() << ".";
+        exception.reason << "There are not three model parameters given for "<<subst.symbol() << ".";
         exception.line = __LINE__;
         RaiseError(exception);
     }
diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 7e50b0c..8aef65c 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -26,7 +26,7 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
 
     auto TK = Reaktoro_::Temperature (TC.val+C_to_K);
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFgems EOS";
@@ -256,6 +256,10 @@ auto omeg92(FunctionG g, Substance species) -> ElectroPropertiesSubstance
     const auto chg = species.charge();
 
     auto hkf = species.thermoParameters().HKF_parameters;
+
+    if (hkf.size() < 7)
+        errorModelParameters("seven HKF", species.symbol(), __LINE__, __FILE__);
+
     const auto wref = hkf[6] /*hkf.wref*/;
 
     ElectroPropertiesSubstance eps;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 4db3a72..5413cd8 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -48,7 +48,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto hkf = subst.thermoParameters().HKF_parameters;
     auto refProp = subst.thermoReferenceProperties();
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFreaktoro EOS";
@@ -150,6 +150,10 @@ auto speciesElectroStateHKF(const FunctionG& g, Substance species) -> ElectroPro
     // Get the HKF thermodynamic parameters of the aqueous species
     auto hkf = species.thermoParameters().HKF_parameters;
 
+    if (hkf.size() < 7)
+        errorModelParameters("seven HKF", species.symbol(), __LINE__, __FILE__);
+
+
     // The species electro instance to be calculated
     ElectroPropertiesSubstance se;
 
-- 
2.43.0


From e0cd02ddfaceda8d8040cbd3459cdd94617f46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:30 +0000
Subject: [PATCH 098/109] fix: an error of the fluid models is a standard
 exception

---
 ThermoFun/Substances/Gases/verror.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Gases/verror.h b/ThermoFun/Substances/Gases/verror.h
index 8d53b4c..38de30e 100644
--- a/ThermoFun/Substances/Gases/verror.h
+++ b/ThermoFun/Substances/Gases/verror.h
@@ -25,6 +25,7 @@
 #ifndef _verror_h_
 #define _verror_h_
 
+#include <exception>
 #include <string>
 
 static const size_t npos = std::string::npos;
@@ -34,7 +35,7 @@ static const size_t npos = std::string::npos;
 void strip(std::string& str);
 
 
-struct TError
+struct TError : public std::exception
 {
     std::string mess;
     std::string title;
@@ -49,6 +50,9 @@ struct TError
     virtual ~TError()
     {}
 
+    const char* what() const noexcept override
+    { return mess.c_str(); }
+
 };
 
 
-- 
2.43.0


From 3e3f02e1d2436f490930ac993d1d8f47d5c0a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:30 +0000
Subject: [PATCH 099/109] fix: a method number that is not known is a value of
 the type of method numbers

---
 ThermoFun/GlobalVariables.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/GlobalVariables.h b/ThermoFun/GlobalVariables.h
index 1bf067b..95d39c2 100644
--- a/ThermoFun/GlobalVariables.h
+++ b/ThermoFun/GlobalVariables.h
@@ -80,7 +80,7 @@ static const std::unordered_map<std::string, WaterTripleProperties> waterTripleD
     }}
 };
 
-enum SubstanceTPMethodType {
+enum SubstanceTPMethodType : int {
     cp_ft_equation = 0,
     cp_ft_equation_saxena86 = 1,
     solute_hkf88_gems = 2,
@@ -127,7 +127,7 @@ enum SubstanceTPMethodType {
     standard_entropy_cp_integration = 43
 };
 
-enum ReactionTPMethodType {
+enum ReactionTPMethodType : int {
     logk_fpt_function = 0,
     adsor_ion_exchange = 1,
     iso_compounds_grichuk88 = 2,
-- 
2.43.0


From 8c225f7aafcb089c517f64aef1146d09fa5a6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:44 +0000
Subject: [PATCH 100/109] fix: a temperature-pressure pair that is no pair is
 reported

---
 ThermoFun/Batch/ThermoBatch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index f9c0011..27aff1d 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -172,6 +172,7 @@ struct ThermoBatch::Impl
         clearTPpairs();
         for (unsigned i=0; i <tpPairs.size(); i++)
         {
+            funErrorIf(tpPairs[i].size() < 2, "Cannot use the temperature-pressure pairs", "A pair has to have a temperature and a pressure", __LINE__, __FILE__);
             addTPpair(tpPairs[i][0], tpPairs[i][1]);
         }
     }
-- 
2.43.0


From b1839b30fddb3fef5e274e45450a62fd5f4e7d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:59 +0000
Subject: [PATCH 101/109] fix: substances defined by themselves are reported
 and do not recurse without end

---
 ThermoFun/ThermoEngine.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 0c0dc87..3a28e5c 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -13,7 +13,10 @@
 
 #include "OptimizationUtils.h"
 #include "Substances/Solvent/Reaktoro/WaterConstants.hpp"
+#include <algorithm>
 #include <functional>
+#include <tuple>
+#include <vector>
 
 namespace ThermoFun
 {
@@ -58,6 +61,25 @@ struct ScopedFlag
     ScopedFlag(const ScopedFlag&) = delete;
 };
 
+/// Identifies a calculation of a substance: its symbol, reaction and methods
+using SubstanceCalculation = std::tuple<std::string, std::string, int, int, int, int>;
+
+/// Has a calculation in the list of the ones in progress until the end of the scope
+struct ScopedCalculation
+{
+    std::vector<SubstanceCalculation> &inProgress;
+    ScopedCalculation(std::vector<SubstanceCalculation> &inProgress, const Substance &substance) : inProgress(inProgress)
+    {
+        SubstanceCalculation calculation{substance.symbol(), substance.reactionSymbol(), substance.thermoCalculationType(),
+                    substance.methodGenEOS(), substance.method_T(), substance.method_P()};
+        funErrorIf(std::find(inProgress.begin(), inProgress.end(), calculation) != inProgress.end(), "The substance is defined by itself",
+                   "The properties of " + substance.symbol() + " are needed for the calculation of its own properties.", __LINE__, __FILE__);
+        inProgress.push_back(calculation);
+    }
+    ~ScopedCalculation() { inProgress.pop_back(); }
+    ScopedCalculation(const ScopedCalculation&) = delete;
+};
+
 using ThermoPropertiesSubstanceFunction =
     std::function<ThermoPropertiesSubstance(double, double, double &, std::string, bool)>;
 
@@ -81,6 +103,8 @@ struct ThermoEngine::Impl
 
     mutable EngineConventions conventions;
 
+    mutable std::vector<SubstanceCalculation> inProgress;
+
     ThermoPropertiesSubstanceFunction thermo_properties_substance_fn;
 
     ElectroPropertiesSolventFunction electro_properties_solvent_fn;
@@ -326,6 +350,7 @@ struct ThermoEngine::Impl
 
     auto thermoPropertiesSubstance(double T, double &P, const Substance &substance) const -> ThermoPropertiesSubstance
     {
+        ScopedCalculation calculation(inProgress, substance);
         WorkPreferences pref = getThermoPreferencesSubstance(substance);
         ThermoPropertiesSubstance tps;
 
@@ -718,6 +743,7 @@ struct ThermoEngine::Impl
         else
         {
             subst.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON);
+            subst.setThermoCalculationType(SubstanceThermoCalculationType::type::DCOMP);
             return thermoPropertiesSubstance(T, P, subst);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
-- 
2.43.0


From 2d61ee2d98fb4d004fc4690234cb591030591eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:40 +0000
Subject: [PATCH 102/109] fix: powers of a large charge do not overflow

---
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 5413cd8..a0bca2c 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -169,7 +169,7 @@ auto speciesElectroStateHKF(const FunctionG& g, Substance species) -> ElectroPro
     }
     else
     {
-        const auto z = species.charge();
+        const double z = species.charge();
         const auto wref = hkf[6] /*hkf.wref*/;
 
         const auto reref = z*z/(wref/eta + z/3.082);
-- 
2.43.0


From 945d898a9cf237799903b0fe3c4a6c555da5c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:01 +0000
Subject: [PATCH 103/109] fix: a substance record without temperature or
 pressure limits has no limits to be out of

---
 ThermoFun/Substance.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substance.cpp b/ThermoFun/Substance.cpp
index a17c8e1..9e45f2b 100644
--- a/ThermoFun/Substance.cpp
+++ b/ThermoFun/Substance.cpp
@@ -323,7 +323,8 @@ auto Substance::jsonString() const -> std::string
 
 auto Substance::checkCalcMethodBounds(std::string modelName, double T, double P, ThermoPropertiesSubstance &tps) -> void
 {
-    if (pimpl->upper_P<(P) || pimpl->upper_T<(T) ||
+    // limits that are not given in the record are zero
+    if ((pimpl->upper_P != 0.0 && pimpl->upper_P<(P)) || (pimpl->upper_T != 0.0 && pimpl->upper_T<(T)) ||
         pimpl->lower_P>(P) || pimpl->lower_T>(T))
     {
         std::string message = modelName +": out of "
-- 
2.43.0


From 9540314fa996bfde6c453983814b112910e9d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:01 +0000
Subject: [PATCH 104/109] fix: the heat capacity integration outside of its
 temperature intervals is marked in the results

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 18a2883..16c4812 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -18,6 +18,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     Reaktoro_::ThermoScalar V;
     V = 0.0;
     int k = -1;
+    bool outside = false; // of the temperature intervals of the record
     std::vector<double> ac;
     auto TK_ = TK;
     for (unsigned i = 0; i < 16; i++)
@@ -62,10 +63,15 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     {
         // outside of the intervals: the last one that starts below the temperature, or the first
         k = 0;
+        outside = !thermo_parameters.temperature_intervals.empty();
         for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
         {
             if (thermo_parameters.temperature_intervals[i].size() > 1 && thermo_parameters.temperature_intervals[i][0] <= TK_)
+            {
                 k = i;
+                if (thermo_parameters.temperature_intervals[i][1] >= TK_) // the upper bound belongs to the interval
+                    outside = false;
+            }
         }
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
@@ -199,7 +205,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     if (V.val != 0.0) // the volume changes of transitions; otherwise the volume is left to the models of volume
         thermo_properties_PT.volume = V;
 
-    if (k < 0)
+    if (outside)
     {
         setMessage(Reaktoro_::Status::calculated, "Empirical Cp integration: Outside temperature bounds", thermo_properties_PT);
     }
-- 
2.43.0


From f13a371fb248bf20f89efd8486e9ad7023cd4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:21 +0000
Subject: [PATCH 105/109] fix: the messages of a calculation step survive the
 later steps

---
 ThermoFun/Common/Exception.cpp      | 19 +++++++++++++++++++
 ThermoFun/Common/Exception.h        |  3 +++
 ThermoFun/ThermoEngine.cpp          |  8 ++++++++
 ThermoFun/ThermoModelsSubstance.cpp |  2 ++
 4 files changed, 32 insertions(+)

diff --git a/ThermoFun/Common/Exception.cpp b/ThermoFun/Common/Exception.cpp
index 450820d..93e73ea 100644
--- a/ThermoFun/Common/Exception.cpp
+++ b/ThermoFun/Common/Exception.cpp
@@ -152,6 +152,25 @@ auto setMessage(Reaktoro_::Status sta, std::string message, ThermoPropertiesReac
         tpr.reaction_volume.sta.second += message + "; ";
 }
 
+static auto keepMessage(const Reaktoro_::ThermoScalar &before, Reaktoro_::ThermoScalar &property) -> void
+{
+    const auto& message = before.sta.second;
+    if (property.sta.first == Reaktoro_::Status::calculated && property.sta.second.find(message) == std::string::npos)
+        property.sta.second = message + property.sta.second;
+}
+
+auto keepMessages(const ThermoPropertiesSubstance &before, ThermoPropertiesSubstance &tps) -> void
+{
+    keepMessage(before.enthalpy, tps.enthalpy);
+    keepMessage(before.entropy, tps.entropy);
+    keepMessage(before.gibbs_energy, tps.gibbs_energy);
+    keepMessage(before.heat_capacity_cp, tps.heat_capacity_cp);
+    keepMessage(before.heat_capacity_cv, tps.heat_capacity_cv);
+    keepMessage(before.helmholtz_energy, tps.helmholtz_energy);
+    keepMessage(before.internal_energy, tps.internal_energy);
+    keepMessage(before.volume, tps.volume);
+}
+
 auto errorMethodNotFound(std::string type, std::string name, int line, std::string file) -> void
 {
     Exception exception;
diff --git a/ThermoFun/Common/Exception.h b/ThermoFun/Common/Exception.h
index adf1009..6fad256 100644
--- a/ThermoFun/Common/Exception.h
+++ b/ThermoFun/Common/Exception.h
@@ -92,6 +92,9 @@ auto setMessage(Reaktoro_::Status sta, std::string message , ThermoPropertiesSub
 
 auto setMessage(Reaktoro_::Status sta, std::string message, ThermoPropertiesReaction &tpr ) -> void;
 
+/// Keep the messages of an earlier step of the calculation for the properties a later step has changed
+auto keepMessages(const ThermoPropertiesSubstance &before, ThermoPropertiesSubstance &tps) -> void;
+
 auto funError(const std::string& error, const std::string& reason, const int& line, const std::string& file) -> void;
 
 auto funErrorIf(bool condition, const std::string& error, const std::string& reason, const int& line, const std::string& file) -> void;
diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 3a28e5c..86d84f1 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -222,6 +222,7 @@ struct ThermoEngine::Impl
     /// Converts geochemical, Benson-Helgeson properties to the conventions in use
     auto toConventions(ThermoPropertiesSubstance &tps, const WorkPreferences &pref) const -> void
     {
+        const auto before = tps;
         if (pref.isH2OSolvent)
         {
             if (iequals(conventions.water_properties, "STEAM_TABLES"))
@@ -236,6 +237,7 @@ struct ThermoEngine::Impl
                 toBermanBrown(tps, pref.workSubstance);
             }
         }
+        keepMessages(before, tps);
     }
 
     auto getThermoPreferencesReaction(const Reaction &reaction) const -> WorkPreferences
@@ -419,7 +421,9 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrT_Thrift::type::CTM_CHP:
                 {
+                    const auto before = tps;
                     tps = HPLandau(pref.workSubstance).thermoProperties(T, P, tps);
+                    keepMessages(before, tps);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_CST:
@@ -433,6 +437,8 @@ struct ThermoEngine::Impl
                     //                errorMethodNotFound("substance", pref.workSubstance.symbol(), __LINE__);
                 }
 
+                const auto before = tps;
+
                 // method P
                 if (pref.method_genEOS != MethodGenEoS_Thrift::type::CTPM_CON)
                 switch (pref.method_P)
@@ -509,6 +515,8 @@ struct ThermoEngine::Impl
                     //                // Exception
                     //                errorMethodNotFound("substance", pref.workSubstance.symbol(), __LINE__);
                 }
+
+                keepMessages(before, tps);
             }
 
             auto water_triple_reference = database.conventions().water_triple_point_reference;
diff --git a/ThermoFun/ThermoModelsSubstance.cpp b/ThermoFun/ThermoModelsSubstance.cpp
index 35ed0b4..a5080df 100644
--- a/ThermoFun/ThermoModelsSubstance.cpp
+++ b/ThermoFun/ThermoModelsSubstance.cpp
@@ -497,10 +497,12 @@ auto HPLandau::thermoProperties(double T, double P, ThermoPropertiesSubstance tp
 
 auto applyPressure(ThermoPropertiesSubstance tps, Reaktoro_::Temperature t, Reaktoro_::Pressure p, double pr) -> ThermoPropertiesSubstance
 {
+    const auto before = tps;
     tps.gibbs_energy    += tps.volume * (p - (pr / bar_to_Pa));
     tps.enthalpy        += tps.volume * (p - (pr / bar_to_Pa));
     tps.internal_energy  = tps.enthalpy - p*tps.volume;
     tps.helmholtz_energy = tps.internal_energy - (t)*tps.entropy;
+    keepMessages(before, tps);
     return tps;
 }
 
-- 
2.43.0


From cb27f24802011b2555c73a1bddaa2f72e218bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:45 +0000
Subject: [PATCH 106/109] fix: a reaction calculated from its components
 carries the messages of all of them

---
 ThermoFun/ThermoEngine.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 86d84f1..bfa11be 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -919,6 +919,16 @@ struct ThermoEngine::Impl
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
+        // the messages of all components
+        std::string message_cp = message, message_G = message, message_H = message, message_S = message, message_V = message;
+        auto addMessage = [](const Reaktoro_::ThermoScalar &property, const std::string &name, std::string &message_)
+        {
+            if (property.sta.first == Reaktoro_::Status::notdefined)
+                message_ += name + " not defined; ";
+            else if (!property.sta.second.empty())
+                message_ += name + ": " + property.sta.second;
+        };
+
         for (auto &reactant : reaction.reactants())
         {
             auto coeff      = reactant.second;
@@ -944,15 +954,21 @@ struct ThermoEngine::Impl
             tpr.reaction_internal_energy    += tps.internal_energy*coeff;
             tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
-            setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
-            setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-            setMessage(tps.enthalpy.sta.first,         "H0 of component " + substance, message+tps.enthalpy.sta.second,         tpr.reaction_enthalpy.sta.second);
-            setMessage(tps.entropy.sta.first,          "S0 of component " + substance, message+tps.entropy.sta.second,          tpr.reaction_entropy.sta.second);
-            setMessage(tps.volume.sta.first,           "V0 of component " + substance, message+tps.volume.sta.second,           tpr.reaction_volume.sta.second);
-            setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.log_equilibrium_constant.sta.second);
-            setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
+            addMessage(tps.heat_capacity_cp, "Cp of component " + substance, message_cp);
+            addMessage(tps.gibbs_energy,     "G0 of component " + substance, message_G);
+            addMessage(tps.enthalpy,         "H0 of component " + substance, message_H);
+            addMessage(tps.entropy,          "S0 of component " + substance, message_S);
+            addMessage(tps.volume,           "V0 of component " + substance, message_V);
         }
 
+        tpr.reaction_heat_capacity_cp.sta.second = message_cp;
+        tpr.reaction_gibbs_energy.sta.second     = message_G;
+        tpr.reaction_enthalpy.sta.second         = message_H;
+        tpr.reaction_entropy.sta.second          = message_S;
+        tpr.reaction_volume.sta.second           = message_V;
+        tpr.log_equilibrium_constant.sta.second  = message_G;
+        tpr.ln_equilibrium_constant.sta.second   = message_G;
+
         return tpr;
     }
 };
-- 
2.43.0


From 0d1fbbfc3e2fbb827ba2bdf9d2d888eddfa3bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:51 +0000
Subject: [PATCH 107/109] fix: a pressure at the limit of a record is not
 outside of it after its conversion to bar

---
 ThermoFun/Substance.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substance.cpp b/ThermoFun/Substance.cpp
index 9e45f2b..1a696cc 100644
--- a/ThermoFun/Substance.cpp
+++ b/ThermoFun/Substance.cpp
@@ -1,5 +1,8 @@
 #include "Substance.h"
 
+// C++ includes
+#include <cmath>
+
 // ThermoFun includes
 #include "Common/Exception.h"
 #include "ThermoProperties.h"
@@ -323,9 +326,12 @@ auto Substance::jsonString() const -> std::string
 
 auto Substance::checkCalcMethodBounds(std::string modelName, double T, double P, ThermoPropertiesSubstance &tps) -> void
 {
+    // the pressure has been converted to bar and back
+    const double rounding = 1e-12*std::fabs(P);
+
     // limits that are not given in the record are zero
-    if ((pimpl->upper_P != 0.0 && pimpl->upper_P<(P)) || (pimpl->upper_T != 0.0 && pimpl->upper_T<(T)) ||
-        pimpl->lower_P>(P) || pimpl->lower_T>(T))
+    if ((pimpl->upper_P != 0.0 && pimpl->upper_P<(P-rounding)) || (pimpl->upper_T != 0.0 && pimpl->upper_T<(T)) ||
+        pimpl->lower_P>(P+rounding) || pimpl->lower_T>(T))
     {
         std::string message = modelName +": out of "
                                     "T(" + std::to_string(pimpl->lower_T) + "-" + std::to_string(pimpl->upper_T) +" K) and "
-- 
2.43.0


From 21b02e6ff73b43e4e6a01b5a432664c272d1e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:19 +0000
Subject: [PATCH 108/109] fix: the Akinfiev-Diamond model marks the results it
 returns when outside of the limits

---
 ThermoFun/Substances/Solute/SoluteADgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 29c5ae5..7efb3f5 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -99,7 +99,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
     state.internal_energy  = state.enthalpy - Pbar*state.volume;
     state.helmholtz_energy = state.internal_energy - Tk*state.entropy;
 
-    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, tps);
+    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, state);
 
     return state;
 }
-- 
2.43.0


From ef631815997acd86bcab4bacf2bc6b7db09c9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:58 +0000
Subject: [PATCH 109/109] fix: steam described by an equation of state of water
 is calculated with it

---
 ThermoFun/ThermoEngine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index bfa11be..2e40a47 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -305,8 +305,10 @@ struct ThermoEngine::Impl
         else
             workPreferences.isHydrogen = false;
 
-        // check for H2O vapor
-        if (workPreferences.method_genEOS == MethodGenEoS_Thrift::type::CTPM_HKF && workPreferences.method_P == MethodCorrP_Thrift::type::CPM_GAS)
+        // check for H2O vapor: a gas calculated with one of the equations of state of water
+        const bool waterEOS = workPreferences.method_T == MethodCorrT_Thrift::type::CTM_WAT || workPreferences.method_T == MethodCorrT_Thrift::type::CTM_WAR ||
+                              workPreferences.method_T == MethodCorrT_Thrift::type::CTM_WWP || workPreferences.method_T == MethodCorrT_Thrift::type::CTM_WZD;
+        if (workPreferences.method_P == MethodCorrP_Thrift::type::CPM_GAS && (waterEOS || workPreferences.method_genEOS == MethodGenEoS_Thrift::type::CTPM_HKF))
             workPreferences.isH2Ovapor = true;
         else
             workPreferences.isH2Ovapor = false;
-- 
2.43.0

