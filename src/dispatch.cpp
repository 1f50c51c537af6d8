// H09: a record is calculated with the models its methods name.
#include "phys.hpp"
#include <ThermoModelsSubstance.h>
#include <ThermoModelsSolvent.h>
#include <ElectroModelsSolvent.h>
#include <ThermoModelsReaction.h>
using namespace phys; using mc::Report;
typedef ThermoPropertiesSubstance TPS; typedef ThermoPropertiesReaction TPR; typedef std::vector<int> Methods;

static std::string name(int k) { return enum_method_substance.at(k); }
static std::string nameR(int k) { return enum_method_reaction.at(k); }
static json nums(const std::vector<double>& v) { json j; j["values"] = v; return j; }
// what belongs to a method in a record
static json entry(int k) { json e; e["method"][std::to_string(k)] = name(k);
    switch (k) { case 0: case 1: e["m_heat_capacity_ft_coeffs"] = nums({60.7, 0.008189, -7e5, -128.3, 0, 0, 0, 0, 0, 0, 0}); e["limitsTP"] = {{"range", true}, {"lowerT", 200.0}, {"upperT", 3000.0}}; break;
        case 2: case 3: e["eos_hkf_coeffs"] = nums({0.18390, -228.5, 3.256, -27260, 18.18, -29810, 33060}); break;
        case 4: e["eos_akinfiev_diamond_coeffs"] = nums({-0.3, -12.5, 9.1}); break; case 5: e["m_landau_phase_trans_props"] = nums({575, 4.95, 0.1188}); break;
        case 8: case 9: case 11: case 13: e["eos_gas_crit_props"] = nums({304.2, 73.8, 0.22, k == 9 ? 0.04 : 0, 0, 0}); break; case 12: case 14: e["eos_gas_crit_props"] = nums({304.2, 73.8, 0, 0}); break;
        case 10: e["eos_churakov_gottschalk_coeffs"] = nums({3.3952, 116.79, 0.0, 0.0, 0, 0, 0, 0, 0, 0, 0, 0}); break;
        case 36: e["m_volume_fpt_coeffs"] = nums({2.4e-5, 1.0e-9, -1.2e-6, 2.0e-12, 0}); break; case 37: e["eos_birch_murnaghan_coeffs"] = nums({1e-5, 1e-9, 0, 0, 0, 370000, -30, 6.0, 0.0, 0, 0}); break;
        case 41: e["solute_holland_powell98_coeff"] = nums({0.0283}); break; }
    return e; }
static Substance record(const std::string& sym, const std::string& formula, int charge, int cls, int agg, const Methods& ms, bool byName, const std::vector<double>& ref) {
    static const char* C[] = {"SC_COMPONENT", "SC_GASFLUID", "SC_AQSOLUTE", "SC_AQSOLVENT"}; static const std::map<int, const char*> A = {{0, "AS_GAS"}, {3, "AS_CRYSTAL"}, {4, "AS_AQUEOUS"}};
    json j; j["symbol"] = sym; j["name"] = sym; j["formula"] = formula; j["formula_charge"] = charge; j["class_"][std::to_string(cls)] = C[cls]; j["aggregate_state"][std::to_string(agg)] = A.at(agg); j["Tst"] = 298.15; j["Pst"] = 1e5;
    const char* f[] = {"sm_gibbs_energy", "sm_enthalpy", "sm_entropy_abs", "sm_heat_capacity_p", "sm_volume"}; for (int i = 0; i < 5; ++i) j[f[i]] = nums({ref[i]});
    j["m_expansivity"] = nums({2.5e-5}); j["m_compressibility"] = nums({7e-4}); j["TPMethods"] = json::array(); for (int k : ms) { j["TPMethods"].push_back(entry(k)); } (void)byName; return Substance(j.dump()); }

struct Case { std::string kind, lab; std::function<void(Report&)> run; };
static std::vector<Case> cases;
static void tell(Report& r, const std::string& kind, const std::string& lab, const eng::Snap& got, const std::function<eng::Snap(int)>& by, const std::vector<std::string>& names, int mine) {
    r.states++; r.transitions++; r.traces++; eng::Snap want = by(mine); bool apart = true; std::string other; if (!eng::closeTo(got, want, 1e-12, 1e-9)) { for (size_t i = 0; i < names.size(); ++i) if (int(i) != mine && eng::closeTo(got, by(i), 1e-12, 1e-9)) other = " (" + names[i] + " gives that)"; r.violation(kind + ":" + names[mine], lab + ": " + eng::diff(got, want) + other, lab); return; }
    for (size_t i = 0; i < names.size() && apart; ++i) if (int(i) != mine && eng::closeTo(want, by(i), 1e-9, 1e-9)) apart = false;
    if (apart) r.nontrivial++; else r.counters["results that two models share"]++; }
template <class F> static eng::Snap attempt(F f) { try { return f(); } catch (const std::exception& x) { eng::Snap s; s.failed = true; s.error = eng::clean(x.what()); return s; } }
static Methods shuffled(const Methods& m, int order) { Methods v = m; std::sort(v.begin(), v.end()); for (int i = 0; i < order; ++i) if (!std::next_permutation(v.begin(), v.end())) return {}; return v; }
static std::string list(const Methods& m) { std::string s; for (int k : m) s += (s.empty() ? "" : ", ") + name(k); return s; }

static void minerals() {
    struct Step { std::string n; Methods m; std::function<TPS(const Substance&, double, double, TPS)> f; };
    static std::vector<Step> first = {{"heat capacity function", {0}, [](const Substance& s, double T, double P, TPS) { return EmpiricalCpIntegration(s).thermoProperties(T, P); }},
        {"heat capacity function and Landau transition", {0, 5}, [](const Substance& s, double T, double P, TPS) { return HPLandau(s).thermoProperties(T, P, EmpiricalCpIntegration(s).thermoProperties(T, P)); }},
        {"entropy and heat capacity", {43}, [](const Substance& s, double T, double P, TPS) { return EntropyCpIntegration(s).thermoProperties(T, P); }}};
    static std::vector<Step> solid = {{"nothing", {}, [](const Substance&, double, double, TPS t) { return t; }}, {"constant volume", {34}, [](const Substance& s, double T, double P, TPS t) { return ConMolVol(s).thermoProperties(T, P, t); }},
        {"Berman", {36}, [](const Substance& s, double T, double P, TPS t) { return MinBerman88(s).thermoProperties(T, P, t); }}, {"Birch-Murnaghan", {37}, [](const Substance& s, double T, double P, TPS t) { return MinBMGottschalk(s).thermoProperties(T, P, t); }},
        {"Murnaghan", {38}, [](const Substance& s, double T, double P, TPS t) { return MinMurnaghanEOSHP98(s).thermoProperties(T, P, t); }}};
    static bool corr = false; static auto gas = [](auto model) { return [model](const Substance& s, double T, double P, TPS t) { return model(s, T, P, t); }; };
    static std::vector<Step> fluid = {{"ideal gas", {40}, gas([](const Substance& s, double T, double P, TPS t) { return IdealGasLawVol(s).thermoProperties(T, P, t, corr); })}, {"Peng-Robinson-Stryjek-Vera", {9}, gas([](const Substance& s, double T, double P, TPS t) { return GasPRSV(s).thermoProperties(T, P, t, corr); })},
        {"Churakov-Gottschalk", {10}, gas([](const Substance& s, double T, double P, TPS t) { return GasCGF(s).thermoProperties(T, P, t, corr); })}, {"Soave-Redlich-Kwong", {11}, gas([](const Substance& s, double T, double P, TPS t) { return GasSRK(s).thermoProperties(T, P, t, corr); })},
        {"Sterner-Pitzer", {12}, gas([](const Substance& s, double T, double P, TPS t) { return GasSTP(s).thermoProperties(T, P, t, corr); })}, {"Peng-Robinson 1978", {13}, gas([](const Substance& s, double T, double P, TPS t) { return GasPR78(s).thermoProperties(T, P, t, corr); })},
        {"compensated Redlich-Kwong", {14}, gas([](const Substance& s, double T, double P, TPS t) { return GasCORK(s).thermoProperties(T, P, t, corr); })}};
    for (int g = 0; g < 2; ++g) for (size_t a = 0; a < first.size(); ++a) for (size_t b = 0; b < (g ? fluid : solid).size(); ++b) { if (g && a == 1) continue; auto& P2 = g ? fluid : solid; Methods all = first[a].m; for (int k : P2[b].m) all.push_back(k);
        for (int order = 0; order < 6; ++order) { Methods ms = shuffled(all, order); if (ms.empty()) break; std::string kind = g ? "gas" : "mineral";
            cases.push_back({kind, kind + " with " + list(ms), [=](Report& r) { auto& P2 = g ? fluid : solid; Substance s = record("X", g ? "CO2" : "SiO2", 0, g ? 1 : 0, g ? 0 : 3, ms, true, g ? std::vector<double>{-394350, -393510, 213.8, 37.1, 2478.9} : std::vector<double>{-855000, -910700, 41.43, 44.6, 2.269}); Database d; for (auto e : {"Si", "O", "C"}) (void)e;
                ThermoEngine e(d); std::vector<std::string> names; for (auto& p : P2) names.push_back(p.n); std::vector<std::string> names1; for (size_t i = 0; i < first.size(); ++i) if (!g || i != 1) names1.push_back(first[i].n);
                for (int c = 0; c < (g ? 2 : 1); ++c) for (double T : {298.15, 400., 673.15, 900., 1150.}) for (double P : {1e5, 5e7, 4e8}) { corr = c; e.preferences().apply_pressure_correction_to_gas_props = c; std::string lab = kind + " with " + list(ms) + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa" + (c ? ", pressure correction" : ""); mc::visiting(lab);
                    auto got = attempt([&] { double p = P; return eng::snap(e.thermoPropertiesSubstance(T, p, s)); });
                    tell(r, kind, lab, got, [&](int i) { return attempt([&] { return eng::snap(P2[i].f(s, T, P, first[a].f(s, T, P, TPS()))); }); }, names, b);
                    std::vector<int> idx; for (size_t i = 0; i < first.size(); ++i) if (!g || i != 1) idx.push_back(i); int mine = g && a == 2 ? 1 : a; tell(r, kind, lab, got, [&](int i) { return attempt([&] { if (idx[i] == 1 && first[a].m.size() < 2) return eng::Snap(); return eng::snap(P2[b].f(s, T, P, first[idx[i]].f(s, T, P, TPS()))); }); }, names1, mine); } }}); } } }

static const std::vector<int> eosCodes = {29, 31, 32, 33}, electroCodes = {25, 26, 27, 28};
static const std::vector<std::string> eosNames = {"Haar-Gallagher-Kell (GEMS)", "Haar-Gallagher-Kell (Reaktoro)", "IAPWS 95", "Zhang-Duan"}, electroNames = {"Johnson-Norton (Reaktoro)", "Johnson-Norton (GEMS)", "Sverjensky", "Fernandez"};
static Substance solvent(const std::string& sym, int eos, int el, int agg, bool swap) { Methods m = swap ? Methods{eosCodes[eos], electroCodes[el]} : Methods{electroCodes[el], eosCodes[eos]}; return record(sym, "H2O@", 0, 3, agg, m, true, {-237181, -285881, 69.92, 75.36, 1.807}); }
static TPS waterT(int k, const Substance& s, double T, double& P, int state, const std::string& triple) { switch (k) { case 0: return WaterHGK(s).thermoPropertiesSubstance(T, P, state, triple); case 1: return WaterHGKreaktoro(s).thermoPropertiesSubstance(T, P, state, triple); case 2: return WaterWP95reaktoro(s).thermoPropertiesSubstance(T, P, state, triple); } return WaterZhangDuan2005(s).thermoPropertiesSubstance(T, P, state); }
static PropertiesSolvent waterS(int k, const Substance& s, double T, double& P, int state) { switch (k) { case 0: return WaterHGK(s).propertiesSolvent(T, P, state); case 1: return WaterHGKreaktoro(s).propertiesSolvent(T, P, state); case 2: return WaterWP95reaktoro(s).propertiesSolvent(T, P, state); } return WaterZhangDuan2005(s).propertiesSolvent(T, P, state); }
static ElectroPropertiesSolvent waterE(int k, const Substance& s, double T, double P, const PropertiesSolvent& ps, int state) { switch (k) { case 0: return WaterJNreaktoro(s).electroPropertiesSolvent(T, P, ps, state); case 1: return WaterJNgems(s).electroPropertiesSolvent(T, P, state); case 2: return WaterElectroSverjensky2014(s).electroPropertiesSolvent(T, P, state); } return WaterElectroFernandez1997(s).electroPropertiesSolvent(T, P, state); }
static std::vector<std::pair<double, double>> waterPoints(int eos) { if (eos == 3) return {{673.15, 2e8}, {873.15, 1e9}, {1073.15, 3e9}, {1273.15, 5e8}}; return {{298.15, 1e5}, {350, 2e7}, {573.15, 5e7}, {673.15, 1e8}, {873.15, 2e8}, {298.15, 0}, {420, 0}, {550, 0}}; }
static void waters() {
    for (size_t a = 0; a < 4; ++a) for (size_t b = 0; b < 4; ++b) for (int agg : {4, 0}) for (int swap = 0; swap < 2; ++swap) cases.push_back({"solvent", "solvent with " + eosNames[a] + ", " + electroNames[b], [=](Report& r) {
        Substance s = solvent("W", a, b, agg, swap); for (const char* triple : {"HKF_HGK_1974", "NEA_HGK"}) { Database d; d.conventions().water_triple_point_reference = triple; ThermoEngine e(d); int own = agg == 0;
        for (auto& q : waterPoints(a)) for (int state : {-1, 0, 1}) { double T = q.first; int st = state < 0 ? own : state; std::string lab = std::string("solvent with ") + name(eosCodes[a]) + ", " + name(electroCodes[b]) + (swap ? " in this order" : "") + (agg ? "" : ", a gas") + ", state " + std::to_string(state) + ", " + triple + " at " + mc::num6(T) + " K, " + mc::num6(q.second) + " Pa"; mc::visiting(lab);
            if (q.second == 0 && (b == 2 || b == 3)) { if (a == 3) continue; }
            auto P0 = [&](int) { return q.second; };
            if (state < 0) tell(r, "solvent:energies", lab, attempt([&] { double P = P0(0); return eng::snap(e.thermoPropertiesSubstance(T, P, s)); }), [&](int i) { return attempt([&] { double P = P0(0); return eng::snap(waterT(i, s, T, P, own, triple)); }); }, eosNames, a);
            tell(r, "solvent:density", lab, attempt([&] { double P = P0(0); return eng::snap(e.propertiesSolvent(T, P, s, state)); }), [&](int i) { return attempt([&] { double P = P0(0); return eng::snap(waterS(i, s, T, P, st)); }); }, eosNames, a);
            tell(r, "solvent:dielectric", lab, attempt([&] { double P = P0(0); return eng::snap(e.electroPropertiesSolvent(T, P, s, state)); }), [&](int i) { return attempt([&] { double P = P0(0); auto ps = waterS(a, s, T, P, st); return eng::snap(waterE(i, s, T, P, ps, st)); }); }, electroNames, b); } } }});
    // steam: a gas with an equation of state of water
    for (size_t a = 0; a < 4; ++a) for (int swap = 0; swap < 2; ++swap) cases.push_back({"steam", "steam with " + eosNames[a], [=](Report& r) {
        Substance s = record("H2O(g)", "H2O", 0, 1, 0, swap ? Methods{8, eosCodes[a]} : Methods{eosCodes[a], 8}, true, {-228569, -241818, 188.8, 33.6, 2478.9}); Database d; ThermoEngine e(d);
        auto pts = a == 3 ? waterPoints(3) : std::vector<std::pair<double, double>>{{380, 1e5}, {450, 5e5}, {573.15, 5e6}, {673.15, 1e7}, {873.15, 5e7}};
        for (int hkf = 0; hkf < 2; ++hkf) { Substance x(s); if (hkf) x.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_HKF); for (auto& q : pts) { std::string lab = std::string("steam with ") + name(eosCodes[a]) + (hkf ? ", marked as HKF" : "") + " at " + mc::num6(q.first) + " K, " + mc::num6(q.second) + " Pa"; mc::visiting(lab);
            tell(r, "steam", lab, attempt([&] { double P = q.second; return eng::snap(e.thermoPropertiesSubstance(q.first, P, x)); }), [&](int i) { return attempt([&] { double P = q.second; return eng::snap(waterT(i, x, q.first, P, 1, "HKF_HGK_1974")); }); }, eosNames, a); } } }}); }

static void solutes() {
    static std::vector<std::string> names = {"HKF (GEMS)", "HKF (Reaktoro)", "Holland-Powell", "Anderson", "Akinfiev-Diamond"}; static std::vector<Methods> ms = {{2}, {3}, {41}, {42}, {0, 4}};
    for (size_t m = 0; m < ms.size(); ++m) for (size_t a = 0; a < 4; ++a) for (size_t b = 0; b < 4; ++b) for (int order = 0; order < 2; ++order) { Methods l = shuffled(ms[m], order); if (l.empty()) break; cases.push_back({"dissolved", "dissolved species with " + list(l), [=](Report& r) {
        Substance w = solvent("W", a, b, 4, false), s = record("X", "CO2@", 0, 2, 4, l, true, {-394400, -393500, 113.8, 137.1, 3.1}); s.setCharge(m < 2 ? -1 : 0); auto p = s.thermoParameters(); p.HKF_parameters = {0.18390, -228.5, 3.256, -27260, 18.18, -29810, 133060}; p.solute_holland_powell98_coeff = {0.0283}; p.Cp_nonElectrolyte_coeff = {-0.3, -12.5, 9.1}; if (p.Cp_coeff.empty()) { p.Cp_coeff = {{60.7, 0.008189, -7e5, -128.3, 0, 0, 0, 0, 0, 0, 0}}; p.temperature_intervals = {{200, 3000}}; } if (p.temperature_intervals.empty()) p.temperature_intervals = {{200, 3000}}; s.setThermoParameters(p);
        Database d; d.addSubstance(w); ThermoEngine e(d); e.setSolventSymbol("W"); double Tr = w.referenceT(), Pr0 = w.referenceP(); const char* triple = "HKF_HGK_1974";
        for (auto& q : waterPoints(a)) { if (q.second == 0) continue; double T = q.first; std::string lab = "dissolved species with " + list(l) + " in " + eosNames[a] + ", " + electroNames[b] + " at " + mc::num6(T) + " K, " + mc::num6(q.second) + " Pa"; mc::visiting(lab);
            tell(r, "dissolved", lab, attempt([&] { double P = q.second; return eng::snap(e.thermoPropertiesSubstance(T, P, s)); }), [&](int i) { return attempt([&] { double P = q.second, Pr = Pr0; auto ps = [&] { return waterS(a, w, T, P, 0); }; auto pr = [&] { return waterS(a, w, Tr, Pr, 0); };
                switch (i) { case 0: { auto x = ps(); return eng::snap(SoluteHKFgems(s).thermoProperties(T, P, x, waterE(b, w, T, P, x, 0))); } case 1: { auto x = ps(); return eng::snap(SoluteHKFreaktoro(s).thermoProperties(T, P, x, waterE(b, w, T, P, x, 0))); } case 2: return eng::snap(SoluteHollandPowell98(s).thermoProperties(T, P, pr(), ps())); case 3: return eng::snap(SoluteAnderson91(s).thermoProperties(T, P, pr(), ps())); }
                return eng::snap(SoluteAkinfievDiamondEOS(s).thermoProperties(T, P, EmpiricalCpIntegration(s).thermoProperties(T, P), waterT(a, w, T, P, 0, triple), WaterIdealGasWoolley(w).thermoProperties(T, P), ps(), waterT(a, w, Tr, Pr, 0, triple), WaterIdealGasWoolley(w).thermoProperties(Tr, Pr0), pr())); }); }, names, m); } }}); } }

static void reactions() {
    typedef MethodCorrT_Thrift MT; struct M { std::string n; int k; std::function<TPR(const Reaction&, double, double, const Substance&)> f; }; static auto lk = [](MT::type t) { return [t](const Reaction& x, double T, double P, const Substance&) { return Reaction_LogK_fT(x).thermoProperties(T, P, t); }; };
    static std::vector<M> ms = {{"log K function", 0, lk(MT::CTM_LGK)}, {"log K function", 3, lk(MT::CTM_LGK)}, {"one term (log K)", 4, lk(MT::CTM_EK0)}, {"one term (G)", 5, lk(MT::CTM_EK1)}, {"two terms", 6, lk(MT::CTM_EK2)}, {"three terms", 7, lk(MT::CTM_EK3)}, {"heat capacity function", 11, lk(MT::CTM_LGX)},
        {"Marshall-Franck", 9, [](const Reaction& x, double T, double P, const Substance& w) { return ReactionFrantzMarshall(x).thermoProperties(T, P, waterS(2, w, T, P, 0)); }}, {"Ryzhenko", 10, [](const Reaction& x, double T, double P, const Substance& w) { return ReactionRyzhenkoBryzgalin(x).thermoProperties(T, P, waterS(2, w, T, P, 0)); }}, {"Dolejs-Manning", 14, [](const Reaction& x, double T, double P, const Substance& w) { return ReactionDolejsManning10(x).thermoProperties(T, P, waterS(2, w, T, P, 0)); }}};
    for (size_t m = 0; m < ms.size(); ++m) for (int vol = 0; vol < 3; ++vol) { if (vol && ms[m].k == 10) continue; cases.push_back({"reaction", "reaction with " + nameR(ms[m].k), [=](Report& r) {
        json j; j["symbol"] = "X"; j["name"] = "X"; j["equation"] = "A = B"; j["reactants"] = json::array({json{{"symbol", "A"}, {"coefficient", -1}}, json{{"symbol", "B"}, {"coefficient", 1}}}); j["Tst"] = 298.15; j["Pst"] = 1e5;
        j["logKr"] = nums({-3.2}); j["drsm_gibbs_energy"] = nums({19500}); j["drsm_enthalpy"] = nums({21100}); j["drsm_entropy"] = nums({6.4}); j["drsm_heat_capacity_p"] = nums({45}); j["drsm_volume"] = nums({-0.6});
        json e; int k = ms[m].k; e["method"][std::to_string(k)] = nameR(k); if (k == 0 || k == 3) e["logk_ft_coeffs"] = nums({-3.7, 0.0012, -210, 0.55, 1.3e4, 1.2e-7, -3.5}); if (k == 11) e["dr_heat_capacity_ft_coeffs"] = nums({12, 0.015, -1.1e5, 25, 1.3e-5}); if (k == 9) e["dr_marshall_franck_coeffs"] = nums({-4, -1100, 1.2e4, 2e6, 12, 1050, 2e5}); if (k == 10) e["dr_ryzhenko_coeffs"] = nums({1, 1.3, 300}); if (k == 14) e["dr_dolejs_manning10_coeffs"] = nums({23600, -52.9, 7.93, -0.04, 35.2});
        json v; v["method"]["13"] = nameR(13); j["TPMethods"] = json::array({e}); if (vol == 1) j["TPMethods"].push_back(v); if (vol == 2) j["TPMethods"].insert(j["TPMethods"].begin(), v);
        Reaction x(j.dump()); { auto p = x.thermoParameters(); auto fill = [](std::vector<double>& a, std::vector<double> b) { if (a.empty()) a = b; }; if (k != 9) fill(p.reaction_FM_coeff, {-4, -1100, 1.2e4, 2e6, 12, 1050, 2e5}); if (k != 10) fill(p.reaction_RB_coeff, {1, 1.3, 300}); if (k != 14) fill(p.reaction_DM10_coeff, {23600, -52.9, 7.93, -0.04, 35.2}); x.setThermoParameters(p); }
        Substance w = solvent("W", 2, 0, 4, false); Database d; d.addSubstance(w); ThermoEngine eng(d); eng.setSolventSymbol("W"); std::vector<std::string> names; for (auto& q : ms) names.push_back(nameR(q.k));
        for (double T : {298.15, 350., 473.15, 673.15}) for (double P : {1e5, 5e7, 3e8}) { if (T > 350 && P == 1e5) continue; std::string lab = "reaction with " + nameR(k) + (vol ? vol == 1 ? ", dr_volume_constant" : " after dr_volume_constant" : "") + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"; mc::visiting(lab);
            auto view = [&](const TPR& t) { eng::Snap s; for (double z : {t.log_equilibrium_constant.val, t.reaction_gibbs_energy.val, t.reaction_enthalpy.val, t.reaction_entropy.val, t.reaction_volume.val, t.reaction_heat_capacity_cp.val}) s.v.push_back(z); return s; };
            tell(r, "reaction", lab, attempt([&] { double p = P; return view(eng.thermoPropertiesReaction(T, p, x)); }), [&](int i) { return attempt([&] { auto t = ms[i].f(x, T, P, w); if (vol) { double dg = t.reaction_volume.val * (P - 1e5) / 1e5; t.reaction_gibbs_energy.val += dg; t.reaction_enthalpy.val += dg; t.log_equilibrium_constant.val -= dg / (modelR * T * (double)LN10); t.reaction_entropy.val = (t.reaction_enthalpy.val - t.reaction_gibbs_energy.val) / T; } return view(t); }); }, names, m); } }}); } }

int main(int argc, char** argv) {
    mc::init(argc, argv); minerals(); waters(); solutes(); reactions();
    return mc::finish(mc::parallel(cases.size(), [](size_t n, Report& r) { if (n % 41 == 0) r.sample(cases[n].lab); cases[n].run(r); }, [](const std::string& l) { return l.substr(0, l.find(" with ")); })); }
