// Queries on a ThermoEngine and snapshots of their outcomes.
#pragma once
#include "mc.hpp"
#include <ThermoFun.h>
#include <Substance.h>
#include <Reaction.h>
#include <Element.h>

namespace eng {
using namespace ThermoFun;
using Reaktoro_::ThermoScalar;
using mc::json;

// The outcome of a query: the numbers it returned, or that it failed.
struct Snap {
    bool failed = false;
    std::string error;          // message without the location of the throw
    std::vector<double> v;      // val, ddt, ddp, err, status of every property
    double P = 0;               // the pressure variable after the query
    void add(const ThermoScalar& s) { v.push_back(s.val); v.push_back(s.ddt); v.push_back(s.ddp); v.push_back(s.err); v.push_back(s.sta.first); }
};

inline std::string clean(const std::string& m) {
    // drop the part that says where in the source the error was raised
    std::istringstream in(m); std::string l, out;
    while (std::getline(in, l)) {
        if (l.find("*** Location") == 0 || l.find_first_not_of("*") == std::string::npos) continue;
        out += l + "|";
    }
    return out;
}

inline bool same(const Snap& a, const Snap& b, bool withP = true) {
    if (a.failed != b.failed) return false;
    if (a.failed) return a.error == b.error;
    if (a.v.size() != b.v.size()) return false;
    for (size_t i = 0; i < a.v.size(); ++i) if (!mc::same(a.v[i], b.v[i])) return false;
    return !withP || mc::same(a.P, b.P);
}
inline bool closeTo(const Snap& a, const Snap& b, double rel, double abs_ = 0) {
    if (a.failed != b.failed) return false;
    if (a.failed) return true;
    if (a.v.size() != b.v.size()) return false;
    for (size_t i = 0; i < a.v.size(); ++i) if (!mc::close(a.v[i], b.v[i], rel, abs_)) return false;
    return true;
}
inline std::string diff(const Snap& a, const Snap& b) {
    if (a.failed != b.failed) return a.failed ? "failed (" + a.error.substr(0, 160) + ") instead of a result" : "a result instead of failure (" + b.error.substr(0, 160) + ")";
    if (a.failed) return "error '" + a.error.substr(0, 160) + "' instead of '" + b.error.substr(0, 160) + "'";
    for (size_t i = 0; i < a.v.size() && i < b.v.size(); ++i)
        if (!mc::same(a.v[i], b.v[i])) return "number " + std::to_string(i) + ": " + mc::num(a.v[i]) + " instead of " + mc::num(b.v[i]);
    if (!mc::same(a.P, b.P)) return "pressure variable " + mc::num(a.P) + " instead of " + mc::num(b.P);
    return a.v.size() == b.v.size() ? "no difference" : "different size";
}

inline Snap snap(const ThermoPropertiesSubstance& t) {
    Snap s; for (auto* p : {&t.gibbs_energy, &t.helmholtz_energy, &t.internal_energy, &t.enthalpy, &t.entropy, &t.volume, &t.heat_capacity_cp, &t.heat_capacity_cv}) s.add(*p);
    return s;
}
inline Snap snap(const ThermoPropertiesReaction& t) {
    Snap s; for (auto* p : {&t.ln_equilibrium_constant, &t.log_equilibrium_constant, &t.reaction_gibbs_energy, &t.reaction_helmholtz_energy, &t.reaction_internal_energy,
                            &t.reaction_enthalpy, &t.reaction_entropy, &t.reaction_volume, &t.reaction_heat_capacity_cp, &t.reaction_heat_capacity_cv}) s.add(*p);
    return s;
}
inline Snap snap(const PropertiesSolvent& t) {
    Snap s; for (auto* p : {&t.Alpha, &t.dAldT, &t.Beta, &t.Albe, &t.density, &t.densityT, &t.densityP, &t.densityTT, &t.densityTP, &t.densityPP,
                            &t.pressure, &t.pressureT, &t.pressureD, &t.pressureTT, &t.pressureTD, &t.pressureDD}) s.add(*p);
    return s;
}
inline Snap snap(const ElectroPropertiesSolvent& t) {
    Snap s; for (auto* p : {&t.epsilon, &t.epsilonT, &t.epsilonP, &t.epsilonTT, &t.epsilonTP, &t.epsilonPP, &t.bornZ, &t.bornY, &t.bornQ, &t.bornN, &t.bornU, &t.bornX}) s.add(*p);
    return s;
}

struct Query {
    enum Kind { Sub, SubObj, Rx, RxObj, RxFR, RxFRObj, Solv, SolvObj, El, ElObj } kind;
    std::string sym; double T, P; int state = 0;
    std::string label() const {
        static const char* k[] = {"sub", "subobj", "rx", "rxobj", "rxFR", "rxFRobj", "solv", "solvobj", "electro", "electroobj"};
        std::string s = std::string(k[kind]) + ":" + sym + "@" + mc::num6(T) + "K," + mc::num6(P) + "Pa";
        if (kind >= Solv) s += ",state" + std::to_string(state);
        return s;
    }
    std::string family() const {  // without the conditions
        static const char* k[] = {"sub", "subobj", "rx", "rxobj", "rxFR", "rxFRobj", "solv", "solvobj", "electro", "electroobj"};
        return std::string(k[kind]) + ":" + sym;
    }
};

inline Snap ask(const ThermoEngine& e, const Query& q) {
    Snap s; double P = q.P;
    try {
        switch (q.kind) {
        case Query::Sub: s = snap(e.thermoPropertiesSubstance(q.T, P, q.sym)); break;
        case Query::SubObj: { Substance x = e.database().getSubstance(q.sym); s = snap(e.thermoPropertiesSubstance(q.T, P, x)); break; }
        case Query::Rx: s = snap(e.thermoPropertiesReaction(q.T, P, q.sym)); break;
        case Query::RxObj: { Reaction x = e.database().getReaction(q.sym); s = snap(e.thermoPropertiesReaction(q.T, P, x)); break; }
        case Query::RxFR: s = snap(e.thermoPropertiesReactionFromReactants(q.T, P, q.sym)); break;
        case Query::RxFRObj: { Reaction x = e.database().getReaction(q.sym); s = snap(e.thermoPropertiesReactionFromReactants(q.T, P, x)); break; }
        case Query::Solv: s = snap(e.propertiesSolvent(q.T, P, q.sym, q.state)); break;
        case Query::SolvObj: { Substance x = e.database().getSubstance(q.sym); s = snap(e.propertiesSolvent(q.T, P, x, q.state)); break; }
        case Query::El: s = snap(e.electroPropertiesSolvent(q.T, P, q.sym, q.state)); break;
        case Query::ElObj: { Substance x = e.database().getSubstance(q.sym); s = snap(e.electroPropertiesSolvent(q.T, P, x, q.state)); break; }
        }
    } catch (const std::exception& x) { s = Snap(); s.failed = true; s.error = clean(x.what()); }
    s.P = P;
    return s;
}

inline json readJson(const std::string& name) {
    std::ifstream f(mc::options().data + "/" + name); json j; f >> j; return j;
}
// The data set with only the named substances (and only reactions among them), or without some
inline std::string without(json j, const std::set<std::string>& drop) {
    json s = json::array(); for (auto& x : j["substances"]) if (!drop.count(x["symbol"].get<std::string>())) s.push_back(x);
    j["substances"] = s; return j.dump();
}
inline std::string only(json j, const std::set<std::string>& keep) {
    json s = json::array(), r = json::array();
    for (auto& x : j["substances"]) if (keep.count(x["symbol"].get<std::string>())) s.push_back(x);
    for (auto& x : j["reactions"]) if (keep.count(x["symbol"].get<std::string>())) r.push_back(x);
    j["substances"] = s; j["reactions"] = r; return j.dump();
}

// Everything that can be observed of a record, as text
inline std::string dump(const ThermoScalar& s) {
    return mc::num(s.val) + "," + mc::num(s.ddt) + "," + mc::num(s.ddp) + "," + mc::num(s.err) + "," + std::to_string(int(s.sta.first)) + "," + s.sta.second;
}
inline std::string dump(const std::vector<double>& v) { std::string s = "["; for (double x : v) s += mc::num(x) + ","; return s + "]"; }
inline std::string dump(const std::vector<std::vector<double>>& v) { std::string s = "["; for (auto& x : v) s += dump(x) + ","; return s + "]"; }
inline std::string dump(const ThermoPropertiesSubstance& t) {
    std::string s; for (auto* p : {&t.gibbs_energy, &t.helmholtz_energy, &t.internal_energy, &t.enthalpy, &t.entropy, &t.volume, &t.heat_capacity_cp, &t.heat_capacity_cv}) s += dump(*p) + ";"; return s;
}
inline std::string dump(const ThermoPropertiesReaction& t) {
    std::string s; for (auto* p : {&t.ln_equilibrium_constant, &t.log_equilibrium_constant, &t.reaction_gibbs_energy, &t.reaction_helmholtz_energy, &t.reaction_internal_energy,
                            &t.reaction_enthalpy, &t.reaction_entropy, &t.reaction_volume, &t.reaction_heat_capacity_cp, &t.reaction_heat_capacity_cv}) s += dump(*p) + ";"; return s;
}
inline std::string dump(const Substance& x, bool text = true) {
    std::ostringstream s;
    auto p = x.thermoParameters();
    s << x.name() << "|" << x.symbol() << "|" << x.formula() << "|" << x.reactionSymbol() << "|" << mc::num(x.molarMass()) << "|" << mc::num(x.referenceT()) << "|" << mc::num(x.referenceP())
      << "|" << mc::num(x.lowerT()) << "|" << mc::num(x.upperT()) << "|" << mc::num(x.lowerP()) << "|" << mc::num(x.upperP()) << "|" << dump(x.thermoReferenceProperties()) << "|" << dump(x.thermoProperties())
      << "|" << int(x.methodGenEOS()) << "," << int(x.method_T()) << "," << int(x.method_P()) << "," << int(x.substanceClass()) << "," << int(x.thermoCalculationType()) << "," << int(x.aggregateState()) << "," << x.charge()
      << "|" << dump(p.temperature_intervals) << dump(p.pressure_intervals) << dump(p.Cp_coeff) << dump(p.Cp_nonElectrolyte_coeff) << dump(p.phase_transition_prop) << dump(p.phase_transition_prop_Berman)
      << dump(p.m_landau_phase_trans_props) << dump(p.HKF_parameters) << dump(p.volume_coeff) << dump(p.critical_parameters) << dump(p.volume_BirchM_coeff) << dump(p.empirical_coeff) << dump(p.solute_holland_powell98_coeff)
      << mc::num(p.isothermal_compresibility) << "," << mc::num(p.isobaric_expansivity);
    if (text) s << "|" << x.jsonString();
    return s.str();
}
inline std::string dump(const Reaction& x, bool text = true) {
    std::ostringstream s;
    auto p = x.thermoParameters();
    s << x.name() << "|" << x.symbol() << "|" << x.equation() << "|" << mc::num(x.referenceT()) << "|" << mc::num(x.referenceP()) << "|" << mc::num(x.lowerT()) << "|" << mc::num(x.upperT()) << "|" << mc::num(x.lowerP())
      << "|" << mc::num(x.upperP()) << "|" << dump(x.thermoReferenceProperties()) << "|" << int(x.methodGenEOS()) << "," << int(x.method_T()) << "," << int(x.method_P()) << "|";
    for (auto& kv : x.reactants()) s << kv.first << "=" << mc::num(kv.second) << ",";
    s << "|" << dump(p.temperature_intervals) << dump(p.pressure_intervals) << dump(p.reaction_logK_fT_coeff) << dump(p.logK_TP_array) << dump(p.reaction_Cp_fT_coeff) << dump(p.reaction_V_fT_coeff)
      << dump(p.reaction_RB_coeff) << dump(p.reaction_FM_coeff) << dump(p.reaction_DM10_coeff);
    if (text) s << "|" << x.jsonString();
    return s.str();
}
inline std::string dump(const Element& x, bool text = true) {
    std::ostringstream s;
    s << x.name() << "|" << x.symbol() << "|" << mc::num(x.molarMass()) << "|" << mc::num(x.entropy()) << "|" << mc::num(x.heatCapacity()) << "|" << mc::num(x.volume()) << "|" << x.valence() << "|" << x.class_() << "|" << x.isotopeMass() << "|" << x.number();
    if (text) s << "|" << x.jsonString();
    return s.str();
}
inline std::string dump(const Database& d, bool text = true) {
    std::string s;
    for (auto& x : d.mapElements()) s += "E " + x.first + ": " + dump(x.second, text) + "\n";
    for (auto& x : d.mapSubstances()) s += "S " + x.first + ": " + dump(x.second, text) + "\n";
    for (auto& x : d.mapReactions()) s += "R " + x.first + ": " + dump(x.second, text) + "\n";
    return s + "conventions " + d.conventions().water_triple_point_reference + "\n";
}
inline std::string dump(const EnginePreferences& p) {
    return std::to_string(p.enable_memoize) + "," + std::to_string(p.max_cache_size) + "," + std::to_string(p.solvent_state) + "," + p.solvent_symbol + "," + std::to_string(p.fallback_to_reference_properties) + "," + std::to_string(p.apply_pressure_correction_to_gas_props);
}
inline std::string dumpSettings(ThermoEngine& e) { return dump(e.preferences()) + " conventions " + e.conventions().apparent_properties + "," + e.conventions().water_properties + " solvent " + e.solventSymbol(); }
// the first line in which two dumps differ
inline std::string firstDiff(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b); std::string l, m;
    for (;;) { bool p = bool(std::getline(x, l)), q = bool(std::getline(y, m)); if (!p && !q) return "none"; if (!p) l = "(nothing)"; if (!q) m = "(nothing)";
        if (l != m) { size_t i = 0; while (i < l.size() && i < m.size() && l[i] == m[i]) ++i; size_t st = i > 60 ? i - 60 : 0; return l.substr(0, 24) + "...'" + l.substr(st, 140) + "' became '" + m.substr(st, 140) + "'"; } }
}

} // namespace eng
