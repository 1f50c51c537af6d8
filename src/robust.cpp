// E01: bad input is answered with an error or a result, never with a crash, an
// access outside its data or an endless run. Every single fault of a rule is
// put into every record, document, call and condition, under the address and
// undefined-behaviour sanitizers.
#include "queries.hpp"
#include <Batch/ThermoBatch.h>
#include <Batch/OutputBatch.h>
#include <Common/Units.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace eng; using mc::Report; using mc::num6;
typedef std::vector<std::string> VS; typedef std::vector<double> VD;
static std::string scratch(const std::string& n) { static std::string d; if (d.empty()) { d = (mc::options().scratch.empty() ? "/tmp" : mc::options().scratch) + "/robust-" + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d + "/" + n; }
static json mini;
static json elements(const std::set<std::string>& keep) { json e = json::array(); for (auto& x : mini["elements"]) if (keep.count(x["symbol"].get<std::string>())) e.push_back(x); return e; }
static json substance(const std::string& s) { for (auto& x : mini["substances"]) if (x["symbol"] == s) return x; return nullptr; }
static json reaction(const std::string& s) { for (auto& x : mini["reactions"]) if (x["symbol"] == s) return x; return nullptr; }

// The outcomes: everything but a crash is one
static void evaluate(const Database& d, const std::set<std::string>& companions, Report& r, bool reactions) {
    std::unique_ptr<ThermoEngine> e; try { e = std::make_unique<ThermoEngine>(d); } catch (const std::exception&) { r.counters["reported"]++; return; }
    // quick: each fault at one of the conditions in turn
    static const std::vector<std::pair<double, double>> all = {{298.15, 1e5}, {623.15, 5e7}, {500, 0}}; static size_t turn = 0; std::vector<std::pair<double, double>> cond = all; if (!mc::options().thorough()) cond = {all[turn++ % 3]};
    auto ask1 = [&](Query q) { r.transitions++; Snap s = ask(*e, q); r.counters[s.failed ? "reported" : "answered"]++; };
    for (auto& kv : d.mapSubstances()) { if (companions.count(kv.first)) continue; bool water = kv.second.substanceClass() == SubstanceClass::type::AQSOLVENT || kv.second.method_T() == MethodCorrT_Thrift::type::CTM_WAT;
        for (auto& c : cond) { ask1({Query::Sub, kv.first, c.first, c.second, 0}); if (water) { ask1({Query::Solv, kv.first, c.first, c.second, 0}); ask1({Query::Solv, kv.first, c.first, c.second, -1}); ask1({Query::El, kv.first, c.first, c.second, 0}); } } }
    if (reactions) for (auto& kv : d.mapReactions()) { for (auto& c : cond) { ask1({Query::Rx, kv.first, c.first, c.second, 0}); ask1({Query::RxFR, kv.first, c.first, c.second, 0}); } }
    if (d.mapSubstances().size() > companions.size()) { try { for (auto& kv : d.mapSubstances()) { if (companions.count(kv.first)) continue; r.counters["formulas parsed"]++; d.parseSubstanceFormula(kv.second.formula()); } } catch (const std::exception&) {} }
}
static void load(const json& doc, const std::set<std::string>& companions, Report& r, bool reactions) {
    r.states++; r.nontrivial++; try { Database d(doc.dump(-1, ' ', false, json::error_handler_t::replace)); r.counters["loaded"]++; evaluate(d, companions, r, reactions); } catch (const std::exception&) { r.counters["rejected"]++; }
}

// ---- records and their faults
struct Rec { std::string kind, name; json j; VS with; };
static std::vector<Rec> records() {
    std::vector<Rec> out; std::set<std::string> seen;
    for (auto& s : mini["substances"]) { std::string sig = s.value("reaction", json()).is_string() ? "reaction" : ""; for (auto& m : s["TPMethods"]) { sig += m["method"].dump(); for (auto& kv : m.items()) sig += kv.key(); } sig += s["class_"].dump(); if (!seen.insert(sig).second) continue; VS with; if (sig.find("hkf") != std::string::npos || sig.find("solute") != std::string::npos || (s.contains("reaction") && s["reaction"].is_string())) with = {"H2O@"}; out.push_back({"substances", s["symbol"], s, with}); if (s.contains("reaction") && s["reaction"].is_string()) out.back().with.push_back("R:" + s["reaction"].get<std::string>()); }
    for (auto& x : mini["reactions"]) { VS with = {"H2O@"}; for (auto& y : x["reactants"]) with.push_back(y["symbol"]); out.push_back({"reactions", x["symbol"], x, with}); }
    for (auto s : {"Na", "Zz", "O"}) for (auto& x : mini["elements"]) if (x["symbol"] == s) out.push_back({"elements", s, x, {"H2O@", "Na+"}});
    // one record per method that no record above has, with coefficients of every kind
    auto vals = [](size_t n) { json v; v["values"] = json::array(); for (size_t i = 0; i < n; ++i) v["values"].push_back(0.5 + i); return v; };
    json q = substance("Quartz"); for (auto& m : std::map<int, std::string>{{1, "cp_ft_equation_saxena86"}, {6, "landau_berman88"}, {7, "x"}, {10, "fluid_churakov_gottschalk"}, {12, "fluid_sterner_pitzer"}, {30, "water_eos_iapws95_gems"}, {35, "mv_equation_dorogokupets88"}, {36, "mv_equation_berman88"}, {37, "mv_eos_birch_murnaghan_gott97"}, {39, "mv_eos_tait_hp11"}, {41, "solute_holland_powell98"}, {42, "solute_anderson91"}, {77, "unknown"}}) {
        json s = q; s["symbol"] = "M" + std::to_string(m.first); s["TPMethods"] = json::array(); json cp = {{"method", {{"0", "cp_ft_equation"}}}, {"limitsTP", {{"lowerT", 273.15}, {"upperT", 1500}}}, {"m_heat_capacity_ft_coeffs", vals(11)}}; json x = {{"method", {{std::to_string(m.first), m.second}}}, {"m_berman_phase_trans_props", vals(5)}, {"eos_churakov_gottschalk_coeffs", vals(13)}, {"eos_gas_crit_props", vals(9)}, {"m_volume_fpt_coeffs", vals(5)}, {"eos_birch_murnaghan_coeffs", vals(11)}, {"solute_holland_powell98_coeff", vals(2)}};
        if (m.first < 41) s["TPMethods"].push_back(cp); s["TPMethods"].push_back(x); out.push_back({"substances", s["symbol"], s, m.first < 41 ? VS() : VS{"H2O@"}}); }
    for (auto& m : std::map<int, std::string>{{11, "dr_heat_capacity_ft"}, {1, "adsor_ion_exchange"}, {2, "iso_compounds_grichuk88"}, {4, "logk_1_term_extrap0"}, {5, "logk_1_term_extrap1"}, {6, "logk_2_term_extrap"}, {8, "logk_lagrange_interp"}, {9, "logk_marshall_frank78"}, {12, "dr_volume_fpt"}, {14, "logk_dolejs_manning10"}, {77, "unknown"}}) {
        json x = reaction("H2Se(g)"); x["symbol"] = "RM" + std::to_string(m.first); x["TPMethods"] = json::array({{{"method", {{std::to_string(m.first), m.second}}}, {"dr_heat_capacity_ft_coeffs", vals(5)}, {"dr_volume_fpt_coeffs", vals(5)}, {"dr_ryzhenko_coeffs", vals(3)}, {"dr_marshall_franck_coeffs", vals(7)}, {"dr_dolejs_manning10_coeffs", vals(5)}, {"logk_ft_coeffs", vals(7)}}}); VS with = {"H2O@"}; for (auto& y : x["reactants"]) with.push_back(y["symbol"]); out.push_back({"reactions", x["symbol"], x, with}); }
    return out;
}
static void paths(const json& j, const std::string& at, VS& out) { if (!at.empty()) out.push_back(at); if (j.is_object()) for (auto& kv : j.items()) { std::string k = kv.key(), e; for (char c : k) e += c == '~' ? "~0" : c == '/' ? "~1" : std::string(1, c); paths(kv.value(), at + "/" + e, out); } else if (j.is_array()) for (size_t i = 0; i < j.size() && i < 13; ++i) paths(j[i], at + "/" + std::to_string(i), out); }
static std::vector<std::pair<std::string, json>> faults(const json& v) {
    std::vector<std::pair<std::string, json>> f = {{"null", nullptr}, {"true", true}, {"an empty text", ""}, {"a text", "some text"}, {"a number as text", "1e5"}, {"0", 0}, {"-1", -1}, {"2.5", 2.5}, {"1e308", 1e308}, {"a huge integer", 4000000000000000000ll}, {"[]", json::array()}, {"{}", json::object()}, {"[null]", json::array({nullptr})}, {"[[]]", json::array({json::array()})}, {"[1]", json::array({1})}, {"[\"\"]", json::array({""})}, {"{\"0\":null}", {{"0", nullptr}}}, {"{\"x\":\"y\"}", {{"x", "y"}}}, {"{\"4000000000\":\"\"}", {{"4000000000", ""}}}, {"{\"values\":null}", {{"values", nullptr}}}};
    if (v.is_array()) { for (size_t n = 1; n < v.size() && n < 14; ++n) { json t = json::array(); for (size_t i = 0; i < n; ++i) t.push_back(v[i]); f.push_back({"its first " + std::to_string(n), t}); } json t = v; for (int i = 0; i < 30; ++i) t.push_back(v.empty() ? json(1.0) : v[i % v.size()]); f.push_back({"30 more", t}); json u = json::array(); for (size_t i = 0; i < v.size(); ++i) u.push_back(v[v.size() - 1 - i]); f.push_back({"reversed", u}); if (v.size()) { json w = v; w[0] = nullptr; f.push_back({"null first", w}); w = v; w.back() = "x"; f.push_back({"text last", w}); } }
    return f;
}
static json document(const Rec& rec, const std::set<std::string>& el, std::set<std::string>& companions, bool duplicate = false) {
    json d; d["elements"] = elements(el); d["substances"] = json::array(); d["reactions"] = json::array(); for (auto& w : rec.with) { if (w.compare(0, 2, "R:") == 0) { json x = reaction(w.substr(2)); if (!x.is_null()) { d["reactions"].push_back(x); for (auto& y : x["reactants"]) { json s = substance(y["symbol"]); if (!s.is_null() && y["symbol"] != rec.name && companions.insert(y["symbol"]).second) d["substances"].push_back(s); } } continue; } if (rec.kind == "substances" && w == rec.name) continue; json s = substance(w); if (!s.is_null() && companions.insert(w).second) d["substances"].push_back(s); }
    d[rec.kind].push_back(rec.j); if (duplicate) d[rec.kind].push_back(rec.j); return d;
}
static std::vector<Rec> recs;
// quick: all the values at a place of the first two records that have the place, an eighth of them, another one for each record, in the others
static bool seenBefore(const Rec& rec, const std::string& where) {
    static std::map<std::string, std::vector<size_t>> first; if (first.empty()) for (size_t i = 0; i < recs.size(); ++i) { VS ps; paths(recs[i].j, "", ps); std::set<std::string> w; for (auto& p : ps) { std::string q = recs[i].kind; for (char c : p) q += isdigit(c) ? '#' : c; if (w.insert(q).second && first[q].size() < 2) first[q].push_back(i); } }
    for (size_t i : first[rec.kind + where]) if (recs[i].name == rec.name) return false; return true;
}
static void recordFaults(const Rec& rec, bool th, Report& r, int part, int parts) {
    const size_t index = &rec - recs.data();
    static const std::set<std::string> all = {"H", "O", "Na", "Si", "C", "Ca", "Zz", "Se"}; std::set<std::string> el; { std::set<std::string> comp; std::string text; json doc = document(rec, {}, comp); for (auto& x : doc["substances"]) if (x.is_object() && x.contains("formula")) text += x["formula"].dump(); for (auto& x : all) if (rec.kind == "elements" || x == "Zz" || text.find(x) != std::string::npos) el.insert(x); } VS ps; paths(rec.j, "", ps); const std::string fam = "record " + rec.kind.substr(0, rec.kind.size() - 1) + " " + rec.name;
    auto go = [&](const json& j, const std::string& what, const std::string& where) { std::set<std::string> comp; Rec x = rec; x.j = j; mc::visiting(fam + " " + where + "|" + what); load(document(x, el, comp), comp, r, rec.kind == "reactions" || j.contains("reaction")); };
    if (part == 0) { go(rec.j, "unchanged", ""); r.sample(fam + ": each of " + std::to_string(ps.size()) + " places removed or replaced by each of at least 20 values"); }
    int k = 0; for (auto& p : ps) { size_t at = k++; if (at % parts != size_t(part)) continue; json::json_pointer ptr(p); std::string where; { std::string q = p; for (char c : q) where += isdigit(c) ? '#' : c; } const bool often = !th && seenBefore(rec, where);
        { json j = rec.j; json& parent = j[ptr.parent_pointer()]; if (parent.is_object()) parent.erase(ptr.back()); else if (parent.is_array()) parent.erase(parent.begin() + std::stoul(ptr.back())); go(j, "removed " + p, where); }
        size_t n = 0; bool leaf = ptr.parent_pointer() != json::json_pointer("") && !rec.j[ptr].is_structured() && rec.j[ptr.parent_pointer()].is_array() && ptr.back() != "0" && ptr.back() != "1"; for (auto& f : faults(rec.j[ptr])) { n++; if (!th && ((leaf && n % 4) || (often && (n + index) % 8))) continue; json j = rec.j; j[ptr] = f.second; go(j, p + " = " + f.first, where); } }
    // two coefficient lists cut at a time
    if (part == 0) { VS lists; for (auto& p : ps) if (rec.j[json::json_pointer(p)].is_array() && (p.find("values") != std::string::npos || p.find("TPMethods") != std::string::npos)) lists.push_back(p); for (size_t a = 0; a < lists.size(); ++a) for (size_t b = a + 1; b < lists.size(); ++b) for (int c = 0; c < 4; ++c) { json j = rec.j; auto cut = [&](const std::string& p, bool all) { json& v = j[json::json_pointer(p)]; if (!v.is_array()) return; if (all) v = json::array(); else if (v.size()) v.erase(v.end() - 1); }; try { cut(lists[b], c & 1); cut(lists[a], c & 2); } catch (const json::exception&) { continue; } go(j, "cut " + lists[a] + " and " + lists[b] + " " + std::to_string(c), "two lists cut"); } }
}

// ---- substances given as objects: every combination of methods with parameters of every length
static ThermoParametersSubstance full() { auto p = synth::par(); p.temperature_intervals = {{273.15, 2000}}; p.pressure_intervals = {{1e5, 1e9}}; p.Cp_coeff = {{110.7, -0.005189, 0, -1128.3, 0, 0, 0, 0, 0, 0, 0}}; p.Cp_nonElectrolyte_coeff = {0.1, 2, 3, 4}; p.phase_transition_prop = {{600, 1, 2, 3, 4}}; p.phase_transition_prop_Berman = {{600, 1, 2, 3, 4}}; p.m_landau_phase_trans_props = {574, 5, 0.1}; p.HKF_parameters = {0.18, -228, 3.2, -2.7, 18, -29000, 33000}; p.volume_coeff = {2e-5, 1e-9, -1e-6, 2e-12, 0}; p.critical_parameters = {304.2, 73.8, 0.225, 0.04, 0, 0, 0, 0, 0, 0, 0, 0}; p.volume_BirchM_coeff = {1e-5, 1e-9, 0, 0, 0, 370000, -30, 6, 0, 0, 0}; p.empirical_coeff = VD(13, 1.5); p.solute_holland_powell98_coeff = {0.03, 1}; p.isothermal_compresibility = 750; p.isobaric_expansivity = 2; return p; }
static void objects(size_t item, size_t parts, bool th, Report& r) {
    static const std::vector<int> G = {0, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 116, 117, 118, 119, 120, 121, 122, 123, 5000}, Tm = {0, 200, 201, 202, 203, 204, 205, 206, 207, 208, 212, 214, 216, 217, 221, 222, 223, 224, 5000}, P = {0, 300, 301, 302, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 5000};
    struct C { SubstanceClass::type c; AggregateState::type a; const char* f; }; static const std::vector<C> cls = {{SubstanceClass::type::COMPONENT, AggregateState::type::CRYSTAL, "SiO2"}, {SubstanceClass::type::AQSOLUTE, AggregateState::type::AQUEOUS, "Na+"}, {SubstanceClass::type::GASFLUID, AggregateState::type::GAS, "CO2"}, {SubstanceClass::type::AQSOLVENT, AggregateState::type::AQUEOUS, "H2O@"}};
    static Database* base = nullptr; static std::unique_ptr<ThermoEngine> e; if (!base) { json d; d["elements"] = elements({"H", "O", "Na", "Si", "C", "Zz"}); d["substances"] = json::array({substance("H2O@")}); base = new Database(d.dump()); e = std::make_unique<ThermoEngine>(*base); }
    auto eval = [&](Substance s, const std::string& lab) { mc::visiting(lab); r.states++; r.nontrivial++; static size_t turn = 0; turn++; for (int ci = 0; ci < 2; ++ci) { if (!th && (turn + ci) % 2) continue; std::pair<double, double> c = ci ? std::make_pair(623.15, 5e7) : std::make_pair(298.15, 1e5); double p = c.second; r.transitions++; try { e->thermoPropertiesSubstance(c.first, p, s); r.counters["answered"]++; } catch (const std::exception&) { r.counters["reported"]++; } if (s.substanceClass() == SubstanceClass::type::AQSOLVENT) { try { e->propertiesSolvent(c.first, p, s, 0); e->electroPropertiesSolvent(c.first, p, s, 0); } catch (const std::exception&) {} } } };
    auto make = [&](const C& c, int g, int t, int p) { Substance s = synth::base("X", c.f, c.c, c.a, synth::ref(-855000, -910700, 41.43, 44.6, 2.269)); s.setThermoParameters(full()); if (g) s.setMethodGenEoS(MethodGenEoS_Thrift::type(g)); if (t) s.setMethod_T(MethodCorrT_Thrift::type(t)); if (p) s.setMethod_P(MethodCorrP_Thrift::type(p)); return s; };
    size_t k = 0; auto mine = [&] { return k++ % parts == item; };
    auto codes = [](int g, int t, int p) { return std::to_string(g) + "," + std::to_string(t) + "," + std::to_string(p); };
    for (size_t ci = 0; ci < cls.size(); ++ci) for (int g : G) for (int t : Tm) for (int p : P) { if (g == 5000 || t == 5000 || p == 5000) continue; if (!th && (t && p && g) && (g + t + p + ci) % 5) continue; if (!mine()) continue; eval(make(cls[ci], g, t, p), "object with methods " + codes(g, t, p) + "|class " + cls[ci].f); if (!(g && t && p)) { Substance s = make(cls[ci], g, t, p); s.setThermoParameters(ThermoParametersSubstance()); eval(s, "object without parameters, methods " + codes(g, t, p) + "|class " + cls[ci].f); s.setThermoReferenceProperties(ThermoPropertiesSubstance()); eval(s, "object without parameters and reference properties, methods " + codes(g, t, p) + "|class " + cls[ci].f); } }
    // every parameter list at every length with every method
    typedef std::function<void(ThermoParametersSubstance&, size_t)> Cut; std::vector<std::tuple<std::string, size_t, Cut>> cuts;
    auto flat = [&](const std::string& n, VD ThermoParametersSubstance::*m) { cuts.push_back({n, (full().*m).size(), [m](ThermoParametersSubstance& p, size_t k) { (p.*m).resize(k); }}); };
    auto tab = [&](const std::string& n, std::vector<VD> ThermoParametersSubstance::*m) { cuts.push_back({n, (full().*m)[0].size() + 2, [m](ThermoParametersSubstance& p, size_t k) { if (k == 0) (p.*m).clear(); else if (k == 1) { (p.*m).push_back({}); (p.*m).push_back({}); } else (p.*m)[0].resize(k - 2); }}); };
    flat("Cp_nonElectrolyte_coeff", &ThermoParametersSubstance::Cp_nonElectrolyte_coeff); flat("landau", &ThermoParametersSubstance::m_landau_phase_trans_props); flat("HKF", &ThermoParametersSubstance::HKF_parameters); flat("volume_coeff", &ThermoParametersSubstance::volume_coeff); flat("critical", &ThermoParametersSubstance::critical_parameters); flat("birch", &ThermoParametersSubstance::volume_BirchM_coeff); flat("empirical", &ThermoParametersSubstance::empirical_coeff); flat("hp98", &ThermoParametersSubstance::solute_holland_powell98_coeff);
    tab("Cp_coeff", &ThermoParametersSubstance::Cp_coeff); tab("temperature_intervals", &ThermoParametersSubstance::temperature_intervals); tab("pressure_intervals", &ThermoParametersSubstance::pressure_intervals); tab("phase_transition", &ThermoParametersSubstance::phase_transition_prop); tab("phase_transition_Berman", &ThermoParametersSubstance::phase_transition_prop_Berman);
    for (auto& c : cls) for (auto& cut : cuts) for (size_t n = 0; n < std::get<1>(cut); ++n) for (int which = 0; which < 4; ++which) for (int m : which == 0 ? G : which == 1 ? Tm : P) { if (m == 5000 || !mine()) continue; int g = which == 0 ? m : which == 3 ? 100 : 0, t = which == 1 ? m : 0, p = which >= 2 ? m : 0; Substance s = make(c, g, t, p); auto q = s.thermoParameters(); std::get<2>(cut)(q, n); s.setThermoParameters(q); eval(s, "object with methods " + codes(g, t, p) + " and " + std::get<0>(cut) + "|cut " + std::to_string(n) + " class " + c.f); }
    // values that are no numbers or extreme, at every position
    for (auto& c : cls) for (int which = 0; which < 4; ++which) for (int m : which == 0 ? G : which == 1 ? Tm : P) for (double v : {0., -1., 1e308, -1e308, double(NAN), double(INFINITY)}) for (int pos = 0; pos < 6; ++pos) { if (m == 5000 || (!th && (v == -1e308 || v == INFINITY) && pos < 3) || !mine()) continue; int g = which == 0 ? m : which == 3 ? 100 : 0, t = which == 1 ? m : 0, p = which >= 2 ? m : 0; Substance s = make(c, g, t, p); auto q = s.thermoParameters();
        if (pos < 3) { for (auto* l : {&q.Cp_nonElectrolyte_coeff, &q.m_landau_phase_trans_props, &q.HKF_parameters, &q.volume_coeff, &q.critical_parameters, &q.volume_BirchM_coeff, &q.empirical_coeff, &q.solute_holland_powell98_coeff, &q.Cp_coeff[0], &q.phase_transition_prop[0], &q.temperature_intervals[0]}) if (size_t(pos) < l->size()) (*l)[pos] = v; } else if (pos == 3) { q.isothermal_compresibility = v; q.isobaric_expansivity = v; } else if (pos == 4) { s.setReferenceT(v); s.setReferenceP(v); } else s.setThermoReferenceProperties(synth::ref(v, v, v, v, v));
        s.setThermoParameters(q); eval(s, "object with methods " + codes(g, t, p) + " and extreme values|" + num6(v) + " at " + std::to_string(pos) + " class " + c.f); }
}

// ---- reactions given as objects
static void rxObjects(size_t item, size_t parts, Report& r) {
    static const std::vector<int> G = {0, 99, 100, 102, 104, 105}, Tm = {0, 200, 204, 205, 208, 209, 210, 211, 212, 213, 214, 215, 216, 224}, P = {0, 300, 305, 306, 319};
    json d; d["elements"] = elements({"H", "O", "Na", "Si", "C", "Zz"}); d["substances"] = json::array({substance("H2O@"), substance("Quartz"), substance("SiO2@"), substance("CO2@")}); Database base(d.dump()); ThermoEngine e(base); size_t k = 0;
    auto val = synth::val; auto ref = [&](double x) { ThermoPropertiesReaction t; t.log_equilibrium_constant = val(x); t.reaction_gibbs_energy = val(x); t.reaction_enthalpy = val(x); t.reaction_entropy = val(x); t.reaction_heat_capacity_cp = val(x); t.reaction_volume = val(x); return t; };
    auto eval = [&](const Reaction& x, const std::string& lab) { mc::visiting(lab); r.states++; r.nontrivial++; for (auto& c : std::vector<std::pair<double, double>>{{298.15, 1e5}, {623.15, 5e7}, {400, 0}}) { double p = c.second; r.transitions++; try { e.thermoPropertiesReaction(c.first, p, x); r.counters["answered"]++; } catch (const std::exception&) { r.counters["reported"]++; } try { e.thermoPropertiesReactionFromReactants(c.first, p, x); } catch (const std::exception&) {} } };
    for (int g : G) for (int t : Tm) for (int p : P) for (int n = 0; n < 10; ++n) for (double x : {-3.5, 0., 1e308, double(NAN)}) { if (k++ % parts != item) continue; Reaction q; q.setSymbol("X"); q.setEquation("Quartz = SiO2@"); q.fromEquation("Quartz = SiO2@"); q.setReferenceT(298.15); q.setReferenceP(1e5); if (g) q.setMethodGenEoS(MethodGenEoS_Thrift::type(g)); if (t) q.setMethod_T(MethodCorrT_Thrift::type(t)); if (p) q.setMethod_P(MethodCorrP_Thrift::type(p)); ThermoParametersReaction a; VD v; for (int i = 0; i < n; ++i) v.push_back(x == -3.5 ? i + 0.5 : x); a.reaction_logK_fT_coeff = a.reaction_Cp_fT_coeff = a.reaction_V_fT_coeff = a.reaction_RB_coeff = a.reaction_FM_coeff = a.reaction_DM10_coeff = v; if (n % 3 == 1) { a.temperature_intervals = {{298.15, 600}}; a.logK_TP_array = {v}; } q.setThermoParameters(a); if (n) q.setThermoReferenceProperties(ref(x)); eval(q, "reaction object with methods " + std::to_string(g) + "," + std::to_string(t) + "," + std::to_string(p) + "|" + std::to_string(n) + " coefficients, " + num6(x)); }
    if (item == 0) for (auto& m : std::vector<std::map<std::string, double>>{{}, {{"", 1}}, {{"nothing", 1}}, {{"Quartz", 0}}, {{"Quartz", NAN}, {"SiO2@", 1e308}}}) { Reaction q; q.setReactants(m); q.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_REA); eval(q, "reaction object of odd species|"); }
}

// ---- documents
static void documents(size_t item, size_t parts, bool th, Report& r) {
    json d; d["elements"] = elements({"Si", "O"}); json q = substance("Quartz"), x = reaction("H2Se(g)"); d["substances"] = json::array({q}); d["reactions"] = json::array({x}); std::string doc = d.dump(); size_t k = 0;
    auto take = [&](const std::string& s, const std::string& lab) { mc::visiting(lab); r.states++; r.transitions++; r.nontrivial++; try { Database b(s); r.counters["loaded"]++; b.getSubstancesList(); ThermoEngine e(b); double P = 1e5; try { e.thermoPropertiesSubstance(298.15, P, "Quartz"); } catch (const std::exception&) {} } catch (const std::exception&) { r.counters["rejected"]++; } };
    for (size_t n = 0; n <= doc.size(); n += th ? 1 : 3) if (k++ % parts == item) take(doc.substr(0, n), "document cut short|at " + std::to_string(n));
    for (size_t n = 0; n < doc.size(); n += th ? 1 : 7) for (std::string c : VS{"", "\"", "{", "}", "[", "]", ",", ":", "0", "-", "e", "\\", std::string(1, 0), "\xff", "\n"}) if (k++ % parts == item) { std::string s = doc; s.replace(n, 1, c); take(s, "document with a character replaced|at " + std::to_string(n)); }
    if (item) return;
    for (std::string s : {"", " ", "{", "{}", "[]", "null", "1", "\"\"", "true", "[{}]", "[null]", "{\"substances\":null}", "{\"substances\":{}}", "{\"substances\":[null]}", "{\"substances\":[1]}", "{\"substances\":[[]]}", "{\"substances\":[{}]}", "{\"elements\":[{}]}", "{\"reactions\":[{}]}", "{\"elements\":[null],\"substances\":\"x\",\"reactions\":1}", "no such file", "/", "/dev/null", "{\"substances\":[{\"symbol\":null}]}", "{\"substances\":[{\"symbol\":1}]}", "{\"reactions\":[{\"symbol\":\"r\",\"equation\":1}]}", "{\"reactions\":[{\"symbol\":\"r\",\"equation\":\"=\"}]}", "{\"reactions\":[{\"symbol\":\"r\",\"reactants\":[{}]}]}", "{\"reactions\":[{\"symbol\":\"r\",\"reactants\":{}}]}"}) take(s, "odd document|" + s);
    take(std::string(100000, '['), "deeply nested document|"); take(std::string("{\"a\":") + std::string(3000, '[') + std::string(3000, ']') + "}", "deeply nested document|3000");
    { std::string f = scratch("f.json"); for (std::string s : {std::string(), std::string("\0\1\2", 3), std::string("{"), doc.substr(0, 100), doc, std::string("\xef\xbb\xbf") + doc}) { std::ofstream(f) << s; take(f, "odd file|"); } unlink(f.c_str()); take(scratch(""), "a folder|"); }
    // records given one by one, with a label or without
    for (std::string label : {"", "element", "elements", "substance", "reaction", "x"}) for (std::string s : {std::string(), std::string("{}"), std::string("null"), std::string("[]"), std::string("{"), q.dump(), x.dump(), d["elements"][0].dump(), std::string("{\"_label\":1}"), std::string("{\"_label\":\"substance\"}"), std::string("{\"_label\":\"reaction\",\"symbol\":3}"), std::string("{\"_label\":\"nothing\"}"), std::string("{\"properties\":null}"), std::string("{\"properties\":{}}")}) for (int two = 0; two < 2; ++two) { mc::visiting("records with label " + label + "|" + s); r.states++; r.transitions++; VS v = {s}; if (two) v.push_back(s); try { Database b(v, label); ThermoEngine e(b); e.appendData(v, label); r.counters["loaded"]++; } catch (const std::exception&) { r.counters["rejected"]++; } try { Database b; b.addSubstance(s); } catch (const std::exception&) {} try { Database b; b.addElement(s); b.setElement(s); } catch (const std::exception&) {} try { Database b; b.addReaction(s); b.setReaction(s); } catch (const std::exception&) {} try { Database b; b.setSubstance(s); b.appendData(s); } catch (const std::exception&) {} }
}

// ---- reactions and substances defined by one another
static void rings(Report& r) {
    auto sub = [](const std::string& s, const std::string& rx, int how) { Substance x = synth::base(s, "SiO2", SubstanceClass::type::COMPONENT, AggregateState::type::CRYSTAL, synth::ref(-855000, -910700, 41.43, 44.6, 2.269)); x.setReactionSymbol(rx); x.setThermoParameters(synth::par()); if (how == 0) x.setThermoCalculationType(SubstanceThermoCalculationType::type::REACDC); if (how == 2) { x.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON); } return x; };
    auto rx = [](const std::string& s, std::map<std::string, double> m, int how) { Reaction x; x.setSymbol(s); x.setReactants(m); x.setReferenceT(298.15); x.setReferenceP(1e5); ThermoParametersReaction p; p.reaction_logK_fT_coeff = {-3, 0, 0, 0, 0, 0, 0}; x.setThermoParameters(p); if (how == 0) { x.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_REA); x.setMethod_T(MethodCorrT_Thrift::type::CTM_LGX); } if (how == 1) x.setMethod_T(MethodCorrT_Thrift::type::CTM_EK0); return x; };
    std::vector<std::map<std::string, double>> sets; VS names = {"A", "B", "C", "no"}; for (int m = 0; m < 81; ++m) { std::map<std::string, double> s; int k = m; for (int i = 0; i < 4; ++i) { int c = k % 3; k /= 3; if (c) s[names[i]] = c == 1 ? 1 : -1; } sets.push_back(s); }
    for (size_t a = 0; a < sets.size(); ++a) for (size_t b = 0; b < sets.size(); b += 2) for (int h = 0; h < 9; ++h) { if (h > 2 && (a + b + h) % 4) continue;
        Database d; d.addSubstance(sub("A", h == 8 ? "" : "RA", h % 3)); d.addSubstance(sub("B", h == 7 ? "none" : "RB", (h / 3) % 3)); d.addSubstance(sub("C", a % 2 ? "RA" : "", a % 2 ? 0 : 2)); d.addReaction(rx("RA", sets[a], h % 2)); d.addReaction(rx("RB", sets[b], h % 3)); ThermoEngine e(d); std::string lab = "substances defined by reactions of one another|"; for (auto& s : {sets[a], sets[b]}) { for (auto& kv : s) lab += num6(kv.second) + kv.first + " "; lab += "; "; } mc::visiting(lab + std::to_string(h)); r.states++; r.nontrivial++;
        for (auto s : {"A", "B", "C"}) for (double P : {1e5, 0.}) { r.transitions++; try { e.thermoPropertiesSubstance(350, P, s); r.counters["answered"]++; } catch (const std::exception&) { r.counters["reported"]++; } } for (auto s : {"RA", "RB"}) { double P = 1e5; r.transitions++; try { e.thermoPropertiesReaction(350, P, s); r.counters["answered"]++; } catch (const std::exception&) { r.counters["reported"]++; } try { e.thermoPropertiesReactionFromReactants(350, P, s); } catch (const std::exception&) {} } }
    r.sample("all pairs of reactions over three substances, known and unknown, that define these substances");
}

// ---- conditions and names
static void conditions(size_t item, Report& r) {
    static Database* d = nullptr; static std::vector<Query> Q; static std::unique_ptr<ThermoEngine> e[2]; if (!d) { d = new Database(base(mini.dump())); Q = alphabet(false); e[0] = std::make_unique<ThermoEngine>(*d); e[1] = std::make_unique<ThermoEngine>(*d); for (auto& x : e) { auto p = x->preferences(); p.enable_memoize = false; x->setPreferences(p); } e[1]->preferences().apply_pressure_correction_to_gas_props = true; }
    if (item >= Q.size()) { for (std::string s : VS{"", " ", "\n", "nothing", "H2O", "=", "A = B", "Quartz = ", " = Quartz", "2 = 3", "H2O@ = H2O@", std::string(100000, 120), "Quartz = 1e999SiO2@", "\xff\xfe"}) for (int k = 0; k < 10; ++k) { r.states++; r.transitions++; mc::visiting("name|" + s.substr(0, 60)); if (k % 2) continue; ask(*e[0], {Query::Kind(k), s, 298.15, 1e5, 0}); for (int st : {-7, 7}) if (k > 5) ask(*e[0], {Query::Kind(k), "H2O@", 298.15, 1e5, st}); }
        for (std::string w : {"", "x", "Zz"}) for (std::string a : {"", "x"}) { r.states++; e[1]->conventions().water_properties = w; e[1]->conventions().apparent_properties = a; for (auto s : {"H2O@", "Na+"}) { mc::visiting(std::string("convention|") + s); ask(*e[1], {Query::Sub, s, 350, 1e7, 0}); } } { Database b(*d); b.conventions().water_triple_point_reference = "x"; ThermoEngine f(b); mc::visiting("triple point|"); for (std::string w : {"GEOCHEMICAL", "STEAM_TABLES"}) { f.conventions().water_properties = w; ask(f, {Query::Sub, "H2O@", 350, 1e7, 0}); } } return; }
    Query q = Q[item]; const double I = INFINITY, N = NAN; for (double T : {0., -1., 1e-300, 1e-3, 50., 273.16, 646., 647.096, 650., 5000., 1e10, 1e308, I, -I, N}) for (double P : {0., -1., 1e-300, 1., 611., 1e5, 2.2064e7, 1e9, 1e12, 1e308, I, -I, N}) { q.T = T; q.P = P; mc::visiting("conditions " + q.family() + "|" + q.label()); for (auto& x : e) { r.states++; r.transitions++; r.nontrivial++; Snap s = ask(*x, q); r.counters[s.failed ? "reported" : "answered"]++; if (q.sym != "CO2(g)") break; } }
    if (item % 17 == 0) r.sample(q.family() + " at every pair of 15 temperatures and 13 pressures, zero, negative, huge, infinite and not a number");
}

// ---- batch and other calls
static void calls(Report& r) {
    json m; m["elements"] = mini["elements"]; m["substances"] = json::array({substance("H2O@"), substance("Na+"), substance("Quartz")}); m["reactions"] = json::array({reaction("H2Se(g)")}); Database d(m.dump()); r.sample("every call of the batch with odd names, numbers, lists and settings");
    auto go = [&](const std::string& lab, const std::function<void()>& f) { mc::visiting("call|" + lab); r.states++; r.transitions++; r.nontrivial++; try { f(); r.counters["answered"]++; } catch (const std::exception&) { r.counters["reported"]++; } };
    VS names = {"", "Na+", "Quartz", "nothing", "H2Se(g)", "Quartz = Quartz"}, props = {"", "gibbs_energy", "logKr", "temperature", "x", "density", "epsilon"}; const VD nums = {0, 1, 25, -300, 1e308, double(NAN), double(INFINITY)};
    for (auto& s : names) for (auto& p : props) for (double T : nums) for (double P : {0., 1., double(NAN), 1e300}) { ThermoBatch b(d); std::string lab = s + "," + p + "," + num6(T) + "," + num6(P); go("substance " + lab, [&] { b.thermoPropertiesSubstance(T, P, s, p).toDouble(); }); go("reaction " + lab, [&] { b.thermoPropertiesReaction(T, P, s, p).to2DVectorDouble(); }); if (T == 25) go("lists " + lab, [&] { auto o = b.thermoPropertiesSubstance(std::vector<VD>{{T}, {}, {T, P, 3}}, VS{s}, VS{p}); o.to2DVectorDouble(); }); }
    for (auto& p : props) for (std::string u : {"", "x", "J/mol", "kJ/mol", "degC", "Pa", "(", "m^", "/"}) for (int n : {-5, 0, 3, 100, 100000}) { ThermoBatch b(d); std::string f = scratch("c.csv"); go("settings " + p + "," + u + "," + std::to_string(n), [&] { try { b.setPropertyUnit(p, u); } catch (const std::exception&) {} try { b.setPropertyDigit(p, n); } catch (const std::exception&) {} auto o = b.thermoPropertiesSubstance(std::vector<VD>{{25, 1}, {30, 0}}, VS{"Na+"}, VS{"gibbs_energy", "entropy"}); o.toCSV(f); o.toCSVTransposed(f); o.toCSVPropertyGrid(f); }); unlink(f.c_str()); }
    for (double a : nums) for (double z : nums) for (double s : {0., 1., -1., 1e-12, double(NAN), double(INFINITY), 1e308}) { if (std::isfinite(a) && std::isfinite(z) && std::isfinite(s) && s != 0 && fabs((z - a) / s) > 1e5) { go("too fine a grid " + num6(a) + ".." + num6(z) + " by " + num6(s), [&] { ThermoBatch b(d); b.setTemperatureIncrement(a, z, s); b.setPressureIncrement(1, 1, 0); if ((z - a) / s > 1e7) b.thermoPropertiesSubstance(VS{"Quartz"}, VS{"volume"}); }); continue; } go("grid " + num6(a) + ".." + num6(z) + " by " + num6(s), [&] { ThermoBatch b(d); b.setTemperatureIncrement(a, z, s); b.setPressureIncrement(1, 2, 1); b.thermoPropertiesSubstance(VS{"Quartz"}, VS{"volume"}).to2DVectorDouble(); }); }
    for (auto& l : std::vector<VS>{{}, {""}, {"gibbs_energy"}, {"gibbs_energy", "entropy"}}) for (auto& u : std::vector<VS>{{}, {""}, {"kJ/mol"}, {"kJ/mol", "J/K/mol", "x"}}) go("lists of units", [&] { ThermoBatch b(d); b.setPropertiesUnits(l, u); b.setPropertiesDigits(l, std::vector<int>(u.size(), 2)); b.thermoPropertiesSubstance(std::vector<double>{25, 30}, std::vector<double>{1}, VS{"Na+"}, l); });
    for (std::string sep : {"", ",", "+", "Na", "\n", "\t", "1"}) go("separator", [&] { ThermoBatch b(d); b.preferences().separator = sep; std::string f = scratch("s.csv"); auto o = b.thermoPropertiesSubstance(std::vector<VD>{{25, 1}}, VS{"Na+"}, VS{"gibbs_energy"}); o.toCSV(f); o.toCSVTransposed(f); o.toCSVPropertyGrid(f); unlink(f.c_str()); });
    go("an output without results", [&] { ThermoBatch b(d); Output o(b); o.toDouble(); }); go("an output without results", [&] { ThermoBatch b(d); Output o(b); o.to2DVectorDouble(); }); go("an output without results", [&] { ThermoBatch b(d); Output o(b); o.toThermoScalar(); }); go("an output without results", [&] { ThermoBatch b(d); Output o(b); o.toCSV(scratch("e.csv")); }); go("an output without results", [&] { ThermoBatch b(d); Output o(b); o.toCSVTransposed(scratch("e.csv")); o.toCSVPropertyGrid(scratch("e.csv")); });
    go("solvent of no name", [&] { ThermoBatch b(d); b.setSolventSymbol(""); b.thermoPropertiesSubstance(25, 1, "Na+", "gibbs_energy").toDouble(); });
    for (std::string f : {"", "no/such.json", "{}", "[]"}) { go("batch of " + f, [&] { ThermoBatch b(f); b.thermoPropertiesSubstance(25, 1, "Na+", "gibbs_energy").toDouble(); }); go("calculator of " + f, [&] { ThermoEngine e(f); e.solventSymbol(); double P = 1e5; e.thermoPropertiesSubstance(300, P, "Na+"); }); }
    go("empty calculator", [&] { ThermoEngine e{Database()}; double P = 1e5; e.propertiesSolvent(300, P, "H2O@"); }); go("empty calculator", [&] { ThermoEngine e{Database()}; double P = 0; e.thermoPropertiesReaction(300, P, "A = B"); }); go("empty records", [&] { ThermoEngine e{Database()}; double P = 1e5; e.thermoPropertiesSubstance(300, P, Substance()); }); go("empty records", [&] { ThermoEngine e{d}; double P = 0; e.thermoPropertiesReaction(300, P, Reaction()); }); go("empty records", [&] { ThermoEngine e{d}; double P = 0; e.propertiesSolvent(300, P, Substance()); }); go("empty records", [&] { ThermoEngine e{d}; double P = 0; e.electroPropertiesSolvent(300, P, Substance()); }); go("empty records", [&] { Database x; x.addSubstance(Substance()); x.addReaction(Reaction()); x.addElement(Element()); dump(x); });
    go("records that are not there", [&] { d.getSubstance("x"); }); go("records that are not there", [&] { d.getReaction("x"); }); go("records that are not there", [&] { d.getElement("x"); }); go("records that are not there", [&] { d.substance("x"); }); go("records that are not there", [&] { d.reaction(""); }); go("records that are not there", [&] { d.element(""); });
    // formulas and equations made of pieces
    static const VS piece = {"H", "2", "O", "(", ")", "+", "-", "@", "Xx", ".", "|", "/", "e", " ", "0"}; std::vector<size_t> ix; std::function<void(int, const std::string&)> rec = [&](int left, const std::string& s) { mc::visiting("formula|" + s); r.states++; r.transitions++; try { d.parseSubstanceFormula(s); } catch (const std::exception&) {} try { d.elementalEntropyFormula(s); } catch (const std::exception&) {} if (left) for (auto& p : piece) rec(left - 1, s + p); }; rec(mc::options().thorough() ? 4 : 3, "");
    static const VS eq = {"Na+", "=", " + ", "2", " ", "-", "(", "1e9", "|"}; std::function<void(int, const std::string&)> rq = [&](int left, const std::string& s) { mc::visiting("equation|" + s); r.states++; r.transitions++; try { Reaction x; x.fromEquation(s); } catch (const std::exception&) {} if (left) for (auto& p : eq) rq(left - 1, s + p); }; rq(mc::options().thorough() ? 6 : 4, "");
    static const VS un = {"J", "/", "*", "^", "2", "(", ")", "mol", "k", "-", ".", " "}; std::function<void(int, const std::string&)> ru = [&](int left, const std::string& s) { mc::visiting("unit|" + s); r.states++; r.transitions++; try { units::convert(1.0, s, "J"); } catch (const std::exception&) {} try { units::convertible("kg", s); } catch (const std::exception&) {} if (left) for (auto& p : un) ru(left - 1, s + p); }; ru(mc::options().thorough() ? 5 : 3, "");
}

int main(int argc, char** argv) {
    mc::init(argc, argv); mc::visit_limit() = 20; bool th = mc::options().thorough(); mini = readJson("mini.json");
    recs = records(); const int parts = 4; size_t nR = recs.size() * parts, nO = 64, nX = 8, nD = 16, nC = alphabet(false).size() + 1;
    return mc::finish(mc::parallel(nR + nO + nX + nD + nC + 2, [&](size_t k, Report& r) {
        if (k < 1) { calls(r); return; } k -= 1; if (k < 1) { rings(r); return; } k -= 1;
        if (k < nR) { recordFaults(recs[k / parts], th, r, k % parts, parts); return; } k -= nR;
        if (k < nO) { objects(k, nO, th, r); return; } k -= nO; if (k < nX) { rxObjects(k, nX, r); return; } k -= nX;
        if (k < nD) { documents(k, nD, th, r); return; } k -= nD; conditions(k, r);
    }, [](const std::string& l) { std::string k = l.substr(0, l.find('|')); return k.size() > 110 ? k.substr(0, 110) : k; }));
}
