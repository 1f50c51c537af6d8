// D03: every field of a record is read as written.
#include "eng.hpp"
using namespace ThermoFun; using mc::json; using mc::Report;

// What can be observed of a record: numbers (with the tolerance of a unit conversion) and texts, by name
struct View { std::map<std::string, std::vector<double>> n; std::map<std::string, std::string> t; };
static std::string differ(const View& got, const View& want) {
    for (auto& kv : want.t) { auto it = got.t.find(kv.first); if (it == got.t.end() || it->second != kv.second) return kv.first + " is '" + (it == got.t.end() ? "?" : it->second) + "', expected '" + kv.second + "'"; }
    for (auto& kv : want.n) { auto& g = got.n.at(kv.first); if (g.size() != kv.second.size()) return kv.first + " has " + std::to_string(g.size()) + " values, expected " + std::to_string(kv.second.size());
        for (size_t i = 0; i < g.size(); ++i) if (!mc::close(g[i], kv.second[i], 1e-12)) return kv.first + "[" + std::to_string(i) + "] is " + mc::num(g[i]) + ", expected " + mc::num(kv.second[i]); }
    for (auto& kv : got.n) if (!want.n.count(kv.first)) return kv.first + " is unexpected";
    return ""; }
static std::string what(const std::string& d) { size_t p = d.find(" is "); size_t q = d.find(" has "); return d.substr(0, std::min(p, q)); }

static void scalar(View& v, const std::string& k, const Reaktoro_::ThermoScalar& s) { v.n[k] = {s.val, s.err, s.ddt, s.ddp}; v.t[k + " status"] = std::to_string(int(s.sta.first)) + s.sta.second; }
static void table(View& v, const std::string& k, const std::vector<std::vector<double>>& t) { std::vector<double> f; std::string sh; for (auto& r : t) { sh += std::to_string(r.size()) + ","; for (double x : r) f.push_back(x); } v.n[k] = f; v.t[k + " shape"] = sh; }

static View view(const Substance& s) {
    View v; v.t["name"] = s.name(); v.t["symbol"] = s.symbol(); v.t["formula"] = s.formula(); v.t["reaction"] = s.reactionSymbol();
    v.n["molarMass"] = {s.molarMass()}; v.n["Tst"] = {s.referenceT()}; v.n["Pst"] = {s.referenceP()}; v.n["lowerT"] = {s.lowerT()}; v.n["upperT"] = {s.upperT()}; v.n["lowerP"] = {s.lowerP()}; v.n["upperP"] = {s.upperP()};
    v.n["charge"] = {double(s.charge())}; v.n["class"] = {double(s.substanceClass())}; v.n["aggregate"] = {double(s.aggregateState())}; v.n["calculation"] = {double(s.thermoCalculationType())};
    v.n["methodEoS"] = {double(s.methodGenEOS())}; v.n["methodT"] = {double(s.method_T())}; v.n["methodP"] = {double(s.method_P())};
    auto r = s.thermoReferenceProperties(); scalar(v, "G", r.gibbs_energy); scalar(v, "H", r.enthalpy); scalar(v, "S", r.entropy); scalar(v, "Cp", r.heat_capacity_cp); scalar(v, "V", r.volume); scalar(v, "A", r.helmholtz_energy); scalar(v, "U", r.internal_energy); scalar(v, "Cv", r.heat_capacity_cv);
    auto p = s.thermoParameters(); v.n["compressibility"] = {p.isothermal_compresibility}; v.n["expansivity"] = {p.isobaric_expansivity};
    table(v, "Tintervals", p.temperature_intervals); table(v, "Pintervals", p.pressure_intervals); table(v, "Cp_coeff", p.Cp_coeff); v.n["nonElectrolyte"] = p.Cp_nonElectrolyte_coeff; table(v, "transition", p.phase_transition_prop); table(v, "transitionBerman", p.phase_transition_prop_Berman);
    v.n["landau"] = p.m_landau_phase_trans_props; v.n["hkf"] = p.HKF_parameters; v.n["volume_coeff"] = p.volume_coeff; v.n["critical"] = p.critical_parameters; v.n["birch"] = p.volume_BirchM_coeff; v.n["empirical"] = p.empirical_coeff; v.n["hp98"] = p.solute_holland_powell98_coeff;
    return v; }
static View view(const Reaction& s) {
    View v; v.t["name"] = s.name(); v.t["symbol"] = s.symbol(); v.t["equation"] = s.equation();
    v.n["Tst"] = {s.referenceT()}; v.n["Pst"] = {s.referenceP()}; v.n["lowerT"] = {s.lowerT()}; v.n["upperT"] = {s.upperT()}; v.n["lowerP"] = {s.lowerP()}; v.n["upperP"] = {s.upperP()};
    v.n["methodEoS"] = {double(s.methodGenEOS())}; v.n["methodT"] = {double(s.method_T())}; v.n["methodP"] = {double(s.method_P())};
    std::string rs; std::vector<double> c; for (auto& kv : s.reactants()) { rs += kv.first + ","; c.push_back(kv.second); } v.t["reactants"] = rs; v.n["coefficients"] = c;
    auto r = s.thermoReferenceProperties(); scalar(v, "logK", r.log_equilibrium_constant); scalar(v, "G", r.reaction_gibbs_energy); scalar(v, "H", r.reaction_enthalpy); scalar(v, "S", r.reaction_entropy); scalar(v, "Cp", r.reaction_heat_capacity_cp); scalar(v, "V", r.reaction_volume); scalar(v, "lnK", r.ln_equilibrium_constant);
    scalar(v, "A", r.reaction_helmholtz_energy); scalar(v, "U", r.reaction_internal_energy); scalar(v, "Cv", r.reaction_heat_capacity_cv);
    auto p = s.thermoParameters(); table(v, "Tintervals", p.temperature_intervals); table(v, "Pintervals", p.pressure_intervals); v.n["logK_fT"] = p.reaction_logK_fT_coeff; v.n["logK_TP"] = p.logK_TP_array; v.n["Cp_coeff"] = p.reaction_Cp_fT_coeff; v.n["V_coeff"] = p.reaction_V_fT_coeff; v.n["RB"] = p.reaction_RB_coeff; v.n["FM"] = p.reaction_FM_coeff; v.n["DM10"] = p.reaction_DM10_coeff;
    return v; }
static View view(const Element& e) {
    View v; v.t["name"] = e.name(); v.t["symbol"] = e.symbol(); v.n["mass"] = {e.molarMass()}; v.n["entropy"] = {e.entropy()}; v.n["heat_capacity"] = {e.heatCapacity()}; v.n["volume"] = {e.volume()};
    v.n["class"] = {double(e.class_())}; v.n["isotope"] = {double(e.isotopeMass())}; v.n["number"] = {double(e.number())}; return v; }
static View blank(int kind) {   // what a record with a symbol alone gives, from its documentation
    View v;
    auto sc = [&](std::initializer_list<const char*> l) { for (auto k : l) { v.n[k] = {0, 0, 0, 0}; v.t[std::string(k) + " status"] = std::to_string(int(Reaktoro_::Status::notdefined)); } };
    if (kind == 0) { v.t = {{"name", ""}, {"symbol", "X"}}; for (auto k : {"mass", "entropy", "heat_capacity", "volume", "class", "isotope", "number"}) v.n[k] = {0}; return v; }
    for (auto k : {"lowerT", "upperT", "lowerP", "upperP", "methodEoS", "methodT", "methodP"}) v.n[k] = {0};
    v.n["Tst"] = {298.15}; v.n["Pst"] = {1e5}; v.t["Tintervals shape"] = v.t["Pintervals shape"] = ""; v.n["Tintervals"] = v.n["Pintervals"] = {};
    if (kind == 1) { for (auto k : {"name", "formula", "reaction"}) v.t[k] = ""; v.t["symbol"] = "X"; for (auto k : {"molarMass", "charge", "class", "aggregate", "calculation", "compressibility", "expansivity"}) v.n[k] = {0};
        sc({"G", "H", "S", "Cp", "V", "A", "U", "Cv"}); for (auto k : {"Cp_coeff", "transition", "transitionBerman"}) { v.n[k] = {}; v.t[std::string(k) + " shape"] = ""; }
        for (auto k : {"nonElectrolyte", "landau", "hkf", "volume_coeff", "critical", "birch", "empirical", "hp98"}) v.n[k] = {}; }
    else { for (auto k : {"name", "equation", "reactants"}) v.t[k] = ""; v.t["symbol"] = "X"; v.n["coefficients"] = {};
        sc({"logK", "lnK", "G", "H", "S", "Cp", "V", "A", "U", "Cv"}); for (auto k : {"logK_fT", "logK_TP", "Cp_coeff", "V_coeff", "RB", "FM", "DM10"}) v.n[k] = {}; }
    return v; }

// One way of writing one field: what it adds to the record, and what it changes in the view
struct Alt { std::string name; std::string field; std::function<void(json&)> put; std::function<void(View&)> expect; };
struct Unit { std::string u; double f, o = 0; };

static std::vector<Unit> units(const std::string& base) {   // spellings of units of the same quantity, and their size in the base unit
    if (base == "J/mol") return {{"J/mol", 1}, {"kJ/mol", 1e3}, {"cal/mol", 4.184}, {"kcal/mol", 4184}};
    if (base == "J/(mol*K)" || base == "J/K/mol") return {{"J/(mol*K)", 1}, {"J/K/mol", 1}, {"cal/(mol*K)", 4.184}, {"cal/mol/K", 4.184}, {"kJ/(mol*K)", 1e3}};
    if (base == "J/bar") return {{"J/bar", 1}, {"cal/bar", 4.184}, {"cm^3", 0.1}, {"m^3", 1e5}, {"J/MPa", 0.1}};
    if (base == "g/mol") return {{"g/mol", 1}, {"kg/mol", 1e3}, {"mg/mol", 1e-3}};
    if (base == "K") return {{"K", 1}, {"degC", 1, 273.15}};
    if (base == "degC") return {{"degC", 1}, {"K", 1, -273.15}};
    if (base == "bar") return {{"bar", 1}, {"MPa", 10}, {"Pa", 1e-5}, {"kbar", 1e3}};
    if (base == "K/bar") return {{"K/bar", 1}, {"K/MPa", 0.1}};
    if (base == "(cm^3)/g") return {{"(cm^3)/g", 1}, {"(m^3)/kg", 1e3}};
    if (base == "(cm^3*K^0.5)/g") return {{"(cm^3*K^0.5)/g", 1}, {"(m^3*K^0.5)/kg", 1e3}};
    if (base == "1/bar") return {{"1/bar", 1}, {"1/MPa", 0.1}};
    if (base == "1/bar^2") return {{"1/bar^2", 1}};
    if (base == "1") return {{"1", 1}, {"", 1}};
    std::vector<Unit> r{{base, 1}};
    auto sub = [&](const std::string& a, const std::string& b, double f) { size_t p = base.find(a); if (p == std::string::npos || (p && isalpha(base[p - 1])) ) return; std::string s = base; s.replace(p, a.size(), b); r.push_back({s, f}); };
    if (base.find("cal") != std::string::npos) { sub("cal", "J", 1 / 4.184); sub("cal", "kcal", 1e3); }
    else if (base.find("kJ") != std::string::npos) { sub("kJ", "J", 1e-3); sub("kJ", "kcal", 4.184); }
    else if (base.find('J') != std::string::npos) { sub("J", "cal", 4.184); sub("J", "kJ", 1e3); }
    return r; }

static json& path(json& j, const std::vector<std::string>& p) { json* x = &j; for (auto& s : p) x = &(*x)[s]; return *x; }

static std::vector<std::vector<Alt>> fields(int kind) {
    std::vector<std::vector<Alt>> F;
    auto text = [&](const std::string& f, const std::string& v, std::initializer_list<const char*> vals) { std::vector<Alt> a; for (std::string s : vals) a.push_back({f + "='" + s + "'", f, [=](json& j) { j[f] = s; }, [=](View& w) { w.t[v] = s; }});
        a.push_back({f + "=null", f, [=](json& j) { j[f] = nullptr; }, [](View&) {}}); F.push_back(a); };
    auto integer = [&](const std::string& f, const std::string& v, std::initializer_list<int> vals) { std::vector<Alt> a; for (int s : vals) a.push_back({f + "=" + std::to_string(s), f, [=](json& j) { j[f] = s; }, [=](View& w) { w.n[v] = {double(s)}; }});
        a.push_back({f + "=null", f, [=](json& j) { j[f] = nullptr; }, [](View&) {}}); F.push_back(a); };
    auto number = [&](const std::vector<std::string>& p, const std::string& v, std::initializer_list<double> vals) { std::vector<Alt> a; std::string f; for (auto& s : p) f += (f.empty() ? "" : ".") + s; for (double s : vals) a.push_back({f + "=" + mc::num6(s), f, [=](json& j) { path(j, p) = s; }, [=](View& w) { w.n[v] = {s}; }});
        a.push_back({f + "=null", f, [=](json& j) { path(j, p) = nullptr; }, [](View&) {}}); F.push_back(a); };
    auto code = [&](const std::string& f, const std::string& v, std::vector<int> vals) { std::vector<Alt> a; for (int s : vals) a.push_back({f + "=" + std::to_string(s), f, [=](json& j) { j[f] = {{std::to_string(s), "NAME"}}; }, [=](View& w) { w.n[v] = {double(s)}; }});
        a.push_back({f + "=null", f, [=](json& j) { j[f] = nullptr; }, [](View&) {}}); a.push_back({f + "={}", f, [=](json& j) { j[f] = json::object(); }, [](View&) {}}); F.push_back(a); };
    // a quantity with unit (and, where it has one, an error)
    auto quantity = [&](const std::string& f, const std::string& v, const std::string& base, double x, bool full) {
        std::vector<Alt> a;
        auto one = [&](const std::string& n, json q, double val, double err, bool has) { a.push_back({f + ": " + n, f, [=](json& j) { j[f] = q; }, [=](View& w) { if (full) { w.n[v] = {has ? val : 0, err, 0, 0}; if (has) w.t[v + " status"] = std::to_string(int(Reaktoro_::Status::read)); } else if (has) w.n[v] = {val}; }}); };
        one("value", {{"values", {x}}}, x, 0, true); one("zero", {{"values", {0.0}}}, 0, 0, true);
        for (auto& u : units(base)) { if (u.u.empty()) continue; one("in " + u.u, {{"values", {x}}, {"units", {u.u}}}, x * u.f, 0, true); if (full) one("with error in " + u.u, {{"values", {x}}, {"units", {u.u}}, {"errors", {0.5}}}, x * u.f, 0.5 * u.f, true); }
        one("null unit", {{"values", {x}}, {"units", {nullptr}}}, x, 0, true); one("no unit given", {{"values", {x}}, {"units", json::array()}}, x, 0, true);
        one("null value", {{"values", {nullptr}}, {"units", {units(base)[0].u}}}, 0, 0, false); one("no value", {{"values", json::array()}}, 0, 0, false); one("empty", json::object(), 0, 0, false);
        if (full) { one("null error", {{"values", {x}}, {"errors", {nullptr}}}, x, 0, true); one("error", {{"values", {x}}, {"errors", {0.25}}}, x, 0.25, true); }
        F.push_back(a); };
    // a method with coefficients; every length, every unit at every position
    auto coeffs = [&](const std::string& entry, int method, const std::string& mname, const std::string& mview, int mcode, const std::string& f, const std::string& v, std::vector<std::string> base, size_t maxn, bool tab, json more = json::object(), std::function<void(View&)> also = nullptr) {
        std::vector<Alt> a;
        auto one = [&](const std::string& n, json q, std::vector<double> val) { a.push_back({entry + " " + f + ": " + n, entry, [=](json& j) { json m = more; m["method"] = {{std::to_string(method), mname}}; m[f] = q; j["TPMethods"].push_back(m); },
            [=](View& w) { w.n[mview] = {double(mcode)}; if (also) also(w); if (tab) { if (val.size()) { for (double x : val) w.n[v].push_back(x); w.t[v + " shape"] += std::to_string(val.size()) + ","; } } else w.n[v] = val; }}); };
        auto values = [&](size_t n) { std::vector<double> x; for (size_t i = 0; i < n; ++i) x.push_back((i % 2 ? -1 : 1) * (3.25 + 1.75 * i)); return x; };
        for (size_t n = 0; n <= maxn; ++n) { one(std::to_string(n) + " values", {{"values", values(n)}}, values(n)); }
        auto bu = [&](size_t i) { return i < base.size() ? base[i] : std::string("1"); };
        if (!base.empty()) {
            std::vector<std::string> all; for (size_t i = 0; i < maxn; ++i) all.push_back(units(bu(i))[0].u);
            if (f != "eos_hkf_coeffs") one("all units", {{"values", values(maxn)}, {"units", all}}, values(maxn));
            std::vector<std::string> few(all.begin(), all.begin() + 1); one("unit of the first only", {{"values", values(maxn)}, {"units", few}}, values(maxn));
            one("empty units", {{"values", values(maxn)}, {"units", std::vector<std::string>(maxn, "")}}, values(maxn));
            for (size_t i = 0; i < std::min(maxn, base.size()); ++i) for (auto& u : units(base[i])) { auto us = all; us[i] = u.u; if (f == "eos_hkf_coeffs" && us[2] == "(cal*K)/mol") continue; auto x = values(maxn); x[i] = x[i] * u.f + u.o; one("number " + std::to_string(i) + " in " + u.u, {{"values", values(maxn)}, {"units", us}}, x); }
        }
        F.push_back(a); };
    if (kind == 0) {
        text("name", "name", {"hydrogen", "x y"}); integer("number", "number", {1, 94}); integer("isotope_mass", "isotope", {1, 238}); code("class_", "class", {0, 1, 4});
        quantity("entropy", "entropy", "J/(mol*K)", 65.34, false); quantity("heat_capacity", "heat_capacity", "J/(mol*K)", 14.4, false); quantity("atomic_mass", "mass", "g/mol", 1.00794, false); quantity("volume", "volume", "J/bar", 2.5, false);
        return F; }
    text("name", "name", {"a name", "b"}); number({"Tst"}, "Tst", {273.16, 1000}); number({"Pst"}, "Pst", {1e5, 101325, 2e8, 611.657});
    for (std::string l : {"lowerT", "upperT", "lowerP", "upperP"}) number({"limitsTP", l}, l, {273.15, 5000, 0.0625});
    if (kind == 1) {
        text("formula", "formula", {"H2O", "SiO2@"}); text("reaction", "reaction", {"R1", "ZrF6-2"}); integer("formula_charge", "charge", {-2, 0, 3});
        quantity("mass_per_mole", "molarMass", "g/mol", 18.015, false); code("aggregate_state", "aggregate", {0, 1, 2, 3, 4, 5, 6, 8, 11, 101}); code("class_", "class", {0, 1, 2, 3, 4, 5, 101});
        quantity("sm_gibbs_energy", "G", "J/mol", -237183, true); quantity("sm_enthalpy", "H", "J/mol", -285881, true); quantity("sm_entropy_abs", "S", "J/K/mol", 69.92, true); quantity("sm_heat_capacity_p", "Cp", "J/K/mol", 75.36, true); quantity("sm_volume", "V", "J/bar", 1.807, true);
        { std::vector<Alt> a; for (double x : {2.5, 0.0}) for (bool u : {false, true}) a.push_back({"m_expansivity" + std::string(u ? " in 1/K" : ""), "m_expansivity", [=](json& j) { j["m_expansivity"] = {{"values", {x}}}; if (u) j["m_expansivity"]["units"] = {"1/K"}; }, [=](View& w) { w.n["expansivity"] = {x}; }});
          a.push_back({"m_expansivity as databases write it", "m_expansivity", [=](json& j) { j["m_expansivity"] = {{"values", {2.5e-5}}, {"units", {"kbar"}}}; }, [=](View& w) { w.n["expansivity"] = {2.5}; }}); F.push_back(a); }
        { std::vector<Alt> a; a.push_back({"m_compressibility", "m_compressibility", [=](json& j) { j["m_compressibility"] = {{"values", {750.0}}}; }, [=](View& w) { w.n["compressibility"] = {750}; }});
          for (auto& u : std::vector<Unit>{{"kbar", 1}, {"bar", 1e-3}, {"GPa", 10}, {"1e-05/K", 1}}) a.push_back({"m_compressibility in " + u.u, "m_compressibility", [=](json& j) { j["m_compressibility"] = {{"values", {750.0}}, {"units", {u.u}}}; }, [=](View& w) { w.n["compressibility"] = {750 * u.f}; }}); F.push_back(a); }
        struct M { const char* kind; std::vector<std::array<int, 2>> c; };
        for (auto& m : std::vector<M>{{"methodEoS", {{2, 101}, {3, 119}, {25, 117}, {26, 118}, {27, 120}, {28, 121}, {41, 122}, {42, 123}}}, {"methodT", {{5, 201}, {6, 202}, {1, 203}, {29, 206}, {30, 207}, {31, 221}, {32, 222}, {33, 223}, {43, 200}}},
                 {"methodP", {{34, 305}, {35, 306}, {36, 307}, {37, 308}, {38, 309}, {39, 310}, {8, 311}, {9, 312}, {10, 313}, {11, 314}, {12, 315}, {13, 316}, {14, 317}, {4, 320}, {40, 300}}}}) {
            std::vector<Alt> a; for (auto& c : m.c) a.push_back({"method " + std::to_string(c[0]), m.kind, [=](json& j) { j["TPMethods"].push_back({{"method", {{std::to_string(c[0]), "name"}}}}); }, [=](View& w) { w.n[m.kind] = {double(c[1])}; }}); F.push_back(a); }
        json lim = {{"limitsTP", {{"lowerT", 298.15}, {"upperT", 848.0}}}}; auto interval = [](View& w) { w.n["Tintervals"].push_back(298.15); w.n["Tintervals"].push_back(848); w.t["Tintervals shape"] += "2,"; };
        coeffs("Cp", 0, "cp_ft_equation", "methodEoS", 100, "m_heat_capacity_ft_coeffs", "Cp_coeff", {"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)", "J/(mol*K^4)", "J/(mol*K^5)", "(J*K^2)/mol", "J/mol", "J/(mol*K^1.5)", "J/(mol*K)"}, 12, true, lim, interval);
        coeffs("transition", 0, "cp_ft_equation", "methodEoS", 100, "m_phase_trans_props", "transition", {"K", "J/(mol*K)", "J/mol", "J/bar", "K/bar"}, 5, true, lim, interval);
        coeffs("hkf", 2, "solute_hkf88_gems", "methodEoS", 101, "eos_hkf_coeffs", "hkf", {"cal/(mol*bar)", "cal/mol", "(cal*K)/(mol*bar)", "(cal*K)/mol", "cal/(mol*K)", "(cal*K)/mol", "cal/mol"}, 8, false);
        coeffs("hkf2", 3, "solute_hkf88_reaktoro", "methodEoS", 119, "eos_hkf_coeffs", "hkf", {}, 7, false);
        coeffs("ad", 4, "solute_aknifiev_diamond03", "methodP", 320, "eos_akinfiev_diamond_coeffs", "nonElectrolyte", {"1", "(cm^3)/g", "(cm^3*K^0.5)/g"}, 4, false);
        coeffs("crit", 13, "fluid_peng_robinson78", "methodP", 316, "eos_gas_crit_props", "critical", {"K", "bar", "1", "1"}, 9, false);
        coeffs("landau", 5, "landau_holland_powell98", "methodT", 201, "m_landau_phase_trans_props", "landau", {"degC", "J/(mol*K)", "J/bar"}, 4, false);
        coeffs("hp98", 41, "solute_holland_powell98", "methodEoS", 122, "solute_holland_powell98_coeff", "hp98", {"kJ/(mol*K^2)"}, 2, false);
        coeffs("hp98", 41, "solute_holland_powell98", "methodEoS", 122, "solute_holland_powell98_coeffs", "hp98", {"kJ/(mol*K^2)"}, 2, false);
        coeffs("birch", 37, "mv_eos_birch_murnaghan_gott97", "methodP", 308, "eos_birch_murnaghan_coeffs", "birch", {}, 11, false);
        coeffs("volume", 36, "mv_equation_berman88", "methodP", 307, "m_volume_fpt_coeffs", "volume_coeff", {}, 5, false);
        coeffs("berman", 6, "landau_berman88", "methodT", 202, "m_berman_phase_trans_props", "transitionBerman", {}, 5, true);
        coeffs("cg", 10, "fluid_churakov_gottschalk", "methodP", 313, "eos_churakov_gottschalk_coeffs", "empirical", {}, 13, false);
        // limits of the method, in part
        { std::vector<Alt> a; for (int m = 0; m < 4; ++m) a.push_back({"Cp limits " + std::to_string(m), "Cp limits", [=](json& j) { json e = {{"method", {{"0", "cp_ft_equation"}}}}; if (m & 1) e["limitsTP"]["lowerT"] = 300.0; if (m & 2) e["limitsTP"]["upperT"] = 900.0; j["TPMethods"].push_back(e); },
            [=](View& w) { w.n["methodEoS"] = {100}; int k = 0; if (m & 1) { w.n["Tintervals"].push_back(300); ++k; } if (m & 2) { w.n["Tintervals"].push_back(900); ++k; } w.t["Tintervals shape"] += std::to_string(k) + ","; }}); F.push_back(a); }
    } else {
        { std::vector<Alt> a; for (auto& e : std::vector<std::tuple<std::string, std::string, std::vector<double>>>{{"Quartz = SiO2@", "Quartz,SiO2@,", {-1, 1}}, {"2H2@ + O2@ = 2H2O@", "H2@,H2O@,O2@,", {-2, 2, -1}}})
            a.push_back({"equation " + std::get<0>(e), "equation", [=](json& j) { j["equation"] = std::get<0>(e); }, [=](View& w) { w.t["equation"] = std::get<0>(e); if (w.t["reactants"].empty()) { w.t["reactants"] = std::get<1>(e); w.n["coefficients"] = std::get<2>(e); } }}); F.push_back(a); }
        { std::vector<Alt> a; a.push_back({"reactants", "reactants", [=](json& j) { j["reactants"] = json::array({{{"symbol", "B"}, {"coefficient", -0.5}}, {{"symbol", "A"}, {"coefficient", 3}}}); }, [=](View& w) { w.t["reactants"] = "A,B,"; w.n["coefficients"] = {3, -0.5}; }});
          a.push_back({"reactants=null", "reactants", [=](json& j) { j["reactants"] = nullptr; }, [](View&) {}}); F.push_back(a); }
        quantity("logKr", "logK", "1", -3.7, true); quantity("drsm_heat_capacity_p", "Cp", "J/K/mol", 75.36, true); quantity("drsm_gibbs_energy", "G", "J/mol", -237183, true); quantity("drsm_enthalpy", "H", "J/mol", 1234, true); quantity("drsm_entropy", "S", "J/K/mol", -69.92, true); quantity("drsm_volume", "V", "J/bar", 1.807, true);
        struct M { const char* kind; std::vector<std::array<int, 2>> c; };
        for (auto& m : std::vector<M>{{"methodEoS", {{11, 100}, {1, 105}, {0, 102}, {2, 104}}}, {"methodT", {{3, 208}, {4, 209}, {5, 210}, {6, 211}, {7, 212}, {8, 213}, {9, 214}, {10, 216}, {14, 224}}}, {"methodP", {{12, 306}, {13, 305}}}}) {
            std::vector<Alt> a; for (auto& c : m.c) a.push_back({"method " + std::to_string(c[0]), m.kind, [=](json& j) { j["TPMethods"].push_back({{"method", {{std::to_string(c[0]), "name"}}}}); }, [=](View& w) { w.n[m.kind] = {double(c[1])}; }}); F.push_back(a); }
        coeffs("logk", 0, "logk_fpt_function", "methodEoS", 102, "logk_ft_coeffs", "logK_fT", {"1", "1/K", "K", "1", "K^2", "1/K^2", "K^0.5"}, 8, false);
        coeffs("cp", 11, "dr_heat_capacity_ft", "methodEoS", 100, "dr_heat_capacity_ft_coeffs", "Cp_coeff", {"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)"}, 6, false);
        coeffs("vol", 12, "dr_volume_fpt", "methodP", 306, "dr_volume_fpt_coeffs", "V_coeff", {"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"}, 5, false);
        coeffs("rb", 10, "solute_eos_ryzhenko_gems", "methodT", 216, "dr_ryzhenko_coeffs", "RB", {"1", "1", "1"}, 4, false);
        coeffs("fm", 9, "logk_marshall_frank78", "methodT", 214, "dr_marshall_franck_coeffs", "FM", {"1", "K", "K^2", "K^3", "1", "K", "K^2"}, 8, false);
        coeffs("dm", 14, "logk_dolejs_manning10", "methodT", 224, "dr_dolejs_manning10_coeffs", "DM10", {"J/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"}, 7, false);
    }
    return F; }

static const char* KIND[] = {"element", "substance", "reaction"};
struct Way { std::string name; std::function<View(int, const std::string&)> load; };
static json R0(int k) { json j; j["symbol"] = "X"; return j; }

static Report d03() {
    static std::vector<std::vector<std::vector<Alt>>> F; for (int k = 0; k < 3; ++k) F.push_back(fields(k));
    // records that set everything, to be read before the record under test
    static std::string full[3]; for (int k = 0; k < 3; ++k) { json j; j["symbol"] = "Y"; for (auto& f : F[k]) f[0].put(j); if (k == 1) j.erase("reaction"); full[k] = j.dump(); }
    static std::vector<Way> ways;
    ways.push_back({"object", [](int k, const std::string& t) { return k == 0 ? view(Element(t)) : k == 1 ? view(Substance(t)) : view(Reaction(t)); }});
    auto get = [](Database& d, int k) { return k == 0 ? view(d.getElement("X")) : k == 1 ? view(d.getSubstance("X")) : view(d.getReaction("X")); };
    ways.push_back({"document", [get](int k, const std::string& t) { Database d("{\"" + std::string(KIND[k]) + "s\":[" + full[k] + "," + t + "]}"); return get(d, k); }});
    for (int b = 0; b < 3; ++b) ways.push_back({std::string("after a full ") + KIND[b], [get, b](int k, const std::string& t) { Database d; d.appendData(std::vector<std::string>{full[b]}, KIND[b]); d.appendData(std::vector<std::string>{t}, KIND[k]); return get(d, k); }});
    ways.push_back({"over another record of that symbol", [get](int k, const std::string& t) { json y = json::parse(full[k]); y["symbol"] = "X"; Database d; d.appendData(std::vector<std::string>{y.dump()}, KIND[k]); d.appendData(std::vector<std::string>{t}, KIND[k]); return get(d, k); }});
    ways.push_back({"wrapped in properties", [get](int k, const std::string& t) { Database d; d.appendData(std::vector<std::string>{"{\"_label\":\"" + std::string(KIND[k]) + "\",\"properties\":" + t + "}"}, "x"); return get(d, k); }});
    struct Item { int k; size_t f; int mode; }; std::vector<Item> items;   // mode 0: single, 1: pairs with later fields, 2: all, all but one
    for (int k = 0; k < 3; ++k) for (size_t f = 0; f < F[k].size(); ++f) { items.push_back({k, f, 0}); items.push_back({k, f, 1}); items.push_back({k, f, 2}); }
    return mc::parallel(items.size(), [&](size_t n, Report& r) {
        auto [k, f, mode] = items[n]; auto& G = F[k]; if (mode && G[f][0].field == "cg") return;   // (a listed finding, seen alone)
        bool th = mc::options().thorough();
        auto judge = [&](const std::vector<const Alt*>& as, size_t way) {
            json j = R0(k); View w = blank(k); std::string lab = std::string(KIND[k]) + " with " ; for (auto* a : as) lab += a->name + "; ";
            for (auto* a : as) a->put(j);
            // the list of reactants stands before the equation; expectations are taken in the order of reading
            for (auto* a : as) if (a->field == "reactants") a->expect(w);
            for (auto* a : as) if (a->field != "reactants") a->expect(w);
            if (k == 1 && !j.contains("TPMethods") && j.contains("reaction") && !j["reaction"].is_null()) w.n["calculation"] = {1};
            if (as.size() > 12) lab = std::string(KIND[k]) + " with " + std::to_string(as.size()) + " fields, read " + ways[way].name; else lab += "read " + ways[way].name;
            mc::visiting(lab); r.states++; r.transitions++; r.traces++; r.nontrivial++;
            View g; std::string err; try { g = ways[way].load(k, j.dump()); } catch (const std::exception& e) { err = eng::clean(e.what()); }
            std::string d = err.empty() ? differ(g, w) : "record is refused: " + err;
            if (!d.empty()) r.violation(std::string(KIND[k]) + ":" + (as.size() > 1 ? "with-others" : as[0]->field) + ":" + what(d), lab + ": " + d, j.dump()); };
        if (mode == 0) { if (f % 9 == 0) r.sample(std::string(KIND[k]) + " with " + G[f].front().name + ", ..., " + G[f].back().name + ": " + std::to_string(G[f].size()) + " ways of writing it, read in " + std::to_string(ways.size()) + " ways");
            for (auto& a : G[f]) for (size_t w = 0; w < ways.size(); ++w) judge({&a}, w); }
        else if (mode == 1) for (size_t g = f + 1; g < G.size(); ++g) { if (G[g][0].field == "cg") continue;
            // all pairs of ways for short alphabets, otherwise each of one with the first of the other
            for (size_t a = 0; a < G[f].size(); ++a) for (size_t b = 0; b < G[g].size(); ++b) { if (a && b && !th && (a + 3 * b) % 11) continue;
                // a field that is written twice, or a method kind given twice: the later one holds; the tables grow
                judge({&G[f][a], &G[g][b]}, th ? (a + b) % ways.size() : (a && b ? 0 : (f + g) % ways.size())); } }
        else { // all fields but one, every way of writing one of them
            for (size_t w = 0; w < (th ? ways.size() : 2); ++w) for (int drop = -1; drop < (int)G.size(); ++drop) { if (drop == (int)f) continue; if (!th && drop >= 0 && (drop + f) % 5) continue;
                for (size_t a = 0; a < G[f].size(); a += (drop < 0 || th ? 1 : 7)) { std::vector<const Alt*> as; for (size_t g = 0; g < G.size(); ++g) if ((int)g != drop && G[g][0].field != "cg") as.push_back(g == f ? &G[f][a] : &G[g][0]); judge(as, w); } } }
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv); Report r;
    if (mc::options().mode == "D03") r = d03();
    return mc::finish(r);
}
