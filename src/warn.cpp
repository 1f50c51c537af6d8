// S03: results outside the limits of a record or model say so, results inside do not.
#include "phys.hpp"
#include <ThermoModelsSubstance.h>
using namespace phys; using mc::Report;
typedef MethodCorrP_Thrift MP; typedef MethodGenEoS_Thrift MG; typedef MethodCorrT_Thrift MT;

struct Lim { double tl, tu, pl, pu; };
struct Model { std::string name; Substance s; std::string text; bool hkf, fluid; };
static std::vector<Model> models;

static const char* propNames[] = {"G", "H", "S", "Cp"};
static std::vector<const ThermoScalar*> judged(const ThermoPropertiesSubstance& t) { return {&t.gibbs_energy, &t.enthalpy, &t.entropy, &t.heat_capacity_cp}; }
static bool has(const std::string& s, const std::string& x) { return s.find(x) != std::string::npos; }
static int count(const std::string& s, const std::string& x) { int n = 0; for (size_t i = s.find(x); i != std::string::npos; i = s.find(x, i + 1)) ++n; return n; }
static std::string range(double a, double b) { return std::to_string(a) + "-" + std::to_string(b); }
static Substance gasRec(const std::string& sym, const std::string& f, MP::type m) { return synth::gas(sym, f, m, {304.2, 73.8, 0.225, 0.0429, 0, 0, 0, 0, 0, 0, 0, 0}, {30, 0, 0}, synth::ref(-10000, 5000, 200, 33, 2478)); }

static void build() {
    Database db(mc::options().data + "/mini.json");
    auto from = [&](const std::string& name, const std::string& sym, const std::string& text, bool hkf) { Substance s = db.getSubstance(sym); s.setSymbol("X-" + name); models.push_back({name, s, text, hkf, false}); };
    auto wide = [](Substance s) { auto p = s.thermoParameters(); p.temperature_intervals = {{200, 3000}}; s.setThermoParameters(p); return s; };
    auto syn = [&](const std::string& name, Substance s, const std::string& text, bool fluid) { s.setSymbol("X-" + name); models.push_back({name, wide(s), text, false, fluid}); };
    from("hkf-reaktoro", "Na+", "HKF", true); from("hkf-gems", "SiO2@hkfg", "HKF", true); from("hkf-gems-ion", "Na+g", "HKF", true); from("akinfiev-diamond", "CO2@", "Akinfiev", false);
    models.back().s = wide(models.back().s);
    for (auto& g : {std::make_pair("pr78", MP::CPM_PR78), {"soave", MP::CPM_SRK}, {"stryjek-vera", MP::CPM_PRSV}, {"cork", MP::CPM_CORK}}) syn(g.first, gasRec("Q", "CO2", g.second), "fluid model", true);
    syn("churakov-gottschalk", synth::cgf(), "fluid model", true); syn("sterner-pitzer", synth::stpCO2(), "fluid model", true);
    syn("berman", synth::berman(), "Berman", false); syn("birch-murnaghan", synth::bm(), "BMGottschalk", false);
    { Substance s = synth::mineral("M", MP::CPM_CEH); auto p = s.thermoParameters(); p.isothermal_compresibility = 750; p.isobaric_expansivity = 0.65; s.setThermoParameters(p); syn("murnaghan", s, "Murnaghan", false);
      s.setMethod_T(MT::CTM_CHP); p.m_landau_phase_trans_props = {{575, 4.95, 0.1188}}; s.setThermoParameters(p); syn("landau", s, "Landau", false); s.setMethod_P(MP::CPM_CON); }
    // without limits of their own the following never say anything
    syn("constant-volume", synth::mineral("M", MP::CPM_CON), "", false); syn("ideal-gas", gasRec("Q", "CO2", MP::CPM_OFF), "", false);
}

static ThermoPropertiesSubstance direct(const Substance& s, double T, double P, bool apply, bool& ok) {
    ok = true; auto t = EmpiricalCpIntegration(s).thermoProperties(T, P);
    switch (s.method_P()) { case MP::CPM_PR78: return GasPR78(s).thermoProperties(T, P, t, apply); case MP::CPM_SRK: return GasSRK(s).thermoProperties(T, P, t, apply); case MP::CPM_PRSV: return GasPRSV(s).thermoProperties(T, P, t, apply); case MP::CPM_CORK: return GasCORK(s).thermoProperties(T, P, t, apply); case MP::CPM_EMP: return GasCGF(s).thermoProperties(T, P, t, apply); case MP::CPM_STP: return GasSTP(s).thermoProperties(T, P, t, apply); default: ok = false; return t; } }

// the message about the limits is there exactly when the point is outside of them
static void limits(Report& r, const Model& m, const Lim& L, double T, double P, const ThermoPropertiesSubstance& t, const std::string& how, const std::string& lab) {
    bool out = !m.text.empty() && (T < L.tl || (L.tu != 0 && T > L.tu) || P < L.pl || (L.pu != 0 && P > L.pu)); auto v = judged(t); r.states++;
    for (int i = 0; i < 4; ++i) { if (!defined(*v[i])) continue; const auto& msg = v[i]->sta.second; bool said = has(msg, "out of T(");
        if (said != out) { r.violation((out ? "silent:" : "alarm:") + m.name + ":" + how, lab + ", " + how + ": " + propNames[i] + (out ? " is outside of the limits but says '" : " is inside the limits but says '") + msg + "'", lab); continue; }
        if (out) { r.nontrivial++; if (!has(msg, m.text) || !has(msg, range(L.tl, L.tu)) || !has(msg, range(L.pl, L.pu))) r.violation("text:" + m.name, lab + ", " + how + ": " + propNames[i] + " says '" + msg + "' which does not name the model and the limits", lab); } } }

static Report s03() {
    bool TH = mc::options().thorough();
    std::vector<double> Ts = {330, 350 * (1 - 1e-9), 350, 350 * (1 + 1e-9), 400, 500 * (1 - 1e-9), 500, 500 * (1 + 1e-9), 560}, Ps = {5e5, 1e6 * (1 - 1e-9), 1e6, 1e6 * (1 + 1e-9), 1e7, 1e8 * (1 - 1e-9), 1e8, 1e8 * (1 + 1e-9), 2e8}; if (TH) { for (double T : {345., 450., 499., 510., 700., 900.}) Ts.push_back(T); for (double P : {1e5, 9e5, 5e6, 9.9e7, 1.1e8, 5e8}) Ps.push_back(P); }
    std::vector<Lim> lims; for (double a : {0., 350.}) for (double b : {0., 500.}) for (double c : {0., 1e6}) for (double d : {0., 1e8}) lims.push_back({a, b, c, d});
    return mc::parallel(models.size() * lims.size(), [=](size_t n, Report& r) {
        Model m = models[n / lims.size()]; Lim L = lims[n % lims.size()]; m.s.setLowerT(L.tl); m.s.setUpperT(L.tu); m.s.setLowerP(L.pl); m.s.setUpperP(L.pu);
        Database db(mc::options().data + "/mini.json"); db.setSubstance(m.s); ThermoEngine e(db); r.sample(m.name + ", T limits " + range(L.tl, L.tu) + ", P limits " + range(L.pl, L.pu));
        // a reaction with it and a substance that says nothing
        Reaction rx; rx.setSymbol("RX"); rx.setName("RX"); rx.setReactants({{m.s.symbol(), 1}, {"Halite", -1}});
        for (double T : Ts) for (double P0 : Ps) { std::string lab = m.name + ", T limits " + range(L.tl, L.tu) + " K, P limits " + range(L.pl, L.pu) + " Pa, at " + mc::num(T) + " K, " + mc::num(P0) + " Pa"; mc::visiting(lab);
            ThermoPropertiesSubstance a, b, c; ThermoPropertiesReaction q; double P;
            try { P = P0; a = e.thermoPropertiesSubstance(T, P, m.s.symbol()); P = P0; b = e.thermoPropertiesSubstance(T, P, m.s.symbol()); P = P0; c = e.thermoPropertiesSubstance(T, P, m.s); } catch (const std::exception& x) { r.violation("fails:" + m.name, lab + ": " + eng::clean(x.what()), lab); continue; }
            r.transitions += 3; r.traces++; limits(r, m, L, T, P0, a, "by name", lab); limits(r, m, L, T, P0, b, "by name again", lab); limits(r, m, L, T, P0, c, "by record", lab);
            if (m.fluid) for (bool apply : {false, true}) { bool ok; auto d = direct(m.s, T, P0, apply, ok); if (ok) { r.transitions++; limits(r, m, L, T, P0, d, apply ? "model with the pressure correction" : "model", lab); } }
            if (m.hkf) { P = P0; double rho = e.propertiesSolvent(T, P, "H2O@", -1).density.val; for (auto* t : {&a, &b, &c}) { auto v = judged(*t); for (int i = 0; i < 4; ++i) { bool said = has(v[i]->sta.second, "600-1400"); r.states++; if (said != (rho < 600 || rho > 1400)) r.violation("density:" + m.name, lab + ": water of " + mc::num6(rho) + " kg/m3, " + propNames[i] + " says '" + v[i]->sta.second + "'", lab); else if (said) r.nontrivial++; } } }
            // a reaction calculated from the components says what they say
            try { P = P0; q = e.thermoPropertiesReactionFromReactants(T, P, rx); } catch (const std::exception& x) { r.violation("fails:" + m.name, lab + ", reaction: " + eng::clean(x.what()), lab); continue; }
            r.transitions++; bool out = !m.text.empty() && (T < L.tl || (L.tu != 0 && T > L.tu) || P0 < L.pl || (L.pu != 0 && P0 > L.pu)); int i = 0;
            for (auto* x : {&q.reaction_gibbs_energy, &q.reaction_enthalpy, &q.reaction_entropy, &q.reaction_heat_capacity_cp, &q.log_equilibrium_constant, &q.ln_equilibrium_constant}) { ++i; r.states++; if (has(x->sta.second, "out of T(") != out) r.violation(std::string("reaction:") + m.name, lab + ": property " + std::to_string(i) + " of a reaction with it says '" + x->sta.second + "'", lab); else if (out) r.nontrivial++; }
        }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }

// heat capacity equations outside of their temperature intervals, alone and followed by every other step
static Report intervals() {
    std::vector<std::vector<std::vector<double>>> sets = {{}, {{}}, {{300}}, {{273.15, 500}}, {{300, 450}, {450, 700}}, {{300, 400}, {500, 700}}, {{300, 350}, {350, 420}, {450, 700}}};
    std::vector<double> Ts = {280, 299.9, 300, 325, 350, 399.9, 400, 410, 420, 430, 450, 475, 499.9, 500, 500.1, 600, 699.9, 700, 700.1, 800}; if (mc::options().thorough()) for (double t = 275; t < 900; t += 7) Ts.push_back(t);
    std::vector<Model> list; for (auto& m : models) if (m.s.methodGenEOS() == MG::CTPM_CPT && m.name != "akinfiev-diamond") list.push_back(m);
    return mc::parallel(list.size() * sets.size(), [=](size_t n, Report& r) {
        Model m = list[n / sets.size()]; auto iv = sets[n % sets.size()]; auto p = m.s.thermoParameters(); p.temperature_intervals = iv; auto c0 = p.Cp_coeff.at(0); p.Cp_coeff.clear(); for (size_t i = 0; i < std::max<size_t>(1, iv.size()); ++i) p.Cp_coeff.push_back(c0);
        p.phase_transition_prop.clear(); for (size_t i = 1; i < iv.size(); ++i) p.phase_transition_prop.push_back({iv[i][0], 0.1, 50, 0}); m.s.setThermoParameters(p);
        for (int lim = 0; lim < 2; ++lim) { if (lim) m.s.setUpperP(5e6); Database db(mc::options().data + "/mini.json"); db.setSubstance(m.s); ThermoEngine e(db);
        for (int conv = 0; conv < 2; ++conv) { if (conv) { e.conventions().apparent_properties = "BERMAN_BROWN"; }
        for (double T : Ts) { std::string lab = m.name + (conv ? ", Berman-Brown" : "") + ", intervals " + eng::dump(iv) + " at " + mc::num6(T) + " K"; mc::visiting(lab); bool out = false; if (iv.size() && iv[0].size() == 2) { out = true; for (auto& i : iv) if (i[0] <= T && T <= i[1]) out = false; }
            bool outP = lim && !m.text.empty(); std::vector<std::pair<std::string, ThermoPropertiesSubstance>> got; try { for (std::string how : {"by name", "by name again", "by record"}) { double P = 1e7; got.push_back({how, how == "by record" ? e.thermoPropertiesSubstance(T, P, m.s) : e.thermoPropertiesSubstance(T, P, m.s.symbol())}); } } catch (const std::exception& x) { r.violation("fails:" + m.name, lab + ": " + eng::clean(x.what()), lab); continue; }
            r.traces++; for (auto& g : got) { r.transitions++; auto v = judged(g.second); for (int i = 0; i < 4; ++i) { r.states++; const auto& msg = v[i]->sta.second; int said = count(msg, "Outside temperature bounds"), saidP = count(msg, "out of T("); if (out || outP) r.nontrivial++;
                if (said != int(out)) r.violation((out ? "cp-silent:" : "cp-alarm:") + m.name + (conv ? ":converted" : ""), lab + ", " + g.first + ": " + propNames[i] + " says '" + msg + "'", lab);
                if ((saidP > 0) != outP) r.violation((outP ? "silent:" : "alarm:") + m.name + ":with-intervals", lab + ", " + g.first + ": " + propNames[i] + " says '" + msg + "'", lab); } } } } }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }

// reactions calculated from up to four components, each of them fine, outside of its limits, or without data
static Report reactions() {
    int N = mc::options().thorough() ? 5 : 4; std::vector<std::string> codes = {""}; std::vector<std::string> all; for (int l = 0; l < N; ++l) { std::vector<std::string> nx; for (auto& c : codes) for (char k : {'f', 't', 'p', 'u', 'c'}) nx.push_back(c + k); for (auto& c : nx) all.push_back(c); codes = nx; }
    return mc::parallel(all.size(), [=](size_t n, Report& r) {
        auto code = all[n]; Database db; Reaction rx; rx.setSymbol("RX"); rx.setName("RX"); std::map<std::string, double> comps; std::string eq; r.sample("components " + code + " (f fine, t outside the temperature limits, p outside the pressure limits, u without G, H, S and Cp, c outside the heat capacity interval)");
        for (size_t i = 0; i < code.size(); ++i) { auto s = synth::berman(); std::string sym = std::string("K") + char('a' + i) + code[i]; s.setSymbol(sym); s.setName(sym); auto p = s.thermoParameters(); p.temperature_intervals = {{200, code[i] == 'c' ? 350.0 : 2000.0}}; s.setThermoParameters(p); if (code[i] == 't') s.setUpperT(301.0 + i); if (code[i] == 'p') s.setUpperP(2e5 + 1e4 * i);
            if (code[i] == 'u') { ThermoPropertiesSubstance t; t.volume = synth::val(2.2); s = synth::base(sym, "SiO2", SubstanceClass::type::COMPONENT, AggregateState::type::CRYSTAL, t); s.setMethodGenEoS(MG::CTPM_CON); s.setThermoParameters(synth::par()); }
            db.addSubstance(s); comps[sym] = i % 2 ? -1.0 - i : 1.0 + i; }
        rx.setReactants(comps); db.addReaction(rx); ThermoEngine e(db); std::string lab = "components " + code; mc::visiting(lab);
        for (int how = 0; how < 4; ++how) { double P = 1e7; ThermoPropertiesReaction q; try { q = how == 0 ? e.thermoPropertiesReactionFromReactants(400, P, "RX") : how == 1 ? e.thermoPropertiesReactionFromReactants(400, P, rx) : how == 2 ? e.thermoPropertiesReaction(400, P, "RX") : e.thermoPropertiesReaction(400, P, rx); } catch (const std::exception& x) { r.violation("reaction:fails", lab + ": " + eng::clean(x.what()), lab); continue; }
            r.traces++; r.transitions++; int i = 0; const char* nm[] = {"G", "H", "S", "Cp", "logK", "lnK"}; const char* pre[] = {"G0", "H0", "S0", "Cp", "G0", "G0"};
            for (auto* x : {&q.reaction_gibbs_energy, &q.reaction_enthalpy, &q.reaction_entropy, &q.reaction_heat_capacity_cp, &q.log_equilibrium_constant, &q.ln_equilibrium_constant}) { const auto& msg = x->sta.second; auto bad = [&](const std::string& key, const std::string& what) { r.violation("reaction:" + key + ":" + nm[i], lab + ": " + nm[i] + " " + what + ": '" + msg + "'", lab); };
                r.states++; r.nontrivial++; size_t j = 0; for (char k : code) { std::string sym = std::string("K") + char('a' + j) + k;
                    if (k == 't' && !has(msg, range(0, 301.0 + j))) bad("limits", "does not say that " + sym + " is outside of its temperature limits"); if (k == 'p' && !has(msg, range(0, 2e5 + 1e4 * j))) bad("limits", "does not say that " + sym + " is outside of its pressure limits");
                    if (k == 'u' && !has(msg, std::string(pre[i]) + " of component " + sym + " not defined")) bad("undefined", "does not say that " + sym + " has no data"); if (k != 'u' && has(msg, "of component " + sym + " not defined")) bad("undefined", "says that " + sym + " has no data"); ++j; }
                if (count(msg, "out of T(") != int(std::count(code.begin(), code.end(), 't') + std::count(code.begin(), code.end(), 'p'))) bad("limits", "does not count the components outside of their limits"); if (count(msg, "Outside temperature bounds") != int(std::count(code.begin(), code.end(), 'c'))) bad("cp", "does not count the components outside of their heat capacity intervals");
                if ((x->sta.first == Reaktoro_::Status::notdefined) != has(code, "u")) bad("status", "has the wrong status"); ++i; } }
    }, [](const std::string& l) { return l; }); }

int main(int argc, char** argv) { mc::init(argc, argv); build(); Report r = s03(); r.merge(intervals()); r.merge(reactions()); return mc::finish(r); }
