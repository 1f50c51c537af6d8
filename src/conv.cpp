// T09: the conventions in which properties are reported.
#include "phys.hpp"
using namespace phys; using mc::Report;
typedef MethodCorrT_Thrift MT; typedef MethodGenEoS_Thrift MG; typedef MethodCorrP_Thrift MP; typedef SubstanceClass SC; typedef AggregateState AS;

// properties at the triple point (S, G, H, U, A), J/mol: Helgeson and Kirkham 1974, NEA, NEA with IAPWS
struct Triple { const char* name; double c[5]; };
static const Triple triples[] = {{"HKF_HGK_1974", {63.312288, -235517.36, -287721.128, -284039.208, -231856.36}}, {"NEA_HGK", {63.3399024, -235475.1016, -287718.78496, -284185.2296, -231937.90616}}, {"NEA_IAPWS", {63.3348816, -235475.1016, -287720.12384, -284186.56848, -231937.90616}}};

// sum of the entropies of the elements of a formula, from the element records
static std::map<std::string, double> elemS;
static double formulaS(const std::string& f) {
    size_t i = 0;
    auto number = [&]() -> double { size_t j = i; while (j < f.size() && (isdigit(f[j]) || f[j] == '.')) ++j; double v = j == i ? 1 : std::stod(f.substr(i, j - i)); i = j; return v; };
    std::function<double()> group = [&]() -> double { double s = 0;
        while (i < f.size() && f[i] != ')') {
            if (f[i] == '(') { ++i; double g = group(); ++i; s += g * number(); }
            else if (isupper(f[i])) { std::string e(1, f[i++]); while (i < f.size() && islower(f[i])) e += f[i++]; if (i < f.size() && f[i] == '|') i = f.find('|', i + 1) + 1; if (!elemS.count(e)) throw std::runtime_error("element " + e); s += elemS[e] * number(); }
            else if (f[i] == '+' || f[i] == '-') { double q = f[i] == '+' ? 1 : -1; ++i; s += q * number() * elemS["Zz"]; }
            else if (f[i] == '@') ++i; else throw std::runtime_error("formula " + f); }
        return s; };
    return group();
}
struct Setting { std::string app, wat; bool bb() const { return low(app) == "berman_brown"; } bool st() const { return low(wat) == "steam_tables"; } static std::string low(std::string s) { for (auto& c : s) c = tolower(c); return s; } };

static const char* names[8] = {"G", "A", "U", "H", "S", "V", "Cp", "Cv"};
static std::vector<ThermoScalar> fields(const ThermoPropertiesSubstance& t) { return {t.gibbs_energy, t.helmholtz_energy, t.internal_energy, t.enthalpy, t.entropy, t.volume, t.heat_capacity_cp, t.heat_capacity_cv}; }

static Report t09() {
    bool th = mc::options().thorough();
    json full = readJson("mini.json"); for (auto& e : full["elements"]) if (e.contains("entropy")) elemS.insert({e["symbol"].get<std::string>(), e["entropy"]["values"][0].get<double>()});
    std::vector<Substance> synths;
    auto crystal = [](const std::string& n, double Tr) { Substance s = synth::mineral(n, MP::type::CPM_CON); s.setReferenceT(Tr); return s; };
    synths = {synth::cgf(), synth::cgfPolar(), synth::stpCO2(), synth::stpH2O(), synth::an91(), synth::hp98(), synth::bm(), synth::berman(), crystal("Tr-300", 300), crystal("Tr-1000", 1000), crystal("Tr-0", 0)};
    { // reference properties only; a constant general equation; one with no formula to speak of; solvents without an equation of state; vapours of water
        Substance s = synth::base("REF-X", "CaSi2O5", SC::type::COMPONENT, AS::type::CRYSTAL, synth::ref(-1e6, -1.1e6, 50, 60, 3)); s.setThermoParameters(synth::par()); synths.push_back(s);
        s.setSymbol("CON-X"); s.setReferenceT(310); s.setMethodGenEoS(MG::type::CTPM_CON); synths.push_back(s);
        s.setSymbol("CON-aq"); s.setFormula("NaSO4-"); s.setSubstanceClass(SC::type::AQSOLUTE); s.setAggregateState(AS::type::AQUEOUS); synths.push_back(s);
        s.setSymbol("CON-solvent"); s.setFormula("H2O@"); s.setSubstanceClass(SC::type::AQSOLVENT); synths.push_back(s);
        Substance v = synth::base("W-cpt", "H2O@", SC::type::AQSOLVENT, AS::type::AQUEOUS, synth::ref(-237181, -285881, 69.92, 75.36, 1.807)); v.setMethodGenEoS(MG::type::CTPM_CPT); auto p = synth::par(); p.temperature_intervals = {{273.15, 2000}}; p.Cp_coeff = {{75.4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}; v.setThermoParameters(p); synths.push_back(v);
        v = synth::base("W-WPl", "H2O@", SC::type::AQSOLVENT, AS::type::AQUEOUS, synth::ref(-237181, -285881, 69.92, 75.36, 1.807)); v.setMethodGenEoS(MG::type::CTPM_WJNR); v.setMethod_T(MT::type::CTM_WWP); v.setThermoParameters(synth::par()); synths.push_back(v);
        // a solute with nothing but a heat capacity at hand: the rest from the reference
        Substance c = synth::aqueous("CT-only", "SiO2@", MG::type(0), synth::ref(-833411, -887900, 41.3, 50.0, 1.6)); c.setMethod_T(MT::type::CTM_BER); synths.push_back(c);
        c.setSymbol("CP-only"); c.setMethod_T(MT::type(0)); c.setMethod_P(MP::type::CPM_VKE); synths.push_back(c); }
    static std::vector<Database> dbs; static std::vector<std::string> syms, tripleNames;
    for (auto& t : triples) for (int how = 0; how < 2; ++how) { json j = full; if (how) j["conventions"] = {{"water_triple_point_reference", t.name}}; Database d(j.dump()); for (auto& s : synths) d.addSubstance(s); if (!how) d.conventions().water_triple_point_reference = t.name; dbs.push_back(d); }
    { std::string want[2]; for (size_t k = 0; k < dbs.size(); ++k) tripleNames.push_back(dbs[k].conventions().water_triple_point_reference); }
    for (auto& x : dbs[0].mapSubstances()) syms.push_back(x.first);
    std::vector<double> Ts = {273.16, 298.15, 323.15, 473.15, 673.15, 1073.15}, Ps = {0, 1e5, 5e7, 2e8}; if (th) { Ts = {273.16, 280, 298.15, 310, 323.15, 373.15, 473.15, 573.15, 640, 673.15, 773.15, 1073.15, 1473.15}; Ps = {0, 1e4, 1e5, 1e6, 2e7, 5e7, 1e8, 2e8, 5e8}; }
    std::vector<Setting> sets; for (auto a : {"BENSON_HELGESON", "BERMAN_BROWN", "berman_brown", "Berman_Brown", "bERMAN_bROWN", "", "BERMAN", "BERMAN_BROWN ", "BROWN_BERMAN", "STEAM_TABLES"}) for (auto w : {"GEOCHEMICAL", "STEAM_TABLES", "steam_tables", "Steam_Tables", "", "STEAM", "STEAM_TABLES ", "TABLES", "BERMAN_BROWN"}) sets.push_back({a, w});
    return mc::parallel(2 * dbs.size() * syms.size(), [&](size_t item, Report& r) {
        bool fallback = item >= dbs.size() * syms.size(); item %= dbs.size() * syms.size(); // missing properties from the reference record
        size_t dk = item / syms.size(); const Triple& tr = triples[dk / 2]; const Database& db = dbs[dk]; const std::string& sym = syms[item % syms.size()]; Substance sub = db.getSubstance(sym);
        if (item % syms.size() == 0) { r.states++; if (tripleNames[dk] != tr.name) r.violation("data-set-name", std::string("the data set asked for is ") + tr.name + " but " + tripleNames[dk] + " is in force", ""); r.sample("all " + std::to_string(sets.size()) + " pairs of convention names with " + tr.name); }
        bool solvent = sub.substanceClass() == SC::type::AQSOLVENT, proton = sym == "H+", viaReaction = !sub.reactionSymbol().empty() && (sub.thermoCalculationType() == SubstanceThermoCalculationType::type::REACDC || (!sub.methodGenEOS() && !sub.method_T() && (!sub.method_P() || sub.method_P() == MP::type::CPM_CON)));
        std::string kind = fallback ? "fallback" : proton ? "proton" : solvent ? "solvent" : viaReaction ? "by-reaction" : "other";
        double Sel = 0; try { Sel = formulaS(sub.formula()); } catch (const std::exception& x) { r.violation("harness:" + sym, x.what(), sym); return; }
        if (fallback && dk % 2) return; ThermoEngine plain(db); plain.preferences().fallback_to_reference_properties = fallback; std::vector<std::unique_ptr<ThermoEngine>> es; for (auto& s : sets) { auto e = std::make_unique<ThermoEngine>(db); e->conventions().apparent_properties = s.app; e->conventions().water_properties = s.wat; e->preferences().fallback_to_reference_properties = fallback; es.push_back(std::move(e)); }
        ThermoEngine walk(db); walk.preferences().fallback_to_reference_properties = fallback;   // one calculator taken through all settings
        size_t n = 0;
        for (double T : Ts) for (double P : Ps) {
            if (P == 0 && T > 640) continue; if (viaReaction && P == 0 && T > 600) continue;
            if (fallback && T != 298.15 && T != 473.15) continue;
            std::string cond = sym + (fallback ? " (falling back to the reference)" : "") + " at " + mc::num6(T) + " K, " + mc::num6(P / 1e5) + " bar"; mc::visiting(cond);
            ThermoPropertiesSubstance b; double p0 = P; bool fails = false; try { b = plain.thermoPropertiesSubstance(T, p0, sym); } catch (const std::exception&) { fails = true; }
            auto bf = fields(b);
            for (size_t k = 0; k < sets.size(); ++k) for (int how = 0; how < 3; ++how) {
                const Setting& s = sets[k]; bool all = (T == 298.15 && P == 1e5) || (T == 473.15 && P == 0) || th; if (!all && (s.app != "BERMAN_BROWN" && s.app != "BENSON_HELGESON" || s.wat != "STEAM_TABLES" && s.wat != "GEOCHEMICAL")) continue;
                if (how && all && (k + n) % 3) continue; ThermoEngine& e = how == 2 ? walk : *es[k]; if (how == 2) { e.conventions().apparent_properties = s.app; e.conventions().water_properties = s.wat; }
                std::string lab = cond + " with '" + s.app + "' and '" + s.wat + "', " + tr.name + (how == 1 ? " (by object)" : how == 2 ? " (settings changed on the way)" : ""), key = kind + ":" + sym + ":"; r.states++; r.transitions++; r.traces++;
                ThermoPropertiesSubstance t; double p = P; bool f2 = false; std::string why; try { t = how == 1 ? e.thermoPropertiesSubstance(T, p, sub) : e.thermoPropertiesSubstance(T, p, sym); } catch (const std::exception& x) { f2 = true; why = x.what(); }
                if (f2 != fails) { r.violation(key + "fails", lab + (f2 ? ": fails, although it does not in the default convention: " + eng::clean(why) : ": does not fail, although it does in the default convention"), lab); continue; }
                if (fails) continue; r.nontrivial++;
                if (!mc::same(p, p0)) r.violation(key + "pressure", lab + ": pressure " + mc::num(p) + " for " + mc::num(p0), lab);
                auto tf = fields(t);
                double shift[8] = {0, 0, 0, 0, 0, 0, 0, 0};
                if (solvent && s.st() && sub.substanceClass() == SC::type::AQSOLVENT) { shift[0] = -tr.c[1]; shift[1] = -tr.c[4]; shift[2] = -tr.c[3]; shift[3] = -tr.c[2]; shift[4] = -tr.c[0]; }
                else if (!solvent && !proton && s.bb()) shift[0] = -sub.referenceT() * Sel;
                if (viaReaction && (s.bb() || s.st())) {
                    // follows the species of its reaction: the reaction closes in the convention in force
                    Reaction rx = db.getReaction(sub.reactionSymbol()); auto re = rx.reactants(); ThermoPropertiesReaction d; std::map<std::string, std::vector<ThermoScalar>> other;
                    try { double q = P; e.preferences().apply_pressure_correction_to_gas_props = true; d = e.thermoPropertiesReaction(T, q, rx.symbol()); for (auto& x : re) if (x.first != sym) { double q2 = p; other[x.first] = fields(e.thermoPropertiesSubstance(T, q2, x.first)); } e.preferences().apply_pressure_correction_to_gas_props = false; } catch (const std::exception& x) { e.preferences().apply_pressure_correction_to_gas_props = false; r.violation(key + "reaction", lab + ": " + eng::clean(x.what()), lab); continue; }
                    ThermoScalar dr[8] = {d.reaction_gibbs_energy, d.reaction_helmholtz_energy, d.reaction_internal_energy, d.reaction_enthalpy, d.reaction_entropy, d.reaction_volume, d.reaction_heat_capacity_cp, d.reaction_heat_capacity_cv};
                    for (int i = 0; i < 8; ++i) { if (defined(tf[i]) != defined(bf[i])) { r.violation(key + names[i] + ":status", lab + ": " + names[i] + (defined(tf[i]) ? " is" : " is not") + " defined, in the default convention the opposite", lab); continue; } if (!defined(tf[i]) || !defined(dr[i])) continue;
                        bool all = true; LD sum = (LD)tf[i].val * re[sym], mag = fabsl(sum); for (auto& x : other) { all = all && defined(x.second[i]); sum += (LD)x.second[i].val * re[x.first]; mag += fabsl(x.second[i].val * re[x.first]); } if (!all || i == 5 || i == 0 || i == 3) { if (!all) continue; if (i == 5 || i == 3 || i == 0) if (sub.method_P() == MP::type::CPM_CON) continue; }
                        if (!(fabsl(sum - dr[i].val) <= 1e-11L * mag + 1e-9L)) r.violation(key + names[i] + ":closure", lab + ": the reaction sums up to " + mc::num((double)sum) + " in " + names[i] + ", its own value is " + mc::num(dr[i].val), lab); }
                    continue; }
                for (int i = 0; i < 8; ++i) {
                    if (bf[i].sta.first != tf[i].sta.first) { r.violation(key + names[i] + ":status", lab + ": status of " + names[i] + " is " + std::to_string(int(tf[i].sta.first)) + ", in the default convention " + std::to_string(int(bf[i].sta.first)), lab); continue; }
                    if (!defined(bf[i])) continue;
                    double want = bf[i].val + shift[i], tol = 1e-12 * (fabs(bf[i].val) + fabs(shift[i])) + 1e-9;
                    if (!(mc::same(tf[i].val, want) || fabs(tf[i].val - want) <= tol)) r.violation(key + names[i], lab + ": " + names[i] + " is " + mc::num(tf[i].val) + ", expected " + mc::num(want) + " (in the default convention " + mc::num(bf[i].val) + ")", lab);
                    if (!mc::close(tf[i].ddt, bf[i].ddt, 1e-10, 1e-10) || !mc::close(tf[i].ddp, bf[i].ddp, 1e-10, 1e-10) || !mc::close(tf[i].err, bf[i].err, 1e-10, 1e-10)) r.violation(key + names[i] + ":derivatives", lab + ": derivatives or uncertainty of " + names[i] + " differ from those in the default convention", lab); } }
            ++n; }
        // in the steam tables liquid water at the triple point has no entropy and no internal energy
        if (sym == "W-WPl" || sym == "W-HGKr" || sym == "W-HGKg") { ThermoEngine e(db); e.conventions().water_properties = "STEAM_TABLES"; for (double dT : {0.0, 1e-3}) { double P = 611.657 * (1 + 1e-3) + 1e3 * dT, T = 273.16; r.states++; try { auto t = e.thermoPropertiesSubstance(T, P, sym); double h[4] = {t.entropy.val * T, t.internal_energy.val, t.gibbs_energy.val, t.enthalpy.val}; const char* nm[4] = {"T S", "U", "G", "H"}; for (int i = 0; i < 4; ++i) if (!(fabs(h[i]) < 2)) r.violation("triple-point:" + sym + ":" + nm[i], sym + " at the triple point has " + nm[i] + " = " + mc::num(h[i]) + " J/mol in the steam tables, expected 0", ""); } catch (const std::exception& x) { r.violation("triple-point:" + sym + ":fails", eng::clean(x.what()), ""); } } }
    });
}
int main(int argc, char** argv) { mc::init(argc, argv); return mc::finish(t09()); }
