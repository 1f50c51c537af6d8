// R01-R05: reactions.
#include "phys.hpp"
#include <ThermoModelsReaction.h>
using namespace eng; using mc::Report;
using synth::val;
using namespace phys;

// ---------------------------------------------------------------- R01
struct Term { std::string text; double coef; std::string name; };
static Report r01() {
    static std::vector<std::string> names = {"H2O", "(NpO2)2(OH)2+2", "Ca+2", "SiO2@", "CO2(g)", "e-", "OH-", "Fe|3|(OH)2+", "mines:CO2", "Quartz", "H+"};
    static std::vector<std::pair<std::string, double>> coefs = {{"", 1}, {"1", 1}, {"2", 2}, {"0.5", 0.5}, {"10.7", 10.7}, {".25", 0.25}, {"3.", 3}, {"-1", -1}, {"-2.5", -2.5}, {"+2", 2}, {"12", 12}, {"0", 0}, {"-", -1}, {"+", 1}, {"100", 100}, {"0.333333", 0.333333}};
    static std::vector<std::string> gap = {"", " ", "  ", "\t"}, plus = {" + ", "  +  ", "\t+ ", " +\n"}, eq = {" = ", "=", "= ", " =", "  =\t"}, pad = {"", " ", "\n"};
    static std::vector<Term> terms;     // all ways of writing a term
    for (auto& n : names) for (auto& c : coefs) for (auto& g : gap) { if ((c.first.empty() || c.first == "-" || c.first == "+") && !g.empty()) continue; terms.push_back({c.first + g + n, c.second, n}); }
    static std::vector<Term> few;      // the ones that are combined: every name, every coefficient
    for (size_t n = 0; n < names.size(); ++n) for (size_t c = 0; c < coefs.size(); ++c) if (n < 3 || (n + c) % 5 == 0) few.push_back({coefs[c].first + ((n + c) % 2 && !coefs[c].first.empty() && isdigit(coefs[c].first.back()) ? " " : "") + names[n], coefs[c].second, names[n]});
    typedef std::map<std::string, double> Map;
    auto expect = [](const std::vector<const Term*>& l, const std::vector<const Term*>& r) { Map m; for (auto* t : l) m[t->name] -= t->coef; for (auto* t : r) m[t->name] += t->coef; return m; };
    auto wrong = [](const Map& got, const Map& want) -> std::string {
        for (auto& kv : want) { auto it = got.find(kv.first); double g = it == got.end() ? 0 : it->second; if (!mc::close(g, kv.second, 1e-12, 1e-12)) return "coefficient of " + kv.first + " is " + mc::num6(g) + ", expected " + mc::num6(kv.second); }
        for (auto& kv : got) if (!want.count(kv.first)) return "unexpected species '" + kv.first + "' with " + mc::num6(kv.second);
        return ""; };
    size_t half = few.size();
    return mc::parallel(terms.size() + half * 2, [&, expect, wrong](size_t n, Report& r) {
        bool th = mc::options().thorough();
        auto text = [&](const std::vector<const Term*>& a, const std::vector<const Term*>& b, const std::string& e, const std::string& p, const std::string& pd) { std::string s = pd; for (size_t i = 0; i < a.size(); ++i) s += (i ? p : "") + a[i]->text; s += e; for (size_t i = 0; i < b.size(); ++i) s += (i ? p : "") + b[i]->text; return s + pd; };
        auto judge = [&](const std::string& t, const Map& want, const std::string& cls) {
            r.states++; r.transitions++; r.traces++; r.nontrivial++; mc::visiting(t);
            try {
                Reaction x; x.fromEquation(t);
                std::string w = wrong(x.reactants(), want);
                if (!w.empty()) r.violation("equation:" + cls, "equation '" + t + "': " + w, t);
                if (x.equation() != t) r.violation("equation:text", "equation '" + t + "' is reported as '" + x.equation() + "'", t);
                // the same equation in a record
                json j; j["symbol"] = "R"; j["equation"] = t; Reaction y(j.dump()); w = wrong(y.reactants(), want);
                if (!w.empty()) r.violation("record:" + cls, "record with equation '" + t + "': " + w, t);
            } catch (const std::exception& e) { r.violation("equation:" + cls + ":refused", "equation '" + t + "' is refused: " + eng::clean(e.what()), t); } };
        if (n < terms.size()) { // every way of writing one term, on either side of every other kind of equation text
            auto* t = &terms[n]; Term o{"2Zr+4", 2, "Zr+4"};
            if (n % 97 == 0) r.sample("equations with the term '" + t->text + "' alone, on the left and right of another one");
            for (auto& e : eq) for (auto& pd : pad) {
                judge(text({t}, {&o}, e, "", pd), expect({t}, {&o}), "one-term"); judge(text({&o}, {t}, e, "", pd), expect({&o}, {t}), "one-term");
                judge(text({t}, {}, e, "", pd), expect({t}, {}), "one-side"); judge(text({}, {t}, e, "", pd), expect({}, {t}), "one-side");
                judge(text({t}, {t}, e, "", pd), expect({t}, {t}), "both-sides"); }
            for (auto& p : plus) { judge(text({t, t}, {&o}, " = ", p, ""), expect({t, t}, {&o}), "repeated"); judge(text({&o, t, &o}, {t, &o, t}, " = ", p, ""), expect({&o, t, &o}, {t, &o, t}), "repeated"); }
        } else if (n < terms.size() + half) { // all combinations of two terms left, two right over the short list
            auto* a = &few[n - terms.size()];
            size_t k = 0;
            for (auto& b : few) for (auto& c : few) { ++k; if (!th && k % 3) continue;
                std::string cls = a->name == b.name || a->name == c.name || b.name == c.name ? "repeated" : "three-terms";
                judge(text({a, &b}, {&c}, eq[k % eq.size()], plus[k % plus.size()], ""), expect({a, &b}, {&c}), cls);
                judge(text({a}, {&b, &c}, eq[k % eq.size()], plus[k / 3 % plus.size()], ""), expect({a}, {&b, &c}), cls);
                if (th) for (size_t d = k % 7; d < few.size(); d += 7) judge(text({a, &b}, {&c, &few[d]}, " = ", plus[k % plus.size()], ""), expect({a, &b}, {&c, &few[d]}), "four-terms"); }
        } else { // a second equation on the same object
            auto* a = &few[n - terms.size() - half];
            for (auto& b : few) for (auto& c : few) { if (!th && (&b - &few[0] + (&c - &few[0])) % 3) continue; r.states++; r.transitions += 2; r.traces++; r.nontrivial++;
                std::string t1 = text({a}, {&b}, " = ", "", ""), t2 = text({&c}, {a}, " = ", "", ""); mc::visiting(t1 + " then " + t2);
                Reaction x; x.fromEquation(t1); Reaction y(x); x.fromEquation(t2);
                std::string w = wrong(x.reactants(), expect({&c}, {a})); if (!w.empty()) r.violation("second-equation", "'" + t1 + "' then '" + t2 + "': " + w, t2);
                w = wrong(y.reactants(), expect({a}, {&b})); if (!w.empty()) r.violation("copy-of-first", "a copy made before the second equation: " + w, t2); }
        }
    }); }

// ---------------------------------------------------------------- data
static Database* db;
static void load() {
    std::string full = readJson("mini.json").dump(); db = new Database(full);
    for (auto& s : {synth::cgf(), synth::cgfPolar(), synth::stpCO2(), synth::an91(), synth::hp98(), synth::bm(), synth::berman()}) db->addSubstance(s);
}

struct Point { double T, P; };
static std::vector<Point> lattice() { std::vector<Point> p = {{298.15, 1e5}, {323.15, 5e6}, {473.15, 1e8}, {573.15, 2e8}, {298.15, 0}, {453.15, 0}};
    if (mc::options().thorough()) for (double T : {350., 423.15, 523.15, 623.15}) for (double P : {3e7, 1.5e8, 4e8}) p.push_back({T, P}); return p; }
static bool aqueous(const std::string& s) { auto c = db->getSubstance(s).substanceClass(); return c == SubstanceClass::type::AQSOLUTE || c == SubstanceClass::type::AQSOLVENT; }

// ---------------------------------------------------------------- R02
static Report r02() {
    static std::vector<std::string> species = {"Quartz", "Gibbsite", "Pd-Oxn", "CH4", "CO2(g)", "CO-PRSV", "CO-PR78", "CO-SRK", "mines:CO2", "CGF-Ar", "STP-CO2", "H2O@", "Na+", "Na+g", "CH4@", "H+", "ZrF6-2", "CoHS+", "AN91-X", "HP98-X", "BM-X", "BERM-X"};
    static std::vector<double> coefs = {-1, 1, 2, -0.5, 3.25};
    struct Val { std::map<std::string, std::pair<double, bool>> v; bool ok; };
    auto one = [](const ThermoEngine& e, const std::string& s, double T, double P) { Val v; try { auto t = e.thermoPropertiesSubstance(T, P, s); v.ok = true; for (auto& p : props(t)) v.v[p.first] = {p.second->val, defined(*p.second)}; } catch (...) { v.ok = false; } return v; };
    auto pts = lattice(); size_t N = species.size();
    return mc::parallel(N * pts.size(), [&, one, pts](size_t n, Report& r) {
        size_t a = n / pts.size(); auto pt = pts[n % pts.size()]; bool th = mc::options().thorough();
        std::map<std::pair<std::string, double>, Val> table;    // components alone, corrected
        auto component = [&](const std::string& s, double P) -> Val& { auto k = std::make_pair(s, P); auto it = table.find(k); if (it != table.end()) return it->second;
            ThermoEngine e(*db); e.preferences().apply_pressure_correction_to_gas_props = true; return table[k] = one(e, s, pt.T, P); };
        double Psat = 0; if (pt.P == 0) { ThermoEngine e(*db); double P = 0; e.propertiesSolvent(pt.T, P, "H2O@", 0); Psat = P; }
        ThermoEngine e(*db);
        auto judge = [&](const std::vector<std::pair<std::string, double>>& sp, const std::string& way) {
            std::string eqn; std::map<std::string, double> m; for (auto& s : sp) m[s.first] += s.second;
            bool left = false; for (int side : {-1, 1}) { bool first = true; for (auto& s : sp) if ((s.second < 0) == (side < 0)) { eqn += (first ? "" : " + ") + std::string(std::fabs(s.second) == 1 ? "" : mc::num6(std::fabs(s.second)) + " ") + s.first; first = false; } if (side < 0) eqn += " = "; }
            bool water = false; for (auto& s : m) water |= aqueous(s.first);
            double P = pt.P == 0 && water ? Psat : pt.P; bool bad = false;
            std::string lab = way + " " + eqn + " at " + mc::num6(pt.T) + " K, " + mc::num6(pt.P) + " Pa"; mc::visiting(lab); r.states++; r.transitions++; r.traces++;
            std::map<std::string, LD> want, size; std::map<std::string, bool> def;
            for (auto& s : m) { auto& c = component(s.first, P); if (!c.ok) { bad = true; continue; } for (auto& p : c.v) { want[p.first] += (LD)p.second.first * s.second; size[p.first] += fabsl((LD)p.second.first * s.second); if (!def.count(p.first)) def[p.first] = true; if (!p.second.second) def[p.first] = false; } }
            ThermoPropertiesReaction t; double Pq = pt.P; std::string err;
            try { Reaction o; o.fromEquation(eqn);
                if (way == "equation") t = e.thermoPropertiesReaction(pt.T, Pq, eqn); else if (way == "object") t = e.thermoPropertiesReaction(pt.T, Pq, o); else if (way == "components") t = e.thermoPropertiesReactionFromReactants(pt.T, Pq, o);
                else { Database d(*db); o.setSymbol("RX"); d.addReaction(o); ThermoEngine x(d); t = way == "record" ? x.thermoPropertiesReaction(pt.T, Pq, "RX") : x.thermoPropertiesReactionFromReactants(pt.T, Pq, "RX"); }
            } catch (const std::exception& x) { err = clean(x.what()); }
            if (bad || !err.empty()) { if (bad != !err.empty()) r.violation("outcome", lab + (bad ? ": a result although a component fails" : ": fails although its components do not: " + err), lab); return; }
            r.nontrivial++;
            want["lnK"] = -want["G"] / (modelR * pt.T); size["lnK"] = size["G"] / (modelR * pt.T); want["logK"] = want["lnK"] / LN10; size["logK"] = size["lnK"]; def["lnK"] = def["logK"] = def["G"];
            for (auto& p : props(t)) {
                if (!mc::close(p.second->val, (double)want[p.first], 0, (p.first == "logK" ? 1e-8 : 1e-11) * (double)size[p.first] + 1e-15)) r.violation("sum:" + p.first, lab + ": " + p.first + " is " + mc::num(p.second->val) + ", the sum over the components is " + mc::num((double)want[p.first]), lab);
                if (defined(*p.second) && !def[p.first] && p.first != "lnK" && p.first != "logK") r.violation("status:" + p.first, lab + ": " + p.first + " is reported as defined although one of the components is not", lab); }
        };
        if (n % 23 == 0) r.sample("all reactions of " + species[a] + " with up to two other species at " + mc::num6(pt.T) + " K, " + mc::num6(pt.P) + " Pa");
        for (const char* way : {"equation", "object", "components", "record", "record from components"}) for (double c : coefs) judge({{species[a], c}}, way);
        size_t k = 0;
        for (size_t b = 0; b < N; ++b) if (b != a) for (double ca : coefs) for (double cb : coefs) { ++k; judge({{species[a], ca}, {species[b], cb}}, k % 3 == 0 ? "object" : k % 3 == 1 ? "components" : "equation"); }
        for (size_t b = a + 1; b < N; ++b) for (size_t c = b + 1; c < N; ++c) { ++k; if (!th && k % 2) continue; judge({{species[a], -1}, {species[b], 2}, {species[c], k % 3 ? 1.5 : -1}}, k % 4 < 2 ? "equation" : "object");
            if (th) for (double ca : coefs) for (double cb : coefs) judge({{species[a], ca}, {species[b], cb}, {species[c], coefs[k % 5]}}, "object"); }
    }); }

// ---------------------------------------------------------------- R03, R05
// A record over the six reference values and the coefficients of every model
struct Rec { std::string name; MethodGenEoS_Thrift::type g{}; MethodCorrT_Thrift::type t{}; MethodCorrP_Thrift::type p{}; unsigned has = 63; double logK, G, H, S, Cp, V, Tr = 298.15, Pr = 1e5; std::vector<double> A, C, FM, DM, RB, VC; std::string eq = "Quartz = SiO2@";
    Reaction make() const { Reaction r; r.setSymbol("X"); r.setName("X"); r.fromEquation(eq); r.setReferenceT(Tr); r.setReferenceP(Pr); if (int(g)) r.setMethodGenEoS(g); if (int(t)) r.setMethod_T(t); if (int(p)) r.setMethod_P(p);
        ThermoPropertiesReaction q; if (has & 1) q.log_equilibrium_constant = val(logK); if (has & 2) q.reaction_gibbs_energy = val(G); if (has & 4) q.reaction_enthalpy = val(H); if (has & 8) q.reaction_entropy = val(S); if (has & 16) q.reaction_heat_capacity_cp = val(Cp); if (has & 32) q.reaction_volume = val(V);
        r.setThermoReferenceProperties(q); ThermoParametersReaction P; P.reaction_logK_fT_coeff = A; P.reaction_Cp_fT_coeff = C; P.reaction_FM_coeff = FM; P.reaction_DM10_coeff = DM; P.reaction_RB_coeff = RB; P.reaction_V_fT_coeff = VC; r.setThermoParameters(P); return r; } };
static Rec consistent(double H, double S, double Cp, double V, double Tr = 298.15, double Pr = 1e5) { Rec r; r.H = H; r.S = S; r.Cp = Cp; r.V = V; r.Tr = Tr; r.Pr = Pr; r.G = H - Tr * S; r.logK = -r.G / (modelR * Tr * (double)LN10); return r; }
typedef MethodCorrT_Thrift MT; typedef MethodCorrP_Thrift MP; typedef MethodGenEoS_Thrift MG;
static const std::vector<std::pair<std::string, MT::type>> TM = {{"", MT::type(0)}, {"logKfT", MT::CTM_LGK}, {"logKfTx", MT::CTM_LGX}, {"1-term-logK", MT::CTM_EK0}, {"1-term-G", MT::CTM_EK1}, {"2-term", MT::CTM_EK2}, {"3-term", MT::CTM_EK3}, {"dolejs-manning", MT::CTM_DMD}, {"marshall-franck", MT::CTM_DKR}, {"ryzhenko", MT::CTM_MRB}};
static const std::vector<std::pair<std::string, MG::type>> GM = {{"", MG::type(0)}, {"logk_fpt", MG::CTPM_REA}, {"cp_ft", MG::CTPM_CPT}};
static const std::vector<std::pair<std::string, MP::type>> PMth = {{"", MP::type(0)}, {"constant-V", MP::CPM_CON}, {"nul-V", MP::CPM_NUL}};

static Report r03() {
    auto pts = lattice(); size_t n = GM.size() * TM.size() * PMth.size();
    static std::vector<std::array<double, 4>> refs = {{21100, 6.4, 5, -0.6}, {-30000, 0, 0, 0}, {0, -12.5, 0, 1.5}, {0, 0, 0, 0}, {-1200, 80, -150, 3.2}, {5000, 0, 40, 0}};
    static std::vector<std::vector<double>> As = {{-3.7, 0.001, -200, 0.5, 1e4, 1e-7, -3}, {1}, {0, 0.002}, {0, 0, -1500}, {2, 0, 0, -1.25}, {0, 0, 0, 0, 1e5}, {0, 0, 0, 0, 0, 1e-6}, {0, 0, 0, 0, 0, 0, 20}, {-3.7, 0, 100, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {}};
    static std::vector<std::vector<double>> Cs = {{}, {12, 0.01, -1e4, 20, 1e-5}};
    static std::vector<std::vector<double>> Fs = {{-4.0, -1000, 10000, 500, 12.0, 1000, 100}, {-4, 0, 0, 0, 0, 0, 0}, {0, -1000, 0, 0, 0, 0, 0}, {0, 0, 1e5, 0, 0, 0, 0}, {0, 0, 0, 1e7, 0, 0, 0}, {0, 0, 0, 0, 12, 0, 0}, {0, 0, 0, 0, 0, 1500, 0}, {0, 0, 0, 0, 0, 0, 2e5}};
    static std::vector<std::vector<double>> Ds = {{23600, -52.9, 7.93, -0.04, 35.238}, {23600, 0, 0, 0, 0}, {0, -50, 0, 0, 0}, {0, 0, 8, 0, 0}, {0, 0, 0, -0.04, 0}, {0, 0, 0, 0, 35}};
    static std::vector<std::vector<double>> Rs = {{1.0, 500, 0}, {2.5, 0, 0}, {0, 0, 250}, {-1, 0.7, 100}};
    return mc::parallel(n * pts.size(), [&, pts](size_t i, Report& r) {
        auto pt = pts[i % pts.size()]; i /= pts.size(); auto& g = GM[i % GM.size()]; i /= GM.size(); auto& t = TM[i % TM.size()]; i /= TM.size(); auto& p = PMth[i]; bool th = mc::options().thorough();
        if (g.first.empty() && t.first.empty()) return;   // nothing but a volume: no equilibrium constant is defined
        std::string how = g.first + "/" + t.first + "/" + p.first; ThermoEngine e(*db);
        if (pt.T == 298.15 && pt.P == 1e5) r.sample("records of kind " + how + ": all subsets of the six reference values, coefficient vectors one by one");
        auto judge = [&](Rec x, const std::string& what) {
            x.g = g.second; x.t = t.second; x.p = p.second; std::string lab = how + " " + what + " with values " + std::to_string(x.has) + " at " + mc::num6(pt.T) + " K, " + mc::num6(pt.P) + " Pa"; mc::visiting(lab);
            r.states++; r.transitions++; r.traces++; ThermoPropertiesReaction q; double P = pt.P; try { q = e.thermoPropertiesReaction(pt.T, P, x.make()); } catch (const std::exception&) { return; }
            auto &ln = q.ln_equilibrium_constant, &lg = q.log_equilibrium_constant, &G = q.reaction_gibbs_energy, &H = q.reaction_enthalpy, &S = q.reaction_entropy;
            if (defined(ln) != defined(lg) && t.first != "") r.violation("one-K:" + how, lab + ": of ln K and log K one is defined and the other is not", lab);
            if (defined(ln) && defined(lg)) { r.nontrivial++; if (!mc::close(ln.val, (double)(lg.val * LN10), 1e-8, 1e-12)) r.violation("lnK-logK:" + how, lab + ": ln K is " + mc::num(ln.val) + ", log K times ln 10 is " + mc::num((double)(lg.val * LN10)), lab); }
            if (defined(lg) && defined(G)) { double w = -modelR * pt.T * (double)LN10 * lg.val; if (!mc::close(G.val, w, 1e-7, 1e-5)) r.violation("G-logK:" + how, lab + ": G is " + mc::num(G.val) + ", -RT ln K is " + mc::num(w), lab); }
            if (defined(H) && defined(S) && defined(G)) { double w = H.val - pt.T * S.val; if (!mc::close(G.val, w, 0, 1e-10 * (std::fabs(H.val) + pt.T * std::fabs(S.val)) + 1e-6)) r.violation("G-H-TS:" + how, lab + ": G is " + mc::num(G.val) + ", H - TS is " + mc::num(w), lab); }
            if (defined(H) && defined(S) && defined(q.reaction_volume) && defined(q.reaction_internal_energy)) { double U = H.val - P / 1e5 * q.reaction_volume.val; if (!mc::close(q.reaction_internal_energy.val, U, 1e-10, 1e-6)) r.violation("U:" + how, lab + ": U is " + mc::num(q.reaction_internal_energy.val) + ", H - PV is " + mc::num(U), lab);
                if (defined(q.reaction_helmholtz_energy)) { double A = U - pt.T * S.val; if (!mc::close(q.reaction_helmholtz_energy.val, A, 1e-10, 1e-6)) r.violation("A:" + how, lab + ": A is " + mc::num(q.reaction_helmholtz_energy.val) + ", U - TS is " + mc::num(A), lab); } }
        };
        bool logk = t.first.find("logKfT") == 0 || g.first == "logk_fpt" || g.first == "cp_ft";
        if (t.first == "marshall-franck") for (auto& v : Fs) { Rec x = consistent(1000, 2, 3, -0.6); x.FM = v; judge(x, "coefficients " + eng::dump(v)); if (!logk) for (unsigned h = 0; h < 64; ++h) { x.has = h; judge(x, "coefficients " + eng::dump(v)); } }
        if (t.first == "dolejs-manning") for (auto& v : Ds) { Rec x = consistent(1000, 2, 3, -0.6); x.DM = v; judge(x, "coefficients " + eng::dump(v)); }
        if (t.first == "ryzhenko") for (auto& v : Rs) { Rec x = consistent(1000, 2, 3, -0.6); x.RB = v; judge(x, "coefficients " + eng::dump(v)); }
        for (auto& f : refs) for (auto& A : As) { if (!logk && &A != &As[0]) break; for (auto& C : Cs) { if (!logk && &C != &Cs[0]) break;
            for (unsigned h = 0; h < 64; ++h) { if (logk && !A.empty() && h != 63 && h % 9 && !th) continue;
                for (double Tr : {298.15, 323.15}) for (double Pr : {1e5, 5e6}) { if ((Tr != 298.15 || Pr != 1e5) && h != 63 && !th) continue;
                    Rec x = consistent(f[0], f[1], f[2], f[3], Tr, Pr); x.has = h; x.A = A; x.C = C; x.FM = Fs[0]; x.DM = Ds[0]; x.RB = Rs[0]; judge(x, "A" + eng::dump(A) + "C" + eng::dump(C) + " H,S,Cp,V " + mc::num6(f[0]) + "," + mc::num6(f[1]) + "," + mc::num6(f[2]) + "," + mc::num6(f[3])); } } } }
    }, [](const std::string& l) { return l.substr(0, l.find(' ')); }); }

static Report r05() {
    bool TH = mc::options().thorough();
    struct Case { std::string name; Rec rec; std::function<LD(LD, LD)> G; bool defK = true; const Water* w = nullptr; };
    static std::vector<Case> cases; const LD RR = modelR;
    static std::vector<Water> waters = {{997.05L, 2.6e-4L, 9e-6L, 4.5e-10L}, {712.0L, 3.4e-3L, 2e-5L, 3.1e-9L}, {1000.0L, 0, 0, 0}};
    auto vol = [](const Rec& r, LD P) -> LD { return int(r.p) ? (LD)r.V * (P - r.Pr) / 1e5L : 0; };
    struct RefV { double H, S, Cp, V; };
    std::vector<RefV> refs = {{21100, 6.4, 5, -0.6}, {-30000, 10, 0, 0}, {0, -12.5, 0, 1.5}, {0, 0, 0, 0}, {-1200, 80, -150, 3.2}, {5000, 0, 40, 0}, {0, 3, 60, 0.5}, {100, 0, 0, 2}};
    for (auto& f : refs) for (double Tr : {298.15, 323.15, 500.0}) for (double Pr : {1e5, 5e6}) for (auto& p : PMth) {
        if (!TH && Pr != 1e5 && p.first != "constant-V") continue;
        Rec b = consistent(f.H, f.S, f.Cp, f.V, Tr, Pr); b.p = p.second; std::string lab = " (H " + mc::num6(f.H) + ", S " + mc::num6(f.S) + ", Cp " + mc::num6(f.Cp) + ", V " + mc::num6(f.V) + ", Tr " + mc::num6(Tr) + ", Pr " + mc::num6(Pr) + ", " + p.first + ")";
        auto add = [&](const std::string& n, MT::type t, MG::type g, Rec r, const std::function<LD(LD)>& G) { r.t = t; r.g = g; r.name = n; cases.push_back({n + (p.first.empty() ? "" : "+" + p.first), r, [=](LD T, LD P) { return G(T) + vol(r, P); }}); };
        add("1-term-logK", MT::CTM_EK0, MG::type(0), b, [=](LD T) { return -RR * T * LN10 * (LD)b.logK; });
        add("1-term-G", MT::CTM_EK1, MG::type(0), b, [=](LD T) { return (LD)b.G; });
        add("2-term", MT::CTM_EK2, MG::type(0), b, [=](LD T) { return (LD)b.H - T * b.S; });
        auto three = [=](LD T) -> LD { return b.H + b.Cp * (T - Tr) - T * (b.S + b.Cp * logl(T / Tr)); };
        add("3-term", MT::CTM_EK3, MG::type(0), b, three);
        { Rec r = b; r.has = 63 & ~4; add("3-term-without-H", MT::CTM_EK3, MG::type(0), r, three); r.has = 63 & ~8; add("3-term-without-S", MT::CTM_EK3, MG::type(0), r, three); r.has = 63 & ~1; add("3-term-without-logK", MT::CTM_EK3, MG::type(0), r, three); r.has = 63 & ~2; add("3-term-without-G", MT::CTM_EK3, MG::type(0), r, three); r.has = 63 & ~3; add("3-term-without-G-logK", MT::CTM_EK3, MG::type(0), r, three);
          auto two = [=](LD T) -> LD { return b.H - T * b.S; }; r.has = 63 & ~16; add("3-term-without-Cp", MT::CTM_EK3, MG::type(0), r, two); r.has = 63 & ~20; add("3-term-without-Cp-H", MT::CTM_EK3, MG::type(0), r, two); r.has = 63 & ~24; add("3-term-without-Cp-S", MT::CTM_EK3, MG::type(0), r, two);
          r.has = 63 & ~28; add("3-term-with-G-alone", MT::CTM_EK3, MG::type(0), r, [=](LD T) { return -RR * T * LN10 * (LD)b.logK; }); r.has = 63 & ~30; add("3-term-with-logK-alone", MT::CTM_EK3, MG::type(0), r, [=](LD T) { return -RR * T * LN10 * (LD)b.logK; });
          if (f.H == 0) { r.has = 63 & ~26; add("3-term-with-H-zero", MT::CTM_EK3, MG::type(0), r, [=](LD T) { return -RR * T * LN10 * (LD)b.logK; }); }
          r.has = 63 & ~4; add("2-term-without-H", MT::CTM_EK2, MG::type(0), r, two); r.has = 63 & ~8; add("2-term-without-S", MT::CTM_EK2, MG::type(0), r, two); r.has = 63 & ~3; add("2-term-without-G-logK", MT::CTM_EK2, MG::type(0), r, two); }
        // logK(T), every coefficient alone, in pairs, all; every length
        static const double av[7] = {-3.7, 0.0012, -210, 0.55, 1.3e4, 1.2e-7, -3.5};
        std::vector<std::vector<double>> As; for (int i = 0; i < 7; ++i) { std::vector<double> a(7, 0.0); a[i] = av[i]; As.push_back(a); for (int j = i + 1; j < 7; ++j) { auto c = a; c[j] = -1.5 * av[j]; As.push_back(c); } std::vector<double> s(av, av + i + 1); As.push_back(s); }
        { std::vector<double> l(av, av + 7); l.resize(12, 0.0); As.push_back(l); }
        bool first = Tr == 298.15 && f.H == 21100;
        for (auto& A : As) { if (!first && !TH && &A != &As.back() && A.size() != 3) continue; Rec r = b; r.A = A; auto G = [=](LD T) -> LD { auto a = A; a.resize(7, 0.0); LD k = a[0] + a[1] * T + a[2] / T + a[3] * logl(T) + a[4] / (T * T) + a[5] * T * T + a[6] / sqrtl(T); return -RR * T * LN10 * k; };
            add("logKfT", MT::CTM_LGK, MG::type(0), r, G); add("logk_fpt", MT::type(0), MG::CTPM_REA, r, G); add("logk_fpt-over-3-term", MT::CTM_EK3, MG::CTPM_REA, r, G); add("logKfTx", MT::CTM_LGX, MG::type(0), r, G);
            r.has = 33; add("logKfT-without-H-S", MT::CTM_LGK, MG::type(0), r, G); }
        // heat capacity function
        static const double cv[5] = {12, 0.015, -1.1e5, 25, 1.3e-5};
        std::vector<std::vector<double>> Cs; for (int i = 0; i < 5; ++i) { std::vector<double> a(5, 0.0); a[i] = cv[i]; Cs.push_back(a); for (int j = i + 1; j < 5; ++j) { auto c = a; c[j] = -1.5 * cv[j]; Cs.push_back(c); } std::vector<double> s(cv, cv + i + 1); Cs.push_back(s); }
        { std::vector<double> l(cv, cv + 5); l.resize(12, 0.0); Cs.push_back(l); }
        for (auto& C : Cs) { if (!first && !TH && &C != &Cs.back() && C.size() != 2) continue; Rec r = b; r.C = C; auto G = [=](LD T) -> LD { auto c = C; c.resize(5, 0.0);
                auto ih = [&](LD x) -> LD { return c[0] * x + c[1] * x * x / 2 - c[2] / x + 2 * c[3] * sqrtl(x) + c[4] * x * x * x / 3; }; auto is = [&](LD x) -> LD { return c[0] * logl(x) + c[1] * x - c[2] / (2 * x * x) - 2 * c[3] / sqrtl(x) + c[4] * x * x / 2; };
                return b.H + ih(T) - ih(Tr) - T * (b.S + is(T) - is(Tr)); };
            add("Cp-function", MT::CTM_LGX, MG::type(0), r, G); add("Cp-function-LGK", MT::CTM_LGK, MG::type(0), r, G); add("dr_heat_capacity_ft", MT::type(0), MG::CTPM_CPT, r, G); add("dr_heat_capacity_ft-with-logk_fpt", MT::CTM_LGK, MG::CTPM_REA, r, G);
            // both functions, consistent with one another
            Rec q = r; auto c = C; c.resize(5, 0.0); q.A = {0, c[1] / 2, 0, c[0], c[2] / 2, c[4] / 6, -4 * c[3]}; for (auto& x : q.A) x /= (double)(RR * LN10);
            LD hs = 0, ss = 0; { LD T = Tr; ss = b.S - c[0] * (1 + logl(T)) - c[1] * T + c[2] / (2 * T * T) + 2 * c[3] / sqrtl(T) - c[4] * T * T / 2; hs = -(b.H - c[0] * T - c[1] * T * T / 2 + c[2] / T - 2 * c[3] * sqrtl(T) - c[4] * T * T * T / 3); }
            q.A[0] = (double)(ss / (RR * LN10)); q.A[2] = (double)(hs / (RR * LN10)); add("logK-and-Cp-functions", MT::CTM_LGK, MG::CTPM_REA, q, G); }
    }
    // density models, on every water
    for (auto& w : waters) {
        static const double fv[7] = {-4, -1100, 1.2e4, 2e6, 12, 1050, 2e5}; std::vector<std::vector<double>> F; for (int i = 0; i < 7; ++i) { std::vector<double> a(7, 0.0); a[i] = fv[i]; F.push_back(a); for (int j = i + 1; j < 7; ++j) { auto c = a; c[j] = -0.7 * fv[j]; F.push_back(c); } } F.push_back({fv, fv + 7});
        for (auto& a : F) { Rec r = consistent(21100, 6.4, 5, -0.6); r.FM = a; r.t = MT::CTM_DKR; cases.push_back({"marshall-franck", r, [=](LD T, LD P) -> LD { LD l = log10l(w.rho(T, P) / 1000); return -RR * T * LN10 * (a[0] + a[1] / T + a[2] / (T * T) + a[3] / (T * T * T) + (a[4] + a[5] / T + a[6] / (T * T)) * l); }, true, &w}); }
        static const double dv[5] = {23600, -52.9, 7.93, -0.04, 35.2}; std::vector<std::vector<double>> D; for (int i = 0; i < 5; ++i) { std::vector<double> a(5, 0.0); a[i] = dv[i]; D.push_back(a); for (int j = i + 1; j < 5; ++j) { auto c = a; c[j] = -0.7 * dv[j]; D.push_back(c); } } D.push_back({dv, dv + 5});
        for (auto& a : D) { Rec r = consistent(21100, 6.4, 5, -0.6); r.DM = a; r.t = MT::CTM_DMD; cases.push_back({"dolejs-manning", r, [=](LD T, LD P) -> LD { return a[0] + a[1] * T + a[2] * T * logl(T) + a[3] * T * T + a[4] * T * logl(w.rho(T, P) / 1000); }, true, &w}); }
        for (auto& a : std::vector<std::vector<double>>{{1, 0, 0}, {0, 1.3, 0}, {0, 0, 300}, {1, 1.3, 0}, {2, 0, -250}, {0, 1.3, 300}, {-3, 0.8, 410}}) for (double Tr : {298.15, 323.15}) { Rec r = consistent(21100, 6.4, 5, -0.6, Tr, 1e5); r.RB = a; r.t = MT::CTM_MRB;
            auto kw = [](LD T, LD l) -> LD { return 4.098L + 3245.2L / T - 2.2362e5L / (T * T) + 3.984e7L / (T * T * T) - (13.957L - 1262.3L / T + 8.5641e5L / (T * T)) * l; }; LD kw0 = kw(298.15L, log10l(0.997061L));
            cases.push_back({"ryzhenko", r, [=](LD T, LD P) -> LD { LD pk = a[0] * (298.15L / T) + (a[1] + a[2] / T) * (kw(T, log10l(w.rho(T, P) / 1000)) - kw0 * 298.15L / T) / 1.0107L; return RR * T * LN10 * pk; }, true, &w}); }
    }
    // ways to describe a reaction, as records
    struct Unimpl { std::string name; Rec r; }; static std::vector<Unimpl> un;
    { Rec r = consistent(21100, 6.4, 5, -0.6); r.A = {-3.7, 0, 0, 0, 0, 0, 0}; Rec a = r; a.t = MT::CTM_EK3; a.p = MP::CPM_VKE; a.VC = {1e-4, 0, 0, 1e-6, 0}; un.push_back({"dr_volume_fpt", a}); a.t = MT::CTM_IKZ; a.p = MP::type(0); un.push_back({"logk_lagrange_interp", a}); a.t = MT::type(0); a.g = MG::CTPM_SOR; un.push_back({"adsor_ion_exchange", a}); a.g = MG::CTPM_ISO; un.push_back({"iso_compounds_grichuk88", a}); }
    static std::vector<double> Ts = {298.15, 310, 373.15, 523.15, 700}, Ps = {1e5, 1e7, 2e8};
    if (TH) { Ts = {273.15, 298.15, 310, 323.15, 373.15, 450, 500, 523.15, 620, 700, 1000}; Ps = {1e5, 1e6, 1e7, 8e7, 2e8, 5e8}; }
    return mc::parallel(cases.size() + 1, [&](size_t n, Report& r) {
        if (n == cases.size()) { for (auto& u : un) { ThermoEngine e(*db); double P = 2e7; auto q = e.thermoPropertiesReaction(350, P, u.r.make()); r.states++; r.transitions++; if (!defined(q.log_equilibrium_constant)) r.violation("undefined:" + u.name, "a reaction described by the method " + u.name + " has no equilibrium constant: the result is 0 and not defined", u.name); } return; }
        auto& c = cases[n]; if (n % 300 == 0) r.sample(c.name + " over " + std::to_string(Ts.size()) + " temperatures and " + std::to_string(Ps.size()) + " pressures");
        ThermoEngine e(*db); Reaction x = c.rec.make();
        for (double T : Ts) for (double P : Ps) {
            if (!c.w && !int(c.rec.p) && P != 1e5 && P != 2e8) continue;
            std::string lab = c.name + " T " + mc::num6(T) + " P " + mc::num6(P) + " H,S,Cp,V " + mc::num6(c.rec.H) + "," + mc::num6(c.rec.S) + "," + mc::num6(c.rec.Cp) + "," + mc::num6(c.rec.V) + " Tr " + mc::num6(c.rec.Tr) + " Pr " + mc::num6(c.rec.Pr) + " A" + eng::dump(c.rec.A) + " C" + eng::dump(c.rec.C) + " FM" + eng::dump(c.rec.FM) + " DM" + eng::dump(c.rec.DM) + " RB" + eng::dump(c.rec.RB); mc::visiting(lab);
            Out w = derive(c.G, T, P); r.states++; r.transitions++; r.traces++; r.nontrivial++;
            ThermoPropertiesReaction q; std::string err; double Pq = P;
            try { if (!c.w) q = e.thermoPropertiesReaction(T, Pq, x); else { auto ps = c.w->at(T, P); q = c.name == "marshall-franck" ? ReactionFrantzMarshall(x).thermoProperties(T, P, ps) : c.name == "ryzhenko" ? ReactionRyzhenkoBryzgalin(x).thermoProperties(T, P, ps) : ReactionDolejsManning10(x).thermoProperties(T, P, ps); } }
            catch (const std::exception& ex) { err = clean(ex.what()); }
            if (!err.empty()) { r.violation(c.name + ":refused", lab + ": " + err, lab); continue; }
            LD sc = fabsl(w.H) + T * fabsl(w.S) + fabsl(w.G) + T * fabsl(w.Cp) + 100;
            if (!c.w && !int(c.rec.p)) w.V = c.rec.V;   // without a pressure model the volume is the one in the record
            auto chk = [&](const char* k, const ThermoScalar& s, LD want, LD tol) { if (!defined(s)) { r.violation(c.name + ":" + k + ":undefined", lab + ": " + k + " is not defined, expected " + mc::num((double)want), lab); return; }
                if (!(fabsl(s.val - want) <= tol)) r.violation(c.name + ":" + k, lab + ": " + k + " is " + mc::num(s.val) + ", expected " + mc::num((double)want), lab); };
            chk("logK", q.log_equilibrium_constant, w.logK, 1e-8L * (1 + sc / (RR * T))); chk("lnK", q.ln_equilibrium_constant, w.logK * LN10, 1e-8L * (1 + sc / (RR * T)));
            chk("G", q.reaction_gibbs_energy, w.G, 1e-10L * sc); chk("H", q.reaction_enthalpy, w.H, 2e-8L * sc); chk("S", q.reaction_entropy, w.S, 2e-8L * sc / T); chk("Cp", q.reaction_heat_capacity_cp, w.Cp, 1e-6L * sc / T); chk("V", q.reaction_volume, w.V, 1e-7L * (fabsl(w.V) + 1));
            LD U = w.H - P / 1e5L * w.V; chk("U", q.reaction_internal_energy, U, 2e-8L * sc + 1e-7L * (fabsl(P / 1e5L * w.V) + P / 1e5L * 1)); chk("A", q.reaction_helmholtz_energy, U - T * w.S, 2e-8L * sc + 1e-7L * (fabsl(P / 1e5L * w.V) + P / 1e5L));
        }
        // the coefficients the record is converted to are those of the same function of temperature
        if (!c.w && !int(c.rec.p) && !int(c.rec.g) && c.rec.has == 63 && c.rec.C.empty()) { auto t = c.rec.t; bool flat = c.rec.H == 0 && c.rec.S == 0, none = c.rec.S == 0 && c.rec.Cp == 0;
            if (t == MT::CTM_EK2 || t == MT::CTM_EK3 || (!c.rec.A.empty() && (t == MT::CTM_LGK || t == MT::CTM_LGX)) || (t == MT::CTM_EK1 && none) || (t == MT::CTM_EK0 && flat)) { auto a = x.calc_logK_fT_coefficients(); a.resize(7, 0.0); r.states++;
                for (double T : Ts) { r.transitions++; LD k = a[0] + a[1] * (LD)T + a[2] / (LD)T + a[3] * logl(T) + a[4] / ((LD)T * T) + a[5] * (LD)T * T + a[6] / sqrtl(T), w = derive(c.G, T, 1e5).logK; if (fabsl(k - w) > 1e-8L * (1 + fabsl(a[0]) + fabsl(a[2] / T) + fabsl(a[3] * 7))) r.violation(c.name + ":coefficients", c.name + ": log K from the coefficients at " + mc::num6(T) + " K is " + mc::num((double)k) + ", expected " + mc::num((double)w), c.name); } } }
        // at the reference conditions: the reference values
        if (!c.w && c.rec.A.empty()) { double Pq = c.rec.Pr; ThermoPropertiesReaction q; try { q = e.thermoPropertiesReaction(c.rec.Tr, Pq, x); } catch (...) { return; } r.states++; r.transitions++;
            auto chk = [&](const char* k, const ThermoScalar& s, double want, double tol, bool given) { if (given && !mc::close(s.val, want, 1e-9, tol)) r.violation(c.name + ":reference:" + k, c.name + ": " + k + " at the reference conditions is " + mc::num(s.val) + ", the record says " + mc::num(want), c.name); };
            bool one = c.name.find("1-term") == 0 || c.name.find("alone") != std::string::npos;
            chk("logK", q.log_equilibrium_constant, c.rec.logK, 1e-9, c.rec.has & 1); chk("G", q.reaction_gibbs_energy, c.rec.G, 1e-5, c.rec.has & 2); if (!one) { chk("H", q.reaction_enthalpy, c.rec.H, 1e-5, c.rec.has & 4); chk("S", q.reaction_entropy, c.rec.S, 1e-8, c.rec.has & 8); } chk("V", q.reaction_volume, c.rec.V, 1e-9, c.rec.has & 32); }
    }, [](const std::string& l) { return l.substr(0, l.find(" T ")); }); }

// ---------------------------------------------------------------- R04
static Report r04() {
    static std::vector<std::string> others = {"Quartz", "Gibbsite", "Pd-Oxn", "CH4", "CO2(g)", "CO-PRSV", "CO-PR78", "CO-SRK", "mines:CO2", "CGF-Ar", "STP-CO2", "H2O@", "Na+", "Na+g", "CH4@", "H+", "ZrF6-2", "CoHS+", "AN91-X", "HP98-X", "BM-X", "BERM-X", "ONE"};
    static std::vector<double> coefs = {1, -1, 2, -2, 0.5, -0.5, 3};
    auto pts = lattice(); 
    auto record = [](int m, const std::string& sym, const std::string& eqn) { Rec r = consistent(21100, 36.4, 25, -0.6); r.eq = eqn; r.A = {-3.7, 0.0012, -210, 0.55, 1.3e4, 1.2e-7, -3.5}; r.FM = {-4.0, -1000, 10000, 500, 12.0, 1000, 100}; r.RB = {1, 0.7, 300};
        switch (m) { case 0: r.t = MT::CTM_EK3; break; case 1: r.t = MT::CTM_LGK; break; case 2: r.t = MT::CTM_EK3; r.p = MP::CPM_CON; break; case 3: r.t = MT::CTM_DKR; break; case 4: r.t = MT::CTM_MRB; break; case 5: r.g = MG::CTPM_REA; break; }
        Reaction x = r.make(); x.setSymbol(sym); x.setName(sym); return x; };
    auto subst = [](const std::string& sym, const std::string& rx, SubstanceClass::type cl) { Substance s = synth::base(sym, "SiO2", cl, AggregateState::type::AQUEOUS, synth::ref(-1000, -2000, 30, 40, 1.5)); s.setThermoParameters(synth::par()); s.setReactionSymbol(rx); s.setThermoCalculationType(SubstanceThermoCalculationType::type::REACDC); return s; };
    auto eqn = [](const std::vector<std::pair<std::string, double>>& sp) { std::string e; for (int side : {-1, 1}) { bool f = true; for (auto& s : sp) if ((s.second < 0) == (side < 0)) { e += (f ? "" : " + ") + mc::num(std::fabs(s.second)) + s.first; f = false; } if (side < 0) e += " = "; } return e; };
    const int M = 6;
    return mc::parallel(others.size() * M, [&, pts, record, subst, eqn](size_t n, Report& r) {
        std::string o = others[n / M]; int m = n % M; bool th = mc::options().thorough();
        if (n % 17 == 0) r.sample("substances defined by a reaction of kind " + std::to_string(m) + " with " + o + ", every coefficient, alone and with a third species, directly and through another such substance");
        auto run = [&](std::vector<std::pair<std::string, double>> sp, double cDef, const std::string& viaChain, int pm) {
            // DEF is defined by RX over sp (and its own coefficient); ONE is another such substance
            Database d(*db); d.addReaction(record(1, "R1", eqn({{"Quartz", -1}, {"ONE", 2}}))); d.addSubstance(subst("ONE", "R1", SubstanceClass::type::AQSOLUTE));
            sp.push_back({"DEF", cDef}); Reaction rx = record(m, "RX", eqn(sp)); d.addReaction(rx); Substance def = subst("DEF", "RX", pm == 1 ? SubstanceClass::type::COMPONENT : SubstanceClass::type::AQSOLUTE);
            if (pm == 2) { def.setThermoCalculationType(SubstanceThermoCalculationType::type::DCOMP); }    // no methods, but a reaction
            d.addSubstance(def); ThermoEngine e(d);
            for (auto& pt : pts) { bool water = false; for (auto& s : sp) { auto c = d.getSubstance(s.first).substanceClass(); water |= c == SubstanceClass::type::AQSOLUTE || c == SubstanceClass::type::AQSOLVENT; }
                if (pt.P == 0 && !water) continue;
                std::string lab = rx.equation() + " of kind " + std::to_string(m) + " at " + mc::num6(pt.T) + " K, " + mc::num6(pt.P) + " Pa"; mc::visiting(lab); r.states++; r.transitions++; r.traces++;
                ThermoPropertiesReaction q; ThermoPropertiesSubstance s; double P = pt.P, P2 = pt.P; std::map<std::string, std::map<std::string, double>> comp; std::string err;
                try { q = e.thermoPropertiesReaction(pt.T, P, "RX"); s = e.thermoPropertiesSubstance(pt.T, P2, "DEF"); } catch (const std::exception& x) { err = clean(x.what()); }
                // the other species, on calculators of their own, with gases at their corrected state
                double Pc = pt.P ? pt.P : P; bool bad = false; std::map<std::string, bool> def; std::map<std::string, LD> sum, size;
                for (auto& c : sp) { if (c.first == "DEF") continue; ThermoEngine x(d); x.preferences().apply_pressure_correction_to_gas_props = true; double Px = Pc; try { auto t = x.thermoPropertiesSubstance(pt.T, Px, c.first); for (auto& p : props(t)) { sum[p.first] += (LD)c.second * p.second->val; size[p.first] += fabsl((LD)c.second * p.second->val); if (!defined(*p.second)) def[p.first] = true; } } catch (const std::exception&) { bad = true; } }
                if (bad || !err.empty()) { if (bad != !err.empty()) r.violation("outcome", lab + (bad ? ": a result although a species of the reaction fails" : ": " + err), lab); continue; }
                r.nontrivial++; std::map<std::string, const ThermoScalar*> rq; for (auto& p : props(q)) rq[p.first] = p.second;
                for (auto& p : props(s)) { if (!defined(*rq[p.first]) || def.count(p.first) || !defined(*p.second)) continue;
                    LD back = sum[p.first] + (LD)cDef * p.second->val, tol = 1e-10L * (size[p.first] + fabsl((LD)cDef * p.second->val) + fabsl((LD)rq[p.first]->val)) + 1e-9L;
                    if (fabsl(back - rq[p.first]->val) > tol) r.violation("back:" + p.first, lab + ": the sum over the species gives " + p.first + " = " + mc::num((double)back) + ", the reaction has " + mc::num(rq[p.first]->val), lab); }
                for (auto& p : props(s)) if (defined(*rq[p.first]) && !def.count(p.first) && !defined(*p.second)) r.violation("undefined:" + p.first, lab + ": " + p.first + " of the substance is not defined although that of the reaction and of all its other species is", lab);
            } };
        for (double c : coefs) { for (double co : coefs) { if (!th && co != -1 && co != 0.5 && co != 2) continue; run({{o, co}}, c, "", (int)(c + co + 8) % 3); } }
        for (auto& p : others) if (p != o) { run({{o, -1}, {p, 2}}, 1, "", 0); if (th) for (double c : coefs) run({{o, -0.5}, {p, 1.5}}, c, "", 2); }
    }); }

int main(int argc, char** argv) {
    mc::init(argc, argv); Report r; auto& m = mc::options().mode;
    if (m != "R01") load();
    if (m == "R01") r = r01(); if (m == "R02") r = r02(); if (m == "R03") r = r03(); if (m == "R04") r = r04(); if (m == "R05") r = r05();
    return mc::finish(r);
}
