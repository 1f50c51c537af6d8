// T01-T05: models of minerals and dissolved species.
#include "phys.hpp"
#include <ThermoModelsSubstance.h>
using namespace phys; using mc::Report;
using synth::val;
typedef MethodCorrT_Thrift MT; typedef MethodCorrP_Thrift MP; typedef MethodGenEoS_Thrift MG;
typedef SubstanceClass SC; typedef AggregateState AS;

static Substance solid(MG::type g, MT::type t, MP::type p, const ThermoPropertiesSubstance& ref, double Tr = 298.15, double Pr = 1e5) {
    Substance s = synth::base("X", "SiO2", SC::type::COMPONENT, AS::type::CRYSTAL, ref); s.setReferenceT(Tr); s.setReferenceP(Pr);
    if (int(g)) s.setMethodGenEoS(g); if (int(t)) s.setMethod_T(t); if (int(p)) s.setMethod_P(p); s.setThermoParameters(synth::par()); return s; }
static Database* db = nullptr;

// ---------------------------------------------------------------- T03
static LD cpAt(const std::vector<double>& a, LD T) { static const LD e[10] = {0, 1, -2, -0.5L, 2, 3, 4, -3, -1, 0.5L}; LD s = 0; for (size_t i = 0; i < a.size() && i < 10; ++i) if (a[i] != 0) s += a[i] * powl(T, e[i]); return s; }
struct Cp { std::vector<std::vector<double>> coef, range, trans; };
struct Integral { LD H, S, G, Cp; };
static Integral integrate(const Cp& c, LD H, LD S, LD G, LD Tr, LD T) {
    size_t k = 0; for (size_t i = 0; i < c.range.size(); ++i) if (c.range[i].size() > 1 && c.range[i][0] <= T) k = i;
    Integral o; o.H = H; o.S = S; o.Cp = cpAt(c.coef[k], T); LD from = Tr;
    LD base = G - (H - Tr * S);         // G and H may be on different scales
    for (size_t j = 0; j <= k; ++j) { if (j) { from = c.range[j][0]; if (j <= c.trans.size()) { auto& t = c.trans[j - 1]; o.S += t.size() > 1 ? t[1] : 0; o.H += t.size() > 2 ? t[2] : 0; } }
        LD to = j == k ? T : (LD)c.range[j][1]; auto& a = c.coef[j];
        o.H += gauss([&](LD x) { return cpAt(a, x); }, from, to, 8); o.S += gauss([&](LD x) { return cpAt(a, x) / x; }, from, to, 8); }
    o.G = base + o.H - T * o.S; return o; }
static const double cpv[10] = {58.2, 0.0163, -1.3e6, 420, -3.1e-6, 2.2e-9, 7e-13, 2.4e7, 3100, 0.9};

static Report t03() {
    struct Case { std::string name; Cp c; double Tr; };
    static std::vector<Case> cases; bool TH = mc::options().thorough();
    std::vector<std::vector<double>> vecs; for (int i = 0; i < 10; ++i) { std::vector<double> a(10, 0.0); a[i] = cpv[i]; vecs.push_back(a); for (int j = i + 1; j < 10; ++j) { auto b = a; b[j] = -0.6 * cpv[j]; vecs.push_back(b); } vecs.push_back({cpv, cpv + i + 1}); }
    { std::vector<double> l(cpv, cpv + 10); l.resize(16, 0.0); vecs.push_back(l); l.resize(20, 1.0); vecs.push_back(l); vecs.push_back(std::vector<double>(10, 0.0)); }
    for (double Tr : {298.15, 250.0, 400.0}) for (auto& v : vecs) {
        cases.push_back({"one-interval", {{v}, {{200, 1000}}, {}}, Tr}); cases.push_back({"no-interval", {{v}, {}, {}}, Tr}); cases.push_back({"short-interval", {{v}, {{200}}, {}}, Tr}); cases.push_back({"one-interval-with-transition", {{v}, {{200, 1000}}, {{1000, 5, 5000, 0.1}}}, Tr}); }
    // several intervals, every pair of coefficient vectors in turn, all kinds of transition data
    for (size_t n = 2; n <= (TH ? 4u : 3u); ++n) for (size_t i = 0; i < vecs.size(); ++i) for (size_t step : {size_t(1), size_t(7)}) for (double Tr : {298.15, 400.0}) for (int kind = 0; kind < 6; ++kind) {
        if (n == 4 && kind % 2) continue;
        Cp c; for (size_t j = 0; j < n; ++j) { c.coef.push_back(vecs[(i + j * step) % vecs.size()]); c.range.push_back({j ? 300.0 + 150 * j : 200, 300.0 + 150 * (j + 1)}); }
        for (size_t j = 1; j < n; ++j) { double T = c.range[j][0], dH = kind == 2 ? -310.5 : 1200 + 333.3 * j; std::vector<double> t = {T}; if (kind >= 1) { t.push_back(dH / T); t.push_back(dH); } if (kind >= 3) t.push_back(0.02 * j); if (kind == 4) t = {T, 0, 0, 0}; if (kind == 5) t = {T, dH / T, dH, -0.1, 7, 7, 7}; c.trans.push_back(t); }
        cases.push_back({std::to_string(n) + "-intervals-kind" + std::to_string(kind), c, Tr}); }
    return mc::parallel(cases.size() + 1, [](size_t n, Report& r) {
        ThermoEngine e(*db);
        static std::vector<double> temps = {205, 273.15, 297, 298.15, 299, 350, 400, 449.9, 450, 450.1, 500, 599.99, 600, 620, 700, 749, 750, 751, 900, 1000, 1100, 150, 1500};
        if (n == cases.size()) { // no transition recorded for a border: an error where the border is crossed
            for (size_t k = 2; k <= 4; ++k) for (double T : temps) for (int how = 0; how < 2; ++how) { Substance s = solid(MG::CTPM_CPT, MT::type(0), how ? MP::CPM_CON : MP::type(0), synth::ref(-1000, -2000, 30, 40, 2)); auto p = synth::par();
                for (size_t j = 0; j < k; ++j) { p.Cp_coeff.push_back({50. + j}); p.temperature_intervals.push_back({j ? 300. + 150 * j : 200, 450. + 150 * j}); } s.setThermoParameters(p);
                std::string lab = std::to_string(k) + " intervals, no transitions, " + mc::num6(T) + " K"; mc::visiting(lab); r.states++; r.transitions++; r.traces++; bool failed = false; double P = 1e5; ThermoPropertiesSubstance t; try { t = e.thermoPropertiesSubstance(T, P, s); } catch (const std::exception&) { failed = true; }
                r.nontrivial++; if (T >= 450 && !failed) r.violation("border:no-error", lab + ": no error although no transition is recorded for the border below", lab); if (T < 450 && failed) r.violation("border:error", lab + ": an error although no border is crossed", lab); }
            return; }
        auto& c = cases[n]; if (n % 251 == 0) r.sample(c.name + ", coefficients " + eng::dump(c.c.coef) + " from " + mc::num6(c.Tr) + " K at " + std::to_string(temps.size()) + " temperatures");
        struct Ref { double G, H, S; }; static std::vector<Ref> refs = {{-855000, -910700, 41.4}, {0, 0, 0}, {0, 0, 120}, {5, -7, -3}};
        for (auto& f : refs) for (double T : temps) for (int how = 0; how < 3; ++how) { if (how && &f != &refs[0]) continue;
            double P = how == 1 ? 3e8 : 1e5; Substance s = solid(MG::CTPM_CPT, MT::type(0), how ? MP::CPM_CON : MP::type(0), synth::ref(f.G, f.H, f.S, 0, 2.5), c.Tr); auto p = synth::par(); p.Cp_coeff = c.c.coef; p.temperature_intervals = c.c.range; p.phase_transition_prop = c.c.trans; s.setThermoParameters(p);
            std::string lab = c.name + ", coefficients " + eng::dump(c.c.coef) + " from " + mc::num6(c.Tr) + " K to " + mc::num6(T) + " K"; mc::visiting(lab); r.states++; r.transitions++; r.traces++; ThermoPropertiesSubstance t;
            try { t = e.thermoPropertiesSubstance(T, P, s); } catch (const std::exception& x) { r.violation("fails:" + c.name, lab + ": " + eng::clean(x.what()), lab); continue; }
            r.nontrivial++; auto w = integrate(c.c, f.H, f.S, f.G, c.Tr, T); LD pv = how == 1 ? 2.5L * (3e8L - 1e5L) / 1e5L : 0;
            LD size = 1; for (auto& v : c.c.coef) for (size_t i = 0; i < v.size() && i < 10; ++i) { std::vector<double> a(10, 0.0); a[i] = v[i]; size = std::max({size, fabsl(cpAt(a, 150)), fabsl(cpAt(a, 1500))}); }
            LD tol = 1e-9L * size * T + 1e-10L * (fabsl(w.G) + fabsl(w.H));
            auto cmp = [&](const char* q, const ThermoScalar& a, LD want, LD tl) { if (!(fabsl(a.val - want) <= tl)) r.violation(std::string(q) + ":" + c.name, lab + ": " + q + " is " + mc::num(a.val) + ", integration gives " + mc::num((double)want), lab); if (!defined(a)) r.violation(std::string(q) + ":undefined", lab + ": " + q + " is not defined", lab); };
            cmp("H", t.enthalpy, w.H + pv, tol); cmp("S", t.entropy, w.S, tol / T * 3); cmp("G", t.gibbs_energy, w.G + pv, tol * 2); cmp("Cp", t.heat_capacity_cp, w.Cp, 1e-10L * size); }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }


// ---------------------------------------------------------------- T04
// The volume contribution to G (J/mol) of each model; T in K, P in Pa
struct Model { std::string name; MT::type t; MP::type p; std::function<void(Substance&)> set; std::function<LD(LD, LD)> G; std::function<bool(LD, LD)> near = nullptr; double tolS = 1e-7, tolCp = 1e-6, tolG = 1e-6; bool jump = false; };
struct Base { bool cst; double G, H, S, Cp, Tr, Pr; std::vector<double> c;
    LD g(LD T) const { auto ih = [&](LD x) { return cst ? Cp * x : c[0] * x + c[1] * x * x / 2 + 2 * c[3] * sqrtl(x); }; auto is = [&](LD x) { return cst ? Cp * logl(x) : c[0] * logl(x) + c[1] * x - 2 * c[3] / sqrtl(x); }; return G - H + Tr * S + H + ih(T) - ih(Tr) - T * (S + is(T) - is(Tr)); } };
static LD murnaghan(LD V, LD a0, LD k0, LD Tr, LD T, LD P) { LD k = k0 * (1 - 1.5e-4L * (T - Tr)), v = V * (1 + a0 * (T - Tr) - 20 * a0 * (sqrtl(T) - sqrtl(Tr))); return v * k / 3 * (powl(1 + 4 * P / 1e8L / k, 0.75L) - 1) * 1000; }
static LD berman(LD V, const std::vector<double>& c, LD Tr, LD Pr, LD T, LD P) { LD t = T - Tr, p = (P - Pr) / 1e5L; return V * p * (1 + c[0] * t + c[1] * t * t + c[2] * t * t * t + c[3] * p / 2 + c[4] * p * p / 3); }
static LD birch(LD V, const std::vector<double>& c, LD Tr, LD Pr, LD T, LD Pa) {
    LD vt = V * 10 * expl(c[0] * (T - Tr) + (LD)c[1] / 2 * (T * T - Tr * Tr) + c[2] * (1 / Tr - 1 / T)), K = c[5] + (LD)c[6] * (T - Tr), k1 = c[7], k2 = fabs(c[8]) < 1e-20 ? -((35.0L / 9 + (3 - k1) * (4 - k1)) / K) : (LD)c[8], P = Pa / 1e6L;
    auto p = [&](LD v) { LD f = (powl(vt / v, 2.0L / 3) - 1) / 2; return 3 * K * f * powl(1 + 2 * f, 2.5L) * (1 + 1.5L * (k1 - 4) * f + 1.5L * (K * k2 + (k1 - 4) * (k1 - 3) + 35.0L / 9) * f * f); };
    LD a = 0.3L * vt, b = 1.3L * vt, v = vt; for (int i = 0; i < 100; ++i) { v = (a + b) / 2; (p(v) > P ? a : b) = v; }
    return P * v - Pr / 1e6L * vt - gauss(p, vt, v, 2); }
static LD landau(LD Tc0, LD S, LD Vm, LD a0, LD k0, LD Tr, LD T, LD P) {
    LD Tc = Tc0 + (Vm != 0 ? Vm / S * P / 1e5L : 0), Q0 = Tr < Tc0 ? powl(1 - Tr / Tc0, 0.25L) : 0, Q = T < Tc ? powl(1 - T / Tc, 0.25L) : 0;
    return S * Tc0 * (Q0 * Q0 - powl(Q0, 6) / 3) - T * S * Q0 * Q0 + murnaghan(Vm * Q0 * Q0, a0, k0, Tr, T, P) + S * ((T - Tc) * Q * Q + Tc * powl(Q, 6) / 3); }
static std::vector<std::vector<double>> each(const std::vector<double>& v, double f = -0.6, const std::vector<double>& base = {}) { // each entry alone, in pairs, all
    std::vector<std::vector<double>> o; std::vector<double> z = base.empty() ? std::vector<double>(v.size(), 0.0) : base;
    for (size_t i = 0; i < v.size(); ++i) { auto a = z; a[i] = v[i]; o.push_back(a); for (size_t j = i + 1; j < v.size(); ++j) { auto b = a; b[j] = f * v[j]; o.push_back(b); b[j] = v[j]; o.push_back(b); } } o.push_back(v); return o; }
static std::vector<Model> models(double V, double Tr, double Pr) {
    std::vector<Model> m; const auto Cno = MT::type(0);
    m.push_back({"constant", Cno, MP::CPM_CON, [](Substance&) {}, [=](LD, LD P) -> LD { return V * (P - Pr) / 1e5L; }});
    std::vector<std::pair<double, double>> ak = {{5, 1000}, {0.65, 750}, {12.4, 420}, {3, 2500}};
    for (auto& x : ak) { double a = x.first, k = x.second; m.push_back({"murnaghan", Cno, MP::CPM_CEH, [=](Substance& s) { auto p = s.thermoParameters(); p.isobaric_expansivity = a; p.isothermal_compresibility = k; s.setThermoParameters(p); }, [=](LD T, LD P) -> LD { return murnaghan(V, a * 1e-5L, k, Tr, T, P); }}); m.back().jump = true; }
    for (auto& x : std::vector<std::pair<double, double>>{{0, 1000}, {5, 0}}) { double a = x.first, k = x.second; m.push_back({"murnaghan-without-a-coefficient", Cno, MP::CPM_CEH, [=](Substance& s) { auto p = s.thermoParameters(); p.isobaric_expansivity = a; p.isothermal_compresibility = k; s.setThermoParameters(p); }, [=](LD, LD P) -> LD { return V * (P - Pr) / 1e5L; }}); }
    for (auto& c : each({2.4e-5, 1.0e-9, 3e-13, -1.2e-6, 2.0e-12})) m.push_back({"berman", Cno, MP::CPM_VBE, [=](Substance& s) { auto p = s.thermoParameters(); p.volume_coeff = c; s.setThermoParameters(p); }, [=](LD T, LD P) -> LD { return berman(V, c, Tr, Pr, T, P); }});
    for (auto& c : each({1e-5, 1e-8, -0.8, 0, 0, 60000, -8, 5.5, -1.0e-4}, 0.6, {0, 0, 0, 0, 0, 90000, 0, 4, 0})) { auto d = c; if (d[5] < 40000) d[5] = 40000; d.resize(11, 0.0); m.push_back({"birch-murnaghan", Cno, MP::CPM_VBM, [=](Substance& s) { auto p = s.thermoParameters(); p.volume_BirchM_coeff = d; s.setThermoParameters(p); }, [=](LD T, LD P) -> LD { return birch(V, d, Tr, Pr, T, P); }}); m.back().tolS = 5e-5; m.back().tolCp = 2e-3; m.back().jump = true; }
    for (double Tc : {574.9, 120.0, 900.0, 10.0}) for (double Sm : {4.95, 9.1}) for (double Vm : {0.1188, 0.0, -0.04}) for (auto& x : ak) for (int with : {0, 1}) { double a = x.first, k = x.second, Tc0 = Tc + 273.15;
        m.push_back({with ? "landau+murnaghan" : "landau", MT::CTM_CHP, with ? MP::CPM_CEH : MP::type(0), [=](Substance& s) { auto p = s.thermoParameters(); p.m_landau_phase_trans_props = {Tc, Sm, Vm}; p.isobaric_expansivity = a; p.isothermal_compresibility = k; s.setThermoParameters(p); },
            [=](LD T, LD P) -> LD { return landau(Tc0, Sm, Vm, a * 1e-5L, k, Tr, T, P) + (with ? murnaghan(V, a * 1e-5L, k, Tr, T, P) : 0); }, [=](LD T, LD P) { return fabsl(T - (Tc0 + Vm / Sm * P / 1e5L)) < 8; }}); m.back().jump = true; m.back().tolS = 1e-6; m.back().tolCp = 1e-4; }
    return m; }
static Substance mineral(const Base& b, const Model& m, double V) {
    Substance s = solid(b.cst ? MG::type(0) : MG::CTPM_CPT, b.cst ? MT::CTM_CST : m.t, m.p, synth::ref(b.G, b.H, b.S, b.Cp, V), b.Tr, b.Pr);
    if (!b.cst) { auto p = s.thermoParameters(); p.temperature_intervals = {{200, 3000}}; p.Cp_coeff = {b.c}; s.setThermoParameters(p); } m.set(s); return s; }
static std::vector<Base> bases(double Tr, double Pr) { return {{false, -855000, -910700, 41.4, 44, Tr, Pr, {110.7, -0.005189, 0, -1128.3, 0, 0, 0, 0, 0, 0}}, {true, -855000, -910700, 41.4, 44.0, Tr, Pr, {}}, {false, 0, 0, 0, 0, Tr, Pr, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}}; }

static Report t04() {
    struct Case { Model m; Base b; double V; }; static std::vector<Case> cases;
    for (double V : {2.269, 11.5}) for (double Tr : {298.15, 350.0}) for (double Pr : {1e5, 1e6}) { if (!mc::options().thorough() && (Tr != 298.15) + (Pr != 1e5) + (V != 2.269) > 1) continue;
        for (auto& b : bases(Tr, Pr)) for (auto& m : models(V, Tr, Pr)) { if (b.cst && int(m.t)) continue; cases.push_back({m, b, V}); } }
    return mc::parallel(cases.size(), [](size_t n, Report& r) {
        auto& c = cases[n]; ThermoEngine e(*db); Substance s = mineral(c.b, c.m, c.V);
        std::string what = c.m.name + (c.b.cst ? " over a constant heat capacity" : "") + ", V " + mc::num6(c.V) + ", from " + mc::num6(c.b.Tr) + " K, " + mc::num6(c.b.Pr) + " Pa, " + eng::dump(s.thermoParameters().volume_coeff) + eng::dump(s.thermoParameters().volume_BirchM_coeff) + eng::dump(s.thermoParameters().m_landau_phase_trans_props) + mc::num6(s.thermoParameters().isobaric_expansivity) + "," + mc::num6(s.thermoParameters().isothermal_compresibility);
        if (n % 97 == 0) r.sample(what + ": G, H, S, Cp, V, U and A over the T-P lattice");
        std::vector<double> Ts = {250, 298.15, 298.16, 350, 420, 500, 700, 847, 900, 1100, 1250}, Ps = {1e5, 1e6, 1e7, 1e8, 5e8, 1e9, 3e9}; if (mc::options().thorough()) { for (double T : {200., 273.15, 380., 600., 650., 780., 1000., 1400.}) Ts.push_back(T); for (double P : {1.0, 2e8, 2e9, 5e9}) Ps.push_back(P); }
        for (double T : Ts) for (double P : Ps) {
            if (c.m.near && c.m.near(T, P)) continue; if (T == c.b.Tr && P == c.b.Pr && c.m.jump) continue;
            std::string lab = what + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"; mc::visiting(lab); r.states++; r.transitions++; r.traces++; ThermoPropertiesSubstance t; double p = P;
            try { t = e.thermoPropertiesSubstance(T, p, s); } catch (const std::exception& x) { r.violation("fails:" + c.m.name, lab + ": " + eng::clean(x.what()), lab); continue; }
            auto w = derive([&](LD T, LD P) { return c.b.g(T) + c.m.G(T, P); }, T, P); LD H = w.G + (LD)T * w.S - (c.b.G - c.b.H + (LD)c.b.Tr * c.b.S); r.nontrivial++;
            LD size = 1 + fabsl(w.G) + fabsl(H);
            auto cmp = [&](const char* q, const ThermoScalar& a, LD want, LD tl) { if (!(fabsl(a.val - want) <= tl)) r.violation(std::string(q) + ":" + c.m.name, lab + ": " + q + " is " + mc::num(a.val) + ", the equation gives " + mc::num((double)want), lab); if (!defined(a)) r.violation(std::string(q) + ":undefined:" + c.m.name, lab + ": " + q + " is not defined", lab); };
            cmp("G", t.gibbs_energy, w.G, c.m.tolG + 1e-10L * size); cmp("S", t.entropy, w.S, c.m.tolS * (1 + P / 1e8) + 1e-9L * fabsl(w.S)); cmp("H", t.enthalpy, H, 1e-10L * size + c.m.tolS * T * (1 + P / 1e8)); cmp("Cp", t.heat_capacity_cp, w.Cp, c.m.tolCp * (1 + P / 1e8) + 1e-9L * fabsl(w.Cp)); cmp("V", t.volume, w.V, 1e-7L * (1 + fabsl(w.V)));
            LD U = H - P / 1e5L * w.V; if (defined(t.internal_energy)) cmp("U", t.internal_energy, U, 1e-10L * size + c.m.tolS * T * (1 + P / 1e8) + 2e-7L * P / 1e5); if (defined(t.helmholtz_energy)) cmp("A", t.helmholtz_energy, U - (LD)T * w.S, 1e-10L * size + 2 * c.m.tolS * T * (1 + P / 1e8) + 2e-7L * P / 1e5);
        }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }


// ---------------------------------------------------------------- T02
static const Water W25{997.047L, 2.57e-4L, 9.6e-6L, 4.52e-10L};
static const Dielectric D25{78.2446L, 4.537124e-3L, 6.0e-6L, 4.7e-10L};
static Report t02() {
    struct Case { std::string name; std::function<ThermoPropertiesSubstance(const ThermoEngine&, double, double, const ThermoPropertiesSubstance&)> ask; std::vector<std::string> has; bool fixed = false, at1bar = false; double tol = 1e-6; bool fallback = false; std::function<double(double Tr, double Pr, double Cp, double V)> shift = nullptr; };
    static std::vector<Case> cases; static const auto no = MP::type(0);
    auto engine = [](Substance s) { return [s](const ThermoEngine& e, double Tr, double Pr, const ThermoPropertiesSubstance& ref) { Substance x(s); x.setReferenceT(Tr); x.setReferenceP(Pr); x.setThermoReferenceProperties(ref);
        if (s.methodGenEOS() == MG::CTPM_CPT) { auto p = x.thermoParameters(); double cp = ref.heat_capacity_cp.val; p.Cp_coeff = {{cp - 0.01 * Tr, 0.01, 0, 0, 0, 0, 0, 0, 0, 0}}; x.setThermoParameters(p); } double P = Pr; return e.thermoPropertiesSubstance(Tr, P, x); }; };
    const std::vector<std::string> all = {"G", "H", "S", "Cp", "V"}, gas = {"G", "S", "Cp", "H"}; const ThermoPropertiesSubstance r0 = synth::ref(0, 0, 0, 0, 0);
    std::set<std::string> seen;
    for (auto& b : bases(298.15, 1e5)) { if (b.Cp == 0 && !b.cst) continue; cases.push_back({std::string("no-volume-method/") + (b.cst ? "cst" : "cp"), engine(mineral(b, Model{"", MT::type(0), no, [](Substance&) {}, nullptr}, 1)), {"G", "H", "S", "Cp"}}); cases.push_back(cases.back()); cases.back().name += "/fallback"; cases.back().fallback = true; cases.back().has = all;
        for (auto& m : models(1, 298.15, 1e5)) { if (b.cst && int(m.t)) continue; std::string n = m.name + (b.cst ? "/cst" : "/cp"); if (!seen.insert(n).second) continue; cases.push_back({n, engine(mineral(b, m, 1)), all}); if (m.jump) cases.back().at1bar = true; if (m.name.find("landau") == 0) { cases.back().tol = 0.5; cases.back().has = {"G", "H"}; } } }
    for (auto m : {MP::CPM_OFF, MP::CPM_PRSV, MP::CPM_PR78, MP::CPM_SRK, MP::CPM_CORK, MP::CPM_EMP, MP::CPM_STP}) { auto g = m == MP::CPM_EMP ? synth::cgf() : m == MP::CPM_STP ? synth::stpCO2() : synth::gas("G", "CO2", m, {304.2, 73.8, 0.225, 0.0429, 0, 0, 0, 0, 0, 0, 0, 0}, {}, r0); bool ideal = m == MP::CPM_OFF;
        cases.push_back({"gas" + std::to_string(int(m)), engine(g), ideal ? gas : std::vector<std::string>{"G"}}); }
    auto solute = [](MG::type g) { Substance s = synth::aqueous("Q", "SiO2@", g, synth::ref(0, 0, 0, 0, 0)); return s; };
    { Substance s = solute(MG::CTPM_AN91); cases.push_back({"anderson", [s](const ThermoEngine&, double Tr, double Pr, const ThermoPropertiesSubstance& ref) { Substance x(s); x.setReferenceT(Tr); x.setReferenceP(Pr); x.setThermoReferenceProperties(ref); auto w = W25.at(Tr, Pr); return SoluteAnderson91(x).thermoProperties(Tr, Pr, w, w); }, gas}); }
    for (double b : {0.0, 0.0283}) { Substance s = solute(MG::CTPM_HP98); auto p = s.thermoParameters(); p.solute_holland_powell98_coeff = {b}; s.setThermoParameters(p); cases.push_back({"holland-powell", [s](const ThermoEngine&, double Tr, double Pr, const ThermoPropertiesSubstance& ref) { Substance x(s); x.setReferenceT(Tr); x.setReferenceP(Pr); x.setThermoReferenceProperties(ref); auto w = W25.at(Tr, Pr); return SoluteHollandPowell98(x).thermoProperties(Tr, Pr, w, w); }, all});
        // the published equation counts pressure from zero instead of from the reference pressure
        cases.back().shift = [b](double Tr, double Pr, double Cp, double V) { auto w = W25.at(Tr, Pr); return Pr / 1e5 * (V - (Cp - Tr * b) / (Tr * w.dAldT.val) * w.Beta.val * 1e5); }; }
    for (int z = -4; z <= 4; ++z) for (double wr : {0.0, 33060.0, 1.2e5, -5000.0}) for (int reak : {0, 1}) { Substance s = solute(reak ? MG::CTPM_HKFR : MG::CTPM_HKF); s.setCharge(z); auto p = s.thermoParameters(); p.HKF_parameters = {0.18, -228, 3.26, -27260, 18.2, -29810, wr, 0}; s.setThermoParameters(p);
        auto f = [s, reak](const ThermoEngine&, double, double, const ThermoPropertiesSubstance& ref) { Substance x(s); x.setThermoReferenceProperties(ref); auto w = W25.at(298.15, 1e5); auto d = D25.at(298.15, 1e5); return reak ? SoluteHKFreaktoro(x).thermoProperties(298.15, 1e5, w, d) : SoluteHKFgems(x).thermoProperties(298.15, 1e5, w, d); };
        Case c{reak ? "hkf-reaktoro" : "hkf-gems", f, {"G", "H", "S"}}; c.fixed = true; c.tol = 1e-5 + fabs(wr) * 4.184 * (reak ? 1.2e-5 : 1e-6); cases.push_back(c); }
    return mc::parallel(cases.size(), [](size_t n, Report& r) {
        auto& c = cases[n]; ThermoEngine e(*db); e.preferences().fallback_to_reference_properties = c.fallback; r.sample(c.name + ": all combinations of reference values at nine reference conditions");
        static const std::vector<double> G = {-855000, 0, 12.5}, H = {-910700, 0, 431}, S = {41.4, 0, -70}, Cp = {44, 0, -3}, V = {2.269, 0, -0.4, 11};
        for (double Tr : {298.15, 273.15, 350.0, 500.0, 298.0}) for (double Pr : {1e5, 1e6, 5e7}) { if (c.at1bar && Pr != 1e5) continue; if (c.fixed && (Tr != 298.15 || Pr != 1e5)) continue;
            for (double g : G) for (double h : H) for (double s : S) for (double cp : Cp) for (double v : V) {
                std::string lab = c.name + " from " + mc::num6(Tr) + " K, " + mc::num6(Pr) + " Pa with G, H, S, Cp, V " + mc::num6(g) + "," + mc::num6(h) + "," + mc::num6(s) + "," + mc::num6(cp) + "," + mc::num6(v); mc::visiting(lab); r.states++; r.transitions++; r.traces++;
                ThermoPropertiesSubstance t; try { t = c.ask(e, Tr, Pr, synth::ref(g, h, s, cp, v)); } catch (const std::exception& x) { r.violation("fails:" + c.name, lab + ": " + eng::clean(x.what()), lab); continue; } r.nontrivial++;
                std::map<std::string, double> want = {{"G", g}, {"H", h}, {"S", s}, {"Cp", cp}, {"V", v}};
                for (auto& q : props(t)) if (std::find(c.has.begin(), c.has.end(), q.first) != c.has.end()) {
                    double tol = q.first == "S" || q.first == "Cp" || q.first == "V" ? c.tol / 100 : c.tol; if (!mc::close(q.second->val, want[q.first], 1e-12, tol) || !defined(*q.second)) r.violation(q.first + ":" + c.name + (c.shift && (q.first == "G" || q.first == "H") && mc::close(q.second->val, want[q.first] + c.shift(Tr, Pr, cp, v), 1e-12, tol) && defined(*q.second) ? ":pressure-from-zero" : ""), lab + ": " + q.first + " is " + mc::num(q.second->val) + (defined(*q.second) ? "" : " (not defined)"), lab); }
            } }
    }, [](const std::string& l) { return l.substr(0, l.find(' ')); }); }


// ---------------------------------------------------------------- T05
static LD gfun(LD T, LD P, LD D, bool dense, LD af1) { LD t = T - 273.15L, p = P / 1e5L, g = 0; if (D >= 1 && !dense) return 0;
    if (D != 1) g = (-2.037662L + 5.747e-3L * t - 6.557892e-6L * t * t) * powl(fabsl(1 - D), 6.107361L - 1.074377e-2L * t + 1.268348e-5L * t * t);
    if (t > 155 && p < 1000) { LD x = (t - 155) / 300; g -= (powl(x, 4.8L) + af1 * powl(x, 16)) * (-1.504956e-10L * powl(1000 - p, 3) + 5.017997e-14L * powl(1000 - p, 4)); } return g; }
static LD omega(LD wr, int z, LD g) { const LD eta = 1.66027e5L; if (!z) return wr; LD re = (LD)z * z / (wr / eta + z / 3.082L) + abs(z) * g; return eta * ((LD)z * z / re - z / (3.082L + g)); }
static LD hkf(LD Gf, LD Sr, const std::vector<double>& h, LD w, LD Z, LD Zr, LD Yr, LD T, LD P) { const LD th = 228, psi = 2600, Tr = 298.15L; LD p = P / 1e5L, L = logl((psi + p) / (psi + 1));
    return 4.184L * (Gf / 4.184L - Sr / 4.184L * (T - Tr) - h[4] * (T * logl(T / Tr) - T + Tr) + h[0] * (p - 1) + h[1] * L - h[5] * ((1 / (T - th) - 1 / (Tr - th)) * ((th - T) / th) - T / (th * th) * logl(Tr * (T - th) / (T * (Tr - th)))) + (h[2] * (p - 1) + h[3] * L) / (T - th) - w * (Z + 1) + (LD)h[6] * (Zr + 1) + (LD)h[6] * Yr * (T - Tr)); }
static Report t05() {
    bool TH = mc::options().thorough();
    static std::vector<Water> waters = {W25, {1010.0L, 4e-4L, 4e-6L, 3.0e-10L}, {950.0L, 1e-4L, 1.3e-5L, 6e-10L}, {1000.0L, 0, 0, 0, 298.15L, 1e5L}}; static std::vector<Dielectric> diel = {D25, {78, 4.6e-3L, 1e-6L, 5e-10L}, {60, 0, 0, 0}};
    static std::vector<double> Ts = {283.15, 298.15, 330, 400, 427, 430, 473.15, 573.15, 626, 640, 720}, Ps = {1e5, 5e6, 4e7, 5.5e7, 9.9e7, 1.01e8, 3e8, 1e9}; if (TH) { for (double T : {273.15, 310., 360., 450., 520., 600., 680., 800., 1000.}) Ts.push_back(T); for (double P : {1e6, 2e7, 7e7, 2e8, 5e8, 3e9}) Ps.push_back(P); }
    struct Case { std::string name; std::function<void(Report&)> run; }; static std::vector<Case> cases;
    auto judge = [](Report& r, const std::string& name, const std::string& lab, double T, double P, const ThermoPropertiesSubstance& t, const std::function<LD(LD, LD)>& G, const std::function<LD(LD, LD)>& alt, LD off, double rel, bool vol = true) {
        r.states++; r.transitions++; r.traces++; r.nontrivial++; auto w = derive(G, T, P), a = alt ? derive(alt, T, P) : w; LD H = w.G + (LD)T * w.S - off, H2 = a.G + (LD)T * a.S - off;
        auto cmp = [&](const char* q, const ThermoScalar& x, LD want, LD other, LD scale) { LD tol = rel * scale + 3 * fabsl(want - other); if (!(fabsl(x.val - want) <= tol)) r.violation(std::string(q) + ":" + name, lab + ": " + q + " is " + mc::num(x.val) + ", the equation gives " + mc::num((double)want), lab); if (!defined(x)) r.violation(std::string(q) + ":undefined:" + name, lab + ": " + q + " is not defined", lab); };
        LD e = fabsl(w.G) + fabsl(H) + 1e4L; cmp("G", t.gibbs_energy, w.G, a.G, e); cmp("H", t.enthalpy, H, H2, e); cmp("S", t.entropy, w.S, a.S, e / T * 10); cmp("Cp", t.heat_capacity_cp, w.Cp, a.Cp, e / T * 1e2 + 1e2 * fabsl(w.Cp)); if (vol) cmp("V", t.volume, w.V, a.V, 1e3L * (1 + fabsl(w.V)));
        if (defined(t.internal_energy)) { LD U = t.enthalpy.val - P / 1e5L * t.volume.val; cmp("U", t.internal_energy, U, U, e + P / 1e5L * fabsl((LD)t.volume.val)); if (defined(t.helmholtz_energy)) { U -= (LD)T * t.entropy.val; cmp("A", t.helmholtz_energy, U, U, e + P / 1e5L * fabsl((LD)t.volume.val)); } } };
    // HKF, both implementations
    std::vector<std::vector<double>> hs = each({0.18390, -228.5, 3.256, -27260, 18.18, -29810, 33060}); for (auto& h : each({0.5, 594, 5.1, -3e4, 30, 5e4, 1.5e5})) hs.push_back(h);
    for (int z = -4; z <= 4; ++z) for (auto& h : hs) for (int reak : {0, 1}) { std::string name = std::string(reak ? "hkf-reaktoro" : "hkf-gems") + (z ? z > 0 ? "-cation" : "-anion" : "-neutral");
        cases.push_back({name, [=](Report& r) { for (auto& w : waters) for (auto& d : diel) { if (!TH && &w != &waters[0] && &d != &diel[0]) continue;
            Substance s = synth::aqueous(z % 2 ? "HQ" : "Q", "SiO2@", reak ? MG::CTPM_HKFR : MG::CTPM_HKF, synth::ref(-131000, -240000, 58.4, 0, 0)); s.setCharge(z); auto p = s.thermoParameters(); p.HKF_parameters = h; if (h[0] != 0) p.HKF_parameters.push_back(z); s.setThermoParameters(p);
            for (double T : Ts) for (double P : Ps) { LD D = w.rho(T, P) / 1000; if (D > 1.35L) continue; LD re = z ? (LD)z * z / (h[6] / 1.66027e5L + z / 3.082L) : 0; LD g = gfun(T, P, D, !reak, 36.66666L); if (z && (re + abs(z) * g < 0.3L || re <= 0)) continue; if (3.082L + g < 0.5L) continue; if (fabsl(D - 1) < 2e-3L && (w.a0 != 0)) continue;
                std::string lab = name + ", charge " + std::to_string(z) + ", parameters " + eng::dump(h) + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"; mc::visiting(lab);
                auto ws = w.at(T, P); auto es = d.at(T, P); auto t = reak ? SoluteHKFreaktoro(s).thermoProperties(T, P, ws, es) : SoluteHKFgems(s).thermoProperties(T, P, ws, es);
                auto G = [&](LD Zr, LD Yr, LD af1) { return [&, Zr, Yr, af1](LD T, LD P) { return hkf(-131000, 58.4L, h, omega(h[6], z, gfun(T, P, w.rho(T, P) / 1000, !reak, af1)), d.Z(T, P), Zr, Yr, T, P); }; };
                judge(r, name, lab, T, P, t, G(-0.01278034682L, -5.798650444e-5L, 36.66666L), reak ? std::function<LD(LD, LD)>(G(-0.01278055636L, -5.795424563e-5L, 36.6666L)) : nullptr, -131000 + 240000 + 298.15L * 58.4L, 1e-8); 
                // the two implementations, where both are meant to hold
                if (!reak && D < 1) { auto u = SoluteHKFreaktoro(s).thermoProperties(T, P, ws, es); auto pt = props(t), pu = props(u); LD dw = fabsl((LD)h[6]) * 4.184L * 4e-8L * fabsl(T - 298.15L) + fabsl((LD)h[6]) * 4.184L * 1.1e-5L; r.transitions++;
                    for (size_t i = 0; i < pt.size(); ++i) { double sc = pt[i].first == "S" || pt[i].first == "Cp" || pt[i].first == "V" || pt[i].first == "Cv" ? 1e-2 : 1; if (!mc::close(pt[i].second->val, pu[i].second->val, 2e-5, sc * (double)(dw + 2.0L)) || pt[i].second->sta.first != pu[i].second->sta.first) r.violation("implementations:" + pt[i].first, lab + ": " + pt[i].first + " is " + mc::num(pt[i].second->val) + " in one implementation, " + mc::num(pu[i].second->val) + " in the other", lab); } }
            } } }}); }
    // density models
    struct RV { double G, H, S, Cp, V; }; std::vector<RV> rv = {{-833411, -887900, 41.3, 50, 1.6}, {0, 0, 0, 0, 0}, {-1000, 2000, -30, 0, 0.7}, {5, 5, 5, -120, 0}, {0, 0, 0, 80, -1}};
    for (auto& f : rv) for (auto& w : waters) { if (w.a1 == 0) continue; for (double b : {0.0, 0.0283, -0.11}) for (int an : {0, 1}) { if (an && b != 0) continue; std::string name = an ? "anderson" : "holland-powell";
        cases.push_back({name, [=](Report& r) { Substance s = synth::aqueous("Q", "SiO2@", an ? MG::CTPM_AN91 : MG::CTPM_HP98, synth::ref(f.G, f.H, f.S, f.Cp, f.V)); for (double Tr : {298.15, 310.0}) { s.setReferenceT(Tr); auto p = s.thermoParameters(); p.solute_holland_powell98_coeff = {b}; s.setThermoParameters(p); auto ref = w.at(Tr, 1e5);
            for (double T : Ts) for (double P : Ps) { std::string lab = name + ", G, H, S, Cp, V, b " + mc::num6(f.G) + "," + mc::num6(f.H) + "," + mc::num6(f.S) + "," + mc::num6(f.Cp) + "," + mc::num6(f.V) + "," + mc::num6(b) + " from " + mc::num6(Tr) + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"; mc::visiting(lab);
                auto ws = w.at(T, P); auto t = an ? SoluteAnderson91(s).thermoProperties(T, P, ref, ws) : SoluteHollandPowell98(s).thermoProperties(T, P, ref, ws); LD al = ref.Alpha.val, be = ref.Beta.val * 1e5L, da = ref.dAldT.val, r0 = ref.density.val; bool low = T <= 500;
                auto G = [&](LD T, LD P) -> LD { LD l = logl(w.rho(T, P) / r0); if (an) return f.G - f.S * (T - Tr) + f.Cp / (Tr * da) * (al * (T - Tr) + l); return f.G - (T - Tr) * f.S + P / 1e5L * f.V + b * (Tr * T - (LD)Tr * Tr / 2 - T * T / 2) + (f.Cp - Tr * b) / (Tr * da) * (al * (T - Tr) - be * P / 1e5L + (low ? 1 : T / 500) * l); };
                judge(r, name, lab, T, P, t, G, nullptr, f.G - f.H + (LD)Tr * f.S, 1e-8, !an); } } }}); } }
    // Akinfiev and Diamond
    for (auto& c : each({-0.3, -12.5, 9.1}, -0.4)) for (auto& w : waters) cases.push_back({"akinfiev-diamond", [=](Report& r) { const LD M = 18.01528L, RC = modelR;
        auto quad = [](LD G, LD S, LD Cp, LD T) { return G - S * (T - 298.15L) - Cp * (T * logl(T / 298.15L) - (T - 298.15L)); }; auto Gig = [=](LD T) { return quad(-228500, 188.8L, 33.6L, T); };
        auto Gw = [=](LD T, LD P) { LD dp = (P - w.P0); return quad(-237100, 69.9L, 75.3L, T) + M * 1e-3L * (w.b != 0 ? -expm1l(-w.b * dp) / (w.b * w.rho(T, w.P0)) : dp / w.rho(T, w.P0)); };
        auto tps = [&](const std::function<LD(LD, LD)>& G, double T, double P) { auto o = derive(G, T, P); return synth::ref((double)o.G, (double)(o.G + T * o.S), (double)o.S, (double)o.Cp, (double)o.V); }; auto ig = [=](LD T, LD) { return Gig(T); };
        Substance s = synth::aqueous("Q", "CO2@", MG::CTPM_CPT, synth::ref(-394400, -393500, 213.8, 37.1, 0)); s.setMethod_P(MP::CPM_AKI); auto p = s.thermoParameters(); p.Cp_nonElectrolyte_coeff = c; s.setThermoParameters(p);
        auto geos = [=](LD T, LD P) -> LD { LD lf = (Gw(T, P) - Gig(T)) / (RC * T), q = w.rho(T, P) / 1000; return RC * T * (-logl(1000 / M) + (1 - c[0]) * lf + c[0] * logl(83.1451L * T / M * q) + q * (c[1] + c[2] * sqrtl(1000 / T))); }; auto e0 = derive(geos, 298.15L, 1e5L);
        auto dissolved = [=](LD T, LD) { return quad(-394400, 213.8L, 37.1L, T); };
        for (double T : Ts) for (double P : Ps) { std::string lab = "akinfiev-diamond, parameters " + eng::dump(c) + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"; mc::visiting(lab); auto base = derive(dissolved, T, P);
            auto in = synth::ref((double)base.G, (double)(base.G + T * base.S + 394400 - 393500 - 298.15L * 213.8L), (double)base.S, (double)base.Cp, 0);
            auto t = SoluteAkinfievDiamondEOS(s).thermoProperties(T, P, in, tps(Gw, T, P), tps(ig, T, P), w.at(T, P), tps(Gw, 298.15, 1e5), tps(ig, 298.15, 1e5), w.at(298.15, 1e5));
            judge(r, "akinfiev-diamond", lab, T, P, t, [&](LD T, LD P) { return dissolved(T, P) - e0.G + e0.S * (T - 298.15L) + geos(T, P); }, nullptr, -394400 + 393500 + 298.15L * 213.8L, 3e-8); } }});
    // what the calculator uses the models with
    static const std::vector<std::string> solvents = {"H2O@", "W-HGKr", "W-WP95", "W-Sverj", "W-Fern"};
    std::vector<std::string> names; for (auto& kv : db->mapSubstances()) if (kv.second.substanceClass() == SC::type::AQSOLUTE) names.push_back(kv.first);
    for (auto& n : names) cases.push_back({"calculator", [=](Report& r) { for (auto& sv : solvents) { if (!db->containsSubstance(sv)) continue; ThermoEngine e(*db), o(*db); e.setSolventSymbol(sv); Substance s = db->getSubstance(n), w = db->getSubstance(sv); double Tr = w.referenceT(), Pr = w.referenceP();
        for (double T : {298.15, 353.15, 473.15, 573.15}) for (double P : {2e7, 1e8, 2.5e8}) { std::string lab = "calculator, " + n + " in " + sv + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"; mc::visiting(lab); ThermoPropertiesSubstance t, u; bool known = true;
            try { double p = P; t = e.thermoPropertiesSubstance(T, p, s); double q = P; auto ws = o.propertiesSolvent(T, q, sv, 0);
                if (s.thermoCalculationType() == SubstanceThermoCalculationType::type::REACDC || s.symbol() == "H+") continue;
                if (s.methodGenEOS() == MG::CTPM_HKF) u = SoluteHKFgems(s).thermoProperties(T, P, ws, o.electroPropertiesSolvent(T, q, sv, 0)); else if (s.methodGenEOS() == MG::CTPM_HKFR) u = SoluteHKFreaktoro(s).thermoProperties(T, P, ws, o.electroPropertiesSolvent(T, q, sv, 0));
                else { double pr = Pr; auto wr = o.propertiesSolvent(Tr, pr, sv, 0); if (s.methodGenEOS() == MG::CTPM_HP98) u = SoluteHollandPowell98(s).thermoProperties(T, P, wr, ws); else if (s.methodGenEOS() == MG::CTPM_AN91) u = SoluteAnderson91(s).thermoProperties(T, P, wr, ws);
                    else if (s.methodGenEOS() == MG::CTPM_CPT && s.method_P() == MP::CPM_AKI) { double pr2 = Pr; auto wt = o.thermoPropertiesSubstance(T, q, sv), wtr = o.thermoPropertiesSubstance(Tr, pr2, sv); u = SoluteAkinfievDiamondEOS(s).thermoProperties(T, P, EmpiricalCpIntegration(s).thermoProperties(T, P), wt, WaterIdealGasWoolley(w).thermoProperties(T, P), ws, wtr, WaterIdealGasWoolley(w).thermoProperties(Tr, Pr), wr); } else known = false; }
            } catch (const std::exception& x) { continue; }
            if (!known) continue; r.states++; r.transitions += 2; r.traces++; r.nontrivial++; auto a = eng::snap(t), b = eng::snap(u); if (!eng::closeTo(a, b, 1e-12, 1e-9)) r.violation("calculator:" + n, lab + ": " + eng::diff(a, b), lab); } } }});
    return mc::parallel(cases.size(), [](size_t n, Report& r) { if (n % 211 == 0) r.sample(cases[n].name + ", over " + std::to_string(Ts.size()) + " temperatures and " + std::to_string(Ps.size()) + " pressures"); cases[n].run(r); }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }

// ---------------------------------------------------------------- T01
// n-point Gauss-Legendre rule on [a,b] for several integrands at once
static void rule(int n, LD a, LD b, std::vector<std::pair<LD, LD>>& out) {
    static std::map<int, std::vector<std::pair<LD, LD>>> memo; auto& m = memo[n];
    if (m.empty()) for (int i = 0; i < n; ++i) { LD x = cosl(3.14159265358979323846264L * (i + 0.75L) / (n + 0.5L)), dp = 0; for (int k = 0; k < 60; ++k) { LD p0 = 1, p1 = x; for (int j = 2; j <= n; ++j) { LD p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p2; } dp = n * (x * p1 - p0) / (x * x - 1); x -= p1 / dp; } m.push_back({x, 2 / ((1 - x * x) * dp * dp)}); }
    out.clear(); for (auto& q : m) out.push_back({(a + b) / 2 + (b - a) / 2 * q.first, (b - a) / 2 * q.second}); }

static Report t01() {
    bool TH = mc::options().thorough();
    struct DB { std::string name; Database d; }; static std::vector<std::shared_ptr<DB>> dbs; struct Item { size_t db; std::string sym; }; static std::vector<Item> items;
    auto add = [](const std::string& n, const Database& d) { dbs.push_back(std::make_shared<DB>(DB{n, d})); };
    add("mini", *db);
    for (auto f : {"aq17", "cemdata18", "heracles", "mines16", "psinagra-12-07", "slop98-organic", "slop98"}) add(f, Database(mc::options().repo + "/Resources/databases/" + f + "-thermofun.json"));
    for (size_t i = 0; i < dbs.size(); ++i) for (auto& kv : dbs[i]->d.mapSubstances()) items.push_back({i, kv.first});
    static std::vector<std::shared_ptr<ThermoEngine>> engines; engines.resize(dbs.size());
    return mc::parallel(items.size(), [=](size_t n, Report& r) {
        auto& it = items[n]; if (!engines[it.db]) engines[it.db] = std::make_shared<ThermoEngine>(dbs[it.db]->d); auto& e = *engines[it.db]; Substance s = dbs[it.db]->d.getSubstance(it.sym);
        auto cls = s.substanceClass(); auto agg = s.aggregateState(); bool aq = cls == SC::type::AQSOLUTE, reac = s.thermoCalculationType() == SubstanceThermoCalculationType::type::REACDC, gas = cls == SC::type::GASFLUID || agg == AS::type::GAS || agg == AS::type::PLASMA || agg == AS::type::FLUID;
        if (cls == SC::type::AQSOLVENT || s.symbol() == "H+") return;
        // steam has water's constants too
        auto mt = s.method_T(); bool steam = mt == MT::CTM_WAT || mt == MT::CTM_WAR || mt == MT::CTM_WWP || mt == MT::CTM_WZD;
        auto mp = s.method_P(); if (gas && !(mp == MP::type(0) || mp == MP::CPM_CON || mp == MP::CPM_GAS || mp == MP::CPM_OFF) ) return;
        auto par = s.thermoParameters(); std::string combo = reac ? "reaction" : std::to_string(int(s.methodGenEOS())) + "." + std::to_string(int(s.method_T())) + "." + std::to_string(int(mp));
        std::string rec = dbs[it.db]->name + " " + it.sym; if (n % 307 == 0) r.sample(rec + ", all edges of its T-P lattice");
        bool wet = aq || reac;
        std::vector<double> Ts = wet ? std::vector<double>{283.15, 299.15, 353.15, 428.15, 500, 573.15} : std::vector<double>{262, 299.15, 350, 500, 750, 1200, 1700}, Ps = wet ? std::vector<double>{2e7, 1e8, 3e8} : gas ? std::vector<double>{1e5} : std::vector<double>{2e5, 5e7, 3e8, 1.2e9};
        if (TH) { if (wet) { for (double T : {320., 390., 465., 540., 610.}) Ts.push_back(T); for (double P : {4e7, 6e7, 1.5e8, 4.5e8}) Ps.push_back(P); } else { for (double T : {280., 320., 420., 600., 900., 1000., 1400., 2000.}) Ts.push_back(T); if (!gas) for (double P : {1e6, 1e7, 1e8, 6e8, 2.5e9}) Ps.push_back(P); } }
        for (auto& i : par.temperature_intervals) if (i.size() > 1) for (double T : i) if (T > Ts[0] && T < 1700) Ts.push_back(T);
        for (auto& p : par.phase_transition_prop) if (p.size() && p[0] > Ts[0] && p[0] < 1700) Ts.push_back(p[0]);
        std::sort(Ts.begin(), Ts.end()); Ts.erase(std::unique(Ts.begin(), Ts.end()), Ts.end()); std::sort(Ps.begin(), Ps.end());
        double tc0 = 0, dtc = 0; if (s.method_T() == MT::CTM_CHP && par.m_landau_phase_trans_props.size() > 2) { tc0 = par.m_landau_phase_trans_props[0] + 273.15; dtc = par.m_landau_phase_trans_props[2] / par.m_landau_phase_trans_props[1] / 1e5; }
        struct Q { LD G, H, S, Cp, V, U, A; bool d[7]; bool ok; };
        auto at = [&](LD T, LD P) { Q q; q.ok = false; r.transitions++; try { double p = (double)P; auto t = e.thermoPropertiesSubstance((double)T, p, s); int i = 0; for (auto* x : {&t.gibbs_energy, &t.enthalpy, &t.entropy, &t.heat_capacity_cp, &t.volume, &t.internal_energy, &t.helmholtz_energy}) q.d[i++] = defined(*x); q.G = t.gibbs_energy.val; q.H = t.enthalpy.val; q.S = t.entropy.val; q.Cp = t.heat_capacity_cp.val; q.V = t.volume.val; q.U = t.internal_energy.val; q.A = t.helmholtz_energy.val; q.ok = true; } catch (const std::exception&) {} return q; };
        std::map<std::pair<double, double>, Q> corner; for (double T : Ts) for (double P : Ps) { mc::visiting(rec + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"); auto q = at(T, P); corner[{T, P}] = q; if (!q.ok) continue; r.states++; std::string lab = rec + " at " + mc::num6(T) + " K, " + mc::num6(P) + " Pa"; LD sc = 1e-11L * (fabsl(q.G) + fabsl(q.H) + fabsl(T * q.S) + P / 1e5L * fabsl(q.V) + 1);
            // water's energies count from published constants of their own, which reactions with water pass on
            std::function<std::pair<LD, LD>(const std::string&, int)> off = [&](const std::string& sym, int depth) -> std::pair<LD, LD> { if (sym == "H2O@") { double p = P; auto t = e.thermoPropertiesSubstance(T, p, sym); LD u = t.internal_energy.val - (t.enthalpy.val - P / 1e5L * t.volume.val); return {u, t.helmholtz_energy.val - (t.enthalpy.val - P / 1e5L * t.volume.val - (LD)T * t.entropy.val)}; }
                auto& d = dbs[it.db]->d; if (depth > 20 || !d.containsSubstance(sym)) return {0, 0}; auto x = d.getSubstance(sym); if (x.thermoCalculationType() != SubstanceThermoCalculationType::type::REACDC || !d.containsReaction(x.reactionSymbol())) return {0, 0}; auto y = d.getReaction(x.reactionSymbol()).reactants(); LD own = y[sym]; if (own == 0) return {0, 0}; std::pair<LD, LD> o{0, 0}; for (auto& kv : y) if (kv.first != sym) { auto f = off(kv.first, depth + 1); o.first -= kv.second * f.first / own; o.second -= kv.second * f.second / own; } return o; };
            LD pv = P / 1e5L * q.V, du = q.U - (q.H - pv), da = q.A - (q.H - pv - T * q.S); std::string pass; if (reac && ((q.d[5] && fabsl(du) > sc) || (q.d[6] && fabsl(da) > sc))) { auto f = off(it.sym, 0); LD s2 = 1e-8L * (fabsl(q.H) + fabsl(q.U) + fabsl(q.A) + 1); if ((f.first || f.second) && (!q.d[5] || fabsl(du - f.first) <= s2) && (!q.d[6] || fabsl(da - f.second) <= s2)) pass = ":constants-of-water"; }
            if (!steam && q.d[5] && !(fabsl(q.U - (q.H - P / 1e5L * q.V)) <= sc)) r.violation("U:" + combo + pass, lab + ": internal energy is " + mc::num((double)q.U) + ", H - PV is " + mc::num((double)(q.H - P / 1e5L * q.V)), lab);
            if (!steam && q.d[6] && !(fabsl(q.A - (q.H - P / 1e5L * q.V - T * q.S)) <= sc)) r.violation("A:" + combo + pass, lab + ": Helmholtz energy is " + mc::num((double)q.A) + ", U - TS is " + mc::num((double)(q.H - P / 1e5L * q.V - T * q.S)), lab); }
        auto judge = [&](const std::string& key, const std::string& lab, LD change, LD i1, LD i2, LD size, LD mag) { r.states++; r.traces++; LD tol = 1e-8L * size + 1e-5L * mag + 4 * fabsl(i1 - i2) + (reac ? 0.05L : 1e-3L); if (fabsl(i2) > 100 * tol) r.nontrivial++;
            if (!(fabsl(change - i2) <= tol)) { r.violation(key + ":" + combo, lab + ": changes by " + mc::num((double)change) + ", the integral is " + mc::num((double)i2) + " (+- " + mc::num6((double)tol) + ")", lab); } };
        std::vector<std::pair<LD, LD>> ra, rb; const int n1 = TH ? 10 : 6, n2 = TH ? 16 : 10;
        // along temperature
        for (size_t i = 0; i + 1 < Ts.size(); ++i) for (double P : Ps) { double a = Ts[i], b = Ts[i + 1]; double cut = 1e-6; if (b - a < 1e-3) continue; double tc = tc0 ? tc0 + dtc * (P - 1e5) : 0; if (tc && a < tc + 5 && b > tc - 40) continue;
            // stay inside: properties at a border belong to one side
            LD ea = a + cut, eb = b - cut; auto qa = at(ea, P), qb = at(eb, P); if (!qa.ok || !qb.ok) continue; LD s1 = 0, s2 = 0, c1 = 0, c2 = 0; bool ok = true; bool hs = qa.d[0] && qa.d[2], hc = qa.d[1] && qa.d[3]; LD ms = 0, mc_ = 0;
            rule(n1, ea, eb, ra); rule(n2, ea, eb, rb); for (auto& x : ra) { auto q = at(x.first, P); ok = ok && q.ok; s1 -= x.second * q.S; c1 += x.second * q.Cp; } for (auto& x : rb) { auto q = at(x.first, P); ok = ok && q.ok; s2 -= x.second * q.S; c2 += x.second * q.Cp; ms += x.second * fabsl(q.S); mc_ += x.second * fabsl(q.Cp); }
            if (!ok) continue; std::string lab = rec + " from " + mc::num6(a) + " to " + mc::num6(b) + " K at " + mc::num6(P) + " Pa"; mc::visiting(lab);
            if (hs) judge("G-S", lab + ": Gibbs energy and entropy", qb.G - qa.G, s1, s2, fabsl(qa.G), ms); if (hc) judge("H-Cp", lab + ": enthalpy and heat capacity", qb.H - qa.H, c1, c2, fabsl(qa.H), mc_); }
        // along pressure
        if (!gas) for (double T : Ts) for (size_t i = 0; i + 1 < Ps.size(); ++i) { double a = Ps[i], b = Ps[i + 1]; LD t = T + 1e-6L; if (tc0) { double ca = tc0 + dtc * (a - 1e5), cb = tc0 + dtc * (b - 1e5); if (T > std::min(ca, cb) - 40 && T < std::max(ca, cb) + 5) continue; }
            auto qa = at(t, a), qb = at(t, b); if (!qa.ok || !qb.ok || !qa.d[0] || !qa.d[4]) continue; LD v1 = 0, v2 = 0, mv = 0; bool ok = true; rule(n1, a, b, ra); rule(n2, a, b, rb); for (auto& x : ra) { auto q = at(t, x.first); ok = ok && q.ok; v1 += x.second * q.V / 1e5L; } for (auto& x : rb) { auto q = at(t, x.first); ok = ok && q.ok; v2 += x.second * q.V / 1e5L; mv += x.second * fabsl(q.V) / 1e5L; }
            if (!ok) continue; std::string lab = rec + " from " + mc::num6(a) + " to " + mc::num6(b) + " Pa at " + mc::num6(T) + " K"; mc::visiting(lab); judge("G-V", lab + ": Gibbs energy and volume", qb.G - qa.G, v1, v2, fabsl(qa.G), mv); }
    }, [](const std::string& l) { return l.substr(0, l.find(" at ")); }); }

int main(int argc, char** argv) {
    mc::init(argc, argv); Report r; auto& m = mc::options().mode;
    std::string full = readJson("mini.json").dump(); db = new Database(full); for (auto& x : {synth::an91(), synth::hp98(), synth::bm(), synth::berman()}) db->addSubstance(x);
    if (m == "T01") r = t01(); if (m == "T02") r = t02(); if (m == "T05") r = t05(); if (m == "T03") r = t03(); if (m == "T04") r = t04();
    return mc::finish(r);
}
