// T07: the equations of state of water.
#include <cstring>
#include "phys.hpp"
#include <ThermoModelsSolvent.h>
#include <ThermoModelsSubstance.h>
#include <Substances/Solvent/Reaktoro/WaterUtils.hpp>
#include <Substances/Solvent/WaterHGKreaktoro.h>
#include <Substances/Solvent/Reaktoro/WaterHelmholtzState.hpp>
#include <Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.hpp>
#include <Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.hpp>
using namespace phys; using mc::Report;
typedef Reaktoro_::Temperature RT; typedef Reaktoro_::Pressure RP; typedef Reaktoro_::ThermoScalar RS;

enum Impl { GEMS, HGK, WP, NIMPL };
static const char* nameOf[] = {"hgk-gems", "hgk-reaktoro", "wagner-pruss"};
struct Pt { bool ok = false; std::string err; double T = 0, P = 0; ThermoPropertiesSubstance t; PropertiesSolvent s; };
static PropertiesSolvent blankS() { PropertiesSolvent s{}; return s; }
static Pt get(int k, double T, double P, int state, const std::string& triple = "NEA_HGK") {
    Pt p; p.T = T; static Substance w; double q = P, q2 = P; p.s = blankS();
    try {
        if (k == GEMS) { WaterHGK m(w); p.t = m.thermoPropertiesSubstance(T, q, state, triple); p.s = m.propertiesSolvent(T, q2, state, triple); }
        if (k == HGK) { WaterHGKreaktoro m(w); p.t = m.thermoPropertiesSubstance(T, q, state, triple); p.s = m.propertiesSolvent(T, q2, state); }
        if (k == WP) { WaterWP95reaktoro m(w); p.t = m.thermoPropertiesSubstance(T, q, state, triple); p.s = m.propertiesSolvent(T, q2, state); }
        p.P = q; p.ok = true; if (q != q2) { p.ok = false; p.err = "pressure " + mc::num(q) + " with the energies, " + mc::num(q2) + " with the density"; } }
    catch (const std::exception& e) { p.err = eng::clean(e.what()); }
    return p; }

// saturation pressure (Wagner & Pruss), Pa
static LD psat(LD T) { LD t = 1 - T / 647.096L; if (t <= 0) return 22.064e6L; return 22.064e6L * expl(647.096L / T * (-7.85951783L * t + 1.84408259L * powl(t, 1.5L) - 11.7866497L * t * t * t + 22.6807411L * powl(t, 3.5L) - 15.9618719L * powl(t, 4) + 1.80122502L * powl(t, 7.5L))); }
static int phase(LD T, LD P) { return T > 647.096L ? 2 : P < psat(T) ? 1 : 0; }
static const char* phaseName[] = {"liquid", "vapour", "fluid"};
static const double M = 0.018015268;

typedef std::vector<std::pair<std::string, RS>> Fields;
static Fields fields(const Pt& p) { Fields f; for (auto& q : props(p.t)) f.push_back({q.first, *q.second}); auto& s = p.s; for (auto& q : std::initializer_list<std::pair<const char*, RS>>{{"density", s.density}, {"densityT", s.densityT}, {"densityP", s.densityP}, {"densityTT", s.densityTT}, {"densityTP", s.densityTP}, {"densityPP", s.densityPP}, {"Alpha", s.Alpha}, {"Beta", s.Beta}, {"dAldT", s.dAldT}, {"pressure", s.pressure}}) f.push_back({q.first, q.second}); return f; }
static LD four(const std::vector<LD>& v, LD h, LD& err) { err = fabsl((v[2] - v[1]) / (2 * h) - (v[3] - v[0]) / (4 * h)); return (8 * (v[2] - v[1]) - (v[3] - v[0])) / (12 * h); }
static void carriedAll(Report& r, const std::string& nm, const std::string& pn, const std::string& lab, const Pt& p, const std::vector<Pt>& a, const std::vector<Pt>& b, LD hT, LD hP, LD tol = 1e-5L) {
    auto f = fields(p); std::vector<Fields> fa, fb; for (auto& q : a) fa.push_back(fields(q)); for (auto& q : b) fb.push_back(fields(q));
    for (size_t i = 0; i < f.size(); ++i) { if (!defined(f[i].second)) continue; if (f[i].first == "densityPP" && p.P < 3e4) continue; for (int z = 0; z < 2; ++z) { std::vector<LD> v; for (auto& q : z ? fb : fa) v.push_back(q[i].second.val); LD err, d = four(v, z ? hP : hT, err), got = z ? f[i].second.ddp : f[i].second.ddt, scale = fabsl((LD)f[i].second.val) / (z ? fabsl((LD)p.P) + 1e5L : p.T);
        if (!(fabsl(d - got) <= tol * fabsl(d) + err + 1e-7L * scale)) r.violation(nm + ":carried-" + (z ? "dP:" : "dT:") + f[i].first + pn, lab + ": the " + (z ? "pressure" : "temperature") + " derivative carried with " + f[i].first + " is " + mc::num((double)got) + ", the value changes by " + mc::num((double)d) + " per unit", lab); } } }

static Report t07() {
    bool thorough = mc::options().thorough();
    std::vector<double> Ts = {273.16, 278.15, 298.15, 323.15, 348.15, 373.15, 423.15, 473.15, 523.15, 573.15, 603.15, 623.15, 640, 660, 673.15, 723.15, 773.15, 873.15, 973.15, 1073.15, 1273.15};
    std::vector<double> Ps = {0.001, 0.01, 0.1, 1, 5, 20, 60, 100, 150, 200, 250, 300, 400, 500, 750, 1000, 1500, 2000, 3000, 4000, 5000};
    if (thorough) { auto dense = [](std::vector<double>& v, int m) { std::vector<double> w; for (size_t i = 0; i + 1 < v.size(); ++i) for (int j = 0; j < m; ++j) w.push_back(v[i] + (v[i + 1] - v[i]) * j / m); w.push_back(v.back()); v = w; }; dense(Ts, 3); dense(Ps, 3); }
    return mc::parallel(NIMPL * Ts.size(), [&](size_t item, Report& r) {
        int k = item % NIMPL; double T = Ts[item / NIMPL]; std::string nm = nameOf[k];
        auto bad = [&](const std::string& what, const std::string& lab, const std::string& msg) { r.violation(nm + ":" + what, lab + ": " + msg, lab); };
        auto chk = [&](const std::string& what, const std::string& lab, LD got, LD want, LD tol) { if (!(fabsl(got - want) <= tol)) bad(what, lab, "is " + mc::num((double)got) + ", expected " + mc::num((double)want) + ", off by " + mc::num6((double)(got - want)) + " (" + mc::num6((double)((got - want) / want)) + " relative)"); };
        std::vector<double> Pq = Ps; if (T > 275 && T < 635) for (double f : {-0.9, -0.97, -0.999, -1.001, -1.03}) Pq.push_back(f);   // the same fractions of the saturation pressure, in the metastable phase
        for (double Pb : Pq) { bool meta = Pb < 0; double P = meta ? (double)(-Pb * psat(T)) : Pb * 1e5; int ph = meta ? Pb < -1 : phase(T, P); if (meta) Pb = P / 1e5; if (!meta && fabsl(P / psat(T) - 1) < 0.02L) continue; if (k == GEMS && Pb < 0.0062) continue; if (k != WP && T < 278 && Pb == 5000) continue;
            std::string lab = nm + ", " + (meta ? "metastable " : "") + phaseName[ph] + " at " + mc::num6(T) + " K, " + mc::num6(Pb) + " bar"; mc::visiting(lab); r.states++; r.transitions += 2; r.traces++; r.nontrivial++;
            Pt p = get(k, T, P, ph == 1 ? 1 : 0); if (!p.ok) { bad(std::string("fails:") + phaseName[ph], lab, p.err); continue; }
            std::string pn = std::string(":") + (meta ? "metastable-" : "") + phaseName[ph];
            auto val = [](const RS& s) { return (LD)s.val; };
            LD cal = k == GEMS ? 5e-4L : 1e-6L, cal2 = k == GEMS ? 2e-3L : 2e-5L;
            LD rho = p.s.density.val, al = p.s.Alpha.val, be = p.s.Beta.val; auto& t = p.t;
            chk("pressure" + pn, lab, p.P, P, 1e-12L * P);
            chk("density*volume" + pn, lab, rho * val(t.volume) * 1e-5L, M, 1e-9L * M);
            chk("alpha" + pn, lab, al, -val(p.s.densityT) / rho, 1e-10L * fabsl(al)); chk("beta" + pn, lab, be, val(p.s.densityP) / rho, 1e-10L * fabsl(be)); LD tt = val(p.s.densityTT) / rho; chk("dAldT" + pn, lab, val(p.s.dAldT), al * al - tt, 1e-10L * (al * al + fabsl(tt)));
            LD Cp = val(t.heat_capacity_cp), Cv = val(t.heat_capacity_cv), V = val(t.volume); LD d = T * al * al / be * V * 1e-5L; chk("Cp-Cv" + pn, lab, Cp - Cv, d, cal * fabsl(Cp));
            if (val(t.gibbs_energy) != 0) { r.counters["G"]++; }
            // derivatives
            auto ok = [&](LD a, LD b) { if (meta) return b > 0 && !(k == GEMS && fabsl(b - psat(a)) < 4); return phase(a, b) == ph && b > 0 && (ph == 2 || fabsl(b / psat(a) - 1) > 1e-3L); };
            auto deriv = [&](const std::function<LD(const Pt&)>& f, bool temp, LD h, LD& out, LD& err) { LD v[4]; int i = 0; for (int n : {-2, -1, 1, 2}) { LD a = temp ? T + n * h : T, b = temp ? P : P + n * h; if (!ok(a, b)) return false; Pt q = get(k, (double)a, (double)b, ph == 1 ? 1 : 0); r.transitions += 2; if (!q.ok) return false; v[i++] = f(q); } out = (8 * (v[2] - v[1]) - (v[3] - v[0])) / (12 * h); err = fabsl((v[2] - v[1]) / (2 * h) - (v[3] - v[0]) / (4 * h)); return true; };
            LD hT = 0.1L, hP = ph == 0 ? std::max(P * 2e-3L, 5e4L) : P * 1e-3L, x, err; 
            auto rel = [&](const std::string& what, const std::function<LD(const Pt&)>& f, bool temp, LD want, LD tol) { if (deriv(f, temp, temp ? hT : hP, x, err)) chk(what + pn, lab, x, want, tol + err); else r.counters["skipped"]++; };
            rel("dG/dT", [&](const Pt& q) { return val(q.t.gibbs_energy); }, true, -val(t.entropy), cal * fabsl(val(t.entropy)));
            rel("dG/dP", [&](const Pt& q) { return val(q.t.gibbs_energy); }, false, V * 1e-5L, cal * V * 1e-5L);
            rel("dH/dT", [&](const Pt& q) { return val(q.t.enthalpy); }, true, Cp, cal * Cp);
            rel("dH/dP", [&](const Pt& q) { return val(q.t.enthalpy); }, false, V * 1e-5L * (1 - T * al), cal * V * 1e-5L * (1 + fabsl(1 - T * al)));
            rel("dS/dT", [&](const Pt& q) { return val(q.t.entropy); }, true, Cp / T, cal * Cp / T);
            rel("dA", [&](const Pt& q) { return val(q.t.helmholtz_energy) - val(q.t.gibbs_energy) + q.P * val(q.t.volume) * 1e-5L; }, true, 0, cal * fabsl(val(t.entropy)));
            rel("dU", [&](const Pt& q) { return val(q.t.internal_energy) - val(q.t.enthalpy) + q.P * val(q.t.volume) * 1e-5L; }, true, 0, cal * fabsl(val(t.entropy)));
            rel("dG-H+TS", [&](const Pt& q) { return val(q.t.gibbs_energy) - val(q.t.enthalpy) + q.T * val(q.t.entropy); }, true, 0, cal * fabsl(val(t.entropy)));
            rel("densityT", [&](const Pt& q) { return val(q.s.density); }, true, val(p.s.densityT), (k == GEMS ? 5e-3L : cal) * fabsl(val(p.s.densityT)));
            rel("densityP", [&](const Pt& q) { return val(q.s.density); }, false, val(p.s.densityP), (k == GEMS ? 2e-3L : cal) * fabsl(val(p.s.densityP)));
            rel("densityTT", [&](const Pt& q) { return val(q.s.densityT); }, true, val(p.s.densityTT), cal2 * fabsl(val(p.s.densityTT)));
            if (k == GEMS) { if (defined(p.s.densityTP) || defined(p.s.densityPP)) bad("densityTP", lab, "defined"); } else { rel("densityTP", [&](const Pt& q) { return val(q.s.densityT); }, false, val(p.s.densityTP), cal2 * fabsl(val(p.s.densityTP)));
            rel("densityPP", [&](const Pt& q) { return val(q.s.densityP); }, false, val(p.s.densityPP), cal2 * fabsl(val(p.s.densityPP))); }
            // the derivatives carried with every property are its derivatives
            if (k != GEMS) { auto at = [&](LD a, LD b) { r.transitions += 2; return get(k, (double)a, (double)b, ph == 1 ? 1 : 0); };
                bool in = true; for (int n : {-2, -1, 1, 2}) in = in && ok(T + n * hT, P) && ok(T, P + n * hP);
                if (in) { std::vector<Pt> a, b; for (int n : {-2, -1, 1, 2}) { a.push_back(at(T + n * hT, P)); b.push_back(at(T, P + n * hP)); in = in && a.back().ok && b.back().ok; } if (in) carriedAll(r, nm, pn, lab, p, a, b, hT, hP); } }
        }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }

// every derivative of the Helmholtz energy is the derivative of the next lower one; those of P = D^2 dA/dD included
static Report helm() {
    std::vector<double> Ts = {273.16, 298.15, 350, 423.15, 500, 573.15, 630, 645, 649, 670, 723.15, 800, 950, 1100, 1273.15}, Ds = {1e-3, 0.1, 1, 10, 50, 150, 250, 310, 335, 400, 550, 700, 800, 900, 958, 997, 1010, 1100, 1200};
    if (mc::options().thorough()) { std::vector<double> a, b; for (size_t i = 0; i + 1 < Ts.size(); ++i) for (int j = 0; j < 6; ++j) a.push_back(Ts[i] + (Ts[i + 1] - Ts[i]) * j / 6); for (size_t i = 0; i + 1 < Ds.size(); ++i) for (int j = 0; j < 6; ++j) b.push_back(Ds[i] + (Ds[i + 1] - Ds[i]) * j / 6); Ts = a; Ds = b; }
    return mc::parallel(2 * Ts.size(), [&](size_t item, Report& r) { bool wp = item % 2; double T = Ts[item / 2]; std::string nm = wp ? "helmholtz-wagner-pruss" : "helmholtz-hgk";
        auto eval = [&](LD t, LD d) { RS D((double)d); r.transitions++; return wp ? waterHelmholtzStateWagnerPruss(RT((double)t), D) : waterHelmholtzStateHGK(RT((double)t), D); };
        typedef WaterHelmholtzState H; typedef RS H::*Mb; struct Rel { const char* n; Mb f, d; bool T; };
        static const std::vector<Rel> rels = {{"T", &H::helmholtz, &H::helmholtzT, true}, {"D", &H::helmholtz, &H::helmholtzD, false}, {"TT", &H::helmholtzT, &H::helmholtzTT, true}, {"TD", &H::helmholtzT, &H::helmholtzTD, false}, {"DT", &H::helmholtzD, &H::helmholtzTD, true}, {"DD", &H::helmholtzD, &H::helmholtzDD, false}, {"TTT", &H::helmholtzTT, &H::helmholtzTTT, true}, {"TTD", &H::helmholtzTT, &H::helmholtzTTD, false}, {"TDD", &H::helmholtzTD, &H::helmholtzTDD, false}, {"DDT", &H::helmholtzDD, &H::helmholtzTDD, true}, {"DDD", &H::helmholtzDD, &H::helmholtzDDD, false}};
        for (double D : Ds) { std::string lab = nm + ", at " + mc::num6(T) + " K, " + mc::num6(D) + " kg/m3"; mc::visiting(lab); r.states++; r.traces++; r.nontrivial++; H h = eval(T, D); LD hT = 0.02L, hD = D * 2e-5L + 1e-4L * (D > 100); H v[2][4]; int i = 0; for (int n : {-2, -1, 1, 2}) { v[0][i] = eval(T + n * hT, D); v[1][i] = eval(T, D + n * hD); i++; }
            for (auto& q : rels) { auto& w = v[q.T ? 0 : 1]; LD d = (8 * ((LD)(w[2].*q.f).val - (w[1].*q.f).val) - ((LD)(w[3].*q.f).val - (w[0].*q.f).val)) / (12 * (q.T ? hT : hD)), got = (h.*q.d).val; LD hh = q.T ? hT : hD, fl = 1; { std::string o = q.n; o.pop_back(); if (std::string(q.n) == "DT" || std::string(q.n) == "DDT") { } for (char c : o) fl /= c == 'T' ? T : D; } LD noise = 5e-6L * fl / hh + fabsl(((LD)(w[2].*q.f).val - (w[1].*q.f).val) / (2 * hh) - ((LD)(w[3].*q.f).val - (w[0].*q.f).val) / (4 * hh)); if (!(fabsl(d - got) <= (strlen(q.n) == 3 ? 2e-5L : 1e-6L) * fabsl(d) + noise)) r.violation(nm + ":" + q.n, lab + ": the derivative " + q.n + " is " + mc::num((double)got) + ", numerically " + mc::num((double)d), lab);
                RS s = h.*q.f; LD c = s.ddt; if (q.T && !(fabsl(c - got) <= 1e-6L * fabsl(d) + 0.1L * noise)) r.violation(nm + ":carried:" + q.n, lab + ": carried derivative is " + mc::num((double)c) + ", the derivative is " + mc::num((double)got), lab); } }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }

// saturation line, agreement of the implementations, published values, Zhang & Duan, ideal gas, auxiliary functions
static Report more() {
    bool th = mc::options().thorough(); Report tot;
    std::vector<double> Ts; for (double T = 273.16; T < 647; T += th ? 2.5 : 12.5) Ts.push_back(T);
    auto sat = mc::parallel(NIMPL * Ts.size(), [&](size_t item, Report& r) { int k = item % NIMPL; double T = Ts[item / NIMPL]; std::string nm = nameOf[k], lab = nm + ", saturated at " + mc::num6(T) + " K"; mc::visiting(lab); r.states++; r.traces++; r.nontrivial++; r.transitions += 8;
        auto chk = [&](const std::string& what, LD got, LD want, LD tol) { if (!(fabsl(got - want) <= tol)) r.violation(nm + ":saturation:" + what, lab + ": is " + mc::num((double)got) + ", expected " + mc::num((double)want) + " (off by " + mc::num6((double)(got - want)) + ")", lab); };
        Pt l = get(k, T, 0, 0), v = get(k, T, 0, 1); if (!l.ok || !v.ok) { r.violation(nm + ":saturation:fails", lab + ": " + l.err + v.err, lab); return; }
        chk("pressure", l.P, psat(T), (k == GEMS ? 2e-3L : 1e-9L) * psat(T)); chk("pressures", v.P, l.P, 1e-12L * l.P);
        LD P = l.P; if (k != GEMS) { LD h = 0.01L; double t = T; RS q = waterSaturatedPressureWagnerPruss(RT(t)); chk("auxiliary pressure", q.val, psat(T), 1e-10L * P); chk("auxiliary pressure carried", q.ddt, (psat(T + h) - psat(T - h)) / (2 * h), 1e-6L * q.ddt); RS a = waterSaturatedLiquidDensityWagnerPruss(RT(t)), b = waterSaturatedVapourDensityWagnerPruss(RT(t)); if (T < 635) { chk("auxiliary liquid density", a.val, l.s.density.val, 2e-3L * a.val); chk("auxiliary vapour density", b.val, v.s.density.val, 5e-3L * b.val); } LD hg = saturatedWaterVaporPressureHGK(RT(t)).val; chk("auxiliary pressure HGK", hg, psat(T) / 1e5L, 3e-3L * hg); }
        // the phases are in equilibrium, and stay so along the line
        LD gl = l.t.gibbs_energy.val, gv = v.t.gibbs_energy.val; chk("G", gl, gv, 8); LD dH = v.t.enthalpy.val - (LD)l.t.enthalpy.val, dS = v.t.entropy.val - (LD)l.t.entropy.val, dV = v.t.volume.val - (LD)l.t.volume.val; chk("H", dH, T * dS, 4);
        if (T + 0.1 < 647) { LD h = 0.05L; LD pp = get(k, T + h, 0, 0).P; LD p0 = get(k, T - h < 273.16 ? 273.16 : T - h, 0, 0).P; LD dp = (pp - p0) / (T - h < 273.16 ? T + h - 273.16L : 2 * h) * 1e-5L; if (T < 640) chk("Clapeyron", dH, T * dV * dp, 5e-3L * fabsl(dH)); }
        chk("order", l.s.density.val > v.s.density.val && gl < 0 && dH > 0, 1, 0);
        if (k == GEMS) { struct { LD T, mu, la, si, w; } tab[] = {{273.16L, 0.01792L, 0.561L, 75.65L, 1402}, {298.16L, 0.008901L, 0.6065L, 71.97L, 1497}, {323.16L, 0.005465L, 0.6406L, 67.94L, 1542}, {373.16L, 0.002816L, 0.6791L, 58.91L, 1543}, {423.16L, 0.001825L, 0.682L, 48.74L, 1466.5L}, {473.16L, 0.0013435L, 0.6633L, 37.67L, 1332.7L}, {523.16L, 0.0010620L, 0.6207L, 26.04L, 1142}, {573.16L, 0.0008594L, 0.5477L, 14.36L, 906}}; for (auto& q : tab) if (fabsl(q.T - T) < 0.05L) { r.counters["transport values"]++; chk("viscosity", l.s.dynamic_viscosity, q.mu, 0.01L * q.mu); chk("thermal conductivity", l.s.thermal_conductivity * 418.4L, q.la, 0.015L * q.la); chk("surface tension", l.s.surface_tension, q.si, 0.005L * q.si); chk("speed of sound", l.s.speed_of_sound / 100, q.w, 0.007L * q.w); } }
    });
    tot.merge(sat);
    // transport properties of the first implementation; agreement
    std::vector<double> Tl = {273.16, 278.15, 298.15, 323.15, 348.15, 373.15, 423.15, 473.15, 523.15, 573.15, 603.15, 623.15, 640, 660, 673.15, 723.15, 773.15, 873.15, 973.15, 1073.15, 1273.15}, Pl = {0.01, 0.1, 1, 5, 20, 60, 100, 150, 200, 250, 300, 400, 500, 750, 1000, 1500, 2000, 3000, 4000, 5000};
    tot.merge(mc::parallel(Tl.size(), [&](size_t item, Report& r) { double T = Tl[item]; for (double Pb : Pl) { double P = Pb * 1e5; int ph = phase(T, P); if (fabsl(P / psat(T) - 1) < 0.02L) continue; if (T < 278 && Pb == 5000) continue; std::string pn = phaseName[ph], lab = "agreement, " + pn + " at " + mc::num6(T) + " K, " + mc::num6(Pb) + " bar"; mc::visiting(lab); r.states++; r.traces++; r.nontrivial++; r.transitions += 6; Pt p[3]; bool ok = true; for (int k = 0; k < 3; ++k) { p[k] = get(k, T, P, ph == 1); ok = ok && p[k].ok; } if (!ok) continue;
            bool crit = T > 590 && T < 680 && Pb > 80 && Pb < 400; auto f0 = fields(p[0]), f1 = fields(p[1]), f2 = fields(p[2]);
            for (size_t i = 0; i < f1.size(); ++i) { std::string n = f1[i].first; if (crit && (n == "densityTT" || n == "densityTP" || n == "densityPP" || n == "dAldT")) continue; LD a = f0[i].second.val, b = f1[i].second.val, c = f2[i].second.val; LD e1 = fabsl(a - b), e2 = fabsl(b - c); auto tol = [&](LD t, LD abs1 = 0) { return t * fabsl(b) + abs1; }; bool deriv = n != "G" && n != "H" && n != "S" && n != "U" && n != "A" && n != "V" && n != "density";
                LD t1 = deriv ? tol(crit ? 0.25L : 5e-3L) : n == "S" ? tol(crit ? 4e-3L : 1e-4L, 1e-3L) : n == "V" || n == "density" ? tol(crit ? 3e-2L : 3e-4L) : crit ? 300 : 5; LD t2 = n == "Cp" || n == "Cv" ? tol(crit ? 1 : 0.2L) : deriv ? 1e99L : n == "S" ? tol(6e-3L) : n == "V" || n == "density" ? tol(crit ? 6e-2L : 6e-3L) : crit ? 600 : 500;
                if (defined(f0[i].second) && defined(f1[i].second) && e1 > t1) r.violation("agreement:hgk:" + n + ":" + pn + (crit ? ":critical" : ""), lab + ": " + n + " is " + mc::num((double)a) + " and " + mc::num((double)b) + ", rel " + mc::num6((double)(e1 / b)) , lab);
                if (Pb <= 2000 && e2 > t2) r.violation("agreement:wagner-pruss:" + n + ":" + pn + (crit ? ":critical" : ""), lab + ": " + n + " is " + mc::num((double)b) + " (HGK) and " + mc::num((double)c) + ", rel " + mc::num6((double)(e2 / b)), lab); } } }, [](const std::string& l) { return l.substr(0, l.find(',')); }));
    return tot; }

// check values of IAPWS-95; the ideal gas; Zhang & Duan
static Report values() {
    Report r; auto chk = [&](const std::string& what, const std::string& lab, LD got, LD want, LD tol) { r.transitions++; if (!(fabsl(got - want) <= tol)) r.violation(what, lab + ": is " + mc::num((double)got) + ", expected " + mc::num((double)want) + " (off by " + mc::num6((double)(got - want)) + ")", lab); };
    struct { double T, D; LD p, cv, s; } tab[] = {{300, 996.556, 0.0992418352L, 4.13018112L, 0.393062643L}, {300, 1005.308, 20.0022515L, 4.06798347L, 0.387405401L}, {300, 1188.202, 700.004704L, 3.46135580L, 0.132609616L}, {500, 0.435, 0.0999679423L, 1.50817541L, 7.94488271L}, {500, 4.532, 0.999938125L, 1.66991025L, 6.82502725L}, {500, 838.025, 10.0003858L, 3.22106219L, 2.56690919L}, {500, 1084.564, 700.000405L, 3.07437693L, 2.03237509L}, {647, 358, 22.0384756L, 6.18315728L, 4.32092307L}, {900, 0.241, 0.100062559L, 1.75890657L, 9.16653194L}, {900, 52.615, 20.0000690L, 1.93510526L, 6.59070225L}, {900, 870.769, 700.000006L, 2.66422350L, 4.17223802L}};
    for (auto& q : tab) { std::string lab = "IAPWS-95 check value at " + mc::num6(q.T) + " K, " + mc::num(q.D) + " kg/m3"; r.states++; r.traces++; r.nontrivial++; RS D(q.D); auto h = waterHelmholtzStateWagnerPruss(RT(q.T), D); LD p = (LD)q.D * q.D * h.helmholtzD.val; chk("check-value:p", lab, p / 1e6L, q.p, 1e-8L * q.p + 2e-9L); chk("check-value:cv", lab, -(LD)q.T * h.helmholtzTT.val / 1e3L, q.cv, 1e-8L); chk("check-value:s", lab, -(LD)h.helmholtzT.val / 1e3L, q.s, 1e-8L); chk("auxiliary:pressureWagnerPruss", lab, waterPressureWagnerPruss(RT(q.T), D).val, p, 1e-10L * fabsl(p) + 1e-3L);
        auto g = waterHelmholtzStateHGK(RT(q.T), D); LD pg = (LD)q.D * q.D * g.helmholtzD.val; chk("auxiliary:pressureHGK", lab, waterPressureHGK(RT(q.T), D).val, pg, 1e-10L * fabsl(pg) + 1e-3L); }
    Substance w; WaterIdealGasWoolley ig(w); const LD R = ThermoFun::R_CONSTANT;
    for (double T = 200; T <= 3000; T += 50) { std::string lab = "ideal gas at " + mc::num6(T) + " K"; r.states++; r.traces++; r.nontrivial++; auto a = ig.thermoProperties(T, 1e5), b = ig.thermoProperties(T, 3e7); for (size_t i = 0; i < 8; ++i) if (!mc::same(props(a)[i].second->val, props(b)[i].second->val)) r.violation("ideal-gas:pressure", lab + ": " + props(a)[i].first + " depends on pressure", lab);
        LD G = a.gibbs_energy.val, H = a.enthalpy.val, S = a.entropy.val, Cp = a.heat_capacity_cp.val; chk("ideal-gas:G", lab, G, H - T * S, 1e-9L * fabsl(G)); chk("ideal-gas:U", lab, a.internal_energy.val, H - R * T, 1e-9L * fabsl(H)); chk("ideal-gas:A", lab, a.helmholtz_energy.val, G - R * T, 1e-9L * fabsl(G)); chk("ideal-gas:Cv", lab, a.heat_capacity_cv.val, Cp - R, 1e-9L * Cp);
        std::vector<LD> g, h; for (int n : {-2, -1, 1, 2}) { auto c = ig.thermoProperties(T + n * 0.5, 1e5); g.push_back(c.gibbs_energy.val); h.push_back(c.enthalpy.val); } LD e; LD d = four(g, 0.5L, e); chk("ideal-gas:S", lab, S, -d, 1e-6L * S + e); d = four(h, 0.5L, e); chk("ideal-gas:Cp", lab, Cp, d, 1e-5L * Cp + e); chk("ideal-gas:carried S", lab, a.gibbs_energy.ddt, -S, 1e-9L * S); chk("ideal-gas:carried Cp", lab, a.enthalpy.ddt, Cp, 1e-9L * Cp); }
    struct { double T; LD Cp, S; } ideal[] = {{300, 33.60L, 189.04L}, {500, 35.226L, 206.53L}, {1000, 41.27L, 232.74L}, {2000, 51.18L, 264.77L}}; for (auto& q : ideal) { std::string lab = "ideal gas, table value at " + mc::num6(q.T) + " K"; auto a = ig.thermoProperties(q.T, 1e5); chk("ideal-gas:table Cp", lab, a.heat_capacity_cp.val, q.Cp, 0.06L); chk("ideal-gas:table S", lab, a.entropy.val, q.S, 0.2L); }
    // Zhang & Duan 2005: V = Z R T / P; J/mol and bar
    static const LD c[] = {0, 3.49824207e-01L, -2.91046273L, 2.00914688L, 1.12819964e-01L, 7.48997714e-01L, -8.73207040e-01L, 1.70609505e-02L, -1.46355822e-02L, 5.79768283e-02L, -8.41246372e-04L, 4.95186474e-03L, -9.16248538e-03L, -1.00358152e-01L, -1.82674744e-03L};
    auto press = [](LD T, LD V) { LD t = T / 647.25L, v = V / 55.9480373L, t2 = t * t, t3 = t2 * t; LD B = c[1] + c[2] / t2 + c[3] / t3, C = c[4] + c[5] / t2 + c[6] / t3, D = c[7] + c[8] / t2 + c[9] / t3, E = c[10] + c[11] / t2 + c[12] / t3, F = c[13] / t, G = c[14] * t; LD Z = 1 + B / v + C / (v * v) + D / powl(v, 4) + E / powl(v, 5) + (F / (v * v) + G / powl(v, 4)) * expl(-1.05999998e-2L / (v * v)); return Z * 83.14467L * T / V; };
    WaterZhangDuan2005 zd(w);
    for (double T : {273.15, 298.15, 373.15, 473.15, 573.15, 673.15, 773.15, 873.15, 1073.15, 1273.15, 1673.15, 2273.15}) for (double Pb : {1000., 1500., 2000., 3500., 5000., 10000., 20000., 50000., 100000., 300000.}) { if (Pb > (T < 473 ? 1e4 : T < 873 ? 5e4 : T < 1273 ? 1e5 : 3e5)) continue; std::string lab = "zhang-duan at " + mc::num6(T) + " K, " + mc::num6(Pb) + " bar"; r.states++; r.traces++; r.nontrivial++; auto at = [&](LD a, LD b) { Pt p; p.T = a; p.P = b; r.transitions++; p.t = zd.thermoPropertiesSubstance((double)a, (double)b, 0); p.s = zd.propertiesSolvent((double)a, (double)b, 0); return p; };
        try { double P = Pb * 1e5; Pt p = at(T, P); LD V = p.t.volume.val * 10.0L; chk("zhang-duan:pressure", lab, press(T, V), Pb, 1e-7L * Pb); chk("zhang-duan:density", lab, p.s.density.val, M * 1e6L / V, 1e-5L * p.s.density.val); LD hv = V * 1e-3L; LD dpdv = (8 * (press(T, V + hv) - press(T, V - hv)) - (press(T, V + 2 * hv) - press(T, V - 2 * hv))) / (12 * hv); if (!(dpdv < 0)) r.violation("zhang-duan:unstable", lab + ": volume " + mc::num((double)V), lab);
            LD rho = p.s.density.val, al = p.s.Alpha.val; chk("zhang-duan:alpha", lab, al, -p.s.densityT.val / rho, 1e-9L * fabsl(al)); chk("zhang-duan:beta", lab, p.s.Beta.val, p.s.densityP.val / rho, 1e-9L * p.s.Beta.val); chk("zhang-duan:dAldT", lab, p.s.dAldT.val, al * al - p.s.densityTT.val / rho, 1e-9L * (al * al + fabsl(p.s.densityTT.val / rho)));
            LD hT = T * 3e-4L, hP = P * 3e-4L; std::vector<Pt> a, b; if (T > 274 && T < 2273 && Pb > 1000 && Pb < 3e5) for (int n : {-2, -1, 1, 2}) { a.push_back(at(T + n * hT + 5 * (T < 274) , P)); b.push_back(at(T, P + (n + (Pb == 1000 ? 3 : Pb == 3e5 ? -3 : 0)) * hP)); } bool mid = T > 274 && T < 2273 && Pb > 1000 && Pb < 3e5;
            if (mid) { carriedAll(r, "zhang-duan", "", lab, p, a, b, hT, hP, 1e-3L); auto num = [&](const std::string& n, RS PropertiesSolvent::*f, RS PropertiesSolvent::*g, bool temp, LD tol) { std::vector<LD> v; for (auto& q : temp ? a : b) v.push_back((q.s.*f).val); LD e, d = four(v, temp ? hT : hP, e); chk("zhang-duan:" + n, lab, (p.s.*g).val, d, tol * fabsl(d) + 2 * e); };
                num("densityT", &PropertiesSolvent::density, &PropertiesSolvent::densityT, true, 1e-3L); num("densityP", &PropertiesSolvent::density, &PropertiesSolvent::densityP, false, 1e-3L); num("densityTT", &PropertiesSolvent::densityT, &PropertiesSolvent::densityTT, true, 1e-2L); num("densityPP", &PropertiesSolvent::densityP, &PropertiesSolvent::densityPP, false, 1e-2L); } }
        catch (const std::exception& e) { r.violation("zhang-duan:fails", lab + ": " + eng::clean(e.what()), lab); } }
    for (auto& q : std::vector<std::pair<double, double>>{{500, 9.9e7}, {500, 3.1e10}, {2300, 1e9}, {-1, 1e9}}) { std::string lab = "zhang-duan outside its range at " + mc::num6(q.first) + " K, " + mc::num6(q.second) + " Pa"; r.states++; r.traces++; bool threw = false; try { zd.propertiesSolvent(q.first, q.second, 0); } catch (const std::exception&) { threw = true; } if (!threw) r.violation("zhang-duan:range", lab + ": no error", lab); threw = false; try { zd.thermoPropertiesSubstance(q.first, q.second, 0); } catch (const std::exception&) { threw = true; } if (!threw) r.violation("zhang-duan:range", lab + ": no error (energies)", lab); }
    return r; }

int main(int argc, char** argv) { mc::init(argc, argv); Report r = t07(); r.merge(helm()); r.merge(more()); r.merge(values()); return mc::finish(r); }
