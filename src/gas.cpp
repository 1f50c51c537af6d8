// T06: gas and fluid models.
#include "phys.hpp"
#include <ThermoModelsSubstance.h>
using namespace phys; using mc::Report;
typedef MethodCorrP_Thrift MP;
typedef std::pair<std::string, std::string> Names;

static const LD RG = 8.31451L;
struct Fluid { bool ok = false, edge = false; LD V = 0, lnphi = 0, H = 0, S = 0; std::string part; };     // V in J/bar; H, S: departures from the ideal gas at the same T and P

// ---- cubic equations P = RT/(V-b) - a(T)/((V+d1 b)(V+d2 b))
static std::vector<LD> cubicRoots(LD c2, LD c1, LD c0) {
    LD q = (c2 * c2 - 3 * c1) / 9, r = (2 * c2 * c2 * c2 - 9 * c2 * c1 + 27 * c0) / 54; std::vector<LD> z;
    if (r * r < q * q * q) { LD t = acosl(r / sqrtl(q * q * q)); for (int k = -1; k <= 1; ++k) z.push_back(-2 * sqrtl(q) * cosl((t + 2 * k * M_PIl) / 3) - c2 / 3); }
    else { LD s = powl(fabsl(r) + sqrtl(r * r - q * q * q), 1.0L / 3); if (r > 0) s = -s; z.push_back(s + (s != 0 ? q / s : 0) - c2 / 3); }
    for (auto& x : z) for (int i = 0; i < 8; ++i) { LD f = ((x + c2) * x + c1) * x + c0, d = (3 * x + 2 * c2) * x + c1; if (d == 0) break; LD n = x - f / d; if (!(fabsl(n - x) <= fabsl(x) * 0.1L + 1e-6L)) break; x = n; }
    return z; }
static Fluid cubic(LD T, LD P, const std::function<LD(LD)>& aT, LD b, LD d1, LD d2) {
    LD a = aT(T), A = a * P / (RG * RG * T * T), B = b * P / (RG * T), u = d1 + d2, w = d1 * d2; Fluid o; LD best = 1e300L, second = 1e300L;
    auto z = cubicRoots((u - 1) * B - 1, A + (w - u) * B * B - u * B, -(A * B + w * B * B + w * B * B * B));
    auto L = [&](LD x) { return d1 == d2 ? B / x : logl((x + d1 * B) / (x + d2 * B)) / (d1 - d2); };
    LD h = T * 1e-4L, da = (8 * (aT(T + h) - aT(T - h)) - (aT(T + 2 * h) - aT(T - 2 * h))) / (12 * h);
    for (auto x : z) { if (!(x > B)) continue; LD l = x - 1 - logl(x - B) - A / B * L(x); if (l < best) { second = best; best = l; o.V = x * RG * T / P; o.lnphi = l; o.H = RG * T * (x - 1) - (a - T * da) / b * L(x); o.S = (o.H - RG * T * l) / T; o.ok = true; } else if (l < second) second = l; }
    o.edge = second - best < 1e-6L; return o; }
static Fluid pr78(const std::vector<double>& c, LD T, LD P) { LD Tc = c[0], Pc = c[1], w = c[2]; LD k = w <= 0.491L ? 0.37464L + 1.54226L * w - 0.26992L * w * w : 0.379642L + 1.48503L * w - 0.164423L * w * w + 0.0166666L * w * w * w;
    return cubic(T, P, [=](LD t) { LD s = 1 + k * (1 - sqrtl(t / Tc)); return 0.457235529L * RG * RG * Tc * Tc / Pc * s * s; }, 0.0777960739L * RG * Tc / Pc, 1 + sqrtl(2), 1 - sqrtl(2)); }
static Fluid srk(const std::vector<double>& c, LD T, LD P) { LD Tc = c[0], Pc = c[1], w = c[2]; LD m = 0.48L + 1.574L * w - 0.176L * w * w;
    return cubic(T, P, [=](LD t) { LD s = 1 + m * (1 - sqrtl(t / Tc)); return 0.42747L * RG * RG * Tc * Tc / Pc * s * s; }, 0.08664L * RG * Tc / Pc, 1, 0); }
static Fluid prsv(const std::vector<double>& c, LD T, LD P) { LD Tc = c[0], Pc = c[1], w = c[2], k0 = 0.378893L + 1.4897153L * w - 0.17131848L * w * w + 0.0196554L * w * w * w; bool sub = T < Tc; LD k1 = sub ? c[3] : 0, k2 = sub ? c[4] : 0, k3 = sub ? c[5] : 0;
    return cubic(T, P, [=](LD t) { LD r = t / Tc, q = sqrtl(r), k = k0 + (k1 + k2 * (k3 - r) * (1 - q)) * (1 + q) * (0.7L - r), s = 1 + k * (1 - q); return 0.457235L * RG * RG * Tc * Tc / Pc * s * s; }, 0.077796L * RG * Tc / Pc, 1 + sqrtl(2), 1 - sqrtl(2)); }

// ---- compensated Redlich-Kwong (Holland & Powell 1991, 1998); here P in kbar, V in kJ/kbar = J/bar
static const LD RK = 0.00831451L;
struct Mrk { LD V, ln; bool three; };
static Mrk mrk(LD T, LD P, LD a, LD b, bool largest) { LD q = sqrtl(T); auto z = cubicRoots(-RK * T / P, -(b * RK * T + b * b * P - a / q) / P, -a * b / (q * P)); LD v = -1; int n = 0; for (auto x : z) if (x > b) { n++; if (v < 0 || (largest ? x > v : x < v)) v = x; }
    return {v, P * v / (RK * T) - 1 - logl((v - b) * P / (RK * T)) - a / (b * RK * T * q) * logl(1 + b / v), n > 1}; }
static Fluid cork(const std::string& f, const std::vector<double>& crit, LD T, LD Pbar) {
    LD P = Pbar / 1000; Fluid o; std::function<LD(LD)> ln; std::function<LD(LD)> vol;
    if (f == "CO2" || f == "H2O") { bool w = f == "H2O"; LD b = w ? 1.465L : 3.057L, p0 = w ? 2 : 5;
        auto virV = [=](LD t, LD p) -> LD { if (p <= p0) return 0; LD c = w ? -8.909e-2L : -1.78198e-1L + 2.45317e-5L * t, d = w ? 1.9853e-3L : 5.40776e-3L - 1.59046e-6L * t, e = w ? 8.0331e-2L : 0, x = p - p0; return c * sqrtl(x) + d * x + e * powl(x, 0.25L); };
        auto virG = [=](LD t, LD p) -> LD { if (p <= p0) return 0; LD c = w ? -8.909e-2L : -1.78198e-1L + 2.45317e-5L * t, d = w ? 1.9853e-3L : 5.40776e-3L - 1.59046e-6L * t, e = w ? 8.0331e-2L : 0, x = p - p0; return (2 * c / 3 * powl(x, 1.5L) + d / 2 * x * x + 0.8L * e * powl(x, 1.25L)) / (RK * t); };
        if (!w) { auto a = [](LD t) { return 659.8L + 0.21078L * t - 6.3976e-4L * t * t; }; auto m = mrk(T, P, a(T), b, true); o.edge = m.three; vol = [=](LD t) { return mrk(t, P, a(t), b, true).V + virV(t, P); }; ln = [=](LD t) { return mrk(t, P, a(t), b, true).ln + virG(t, P); }; o.part = "fluid"; }
        else { auto cube = [](LD x, LD a, LD b, LD c) { return 1113.4L + a * x + b * x * x + c * x * x * x; };
            bool low = T < 673; auto ag = [=](LD t) { return low ? cube(673 - t, 5.8487L, -2.1370e-2L, 6.8133e-5L) : cube(t - 673, -0.22291L, -3.8022e-4L, 1.7791e-7L); }; auto al = [=](LD t) { return low ? cube(673 - t, -0.88517L, 4.53e-3L, -1.3183e-5L) : cube(t - 673, -0.22291L, -3.8022e-4L, 1.7791e-7L); };
            auto sat = [](LD t) { return -13.627e-3L + 7.29395e-7L * t * t - 2.34622e-9L * t * t * t + 4.83607e-15L * t * t * t * t * t; };
            bool gas = T > 695 || P < sat(T); o.part = T > 695 ? "fluid" : gas ? "vapour" : "liquid"; if (T <= 695 && fabsl(P / sat(T) - 1) < 1e-6L) o.edge = true;
            if (gas) { vol = [=](LD t) { return mrk(t, P, ag(t), b, true).V + virV(t, P); }; ln = [=](LD t) { return mrk(t, P, ag(t), b, true).ln + virG(t, P); }; }
            else { vol = [=](LD t) { return mrk(t, P, al(t), b, false).V + virV(t, P); }; ln = [=](LD t) { LD s = sat(t); return mrk(t, s, ag(t), b, true).ln - mrk(t, s, al(t), b, false).ln + mrk(t, P, al(t), b, false).ln + virG(t, P); }; } } }
    else { LD Tc = crit[0], Pc = crit[1] / 1000.0L; auto ab = [=](LD t, LD& a, LD& b, LD& c, LD& d) { a = 5.45963e-5L * powl(Tc, 2.5L) / Pc - 8.6392e-6L * powl(Tc, 1.5L) / Pc * t; b = 9.18301e-4L * Tc / Pc; c = -3.30558e-5L * Tc / powl(Pc, 1.5L) + 2.30524e-6L / powl(Pc, 1.5L) * t; d = 6.93054e-7L * Tc / (Pc * Pc) - 8.38293e-8L / (Pc * Pc) * t; };
        vol = [=](LD t) { LD a, b, c, d; ab(t, a, b, c, d); return RK * t / P + b - a * RK * sqrtl(t) / ((RK * t + b * P) * (RK * t + 2 * b * P)) + c * sqrtl(P) + d * P; };
        ln = [=](LD t) { LD a, b, c, d; ab(t, a, b, c, d); return (b * P + a / (b * sqrtl(t)) * logl((RK * t + b * P) / (RK * t + 2 * b * P)) + 2 * c / 3 * powl(P, 1.5L) + d / 2 * P * P) / (RK * t); }; o.part = "corresponding-states"; }
    LD h = T * 1e-5L; if (T - 2 * h < 673 && T + 2 * h > 673) o.edge = true; o.V = vol(T); o.lnphi = ln(T); o.H = -RG * T * T * (8 * (ln(T + h) - ln(T - h)) - (ln(T + 2 * h) - ln(T - 2 * h))) / (12 * h); o.S = o.H / T - RG * o.lnphi; o.ok = std::isfinite((double)o.lnphi) && o.V > 0; return o; }

// ---- Pitzer & Sterner 1994; density in mol/cm3, pressure in MPa
struct Stp { std::vector<LD> c; LD T;
    Stp(bool w, LD t) : T(t) { static const LD H[10][6] = {{0, 0, 0.24657688e6L, 0.51359951e2L, 0, 0}, {0, 0, 0.58638965L, -0.28646939e-2L, 0.31375577e-4L, 0}, {0, 0, -0.62783840e1L, 0.14791599e-1L, 0.35779579e-3L, 0.15432925e-7L}, {0, 0, 0, -0.42719875L, -0.16325155e-4L, 0}, {0, 0, 0.56654978e4L, -0.16580167e2L, 0.76560762e-1L, 0}, {0, 0, 0, 0.10917883L, 0, 0}, {0.38878656e13L, -0.13494878e9L, 0.30916564e6L, 0.75591105e1L, 0, 0}, {0, 0, -0.65537898e5L, 0.18810675e3L, 0, 0}, {-0.14182435e14L, 0.18165390e9L, -0.19769068e6L, -0.23530318e2L, 0, 0}, {0, 0, 0.92093375e5L, 0.12246777e3L, 0, 0}};
        static const LD C[10][6] = {{0, 0, 0.18261340e7L, 0.79224365e2L, 0, 0}, {0, 0, 0, 0.66560660e-4L, 0.57152798e-5L, 0.30222363e-9L}, {0, 0, 0, 0.59957845e-2L, 0.71669631e-4L, 0.62416103e-8L}, {0, 0, -0.13270279e1L, -0.15210731L, 0.53654244e-3L, -0.71115142e-7L}, {0, 0, 0.12456776L, 0.49045367e1L, 0.98220560e-2L, 0.55962121e-5L}, {0, 0, 0, 0.75522299L, 0, 0}, {-0.39344644e12L, 0.90918237e8L, 0.42776716e6L, -0.22347856e2L, 0, 0}, {0, 0, 0.40282608e3L, 0.11971627e3L, 0, 0}, {0, 0.22995650e8L, -0.78971817e5L, -0.63376456e2L, 0, 0}, {0, 0, 0.95029765e5L, 0.18038071e2L, 0, 0}};
        auto& k = w ? H : C; for (int i = 0; i < 10; ++i) c.push_back(k[i][0] / (t * t * t * t) + k[i][1] / (t * t) + k[i][2] / t + k[i][3] + k[i][4] * t + k[i][5] * t * t); }
    LD ar(LD r) const { return c[0] * r + 1 / (c[1] + r * (c[2] + r * (c[3] + r * (c[4] + r * c[5])))) - 1 / c[1] - c[6] / c[7] * (expl(-c[7] * r) - 1) - c[8] / c[9] * (expl(-c[9] * r) - 1); }      // residual Helmholtz energy / RT
    LD p(LD r) const { LD q = c[1] + r * (c[2] + r * (c[3] + r * (c[4] + r * c[5]))), d = c[2] + r * (2 * c[3] + r * (3 * c[4] + r * 4 * c[5])); return RG * T * (r + r * r * (c[0] - d / (q * q) + c[6] * expl(-c[7] * r) + c[8] * expl(-c[9] * r))); }
    std::vector<LD> roots(LD P) const { std::vector<LD> out; LD hi = 0.12L, step = 1.01L, r0 = std::min(1e-3L * P / (RG * T), 1e-9L), f0 = p(r0) - P; for (LD r = r0 * step; r < hi; r *= step) { LD f = p(r) - P; if ((f0 <= 0) != (f <= 0)) { LD a = r / step, b = r, fa = f0; for (int i = 0; i < 90; ++i) { LD m = (a + b) / 2, fm = p(m) - P; if ((fa <= 0) == (fm <= 0)) { a = m; fa = fm; } else b = m; } if (f > f0) out.push_back((a + b) / 2); } f0 = f; } return out; } };
static Fluid stpAt(bool w, LD T, LD Pbar, LD r) { LD P = Pbar / 10; Stp s(w, T); Fluid o; LD Z = P / (r * RG * T), h = T * 1e-5L; auto A = [&](LD t) { return Stp(w, t).ar(r) * RG * t; }; LD Sv = -(8 * (A(T + h) - A(T - h)) - (A(T + 2 * h) - A(T - 2 * h))) / (12 * h); o.V = 0.1L / r; o.lnphi = s.ar(r) + Z - 1 - logl(Z); o.S = Sv + RG * logl(Z); o.H = RG * T * o.lnphi + T * o.S; o.ok = true; return o; }

static ThermoPropertiesSubstance eval(MP::type m, const Substance& s, double T, double P, const ThermoPropertiesSubstance& t, bool apply) {
    switch (m) { case MP::CPM_PR78: return GasPR78(s).thermoProperties(T, P, t, apply); case MP::CPM_SRK: return GasSRK(s).thermoProperties(T, P, t, apply); case MP::CPM_PRSV: return GasPRSV(s).thermoProperties(T, P, t, apply); case MP::CPM_CORK: return GasCORK(s).thermoProperties(T, P, t, apply);
        case MP::CPM_EMP: return GasCGF(s).thermoProperties(T, P, t, apply); case MP::CPM_STP: return GasSTP(s).thermoProperties(T, P, t, apply); default: return IdealGasLawVol(s).thermoProperties(T, P, t, apply); } }

struct Case { std::string name, formula; MP::type m; std::vector<double> c; };
static std::vector<Case> cases;
static std::vector<double> frozen;

static Report t06() {
    bool TH = mc::options().thorough();
    std::vector<std::vector<double>> crit = {{304.2, 73.8, 0.225}, {647.1, 220.6, 0.344}, {190.6, 46, 0.011}, {33.2, 13, -0.22}, {617.7, 21.2, 0.4923}, {400, 40, 0.491}, {400, 40, 0.4911}, {500, 60, 0}, {500, 60, 0.9}, {350, 30, -0.1}};
    for (auto& k : crit) { auto c = k; c.resize(12, 0.0); cases.push_back({"peng-robinson-78", "N2", MP::CPM_PR78, c}); cases.push_back({"soave", "N2", MP::CPM_SRK, c}); for (double k1 : {0.0, -0.06, 0.2}) for (double k2 : {0.0, 0.3}) for (double k3 : {0.0, 0.9}) { if (k2 == 0 && k3 != 0) continue; c[3] = k1; c[4] = k2; c[5] = k3; cases.push_back({"stryjek-vera", "N2", MP::CPM_PRSV, c}); } c = k; c.resize(12, 0.0); cases.push_back({"cork-other", "N2", MP::CPM_CORK, c}); }
    { auto c = crit[0]; c.resize(12, 0.0); cases.push_back({"cork-co2", "CO2", MP::CPM_CORK, c}); cases.push_back({"sterner-pitzer-co2", "CO2", MP::CPM_STP, c}); c = crit[1]; c.resize(12, 0.0); cases.push_back({"cork-h2o", "H2O", MP::CPM_CORK, c}); cases.push_back({"sterner-pitzer-h2o", "H2O", MP::CPM_STP, c}); }
    cases.push_back({"churakov-gottschalk", "Ar", MP::CPM_EMP, {3.3952, 116.79, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}); cases.push_back({"churakov-gottschalk-polar", "H2O", MP::CPM_EMP, {2.68, 410.3, 1.85, 1.5, 0, 0, 0, 0, 0, 0, 0, 0}}); cases.push_back({"churakov-gottschalk-variable", "H2O", MP::CPM_EMP, {2.68, 400, 1.8, 1.5, 0.3, -0.002, 20, -0.001, 30, 5, 40, 10}});
    cases.push_back({"ideal-gas", "N2", MP::CPM_OFF, std::vector<double>(12, 0.0)});
    return mc::parallel(cases.size(), [=](size_t n, Report& r) {
        auto& k = cases[n]; Substance s = synth::gas("Q", k.formula, k.m, k.c, {30, 0, 0}, synth::ref(0, 0, 0, 0, 0)); double Tc = k.c[0]; bool cg = k.m == MP::CPM_EMP, ideal = k.m == MP::CPM_OFF;
        std::vector<double> Ts = {273.15, 298.15, 330, 373.15, 450, 573.15, 672, 680, 700, 800, 1000, 1300}, Ps = {1e-5, 0.01, 1, 1.01325, 5, 20, 60, 150, 400, 1000, 1999, 2500, 4999, 8000, 20000}; if (TH) { for (double T : {280., 315., 350., 400., 500., 600., 650., 690., 696., 750., 900., 1100., 1600., 1990.}) Ts.push_back(T); for (double P : {0.1, 2., 10., 40., 90., 250., 600., 1500., 3000., 6000., 12000., 30000.}) Ps.push_back(P); }
        if (!cg && !ideal) for (double f : {0.7, 0.9, 0.99, 1.0, 1.01, 1.5, 3.0}) if (f * Tc >= 273.15 && f * Tc < 1990) Ts.push_back(f * Tc);
        if (cg) { Ts = {1000, 1150, 1300, 1600}; Ps = {20, 100, 400, 1000, 2000, 4000, 8000, 20000}; if (k.name == "churakov-gottschalk") for (double T : {290., 350., 450., 600., 700., 850.}) Ts.push_back(T); }
        auto in = synth::ref(-12345, 6789, 200, 33, 7); double Tr = 298.15, Pr = 1e5; (void)Tr; r.sample(k.name + ", parameters " + eng::dump(k.c) + ", " + std::to_string(Ts.size()) + " temperatures and " + std::to_string(Ps.size()) + " pressures");
        auto bad = [&](const std::string& key, const std::string& lab, const std::string& what) { r.violation(key + ":" + k.name, lab + ": " + what, lab); };
        auto cmp = [&](const std::string& key, const std::string& lab, const ThermoScalar& x, LD want, LD tol) { if (!(fabsl(x.val - want) <= tol)) bad(key, lab, key.substr(0, key.find(':')) + " is " + mc::num(x.val) + ", the equation gives " + mc::num((double)want)); };
        for (double T : Ts) for (double P : Ps) for (double Pref : {1e5, 5e5}) { if (Pref != 1e5 && P != 60) continue; s.setReferenceP(Pref); Pr = Pref;
            std::string lab = k.name + ", parameters " + eng::dump(k.c) + " at " + mc::num6(T) + " K, " + mc::num6(P) + " bar"; mc::visiting(lab); r.states++; r.transitions += 2; r.traces++;
            ThermoPropertiesSubstance a, b; try { a = eval(k.m, s, T, P * 1e5, in, false); b = eval(k.m, s, T, P * 1e5, in, true); } catch (const std::exception& e) { bad("fails", lab, eng::clean(e.what())); continue; }
            // the correction that was asked for: G = G(ideal) + R T ln (f / 1 bar), H and S those of the fluid at T and P
            LD v = a.volume.val; cmp("apply:V", lab, b.volume, v, 1e-12L * fabsl(v)); cmp("apply:S", lab, b.entropy, a.entropy.val, 1e-9L); cmp("apply:Cp", lab, b.heat_capacity_cp, a.heat_capacity_cp.val, 1e-9L);
            LD dv = v * (P - Pr / 1e5L); cmp("apply:G", lab, b.gibbs_energy, a.gibbs_energy.val + dv, 1e-9L * fabsl(dv) + 1e-7L); cmp("apply:H", lab, b.enthalpy, a.enthalpy.val + dv, 1e-9L * fabsl(dv) + 1e-7L); LD U = b.enthalpy.val - P * v; cmp("apply:U", lab, b.internal_energy, U, 1e-9L * (fabsl(dv) + fabsl(P * v)) + 1e-7L); cmp("apply:A", lab, b.helmholtz_energy, U - (LD)T * b.entropy.val, 1e-9L * (fabsl(dv) + fabsl(P * v)) + 1e-6L);
            if (!defined(a.volume)) bad("V:undefined", lab, "the volume is not defined");
            cmp("G", lab, a.gibbs_energy, -12345, 1e-6L);
            Fluid f; if (ideal) { f.V = RG * T / P; f.ok = true; } else switch (k.m) { case MP::CPM_PR78: f = pr78(k.c, T, P); break; case MP::CPM_SRK: f = srk(k.c, T, P); break; case MP::CPM_PRSV: f = prsv(k.c, T, P); break; case MP::CPM_CORK: f = cork(k.formula, k.c, T, P); break;
                case MP::CPM_STP: { bool w = k.formula == "H2O"; auto z = Stp(w, T).roots(P / 10); if (z.empty()) break; LD best = 1e300L; std::vector<Fluid> all; for (auto q : z) { all.push_back(stpAt(w, T, P, q)); best = std::min(best, all.back().lnphi); } size_t i = 0; for (size_t j = 0; j < all.size(); ++j) if (fabsl(all[j].V / v - 1) < fabsl(all[i].V / v - 1)) i = j; f = all[i]; if (T < 298.15 && w) break; if (f.lnphi > best + 0.02L) bad("V:unstable", lab, "the volume " + mc::num((double)v) + " belongs to a phase less stable than another one by " + mc::num6((double)(f.lnphi - best)) + " RT"); break; } default: break; }
            if (cg || !f.ok || f.edge || (k.name == "sterner-pitzer-h2o" && T < 298.15)) continue; r.nontrivial++;
            std::string part = f.part.empty() ? "" : ":" + f.part;
            cmp("V" + part, lab, a.volume, f.V, 3e-7L * f.V); cmp("H" + part, lab, a.enthalpy, 6789 + f.H, 1e-6L * (fabsl(f.H) + RG * T) * (k.m == MP::CPM_STP || k.m == MP::CPM_CORK ? 10 : 1) + 1e-3L * 0); cmp("S" + part, lab, a.entropy, 200 + f.S, 1e-6L * (fabsl(f.S) + RG) * (k.m == MP::CPM_STP || k.m == MP::CPM_CORK ? 10 : 1));
        }
        // outside the range: an ideal gas
        for (auto& tp : std::vector<std::pair<double, double>>{{270, 60}, {100, 1}, {600, 1e5}, {600, 1e6}, {2500, 100}, {600, 0}}) { double T = tp.first, P = tp.second; if (ideal) continue; if (T == 2500 && k.m != MP::CPM_STP) continue; std::string lab = k.name + ", outside its range, at " + mc::num6(T) + " K, " + mc::num6(P) + " bar"; mc::visiting(lab); r.states++; r.transitions++; r.traces++; r.nontrivial++; s.setReferenceP(1e5); ThermoPropertiesSubstance a; try { a = eval(k.m, s, T, P * 1e5, in, false); } catch (const std::exception& e) { bad("fails", lab, eng::clean(e.what())); continue; }
            if (P == 0) P = 1e-5; cmp("outside:V", lab, a.volume, RG * T / P, 3e-5L * RG * T / P); cmp("outside:H", lab, a.enthalpy, 6789, 0.02L); cmp("outside:S", lab, a.entropy, 200, 2e-4L); cmp("outside:G", lab, a.gibbs_energy, -12345, 1e-6L); }
        if (cg) { auto at = [&](LD T, LD P) { r.transitions++; return eval(k.m, s, (double)T, (double)(P * 1e5L), in, false); }; auto gd = [&](LD T, LD P) { auto a = at(T, P); return (LD)a.enthalpy.val - 6789 - T * ((LD)a.entropy.val - 200); };
            for (double T : Ts) { { std::string lab = k.name + " at " + mc::num6(T) + " K, 0.01 bar"; auto a = at(T, 0.01L); r.states++; r.traces++; cmp("limit:H", lab, a.enthalpy, 6789, 1e-4L * RG * T); cmp("limit:S", lab, a.entropy, 200, 1e-4L * RG); cmp("limit:V", lab, a.volume, RG * T / 0.01L, 1e-4L * RG * T / 0.01L); }
                for (size_t i = 0; i < Ps.size(); ++i) { double P = Ps[i]; std::string lab = k.name + " at " + mc::num6(T) + " K, " + mc::num6(P) + " bar"; mc::visiting(lab); r.states++; r.traces++; r.nontrivial++; auto a = at(T, P); LD h = T * 0.01L;
                    // entropy from the temperature dependence of H - TS, H - TS from the volume
                    LD S = -(8 * (gd(T + h, P) - gd(T - h, P)) - (gd(T + 2 * h, P) - gd(T - 2 * h, P))) / (12 * h); cmp("S", lab, a.entropy, 200 + S, 0.1L * RG + 1e-3L * fabsl(S));
                    LD lo = i ? Ps[i - 1] : 5, dg = gauss([&](LD x) { LD p = expl(x); return p * (LD)at(T, p).volume.val - RG * T; }, logl(lo), logl(P)), g0 = gd(T, lo), g1 = gd(T, P); if (!(fabsl(g1 - g0 - dg) <= 2e-3L * RG * T + 1e-3L * fabsl(dg))) bad("H", lab, "H - TS (departures) changes by " + mc::num((double)(g1 - g0)) + " from " + mc::num6((double)lo) + " bar, the volumes give " + mc::num((double)dg)); } } }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }

int main(int argc, char** argv) { mc::init(argc, argv); Report r = t06(); return mc::finish(r); }
