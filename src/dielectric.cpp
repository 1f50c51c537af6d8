// T08: the dielectric constant of water and the Born functions.
#include "phys.hpp"
#include <ElectroModelsSolvent.h>
#include <ThermoModelsSolvent.h>
using namespace phys; using mc::Report;
typedef MethodCorrT_Thrift MT; typedef MethodGenEoS_Thrift MG;

// ---- the published equations, T in K, density in kg/m3
static LD johnsonNorton(LD T, LD rho) {
    LD t = T / 298.15L, r = rho / 1000; return 1 + 14.70333593L / t * r + (212.8462733L / t - 115.4445173L + 19.55210915L * t) * r * r + (-83.30347980L / t + 32.13240048L * t - 6.694098645L * t * t) * r * r * r + (-37.86202045L / (t * t) + 68.87359646L / t - 27.29401652L) * r * r * r * r; }
static LD sverjensky(LD T, LD rho) { LD c = T - 273.15L, q = sqrtl(c); return expl(-8.016651e-5L * c - 6.871618e-2L * q + 4.747973L) * powl(rho / 1000, -1.576377e-3L * c + 6.810288e-2L * q + 0.7548755L); }
static LD fernandez(LD T, LD rho) {
    static const struct { LD n; int i; LD j; } k[] = {{0.978224486826L, 1, 0.25L}, {-0.957771379375L, 1, 1}, {0.237511794148L, 1, 2.5L}, {0.714692244396L, 2, 1.5L}, {-0.298217036956L, 3, 1.5L}, {-0.108863472196L, 3, 2.5L}, {0.949327488264e-1L, 4, 2}, {-0.980469816509e-2L, 5, 2}, {0.165167634970e-4L, 6, 5}, {0.937359795772e-4L, 7, 0.5L}, {-0.123179218720e-9L, 10, 10}};
    LD d = rho / 322, u = 647.096L / T, g = 1 + 0.196096504426e-2L * d * powl(T / 228 - 1, -1.2L); for (auto& q : k) g += q.n * powl(d, q.i) * powl(u, q.j);
    LD N = 6.0221367e23L, e0 = 8.854187817e-12L, A = N * 6.138e-30L * 6.138e-30L * rho * g / (0.018015268L * e0 * 1.380658e-23L * T), B = N * 1.636e-40L * rho / (3 * 0.018015268L * e0);
    return (1 + A + 5 * B + sqrtl(9 + 2 * A + 18 * B + A * A + 10 * A * B + 9 * B * B)) / (4 - 4 * B); }

struct Model { const char* name; MG::type m; LD (*f)(LD, LD); double tmin, tmax; };
static const Model models[] = {{"jn-reaktoro", MG::type::CTPM_WJNR, johnsonNorton, 0, 1e4}, {"jn-gems", MG::type::CTPM_WJNG, johnsonNorton, 0, 1e4}, {"sverjensky", MG::type::CTPM_WSV14, sverjensky, 290, 1e4}, {"fernandez", MG::type::CTPM_WF97, fernandez, 0, 900}};
struct Dens { const char* name; MT::type m; };
static const Dens dens[] = {{"hgk-gems", MT::type::CTM_WAT}, {"hgk-reaktoro", MT::type::CTM_WAR}, {"wagner-pruss", MT::type::CTM_WWP}, {"zhang-duan", MT::type::CTM_WZD}};
static LD psat(LD T) { LD t = 1 - T / 647.096L; if (t <= 0) return 22.064e6L; return 22.064e6L * expl(647.096L / T * (-7.85951783L * t + 1.84408259L * powl(t, 1.5L) - 11.7866497L * t * t * t + 22.6807411L * powl(t, 3.5L) - 15.9618719L * powl(t, 4) + 1.80122502L * powl(t, 7.5L))); }
static const char* phaseName[] = {"liquid", "vapour", "fluid"};

struct D2 { LD f, T, r, TT, Tr, rr; };
static D2 partials(LD (*f)(LD, LD), LD T, LD r) {
    LD h = T * 3e-4L, k = r * (r < 10 ? 1e-2L : 3e-4L); static const int n[4] = {-2, -1, 1, 2}; static const LD w[4] = {1.L / 12, -8.L / 12, 8.L / 12, -1.L / 12}, w2[4] = {-1.L / 12, 16.L / 12, 16.L / 12, -1.L / 12};
    D2 d{}; d.f = f(T, r); d.TT = -2.5L * d.f; d.rr = -2.5L * d.f; for (int i = 0; i < 4; ++i) { LD a = f(T + n[i] * h, r), b = f(T, r + n[i] * k); d.T += w[i] * a; d.r += w[i] * b; d.TT += w2[i] * a; d.rr += w2[i] * b; for (int j = 0; j < 4; ++j) d.Tr += w[i] * w[j] * f(T + n[i] * h, r + n[j] * k); }
    d.T /= h; d.r /= k; d.TT /= h * h; d.rr /= k * k; d.Tr /= h * k; return d; }

static Report t08() {
    bool th = mc::options().thorough();
    std::vector<double> Ts = {273.15, 278.15, 298.15, 323.15, 373.15, 423.15, 473.15, 523.15, 573.15, 623.15, 650, 673.15, 723.15, 773.15, 873.15, 1073.15, 1273.15};
    std::vector<double> Ps = {0, 0.1, 1, 20, 100, 250, 300, 500, 750, 1000, 1500, 2000, 3000, 5000, 10000, 20000, 50000};
    if (th) { auto dense = [](std::vector<double>& v, int m) { std::vector<double> w; for (size_t i = 0; i + 1 < v.size(); ++i) for (int j = 0; j < m; ++j) w.push_back(v[i] + (v[i + 1] - v[i]) * j / m); w.push_back(v.back()); v = w; }; dense(Ts, 3); dense(Ps, 2); }
    static Database db; static Substance subs[4][4];
    for (int m = 0; m < 4; ++m) for (int d = 0; d < 4; ++d) { Substance s = synth::base(std::string("W-") + models[m].name + "-" + dens[d].name, "H2O@", SubstanceClass::type::AQSOLVENT, AggregateState::type::AQUEOUS, synth::ref(-237181, -285881, 69.92, 75.36, 1.807)); s.setMethodGenEoS(models[m].m); s.setMethod_T(dens[d].m); s.setThermoParameters(synth::par()); subs[m][d] = s; db.addSubstance(s); }
    return mc::parallel(16 * Ts.size(), [&](size_t item, Report& r) {
        int m = item % 4, dn = item / 4 % 4; double T = Ts[item / 16]; auto& M = models[m]; const Substance& w = subs[m][dn]; ThermoEngine eng(db); if (T < M.tmin || T > M.tmax) return;
        for (double Pb : Ps) for (int state = 0; state < 2; ++state) {
            double P = Pb * 1e5; LD ps = psat(T); if (Pb == 0 && T > 645) continue; int ph = Pb == 0 ? state : T > 647.096 ? 2 : P < ps ? 1 : 0; if (ph == 2 ? state == 1 : state != ph) continue; if (Pb != 0 && fabsl(P / ps - 1) < 0.02L) continue;
            if (Pb > 5000 && m < 2) continue; if (Pb > 10000 && m == 3) continue; if (dn == 3 && (Pb < 1000 || state == 1 || Pb > (T < 473 ? 1e4 : T < 873 ? 5e4 : 1e5))) continue; bool gemsP = m == 1 || dn == 0; if (dn != 3 && Pb > 5000) continue; if (m == 1 && dn != 0) continue; if (T < 273.16 && Pb == 0) continue; if (gemsP && (T < 273.16 || (T < 278 && Pb > 4000))) continue; if (gemsP && Pb != 0 && Pb < 0.0062) continue;

            std::string lab = std::string(M.name) + ", density of " + dens[dn].name + ", " + phaseName[ph] + " at " + mc::num6(T) + " K, " + (Pb == 0 ? "saturation" : mc::num6(Pb) + " bar"); mc::visiting(lab);
            std::string key = std::string(M.name) + ":" + dens[dn].name + ":" + (Pb == 0 ? "saturated-" : "") + phaseName[ph] + ":";
            ElectroPropertiesSolvent e; PropertiesSolvent s; double q = P; r.states++; r.traces++; r.transitions += 2;
            try { double q1 = P, q2 = P; s = eng.propertiesSolvent(T, q1, w.symbol(), state); e = eng.electroPropertiesSolvent(T, q2, w.symbol(), state); q = q1; if (Pb == 0 ? !(fabs(q1 / q2 - 1) < 1e-12 && fabsl(q1 / ps - 1) < 5e-3L) : q1 != P || q2 != P) r.violation(key + "pressure", lab + ": pressures reported are " + mc::num(q1) + " and " + mc::num(q2), lab); if (m == 1 && dn != 0) { double q3 = P; WaterHGK g(w); s = g.propertiesSolvent(T, q3, state); } }
            catch (const std::exception& x) { r.violation(key + "fails", lab + ": " + eng::clean(x.what()), lab); continue; }
            r.nontrivial++;
            auto chk = [&](const std::string& what, const ThermoScalar& sc, LD want, LD tol) { if (!defined(sc)) { r.violation(key + what + ":undefined", lab + ": " + what + " is not defined", lab); return; } if (!(fabsl(sc.val - want) <= tol)) r.violation(key + what, lab + ": " + what + " is " + mc::num(sc.val) + ", expected " + mc::num((double)want) + " (" + mc::num6((double)(sc.val / want - 1)) + " relative)", lab); };
            LD rho = s.density.val, rT = s.densityT.val, rP = s.densityP.val, rTT = s.densityTT.val, rTP = s.densityTP.val, rPP = s.densityPP.val;
            D2 d = partials(M.f, T, rho); LD t1 = m == 1 || dn == 0 ? 2e-5L : m >= 2 ? 1e-8L : 1e-9L, t2 = m == 1 || dn == 0 ? 2e-4L : m >= 2 ? 2e-5L : 1e-7L;
            LD eT = d.T + d.r * rT, eP = d.r * rP, eTT = d.TT + 2 * d.Tr * rT + d.rr * rT * rT + d.r * rTT, eTP = d.Tr * rP + d.rr * rT * rP + d.r * rTP, ePP = d.rr * rP * rP + d.r * rPP;
            auto mag = [](std::initializer_list<LD> v) { LD s = 0; for (LD x : v) s += fabsl(x); return s; };
            LD mT = mag({d.T, d.r * rT}), mP = mag({eP}), mTT = mag({d.TT, 2 * d.Tr * rT, d.rr * rT * rT, d.r * rTT}), mTP = mag({d.Tr * rP, d.rr * rT * rP, d.r * rTP}), mPP = mag({d.rr * rP * rP, d.r * rPP});
            chk("epsilon", e.epsilon, d.f, (m == 1 || dn == 0 ? 2e-6L : 1e-10L) * d.f); chk("epsilonT", e.epsilonT, eT, t1 * mT); chk("epsilonP", e.epsilonP, eP, t1 * mP); chk("epsilonTT", e.epsilonTT, eTT, t2 * mTT);
            LD E = e.epsilon.val, E2 = E * E, eT_ = e.epsilonT.val, eP_ = e.epsilonP.val, eTT_ = e.epsilonTT.val;
            LD c = 1e-9L; chk("bornZ", e.bornZ, -1 / E, c / E); chk("bornY", e.bornY, eT_ / E2, c * fabsl(eT_) / E2); chk("bornQ", e.bornQ, eP_ / E2, c * fabsl(eP_) / E2); chk("bornX", e.bornX, eTT_ / E2 - 2 * eT_ * eT_ / (E2 * E), c * (fabsl(eTT_) / E2 + 2 * eT_ * eT_ / (E2 * E)));
            // the derivatives carried along: those of the values
            if (m != 1 && dn != 0) { auto car = [&](const std::string& what, double got, LD want, LD tol) { if (!(fabsl(got - want) <= tol)) r.violation(key + "carried-" + what, lab + ": the carried derivative " + what + " is " + mc::num(got) + ", expected " + mc::num((double)want), lab); };
                LD c1 = 1e-3L * (dn == 3) + 1e-5L, c2 = 2e-3L * (dn == 3) + 1e-4L; LD X = eTT / E2 - 2 * eT * eT / (E2 * E), U = eTP / E2 - 2 * eT * eP / (E2 * E), N = ePP / E2 - 2 * eP * eP / (E2 * E), mX = mTT / E2 + 2 * mT * mT / (E2 * E), mU = mTP / E2 + 2 * mT * mP / (E2 * E), mN = mPP / E2 + 2 * mP * mP / (E2 * E);
                car("dT:epsilon", e.epsilon.ddt, eT, c1 * mT); car("dP:epsilon", e.epsilon.ddp, eP, c1 * mP); car("dT:bornZ", e.bornZ.ddt, eT / E2, c1 * mT / E2); car("dP:bornZ", e.bornZ.ddp, eP / E2, c1 * mP / E2);
                car("dT:epsilonT", e.epsilonT.ddt, eTT, c2 * mTT); car("dT:bornY", e.bornY.ddt, X, c2 * mX);
                if (defined(s.densityTP) && rho > 1) { car("dP:epsilonT", e.epsilonT.ddp, eTP, c2 * mTP); car("dT:epsilonP", e.epsilonP.ddt, eTP, c2 * mTP); car("dP:epsilonP", e.epsilonP.ddp, ePP, c2 * mPP); car("dP:bornY", e.bornY.ddp, U, c2 * mU); car("dT:bornQ", e.bornQ.ddt, U, c2 * mU); car("dP:bornQ", e.bornQ.ddp, N, c2 * mN); } }
            bool second = defined(s.densityTP) && defined(s.densityPP);
            if (m == 0 && second) { chk("epsilonTP", e.epsilonTP, eTP, t2 * mTP); chk("epsilonPP", e.epsilonPP, ePP, (ph && rho < 1 ? 1e-3L : 1e-6L) * mPP); LD tp = e.epsilonTP.val, pp = e.epsilonPP.val; chk("bornU", e.bornU, tp / E2 - 2 * eT_ * eP_ / (E2 * E), c * (fabsl(tp) / E2 + 2 * fabsl(eT_ * eP_) / (E2 * E))); chk("bornN", e.bornN, pp / E2 - 2 * eP_ * eP_ / (E2 * E), c * (fabsl(pp) / E2 + 2 * eP_ * eP_ / (E2 * E))); }
            else { if (defined(e.epsilonPP) && second) chk("epsilonPP", e.epsilonPP, ePP, (ph && rho < 1 ? 1e-3L : 1e-6L) * mPP); for (auto& u : {e.epsilonTP, e.bornU}) if (defined(u) && !defined(s.densityTP)) r.violation(key + "second-derivatives", lab + ": a second derivative with respect to pressure is reported as " + mc::num(u.val) + " without those of the density being available", lab); }
        }
    }, [](const std::string& l) { return l.substr(0, l.find(',')); }); }

static Report values() { Report r; // dielectric constant of water: Archer & Wang; Fernandez et al; experimental
    struct { double T, P; LD e; } tab[] = {{298.15, 1e5, 78.4L}, {273.16, 1e5, 87.9L}, {323.15, 1e5, 69.9L}, {373.15, 0, 55.5L}, {473.15, 0, 34.8L}, {573.15, 0, 20.1L}, {298.15, 1e8, 81.8L}, {673.15, 5e7, 12.2L}};
    Database db; for (int m = 0; m < 4; ++m) { Substance s = synth::base(std::string("W") + char('0' + m), "H2O@", SubstanceClass::type::AQSOLVENT, AggregateState::type::AQUEOUS, synth::ref(-237181, -285881, 69.92, 75.36, 1.807)); s.setMethodGenEoS(models[m].m); s.setMethod_T(m == 1 ? MT::type::CTM_WAT : MT::type::CTM_WWP); s.setThermoParameters(synth::par()); db.addSubstance(s); } ThermoEngine eng(db);
    for (int m = 0; m < 4; ++m) for (auto& q : tab) { if (m == 2 && q.T < 298) continue; double P = q.P; auto e = eng.electroPropertiesSolvent(q.T, P, std::string("W") + char('0' + m), 0); r.states++; r.traces++; r.transitions++; r.nontrivial++; LD tol = m == 2 ? 0.06L : 0.02L; if (!(fabsl(e.epsilon.val - q.e) <= tol * q.e)) r.violation(std::string(models[m].name) + ":value", std::string(models[m].name) + " at " + mc::num6(q.T) + " K, " + mc::num6(q.P) + " Pa: dielectric constant " + mc::num(e.epsilon.val) + ", published " + mc::num6((double)q.e), ""); }
    return r; }

int main(int argc, char** argv) { mc::init(argc, argv); Report r = t08(); r.merge(values()); return mc::finish(r); }
