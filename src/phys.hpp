// Names for the properties, differentiation of a known function, synthetic solvents.
#pragma once
#include "synth.hpp"
#include <GlobalVariables.h>

namespace phys {
using namespace eng;
using LD = long double;
static const LD LN10 = 2.302585092994045684017991L;
static const double modelR = ThermoFun::R_CONSTANT;     // the gas constant of the code

inline std::vector<std::pair<std::string, const ThermoScalar*>> props(const ThermoPropertiesReaction& t) {
    return {{"lnK", &t.ln_equilibrium_constant}, {"logK", &t.log_equilibrium_constant}, {"G", &t.reaction_gibbs_energy}, {"H", &t.reaction_enthalpy}, {"S", &t.reaction_entropy}, {"V", &t.reaction_volume},
            {"Cp", &t.reaction_heat_capacity_cp}, {"U", &t.reaction_internal_energy}, {"A", &t.reaction_helmholtz_energy}, {"Cv", &t.reaction_heat_capacity_cv}}; }
inline std::vector<std::pair<std::string, const ThermoScalar*>> props(const ThermoPropertiesSubstance& t) {
    return {{"G", &t.gibbs_energy}, {"H", &t.enthalpy}, {"S", &t.entropy}, {"V", &t.volume}, {"Cp", &t.heat_capacity_cp}, {"U", &t.internal_energy}, {"A", &t.helmholtz_energy}, {"Cv", &t.heat_capacity_cv}}; }
inline bool defined(const ThermoScalar& s) { return s.sta.first != Reaktoro_::Status::notdefined; }

// The water a density model is given: density an analytic function of T (K) and P (Pa)
struct Water { LD r0, a0, a1, b, T0 = 298.15L, P0 = 1e5L;
    LD rho(LD T, LD P) const { return r0 * expl(-a0 * (T - T0) - a1 / 2 * (T - T0) * (T - T0) + b * (P - P0)); }
    PropertiesSolvent at(double T, double P) const { PropertiesSolvent w; LD q = rho(T, P), al = a0 + a1 * (T - T0); w.density = (double)q; w.Alpha = (double)al; w.dAldT = (double)a1; w.Beta = (double)b; w.densityT = (double)(-al * q); w.densityP = (double)(b * q); w.densityTT = (double)(q * (al * al - a1)); w.densityTP = (double)(-al * b * q); w.densityPP = (double)(b * b * q); return w; } };
// and its dielectric constant
struct Dielectric { LD e0, c1, c2, d, T0 = 298.15L, P0 = 1e5L;
    LD Z(LD T, LD P) const { LD t = T - T0; return -expl(c1 * t + c2 / 2 * t * t - d * (P - P0)) / e0; }
    ElectroPropertiesSolvent at(double T, double P) const { ElectroPropertiesSolvent w; LD t = (LD)T - T0, z = Z(T, P), y = z * (c1 + c2 * t); w.epsilon = (double)(-1 / z); w.bornZ = (double)z; w.bornY = (double)y; w.bornQ = (double)(-d * z); w.bornX = (double)(y * (c1 + c2 * t) + z * c2); w.bornU = (double)(-d * y); w.bornN = (double)(d * d * z); return w; } };
struct Out { LD logK, G, H, S, Cp, V; };
// everything from a function G(T, P): T in K, P in Pa; numerical differentiation in extended precision
inline Out derive(const std::function<LD(LD, LD)>& G, LD T, LD P) {
    auto d1 = [&](const std::function<LD(LD)>& f, LD h) { return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h); };
    auto d2 = [&](const std::function<LD(LD)>& f, LD h) { return (-f(2 * h) + 16 * f(h) - 30 * f(0) + 16 * f(-h) - f(-2 * h)) / (12 * h * h); };
    Out o; o.G = G(T, P); auto fT = [&](LD h) { return G(T + h, P); }; auto fP = [&](LD h) { return G(T, P + h); };
    o.S = -d1(fT, 0.03L); o.Cp = -T * d2(fT, 0.3L); o.V = d1(fP, 2e4L) * 1e5L; o.H = o.G + T * o.S; o.logK = -o.G / (modelR * T * LN10); return o; }

// Gauss-Legendre quadrature, 16 points, on n panels
inline LD gauss(const std::function<LD(LD)>& f, LD a, LD b, int n = 1) {
    static const LD x[8] = {0.0950125098376374401853193354249580631303L, 0.2816035507792589132304605014604961064860L, 0.4580167776572273863424194429835775735400L, 0.6178762444026437484466717640487910189918L, 0.7554044083550030338951011948474422683538L, 0.8656312023878317438804678977123931323873L, 0.9445750230732325760779884155346083450911L, 0.9894009349916499325961541734503326274262L};
    static const LD w[8] = {0.1894506104550684962853967232082831051469L, 0.1826034150449235888667636679692199393835L, 0.1691565193950025381893120790303599622116L, 0.1495959888165767320815017305474785489704L, 0.1246289712555338720524762821920164201448L, 0.0951585116824927848099251076022462263552L, 0.0622535239386478928628438369943776942749L, 0.0271524594117540948517805724560181035122L};
    LD s = 0, h = (b - a) / n; for (int k = 0; k < n; ++k) { LD c = a + (k + 0.5L) * h, d = h / 2; for (int i = 0; i < 8; ++i) s += w[i] * d * (f(c - d * x[i]) + f(c + d * x[i])); } return s; }

} // namespace phys
