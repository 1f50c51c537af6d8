// Records for calculation paths that no shipped data set uses.
#pragma once
#include "eng.hpp"

namespace synth {
using namespace ThermoFun;
using Reaktoro_::Status;

inline Reaktoro_::ThermoScalar val(double v) { Reaktoro_::ThermoScalar s; s.val = v; s.sta = {Status::read, ""}; return s; }

inline ThermoPropertiesSubstance ref(double G, double H, double S, double Cp, double V) {
    ThermoPropertiesSubstance t; t.gibbs_energy = val(G); t.enthalpy = val(H); t.entropy = val(S); t.heat_capacity_cp = val(Cp); t.volume = val(V); return t;
}
inline Substance base(const std::string& sym, const std::string& formula, SubstanceClass::type cls, AggregateState::type agg, const ThermoPropertiesSubstance& r) {
    Substance s; s.setSymbol(sym); s.setName(sym); s.setFormula(formula); s.setSubstanceClass(cls); s.setAggregateState(agg);
    s.setReferenceT(298.15); s.setReferenceP(1e5); s.setThermoReferenceProperties(r); s.setThermoCalculationType(SubstanceThermoCalculationType::type::DCOMP);
    return s;
}
inline ThermoParametersSubstance par() { ThermoParametersSubstance p; p.isobaric_expansivity = 0; p.isothermal_compresibility = 0; return p; }

inline Substance gas(const std::string& sym, const std::string& formula, MethodCorrP_Thrift::type m, const std::vector<double>& crit, const std::vector<double>& cp, const ThermoPropertiesSubstance& r) {
    Substance s = base(sym, formula, SubstanceClass::type::GASFLUID, AggregateState::type::GAS, r);
    s.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CPT); s.setMethod_P(m);
    ThermoParametersSubstance p = par(); p.temperature_intervals = {{273.15, 2500}}; p.Cp_coeff = {cp}; p.critical_parameters = crit;
    s.setThermoParameters(p); return s;
}
inline Substance cgf(const std::string& sym = "CGF-Ar") {
    // sigma (A), eps/k (K), then the polar and quadrupole parameters
    return gas(sym, "Ar", MethodCorrP_Thrift::type::CPM_EMP, {3.3952, 116.79, 0.0, 0.0, 0, 0, 0, 0, 0, 0, 0, 0}, {20.786, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, ref(0, 0, 154.8, 20.786, 2478.9));
}
inline Substance cgfPolar(const std::string& sym = "CGF-H2O") {
    return gas(sym, "H2O", MethodCorrP_Thrift::type::CPM_EMP, {2.68, 410.3, 1.85, 0.0, 0, 0, 0, 0, 0, 0, 0, 0}, {29.9, 0.0107, 33000, 0, 0, 0, 0, 0, 0, 0, 0}, ref(-228569, -241818, 188.8, 33.6, 2478.9));
}
inline Substance stpCO2() {
    return gas("STP-CO2", "CO2", MethodCorrP_Thrift::type::CPM_STP, {304.2, 73.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {44.2, 0.0088, -861900, 0, 0, 0, 0, 0, 0, 0, 0}, ref(-394350, -393510, 213.8, 37.1, 2478.9));
}
inline Substance stpH2O() {
    return gas("STP-H2O", "H2O", MethodCorrP_Thrift::type::CPM_STP, {647.1, 220.6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {29.9, 0.0107, 33000, 0, 0, 0, 0, 0, 0, 0, 0}, ref(-228569, -241818, 188.8, 33.6, 2478.9));
}
inline Substance aqueous(const std::string& sym, const std::string& formula, MethodGenEoS_Thrift::type g, const ThermoPropertiesSubstance& r) {
    Substance s = base(sym, formula, SubstanceClass::type::AQSOLUTE, AggregateState::type::AQUEOUS, r);
    s.setMethodGenEoS(g); s.setThermoParameters(par()); return s;
}
inline Substance an91() {
    Substance s = aqueous("AN91-X", "SiO2@", MethodGenEoS_Thrift::type::CTPM_AN91, ref(-833411, -887900, 41.3, 50.0, 1.6));
    return s;
}
inline Substance hp98() {
    Substance s = aqueous("HP98-X", "SiO2@", MethodGenEoS_Thrift::type::CTPM_HP98, ref(-833411, -887900, 41.3, 50.0, 1.6));
    auto p = par(); p.solute_holland_powell98_coeff = {0.0283}; s.setThermoParameters(p); return s;
}
inline Substance mineral(const std::string& sym, MethodCorrP_Thrift::type m) {
    Substance s = base(sym, "SiO2", SubstanceClass::type::COMPONENT, AggregateState::type::CRYSTAL, ref(-855000, -910700, 41.43, 44.6, 2.269));
    s.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CPT); s.setMethod_P(m);
    auto p = par(); p.temperature_intervals = {{273.15, 2000}}; p.Cp_coeff = {{110.7, -0.005189, 0, -1128.3, 0, 0, 0, 0, 0, 0, 0}};
    s.setThermoParameters(p); return s;
}
inline Substance bm() {
    Substance s = mineral("BM-X", MethodCorrP_Thrift::type::CPM_VBM); auto p = s.thermoParameters();
    // V0(J/bar), K0 (kbar?) and their temperature dependence, see T04
    p.volume_BirchM_coeff = {1e-5, 1e-9, 0, 0, 0, 370000, -30, 6.0, 0.0, 0, 0};
    s.setThermoParameters(p); return s;
}
inline Substance berman() {
    Substance s = mineral("BERM-X", MethodCorrP_Thrift::type::CPM_VBE); auto p = s.thermoParameters();
    p.volume_coeff = {2.4e-5, 1.0e-9, -1.2e-6, 2.0e-12, 0};
    s.setThermoParameters(p); return s;
}

} // namespace synth
