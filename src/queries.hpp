// The data and the query alphabet with which calculators are explored.
#pragma once
#include "synth.hpp"

namespace eng {
inline Database base(const std::string& js) {
    Database d(js);
    d.addSubstance(synth::cgf()); d.addSubstance(synth::cgfPolar("CGF-H2O"));
    d.addSubstance(synth::stpCO2()); d.addSubstance(synth::an91()); d.addSubstance(synth::hp98());
    d.addSubstance(synth::bm()); d.addSubstance(synth::berman());
    Reaction dm; dm.setSymbol("R-DM"); dm.setName("R-DM"); dm.setEquation("Quartz = SiO2@"); dm.fromEquation("Quartz = SiO2@");
    dm.setReferenceT(298.15); dm.setReferenceP(1e5); dm.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_REA);
    d.addReaction(dm);
    auto dens = [&](const char* name, MethodCorrT_Thrift::type m) {
        Reaction r; r.setSymbol(name); r.setName(name); r.setEquation("Quartz = SiO2@"); r.fromEquation("Quartz = SiO2@");
        r.setReferenceT(298.15); r.setReferenceP(1e5); r.setMethod_T(m);
        ThermoParametersReaction p; p.reaction_FM_coeff = {-4.0, -1000, 10000, 0, 12.0, 1000, 0, 0};
        p.reaction_DM10_coeff = {23.6, -52.9, 7.93, -0.04, 35.238, 0, 0}; p.reaction_RB_coeff = {1.0, 500, 0, 0};
        ThermoPropertiesReaction t; t.log_equilibrium_constant = synth::val(-3.7); t.reaction_gibbs_energy = synth::val(21100);
        t.reaction_enthalpy = synth::val(23000); t.reaction_entropy = synth::val(6.4); t.reaction_heat_capacity_cp = synth::val(5); t.reaction_volume = synth::val(-0.6);
        r.setThermoReferenceProperties(t); r.setThermoParameters(p); d.addReaction(r);
    };
    dens("R-FM", MethodCorrT_Thrift::type::CTM_DKR);
    dens("R-DOL", MethodCorrT_Thrift::type::CTM_DMD);
    return d;
}

inline std::vector<Query> alphabet(bool noH2O) {
    std::vector<Query> q;
    const double A = 298.15, B = 573.15;
    auto sub = [&](std::initializer_list<const char*> l, double T, double P) { for (auto s : l) q.push_back({Query::Sub, s, T, P}); };
    std::vector<const char*> waters = noH2O ? std::vector<const char*>{"W-HGKg", "W-HGKr"} : std::vector<const char*>{"H2O@", "W-HGKg", "W-HGKr", "W-SV", "W-FE"};
    for (auto w : waters) {
        q.push_back({Query::Sub, w, A, 1e5}); q.push_back({Query::Sub, w, B, 2e8});
        for (int st : {-1, 0, 1}) { q.push_back({Query::Solv, w, B, 5e6, st}); if (st < 1) q.push_back({Query::El, w, B, 2e8, st}); }
    }
    if (!noH2O) { sub({"W-WPg", "W-HGKgg"}, B, 1e5); sub({"W-ZD"}, B, 2e8); }
    sub({"Quartz", "Gibbsite", "Portlandite", "Pd-Oxn", "Cs2SeO4"}, B, 2e8);
    sub({"CH4", "CO2(g)", "CO-PRSV", "CO-PR78", "CO-SRK", "mines:CO2", "C6H6O", "CGF-Ar", "CGF-H2O", "STP-CO2", "H2O(g)hgk"}, B, 2e7);
    sub({"CO2(g)", "CO-PRSV"}, A, 1e5);
    sub({"Na+", "Na+g", "CH4@", "CaSiO3@", "HCN@", "H+", "(NpO2)2(OH)2+2", "ZrF6-2", "CoHS+", "H2Se(g)", "AN91-X", "HP98-X"}, B, 2e8);
    sub({"Na+", "CH4@", "ZrF6-2"}, A, 1e5);
    for (auto r : {"(NpO2)2(OH)2+2", "ZrF6-2", "CoHS+", "H2Se(g)", "R-FM", "R-DOL"}) q.push_back({Query::Rx, r, B, 2e8});
    for (auto r : {"CO2(g) = CO2@", "CO-PRSV = CO-PR78", "Quartz = SiO2@", "C6H6O + STP-CO2 = Na+"}) q.push_back({Query::Rx, r, B, 2e7});
    q.push_back({Query::RxFR, "ZrF6-2", B, 2e8});
    q.push_back({Query::SubObj, "CO2(g)", B, 2e7}); q.push_back({Query::SubObj, "Na+", B, 2e8}); q.push_back({Query::RxObj, "R-FM", B, 2e8});
    return q;
}

} // namespace eng
