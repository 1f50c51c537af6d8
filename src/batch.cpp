// B01 to B04: the batch calculator and the tables it writes.
#include "phys.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <Batch/ThermoBatch.h>
#include <Batch/OutputBatch.h>
#include <Common/OutputToCSV.h>
#include <Common/Units.hpp>
using namespace phys; using mc::Report; using mc::num; using mc::num6;
typedef std::vector<std::string> VS; typedef std::vector<double> VD; typedef std::vector<VD> VVD;

static const VS subProps = {"gibbs_energy", "enthalpy", "entropy", "heat_capacity_cp", "heat_capacity_cv", "volume", "helmholtz_energy", "internal_energy"};
static const VS rxProps = {"reaction_gibbs_energy", "reaction_helmholtz_energy", "reaction_internal_energy", "reaction_enthalpy", "reaction_entropy", "reaction_volume", "reaction_heat_capacity_cp", "reaction_heat_capacity_cv", "logKr", "lnKr"};
static ThermoScalar field(const ThermoPropertiesSubstance& t, const std::string& p) {
    return p == "gibbs_energy" ? t.gibbs_energy : p == "enthalpy" ? t.enthalpy : p == "entropy" ? t.entropy : p == "heat_capacity_cp" ? t.heat_capacity_cp : p == "heat_capacity_cv" ? t.heat_capacity_cv : p == "volume" ? t.volume : p == "helmholtz_energy" ? t.helmholtz_energy : t.internal_energy; }
static ThermoScalar field(const ThermoPropertiesReaction& t, const std::string& p) {
    return p == "reaction_gibbs_energy" ? t.reaction_gibbs_energy : p == "reaction_helmholtz_energy" ? t.reaction_helmholtz_energy : p == "reaction_internal_energy" ? t.reaction_internal_energy : p == "reaction_enthalpy" ? t.reaction_enthalpy : p == "reaction_entropy" ? t.reaction_entropy
        : p == "reaction_volume" ? t.reaction_volume : p == "reaction_heat_capacity_cp" ? t.reaction_heat_capacity_cp : p == "reaction_heat_capacity_cv" ? t.reaction_heat_capacity_cv : p == "logKr" ? t.log_equilibrium_constant : t.ln_equilibrium_constant; }

static const Database& data() { static Database* d = nullptr; if (!d) { auto j = readJson("mini.json"); d = new Database(j.dump()); Substance s = synth::base("A,B;C", "SiO2", SubstanceClass::type::COMPONENT, AggregateState::type::CRYSTAL, synth::ref(-1000, -2000, 30, 40, 1.5)); s.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON); s.setThermoParameters(synth::par()); d->addSubstance(s); d->addSubstance(synth::mineral("fast", MethodCorrP_Thrift::type::CPM_CON)); Reaction x; x.setSymbol("dry"); x.setName("dry"); x.fromEquation("A,B;C = fast"); x.setMethod_T(MethodCorrT_Thrift::type::CTM_EK1); ThermoPropertiesReaction q; q.reaction_gibbs_energy = synth::val(1000); q.reaction_entropy = synth::val(2); x.setThermoReferenceProperties(q); x.setReferenceT(298.15); x.setReferenceP(1e5); d->addReaction(x); } return *d; }

// The single queries a batch is to agree with
struct Oracle {
    ThermoEngine e; bool reaction, reactants; std::map<std::tuple<std::string, double, double>, std::pair<bool, std::pair<double, std::vector<ThermoScalar>>>> memo;
    Oracle(bool rx, bool fr) : e(data()), reaction(rx), reactants(fr) {}
    // whether it succeeds, the pressure after it, all properties in the order of subProps/rxProps
    const std::pair<bool, std::pair<double, std::vector<ThermoScalar>>>& ask(const std::string& s, double T, double P) {
        auto k = std::make_tuple(s, T, P); auto it = memo.find(k); if (it != memo.end()) return it->second;
        std::pair<bool, std::pair<double, std::vector<ThermoScalar>>> r; r.first = true; double q = P;
        try { if (!reaction) { auto t = e.thermoPropertiesSubstance(T, q, s); for (auto& p : subProps) r.second.second.push_back(field(t, p)); } else { auto t = reactants ? e.thermoPropertiesReactionFromReactants(T, q, s) : e.thermoPropertiesReaction(T, q, s); for (auto& p : rxProps) r.second.second.push_back(field(t, p)); } } catch (const std::exception&) { r.first = false; }
        r.second.first = q; return memo[k] = r; }
    // the pressure at which all of these are evaluated: the saturation pressure if one of them needs it
    double pressure(const VS& syms, double T, double P) { if (P != 0) return P; for (auto& s : syms) { auto& a = ask(s, T, 0); if (a.first && a.second.first != 0) return a.second.first; } return 0; }
    bool succeeds(const VS& syms, double T, double P) { for (auto& s : syms) if (!ask(s, T, P).first || !ask(s, T, pressure(syms, T, P)).first) return false; return true; }
    ThermoScalar value(const VS& syms, const std::string& s, double T, double P, const std::string& prop) { const VS& ps = reaction ? rxProps : subProps; size_t k = std::find(ps.begin(), ps.end(), prop) - ps.begin(); return ask(s, T, P != 0 || ask(s, T, 0).second.first != 0 ? P : pressure(syms, T, 0)).second.second[k]; }
};
static bool agree(double a, double b) { return mc::same(a, b) || fabs(a - b) <= 1e-8 * std::max(fabs(a), fabs(b)) + 1e-6; }
template <class T> static std::string list(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
static std::string pairsText(const VVD& v) { std::string s; for (auto& p : v) s += "(" + num6(p[0]) + "," + num6(p[1]) + ")"; return s; }
// all tuples of 1 to n members of an alphabet
template <class T> static std::vector<std::vector<T>> tuples(const std::vector<T>& a, size_t n) { std::vector<std::vector<T>> out, last = {{}}; for (size_t k = 0; k < n; ++k) { std::vector<std::vector<T>> next; for (auto& t : last) for (auto& x : a) { auto u = t; u.push_back(x); next.push_back(u); } out.insert(out.end(), next.begin(), next.end()); last = next; } return out; }

// ---------------------------------------------------------------- B01
static Report b01() {
    bool th = mc::options().thorough();
    static const VS subs = {"H2O@", "Calcite", "Na+", "CO2(g)", "CO2@", "NaHCO3@", "H+"}, rxs = {"NaHCO3@", "H2Se(g)", "CoHS+", "(NpO2)2(OH)2+2", "ZrF6-2"};
    struct Cond { std::string uT, uP; VVD pairs; }; 
    static const std::vector<Cond> conds = {{"degC", "bar", {{25, 1}, {100, 0}, {25, 0}, {60, 500}, {25, 1000}}}, {"K", "Pa", {{298.15, 1e5}, {373.15, 0}, {323.15, 5e7}}}, {"K", "MPa", {{298.15, 0.1}, {320, 0}, {350, 20}}}, {"degF", "kPa", {{77, 100}, {212, 0}, {150, 2e4}}}};
    struct Job { int kind; VS syms; VS props; size_t cond; }; std::vector<Job> jobs;
    for (int kind = 0; kind < 3; ++kind) { const VS& al = kind ? rxs : subs; const VS& ps = kind ? rxProps : subProps; size_t k = 0;
        for (auto& s : tuples(al, 3)) { ++k; if (!th && s.size() == 3 && k % 2) continue; jobs.push_back({kind, s, {ps[k % ps.size()], ps[(k / 3 + 1) % ps.size()]}, s.size() < 3 ? 99 : k % 4}); }
        for (auto& p : tuples(ps, th ? 3 : 2)) jobs.push_back({kind, {al[0], al[1]}, p, 0}); jobs.push_back({kind, {al[2], al[0]}, ps, 0}); VS all = al; jobs.push_back({kind, all, ps, 99}); VS rev(all.rbegin(), all.rend()); jobs.push_back({kind, rev, ps, 99}); }
    return mc::parallel(jobs.size() + 8, [&](size_t item, Report& r) {
        if (item >= jobs.size()) {   // histories: two calculations on one batch, in every order, successful or not
            int part = item - jobs.size(), kind = part % 2; static std::map<int, std::unique_ptr<Oracle>> os; auto& o = os[kind]; if (!o) o = std::make_unique<Oracle>(kind, false);
            const VS& al = kind ? rxs : subs; const VS& ps = kind ? rxProps : subProps; struct Call { VS s, p; VVD c; bool bad; }; std::vector<Call> calls;
            for (size_t i = 0; i < 5; ++i) calls.push_back({{al[i], al[(i + 2) % 5]}, {ps[i], ps[i + 2]}, i % 2 ? VVD{{298.15, 1e5}, {333.15, 0}} : VVD{{323.15, 2e7}}, false});
            calls.push_back({{al[0], "nothing"}, {ps[1]}, {{298.15, 1e5}}, true}); calls.push_back({{al[0]}, {ps[1], "no_property"}, {{298.15, 1e5}}, true}); calls.push_back({{al[0]}, {kind ? subProps[1] : rxProps[1]}, {{298.15, 1e5}}, true}); calls.push_back({{}, {ps[0]}, {{298.15, 1e5}}, false}); calls.push_back({{al[1]}, {}, {{298.15, 1e5}}, false}); calls.push_back({{al[1]}, {ps[0]}, {}, false});
            if (part == 0) r.sample("every sequence of three calculations out of " + std::to_string(calls.size()) + " on one batch, successful and failing, by list and by pair");
            size_t n = calls.size();
            for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) for (size_t c = 0; c < n; ++c) { if ((a * 5 + b + c) % 4 != size_t(part / 2)) continue;
                ThermoBatch batch(data()); std::vector<std::pair<size_t, std::vector<VD>>> held; std::vector<Output> outs; std::string lab = "calls " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + (kind ? " of reactions" : " of substances"); mc::visiting(lab); r.states++; r.traces++;
                for (size_t k : {a, b, c}) { auto& q = calls[k]; r.transitions++; bool failed = false; try { outs.push_back(kind ? batch.thermoPropertiesReaction(q.c, q.s, q.p) : batch.thermoPropertiesSubstance(q.c, q.s, q.p)); held.push_back({k, {}}); } catch (const std::exception&) { failed = true; }
                    if (failed != q.bad) r.violation("history:outcome:" + std::to_string(kind), lab + ": call " + std::to_string(k) + " for " + list(q.s) + " and " + list(q.p) + (failed ? " fails" : " does not fail"), lab); }
                for (size_t h = 0; h < outs.size(); ++h) { auto& q = calls[held[h].first]; r.nontrivial++; auto v = outs[h].to2DVectorDouble(); bool ok = v.size() == q.s.size() * q.c.size(); for (size_t i = 0; ok && i < q.s.size(); ++i) for (size_t j = 0; ok && j < q.c.size(); ++j) { auto& row = v[i * q.c.size() + j]; ok = row.size() == q.p.size(); for (size_t k = 0; ok && k < q.p.size(); ++k) ok = agree(row[k], o->value(q.s, q.s[i], q.c[j][0], q.c[j][1], q.p[k]).val); }
                    if (!ok) r.violation(std::string("history:results:") + (kind ? "reactions" : "substances"), lab + ": the results of call " + std::to_string(h) + " are not its own after all calls", lab); } }
            return; }
        const Job& job = jobs[item]; const char* kn = job.kind == 0 ? "substances" : job.kind == 1 ? "reactions" : "reactions from reactants"; Oracle o(job.kind > 0, job.kind == 2);
        if (item % 97 == 0) r.sample(std::string(kn) + " " + list(job.syms) + " " + list(job.props) + ", all lists of up to three conditions");
        ThermoBatch batch(data()); ThermoEngine eng0(data()); ThermoBatch other(eng0);
        for (size_t ci = 0; ci < conds.size(); ++ci) { if (job.cond != 99 && job.cond != ci) continue; auto& C = conds[ci]; size_t count = 0;
            for (auto* b : {&batch, &other}) { b->setPropertiesUnits({"temperature", "pressure"}, {C.uT, C.uP}); b->preferences().reactionPropertiesFromReactants = job.kind == 2; }
            auto K = [&](const VD& p) { return std::make_pair(units::convert(p[0], C.uT, "K"), units::convert(p[1], C.uP, "Pa")); };
            auto lists = tuples(C.pairs, 3); for (auto& pairs : lists) for (int loop = 0; loop < 2; ++loop) { ++count; ThermoBatch& B = count % 3 ? batch : other; B.preferences().loopOverTPpairsFirst = loop;
                std::string lab = std::string(kn) + " " + list(job.syms) + " " + list(job.props) + " at " + pairsText(pairs) + " " + C.uT + "," + C.uP + (loop ? "" : ", symbols first"); mc::visiting(lab); r.states++; r.transitions++; r.traces++;
                bool ok = true; for (auto& p : pairs) { auto q = K(p); ok = ok && o.succeeds(job.syms, q.first, q.second); }
                std::vector<VD> v; ThermoScalar first; bool got = true; std::string why;
                try { auto out = job.kind ? B.thermoPropertiesReaction(pairs, job.syms, job.props) : B.thermoPropertiesSubstance(pairs, job.syms, job.props); v = out.to2DVectorDouble(); first = out.toThermoScalar(); if (!mc::same(first.val, out.toDouble())) r.violation("toDouble", lab + ": toDouble and toThermoScalar differ", lab); } catch (const std::exception& x) { got = false; why = eng::clean(x.what()); }
                if (got != ok) { r.violation(std::string("outcome:") + kn, lab + (got ? ": succeeds, a single query fails" : ": fails although every single query succeeds: " + why), lab); continue; } if (!ok) continue; r.nontrivial++;
                if (v.size() != job.syms.size() * pairs.size()) { r.violation(std::string("size:") + kn, lab + ": " + std::to_string(v.size()) + " results", lab); continue; }
                for (size_t i = 0; i < job.syms.size(); ++i) for (size_t j = 0; j < pairs.size(); ++j) { auto& row = v[loop ? i * pairs.size() + j : j * job.syms.size() + i]; auto q = K(pairs[j]); if (row.size() != job.props.size()) { r.violation(std::string("columns:") + kn, lab + ": " + std::to_string(row.size()) + " values instead of " + std::to_string(job.props.size()), lab); continue; }
                    for (size_t k = 0; k < job.props.size(); ++k) { auto want = o.value(job.syms, job.syms[i], q.first, q.second, job.props[k]); if (!agree(row[k], want.val)) r.violation(std::string("value:") + kn + ":" + job.props[k], lab + ": " + job.props[k] + " of " + job.syms[i] + " at " + num6(pairs[j][0]) + ", " + num6(pairs[j][1]) + " is " + num(row[k]) + ", a single query gives " + num(want.val), lab); if (!i && !j && !k && (!agree(first.val, want.val) || first.sta.first != want.sta.first || !agree(first.err, want.err))) r.violation(std::string("scalar:") + kn, lab + ": value, uncertainty or status returned differ from those of the single query", lab); } }
                // the other ways of asking for the same
                if (count % 5 && !th) continue;
                auto compare = [&](const char* way, const std::vector<VD>& w, const std::vector<VD>& u) { r.transitions++; bool same = w.size() == u.size(); for (size_t i = 0; same && i < w.size(); ++i) { same = w[i].size() == u[i].size(); for (size_t k = 0; same && k < w[i].size(); ++k) same = agree(w[i][k], u[i][k]); } if (!same) r.violation(std::string("interface:") + way + ":" + kn, lab + ": " + way + " gives other results", lab); };
                try {
                    if (pairs.size() == 1) { double T = pairs[0][0], P = pairs[0][1]; compare("one condition", (job.kind ? B.thermoPropertiesReaction(T, P, job.syms, job.props) : B.thermoPropertiesSubstance(T, P, job.syms, job.props)).to2DVectorDouble(), v);
                        compare("one symbol and property", (job.kind ? B.thermoPropertiesReaction(T, P, job.syms[0], job.props[0]) : B.thermoPropertiesSubstance(T, P, job.syms[0], job.props[0])).to2DVectorDouble(), {{o.value({job.syms[0]}, job.syms[0], K(pairs[0]).first, K(pairs[0]).second, job.props[0]).val}});
                        B.setTemperatureIncrement(T, T, 0); B.setPressureIncrement(P, P, 0); compare("increments", (job.kind ? B.thermoPropertiesReaction(job.syms, job.props) : B.thermoPropertiesSubstance(job.syms, job.props)).to2DVectorDouble(), v); }
                    // lists of temperatures and pressures: all pairs of them
                    VD Ts, Ps; for (auto& p : pairs) { Ts.push_back(p[0]); Ps.push_back(p[1]); } bool all = true; for (double T : Ts) for (double P : Ps) { auto q = K({T, P}); all = all && o.succeeds(job.syms, q.first, q.second); }
                    if (all) for (int tp = 0; tp < 2; ++tp) { B.preferences().loopTemperatureThenPressure = tp; VVD full; for (double x : tp ? Ts : Ps) for (double y : tp ? Ps : Ts) full.push_back(tp ? VD{x, y} : VD{y, x}); auto w = (job.kind ? B.thermoPropertiesReaction(Ts, Ps, job.syms, job.props) : B.thermoPropertiesSubstance(Ts, Ps, job.syms, job.props)).to2DVectorDouble();
                        std::vector<VD> want(full.size() * job.syms.size()); for (size_t i = 0; i < job.syms.size(); ++i) for (size_t j = 0; j < full.size(); ++j) { auto q = K(full[j]); for (auto& p : job.props) want[loop ? i * full.size() + j : j * job.syms.size() + i].push_back(o.value(job.syms, job.syms[i], q.first, q.second, p).val); } compare(tp ? "lists, temperature first" : "lists, pressure first", w, want); B.preferences().loopTemperatureThenPressure = true; }
                    // properties that were calculated elsewhere
                    if (!job.kind) { std::vector<ThermoPropertiesSubstance> given; for (size_t i = 0; i < v.size(); ++i) { ThermoPropertiesSubstance t; size_t n = 0; for (auto* f : {&t.gibbs_energy, &t.enthalpy, &t.entropy, &t.heat_capacity_cp, &t.heat_capacity_cv, &t.volume, &t.helmholtz_energy, &t.internal_energy}) *f = 1000.0 * i + ++n; given.push_back(t); }
                        std::vector<VD> want; for (auto& t : given) { want.push_back({}); for (auto& p : job.props) want.back().push_back(field(t, p).val); } compare("given properties", B.thermoPropertiesSubstance(pairs, job.syms, job.props, given).to2DVectorDouble(), want); given.pop_back(); bool th = given.empty(); if (!th) try { B.thermoPropertiesSubstance(pairs, job.syms, job.props, given); } catch (const std::exception&) { th = true; } if (!th) r.violation("given-number:substances", lab + ": too few given properties are not reported", lab); }
                    else { std::vector<ThermoPropertiesReaction> given; for (size_t i = 0; i < v.size(); ++i) { ThermoPropertiesReaction t; size_t n = 0; for (auto* f : {&t.reaction_gibbs_energy, &t.reaction_helmholtz_energy, &t.reaction_internal_energy, &t.reaction_enthalpy, &t.reaction_entropy, &t.reaction_volume, &t.reaction_heat_capacity_cp, &t.reaction_heat_capacity_cv, &t.log_equilibrium_constant, &t.ln_equilibrium_constant}) *f = 1000.0 * i + ++n; given.push_back(t); }
                        std::vector<VD> want; for (auto& t : given) { want.push_back({}); for (auto& p : job.props) want.back().push_back(field(t, p).val); } compare("given properties", B.thermoPropertiesReaction(pairs, job.syms, job.props, given).to2DVectorDouble(), want); given.push_back({}); bool th = false; try { B.thermoPropertiesReaction(pairs, job.syms, job.props, given); } catch (const std::exception&) { th = true; } if (!th) r.violation("given-number:reactions", lab + ": too many given properties are not reported", lab); }
                } catch (const std::exception& x) { r.violation(std::string("interface:fails:") + kn, lab + ": " + eng::clean(x.what()), lab); }
            } }
    });
}

// ---------------------------------------------------------------- files
static std::string scratchFile(const std::string& n) { auto d = (mc::options().scratch.empty() ? std::string("/tmp") : mc::options().scratch) + "/batch-" + std::to_string(getpid()); static bool made = false; if (!made) { mkdir(d.c_str(), 0700); made = true; } return d + "/" + n; }
static std::vector<VS> readTable(const std::string& file, const std::string& sep) { std::vector<VS> rows; std::ifstream f(file); std::string l; while (std::getline(f, l)) { VS row; size_t i = 0; for (;;) { size_t j = sep.empty() ? std::string::npos : l.find(sep, i); row.push_back(l.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + sep.size(); } rows.push_back(row); } return rows; }
enum Notation { Fixed, Scientific, General };
// whether a text is this value, in this notation with these digits
static bool shows(const std::string& text, double v, int digits, Notation n) {
    char* end; double got = strtod(text.c_str(), &end); if (text.empty() || *end) return false; if (std::isnan(v)) return std::isnan(got); if (std::isinf(v)) return got == v;
    size_t e = text.find_first_of("eE"), dot = text.find('.'); std::string mant = text.substr(0, e); int dec = dot == std::string::npos ? 0 : int(mant.size() - dot - 1); double slack = 1e-9 * fabs(v) + 1e-12, half;
    if (n == Fixed) { if (e != std::string::npos || dec != digits) return false; half = 0.5 * pow(10, -digits); }
    else if (n == Scientific) { if (e == std::string::npos || dec != digits) return false; half = v == 0 ? 0 : 0.5 * pow(10, floor(log10(fabs(v)) + 1e-9) - digits); }
    else { int d = std::max(1, digits); half = v == 0 ? 0 : 0.5 * pow(10, floor(log10(fabs(v)) + 1e-9) - d + 1); }
    return fabs(got - v) <= half + slack; }
static std::string replaced(std::string s, const std::string& sep) { for (size_t i; !sep.empty() && (i = s.find(sep)) != std::string::npos;) s = s.substr(0, i) + "_" + s.substr(i + sep.size()); return s; }

// ---------------------------------------------------------------- B02
static Report b02() {
    bool th = mc::options().thorough();
    struct Unit { std::string name; double factor; };
    static const std::map<std::string, Unit> unitA = {{"gibbs_energy", {"kJ/mol", 1e-3}}, {"enthalpy", {"cal/mol", 1 / 4.184}}, {"entropy", {"J/K/mol", 1}}, {"volume", {"cm3", 10}}, {"heat_capacity_cp", {"J/K/mol", 1}}, {"reaction_gibbs_energy", {"kJ/mol", 1e-3}}, {"reaction_enthalpy", {"J/mol", 1}}, {"logKr", {"1", 1}}, {"reaction_volume", {"J/bar", 1}}};
    static const std::vector<VS> symLists = {{"Calcite"}, {"H2O@", "Calcite"}, {"Calcite", "A,B;C", "Na+"}, {"Na+", "Na+"}, {"CO2(g)", "H2O@", "A,B;C", "H+"}}, rxLists = {{"NaHCO3@"}, {"H2Se(g)", "NaHCO3@"}, {"NaHCO3@", "ZrF6-2", "NaHCO3@"}};
    static const std::vector<VVD> condLists = {{{25, 1}}, {{25, 1}, {60, 1}}, {{25, 1}, {25, 100}}, {{60, 1}, {25, 1}, {25, 100}}, {{25, 1}, {60, 100}}, {{25, 1}, {25, 1}}, {{25, 0}}, {{25, 0}, {60, 0}, {100, 0}}, {{25, 1}, {25, 100}, {25, 1}, {60, 1}, {60, 100}}, {{60, 0}, {60, 1}, {25, 100}, {25, 0}}};
    struct Lists { VD T, P; }; static const std::vector<Lists> tpLists = {{{25}, {1}}, {{25, 60}, {1, 100, 200}}, {{60, 25, 100}, {1, 100}}, {{25, 60, 100}, {0}}, {{25, 25}, {1, 100}}, {{25, 60}, {0, 100}}};
    static const std::vector<VS> propLists = {{"gibbs_energy"}, {"entropy", "gibbs_energy"}, {"volume", "enthalpy", "heat_capacity_cp"}, {"enthalpy", "enthalpy"}}, rxPropLists = {{"logKr"}, {"reaction_gibbs_energy", "logKr"}, {"reaction_volume", "reaction_enthalpy", "logKr"}};
    struct Fmt { int shift; Notation n; std::string sep; bool nan; bool unit; }; std::vector<Fmt> fmts; for (int d = 0; d < 3; ++d) for (auto n : {Fixed, Scientific, General}) for (auto sep : {",", ";", "\t", ", "}) for (int k = 0; k < 4; ++k) { if (!th && (d + n + k) % 2) continue; fmts.push_back({d, n, sep, k % 2 == 0, k / 2 == 0}); }
    size_t nC = condLists.size() + tpLists.size();
    struct Job { int rx; size_t s, p; }; std::vector<Job> jobs; for (size_t s = 0; s < symLists.size(); ++s) for (size_t p = 0; p < propLists.size(); ++p) jobs.push_back({0, s, p}); for (size_t s = 0; s < rxLists.size(); ++s) for (size_t p = 0; p < rxPropLists.size(); ++p) jobs.push_back({1, s, p});
    return mc::parallel(jobs.size() * nC + 1, [&](size_t item, Report& r) {
        if (item == jobs.size() * nC) {   // the plain writer of tables
            std::string dir = scratchFile(""); ThermoPropertiesSubstance t; PropertiesSolvent p; ElectroPropertiesSolvent e; int n = 0;
            for (auto* f : {&t.gibbs_energy, &t.enthalpy, &t.entropy, &t.heat_capacity_cp, &t.heat_capacity_cv, &t.volume, &t.helmholtz_energy, &t.internal_energy, &p.density, &p.densityT, &p.densityP, &p.densityTT, &p.densityTP, &p.densityPP, &p.Alpha, &p.dAldT, &p.Beta, &e.bornN, &e.bornQ, &e.bornU, &e.bornX, &e.bornY, &e.bornZ, &e.epsilon, &e.epsilonP, &e.epsilonPP, &e.epsilonT, &e.epsilonTP, &e.epsilonTT}) *f = double(++n);
            const VD first[3] = {{1, 2, 3, 4, 5, 6, 7, 8}, {9, 10, 11, 12, 13, 14, 15, 16, 17}, {18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29}}; const char* cols[3] = {"G0 H0 S0 Cp0 Cv0 V0 A0 U0", "Rho Rho_dT Rho_dP Rho_d2T Rho_dTdP Rho_d2P Aplha Alpha_dT Beta", "bornN bornQ bornU bornX bornY bornZ eps eps_dP eps_d2P eps_dT eps_dTdP eps_d2T"}; const char* kinds[3] = {"substance", "solvent", "dielectric"};
            // every sequence of up to four of: open one of two files, write a row, close
            for (int kind = 0; kind < 3; ++kind) for (int len = 1; len <= 5; ++len) { int total = 1; for (int i = 0; i < len; ++i) total *= 4; for (int code = 0; code < total; ++code) {
                std::string lab = std::string(kinds[kind]) + ": "; unlink(scratchFile("f0").c_str()); unlink(scratchFile("f1").c_str()); std::map<int, int> want; int cur = -1; 
                { OutputToCSV w(dir); int c = code; for (int i = 0; i < len; ++i, c /= 4) { r.transitions++; int op = c % 4; if (op < 2) { lab += "open f" + std::to_string(op) + "; "; cur = op; want[op] = 0; std::string f = "f" + std::to_string(op); if (kind == 0) w.openThermoPropertiesSubstanceFile(f); else if (kind == 1) w.openPropertiesSolventFile(f); else w.openElectroPropertiesSolventFile(f); } else if (op == 2) { if (cur < 0) continue; lab += "write; "; want[cur]++; if (kind == 0) w.writeThermoPropertiesSubstance("X", 25, 1, t); else if (kind == 1) w.writePropertiesSolvent("X", 25, 1, p); else w.writeElectroPropertiesSolvent("X", 25, 1, e); } else { lab += "close; "; cur = -1; if (kind == 0) w.closeThermoPropertiesSubstanceFile(); else if (kind == 1) w.closePropertiesSolventFile(); else w.closeElectroPropertiesSolventFile(); } } }
                mc::visiting(lab); r.states++; r.traces++; r.nontrivial++;
                for (auto& kv : want) { auto rows = readTable(scratchFile("f" + std::to_string(kv.first)), ","); size_t n = kv.second ? kv.second + 1 : 0; if (rows.size() != n) { r.violation(std::string("writer:rows:") + kinds[kind], lab + "file f" + std::to_string(kv.first) + " has " + std::to_string(rows.size()) + " lines instead of " + std::to_string(n), lab); continue; } if (!n) continue;
                    std::istringstream in(cols[kind]); VS names; std::string x; while (in >> x) names.push_back(x); bool ok = rows[0].size() == 3 + names.size(); for (size_t i = 0; ok && i < names.size(); ++i) ok = rows[0][i + 3].substr(0, rows[0][i + 3].find('(')) == names[i]; if (!ok) { r.violation(std::string("writer:header:") + kinds[kind], lab + "the header is not as expected", lab); continue; }
                    for (size_t k = 1; k < rows.size(); ++k) { bool ok = rows[k].size() == rows[0].size() && rows[k][0] == "X" && rows[k][1] == "25" && rows[k][2] == "1"; for (size_t i = 0; ok && i < names.size(); ++i) ok = strtod(rows[k][i + 3].c_str(), nullptr) == first[kind][i]; if (!ok) r.violation(std::string("writer:columns:") + kinds[kind], lab + "a row has other values than its header says: " + list(rows[k]), lab); } } } }
            return; }
        const Job& job = jobs[item / nC]; size_t ci = item % nC; bool lists = ci >= condLists.size(); const VS& syms = job.rx ? rxLists[job.s] : symLists[job.s]; const VS& props = job.rx ? rxPropLists[job.p] : propLists[job.p]; Oracle o(job.rx, false);
        if (item % 41 == 0) r.sample("tables of " + list(syms) + " " + list(props) + ", both loop orders, three layouts, " + std::to_string(fmts.size()) + " formats");
        ThermoBatch batch(data());
        for (auto& F : fmts) for (int loop = 0; loop < 2; ++loop) for (int tp = 0; tp < 2; ++tp) {
            if (!lists && tp != (F.shift + F.n) % 2) continue;
            std::map<std::string, int> digits; std::map<std::string, Unit> un; int q = 0; for (auto& p : props) { digits[p] = F.shift * 3 + (q++ % 2); un[p] = F.unit ? unitA.at(p) : Unit{ThermoFun::defaultPropertyUnits.at(p), 1}; } digits["temperature"] = F.shift + 1; digits["pressure"] = F.shift * 4 + 1;
            batch.setDigits(digits); for (auto& p : props) batch.setPropertyUnit(p, un[p].name); bool inK = F.unit; un["temperature"] = {inK ? "degC" : "K", 1}; un["pressure"] = {inK ? "bar" : "Pa", 1}; batch.setPropertiesUnits({"temperature", "pressure"}, {un["temperature"].name, un["pressure"].name});
            BatchPreferences bp; bp.isFixed = F.n == Fixed; bp.isScientific = F.n == Scientific; bp.separator = F.sep; bp.writeNaNifNotDefinedValue = F.nan; bp.loopOverTPpairsFirst = loop; bp.loopTemperatureThenPressure = tp; batch.setBatchPreferences(bp);
            auto given = [&](VD p) { return inK ? p : VD{p[0] + 273.15, p[1] * 1e5}; }; auto kelvin = [&](const VD& p) { return inK ? VD{units::convert(p[0], "degC", "K"), units::convert(p[1], "bar", "Pa")} : p; };
            VVD pairs; VD Ts, Ps; if (!lists) for (auto& p : condLists[ci]) pairs.push_back(given(p)); else { auto& L = tpLists[ci - condLists.size()]; for (double T : L.T) Ts.push_back(given({T, 0})[0]); for (double P : L.P) Ps.push_back(given({0, P})[1]); for (double x : tp ? Ts : Ps) for (double y : tp ? Ps : Ts) pairs.push_back(tp ? VD{x, y} : VD{y, x}); }
            std::string lab = list(syms) + " " + list(props) + " at " + pairsText(pairs) + (lists ? " from lists" : "") + (tp ? ", T first" : ", P first") + (loop ? ", conditions first" : ", symbols first") + ", digits +" + std::to_string(F.shift * 3) + (F.n == Fixed ? ", fixed" : F.n == Scientific ? ", scientific" : ", general") + ", separator '" + F.sep + "'" + (F.nan ? ", NaN" : "") + (F.unit ? ", units" : ""); mc::visiting(lab); r.states++; r.traces++;
            std::string where = std::string(job.rx ? "reactions" : "substances");
            try {
                Output out = lists ? (job.rx ? batch.thermoPropertiesReaction(Ts, Ps, syms, props) : batch.thermoPropertiesSubstance(Ts, Ps, syms, props)) : (job.rx ? batch.thermoPropertiesReaction(pairs, syms, props) : batch.thermoPropertiesSubstance(pairs, syms, props));
                // what is to stand in each place
                auto Tu = un["temperature"].name, Pu = un["pressure"].name; auto shown = [&](size_t j) { VD k = kelvin(pairs[j]); double P = k[1] != 0 ? pairs[j][1] : o.pressure(syms, k[0], 0) / (inK ? 1e5 : 1); return VD{pairs[j][0], P}; };
                auto value = [&](const std::string& s, size_t j, const std::string& p, bool& undefined) { VD k = kelvin(pairs[j]); auto v = o.value(syms, s, k[0], k[1], p); undefined = !defined(v); return v.val * un[p].factor; };
                auto cell = [&](const std::string& text, const std::string& s, size_t j, const std::string& p) { bool u; double v = value(s, j, p, u); if (u && F.nan) return text == "NaN"; if (u) return true; return shows(text, v, digits[p], F.n); };
                auto bad = [&](const std::string& what, const std::string& t) { r.violation(what + ":" + where, lab + ": " + t, lab); };
                size_t nP = pairs.size();
                for (int layout = 0; layout < 3; ++layout) { r.transitions++; r.nontrivial++; const char* ln = layout == 0 ? "table" : layout == 1 ? "transposed" : "grid"; std::string file = scratchFile("out.csv");
                    if (layout == 0) out.toCSV(file); else if (layout == 1) out.toCSVTransposed(file); else out.toCSVPropertyGrid(file);
                    if (layout < 2) { auto rows = readTable(file, F.sep); const VS& down = layout ? props : syms; const VS& right = layout ? syms : props;
                        VS head = {layout ? "Property" : "Symbol", "T(" + Tu + ")", "P(" + Pu + ")"}; for (auto& x : right) head.push_back(layout ? replaced(x, F.sep) : x + "(" + un[x].name + ")");
                        if (rows.empty() || rows[0] != head) { bad(std::string(ln) + ":header", "the header is " + (rows.empty() ? std::string("missing") : list(rows[0])) + ", expected " + list(head)); continue; }
                        if (rows.size() != 1 + down.size() * nP) { bad(std::string(ln) + ":rows", std::to_string(rows.size() - 1) + " rows instead of " + std::to_string(down.size() * nP)); continue; }
                        for (size_t d = 0; d < down.size(); ++d) for (size_t j = 0; j < nP; ++j) { auto& row = rows[1 + (loop ? d * nP + j : j * down.size() + d)]; VD c = shown(j); std::string name = layout ? down[d] + "(" + un[down[d]].name + ")" : replaced(down[d], F.sep);
                            if (row.size() != head.size() || row[0] != name || !shows(row[1], c[0], digits["temperature"], F.n) || !shows(row[2], c[1], digits["pressure"], F.n)) { bad(std::string(ln) + ":label", "a row starts with " + list(row) + ", expected " + name + " " + num6(c[0]) + " " + num6(c[1])); continue; }
                            for (size_t k = 0; k < right.size(); ++k) if (!cell(row[k + 3], layout ? right[k] : down[d], j, layout ? down[d] : right[k])) { bool u; double v = value(layout ? right[k] : down[d], j, layout ? down[d] : right[k], u); bad(std::string(ln) + ":value", "in the row of " + name + " at " + num6(c[0]) + ", " + num6(c[1]) + " column " + head[k + 3] + " holds " + row[k + 3] + ", expected " + (u ? "an undefined " : "") + num(v)); } } }
                    else for (auto& p : props) { std::string f = scratchFile(p + "_out.csv"); auto rows = readTable(f, F.sep); if (&p == &props.back()) for (auto& q : props) unlink(scratchFile(q + "_out.csv").c_str());
                        if (!loop) { if (rows.size() != 2) bad("grid:loop", "the grid is written although it is said not to be possible"); continue; }
                        std::string h0 = tp ? "T(" + Tu + ")_P(" + Pu + ")" : "P(" + Pu + ")_T(" + Tu + ")"; int dr = digits[tp ? "temperature" : "pressure"], dc = digits[tp ? "pressure" : "temperature"];
                        if (rows.empty() || rows[0].size() < 2) { bad("grid:header", "no header"); continue; }
                        bool ok = rows[0][0] == "Symbol" && rows[0][1] == h0; if (!ok) { bad("grid:header", "the header is " + list(rows[0])); continue; }
                        // every pair is to be found in its row and column, and nothing else is there
                        for (size_t i = 0; i < syms.size(); ++i) for (size_t j = 0; j < nP; ++j) { VD c = shown(j); double rv = tp ? c[0] : c[1], cv = tp ? c[1] : c[0]; bool found = false; std::string seen;
                            for (size_t k = 1; k < rows.size(); ++k) if (rows[k].size() > 1 && rows[k][0] == replaced(syms[i], F.sep) && shows(rows[k][1], rv, dr, F.n)) for (size_t l = 2; l < rows[0].size(); ++l) if (shows(rows[0][l], cv, dc, F.n) && l < rows[k].size()) { if (cell(rows[k][l], syms[i], j, p)) found = true; else seen = rows[k][l]; }
                            if (!found) { bool u; bad("grid:value", p + " of " + syms[i] + " at " + num6(c[0]) + ", " + num6(c[1]) + (seen.empty() ? " is not in the grid" : " is given as " + seen + ", expected " + num(value(syms[i], j, p, u)))); } }
                        for (size_t k = 1; k < rows.size(); ++k) for (size_t l = 2; l < rows[k].size(); ++l) { if (rows[k][l].empty()) continue; bool found = false; for (size_t i = 0; i < syms.size(); ++i) for (size_t j = 0; j < nP && !found; ++j) { VD c = shown(j); found = l < rows[0].size() && rows[k][0] == replaced(syms[i], F.sep) && shows(rows[k][1], tp ? c[0] : c[1], dr, F.n) && shows(rows[0][l], tp ? c[1] : c[0], dc, F.n) && cell(rows[k][l], syms[i], j, p); } if (!found) bad("grid:extra", "the grid has " + rows[k][l] + " for " + rows[k][0] + " at " + rows[k][1] + ", " + (l < rows[0].size() ? rows[0][l] : "no column") + ", where nothing of the kind was calculated"); } } }
            } catch (const std::exception& x) { r.violation("fails:" + where, lab + ": " + eng::clean(x.what()), lab); }
        }
        // a file that cannot be written is reported
        if (ci == 0) { batch.setPropertiesUnits({"temperature", "pressure"}, {"degC", "bar"}); Output out = job.rx ? batch.thermoPropertiesReaction(25, 1, syms, props) : batch.thermoPropertiesSubstance(25, 1, syms, props); for (int l = 0; l < 3; ++l) { bool thrown = false; r.states++; try { std::string f = scratchFile("nowhere") + "/out.csv"; if (l == 0) out.toCSV(f); else if (l == 1) out.toCSVTransposed(f); else out.toCSVPropertyGrid(f); } catch (const std::exception&) { thrown = true; } if (!thrown) r.violation("unwritable", "a file in a folder that does not exist is not reported", ""); } }
    });
}

// ---------------------------------------------------------------- B03
static Report b03() {
    bool th = mc::options().thorough();
    // in thousandths: start, end, step
    std::vector<std::array<long, 3>> axes; for (long a : {0L, 25000L, 25300L, 100L, 273150L}) for (long len : {0L, 1L, 300L, 1000L, 6999L, 7000L, 10000L, 100000L}) for (long st : {0L, 100L, 300L, 333L, 1000L, 2500L, 7000L, 10000L, 25000L, 200000L}) { if (st && len / st > (th ? 2000 : 120)) continue; axes.push_back({a, a + len, st}); }
    for (long st : {1L, 100L, 25000L}) axes.push_back({30000, 25000, st}); // start beyond the end
    static const std::vector<std::array<long, 3>> other = {{1000, 1000, 0}, {1000, 2000, 500}, {100, 400, 100}, {0, 0, 0}, {5000, 4000, 1000}};
    return mc::parallel(axes.size() * 2 + 1, [&](size_t item, Report& r) {
        ThermoBatch batch(data()); batch.setPropertiesUnits({"temperature", "pressure"}, {"degC", "bar"}); batch.setDigits({{"temperature", 17}, {"pressure", 17}});
        auto run = [&](int loop, int tp, int rx = 0) { BatchPreferences bp; bp.isFixed = false; bp.loopOverTPpairsFirst = loop; bp.loopTemperatureThenPressure = tp; batch.setBatchPreferences(bp); auto out = rx ? batch.thermoPropertiesReaction(VS{"dry"}, VS{"reaction_entropy"}) : batch.thermoPropertiesSubstance(VS{"fast"}, VS{"entropy"}); std::string f = scratchFile("grid.csv"); out.toCSV(f); return std::make_pair(readTable(f, ","), out.to2DVectorDouble()); };
        if (item == axes.size() * 2) {   // requests that no grid can satisfy are refused, in finite time
            for (double bad : {-1.0, (double)NAN, (double)INFINITY, -(double)INFINITY}) for (int which = 0; which < 6; ++which) { if (bad == -1.0 && which % 3 != 2) continue; double v[6] = {25, 100, 25, 1, 1, 0}; v[which] = bad; std::string lab = "limits " + num(v[0]) + " " + num(v[1]) + " " + num(v[2]) + ", " + num(v[3]) + " " + num(v[4]) + " " + num(v[5]); mc::visiting(lab); r.states++; r.transitions++; r.nontrivial++; bool thrown = false; try { batch.setTemperatureIncrement(v[0], v[1], v[2]); batch.setPressureIncrement(v[3], v[4], v[5]); run(1, 1); } catch (const std::exception&) { thrown = true; } if (!thrown) r.violation("refused", lab + ": is not reported", lab); }
            // listed pairs are used as listed
            VVD v; for (double T : {25.1, 0.1 + 0.2, 1e2 / 3}) for (double P : {1.1, 100.0 / 3, 1e3 + 1e-9}) v.push_back({T, P}); auto all = tuples(v, 2); all.push_back(v);
            BatchPreferences bp; bp.isFixed = false; for (auto& l : all) for (int loop = 0; loop < 2; ++loop) for (int lists = 0; lists < 2; ++lists) { std::string lab = "listed " + pairsText(l); mc::visiting(lab); r.states++; r.traces++; r.transitions++; bp.loopOverTPpairsFirst = loop; batch.setBatchPreferences(bp); VVD want = l; VD Ts, Ps; if (lists) { want.clear(); for (auto& p : l) { Ts.push_back(p[0]); Ps.push_back(p[1]); } for (double T : Ts) for (double P : Ps) want.push_back({T, P}); }
                auto out = lists ? batch.thermoPropertiesSubstance(Ts, Ps, VS{"fast", "A,B;C"}, VS{"entropy"}) : batch.thermoPropertiesSubstance(l, VS{"fast", "A,B;C"}, VS{"entropy"}); std::string f = scratchFile("l.csv"); out.toCSV(f); auto rows = readTable(f, ","); bool ok = rows.size() == 1 + 2 * want.size(); for (size_t i = 0; ok && i < 2; ++i) for (size_t j = 0; ok && j < want.size(); ++j) { auto& row = rows[1 + (loop ? i * want.size() + j : 2 * j + i)]; ok = row.size() == 4 && strtod(row[1].c_str(), nullptr) == want[j][0] && strtod(row[2].c_str(), nullptr) == want[j][1]; } if (!ok) r.violation(lists ? "lists" : "listed", lab + ": the pairs are not those listed", lab); }
            return; }
        auto a = axes[item / 2]; bool onP = item % 2; if (item % 61 == 0) r.sample(std::string(onP ? "pressures" : "temperatures") + " from " + num6(a[0] / 1e3) + " to " + num6(a[1] / 1e3) + " by " + num6(a[2] / 1e3));
        for (auto& b : other) for (int tp = 0; tp < 2; ++tp) for (int loop = 0; loop < 2; ++loop) for (int rx = 0; rx < 2; ++rx) {
            auto &t = onP ? b : a, &p = onP ? a : b; auto dec = [](long v) { return v / 1e3; };
            auto ax = [&](const std::array<long, 3>& x) { return num6(dec(x[0])) + ".." + num6(dec(x[1])) + " by " + num6(dec(x[2])); }; std::string lab = "T " + ax(t) + ", P " + ax(p) + (tp ? ", T first" : ", P first") + (rx ? ", a reaction" : ""); mc::visiting(lab); r.states++; r.transitions++; r.traces++; r.nontrivial++;
            batch.setTemperatureIncrement(dec(t[0]), dec(t[1]), dec(t[2])); batch.setPressureIncrement(dec(p[0]), dec(p[1]), dec(p[2]));
            if (batch.temperatureIncrement().at("Tmin") != dec(t[0]) || batch.temperatureIncrement().at("Tmax") != dec(t[1]) || batch.temperatureIncrement().at("Tstep") != dec(t[2]) || batch.pressureIncrement().at("Pmin") != dec(p[0]) || batch.pressureIncrement().at("Pmax") != dec(p[1]) || batch.pressureIncrement().at("Pstep") != dec(p[2])) r.violation("increment", lab + ": the increments in force are not those set", lab);
            auto points = [](const std::array<long, 3>& x) { std::vector<long> v; if (x[0] > x[1]) return v; for (long k = x[0]; k <= x[1]; k += x[2]) { v.push_back(k); if (!x[2]) break; } return v; };
            auto tv = points(t), pv = points(p); std::vector<std::pair<long, long>> want; for (long x : tp ? tv : pv) for (long y : tp ? pv : tv) want.push_back(tp ? std::make_pair(x, y) : std::make_pair(y, x));
            try { auto got = run(loop, tp, rx); auto& rows = got.first; std::string key = std::string(onP ? "P" : "T") + (t[0] > t[1] || p[0] > p[1] ? ":empty" : (onP ? p : t)[2] == 0 ? ":zero-step" : "");
                if (rows.size() != want.size() + 1 || got.second.size() != want.size()) { r.violation("points:" + key, lab + ": " + std::to_string(rows.size() - 1) + " points instead of " + std::to_string(want.size()) + (rows.size() > 1 ? ", the last " + rows.back()[1] + ", " + rows.back()[2] : ""), lab); continue; }
                for (size_t i = 0; i < want.size(); ++i) { double T = strtod(rows[i + 1][1].c_str(), nullptr), P = strtod(rows[i + 1][2].c_str(), nullptr); if (!(fabs(T - dec(want[i].first)) <= 1e-9 && fabs(P - dec(want[i].second)) <= 1e-9) || T > dec(t[1]) || P > dec(p[1])) { r.violation("point:" + key, lab + ": point " + std::to_string(i) + " is " + rows[i + 1][1] + ", " + rows[i + 1][2] + ", expected " + num6(dec(want[i].first)) + ", " + num6(dec(want[i].second)), lab); break; } }
            } catch (const std::exception& x) { r.violation("fails", lab + ": " + eng::clean(x.what()), lab); }
        }
    });
}

// ---------------------------------------------------------------- B04
static Report b04() {
    bool th = mc::options().thorough();
    static const std::map<std::string, std::map<std::string, double>> factor = {{"enthalpy", {{"J/mol", 1}, {"kJ/mol", 1e-3}, {"cal/mol", 1 / 4.184}}}, {"gibbs_energy", {{"J/mol", 1}, {"kJ/mol", 1e-3}}}, {"entropy", {{"J/K/mol", 1}}}, {"volume", {{"J/bar", 1}, {"cm3", 10}}}};
    struct Model { std::map<std::string, std::string> u = ThermoFun::defaultPropertyUnits; std::map<std::string, int> d = ThermoFun::defaultPropertyDigits; BatchPreferences p; std::string solvent = "H2O@"; };
    struct Op { std::string name; std::function<void(ThermoBatch&)> f; std::function<void(Model&)> m; bool bad = false; }; static std::vector<Op> ops;
    auto unit = [&](const std::string& p, const std::string& u) { ops.push_back({p + " in " + u, [=](ThermoBatch& b) { b.setPropertyUnit(p, u); }, [=](Model& m) { m.u[p] = u; }}); };
    auto digit = [&](const std::string& p, int d) { ops.push_back({p + " with " + std::to_string(d), [=](ThermoBatch& b) { b.setPropertyDigit(p, d); }, [=](Model& m) { m.d[p] = d; }}); };
    unit("enthalpy", "kJ/mol"); unit("enthalpy", "cal/mol"); unit("gibbs_energy", "kJ/mol"); unit("volume", "cm3"); unit("temperature", "degC"); unit("pressure", "bar"); unit("temperature", "K"); digit("enthalpy", 4); digit("gibbs_energy", 2); digit("temperature", 3); digit("pressure", 0);
    ops.push_back({"enthalpy in kJ/mol with 6", [](ThermoBatch& b) { b.setPropertyUnitDigit("enthalpy", "kJ/mol", 6); }, [](Model& m) { m.u["enthalpy"] = "kJ/mol"; m.d["enthalpy"] = 6; }});
    ops.push_back({"units of four", [](ThermoBatch& b) { b.setPropertiesUnits({"gibbs_energy", "enthalpy", "volume", "temperature"}, {"kJ/mol", "J/mol", "cm3", "degC"}); }, [](Model& m) { m.u["gibbs_energy"] = "kJ/mol"; m.u["enthalpy"] = "J/mol"; m.u["volume"] = "cm3"; m.u["temperature"] = "degC"; }});
    ops.push_back({"digits of four", [](ThermoBatch& b) { b.setPropertiesDigits({"entropy", "volume", "temperature", "enthalpy"}, {1, 5, 2, 3}); }, [](Model& m) { m.d["entropy"] = 1; m.d["volume"] = 5; m.d["temperature"] = 2; m.d["enthalpy"] = 3; }});
    ops.push_back({"map of units", [](ThermoBatch& b) { b.setUnits({{"enthalpy", "cal/mol"}, {"pressure", "bar"}, {"volume", "cm3"}}); }, [](Model& m) { m.u["enthalpy"] = "cal/mol"; m.u["pressure"] = "bar"; m.u["volume"] = "cm3"; }});
    ops.push_back({"map of digits", [](ThermoBatch& b) { b.setDigits({{"enthalpy", 1}, {"entropy", 0}, {"volume", 2}}); }, [](Model& m) { m.d["enthalpy"] = 1; m.d["entropy"] = 0; m.d["volume"] = 2; }});
    ops.push_back({"scientific", [](ThermoBatch& b) { b.preferences().isScientific = true; }, [](Model& m) { m.p.isScientific = true; }});
    ops.push_back({"not fixed", [](ThermoBatch& b) { b.preferences().isFixed = false; }, [](Model& m) { m.p.isFixed = false; }});
    ops.push_back({"default preferences", [](ThermoBatch& b) { b.setBatchPreferences(BatchPreferences()); }, [](Model& m) { m.p = BatchPreferences(); }});
    ops.push_back({"separator ;", [](ThermoBatch& b) { auto p = b.preferences(); p.separator = ";"; b.setBatchPreferences(p); }, [](Model& m) { m.p.separator = ";"; }});
    ops.push_back({"symbols first", [](ThermoBatch& b) { b.preferences().loopOverTPpairsFirst = false; }, [](Model& m) { m.p.loopOverTPpairsFirst = false; }});
    ops.push_back({"undefined as calculated", [](ThermoBatch& b) { b.preferences().writeNaNifNotDefinedValue = false; }, [](Model& m) { m.p.writeNaNifNotDefinedValue = false; }});
    ops.push_back({"other solvent", [](ThermoBatch& b) { b.setSolventSymbol("W-HGKr"); }, [](Model& m) { m.solvent = "W-HGKr"; }});
    ops.push_back({"first solvent", [](ThermoBatch& b) { b.setSolventSymbol("H2O@"); }, [](Model& m) { m.solvent = "H2O@"; }});
    // names that do not exist: reported, and nothing else changes
    ops.push_back({"unit of nothing", [](ThermoBatch& b) { b.setPropertyUnit("enthalpie", "kJ/mol"); }, [](Model&) {}, true});
    ops.push_back({"digits of nothing", [](ThermoBatch& b) { b.setPropertyDigit("Enthalpy", 9); }, [](Model&) {}, true});
    ops.push_back({"too few units", [](ThermoBatch& b) { b.setPropertiesUnits({"enthalpy", "entropy"}, {"kJ/mol"}); }, [](Model&) {}, true});
    ops.push_back({"too few digits", [](ThermoBatch& b) { b.setPropertiesDigits({"enthalpy", "entropy"}, {7}); }, [](Model&) {}, true});
    static const VS props = {"gibbs_energy", "enthalpy", "entropy", "volume"}, syms = {"Na+", "Calcite"};
    size_t n = ops.size(); static std::map<std::string, std::unique_ptr<Oracle>> oracles;
    return mc::parallel(n * n + 1, [&](size_t item, Report& r) {
        if (item == n * n) { // preferences that ask for something: it happens
            ThermoBatch b(data()); b.setPropertiesUnits({"temperature", "pressure"}, {"degC", "bar"}); r.states++; r.transitions++; auto p = BatchPreferences(); p.outputSolventProperties = true; p.solventFileName = scratchFile("solvent.csv"); b.setBatchPreferences(p); b.thermoPropertiesSubstance(25, 1, VS{"Na+"}, VS{"entropy"}).toCSV(scratchFile("x.csv")); if (readTable(p.solventFileName, ",").empty()) r.violation("preference:outputSolventProperties", "with outputSolventProperties no properties of the solvent are written", "");
            for (int v = 0; v < 2; ++v) { Database d0(data()), d1(data()); for (auto& k : {"H2Se(g)", "CoHS+", "(NpO2)2(OH)2+2", "ZrF6-2"}) { Substance x = d0.getSubstance(k); x.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON); x.setThermoCalculationType(SubstanceThermoCalculationType::type::DCOMP); d0.setSubstance(x); x.setThermoCalculationType(SubstanceThermoCalculationType::type::REACDC); d1.setSubstance(x); }
                ThermoEngine e(v ? d1 : d0); ThermoBatch q(d0); q.preferences().substancePropertiesFromReaction = v; for (auto& k : {"H2Se(g)", "CoHS+", "(NpO2)2(OH)2+2", "ZrF6-2", "Na+", "Calcite"}) for (double T : {298.15, 330.}) { double P = 1e6; ThermoScalar want; try { want = e.thermoPropertiesSubstance(T, P, k).gibbs_energy; } catch (const std::exception&) { continue; } r.states++; r.transitions++; r.nontrivial++; bool bad = false; std::string got = "no result"; try { double g = q.thermoPropertiesSubstance(T, P, k, "gibbs_energy").toDouble(); got = num(g); bad = !agree(g, want.val); } catch (const std::exception&) { bad = true; } if (bad) r.violation(std::string("preference:substancePropertiesFromReaction:") + (v ? "on" : "off"), std::string("with substancePropertiesFromReaction ") + (v ? "on" : "off") + " the Gibbs energy of " + k + " at " + num6(T) + " K is " + got + ", expected " + num(want.val), ""); } }
            // reactions from their reactants or not
            for (int first = 0; first < 2; ++first) for (int second = 0; second < 2; ++second) { ThermoBatch q(data()); for (int v : {first, second}) { q.preferences().reactionPropertiesFromReactants = v; Oracle o(true, v); for (auto rx : {"NaHCO3@", "H2Se(g)", "CoHS+", "(NpO2)2(OH)2+2", "ZrF6-2"}) { r.states++; r.transitions++; if (!o.ask(rx, 310, 1e6).first) { bool thrown = false; try { q.thermoPropertiesReaction(310, 1e6, rx, "logKr"); } catch (const std::exception&) { thrown = true; } if (!thrown) r.violation("preference:reactionPropertiesFromReactants:fails", std::string(rx) + " gives a result where the single query fails", ""); continue; } r.nontrivial++; double got = q.thermoPropertiesReaction(310, 1e6, rx, "logKr").toDouble(), want = o.value({rx}, rx, 310, 1e6, "logKr").val; if (!agree(got, want)) r.violation("preference:reactionPropertiesFromReactants", std::string("with reactionPropertiesFromReactants ") + (v ? "on" : "off") + " log K of " + rx + " is " + num(got) + ", expected " + num(want), ""); } } }
            return; }
        std::vector<std::vector<size_t>> seqs; size_t a = item / n, b = item % n; if (b == 0) seqs.push_back({a}); seqs.push_back({a, b}); for (size_t c = 0; c < n; ++c) if (th || (a + b + c) % 2 == 0) seqs.push_back({a, b, c}); if (item % 83 == 0) r.sample(ops[a].name + "; " + ops[b].name + "; each of " + std::to_string(n) + " settings; then a calculation (also after each)");
        for (auto& s : seqs) for (int mid = 0; mid < 2; ++mid) { if (mid && s.size() < 2) continue;
            ThermoBatch batch(data()); Model m; std::string lab = mid ? "calculations between: " : ""; for (auto k : s) lab += ops[k].name + "; "; mc::visiting(lab); r.states++; r.traces++;
            auto check = [&](const std::string& last) {
                r.transitions++; r.nontrivial++;
                if (batch.propertyUnits() != m.u) { r.violation("units:" + last, lab + "the units in force are not those set", lab); return; } if (batch.propertyDigits() != m.d) { r.violation("digits:" + last, lab + "the digits in force are not those set", lab); return; }
                const auto& bp = batch.preferences(); if (bp.isFixed != m.p.isFixed || bp.isScientific != m.p.isScientific || bp.separator != m.p.separator || bp.loopOverTPpairsFirst != m.p.loopOverTPpairsFirst || bp.writeNaNifNotDefinedValue != m.p.writeNaNifNotDefinedValue) { r.violation("preferences:" + last, lab + "the preferences in force are not those set", lab); return; }
                auto& o = oracles[m.solvent]; if (!o) { o = std::make_unique<Oracle>(false, false); o->e.setSolventSymbol(m.solvent); }
                bool C = m.u["temperature"] == "degC", bar = m.u["pressure"] == "bar"; VVD pairs = {{C ? 25 : 298.15, bar ? 100 : 1e7}, {C ? 60 : 333.15, bar ? 1 : 1e5}}; auto K = [&](const VD& p) { return VD{units::convert(p[0], m.u["temperature"], "K"), units::convert(p[1], m.u["pressure"], "Pa")}; };
                try { auto out = batch.thermoPropertiesSubstance(pairs, syms, props); std::string f = scratchFile("b4.csv"); out.toCSV(f); auto v = out.to2DVectorDouble(); auto rows = readTable(f, m.p.separator); VS head = {"Symbol", "T(" + m.u["temperature"] + ")", "P(" + m.u["pressure"] + ")"}; for (auto& p : props) head.push_back(p + "(" + m.u[p] + ")");
                    if (rows.size() != 5 || rows[0] != head) { r.violation("header:" + last, lab + "the header is " + (rows.empty() ? std::string("missing") : list(rows[0])), lab); return; }
                    Notation nt = m.p.isScientific ? Scientific : m.p.isFixed ? Fixed : General;
                    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) { size_t k = m.p.loopOverTPpairsFirst ? 2 * i + j : 2 * j + i; auto& row = rows[1 + k]; VD q = K(pairs[j]); bool ok = row.size() == 7 && row[0] == syms[i] && shows(row[1], pairs[j][0], m.d["temperature"], nt) && shows(row[2], pairs[j][1], m.d["pressure"], nt); if (!ok) { r.violation("label:" + last, lab + "a row is " + list(row), lab); continue; }
                        for (size_t c = 0; c < props.size(); ++c) { auto want = o->value(syms, syms[i], q[0], q[1], props[c]); if (!agree(v[k][c], want.val)) r.violation("result:" + last, lab + props[c] + " of " + syms[i] + " is " + num(v[k][c]) + ", expected " + num(want.val), lab); double w = want.val * factor.at(props[c]).at(m.u[props[c]]); if (defined(want) && !shows(row[c + 3], w, m.d[props[c]], nt)) r.violation("value:" + props[c] + ":" + last, lab + props[c] + " of " + syms[i] + " is written as " + row[c + 3] + ", expected " + num(w), lab); } }
                } catch (const std::exception& x) { r.violation("fails:" + last, lab + eng::clean(x.what()), lab); } };
            for (size_t i = 0; i < s.size(); ++i) { auto& op = ops[s[i]]; bool thrown = false; try { op.f(batch); } catch (const std::exception&) { thrown = true; } op.m(m); if (thrown != op.bad) { r.violation("outcome:" + op.name, lab + op.name + (thrown ? " fails" : " is not reported"), lab); break; } if (mid || i + 1 == s.size()) check(op.name); } }
        // units that cannot be: reported when they are used, and of no effect once replaced
        if (item < 6) { const char* bads[6][2] = {{"enthalpy", "kg"}, {"enthalpy", "foo"}, {"temperature", "bar"}, {"pressure", "K"}, {"entropy", "J/mol"}, {"volume", "xyz/mol"}}; auto* u = bads[item]; ThermoBatch batch(data()), good(data()); r.states++; r.transitions++; batch.setPropertyUnit(u[0], u[1]); bool thrown = false; std::string f = scratchFile("bad.csv"), g = scratchFile("good.csv"); try { batch.thermoPropertiesSubstance({{298.15, 1e5}}, syms, props).toCSV(f); } catch (const std::exception&) { thrown = true; } if (!thrown) r.violation(std::string("impossible-unit:") + u[0], std::string(u[0]) + " in " + u[1] + " is not reported", ""); batch.setPropertyUnit(u[0], ThermoFun::defaultPropertyUnits.at(u[0])); try { batch.thermoPropertiesSubstance({{298.15, 1e5}}, syms, props).toCSV(f); good.thermoPropertiesSubstance({{298.15, 1e5}}, syms, props).toCSV(g); if (readTable(f, ",") != readTable(g, ",")) r.violation(std::string("after-impossible-unit:") + u[0], "after a unit that cannot be was replaced the table differs", ""); } catch (const std::exception& x) { r.violation(std::string("after-impossible-unit:") + u[0], eng::clean(x.what()), ""); } }
    });
}
int main(int argc, char** argv) {
    mc::init(argc, argv); std::string m = mc::options().mode; Report r;
    if (m == "B01") r = b01(); else if (m == "B02") r = b02(); else if (m == "B03") r = b03(); else r = b04();
    return mc::finish(r);
}
