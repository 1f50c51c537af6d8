// H06: copies are independent of their originals.  All sequences of copying,
// assigning, changing, destroying and reading over two objects of every class,
// under the address sanitizer; the reference model is an object built from
// scratch and taken through the changes the copied one had seen.
#include "synth.hpp"
#include <Batch/ThermoBatch.h>
#include <Batch/OutputBatch.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace eng; using mc::Report; using mc::num;

template <class T> struct Kind {
    std::string name; std::function<T()> make; std::vector<std::function<void(T&)>> change; std::function<std::string(T&)> look;
    int depth, deep;
};
static std::string scratch(const std::string& n) { static std::string d; if (d.empty()) { d = (mc::options().scratch.empty() ? "/tmp" : mc::options().scratch) + "/copies-" + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d + "/" + n; }
template <class T> static void passByValue(T x, const std::function<void(T&)>& f) { f(x); }
template <class T> static T passThrough(T x) { return x; }

// Operations over the slots 0 and 1. The model of a slot is the list of changes it has seen (nothing when empty).
template <class T> struct Explorer {
    Kind<T>& k; std::map<std::vector<int>, std::string> memo;
    const std::string& expected(const std::vector<int>& h) { auto it = memo.find(h); if (it != memo.end()) return it->second; T t = k.make(); for (int c : h) k.change[c](t); return memo[h] = k.look(t); }
    struct Op { int kind, a, b; };
    std::vector<Op> ops() { std::vector<Op> o; for (int a = 0; a < 2; ++a) { o.push_back({0, a, 0}); o.push_back({1, a, 1 - a}); o.push_back({2, a, 1 - a}); for (size_t c = 0; c < k.change.size(); ++c) o.push_back({3, a, int(c)}); o.push_back({4, a, 0}); o.push_back({5, a, 0}); o.push_back({6, a, 0}); o.push_back({7, a, 0}); } o.push_back({8, 0, 1}); return o; }
    static std::string text(const Op& o) { static const char* n[] = {"new", "copy construct", "assign to", "change", "destroy", "assign to itself", "change a copy passed by value of", "replace by a copy passed through", "swap"}; std::string s = n[o.kind]; s += " " + std::to_string(o.a); if (o.kind == 1 || o.kind == 2) s += " from " + std::to_string(o.b); if (o.kind == 3) s += " way " + std::to_string(o.b); return s; }
    // runs the sequence; whether every operation made sense
    bool run(const std::vector<Op>& seq, bool eager, Report& r) {
        { bool has[2] = {true, false}; for (auto& o : seq) { if (o.kind == 0) { if (has[o.a]) return false; has[o.a] = true; continue; } if (o.kind == 1) { if (!has[o.b]) return false; has[o.a] = true; continue; } if (o.kind == 2) { if (!has[o.a] || !has[o.b]) return false; continue; } if (o.kind == 8) { if (!has[0] || !has[1]) return false; continue; } if (!has[o.a]) return false; if (o.kind == 4) has[o.a] = false; } }
        std::unique_ptr<T> s[2]; std::vector<int> h[2]; s[0] = std::make_unique<T>(k.make()); std::string lab = k.name + ": new 0"; for (auto& o : seq) lab += "; " + text(o); if (!eager) lab += " (read at the end only)"; mc::visiting(lab); r.states++; r.traces++;
        auto check = [&](const Op& o) { for (int i = 0; i < 2; ++i) if (s[i]) { r.transitions++; std::string got = k.look(*s[i]); const std::string& want = expected(h[i]); if (got != want) { r.violation(k.name + ":" + (o.kind == 3 && i != o.a ? "changed with its copy" : o.kind == 4 || (o.kind == 1 && i != o.a) ? "changed when its copy was destroyed" : o.kind == 6 ? "changed by a copy passed by value" : "not what was copied"), lab + ": after '" + text(o) + "' object " + std::to_string(i) + " is not what it should be: " + firstDiff(want, got), lab); return false; } } return true; };
        if (eager) check({0, 0, 0});
        for (auto& o : seq) {
            switch (o.kind) {
            case 0: s[o.a] = std::make_unique<T>(k.make()); h[o.a].clear(); break;
            case 1: { auto t = std::make_unique<T>(*s[o.b]); s[o.a] = std::move(t); h[o.a] = h[o.b]; break; }
            case 2: *s[o.a] = *s[o.b]; h[o.a] = h[o.b]; break;
            case 3: k.change[o.b](*s[o.a]); h[o.a].push_back(o.b); break;
            case 4: s[o.a].reset(); break;
            case 5: { T& t = *s[o.a]; t = *s[o.a]; break; }
            case 6: passByValue<T>(*s[o.a], k.change[0]); passByValue<T>(*s[o.a], k.change.back()); break;
            case 7: { std::vector<T> v; v.push_back(passThrough<T>(*s[o.a])); v.push_back(v[0]); v.push_back(*s[o.a]); s[o.a] = std::make_unique<T>(v[1]); break; }
            case 8: std::swap(*s[0], *s[1]); std::swap(h[0], h[1]); break;
            }
            if (eager && !check(o)) return true;
        }
        if (!eager) check(seq.back());
        r.nontrivial++; return true;
    }
    void all(size_t first, Report& r) {
        auto o = ops(); if (first >= o.size()) return; int depth = mc::options().thorough() ? k.deep : k.depth;
        std::vector<Op> seq = {o[first]}; std::function<void()> go = [&] { bool ok = run(seq, true, r); if (!ok) return; if (seq.size() > 1) run(seq, false, r); if (int(seq.size()) < depth) for (auto& x : o) { seq.push_back(x); go(); seq.pop_back(); } };
        if (first == 3) r.sample(k.name + ": every sequence of up to " + std::to_string(depth) + " operations out of " + std::to_string(o.size()) + " that begins with 'new 0; " + text(o[first]) + "'"); go();
    }
};

static ThermoPropertiesSubstance refG(double g) { return synth::ref(g, -910700, 41.43, 44.6, 2.269); }
static Kind<Element> elementKind() { return {"element", [] { Element e; e.setSymbol("Q"); e.setName("q"); e.setMolarMass(3); e.setEntropy(4); e.setHeatCapacity(5); e.setVolume(6); e.setValence(2); e.setClass(0); e.setIsotopeMass(0); e.setNumber(9); e.setJsonString("{\"a\":1}"); return e; },
    {[](Element& e) { e.setSymbol("Z"); e.setNumber(e.number() + 1); e.setMolarMass(e.molarMass() * 2); e.setValence(1); e.setName(e.name() + "z"); }, [](Element& e) { e.setEntropy(e.entropy() + 1); e.setVolume(8); e.setHeatCapacity(e.heatCapacity() - 1); e.setClass(3); e.setIsotopeMass(7); e.setJsonString(e.jsonString() + "b"); }}, [](Element& e) { return dump(e); }, 4, 5}; }
static Kind<Substance> substanceKind() { return {"substance", [] { Substance s = synth::bm(); s.setName("long name of a substance that does not fit into the object itself"); s.setReactionSymbol("r"); s.setMolarMass(60); s.setCharge(1); s.setLowerT(200); s.setUpperT(2000); s.setLowerP(1); s.setUpperP(1e9); s.setJsonString("{}"); return s; },
    {[](Substance& s) { s.setName(s.name() + "+"); auto p = s.thermoParameters(); p.Cp_coeff[0][0] += 1; p.volume_BirchM_coeff.push_back(2); p.critical_parameters = {1, 2, 3}; s.setThermoParameters(p); s.setThermoReferenceProperties(refG(s.thermoReferenceProperties().gibbs_energy.val + 1)); s.setMethod_P(MethodCorrP_Thrift::type::CPM_CON); s.setCharge(s.charge() + 1); s.setSymbol("other"); },
     [](Substance& s) { s.setFormula(s.formula() + "H"); s.setReactionSymbol("another"); s.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON); s.setMethod_T(MethodCorrT_Thrift::type::CTM_CHP); s.setLowerT(s.lowerT() + 1); s.setUpperT(3); s.setLowerP(4); s.setUpperP(5); s.setReferenceT(300); s.setReferenceP(2e5); s.setMolarMass(s.molarMass() + 1); s.setSubstanceClass(SubstanceClass::type::AQSOLUTE); s.setAggregateState(AggregateState::type::AQUEOUS); s.setThermoCalculationType(SubstanceThermoCalculationType::type::REACDC); s.setJsonString(s.jsonString() + "x"); }}, [](Substance& s) { return dump(s); }, 4, 5}; }
static ThermoPropertiesReaction refR(double g) { ThermoPropertiesReaction t; t.reaction_gibbs_energy = synth::val(g); t.log_equilibrium_constant = synth::val(-g / 5708); t.reaction_entropy = synth::val(3); t.reaction_enthalpy = synth::val(g + 298.15 * 3); t.reaction_heat_capacity_cp = synth::val(1); t.reaction_volume = synth::val(0.5); return t; }
static Kind<Reaction> reactionKind() { return {"reaction", [] { Reaction s; s.setSymbol("r"); s.setName("long name of a reaction that does not fit into the object itself"); s.setEquation("A = B"); s.setReactants({{"A", -1}, {"B", 1}}); s.setReferenceT(298.15); s.setReferenceP(1e5); s.setLowerT(1); s.setUpperT(2); s.setLowerP(3); s.setUpperP(4); s.setThermoReferenceProperties(refR(1000)); s.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_REA); s.setMethod_T(MethodCorrT_Thrift::type::CTM_LGX); s.setMethod_P(MethodCorrP_Thrift::type::CPM_CON); ThermoParametersReaction p; p.reaction_logK_fT_coeff = {1, 2, 3, 4, 5, 6, 7}; s.setThermoParameters(p); s.setJsonString("{}"); return s; },
    {[](Reaction& s) { auto r = s.reactants(); r["A"] -= 1; r["C"] = 2; s.setReactants(r); auto p = s.thermoParameters(); p.reaction_logK_fT_coeff[0] += 1; p.reaction_Cp_fT_coeff = {1, 2}; s.setThermoParameters(p); s.setThermoReferenceProperties(refR(s.thermoReferenceProperties().reaction_gibbs_energy.val + 1)); s.setEquation(s.equation() + " + 2C"); s.setSymbol("q"); },
     [](Reaction& s) { s.setName(s.name() + "?"); s.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON); s.setMethod_T(MethodCorrT_Thrift::type::CTM_EK3); s.setMethod_P(MethodCorrP_Thrift::type::CPM_VKE); s.setReferenceT(s.referenceT() + 1); s.setReferenceP(9); s.setLowerT(8); s.setUpperT(s.upperT() + 1); s.setLowerP(7); s.setUpperP(6); s.setJsonString(s.jsonString() + "y"); }}, [](Reaction& s) { return dump(s); }, 4, 5}; }
static const std::string& smallText() { static std::string s; if (s.empty()) { json j = readJson("mini.json"), e = json::array(); static const std::set<std::string> keep = {"Na", "Ca", "C", "O", "H", "Se", "Si", "Zz"}; for (auto& x : j["elements"]) if (keep.count(x["symbol"].get<std::string>())) e.push_back(x); j["elements"] = e; s = only(j, {"H2O@", "Na+", "Calcite", "CO2@", "NaHCO3@", "CO2(g)", "H2Se(g)", "H+", "OH-"}); } return s; }
static Database small() { static Database* d = nullptr; if (!d) { d = new Database(smallText()); d->addSubstance(synth::mineral("M", MethodCorrP_Thrift::type::CPM_CON)); } return *d; }
static std::string minerals(double g) { Substance s = synth::mineral("M", MethodCorrP_Thrift::type::CPM_CON); return "{\"substances\":[{\"symbol\":\"M\",\"name\":\"M\",\"formula\":\"SiO2\",\"reference_T\":298.15,\"Pst\":100000,\"class_\":{\"0\":\"SC_COMPONENT\"},\"aggregate_state\":{\"3\":\"AS_CRYSTAL\"},\"TPMethods\":[{\"method\":{\"0\":\"cp_ft_equation\"},\"limitsTP\":{\"range\":true,\"lowerT\":273.15,\"upperT\":2000},\"m_heat_capacity_ft_coeffs\":{\"values\":[110.7,0,0,0,0,0,0,0,0,0,0]}}],\"sm_gibbs_energy\":{\"values\":[" + num(g) + "]},\"sm_enthalpy\":{\"values\":[-910700]},\"sm_entropy_abs\":{\"values\":[41.43]},\"sm_heat_capacity_p\":{\"values\":[44.6]},\"sm_volume\":{\"values\":[2.269]}}]}"; }
static Kind<Database> databaseKind() { return {"database", small,
    {[](Database& d) { Substance s = d.getSubstance("Calcite"); s.setSymbol("N" + std::to_string(d.numberOfSubstances())); d.addSubstance(s); d.substance("Calcite").setName(d.getSubstance("Calcite").name() + "!"); d.element("Na").setEntropy(d.getElement("Na").entropy() + 1); },
     [](Database& d) { auto m = d.mapSubstances(); m.erase("CO2@"); d.setMapSubstances(m); Reaction r; r.setSymbol("new" + std::to_string(d.numberOfReactions())); d.addReaction(r); d.conventions().water_triple_point_reference = "CODATA"; }}, [](Database& d) { return dump(d); }, 3, 5}; }
static std::string lookEngine(const ThermoEngine& e) {
    static const std::vector<Query> qs = {{Query::Sub, "M", 350, 1e7, 0}, {Query::Sub, "Calcite", 400, 1e7, 0}, {Query::Sub, "H2O@", 350, 1e7, 0}, {Query::Sub, "CO2(g)", 350, 1e7, 0}, {Query::Rx, "H2Se(g)", 350, 1e7, 0}, {Query::Solv, "H2O@", 360, 1e7, -1}, {Query::El, "H2O@", 360, 1e7, -1}};
    std::string s; for (auto& q : qs) { Snap t = ask(e, q); s += q.label() + " " + (t.failed ? "failed " + t.error : dump(t.v)) + " P " + num(t.P) + "\n"; } return s;
}
static Kind<ThermoEngine> engineKind() { return {"calculator", [] { return ThermoEngine(small()); },
    {[](ThermoEngine& e) { e.appendData(minerals(-800000 - 1000 * e.database().getSubstance("M").thermoReferenceProperties().gibbs_energy.val / 855000)); e.conventions().water_properties = "STEAM_TABLES"; }, [](ThermoEngine& e) { auto p = e.preferences(); p.enable_memoize = !p.enable_memoize; p.solvent_symbol = p.solvent_symbol == "H2O@" ? "none" : "H2O@"; e.setPreferences(p); e.conventions().apparent_properties = "BERMAN_BROWN"; }},
    [](ThermoEngine& e) { return dumpSettings(e) + "\n" + lookEngine(e); }, 3, 4}; }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string lookBatch(ThermoBatch& b) { std::string f = scratch("b.csv"), s; try { auto o = b.thermoPropertiesSubstance(300, 1e6, std::vector<std::string>{"M", "Calcite"}, std::vector<std::string>{"gibbs_energy", "entropy"}); o.toCSV(f); s = slurp(f); s += dump(o.to2DVectorDouble()); } catch (const std::exception& x) { s = clean(x.what()); } unlink(f.c_str()); return s; }
static Kind<ThermoBatch> batchKind() { return {"batch", [] { return ThermoBatch(small()); },
    {[](ThermoBatch& b) { b.setPropertyUnit("gibbs_energy", "kJ/mol"); b.setPropertyDigit("entropy", 7); b.preferences().separator = ";"; }, [](ThermoBatch& b) { b.setPropertyDigit("gibbs_energy", 3); b.preferences().loopOverTPpairsFirst = false; b.preferences().isScientific = true; b.preferences().isFixed = false; b.setSolventSymbol("none"); b.setPropertyUnit("entropy", "kJ/K/mol"); }}, lookBatch, 3, 4}; }
// An output object; its batch lives on and makes other calculations, or is gone
struct Out { std::shared_ptr<ThermoBatch> b; std::shared_ptr<Output> o; int n = 0; Out() { b = std::make_shared<ThermoBatch>(small()); o = std::make_shared<Output>(b->thermoPropertiesSubstance(300, 1e6, std::vector<std::string>{"M", "Calcite"}, std::vector<std::string>{"gibbs_energy", "entropy"})); }
    Out(const Out& x) : b(x.b), o(std::make_shared<Output>(*x.o)), n(x.n) {} Out& operator=(const Out& x) { b = x.b; *o = *x.o; n = x.n; return *this; } };
static Kind<Out> outputKind() { return {"output", [] { return Out(); },
    {[](Out& o) { if (o.b) { o.b->setPropertyUnit("entropy", "kJ/K/mol"); o.b->preferences().separator = ";"; o.b->thermoPropertiesSubstance(400, 1e7, std::vector<std::string>{"Calcite"}, std::vector<std::string>{"volume"}); } }, [](Out& o) { o.b.reset(); }},
    [](Out& o) { std::string f = scratch("o.csv"), s; o.o->toCSV(f); s = slurp(f); o.o->toCSVTransposed(f); s += slurp(f); unlink(f.c_str()); return s + dump(o.o->to2DVectorDouble()) + num(o.o->toDouble()); }, 3, 4}; }

// Objects made of one another: record -> database -> calculator -> batch -> output. Every object holds the
// Gibbs energy of the record M; operations carry it from one to the other, and nothing else does.
static void chain(size_t first, Report& r) {
    int depth = mc::options().thorough() ? 5 : 4;
    struct Op { const char* name; int needs; };   // bits: 1 record 2 database 4 calculator 8 batch 16 output
    static const std::vector<Op> ops = {{"change the record", 1}, {"put the record into the database", 3}, {"take the record from the database", 2}, {"change the record in the database", 2}, {"make a calculator of the database", 2}, {"append to the calculator", 4}, {"take the database of the calculator", 4}, {"make a batch of the calculator", 4}, {"make a batch of the database", 2}, {"calculate with the batch", 8}, {"drop the record", 1}, {"drop the database", 2}, {"drop the calculator", 4}, {"drop the batch", 8}, {"query the calculator with the record", 5}};
    if (first >= ops.size()) return;
    auto run = [&](const std::vector<size_t>& seq, bool eager) {
        int have = 3; for (size_t k : seq) { if ((ops[k].needs & have) != ops[k].needs) return false; switch (k) { case 2: have |= 1; break; case 4: have |= 4; break; case 6: have |= 2; break; case 7: case 8: have |= 8; break; case 9: have |= 16; break; case 10: have &= ~1; break; case 11: have &= ~2; break; case 12: have &= ~4; break; case 13: have &= ~8; break; } }
        std::string lab = "chain: "; for (size_t k : seq) lab += std::string(ops[k].name) + "; "; if (!eager) lab += "(read at the end only)"; mc::visiting(lab); r.states++; r.traces++;
        auto s = std::make_unique<Substance>(synth::mineral("M", MethodCorrP_Thrift::type::CPM_CON)); s->setThermoReferenceProperties(refG(-800000)); auto d = std::make_unique<Database>(small()); d->setSubstance(*s); std::unique_ptr<ThermoEngine> e; std::unique_ptr<ThermoBatch> b; std::vector<Output> o; double vs = -800000, vd = vs, ve = 0, vb = 0, fresh = vs; std::vector<double> vo;
        auto G = [](double got, double want) { return fabs(got - want) < 1e-6; };
        auto check = [&](const char* what) { std::string bad; double P = 1e5; r.transitions++;
            if (s && !G(s->thermoReferenceProperties().gibbs_energy.val, vs)) bad = "the record";
            if (d && !G(d->getSubstance("M").thermoReferenceProperties().gibbs_energy.val, vd)) bad = "the database";
            if (e && (!G(e->thermoPropertiesSubstance(298.15, P, "M").gibbs_energy.val, ve) || !G(e->thermoPropertiesSubstance(298.15, P, e->database().getSubstance("M")).gibbs_energy.val, ve))) bad = "the calculator";
            if (b && !G(b->thermoPropertiesSubstance(298.15, 1e5, "M", "gibbs_energy").toDouble(), vb)) bad = "the batch";
            for (size_t i = 0; i < o.size(); ++i) if (!G(o[i].toDouble(), vo[i])) bad = "the output";
            if (!bad.empty()) r.violation("chain:" + bad.substr(4), lab + ": after '" + what + "' " + bad + " does not have its own value", lab); return bad.empty(); };
        for (size_t k : seq) {
            switch (k) {
            case 0: fresh += 10; s->setThermoReferenceProperties(refG(fresh)); vs = fresh; break;
            case 1: d->setSubstance(*s); vd = vs; break;
            case 2: s = std::make_unique<Substance>(d->getSubstance("M")); vs = vd; break;
            case 3: fresh += 10; d->substance("M").setThermoReferenceProperties(refG(fresh)); vd = fresh; break;
            case 4: e = std::make_unique<ThermoEngine>(*d); ve = vd; break;
            case 5: fresh += 10; e->appendData(minerals(fresh)); ve = fresh; break;
            case 6: d = std::make_unique<Database>(e->database()); vd = ve; break;
            case 7: b = std::make_unique<ThermoBatch>(*e); vb = ve; break;
            case 8: b = std::make_unique<ThermoBatch>(*d); vb = vd; break;
            case 9: o.push_back(b->thermoPropertiesSubstance(298.15, 1e5, "M", "gibbs_energy")); vo.push_back(vb); break;
            case 10: s.reset(); break; case 11: d.reset(); break; case 12: e.reset(); break; case 13: b.reset(); break;
            case 14: { double P = 1e5; if (!G(e->thermoPropertiesSubstance(298.15, P, *s).gibbs_energy.val, vs)) r.violation("chain:record given to a calculator", lab + ": a record given to a calculator is not evaluated with its own values", lab); break; }
            }
            if (eager && !check(ops[k].name)) return true;
        }
        if (!eager) check(ops[seq.back()].name);
        r.nontrivial++; return true; };
    std::vector<size_t> seq = {first}; std::function<void()> go = [&] { if (!run(seq, true)) return; if (seq.size() > 2) run(seq, false); if (int(seq.size()) < depth) for (size_t x = 0; x < ops.size(); ++x) { seq.push_back(x); go(); seq.pop_back(); } }; go();
    if (first == 4) r.sample(std::string("every sequence of up to ") + std::to_string(depth) + " steps out of " + std::to_string(ops.size()) + " on a record, a database, a calculator, a batch and outputs made of one another, beginning with '" + ops[first].name + "'");
}

int main(int argc, char** argv) {
    mc::init(argc, argv); small();
    static auto ke = elementKind(); static auto ks = substanceKind(); static auto kr = reactionKind(); static auto kd = databaseKind(); static auto kg = engineKind(); static auto kb = batchKind(); static auto ko = outputKind();
    static Explorer<Element> xe{ke}; static Explorer<Substance> xs{ks}; static Explorer<Reaction> xr{kr}; static Explorer<Database> xd{kd}; static Explorer<ThermoEngine> xg{kg}; static Explorer<ThermoBatch> xb{kb}; static Explorer<Out> xo{ko};
    auto r = mc::parallel(8 * 20, [&](size_t item, Report& r) { auto T0 = std::chrono::steady_clock::now(); size_t f = item / 8, before = r.states; switch (7 - item % 8) { case 0: xe.all(f, r); break; case 1: xs.all(f, r); break; case 2: xr.all(f, r); break; case 3: xd.all(f, r); break; case 4: xg.all(f, r); break; case 5: xb.all(f, r); break; case 6: xo.all(f, r); break; case 7: chain(f, r); break; }
        if (getenv("TIMES")) fprintf(stderr, "kind %zu %6.2f s %zu\n", 7 - item % 8, std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(), size_t(r.states - before)); },
        [](const std::string& l) { size_t k = l.find(':'); return l.substr(0, k == std::string::npos ? 20 : k); });
    return mc::finish(r);
}
