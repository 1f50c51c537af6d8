// H07: two calculators, each used by one thread. Every memory access of the
// library is seen: when no word of memory is used by both threads with one of
// them writing, all interleavings of the two are equivalent to the two that
// are run; otherwise the accesses to such words are the points at which the
// threads are interleaved, up to two preemptions. Calls are preemption points
// as well, for state that lies outside the instrumented code.
#include "queries.hpp"
#include "sched_rt.hpp"
#include <Batch/ThermoBatch.h>
#include <Batch/OutputBatch.h>
#include <Common/Units.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace eng; using mc::Report; using mc::num;

static std::string scratch(const std::string& n) { static std::string d; if (d.empty()) { d = (mc::options().scratch.empty() ? "/tmp" : mc::options().scratch) + "/threads-" + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d + "/" + n; }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string text(const Snap& s) { return s.failed ? "failed: " + s.error : dump(s.v) + " P " + num(s.P); }

struct Side { std::unique_ptr<ThermoEngine> e; std::unique_ptr<ThermoBatch> b; };
// What a thread does with its own calculator
struct Task { std::string name, family; std::function<std::string(Side&, int)> f; };
static std::vector<Task> tasks; static Database* db; static std::string smallText;

static void makeTasks() {
    auto family = [](const Query& q) { return std::to_string(q.kind) + q.sym; };
    for (auto& q : alphabet(false)) { bool dup = false; for (auto& t : tasks) dup |= t.family == family(q) && q.kind < Query::Solv; if (dup) continue;
        tasks.push_back({q.label(), family(q), [q](Side& s, int who) { Query x = q; if (who) { x.T += 37; x.P *= 1.25; } return text(ask(*s.e, x)); }}); }
    auto T = [](const std::string& n, std::function<std::string(Side&, int)> f) { tasks.push_back({n, n, f}); };
    T("several queries in turn", [](Side& s, int w) { std::string r; for (auto& q : std::vector<Query>{{Query::Sub, w ? "CH4@" : "Na+", 350, 1e7}, {Query::Sub, w ? "Na+" : "CH4@", 350, 1e7}, {Query::Sub, "Na+", 350, 1e7}, {Query::Sub, "H2O@", w ? 400. : 380., 0}}) r += text(ask(*s.e, q)) + "\n"; return r; });
    T("saturation pressure", [](Side& s, int w) { return text(ask(*s.e, {Query::Sub, "Na+", w ? 420. : 460., 0})) + text(ask(*s.e, {Query::Solv, "W-HGKr", w ? 430. : 470., 0})); });
    T("failing queries", [](Side& s, int w) { return text(ask(*s.e, {Query::Sub, w ? "nothing" : "no such", 350, 1e7})) + text(ask(*s.e, {Query::Rx, w ? "Quartz = nothing" : "nowhere = Quartz", 350, 1e7})) + text(ask(*s.e, {Query::Sub, "Na+", 350 + 5. * w, 1e7})); });
    T("change of settings", [](Side& s, int w) { s.e->conventions().apparent_properties = w ? "BERMAN_BROWN" : "BENSON_HELGESON"; s.e->conventions().water_properties = w ? "GEOCHEMICAL" : "STEAM_TABLES"; std::string r = text(ask(*s.e, {Query::Sub, "H2O@", 350, 1e7})); s.e->preferences().apply_pressure_correction_to_gas_props = w; s.e->setSolventSymbol(w ? "W-HGKr" : "H2O@"); return r + text(ask(*s.e, {Query::Sub, "CO2(g)", 350, 1e7})) + text(ask(*s.e, {Query::Sub, "Na+", 350, 1e7})) + dumpSettings(*s.e); });
    T("reaction written as an equation", [](Side& s, int w) { return text(ask(*s.e, {Query::Rx, w ? "Quartz = SiO2@" : "CO2(g) = CO2@", 350, 1e7})) + text(ask(*s.e, {Query::Rx, w ? "2Quartz = 2SiO2@" : "CO2@ = CO2(g)", 350, 1e7})); });
    T("copy of the calculator", [](Side& s, int w) { ThermoEngine c(*s.e), d(c); d = c; return text(ask(c, {Query::Sub, "Na+", 350 + 9. * w, 1e7})) + text(ask(d, {Query::Sub, "CO2(g)", 350 + 9. * w, 1e7})); });
    T("records taken out", [](Side& s, int w) { Substance x = s.e->database().getSubstance(w ? "Na+" : "CO2(g)"); std::string r = dump(x) + dump(s.e->database().getReaction("ZrF6-2")) + dump(s.e->database().getElement("Na")); double P = 1e7; return r + text(snap(s.e->thermoPropertiesSubstance(350, P, x))); });
    T("loading data", [](Side& s, int w) { Database d(smallText); d.appendData(smallText); ThermoEngine e(d); return dump(d) + text(ask(e, {Query::Sub, "Na+", 350 + 9. * w, 1e7})); });
    T("polar fluid", [](Side& s, int w) { return text(ask(*s.e, {Query::Sub, "CGF-H2O", w ? 1150. : 1000., w ? 2e8 : 1e8})); });
    T("formulas", [](Side& s, int w) { std::string r; for (auto f : w ? std::vector<std::string>{"CaSiO3@", "(NpO2)2(OH)2+2", "H2O@"} : std::vector<std::string>{"C6H6O", "KAlSi3O8", "SO4-2"}) for (auto& kv : s.e->database().parseSubstanceFormula(f)) r += kv.first.symbol() + num(kv.second) + num(s.e->database().elementalEntropyFormula(f)) + ","; return r; });
    T("units", [](Side& s, int w) { std::string r; for (auto u : w ? std::vector<std::pair<std::string, std::string>>{{"kJ/mol", "cal/mol"}, {"degC", "K"}, {"bar", "Pa"}} : std::vector<std::pair<std::string, std::string>>{{"J/(mol*K)", "cal/(mol*K)"}, {"degF", "degC"}, {"MPa", "atm"}}) r += num(units::convert(3.5 + w, u.first, u.second)) + ","; return r; });
    T("batch and its tables", [](Side& s, int w) { s.b->setPropertyUnit("gibbs_energy", w ? "kJ/mol" : "cal/mol"); s.b->setPropertyDigit("entropy", 3 + w); s.b->preferences().separator = w ? ";" : ","; auto o = s.b->thermoPropertiesSubstance(std::vector<std::vector<double>>{{350. + w, 1e7}, {370. + w, 0}}, std::vector<std::string>{w ? "Na+" : "Calcite", "CO2@"}, std::vector<std::string>{"gibbs_energy", "entropy"}); std::string f = scratch(w ? "1.csv" : "0.csv"); o.toCSV(f); std::string r = slurp(f); o.toCSVTransposed(f); r += slurp(f); unlink(f.c_str()); return r + dump(o.to2DVectorDouble()); });
    T("batch grid", [](Side& s, int w) { s.b->setTemperatureIncrement(300 + w, 310 + w, 5); s.b->setPressureIncrement(1e6, 2e6, w ? 5e5 : 1e6); auto o = s.b->thermoPropertiesReaction(std::vector<std::string>{w ? "ZrF6-2" : "CoHS+"}, std::vector<std::string>{"logKr"}); std::string f = scratch(w ? "1g.csv" : "0g.csv"); o.toCSV(f); std::string r = slurp(f); unlink(f.c_str()); return r + dump(o.to2DVectorDouble()); });
}
// How the two calculators come about
static const char* origins[] = {"from one database", "one a copy of the other", "assigned"};
static void prepare(int origin, bool batch, Side& a, Side& b) {
    auto warm = [](Side& s) { ask(*s.e, {Query::Sub, "Calcite", 333, 1e7}); };
    a.e = std::make_unique<ThermoEngine>(*db); if (origin) warm(a); if (batch) { a.b = std::make_unique<ThermoBatch>(*a.e); a.b->setPropertyUnit("temperature", "K"); a.b->setPropertyUnit("pressure", "Pa"); }
    if (origin == 0) { b.e = std::make_unique<ThermoEngine>(*db); if (batch) { b.b = std::make_unique<ThermoBatch>(*db); b.b->setPropertyUnit("temperature", "K"); b.b->setPropertyUnit("pressure", "Pa"); } }
    else if (origin == 1) { b.e = std::make_unique<ThermoEngine>(*a.e); if (batch) b.b = std::make_unique<ThermoBatch>(*a.b); }
    else { b.e = std::make_unique<ThermoEngine>(*db); *b.e = *a.e; if (batch) { b.b = std::make_unique<ThermoBatch>(*db); *b.b = *a.b; } }
}
static std::string solo(size_t t, int who) {   // the task on a calculator of its own, alone in the process
    static std::map<std::pair<size_t, int>, std::string> memo; auto it = memo.find({t, who}); if (it != memo.end()) return it->second;
    std::string r[2]; for (auto& x : r) { Side a, b; prepare(0, tasks[t].name.compare(0, 5, "batch") == 0, a, b); auto f = [&] { x = tasks[t].f(who ? b : a, who); }; if (who) sched::run(sched::Off, 1, {}, nullptr, f); else sched::run(sched::Off, 0, {}, f, nullptr); }
    if (r[0] != r[1]) r[0] = "unsteady"; return memo[{t, who}] = r[0];
}
struct Pair { size_t a, b; int origin; bool entries; };

int main(int argc, char** argv) {
    mc::init(argc, argv); mc::visit_limit() = 20; bool th = mc::options().thorough();
    db = new Database(base(readJson("mini.json").dump())); smallText = only(readJson("mini.json"), {"H2O@", "Na+", "Calcite", "CO2@", "NaHCO3@", "CO2(g)", "H2Se(g)"});
    if (!db->containsSubstance("CGF-H2O")) db->addSubstance(synth::cgfPolar());
    makeTasks(); size_t n = tasks.size(); std::vector<Pair> pairs;
    for (size_t d = 0; d < n; ++d) for (size_t i = 0; i < n; ++i) for (int o = 0; o < (d == 0 || th ? 3 : 1); ++o) { if (!th && d > 1 && (d + i) % 6) continue; size_t j = (i + d) % n; pairs.push_back({i, j, d == 0 || th ? o : int((i + j) % 2), th ? d < 4 : d == 0 && o == int(i % 2)}); }
    return mc::finish(mc::parallel(pairs.size(), [&](size_t k, Report& r) {
        auto T0 = std::chrono::steady_clock::now(); auto p = pairs[k]; std::string lab = tasks[p.a].name + " | " + tasks[p.b].name + ", calculators " + origins[p.origin]; mc::visiting(lab);
        const std::string wa = solo(p.a, 0), wb = solo(p.b, 1); if (wa == "unsteady" || wb == "unsteady") { r.counters["tasks whose result alone is not steady"]++; return; }
        int blocked = 0; bool bad = false;
        auto go = [&](sched::Mode m, int first, const std::vector<sched::Switch>& sw, const std::string& how) { mc::visiting(lab + ": " + how); Side a, b; prepare(p.origin, tasks[p.a].name.compare(0, 5, "batch") == 0 || tasks[p.b].name.compare(0, 5, "batch") == 0, a, b); std::string ra, rb; auto o = sched::run(m, first, sw, [&] { ra = tasks[p.a].f(a, 0); }, [&] { rb = tasks[p.b].f(b, 1); });
            r.states++; r.traces++; r.transitions += o.accesses[0] + o.accesses[1]; if (o.blocked) { ++blocked; r.counters["schedules in which a thread waited for a lock of the other"]++; }
            for (int w = 0; w < 2; ++w) { auto& got = w ? rb : ra; auto& want = w ? wb : wa; if (got == want) continue; bad = true; const std::string& t = tasks[w ? p.b : p.a].name; r.violation("disturbed:" + t.substr(0, t.find('@')), lab + ", " + how + ": thread " + std::to_string(w) + " gets " + got.substr(0, 200) + " instead of " + want.substr(0, 200), lab + ", " + how); }
            return o; };
        sched::forget(); go(sched::Record, 0, {}, "the first, then the second"); size_t c = sched::conflicts(1500); sched::forget(false); go(sched::Record, 1, {}, "the second, then the first"); c += sched::conflicts(1500); r.nontrivial++;
        if (k % 397 == 0) r.sample(lab + ": " + std::to_string(c) + " words of memory used by both with one writing");
        if (c == 0) r.counters["pairs without any shared writable memory: all interleavings are equivalent"]++;
        else if (!bad) {
            r.counters["pairs with shared writable memory, interleaved at its accesses"]++;
            uint64_t P1 = th ? 2000 : 200, P2 = th ? 80 : 20; auto o = go(sched::Accesses, 0, {}, "counting"); uint64_t na = std::min(o.points[0], P1), nb = std::min(o.points[1], P1);
            for (uint64_t i = 1; i <= na && !bad && blocked < 3; ++i) go(sched::Accesses, 0, {{0, i}}, "the second runs when the first is at its access " + std::to_string(i) + " to shared memory");
            for (uint64_t i = 1; i <= nb && !bad && blocked < 3; ++i) go(sched::Accesses, 1, {{1, i}}, "the first runs when the second is at its access " + std::to_string(i) + " to shared memory");
            for (uint64_t i = 1; i <= std::min(na, P2) && !bad && blocked < 3; ++i) for (uint64_t j = 1; j <= std::min(nb, P2) && !bad && blocked < 3; ++j) go(sched::Accesses, 0, {{0, i}, {1, j}}, "switches at accesses " + std::to_string(i) + " and " + std::to_string(j) + " to shared memory");
        }
        if (p.entries && !bad) { sched::firstEntries(th ? 2 : 1); auto o = go(sched::Entries, 0, {}, "counting"); r.counters["calls at which the other thread took over"] += o.points[0];
            for (uint64_t i = 1; i <= o.points[0] && !bad && blocked < 3; ++i) go(sched::Entries, 0, {{0, i}}, "the second runs at call " + std::to_string(i) + " of the first"); }
        if (getenv("TIMES")) fprintf(stderr, "%6.2f s %zu conflicts %s %d\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(), c, lab.c_str(), p.entries);
    }, [](const std::string& l) { return l.substr(0, l.find('@')); }));
}
