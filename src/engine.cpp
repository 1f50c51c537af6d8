// H01, H02, H03, H04, H05, H08: the engine as a stateful service.
#include "queries.hpp"
using namespace eng;

static std::string kFull, kNoH2O;   // data sets (JSON)

// A crash belongs to the query that was being answered
static std::string lastFamily(const std::string& lab) {
    std::string l = lab; while (!l.empty() && (l.back() == ' ' || l.back() == ';')) l.pop_back();
    size_t p = l.rfind(" ; "); if (p != std::string::npos) l = l.substr(p + 3);
    p = l.rfind('@'); return p == std::string::npos ? l : l.substr(0, p);
}

struct Config { std::string name; const Database* db; std::function<void(ThermoEngine&)> set; };

// ---------------------------------------------------------------- H01
static mc::Report h01() {
    static Database full = base(kFull), no = base(kNoH2O);
    std::vector<Config> cfgs = {
        {"default", &full, [](ThermoEngine&) {}},
        {"gas correction on", &full, [](ThermoEngine& e) { e.preferences().apply_pressure_correction_to_gas_props = true; }},
        {"fallback+conventions", &full, [](ThermoEngine& e) { e.preferences().fallback_to_reference_properties = true; e.conventions().apparent_properties = "BERMAN_BROWN"; e.conventions().water_properties = "STEAM_TABLES"; }},
        {"solvent not named H2O@", &no, [](ThermoEngine&) {}},
    };
    struct Item { size_t c, a; bool deep; };
    static std::vector<std::vector<Query>> qs; static std::vector<std::vector<Snap>> fresh;
    std::vector<Item> items;
    for (size_t c = 0; c < cfgs.size(); ++c) {
        qs.push_back(alphabet(c == 3)); fresh.emplace_back();
        for (auto& q : qs[c]) { ThermoEngine e(*cfgs[c].db); cfgs[c].set(e); fresh[c].push_back(ask(e, q)); }
        for (size_t a = 0; a < qs[c].size(); ++a) items.push_back({c, a, false});
    }
    // depth 3 over the queries that touch calculator-wide flags (and, thorough, over all)
    for (size_t c = 0; c < cfgs.size(); ++c) for (size_t a = 0; a < qs[c].size(); ++a) items.push_back({c, a, true});
    return mc::parallel(items.size(), [&](size_t i, mc::Report& r) {
        auto [c, a, deep] = items[i]; auto& Q = qs[c]; auto& F = fresh[c];
        if (i == 0) {
            uint64_t failing = 0; for (auto& cf : fresh) for (auto& s : cf) failing += s.failed;
            r.counters["queries in the alphabets"] = [&] { size_t n = 0; for (auto& x : qs) n += x.size(); return n; }();
            r.counters["queries that fail on a new calculator"] = failing;
        }
        auto run = [&](const std::vector<size_t>& seq) {
            std::string lab = cfgs[c].name + ": "; for (size_t k : seq) lab += Q[k].label() + " ; ";
            mc::visiting(lab);
            ThermoEngine e(*cfgs[c].db); cfgs[c].set(e);
            Snap s; for (size_t k : seq) { s = ask(e, Q[k]); r.transitions++; }
            r.states++; r.traces++;
            size_t last = seq.back();
            if (!F[last].failed) r.nontrivial++;
            if (!same(s, F[last]))
                r.violation(cfgs[c].name + ":" + Q[last].family(), lab + "the last query answers differently than on a new calculator: " + diff(s, F[last]), lab);
        };
        if (!deep) { for (size_t b = 0; b < Q.size(); ++b) run({a, b}); if (a < 3) r.sample(cfgs[c].name + ": " + Q[a].label() + " then each of " + std::to_string(Q.size()) + " queries"); }
        else {
            auto interesting = [&](size_t k) { auto& q = Q[k]; return q.kind == Query::Rx || q.kind == Query::RxFR || q.sym == "CO2(g)" || q.sym == "CO-PRSV" || q.sym == "ZrF6-2" || q.sym == "CGF-Ar" || q.sym == "W-HGKg" || q.sym == "H2Se(g)"; };
            bool th = mc::options().thorough();
            if (!th && !interesting(a)) return;
            for (size_t b = 0; b < Q.size(); ++b) { if (!interesting(b)) continue;
                for (size_t d = 0; d < Q.size(); ++d) { if (!th && !interesting(d)) continue; run({a, b, d}); } }
        }
    }, lastFamily);
}

// ---------------------------------------------------------------- H02
// Every history over a small alphabet of look-alike queries, at every cache capacity.
static mc::Report h02() {
    static Database full = base(kFull);
    struct Group { std::string name; std::vector<Query> q; int depth; };
    const double T = 573.15, P = 2e7;
    static std::vector<Group> groups = {
        {"one name, near-equal conditions", {{Query::Sub, "Na+", T, P}, {Query::Sub, "Na+", T + 1e-9, P}, {Query::Sub, "Na+", T, P + 1e-3}, {Query::Sub, "Na+g", T, P}, {Query::Sub, "Na+", T, 0}, {Query::Sub, "Na+", P, T}}, 5},
        {"phases", {{Query::Solv, "W-HGKg", 500, 3e6, -1}, {Query::Solv, "W-HGKg", 500, 3e6, 0}, {Query::Solv, "W-HGKg", 500, 3e6, 1}, {Query::El, "W-HGKg", 500, 3e6, 0}, {Query::El, "W-HGKg", 500, 3e6, 1}, {Query::Solv, "W-HGKr", 500, 0, 0}}, 5},
        {"kinds with one name", {{Query::Sub, "ZrF6-2", T, 2e8}, {Query::Rx, "ZrF6-2", T, 2e8}, {Query::RxFR, "ZrF6-2", T, 2e8}, {Query::Sub, "H2O@", T, 2e8}, {Query::Solv, "H2O@", T, 2e8, -1}, {Query::El, "H2O@", T, 2e8, -1}}, 5},
        {"gases with and without correction", {{Query::Sub, "CO2(g)", T, P}, {Query::Rx, "CO2(g) = CO2@", T, P}, {Query::Sub, "CO-PRSV", T, P}, {Query::Rx, "CO-PRSV = CO-PR78", T, P}, {Query::Sub, "CO-PR78", T, P}, {Query::Sub, "CO2(g)", T, P * (1 + 1e-15)}}, 5},
        {"saturation pressure", {{Query::Sub, "H2O@", 473.15, 0}, {Query::Sub, "H2O@", 473.15, 1554671.98}, {Query::Sub, "H2O@", 473.15000000001, 0}, {Query::Sub, "H2O@", 473.15, 1e7}, {Query::Sub, "Na+", 473.15, 0}, {Query::Rx, "R-FM", 473.15, 0}}, 5},
        {"failures among them", {{Query::Sub, "no such", T, P}, {Query::Sub, "Na+", T, P}, {Query::Sub, "Na+", std::nan(""), P}, {Query::Rx, "Quartz = nothing", T, P}, {Query::Sub, "Quartz", T, P}, {Query::Sub, "Quartz", std::nan(""), P}}, 5},
    };
    struct Cap { std::string name; bool on; size_t n; };
    static std::vector<Cap> caps = {{"capacity1", true, 1}, {"capacity2", true, 2}, {"capacity3", true, 3}, {"capacity4", true, 4}, {"unlimited", true, 0}, {"default", true, 1000000}};
    static std::vector<std::vector<Snap>> want;
    for (auto& g : groups) { want.emplace_back(); for (auto& q : g.q) { ThermoEngine e(full); e.preferences().enable_memoize = false; want.back().push_back(ask(e, q)); } }
    // the other kind of query alphabet: everything, pairwise and repeated
    static std::vector<Query> all = alphabet(false); static std::vector<Snap> wantAll;
    for (auto& q : all) { ThermoEngine e(full); e.preferences().enable_memoize = false; wantAll.push_back(ask(e, q)); }
    struct Item { size_t g, c, first, second; };
    std::vector<Item> items;
    for (size_t g = 0; g < groups.size(); ++g) for (size_t c = 0; c < caps.size(); ++c) for (size_t a = 0; a < groups[g].q.size(); ++a) for (size_t b = 0; b < groups[g].q.size(); ++b) items.push_back({g, c, a, b});
    size_t nA = items.size();
    for (size_t c = 0; c < caps.size(); ++c) for (size_t a = 0; a < all.size(); ++a) items.push_back({999, c, a, 0});
    return mc::parallel(items.size(), [&, nA](size_t i, mc::Report& r) {
        auto it = items[i]; auto& cap = caps[it.c];
        auto check = [&](const Snap& s, const Snap& w, const Query& q, const std::string& hist, const std::string& g) {
            r.transitions++;
            if (!w.failed) r.nontrivial++;
            if (!same(s, w)) r.violation(cap.name + ":" + q.family(), g + " [" + cap.name + "] " + hist + ": the answer differs from the one without caching: " + diff(s, w), hist);
        };
        if (i >= nA) {  // a b a b a for every pair of the whole alphabet
            size_t a = it.first;
            for (size_t b = 0; b < all.size(); ++b) {
                std::string hist = all[a].label() + " ; " + all[b].label() + " and again";
                mc::visiting(hist);
                ThermoEngine e(full); e.preferences().enable_memoize = cap.on; e.preferences().max_cache_size = cap.n;
                for (size_t k : {a, b, a, b, b}) check(ask(e, all[k]), wantAll[k], all[k], hist, "pair");
                r.states += 1; r.traces++;
            }
            return;
        }
        auto& G = groups[it.g]; int depth = G.depth - (mc::options().thorough() ? 0 : 1);
        if (it.c == 0 && it.first == 0 && it.second == 0) r.sample(G.name + ": all sequences of " + std::to_string(depth) + " of " + std::to_string(G.q.size()) + " queries, each at " + std::to_string(caps.size()) + " capacities");
        std::vector<size_t> seq = {it.first, it.second};
        std::function<void()> go = [&] {
            if ((int)seq.size() < depth) { for (size_t k = 0; k < G.q.size(); ++k) { seq.push_back(k); go(); seq.pop_back(); } return; }
            std::string hist; for (size_t k : seq) hist += G.q[k].label() + " ; ";
            mc::visiting(hist);
            ThermoEngine e(full); e.preferences().enable_memoize = cap.on; e.preferences().max_cache_size = cap.n;
            for (size_t k : seq) check(ask(e, G.q[k]), want[it.g][k], G.q[k], hist, G.name);
            r.states++; r.traces++;
        };
        go();
    }, lastFamily);
}

// ---------------------------------------------------------------- H03
static mc::Report h03() {
    static json j = readJson("mini.json");
    static Database full = base(kFull);
    auto record = [&](const char* kind, const std::string& sym) { for (auto& x : j[kind]) if (x["symbol"] == sym) return x; return json(); };
    struct Change { std::string name; std::function<void(ThermoEngine&)> set; std::function<void(Database&)> data; };
    static std::vector<Change> changes;
    auto setting = [&](const std::string& n, std::function<void(ThermoEngine&)> f) { changes.push_back({n, f, [](Database&) {}}); };
    setting("gas correction on", [](ThermoEngine& e) { e.preferences().apply_pressure_correction_to_gas_props = true; });
    setting("gas correction off", [](ThermoEngine& e) { e.preferences().apply_pressure_correction_to_gas_props = false; });
    setting("fallback on", [](ThermoEngine& e) { e.preferences().fallback_to_reference_properties = true; });
    setting("Berman-Brown", [](ThermoEngine& e) { e.conventions().apparent_properties = "BERMAN_BROWN"; });
    setting("Benson-Helgeson", [](ThermoEngine& e) { e.conventions().apparent_properties = "BENSON_HELGESON"; });
    setting("steam tables", [](ThermoEngine& e) { e.conventions().water_properties = "STEAM_TABLES"; });
    setting("solvent W-HGKg", [](ThermoEngine& e) { e.setSolventSymbol("W-HGKg"); });
    setting("solvent W-SV by reference", [](ThermoEngine& e) { e.solventSymbol() = "W-SV"; });
    setting("solvent in preferences", [](ThermoEngine& e) { e.preferences().solvent_symbol = "W-FE"; });
    setting("solvent absent", [](ThermoEngine& e) { e.setSolventSymbol("absent"); });
    setting("cache of one", [](ThermoEngine& e) { e.preferences().max_cache_size = 1; });
    setting("no cache", [](ThermoEngine& e) { e.preferences().enable_memoize = false; });
    setting("cache again", [](ThermoEngine& e) { e.preferences().enable_memoize = true; });
    auto append = [&](const std::string& n, std::vector<std::string> recs, const std::string& label) {
        changes.push_back({n, [=](ThermoEngine& e) { e.appendData(recs, label); }, [=](Database& d) { d.appendData(recs, label); }});
    };
    { json s = record("substances", "Quartz"); s["sm_gibbs_energy"]["values"][0] = -856789.0; append("Quartz replaced", {s.dump()}, "substance"); }
    { json s = record("substances", "Na+"); s["sm_gibbs_energy"]["values"][0] = -261000.0; append("Na+ replaced", {s.dump()}, "substance"); }
    { json s = record("substances", "H2O@"); json w = record("substances", "W-HGKr"); w["symbol"] = "H2O@"; append("H2O@ replaced by another equation of state", {w.dump()}, "substance"); }
    { json s = record("substances", "CO2(g)"); s["sm_entropy_abs"]["values"][0] = 200.0; append("CO2(g) replaced", {s.dump()}, "substance"); }
    { json s = record("reactions", "ZrF6-2"); for (auto& p : s["logKr"]["values"]) p = 25.0; if (s["TPMethods"].size()) for (auto& m : s["TPMethods"]) if (m.contains("logk_ft_coeffs")) m["logk_ft_coeffs"]["values"][0] = 25.0; append("reaction ZrF6-2 replaced", {s.dump()}, "reaction"); }
    { json s = record("substances", "Calcite"); s["symbol"] = "New"; append("New added", {s.dump()}, "substance"); }
    { json s; s["substances"] = json::array({record("substances", "Calcite")}); s["substances"][0]["symbol"] = "New"; std::string t = s.dump();
      changes.push_back({"New added from a data set", [=](ThermoEngine& e) { e.appendData(t); }, [=](Database& d) { d.appendData(t); }}); }
    { json s = record("elements", "Si"); s["entropy"]["values"][0] = 30.0; append("element Si replaced", {s.dump()}, "element"); }
    static std::vector<Query> Q;
    const double T = 573.15, P = 2e8;
    for (auto s : {"Quartz", "Na+", "H2O@", "CO2(g)", "ZrF6-2", "New", "HP98-X", "AN91-X", "CH4@"}) Q.push_back({Query::Sub, s, T, P});
    Q.push_back({Query::Rx, "ZrF6-2", T, P}); Q.push_back({Query::Rx, "CO2(g) = CO2@", T, P}); Q.push_back({Query::RxFR, "ZrF6-2", T, P}); Q.push_back({Query::Rx, "R-FM", T, P});
    Q.push_back({Query::Solv, "H2O@", T, P, -1}); Q.push_back({Query::El, "H2O@", T, P, -1}); Q.push_back({Query::SubObj, "Na+", T, P});
    size_t n = changes.size(), depth = mc::options().thorough() ? 3 : 2;
    size_t total = 1; for (size_t d = 0; d < depth; ++d) total *= n;
    return mc::parallel(total, [&](size_t i, mc::Report& r) {
        std::vector<size_t> seq; size_t x = i; for (size_t d = 0; d < depth; ++d) { seq.push_back(x % n); x /= n; }
        std::string lab; for (size_t c : seq) lab += changes[c].name + " ; ";
        if (i < 4) r.sample("all queries ; " + lab + "all queries after each");
        mc::visiting(lab);
        ThermoEngine e(full);
        for (auto& q : Q) ask(e, q);                      // fill the caches
        Database d(full);
        std::vector<size_t> done;
        for (size_t c : seq) {
            mc::visiting(lab + " at " + changes[c].name);
            changes[c].set(e); done.push_back(c);
            changes[c].data(d);
            ThermoEngine f(d);
            // settings only: the data is there already
            for (size_t k : done) if (&changes[k] && changes[k].name.find("replaced") == std::string::npos && changes[k].name.find("added") == std::string::npos) changes[k].set(f);
            r.states++;
            for (auto& q : Q) {
                Snap a = ask(e, q), b; { ThermoEngine g(f); b = ask(g, q); }
                r.transitions += 2; r.traces++; if (!b.failed) r.nontrivial++;
                if (!same(a, b)) r.violation(changes[c].name + ":" + q.family(), "after " + lab + q.label() + " differs from a new calculator with the same data and settings: " + diff(a, b), lab);
            }
        }
    }, lastFamily);
}

static std::vector<Query> failing() {
    const double N = std::nan(""), I = std::numeric_limits<double>::infinity();
    std::vector<Query> q;
    q.push_back({Query::Sub, "no such", 573.15, 2e8}); q.push_back({Query::Rx, "no such", 573.15, 2e8}); q.push_back({Query::RxFR, "no such", 573.15, 2e8});
    q.push_back({Query::Solv, "no such", 573.15, 2e8, 0}); q.push_back({Query::El, "no such", 573.15, 2e8, 0});
    q.push_back({Query::Rx, "Quartz = no such", 573.15, 2e8}); q.push_back({Query::Rx, "CO2(g) + missing = CO2@", 573.15, 2e8}); q.push_back({Query::Rx, "missing = CO2(g)", 573.15, 2e8});
    q.push_back({Query::Rx, "CO2(g) = zmissing", 573.15, 2e7}); q.push_back({Query::Sub, "H2PO4-", 100, 2e8});
    for (double T : {N, 0.0, -5.0, 1e9, I}) for (auto s : {"H2O@", "W-HGKg", "W-ZD", "Na+", "CH4@", "ZrF6-2", "CO2(g)", "CGF-Ar", "Quartz"}) q.push_back({Query::Sub, s, T, 2e8});
    for (double P : {N, -1e5, 1e15}) for (auto s : {"H2O@", "W-HGKg", "W-HGKr", "Na+", "CO-PRSV", "CGF-H2O", "H2Se(g)"}) q.push_back({Query::Sub, s, 573.15, P});
    for (double T : {N, 1e9}) { q.push_back({Query::Rx, "CO2(g) = CO2@", T, 2e7}); q.push_back({Query::Solv, "W-HGKg", T, 2e7, 1}); q.push_back({Query::El, "W-FE", T, 2e7, 0}); q.push_back({Query::Rx, "R-FM", T, 2e7}); }
    q.push_back({Query::Sub, "W-ZD", 573.15, 1e5}); q.push_back({Query::Sub, "CAL-missing", 573.15, 2e8}); q.push_back({Query::Sub, "RX-missing", 573.15, 2e8}); q.push_back({Query::Sub, "RX-species", 573.15, 2e8}); q.push_back({Query::Rx, "R-self", 573.15, 2e8});
    return q;
}
static Database withBroken(const std::string& js) {
    Database d = base(js);
    // substances that refer to a reaction that is not there, or whose reaction names species that are not there
    auto mk = [&](const char* sym, const char* rx) { Substance s = synth::aqueous(sym, "SiO2@", MethodGenEoS_Thrift::type(), synth::ref(-833411, -887900, 41.3, 50.0, 1.6));
        s.setThermoCalculationType(SubstanceThermoCalculationType::type::REACDC); s.setReactionSymbol(rx); d.addSubstance(s); };
    mk("RX-missing", "nowhere"); mk("RX-species", "R-unknown");
    Reaction r; r.setSymbol("R-unknown"); r.fromEquation("CO2(g) + RX-species = zz-missing"); r.setReferenceT(298.15); r.setReferenceP(1e5); r.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON); d.addReaction(r);
    Reaction s; s.setSymbol("R-self"); s.fromEquation("R-selfsub = Quartz"); s.setReferenceT(298.15); s.setReferenceP(1e5); d.addReaction(s);
    mk("R-selfsub", "R-self");
    return d;
}

// ---------------------------------------------------------------- H04
static mc::Report h04() {
    static Database full = withBroken(kFull), no = withBroken(kNoH2O);
    static std::vector<Config> cfgs = {
        {"default", &full, [](ThermoEngine&) {}},
        {"everything changed", &full, [](ThermoEngine& e) { auto& p = e.preferences(); p.apply_pressure_correction_to_gas_props = true; p.fallback_to_reference_properties = true; p.solvent_state = 1; p.solvent_symbol = "W-HGKr"; p.max_cache_size = 3;
            e.conventions().apparent_properties = "BERMAN_BROWN"; e.conventions().water_properties = "STEAM_TABLES"; }},
        {"solvent not named H2O@", &no, [](ThermoEngine&) {}},
        {"no solvent symbol", &full, [](ThermoEngine& e) { e.setSolventSymbol(""); e.preferences().enable_memoize = false; }},
    };
    static std::vector<std::vector<Query>> Qs;
    std::vector<std::pair<size_t, size_t>> items;
    for (size_t c = 0; c < cfgs.size(); ++c) { Qs.push_back(alphabet(c == 2)); for (auto& q : failing()) Qs[c].push_back(q);
        size_t n = Qs[c].size(); for (size_t k = 0; k < n; ++k) { Query q = Qs[c][k]; if (q.kind == Query::RxFR) q.kind = Query::RxFRObj; else if (q.kind == Query::RxFRObj || q.kind == Query::ElObj) continue; else q.kind = Query::Kind(q.kind + 1); if (q.kind == Query::RxObj || q.kind == Query::SubObj || q.kind == Query::RxFRObj || q.kind == Query::SolvObj || q.kind == Query::ElObj) Qs[c].push_back(q); }
        for (size_t a = 0; a < Qs[c].size(); ++a) items.push_back({c, a}); }
    return mc::parallel(items.size(), [&](size_t i, mc::Report& r) {
        auto [c, a] = items[i]; auto& Q = Qs[c];
        auto judge = [&](const std::vector<const Query*>& seq, bool data) {
            std::string lab = cfgs[c].name + ": "; for (auto* q : seq) lab += q->label() + " ; ";
            mc::visiting(lab);
            ThermoEngine e(*cfgs[c].db); cfgs[c].set(e);
            std::string s0 = dumpSettings(e), d0 = data ? dump(e.database()) : "";
            Snap o; std::string objBefore, objAfter;
            for (auto* q : seq) {
                double P = q->P; bool obj = false;
                try {
                    if (q->kind == Query::SubObj) { Substance x = e.database().getSubstance(q->sym); objBefore = dump(x); obj = true; try { e.thermoPropertiesSubstance(q->T, P, x); } catch (...) { o.failed = true; } objAfter = dump(x); }
                    else if (q->kind == Query::RxObj) { Reaction x = e.database().getReaction(q->sym); objBefore = dump(x); obj = true; try { e.thermoPropertiesReaction(q->T, P, x); } catch (...) { o.failed = true; } objAfter = dump(x); }
                    else if (q->kind == Query::RxFRObj) { Reaction x = e.database().getReaction(q->sym); objBefore = dump(x); obj = true; try { e.thermoPropertiesReactionFromReactants(q->T, P, x); } catch (...) { o.failed = true; } objAfter = dump(x); }
                    else o = ask(e, *q);
                } catch (...) { o.failed = true; }
                r.transitions++;
                if (obj && objBefore != objAfter) r.violation("object:" + q->family(), lab + "the object passed in was changed: " + firstDiff(objBefore, objAfter), lab);
            }
            r.states++; r.traces++; r.nontrivial++;
            r.counters[o.failed ? "after a failed query" : "after a successful query"]++;
            std::string s1 = dumpSettings(e);
            if (s0 != s1) r.violation("settings:" + seq.back()->family(), lab + "settings were [" + s0 + "] and are now [" + s1 + "]", lab);
            if (data) { std::string d1 = dump(e.database()); if (d0 != d1) r.violation("data:" + seq.back()->family(), lab + "the database changed: " + firstDiff(d0, d1), lab); }
        };
        judge({&Q[a]}, true);
        if (a < 4) r.sample(cfgs[c].name + ": " + Q[a].label());
        bool th = mc::options().thorough();
        for (size_t b = 0; b < Q.size(); ++b) if (th || (c < 2 && (Q[b].kind >= Query::Rx || b % 4 == 0))) judge({&Q[a], &Q[b]}, th);
    }, lastFamily);
}

// ---------------------------------------------------------------- H05
static mc::Report h05() {
    static Database full = withBroken(kFull);
    static std::vector<Query> bad, good; static std::vector<Snap> wantBad, wantGood;
    static std::vector<std::function<void(ThermoEngine&)>> cfgs = {[](ThermoEngine&) {}, [](ThermoEngine& e) { e.preferences().enable_memoize = false; }, [](ThermoEngine& e) { e.preferences().apply_pressure_correction_to_gas_props = true; e.preferences().max_cache_size = 1; }};
    struct Item { size_t c, a; }; std::vector<Item> items;
    static std::vector<std::vector<Snap>> WB, WG;
    size_t finite = 0;
    for (auto& q : failing()) { mc::visiting(q.label()); ThermoEngine e(full); Snap s = ask(e, q); if (s.failed) bad.push_back(q); else finite++; }
    good = alphabet(false);
    for (size_t c = 0; c < cfgs.size(); ++c) {
        WB.emplace_back(); WG.emplace_back();
        for (auto& q : bad) { ThermoEngine e(full); cfgs[c](e); WB[c].push_back(ask(e, q)); }
        for (auto& q : good) { ThermoEngine e(full); cfgs[c](e); WG[c].push_back(ask(e, q)); }
        for (size_t a = 0; a < bad.size(); ++a) items.push_back({c, a});
    }
    return mc::parallel(items.size(), [&](size_t i, mc::Report& r) {
        auto [c, a] = items[i];
        if (i == 0) { r.counters["queries that fail"] = bad.size(); r.counters["candidates that gave a result instead"] = finite; }
        if (i < 4) r.sample(bad[a].label() + " fails (" + WB[c][a].error.substr(0, 80) + "), then each other query, then it again");
        auto fail = [&](const char* what, const Query& q, const std::string& lab, const Snap& s, const Snap& w) { r.violation(std::string(what) + ":" + q.family(), lab + what + ": " + diff(s, w), lab); };
        for (size_t g = 0; g < good.size(); ++g) {
            std::string lab = bad[a].label() + " ; " + good[g].label() + " ; "; mc::visiting(lab);
            ThermoEngine e(full); cfgs[c](e);
            Snap s1 = ask(e, bad[a]), s2 = ask(e, good[g]), s3 = ask(e, bad[a]), s4 = ask(e, good[g]);
            r.states++; r.transitions += 4; r.traces++; r.nontrivial++;
            if (!same(s1, WB[c][a])) fail("failing-query", bad[a], lab, s1, WB[c][a]);
            if (!same(s2, WG[c][g])) fail("after-failure", good[g], lab, s2, WG[c][g]);
            if (!same(s3, WB[c][a])) fail("repeated-failure", bad[a], lab, s3, WB[c][a]);
            if (!same(s4, WG[c][g])) fail("after-two-failures", good[g], lab, s4, WG[c][g]);
        }
        for (size_t b = 0; b < bad.size(); ++b) {
            std::string lab = bad[a].label() + " ; " + bad[b].label() + " ; "; mc::visiting(lab);
            ThermoEngine e(full); cfgs[c](e); ask(e, bad[a]); Snap s = ask(e, bad[b]);
            r.states++; r.transitions += 2; r.traces++;
            if (!same(s, WB[c][b])) fail("failure-after-failure", bad[b], lab, s, WB[c][b]);
        }
    }, lastFamily);
}

// ---------------------------------------------------------------- H08
// Whether an answer rests on the state of water: the solvent, dissolved species with an equation of
// state, reactions with dissolved species and substances defined by such reactions
static bool involvesWater(const Database& d, const Query& q) {
    if (q.kind >= Query::Solv) return true;
    auto aq = [&](const Reaction& r) { for (auto& s : r.reactants()) if (d.containsSubstance(s.first)) { auto c = d.getSubstance(s.first).substanceClass(); if (c == SubstanceClass::AQSOLUTE || c == SubstanceClass::AQSOLVENT) return true; } return false; };
    if (q.kind == Query::Sub || q.kind == Query::SubObj) {
        Substance s = d.getSubstance(q.sym);
        if (s.symbol() == "H+") return false;
        if (s.thermoCalculationType() == SubstanceThermoCalculationType::type::REACDC) return !s.reactionSymbol().empty() && aq(d.getReaction(s.reactionSymbol()));
        if (s.substanceClass() == SubstanceClass::AQSOLVENT) return s.methodGenEOS() != MethodGenEoS_Thrift::type::CTPM_CON;
        auto g = s.methodGenEOS();
        return g == MethodGenEoS_Thrift::type::CTPM_HKF || g == MethodGenEoS_Thrift::type::CTPM_HKFR || g == MethodGenEoS_Thrift::type::CTPM_HP98 || g == MethodGenEoS_Thrift::type::CTPM_AN91 || s.method_P() == MethodCorrP_Thrift::type::CPM_AKI;
    }
    if (d.containsReaction(q.sym)) return aq(d.getReaction(q.sym));
    Reaction r; r.fromEquation(q.sym); return aq(r);
}

static mc::Report h08() {
    static Database full = base(kFull);
    static std::vector<Query> Q; for (auto& q : alphabet(false)) { if (q.sym == "W-ZD" ) continue; bool dup = false; for (auto& o : Q) dup |= o.family() == q.family() && o.state == q.state; if (!dup) Q.push_back(q); }
    for (auto r : {"R-FM", "R-DOL", "ZrF6-2"}) Q.push_back({Query::RxFR, r, 0, 0});
    // the solvent with minerals or gases only
    for (auto r : {"Brucite = H2O@ + Periclase", "2*Diaspore = Corundum + H2O@", "H2 + 0.5*O2 = H2O@"}) Q.push_back({Query::Rx, r, 0, 0});
    std::vector<double> Ts = {273.16, 298.15, 323.15, 373.15, 423.15, 473.15, 523.15, 573.15, 603.15, 623.15, 640.0};
    if (mc::options().thorough()) { Ts.clear(); for (double T = 273.16; T < 645; T += 5) Ts.push_back(T); }
    return mc::parallel(Q.size() * Ts.size(), [&](size_t i, mc::Report& r) {
        Query q = Q[i % Q.size()]; q.T = Ts[i / Q.size()]; q.P = 0;
        if (q.T > 625 && (q.state == 1 || q.sym == "W-HGKgg" || q.sym == "W-WPg")) return;  // two vapour-like solutions so near to the critical point
        std::string lab = q.label(); mc::visiting(lab);
        if (i < 5) r.sample(lab + " first, repeated, after an explicit query, without cache, and at the pressure it reported");
        // non-zero pressure stays
        { ThermoEngine e(full); Query x = q; x.P = 3e7; Snap s = ask(e, x); r.states++; r.transitions++; if (!mc::same(s.P, 3e7)) r.violation("nonzero:" + q.family(), x.label() + " changed the pressure to " + mc::num(s.P), lab);
          Snap t = ask(e, x); if (!same(s, t)) r.violation("nonzero-repeat:" + q.family(), x.label() + " repeated: " + diff(t, s), lab); }
        ThermoEngine e(full); Snap first = ask(e, q), again = ask(e, q);
        ThermoEngine f(full); f.preferences().enable_memoize = false; Snap plain = ask(f, q);
        r.states++; r.transitions += 3;
        if (!same(first, again)) r.violation("repeat:" + q.family(), lab + " repeated: " + diff(again, first), lab);
        if (!same(first, plain)) r.violation("cache:" + q.family(), lab + " without a cache: " + diff(plain, first), lab);
        if (first.failed) { r.counters["fail at pressure zero"]++; return; }
        // the saturation pressure, from the two liquid water routines
        ThermoEngine w(full); Snap sat = ask(w, {Query::Solv, q.sym[0] == 'W' ? q.sym : "H2O@", q.T, 0, -1});
        if (!involvesWater(full, q)) { r.counters["do not involve water"]++; return; }
        if (first.P == 0) { r.violation("not-reported:" + q.family(), lab + " leaves the pressure zero", lab); return; }
        if (!mc::close(first.P, sat.P, 2e-3)) r.violation("pressure:" + q.family(), lab + " reports pressure " + mc::num(first.P) + ", the saturation pressure is " + mc::num(sat.P), lab);
        Query x = q; x.P = first.P; ThermoEngine g(full); Snap expl = ask(g, x);
        r.states++; r.transitions++; r.traces++; r.nontrivial++;
        if (!closeTo(first, expl, q.T > 620 ? 1e-4 : 1e-6, 1e-8)) r.violation("explicit:" + q.family(), lab + " differs from the query at the pressure it reports, " + mc::num(first.P) + ": " + diff(first, expl), lab);
    }, lastFamily);
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    json j = readJson("mini.json");
    kFull = j.dump(); kNoH2O = without(j, {"H2O@", "W-WPg", "W-HGKgg", "W-SV", "W-FE", "W-ZD", "NaHCO3@"});
    std::string m = mc::options().mode;
    mc::Report r;
    if (m == "H01") r = h01();
    else if (m == "H02") r = h02();
    else if (m == "H03") r = h03();
    else if (m == "H04") r = h04();
    else if (m == "H05") r = h05();
    else if (m == "H08") r = h08();
    return mc::finish(r);
}
