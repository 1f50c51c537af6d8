// D01, D02, D04: the database as a keyed store, its loading interfaces, element identity.
#include "eng.hpp"
using namespace ThermoFun; using mc::json; using mc::Report;

// ---------------------------------------------------------------- records: one of three kinds, a symbol, a version
static const char* KIND[] = {"element", "substance", "reaction"};
static json rec(int kind, const std::string& sym, int v) {
    json j; j["symbol"] = sym; j["name"] = "name" + std::to_string(v) + sym;
    if (kind == 0) { j["class_"] = {{"0", "ELEMENT"}}; j["isotope_mass"] = v; j["number"] = 10 + v; for (auto f : {"entropy", "heat_capacity", "atomic_mass", "volume"}) j[f] = {{"values", {1.5 * v + strlen(f)}}}; }
    if (kind == 1) { j["formula"] = v == 1 ? "H2O" : "OH-"; j["formula_charge"] = v - 1; j["Tst"] = 298.15 + v; j["Pst"] = 1e5 + v; j["class_"] = {{std::to_string(v), "x"}}; j["aggregate_state"] = {{std::to_string(v), "x"}};
        for (auto f : {"sm_gibbs_energy", "sm_enthalpy", "sm_entropy_abs"}) j[f] = {{"values", {-1e3 * v - strlen(f)}}}; j["TPMethods"] = json::array({{{"method", {{"34", "mv_constant"}}}}}); }
    if (kind == 2) { j["equation"] = v == 1 ? "A = B" : "A = C"; j["Tst"] = 298.15 + v; j["reactants"] = json::array({{{"symbol", "A"}, {"coefficient", -1.0 * v}}, {{"symbol", v == 1 ? "B" : "C"}, {"coefficient", 1.0 * v}}});
        for (auto f : {"logKr", "drsm_enthalpy"}) j[f] = {{"values", {-3.0 * v - strlen(f)}}}; }
    return j;
}
static json set(const std::vector<std::array<int, 3>>& rs, const char* names = "AB") {   // kind, symbol index, version
    json j; for (auto& r : rs) j[std::string(KIND[r[0]]) + "s"].push_back(rec(r[0], std::string(1, names[r[1]]), r[2])); return j; }

// ---------------------------------------------------------------- the reference: one map per kind
struct Model { std::map<std::string, std::string> m[3];
    bool operator==(const Model& o) const { return m[0] == o.m[0] && m[1] == o.m[1] && m[2] == o.m[2]; } };
// what a record looks like in the database, from the object alone
static std::string el(const Element& e) { std::ostringstream s; s << e.name() << "|" << e.symbol() << "|" << mc::num(e.molarMass()) << "|" << mc::num(e.entropy()) << "|" << mc::num(e.heatCapacity()) << "|" << mc::num(e.volume()) << "|" << e.class_() << "|" << e.isotopeMass() << "|" << e.number(); return s.str(); }
static std::string sb(const Substance& s) { return eng::dump(s, false); }
static std::string rx(const Reaction& r) { return eng::dump(r, false); }
static std::string face(int k, const json& j) { std::string t = j.dump(); return k == 0 ? el(Element(t)) : k == 1 ? sb(Substance(t)) : rx(Reaction(t)); }

static void add(Database& d, int k, const json& j, bool obj) { std::string t = j.dump();
    if (k == 0) { if (obj) d.addElement(Element(t)); else d.addElement(t); } else if (k == 1) { if (obj) d.addSubstance(Substance(t)); else d.addSubstance(t); } else { if (obj) d.addReaction(Reaction(t)); else d.addReaction(t); } }
static void put(Database& d, int k, const json& j, bool obj) { std::string t = j.dump();
    if (k == 0) { if (obj) d.setElement(Element(t)); else d.setElement(t); } else if (k == 1) { if (obj) d.setSubstance(Substance(t)); else d.setSubstance(t); } else { if (obj) d.setReaction(Reaction(t)); else d.setReaction(t); } }
static void bulk(Database& d, int k, const std::vector<json>& js, bool over) {
    ElementsMap e; SubstancesMap s; ReactionsMap r;
    for (auto& j : js) { std::string t = j.dump(), y = j["symbol"]; if (k == 0) e[y] = Element(t); else if (k == 1) s[y] = Substance(t); else r[y] = Reaction(t); }
    if (k == 0) { if (over) d.setMapElements(e); else d.addMapElements(e); } else if (k == 1) { if (over) d.setMapSubstances(s); else d.addMapSubstances(s); } else { if (over) d.setMapReactions(r); else d.addMapReactions(r); } }

struct Op { std::string name; std::function<void(Database&)> run; std::function<void(Model&)> ref; };

static std::vector<Op> ops(int k) {
    std::vector<Op> o; auto K = std::string(KIND[k]);
    static std::map<std::string, std::string> F;
    auto f = [&](const std::string& s, int v) { auto key = K + s + std::to_string(v); if (!F.count(key)) F[key] = face(k, rec(k, s, v)); return F[key]; };
    for (std::string s : {"A", "B"}) for (int v : {1, 2}) {
        json j = rec(k, s, v); std::string w = f(s, v), n = K + " " + s + std::to_string(v);
        for (bool obj : {true, false}) {
            if (!obj && v == 1 && s == "B") continue;
            o.push_back({std::string("add") + (obj ? "" : "Json") + " " + n, [=](Database& d) { add(d, k, j, obj); }, [=](Model& m) { m.m[k].insert({s, w}); }});
            o.push_back({std::string("set") + (obj ? "" : "Json") + " " + n, [=](Database& d) { put(d, k, j, obj); }, [=](Model& m) { m.m[k][s] = w; }});
        }
    }
    struct BM { std::vector<std::pair<std::string, int>> r; };
    for (auto& b : std::vector<BM>{{{{"A", 1}, {"B", 2}}}, {{{"B", 1}}}, {{}}}) {
        std::vector<json> js; std::vector<std::pair<std::string, std::string>> w; std::string n = K; for (auto& x : b.r) { js.push_back(rec(k, x.first, x.second)); w.push_back({x.first, f(x.first, x.second)}); n += " " + x.first + std::to_string(x.second); }
        o.push_back({"addMap " + n, [=](Database& d) { bulk(d, k, js, false); }, [=](Model& m) { for (auto& x : w) m.m[k].insert(x); }});
        o.push_back({"setMap " + n, [=](Database& d) { bulk(d, k, js, true); }, [=](Model& m) { for (auto& x : w) m.m[k][x.first] = x.second; }});
        if (!js.empty()) {
            json doc; doc[K + "s"] = js; std::string text = doc.dump(); std::vector<std::string> texts, labelled; for (auto& j : js) { texts.push_back(j.dump()); json l = j; l["_label"] = K; labelled.push_back(l.dump()); }
            auto over = [=](Model& m) { for (auto& x : w) m.m[k][x.first] = x.second; };
            o.push_back({"appendData text " + n, [=](Database& d) { d.appendData(text); }, over});
            o.push_back({"appendData records " + n, [=](Database& d) { d.appendData(texts, K); }, over});
            o.push_back({"appendData labelled " + n, [=](Database& d) { d.appendData(labelled, "no such label"); }, over});
        }
    }
    // the access that creates, and changes made through it
    for (std::string s : {"A"}) {
        auto fresh = [=] { if (k == 0) { Element e; e.setSymbol(s); e.setName(s); return el(e); } if (k == 1) { Substance e; e.setSymbol(s); e.setName(s); return sb(e); } Reaction e; e.setSymbol(s); e.setName(s); return rx(e); };
        auto named = [=](const std::string& old) { auto p = old.find('|'); return "renamed" + old.substr(p); };
        std::string fr = fresh();
        // an element that was once defined comes back with its data, which is for the formula table: only never-defined ones are followed here
        if (k != 0) o.push_back({"access " + K + " " + s, [=](Database& d) { if (k == 1) d.substance(s); else d.reaction(s); }, [=](Model& m) { m.m[k].insert({s, fr}); }});
        o.push_back({"rename " + K + " " + s, [=](Database& d) { if (k == 0) { if (d.containsElement(s)) d.element(s).setName("renamed"); } else if (k == 1) d.substance(s).setName("renamed"); else d.reaction(s).setName("renamed"); },
                     [=](Model& m) { if (k == 0) { if (m.m[0].count(s)) m.m[0][s] = named(m.m[0][s]); } else { m.m[k].insert({s, fr}); m.m[k][s] = named(m.m[k][s]); } }});
    }
    o.push_back({"get absent " + K, [=](Database& d) { bool thrown = false; try { if (k == 0) d.getElement("Z"); else if (k == 1) d.getSubstance("Z"); else d.getReaction("Z"); } catch (const std::exception&) { thrown = true; } if (!thrown) throw std::logic_error("looking up an absent " + K + " is not reported"); }, [](Model&) {}});
    o.push_back({"copy and assign", [=](Database& d) { Database e(d); Database g; g = e; d = g; }, [](Model&) {}});
    return o;
}
// all views of the database agree with the model
static std::string judge(Database& d, const Model& m) {
    auto one = [&](int k, auto& map, size_t n, auto list, auto all, auto has, auto get, auto face) -> std::string {
        std::string K = KIND[k]; const auto& w = m.m[k];
        if (n != w.size()) return "number of " + K + "s is " + std::to_string(n) + ", expected " + std::to_string(w.size());
        if (map.size() != w.size() || list.size() != w.size() || all.size() != w.size()) return "the map, list and vector of " + K + "s have " + std::to_string(map.size()) + ", " + std::to_string(list.size()) + ", " + std::to_string(all.size()) + " entries, expected " + std::to_string(w.size());
        size_t i = 0; for (auto& x : w) {
            if (!map.count(x.first)) return K + " " + x.first + " is missing";
            if (face(map.at(x.first)) != x.second) return K + " " + x.first + " is " + eng::firstDiff(x.second, face(map.at(x.first)));
            if (!has(x.first)) return "contains denies " + K + " " + x.first;
            if (face(get(x.first)) != x.second) return "lookup of " + K + " " + x.first + " gives another record";
            if (list[i] != x.first) return "list of " + K + "s has " + list[i] + " for " + x.first;
            if (face(all[i]) != x.second) return "vector of " + K + "s has another record for " + x.first;
            ++i; }
        for (std::string s : {"A", "B", "C", ""}) if (has(s) != (w.count(s) > 0)) return "contains is wrong for " + K + " '" + s + "'";
        for (std::string s : {"C", ""}) if (!w.count(s)) { bool t = false; try { get(s); } catch (const std::exception&) { t = true; } if (!t) return "lookup of absent " + K + " '" + s + "' gives something"; }
        return "";
    };
    std::string r = one(0, d.mapElements(), d.numberOfElements(), d.getElementsList(), d.getElements(), [&](const std::string& s) { return d.containsElement(s); }, [&](const std::string& s) -> const Element& { return d.getElement(s); }, el);
    if (r.empty()) r = one(1, d.mapSubstances(), d.numberOfSubstances(), d.getSubstancesList(), d.getSubstances(), [&](const std::string& s) { return d.containsSubstance(s); }, [&](const std::string& s) -> const Substance& { return d.getSubstance(s); }, sb);
    if (r.empty()) r = one(2, d.mapReactions(), d.numberOfReactions(), d.getReactionsList(), d.getReactions(), [&](const std::string& s) { return d.containsReaction(s); }, [&](const std::string& s) -> const Reaction& { return d.getReaction(s); }, rx);
    return r;
}
static Report d01() {
    // per kind: every sequence to the depth; mixed: every pair of kinds over fewer operations
    static std::vector<std::vector<Op>> alph; for (int k = 0; k < 3; ++k) alph.push_back(ops(k));
    std::vector<Op> mix; for (int k = 0; k < 3; ++k) for (size_t i = 0; i < alph[k].size(); ++i) if (alph[k][i].name.find("Json") == std::string::npos && alph[k][i].name.find("2") == std::string::npos) mix.push_back(alph[k][i]);
    alph.push_back(mix);
    bool th = mc::options().thorough();
    struct Item { int a; size_t first, second; }; std::vector<Item> items;
    for (int a = 0; a < 4; ++a) for (size_t i = 0; i < alph[a].size(); ++i) { if (th) for (size_t j = 0; j < alph[a].size(); ++j) items.push_back({a, i, j}); else items.push_back({a, i, size_t(-1)}); }
    return mc::parallel(items.size(), [&](size_t n, Report& r) {
        auto it = items[n]; auto& A = alph[it.a]; int depth = th ? 4 : 3;
        std::vector<size_t> seq{it.first}; if (th) seq.push_back(it.second);
        if (n % 40 == 0) r.sample("every sequence of " + std::to_string(depth) + " operations that begins with " + A[it.first].name);
        std::function<void()> go = [&] {
            // run the whole sequence on a new database; judge at its end (every prefix is a sequence visited on its own)
            Database d; Model m; std::string lab; std::string bad;
            for (auto i : seq) { lab += A[i].name + " ; "; }
            mc::visiting(lab);
            try { for (auto i : seq) { A[i].run(d); A[i].ref(m); r.transitions++; } bad = judge(d, m); }
            catch (const std::exception& e) { bad = std::string("error: ") + eng::clean(e.what()); }
            r.states++; r.traces++; if (seq.size() > 1) r.nontrivial++;
            if (!bad.empty()) r.violation("store:" + std::string(it.a == 3 ? "mixed:" : "") + A[seq.back()].name, lab + bad, lab);
            if ((int)seq.size() < depth) for (size_t i = 0; i < A.size(); ++i) { seq.push_back(i); go(); seq.pop_back(); }
        };
        go();
    });
}

// ---------------------------------------------------------------- D02
static Report d02() {
    struct R { int k; std::string s; json j; };
    static std::vector<R> rs;
    bool th = mc::options().thorough();
    for (auto& x : std::vector<std::tuple<int, const char*, int>>{{0, "H", 1}, {1, "A", 1}, {2, "A", 1}, {1, "B", 2}, {0, "O", 2}, {2, "B", 2}}) rs.push_back({std::get<0>(x), std::get<1>(x), rec(std::get<0>(x), std::get<1>(x), std::get<2>(x))});
    size_t N = th ? 6 : 5; rs.resize(N);
    // ordered set partitions: block number of every record, using every number below the number of blocks
    std::vector<std::vector<int>> parts;
    std::function<void(std::vector<int>&)> gen = [&](std::vector<int>& b) {
        if (b.size() == N) { int mx = *std::max_element(b.begin(), b.end()); std::set<int> s(b.begin(), b.end()); if ((int)s.size() == mx + 1) parts.push_back(b); return; }
        for (int i = 0; i < (int)N; ++i) { b.push_back(i); gen(b); b.pop_back(); } };
    std::vector<int> b0; gen(b0);
    auto text = [](Database& d) { std::string s; for (auto& x : d.mapElements()) s += "E " + x.first + " " + el(x.second) + "\n"; for (auto& x : d.mapSubstances()) s += "S " + x.first + " " + sb(x.second) + "\n"; for (auto& x : d.mapReactions()) s += "R " + x.first + " " + rx(x.second) + "\n";
        for (auto f : {"H2O", "HO-", "O2", "H"}) { try { s += std::string(f) + " " + mc::num(d.elementalEntropyFormula(f)) + "\n"; for (auto& kv : d.parseSubstanceFormula(f)) s += "   " + el(kv.first) + " x" + mc::num(kv.second) + "\n"; } catch (const std::exception& e) { s += std::string(f) + " cannot be read\n"; } }
        return s; };
    json all; for (auto& x : rs) all[std::string(KIND[x.k]) + "s"].push_back(x.j);
    all["conventions"] = {{"water_triple_point_reference", "NEA_HGK"}};
    Database ref(all.dump()); std::string want = text(ref);
    // the reference is what the records say
    {   Model m; for (auto& x : rs) m.m[x.k][x.s] = face(x.k, x.j); std::string bad = judge(ref, m); if (!bad.empty()) { Report r; r.states = r.transitions = 1; r.violation("load-all", bad, ""); return r; } }
    static const char* IF[] = {"text", "file", "records", "records of which those of one kind are labelled by the call", "labelled records", "array of labelled records", "wrapped records", "add", "text with labelled records of other kinds in one list"};
    return mc::parallel(parts.size(), [&](size_t n, Report& r) {
        auto& b = parts[n]; int blocks = *std::max_element(b.begin(), b.end()) + 1;
        int NI = blocks <= 2 ? 9 : blocks == 3 ? 4 : 2;   // interfaces tried at every block
        size_t combos = 1; for (int i = 0; i < blocks; ++i) combos *= NI;
        if (n % 200 == 0) r.sample(std::to_string(N) + " records in " + std::to_string(blocks) + " loads, every choice of " + std::to_string(NI) + " interfaces at every load, from the constructor or appended to an empty database");
        for (size_t c = 0; c < combos; ++c) for (bool ctor : {true, false}) {
            size_t x = c; std::string lab; Database d; bool first = true; std::string err;
            try {
            for (int k = 0; k < blocks; ++k) {
                int f = x % NI; x /= NI; json doc = json::object(); std::vector<std::string> recs[3], labelled, wrapped; json arr = json::array();
                for (size_t i = 0; i < N; ++i) if (b[i] == k) { doc[std::string(KIND[rs[i].k]) + "s"].push_back(rs[i].j); recs[rs[i].k].push_back(rs[i].j.dump()); json l = rs[i].j; l["_label"] = KIND[rs[i].k]; labelled.push_back(l.dump()); arr.push_back(l); json w; w["properties"] = rs[i].j; w["_label"] = KIND[rs[i].k]; wrapped.push_back(w.dump()); }
                lab += std::string(IF[f]) + ":"; for (size_t i = 0; i < N; ++i) if (b[i] == k) lab += std::string(KIND[rs[i].k]).substr(0, 1) + rs[i].s; lab += " ; "; mc::visiting(lab); r.transitions++;
                bool C = first && ctor; first = false;
                if (f == 0) { if (C) d = Database(doc.dump()); else d.appendData(doc.dump()); }
                else if (f == 1) { std::string p = mc::options().scratch + "/d02-" + std::to_string(getpid()) + ".json"; { std::ofstream o(p); o << doc.dump(1); } if (C) d = Database(p); else d.appendData(p); unlink(p.c_str()); }
                else if (f == 2) { for (int t = 0; t < 3; ++t) if (!recs[t].empty()) { if (C) { d = Database(recs[t], KIND[t]); C = false; } else d.appendData(recs[t], KIND[t]); } }
                else if (f == 3) { // records with and without a label of their own in one load
                    int dk = k % 3; std::vector<std::string> mix; for (size_t i = 0; i < N; ++i) if (b[i] == k) { json l = rs[i].j; if (rs[i].k != dk) l["_label"] = KIND[rs[i].k]; mix.push_back(l.dump()); }
                    if (C) d = Database(mix, KIND[dk]); else d.appendData(mix, KIND[dk]); }
                else if (f == 4) { if (C) d = Database(labelled, "unknown"); else d.appendData(labelled, "unknown"); }
                else if (f == 5) { if (C) d = Database(arr.dump()); else d.appendData(arr.dump()); }
                else if (f == 6) { if (C) d = Database(wrapped, "unknown"); else d.appendData(wrapped, "unknown"); }
                else if (f == 8) { int dk = k % 3; json list = json::array(), mixed; for (size_t i = 0; i < N; ++i) if (b[i] == k) { json l = rs[i].j; if (rs[i].k != dk) l["_label"] = KIND[rs[i].k]; list.push_back(l); } mixed[std::string(KIND[dk]) + "s"] = list; if (C) d = Database(mixed.dump()); else d.appendData(mixed.dump()); }
                else for (size_t i = 0; i < N; ++i) if (b[i] == k) add(d, rs[i].k, rs[i].j, i % 2);
            } } catch (const std::exception& e) { err = eng::clean(e.what()); }
            r.states++; r.traces++; if (blocks > 1) r.nontrivial++;
            std::string got = err.empty() ? text(d) : "error: " + err + "\n";
            // which of the interfaces is wrong shows in the last one
            if (got != want) r.violation("load:" + lab.substr(lab.rfind("; ", lab.size() - 3) == std::string::npos ? 0 : lab.rfind("; ", lab.size() - 3) + 2), lab + (ctor ? "(constructor first) " : "(append only) ") + eng::firstDiff(want, got), lab);
        }
    });
}

// ---------------------------------------------------------------- D04
static Report d04() {
    static std::vector<Element> E;
    for (auto s : {"H", "O"}) for (auto n : {"a", "b"}) for (int c : {0, 1}) for (int i : {0, 1, 2}) for (int v : {-1, 0, 2}) { Element e; e.setSymbol(s); e.setName(n); e.setClass(c); e.setIsotopeMass(i); e.setValence(v); e.setMolarMass(1); e.setEntropy(1); e.setHeatCapacity(0); e.setVolume(0); e.setNumber(1); E.push_back(e); }
    auto key = [](const Element& e) { return std::make_tuple(e.symbol(), e.name(), e.class_(), e.isotopeMass(), e.valence()); };
    auto lab = [](const Element& e) { return e.symbol() + "(" + e.name() + " class " + std::to_string(e.class_()) + " isotope " + std::to_string(e.isotopeMass()) + " valence " + std::to_string(e.valence()) + ")"; };
    size_t n = E.size();
    // formulas by grammar, with their composition known by construction
    struct F { std::string t; std::map<std::string, double> c; double q = 0; };
    static std::vector<F> fs;
    std::vector<std::pair<std::string, double>> cf = {{"", 1}, {"2", 2}, {"10", 10}, {"0.5", 0.5}};
    std::vector<std::string> sy = {"H", "O", "Ca"};
    std::vector<F> one; for (auto& s : sy) for (auto& c : cf) { F f; f.t = s + c.first; f.c[s] = c.second; one.push_back(f); }
    auto cat = [](const F& a, const F& b) { F f; f.t = a.t + b.t; f.c = a.c; for (auto& x : b.c) f.c[x.first] += x.second; f.q = a.q + b.q; return f; };
    std::vector<F> two, three; for (auto& a : one) for (auto& b : one) two.push_back(cat(a, b));
    for (auto& a : two) for (auto& b : one) three.push_back(cat(a, b));
    for (auto& a : one) fs.push_back(a); for (auto& a : two) fs.push_back(a); if (mc::options().thorough()) for (auto& a : three) fs.push_back(a);
    for (auto& a : two) for (auto& c : cf) { F f; f.t = "(" + a.t + ")" + c.first; for (auto& x : a.c) f.c[x.first] = x.second * c.second; fs.push_back(f); F g = cat(one[9], f); fs.push_back(g); }
    size_t plain = fs.size(); for (size_t i = 0; i < plain; ++i) for (auto& z : std::vector<std::pair<std::string, double>>{{"+", 1}, {"-", -1}, {"+2", 2}, {"-3", -3}, {"@", 0}}) { if (i % (mc::options().thorough() ? 1 : 3)) continue; F f = fs[i]; f.t += z.first; f.q = z.second; if (z.second) f.c["Zz"] += z.second; fs.push_back(f); }
    // histories of the element table
    struct Op { std::string n; std::function<void(Database&)> f; };
    static std::vector<Op> ops; static std::vector<std::string> dummy;
    auto ej = [](const std::string& s, int v) { json j; j["symbol"] = s; j["name"] = s; j["class_"] = {{s == "Zz" ? "4" : "0", "x"}}; j["entropy"] = {{"values", {10.0 * v + s[0]}}}; j["atomic_mass"] = {{"values", {100.0 * v + s[0]}}}; j["heat_capacity"] = {{"values", {3.0 * v}}}; j["volume"] = {{"values", {0.1 * v}}}; return j; };
    for (std::string s : {"H", "O"}) for (int v : {1, 2, 3}) { json j = ej(s, v); std::string t = j.dump(), nm = s + std::to_string(v);
        ops.push_back({"add " + nm, [=](Database& d) { d.addElement(Element(t)); }}); ops.push_back({"set " + nm, [=](Database& d) { d.setElement(Element(t)); }});
        json doc; doc["elements"] = json::array({j}); std::string dt = doc.dump(); ops.push_back({"append " + nm, [=](Database& d) { d.appendData(dt); }}); ops.push_back({"append records " + nm, [=](Database& d) { d.appendData(std::vector<std::string>{t}, "element"); }});
        ops.push_back({"addMap " + nm, [=](Database& d) { ElementsMap m; m[s] = Element(t); d.addMapElements(m); }}); ops.push_back({"setMap " + nm, [=](Database& d) { ElementsMap m; m[s] = Element(t); d.setMapElements(m); }}); }
    ops.push_back({"copy", [](Database& d) { Database e(d); d = e; }});
    json base; for (auto s : {"H", "O", "Ca", "Zz"}) base["elements"].push_back(ej(s, 0)); static std::string BT; BT = base.dump();
    // definite composition and entropy from the element map
    auto check = [](Database& d, const F& f) -> std::string {
        double S = 0; std::map<std::string, double> got;
        try {
            for (auto& kv : d.parseSubstanceFormula(f.t)) { if (got.count(kv.first.symbol())) return "lists " + kv.first.symbol() + " twice"; got[kv.first.symbol()] = kv.second;
                const Element& w = d.getElement(kv.first.symbol()); if (kv.first.entropy() != w.entropy() || kv.first.molarMass() != w.molarMass() || kv.first.class_() != w.class_() || kv.first.heatCapacity() != w.heatCapacity() || kv.first.volume() != w.volume()) return "gives " + kv.first.symbol() + " data other than those of the database: entropy " + mc::num(kv.first.entropy()) + " for " + mc::num(w.entropy()); }
            for (auto& x : f.c) { if (!got.count(x.first) || !mc::close(got[x.first], x.second, 1e-12)) return "has " + mc::num(got.count(x.first) ? got[x.first] : 0) + " of " + x.first + ", expected " + mc::num(x.second); S += x.second * d.getElement(x.first).entropy(); }
            if (got.size() != f.c.size()) return "has too many elements";
            double s = d.elementalEntropyFormula(f.t); if (!mc::close(s, S, 1e-12, 1e-9)) return "has elemental entropy " + mc::num(s) + ", expected " + mc::num(S);
        } catch (const std::exception& e) { return "is reported as an error: " + eng::clean(e.what()); }
        return ""; };
    size_t nf = (fs.size() + 99) / 100, no = ops.size();
    return mc::parallel(n + nf + no, [&](size_t i, Report& r) {
        if (i < n) {
            if (i == 0) r.sample("all triples of " + std::to_string(n) + " elements differing in symbol, name, class, isotope mass and valence");
            auto& a = E[i];
            for (auto& b : E) { mc::visiting(lab(a) + " with " + lab(b)); r.states++; r.transitions += 3; r.nontrivial++;
                bool lt = a < b, gt = b < a, eq = a == b, ident = key(a) == key(b);
                if (lt && gt) r.violation("asymmetry", lab(a) + " and " + lab(b) + " are each before the other", "");
                if (eq != ident) r.violation("equality", lab(a) + (eq ? " equals " : " differs from ") + lab(b), "");
                if ((!lt && !gt) != ident) r.violation("totality", lab(a) + " and " + lab(b) + (ident ? " are ordered" : " are not ordered"), "");
                std::map<Element, int> m; m[a] = 1; m[b] = 2; if (m.size() != (ident ? 1u : 2u) || m[a] != (ident ? 2 : 1) || m[b] != 2) r.violation("map", "a table keyed by " + lab(a) + " and " + lab(b) + " has the wrong entries", "");
                for (auto& c : E) { r.states++; if (lt && b < c && !(a < c)) r.violation("transitivity", lab(a) + " < " + lab(b) + " < " + lab(c) + " but not the first before the last", ""); }
            }
            if (i == 0) { std::map<Element, size_t> m; for (size_t k = 0; k < n; ++k) m[E[(k * 37) % n]] = (k * 37) % n; r.traces++; if (m.size() != n) r.violation("map", "a table of all elements has " + std::to_string(m.size()) + " entries, expected " + std::to_string(n), ""); for (size_t k = 0; k < n; ++k) if (m[E[k]] != k) r.violation("map", "a table of all elements returns another entry for " + lab(E[k]), ""); }
            return;
        }
        if (i < n + nf) {
            Database d(BT); if (i == n) r.sample("all " + std::to_string(fs.size()) + " formulas, e.g. " + fs[0].t + ", " + fs[fs.size() / 2].t + ", " + fs.back().t);
            for (size_t k = (i - n) * 100; k < std::min(fs.size(), (i - n) * 100 + 100); ++k) { mc::visiting(fs[k].t); r.states++; r.transitions += 2; r.traces++; r.nontrivial++;
                std::string bad = check(d, fs[k]); if (!bad.empty()) r.violation("formula", fs[k].t + " " + bad, fs[k].t);
                Substance s; s.setSymbol("X"); s.setFormula(fs[k].t); s.setCharge(7); d.setSubstance(s); d.setSubstancesChargeFromFromula(); r.transitions++;
                if (d.getSubstance("X").charge() != fs[k].q) r.violation("charge", fs[k].t + " gives charge " + std::to_string(d.getSubstance("X").charge()) + ", expected " + mc::num(fs[k].q), fs[k].t); }
            // an element that is not in the database
            for (auto t : {"XyO", "OXy2"}) { bool thrown = false; try { d.parseSubstanceFormula(t); } catch (const std::exception&) { thrown = true; } bool th2 = false; try { d.elementalEntropyFormula(t); } catch (const std::exception&) { th2 = true; } r.states++; if (!thrown || !th2) r.violation("unknown-element", std::string(t) + " is not reported", t); }
            return;
        }
        // every sequence of three changes of the element table, then formulas
        size_t o1 = i - n - nf; if (o1 == 0) r.sample("every sequence of three changes of the element table, then formulas");
        auto run = [&](std::vector<size_t> seq) { for (int init = 0; init < 2; ++init) { Database d; if (init == 0) d = Database(BT); std::string l = init ? "empty database ; " : "loaded database ; ";
            try { for (auto o : seq) { l += ops[o].n + " ; "; ops[o].f(d); r.transitions++; } } catch (const std::exception& e) { r.violation("history", l + eng::clean(e.what()), l); continue; }
            mc::visiting(l); r.states++; r.traces++; r.nontrivial++;
            if (!d.containsElement("H") || !d.containsElement("O")) continue;
            F w; w.t = "H2O"; w.c = {{"H", 2}, {"O", 1}}; std::string bad = check(d, w); if (!bad.empty()) r.violation("history:" + ops[seq.back()].n, l + "H2O " + bad, l); } };
        run({o1}); for (size_t a = 0; a < ops.size(); ++a) { run({o1, a}); for (size_t b = 0; b < ops.size(); ++b) run({o1, a, b}); }
    });
}
int main(int argc, char** argv) {
    mc::init(argc, argv); std::string m = mc::options().mode; Report r;
    if (m == "D01") r = d01(); else if (m == "D02") r = d02(); else if (m == "D04") r = d04();
    return mc::finish(r);
}
