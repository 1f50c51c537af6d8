// U01, U02: conversions between units and unit expressions.
#include "mc.hpp"
#include <Common/Units.hpp>
using ThermoFun::units::convert;
using ThermoFun::units::convertible;
using mc::Report;

// Base quantities, and what each unit is in SI, written down from the definitions of the units
// (not from the library).  `rel` is the accuracy to which the definition is agreed upon.
struct Dim { double v[10] = {0}; };   // kg m s A mol cd rad sr K eq
static Dim D(double kg, double m = 0, double s = 0, double A = 0, double mol = 0, double cd = 0, double rad = 0, double sr = 0, double K = 0, double eq = 0) {
    Dim d; double x[] = {kg, m, s, A, mol, cd, rad, sr, K, eq}; for (int i = 0; i < 10; ++i) d.v[i] = x[i]; return d;
}
static bool operator==(const Dim& a, const Dim& b) { for (int i = 0; i < 10; ++i) if (std::fabs(a.v[i] - b.v[i]) > 1e-9) return false; return true; }
struct Unit { std::string name; double si; Dim d; double rel; };
static std::vector<Unit> table() {
    std::vector<Unit> t;
    auto u = [&](std::initializer_list<const char*> names, double si, Dim d, double rel = 1e-9) { for (auto n : names) t.push_back({n, si, d, rel}); };
    const double PI = std::acos(-1.0), gal = 4.54609e-3, year = 365.2422 * 86400;
    Dim one, M = D(1), L = D(0, 1), T = D(0, 0, 1), I = D(0, 0, 0, 1), N = D(0, 0, 0, 0, 1), cd = D(0, 0, 0, 0, 0, 1), rad = D(0, 0, 0, 0, 0, 0, 1), sr = D(0, 0, 0, 0, 0, 0, 0, 1), eq; eq.v[9] = 1;
    u({"1"}, 1, one); u({"%%", "percent"}, 0.01, one); u({"%%%%", "permil"}, 1e-3, one); u({"ppm"}, 1e-6, one); u({"ppb"}, 1e-9, one);
    u({"g", "gram", "grams"}, 1e-3, M); u({"kg", "kilogram", "kilograms"}, 1, M); u({"mg"}, 1e-6, M); u({"ug"}, 1e-9, M); u({"ng"}, 1e-12, M); u({"tonne"}, 1000, M);
    u({"lb", "lbm"}, 0.45359237, M); u({"ton"}, 907.18474, M); u({"amu"}, 1.66053906660e-27, M, 2e-7);
    u({"m", "meter", "meters"}, 1, L); u({"km"}, 1000, L); u({"cm"}, 0.01, L); u({"mm"}, 1e-3, L); u({"um"}, 1e-6, L); u({"nm"}, 1e-9, L); u({"Angstrom"}, 1e-10, L);
    u({"in", "inch", "inches"}, 0.0254, L); u({"mil"}, 2.54e-5, L); u({"ft", "feet", "foot"}, 0.3048, L); u({"yd", "yard", "yards"}, 0.9144, L); u({"mi", "mile", "miles"}, 1609.344, L);
    u({"nauticalmile"}, 1852, L); u({"lightyear"}, 9460730472580800.0, L); u({"au"}, 149597870700.0, L);
    u({"s", "second", "seconds"}, 1, T); u({"ms"}, 1e-3, T); u({"us"}, 1e-6, T); u({"ns"}, 1e-9, T); u({"minute", "minutes"}, 60, T); u({"hour", "hours"}, 3600, T);
    u({"day", "days"}, 86400, T); u({"week", "weeks"}, 604800, T); u({"month", "months"}, year / 12, T, 1e-7); u({"year", "years"}, year, T);
    u({"A", "ampere", "amperes"}, 1, I); u({"MA"}, 1e6, I); u({"kA"}, 1e3, I); u({"mA"}, 1e-3, I); u({"uA"}, 1e-6, I); u({"nA"}, 1e-9, I); u({"pA"}, 1e-12, I);
    u({"mol", "mole", "moles"}, 1, N); u({"mmol"}, 1e-3, N); u({"umol"}, 1e-6, N); u({"cd", "candela"}, 1, cd);
    u({"radian"}, 1, rad); u({"mradian"}, 1e-3, rad); u({"uradian"}, 1e-6, rad); u({"deg", "degree", "degrees"}, PI / 180, rad); u({"sr", "steradian"}, 1, sr);
    Dim A2 = D(0, 2), V3 = D(0, 3);
    u({"m2", "m^2"}, 1, A2); u({"mm2", "mm^2"}, 1e-6, A2); u({"cm2", "cm^2"}, 1e-4, A2); u({"in2", "in^2"}, 0.0254 * 0.0254, A2); u({"ft2", "ft^2"}, 0.3048 * 0.3048, A2);
    u({"hectare", "hectares"}, 1e4, A2); u({"acre", "acres"}, 4046.8726, A2, 1e-5); u({"barn", "barns"}, 1e-28, A2);
    u({"m3", "m^3"}, 1, V3); u({"mm3", "mm^3"}, 1e-9, V3); u({"cm3", "cm^3", "cc"}, 1e-6, V3); u({"in3", "in^3"}, std::pow(0.0254, 3), V3); u({"ft3", "ft^3"}, std::pow(0.3048, 3), V3);
    u({"l", "L", "liter", "liters"}, 1e-3, V3); u({"ml", "mL"}, 1e-6, V3); u({"ul", "uL"}, 1e-9, V3); u({"gal", "gallon", "gallons"}, gal, V3); u({"quart"}, gal / 4, V3);
    Dim v = D(0, 1, -1), a = D(0, 1, -2), f = D(0, 0, -1), q = D(0, 3, -1);
    u({"mps"}, 1, v); u({"cmps"}, 0.01, v); u({"mph"}, 1609.344 / 3600, v); u({"knot"}, 1852.0 / 3600, v); u({"fps"}, 0.3048, v); u({"mpss"}, 1, a); u({"fpss"}, 0.3048, a); u({"gravity"}, 9.80665, a);
    u({"Hz", "hertz"}, 1, f); u({"kHz"}, 1e3, f); u({"MHz"}, 1e6, f); u({"GHz"}, 1e9, f); u({"rpm"}, 1.0 / 60, f);
    u({"gps"}, gal, q); u({"gpm"}, gal / 60, q); u({"gph"}, gal / 3600, q); u({"cfs"}, std::pow(0.3048, 3), q); u({"cfm"}, std::pow(0.3048, 3) / 60, q); u({"lps"}, 1e-3, q); u({"lpm"}, 1e-3 / 60, q);
    Dim F = D(1, 1, -2), P = D(1, -1, -2), E = D(1, 2, -2), W = D(1, 2, -3);
    const double lbf = 4.4482216152605, psi = lbf / (0.0254 * 0.0254);
    u({"N", "newton", "newtons"}, 1, F); u({"kN"}, 1e3, F); u({"lbf"}, lbf, F, 1e-8); u({"dyne", "dynes"}, 1e-5, F);
    u({"Pa", "pascal", "pascals"}, 1, P); u({"kPa"}, 1e3, P); u({"MPa"}, 1e6, P); u({"GPa"}, 1e9, P); u({"atm"}, 101325, P); u({"mmHg"}, 133.322387415, P, 1e-7); u({"inHg"}, 3386.389, P, 1e-6);
    u({"psi"}, psi, P, 1e-8); u({"kpsi"}, 1e3 * psi, P, 1e-8); u({"Mpsi"}, 1e6 * psi, P, 1e-8); u({"psf"}, lbf / (0.3048 * 0.3048), P, 1e-8); u({"bar"}, 1e5, P); u({"kbar"}, 1e8, P); u({"torr"}, 101325.0 / 760, P, 1e-8);
    u({"inH2O"}, 249.08891, P, 1e-4); u({"ftH2O"}, 12 * 249.08891, P, 1e-4);
    u({"J", "joule", "joules"}, 1, E); u({"kJ"}, 1e3, E); u({"MJ"}, 1e6, E); u({"erg"}, 1e-7, E); u({"cal", "calorie", "calories"}, 4.184, E); u({"kcal"}, 4184, E);
    for (auto p : {std::pair<const char*, double>{"eV", 1}, {"keV", 1e3}, {"MeV", 1e6}, {"GeV", 1e9}}) u({p.first}, p.second * 1.602176634e-19, E, 1e-7);
    u({"btu"}, 1055.05585262, E, 1e-8); u({"W", "watts"}, 1, W);
    Dim C = D(0, 0, 1, 1), Vo = D(1, 2, -3, -1), Om = D(1, 2, -3, -2), S = D(-1, -2, 3, 2), Fa = D(-1, -2, 4, 2), Wb = D(1, 2, -2, -1), Te = D(1, 0, -2, -1), H = D(1, 2, -2, -2);
    u({"C", "coulomb", "coulombs"}, 1, C); u({"mC"}, 1e-3, C); u({"V", "volt", "volts"}, 1, Vo); u({"mV"}, 1e-3, Vo); u({"ohm", "ohms"}, 1, Om); u({"S", "siemens"}, 1, S);
    u({"F", "farad", "farads"}, 1, Fa); u({"pF"}, 1e-12, Fa); u({"nF"}, 1e-9, Fa); u({"uF"}, 1e-6, Fa); u({"mF"}, 1e-3, Fa); u({"Wb", "weber", "webers"}, 1, Wb); u({"T", "tesla", "teslas"}, 1, Te); u({"gauss"}, 1e-4, Te);
    u({"H", "henry"}, 1, H); u({"mH"}, 1e-3, H); u({"uH"}, 1e-6, H);
    Dim mo = D(-1, 0, 0, 0, 1), ml = D(0, -3, 0, 0, 1);
    u({"molal"}, 1, mo); u({"mmolal"}, 1e-3, mo); u({"umolal"}, 1e-6, mo); u({"nmolal"}, 1e-9, mo); u({"molar"}, 1e3, ml); u({"mmolar"}, 1, ml); u({"umolar"}, 1e-3, ml); u({"nmolar"}, 1e-6, ml);
    u({"eq"}, 1, eq); u({"meq"}, 1e-3, eq); u({"ueq"}, 1e-6, eq); u({"neq"}, 1e-9, eq);
    auto pw = [&](const char* n, double base, Dim d, double p) { for (double& x : d.v) x *= p; u({n}, std::pow(base, p), d); };
    Dim K; K.v[8] = 1;
    pw("K^2", 1, K, 2); pw("K^3", 1, K, 3); pw("K^4", 1, K, 4); pw("K^5", 1, K, 5); pw("K^0.5", 1, K, 0.5); pw("K^1.5", 1, K, 1.5);
    pw("bar^2", 1e5, P, 2); pw("bar^3", 1e5, P, 3); pw("bar^4", 1e5, P, 4); pw("bar^5", 1e5, P, 5); pw("bar^0.5", 1e5, P, 0.5);
    return t;
}
struct Temp { const char* name; double scale, zero; };   // K = (x - zero) / scale
static const std::vector<Temp> temps = {{"K", 1, 0}, {"kelvin", 1, 0}, {"degC", 1, -273.15}, {"celsius", 1, -273.15}, {"degF", 1.8, -459.67}, {"fahrenheit", 1.8, -459.67}, {"degR", 1.8, 0}, {"rankine", 1.8, 0}};

static bool tryConvert(double x, const std::string& a, const std::string& b, double& y, std::string& err) {
    try { y = convert(x, a, b); return true; } catch (const std::exception& e) { err = e.what(); return false; }
}

static Report u01() {
    static auto U = table();
    // quotients and products of two units as well, so that powers and mixed quantities are covered
    static std::vector<double> xs = {1, -3.7, 0, 6.02e23, 1e-30};
    static std::vector<Unit> all = U;
    for (auto n : {"K", "degC", "degF", "degR"}) { Dim K; K.v[8] = 1; double sz = (n[3] == 'F' || n[3] == 'R') && n[0] == 'd' ? 1 / 1.8 : 1; Dim Ki; Ki.v[8] = -1;
        all.push_back({std::string("J/") + n, 1 / sz, [&] { Dim d = D(1, 2, -2); d.v[8] = -1; return d; }(), 1e-9}); all.push_back({std::string("1/") + n, 1 / sz, Ki, 1e-9}); }
    struct C { const char* s; std::vector<std::pair<std::string, double>> f; };
    auto find = [&](const std::string& n) -> const Unit& { for (auto& x : U) if (x.name == n) return x; abort(); };
    for (auto& c : std::vector<C>{{"J/mol", {{"J", 1}, {"mol", -1}}}, {"kJ/mol", {{"kJ", 1}, {"mol", -1}}}, {"cal/(mol*bar)", {{"cal", 1}, {"mol", -1}, {"bar", -1}}}, {"cm^3/mol", {{"cm3", 1}, {"mol", -1}}}, {"m3/mol", {{"m3", 1}, {"mol", -1}}},
                                  {"J/bar", {{"J", 1}, {"bar", -1}}}, {"J/bar/mol", {{"J", 1}, {"bar", -1}, {"mol", -1}}}, {"cal/bar", {{"cal", 1}, {"bar", -1}}}, {"cm3", {{"cm3", 1}}}, {"g/mol", {{"g", 1}, {"mol", -1}}}, {"kg/mol", {{"kg", 1}, {"mol", -1}}},
                                  {"g/cm3", {{"g", 1}, {"cm3", -1}}}, {"kg/m3", {{"kg", 1}, {"m3", -1}}}, {"1/bar", {{"bar", -1}}}, {"1/Pa", {{"Pa", -1}}}, {"1/bar^2", {{"bar", -2}}}, {"1/(bar*bar)", {{"bar", -2}}}, {"1/Pa/Pa", {{"Pa", -2}}}, {"kbar", {{"kbar", 1}}}, {"1/kbar", {{"kbar", -1}}},
                                  {"J/(mol*bar^0.5)", {{"J", 1}, {"mol", -1}, {"bar", -0.5}}}, {"W*s/mol", {{"J", 1}, {"mol", -1}}}, {"Pa*m3/mol", {{"J", 1}, {"mol", -1}}}, {"N*m/mol", {{"J", 1}, {"mol", -1}}}}) {
        Unit x; x.name = c.s; x.si = 1; x.rel = 0; for (auto& f : c.f) { auto& y = find(f.first); x.si *= std::pow(y.si, f.second); x.rel += y.rel; for (int i = 0; i < 10; ++i) x.d.v[i] += f.second * y.d.v[i]; }
        bool dup = false; for (auto& y : all) dup |= y.name == x.name; if (!dup) all.push_back(x);
    }
    for (auto& u : all) if (&u - &all[0] < 0) abort();
    return mc::parallel(all.size() + 1, [&](size_t i, Report& r) {
        if (i == all.size()) {
            for (auto& a : temps) for (auto& b : temps) for (double x : {0.0, 1.0, 25.0, 273.15, -40.0, 1000.0, 298.15, -273.15}) {
                std::string lab = mc::num6(x) + " " + a.name + " -> " + b.name; mc::visiting(lab);
                r.states++; r.transitions += 3; r.nontrivial++; r.traces++;
                double want = (x - a.zero) / a.scale * b.scale + b.zero, y = 0, z = 0; std::string e;
                if (!tryConvert(x, a.name, b.name, y, e)) { r.violation(std::string("temperature:") + a.name + ":" + b.name, lab + " fails: " + e, lab); continue; }
                if (!mc::close(y, want, 1e-12, 1e-9)) r.violation(std::string("temperature:") + a.name + ":" + b.name, lab + " gives " + mc::num(y) + ", expected " + mc::num(want), lab);
                if (!tryConvert(y, b.name, a.name, z, e) || !mc::close(z, x, 1e-12, 1e-9)) r.violation(std::string("temperature-back:") + a.name + ":" + b.name, lab + " and back gives " + mc::num(z), lab);
                for (auto& c : temps) { double p = 0, q = 0; if (tryConvert(x, a.name, c.name, p, e) && tryConvert(p, c.name, b.name, q, e) && !mc::close(q, y, 1e-12, 1e-9)) r.violation(std::string("temperature-through:") + a.name + ":" + c.name + ":" + b.name, lab + " through " + c.name, lab); r.transitions += 2; }
                if (!convertible(a.name, b.name)) r.violation("temperature-convertible", lab, lab);
            }
            // an absolute temperature is not any other quantity
            for (auto& a : temps) for (auto& b : U) { std::string lab = std::string(a.name) + " -> " + b.name; mc::visiting(lab); r.states++; r.transitions += 2; double y; std::string e;
                if (convertible(a.name, b.name) || tryConvert(1, a.name, b.name, y, e)) r.violation("temperature-as:" + b.name, lab + " is accepted", lab);
                if (convertible(b.name, a.name)) r.violation("temperature-from:" + b.name, lab + " is accepted", lab); }
            return;
        }
        auto& a = all[i];
        if (i % 60 == 0) r.sample(a.name + " with each of " + std::to_string(all.size()) + " units and back, and through every third of the same quantity");
        for (auto& b : all) {
            std::string lab = a.name + " -> " + b.name; mc::visiting(lab);
            bool same = a.d == b.d, cv = false; std::string e; double y = 0;
            r.states++; r.transitions += 2;
            try { cv = convertible(a.name, b.name); } catch (const std::exception& x) { r.violation("convertible:" + a.name, lab + ": " + x.what(), lab); continue; }
            if (cv != same) { r.violation("convertible:" + a.name + ":" + b.name, lab + (cv ? " are called convertible but measure different quantities" : " are called not convertible but measure the same quantity"), lab); }
            bool ok = tryConvert(1.0, a.name, b.name, y, e);
            if (ok != same) { r.violation("convert:" + a.name + ":" + b.name, lab + (ok ? " is converted although the quantities differ" : " fails: " + e), lab); continue; }
            if (!ok) continue;
            r.nontrivial++; r.traces++;
            for (double x : xs) {
                if (!tryConvert(x, a.name, b.name, y, e)) { r.violation("convert:" + a.name + ":" + b.name, lab + " fails for " + mc::num(x), lab); continue; }
                double want = x * a.si / b.si, z = 0; r.transitions += 2;
                if (!mc::close(y, want, 1e-9 + a.rel + b.rel)) r.violation("value:" + a.name + ":" + b.name, lab + " takes " + mc::num(x) + " to " + mc::num(y) + ", expected " + mc::num(want), lab);
                if (!tryConvert(y, b.name, a.name, z, e) || !mc::close(z, x, 1e-13)) r.violation("back:" + a.name + ":" + b.name, lab + " and back takes " + mc::num(x) + " to " + mc::num(z), lab);
            }
            double ab = 0; tryConvert(1.0, a.name, b.name, ab, e);
            for (auto& c : all) if (c.d == a.d) { double p = 0, q = 0; r.transitions += 2; if (!tryConvert(1, a.name, c.name, p, e) || !tryConvert(p, c.name, b.name, q, e) || !mc::close(q, ab, 1e-13)) r.violation("through:" + a.name + ":" + c.name + ":" + b.name, lab + " through " + c.name + " gives " + mc::num(q) + " instead of " + mc::num(ab), lab); }
        }
    });
}

// ---------------------------------------------------------------- U02
// The usual grammar: expr = term {("*"|"/") term}; term = atom | "(" expr ")"
struct Value { bool ok = false; std::map<std::string, int> pow; };
struct Parser {
    const std::vector<std::string>& t; size_t p = 0; bool bad = false; const std::set<std::string>& atoms;
    Value term() {
        Value v; if (p >= t.size()) { bad = true; return v; }
        if (t[p] == "(") { ++p; v = expr(); if (p >= t.size() || t[p] != ")") { bad = true; return v; } ++p; return v; }
        if (!atoms.count(t[p])) { bad = true; return v; }
        if (t[p] != "1") v.pow[t[p]]++;
        ++p; return v;
    }
    Value expr() {
        Value v = term();
        while (!bad && p < t.size() && (t[p] == "*" || t[p] == "/")) { int s = t[p] == "*" ? 1 : -1; ++p; Value w = term(); if (bad) break; for (auto& kv : w.pow) v.pow[kv.first] += s * kv.second; }
        return v;
    }
    Value all() { Value v = expr(); v.ok = !bad && p == t.size(); return v; }
};
static Report u02() {
    static const std::vector<std::string> toks = {"J", "mol", "K^0.5", "hour", "1", "*", "/", "(", ")"};
    static const std::set<std::string> atoms = {"J", "mol", "K^0.5", "hour", "1"};
    // the same quantity in a plain form, with the size of each atom in the plain form's units
    static const std::map<std::string, std::pair<std::string, double>> plain = {{"J", {"kJ", 1e-3}}, {"mol", {"mmol", 1e3}}, {"K^0.5", {"K^0.5", 1}}, {"hour", {"s", 3600}}};
    int L = mc::options().thorough() ? 8 : 7;
    static const std::vector<std::string> bad = {"", " ", "2", "J ", " J", "Q", "^", "K^", "J^2x", "**", "1e-05", "\t", "J\n", "\xc3\x85", "(", "mol^-1", "J*K^99"};
    size_t first = toks.size() * toks.size();
    return mc::parallel(first + 1, [&, L, first](size_t i, Report& r) {
        auto judge = [&](const std::vector<std::string>& t, const std::set<std::string>& at) {
            std::string s; for (auto& x : t) s += x;
            mc::visiting(s);
            // adjacent atoms melt into other names: only judged when the melt is no unit, as malformed
            for (size_t k = 1; k < t.size(); ++k) { bool a = t[k - 1] != "*" && t[k - 1] != "/" && t[k - 1] != "(" && t[k - 1] != ")", b = t[k] != "*" && t[k] != "/" && t[k] != "(" && t[k] != ")"; if (a && b) return; }
            Parser p{t, 0, false, at}; Value v = p.all();
            r.states++; r.transitions++; r.traces++;
            std::string canon = "1"; double f = 1;
            if (v.ok) { r.nontrivial++; for (auto& kv : v.pow) { auto& pl = plain.at(kv.first); f *= std::pow(pl.second, kv.second); for (int k = 0; k < std::abs(kv.second); ++k) canon += (kv.second > 0 ? "*" : "/") + pl.first; } }
            std::string tk; for (auto& x : t) tk += x == "*" || x == "/" || x == "(" || x == ")" ? x : std::string("u");
            double y = 0, z = 0; std::string e1, e2;
            bool a = tryConvert(1, s, canon, y, e1), b = tryConvert(1, canon, s, z, e2);
            if (a != v.ok || b != v.ok) { r.violation((v.ok ? "rejected:" : "accepted:") + tk, "'" + s + "' " + (v.ok ? "is well formed but was rejected as " + canon + ": " + (a ? e2 : e1) : "is not well formed but was taken for a unit of the quantity " + canon), s); return; }
            if (a && (!mc::close(y, f, 1e-12) || !mc::close(z, 1 / f, 1e-12))) r.violation("value:" + tk, "'" + s + "' in " + canon + " is " + mc::num(y) + ", expected " + mc::num(f), s);
            // a quantity it is not
            if (v.ok) { double q; std::string e; if (tryConvert(1, s, canon + "*J", q, e)) r.violation("quantity:" + tk, "'" + s + "' is also taken for " + canon + "*J", s); r.transitions++; }
            bool c = false, cx = false; try { c = convertible(s, canon); } catch (const std::exception&) { cx = true; }
            if (v.ok ? (cx || !c) : (!cx && c)) r.violation("convertible:" + tk, "convertible('" + s + "', '" + canon + "')", s);
        };
        if (i == first) {
            // every malformed atom in every position of every well-formed frame
            for (auto& x : bad) for (auto fr : std::vector<std::vector<std::string>>{{"@"}, {"@", "*", "J"}, {"J", "*", "@"}, {"J", "/", "@"}, {"@", "/", "J"}, {"(", "@", ")"}, {"J", "/", "(", "@", "*", "mol", ")"}, {"J", "/", "(", "mol", "*", "@", ")"}, {"(", "@", ")", "*", "J"}, {"J", "*", "(", "@", ")"}}) {
                std::vector<std::string> t; for (auto& k : fr) { if (k == "@") { if (!x.empty()) t.push_back(x); } else t.push_back(k); }
                std::string s; for (auto& k : t) s += k; mc::visiting(s); r.states++; r.transitions++; double y; std::string e;
                bool spaced = x == " " || x == "J " || x == " J" || x == "\t" || x == "J\n";   // ignoring white space would do as well
                if (tryConvert(1, s, "J", y, e) && !spaced && s != "J") r.violation("accepted-atom:" + x, "'" + s + "' is taken for a unit of energy", s);
                if (tryConvert(1, s, "1", y, e) && !spaced && s != "1") r.violation("accepted-atom:" + x, "'" + s + "' is taken for a number", s);
            }
            for (auto b : {"", " "}) for (auto a : {"J", "K", ""}) { double y; std::string e; mc::visiting(std::string(a) + " -> '" + b + "'"); r.states++; r.transitions++; if (tryConvert(1, a, b, y, e)) r.violation("accepted-empty", std::string(a) + " converts to '" + b + "'", ""); }
            // deep nesting and long products
            for (int n = 1; n <= 200; ++n) { std::string s = std::string(n, '(') + "J" + std::string(n, ')'); mc::visiting(s); double y = 0; std::string e; r.states++; r.transitions++; if (!tryConvert(1, s, "J", y, e) || y != 1) r.violation("nesting", s.substr(0, 40) + ": " + e, s);
                std::string q = "J"; for (int k = 0; k < n; ++k) q += "*s/s"; mc::visiting(q); if (!tryConvert(1, q, "J", y, e) || y != 1) r.violation("long", q.substr(0, 40) + ": " + e, q);
                std::string o = std::string(n, '(') + "J"; mc::visiting(o); if (tryConvert(1, o, "J", y, e)) r.violation("unbalanced", o, o); o = "J" + std::string(n, ')'); if (tryConvert(1, o, "J", y, e)) r.violation("unbalanced", o, o); }
            return;
        }
        std::vector<std::string> t = {toks[i / toks.size()], toks[i % toks.size()]};
        if (i % toks.size() == 0) judge({t[0]}, atoms);
        if (i < 3) r.sample("all strings of up to " + std::to_string(L) + " tokens beginning with " + t[0] + " " + t[1]);
        std::function<void()> go = [&] { judge(t, atoms); if ((int)t.size() < L) for (auto& k : toks) {
            auto op = [](const std::string& x) { return x == "*" || x == "/" || x == "(" || x == ")"; };
            if (!op(t.back()) && !op(k)) continue;
            if ((int)t.size() >= 5 && !op(k) && k != "J" && k != "hour") continue;   // the last tokens use two atoms
            t.push_back(k); go(); t.pop_back(); } };
        go();
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    return mc::finish(mc::options().mode == "U01" ? u01() : u02());
}
