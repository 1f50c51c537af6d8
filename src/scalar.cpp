// S01, S02: values that carry derivatives, uncertainties and status.
#include "mc.hpp"
#include <Common/ThermoScalar.hpp>
using namespace Reaktoro_;
using mc::Report;

// Reference: value, gradient and uncertainty of an operation from its partial derivatives,
// defined: no operand undefined.
struct Ref { double v, t, p, e; bool def; };
static Ref un(double f, double df, const Ref& a) { return {f, df * a.t, df * a.p, std::fabs(df) * a.e, a.def}; }
static Ref bi(double f, double fa, double fb, const Ref& a, const Ref& b) {
    return {f, fa * a.t + fb * b.t, fa * a.p + fb * b.p, std::sqrt(fa * fa * a.e * a.e + fb * fb * b.e * b.e), a.def && b.def}; }
static Ref con(double c) { return {c, 0, 0, 0, true}; }

struct Val { ThermoScalar s; Ref r; std::string n; bool regular = true; };

struct Un { std::string name; std::function<ThermoScalar(const ThermoScalar&)> f; std::function<Ref(const Ref&)> g; std::function<bool(double)> dom; };
struct Bi { std::string name; std::function<ThermoScalar(const ThermoScalar&, const ThermoScalar&)> f; std::function<Ref(const Ref&, const Ref&)> g; std::function<bool(double, double)> dom; };
struct Mi { std::string name; std::function<ThermoScalar(const ThermoScalar&, double)> f; std::function<Ref(const Ref&, double)> g; std::function<bool(double, double)> dom; bool keepsStatus = false; };

static auto any1 = [](double) { return true; };
static auto any2 = [](double, double) { return true; };

static std::vector<Un> unary() {
    return {
        {"+a", [](const ThermoScalar& a) { return +a; }, [](const Ref& a) { return un(a.v, 1, a); }, any1},
        {"-a", [](const ThermoScalar& a) { return -a; }, [](const Ref& a) { return un(-a.v, -1, a); }, any1},
        {"sqrt(a)", [](const ThermoScalar& a) { return sqrt(a); }, [](const Ref& a) { return un(std::sqrt(a.v), 0.5 / std::sqrt(a.v), a); }, [](double x) { return x > 0; }},
        {"exp(a)", [](const ThermoScalar& a) { return exp(a); }, [](const Ref& a) { return un(std::exp(a.v), std::exp(a.v), a); }, [](double x) { return std::fabs(x) < 300; }},
        {"log(a)", [](const ThermoScalar& a) { return log(a); }, [](const Ref& a) { return un(std::log(a.v), 1 / a.v, a); }, [](double x) { return x > 0; }},
        {"log10(a)", [](const ThermoScalar& a) { return log10(a); }, [](const Ref& a) { return un(std::log10(a.v), 1 / (a.v * std::log(10.0)), a); }, [](double x) { return x > 0; }},
        {"copy(a)", [](const ThermoScalar& a) { ThermoScalar b(a); ThermoScalar c; c = b; return c; }, [](const Ref& a) { return a; }, any1},
        {"a+=a", [](const ThermoScalar& a) { ThermoScalar c(a); c += c; return c; }, [](const Ref& a) { return bi(2 * a.v, 1, 1, a, a); }, any1},
        {"a-=a", [](const ThermoScalar& a) { ThermoScalar c(a); c -= c; return c; }, [](const Ref& a) { return bi(0, 1, -1, a, a); }, any1},
        {"a*=a", [](const ThermoScalar& a) { ThermoScalar c(a); c *= c; return c; }, [](const Ref& a) { return bi(a.v * a.v, a.v, a.v, a, a); }, any1},
        {"a*a", [](const ThermoScalar& a) { return a * a; }, [](const Ref& a) { return bi(a.v * a.v, a.v, a.v, a, a); }, any1},
    };
}
static std::vector<Bi> binary() {
    auto add = [](const Ref& a, const Ref& b) { return bi(a.v + b.v, 1, 1, a, b); };
    auto sub = [](const Ref& a, const Ref& b) { return bi(a.v - b.v, 1, -1, a, b); };
    auto mul = [](const Ref& a, const Ref& b) { return bi(a.v * b.v, b.v, a.v, a, b); };
    auto div = [](const Ref& a, const Ref& b) { return bi(a.v / b.v, 1 / b.v, -a.v / (b.v * b.v), a, b); };
    auto nz = [](double, double b) { return b != 0; };
    return {
        {"a+b", [](const ThermoScalar& a, const ThermoScalar& b) { return a + b; }, add, any2}, {"a-b", [](const ThermoScalar& a, const ThermoScalar& b) { return a - b; }, sub, any2},
        {"a*b", [](const ThermoScalar& a, const ThermoScalar& b) { return a * b; }, mul, any2}, {"a/b", [](const ThermoScalar& a, const ThermoScalar& b) { return a / b; }, div, nz},
        {"a+=b", [](const ThermoScalar& a, const ThermoScalar& b) { ThermoScalar c = a; c += b; return c; }, add, any2}, {"a-=b", [](const ThermoScalar& a, const ThermoScalar& b) { ThermoScalar c = a; c -= b; return c; }, sub, any2},
        {"a*=b", [](const ThermoScalar& a, const ThermoScalar& b) { ThermoScalar c = a; c *= b; return c; }, mul, any2}, {"a/=b", [](const ThermoScalar& a, const ThermoScalar& b) { ThermoScalar c = a; c /= b; return c; }, div, nz},
        {"pow(a,b)", [](const ThermoScalar& a, const ThermoScalar& b) { return pow(a, b); }, [](const Ref& a, const Ref& b) { double f = std::pow(a.v, b.v); return bi(f, b.v * std::pow(a.v, b.v - 1), f * std::log(a.v), a, b); },
            [](double a, double b) { return a > 0 && std::fabs(b * std::log(a)) < 300; }},
    };
}
static std::vector<Mi> mixed() {
    auto add = [](const Ref& a, double c) { return bi(a.v + c, 1, 1, a, con(c)); };
    auto sub = [](const Ref& a, double c) { return bi(a.v - c, 1, -1, a, con(c)); };
    auto mul = [](const Ref& a, double c) { return bi(a.v * c, c, a.v, a, con(c)); };
    auto div = [](const Ref& a, double c) { return bi(a.v / c, 1 / c, -a.v / (c * c), a, con(c)); };
    auto nz = [](double, double c) { return c != 0; };
    return {
        {"a+c", [](const ThermoScalar& a, double c) { return a + c; }, add, any2}, {"c+a", [](const ThermoScalar& a, double c) { return c + a; }, add, any2},
        {"a-c", [](const ThermoScalar& a, double c) { return a - c; }, sub, any2}, {"c-a", [](const ThermoScalar& a, double c) { return c - a; }, [](const Ref& a, double c) { return bi(c - a.v, -1, 1, a, con(c)); }, any2},
        {"a*c", [](const ThermoScalar& a, double c) { return a * c; }, mul, any2}, {"c*a", [](const ThermoScalar& a, double c) { return c * a; }, mul, any2},
        {"a/c", [](const ThermoScalar& a, double c) { return a / c; }, div, nz}, {"c/a", [](const ThermoScalar& a, double c) { return c / a; }, [](const Ref& a, double c) { return bi(c / a.v, -c / (a.v * a.v), 1 / a.v, a, con(c)); }, [](double a, double) { return a != 0; }},
        {"a+=c", [](const ThermoScalar& a, double c) { ThermoScalar x = a; x += c; return x; }, add, any2, true}, {"a-=c", [](const ThermoScalar& a, double c) { ThermoScalar x = a; x -= c; return x; }, sub, any2, true},
        {"a*=c", [](const ThermoScalar& a, double c) { ThermoScalar x = a; x *= c; return x; }, mul, any2, true}, {"a/=c", [](const ThermoScalar& a, double c) { ThermoScalar x = a; x /= c; return x; }, div, nz, true},
        {"pow(a,c)", [](const ThermoScalar& a, double c) { return pow(a, c); }, [](const Ref& a, double c) { return un(std::pow(a.v, c), c == 0 ? 0 : c * std::pow(a.v, c - 1), a); },
            [](double a, double c) { if (a < 0) return c == std::floor(c); if (a == 0) return c == 1 || c == 2 || c == 3; return std::fabs(c * std::log(a)) < 300; }},
    };
}
static ThermoScalar mk(double v, double t, double p, double e, Status st) { ThermoScalar s; s.val = v; s.ddt = t; s.ddp = p; s.err = e; s.sta = {st, ""}; return s; }
static Val leaf(double v, double t, double p, double e, Status st, const std::string& n = "") {
    return {mk(v, t, p, e, st), {v, t, p, e, st != notdefined}, n.empty() ? "{" + mc::num6(v) + ";dT " + mc::num6(t) + ";dP " + mc::num6(p) + ";err " + mc::num6(e) + "}" : n}; }
static std::vector<Val> leaves(bool big) {
    std::vector<Val> L;
    std::vector<double> vs = big ? std::vector<double>{-1e6, -2.5, -1, 0, 1e-3, 0.5, 1, 3, 298.15, 1e7} : std::vector<double>{-2.5, 0, 0.5, 3};
    for (double v : vs) for (auto d : std::vector<std::pair<double, double>>{{0, 0}, {1, 0}, {0, 1}, {-2, 0.7}}) for (double e : {0.0, 0.25}) { if (!big && d.first == 1) continue; L.push_back(leaf(v, d.first, d.second, e, calculated)); }
    Temperature T(298.15); Pressure P(2e5); L.push_back({T, {298.15, 1, 0, 0, true}, "T"}); L.push_back({P, {2e5, 0, 1, 0, true}, "P"});
    return L;
}
static void judge(Report& r, const std::string& op, const std::string& lab, const ThermoScalar& s, const Ref& w, double scale) {
    r.states++; r.transitions += 1 + std::count(op.begin(), op.end(), ',');
    if (op.find(',') != std::string::npos) r.traces++;   // complete expressions of more than one operation
    if (w.t != 0 || w.p != 0 || w.e != 0) r.nontrivial++;
    auto cl = [&](double a, double b) { return mc::close(a, b, 1e-11, 1e-13 * scale); };
    if (!std::isfinite(w.v) || !std::isfinite(w.t) || !std::isfinite(w.p) || !std::isfinite(w.e) || std::fabs(w.v) > 1e150) return;
    if (!cl(s.val, w.v)) r.violation("value:" + op, lab + " is " + mc::num(s.val) + ", expected " + mc::num(w.v), lab);
    if (!cl(s.ddt, w.t)) r.violation("ddt:" + op, lab + " has temperature derivative " + mc::num(s.ddt) + ", expected " + mc::num(w.t), lab);
    if (!cl(s.ddp, w.p)) r.violation("ddp:" + op, lab + " has pressure derivative " + mc::num(s.ddp) + ", expected " + mc::num(w.p), lab);
    if (!cl(s.err, w.e)) r.violation("err:" + op, lab + " has uncertainty " + mc::num(s.err) + ", expected " + mc::num(w.e), lab);
}
static double mag(const Ref& a) { return std::max({std::fabs(a.v), std::fabs(a.t), std::fabs(a.p), a.e}); }

static Report s01() {
    static auto B = binary(); static auto M = mixed(); static auto U = unary();
    static auto big = leaves(true), small = leaves(false);
    static std::vector<double> cs = {-3, -1, -0.5, 0, 0.5, 1, 2, 3, 1e3};
    size_t n1 = big.size(), n2 = small.size() * small.size();
    return mc::parallel(n1 + n2, [&, n1](size_t i, Report& r) {
        auto level = [&](const Val& a, auto&& next, bool wide) {   // every operation on a (and a leaf)
            for (auto& u : U) if (u.dom(a.r.v)) { Val x{u.f(a.s), u.g(a.r), u.name + " of " + a.n}; next(x, u.name, mag(a.r)); }
            for (auto& m : M) for (double c : cs) if (m.dom(a.r.v, c)) { Val x{m.f(a.s, c), m.g(a.r, c), m.name + " with a = " + a.n + ", c = " + mc::num6(c)}; next(x, m.name, mag(a.r) * std::max(1.0, std::fabs(c))); }
            for (auto& b : B) for (auto& l : wide ? big : small) {
                if (b.dom(a.r.v, l.r.v)) { Val x{b.f(a.s, l.s), b.g(a.r, l.r), b.name + " with a = " + a.n + ", b = " + l.n}; next(x, b.name, std::max(mag(a.r), 1.0) * std::max(mag(l.r), 1.0)); }
                if (!wide && b.dom(l.r.v, a.r.v)) { Val x{b.f(l.s, a.s), b.g(l.r, a.r), b.name + " with a = " + l.n + ", b = " + a.n}; next(x, b.name, std::max(mag(a.r), 1.0) * std::max(mag(l.r), 1.0)); }
            }
        };
        if (i < n1) {
            if (i % 20 == 0) r.sample("every operation on " + big[i].n + " and every leaf or constant");
            level(big[i], [&](const Val& x, const std::string& op, double s) { judge(r, op, x.n, x.s, x.r, s * 10); }, true);
            // comparisons are those of the values
            for (auto& l : big) { auto& a = big[i]; double p = a.r.v, q = l.r.v; r.states++; r.transitions += 18;
                bool ok = (a.s < l.s) == (p < q) && (a.s <= l.s) == (p <= q) && (a.s > l.s) == (p > q) && (a.s >= l.s) == (p >= q) && (a.s == l.s) == (p == q) && (a.s != l.s) == (p != q)
                    && (a.s < q) == (p < q) && (a.s <= q) == (p <= q) && (a.s > q) == (p > q) && (a.s >= q) == (p >= q) && (a.s == q) == (p == q) && (a.s != q) == (p != q)
                    && (p < l.s) == (p < q) && (p <= l.s) == (p <= q) && (p > l.s) == (p > q) && (p >= l.s) == (p >= q) && (p == l.s) == (p == q) && (p != l.s) == (p != q);
                if (!ok) r.violation("comparison", a.n + " with " + l.n, ""); }
            return;
        }
        // trees: every operation over every result of a pair
        size_t k = i - n1; auto& a = small[k / small.size()]; auto& b = small[k % small.size()];
        for (auto& f : B) { if (!f.dom(a.r.v, b.r.v)) continue;
            Val x{f.f(a.s, b.s), f.g(a.r, b.r), "(" + f.name + " of " + a.n + " and " + b.n + ")"};
            if (!std::isfinite(mag(x.r)) || mag(x.r) > 1e100) continue;
            level(x, [&](const Val& y, const std::string& op, double s) {
                judge(r, f.name + "," + op, y.n, y.s, y.r, s * std::max({1.0, mag(a.r), mag(b.r)}));
                // a third level, where rounding of the second cannot be magnified out of proportion
                if (!mc::options().thorough() || !std::isfinite(mag(y.r)) || mag(y.r) > 1e6 || (y.r.v != 0 && std::fabs(y.r.v) < 1e-3)) return;
                double amp = std::pow(std::max({1.0, mag(y.r), y.r.v != 0 ? 1 / std::fabs(y.r.v) : 1.0}), 3);
                double sc = s * std::max({1.0, mag(a.r), mag(b.r)}) * amp;
                for (auto& u : U) if (u.dom(y.r.v) && !(u.name == "exp(a)" && std::fabs(y.r.v) > 20)) judge(r, f.name + "," + op + "," + u.name, u.name + " of " + y.n, u.f(y.s), u.g(y.r), sc);
                for (auto& m : M) for (double c : {-0.5, 2.0}) if (m.dom(y.r.v, c) && m.name[0] != 'p') judge(r, f.name + "," + op + "," + m.name, m.name + " of " + y.n, m.f(y.s, c), m.g(y.r, c), sc);
            }, false);
        }
    });
}

static Report s02() {
    static auto B = binary(); static auto M = mixed(); static auto U = unary();
    static const std::vector<Status> st = {notdefined, Status::read, calculated, assigned, initialized, outofbounds};
    static const char* nm[] = {"notdefined", "read", "calculated", "assigned", "initialized", "outofbounds"};
    int depth = mc::options().thorough() ? 4 : 3;
    // all chains of operations up to the depth over operands of every status: only definedness is followed
    struct Item { size_t op, sa, sb; }; std::vector<Item> items; size_t nops = B.size() + M.size() + U.size();
    for (size_t o = 0; o < nops; ++o) for (size_t a = 0; a < st.size(); ++a) for (size_t b = 0; b < st.size(); ++b) items.push_back({o, a, b});
    items.push_back({999, 0, 0});
    return mc::parallel(items.size(), [&, depth](size_t i, Report& r) {
        auto it = items[i];
        if (it.op == 999) {
            // what gives a value a status
            auto ck = [&](const char* what, const ThermoScalar& s, Status w, const std::string& msg = "") { r.states++; r.transitions++; r.traces++; r.nontrivial++; if (s.sta.first != w || s.sta.second != msg) r.violation(std::string("status:") + what, std::string(what) + " has status " + nm[s.sta.first] + " '" + s.sta.second + "', expected " + nm[w] + " '" + msg + "'", what); };
            ck("default", ThermoScalar(), notdefined); ck("from a number", ThermoScalar(2.0), notdefined); { ThermoScalar s; s = 3.0; ck("assigned a number", s, assigned); } { ThermoScalar s = mk(1, 2, 3, 4, outofbounds); s.sta.second = "m"; s = 3.0; ck("reassigned a number", s, assigned); if (s.ddt != 0 || s.ddp != 0 || s.err != 0 || s.val != 3) r.violation("status:reassigned", "a number assigned keeps old derivatives or uncertainty", ""); }
            ck("Temperature", Temperature(300), assigned); ck("Pressure", Pressure(1e5), assigned);
            for (auto x : st) { ThermoScalar s = mk(1.5, 2, 3, 4, x); s.sta.second = "message of the operand"; ThermoScalar a(s), b; b = s; ThermoScalarBase<double> c = s; std::vector<ThermoScalar> v(3, s); v.push_back(s); v.insert(v.begin(), b);
                ck("copied", a, x, "message of the operand"); ck("assigned", b, x, "message of the operand"); ck("converted", c, x, "message of the operand"); for (auto& y : v) ck("in a container", y, x, "message of the operand");
                std::pair<ThermoScalar, int> p{s, 1}; auto q = p; ck("in a pair", q.first, x, "message of the operand"); b = b; ck("self-assigned", b, x, "message of the operand"); }
            // accumulation over a list of contributions with an undefined one at any place
            for (int n = 1; n <= 5; ++n) for (int mask = 0; mask < (1 << n); ++mask) for (int op = 0; op < 2; ++op) { ThermoScalar acc; acc = 0.0; for (int k = 0; k < n; ++k) { ThermoScalar x = mk(k + 1, 0, 0, 0, mask >> k & 1 ? notdefined : Status::read); if (op) acc -= x * 2.0; else acc += x * 2.0; }
                r.states++; r.transitions += n; r.traces++; r.nontrivial++;
                if ((acc.sta.first == notdefined) != (mask != 0)) r.violation("accumulate", "accumulating " + std::to_string(n) + " contributions, undefined mask " + std::to_string(mask) + ", has status " + nm[acc.sta.first], ""); }
            return;
        }
        auto apply = [&](size_t o, const ThermoScalar& a, const ThermoScalar& b, std::string& name) -> std::pair<ThermoScalar, bool> {   // second: both operands count
            if (o < B.size()) { name = B[o].name; return {B[o].f(a, b), true}; }
            o -= B.size();
            if (o < M.size()) { name = M[o].name; return {M[o].f(a, 0.7), false}; }
            o -= M.size(); name = U[o].name; return {U[o].f(a), false};
        };
        auto kind = [&](size_t o) { if (o < B.size()) return 0; o -= B.size(); if (o < M.size()) return M[o].keepsStatus ? 2 : 1; o -= M.size(); return U[o].name == "copy(a)" ? 2 : 1; };
        std::function<void(const ThermoScalar&, bool, std::string, int, Status)> go = [&](const ThermoScalar& x, bool def, std::string hist, int d, Status keep) {
            if (d == depth) return;
            for (size_t o = 0; o < nops; ++o) for (Status sb : {notdefined, calculated, outofbounds}) {
                if (d == 0 && (o != it.op || sb != st[it.sb])) continue;
                if (kind(o) != 0 && sb != (d == 0 ? st[it.sb] : calculated)) continue;
                for (int side = 0; side < (kind(o) == 0 ? 2 : 1); ++side) {
                    std::string name; ThermoScalar y = mk(1.3, 0.1, 0.2, 0.01, sb);
                    auto res = side ? apply(o, y, x, name) : apply(o, x, y, name);
                    bool w = def && (!res.second || sb != notdefined);
                    std::string lab = hist + " ; " + name + (side ? " (right)" : "") + " with " + nm[sb];
                    r.states++; r.transitions++; r.traces++; r.nontrivial += !w;
                    Status got = res.first.sta.first;
                    if ((got == notdefined) == w) r.violation("definedness:" + name, lab + " has status " + nm[got], lab);
                    else if (kind(o) != 2 && w && got != calculated) r.violation("calculated:" + name, lab + " has status " + nm[got] + ", expected calculated", lab);
                    else if (kind(o) == 2 && w && got != keep && got != calculated) r.violation("kept:" + name, lab + " has status " + nm[got] + ", was " + nm[keep], lab);
                    double v = res.first.val; if (!std::isfinite(v) || std::fabs(v) > 1e30) continue;
                    res.first.val = 1.7;
                    go(res.first, w, lab, d + 1, got);
                }
            }
        };
        // the first step has the status pair of the item, the following ones all statuses
        auto& sa = st[it.sa];
        if (i % 200 == 0) r.sample(std::string("operand of status ") + nm[sa] + ", then every chain of " + std::to_string(depth) + " operations");
        ThermoScalar a = mk(1.7, 1, 0, 0.1, sa);
        std::string name; ThermoScalar b = mk(1.3, 0.1, 0.2, 0.01, st[it.sb]);
        { auto res = apply(it.op, a, b, name); bool w = sa != notdefined && (!res.second || st[it.sb] != notdefined); r.states++; r.transitions++; r.traces++;
          std::string lab = std::string(nm[sa]) + " " + name + " " + nm[st[it.sb]];
          if ((res.first.sta.first == notdefined) == w) r.violation("definedness:" + name, lab + " has status " + nm[res.first.sta.first], lab); }
        if (st[it.sb] == notdefined || st[it.sb] == calculated || st[it.sb] == outofbounds) go(a, sa != notdefined, nm[sa], 0, sa);
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    return mc::finish(mc::options().mode == "S01" ? s01() : s02());
}
