#include "ChemicalFun/FormulaParser/ChemicalData.h"
#include <cctype>
#include <stdexcept>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/stdout_color_sinks.h>

namespace ChemicalFun {

// update_loggers()/clear_loggers() of ThermoFun look this logger up by name.
std::shared_ptr<spdlog::logger> chfun_logger = spdlog::stdout_color_mt("chemicalfun");

namespace {
struct Parser {
    const std::string& s;
    size_t i = 0;
    std::vector<FormulaToken::Term> out;
    bool charge = false;
    double z = 0.0;

    [[noreturn]] void fail(const std::string& why) const {
        throw std::runtime_error("formula '" + s + "': " + why);
    }
    bool end() const { return i >= s.size(); }
    bool number(double& v) {
        size_t b = i;
        while (!end() && (std::isdigit((unsigned char)s[i]) || s[i] == '.')) ++i;
        if (b == i) return false;
        v = std::stod(s.substr(b, i - b));
        return true;
    }
    void term_list(double mult, char close) {
        while (!end()) {
            char c = s[i];
            if (c == close && close) { ++i; return; }
            if (c == '(' || c == '[') {
                char cl = c == '(' ? ')' : ']';
                ++i;
                size_t from = out.size();
                term_list(1.0, cl);
                if (s[i - 1] != cl) fail("unbalanced bracket");
                double v = 1.0; number(v);
                for (size_t k = from; k < out.size(); ++k) out[k].stoich *= v;
                continue;
            }
            if (c == ':' || c == '*') { // sub-formula, optional multiplier
                ++i;
                double v = 1.0; number(v);
                size_t from = out.size();
                term_list(1.0, close);
                for (size_t k = from; k < out.size(); ++k) out[k].stoich *= v;
                for (auto& t : out) (void)t;
                return;
            }
            if (c == '+' || c == '-') {
                ++i;
                double v = 1.0; number(v);
                charge = true;
                z = (c == '+' ? v : -v);
                continue;
            }
            if (c == '@') { ++i; continue; }
            int isotope = 0;
            if (c == '/') { // /isotope/Symbol
                ++i; double v = 0; if (!number(v)) fail("bad isotope");
                if (end() || s[i] != '/') fail("bad isotope");
                ++i; isotope = int(v); if (end()) fail("bad isotope");
                c = s[i];
            }
            if (!std::isupper((unsigned char)c)) fail(std::string("unexpected character '") + c + "'");
            std::string sym(1, c); ++i;
            while (!end() && (std::islower((unsigned char)s[i]) || s[i] == '_')) sym += s[i++];
            bool hv = false; int val = 0;
            if (!end() && s[i] == '|') {
                ++i; int sg = 1;
                if (!end() && (s[i] == '-' || s[i] == '+')) { sg = s[i] == '-' ? -1 : 1; ++i; }
                double v = 0; if (!number(v)) fail("bad valence");
                if (end() || s[i] != '|') fail("bad valence");
                ++i; hv = true; val = sg * int(v);
            }
            double n = 1.0; number(n);
            out.push_back({ElementKey(sym, sym == "Zz" ? 4 : sym == "Vol" ? 5 : 0, isotope), n * mult, hv, val});
        }
        if (close) fail("unbalanced bracket");
    }
};

std::string strip(std::string f) {
    for (const char* suffix : {"(aq)", "(g)", "(s)", "(l)", "(cr)", "(am)"}) {
        std::string x(suffix);
        if (f.size() > x.size() && f.compare(f.size() - x.size(), x.size(), x) == 0) f.erase(f.size() - x.size());
    }
    return f;
}
} // namespace

FormulaToken::FormulaToken(const std::string& formula) : formula_(strip(formula)) {
    Parser p{formula_};
    p.term_list(1.0, 0);
    terms_ = std::move(p.out);
    explicit_charge_ = p.charge; explicit_charge_value_ = p.z;
    for (auto& t : terms_) stoich_[t.key] += t.stoich;
    if (explicit_charge_ && explicit_charge_value_ != 0.0) stoich_[ElementKey("Zz", 4)] += explicit_charge_value_;
}

double FormulaToken::charge(const elements_type& elements) const {
    if (explicit_charge_) return explicit_charge_value_;
    double q = 0; (void)elements;
    if (!formula_.empty() && formula_.back() == '@') return 0.0;
    bool any = false;
    for (auto& t : terms_) if (t.has_valence) any = true;
    (void)any;
    return q;
}

FormulaProperties FormulaToken::properties(const elements_type& elements) const {
    FormulaProperties p; p.formula = formula_;
    for (auto& kv : stoich_) {
        auto it = elements.find(kv.first);
        if (it == elements.end())
            throw std::runtime_error("formula '" + formula_ + "': invalid symbol " + kv.first.Symbol());
        p.atomic_mass += it->second.atomic_mass * kv.second;
        p.elemental_entropy += it->second.entropy * kv.second;
        p.atoms_formula_unit += kv.second;
    }
    p.charge = charge(elements);
    return p;
}

int DBElements::defaultValence(const std::string& symbol) {
    static const std::map<std::string, int> v = {
        {"H", 1}, {"O", -2}, {"C", 4}, {"Ca", 2}, {"Mg", 2}, {"Na", 1}, {"K", 1}, {"Cl", -1}, {"S", 6},
        {"Si", 4}, {"Al", 3}, {"Fe", 2}, {"N", 5}, {"P", 5}, {"F", -1}, {"Zz", 1}, {"Nit", 0}, {"Sr", 2},
        {"Ba", 2}, {"Li", 1}, {"Mn", 2}, {"Zn", 2}, {"Cu", 2}, {"Pb", 2}, {"Ag", 1}, {"Au", 1}, {"U", 6}};
    auto it = v.find(symbol);
    return it == v.end() ? 0 : it->second;
}

} // namespace ChemicalFun
