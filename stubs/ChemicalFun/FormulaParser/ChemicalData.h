// Stand-in for the part of ChemicalFun's formula parser that ThermoFun uses.
//
// The real package is not available offline (see /opt/vp/BUILD.json); without
// some implementation of this interface neither Database.cpp nor Element.cpp
// compiles.  The stand-in is deliberately small and deterministic: a value
// type per element key, an ordered table of elements, and a recursive-descent
// parser for the formula grammar found in the shipped databases.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <memory>

namespace ChemicalFun {

/// Identity of an element: symbol, class, isotope.
class ElementKey {
    std::string symbol_;
    int class__ = 0;
    int isotope_ = 0;
public:
    ElementKey(const std::string& symbol, int a_class = 0, int isotope = 0)
        : symbol_(symbol), class__(a_class), isotope_(isotope) {}
    const std::string& Symbol() const { return symbol_; }
    int Class() const { return class__; }
    int Isotope() const { return isotope_; }
    friend bool operator<(const ElementKey& l, const ElementKey& r) {
        if (l.symbol_ != r.symbol_) return l.symbol_ < r.symbol_;
        if (l.class__ != r.class__) return l.class__ < r.class__;
        return l.isotope_ < r.isotope_;
    }
    friend bool operator==(const ElementKey& l, const ElementKey& r) {
        return !(l < r) && !(r < l);
    }
};

/// Data of an element.
struct ElementValues {
    std::string recid;
    double atomic_mass = 0.0;
    double entropy = 0.0;
    double heat_capacity = 0.0;
    double volume = 0.0;
    int valence = 0;
    int number = 0;
    std::string name;
};

using elements_type = std::map<ElementKey, ElementValues>;

/// Properties calculated from a formula.
struct FormulaProperties {
    std::string formula;
    double charge = 0.0;
    double atomic_mass = 0.0;
    double elemental_entropy = 0.0;
    double atoms_formula_unit = 0.0;
};

/// A parsed formula.
class FormulaToken {
public:
    struct Term { ElementKey key; double stoich; bool has_valence; int valence; };
    explicit FormulaToken(const std::string& formula);
    const std::string& formula() const { return formula_; }
    const std::map<ElementKey, double>& getStoichCoefficients() const { return stoich_; }
    FormulaProperties properties(const elements_type& elements) const;
    double charge(const elements_type& elements) const;
private:
    std::string formula_;
    std::vector<Term> terms_;
    std::map<ElementKey, double> stoich_;
    bool explicit_charge_ = false;
    double explicit_charge_value_ = 0.0;
};

/// The table of elements.
class DBElements {
    elements_type dbelements_;
public:
    void addElement(const ElementKey& key, const ElementValues& values) { dbelements_[key] = values; }
    const elements_type& elements() const { return dbelements_; }
    FormulaProperties formulasProperties(const std::string& formula) const { return FormulaToken(formula).properties(dbelements_); }
    static int defaultValence(const std::string& symbol);
};

} // namespace ChemicalFun
