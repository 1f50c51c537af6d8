#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

E = "ThermoFun/ThermoEngine.cpp"
TESTS = "The stable test evaluates a handful of fixed points"

# ---------------------------------------------------------------- engine as a stateful service
p("H01", "A query's answer does not depend on the queries made before it",
  "For a fixed database, preferences and conventions, the result of a substance, reaction or solvent query at a given temperature and pressure is the same number for number whatever sequence of other queries the same calculator answered before it. In particular interleaving reaction, gas, solute, liquid and vapour queries, by name or by object, in any order never changes any of their answers.",
  ["histories"], "every sequence of queries up to a depth, over substances of every calculation path that share solvent, cached results or calculator-wide flags",
  TESTS + " in one fixed order with a new calculator; history dependence needs particular pairs of queries.",
  [E, "ThermoFun/OptimizationUtils.h"], [("memoised query functions", "ThermoEngine::Impl::set_fn"), ("flags switched during reaction calculations", "Impl::reacDCthermoProperties, thermoPropertiesReactionFromReactants")],
  [("preferences", "mutable settings also used as scratch", "ThermoEngine::Impl")], ["ThermoEngine::thermoPropertiesSubstance/Reaction/propertiesSolvent/electroPropertiesSolvent"])
p("H02", "Caching of results is invisible",
  "Results returned with result caching enabled, at any cache capacity including one and unlimited, equal the results computed without caching: for every sequence of queries, including repeated ones, ones that differ from an earlier one only slightly in temperature, pressure, name or phase, and ones that evict earlier entries. Caching may change only the time taken.",
  ["histories", "configurations"], "all query sequences up to a depth times cache capacities (off, 1, 2, 3, unlimited)",
  "No test runs the same query twice through the cache, none varies the capacity, and key collisions and eviction need chosen sequences.",
  ["ThermoFun/OptimizationUtils.h", E], [("memoize, memoizeN, memoizeLast", "OptimizationUtils.h"), ("cache key (T, P, P, symbol, state)", "ThermoEngine::Impl::set_fn")],
  [("cache map and usage list", "entries of the bounded cache", "OptimizationUtils.h memoizeN")], ["query results", "memoize functions called directly"])
p("H03", "Data and settings given to a calculator take effect at the next query",
  "After records are appended to a calculator's database, or its solvent, preferences or conventions are changed, the next query of anything is answered as a newly built calculator with that data and those settings would answer it. Earlier answers computed under the old data or settings are never returned.",
  ["histories"], "all sequences of {query, append new record, append overriding record, change solvent, change preference, change convention} up to a depth",
  "Tests set everything before the first query; superseded results appear only when a setting changes between two equal queries.",
  [E], [("appendData, setSolventSymbol, preferences(), conventions()", "ThermoEngine"), ("result cache", "OptimizationUtils.h")], [], ["query results after a change"])
p("H04", "Queries leave the caller's settings and data untouched",
  "Evaluating properties never changes the calculator's observable preferences, conventions or solvent choice, nor any record of its database, nor the substance or reaction objects passed in. This holds for queries that succeed and for queries that fail.",
  ["histories", "inputs"], "every query kind over every calculation path, alone and in sequences",
  "Tests look at returned numbers only and never read settings or records back after a query.",
  [E], [("const query interface over mutable settings", "ThermoEngine::Impl::preferences"), ("getThermoPreferencesSubstance", E)], [("preferences", "settings the user set", "ThermoEngine::Impl")], ["ThermoEngine::preferences(), conventions(), solventSymbol(), database()"])
p("H05", "A failed query leaves no trace",
  "When a query ends in an error (unknown name, missing data, temperature or pressure out of a model's domain, failed convergence), every later query answers exactly as if the failed one had never been made, and repeating the failed query fails again in the same way.",
  ["fault_sequences", "histories"], "every failing query of an alphabet at every position of short query sequences",
  "Tests contain no failing query followed by another query on the same calculator.",
  [E, "ThermoFun/OptimizationUtils.h"], [("exceptions through memoised functions", "OptimizationUtils.h"), ("flags restored after reaction calculations", E)], [], ["results and errors of later queries"])
p("H06", "Copies are independent of their originals",
  "A copy of a database, substance, reaction, element, calculator, batch or output object gives the same answers as the original at the moment of copying; changing or destroying either one afterwards never affects the other. The same holds for assignment where it is offered.",
  ["histories"], "all sequences of {copy, assign, mutate original, mutate copy, destroy original, query copy} up to a depth, for each copyable class",
  "Tests never copy a calculator or mutate a copied record and then read the original; lifetime errors need the original to be gone.",
  ["ThermoFun/ThermoEngine.cpp", "ThermoFun/Database.cpp", "ThermoFun/Substance.cpp", "ThermoFun/Reaction.cpp", "ThermoFun/Element.cpp", "ThermoFun/Batch/ThermoBatch.cpp", "ThermoFun/Batch/OutputBatch.cpp"],
  [("pimpl deep copy in copy constructors and assignment", "each class"), ("query closures bound to their own calculator", "ThermoEngine::Impl::set_fn")], [], ["getters and query results", "AddressSanitizer"])
p("H07", "Calculators used from different threads do not disturb each other",
  "Two calculators, each used by one thread only, return in every interleaving exactly the values each returns when used alone. No model routine keeps intermediate results where another calculator's computation can see them.",
  ["schedules"], "all interleavings of two threads at routine entry/exit granularity up to a preemption bound, plus all orders of whole queries of two calculators",
  "Every test is single-threaded.",
  [E, "ThermoFun/Substances/Gases/s_solmod2_.cpp", "ThermoFun/Substances/Solvent"], [("per-call model objects", E), ("function-local static tables", "s_solmod2_.cpp, Water*.cpp")],
  [("static work arrays of the gas and water models", "shared between all calculators of a process", "Substances/")], ["query results per schedule", "ThreadSanitizer (separate free run)"])
p("H08", "Zero pressure means water saturation pressure, and the pressure used is reported",
  "A query with pressure zero of anything whose evaluation rests on the state of water (the solvent and its dielectric properties, dissolved species, reactions in which dissolved species take part, substances defined by such reactions) is evaluated at the saturation pressure of water at that temperature: its results equal those of the same query at that explicit pressure, and the pressure variable passed in is set to that pressure, for the first and for every repeated call. With a non-zero pressure the variable is left as given.",
  ["inputs", "histories"], "every calculation path on a temperature lattice below the critical point, pressure 0, first and repeated calls, through every query kind that involves the water models",
  "Tests with P=0 read one value once; neither the write-back on a repeated call nor agreement with an explicit pressure is examined.",
  [E, "ThermoFun/ThermoModelsSolvent.cpp"], [("pressure passed by reference, saturation pressure filled in by water models", "ThermoModelsSolvent.cpp, Solvent/"), ("cached results", "OptimizationUtils.h")], [], ["the pressure argument and the results"])

p("H09", "A record is calculated with the models its methods name",
  "The properties an engine returns for a record are those of the model, or of the sequence of models, that the methods in the record name, applied to the data of the record: heat capacity integration with or without a phase transition, equation of state of a mineral or gas, equation of state of water and dielectric model of the solvent (with the state asked for, or that of the record), steam with an equation of state of water, model of a dissolved species evaluated in the named solvent with the solvent's own models, and model of a reaction with or without a constant volume. The order in which the record lists its methods does not matter, and neither do data in the record that belong to other models.",
  ["inputs"], "every combination and order of methods a record may name, for minerals, gases with and without pressure correction, 4 x 4 solvents, steam, dissolved species in each of the 16 solvents and reactions, on lattices of temperature and pressure; each answer compared with the named model and with every other model of that kind",
  "Tests read a handful of records, each with one combination in one order, and compare with single numbers.",
  [E, "ThermoFun/Common/ParseJsonToData.cpp", "ThermoFun/ThermoModelsSubstance.cpp", "ThermoFun/ThermoModelsSolvent.cpp", "ThermoFun/ElectroModelsSolvent.cpp", "ThermoFun/ThermoModelsReaction.cpp"], [("getThermoPreferencesSubstance, thermoPropertiesSubstance, propertiesSolvent, electroPropertiesSolvent, thermoPropertiesReaction: choice of the models", "ThermoEngine.cpp"), ("reading of TPMethods", "ParseJsonToData.cpp")], [], ["engine results for records and the results of the model classes"])

# ---------------------------------------------------------------- data
p("D01", "The database behaves as a keyed store of elements, substances and reactions",
  "After any sequence of additions, replacements, bulk additions and lookups, the database holds under each symbol exactly the record the documented operation leaves there (adding never overwrites an existing symbol, setting does); counts, listings, membership tests and lookups by symbol all agree with each other, and looking up an absent symbol is reported as an error.",
  ["histories"], "all sequences of operations up to a depth over a two-symbol alphabet for each record kind, against a map",
  "Tests load one file and look up a few symbols.",
  ["ThermoFun/Database.cpp", "ThermoFun/Database.h"], [("addX, setX, addMapX, getX, containsX, numberOfX, mapX", "Database.cpp")], [("element, substance and reaction maps", "the records", "Database::Impl")], ["Database public interface"])
p("D02", "Loading data in parts or in any order gives the same database",
  "Loading records from a file, from a JSON string or from separate record strings, all at once or split over several append calls in any order, yields the same database, as long as no two records share a symbol. Records of one kind never disturb records of another kind.",
  ["histories", "inputs"], "all ordered partitions of a small record set over constructor and append calls, through each loading interface",
  "Tests load complete files once.",
  ["ThermoFun/Database.cpp", "ThermoFun/Common/ParseJsonToData.cpp"], [("fromFile, fromJSONs, appendData, parseJson", "Database.cpp")], [], ["Database getters", "query results"])
p("D03", "Every field of a record is read as written",
  "Each number, unit, name, class, method and coefficient of an element, substance or reaction record appears in the loaded object with the value written in the record, converted to the library's base unit when another supported unit is given; a field absent from the record is left at its default and is reported as not defined, and never takes a value from another field, another record or an earlier load. Records with any subset of the optional fields are accepted.",
  ["inputs"], "all single fields, all pairs of fields present or absent, all supported units, all method codes; for substance, reaction and element records, loaded after every other kind of record",
  "Test records have a fixed set of fields in default units.",
  ["ThermoFun/Common/ParseJsonToData.cpp", "ThermoFun/Common/ParseJsonToData.h", "ThermoFun/Substance.cpp", "ThermoFun/Reaction.cpp"], [("parseSubstance, parseReaction, parseElement, thermoParamSubst, readValueErrorUnit", "ParseJsonToData.cpp")], [], ["Substance, Reaction, Element getters"])
p("D04", "Element identity and formula composition are consistent",
  "Elements compare as equal exactly when symbol, name, class, isotope mass and valence agree, and their ordering is a strict total order on these, so a table keyed by elements never loses or merges entries. The composition and elemental entropy computed from a formula are the sums over its decomposition with the data of the elements last added, set or loaded, and charges set from formulas are those written in them.",
  ["inputs", "histories"], "all pairs and triples over an alphabet of elements differing in each combination of symbol, isotope and valence; all formulas of a generated grammar up to a size",
  "Tests never compare elements that differ in several fields at once.",
  ["ThermoFun/Element.cpp", "ThermoFun/Element.h", "ThermoFun/Database.cpp"], [("operator<, >, ==", "Element.cpp"), ("parseSubstanceFormula, elementalEntropyFormula, molarMass", "Database.cpp")], [], ["comparison operators, std::map<Element,double>, formula queries"])

# ---------------------------------------------------------------- reactions
p("R01", "Reaction equations are read with the right species and coefficients",
  "Parsing an equation yields each species with the sum of its coefficients, negative on the left and positive on the right, for integer and decimal coefficients, with and without explicit coefficients and spaces, for species names containing digits, charges and parentheses; a species occurring more than once is summed and parsing a new equation replaces the old one.",
  ["inputs"], "all equations of a grammar with up to two species per side, all coefficient spellings and separators, against an independent parser",
  "Tests parse two or three well-formed equations.",
  ["ThermoFun/Reaction.cpp"], [("fromEquation", "Reaction.cpp")], [], ["Reaction::reactants()"])
p("R02", "Reaction properties from components are the stoichiometric sums",
  "For a reaction evaluated from its components, each reaction property (Gibbs energy, enthalpy, entropy, volume, both heat capacities, internal and Helmholtz energy) equals the sum over its species of coefficient times the species' property at the same conditions with gases at their fugacity-corrected state, and the equilibrium constant follows from the Gibbs energy sum. Scaling or reversing the reaction scales or negates every property, and adding reactions adds them.",
  ["inputs"], "all reactions over a species alphabet of every calculation path with up to three species and small coefficients, times a T-P lattice",
  "The tests' reactions have one species order and check logK alone.",
  [E], [("thermoPropertiesReactionFromReactants", E)], [], ["thermoPropertiesReaction(equation), thermoPropertiesReactionFromReactants"])
p("R03", "Equilibrium constants, Gibbs energy and temperature agree for every reaction",
  "For every reaction, however evaluated, ln K equals log10 K times ln 10 and the Gibbs energy of reaction equals -RT ln K, at every temperature and pressure at which the reaction evaluates. The Gibbs energy also equals the enthalpy minus temperature times the entropy of reaction.",
  ["inputs"], "all reaction calculation methods times a T-P lattice times coefficient basis vectors",
  "Tests read log K at few points; the redundancy among outputs is never examined.",
  [E, "ThermoFun/Reactions"], [("logK, density and RB models; pressure correction", "ThermoModelsReaction.cpp, Reactions/*.cpp, ThermoEngine.cpp")], [], ["ThermoPropertiesReaction fields"])
p("R04", "A substance defined by a reaction reproduces that reaction",
  "When a substance's properties are defined through a reaction, substituting its computed properties back into the stoichiometric sum over all species of that reaction gives the reaction's own properties at the same conditions, whatever the substance's coefficient and whatever the calculation paths of the other species.",
  ["inputs", "configurations"], "all coefficients of the defined substance, all calculation paths of the other species, chains of two such substances, times a T-P lattice",
  "Tests evaluate a few such substances and compare to stored numbers.",
  [E], [("reacDCthermoProperties", E)], [], ["thermoPropertiesSubstance, thermoPropertiesReaction"])
p("R05", "Reaction models give the property values their equations define",
  "For each way a reaction record can describe its temperature and pressure dependence, the reported properties equal those of the published model equation with the record's coefficients, and the derivative relations between log K, enthalpy, heat capacity and volume hold along temperature and pressure. At the reference temperature and pressure the reference values of the record are reproduced.",
  ["inputs", "configurations"], "each method, each coefficient alone and in pairs, times a T-P lattice, against an independent implementation with numerical differentiation",
  "Tests cover two methods with one coefficient set each.",
  ["ThermoFun/Reactions", "ThermoFun/ThermoModelsReaction.cpp", "ThermoFun/Reaction.cpp", E], [("logK function of T, density models, volume function", "Reactions/*.cpp"), ("conversion between logK and Cp coefficients", "Reaction.cpp")], [], ["ThermoPropertiesReaction fields"])

# ---------------------------------------------------------------- substance models
p("T01", "Standard properties obey the thermodynamic derivative relations",
  "For every solid, liquid and dissolved substance, every substance defined by a reaction and every ideal gas, along temperature the Gibbs energy changes at the rate of minus the entropy and the enthalpy at the rate of the heat capacity; along pressure the Gibbs energy of condensed and dissolved substances changes at the rate of the volume; internal and Helmholtz energies follow from enthalpy, entropy, pressure and volume where reported. This holds between any two conditions in a substance's range, not just near the reference state.",
  ["inputs"], "every record of the model library times all neighbouring pairs of a T-P lattice within its range (path integrals around every elementary loop)",
  "Tests compare single values and cannot see an inconsistency between properties or away from the sampled points.",
  ["ThermoFun/Substances", "ThermoFun/ThermoModelsSubstance.cpp", E], [("each substance model", "Substances/**")], [], ["ThermoPropertiesSubstance fields"])
p("T02", "At its reference conditions a substance has its reference properties",
  "At the reference temperature and pressure of its record, every substance is reported with the reference values of its record for each of the properties (Gibbs energy, enthalpy, entropy, heat capacity, volume) its method starts from, whatever those values are. This holds for every method whose equation passes through the reference state; a real gas differs from its ideal-gas reference values by the departure of its equation of state.",
  ["inputs", "configurations"], "every method combination, times reference values and reference conditions varied one and two at a time",
  "Tests check a few database substances whose reference values are fixed.",
  ["ThermoFun/Substances", "ThermoFun/ThermoModelsSubstance.cpp", E], [("each substance model", "Substances/**")], [], ["ThermoPropertiesSubstance fields"])
p("T03", "Heat-capacity integration is exact over intervals and transitions",
  "For a substance with heat-capacity coefficients over one or several temperature intervals, with or without phase transitions between them, the enthalpy, entropy and Gibbs energy at any temperature above or below the reference temperature equal the integrals of its heat-capacity equation plus the transition contributions on the way, the first interval being the one that contains the reference temperature. Several intervals without a transition record for each border are reported as an error.",
  ["inputs", "configurations"], "each coefficient alone and in pairs, one to three intervals, all transition data combinations, temperatures below, in, at the border of and above every interval; against numerical quadrature",
  "Tests use single-interval substances near 25 C.",
  ["ThermoFun/Substances/EmpiricalCpIntegration.cpp", "ThermoFun/Substances/StandardEntropyCpIntegration.cpp"], [("thermoPropertiesEmpCpIntegration, thermoPropertiesEntropyCpIntegration", "EmpiricalCpIntegration.cpp, StandardEntropyCpIntegration.cpp")], [], ["ThermoPropertiesSubstance fields"])
p("T04", "Mineral volume and transition models follow their equations",
  "For each model of a mineral's volume or internal transition (constant volume, Murnaghan, Birch-Murnaghan, Berman polynomial, Landau transition), the volume at temperature and pressure and the pressure contributions to the other properties equal those of the published equation with the record's coefficients.",
  ["inputs", "configurations"], "each model, each coefficient alone and in pairs, times a T-P lattice that crosses the transitions; against an independent implementation",
  "Tests evaluate one or two minerals of the default database.",
  ["ThermoFun/Substances/Solids"], [("thermoPropertiesMinMurnaghan, ...BMGottschalk, ...HPLandau, ...Berman88", "Substances/Solids/*.cpp"), ("ConMolVol", "ThermoModelsSubstance.cpp")], [], ["ThermoPropertiesSubstance fields"])
p("T05", "Dissolved-species models follow their equations",
  "For each model of a dissolved species (revised Helgeson-Kirkham-Flowers in both implementations, Akinfiev-Diamond, Anderson density, Holland-Powell), the properties at temperature and pressure equal those of the published equation of state with the record's coefficients and the solvent's properties at those conditions, for charged and neutral species alike; the two implementations of the same model agree.",
  ["inputs", "configurations"], "each model, each coefficient alone and in pairs, each charge from -4 to +4, times a T-P lattice; against an independent implementation with numerical differentiation",
  "Tests evaluate a few ions.",
  ["ThermoFun/Substances/Solute"], [("thermoPropertiesSoluteHKF*, ...AD, ...AN91, ...HP98", "Substances/Solute/*.cpp")], [], ["ThermoPropertiesSubstance fields"])
p("T06", "Gas models follow their equations of state",
  "For each gas model (ideal gas, Peng-Robinson 1978, Soave-Redlich-Kwong, Peng-Robinson-Stryjek-Vera, CORK, Churakov-Gottschalk, Sterner-Pitzer), the volume solves the model's pressure equation for the phase that is stable according to it, and the enthalpy and entropy are those of the ideal gas plus the departure functions of that equation from the ideal gas at the same temperature and pressure, while the Gibbs energy stays that of the standard state; all departures vanish as pressure goes to zero, and outside a model's range the gas is treated as ideal. When the pressure correction is requested, the volume times the pressure above the reference is added to Gibbs energy and enthalpy.",
  ["inputs", "configurations"], "each gas model, each parameter varied, correction on and off, times a T-P lattice; against an independent implementation",
  "Tests evaluate few gases at low pressure.",
  ["ThermoFun/Substances/Gases", "ThermoFun/ThermoModelsSubstance.cpp"], [("GasPR78, GasSRK, GasPRSV, GasCORK, GasCGF, GasSTP, IdealGasLawVol", "ThermoModelsSubstance.cpp, Substances/Gases/*.cpp")], [], ["ThermoPropertiesSubstance fields"])
p("T07", "Water equations of state are internally consistent and mutually agree",
  "For each implementation of the equation of state of water, density, its temperature and pressure derivatives, energies, entropy and heat capacities satisfy the relations derived from one Helmholtz function and the requested pressure is reproduced by the reported density; on the saturation line liquid and vapour have equal Gibbs energy. Every derivative reported or carried along with a property is the derivative of that property. The implementations agree with each other, and with the published check values, within their stated accuracy; so do viscosity, thermal conductivity, speed of sound and surface tension where they are reported.",
  ["inputs"], "every implementation and phase times a T-P lattice over the liquid, vapour and supercritical regions; all elementary loops of the lattice",
  "Tests compare a few densities.",
  ["ThermoFun/Substances/Solvent", "ThermoFun/ThermoModelsSolvent.cpp"], [("Water HGK (two implementations), Wagner-Pruss, Zhang-Duan", "Substances/Solvent/*.cpp")], [], ["PropertiesSolvent, ThermoPropertiesSubstance of the solvent"])
p("T08", "Dielectric and Born functions of the solvent are mutually consistent",
  "For each model of the dielectric constant of water, the reported temperature (per kelvin) and pressure (per pascal) derivatives, and those carried along, are the derivatives of the reported dielectric constant, and the Born functions Z, Y, Q, N, U and X are the corresponding combinations of them, at every temperature and pressure in the model's range; the dielectric constant agrees with published values.",
  ["inputs"], "every dielectric model times every water model times a T-P lattice",
  "Tests compare a few Born functions at single points.",
  ["ThermoFun/Substances/Solvent", "ThermoFun/ElectroModelsSolvent.cpp"], [("Johnson-Norton (two implementations), Sverjensky 2014, Fernandez 1997", "Substances/Solvent/WaterElectro*.cpp, ElectroModelsSolvent.cpp")], [], ["ElectroPropertiesSolvent fields"])
p("T09", "Switching conventions shifts properties by constants only",
  "Changing the apparent-property convention changes the Gibbs energy of every substance other than the solvent exactly by the reference temperature times the entropy of its elements, and changing the water convention changes the solvent's energies and entropy exactly by the triple-point constants in force, at every temperature and pressure; no other property or substance changes. A substance defined by a reaction is in the convention of the other species of that reaction. Unknown convention names change nothing and names are recognised in any letter case.",
  ["configurations", "inputs"], "all combinations of conventions and triple-point data sets times all calculation paths times a T-P lattice",
  "Tests use the default conventions.",
  [E, "ThermoFun/Database.cpp"], [("toSteamTables, toBermanBrown, elementalEntropyFormula", "ThermoEngine.cpp, Database.cpp")], [], ["ThermoPropertiesSubstance fields"])

# ---------------------------------------------------------------- batch
p("B01", "Batch results equal single queries",
  "Every value of a batch calculation equals the value of the corresponding single query at the same temperature and pressure placed at the position of its record, condition and property. Retrieved as numbers the values are in the base units of the library; units set for display apply to the written tables and to the temperatures and pressures given. This holds for substances and reactions, for any list of conditions including duplicates, and for pressure zero, where all records of a condition are at the saturation pressure if one of them needs it. A record or property that cannot be calculated is reported; values handed out are not changed by later calculations.",
  ["inputs", "configurations"], "all combinations of up to three records, up to three conditions, up to three properties, by symbol or object, substances and reactions",
  "Tests run one batch and look at a file by eye.",
  ["ThermoFun/Batch/ThermoBatch.cpp"], [("selectPropertiesSubstances/Reactions, calculate*", "ThermoBatch.cpp")], [], ["BatchCalculator results"])
p("B02", "Exported tables contain the computed values, labelled correctly",
  "A result file contains one header and one row or column per record and condition, in order, in which every value is the computed one rounded to the requested number of digits in the requested notation and unit and every label names what stands next to it, for both table orientations and both loop orders. Nothing is missing, repeated or left from an earlier export.",
  ["configurations"], "all combinations of orientation, loop order, numbers of records, conditions and properties, digits and notation; files parsed back",
  "Tests write files that nobody reads.",
  ["ThermoFun/Batch/OutputBatch.cpp", "ThermoFun/Common/OutputToCSV.cpp"], [("foutResults, foutResultsTransposed, toCSV*", "OutputBatch.cpp")], [], ["written files"])
p("B03", "Temperature and pressure grids contain exactly the requested points",
  "A grid requested by start, end and step contains, for every start, end and step, exactly the points start + k step that do not exceed the end (none if the start exceeds it), each temperature combined with each pressure exactly once; explicitly listed pairs are used exactly as listed.",
  ["inputs"], "all start/end/step combinations of a decimal alphabet for temperature and pressure, including steps that do not divide the range and steps that accumulate rounding",
  "Tests use one grid with step 25.",
  ["ThermoFun/Batch/ThermoBatch.cpp"], [("addTPpairs, setTemperatureIncrement, setPressureIncrement", "ThermoBatch.cpp")], [], ["points at which results are produced"])
p("B04", "Batch units, digits and settings act on exactly what they name",
  "Setting a unit, digits or preference in a batch affects exactly the named property, in the stated direction, at every later calculation, and results in the other units are unaffected; setting one twice or in a different order leaves the last value. Unknown names do not silently change other outputs.",
  ["configurations", "histories"], "all sequences of up to three setting operations followed by a calculation",
  "Tests set each unit at most once.",
  ["ThermoFun/Batch/ThermoBatch.cpp", "ThermoFun/Batch/ThermoBatch.h"], [("setPropertiesUnits, setPropertiesDigits, setUnits, setDigits, setBatchPreferences", "ThermoBatch.cpp")], [], ["BatchCalculator results and files"])

# ---------------------------------------------------------------- units and scalars
p("U01", "Unit conversions are exact, invertible and composable",
  "Converting a value between two units of the same quantity multiplies it by the ratio of their sizes, or for absolute temperatures applies the right offset; converting back restores the value and going through a third unit gives the same result. Two units are convertible exactly when they measure the same quantity.",
  ["inputs"], "all ordered pairs and triples of all supported units, all compound units with up to two factors",
  "Tests convert nothing.",
  ["ThermoFun/Common/Units.cpp", "ThermoFun/Common/Units.hpp"], [("units::convert, slope, intercept, convertible", "Units.cpp")], [], ["units::convert, units::convertible"])
p("U02", "Unit expressions are read by the usual rules of algebra",
  "A unit expression built from products, quotients, parentheses and powers denotes the quantity given by the usual precedence rules, independent of redundant parentheses; an expression that is not of that form is reported as an error and never crashes or is taken for something else.",
  ["inputs"], "all expressions of the grammar up to a size over a small unit alphabet, and all strings up to a length over its token alphabet, against an independent evaluator",
  "Tests parse no unit expression.",
  ["ThermoFun/Common/Units.cpp", "ThermoFun/Common/Units.hpp"], [("unit expression parser", "Units.cpp")], [], ["units::convert, units::convertible"])
p("S01", "Arithmetic on values carries correct derivatives and uncertainties",
  "For every expression over values with temperature and pressure derivatives, the value is that of ordinary arithmetic, the derivatives are the derivatives of the expression, and the reported uncertainty follows first-order error propagation of the operands' uncertainties. Mixed operations with plain numbers behave as operations with exact constants.",
  ["programs"], "all expressions up to depth three over all operators and functions and a value alphabet with non-zero derivatives and errors, against dual numbers",
  "Tests never look at derivatives or errors.",
  ["ThermoFun/Common/ThermoScalar.hpp"], [("operators and functions of ThermoScalarBase", "ThermoScalar.hpp")], [], ["val, ddt, ddp, err"])
p("S02", "A result computed from undefined data is marked as such",
  "A number computed by any arithmetic operation from a value that is not defined is itself reported as not defined, however many operations lie between them, and one computed from defined values only is reported as calculated; the status and the message of a value survive copying, assignment and storage in containers.",
  ["programs", "inputs"], "all operators over all pairs of statuses; all substances with each reference value removed",
  "Tests never read a status.",
  ["ThermoFun/Common/ThermoScalar.hpp", E], [("status handling in ThermoScalarBase", "ThermoScalar.hpp"), ("setMessage", E)], [], ["sta of results"])

p("S03", "A result outside the limits of its record or model says so",
  "A substance record may give temperature and pressure limits. Calculated with the HKF models, the Akinfiev-Diamond model, the fluid equations of state (CORK, PRSV, Peng-Robinson 78, Soave, Churakov-Gottschalk, Sterner-Pitzer) or the mineral models (Berman, Birch-Murnaghan-Gottschalk, Holland-Powell Landau and Murnaghan), the G, H, S and Cp of a substance at a temperature or pressure outside these limits carry a message in their status that names the model and the limits, and inside (the limits included), or for a limit the record does not give (zero), they carry none. The same holds for the heat capacity equation outside all of its temperature intervals and for the HKF models outside 600-1400 kg/m3 of water density. The messages survive the later steps of the calculation, the conversion between conventions and the pressure correction of gases, and are the same for a query by name, a repeated query and a query by record. A reaction calculated from its components carries the messages of all of them and names every component whose property is not defined.",
  ["inputs"], "every combination of limits given and not given for every model, on a lattice with the limits and their neighbours; every reaction of up to four components of five kinds",
  "Tests read no message.",
  ["ThermoFun/Substance.cpp", "ThermoFun/Substances/EmpiricalCpIntegration.cpp", E], [("Substance::checkCalcMethodBounds", "ThermoFun/Substance.cpp"), ("setMessage, keepMessages", E)], [], ["sta of results"])

# ---------------------------------------------------------------- robustness
p("E01", "Bad input is answered with an error, never with a crash",
  "For every record with a field removed, emptied, of the wrong type or wrong length, every malformed data set, every unknown name and every temperature and pressure (zero, negative, huge, not-a-number), loading and evaluating either give a result or report an error in finite time; they never read or write outside their data, divide by an integer zero, loop forever or end the process.",
  ["inputs", "fault_sequences"], "every single-field mutation of every record kind and every extreme condition, singly and for selected fields in pairs, under memory and undefined-behaviour checking",
  "Tests feed only valid records and ordinary conditions.",
  ["ThermoFun/Common/ParseJsonToData.cpp", "ThermoFun/Common/Exception.cpp", "ThermoFun/Substances", "ThermoFun/Reactions", "ThermoFun/Database.cpp", E], [("checks of coefficient counts and exceptions", "ThermoModels*.cpp, Exception.cpp")], [], ["process outcome, exceptions, sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
