"""Which explorer decides which property."""
def run(h, variant="o2", mode=None):
    d = {"harness": h, "variant": variant}
    if mode: d["mode"] = mode
    return d
NOT_APPLICABLE = {}
HIST = "explicit-state exploration of all query histories up to a depth on the real calculator"
LATT = "exhaustive visit of a bounded state space (records x settings x temperature-pressure lattice) on the real code against a reference model"
SEQ = "exhaustive enumeration of operation sequences up to a depth on the real code against a reference model"
GRAM = "exhaustive enumeration of all inputs of a grammar up to a size on the real code against a reference model"
def chk(runs, technique, note, level="model_checking", **kw):
    return dict(runs=runs, level=level, technique=technique, note=note, **kw)
CHECKS = {
 "H01": chk([run("engine")], HIST, "Every sequence of two queries from an alphabet of 60-80 queries covering every model, and every sequence of three over the ones that touch calculator-wide state, in four configurations, is run on the implementation; the reference model is a calculator without history."),
 "H02": chk([run("engine")], HIST, "All key sequences on the real memo templates at every capacity, and all query sequences over near-colliding keys on the calculator with the cache off, bounded and unbounded; the reference model is the computation without a cache."),
 "H03": chk([run("engine")], "explicit-state exploration of all sequences of queries and changes of data or settings up to a depth", "The reference model is a new calculator built with the data and settings then in force."),
 "H04": chk([run("engine")], HIST, "After every query, successful or failing, alone and in pairs, settings, records and arguments are compared with their snapshot."),
 "H05": chk([run("engine")], HIST, "Every failing query before, between and after every other query; the reference model is a calculator that never met the failing one."),
 "H06": chk([run("copies", "asan")], SEQ, "Two objects of every copyable class, every sequence of creating, copying, assigning (also to itself and by value), changing, swapping and destroying up to a depth, read after every step and at the end only; and all sequences over a record, database, calculator, batch and outputs made of one another; under the address and undefined-behaviour sanitizers. The reference model is an object built from scratch with the same changes."),
 "H07": chk([run("threads", "sched")], "stateless model checking of two real threads under a controlled scheduler, with partial-order reduction over every memory access", "Every pair of tasks (all models, reactions, failures, settings, copies, loading, units, batches) on two calculators: when no memory word is used by both threads with one writing, all interleavings are equivalent to the two executed; otherwise preemptions at every access to such words (bound two). Preemption at the first call from every call site for state outside the instrumented code."),
 "H08": chk([run("engine")], LATT, "Every calculation path that rests on water, on a temperature lattice below the critical point, first, repeated, without cache and at the explicit pressure."),
 "H09": chk([run("dispatch")], LATT, "Every combination and order of the methods a record may name (minerals, gases, 4 x 4 solvent models, steam, dissolved species in each of them, reactions), each calculated by the engine and by every model of the same kind: the engine has to agree with the named one."),
 "U01": chk([run("units")], "exhaustive enumeration of all ordered pairs and triples of units against an independent table", "All supported units and all compounds of up to two factors; values are a fixed alphabet."),
 "U02": chk([run("units")], GRAM, "All unit expressions up to a size and all token strings up to a length, against an independent recursive-descent evaluator."),
 "S01": chk([run("scalar")], "exhaustive enumeration of all expression trees up to a depth against dual numbers", "Every operator and function at every position of trees of depth two (three in the thorough tier) over an operand alphabet with non-zero derivatives and uncertainties."),
 "S02": chk([run("scalar")], "exhaustive enumeration of all operation chains up to a depth over all statuses", "Definedness is followed through every chain of three (thorough: four) operations; status and message through every way of copying."),
 "S03": chk([run("warn")], LATT, "Messages about limits: every model with every combination of limits given or not on a lattice with the limits themselves and their neighbours; heat capacity intervals with gaps followed by every later step; reactions of every composition of five kinds of components."),
 "D01": chk([run("database")], SEQ, "Every sequence of three (thorough: four) operations from an alphabet of all ways to add, replace, load, access and change records of one kind over two symbols and two versions, and of mixed kinds; all views are compared with a map."),
 "D02": chk([run("database")], SEQ, "Every ordered partition of five (thorough: six) records into loads, each through every combination of loading interfaces, compared with loading them all at once and with the records."),
 "D03": chk([run("parse")], "exhaustive enumeration of all records with one field, two fields and all but one field, in every way of writing them", "All units and lengths of every field, read alone, after full records of every kind and over another record; the expected view is composed field by field from an independent table."),
 "D04": chk([run("database")], "exhaustive enumeration of all triples of elements, all formulas up to a size and all histories of the element table up to a depth", "The formula parser of ChemicalFun is a stand-in (not available offline); what ThermoFun does around it is what is decided."),
 "R01": chk([run("reaction")], GRAM, "All ways of writing a term (names x coefficients x spacing) at every place, all combinations of three (thorough: four) terms over a short list, all pairs of equations on one object."),
 "R02": chk([run("reaction")], LATT, "All reactions of one, two and three species over 22 calculation paths, against the sum of the components evaluated alone on a calculator of their own."),
 "R03": chk([run("reaction")], LATT, "All combinations of general, temperature and pressure method, all subsets of defined reference values, coefficient vectors one at a time."),
 "R04": chk([run("reaction")], LATT, "All coefficients of the defined substance, all other species singly and in pairs, chains of two, six kinds of reaction record."),
 "R05": chk([run("reaction")], LATT, "Independent functions G(T,P) for every model, differentiated numerically in extended precision; every coefficient alone and in pairs, every subset of reference values a three-term record may have; density models on synthetic water of known density function."),
 "T03": chk([run("substance")], LATT, "Every coefficient of the heat capacity equation alone, in pairs and in growing prefixes, one to four intervals, all kinds of transition data, temperatures around every border, three reference temperatures; against numerical quadrature in extended precision."),
 "T04": chk([run("substance")], LATT, "Every mineral model with its coefficients alone and in pairs, over two kinds of heat capacity and varied reference values and conditions, against independent functions G(T,P) differentiated in extended precision, on a lattice that crosses the transitions."),
 "T01": chk([run("substance")], LATT, "Every solid, liquid, dissolved, reaction-defined and ideal-gas record of the shipped databases and of the synthetic library: every edge of its T-P lattice, change of G and H against the integrals of S, Cp and V along the edge (two quadrature orders)."),
 "T06": chk([run("gas")], LATT, "Independent implementations of the pressure equation and departure functions of every gas model on a T-P lattice through all phase regions, parameters varied; for Churakov-Gottschalk the change of H - TS along every isobar and isotherm against the entropy and the integral of the volume."),
 "T08": chk([run("dielectric")], LATT, "Every dielectric model with every density model of water on a T-P lattice over liquid, vapour, fluid and the saturation line: the published equation evaluated independently at the reported density, its derivatives by the chain rule, the Born functions from them, carried derivatives, published values."),
 "T07": chk([run("water")], LATT, "Each implementation on a T-P lattice over liquid, vapour and fluid: thermodynamic relations by finite differences of the reported values, carried derivatives, every derivative of the two Helmholtz functions, the saturation line, IAPWS-95 check values, published transport values, an independent Zhang-Duan equation, and mutual agreement."),
 "T02": chk([run("substance")], LATT, "Every method combination times all combinations of two to four values of each reference property times reference temperatures and pressures."),
 "T05": chk([run("substance")], LATT, "Independent G(T,P) of every dissolved-species model on synthetic solvents of known density and dielectric function, differentiated in extended precision; parameters alone and in pairs, charges -4 to 4; both HKF implementations against one another; the calculator against the model evaluated with the solvent's properties."),
 "T09": chk([run("conv")], LATT, "All pairs of ten apparent and nine water convention names with every triple-point data set, every record of the library on a T-P lattice, by name, by object and on a calculator taken through all settings; against the default convention shifted by constants from the element records and the published triple-point values."),
 "B01": chk([run("batch")], LATT, "All tuples of up to three symbols with all lists of up to three conditions (repeated, saturation, four systems of units), all pairs (thorough: triples) of properties, through every interface, and all sequences of three calculations on one batch; against single queries."),
 "B02": chk([run("batch")], LATT, "Every combination of records, conditions, properties, layout, loop orders, digits, notation, separator and units; the files are parsed back and compared with single queries. All sequences of opening, writing and closing of the plain table writer."),
 "B03": chk([run("batch")], LATT, "All combinations of start, range and step from a decimal alphabet on either axis with five choices of the other, both loop orders; against exact integer arithmetic."),
 "B04": chk([run("batch")], SEQ, "Every sequence of up to three setting operations out of an alphabet of 28, with and without calculations between, against a model of the settings; the written tables are parsed back."),
 "E01": chk([run("robust", "asan")], "exhaustive fault enumeration on the real code under address and undefined-behaviour sanitizers", "Every single fault of the rule in every record, and selected pairs; every combination of method codes with parameter lists of every length and extreme values; documents cut or changed at every place; reactions that define one another; every query at 195 conditions; odd calls of the batch and the parsers. A fault counts when the process crashes, reads or writes outside its data, overflows or does not come to an end.", level="fault_enumeration", rule="every place of a record removed, emptied, of the wrong type, too short, too long, zero, negative, huge, not a number; every document prefix and single-character change"),
}
