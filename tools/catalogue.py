"""The properties: the source of properties.jsonl and MANIFEST.json (run this file to rewrite both)."""

import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

S = "src/wulfric/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), technique="", note=""):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=[S + f for f in files],
                state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                mechanism=[dict(name=a, where=S + b) for a, b in mech],
                observe_at=observe,
                hook_needed=None,
            ),
            technique=technique,
            note=note,
        )
    )


prop(
    "C01",
    "The conventional cell describes the same crystal",
    "For every crystal and each of the three conventions, the returned conventional cell and atoms are the "
    "same infinite crystal, in the same orientation in space (up to one common translation), with every atom "
    "keeping its kind, no atom lost or doubled, and the number of lattice points that the convention's "
    "centring prescribes. The result has one entry of each returned key per atom, and the given cell and "
    "atoms are left as they were.",
    ["inputs", "configurations", "histories"],
    "every crystal (all 530 settings of the space groups, any compatible metric), every description of it "
    "(basis, supercell, origin, order and wrapping of atoms, orientation), every documented form of atoms, "
    "every convention",
    "The tests run the function on a handful of sorted, one-atom or cubic examples and never compare the "
    "returned crystal with the given one.",
    ["crystal/_conventional.py", "_spglib_interface.py", "constants/_hpkot.py", "constants/_sc.py"],
    [
        ("choice of the cell per convention", "crystal/_conventional.py:get_conventional"),
        ("symmetry search", "_spglib_interface.py:get_spglib_data"),
    ],
    ["wulfric.crystal.get_conventional"],
    technique="exhaustive bounded exploration of crystal descriptions (BFS over re-description operations) "
    "on the real code against a crystal-equality model",
    note="Every description inside the stated bounds is executed; the oracle compares infinite crystals from "
    "the definition. Trusts spglib's symmetry database for making the crystals.",
)
prop(
    "C02",
    "The primitive cell describes the same crystal with one lattice point",
    "For every crystal and each convention, the returned primitive cell and atoms are the same infinite "
    "crystal in the same orientation (up to one common translation), with exactly one lattice point in the "
    "cell, every atom keeping its kind and none lost or doubled. The given cell and atoms are left as they "
    "were.",
    ["inputs", "configurations", "histories"],
    "every crystal, every description of it, every documented form of atoms, every convention",
    "No test checks that the primitive atoms are the original crystal; the examples have sorted atoms, so "
    "that order-dependent selection of atoms is never exercised.",
    ["crystal/_primitive.py", "crystal/_conventional.py", "_spglib_interface.py"],
    [
        ("centring matrices", "crystal/_primitive.py:get_primitive"),
        ("removal of equivalent atoms", "crystal/_primitive.py:_get_unique"),
    ],
    ["wulfric.crystal.get_primitive"],
    technique="exhaustive bounded exploration of crystal descriptions (BFS over re-description operations) "
    "on the real code against a crystal-equality model",
    note="As C01, for the primitive cell.",
)
prop(
    "C03",
    "Returned cells satisfy the rules of the convention",
    "The conventional cell satisfies the published conditions of the chosen convention on lengths, angles "
    "and handedness for the Bravais lattice of the crystal, including the ordering of lengths and the "
    "reciprocal-angle conditions of the triclinic lattice, and the primitive cell is the conventional one "
    "times the published centring matrix. This holds whichever description of the crystal was given.",
    ["inputs", "configurations"],
    "every Bravais lattice, every metric compatible with it and every description of the crystal; HPKOT, SC "
    "and spglib conventions",
    "Tests only look at examples that already are in the conventional form, one per Bravais lattice.",
    ["crystal/_conventional.py", "crystal/_primitive.py", "constants/_hpkot.py", "constants/_sc.py"],
    [
        ("SC rules", "crystal/_conventional.py:_sc_get_conventional_oPFI/_oC/_m/_a/_hR/_no_hR"),
        ("HPKOT triclinic rule", "crystal/_conventional.py:_hpkot_get_conventional_a"),
        ("centring matrices", "constants/_hpkot.py, constants/_sc.py"),
    ],
    ["wulfric.crystal.get_conventional", "wulfric.crystal.get_primitive"],
    technique="exhaustive bounded exploration of lattices and their descriptions on the real code against the "
    "published rules",
    note="Rules and matrices were frozen from the papers, not from the code.",
)
prop(
    "C04",
    "Results depend on the crystal, not on how it is described",
    "Two descriptions of one crystal (another basis or supercell, order or wrapping of atoms, origin, "
    "orientation in space, names of kinds) give conventional and primitive cells with the same lengths and "
    "angles and number of atoms, the same extended symbol or variation, the same default path and the same "
    "set of high-symmetry point lengths. Feeding a returned conventional or primitive crystal back changes "
    "nothing either.",
    ["inputs", "histories"],
    "every crystal of the universe and every chain of re-description operations up to the depth, including "
    "chains that go through the library's own conventional and primitive cells",
    "It is a relation between runs on different inputs; tests check single inputs.",
    ["crystal/_conventional.py", "crystal/_primitive.py", "crystal/_sc_variation.py",
     "crystal/_hpkot_extended_bl_symbol.py", "kpoints/_path_and_points.py", "_spglib_interface.py"],
    [("everything the path of a crystal goes through", "kpoints/_path_and_points.py:get_path_and_points")],
    ["wulfric.crystal.*", "wulfric.kpoints.get_path_and_points"],
    technique="BFS over re-description operations (state merging), invariants compared on both ends of every edge",
    note="Differential: no expected values are written by hand.",
)
prop(
    "C05",
    "Symmetry information is faithful",
    "The symmetry data reports the space group, crystal family, centring, Bravais lattice type and presence "
    "of inversion that the crystal has, its conventional and primitive cells describe the given crystal, and "
    "two atoms share a kind or an orbit exactly when the input says so. A tolerance given by the user is the "
    "one used.",
    ["inputs", "configurations"],
    "all 230 space groups in all 530 settings, every documented form of the atoms, tolerances on both sides of "
    "a distortion",
    "Tests cover a few structures and never the full table of 230 groups or the distortion on both sides of a "
    "tolerance.",
    ["_spglib_interface.py", "constants/_space_groups.py", "constants/_bravais_lattices.py"],
    [("call to the symmetry search and the derived data", "_spglib_interface.py:get_spglib_data, SpglibData")],
    ["wulfric.get_spglib_data", "wulfric.get_spglib_types", "wulfric.SpglibData"],
    technique="exhaustive enumeration of all 530 Hall settings and input forms on the real code against group tables",
    note="The group-theoretic classification was written from the International Tables, independently of the code.",
)
prop(
    "C06",
    "High-symmetry points and paths are the published ones",
    "For every crystal the high-symmetry points and the default k-path of the HPKOT and SC conventions are "
    "those published for its extended Bravais symbol or variation: same names, same coordinates in the "
    "reciprocal space of the crystal as it sits in space, same path. Every point of the path has coordinates, "
    "and the points lie on or inside the Brillouin zone where the publication places them there.",
    ["inputs", "configurations"],
    "all 24 extended HPKOT symbols and all SC variations, with and without inversion, every metric and "
    "description in the bounds",
    "Tests check lengths of constant tables and a few symbols; a wrong sign in one of the ~200 coordinate "
    "formulas is invisible to them.",
    ["kpoints/_hpkot_points.py", "kpoints/_sc_points.py", "kpoints/_path_and_points.py",
     "constants/_hpkot.py", "constants/_sc.py"],
    [
        ("tables of points", "kpoints/_hpkot_points.py:_hpkot_get_points, kpoints/_sc_points.py:_sc_get_points"),
        ("default paths", "constants/_hpkot.py, constants/_sc.py"),
    ],
    ["wulfric.kpoints.get_path_and_points"],
    technique="exhaustive enumeration of lattice variations on the real code against frozen published tables "
    "and a Brillouin zone model",
    note="The tables were frozen after comparing them with symmetry and zone geometry; transcription is trusted.",
)
prop(
    "C07",
    "Time reversal and missing inversion extend the path as published",
    "When the crystal has inversion or time reversal is kept, the points and path are the plain ones; when "
    "both are absent every point other than Gamma gets a primed partner at minus its coordinates, and the "
    "path is followed by its primed copy. Nothing else changes.",
    ["inputs", "configurations"],
    "every Bravais variation, every space group with and without inversion, both values of the time reversal "
    "switch, both conventions",
    "Tests use one or two crystals without inversion.",
    ["kpoints/_path_and_points.py"],
    [("primed points and path", "kpoints/_path_and_points.py:get_path_and_points")],
    ["wulfric.kpoints.get_path_and_points", "wulfric.Kpoints.from_crystal"],
    technique="exhaustive enumeration of settings x switches on the real code against a model of the extension",
)
prop(
    "C08",
    "Coordinates are given in the basis that is asked for",
    "Relative coordinates of high-symmetry points times the reciprocal cell of the given cell are the "
    "absolute ones, for any description of the crystal, and the k-point object built from a crystal has that "
    "reciprocal cell, those points, labels and path. Convention names are accepted in any letter case and "
    "unknown ones are rejected.",
    ["inputs", "configurations"],
    "every description of every crystal of the universe, relative and absolute, both conventions and both "
    "values of the time reversal switch",
    "Tests pass conventional or primitive cells, where the bases coincide; here the given cell differs from "
    "both by a rotation, a supercell or a sheared basis.",
    ["kpoints/_path_and_points.py", "_kpoints_class.py", "constants/_kpoints.py"],
    [
        ("conversion of coordinates", "kpoints/_path_and_points.py:get_path_and_points"),
        ("construction from a crystal", "_kpoints_class.py:Kpoints.from_crystal"),
    ],
    ["wulfric.kpoints.get_path_and_points", "wulfric.Kpoints.from_crystal"],
    technique="BFS over re-description operations on the real code, relation checked in every state",
)
prop(
    "C09",
    "A k-path object stays consistent through any sequence of edits",
    "After any sequence of adding and removing points, setting the path and the number of points, copying and "
    "failing operations, the path, labels, ticks, points and flat points are those of the current points, "
    "path and number of points, whatever was asked before. An operation that fails leaves the object as it "
    "was, and a copy is independent of its original.",
    ["histories"],
    "all operation sequences over the public interface up to the stated depth, from several initial objects, "
    "with and without reading the object between the operations",
    "Tests read freshly built objects; consistency after edits depends on histories.",
    ["_kpoints_class.py", "kpoints/_path_and_points.py"],
    [
        ("edits", "_kpoints_class.py:Kpoints.add_hs_point, remove_hs_point, path, n, copy"),
        ("derived quantities", "_kpoints_class.py:Kpoints.labels, ticks, points, flat_points, hs_table"),
    ],
    ["wulfric.Kpoints"],
    state=[("points, path, n", "what every other quantity is derived from", "_kpoints_class.py:Kpoints.__init__")],
    technique="explicit-state BFS over operation histories of the real object against a reference model",
)
prop(
    "C10",
    "Path strings and path lists are two forms of one path",
    "Turning a path list into a string and back gives the same list, and a string denotes the list its dashes "
    "and bars spell, so that malformed strings are never silently given another meaning. Points that a path "
    "names but that are not defined are rejected.",
    ["inputs"],
    "all lists of up to 3 sections of up to 3 names over an alphabet with multi-character and primed names, "
    "and all strings over an alphabet of names, dashes and bars up to the stated length",
    "Tests and doctests parse a few strings.",
    ["kpoints/_path_and_points.py", "_kpoints_class.py"],
    [("conversion", "kpoints/_path_and_points.py:get_path_as_list, get_path_as_string")],
    ["wulfric.kpoints.get_path_as_list", "wulfric.kpoints.get_path_as_string", "wulfric.Kpoints.path"],
    technique="exhaustive enumeration of strings and lists up to a length on the real code against a model parser",
)
prop(
    "C11",
    "Symbols and variations follow the published conditions; examples match them",
    "The SC variation and the extended HPKOT symbol of a crystal are decided by the published inequalities on "
    "its parameters, on both sides of every boundary and on the boundary where the publication assigns it. "
    "Every named example has the symbol or variation it is named after, and the documented constructors give "
    "cells with the requested parameters or reject those that do not form the lattice.",
    ["inputs", "configurations"],
    "every Bravais lattice, parameters on a grid that covers every variation and approaches each boundary "
    "from both sides, every description of the lattice; every example name in any letter case",
    "Tests check each example once, far away from boundaries.",
    ["crystal/_sc_variation.py", "crystal/_hpkot_extended_bl_symbol.py", "cell/_sc_examples.py",
     "crystal/_hpkot_examples"],
    [
        ("variation", "crystal/_sc_variation.py:sc_get_variation"),
        ("extended symbol", "crystal/_hpkot_extended_bl_symbol.py:hpkot_get_extended_bl_symbol"),
    ],
    ["wulfric.crystal.sc_get_variation", "wulfric.crystal.hpkot_get_extended_bl_symbol",
     "wulfric.cell.SC_*", "wulfric.cell.sc_get_example", "wulfric.crystal.hpkot_get_example"],
    technique="exhaustive enumeration of parameter grids around every boundary on the real code against the published conditions",
)
prop(
    "C12",
    "The Niggli cell is the unique reduced basis of the lattice",
    "The Niggli cell generates exactly the lattice of the given cell and satisfies all Niggli conditions, so "
    "that any two bases of one lattice give the same result. The reduction terminates for every cell with "
    "non-zero volume, both implementations agree and a cell without volume is rejected.",
    ["inputs"],
    "every lattice with metric entries on a grid that includes all equalities of the conditions, every basis "
    "of it up to the stated entries of the unimodular matrices, both implementations",
    "Tests reduce the one example of the paper.",
    ["cell/_niggli.py"],
    [("reduction", "cell/_niggli.py:get_niggli")],
    ["wulfric.cell.get_niggli"],
    technique="exhaustive enumeration of lattices and bases on the real code against exact Niggli conditions",
)
prop(
    "C13",
    "Wigner-Seitz cell and Brillouin zone are the Voronoi cells of their lattices",
    "The returned vertices and edges are exactly those of the polyhedron of points closer to the origin than "
    "to any other point of the (reciprocal) lattice, whichever basis of the lattice is given. The list of "
    "lattice points of a range holds each point of the range exactly once.",
    ["inputs"],
    "lattices of all 14 types and all five Fedorov polyhedra, strongly skewed bases of them, orientation and "
    "handedness; all ranges up to the bound",
    "Tests compare a few counts of edges and vertices for reduced cells.",
    ["cell/_voronoi.py"],
    [("Voronoi cell", "cell/_voronoi.py:_get_voronoi_cell"), ("lattice points", "cell/_voronoi.py:get_lattice_points")],
    ["wulfric.cell.get_wigner_seitz_cell", "wulfric.cell.get_brillouin_zone", "wulfric.cell.get_lattice_points"],
    technique="exhaustive enumeration of lattices x bases on the real code against a half-space model of the cell",
)
prop(
    "C14",
    "Cell algebra is exact: parameters, reciprocal cell, products, transformations",
    "Lengths and angles that form a cell give a cell with these lengths and angles in the documented "
    "orientation and those that do not are rejected; parameters and scalar products read from any cell are "
    "the true ones. Reciprocal and direct vectors satisfy a_i b_j = 2 pi delta_ij, the reciprocal of the "
    "reciprocal is the cell, and the transformation matrix between two cells maps one onto the other.",
    ["inputs"],
    "all six parameters on grids on both sides of every condition of validity, cells of either handedness in "
    "several orientations and scales, every pair of cells of the universe, list, tuple and array inputs",
    "Tests sample random cells with an assertion on a few of them and never the invalid parameters.",
    ["cell/_basic_manipulation.py", "geometry/_geometry.py"],
    [("conversions", "cell/_basic_manipulation.py")],
    ["wulfric.cell.from_params", "wulfric.cell.get_params", "wulfric.cell.get_reciprocal",
     "wulfric.cell.get_scalar_products", "wulfric.cell.get_transformation_matrix"],
    technique="exhaustive enumeration of a grid of parameters and cells on the real code against vector-algebra models",
)
prop(
    "C15",
    "Comparison with tolerance is one consistent order",
    "For every pair of numbers and every tolerance exactly one of less, equal and greater holds, the other "
    "conditions are their combinations, and equality holds exactly within the tolerance that was given or "
    "derived from the relative and absolute ones. Unknown conditions are rejected.",
    ["inputs"],
    "all pairs of a grid of exactly representable numbers, all tolerances of a grid including zero and those "
    "exactly equal to a difference, all conditions",
    "Tests have a dozen hand-picked triples.",
    ["_numerical.py"],
    [("comparison", "_numerical.py:compare_with_tolerance")],
    ["wulfric.compare_with_tolerance"],
    technique="exhaustive enumeration of a grid of exactly representable numbers on the real code against exact rationals",
)
prop(
    "C16",
    "Geometric primitives agree with exact geometry",
    "Volumes, angles between vectors, spherical angles and the test of whether six parameters form a "
    "parallelepiped agree with exact geometry for every input, in degrees and in radians, in every accepted "
    "form of the arguments. Undefined cases are rejected instead of answered.",
    ["inputs"],
    "all vectors with small integer components and scales, all combinations of polar axis and zero direction, "
    "all six-tuples of a grid of lengths and angles on both sides of every inequality",
    "Tests sample random vectors with the same formula as the code.",
    ["geometry/_geometry.py"],
    [("geometry", "geometry/_geometry.py")],
    ["wulfric.geometry.*"],
    technique="exhaustive enumeration of integer vector grids on the real code against exact integer geometry",
)
prop(
    "C17",
    "Atom species, names and kinds are derived consistently",
    "A name whose element symbol can be told gives that element and any other name gives the unknown species "
    "or an error on request. Names made unique are pairwise different, one per atom, and keep what the chosen "
    "strategy promises to keep; kinds partition the atoms exactly as the given kinds, species or names do.",
    ["inputs"],
    "all names up to three characters over the letters and digits that occur in element symbols, all name "
    "lists up to the stated length over a colliding alphabet, both strategies, all forms of atoms",
    "Tests use a few names per element; collisions between made-up and existing names need particular lists.",
    ["crystal/_atoms.py", "_spglib_interface.py"],
    [("species and names", "crystal/_atoms.py"), ("kinds", "_spglib_interface.py:get_spglib_types")],
    ["wulfric.crystal.get_atom_species", "wulfric.crystal.get_atoms_species",
     "wulfric.crystal.get_unique_names", "wulfric.get_spglib_types"],
    technique="exhaustive enumeration of names and name lists on the real code against a periodic-table model",
)
prop(
    "C18",
    "Moving atoms keeps the crystal, and vectors between atoms are the true ones",
    "Shifting moves all atoms by one common vector so that the documented middle lands on the requested point, "
    "removing negative coordinates or putting an atom to the origin changes the crystal by a common "
    "translation only, and the vector and distance between two atoms of any cells are those in space. "
    "Everything else stored with the atoms stays with its atom.",
    ["inputs"],
    "all small sets of positions on a grid with positions outside of the cell and negative ones, several "
    "cells, all pairs of atoms and cells, relative and absolute",
    "Tests use a few configurations; the interplay of wrapping, negative values and several atoms is not sampled.",
    ["crystal/_basic_manipulation.py"],
    [("moving atoms", "crystal/_basic_manipulation.py")],
    ["wulfric.crystal.shift_atoms", "wulfric.crystal.cure_negative", "wulfric.crystal.ensure_000",
     "wulfric.crystal.get_vector", "wulfric.crystal.get_distance"],
    technique="exhaustive enumeration of small position sets on the real code against a crystal model",
)
prop(
    "C19",
    "POSCAR files are read and written faithfully",
    "A crystal that is written and read again is the same crystal to the written precision, for any order of "
    "kinds, and the written file is a valid file of the format. Reading gives the meaning the format defines "
    "for every combination of scale factors, coordinate mode, element line and selective dynamics; a file cut "
    "after any line is rejected or, where only optional parts are lost, read as what is left.",
    ["inputs", "crash_points", "configurations"],
    "every combination of the format's alternatives, every sequence of kinds up to the bound, every line "
    "prefix of each file, files given as path, directory or open stream",
    "There are no tests of the file interface.",
    ["io/_vasp.py"],
    [("reader", "io/_vasp.py:load_poscar"), ("writer", "io/_vasp.py:dump_poscar")],
    ["wulfric.io.load_poscar", "wulfric.io.dump_poscar"],
    technique="exhaustive enumeration of format alternatives, kind sequences and truncation points on the real "
    "code against a reference writer and reader",
)
prop(
    "C20",
    "A rejected request to write a file leaves an existing file as it was",
    "When the arguments of a dump are not acceptable the call fails and a file that was there before keeps its "
    "content; nothing is created where no file was. A successful dump replaces the content completely.",
    ["fault_sequences", "histories"],
    "every kind of bad argument, alone and in pairs, against absent, shorter and longer existing files, and "
    "all sequences of good and bad dumps up to the depth",
    "There are no tests of the file interface.",
    ["io/_vasp.py"],
    [("checks before the file is opened", "io/_vasp.py:dump_poscar")],
    ["wulfric.io.dump_poscar"],
    technique="enumeration of fault combinations and dump sequences on the real code against a file model",
)
prop(
    "C21",
    "Results are pure: nothing the library returned or was given is changed later",
    "No call changes its arguments, except those documented to change them, and the answer of a call does not "
    "depend on the calls made before it. Changing what a call returned never changes what the library will "
    "answer later.",
    ["histories"],
    "all sequences of public calls up to the depth that share one crystal, one symmetry data object and the "
    "library's constants, with every returned object scribbled over between the calls",
    "Each test makes a single call on fresh data.",
    ["crystal/_conventional.py", "crystal/_primitive.py", "_spglib_interface.py", "kpoints/_path_and_points.py",
     "_kpoints_class.py", "constants", "crystal/_hpkot_examples"],
    [("copies of arguments, shared data and constants", "crystal/_conventional.py, crystal/_primitive.py, _spglib_interface.py")],
    ["public functions of wulfric"],
    state=[("shared symmetry data and module constants", "reused between calls", "_spglib_interface.py:SpglibData, constants/")],
    technique="exhaustive exploration of call sequences with adversarial mutation of every returned object on the real code",
)
prop(
    "C22",
    "Reused symmetry data give the same answers, and foreign data are rejected",
    "Every function that accepts precomputed symmetry data gives with it the answer it would compute itself, "
    "and data computed with another tolerance decide the answer. Data of another cell, other positions or "
    "other kinds of atoms are rejected.",
    ["inputs", "histories"],
    "all functions that accept the data, all conventions, crystals of all settings; every single-entry change "
    "of the cell, positions and kinds, above and below what counts as a change",
    "Tests do not pass precomputed data to most of the functions and never foreign data.",
    ["_spglib_interface.py", "crystal/_conventional.py", "crystal/_primitive.py", "crystal/_sc_variation.py",
     "crystal/_hpkot_extended_bl_symbol.py", "kpoints/_path_and_points.py", "_kpoints_class.py"],
    [("validation", "_spglib_interface.py:validate_spglib_data")],
    ["functions with spglib_data", "wulfric.validate_spglib_data"],
    technique="exhaustive enumeration of functions x settings x single-entry perturbations on the real code, differential",
)
prop(
    "C23",
    "A sugared dictionary is the same dictionary",
    "A dictionary with syntactic sugar behaves as the plain dictionary with the same content under any "
    "sequence of operations, by item and by attribute alike. Adding sugar shares no top-level state with the "
    "plain dictionary, and removing it returns the content.",
    ["histories"],
    "all sequences of item and attribute reads, writes, deletions, copies and merges up to the depth, over keys "
    "that do and do not collide with the methods of a dictionary",
    "Doctests show one attribute read and one write.",
    ["_syntactic_sugar.py"],
    [("attribute access", "_syntactic_sugar.py:SyntacticSugar")],
    ["wulfric.add_sugar", "wulfric.remove_sugar", "wulfric.SyntacticSugar"],
    technique="explicit-state BFS over operation histories of the real object against a dictionary model",
)
prop(
    "C24",
    "The plot contains what was asked for and its ranges cover it",
    "After any sequence of plotting calls the figure's ranges cover every point that was plotted, with equal "
    "scale on the three axes, and the figure contains the points, lines, cells, zones and paths that were "
    "asked for at the right coordinates. Objects that were given are not changed.",
    ["histories", "inputs"],
    "all sequences of plotting calls up to the depth over a menu that reaches each method and option",
    "There are no tests of plotting.",
    ["_plotly_engine.py"],
    [("ranges", "_plotly_engine.py:PlotlyEngine._update_range"), ("methods", "_plotly_engine.py:PlotlyEngine.plot_*")],
    ["wulfric.PlotlyEngine.fig"],
    state=[("ranges", "smallest and largest plotted value of every axis", "_plotly_engine.py:PlotlyEngine.__init__")],
    technique="exhaustive exploration of sequences of plotting calls on the real object against a model of the scene",
)
prop(
    "C25",
    "Atoms are validated exactly by the documented rules",
    "A dictionary of atoms is accepted if and only if it follows the documented rules on presence, length, "
    "shape and type of its entries, and a rejected one raises the documented error or, on request, is "
    "reported by the returned value. Functions that take atoms reject what the rules reject.",
    ["inputs"],
    "all combinations of valid and invalid values of every documented key, alone and in pairs, and all sets "
    "of required keys",
    "Tests cover each rule with one example and not their combinations.",
    ["crystal/_crystal_validation.py"],
    [("validation", "crystal/_crystal_validation.py:validate_atoms")],
    ["wulfric.crystal.validate_atoms"],
    technique="exhaustive enumeration of combinations of entries on the real code against a reference validator",
)


prop(
    "C26",
    "Calls that overlap, or are broken off, do not disturb each other",
    "Calls that run at the same time in several threads, on the same or on different arguments, give the answers "
    "each gives alone, whatever the interleaving. A call that is broken off at any point leaves its arguments and "
    "all later answers as they were, no call leaves a process-wide setting changed, and the answers are the same "
    "in every process.",
    ["schedules", "crash_points"],
    "all interleavings of two calls with one preemption, and with two for short calls; every point of every call "
    "at which it can be broken off; processes that walk sets and hashes in different orders",
    "Tests run one call at a time to its end, in one process.",
    ["_kpoints_class.py", "kpoints/_path_and_points.py", "crystal/_conventional.py", "crystal/_primitive.py",
     "_spglib_interface.py", "cell", "geometry/_geometry.py"],
    [("calls work on their own copies, without shared scratch data", "crystal/_conventional.py, crystal/_primitive.py, kpoints/_path_and_points.py"),
     ("kinds are numbered in the order of sorted names", "_spglib_interface.py:get_spglib_types")],
    ["public functions of wulfric", "wulfric.Kpoints"],
    state=[("shared arguments and module constants", "read by calls that overlap", "_kpoints_class.py:Kpoints, constants/")],
    technique="stateless exploration of all interleavings of two real calls up to a preemption bound under a controlled "
    "scheduler, of all points at which a call is broken off, and of hash orders",
)


prop(
    "C27",
    "Nothing depends on the unit of length",
    "The same crystal written in another unit of length, with tolerances that are lengths converted as well, gives "
    "the same answers converted: cells, points and zones scale, while symbols, variations, paths, relative "
    "coordinates, angles and numbers of atoms are the same. Functions without a tolerance scale exactly.",
    ["inputs"],
    "every crystal, lattice and vector of the universe and every change of the unit of the stated list",
    "Tests fix one unit; every test case would need a twin in another one.",
    ["crystal/_conventional.py", "crystal/_primitive.py", "crystal/_sc_variation.py", "crystal/_hpkot_extended_bl_symbol.py",
     "kpoints/_path_and_points.py", "cell/_basic_manipulation.py", "cell/_niggli.py", "cell/_voronoi.py",
     "geometry/_geometry.py", "_kpoints_class.py"],
    [("tolerances", "crystal/_sc_variation.py, crystal/_primitive.py, cell/_niggli.py, cell/_voronoi.py")],
    ["public functions of wulfric"],
    technique="exhaustive enumeration of crystals, cells and vectors x changes of the unit on the real code, differential",
)

prop(
    "C28",
    "The environment of the process does not decide the answers, and calls leave nothing behind",
    "Answers are the same for every locale, flag of the interpreter (-O, -OO), numpy print and error setting, warning filter, "
    "working directory (even a removed one) and thread. Without an optional package the calls that do not need it "
    "work and the others raise ImportError naming it. No call, failing ones included, leaves an open file, thread, "
    "process or file behind.",
    ["configurations", "histories"],
    "every subset of missing packages x flag x locale x mode of the process, each with every call of the menu; every "
    "call and every pair of calls on files, with the exceptions kept",
    "Tests run in one environment: the plain interpreter, all packages, UTF-8, the main thread.",
    ["io/_vasp.py", "cell/_voronoi.py", "_spglib_interface.py", "_plotly_engine.py", "geometry/_geometry.py", "_exceptions.py",
     "crystal/_hpkot_examples/__init__.py", "kpoints/_path_and_points.py"],
    [("packages that are imported on demand", "cell/_voronoi.py, _spglib_interface.py, _plotly_engine.py"),
     ("files opened by a call", "io/_vasp.py")],
    ["public functions of wulfric", "wulfric.PlotlyEngine", "wulfric.Kpoints"],
    technique="exhaustive enumeration of process configurations and of call histories on the real code",
)
prop(
    "C29",
    "What wulfric returns and raises can be copied, stored and sent to another process",
    "Symmetry data, k-path objects, sugared dictionaries, cells, atoms, plots and exceptions survive every sequence of "
    "copies and pickles: the result has the same type, values, behaviour and (for exceptions) message, it is independent "
    "of the original unless the copy is shallow, and calls made in the processes of a pool give the same answers.",
    ["histories", "inputs"],
    "every object of the universe after every sequence of round trips, and every edit before and after a round trip",
    "Tests compare an object with itself, in one process; none of them copies or stores one.",
    ["_spglib_interface.py", "_kpoints_class.py", "_syntactic_sugar.py", "_exceptions.py", "_plotly_engine.py"],
    [("state of the k-path object", "_kpoints_class.py"), ("sugared dictionary", "_syntactic_sugar.py"),
     ("arguments of exceptions", "_exceptions.py")],
    ["wulfric.Kpoints", "wulfric.get_spglib_data", "wulfric.add_sugar", "wulfric.PlotlyEngine", "wulfric exceptions"],
    technique="exhaustive enumeration of sequences of round trips and edits on the real objects",
)


def main():
    py = "/opt/venv/bin/python -W ignore check.py"
    checks, na = [], []
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("technique", "note")}
            if not q["anchors"]["state"]:
                del q["anchors"]["state"]
            f.write(json.dumps(q) + "\n")
            path = os.path.join(VERIF, "mc", "props", p["id"].lower() + ".py")
            if not os.path.exists(path):
                na.append(dict(property=p["id"], reason="no check has been built yet"))
                continue
            info = importlib.import_module(f"mc.props.{p['id'].lower()}").INFO
            note = "Quick: " + info["space"]["quick"] + "."
            if info["space"].get("thorough"):
                note += " Thorough: " + info["space"]["thorough"] + "."
            if info.get("assumptions"):
                note += " Assumes: " + "; ".join(info["assumptions"]) + "."
            if p["note"]:
                note += " " + p["note"]
            checks.append(
                dict(
                    property=p["id"],
                    quick_cmd=f"{py} {p['id']} --tier quick",
                    thorough_cmd=f"{py} {p['id']} --tier thorough",
                    evidence_file=f"evidence/{p['id']}.json",
                    technique="model checking: " + p["technique"],
                    level=info["level"],
                    level_note=note,
                )
            )
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -W ignore -c 'import numpy, spglib, scipy, plotly'",
        checks=checks,
        not_applicable=na,
    )
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
