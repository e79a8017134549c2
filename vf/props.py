"""Which harness files, rules and levels belong to which property."""
VF = ("gated value-flow analysis over LLVM IR (abstract interpretation in a polynomial value-number domain, joins at "
      "postdominators): every value the specification unit names must have the normal form the specification gives it, for "
      "all inputs of the unit; every load and store within its object; every heap block released exactly once")
PYTECH = "static abstract interpretation of the Python/Cython source (syntax tree) with BDD path guards over an unknown file system"
PY = ("The syntax tree of the import package (or binding) is interpreted abstractly: file existence, modification times, file contents, exit "
      "codes and argument values are unknowns, every value and effect carries its path guard as a BDD; each obligation is an implication "
      "between guards, or equality of the symbolic texts, on all paths.")
PYNOTE = ("All orders of modification times, exit codes and file states are covered by the guards; configurations and include trees are "
          "enumerated (a synthetic tree with cycle and diamond, and all classes of the real tree). No code of /repo is executed.")
PYASM = ["modification times are totally ordered and only compared", "os, re, glob, hashlib, configparser and importlib meet their "
         "documentation; sha256 has no collisions"]
SCRTECH = "constant propagation over the scripts' syntax trees; compile-time witnesses (cython translation and compiler type check) for the instances"
PYSCR = ("every configuration a shipped script, notebook or C++ driver denotes is a well-typed instance of the library (module generated, "
         "translated and type-checked, in debug and release mode), and every call on the resulting class fits a signature of its binding; "
         "every shipped domain file passes the demands of the reader, and the programs that name one are configured for its dimensions")
SCRNOTE = ("Configurations are those reachable by constant propagation from the scripts' own loops; the quick tier checks one polynomial degree of each, "
           "the thorough tier all. Submodules are replaced by stand-ins. No code of /repo is executed.")
SCRASM = ["tpp and tpcc offer the interfaces of the stand-ins under harness/stubs"]
LSOL = ["lsol_%s.cxx" % x for x in ("uniform", "diffusion", "eigs", "parab", "biuniform", "bilap", "bieigs", "biparab", "ip", "pp", "dar", "timo", "adv")]
PROPS = {
    "P01": dict(harness=["dense.cxx"], rule=VF),
    "P02": dict(harness=["dense.cxx"], rule=VF),
    "P03": dict(harness=["dense.cxx"], rule=VF),
    "P04": dict(harness=["dense.cxx"], rule=VF),
    "P05": dict(harness=["dense.cxx"], rule=VF),
    "P06": dict(harness=["graph.cxx"], rule=VF),
    "P07": dict(harness=["graph.cxx"], rule=VF),
    "P08": dict(harness=["graph.cxx", "loops.cxx"], rule=VF),
    "P10": dict(harness=["loops.cxx"], rule=VF),
    "P11": dict(harness=["loops.cxx"], rule=VF),
    "P12": dict(harness=["loops.cxx"], rule=VF),
    "P13": dict(harness=["loops.cxx"], rule=VF),
    "P14": dict(harness=["loops.cxx"], rule=VF),
    "P15": dict(harness=["domain.cxx"], rule=VF),
    "P16": dict(harness=["domain.cxx"], rule=VF),
    "P17": dict(harness=["numeric.cxx"], rule=VF),
    "P09": dict(harness=["topo.cxx"], rule=VF),
    "P18": dict(harness=["topo.cxx"], rule=VF),
    "P19": dict(harness=["topo.cxx"], rule=VF),
    "P24": dict(harness=LSOL, rule=VF),
    "P25": dict(harness=LSOL, rule=VF),
    "P29": dict(harness=LSOL, rule=VF),
    "P33": dict(harness=["params_%s.cxx" % x for x in ("diffusion", "examples", "bilaplacian", "dar", "advection")], rule=VF),
    "P34": dict(harness=["fit_%s.cxx" % x for x in ("uniform", "diffusion", "eigs", "parab", "biuniform", "bilap", "bieigs", "biparab", "ip", "pp", "dar", "timo", "adv")], rule=VF),
    "P20": dict(harness=["numeric.cxx"], rule=VF),
    "P21": dict(harness=["plot.cxx"], rule=VF),
    "P22": dict(harness=["plot.cxx"], rule=VF),
    "P23": dict(harness=["plot.cxx"], rule=VF),
    "P26": dict(python=["pyjit:decision"], rule=PY, technique=PYTECH, note=PYNOTE, assumptions=PYASM),
    "P27": dict(python=["pyjit:sources"], rule=PY, technique=PYTECH, note=PYNOTE, assumptions=PYASM),
    "P35": dict(python=["pyscripts:programs"], rule=PYSCR, technique=SCRTECH, note=SCRNOTE, assumptions=SCRASM),
    "P36": dict(harness=["asserts.cxx"], python=["asserts:assertions"], rule=VF + "; effect analysis: no hy_assert of the library, in its condition, its message or the "
                "library functions these call, writes to anything that outlives it", technique="static effect analysis of all assertions (source text, call graph of the library); "
                "gated value-flow analysis over LLVM IR for the assertion itself",
                note="All assertions of include/ are inspected; calls are resolved by name, and a name counts as writing only if each of its definitions "
                "does. No code of /repo is executed.", assumptions=["members of standard classes that are not on the list of modifying ones do not modify"]),
    "P28": dict(python=["pybind:bindings"], rule=PY, technique=PYTECH + "; compile-time witness for the declarations", note=PYNOTE,
                assumptions=PYASM),
}
for k, v in PROPS.items():
    v.setdefault("level", "other")
TECH = "static value-flow analysis (abstract interpretation over LLVM IR, polynomial value numbering)"
NOTE = ("Sound for the listed template instances and connectivities, all data values symbolic: every obligation is decided on "
        "the normal form of the value flow through the current source; sizes, connectivities and configurations outside the "
        "enumerated instances are not covered. Floating point is read as real arithmetic. No code of /repo is executed.")
