from . import geom, model, lemmas, arith, jac, mass, tree, state, wrap, parse, build, ctor, export
CONTRACTS = geom.CONTRACTS + model.CONTRACTS + jac.CONTRACTS + mass.CONTRACTS + tree.CONTRACTS + state.CONTRACTS + wrap.CONTRACTS + parse.CONTRACTS + build.CONTRACTS + ctor.CONTRACTS + export.CONTRACTS
THEOREMS = jac.THEOREMS + state.THEOREMS + export.THEOREMS
