"""pyvc: a deductive verifier for the Python of this repository.

core    symbolic values, path context, facts and their instantiation, solver
ops     Python operations on symbolic values
interp  interpreter of the syntax trees, loop cutting
models  models (assumed contracts) of builtins and of external functions
engine  exploration, invariant inference (Houdini), obligations, evidence
"""
