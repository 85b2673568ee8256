SPECIFICATION Spec
CONSTANTS MaxAttrs = 2
INVARIANTS Symmetric Reflexive StrictIsLoose SetAlgebra
