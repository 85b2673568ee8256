SPECIFICATION Spec
CONSTANTS
 N = 2
 M = 2
INVARIANTS Symmetric Zero Self CauchySchwarz Triangle Order KernelD Parallelogram
CHECK_DEADLOCK FALSE
