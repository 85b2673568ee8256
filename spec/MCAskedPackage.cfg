SPECIFICATION Spec
CONSTANTS Models = {1, 2} Datas = {1, 2} Queries = {1, 2} Threads = {1, 2} Depth = 0 Place = "package" Calls = 4
INVARIANTS Undisturbed Kept
CHECK_DEADLOCK FALSE
