SPECIFICATION GenSpec
CONSTANTS Models = {1, 2, 3} Datas = {1, 2} Queries = {1, 2, 3} Threads = {1, 2, 3, 4, 5} Depth = 7 Place = "call" Calls = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
