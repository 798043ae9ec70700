import solver_checks as S
import order_checks as O
import entry_checks as E
import mem_checks as Y
import pool_checks as Q
import container_checks as K
import grid_checks as G
import graph_checks as GR
import num_checks as N
MC = "model_checking"
TLA_REC = "TLA+ contract of the search (spec/SolverContract.tla) evaluated by TLC on the answers of the real solvers"
NOTE_REC = "Every answer of the real solvers on every generated instance is judged by TLC against the specification; exhaustive over all small wall patterns named in DESIGN.md, sampled (seeded) beyond. Trusts the harness that converts coordinates and TLC."
CHECKS = {
    "S01": (S.s01, MC),
    "S02": (S.s02, MC),
    "S03": (S.s03, MC),
    "S04": (S.s04, MC),
    "S05": (S.s05, MC),
    "S06": (O.s06, MC),
    "S07": (S.s07, MC),
    "S08": (Y.s08, MC),
    "S09": (E.s09, MC),
    "S10": (Y.s10, MC),
    "S11": (Y.s11, MC),
    "M01": (Q.pools, MC),
    "M02": (Q.pools, MC),
    "M03": (Q.pools, MC),
    "C01": (K.c01, MC),
    "C02": (K.c02, MC),
    "C03": (K.c03, MC),
    "G01": (G.g01, MC),
    "G02": (G.g02, MC),
    "G03": (GR.g03, MC),
    "G04": (GR.g04, MC),
    "H01": (N.h01, MC),
    "U01": (N.u01, MC),
    "U02": (N.u02, MC),
    "X01": (O.x01, MC),
    "X02": (O.x02, MC),
    "X03": (O.x03, MC),
    "X04": (O.x04, MC),
}
NOTES = {k: (TLA_REC, NOTE_REC) for k in ("S01", "S02", "S03", "S04", "S07")}
NOTES["S05"] = ("TLA+ contract of jump point routes (spec/JpsContract.tla) evaluated by TLC on the answers of the real solvers", NOTE_REC)
for k in ("S01", "S02", "S05"):
    NOTES[k] = (NOTES[k][0] + "; large mazes have their answers in closed form (spec/Halls.tla)", NOTES[k][1])
NOTES["S07"] = (TLA_REC + "; the memory-bounded algorithms are model-checked at every limit (spec/MGStar.tla, spec/SMAStar.tla)", NOTE_REC)
ORD = "Recorded expansion orders of the real solvers validated by TLC as behaviours of the search state machine (%s), which TLC also checks exhaustively on every small maze"
NOTE_ORD = "The maze handed to the solver records which cells are asked for their neighbours; every recorded search must be a behaviour of the state machine. The machine itself is model-checked on all wall patterns and pairs of ends of small shapes. Recorded mazes are sampled (seeded)."
NOTES["S06"] = (ORD % "spec/Search.tla", NOTE_ORD)
NOTES["X01"] = (ORD % "spec/Search.tla", NOTE_ORD)
NOTES["X02"] = (ORD % "spec/Deepening.tla, spec/Fringe.tla", NOTE_ORD)
NOTES["X03"] = ("Recorded node counts of the real graveyard searches validated by TLC as behaviours of the search that keeps what it needs (spec/Graveyard.tla), which the counted nodes are model-checked to implement (spec/MCGraveyard.tla)", "Counting memory resources stand in for the pools, and the maze records the questions. The model covers all wall patterns, pairs of ends and orders of small shapes; recorded mazes are sampled (seeded). gjps is judged at its end only.")
NOTES["X04"] = ("TLA+ models of the memory-bounded searches (spec/MGStar.tla, spec/SMAStar.tla), checked by TLC at every limit on every small maze; the peaks of the real searches judged by the same bound (spec/BoundedRecord.tla)", "Counting memory resources stand in for the pools. Recorded mazes are sampled (seeded), single ones taken through every limit.")
NOTES["S09"] = ("State machine of the entry point (spec/Entry.tla), model-checked over every request; the event logs of the real entry point validated by TLC as its behaviours", "Stand-in algorithm and pools record what the entry point does; every combination of pools, failures, cleanup and ends on small mazes, sampled beyond.")
NOTES["S08"] = ("TLA+ model of a session of searches on shared pools (spec/Session.tla), checked by TLC; answers of the real solvers over sessions validated by TLC as its behaviours", "Sessions mix all algorithms, pools, sizes, failing and throwing searches; sampled (seeded).")
NOTES["S10"] = ("Allocation failures enumerated at every allocation of a search; every outcome validated by TLC as a behaviour of the session model (spec/Session.tla)", "Every single failing allocation of each sampled search; mazes are sampled (seeded). Runs under the address sanitizer.")
NOTES["S11"] = ("Allocation and deallocation events of real searches validated by TLC against the resource model in spec/Session.tla", "Recording memory resources stand in for the pools; mazes are sampled (seeded).")
MEM = "TLA+ model of what a pool owes its clients and upstream (spec/Pool.tla); event logs of the real pools validated by TLC as its behaviours"
NOTE_MEM = "Every sequence of operations over a small alphabet to a fixed depth, and seeded random sessions with moves, resets, huge sizes and failing upstream allocations. Runs under the address sanitizer; blocks are filled and verified."
for k in ("M01", "M02", "M03"):
    NOTES[k] = (MEM + "; each pool's own algorithm is model-checked (spec/%s.tla) to keep the contract" % {"M01": "MonotonicPool", "M02": "HeterogeneousPool", "M03": "HomogeneousPool"}[k], NOTE_MEM)
BOX = "TLA+ model of what containers owe their users (spec/Containers.tla); recorded sessions with the real containers validated by TLC as its behaviours"
NOTE_BOX = "Everything observable is compared after every operation: all short operation sequences over a small alphabet (sampled in the quick tier), and seeded random sessions with copies, moves and swaps. Runs under the address sanitizer."
NOTES["C01"] = (BOX + "; the k-ary array is itself model-checked (spec/MCHeap.tla) to keep the contract", NOTE_BOX)
NOTES["C02"] = NOTES["C03"] = (BOX, NOTE_BOX)
GRID = "TLA+ definition of a grid (spec/Maze.tla, spec/GridContract.tla) evaluated by TLC on what the real grids and conversions answer for every cell"
NOTES["G01"] = (GRID, "Every cell of all small shapes of 1 to 6 sides and of sampled larger ones, for eight coordinate types; near the top of each type, sampled indices in arithmetic of arbitrary size (spec/Big.tla).")
NOTES["G02"] = (GRID, "Every wall pattern of small shapes and sampled mazes of 1 to 4 sides, six coordinate types, bit grids and four weight types; every cell, every way of asking.")
NOTES["G03"] = ("TLA+ model of a graph as a store of nodes and edges (spec/GraphStore.tla); recorded sessions with real graphs validated by TLC as its behaviours", "Everything observable is compared after every operation, on three graphs with four memory resources, four pairs of types; all short sequences over a small alphabet (sampled in the quick tier) and seeded random sessions.")
NOTES["G04"] = ("TLA+ model of corridor contraction by several workers and pruning in any order (spec/MCCompaction.tla), checked by TLC from every small grid and multigraph; graphs built and pruned by the real code judged by the same definitions (spec/BuildContract.tla, spec/GraphTrace.tla)", "Real builds run with 1 to 6 threads on a memory resource that delays them and detects overlapping calls. Grids and graphs are exhaustive over small shapes, sampled (seeded) beyond.")
NOTES["H01"] = ("TLA+ definitions of distance, as the number of steps of a breadth-first search (spec/MetricContract.tla), evaluated by TLC on what the real functions answer", "All pairs of cells of small grids of 1 to 4 sides, six coordinate types, six scalar types; far cells are sampled (seeded) in arithmetic of arbitrary size. Floating point answers are compared in thousandths.")
NUM = "TLA+ definitions of the utilities (spec/NumberContract.tla, arithmetic of arbitrary size in spec/Big.tla) evaluated by TLC on what the real functions answer"
NOTES["U01"] = (NUM, "All values of the 8-bit types, all powers that fit, and the extremes of every type; sampled (seeded) in between.")
NOTES["U02"] = (NUM, "Durations are seeded binary fractions, so that the exact value is known; printed values are compared to half a millionth of the unit.")
NOT_YET = {}
