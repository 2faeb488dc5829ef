#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to edit)."""
import json, os
R = "src/sqrid/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R+f for f in files],
            state=[dict(name=a, meaning=b, where=R+c) for a,b,c in state],
            mechanism=[dict(name=a, where=R+b) for a,b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01","Positions are built exactly from in-range coordinates",
 "For every grid size, every public way of building a position from coordinates (constructor, tuples of u16 or i32 by value or reference, any pair of integer types, another position type) succeeds exactly when both coordinates lie inside the grid, and the result then has exactly those coordinates. Otherwise it reports the out-of-bounds error (the documented panicking constructor panics): coordinates are never wrapped, truncated or clamped. The named first/last/corner/center positions are where their names say, and reading a position back as a tuple or as text gives its coordinates.",
 ["inputs","configurations"],"all coordinate values of every integer type, including negative and larger than 16 bits, times all grid sizes up to 65536x65536",
 "The tests try a handful of coordinates on 6x7 and 2x2 grids; they never pass negative or >16-bit values, nor sizes near the limits of u16.",
 ["pos.rs","postrait.rs","boundedint.rs"],
 [("Pos::new and TryFrom impls","pos.rs"),("PosT::new / tryfrom_pos","postrait.rs"),("BoundedU16 range check","boundedint.rs")],
 ["result of the constructors and conversions","Pos::tuple, PosT::inner_tuple, Display"])

prop("C02","Linear index and successor order of positions agree",
 "For every grid size the linear index of a position is its row-major rank: converting to an index and back is the identity, indices 0..width*height-1 map one-to-one onto the positions, and any larger index is rejected as out of bounds. Stepping to the next/previous position horizontally walks row-major order and vertically walks column-major order, one position at a time, with 'none' exactly at the last/first position; next and previous undo each other. Width, height, size and dimensions report the real extents of the grid.",
 ["inputs","configurations"],"all positions and all usize indices of all grid sizes",
 "Tests check the index of two or three positions on two sizes and prev() on a 2x2 grid.",
 ["pos.rs","postrait.rs"],
 [("to_usize / tryfrom_usize","postrait.rs"),("next/next_y/prev/prev_y","postrait.rs"),("width/height/dimensions and WIDTH/HEIGHT/SIZE","pos.rs")],
 ["usize::from(pos)","Pos::try_from(usize)","PosT::next, next_y, prev, prev_y"])

prop("C03","Moving a position by a direction is exact and reversible",
 "Adding a direction to a position (of a grid, or a coordinate pair of any bounded integer types) gives the neighbour at exactly that direction's unit offset when that neighbour is inside the range of the coordinate types, and the out-of-bounds error otherwise; it never wraps around. Adding the opposite direction to the result returns to the start. The by-reference form and the function forms of the operation give the same answers.",
 ["inputs","configurations"],"all positions (interior, sides, corners, extremes of each integer type) times all 8 directions times all grid sizes and coordinate types",
 "Tests move from the center of 3x3 and on a 1x1 grid, and around (0,0)/(0,2) for integer pairs; borders of other grids and extremes of types are not reached.",
 ["posdir.rs","dir.rs","boundedint.rs"],
 [("Add<Dir> for Pos/&Pos, pos_dir_add, pos_dir_add_ok","posdir.rs"),("Add<Dir> for (T, U)","dir.rs"),("inc/dec via checked_add/checked_sub","boundedint.rs")],
 ["result of pos + dir"])

prop("C04","Directions form the 8-step rotation group",
 "Directions behave as the eight multiples of a 45-degree clockwise turn starting at north: adding directions adds angles modulo a full turn, negation is the half turn, and the coordinate offset of a direction rotates and negates accordingly. Iterating directions lists every allowed direction (4 without diagonals, 8 with) exactly once in clockwise order from north; stepping from any direction gives the next allowed one clockwise, or none after the last, without panicking. Exactly the four intercardinal directions are diagonal.",
 ["inputs","histories"],"all directions, all sequences of additions and negations, both diagonal modes, iterators advanced any number of steps",
 "Tests tabulate sums with one operand, one accumulation sequence and one forward iteration.",
 ["dir.rs"],
 [("rotate/flip/Add/AddAssign/Neg","dir.rs"),("Dir::next, DirIter","dir.rs"),("is_diagonal","dir.rs")],
 ["Dir + Dir, -Dir, +=","Dir::iter::<D>()","Dir::next::<D>()","tuple conversion"])

prop("C05","Direction conversions accept exactly the valid encodings",
 "Every direction converts to a unit offset pair of every signed integer type and back unchanged, and a pair that is not one of the eight unit offsets is rejected as an invalid direction. Every direction's arrow and ASCII symbol, and every cardinal direction's letter in either case, parses back to that direction, from a character or a one-character string. Any other character or string is rejected with the parse error and never panics.",
 ["inputs"],"all pairs over isize,i8..i128, all Unicode characters, all strings",
 "Tests only convert valid values and one invalid pair; the rejection side quantifies over all characters, strings and integers.",
 ["dir.rs"],
 [("tuple_conv_i_impl","dir.rs"),("TryFrom<char>, FromStr","dir.rs"),("name_* tables and Display","dir.rs")],
 ["Dir::try_from(tuple|char)","str::parse::<Dir>()","name_* functions, Display"])

prop("C06","Whole-grid iteration visits each position once, from both ends",
 "Iterating all positions of a grid yields every position exactly once: row-major order in the horizontal orientation, column-major order in the vertical one. Under any interleaving of taking from the front and from the back, the iterator behaves as a double-ended queue holding that ordered list, keeps returning none once exhausted, and its size hint always brackets the number of positions left.",
 ["inputs","histories","configurations"],"all interleavings of next/next_back, both orientations, all grid sizes",
 "Tests interleave on a 2x2 grid only and check size hints only on a fresh iterator.",
 ["postrait.rs","boundedint.rs"],
 [("PosTIter Iterator/DoubleEndedIterator","postrait.rs"),("next/prev/next_y/prev_y","postrait.rs")],
 ["sequence of values returned by Pos::iter, iter_horizontal, iter_vertical, iter_orientation","size_hint"],
 [("cur/end","the two ends of the remaining interval","postrait.rs PosTIter")])

prop("C07","Rectangle, row and column iteration is exact",
 "Iterating the rectangle between a top-left and a bottom-right corner yields exactly the positions inside it, in row-major order, once each, wherever the rectangle lies in the grid, including when it touches the last row or column. Iterating a given column or row yields exactly the positions of that column or row in increasing order, and the row/column coordinate iterators yield every valid coordinate. The size hints of these iterators always bracket the number of positions left.",
 ["inputs","configurations"],"all rectangles (top-left not beyond bottom-right), all rows and columns, all grid sizes, at every point of the iteration",
 "One rectangle in the middle of one grid and the full rectangle are tested; rectangles touching one border only are not.",
 ["postrait.rs"],
 [("PosTIterRange","postrait.rs"),("PosTIterInX / PosTIterInY","postrait.rs")],
 ["iter_range, iter_in_x, iter_in_y, iter_x, iter_y output","size_hint"])

prop("C08","Distance, containment, border and bounding-box queries are exact",
 "For any positions of any grid: the manhattan distance is |dx|+|dy|; 'inside' holds exactly for positions in the closed rectangle spanned by the two given corners in any order; 'side' and 'corner' hold exactly for border and corner positions. The bounding box of any non-empty collection of positions is the smallest rectangle containing all of them, and an empty collection is reported as such. The direction from one position to another is none exactly when they are equal, points strictly closer to the destination, and is the exact compass sector sign when diagonals are enabled.",
 ["inputs","configurations"],"all pairs/triples and sequences of positions on all grid sizes",
 "Tests sample one distance, a few containments and one bounding box; direction_to has no test.",
 ["postrait.rs","posdir.rs"],
 [("manhattan, inside, is_corner, is_side, tlbr_of","postrait.rs"),("direction_to","posdir.rs")],
 ["return values"])

prop("C09","Position flips and rotations are the grid's symmetries",
 "Flipping a position horizontally mirrors its column and keeps its row, flipping vertically mirrors its row and keeps its column, on every grid size. On square grids rotating clockwise sends each position to where a 90-degree clockwise turn of the grid puts it and counter-clockwise rotation undoes it. These operations are bijections of the grid that satisfy the symmetry laws of the square (flips are involutions, four rotations are the identity, two rotations equal both flips).",
 ["inputs","configurations"],"all positions, all grid sizes (square for rotations), all compositions of symmetries",
 "Tests use 6x7 flips and 5x5 rotations only.",
 ["postrait.rs"],
 [("flip_h, flip_v, rotate_cw, rotate_cc","postrait.rs")],
 ["return values"])

prop("C10","A grid is a total map from positions to values",
 "Under any history of writes through any mutating interface (indexing by position or reference, mutable references, row slices, mutable iteration, extending from position/value pairs, the raw array), reading any position returns the last value written to it and no other position changes. All reading interfaces (indexing, get, rows, iteration, iteration with positions, the raw array, consuming iteration) agree and present values in row-major position order. Copies are independent, comparison agrees with the contents, and element access never touches memory other than the addressed cell.",
 ["histories","configurations"],"all sequences of reads and writes on grids of all sizes and several element types",
 "Tests do single writes on a 5x3 grid; histories mixing interfaces, large grids and aliasing between cells are not sampled.",
 ["grid.rs"],
 [("get/get_mut (unchecked indexing), Index/IndexMut","grid.rs"),("line/line_mut","grid.rs"),("iter, iter_mut, iter_pos, Extend","grid.rs")],
 ["values and addresses returned by every accessor after every step"],
 [("[T; SIZE]","row-major cells","grid.rs Grid.0")])

prop("C11","Bulk construction of grids is faithful or refused",
 "Building a grid from an iterator succeeds exactly when it yields exactly one value per cell (too few or too many panics) and places values in row-major order. Building from nested vectors puts the value at row y, item x at position (x,y), fills every missing cell with the default, and reports out-of-bounds exactly when some row or the number of rows exceeds the grid; extending from nested vectors writes exactly the given cells, leaves the others unchanged and reports out-of-bounds when some item does not fit. Repeating, defaulting and negating apply to every cell.",
 ["inputs","configurations"],"all iterator lengths, all ragged nested vectors (empty rows, long rows, too many rows), all grid sizes",
 "Tests use four ragged vectors on 3x3 and lengths 14/15/16 on one grid.",
 ["grid.rs","gridbool.rs"],
 [("FromIterator, TryFrom<Vec<Vec<T>>>, extend_from_vecvec, repeat, Default, Neg","grid.rs"),("FromIterator<bool>","gridbool.rs")],
 ["resulting cells, errors and panics"])

prop("C12","Grid flips and rotations move every cell to its image",
 "Flipping or rotating a grid permutes its cells exactly as the corresponding symmetry permutes positions: the value at each position ends up at the image of that position, with nothing lost, duplicated or left behind. This holds for every size, even and odd, one-cell and one-row grids included (rotations on square grids), and for any composition of the operations.",
 ["inputs","histories","configurations"],"all grid contents, all sizes, all sequences of flips and rotations",
 "Only 3x3 and 5x5 (odd) grids are rotated and only 3x3 ones flipped.",
 ["grid.rs","postrait.rs"],
 [("Grid::flip_h, flip_v, rotate_cw, rotate_cc","grid.rs")],
 ["cells after the operation"])

prop("C13","A boolean grid is a set of positions",
 "Under any history of setting positions true or false by any interface (single, by value, iterator-based, collecting from positions or booleans, fill), each position reads back the last value written to it, without affecting others. The value, true-position and false-position iterators partition the grid in row-major order accordingly. Two boolean grids are equal (and hash and order equally) exactly when they hold the same value at every position, however they were built.",
 ["histories","configurations"],"all histories of updates on grids of all sizes, in particular sizes that do not fill the last bitmap word or cross several words",
 "Tests set corners on 4x8, 11x3 and 5x5 grids; equality between differently built grids with a partially used last word is not tested.",
 ["gridbool.rs"],
 [("byte_bit, set_t, set_f, get, Index","gridbool.rs"),("repeat / ALL_TRUE, FromIterator","gridbool.rs"),("derived Eq/Ord/Hash over the bitmap words","gridbool.rs")],
 ["get/index, iter, iter_t, iter_f, iter_pos, ==, cmp, hash"],
 [("[u32; WORDS]","bitmap, bit per position","gridbool.rs Gridbool.0")])

prop("C14","Boolean grid flips and rotations move every cell to its image",
 "Flipping or rotating a boolean grid permutes its cells exactly as the corresponding symmetry permutes positions, for every size (even and odd, one-row, several bitmap words; rotations on square grids) and every content. Any composition of the operations acts as the composed symmetry, so flips are involutions and opposite rotations cancel.",
 ["inputs","histories","configurations"],"all contents, all sizes, all sequences of flips and rotations",
 "Only one pattern on a 5x5 grid is tested.",
 ["gridbool.rs","postrait.rs"],
 [("Gridbool::flip_h, flip_v, rotate_cw, rotate_cc","gridbool.rs")],
 ["cells after the operation"])

prop("C15","Displayed grids show every cell at its row and column",
 "The text form of a grid or boolean grid has one line per row, labelled with the row number and holding the row's cells in column order, each padded as the formatter's width, fill and alignment ask, between identical header and footer blocks that spell out the column numbers top to bottom above their columns. Nothing is dropped or reordered for any grid size, columns are aligned with their numbers whenever the cells fit the requested width, and formatting never panics.",
 ["inputs","configurations"],"all contents, sizes (1-wide to 4-digit label widths) and width/fill/alignment parameters",
 "Tests print grids without looking at the output.",
 ["grid.rs","gridbool.rs"],
 [("display_fmt_helper","grid.rs"),("Display for Gridbool","gridbool.rs")],
 ["format!(\"{}\", grid) and padded variants"])

prop("C16","Bounded integers never leave their range",
 "For every underlying integer type and every bounds, creating a bounded integer from any integer of any type succeeds exactly when the value lies within the bounds and preserves it, reporting out-of-bounds (or panicking in the documented panicking constructor) otherwise. Checked addition, subtraction, increment and decrement return the exact result when it lies within the bounds and nothing otherwise, without overflow. Default values lie within the bounds, conversions back to the integer (and to usize when non-negative) preserve the value, and ordering, equality and the plain printed form are those of the integer.",
 ["inputs","configurations"],"all operand values of all integer types, bounds anywhere in the type (including negative ranges, ranges excluding 0 or 1, single values and full ranges)",
 "Tests use bounds 0..20 and -2..5 with a few operands.",
 ["boundedint.rs"],
 [("boundedint_type_create, boundedint_impl_tryfrom","boundedint.rs"),("BoundedInt::inc/dec defaults","boundedint.rs")],
 ["return values of new/new_unwrap/try_from/checked_add/checked_sub/inc/dec/default/into_inner"])

prop("C17","Iterating a bounded integer type visits each value once",
 "Iterating a bounded integer type yields every value of its range exactly once in increasing order, for every bounds including single-value ranges and ranges touching the extremes of the underlying type. Under any interleaving of taking from the front and the back it behaves as a double-ended queue of those values and stays exhausted once empty.",
 ["histories","configurations"],"all interleavings of next/next_back, all integer types and bounds",
 "Tests iterate one range (-2..5) in three patterns.",
 ["boundedint.rs"],
 [("BoundedIntIterator","boundedint.rs")],
 ["returned values"],[("start/end","remaining interval","boundedint.rs BoundedIntIterator")])

prop("C18","Breadth-first traversal yields exact distance layers",
 "For every movement function, origin and grid, the n-th item of a breadth-first iteration is exactly the set of positions whose shortest walk from the origin under that function has n+1 steps, each once and never the origin, and the iteration ends when no position is left. Each position comes with a direction pointing back: some position of the previous layer reaches it by moving in the opposite direction. This holds with or without diagonals, for one-way, blocked, wrapping, jumping or stay-in-place movement functions, and whichever internal set type is used.",
 ["inputs","configurations"],"all movement functions (walls, one-way edges, self loops, jumps), origins, grid shapes, diagonal modes and backing sets",
 "Tests traverse an open 3x3 grid, one with two walls, and count an open 256x256 grid.",
 ["bf.rs","setpos.rs","gridbool.rs"],
 [("BfIterator::new/next","bf.rs"),("SetPos impls","setpos.rs")],
 ["items yielded by bf_iter, bf_iter_grid, bf_iter_hash, bf_iter_btree"],
 [("visited, nextfront","search state","bf.rs BfIterator")])

prop("C19","Breadth-first search returns a shortest path to a nearest goal",
 "For every set of allowed unit moves, origin and goal predicate, breadth-first search returns a goal position with the minimum number of moves over all goals and a path of exactly that many moves which, replayed from the origin using allowed moves only, ends at that goal; the origin itself counts as a goal at distance zero. It reports the destination as unreachable exactly when no goal can be reached. This holds on grids of every shape, however long the path.",
 ["inputs","configurations"],"all mazes (including one-way moves), goal sets (none, one, many, origin), grid shapes and diagonal modes, all internal backends",
 "Tests solve six hand-drawn 30x15 mazes without diagonals with a single goal.",
 ["bf.rs","mappos.rs"],
 [("bf::search_mapmov / search_path","bf.rs"),("camefrom_into_path","mappos.rs")],
 ["Result of bfs_path, bfs_path_grid/hash/btree, bf::search_path"])

prop("C20","A* returns a shortest path",
 "For every set of allowed unit moves, origin and destination, A* returns a path which, replayed from the origin using allowed moves only, ends at the destination and has the minimum possible number of moves, with and without diagonal moves; origin equal to destination gives the empty path. It reports the destination as unreachable exactly when no walk leads there. This holds on grids of every shape, however long the path.",
 ["inputs","configurations"],"all mazes (including one-way moves), endpoints, grid shapes, both diagonal modes and all internal backends",
 "Tests solve six hand-drawn 30x15 mazes, never with diagonals, and only two-dimensional corridors where ties are rare.",
 ["astar.rs","mappos.rs","postrait.rs"],
 [("AstarIterator::next (cost map, frontier, heuristic)","astar.rs"),("search_mapmov / search_path","astar.rs"),("camefrom_into_path","mappos.rs")],
 ["Result of astar_path, astar_path_grid/hash/btree, astar::search_path"],
 [("cost, frontier","search state","astar.rs AstarIterator")])

prop("C21","Uniform-cost search returns a minimum-cost path",
 "For every assignment of non-negative step costs to the allowed unit moves, origin and destination, uniform-cost search returns a path which, replayed from the origin using allowed moves only, ends at the destination and whose total cost is the minimum over all walks (whenever that minimum is below the maximum of usize); origin equal to destination gives the empty path. It reports the destination as unreachable exactly when no walk leads there. Its traversal reaches positions in non-decreasing order of their minimum cost, starting at the origin.",
 ["inputs","configurations"],"all cost functions (zero, equal, asymmetric, direction-dependent, very large costs), mazes, endpoints, grid shapes, both diagonal modes and all internal backends",
 "Every test uses cost 1 everywhere, so differing costs are never exercised.",
 ["ucs.rs","mappos.rs"],
 [("UcsIterator::next (cost map, frontier)","ucs.rs"),("search_mapmov / search_path","ucs.rs"),("camefrom_into_path","mappos.rs")],
 ["Result of ucs_path, ucs_path_grid/hash/btree, ucs::search_path","order of UcsIterator"],
 [("cost, frontier","search state","ucs.rs UcsIterator")])

prop("C22","All map and set backends behave the same",
 "Every implementation of the position-map abstraction (grid, hash map, B-tree map) returns for each position the last value set, or the initial value if none was; every implementation of the position-set abstraction (boolean grid, hash set, B-tree set) contains exactly the positions inserted and not removed since. Consequently every search and traversal gives equivalent results (same reachability, same distance or cost, same layers) whichever backend it is run with, and the searches agree among themselves: breadth-first, A* and unit-cost uniform-cost search find paths of the same length.",
 ["histories","inputs","configurations"],"all histories of map/set operations, all search inputs, all backends",
 "Backends are only run on the six hand-drawn mazes; maps and sets are never exercised on their own.",
 ["mappos.rs","setpos.rs","bf.rs","astar.rs","ucs.rs"],
 [("MapPos impls","mappos.rs"),("SetPos impls","setpos.rs"),("*_grid/_hash/_btree wrappers","bf.rs, astar.rs, ucs.rs")],
 ["get/contains after each step","search results side by side"])

prop("C23","Following a came-from map gives the path or the right error",
 "For any map of backward directions, origin and destination, converting it to a path either returns the directions that, replayed from the origin, visit in reverse exactly the positions met by following the map from the destination, ending at the destination, or reports why it cannot: destination not in the map, following the map leaves the grid or reaches a position without direction, or the map loops. A path is returned whenever following the map reaches the origin, however long, on any grid shape, and the conversion always terminates.",
 ["inputs","configurations"],"all came-from maps (trees, loops, dead ends, leading off-grid), endpoints, grid shapes and map types",
 "One loop on a 30x15 grid is tested; other maps come only from the searches on the hand-drawn mazes.",
 ["mappos.rs"],
 [("camefrom_into_path (iteration bound, error selection)","mappos.rs")],
 ["Result of camefrom_into_path and Sqrid::camefrom_into_path"])

prop("C24","Inconsistent sizes and out-of-range constants do not compile",
 "A program that creates a grid whose cell count differs from width times height, or a boolean grid whose word count is too small for (or more than one word beyond) the number of positions, is rejected by the compiler, whichever constructor or search it uses. A constant position or bounded integer outside its range built with the compile-time constructor is rejected by the compiler, in a constant or anywhere else. The same programs with the right numbers compile.",
 ["programs","configurations"],"all programs instantiating grids, boolean grids, positions and bounded integers with arbitrary size arguments, for every constructor",
 "A test program either compiles or not; one compile-fail doc example exists for positions and none for grid or bitmap sizes.",
 ["grid.rs","gridbool.rs","pos.rs","boundedint.rs"],
 [("impl_assert! _ASSERTS","grid.rs, gridbool.rs"),("new_static","pos.rs, boundedint.rs")],
 ["compiler verdict on generated programs"])

prop("C25","Integer pairs and user-defined positions are full position types",
 "A pair of 8- or 16-bit unsigned integers used as a position type, and a user-defined position type that implements only the required methods over coordinates starting at zero, obey the same laws as the built-in position of the same extents: declared and computed width and height agree, index and iteration are row-major bijections, neighbours, flips, distances and bounds are exact, and grids, boolean grids and searches over them work over the full extent. Pairs of 32-, 64- and 128-bit unsigned integers step, compare, flip and move exactly over their whole range, and measure distances and (up to 32 bits) convert to and from indices exactly whenever the result is representable. A pair of signed integers iterates, steps, compares, moves, flips and answers distance, containment, border and bounding-box queries exactly over its whole range, negative coordinates included.",
 ["inputs","configurations"],"all integer pair types and user-defined types of any extents, all positions",
 "Integer pairs are tested only with Dir addition near zero and no user-defined position type is tested at all.",
 ["postrait.rs","grid.rs","gridbool.rs"],
 [("postrait_integer_impl WIDTH/HEIGHT","postrait.rs"),("PosT default methods","postrait.rs")],
 ["PosT methods, Grid/Gridbool over the type, searches over the type"])

prop("C26","The type factory yields consistent types for any dimensions",
 "For any maximum coordinates and diagonal mode, the types produced by the factory macros (from numbers or from a position type) fit together: position extents are the maximum coordinates plus one, the grid has one cell per position, the boolean grid has just enough words, and every traversal and search compiles and gives right answers on every backend. Diagonals are used exactly when the factory enables them.",
 ["programs","configurations"],"all (xmax, ymax, diagonals) triples; sizes that are exact multiples of the bitmap word size and their neighbours in particular",
 "The factory is tested at 30x15, 3x3 and 256x256, all without diagonals.",
 ["base.rs","pos.rs","grid.rs","gridbool.rs"],
 [("sqrid_create!","base.rs"),("pos_create!, grid_create!, gridbool_create!","pos.rs, grid.rs, gridbool.rs")],
 ["compilation and output of generated programs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
