#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

DYN = ["cml/vector/dynamic_allocated.h", "cml/vector/dynamic_allocated.tpp",
       "cml/matrix/dynamic_allocated.h", "cml/matrix/dynamic_allocated.tpp"]

prop("P01", "No leak, double free or access to dead storage in dynamic containers",
 "For any history of operations on dynamically sized vectors and matrices, including operations that fail because memory runs out, sizes do not match, or an element operation throws, every block that was obtained is given back exactly once, every element is constructed before it is used and destroyed exactly once, and nothing outside live storage is ever read or written. When the last object is gone, no memory and no element remains.",
 ["histories", "fault_sequences", "configurations"],
 "all operation histories x all positions of allocation failures, size rejections and element exceptions x element types (trivial and non-trivial)",
 "Unit tests run a few short histories with memory always available and trivially destructible elements; a leak, a double destroy or a read of released storage does not change any value they compare.",
 DYN + ["cml/matrix/lu.tpp", "cml/matrix/inverse.h", "cml/matrix/matrix_product.tpp"],
 [("resize/resize_fast", "cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"),
  ("constructors and destructor", "cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"),
  ("element destruction dispatch", "cml/vector/dynamic_allocated.tpp destruct()")],
 "allocator calls, element constructor/destructor calls, every load and store of the compiled code")

prop("P02", "Failed operations leave operands and destination unchanged and can be retried",
 "If an operation on dynamically sized operands fails because memory cannot be allocated or because sizes are incompatible or negative, it throws std::bad_alloc or the documented size or argument exception, every source operand keeps its value, and the object being assigned to, built or resized keeps its size and elements. Once the fault is gone the same call succeeds with the same result as if it had never failed. An exception thrown by an element operation leaves every object valid and, for a resize, unchanged.",
 ["histories", "fault_sequences"],
 "every public operation that takes or produces a dynamic vector or matrix x every allocation it makes failing x every incompatible size x every element operation throwing",
 "The tests never make an allocation fail, so no error path past the size checks is executed, and they do not look at the operands after a size error.",
 DYN + ["cml/vector/detail/check_or_resize.h", "cml/matrix/detail/check_or_resize.h",
        "cml/vector/size_checking.h", "cml/matrix/size_checking.h", "cml/common/exception.h"],
 [("allocate-copy-release in resize", "cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"),
  ("size checks before writing", "cml/vector/writable_vector.tpp, cml/matrix/writable_matrix.tpp"),
  ("temporaries of inverse, LU, products", "cml/matrix/inverse.h, cml/matrix/lu.tpp, cml/matrix/matrix_product.tpp")],
 "exception type, operand and destination contents before/after, result of the retry")

prop("P03", "Dynamic vectors and matrices follow a plain sequence model over any history",
 "After any history of construction, copy, move, assignment, element access, fill, resize, row/column and compound updates, arithmetic expressions, products, transpose, trace, determinant, inverse, LU, and the building and transforming functions of mathlib, interleaved with failed operations, every live dynamic vector and matrix has exactly the size and (to rounding) the elements that a plain array model of the same history has. Resizing keeps the leading elements in storage order, a copy is independent of its source, and no operation changes an object that is not its destination.",
 ["histories", "fault_sequences", "configurations"],
 "all operation histories over several live objects x sizes 0..9 x element types x row/column basis x row/column-major layout x allocation failures at any point",
 "The tests check each member function once or twice on a fresh object of one or two sizes; interaction of resizes, moves, failures and reuse over a history is not sampled.",
 DYN + ["cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp", "cml/matrix/detail/inverse.h",
        "cml/matrix/detail/lu.tpp", "cml/matrix/detail/determinant.tpp", "cml/matrix/detail/transpose.h",
        "cml/matrix/vector_product.tpp", "cml/matrix/matrix_product.tpp", "cml/vector/subvector_node.tpp"],
 [("storage layout and element access", "cml/matrix/dynamic_allocated.h s_access"),
  ("resize prefix copy", "cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"),
  ("in-place transpose and inverse", "cml/matrix/detail/transpose.h, cml/matrix/detail/inverse.h")],
 "size and elements of every live object after every step")

prop("P04", "Moving a dynamic vector or matrix never allocates, fails or loses its elements",
 "Move construction and move assignment of dynamically sized vectors and matrices, including returning them by value and swapping them, transfer the elements without obtaining memory and without copying, moving or destroying any element, and complete even when no memory is available. The destination then holds exactly the source's former size and elements in the same storage, and the source is a valid object that can be destroyed, assigned and resized.",
 ["histories", "fault_sequences"],
 "all histories in which moves are interleaved with other operations, with every allocation denied during the move",
 "Tests check the value after one move with memory available; that no allocation or element copy happened, and that the source stays usable afterwards, is invisible to a value comparison.",
 DYN,
 [("move constructor and move assignment", "cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp")],
 "allocator and element operation counts during the move, data pointer, contents")

prop("P05", "Fixed-size and view operations never use the heap",
 "Every operation whose operands and results are fixed-size vectors, matrices and quaternions or views of caller-owned arrays of fixed size - arithmetic, products, size 2 to 4 inverse and determinant, rotation, projection, coordinate, basis and frustum functions - completes without obtaining dynamic memory, so it gives the same result when every allocation in the process fails. Only the general (5x5 and larger) inverse and determinant and the LU routines are exempt.",
 ["inputs", "fault_sequences", "configurations"],
 "every such public operation x element types x basis/layout/order configurations x total memory exhaustion",
 "The tests run with memory available and never count allocations, so a temporary that quietly became heap-allocated passes them all.",
 ["cml/vector/fixed_compiled.h", "cml/matrix/fixed_compiled.h", "cml/quaternion/fixed_compiled.h",
  "cml/vector/fixed_external.h", "cml/matrix/fixed_external.h", "cml/matrix/inverse.h", "cml/mathlib/mathlib.h",
  "cml/common/temporary.h", "cml/storage/promotion.h"],
 [("temporary and promoted storage type selection", "cml/common/temporary.h, cml/storage/promotion.h, cml/vector/temporary.h, cml/matrix/temporary.h"),
  ("mathlib functions", "cml/mathlib/**")],
 "global allocation functions")

prop("P06", "External views touch only the caller's array and never own it",
 "A vector or matrix view over a caller-owned array reads and writes only the elements of that array, makes every write visible in it at once at the position its layout defines, and never allocates, frees or resizes it. Copy-assigning to a view writes through to the array it was created on; an assignment or update whose size does not match is rejected by the documented exception with the array untouched.",
 ["histories", "fault_sequences"],
 "all histories of operations through several views (fixed and dynamic size, const and non-const, overlapping or adjacent) on shared caller buffers, with allocation failures and size errors in between",
 "The tests use one view per array and compare the viewed elements only; bytes next to the array, aliasing views and rejected updates are not looked at.",
 ["cml/vector/fixed_external.tpp", "cml/vector/dynamic_external.tpp", "cml/vector/fixed_const_external.tpp",
  "cml/vector/dynamic_const_external.tpp", "cml/matrix/fixed_external.tpp", "cml/matrix/dynamic_external.tpp",
  "cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp"],
 [("write-through assignment", "cml/vector/*_external.tpp, cml/matrix/*_external.tpp"),
  ("size checks", "cml/vector/detail/check_or_resize.h, cml/matrix/detail/check_or_resize.h")],
 "bytes of the caller's buffers including guard zones, allocator calls")

prop("P07", "Concurrent calls on shared constants are race-free and agree with serial calls",
 "When several threads call any functions or operators of the library at the same time on the same constant vectors, matrices, quaternions and expressions, no call performs an unsynchronised conflicting memory access, no operand is modified, and each call returns bit for bit what it returns when it runs alone. This holds under every interleaving.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of 2 to 4 threads at the granularity of single memory accesses x every public function x operand storage kinds",
 "All tests are single-threaded; even a threaded test would sample a handful of schedules and see no difference when two racing threads happen to write the same value.",
 ["cml/vector", "cml/matrix", "cml/quaternion", "cml/mathlib", "cml/scalar", "cml/util"],
 [("absence of shared mutable state", "all of cml/"),
  ("const access paths", "cml/vector/readable_vector.tpp, cml/matrix/readable_matrix.tpp, cml/quaternion/readable_quaternion.tpp")],
 "every load and store of the compiled code, function results, operand bytes")

prop("P08", "Threads working on different objects or disjoint views never affect each other",
 "Threads that each modify only their own vectors, matrices and quaternions - including views of non-overlapping parts of one caller-owned array - never access each other's data, and every thread ends with exactly the values it computes when it runs alone. This holds under every interleaving and when some of the threads meet allocation failures.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of 2 to 4 threads running mutation histories on their own objects and on adjacent views of one buffer x allocation failures",
 "All tests are single-threaded, and a hidden shared scratch area or a write that spills into the neighbouring view gives the right answer in a single thread.",
 ["cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp", "cml/quaternion/writable_quaternion.tpp",
  "cml/matrix/detail", "cml/mathlib", "cml/vector/fixed_external.tpp", "cml/matrix/dynamic_external.tpp"],
 [("in-place updates through element writes only", "cml/vector/writable_vector.tpp, cml/matrix/writable_matrix.tpp"),
  ("automatic-storage temporaries", "cml/matrix/detail/inverse.h, cml/matrix/detail/lu.tpp, cml/mathlib/**")],
 "every load and store, final contents of all objects and buffers")

prop("P09", "Results depend only on the operands, not on earlier calls or failures",
 "Apart from the random generators, every function, operator and constructor returns bit for bit the same result for the same operands, whatever calls were made before it in the same or another thread, in whatever order, and even if earlier calls threw an exception half-way. No call leaves state behind that a later call can observe.",
 ["histories", "fault_sequences", "inputs"],
 "all call histories over the public functions with arbitrary operands, exceptions injected into earlier calls, calls resumed on other threads",
 "Each test case calls a function on a few operands in one fixed order and never after a failed call; a stale cache, memo or scratch value that only matters for another order or another operand passes.",
 ["cml/vector", "cml/matrix", "cml/quaternion", "cml/mathlib", "cml/scalar", "cml/util"],
 [("absence of static, thread-local and cached state", "all of cml/")],
 "results of each call in a history compared with the same call as the first of a process")

prop("P10", "Random values keep their documented range for every generator behaviour",
 "Whatever sequence of values std::rand and std::random_device produce - constant, alternating, extreme or repeating - and for every caller-supplied generator that is not degenerate (one that cycles through a handful of extreme values can keep the standard library's normal distribution busy for ever), the random functions terminate; random scalars and random fills lie in the requested interval (a signed unit is +1 or -1); a random unit vector of non-zero size has unit length; and a random unit vector in a cone has unit length and makes an angle no greater than the requested one with the axis. If the source throws, the exception reaches the caller and every object stays valid; invalid cone angles and empty vectors are rejected by the documented exception without touching the elements of the vector.",
 ["fault_sequences", "inputs", "histories"],
 "all output sequences of the random sources (rand(), random_device, a caller-supplied engine) including faulty ones, x dimensions x element types x storage kinds",
 "The tests draw a few values from the default well-behaved source; values such as 0, RAND_MAX, a repeated seed or a throwing engine never occur.",
 ["cml/scalar/functions.h", "cml/vector/functions.tpp", "cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp",
  "cml/mathlib/random_unit.h", "cml/mathlib/random_unit.tpp"],
 [("scalar generators", "cml/scalar/functions.h random_*"),
  ("fill by distribution", "cml/vector/writable_vector.tpp random(), cml/matrix/writable_matrix.tpp random()"),
  ("normalisation and cone construction", "cml/mathlib/random_unit.tpp")],
 "returned values under simulated random sources")

prop("P11", "Randomness is reproducible and comes only from the documented source",
 "After std::srand with the same seed the same sequence of random-function calls on the C generator gives bit for bit the same values, and a random-unit call that is given a generator draws from that generator only and gives the same vector for equal generator states. No other function of the library draws from any random source, so calling it never changes a later random value.",
 ["histories", "inputs"],
 "all interleavings of random and non-random calls, seeds and generators",
 "Tests do not re-seed and compare, and cannot see from which source a value was drawn or that an unrelated call consumed one.",
 ["cml/scalar/functions.h", "cml/vector/functions.tpp", "cml/vector/writable_vector.tpp", "cml/mathlib/random_unit.tpp", "cml/mathlib/random_unit.h"],
 [("std::rand as the C source", "cml/scalar/functions.h, cml/vector/writable_vector.tpp"),
  ("caller-supplied engine", "cml/mathlib/random_unit.tpp random_unit(n, gen)")],
 "draws seen by the simulated sources, returned values")

prop("P12", "Printing survives failing output streams and never disturbs operand or stream",
 "Writing a vector, matrix or quaternion, or an expression of them, to a stream whose buffer writes short, fails or throws at any byte emits a prefix of exactly the text a healthy stream gets, reports the failure through the stream's state (or the stream's own exception when enabled), and leaves the operand unchanged. On a healthy stream the text contains the elements in order (w, x, y, z for a quaternion) and the state stays good. The stream's format settings other than the width are unchanged afterwards, also after a failure; a stream that has already failed gets nothing; an exception thrown by an element's own insertion reaches the caller; and a write to any other stream, earlier, later or by another thread at the same time, is unaffected.",
 ["fault_sequences", "histories", "inputs"],
 "every byte position at which the sink can fail x failure kind x stream settings x operand kinds",
 "The tests print to healthy string streams, if at all; a partially failing sink never occurs.",
 ["cml/util/vector_print.tpp", "cml/util/matrix_print.tpp", "cml/util/quaternion_print.tpp"],
 [("operator<<", "cml/util/*_print.tpp")],
 "bytes received by the simulated sink, stream state, operand contents")

prop("P13", "Stored expressions keep the temporaries they were built from alive",
 "An expression built from temporary vectors, matrices or quaternions (fixed-size or dynamic) and stored in a variable owns those temporaries: evaluating it later, any number of times and after any other calls, allocations and releases, gives the same value as evaluating it at once. Building, copying and moving such an expression and letting it go out of scope releases each temporary exactly once, also when an allocation fails in between.",
 ["histories", "fault_sequences", "inputs"],
 "all expression shapes built from up to several temporaries x work done between construction and evaluation x allocation failures",
 "Tests evaluate expressions in the full expression that created them, or on memory that has not been reused yet, where a dangling operand still shows the old value.",
 ["cml/vector/binary_node.h", "cml/vector/unary_node.h", "cml/vector/scalar_node.h", "cml/vector/cross_node.h",
  "cml/vector/outer_product_node.h", "cml/vector/subvector_node.h", "cml/matrix/binary_node.h", "cml/matrix/unary_node.h",
  "cml/matrix/scalar_node.h", "cml/matrix/transpose_node.h", "cml/matrix/row_node.h", "cml/matrix/col_node.h",
  "cml/matrix/basis_node.h", "cml/quaternion/binary_node.h", "cml/quaternion/conjugate_node.h",
  "cml/quaternion/inverse_node.h", "cml/quaternion/imaginary_node.h"],
 [("operand held by value when it is a temporary, by reference otherwise", "cml/*/binary_node.h, unary_node.h, scalar_node.h and the other node classes"),
  ("forwarding operators", "cml/*/binary_ops.h, cml/*/unary_ops.h, cml/*/scalar_ops.h")],
 "values of stored expressions, accesses to released storage")

prop("P14", "A user allocator supplies all element storage and gets each block back correctly",
 "A dynamic vector or matrix type with a user allocator obtains element storage only from that allocator (rebound to the element type) and never from the global heap, asks for at least as many elements as it holds, and returns each block to the same allocator exactly once, with the pointer and the element count it was obtained with; it never returns a null or foreign block. This stays true through copies, moves, conversions between containers with different allocators, promotions, and failures of the allocator.",
 ["histories", "fault_sequences", "configurations"],
 "all operation histories over containers with different user allocators x allocator failures at any call",
 "The tests use only the default allocator, for which a wrong count, a block given back through another container's allocator or a detour through the global heap has no visible effect.",
 DYN + ["cml/storage/allocated_selector.h", "cml/common/mpl/rebind.h", "cml/vector/temporary.h", "cml/matrix/temporary.h", "cml/storage/promotion.h"],
 [("allocator_traits allocate/deallocate pairing", "cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"),
  ("allocator rebinding and promotion", "cml/storage/allocated_selector.h, cml/common/mpl/rebind.h")],
 "every allocate/deallocate call with its arguments")

prop("P15", "No call ever waits for, or is blocked by, another caller",
 "Every library call finishes within a number of its own steps that is bounded by its operand sizes, whatever the operand values (including zeros, infinities and NaNs), and also when another thread has been suspended at an arbitrary point inside any library call. A suspended caller finishes normally with its own correct result once it is resumed.",
 ["schedules", "inputs", "fault_sequences"],
 "every point at which another caller can be suspended x every public function x operand values including non-finite ones",
 "Tests are single-threaded and use finite well-conditioned operands; a hidden lock or a convergence loop never blocks there.",
 ["cml/vector", "cml/matrix", "cml/quaternion", "cml/mathlib"],
 [("straight-line or size-bounded loops without locks", "all of cml/"),
  ("LU, inverse pivot search, random rejection loops", "cml/matrix/detail/*, cml/mathlib/random_unit.tpp")],
 "steps taken by each call while other callers are suspended")

# ---- pure functions of their inputs: outside this family ----
NA_WHY = "A handful of sampled operands cannot establish an identity over all real operands."
def na(id, title, statement, files, mech):
    prop(id, title, statement, ["inputs", "configurations"], "all operands and all basis/layout/order configurations", NA_WHY, files, mech)

na("P21", "Vector, matrix and quaternion arithmetic obeys the algebraic identities",
 "On fixed operands, sums, scalar multiples, dot, cross, outer, Hadamard and matrix products and quaternion products satisfy the usual algebraic laws (linearity, distributivity, associativity, orthogonality of the cross product, multiplicativity of the norm) up to rounding, for every basis, layout and component order.",
 ["cml/vector", "cml/matrix", "cml/quaternion"], [("expression nodes and products", "cml/vector/*_node.tpp, cml/matrix/*_product.tpp, cml/quaternion/product.tpp")])
na("P22", "Inverse, determinant and LU agree with each other on fixed-size matrices",
 "For every well-conditioned fixed-size square matrix, the inverse times the matrix is the identity, the determinant is multiplicative and the LU factors reproduce the (permuted) matrix, up to rounding.",
 ["cml/matrix/detail/inverse.h", "cml/matrix/detail/determinant.tpp", "cml/matrix/detail/lu.tpp", "cml/matrix/lu.tpp"], [("elimination with pivoting", "cml/matrix/detail/inverse.h, cml/matrix/detail/lu.tpp")])
na("P23", "Rotation representations convert into each other without changing the rotation",
 "Converting a rotation between matrix, quaternion, axis-angle and Euler angles in any order, and back, describes the same rotation up to rounding, including at degenerate angles, and rotation builders always produce orthonormal matrices and unit quaternions of determinant +1.",
 ["cml/mathlib/matrix/rotation.tpp", "cml/mathlib/quaternion/rotation.tpp"], [("conversion branches", "cml/mathlib/matrix/rotation.tpp, cml/mathlib/quaternion/rotation.tpp")])
na("P24", "Projection, frustum and look-at matrices map the view volume as documented",
 "For every valid frustum, a point is inside the extracted planes exactly when the matching projection maps it inside the clip volume, for both handednesses and both depth ranges; look-at matrices are rigid and map the eye to the origin.",
 ["cml/mathlib/matrix/projection.tpp", "cml/mathlib/matrix/transform.tpp", "cml/mathlib/frustum.tpp"], [("projection builders and plane extraction", "cml/mathlib/matrix/projection.tpp, cml/mathlib/frustum.tpp")])
na("P25", "Coordinate conversions are mutually inverse",
 "Polar, cylindrical and spherical conversions to Cartesian coordinates and back return the original coordinates up to rounding for every axis and latitude convention, and degenerate points give the documented zero angles.",
 ["cml/mathlib/coordinate_conversion.tpp"], [("conversion formulas", "cml/mathlib/coordinate_conversion.tpp")])
na("P26", "Basis orientation and memory layout never change the described transform",
 "The same geometric operation expressed with row-basis or column-basis, row-major or column-major operands and results describes the same transform.",
 ["cml/matrix", "cml/mathlib/matrix"], [("basis_element access", "cml/matrix/readable_matrix.tpp, cml/matrix/writable_matrix.tpp")])
na("P27", "Incompatible fixed sizes and unsupported types are rejected at compile time",
 "A program that combines fixed-size operands of incompatible sizes or unsupported element, basis or order types does not compile, and every compatible combination does.",
 ["cml/vector/size_checking.tpp", "cml/matrix/size_checking.tpp", "cml/common/promotion.h", "cml/storage/promotion.h"], [("static_assert and promotion traits", "cml/common/promotion.h")])
na("P28", "Equal vectors hash equal and comparisons form consistent orders",
 "Vectors and matrices that compare equal have equal hashes, and the comparison operators are consistent with each other (trichotomy, transitivity, negation).",
 ["cml/util/vector_hash.h", "cml/common/hash.h", "cml/vector/comparison.tpp", "cml/matrix/comparison.tpp", "cml/quaternion/comparison.tpp"], [("element-wise comparison", "cml/*/comparison.tpp")])
na("P29", "Quaternion logarithm and exponential are mutually inverse",
 "The exponential of the logarithm of a unit quaternion is that quaternion again up to rounding, the exponential of an imaginary quaternion has unit length, and both hold at the identity and at degenerate angles.",
 ["cml/quaternion/functions.tpp", "cml/quaternion/writable_quaternion.tpp", "cml/vector/functions.tpp"], [("log and exp functions", "cml/quaternion/functions.tpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
