prop("C14","Copy, move and swap of owning arrays: values, shapes and allocators",
 "Copying an owning array gives an equal, independent array; moving or swapping transfers the storage itself when the allocators allow it and otherwise moves each element exactly once. Allocators are propagated exactly as their traits say. The source of a move owns nothing afterwards, self-assignment changes nothing, and every allocation is released once through the allocator that made it.",
 ["inputs","histories"],"all bounds and allocator identities; all propagation trait combinations; construct/assign/move/swap sequences in the witness table",
 "Which path is taken depends on trait constants, allocator equality and shape equality together; tests use one stateful allocator and fixed shapes.",
 [("copy and move construction",A+":array::array"),("assignment",A+":array::operator="),("swap",A+":swap")])
prop("C15","Reshaping an owning array keeps the common elements",
 "Reshaping an array moves every element whose index is in bounds before and after to the same index of the new storage, value-initializes the rest, releases the old storage, and uses the array's own allocator. Reshaping to the same shape does nothing.",
 ["inputs","histories"],"all old and new bounds and strides of the listed shapes",
 "Overlap of two boxes per dimension has many cases (disjoint, nested, empty, shifted) that multiply with rank.",
 [("reshape",A+":array::reshape"),("intersection of shapes",A+":clamp"),("move",A+":move")])
prop("C16","Transposed, reordered, reinterpreted and converted views alias the same elements",
 "Transposing, reordering, reinterpreting or converting an array, view or shape yields dimension k of the result equal to the requested dimension of the original (min, extent and stride) over the same base address, so each element keeps its address. Const arrays and views give const views. Views made from an array alias its storage and never copy it; assigning a view rebinds it and touches no element.",
 ["inputs","programs"],"all shapes of rank 1-5 and the listed permutations",
 "Tests transpose a few dense arrays with equal treatment of dims; a wrong dim, stride or base shows only for particular shapes.",
 [("transpose",A+":transpose"),("reorder",A+":reorder"),("reinterpret",A+":reinterpret"),("convert_shape",A+":convert_shape"),("ref/cref",A+":array::ref")])
prop("C17","Changing the shape of a view or array in place never reaches outside its storage",
 "Setting or reinterpreting a shape keeps storage and places the element of flat offset zero at the given offset from the old one. In builds with assertions it stops the program exactly when the new shape, at that offset, would reach outside the old storage. Moving an owning array to a reinterpreted shape transfers the same storage under the same rule and leaves the source without any.",
 ["inputs"],"all old and new shapes with strides of either sign, all offsets",
 "Subset checks compare flat extents at an offset; sign and boundary errors show only for specific offsets.",
 [("set_shape",A+":array_ref::set_shape"),("is_subset_of",A+":shape::is_subset_of"),("reinterpret_shape",A+":reinterpret_shape"),("move_reinterpret_shape",A+":move_reinterpret_shape")])
prop("C18","Stack-buffer allocators hand out their buffer at most once at a time",
 "An allocator with an in-place buffer returns the buffer only when the request fits and the buffer is free, and otherwise storage from its base allocator; freeing returns each block to where it came from, and a freed buffer is available again. Copies and moves of the allocator never share a buffer and use their source's base allocator, allocators compare equal only if either can free the other's blocks, and arrays using it never end up holding another array's buffer.",
 ["inputs","histories"],"all request sizes; sequences of allocate/deallocate/copy/move/compare; arrays copied, moved, swapped and reshaped",
 "A stale or doubly used buffer needs a particular sequence and size; tests only cover sequences with one or two arrays.",
 [("auto_allocator",A+":auto_allocator"),("uninitialized_auto_allocator",A+":uninitialized_auto_allocator")])
prop("C19","Uninitialized allocators skip only default construction",
 "Allocators that leave elements uninitialized do nothing on default construction and behave like the standard allocator for every other construction, allocation, rebinding, comparison and destruction. Buffers in place are aligned for the element type and large enough for the stated number of elements.",
 ["inputs","programs"],"the listed element types and argument lists; all buffer sizes in the witness table",
 "Whether a construction is skipped depends on overload resolution for each argument list; alignment holds by luck on most stacks.",
 [("uninitialized_allocator",A+":uninitialized_std_allocator"),("alignment",A+":auto_allocator")],tech=AI+"; "+TY)
prop("C20","Const arrays and views never give mutable access",
 "No accessor, slice, view conversion, traversal or algorithm gives mutable access to an element through a const owning array or a view of const elements. Mutable access is available where the library documents it. Conversions from mutable to const views exist and the reverse do not.",
 ["programs"],"every expression in the witness table: accessors, slices, traversals, conversions, algorithms",
 "Tests only contain programs that compile; an overload that leaks mutability compiles silently.",
 [("accessors",A+":array::operator()"),("slicing",A+":array::operator()"),("views",A+":array::cref"),("traversals",A+":array::for_each_value")],tech=TY,note=NOTET)
prop("C21","Callables are passed by reference and moves never copy",
 "Traversals, generators and transforms call the caller's own function object on every visit: they never copy it and never move from it, so its state after the call is that of the calls made. Moving operations move elements and never copy them, so they work for move-only elements; copying operations never modify their source.",
 ["programs","inputs"],"every traversal and algorithm with copy-tracking callables and move-only or copy-tracking elements",
 "Copies of callables or elements give the same values in tests with stateless lambdas and ints.",
 [("for_each_index",A+":for_each_index"),("generate",A+":generate"),("make_move",A+":make_move"),("move",A+":move")],tech=AI+"; "+TY)
prop("C22","Einstein reduction evaluates the expression over exactly the index domain",
 "A reduction statement evaluates its expression exactly once for every combination of index values in the operands' common bounds, applies the assignment to the result element of the result's own indices, and to no other. Operand indices select the operand dimensions they are written on, constants and nested expressions mean what the arithmetic operators mean, and mismatched bounds stop the program in builds with assertions.",
 ["inputs","programs"],"all bounds of the operands; the listed expression forms, index patterns and assignment operators",
 "Tests evaluate fixed small reductions; bounds reconciliation and index assignment depend on the pattern and on each operand's bounds.",
 [("ein_reduce",E+":ein_reduce"),("gather/reconcile dims",E+":reconcile_dim"),("expression nodes",E+":ein_bin_op")])
prop("C23","Einstein sums into new arrays have the inferred shape, zero initialization and right values",
 "Reductions that make their result give it one dimension per listed index with the bounds inferred from the operands, start every element from the initial value (zero by default), and accumulate each product exactly once.",
 ["inputs","programs"],"all operand bounds; the listed index patterns and initial values",
 "Shape inference depends on which operands mention an index; tests cover a few.",
 [("make_ein_sum",E+":make_ein_sum"),("make_ein_reduce_shape",E+":make_ein_reduce_shape")])
prop("C24","Z-order traversal visits each index or tile exactly once",
 "Z-order traversal of ranges visits every combination of range elements exactly once, and nothing else, for every extent including zero and extents that are not powers of two, in z-curve (Morton) order with the first range varying fastest.",
 ["inputs"],"bounded: the extents listed in the witness table, with unbounded interval mins",
 "The recursion splits at powers of two; tests check one or two sizes.",
 [("for_all_in_z_order",Z+":for_all_in_z_order"),("z_order helper",Z+":for_each_index_in_z_order")])
prop("C25","Image and matrix helpers: crop, channel slices, image shapes and traits",
 "Cropping an image gives a view of the same elements restricted to the requested box intersected with the image, keeping channels; making a crop copies exactly those elements. Slicing a channel gives the two-dimensional view of that channel. Planar, interleaved and chunky image shapes have the documented strides, and matrix and image traversals visit each element once in storage order.",
 ["inputs"],"all image bounds, strides and crop boxes",
 "Crop boxes partly or fully outside, with non-zero mins, are a matter of four bounds at once.",
 [("crop_image_shape",I+":crop_image_shape"),("slice_channel",I+":slice_channel"),("image shapes",I+":interleaved_image_shape"),("matrix traits",M+":shape_traits")])
prop("C26","Invalid programs are rejected at compile time",
 "Programs that cannot be meaningful do not compile: wrong number or kind of indices, out-of-range static bounds, dimension numbers out of range or repeated, incompatible ranks, callables with the wrong arguments, and reductions whose operands are not usable. The valid neighbours of each such program do compile.",
 ["programs"],"every reject/accept pair in the witness table",
 "Tests run programs that compile; a constraint that is lost accepts more programs and breaks none of them.",
 [("enable_if constraints",A+":internal"),("shape::operator()",A+":shape::operator()"),("transpose",A+":transpose"),("reductions",E+":make_ein_sum")],tech=TY,note=NOTET)
prop("C27","Shapes, views and traversals are usable in device code",
 "Everything the library offers on shapes, intervals, array references and their traversals can be called from CUDA device functions, and nothing called there is host-only.",
 ["programs"],"every device function in the witness file",
 "Host tests never notice a missing annotation; the build test exercises three expressions.",
 [("NDARRAY_HOST_DEVICE",A+":NDARRAY_HOST_DEVICE"),("index_iterator",A+":index_iterator"),("array_ref",A+":array_ref")],tech="type-level encodings: device functions compiled to device IR by the CUDA front end; a call to a host-only function is a compile error",note="Decided by clang's CUDA front end (C++17, so that std::array is usable on the device) with code generation for the device, for the listed functions. Nothing is run.")
