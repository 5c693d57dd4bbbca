#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
Run after editing:  python3 tools/props.py"""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A="include/array/array.h"; E="include/array/ein_reduce.h"; M="include/array/matrix.h"; I="include/array/image.h"; Z="include/array/z_order.h"
AI="abstract interpretation of the LLVM IR of library instantiations (affine value domain, loop summaries); effect trees compared with a plain-arithmetic specification on every abstract path"
TY="type-level encodings: static_assert obligations and compile-fail witnesses decided by the compiler front end"
NOTE="Sound for the witness instantiations over all run-time values, up to the trusted base: clang 18's front end and the few IR passes used to inline, the interpreter in /verif/engine, and the assumption that index arithmetic does not overflow. A reported mismatch names the source location, and is only raised for an inhabited path. Instantiations (ranks, static/dynamic mixes) are a finite selected set."
NOTET="Decided by the compiler on the current headers for the enumerated expressions; one obligation per expression. Nothing is run."
P=[]
def prop(id,title,statement,over,text,why,mech,files=None,tech=None,note=None,na=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files or sorted(set(w.split(':')[0] for _,w in mech)),mechanism=[dict(name=n,where=w) for n,w in mech],**({'observe_at':observe} if observe else {})),
      _tech=tech or AI,_note=note or NOTE,_na=na))
prop("C01","Element addressing: every accessor reaches base + sum((i-min)*stride)",
 "For every shape and every in-bounds index, reading or writing an element through any accessor of an array or array reference touches exactly the address base + sum over dimensions of (index - min) * stride. All accessor spellings (call syntax, subscript with a tuple, reference to array, const and non-const) agree. Assertions never stop an access: the address formula holds for every index.",
 ["inputs","programs"],"all mins, extents, strides (including negative, zero, padded) and in-bounds indices; ranks 0-6; static and dynamic dims",
 "Tests index a handful of small constant shapes; a wrong term for a particular min/stride/rank combination or a missed bounds test is invisible to them.",
 [("flat offset of an index",A+":flat_offset"),("bounds test",A+":shape::is_in_range"),("accessors",A+":array_ref::operator()"),("accessors",A+":array::operator[]")])
prop("C02","Shape metrics are exact: rank, size, extents, flat_min/max/extent, empty",
 "For every shape, the reported minimum, maximum, extent and stride of each dimension, the element count, emptiness, and the smallest and largest flat offset are exactly those of the set of in-bounds indices. The storage extent is the distance between the smallest and largest offset plus one. Named width/height/rows/columns style accessors agree with the dimension they name.",
 ["inputs"],"all resolved shapes of rank 0-6 with arbitrary mins, extents and strides of either sign",
 "Tests check constants; sign and zero-extent combinations across dimensions multiply beyond any sample.",
 [("flat_min/flat_max",A+":flat_min"),("size and emptiness",A+":shape::size"),("min/extent/stride arrays",A+":shape::extent")])
prop("C03","Interval and dimension algebra",
 "An interval denotes the integers from its minimum to minimum+extent-1: construction, min/max/extent setters, iteration, containment of points, intervals and dimensions, equality, ranges, clamping and conversions between static and dynamic forms all agree with that set. Converting to a type whose static bounds or stride differ stops the program in builds with assertions.",
 ["inputs"],"all interval/dim values, static or dynamic bounds",
 "Tests sample a few intervals; boundary and negative-min cases are unbounded.",
 [("interval",A+":interval"),("dim",A+":dim"),("clamp",A+":clamp"),("iterator",A+":index_iterator")])
prop("C04","Slicing and cropping address the same elements as the original array",
 "For every array and every mix of index, interval and whole-dimension arguments, element (i...) of the result is the very element of the original that has the fixed indices and the same coordinates i in the kept dimensions; kept intervals keep their original coordinates. The result has one dimension per non-index argument with the requested bounds and the original stride, and what is known at compile time of those bounds and strides stays known. A null view stays null.",
 ["inputs","programs"],"all shapes of rank 1-5, all slice argument patterns in the witness table, all bounds",
 "The number of argument patterns times bounds cannot be sampled; tests cover few patterns with zero mins.",
 [("slice arguments to dims",A+":range_with_stride"),("offset of the slice",A+":mins_of_intervals"),("view constructor",A+":make_array_ref_at")])
prop("C05","Splitting an interval covers it exactly, without leaving it",
 "Splitting an interval by a factor visits, in increasing order, sub-intervals whose union is exactly the interval and which never leave it. A static factor gives sub-intervals of exactly that extent, with only the last one shifted back to fit; a dynamic factor gives disjoint sub-intervals with only the last one shorter. In builds with assertions a static split of a smaller interval stops the program.",
 ["inputs"],"all intervals and all positive factors",
 "Tests use a few extents; the remainder cases depend on extent modulo factor.",
 [("split iterator",A+":split_iterator"),("split",A+":split")])
prop("C06","Automatic strides never make distinct elements alias",
 "Resolving a shape that leaves some strides unspecified keeps every specified min, extent and stride and gives each unspecified stride a value such that no two in-bounds indices share an address whenever the specified ones do not already alias, compactly where that is possible. A shape with nothing left to specify is unchanged.",
 ["inputs"],"all extents; ranks 1-6; every pattern of specified/unspecified strides in the witness table",
 "Stride resolution is a search over the other dims: which branch is taken depends on all extents and strides at once.",
 [("find_stride",A+":find_stride"),("is_stride_ok",A+":is_stride_ok"),("resolve",A+":shape::resolve")])
prop("C07","Compact and dense shapes are compact",
 "A shape made compact, a dense shape and a fixed dense shape keep all mins and extents, keep strides that are part of the type, and place all elements in a contiguous block with no gaps when no static stride forces one. The bounds of a shape carry the same mins and extents with all strides left open.",
 ["inputs","programs"],"all extents, ranks 1-5; the listed mixes of static and dynamic strides",
 "Strides of the compact form are computed by template recursion per static pattern; tests use two patterns.",
 [("make_compact_dims",A+":make_compact_dims"),("bounds",A+":bounds_tuple")],tech=AI+"; "+TY)
prop("C08","Shape conversion preserves bounds and strides or is refused",
 "Converting a shape (or view) to another shape type either yields the same min, extent and stride in every dimension, with missing dimensions broadcast as a single element, or stops the program when assertions are on. The compatibility predicate is true exactly when that conversion is faithful. A dropped trailing dimension must hold a single element.",
 ["inputs"],"all run-time shapes converted to the listed static/dynamic targets, same and different rank",
 "Static target patterns times runtime values; tests use single points.",
 [("assert_dim_compatible",A+":assert_dim_compatible"),("convert_shape",A+":convert_shape"),("is_dim_compatible",A+":is_dim_compatible")])
prop("C09","Index traversal visits each in-bounds index exactly once, in order",
 "Traversing the indices of a shape calls the function exactly once for each in-bounds index and for nothing else, in the documented nesting order (first dimension innermost, or the requested loop order). Tuple and unpacked forms agree.",
 ["inputs"],"all bounds, ranks 0-8, custom loop orders",
 "Exactly-once over unbounded extents is universal; tests enumerate a few small shapes.",
 [("for_each_index_in_order",A+":for_each_index_in_order"),("shape_traits",A+":shape_traits"),("loop order",A+":for_all_indices")])
prop("C10","Value traversal visits each element exactly once whatever the strides",
 "Visiting the values of an array calls the function exactly once on each in-bounds element and never on padding or beyond the storage, for every combination of strides. The traversal may reorder or merge dimensions but must not lose, repeat or invent elements.",
 ["inputs"],"all extents and strides (positive, negative, zero, padded, permuted) for ranks 0-3, the listed stride patterns for ranks 4-6; image and matrix shapes",
 "The traversal is rewritten at run time from the strides; the merge conditions interact across dims and extents of one or zero.",
 [("dynamic_optimize_shape",A+":dynamic_optimize_shape"),("optimize_shape",A+":optimize_shape"),("for_each_value_in_order",A+":for_each_value_in_order")])
prop("C11","Copy, move, fill, generate and transform touch each element once and correctly",
 "Copying or moving between arrays assigns to each in-bounds destination element, exactly once, the source element at the same index; fill, generate and index transforms assign each element exactly once the specified value. Copy-making variants produce an array with the requested shape holding the corresponding elements. Nothing outside the destination is written and a destination that is not contained in the source stops the program when assertions are on.",
 ["inputs"],"all source and destination shapes (different strides, mins, crops), ranks 0-3, the listed stride patterns for ranks 4-5, all overloads",
 "The pairwise traversal is reordered and merged from both stride sets; only specific combinations exercise each merge.",
 [("copy",A+":copy"),("dynamic_optimize_copy_shapes",A+":dynamic_optimize_copy_shapes"),("copy_shape_traits",A+":copy_shape_traits"),("generate",A+":generate"),("transform_indices",A+":transform_indices")])
prop("C12","Equality means same bounds and equal elements at every index",
 "Two arrays compare equal exactly when they have the same index bounds and every pair of corresponding elements is equal; strides and storage do not matter. Inequality is the negation.",
 ["inputs"],"all shapes of rank 0-3 with arbitrary, unequal strides, the listed stride patterns for rank 4; all element contents",
 "Tests compare a few arrays; the pairwise traversal must examine every pair for every stride combination.",
 [("equal",A+":equal"),("operator==",A+":array::operator==")])
prop("C13","Element lifetimes and storage of owning arrays balance",
 "Every element of an owning array is constructed exactly once before use and destroyed exactly once, padding is never constructed, and each allocation is released exactly once with the size it was made with, after its elements are destroyed. An array whose shape spans no storage (such as a default-constructed one of dynamic extents) holds none. Construction, assignment and clearing keep these balances on every path.",
 ["inputs","histories"],"all extents and strides of the listed shapes; construct/assign/clear/destroy sequences in the witness table",
 "Balance must hold for each shape and each sequence; leak or double-destroy on a rare branch (size change, padding, empty) needs that branch.",
 [("allocate/construct/destroy",A+":array::allocate"),("deallocate",A+":array::deallocate"),("assign",A+":array::assign")])
json_props=P
exec(open(os.path.join(ROOT,"tools","props2.py")).read()) if os.path.exists(os.path.join(ROOT,"tools","props2.py")) else None
def have(pid):
    for d in("witness","types","lint"):
        p=os.path.join(ROOT,d)
        if os.path.isdir(p) and any(f.startswith(pid+"_") for f in os.listdir(p)): return True
    return False
with open(os.path.join(ROOT,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps({k:v for k,v in p.items() if k[0]!='_'})+"\n")
checks=[];na=[]
for p in P:
    if p['_na']: na.append(dict(property=p['id'],reason=p['_na']))
    elif not have(p['id']): na.append(dict(property=p['id'],reason="no check built yet"))
    else: checks.append(dict(property=p['id'],quick_cmd="python3 check.py %s --tier quick"%p['id'],thorough_cmd="python3 check.py %s --tier thorough"%p['id'],technique=p['_tech'],level="proof",level_note=p['_note']))
json.dump(dict(version=1,setup_cmd="python3 tools/selfcheck.py",checks=checks,not_applicable=na,notes="All checks are static: they compile (never run) witness units against /repo/include and analyse the IR, or ask the compiler front end to decide type-level obligations. See DESIGN.md."),open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks;",len(na),"not applicable")
