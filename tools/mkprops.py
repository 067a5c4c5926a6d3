#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

T='src/tensor/tensor.rs'; D='src/tensor/data.rs'; S='src/tensor/shape.rs'; M='src/tensor/map.rs'
prop('C01','Every stored element is destroyed exactly once, after its last sharer',
 "Whatever sequence of construction, cloning, slicing, reshaping, computing and dropping is applied to tensors, every element is destroyed exactly once, never while any tensor that can still read it is alive, and no later than when the last tensor sharing its storage is dropped. Calls that are rejected (they panic) never destroy an element twice or destroy an element somebody can still read, and a rejected call whose own argument checks failed loses no element either; only an operation interrupted by a panic in the caller's own function may leave elements undestroyed.",
 ['histories','fault_sequences'],'all finite histories of public operations over any number of tensors sharing storage, including rejected calls and caller functions that panic at any call',
 'src/tensor/test/data.rs drops a handful of hand-written tensors; no test interleaves views, consuming operations, rejected calls and panicking closures over shared storage.',
 [D,T,M,'src/tensor/from.rs'],[('Arc-shared TensorData with a single owning Drop','%s:TensorData::drop'%D),('uninitialised buffer handed over only once fully written','%s:unsafe_init'%D)],
 [('data','shared storage of a tensor','%s:Tensor.data'%T)],['element constructor/clone/drop counts','element liveness at every read'])
prop('C02','Tensors shared between threads keep their contents and are freed once',
 "When tensors that share storage are cloned, read, sliced and dropped by several threads in any interleaving, every thread always reads the original contents, no element is destroyed while some thread still holds a tensor sharing it, and each element is destroyed exactly once, when the last holder on any thread is gone. Tensors of elements that must not be shared between or moved to other threads cannot be shared or moved either.",
 ['schedules'],'all interleavings of clone, view, read, send and drop steps over the threads',
 'No test in the repository touches tensors from more than one thread.',
 [D,T],[('atomic reference counting of the storage','%s:Tensor.data'%T),('Send/Sync of read-only storage','%s:unsafe impl Send/Sync'%D)])
prop('C03','Tensors are immutable: no operation changes any other tensor',
 "Once created, a tensor's shape and elements never change for as long as it lives, whatever operations are later performed on it, on its clones, on tensors sharing its storage or on unrelated tensors, and whether those operations succeed or are rejected. In particular operations that consume their operand leave every other tensor sharing that operand's storage unchanged.",
 ['histories'],'all histories of operations over tensors that alias one another in any pattern',
 'Existing tests check the result of one operation and never re-read the operands or aliases afterwards.',
 [T,S,M,'src/math/num.rs','src/array'],[('results are always written to fresh storage; views only read','%s:unsafe_init'%D)])
prop('C04','Views denote exactly the selected part of their source',
 "A sub-range along the first axis, a flat sub-range with a new shape, a reshape, a flattening, a removal or insertion of unit dimensions, and a clone each denote exactly the elements of their source they name, in the same order, with the documented shape (removing unit dimensions keeps at least one dimension; removing a named non-unit dimension changes nothing), including when the source is itself a view. Ranges outside the source, element counts that do not match the requested shape, invalid insertion positions and ranks above the maximum are rejected.",
 ['inputs','histories'],'all shapes up to the maximum rank, all offsets, lengths and axes, and all chains of views of views',
 'Tests take one view of a fresh tensor for a few shapes; views of views, views with a tail and boundary ranges are not exercised.',
 [T,S],[('offset/size window over shared storage','%s:subslice_flat, subslice'%T),('size-preserving shape change','%s:reshape, squeeze, expand_dims, flatten'%S)],
 [('offset,size,shape','window and shape of a view','%s:Tensor'%T)])
prop('C05','All ways of reading a tensor agree',
 "For every tensor, however it was produced, its flat slice, element lookup, flat indexing, two- to five-dimensional indexing, iteration, row iteration, dereference to a slice, wrapped slices, printed form and shape queries all describe the same elements in the same row-major order with the same shape. Lookups outside the tensor give no element (lookup) or are rejected (indexing, wrapped windows), never memory of another tensor.",
 ['inputs','histories'],'all tensors (any shape, rank, offset, sharing) and all index arguments in and out of range',
 'Tests read fresh tensors through one accessor; accessors on views and indices near the end are not compared.',
 [T,'src/tensor/index.rs',S],[('row-major stride arithmetic and bounds checks','src/tensor/index.rs'),('window pointer','%s:as_ptr, as_wrap_slice, as_wrap_slice_n, get'%T)])
prop('C06','Constructing a tensor preserves the data and the shape',
 "Building a tensor from a scalar, option, vector, nested vectors, arrays, nested arrays, slices, iterators, boxed slices, merged tensors, lists of tensors or an initialiser function yields exactly the given elements in order with the shape implied by the nesting or requested by the caller, and the element count always equals the product of the shape. Ragged input, lists of differently shaped tensors and data whose length does not match the requested shape are rejected.",
 ['inputs'],'all element sequences, nesting depths, lengths and requested shapes, for every element type',
 'Tests use a few literals per conversion; mismatches, ragged input at inner levels and unusual lengths are untested.',
 ['src/tensor/from.rs',T,M,D],[('length/shape assertion on every construction','%s:Tensor::new'%T),('row-major flattening','src/tensor/from.rs')])
prop('C07','Shape arithmetic is consistent',
 "Every query on a shape (size, rank, dimension from either end, rows, columns, batch size, partial products) agrees with its list of dimensions, and every edit (replace, insert, remove, append, push, pop, expand, squeeze, reduce, change rows or columns) yields exactly the dimension list the edit names and leaves the shape equal to one built directly from that list. Edits at positions outside the shape or beyond the maximum rank, and broadcasts of shapes whose trailing dimensions differ, are rejected.",
 ['inputs'],'all dimension lists up to the maximum rank and all positions',
 'src/tensor/test/shape.rs checks a few shapes of rank 1 to 4; high ranks and most edits are untested.',
 [S,'src/tensor/axis.rs'],[('reversed fixed-size dimension array','%s:Shape'%S)],[('dims,rank','dimensions','%s:Shape'%S)])
prop('C08','Element-wise mapping applies the function to the right elements',
 "Mapping a function over one, two or three tensors applies it exactly once per result element to the correspondingly positioned elements of the operands, in row-major order, where an operand of lower rank is repeated along the missing leading dimensions. The result has the shape of the operand of highest rank, row-wise and expanding maps replace or append the last dimension by the number of values returned, and operands whose trailing dimensions differ are rejected.",
 ['inputs'],'all functions, all shapes and ranks of the operands, and operands that are views of larger tensors',
 'Tests map a few equal-shaped fresh tensors.',
 [M,S],[('broadcast shape and wrapped operand slices','%s:map, map2, map3, map_row, map_expand'%M)])
prop('C09','Arithmetic operators and math functions equal the scalar ones per element',
 "Every arithmetic, bitwise, comparison, complex, integer and floating-point function on tensors, in every operand form (owned or borrowed tensors, a scalar on either side, a lower-rank operand), produces at each position exactly the value of the corresponding scalar function on the operands' elements in the written operand order.",
 ['inputs'],'all functions, operand forms, element values (including zeros, infinities and NaN) and broadcastable shapes',
 'Tests check a handful of functions on one or two literals and mostly commutative operators.',
 ['src/math/num.rs','src/math/float.rs','src/math/integer.rs','src/math/complex.rs'],[('one macro per operator form delegating to map/map2','src/math/num.rs:tensor_ops2')])
prop('C10','Folding and reducing along an axis visits exactly that axis, in order',
 "Folding or reducing a tensor, whole, along an axis counted from either end, or row-wise along a leading axis, gives at each remaining position the fold of exactly the elements (or rows) lying along that axis at that position, in increasing order and each visited once, starting from the given initial state (or the first element). The result's shape is the source shape without that axis, and a reduction of an empty tensor or a row fold along the last axis of a matrix is rejected.",
 ['inputs'],'all folding functions (including non-commutative and non-associative ones), shapes, axes and views',
 'Tests use rank 1-3 tensors and sums, which are insensitive to order and to many index mistakes.',
 [M,'src/tensor/axis.rs'],[('outer/axis/inner decomposition','src/tensor/axis.rs:Axis::reduce, reduce_row'),('fold loops','%s:fold_axis, fold_row, reduce_axis'%M)])
prop('C11','Numeric reductions equal their mathematical definitions',
 "Sum, product, minimum, maximum, mean, population variance, standard deviation and root of the sum of squares of a tensor, whole or along an axis where offered, equal their mathematical definition over exactly the selected elements up to floating-point rounding.",
 ['inputs'],'all shapes, axes, views and element values',
 'Tests use a few short vectors.',
 ['src/math/reduce.rs',M],[('fold states Mean, Std, Var, Hypot','src/math/reduce.rs')])
prop('C12','Normalisation rescales each group and keeps every element in place',
 "Normalising a tensor along an axis (or as a whole) keeps its shape and replaces each element, in place, by the normalising function of that element and the completed accumulation of exactly the elements of its group along the axis; unit normalisation maps the minimum to 0 and the maximum to 1 linearly.",
 ['inputs'],'all shapes, axes, views and functions',
 'Only vectors are tested, where position mistakes cannot show.',
 [M,'src/math/normalize.rs'],[('per-group accumulate/complete/norm loops','%s:normalize'%M)])
prop('C13','Concatenating and stacking place every operand element once, in order',
 "Concatenation along any axis (counted from either end), stacking along a new axis, and the horizontal, vertical and depth variants, in function and method form and for every kind of operand list, contain exactly the elements of the operands, operand by operand along the joined axis with all other coordinates unchanged, and the result shape is the operands' shape with that axis summed (or inserted). Operand lists whose other dimensions or ranks differ, and results above the maximum rank, are rejected.",
 ['inputs'],'all operand counts, shapes, axes and operands that are views',
 'Tests cover rank 1-3 with two operands and small literals.',
 ['src/array/stack.rs','src/tensor/from.rs'],[('outer/axis/inner copy loops','src/array/stack.rs:concat_axis, stack_vec')])
prop('C14','Splitting partitions a tensor and is undone by joining',
 "Splitting along any axis, into equal sections or at given positions, yields consecutive non-empty parts which together contain every element exactly once with all other coordinates unchanged, so that concatenating the parts along the same axis gives back the original; unstacking yields one tensor per position with that axis removed, undone by stacking. A section count that does not divide the axis, and positions outside the axis or out of order, are rejected.",
 ['inputs'],'all shapes, axes, section counts and cut positions, for tensors and views',
 'Tests split two small tensors; unstacking is not tested at all.',
 ['src/array/split.rs','src/array/stack.rs'],[('cut list and per-axis copy or view','src/array/split.rs:split_axis, split_by_axis')])
prop('C15','Transposing and tiling rearrange elements as specified',
 "Transposing swaps the last two coordinates of every element within each leading batch (a vector becomes a single column) and is its own inverse for matrices and batches of matrices; tiling repeats the tensor along each axis the requested number of times, so the element at any position is the source element at that position modulo the source shape, with missing leading dimensions or multiples taken as one. A multiple of zero is rejected.",
 ['inputs'],'all shapes, multiples (fewer, equal or more than the rank) and views',
 'Tests use a few rank 1-3 literals.',
 ['src/array/transpose.rs','src/array/tile.rs'],[('index permutation loop','src/array/transpose.rs'),('recursive tiling','src/array/tile.rs:tile_rec')])
prop('C16','Pattern matrices and grids have exactly the specified entries',
 "Zero, one and constant fills, identity, triangular and diagonal matrices, lower and upper triangle extraction (per leading batch, square or not), one-hot vectors and coordinate grids in both index orders (one to three axes) have exactly the specified entry at every position and the specified shape.",
 ['inputs'],'all sizes, shapes, diagonals, axes lengths and source tensors including views',
 'Tests compare a few fixed small sizes.',
 ['src/init/matrix.rs','src/init/mod.rs','src/init/vector.rs'],[('index predicate initialisers','src/init/matrix.rs')])
prop('C17','Ranges and spaced sequences have the right endpoints, spacing and length',
 "A stepped range contains exactly start, start+step, ... strictly before end, for positive and negative steps, and rejects a zero step or a step pointing away from the end; linearly, logarithmically and geometrically spaced sequences have the requested number of points, begin at the start, end at the end and are evenly spaced in the respective scale, independently for each entry of vector endpoints, with the new axis first, up to rounding. Endpoints of different shapes or in decreasing order are rejected.",
 ['inputs'],'all endpoints (scalar or tensors of any rank), steps, lengths and bases',
 'Tests check scalar endpoints, ascending ranges and short lengths.',
 ['src/init/vector.rs'],[('per-entry interpolation loops','src/init/vector.rs')])
prop('C18','Matrix products equal the definition for every shape and transposition',
 "The product of two matrices, and of every pair of corresponding matrices of equally batched tensors, with every transposition mode and for a matrix applied to one or several vectors, equals the sum-of-products definition, and the result shape is the batch shape followed by result rows and columns. Operands whose inner dimensions or batches do not match are rejected.",
 ['inputs'],'all matrix sizes (square or not), batch shapes, transposition modes and operands that are views',
 'Tests use small square or single cases and pin neither non-square result shapes nor batches of views.',
 ['src/linalg/matmul.rs','src/linalg/matvec.rs','src/linalg/blas.rs'],[('stride-parameterised gemm per batch entry','src/linalg/matmul.rs:matmul_t, src/linalg/matvec.rs:matvec_t_f32')])
prop('C19','Seeded generators produce the specified streams, always in range',
 "A generator with a given numeric or textual seed always produces the same stream of integers, defined by its published recurrence for every step, for the 32-bit and the 64-bit generator alike; uniform values derived from it lie in [0, 1] and are the integer scaled to the full integer range, and normal values are finite and the Box-Muller transform of two consecutive uniform values.",
 ['inputs','histories'],'all seeds, all positions in the stream and all interleavings of integer, uniform and normal draws',
 'Tests print or sample a few values for one seed.',
 ['src/random/random.rs'],[('LCG state update and output permutation','src/random/random.rs:Rand32, Rand64')])
prop('C20','Per-thread random seeding is deterministic and never shared between threads',
 "After a global (non-zero) seed is set, the generators of threads that draw their first random number afterwards are seeded by successive elements of the chain determined by that seed, each element being used by exactly one thread whatever the interleaving of the threads' first draws; every thread's later draws depend only on its own first seed.",
 ['schedules'],'all interleavings of seeding and first draws over any number of threads',
 'Tests run in one thread with the seed fixed.',
 ['src/random/random.rs'],[('compare-and-swap claim of the next seed','src/random/random.rs:LOCAL_RNG')],[('SEED','last claimed element of the seed chain','src/random/random.rs:SEED')])
prop('C21','Random tensors follow the requested distribution and are reproducible by seed',
 "A random tensor has the requested shape; with a seed it is the same on every call and its elements, in row-major order, are the seeded generator's normal draws scaled and shifted by the requested standard deviation and mean (normal) or the seeded draws scaled into the requested range (uniform), options being settable in any order.",
 ['inputs'],'all shapes, option combinations and seeds',
 'Tests pin a few numbers for one seed.',
 ['src/init/random.rs'],[('option structs Normal, Uniform and stream initialisers','src/init/random.rs')])
prop('C22','Histograms count every sample once in the right bin',
 "A one- or two-dimensional histogram returns the requested number of bins with evenly spaced edges from the minimum to the maximum of the data, and each count is the number of samples in that half-open bin (the last bin closed), so that the counts add up to the number of samples (samples that are all equal fall into one bin); in two dimensions rows are the bins of the second coordinate and columns those of the first.",
 ['inputs'],'all data (any length, repeated, negative or constant values, views) and bin counts',
 'The existing histogram tests do not pass reliably and use one data set.',
 ['src/stats/histogram.rs','src/stats/histogram2d.rs'],[('bin index computation','src/stats/histogram.rs, src/stats/histogram2d.rs')])
prop('C23','The windowed spectrum of each row is its own discrete Fourier magnitude',
 "The real-spectrum magnitude of a tensor replaces each row by the magnitudes of the discrete Fourier transform of that row after applying the periodic Hann window, keeping all leading dimensions; the row length becomes half the input length plus one, or the requested length, truncated or padded with zeros.",
 ['inputs'],'all row lengths, numbers of rows, leading dimensions, output lengths and views',
 'The existing test does not pass reliably and covers one vector.',
 ['src/signal/rfft.rs'],[('per-row windowing and transform','src/signal/rfft.rs:rfft_norm')])
prop('C24','WAV decoding returns exactly the encoded samples and rejects anything else',
 "Decoding a 16-bit PCM WAV image returns one row per frame and one column per channel holding each signed little-endian sample divided by 32768, and the sample rate. Images with a wrong signature, chunk layout, length field, format or sample width, or truncated data, are rejected.",
 ['inputs'],'all byte sequences; all channel counts, rates and sample values of well-formed images',
 'One asset file is decoded in tests.',
 ['src/io/decode_wav.rs'],[('byte cursor and header assertions','src/io/decode_wav.rs')])
prop('C25','Reading a file returns all its bytes',
 "Reading a file returns exactly the bytes the file delivers until its end, however the operating system portions them out, and a file that cannot be opened gives an error instead of data.",
 ['inputs','schedules'],'all contents and lengths and all ways in which reads return fewer bytes than asked for',
 'Tests read one small regular file, where one read returns everything.',
 ['src/io/read_file.rs'],[('single pass over the file','src/io/read_file.rs')])
prop('C26','Generated option builders set exactly the named field',
 "For an option structure processed by the option attribute, starting from no options every field has its default, each setter replaces exactly the named field by the given value (converted into the field's type, wrapped for optional fields) and keeps all others, so the final options are determined by the last value given for each field in whatever order setters are called.",
 ['histories','programs'],'all structures with any mix of optional and plain fields and all sequences of setter calls',
 'One test uses a structure with a single field and a single call.',
 ['crates/essay-opt/src/options.rs'],[('generated trait and two implementations','crates/essay-opt/src/options.rs:arg_methods, nil_methods')])
prop('C27','Equality and ordering of tensors depend only on shape and elements',
 "Two tensors are equal exactly when their shapes and their elements in order are equal, regardless of how or where they are stored; tensors of equal shape are ordered lexicographically by their elements in row-major order, and incomparable elements make the tensors incomparable or unequal at that point.",
 ['inputs','histories'],'all pairs of tensors, including views of one storage and elements that are not comparable',
 'Equality is used everywhere in tests on fresh tensors but never probed with near misses or views; ordering is untested.',
 [T,'src/math/num.rs'],[('shape and slice comparison','%s:PartialEq, src/math/num.rs:PartialOrd'%T)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
