use crate::engine::Scenario;

mod approx;
mod bases;
mod edits;
mod equality;
mod features;
mod history;
mod hostile;
mod huge;
mod lawful;
mod nested;
mod optimisers;
mod panics;
mod strides;
#[cfg(feature = "serde")]
mod serde_rt;
#[cfg(feature = "sched")]
mod threads;

fn and(mut s: Vec<Scenario>, more: Vec<Scenario>) -> Vec<Scenario> {
    s.extend(more);
    s
}

fn with_huge(id: &'static str, mut s: Vec<Scenario>) -> Vec<Scenario> {
    s.push(huge::huge(id));
    s
}

pub fn scenarios(id: &str, t: bool) -> Option<Vec<Scenario>> {
    Some(match id {
        "C01" => and(with_huge("C01", features::c01(t)), vec![strides::reads_and_sums(), strides::matrices(), strides::shared()]),
        "C02" => with_huge("C02", features::c02(t)),
        "C03" => with_huge("C03", features::c03(t)),
        "C04" => with_huge("C04", features::c04(t)),
        "C05" => history::c05(t),
        "C06" => and(and(with_huge("C06", features::c06(t)), vec![lawful::vectors_from_unknown_lengths()]), hostile::parts("C06")),
        "C07" => with_huge("C07", features::c07(t)),
        "C08" => features::c08(t),
        "C09" => and(and(bases::c09(t), vec![lawful::inputs_of_unknown_length("C09")]), hostile::parts("C09")),
        "C10" => and(bases::c10(t), vec![lawful::inputs_of_unknown_length("C10")]),
        "C11" => and(and(bases::c11(t), vec![lawful::inputs_of_unknown_length("C11"), hostile::edited_features("C11")]), hostile::parts("C11")),
        "C12" => and(and(bases::c12(t), vec![lawful::inputs_of_unknown_length("C12"), lawful::edited_limits("C12"), hostile::edited_features("C12")]), hostile::parts("C12")),
        "C13" => and(and(bases::c13(t), vec![lawful::inputs_of_unknown_length("C13"), lawful::edited_limits("C13"), hostile::edited_features("C13")]), hostile::parts("C13")),
        "C14" => and(and(bases::c14(t), vec![lawful::inputs_of_unknown_length("C14"), lawful::grids_of_many_dimensions(), lawful::grids_without_end()]), hostile::parts("C14")),
        "C15" => and(and(bases::c15(t), vec![lawful::inputs_of_unknown_length("C15")]), hostile::parts("C15")),
        "C16" => and(bases::c16(t), vec![lawful::edited_kernels_in_place(), lawful::kernel_parameters()]),
        "C17" => and(and(bases::c17(t), vec![lawful::centroids_of_unknown_length(), lawful::edited_prototypes()]), hostile::parts("C17")),
        "C18" => and(bases::c18(t), hostile::parts("C18")),
        "C19" => and(and(bases::c19(t), vec![lawful::constants_of_unknown_length(), lawful::edited_constants()]), hostile::parts("C19")),
        "C20" => optimisers::c20(t),
        "C21" => and(optimisers::c21(t), vec![strides::steps()]),
        "C22" => and(optimisers::c22(t), edits::refused_steps()),
        "C23" => optimisers::c23(t),
        "C24" => approx::c24(t),
        "C25" => and(approx::c25(t), { let mut v = edits::scalar(t); v.push(strides::scalar()); v }),
        "C26" => and(approx::c26(t), { let mut v = edits::vector(t); v.extend([lawful::errors_of_unknown_length(), strides::vector()]); v }),
        "C27" => approx::c27(t),
        #[cfg(feature = "serde")]
        "C28" => serde_rt::c28(t),
        "C29" => history::c29(t),
        #[cfg(feature = "sched")]
        "C30" => threads::c30(t),
        "C31" => panics::c31(t),
        "C32" => equality::c32(t),
        _ => return None,
    })
}

pub fn level(_id: &str) -> &'static str {
    "model_checking"
}

/// The bound explored, in words (for the evidence file).
pub fn bounds(id: &str) -> &'static str {
    match id {
        "C01" => "All vectors of length 0..4 (5 thorough) over up to 12 values (incl. tiny and huge ones), structured vectors of lengths up to 131075, sparse ones of up to 2^61 features, 6 storage forms, 6 weight layouts, weights and matrices in steps of -16..16, shared and borrowed arrays, all insertion orders of up to 4 sparse entries; every read operation compared with the plain array; folds whose function uses other vectors.",
        "C02" => "All vectors of length 0..3 (4) over 11 values, structured long vectors, 6 storage forms, every function of the catalogue (f(0) zero, below and above the threshold), 3 map forms; storage-specific maps with call counts; functions that use other vectors; sparse vectors of up to 2^61 features.",
        "C03" => "All pairs of vectors of length 0..3 (4) over 3..7 values (Dense/Dense: equal lengths), 6x6 storage forms, every operation of the catalogue, 3 merge forms; structured long operands, unequal lengths included; operations that use other vectors; sparse operands of up to 2^61 features.",
        "C04" => "All pairs (6x6 storage forms, up to 8 values) of lengths 0..3 and triples (4 forms each, both groupings) of lengths 0..2 (3), plus long operands and sparse ones of up to 2^61 features.",
        "C05" => "Reachability fixpoint of all histories over a closed alphabet (values -1,0,1; bounded dimension), all histories to a depth over real-valued operations, and all histories over very small and very large activations, from several start vectors; reads, removals, stacking, merging, mapping, iteration and conversion after every step.",
        "C06" => "All index lists and entry lists up to length 4 over 0..4, all declared dimensions, all storage forms and array layouts, the conversions both ways, long index and entry lists, entries drawn from iterators that use other vectors, indices up to 2^61; every lawful `size_hint` of the iterators drawn from; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls.",
        "C07" => "All pairs of vectors of length 0..4 over 5 values plus extreme values, 6x6 storage forms, plus long operands and sparse ones of up to 2^61 features; == and != both ways round.",
        "C08" => "Every call index of the user function as panic point, for every map and merge form and pair of storage forms over vectors of length 0..4 and long ones; the vectors are then read, cloned, mutated, reassigned and dropped, and unrelated operations made on the same thread.",
        "C09" => "Every catalogue basis (and compositions) x input grid x input forms (slices, arrays, references, iterators where offered); all call sequences of bounded length over bases x inputs, any two bases in turn (among them 1-d bases whose parameters collide modulo a power of two or nearly), up to 70000 distinct inputs (1100000 thorough), similar inputs in turn, user-defined bases that use other approximators; each answer compared with the answer of a fresh basis or of an isolated process; inputs from iterators of every lawful `size_hint`; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls; histories with failing and panicking projections in between.",
        "C10" => "Every catalogue basis and composition x input grid x every index 0..n+2 and huge indices; closures returning arbitrary vectors of every storage form; inputs from iterators of every lawful `size_hint`.",
        "C11" => "All (dimension, order) with (n+1)^d bounded, full input grids; monomials recomputed independently; large bases (more than 65536 features); inputs from iterators of every lawful `size_hint`; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls; exponents, polynomials or coefficients edited in place.",
        "C12" => "Orders 0..11 in 1-D, bounded orders up to 4-D, several limits (unit, shifted, narrow, extreme), full grids; oracle is the three-term recurrence and the trigonometric form; large bases; limits changed after construction, input iterators of every lawful `size_hint`; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls; exponents, polynomials or coefficients edited in place.",
        "C13" => "All (dimension, order) within bounds, several limits (unit, shifted, narrow, extreme), full grids inside and outside; large bases; limits changed after construction, input iterators of every lawful `size_hint`; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls; exponents, polynomials or coefficients edited in place.",
        "C14" => "All grids of 1..4 dimensions with unequal partition counts x every cell interior, exactly representable boundary and exterior point; large grids (more than 65536 cells per axis, more than 2^32 cells); one ulp either side of every boundary where all arithmetic is exact; 5..300 dimensions, infinite coordinates, input iterators of every lawful `size_hint`; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls.",
        "C15" => "All tilings counts up to the bound x all pairs of points of a fine grid around the origin in 1..3 dimensions with an injective recording hasher; many variables and tilings; small memories with real hashers; every slot of the memory reachable; coordinates of any magnitude up to f64::MAX; input iterators of every lawful `size_hint`; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls; hashes spread over 64 bits.",
        "C16" => "All kernels x hyper-parameters x point pairs of grids in 1..4 dimensions, 40-dimensional points, distances from 1e-9 to 1e6; Gram matrices of all small point sets; defaults and aliases; hyper-parameters from 1e-6 to 1e6 and changed in place; scalar inputs against several lengthscales.",
        "C17" => "All prototype lists up to length 4 over kernels with different parameters; all partitionings up to 3 dimensions with unequal counts; up to 70000 prototypes; centroid iterators of every lawful `size_hint`, prototypes changed in place; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls.",
        "C18" => "All vectors of length 0..4 over 7 values x storage forms x 4 norms, magnitudes from 1e-290 to 1e300, nested normalisations, vectors of up to 131075 entries, every basis of the catalogue; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls.",
        "C19" => "All compositions of parts up to depth 3 incl. failing parts x inputs; stacks of arbitrary vectors; long stacks and constants; closures of every return form; constants from iterators of every lawful `size_hint`, constants changed in place; the user's own parts (hashers, kernels, iterators, lent inputs) panicking at or using the library in each of their calls.",
        "C20" => "Per optimiser and hyper-parameter set: all histories to the depth bound over a wide alphabet, deeper over a narrow one, all histories of a long horizon with at most 2 deviations, more than 65536 steps, magnitudes down to squares that underflow the denominator, weights from 1e-320 to 1e300 to start with, weights replaced between steps, weight counts up to 1000; steps refused by an error or a panic before the reset; any hyper-parameters (negative rates, momenta from -1 to 1.25, extreme decay rates).",
        "C21" => "All step histories to the depth bound x all storage assignments x 6 weight layouts x dense layouts; weights in steps of -16..16; weights from 1e-320 to 1e300, magnitudes, faint steps, insertion orders, long mixed vectors; any hyper-parameters (negative rates, momenta from -1 to 1.25, extreme decay rates).",
        "C22" => "All prefixes x reset x all suffixes to the depth bounds, long prefixes (more than 65536 steps), prefixes with non-finite gradients, alternating resets, weights from 1e-320 to 1e300, weight counts up to 1000; any hyper-parameters (negative rates, momenta from -1 to 1.25, extreme decay rates).",
        "C23" => "All histories over gradient patterns leaving a coordinate untouched, to the depth bound, long horizons (more than 65536 steps), weights from 1e-320 to 1e300, weight counts up to 1000; finiteness over extreme gradients.",
        "C24" => "Basis catalogue x inputs x learning rates x targets, long and extreme features, errors and targets up to 1e100; all cyclic and all bounded aperiodic schedules over small independent input sets.",
        "C25" => "All interleavings of evaluate/update/update_with to the depth bound x bases x optimisers, incl. a recording mock optimiser; feature counts up to 1000, extreme magnitudes, long histories; weights laid out in steps of -16..16; error functions, bases and optimisers that use other approximators; weights, basis or optimiser replaced, moved, re-laid out or edited between operations.",
        "C26" => "All histories of full/indexed/deferred updates to the depth bound x outputs 0..4 x bases x optimisers; many outputs and features, extreme magnitudes, faint activations, deeper histories for one basis; weight matrices in steps of either sign; callbacks that use other approximators, surplus errors; error iterators of every lawful `size_hint`; weights, basis or optimiser replaced, moved, re-laid out or edited between operations.",
        "C27" => "Every placement of failing projections and failing optimiser steps in every operation history to the bound, scalar and vector.",
        "C28" => "Every serialisable type x configuration x every save point of every history to the bound x JSON and bincode; every truncation of what was saved; sizes up to 1000; overflowed optimiser states (bincode); sparse vectors of up to usize::MAX features; saves whose writer fails or panics at each byte and restores cut there, followed by others.",
        "C29" => "All interleavings of operations on an original and its clone to the depth bound, with every clone point, by clone and by clone_from into values of other sizes, storage forms and histories, faint histories before the clone; mutation of a basis's public parts.",
        #[cfg(feature = "sched")]
        "C30" => "All interleavings, up to the preemption bound, of 2 (3 thorough) threads reading a shared model or working on their own models and vectors; scheduling points at every instrumented atomic, static-data access, write to foreign heap memory (and later reads of it), lock operation and call; auto-trait facts for every public type.",
        "C31" => "Every callback (basis at every place of a composition, error function, the creation of the error iterator, the j-th error, the j-th optimiser step) as panic point, in every operation history to the depth bound, 7 optimisers, scalar and vector, 2..40 features, 1..4 (9) outputs.",
        "C32" => "All pairs of vectors of one storage form of length 0..3 (4) over 3..7 values, long vectors differing in one place, all pairs of catalogue configurations of every basis, of stacks and normalisers of each, kernel and prototype (centroids of different lengths too), optimisers after all pairs of histories to depth 3 (4), all pairs of index errors, the error of every catalogue basis, and of user bases that rely on the trait's default, for indices out of range; configurations changed in place; closures of several declared sizes.",
        _ => "",
    }
}
