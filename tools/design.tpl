# Contract-based deductive verification of microjax

`properties.jsonl` states what should hold; this file says how each statement is decided, what is trusted,
what is only bounded, and what was found.  `MANIFEST.json` and `properties.jsonl` are generated from one
source (`tools/props_data.py`, `python3 tools/meta.py`) so that they cannot drift apart.

## 1. Method

There is no off-the-shelf deductive verifier for JAX programs, so one was built here (`vc/`).  It verifies
the program that runs, not a model of it:

1. **Extraction.**  On every run the current source in `/repo/src/microjax` is imported and each function
   under contract is traced by JAX itself (`jax.make_jaxpr`).  The jaxpr is the program XLA compiles and
   executes.  Nothing is transcribed by hand.  What the extraction drops: Python-level branches on *static*
   arguments other than those instantiated by the contract (lens count, table sizes, flags -- each contract
   says which), docstrings, and the `jit` boundaries (semantically transparent).  `custom_jvp` functions are
   traced both as primal and under `jax.jvp`.  The pure-NumPy code is executed as Python on arrays of
   symbolic terms instead (section P19/P21).
2. **Symbolic execution** (`vc/jx.py`).  The jaxpr is interpreted over hash-consed terms (`vc/term.py`) with
   sorts real, complex, integer, boolean; *all inputs are symbols*.  `while` loops are not unrolled: a
   contract provides an invariant (P06) or the loop is run from a symbolic state for one arbitrary
   iteration; `scan` over a fixed-size axis is unrolled for representative sizes, or its body is verified
   once.  Calls to functions with their own contract are replaced by that contract (`vc/stub.py`): the caller
   is checked against arguments and an arbitrary result, never against the callee's body.
3. **Obligations.**  Every postcondition, loop obligation, callee-argument (precondition) check and lemma
   becomes a named goal.  Back ends:
   * `vc/norm.py`/`vc/poly.py`: exact normaliser.  A term becomes a ratio of polynomials over Q[i] in the
     inputs, their conjugates, square-root atoms, exp atoms and opaque atoms; equality is decided by zero of
     the numerator after the relations `s^2 = radicand`, `i^2=-1`, `exp(a)exp(b)=exp(a+b)`, `sin^2+cos^2=1`.
   * `vc/prove.py`: the same with case splitting over `ite` conditions (closed by z3 for infeasible cases).
   * `vc/smt.py`/`vc/direct.py`: z3 4.x for linear/nonlinear real and integer conditions (orderings, masks,
     permutations, intervals).
   * `vc/moments.py`: sums over a data axis of arbitrary length; see P12, P15, P16.
   * `vc/anylen.py`: arrays of *symbolic* length.  JAX traces the real function with a symbolic dimension `n`
     (shape polymorphism); the jaxpr is read as quantified formulas over `Int -> Real` functions, in which
     `sort`, `argmax`, `min`, `max`, `any`, `all`, `sum`, `digitize` and scatter-add appear as their contracts
     (sorted permutation with its inverse, first extreme element, witness or bound, ...), and z3 proves the
     postcondition for every `n`.  A goal z3 cannot settle is counted as bounded (the fixed-length
     obligations on the same function decide), never as proved; a counterexample is reported when the real
     function fails on it or when it persists after re-tracing at the concrete length of the model.
4. **Failure.**  An obligation that is not discharged is a violation.  Before reporting it, (a) the verifier's
   counterexample (high-precision evaluation of the goal, or the z3 model) is replayed on the real function,
   and (b) the contract's falsifier runs the real code on random inputs against an independent evaluation of
   the same postcondition.  If either shows the failure on the real code it is written in the replay file;
   otherwise the VIOLATION line ends in `no-failing-input-found`.  A goal whose only problem is
   timeout/"unknown" and that no numeric evaluation refutes is still reported (never silently dropped).
5. **Vacuity guards.**  Every contract states the minimum number of goals; callee stubs must have been
   called; hypotheses are checked satisfiable where a goal uses them (`vacuity` in `direct.py`); a contract
   whose trace no longer has the expected shape (function renamed, argument removed) is itself a failed
   obligation "vc-generation" plus falsifier, never a pass.

6. **Budget.**  A quick run stops at 840 s; it also stops 150 s after the first refuted obligation that is not
   a known finding (the remaining contracts are then left out of that run's evidence, the run is exit 1
   anyway).  Each worker is limited to 12 GB.

Exact check: `bash check.sh PID` → `run.py` → all contracts of `props/PID.py` in a process pool, evidence in
`evidence/PID.json` (functions under contract, obligations, discharged by which back end, solver time,
assumptions).  `VERIF_TIER=thorough` raises sample counts, sizes and budgets.

### Assumptions common to all properties (also in every evidence file)

* Floating-point arithmetic is treated as exact real/complex arithmetic.  Rounding, overflow, signed zeros and
  NaN propagation are not modelled; NaN/inf literals are tracked as special symbols and never cancelled.
* A float literal that is the nearest double of a short decimal / small fraction / such a fraction times a
  power of pi is read as that number (`term.nice`).
* Identities hold wherever no denominator vanishes ("defined values").
* `jax.make_jaxpr` gives the program JAX executes; the semantics of jaxpr primitives in `vc/jx.py` is
  trusted, as is the normaliser and z3.  Adequacy test: `tools/selftest.py` evaluates the symbolic result of
  every contract that abstracts nothing at random points in 50 digits and compares it with the real function
  there (87 contracts, 579 values, no mismatch at the time of writing).
* Array *sizes* are concrete in a jaxpr.  Where a property quantifies over sizes, the statement is proved for
  representative sizes, and for any size where the moments technique (P12, P15, P16) or a loop invariant (P06)
  or the symbolic-length interpreter (P10, P14) applies; "representative" is stated per property below and in the
  evidence as `note`/`bounded`.

## 2. Properties

| id | level | obligations | what is proved |
|----|-------|-------------|----------------|
@@TABLE@@

### P01 lens map and Jacobian
`lens_eq`, `lens_eq_det_jac` for n = 1, 2, 3, z and every lens parameter symbolic; equality with the rational
spec (`vc/spec.py`) by the normaliser.  Unbounded.

### P02 image and critical polynomials
Spec: the lens equation with conj(z) eliminated, expanded symbolically by the checker (not transcribed from
the code).  Coefficient-by-coefficient ring identity, degrees 5/10 and 4/6; centre-of-mass and mid-point
frames.  Lemma goals: the polynomial vanishes at every z that solves the lens equation.  Unbounded.

### P03 images and point-source magnification
The root solver is a contract (arbitrary complex output).  Proved: the polynomial handed to it is the P02
spec for that source and lens (with the frame shift); candidate = root + frame offset; flag = residual test
with the documented tolerance; magnification = sum over flagged of 1/|det J|; batch shapes (), (2,), (2,2),
sequential variant (its scan body carries roots, never a mask).  The single lens is compared with the closed
form.  Lens-count rejection is executed.  Documented code oddities (not defects against the statement): the
sequential triple ignores `custom_init`; the triple centre-of-mass shift uses the two main lenses only
(documented frame).

### P04 critical curves
As P03, with the matcher as an arbitrary permutation.  `tracking_*` obligations check that the matcher is
started on the previous sample.  3 phases (the scan body is the same for each).  Single-lens ring executed.

### P05 matching
`argsort`/`sort` become their contract (arbitrary permutation ordering the keys; `vc/perm.py`); z3 proves per
output slot: in range, distinct from earlier slots, nearest among unused, for N = 4, 5, 6, 10.

### P06 root solver
Loop invariant for the `while`: initial state, guard, one arbitrary iteration (Aberth step, frozen roots,
counter, done test), exit rounding, degrees 4, 5, 6, 10, batches; `custom_jvp` rule = implicit
differentiation; Cauchy bound of starting points.  Convergence is not claimed (nor stated).  Bounded
addition: after one to three iterations the real solver agrees with an independent transcription of the
Aberth step (`num_steps`), used as falsifier and as `execution_steps`.

### P07 multipole
`_mag_hexadecapole_cassan` at arbitrary W2..W6 equals the Taylor terms computed by symbolic differentiation
along the lens map, times exact limb-darkening moments; `mag_hexadecapole` passes the true derivatives.

### P08 limb profile and boundary weights
Identity, non-negativity and unit flux of the profile (antiderivative differentiated by `jax.jvp`); strict
membership; square-root cell weight as an integral identity; distances; every custom derivative rule: primal
equality and derivative formula.  Two known findings (below).

### P09 adaptive light curves
Drivers against contracts of images/multipole/tests/integrators: every outcome pattern of the tests, budgets
and chunk sizes at representative epoch counts; every callee argument (a failed one is replayed by sending 1800 epochs around both kinds of caustic through the real
driver with a recording stand-in for the integrator); the tests' formulas for all inputs
(`_caustics_proximity_test` has dead third-lens terms: proved for two lenses).

### P10 region construction
Stage contracts over arbitrary sample values (z3), for small numbers of samples and -- clustering (4 bins),
occupancy, radial merge (2 and 3 rows), final refinement -- for **any number** of limb samples (`any_number_*`):
limb images -> `cluster_1d` (every non-zero sample in an interval; intervals = maximal runs of occupied bins)
-> radial merge with margins -> `in_mask` (a product cell is kept iff a sample lies in it) -> pairing glue ->
wrap merge (`_merge_final`) -> `_refine_final`.  Composition: each stage's postcondition is the next stage's
precondition, so a positive-radius sample off the angular bin edges lies in a returned cell.  Excluded: exact
bin edges (floating-point tie), capacity overflow (known finding).  End-to-end runs are labelled bounded.

### P11 inverse-ray quadrature
Regions, distances, interpolation, weight and profile behind contracts; every in/out pattern of an angular
row; result equals the quadrature sum.  Representative grid (2 regions, 2 radii, 7 angles); executions at
production grids (450 x 1000, 1000 x 400) against an independent NumPy quadrature are labelled bounded.

### P12 contour integral
Uniform: shoelace sum for any number of vertices (moments along the contour; the padding step by its own
obligation), short buffers with every fill level; origin/start/orientation lemmas.  Limb-darkened: Dominik
P/Q primitives with the stated split quadrature (data symbolic, small order); profile; public routine against
callee contracts.  `mixed` moments: atoms may contain parameters fixed along the contour.

### P13 contour assembly
Every validity/parity/jump pattern of short tracks, joining of pieces, joining condition, merging loop
against helper contracts.  Capacities (10 runs per track, 3(n^2+1) runs, 3 contours, buffer length) are
preconditions; an image at exactly z = 0 with zero padding and single-vertex runs (dropped by design) are
stated in the contract.  Limb sampling (`limb_*`): `_images_of_source_limb` is run against the contracts of
the point-source solver (images as opaque functions of the source point), of the Jacobian determinant and of
the follower, while the intervals chosen for refinement follow 25 arbitrary scripts per size: every sample
lies on the limb, all samples are different limb points covering the circle, in order of angle; the images,
masks and parities of one column belong to one limb point; the de-duplication moves an image by at most
4e-9 and makes equal images different; every callee gets the lens parameters of the call.

### P14 zero-padded helpers
Any length, any content, for every helper (positions of zero and nonzero entries along either axis of a matrix)
(`any_length_*`; mean and trapezoid through the contract of sums: equal summands give equal sums).  Besides: every
pattern of zeros for lengths <= 5 with symbolic contents,
and executed arrays up to 1500 entries (bounded).

### P15, P16 likelihood
Any number of data points: reductions are expanded by linearity into moment symbols after the program is
proved uniform along the axis and length-independent.  Dense noise: `LU`/`solve` as assumed contracts.

### P17, P18 parallax
Orthonormal basis, rotation, tangent removal, bilinear displacement; Kepler solver by rigorous error bounds
of the fixed Newton iterations (Taylor bounds of sin/cos assumed), perihelion table by z3 (including that no
other entry of the table is nearer than the one chosen).  P18 shares P17's contracts of the orbit position and
of the orientation of the orbit, so an inconsistent pair (perihelion, equinox) is refuted there too.
`peri_vernal` pairs the equinox of the same orbit with the nearest perihelion (documented).

@@FASTLENS@@

## 3. Genuine defects found

Repaired (one `fix:` commit each in /repo; `known_findings.json` "fixed"):
@@FIXED@@

Open (reported as KNOWN-FINDING, exit 0):
@@OPEN@@

## 4. False alarms met while building, and what was done

* P06: exact-arithmetic `den == 0` guards compared with a tolerance in the code: postcondition weakened to
  the documented guard (step claimed when |den| > 1e-12 and the roots are distinct).
* P10: samples exactly on angular bin edges depend on rounding of the edge: excluded from the statement.
* P13: a run of one vertex is dropped by the code on purpose (no edge): the statement says "at least two".
* P17: the reference velocity is a symmetric difference, not the exact derivative; the statement was
  corrected.
* P03/P04: the code's triple centre-of-mass convention ignores q3; this is the documented frame, and the
  specification uses it.

## 5. Planted bugs (seeded/) and the checks that catch them

@@BUGS@@

Besides the obligations named there, changes that keep the behaviour (extra comment, no-op statement, helper
extraction, reordering of statements, rewritten loops) were applied to scratch copies; the verdicts do not
depend on the source text, only on the traced program up to the semantics above.

## 6. Limits

* No statement about rounding error, convergence of iterations or adequacy of fixed resolutions is made.
* Sizes: see "representative" above.
* `vc/` itself is trusted (about 5200 lines, with z3's quantifier instantiation for `vc/anylen.py`); mitigations are the numeric cross-checks, the falsifiers and
  the planted bugs.
