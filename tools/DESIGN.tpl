# Solver-based checking of gravity-toolkit

## How a property is decided

`symx/` is a symbolic executor for numpy code.  `symx/load.py` imports `/repo/gravity_toolkit` twice on
every run, straight from the working tree: once untouched (REAL) and once (SYM) with `numpy`, `math` and parts of
`scipy` replaced by `symx/nps.py`, an array module whose elements may be symbolic.  Nothing of the
package is re-written or modelled by hand: the real functions run, statement by statement, on symbolic numbers.
The encoding is therefore regenerated from the current source by construction, and it follows what
the code computes, not how it is written (helpers, reordering and rewritten loops need no change here).

* **Values** (`symx/core.py`) are polynomials over atoms. Atoms are symbolic inputs (bounded reals or
  integers) and applications of functions (`sqrt`, `exp`, `cos`, `floor`, `1/x` ...) which are either solved
  exactly (floor, integer division, sqrt as a defined root, inverse) or uninterpreted with their algebraic axioms
  (sin2+cos2=1, multiple-angle reduction to cos(lon), sin(lon), bounds).
* **Paths.** A branch on a symbolic condition forks; z3 decides which sides are feasible under the path condition;
  every feasible side is explored. Comparisons inside array code (masks, `np.nonzero`, `np.where`, sorting)
  fork in the same way. Exceptions the code raises on a feasible path are reported.
* **Assertions.** A harness (`props/C??.py`) builds symbolic inputs, calls the public API and asserts the property against an
  independent oracle (a formula written from the literature or the definition, evaluated in the same arithmetic).
  For each assertion the executor asks z3 for an assignment satisfying path condition and negated assertion.
  unsat on all paths of all configurations is the verdict "holds within the bounds".
  A rational identity is first cleared of denominators. Where both sides normalise to the same polynomial, their separate
  encodings are still given to the solver (up to 400 monomials per assertion; beyond that it counts as
  `decided_by_normalisation` in the evidence).
* **Counterexamples** (sat) are replayed on REAL with the same harness run in concrete mode. Only a replayed failure is a
  VIOLATION, written to `evidence/replays/`; `bin/check --replay FILE` re-runs it. If the solver's model assigns impossible
  values to `cos` and the like, or the answer is unknown, a point violating the encoded assertion is searched by evaluating the
  encoding; if it replays, it is reported the same way.
* **Vacuity and fidelity.** Each path end gets a reachability twin (path condition satisfiable), and up to 12 path models per
  configuration are replayed through REAL: outputs of encoding and code must agree (1e-6 relative), and the assertions must hold
  concretely. Disagreement is reported as inconclusive (or a violation if the assertion fails).
* **Crossed configurations.** Bounds and options are listed per harness. On top of the listed ones `mixed()` in
  `symx/harness.py` crosses them: the values each option takes in the list are recombined (fixed pseudo-random order, four
  times as many under `thorough`), each one a symbolic run like the rest. Combinations a harness cannot pose are named
  by its `ok=` filter.
* **Inconclusive** (unknown, unsupported operation, counterexample not reproduced, out of time) never raises an alarm and
  never counts as held: it is printed and listed in the evidence. For an undecided configuration the untouched code
  is in addition run at four points: a failure there is a replayable violation, success decides nothing. A
  check in which nothing at all was decided exits 2.

Trusted: z3 4.x (python bindings), the executor, CPython. Floating point is modelled as real arithmetic on the
symbolic inputs with double coefficients; assertions carry a tolerance (stated per harness), so rounding
properties as such are out of reach. float32 casts are modelled only at the file layer. Numbers written to text files are opaque
tokens remembering the symbolic value, with rounding slack of the format (`%14.11g` etc.); netCDF4/HDF5 are an
in-memory stand-in in SYM (`symx/fakeio.py`) and the real libraries in REAL.

Layout: `bin/setup` (checks the venv), `bin/check PROP [quick|thorough] [harness]`, `tools/meta.py` (texts of
properties and manifest; `tools/gen.py` writes them), `tools/seed.py` (plants and confirms bugs), `known_findings.json`.

Cost: quick tiers take 2-10 s each on 8 cores; thorough tiers minutes.

## Properties

@@PROPS@@

## Defects found and repaired

Each is a `fix:` commit in /repo, with the failing input in the message or here; all are listed in `known_findings.json` under `fixed`.

@@FIXES@@

## Decisions about the specification

* C05: a pair of equal months at the very start of a record, or with neither neighbour month present, is ambiguous; `adjust_months`
  is only specified for the special cases its documentation lists.
* C12: the caps' area for a mass in Gt is the planar `pi (alpha a)^2` the code documents, not the spherical-cap area. This is taken as specified.
* C13: `harmonics.amplitude` and `ilm` are cached on first use (by design); the check reads them once per object.

## Not applicable

@@NA@@

## Planted bugs (seeded/) and what catches them

@@SEEDS@@
