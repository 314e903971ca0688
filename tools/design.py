"""writes DESIGN.md: python3 tools/design.py (prose here, planted-bug table from seeded/*/meta.json)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXT = r'''# Contract-based deductive verification of GNSS_RTCM_DECODER

## 1. The verifier

No deductive verifier for Python is installed (crosshair is a bounded symbolic
tester; Nagini/Viper are not there), and translating 4 kLoC of Python by hand
into Dafny/Why3/Verus would prove a model. `pyvc/` is therefore a small
deductive verifier for Python itself:

* **The verified text is the code that runs.** On every run the modules of
  /repo are imported from the working tree; the functions are taken from their
  own source (`inspect`/`ast`) and interpreted from their AST. Nothing is
  extracted or rewritten. Module-level data (CRC table, signal tables, format
  specifications, class attributes) are the real imported objects.
* **Forward symbolic execution with joins** (`interp.py`): statements of the
  subset are executed on symbolic values; branches fork under path conditions
  and the resulting states are merged again; exceptions are outcomes like any
  other. Heap locations have identities, so aliasing is tracked exactly; every
  write is recorded (frame conditions = the set of written locations).
* **Contracts**: where a function is under contract and has been verified
  separately, a call is replaced by the contract (`ip.contracts`): `Bits.getbitu`,
  `Bits.getbits`, `CRC24Q.calc` (C04, C05), the frame scanner and the decoder at
  the level of the converter (C21), sub-decoders at the level of `DecoderTop`
  (C14), sub-printers at the level of `PrinterTop` (C15).
* **Loops** are handled by one of: complete unrolling over concrete collections
  (tables); *inferred inductive invariants* (`houdini.py`: a loop is cut, what it
  writes becomes arbitrary, and the greatest inductive subset of a candidate set
  is computed; the code after the loop sees only that set) with a measure for
  termination; a *generic iteration* rule (`strings.py`, `core.py`) for loops that
  append to or transform a list, string or dictionary of symbolic length: the
  iteration number is a symbolic constant, and the k-th element is a function
  of k. None of these bounds the number of iterations.
* **Back ends** (`core.py`): integers are normalised to linear combinations of
  bit-level atoms (a field of the payload is an atom with its position and
  width), so that most equalities between a decoded field and its specification
  are decided syntactically; what remains goes to z3 (LIA, arrays, bit-vectors).
  The evidence files count the obligations by back end and the solver time.

`spec/` holds the mathematical side: CRC polynomial, RTCM layouts and scale
factors, greedy framing, MSM tables, time scales, MARGO/JSON document shape. It
is written from the RTCM standard, the ICDs, the repository's documentation
and the property text - not from the code; where the code disagreed the code
was wrong (section 5).

### Verdicts (`harness.py`)

* every obligation discharged and every cover point reached: exit 0, level `proof`;
* an obligation refuted: the model is turned into an input and replayed on the
  real code; a failing input gives `VIOLATION property=.. replay=..`; otherwise the
  line ends in `no-failing-input-found` and the replay file names the obligation;
* the code left the supported subset, or the solver gave up (after a
  refactoring, say): the obligation is reported `undecided`, the level falls to
  `exploration`, and the *bounded stand-in* decides: the same specification
  evaluated on the real code over generated inputs (labelled, never counted as
  proved). This part always runs, also when everything is proved, as a check of
  the verifier itself (the interpreter is not verified). Exit 0 if it is quiet.
* A structural surprise (a renamed helper, another data structure) is never by
  itself an alarm; only a semantic mismatch is.

### Assumptions left unchecked (all properties)

* the trusted base: `pyvc`, z3, CPython for imports and concrete data;
* Python semantics of built-ins as modelled (`bytes.find`, `str.strip/split`,
  `int(x, 16)`, `bytes.decode`, `dict`/`list`/`set` methods, f-strings);
* **floats are exact reals** (no rounding, overflow): coefficients are compared to
  1e-12 relative; NaN is a separate case where it matters (C11, C12, C17, C22).
  Python integers are mathematical integers, so no machine-arithmetic assumption there;
* generators are evaluated eagerly (those of the repository have no side
  effects interleaved with their consumer's);
* logging has no effect on results; logger configuration is not examined;
* `ConfigParser`, `json.dumps`, `open`/`write`/`close`/`os.makedirs` are modelled
  (C17, C19, C20, C21); the bounded stand-ins use the real ones in scratch folders;
* single-threaded use (the program has no threads).

A dead-variable rule applies where joins would otherwise fail: a variable that
is not read again before being written is dropped from the join. Speculative
unrolling is used for `while` loops whose condition becomes decided.

## 2. Properties and how each is decided

All 22 properties are claimed; `not_applicable` is empty.

**C01-C03 framing** (`checks/framing.py`, `spec/framing.py`). `DecoderTop.catch_message`
with `__rebase_to_D3`, `mcrc`, `mlen`, `parse_errors` executed on an arbitrary
byte stream (array of bytes, symbolic length), starting from an arbitrary state
satisfying the inferred chunk invariant; CRC is an uninterpreted function of the
covered bytes (its meaning is C04). Ghost state: stream offset of the carried
tail, the position up to which the spec automaton has got, number of gaps.
Postconditions: every returned message is the next frame of the greedy
specification (C01); when the call returns, no complete frame is left and every
loop terminates (C02: the sequence is determined by the bytes alone, hence
independent of chunking); counter = number of gaps (C03). Invariants: greatest
inductive subset of about 60 candidates per loop (linear relations between
positions, "no frame starts in [a,b)", tail equalities), recomputed for the
current source, so that a rewritten scanner gets its own invariants. Unbounded.

**C04 CRC** (`c04.py`). Induction over the bytes of `CRC24Q.calc`: one iteration maps
the carrier c to (c*x^8 + d*x^24) mod P for all 2^24 c and 2^8 d, starts at 0, is
returned. Also accepts bitwise implementations. Assumed: the polynomial identity
that the fold is the remainder (textbook).

**C05 bit fields** (`c05.py`). `getbitu/getbits/revbitu/revbits`: all buffers (symbolic
length), all positions, widths 1..128 enumerated; error exactly for negative,
empty or overshooting fields, no other exception. Loops by induction.

**C06, C07 ephemerides** (`c06.py`, `spec/eph.py`). `EphemerisDecoder.decode`, then `.scale`,
for 1019, 1020, 1041, 1042, 1044, 1045, 1046: payload bits symbolic, length
symbolic, against an independently written layout table (order, width, sign
convention, scale). Each field is an obligation, plus: rejected exactly when too
short or wrong number, no other record field, raw record unchanged by scaling.

**C08, C09 base station** (`c08.py`, `spec/base.py`). The eight messages 1005, 1006, 1007, 1008,
1013, 1029, 1033, 1230; strings and lists of symbolic length via the generic
iteration rule. C09 excludes text that is not valid UTF-8 (message undecodable:
unconstrained).

**C10 raw MSM** (`c10.py`, `spec/msm.py`). `BareObservablesMSM17Decoder.decode` for the 49
messages: masks symbolic (population counts symbolic), columns of symbolic
length by a generic entry, the length check exact (accepted iff the payload holds
the announced cells and there are at most 64).

**C11, C12 MSM observables** (`c11.py`). `Bare2Scaled.convert` with `_convert_obs47/_13`,
`MSMT.unpack_tlock4/10`, `isDF40x_OK`: all shapes with at most 64 cells (280
enumerated), all masks/cell patterns/values symbolic. Obligations: exactly the
cells set are present on (satellite, signal literal), each with range, phase,
Doppler, lock, CNR, half-cycle value by the RTCM formulas, invalid markers give
absence; header fields. String tables (4 096 numbers, 7x32 signals) completely.

**C13 dispatch** (`c13.py`). All 4 096 numbers x 3 modes through the real set-up strategies
and `DecoderTop.decode`, decode outcome by contract.

**C14 containment** (`c14.py`). Every sub-decoder with arbitrary payload bytes: outcome is
a record or None, never an exception; counters of `DecoderTop.decode` change by
exactly one; history independence by poisoning everything a previous call may
have written. Sub-decoder exceptions are arbitrary in the top-level contract.

**C15 routing** (`c15.py`). `PrinterTop.print/add_subprinter/close` and `strategy_*`: every record
type, arbitrary sub-printer outcome (including exceptions), counters, close.

**C16-C18 MARGO** (`margo.py`, `spec/margo.py`). C16: `conv_to_gps_time` and `time`/`day`
through the printer to the row text, all epochs and leap-second shifts, all
constellations. C17: whole `PrintMARGO` pipeline on records in which each
(satellite, signal) is independently present, with a file model; two successive
records, so appending and header-once are induction steps over an arbitrary set
of open files. C18: frequencies, wavelengths, headers for all literals.

**C19 JSON** (`c19.py`). `PrintJSON` with any subset of 64 files open, any record, then
release; the document is parsed symbolically; keys, order, once-ness, content by
control settings. `json.dumps` is modelled as injective text.

**C20 controls** (`c20.py`). Any initial file and 0, 1, 2 updates with any subset of
options: available iff complete, values those of the last file that sets them.

**C21 conversion** (`c21.py`). `decode_rtcm_file` and `main`: invariant over the chunk loop
(bytes processed = bytes read, in order, every message decoded and printed
once), failure at any point leads to release, final status = statistics.

**C22 compare/copy** (`c22.py`). Every record type, all fields symbolic: compare iff every
field is equal within tolerance; copy equal and independent. Nested containers
up to 3 elements (a **bounded** stand-in in that depth).

Costs: 1 s to 100 s per check on 8 cores (C11 is the longest).

## 3. Why this reaches what the tests cannot

The tests replay recorded files. The obligations quantify over every payload bit,
mask, chunking, epoch, presence pattern, configuration and failure point; e.g.
"a frame without payload at the end of a chunk", "minus zero in a sign-magnitude
field", "64 cells", "14 s before the end of the BeiDou week" are single points that
no sample hits and that each planted bug of section 6 needs.

## 4. Limits (behaviour the properties deliberately do not constrain)

No flush of an incomplete frame at end of file; an unknown signal number drops the
whole MSM message; a MARGO file that cannot be created is counted as success;
source files with the same stem share an output folder; GLONASS day 7
(unknown) is not normalised; the leap-second day end with utc_shift=10800 is not wrapped;
malformed INI values raise ValueError; the documentation says 32 Galileo columns,
the code 36; invalid UTF-8 makes a scaled base message undecodable; bool/int
comparison asymmetry; nominal GLONASS L3 frequency (unreachable signal) is 1202.0 instead of 1202.025 MHz; the
JSON key of raw GLONASS epochs is the time of day only.

Where a first formulation was too strong, the property was narrowed and nothing was
listed as a finding: text that is not UTF-8 (C09), bool against int comparison (C22), leap-second
day ends (C16) are outside the statements.

## 5. Defects found and repaired

Listed in `known_findings.txt` (12 `fix:` commits in /repo, each with the property whose
check reported it). No open findings.

## 6. Planted bugs and which check catches them

Built and validated by `tools/seed.py` from `tools/seeds.py`; each passes the 46 tests. `python3
tools/benign.py` runs the checks over behaviour-preserving edits
(`tools/benign_edits.py`, about 50): no alarm on any.

| bug | check that catches it | needs |
|---|---|---|
'''
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
open(os.path.join(V, "DESIGN.md"), "w").write(TEXT + "\n".join(rows) + "\n")
