HEAD = r'''# Model checking substrait-go

substrait-go is a library: it has no main loop, no crash points of its own, and a single place with concurrency in the
interesting sense (collections, registries, dialects and types shared between goroutines, C24). What its users rely on are
statements about *all* messages, *all* texts, *all* argument lists and *all* histories of calls. Model checking decides such
statements inside stated bounds by **explicit-state exploration of the real code**: every behaviour of a bounded space
(inputs of bounded size, sequences of operations of bounded length, schedules with a bounded number of preemptions) is
executed on the library built from `/repo`'s working tree and compared step by step with an independent reference model
written from the property, the Substrait specification and the documentation. No source is symbolically executed and
nothing is sampled: a space is either enumerated completely, or cut down by a rule stated in its bounds (a depth, a fixed
stride), and the evidence file says how many behaviours, states and transitions were covered and whether the enumeration
completed (`exhaustive`).

The model is bound to the code directly: there is no separate model whose traces have to be replayed. The reference models
(expected columns, anchor maps, a matcher of signatures, calendars, parsers of printed text, ...) are executed in lock step
with the implementation, so every model transition *is* a conformance check; `validated` in the evidence counts the
comparisons made.

## Layout

- `properties.jsonl`, `MANIFEST.json`, this file: generated by `tools/gen_properties.py`, `tools/gen_manifest.py`,
  `tools/gen_design.py` (the hand-written parts are in those files and `tools/design_text.py`).
- `run.sh <ID> quick|thorough` builds the harness against `/repo`'s current tree and explores one property;
  `run.sh replay FILE` re-runs one recorded case; `run.sh build` is `setup_cmd` (it fills the build cache).
- `harness/engine.go`: the exploration engine. `harness/cNN*.go`: one check per property. `harness/gen_*.go`, `mutate.go`:
  the universes of types, literals, expressions, relations and plans, and the edit operator over protobuf messages.
- `tools/instr`: source instrumentation for C24 (an overlay, `/repo` is not touched).
- `tools/known_data.py` -> `known_findings.json`: findings and repaired defects. `seeded/`: planted changes.

## Engine

A check enumerates *cases* (`c.Case(f, id...)`); the space of cases is split over 8 child processes, each enumerating the
same deterministic sequence and running its share. A case explores its own inner space, counts distinct states
(hashes of canonical forms), transitions and comparisons, and reports a violation with `t.Failf`. The parent merges counts and
writes `evidence/<ID>.json`. A violation is re-executed five times before it is believed, written as a replay file with the case id,
and reported as `VIOLATION property=<id> replay=<path>`, unless `known_findings.json` lists its key. Everything is deterministic:
seeds are not used, maps are iterated in sorted order, and where the *library* iterates over Go maps the check repeats the operation
(3-4 times) so that a dependence on map order is seen as a difference.

Panics: every call into the library is under a recover; an unexpected panic is a violation of the property at hand.
Hangs: a case that makes no progress for 200 s is killed and reported as a violation of that case; a child that dies (stack
overflow, memory) is attributed to the case it was running. The library is run in memory only; no check writes outside its own
temporary directory, and none starts processes other than itself.

Expected values never come from the code under test: messages are compared by a canonical text of the protobuf message
(`mtext`), columns are computed from messages alone, types and literals by reference functions over messages (`gen_*.go`, `c02.go`, `c11.go`).

## The recurring shape: edit closure

Three ways of enumerating recur. (1) *Products*: each attribute of an object over its boundary values, alone and in pairs.
(2) *Placement*: every construct in every slot of every construct, to a depth. (3) *Edit closure* (`mutate.go`): every one-step
edit of every base message (each field at each depth cleared, set, changed, each oneof member chosen, each list element removed,
doubled, swapped, added). An edited message has to be kept exactly or rejected with an error; this needs no knowledge of which
edits are legal and reaches fields that no test mentions. C01, C06, C07 and C27 are built on it.
'''
P = {}
def p(i, oracle, cost, why):
    P[i] = dict(oracle=oracle, cost=cost, why=why)
p('C01', "the message itself: what is read without error has to be written back equal after canonicalisation (only spellings the library documents as equivalent, such as the deprecated forms of grouping sets and arguments, are mapped to the current form), and write-read-write has to be a fixed point.", "quick ~20 s, thorough ~3 min", "tests round trip a few dozen hand-made plans; an attribute dropped on one relation kind, or only next to another attribute, is invisible to them")
p('C02', "the output columns (type text by type text) computed from the message by the rules of the Substrait specification, independently of the library, including nullability of outer joins, the grouping set id, and emit.", "quick ~21 s, thorough ~2 min", "tests compute a schema once; the property concerns every kind under every parent, and that asking does not disturb (appending into a shared slice shows only with two parents of one input, asked in one order)")
p('C03', "composition of index lists, computed by the check; columns of the composed mapping.", "quick ~5 s", "sequences of remaps and aliasing between a relation, its copies and the caller's slices")
p('C04', "a specification of well-formedness per operation, written as a predicate over the arguments; accepted ones have to give the message and the columns computed from the arguments.", "quick ~2 s", "tests hold one good and one bad argument per operation; pairs of arguments, and boundaries, are not covered")
p('C05', "a reference rewriter over protobuf messages (`walkPB`): the rewritten relation's message must equal the message with the same replacements, the original's message must be unchanged, and an identity rewriting must return the same object.", "quick ~2 s", "every child of every kind, alone and combined; aliasing of the rewritten copy with its original")
p('C06', "the message itself (as C01) and reference functions for types; an edited message is kept or rejected.", "quick ~39 s, thorough ~6 min", "an attribute lost for one kind in one position")
p('C07', "two expressions are equal exactly when their canonical messages are; reflexivity, symmetry, and consistency with the written form over all pairs.", "quick ~11 s", "an equality that forgets an attribute is seen only by the pair that differs in just this attribute")
p('C08', "reference encoders per literal kind over messages; value accessors compared with the Go value.", "quick ~6 s", "kinds x boundary values x nullability x variation x nesting")
p('C09', "a reference type printer and comparison over messages; every deriving method is compared with the message edited accordingly, and the original is re-printed after it.", "quick < 1 s", "immutability of shared type values under every derivation")
p('C10', "printed text and parsed type are compared with the syntax tree the text was made from; texts outside the grammar are decided by a recogniser written from the grammar.", "quick ~6 s", "all token strings and all single-character edits, rather than a list of bad inputs")
p('C11', "a reference matcher: unification of parameter forms with argument types by the rules of the specification (any1, integer parameters, variadic consistency, nullability handling).", "quick ~17 s, thorough ~4 min", "combinatorial: signatures x arguments x nullability rules")
p('C12', "the reference matcher's bindings substituted in the declared return type; the nullability rule applied.", "quick ~100 s", "as C11")
p('C13', "a reference evaluator of return-type programs with big integers.", "quick ~16 s", "all programs up to a size, instead of the ones in the shipped YAML files")
p('C14', "a reference of anchor maps per kind; after every step all lookups and the written form are compared.", "quick ~60 s", "histories: an anchor that is reused only after decoding a sparse set and adding one more")
p('C15', "the union of the accepted documents, read by an independent YAML reader; the collection's answer to every lookup after every load.", "quick ~2 s", "sequences of loads, conflicts between kinds, all-or-nothing on errors")
p('C16', "reference tables of names per dialect document; results are asked twice in both orders and for several builds.", "quick ~7 s", "names shared across kinds, files and local names; map-order dependence")
p('C17', "spelling tables written by the check.", "quick ~9 s", "all pairs and all triples of types with shared spellings")
p('C18', "exact rational arithmetic with big integers.", "quick ~3 s", "all texts over the alphabet up to a length; all boundaries of the encoding at every scale")
p('C19', "proleptic Gregorian calendar arithmetic with big integers and a recogniser of ISO texts.", "quick ~2 s", "all strings up to a length and all pairs of unit and boundary value, where rounding and overflow live")
p('C20', "a list model of grouping sets, expressions and measures; earlier built relations are re-checked after every later operation.", "quick ~37 s, thorough ~9 min", "histories of shared builders and slices")
p('C21', "a reference resolver of paths over type messages.", "quick < 1 s", "all chains, all roots, all lambda nests")
p('C22', "the declared type and anchor of each parameter compared by the check; a plan must be accepted exactly when every parameter in it has a matching binding.", "quick ~3 s", "a parameter in an unvisited place is seen only by the plan that has it there, and only if short cuts (a constant next to it) do not hide it")
p('C23', "a reference printer and reader of test files: the case built is compared with the one the text was made from; malformed texts must be rejected as a whole.", "quick ~58 s, thorough ~6 min", "types x values x layouts")
p('C24', "sequential results: every script has one result, whatever ran before or runs concurrently; the race detector must be silent; after the scripts all lookups are as before.", "quick ~70 s, thorough ~14 min", "schedules: every statement of the library executed by a script is a scheduling point at which the other scripts are run, and orders of use are exhausted; tests are single-threaded")
p('C25', "the reference matcher for resolution; the message computed from the arguments; anchors by the model of C14.", "quick ~17 s", "function x id form x argument list")
p('C26', "type and message computed from the parts.", "quick < 1 s", "kinds x operations x needles x relations x one missing part")
p('C27', "no panic, whatever is read; results can be used by every reader of the public interface without a panic.", "quick ~160 s", "every single edit and pairs of edits of every message of the corpora")
p('C28', "messages and types computed from the request.", "quick ~6 s, thorough ~3 min", "all nested builder terms, repeated builds, setter orders")
p('C29', "the parts of the message written (itself decided by C01 and C06), a model of setter calls over that message.", "quick ~30 s, thorough ~1 min", "every accessor on every kind; histories of setters beside copies")
p('C30', "a table of what each declared type says about itself, composed from its parts; the properties handed to a constructor; one way of asking against the others.", "quick ~5 s, thorough ~1 min", "templates in every mix of numbers and variables and every nesting, far beyond the few listed in tests")
p('C31', "the content of the document, as C15's table of declarations has it, against what the written text declares when loaded; the text written from what was read of it against itself.", "quick ~3 s, thorough ~10 s", "all attributes in all kinds of functions: what is lost in writing shows only for values that differ from the defaults")
SEEDS = r'''## Planted changes

Each was written from the property and the code alone, and confirmed to build, to pass the existing tests, and to be shown by its
demonstration. "Caught by" names the check that reports it.

Missed when first tried, and what was strengthened: `c06-bound-zero-offset` (a window bound with offset 0 was not in the corpus: C06 now
explores every one-step edit of every expression), `c20-tobuilder-shared-references` (C20 now also explores two builders made from
one relation whose slices have spare capacity), `c22-postjoin-filter` (the visit was cut short by a constant condition: C22 now combines each
place with every subset of the other places made constant), `c24-lookup-memo` (the scripts only looked up
compound names: C24 and C15 now look up simple names, too, and ask everything again), `c10-chain-parentheses` (C10 read types only: it now
also prints and rereads return-type programs, which showed a genuine defect of the same kind).
'''
CAUGHT = {}
TAIL = r'''## False alarms met and removed

- C24: an early version of the cooperative scheduler could deadlock on a library mutex held by a preempted script; it was the harness's
  fault. A script that blocks on a lock is now treated as not runnable and the holder continues.
- C06/C08: the oracle measured `varchar`/`fixedchar` lengths in bytes; the specification says characters. The oracle was corrected (and
  the test-file parser, which had the same error, repaired).
- C28: `NewFieldRef(nil, ...)` was expected to be rejected; `RootReference` *is* the nil root. Removed.
- Behaviour that existing tests pin is not reported, unless it breaks a property, in which case it is a known finding: virtual table rows
  need not match the schema, a measure's filter need not be boolean, `AggregateRel.ToBuilder` drops mapping and hint, cubes and rollups
  enumerate non-empty subsets and prefixes only, set operations need equal input schemas, several types may share a local name in a dialect.

## How gaps are looked for

1. Planted changes (above).
2. Statement coverage of the library by the checks' own executions (every check, quick tier): code no check executes is listed and turned
   into new cases.
3. Mutation testing in scratch copies: generic mutants (removed statements, assignments, fields and branches, negated conditions,
   changed constants) of the whole library that survive the existing tests are run against the checks whose executions cover
   the line; each survivor is either equivalent, outside the properties, or a reason to strengthen a check.

## Limits

Everything is decided within the stated bounds only. Bounds were chosen so that every quick run ends within a few minutes and
every thorough run within 850 s on 8 cores. Values are taken from boundary tables, not from full ranges. The race detector judges the
executions it is given (all pairs and groups of scripts), the schedule exploration has statement granularity and at most two preemptions.
'''
