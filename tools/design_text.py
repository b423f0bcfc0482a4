HEAD = r'''# Solver-based checking of cargo-call-stack

Every property is decided by the same technique: **symbolic execution of the
real program**, with an SMT solver (z3) deciding, per explored path, whether
any input on that path breaks the property.  Nothing is switched to another
technique and no property is `not_applicable`.

(This file is written by `tools/gen_design.py` from `tools/design_text.py`,
`properties.jsonl`, the bounds in the harness and the confirmed planted bugs.)

## How a check works

1. **Encoding from the current tree.**  `harness/build.py` compiles `/repo`'s
   working tree (path taken from `/repo`, override `SYMX_REPO` for
   experiments) with stable rustc, offline, `-C lto=fat -C opt-level=1 -C
   panic=abort --emit=llvm-ir`: one LLVM IR module that contains the program,
   all its dependencies (nom, petgraph, xmas-elf, stack-sizes, ar, clap,
   rustc-demangle, env_logger, ...) and std (through its shipped bitcode).
   The same sources are built natively for replays.  Builds are cached under
   `build/`, keyed by a hash of `/repo`'s sources, lock file and of the
   toolchain, so a changed tree is always rebuilt (about 60 s).
2. **Engine.**  `engine/` (crate `symx`, about 4000 lines of Rust, our own; KLEE-like)
   parses that module and executes `main` on it: byte-precise memory objects,
   bit-vector expressions with hash consing and simplification; at a branch both of whose
   sides are feasible the engine process forks (the kernel's copy-on-write memory is the state copy; up to
   8 processes run at a time), z3 (linked through its C API) decides feasibility of branches, symbolic
   addresses (bounded enumeration of objects, if-then-else over bytes) and switch
   tables.  Reads of undefined memory, out of bounds accesses, overflow of
   `nsw`/`nuw` arithmetic that is used, and aborts are recorded as such.
   The environment below the program is modelled: libc calls (files, directories, time,
   `posix_spawn`/`wait`/pipes, `getrandom`, threads' TLS, writev ...), a file
   system seeded from the scratch directory of the scenario, and child processes
   (`cargo`, `rustc`) that produce the scenario's - possibly symbolic - output,
   exit status, signal or spawn error.  Anything that is not modelled ends the path with
   an `error` record: it is counted as *not explored* and reported as such, never as held.
3. **Scenarios.**  A property has a list of scenarios (`harness/cNN.py`).  A
   scenario is a full Cargo project in a scratch directory: `Cargo.toml`,
   sources, `.ll` files, object file, archive, ELF executable.  Chosen bytes of
   those files, of arguments, environment values, exit codes, modification
   times and messages are symbolic variables (`s.bv(name, width)`); derived
   content is any bit-vector expression over them (e.g. a line is `call void @f()`
   if a bit is set and a comment otherwise; a symbol's address, an instruction's
   encoding, a ULEB byte).  So "all call graphs over 4 functions with all sizes below 2^14"
   is *one* symbolic input.
4. **Record per path.**  At the end of each path the engine writes the path condition
   and everything observable as expressions: stdout and stderr bytes, exit code
   or panic, spawned commands with arguments and environment, files
   opened for writing and touched.  Numbers printed in decimal stay symbolic
   (the engine forks on the number of digits and constrains the digits).
5. **Oracle and decision.**  The oracle (Python, independent of the code under test:
   own ELF/ar/IR writers, own Thumb decoder tables in `isa.py`, own type
   equality, own reachability and bound formulas) parses the symbolic output
   into a graph and states the property as assertions; for each, z3 is asked for
   `path condition and not property`.  Unsat for all paths = held for *every* input within
   the bounds.  Where the oracle needs to know a condition the path leaves open it
   is run for both values (`decide`).
6. **Replay.**  A satisfying model is written out as concrete files and
   the natively built program is run on them, in the scratch directory, with stand-in
   `cargo`/`rustc` scripts; the oracle is applied to what it
   really did.  Only if that fails too a `VIOLATION property=.. replay=..` line
   is printed; the replay directory holds the project and `replay.sh`.
   A counterexample that does not reproduce is an error of the machinery (exit 2), not an alarm.
7. **Validation of the encoding.**  In every run up to three paths per scenario are
   picked by `VERIF_SEED`, their witnesses are run natively and stdout, stderr, status, commands and touched
   files must agree byte for byte (up to the order of hash map iteration).
   Vacuity: each scenario lists situations (`reach`) some path has to be in
   ("refused", "2 cycles", ...).

Hash map iteration order: the program's `HashMap`s are seeded by `getrandom`,
which the engine answers from the scenario's seed; some properties are run with
several seeds and directory orders.  Oracles compare graphs up to node numbering.

### Level and limits

The level is `model_checking`: exhaustive within the stated bounds by solver
verdicts over symbolic paths.  It is not a proof for unbounded programs.  Outside in
general: programs larger than the scenarios; non-UTF-8 file contents (the tool
refuses them), the shipped profile (`opt-level=3`, unwinding) - the encoding uses opt-level 1 and
`panic=abort`, both from the same sources, while native replays use
the ordinary release build with unwinding; overflow checks are off in both, as in a release; failures of system calls other than those in the
scenarios; symbolic environment variable *names*.

### Costs

Build 60 s once per tree (both targets in parallel); quick runs of the checks
take 2 to 140 s each on 8 cores (C17 the longest; 300 s per scenario and
780 s per check at most), mostly executing IR: 10^8 instructions per check, 10^3 to 5*10^4
solver queries of which nearly all take under 5 ms.  `thorough` removes the
sampling of lengths (C17), adds larger graphs (C01, C02, C09, C11), more
candidates (C21), records (C19) and hash digits (C13) and raises the budgets to hours.

### Exit status

0: held on everything explored (an `INCOMPLETE` line names scenarios cut by the
budget or by something the engine does not model); 1: at least one reproduced
violation; 2: the machinery itself failed (build error, disagreement between engine and native run,
vacuous scenario).

## Properties
'''

TEXT = {
'C01': ('Existence of every call (IR lines that are a call or a comment, depending on a bit), recorded sizes (ULEB bytes of the stack size section), whether two functions have a record.',
        'Bounds are recomputed from the *reported* graph: for every node `max = local + max over callees` as 64-bit expressions with exactness as a boolean expression; a graph that misses calls is C06, so the two together give the bound of the program.',
        'Printing order, graph shape and the two code paths (acyclic / with cycles) multiply; the solver covers all shapes at once, and the fan, chain and ladder shapes reach depths and fan-outs where saturating or truncating slips show.'),
'C02': ('As C01 but with cycles: every directed graph over three functions including self calls.',
        'SCCs are computed by the oracle from the reported edges; the clusters drawn must be exactly the non-trivial ones.', ''),
'C03': ('The bits of one 16-bit or 32-bit instruction, placed before a known BL; in other scenarios up to three slots that each hold one of several branches.  Targets are functions on a grid of entries within reach, so that a wrong offset falls on another function or on none (panic).',
        'Target addresses from the ARMv6-M/ARMv7-M manuals in `isa.py` (written as bit-vector formulas); encodings that are UNDEFINED/UNPREDICTABLE or for which no entry exists at the target are excluded by `accept`.', ''),
'C04': ('Encodings of all instructions that do not branch, register lists and immediates, alone and in a chain of all allocating forms; compiler-recorded sizes for the inline assembly and outlined cases.',
        'Bytes subtracted from SP as a formula over the encoding.', ''),
'C05': ('All data bytes, their position and length (through symbolic values of mapping symbols), optional further mapping symbols.',
        'Edges and usage of the instructions outside the marked ranges only (C03 and C04 oracles).', 'Literal pool contents that look like calls do not occur in fixtures.'),
'C06': ('Presence of attributes, tail markers, argument forms, types; callee identities of three consecutive calls; name bytes; which intrinsic is called.',
        'Set of edges expected from the scenario, each exactly once.', ''),
'C07': ('Types of parameters and results of the call and of the candidates, chosen by symbolic selectors among texts; which functions are defined, declared, live.',
        'Own structural equality of types, opaque pointers matching any pointer; the labels of dashed nodes compared as token sequences.', ''),
'C08': ('All instruction encodings of an assembly function under a caller; untyped symbols, outlined functions, undefined functions, calls through pointers, each present or not.',
        'A function that may call something unknown has to reach a node of unknown usage and all bounds above it are `>=`.', ''),
'C09': ('Graphs, the start argument (free bytes, or one of a list), bytes of paths and symbols.',
        'Reachability formulas over the edge conditions; both the filtered graph and its bounds must equal the restriction of the unfiltered one (known from the scenario).', ''),
'C10': ('Bytes of symbol names and type names (any ASCII byte, special pairs, UTF-8), graph shapes.',
        'A strict parser of the dot subset works on symbolic bytes; reading a label back must give the name.', ''),
'C11': ('Sizes in every order, graphs, dashed, undefined and hashed nodes.',
        'The listing has to be a permutation of the nodes with non-increasing usages; the first line the largest bound, as formulas over the sizes.', ''),
'C12': ('Which of the names of a function carry record, definition, declarations and calls; symbol values, types, bindings; mapping symbol spellings.',
        'Nodes are the classes of function symbols by address (Thumb bit cleared).', ''),
'C13': ('Path choice and hash digits of three functions, bytes within the hash, suffixes.',
        'A name is short iff no other live function has the same path; equality of paths and hash-ness are formulas over the bytes.', ''),
'C14': ('Free bytes of arguments at several places, exit code or signal of the compiler.',
        'The only spawned command must be argv[0] with all arguments in order plus the two additions (in front); status equality as a formula.', ''),
'C15': ('Bytes of prefix, name and path of --extern, of the -C option in ten spellings, of crate name and directory.',
        'Expected marker lines computed from the argument bytes.', ''),
'C16': ('Which routines are linked in, under which names, which intrinsic is called; on Thumb which routine the machine code calls.',
        'Edges to exactly the linked routines of the family.', ''),
'C17': ('One byte of a call statement or definition line, unknown intrinsic names, further top-level items, the length of each binary input file.',
        'Either a failure without any stdout, or a graph that has the call edge: a path on which the call is lost but a graph printed is a violation.', ''),
'C18': ('Option values, bytes of cargo\'s and rustc\'s output, status and signals.',
        'Exact multiset of arguments of the one `cargo` command, environment additions, stderr passed through.', ''),
'C19': ('Recorded sizes (up to 63 bits), ULEB padding, order of records, which file holds which record, archive layouts and member name bytes.',
        'The local usage printed equals the recorded value (as a formula), or `?`.', ''),
'C20': ('Bytes of the commit hash and of the override variable, rustc\'s other answers and status, selections.',
        'cargo is spawned iff the formula "hash equal or override equal, and exactly one selection" holds.', ''),
'C21': ('Modification times (seconds and nanoseconds) of candidate files, presence of files of similar names, where the target directory comes from.',
        'Each candidate IR has its own distinguishable call; the graph tells which one was read.', ''),
'C22': ('Which of the source files exist (symbolic existence), directory orders, the clock.',
        'The engine records `utimensat` and opens for writing; exactly one source has the time of the clock, before cargo is spawned; nothing else in the project is written.', ''),
'C23': ('Presence of inline assembly, records and type information per function; start queries.',
        'stderr must have a message with the name of each such function and none about others.', ''),
'C24': ('The number of bytes standard output takes before it fails, the error, the size of the pieces, the place of an interruption, the place where reading a file or listing a directory fails, the error of opening, examining or touching a file.',
        'The engine models short, interrupted and failing reads and writes; success implies that the complete graph or listing has been written, failure that something could not be read or written. Native replays use the same faults, from a preloaded library.', ''),
}

MID = r'''
## Planted bugs

Written from the properties and the code, confirmed in scratch copies (build, the 41 stable
tests pass, the demonstration passes without and fails with the patch) by
`tools/plant.py`.  The demonstrations drive the built tool over a small project
written by `lab.py` (beside them) into a temporary directory, with stand-ins for
cargo and rustc.
'''

TAIL = r'''
What planted bugs taught us (checks strengthened because of a miss): a third member of
a cycle (C02: rings), data blocks longer than the first symbolic ones (C05: `long`), members
missing from a drawn cluster (C02), the unknown callee dropped when there are several known
ones (C08: `candidates`), function names that look like mapping symbols (C12: `dollar`), items
the parser cannot read (C17: `items`).

`tools/mutate.py` additionally applies mechanical mutations to `/repo`'s sources in scratch
clones and runs the checks against each; survivors were read one by one
(equivalent mutants, or scenarios were added).

## False alarms met on the way, and what was done

- C01/C02 first demanded bounds also when no stack information exists at all (the tool says
  so and skips the analysis): the property is about reported bounds, so the oracle checks them only if there is
  any record.
- C03 took encodings that are UNPREDICTABLE in the manuals for branches: excluded.
- C04: `sub sp, #0`, empty register lists and absolute changes of SP have no defined answer: outside
  (listed in the property).
- C06: calls the parser refuses loudly (musttail, unknown argument forms) are C17's
  matter: a refusal is no lost edge.
- C07: type labels were compared byte by byte; blanks within types are not significant.
- C10: the label of a type node is the spelling of the IR (escapes `\22` are not undone).
- C17: a carriage return within a line, a call split over lines: what the IR means then is not defined by the
  property; joined lines are outside.
- C18: cargo's stderr is re-emitted line by line, so `\r\n` becomes `\n`: line endings are outside.
- C21: with equal modification times either file is acceptable: outside.
- Native runs: the stack-sizes crate picks one of several names of a record by hash order;
  objects in scenarios have one name per record.

## Genuine defects found and repaired (`fix:` commits in /repo)

All were demonstrated by a replay against the real program.  None is left open, so no check prints KNOWN-FINDING.
'''
