#!/usr/bin/env python3
"""Generates properties.jsonl (kept in a script so that quoting stays sane)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": observe, "hook_needed": None}})

p("C01", "Maximum stack usage of non-recursive functions",
  "For every function that lies on no call cycle, the reported `max` equals its local usage plus the largest `max` among its callees in the reported graph (just its local usage when it calls nothing), where an unknown local usage counts as 0. "
  "The bound is printed as exact (`=`) only if the local usage of the function and of everything it can reach is known and no stack-using recursion is reachable, and as a lower bound (`>=`) otherwise.",
  ["inputs", "programs"], "all acyclic call graphs and all local stack sizes, known or unknown",
  "The tests check one line of a handful of firmware programs; the guarantee is over every graph shape, every size and every placement of unknown sizes.",
  ["src/main.rs"], [("topological accumulation over the reversed graph", "src/main.rs run(), `compute max stack usage`"), ("Max/Local addition and max", "src/main.rs impl ops::Add for Max, fn max, fn max_of")],
  ["dot output: `max` and `local` of each node label", "dot output: edges"],
  [("Node.max", "cumulative stack usage", "src/main.rs Node"), ("Node.local", "own stack usage", "src/main.rs Node")])

p("C02", "Maximum stack usage in the presence of recursion",
  "All functions on the same call cycle (mutually reachable, self recursion included) report the same `max`: the largest local usage among them plus the largest `max` among functions they call outside the cycle. "
  "It is exact only if every function of the cycle is known to use no stack and every outside callee's bound is exact; otherwise it is a lower bound. The SCC clusters drawn are exactly the sets of mutually recursive functions, each listed once, and recursion elsewhere in the graph does not change the rule for non-recursive functions.",
  ["inputs", "programs"], "all call graphs containing at least one cycle and all local stack sizes, known or unknown",
  "One test looks at one cyclic program in which every member uses zero stack and checks that one bound is exact.",
  ["src/main.rs"], [("SCC accumulation in reverse topological order", "src/main.rs run(), kosaraju_scc loop"), ("cluster output", "src/main.rs dot()")],
  ["dot output: node labels", "dot output: cluster subgraphs"])

p("C03", "Direct branches in Thumb machine code become call edges",
  "On the supported ARMv6-M/ARMv7-M targets, every BL, B (narrow, wide, conditional or not), CBZ and CBNZ in a function's machine code, in whatever section it is placed, whose architectural target is the entry of a function outside that function's own body yields an edge to exactly that function, once. "
  "Branches that stay within the function yield no edge, and no other 16- or 32-bit instruction is taken for a branch or makes the decoder lose instruction alignment.",
  ["inputs", "programs"], "all encodings and offsets of direct branch instructions, at any position in a function, in any section (.text, others in flash, RAM), on both architectures",
  "Unit tests decode three BL/B encodings; sign bits, J1/J2 bits and conditional wide branches are never exercised.",
  ["src/thumb.rs", "src/main.rs"], [("instruction decoder", "src/thumb.rs analyze"), ("edge insertion from offsets", "src/main.rs run(), `for offset in bls` / `for offset in bs`")],
  ["dot output: edges"])

p("C04", "Local stack usage derived from Thumb machine code",
  "For a function without internal branches (jump tables included) for which the compiler recorded no stack size, the reported local usage is the total number of bytes that its stack allocating instructions (push, stmdb sp!, sub sp, vpush, pre-decrement store to sp) subtract from SP, or unknown when that cannot be determined; it is never a wrong number. "
  "For functions containing inline assembly the machine-code result replaces a differing compiler-recorded size, and outlined functions recorded as using 0 bytes get the machine-code result.",
  ["inputs", "programs"], "all register lists and immediates of SP-decrementing instructions and all short sequences of them",
  "Unit tests sample one operand per instruction; the immediate expansion and register-list counting are functions of every operand bit.",
  ["src/thumb.rs", "src/main.rs"], [("SP tracking", "src/thumb.rs analyze, `stack`, `modifies_sp`, thumb_expand_imm"), ("override of LLVM's number", "src/main.rs run(), `our_stack`")],
  ["dot output: `local`"])

p("C05", "Data inside code is never decoded as instructions",
  "Bytes that the mapping symbols (`$d` / `$t`) mark as data inside a function's extent have no influence on the reported edges, local usage or bounds, whatever their values, while every instruction before and after them is still analyzed.",
  ["inputs", "programs"], "all contents, positions and (halfword multiple) lengths of literal pools",
  "No test has a literal pool whose contents look like a branch or stack instruction.",
  ["src/thumb.rs", "src/main.rs"], [("mapping symbol handling", "src/thumb.rs analyze, `Tag::Data`"), ("tag collection", "src/main.rs run(), `tags`")],
  ["dot output: edges and `local`"])

p("C06", "Every direct call in the LLVM IR becomes an edge",
  "Each direct `call` or `invoke` statement of a live (linked) function to a function present in the program produces exactly one edge caller to callee, however often it occurs and whatever attributes, tail markers, return and argument types surround it; a call through a bitcast of a symbol counts as a call to that symbol. "
  "Calls made by functions that were garbage collected produce nothing, and compiler intrinsics that do not lower to calls produce no edge.",
  ["inputs", "programs"], "all well-formed call statements of the supported IR subset and all call graphs expressed with them",
  "Tests parse about a dozen call lines and check a few edges in fixed programs.",
  ["src/ir/define.rs", "src/ir.rs", "src/main.rs"], [("call statement parsers", "src/ir/define.rs direct_call, bitcast_call, assign, stmt"), ("edge insertion", "src/main.rs run(), Stmt::DirectCall / Stmt::BitcastCall")],
  ["dot output: edges"])

p("C07", "Indirect calls reach exactly the type-compatible functions",
  "A call through a function pointer produces an edge from the caller to a dashed node labelled with the call's signature followed by `*`, and that node has an edge to every live function (defined or declared) whose signature matches (same arity, same parameter and return types, opaque pointers matching any pointer), and to no function whose signature does not match. "
  "A signature through which no call is made gets no such node.",
  ["inputs", "programs"], "all signatures of callers and candidate callees within the IR type grammar",
  "Tests use two or three signatures in fixed programs; matching must hold for every pair of signatures.",
  ["src/main.rs", "src/ir.rs", "src/ir/ty.rs", "src/ir/define.rs"], [("signature matching", "src/ir.rs FnSig::loosely_equal, src/ir/ty.rs Type::loosely_equal"), ("fictitious call nodes", "src/main.rs run(), `indirects`")],
  ["dot output: dashed nodes and their edges"])

p("C08", "Uncertainty about callees is never reported as exactness",
  "If a function may call code the tool knows nothing about (an indirect branch in a function without type information, an indirect call while untyped symbols are linked in, an undefined external function, whether it is called directly or its signature matches a call through a pointer), the graph contains an edge to a node of unknown stack usage and every bound that depends on it is a lower bound (`>=`). "
  "A `bx lr` return and compiler-outlined functions do not by themselves create such uncertainty.",
  ["inputs", "programs"], "all indirect branch encodings (BLX, BX, MOV to PC, LDR and LDM into PC; returns through LR or SP are none), all placements of untyped or undefined symbols",
  "No test links an untyped symbol or decodes a bx/blx other than through whole programs that happen to contain them.",
  ["src/main.rs", "src/thumb.rs"], [("`?` nodes", "src/main.rs run(), has_untyped_symbols and `indirect`"), ("BX/BLX decoding", "src/thumb.rs analyze")],
  ["dot output: `?` nodes, `>=` bounds"])

p("C09", "Start point filtering yields the reachable subgraph unchanged",
  "With a start point, the reported graph contains exactly the functions reachable from it (itself included) and exactly the calls among them, and every function keeps the local usage and `max` bound it has in the unfiltered graph. "
  "The start point may be given as a symbol name or as a demangled path without its hash; if it matches nothing or several functions, the whole graph is reported.",
  ["inputs", "programs"], "all call graphs and all start points, present, absent or ambiguous",
  "No test passes a start point.",
  ["src/main.rs"], [("DFS copy into a new graph", "src/main.rs run(), `filter the call graph`")],
  ["dot output with a start argument"])

p("C10", "The dot output is a well-formed, faithful graph",
  "The dot output is syntactically valid: node ids are unique, every edge and cluster member refers to a declared node, no edge is repeated, and names are escaped so that reading a label back gives the function's name for any symbol or type name (quotes and backslashes included). "
  "Each node shows its name, its `max` bound and its local usage (`?` if unknown), and only the fictitious indirect-call nodes are dashed.",
  ["inputs", "programs"], "all symbol names and graphs",
  "Tests look for substrings in the output for benign names.",
  ["src/main.rs"], [("dot writer", "src/main.rs dot()"), ("Escaper", "src/main.rs impl fmt::Write for Escaper")],
  ["stdout"])

p("C11", "The top listing agrees with the graph",
  "The `top` format lists every node of the graph exactly once with its local usage (0 if unknown), in descending order of usage, after a first line giving the largest `max` bound over all nodes. "
  "The values are the same as in the dot output for the same program.",
  ["inputs", "programs"], "all graphs and local stack sizes",
  "No test selects the top format.",
  ["src/main.rs"], [("top writer", "src/main.rs top()")], ["stdout with --format top"])

p("C12", "Symbols at one address are one node",
  "Several symbol names for the same address form a single node, preferring a name with a recorded stack size, so that stack sizes, signatures, IR bodies and calls recorded under any of the names all apply to that node; mapping symbols never become nodes, and the Thumb bit of a symbol's address is ignored. "
  "Functions at different addresses are distinct nodes, and functions absent from the final executable do not appear.",
  ["inputs", "programs"], "all symbol tables: any grouping of names by address, any order",
  "No test has aliased symbols on purpose.",
  ["src/main.rs"], [("alias resolution", "src/main.rs run(), `aliases`, `canonical_name`"), ("thumb bit clearing", "src/main.rs run(), `clear the thumb bit`")],
  ["dot output: nodes, edges"])

p("C13", "Names are shortened only when unambiguous",
  "A function is shown under its demangled path without the trailing hash if and only if no other live function has the same path; otherwise all of those functions are shown with their hashes. "
  "Names that carry no hash are shown in full.",
  ["inputs", "programs"], "all sets of (mangled and unmangled) symbol names",
  "Tests only look at programs in which no two functions share a path.",
  ["src/main.rs"], [("ambiguity counting and dehash", "src/main.rs run() `ambiguous`, fn dehash")],
  ["node labels"])

p("C14", "The rustc wrapper is transparent",
  "When Cargo invokes the tool as rustc wrapper, the given compiler is run exactly once with all of its arguments unchanged and in order, plus `-Zemit-stack-sizes`, plus `--emit=llvm-ir` if and only if the crate being compiled is `compiler_builtins`; invocations that compile nothing (such as `-vV`) are no exception. "
  "The wrapper exits with the compiler's exit status.",
  ["inputs"], "all rustc command lines and exit statuses",
  "Only whole firmware builds exercise the wrapper, with the arguments Cargo happens to pass.",
  ["src/wrapper.rs"], [("argument forwarding", "src/wrapper.rs wrapper()")], ["spawned command line", "exit status"])

p("C15", "The wrapper reports the compiler_builtins artifacts it was given",
  "The wrapper reports the rlib path of every `--extern` argument for the crate `compiler_builtins` that has a path (with or without options such as `noprelude:` or `priv,noprelude:` in front of the name, paths containing `=` or `:` included) and of no other crate. "
  "When compiling `compiler_builtins` it reports the .ll path made of the output directory, the crate name and the extra filename, whichever way Cargo spells the `-C extra-filename` option; a missing output directory or option value is an error, not a wrong path.",
  ["inputs"], "all rustc command lines (options that rustc does not know in front of a crate name aside)",
  "Only whole firmware builds exercise the wrapper, with the arguments Cargo happens to pass.",
  ["src/wrapper.rs"], [("argument parser", "src/wrapper.rs RustcArgs::parse"), ("markers", "src/wrapper.rs COMPILER_BUILTINS_*_MARKER")], ["stderr of the wrapper"])

p("C16", "Memory intrinsics are linked to the library routines they lower to",
  "On targets whose machine code is not analyzed, a call to the memcpy, memmove or memset intrinsic yields edges to every linked-in routine that it can lower to (memcpy, memmove, memset and their `__aeabi_` variants of the same kind), so the caller's bound accounts for the one actually used. "
  "On analyzed targets the intrinsics add no edge by themselves and the machine code decides.",
  ["inputs", "programs"], "all subsets of linked-in memory routines, all intrinsic variants, all targets",
  "Tests only contain one memory intrinsic scenario and never check these edges.",
  ["src/main.rs"], [("intrinsic lowering table", "src/main.rs run(), `llvm.memcpy.` / `llvm.memset.`")], ["dot output: edges"])

p("C17", "Input the tool cannot interpret fails loudly",
  "If the LLVM IR contains a call or a construct that the tool does not understand, or refers to a callee it cannot find, the tool terminates with a failure status and prints no graph, rather than reporting a graph that misses the call. "
  "The same holds for a missing or truncated executable, object file or archive.",
  ["inputs", "fault_sequences"], "all single-byte corruptions and truncations of statements, all malformed inputs within the bound",
  "No test feeds malformed input to the whole tool.",
  ["src/ir/define.rs", "src/ir.rs", "src/main.rs"], [("catch-all statement parser refuses calls", "src/ir/define.rs other()"), ("assertions on unknown callees", "src/main.rs run()")],
  ["exit status", "stdout"])

p("C18", "Cargo is driven faithfully and its failures are propagated",
  "The tool runs `cargo rustc --release` exactly once for the requested binary or example, forwarding the target, features and all-features options as given, installing itself as rustc wrapper and requesting LLVM IR, fat LTO and build-std (restricted to the no_std crates when the target has no OS). "
  "If Cargo fails, the tool exits with Cargo's status and prints no graph, and Cargo's own diagnostics are passed through to stderr.",
  ["inputs", "configurations", "fault_sequences"], "all command lines, exit statuses and stderr contents of cargo",
  "Tests run one command line shape and only successful builds.",
  ["src/main.rs"], [("cargo invocation", "src/main.rs run()"), ("exit status propagation", "src/main.rs run(), `status.success()`")],
  ["spawned command line and environment", "exit status", "stderr"])

p("C19", "Local stack usage is the compiler-recorded size",
  "On targets whose machine code is not analyzed, and for functions of the supported Thumb targets whose machine code agrees, the local usage shown for a live function is exactly the size recorded for it in the object file's or compiler_builtins archive's stack size section; functions with no recorded size are shown as `?` on the former. "
  "No recorded size is attributed to another function, whatever the order of records or archive members.",
  ["inputs", "programs"], "all recorded sizes and orders of records, all splits between object and archive",
  "Tests check two or three sizes indirectly.",
  ["src/main.rs"], [("stack_sizes map", "src/main.rs run(), analyze_object / Archive loop")], ["node labels: `local`"])

p("C20", "Unsupported toolchains and bad selections are refused",
  "The analysis starts only if rustc's commit hash is the supported one or the documented environment variable has exactly the documented value; otherwise the tool prints guidance and fails without running Cargo. "
  "Exactly one of a binary or an example must be selected, otherwise the tool fails without running Cargo.",
  ["inputs", "configurations"], "all commit hashes, environment values and selection options",
  "No test runs with another toolchain or option combination.",
  ["src/main.rs"], [("toolchain gate", "src/main.rs run(), SUPPORTED_NIGHTLY_HASH"), ("selection match", "src/main.rs run()")],
  ["exit status", "spawned commands"])

p("C21", "The artifacts analyzed are those of the requested build",
  "The LLVM IR analyzed is the most recently modified `.ll` file whose name starts with the requested binary's or example's name (dashes mapped to underscores) and a dash, together with the object file next to it; files of other crates are never used. "
  "The executable analyzed is the one Cargo produces for the requested target, name and kind.",
  ["inputs", "configurations"], "all directory contents (names, modification times) and selections",
  "Tests start from a clean or single-build target directory.",
  ["src/main.rs"], [("artifact search", "src/main.rs run(), `most recently modified`")], ["dot output", "files opened"])

p("C22", "A fresh build is forced and the project is otherwise untouched",
  "Before it runs Cargo, the tool gives one Rust source of the project (src/main.rs if there is one, else src/lib.rs, else some `.rs` file below src, or below the project if it has no src directory) the current modification time, so that Cargo builds anew; without any such file it runs Cargo all the same. "
  "It touches no other file of the project and writes to none, and a run that is refused touches nothing.",
  ["inputs", "configurations"], "all sets of source files present in the project, directory orders and working directories within it",
  "Tests build fixed projects that have a src/main.rs or src/lib.rs and never look at the sources afterwards.",
  ["src/main.rs"], [("source touching", "src/main.rs run(), `touch` some source file")], ["modification times of the project's files", "order relative to the cargo process"])

p("C23", "What the bounds rest on without proof is announced",
  "For every live function whose IR contains inline assembly, every live function whose stack usage is unknown or was corrected from its machine code, every live function without type information, every live function without type information that makes an indirect branch, and every intrinsic that is assumed not to be a call, a message naming it appears on stderr with the default log settings. "
  "When several functions match the start point all of them are named, and when none does the user is told that the graph is not filtered. Nothing is said about functions that are not linked in or of which everything is known.",
  ["inputs", "programs"], "all placements of inline assembly, missing usage and type information among the functions of a program",
  "No test looks at the messages.",
  ["src/main.rs"], [("warnings", "src/main.rs run(), warn! / error!")], ["stderr"])

p("C24", "The result is complete or the run fails, however the system delivers it",
  "However few bytes standard output, files and pipes transfer at a time and wherever reading Cargo's messages or writing is interrupted, the result is the same, and a run that reports success has written all of it, in either format. "
  "If writing the result fails after any number of bytes, only once or for good, or opening or reading the executable, the object file, the archive or the LLVM IR or listing their directory fails at any place, or no source file can be touched, the tool exits with a failure status, in the latter cases without printing a graph.",
  ["inputs", "fault_sequences"], "all positions of a failure of standard output or of an input file, all sizes of the pieces in which data is transferred, all positions of an interruption",
  "Tests read complete outputs from a pipe that never fails.",
  ["src/main.rs"], [("writers", "src/main.rs dot(), top(), Escaper"), ("readers", "src/main.rs run(), fs::read, Archive, BufReader")], ["exit status", "standard output"])

# what is inside and outside of each property's quantifier (found while checking)
SCOPE = {
 "C03": "a BL to the function's own entry is recursion (a self edge), a branch within its own body is none",
 "C04": "absolute changes of SP (mov sp, ldr sp, msr), `sub sp, #0` and empty register lists are outside; a function with internal branches has an unknown usage unless SP is not modified; with inline assembly and internal branches the recorded size stands, unless it is zero although SP is modified (unknown)",
 "C06": "memcmp has an edge iff a routine for it is linked in under any of its names or imported; the application's definition of a function wins over compiler_builtins'; calls that the parser cannot read (e.g. musttail) are refused loudly",
 "C07": "arguments may be any constants (poison, constant expressions, aggregates, vectors), local names may be quoted; labels are compared modulo blanks; typed and opaque spellings of one signature may give several dashed nodes; a called signature without any match still gets its node; the erased formatter receiver `fmt::Void` stands for every receiver",
 "C08": "mov pc and ldr pc are indirect branches; post-indexed loads from SP into pc and `mov pc, lr` are returns",
 "C09": "any of a function's names is accepted, a path has to match exactly; legacy mangling",
 "C10": "type names as spelled in the IR",
 "C11": "names are escaped as in the dot output",
 "C12": "mapping symbols are `$a`, `$t`, `$d` and `$x`, alone or followed by `.` and a suffix",
 "C24": "faults of standard error and interruptions of reads of regular files (which do not happen) are outside",
 "C13": "a hash is a trailing `::h` and 16 hex digits; called but undefined functions count as live; a suffix `.llvm.N` is dropped, names with other suffixes and v0 names are shown in full",
 "C14": "arguments that are valid UTF-8; a compiler killed by a signal gives a failure status",
 "C16": "a routine counts as linked in if it is defined under any name or imported; memclr routines count as memset",
 "C17": "loud means a failure status or a panic, with nothing on stdout; IR that is cut between two items, archives that are cut between two members and lines joined after a call are outside",
 "C18": "Cargo's messages in UTF-8, line endings aside; the feature list may be left out when all features are selected; a given target has precedence over the configured one; started as cargo subcommand too",
 "C19": "the application's record wins when both have one of the same name",
 "C20": "a toolchain that does not tell its commit hash is refused too",
 "C21": "equal modification times are outside; the target directory is the default one, or that of the configuration, CARGO_TARGET_DIR or the workspace",
}
for x in P:
    if x["id"] in SCOPE: x["quantifier"]["text"] += " (" + SCOPE[x["id"]] + ")"

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
