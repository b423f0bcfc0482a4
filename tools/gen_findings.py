"""Writes known_findings.json.  Hand-maintained list; run after adding an entry."""
import json
F = [
 ('C03', '879ef76', 'conditional branch B T3: J1 and J2 were swapped, so a long conditional branch out of a function ended at a wrong address and its call edge was lost'),
 ('C03', '0f266b6', 'BKPT (0xbexx) was not decoded as 16-bit: the tool panicked on functions that contain it'),
 ('C04', '1285bdf', '`subw sp, sp, #imm12` was ignored: reported local usage was smaller than the real one'),
 ('C04', '73d543d', '`add sp, rN` / `sub.w sp, sp, rN` change SP by an unknown amount but local usage was reported as a number'),
 ('C04', '24247fd', '`STMDB sp, {...}` without writeback was counted as stack allocation'),
 ('C04', '751084f', 'pre-decrement STRD, STRB and STRH to SP were not counted'),
 ('C04', '58bddd6', 'ThumbExpandImm with 0b0001:imm8 was expanded to 0xXY00XY00'),
 ('C04', 'e76728a', 'CBZ/CBNZ around a push were not taken for conditionals: usage shown as exact'),
 ('C05', '5f6bca2', 'several data tags in a row: panic or decoding of data as instructions'),
 ('C05', '0642b83', 'symbols without a size: only part of their code was analysed (branches to the rest were lost; also C03)'),
 ('C06', 'f883dea', 'calls through a bitcast yielded two edges, or one to the wrong one of several names'),
 ('C03', '39110ce', 'CBZ and CBNZ whose target is another function yielded no edge'),
 ('C04', '575497c', 'jump tables (TBB, TBH, `add pc`) were not taken for internal branches: the stack usage of all arms was added up (or the tool panicked on the mismatch with the recorded size)'),
 ('C08', 'bc77db9', 'LDM and LDMDB of a list with PC from a register other than SP were not taken for indirect branches'),
 ('C08', 'ff8a6c9', 'undefined functions (imported from elsewhere) were no candidates of calls through pointers: an exact bound that does not hold'),
 ('C07', '998f40d', 'constants other than null, undef and numbers (poison, constant expressions, aggregates, vectors) as an argument of a call through a pointer: the whole program was refused'),
 ('C07', '2e76c52', 'quoted names of local values: the whole program was refused'),
 ('C03', 'ee0e607', 'functions in other sections than .text (RAM functions, .init): panic (also C04)'),
 ('C04', '61cbbf4', 'a function with inline assembly that pushes, an internal branch and a recorded usage of zero: panic'),
 ('C08', '50a0108', 'undefined symbols with a single-@ version suffix (`memcpy@GLIBC_2.14`, as newer linkers write them) were not recognized: panic at a call, edges of memory intrinsics and of calls through pointers missing (also C16)'),
 ('C03', 'abfd8f2', 'several local functions of one name: the branches of one became edges of another (also C12)'),
 ('C09', 'e213438', 'a start point that is the name of several functions selected one of them'),
 ('C14', '051c4ad', 'compiler invocations without a crate name (`rustc -vV`, which Cargo 1.79 and later make through the wrapper) failed'),
 ('C15', 'dacbabc', 'an --extern for compiler_builtins with other options than `noprelude:` in front (`priv,noprelude:`, `noprelude,nounused:`) was not recognized: the tool panicked after the build'),
 ('C06', 'fe0f8d4', 'names with escape sequences in the LLVM IR (quotes, UTF-8, the \\01 marker that bindgen writes) were not decoded: calls of such functions panicked and the calls they make were lost'),
 ('C07', '375c488', 'an indirect call that matches no function in the program was dropped, with its uncertainty (also C08)'),
 ('C07', 'dbb4140', 'calls through variadic function pointers got the wrong signature'),
 ('C07', '73c7979', 'calls of formatting functions through %core::fmt::Void* were labelled without the pointer'),
 ('C08', 'f2fff4a', 'loads and moves into PC were not treated as indirect branches'),
 ('C09', 'dd8dc09', 'start points: a crate path matched as a prefix, aliases were not accepted'),
 ('C10', '828b7e6', 'backslashes in names were not escaped in the dot output'),
 ('C12', 'a78da9f', 'two symbols that differ in the Thumb bit only became two nodes'),
 ('C12', '6f24f32', 'only one name of an aliased function took part in the matching of indirect calls'),
 ('C13', '2222360', 'the last segment of a name was removed although it was not a hash'),
 ('C13', 'dfdb53e', 'functions without a definition were not counted when names are shortened: two nodes with one label'),
 ('C16', '418fa0b', 'memory intrinsics were not linked to __aeabi_mem*4/8 and memclr variants / to another name of memcpy'),
 ('C17', '52eb246', 'an invoke or callbr that could not be parsed was skipped silently'),
 ('C06', '5b385ed', 'call to memcmp dropped when memcmp is another name of a function or is imported'),
 ('C17', '9468754', 'a truncated compiler_builtins archive was accepted: its records were silently missing'),
 ('C18', '2698f2a', 'build.target of the configuration file prevailed over --target when rustc was asked for its cfg'),
 ('C18', 'd74e8b1', 'run as `cargo call-stack ...` (subcommand name as first argument) the arguments were misread'),
 ('C19', '95575ad', 'a stack usage record in the archive replaced that of the application for a name that both define'),
 ('C06', '90329f3', 'a function defined in the application and in compiler_builtins got the edges of the latter, though the linker takes the former'),
]
out = [dict(property=p, status='fixed', commit=c, text='fixed: property=%s %s %s' % (p, c, t)) for p, c, t in F]
json.dump(out, open('/verif/known_findings.json', 'w'), indent=1)
