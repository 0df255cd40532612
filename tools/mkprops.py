#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the property texts live here, in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

prop("C01", "Stack behaves as an unbounded LIFO that yields 0 when empty",
 "After any sequence of stack instructions (number pushes, $ : \\ n, and pops made by every other instruction) the stack holds exactly the pushed-minus-popped values in order, and popping or looking below the bottom yields 0 and leaves the stack empty. Taking values by position counts from the top.",
 ["programs","histories"], "every program over the stack instructions, every stack depth including empty, every operation history of the stack structure",
 "The tests push and pop a few fixed values; underflow at each operand position and long interleavings of operations are an infinite family.",
 ["src/Stack.cpp","src/StackStack.cpp","src/Unefunge93Strategy.cpp","src/Unefunge98Strategy.cpp"],
 [("list-backed stack","src/Stack.cpp"),("stack instructions","src/Unefunge93Strategy.cpp")])
prop("C02", "Arithmetic and logic are 64-bit two's complement; division by zero is 0",
 "For all operand values + - * wrap modulo 2^64, / truncates toward zero and % takes the sign of the dividend, both giving 0 for a zero divisor, ` compares signed and ! is logical not. No operand pair terminates the interpreter, and . prints the whole signed 64-bit value in decimal followed by a space, while , writes the low byte as a character.",
 ["inputs","programs"], "every pair of 64-bit operand values, every arithmetic/logic/output instruction, including missing operands",
 "Tests compute a handful of small sums; overflow, sign combinations, zero divisors and values above 32 bits are not sampled.",
 ["src/Unefunge93Strategy.cpp","src/include/funge_types.h"],
 [("arithmetic instructions","src/Unefunge93Strategy.cpp"),("decimal and character output","src/Unefunge93Strategy.cpp")])
prop("C03", "Same-line wrapping in unbounded space for every delta",
 "Without a torus, an instruction pointer that moves beyond the occupied bounds in 1, 2 or 3 dimensions, with any delta (including diagonal and flying ones), re-enters on the opposite side of its own line: stepping back along the reversed delta to the last in-bounds position. It therefore keeps visiting exactly the positions of its line that lie inside the bounds, in order, and spaces take no tick.",
 ["programs","inputs"], "every field shape, position and delta (any magnitude and sign), in 1, 2 and 3 dimensions, also when bounds grow or shrink at run time",
 "One smoke test wraps horizontally; flying deltas, negative coordinates and bounds that change while running are unbounded families.",
 ["src/InstructionPointer.cpp","src/Field.cpp","src/FungeRunner.cpp"],
 [("pointer advance and wrap","src/InstructionPointer.cpp"),("bounds tracking","src/Field.cpp"),("space skipping","src/FungeRunner.cpp")])
prop("C04", "Torus topology confines the pointer to an 80x25 page",
 "With the torus topology (selected by -std=be93, -std=une93 or -ftopo=torus) the pointer's columns are exactly 0..79 and rows 0..24: leaving over one edge re-enters at the opposite edge of the same row or column, whatever the program's own size.",
 ["programs","configurations"], "every row/column, each of the four edges, programs smaller and larger than the page",
 "No test lets a pointer reach column 79/80 or row 24/25 under the torus topology.",
 ["src/InstructionPointer.cpp","src/Funge.cpp"],
 [("torus wrap","src/InstructionPointer.cpp"),("topology selection","src/Funge.cpp")])
prop("C05", "Control-flow instructions move the pointer exactly as defined",
 "For every stack, direction and surrounding code: > < ^ v h l set, r reverses, [ ] turn and x replaces the delta; _ | m w choose a direction from popped values; # and j skip the stated number of cells (backwards for negative); ; skips to the matching ; without a tick; k executes the next real instruction n times from its own position (n=0 skips that instruction); ? picks one of the 2N unit directions. Nothing but the popped operands, position and delta changes.",
 ["programs","inputs"], "every instruction, direction (cardinal and flying), operand value, following cell and dimension",
 "Smoke tests run each instruction once or twice in one direction; operand signs, flying deltas and instruction pairs (k before each instruction) multiply beyond sampling.",
 ["src/Unefunge93Strategy.cpp","src/Unefunge98Strategy.cpp","src/Befunge93Strategy.cpp","src/Befunge98Strategy.cpp","src/Trefunge98Strategy.cpp","src/Vector.cpp"],
 [("movement instructions","src/Befunge98Strategy.cpp"),("iterate / jump","src/Unefunge98Strategy.cpp")])
prop("C06", "Funge-space is a total, exactly-addressed store with sound bounds",
 "Reading any coordinate returns the last value stored there (space if none), for g p ' s and any negative, huge or N-dimensional coordinate plus storage offset; storing changes only that cell. Cells keep all 64 bits (or exactly the signed low byte when char cells are selected). The reported bounds always contain every non-space cell and follow growth and erasure.",
 ["histories","inputs"], "every sequence of stores and loads at any coordinates, any values, both cell sizes, with any storage offset",
 "Unit tests store a few cells near the origin; bounds after erasing extreme cells and high-dimension coordinates depend on the whole history.",
 ["src/Field.cpp","src/include/Field.h","src/Vector.cpp","src/Unefunge93Strategy.cpp","src/Unefunge98Strategy.cpp"],
 [("cell map and bounds","src/Field.cpp"),("get/put/fetch/store","src/Unefunge98Strategy.cpp")])
prop("C07", "Stack-stack blocks transfer values and the storage offset exactly",
 "{ opens a new stack with the top n values moved in order (zero-filled; n<0 pushes |n| zeros below), saves the storage offset underneath and sets the offset to the next cell; } restores the offset and moves n values back (n<0 drops |n|); u moves values one at a time between the two top stacks in either direction. With only one stack } and u reflect, and a nested sequence restores every lower stack.",
 ["programs","histories"], "every nesting of { } u, every n including negative and larger than the stack",
 "Tests run one nesting; underflow, negative counts and deep nestings interact.",
 ["src/Unefunge98Strategy.cpp","src/StackStack.cpp","src/util/FungeUtilities.cpp"],
 [("begin/end/under","src/Unefunge98Strategy.cpp"),("stack of stacks","src/StackStack.cpp")])
prop("C08", "String mode pushes characters per the selected string style",
 "Between quotes every cell is pushed (one tick each) and nothing is executed; multispace style pushes each space, SGML style pushes one space per run of whitespace with the rest taking no tick, and C style turns backslash escapes into one character (so a quote can be embedded). The style is chosen by -fstrings or by the language standard, also when the string wraps around the field.",
 ["programs","configurations"], "every string content, style, direction, including empty strings, runs of spaces at either end and wrapping strings",
 "Only two string programs are tested, with one style each.",
 ["src/FungeStateString.cpp","src/Funge.cpp"],
 [("string state","src/FungeStateString.cpp"),("style selection","src/Funge.cpp")])
prop("C09", "Concurrent pointers run in strict round-robin, one instruction per round",
 "t creates a child with a deep copy of the parent's stacks, storage offset and loaded fingerprints, a fresh identifier, and a reversed delta already advanced one step; with cooperative threads the child takes its first turn before its parent's next one, and from then on every live pointer of the universe executes exactly one time-taking instruction between two turns of any other, always in the same cyclic order. @ ends only the executing pointer; the others are unaffected, and no pointer's private state changes by another's actions except through shared funge-space.",
 ["schedules","programs"], "every number of pointers and every program split at any point, including nested splits and splits inside open stack blocks",
 "One smoke test splits once; fairness, isolation and order hold over unbounded executions and interleavings.",
 ["src/FungeUniverse.cpp","src/FungeRunner.cpp","src/StackStack.cpp","src/Unefunge98Strategy.cpp"],
 [("scheduler queue","src/FungeUniverse.cpp"),("runner clone","src/FungeRunner.cpp")])
prop("C10", "The process ends exactly when the program does, with the right status",
 "The process terminates with status 0 when the last pointer has executed @ (not earlier, not later), and with the popped value's low 8 bits when a pointer executes q, after which no pointer of its universe executes another instruction (with several universes the first one loaded decides the status). Output written before termination is complete and in execution order.",
 ["programs","schedules"], "every program that stops by @ or q, any number of pointers, any exit value",
 "Tests cover one q and single-pointer @; early/late termination races and value truncation need many runs and pointers.",
 ["src/FungeUniverse.cpp","src/FungeMultiverse.cpp","src/Unefunge98Strategy.cpp"],
 [("kill/wait","src/FungeUniverse.cpp"),("process exit","src/Funge.cpp")])
prop("C11", "Unknown or failing instructions reflect and leave everything else unchanged",
 "Executing a cell that is no instruction of the selected standard and dimension, or an instruction that fails, reverses the delta and continues, changing nothing else but the operands the failing instruction popped; in particular every A-Z without a loaded fingerprint, every 98-instruction in 93 mode, dimension-specific instructions in fewer dimensions, end of input, and unopenable files.",
 ["programs","configurations"], "every cell value (any 64-bit), standard, dimension and state",
 "Only a few instructions are exercised per standard; the complement (everything else must reflect) is never enumerated.",
 ["src/FungeRunner.cpp","src/FungeStateNormal.cpp","src/Unefunge93Strategy.cpp"],
 [("error handling in the tick","src/FungeRunner.cpp"),("semantic lookup","src/FungeStateNormal.cpp")])
prop("C12", "y reports the true interpreter and pointer state",
 "y with n<=0 pushes the whole system-information list and with n>0 exactly its nth cell (or the stack cell beyond it) and nothing else: capability flags, cell size, handprint, version, paradigm, separator, dimension, pointer id, position, delta, offset, bounds, date and time, stack sizes, arguments and environment, each equal to the actual state when executed.",
 ["programs","configurations"], "every n, every configuration, stack-stack shape, position/delta/offset, dimension and environment",
 "No test checks y beyond a time print; each field depends on dynamic state.",
 ["src/Unefunge98Strategy.cpp"],
 [("system information","src/Unefunge98Strategy.cpp")])
prop("C13", "Fingerprint loading overlays A-Z semantics in LIFO order, per pointer",
 "( with a known id pushes the id and 1 and makes exactly that fingerprint's letters execute its instructions, newest load first; ) with a loaded id removes the newest layer from each of that fingerprint's letters and re-exposes the previous ones; an unknown id reflects. FING's X, Y and Z swap, drop and copy single layers, loads survive into a split child, and one pointer's loads never affect another's letters.",
 ["histories","programs"], "every sequence of loads, unloads, FING edits and splits over all fingerprints, including -l preloading",
 "Tests load one fingerprint and call it; overlay order over arbitrary histories is not sampled.",
 ["src/FingerprintStrategy.cpp","src/Fingerprint.cpp","src/FungeStateNormal.cpp","src/fingerprint/FingerprintFING.cpp"],
 [("load/unload","src/FingerprintStrategy.cpp"),("semantic stacks","src/FungeStateNormal.cpp"),("FING","src/fingerprint/FingerprintFING.cpp")])
prop("C14", "MODE toggles hover, invert, queue and switch with exactly their effects",
 "After an odd number of toggles: hover makes direction changes add to the delta, invert makes pushes go to the bottom, queue makes pops take from the bottom, and switch makes [ ] { } ( ) replace themselves with their counterpart after executing; after an even number behaviour is the default again. The modes combine, apply to every pointer of the space and to stacks created later.",
 ["histories","programs"], "every combination and order of toggles with every instruction and stack operation",
 "Each mode has one smoke test in isolation.",
 ["src/fingerprint/FingerprintMODE.cpp","src/Stack.cpp","src/StackStack.cpp","src/InstructionPointer.cpp","src/FungeUniverse.cpp"],
 [("mode flags","src/FungeUniverse.cpp"),("queue/invert","src/Stack.cpp"),("hover","src/InstructionPointer.cpp")])
prop("C15", "Program loading places every character at its documented coordinate",
 "A source file loads so that each non-space byte sits at the coordinate given by the line (LF, CR or CRLF), page (FF) and volume (VT) breaks before it, line breaks right after FF/VT being ignored; dimensions are the -std ones or else inferred; FF/VT are ignored below 3 dimensions. BeQunge (.beq) and Funge-lib (.fl) files place their blocks at the declared origins, and .fmv files create each listed universe with its arguments.",
 ["inputs"], "every byte sequence as program text, every dimension setting, every BeQunge/Funge-lib layout",
 "Unit tests parse two or three tiny inputs; mixes of line-break kinds, page breaks and missing final newlines are not covered.",
 ["src/Field.cpp","src/Funge.cpp"],
 [("text parser","src/Field.cpp"),("BeQunge parser","src/Field.cpp"),("Funge-lib parser","src/Field.cpp")])
prop("C16", "File input and output instructions transfer regions faithfully",
 "i loads the named file at the popped position plus storage offset exactly like program text (or, in binary mode, as one unbroken row) without erasing cells under spaces, and pushes the position and the extent its reading position reached; o writes exactly the addressed rectangle (for a region of positive size), row by row, stripping trailing spaces of each row in text mode. Nothing outside the region or other files is touched; an unopenable file reflects.",
 ["inputs","programs"], "every file content, region, offset, flag, and dimension",
 "One smoke test reads and one writes a fixed small file.",
 ["src/Field.cpp","src/Unefunge98Strategy.cpp"],
 [("file input/output","src/Unefunge98Strategy.cpp"),("parse/dump","src/Field.cpp")])
prop("C17", "Disabled capabilities reflect and have no effect; options configure the run",
 "With -fno-concurrent, -fno-execute or -fno-filesystem, t, = (and PERL's E and I) or i and o (and starfish F) fail without popping, creating a pointer, running a command or touching any file; with them enabled they work, the last of repeated options winning. Bad option values, missing or unreadable program files end with a nonzero status without running anything.",
 ["configurations","programs"], "every combination and order of options, extensions and capability-using instructions",
 "No test passes any -f option; combinations of options multiply.",
 ["src/Funge.cpp","src/Unefunge98Strategy.cpp","src/fingerprint/FingerprintPERL.cpp","src/StarfishStrategy.cpp"],
 [("option parsing","src/Funge.cpp"),("capability gates","src/Unefunge98Strategy.cpp")])
prop("C18", "><> programs run with the language's stack, mirror and error semantics",
 "A ><> program's every instruction acts as the language defines: hexadecimal pushes, arrows and mirrors, ! ? . jumps, arithmetic on real numbers, comparisons, both quote kinds, stack rotation, reversal, sub-stacks, the register, input (-1 at end), output, g and p. Popping from too small a stack, dividing by zero or an unknown instruction ends the process with 'something smells fishy...' and status 1; ; ends it with status 0.",
 ["programs","inputs"], "every ><> program and input",
 "Eight fixed fish programs are tested; error cases and mirrored paths are not.",
 ["src/FishStrategy.cpp","src/util/include/FishUtil.h"],
 [("fish instructions","src/FishStrategy.cpp")])
prop("C19", "*><> extends ><> with its movement, call, stack and file instructions",
 "A *><> program additionally has the fisherman (alternating vertical hooks returning to the last horizontal direction), dive and rise (only movement acts while submerged), call and return (return resumes after the call), stack selection, file reading and writing, sleep and the clock, each as defined, and shares every ><> rule including the error rule.",
 ["programs","inputs"], "every *><> program",
 "Five fixed starfish programs are tested.",
 ["src/StarfishStrategy.cpp","src/FungeStateNormal.cpp","src/FishStrategy.cpp"],
 [("starfish instructions","src/StarfishStrategy.cpp"),("dive gate","src/FungeStateNormal.cpp")])
prop("C20", "Stack, integer and bit fingerprints compute exact results for all operands",
 "FRTH, BOOL, BITW, MODU, FIXP's integer instructions, CPLI, BASE, ROMA and REFC push, print or read exactly the result their documentation defines for every operand value and stack depth, pop exactly their operands, and touch nothing else.",
 ["inputs","programs"], "every operand tuple (full 64-bit), every stack depth, each instruction of the fingerprint",
 "Each fingerprint has at most one fixed smoke program; many instructions have none.",
 ["src/fingerprint/FingerprintFRTH.cpp","src/fingerprint/FingerprintBOOL.cpp","src/fingerprint/FingerprintBITW.cpp","src/fingerprint/FingerprintFIXP.cpp","src/fingerprint/FingerprintCPLI.cpp","src/fingerprint/FingerprintBASE.cpp","src/fingerprint/FingerprintREFC.cpp","fing/MODU.fl","fing/ROMA.fl"],
 [("fingerprint instructions","src/fingerprint/")])
prop("C21", "String and text fingerprints transform strings exactly",
 "STRN, FPRT's integer and string instructions and ORTH's S act on 0-terminated stack strings exactly as documented for all contents and lengths (including empty strings and counts beyond the length), popping only their operands; a malformed number or negative count reflects instead of ending the interpreter.",
 ["inputs","programs"], "every string content and length, every numeric argument",
 "Strings of a few fixed values only.",
 ["src/fingerprint/FingerprintSTRN.cpp","src/fingerprint/FingerprintFPRT.cpp","src/util/FungeUtilities.cpp"],
 [("string instructions","src/fingerprint/FingerprintSTRN.cpp"),("stack string helpers","src/util/FungeUtilities.cpp")])
prop("C22", "Space and movement fingerprints change exactly the documented cells/vectors",
 "TOYS, ORTH, JSTR, SUBR, NFUN and FISH instructions read and write exactly the cells of the addressed rectangle or vector (each once, in the documented order, overlapping copies respected), and change position, delta, offset, dimension or stack only as documented, for every size sign, direction and dimension; zero-sized regions change nothing.",
 ["programs","inputs"], "every region, overlap, size sign, direction, dimension, return address and argument count",
 "Tests move one fixed region for a few of the 26 TOYS letters.",
 ["src/fingerprint/FingerprintTOYS.cpp","src/VectorRange.cpp","src/fingerprint/FingerprintORTH.cpp","src/fingerprint/FingerprintJSTR.cpp","src/fingerprint/FingerprintSUBR.cpp","src/fingerprint/FingerprintNFUN.cpp","src/fingerprint/FingerprintFISH.cpp"],
 [("region iteration","src/VectorRange.cpp"),("TOYS","src/fingerprint/FingerprintTOYS.cpp"),("subroutines","src/fingerprint/FingerprintSUBR.cpp")])
prop("C23", "Inter-pointer communication delivers values to exactly the addressed pointer",
 "IIPC's G, L and P take, look at or add the top value of exactly the live pointer whose id is given (reflecting if there is none), I and A report the own and the parent's id, and D makes a pointer dormant until another changes its stack, after which it resumes with all its state intact.",
 ["schedules","programs"], "every set of pointers, ids (live, dead, never existing) and interleaving of exchanges with execution",
 "No test uses this fingerprint; wake-ups depend on the schedule.",
 ["src/fingerprint/FingerprintIIPC.cpp","src/Stack.cpp","src/FungeUniverse.cpp"],
 [("exchange","src/fingerprint/FingerprintIIPC.cpp"),("dormancy by stack age","src/Stack.cpp")])
prop("C24", "The debugger stops where asked, reports true state and is otherwise transparent",
 "Under -g a pointer stops before its first instruction, after each step, and exactly at breakpoints, watched stores, software breaks and failing instructions; every query prints the actual position, delta, offset, stacks, cells, threads and the last ten positions; and continuing yields the same program output and status as an undebugged run. No command line, malformed argument or end of input makes it loop forever or crash.",
 ["histories","inputs","programs"], "every sequence of debugger commands against every program",
 "No test runs the debugger.",
 ["src/FungeDebugger.cpp","src/Defunge.cpp","src/fingerprint/FingerprintDBUG.cpp"],
 [("stop conditions","src/FungeDebugger.cpp"),("commands","src/Defunge.cpp")])
prop("C25", "Every accepted run terminates its universes: no lost wake-up or early exit",
 "Whatever the interleaving of pointer creation, termination, quitting and waiting, with cooperative or native threads, the process neither exits while a pointer that has not stopped remains (unless q or debugger quit ended it) nor keeps waiting once every pointer has stopped; each pointer is executed by one thread at a time and its result is the same in both threading styles for programs whose pointers do not interact.",
 ["schedules"], "every interleaving of the universe thread, pointer threads and the waiting main thread",
 "Thread interleavings are not controlled by any test and native threading is never run.",
 ["src/FungeUniverse.cpp","src/FungeMultiverse.cpp","src/util/include/FungeSem.h"],
 [("semaphore and condition variable","src/FungeUniverse.cpp"),("wait for all universes","src/FungeMultiverse.cpp")])
prop("C26", "Universes are separate, uniquely named, and reached only as requested",
 "Each universe has its own space, modes and pointers under a unique name (a taken name gets the first free numeric suffix); MVRS B creates, C counts, N names, P and F copy exactly the given region between spaces, and G and J move the executing pointer to the named universe (and position); an unknown name or invalid argument reflects. Cells of a universe change only by its own pointers or such a copy.",
 ["programs","histories"], "every set of universe names and sequence of multiverse instructions",
 "One fixed program creates one universe.",
 ["src/FungeMultiverse.cpp","src/fingerprint/FingerprintMVRS.cpp","src/FungeUniverse.cpp"],
 [("universe registry","src/FungeMultiverse.cpp"),("multiverse instructions","src/fingerprint/FingerprintMVRS.cpp")])
prop("C27", "Vectors and ranges obey N-dimensional algebra",
 "Vectors of any dimensions add, subtract, compare, reverse and turn component-wise with missing components zero (trailing zeros never matter for equality, ordering or lookup), print and parse consistently, and a range between two corners (none at the end of the 64-bit range) visits every lattice point of the box exactly once, the first component fastest, for every sign of its extents.",
 ["inputs","histories"], "all vectors of any dimension and component values, all pairs of corners",
 "Unit tests compare a dozen literal vectors.",
 ["src/Vector.cpp","src/VectorRange.cpp"],
 [("vector algebra","src/Vector.cpp"),("range iteration","src/VectorRange.cpp")])
prop("C28", "Funge-lib fingerprints run as subroutines on the caller's stack",
 "An instruction of a fingerprint defined by a Funge-lib file starts its own program at the plane of its letter, sharing the caller's stack and able to inspect or move only the caller through the dynamic instructions, and the caller resumes exactly when that program ends; MODU, ROMA, NULL and TERM therefore behave as their documentation says, and only letters with a plane are bound.",
 ["programs","inputs"], "every instruction of the shipped libraries, every stack, nested and repeated calls, with concurrent callers",
 "Two smoke programs print fixed numerals.",
 ["src/fingerprint/FingerprintFungeLib.cpp","src/fingerprint/FingerprintDynamic.cpp","fing/MODU.fl","fing/NULL.fl","fing/ROMA.fl","fing/TERM.fl"],
 [("library universe","src/fingerprint/FingerprintFungeLib.cpp"),("caller access","src/fingerprint/FingerprintDynamic.cpp")])

prop("C29", "No program or input makes the interpreter crash, corrupt memory or wedge",
 "Whatever the program text, options, input and stack contents, every instruction of every standard and fingerprint returns to the interpreter: it never ends the process by a fault, an uncaught exception or an abort, never reads or writes memory it does not own, and never loops for ever inside one instruction (unless the instruction waits for input or for another pointer). The process ends only by @, q, the >< error rule or the debugger.",
 ["programs","inputs"], "every program text and input, every instruction with every operand (huge, negative, missing), every option combination",
 "Tests run well-formed programs; malformed operands, self-modifying programs and instructions in unusual states are an unbounded family, and memory errors often leave results unchanged.",
 ["src/FungeRunner.cpp","src/FungeStateNormal.cpp","src/Stack.cpp","src/StackStack.cpp","src/Field.cpp","src/util/FungeUtilities.cpp"],
 [("error handling in the tick","src/FungeRunner.cpp"),("stack of stacks","src/StackStack.cpp"),("string helpers","src/util/FungeUtilities.cpp")])
prop("C30", "Clock, command and directory fingerprints act on the environment exactly",
 "HRTI's G pushes the clock's granularity, M sets the pointer's own mark, T pushes the microseconds since it (reflecting without a mark), E erases it and S pushes the microseconds since the last whole second; PERL's S tells whether a shell level is active, E and I run exactly the popped command and push its result as a string or as a number; DIRF's C, M and R change, make and remove exactly the named directory and reflect when that fails. Nothing else changes.",
 ["programs","histories"], "every sequence of these instructions, mark state, command and directory name (existing, missing, not a directory, non-empty)",
 "One smoke program each; results depend on the history of marks and on the state of the file system.",
 ["src/fingerprint/FingerprintHRTI.cpp","src/fingerprint/FingerprintPERL.cpp","src/fingerprint/FingerprintDIRF.cpp"],
 [("timer","src/fingerprint/FingerprintHRTI.cpp"),("commands","src/fingerprint/FingerprintPERL.cpp"),("directories","src/fingerprint/FingerprintDIRF.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
