N1 = "Sampled runs, each exactly repeatable from its seed; the fault's position is drawn over every call of the command's fault-free run."
CHECKS["C02"] = ("fault_enumeration", PROC + "success compared with the output of a run without faults", N1)
CHECKS["C03"] = ("fault_enumeration", PROC + "whatever an interruption leaves is offered to every tool that reads it", N1 + " Kill of the process, not loss of power.")
CHECKS["C04"] = ("fault_enumeration", PROC + "outputs compared with what was there before", N1)
CHECKS["C05"] = ("fault_enumeration", PROC + "the named file compared with the original and with an independently computed stripped object", N1)
N2 = "Sampled runs, each exactly repeatable from its seed."
CHECKS["C06"] = ("exploration", PROC + "damaged files given to every tool that reads them; verdict and contents compared with an independent strict reader", N2 + " Trusts the independent reader of the format in harness/src/obj.rs.")
CHECKS["C07"] = ("exploration", PROC + "members read back through the library and the linker, compared with what the archive was made from", N2 + " Trusts the independent description of the format.")
CHECKS["C08"] = ("exploration", PROC + "the same command repeated under other hash seeds, transfer splits and interruptions gives the same bytes", N2)
CHECKS["C09"] = ("exploration", PROC + "the same program built in different divisions behaves the same when run", N2 + " Programs come from the harness's generator.")
CHECKS["C10"] = ("fault_enumeration", PROC + "console bytes compared with what the generated program is defined to read and write", N1)
CHECKS["C17"] = ("fault_enumeration", PROC + "number of system calls after the first failing read, exit status and results compared with the run without faults", N1)

N3 = " Sampled runs, each exactly repeatable from its seed; the reference model (harness/src/m/model.rs) is written from the instruction set's documentation and trusted."
CHECKS["C12"] = ("exploration", MACH + "a model of what the object file grants decides every access; after hostile code ran, all of physical memory compared with what it may have changed", N3)
CHECKS["C13"] = ("exploration", MACH + "page tables rewritten between and by instructions; every access compared with a walk of the tables of that instant", N3)
CHECKS["C14"] = ("exploration", MACH + "traps forced at every kind of step; state after the handler's reth compared with the state when interrupted", N3)
CHECKS["C15"] = ("exploration", MACH + "random memory, registers and object files run, disassembled and loaded without a panic and within a bounded number of steps", N3)
CHECKS["C18"] = ("exploration", MACH + "system calls and faults of generated programs compared with the contract's model; a sample also run by the shipped emulator", N3)
CHECKS["C19"] = ("exploration", MACH + "lock step of the library's machine with the reference model, tables, memory and device data disturbed between steps", N3)
CHECKS["C11"] = ("exploration", PROC + "the same program started under different process entropy; state at the start, output, final trap and exit status compared", N2)
CHECKS["C16"] = ("exploration", PROC + "whole transcript of random debugger sessions compared with the same machine run without debugger; disassembly compared with doing nothing", N2 + " Where stepping stops is judged by call depth.")
CHECKS["C20"] = ("exploration", PROC + "generated sources assembled, linked and run; objects, executables and behaviour compared with an assembler and a machine written a second time", N2 + " Trusts the second assembler (harness/src/m/asm.rs) and the reference machine.")
CHECKS["C21"] = ("exploration", PROC + "every line that tobjdump, tdbg and t -t show compared with the file as an independent reader and table of instructions see it", N2 + " Trusts the independent reader and table of instructions.")
CHECKS["C22"] = ("exploration", PROC + "images generated along the reference machine's execution, booted by the shipped emulator; output, final trap, status and point of termination compared with the reference machine's", N3)
CHECKS["C23"] = ("exploration", PROC + "histories of links over generated object files, each output compared with what an independent linker makes of the inputs", N2 + " Trusts the independent linker (harness/src/p/c23.rs) and reader of the format.")
CHECKS["C24"] = ("exploration", PROC + "sources damaged at random given to the shipped assembler; verdict, messages and object checked, and compared with those of the same source with meaningless lines added", N2)
CHECKS["C25"] = ("exploration", PROC + "several tools at once, one call at a time in an order a seeded scheduler decides; ends and files compared with those of each tool alone", N2 + " The tools are single threaded and a call on a file is one step.")
