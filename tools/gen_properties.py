#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
T = "The only test (test_align) checks two alignment helpers on 14 constants; "

p("C01", "Saved object files read back unchanged",
  "An object file that a tool reports as written reads back as exactly the object that was written: entry point, flags, stack and heap sizes, every segment with its address and bytes, every symbol and every relocation, at the same offset behind any leading text. This holds however the operating system splits, shortens or interrupts the individual reads and writes. An object that does not fit the file format (a section longer than 65535 bytes, a name with a zero byte) is refused with an error instead of being written altered.",
  ["inputs", "fault_sequences"], "every object with format-legal symbol names x every sequence of short reads, short writes and EINTR",
  T + "nothing writes or reads an object file, and no test can make the kernel split a read inside a section header.",
  ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs"],
  [("length-prefixed sections behind a magic number", "AalvWriter::write_section, AalvReader::read_section_headers"), ("per-section codecs", "src/aalv/obj/sec_impl.rs"), ("bounded section reads", "ReadWindow")],
  observe=["bytes of the written file, decoded independently", "object returned by the reader"])
p("C02", "Success is reported only when the output is complete",
  "If an open, write, seek, truncate, copy, sync, rename or permission change on an output file fails while tc, tl, tar or tstrip produces it, the tool exits with a failure status and a message on standard error. When a tool exits with success, every output file holds exactly the bytes (and for tl -e the executable permission) that a fault-free run produces.",
  ["fault_sequences", "inputs"], "every failing system call at every position of a run, transient or persistent, and every disk capacity",
  T + "no tool is run at all, and a write error on the last byte of a file cannot be provoked without controlling the disk.",
  ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/bin/tc.rs", "src/bin/tl.rs", "src/bin/tar.rs", "src/bin/tstrip.rs"],
  [("error propagation from buffered writes", "AalvWriter, Object::write_to_file"), ("exit status", "main of each tool")],
  observe=["exit status, standard error and output files after the run"])
p("C03", "An interrupted write never passes for a good file",
  "If a tool is killed, or its writes start failing, at any point while it writes an object, executable or archive, then what is left under that name is rejected by every tool that reads such files, unless it is the complete new file or the untouched previous one. A torn archive may also be read as a shorter archive whose members are all intact.",
  ["crash_points", "fault_sequences"], "every crash instant between or inside the writes of a run, every write error",
  T + "crash points cannot be reached by calling functions that run to completion.",
  ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/savn.rs", "src/bin/tl.rs", "src/bin/tar.rs"],
  [("terminating empty section name", "AalvWriter / AalvReader::read_section_headers"), ("section lengths", "AalvWriter::write_section")],
  observe=["file left on disk after the crash, read by tobjdump, tl, tstrip"])
p("C04", "Unusable inputs leave existing outputs untouched",
  "When compiling, linking, archiving or stripping fails because an input is missing, unreadable (also when reading fails part-way), or wrong (source error, undefined or doubly defined symbol, no entry point or an undefined one, not an object file, a relocation outside its segment or of a symbol that is not there, a segment, symbol table or list of references that does not fit), the tool exits with a failure status and a message on standard error, and every output file of that input keeps the bytes it had. The other files named in the same tc or tstrip command are still processed as if the failing one were absent.",
  ["fault_sequences", "inputs"], "every read failure position and every kind of bad input, with and without an earlier output present",
  T + "a read error in the middle of a source or include file never happens in a test.",
  ["src/bin/tc.rs", "src/bin/tl.rs", "src/bin/tar.rs", "src/bin/tstrip.rs", "src/source/mod.rs", "src/source/symbols.rs"],
  [("errors are collected before any output is opened", "source::process, tl_main, tc main")],
  observe=["exit status, standard error, bytes of the output files"])
p("C05", "Stripping in place is all-or-nothing",
  "After tstrip is killed or meets an I/O error at any point, the named file is either byte-for-byte the original or the complete stripped object behind the same leading text and with the same permission bits. Stripping only removes the names of internal symbols (with -a: all symbols and relocations); entry point, flags, sizes and segments always stay the same, and global symbols and relocations do too without -a.",
  ["crash_points", "fault_sequences"], "every crash instant and failing system call of a strip, every object",
  T + "nothing strips an object, let alone is interrupted while doing so.",
  ["src/bin/tstrip.rs", "src/aalv/obj.rs", "src/aalv/mod.rs"],
  [("replacement of the file", "tstrip inner_main"), ("symbol table mutation", "SymbolTable::mutate")],
  observe=["the named file after the crash"])
p("C06", "Damaged files are refused, never crashed on",
  "For an object file or archive that has been cut short, spliced or had any of its bytes altered on disk, every tool that lists, strips or links it either processes it as a well-formed object and exits normally, or exits with a failure status and a message. It never crashes, hangs or writes an unreadable output, and an object file that has been cut short is always refused.",
  ["fault_sequences", "inputs"], "every truncation point and every set of altered bytes of every object file or archive",
  T + "no test reads any file.",
  ["src/aalv/mod.rs", "src/aalv/obj/sec_impl.rs", "src/aalv/obj.rs", "src/aalv/savn.rs", "src/bin/tl.rs", "src/bin/tobjdump.rs"],
  [("format validation", "AalvReader, Section::read implementations"), ("cross-reference validation", "tl_main")],
  observe=["exit status (101 or a signal is a crash), standard error, outputs"])
p("C07", "Archives deliver their members intact and in order",
  "Reading an archive yields exactly the object files it was made from, complete and in the order given, however reads and copies are split or interrupted; an archive cut short yields an unbroken run of intact first members, followed by an error unless the cut fell between two members. Linking with -l gives the same output as naming the needed members after the input objects in the order they are pulled in. A member is needed if it defines a global symbol that the input objects or members already pulled in leave undefined and none of them defines, or leaves undefined one that an input object defines; the first needed one in the order of the archives is pulled in first. With -v tl names the members it takes.",
  ["fault_sequences", "inputs", "crash_points"], "every list of objects, every split of the copies and reads, every cut position",
  T + "archives are never built or read.",
  ["src/aalv/savn.rs", "src/bin/tar.rs", "src/bin/tl.rs", "src/aalv/mod.rs"],
  [("member iteration", "savn::Iter::next, AalvReader::end"), ("member selection", "tl read_archives")],
  observe=["tobjdump listing, bytes of the linked output"])
p("C08", "Builds are reproducible",
  "Repeating the same tc, tl, tar, tstrip or tobjdump command on the same inputs gives byte-identical output files, standard output and exit status (the progress messages of tl --verbose excepted). Neither the process's random seeds, nor what the output file held before, nor the way the system splits reads and writes has any influence.",
  ["schedules", "configurations", "fault_sequences"], "every value of the process's entropy (hash seeds), every I/O split, every previous content of the output",
  T + "a test process draws its hash seeds once and cannot vary them.",
  ["src/bin/tl.rs", "src/bin/tobjdump.rs", "src/bin/tc.rs", "src/bin/tstrip.rs", "src/aalv/obj.rs"],
  [("ordered containers on every output path", "Object.segs, symbols_out, reloc_out"), ("truncation of the previous output", "write_aalv_file_with_offset, File::create")],
  observe=["output bytes under different entropy"])
p("C09", "How a build is divided into steps does not matter",
  "A program split over several source files behaves the same when run, whatever the order in which its objects are linked, however they are grouped into partial links or archives, whether internal symbols are erased (tl -S, tstrip) along the way, and whichever steps fail or are killed and are then repeated. Every reference, in an instruction operand or in a data word, reaches the definition of that name: the same file's if it has one, otherwise the one global definition.",
  ["histories", "programs", "fault_sequences"], "every multi-file program x every order and grouping of build steps x every failed-and-repeated step",
  T + "no program is assembled, linked or run.",
  ["src/bin/tl.rs", "src/bin/tc.rs", "src/source/mod.rs", "src/source/symbols.rs", "src/aalv/obj.rs", "src/aalv/savn.rs"],
  [("symbol resolution and relocation", "tl_main"), ("relocation records", "write_data_operand, tc main")],
  observe=["output and exit status of the final executable run by t"])
p("C10", "Console I/O is exact, ordered and error-checked",
  "Every byte a running program writes reaches standard output exactly once and in order, and every byte of standard input is delivered exactly once and in order, however the system splits or interrupts the transfers. Everything written before the program asks for input has been handed to the operating system before the emulator waits for that input, and everything written has been handed over when it exits. If standard output fails, or standard input fails or ends when a byte is needed, the emulator exits with a failure status.",
  ["fault_sequences", "programs"], "every interleaving of program reads and writes x every short transfer, EINTR, error and end of input",
  T + "no program is run, and a full disk or closed pipe under standard output is out of a unit test's reach.",
  ["src/mem.rs", "src/bin/t.rs", "src/blf4/std_kernel.rs"],
  [("I/O port device", "StdIo"), ("console system calls", "EKernel::handle_trap"), ("final status", "t_main")],
  observe=["sequence of read and write calls on descriptors 0 and 1, exit status"])
p("C11", "Runs do not depend on power-on register contents",
  "At the start of a loaded program only the general purpose registers r1 to r10 hold unpredictable values; stack and frame pointer (0xffff), link register, program counter (the entry point), flags and every byte of its memory are the same every time. A program that writes r1 to r10 before reading them therefore gives the same output, the same final trap and the same exit status in every run with the same input.",
  ["schedules", "programs"], "every value of the machine's power-on entropy x every program",
  T + "the entropy is drawn inside the constructor and cannot be chosen by a test.",
  ["src/blf4/mod.rs", "src/blf4/std_kernel/load_user_binary.rs", "src/blf4/std_kernel.rs"],
  [("fixed initial values", "Blf4::new, Machine::load_user_binary")],
  observe=["register file after loading; output of t under chosen entropy"])
p("C12", "User programs are confined to what their object file grants",
  "A loaded program finds each segment's bytes at the segment's addresses and can read, write and execute exactly the pages its segments (data and heap: read and write; rodata: read; text: execute, and read if flagged), the heap size and the stack size (the top of the address space) grant it, and nothing else but zeros, whatever ran in the machine before; every other access traps. No sequence of instructions, faults or system calls lets it leave user mode or virtual mode, set the page table or trap handler register, or change any physical memory other than its own writable pages and the dirty flags of its page table.",
  ["programs", "histories", "inputs"], "every object file layout x every instruction sequence and interleaved fault",
  T + "no program is loaded; confinement must hold for hostile code, not for samples.",
  ["src/blf4/std_kernel.rs", "src/blf4/std_kernel/load_user_binary.rs", "src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
  [("page table construction", "MmapBuilder"), ("fresh pages", "EKernel::allocate_page"), ("access checks at both table levels", "HandlerContext::read_entry"), ("privilege checks", "handlers usr/vmon/vmoff/pstore/pload, read_wr/write_wr")],
  state=[("flags.user_mode", "set while guest code runs", "Blf4Flags")],
  observe=["journal of physical memory accesses, flags after every step"])
p("C13", "Address translation follows the page tables of the moment",
  "In virtual mode every fetch, read and write uses the page tables as they stand in memory at that instant, also when they were changed between two instructions: it reaches exactly the physical byte both levels map, or raises the level-1 or level-2 page fault, the user-page violation or the read, write or execute violation that applies. A successful write sets the dirty flag in both entries it went through, and no access changes any other bit of a page table.",
  ["histories", "fault_sequences"], "every two-level page table x every interleaving of table changes with instructions",
  T + "translation is never executed, and table changes between accesses are a history, not an input.",
  ["src/blf4/mod.rs"],
  [("two-level walk and dirty update", "HandlerContext::addr_resolve, read_entry")],
  observe=["journal of physical memory accesses"])
p("C14", "Trap handlers can return without a trace",
  "With a trap handler installed, every trap, including one raised while fetching an instruction, enters the handler in supervisor mode with the trap's number in r1 and the interrupted registers, flags and program counter saved on the stack. A handler that ends with reth leaves the interrupted program exactly as it was: all registers, arithmetic flags, user or supervisor mode, virtual mode, stack pointer and next instruction, whatever the handler did to the registers in between.",
  ["programs", "fault_sequences", "histories"], "every program x every position and kind of trap x every handler body",
  T + "no trap is ever raised.",
  ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
  [("trap entry", "Blf4::execute_instruction, push_registers"), ("trap return", "reth, pop_registers")],
  observe=["registers, flags and program counter before the trap and after reth"])
p("C15", "No guest program or object file can crash the emulator",
  "For every content of memory and registers, and for every object file the reader accepts, loading it, executing any number of instructions and disassembling at any address never crash or hang the emulator: every step either completes or ends in one of the defined traps. Address, stack pointer and program counter arithmetic wraps around at 64 KiB and shift distances never abort.",
  ["programs", "inputs", "fault_sequences"], "every memory image, register file, object layout and interleaved memory corruption",
  T + "no instruction is executed; wrap-around cases are reached only by particular register values.",
  ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs", "src/disassemble.rs", "src/mem.rs", "src/blf4/std_kernel.rs", "src/blf4/std_kernel/load_user_binary.rs"],
  [("total instruction handlers", "OP_HANDLERS"), ("wrapping arithmetic", "HandlerContext")],
  observe=["host panics, result of each step"])
p("C16", "Inspecting a program does not change its execution",
  "A debugger session, whatever its sequence of step-in, next, step-out, register, flag, memory-peek and go-to commands and typing errors, executes the same instructions, prints the same output lines and ends with the same trap as running the program without it, and the values it displays are those the program computed; going to an address changes nothing but where the program goes on. Disassembling any address, mapped or not, leaves registers, flags and memory (dirty flags included) unchanged. When its input ends, the session ends, with a failure status if the program was asking for it.",
  ["histories", "programs", "fault_sequences"], "every sequence of debugger commands x every program x end of input at any point",
  T + "the debugger and disassembler are never run.",
  ["src/bin/tdbg.rs", "src/disassemble.rs"],
  [("disassembly through a write-refusing memory and a restored program counter", "disassemble_instruction, StrictMemory"), ("command loop", "tdbg_loop")],
  observe=["tdbg transcript against a reference run"])
p("C17", "Every tool finishes after an input error or end of input",
  "Once reads of a source, include, object, archive or command input keep failing or report end of file, every tool exits within a bounded number of further system calls instead of retrying or prompting for ever, and with a failure status if a file it needed could not be read completely. An interrupted read (EINTR) is retried and has no effect.",
  ["fault_sequences"], "every position at which reads start to fail or end, every tool",
  T + "persistent read failures do not occur in tests.",
  ["src/source/mod.rs", "src/bin/tdbg.rs", "src/bin/tc.rs", "src/aalv/mod.rs", "src/aalv/savn.rs", "src/bin/tobjdump.rs"],
  [("line loop", "SourceLines::parse_next_line"), ("prompt loop", "tdbg_loop")],
  observe=["number of system calls after the first failing one, exit status"])
p("C18", "System calls and the error handler keep their contract",
  "For a loaded program, system call 4 writes the low byte of r2 to the console, 3 reads one byte into the low half of r1, and 15 makes r2 the error handler; each of them, as does the debug call 0, continues in user mode after the syscall instruction with every other register and flag unchanged; any other number ends the run. Once an error handler is set, every later fault (anything but halt and an unknown system call) continues in user mode at the handler with the trap's number in r1 and every register the faulting instruction does not write unchanged; without one it ends the run. Halt always ends the run, with success status; any other end is reported as a failure naming the trap.",
  ["programs", "fault_sequences", "histories"], "every program, every interleaving of system calls and faults",
  T + "no system call is executed.",
  ["src/blf4/std_kernel.rs", "src/bin/t.rs", "src/machine/mod.rs"],
  [("trap dispatch", "EKernel::handle_trap, Machine::execute_once"), ("exit status", "t main")],
  observe=["registers after each step, console bytes, exit status and message of t"])
p("C19", "Execution matches the architecture step by step, faults included",
  "Whatever page faults, protection changes, memory corruption or device data come between steps, each executed instruction has exactly its architectural effect on registers, flags, stack, memory and program counter (constant-zero r0, byte registers touching only their half, little-endian words, ROM ignoring writes, the first 128 physical bytes going to the I/O device). An instruction that traps changes nothing beyond the registers and memory bytes it would itself have written.",
  ["histories", "programs", "fault_sequences"], "every instruction sequence x every interleaving of environment changes and faults",
  T + "no instruction is executed.",
  ["src/blf4/isa/handlers.rs", "src/blf4/mod.rs", "src/mem.rs", "src/machine/mod.rs"],
  [("instruction handlers", "src/blf4/isa/handlers.rs"), ("memory map", "LazyMain")],
  observe=["architectural state after every step against a reference model"])
p("C20", "A source becomes exactly the program it says, whatever I/O does to it",
  "However reads and writes are split, shortened or interrupted, tc turns a source and its includes into exactly the object its lines stand for: every instruction's opcode, registers and immediates, data, strings with escapes, segments, labels and their visibility, references and entry point, in every way numbers, characters (the comma too) and names may be written; lines that are wrong are refused, each named by file and line. The linked program has every reference replaced by its label's address, and run by t it reads, prints and ends as those instructions do.",
  ["inputs", "programs", "fault_sequences"], "every source file with includes, right or wrong x every input of the program x every sequence of short transfers and EINTR",
  T + "no line is assembled, linked or run.",
  ["src/source/mod.rs", "src/bin/tc.rs", "src/bin/tl.rs", "src/bin/t.rs", "src/blf4/isa/handlers.rs"],
  [("line reader, operand parsing and encoding", "SourceLines::parse_next_line, parse_ins"), ("object construction", "tc main"), ("placing and patching", "tl"), ("execution", "Machine::run_until_abort")],
  observe=["contents of the object file and executable, standard output and exit status of the program, messages of tc"])
p("C21", "What the tools show of a program is what is there",
  "Whatever I/O does to the transfers, tobjdump shows of any object file or archive member every symbol with its visibility, address and segment, and of its code every instruction that can be reached from the entry point and the chosen (by default all global) symbols through following instructions and named operands, with -R every relocation in it; asked again, it shows the same. Each line of code, also those tdbg shows at each step, is true: address, bytes, mnemonic and operands are those of the instruction loaded there, and a name in place of an address is that of a symbol (or the entry point) at it. t -t names the symbol nearest before the place a program ended, and system call 0 lists exactly the pages the program has, each with its rights. Asked to begin at a symbol that a file does not have, tobjdump and tdbg say so and fail; tobjdump shows the other files.",
  ["inputs", "programs", "fault_sequences"], "every loadable object file, archive and program x every choice of flags and symbols x every sequence of short transfers and EINTR",
  T + "nothing is disassembled or shown.",
  ["src/disassemble.rs", "src/bin/tobjdump.rs", "src/bin/tdbg.rs", "src/bin/t.rs", "src/blf4/mod.rs"],
  [("instruction printer", "disassemble_instruction"), ("walk over the code", "tobjdump disassembly"), ("symbol table", "tobjdump symbols"), ("names of addresses", "tdbg main, t_main"), ("list of pages", "HandlerContext::print_mmap")],
  observe=["standard output of tobjdump, tdbg and t -t"])
p("C22", "A raw image boots into exactly the machine the architecture describes",
  "t -r puts the image, of up to 32640 bytes, into read-only memory from address 0x80 on and starts the processor there: supervisor mode, no address translation, no trap handler, no system calls; memory outside the image holds zeros. From there the image's own code does exactly what the architecture says, however the system splits and interrupts the transfers: accesses to the first 128 physical addresses, also by fetching instructions, pushing or popping, transfer console bytes in order, stores to ROM are ignored, its own page tables, trap handlers and user mode work. The run ends at the first trap without a handler, with success after halt and otherwise with a failure that names the trap; -t names trap and address. An image that cannot be read completely or is too big is refused with a message and nothing of it is executed.",
  ["inputs", "programs", "fault_sequences"], "every image and input x every sequence of short transfers, EINTR, read errors and end of input",
  T + "no image is booted.",
  ["src/bin/t.rs", "src/mem.rs", "src/machine/mod.rs", "src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
  [("reading the image, end of the run", "t_main"), ("map of the physical memory", "LazyMain, StdIo"), ("state at power-on and trap entry", "Blf4::new, execute_instruction")],
  observe=["standard output, messages and exit status of t -r"])
p("C23", "A link is exactly the joining of its inputs",
  "Whatever I/O does to the transfers and whichever steps fail or are killed and are repeated, tl joins object files, those of tc and its own outputs alike: each segment of the output holds the inputs' bytes of that segment in the order of the inputs, begins at a multiple of the alignment and overlaps no other; every symbol is kept with its visibility, segment and place among its input's bytes, and, unless internal names are erased, its name; equally named global symbols become one, defined if any input defines it; every referring pair of bytes, and no other, is replaced by its symbol's address and stays listed as a reference to that symbol. The entry point is the one named with -E or else that of the first input that has one; -e also makes the output a runnable file, or fails and names every undefined symbol that something refers to; -v tells where each segment is and its size. This holds when the output replaces one of the inputs.",
  ["inputs", "histories", "fault_sequences"], "every collection of object files x every order and grouping of links and their options x every sequence of short transfers, EINTR, errors and kills",
  T + "nothing is linked.",
  ["src/bin/tl.rs", "src/aalv/obj.rs", "src/aalv/mod.rs"],
  [("placing, merging of symbols, patching", "tl_main"), ("references to what is defined later", "undefined_references in tl_main")],
  observe=["contents and mode of the output file, exit status and messages of tl"])
p("C24", "Whatever a source holds, tc refuses it with its faults named, or assembles it",
  "For any bytes a source and the files it includes hold (cut, spliced, altered, no text, including themselves or each other, with lines of any length or tens of thousands of mistakes), tc ends within a bounded number of steps and without crashing. Either it fails with messages that name the file and, if any, a line the file has, among them every line whose instruction there is none of, and leaves the output file as it was; or it succeeds, with nothing but warnings, and writes a well-formed object: segments side by side within memory, every reference inside a segment and to a symbol there is, defined symbols and entry point within their segments, no name twice; tobjdump and tl process it. Empty lines, comments and blanks at the ends of lines change neither verdict nor messages (but for the line numbers) nor object, and neither does how the system splits the transfers. Other sources in the same command are assembled as if alone.",
  ["inputs", "fault_sequences"], "every content of the source files x every sequence of short transfers and EINTR",
  T + "no damaged source is assembled.",
  ["src/bin/tc.rs", "src/source/mod.rs", "src/source/err.rs", "src/source/symbols.rs"],
  [("lines and operands", "inner_parse_line, parse_number, parse_bytechar"), ("directives, includes", "inner_process"), ("layout, undefined labels", "process"), ("collected errors", "Error::chain, Display")],
  observe=["messages and exit status of tc", "the object file"])
p("C25", "Tools that run at the same time do not disturb each other",
  "However the system interleaves the calls of tools that work in one directory at the same time, as under make -j: tools whose outputs are different files (also if the names differ in the extension only) end, print and leave exactly what they do alone, also if one of them is killed; a command given several times at once ends each time and leaves what it leaves alone; while tstrip replaces an object, a tool that reads it does what it does with the original or with the stripped one, and the object is never anything else; a tool whose input another one is just rewriting in place may make anything of it, but ends in the ordinary way (no crash, no endless run), and the one that writes is not disturbed by it. No further file is left behind.",
  ["schedules", "inputs", "crash_points"], "every set of commands x every interleaving of their calls x every call one of them can be killed at",
  T + "no two processes run.",
  ["src/bin/tc.rs", "src/bin/tl.rs", "src/bin/tar.rs", "src/bin/tstrip.rs", "src/aalv/mod.rs", "src/aalv/obj.rs"],
  [("replacing the object", "tstrip main"), ("reading all of a file", "Object::from_file, open_archive"), ("writing the outputs", "write_object, tar main, tc main")],
  observe=["files in the directory", "exit status, standard output and messages of each tool"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
