"""The properties, in the words of properties.jsonl, and how each is decided."""

LEVELNOTE = ("Seeded search with a fixed time budget: a clean batch is evidence, not proof. Trusts dst/shim.c as the model of the "
             "host OS; every reported violation was repeated in process, minimised, and reproduced from its replay file in a fresh process.")
DST = "deterministic simulation with fault injection (seeded schedules, simulated OS)"
NA = {}


def P(id, title, statement, over, text, why, files, mech, note, technique=DST, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": list(state), "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "observe_at": list(observe), "hook_needed": None},
            "technique": technique, "note": note}


PROPS = [
    P("C01", "A simulation is reproducible on every host",
      "With the same simulator, CPU type, random seed option, images, options and command script, the observable machine (registers, "
      "memory, counters, stop reasons, console answers) is the same on every run. The host's clock and its jumps, heap contents, poll "
      "timing, environment and the chunking of its reads never change it.",
      ["programs", "configurations", "schedules", "fault_sequences"],
      "all guest programs on every CPU type; all hosts (heap contents, clock rate and jumps, short reads, input chunking)",
      "Existing tests run each program once on one host; dependence on heap contents or the clock shows only when hosts differ.",
      ["src/core/utils.src/pobj.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc", "src/core/utils.src/app.cc", "src/core/sim.src/sim.cc"],
      [("objects start from zeroed storage", "src/core/utils.src/pobj.cc"), ("memory filled from the -R seeded generator", "src/core/sim.src/mem.cc"),
       ("simulated time only from ticks", "src/core/sim.src/uc.cc")],
      "Compares each program's whole observed machine on three simulated hosts."),
    P("C02", "Cutting a run into pieces and looking in between changes nothing",
      "Executing N instructions in one go, or in any sequence of steps, breakpoint stops, or stops requested from another console, ends "
      "in the same machine state. Commands that only inspect (registers, state, disassembly, info, dumps of plain memory, expressions, "
      "help, configuration) issued at any stop never change the machine.",
      ["programs", "schedules", "histories"],
      "all guest programs, all partitions of a run into steps/breakpoint stops/asynchronous stops, all inspection commands at the stops",
      "A test checks one script; the property quantifies over where execution is interrupted and what is inspected there.",
      ["src/core/sim.src/sim.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/brk.cc", "src/core/cmd.src/cmd_exec.cc", "src/core/cmd.src/cmd_uc.cc",
       "src/sims/*/"],
      [("step limit and stop handling", "src/core/sim.src/sim.cc"), ("breakpoint test before fetch", "src/core/sim.src/uc.cc do_brk"),
       ("disassembly and prints use side-effect-free get()", "src/core/sim.src/mem.cc")],
      "Differential: an uncut reference run of the same instruction count is the oracle."),
    P("C03", "A console executes its input exactly once, in order, unmangled",
      "Every complete command line arriving at a console (pipe, terminal with line editing and history, TCP socket, command file, -C, -e, "
      "exec) is executed exactly once, in order, with its own text, and its whole answer is delivered or redirected to the named file. "
      "This holds however the bytes are cut into reads and delayed, under EINTR/EAGAIN and short reads or writes, and while steps and runs are in progress.",
      ["inputs", "schedules", "fault_sequences"],
      "all command streams, edit keystrokes, line endings, deliveries in pieces and interrupted or short system calls",
      "Tests feed whole scripts from files; cut points, editing keys, EINTR and short writes never occur in them.",
      ["src/core/utils.src/fio.cc", "src/core/utils.src/fuio.cc", "src/core/utils.src/fiocl.h", "src/core/cmd.src/newcmd.cc", "src/core/cmd.src/newcmdposix.cc",
       "src/core/cmd.src/command.cc", "src/core/cmd.src/cmdutil.cc"],
      [("line editor and input buffer", "src/core/utils.src/fio.cc"), ("command execution loop", "src/core/cmd.src/newcmd.cc cl_console_base::proc_input"),
       ("redirection", "src/core/cmd.src/newcmd.cc")],
      "An executable model of the command list gives answers, memory and files."),
    P("C04", "Consoles are isolated; a lost peer harms nobody and stalls nothing",
      "With several consoles (stdin and TCP clients) each console gets the complete answers to its own commands only, in order, and its commands take "
      "effect exactly once, whatever the others do. A peer that disconnects, resets, quits or stops in mid-line at any moment, also while "
      "its own run or step is in progress, or an accept/select that fails, never crashes or blocks the simulator, and its console goes away.",
      ["schedules", "histories", "fault_sequences"],
      "all interleavings of consoles, connection and disconnection moments, failing accept/select/read/write",
      "Tests use one console fed from a file; no peer ever disconnects or competes.",
      ["src/core/cmd.src/newcmd.cc", "src/core/cmd.src/newcmdposix.cc", "src/core/utils.src/fio.cc", "src/core/utils.src/fuio.cc", "src/core/sim.src/sim.cc"],
      [("console dispatch", "src/core/cmd.src/newcmdposix.cc cl_commander::proc_input"), ("frozen console of a run", "src/core/sim.src/sim.cc start/stop"),
       ("accept", "src/core/utils.src/fuio.cc srv_accept")],
      "One executable model per console."),
    P("C05", "A UART receives every byte of its input exactly once, in order",
      "Every byte that a file, FIFO, terminal or TCP peer gives to a UART reaches the guest program that reads it (polling or by interrupt, fast enough or "
      "with flow control on) exactly once, in order, with the configured newline translation and nothing added. This holds however the bytes are cut, delayed or interrupted "
      "(EINTR, EAGAIN, short reads, end of input) and however the run is stepped and inspected.",
      ["programs", "inputs", "schedules", "fault_sequences"],
      "all UARTs of all simulators, all byte streams, baud settings, guest paces, delivery schedules and read faults",
      "Tests never attach anything to a UART; timing of arrivals against the guest and read errors cannot be sampled by them.",
      ["src/core/sim.src/serial_hw.cc", "src/core/utils.src/fio.cc", "src/core/utils.src/fuio.cc", "src/sims/s51.src/serial.cc", "src/sims/stm8.src/serial.cc",
       "src/core/motorola.src/cia.cc", "src/core/sim.src/pc16550.cc", "src/sims/p1516.src/uart.cc", "src/sims/oisc.src/uart.cc"],
      [("input check, newline and menu handling", "src/core/sim.src/serial_hw.cc proc_input"), ("receiver shift timing", "serial tick()/receive()")],
      "The byte stream itself is the oracle, found in guest memory."),
    P("C06", "A UART delivers every transmitted byte exactly once, in order",
      "Every byte the guest sends through a UART (waiting for the transmitter as its data sheet says) reaches the attached file, FIFO, terminal or TCP peer exactly once, in order, "
      "and nothing else is written there (after the menu banner of an interactive display). Short writes, EINTR, EAGAIN, interrupted selects, stops, steps and "
      "inspection in between never lose, repeat or reorder bytes, and the transmitter always becomes ready again.",
      ["programs", "schedules", "fault_sequences"],
      "all UARTs of all simulators, all tables, baud settings and guest paces, all write faults and cut points",
      "Tests never look at UART output under failing writes.",
      ["src/core/sim.src/serial_hw.cc", "src/core/utils.src/fio.cc", "src/core/utils.src/fuio.cc", "src/sims/s51.src/serial.cc", "src/sims/stm8.src/serial.cc",
       "src/core/sim.src/pc16550.cc", "src/sims/p1516.src/uart.cc", "src/sims/oisc.src/uart.cc"],
      [("output writing with retry", "src/core/utils.src/fuio.cc"), ("transmitter shift timing", "serial tick()")],
      "The guest's table is the oracle for what arrives at the simulated peer."),
    P("C07", "Fetch breakpoints stop a run exactly where the user said",
      "A run, step N or run-to stops before the first instruction (after the one it starts with) whose address has an accepted fetch breakpoint, or after N instructions if that comes first. "
      "A breakpoint is accepted at each hit-th passing when its condition is true; an accepted temporary one (tbreak, run start stop, next over a call of the 8051) is deleted, and a fix one's commands are run once, which may continue the run. "
      "clear and delete take effect at once, info breakpoints shows the remaining counts, and the stop prints the address, reason and registers of that point.",
      ["programs", "histories"],
      "all guest programs of 20 CPUs, all sequences of break/tbreak/clear/delete/commands/run/step/next with hit counts and conditions",
      "Tests set one breakpoint in one program; the property is about histories of passings, counts, conditions and commands.",
      ["src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/cmd.src/cmd_bp.cc", "src/core/cmd.src/cmd_exec.cc", "src/sims/*/"],
      [("breakpoint test before fetch", "src/core/sim.src/uc.cc do_brk"), ("hit counting", "src/core/sim.src/brk.cc do_hit"), ("stop and commands", "src/core/sim.src/sim.cc stop")],
      "A model over the single-stepped trace of the same program predicts every stop."),
    P("C08", "Event breakpoints stop after the named accesses; observers change nothing",
      "A run or step stops right after the instruction (including the interrupt acceptance that follows it) whose execution made an accepted access (read r, write w) of a cell with an event breakpoint: at each hit-th access, when its condition is true; "
      "an accepted tbreak is deleted, a fix one's commands run once, deleted ones never stop, counts shown by info breakpoints are exact, and the reported address is where the machine is. "
      "Only accesses of the executed program count (register display, disassembly do not), and neither event breakpoints nor VCD variables change the program's results, timing or peripherals.",
      ["programs", "histories"],
      "straight programs with known accesses on 13 CPUs, arbitrary programs with interrupts on 21 simulators, all histories of break/tbreak/commands/delete/info/step",
      "Tests do not use event breakpoints; whether every access of every instruction counts exactly once depends on the program and history.",
      ["src/core/sim.src/mem.cc", "src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/sim.src/vcd.cc", "src/core/cmd.src/cmd_bp.cc", "src/sims/*/"],
      [("event operators of cells", "src/core/sim.src/mem.cc cl_event_break_operator"), ("handling of events", "src/core/sim.src/uc.cc check_events"), ("VCD observation", "src/core/sim.src/vcd.cc cl_vcd_var")],
      "A table of the accesses of known instructions predicts stops; otherwise stepping versus running and observed versus unobserved runs are compared."),
    P("C09", "8051 family cores execute every instruction as the data sheet says",
      "From any machine state (registers, memories, port pins), on types 51, 52, C51 and C52, each instruction changes exactly what the MCS-51 data sheet says: PC (16 bit, wrapping), ACC, B, flags including parity (which writes of PSW can not change), DPTR, SP, "
      "direct, indirect, bit and external memory, and takes the documented number of machine cycles (12 clocks each). "
      "Reads of ports see latch and pins, read-modify-write instructions see the latch.",
      ["inputs", "programs"],
      "all opcodes but A5; random operands, states, pins; MOV A,ACC, stack wrap-around and upper indirect memory of 128 byte types excluded",
      "Tests check no arithmetic of the 8051; operands times flags times addressing modes cannot be sampled by hand.",
      ["src/sims/s51.src/arith.cc", "src/sims/s51.src/logic.cc", "src/sims/s51.src/bit.cc", "src/sims/s51.src/mov.cc", "src/sims/s51.src/jmp.cc", "src/sims/s51.src/inc.cc", "src/sims/s51.src/uc51.cc", "src/sims/s51.src/uc52.cc"],
      [("instructions", "src/sims/s51.src/*.cc instruction_xx"), ("parity, banks, bit memory", "src/sims/s51.src/uc51.cc"), ("address wrapping", "src/core/sim.src/mem.cc validate_address")],
      "A reference model of the 8051 executes the same program; state is compared after every piece of the run."),
    P("C10", "8051 timers 0, 1 and 2 count exactly, in every mode, for any program and pins",
      "Timers 0 and 1 (modes 0-3, timer or counter of 1-to-0 edges of T0/T1, gated by INTx) and timer 2 of the 8052 (auto reload, capture, up/down, baud rate; T2 and T2EX edges) advance once per machine cycle or edge, overflow, reload, capture and set TFx/TF2/EXF2 "
      "exactly as documented, whatever the program writes to their registers and bits while they run, and whatever happens on the pins. Timer registers read by an instruction show the count of completed instructions.",
      ["programs", "schedules"],
      "types 51/52/C51/C52; timer 0 in mode 3 only together with timer 1 in mode 3; timer 2 counts down only from above RCAP2",
      "Tests do not run 8051 timers; exactness depends on the interleaving of program, timers and pins.",
      ["src/sims/s51.src/timer0.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc", "src/sims/s51.src/port.cc"],
      [("timers", "src/sims/s51.src/timer0.cc, timer1.cc, timer2.cc tick, write, happen"), ("pin events", "src/sims/s51.src/port.cc")],
      "A machine cycle level model of the timers runs the same program and pin changes; all registers are compared after every piece of the run."),
    P("C11", "8051 interrupts and idle mode: right request, priority, moment and return",
      "After each instruction the pending enabled request of highest priority above the active level is accepted (polling order INT0, T0, INT1, T1, serial, T2 among equals), never in the instruction after RETI or a write of IE/IP (bytes or bits): "
      "its flag is cleared if documented, PC is stacked, the vector is entered, RETI restores the level; INT0/INT1 are requested by falling edges or low level of their pins. "
      "Idle mode stops instructions but not peripherals and time, and ends with the acceptance of an interrupt; times in ISR and idle are accounted.",
      ["schedules", "programs"],
      "types 51/52/C51/C52, two priority levels, six sources; power down excluded",
      "Tests contain no 8051 interrupt program; acceptance depends on the exact cycle in which requests arrive.",
      ["src/sims/s51.src/uc51.cc", "src/sims/s51.src/interrupt.cc", "src/sims/s51.src/jmp.cc", "src/core/sim.src/itsrc.cc"],
      [("acceptance", "src/sims/s51.src/uc51.cc do_interrupt, accept_it, idle_pd"), ("requests", "src/sims/s51.src/interrupt.cc"), ("return", "src/sims/s51.src/jmp.cc RETI")],
      "The reference model predicts every acceptance for random handlers, enables, priorities and pin activity; state is compared after every piece of the run."),
    P("C12", "8051 serial port: every bit time, flag and byte as configured",
      "A byte written to SBUF appears at the output, and TI is set, after exactly 8/10/11/11 bit times (modes 0-3) and a waiting input byte reaches SBUF with RI after as many, "
      "where a bit takes 12 clocks in mode 0, 64 or 32 (SMOD) in mode 2, and 32 or 16 (SMOD) overflows of timer 1, or 16 of timer 2 for the direction selected by TCLK/RCLK, in modes 1 and 3. "
      "Bytes are received only when REN is set, in order, none lost or duplicated at the port.",
      ["programs", "schedules"],
      "types 51/52/C51/C52; mode, SMOD and clock source constant during a transfer",
      "Tests do not use the 8051 UART; timing depends on mode, clock source and the phase of the timers.",
      ["src/sims/s51.src/serial.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc", "src/core/sim.src/serial_hw.cc"],
      [("bit clock", "src/sims/s51.src/serial.cc serial_bit_cnt, tick, happen"), ("baud sources", "src/sims/s51.src/timer1.cc, timer2.cc")],
      "The reference model, down to the machine cycle, sends and receives the same bytes; registers, time and output are compared."),
    P("C24", "No guest program can crash, hang or corrupt the simulator",
      "Whatever program a simulated machine executes (valid, invalid or random codes, wild jumps, any use of peripherals' registers, any register and memory contents, resets), on every simulator and CPU type, "
      "the simulator process does not die, does not loop endlessly within an instruction, and answers later commands (registers, disassembly, stack, hardware and state display). "
      "It accesses no memory outside its own objects, dereferences no null pointer and divides by nothing that is zero.",
      ["programs", "inputs"],
      "120 CPU types of 22 simulators; random and sampled programs up to 40000 instructions; randomised registers, memories and peripherals; UART input",
      "Tests run a few well behaved programs per CPU; robustness is about all the others.",
      ["src/sims/*/", "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/serial_hw.cc", "src/core/sim.src/pc16550.cc"],
      [("instruction execution and invalid codes", "src/core/sim.src/uc.cc do_inst"), ("peripherals driven by guest values", "src/sims/*/ hardware elements"), ("memory decoding", "src/core/sim.src/mem.cc")],
      "Seeded guest programs and register contents under the simulator; one third of the runs in a build whose out-of-bounds, use-after-free, null and zero-division accesses trap."),
    P("C25", "No command, file or I/O failure crashes or hangs the simulator",
      "Whatever command lines, valid or not, are given on a socket, terminal, executed or start-up (-C, -e) file, whatever image, symbol, VCD or command files they name (well formed, truncated, damaged, rubbish), and whatever opens, reads and writes fail or peers vanish, "
      "the simulator process does not die, does not loop endlessly within a command, touches no memory outside its own objects and divides by nothing that is zero. "
      "Afterwards a newly connected console is still accepted and its commands are answered.",
      ["inputs", "faults", "histories"],
      "every console command except emulation, quit and kill; up to 40 lines per run on every simulator; a console is asked afterwards whether the simulator still works",
      "Tests type a handful of well formed commands; robustness is about the combinations of commands, objects made by earlier commands, files and failures.",
      ["src/core/cmd.src/", "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/arg.cc", "src/core/sim.src/var.cc", "src/core/sim.src/vcd.cc", "src/core/sim.src/simif.cc", "src/core/utils.src/"],
      [("command parsing and execution", "src/core/cmd.src/command.cc, cmd_*.cc"), ("expressions", "src/core/cmd.src/cmdpars.y, cmdlex.l"), ("image loaders", "src/core/sim.src/uc.cc read_file"), ("memory objects", "src/core/sim.src/mem.cc")],
      "A grammar of commands and a generator of damaged files drive a console in pieces while opens, reads, writes, the clock and peers fail by plan; a second simulated client judges; part of the runs in a trapping build."),
    P("C17", "An image load stores exactly the data of its sound records",
      "Loading an Intel HEX, S-record, OMF, asc or p2h file (file command, command line, check, or download typed on a console) into a chip or address space stores each data item of each well formed record at its address "
      "plus the given offset if the address is in the given range, in little endian words where cells are wider than 8 bits, into the bank the address selects in a banked space, and changes no other cell; check changes nothing and reports exactly the differences. "
      "Records with a wrong checksum or cut short contribute nothing and do not end the load; short and interrupted reads make no difference, a torn file or read error loses only what was not read, unopenable candidates are skipped. The console then goes on with the next command.",
      ["inputs", "faults", "configurations"],
      "images up to 12 records with every record type, widths 1 to 32 bits, chips, spaces, bankers and native memories of 9 simulators; reads of any size, EINTR, EIO, truncation at any byte, failing opens",
      "Tests load a few well formed files completely.",
      ["src/core/sim.src/uc.cc", "src/core/utils.src/fio.cc", "src/core/cmd.src/cmd_uc.cc"],
      [("loaders", "src/core/sim.src/uc.cc read_hex_file, read_s19_file, read_omf_file, read_asc_file, read_p2h_file"), ("placing, banks", "src/core/sim.src/uc.cc set_rom"), ("file@memory:offset#range", "src/core/sim.src/uc.cc cl_inspec")],
      "Generated images are delivered by a simulated file system or console in faulty pieces; all cells are compared with an independent reference loader."),
    P("C18", "Address spaces show what the memory configuration maps there",
      "After any sequence of memory commands (chips, address decoders over earlier ones, bankers with banks defined and redefined, banders, removal of chips) each address shows the chip cell (or bit) the latest command that covers it maps there; "
      "in a banked area it is the cell of the bank selected by the present value of the selector, whoever wrote it (guest or console). "
      "A write through a space, chip, bit, expression, fill or guest instruction changes that one cell, and every view of it agrees.",
      ["histories", "configurations", "inputs"],
      "up to 40 operations over 2 to 5 address spaces, 5 chips, overlapping areas, selectors shared by bankers; s51 (guest accesses, bit space) and z80",
      "Tests use one decoder configuration; the rules for covering, splitting, shrinking and switching show only in sequences.",
      ["src/core/sim.src/mem.cc", "src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_mem.cc"],
      [("decoders, split and shrink", "src/core/sim.src/mem.cc cl_address_space::undecode_area"), ("bankers", "src/core/sim.src/mem.cc cl_banker"), ("banders", "src/core/sim.src/mem.cc cl_bander"), ("removal", "src/core/sim.src/uc.cc remove_chip")],
      "Seeded histories are executed by the real simulator, delivered in pieces, and compared cell by cell with a reference map."),
    P("C15", "A VCD log holds what the logged locations went through, and when",
      "From `start` to `stop` a `vcd` output file lists, for every added location or bit field, exactly the sequence of values it takes by writes through its address space: the values at start, every change while recording runs, nothing while paused, the values at resume. "
      "Time stamps never decrease and are, in the file's declared unit (the chosen or automatic one), the simulated time since start of the instruction that made the change, less the parts of pauses beyond `pausetime`; the header declares each variable once with its width and name. "
      "Logging never changes the program's outcome, also when the file cannot be opened or the disk is full, and a killed simulator leaves in the file every change reported before.",
      ["inputs", "histories", "faults"],
      "four machines (8051, Z80, 6502, STM8), 1 to 2 logs with up to 6 fields, 7 clock frequencies, units from ps to 100 us, up to 150 instructions with 25 operations",
      "Tests compare one recorded file; values, stamps and pause rules must hold for every program, clock, unit and history.",
      ["src/core/sim.src/vcd.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc"],
      [("reports", "src/core/sim.src/vcd.cc cl_vcd::report, cl_vcd_var::write"), ("start, pause, resume, stop", "src/core/sim.src/vcd.cc cl_vcd::set_cmd"), ("time", "src/core/sim.src/uccl.h cl_ticker")],
      "The file written through a simulated disk (kills at any call, full disk, failing open) is compared with a single stepped twin of the same seeded program."),
    P("C16", "A replayed VCD file makes each change at its simulated time",
      "From `start` on, a `vcd` input file changes every declared whole cell, bit or bit field that it names to the value it gives, at the file's time (in its declared unit) after the simulated time of `start`, moved by `starttime` shifts and by the length of pauses: the change is seen at the end of the first instruction "
      "behind that time, not before and not later, all changes of one instant in the order of the file, unknown bits (x, z) and other bits of the cell keep their value, and comments, dump markers and header texts change nothing. "
      "Stepping or running, short reads and several inputs at once make no difference, with `break` enabled a run stops at the instruction boundary behind the first change, and a torn or failing file gives the changes of its readable part and nothing else, and the run and its clock go on.",
      ["inputs", "histories", "faults"],
      "four machines, 1 to 2 inputs with up to 6 fields and 40 time stamps, units from ps to 10 us, up to 140 instructions with 20 operations",
      "Tests replay one file once; times, bit fields and value forms must hold for every file, clock and history of start, pause and shift.",
      ["src/core/sim.src/vcd.cc", "src/core/sim.src/uc.cc"],
      [("replay", "src/core/sim.src/vcd.cc cl_vcd::tick"), ("header", "src/core/sim.src/vcd.cc cl_vcd::parse_header"), ("break", "src/core/sim.src/uc.cc cl_uc::do_brk")],
      "Seeded files are read through a simulated disk (short reads, read errors, torn files); after every instruction all locations are compared with what the events before that time make of them."),
    P("C19", "After reset a machine behaves as a fresh one with the same memory",
      "For every program and history, `reset` puts CPU registers which have a reset value, the interrupt state, counters of instructions and clocks, and the peripherals (timers, serial lines, ports, watchdogs, clock control, interrupt controllers and requests) to the state they have after the reset of a freshly started machine. "
      "Given the same memory contents, everything the machine does after that - registers, memory, peripherals, stops, counters - is the same as on the fresh machine, wherever the reset cut the program (in a wait or sleep state, inside a service routine, in the middle of a transfer).",
      ["inputs", "histories", "crash points"],
      "13 machines in their types, programs up to 900 bytes, reset after 1 to 3000 instructions, once or twice, up to 2000 instructions after it",
      "Tests start each simulator once and never reset it; leftovers depend on what the program did before.",
      ["src/core/sim.src/uc.cc", "src/core/sim.src/hw.cc", "src/sims"],
      [("reset", "src/core/sim.src/uc.cc cl_uc::reset"), ("peripherals", "src/sims/s51.src/serial.cc cl_serial::reset"), ("stm8", "src/sims/stm8.src/timer.cc cl_tim::reset")],
      "A reset is injected at a seeded point of a seeded program; the machine is compared with its fresh twin right after it and after a seeded number of instructions."),
    P("C23", "A run stops at the first boundary where its stop condition holds",
      "`step N` stops after N instructions; `step N unit` after the first instruction that makes the elapsed clocks, simulated time, virtual clocks, fetches, reads or writes since the command reach N; `next` executes a subroutine call up to the instruction after it and any other instruction once; "
      "`run`, `run from to` and every step stop before the first execution of an instruction at a breakpoint other than the one they start at, and with `selfjump_stop` after an instruction that jumps to itself. "
      "The stop is there whichever of these comes first, also when several hold at once, the state is what that many single steps give, and nothing of a condition is left for the runs that follow.",
      ["histories", "inputs", "configurations"],
      "ten machines in 20 types, programs with nested subroutines, up to 13 commands within 400 instructions, seven clock frequencies",
      "Tests stop programs by their own end; where a run stops depends on program, clock, counters and what earlier commands left.",
      ["src/core/sim.src/sim.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/brk.cc", "src/core/cmd.src/cmd_exec.cc"],
      [("step loop", "src/core/sim.src/sim.cc cl_sim::step"), ("units", "src/core/sim.src/uc.cc cl_time_measurer::reached"), ("next, run from to", "src/core/cmd.src/cmd_exec.cc cl_next_cmd"), ("breakpoints", "src/core/sim.src/uc.cc cl_uc::do_brk")],
      "Seeded histories of run commands on seeded programs; every stop is compared with the trace of single steps, searched for the first place where the condition holds."),
    P("C13", "Simulated time and user timers count exactly the clocks that passed",
      "The clock count of a machine moves only when instructions (or waiting for interrupts) are executed, and elapsed simulated time is the sum of the clocks divided by the clock frequency valid when they passed; time in service routines and in idle or power down mode are parts of it; `state` and `timer list` agree. "
      "A user timer shows what it was last set to (zero when created) plus, or with negative direction minus, the clocks and seconds that passed since then while it was running, all of them or only those spent in service routines, idle or power down as it was created for. "
      "Creating, setting, stopping, running and deleting timers, changes of frequency and resets affect only what they name, and the machine's own timers can not be deleted.",
      ["histories", "configurations", "inputs"],
      "ten machines in 20 types with interrupts, idle and power down modes; up to 21 operations, up to seven user timers, seven frequencies",
      "Tests read no timer; sums over frequencies, modes and histories of commands can not be sampled by fixed cases.",
      ["src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_timer.cc", "src/core/cmd.src/cmd_uc.cc"],
      [("tickers", "src/core/sim.src/uc.cc cl_ticker::tick, cl_uc::tick"), ("commands", "src/core/cmd.src/cmd_timer.cc"), ("idle", "src/core/sim.src/uc.cc cl_uc::do_inst")],
      "Seeded histories of run and timer commands under an arbitrary heap pattern; a model adds up the clocks each operation took by mode and frequency (service time of the 8051 is checked against a reference model by C11)."),
]
