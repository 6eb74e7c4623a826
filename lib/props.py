"""The properties, and the harnesses that decide them."""

ISA_TECH = "exhaustive bounded state exploration of the real instruction executor in lock-step with an executable ISA model"
ISA_NOTE = ("Every case of the stated finite space is executed by the real simulator and by an independent model of the "
            "instruction set, and the complete machine state is compared. Trusts the model (written from the vendor's "
            "instruction description) and that operand values outside the listed cross products behave like those inside.")
ISA_RULE = ("every documented opcode x complete cross product of the operand and flag values it depends on, address/pointer/PC "
            "boundary sweeps, and all ordered pairs of instructions; a case is distinct and non-trivial when its complete "
            "starting state was not tried before in its worker and the model changes a register, memory byte or the "
            "control flow (measured with a hash bitmap, collisions only undercount)")

PROPS = {}
NOT_CLAIMED = {}

PROPS["C01"] = dict(
    title="MCS-51 instruction semantics",
    statement="Executing any documented MCS-51 instruction, from any register, flag, memory and port state, leaves exactly the "
    "accumulator, B, PSW flags (including parity of ACC), SP, DPTR, banked registers, internal, external and code memory, port latches, "
    "program counter and machine-cycle count that the Intel instruction set definition prescribes, and changes nothing else. "
    "Addresses wrap at 64K, read-modify-write instructions use port latches while other reads use the pins, and no instruction's outcome depends on "
    "anything but that state.",
    over=["programs", "inputs"],
    quant="every opcode, operand value, addressing mode, register bank, flag and pin state; every ordered pair of instructions",
    why="The repository's test programs only execute what the compiler happened to emit and compare configuration or cycle listings; "
    "no test compares results and flags of each opcode over its operand space.",
    files=["src/sims/s51.src/arith.cc", "src/sims/s51.src/bit.cc", "src/sims/s51.src/inc.cc", "src/sims/s51.src/jmp.cc",
           "src/sims/s51.src/logic.cc", "src/sims/s51.src/mov.cc", "src/sims/s51.src/uc51.cc", "src/sims/s51.src/port.cc",
           "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc"],
    mechanism="instruction_XX() methods of the 8051 core over the sfr/iram/xram/rom/bits/regs address spaces",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["peripherals in reset state (timers stopped, interrupts disabled)",
                 "SFR operands are ACC, B, PSW, SP, DPL, DPH, P0-P2; other SFRs belong to peripherals"],
    harnesses=[
        dict(name="isa51", sim="s51", src=["isa51.cc"], defs=['-DMC_CPU="52"']),
        dict(name="isa51b", sim="s51", src=["isa51.cc"], defs=['-DMC_CPU="51"']),
    ])

PROPS["C02"] = dict(
    title="Z80 instruction semantics",
    statement="Executing any documented Z80 instruction, unprefixed or with CB, ED, DD, FD, DDCB or FDCB prefix (and the halves of IX and IY), "
    "from any register, flag and memory state leaves exactly the registers, both register sets, documented flags, interrupt flip-flops and mode, "
    "memory, I/O ports, program counter and T-state count that the Zilog manual prescribes, and changes nothing else. "
    "All addresses, displacements and the stack pointer wrap at 64K; I/O instructions select one of 256 ports by the immediate byte or C.",
    over=["programs", "inputs"],
    quant="every opcode, operand value and flag state of arithmetic, address wrap-around of every memory form, every ordered pair of instructions",
    why="No Z80 test compares results or flags at all; the shipped tests only check that a compiled program starts.",
    files=["src/sims/z80.src/z80.cc", "src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_cb.cc", "src/sims/z80.src/inst_ed.cc",
           "src/sims/z80.src/inst_xd.cc", "src/sims/z80.src/inst_xxcb.cc", "src/sims/z80.src/z80mac.h", "src/sims/z80.src/glob.cc"],
    mechanism="cl_z80::exec_inst() and the inst_*() methods with the flag macros of z80mac.h, T states from the tables in glob.cc",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["bits 3 and 5 of F, the refresh count, DAA outside the manual's table and instructions that overwrite their own bytes are not compared",
                 "N after block I/O is not compared (the manual and the silicon disagree)"],
    harnesses=[dict(name="isaz80", sim="z80", src=["isaz80.cc"])])

PROPS["C03"] = dict(
    title="6502 and 65C02 instruction semantics",
    statement="Executing any documented instruction of the NMOS 6502, the 65C02 or its bit-manipulation variant, from any register, flag and memory state, leaves exactly the registers, flags, memory, program counter and clock count that the "
    "instruction set definition prescribes and changes nothing else; decimal arithmetic, zero page and stack wrap-around, page-crossing penalties and the indirect jump at a page end included. "
    "IRQ and NMI lines and BRK are taken exactly when the rules allow and save the address of the next instruction.",
    over=["programs", "inputs"],
    quant="every opcode x accumulator x operand x flag state, all address wrap-arounds and page crossings of every addressing mode, IRQ/NMI states before each instruction, BRK/CLI/RTI in handlers, every ordered pair of instructions",
    why="The repository has no 6502 test that compares a result; only a configuration listing is checked.",
    files=["src/sims/mos6502.src/mos6502.cc", "src/sims/mos6502.src/ialu.cc", "src/sims/mos6502.src/irq.cc", "src/sims/mos6502.src/ibranch.cc", "src/sims/mos6502.src/imove.cc", "src/sims/mos6502.src/mos65c02.cc", "src/sims/mos6502.src/mos65c02s.cc"],
    mechanism="cl_mos6502::exec_inst() and the instruction methods, accept_it(), tick tables",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["decimal mode with invalid BCD digits, V (NMOS: also N and Z) in decimal mode and bits 4 and 5 of P are not compared",
                 "WAI, STP, undocumented NMOS opcodes, a BRK together with an IRQ and the HuC6280, 65CE02 and 6510 extensions are left out"],
    harnesses=[dict(name="isa65_%d" % k, sim="mos6502", src=["isa6502.cc"], defs=["-DMC_CMOS=%d" % k]) for k in (0, 1, 2)])

PROPS["C04"] = dict(
    title="8080 and 8085 instruction semantics",
    statement="Executing any documented 8080 or 8085 instruction from any register, flag and memory state leaves exactly the registers, the five documented flags, memory, stack, program counter and clock count that the Intel manuals prescribe "
    "for the processor selected, and changes nothing else; addresses and the stack pointer wrap at 64K.",
    over=["programs", "inputs"],
    quant="every documented opcode x accumulator x operand x flag state, address, stack and PC wrap-around of every memory form, every ordered pair of instructions, on both processors",
    why="The repository has no 8080 test that compares a result; only a configuration listing is checked.",
    files=["src/sims/i8085.src/i8080.cc", "src/sims/i8085.src/ialu.cc", "src/sims/i8085.src/ibranch.cc", "src/sims/i8085.src/imove.cc", "src/sims/i8085.src/imovrr.h", "src/sims/i8085.src/glob.cc", "src/sims/i8085.src/i8085.cc"],
    mechanism="cl_i8080::exec_inst(), add8(), sub8(), DAA(), jmp_if(), push2(), parity and tick tables",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["IN, OUT, EI, DI, RIM and SIM are not implemented by the simulator: only their length and time are compared", "undocumented opcodes and flags are left out"],
    harnesses=[dict(name="isa80_%d" % k, sim="i8085", src=["isa8080.cc"], defs=["-DMC_85=%d" % k]) for k in (0, 1)])

PROPS["C05"] = dict(
    title="M6800, M6801 and M68HC11 instruction and interrupt semantics",
    statement="Executing any documented 6800, 6801 or 68HC11 instruction from any register, flag and memory state leaves exactly the registers, condition codes, memory, stack, program counter and clock count that the Motorola manuals prescribe "
    "for the processor selected, and changes nothing else; addresses and the stack pointer wrap at 64K. SWI, WAI, IRQ and (6800, 6801) NMI stack the prescribed registers, set the prescribed mask bits, enter the prescribed vector and RTI restores the stacked state, also when requests arrive in handlers.",
    over=["programs", "inputs", "schedules"],
    quant="every documented opcode of all pages x accumulator x operand x flag state, address, stack and PC wrap-around of every memory form, every ordered pair of instructions, interrupt requests before every instruction x condition codes x stack pointers and in handlers up to 6 instructions, on three processors",
    why="The repository's own tests run one configuration listing; no result or flag of an instruction is compared.",
    files=["src/core/motorola.src/m6800.cc", "src/core/motorola.src/m6800cl.h", "src/core/motorola.src/ialu68.cc", "src/core/motorola.src/imove68.cc", "src/core/motorola.src/ibranch68.cc", "src/core/motorola.src/inst68.cc", "src/core/motorola.src/irq68.cc", "src/core/motorola.src/m6801.cc", "src/core/motorola.src/m6801cl.h", "src/core/motorola.src/m68hc11.cc", "src/core/motorola.src/m68hc11cl.h"],
    mechanism="cl_m6800::exec_inst(), add(), sub(), cmp(), cpx(), accept_it(), push_regs(); cl_m6801 and cl_m68hc11 16 bit operations, tick tables",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["memory operands, stack and code do not touch the peripheral registers at 0x8000-0x803f", "XIRQ of the 68HC11 is left out", "the clock count of an accepted IRQ or NMI is not compared"],
    harnesses=[dict(name="isa68_%d" % k, sim="m68hc11" if k == 2 else "m6800", src=["isa68.cc"], defs=["-DMC_K=%d" % k]) for k in (0, 1, 2)])

PROPS["C06"] = dict(
    title="M6809 instruction and interrupt semantics",
    statement="Executing any documented 6809 instruction with any documented addressing mode from any register, flag and memory state leaves exactly the registers, condition codes, memory, both stacks and program counter that the Motorola manual prescribes, and changes nothing else; "
    "addresses and stack pointers wrap at 64K. NMI, FIRQ, IRQ, SWI, SWI2, SWI3, CWAI and SYNC stack the prescribed registers, set the prescribed mask bits and enter the prescribed vector in the order NMI, FIRQ, IRQ, NMI only after the first load of S, and RTI restores the stacked state, also when requests arrive in handlers.",
    over=["programs", "inputs", "schedules"],
    quant="every documented opcode of three pages x accumulator x operand x flag state, every indexing postbyte, register pair and register list, address, stack and PC wrap-around of every memory form, every ordered pair of instructions, every set of interrupt requests before every instruction x condition codes and in handlers up to 6 instructions",
    why="The repository's own tests run one configuration listing; no result, flag or interrupt of the 6809 is compared.",
    files=["src/sims/m6809.src/m6809.cc", "src/sims/m6809.src/m6809cl.h", "src/sims/m6809.src/irq.cc"],
    mechanism="cl_m6809::exec_inst(), inst_alu(), index2ea(), inst_page1(), inst_page2(), push_regs(), pull_regs(), accept_it()",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["memory operands, stacks and code do not touch the peripheral registers at 0xc000-0xc03f", "clock counts are not compared: the simulator counts bus accesses", "undocumented opcodes, postbytes and register codes, and SYNC ended by a masked request, are left out"],
    harnesses=[dict(name="isa6809", sim="m6809", src=["isa6809.cc"], defs=[])])

PROPS["C07"] = dict(
    title="M68HC08 and HCS08 instruction semantics",
    statement="Executing any documented CPU08 instruction, and on the HCS08 its added addressing modes, from any register, flag and memory state leaves exactly the registers A, H:X, SP and CCR, memory, stack and program counter that the CPU08 manual prescribes, and changes nothing else; "
    "addresses wrap at 64K and SWI and RTI stack and restore the prescribed registers.",
    over=["programs", "inputs"],
    quant="every documented opcode x accumulator x operand x flag state, every 16 bit boundary value of H:X, SP, operand and address of every memory form, every relative displacement, every stack pointer, every dividend and divisor, every program counter, every ordered pair of instructions",
    why="The repository's own tests never compare a result, flag or memory cell after a CPU08 instruction.",
    files=["src/sims/m68hc08.src/m68hc08.cc", "src/sims/m68hc08.src/inst.cc", "src/sims/m68hc08.src/m68hc08cl.h", "src/sims/m68hc08.src/instcl.h"],
    mechanism="cl_hc08::exec_inst(), fetchea(), inst_*() of inst.cc",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["clock counts, STOP, WAIT, BGND and the 9S08 CALL and RTC are not compared", "DAA is compared where the manual's table defines it; quotient, remainder and Z after an overflowing DIV are left out", "the IRQ pin is high"],
    harnesses=[dict(name="isahc08", sim="m68hc08", src=["isahc08.cc"], defs=[]), dict(name="isahcs", sim="m68hc08", src=["isahc08.cc"], defs=["-DHCS=1"])])

PROPS["C08"] = dict(
    title="STM8 instruction and interrupt semantics",
    statement="Executing any documented STM8 instruction with any documented addressing mode from any register, flag and memory state leaves exactly the registers, CC, memory, stack and 24 bit program counter that the programming manual prescribes, and changes nothing else; index sums reach past 64K instead of wrapping, and CALL, CALLF and TRAP save what RET, RETF and IRET restore. "
    "Of the pending requests whose software priority is above the current level the one with the highest priority, then the lowest number, is served: it stacks the registers, enters its vector and sets I1,I0 to its priority.",
    over=["programs", "inputs", "schedules"],
    quant="all 601 opcodes over all prefixes x accumulator x operand x flag state, 16 bit operands, pointers and addresses around every limit of every memory form, program counters up to 24 bits, every request pattern of 4 sources x priorities x current levels before and in handlers up to 7 instructions, every ordered pair of instructions",
    why="The repository's own tests exercise STM8 ports and VCD output only; the result of an instruction is never compared.",
    files=["src/sims/stm8.src/stm8.cc", "src/sims/stm8.src/inst.cc", "src/sims/stm8.src/stm8cl.h", "src/sims/stm8.src/instcl.h", "src/sims/stm8.src/itc.cc"],
    mechanism="cl_stm8::exec_inst(), fetchea(), inst_*(), accept_it(), cl_itc",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["memory operands and stacks stay in RAM, code and constants in RAM or flash; SP is not taken over its limits", "clock counts, WFI, WFE, HALT, BREAK, JRIL, JRIH, and JRM and JRNM with I1 different from I0 are not compared", "results of a division by zero, JP and CALL through pointers above 64K and instructions across a section boundary are left out"],
    harnesses=[dict(name="isastm8", sim="stm8", src=["isastm8.cc"], defs=[])])

PROPS["C09"] = dict(
    title="AVR instruction semantics",
    statement="Executing any AVR instruction the simulator implements, from any register, status register and memory state, leaves exactly the registers, SREG, I/O and data memory, stack pointer and program counter that the AVR instruction set manual prescribes, and changes nothing else. "
    "Registers, I/O registers, SREG and the stack pointer are the same cells when they are reached through data addresses, and skips pass over one and two word instructions.",
    over=["programs", "inputs"],
    quant="every code word of 73 instructions, every pair of operand bytes x status registers of every instruction class, every immediate operand, pointers over all data addresses around the register and I/O limits, program counters around the end of code memory, every ordered pair of instructions",
    why="The repository's own AVR test runs one configuration listing; no result or flag is compared.",
    files=["src/sims/avr.src/avr.cc", "src/sims/avr.src/avrcl.h", "src/sims/avr.src/inst.cc", "src/sims/avr.src/arith_inst.cc", "src/sims/avr.src/logic_inst.cc", "src/sims/avr.src/bit_inst.cc", "src/sims/avr.src/move_inst.cc", "src/sims/avr.src/jump_inst.cc"],
    mechanism="cl_avr::exec_inst() and the functions of arith_inst, logic_inst, bit_inst, move_inst and jump_inst",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["clock counts, SLEEP, WDR and instructions the simulator does not implement (MOVW, MULS and kin, FMUL and kin, LPM Rd, ELPM, SPM, EIJMP, EICALL) are left out", "data addresses over 64K, JMP and CALL targets over 64K words, pointer registers loaded through themselves with increment, and stacks on the stack pointer itself are left out"],
    harnesses=[dict(name="isaavr", sim="avr", src=["isaavr.cc"], defs=[])])

PROPS["C22"] = dict(
    title="MCS-48 instruction semantics",
    statement="Executing any documented MCS-48 instruction from any accumulator, status word, register bank, memory bank, flag, pin and memory state leaves exactly the accumulator, PSW, both register banks and all internal memory, stack, ports, port latches, expander ports, bus, timer registers, flags and program counter that the Intel manual prescribes, and changes nothing else. "
    "Each instruction takes the documented number of machine cycles, and the program counter stays in its 2K bank unless a jump or call leaves it.",
    over=["programs", "inputs"],
    quant="for 8050, 8039 and (UPI-41 set) 80C42: every opcode x accumulator x operand byte x carry, half carry, F0 and bank (with F0 or bank set or both one in five); every pointer value x bank; 18 program counters at page and bank ends x every PSW; every ordered pair of instructions; thorough all operand values",
    why="No test of the repository executes an MCS-48 program and compares its result.",
    files=["src/sims/i8048.src/i8020.cc", "src/sims/i8048.src/i8020cl.h", "src/sims/i8048.src/i8048.cc", "src/sims/i8048.src/i8041.cc", "src/sims/i8048.src/arith.cc", "src/sims/i8048.src/branch.cc", "src/sims/i8048.src/move.cc", "src/sims/i8048.src/port.cc", "src/sims/i8048.src/decode.h"],
    mechanism="cl_i8020::exec_inst(), the instruction functions, cl_qport, cl_p2, cl_pext, cl_bus",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["conditional jumps whose operand is the last byte of a page, MOVP3 executed in the upper bank, pointers above the internal memory and EN I with INT low are left out", "bus after MOVX or MOVP and the low half of P2 after expander access are not compared", "instructions only the UPI-41 has, and jumps and calls to its pages 4 to 7, are left out"],
    harnesses=[dict(name="isa48", sim="i8048", src=["isa48.cc"], defs=[]), dict(name="isa48x", sim="i8048", src=["isa48.cc"], defs=["-DMC_TYPE=8039"]), dict(name="isa48u", sim="i8048", src=["isa48.cc"], defs=["-DMC_TYPE=80C42", "-DMC_41=1"])])

PROPS["C23"] = dict(
    title="SM83 (LR35902) instruction semantics",
    statement="Executing any SM83 instruction from any register, flag and memory state leaves exactly the registers, flags (the low four always 0), stack, memory, interrupt enable and program counter that the processor's documentation prescribes, and changes nothing else. "
    "Each instruction takes the documented number of clocks, conditional ones according to their outcome.",
    over=["programs", "inputs"],
    quant="every opcode (also CB) x all 16 flag states x accumulator x operand byte (every value of both where the result depends on them, else one in 17 or 51), ADD SP and LD HL,SP+d for every offset and low stack byte, 24 x 24 values of pointers, 13 program counters x every displacement, every ordered pair of instructions x 12 states; thorough all values",
    why="No test of the repository executes an SM83 program and compares its result.",
    files=["src/sims/z80.src/gb80.cc", "src/sims/z80.src/gb80cl.h", "src/sims/z80.src/inst_gb80.cc", "src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_cb.cc", "src/sims/z80.src/glob_gb80.cc"],
    mechanism="cl_gb80::exec_inst(), tickt(), the instruction functions of cl_gb80 and cl_z80",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["STOP and the undefined opcodes are left out", "DAA after a subtraction and CCF are those of the SM83, not of the Z80", "instructions which overwrite their own bytes are left out"],
    harnesses=[dict(name="isasm83", sim="z80", src=["isasm83.cc"], defs=[])])

PROPS["C25"] = dict(
    title="PicoBlaze instruction, stack and interrupt semantics",
    statement="Executing any KCPSM3 or KCPSM6 instruction from any register, flag, bank, memory, stack and input state leaves exactly the registers of both banks, flags, scratchpad RAM, call stack, port outputs and program counter that Xilinx's guide of that core prescribes, in two clocks. "
    "An enabled interrupt request saves flags (and on KCPSM6 the bank) and calls the vector with interrupts disabled, and returning from it restores them exactly; the call stack of KCPSM3 is circular, and overflow or underflow of that of KCPSM6 resets the core.",
    over=["programs", "inputs", "schedules"],
    quant="all 262144 instruction words from several states; every operation with every pair of operand bytes x flags x bank; every program counter (thorough; one in three otherwise) and every stack depth with edge values of the return address; ordered pairs of 960 instruction forms, each also with an interrupt after the first and with its return",
    why="No test of the repository executes a PicoBlaze program and compares its result.",
    files=["src/sims/pblaze.src/inst.cc", "src/sims/pblaze.src/pblaze.cc", "src/sims/pblaze.src/stack.cc", "src/sims/pblaze.src/pblazemac.h"],
    mechanism="cl_pblaze::exec_inst(), do_interrupt(), inst_*(), stack_push(), stack_pop()",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["instruction words not in the guides are left out", "addresses of KCPSM6 above its 1K program memory are left out", "RETURNI is asked for only after an interrupt"],
    harnesses=[dict(name="isapb", sim="pblaze", src=["isapb.cc"], defs=["-DMC_K=3"]), dict(name="isapb6", sim="pblaze", src=["isapb.cc"], defs=["-DMC_K=6"])])

PROPS["C26"] = dict(
    title="ST7 instruction semantics",
    statement="Executing any documented ST7 instruction, with any index and indirection prefix it takes, from any register, flag, stack and memory state leaves exactly the registers, flags, stack, memory and program counter that the ST7 programming manual prescribes. "
    "Effective addresses, pointers and branch targets wrap around within 64K, and the reported length of an instruction equals the number of bytes it takes.",
    over=["programs", "inputs"],
    quant="all 506 legal prefix and opcode combinations with every pair of operand bytes x 8 flag states; edge values of pointers, addresses and indexes; 13 places of the program x all displacements; every stack pointer of its page; every product; ordered pairs of all instructions",
    why="No test of the repository executes an ST7 program and compares its result; several flags had never been right.",
    files=["src/sims/st7.src/st7.cc", "src/sims/st7.src/inst.cc", "src/sims/st7.src/st7mac.h", "src/sims/st7.src/glob.cc"],
    mechanism="cl_st7::exec_inst(), fetchea(), get_dest(), inst_*(), inst_length()",
    level="exploration", technique=ISA_TECH, note=ISA_NOTE, rule=ISA_RULE,
    assumptions=["clock counts are not compared", "TRAP, HALT, WFI, JRIL and JRIH are left out", "N and Z after register to register loads are not compared", "the stack does not cross its page"],
    harnesses=[dict(name="isast7", sim="st7", src=["isast7.cc"])])

PER_TECH = "exhaustive enumeration of short histories from every prepared state, the real peripherals and interrupt logic compared with an explicit model after each instruction"
HIST_TECH = "explicit exhaustive enumeration of operation histories on the real code, compared after every history with an executable reference model"

PROPS["C10"] = dict(
    title="Address map follows its definition history",
    statement="After any sequence of creating address decoders, bank switchers, banks and bit banders, writing bank selectors and removing chips, "
    "every address of an address space reaches exactly the chip cell (or bit) that the most recent definition covering it and the current selector value prescribe, "
    "and is undecoded if there is none. Overlapping a definition leaves its remaining parts mapped as before, invalid definitions are refused without effect, "
    "and reads, writes, the cell report and the decoder listing all agree on the mapping.",
    over=["histories", "inputs"],
    quant="every sequence of map commands up to depth 2 over 774 commands (all sub-ranges of an 8 cell space), depth 3 over 90, depth 4 over 15 (thorough: depth 5)",
    why="No shipped test touches the memory configuration commands; the mapping after overlapping definitions depends on the whole history.",
    files=["src/core/sim.src/mem.cc", "src/core/sim.src/memcl.h", "src/core/cmd.src/cmd_mem.cc", "src/core/sim.src/uc.cc"],
    mechanism="cl_address_decoder/cl_banker/cl_bander activate, split and shrink; undecode_area(); remove_chip()",
    level="model_checking", technique=HIST_TECH,
    note="All histories within the bounds run on the real commands; the reference is an independent interval model. "
    "Trusts that larger spaces and longer histories add no new kind of overlap. Banked cells are not compared while the selected bank is undefined.",
    rule="all ordered sequences of map commands over the stated alphabets; a history is distinct when its resulting model map was not reached before in its worker",
    assumptions=["cell width of space and chip equal (8 bit), or bit space over 8 bit chip"],
    harnesses=[dict(name="memmap", sim="i8085", src=["memmap.cc"])])

PROPS["C11"] = dict(
    title="Breakpoints stop exactly where specified",
    statement="After any history of break, tbreak, delete, clear, commands, run, step and next commands, a running simulation stops exactly at the first "
    "instruction (fetch breakpoint) or after the first memory access (event breakpoint) whose hit count has elapsed and whose condition is true, and nowhere else; it stops before "
    "the instruction at a fetch breakpoint is executed, and after the accessing instruction. Temporary breakpoints (including those of next and of run with a stop address) "
    "disappear when accepted, commands attached to a breakpoint run when it is accepted, deleted breakpoints have no effect, and the listing shows exactly the existing ones.",
    over=["histories", "programs"],
    quant="every command history up to depth 3 over 42 commands and up to depth 5 over 18 (thorough: depth 4 over 42), on a looping program and on one that goes idle, on an MCS-51 and a 6809",
    why="No shipped test sets a breakpoint.",
    files=["src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_bp.cc", "src/core/cmd.src/cmd_exec.cc", "src/core/sim.src/mem.cc", "src/sims/s51.src/uc51.cc"],
    mechanism="brk_coll, cl_brk::do_hit(), cell operators, cl_uc::fetch()/do_inst()/check_events()",
    level="model_checking", technique=HIST_TECH,
    note="The model steps along the recorded breakpoint-free trace of the same program and a table of the memory accesses each instruction makes. "
    "A condition is evaluated only when the hit count elapses, as the code documents. Trusts that longer programs add no new kind of interaction.",
    rule="all ordered sequences of commands over the stated alphabets that contain at least one execution command; distinct when the resulting model state (position, breakpoints, counts) was not reached before in its worker",
    assumptions=["execution is driven as the simulator's main loop does, one step() per turn"],
    harnesses=[dict(name="brkhist", sim="s51", src=["brkhist.cc"]),
               dict(name="brkhist6809", sim="m6809", src=["brkhist.cc"], defs=["-DMC_M6809"])])

SIMS = ["avr", "f8", "i8048", "i8085", "m6800", "m6809", "m68hc08", "m68hc11", "m68hc12", "mos6502", "oisc", "p1516", "pblaze", "pdk",
        "rxk", "s51", "st7", "stm8", "tlcs", "xa", "z80"]

PROPS["C12"] = dict(
    title="Observing and dividing a run does not change it",
    statement="For every CPU type of every simulator, program and starting state, executing a number of instructions leaves the same registers, memories, "
    "peripherals, variables and elapsed clock however the execution is divided: run in one go, single steps, step with a count, steps of several sizes, or stopped by and continued from a "
    "breakpoint at each instruction. Commands that only display (registers, memory dumps, listings, hardware, breakpoints, statistics, expressions, searches, help) and read or write "
    "breakpoints that are not reached do not change it either, and no such history crashes or hangs the simulator. "
    "Showing a hardware register which reacts to being read by the program is not such a command.",
    over=["schedules", "programs"],
    quant="every CPU type of all 21 simulators x every leading opcode byte x 3 starting situations x every way of dividing the run",
    why="The tests run programs to their end without ever stopping them or looking at them.",
    files=["src/core/sim.src/sim.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/hw.cc", "src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_exec.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/cmd.src/cmd_mem.cc",
           "src/core/cmd.src/cmd_info.cc", "src/sims"],
    mechanism="cl_sim::step()/stop(), cl_uc::do_inst()/fetch()/do_brk(), print_info()/print_regs()/disassc() of every CPU and peripheral, memory operators",
    level="model_checking",
    technique="exhaustive enumeration of the schedules that divide and observe an execution (stop points, step sizes, inspection commands), on the real code, complete machine state compared with that of the undivided execution",
    note="The reference is the same code run undivided. The leading opcode takes all 256 values, the bytes after it and the state of the peripherals are fixed sequences per opcode and scenario. "
    "Trusts that six instructions after the one under test suffice to make a difference visible.",
    rule="one case per (CPU type, opcode, scenario); distinct when the digest of the complete final state was not seen before in its worker; traces are divided executions compared",
    assumptions=["execution is driven as the simulator's main loop does, one step() per turn", "quick: in families of more than six types every (opcode, scenario) is run on every sixth or so type"],
    harnesses=[dict(name="slice_"+s, sim=s, src=["slice.cc"]) for s in SIMS])

DIS = [   # simulator, CPU types, what the harness has to know of the processor
    ('s51', '"C52","F380","DS390","251"', ['-DMC_STKMEM="iram"', '-DMC_STKUP']),
    ('z80', '"Z80","Z180","GB80","EZ80","Z80N","R800"', ['-DMC_PREFIX=,0xed,0xfd,0xdd,0xcb']),
    ('stm8', '"STM8S"', ['-DMC_A=0x400', '-DMC_SP=0x300', '-DMC_UNDEF_OK', '-DMC_PREFIX=,0x72,0x90,0x91,0x92']),
    ('m68hc08', '"HC08","HCS08"', ['-DMC_A=0x9000', '-DMC_PREFIX=,0x9e,0x72']),
    ('mos6502', '"6502","65C02","65C02S","HUC6280"', ['-DMC_STK=0x100']),
    ('m6800', '"M6800","M6801"', []),
    ('m6809', '"M6809"', ['-DMC_PREFIX=,0x10,0x11', '-DMC_SPNAME="S"']),
    ('m68hc11', '"HC11"', ['-DMC_PREFIX=,0x18,0x1a,0xcd']),
    ('i8085', '"I8085","I8080"', []),
    ('f8', '"F8"', ['-DMC_SP=0x3000']),
    ('tlcs', '"TLCS90","TLCS870C","TLCS870C1"', ['-DMC_A=0x9000', '-DMC_SP=0x100', '-DMC_UNDEF_OK', '-DMC_PREFIX=,0x4f,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe']),
    ('i8048', '"I8048","I8021","I8022","I8041","I80C42"', ['-DMC_A=0x240', '-DMC_STKMEM="iram"', '-DMC_SCANLO=8', '-DMC_SCANHI=23', '-DMC_RETMASK=0xfff', '-DMC_SCANSET=']),
    ('avr', '"AVR"', ['-DMC_A=0x240', '-DMC_SKIP', '-DMC_STKMEM="iram"', '-DMC_SCANLO=0x62', '-DMC_SCANHI=0x7e', '-DMC_RETMASK=0xffff', '-DMC_SCANSET=stk->set(0x5d,0x70),stk->set(0x5e,0)']),
    ('pblaze', '"KCPSM3","KCPSM6"', ['-DMC_A=0x240', '-DMC_MINCALL=0']),
    ('pdk', '"PDK13","PDK14","PDK15"', ['-DMC_A=0x140', '-DMC_PDK', '-DMC_STKMEM="ram"', '-DMC_SCANLO=0x18', '-DMC_SCANHI=0x2a', '-DMC_RETMASK=0xffff', '-DMC_SCANSET=spc->write(0x20)']),
    ('p1516', '"P1516","P2223"', ['-DMC_A=0x240', '-DMC_MINCALL=0']),
    ('rxk', '"R2K","R3K","R3KA","R4K","R5K","R6K"', ['-DMC_UNDEF_OK', '-DMC_PREFIX=,0xed,0xfd,0xdd,0xcb,0x7f,0x6d,0x49,0x5b']),
    ('st7', '"st7"', ['-DMC_A=0x9000', '-DMC_PREFIX=,0x90,0x91,0x92', '-DMC_UNDEF_OK', '-DMC_TARGET=2']),
]

PROPS["C13"] = dict(
    title="Disassembly and step-over agree with execution",
    statement="For every processor except 68HC12, XA, 65CE02 and the one-instruction machines, and every instruction it executes: the disassembler gives a text and steps over exactly as many "
    "bytes (or words) as executing the instruction consumes, and the target it shows for a direct jump or call is the address where execution goes. "
    "An instruction is known as a call (so that `next` runs over it) exactly when executing it saves its return address; prefixes that only introduce another instruction count as part of it.",
    over=["programs", "inputs"],
    quant="every pair of leading bytes (every word on word machines) x 7 following bytes (93 in thorough) at a fixed address, on 40 CPU types of 18 simulators",
    why="The tests disassemble a handful of compiled programs of two processors; most lengths in the tables are never looked at, and a wrong one shifts everything listed after it.",
    files=["src/core/sim.src/uc.cc", "src/sims/s51.src/glob.cc", "src/sims/z80.src/glob.cc", "src/sims/z80.src/z80.cc", "src/sims/stm8.src/glob.cc", "src/sims/m68hc08.src/glob.cc", "src/sims/mos6502.src/glob.cc",
           "src/sims/m6809.src/m6809.cc", "src/core/motorola.src", "src/sims/i8085.src/glob.cc", "src/sims/f8.src/disass.cc", "src/sims/tlcs.src/glob.cc", "src/sims/rxk.src", "src/sims/avr.src/glob.cc",
           "src/sims/i8048.src", "src/sims/pdk.src/glob.cc", "src/sims/st7.src/glob.cc"],
    mechanism="disassc(), inst_length(), is_call(), get_disasm_info() and the dis_entry tables against exec_inst() and fetch()",
    level="exploration",
    technique="exhaustive enumeration of instruction patterns, each both disassembled and executed by the real simulator, and the two compared",
    note="Execution is the oracle: bytes fetched, program counter reached and the return address found at the stack. Mnemonics and operand texts are not compared, except branch targets. "
    "Patterns that the simulator refuses to execute, or which it disassembles as unknown after a prefix, are skipped. Calls are not decided where the return stack can not be seen (picoblaze, p1516).",
    rule="one case per instruction pattern and CPU type; distinct when the instruction was executed (not refused) so that its length could be compared",
    assumptions=["one address per processor; registers and memory as earlier instructions left them"],
    harnesses=[dict(name="dis_"+s, sim=s, src=["dis.cc"], defs=["-DMC_TYPES="+t] + d) for s, t, d in DIS])

PROPS["C17"] = dict(
    title="Memory commands change and report exactly the cells they name",
    statement="Set memory and fill change exactly the cells (or the bits) they name to exactly the values given, cut to the cell width, and nothing else, for every width, range and list, also at the ends of a memory which does not start at 0. "
    "Every dump format reports exactly the contents of the cells of the range asked for, in the direction asked for, with the bytes per line asked for, and a dump without range goes on where the last one of that memory ended. Where, Where and hole list exactly the places where the searched bytes (ignoring case or not), or holes of the given length, occur in the range.",
    over=["histories", "inputs"],
    quant="7 memories of 4 to 32 bits: every single and every ordered pair (thorough: triple) of set, bit and fill commands over all bounds; every range, also backwards, x 7 line lengths x 6 contents of every dump format; every continuation of two dumps; every pattern of a list x every content; every hole length 0 to 6",
    why="No test of the repository uses the memory commands on more than single cells.",
    files=["src/core/cmd.src/cmd_set.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/cmd.src/cmdutil.cc", "src/core/sim.src/mem.cc"],
    mechanism="cl_set_mem_cmd, cl_fill_cmd, cl_dump_cmd, cl_where_cmd, cl_hole_cmd, cl_memory::dump*(), search_next(), cl_address_space::set_cell_flag()",
    level="model_checking", technique=HIST_TECH,
    note="Each result is recomputed from a vector of cell values: hex, Intel hex, binary, string and smart dumps are parsed back.",
    rule="one case per command sequence, memory and content; states are distinct memory contents, transitions are commands",
    assumptions=["dump with a start but no end address is left out (its length is not documented consistently)", "the confirmation printed by set memory is not compared"],
    harnesses=[dict(name="memcmd", sim="i8085", src=["memcmd.cc"], defs=[])])

PROPS["C18"] = dict(
    title="MCS-51 serial port sends and receives exactly",
    statement="In every mode, each byte written to SBUF is sent exactly once and unchanged, and TI is set when its frame of 8, 10 or 11 bit times ends; with REN set each byte arriving on the line is readable from SBUF, whatever is written there, and RI is set one frame time after it starts. "
    "The bit time of each direction is the one prescribed by the mode, SMOD and timer 1, or timer 2 if RCLK or TCLK selects it for that direction, also after these were changed between frames. Without REN no byte is taken, and nothing but frames and the program changes TI, RI and the rest of SCON.",
    over=["histories", "states", "inputs"],
    quant="every mode, SMOD, RCLK, TCLK, reload values of both timers, byte and bit forms of the set-up and 1 and 4 cycle instructions x every possible history of up to 5 (modes 0 and 2) or 4 (modes 1 and 3) of 15 steps: sending, line input, clearing flags, switching the receiver, reading, changing clocks and mode, waiting less and more than a frame; thorough one step deeper",
    why="No test of the repository sends or receives a byte through the 8051 serial port.",
    files=["src/sims/s51.src/serial.cc", "src/sims/s51.src/serialcl.h", "src/core/sim.src/serial_hw.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc"],
    mechanism="cl_serial::write(), serial_bit_cnt(), tick(), received(), happen()",
    level="model_checking", technique=PER_TECH,
    note="A frame may end between one bit before and half a bit after its nominal end, since the phase of the baud clock is not specified. The line is fed through the port's input latch, files and terminals behind it are not part of the check.",
    rule="one case per configuration and step sequence; all are distinct; transitions are executed instructions",
    assumptions=["SBUF is not written during a frame, no byte arrives while RI is set, and clocks and mode are changed between frames only", "SM2, TB8 and RB8 are left out"],
    harnesses=[dict(name="ser52", sim="s51", src=["ser51.cc"], defs=['-DMC_TYPE="C52"']), dict(name="ser51", sim="s51", src=["ser51.cc"], defs=['-DMC_TYPE="C51"'])])

PROPS["C24"] = dict(
    title="Value change dumps record and replay exactly what happened",
    statement="A value change dump is a valid file which declares exactly the watched cells and bits with their names and widths, and contains every value written to them while recording at the simulated time of the write in the file's time unit, the one asked for or else one in which a clock is a whole number of units. "
    "A pause appears as unknown values, shortened to the pause limit if there is one, and nothing written during it is recorded. Replaying a file drives exactly the recorded values into the named cells and bits at the recorded times after its start, shifted by the start time whenever that is given, standing still during pauses, and changes nothing else.",
    over=["histories", "inputs"],
    quant="every sequence of up to 3 (thorough: 4) additions and deletions of 12 watched cells, bits and ranges of 8, 16 and 32 bit cells; every history of 3 or 4 (thorough: 5) of 14 operations (writes, clocks, pause, restart, deletion) x 7 variable sets x 3 clocks x 4 pause limits; 6 time scales; replay of 196 (thorough: 2744) recorded histories x start shifts before and after start x 4 step patterns x pauses",
    why="The tests of the repository compare two recorded files, neither has pauses, ranges or a given time scale, and none is replayed.",
    files=["src/core/sim.src/vcd.cc", "src/core/sim.src/vcdcl.h"],
    mechanism="cl_vcd::set_cmd(), add_var(), del_var(), report(), tick(), parse_header(), cl_vcd_var::write()",
    level="model_checking", technique=HIST_TECH,
    note="The file is read back by a parser of its own; a value may be one time unit off its exact time, and a replayed value is not asked for right at its edge.",
    rule="one case per set-up, clock, scale and operation sequence; all are distinct; transitions are operations",
    assumptions=["the date, version and comments are not compared", "output to a pipe is left out", "files with hierarchy, real or longer than 32 bit variables are left out"],
    harnesses=[dict(name="vcd", sim="i8085", src=["vcd.cc"], defs=[])])

PROPS["C19"] = dict(
    title="Virtual timers and the clock count exactly",
    statement="After any history of executed instructions, interrupt services, idle and power down cycles, tick commands and timer commands, every virtual timer shows exactly the value it was last set to (0 when created) plus or minus, by its direction, the clocks elapsed since then while it was running and its condition (always, in interrupt service, idle, halted) held, and its time is the sum of these clocks at the crystal frequency of their moment. "
    "The total clock advances by the clocks of each instruction and of each interrupt entry, and the instruction count by the instructions executed. Timers are created, found by number and name, started, stopped, set and deleted individually; refused commands change nothing and built-in timers can not be deleted.",
    over=["histories", "states"],
    quant="from 8 prepared states every sequence of 2 of 114 steps and of 3 and 4 of 20 steps, and every sequence of 3 of 114 from one state (thorough: from 5 states, and of 5 of 20)",
    why="No test of the repository uses a timer command or compares the clock.",
    files=["src/core/sim.src/uc.cc", "src/core/sim.src/uccl.h", "src/core/cmd.src/cmd_timer.cc", "src/core/cmd.src/cmd_uc.cc", "src/sims/s51.src/uc51.cc"],
    mechanism="cl_ticker, cl_uc::tick(), add_counter(), get_counter(), del_counter(), the timer, tick and state commands",
    level="model_checking", technique=HIST_TECH,
    note="Runs on the 8052, whose instruction clocks are compared too. Whether the clocks of an interrupt entry and of RETI count as service is taken from the simulator, alike for all timers.",
    rule="one case per prepared state and step sequence; all are distinct; transitions are executed instructions",
    assumptions=["values of user timers over a reset are not compared", "deleting or stopping the total clock is left out"],
    harnesses=[dict(name="timers", sim="s51", src=["timers.cc"])])

PROPS["C20"] = dict(
    title="Loading a file stores exactly its data",
    statement="Loading any Intel HEX (data, end, segment and linear address records), Motorola S-record, p2h, asc or Intel OMF file into any memory, with any memory name, offset and "
    "address range specifier, stores exactly the data of its valid records at the addresses the format defines (bytes collected little-endian into wider words, addresses beyond a banked space going to the bank of that number), "
    "changes nothing else, and reports the number of words contained. HEX and S-records with a wrong checksum, length or character are skipped and the next records still load; "
    "whatever the bytes of the file, including an empty, truncated or unterminated one, loading ends without crash or hang. Checking a file changes nothing and reports exactly the cells that differ.",
    over=["inputs"],
    quant="every sequence of up to 4 records (3 in OMF and wide memories) from an alphabet of about 28 valid, special and damaged records per format, three line endings; every truncation and every single-character substitution, deletion, "
    "duplication and insertion of sample files; every combination of memory, offset and range specifiers; memories 8, 14-16, 18 and 32 bits wide",
    why="The test programs are all loaded from undamaged compiler output in one format; records that are damaged, unusual or at the edges never occur in them.",
    files=["src/core/sim.src/uc.cc", "src/core/utils.src/fio.cc", "src/core/utils.src/fuio.cc", "src/core/utils.src/fiocl.h", "src/core/utils.src/chars.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/sim.src/mem.cc"],
    mechanism="cl_uc::read_file(), read_hex_file(), read_s19_file(), read_omf_file(), read_asc_file(), read_p2h_file(), set_rom(), cl_inspec; cl_f::get_c(), get_s(), eof()",
    level="model_checking",
    technique="exhaustive enumeration of record sequences and of all single damages of files, each loaded by the real code and the complete memory compared with an independent reader of the format",
    note="The independent readers are written from the format definitions; a HEX record ends at the first character that is not a hex digit and scanning resumes there. OMF checksums are not verified by the simulator and not damaged here.",
    rule="one case per file (and specifier); distinct when the file contains at least one word that must be stored; transitions are words that must be stored",
    assumptions=["files are regular files", "data bytes of a word which are in the file but not adjacent to each other are not used"],
    harnesses=[dict(name="loader_51", sim="s51", src=["loader.cc"], defs=['-DMC_TYPE="52"']), dict(name="loader_avr", sim="avr", src=["loader.cc"]),
               dict(name="loader_pblaze", sim="pblaze", src=["loader.cc"]), dict(name="loader_p1516", sim="p1516", src=["loader.cc"]),
               dict(name="loader_pdk", sim="pdk", src=["loader.cc"])])

PROPS["C21"] = dict(
    title="Expressions evaluate by the documented rules",
    statement="Every expression, wherever one is accepted, evaluates to the value given by the documented operators with C precedence, associativity and integer arithmetic over its literals, memory cells, bits, bit ranges and variables; "
    "assignments, increments and decrements store exactly the named cell or bits and yield the stored value, operands not selected by && || and ?: have no effect. "
    "Division by zero and malformed text, including unknown names and trailing garbage, are reported as an error, never end the simulator, and do not influence the next expression.",
    over=["inputs"],
    quant="every token sequence up to 4 (thorough 5) tokens from two alphabets of about 30 tokens, with and without blanks; every flat combination of two of 20 binary operators over 10 operand values and of three over 3 (thorough 5); "
    "every assignment and increment operator on 22 kinds of operand, 21 right sides, 6 previous values and 10 surrounding contexts; literals in every radix and character escape; every print format",
    why="The precedence, laziness and bit arithmetic of the grammar show only in particular combinations of operators and operands; no test evaluates any expression.",
    files=["src/core/cmd.src/cmdpars.y", "src/core/cmd.src/cmdlex.l", "src/core/cmd.src/cmdutil.cc", "src/core/utils.src/app.cc", "src/core/cmd.src/newcmd.cc", "src/core/cmd.src/cmd_exec.cc", "src/core/sim.src/uc.cc"],
    mechanism="yyparse(), yylex(), uc_yy_check_id(), cl_app::eval(), proc_escape(), cl_console_base::print_expr_result()",
    level="model_checking",
    technique="exhaustive enumeration of token sequences and operator combinations evaluated by the real scanner and grammar, value and memory compared with an independent recursive-descent evaluator",
    note="Operands are taken left to right and the old value of an assigned cell after its right side. Shift counts outside 0..63, addresses outside the memory, bit numbers outside the cell, address of an anonymous bit and the cell contents after a malformed expression are not specified and not compared.",
    rule="one case per expression text; distinct when it is well formed; transitions are cells the reference changed, traces are well formed expressions",
    assumptions=["numbers of the machine are 64 bits in the evaluator and printed as 32 bits"],
    harnesses=[dict(name="expr_51", sim="s51", src=["expr.cc"])])

PROPS["C14"] = dict(
    title="MCS-51 interrupts are served when and only when the rules allow",
    statement="On an 8052 an interrupt is accepted after an instruction exactly when its request flag, its enable bit and the global enable are set, no service of the same or higher priority is in progress and the instruction was not RETI or "
    "a write of IE or IP; of several requests the higher priority wins, then the documented polling order. "
    "Acceptance pushes the address of the next instruction, continues at the vector and clears exactly the flag of an edge triggered external or of a timer 0/1 interrupt; RETI ends the innermost service only; a level triggered "
    "request follows its pin; acceptance ends idle mode, nothing is accepted in power down mode.",
    over=["histories", "states"],
    quant="every combination of service state (4), 8 request flags, 7 enable bits, 6 priority bits and 9 kinds of instruction (the quick check thins the flags while a service is in progress); every history of up to 4 (thorough 5) steps over 24 "
    "steps (pins, flag, enable and priority writes, RETI, idle) from 48 set-ups",
    why="No test of the repository uses an interrupt of the 8051.",
    files=["src/sims/s51.src/uc51.cc", "src/sims/s51.src/interrupt.cc", "src/sims/s51.src/uc52.cc", "src/sims/s51.src/port.cc", "src/core/sim.src/it.cc"],
    mechanism="cl_51core::do_interrupt(), accept_it(), RETI, cl_interrupt, cl_it_src, it_levels",
    level="model_checking", technique=PER_TECH,
    note="The model is an independent interpreter of the interrupt system and the timers; all special function registers, stack, PC and the elapsed machine cycles are compared. One mechanism per source; serial requests are raised by writing RI and TI.",
    rule="one case per prepared state and step sequence; distinct when an interrupt was accepted in it; transitions are executed instructions",
    assumptions=["EXF2 does not request in the up/down counting mode", "the number of cycles the acceptance takes (1 to 8) is not specified"],
    harnesses=[dict(name="int51", sim="s51", src=["per51.cc"], defs=['-DMC_TYPE="C52"', "-DMC_GROUPS=12"])])

PROPS["C15"] = dict(
    title="MCS-51 timers count exactly",
    statement="In every mode and from every value, timers 0, 1 and 2 of an 8052 advance by one per machine cycle elapsed (or per falling edge of their input pin, whether driven from outside or by a port write) exactly while the run bit and the gate allow, "
    "idle mode included and power down excluded, however many cycles the instructions take. Overflow sets exactly the documented flag and reloads, continues, captures or toggles as the mode says; T2EX edges reload or capture only when enabled; "
    "nothing else changes a timer register.",
    over=["histories", "states"],
    quant="timers 0 and 1: every mode, gate, run bit and pin state with 24 counter values and every history of 2 (thorough 3) of 21 steps; timer 2: every T2CON and T2MOD setting, pin state and 40 counter/reload values with every history of up to 2 of 22 steps",
    why="No test of the repository uses a timer of the 8051.",
    files=["src/sims/s51.src/timer0.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc", "src/sims/s51.src/port.cc", "src/sims/s51.src/uc51.cc", "src/core/sim.src/hw.cc"],
    mechanism="cl_timer0::do_mode0..3(), cl_timer2::do_t2_*(), cl_port::write(), tick_hw(), idle_pd()",
    level="model_checking", technique=PER_TECH,
    note="Timer 1 while timer 0 is in mode 3, the order of an edge and a mode change in the same cycle, and clock output are left out. Instructions of 1, 2 and 4 cycles stand for all others.",
    rule="one case per prepared state and step sequence; all are distinct; transitions are executed instructions",
    assumptions=["edges the selected mode can not count are lost"],
    harnesses=[dict(name="tim51", sim="s51", src=["per51.cc"], defs=['-DMC_TYPE="C52"', "-DMC_GROUPS=3"])])

PROPS["C16"] = dict(
    title="MCS-51 reset forgets the past",
    statement="After the reset of an MCS-51 simulation the processor, its special function registers and all peripherals behave exactly as after the start of the simulator, whatever was executed before: the same following instructions produce the same registers, "
    "memory, interrupts, timer counts, serial output and elapsed cycles. Only internal and external memory, the code memory, the external pins and the power-off flag keep their contents.",
    over=["histories", "states"],
    quant="resets after every scenario of serial port, timers 0-2, watchdog, interrupts in service, PCA, timed access, DPTR selection and power saving cut at every step, after every special function register written with several values, pairs of them, and runs of arbitrary code, "
    "each followed by all scenarios again",
    why="State that survives a reset shows only in the particular continuation that uses it; no test of the repository resets a running program.",
    files=["src/sims/s51.src/uc51.cc", "src/sims/s51.src/serial.cc", "src/sims/s51.src/timer0.cc", "src/sims/s51.src/timer2.cc", "src/sims/s51.src/wdt.cc", "src/sims/s51.src/pca.cc", "src/sims/s51.src/interrupt.cc", "src/sims/s51.src/uc390.cc", "src/sims/s51.src/uc51r.cc", "src/core/sim.src/uc.cc"],
    mechanism="cl_uc::reset(), cl_51core::reset(), cl_hw::reset() of each peripheral, it_levels",
    level="model_checking",
    technique="exhaustive enumeration of histories run on the real simulator, each reset state compared by continuation with a freshly started simulator (bounded bisimulation with the initial state)",
    note="The other processors are excluded: most of their peripherals keep registers over a reset of the processor, which may be intended for external chips.",
    rule="one case per history and continuation; distinct by the complete state before the reset; transitions are executed instructions",
    assumptions=["continuations are the listed scenarios, other differences of state would have to show in a dump of the registers"],
    harnesses=[dict(name="reset51", sim="s51", src=["reset.cc"], defs=['-DMC_S51', '-fno-access-control', '-DMC_MUST="sfr"', '-DMC_MASK=if(c.a==0x87)v&=0xfc;'])])
