"""Inserts calls of the machine-state monitor (rt/state.S) into the compiler's assembly: at every function's entry, before
every return, before and after every call."""
import re

SECTION = re.compile(r"^\s*\.(text|data|bss|rodata|section\s+(\S+))")
LABEL = re.compile(r"^([A-Za-z_$][\w.$]*):")        # not a local (.L) label
RET = re.compile(r"^\s*(rep\s+)?retq?\b")
CALL = re.compile(r"^\s*callq?\s")

CODES = {1: "direction flag set", 2: "x87 registers in use", 3: "function entered with a misaligned stack", 4: "stack pointer not restored",
         5: "rbx not preserved", 6: "rbp not preserved", 7: "r12 not preserved", 8: "r13 not preserved", 9: "r14 not preserved",
         10: "r15 not preserved", 11: "mxcsr control bits changed", 12: "x87 control word changed", 13: "call with a misaligned stack",
         14: "al is no bound of the vector registers used by a variadic call"}


def instrument(text):
    lines = text.split("\n")
    text = True
    out = []
    sites = 0
    for l in lines:
        m = SECTION.match(l)
        if m:
            text = m.group(1) == "text" or (m.group(2) or "").startswith(".text")
        m = LABEL.match(l)
        if not text:
            out.append(l)
            continue
        if RET.match(l):
            out.append("    call __mon_leave")
            sites += 1
        elif CALL.match(l):
            out.append("    call __mon_call")
            out.append(l)
            out.append("    call __mon_after")
            sites += 2
            continue
        out.append(l)
        if m:
            out.append("    call __mon_enter")
            sites += 1
    return "\n".join(out), sites
