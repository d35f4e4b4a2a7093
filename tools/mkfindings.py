#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the findings recorded (status "known") and the defects repaired (status "fixed")."""
import json, os, subprocess

FIXED = """
C03 4154264 a step that raised an exception made the build hang for ever
C10 179c40d a routine or updatable target could not be updated on a core without a thread count (KeyError)
C19 b734ba2 a command writing much text to standard error blocked the build; output that is not UTF-8 broke it
C09 7cac490 looking a target up by another spelling pinned the name to that target, so a later declaration was ignored
C11 87ec11f only the first word after an action reached it, as a list of characters
C03 999230e the command line exited with status 0 after a failed build
C05 9c551ad a file target depending on a routine or updatable target could not be built
C11 7cd9cbb routines had no action of their own name on the command line
C20 9776031 a directory created by someone else between planning and its step failed the build
C08 7543f0b copy and clean left file names with special characters unquoted: other files were deleted or created
C17 e1ddf65 'licant-libs --remove' removed nothing and failed
C17 10107b5 'licant-libs' without arguments ended with a traceback
C12 f42223c header names with spaces, '#', '$' or colons were misread from dependency files
C18 90ed1bb install_application without a target name returned a file set that did not exist
C18 1c35bc8 the uninstall target removed nothing
C18 6881ff3 with PREFIX unset and /usr/bin in PATH the install module could not be imported (path undefined)
C11 e925223 printing the WrongAction error raised another error
C06 90a6861 the update condition of a shared dependency was evaluated more than once and a second answer could win
C10 40db082 the arguments of a routine were kept for later requests
C02 d004323 '-j 0' hung for ever
C09 6de985c MakeCore.source did not recognise a target spelled with '~' and declared a second one
C15 2fbffc7 objects of submodules nested in submodules were not linked
C14 3bcbca9 an included module that includes others by plain name was rejected
C14 a54955f include paths added while preparing a submodule leaked to its siblings
C13 eeea3c7 two modules depending on each other by explicit implementation were rejected
C09 3846aa1 naming one dependency twice (also by two spellings) made the scheduler refuse the build
C07 1475c63 an interrupt arriving inside a step left the build hanging
C09 4f4acab MakeCore created the directory of the path as spelled, not of the file it denotes
C12 7324371 after a failed compilation the header list of the failed attempt was taken for that of a successful one
C15 a2f30b6 sources differing only in their extension shared one object file
C15 ead3c5d modules included by a product were compiled and linked again by each of its submodules
C15 e9dbe99 a library submodule made the build of its product end with an error
C15 cc09ca4 an absolute source with '..' or '//' in its path got an object outside the build directory or a second one
C15 cda93be sources differing only in '..', '__' or a leading slash shared one object file
C16 684b80c execute_recursive with hide= skipped everything when the path above the root matched
C17 da2e4c4 a directory whose name contains '[' could not be registered
C17 075b6be a local tunnel into the current directory could not be created
C18 2ce0519 installing the same headers to two places: the second install replaced the first one's header set
C15 2a7176d a source, Qt header or object named twice in a product (overlapping patterns, a module included on two ways) was linked twice
C02 91e80a5 with more threads requested than the event loop's default executor has (12 on 8 processors), ready steps did not start
C11 63429c0 a second ex() in one process ignored its argv and repeated the words of the first
C21 134a03d included_from named the product as the requester of every module chosen by default, and left out requesters of modules already chosen
C21 54db4c8 cxxm finalopts ended with AttributeError for applications and libraries
C22 e783ed3 binutils disasm crashed: its first word was taken for the core, and the options were looked for in the wrong place
C23 ec23eb0 the list of targets of a core, which the README prints, was an AttributeError
C03 d6ed0ae a step ending with StopIteration, GeneratorExit or CancelledError hung the build; exit() in a step ended the process without waiting for the others
C03 ba39a9f do() dropped the result of the build: a script could not notice a failure
C16 3d98ec8 a script beginning with 'from licant import *' failed on four names that do not exist
C16 7a86525 a nested script defining a name like open or os (from os import *) broke the execution of further scripts
C14 b89a90a a submodule lost its local headers when another implementation of its name, or another product using it, was declared later
C15 a4b082b a submodule of two others was linked twice (multiple definitions)
"""
KNOWN = [
    ("C01", "deep-chain", "a chain of 2000 dependent file targets ends with RecursionError before the first step: the dependency walks of "
     "licant/core.py and licant/solver.py recurse once or twice per level (chains of 150 are checked to work)"),
    ("C14", "shared-source", "two products p0 and p1 with the build directory build_0 both name same.c but different defines: they share "
     "the object build_0/same.c.o, compiled once with the options of the product declared last"),
]

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h"], stdout=subprocess.PIPE, text=True).stdout.split()
out = []
for l in FIXED.strip().split("\n"):
    p, c, what = l.split(" ", 2)
    if len(log) > 5 and not any(h.startswith(c) or c.startswith(h) for h in log):
        raise SystemExit("no such commit: " + l)
    out.append({"property": p, "status": "fixed", "signature": "", "what": "fixed: property=%s %s %s" % (p, c, what)})
for p, sig, what in KNOWN:
    out.append({"property": p, "status": "known", "signature": sig, "what": what})
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
print(len(out), "entries")
