"""What the driver needs to know about the properties."""
import os

VERIF = os.path.dirname(os.path.abspath(__file__))
CONCURRENT = {"C19", "C20"}
COUNTED = {"C28"}
SMALL_INT = {"C29"}
COLLECTED = {"C30"}

COMMON_ASSUMPTIONS = [
    "the Go toolchain and runtime are correct",
    "values outside the stated bounds behave like the ones inside (small scope)",
]
ASSUMPTIONS = {}


def known_findings(prop):
    """The findings listed as known: lines 'finding: property=<id> <what fails>'."""
    out = set()
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            head = "finding: property=%s " % prop
            if line.startswith(head):
                out.add(line[len(head):])
    return out

_ENUM = "explicit-state exhaustive enumeration of bounded inputs and histories on the real code, against a set/map model"
_NOTE = ("Every case within the stated bounds is executed on the real code and compared with an independent reference model; "
         "nothing is sampled. Assumes behaviour beyond the bounds follows the same structural cases.")
_SCHED = ("stateless model checking of the real code: every schedule up to a preemption bound under a controlled scheduler, "
          "linearizability against a reference model, race detector on every schedule")
_SCHED_NOTE = ("Every schedule within the preemption bound of every enumerated program of two or three threads is executed on instrumented "
               "copies of the current sources. Assumes the stated bounds are representative and that only statements touching shared memory "
               "need scheduling points (races elsewhere are caught by the race detector).")
CLAIMED = {"C%02d" % i: (_ENUM, _NOTE) for i in range(1, 34)}
CLAIMED["C27"] = ("stateless fault exploration of the real code: a fault injected at every call of caller code of every operation on every bounded state, checked against a set/map model", _NOTE)
CLAIMED["C28"] = ("explicit-state exhaustive enumeration of bounded inputs on the real code, instrumented to count its steps, against bounds in the size of the operands", _NOTE)
CLAIMED["C29"] = ("explicit-state exhaustive enumeration of bounded inputs and histories on the real code built for a 32-bit platform, against a set/map model", _NOTE)
CLAIMED["C30"] = ("explicit-state exhaustive enumeration of bounded histories on the real code with a garbage collection at every step, against a set/map model", _NOTE)
CLAIMED["C31"] = ("explicit-state exhaustive enumeration of bounded nestings of operations on the real code, against the operations run alone", _NOTE)
CLAIMED["C32"] = ("explicit-state exhaustive enumeration of bounded waits of code of the caller for other goroutines, on the real code, against the operations run alone", _NOTE)
CLAIMED["C33"] = ("explicit-state exhaustive enumeration of bounded contents and of the histories that lead to them, on the real code, each compared with the others and with another run of the program", _NOTE)
CLAIMED.update({p: (_SCHED, _SCHED_NOTE) for p in CONCURRENT})
