"""Reasons for properties that are not claimed."""
NA = {
 "P47": "Whole-runtime data-race freedom, deadlock freedom and weak-memory equivalence need symbolic execution of many pthreads over the full heap-backed runtime; CBMC's partial-order encoding does not scale to it and the kernel primitives (futex, condvar) lie outside the C sources. The thread-facing protocols are instead decided one monitor at a time (P20, P21, P32, P35, P39).",
}
DEFAULT_NA = "check not built yet"
