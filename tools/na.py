NA = {
 'C26': 'sequential contracts cannot express interleavings; the code uses boost mutexes and non-atomic flags that no deductive verifier available here reasons about (no ownership logic for C++), so nothing in this family decides it',
}
