"""Stub modules: everything outside the repository that touches the operating system,
or that Python implements in C and can not handle symbolic values."""
