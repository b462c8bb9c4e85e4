// for syntax checks with the C library headers of this machine
