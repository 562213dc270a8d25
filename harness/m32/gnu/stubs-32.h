/* the 32-bit C library is not installed: see mini.c */
