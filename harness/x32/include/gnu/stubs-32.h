/* no 32-bit libc here: nothing is a stub */
