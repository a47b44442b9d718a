/* empty: lets the x86-64 C library headers be parsed for another target (syntax only, nothing is linked) */
