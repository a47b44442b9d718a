/* 64-bit targets only: the installed header knows x86 alone */
#define __WORDSIZE 64
#ifdef __x86_64__
# define __WORDSIZE_TIME64_COMPAT32 1
# define __SYSCALL_WORDSIZE 64
#else
# define __WORDSIZE_TIME64_COMPAT32 0
#endif
