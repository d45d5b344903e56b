/* Shared between the driver and the shim: which fault to inject, and what happened. */
enum { OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_STDOUT };
enum { F_NONE, F_EACCES, F_EMFILE, F_ENOSPC_OPEN, F_EIO, F_EOF, F_SHORT, F_ENOSPC_ONCE, F_ENOSPC, F_TORN, F_TORN_ONCE, F_CLOSE, F_N };
#define MAXOPS 400000
struct ctl {
	long bufsize;            /* of every stream; 0 unbuffered, -1 as the C library has it */
	long at[2];              /* operations that fail, -1: none */
	int kind[2];
	long n;                  /* operations seen */
	long fired;              /* faults injected */
	unsigned char op[MAXOPS];
};
