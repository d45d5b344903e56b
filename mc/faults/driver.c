/* driver SCENARIO...: runs a command once without faults, and then once for every
 * (operation, kind of fault), and every pair if asked, and compares the outcome.
 *   driver CTL SHIM BUFSIZE PAIRS OUTS -- cmd...      every fault
 *   driver - - TRUNC FILE OUTS -- cmd...              every prefix of FILE
 * OUTS: comma separated files, '1' is standard output.
 * Prints: V <what>  for violations, and  S runs ops fired failed same. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ctl.h"

static struct ctl *c;
static char **cmd, *outs[16];
static int n_outs;
static char *base[16]; static long basen[16];
static long runs, fired, failed, same, viol, ops;

static char *slurp(const char *p, long *n) {
	*n = -1;
	FILE *f = fopen(p, "rb");
	if (!f) return NULL;
	fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f);
	char *b = malloc(*n + 1);
	if (fread(b, 1, *n, f) != (size_t)*n) exit(98);
	b[*n] = 0;
	fclose(f);
	return b;
}

static const char *file(int i) { return strcmp(outs[i], "1") ? outs[i] : "stdout.txt"; }

/* -> exit status, or -signal */
static int run(void) {
	for (int i = 0; i < n_outs; i++) unlink(file(i));
	unlink("stdout.txt"); unlink("stderr.txt");
	runs++;
	pid_t p = fork();
	if (!p) {
		int o = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0666), e = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0666), z = open("/dev/null", O_RDONLY);
		dup2(z, 0); dup2(o, 1); dup2(e, 2);
		struct rlimit cpu = { 20, 20 }, core = { 0, 0 }, as = { 4ul << 30, 4ul << 30 };
		setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_CORE, &core); setrlimit(RLIMIT_AS, &as);
		alarm(200);
		if (c) { setenv("LD_PRELOAD", getenv("FAULT_SHIM"), 1); }
		execv(cmd[0], cmd);
		_exit(97);
	}
	int st;
	waitpid(p, &st, 0);
	return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

static int outputs_same(int *which) {
	for (int i = 0; i < n_outs; i++) {
		long n; char *b = slurp(file(i), &n);
		int eq = n == basen[i] && (n < 0 || !memcmp(b, base[i], n));
		free(b);
		if (!eq) { *which = i; return 0; }
	}
	return 1;
}

static const char *opn[] = { "open", "read", "write", "seek", "close", "write to standard output" };
static const char *kn[] = { "none", "EACCES", "EMFILE", "ENOSPC at open", "EIO", "early end of file", "short", "ENOSPC once", "ENOSPC from then on", "torn, then ENOSPC", "torn once", "EIO at close" };
static const int kinds[][8] = {
	{ F_EACCES, F_EMFILE, F_ENOSPC_OPEN }, { F_EIO, F_EOF, F_SHORT }, { F_ENOSPC_ONCE, F_ENOSPC, F_TORN, F_TORN_ONCE }, { F_EIO }, { F_CLOSE }, { F_ENOSPC_ONCE, F_ENOSPC, F_TORN, F_TORN_ONCE } };

static void judge(const char *what, int st, int must_succeed, int quiet) {
	int w = 0;
	if (st > 0 && st < 97) {
		failed++;
		long a, b; free(slurp("stderr.txt", &a)); free(slurp("stdout.txt", &b));
		if (must_succeed) { printf("V %s: fails with status %d, though nothing was lost\n", what, st); viol++; }
		else if (a <= 0 && b <= 0 && !quiet) { printf("V %s: fails with status %d and says nothing\n", what, st); viol++; }
	} else if (st) {
		printf("V %s: killed by signal %d\n", what, -st); viol++;
	} else if (!outputs_same(&w)) {
		printf("V %s: exit status 0, but %s is not what it should be\n", what, outs[w]); viol++;
	} else same++;
}

int main(int argc, char **argv) {
	int sep = 0;
	for (int i = 1; i < argc && !sep; i++) if (!strcmp(argv[i], "--")) sep = i;
	if (sep != 6) return 96;
	cmd = argv + sep + 1;
	for (char *t = strtok(argv[5], ","); t; t = strtok(NULL, ",")) outs[n_outs++] = t;
	int trunc_mode = !strcmp(argv[1], "-");
	char what[300];

	if (!trunc_mode) {
		int fd = open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0666);
		if (ftruncate(fd, sizeof *c)) return 96;
		c = mmap(NULL, sizeof *c, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		setenv("FAULT_CTL", argv[1], 1);
		setenv("FAULT_SHIM", argv[2], 1);
		c->bufsize = atol(argv[3]);
		c->at[0] = c->at[1] = -1;
	}
	int st = run();
	if (st) { printf("V without any fault: status %d\n", st); return 0; }
	for (int i = 0; i < n_outs; i++) {
		base[i] = slurp(file(i), &basen[i]);
		if (basen[i] <= 0) { printf("V without any fault: no output %s\n", outs[i]); return 0; }
	}
	if (trunc_mode) {
		long n; char *b = slurp(argv[4], &n);
		for (long k = n - 1; k >= 0 && viol < 20; k--) {
			FILE *f = fopen(argv[4], "wb");
			fwrite(b, 1, k, f); fclose(f);
			fired++;
			snprintf(what, sizeof what, "%s cut to %ld of %ld bytes", argv[4], k, n);
			judge(what, run(), 0, 0);
		}
		FILE *f = fopen(argv[4], "wb");
		fwrite(b, 1, n, f); fclose(f);
		ops = n;
	} else {
		if (c->n > MAXOPS) return 95;
		ops = c->n;
		unsigned char *op = malloc(ops);
		memcpy(op, c->op, ops);
		int pairs = atoi(argv[4]);
		long stride = 1;
		for (long k = 0; k < ops; k += stride) for (int j = 0; j < 8 && kinds[op[k]][j] && viol < 20; j++) {
			c->at[0] = k; c->kind[0] = kinds[op[k]][j]; c->at[1] = -1;
			int soft = c->kind[0] == F_SHORT;
			int s = run();
			fired += c->fired;
			snprintf(what, sizeof what, "operation %ld (%s) of %ld: %s", k, opn[op[k]], ops, kn[c->kind[0]]);
			if (c->fired != 1) { printf("E fault not injected: %s\n", what); continue; }
			judge(what, s, soft, op[k] == OP_STDOUT);
			if (!pairs || s) continue;
			/* The run went on: every second fault after this one. */
			long n2 = c->n; unsigned char *op2 = malloc(n2); memcpy(op2, c->op, n2);
			int k0 = c->kind[0];
			for (long m = k + 1; m < n2; m++) for (int q = 0; q < 8 && kinds[op2[m]][q] && viol < 20; q++) {
				c->at[0] = k; c->kind[0] = k0; c->at[1] = m; c->kind[1] = kinds[op2[m]][q];
				int s2 = run();
				fired += c->fired;
				char w2[400];
				snprintf(w2, sizeof w2, "%s; operation %ld (%s): %s", what, m, opn[op2[m]], kn[c->kind[1]]);
				judge(w2, s2, soft && c->kind[1] == F_SHORT, op[k] == OP_STDOUT || op2[m] == OP_STDOUT);
			}
			free(op2);
		}
	}
	printf("S %ld %ld %ld %ld %ld\n", runs, ops, fired, failed, same);
	return 0;
}
