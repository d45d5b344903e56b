/* batch CC EXT WORKERS DIR PACK RESULT [ARGS...]: runs a compiler on every record of PACK (4-byte length, bytes).
   ARGS follow the program's name; @in and @out stand for the input and the output file (default: @in -c -o @out).
   For every record i one line "i status outputexists messages" in RESULT.k; status = exit code, 1000+signal,
   2000 = out of time. */
#define _GNU_SOURCE
#include <stdio.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/stat.h>
int main(int argc, char **argv) {
	char *cc = argv[1], *ext = argv[2], *dir = argv[4];
	int w = atoi(argv[3]);
	int fd = open(argv[5], O_RDONLY);
	struct stat st;
	fstat(fd, &st);
	unsigned char *p = mmap(0, st.st_size + 1, PROT_READ, MAP_PRIVATE, fd, 0);
	for (int k = 0; k < w; k++) {
		if (fork()) continue;
		char in[4096], out[4096], msg[4096], res[4096];
		snprintf(in, 4096, "%s/i%d.%s", dir, k, ext);
		snprintf(out, 4096, "%s/o%d.o", dir, k);
		snprintf(msg, 4096, "%s/m%d", dir, k);
		snprintf(res, 4096, "%s.%d", argv[6], k);
		FILE *r = fopen(res, "w");
		long i = 0;
		for (long off = 0; off < st.st_size; i++) {
			unsigned n;
			memcpy(&n, p + off, 4);
			off += 4;
			if (i % w == k) {
				int f = open(in, O_WRONLY | O_CREAT | O_TRUNC, 0644);
				if (write(f, p + off, n) != (long)n) _exit(3);
				close(f);
				unlink(out);
				pid_t c = vfork();
				if (!c) {
					struct rlimit l = {10, 10}, m = {3UL << 30, 3UL << 30}, z = {0, 0}, s = {64 << 20, 64 << 20};
					setrlimit(RLIMIT_CPU, &l);
					setrlimit(RLIMIT_AS, &m);
					setrlimit(RLIMIT_CORE, &z);
					setrlimit(RLIMIT_FSIZE, &s);
					int e = open(msg, O_WRONLY | O_CREAT | O_TRUNC, 0644);
					dup2(e, 1);
					dup2(e, 2);
					int nul = open("/dev/null", O_RDONLY);
					dup2(nul, 0);
					char *a[40] = {cc};
					char *std[] = {"@in", "-c", "-o", "@out"};
					char **args = argc > 7 ? argv + 7 : std;
					int j = 1, na = argc > 7 ? argc - 7 : 4;
					for (int q = 0; q < na && j < 39; q++)
						a[j++] = !strcmp(args[q], "@in") ? in : !strcmp(args[q], "@out") ? out : args[q];
					a[j] = 0;
					execv(cc, a);
					_exit(127);
				}
				int s;
				waitpid(c, &s, 0);
				int v = WIFEXITED(s) ? WEXITSTATUS(s) : WTERMSIG(s) == SIGXCPU || WTERMSIG(s) == SIGKILL ? 2000 : 1000 + WTERMSIG(s);
				char big[16384] = {0}, m[500] = {0};
				int e = open(msg, O_RDONLY);
				int mn = e >= 0 ? read(e, big, sizeof big - 1) : 0;
				char *from = mn > 0 ? strstr(big, "error: ") : 0;
				if (!from) from = big;
				mn = strlen(from);
				if (mn > 400) mn = 400;
				memcpy(m, from, mn);
				close(e);
				for (int q = 0; q < mn; q++) if (m[q] == '\n' || !m[q]) m[q] = ' ';
				fprintf(r, "%ld %d %d %s\n", i, v, access(out, F_OK) == 0, m);
			}
			off += n;
		}
		fclose(r);
		_exit(0);
	}
	int s, bad = 0;
	while (wait(&s) > 0) if (s) bad = 1;
	return bad;
}
