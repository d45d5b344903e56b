/* Feeds enumerated instructions to the compiler's assembler (both of its outputs).
   usage: encode text OUT | encode bytes OUT     (requests on stdin)
   A request is one line: MNEMONIC OP... with operands
     rSIZE:REG  sREG  xREG  m:BASE:DISP  i:VALUE
   text: OUT is the assembly file, every instruction after a label-like comment.
   bytes: OUT has a line of hexadecimal per request, "-" if it is rejected. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "assembler/assembler.h"
#include "linker/object.h"

static int parse(char *line, char **mn, struct operand *ops) {
	int n = 0;
	*mn = strtok(line, " \n");
	if (!*mn) return -1;
	for (char *t; (t = strtok(NULL, " \n")) && n < 4; n++) {
		if (t[0] == 'r') {
			int s = t[1] - '0';
			ops[n] = (struct operand) { .type = OPERAND_REG, .reg = { atoi(t + 3), 0, s } };
		} else if (t[0] == 's') {
			ops[n] = R8S(atoi(t + 1));
		} else if (t[0] == 'x') {
			ops[n] = XMM(atoi(t + 1));
		} else if (t[0] == 'm') {
			char *e;
			int b = strtol(t + 2, &e, 10);
			ops[n] = MEM((uint64_t)strtoll(e + 1, NULL, 10), b);
		} else {
			ops[n] = IMM((uint64_t)strtoll(t + 2, NULL, 10));
		}
	}
	return n;
}

static void emit(char *mn, struct operand *ops, int n) {
	struct asm_instruction ins = { .mnemonic = mn };
	for (int i = 0; i < n; i++) ins.ops[i] = ops[i];
	asm_ins(&ins);
}

int main(int argc, char **argv) {
	(void)argc;
	size_t size = 0, cap = 0;
	char **lines = NULL, *l = NULL;
	size_t lc = 0;
	while (getline(&l, &lc, stdin) > 0) {
		if (size == cap) lines = realloc(lines, sizeof *lines * (cap = cap * 2 + 64));
		lines[size++] = strdup(l);
	}
	if (!strcmp(argv[1], "text")) {
		asm_init_text_out(argv[2]);
		asm_section(".text");
		for (size_t i = 0; i < size; i++) {
			struct operand ops[4];
			char *mn;
			int n = parse(lines[i], &mn, ops);
			asm_comment("@%zu", i);
			emit(mn, ops, n);
		}
		asm_finish();
		return 0;
	}
	FILE *out = fopen(argv[2], "w");
	volatile size_t *at = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (*at = 0; *at < size;) {
		fflush(out);
		pid_t p = fork();
		if (!p) {
			if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(9);
			for (size_t i = *at; i < size; i++) {
				struct operand ops[4];
				char *mn;
				int n = parse(lines[i], &mn, ops);
				struct object obj = { 0 };
				asm_reset();
				asm_init_object(&obj);
				asm_section(".text");
				emit(mn, ops, n);
				asm_finish();
				for (unsigned s = 0; s < obj.section_size; s++)
					for (size_t k = 0; k < obj.sections[s].size; k++)
						fprintf(out, "%02x", obj.sections[s].data[k]);
				fprintf(out, "\n");
				fflush(out);
				*at = i + 1;
			}
			_exit(0);
		}
		int st;
		waitpid(p, &st, 0);
		fseek(out, 0, SEEK_END);
		if (*at < size) { fprintf(out, "-\n"); ++*at; }
	}
	fclose(out);
	return 0;
}
