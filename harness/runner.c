// In-process case runner: reads framed requests on fd 0, runs them against the
// embedding API of the tree under test, and answers on the original fd 1.
// One process runs many cases, each on an interpreter state of its own; the
// Python side notices a death (crash, sanitizer report, hang) as EOF.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "yasl.h"
#include "yasl_aux.h"

// ---------------------------------------------------------------- accounting
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define NO_ACCOUNTING
#endif
#endif

#ifdef NO_ACCOUNTING
#define __real_malloc malloc
#define __real_free free
static long live_blocks;
#else
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

static long live_blocks;
static size_t live_bytes;
static const size_t BYTE_CAP = (size_t)1500 << 20;

static void oom(void) {
	static const char msg[] = "RUNNER: memory cap exceeded\n";
	(void)!write(2, msg, sizeof msg - 1);
	_exit(98);
}

static void account(void *p) {
	if (!p) return;
	live_blocks++;
	live_bytes += malloc_usable_size(p);
	if (live_bytes > BYTE_CAP) oom();
}

static void unaccount(void *p) {
	if (!p) return;
	live_blocks--;
	live_bytes -= malloc_usable_size(p);
}

void *__wrap_malloc(size_t n) {
	if (n > BYTE_CAP) oom();
	void *p = __real_malloc(n);
	account(p);
	return p;
}

void *__wrap_calloc(size_t n, size_t m) {
	void *p = __real_calloc(n, m);
	account(p);
	return p;
}

void *__wrap_realloc(void *q, size_t n) {
	if (n > BYTE_CAP) oom();
	unaccount(q);
	void *p = __real_realloc(q, n);
	account(p);
	return p;
}

void __wrap_free(void *p) {
	unaccount(p);
	__real_free(p);
}

#endif

// ---------------------------------------------------------------- protocol
static int proto_fd = -1;

static void rd(void *buf, size_t n) {
	char *p = (char *)buf;
	while (n) {
		ssize_t k = read(0, p, n);
		if (k == 0) _exit(0);
		if (k < 0) {
			if (errno == EINTR) continue;
			_exit(96);
		}
		p += k;
		n -= (size_t)k;
	}
}

static void wr(const void *buf, size_t n) {
	const char *p = (const char *)buf;
	while (n) {
		ssize_t k = write(proto_fd, p, n);
		if (k < 0) {
			if (errno == EINTR) continue;
			_exit(96);
		}
		p += k;
		n -= (size_t)k;
	}
}

static uint32_t rd32(void) {
	uint32_t x;
	rd(&x, 4);
	return x;
}

#define MAXPARTS 4096 // a step of M_MULTI notes two statuses
static uint32_t nparts;
static char *part[MAXPARTS];
static uint32_t plen[MAXPARTS];

static int32_t st[2 * MAXPARTS];
static uint32_t mark[2 * MAXPARTS], emark[2 * MAXPARTS];
static uint32_t nst;

static void note(int status) {
	fflush(stdout);
	st[nst] = status;
	mark[nst] = (uint32_t)lseek(1, 0, SEEK_CUR);
	emark[nst] = (uint32_t)lseek(2, 0, SEEK_END);
	nst++;
}

static void on_prof(int sig) {
	(void)sig;
	static const char msg[] = "RUNNER: cpu limit\n";
	(void)!write(2, msg, sizeof msg - 1);
	_exit(97);
}

#ifndef CPU_SECONDS
#define CPU_SECONDS 10
#endif

static void arm(int seconds) {
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &it, NULL);
}

#include "apiops.inl"

enum {
	M_EXEC = 0,    // part0: source; delivered from memory
	M_FILE = 1,    // part0: file name
	M_COMPILE = 2, // part0: source, compiled only
	M_HIST = 3,    // parts: sources run one after another on one state (YASL_execute)
	M_REPL = 4,    // parts: lines run one after another on one state (YASL_execute_REPL)
	M_API = 5,     // part0: API operations
	M_TOSTR = 6,   // part0: source; output captured through the capture API
	M_BARE = 7,    // part0: source; no standard libraries declared
	M_COMPILE_FILE = 8,
	M_HISTFILE = 9, // parts: file names run one after another on one state
	M_MULTI = 10,  // parts: steps of several states (see multi)
};

// Several states. Each part is one step: which state ('0'...), what to do, how
// deeply nested ('0'...), and a text.  A step nested deeper than the one before
// it runs when that calls other(), or right after it if it doesn't.  A status of
// -2000 (-2001 in the latter case) notes where a step begins, any other where the
// innermost one ends.
static struct YASL_State *MS[8];
static bool MNEW[8], MCAP[8];
static uint32_t mi;
static char mlevel;

static void multi_steps(char level, int how);

static int multi_other(struct YASL_State *S) {
	(void)S;
	multi_steps(mlevel + 1, -2000);
	return 0;
}

static void multi_step(int how) {
	char *p = part[mi];
	int w = p[0] - '0';
	char op = p[1], level = mlevel;
	char *text = p + 3;
	uint32_t n = plen[mi] - 3;
	int status = 0;
	mi++;
	mlevel = p[2];
	note(how);
	switch (op) {
	case 'n': // a state
	case 'b': // a state without libraries
		MS[w] = YASL_newstate_bb(text, n);
		if (op == 'n') YASLX_decllibs(MS[w]);
		YASL_declglobal(MS[w], "other");
		YASL_pushcfunction(MS[w], multi_other, 0);
		YASL_setglobal(MS[w], "other");
		MNEW[w] = true;
		MCAP[w] = false;
		break;
	case 'x':
	case 'r':
	case 'c':
		if (!MNEW[w]) YASL_resetstate_bb(MS[w], text, n);
		MNEW[w] = false;
		status = op == 'x' ? YASL_execute(MS[w]) : op == 'r' ? YASL_execute_REPL(MS[w]) : YASL_compile(MS[w]);
		break;
	case 'o':
		YASL_setprintout_tostr(MS[w]);
		YASL_setprinterr_tostr(MS[w]);
		MCAP[w] = true;
		break;
	case 'd':
		if (MCAP[w]) {
			YASL_loadprintout(MS[w]);
			char *s = YASL_popcstr(MS[w]);
			fputs(s, stdout);
			free(s);
			YASL_loadprinterr(MS[w]);
			s = YASL_popcstr(MS[w]);
			fputs(s, stderr);
			free(s);
		}
		YASL_delstate(MS[w]);
		MS[w] = NULL;
		break;
	}
	multi_steps(mlevel + 1, -2001); // those it didn't get to
	mlevel = level;
	note(status);
}

static void multi_steps(char level, int how) {
	while (mi < nparts && part[mi][2] >= level) multi_step(how);
}

static void multi(void) {
	mi = 0;
	mlevel = '0' - 1;
	multi_steps('0', -2000);
}

static void run_case(uint32_t mode) {
	struct YASL_State *S = NULL;
	switch (mode) {
	case M_EXEC:
		S = YASL_newstate_bb(part[0], plen[0]);
		YASLX_decllibs(S);
		note(YASL_execute(S));
		YASL_delstate(S);
		break;
	case M_BARE:
		S = YASL_newstate_bb(part[0], plen[0]);
		note(YASL_execute(S));
		YASL_delstate(S);
		break;
	case M_FILE:
		S = YASL_newstate(part[0]);
		if (!S) { note(-1000); break; }
		YASLX_decllibs(S);
		note(YASL_execute(S));
		YASL_delstate(S);
		break;
	case M_COMPILE:
		S = YASL_newstate_bb(part[0], plen[0]);
		YASLX_decllibs(S);
		note(YASL_compile(S));
		YASL_delstate(S);
		break;
	case M_COMPILE_FILE:
		S = YASL_newstate(part[0]);
		if (!S) { note(-1000); break; }
		YASLX_decllibs(S);
		note(YASL_compile(S));
		YASL_delstate(S);
		break;
	case M_HIST:
	case M_REPL:
		S = YASL_newstate_bb(part[0], plen[0]);
		YASLX_decllibs(S);
		for (uint32_t i = 0; i < nparts; i++) {
			if (i) YASL_resetstate_bb(S, part[i], plen[i]);
			note(mode == M_HIST ? YASL_execute(S) : YASL_execute_REPL(S));
		}
		YASL_delstate(S);
		break;
	case M_HISTFILE:
		S = YASL_newstate(part[0]);
		if (!S) { note(-1000); break; }
		YASLX_decllibs(S);
		for (uint32_t i = 0; i < nparts; i++) {
			if (i && YASL_resetstate(S, part[i])) { note(-1001); continue; }
			note(YASL_execute(S));
		}
		YASL_delstate(S);
		break;
	case M_TOSTR: {
		S = YASL_newstate_bb(part[0], plen[0]);
		YASLX_decllibs(S);
		YASL_setprintout_tostr(S);
		YASL_setprinterr_tostr(S);
		int status = YASL_execute(S);
		YASL_loadprintout(S);
		char *out = YASL_popcstr(S);
		fputs(out, stdout);
		free(out);
		YASL_loadprinterr(S);
		char *err = YASL_popcstr(S);
		fputs(err, stderr);
		free(err);
		note(status);
		YASL_delstate(S);
		break;
	}
	case M_MULTI:
		multi();
		break;
	case M_API:
		run_api(part[0], plen[0]);
		break;
	default:
		_exit(95);
	}
}

static int mfd(const char *name) {
	return memfd_create(name, 0);
}

static void send_file(int fd) {
	uint32_t n = (uint32_t)lseek(fd, 0, SEEK_END);
	if (n > (64u << 20)) n = 64u << 20;
	wr(&n, 4);
	char buf[65536];
	uint32_t off = 0;
	while (off < n) {
		size_t want = n - off < sizeof buf ? n - off : sizeof buf;
		ssize_t k = pread(fd, buf, want, off);
		if (k <= 0) _exit(94);
		wr(buf, (size_t)k);
		off += (uint32_t)k;
	}
}

int main(int argc, char **argv) {
	(void)argc;
	(void)argv;
	proto_fd = fcntl(1, F_DUPFD, 100);
	int realerr = fcntl(2, F_DUPFD, 101);
	(void)realerr;
	// Sanitizers write to fd 2 as well; argv[1] names a file for it so a
	// report survives the death of this process.
	int out = mfd("out");
	int err = argc > 1 ? open(argv[1], O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600) : mfd("err");
	if (out < 0 || err < 0) return 93;
	dup2(out, 1);
	dup2(err, 2);
	static char obuf[1 << 16];
	setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
	setvbuf(stderr, NULL, _IONBF, 0);
	fprintf(stdout, "%g", 1.5);
	fflush(stdout);
	signal(SIGPROF, on_prof);
	signal(SIGXFSZ, on_prof);
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = rl.rlim_max = (rlim_t)256 << 20;
	setrlimit(RLIMIT_FSIZE, &rl);
	for (;;) {
		uint32_t mode = rd32();
		nparts = rd32();
		if (nparts > MAXPARTS) _exit(92);
		for (uint32_t i = 0; i < nparts; i++) {
			plen[i] = rd32();
			// exact-size copies, so that reading past the end of a source
			// is an error the sanitizer sees; one NUL for file names only
			bool fname = (mode & 0x100) ? false : mode == M_FILE || mode == M_COMPILE_FILE || mode == M_HISTFILE;
			part[i] = (char *)__real_malloc(plen[i] + (fname ? 1 : 0) + (plen[i] + fname == 0));
			rd(part[i], plen[i]);
			if (fname) part[i][plen[i]] = 0;
		}
		if (mode & 0x200) {
			// in a process that has run nothing else
			pid_t pid = fork();
			if (pid < 0) _exit(91);
			if (pid > 0) {
				int ws = 0;
				while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
				if (WIFSIGNALED(ws)) {
					signal(WTERMSIG(ws), SIG_DFL);
					raise(WTERMSIG(ws));
				}
				if (ws) _exit(WIFEXITED(ws) ? WEXITSTATUS(ws) : 90);
				for (uint32_t i = 0; i < nparts; i++) __real_free(part[i]);
				continue;
			}
		}
		(void)!ftruncate(1, 0);
		(void)!ftruncate(2, 0);
		lseek(1, 0, SEEK_SET);
		nst = 0;
		srand(1);
		long before = live_blocks;
		arm(mode & 0x100 ? 1 : CPU_SECONDS);
		run_case(mode & 0xff);
		arm(0);
		fflush(stdout);
		int64_t leaked = live_blocks - before;
		for (uint32_t i = 0; i < nparts; i++) __real_free(part[i]);
		wr(&nst, 4);
		wr(st, 4 * nst);
		wr(mark, 4 * nst);
		wr(emark, 4 * nst);
		wr(&leaked, 8);
		send_file(1);
		send_file(2);
		if (mode & 0x200) _exit(0);
	}
}
