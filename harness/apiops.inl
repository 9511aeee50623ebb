// M_API: a little language of embedding API calls. part0 is text: blocks
// ("B k") of lines "op arg arg". Block 0 is the host; block k > 0 is the body
// of host function k. Everything each call returns is logged on stdout, on
// lines that start with '@'. Strings are in hex ('-' when empty).
#include <math.h>

#define API_BLOCKS 16
#define API_UDS 512
struct api_op { char *name, *a, *b, *c; };
static struct api_op *api_block[API_BLOCKS];
static int api_len[API_BLOCKS];

static const char *const API_LITS[] = { "", "a", "lit", "another literal", "__get", "x" };
static const char API_TAG_A[] = "tag", API_TAG_B[] = "tag";
struct api_ud { int id; char pad[20]; };
static int api_made[API_UDS], api_gone[API_UDS], api_uds;
static char api_ptrs[64];

static void api_free(void *p) {
	struct api_ud *u = (struct api_ud *)p;
	api_gone[u->id]++;
	free(u);
}

static void api_logdtors(const char *what) {
	printf("@%s", what);
	for (int i = 0; i < api_uds; i++) if (api_gone[i]) printf(" %d:%d", i, api_gone[i]);
	printf("\n");
}

static char *unhex(const char *s, size_t *len) {
	if (*s == '-') { *len = 0; return (char *)calloc(1, 1); }
	size_t n = strlen(s) / 2;
	char *r = (char *)malloc(n + 1);
	for (size_t i = 0; i < n; i++) {
		unsigned x;
		sscanf(s + 2 * i, "%2x", &x);
		r[i] = (char)x;
	}
	r[n] = 0;
	*len = n;
	return r;
}

static void hexout(FILE *f, const char *s, size_t n) {
	if (!n) fputc('-', f);
	for (size_t i = 0; i < n; i++) fprintf(f, "%02x", (unsigned char)s[i]);
}

static void floatout(FILE *f, double d) {
	uint64_t u;
	if (d != d) { fputs("nan", f); return; }
	memcpy(&u, &d, 8);
	fprintf(f, "%016llx", (unsigned long long)u);
}

static int cmpstr(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }

// What is on top of the stack, read through the API (which is left as it was).
static void api_show(struct YASL_State *S, FILE *f, int depth) {
	if (depth > 8) { fputs("..", f); return; }
	if (YASL_isundef(S)) fputs("undef", f);
	else if (YASL_isint(S)) fprintf(f, "%lld", (long long)YASL_peekint(S));
	else if (YASL_isbool(S)) fputs(YASL_peekbool(S) ? "true" : "false", f);
	else if (YASL_isfloat(S)) { fputc('F', f); floatout(f, YASL_peekfloat(S)); }
	else if (YASL_isstr(S)) {
		// the length, as the str may hold NULs
		char *s = YASL_peekcstr(S);
		YASL_duptop(S);
		YASL_len(S);
		size_t n = (size_t)YASL_popint(S);
		fputc('\'', f);
		hexout(f, s, n);
		free(s);
	} else if (YASL_islist(S)) {
		YASL_duptop(S);
		YASL_len(S);
		long long n = YASL_popint(S);
		fputc('[', f);
		for (long long i = 0; i < n; i++) {
			if (i) fputc(',', f);
			fprintf(f, "%s", YASL_listget(S, i) ? "!" : "");
			api_show(S, f, depth + 1);
			YASL_pop(S);
		}
		fputc(']', f);
	} else if (YASL_istable(S)) {
		char **ents = NULL;
		size_t n = 0;
		YASL_pushundef(S);
		while (YASL_tablenext(S)) {
			char *v, *k;
			size_t z;
			FILE *m = open_memstream(&v, &z);
			api_show(S, m, depth + 1);
			fclose(m);
			YASL_pop(S);
			m = open_memstream(&k, &z);
			api_show(S, m, depth + 1);
			fputc(':', m);
			fputs(v, m);
			fclose(m);
			__real_free(v);  // not from our malloc
			ents = (char **)realloc(ents, (n + 1) * sizeof *ents);
			ents[n++] = k;
		}
		qsort(ents, n, sizeof *ents, cmpstr);
		fputc('{', f);
		for (size_t i = 0; i < n; i++) {
			fprintf(f, "%s%s", i ? "," : "", ents[i]);
			__real_free(ents[i]);
		}
		free(ents);
		fputc('}', f);
	} else if (YASL_isuserdata(S, API_TAG_A) || YASL_isuserdata(S, API_TAG_B)) {
		fprintf(f, "U%d", ((struct api_ud *)YASL_peekuserdata(S))->id);
	} else if (YASL_isuserptr(S)) {
		fprintf(f, "P%d", (int)((char *)YASL_peekuserptr(S) - api_ptrs));
	} else {
		fprintf(f, "<%s>", YASL_peektypename(S));
	}
}

static void api_bits(const bool *b, int n) {
	for (int i = 0; i < n; i++) putchar(b[i] ? '1' : '0');
}

static void api_look(struct YASL_State *S) {
	printf("@look %d %s ", YASL_peektype(S), YASL_peektypename(S));
	bool b[10] = { YASL_isundef(S), YASL_isbool(S), YASL_isint(S), YASL_isfloat(S), YASL_isstr(S), YASL_islist(S),
	               YASL_istable(S), YASL_isuserdata(S, API_TAG_A), YASL_isuserdata(S, API_TAG_B), YASL_isuserptr(S) };
	api_bits(b, 10);
	printf(" %lld ", (long long)YASL_peekint(S));
	floatout(stdout, YASL_peekfloat(S));
	printf(" %d ", YASL_peekbool(S));
	char *s = YASL_peekcstr(S);
	if (s) hexout(stdout, s, strlen(s)); else printf("NULL");
	free(s);
	if (b[7] || b[8]) printf(" %d", ((struct api_ud *)YASL_peekuserdata(S))->id);
	else if (!b[5] && !b[6] && YASL_peekuserdata(S)) printf(" ?");
	if (b[9]) printf(" %d", (int)((char *)YASL_peekuserptr(S) - api_ptrs));
	else if (YASL_peekuserptr(S)) printf(" ??");
	printf("\n");
}

// not in the header, but exported
int YASL_peekntype(struct YASL_State *S, unsigned n);

static void api_nlook(struct YASL_State *S, unsigned n) {
	printf("@nlook %s ", YASL_peekntypename(S, n));
	bool b[10] = { YASL_isnundef(S, n), YASL_isnbool(S, n), YASL_isnint(S, n), YASL_isnfloat(S, n), YASL_isnstr(S, n),
	               YASL_isnlist(S, n), YASL_isntable(S, n), YASL_isnuserdata(S, API_TAG_A, n),
	               YASL_isnuserdata(S, API_TAG_B, n), YASL_isnuserptr(S, n) };
	api_bits(b, 10);
	printf(" %lld ", (long long)YASL_peeknint(S, n));
	floatout(stdout, YASL_peeknfloat(S, n));
	printf(" %d", YASL_peeknbool(S, n));
	if (b[7] || b[8]) printf(" %d", ((struct api_ud *)YASL_peeknuserdata(S, n))->id);
	else if (!b[5] && !b[6] && YASL_peeknuserdata(S, n)) printf(" ?");
	printf("\n");
}

static int run_block(struct YASL_State *S, int k);
#define HOSTFN(k) static int host##k(struct YASL_State *S) { return run_block(S, k); }
HOSTFN(1) HOSTFN(2) HOSTFN(3) HOSTFN(4) HOSTFN(5) HOSTFN(6) HOSTFN(7) HOSTFN(8)
HOSTFN(9) HOSTFN(10) HOSTFN(11) HOSTFN(12) HOSTFN(13) HOSTFN(14) HOSTFN(15)
static const YASL_cfn HOSTFNS[] = { NULL, host1, host2, host3, host4, host5, host6, host7, host8,
	host9, host10, host11, host12, host13, host14, host15 };

static struct YASL_State *api_S;
static char *api_src[256];
static int api_nsrc;

#define OP(s) else if (!strcmp(o->name, s))

static int run_block(struct YASL_State *S, int k) {
	for (int i = 0; i < api_len[k]; i++) {
		const struct api_op *o = api_block[k] + i;
		size_t n;
		if (!strcmp(o->name, "undef")) YASL_pushundef(S);
		OP("int") YASL_pushint(S, strtoll(o->a, NULL, 10));
		OP("float") {
			uint64_t u = strtoull(o->a, NULL, 16);
			double d;
			memcpy(&d, &u, 8);
			YASL_pushfloat(S, d);
		}
		OP("bool") YASL_pushbool(S, *o->a == '1');
		OP("lit") YASL_pushlit(S, API_LITS[atoi(o->a)]);
		OP("zstr") {
			char *s = unhex(o->a, &n);
			YASL_pushzstr(S, s);
			memset(s, '?', n);
			free(s);
		}
		OP("lstr") {
			char *s = unhex(o->a, &n);
			YASL_pushlstr(S, s, n);
			memset(s, '?', n);
			free(s);
		}
		OP("ud") {
			struct api_ud *u = (struct api_ud *)malloc(sizeof *u);
			int id = api_uds < API_UDS - 1 ? api_uds++ : API_UDS - 1;
			u->id = id;
			api_made[id]++;
			YASL_pushuserdata(S, u, *o->a == 'A' ? API_TAG_A : API_TAG_B, api_free);
		}
		OP("uptr") YASL_pushuserptr(S, api_ptrs + atoi(o->a));
		OP("cfn") YASL_pushcfunction(S, HOSTFNS[atoi(o->a)], atoi(o->b));
		OP("list") YASL_pushlist(S);
		OP("table") YASL_pushtable(S);
		OP("pop") YASL_pop(S);
		OP("dup") printf("@dup %d\n", YASL_duptop(S));
		OP("popint") printf("@popint %lld\n", (long long)YASL_popint(S));
		OP("popfloat") { double d = YASL_popfloat(S); printf("@popfloat "); floatout(stdout, d); printf("\n"); }
		OP("popbool") printf("@popbool %d\n", YASL_popbool(S));
		OP("popcstr") {
			char *s = YASL_popcstr(S);
			printf("@popcstr ");
			if (s) hexout(stdout, s, strlen(s)); else printf("NULL");
			printf("\n");
			free(s);
		}
		OP("popud") printf("@popud %d\n", ((struct api_ud *)YASL_popuserdata(S))->id);
		OP("popuptr") printf("@popuptr %d\n", (int)((char *)YASL_popuserptr(S) - api_ptrs));
		OP("look") api_look(S);
		OP("nlook") api_nlook(S, (unsigned)atoi(o->a));
		OP("show") { printf("@show "); api_show(S, stdout, 0); printf("\n"); }
		OP("decl") { char *s = unhex(o->a, &n); printf("@decl %d\n", YASL_declglobal(S, s)); memset(s, '?', n); free(s); }
		OP("setg") { char *s = unhex(o->a, &n); printf("@setg %d\n", YASL_setglobal(S, s)); memset(s, '?', n); free(s); }
		OP("initg") { char *s = unhex(o->a, &n); YASLX_initglobal(S, s); memset(s, '?', n); free(s); }
		OP("loadg") { char *s = unhex(o->a, &n); printf("@loadg %d\n", YASL_loadglobal(S, s)); memset(s, '?', n); free(s); }
		OP("regmt") { char *s = unhex(o->a, &n); printf("@regmt %d\n", YASL_registermt(S, s)); memset(s, '?', n); free(s); }
		OP("loadmt") { char *s = unhex(o->a, &n); printf("@loadmt %d\n", YASL_loadmt(S, s)); memset(s, '?', n); free(s); }
		OP("setmt") printf("@setmt %d\n", YASL_setmt(S));
		OP("tset") printf("@tset %d\n", YASL_tableset(S));
		OP("tnext") printf("@tnext %d\n", YASL_tablenext(S));
		OP("len") YASL_len(S);
		OP("lget") printf("@lget %d\n", YASL_listget(S, strtoll(o->a, NULL, 10)));
		OP("lpush") printf("@lpush %d\n", YASL_listpush(S));
		OP("call") { int r = YASL_functioncall(S, atoi(o->a)); printf("@call %d\n", r); }
		OP("vargs") printf("@vargs %lld\n", (long long)YASL_peekvargscount(S));
		OP("err") { char *s = unhex(o->a, &n); YASL_print_err(S, "%s", s); free(s); }
		OP("throw") YASL_throw_err(S, atoi(o->a));
		OP("badarg") YASLX_print_err_bad_arg_type(S, "f", atoi(o->a), "x", "y");
		OP("chkint") printf("@chkint %lld\n", (long long)YASLX_checknint(S, "f", (unsigned)atoi(o->a)));
		OP("chkfloat") { double d = YASLX_checknfloat(S, "f", (unsigned)atoi(o->a)); printf("@chkfloat "); floatout(stdout, d); printf("\n"); }
		OP("chkbool") printf("@chkbool %d\n", YASLX_checknbool(S, "f", (unsigned)atoi(o->a)));
		OP("chkundef") { YASLX_checknundef(S, "f", (unsigned)atoi(o->a)); printf("@chkundef\n"); }
		OP("chkud") printf("@chkud %d\n", ((struct api_ud *)YASLX_checknuserdata(S, *o->b == 'A' ? API_TAG_A : API_TAG_B, "f", (unsigned)atoi(o->a)))->id);
		OP("log") printf("@log %s\n", o->a);
		OP("dtors") api_logdtors("dtors");
		OP("ret") return atoi(o->a);
		// host only
		OP("src") {
			char *s = unhex(o->a, &n);
			// exactly as long as it says
			char *t = (char *)malloc(n ? n : 1);
			memcpy(t, s, n);
			free(s);
			api_src[api_nsrc++ & 255] = t;
			YASL_resetstate_bb(S, t, n);
		}
		OP("exec") { int r = YASL_execute(S); printf("@exec %d\n", r); }
		OP("repl") { int r = YASL_execute_REPL(S); printf("@repl %d\n", r); }
		OP("compile") { int r = YASL_compile(S); printf("@compile %d\n", r); }
		OP("libs") YASLX_decllibs(S);
		OP("capout") YASL_setprintout_tostr(S);
		OP("caperr") YASL_setprinterr_tostr(S);
		OP("loadout") YASL_loadprintout(S);
		OP("loaderr") YASL_loadprinterr(S);
		else { fprintf(stderr, "api: bad op %s\n", o->name); _exit(91); }
	}
	return 0;
}

static void run_api(const char *p, uint32_t n) {
	char *text = (char *)malloc(n + 1);
	memcpy(text, p, n);
	text[n] = 0;
	int k = 0;
	memset(api_len, 0, sizeof api_len);
	memset(api_gone, 0, sizeof api_gone);
	memset(api_made, 0, sizeof api_made);
	api_uds = api_nsrc = 0;
	char *save = NULL;
	for (char *line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
		if (line[0] == 'B') { k = atoi(line + 2); continue; }
		char *s2 = NULL;
		struct api_op o;
		o.name = strtok_r(line, " ", &s2);
		o.a = strtok_r(NULL, " ", &s2);
		o.b = strtok_r(NULL, " ", &s2);
		o.c = strtok_r(NULL, " ", &s2);
		api_block[k] = (struct api_op *)realloc(api_block[k], (api_len[k] + 1) * sizeof o);
		api_block[k][api_len[k]++] = o;
	}
	api_S = YASL_newstate_bb("", 0);
	run_block(api_S, 0);
	YASL_delstate(api_S);
	api_logdtors("end");
	for (int i = 0; i < api_nsrc && i < 256; i++) free(api_src[i]);
	for (int i = 0; i < API_BLOCKS; i++) { free(api_block[i]); api_block[i] = NULL; }
	free(text);
	note(0);
}
