#include "vf.h"
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <errno.h>

static uint64_t mix64 (uint64_t z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
uint64_t vf_next (Rng *r) { r->s += 0x9e3779b97f4a7c15ULL; return mix64 (r->s); }
uint64_t rn (Rng *r, uint64_t n) { return n ? vf_next (r) % n : 0; }
int64_t rr (Rng *r, int64_t lo, int64_t hi) { return lo + (int64_t) rn (r, (uint64_t) (hi - lo) + 1); }
int chance (Rng *r, int percent) { return (int) rn (r, 100) < percent; }
int32_t rint32 (Rng *r)
{
	static const int32_t c[] = {0, 1, -1, 2, -2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 4096, 32766, 32767, 32768, 65535, 65536,
		-32767, -32768, -32769, -65536, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 1 << 20, -(1 << 20), 96 << 20, 95 << 20, 1 << 24, 1 << 28, -(1 << 28), 1 << 12};
	switch (rn (r, 4)) {
		case 0: return PICK (r, c);
		case 1: return (int32_t) rr (r, -300, 300);
		case 2: return (int32_t) (PICK (r, c) + (uint32_t) rr (r, -3, 3));
		default: { int sh = (int) rn (r, 32); return (int32_t) ((int32_t) vf_next (r) >> sh); }
	}
}
uint64_t vf_hash (uint64_t h, const void *p, size_t n) { const uint8_t *b = p; for (size_t i = 0; i < n; i ++) h = (h ^ b[i]) * 0x100000001b3ULL; return h; }
uint64_t vf_mix (uint64_t h, uint64_t v) { return mix64 (h ^ (v + 0x9e3779b97f4a7c15ULL + (h << 6))); }

int vf_verbose;
static FILE *out;
static long cur_case; static int case_fails, total_fails;
static const char *prop_name;
void vf_fail (const char *key, const char *fmt, ...)
{
	va_list ap; case_fails ++; total_fails ++;
	if (case_fails > 3 || total_fails > 200) return;
	fprintf (out, "V\t%ld\t%s\t", cur_case, key);
	va_start (ap, fmt); vfprintf (out, fmt, ap); va_end (ap);
	fputc ('\n', out); fflush (out);
}
int vf_failed (void) { return case_fails; }
void vf_harness_error (const char *fmt, ...)
{
	va_list ap; fprintf (stderr, "HARNESS ERROR: "); va_start (ap, fmt); vfprintf (stderr, fmt, ap); va_end (ap); fputc ('\n', stderr);
	_exit (70);
}
#define MAXC 256
static struct { char name[64]; uint64_t n; } counters[MAXC]; static int ncounters;
void vf_count (const char *c, uint64_t n)
{
	for (int i = 0; i < ncounters; i ++) if (!strcmp (counters[i].name, c)) { counters[i].n += n; return; }
	if (ncounters < MAXC) { snprintf (counters[ncounters].name, 64, "%s", c); counters[ncounters ++].n = n; }
}
#define NSIG (1 << 20)
static uint64_t *sigs; static long nsigs;
void vf_sig (uint64_t h)
{
	if (!h) h = 1;
	if (!sigs) sigs = calloc (NSIG, 8);
	uint64_t i = mix64 (h) & (NSIG - 1);
	for (int k = 0; k < 64; k ++, i = (i + 1) & (NSIG - 1)) { if (sigs[i] == h) return; if (!sigs[i]) { if (nsigs > NSIG / 2) return; sigs[i] = h; nsigs ++; return; } }
}
static int nsamples;
void vf_sample (const char *fmt, ...)
{
	va_list ap; if (nsamples ++ >= 3) return;
	fprintf (out, "S\t"); va_start (ap, fmt); vfprintf (out, fmt, ap); va_end (ap); fputc ('\n', out);
}
void fr_add (Frames *f, const BKFrame *p, size_t n)
{
	if (f->n + n > f->cap) { f->cap = (f->n + n) * 2 + 64; f->d = realloc (f->d, f->cap * sizeof (BKFrame)); }
	if (n) memcpy (f->d + f->n, p, n * sizeof (BKFrame));
	f->n += n;
}
void fr_free (Frames *f) { free (f->d); memset (f, 0, sizeof *f); }

/* ---- allocation monitor ---- */
/* Every block gets a 16 byte header outside what the library sees (still covered by the sanitizer's red zones
   because the user part ends at the block's end). */
long vf_live_blocks, vf_live_bytes, vf_alloc_calls, vf_alloc_failed, vf_fail_at; int vf_fill = -1;
void vf_alloc_case_reset (void) { vf_live_blocks = vf_live_bytes = vf_alloc_calls = vf_alloc_failed = vf_fail_at = 0; vf_fill = -1; }
#if VF_THREADS
/* thread sanitizer build: no accounting (it would add synchronisation and hide races) */
void *vf_malloc (size_t n) { return malloc (n); }
void *vf_calloc (size_t a, size_t b) { return calloc (a, b); }
void *vf_realloc (void *p, size_t n) { return realloc (p, n); }
void vf_free (void *p) { free (p); }
#else
#include <malloc.h>
static int fail_now (void) { vf_alloc_calls ++; if (vf_fail_at > 0 && -- vf_fail_at == 0) { vf_alloc_failed ++; return 1; } return 0; }
static size_t usable (void *p) { return malloc_usable_size (p); }
void *vf_malloc (size_t n)
{
	if (fail_now ()) return NULL;
	if (n > ((size_t) 1 << 28) || vf_live_bytes > 1L << 30) { vf_alloc_failed ++; return NULL; }
	void *p = malloc (n); if (!p) return NULL;
	if (vf_fill >= 0) memset (p, vf_fill, n);
	vf_live_blocks ++; vf_live_bytes += usable (p); TRACE ("ALLOC %p %zu\n", p, usable (p)); return p;
}
void *vf_calloc (size_t a, size_t b)
{
	if (fail_now ()) return NULL;
	if ((b && a > ((size_t) 1 << 28) / b) || vf_live_bytes > 1L << 30) { vf_alloc_failed ++; return NULL; }
	void *p = calloc (a, b); if (!p) return NULL;
	vf_live_blocks ++; vf_live_bytes += usable (p); TRACE ("ALLOC %p %zu\n", p, usable (p)); return p;
}
void vf_free (void *p) { if (p) { TRACE ("FREE %p\n", p); vf_live_blocks --; vf_live_bytes -= usable (p); } free (p); }
void *vf_realloc (void *p, size_t n)
{
	if (p == NULL) return vf_malloc (n);
	if (n == 0) { vf_free (p); return NULL; }
	if (fail_now ()) return NULL;
	if (n > ((size_t) 1 << 28) || vf_live_bytes > 1L << 30) { vf_alloc_failed ++; return NULL; }
	size_t old = usable (p);
	void *q = malloc (n); if (!q) return NULL;       /* always moves: exposes stale pointers */
	if (vf_fill >= 0) memset (q, vf_fill, n);
	memcpy (q, p, old < n ? old : n); TRACE ("FREE %p\nALLOC %p %zu\n", p, q, n); free (p);
	vf_live_bytes += (long) usable (q) - (long) old; return q;
}
#endif

static struct { const char *name; CaseFn fn; } props[64]; static int nprops;
void vf_register (const char *name, CaseFn fn) { props[nprops].name = name; props[nprops ++].fn = fn; }

static int prog_fd = -1;
static void on_prof (int s) { (void) s; if (prog_fd >= 0) { char b[64]; int n = snprintf (b, 64, "%-20ld H\n", cur_case); if (pwrite (prog_fd, b, n, 0)) {} } _exit (71); }

int main (int argc, char **argv)
{
	if (argc < 6) { fprintf (stderr, "usage: %s prop seed first count outbase [verbose]\n", argv[0]); return 64; }
	prop_name = argv[1]; uint64_t seed = strtoull (argv[2], 0, 10); long first = atol (argv[3]), count = atol (argv[4]);
	char path[4096]; vf_verbose = argc > 6;
	CaseFn fn = NULL; for (int i = 0; i < nprops; i ++) if (!strcmp (props[i].name, prop_name)) fn = props[i].fn;
	if (!fn) { fprintf (stderr, "no such property %s\n", prop_name); return 64; }
	snprintf (path, sizeof path, "%s.out", argv[5]); out = fopen (path, "w"); if (!out) return 70;
	snprintf (path, sizeof path, "%s.prog", argv[5]); prog_fd = open (path, O_CREAT | O_TRUNC | O_RDWR, 0644); if (prog_fd < 0) return 70;
	long cpu = 30; const char *e = getenv ("VF_CASE_CPU"); if (e) cpu = atol (e);
	signal (SIGPROF, on_prof);
	for (long c = first; c < first + count; c ++) {
		cur_case = c; case_fails = 0;
		char b[64]; int n = snprintf (b, 64, "%-20ld R\n", c); if (pwrite (prog_fd, b, n, 0) != n) return 70;
		struct itimerval it = {{0, 0}, {cpu, 0}}; setitimer (ITIMER_PROF, &it, NULL);
		vf_alloc_case_reset ();
		uint64_t h = 0xcbf29ce484222325ULL; h = vf_hash (h, prop_name, strlen (prop_name)); h = vf_mix (h, seed); h = vf_mix (h, (uint64_t) c);
		Rng r = {h}; fn (&r);
		vf_count ("cases", 1);
	}
	struct itimerval it = {{0, 0}, {0, 0}}; setitimer (ITIMER_PROF, &it, NULL);
	for (int i = 0; i < ncounters; i ++) fprintf (out, "C\t%s\t%llu\n", counters[i].name, (unsigned long long) counters[i].n);
	for (long i = 0; sigs && i < NSIG; i ++) if (sigs[i]) fprintf (out, "D\t%llx\n", (unsigned long long) sigs[i]);
	fprintf (out, "E\t%ld\n", count); fclose (out);
	return 0;
}
