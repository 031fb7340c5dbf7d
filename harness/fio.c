#define _GNU_SOURCE
#include "fio.h"
#include <sys/mman.h>
#include <unistd.h>
void by_add (Bytes *b, const void *p, size_t n) { if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 64; b->d = realloc (b->d, b->cap); } if (n) memcpy (b->d + b->n, p, n); b->n += n; }
void by_fill (Bytes *b, Rng *r, size_t n) { while (n --) { uint8_t c = vf_next (r) >> 24; by_add (b, &c, 1); } }
void by_free (Bytes *b) { free (b->d); memset (b, 0, sizeof *b); }
enum { IO_READ = 1, IO_WRITE = 2, IO_SEEK = 4 };
FILE *fio_open (const void *p, size_t n, const char *mode)
{
	int fd = memfd_create ("vf", 0); if (fd < 0) vf_harness_error ("memfd_create");
	if (n && pwrite (fd, p, n, 0) != (ssize_t) n) vf_harness_error ("pwrite");
	if (!strcmp (mode, "rb") || !strcmp (mode, "wb")) {   /* descriptor of the wanted access mode */
		char path[64]; snprintf (path, sizeof path, "/proc/self/fd/%d", fd);
		FILE *f = fopen (path, mode[0] == 'r' ? "rb" : "r+b"); close (fd); if (!f) vf_harness_error ("fopen"); return f;
	}
	FILE *f = fdopen (fd, mode); if (!f) vf_harness_error ("fdopen"); return f;
}
void fio_read_all (FILE *f, Bytes *out)
{
	fflush (f); int fd = fileno (f); off_t n = lseek (fd, 0, SEEK_END); out->n = 0;
	if (n > (1 << 28)) vf_harness_error ("file too large"); if (!n) return;
	uint8_t *p = malloc (n); if (pread (fd, p, n, 0) != n) vf_harness_error ("pread"); by_add (out, p, n); free (p);
}
static uint32_t le32 (const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
static int le16 (const uint8_t *p) { return p[0] | p[1] << 8; }
void wave_parse (const uint8_t *d, size_t n, WaveInfo *w)
{
	memset (w, 0, sizeof *w); int fmt = 0; uint64_t p = 12;
	if (n < 12 || memcmp (d, "RIFF", 4) || memcmp (d + 8, "WAVE", 4)) return;
	w->riff_size = le32 (d + 4);
	while (p + 8 <= n) {
		uint32_t sz = le32 (d + p + 4);
		if (!memcmp (d + p, "data", 4)) { w->data_size = sz; w->data_pos = p + 8; w->avail = n - (p + 8) < sz ? n - (p + 8) : sz; w->ok = fmt; return; }
		if (!memcmp (d + p, "fmt ", 4)) {
			if (sz < 16 || p + 24 > n) return;
			w->fmt_size = sz; w->format = le16 (d + p + 8); w->channels = le16 (d + p + 10); w->rate = le32 (d + p + 12); w->byte_rate = le32 (d + p + 16); w->block = le16 (d + p + 20); w->bits = le16 (d + p + 22); fmt = 1;
		}
		p += 8 + (uint64_t) sz + (sz & 1);
	}
}

long vf_io_fail_at, vf_io_calls, vf_io_failed; int vf_io_class, vf_io_once; static int err_flag;
/* a failed operation class keeps failing until the fault is taken back, like a full disk or a broken device does; or fails just once */
static int io_fail (int c)
{
	if (vf_io_class && !(vf_io_class & c)) return 0;
	vf_io_calls ++; if (vf_io_failed && !vf_io_once) { vf_io_failed ++; return 1; }
	if (vf_io_fail_at > 0 && -- vf_io_fail_at == 0) { vf_io_failed ++; return 1; } return 0;
}
void vf_io_reset (void) { vf_io_fail_at = vf_io_calls = vf_io_failed = 0; err_flag = 0; }
size_t vf_fread (void *p, size_t s, size_t n, FILE *f) { if (io_fail (IO_READ)) { int first = vf_io_failed == 1; err_flag = 1; size_t k = first && s * n > 1 ? fread (p, 1, s * n / 2, f) : 0; return s ? k / s : 0; } return fread (p, s, n, f); }
size_t vf_fwrite (const void *p, size_t s, size_t n, FILE *f) { if (io_fail (IO_WRITE)) { size_t k = vf_io_failed == 1 ? n / 2 : 0; err_flag = 1; return k ? fwrite (p, s, k, f) : 0; } return fwrite (p, s, n, f); }
int vf_fseek (FILE *f, long o, int w) { if (io_fail (IO_SEEK)) return -1; return fseek (f, o, w); }
long vf_ftell (FILE *f) { if (io_fail (IO_SEEK)) return -1; return ftell (f); }
int vf_fseeko (FILE *f, off_t o, int w) { if (io_fail (IO_SEEK)) return -1; return fseeko (f, o, w); }
off_t vf_ftello (FILE *f) { if (io_fail (IO_SEEK)) return -1; return ftello (f); }
int vf_fflush (FILE *f) { if (io_fail (IO_WRITE)) { err_flag = 1; return EOF; } return fflush (f); }
int vf_ferror (FILE *f) { return err_flag || ferror (f); }
void vf_clearerr (FILE *f) { err_flag = 0; clearerr (f); }
