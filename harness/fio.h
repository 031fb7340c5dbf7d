/* Scratch files in memory (with real descriptors), an independent WAVE parser, and injected file faults. */
#ifndef FIO_H
#define FIO_H
#include "vf.h"
typedef struct { uint8_t *d; size_t n, cap; } Bytes;
void by_add (Bytes *b, const void *p, size_t n);
void by_fill (Bytes *b, Rng *r, size_t n);
void by_free (Bytes *b);
FILE *fio_open (const void *p, size_t n, const char *mode);  /* in-memory file with this content, positioned at 0 */
void fio_read_all (FILE *f, Bytes *out);

typedef struct {
	int ok;                       /* RIFF/WAVE, a format chunk of at least 16 bytes, then a data chunk */
	int format, channels, bits, block; uint32_t rate, byte_rate, riff_size, data_size, fmt_size;
	size_t data_pos, avail;       /* where the frames start, and how many bytes of the data chunk are there */
} WaveInfo;
void wave_parse (const uint8_t *d, size_t n, WaveInfo *w);

/* file faults for the library's own calls: the n-th file operation from now fails; 0 never */
extern long vf_io_fail_at, vf_io_calls, vf_io_failed; extern int vf_io_class, vf_io_once;
void vf_io_reset (void);
#endif
