/* D02: valid WAVE files are read exactly.  D03: written WAVE files are valid and read back.  M04: hostile WAVE files. */
#include "fio.h"
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"

typedef struct { int channels, bits; uint32_t rate; size_t nframes; BKFrame *fr; } Content;   /* nframes per channel */
static void put32 (Bytes *b, uint32_t v) { uint8_t p[4] = {v, v >> 8, v >> 16, v >> 24}; by_add (b, p, 4); }
static void put16 (Bytes *b, unsigned v) { uint8_t p[2] = {v, v >> 8}; by_add (b, p, 2); }
static void set32 (Bytes *b, size_t at, uint32_t v) { uint8_t p[4] = {v, v >> 8, v >> 16, v >> 24}; memcpy (b->d + at, p, 4); }
static const uint32_t rates[] = {1, 7, 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000, 0x10000, 0x12345678, 0x7fffffff};
static void content_make (Content *c, Rng *r)
{
	c->channels = chance (r, 70) ? (int) rr (r, 1, 3) : chance (r, 90) ? (int) rr (r, 1, 20) : (int) rr (r, 1, 65535);
	c->bits = chance (r, 50) ? 8 : 16; c->rate = PICK (r, rates);
	size_t max = c->channels > 20 ? 2 : chance (r, 10) ? 3000 : 600;
	static const size_t nice[] = {0, 1, 2, 3, 255, 256, 257, 340, 341, 342, 511, 512, 513};
	c->nframes = chance (r, 30) ? PICK (r, nice) : rn (r, 400) == 0 && c->channels <= 20 ? rr (r, 30000, 140000) / c->channels : rn (r, max + 1); if (c->channels > 20 && c->nframes > 3) c->nframes = 3;
	size_t n = c->nframes * c->channels; c->fr = malloc ((n + 1) * sizeof (BKFrame));
	int style = (int) rn (r, 3);
	for (size_t i = 0; i < n; i ++) { int v = style == 0 ? (int16_t) vf_next (r) : style == 1 ? (int) (i * 257) : (int[]) {-32768, -32767, -1, 0, 1, 32767, 255, 256, -256, -255}[rn (r, 10)]; c->fr[i] = (BKFrame) v; }
	if (c->bits == 8) for (size_t i = 0; i < n; i ++) c->fr[i] = (BKFrame) (c->fr[i] & ~255);
}
static void chunk (Bytes *b, Rng *r, const char *id, size_t n) { by_add (b, id, 4); put32 (b, n); by_fill (b, r, n); if (n & 1) by_fill (b, r, 1); }
static void extra (Bytes *b, Rng *r, int percent)
{
	static const char *ids[] = {"LIST", "fact", "cue ", "JUNK", "bext", "id3 ", "DATA", "Fmt ", "dat ", "\0\0\0\0"};
	while (chance (r, percent)) chunk (b, r, PICK (r, ids), chance (r, 15) ? rn (r, 5000) : rn (r, 40));
}
/* a valid file; returns position of interesting fields for mutations */
static void wave_make (Bytes *b, Rng *r, const Content *c, size_t at[8])
{
	size_t base = b->n, bytes = c->bits / 8, n = c->nframes * c->channels; int percent = chance (r, 50) ? 30 : 0;
	by_add (b, "RIFF", 4); put32 (b, 0); by_add (b, "WAVE", 4); at[0] = b->n;
	extra (b, r, percent); at[1] = b->n;
	static const int sizes[] = {16, 16, 16, 18, 40, 17, 21, 100}; int fs = PICK (r, sizes);
	by_add (b, "fmt ", 4); put32 (b, fs); put16 (b, 1); put16 (b, c->channels); put32 (b, c->rate); put32 (b, c->rate * c->channels * bytes); put16 (b, c->channels * bytes); put16 (b, c->bits);
	by_fill (b, r, fs - 16); if (fs & 1) by_fill (b, r, 1);
	extra (b, r, percent); at[2] = b->n;
	by_add (b, "data", 4); put32 (b, n * bytes); at[3] = b->n;
	for (size_t i = 0; i < n; i ++) { if (bytes == 1) { uint8_t v = (c->fr[i] >> 8) + 128; by_add (b, &v, 1); } else put16 (b, (uint16_t) c->fr[i]); }
	at[4] = b->n;
	if (n * bytes & 1) by_fill (b, r, 1);
	if (n) extra (b, r, percent);     /* a chunk size of zero means everything that follows */
	set32 (b, base + 4, b->n - base - 8);
}
/* read with the reader and check against expectation; expected == NULL: only the contract */
static int read_check (FILE *f, long off, const WaveInfo *w, const uint8_t *d, const char *key, int must)
{
	BKWaveFileReader rd; BKInt ch = -7, rate = -7, nf = -7, res; memset (&rd, 0xA5, sizeof rd);
	if (fseek (f, off, SEEK_SET)) vf_harness_error ("seek");
	res = BKWaveFileReaderInit (&rd, f); CHECK_RETV (res == 0, 0, key, "reader refused a readable file: %d", res);
	res = BKWaveFileReaderReadHeader (&rd, &ch, &rate, &nf);
	if (res != 0) {
		CHECK (res < 0, key, "header error reported as %d", res);
		CHECK (must <= 0, key, "valid file rejected (%d): %d channels, rate %u, %d bits, %u bytes", res, w->channels, w->rate, w->bits, w->data_size);
		BKDispose (&rd); vf_count ("rejected", 1); return 0;
	}
	CHECK_RETV (must >= 0, 0, key, "file in an unsupported format accepted: %d channels, rate %d, %d frames", ch, rate, nf);
	vf_count ("accepted", 1);
	int ok = 1;
	#define REQ(c, ...) do { if (!(c)) { vf_fail (key, __VA_ARGS__); ok = 0; } } while (0)
	REQ (ch > 0 && rate > 0 && nf >= 0, "accepted with %d channels, rate %d, %d frames", ch, rate, nf);
	if (ok && w->ok) {
		size_t size = w->data_size ? w->data_size : w->avail; int bytes = w->bits / 8;
		REQ (ch == w->channels && (uint32_t) rate == w->rate, "%d channels at rate %d read, file has %d at %u", ch, rate, w->channels, w->rate);
		if (bytes == 1 || bytes == 2) REQ ((size_t) nf == size / bytes / w->channels, "%d frames read, file has %zu", nf, size / bytes / w->channels);
	}
	size_t n = (size_t) nf * ch;
	if (ok && n <= (1 << 24)) {
		BKInt ch2 = 0, rate2 = 0, nf2 = 0; if (n & 1) { res = BKWaveFileReaderReadHeader (&rd, &ch2, &rate2, &nf2); REQ (res == 0 && ch2 == ch && rate2 == rate && nf2 == nf, "header differs when read again: %d %d %d", ch2, rate2, nf2); }
		BKFrame *fr = malloc (n * sizeof *fr + 1); res = BKWaveFileReaderReadFrames (&rd, fr);
		if (must) REQ (res == 0, "reading frames of a valid file failed: %d", res);
		if (res == 0) {
			uint64_t h = vf_hash (1, fr, n * sizeof *fr); vf_count ("frames", n); if (h == 42) vf_count ("h", 1);    /* uses every frame: uninitialised ones are reported */
			if (ok && w->ok && (w->bits == 8 || w->bits == 16)) for (size_t i = 0; i < n; i ++) {
				int bytes = w->bits / 8, v = 0; if ((i + 1) * bytes <= w->avail) v = bytes == 1 ? (d[w->data_pos + i] - 128) * 256 : (int16_t) (d[w->data_pos + 2 * i] | d[w->data_pos + 2 * i + 1] << 8); else vf_count ("silent_frames", 1);
				if (fr[i] != v) { REQ (0, "frame %zu of %zu is %d, file has %d", i, n, fr[i], v); break; }
			}
		}
		free (fr);
	}
	BKDispose (&rd); return ok;
}
/* load into a data object having previous content */
static void load_check (FILE *f, long off, const WaveInfo *w, const uint8_t *d, const char *key, int must, Rng *r)
{
	BKData data; BKInt v = 0, res; BKFrame old[64]; int had = chance (r, 60);
	for (int i = 0; i < 64; i ++) old[i] = (BKFrame) (i * 37);
	if (BKDataInit (&data)) vf_harness_error ("data"); if (had) BKDataSetFrames (&data, old, 64, 1, 1);
	if (fseek (f, off, SEEK_SET)) vf_harness_error ("seek");
	res = BKDataLoadWAVE (&data, f);
	BKInt nf = -1, ch = -1; BKGetAttr (&data, BK_NUM_FRAMES, &nf); BKGetAttr (&data, BK_NUM_CHANNELS, &ch);
	if (res != 0) {
		CHECK (res < 0, key, "load error reported as %d", res); CHECK (must <= 0, key, "loading valid file failed: %d", res);
		CHECK (nf == (had ? 64 : 0) && (!had || (ch == 1 && !memcmp (data.frames, old, sizeof old))), key, "failed load changed the previous content: %d frames, %d channels", nf, ch);
		vf_count ("load_rejected", 1);
	} else {
		if (must < 0) { vf_fail (key, "file in an unsupported format loaded: %d channels, %d frames", ch, nf); BKDispose (&data); return; }
		vf_count ("load_accepted", 1); size_t n = (size_t) nf * ch; int bytes = w->bits / 8;
		CHECK (nf > 0 && ch > 0, key, "loaded with %d channels, %d frames", ch, nf);
		if (w->ok && (bytes == 1 || bytes == 2)) {
			size_t size = w->data_size ? w->data_size : w->avail;
			CHECK (ch == w->channels && (size_t) nf == size / bytes / w->channels && (uint32_t) data.sampleRate == w->rate, key, "loaded %d frames of %d channels at %d, file has %zu of %d at %u", nf, ch, data.sampleRate, size / bytes / w->channels, w->channels, w->rate);
		}
		uint64_t h = vf_hash (1, data.frames, n * sizeof (BKFrame)); if (h == 42) vf_count ("h", 1);
		if (!vf_failed () && w->ok) for (size_t i = 0; i < n; i ++) {
			int x = 0; if ((i + 1) * bytes <= w->avail) x = bytes == 1 ? (d[w->data_pos + i] - 128) * 256 : (int16_t) (d[w->data_pos + 2 * i] | d[w->data_pos + 2 * i + 1] << 8);
			if (data.frames[i] != x) { vf_fail (key, "loaded frame %zu of %zu is %d, file has %d", i, n, data.frames[i], x); break; }
		}
	}
	/* still usable */
	BKSetAttr (&data, BK_SAMPLE_PITCH, 1 << 20); BKGetAttr (&data, BK_SAMPLE_PITCH, &v); CHECK (v == 1 << 20, key, "data unusable after load");
	res = BKDataSetFrames (&data, old, 32, 2, 1); CHECK (res == 0 && !memcmp (data.frames, old, sizeof old), key, "data unusable after load: %d", res);
	BKDispose (&data); CHECK (vf_live_blocks == 0, key, "%ld blocks leaked", vf_live_blocks);
}
VF_PROP (D02)
{
	Content c; Bytes b = {0}; size_t at[8], off = chance (r, 40) ? rn (r, 3000) : 0; WaveInfo w;
	by_fill (&b, r, off); content_make (&c, r); wave_make (&b, r, &c, at);
	wave_parse (b.d + off, b.n - off, &w);
	if (!w.ok || w.channels != c.channels || w.bits != c.bits || w.rate != c.rate || w.data_pos + off != at[3] || w.avail != w.data_size) vf_harness_error ("generated file");
	if (chance (r, 6)) {     /* otherwise valid, but neither PCM nor of 8 or 16 bits */
		static const int formats[] = {0, 2, 3, 6, 7, 0x11, 0x55, 0x101, 0x100, 0xFFFE, 0xFFFF}, bits[] = {0, 1, 4, 7, 9, 12, 15, 17, 20, 24, 32, 64, 0x110, 0x108};
		int what = (int) rn (r, 2), v = what ? PICK (r, bits) : PICK (r, formats); size_t p = at[1] + (what ? 22 : 8); b.d[p] = v; b.d[p + 1] = v >> 8;
		FILE *f = fio_open (b.d, b.n, "rb"); read_check (f, off, &w, b.d + off, "unsupported", -1); load_check (f, off, &w, b.d + off, "unsupported", -1, r);
		vf_sig (vf_mix (what, v)); vf_count ("unsupported", 1); fclose (f); free (c.fr); by_free (&b); return;
	}
	FILE *f = fio_open (b.d, b.n, chance (r, 50) ? "rb" : "r+b");
	read_check (f, off, &w, b.d + off, "read", 1); if (c.nframes) load_check (f, off, &w, b.d + off, "load", 1, r);
	if (chance (r, 20)) read_check (f, off, &w, b.d + off, "reread", 1);
	vf_sig (vf_mix (vf_mix (vf_mix (c.bits, c.channels), c.nframes), vf_mix (w.fmt_size, vf_mix (w.data_pos, off != 0))));
	vf_count ("files", 1); fclose (f); free (c.fr); by_free (&b);
}
VF_PROP (M04)
{
	Content c; Bytes b = {0}; size_t at[8] = {0}, off = chance (r, 15) ? rn (r, 100) : 0; WaveInfo w; int nmut = 0; uint64_t how = 0;
	by_fill (&b, r, off);
	if (chance (r, 3)) { by_fill (&b, r, rn (r, 200)); how = 1; }
	else {
		do { if (how) { free (c.fr); } content_make (&c, r); how = 2; } while (c.nframes * c.channels > 20000 && chance (r, 90));
		wave_make (&b, r, &c, at); free (c.fr); nmut = (int) rn (r, chance (r, 20) ? 12 : 4);
		static const uint32_t iv[] = {0, 1, 2, 3, 7, 15, 16, 17, 18, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xfffffff0, 100000};
		for (int k = 0; k < nmut; k ++) {
			int m = (int) rn (r, 9); size_t p; how = vf_mix (how, m); if (b.n <= off + 12) break;
			switch (m) {
				case 0: b.n = off + rn (r, b.n - off); break;                                        /* truncate */
				case 1: { size_t lo = at[chance (r, 70) ? 3 : 2]; if (lo < b.n) b.n = lo + rn (r, b.n - lo); break; }   /* truncate within the data */
				case 2: p = at[2] + 4; if (p + 4 <= b.n) set32 (&b, p, chance (r, 50) ? PICK (r, iv) : (uint32_t) rn (r, 3000)); break;    /* data size */
				case 3: p = at[1] + 4; if (p + 4 <= b.n) set32 (&b, p, PICK (r, iv)); break;          /* format chunk size */
				case 4: p = at[1] + 8 + rn (r, 8) * 2; if (p + 2 <= b.n) { uint32_t v = PICK (r, iv); b.d[p] = v; b.d[p + 1] = v >> (chance (r, 50) ? 8 : 24); how = vf_mix (how, p - at[1]); } break;    /* format fields */
				case 5: p = off + rn (r, b.n - off); b.d[p] = vf_next (r) >> 20; break;
				case 6: p = off + rn (r, at[3] > off && at[3] < b.n ? at[3] - off : b.n - off); b.d[p] ^= 1 << rn (r, 8); break;
				case 7: { /* move or repeat a stretch of the header */ size_t from = off + rn (r, b.n - off), to = off + rn (r, b.n - off), n = rn (r, 40); if (from + n <= b.n && to + n <= b.n) memmove (b.d + to, b.d + from, n); break; }
				case 8: { Bytes t = {0}; Content c2; size_t at2[8]; content_make (&c2, r); if (c2.nframes * c2.channels < 20000) { wave_make (&t, r, &c2, at2); size_t a = rn (r, at2[3] + 1), z = rr (r, a, t.n); by_add (&b, t.d + a, z - a); } free (c2.fr); by_free (&t); break; }
			}
		}
	}
	/* exact-size copy of what the file holds */
	size_t n = b.n - off; uint8_t *d = malloc (n + 1); memcpy (d, b.d + off, n); wave_parse (d, n, &w);
	FILE *f = fio_open (b.d, b.n, chance (r, 50) ? "rb" : "r+b");
	/* an empty data chunk stands for everything that follows */
	if (w.ok && !w.data_size) w.avail = n - w.data_pos;
	vf_fill = chance (r, 50) ? 0xA5 : -1;
	read_check (f, off, &w, d, "reader", 0);
	if (w.data_size <= (1 << 22) || chance (r, 5)) load_check (f, off, &w, d, "loader", 0, r);
	vf_sig (vf_mix (how, vf_mix (w.ok, vf_mix (w.avail < w.data_size, nmut))));
	vf_count ("files", 1); fclose (f); free (d); by_free (&b);
}
VF_PROP (D03)
{
	Content c; Bytes out = {0}; WaveInfo w; uint64_t how = 0; BKInt res = 0;
	do { content_make (&c, r); if (c.rate > 192000 || c.channels > 255) { free (c.fr); c.fr = NULL; } } while (!c.fr);
	int bits = chance (r, 10) ? 0 : c.bits, bytes = bits == 8 ? 1 : 2; size_t n = c.nframes * c.channels;
	if (bits == 8) for (size_t i = 0; i < n; i ++) c.fr[i] = (BKFrame) (c.fr[i] | (vf_next (r) & 255));   /* lower bits are lost */
	size_t off = chance (r, 50) ? rn (r, 500) : 0; Bytes pre = {0}; by_fill (&pre, r, off);
	/* the file may already hold more than what is written */
	size_t tail = chance (r, 30) ? rn (r, chance (r, 50) ? 200 : 60 + n * 3) : 0, pad = n * bytes & 1, total = off + 44 + n * bytes + pad; by_fill (&pre, r, tail); if (total < pre.n) total = pre.n;
	FILE *f = fio_open (pre.d, pre.n, !tail && chance (r, 50) ? "wb" : "r+b"); if (fseek (f, off, SEEK_SET)) vf_harness_error ("seek");
	size_t pos = 0; int appended = 0;
	if (chance (r, 20) && c.nframes >= 2) {   /* whole data object */
		BKData data; BKDataInit (&data); BKDataSetFrames (&data, c.fr, c.nframes, c.channels, chance (r, 50)); if (c.channels > BK_MAX_CHANNELS) { BKDispose (&data); goto out; }
		res = BKWaveFileWriteData (f, &data, c.rate, bits); CHECK (res == 0, "write", "BKWaveFileWriteData: %d", res); CHECK (!memcmp (data.frames, c.fr, n * sizeof (BKFrame)), "write", "writing changed the data");
		BKDispose (&data); how = 1; pos = n;
	} else {
		BKWaveFileWriter wr; memset (&wr, 0xA5, sizeof wr);
		if (chance (r, 10)) {   /* refused: neither the writer nor the file is touched */
			int odd[] = {1, 4, 7, 9, 12, 15, 17, 24, 32, 64, -1, -8, -16, BK_INT_MAX}; BKWaveFileWriter bad; memset (&bad, 0, sizeof bad); int nb = odd[rn (r, 14)];
			res = BKWaveFileWriterInit (&bad, f, c.channels, c.rate, nb); CHECK (res < 0, "refuse", "a file of %d bits is accepted: %d", nb, res); vf_count ("refused", 1);
			CHECK (ftell (f) == (long) off, "refuse", "a refused writer moved the file position to %ld", ftell (f)); if (!res) BKDispose (&bad);
			if (chance (r, 50)) { FILE *g = fio_open (pre.d, pre.n, "rb"); memset (&bad, 0, sizeof bad); res = BKWaveFileWriterInit (&bad, g, c.channels, c.rate, bits); CHECK (res < 0, "refuse", "a file open for reading only is accepted: %d", res); if (!res) BKDispose (&bad);
				Bytes o2 = {0}; fio_read_all (g, &o2); CHECK (o2.n == pre.n && (!o2.n || !memcmp (o2.d, pre.d, o2.n)), "refuse", "a file open for reading only was changed"); by_free (&o2); fclose (g); }
		}
		res = BKWaveFileWriterInit (&wr, f, c.channels, c.rate, bits); CHECK (res == 0, "write", "BKWaveFileWriterInit: %d", res);
		if (res) goto out;
		int terms = 0, step = (int) rr (r, 1, 3000);
		while (pos < n || chance (r, 20)) {
			size_t k = chance (r, 15) ? 0 : chance (r, 40) ? rn (r, n - pos + 1) : rr (r, 1, step); if (k > n - pos) k = n - pos;
			if (chance (r, 5)) { long at = ftell (f); res = BKWaveFileWriterAppendFrames (&wr, c.fr, -(int) rr (r, 1, chance (r, 50) ? 10 : 2000000000)); CHECK (res < 0, "refuse", "a negative number of frames is accepted: %d", res); CHECK (ftell (f) == at, "refuse", "a refused append wrote to the file"); }
			BKFrame *copy = malloc (k * sizeof *copy + !k); memcpy (copy, c.fr + pos, k * sizeof *copy);
			res = BKWaveFileWriterAppendFrames (&wr, copy, k); CHECK (res == 0, "write", "append %zu frames: %d", k, res); free (copy); pos += k; appended ++;
			if (chance (r, 10)) { res = BKWaveFileWriterTerminate (&wr); CHECK (res == 0, "write", "terminate: %d", res); terms ++;
				if (chance (r, 50)) goto check_part;   /* the file is complete now */
				continue;
				check_part: fio_read_all (f, &out); size_t part = 44 + pos * bytes + (pos * bytes & 1); if (part > out.n - off) part = out.n - off; wave_parse (out.d + off, part, &w);
				CHECK (w.ok && w.data_size == pos * bytes && w.avail == pos * bytes && w.riff_size == part - 8 && w.data_pos + pos * bytes <= part, "partial", "terminated after %zu values: data size %u, RIFF size %u, file %zu bytes", pos, w.data_size, w.riff_size, out.n - off);
				CHECK (out.n < pre.n || off + part >= pre.n || !memcmp (out.d + off + part, pre.d + off + part, pre.n - off - part), "after", "bytes after the %zu values were changed", pos);
			}
		}
		if (chance (r, 70)) { res = BKWaveFileWriterTerminate (&wr); CHECK (res == 0, "write", "terminate: %d", res); if (chance (r, 15)) BKWaveFileWriterTerminate (&wr); how = vf_mix (how, 2); }
		BKDispose (&wr); how = vf_mix (how, vf_mix (terms, appended));
	}
	fio_read_all (f, &out);
	CHECK (out.n >= off && (!off || !memcmp (out.d, pre.d, off)), "before", "bytes before the start position were changed");
	if (out.n >= off) {
		const uint8_t *d = out.d + off; size_t want = 44 + n * bytes + pad, len = tail && out.n - off > want ? want : out.n - off; wave_parse (d, len, &w);
		CHECK (out.n == total, "size", "file of %zu bytes, expected %zu", out.n, total);
		CHECK (out.n < total || off + want >= pre.n || !memcmp (d + want, pre.d + off + want, pre.n - off - want), "after", "bytes after the written file were changed");
		CHECK (w.ok, "format", "not a WAVE file (%zu bytes)", len);
		if (w.ok) {
			CHECK (w.format == 1 && w.fmt_size >= 16 && w.channels == c.channels && w.rate == c.rate && w.bits == bytes * 8 && w.block == c.channels * bytes && w.byte_rate == (uint32_t) (c.rate * c.channels * bytes), "header",
				"format %d, %d channels, rate %u, %d bits, block %d, byte rate %u; written %d channels, rate %u, %d bits", w.format, w.channels, w.rate, w.bits, w.block, w.byte_rate, c.channels, c.rate, bytes * 8);
			CHECK (w.data_size == n * bytes && w.avail == n * bytes, "size", "data size %u (%zu there), written %zu", w.data_size, w.avail, n * bytes);
			CHECK (w.riff_size == len - 8 && len == w.data_pos + n * bytes + (n * bytes & 1), "size", "RIFF size %u, file %zu bytes, expected %zu", w.riff_size, len, want);
			for (size_t i = 0; i < n && w.avail == n * bytes; i ++) {
				int v = bytes == 1 ? (d[w.data_pos + i] - 128) * 256 : (int16_t) (d[w.data_pos + 2 * i] | d[w.data_pos + 2 * i + 1] << 8);
				int e = bytes == 1 ? c.fr[i] & ~255 : c.fr[i];
				if (bytes == 1 ? abs (v - c.fr[i]) > 255 : v != e) { vf_fail ("frames", "value %zu of %zu is %d, appended %d", i, n, v, c.fr[i]); break; }
			}
			if (!vf_failed () && (n || !tail)) { if (!w.data_size) w.avail = 0; read_check (f, off, &w, d, "readback", 1); vf_count ("written_files", 1); }
		}
	}
	vf_sig (vf_mix (how, vf_mix (c.bits, vf_mix (c.channels, vf_mix (c.nframes, (off != 0) + 2 * (tail != 0))))));
	if (tail) vf_count ("files_within_files", 1);
	CHECK (vf_live_blocks == 0, "leak", "%ld blocks leaked", vf_live_blocks);
	out: fclose (f); free (c.fr); by_free (&pre); by_free (&out);
}
