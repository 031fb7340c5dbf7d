/* D01: raw data decoding.  D04: copying, normalizing and bit reduction. */
#include "fio.h"
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"
typedef struct { BKFrame *f; size_t n; int ch, pitch, so, se; int have; } DModel;    /* n frames per channel */
static void dm_set (DModel *m, const BKFrame *f, size_t n, int ch) { BKFrame *c = malloc (n * ch * sizeof *c + 1); memcpy (c, f, n * ch * sizeof *c); free (m->f); m->f = c; m->n = n; m->ch = ch; m->have = 1; }
/* object agrees with its model; the frames are read like the writer and the tracks do */
static int dm_check (const DModel *m, const BKData *d, const char *key, const char *what)
{
	BKInt n = -1, c = -1, p = -1, r[2] = {-1, -1};
	BKGetAttr ((void *) d, BK_NUM_FRAMES, &n); BKGetAttr ((void *) d, BK_NUM_CHANNELS, &c); BKGetAttr ((void *) d, BK_SAMPLE_PITCH, &p); BKGetPtr ((void *) d, BK_SAMPLE_SUSTAIN_RANGE, r, sizeof r);
	CHECK_RETV (n == (BKInt) m->n && (!m->have || c == m->ch), 0, key, "%s: %d frames of %d channels, expected %zu of %d", what, n, c, m->n, m->ch);
	CHECK_RETV (p == m->pitch && r[0] == m->so && r[1] == m->se, 0, key, "%s: settings pitch %d range %d-%d, expected %d %d-%d", what, p, r[0], r[1], m->pitch, m->so, m->se);
	for (size_t i = 0; i < m->n * m->ch; i ++) if (d->frames[i] != m->f[i]) { vf_fail (key, "%s: value %zu of %zu is %d, expected %d", what, i, m->n * m->ch, d->frames[i], m->f[i]); return 0; }
	vf_count ("frames_compared", m->n * m->ch); return 1;
}
static const int dbits[] = {0, 1, 2, 4, 8, 8, 16};
/* decoded from the definition of the format */
static void decode (const uint8_t *p, size_t size, int fmt, int big, int ch, DModel *m)
{
	int bits = dbits[fmt]; size_t total = (uint64_t) size * 8 / bits, n = total / ch; BKFrame *f = malloc (n * ch * sizeof *f + 1);
	for (size_t i = 0; i < n * ch; i ++) {
		int v = 0;
		if (bits < 8) { size_t at = i * bits; for (int b = 0; b < bits; b ++, at ++) v = v * 2 + (p[at / 8] >> (7 - at % 8) & 1); v = v * 32767 / ((1 << bits) - 1); }
		else if (bits == 8) { if (fmt == BK_8_BIT_SIGNED) { v = (int) (int8_t) p[i] * 32767 / 127; if (v < -32768) v = -32768; } else v = p[i] * 32767 / 255; }
		else v = (int16_t) (big ? p[2 * i] << 8 | p[2 * i + 1] : p[2 * i + 1] << 8 | p[2 * i]);
		f[i] = (BKFrame) v;
	}
	dm_set (m, f, n, ch); free (f);
}
VF_PROP (D01)
{
	BKData d; DModel m = {0}; if (BKDataInit (&d)) vf_harness_error ("init"); vf_fill = chance (r, 50) ? 0x5A : -1;
	int rounds = (int) rr (r, 1, 4); uint64_t sig = 0;
	if (chance (r, 30)) { BKSetAttr (&d, BK_SAMPLE_PITCH, m.pitch = (int) rr (r, -5, 5) << 20); }
	while (rounds -- && !vf_failed ()) {
		int fmt = (int) rr (r, 1, 6), end = (int) rn (r, 3), ch = chance (r, 60) ? (int) rr (r, 1, 2) : (int) rr (r, 1, BK_MAX_CHANNELS), bits = dbits[fmt];
		size_t size = chance (r, 30) ? rn (r, 12) : rn (r, 400) == 0 ? rr (r, 60000, 300000) : chance (r, 90) ? rn (r, 300) : rn (r, 5000), off = rn (r, 4);
		int bad = chance (r, 12) ? (int) rr (r, 1, 3) : 0; BKUInt pf = fmt, pc = ch;
		if (bad == 1) { static const int f[] = {0, 7, 8, 12, 15}; pf = PICK (r, f); } else if (bad == 2) { static const unsigned c[] = {0, 9, 255, 0x80000000u, 0xffffffffu}; pc = PICK (r, c); } else if (bad == 3) size = rn (r, (uint64_t) ch * bits * 2 / 8 + 1);
		if (bad == 3 && (uint64_t) size * 8 / bits / ch >= 2) bad = 0;
		if (!bad && (uint64_t) size * 8 / bits / ch < 2) bad = 4;
		BKEnum par = pf | (end == 0 ? 0 : end == 1 ? BK_LITTLE_ENDIAN : BK_BIG_ENDIAN); BKInt res;
		uint8_t *p = malloc (size + off + !(size + off)); for (size_t i = 0; i < size + off; i ++) p[i] = chance (r, 20) ? (uint8_t[]) {0, 255, 128, 127, 1, 254}[rn (r, 6)] : (uint8_t) vf_next (r);
		int file = chance (r, 40); 
		if (file) { FILE *f = fio_open (p, size + off, "rb"); if (fseek (f, off, SEEK_SET)) vf_harness_error ("seek"); res = BKDataLoadRaw (&d, f, pc, par); fclose (f); }
		else res = BKDataSetData (&d, p + off, size, pc, par);
		TRACE ("%s %zu bytes fmt %u end %d ch %u -> %d\n", file ? "load" : "set", size, pf, end, pc, res);
		if (bad) { CHECK (res < 0, "accepted", "unusable data accepted (%zu bytes, format %u, %u channels): %d", size, pf, pc, res); vf_count ("rejected", 1); }
		else { CHECK (res == 0, "rejected", "%zu bytes of format %u with %u channels rejected: %d", size, pf, pc, res); if (res == 0) { decode (p + off, size, fmt, end == 2, ch, &m); vf_count ("decoded", 1); } }
		memset (p, 0x77, size + off); free (p);
		dm_check (&m, &d, bad ? "rejected-changes" : "decode", file ? "load" : "set");
		sig = vf_mix (sig, vf_mix (vf_mix (fmt, end), vf_mix (vf_mix (ch, bad), vf_mix (size, file))));
	}
	BKDispose (&d); CHECK (vf_live_blocks == 0, "leak", "%ld blocks leaked", vf_live_blocks); free (m.f); vf_sig (sig);
}

static int lev (int v, int bits) { int x = v < -32767 ? -32767 : v; if (bits <= 8) { x = (x >> 1) - 16384; return -(x >> (15 - bits)); } return -(x >> (16 - bits)); }
static void convert_check (DModel *m, const BKData *d, const BKDataConvertInfo *ci)
{
	int bits = ci->targetNumBits > 15 ? 15 : ci->targetNumBits; float th = ci->threshold == 0 ? 0.02f : ci->threshold; double thr = (double) th * 32767; int64_t top = bits <= 8 ? 1 << bits : 1 << (bits - 1);
	for (size_t i = 0; i < m->n * m->ch; i ++) {
		int v = m->f[i], o = d->frames[i], ok = 0;
		/* the threshold may be taken exactly or in whole levels */
		int t = (int) (thr + 1e-3), amb = thr - t > 1e-3 && abs (v) == t, silent = abs (v) < t;
		for (int z = 0; z < 2 && !ok; z ++) {
			if (!amb && z != silent) continue;
			int k = lev (z ? 0 : v, bits), dk = z || bits > 8 ? 0 : 1;
			for (int q = k - dk; q <= k + dk && !ok; q ++) if (o == (int) ((int64_t) q * 32767 / top)) ok = 1;
		}
		if (!ok) { vf_fail ("convert", "value %zu: %d became %d with %d bits, threshold %.4f", i, v, o, bits, thr); return; }
	}
	vf_count ("converted", m->n * m->ch);
}
VF_PROP (D04)
{
	enum { ND = 3 }; BKData d[ND]; int live[ND] = {0}; DModel m[ND]; BKFrame *user[ND] = {0}, *usercopy[ND] = {0}; size_t usern[ND] = {0}; uint64_t sig = 0; int nops = (int) rr (r, 1, 14); memset (m, 0, sizeof m);
	for (int i = 0; i < nops && !vf_failed (); i ++) {
		int k = (int) rn (r, ND), op = (int) rn (r, 9), res = 0;
		if (!live[k]) { if (op == 7) op = 8; else if (op != 8) { if (BKDataInit (&d[k])) vf_harness_error ("init"); live[k] = 1; memset (&m[k], 0, sizeof m[k]); } }
		sig = vf_mix (sig, op * 8 + k); TRACE ("op %d on %d\n", op, k);
		switch (op) {
			case 0: case 1: { /* frames */
				int ch = (int) rr (r, 1, chance (r, 60) ? 2 : 8), copy = chance (r, 60); size_t n = chance (r, 20) ? rr (r, 2, 4) : rn (r, 500) == 0 ? rr (r, 30000, 140000) / ch : rr (r, 2, 300); BKFrame *f = malloc (n * ch * sizeof *f); int amp = (int) (int[]) {1, 2, 3, 100, 5000, 20000, 32767, 32768, 32768}[rn (r, 9)];
				for (size_t j = 0; j < n * ch; j ++) f[j] = amp == 32768 ? (BKFrame) vf_next (r) : (BKFrame) rr (r, -amp, amp);
				if (chance (r, 10)) f[rn (r, n * ch)] = -32768; if (chance (r, 5)) memset (f, 0, n * ch * sizeof *f);
				if (chance (r, 10)) {       /* refused */
					int w = (int) rn (r, 4); res = w == 0 ? BKDataSetFrames (&d[k], f, rn (r, 2), ch, copy) : w == 1 ? BKDataSetFrames (&d[k], f, n, 0, copy) : w == 2 ? BKDataSetFrames (&d[k], f, n, 9 + rn (r, 100), copy) : BKDataSetFrames (&d[k], NULL, n, ch, copy);
					CHECK (res < 0, "accepted", "invalid frames accepted (%d): %d", w, res); free (f); break;
				}
				res = BKDataSetFrames (&d[k], f, n, ch, copy); CHECK (res == 0, "set-frames", "BKDataSetFrames: %d", res); dm_set (&m[k], f, n, ch);
				if (copy) { memset (f, 0x33, n * ch * sizeof *f); free (f); }
				if (!copy || user[k]) { free (user[k]); free (usercopy[k]); user[k] = usercopy[k] = NULL; }
				if (!copy) { user[k] = f; usern[k] = n * ch * sizeof *f; usercopy[k] = malloc (usern[k]); memcpy (usercopy[k], f, usern[k]); }
				vf_count ("set", 1); break;
			}
			case 2: BKSetAttr (&d[k], BK_SAMPLE_PITCH, m[k].pitch = (int) rr (r, -48 << 20, 48 << 20)); break;
			case 3: { int rg[2] = {(int) rr (r, -20, 320), (int) rr (r, -20, 320)}; BKSetPtr (&d[k], BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg);
				int n = (int) m[k].n, a = rg[0], b = rg[1]; if (a == b) a = b = 0; if (a < 0) a += n + 1; if (b < 0) b += n + 1; a = a < 0 ? 0 : a > n ? n : a; b = b < 0 ? 0 : b > n ? n : b; m[k].so = a < b ? a : b; m[k].se = a < b ? b : a; break; }
			case 4: case 5: { /* normalize */
				if (!m[k].have) break;
				int max = 0; for (size_t j = 0; j < m[k].n * m[k].ch; j ++) if (abs (m[k].f[j]) > max) max = abs (m[k].f[j]);
				res = BKDataNormalize (&d[k]); CHECK (res == 0, "normalize", "BKDataNormalize: %d", res); int peak = 0;
				for (size_t j = 0; j < m[k].n * m[k].ch; j ++) {
					int v = m[k].f[j], o = d[k].frames[j]; double e = max ? v * 32767.0 / max : 0; if (abs (o) > peak) peak = abs (o);
					if (fabs (o - e) > 2) { vf_fail ("normalize", "value %zu: %d became %d, peak was %d", j, v, o, max); break; }
				}
				CHECK (!max || (peak >= 32765 && peak <= 32768), "normalize", "peak %d after normalizing, was %d", peak, max);
				for (size_t j = 0; j < m[k].n * m[k].ch; j ++) m[k].f[j] = d[k].frames[j]; vf_count ("normalized", 1); break;
			}
			case 6: { /* fewer bits */
				if (!m[k].have) break; BKDataConvertInfo ci; memset (&ci, 0, sizeof ci); ci.targetNumBits = rr (r, 1, 17); if (chance (r, 50)) ci.threshold = chance (r, 15) ? 1.0f : (float) rn (r, 1000) / 4000; if (chance (r, 30)) ci.ditherSlope = (float) rr (r, 1, 100) / 100; if (chance (r, 30)) ci.ditherCurve = (float) rr (r, 1, 300) / 100; if (chance (r, 30)) ci.ditherSmoothLength = (int) rr (r, 1, 1000);
				res = BKDataConvert (&d[k], &ci); CHECK (res == 0, "convert", "BKDataConvert: %d", res); convert_check (&m[k], &d[k], &ci);
				for (size_t j = 0; j < m[k].n * m[k].ch; j ++) m[k].f[j] = d[k].frames[j]; break;
			}
			case 7: BKDispose (&d[k]); live[k] = 0; free (m[k].f); memset (&m[k], 0, sizeof m[k]); if (user[k]) { CHECK (!memcmp (user[k], usercopy[k], usern[k]), "user-frames", "frames of the caller were changed"); free (user[k]); free (usercopy[k]); user[k] = usercopy[k] = NULL; } break;
			case 8: { /* copy of another */
				int s = (int) rn (r, ND); if (s == k || !live[s]) break;
				if (live[k]) { BKDispose (&d[k]); free (m[k].f); if (user[k]) { free (user[k]); free (usercopy[k]); user[k] = usercopy[k] = NULL; } }
				memset (&d[k], 0xC3, sizeof d[k]); res = BKDataInitCopy (&d[k], &d[s]); CHECK (res == 0, "copy", "BKDataInitCopy: %d", res); live[k] = 1;
				m[k] = m[s]; m[k].f = NULL; if (m[s].have) dm_set (&m[k], m[s].f, m[s].n, m[s].ch); vf_count ("copies", 1); break;
			}
		}
		for (int j = 0; j < ND && !vf_failed (); j ++) if (live[j]) dm_check (&m[j], &d[j], j == k ? "state" : "other-changed", op == 8 ? "copy" : op == 6 ? "convert" : op >= 4 && op <= 5 ? "normalize" : "set");
		for (int j = 0; j < ND; j ++) if (user[j]) CHECK (!memcmp (user[j], usercopy[j], usern[j]), "user-frames", "frames of the caller were changed");
	}
	for (int k = 0; k < ND; k ++) { if (live[k]) BKDispose (&d[k]); free (m[k].f); if (user[k]) { CHECK (!memcmp (user[k], usercopy[k], usern[k]), "user-frames", "frames of the caller were changed by disposal"); free (user[k]); free (usercopy[k]); } }
	CHECK (vf_live_blocks == 0, "leak", "%ld blocks leaked", vf_live_blocks); vf_sig (sig);
}
