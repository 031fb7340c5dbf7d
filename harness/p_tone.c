/* P01: frequencies against equal temperament: the lookup functions, the periods of tracks, the audio itself (phase of the fundamental over
   time), and the speed of samples (frames between notifications). */
#include "vf.h"
#include <complex.h>
static double freq (double note) { return 440.0 * pow (2, (note - 45) / 12); }
static double cl (double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
/* allowed range of the wave length in frames of a note: two semitones interpolated, table entries of 1/2^20 s, cut to whole units */
static void tone_range (double note, double rate, double *lo, double *hi)
{
	double f = freq (cl (note, 0, 96)), p = 1048576 / f, w = rate / f; *lo = w * (1 - 1.02 / p) - 0.0001; *hi = w * (1 + 0.00043) + 0.0001;
}
static void speed_range (double note, double *lo, double *hi) { double s = pow (2, (cl (note, 0, 96) - 48) / 12); *lo = s * (1 - 0.0005); *hi = s * (1 + 0.0006); }
static int32_t rtone (Rng *r) { switch (rn (r, 6)) { case 0: return (int32_t) rn (r, 97) << 20; case 1: return (int32_t) rr (r, -(1LL << 24), 100 << 20); case 2: return rint32 (r); case 3: return (int32_t) (rr (r, 0, 96) * (1 << 20) + rr (r, -40, 40)); default: return (int32_t) rr (r, 0, 96 << 20); } }
static uint32_t rrate (Rng *r) { static const uint32_t c[] = {16000, 22050, 32000, 44100, 48000, 88200, 96000}; switch (rn (r, 4)) { case 0: return (uint32_t) rr (r, 16000, 96000); case 1: return (uint32_t) rr (r, 44000, 48000); default: return PICK (r, c); } }
static double note_of (int32_t t) { return t / 1048576.0; }
static void lookups (Rng *r)
{
	for (int i = 0; i < 50; i ++) {
		int32_t a = rtone (r), b = chance (r, 50) ? rtone (r) : (int32_t) cl ((double) a + rr (r, 0, 100000), INT32_MIN, INT32_MAX); uint32_t rate = rrate (r), given = chance (r, 5) ? (uint32_t) rint32 (r) : rate; rate = given < 16000 ? 16000 : given > 96000 ? 96000 : given;
		uint32_t pa = BKTonePeriodLookup (a, given), pb = BKTonePeriodLookup (b, given); double lo, hi;
		tone_range (note_of (a), rate, &lo, &hi); CHECK_RET (pa >= lo * 1048576 && pa <= hi * 1048576, "lookup-tone", "wave length of note %.4f at %u Hz is %.5f, expected %.5f..%.5f", note_of (a), rate, pa / 1048576.0, lo, hi);
		CHECK_RET (a <= b ? pa >= pb : pa <= pb, "lookup-monotone", "note %.7f has wave length %u, note %.7f has %u", note_of (a), pa, note_of (b), pb);
		if (a >= 0 && a <= (84 << 20)) { uint32_t po = BKTonePeriodLookup (a + (12 << 20), given); double q = (double) pa / po; CHECK_RET (q > 1.95 && q < 2.08, "lookup-octave", "an octave above note %.4f has ratio %f", note_of (a), q); }
		uint32_t sa = BKLog2PeriodLookup (a), sb = BKLog2PeriodLookup (b); speed_range (note_of (a), &lo, &hi);
		CHECK_RET (sa >= lo * 1048576 && sa <= hi * 1048576, "lookup-speed", "speed of note %.4f is %.5f, expected %.5f..%.5f", note_of (a), sa / 1048576.0, lo, hi);
		CHECK_RET (a <= b ? sa <= sb : sa >= sb, "lookup-speed-monotone", "note %.7f has speed %u, note %.7f has %u", note_of (a), sa, note_of (b), sb);
		int n = (int) rr (r, 0, 8); uint32_t so = BKLog2PeriodLookup (n * 12 << 20); CHECK_RET (so == 65536u << n, "lookup-speed-octave", "speed of octave %d is %u", n, so);
		if (a < 0 || a > (96 << 20)) vf_count ("clamped_notes", 1);
	}
	vf_count ("lookups", 100);
}
/* phase of the frequency f around frame c, with a Hann window of half width h */
static double complex demod (const double *x, double c, double h, double f, double rate)
{
	double complex s = 0; double n = 0; for (int i = (int) ceil (c - h); i <= (int) floor (c + h); i ++) { double w = 0.5 + 0.5 * cos (M_PI * (i - c) / h); s += w * x[i] * cexp (-I * 2 * M_PI * f * i / rate); n += w; } return s / n;
}
typedef struct { int ch, tick; BKContext c[2]; int rates[2], on; BKTrack t; BKData d[3]; int dn[3], dlen[3]; int wave, data, count; double note, pitch, spitch, dp[3]; uint64_t played; int resets, begins; } T;
static BKEnum scb (BKCallbackInfo *i, void *u) { T *x = u; if (i->event == BK_EVENT_SAMPLE_RESET) x->resets ++; else if (i->event == BK_EVENT_SAMPLE_BEGIN) x->begins ++; return BK_REPEAT; }
static void gen (T *x, int n, double *out) { BKFrame b[512 * 2]; while (n > 0 && !vf_failed ()) { int k = n < 512 ? n : 512; BKInt g = BKContextGenerate (&x->c[x->on], b, k); CHECK (g == k, "generate", "%d frames instead of %d", g, k); if (out) for (int i = 0; i < k; i ++) *out ++ = b[i * x->ch]; n -= k; } }
static int count_of (int w) { return w == BK_SQUARE ? 16 : w == BK_NOISE ? 8 : w == BK_SAWTOOTH ? 7 : 32; }
static double now_note (const T *x) { return cl (cl (x->note, 0, 96) + x->pitch + (x->wave == BK_SAMPLE ? x->spitch : 0), 0, 96); }
static void check_now (T *x, const char *when)
{
	BKInt p = -1; double lo, hi, n = now_note (x); int rate = x->rates[x->on];
	if (x->wave == BK_SAMPLE) {
		BKGetAttr (&x->t, BK_SAMPLE_PERIOD, &p); speed_range (n, &lo, &hi); lo = cl (lo, 1. / 256, 256); hi = cl (hi, 1. / 256, 256);
		CHECK (p >= lo * 1048576 && p <= hi * 1048576, "sample-speed", "%s a sample plays note %.4f (pitch %.3f, sample pitch %.3f) at speed %.5f, expected %.5f..%.5f", when, x->note, x->pitch, x->spitch, p / 1048576.0, lo, hi);
	}
	else {
		BKGetAttr (&x->t, BK_PERIOD, &p); tone_range (n, rate, &lo, &hi); lo = (lo * 1048576 / x->count) - 1; hi = hi * 1048576 / x->count; if (lo < 16384) lo = 16384; if (hi < 16384) hi = 16384;
		CHECK (p >= lo && p <= hi, "track-frequency", "%s waveform %x with %d phases plays note %.4f (pitch %.3f) with period %d at %d Hz, expected %.1f..%.1f", when, x->wave, x->count, x->note, x->pitch, p, rate, lo, hi);
	}
	vf_count ("periods", 1);
}
static void settle (T *x) { gen (x, x->tick + 2, NULL); }
/* the frequency heard */
static void measure (T *x)
{
	double n = now_note (x), f = freq (n), rate = x->rates[x->on], lo, hi, per = rate / f; if (x->wave == BK_NOISE || x->wave == BK_SAMPLE || f > rate / 6 || per / x->count < 0.02) return;
	int cyc = 40, len = (int) (per * cyc) + 4; if (len > 60000) { cyc = (int) (60000 / per); len = (int) (per * cyc) + 4; } if (cyc < 16) return;
	double *s = malloc (sizeof *s * len), rms = 0; gen (x, 1200, NULL); gen (x, len, s); for (int i = 0; i < len; i ++) rms += s[i] * s[i]; rms = sqrt (rms / len);
	double h = per * 5, c1 = h + 1, c2 = len - h - 2; double complex a = demod (s, c1, h, f, rate), b = demod (s, c2, h, f, rate); free (s);
	if (rms < 300 || (x->wave == BK_CUSTOM && (cabs (a) < rms * 0.4 || cabs (b) < rms * 0.4))) return;
	CHECK_RET (cabs (a) > rms * 0.25 && cabs (b) > rms * 0.25, "heard-frequency", "waveform %x at note %.4f (%.2f Hz, %g Hz) has its fundamental of %.1f, %.1f of %.1f elsewhere", x->wave, n, f, rate, cabs (a), cabs (b), rms);
	double df = carg (b / a) / (2 * M_PI) / ((c2 - c1) / rate), got = f + df; tone_range (n, rate, &lo, &hi);
	CHECK_RET (got >= rate / hi * 0.9996 && got <= rate / lo * 1.0004, "heard-frequency", "waveform %x at note %.4f is heard at %.4f Hz instead of %.4f (%.4f..%.4f), rate %g", x->wave, n, got, f, rate / hi, rate / lo, rate);
	vf_count ("heard", 1);
}
/* the speed heard: resets of an endlessly repeating sample */
static void measure_sample (T *x)
{
	double n = now_note (x), lo, hi; int len = x->dlen[x->data]; speed_range (n, &lo, &hi); int frames = x->tick * 20 + (int) (len / lo * (double) rr (&(Rng) {x->played + 7}, 3, 30)); if (frames > 60000 || len / hi < 2) return;
	BKSetAttr (&x->t, BK_NOTE, BK_NOTE_MUTE); gen (x, 8, NULL); x->resets = x->begins = 0; BKSetAttr (&x->t, BK_NOTE, (BKInt) (x->note * 1048576)); gen (x, 1500, NULL); /* the last phase of a waveform played before may be that long */ settle (x); x->resets = 0; gen (x, frames, NULL); int r0 = x->resets; BKInt rp = 0, mu = 0; BKGetAttr (&x->t, BK_SAMPLE_REPEAT, &rp); BKGetAttr (&x->t, BK_MUTE, &mu); TRACE ("tick %d frames %d repeat %d mute %d begins %d resets %d\n", x->tick, frames, rp, mu, x->begins, x->resets);
	double t = frames, a = t * lo / len, b = t * hi / len, slack = 1.01 + (x->tick + 2) * hi / len; if (r0 < a - slack || r0 > b + slack) vf_fail ("heard-speed", "a sample of %d frames ended %d times within %.0f frames, expected %.2f..%.2f (note %.4f)", len, r0, t, a, b, n);
	vf_count ("sample_runs", 1);
}
VF_PROP (P01)
{
	if (chance (r, 30)) { lookups (r); vf_sig (vf_next (r)); return; }
	T x; memset (&x, 0, sizeof x); x.ch = (int) rr (r, 1, 2); uint64_t h = 0;
	for (int i = 0; i < 2; i ++) { x.rates[i] = (int) rrate (r); if (BKContextInit (&x.c[i], x.ch, x.rates[i])) vf_harness_error ("ctx"); if (!x.tick) x.tick = (int) rr (r, 4, 80); BKTime p = BKTimeMake (x.tick, 0); BKSetPtr (&x.c[i], BK_CLOCK_PERIOD, &p, sizeof p); }
	static const BKEnum waves[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE}; x.wave = PICK (r, waves); x.count = count_of (x.wave); x.data = -1;
	if (BKTrackInit (&x.t, x.wave)) vf_harness_error ("track");
	BKCallback cb = {scb, &x}; BKSetPtr (&x.t, BK_SAMPLE_CALLBACK, &cb, sizeof cb);
	for (int i = 0; i < 3; i ++) {
		int n = x.dn[i] = x.dlen[i] = (int) rr (r, 2, i == 2 ? 400 : 70); BKFrame f[400]; int k = (int) rr (r, 1, 3); for (int j = 0; j < n; j ++) f[j] = chance (r, 30) ? (BKFrame) rr (r, -20000, 20000) : (BKFrame) (16000 * sin (2 * M_PI * j * (k == 1 ? 1 : 1) / n));
		BKDataInit (&x.d[i]); BKDataSetFrames (&x.d[i], f, n, 1, 1); if (chance (r, 60)) { int32_t p = chance (r, 15) ? rint32 (r) : (int32_t) rr (r, -(36 << 20), 36 << 20); BKSetAttr (&x.d[i], BK_SAMPLE_PITCH, p); } BKInt g = 0; BKGetAttr (&x.d[i], BK_SAMPLE_PITCH, &g); x.dp[i] = note_of (g);
	}
	x.on = 0; x.played = vf_next (r);
	int before = chance (r, 50); if (!before) BKTrackAttach (&x.t, &x.c[0]);
	BKSetAttr (&x.t, BK_MASTER_VOLUME, (int) rr (r, 8000, 32767)); BKSetAttr (&x.t, BK_NOTE, (BKInt) (x.note = rn (r, 97)) << 20); if (before) BKTrackAttach (&x.t, &x.c[0]);
	settle (&x); check_now (&x, "first");
	int nops = (int) rr (r, 2, 25);
	for (int i = 0; i < nops && !vf_failed (); i ++) {
		int k = (int) rn (r, 11); const char *what = ""; h = vf_mix (h, k); int32_t v;
		switch (k) {
			case 0: case 1: case 2: v = rtone (r); if (v < 0) v = (int32_t) rr (r, 0, 96 << 20); BKSetAttr (&x.t, BK_NOTE, v); x.note = cl (note_of (v), 0, 96); what = "after a note"; break;
			case 3: v = chance (r, 20) ? rint32 (r) : (int32_t) rr (r, -(14 << 20), 14 << 20); BKSetAttr (&x.t, BK_PITCH, v); x.pitch = cl (note_of (v), -48, 48); what = "after a pitch"; break;
			case 4: v = chance (r, 20) ? rint32 (r) : (int32_t) rr (r, -(14 << 20), 14 << 20); BKSetAttr (&x.t, BK_SAMPLE_PITCH, v); x.spitch = cl (note_of (v), -48, 48); what = "after a sample pitch"; break;
			case 5: case 6: x.wave = PICK (r, waves); x.count = count_of (x.wave); x.data = -1; if (BKSetAttr (&x.t, BK_WAVEFORM, x.wave)) vf_fail ("set", "waveform refused"); what = "after a waveform"; break;
			case 7: x.data = (int) rn (r, 3); x.wave = BK_CUSTOM; x.count = x.dlen[x.data] > 64 ? 64 : x.dlen[x.data]; if (BKSetPtr (&x.t, BK_WAVEFORM, &x.d[x.data], sizeof (void *))) vf_fail ("set", "custom waveform refused"); x.spitch = x.dp[x.data]; what = "after a custom waveform"; break;
			case 8: x.data = (int) rn (r, 3); x.wave = BK_SAMPLE; if (BKSetPtr (&x.t, BK_SAMPLE, &x.d[x.data], sizeof (void *))) vf_fail ("set", "sample refused"); BKSetAttr (&x.t, BK_SAMPLE_REPEAT, BK_REPEAT); x.spitch = x.dp[x.data]; what = "after a sample"; break;
			case 9: if (chance (r, 50)) BKTrackDetach (&x.t); x.on = !x.on; if (BKTrackAttach (&x.t, &x.c[x.on])) { BKTrackDetach (&x.t); if (BKTrackAttach (&x.t, &x.c[x.on])) vf_fail ("attach", "attaching refused"); } what = "after moving"; break;
			case 10: { /* new content of another length */
				int d = (int) rn (r, 3), n = (int) rr (r, 2, 100); BKFrame f[100]; for (int j = 0; j < n; j ++) f[j] = (BKFrame) (16000 * sin (2 * M_PI * j / n)); if (BKDataSetFrames (&x.d[d], f, n, 1, 1)) vf_fail ("set", "frames refused"); x.dlen[d] = n; if (x.data == d) { if (x.wave == BK_CUSTOM) x.count = n > 64 ? 64 : n; else BKSetAttr (&x.t, BK_SAMPLE_REPEAT, BK_REPEAT); } what = "after new content"; break; }
		}
		TRACE ("%s: wave %x count %d note %.4f pitch %.4f spitch %.4f rate %d\n", what, x.wave, x.count, x.note, x.pitch, x.spitch, x.rates[x.on]);
		settle (&x); if (!vf_failed ()) check_now (&x, what);
		if (!vf_failed () && chance (r, 12)) { if (x.wave == BK_SAMPLE) measure_sample (&x); else measure (&x); }
		h = vf_mix (h, (uint64_t) (now_note (&x) * 4));
	}
	BKDispose (&x.t); for (int i = 0; i < 3; i ++) BKDispose (&x.d[i]); for (int i = 0; i < 2; i ++) BKDispose (&x.c[i]); vf_sig (h);
}
