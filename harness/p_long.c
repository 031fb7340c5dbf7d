/* T01_long / T02_long / T01_far / P06_long: what only shows after many ticks, frames or values, or with large counts. Nothing changes
   during such a run, so that each expected event has a closed form. */
#include "vf.h"
enum { NC = 3, ND = 6 };
typedef struct LW LW;
typedef struct { LW *w; int id; int64_t period, n; BKClock c; } LC;
typedef struct { LW *w; int id, clk, redo; int64_t n, at, calls; BKDivider d; } LD;        /* at: tick of its clock at which it is due */
struct LW { BKContext ctx; LC c[NC + 1]; LD d[ND]; int nc, nd, last; int64_t lastt, masterTicks; Rng r; };
static int64_t now (LW *w) { BKTime t = BK_TIME_ZERO; BKGetPtr (&w->ctx, BK_TIME, &t, sizeof t); return vf_time64 (t); }
static BKTime mk (int64_t t) { return BKTimeMake ((BKInt) (t >> 20), (BKFUInt20) (t & 0xfffff)); }
static BKEnum ccb (BKCallbackInfo *i, void *u)
{
	LC *c = u; LW *w = c->w; if (vf_failed ()) return 0; int64_t t = now (w);
	CHECK (t == c->n * c->period, "long-tick-time", "tick %lld of clock %d (period %.6f) is at %.6f instead of %.6f", (long long) c->n, c->id, c->period / 1048576., t / 1048576., c->n * c->period / 1048576.);
	CHECK (vf_time64 (i->nextTime) == t, "long-tick-info", "clock %d is told %.6f at %.6f", c->id, vf_time64 (i->nextTime) / 1048576., t / 1048576.);
	CHECK (t > w->lastt || (t == w->lastt && c->id > w->last), "long-order", "clock %d ticks at %.6f after clock %d at %.6f", c->id, t / 1048576., w->last, w->lastt / 1048576.);
	w->lastt = t; w->last = c->id; c->n ++; vf_count ("long_ticks", 1);
	return 0;
}
static BKEnum dcb (BKCallbackInfo *i, void *u)
{
	LD *d = u; LW *w = d->w; if (vf_failed ()) return 0; LC *c = &w->c[d->clk]; int64_t t = now (w);
	CHECK (t == d->at * c->period, "long-divider", "call %lld of the divider %d by %lld is at %.6f instead of %.6f, %.3f ticks of its clock instead of %lld", (long long) d->calls, d->id, (long long) d->n, t / 1048576., d->at * c->period / 1048576., (double) t / c->period, (long long) d->at);
	CHECK ((int64_t) i->divider == d->n, "long-divider-info", "divider %d by %lld is told %lld", d->id, (long long) d->n, (long long) i->divider);
	if (d->redo) { d->n = rr (&w->r, 1, chance (&w->r, 50) ? 70000 : 600); i->divider = (BKUInt) d->n; }
	d->calls ++; d->at += d->n; vf_count ("long_divider_calls", 1);
	return 0;
}
static int64_t rcount (Rng *r) { switch (rn (r, 6)) { case 0: return 256 + rr (r, 0, 3); case 1: case 2: return 65536 + rr (r, -1, 5); case 3: return rr (r, 256, 40000); case 4: return (1 << 24) + rr (r, 0, 5); default: return rr (r, 1, 140000); } }
static void longrun (Rng *r, int kind, int64_t frames)      /* 0: many ticks, 1: many frames */
{
	LW *w = calloc (1, sizeof *w); w->r.s = vf_next (r); w->lastt = -1; BKContextInit (&w->ctx, 1, (BKUInt) rr (r, 16000, 96000)); w->nc = (int) rn (r, NC + 1); uint64_t h = kind;
	BKUnit u; BKUnitInit (&u, BK_SQUARE); BKUnitAttach (&u, &w->ctx); BKFrame *b = malloc (1024 * 2);
	if (kind == 0) frames = rr (r, 100, 1500);
	for (int i = 0; i <= w->nc; i ++) {
		LC *c = &w->c[i]; c->w = w; c->id = i; c->period = kind ? chance (r, 30) ? (chance (r, 50) ? rr (r, 1, 8) * 4096 : rr (r, 1, 16) * 256) << 20 : rr (r, 50 << 20, 5000LL << 20) : i == 0 || chance (r, 30) ? frames * (1 << 20) / rr (r, 70000, 200000) + 1 : rr (r, 1 << 18, 900LL << 20); BKCallback k = {ccb, c};
		if (i < w->nc) { if (BKClockInit (&c->c, mk (c->period), &k) != 0 || BKClockAttach (&c->c, &w->ctx, NULL) != 0) vf_fail ("long-init", "clock refused"); }
		else { BKTime t = mk (c->period); if (BKSetPtr (&w->ctx, BK_CLOCK_PERIOD, &t, sizeof t) != 0) vf_fail ("long-init", "clock period refused"); }      /* the context's own */
		h = vf_mix (h, (uint64_t) c->period);
	}
	w->nd = (int) rr (r, 1, ND);
	for (int i = 0; i < w->nd; i ++) {
		LD *d = &w->d[i]; d->w = w; d->id = i; d->clk = (int) rn (r, w->nc + 1); d->redo = chance (r, 20); d->n = kind ? rr (r, 1, 300) : rcount (r); BKCallback k = {dcb, d};
		int e = BKDividerInit (&d->d, (BKUInt) d->n, &k); if (!e) e = d->clk < w->nc ? BKDividerAttachToClock (&d->d, &w->c[d->clk].c) : BKContextAttachDivider (&w->ctx, &d->d, chance (r, 50) ? BK_CLOCK_TYPE_BEAT : BK_CLOCK_TYPE_EFFECT); if (e) vf_fail ("long-init", "divider refused: %d", e);
		h = vf_mix (h, (uint64_t) d->n);
	}
	int64_t G = 0;
	while (G < frames && !vf_failed ()) { int n = kind ? 1024 : (int) rr (r, 1, 1024); if (n > frames - G) n = (int) (frames - G); int g = BKContextGenerate (&w->ctx, b, (BKUInt) n); CHECK (g == n, "long-generate", "%d frames instead of %d after %lld", g, n, (long long) G); G += n; }
	for (int i = 0; i < w->nc && !vf_failed (); i ++) CHECK (w->c[i].n * w->c[i].period >= G << 20, "long-missing", "clock %d has not ticked at %.6f", i, w->c[i].n * w->c[i].period / 1048576.);
	for (int i = 0; i < w->nd && !vf_failed (); i ++) CHECK (w->d[i].at * w->c[w->d[i].clk].period >= G << 20, "long-divider-missing", "divider %d by %lld was not called at %.6f", i, (long long) w->d[i].n, w->d[i].at * w->c[w->d[i].clk].period / 1048576.);
	vf_count ("long_frames", (uint64_t) G); vf_sig (h); if (chance (r, 2)) vf_sample ("%lld frames, %lld ticks of a clock of %.4f frames", (long long) G, (long long) w->c[0].n, w->c[0].period / 1048576.);
	for (int i = 0; i < w->nc; i ++) BKDispose (&w->c[i].c); for (int i = 0; i < w->nd; i ++) BKDispose (&w->d[i].d); BKDispose (&u); BKDispose (&w->ctx); free (b); free (w);
}
VF_PROP (T01_long) { if (chance (r, 30)) longrun (r, 1, rr (r, 100000, 3000000)); else longrun (r, 0, 0); }
VF_PROP (T01_far) { longrun (r, 1, (1LL << 31) + rr (r, 5000, 3000000)); }      /* beyond 31 bits of frames */

/* instruments with many values, or values which last long */
VF_PROP (P06_long)
{
	int kind = (int) rn (r, 4), env = chance (r, 30), len = env ? (int) rr (r, 2, 6) : (int) rr (r, 66000, 140000), spt = (int) rr (r, 2, 6); uint64_t h = vf_mix (kind * 2 + env, len);
	int so = env || chance (r, 40) ? (int) rr (r, 1, len) : (int) rr (r, 65000, len), sl = (int) rr (r, so < len, len - so); int32_t *v = malloc (len * 4); BKSequencePhase *ph = malloc (len * sizeof *ph); int64_t steps = 0;
	int dv = chance (r, 80) ? 1 : (int) rr (r, 1, 3); uint64_t s = vf_next (r);
	for (int i = 0; i < len; i ++) { uint64_t x = vf_mix (s, i); v[i] = kind == BK_SEQUENCE_VOLUME ? (int32_t) (x % 32768) : kind == BK_SEQUENCE_PANNING ? (int32_t) (x % 65535) - 32767 : kind == BK_SEQUENCE_PITCH ? (int32_t) (x % (24 << 20)) - (12 << 20) : (int32_t) (x % 15) + 1; if (env) { ph[i].steps = (BKUInt) (x >> 40) % 3 ? 65536 + (x >> 43) % 5 : (x >> 43) % 70000 + 1; ph[i].value = v[i]; steps += ph[i].steps; } }
	if (env) dv = 1;
	BKContext ctx; BKTrack t; BKInstrument in; BKContextInit (&ctx, 2, 44100); BKTime per = BKTimeMake (spt, 0); BKSetPtr (&ctx, BK_CLOCK_PERIOD, &per, sizeof per); BKTrackInit (&t, BK_SQUARE); BKTrackAttach (&t, &ctx); BKInstrumentInit (&in);
	BKSetAttr (&t, BK_MASTER_VOLUME, 32767); BKSetAttr (&t, BK_VOLUME, 32767); BKSetAttr (&t, BK_INSTRUMENT_DIVIDER, dv);
	int e = env ? BKInstrumentSetEnvelope (&in, kind, ph, len, so, sl) : BKInstrumentSetSequence (&in, kind, v, len, so, sl); CHECK (e == 0, "long-instrument", "%d values refused: %d", len, e);
	int32_t *keep = malloc (len * 4); memcpy (keep, v, len * 4); memset (v, 0x55, len * 4); if (env) { BKSequencePhase *k2 = malloc (len * sizeof *k2); memcpy (k2, ph, len * sizeof *ph); memset (ph, 0x55, len * sizeof *ph); free (ph); ph = k2; }
	BKInstrument *I = &in, copy; if (chance (r, 30)) { BKInstrumentInitCopy (&copy, &in); BKDispose (&in); I = &copy; }
	BKSetPtr (&t, BK_INSTRUMENT, I, sizeof (void *)); BKSetAttr (&t, BK_NOTE, BK_C_4 << 20);
	/* position: plays on to the end of the sustained range, repeats it while the note is held, and plays the rest after release */
	int64_t hold = env ? rr (r, 1, 150000) : rr (r, 1, 2 * (so + sl)), maxt = env ? hold + 200000 : hold + (len - so - sl) + 10; if (maxt * dv > 400000) { hold = 100000; maxt = 300000 / dv; }
	int at = 0, released = 0, ended = 0, send = so + sl; double val = 0, from = 0, err = 0, e0 = 0; int64_t k = 1; BKFrame b[16];
	/* an envelope begins with its first phase from the default value of its kind */
	double dflt = 0; from = val = kind == BK_SEQUENCE_DUTY_CYCLE ? 4 : dflt; double tol = 0; if (env) { double m = 32; while (m <= (kind == BK_SEQUENCE_PITCH ? 96 << 20 : 32768)) m *= 2; tol = m / (1 << 30); }
	for (int64_t q = 0; q < maxt * dv && !vf_failed () && !ended; q ++) {
		if (q == hold * dv && !released) { BKSetAttr (&t, BK_NOTE, BK_NOTE_RELEASE); released = 1; if (send >= len) { CHECK (1, "", ""); ended = 1; break; } at = send; k = 1; from = val; e0 = err; }
		if (!env) {
			if (q % dv == 0) {
				if (!released && at >= send) at = so;
				if (at >= len) { ended = 1; break; }
				val = keep[at ++];
			}
		}
		else {
			if (k == 1 && !released && at >= send) at = so;
			if (at >= len) { ended = 1; break; }
			double f = (double) k / ph[at].steps; val = from + (keep[at] - from) * f; err = e0 + k * tol + 1e-6 * fabs (val) + 2;
			if (k == ph[at].steps) { val = keep[at]; err = 2; }
		}
		int g = BKContextGenerate (&ctx, b, spt); if (g != spt) { vf_fail ("long-generate", "%d frames instead of %d", g, spt); break; }
		BKInt x = 0; double want = val;
		switch (kind) {
			case BK_SEQUENCE_VOLUME: BKGetAttr (&t, BK_VOLUME_0, &x); if (!env) { int64_t l = (32767LL * (int32_t) val) >> 15; want = (int) ((l * 32767) >> 15); } break;
			case BK_SEQUENCE_PANNING: BKGetAttr (&t, val > 0 ? BK_VOLUME_0 : BK_VOLUME_1, &x); if (!env) { int64_t l = (32766LL * 32767) >> 15; want = (int) (((32767 - llabs ((long long) val)) * l) >> 15); if (!val) want = (int) l; } else { want = 32766 - fabs (val); } break;
			case BK_SEQUENCE_PITCH: BKGetAttr (&t, BK_PERIOD, &x); { int64_t n = (BK_C_4 << 20) + (int64_t) val; if (!env) want = BKTonePeriodLookup ((BKInt) n, 44100) / 16; else { double lo = BKTonePeriodLookup ((BKInt) (n + (int64_t) err), 44100) / 16 - 2., hi = BKTonePeriodLookup ((BKInt) (n - (int64_t) err), 44100) / 16 + 2.; if (x >= lo && x <= hi) want = x; else { TRACE ("x %d not in %f..%f err %f k %lld\n", x, lo, hi, err, (long long) k); want = lo; } } } break;
			default: BKGetAttr (&t, BK_DUTY_CYCLE, &x); if (env) { if (x >= val - 1.5 && x <= val + 1.5) want = x; } break;
		}
		if (!env || kind >= BK_SEQUENCE_PITCH) CHECK (x == (int) want, "long-sequence", "value %d of %d (sustain %d+%d, kind %d): attribute is %d instead of %d at tick %lld", at - 1, len, so, sl, kind, x, (int) want, (long long) q);
		else CHECK (fabs (x - want) <= err + 2, "long-envelope", "phase %d of %d (sustain %d+%d, kind %d): attribute is %d instead of %.1f+-%.1f at tick %lld", at, len, so, sl, kind, x, want, err, (long long) q);
		if (env) { if (k == ph[at].steps) { at ++; k = 1; from = val; e0 = 0; if (!released && at >= send) at = so; if (at >= len) { ended = 1; } } else k ++; }
		vf_count ("long_values", 1);
	}
	if (ended && !vf_failed ()) { for (int i = 0; i <= dv + 1; i ++) BKContextGenerate (&ctx, b, spt); BKInt m = 0; BKGetAttr (&t, BK_MUTE, &m); CHECK (m == 1, "long-end", "track is not muted after the end of %d values", len); vf_count ("long_ends", 1); }
	vf_sig (h); if (chance (r, 2)) vf_sample ("%d %s of kind %d, sustain %d+%d", len, env ? "phases" : "values", kind, so, sl);
	BKDispose (&t); BKDispose (I); BKDispose (&ctx); free (v); free (ph); free (keep);
}
