/* T03: time arithmetic is exact; a context's reported time never goes backwards. */
#include "vf.h"
typedef __int128 I;

/* the value of a time through its public parts */
static I tval (BKTime t) { return (I) BKTimeGetTime (t) * BK_FINT20_UNIT + BKTimeGetFrac (t); }
static int mag (I v) { int s = v < 0; if (s) v = -v; int b = 0; while (v) { v >>= 1; b ++; } return b * 2 + s; }
/* frames and fraction of a time inside the range of whole frames (int32) */
static void rtime (Rng *r, int32_t *fr, uint32_t *frac)
{
	*fr = rint32 (r);
	switch (rn (r, 5)) {
		case 0: *frac = 0; break;
		case 1: *frac = BK_FINT20_UNIT - 1; break;
		case 2: *frac = (uint32_t) rn (r, 4); break;
		default: *frac = (uint32_t) rn (r, BK_FINT20_UNIT); break;
	}
}
static int sgn (I v) { return (v > 0) - (v < 0); }

static void check_cmp (BKTime a, I va, BKTime b, I vb)
{
	int c = sgn (va - vb);
	CHECK (!!BKTimeIsEqual (a, b) == (c == 0), "cmp-equal", "IsEqual(%lld,%lld)", (long long) va, (long long) vb);
	CHECK (!!BKTimeIsGreater (a, b) == (c > 0), "cmp-greater", "IsGreater(%lld,%lld)", (long long) va, (long long) vb);
	CHECK (!!BKTimeIsGreaterEqual (a, b) == (c >= 0), "cmp-greater-equal", "IsGreaterEqual(%lld,%lld)", (long long) va, (long long) vb);
	CHECK (!!BKTimeIsLess (a, b) == (c < 0), "cmp-less", "IsLess(%lld,%lld)", (long long) va, (long long) vb);
	CHECK (!!BKTimeIsLessEqual (a, b) == (c <= 0), "cmp-less-equal", "IsLessEqual(%lld,%lld)", (long long) va, (long long) vb);
	vf_count ("comparisons", 5);
	vf_sig (vf_mix (vf_mix (0x100, mag (va)), vf_mix (c, mag (vb))));
}

/* ---- the context's time ---- */
typedef struct { BKContext *ctx; I last; int n; int tickBack; } TimeMon;
static void observe (TimeMon *m, const char *where)
{
	BKTime t; BKInt res = BKGetPtr (m->ctx, BK_TIME, &t, sizeof t);
	CHECK_RET (res == 0, "ctx-time-get", "BK_TIME: %d", res);
	I v = tval (t); m->n ++;
	CHECK (v >= m->last, "ctx-time-backwards", "%s: %lld after %lld", where, (long long) v, (long long) m->last);
	m->last = v;
}
typedef struct { TimeMon *m; BKClock *c; I next, period; Rng r; int asks, n; I start; } ClkMon;
static BKEnum clk_cb (BKCallbackInfo *info, void *user)
{
	ClkMon *k = user; observe (k->m, "clock");
	if (k->n == 0) k->next = k->m->last;
	CHECK (k->m->last == k->next, "ctx-time-at-tick", "tick %d at %lld, expected %lld", k->n, (long long) k->m->last, (long long) k->next);
	k->n ++;
	if (k->asks && chance (&k->r, 30)) {
		k->period = rr (&k->r, 1 << 12, 300LL << 20);
		info->nextTime = BKTimeAdd (info->nextTime, BKTimeMake ((BKInt) (k->period >> 20), (BKFUInt20) (k->period & BK_FINT20_FRAC)));
	}
	k->next += k->period; vf_count ("ticks", 1);
	return 0;
}
static BKInt sink (BKFrame f[], BKUInt n, void *u) { (void) f; *(uint64_t *) u += n; return 0; }

static void ctx_case (Rng *r)
{
	BKContext ctx; BKTrack track; ClkMon km[3]; BKClock clk[3]; int nc = (int) rn (r, 4), useTrack = chance (r, 60);
	TimeMon m = {&ctx, 0};
	uint64_t frames = 0; BKFrame *buf = malloc (2 * 1100 * sizeof (BKFrame) * 8);
	unsigned ch = (unsigned) rr (r, 1, 3);
	BKContextInit (&ctx, ch, (BKUInt) rr (r, 16000, 96000));
	BKTrackInit (&track, BK_SQUARE);
	BKUnit unit; BKUnitInit (&unit, BK_SINE); BKUnitAttach (&unit, &ctx);      /* frames are only produced with a unit */
	if (useTrack) { BKTrackAttach (&track, &ctx); BKSetAttr (&track, BK_MASTER_VOLUME, 9000); BKSetAttr (&track, BK_NOTE, BK_C_3 << 20); }
	for (int i = 0; i < nc; i ++) {
		I p = chance (r, 15) ? rr (r, 1, 4000) * 256 : rr (r, 1 << 14, 900LL << 20);
		km[i] = (ClkMon) {.m = &m, .c = &clk[i], .period = p, .r = {vf_next (r)}, .asks = chance (r, 40)};
		BKCallback cb = {clk_cb, &km[i]};
		BKClockInit (&clk[i], BKTimeMake ((BKInt) (p >> 20), (BKFUInt20) (p & BK_FINT20_FRAC)), &cb);
		BKClockAttach (&clk[i], &ctx, NULL);
	}
	uint64_t total = 0; int nops = (int) rr (r, 3, 25);
	for (int i = 0; i < nops && !vf_failed (); i ++) {
		if (chance (r, 70)) {
			unsigned n = chance (r, 20) ? (unsigned) rn (r, 4) : (unsigned) rr (r, 1, 1024);
			BKInt got = BKContextGenerate (&ctx, buf, n); total += n;
			CHECK (got == (BKInt) n, "gen-count", "generate %u gave %d", n, got);
		}
		else {
			uint64_t n = rn (r, 3000), c0 = frames;
			BKTime end = BKTimeMake ((BKInt) (total + n), 0);
			BKInt got = BKContextGenerateToTime (&ctx, end, sink, &frames); total += n;
			CHECK (got == (BKInt) n && frames - c0 == n, "gen-to-count", "to %llu gave %d/%llu, expected %llu", (unsigned long long) total, got, (unsigned long long) (frames - c0), (unsigned long long) n);
		}
		observe (&m, "after");
		/* everything generated lies before the reported time; without clocks it is exactly the generated time */
		CHECK (m.last >= (I) total * BK_FINT20_UNIT, "ctx-time-behind", "time %lld after %llu frames", (long long) m.last, (unsigned long long) total);
		if (!nc && !useTrack) CHECK (m.last == (I) total * BK_FINT20_UNIT, "ctx-time-exact", "time %lld after %llu frames", (long long) m.last, (unsigned long long) total);
	}
	/* no tick was left out */
	for (int i = 0; i < nc; i ++) CHECK (km[i].n > 0 && km[i].next >= (I) total * BK_FINT20_UNIT, "ctx-tick-missing", "next tick %lld, generated %llu frames", (long long) km[i].next, (unsigned long long) total);
	if (chance (r, 50)) { BKContextReset (&ctx); m.last = 0; observe (&m, "reset"); CHECK (m.last == 0, "ctx-time-reset", "time %lld after reset", (long long) m.last); }
	vf_count ("time_observations", m.n); vf_sig (vf_mix (0x200, vf_mix (nc * 4 + useTrack, mag (m.last))));
	for (int i = 0; i < nc; i ++) BKDispose (&clk[i]);
	BKDispose (&unit); BKDispose (&track); BKDispose (&ctx); free (buf);
}

VF_PROP (T03)
{
	if (chance (r, 30)) { ctx_case (r); return; }
	for (int k = 0; k < 60; k ++) {
		int32_t f1, f2; uint32_t q1, q2; rtime (r, &f1, &q1); rtime (r, &f2, &q2);
		if (chance (r, 25)) { f2 = f1; if (chance (r, 50)) q2 = q1; }
		else if (chance (r, 30)) {      /* apart by a power of two, or a multiple of one */
			int64_t v = ((int64_t) f1 << 20) + q1 + (((int64_t) 1 << rn (r, 52)) * (chance (r, 50) ? rr (r, -9, 9) : chance (r, 50) ? 1 : -1)); f2 = (int32_t) (v >> 20); q2 = (uint32_t) (v & BK_FINT20_FRAC); }
		I v1 = (I) f1 * BK_FINT20_UNIT + q1, v2 = (I) f2 * BK_FINT20_UNIT + q2;
		BKTime a = BKTimeMake (f1, q1), b = BKTimeMake (f2, q2);
		CHECK (BKTimeGetTime (a) == f1, "make-frames", "Make(%d,%u) frames %d", f1, q1, BKTimeGetTime (a));
		CHECK (BKTimeGetFrac (a) == q1, "make-frac", "Make(%d,%u) frac %u", f1, q1, BKTimeGetFrac (a));
		/* fraction of more than one frame carries */
		uint32_t big = (uint32_t) vf_next (r); int32_t fb = (int32_t) rr (r, INT32_MIN, INT32_MAX - 4096);
		CHECK (tval (BKTimeMake (fb, big)) == (I) fb * BK_FINT20_UNIT + big, "make-carry", "Make(%d,%u)", fb, big);
		check_cmp (a, v1, b, v2); check_cmp (a, v1, a, v1);
		I sum = v1 + v2, dif = v1 - v2, lim = (I) INT32_MAX * BK_FINT20_UNIT, lo = (I) INT32_MIN * BK_FINT20_UNIT;
		if (sum <= lim && sum >= lo) { BKTime s = BKTimeAdd (a, b); CHECK (tval (s) == sum, "add", "%lld+%lld=%lld", (long long) v1, (long long) v2, (long long) tval (s)); check_cmp (s, sum, a, v1); CHECK (BKTimeIsEqual (BKTimeSub (s, b), a), "add-sub", "(a+b)-b != a"); }
		if (dif <= lim && dif >= lo) { BKTime s = BKTimeSub (a, b); CHECK (tval (s) == dif, "sub", "%lld-%lld=%lld", (long long) v1, (long long) v2, (long long) tval (s)); check_cmp (s, dif, b, v2); }
		uint32_t u = chance (r, 50) ? (uint32_t) vf_next (r) >> rn (r, 32) : (uint32_t) rint32 (r);
		if (v1 + u <= lim) CHECK (tval (BKTimeAddFUInt20 (a, u)) == v1 + u, "add-fuint", "%lld+%u", (long long) v1, u);
		if (v1 - (I) u >= lo) CHECK (tval (BKTimeSubFUInt20 (a, u)) == v1 - (I) u, "sub-fuint", "%lld-%u", (long long) v1, u);
		CHECK (!!BKTimeIsLessFUInt20 (a, u) == (v1 < (I) u), "less-fuint", "%lld<%u", (long long) v1, u);
		CHECK (!!BKTimeIsGreaterFUInt20 (a, u) == (v1 > (I) u), "greater-fuint", "%lld>%u", (long long) v1, u);
		/* around equality */
		{ int64_t d = rr (r, -2, 2); I w = (I) u + d; if (w >= 0) { BKTime x = BKTimeMake ((BKInt) (w >> 20), (BKFUInt20) (w & BK_FINT20_FRAC));
			CHECK (!!BKTimeIsLessFUInt20 (x, u) == (w < (I) u), "less-fuint", "%lld<%u", (long long) w, u);
			CHECK (!!BKTimeIsGreaterFUInt20 (x, u) == (w > (I) u), "greater-fuint", "%lld>%u", (long long) w, u);
			if (w <= UINT32_MAX) CHECK (BKTimeGetFUInt20 (x) == (BKFUInt20) w, "get-fuint", "%lld: %u", (long long) w, BKTimeGetFUInt20 (x)); } }
		/* neutral elements and extremes */
		CHECK (BKTimeIsEqual (BKTimeAdd (a, BK_TIME_ZERO), a) && BKTimeIsEqual (BKTimeSub (a, BK_TIME_ZERO), a), "zero", "%lld +- 0", (long long) v1);
		/* at the last representable time the order is not strict */
		{ BKTime m = BK_TIME_MAX; int last = v1 == lim + BK_FINT20_FRAC; CHECK (!BKTimeIsGreater (a, m) && BKTimeIsLessEqual (a, m) && BKTimeIsGreaterEqual (m, a) && !BKTimeIsLess (m, a), "max", "%lld > max", (long long) v1);
			if (!last) CHECK (BKTimeIsLess (a, m) && BKTimeIsGreater (m, a) && !BKTimeIsEqual (a, m) && !BKTimeIsLessEqual (m, a) && !BKTimeIsGreaterEqual (a, m), "max", "%lld against the last time", (long long) v1);
			CHECK (!BKTimeIsLessFUInt20 (m, u) && BKTimeIsGreaterFUInt20 (m, u), "max", "last time against %u", u); }
		vf_count ("operations", 20);
	}
	/* seconds */
	BKContext ctx; BKUInt rate = (BKUInt) rr (r, 16000, 96000); BKContextInit (&ctx, 1, rate);
	for (int k = 0; k < 30; k ++) {
		double s; int exact = 0;
		switch (rn (r, 4)) {
			case 0: s = 1.0 / (double) rr (r, 1, 1000); break;
			case 1: s = (double) rr (r, 0, 1 << 16) / (1 << rn (r, 16)); exact = 1; break;
			case 2: s = (double) rn (r, 1u << 30) / (double) rr (r, 1, 1 << 30); break;
			default: s = (double) rn (r, 20000); exact = 1; break;
		}
		if (s * rate > 2e9) continue;
		if (exact && chance (r, 40)) s = -s;
		long double want = (long double) s * rate * BK_FINT20_UNIT; I got = tval (BKTimeFromSeconds (&ctx, s));
		if (exact) CHECK ((long double) (int64_t) got == truncl (want), "seconds-exact", "%.17g s at %u: %lld, expected %.4Lf", s, rate, (long long) got, want);
		else CHECK (fabsl ((long double) (int64_t) got - want) <= 1.0L + want * 0x1p-50L, "seconds", "%.17g s at %u: %lld, expected %.4Lf", s, rate, (long long) got, want);
		vf_count ("seconds", 1);
	}
	BKDispose (&ctx);
}
