/* P03 / P04: the slide and interval states themselves (the track attributes driven by them are monitored in p_track.c). */
#include "vf.h"

typedef struct { double start; int64_t target; int64_t n, k; double tol; } SlideModel;   /* k steps done of n */
static const int32_t maxes[] = {0, 0, 32767, 32767, 32767, 65536, 1, 2, 3, 100, 255, 256, 1000, 4095, 1 << 20, (1 << 20) - 1};
static int32_t rval (Rng *r, int32_t M, int32_t last)
{
	int32_t m = M ? M : 96 << 20, v;
	switch (rn (r, 6)) {
		case 0: v = m; break;
		case 1: v = -m; break;
		case 2: v = 0; break;
		case 3: v = last + (int32_t) rr (r, -3, 3); break;
		default: v = (int32_t) rr (r, -m, m); break;
	}
	return v > m ? m : v < -m ? -m : v;
}
static int32_t rsteps (Rng *r)
{
	switch (rn (r, 8)) {
		case 0: return (int32_t) rr (r, 1, 3);
		case 1: return (int32_t) rr (r, 1, 300);
		case 2: return (int32_t) rr (r, 1, 3000);
		case 3: return chance (r, 20) ? 65536 : (int32_t) rr (r, 3000, 40000);
		case 4: return chance (r, 40) ? 0 : 1;
		default: return (int32_t) rr (r, 2, 40);
	}
}
static void slide_set (SlideModel *m, int32_t before, int64_t v, int64_t n, int32_t M)
{
	m->target = v; m->n = n; m->k = 0; m->start = n ? before : v;
	/* resolution of the state: the fixed point fraction shrinks with the maximum value */
	m->tol = 2.0 + n * (M ? (double) M / (1 << 28) : 1.0);
}

void p_P03_state (Rng *r)
{
	int32_t M = PICK (r, maxes), last = 0, prev; BKSlideState s; SlideModel m = {0};
	BKSlideStateInit (&s, M); int nops = (int) rr (r, 2, 14); int32_t steps = 0, target = 0;
	CHECK (BKSlideStateGetValue (&s) == 0, "slide-init", "value %d after init", BKSlideStateGetValue (&s));
	for (int o = 0; o < nops && !vf_failed (); o ++) {
		prev = BKSlideStateGetValue (&s); int kind = (int) rn (r, 10), halted = 0, retarget = 0;
		if (kind < 5) { target = rval (r, M, last); steps = rsteps (r); BKSlideStateSetValueAndSteps (&s, target, steps); slide_set (&m, prev, target, steps, M); retarget = steps != 0; }
		else if (kind < 7) { target = rval (r, M, last); BKSlideStateSetValue (&s, target); slide_set (&m, prev, target, steps, M); retarget = steps != 0; }
		else if (kind < 9) { steps = rsteps (r); BKSlideStateSetSteps (&s, steps); slide_set (&m, prev, target, steps, M); retarget = steps != 0; }
		else { int set = (int) rn (r, 2); BKSlideStateHalt (&s, set); halted = 1; if (set) { m.start = m.target; m.k = m.n = 0; } else { m.start = prev; m.k = m.n = 0; } }
		int32_t v = BKSlideStateGetValue (&s), first = v;
		TRACE ("op %d M %d target %d steps %d: %d -> %d\n", kind, M, target, steps, prev, v);
		if (retarget) CHECK (llabs ((long long) v - prev) <= 1, "slide-jump", "value %d became %d when the slide to %d in %d steps was set", prev, v, target, steps);
		else if (halted) CHECK (v == (int32_t) m.start || (m.start == prev && abs (v - prev) <= 1), "slide-halt", "value %d after halt, expected %.0f", v, m.start);
		else CHECK (v == target, "slide-zero-steps", "value %d after setting %d without steps", v, target);
		int32_t todo = chance (r, 60) ? (int32_t) m.n + (int32_t) rr (r, 0, 5) : (int32_t) rr (r, 0, (m.n ? m.n : 4));
		if (todo > 70000) todo = 70000;
		for (int32_t i = 0; i < todo; i ++) {
			int32_t p = v; BKSlideStateStep (&s); v = BKSlideStateGetValue (&s);
			if (halted) { CHECK_RET (v == first, "slide-halt-moves", "halted value moved from %d to %d", first, v); continue; }
			if (m.k < m.n) m.k ++;
			if (m.n) {
				int up = m.target > first;
				CHECK_RET (m.target == first || (up ? v >= p : v <= p), "slide-monotone", "step %lld of %lld from %d to %lld: %d after %d", (long long) m.k, (long long) m.n, first, (long long) m.target, v, p);
				/* the displayed start may be rounded to the target or one beyond */
				CHECK_RET (up ? v <= m.target : v >= m.target || (first < m.target), "slide-overshoot", "step %lld of %lld from %d to %lld: %d", (long long) m.k, (long long) m.n, first, (long long) m.target, v);
				double want = m.start + ((double) m.target - m.start) * m.k / m.n;
				CHECK_RET (fabs (v - want) <= m.tol, "slide-linear", "step %lld of %lld from %.0f to %lld: %d, expected about %.2f", (long long) m.k, (long long) m.n, m.start, (long long) m.target, v, want);
			}
			if (m.k == m.n) CHECK_RET (v == m.target || (m.n == 0 && v == first), "slide-arrival", "value %d after %lld steps, target %lld", v, (long long) m.n, (long long) m.target);
		}
		vf_count ("slide_steps", todo); last = v;
		vf_sig (vf_mix (vf_mix (kind, M), vf_mix (31 - __builtin_clz (steps | 1), (target > first) * 2 + (m.k == m.n))));
	}
}

static int32_t tri_num (int64_t j, int64_t n, int32_t d, double *out)   /* ideal value at step j */
{
	j %= 4 * n; double f = j < n ? (double) j / n : j < 3 * n ? 2 - (double) j / n : (double) j / n - 4;
	*out = f * d; return 0;
}

static double interval_tol (int32_t n, int32_t M) { return 2 + n * (M ? (double) M / (1 << 27) : 1.0); }
void p_P04_state (Rng *r)
{
	BKIntervalState s; int32_t M = PICK (r, maxes); BKIntervalStateInit (&s, M);
	int32_t d = 0, n = 0, v; int nops = (int) rr (r, 1, 8); int fresh = 1;
	CHECK (BKIntervalStateGetValue (&s) == 0, "interval-init", "value %d after init", BKIntervalStateGetValue (&s));
	for (int o = 0; o < nops && !vf_failed (); o ++) {
		int32_t pv = BKIntervalStateGetValue (&s), pd = d, pn = n; int kind = (int) rn (r, 6), same = 0;
		int32_t nn = chance (r, 85) ? (int32_t) rr (r, 1, chance (r, 10) ? 2000 : 40) : chance (r, 50) ? 0 : (int32_t) rr (r, 1, 65536), nd = rval (r, M, d);
		if (kind < 3) BKIntervalStateSetDeltaAndSteps (&s, d = nd, n = nn);
		else if (kind < 4 && n) BKIntervalStateSetDelta (&s, d = nd);
		else if (kind < 5) { if (n && !nn) nd = 0; BKIntervalStateSetSteps (&s, n = nn); }
		else { BKIntervalStateSetDeltaAndSteps (&s, d, n); same = 1; }
		if (pn && (n != pn || d != pd)) fresh = 0;
		v = BKIntervalStateGetValue (&s); TRACE ("op %d M %d d %d->%d n %d->%d v %d->%d\n", kind, M, pd, d, pn, n, pv, v);
		int64_t D = llabs ((long long) d);
		CHECK_RET (llabs ((long long) v) <= D, "interval-depth", "value %d exceeds depth %d after change from depth %d steps %d to steps %d", v, d, pd, pn, n);
		if (n == 0) { CHECK_RET (v == 0, "interval-off", "value %d without steps", v); d = 0; n = 0; fresh = 1; continue; }
		if (same && pn) CHECK_RET (v == pv, "interval-same", "setting the same values changed the value from %d to %d", pv, v);
		else if (pn && !fresh) {
			double want = pd ? (double) pv * d / pd : v, tol = (double) D / n + (double) D / 128 + interval_tol (n, M) + (pd ? (double) D / pn + interval_tol (pn, M) * D / labs (pd) : 0);
			CHECK_RET (fabs (v - want) <= tol, "interval-jump", "value %d of depth %d steps %d became %d of depth %d steps %d (expected about %.1f)", pv, pd, pn, v, d, n, want);
		}
		/* run: bounded always; once a full zero/peak was passed, exactly periodic */
		int64_t run = chance (r, 60) ? 8LL * n + rn (r, 5) : rr (r, 0, 9LL * n); if (run > 300000) run = 300000;
		int32_t *h = malloc ((run + 1) * sizeof *h); h[0] = v;
		double tol = 1.5 + n * (M ? (double) M / (1 << 27) : 1.0);
		for (int64_t i = 1; i <= run && !vf_failed (); i ++) {
			BKIntervalStateStep (&s); h[i] = BKIntervalStateGetValue (&s);
			/* rises or falls by the same amount with every step, also after it was changed */
			if (fabs (fabs ((double) h[i] - h[i - 1]) - (double) D / n) > interval_tol (n, M)) vf_fail ("interval-speed", "value changes from %d to %d at step %lld, expected by %.2f (depth %d steps %d)", h[i - 1], h[i], (long long) i, (double) D / n, d, n);
			if (llabs ((long long) h[i]) > D) vf_fail ("interval-depth", "value %d exceeds depth %d at step %lld of %d", h[i], d, (long long) i, n);
			if (i >= 4LL * n && h[i] != h[i - 4LL * n] && (fresh || i >= 5LL * n)) vf_fail ("interval-period", "value %d at step %lld differs from %d one period of 4*%d earlier", h[i], (long long) i, h[i - 4LL * n], n);
			if (i >= 2LL * n && (fresh || i >= 3LL * n) && llabs ((long long) h[i] + h[i - 2LL * n]) > 1) vf_fail ("interval-symmetry", "value %d at step %lld, %d half a period of 2*%d earlier", h[i], (long long) i, h[i - 2LL * n], n);
			if (fresh) {
				double want; tri_num (i, n, d, &want);
				if (i % n == 0 ? h[i] != (int32_t) want : fabs (h[i] - want) > tol) vf_fail ("interval-shape", "value %d at step %lld of %d depth %d, expected %.2f", h[i], (long long) i, n, d, want);
			}
		}
		if (!fresh && run >= 6LL * n && !vf_failed () && D) {       /* reaches both ends and zero */
			int64_t mn = 0, mx = 0; for (int64_t i = 2LL * n; i <= run; i ++) { if (h[i] < mn) mn = h[i]; if (h[i] > mx) mx = h[i]; }
			CHECK (mx == D && mn == -D, "interval-peaks", "oscillates %lld..%lld, depth %d steps %d", (long long) mn, (long long) mx, d, n);
		}
		if (run % (4LL * n) || run) fresh = 0;
		free (h); vf_count ("interval_steps", run);
		vf_sig (vf_mix (vf_mix (kind, M), vf_mix (31 - __builtin_clz (n), (d > 0) * 4 + (pn > n) * 2 + (labs (pd) > D))));
	}
}
VF_PROP (P03) { p_P03_state (r); }
VF_PROP (P04) { p_P04_state (r); }
