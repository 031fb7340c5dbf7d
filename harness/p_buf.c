/* S03: band-limited steps of output buffers. */
#include "vf.h"
#include "ref.h"

static double kref[2][32][32]; static int kdone;
/* the two kernels from their definition: windowed sinc, and summed odd overtones of a square wave (differentiated, windowed) */
static void make_ref (void)
{
	if (kdone) return; kdone = 1;
	for (int p = 0; p < 32; p ++) {
		double v[33], sum = 0, w[33];
		for (int i = 0; i < 32; i ++) {
			double x = i - 16 - p / 32.0 + 1.0 / 64, b = i + .5;
			v[i] = sin (M_PI * x) / (M_PI * x) * (.42 - .5 * cos (2 * M_PI * b / 32) + .08 * cos (4 * M_PI * b / 32)); sum += v[i];
		}
		for (int i = 0; i < 32; i ++) kref[BK_PULSE_KERNEL_SINC][p][i] = v[i] / sum * 32767;
		for (int i = 0; i <= 32; i ++) { w[i] = 0; for (int n = 1; n <= 31; n += 2) w[i] += sin (n * (i - 16 - p / 32.0) * M_PI / 31) / n; }
		sum = w[32] - w[0];
		for (int i = 1; i <= 32; i ++) { double b = i - .5; kref[BK_PULSE_KERNEL_HARM][p][i - 1] = (w[i] - w[i - 1]) / sum * (.42 - .5 * cos (2 * M_PI * b / 32) + .08 * cos (4 * M_PI * b / 32)) * 32767; }
	}
}
static void kernel_case (void)
{
	make_ref ();
	for (int k = 0; k < 2; k ++) for (int p = 0; p < 32; p ++) {
		const BKFrame *f = BKBufferPulseKernels[k]->frames[p]; long sum = 0; double cen = 0;
		for (int i = 0; i < 32; i ++) {
			sum += f[i]; cen += (double) f[i] * i;
			double tol = i == 16 ? (k == BK_PULSE_KERNEL_SINC ? 20 : 600) : 1.5;       /* the middle takes up the rounding of the sum */
			CHECK (fabs (f[i] - kref[k][p][i]) <= tol, "kernel-shape", "kernel %d phase %d sample %d: %d, band-limited step %.1f", k, p, i, f[i], kref[k][p][i]);
		}
		CHECK (sum == 32767, "kernel-gain", "kernel %d phase %d settles at %ld of 32767", k, p, sum);
		cen = cen / 32767 - p / 32.0; double want = k == BK_PULSE_KERNEL_SINC ? 15.984 : 15.46;
		CHECK (fabs (cen - want) < 0.05, "kernel-centre", "kernel %d phase %d is centred %.3f frames late", k, p, cen - want);
		vf_sig (vf_mix (1, k * 32 + p));
	}
	vf_count ("kernel_rows", 64);
}

/* any kernel may be given: also one which does not start or end with zero, or is not a step at all */
static BKBufferPulse *own_kernel (Rng *r)
{
	BKBufferPulse *k = malloc (sizeof *k); int w = (int) rn (r, 4);
	for (int p = 0; p < 32; p ++) for (int i = 0; i < 32; i ++) k->frames[p][i] = (BKFrame) (w == 0 ? rr (r, -32768, 32767) : w == 1 ? (i == 31 ? 32767 : 0) : w == 2 ? (i == 0 ? 20000 : i == 31 ? 12767 : 0) : rr (r, -3000, 3000));
	vf_count ("own_kernels", 1); return k;
}

/* pulses at random times, read in random portions, against the reference */
static void buffer_case (Rng *r)
{
	BKBuffer *b = malloc (sizeof *b); memset (b, 0xA5, sizeof *b);
	BKBufferInit (b);
	const BKBufferPulse *k = BKBufferPulseKernels[BK_PULSE_KERNEL_HARM];         /* default */
	BKBufferPulse *own = NULL; if (chance (r, 25)) { k = own = own_kernel (r); b->pulse = k; }
	RefChan rc; int rounds = (int) rr (r, 1, 30); uint64_t base = 0, end = 0; size_t nread = 0, total = 0, cap = (size_t) rounds * 1100 + 64;
	rc_init (&rc, cap, k);
	int clears = chance (r, 20), density = (int) rn (r, 4), big = chance (r, 30); int64_t level = 0; unsigned il = (unsigned) rr (r, 0, 4), step = il ? il : 1;
	BKFrame *out = malloc (sizeof (BKFrame) * 4200 * 5);
	for (int i = 0; i < rounds && !vf_failed (); i ++) {
		uint32_t len = (uint32_t) (chance (r, 20) ? rn (r, 3 << 20) : chance (r, 20) ? (uint64_t) 1024 << 20 : rn (r, 1024ULL << 20));
		if ((end + len) / (1 << 20) - nread > 3000) len = 0;
		int np = density == 0 ? (int) rn (r, 3) : density == 1 ? (int) rn (r, 40) : density == 2 ? (int) rn (r, 2000) : (int) rn (r, 12);
		for (int p = 0; p < np; p ++) {
			uint32_t t = len ? (uint32_t) rn (r, len) : 0; if (chance (r, 10)) t &= ~BK_FINT20_FRAC;
			int32_t h;
			if (big) h = (int32_t) rr (r, -65534, 65534); else { int64_t nl = rr (r, -32767, 32767) / (density == 2 ? 4 : 1); h = (int32_t) (nl - level); level = nl; }
			if (chance (r, 3)) h = 0;
			if (chance (r, 4)) { int16_t fr = (int16_t) h; BKBufferAddFrame (b, t, fr); rc.acc[(base + t) >> 20] += 32767LL * fr; vf_count ("frames_added", 1); }
			else { BKBufferAddPulse (b, t, h); rc_step (&rc, base + t, h); }
		}
		vf_count ("pulses", np);
		if (chance (r, 15)) BKBufferEnd (b, (uint32_t) rn (r, (uint64_t) len + 1));
		BKBufferEnd (b, len); BKBufferShift (b, len); base += len; end = base;
		size_t avail = (size_t) (end >> 20) - nread;
		CHECK ((size_t) BKBufferSize (b) == avail, "buffer-size", "size %d, %zu frames unread", BKBufferSize (b), avail);
		size_t want = chance (r, 70) ? avail : (size_t) rn (r, avail + 1);
		for (size_t j = 0; j < 4200 * (size_t) step && j < 4200 * 5; j ++) out[j] = 0x5a5a;
		size_t got = (size_t) BKBufferRead (b, out, (BKUInt) want, il);
		CHECK_RET (got == want, "buffer-read-count", "read %zu of %zu available gave %zu", want, avail, got);
		for (size_t j = 0; j < got; j ++) {
			BKFrame w = rc_next (&rc), g = out[j * step];
			if (w != g) { vf_fail (rc.hp >> 14 > 32767 || rc.hp >> 14 < -32768 ? "step-clamp" : "step-render", "frame %zu (read %zu of %zu at round %d): %d, steps written sum to %d", nread + j, j, got, i, g, w); break; }
			for (unsigned q = 1; q < step; q ++) if (out[j * step + q] != 0x5a5a) { vf_fail ("buffer-interlace", "frame of another channel overwritten"); break; }
			if (rc.hp >> 14 > 32767 || rc.hp >> 14 < -32768) vf_count ("clamped_frames", 1);
		}
		nread += got; total += got;
		if (clears && chance (r, 15)) {
			BKBufferClear (b); rc_free (&rc); rc_init (&rc, cap, k); base = end = 0; nread = 0; level = 0;
			CHECK (BKBufferSize (b) == 0, "clear-size", "size %d after clear", BKBufferSize (b)); vf_count ("clears", 1);
			if (chance (r, 50)) {     /* nothing of the old signal is left */
				BKBufferEnd (b, 600u << 20); BKBufferShift (b, 600u << 20); got = (size_t) BKBufferRead (b, out, 600, 1);
				CHECK (got == 600, "clear-read", "read %zu", got);
				for (size_t j = 0; j < got; j ++) if (out[j]) { vf_fail ("clear-residue", "frame %zu after clear is %d", j, out[j]); break; }
				base = end = 600ULL << 20; nread = 600; rc.pos = 600;
			}
		}
	}
	vf_count ("frames", total); vf_sig (vf_mix (2, vf_mix (density * 2 + big, rounds)));
	rc_free (&rc); BKBufferDispose (b); free (b); free (out); free (own);
}

/* one step by itself: position independent, settles at twice its height, decays to silence, and superposition */
static void step_case (Rng *r)
{
	BKBuffer b[3]; BKFrame o[3][1200];
	int32_t h1 = (int32_t) rr (r, -8000, 8000), h2 = (int32_t) rr (r, -8000, 8000); uint32_t fr = (uint32_t) rn (r, 1 << 20), p1 = (uint32_t) rr (r, 0, 900), p2 = (uint32_t) rr (r, 0, 900);
	for (int i = 0; i < 3; i ++) BKBufferInit (&b[i]);
	uint32_t t1 = (p1 << 20) + fr, t2 = (p2 << 20) + (uint32_t) rn (r, 1 << 20), t3 = (p2 << 20) + fr;
	int pos = chance (r, 50);
	BKBufferAddPulse (&b[0], t1, h1); BKBufferAddPulse (&b[1], pos ? t3 : t2, pos ? h1 : h2);
	BKBufferAddPulse (&b[2], t1, h1); if (!pos) BKBufferAddPulse (&b[2], t2, h2);
	for (int i = 0; i < 3; i ++) { BKBufferEnd (&b[i], 1000u << 20); BKBufferShift (&b[i], 1000u << 20); CHECK_RET (BKBufferRead (&b[i], o[i], 1000, 1) == 1000, "step-read", "short read"); }
	for (uint32_t j = 0; j < 1000 && !vf_failed (); j ++) {
		if (pos) {
			/* same step at another frame: the same ripple there */
			uint32_t j2 = j - p1 + p2; if (j >= p1 && j2 < 1000) CHECK (o[0][j] == o[1][j2], "step-position", "step of %d at frame %u and at %u differ: %d %d", h1, p1, p2, o[0][j], o[1][j2]);
			if (j < p1) CHECK (o[0][j] == 0, "step-early", "output %d before the step", o[0][j]);
			if (j == p1 + 40 && j < 1000) { double w = 2.0 * h1 * pow (1 - 1 / 512.0, 24); CHECK (fabs (o[0][j] - w) <= fabs (w) * .02 + 3, "step-height", "step of %d settles at %d, expected %.0f", h1, o[0][j], w); }
		}
		else CHECK (abs (o[0][j] + o[1][j] - o[2][j]) <= 2, "step-linear", "frame %u: %d + %d gave %d", j, o[0][j], o[1][j], o[2][j]);
	}
	vf_count ("single_steps", 2); vf_sig (vf_mix (3, pos * 64 + (fr >> 15)));
}

/* through a context: a custom wave as a source of known steps on every channel; kernel selection; decay after removal */
static void context_case (Rng *r)
{
	unsigned ch = (unsigned) rr (r, 1, 8), total = (unsigned) rr (r, 200, 6000); BKContext ctx; BKUnit u; BKData d; BKFrame w[64]; int n = (int) rr (r, 2, 64);
	BKContextInit (&ctx, ch, 44100); BKUnitInit (&u, BK_SQUARE); BKDataInit (&d);
	for (int i = 0; i < n; i ++) w[i] = (BKFrame) (chance (r, 20) ? (chance (r, 50) ? 32767 : -32768) : rr (r, -32768, 32767));
	BKDataSetFrames (&d, w, (BKUInt) n, 1, 1);
	int kern = (int) rn (r, 4); BKBufferPulse *own = kern == 3 ? own_kernel (r) : NULL; const BKBufferPulse *k = own ? own : BKBufferPulseKernels[kern == 2 ? BK_PULSE_KERNEL_HARM : kern], *kg = NULL;
	if (kern < 2 || kern == 3) CHECK (BKSetPtr (&ctx, BK_PULSE_KERNEL, (void *) k, sizeof (void *)) == 0, "kernel-set", "refused");
	else if (chance (r, 50)) { BKSetPtr (&ctx, BK_PULSE_KERNEL, (void *) BKBufferPulseKernels[0], sizeof (void *)); BKSetPtr (&ctx, BK_PULSE_KERNEL, NULL, sizeof (void *)); }
	CHECK (BKGetPtr (&ctx, BK_PULSE_KERNEL, &kg, sizeof kg) == 0 && kg == k, "kernel-get", "kernel does not read back");
	BKUnitAttach (&u, &ctx); BKSetPtr (&u, BK_WAVEFORM, &d, sizeof (void *));
	uint32_t period = (uint32_t) rr (r, 16384, chance (r, 50) ? 2 << 20 : 200 << 20); BKSetAttr (&u, BK_PERIOD, (BKInt) period);
	int vol[8]; RefChan rc[8]; uint64_t t = 0; int64_t last[8] = {0}; unsigned off = (unsigned) rr (r, total / 2, total); int ph = 0;
	for (unsigned c = 0; c < ch; c ++) { vol[c] = (int) rr (r, 1, 32767); BKSetAttr (&u, BK_VOLUME_0 + c, vol[c]); rc_init (&rc[c], total + 2000, k); }
	BKFrame *out = malloc (sizeof (BKFrame) * ch * (total + 1000)); unsigned done = 0;
	while (done < off) { unsigned m = (unsigned) rr (r, 1, 900); if (m > off - done) m = off - done; BKContextGenerate (&ctx, out + done * ch, m); done += m; }
	for (; t < (uint64_t) off << 20; t += period, ph = (ph + 1) % n) for (unsigned c = 0; c < ch; c ++) { int64_t v = ((int64_t) w[ph] * vol[c]) >> 15; rc_step (&rc[c], t, v - last[c]); last[c] = v; }
	/* no further steps: the level decays */
	BKSetAttr (&u, BK_MUTE, 1);
	while (done < total) { unsigned m = (unsigned) rr (r, 1, 1024); if (m > total - done) m = total - done; BKContextGenerate (&ctx, out + done * ch, m); done += m; }
	for (unsigned i = 0; i < total && !vf_failed (); i ++) for (unsigned c = 0; c < ch; c ++) {
		BKFrame want = rc_next (&rc[c]);
		if (want != out[i * ch + c]) { vf_fail ("context-render", "channel %u of %u frame %u kernel %d: %d, expected %d", c, ch, i, kern, out[i * ch + c], want); break; }
	}
	for (unsigned c = 0; c < ch; c ++) rc_free (&rc[c]);
	/* decays to silence */
	for (int i = 0; i < 16; i ++) BKContextGenerate (&ctx, out, 1000 > total + 1000 ? total : 1000);
	for (unsigned i = 0; i < 1000 * ch; i ++) if (abs (out[i]) > 1) { vf_fail ("decay", "still %d after 15000 frames of silence", out[i]); break; }
	vf_count ("context_frames", (uint64_t) total * ch); vf_sig (vf_mix (4, ch * 4 + kern));
	free (out); BKDispose (&u); BKDispose (&d); BKDispose (&ctx); free (own);
}

VF_PROP (S03)
{
	int k = (int) rn (r, 100);
	if (k < 2) kernel_case (); else if (k < 50) buffer_case (r); else if (k < 75) step_case (r); else context_case (r);
}
