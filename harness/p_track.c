/* Track model: what a track's effects, instrument and note state make of the attributes of its unit at every tick of the effect clock, and
   what of these is heard. Slide and interval states are driven in parallel with stand-alone states (monitored by themselves in p_interp.c);
   sequences, dividers, arpeggios, notes, volume and pitch are modelled here. Drivers: P02 P03_track P04_track P05 P06 P08 T02_track. */
#include "vf.h"
#include "ref.h"
enum { DONE = INT32_MAX, NIN = 3, NDT = 2, NT = 2 };
typedef struct { int used, env, len, so, sl; int32_t v[300]; uint32_t n[300]; } SeqD;
typedef struct { SeqD q[4]; BKInstrument *obj; } InsD;
typedef struct { int off; double c, e; int64_t n, k; double c0, e0, end; } SeqS;          /* value c +- e */
typedef struct {
	BKTrack *t; int wave, count, duty, uduty, master, tri, mute, cur, release, sus, data, pan2; BKSlideState vol, pan, note, td, ts, vd, vs; BKIntervalState tr, vi; int fv, fp, fn, ft, fi, fa;
	int aoff, acount; int32_t adelta, an[8]; struct { int d, c; } da, di, de; int32_t pitch, spitch; int ins, iph, nact; SeqS q[4]; int cx, ch, rate;      /* context, or -1 */
	/* what is heard */
	RefChan rc[2]; int32_t last[2]; uint32_t phase; uint64_t time; int audio, uvol[8]; int64_t uper;
} TM;
typedef struct { int ch, rate, nt, spt, nctx, ch2, rate2; BKContext ctx, ctx2; InsD in[NIN]; BKData d[NDT]; BKFrame df[NDT][64]; int dn[NDT]; int32_t dpitch[NDT]; TM m[NT]; uint64_t ticks, now; unsigned focus; } W;
enum { F_VOL = 1, F_SLIDE = 2, F_OSC = 4, F_ARP = 8, F_INS = 16, F_NOTE = 32, F_DIV = 64, F_PITCH = 128 };
static const int32_t seqdef[4] = {32767, 0, 0, 0};
static int clampi (int64_t v, int64_t lo, int64_t hi) { return (int) (v < lo ? lo : v > hi ? hi : v); }

/* ---- sequences ---- */
static void sq_value (SeqS *s, double v) { s->c = v; s->e = 0; if (s->n) { s->n -= s->k; s->k = 0; s->c0 = v; s->e0 = 0; } }
static int sq_step (SeqS *s, const SeqD *d, int attack, int divided);
static void sq_range (const SeqS *s, int64_t *lo, int64_t *hi);
static int sq_phase (SeqS *s, const SeqD *d, int ph)
{
	if (ph == BK_SEQUENCE_PHASE_MUTE && d->env) { int64_t lo, hi; sq_range (s, &lo, &hi); s->c = (lo + hi) / 2.0; s->e = (hi - lo) / 2.0; }      /* keeps the whole value only */
	s->n = s->k = 0; s->off = ph == BK_SEQUENCE_PHASE_MUTE ? d->len : ph == BK_SEQUENCE_PHASE_ATTACK ? 0 : d->so + d->sl;
	if (s->off >= d->len) { s->off = DONE; return 0; }
	if (!d->env) s->c = d->v[s->off], s->e = 0;
	else return !sq_step (s, d, ph == BK_SEQUENCE_PHASE_ATTACK, 0);      /* heads for its first level */
	return 1;
}
static double sq_scale (const SeqD *d) { double m = 16; for (int i = 0; i < d->len; i ++) if (fabs ((double) d->v[i]) > m) m = fabs ((double) d->v[i]); int b = 0; while ((1LL << b) <= m && b < 30) b ++; return 1.0 / (1 << (30 - b)); }
static int sq_step (SeqS *s, const SeqD *d, int attack, int divided)      /* 1: has just finished */
{
	if (s->off == DONE || (!d->env && !divided)) return 0;
	int send = d->so + d->sl;
	if (!d->env) {
		if (attack && s->off >= send) s->off = d->so;
		if (s->off >= d->len) { s->off = DONE; return 1; }
		s->c = d->v[s->off ++]; s->e = 0; return 0;
	}
	if (s->n && ++ s->k < s->n) { double f = (double) s->k / s->n; s->c = s->c0 + (s->end - s->c0) * f; s->e = s->e0 * (1 - f) + s->k * sq_scale (d) + 1e-6 * fabs (s->c); return 0; }
	for (;;) {
		if (s->n) { s->c = s->end; s->e = 0; s->n = s->k = 0; s->off ++; }
		if (attack && s->off >= send) s->off = d->so;
		if (s->off >= d->len) { s->off = DONE; return 1; }
		if (d->n[s->off]) { s->n = d->n[s->off] > INT32_MAX ? INT32_MAX : d->n[s->off]; s->k = 0; s->c0 = s->c; s->e0 = s->e; s->end = d->v[s->off]; return 0; }
		s->c = d->v[s->off ++]; s->e = 0;
	}
}
static void sq_range (const SeqS *s, int64_t *lo, int64_t *hi)
{
	double a = s->c - s->e, b = s->c + s->e;
	if (s->n) { double mn = s->c0 - s->e0 < s->end ? s->c0 - s->e0 : s->end, mx = s->c0 + s->e0 > s->end ? s->c0 + s->e0 : s->end; if (a < mn) a = mn; if (b > mx) b = mx; }
	*lo = (int64_t) floor (a); *hi = (int64_t) floor (b);
}

/* ---- notes and instruments ---- */
static void tm_note (W *w, TM *m, int32_t v);
static void tm_instr_phase (W *w, TM *m, int ph)
{
	if (m->ins < 0 || (m->iph == BK_SEQUENCE_PHASE_RELEASE && ph == BK_SEQUENCE_PHASE_RELEASE)) return;
	InsD *in = &w->in[m->ins]; m->nact = 0;
	for (int i = 0; i < 4; i ++) if (in->q[i].used) m->nact += sq_phase (&m->q[i], &in->q[i], ph);
	if (!m->nact && ph == BK_SEQUENCE_PHASE_RELEASE) ph = BK_SEQUENCE_PHASE_MUTE;
	if (ph != BK_SEQUENCE_PHASE_MUTE) m->iph = ph;
	else if (m->iph != ph) { m->iph = ph; tm_note (w, m, BK_NOTE_MUTE); }
}
static void tm_defaults (W *w, TM *m) { for (int i = 0; i < 4; i ++) { m->q[i].n = m->q[i].k = 0; sq_value (&m->q[i], w->in[m->ins].q[i].used ? 0 : seqdef[i]); } }
static void tm_attack (W *w, TM *m) { if (w->in[m->ins].q[BK_SEQUENCE_DUTY_CYCLE].used) sq_value (&m->q[BK_SEQUENCE_DUTY_CYCLE], m->duty); m->di.c = 0; tm_instr_phase (w, m, BK_SEQUENCE_PHASE_ATTACK); }
static void tm_note (W *w, TM *m, int32_t v)
{
	if (v >= 0) {
		v = clampi (v, 0, BK_MAX_NOTE << 20); BKSlideStateSetValue (&m->note, v);
		if (m->cur < 0) { BKSlideStateHalt (&m->note, 1); if (m->ins >= 0) tm_attack (w, m); m->aoff = 0; }
		m->cur = v; m->mute = 0; m->release = 0;
	}
	else if (v == BK_NOTE_RELEASE) {
		m->cur = -1;
		if (m->ins >= 0) { tm_instr_phase (w, m, BK_SEQUENCE_PHASE_RELEASE); if (m->sus) m->release = 1; }
		else if (m->sus) m->release = 1;
		else { BKSlideStateHalt (&m->note, 0); m->mute = 1; }
	}
	else if (v == BK_NOTE_MUTE) { m->cur = -1; BKSlideStateHalt (&m->note, 1); if (m->ins >= 0) tm_instr_phase (w, m, BK_SEQUENCE_PHASE_MUTE); m->mute = 1; m->release = 0; }
}
static void tm_instr (W *w, TM *m, int ins)
{
	if (ins == m->ins) return;
	m->ins = ins;
	if (ins >= 0) {
		for (int i = 0; i < 4; i ++) m->q[i].n = m->q[i].k = 0;
		tm_defaults (w, m); tm_instr_phase (w, m, BK_SEQUENCE_PHASE_ATTACK); m->iph = BK_SEQUENCE_PHASE_ATTACK; m->di.c = 0;
		if (w->in[ins].q[BK_SEQUENCE_DUTY_CYCLE].used) sq_value (&m->q[BK_SEQUENCE_DUTY_CYCLE], m->duty);
		if (m->cur < 0) tm_instr_phase (w, m, BK_SEQUENCE_PHASE_MUTE); else tm_attack (w, m);
	}
	else if (m->cur < 0) tm_note (w, m, BK_NOTE_MUTE);
}
static int div_tick (int d, int *c) { int t = 0; if (*c == 0) { *c = d; t = 1; } -- *c; return t; }
static void osc (BKSlideState *d, BKSlideState *s, BKIntervalState *o)
{
	if (d->steps) { BKSlideStateStep (d); BKSlideStateStep (s); BKIntervalStateSetDeltaAndSteps (o, BKSlideStateGetValue (d), BKSlideStateGetValue (s)); }
	BKIntervalStateStep (o);
}
static void tm_setduty (TM *m, int d);
static void tm_check (W *w, TM *m, const char *when);
static void tm_tick (W *w, TM *m)
{
	if (m->fa && div_tick (m->da.d, &m->da.c)) { m->adelta = m->an[m->aoff ++]; if (m->aoff >= m->acount) m->aoff = 0; vf_count ("arpeggio_steps", 1); }
	if (m->ins >= 0) {
		int dv = div_tick (m->di.d, &m->di.c); InsD *in = &w->in[m->ins];
		for (int i = 0; i < 4; i ++) if (in->q[i].used && sq_step (&m->q[i], &in->q[i], m->iph == BK_SEQUENCE_PHASE_ATTACK, dv)) { vf_count ("sequence_ends", 1); if (-- m->nact == 0) { vf_count ("instrument_ends", 1); tm_instr_phase (w, m, BK_SEQUENCE_PHASE_MUTE); } }
	}
}
static void tm_effects (W *w, TM *m)
{
	if (!(m->fv | m->fp | m->fn | m->ft | m->fi) || !div_tick (m->de.d, &m->de.c)) return;
	if (m->fn) BKSlideStateStep (&m->note);
	if (m->fv) BKSlideStateStep (&m->vol);
	if (m->fp) BKSlideStateStep (&m->pan);
	if (m->ft) osc (&m->td, &m->ts, &m->tr);
	if (m->fi) osc (&m->vd, &m->vs, &m->vi);
	vf_count ("effect_steps", 1);
}
static void volumes (const W *w, const TM *m, int64_t iv, int64_t ip, int *v0, int *v1)
{
	int64_t v = BKSlideStateGetValue (&m->vol), p = BKSlideStateGetValue (&m->pan); int ign = m->wave == BK_TRIANGLE && m->tri;
	if (ign) { v = v ? 32767 : 0; if (m->ins >= 0 && iv == 0) v = 0; }
	else { if (m->ins >= 0) v = (v * iv) >> 15; if (m->ft) v = (v * (32767 - llabs ((long long) BKIntervalStateGetValue (&m->tr)))) >> 15; }
	if (m->ins >= 0) p += ip;
	v = (clampi (v, 0, 32767) * (int64_t) m->master) >> 15; *v0 = *v1 = (int) v;
	if (m->pan2 && p) { p = clampi (p, -32767, 32767); if (p > 0) *v0 = (int) (((32767 - p) * v) >> 15); else *v1 = (int) (((32767 + p) * v) >> 15); }
}
static void tm_audio (W *w, TM *m, uint64_t T);
static BKInt at (TM *m, BKEnum a) { BKInt v = -12345; BKInt e = BKGetAttr (m->t, a, &v); if (e != 0) vf_fail ("track-get", "attribute %u can not be read: %d", a, e); return v; }
/* compare the attributes of the unit after a tick; called with the state of the tick (before its effect step) */
static void tm_check (W *w, TM *m, const char *when)
{
	int id = (int) (m - w->m); int64_t vl = 32767, vh = 32767, pl = 0, ph = 0, nl = 0, nh = 0, dl = 0, dh = 0;
	if (m->ins >= 0) { sq_range (&m->q[0], &vl, &vh); sq_range (&m->q[1], &pl, &ph); sq_range (&m->q[2], &nl, &nh); sq_range (&m->q[3], &dl, &dh); }
	int mute = at (m, BK_MUTE); CHECK_RET (mute == m->mute, "track-mute", "track %d is %smuted %s, expected %smuted", id, mute ? "" : "un", when, m->mute ? "" : "un");
	BKInt cur = at (m, BK_NOTE); CHECK_RET (cur == m->cur, "track-note", "track %d plays note %d %s, expected %d", id, cur, when, m->cur);
	int wv = at (m, BK_WAVEFORM); CHECK_RET (wv == m->wave || (m->data >= 0 && wv != 0), "track-waveform", "track %d has waveform %x %s, expected %x", id, wv, when, m->wave);
	if (m->mute) { int d = at (m, BK_DUTY_CYCLE); if (d != m->uduty) tm_setduty (m, d); vf_count ("muted_ticks", 1); return; }
	vf_count ("audible_ticks", 1);
	/* loudness */
	int lo[2] = {INT32_MAX, INT32_MAX}, hi[2] = {-1, -1}, v0, v1;
	for (int i = 0; i < 4; i ++) { volumes (w, m, i & 1 ? vh : vl, i & 2 ? ph : pl, &v0, &v1); if (v0 < lo[0]) lo[0] = v0; if (v0 > hi[0]) hi[0] = v0; if (v1 < lo[1]) lo[1] = v1; if (v1 > hi[1]) hi[1] = v1; }
	if (m->wave == BK_TRIANGLE && m->tri && m->ins >= 0 && vl <= 0 && vh > 0) { volumes (w, m, 0, pl, &v0, &v1); lo[0] = lo[1] = 0; }
	else if (m->wave == BK_TRIANGLE && m->tri && m->ins >= 0 && vl < 0 && vh >= 0) lo[0] = lo[1] = 0;
	for (int c = 0; c < m->ch; c ++) {
		int g = at (m, BK_VOLUME_0 + c), k = m->ch == 2 && c == 1; m->uvol[c] = g;
		CHECK_RET (g >= lo[k] && g <= hi[k], "track-level", "track %d has level %d on channel %d %s, expected %d..%d (volume %d master %d panning %d instrument %lld..%lld %lld..%lld tremolo %d)", id, g, c, when, lo[k], hi[k], BKSlideStateGetValue (&m->vol), m->master, BKSlideStateGetValue (&m->pan), (long long) vl, (long long) vh, (long long) pl, (long long) ph, m->ft ? BKIntervalStateGetValue (&m->tr) : 0);
	}
	/* duty cycle */
	int d = at (m, BK_DUTY_CYCLE), ok = 0;
	if (m->ins >= 0) { if (dh - dl < 100) { for (int64_t i = dl; i <= dh; i ++) if (d == clampi (i ? i : m->duty, 1, 15)) ok = 1; } else ok = 1; } else ok = d == m->duty;
	CHECK_RET (ok, "track-duty", "track %d has duty cycle %d %s, expected %d or %lld..%lld", id, d, when, m->duty, (long long) dl, (long long) dh);
	if (d != m->uduty) tm_setduty (m, d);
	/* pitch */
	if (!m->wave && m->data < 0) return;
	int64_t n = (int64_t) BKSlideStateGetValue (&m->note) + (m->fa ? m->adelta : 0) + (m->fi ? BKIntervalStateGetValue (&m->vi) : 0) + m->pitch + (wv == BK_SAMPLE || (m->data >= 0 && m->wave == -1) ? m->spitch : 0);
	int smp = m->data >= 0 && m->wave == -1; int32_t na = clampi (n + nl, 0, BK_MAX_NOTE << 20), nb = clampi (n + nh, 0, BK_MAX_NOTE << 20); int64_t pa, pb; BKInt per;
	if (smp) { per = at (m, BK_SAMPLE_PERIOD); pa = clampi (BKLog2PeriodLookup (na), 1 << 12, 1 << 28); pb = clampi (BKLog2PeriodLookup (nb), 1 << 12, 1 << 28); }
	else { per = at (m, BK_PERIOD); pb = BKTonePeriodLookup (na, m->rate) / m->count; pa = BKTonePeriodLookup (nb, m->rate) / m->count; if (pa < 16384) pa = 16384; if (pb < 16384) pb = 16384; m->uper = per; }
	CHECK_RET (per >= pa && per <= pb, "track-pitch", "track %d has period %d %s, expected %lld..%lld for note %lld (slide %d arpeggio %d vibrato %d instrument %lld..%lld pitch %d)", id, per, when, (long long) pa, (long long) pb, (long long) n, BKSlideStateGetValue (&m->note), m->fa ? m->adelta : 0, m->fi ? BKIntervalStateGetValue (&m->vi) : 0, (long long) nl, (long long) nh, m->pitch);
}

/* ---- audio of built-in waveforms, from the attributes monitored above ---- */
static int32_t shape (const TM *m, int p)
{
	switch (m->wave) {
		case BK_SQUARE: { int d = m->uduty; if (d <= 8) { int s = d / 2 + 1; return p >= s && p < s + d ? 32767 : 0; } return p >= 15 - d && p < 15 ? -32767 : 0; }
		case BK_TRIANGLE: { int q = p & 15; q = q < 8 ? q : 15 - q; return p < 16 ? (q ? q * 2048 - 1 : 0) : -((q + 1) * 2048 - 1); }
		case BK_SAWTOOTH: return 32766 - 5461 * p;
		case BK_SINE: return (int) (32767 * sin (2 * M_PI * (p % 32) / 32) * (1 + 1e-12)) / 2;
	}
	return 0;
}
static void tm_setduty (TM *m, int d) { if (m->wave == BK_SQUARE && d > m->uduty && (int) m->phase < d) m->phase = 0; m->uduty = d; }
static void tm_audio (W *w, TM *m, uint64_t T)
{
	if (m->mute || !m->audio) { m->time = T; return; }
	int any = 0; for (int c = 0; c < w->ch; c ++) any |= m->uvol[c];
	if (!any || !m->uper) { m->time = T; return; }
	for (; m->time < T; m->time += m->uper) {
		int32_t v;
		if (m->wave == BK_NOISE) { uint32_t p = m->phase ? m->phase : 0x4a41, b = (p ^ p >> 2 ^ p >> 3 ^ p >> 5) & 1; m->phase = p >> 1 | b << 15; v = b ? 16383 : -16383; }
		else { v = shape (m, (int) m->phase); if (++ m->phase >= (uint32_t) m->count) m->phase = 0; }
		for (int c = 0; c < w->ch && c < 2; c ++) if (m->uvol[c]) { int32_t l = (int32_t) (((int64_t) v * m->uvol[c]) >> 15); rc_step (&m->rc[c], m->time, (int64_t) l - m->last[c]); m->last[c] = l; }
	}
}

/* ---- operations ---- */
static int count_of (int wave) { return wave == BK_SQUARE ? 16 : wave == BK_NOISE ? 8 : wave == BK_SAWTOOTH ? 7 : 32; }
static int32_t rlevel (Rng *r) { switch (rn (r, 6)) { case 0: return 32767; case 1: return 0; case 2: return (int32_t) rr (r, 1, 40); case 3: return rint32 (r); default: return (int32_t) rr (r, 0, 32767); } }
static int32_t rpan (Rng *r) { switch (rn (r, 6)) { case 0: return 32767; case 1: return -32767; case 2: return 0; case 3: return rint32 (r); default: return (int32_t) rr (r, -32767, 32767); } }
static int32_t rnote (Rng *r) { switch (rn (r, 5)) { case 0: return (int32_t) rn (r, 97) << 20; case 1: return (int32_t) rr (r, 30, 70) << 20; case 2: return (int32_t) rr (r, 0, 96 << 20); case 3: return (int32_t) rr (r, 94 << 20, 100 << 20); default: return (int32_t) rr (r, 36 << 20, 60 << 20); } }
static int32_t rdelta (Rng *r) { switch (rn (r, 5)) { case 0: return (int32_t) rr (r, -12, 12) * (1 << 20); case 1: return 0; case 2: return (int32_t) rr (r, -96, 96) * (1 << 20); case 3: return (int32_t) rr (r, -5000, 5000); default: return (int32_t) rr (r, -(3 << 20), 3 << 20); } }
static int32_t rstep (Rng *r) { switch (rn (r, 7)) { case 0: return 0; case 1: return 1; case 2: return chance (r, 30) ? rint32 (r) : 2; case 3: return (int32_t) rr (r, 1, 200); default: return (int32_t) rr (r, 2, 20); } }
static int32_t rdiv (Rng *r) { if (chance (r, 3)) return (256 << 8 * (int) rn (r, 3)) + (int32_t) rr (r, 0, 5); switch (rn (r, 6)) { case 0: return 1; case 1: return (int32_t) rr (r, -1, 2); case 2: return (int32_t) rr (r, 1, 30); default: return (int32_t) rr (r, 1, 6); } }
static const BKEnum bwaves[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE};
static void seq_make (W *w, InsD *in, int slot, Rng *r)
{
	SeqD *q = &in->q[slot]; SeqD n = {0}; int kind = (int) rn (r, 10), err; BKSequencePhase ph[300]; int lg = rn (r, 60) == 0;
	n.used = 1; n.len = lg ? (int) rr (r, 11, 300) : (int) rr (r, 1, chance (r, 30) ? 10 : 5); n.env = kind >= 5;
	int so = (int) rr (r, 0, n.len + (chance (r, 15) ? 2 : 0)), sl = (int) rr (r, 0, n.len - (so < n.len ? so : n.len) + (chance (r, 15) ? 2 : 0));
	for (int i = 0; i < n.len; i ++) {
		int32_t v = slot == 0 ? (chance (r, 90) ? (int32_t) rr (r, 0, 32767) : rlevel (r)) : slot == 1 ? (int32_t) rr (r, -32767, 32767) : slot == 2 ? rdelta (r) : (int32_t) rr (r, chance (r, 10) ? -3 : 0, 16);
		n.v[i] = v; n.n[i] = chance (r, 15) ? 0 : (uint32_t) rr (r, 1, lg ? 2 : chance (r, 20) ? 200 : 12); if (!lg && chance (r, 1)) n.n[i] = chance (r, 50) ? 70000 : (256u << 8 * rn (r, 3)) + (uint32_t) rr (r, 0, 5); ph[i] = (BKSequencePhase) {n.n[i], n.v[i]};
	}
	n.so = clampi (so, 0, n.len); n.sl = clampi (sl, 0, n.len - n.so);
	if (kind == 9 && slot == 0) {        /* ADSR */
		uint32_t hi = chance (r, 10) ? 400 : 30, A = rn (r, hi), D = rn (r, hi), R = rn (r, hi); int32_t S = (int32_t) rn (r, 32768); n.len = 4; n.so = 2; n.sl = 1;
		n.v[0] = 32767; n.n[0] = A; n.v[1] = S; n.n[1] = D; n.v[2] = S; n.n[2] = 240; n.v[3] = 0; n.n[3] = R; err = BKInstrumentSetEnvelopeADSR (in->obj, A, D, S, R);
		CHECK_RET (err == 0, "instrument-set", "ADSR envelope refused: %d", err);
	}
	else if (kind == 0) { n.used = 0; err = chance (r, 50) ? BKInstrumentSetSequence (in->obj, slot, NULL, 0, 0, 0) : BKInstrumentSetEnvelope (in->obj, slot, NULL, 0, 0, 0); CHECK_RET (err == 0, "instrument-set", "removing a sequence failed: %d", err); }
	else if (n.env) {
		uint32_t steps = 0; for (int i = n.so; i < n.so + n.sl; i ++) steps |= n.n[i];
		err = BKInstrumentSetEnvelope (in->obj, slot, ph, n.len, so, sl);
		if (n.so < n.len && !steps) { CHECK_RET (err < 0, "instrument-set", "an envelope with endless sustain was accepted"); return; }
		CHECK_RET (err == 0, "instrument-set", "envelope refused: %d", err);
	}
	else { err = BKInstrumentSetSequence (in->obj, slot, n.v, n.len, so, sl); CHECK_RET (err == 0, "instrument-set", "sequence refused: %d", err); }
	*q = n; memset (ph, 0x55, sizeof ph);
	if (chance (r, 10)) {     /* kinds that do not exist */
		BKEnum bad = chance (r, 60) ? 4 + (BKEnum) rn (r, 4) : (BKEnum) (4 + rn (r, 0xfffffffbu)); BKSequencePhase one = {1, 1};
		err = chance (r, 50) ? BKInstrumentSetSequence (in->obj, bad, n.v, 1, 0, 1) : BKInstrumentSetEnvelope (in->obj, bad, &one, 1, 0, 1); CHECK_RET (err < 0, "instrument-set", "a sequence of kind %u was accepted", (unsigned) bad);
		CHECK_RET (BKInstrumentGetSequence (in->obj, bad) == NULL, "instrument-get", "there is a sequence of kind %u", (unsigned) bad); vf_count ("refused_kinds", 1);
	}
	for (int i = 0; i < 4; i ++) CHECK_RET (!!BKInstrumentGetSequence (in->obj, i) == !!in->q[i].used, "instrument-get", "sequence of kind %d: %d, expected %d", i, !!BKInstrumentGetSequence (in->obj, i), in->q[i].used);
	TRACE ("  instrument %d slot %d: %s len %d sustain %d+%d:", (int) (in - w->in), slot, !n.used ? "none" : n.env ? "envelope" : "values", n.len, n.so, n.sl); for (int i = 0; i < n.len; i ++) TRACE (" %u/%d", n.n[i], n.v[i]); TRACE ("\n");
	for (int i = 0; i < w->nt; i ++) if (w->m[i].ins == (int) (in - w->in)) { TM *m = &w->m[i]; tm_defaults (w, m); tm_instr_phase (w, m, BK_SEQUENCE_PHASE_MUTE); int d = m->duty; if (d != m->uduty) tm_setduty (m, d); }
}
static void tm_defaults_all (W *w, TM *m, int reset)
{
	int had = m->data >= 0;
	if (reset) m->duty = 4;
	tm_instr (w, m, -1); m->data = -1; m->sus = m->release = 0; if (had) m->wave = 0, m->phase = 0;
	BKSlideStateInit (&m->vol, 32767); BKSlideStateInit (&m->pan, 32767); BKSlideStateInit (&m->note, 0); BKSlideStateInit (&m->td, 32767); BKSlideStateInit (&m->vd, 0);
	BKSlideStateInit (&m->ts, 65536); BKSlideStateInit (&m->vs, 65536); BKIntervalStateInit (&m->tr, 32767); BKIntervalStateInit (&m->vi, 0);
	BKSlideStateSetValue (&m->vol, 32767); m->fv = m->fp = m->fn = m->ft = m->fi = m->fa = 0; m->aoff = m->acount = 0; m->adelta = 0; m->da.d = 4; m->de.d = 1; m->di.d = 4; m->da.c = m->de.c = m->di.c = 0; m->iph = 0; memset (m->an, 0, sizeof m->an);
	m->pitch = m->spitch = 0; m->cur = -1; m->mute = 1; if (m->uduty != m->duty) tm_setduty (m, m->duty);
	memset (m->q, 0, sizeof m->q);
	if (reset) { m->phase = 0; m->last[0] = m->last[1] = 0; m->time = w->now; }
}
#define EXP(call, ...) do { BKInt e_ = (call); TRACE ("  @%llu track %d: %s = %d\n", (unsigned long long) w->ticks, (int) (m - w->m), #call, e_); CHECK_RET (e_ == 0, "track-set", __VA_ARGS__); } while (0)
/* leaves its context, for some time or for the other one */
static void reattach (W *w, TM *m, Rng *r)
{
	BKTrackDetach (m->t); m->cx = -1; m->pan2 = 0; if (!m->audio && chance (r, 30)) { vf_count ("detached", 1); return; }
	int x = m->audio ? 0 : (int) rn (r, w->nctx); EXP (BKTrackAttach (m->t, x ? &w->ctx2 : &w->ctx), "attaching failed"); m->time = w->now; m->cx = x; m->ch = x ? w->ch2 : w->ch; m->rate = x ? w->rate2 : w->rate; m->pan2 = m->ch == 2; if (x) vf_count ("other_context", 1);
}
static void op (W *w, Rng *r)
{
	TM *m = &w->m[rn (r, w->nt)]; BKTrack *t = m->t; if (m->cx < 0 ? chance (r, 30) : !m->audio && chance (r, 2)) { reattach (w, m, r); return; }
	 unsigned f = 0; int32_t v; int k = (int) rn (r, 100), ptr = chance (r, 50);
	/* choose what to do: mostly what the property is about */
	unsigned all[] = {F_VOL, F_SLIDE, F_OSC, F_ARP, F_INS, F_NOTE, F_DIV, F_PITCH, F_NOTE, F_NOTE};
	for (;;) { f = PICK (r, all); if ((w->focus & f) || chance (r, 12) || (f == F_NOTE && chance (r, 50))) break; }
	switch (f) {
		case F_VOL:
			if (k < 30) { v = rlevel (r); EXP (BKSetAttr (t, BK_VOLUME, v), "volume refused"); BKSlideStateSetValue (&m->vol, clampi (v, 0, 32767)); }
			else if (k < 50) { v = rpan (r); EXP (BKSetAttr (t, BK_PANNING, v), "panning refused"); BKSlideStateSetValue (&m->pan, clampi (v, -32767, 32767)); }
			else if (k < 65) { v = chance (r, 70) ? (int32_t) rr (r, 8000, 32767) : rlevel (r); EXP (BKSetAttr (t, BK_MASTER_VOLUME, v), "master volume refused"); m->master = clampi (v, 0, 32767); }
			else if (k < 75) { v = (int) rn (r, 2); EXP (BKSetAttr (t, BK_TRIANGLE_IGNORES_VOLUME, v), "flag refused"); m->tri = v; }
			else if (k < 85) { v = (int) rn (r, 18); EXP (BKSetAttr (t, BK_DUTY_CYCLE, v), "duty cycle refused"); m->duty = clampi (v, 1, 15); if (m->uduty != m->duty) tm_setduty (m, m->duty); }
			else if (k < 95) { v = PICK (r, bwaves); EXP (BKSetAttr (t, BK_WAVEFORM, v), "waveform refused"); if (m->wave != v) m->phase = 0; m->wave = v; m->count = count_of (v); m->data = -1; m->sus = m->release = 0; }
			else if (k < 97) reattach (w, m, r);
			else if (k < 98 && !m->audio) { BKTrackClear (t); TRACE ("  clear %d\n", (int) (m - w->m)); tm_defaults_all (w, m, 0); }
			else if (k < 99 && !m->audio) { BKTrackReset (t); TRACE ("  reset %d\n", (int) (m - w->m)); tm_defaults_all (w, m, 1); }
			break;
		case F_SLIDE: {
			BKSlideState *s[] = {&m->vol, &m->pan, &m->note}; static const BKEnum at[] = {BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO}; int *fl[] = {&m->fv, &m->fp, &m->fn}; int i = (int) rn (r, 3);
			if (k < 50) { v = rstep (r); int32_t a[3] = {v, 7, 7}; if (ptr) EXP (BKSetPtr (t, at[i], a, chance (r, 50) ? 4 : 12), "slide refused"); else EXP (BKSetAttr (t, at[i], v), "slide refused"); BKSlideStateSetSteps (s[i], clampi (v, 0, 65536)); *fl[i] = v != 0; }
			else if (k < 70) { v = rlevel (r); EXP (BKSetAttr (t, BK_VOLUME, v), "volume refused"); BKSlideStateSetValue (&m->vol, clampi (v, 0, 32767)); }
			else if (k < 85) { v = rpan (r); EXP (BKSetAttr (t, BK_PANNING, v), "panning refused"); BKSlideStateSetValue (&m->pan, clampi (v, -32767, 32767)); }
			else { v = rnote (r); EXP (BKSetAttr (t, BK_NOTE, v), "note refused"); tm_note (w, m, v); }
			break;
		}
		case F_OSC: {
			int vib = (int) rn (r, 2); int32_t a[3] = {rstep (r), vib ? rdelta (r) : rlevel (r), chance (r, 60) ? 0 : rstep (r)}; int sz = chance (r, 80) ? 12 : (int) rr (r, 1, 3) * 4; int null = chance (r, 8);
			EXP (BKSetPtr (t, vib ? BK_EFFECT_VIBRATO : BK_EFFECT_TREMOLO, null ? NULL : a, sz), "effect refused"); TRACE ("    %d %d %d size %d %s\n", a[0], a[1], a[2], sz, null ? "NULL" : "");
			if (null) a[0] = a[1] = a[2] = 0; else for (int i = sz / 4; i < 3; i ++) a[i] = 0;
			int n = clampi (a[0], 0, 65536), d = vib ? clampi (a[1], -(96 << 20), 96 << 20) : clampi (a[1], 0, 32767), sl = clampi (a[2], 0, 65536);
			BKSlideStateSetValueAndSteps (vib ? &m->vd : &m->td, d, sl); BKSlideStateSetValueAndSteps (vib ? &m->vs : &m->ts, n, sl); if (!sl) BKIntervalStateSetDeltaAndSteps (vib ? &m->vi : &m->tr, d, n);
			*(vib ? &m->fi : &m->ft) = a[0] != 0; vf_count ("oscillator_changes", 1);
			break;
		}
		case F_ARP: {
			int32_t a[10]; int n = chance (r, 15) ? 0 : chance (r, 10) ? (int) rr (r, 8, 12) : (int) rr (r, 1, 8), cl = n > 8 ? 8 : n; a[0] = n; for (int i = 1; i < 10; i ++) a[i] = chance (r, 60) ? (int32_t) rr (r, -12, 24) * (1 << 20) : rdelta (r);
			if (chance (r, 10)) { v = rdiv (r); EXP (BKSetAttr (t, BK_ARPEGGIO_DIVIDER, v), "divider refused"); m->da.d = v < 1 ? 1 : v; m->da.c = 0; break; }
			int null = !n && chance (r, 50); EXP (BKSetPtr (t, BK_ARPEGGIO, null ? NULL : a, chance (r, 50) ? 9 * 4 : (cl + 1) * 4), "arpeggio refused");
			m->acount = cl; if (m->aoff >= cl) m->aoff = 0; for (int i = 0; i < cl; i ++) m->an[i] = a[i + 1]; m->fa = cl > 0;
			int32_t g[9]; memset (g, 0x77, sizeof g); EXP (BKGetPtr (t, BK_ARPEGGIO, g, sizeof g), "arpeggio can not be read"); CHECK_RET (g[0] == cl && !memcmp (g + 1, a + 1, cl * 4), "arpeggio-readback", "arpeggio of %d notes reads back as %d notes", cl, g[0]);
			vf_count ("arpeggios", 1);
			break;
		}
		case F_INS:
			if (k < 45) { int i = chance (r, 15) ? -1 : (int) rn (r, NIN); EXP (BKSetPtr (t, BK_INSTRUMENT, i < 0 ? NULL : w->in[i].obj, sizeof (void *)), "instrument refused"); TRACE ("    instrument %d\n", i); tm_instr (w, m, i); }
			else if (k < 70) seq_make (w, &w->in[rn (r, NIN)], (int) rn (r, 4), r);
			else if (k < 75) {               /* replace an instrument by its copy */
				InsD *in = &w->in[rn (r, NIN)];
				if (chance (r, 40)) {        /* take it from all tracks */
					BKInstrumentDetach (in->obj); TRACE ("  detach instrument %d\n", (int) (in - w->in)); for (int i = 0; i < w->nt; i ++) if (w->m[i].ins == (int) (in - w->in)) { tm_instr (w, &w->m[i], -1); BKInstrument *g = in->obj; CHECK_RET (BKGetPtr (w->m[i].t, BK_INSTRUMENT, &g, sizeof g) == 0 && g == NULL, "instrument-detach", "track %d keeps the detached instrument", i); }
					vf_count ("instrument_detaches", 1); break;
				}
				BKInstrument *c = malloc (sizeof *c); memset (c, 0x5a, sizeof *c); BKInt e = BKInstrumentInitCopy (c, in->obj); CHECK_RET (e == 0, "instrument-copy", "copy failed: %d", e);
				BKDispose (in->obj); free (in->obj); in->obj = c; TRACE ("  copy of instrument %d\n", (int) (in - w->in)); for (int i = 0; i < w->nt; i ++) if (w->m[i].ins == (int) (in - w->in)) tm_instr (w, &w->m[i], -1);
				vf_count ("instrument_copies", 1);
			}
			else if (k < 85) { v = rdiv (r); EXP (BKSetAttr (t, BK_INSTRUMENT_DIVIDER, v), "divider refused"); m->di.d = v < 1 ? 1 : v; m->di.c = 0; }
			else if (k < 92) { v = (int) rn (r, 18); EXP (BKSetAttr (t, BK_DUTY_CYCLE, v), "duty cycle refused"); m->duty = clampi (v, 1, 15); if (m->uduty != m->duty) tm_setduty (m, m->duty); }
			else { v = chance (r, 50) ? BK_NOTE_RELEASE : rnote (r); EXP (BKSetAttr (t, BK_NOTE, v), "note refused"); tm_note (w, m, v); }
			break;
		case F_NOTE:
			v = k < 60 ? rnote (r) : k < 80 ? BK_NOTE_RELEASE : k < 95 ? BK_NOTE_MUTE : -(int32_t) rr (r, 3, 100);
			EXP (BKSetAttr (t, BK_NOTE, v), "note refused"); tm_note (w, m, v); TRACE ("    note %d\n", v); vf_count (v >= 0 ? "notes" : v == -1 ? "releases" : "mutes", 1);
			{ int g = at (m, BK_MUTE); CHECK_RET (g == m->mute, "track-mute", "track is %smuted right after note %d, expected %smuted", g ? "" : "un", v, m->mute ? "" : "un"); }
			break;
		case F_DIV: {
			static const BKEnum at[] = {BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER}; int i = (int) rn (r, 3); v = rdiv (r); EXP (BKSetAttr (t, at[i], v), "divider refused");
			if (v < 1) v = 1; if (i == 0) m->da.d = v, m->da.c = 0; else if (i == 1) m->de.d = v, m->de.c = 0; else m->di.d = v, m->di.c = 0; vf_count ("divider_changes", 1);
			break;
		}
		case F_PITCH:
			if (k < 40) { v = chance (r, 15) ? rint32 (r) : rdelta (r); EXP (BKSetAttr (t, BK_PITCH, v), "pitch refused"); m->pitch = clampi (v, -(48 << 20), 48 << 20); }
			else if (k < 55) { v = chance (r, 15) ? rint32 (r) : rdelta (r); EXP (BKSetAttr (t, BK_SAMPLE_PITCH, v), "sample pitch refused"); m->spitch = clampi (v, -(48 << 20), 48 << 20); }
			else if (!m->audio && m->cx >= 0) {
				int i = (int) rn (r, NDT), cus = chance (r, 40); int same = m->data == i && m->wave == (cus ? -2 : -1);
				EXP (BKSetPtr (t, cus ? BK_WAVEFORM : BK_SAMPLE, &w->d[i], sizeof (void *)), "data refused"); m->spitch = w->dpitch[i]; m->data = i; m->wave = cus ? -2 : -1; m->count = cus ? w->dn[i] > 64 ? 64 : w->dn[i] : 1; (void) same;
				m->sus = 0; m->release = 0;
				if (!cus) { int32_t z[2] = {0, 0}; BKSetAttr (t, BK_SAMPLE_REPEAT, BK_REPEAT); if (chance (r, 40)) { z[0] = 1, z[1] = w->dn[i] - 1; m->sus = w->dn[i] > 2; } BKSetPtr (t, BK_SAMPLE_SUSTAIN_RANGE, z, sizeof z); TRACE ("    sustain %d\n", m->sus); }
			}
			break;
	}
}
static void tracks (Rng *r, unsigned focus, int audio)
{
	W *w = calloc (1, sizeof *w); w->focus = focus; w->ch = audio || chance (r, 60) ? 2 : (int) rr (r, 1, 8); if (audio && chance (r, 40)) w->ch = 1; w->rate = (int) rr (r, 16000, 96000); w->spt = (int) rr (r, 4, audio ? 200 : 30); w->nt = chance (r, 40) ? 2 : 1; int nticks = (int) rr (r, 20, chance (r, 20) ? 1000 : 200); if (audio && nticks > 150) nticks = 150;
	if (BKContextInit (&w->ctx, w->ch, w->rate) != 0) { vf_fail ("context", "context refused"); free (w); return; }
	BKTime per = BKTimeMake (w->spt, 0); BKSetPtr (&w->ctx, BK_CLOCK_PERIOD, &per, sizeof per); w->nctx = chance (r, 50) ? 2 : 1; w->ch2 = chance (r, 40) ? 2 : (int) rr (r, 1, 8); w->rate2 = (int) rr (r, 16000, 96000);
	if (BKContextInit (&w->ctx2, w->ch2, w->rate2) != 0) vf_fail ("context", "context refused"); BKSetPtr (&w->ctx2, BK_CLOCK_PERIOD, &per, sizeof per);
	const BKBufferPulse *kern = BKBufferPulseKernels[0]; BKSetPtr (&w->ctx, BK_PULSE_KERNEL, (void *) kern, sizeof (void *));
	for (int i = 0; i < NIN; i ++) { w->in[i].obj = malloc (sizeof (BKInstrument)); BKInstrumentInit (w->in[i].obj); if (focus & F_INS || chance (r, 40)) for (int s = 0; s < 4; s ++) if (chance (r, s ? 40 : 80)) seq_make (w, &w->in[i], s, r); }
	for (int i = 0; i < NDT; i ++) { w->dn[i] = (int) rr (r, 2, 64); for (int j = 0; j < w->dn[i]; j ++) w->df[i][j] = (BKFrame) rr (r, -32768, 32767); BKDataInit (&w->d[i]); BKDataSetFrames (&w->d[i], w->df[i], w->dn[i], 1, 1); w->dpitch[i] = chance (r, 50) ? rdelta (r) : 0; BKSetAttr (&w->d[i], BK_SAMPLE_PITCH, w->dpitch[i]); BKInt g = 0; BKGetAttr (&w->d[i], BK_SAMPLE_PITCH, &g); w->dpitch[i] = g; }
	for (int i = 0; i < w->nt; i ++) {
		TM *m = &w->m[i]; m->t = malloc (sizeof *m->t); m->wave = PICK (r, bwaves); m->count = count_of (m->wave); if (BKTrackInit (m->t, m->wave) != 0) vf_fail ("track", "track refused");
		m->tri = 1; m->data = -1; m->ins = -1; m->uduty = m->duty = 4; tm_defaults_all (w, m, 1); m->master = 0;
		if (BKTrackAttach (m->t, &w->ctx) != 0) vf_fail ("track", "attaching failed"); m->cx = 0; m->ch = w->ch; m->rate = w->rate; m->pan2 = w->ch == 2; m->audio = audio;
		int32_t v = (int32_t) rr (r, 4000, 32767); BKSetAttr (m->t, BK_MASTER_VOLUME, v); m->master = v;
		if (audio) for (int c = 0; c < w->ch; c ++) rc_init (&m->rc[c], (size_t) nticks * w->spt + 300, kern);
		if (chance (r, 80)) { v = rnote (r); BKSetAttr (m->t, BK_NOTE, v); tm_note (w, m, v); }
		if (focus & F_INS || chance (r, 15)) { BKSetPtr (m->t, BK_INSTRUMENT, w->in[i].obj, sizeof (void *)); tm_instr (w, m, i); }
	}
	BKFrame *b = malloc ((size_t) w->spt * (w->ch > w->ch2 ? w->ch : w->ch2) * 2); uint64_t h = focus; Frames out = {0}; int rate = (int) rr (r, 2, 40);
	for (w->ticks = 0; w->ticks < (uint64_t) nticks && !vf_failed (); w->ticks ++) {
		if (chance (r, rate)) { int n = chance (r, 60) ? 1 : (int) rr (r, 1, 5); uint64_t s = r->s; while (n -- && !vf_failed ()) op (w, r); h = vf_mix (h, s & 0xff); }
		if (vf_failed ()) break;
		int att[2] = {0, 0}; for (int i = 0; i < w->nt; i ++) if (w->m[i].cx >= 0) { tm_tick (w, &w->m[i]); att[w->m[i].cx] = 1; }
		BKInt g; for (int x = w->nctx - 1; x >= 0; x --) { g = BKContextGenerate (x ? &w->ctx2 : &w->ctx, b, w->spt); CHECK (!att[x] || g == w->spt, "track-generate", "%d frames instead of %d", g, w->spt); }
		char when[40]; snprintf (when, sizeof when, "at tick %llu", (unsigned long long) w->ticks); w->now += (uint64_t) w->spt << 20;
		for (int i = 0; i < w->nt && !vf_failed (); i ++) { if (w->m[i].cx < 0) continue; tm_check (w, &w->m[i], when); if (vf_failed ()) break; if (audio) TRACE ("    tick %llu t %.3f mute %d vol %d %d per %lld phase %u duty %d real %d wave %d\n", (unsigned long long) w->ticks, w->m[i].time / 1048576., w->m[i].mute, w->m[i].uvol[0], w->m[i].uvol[1], (long long) w->m[i].uper, w->m[i].phase, w->m[i].uduty, at (&w->m[i], BK_PHASE), w->m[i].wave); if (audio) tm_audio (w, &w->m[i], w->now); tm_effects (w, &w->m[i]); h = vf_mix (h, at (&w->m[i], BK_PERIOD) ^ at (&w->m[i], BK_VOLUME_0)); }
		if (audio) fr_add (&out, b, (size_t) w->spt * w->ch);
		vf_count ("ticks", 1);
	}
	if (audio && !vf_failed () && w->nt == 1) for (size_t f = 0; f < out.n / w->ch && !vf_failed (); f ++) for (int c = 0; c < w->ch; c ++) {
		BKFrame e = rc_next (&w->m[0].rc[c]), g = out.d[f * w->ch + c]; if (e != g) { vf_fail ("track-audio", "frame %zu (tick %zu) of channel %d is %d instead of %d", f, f / w->spt, c, g, e); break; }
	}
	if (audio && w->nt == 1) vf_count ("audio_frames", out.n);
	vf_sig (h); if (vf_next (r) % 200 == 0) vf_sample ("%d tracks, %d channels, %d Hz, %d ticks of %d frames", w->nt, w->ch, w->rate, nticks, w->spt);
	for (int i = 0; i < w->nt; i ++) { if (audio) for (int c = 0; c < w->ch; c ++) rc_free (&w->m[i].rc[c]); BKDispose (w->m[i].t); free (w->m[i].t); }
	for (int i = 0; i < NIN; i ++) { BKDispose (w->in[i].obj); free (w->in[i].obj); } for (int i = 0; i < NDT; i ++) BKDispose (&w->d[i]); BKDispose (&w->ctx); BKDispose (&w->ctx2); free (b); fr_free (&out); free (w);
}
VF_PROP (P02) { tracks (r, F_VOL | (chance (r, 40) ? F_SLIDE : 0) | (chance (r, 30) ? F_OSC : 0) | (chance (r, 40) ? F_INS : 0) | F_NOTE, chance (r, 15)); }
VF_PROP (P03_track) { tracks (r, F_SLIDE | F_NOTE | (chance (r, 30) ? F_DIV : 0), 0); }
VF_PROP (P04_track) { tracks (r, F_OSC | (chance (r, 30) ? F_DIV : 0), 0); }
VF_PROP (P05) { tracks (r, F_ARP | F_NOTE | (chance (r, 30) ? F_DIV : 0), 0); }
VF_PROP (P06) { tracks (r, F_INS | F_NOTE, 0); }
VF_PROP (P08) { int ins = chance (r, 50); tracks (r, F_NOTE | (ins ? F_INS : 0) | (chance (r, 30) ? F_SLIDE : 0) | (chance (r, 30) ? F_PITCH : 0), chance (r, 60)); }
VF_PROP (P01_sum) { tracks (r, F_PITCH | F_NOTE | (chance (r, 30) ? F_ARP : 0) | (chance (r, 30) ? F_OSC : 0) | (chance (r, 30) ? F_INS : 0), 0); }
VF_PROP (T02_track) { tracks (r, F_DIV | F_ARP | F_OSC | F_SLIDE | F_INS, 0); }

/* the sequence functions by themselves: several states following several sequences of both kinds */
VF_PROP (P06_seq)
{
	enum { NQ = 3, NS = 3 }; SeqD *q = calloc (NQ, sizeof *q); BKSequence *obj[NQ]; struct { BKSequenceState st; SeqS m; int seq, phase; int loose; } s[NS]; uint64_t h = 6; int last = 1 << 20;
	for (int i = 0; i < NQ; i ++) {
		SeqD *d = &q[i]; d->used = 1; d->env = chance (r, 60); d->len = rn (r, 40) ? (int) rr (r, 1, 8) : (int) rr (r, 9, 300); d->so = (int) rr (r, 0, d->len); d->sl = (int) rr (r, d->so < d->len && (d->env || chance (r, 70)), d->len - d->so); int32_t m = PICK (r, ((int32_t []) {5, 100, 32767, 96 << 20, 1 << 29})); BKSequencePhase ph[300];
		for (int j = 0; j < d->len; j ++) { d->v[j] = (int32_t) rr (r, -m, m); d->n[j] = chance (r, 20) ? 0 : (uint32_t) rr (r, 1, chance (r, 20) ? 300 : 12); }
		if (d->env && d->sl) { int any = 0; for (int j = 0; j < d->sl; j ++) any |= d->n[d->so + j]; if (!any) d->n[d->so] = 3; }
		for (int j = 0; j < d->len; j ++) ph[j] = (BKSequencePhase) {d->n[j], d->v[j]};
		int over = chance (r, 10) && d->so + d->sl == d->len; BKInt e = BKSequenceCreate (&obj[i], d->env ? &BKSequenceFuncsEnvelope : &BKSequenceFuncsSimple, d->env ? (void *) ph : (void *) d->v, d->len, d->so, d->sl + over * 5);
		CHECK_RET (e == 0, "sequence-create", "refused: %d", e); memset (ph, 0x55, sizeof ph);
		TRACE ("sequence %d %s len %d sustain %d+%d:", i, d->env ? "envelope" : "values", d->len, d->so, d->sl); for (int j = 0; j < d->len; j ++) TRACE (" %u/%d", d->n[j], d->v[j]); TRACE ("\n");
	}
	memset (s, 0, sizeof s); for (int i = 0; i < NS; i ++) s[i].seq = -1;
	int nops = (int) rr (r, 10, chance (r, 20) ? 2000 : 200);
	for (int o = 0; o < nops && !vf_failed (); o ++) {
		int i = (int) rn (r, NS), k = (int) rn (r, 100), fin = 0, want = 0, ranged = 1; BKInt e = 0; if (s[i].seq < 0) { if (k >= 8) { e = BKSequenceStateStep (&s[i].st, 1); CHECK (e == BK_INVALID_STATE && BKSequenceStateSetPhase (&s[i].st, BK_SEQUENCE_PHASE_ATTACK) == BK_INVALID_STATE, "sequence-none", "state without sequence returns %d", e); k = rn (r, 3); } }
		if (k < 3) {
			int n = chance (r, 10) ? -1 : (int) rn (r, NQ); int same = n == s[i].seq; TRACE ("state %d takes sequence %d\n", i, n);
			if (!same && n >= 0 && s[i].loose && q[n].env) continue;
			if (!same && n >= 0 && q[n].env && (s[i].seq < 0 || s[i].phase != BK_SEQUENCE_PHASE_MUTE)) { e = BKSequenceStateSetSequence (&s[i].st, NULL); s[i].st.phase = BK_SEQUENCE_PHASE_MUTE; s[i].phase = BK_SEQUENCE_PHASE_MUTE; s[i].seq = -1; }
			e = BKSequenceStateSetSequence (&s[i].st, n < 0 ? NULL : obj[n]); s[i].seq = n; if (!same) { s[i].m.n = s[i].m.k = 0; if (n >= 0) { SeqS x = s[i].m; int64_t lo, hi; sq_range (&x, &lo, &hi); want = !sq_phase (&s[i].m, &q[n], s[i].phase); fin = 1; } }
			if (n >= 0 && !same && labs ((long) s[i].st.value) >= 1 << 20) { /* the level kept from another sequence may exceed this one's resolution */ BKSequenceStateSetValue (&s[i].st, 0); sq_value (&s[i].m, 0); }
			if (n >= 0 && !same) { BKSequenceStateSetValue (&s[i].st, 3); sq_value (&s[i].m, 3); }
		}
		else if (k < 12 && s[i].seq >= 0) { static const BKEnum p[] = {BK_SEQUENCE_PHASE_MUTE, BK_SEQUENCE_PHASE_ATTACK, BK_SEQUENCE_PHASE_ATTACK, BK_SEQUENCE_PHASE_RELEASE}; s[i].phase = PICK (r, p); TRACE ("state %d phase %d\n", i, s[i].phase); e = BKSequenceStateSetPhase (&s[i].st, s[i].phase); want = !sq_phase (&s[i].m, &q[s[i].seq], s[i].phase); fin = 1; vf_count ("sequence_phases", 1); }
		else if (k < 15 && s[i].seq >= 0) { int32_t v = (int32_t) rr (r, -16, 16); e = BKSequenceStateSetValue (&s[i].st, v); TRACE ("state %d value %d\n", i, v); sq_value (&s[i].m, v); CHECK (e == 0, "sequence-value", "returned %d", e); }
		else if (k < 17 && s[i].seq >= 0) {               /* replaced by a copy; the original goes away */
			int n = s[i].seq; BKSequence *c = NULL; e = BKSequenceCopy (&c, obj[n]); CHECK_RET (e == 0 && c, "sequence-copy", "copy failed: %d", e); TRACE ("copy of sequence %d\n", n);
			for (int j = 0; j < NS; j ++) if (s[j].seq == n) { BKSequenceStateSetSequence (&s[j].st, NULL); s[j].st.phase = s[j].phase = BK_SEQUENCE_PHASE_MUTE; BKSequenceStateSetSequence (&s[j].st, c); sq_phase (&s[j].m, &q[n], BK_SEQUENCE_PHASE_MUTE); }
			BKSequenceDispose (obj[n]); obj[n] = c; vf_count ("sequence_copies", 1); continue;
		}
		else if (s[i].seq >= 0) {
			int lv = chance (r, 70), n = chance (r, 10) ? (int) rr (r, 1, 400) : 1; SeqD *d = &q[s[i].seq];
			while (n -- && !vf_failed ()) {
				int before = s[i].m.off, idle = s[i].m.off == DONE || (!d->env && !lv); e = BKSequenceStateStep (&s[i].st, lv ? BK_SEQUENCE_STEP_DIVIDED : BK_SEQUENCE_STEP_MAX); int f = sq_step (&s[i].m, d, s[i].phase == BK_SEQUENCE_PHASE_ATTACK, lv); (void) before;
				CHECK (idle ? e == BK_SEQUENCE_RETURN_NONE : f ? e == BK_SEQUENCE_RETURN_FINISH : e == BK_SEQUENCE_RETURN_STEP || e == BK_SEQUENCE_RETURN_REPEAT, "sequence-result", "step of state %d returns %d, idle %d finished %d", i, e, idle, f);
				int64_t lo, hi; sq_range (&s[i].m, &lo, &hi); CHECK (s[i].st.value >= lo && s[i].st.value <= hi, "sequence-level", "state %d has value %d, expected %lld..%lld", i, s[i].st.value, (long long) lo, (long long) hi); vf_count ("sequence_steps", 1); vf_count ("sequence_finished", f);
			}
			h = vf_mix (h, e); ranged = 0;
		}
		if (fin && !vf_failed ()) CHECK ((e == BK_SEQUENCE_RETURN_FINISH) == want, "sequence-finish", "setting phase %d of state %d returns %d, finished %d", s[i].phase, i, e, want);
		if (ranged && s[i].seq >= 0) { int64_t lo, hi; sq_range (&s[i].m, &lo, &hi); CHECK (s[i].st.value >= lo && s[i].st.value <= hi, "sequence-level", "state %d has value %d, expected %lld..%lld", i, s[i].st.value, (long long) lo, (long long) hi); }
		h = vf_mix (h, k * 8 + i); (void) last;
	}
	vf_sig (h);
	for (int i = 0; i < NS; i ++) if (chance (r, 50)) BKSequenceStateSetSequence (&s[i].st, NULL); for (int i = 0; i < NQ; i ++) BKSequenceDispose (obj[i]); free (q);
}
