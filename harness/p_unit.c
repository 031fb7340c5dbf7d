/* S05 / S06: a single unit against an independent model of its steps; the steps are rendered by the reference output stage (ref.c). */
#include "vf.h"
#include "ref.h"
enum { W_NONE, W_CUSTOM = 1 << 20, W_SAMPLE };
typedef struct { uint64_t t; int kind; int32_t a, b; uint32_t ret; } UOp;
enum { U_ATTR, U_RANGE, U_SUSTAIN, U_DATA, U_RELEASE_ONE, U_NOTE };
typedef struct {
	int ch, wave; uint64_t time, now; int64_t period; int vol[8], mute, duty, wrap, wrapc; int32_t last[8]; uint32_t phase; int count;
	/* sample or custom data */
	const BKFrame *f; int n, nch, off, end, len, so, se, sus, release, jump, repeat, repeats, base; int64_t sper; int64_t frac;
	uint64_t emitted;
} UModel;
typedef struct { int ev; uint64_t at; } UEv;
typedef struct {
	UModel m; RefChan rc[8]; BKUnit u; BKTrack t; void *obj; int track, cur, instr; BKInstrument ins; int32_t note, pitch, spitch, dpitch[3]; int dso[3], dse[3]; BKContext ctx; BKClock clk; BKData d[3]; BKFrame *raw[3]; int rn_[3], rch[3]; UOp op[64]; int nop, next; uint64_t tick; int useclock; int cbon; uint32_t cbret[40]; struct { int kind; int32_t a, b; } cbop[40];
	int ncb, nmcb; int evs[4096], mevs[4096]; uint64_t h; int total;
} U;
static int clampi (int64_t v, int64_t lo, int64_t hi) { return (int) (v < lo ? lo : v > hi ? hi : v); }
static int32_t shape (const UModel *m, int p)
{
	switch (m->wave) {
		case BK_SQUARE: { int d = m->duty; if (d <= 8) { int s = d / 2 + 1; return p >= s && p < s + d ? 32767 : 0; } return p >= 15 - d && p < 15 ? -32767 : 0; }
		case BK_TRIANGLE: { int q = p & 15; q = q < 8 ? q : 15 - q; return p < 16 ? (q ? q * 2048 - 1 : 0) : -((q + 1) * 2048 - 1); }
		case BK_SAWTOOTH: return 32766 - 5461 * p;
		case BK_SINE: return (int) (32767 * sin (2 * M_PI * (p % 32) / 32) * (1 + 1e-12)) / 2;
		case W_CUSTOM: return m->f[p];
	}
	return 0;
}
static void emit (U *x, int c, uint64_t t, int32_t level) { x->m.emitted ++; TRACE ("    step %.4f ch %d %d -> %d (%u)\n", t / 1048576., c, x->m.last[c], level, x->m.phase); rc_step (&x->rc[c], t, (int64_t) level - x->m.last[c]); x->m.last[c] = level; }
static void m_apply (U *x, const UOp *o, int incb);
static void m_cb (U *x, int ev, uint32_t *ret)
{
	if (x->nmcb < 4096) x->mevs[x->nmcb] = ev;
	int n = x->nmcb ++; *ret = n < 4000 ? x->cbret[n % 40] : 0;
	if (ev == BK_EVENT_SAMPLE_RESET && x->cbop[n % 40].kind >= 0) { UOp o = {0, x->cbop[n % 40].kind, x->cbop[n % 40].a, x->cbop[n % 40].b}; m_apply (x, &o, 1); }
}
static void m_range (UModel *m, int32_t a, int32_t b)
{
	int oldmin = m->off < m->end ? m->off : m->end, a2 = clampi ((int64_t) a + (a < 0 ? m->n + 1 : 0), 0, m->n), b2 = clampi ((int64_t) b + (b < 0 ? m->n + 1 : 0), 0, m->n);
	int lo = a2 < b2 ? a2 : b2, len = abs (a2 - b2); int64_t ph = (int64_t) (int32_t) m->phase + oldmin - lo; if (ph < 0 || ph >= len) ph = 0;
	int rev = a2 > b2;
	m->off = a2; m->end = b2; m->base = lo; m->len = len; m->sper = llabs (m->sper); if (rev) m->sper = -m->sper;
	if (!m->repeats) { if (a2 < b2) { if ((int) m->phase == len - 1) ph = 0; } else if (m->phase == 0) ph = len ? len - 1 : 0; }   /* a sample which has not finished its first pass begins at the start of its direction */
	m->phase = (uint32_t) ph; m->sus = 0; m->so = m->se = 0;
}
static void m_sustain (UModel *m, int32_t a, int32_t b)
{
	if (a == b) a = b = 0;
	int a2 = clampi ((int64_t) a + (a < 0 ? m->len + 1 : 0), 0, m->len), b2 = clampi ((int64_t) b + (b < 0 ? m->len + 1 : 0), 0, m->len);
	m->so = a2 < b2 ? a2 : b2; m->se = a2 < b2 ? b2 : a2; m->sus = a2 != b2;
}
static void m_setdata (U *x, int d, int sample)
{
	UModel *m = &x->m; m->sus = m->release = 0; m->repeats = 0;
	if (d < 0) { if (m->wave >= W_CUSTOM) { m->wave = W_NONE; m->phase = 0; m->repeat = 0; m->len = m->off = m->end = 0; m->so = m->se = 0; } return; }
	m->f = x->raw[d]; m->n = x->rn_[d]; m->nch = x->rch[d]; m->phase = 0; m->off = 0; m->end = m->n; m->base = 0;
	if (sample) { m->wave = W_SAMPLE; m->len = m->n; m->sper = llabs (m->sper); m->repeat = 0; m->jump = 0; m->so = x->dso[d]; m->se = x->dse[d]; m->sus = m->so != m->se; uint32_t r; if (x->cbon) m_cb (x, BK_EVENT_SAMPLE_BEGIN, &r); }
	else { m->wave = W_CUSTOM; m->count = m->n < 64 ? m->n : 64; }
}
static void m_attr (U *x, int a, int32_t v)
{
	UModel *m = &x->m; static const int counts[] = {16, 32, 8, 7, 32}; uint32_t r;
	switch (a) {
		case BK_WAVEFORM: if (m->wave != v) { m->phase = 0; m->wave = v; } m->count = v == BK_SQUARE ? counts[0] : v == BK_TRIANGLE ? 32 : v == BK_NOISE ? 8 : v == BK_SAWTOOTH ? 7 : 32; m->sus = m->release = 0; break;
		case BK_DUTY_CYCLE: v = clampi (v, 1, 15); if (v != m->duty) { if (m->wave == BK_SQUARE && v > m->duty && (int) m->phase < v) m->phase = 0; m->duty = v; } break;
		case BK_PERIOD: m->period = llabs ((long long) v) < 16384 ? 16384 : llabs ((long long) v); if (m->period > INT32_MAX) m->period = INT32_MAX; break;
		case BK_PHASE:
			if (m->wave == W_SAMPLE && x->cbon) m_cb (x, BK_EVENT_SAMPLE_BEGIN, &r);
			if (m->wave == W_SAMPLE) { if (v < 0) v = m->end > m->off ? 0 : m->len - 1; m->phase = clampi (v, 0, m->len - 1 < 0 ? 0 : m->len - 1); }
			else m->phase = clampi (v, 0, m->count - 1);
			break;
		case BK_PHASE_WRAP: m->wrap = m->wrapc = v ? (v < 2 ? 2 : v) : 0; m->phase = 0; break;
		case BK_VOLUME: for (int i = 0; i < 8; i ++) m->vol[i] = clampi (v, 0, 32767); break;
		case BK_MUTE: m->mute = v != 0; break;
		case BK_SAMPLE_REPEAT: m->repeat = v == BK_REPEAT || v == BK_PALINDROME ? v : 0; break;
		case BK_SAMPLE_PERIOD: { int64_t p = llabs ((long long) v); p = p < 1 << 12 ? 1 << 12 : p > 1 << 28 ? 1 << 28 : p; m->sper = m->sper < 0 ? -p : p; break; }
		case BK_SAMPLE_IMMED_RELEASE: m->jump = v != 0; break;
		case BK_FLAG_RELEASE:
			if (m->sus) { m->release = v != 0; if (v && m->jump && !m->mute) m->phase = m->sper > 0 ? (m->se < m->len - 1 ? m->se : m->len - 1) : (m->so - 1 > 0 ? m->so - 1 : 0); }
			break;
		default: if (a >= BK_VOLUME_0 && a <= BK_VOLUME_7) m->vol[a - BK_VOLUME_0] = clampi (v, 0, 32767);
	}
}
static void m_pitch (U *x) { m_attr (x, BK_SAMPLE_PERIOD, BKLog2PeriodLookup (clampi ((int64_t) x->note + x->pitch + x->spitch, 0, BK_MAX_NOTE << 20))); }
static void m_note (U *x, int32_t v)
{
	UModel *m = &x->m;
	if (v >= 0) {
		x->note = clampi (v, 0, BK_MAX_NOTE << 20); vf_count (x->cur < 0 ? "attacks" : "held_notes", 1);
		if (x->cur < 0 && m->wave == W_SAMPLE) m_attr (x, BK_PHASE, -1);      /* only a note after a mute or release starts the sample */
		x->cur = x->note; m->mute = 0; m_attr (x, BK_FLAG_RELEASE, 0);
	}
	else if (v == BK_NOTE_RELEASE) { x->cur = -1; vf_count (x->instr ? "instrument_releases" : m->sus ? "sustain_releases" : "releases", 1);
		/* an instrument decides when the note ends, the sample leaves its sustain range anyway */
		if (x->instr == 2) m->mute = 1;
		if (m->sus || x->instr) m_attr (x, BK_FLAG_RELEASE, 1); else m->mute = 1; }
	else if (v == BK_NOTE_MUTE) { x->cur = -1; m->mute = 1; m_attr (x, BK_FLAG_RELEASE, 0); vf_count ("mutes", 1); }
	if (m->wave == W_SAMPLE) m_pitch (x);
}
static void m_apply (U *x, const UOp *o, int incb)
{
	TRACE ("  %.4f model op %d %d %d\n", x->m.now / 1048576., o->kind, o->a, o->b);
	switch (o->kind) {
		case U_ATTR:
			if (x->track && o->a == BK_VOLUME) { int v = (int) ((clampi (o->b, 0, 32767) * 32767LL) >> 15); if (x->instr) v = (int) ((v * 32767LL) >> 15); m_attr (x, o->a, v); }
			else if (x->track && o->a == BK_PITCH) { x->pitch = clampi (o->b, -(48 << 20), 48 << 20); if (x->m.wave == W_SAMPLE) m_pitch (x); }
			else m_attr (x, o->a, o->b);
			break;
		case U_NOTE: m_note (x, o->a); break;
		case U_RANGE: if (x->m.wave == W_SAMPLE) m_range (&x->m, o->a, o->b); break;
		case U_SUSTAIN: if (x->m.wave == W_SAMPLE) m_sustain (&x->m, o->a, o->b); break;
		case U_DATA: if (!x->track || x->m.wave != W_SAMPLE || o->a < 0 || x->m.f != x->raw[o->a]) m_setdata (x, o->a, o->b); if (x->track) { x->spitch = o->a < 0 ? 0 : x->dpitch[o->a]; if (x->m.wave == W_SAMPLE) m_pitch (x); } break;
	}
}
static void lib_apply (U *x, const UOp *o)
{
	switch (o->kind) {
		case U_ATTR: BKSetAttr (x->obj, o->a, o->b); break;
		case U_NOTE: BKSetAttr (x->obj, BK_NOTE, o->a); break;
		case U_RANGE: { int32_t r[2] = {o->a, o->b}; BKSetPtr (x->obj, BK_SAMPLE_RANGE, r, sizeof r); break; }
		case U_SUSTAIN: { int32_t r[2] = {o->a, o->b}; BKSetPtr (x->obj, BK_SAMPLE_SUSTAIN_RANGE, r, sizeof r); break; }
		case U_DATA: BKSetPtr (x->obj, o->b ? BK_SAMPLE : BK_WAVEFORM, o->a < 0 ? NULL : &x->d[o->a], sizeof (void *)); break;
	}
}
static BKEnum u_cb (BKCallbackInfo *info, void *u)
{
	U *x = u; if (x->ncb < 4096) x->evs[x->ncb] = (int) info->event;
	int n = x->ncb ++; if (info->object != x->obj) vf_fail ("notification-object", "sample notification names another object");
	uint32_t ret = n < 4000 ? x->cbret[n % 40] : 0;
	if (info->event == BK_EVENT_SAMPLE_RESET && x->cbop[n % 40].kind >= 0) { UOp o = {0, x->cbop[n % 40].kind, x->cbop[n % 40].a, x->cbop[n % 40].b}; lib_apply (x, &o); }
	return ret;
}
/* the part of the model which plays until time T */
static void m_go (U *x, uint64_t T)
{
	UModel *m = &x->m;
	if (m->wave == W_NONE) { if (m->time < T) m->time = T; return; }
	if (m->mute) { m->time = T; return; }
	if (m->wave == W_SAMPLE) {
		if (abs (m->end - m->off) < 2) { m->time = T; return; }
		for (; m->time < T; m->time += 1 << 20) {
			for (int c = 0; c < m->ch; c ++) { int32_t f = m->f[(m->base + (int) m->phase) * m->nch + (m->nch == 1 ? 0 : c)]; emit (x, c, m->time + m->frac, (int32_t) (((int64_t) f * m->vol[c]) >> 15)); }
			int64_t pos = m->frac + m->sper, adv = pos >> 20; m->frac = pos & 0xfffff; int64_t ph = (int64_t) m->phase + adv;
			if (m->sus && !m->release) { if (m->sper > 0 ? ph >= m->se : ph < m->so) ph = m->sper > 0 ? m->so : m->se - 1; }
			m->phase = (uint32_t) ph;
			if (ph < 0 || ph >= m->len) {
				uint32_t mode = (uint32_t) m->repeat; int dir, go;
				if (x->cbon) { m_cb (x, BK_EVENT_SAMPLE_RESET, &mode); ph = (int32_t) m->phase;
					if (m->wave != W_SAMPLE && m->wave != W_NONE && !m->mute) { m->time += 1 << 20; vf_count ("waveform_from_notification", 1); m_go (x, T); return; }      /* another waveform begins after the current frame */
					if (m->wave != W_SAMPLE || abs (m->end - m->off) < 2) break; }
				dir = ph >= m->len ? 1 : ph < 0 ? -1 : 0;
				go = !dir && (mode == BK_REPEAT || mode == BK_PALINDROME); if (go) vf_count ("continued", 1);      /* the notification has set a place inside of the sample and answers to repeat: it continues there */
				if (dir) { ph %= m->len; if (ph < 0) ph += m->len; }
				if (mode == BK_PALINDROME) { if (dir == 1) ph = m->len - 1 - ph; else if (dir == -1) ph = m->len - ph < m->len - 1 ? m->len - ph : m->len - 1; dir = -dir; }
				else if (mode != BK_REPEAT) dir = 0;
				m->phase = (uint32_t) ph; m->repeats ++;
				if (!dir && !go) { m->mute = 1; break; }
				if (dir) m->sper = dir > 0 ? llabs (m->sper) : -llabs (m->sper);
				if (m->mute) break;
			}
		}
		if (m->time < T) m->time = T;
		return;
	}
	int any = 0; for (int c = 0; c < m->ch; c ++) any |= m->vol[c];
	if (!any) { m->time = T; return; }
	for (; m->time < T; m->time += m->period) {
		int32_t v;
		if (m->wave == BK_NOISE || m->wave == W_CUSTOM) if (m->wrap && -- m->wrapc <= 0) { m->wrapc = m->wrap; m->phase = 0; }
		if (m->wave == BK_NOISE) {
			uint32_t p = m->phase ? m->phase : 0x4a41, b = (p ^ p >> 2 ^ p >> 3 ^ p >> 5) & 1; m->phase = p >> 1 | b << 15; v = b ? 16383 : -16383;
		}
		else { v = shape (m, (int) m->phase); if (++ m->phase >= (uint32_t) m->count) m->phase = 0; }
		for (int c = 0; c < m->ch; c ++) if (m->vol[c]) emit (x, c, m->time, (int32_t) (((int64_t) v * m->vol[c]) >> 15));
	}
}
static void m_run (U *x, uint64_t T) { if (T == x->m.now) return; x->m.now = T; m_go (x, T); }
static BKEnum clk_cb (BKCallbackInfo *info, void *u)
{
	U *x = u; BKTime t = BK_TIME_ZERO; BKGetPtr (&x->ctx, BK_TIME, &t, sizeof t); uint64_t now = ((uint64_t) BKTimeGetTime (t) << 20) + BKTimeGetFrac (t);
	while (x->next < x->nop && x->op[x->next].t <= now) { if (x->op[x->next].t != now) vf_harness_error ("tick at a wrong time"); lib_apply (x, &x->op[x->next ++]); }
	return 0;
}
static int32_t rvol (Rng *r) { switch (rn (r, 5)) { case 0: return 32767; case 1: return chance (r, 30) ? 0 : 1; case 2: return (int32_t) rr (r, 1, 200); default: return (int32_t) rr (r, 500, 32767); } }
static int32_t rper (Rng *r) { switch (rn (r, 7)) { case 0: return 16384; case 1: return (int32_t) rr (r, 16384, 1 << 20); case 2: return (int32_t) rr (r, 1, 40) << 20; case 3: return (int32_t) rr (r, 1 << 20, 60 << 20); case 4: return chance (r, 20) ? (int32_t) rr (r, 60 << 20, INT32_MAX) : 1 << 20; case 5: return -(int32_t) rr (r, 16384, 8 << 20); default: return (int32_t) rr (r, 1 << 18, 12 << 20); } }
static int32_t rsper (Rng *r) { switch (rn (r, 6)) { case 0: return 1 << 20; case 1: return (int32_t) rr (r, 1 << 18, 1 << 22); case 2: return 1 << rr (r, 12, 24); case 3: return (int32_t) rr (r, 1 << 12, 1 << 20); case 4: return chance (r, 20) ? (int32_t) rr (r, 1 << 20, 1 << 28) : 1 << 20; default: return -(int32_t) rr (r, 1 << 19, 1 << 21); } }
static int32_t roff (Rng *r, int n) { switch (rn (r, 5)) { case 0: return 0; case 1: return -1; case 2: return (int32_t) rr (r, -n - 3, -1); default: return (int32_t) rr (r, 0, n + 3); } }
static void gen_op (Rng *r, U *x, UOp *o, int sample, int initial)
{
	static const BKEnum waves[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE}; int n = x->rn_[0];
	o->kind = U_ATTR; o->b = 0;
	if (x->track && chance (r, 75)) { int k = (int) rn (r, 10); o->kind = U_NOTE; o->a = k < 5 ? (int32_t) rr (r, 30 << 20, 66 << 20) : k < 8 ? BK_NOTE_RELEASE : k < 9 ? BK_NOTE_MUTE : 48 << 20; return; }
	if (!sample) switch (initial ? 20 : rn (r, 13)) {
		case 0: case 1: o->a = BK_PERIOD; o->b = rper (r); break;
		case 2: o->a = BK_VOLUME; o->b = rvol (r); break;
		case 3: case 4: o->a = BK_VOLUME_0 + (int) rn (r, x->m.ch); o->b = rvol (r); break;
		case 5: o->a = BK_DUTY_CYCLE; o->b = (int32_t) rr (r, 0, 16); break;
		case 6: o->a = BK_PHASE; o->b = (int32_t) rr (r, -1, 70); break;
		case 7: o->a = BK_PHASE_WRAP; o->b = chance (r, 30) ? 0 : (int32_t) rr (r, 1, chance (r, 50) ? 12 : 200) + (chance (r, 10) ? 256 << 8 * (int) rn (r, 3) : 0); break;
		case 8: o->a = BK_MUTE; o->b = 1; break;
		case 9: case 10: o->a = BK_MUTE; o->b = 0; break;
		default: if (chance (r, 60)) { o->a = BK_WAVEFORM; o->b = PICK (r, waves); } else { o->kind = U_DATA; o->a = chance (r, 15) ? -1 : (int) rn (r, 3); o->b = 0; if (o->a >= 0 && x->rch[o->a] != 1) o->a = 0; }
	}
	else switch (initial ? 20 : rn (r, 16)) {
		case 0: case 1: if (x->track) { o->a = BK_PITCH; o->b = (int32_t) rr (r, -(14 << 20), 14 << 20); break; } o->a = BK_SAMPLE_PERIOD; o->b = rsper (r); break;
		case 2: o->a = BK_VOLUME; o->b = rvol (r); break;
		case 3: if (x->track) { o->a = BK_VOLUME; o->b = rvol (r); break; } o->a = BK_VOLUME_0 + (int) rn (r, x->m.ch); o->b = rvol (r); break;
		case 4: o->a = BK_PHASE; o->b = (int32_t) rr (r, -2, n + 3); break;
		case 5: if (x->track) { o->kind = U_NOTE; o->a = BK_NOTE_MUTE; break; } o->a = BK_MUTE; o->b = 1; break;
		case 6: case 7: if (x->track) { o->kind = U_NOTE; o->a = 50 << 20; break; } o->a = BK_MUTE; o->b = 0; break;
		case 8: o->a = BK_SAMPLE_REPEAT; o->b = (int32_t) rr (r, -1, 3); break;
		case 9: o->kind = U_RANGE; o->a = roff (r, n); o->b = roff (r, n); break;
		case 10: case 11: o->kind = U_SUSTAIN; o->a = roff (r, n); o->b = roff (r, n); break;
		case 12: o->a = BK_FLAG_RELEASE; o->b = chance (r, 75); break;
		case 13: o->a = BK_SAMPLE_IMMED_RELEASE; o->b = chance (r, 60); break;
		case 14: if (chance (r, 50)) { o->kind = U_DATA; o->a = -1; o->b = 1; break; }
		default: o->kind = U_DATA; o->a = (int) rn (r, 3); o->b = 1;
	}
}
/* what a notification does */
static void gen_cbop (Rng *r, U *x, UOp *o)
{
	static const BKEnum waves[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE}; int n = x->rn_[0];
	o->kind = U_ATTR; o->a = o->b = 0;
	switch (x->track ? 0 : rn (r, 16)) {
		case 0: case 1: case 2: case 3: o->kind = U_RANGE; o->a = roff (r, n); o->b = roff (r, n); break;
		case 4: case 5: o->a = BK_SAMPLE_PERIOD; o->b = rsper (r); break;
		case 6: o->a = BK_MUTE; o->b = chance (r, 50); break;
		case 7: o->a = BK_WAVEFORM; o->b = PICK (r, waves); break;
		case 8: case 9: case 10: o->kind = U_DATA; o->a = chance (r, 12) ? -1 : (int) rn (r, 3); o->b = 1; break;
		case 11: o->kind = U_DATA; o->a = 0; o->b = 0; break;
		case 12: o->a = BK_VOLUME; o->b = rvol (r); break;
		case 13: o->a = BK_SAMPLE_REPEAT; o->b = (int32_t) rr (r, 0, 2); break;
		case 14: o->a = BK_PHASE; o->b = (int32_t) rr (r, -1, n + 1); break;
		default: if (chance (r, 50)) { o->kind = U_SUSTAIN; o->a = roff (r, n); o->b = roff (r, n); } else { o->a = BK_FLAG_RELEASE; o->b = chance (r, 75); }
	}
}
static void run_unit (Rng *r, int sample, int track)
{
	U *x = calloc (1, sizeof *x); UModel *m = &x->m; x->total = (int) rr (r, 40, chance (r, 20) ? 4000 : 900); int big = rn (r, 250) == 0, lng = rn (r, 300) == 0; if (lng) x->total = (int) rr (r, 60000, 140000);
	int ch = m->ch = big || lng || chance (r, 50) ? (int) rr (r, 1, 2) : (int) rr (r, 1, 8);
	static const BKEnum waves[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE};
	const BKBufferPulse *k = BKBufferPulseKernels[rn (r, 2)]; x->useclock = track || chance (r, 35);      /* a track has clocks: changes between calls would wait for the next tick */
	BKContextInit (&x->ctx, ch, (BKUInt) rr (r, 16000, 96000)); BKSetPtr (&x->ctx, BK_PULSE_KERNEL, (void *) k, sizeof (void *));
	for (int c = 0; c < ch; c ++) rc_init (&x->rc[c], x->total + 3000, k);
	for (int d = 0; d < 3; d ++) {
		x->rn_[d] = big && sample ? (int) rr (r, 30000, 140000) : (int) rr (r, 2, sample ? chance (r, 50) ? 12 : 200 : chance (r, 30) ? 100 : 40); x->rch[d] = d && sample && chance (r, 60) ? ch : 1; int cnt = x->rn_[d] * x->rch[d]; x->raw[d] = malloc (cnt * 2); int st = (int) rn (r, 3);
		for (int i = 0; i < cnt; i ++) x->raw[d][i] = (BKFrame) (st == 0 ? rr (r, -32768, 32767) : st == 1 ? rr (r, -200, 200) * 100 : i * 200 - 10000);
		BKDataInit (&x->d[d]); if (BKDataSetFrames (&x->d[d], x->raw[d], x->rn_[d], x->rch[d], 1) != 0) vf_fail ("data", "frames refused");
		int longer = sample && chance (r, 15) ? (int) rr (r, 1, 40) : 0;   /* the sustain range was set for longer frames */
		if (longer) { BKFrame *f = calloc (x->rn_[d] + longer, 2); BKDataSetFrames (&x->d[d], f, x->rn_[d] + longer, 1, 1); free (f); }
		if (sample && (longer || chance (r, 30))) { int n = x->rn_[d] + longer; int32_t rg[2] = {(int32_t) rr (r, 0, n), (int32_t) rr (r, 0, n)}; BKSetPtr (&x->d[d], BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg); if (rg[0] == rg[1]) rg[0] = rg[1] = 0; x->dso[d] = rg[0] < rg[1] ? rg[0] : rg[1]; x->dse[d] = rg[0] < rg[1] ? rg[1] : rg[0]; 
			if (longer) { n -= longer; BKDataSetFrames (&x->d[d], x->raw[d], n, x->rch[d], 1); if (x->dso[d] > n) x->dso[d] = n; if (x->dse[d] > n) x->dse[d] = n; vf_count ("shortened", 1); } }
	}
	/* initial state */
	m->wave = PICK (r, waves); m->duty = 2; m->sper = 1 << 20; m->count = m->wave == BK_SQUARE ? 16 : m->wave == BK_NOISE ? 8 : m->wave == BK_SAWTOOTH ? 7 : 32;
	x->obj = &x->u; x->cur = -1; x->track = track;
	if (track) { x->obj = &x->t; BKTrackInit (&x->t, m->wave); BKTrackAttach (&x->t, &x->ctx); BKSetAttr (&x->t, BK_MASTER_VOLUME, 32767); m->mute = 1; m->duty = 4; for (int c = 0; c < ch; c ++) m->vol[c] = 32766; for (int d = 0; d < 3; d ++) if (chance (r, 50)) BKSetAttr (&x->d[d], BK_SAMPLE_PITCH, x->dpitch[d] = (int32_t) rr (r, -12, 12) * (1 << 20));
		if (chance (r, 30)) {   /* an instrument which changes nothing; its release part lasts forever or is empty */
			BKSequencePhase e[2] = {{1, 0}, {1 << 30, 0}}; BKInt z[1] = {0}; x->instr = (int) rr (r, 1, 2); BKInstrumentInit (&x->ins); if (x->instr == 1) BKInstrumentSetEnvelope (&x->ins, BK_SEQUENCE_PITCH, e, 2, 0, 1); else BKInstrumentSetSequence (&x->ins, BK_SEQUENCE_PITCH, z, 1, 0, 1);
			CHECK (BKSetPtr (&x->t, BK_INSTRUMENT, &x->ins, sizeof (void *)) == 0, "instrument", "instrument refused"); for (int c = 0; c < ch; c ++) m->vol[c] = 32765;
		}
	}
	else { BKUnitInit (&x->u, m->wave); BKUnitAttach (&x->u, &x->ctx); }
	x->cbon = sample && chance (r, 50);
	for (int i = 0; i < 40; i ++) { x->cbret[i] = chance (r, 70) ? (uint32_t) rr (r, 1, 2) : (uint32_t) rn (r, 4); x->cbop[i].kind = -1; if (chance (r, 25)) { UOp o; gen_cbop (r, x, &o); x->cbop[i].kind = o.kind; x->cbop[i].a = o.a; x->cbop[i].b = o.b; } }
	if (x->cbon) { BKCallback c = {u_cb, x}; BKSetPtr (x->obj, BK_SAMPLE_CALLBACK, &c, sizeof c); }
	UOp ini[10]; int ni = 0; 
	if (track) { ini[ni ++] = (UOp) {0, U_ATTR, BK_VOLUME, rvol (r)}; if (chance (r, 50)) ini[ni ++] = (UOp) {0, U_NOTE, 48 << 20, 0}; }
	else {
	ini[ni ++] = (UOp) {0, U_ATTR, BK_PERIOD, rper (r)}; ini[ni ++] = (UOp) {0, U_ATTR, BK_VOLUME, rvol (r)}; if (chance (r, 50)) ini[ni ++] = (UOp) {0, U_ATTR, BK_VOLUME_0 + (int) rn (r, ch), rvol (r)}; ini[ni ++] = (UOp) {0, U_ATTR, BK_DUTY_CYCLE, (int32_t) rr (r, 1, 15)};
	}
	if (sample) { ini[ni ++] = (UOp) {0, U_DATA, (int) rn (r, 3), 1}; ini[ni ++] = (UOp) {0, U_ATTR, BK_SAMPLE_REPEAT, (int32_t) rr (r, 0, 2)}; if (!track && (big || chance (r, 60))) ini[ni ++] = (UOp) {0, U_ATTR, BK_SAMPLE_PERIOD, big ? 1 << rr (r, 24, 28) : rsper (r)}; if (chance (r, 50)) ini[ni ++] = (UOp) {0, U_RANGE, roff (r, x->rn_[0]), roff (r, x->rn_[0])}; if (chance (r, 40)) ini[ni ++] = (UOp) {0, U_SUSTAIN, roff (r, x->rn_[0]), roff (r, x->rn_[0])}; }
	else if (chance (r, 30)) ini[ni ++] = (UOp) {0, U_DATA, 0, 0};
	for (int i = 0; i < ni; i ++) { m_apply (x, &ini[i], 0); lib_apply (x, &ini[i]); }
	x->nop = (int) rn (r, chance (r, 40) ? 40 : 8); x->tick = rr (r, 4 << 20, 60 << 20); if (chance (r, 30)) x->tick &= ~0xfffffULL;
	uint64_t T = 0, end = (uint64_t) x->total << 20;
	for (int i = 0; i < x->nop; i ++) {
		UOp *o = &x->op[i]; gen_op (r, x, o, sample, 0);
		if (x->useclock) o->t = x->tick * rn (r, (end - 1) / x->tick + 1); else o->t = chance (r, 30) ? (uint64_t) rn (r, x->total) << 20 : rn (r, end);
	}
	for (int i = 1; i < x->nop; i ++) for (int j = i; j > 0 && x->op[j].t < x->op[j - 1].t; j --) { UOp t = x->op[j]; x->op[j] = x->op[j - 1]; x->op[j - 1] = t; }
	Frames out = {0}; BKFrame *b = malloc (2100 * ch * 2); uint64_t E = 0, R = 0, h = m->wave;
	if (x->useclock) { BKCallback c = {clk_cb, x}; BKClockInit (&x->clk, vf_time (x->tick), &c); BKClockAttach (&x->clk, &x->ctx, NULL); }
	for (int i = 0; i <= x->nop && !vf_failed (); i ++) {
		uint64_t to = i < x->nop ? x->op[i].t : end;
		m_run (x, to);
		if (!x->useclock || i == x->nop) while (E < to) {
			uint64_t part = to - E > (uint64_t) 1000 << 20 ? (uint64_t) 1000 << 20 : to - E; if (chance (r, 30) && part > 2) part = 1 + rn (r, part - 1);
			BKContextEnd (&x->ctx, (BKFUInt20) part); E += part; BKInt n = BKContextRead (&x->ctx, b, 1100); if (n > 0) { fr_add (&out, b, (size_t) n * ch); R += n; }
		}
		if (i < x->nop) {
			if (!x->useclock) {
				lib_apply (x, &x->op[i]);
			}
			m_apply (x, &x->op[i], 0); h = vf_mix (h, x->op[i].kind * 100000 + x->op[i].a % 100000);
			if (!x->useclock) {
				int mute = -1, ph = -1; BKGetAttr (x->obj, BK_MUTE, &mute); CHECK (mute == m->mute, "mute-state", "unit muted %d, expected %d at %.4f", mute, m->mute, T / 1048576.);
				BKGetAttr (x->obj, BK_PHASE, &ph); if (m->wave == W_SAMPLE && m->len >= 2) CHECK (ph == (int) m->phase, "sample-position", "sample at frame %d, expected %u", ph, m->phase);
				if (sample) { int rp = 0; BKGetAttr (x->obj, BK_SAMPLE_PERIOD, &rp); int32_t rg[2] = {-1, -1}; BKGetPtr (x->obj, BK_SAMPLE_RANGE, rg, sizeof rg); if (m->wave == W_SAMPLE) { CHECK (rg[0] == m->off && rg[1] == m->end, "sample-range", "range %d..%d, expected %d..%d", rg[0], rg[1], m->off, m->end);
					BKGetPtr (x->obj, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg); CHECK (rg[0] == m->so && rg[1] == m->se, "sustain-range", "sustain range %d..%d, expected %d..%d", rg[0], rg[1], m->so, m->se); } }
			}
		}
		T = to;
	}
	size_t want = (size_t) x->total; CHECK (vf_failed () || out.n == want * ch, "frame-count", "%zu frames instead of %zu", out.n / ch, want);
	for (size_t f = 0; f < want && !vf_failed (); f ++) for (int c = 0; c < ch; c ++) {
		BKFrame w = rc_next (&x->rc[c]), g = out.d[f * ch + c];
		if (w != g) { vf_fail (sample ? "sample-audio" : "waveform-audio", "frame %zu of channel %d is %d instead of %d", f, c, g, w); break; }
	}
	if (x->cbon && !vf_failed ()) {
		/* the model may not have generated beyond the end; neither may the library (no clock) */
		int n = x->ncb < x->nmcb ? x->ncb : x->nmcb; CHECK (x->useclock ? x->ncb >= x->nmcb : x->ncb == x->nmcb, "notification-count", "%d notifications instead of %d", x->ncb, x->nmcb);
		for (int i = 0; i < n && i < 4096; i ++) if (x->evs[i] != x->mevs[i]) { vf_fail ("notification-order", "notification %d is %d instead of %d", i, x->evs[i], x->mevs[i]); break; }
		vf_count ("notifications", x->ncb);
	}
	vf_count ("steps", m->emitted); vf_count ("frames", want); if (m->emitted) vf_sig (vf_mix (h, x->useclock * 2 + x->cbon));
	if (x->useclock) BKDispose (&x->clk);
	if (x->instr) BKDispose (&x->ins);
	BKDispose (x->obj); for (int d = 0; d < 3; d ++) { BKDispose (&x->d[d]); free (x->raw[d]); } BKDispose (&x->ctx); for (int c = 0; c < ch; c ++) rc_free (&x->rc[c]);
	fr_free (&out); free (b); free (x);
}
VF_PROP (S05) { run_unit (r, 0, 0); }
VF_PROP (S06) { run_unit (r, 1, 0); }
/* a track playing a sample: notes start, hold, release and end it */
VF_PROP (P08_sample) { run_unit (r, 1, 1); }
