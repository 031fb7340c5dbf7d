#include "scene.h"

enum { K_NOTE, K_ATTR, K_SAMPLE, K_WAVEDATA, K_RANGE, K_SUSTAIN, K_RECIPE, K_EFFECT, K_ARP, K_INSTR, K_ATTACH, K_DETACH, K_RESET, K_CLEAR, K_VCB, K_DATA, K_CONVERT, K_SEQ,
	K_CLOCKATT, K_CLOCKDET, K_CLOCKPER, K_CLOCKRST, K_DIVATT, K_DIVDET, K_DIVRST, K_KERNEL, K_CTXPERIOD, K_DISPOSE, K_CREATE, K_COPY, K_GET, K_CTXRESET, NKIND };
const BKEnum sc_int_attrs[] = {BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES, BK_MASTER_VOLUME, BK_VOLUME, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3,
	BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7, BK_MUTE, BK_PITCH, BK_SAMPLE_REPEAT, BK_SAMPLE_IMMED_RELEASE, BK_SAMPLE_PERIOD, BK_SAMPLE_PITCH, BK_FLAG_RELEASE, BK_NOTE, BK_PANNING,
	BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO};
const int sc_n_int_attrs = sizeof sc_int_attrs / sizeof *sc_int_attrs;
static const BKEnum effects[] = {BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO};
static const BKEnum waves[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE};
#define FR(x) ((uint64_t) (x) << 20)

void runopt_default (RunOpt *o) { memset (o, 0, sizeof *o); o->mask = ~0u; o->fill = 0xA5; o->chalt = -1; o->cbops = 1; }
BKInt sc_attr (void *obj, BKEnum attr) { BKInt v = -12345678; BKGetAttr (obj, attr, &v); return v; }

/* ------------------------------------------------------------------ plans */
static const int voice_kinds[][2] = {{K_NOTE, 30}, {K_ATTR, 24}, {K_SAMPLE, 7}, {K_WAVEDATA, 4}, {K_RANGE, 5}, {K_SUSTAIN, 4}, {K_RECIPE, 6}, {K_EFFECT, 9}, {K_ARP, 4}, {K_INSTR, 4}, {K_ATTACH, 2}, {K_DETACH, 1}, {K_RESET, 1}, {K_CLEAR, 1}, {K_VCB, 1}, {K_GET, 1}};
static const int global_kinds[][2] = {{K_DATA, 6}, {K_CONVERT, 2}, {K_SEQ, 4}, {K_CLOCKATT, 6}, {K_CLOCKDET, 4}, {K_CLOCKPER, 4}, {K_CLOCKRST, 3}, {K_DIVATT, 6}, {K_DIVDET, 3}, {K_DIVRST, 3}, {K_KERNEL, 1}, {K_CTXPERIOD, 2}};
static int wpick (Rng *r, const int (*t)[2], int n) { int s = 0, i; for (i = 0; i < n; i ++) s += t[i][1]; int x = (int) rn (r, s); for (i = 0; i < n - 1; i ++) { x -= t[i][1]; if (x < 0) break; } return t[i][0]; }

static int op_voice (Rng *r, const Plan *p, int own)
{
	for (;;) {
		int k = wpick (r, voice_kinds, sizeof voice_kinds / 8);
		if ((k == K_ATTACH || k == K_DETACH) && (p->flags & PF_NOATTACH)) continue;
		if ((k == K_VCB || k == K_RESET) && (p->flags & PF_NOCONFIG)) continue;
		if ((k == K_ATTACH || k == K_DETACH) && own >= 0) continue;     /* never from the voice's own callback */
		return k;
	}
}
static Op op_make (Rng *r, const Plan *p, int voiceonly, int own)
{
	Op o = {0}; o.seed = vf_next (r); o.v = own;
	if (voiceonly || (p->flags & PF_NOSHARED) || chance (r, 84)) { o.kind = op_voice (r, p, own); if (own < 0) o.v = (int) rn (r, p->nv); }
	else if ((p->flags & PF_DISPOSE) && chance (r, 50)) { o.kind = chance (r, 48) ? K_DISPOSE : chance (r, 92) ? K_CREATE : K_COPY; o.v = (int) rn (r, 64); }
	else {
		for (;;) {
			o.kind = wpick (r, global_kinds, sizeof global_kinds / 8);
			if ((p->flags & PF_NOCONFIG) && o.kind != K_CONVERT) { o.kind = -1; break; }
			if ((p->flags & PF_NOCLOCKOPS) && o.kind >= K_CLOCKATT && o.kind <= K_DIVRST) continue;
			if ((p->flags & PF_HOSTILE) && chance (r, 4)) o.kind = K_CTXRESET;
			break;
		}
		if ((p->flags & PF_NOCONFIG)) { o.kind = K_NOTE; o.v = (int) rn (r, p->nv); return o; }
		o.v = (int) rn (r, 64);
	}
	return o;
}
static int cmp_op (const void *a, const void *b) { const Op *x = a, *y = b; return x->pos < y->pos ? -1 : x->pos > y->pos ? 1 : x->seed < y->seed ? -1 : x->seed > y->seed; }
void plan_ops (OpList *l, const Plan *p, Rng *r, int n, uint64_t total)
{
	l->n = 0; l->total = FR (total); if (n > MAXOPS - 2 * MAXV) n = MAXOPS - 2 * MAXV;
	/* make things audible early */
	for (int i = 0; i < p->nv; i ++) if (chance (r, 80)) {
		Op o = {0}; if (chance (r, 50)) { o.kind = K_RECIPE; o.seed = vf_next (r); o.v = i; l->op[l->n ++] = o; continue; } o.kind = chance (r, 30) ? (chance (r, 70) ? K_SAMPLE : K_WAVEDATA) : K_NOTE; o.seed = vf_next (r); o.v = i; o.pos = 0; l->op[l->n ++] = o;
		if (o.kind != K_NOTE) { o.kind = K_NOTE; o.seed = vf_next (r); o.pos = (p->flags & PF_FRACPOS) ? 1 : 0; if (!o.pos) o.seed = l->op[l->n - 1].seed | (1ULL << 63), l->op[l->n - 1].seed &= ~(1ULL << 63); l->op[l->n ++] = o; }
	}
	for (int i = 0; i < n; i ++) {
		Op o = op_make (r, p, 0, -1);
		o.pos = chance (r, 15) && i ? l->op[l->n - 1].pos : FR (rn (r, total + 1));
		if ((p->flags & PF_FRACPOS) && chance (r, 70)) o.pos = rn (r, l->total + 1);
		l->op[l->n ++] = o;
	}
	qsort (l->op, l->n, sizeof (Op), cmp_op);
}
static uint64_t rperiod (Rng *r, int hostile)
{
	switch (rn (r, hostile ? 7 : 4)) {
		case 0: return FR (rr (r, 10, 400));
		case 1: return rn (r, FR (900)) + FR (8);
		case 2: return FR (100) * (1 + rn (r, 4));
		case 3: return rn (r, FR (5000)) + FR (20);
		case 4: return FR (1) + rn (r, FR (3));
		case 5: return INT64_MAX >> rn (r, 30);
		default: return FR (rr (r, 1, 3));
	}
}
void plan_make (Plan *p, Rng *r, unsigned flags)
{
	static const int rates[] = {16000, 22050, 44100, 48000, 96000}; int H = (flags & PF_HOSTILE) != 0;
	memset (p, 0, sizeof *p); p->flags = flags; p->seed = vf_next (r);
	p->ch = chance (r, 40) ? 2 : chance (r, 50) ? 1 : (int) rr (r, 1, 8); p->rate = PICK (r, rates); if (chance (r, 20)) p->rate = (int) rr (r, 16000, 96000);
	p->nv = (int) rr (r, 1, chance (r, 20) ? MAXV : 4); p->nd = (int) rr (r, 1, MAXD); p->ni = (int) rr (r, 1, MAXI); p->nk = (int) rr (r, 0, 3); p->ndv = (int) rr (r, 0, 4);
	if ((flags & PF_UNITS_ONLY) && chance (r, 60)) { p->nk = chance (r, 50) ? 0 : 1; p->ndv = 0; if (chance (r, 60)) p->flags |= PF_NOCLOCKOPS; }
	if (flags & PF_DISPOSE) { p->nk = MAXK; p->ndv = MAXDV; p->nv = (int) rr (r, 2, MAXV); }
	for (int i = 0; i < p->nv; i ++) {
		p->v[i].unit = (flags & PF_TRACKS_ONLY) ? 0 : (flags & PF_UNITS_ONLY) ? 1 : chance (r, 30); p->v[i].wave = PICK (r, waves); p->v[i].alloc = chance (r, 30);
		p->v[i].vol = flags & PF_LOWVOL ? (int) rr (r, 9000 / p->nv / 3, 9000 / p->nv) : (int) rr (r, 300, chance (r, 30) ? 32767 : 32767 / p->nv);
	}
	for (int i = 0; i < MAXD; i ++) p->dseed[i] = vf_next (r);
	for (int i = 0; i < MAXI; i ++) p->iseed[i] = vf_next (r);
	for (int i = 0; i < MAXK; i ++) { p->k[i].period = rperiod (r, H); p->k[i].cb = chance (r, 90); p->k[i].attached = chance (r, 70); }
	for (int i = 0; i < MAXDV; i ++) { p->dv[i].count = (int) rr (r, 1, 7); p->dv[i].to = (int) rr (r, 0, MAXK + 1) ; p->dv[i].cb = chance (r, 92); }
	p->clockperiod = chance (r, 40) ? 0 : (int) rr (r, 20, 700);
	for (int n = 0; n < NCB; n ++) {
		for (int i = 0; i < MAXV; i ++) { CbStep *c = &p->cbv[i][n]; c->nops = chance (r, 25); for (int j = 0; j < c->nops; j ++) c->op[j] = op_make (r, p, 1, i); c->ret = chance (r, 60) ? BK_REPEAT : H && chance (r, 10) ? rint32 (r) : (int) rr (r, 0, 2); }
		for (int i = 0; i < MAXK; i ++) { CbStep *c = &p->cbk[i][n]; c->nops = (int) rn (r, 3); if (chance (r, 40)) c->nops = 0; for (int j = 0; j < c->nops; j ++) c->op[j] = op_make (r, p, 0, -1); c->next = chance (r, 20) ? rperiod (r, H) : 0; if (H && chance (r, 3)) { int32_t v = rint32 (r); c->next = v > 0 && v < 1 << 16 ? 1 << 16 : (uint64_t) v; } }
		for (int i = 0; i < MAXDV; i ++) { CbStep *c = &p->cbd[i][n]; c->nops = (int) rn (r, 3); if (chance (r, 40)) c->nops = 0; for (int j = 0; j < c->nops; j ++) c->op[j] = op_make (r, p, 0, -1); c->ret = chance (r, 20) ? (int) rr (r, 1, 6) : 0; if (H && chance (r, 4)) c->ret = rint32 (r); }
	}
}

/* ------------------------------------------------------------------ objects */
static void *mem (Scene *s, size_t n)
{
	uint8_t *m = malloc (n);
	if (s->o.fill >= 0) memset (m, s->o.fill, n); else for (size_t i = 0; i < n; i ++) m[i] = (uint8_t) vf_next (&s->fillr);
	return m;
}
static void keep (Scene *s, void *m) { if (s->nkeep < 4096) s->keep[s->nkeep ++] = m; else vf_harness_error ("too many blocks kept"); }
static int hostile (Scene *s) { return (s->p->flags & PF_HOSTILE) != 0; }
static int32_t iv (Scene *s, Rng *r, int64_t lo, int64_t hi) { int32_t v = (int32_t) rr (r, lo, hi); if (hostile (s) && chance (r, 35)) v = rint32 (r); return v; }
static void logev (Scene *s, int owner, int event, int64_t t)
{
	Log *l = &s->log[owner]; if (s->p->flags & PF_HOSTILE) return;
	if (l->n == l->cap) { l->cap = l->cap * 2 + 32; l->e = realloc (l->e, l->cap * sizeof *l->e); }
	l->e[l->n].owner = owner; l->e[l->n].event = event; l->e[l->n ++].time = t;
}
static int64_t now (Scene *s) { BKTime t = BK_TIME_ZERO; if (s->ctxstat) BKGetPtr (s->ctx, BK_TIME, &t, sizeof t); return (int64_t) BKTimeGetTime (t) * (1 << 20) + BKTimeGetFrac (t); }

/* fill data with content from a seed */
static void data_fill (Scene *s, int d, uint64_t seed)
{
	Rng r = {seed}; BKData *D = s->d[d]; unsigned nch = chance (&r, 55) ? 1 : (unsigned) s->p->ch; int n = (int) rr (&r, 2, chance (&r, 60) ? 40 : 700), style = (int) rn (&r, 4);
	if (hostile (s)) { if (chance (&r, 15)) nch = (unsigned) rr (&r, 0, 9); if (chance (&r, 10)) n = (int) rr (&r, 0, 3); }
	BKFrame *f = malloc ((size_t) (n ? n : 1) * (nch ? nch : 1) * sizeof *f + 1);
	for (int i = 0; i < n; i ++) for (unsigned c = 0; c < nch; c ++) {
		int v = style == 0 ? (int) rr (&r, -32768, 32767) : style == 1 ? (i & 1 ? 30000 : -30000) : style == 2 ? i * 65535 / n - 32768 : (int) (sin (i * .3 + c) * 32000);
		if ((int) c == s->o.chalt && nch > 1) v = (int) ((uint32_t) (v * 7919) % 65536) - 32768;
		f[i * nch + c] = (BKFrame) v;
	}
	int how = (int) rn (&r, 3);
	if (how == 0) BKDataSetFrames (D, f, (BKUInt) n, nch, 1);
	else if (how == 1) { if (BKDataSetFrames (D, f, (BKUInt) n, nch, 0) == 0) { keep (s, f); f = NULL; } else { keep (s, f); f = NULL; } }
	else { BKEnum prm = BK_16_BIT_SIGNED; if (hostile (s) && chance (&r, 30)) prm = (BKEnum) (chance (&r, 50) ? rn (&r, 4096) : (uint32_t) rint32 (&r)); BKDataSetData (D, f, (BKUInt) (n * nch * 2), nch, prm); }
	free (f);
	if (chance (&r, 40)) BKSetAttr (D, BK_SAMPLE_PITCH, iv (s, &r, -24 << 20, 24 << 20));
	if (chance (&r, 20)) { int32_t rg[2] = {(int32_t) rr (&r, -45, 45), (int32_t) rr (&r, -45, 45)}; BKSetPtr (D, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg); }   /* stays when frames are replaced by shorter ones */
}
static void instr_fill (Scene *s, int i, uint64_t seed, int all)
{
	Rng r = {seed}; BKInstrument *I = s->in[i];
	for (int slot = 0; slot < BK_MAX_SEQUENCES; slot ++) {
		if (!all && !chance (&r, 35)) continue;
		if (all && !chance (&r, slot == 0 ? 80 : 45)) continue;
		int n = (int) rr (&r, 1, chance (&r, 50) ? 4 : 12), so = iv (s, &r, 0, n), sl = iv (s, &r, 0, n - (so < 0 || so > n ? 0 : so)); int32_t v[40]; BKSequencePhase ph[40];
		for (int j = 0; j < n; j ++) {
			int32_t x = slot == BK_SEQUENCE_VOLUME ? iv (s, &r, 0, 32767) : slot == BK_SEQUENCE_PANNING ? iv (s, &r, -32767, 32767) : slot == BK_SEQUENCE_PITCH ? iv (s, &r, -12 << 20, 12 << 20) : iv (s, &r, 1, 15);
			v[j] = x; ph[j].value = x; ph[j].steps = (BKUInt) (hostile (s) && chance (&r, 10) ? (uint32_t) rint32 (&r) : rn (&r, 20));
		}
		switch (rn (&r, 5)) {
			case 0: case 1: BKInstrumentSetSequence (I, slot, v, n, so, sl); break;
			case 2: case 3: BKInstrumentSetEnvelope (I, slot, ph, n, so, sl); break;
			default: if (slot == BK_SEQUENCE_VOLUME) BKInstrumentSetEnvelopeADSR (I, (BKUInt) iv (s, &r, 0, 20), (BKUInt) iv (s, &r, 0, 20), iv (s, &r, 0, 32767), (BKUInt) iv (s, &r, 0, 30)); else if (!all) BKInstrumentSetSequence (I, slot, NULL, 0, 0, 0); break;
		}
	}
	if (hostile (s) && chance (&r, 5)) BKInstrumentSetSequence (I, 4 + (BKEnum) rn (&r, 3), &(BKInt){1}, 1, 0, 1);
}
static BKEnum cb_any (BKCallbackInfo *info, void *u)
{
	struct { Scene *s; int kind, idx; } *c = u; Scene *s = c->s; int own = (c->kind == 0 ? 0 : c->kind == 1 ? MAXV : MAXV + MAXK) + c->idx; int n = s->ncb[own] ++;
	logev (s, own, info->event, c->kind == 0 ? 0 : now (s)); if (!s->quiet) vf_count (c->kind == 0 ? "sample_callbacks" : c->kind == 1 ? "clock_ticks" : "divider_ticks", 1);
	if (c->kind == 1 ? !s->katt[c->idx] : c->kind == 2 ? !s->dvatt[c->idx] : 0) vf_fail ("removed-callback", "%s %d was detached or disposed but is called", c->kind == 1 ? "clock" : "divider", c->idx);
	if (c->kind == 0 && !(s->o.mask >> c->idx & 1)) vf_fail ("foreign-callback", "voice %d takes no part but gets a sample notification", c->idx);
	if (s->hook) s->hook (s->hookarg);
	const CbStep *st = c->kind == 0 ? &s->p->cbv[c->idx][n % NCB] : c->kind == 1 ? &s->p->cbk[c->idx][n % NCB] : &s->p->cbd[c->idx][n % NCB];
	if (c->kind == 1) logev (s, own, 1, (int64_t) BKTimeGetTime (info->nextTime) * (1 << 20) + BKTimeGetFrac (info->nextTime));
	if (c->kind == 2) logev (s, own, 2, info->divider);
	if (s->o.cbops && n < NCB && s->depth < 3) {
		s->depth ++; if (c->kind == 1) s->inclock[c->idx] ++; if (c->kind == 2) s->indv[c->idx] ++;
		for (int i = 0; i < st->nops; i ++) sc_exec (s, &st->op[i]);
		s->depth --; if (c->kind == 1) s->inclock[c->idx] --; if (c->kind == 2) s->indv[c->idx] --;
	}
	if (s->o.cbops == 1) {
		if (c->kind == 1 && st->next && n < NCB * 2) { info->nextTime = (int64_t) st->next < 0 || (int64_t) st->next > INT64_MAX / 2 ? vf_time (st->next) : BKTimeAdd (info->nextTime, vf_time (st->next)); }
		if (c->kind == 2 && st->ret) info->divider = (BKUInt) st->ret;
	}
	/* long runs of sample callbacks would never end with hostile speeds */
	return c->kind == 0 ? (BKEnum) (n < 4000 ? st->ret : BK_NO_REPEAT) : 0;
}
static BKCallback mkcb (Scene *s, int kind, int idx)
{
	int own = (kind == 0 ? 0 : kind == 1 ? MAXV : MAXV + MAXK) + idx; s->cb[own].s = s; s->cb[own].kind = kind; s->cb[own].idx = idx;
	BKCallback c = {cb_any, &s->cb[own]}; return c;
}
static void make_voice (Scene *s, int i, Rng *r)
{
	const Plan *p = s->p; int unit = p->v[i].unit;
	if (unit) { s->v[i] = mem (s, sizeof (BKUnit)); s->vstat[i] = 1; if (BKUnitInit (s->v[i], p->v[i].wave) != 0) { free (s->v[i]); s->v[i] = NULL; s->vstat[i] = 0; return; } BKSetAttr (s->v[i], BK_VOLUME, p->v[i].vol);
		if (s->o.chalt >= 0) BKSetAttr (s->v[i], BK_VOLUME_0 + s->o.chalt, s->o.chzero ? 0 : p->v[i].vol / 3 + 1);
		BKSetAttr (s->v[i], BK_MUTE, 1); BKSetAttr (s->v[i], BK_PERIOD, (int) (1 << 20) * 3); }
	else if (p->v[i].alloc) { BKTrack *t = NULL; if (BKTrackAlloc (&t, p->v[i].wave) != 0) return; s->v[i] = t; s->vstat[i] = 2; }
	else { s->v[i] = mem (s, sizeof (BKTrack)); s->vstat[i] = 1; if (BKTrackInit (s->v[i], p->v[i].wave) != 0) { free (s->v[i]); s->v[i] = NULL; s->vstat[i] = 0; return; } }
	if (!unit) BKSetAttr (s->v[i], BK_MASTER_VOLUME, p->v[i].vol);
	s->vatt[i] = 0;
	if (p->cbv[i][0].ret != 77 && (p->seed >> i & 1)) { BKCallback c = mkcb (s, 0, i); BKSetPtr (s->v[i], BK_SAMPLE_CALLBACK, &c, sizeof c); }
	(void) r;
}
static void voice_attach (Scene *s, int i)
{
	if (!s->vstat[i] || !s->ctxstat || s->vatt[i] || !(s->o.mask >> i & 1)) return;
	BKInt e = s->p->v[i].unit ? BKUnitAttach (s->v[i], s->ctx) : BKTrackAttach (s->v[i], s->ctx); if (e == 0) s->vatt[i] = 1;
}
static void make_data (Scene *s, int i) { if ((s->p->seed >> (8 + i)) & 1) { s->d[i] = mem (s, sizeof (BKData)); s->dstat[i] = 1; if (BKDataInit (s->d[i])) { free (s->d[i]); s->dstat[i] = 0; } } else { s->d[i] = NULL; s->dstat[i] = BKDataAlloc (&s->d[i]) == 0 ? 2 : 0; } }
static void make_instr (Scene *s, int i) { if ((s->p->seed >> (14 + i)) & 1) { s->in[i] = mem (s, sizeof (BKInstrument)); s->istat[i] = 1; if (BKInstrumentInit (s->in[i])) { free (s->in[i]); s->istat[i] = 0; } } else { s->in[i] = NULL; s->istat[i] = BKInstrumentAlloc (&s->in[i]) == 0 ? 2 : 0; } }
static void make_clock (Scene *s, int i)
{
	BKCallback c = mkcb (s, 1, i), *pc = s->p->k[i].cb ? &c : NULL; BKTime per = vf_time (s->p->k[i].period);
	if ((s->p->seed >> (18 + i)) & 1) { s->k[i] = mem (s, sizeof (BKClock)); s->kstat[i] = 1; BKClockInit (s->k[i], per, pc); } else { s->k[i] = NULL; s->kstat[i] = BKClockAlloc (&s->k[i], per, pc) == 0 ? 2 : 0; }
	s->katt[i] = 0;
}
static void make_div (Scene *s, int i)
{
	BKCallback c = mkcb (s, 2, i), *pc = s->p->dv[i].cb ? &c : NULL;
	if ((s->p->seed >> (24 + i)) & 1) { s->dv[i] = mem (s, sizeof (BKDivider)); s->dvstat[i] = 1; BKDividerInit (s->dv[i], (BKUInt) s->p->dv[i].count, pc); } else { s->dv[i] = NULL; s->dvstat[i] = BKDividerAlloc (&s->dv[i], (BKUInt) s->p->dv[i].count, pc) == 0 ? 2 : 0; }
	s->dvatt[i] = 0;
}
static void div_attach (Scene *s, int i, int to)
{
	if (!s->dvstat[i]) return;
	if (to < MAXK) { if (to < s->p->nk && s->kstat[to]) { if (BKDividerAttachToClock (s->dv[i], s->k[to]) == 0) s->dvatt[i] = 1; } }
	else if (s->ctxstat) { if (BKContextAttachDivider (s->ctx, s->dv[i], to == MAXK ? BK_CLOCK_TYPE_BEAT : BK_CLOCK_TYPE_EFFECT) == 0) s->dvatt[i] = 1; }
}
static void dummy_attach (Scene *s) { if (s->p->flags & PF_UNITS_ONLY) BKUnitAttach (s->keep[0], s->ctx); else BKTrackAttach (s->keep[0], s->ctx); }
Scene *sc_new (const Plan *p, const RunOpt *o)
{
	Scene *s = calloc (1, sizeof *s); s->p = p; s->o = *o; Rng r = {p->seed}; s->fillr.s = p->seed ^ (uint64_t) (o->fill * 977);
	s->ctx = mem (s, sizeof (BKContext)); s->ctxstat = BKContextInit (s->ctx, (BKUInt) p->ch, (BKUInt) p->rate) == 0; if (!s->ctxstat) { free (s->ctx); s->ctx = NULL; }
	/* an always attached silent track keeps the master clock and the frame count going; only a unit where the context shall be without clocks */
	keep (s, mem (s, sizeof (BKTrack))); if (p->flags & PF_UNITS_ONLY) { BKUnitInit (s->keep[0], BK_SQUARE); BKSetAttr (s->keep[0], BK_MUTE, 1); } else BKTrackInit (s->keep[0], BK_SQUARE); if (s->ctxstat) dummy_attach (s);
	if (p->clockperiod && s->ctxstat) { BKTime t = BKTimeMake (p->clockperiod, (BKFUInt20) (p->seed & 0xfffff)); BKSetPtr (s->ctx, BK_CLOCK_PERIOD, &t, sizeof t); }
	for (int i = 0; i < p->nd; i ++) { make_data (s, i); if (s->dstat[i]) data_fill (s, i, p->dseed[i]); }
	for (int i = 0; i < p->ni; i ++) { make_instr (s, i); if (s->istat[i]) instr_fill (s, i, p->iseed[i], 1); }
	for (int i = 0; i < p->nv; i ++) make_voice (s, i, &r);
	for (int j = 0; j < p->nv; j ++) { int i = o->useperm ? o->perm[j] : j; if (o->mask >> i & 1) voice_attach (s, i); }
	for (int i = 0; i < p->nk; i ++) { make_clock (s, i); if (p->k[i].attached && s->kstat[i] && s->ctxstat && BKClockAttach (s->k[i], s->ctx, NULL) == 0) s->katt[i] = 1; }
	for (int i = 0; i < p->ndv; i ++) { make_div (s, i); div_attach (s, i, p->dv[i].to); }
	return s;
}
static void dispose_obj (Scene *s, int type, int i)
{
	switch (type) {
		case 0: if (s->vstat[i]) { void *m = s->v[i]; if (s->vstat[i] == 1) { BKDispose (m); if (s->o.fill & 1) BKDispose (m); free (m); } else BKDispose (m); s->vstat[i] = 0; s->v[i] = NULL; s->vatt[i] = 0; } break;
		case 1: if (s->dstat[i]) { void *m = s->d[i]; if (s->dstat[i] == 1) { BKDispose (m); if (s->o.fill & 1) BKDispose (m); free (m); } else BKDispose (m); s->dstat[i] = 0; s->d[i] = NULL; } break;
		case 2: if (s->istat[i]) { void *m = s->in[i]; if (s->istat[i] == 1) { BKDispose (m); if (s->o.fill & 1) BKDispose (m); free (m); } else BKDispose (m); s->istat[i] = 0; s->in[i] = NULL; } break;
		case 3: if (s->kstat[i]) { void *m = s->k[i]; if (s->kstat[i] == 1) { BKDispose (m); if (s->o.fill & 1) BKDispose (m); free (m); } else BKDispose (m); s->kstat[i] = 0; s->k[i] = NULL; s->katt[i] = 0; } break;
		case 4: if (s->dvstat[i]) { void *m = s->dv[i]; if (s->dvstat[i] == 1) { BKDispose (m); if (s->o.fill & 1) BKDispose (m); free (m); } else BKDispose (m); s->dvstat[i] = 0; s->dv[i] = NULL; s->dvatt[i] = 0; } break;
		case 5: if (s->ctxstat) { void *m = s->ctx; BKDispose (m); if (s->o.fill & 1) BKDispose (m); free (m); s->ctx = NULL; s->ctxstat = 0; for (int j = 0; j < MAXV; j ++) s->vatt[j] = 0; for (int j = 0; j < MAXK; j ++) s->katt[j] = 0; } break;
		case 6: if (s->keep[0]) { BKDispose (s->keep[0]); if (s->o.fill & 1) BKDispose (s->keep[0]); free (s->keep[0]); s->keep[0] = NULL; } break;
	}
}
void sc_dispose_some (Scene *s, Rng *r)
{
	int list[64][2], n = 0; s->o.cbops = 0;
	for (int i = 0; i < MAXV; i ++) { list[n][0] = 0; list[n ++][1] = i; }
	for (int i = 0; i < MAXD; i ++) { list[n][0] = 1; list[n ++][1] = i; }
	for (int i = 0; i < MAXI; i ++) { list[n][0] = 2; list[n ++][1] = i; }
	for (int i = 0; i < MAXK; i ++) { list[n][0] = 3; list[n ++][1] = i; }
	for (int i = 0; i < MAXDV; i ++) { list[n][0] = 4; list[n ++][1] = i; }
	list[n][0] = 5; list[n ++][1] = 0; list[n][0] = 6; list[n ++][1] = 0;
	for (int i = n - 1; i > 0; i --) { int j = r ? (int) rn (r, i + 1) : i; int a = list[i][0], b = list[i][1]; list[i][0] = list[j][0]; list[i][1] = list[j][1]; list[j][0] = a; list[j][1] = b; }
	for (int i = 0; i < n; i ++) {
		dispose_obj (s, list[i][0], list[i][1]);
		/* what remains is still usable */
		if (r && chance (r, 40)) {
			if (s->ctxstat) { BKFrame b[64 * 8]; BKContextGenerate (s->ctx, b, (BKUInt) rn (r, 64)); }
			int v = (int) rn (r, MAXV); if (s->vstat[v]) { BKSetAttr (s->v[v], BK_NOTE, (int) rn (r, 90) << 20); sc_attr (s->v[v], BK_PERIOD); BKSetAttr (s->v[v], BK_VOLUME, 3000); void *q = NULL; BKGetPtr (s->v[v], BK_SAMPLE, &q, sizeof q); }
		}
	}
}
void sc_free (Scene *s)
{
	sc_dispose_some (s, NULL);
	for (int i = 1; i < s->nkeep; i ++) free (s->keep[i]);
	for (int i = 0; i < LOGS; i ++) free (s->log[i].e);
	fr_free (&s->out); free (s);
}
void sc_clear_results (Scene *s) { for (int i = 0; i < LOGS; i ++) { s->log[i].n = 0; s->ncb[i] = 0; } s->out.n = 0; s->pos = s->endpos = 0; s->nread = 0; }

/* ------------------------------------------------------------------ operations */
static void ptr_get (void *o, BKEnum a, int32_t *v, int n) { memset (v, 0, n * 4); BKGetPtr (o, a, v, n * 4); }
void sc_exec (Scene *s, const Op *op)
{
	const Plan *p = s->p; Rng r = {op->seed}; int H = hostile (s); s->nops_done ++; if (s->hook) s->hook (s->hookarg);
	if (op->kind <= K_VCB || op->kind == K_GET) {
		int i = op->v % p->nv; void *v = s->v[i]; int unit = p->v[i].unit;
		if (!s->vstat[i] || !(s->o.mask >> i & 1)) return;
		TRACE ("  voice %d op %d seed %llx at %.4f (volume %d %d, period %d, phase %d, mute %d, note %d)\n", i, op->kind, (unsigned long long) op->seed, (double) now (s) / (1 << 20), sc_attr (v, BK_VOLUME), sc_attr (v, BK_VOLUME_0), sc_attr (v, BK_PERIOD), sc_attr (v, BK_PHASE), sc_attr (v, BK_MUTE), sc_attr (v, BK_NOTE));
		switch (op->kind) {
			case K_NOTE:
				if (unit) { if (chance (&r, 40)) BKSetAttr (v, BK_MUTE, chance (&r, 30)); else { BKSetAttr (v, BK_PERIOD, iv (s, &r, 1 << 18, 20 << 20)); BKSetAttr (v, BK_MUTE, 0); } }
				else switch (rn (&r, 10)) { case 0: BKSetAttr (v, BK_NOTE, BK_NOTE_RELEASE); break; case 1: BKSetAttr (v, BK_NOTE, BK_NOTE_MUTE); break; default: BKSetAttr (v, BK_NOTE, iv (s, &r, 12 << 20, 96 << 20)); }
				break;
			case K_ATTR: {
				static const BKEnum ta[] = {BK_WAVEFORM, BK_DUTY_CYCLE, BK_PHASE, BK_PHASE_WRAP, BK_MASTER_VOLUME, BK_VOLUME, BK_MUTE, BK_PITCH, BK_SAMPLE_REPEAT, BK_SAMPLE_IMMED_RELEASE, BK_SAMPLE_PITCH, BK_PANNING, BK_ARPEGGIO_DIVIDER,
					BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_FLAG_RELEASE, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO};
				static const BKEnum ua[] = {BK_WAVEFORM, BK_DUTY_CYCLE, BK_PHASE, BK_PHASE_WRAP, BK_VOLUME, BK_VOLUME_0, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_5, BK_MUTE, BK_PERIOD, BK_SAMPLE_REPEAT, BK_SAMPLE_PERIOD, BK_SAMPLE_IMMED_RELEASE, BK_FLAG_RELEASE};
				BKEnum a = unit ? PICK (&r, ua) : PICK (&r, ta); int64_t lo = 0, hi = 1; int vol = p->v[i].vol;
				if ((p->flags & PF_LOWVOL) && a == BK_TRIANGLE_IGNORES_VOLUME) a = BK_VOLUME;
				if (H && chance (&r, 20)) a = BK_TRACK_ATTR_TYPE + (BKEnum) rn (&r, 40); if (H && chance (&r, 2)) a = (BKEnum) rint32 (&r);
				switch (a) {
					case BK_WAVEFORM: BKSetAttr (v, a, H && chance (&r, 20) ? rint32 (&r) : (int) PICK (&r, waves)); return;
					case BK_DUTY_CYCLE: lo = 0; hi = 17; break; case BK_PHASE: lo = -1; hi = 64; break; case BK_PHASE_WRAP: lo = 0; hi = chance (&r, 50) ? 0 : 200; break;
					case BK_MASTER_VOLUME: lo = 0; hi = vol; break; case BK_VOLUME: lo = unit ? 1 : -100; hi = unit ? vol : 33000; break;
					case BK_VOLUME_0: case BK_VOLUME_1: case BK_VOLUME_2: case BK_VOLUME_3: case BK_VOLUME_4: case BK_VOLUME_5: case BK_VOLUME_6: case BK_VOLUME_7: {
						int x = iv (s, &r, 1, vol); TRACE ("    attr %x = %d\n", a, x); if (s->o.chalt == (int) (a - BK_VOLUME_0)) x = s->o.chzero ? 0 : x / 2 + 1; BKSetAttr (v, a, x); return; }
					case BK_PITCH: case BK_SAMPLE_PITCH: lo = -24 << 20; hi = 24 << 20; break; case BK_SAMPLE_REPEAT: lo = 0; hi = 2; break; case BK_PANNING: lo = -33000; hi = 33000; break;
					case BK_ARPEGGIO_DIVIDER: case BK_EFFECT_DIVIDER: case BK_INSTRUMENT_DIVIDER: lo = 0; hi = 6; break;
					case BK_EFFECT_VOLUME_SLIDE: case BK_EFFECT_PANNING_SLIDE: case BK_EFFECT_PORTAMENTO: lo = 0; hi = 30; break;
					case BK_PERIOD: lo = 16384; hi = 30 << 20; break; case BK_SAMPLE_PERIOD: lo = 1 << 17; hi = 5 << 20; break;
				}
				{ int32_t x = iv (s, &r, lo, hi); if (s->o.chalt >= 0 && unit && a == BK_VOLUME) { for (int c = 0; c < 8; c ++) BKSetAttr (v, BK_VOLUME_0 + c, c == s->o.chalt ? (s->o.chzero ? 0 : x / 2 + 1) : x); } else { TRACE ("    attr %x = %d\n", a, x); BKSetAttr (v, a, x); } }
				break; }
			case K_SAMPLE: case K_WAVEDATA: {
				int d = (int) rn (&r, p->nd); BKData *D = chance (&r, 12) ? NULL : s->d[d]; if (D && !s->dstat[d]) D = NULL;
				if (s->o.nonorm && op->kind == K_WAVEDATA) break;      /* waveforms ignore the number of channels */
				BKSetPtr (v, op->kind == K_SAMPLE ? BK_SAMPLE : BK_WAVEFORM, D, sizeof (void *));
				if (op->kind == K_SAMPLE) { if (chance (&r, 40)) BKSetAttr (v, BK_SAMPLE_REPEAT, (int) rn (&r, 3)); if (unit) BKSetAttr (v, BK_SAMPLE_PERIOD, iv (s, &r, 1 << 18, 3 << 20)); }
				break; }
			case K_RANGE: case K_SUSTAIN: { int32_t rg[2] = {iv (s, &r, -45, 45), iv (s, &r, -45, 45)}; if (chance (&r, 30)) rg[1] = -1; BKSetPtr (v, op->kind == K_RANGE ? BK_SAMPLE_RANGE : BK_SAMPLE_SUSTAIN_RANGE, chance (&r, 10) ? NULL : rg, sizeof rg); break; }
			case K_RECIPE: {                                  /* a whole sound whose parts work together */
				int what = (int) rn (&r, unit ? 5 : 9), d = (int) rn (&r, p->nd); BKData *D = s->dstat[d] ? s->d[d] : NULL; int32_t rg[2] = {iv (s, &r, -12, 30), iv (s, &r, -12, 30)}; if (chance (&r, 40)) rg[0] = 0; if (chance (&r, 40)) rg[1] = -1;
				int fast = iv (s, &r, 1 << 19, 4 << 20);
				switch (what) {
					case 0: BKSetAttr (v, BK_WAVEFORM, BK_NOISE); BKSetAttr (v, BK_PHASE_WRAP, iv (s, &r, 1, 60)); break;
					case 1: if (s->o.nonorm) break; BKSetPtr (v, BK_WAVEFORM, D, sizeof (void *)); if (chance (&r, 70)) BKSetAttr (v, BK_PHASE_WRAP, iv (s, &r, 1, 60)); break;
					case 2: BKSetPtr (v, BK_SAMPLE, D, sizeof (void *)); BKSetAttr (v, BK_SAMPLE_REPEAT, (int) rn (&r, 3)); if (chance (&r, 60)) BKSetPtr (v, BK_SAMPLE_RANGE, rg, sizeof rg); if (unit) BKSetAttr (v, BK_SAMPLE_PERIOD, iv (s, &r, 1 << 18, 3 << 20)); else BKSetAttr (v, BK_SAMPLE_PITCH, iv (s, &r, -24 << 20, 24 << 20)); break;
					case 3: BKSetPtr (v, BK_SAMPLE, D, sizeof (void *)); if (chance (&r, 40)) BKSetPtr (v, BK_SAMPLE_RANGE, (int32_t[]) {rg[1], rg[0]}, sizeof rg); BKSetPtr (v, BK_SAMPLE_SUSTAIN_RANGE, (int32_t[]) {iv (s, &r, 0, 8), iv (s, &r, 4, 30)}, sizeof rg); if (chance (&r, 30)) BKSetAttr (v, BK_SAMPLE_IMMED_RELEASE, 1); if (unit) BKSetAttr (v, BK_SAMPLE_PERIOD, iv (s, &r, 1 << 18, 3 << 20)); break;
					case 4: BKSetAttr (v, BK_WAVEFORM, (int) PICK (&r, waves)); BKSetAttr (v, BK_DUTY_CYCLE, iv (s, &r, 1, 15)); BKSetAttr (v, BK_PHASE, iv (s, &r, 0, 31)); break;
					case 5: if (p->ni) { int n = (int) rn (&r, p->ni); if (s->istat[n]) BKSetPtr (v, BK_INSTRUMENT, s->in[n], sizeof (void *)); } if (chance (&r, 40)) BKSetAttr (v, BK_INSTRUMENT_DIVIDER, iv (s, &r, 1, 5)); break;
					case 6: { int32_t x[9] = {iv (s, &r, 1, 8)}; for (int j = 1; j < 9; j ++) x[j] = iv (s, &r, -12 << 20, 12 << 20); BKSetPtr (v, BK_ARPEGGIO, x, sizeof x); if (chance (&r, 40)) BKSetAttr (v, BK_ARPEGGIO_DIVIDER, iv (s, &r, 1, 5)); break; }
					case 7: case 8: for (int j = 0; j < 5; j ++) if (chance (&r, 45)) { BKEnum e = effects[j]; int32_t x[3] = {iv (s, &r, 1, 30), e == BK_EFFECT_VIBRATO ? iv (s, &r, -2 << 20, 2 << 20) : iv (s, &r, 0, 32767), iv (s, &r, 0, 20)}; BKTrackSetEffect (v, e, x, sizeof x); } if (chance (&r, 40)) BKSetAttr (v, BK_EFFECT_DIVIDER, iv (s, &r, 1, 4)); BKSetAttr (v, BK_PANNING, iv (s, &r, -32767, 32767)); break;
				}
				if (unit) { BKSetAttr (v, BK_PERIOD, fast); BKSetAttr (v, BK_MUTE, 0); } else BKSetAttr (v, BK_NOTE, iv (s, &r, 12 << 20, 96 << 20));
				break; }
			case K_EFFECT: {
				BKEnum e = PICK (&r, effects); int32_t x[3] = {iv (s, &r, 0, 60), e == BK_EFFECT_VIBRATO ? iv (s, &r, -4 << 20, 4 << 20) : iv (s, &r, 0, 32767), iv (s, &r, 0, chance (&r, 60) ? 0 : 40)};
				if (chance (&r, 20)) x[0] = 0;
				if (unit) { BKSetPtr (v, e, x, sizeof x); break; }
				if (H && chance (&r, 20)) { int n = (int) (chance (&r, 40) ? rr (&r, 12, 200) : rr (&r, 0, 12)); int32_t *m = malloc (n ? n : 1); memset (m, 7, n ? n : 1); memcpy (m, x, n < 12 ? n : 12); BKSetPtr (v, e, n ? m : NULL, n); free (m); break; }
				if (chance (&r, 50)) BKSetPtr (v, e, chance (&r, 5) ? NULL : x, sizeof x); else BKTrackSetEffect (v, e, x, sizeof x);
				break; }
			case K_ARP: {
				int n = (int) rr (&r, 0, 8); int32_t x[9]; x[0] = H && chance (&r, 30) ? rint32 (&r) : n; for (int j = 1; j < 9; j ++) x[j] = iv (s, &r, -12 << 20, 12 << 20);
				int more = H && chance (&r, 25) ? (int) rr (&r, 9, 60) : n;
				int32_t *m = malloc ((more + 1) * 4); for (int j = 9; j <= more; j ++) m[j] = rint32 (&r); memcpy (m, x, (more < 8 ? more + 1 : 9) * 4); if (more > n && chance (&r, 50)) m[0] = more; BKSetPtr (v, BK_ARPEGGIO, chance (&r, 5) ? NULL : m, (more + 1) * 4); free (m); break; }
			case K_INSTR: { int d = (int) rn (&r, p->ni); BKInstrument *I = chance (&r, 20) || !s->istat[d] ? NULL : s->in[d]; BKSetPtr (v, BK_INSTRUMENT, I, sizeof (void *)); break; }
			case K_ATTACH: if (s->depth && s->ncb[i] && 0) break; if (s->vatt[i]) { if (s->ctxstat) CHECK ((unit ? BKUnitAttach (v, s->ctx) : BKTrackAttach (v, s->ctx)) != 0, "attach-twice", "second attach accepted"); } else voice_attach (s, i); break;
			case K_DETACH: if (unit) BKUnitDetach (v); else BKTrackDetach (v); s->vatt[i] = 0; break;
			case K_RESET: if (!unit) BKTrackReset (v); break;
			case K_CLEAR: if (!unit) BKTrackClear (v); break;
			case K_VCB: { BKCallback c = mkcb (s, 0, i); BKSetPtr (v, BK_SAMPLE_CALLBACK, chance (&r, 25) ? NULL : &c, sizeof c); break; }
			case K_GET: { int32_t x[16]; for (int j = 0; j < 40; j ++) sc_attr (v, BK_TRACK_ATTR_TYPE + j); ptr_get (v, BK_SAMPLE_RANGE, x, 2); ptr_get (v, BK_SAMPLE_SUSTAIN_RANGE, x, 2); if (!unit) { for (int j = 0; j < 5; j ++) ptr_get (v, effects[j], x, (int) rr (&r, 0, 8)); ptr_get (v, BK_ARPEGGIO, x, 9); } break; }
		}
		return;
	}
	int g = op->v; TRACE ("  global op %d %d at %.4f\n", op->kind, g, (double) now (s) / (1 << 20));
	switch (op->kind) {
		case K_DATA: g %= p->nd; if (s->dstat[g]) data_fill (s, g, op->seed); break;
		case K_CONVERT: g %= p->nd; if (s->dstat[g]) { if (chance (&r, 40)) { if (!s->o.nonorm) BKDataNormalize (s->d[g]); } else { BKDataConvertInfo ci; memset (&ci, 0, sizeof ci); ci.targetNumBits = (BKUInt) (H ? iv (s, &r, 0, 17) : p->flags & PF_DITHER ? rr (&r, 1, 16) : rr (&r, 9, 16)); ci.threshold = (BKInt) iv (s, &r, 0, 2000); BKDataConvert (s->d[g], &ci); } } break;
		case K_SEQ: g %= p->ni; if (s->istat[g]) instr_fill (s, g, op->seed, 0); break;
		case K_CLOCKATT: if (!p->nk) break; g %= p->nk; if (s->kstat[g] && s->ctxstat) {
			BKClock *before = NULL; int w = (int) rn (&r, 3), q = (int) rn (&r, p->nk); if (w == 1) before = BK_FIRST_ELEMENT_PTR; else if (w == 2 && s->kstat[q] && (s->katt[q] || H)) before = s->k[q];
			BKInt e = BKClockAttach (s->k[g], s->ctx, before); CHECK (!s->katt[g] || e != 0, "clock-attach-twice", "second attach of a clock accepted"); if (e == 0) s->katt[g] = 1; } break;
		case K_CLOCKDET: if (!p->nk) break; g %= p->nk; if (s->kstat[g]) { BKClockDetach (s->k[g]); s->katt[g] = 0; } break;
		case K_CLOCKPER: if (!p->nk) break; g %= p->nk; if (s->kstat[g]) BKClockSetPeriod (s->k[g], vf_time (rperiod (&r, H))); break;
		case K_CLOCKRST: if (!p->nk) break; g %= p->nk; if (s->kstat[g]) BKClockReset (s->k[g]); break;
		case K_DIVATT: if (!p->ndv) break; g %= p->ndv; if (s->dvstat[g] && !s->dvatt[g]) div_attach (s, g, (int) rr (&r, 0, MAXK + 1)); break;
		case K_DIVDET: if (!p->ndv) break; g %= p->ndv; if (s->dvstat[g]) { BKDividerDetach (s->dv[g]); s->dvatt[g] = 0; } break;
		case K_DIVRST: if (!p->ndv) break; g %= p->ndv; if (s->dvstat[g]) BKDividerReset (s->dv[g]); break;
		case K_KERNEL: if (s->ctxstat) BKSetPtr (s->ctx, BK_PULSE_KERNEL, chance (&r, 30) ? NULL : (void *) BKBufferPulseKernels[rn (&r, 2)], sizeof (void *)); break;
		case K_CTXPERIOD: if (s->ctxstat) { int64_t tt = FR (rr (&r, 20, 900)) + rn (&r, 1 << 20); if (H && chance (&r, 20)) tt = rint32 (&r); if (tt > 0 && tt < FR (1)) tt = FR (1); BKTime t = vf_time (tt); BKSetPtr (s->ctx, BK_CLOCK_PERIOD, &t, sizeof t); } break;
		case K_CTXRESET: if (s->ctxstat && !s->depth) { BKContextReset (s->ctx); s->endpos = 0; s->nread = 0; s->pos = 0; } break;
		case K_DISPOSE: {
			int t = (int) rn (&r, 16), n; t = t < 5 ? 0 : t < 8 ? 1 : t < 10 ? 2 : t < 12 ? 3 : t < 15 ? 4 : 5;
			if (s->depth && (t == 3 || t == 5)) break;            /* a clock or context must not be disposed while it is ticking */
			if (t == 5 && !chance (&r, 30)) break;
			n = t == 0 ? p->nv : t == 1 ? p->nd : t == 2 ? p->ni : t == 3 ? p->nk : t == 4 ? p->ndv : 1; if (n) dispose_obj (s, t, g % n);
			vf_count ("disposed", 1); break; }
		case K_CREATE: {
			int t = (int) rn (&r, 6);
			if (t == 5 || !s->ctxstat) { if (!s->ctxstat && !s->depth) { s->ctx = mem (s, sizeof (BKContext)); s->ctxstat = BKContextInit (s->ctx, (BKUInt) p->ch, (BKUInt) p->rate) == 0; if (!s->ctxstat) { free (s->ctx); s->ctx = NULL; } s->pos = s->endpos = 0; s->nread = 0; if (s->keep[0]) dummy_attach (s);
				for (int i = 0; i < p->nv; i ++) if (chance (&r, 60)) voice_attach (s, i); for (int i = 0; i < p->nk; i ++) if (s->kstat[i] && chance (&r, 60)) { if (BKClockAttach (s->k[i], s->ctx, NULL) == 0) s->katt[i] = 1; } } break; }
			if (t == 0) for (int i = 0; i < p->nv; i ++) { int q = (i + g) % p->nv; if (!s->vstat[q]) { make_voice (s, q, &r); voice_attach (s, q); break; } }
			if (t == 1) for (int i = 0; i < p->nd; i ++) if (!s->dstat[i]) { make_data (s, i); if (s->dstat[i]) data_fill (s, i, op->seed); break; }
			if (t == 2) for (int i = 0; i < p->ni; i ++) if (!s->istat[i]) { make_instr (s, i); if (s->istat[i]) instr_fill (s, i, op->seed, 1); break; }
			if (t == 3) for (int i = 0; i < p->nk; i ++) if (!s->kstat[i]) { make_clock (s, i); if (s->kstat[i] && s->ctxstat && BKClockAttach (s->k[i], s->ctx, NULL) == 0) s->katt[i] = 1; break; }
			if (t == 4) for (int i = 0; i < p->ndv; i ++) if (!s->dvstat[i]) { make_div (s, i); div_attach (s, i, (int) rr (&r, 0, MAXK + 1)); break; }
			break; }
		case K_COPY: {
			if (hostile (s) && chance (&r, 30)) { int a = g % p->ni, b = g % p->nd; if (chance (&r, 50)) { if (s->istat[a]) BKInstrumentDetach (s->in[a]); } else if (s->dstat[b]) BKDataDetach (s->d[b]); break; }
			if (chance (&r, 50)) { int a = g % p->nd; BKData c; if (s->dstat[a]) { if (BKDataInitCopy (&c, s->d[a]) == 0) BKDispose (&c); } }
			else { int a = g % p->ni; BKInstrument c; if (s->istat[a]) { if (BKInstrumentInitCopy (&c, s->in[a]) == 0) BKDispose (&c); } }
			break; }
	}
}

/* ------------------------------------------------------------------ running */
static void read_n (Scene *s, size_t n)
{
	int ch = s->p->ch; BKFrame *b = malloc (n * ch * sizeof *b + 1); BKInt got = BKContextRead (s->ctx, b, (BKUInt) n);
	if (got < 0 || (size_t) got > n) vf_fail ("read-count", "read of %zu frames returned %d", n, got); else { fr_add (&s->out, b, (size_t) got * ch); s->nread += got; }
	free (b);
}
static BKInt write_cb (BKFrame f[], BKUInt n, void *u)
{
	Scene *s = u; if (s->hook && s->hookwrite) s->hook (s->hookarg); if (n > BK_MAX_GENERATE_SAMPLES || n == 0) vf_fail ("totime-block", "block of %u frames", n);
	fr_add (&s->out, f, (size_t) n * s->p->ch); s->nread += n; s->accepted ++; return 0;
}
/* one request towards the given time */
static void advance_once (Scene *s, uint64_t to, int split, Rng *r)
{
	int ch = s->p->ch;
	if (!s->ctxstat) { s->pos = to; return; }
	uint64_t left = to - s->pos; int whole = (s->pos & 0xfffff) == 0 && s->endpos == (uint64_t) s->nread << 20;
	if (split == SPLIT_TOTIME) {
		uint64_t part = chance (r, 50) ? left : 1 + rn (r, left), e = s->endpos + part;
		BKInt n = BKContextGenerateToTime (s->ctx, vf_time (e), write_cb, s); if (n < 0) vf_fail ("totime-error", "returned %d", n);
		s->endpos = e; s->pos += part;
	}
	else if (split == SPLIT_END || !whole || left < FR (1) || (left & 0xfffff && split == SPLIT_WHOLE && left < FR (1))) {
		uint64_t mx = FR (1024) < left ? FR (1024) : left, part = split == SPLIT_WHOLE || split == SPLIT_GENERATE || split == SPLIT_ONES ? mx : chance (r, 30) ? mx : 1 + rn (r, mx);
		if (split == SPLIT_END && chance (r, 20)) { if (part > FR (8)) part = 1 + rn (r, FR (8)); }
		if (split != SPLIT_END && (s->p->flags & PF_FRACPOS) == 0 && part > FR (1)) part &= ~(uint64_t) 0xfffff;
		if (split == SPLIT_END && chance (r, 10)) { BKContextRun (s->ctx, (BKFUInt20) rn (r, part + 1)); }
		BKContextEnd (s->ctx, (BKFUInt20) part); s->endpos += part; s->pos += part;
		size_t avail = (size_t) (s->endpos >> 20) - s->nread; BKInt sz = BKContextSize (s->ctx);
		if ((size_t) sz != avail) vf_fail ("size", "%d frames readable, %zu ended and unread", sz, avail);
		size_t n = avail > 1500 ? avail : split != SPLIT_END || chance (r, 40) ? avail : rn (r, avail + 1); if (split == SPLIT_END && chance (r, 20) && avail < 1500) n = 0;
		if (n) read_n (s, n);
	}
	else {
		uint64_t n = left >> 20; if (split == SPLIT_GENERATE) n = chance (r, 30) ? n : 1 + rn (r, n); if (split == SPLIT_ONES) n = 1;
		BKFrame *b = malloc (n * ch * sizeof *b); BKInt got = BKContextGenerate (s->ctx, b, (BKUInt) n);
		if (got < 0 || (uint64_t) got > n) vf_fail ("generate-count", "returned %d for %d frames", got, (int) n); else { fr_add (&s->out, b, (size_t) got * ch); s->nread += got; if ((uint64_t) got != n && !(s->p->flags & (PF_HOSTILE | PF_DISPOSE))) vf_fail ("generate-count", "%d of %d frames written", got, (int) n); }
		free (b); s->pos += n << 20; s->endpos += n << 20; if ((uint64_t) got != n) s->nread = s->endpos >> 20;
	}
}
void pl_init (Player *p, Scene *s, const OpList *l, int split, uint64_t seed) { p->s = s; p->l = l; p->split = split; p->r.s = seed; p->i = 0; p->base = s->pos; p->done = 0; }
int pl_step (Player *p)
{
	Scene *s = p->s; const OpList *l = p->l;
	if (p->done || vf_failed ()) return 0;
	uint64_t to = p->base + (p->i < l->n ? l->op[p->i].pos : l->total);
	if (s->pos < to) { advance_once (s, to, p->split, &p->r); return 1; }
	if (p->i < l->n) {
		uint64_t before = s->pos; const Op *op = &l->op[p->i ++];
		if (vf_verbose && getenv ("VF_SKIP")) { char w[16]; snprintf (w, 16, ",%d,", p->i - 1); if (strstr (getenv ("VF_SKIP"), w)) return 1; }   /* for shrinking a failing case by hand */
		TRACE ("at %.3f (%d):\n", (double) s->pos / (1 << 20), p->i - 1); sc_exec (s, op);
		if (s->pos < before) p->base = s->pos - op->pos;          /* context was reset or created again */
		return 1;
	}
	p->done = 1;
	if (s->ctxstat) { size_t avail = (size_t) (s->endpos >> 20) - s->nread; if (avail) read_n (s, avail); }
	return 0;
}
void sc_play (Scene *s, const OpList *l, int split, uint64_t seed) { Player p; pl_init (&p, s, l, split, seed); while (pl_step (&p)); }

/* ------------------------------------------------------------------ comparing */
static void snap (Log *l, int owner, int ev, int64_t v) { if (l->n == l->cap) { l->cap = l->cap * 2 + 64; l->e = realloc (l->e, l->cap * sizeof *l->e); } l->e[l->n].owner = owner; l->e[l->n].event = ev; l->e[l->n ++].time = v; }
void sc_snapshot (Scene *s, Log *l)
{
	l->n = 0;
	for (int i = 0; i < s->p->nv; i ++) if (s->vstat[i]) {
		for (int a = 0; a < sc_n_int_attrs; a ++) if (sc_int_attrs[a] < BK_VOLUME_0 + s->p->ch || sc_int_attrs[a] > BK_VOLUME_7) snap (l, i, (int) sc_int_attrs[a], sc_attr (s->v[i], sc_int_attrs[a]));
		int32_t x[9]; ptr_get (s->v[i], BK_SAMPLE_RANGE, x, 2); snap (l, i, 9000, x[0]); snap (l, i, 9001, x[1]); ptr_get (s->v[i], BK_SAMPLE_SUSTAIN_RANGE, x, 2); snap (l, i, 9002, x[0]); snap (l, i, 9003, x[1]);
		void *q = NULL; int idx = -1; BKGetPtr (s->v[i], BK_SAMPLE, &q, sizeof q); for (int d = 0; d < s->p->nd; d ++) if (q && q == s->d[d]) idx = d; snap (l, i, 9004, q ? idx : -2);
		if (!s->p->v[i].unit) {
			q = NULL; idx = -1; BKGetPtr (s->v[i], BK_INSTRUMENT, &q, sizeof q); for (int d = 0; d < s->p->ni; d ++) if (q && q == s->in[d]) idx = d; snap (l, i, 9005, q ? idx : -2);
			ptr_get (s->v[i], BK_ARPEGGIO, x, 9); for (int j = 0; j <= x[0] && j < 9; j ++) snap (l, i, 9010 + j, x[j]);
			for (int e = 0; e < 5; e ++) { ptr_get (s->v[i], effects[e], x, 3); for (int j = 0; j < 3; j ++) snap (l, i, 9100 + e * 3 + j, x[j]); }
		}
	}
	for (int d = 0; d < s->p->nd; d ++) if (s->dstat[d]) { snap (l, 100 + d, 1, sc_attr (s->d[d], BK_NUM_FRAMES)); snap (l, 100 + d, 2, sc_attr (s->d[d], BK_NUM_CHANNELS)); snap (l, 100 + d, 3, sc_attr (s->d[d], BK_SAMPLE_PITCH)); }
	if (s->ctxstat) { snap (l, 200, 1, now (s)); BKTime t = BK_TIME_ZERO; BKGetPtr (s->ctx, BK_CLOCK_PERIOD, &t, sizeof t); snap (l, 200, 2, vf_time64 (t)); }
}
static int same_log (const char *key, const Log *a, const Log *b, const char *what, unsigned voices)
{
	size_t i = 0, j = 0;
	for (;;) {
		while (i < a->n && a->e[i].owner < MAXV && !(voices >> a->e[i].owner & 1)) i ++;
		while (j < b->n && b->e[j].owner < MAXV && !(voices >> b->e[j].owner & 1)) j ++;
		if (i >= a->n && j >= b->n) return 1;
		if (i >= a->n || j >= b->n) { vf_fail (key, "%s: %zu entries against %zu; first extra: owner %d event %d value %lld", what, a->n, b->n, i < a->n ? a->e[i].owner : b->e[j].owner, i < a->n ? a->e[i].event : b->e[j].event, (long long) (i < a->n ? a->e[i].time : b->e[j].time)); return 0; }
		if (a->e[i].owner != b->e[j].owner || a->e[i].event != b->e[j].event || a->e[i].time != b->e[j].time) {
			vf_fail (key, "%s entry %zu: owner %d event %d value %lld against owner %d event %d value %lld", what, i, a->e[i].owner, a->e[i].event, (long long) a->e[i].time, b->e[j].owner, b->e[j].event, (long long) b->e[j].time); return 0;
		}
		i ++; j ++;
	}
}
int sc_same_logs (const char *key, Scene *a, Scene *b, unsigned voices)
{
	for (int i = 0; i < LOGS; i ++) { if (i < MAXV && !(voices >> i & 1)) continue; if (!same_log (key, &a->log[i], &b->log[i], i < MAXV ? "sample notifications" : i < MAXV + MAXK ? "clock ticks" : "divider ticks", ~0u)) return 0; }
	return 1;
}
int sc_same_snapshot (const char *key, Scene *a, Scene *b, unsigned voices)
{
	Log x = {0}, y = {0}; sc_snapshot (a, &x); sc_snapshot (b, &y); int ok = same_log (key, &x, &y, "final state", voices); free (x.e); free (y.e); return ok;
}
int sc_same_audio (const char *key, Scene *a, Scene *b)
{
	int ch = a->p->ch; size_t n = a->out.n < b->out.n ? a->out.n : b->out.n;
	for (size_t i = 0; i < n; i ++) if (a->out.d[i] != b->out.d[i]) { vf_fail (key, "frame %zu of channel %zu: %d against %d", i / ch, i % ch, a->out.d[i], b->out.d[i]); return 0; }
	if (a->out.n != b->out.n) { vf_fail (key, "%zu frames against %zu", a->out.n / ch, b->out.n / ch); return 0; }
	return 1;
}
