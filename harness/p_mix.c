/* S04: mixing.  S07: reset.  M06: no hidden or shared state. */
#include "scene.h"
#include <pthread.h>
static int clamp16 (int64_t v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : (int) v; }
static Scene *playone (const Plan *p, const OpList *l, const RunOpt *o, int quiet) { Scene *s = sc_new (p, o); s->quiet = quiet; sc_play (s, l, SPLIT_WHOLE, 1); return s; }

VF_PROP (S04)
{
	Plan *p = malloc (sizeof *p); OpList *l = malloc (sizeof *l);
	int loud = chance (r, 20);
	plan_make (p, r, (loud ? 0 : PF_LOWVOL) | (chance (r, 30) ? PF_FRACPOS : 0) | (chance (r, 15) ? PF_UNITS_ONLY : 0));
	if (p->nv < 2) p->nv = 2, p->v[1].unit = p->v[0].unit, p->v[1].wave = BK_SQUARE, p->v[1].vol = p->v[0].vol;
	uint64_t total = rr (r, 50, chance (r, 30) ? 9000 : 2500); plan_ops (l, p, r, (int) rn (r, chance (r, 30) ? 150 : 50), total);
	RunOpt o; runopt_default (&o); Scene *mix = playone (p, l, &o, 0), *solo[MAXV] = {0}; int n = p->nv, ch = p->ch; uint64_t h = 0, cmp = 0, sat = 0, act = 0;
	int how = (int) rn (r, 10);
	if (how < 6) {                                       /* sum of the parts */
		for (int i = 0; i < n && !vf_failed (); i ++) {
			RunOpt q = o; q.mask = 1u << i; solo[i] = playone (p, l, &q, 1);
			if (!vf_failed ()) sc_same_logs ("mix-notifications", mix, solo[i], 1u << i);
			if (!vf_failed ()) sc_same_snapshot ("mix-state", mix, solo[i], 1u << i);
			for (size_t f = 0; f < solo[i]->out.n; f += 97) if (solo[i]->out.d[f]) { act ++; h = vf_mix (h, solo[i]->out.d[f]); break; }
		}
		for (size_t f = 0; f < mix->out.n && !vf_failed (); f ++) {
			int64_t sum = 0; int any = 0;
			for (int i = 0; i < n; i ++) { int v = f < solo[i]->out.n ? solo[i]->out.d[f] : 0; sum += v; any |= v >= 32767 || v <= -32768; }
			if (any) { sat ++; continue; }
			int m = mix->out.d[f]; cmp ++;
			if (m < clamp16 (sum - n - 1) || m > clamp16 (sum + n + 1)) vf_fail ("mix-sum", "frame %zu of channel %zu: mix %d, sum of %d voices %lld", f / ch, f % ch, m, n, (long long) sum);
		}
		vf_count ("mixed_values", cmp); vf_count ("saturated_values", sat); vf_count ("audible_voices", act);
	}
	else if (how < 8) {                                  /* order of attachment */
		RunOpt q = o; q.useperm = 1; for (int i = 0; i < n; i ++) q.perm[i] = i;
		for (int i = n - 1; i > 0; i --) { int j = (int) rn (r, i + 1), t = q.perm[i]; q.perm[i] = q.perm[j]; q.perm[j] = t; }
		Scene *b = playone (p, l, &q, 1);
		if (!vf_failed ()) sc_same_logs ("order-notifications", mix, b, ~0u);
		if (!vf_failed ()) sc_same_audio ("order-audio", mix, b);
		if (!vf_failed ()) sc_same_snapshot ("order-state", mix, b, ~0u);
		vf_count ("permutations", 1); sc_free (b); h = vf_hash (1, q.perm, sizeof q.perm);
	}
	else if (ch > 1) {                                   /* content of one channel */
		RunOpt q = o; q.nonorm = 1; sc_free (mix); mix = playone (p, l, &q, 0); q.chalt = (int) rn (r, ch); q.chzero = chance (r, 40);
		Scene *b = playone (p, l, &q, 1); size_t diff = 0;
		for (size_t f = 0; f < mix->out.n && f < b->out.n && !vf_failed (); f ++) {
			if ((int) (f % ch) == q.chalt) { diff += mix->out.d[f] != b->out.d[f]; continue; }
			if (mix->out.d[f] != b->out.d[f]) vf_fail ("channel-independence", "frame %zu of channel %zu changed from %d to %d with the content of channel %d", f / ch, f % ch, mix->out.d[f], b->out.d[f], q.chalt);
		}
		vf_count ("channel_variations", 1); vf_count ("altered_values", diff); sc_free (b); h = vf_mix (diff, q.chalt);
	}
	vf_sig (vf_mix (h, vf_hash (how, mix->out.d, mix->out.n * 2)));
	for (int i = 0; i < n; i ++) if (solo[i]) sc_free (solo[i]);
	sc_free (mix); free (p); free (l);
}

/* ------------------------------------------------------------------ S07 */
static void mirror (Scene *to, Scene *from)
{
	static const BKEnum a[] = {BK_WAVEFORM, BK_MASTER_VOLUME, BK_TRIANGLE_IGNORES_VOLUME};
	for (int i = 0; i < to->p->nv; i ++) if (to->vstat[i]) {
		if (to->p->v[i].unit) {     /* a unit alone loses everything; both are set up again in the same way */
			Rng q = {to->p->v[i].vol}; static const BKEnum w[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE}; int v[4] = {PICK (&q, w), (int) rr (&q, 1, 15), (int) rr (&q, 1 << 18, 20 << 20), (int) rr (&q, 300, 20000)};
			void *o[2] = {from->v[i], to->v[i]}; for (int j = 0; j < 2; j ++) { BKSetAttr (o[j], BK_WAVEFORM, v[0]); BKSetAttr (o[j], BK_DUTY_CYCLE, v[1]); BKSetAttr (o[j], BK_PERIOD, v[2]); BKSetAttr (o[j], BK_VOLUME, v[3]); BKSetAttr (o[j], BK_MUTE, 0); }
			continue;
		}
		/* a track which played data has no waveform left */
		if (sc_attr (from->v[i], BK_WAVEFORM) < BK_SQUARE || sc_attr (from->v[i], BK_WAVEFORM) > BK_SINE) BKSetAttr (from->v[i], BK_WAVEFORM, BK_SQUARE);
		for (int j = 0; j < 3; j ++) BKSetAttr (to->v[i], a[j], sc_attr (from->v[i], a[j]));
	}
}
static void check_defaults (Scene *s, int i, const char *what)
{
	if (s->p->v[i].unit) {
		static const BKEnum z[] = {BK_WAVEFORM, BK_PHASE, BK_PHASE_WRAP, BK_SAMPLE_REPEAT};
		for (int j = 0; j < (int) (sizeof z / sizeof *z); j ++) { int v = sc_attr (s->v[i], z[j]); CHECK (v == 0, "reset-default", "%s: attribute %d of a unit is %d", what, z[j], v); }
		void *q = s; BKGetPtr (s->v[i], BK_SAMPLE, &q, sizeof q); CHECK (!q, "reset-default", "%s: sample still set", what); return;
	}
	static const struct { BKEnum a; int v; } d[] = {{BK_VOLUME, BK_MAX_VOLUME}, {BK_PANNING, 0}, {BK_PITCH, 0}, {BK_ARPEGGIO_DIVIDER, 4}, {BK_EFFECT_DIVIDER, 1}, {BK_INSTRUMENT_DIVIDER, 4}, {BK_MUTE, 1}, {BK_PHASE_WRAP, 0},
		{BK_EFFECT_VOLUME_SLIDE, 0}, {BK_EFFECT_PANNING_SLIDE, 0}, {BK_EFFECT_PORTAMENTO, 0}, {BK_SAMPLE_REPEAT, 0}};
	for (int j = 0; j < (int) (sizeof d / sizeof *d); j ++) { int v = sc_attr (s->v[i], d[j].a); CHECK (v == d[j].v, "reset-default", "%s: attribute %d is %d instead of %d", what, d[j].a, v, d[j].v); }
	void *q = s; BKGetPtr (s->v[i], BK_SAMPLE, &q, sizeof q); CHECK (!q, "reset-default", "%s: sample still set", what);
	q = s; BKGetPtr (s->v[i], BK_INSTRUMENT, &q, sizeof q); CHECK (!q, "reset-default", "%s: instrument still set", what);
}
VF_PROP (S07)
{
	Plan *p = malloc (sizeof *p); OpList *l1 = malloc (sizeof *l1), *l2 = malloc (sizeof *l2); int single = chance (r, 35), frac = chance (r, 30);
	plan_make (p, r, PF_NOCONFIG | PF_NOATTACH | (single ? PF_TRACKS_ONLY : chance (r, 25) ? PF_UNITS_ONLY : chance (r, 70) ? PF_TRACKS_ONLY : 0) | (frac ? PF_FRACPOS : 0)); RunOpt o; runopt_default (&o); o.cbops = chance (r, 60) ? 2 : 0;
	uint64_t t1 = rr (r, 0, chance (r, 30) ? 6000 : 1500), t2 = rr (r, 50, 2500); plan_ops (l1, p, r, (int) rn (r, 60), t1); plan_ops (l2, p, r, (int) rn (r, 60), t2);
	if (!single) {
		Scene *a = sc_new (p, &o), *b; uint64_t cut = chance (r, 50) ? 0 : 1;
		sc_play (a, l1, cut ? SPLIT_END : SPLIT_WHOLE, vf_next (r));
		int rounds = 1 + chance (r, 20);
		for (int k = 0; k < rounds && !vf_failed (); k ++) {
			if (k) sc_play (a, l1, SPLIT_WHOLE, 1);
			if (chance (r, 20)) { BKFrame x[8 * 8]; BKContextEnd (a->ctx, (BKFUInt20) rn (r, 500 << 20)); BKContextRead (a->ctx, x, (BKUInt) rn (r, 8)); }      /* reset with frames unread */
			else if (chance (r, 20)) BKContextRun (a->ctx, (BKFUInt20) rn (r, 900 << 20));                                                           /* or not yet ended */
			BKContextReset (a->ctx); sc_clear_results (a);
			BKTime t; BKGetPtr (a->ctx, BK_TIME, &t, sizeof t); CHECK (BKTimeIsEqual (t, BK_TIME_ZERO), "reset-time", "time is not zero after reset");
			CHECK (BKContextSize (a->ctx) == 0, "reset-unread", "%d frames readable after reset", BKContextSize (a->ctx));
			for (int i = 0; i < p->nv; i ++) check_defaults (a, i, "context reset");
		}
		b = sc_new (p, &o); b->quiet = 1; mirror (b, a);
		sc_play (a, l2, SPLIT_WHOLE, 1); sc_play (b, l2, SPLIT_WHOLE, 1);
		if (!vf_failed ()) sc_same_logs ("reset-callbacks", a, b, ~0u);
		if (!vf_failed ()) sc_same_audio ("reset-audio", a, b);
		if (!vf_failed ()) sc_same_snapshot ("reset-state", a, b, ~0u);
		vf_count ("context_resets", rounds); vf_count ("frames", a->out.n / p->ch); vf_sig (vf_hash (1, a->out.d, a->out.n * 2)); sc_free (a); sc_free (b);
	}
	else {
		int i = (int) rn (r, p->nv), clear = chance (r, 40); o.mask = 1u << i; o.cbops = 0; Scene *a = sc_new (p, &o), *b = sc_new (p, &o); b->quiet = 1; OpList e = {0};
		sc_play (a, l1, SPLIT_WHOLE, 1);
		int away = chance (r, 15); if (away) { BKTrackDetach (a->v[i]); vf_count ("reset_detached", 1); }
		if (clear) BKTrackClear (a->v[i]); else BKTrackReset (a->v[i]);
		if (away) CHECK (BKTrackAttach (a->v[i], a->ctx) == 0, "reset-attach", "attaching after the reset is refused");
		check_defaults (a, i, clear ? "track clear" : "track reset"); int duty = sc_attr (a->v[i], BK_DUTY_CYCLE); if (!clear) CHECK (duty == 4, "reset-default", "track reset: duty cycle %d", duty);
		mirror (b, a); if (clear) { BKSetAttr (b->v[i], BK_DUTY_CYCLE, duty); BKSetAttr (a->v[i], BK_PHASE, 0); BKSetAttr (b->v[i], BK_PHASE, 0); }
		OpList *e1 = calloc (1, sizeof e); e1->total = l1->total; sc_play (b, e1, SPLIT_WHOLE, 1);
		e1->total = (uint64_t) rr (r, 7000, 8000) << 20; sc_play (a, e1, SPLIT_WHOLE, 1); sc_play (b, e1, SPLIT_WHOLE, 1); free (e1);
		size_t from = a->out.n;
		for (int k = 0; k < LOGS; k ++) { a->log[k].n = b->log[k].n = 0; } a->ncb[i] = b->ncb[i] = 0;
		sc_play (a, l2, SPLIT_WHOLE, 1); sc_play (b, l2, SPLIT_WHOLE, 1);
		if (!vf_failed ()) sc_same_logs ("track-reset-callbacks", a, b, ~0u);
		if (!vf_failed ()) sc_same_snapshot ("track-reset-state", a, b, ~0u);
		CHECK (vf_failed () || a->out.n == b->out.n, "track-reset-audio", "%zu values against %zu", a->out.n, b->out.n);
		/* a cleared track leaves its level to the next note: the difference is a single decaying step per channel */
		if (clear) for (int c = 0; c < p->ch && !vf_failed (); c ++) {
			long since = -1; int m = 0;
			for (size_t f = from + c; f < a->out.n && f < b->out.n; f += p->ch) {
				int d = abs (a->out.d[f] - b->out.d[f]); if (abs (a->out.d[f]) >= 32767 || abs (b->out.d[f]) >= 32767) break;
				if (since < 0 && d > 1) since = 0; else if (since >= 0) since ++;
				if (since == 40) m = d + 3;
				if (since > 40 && d > m) { vf_fail ("track-clear-audio", "frame %zu of channel %d after the clear: %d against %d of a fresh track", (f - from) / p->ch, c, a->out.d[f], b->out.d[f]); break; }
			}
		}
		else for (size_t f = from; f < a->out.n && !vf_failed (); f ++) if (abs (a->out.d[f] - b->out.d[f]) > 1) vf_fail ("track-reset-audio", "frame %zu after the reset: %d against %d of a fresh track", (f - from) / p->ch, a->out.d[f], b->out.d[f]);
		vf_count ("track_resets", 1); vf_count ("frames", a->out.n / p->ch); vf_sig (vf_hash (2, a->out.d + from, (a->out.n - from) * 2)); sc_free (a); sc_free (b);
	}
	free (p); free (l1); free (l2);
}

/* ------------------------------------------------------------------ M06 */
static Player hookpl; static Rng hookr; static int inhook;
static void hookfn (void *u) { (void) u; if (inhook) return; inhook = 1; int n = (int) rn (&hookr, 4); while (n --) pl_step (&hookpl); inhook = 0; }
static void fillname (RunOpt *o, Rng *r) { static const int f[] = {0, 0xA5, 0xFF, 0x7F, -1, 0x55, 1}; o->fill = PICK (r, f); }
static int compare (const char *what, Scene *a, Scene *b)
{
	char key[64]; snprintf (key, 64, "%s-notifications", what); if (!sc_same_logs (key, a, b, ~0u)) return 0;
	snprintf (key, 64, "%s-audio", what); if (!sc_same_audio (key, a, b)) return 0;
	snprintf (key, 64, "%s-state", what); return sc_same_snapshot (key, a, b, ~0u);
}
VF_PROP (M06)
{
	Plan *p = malloc (sizeof *p), *q = malloc (sizeof *q); OpList *l = malloc (sizeof *l), *m = malloc (sizeof *m);
	plan_make (p, r, (chance (r, 30) ? PF_FRACPOS : 0) | (chance (r, 20) ? PF_UNITS_ONLY : 0)); uint64_t total = rr (r, 50, chance (r, 30) ? 6000 : 2000); plan_ops (l, p, r, (int) rn (r, 80), total);
	RunOpt o; runopt_default (&o); o.fill = 0; vf_fill = 0; int how = chance (r, 50) ? SPLIT_TOTIME : SPLIT_WHOLE; Scene *a = sc_new (p, &o); sc_play (a, l, how, 1); o.fill = 0xA5;
	if (chance (r, 50)) {
		fillname (&o, r); vf_fill = o.fill < 0 ? 0x33 : o.fill; Scene *b = sc_new (p, &o); b->quiet = 1; sc_play (b, l, how, 1); compare ("memory", a, b); sc_free (b); vf_count ("memory_variations", 1);
	}
	else {
		plan_make (q, r, (chance (r, 30) ? PF_FRACPOS : 0)); plan_ops (m, q, r, (int) rn (r, 80), rr (r, 50, 2000)); Scene *c = sc_new (q, &o); c->quiet = 1; int how2 = chance (r, 50) ? SPLIT_TOTIME : SPLIT_WHOLE; sc_play (c, m, how2, 1);
		fillname (&o, r); vf_fill = o.fill < 0 ? 0x33 : o.fill; Scene *d = sc_new (q, &o), *b = sc_new (p, &o); d->quiet = b->quiet = 1; hookr.s = vf_next (r);
		Player pb; pl_init (&hookpl, d, m, how2, 1); pl_init (&pb, b, l, how, 1); if (chance (r, 70)) b->hook = hookfn; b->hookwrite = 1; int w = (int) rr (r, 5, 95);
		/* the reference generates the same way as the interleaved one */
		for (int more = 1; more && !vf_failed ();) { more = 0; if (chance (&hookr, w)) more |= pl_step (&pb); else more |= pl_step (&hookpl); if (!more) more = pl_step (&pb) | pl_step (&hookpl); }
		if (!vf_failed () && compare ("context", a, b)) compare ("context", c, d);
		sc_free (c); sc_free (d); sc_free (b); vf_count ("interleavings", 1);
	}
	vf_sig (vf_hash (1, a->out.d, a->out.n * 2)); vf_fill = -1;
	sc_free (a); free (p); free (q); free (l); free (m);
}
enum { NT = 4 };
typedef struct { Plan p; OpList l; Scene *s; RunOpt o; pthread_barrier_t *bar; int how; } Th;
static void *thfn (void *u)
{
	Th *t = u; pthread_barrier_wait (t->bar); t->s = sc_new (&t->p, &t->o); t->s->quiet = 1; sc_play (t->s, &t->l, t->how, 1);
	return NULL;
}
VF_PROP (M06_threads)
{
	Th *t = calloc (NT, sizeof *t); pthread_barrier_t bar; pthread_barrier_init (&bar, NULL, NT); pthread_t id[NT]; uint64_t h = 0;
	for (int i = 0; i < NT; i ++) { plan_make (&t[i].p, r, chance (r, 30) ? PF_FRACPOS : 0); plan_ops (&t[i].l, &t[i].p, r, (int) rn (r, 60), rr (r, 50, 2000)); runopt_default (&t[i].o); t[i].bar = &bar; t[i].how = chance (r, 50) ? SPLIT_TOTIME : SPLIT_WHOLE; }
	for (int i = 0; i < NT; i ++) pthread_create (&id[i], NULL, thfn, &t[i]);
	for (int i = 0; i < NT; i ++) pthread_join (id[i], NULL);
	for (int i = 0; i < NT; i ++) {
		Scene *b = sc_new (&t[i].p, &t[i].o); b->quiet = 1; sc_play (b, &t[i].l, t[i].how, 1); if (!vf_failed ()) compare ("thread", b, t[i].s); h = vf_hash (h, b->out.d, b->out.n * 2); sc_free (b); sc_free (t[i].s);
	}
	vf_count ("threads", NT); vf_sig (h); pthread_barrier_destroy (&bar); free (t);
}
