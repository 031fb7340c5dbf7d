/* S01: the same plan generated in different portions gives the same audio, notifications and final state. */
#include "scene.h"
VF_PROP (S01)
{
	Plan *p = malloc (sizeof *p); OpList *l = malloc (sizeof *l); int frac = chance (r, 40);
	plan_make (p, r, (frac ? PF_FRACPOS : 0) | (chance (r, 20) ? PF_UNITS_ONLY : 0));
	uint64_t total = rr (r, 50, chance (r, 30) ? 12000 : 3000); plan_ops (l, p, r, (int) rn (r, chance (r, 30) ? 120 : 30), total);
	RunOpt o; runopt_default (&o); Scene *a = sc_new (p, &o); sc_play (a, l, SPLIT_WHOLE, 1); int heard = 0;
	for (size_t i = 0; i < a->out.n && !heard; i ++) heard = a->out.d[i] != 0;
	int nvar = 2; uint64_t h = 0;
	for (int k = 0; k < nvar && !vf_failed (); k ++) {
		int split = frac ? (chance (r, 70) ? SPLIT_END : SPLIT_TOTIME) : total < 1500 && chance (r, 30) ? SPLIT_ONES : (int) rr (r, SPLIT_GENERATE, SPLIT_TOTIME);
		Scene *b = sc_new (p, &o); b->quiet = 1; sc_play (b, l, split, vf_next (r));
		if (!vf_failed ()) sc_same_logs ("split-callbacks", a, b, ~0u);
		if (!vf_failed ()) sc_same_audio ("split-audio", a, b);
		if (!vf_failed ()) sc_same_snapshot ("split-state", a, b, ~0u);
		h = vf_mix (h, split); sc_free (b); vf_count ("splittings", 1);
	}
	CHECK (vf_failed () || a->out.n == total * p->ch, "split-count", "%zu frames instead of %d", a->out.n / p->ch, (int) total);
	vf_count ("frames", total * (nvar + 1)); if (heard) vf_count ("audible_scenes", 1);
	vf_sig (vf_mix (h, vf_hash (7, a->out.d, a->out.n * 2)));
	sc_free (a); free (p); free (l);
}

/* S02: exact counts, order and refusal. The reference audio is the same scene generated whole. */
typedef struct { Scene *s; long calls, refuse_at; int code; int refused; size_t after; Frames got; } Recv;
static BKInt recv_cb (BKFrame f[], BKUInt n, void *u)
{
	Recv *v = u; if (v->refused) v->after ++;
	if (n == 0 || n > BK_MAX_GENERATE_SAMPLES) vf_fail ("block-size", "block of %u frames", n);
	fr_add (&v->got, f, (size_t) n * v->s->p->ch);
	if (++ v->calls == v->refuse_at) { v->refused = 1; return v->code; }
	return 0;
}
static void match (Scene *s, const Frames *ref, uint64_t *R, const BKFrame *b, size_t n, const char *what)
{
	int ch = s->p->ch;
	for (size_t i = 0; i < n * ch && !vf_failed (); i ++) {
		size_t at = *R * ch + i; if (at >= ref->n) { vf_fail ("reference", "harness: reference too short"); return; }
		if (b[i] != ref->d[at]) vf_fail ("frame-order", "%s: frame %zu of channel %zu is %d instead of %d", what, at / ch, at % ch, b[i], ref->d[at]);
	}
	*R += n;
}
VF_PROP (S02)
{
	Plan *p = malloc (sizeof *p); OpList *l = malloc (sizeof *l), *e = calloc (1, sizeof *e); int frac = chance (r, 60);
	plan_make (p, r, chance (r, 25) ? PF_UNITS_ONLY : 0); plan_ops (l, p, r, 0, 0); for (int i = 0; i < l->n; i ++) l->op[i].pos = 0;
	RunOpt o; runopt_default (&o); o.cbops = chance (r, 50); Scene *a = sc_new (p, &o), *s = sc_new (p, &o); a->quiet = 1; int ch = p->ch;
	int big = rn (r, 200) == 0; uint64_t total = rr (r, 100, big ? 300000 : chance (r, 30) ? 20000 : 5000), E = 0, R = 0; e->total = l->total = 0; sc_play (a, l, SPLIT_WHOLE, 1); sc_play (s, l, SPLIT_WHOLE, 1);
	e->total = (total + 4096 + (big ? 75000 : 0)) << 20; sc_play (a, e, SPLIT_WHOLE, 1); const Frames *ref = &a->out; uint64_t h = 0;
	for (int k = 0; k < 400 && (E >> 20) < total && !vf_failed (); k ++) {
		uint64_t unread = (E >> 20) - R; int kind = (int) rn (r, 10); h = vf_mix (h, kind);
		if (kind < 3) {                                   /* generate */
			uint64_t n = big && chance (r, 40) ? 65536 + rn (r, 2500) : chance (r, 20) ? rn (r, 4) : chance (r, 10) ? 4096 : rn (r, 1500); if (unread + (n < 1024 ? n : 1024) > 3400) n = 0;      /* 4096 frames fit, of which clocks may be ahead by 683 */
			BKFrame *b = malloc (n * ch * 2 + 2 * ch * 2); for (size_t i = 0; i < (n + 2) * ch; i ++) b[i] = 0x5AA5;
			BKInt got = BKContextGenerate (s->ctx, b, (BKUInt) n); TRACE ("generate %d: %d\n", (int) n, got);
			CHECK (got == (BKInt) n, "generate-count", "%d of %d frames written", got, (int) n);
			for (int i = 0; i < 2 * ch; i ++) CHECK (b[n * ch + i] == 0x5AA5, "beyond", "value %d beyond the %d requested frames written", i, (int) n);
			if (!vf_failed ()) match (s, ref, &R, b, n, "generate"); E += n << 20; free (b); vf_count ("generated_frames", n);
		}
		else if (kind < 6) {                              /* end */
			uint64_t t = chance (r, 20) ? rn (r, 3 << 20) : rn (r, (uint64_t) 1024 << 20); if (!frac || chance (r, 30)) t &= ~(uint64_t) 0xfffff; if (unread + (t >> 20) > 2500) t = 0;
			if (chance (r, 20)) BKContextRun (s->ctx, (BKFUInt20) rn (r, t + 1));
			BKInt c = BKContextEnd (s->ctx, (BKFUInt20) t); E += t; TRACE ("end %.4f: %d\n", t / 1048576., c); vf_count ("ends", 1); if (c < 0) vf_fail ("end-error", "returned %d", c);
		}
		else if (kind < 8) {                              /* read */
			uint64_t n = chance (r, 40) ? unread + rn (r, 300) : rn (r, unread + 2); uint64_t want = n < unread ? n : unread;
			BKFrame *b = malloc ((want + 2) * ch * 2); for (size_t i = 0; i < (want + 2) * ch; i ++) b[i] = 0x5AA5;
			BKInt got = BKContextRead (s->ctx, b, (BKUInt) n); TRACE ("read %d: %d of %d\n", (int) n, got, (int) unread);
			CHECK (got == (BKInt) want, "read-count", "%d frames read of %d requested and %d readable", got, (int) n, (int) unread);
			for (int i = 0; i < 2 * ch; i ++) CHECK (b[want * ch + i] == 0x5AA5, "beyond", "value %d beyond the %d read frames written", i, (int) want);
			if (!vf_failed ()) match (s, ref, &R, b, want, "read"); free (b); vf_count ("read_frames", want);
		}
		else {                                            /* up to a time */
			uint64_t add = chance (r, 15) ? 0 : rn (r, (uint64_t) (big && chance (r, 40) ? 70000 : 2500) << 20), t = chance (r, 10) ? (E > add ? E - add : 0) : E + add; if (!frac) t &= ~(uint64_t) 0xfffff;
			Recv v = {s}; if (chance (r, 25)) { static const int codes[] = {-1, 1, 77, BK_INVALID_VALUE, INT32_MIN, INT32_MAX}; v.refuse_at = 1 + rn (r, 3); v.code = PICK (r, codes); }
			BKInt n = BKContextGenerateToTime (s->ctx, vf_time (t), recv_cb, &v); if (t > E) E = t; size_t due = (E >> 20) - R; TRACE ("to time %.4f: %d, %zu due\n", t / 1048576., n, due);
			CHECK (v.after == 0, "refusal-ignored", "%zu more blocks after the receiver refused", v.after);
			if (v.refused) { CHECK (n == BK_INVALID_RETURN_VALUE, "refusal-result", "returned %d after the receiver refused a block", n); match (s, ref, &R, v.got.d, v.got.n / ch, "refused block"); fr_free (&v.got); vf_count ("refusals", 1); break; }
			CHECK (n == (BKInt) due && v.got.n == due * ch, "totime-count", "returned %d and delivered %zu frames, %zu lie before the time", n, v.got.n / ch, due);
			if (!vf_failed ()) match (s, ref, &R, v.got.d, due, "to time"); vf_count ("totime_frames", due); fr_free (&v.got);
		}
		CHECK (vf_failed () || BKContextSize (s->ctx) == (BKInt) ((E >> 20) - R), "size", "%d frames readable instead of %d", BKContextSize (s->ctx), (int) ((E >> 20) - R));
	}
	vf_sig (vf_mix (h, frac)); sc_free (a); sc_free (s); free (p); free (l); free (e);
}
