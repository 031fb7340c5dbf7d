/* M03: what tracks and units play while their sample data changes, moves or goes away. Each user plays alone in its own context; after
   every operation what it plays is measured and compared with a fresh user of a fresh copy of the content it should be playing. */
#include "fio.h"
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"
enum { NU = 4, ND = 3, SETTLE = 4500, WIN = 1300 };
enum { K_NONE, K_BUILTIN, K_SAMPLE, K_WAVE };
typedef struct { int track, ch, attached, kind, d, live, cur, chs[2]; BKContext ctx[2]; BKUnit u; BKTrack t; void *o; } User;
typedef struct { BKData d; int live; BKFrame *user; } Dat;
typedef struct { int pp[4], edges[4]; } Meter;
static void user_init (User *u)
{
	int res = u->track ? BKTrackInit (&u->t, 0) : BKUnitInit (&u->u, 0); if (res) vf_harness_error ("init");
	u->o = u->track ? (void *) &u->t : (void *) &u->u; u->kind = K_NONE; u->attached = 0; u->live = 1;
	if (u->track) { BKSetAttr (u->o, BK_MASTER_VOLUME, 8192); BKSetAttr (u->o, BK_VOLUME, 32767); } else { BKSetAttr (u->o, BK_VOLUME, 8192); BKSetAttr (u->o, BK_PERIOD, 3 << 20); BKSetAttr (u->o, BK_SAMPLE_PERIOD, 1 << 20); }
}
static int user_attach (User *u) { return u->track ? BKTrackAttach (&u->t, &u->ctx[u->cur]) : BKUnitAttach (&u->u, &u->ctx[u->cur]); }
/* to the other of its contexts at times */
static int user_move (User *u, int other) { if (other) { u->cur ^= 1; u->ch = u->chs[u->cur]; vf_count ("moved", 1); } return user_attach (u); }
static void user_detach (User *u) { if (u->track) BKTrackDetach (&u->t); else BKUnitDetach (&u->u); }
static void sound (User *u) { BKSetAttr (u->o, BK_SAMPLE_REPEAT, BK_REPEAT); if (u->track) { BKSetAttr (u->o, BK_NOTE, BK_NOTE_MUTE); BKSetAttr (u->o, BK_NOTE, BK_C_4 << 20); } else BKSetAttr (u->o, BK_MUTE, 0); }
static void measure (User *u, Meter *m)
{
	static BKFrame buf[(SETTLE + WIN) * 4]; BKContextGenerate (&u->ctx[u->cur], buf, SETTLE + WIN);
	for (int c = 0; c < u->ch; c ++) {
		int lo = 32767, hi = -32768, e = 0, st = 0; const BKFrame *p = buf + SETTLE * u->ch + c;
		for (int i = 0; i < WIN; i ++) { int v = p[i * u->ch]; if (v < lo) lo = v; if (v > hi) hi = v; }
		for (int i = 0; i < WIN; i ++) { int v = p[i * u->ch]; if (v > lo + (hi - lo) * 6 / 10) { if (!st) e ++; st = 1; } else if (v < lo + (hi - lo) * 4 / 10) st = 0; }
		m->pp[c] = hi - lo; m->edges[c] = hi - lo > 30 ? e : 0;
	}
}
/* a fresh user with a fresh copy of the content */
static void expect (const User *u, const BKData *content, Meter *m)
{
	User f; memset (&f, 0, sizeof f); f.track = u->track; f.ch = u->ch; BKData d; memset (m, 0, sizeof *m);
	if (BKContextInit (&f.ctx[0], f.ch, 44100)) vf_harness_error ("ctx"); user_init (&f); user_attach (&f);
	if (u->kind == K_BUILTIN) BKSetAttr (f.o, BK_WAVEFORM, BK_SQUARE);
	else { BKDataInit (&d); if (BKDataSetFrames (&d, content->frames, content->numFrames, content->numChannels, 1)) vf_harness_error ("content"); if (BKSetPtr (f.o, u->kind == K_SAMPLE ? BK_SAMPLE : BK_WAVEFORM, &d, 0)) vf_harness_error ("reference refused"); }
	sound (&f); measure (&f, m); BKDispose (f.o); if (u->kind != K_BUILTIN) BKDispose (&d); BKDispose (&f.ctx[0]);
}
static int wide;
static BKFrame *content (Rng *r, int *n, int *ch)
{
	static const int amps[] = {1500, 3500, 8000, 18000}, runs[] = {3, 5, 8, 13}; int a = chance (r, 6) ? 0 : PICK (r, amps), h = PICK (r, runs);
	*ch = chance (r, wide ? 20 : 75) ? 1 : (int) rr (r, wide ? 2 : 1, wide ? 4 : 3); *n = 2 * h * (int) rr (r, 1, 4); BKFrame *f = malloc (*n * *ch * sizeof *f);
	for (int i = 0; i < *n; i ++) for (int c = 0; c < *ch; c ++) f[i * *ch + c] = (i / h & 1 ? -a : a) / (c + 1);
	return f;
}
static int usable (const BKData *d, int ch, int kind) { BKInt n = 0, c = 0; BKGetAttr ((void *) d, BK_NUM_FRAMES, &n); BKGetAttr ((void *) d, BK_NUM_CHANNELS, &c); return n >= 2 && (kind != K_SAMPLE || !ch || c == 1 || c == ch); }
VF_PROP (M03)
{
	static User u[NU]; static Dat d[ND]; int nu = (int) rr (r, 1, NU), nops = (int) rr (r, 2, 16); uint64_t sig = 0; memset (u, 0, sizeof u); memset (d, 0, sizeof d); vf_fill = 0x6B; wide = chance (r, 25);
	for (int i = 0; i < nu; i ++) { u[i].track = chance (r, 60); for (int c = 0; c < 2; c ++) { u[i].chs[c] = wide ? (int) rr (r, 2, 4) : chance (r, 70) ? 1 : 2; if (BKContextInit (&u[i].ctx[c], u[i].chs[c], 44100)) vf_harness_error ("ctx"); } u[i].ch = u[i].chs[0]; user_init (&u[i]); }
	for (int op = 0; op < nops && !vf_failed (); op ++) {
		int k = (int) rn (r, ND), i = (int) rn (r, nu), what = (int) rn (r, 17), res = 0, changed = 0, disposed = 0; User *x = &u[i]; Dat *y = &d[k]; const char *name = "";
		if (!y->live) { if (BKDataInit (&y->d)) vf_harness_error ("data"); y->live = 1; int n, ch; BKFrame *f = content (r, &n, &ch); BKDataSetFrames (&y->d, f, n, ch, 1); free (f); }
		if (!x->live) user_init (x);
		sig = vf_mix (sig, what); BKFrame *drop = NULL;
		switch (what) {
			case 0: case 1: case 2: case 3: { /* select */
				int kind = chance (r, 65) ? K_SAMPLE : K_WAVE; name = kind == K_SAMPLE ? "select sample" : "select waveform"; if (!x->attached && chance (r, 80)) { res = user_move (x, chance (r, 25)); CHECK (res == 0, "attach", "attach: %d", res); x->attached = 1; if (x->kind == K_SAMPLE && !usable (&d[x->d].d, x->ch, x->kind)) x->kind = K_NONE; }
				int same = x->track && kind == K_SAMPLE && x->kind == kind && x->d == k;
				res = BKSetPtr (x->o, kind == K_SAMPLE ? BK_SAMPLE : BK_WAVEFORM, &y->d, sizeof (void *));
				int ok = same || (x->attached && usable (&y->d, x->ch, kind));
				CHECK (ok ? res == 0 : res < 0, "select", "%s returned %d for %s data", name, res, ok ? "usable" : "unusable");
				if (ok) x->kind = kind, x->d = k; else if (x->kind >= K_SAMPLE) x->kind = K_NONE; vf_count (ok ? "selected" : "refused", 1); break;
			}
			case 4: name = "attach"; if (!x->attached) { res = user_move (x, chance (r, 40)); x->attached = 1; if (x->kind == K_SAMPLE && !usable (&d[x->d].d, x->ch, x->kind)) x->kind = K_NONE; } break;
			case 5: name = "detach"; if (x->attached) { user_detach (x); x->attached = 0; if (chance (r, 40)) { name = "move"; res = user_move (x, 1); x->attached = 1; if (x->kind == K_SAMPLE && !usable (&d[x->d].d, x->ch, x->kind)) x->kind = K_NONE; } } break;
			case 6: name = "disable"; res = BKSetPtr (x->o, chance (r, 50) ? BK_SAMPLE : BK_WAVEFORM, NULL, 0); CHECK (res == 0, "disable", "disabling data: %d", res); if (x->kind >= K_SAMPLE) x->kind = K_NONE; break;
			case 7: name = "builtin"; BKSetAttr (x->o, BK_WAVEFORM, BK_SQUARE); x->kind = K_BUILTIN; break;
			case 8: name = "user"; BKDispose (x->o); x->live = 0; x->kind = K_NONE; x->attached = 0; break;
			case 9: case 10: { name = "frames"; int n, ch, copy = chance (r, 50); BKFrame *f = content (r, &n, &ch); res = BKDataSetFrames (&y->d, f, n, ch, copy); CHECK (res == 0, "frames", "BKDataSetFrames: %d", res); drop = y->user; y->user = copy ? NULL : f; if (copy) free (f); changed = 1; break; }
			case 11: { name = "raw"; int n, ch; BKFrame *f = content (r, &n, &ch); if (chance (r, 70)) { res = BKDataSetData (&y->d, f, n * ch * 2, ch, BK_16_BIT_SIGNED); CHECK (res == 0, "frames", "BKDataSetData: %d", res); drop = y->user; y->user = NULL; changed = 1; } else { res = BKDataSetData (&y->d, f, 1, ch, BK_16_BIT_SIGNED); CHECK (res < 0, "frames", "unusable data accepted"); } free (f); break; }
			case 12: { /* WAVE file, possibly with a single frame or damaged */
				name = "wave"; int n, ch; BKFrame *f = content (r, &n, &ch); BKData t; BKDataInit (&t); BKDataSetFrames (&t, f, n, ch, 1); FILE *fl = fio_open (NULL, 0, "r+b"); BKWaveFileWriteData (fl, &t, 44100, 16); BKDispose (&t); free (f); Bytes b = {0}; fio_read_all (fl, &b); fclose (fl);
				int how = (int) rn (r, 4); if (how == 0) { uint32_t s = 2 * ch; memcpy (b.d + 40, &s, 4); b.n = 44 + s; } else if (how == 1) b.n = rn (r, 44);
				fl = fio_open (b.d, b.n, "rb"); res = BKDataLoadWAVE (&y->d, fl); fclose (fl); by_free (&b); CHECK (how == 1 ? res < 0 : res == 0, "frames", "BKDataLoadWAVE (%d): %d", how, res);
				if (res == 0) { drop = y->user; y->user = NULL; changed = 1; } break;
			}
			case 13: name = "normalize"; if (usable (&y->d, 0, 0)) { res = BKDataNormalize (&y->d); CHECK (res == 0, "frames", "BKDataNormalize: %d", res); drop = y->user; y->user = NULL; changed = 1; } break;
			case 14: { name = "convert"; BKDataConvertInfo ci; memset (&ci, 0, sizeof ci); ci.targetNumBits = (int) rr (r, 9, 12); res = BKDataConvert (&y->d, &ci); CHECK (res == 0, "frames", "BKDataConvert: %d", res); drop = y->user; y->user = NULL; changed = 1; break; }
			case 15: name = "dispose"; BKDispose (&y->d); drop = y->user; y->user = NULL; y->live = 0; changed = disposed = 1; memset (&y->d, 0xEE, sizeof y->d); break;
			case 16: name = "detach data"; BKDataDetach (&y->d); changed = disposed = 1; break;
		}
		if (drop) { memset (drop, 0x44, 8); free (drop); }         /* frames handed over without copying go away with their use */
		if (changed) for (int j = 0; j < nu; j ++) if (u[j].live && u[j].kind >= K_SAMPLE && u[j].d == k) { vf_count ("user_changes", 1); if (disposed || !usable (&y->d, u[j].attached ? u[j].ch : 0, u[j].kind)) { u[j].kind = K_NONE; vf_count ("users_silenced", 1); } }
		TRACE ("op %s user %d (%s%s ch %d) data %d -> %d\n", name, i, x->track ? "track" : "unit", x->attached ? " attached" : "", x->ch, k, res);
		if (res != 0 && what > 3 && what != 11 && what != 12) CHECK (0, "status", "%s: %d", name, res);
		for (int j = 0; j < nu && !vf_failed (); j ++) {
			User *z = &u[j]; void *p = (void *) 1; BKInt w = -1; if (!z->live) continue;
			res = BKGetPtr (z->o, BK_SAMPLE, &p, sizeof p); BKGetAttr (z->o, BK_WAVEFORM, &w);
			CHECK (res == 0 && p == (z->kind >= K_SAMPLE ? &d[z->d].d : NULL), "readback", "after %s: user %d reads data %p (%d), kind %d", name, j, p, res, z->kind);
			CHECK ((z->kind == K_NONE) == (w == 0), "readback", "after %s: user %d reads waveform %d, kind %d", name, j, w, z->kind);
			if (!z->attached) continue;
			sound (z); Meter m, e; memset (&e, 0, sizeof e); measure (z, &m); if (z->kind != K_NONE) expect (z, &d[z->d].d, &e);
			for (int c = 0; c < z->ch; c ++) {
				if (z->kind == K_NONE && op == 0) continue;
				int tol = z->kind == K_NONE ? 3 : 4 + e.pp[c] / 4;
				/* the decay of the last level remains for a while after it goes silent */
				if (z->kind == K_NONE) { static BKFrame t[5000 * 4]; BKContextGenerate (&z->ctx[z->cur], t, 5000); measure (z, &m); }
				CHECK (abs (m.pp[c] - e.pp[c]) <= tol && abs (m.edges[c] - e.edges[c]) <= 2 + e.edges[c] / 12, "stale", "after %s: user %d (kind %d) channel %d plays swing %d with %d edges, its content has %d with %d", name, j, z->kind, c, m.pp[c], m.edges[c], e.pp[c], e.edges[c]);
			}
			vf_count (z->kind == K_NONE ? "silent_users" : "sounding_users", 1);
		}
	}
	for (int q = 0; q < NU + ND; q ++) { int j = q; if (j < nu && u[j].live && chance (r, 70)) { BKDispose (u[j].o); u[j].live = 0; } if (q >= NU && d[q - NU].live) { BKDispose (&d[q - NU].d); free (d[q - NU].user); } }
	for (int j = 0; j < nu; j ++) { if (u[j].live) BKDispose (u[j].o); BKDispose (&u[j].ctx[0]); BKDispose (&u[j].ctx[1]); }
	CHECK (vf_live_blocks == 0, "leak", "%ld blocks leaked", vf_live_blocks); vf_sig (sig);
}
