/* P07: every readable attribute of every object is read before and after each call; the call's outcome is predicted field by field. */
#include "vf.h"
#include "BKTrack.h"
#include "BKUnit.h"
#include "BKContext.h"
#include "BKData.h"
#include "BKInstrument.h"
#include "BKClock.h"
#include "BKBuffer.h"
enum { K_TRACK, K_UNIT, K_CTX, K_DATA, K_INSTR, K_CLOCK, K_DIV };
/* fields read through the public getters */
enum { F_WAVE, F_DUTY, F_PERIOD, F_PHASE, F_WRAP, F_NPH, F_V0, F_MUTE = F_V0 + 8, F_REPEAT, F_SPERIOD, F_IMMED, F_RELEASE, F_SAMPLE, F_RNG0, F_RNG1, F_SUS0, F_SUS1, F_CBF, F_CBI,
	F_UNIT_END, F_MASTER = F_UNIT_END, F_VOL, F_PAN, F_NOTE, F_PITCH, F_SPITCH, F_ADIV, F_EDIV, F_IDIV, F_TRI, F_VS, F_PS, F_PORT, F_TREM, F_VIB = F_TREM + 3, F_ARP = F_VIB + 3, F_INSTR = F_ARP + 9, F_SLIDES, NF = F_SLIDES + 3 };
static const char *fname (int f) { static const char *n[] = {"waveform", "duty cycle", "period", "phase", "phase wrap", "number of phases", "volume 0", "volume 1", "volume 2", "volume 3", "volume 4", "volume 5", "volume 6", "volume 7", "mute", "repeat", "sample period", "immediate release", "release", "sample", "range begin", "range end", "sustain begin", "sustain end", "callback", "callback info", "master volume", "volume", "panning", "note", "pitch", "sample pitch", "arpeggio divider", "effect divider", "instrument divider", "triangle ignores volume", "volume slide", "panning slide", "portamento", "tremolo", "tremolo delta", "tremolo slide", "vibrato", "vibrato delta", "vibrato slide", "arpeggio count", "arpeggio 1", "arpeggio 2", "arpeggio 3", "arpeggio 4", "arpeggio 5", "arpeggio 6", "arpeggio 7", "arpeggio 8", "instrument", "volume slide (attr)", "panning slide (attr)", "portamento (attr)"}; return f < (int) (sizeof n / sizeof *n) ? n[f] : "?"; }
typedef struct { int64_t v[NF]; } Snap;
typedef struct { int kind; void *o; } Obj;
#define NOBJ 9
typedef struct { BKContext ctx; BKTrack t[2]; BKUnit u; BKData d[2]; BKInstrument in; BKClock clk; BKDivider div; Obj ob[NOBJ]; int ch, attached[3], had_instr[2], dn[2], dch[2]; } World;
static int rnd_get; /* read through the class functions or the general ones */
static int get (Obj *o, BKEnum a, BKInt *v) { if (rnd_get) switch (o->kind) { case K_TRACK: return BKTrackGetAttr (o->o, a, v); case K_UNIT: return BKUnitGetAttr (o->o, a, v); case K_CTX: return BKContextGetAttr (o->o, a, v); case K_DATA: return BKDataGetAttr (o->o, a, v); } return BKGetAttr (o->o, a, v); }
static int64_t ga (Obj *o, BKEnum a) { BKInt v = 0x5a5a5a5a; int r = get (o, a, &v); return r ? (int64_t) r << 33 : v; }
static BKInt getp (Obj *o, BKEnum a, void *p, BKSize size) { if (rnd_get) switch (o->kind) { case K_TRACK: return BKTrackGetPtr (o->o, a, p); case K_UNIT: return BKUnitGetPtr (o->o, a, p); case K_CTX: return BKContextGetPtr (o->o, a, p); } return BKGetPtr (o->o, a, p, size); }
static void snap (Obj *o, Snap *s)
{
	memset (s, 0, sizeof *s); int64_t *v = s->v; void *p; BKInt rg[2];
	if (o->kind == K_TRACK || o->kind == K_UNIT) {
		static const BKEnum a[] = {BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7, BK_MUTE, BK_SAMPLE_REPEAT, BK_SAMPLE_PERIOD, BK_SAMPLE_IMMED_RELEASE, BK_FLAG_RELEASE};
		for (int i = 0; i < 19; i ++) v[F_WAVE + i] = ga (o, a[i]);
		p = (void *) 1; getp (o, BK_SAMPLE, &p, sizeof p); v[F_SAMPLE] = (intptr_t) p;
		rg[0] = rg[1] = -77; getp (o, BK_SAMPLE_RANGE, rg, sizeof rg); v[F_RNG0] = rg[0]; v[F_RNG1] = rg[1];
		rg[0] = rg[1] = -77; getp (o, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg); v[F_SUS0] = rg[0]; v[F_SUS1] = rg[1];
		BKCallback *cb = NULL; getp (o, BK_SAMPLE_CALLBACK, &cb, sizeof cb); if (cb) { v[F_CBF] = (intptr_t) cb->func; v[F_CBI] = (intptr_t) cb->userInfo; }
	}
	if (o->kind == K_TRACK) {
		static const BKEnum a[] = {BK_MASTER_VOLUME, BK_VOLUME, BK_PANNING, BK_NOTE, BK_PITCH, BK_SAMPLE_PITCH, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME}, e[] = {BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO};
		for (int i = 0; i < 10; i ++) v[F_MASTER + i] = ga (o, a[i]);
		for (int i = 0; i < 5; i ++) { BKInt x[3] = {-9, -9, -9}; int r = rnd_get ? BKTrackGetEffect (o->o, e[i], x, sizeof x) : BKGetPtr (o->o, e[i], x, sizeof x); CHECK (r == 0, "effect-get", "reading effect %d failed: %d", e[i], r); if (i < 3) { v[F_VS + i] = x[0]; v[F_SLIDES + i] = ga (o, e[i]); } else for (int k = 0; k < 3; k ++) v[F_TREM + (i - 3) * 3 + k] = x[k]; }
		BKInt ar[9] = {0}; getp (o, BK_ARPEGGIO, ar, sizeof ar); for (int i = 0; i < 9; i ++) v[F_ARP + i] = i <= ar[0] ? ar[i] : 0;
		p = (void *) 1; getp (o, BK_INSTRUMENT, &p, sizeof p); v[F_INSTR] = (intptr_t) p;
	}
	if (o->kind == K_CTX) { v[0] = ga (o, BK_NUM_CHANNELS); v[1] = ga (o, BK_SAMPLE_RATE); BKTime t = BK_TIME_ZERO; getp (o, BK_CLOCK_PERIOD, &t, sizeof t); v[2] = BKTimeGetTime (t); v[3] = BKTimeGetFrac (t); getp (o, BK_TIME, &t, sizeof t); v[4] = BKTimeGetTime (t); v[5] = BKTimeGetFrac (t); p = NULL; getp (o, BK_PULSE_KERNEL, &p, sizeof p); v[6] = (intptr_t) p; }
	if (o->kind == K_DATA) { v[0] = ga (o, BK_NUM_FRAMES); v[1] = ga (o, BK_NUM_CHANNELS); v[2] = ga (o, BK_SAMPLE_PITCH); rg[0] = rg[1] = -77; getp (o, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg); v[3] = rg[0]; v[4] = rg[1]; }
}
static int64_t cl (int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
#define W(f) (wild[f] = 1)
#define WV() do { for (int q_ = 0; q_ < 8; q_ ++) W (F_V0 + q_); } while (0)
#define WP() do { W (F_PERIOD); W (F_SPERIOD); } while (0)
#define WS() do { W (F_SAMPLE); W (F_RNG0); W (F_RNG1); W (F_SUS0); W (F_SUS1); W (F_PHASE); W (F_NPH); W (F_RELEASE); W (F_IMMED); } while (0)
static const BKEnum ATTRS[] = {BK_NUM_CHANNELS, BK_SAMPLE_RATE, BK_TIME, BK_PULSE_KERNEL, BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES, BK_MASTER_VOLUME, BK_VOLUME, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7,
	BK_MUTE, BK_PITCH, BK_SAMPLE_RANGE, BK_SAMPLE_REPEAT, BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_IMMED_RELEASE, BK_SAMPLE_PERIOD, BK_SAMPLE_PITCH, BK_SAMPLE_CALLBACK, BK_FLAG_RELEASE, BK_NOTE, BK_ARPEGGIO, BK_PANNING, BK_INSTRUMENT, BK_CLOCK_PERIOD, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER,
	BK_TRIANGLE_IGNORES_VOLUME, BK_NUM_FRAMES, BK_SAMPLE, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO, BK_SQUARE, BK_CUSTOM, BK_EVENT_CLOCK, BK_CONTEXT_ATTR_TYPE, BK_TRACK_ATTR_TYPE, BK_DATA_ATTR_TYPE, BK_EFFECT_TYPE, 0, -1};
static BKEnum pick_attr (Rng *r, int kind)
{
	if (kind == K_CTX && chance (r, 70)) { static const BKEnum a[] = {BK_NUM_CHANNELS, BK_SAMPLE_RATE, BK_TIME, BK_PULSE_KERNEL, BK_CLOCK_PERIOD, BK_CLOCK_PERIOD}; return PICK (r, a); }
	if (kind == K_DATA && chance (r, 80)) { static const BKEnum a[] = {BK_NUM_FRAMES, BK_NUM_CHANNELS, BK_SAMPLE_PITCH, BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_PITCH, BK_SAMPLE_SUSTAIN_RANGE}; return PICK (r, a); }
	switch (rn (r, 20)) { case 0: return (BKEnum) ((rn (r, 8) << BK_ATTR_TYPE_SHIFT) + rr (r, -2, 40)); case 1: return rint32 (r); default: return PICK (r, ATTRS); }
}
/* result: 0 accepted, -1 rejected, 1 either */
static int64_t p_range (int64_t v, int64_t len) { if (v < 0) v += len + 1; return cl (v, 0, len); }
static int predict_attr (World *w, Obj *o, BKEnum a, int32_t v, Snap *e, uint8_t *wild)
{
	int64_t *x = e->v; int tr = o->kind == K_TRACK;
	if (o->kind == K_DATA) { if (a == BK_SAMPLE_PITCH) { x[2] = cl (v, -48 << 20, 48 << 20); return 0; } return -1; }
	if (!tr && o->kind != K_UNIT) return -1;
	if (tr) switch (a) {
		case BK_MASTER_VOLUME: x[F_MASTER] = cl (v, 0, 32767); WV (); return 0;
		case BK_VOLUME: x[F_VOL] = cl (v, 0, 32767); WV (); return 0;
		case BK_PANNING: x[F_PAN] = cl (v, -32767, 32767); WV (); return 0;
		case BK_NOTE: W (F_PHASE); W (F_MUTE); W (F_RELEASE); WP (); WV (); if (v >= 0) { wild[F_MUTE] = 0; x[F_MUTE] = 0; x[F_NOTE] = cl (v, 0, 96 << 20); } else if (v >= -2) x[F_NOTE] = -1; return 0;
		case BK_PITCH: x[F_PITCH] = cl (v, -48 << 20, 48 << 20); WP (); return 0;
		case BK_SAMPLE_PITCH: x[F_SPITCH] = cl (v, -48 << 20, 48 << 20); WP (); return 0;
		case BK_ARPEGGIO_DIVIDER: x[F_ADIV] = v < 1 ? 1 : v; return 0;
		case BK_EFFECT_DIVIDER: x[F_EDIV] = v < 1 ? 1 : v; return 0;
		case BK_INSTRUMENT_DIVIDER: x[F_IDIV] = v < 1 ? 1 : v; return 0;
		case BK_TRIANGLE_IGNORES_VOLUME: x[F_TRI] = v != 0; WV (); return 0;
		case BK_EFFECT_VOLUME_SLIDE: x[F_VS] = x[F_SLIDES] = cl (v, 0, 65536); WV (); return 0;
		case BK_EFFECT_PANNING_SLIDE: x[F_PS] = x[F_SLIDES + 1] = cl (v, 0, 65536); WV (); return 0;
		case BK_EFFECT_PORTAMENTO: x[F_PORT] = x[F_SLIDES + 2] = cl (v, 0, 65536); WP (); return 0;
		default: break;
	}
	switch (a) {
		case BK_WAVEFORM: { int n; switch (v) { case 0: case BK_SQUARE: n = 16; break; case BK_TRIANGLE: case BK_SINE: n = 32; break; case BK_NOISE: n = 8; break; case BK_SAWTOOTH: n = 7; break; default: return -1; }
			WS (); x[F_WAVE] = v; x[F_SAMPLE] = 0; x[F_NPH] = n; wild[F_SAMPLE] = wild[F_NPH] = 0; if (tr) { WP (); WV (); } return 0; }
		case BK_DUTY_CYCLE: x[F_DUTY] = cl (v, 1, 15); W (F_PHASE); return 0;
		case BK_PERIOD: x[F_PERIOD] = llabs ((long long) v); if (x[F_PERIOD] > INT32_MAX) x[F_PERIOD] = INT32_MAX; if (x[F_PERIOD] < 16384) x[F_PERIOD] = 16384; return 0;
		case BK_PHASE: if (x[F_WAVE] != BK_SAMPLE) x[F_PHASE] = cl (v, 0, x[F_NPH] - 1); else if (v >= 0) x[F_PHASE] = cl (v, 0, x[F_NPH] ? x[F_NPH] - 1 : 0); else W (F_PHASE); return 0;
		case BK_PHASE_WRAP: x[F_WRAP] = v ? (v < 2 ? 2 : v) : 0; W (F_PHASE); return 0;
		case BK_VOLUME: for (int i = 0; i < 8; i ++) x[F_V0 + i] = cl (v, 0, 32767); return 0;
		case BK_VOLUME_0: case BK_VOLUME_1: case BK_VOLUME_2: case BK_VOLUME_3: case BK_VOLUME_4: case BK_VOLUME_5: case BK_VOLUME_6: case BK_VOLUME_7: x[F_V0 + a - BK_VOLUME_0] = cl (v, 0, 32767); return 0;
		case BK_MUTE: x[F_MUTE] = v != 0; return 0;
		case BK_SAMPLE_REPEAT: x[F_REPEAT] = v == BK_REPEAT || v == BK_PALINDROME ? v : BK_NO_REPEAT; return 0;
		case BK_SAMPLE_PERIOD: x[F_SPERIOD] = cl (llabs ((long long) v), 1 << 12, 1 << 28); return 0;
		case BK_SAMPLE_IMMED_RELEASE: x[F_IMMED] = v != 0; return 0;
		case BK_FLAG_RELEASE: W (F_PHASE); if (x[F_WAVE] == BK_SAMPLE && x[F_SUS0] != x[F_SUS1]) x[F_RELEASE] = v != 0; else W (F_RELEASE); return 0;
		default: return -1;
	}
}
static int readable (Obj *o, BKEnum a)
{
	switch (o->kind) {
		case K_CTX: return a == BK_NUM_CHANNELS || a == BK_SAMPLE_RATE;
		case K_DATA: return a == BK_NUM_FRAMES || a == BK_NUM_CHANNELS || a == BK_SAMPLE_PITCH;
		case K_TRACK: switch (a) { case BK_MASTER_VOLUME: case BK_VOLUME: case BK_PANNING: case BK_NOTE: case BK_PITCH: case BK_SAMPLE_PITCH: case BK_ARPEGGIO_DIVIDER: case BK_EFFECT_DIVIDER: case BK_INSTRUMENT_DIVIDER: case BK_TRIANGLE_IGNORES_VOLUME: case BK_EFFECT_VOLUME_SLIDE: case BK_EFFECT_PANNING_SLIDE: case BK_EFFECT_PORTAMENTO: return 1; default: break; } /* fall through */
		case K_UNIT: switch (a) { case BK_WAVEFORM: case BK_DUTY_CYCLE: case BK_PERIOD: case BK_PHASE: case BK_PHASE_WRAP: case BK_NUM_PHASES: case BK_VOLUME_0: case BK_VOLUME_1: case BK_VOLUME_2: case BK_VOLUME_3: case BK_VOLUME_4: case BK_VOLUME_5: case BK_VOLUME_6: case BK_VOLUME_7: case BK_MUTE: case BK_SAMPLE_REPEAT: case BK_SAMPLE_PERIOD: case BK_SAMPLE_IMMED_RELEASE: case BK_FLAG_RELEASE: return 1; default: return 0; }
		default: return 0;
	}
}
static void named (int res, const char *what, int kind, BKEnum a) { const char *n = BKStatusGetName (res); CHECK (res < 0 && n && *n && strcmp (n, "Unknown status"), "status", "%s of attribute %#x of object class %d returned %d (%s)", what, a, kind, res, n ? n : "null"); }
static int compare (World *w, Snap *exp, uint8_t *wild, int target, const char *what, BKEnum a, int64_t v, int rejected)
{
	Snap now; for (int i = 0; i < NOBJ; i ++) { snap (&w->ob[i], &now); for (int f = 0; f < NF; f ++) { if (i == target && wild[f]) continue; if (now.v[f] != exp[i].v[f]) { int own = i == target; vf_fail (rejected ? "rejected-changes" : !own ? "other-object-changes" : "readback", "%s %#x with %lld of object %d (class %d)%s: %s %d of object %d (class %d) reads %lld, expected %lld", what, a, (long long) v, target, target >= 0 ? w->ob[target].kind : -1, rejected ? ", rejected" : "", w->ob[i].kind <= K_UNIT ? fname (f) : "field", f, i, w->ob[i].kind, (long long) now.v[f], (long long) exp[i].v[f]); return 0; } } } return 1;
}
static uintptr_t cb_count;
static BKEnum cb_fn (BKCallbackInfo *info, void *user) { cb_count ++; return info->event == BK_EVENT_SAMPLE_RESET ? (((uintptr_t) user >> 4) & 1 ? BK_REPEAT : BK_NO_REPEAT) : 0; }
static BKEnum cb_fn2 (BKCallbackInfo *info, void *user) { cb_count += 2; return 0; }
static BKEnum clk_fn (BKCallbackInfo *info, void *user) { return 0; }
static void w_init (World *w, Rng *r)
{
	memset (w, 0, sizeof *w); static const BKUInt oddch[] = {0, 9, 16, 255, 256, 257, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}, oddrate[] = {0, 1, 15999, 16000, 96000, 96001, 192000, 0x7fffffff, 0x80000000u, 0xffffffffu};
	BKUInt ch = chance (r, 12) ? PICK (r, oddch) : (BKUInt) rr (r, 1, 8), rate = chance (r, 12) ? PICK (r, oddrate) : chance (r, 20) ? (BKUInt) rr (r, 16000, 96000) : 44100; BKInt gch = -1, grate = -1;
	w->ch = (int) cl (ch, 1, 8); if (BKContextInit (&w->ctx, ch, rate)) vf_harness_error ("ctx");
	BKGetAttr (&w->ctx, BK_NUM_CHANNELS, &gch); BKGetAttr (&w->ctx, BK_SAMPLE_RATE, &grate);
	if (gch != w->ch || grate != cl (rate, 16000, 96000)) vf_fail ("context-init", "a context made for %u channels at %u Hz has %d at %d", ch, rate, gch, grate);
	static const BKEnum wv[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE};
	for (int i = 0; i < 2; i ++) BKTrackInit (&w->t[i], PICK (r, wv)); BKUnitInit (&w->u, PICK (r, wv));
	for (int i = 0; i < 2; i ++) { BKDataInit (&w->d[i]); w->dch[i] = chance (r, 60) ? 1 : w->ch; w->dn[i] = (int) rr (r, 2, chance (r, 30) ? 400 : 30); BKFrame *f = malloc (w->dn[i] * w->dch[i] * 2); for (int j = 0; j < w->dn[i] * w->dch[i]; j ++) f[j] = (BKFrame) vf_next (r); BKDataSetFrames (&w->d[i], f, w->dn[i], w->dch[i], 1); free (f); }
	BKInstrumentInit (&w->in); BKInt s[5]; for (int i = 0; i < 5; i ++) s[i] = (BKInt) rr (r, 1000, 32767); BKInstrumentSetSequence (&w->in, BK_SEQUENCE_VOLUME, s, 5, 1, 2); for (int i = 0; i < 5; i ++) s[i] = (BKInt) rr (r, 1, 15); if (chance (r, 50)) BKInstrumentSetSequence (&w->in, BK_SEQUENCE_DUTY_CYCLE, s, 5, 1, 2);
	BKCallback cb = {clk_fn, NULL}; BKClockInit (&w->clk, BKTimeMake (500, 0), &cb); BKDividerInit (&w->div, 3, &cb);
	Obj ob[NOBJ] = {{K_TRACK, &w->t[0]}, {K_TRACK, &w->t[1]}, {K_UNIT, &w->u}, {K_CTX, &w->ctx}, {K_DATA, &w->d[0]}, {K_DATA, &w->d[1]}, {K_INSTR, &w->in}, {K_CLOCK, &w->clk}, {K_DIV, &w->div}}; memcpy (w->ob, ob, sizeof ob);
	for (int i = 0; i < 3; i ++) if (chance (r, 85)) { w->attached[i] = 1; if (i < 2) BKTrackAttach (&w->t[i], &w->ctx); else BKUnitAttach (&w->u, &w->ctx); }
	for (int i = 0; i < 3; i ++) if (w->attached[i] && chance (r, 50)) BKSetPtr (w->ob[i].o, BK_SAMPLE, &w->d[rn (r, 2)], sizeof (void *));
	if (chance (r, 70)) { for (int i = 0; i < 2; i ++) { BKSetAttr (&w->t[i], BK_MASTER_VOLUME, 9000); BKSetAttr (&w->t[i], BK_VOLUME, 30000); BKSetAttr (&w->t[i], BK_NOTE, (BKInt) rr (r, 30, 70) << 20); } BKSetAttr (&w->u, BK_VOLUME, 5000); BKSetAttr (&w->u, BK_PERIOD, (BKInt) rr (r, 2, 20) << 20); }
}
static void w_free (World *w) { for (int i = 0; i < NOBJ; i ++) if (i != 3) BKDispose (w->ob[i].o); BKDispose (&w->ctx); }
/* fields which hold their values while time passes */
static void persist (World *w, Snap *b, const char *what)
{
	Snap n; for (int i = 0; i < 6; i ++) { Obj *o = &w->ob[i]; snap (o, &n); uint8_t wild[NF] = {0};
		if (o->kind <= K_UNIT) { W (F_PHASE); W (F_MUTE); W (F_RELEASE); if (o->kind == K_TRACK) { WV (); WP (); if (w->had_instr[i]) W (F_DUTY); } }
		if (o->kind == K_CTX) { W (4); W (5); }
		for (int f = 0; f < NF; f ++) if (!wild[f] && n.v[f] != b[i].v[f]) { vf_fail ("drifts", "%s: %s %d of object %d (class %d) changed from %lld to %lld", what, o->kind <= K_UNIT ? fname (f) : "field", f, i, o->kind, (long long) b[i].v[f], (long long) n.v[f]); return; } }
}
/* the object system itself: objects of classes with any subset of functions, and the names of all status codes */
typedef struct { BKObject object; int32_t calls[5]; int32_t last; void *lastp; BKSize lasts; uint8_t tail[40]; } OsObj;
static int ob_disposed; static uint8_t ob_tail;
static void ob_dispose (void *o) { OsObj *x = o; ob_disposed ++; for (size_t i = 0; i < sizeof x->tail; i ++) CHECK (x->tail[i] == ob_tail, "object", "an object's memory changed"); }
static BKInt ob_set (void *o, BKEnum a, BKInt v) { OsObj *x = o; x->calls[0] ++; x->last = v; return (BKInt) (a % 5); }
static BKInt ob_get (void const *o, BKEnum a, BKInt *v) { const OsObj *x = o; *v = x->last; return (BKInt) (a % 7); }
static BKInt ob_sptr (void *o, BKEnum a, void *p, BKSize n) { OsObj *x = o; x->calls[1] ++; x->lastp = p; x->lasts = n; return (BKInt) (a % 11); }
static BKInt ob_gptr (void const *o, BKEnum a, void *p, BKSize n) { const OsObj *x = o; memcpy (p, &x->lastp, n < sizeof (void *) ? n : sizeof (void *)); return (BKInt) (a % 13); }
static void object_system (Rng *r)
{
	static const BKEnum codes[] = {BK_ALLOCATION_ERROR, BK_INVALID_ATTRIBUTE, BK_INVALID_VALUE, BK_INVALID_STATE, BK_INVALID_NUM_CHANNELS, BK_INVALID_NUM_FRAMES, BK_INVALID_NUM_BITS, BK_INVALID_RETURN_VALUE, BK_FILE_ERROR, BK_FILE_NOT_READABLE_ERROR, BK_FILE_NOT_WRITABLE_ERROR, BK_FILE_NOT_SEEKABLE_ERROR, BK_OTHER_ERROR};
	enum { NC = sizeof codes / sizeof *codes };
	for (int i = 0; i < NC; i ++) { const char *n = BKStatusGetName (codes[i]); CHECK (n && *n && strcmp (n, "Unknown status"), "status", "error %d has no name", codes[i]); for (int j = 0; j < i; j ++) CHECK (n && strcmp (n, BKStatusGetName (codes[j])), "status", "errors %d and %d have the same name", codes[i], codes[j]); }
	for (int i = -3; i <= NC + 3; i ++) { const char *n = BKStatusGetName (BK_ALLOCATION_ERROR + i); int known = 0; for (int j = 0; j < NC; j ++) known |= codes[j] == BK_ALLOCATION_ERROR + i; CHECK (n && *n && (known || !strcmp (n, "Unknown status")), "status", "status %d is named %s", BK_ALLOCATION_ERROR + i, n ? n : "null"); }
	BKClass c = {.instanceSize = sizeof (OsObj)}; unsigned has = (unsigned) rn (r, 32); if (has & 1) c.dispose = ob_dispose; if (has & 2) c.setAttr = ob_set; if (has & 4) c.getAttr = ob_get; if (has & 8) c.setPtr = ob_sptr; if (has & 16) c.getPtr = ob_gptr;
	void *pv = (void *) 1; BKClass z = {0}; OsObj st, *o = NULL; uint8_t canary = (uint8_t) rn (r, 256); memset (&st, canary, sizeof st);
	CHECK (BKObjectAlloc (NULL, &c, 0) < 0, "object", "allocation without a place succeeded"); CHECK (BKObjectAlloc (&pv, NULL, 0) < 0 && pv == NULL, "object", "allocation without a class succeeded"); CHECK (BKObjectAlloc (&pv, &z, 0) < 0 && pv == NULL, "object", "allocation of an empty class succeeded");
	CHECK (BKObjectInit (NULL, &c, sizeof st) < 0 && BKObjectInit (&st, NULL, sizeof st) < 0 && BKObjectInit (&st, &c, sizeof st - 1) < 0 && BKObjectInit (&st, &c, sizeof st + 8) < 0, "object", "initialisation with wrong arguments succeeded");
	for (size_t i = 0; i < sizeof st; i ++) CHECK (((uint8_t *) &st)[i] == canary, "object", "a refused initialisation changed memory");
	BKDispose (NULL); int alloc = (int) rn (r, 2); BKSize extra = (BKSize) rn (r, 200); long blocks = vf_live_blocks;
	if (alloc) { CHECK_RET (BKObjectAlloc ((void **) &o, &c, extra) == 0 && o, "object", "allocation failed"); memset ((uint8_t *) o + sizeof *o, 1, extra); CHECK (vf_live_blocks == blocks + 1, "object", "allocation made %ld blocks", vf_live_blocks - blocks); } else { o = &st; CHECK_RET (BKObjectInit (o, &c, sizeof st) == 0, "object", "initialisation failed"); }
	for (size_t i = sizeof (BKObject); i < sizeof st; i ++) CHECK (((uint8_t *) o)[i] == 0, "object", "a new object is not cleared");
	ob_tail = (uint8_t) rn (r, 256); memset (o->tail, ob_tail, sizeof o->tail); o->last = 0; o->lastp = NULL; int sets = 0, ptrs = 0;
	for (int i = 0; i < 12; i ++) { BKEnum a = (BKEnum) rn (r, 100); BKInt v = rint32 (r), g = 0; void *p = (void *) (uintptr_t) rn (r, 1 << 20), *q = NULL; int res;
		res = BKSetAttr (o, a, v); if (has & 2) { sets ++; CHECK (res == (BKInt) (a % 5) && o->calls[0] == sets && o->last == v, "object", "a set call was not passed on"); } else CHECK (res < 0 && o->calls[0] == 0, "object", "setting an attribute of an object without attributes returned %d", res);
		res = BKGetAttr (o, a, &g); if (has & 4) CHECK (res == (BKInt) (a % 7) && g == o->last, "object", "a get call was not passed on"); else CHECK (res < 0, "object", "getting an attribute of an object without attributes returned %d", res);
		BKSize n = rn (r, 30); res = BKSetPtr (o, a, p, n); if (has & 8) { ptrs ++; CHECK (res == (BKInt) (a % 11) && o->calls[1] == ptrs && o->lastp == p && o->lasts == n, "object", "a pointer set call was not passed on"); } else CHECK (res < 0, "object", "setting a pointer of an object without pointers returned %d", res);
		res = BKGetPtr (o, a, &q, sizeof q); if (has & 16) CHECK (res == (BKInt) (a % 13) && q == o->lastp, "object", "a pointer get call was not passed on"); else CHECK (res < 0, "object", "getting a pointer of an object without pointers returned %d", res); }
	ob_disposed = 0; BKDispose (o); CHECK (ob_disposed == (int) (has & 1), "object", "the dispose function was called %d times", ob_disposed);
	if (alloc) CHECK (vf_live_blocks == blocks, "object", "disposing freed %ld blocks", blocks + 1 - vf_live_blocks); else { for (size_t i = 0; i < sizeof st; i ++) CHECK (((uint8_t *) &st)[i] == 0, "object", "a disposed object is not cleared"); BKDispose (o); CHECK (ob_disposed == (int) (has & 1), "object", "a second dispose did something"); }
	vf_count ("object_classes", 1); vf_sig (vf_mix (77, has * 2 + (unsigned) alloc));
}
VF_PROP (P07)
{
	if (chance (r, 2)) { object_system (r); return; }
	World W0, *w = &W0; w_init (w, r); uint64_t sig = 0; int steps = (int) rr (r, 5, 40); long audible = 0;
	for (int st = 0; st < steps && !vf_failed (); st ++) {
		rnd_get = (int) rn (r, 2);
		Snap b[NOBJ]; for (int i = 0; i < NOBJ; i ++) snap (&w->ob[i], &b[i]);
		uint8_t wild[NF] = {0}; int target = (int) (chance (r, 75) ? rn (r, 3) : rn (r, NOBJ)); Obj *o = &w->ob[target]; int tr = o->kind == K_TRACK, un = o->kind == K_UNIT || tr, ownfn = (int) rn (r, 2), res;
		int op = (int) rn (r, 22); if (op > 19) op = 19;
		if (op < 10) { /* integer attribute */
			BKEnum a = pick_attr (r, o->kind); int32_t v = rint32 (r);
			if (a == BK_WAVEFORM && chance (r, 70)) { static const int32_t wv[] = {BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE, 0, BK_CUSTOM, BK_SAMPLE, BK_SINE + 3, BK_WAVEFORM_TYPE}; v = PICK (r, wv); }
			if (a == BK_NOTE && chance (r, 70)) v = chance (r, 70) ? (int32_t) rr (r, 0, 96) << 20 : (int32_t) rr (r, -3, -1);
			if (a == BK_SAMPLE_REPEAT && chance (r, 70)) v = (int32_t) rr (r, BK_NO_REPEAT - 1, BK_PALINDROME + 1);
			int p = predict_attr (w, o, a, v, &b[target], wild);
			if (ownfn && tr) res = BKTrackSetAttr (o->o, a, v); else if (ownfn && un) res = BKUnitSetAttr (o->o, a, v); else if (ownfn && o->kind == K_CTX) res = BKContextSetAttr (o->o, a, v); else if (ownfn && o->kind == K_DATA) res = BKDataSetAttr (o->o, a, v); else res = BKSetAttr (o->o, a, v);
			TRACE ("object %d attr %#x = %d -> %d\n", target, a, v, res);
			if (p < 0) { named (res, "setting", o->kind, a); vf_count ("rejected", 1); } else { CHECK (res == 0, "refused", "setting attribute %#x of object class %d to %d returned %d", a, o->kind, v, res); vf_count ("accepted", 1); }
			compare (w, b, wild, target, "setting", a, v, p < 0); sig = vf_mix (sig, a * 16 + o->kind * 2 + (p < 0));
		}
		else if (op < 12) { /* reading */
			BKEnum a = pick_attr (r, o->kind); BKInt v = 0; rnd_get = ownfn; res = get (o, a, &v); int p = readable (o, a);
			if (p) CHECK (res == 0, "refused", "reading attribute %#x of object class %d returned %d", a, o->kind, res); else { named (res, "reading", o->kind, a); vf_count ("rejected", 1); }
			compare (w, b, wild, -1, "reading", a, 0, 1);
			if (chance (r, 10)) { BKEnum s = (BKEnum) rint32 (r); const char *n = BKStatusGetName (s); CHECK (n && *n, "status", "no name of status %d", s); CHECK (BKSetAttr (NULL, a, 0) < 0 && BKGetAttr (NULL, a, &v) < 0 && BKSetPtr (NULL, a, &v, 4) < 0 && BKGetPtr (NULL, a, &v, 4) < 0, "null-object", "a call without an object succeeded"); }
		}
		else if (op < 17) { /* pointer attribute */
			BKEnum a; int p = -1; void *ptr = NULL; BKSize size = 0; int usenosize = ownfn && (tr || un || o->kind == K_CTX); Snap *e = &b[target]; int64_t *x = e->v; BKTime tm; BKCallback cb; void *keep = NULL;
			if (un) { static const BKEnum pa[] = {BK_SAMPLE, BK_SAMPLE, BK_WAVEFORM, BK_SAMPLE_RANGE, BK_SAMPLE_RANGE, BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_CALLBACK, BK_INSTRUMENT, BK_ARPEGGIO, BK_ARPEGGIO, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO}; a = chance (r, 85) ? PICK (r, pa) : pick_attr (r, o->kind); } else a = pick_attr (r, o->kind);
			int iseff = tr && a >= BK_EFFECT_VOLUME_SLIDE && a <= BK_EFFECT_VIBRATO;
			BKInt dummy[4]; for (int i = 0; i < 4; i ++) dummy[i] = rint32 (r);
			ptr = dummy; size = sizeof dummy;
			if (iseff) {
				int full = chance (r, 60); size = full ? 12 : (BKSize) rn (r, chance (r, 30) ? 97 : 21); BKInt vals[24]; for (int i = 0; i < 24; i ++) vals[i] = chance (r, 40) ? (BKInt) rr (r, 0, 60) : rint32 (r); if (chance (r, 10)) vals[0] = 0;
				if (usenosize && chance (r, 50)) size = 8; else usenosize = 0;
				int null = chance (r, 5); BKSize n = size / 4; int odd = (size & 3) != 0; if (null) { n = 0; odd = 0; } keep = malloc (size ? size : 1); memcpy (keep, vals, size); ptr = null ? NULL : keep; p = 0;
				int64_t v[3]; for (BKSize i = 0; i < 3; i ++) v[i] = i < n ? vals[i] : 0;
				int base, cnt = 1; switch (a) { case BK_EFFECT_VOLUME_SLIDE: base = F_VS; WV (); break; case BK_EFFECT_PANNING_SLIDE: base = F_PS; WV (); break; case BK_EFFECT_PORTAMENTO: base = F_PORT; WP (); break; case BK_EFFECT_TREMOLO: base = F_TREM; cnt = 3; WV (); break; default: base = F_VIB; cnt = 3; WP (); break; }
				for (int i = 0; i < cnt; i ++) { int64_t c = i == 1 ? (a == BK_EFFECT_TREMOLO ? cl (v[i], 0, 32767) : cl (v[i], -(96 << 20), 96 << 20)) : cl (v[i], 0, 65536); x[base + i] = c; if (cnt == 1) x[F_SLIDES + base - F_VS] = c; if (odd && n == (BKSize) i) { W (base + i); if (cnt == 1) W (F_SLIDES + base - F_VS); } }
				if (ownfn && !usenosize) res = BKTrackSetEffect (o->o, a, ptr, size); else if (usenosize) res = BKTrackSetPtr (o->o, a, ptr); else res = BKSetPtr (o->o, a, ptr, size);
				vf_count ("effects", 1);
			}
			else if (tr && a == BK_ARPEGGIO) {
				size = (BKSize) rn (r, 45); if (usenosize && chance (r, 50)) size = 36; else usenosize = 0; BKInt vals[12]; vals[0] = chance (r, 70) ? (BKInt) rr (r, 0, 8) : rint32 (r); for (int i = 1; i < 12; i ++) vals[i] = rint32 (r);
				int null = chance (r, 8); keep = malloc (size ? size : 1); memcpy (keep, vals, size); ptr = null ? NULL : keep; p = 0; int64_t n = null || size < 4 ? 0 : cl (vals[0], 0, cl (size / 4 - 1, 0, 8));
				for (int i = 0; i < 9; i ++) x[F_ARP + i] = i == 0 ? n : i <= n ? vals[i] : 0; WP ();
				res = usenosize ? BKTrackSetPtr (o->o, a, ptr) : BKSetPtr (o->o, a, ptr, size); vf_count ("arpeggios", 1);
			}
			else {
				if (un && (a == BK_SAMPLE || a == BK_WAVEFORM)) { int di = (int) rn (r, 2); ptr = chance (r, 12) ? NULL : (void *) &w->d[di]; p = 1; }
				else if (tr && a == BK_INSTRUMENT) { ptr = chance (r, 40) ? NULL : (void *) &w->in; p = 0; x[F_INSTR] = (intptr_t) ptr; WV (); WP (); W (F_DUTY); W (F_MUTE); W (F_RELEASE); W (F_PHASE); if (ptr) w->had_instr[target] = 1; }
				else if (un && (a == BK_SAMPLE_RANGE || a == BK_SAMPLE_SUSTAIN_RANGE)) { int null = chance (r, 10); int wide = chance (r, 30); for (int i = 0; i < 2; i ++) dummy[i] = wide ? rint32 (r) : (BKInt) rr (r, -12, 34); keep = malloc (8); memcpy (keep, dummy, 8); ptr = null ? NULL : keep;
					if (x[F_WAVE] != BK_SAMPLE) p = -1; else { p = 0; int64_t f0 = null ? 0 : dummy[0], f1 = null ? (a == BK_SAMPLE_RANGE ? -1 : 0) : dummy[1];
						if (a == BK_SAMPLE_RANGE) { int di = (void *) (intptr_t) x[F_SAMPLE] == (void *) &w->d[1]; int64_t c0 = p_range (f0, w->dn[di]), c1 = p_range (f1, w->dn[di]); x[F_RNG0] = c0; x[F_RNG1] = c1; x[F_NPH] = llabs (c0 - c1); x[F_SUS0] = x[F_SUS1] = 0; W (F_PHASE); W (F_RELEASE); }
						else { if (f0 == f1) f0 = f1 = 0; int64_t c0 = p_range (f0, x[F_NPH]), c1 = p_range (f1, x[F_NPH]); x[F_SUS0] = c0 < c1 ? c0 : c1; x[F_SUS1] = c0 < c1 ? c1 : c0; W (F_RELEASE); } vf_count ("ranges", 1); } }
				else if (un && a == BK_SAMPLE_CALLBACK) { int null = chance (r, 25); cb.func = chance (r, 50) ? cb_fn : cb_fn2; cb.userInfo = (void *) (uintptr_t) (rn (r, 64) << 4); ptr = null ? NULL : (void *) &cb; size = sizeof cb; p = 0; x[F_CBF] = null ? 0 : (intptr_t) cb.func; x[F_CBI] = null ? 0 : (intptr_t) cb.userInfo; }
				else if (o->kind == K_CTX && a == BK_CLOCK_PERIOD) { tm = chance (r, 70) ? BKTimeMake ((BKInt) rr (r, 5, 5000), (BKFUInt20) rn (r, 1 << 20)) : BKTimeMake ((BKInt) rr (r, -2, 0), (BKFUInt20) (chance (r, 50) ? 0 : rn (r, 1 << 20))); if (BKTimeGetTime (tm) == 0) tm = BK_TIME_ZERO; ptr = &tm; size = sizeof tm; if (BKTimeGetTime (tm) > 0) { p = 0; x[2] = BKTimeGetTime (tm); x[3] = BKTimeGetFrac (tm); } else p = -1; }
				else if (o->kind == K_CTX && a == BK_PULSE_KERNEL) { p = 0; int n = (int) rn (r, 3); ptr = n == 2 ? NULL : (void *) BKBufferPulseKernels[n ? BK_PULSE_KERNEL_HARM : BK_PULSE_KERNEL_SINC]; x[6] = ptr ? (intptr_t) ptr : (intptr_t) BKBufferPulseKernels[BK_PULSE_KERNEL_HARM]; size = sizeof (void *); }
				else if (o->kind == K_DATA && a == BK_SAMPLE_SUSTAIN_RANGE) { int null = chance (r, 10); int wide = chance (r, 30); for (int i = 0; i < 2; i ++) dummy[i] = wide ? rint32 (r) : (BKInt) rr (r, -12, 34); ptr = null ? NULL : dummy; p = 0; int64_t f0 = null ? 0 : dummy[0], f1 = null ? 0 : dummy[1]; if (f0 == f1) f0 = f1 = 0; int64_t c0 = p_range (f0, x[0]), c1 = p_range (f1, x[0]); x[3] = c0 < c1 ? c0 : c1; x[4] = c0 < c1 ? c1 : c0; vf_count ("ranges", 1); }
				if (ownfn && tr) res = BKTrackSetPtr (o->o, a, ptr); else if (ownfn && un) res = BKUnitSetPtr (o->o, a, ptr); else if (ownfn && o->kind == K_CTX) res = BKContextSetPtr (o->o, a, ptr); else res = BKSetPtr (o->o, a, ptr, size);
				if (p == 1) { WS (); W (F_REPEAT); if (tr) { WP (); WV (); W (F_SPITCH); } /* refused data leaves none */
					if (res == 0 && ptr) { wild[F_SAMPLE] = 0; x[F_SAMPLE] = (intptr_t) ptr; x[F_WAVE] = a == BK_SAMPLE ? BK_SAMPLE : BK_CUSTOM; if (tr) { wild[F_SPITCH] = 0; x[F_SPITCH] = b[ptr == (void *) &w->d[1] ? 5 : 4].v[2]; } vf_count ("data_set", 1); }
					else { wild[F_SAMPLE] = 0; x[F_SAMPLE] = 0; W (F_WAVE); if (res < 0) { named (res, "setting", o->kind, a); CHECK (!w->attached[target] && ptr, "refused", "usable data was refused with %d", res); vf_count ("data_refused", 1); } }
					CHECK (res <= 0, "status", "setting data returned %d", res); }
			}
			TRACE ("object %d ptr %#x %p size %d -> %d\n", target, a, ptr, (int) size, res);
			if (p < 0) { named (res, "setting", o->kind, a); vf_count ("rejected", 1); } else if (p == 0) { CHECK (res == 0, "refused", "setting pointer attribute %#x of object class %d returned %d", a, o->kind, res); vf_count ("accepted", 1); }
			compare (w, b, wild, target, "setting pointer", a, size, p < 0); free (keep); sig = vf_mix (sig, a * 16 + o->kind * 2 + (p < 0) + 9000000);
		}
		else if (op == 17) { /* result areas */
			if (tr && chance (r, 80)) { static const BKEnum pa[] = {BK_ARPEGGIO, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO}; BKEnum a = PICK (r, pa); BKSize size = (BKSize) rn (r, 48); if (ownfn) size = a == BK_ARPEGGIO ? 36 : 8; uint8_t *m = malloc (size ? size : 1); memset (m, 0xEE, size);
				res = ownfn ? BKTrackGetPtr (o->o, a, m) : BKGetPtr (o->o, a, m, size); CHECK (res == 0, "refused", "reading %#x into %d bytes returned %d", a, (int) size, res);
				BKInt full[12] = {0}; BKSize have = 12; if (a == BK_ARPEGGIO) { have = 4 * (b[target].v[F_ARP] + 1); for (int i = 0; i < 9; i ++) full[i] = (BKInt) b[target].v[F_ARP + i]; } else { int base = a == BK_EFFECT_VOLUME_SLIDE ? F_VS : a == BK_EFFECT_PANNING_SLIDE ? F_PS : a == BK_EFFECT_PORTAMENTO ? F_PORT : a == BK_EFFECT_TREMOLO ? F_TREM : F_VIB; for (int i = 0; i < (base >= F_TREM ? 3 : 1); i ++) full[i] = (BKInt) b[target].v[base + i]; }
				CHECK (!memcmp (m, full, size < have ? size : have), "result-area", "reading %#x into %d bytes gives other values", a, (int) size); free (m); vf_count ("result_areas", 1); sig = vf_mix (sig, a * 64 + size); }
			else { BKEnum a = pick_attr (r, o->kind); int known = 0; switch (o->kind) { case K_TRACK: known = a == BK_INSTRUMENT || a == BK_ARPEGGIO || (a >= BK_EFFECT_VOLUME_SLIDE && a <= BK_EFFECT_VIBRATO); /* fall through */ case K_UNIT: known |= a == BK_SAMPLE_CALLBACK || a == BK_SAMPLE || a == BK_SAMPLE_RANGE || a == BK_SAMPLE_SUSTAIN_RANGE; break; case K_CTX: known = a == BK_CLOCK_PERIOD || a == BK_TIME || a == BK_PULSE_KERNEL; break; case K_DATA: known = a == BK_SAMPLE_SUSTAIN_RANGE; break; }
				if (!known) { uint8_t m[64]; res = BKGetPtr (o->o, a, m, 8); named (res, "reading pointer", o->kind, a); vf_count ("rejected", 1); } }
			compare (w, b, wild, -1, "reading pointer", 0, 0, 1);
		}
		else if (op == 18) { /* attach and detach */
			if (target < 3) { if (w->attached[target]) { if (target < 2) BKTrackDetach (o->o); else BKUnitDetach (o->o); } else { res = target < 2 ? BKTrackAttach (o->o, &w->ctx) : BKUnitAttach (o->o, &w->ctx); CHECK (res == 0, "refused", "attach returned %d", res); } w->attached[target] ^= 1; persist (w, b, "attach or detach"); }
		}
		else { BKFrame f[300 * 8]; int n = (int) rr (r, 1, 300); BKContextGenerate (&w->ctx, f, n); for (int i = 0; i < n * w->ch; i ++) audible += f[i] != 0; persist (w, b, "time passing"); vf_count ("time_spans", 1); }
	}
	w_free (w); vf_sig (sig); if (audible) vf_count ("sounding_cases", 1);
	CHECK (vf_live_blocks == 0, "leak", "%ld blocks leaked", vf_live_blocks);
}
