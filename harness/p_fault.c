/* M05: every allocation and every file operation of every allocating or file-using call fails once. The call must report it, change
   nothing, leak nothing, and succeed when repeated. What sounds afterwards must equal a world in which nothing ever failed. */
#include "fio.h"
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"
enum { NOPS = 19 };
typedef struct { int op, n, ch, fmt, so, sl, bits, slot, which; BKFrame *fr; int32_t v[40]; BKSequencePhase ph[12]; Bytes file; } Call;
typedef struct { BKContext ctx; BKTrack t[2]; BKUnit u; BKData d[2]; BKInstrument in[2]; BKClock *clk; Frames out; Bytes written; BKFrame *spare; int has_copy; BKInstrument incopy; } World;
static void w_make (World *w, uint64_t seed)
{
	Rng q = {seed}, *r = &q; memset (w, 0, sizeof *w); int ch = (int) rr (r, 1, 2);
	if (BKContextInit (&w->ctx, ch, 44100)) vf_harness_error ("ctx");
	for (int i = 0; i < 2; i ++) { BKDataInit (&w->d[i]); int n = (int) rr (r, 2, 60); BKFrame f[60]; for (int j = 0; j < 60; j ++) f[j] = (BKFrame) rr (r, -9000, 9000); BKDataSetFrames (&w->d[i], f, n, 1, 1); BKSetAttr (&w->d[i], BK_SAMPLE_PITCH, (int) rn (r, 12) << 20); }
	for (int i = 0; i < 2; i ++) { BKInstrumentInit (&w->in[i]); BKInt v[6]; for (int j = 0; j < 6; j ++) v[j] = (BKInt) rr (r, 1000, 32767); BKInstrumentSetSequence (&w->in[i], BK_SEQUENCE_VOLUME, v, 6, 3, 2); if (chance (r, 50)) BKInstrumentSetEnvelopeADSR (&w->in[i], 10, 20, 9000, 30); }
	for (int i = 0; i < 2; i ++) { BKTrackInit (&w->t[i], BK_SQUARE); BKSetAttr (&w->t[i], BK_MASTER_VOLUME, 9000); BKSetAttr (&w->t[i], BK_VOLUME, 32767); BKTrackAttach (&w->t[i], &w->ctx); if (i || chance (r, 50)) BKSetPtr (&w->t[i], BK_INSTRUMENT, &w->in[i], 0); if (!i) { BKSetPtr (&w->t[i], chance (r, 50) ? BK_SAMPLE : BK_WAVEFORM, &w->d[0], 0); BKSetAttr (&w->t[i], BK_SAMPLE_REPEAT, BK_REPEAT); } BKSetAttr (&w->t[i], BK_NOTE, (int) rr (r, 40, 55) << 20); }
	BKUnitInit (&w->u, BK_SQUARE); BKUnitAttach (&w->u, &w->ctx); BKSetAttr (&w->u, BK_VOLUME, 5000); BKSetAttr (&w->u, BK_PERIOD, 9 << 20); BKSetPtr (&w->u, BK_WAVEFORM, &w->d[1], 0);
}
static void w_play (World *w, int n) { BKInt c = 0; BKGetAttr (&w->ctx, BK_NUM_CHANNELS, &c); BKFrame b[600 * 2]; while (n > 0) { int k = n < 600 ? n : 600; BKContextGenerate (&w->ctx, b, k); fr_add (&w->out, b, (size_t) k * c); n -= k; } }
static void w_free (World *w)
{
	for (int i = 0; i < 2; i ++) { BKDispose (&w->t[i]); BKDispose (&w->d[i]); BKDispose (&w->in[i]); } BKDispose (&w->u); if (w->has_copy) BKDispose (&w->incopy); BKDispose (&w->ctx); fr_free (&w->out); by_free (&w->written);
}
/* everything that can be read */
static uint64_t w_state (World *w)
{
	uint64_t h = 1; BKInt v; void *p; BKInt rg[2];
	for (int i = 0; i < 2; i ++) {
		BKData *d = &w->d[i]; static const BKEnum da[] = {BK_NUM_FRAMES, BK_NUM_CHANNELS, BK_SAMPLE_PITCH}; BKInt n = 0, c = 0; BKGetAttr (d, BK_NUM_FRAMES, &n); BKGetAttr (d, BK_NUM_CHANNELS, &c);
		for (int a = 0; a < 3; a ++) { v = -1; BKGetAttr (d, da[a], &v); h = vf_mix (h, v); } BKGetPtr (d, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg); h = vf_mix (h, rg[0] * 1000 + rg[1]); h = vf_hash (h, d->frames, (size_t) n * c * 2);
		static const BKEnum ta[] = {BK_WAVEFORM, BK_VOLUME, BK_NOTE, BK_MUTE, BK_SAMPLE_PITCH, BK_SAMPLE_REPEAT, BK_PERIOD, BK_SAMPLE_PERIOD, BK_DUTY_CYCLE};
		for (int a = 0; a < 9; a ++) { v = -1; BKGetAttr (&w->t[i], ta[a], &v); h = vf_mix (h, v); v = -1; BKGetAttr (&w->u, ta[a], &v); h = vf_mix (h, v); }
		p = NULL; BKGetPtr (&w->t[i], BK_SAMPLE, &p, sizeof p); h = vf_mix (h, p != NULL); p = NULL; BKGetPtr (&w->t[i], BK_INSTRUMENT, &p, sizeof p); h = vf_mix (h, p != NULL);
		for (int s = 0; s < 4; s ++) h = vf_mix (h, (uintptr_t) BKInstrumentGetSequence (&w->in[i], s) != 0);
	}
	return h;
}
static void call_make (Call *c, Rng *r)
{
	memset (c, 0, sizeof *c); c->op = (int) rn (r, NOPS); c->which = (int) rn (r, 2); c->ch = 1; c->n = (int) rr (r, 2, chance (r, 20) ? 3000 : 200); c->bits = (int) rr (r, 9, 15); c->slot = (int) rn (r, 4); c->fmt = (int) rr (r, 1, 6);
	c->fr = malloc (c->n * 2); for (int i = 0; i < c->n; i ++) c->fr[i] = (BKFrame) rr (r, -12000, 12000);
	int len = (int) rr (r, 1, 10); c->v[0] = len; c->so = (int) rn (r, len + 1); c->sl = (int) rn (r, len - c->so + 1); if (c->op == 8 && c->so < len && !c->sl) c->sl = 1;
	for (int i = 0; i < len; i ++) { int32_t x = c->slot == BK_SEQUENCE_VOLUME ? (int32_t) rr (r, 100, 32767) : c->slot == BK_SEQUENCE_PITCH ? (int32_t) rr (r, -3, 3) << 20 : c->slot == BK_SEQUENCE_DUTY_CYCLE ? (int32_t) rr (r, 1, 15) : (int32_t) rr (r, -20000, 20000); c->v[i + 1] = x; c->ph[i].steps = rr (r, 1, 20); c->ph[i].value = x; }
	if (c->op == 2) by_fill (&c->file, r, rr (r, 8, 400));
	if (c->op == 3 || c->op == 16) { BKData t; BKDataInit (&t); BKDataSetFrames (&t, c->fr, c->n, 1, 0); FILE *f = fio_open (NULL, 0, "r+b"); BKWaveFileWriteData (f, &t, 44100, chance (r, 50) ? 8 : 16); fio_read_all (f, &c->file); fclose (f); BKDispose (&t); }
}
/* the call under test, possibly with a fault armed */
static int arm_alloc, arm_io; static FILE *arm_f;
static void arm (void) { vf_io_reset (); vf_alloc_failed = 0; vf_fail_at = arm_alloc; vf_io_fail_at = arm_io; }
static void disarm (void) { vf_fail_at = 0; vf_io_fail_at = 0; }
static int call_do (World *w, Call *c)
{
	BKData *d = &w->d[c->which]; BKInstrument *in = &w->in[c->which]; int res = 0; arm_f = NULL;
	switch (c->op) {
		case 0: arm (); res = BKDataSetFrames (d, c->fr, c->n, 1, 1); disarm (); break;
		case 1: arm (); res = BKDataSetData (d, c->fr, c->n * 2, 1, c->fmt); disarm (); break;
		case 2: arm_f = fio_open (c->file.d, c->file.n, "rb"); fseek (arm_f, 3, SEEK_SET); arm (); res = BKDataLoadRaw (d, arm_f, 1, c->fmt); disarm (); break;
		case 3: arm_f = fio_open (c->file.d, c->file.n, "rb"); arm (); res = BKDataLoadWAVE (d, arm_f); disarm (); break;
		case 4: case 5: { static BKFrame keep[2][64]; /* frames owned by the caller must be copied first */
			if (c->which && c->n < 3000) { BKInt n = 0, ch = 0; BKGetAttr (d, BK_NUM_FRAMES, &n); BKGetAttr (d, BK_NUM_CHANNELS, &ch); if (n * ch <= 64 && !w->spare) { memcpy (keep[0], d->frames, n * ch * 2); BKDataSetFrames (d, keep[0], n, ch, 0); w->spare = keep[0]; } }
			BKDataConvertInfo ci; memset (&ci, 0, sizeof ci); ci.targetNumBits = c->bits; arm (); res = c->op == 4 ? BKDataNormalize (d) : BKDataConvert (d, &ci); disarm (); break; }
		case 6: { BKData n; memset (&n, 0x99, sizeof n); arm (); res = BKDataInitCopy (&n, d); disarm (); if (res == 0) { BKInt k = 0; BKGetAttr (&n, BK_NUM_FRAMES, &k); CHECK (!memcmp (n.frames, d->frames, k * 2), "copy", "copied frames differ"); BKDispose (&n); } break; }
		case 7: arm (); res = BKInstrumentSetSequence (in, c->slot, c->v + 1, c->v[0], c->so, c->sl); disarm (); break;
		case 8: arm (); res = BKInstrumentSetEnvelope (in, c->slot, c->ph, c->v[0], c->so, c->sl); disarm (); break;
		case 9: arm (); res = BKInstrumentSetEnvelopeADSR (in, 5, 10, 7000, 20); disarm (); break;
		case 10: { BKInstrument n; memset (&n, 0x99, sizeof n); arm (); res = BKInstrumentInitCopy (&n, in); disarm (); if (res == 0 && !w->has_copy) { BKDispose (&n); BKInstrumentInitCopy (&w->incopy, in); w->has_copy = 1; BKSetPtr (&w->t[1], BK_INSTRUMENT, &w->incopy, 0); } else if (res == 0) BKDispose (&n); break; }
		case 11: case 12: case 17: { void *o = (void *) 16; arm ();
			switch (c->op == 11 ? c->n % 3 : c->op == 12 ? 3 + c->n % 2 : 5 + c->n % 2) { case 0: res = BKContextAlloc ((void *) &o, 1 + c->n % 8, 44100); break; case 1: res = BKTrackAlloc ((void *) &o, BK_SQUARE); break; case 2: res = BKDataAlloc ((void *) &o); break; case 3: res = BKInstrumentAlloc ((void *) &o); break; case 4: res = BKClockAlloc ((void *) &o, BKTimeMake (100, 0), NULL); break; case 5: res = BKDividerAlloc ((void *) &o, 3, NULL); break; case 6: { static BKContext x; o = &x; memset (o, 0x99, sizeof x); res = BKContextInit (o, 1 + c->n % 8, 44100); break; } }
			disarm (); if (res == 0) BKDispose (o); break; }
		case 13: { BKSequence *s = NULL, *s2 = NULL; arm (); res = BKSequenceCreate (&s, &BKSequenceFuncsSimple, c->v + 1, c->v[0], c->so, c->sl); if (res == 0) { res = BKSequenceCopy (&s2, s); disarm (); BKSequenceDispose (s); if (res == 0) BKSequenceDispose (s2); } disarm (); break; }
		case 14: case 15: { /* written files */
			BKData t; BKDataInit (&t); BKDataSetFrames (&t, c->fr, c->n, 1, 0); arm_f = fio_open ("abc", 3, "r+b"); fseek (arm_f, 3, SEEK_SET); arm ();
			if (c->op == 14) res = BKWaveFileWriteData (arm_f, &t, 44100, c->bits & 1 ? 8 : 16);
			else { BKWaveFileWriter wr; res = BKWaveFileWriterInit (&wr, arm_f, 1, 44100, c->bits & 1 ? 8 : 16); if (res == 0) { int done = 0; while (done < c->n && res == 0) { int k = c->n - done < 700 ? c->n - done : 700; res = BKWaveFileWriterAppendFrames (&wr, c->fr + done, k); done += k; } if (res == 0) res = BKWaveFileWriterTerminate (&wr); BKDispose (&wr); } }
			disarm (); if (res == 0) { Bytes b = {0}; WaveInfo wi; fio_read_all (arm_f, &b); wave_parse (b.d + 3, b.n < 3 ? 0 : b.n - 3, &wi); int by = c->bits & 1 ? 1 : 2; CHECK (wi.ok && wi.avail == (size_t) c->n * by && wi.riff_size == b.n - 11, "success-without-file", "writing reported success, but the file holds %zu of %d bytes (RIFF size %u, file %zu)", wi.avail, c->n * by, wi.riff_size, b.n); by_free (&b); }
			BKDispose (&t); break; }
		case 16: { BKWaveFileReader rd; arm_f = fio_open (c->file.d, c->file.n, "rb"); BKFrame *o = malloc (c->n * 2); BKInt ch, ra, nf = 0; arm (); res = BKWaveFileReaderInit (&rd, arm_f); if (res == 0) { res = BKWaveFileReaderReadHeader (&rd, &ch, &ra, &nf); if (res == 0) { if (nf != c->n) vf_fail ("frames", "%d frames instead of %d", nf, c->n); else { res = BKWaveFileReaderReadFrames (&rd, o); for (int i = 0; res == 0 && i < c->n; i ++) if (abs (o[i] - c->fr[i]) > 255) { vf_fail ("success-without-content", "frame %d is %d instead of %d", i, o[i], c->fr[i]); break; } } } BKDispose (&rd); } disarm (); free (o); break; }
		case 18: { /* a device that is full */
			FILE *f = fopen ("/dev/full", "r+b"); if (!f) break; BKData t; BKDataInit (&t); BKDataSetFrames (&t, c->fr, c->n, 1, 0); if (c->n & 1) setvbuf (f, NULL, _IONBF, 0); BKInt e = BKWaveFileWriteData (f, &t, 44100, 16); CHECK (e < 0, "full-device", "writing to a full device reported %d", e); BKDispose (&t); fclose (f); vf_count ("full_device", 1); break; }
	}
	if (arm_f) fclose (arm_f); return res;
}
VF_PROP (M05)
{
	uint64_t seed = vf_next (r); Call c; World a, b; int nfail = 0, res; uint64_t sig = 0; int ncalls = (int) rr (r, 1, 3); int fails[8] = {0}; Call cs[3];
	vf_fill = 0xB7; w_make (&a, seed); w_play (&a, 100);
	vf_io_once = (int) rn (r, 2);
	for (int k = 0; k < ncalls; k ++) {
		call_make (&c, r); cs[k] = c; arm_alloc = arm_io = 0; long live = vf_live_blocks;
		for (int io = 0; io < 2 && !vf_failed (); io ++) for (int n = 1; n < 60 && !vf_failed (); n ++) {
			if (c.op == 18) break;
			/* a few fault positions per class are enough for long loops */
			arm_alloc = io ? 0 : n; arm_io = io ? n : 0; vf_io_class = 0; uint64_t st; if (nfail || n > 1 || io) st = w_state (&a); else { st = w_state (&a); }
			live = vf_live_blocks; int spared = a.spare != NULL;
			res = call_do (&a, &c); int hit = vf_alloc_failed > 0 || vf_io_failed > 0; arm_alloc = arm_io = 0;
			if (a.spare && !spared) { st = w_state (&a); live = vf_live_blocks; if (res == 0 && !hit) { } }
			TRACE ("op %d %s fault %d -> %d%s\n", c.op, io ? "file" : "alloc", n, res, hit ? " (hit)" : "");
			if (!hit) { CHECK (res == 0, "fails-without-fault", "operation %d failed without a fault: %d", c.op, res); fails[k] |= 0; if (res == 0) { fails[k] ++; w_play (&a, 64); } break; }
			vf_count (io ? "file_faults" : "alloc_faults", 1); nfail ++; sig = vf_mix (sig, c.op * 100 + io * 50 + n);
			CHECK (res < 0, io ? "file-fault-unreported" : "alloc-fault-unreported", "operation %d returned %d although %s %d failed", c.op, res, io ? "file operation" : "allocation", n);
			if (!a.spare || spared) CHECK (vf_live_blocks == live, "leak", "operation %d leaks %ld blocks when %s %d fails", c.op, vf_live_blocks - live, io ? "file operation" : "allocation", n);
			CHECK (w_state (&a) == st, "changed", "operation %d changed readable state although %s %d failed", c.op, io ? "file operation" : "allocation", n);
		}
		if (c.op == 18) call_do (&a, &c);
	}
	w_play (&a, 1500); for (int i = 0; i < 2; i ++) BKSetAttr (&a.t[i], BK_NOTE, 50 << 20); w_play (&a, 800);
	/* the same without faults */
	if (!vf_failed ()) {
		arm_alloc = arm_io = 0; w_make (&b, seed); w_play (&b, 100);
		for (int k = 0; k < ncalls; k ++) for (int j = 0; j < fails[k]; j ++) { res = call_do (&b, &cs[k]); w_play (&b, 64); }
		w_play (&b, 1500); for (int i = 0; i < 2; i ++) BKSetAttr (&b.t[i], BK_NOTE, 50 << 20); w_play (&b, 800);
		CHECK (a.out.n == b.out.n && !memcmp (a.out.d, b.out.d, a.out.n * 2), "sounds-different", "audio differs from that of a world without faults");
		w_free (&b); vf_count ("compared_worlds", 1);
	}
	w_free (&a); vf_io_reset (); CHECK (vf_live_blocks == 0, "leak", "%ld blocks leaked", vf_live_blocks);
	for (int k = 0; k < ncalls; k ++) { free (cs[k].fr); by_free (&cs[k].file); } vf_sig (sig);
}
