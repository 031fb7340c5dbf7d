/* T01 / T02: clocks and dividers against an independent simulation. Every callback of the simulation and of the library runs the same
   scripted calls (derived from its number); the simulation says which callback comes next, at what time and with which values.
   There may be two contexts between which clocks and dividers move, also while they are running. */
#include "vf.h"
enum { NC = 5, ND = 7, MASTER = NC, GROUPS = NC + 2, NG = NC + 6, MAXEV = 12000 };
#define G_BEAT(x) (GROUPS + 2 * (x))
#define G_EFFECT(x) (GROUPS + 2 * (x) + 1)
#define CAP (INT32_MAX / 3)
typedef struct { int cx, next, prev; int64_t period, time, nt; } MC;
typedef struct { int group, next, prev; int64_t n, c; } MD;
typedef struct { int first, last, cur, nxt; } MG;
typedef struct { int kind, id; int64_t now, a; } Ev;
enum { O_NONE, O_ATTACH, O_DETACH, O_RESET, O_PERIOD, O_DATTACH, O_DDETACH, O_DRESET, O_MPERIOD, O_NEXT, O_DIV, O_CTXRESET };
typedef struct { int first, last, resetflag; int64_t now, G; } MX;
typedef struct { int op, a, b; int64_t v; int x; } Op;
typedef struct {
	uint64_t seed; BKContext ctx[2]; BKUnit u[2]; BKClock c[NC]; BKDivider d[ND]; struct { void *w; int id; } cu[NC], du[ND];
	MC mc[NC + 2]; MD md[ND]; MG mg[NG]; MX x[2]; int nx, run; Ev ev[MAXEV]; int nev, k, over, dead, focus; int64_t m_next, m_div;
	int lng, maxev;
} W;
#define TMAX vf_time64 (BK_TIME_MAX)
static BKTime mk (int64_t t) { return vf_time (t); }
static int64_t un (BKTime t) { return vf_time64 (t); }
static int64_t plus (int64_t a, int64_t b) { return (__int128) a + b > TMAX ? TMAX : a + b; }      /* a clock may have a period without end */

/* ---- script ---- */
static int64_t rperiod (W *w, Rng *r)
{
	if (chance (r, 2)) return chance (r, 50) ? TMAX : TMAX - (int64_t) (vf_next (r) >> rr (r, 13, 62));
	if (w->lng && chance (r, 15)) return (chance (r, 40) ? rr (r, 1, 8) * 4096 : rr (r, 1, 16) * 256) << 20;      /* common multiples of the window of the buffers */
	if (w->lng && chance (r, 80)) return chance (r, 20) ? rr (r, 1 << 20, 50 << 20) : rr (r, 60 << 20, 5000 << 20);
	switch (rn (r, 7)) {
		case 0: return rr (r, 1, 30) << 20; case 1: return 10 << 20; case 2: return rr (r, 1 << 19, 40 << 20); case 3: return rr (r, 1 << 20, 900 << 20);
		case 4: return chance (r, 20) ? rr (r, 1 << 14, 1 << 20) : 20 << 20; default: return rr (r, 4, 100) << 18;
	}
}
static Op mkop (W *w, Rng *r, int incb)
{
	Op o = {O_NONE, (int) rn (r, NC), -1, rperiod (w, r), w->nx > 1 && chance (r, 40)}; int k = (int) rn (r, 100), dv = w->focus == 2;
	if (dv ? k < 25 : k < 70) switch (rn (r, incb ? 9 : 8)) {
		case 0: case 1: o.op = O_ATTACH; o.b = (int) rr (r, -3, NC - 1); break;
		case 2: case 3: o.op = O_DETACH; break;
		case 4: o.op = O_RESET; break;
		case 5: o.op = O_PERIOD; break;
		case 6: o.op = O_MPERIOD; break;
		case 7: if (!incb) { o.op = chance (r, 40) ? O_CTXRESET : O_ATTACH; o.b = -1; } else o.op = O_NEXT; break;
		default: o.op = O_NEXT; if (chance (r, 20)) o.v = -rr (r, 0, 5 << 20);
	}
	else { o.a = (int) rn (r, ND); switch (rn (r, incb ? 7 : 6)) {
		case 0: case 1: case 2: o.op = O_DATTACH; o.b = (int) rn (r, NC + 3); if (o.b >= NC) o.b = o.b == NC + 1 ? G_BEAT (o.x) : G_EFFECT (o.x); break;
		case 3: o.op = O_DDETACH; break;
		case 4: o.op = O_DRESET; break;
		default: o.op = incb ? O_DIV : O_DATTACH; o.b = incb ? (int) (chance (r, 10) ? rr (r, -3, 0) : rr (r, 1, w->lng && chance (r, 50) ? 500 : 9) + (chance (r, 4) ? 256 << 8 * rn (r, 3) : 0)) : (int) rn (r, NC);
	} }
	return o;
}
static int script (W *w, int k, Op *o, int n, int incb) { Rng r = {vf_mix (w->seed, (uint64_t) k)}; int c = 0; if (!chance (&r, incb ? 18 : 100)) return 0; do o[c ++] = mkop (w, &r, incb); while (c < n && chance (&r, 35)); return c; }

/* ---- simulation ---- */
static void m_reset (W *w, int c) { MC *m = &w->mc[c]; if (m->cx >= 0) w->x[m->cx].resetflag = 1; for (int d = w->mg[c].first; d >= 0; d = w->md[d].next) w->md[d].c = 0; m->time = m->nt = 0; }
static int m_attach (W *w, int c, int x, int before)
{
	MC *m = &w->mc[c]; MX *q = &w->x[x]; if (m->cx >= 0) return BK_INVALID_STATE;
	if (before >= 0 && w->mc[before].cx != x) return BK_INVALID_VALUE;
	m->cx = x; m_reset (w, c);
	if (before < 0) { m->prev = q->last; m->next = -1; if (q->last >= 0) w->mc[q->last].next = c; else q->first = c; q->last = c; }
	else { m->prev = w->mc[before].prev; m->next = before; if (m->prev >= 0) w->mc[m->prev].next = c; else q->first = c; w->mc[before].prev = c; }
	return 0;
}
static void m_detach (W *w, int c)
{
	MC *m = &w->mc[c]; if (m->cx < 0) return; MX *q = &w->x[m->cx];
	if (m->prev >= 0) w->mc[m->prev].next = m->next; else q->first = m->next;
	if (m->next >= 0) w->mc[m->next].prev = m->prev; else q->last = m->prev;
	m_reset (w, c); m->cx = -1;
}
static int m_dattach (W *w, int d, int g)
{
	MD *m = &w->md[d]; if (m->group >= 0) return BK_INVALID_STATE;
	m->group = g; m->prev = w->mg[g].last; m->next = -1; if (m->prev >= 0) w->md[m->prev].next = d; else w->mg[g].first = d; w->mg[g].last = d;
	if (g >= GROUPS) { int x = (g - GROUPS) / 2; m_attach (w, MASTER + x, x, w->x[x].first); }
	return 0;
}
static void m_ddetach (W *w, int d)
{
	MD *m = &w->md[d]; if (m->group < 0) return; MG *g = &w->mg[m->group];
	if (g->cur == d) g->cur = -1;
	if (g->nxt == d) g->nxt = m->next;
	if (m->prev >= 0) w->md[m->prev].next = m->next; else g->first = m->next;
	if (m->next >= 0) w->md[m->next].prev = m->prev; else g->last = m->prev;
	m->group = -1;
}
static int m_op (W *w, const Op *o)
{
	switch (o->op) {
		case O_ATTACH: return m_attach (w, o->a, o->x, o->b == -2 ? w->x[o->x].first : o->b == o->a || o->b < 0 ? -1 : o->b);
		case O_DETACH: m_detach (w, o->a); break;
		case O_RESET: m_reset (w, o->a); break;
		case O_PERIOD: w->mc[o->a].period = o->v; break;
		case O_MPERIOD: w->mc[MASTER + o->x].period = o->v; break;
		case O_DATTACH: return m_dattach (w, o->a, o->b);
		case O_DDETACH: m_ddetach (w, o->a); break;
		case O_DRESET: w->md[o->a].c = 0; break;
		case O_NEXT: w->m_next = plus (w->m_next, o->v); break;
		case O_DIV: w->m_div = o->b; break;
		case O_CTXRESET: w->x[o->x].now = w->x[o->x].G = 0; for (int c = w->x[o->x].first; c >= 0; c = w->mc[c].next) m_reset (w, c); for (int g = G_BEAT (o->x); g <= G_EFFECT (o->x); g ++) for (int d = w->mg[g].first; d >= 0; d = w->md[d].next) w->md[d].c = 0; break;
	}
	return 0;
}
static void m_ev (W *w, int kind, int id, int64_t a)
{
	if (w->nev >= w->maxev) { w->over = 1; return; }
	int k = w->nev ++; w->ev[k] = (Ev) {kind, id, w->x[w->run].now, a}; Op o[4]; int n = script (w, k, o, 4, 1);
	for (int i = 0; i < n; i ++) { if (o[i].op == O_DETACH) vf_count ("detached_in_callback", 1); m_op (w, &o[i]); }
}
static void m_dividers (W *w, int gi)
{
	MG *g = &w->mg[gi]; int next;
	for (int d = g->first; d >= 0 && !w->over; d = next) {
		MD *m = &w->md[d]; g->cur = d; g->nxt = m->next;
		if (m->c <= 0) {
			w->m_div = m->n; m_ev (w, 1, d, m->n); vf_count ("divider_calls", 1);
			if (g->cur != d) { next = g->nxt; continue; }
			m->n = (uint32_t) w->m_div > INT32_MAX ? INT32_MAX : w->m_div < 1 ? 1 : w->m_div; m->c = m->n;
		}
		m->c --; next = m->next; g->cur = -1;
	}
}
static void m_run (W *w, int x)
{
	MX *q = &w->x[x]; w->run = x;
	while (q->first >= 0 && q->now < q->G && !w->over) {
		int64_t dt;
		do {
			dt = INT64_MAX; q->resetflag = 0;
			for (int c = q->first; c >= 0 && !w->over; c = w->mc[c].next) {
				MC *m = &w->mc[c];
				if (m->time == m->nt) {
					int64_t t0 = m->time; w->m_next = t0;
					if (c == MASTER + x) { m_dividers (w, G_BEAT (x)); m_dividers (w, G_EFFECT (x)); }
					else { m_ev (w, 0, c, t0); m_dividers (w, c); }
					vf_count ("clock_ticks", 1);
					if (w->m_next > t0) m->period = w->m_next - t0;
					m->nt = plus (m->time, m->period);
				}
				if (m->cx != x) { if (m->cx >= 0) vf_count ("moved_while_running", 1); break; }
				if (m->nt - m->time < dt) dt = m->nt - m->time;
			}
		} while (q->resetflag && !w->over);
		if (q->first < 0) break;
		if (dt > CAP) dt = CAP;
		for (int c = q->first; c >= 0; c = w->mc[c].next) w->mc[c].time += dt;
		q->now += dt;
	}
	if (q->first < 0 && q->now < q->G) { q->now = q->G; vf_count ("without_clocks", 1); }
}

/* ---- library ---- */
static int l_op (W *w, const Op *o, BKCallbackInfo *info)
{
	BKTime t;
	switch (o->op) {
		case O_ATTACH: return BKClockAttach (&w->c[o->a], &w->ctx[o->x], o->b == -2 ? BK_FIRST_ELEMENT_PTR : o->b == o->a || o->b < 0 ? NULL : &w->c[o->b]);
		case O_DETACH: BKClockDetach (&w->c[o->a]); break;
		case O_RESET: BKClockReset (&w->c[o->a]); break;
		case O_PERIOD: BKClockSetPeriod (&w->c[o->a], mk (o->v)); break;
		case O_MPERIOD: t = mk (o->v); return BKSetPtr (&w->ctx[o->x], BK_CLOCK_PERIOD, &t, sizeof t);
		case O_DATTACH: return o->b >= GROUPS ? BKContextAttachDivider (&w->ctx[(o->b - GROUPS) / 2], &w->d[o->a], (o->b - GROUPS) % 2 == 0 ? BK_CLOCK_TYPE_BEAT : BK_CLOCK_TYPE_EFFECT) : BKDividerAttachToClock (&w->d[o->a], &w->c[o->b]);
		case O_DDETACH: BKDividerDetach (&w->d[o->a]); break;
		case O_DRESET: BKDividerReset (&w->d[o->a]); break;
		case O_NEXT: info->nextTime = mk (plus (un (info->nextTime), o->v)); break;
		case O_DIV: info->divider = (BKUInt) o->b; break;
		case O_CTXRESET: BKContextReset (&w->ctx[o->x]); break;
	}
	return 0;
}
static const char *oname (int op) { static const char *n[] = {"nothing", "attach clock", "detach clock", "reset clock", "set period", "attach divider", "detach divider", "reset divider", "set context period", "next time", "divider value", "reset context"}; return n[op]; }
static BKEnum cb (W *w, BKCallbackInfo *info, int kind, int id)
{
	if (w->dead || vf_failed ()) return 0;
	BKTime t = BK_TIME_ZERO; BKGetPtr (&w->ctx[w->run], BK_TIME, &t, sizeof t); int64_t now = un (t), a = kind ? (int64_t) (BKInt) info->divider : un (info->nextTime); int k = w->k ++;
	static const char *names[] = {"clock", "divider"};
	TRACE ("   event %d: %s %d at %.4f (%.4f)\n", k, names[kind], id, now / 1048576., kind ? (double) a : a / 1048576.);
	if (k >= w->nev) { w->dead = 1; vf_fail (kind ? "divider-extra" : "clock-extra", "%s %d fires at %.4f where nothing is due", names[kind], id, now / 1048576.); return 0; }
	Ev *e = &w->ev[k];
	if (e->kind != kind || e->id != id) { w->dead = 1; vf_fail ("order", "callback %d is %s %d at %.6f instead of %s %d at %.6f", k, names[kind], id, now / 1048576., names[e->kind], e->id, e->now / 1048576.); return 0; }
	if (e->now != now) { w->dead = 1; vf_fail ("tick-time", "%s %d fires at %.6f instead of %.6f", names[kind], id, now / 1048576., e->now / 1048576.); return 0; }
	if (e->a != a) { w->dead = 1; vf_fail ("tick-info", "%s %d is told %lld instead of %lld at %.6f", names[kind], id, (long long) a, (long long) e->a, now / 1048576.); return 0; }
	if (info->event != (kind ? BK_EVENT_DIVIDER : BK_EVENT_CLOCK)) vf_fail ("event", "%s %d receives event %d", names[kind], id, info->event);
	if (!kind && info->object != &w->c[id]) vf_fail ("tick-object", "clock %d is told a wrong object", id);
	Op o[4]; int n = script (w, k, o, 4, 1); for (int i = 0; i < n; i ++) { TRACE ("     %s %d %d %.4f (context %d)\n", oname (o[i].op), o[i].a, o[i].b, o[i].v / 1048576., o[i].x); l_op (w, &o[i], info); }
	return 0;
}
static BKEnum ccb (BKCallbackInfo *i, void *u) { struct { W *w; int id; } *c = u; return cb (c->w, i, 0, c->id); }
static BKEnum dcb (BKCallbackInfo *i, void *u) { struct { W *w; int id; } *c = u; return cb (c->w, i, 1, c->id); }
static void clocks (Rng *r, int focus)
{
	W *w = calloc (1, sizeof *w); w->seed = vf_next (r); w->focus = focus; w->lng = rn (r, 250) == 0; w->maxev = w->lng ? MAXEV : 3000; int ends = chance (r, 50), calls = (int) rr (r, 2, w->lng ? 300 : 30); BKFrame *b = malloc (4000 * 2); uint64_t h = focus;
	w->nx = 1 + chance (r, 25); for (int x = 0; x < w->nx; x ++) { BKContextInit (&w->ctx[x], 1, (BKUInt) rr (r, 16000, 96000)); BKUnitInit (&w->u[x], BK_SQUARE); BKUnitAttach (&w->u[x], &w->ctx[x]); w->x[x].first = w->x[x].last = -1; }
	for (int c = 0; c < NC + 2; c ++) w->mc[c].cx = -1; for (int g = 0; g < NG; g ++) w->mg[g] = (MG) {-1, -1, -1, -1};
	BKTime t; for (int x = 0; x < w->nx; x ++) { BKGetPtr (&w->ctx[x], BK_CLOCK_PERIOD, &t, sizeof t); w->mc[MASTER + x].period = un (t); BKInt sr = 0; BKGetAttr (&w->ctx[x], BK_SAMPLE_RATE, &sr); CHECK (llabs (un (t) - (int64_t) (sr / 240. * 1048576)) <= 2, "default-rate", "the clock of a context at %d Hz ticks every %.6f frames", sr, un (t) / 1048576.); }
	for (int c = 0; c < NC; c ++) { w->cu[c].w = w; w->cu[c].id = c; BKCallback k = {ccb, &w->cu[c]}; w->mc[c].period = rperiod (w, r); if (BKClockInit (&w->c[c], mk (w->mc[c].period), &k) != 0) vf_fail ("init", "clock refused"); }
	for (int d = 0; d < ND; d ++) { w->du[d].w = w; w->du[d].id = d; BKCallback k = {dcb, &w->du[d]}; w->md[d].group = -1; w->md[d].n = chance (r, 8) ? 0 : chance (r, 3) ? rr (r, INT32_MAX, UINT32_MAX) : chance (r, 4) ? (256 << 8 * rn (r, 3)) + rr (r, 0, 5) : rr (r, 1, w->lng && chance (r, 50) ? 700 : chance (r, 20) ? 30 : 5); if (BKDividerInit (&w->d[d], (BKUInt) w->md[d].n, &k) != 0) vf_fail ("init", "divider refused"); if (w->md[d].n < 1) w->md[d].n = 1; if (w->md[d].n > INT32_MAX) w->md[d].n = INT32_MAX; }
	Rng o = {vf_next (r)};
	for (int i = 0; i < calls && !vf_failed (); i ++) {
		int n = i ? (int) rn (&o, 4) : (int) rr (&o, 2, 8);
		while (n --) {
			Op p = mkop (w, &o, 0); if (!i && p.op != O_DATTACH) { p.op = O_ATTACH; p.a %= NC; if (p.b >= NC) p.b = -1; }
			TRACE ("  %s %d %d %.4f (context %d)\n", oname (p.op), p.a, p.b, p.v / 1048576., p.x); int e = l_op (w, &p, NULL), f = m_op (w, &p); CHECK (e == f, "status", "%s returns %d instead of %d", oname (p.op), e, f); h = vf_mix (h, p.op * 64 + p.a);
		}
		int64_t len = chance (&o, 30) ? rr (&o, 1, 10) << 20 : rr (&o, 1, 900) << 20; if (ends) len = rr (&o, 1, 900 << 20);
		int x = w->nx > 1 && chance (&o, 40); MX *q = &w->x[x]; BKContext *ctx = &w->ctx[x]; if (w->nx > 1) vf_count ("two_contexts", 1);
		q->G += len; m_run (w, x); if (w->over) break;
		TRACE (" generate %.4f until %.4f (context %d)\n", len / 1048576., q->G / 1048576., x);
		if (ends) { BKContextEnd (ctx, (BKFUInt20) len); while (BKContextRead (ctx, b, 2000) > 0); } else { int g = BKContextGenerate (ctx, b, (BKUInt) (len >> 20)); CHECK (g == (int) (len >> 20), "generate", "%d frames instead of %d", g, (int) (len >> 20)); }
		if (vf_failed ()) break;
		CHECK (w->k == w->nev, w->k < w->nev && w->ev[w->k].kind ? "divider-missing" : "clock-missing", "%s %d does not fire at %.6f", w->ev[w->k].kind ? "divider" : "clock", w->ev[w->k].id, w->ev[w->k].now / 1048576.);
		t = BK_TIME_ZERO; BKGetPtr (ctx, BK_TIME, &t, sizeof t); CHECK (un (t) == q->now, "context-time", "context is at %.6f instead of %.6f", un (t) / 1048576., q->now / 1048576.);
		BKGetPtr (ctx, BK_CLOCK_PERIOD, &t, sizeof t); CHECK (un (t) == w->mc[MASTER + x].period, "context-period", "clock period of the context is %.6f instead of %.6f", un (t) / 1048576., w->mc[MASTER + x].period / 1048576.);
	}
	for (int i = 0; i < w->nev && i < 40; i ++) h = vf_mix (h, w->ev[i].kind * 8 + w->ev[i].id);
	if (w->nev > 3) vf_sig (h); if (w->nev > 20 && vf_next (r) % 50 == 0) vf_sample ("%d calls, %d callbacks, until %.2f", calls, w->nev, w->x[0].now / 1048576.);
	w->dead = 1;
	for (int c = 0; c < NC; c ++) BKDispose (&w->c[c]); for (int d = 0; d < ND; d ++) BKDispose (&w->d[d]); for (int x = 0; x < w->nx; x ++) { BKDispose (&w->u[x]); BKDispose (&w->ctx[x]); } free (b); free (w);
}
VF_PROP (T01) { clocks (r, 1); }
VF_PROP (T02) { clocks (r, 2); }
