#include "ref.h"
void rc_init (RefChan *c, size_t nframes, const BKBufferPulse *k) { c->n = nframes + 64; c->acc = calloc (c->n, sizeof *c->acc); c->k = k; c->hp = 0; c->pos = 0; }
void rc_free (RefChan *c) { free (c->acc); c->acc = NULL; }
void rc_step (RefChan *c, uint64_t t, int64_t h)
{
	uint64_t f = t >> 20; const BKFrame *k = c->k->frames[(t >> 15) & 31];
	for (int i = 0; i < 32; i ++) if (f + i < c->n) c->acc[f + i] += (int64_t) k[i] * h;
}
BKFrame rc_next (RefChan *c)
{
	c->hp -= c->hp >> 9; c->hp += c->acc[c->pos ++];
	int64_t a = c->hp >> 14;
	return a > 32767 ? 32767 : a < -32768 ? -32768 : (BKFrame) a;
}
