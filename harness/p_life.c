/* M01: hostile histories under sanitizers.  M02: disposal in any order. */
#include "scene.h"
static const unsigned mixes[] = {0, PF_FRACPOS, PF_UNITS_ONLY, PF_TRACKS_ONLY, PF_DITHER, PF_FRACPOS | PF_DITHER};
static void opsig (const OpList *l) { for (int i = 1; i < l->n; i ++) vf_sig (vf_mix (vf_mix (l->op[i - 1].kind, l->op[i].kind), l->op[i].pos == l->op[i - 1].pos)); }
VF_PROP (M01)
{
	Plan *p = malloc (sizeof *p); OpList *l = malloc (sizeof *l); int n = 1 + chance (r, 25);
	plan_make (p, r, PF_HOSTILE | PICK (r, mixes) | (chance (r, 30) ? PF_DISPOSE : 0));
	RunOpt o; runopt_default (&o); o.fill = chance (r, 50) ? 0xA5 : -1; Scene *s = sc_new (p, &o);
	for (int i = 0; i < n && !vf_failed (); i ++) {
		uint64_t total = rr (r, 1, chance (r, 15) ? 9000 : 1200); plan_ops (l, p, r, (int) rn (r, chance (r, 30) ? 400 : 60), total);
		sc_play (s, l, (int) rn (r, NSPLIT), vf_next (r)); opsig (l);
		vf_count ("frames", total); vf_count ("ops", l->n);
	}
	vf_count ("ops_done", s->nops_done);
	sc_dispose_some (s, chance (r, 50) ? r : NULL); sc_free (s); free (p); free (l);
}
VF_PROP (M02)
{
	Plan *p = malloc (sizeof *p); OpList *l = malloc (sizeof *l);
	plan_make (p, r, PF_DISPOSE | PICK (r, mixes) | (chance (r, 15) ? PF_HOSTILE : 0));
	RunOpt o; runopt_default (&o); Scene *s = sc_new (p, &o); long before = vf_live_blocks;
	uint64_t total = rr (r, 1, chance (r, 15) ? 9000 : 1500); plan_ops (l, p, r, (int) rn (r, chance (r, 30) ? 400 : 80), total);
	sc_play (s, l, (int) rn (r, NSPLIT), vf_next (r)); vf_count ("ops", s->nops_done); vf_count ("frames", total); (void) before;
	sc_dispose_some (s, r); 
	CHECK (vf_live_blocks == 0, "leak", "%ld blocks, %ld bytes of the library remain after everything was disposed", vf_live_blocks, vf_live_bytes);
	opsig (l); sc_free (s); free (p); free (l);
}
