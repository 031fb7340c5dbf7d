/* A scene: a context with voices (tracks and raw units), data, instruments, clocks and dividers, and a plan of operations at given times
   and inside callbacks. The same plan can be executed in different ways, whose results are then compared. */
#ifndef SCENE_H
#define SCENE_H
#include "vf.h"
#define MAXV 8
#define MAXD 6
#define MAXI 4
#define MAXK 5
#define MAXDV 6
#define NCB 24
#define MAXOPS 500

enum { PF_HOSTILE = 1, PF_DISPOSE = 2, PF_LOWVOL = 4, PF_FRACPOS = 8, PF_NOCONFIG = 16, PF_NOCLOCKOPS = 32, PF_TRACKS_ONLY = 64, PF_NOSHARED = 128, PF_NOATTACH = 256,
	PF_DITHER = 512, PF_UNITS_ONLY = 1024 };
typedef struct { uint64_t pos, seed; int kind, v; } Op;      /* v: voice, data, ... index */
typedef struct { int nops; Op op[2]; int ret; uint64_t next; } CbStep;
typedef struct { int n; Op op[MAXOPS]; uint64_t total; } OpList;
typedef struct {
	unsigned flags; int ch, rate, nv, nd, ni, nk, ndv;
	struct { int unit, wave, alloc, vol; } v[MAXV];
	uint64_t dseed[MAXD], iseed[MAXI]; struct { uint64_t period; int cb; int attached; } k[MAXK]; struct { int count, to, cb; } dv[MAXDV];
	CbStep cbv[MAXV][NCB], cbk[MAXK][NCB], cbd[MAXDV][NCB];
	int clockperiod; uint64_t seed;
} Plan;
typedef struct {
	unsigned mask;              /* voices that take part */
	int perm[MAXV]; int useperm;/* order of attachment */
	int fill;                   /* byte that fills memory before objects are initialised, -1: random bytes from the seed */
	int chalt;                  /* channel whose content is altered, -1 none */
	int cbops;                  /* execute the operations of callbacks; 2: but keep periods and dividers */
	int chzero;                 /* the altered channel is silent */
	int nonorm;                 /* skip normalizing (which depends on all channels) */
} RunOpt;
enum { SPLIT_WHOLE, SPLIT_GENERATE, SPLIT_END, SPLIT_TOTIME, SPLIT_ONES, NSPLIT };
typedef struct { int owner, event; int64_t time; } Ev;
typedef struct { Ev *e; size_t n, cap; } Log;
enum { LOGS = MAXV + MAXK + MAXDV };
typedef struct Scene Scene;
struct Scene {
	const Plan *p; RunOpt o; BKContext *ctx; void *v[MAXV]; BKData *d[MAXD]; BKInstrument *in[MAXI]; BKClock *k[MAXK]; BKDivider *dv[MAXDV];
	int vatt[MAXV], katt[MAXK], dvatt[MAXDV], vstat[MAXV], dstat[MAXD], istat[MAXI], kstat[MAXK], dvstat[MAXDV], ctxstat;   /* stat: 0 gone, 1 alive, 2 allocated by the library */
	int ncb[LOGS]; struct { Scene *s; int kind, idx; } cb[LOGS]; Log log[LOGS]; Frames out;
	void *keep[4096]; int nkeep; int depth, inclock[MAXK], indv[MAXDV]; int aborted; uint64_t pos, splitseed, nops_done; int quiet; Rng fillr;
	uint64_t endpos; size_t nread; long refused, accepted; int nounits, hookwrite; void (*hook) (void *); void *hookarg;
};
typedef struct { Scene *s; const OpList *l; int split, i, done; Rng r; uint64_t base; } Player;
void plan_make (Plan *p, Rng *r, unsigned flags);
void plan_ops (OpList *l, const Plan *p, Rng *r, int n, uint64_t totalframes);
Scene *sc_new (const Plan *p, const RunOpt *o);
void sc_play (Scene *s, const OpList *l, int split, uint64_t splitseed);
void pl_init (Player *p, Scene *s, const OpList *l, int split, uint64_t seed);
int  pl_step (Player *p);                /* one request or operation; 0 when finished */
void sc_free (Scene *s);                 /* disposes everything alive */
void sc_dispose_some (Scene *s, Rng *r); /* disposes everything in random order */
void sc_exec (Scene *s, const Op *op);
void sc_clear_results (Scene *s);
void sc_snapshot (Scene *s, Log *l);     /* all readable attributes */
int  sc_same_logs (const char *key, Scene *a, Scene *b, unsigned voices);  /* reports differences */
int  sc_same_snapshot (const char *key, Scene *a, Scene *b, unsigned voices);
int  sc_same_audio (const char *key, Scene *a, Scene *b);
extern const BKEnum sc_int_attrs[]; extern const int sc_n_int_attrs;
void runopt_default (RunOpt *o);
BKInt sc_attr (void *obj, BKEnum attr);
#endif
