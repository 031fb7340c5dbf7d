/* Independent reference of the output stage: steps of given heights at given absolute times, rendered with a pulse kernel, high pass
   filtered, limited to 16 bits. Times are absolute 20 bit fractions of frames. */
#ifndef REF_H
#define REF_H
#include "vf.h"
typedef struct { int64_t *acc; size_t n; const BKBufferPulse *k; int64_t hp; size_t pos; } RefChan;
void rc_init (RefChan *c, size_t nframes, const BKBufferPulse *k);
void rc_free (RefChan *c);
void rc_step (RefChan *c, uint64_t t, int64_t height);
BKFrame rc_next (RefChan *c);          /* next output frame, in order */
#endif
