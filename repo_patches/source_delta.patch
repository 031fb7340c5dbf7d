From 81a3a694cb459980ea2e5d8d394b3c576a1f1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 01/82] fix: don't truncate amplitude steps larger than 16 bits

A step between two full scale levels (e.g. a loud sample or changing the duty
cycle from 8 to 9) has up to 17 bits and lost its sign when added to the buffer.
---
 src/BKBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..5b33bc3 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -147,7 +147,7 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return buf -> time >> BK_FINT20_SHIFT;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-- 
2.43.0


From 05f43e56f84768f3b89efbdf6aa1fed46290fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 02/82] fix: clamp loud mixes instead of overflowing the
 accumulator

Two or more tracks at full volume exceed 32 bits in the buffer's accumulator,
so the output wrapped around instead of being limited.
---
 src/BKBuffer.c | 14 +++++++-------
 src/BKBuffer.h |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..5ff3cc8 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -130,10 +130,10 @@ void BKBufferDispose (BKBuffer * buf)
 
 BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt interlace)
 {
-	BKInt * frames = & buf -> frames [0];
-	BKInt   accum  = buf -> accum;
-	BKUInt  bufferSize;
-	BKInt   amp;
+	int64_t * frames = & buf -> frames [0];
+	int64_t   accum  = buf -> accum;
+	BKUInt    bufferSize;
+	int64_t   amp;
 
 	interlace = BKMax (interlace, 1);          // step must be at least 1
 	size      = BKMin (size, buf -> capacity); // can only read available frames
@@ -146,7 +146,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 
 		// clamp
 		if ((BKFrame) amp != amp)
-			amp = (amp >> BK_FRAME_SHIFT) ^ BK_FRAME_MAX;
+			amp = (amp < 0 ? -1 : 0) ^ (BKInt) BK_FRAME_MAX;
 
 		// write frame
 		(* outFrames) = amp;
@@ -156,9 +156,9 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 	bufferSize = buf -> capacity + BK_STEP_WIDTH + 1;
 
 	// move frames left
-	memmove (& buf -> frames [0], & buf -> frames [size], sizeof (BKInt) * (bufferSize - size));
+	memmove (& buf -> frames [0], & buf -> frames [size], sizeof (buf -> frames [0]) * (bufferSize - size));
 	// zero right gap
-	memset (& buf -> frames [bufferSize - size], 0, sizeof (BKInt) * size);
+	memset (& buf -> frames [bufferSize - size], 0, sizeof (buf -> frames [0]) * size);
 	// reduce remaining capacity
 	buf -> capacity -= size;
 
diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 5b33bc3..93b4dd0 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -49,8 +49,8 @@ struct BKBuffer
 {
 	BKFUInt20             time;
 	BKUInt                capacity;                     // dynamic capacity
-	BKInt                 accum;                        // amplitude accumulator
-	BKInt                 frames [BK_BUFFER_CAPACITY];  // frame buffer
+	int64_t               accum;                        // amplitude accumulator
+	int64_t               frames [BK_BUFFER_CAPACITY];  // frame buffer
 	BKBufferPulse const * pulse;                        // Pulse kernel
 };
 
@@ -151,7 +151,7 @@ BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-	BKInt * frames;
+	int64_t * frames;
 	BKFrame const * phase;
 
 	time   = buf -> time + time;
-- 
2.43.0


From 1600e93492d09c9079b4b5d1cae32bb12ed1f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 03/82] fix: keep frame fraction when shifting buffer time

Ending at a fractional time dropped the fraction from the buffer time but not
from the unit times, which made them drift apart.
---
 src/BKBuffer.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 93b4dd0..ec914f9 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -129,12 +129,9 @@ BK_INLINE BKInt BKBufferEnd (BKBuffer * buf, BKFUInt20 time)
 
 BK_INLINE BKInt BKBufferShift (BKBuffer * buf, BKFUInt20 time)
 {
-	BKFUInt20 maxShift;
-
-	maxShift = buf -> capacity << BK_FINT20_SHIFT;
-
-	if (buf -> time + time > maxShift) {
-		time = maxShift - buf -> time;
+	// only whole frames are limited by the capacity
+	if ((buf -> time + time) >> BK_FINT20_SHIFT > buf -> capacity) {
+		time = (buf -> capacity << BK_FINT20_SHIFT) - buf -> time;
 	}
 
 	buf -> time += time;
-- 
2.43.0


From b5f7a283589e3f5d174aa64579d35f9e9767347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 04/82] fix: overflow in BKTimeMake for more than 2047 samples

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..1c7bb0a 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return (BKTime) samples * BK_FINT20_UNIT + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
-- 
2.43.0


From 9ba215cd74cfc6c23e84b3c32ca4c67baf0087ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 05/82] fix: BKTimeIsGreaterFUInt20 treats values from 2048
 samples as negative

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 1c7bb0a..6061c60 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From 3dec67b1f829036374c5908938a78ad955d23be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 06/82] fix: endless loop when disposing clock with attached
 dividers

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..0b01c7e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From 92d40fe93492d4422dc72baee3095edbc053ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 07/82] fix: don't bind clock to context when attaching before
 foreign clock fails

---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 0b01c7e..39ad23f 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,16 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock && beforeClock -> ctx != ctx)
+			return BK_INVALID_VALUE;
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +111,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +124,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From c605856167c37dd7a43ca5ad50ddd0a36d612cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 08/82] fix: ticks of clocks attached, reset or detached while
 running

The time of a clock starts at 0 when it is attached or reset, but its next tick
was compared to the absolute context time. Attaching, resetting or detaching a
clock after some frames were generated broke the ticks of all clocks.
---
 src/BKContext.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..88f9f38 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -339,26 +339,26 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
 {
 	BKClock * clock;
-	BKTime    nextTime;
+	BKTime    clockDelta;
 	BKTime    deltaTime;
 	BKFUInt20 period;
 
 	do {
-		nextTime = BK_TIME_MAX;
+		deltaTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
 		for (clock = clocks; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
-			// get next time to tick
-			if (BKTimeIsLess (clock -> nextTime, nextTime))
-				nextTime = clock -> nextTime;
+			// get time until next tick; clock times are relative to their reset
+			clockDelta = BKTimeSub (clock -> nextTime, clock -> time);
+
+			if (BKTimeIsLess (clockDelta, deltaTime))
+				deltaTime = clockDelta;
 		}
 	}
 	while (ctx -> flags & BK_CONTEXT_FLAG_CLOCK_RESET);
 
-	deltaTime = BKTimeSub (nextTime, ctx -> currentTime);
-
 	if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 		period = BKTimeGetFUInt20 (deltaTime);
 	}
-- 
2.43.0


From 292746daed553210485290d22bde7a2dffa84782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 09/82] fix: advance context time if no clock is attached

The delta time underflowed in BKContextEnd, so units attached later started at
a wrong time, and BK_TIME stayed at 0.
---
 src/BKContext.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 88f9f38..7a6eca0 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -403,6 +403,11 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
+
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime   = endTime;
+		}
 	}
 
 	return endTime;
-- 
2.43.0


From 5fb59f2d55d730f6fb05cf8ae579bde71adb622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 10/82] fix: generate exactly the frames up to the given time

BKContextGenerateToTime used the time of the next clock tick as time of the last
generated frame, so frames were missing or surplus depending on the clocks, more
than 1024 pending frames were not written, and it never returned without clocks.
---
 src/BKContext.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 7a6eca0..8a69984 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -300,34 +300,38 @@ BKInt BKContextGenerate (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 
 BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write) (BKFrame inFrames [], BKUInt size, void * info), void * info)
 {
+	BKInt size;
 	BKInt numFrames = 0;
-	BKTime deltaTime;
+	BKTime time, deltaTime;
 	BKFUInt20 period;
+	BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-	while (BKTimeIsLess (ctx -> currentTime, endTime)) {
-		deltaTime = BKTimeSub (endTime, ctx -> currentTime);
+	do {
+		// clocks may have been advanced further than the generated frames
+		time = BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime);
 
-		if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
-			period = BKTimeGetFUInt20 (deltaTime);
-		}
-		else {
-			period = BK_INT_MAX / 3;
-		}
+		if (BKTimeIsLess (time, endTime)) {
+			deltaTime = BKTimeSub (endTime, time);
 
-		BKContextEnd (ctx, period);
+			if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
+				period = BKTimeGetFUInt20 (deltaTime);
+			}
+			else {
+				period = BK_INT_MAX / 3;
+			}
 
-		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
-			BKInt size;
-			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
+			BKContextEnd (ctx, period);
+		}
 
-			size = BKContextRead (ctx, frames, BK_MAX_GENERATE_SAMPLES);
+		// write all finished frames
+		while ((size = BKContextRead (ctx, frames, BKMin (BKContextSize (ctx), BK_MAX_GENERATE_SAMPLES))) > 0) {
 			numFrames += size;
 
 			if (write (frames, size, info) != 0)
 				return BK_INVALID_RETURN_VALUE;
 		}
 	}
+	while (BKTimeIsLess (BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime), endTime));
 
 	return numFrames;
 }
-- 
2.43.0


From 9e8f5dd0e2be4cddffca9ee19d27e5c63555dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 11/82] fix: don't read frames which are not finished

Reading more frames than BKContextSize returned frames to which units may still
add; their pulses were then written behind the end of the buffer.
---
 src/BKContext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 8a69984..7352120 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -454,6 +454,9 @@ BKInt BKContextRead (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 {
 	BKBuffer * channel;
 
+	// frames beyond are not finished yet
+	size = BKMin (size, (BKUInt) BKContextSize (ctx));
+
 	// read channels
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
-- 
2.43.0


From 9101d0c41d9cdeed6b680fb2e6b946a5909e3e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 12/82] fix: detach dividers when disposing context

Dividers, including those of tracks, kept pointing into the disposed context.
---
 src/BKContext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 7352120..653e8f4 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -122,6 +122,12 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKBufferDispose (channel);
 	}
 
+	while (ctx -> effectDividers.firstDivider)
+		BKDividerDetach (ctx -> effectDividers.firstDivider);
+
+	while (ctx -> beatDividers.firstDivider)
+		BKDividerDetach (ctx -> beatDividers.firstDivider);
+
 	free (ctx -> channels);
 	BKDispose (& ctx -> masterClock);
 }
-- 
2.43.0


From 031a8325f9ba7e897a853cc9ddbcad5e47565673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 13/82] fix: reset beat and effect dividers when resetting
 context

---
 src/BKContext.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 653e8f4..d5b11fb 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -478,6 +478,7 @@ void BKContextReset (BKContext * ctx)
 	BKUnit   * unit;
 	BKBuffer * channel;
 	BKClock  * clock;
+	BKDivider * divider;
 
 	ctx -> deltaTime   = 0;
 	ctx -> currentTime = BK_TIME_ZERO;
@@ -490,6 +491,12 @@ void BKContextReset (BKContext * ctx)
 	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockReset (clock);
 
+	for (divider = ctx -> effectDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
+	for (divider = ctx -> beatDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferClear (channel);
-- 
2.43.0


From 30270cb150dcba4d241365880e4905ed7030a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 14/82] fix: report failure when attaching an already attached
 divider

---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index d5b11fb..e1eddfc 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -526,7 +526,11 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 	if (group) {
 		// Check if required values set
 		if (BKTimeIsGreater (clock -> period, BK_TIME_ZERO)) {
-			BKDividerAttachToGroup (divider, group);
+			BKInt result = BKDividerAttachToGroup (divider, group);
+
+			if (result < 0)
+				return result;
+
 			BKClockAttach (clock, ctx, ctx -> firstClock);
 		}
 		else {
-- 
2.43.0


From dbee9f93b103b1aee9114dca721d621c5d25f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 15/82] fix: status name of values outside of the status range

---
 src/BKBase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..0800dce 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,7 +48,7 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
+	if (status >= BK_RETURN_TYPE && status <= BK_OTHER_ERROR && statusNames [BK_STATUS_IDX (status)]) {
 		name = statusNames [BK_STATUS_IDX (status)];
 	}
 
-- 
2.43.0


From 4120a25e3c111e1ca2163287197f59c99aa57c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 16/82] fix: BKGetPtr sets unit pointers instead of getting
 them

---
 src/BKUnit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..66492c7 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1271,9 +1271,9 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 	return BKUnitSetPtr (unit, attr, ptr);
 }
 
-static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
+static BKInt BKUnitGetPtrSize (BKUnit const * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From d33459ed374d650eeecd9739f88b89c5c500453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 17/82] fix: lower limit of unit period

---
 src/BKBase.h | 2 +-
 src/BKUnit.c | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BKBase.h b/src/BKBase.h
index ef89a91..cc08f9f 100644
--- a/src/BKBase.h
+++ b/src/BKBase.h
@@ -84,7 +84,7 @@ typedef uint32_t BKFUInt20;  // 12.20 fixed point
 
 #define BK_MAX_CHANNELS 8
 
-#define BK_MIN_PERIOD (BK_FINT20_SHIFT / BK_TRIANGLE_PHASES)
+#define BK_MIN_PERIOD (BK_FINT20_UNIT / BK_WAVE_MAX_LENGTH)
 #define BK_MAX_PERIOD (1 << (BK_FINT20_SHIFT + 4))
 #define BK_MAX_VOLUME ((1 << BK_VOLUME_SHIFT) - 1)
 
diff --git a/src/BKUnit.c b/src/BKUnit.c
index 66492c7..3e73305 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -485,6 +485,8 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_PERIOD: {
+			// negate only if possible
+			value = BKMax (value, -(BKInt) BK_INT_MAX);
 			value = BKMax (BKAbs (value), BK_MIN_PERIOD);
 			unit -> period = value;
 			break;
@@ -530,6 +532,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_SAMPLE_PERIOD: {
+			value = BKClamp (value, -BK_MAX_SAMPLE_PERIOD, BK_MAX_SAMPLE_PERIOD);
 			value = BKAbs (value);
 			value = BKClamp (value, BK_MIN_SAMPLE_PERIOD, BK_MAX_SAMPLE_PERIOD);
 
-- 
2.43.0


From f3a464be9b78f236da0fa1162d16a889284a7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 18/82] fix: repeat mode returned by sample callback is ignored

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 3e73305..527c952 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -223,7 +223,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
-- 
2.43.0


From 59d15186f44c60c68effdd050053460d1b8e30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 19/82] fix: phase beyond sample end when turning around

---
 src/BKUnit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 527c952..52c417e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1079,7 +1079,8 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			else if (resetDir == -1) {
-				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
+				// phase is 0 if exactly one length was passed
+				unit -> phase.phase = BKMin (unit -> sample.length - unit -> phase.phase, unit -> sample.length - 1);
 			}
 			mode = -resetDir;
 			break;
-- 
2.43.0


From a5ca1df07ed96890420595e19749dc7faa646ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 20/82] fix: keep sustain range within sample range

---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 52c417e..a226867 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -370,7 +370,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// relative to current sample range
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -557,7 +558,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
-- 
2.43.0


From 029f69eaecaa0ff6a6a55860aa130027b985fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 21/82] fix: sample is not sustained if sustain range ends at
 sample end

---
 src/BKUnit.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index a226867..42b2f9e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1158,13 +1158,6 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 		unit -> phase.phase += (unit -> sample.timeFrac >> BK_FINT20_SHIFT) - (lastTime >> BK_FINT20_SHIFT);
 		unit -> sample.timeFrac &= BK_FINT20_FRAC;
 
-		// check phase boundary
-		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
-			if (BKUnitResetSample (unit) == 1) {
-				break;
-			}
-		}
-
 		// check for sustain range boundary
 		if (checkBounds) {
 			if (unit -> sample.period > 0) {
@@ -1178,6 +1171,13 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 				}
 			}
 		}
+
+		// check phase boundary
+		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
+			if (BKUnitResetSample (unit) == 1) {
+				break;
+			}
+		}
 	}
 
 	return time;
-- 
2.43.0


From f30e89691597600b0f4608acbcf023da35a26d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 22/82] fix: forward sample range starts at its last frame

---
 src/BKUnit.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 42b2f9e..7484236 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -349,12 +349,13 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 	// if not playing yet
 	if (unit -> sample.repeatCount == 0) {
 		// set sample phase to begin if sample phase is at end
-		if (unit -> sample.offset < unit -> sample.end && unit -> phase.phase == unit -> sample.length - 1) {
-			newPhase = 0;
+		if (unit -> sample.offset < unit -> sample.end) {
+			if (unit -> phase.phase == unit -> sample.length - 1)
+				newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
 		else if (unit -> phase.phase == 0) {
-			newPhase = unit -> sample.length - 1;
+			newPhase = BKMax (newLength - 1, 0);
 		}
 	}
 
-- 
2.43.0


From 87965d75f0dd7cba9ae53fd7a2138a27c45def52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 23/82] fix: sample changed by its callback

---
 src/BKUnit.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 7484236..7520d5d 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1052,6 +1052,18 @@ static BKInt BKUnitWrapSamplePhase (BKUnit * unit, BKInt min, BKInt max)
 	return resetDir;
 }
 
+/**
+ * Check if unit has a valid sample range
+ */
+static BKInt BKUnitSampleIsPlayable (BKUnit const * unit)
+{
+	if (unit -> waveform != BK_SAMPLE) {
+		return 0;
+	}
+
+	return BKAbs ((BKInt) unit -> sample.end - (BKInt) unit -> sample.offset) >= 2;
+}
+
 static BKInt BKUnitResetSample (BKUnit * unit)
 {
 	BKInt repeatMode, resetDir;
@@ -1062,6 +1074,11 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 
 	if (unit -> sample.callback.func) {
 		repeatMode = BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_RESET);
+
+		// sample or range may have been changed by callback
+		if (!BKUnitSampleIsPlayable (unit)) {
+			return 1;
+		}
 	}
 
 	resetDir = BKUnitWrapSamplePhase (unit, 0, unit -> sample.length);
@@ -1122,7 +1139,6 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 	BKInt      volume;
 	BKBuffer * channel;
 	BKInt      pulse, delta, chanDelta;
-	BKInt      checkBounds;
 	BKFrame  * frames;
 
 	// muted
@@ -1131,12 +1147,10 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 	}
 
 	// prevent invalid sample length
-	if (BKAbs ((BKInt) unit -> sample.end - (BKInt) unit -> sample.offset) < 2) {
+	if (!BKUnitSampleIsPlayable (unit)) {
 		return endTime;
 	}
 
-	checkBounds = (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
-
 	for (time = unit -> time; time < endTime; time += BK_FINT20_UNIT) {
 		frames = & unit -> sample.frames [unit -> phase.phase * unit -> sample.numChannels];
 
@@ -1160,7 +1174,7 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 		unit -> sample.timeFrac &= BK_FINT20_FRAC;
 
 		// check for sustain range boundary
-		if (checkBounds) {
+		if ((unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease)) {
 			if (unit -> sample.period > 0) {
 				if ((BKInt) unit -> phase.phase >= (BKInt) unit -> sample.sustainEnd) {
 					unit -> phase.phase = unit -> sample.sustainOffset;
-- 
2.43.0


From 903db848e7675d96be14feee34b4264849fa4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 24/82] fix: detached units keep using disposed or unsuitable
 data

---
 src/BKUnit.c | 77 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 7520d5d..2cb9943 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -75,14 +75,34 @@ static BKFrame const sinePhases [BK_SINE_PHASES] =
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event);
 static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt end);
 
+/**
+ * Disable sample or custom waveform
+ */
+static void BKUnitUnsetData (BKUnit * unit)
+{
+	switch (unit -> waveform) {
+		case BK_CUSTOM:
+		case BK_SAMPLE: {
+			unit -> waveform             = 0;
+			unit -> phase.phase          = 0; // reset phase
+			unit -> sample.length        = 0;
+			unit -> sample.offset        = 0;
+			unit -> sample.end           = 0;
+			unit -> sample.sustainOffset = 0;
+			unit -> sample.sustainEnd    = 0;
+			unit -> sample.frames        = NULL;
+			unit -> sample.repeatMode    = 0;
+
+			BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+			break;
+		}
+	}
+}
+
 static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum event)
 {
 	BKContext * ctx = unit -> ctx;
 
-	if (ctx == NULL) {
-		return BK_INVALID_STATE;
-	}
-
 	switch (type) {
 		// set data as custom waveform
 		case BK_WAVEFORM: {
@@ -101,12 +121,8 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				}
 			}
 			// data was disposed
-			else if (unit -> waveform == BK_CUSTOM) {
-				unit -> waveform      = 0;
-				unit -> sample.offset = 0;
-				unit -> sample.end    = 0;
-				unit -> sample.frames = NULL;
-				return -1;
+			else {
+				BKUnitUnsetData (unit);
 			}
 
 			break;
@@ -116,7 +132,7 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 			if (data && event != BK_DATA_STATE_EVENT_DISPOSE) {
 				// number of channels must eighter be 1 or equal to
 				// number of context channels
-				if (data -> numChannels != 1 && data -> numChannels != ctx -> numChannels) {
+				if (data -> numChannels != 1 && ctx && data -> numChannels != ctx -> numChannels) {
 					return BK_INVALID_NUM_CHANNELS;
 				}
 				else if (data -> numFrames < 2) {
@@ -143,17 +159,8 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				}
 			}
 			// disable sample
-			else if (unit -> waveform == BK_SAMPLE) {
-				unit -> waveform             = 0;
-				unit -> sample.offset        = 0;
-				unit -> sample.end           = 0;
-				unit -> sample.sustainOffset = 0;
-				unit -> sample.sustainEnd    = 0;
-				unit -> sample.frames        = NULL;
-				unit -> phase.phase          = 0; // reset phase
-				unit -> sample.repeatMode    = 0;
-
-				BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+			else {
+				BKUnitUnsetData (unit);
 			}
 
 			break;
@@ -171,20 +178,20 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 {
 	BKInt res;
 
-	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	if (data && unit -> ctx == NULL) {
+		res = BK_INVALID_STATE;
+	}
+	else {
+		res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	}
 
 	if (res == 0) {
 		BKDataStateSetData (& unit -> sample.dataState, data);
 	}
 	// unset data when failed
 	else {
-		switch (unit -> waveform) {
-			case BK_CUSTOM:
-			case BK_SAMPLE: {
-				unit -> waveform = 0;
-				break;
-			}
-		}
+		BKUnitUnsetData (unit);
+		BKDataStateSetData (& unit -> sample.dataState, NULL);
 	}
 
 	return res;
@@ -193,6 +200,7 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
 	BKEnum type;
+	BKInt  res;
 
 	switch (unit -> waveform) {
 		case BK_CUSTOM: {
@@ -210,7 +218,14 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// unset data when failed
+	if (res < 0) {
+		BKUnitUnsetData (unit);
+	}
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
-- 
2.43.0


From d7d1c13003c3f032e126f816b928f49657e17686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 25/82] fix: sample with different number of channels than new
 context

---
 src/BKUnit.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 2cb9943..be5eb13 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -289,6 +289,11 @@ BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 			ctx -> firstUnit = unit;
 			ctx -> lastUnit  = unit;
 		}
+
+		// sample may have been set in a context with another number of channels
+		if (unit -> waveform == BK_SAMPLE && unit -> sample.numChannels != 1 && unit -> sample.numChannels != ctx -> numChannels) {
+			BKUnitSetData (unit, BK_SAMPLE, NULL);
+		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From e5ea71b85e1fea9d8b2d4db19546430b6f9e4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 26/82] fix: clearing track loses its data callback

---
 src/BKUnit.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index be5eb13..300e00e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1282,8 +1282,6 @@ void BKUnitClear (BKUnit * unit)
 	unit -> sample.sustainEnd                 = 0;
 	unit -> sample.period                     = BK_FINT20_UNIT;
 	unit -> sample.timeFrac                   = 0;
-	unit -> sample.dataState.callback         = (void *) BKUnitSampleDataStateCallback;
-	unit -> sample.dataState.callbackUserInfo = unit;
 
 	// reset sample range
 	if (unit -> sample.dataState.data)
-- 
2.43.0


From 4ffa67651c330a078a27de0755ddc1cc8e4cad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 27/82] fix: keep list of data users linked when removing some
 of them

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..df1c1ea 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From abb5f03db69b51951f5b98d97fd9d84beae55883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 28/82] fix: copy of data object can not be disposed

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index df1c1ea..db16bf2 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -192,7 +192,8 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 
 	memcpy (copy, original, sizeof (BKData));
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
+	// frames are set below
+	copy -> object.flags = BKObjectFlagInitialized;
 	copy -> stateList = NULL;
 	copy -> frames    = NULL;
 
-- 
2.43.0


From 8e0c0baffde87f30081533a32187de1fec6f623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 29/82] fix: frames not copied are released when replaced

---
 src/BKData.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index db16bf2..4d74fcd 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -334,7 +334,7 @@ static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr)
 
 BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames, BKUInt numChannels, BKInt copy)
 {
-	BKUInt    size;
+	BKUSize   size;
 	BKFrame * newFrames;
 
 	// need at least 2 phases
@@ -344,35 +344,32 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
 		return BK_INVALID_NUM_CHANNELS;
 
-	size = numFrames * numChannels * sizeof (BKFrame);
+	if (frames == NULL)
+		return BK_INVALID_VALUE;
+
+	size = (BKUSize) numFrames * numChannels * sizeof (BKFrame);
 
 	if (copy) {
-		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-			newFrames = realloc (data -> frames, size);
-		}
-		else {
-			newFrames = malloc (size);
-		}
+		newFrames = malloc (size);
 
 		if (newFrames == NULL)
-			return -1;
-
-		data -> object.flags |= BK_DATA_FLAG_COPY;
+			return BK_ALLOCATION_ERROR;
 
 		memcpy (newFrames, frames, size);
 	}
 	else {
-		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-			free (data -> frames);
-		}
-
 		newFrames = (BKFrame *) frames;
 	}
 
-	if (newFrames == NULL) {
-		return -1;
+	// own frames may be part of new frames
+	if ((data -> object.flags & BK_DATA_FLAG_COPY) && data -> frames != newFrames) {
+		free (data -> frames);
+		data -> object.flags &= ~BK_DATA_FLAG_COPY;
 	}
 
+	if (copy)
+		data -> object.flags |= BK_DATA_FLAG_COPY;
+
 	data -> frames      = newFrames;
 	data -> numFrames   = numFrames;
 	data -> numChannels = numChannels;
-- 
2.43.0


From deadd5dc70ac91909a657e1911007a533a2b17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 30/82] fix: lower byte of 16 bit frames with reversed byte
 order is lost

---
 src/BKData.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 4d74fcd..8beed75 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -519,9 +519,10 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 16: {
 				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
+					outFrames [0] = (charData [0] << 8) | charData [1];
 				} else {
-					outFrames [0] =  (* (BKFrame *) charData);
+					// may not be aligned
+					memcpy (outFrames, charData, sizeof (BKFrame));
 				}
 
 				charData += 2;
-- 
2.43.0


From 2e67137544e0b753a276a5a7d33ba5a73452a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 31/82] fix: negative frames of signed 8 bit data

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 8beed75..c07caf2 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -508,7 +508,8 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					BKInt frame = (* (signed char *) charData) * (BKInt) BK_FRAME_MAX / 127;
+					outFrames [0] = BKMax (frame, -(BKInt) BK_FRAME_MAX - 1);
 				} else {
 					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
 				}
-- 
2.43.0


From 202b932f275eda4f4afa5bdf36c1502186524026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 32/82] fix: ownership, size and users of data set from raw
 frames

---
 src/BKData.c | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index c07caf2..2e42f13 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -159,6 +159,18 @@ static BKInt BKDataPromoteToCopy (BKData * data)
 	return 0;
 }
 
+/**
+ * Replace frames with allocated frames
+ */
+static void BKDataReplaceFrames (BKData * data, BKFrame * frames)
+{
+	if (data -> object.flags & BK_DATA_FLAG_COPY)
+		free (data -> frames);
+
+	data -> frames = frames;
+	data -> object.flags |= BK_DATA_FLAG_COPY;
+}
+
 BKInt BKDataInit (BKData * data)
 {
 	return BKObjectInit (data, & BKDataClass, sizeof (BKData));
@@ -438,9 +450,9 @@ static BKInt BKDataNumBitsFromParam (BKEnum param, BKUInt * outNumBits, BKInt *
 
 static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
 {
-	BKInt numFrames = 0;
-	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
+	int64_t numFrames = 0;
+	int64_t packetSize;
+	int64_t dataSizeBits = (int64_t) dataSize * 8;
 
 	if (numBits <= 8) {
 		packetSize = (numBits * numChannels);
@@ -452,6 +464,9 @@ static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBit
 
 	numFrames = dataSizeBits / packetSize * numChannels;
 
+	if (numFrames > BK_INT_MAX)
+		return -1;
+
 	return numFrames;
 }
 
@@ -470,7 +485,9 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 		case 16: mask = 2; break;
 	}
 
-	dataSize -= (dataSize % (mask * numChannels));
+	// frames with less than 8 bits may end within a byte
+	if (numBits >= 8)
+		dataSize -= (dataSize % (mask * numChannels));
 
 	for (charData = data; (void *) charData < data + dataSize;) {
 		switch (numBits) {
@@ -546,6 +563,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	BKUInt    numBits;
 	BKInt     isSigned, reverseEndian = 0;
 	BKInt     numFrames;
+	BKSize    size;
 	BKFrame * frames;
 
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
@@ -562,24 +580,30 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	if (numFrames < 0)
 		return BK_INVALID_NUM_BITS;
 
-	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
-	}
-	else {
-		frames = malloc (numFrames * sizeof (BKFrame));
-	}
+	// need at least 2 phases
+	if (numFrames / numChannels < 2)
+		return BK_INVALID_NUM_FRAMES;
+
+	// whole bytes are converted
+	size   = numBits < 8 ? (BKSize) dataSize * (8 / numBits) : numFrames;
+	frames = malloc (size * sizeof (BKFrame));
 
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
 
-	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0)
+	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0) {
+		free (frames);
 		return -1;
+	}
+
+	BKDataReplaceFrames (data, frames);
 
-	data -> frames      = frames;
 	data -> numFrames   = numFrames / numChannels;
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 386b5bf0df4f00b24741192f9a45a0f3c8651de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 33/82] fix: file errors are ignored when loading raw data

---
 src/BKData.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 2e42f13..09b3596 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -619,22 +619,37 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 		return BK_FILE_ERROR;
 	}
 
-	fseek (file, 0, SEEK_END);
+	if (fseek (file, 0, SEEK_END) != 0) {
+		return BK_FILE_ERROR;
+	}
+
 	size = ftell (file);
 
-	if (size < 0) {
+	if (size < 0 || fseek (file, offset, SEEK_SET) != 0) {
 		return BK_FILE_ERROR;
 	}
 
 	size -= offset;
+
+	if (size <= 0) {
+		return BK_INVALID_NUM_FRAMES;
+	}
+
+	// does not fit into data size
+	if ((BKUInt) size != size) {
+		return BK_FILE_ERROR;
+	}
+
 	frames = malloc (size);
 
 	if (frames == NULL) {
 		return BK_ALLOCATION_ERROR;
 	}
 
-	fseek (file, offset, SEEK_SET);
-	fread (frames, sizeof (char), size, file);
+	if (fread (frames, sizeof (char), size, file) < size) {
+		free (frames);
+		return BK_FILE_ERROR;
+	}
 
 	ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
 
-- 
2.43.0


From c52e13867bf6a040c735b8a19c2489a55db0299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 34/82] fix: leaks and stale users when loading WAVE data

---
 src/BKData.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 09b3596..3c255ee 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -670,10 +670,11 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadHeader (& reader, & numChannels, & sampleRate, & numFrames) < 0) {
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	size   = numFrames * numChannels * sizeof (BKFrame);
+	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
 	if (frames == NULL) {
@@ -683,18 +684,21 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	if (BKWaveFileReaderReadFrames (& reader, frames) < 0) {
 		free (frames);
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	data -> object.flags |= BK_DATA_FLAG_COPY;
+	BKDataReplaceFrames (data, frames);
+
 	data -> numBits       = 16;
 	data -> sampleRate    = sampleRate;
 	data -> numFrames     = numFrames;
 	data -> numChannels   = numChannels;
-	data -> frames        = frames;
 
 	BKDispose (& reader);
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 95b202fde11c0a47b0dc6393e0e1ed93327e0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 35/82] fix: normalizing does not affect users of not copied
 frames

---
 src/BKData.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 3c255ee..bb1261c 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -707,6 +707,7 @@ BKInt BKDataNormalize (BKData * data)
 	BKInt res = 0;
 	BKInt value, maxValue = 0;
 	BKInt factor;
+	BKFrame const * oldFrames = data -> frames;
 
 	res = BKDataPromoteToCopy (data);
 
@@ -727,6 +728,10 @@ BKInt BKDataNormalize (BKData * data)
 			data -> frames [i] = (data -> frames [i] * factor) >> 16;
 	}
 
+	// frames were copied
+	if (data -> frames != oldFrames)
+		BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From b2df6f79d218664654e553432c6dedbb34b8ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 36/82] fix: converted frames are never released

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index bb1261c..602c6bc 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -824,7 +824,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	BKSize length;
 	BKDataConvertInfo validatedInfo;
 
-	length = data -> numFrames * data -> numChannels;
+	length = (BKSize) data -> numFrames * data -> numChannels;
 
 	validatedInfo = (* info);
 
@@ -856,6 +856,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
 
 	data -> frames = convertedFrames;
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 
-- 
2.43.0


From af509259e11d6e383c24578c3991167f2866dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 37/82] fix: reading WAVE files with extended format, leading
 or odd sized chunks

---
 src/BKWaveFileReader.c | 57 ++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..9a144eb 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -94,6 +94,8 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 {
 	BKSize size;
 	BKSize frameSize;
+	BKSize chunkSize, padding;
+	BKInt  hasFormat = 0;
 	BKWaveFileHeader header;
 	BKWaveFileHeaderFmt headerFmt;
 	BKWaveFileHeaderData headerData;
@@ -113,26 +115,6 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
-		size = fread (& headerFmt, 1, sizeof (headerFmt), reader -> file);
-
-		if (size < sizeof (headerFmt)) {
-			return -1;
-		}
-
-		BKWaveFileHeaderFmtRead (& headerFmt);
-
-		if (memcmp (headerFmt.subchunkID, "fmt ", 4) != 0) {
-			return -1;
-		}
-
-		if (headerFmt.audioFormat != 1) {
-			return -1;
-		}
-
-		if (headerFmt.bitsPerSample != 8 && headerFmt.bitsPerSample != 16) {
-			return -1;
-		}
-
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
@@ -146,11 +128,44 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 				break;
 			}
 
+			chunkSize = headerData.subchunkSize;
+			padding   = chunkSize & 1; // subchunks are aligned to 2 bytes
+
+			if (memcmp (headerData.subchunkID, "fmt ", 4) == 0) {
+				size = sizeof (headerFmt) - sizeof (headerData);
+
+				if (chunkSize < size) {
+					return -1;
+				}
+
+				if (fread (& headerFmt.audioFormat, 1, size, reader -> file) < size) {
+					return -1;
+				}
+
+				BKWaveFileHeaderFmtRead (& headerFmt);
+				chunkSize -= size;
+				hasFormat = 1;
+			}
+
 			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			if (fseek (reader -> file, chunkSize + padding, SEEK_CUR) != 0) {
+				return -1;
+			}
 		}
 		while (1);
 
+		if (!hasFormat) {
+			return -1;
+		}
+
+		if (headerFmt.audioFormat != 1) {
+			return -1;
+		}
+
+		if (headerFmt.bitsPerSample != 8 && headerFmt.bitsPerSample != 16) {
+			return -1;
+		}
+
 		reader -> sampleRate  = headerFmt.sampleRate;
 		reader -> numChannels = headerFmt.numChannels;
 		reader -> numBits     = headerFmt.bitsPerSample;
-- 
2.43.0


From 5cffdb39506277d624b87abee22e07fab094715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 38/82] fix: invalid or truncated WAVE files

---
 src/BKData.c           |  5 +++++
 src/BKWaveFileReader.c | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 602c6bc..d13f5a4 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -674,6 +674,11 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	if (numFrames < 1) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_FRAMES;
+	}
+
 	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 9a144eb..32b621c 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -166,6 +166,10 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels == 0 || headerFmt.sampleRate == 0 || headerFmt.sampleRate > BK_INT_MAX) {
+			return -1;
+		}
+
 		reader -> sampleRate  = headerFmt.sampleRate;
 		reader -> numChannels = headerFmt.numChannels;
 		reader -> numBits     = headerFmt.bitsPerSample;
@@ -189,16 +193,32 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			BKSize size;
 			BKSize cur = ftell (reader -> file);
 
-			if (fseek (reader -> file, 0, SEEK_END) < 0) {
+			reader -> sampleRate = 0; // header is not valid if failing
+
+			if (cur < 0 || fseek (reader -> file, 0, SEEK_END) < 0) {
 				return -1;
 			}
 
 			size = ftell (reader -> file);
-			fseek (reader -> file, cur, SEEK_SET);
+
+			if (size < cur || fseek (reader -> file, cur, SEEK_SET) < 0) {
+				return -1;
+			}
+
+			reader -> sampleRate = headerFmt.sampleRate;
 			reader -> dataSize = size - cur;
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		size = reader -> dataSize / reader -> numChannels / frameSize;
+
+		if (size > BK_INT_MAX) {
+			reader -> sampleRate = 0;
+			return -1;
+		}
+
+		reader -> numFrames = (BKInt) size;
+		// only whole frames are read
+		reader -> dataSize = size * reader -> numChannels * frameSize;
 	}
 
 	* outNumChannels = reader -> numChannels;
@@ -246,6 +266,10 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 
 		// truncated
 		if (readSize == 0) {
+			if (ferror (reader -> file)) {
+				return BK_FILE_ERROR;
+			}
+
 			break;
 		}
 
@@ -283,8 +307,8 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	// empty trailing frames if any
+	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From 3f2d3d591fab7c26db98cb50e06de8a7b15baaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 39/82] fix: disposing WAVE writer after failed initialization

---
 src/BKWaveFileWriter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..fb32889 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -92,10 +92,6 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return res;
 	}
 
-	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
-		return res;
-	}
-
 	if (!numBits) {
 		numBits = 16;
 	}
@@ -103,6 +99,10 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return BK_INVALID_VALUE;
 	}
 
+	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
+		return res;
+	}
+
 	writer -> file          = file;
 	writer -> initOffset    = ftell (file);
 	writer -> sampleRate    = sampleRate;
-- 
2.43.0


From 969aa341328be876d5de91d95fc74fe402180164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 40/82] fix: header of empty WAVE files and files not starting
 at offset 0

---
 src/BKWaveFileWriter.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index fb32889..f73db23 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -155,7 +155,8 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
 	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	// size without first header fields
+	writer -> fileSize += sizeof (header) + sizeof (fmtHeader) + sizeof (dataHeader) - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
@@ -219,6 +220,13 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	// no frames were appended
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return BK_FILE_ERROR;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
-- 
2.43.0


From 3e9b0fed35c04088edf7370f2341f6ca49dc8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 41/82] fix: write errors are not reported by WAVE writer

---
 src/BKWaveFileWriter.c | 63 +++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index f73db23..3c53886 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -151,9 +151,17 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 		fmtHeader.byteRate      = BKInt32Reverse (fmtHeader.byteRate);
 	}
 
-	fwrite (& header, sizeof (header), 1, writer -> file);
-	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
-	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
+	if (fwrite (& header, sizeof (header), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
+
+	if (fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
+
+	if (fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
 
 	// size without first header fields
 	writer -> fileSize += sizeof (header) + sizeof (fmtHeader) + sizeof (dataHeader) - 8;
@@ -171,13 +179,17 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 	BKSize  bufferSize = 1024;
 	BKFrame buffer [bufferSize];
 
+	if (numFrames < 0) {
+		return BK_INVALID_NUM_FRAMES;
+	}
+
 	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
 		if (BKWaveFileWriterWriteHeader (writer) < 0) {
-			return -1;
+			return BK_FILE_ERROR;
 		}
 	}
 
-	dataSize = (numBits / 8) * numFrames;
+	dataSize = (BKSize) (numBits / 8) * numFrames;
 
 	//float f = 0.0;
 
@@ -200,11 +212,15 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 			frames += writeSize;
 			numFrames -= writeSize;
 
-			fwrite (buffer, numBits / 8, writeSize, writer -> file);
+			if (fwrite (buffer, numBits / 8, writeSize, writer -> file) < writeSize) {
+				return BK_FILE_ERROR;
+			}
 		}
 	}
 	else {
-		fwrite (frames, sizeof (BKFrame), numFrames, writer -> file);
+		if (fwrite (frames, sizeof (BKFrame), numFrames, writer -> file) < numFrames) {
+			return BK_FILE_ERROR;
+		}
 	}
 
 	writer -> fileSize += dataSize;
@@ -234,8 +250,13 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0) {
+		return BK_FILE_ERROR;
+	}
+
+	if (fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
 
 	offset = writer -> initOffset + sizeof (BKWaveFileHeader) + sizeof (BKWaveFileHeaderFmt);
 	offset += offsetof (BKWaveFileHeaderData, subchunkSize);
@@ -246,11 +267,17 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0) {
+		return BK_FILE_ERROR;
+	}
 
-	fseek (writer -> file, 0, SEEK_END);
-	fflush (writer -> file);
+	if (fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) < 1) {
+		return BK_FILE_ERROR;
+	}
+
+	if (fseek (writer -> file, 0, SEEK_END) != 0 || fflush (writer -> file) != 0) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> object.flags |= BKWaveFileFlagTerminated;
 
@@ -259,18 +286,22 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 
 BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, BKInt numBits)
 {
+	BKInt res;
 	BKWaveFileWriter writer;
 
 	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
 		return -1;
 	}
 
-	BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
-	BKWaveFileWriterTerminate (& writer);
+	res = BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
+
+	if (res == 0) {
+		res = BKWaveFileWriterTerminate (& writer);
+	}
 
 	BKDispose (& writer);
 
-	return 0;
+	return res;
 }
 
 BKClass BKWaveFileWriterClass =
-- 
2.43.0


From 00a305f27db62fe2534931c60f0ed89a4b6c8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 42/82] fix: number of channels and sample rate swapped when
 writing data object

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 3c53886..e247979 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -289,7 +289,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 	BKInt res;
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From 2adb8d301c9d5980f5ad4e0fce9d452290a592b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 43/82] fix: copied sequences use values of the original

---
 src/BKSequence.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..904a3d3 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -121,10 +121,12 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 	copy = malloc (sizeof (* copy) + size);
 
 	if (copy) {
+		memcpy (copy, sequence, sizeof (* copy));
+
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
-		memcpy (copy, sequence, sizeof (* copy));
 		memcpy (copy -> values, sequence -> values, size);
 
 		* outCopy = copy;
@@ -364,10 +366,12 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 	copy = malloc (sizeof (* copy) + size);
 
 	if (copy) {
+		memcpy (copy, sequence, sizeof (* copy));
+
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
-		memcpy (copy, sequence, sizeof (* copy));
 		memcpy (copy -> values, sequence -> values, size);
 
 		* outCopy = copy;
-- 
2.43.0


From dafc81cb10594488f31ec85e0cc459013aa61085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 44/82] fix: copy of instrument can not be disposed

---
 src/BKInstrument.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..4e7cc79 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,9 +117,12 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	res = BKInstrumentInit (copy);
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	if (res < 0)
+		return res;
+
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
 	copy -> numSequences = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
@@ -128,8 +131,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
-- 
2.43.0


From 2ae8c3ef4d96b2f352a3f34b91e9e0c2eabc47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 45/82] fix: finished envelope ends instrument before other
 sequences have finished

---
 src/BKSequence.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 904a3d3..625251c 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -335,7 +335,8 @@ static BKInt BKSequenceFuncEnvelopeSetPhase (BKSequenceState * state, BKEnum pha
 
 	if (result == BK_SEQUENCE_RETURN_NONE) {
 		if (state -> offset >= sequence -> length) {
-			state -> offset = sequence -> length;
+			// prevents finishing again with next step
+			state -> offset = BK_INT_MAX;
 			result = BK_SEQUENCE_RETURN_FINISH;
 		}
 	}
-- 
2.43.0


From 966ea120685871c15c016c7cde05a2667aa9ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 46/82] fix: envelope with small values overflows when sliding
 from duty cycle

---
 src/BKSequence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 625251c..fcefc02 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -168,6 +168,9 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
 	BKInt shift    = 0;
 	BKInt maxValue = BKSequencePhaseGetMaxAbsValue (phases, length);
 
+	// envelope can slide from a duty cycle value set from outside
+	maxValue = BKMax (maxValue, BK_SQUARE_PHASES);
+
 	// shift must be smaller than maximum value
 	// reduce by one bit to allow enough delta to slide from maximum to minimum
 	while ((1 << shift) <= maxValue && shift < 30)
-- 
2.43.0


From 04101294eed3c241ceb455c12189039ec7b9f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 47/82] fix: slow falling slides miss their end value

---
 src/BKInterpolation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..1692d9f 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -37,7 +37,8 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		// prevent division by 0
 		if ((deltaValue >> state -> valueShift)) {
 			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
-			roundBias = (roundBias * (stepDelta >> stepShift));
+			// don't use shift as it would round small negative values to -1
+			roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 		}
 
 		state -> endValue  = endValue;
@@ -51,6 +52,7 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		state -> endValue  = state -> value;
 		state -> steps     = 0;
 		state -> stepDelta = 0;
+		state -> roundBias = 0;
 		state -> step      = 0;
 	}
 }
@@ -100,7 +102,8 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			// prevent division by 0
 			if (delta >> state -> valueShift) {
 				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
-				roundBias = (roundBias * (stepDelta >> stepShift));
+				// don't use shift as it would round small negative values to -1
+			roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 			}
 
 			switch (state -> phase) {
@@ -141,6 +144,7 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 		state -> steps     = 0;
 		state -> value     = 0;
 		state -> stepDelta = 0;
+		state -> roundBias = 0;
 		state -> phase     = 0;
 		state -> step      = 0;
 	}
-- 
2.43.0


From 9aeb79c81b14ca8a1c2d2c97f6f12494cf0ca0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 48/82] fix: scaled values returned for tremolo and vibrato

---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..6989bc4 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -950,14 +950,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From 4e5a591f9bb3325263d4e3f7bf84e066b9d6dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 49/82] fix: invalid number of arpeggio notes and size of
 arpeggio array

---
 src/BKTrack.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 6989bc4..d5e179f 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -211,7 +211,9 @@ static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt co
 		state -> offset = 0;
 	}
 
-	memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+	if (count > 0)
+		memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+
 	BKBitSetCond (track -> flags, BKArpeggioFlag, count > 0);
 
 	track -> flags |= BKTrackAttrUpdateFlagNote;
@@ -1027,12 +1029,18 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 				}
 				case BK_ARPEGGIO: {
 					BKInt * arpeggio = ptr;
-					BKUInt  count    = 0;
+					BKInt   maxCount = BK_MAX_ARPEGGIO;
+					BKInt   count    = 0;
+
+					if (arpeggio && size >= sizeof (BKInt)) {
+						// don't read beyond given size
+						if (size / sizeof (BKInt) - 1 < BK_MAX_ARPEGGIO)
+							maxCount = size / sizeof (BKInt) - 1;
 
-					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+						count = BKClamp (arpeggio [0], 0, maxCount);
+					}
 
-					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
+					BKTrackArpeggioSetNotes (track, arpeggio ? & arpeggio [1] : NULL, count);
 
 					break;
 				}
@@ -1075,11 +1083,14 @@ static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr
 					break;
 				}
 				case BK_ARPEGGIO: {
-					BKInt * arpeggio = outPtr;
+					BKInt arpeggio [BK_MAX_ARPEGGIO + 1] = {0};
 
 					arpeggio [0] = track -> arpeggio.count;
 					memcpy (& arpeggio [1], track -> arpeggio.notes, sizeof (BKInt) * track -> arpeggio.count);
 
+					// don't write beyond given size
+					memcpy (outPtr, arpeggio, BKMin (size, sizeof (BKInt) * (track -> arpeggio.count + 1)));
+
 					break;
 				}
 				default: {
-- 
2.43.0


From 449cc4261b219f573b31bf833945daeb61311d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 50/82] fix: BKTrackSetPtr disables effects and arpeggio
 instead of setting them

---
 src/BKTrack.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index d5e179f..3edff68 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1057,9 +1057,26 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 	return 0;
 }
 
+/**
+ * Size of values for functions which have no size argument
+ */
+static BKSize BKTrackPtrDefaultSize (BKEnum attr)
+{
+	BKSize size = 0;
+
+	if ((attr & BK_ATTR_TYPE_MASK) == BK_EFFECT_TYPE) {
+		size = 2 * sizeof (BKInt);
+	}
+	else if (attr == BK_ARPEGGIO) {
+		size = (BK_MAX_ARPEGGIO + 1) * sizeof (BKInt);
+	}
+
+	return size;
+}
+
 BKInt BKTrackSetPtr (BKTrack * track, BKEnum attr, void * ptr)
 {
-	return BKTrackSetPtrObj (track, attr, ptr, 0);
+	return BKTrackSetPtrObj (track, attr, ptr, BKTrackPtrDefaultSize (attr));
 }
 
 static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr, BKSize size)
@@ -1108,7 +1125,7 @@ static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr
 
 BKInt BKTrackGetPtr (BKTrack const * track, BKEnum attr, void * outPtr)
 {
-	return BKTrackGetPtrObj (track, attr, outPtr, 0);
+	return BKTrackGetPtrObj (track, attr, outPtr, BKTrackPtrDefaultSize (attr));
 }
 
 BKClass BKTrackClass =
-- 
2.43.0


From 012d65b3c841c0715a67964365597969326a405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 51/82] fix: dividers of track smaller than 1

---
 src/BKTrack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 3edff68..af3ac23 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -730,17 +730,17 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-			track -> arpeggioDivider.divider = value;
+			track -> arpeggioDivider.divider = BKMax (value, 1);
 			track -> arpeggioDivider.counter = 0;
 			break;
 		}
 		case BK_EFFECT_DIVIDER: {
-			track -> effectDivider.divider = value;
+			track -> effectDivider.divider = BKMax (value, 1);
 			track -> effectDivider.counter = 0;
 			break;
 		}
 		case BK_INSTRUMENT_DIVIDER: {
-			track -> instrDivider.divider = value;
+			track -> instrDivider.divider = BKMax (value, 1);
 			track -> instrDivider.counter = 0;
 			break;
 		}
-- 
2.43.0


From 1bfdcae3e3bc207b193c7da72930b07dfcad21a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 52/82] fix: changed pitch does not affect current note

---
 src/BKTrack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index af3ac23..ea33f89 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -723,10 +723,12 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 		}
 		case BK_PITCH: {
 			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_SAMPLE_PITCH: {
 			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
@@ -796,6 +798,10 @@ static BKInt BKTrackGetAttrInt (BKTrack const * track, BKEnum attr, BKInt * outV
 			value = track -> curNote;
 			break;
 		}
+		case BK_PITCH: {
+			value = track -> pitch;
+			break;
+		}
 		case BK_SAMPLE_PITCH: {
 			value = track -> samplePitch;
 			break;
-- 
2.43.0


From 88b74bddb13a62a24354f749d8f0329829ad51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 53/82] fix: update note of track when attaching to context

---
 src/BKTrack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index ea33f89..a6f086e 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -523,7 +523,8 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 		if (ctx -> numChannels == 2)
 			track -> flags |= (BKPanningEnabledFlag);
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		// period depends on sample rate of context
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From e878ec7e92235361afe109b0ce8749bb0486a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 54/82] fix: overflow when summing volume, panning or note of
 track

---
 src/BKTrack.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index a6f086e..e40c532 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -82,9 +82,9 @@ static BKInt BKDividerStateTick (BKDividerState * dividerState)
 
 static void BKTrackUpdateUnitVolume (BKTrack * track)
 {
-	BKInt volume, volume0, volume1;
-	BKInt panning;
-	BKInt tremolo;
+	BKInt   volume0, volume1;
+	int64_t volume, panning;
+	BKInt   tremolo;
 	BKInt value;
 
 	volume = BKSlideStateGetValue (& track -> volume);
@@ -131,8 +131,8 @@ static void BKTrackUpdateUnitVolume (BKTrack * track)
 
 static void BKTrackUpdateUnitNote (BKTrack * track)
 {
-	BKInt note;
-	BKInt period;
+	int64_t note;
+	BKInt   period;
 
 	if (track -> unit.ctx == NULL)
 		return;
@@ -150,13 +150,17 @@ static void BKTrackUpdateUnitNote (BKTrack * track)
 
 	note += track -> pitch;
 
+	if (track -> waveform == BK_SAMPLE)
+		note += track -> samplePitch;
+
+	note = BKClamp (note, BK_MIN_NOTE << BK_FINT20_SHIFT, BK_MAX_NOTE << BK_FINT20_SHIFT);
+
 	if (track -> waveform != BK_SAMPLE) {
 		period = BKTonePeriodLookup (note, track -> unit.ctx -> sampleRate);
 		period /= BKMin (track -> unit.phase.count, BK_WAVE_MAX_LENGTH);
 		BKUnitSetAttr (& track -> unit, BK_PERIOD, period);
 	}
 	else {
-		note += track -> samplePitch;
 		period = BKLog2PeriodLookup (note);
 		BKUnitSetAttr (& track -> unit, BK_SAMPLE_PERIOD, period);
 	}
@@ -908,7 +912,7 @@ BKInt BKTrackSetEffect (BKTrack * track, BKEnum effect, void const * inValues, B
 		}
 		case BK_EFFECT_VIBRATO: {
 			steps      = BKClamp (values [0], 0, BK_TRACK_EFFECT_MAX_STEPS);
-			delta      = values [1];
+			delta      = BKClamp (values [1], -(BK_MAX_NOTE << BK_FINT20_SHIFT), BK_MAX_NOTE << BK_FINT20_SHIFT);
 			slideSteps = BKClamp (values [2], 0, BK_TRACK_EFFECT_MAX_STEPS);
 
 			BKSlideStateSetValueAndSteps (& track -> vibratoDelta, delta, slideSteps);
-- 
2.43.0


From 2c349889667acfd2ab8e2906fc79c7a55c9f5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 55/82] fix: track reset while generating runs behind context
 time

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 300e00e..a5b0261 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1298,7 +1298,7 @@ void BKUnitReset (BKUnit * unit)
 
 	unit -> waveform    = 0;
 	unit -> phase.phase = 0;
-	unit -> time = 0;
+	unit -> time = unit -> ctx ? unit -> ctx -> deltaTime : 0;
 
 	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
 		unit -> lastPulse [i] = 0;
-- 
2.43.0


From 29cb438549ef618b5c7d57ec410be7cec6af3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 56/82] fix: track keeps waveform of refused or disposed data

---
 src/BKTrack.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index e40c532..0b5d78d 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -205,6 +205,15 @@ static void BKTrackUpdateIgnoreVolume (BKTrack * track)
 	BKBitSetCond (track -> flags, BKIgnoreVolumeFlag, ignoreVolume != 0);
 }
 
+/**
+ * Update waveform which may have been changed by unit
+ */
+static void BKTrackUpdateWaveform (BKTrack * track)
+{
+	BKUnitGetAttr (& track -> unit, BK_WAVEFORM, & track -> waveform);
+	BKTrackUpdateIgnoreVolume (track);
+}
+
 static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt count)
 {
 	BKArpeggioState * state = & track -> arpeggio;
@@ -378,6 +387,8 @@ static BKEnum BKTrackSampleDataStateCallback (BKEnum event, BKTrack * track)
 
 	res = BKUnitSampleDataStateCallback (event, & track -> unit);
 
+	BKTrackUpdateWaveform (track);
+
 	if (res == 0)
 		BKTrackUpdateUnitNote (track);
 
@@ -520,6 +531,9 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 	ret = BKUnitAttach (& track -> unit, ctx);
 
 	if (ret == 0) {
+		// sample may not be suitable for context
+		BKTrackUpdateWaveform (track);
+
 		BKContextSetAttrInt (ctx, BK_CLOCK_TYPE_EFFECT, 1);
 
 		BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
@@ -704,8 +718,7 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 			ret = BKUnitSetAttr (& track -> unit, BK_WAVEFORM, value);
 
 			if (ret == 0) {
-				BKUnitGetAttr (& track -> unit, BK_WAVEFORM, & track -> waveform);
-				BKTrackUpdateIgnoreVolume (track);
+				BKTrackUpdateWaveform (track);
 				// in case waveform length has changed
 				BKTrackUpdateUnitNote (track);
 			}
@@ -1015,12 +1028,13 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 					if (attr != oldAttr || ptr != track -> unit.sample.dataState.data) {
 						res = BKUnitSetPtr (& track -> unit, attr, ptr);
 
-						if (res != 0)
+						if (res != 0) {
+							BKTrackUpdateWaveform (track);
 							return res;
+						}
 					}
 
-					BKUnitGetAttr (& track -> unit, BK_WAVEFORM, & track -> waveform);
-					BKTrackUpdateIgnoreVolume (track);
+					BKTrackUpdateWaveform (track);
 
 					if (track -> unit.sample.dataState.data) {
 						track -> samplePitch = track -> unit.sample.dataState.data -> samplePitch;
-- 
2.43.0


From 23e4b128ad2982496de1f5e73307986d4f178683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 57/82] fix: panning of track after its stereo context was
 disposed

---
 src/BKTrack.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 0b5d78d..6aa4582 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -538,8 +538,7 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 
 		BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
 
-		if (ctx -> numChannels == 2)
-			track -> flags |= (BKPanningEnabledFlag);
+		BKBitSetCond (track -> flags, BKPanningEnabledFlag, ctx -> numChannels == 2);
 
 		// period depends on sample rate of context
 		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
-- 
2.43.0


From f25cd4324017e56aa6cb004d416e3bd6cc64021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 58/82] fix: context leaks if its channels can not be allocated

---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index e1eddfc..02afb67 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -62,8 +62,10 @@ static BKInt BKContextInitGeneric (BKContext * ctx, BKUInt numChannels, BKUInt s
 
 	BKContextUpdateMasterClocks (ctx);
 
-	if (ctx -> channels == NULL)
+	if (ctx -> channels == NULL) {
+		ctx -> numChannels = 0;
 		return BK_ALLOCATION_ERROR;
+	}
 
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
@@ -95,6 +97,8 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
+		BKDispose (*outCtx);
+		*outCtx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From ab36fe9468d410839e7a2f0d038f97dec68639e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 59/82] fix: clocks attached first or detached by a callback

---
 src/BKClock.c   |  2 +-
 src/BKContext.c | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 39ad23f..6b23beb 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -153,8 +153,8 @@ void BKClockDetach (BKClock * clock)
 			ctx -> lastClock = clock -> prevClock;
 		}
 
-		clock -> ctx = NULL;
 		BKClockReset (clock);
+		clock -> ctx = NULL;
 	}
 }
 
diff --git a/src/BKContext.c b/src/BKContext.c
index 02afb67..1225b08 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -350,7 +350,7 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
  * Get next clock tick period of all clocks
  * Increment clock times by that period and set new time if some clock ticks
  */
-static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
+static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 {
 	BKClock * clock;
 	BKTime    clockDelta;
@@ -361,9 +361,13 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 		deltaTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
-		for (clock = clocks; clock; clock = clock -> nextClock) {
+		for (clock = ctx -> firstClock; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
+			// clock was detached by its callback; begin again as its links are not valid anymore
+			if (clock -> ctx != ctx)
+				break;
+
 			// get time until next tick; clock times are relative to their reset
 			clockDelta = BKTimeSub (clock -> nextTime, clock -> time);
 
@@ -381,7 +385,7 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 	}
 
 	// advance
-	for (clock = clocks; clock; clock = clock -> nextClock)
+	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockAdvance (clock, period);
 
 	ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, period);
@@ -398,7 +402,7 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 	if (ctx -> firstClock) {
 		for (time = ctx -> deltaTime; time < endTime;) {
 			result = 0;
-			clockDelta = BKClocksAdvance (ctx, ctx -> firstClock, & result);
+			clockDelta = BKClocksAdvance (ctx, & result);
 
 			if (result < 0)
 				return result;
-- 
2.43.0


From 4f0860f3cc1c1a1de9d5f018ae10cdb47cb1b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 60/82] fix: dividers detached or disposed by a callback

---
 src/BKClock.c | 52 ++++++++++++++++++++++++++++-----------------------
 src/BKClock.h |  2 ++
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 6b23beb..879e75f 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -186,10 +186,19 @@ void BKClockAdvance (BKClock * clock, BKFUInt20 period)
 
 BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 {
-	BKInt reset = 0;
+	BKInt            reset = 0;
+	BKDivider      * nextDivider;
+	BKDividerGroup * group;
 
 	// tick each attached divider
-	for (; divider; divider = divider -> nextDivider) {
+	for (; divider; divider = nextDivider) {
+		group = divider -> group;
+
+		if (group) {
+			group -> currentDivider = divider;
+			group -> nextDivider    = divider -> nextDivider;
+		}
+
 		if (divider -> counter <= 0) {
 			reset = 1;
 
@@ -199,6 +208,12 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 
 				divider -> callback.func (info, divider -> callback.userInfo);
 
+				// divider was detached or disposed by its callback
+				if (group && group -> currentDivider != divider) {
+					nextDivider = group -> nextDivider;
+					continue;
+				}
+
 				divider -> divider = BKMax (1, info -> divider);
 			}
 
@@ -206,6 +221,10 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 		}
 
 		divider -> counter --;
+		nextDivider = divider -> nextDivider;
+
+		if (group)
+			group -> currentDivider = NULL;
 	}
 
 	return reset;
@@ -283,27 +302,7 @@ BKInt BKDividerAlloc (BKDivider ** outDivider, BKUInt count, BKCallback * callba
 
 static void BKDividerDisposeObject (BKDivider * divider)
 {
-	BKDividerGroup * group = divider -> group;
-
-	if (divider -> group) {
-		if (divider -> prevDivider) {
-			divider -> prevDivider -> nextDivider = divider -> nextDivider;
-		}
-		// is first clock
-		else {
-			group -> firstDivider = divider -> nextDivider;
-		}
-
-		if (divider -> nextDivider) {
-			divider -> nextDivider -> prevDivider = divider -> prevDivider;
-		}
-		// is last clock
-		else {
-			group -> lastDivider = divider -> prevDivider;
-		}
-
-		divider -> group = NULL;
-	}
+	BKDividerDetach (divider);
 }
 
 BKInt BKDividerAttachToClock (BKDivider * divider, BKClock * clock)
@@ -341,6 +340,13 @@ void BKDividerDetach (BKDivider * divider)
 	BKDividerGroup * group = divider -> group;
 
 	if (group) {
+		// dividers may be detached while the group is ticking
+		if (group -> currentDivider == divider)
+			group -> currentDivider = NULL;
+
+		if (group -> nextDivider == divider)
+			group -> nextDivider = divider -> nextDivider;
+
 		if (divider -> prevDivider) {
 			divider -> prevDivider -> nextDivider = divider -> nextDivider;
 		}
diff --git a/src/BKClock.h b/src/BKClock.h
index 7e21bd5..9cc2106 100644
--- a/src/BKClock.h
+++ b/src/BKClock.h
@@ -55,6 +55,8 @@ struct BKDividerGroup
 {
 	BKDivider * firstDivider;
 	BKDivider * lastDivider;
+	BKDivider * currentDivider; // currently ticking; NULL if it was detached
+	BKDivider * nextDivider;    // next to tick if current was detached
 };
 
 struct BKClock
-- 
2.43.0


From 0c8231b3d955899405c601477b48b057c4fd0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 61/82] fix: slide between both extremes of a power of two
 maximum value overflowed

---
 src/BKInterpolation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index 1692d9f..9a4e655 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -5,7 +5,8 @@ static BKUInt BKGetMaxValueShift (BKInt maxValue)
 	BKInt shift = 0;
 
 	if (maxValue) {
-		while ((1 << shift) < maxValue && shift < 30)
+		// difference between positive and negative maximum must not overflow
+		while ((1 << shift) <= maxValue && shift < 30)
 			shift ++;
 
 		shift = 30 - shift;
-- 
2.43.0


From c440692ceec54325849881604c1623f743c6102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 62/82] fix: settings made by sample begin callback were lost
 or linked to the wrong data

---
 src/BKUnit.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index a5b0261..5e5480e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -153,9 +153,9 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.sustainOffset = 0;
 					unit -> sample.sustainEnd    = 0;
 
-					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+
+					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 				}
 			}
 			// disable sample
@@ -182,14 +182,20 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 		res = BK_INVALID_STATE;
 	}
 	else {
-		res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
-	}
-
-	if (res == 0) {
+		// link data first; sample callback may change it again
 		BKDataStateSetData (& unit -> sample.dataState, data);
+
+		// data to replace is currently updating its units
+		if (data && unit -> sample.dataState.data != data) {
+			res = BK_INVALID_STATE;
+		}
+		else {
+			res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+		}
 	}
+
 	// unset data when failed
-	else {
+	if (res != 0) {
 		BKUnitUnsetData (unit);
 		BKDataStateSetData (& unit -> sample.dataState, NULL);
 	}
-- 
2.43.0


From f25210d30d414181fd988f4594e60f98dff43471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 63/82] fix: units attached or reset by clock callbacks start
 at wrong time

---
 src/BKContext.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 1225b08..f1828e8 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -413,9 +413,10 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 			// run units
 			for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 				unit -> run (unit, time);
-		}
 
-		ctx -> deltaTime = time;
+			// units may be attached or reset by next tick
+			ctx -> deltaTime = time;
+		}
 	}
 	else {
 		// run units
-- 
2.43.0


From b7f0c8ad450e7ad90b2077d7131bb434efeecf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 64/82] fix: phase out of range if sample is changed by its
 begin callback

---
 src/BKUnit.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 5e5480e..b11feb8 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -483,6 +483,11 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_PHASE: {
+			// callback may change sample or its range
+			if (unit -> waveform == BK_SAMPLE) {
+				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+			}
+
 			if (unit -> waveform != BK_SAMPLE) {
 				value = BKClamp (value, 0, unit -> phase.count - 1);
 			}
@@ -498,7 +503,6 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				}
 
 				value = BKClamp (value, 0, unit -> sample.length - 1);
-				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 			}
 
 			unit -> phase.phase = value;
-- 
2.43.0


From b9ca8f2c0448a60a7624a80ddee66b818f050193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 65/82] fix: release of sample sustain range affects other
 waveforms

---
 src/BKUnit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index b11feb8..c422a39 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -115,6 +115,9 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.end         = data -> numFrames;
 					unit -> sample.frames      = data -> frames;
 					unit -> sample.repeatCount = 0;
+
+					// only samples can be sustained
+					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagRelease);
 				}
 				else {
 					return BK_INVALID_NUM_FRAMES;
@@ -478,6 +481,9 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				unit -> waveform    = value;
 			}
 
+			// only samples can be sustained
+			BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagRelease);
+
 			BKDataStateSetData (& unit -> sample.dataState, NULL);
 
 			break;
-- 
2.43.0


From c257244a0335c4d094cb0a9e1d92a48dee0c5aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 66/82] fix: divider counter overflows with large values

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 879e75f..ec8efbc 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -217,7 +217,7 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 				divider -> divider = BKMax (1, info -> divider);
 			}
 
-			divider -> counter = divider -> divider;
+			divider -> counter = BKMin (divider -> divider, BK_INT_MAX);
 		}
 
 		divider -> counter --;
-- 
2.43.0


From 910174ec39a275e4c76dec898d7ace8f92c4cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 67/82] fix: envelope overflows with large values and steps

---
 src/BKSequence.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index fcefc02..5dfc550 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -151,12 +151,14 @@ BKSequenceFuncs const BKSequenceFuncsSimple =
  */
 static BKUInt BKSequencePhaseGetMaxAbsValue (BKSequencePhase const * phases, BKUInt length)
 {
-	BKInt maxValue = 0;
+	int64_t value, maxValue = 0;
 
-	for (BKInt i = 0; i < length; i ++)
-		maxValue = BKMax (maxValue, BKAbs (phases [i].value));
+	for (BKUInt i = 0; i < length; i ++) {
+		value    = phases [i].value;
+		maxValue = BKMax (maxValue, BKAbs (value));
+	}
 
-	return maxValue;
+	return BKMin (maxValue, BK_INT_MAX);
 }
 
 /**
@@ -186,14 +188,14 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
  */
 static BKInt BKSequenceEnvelopeCheckValues (BKSequencePhase const * values, BKUInt length, BKUInt sustainOffset, BKUInt sustainLength)
 {
-	BKInt steps = 0;
+	BKUInt steps = 0;
 
 	if (sustainOffset == length)
 		return 0;
 
 	// check sustain sequence step length
-	for (BKInt i = sustainOffset; i < sustainOffset + sustainLength; i ++)
-		steps += values [i].steps;
+	for (BKUInt i = sustainOffset; i < sustainOffset + sustainLength; i ++)
+		steps |= values [i].steps;
 
 	if (steps == 0)
 		return BK_INVALID_VALUE;
@@ -274,9 +276,9 @@ static BKEnum BKSequenceFuncEnvelopeStep (BKSequenceState * state, BKEnum level)
 			BKSequencePhase * phase = & phases [state -> offset];
 
 			if (phase -> steps) {
-				state -> steps = phase -> steps;
+				state -> steps = BKMin (phase -> steps, BK_INT_MAX);
 				state -> endValue = phase -> value << sequence -> fracShift;
-				state -> delta = (state -> endValue - state -> shiftedValue) / (BKInt) phase -> steps;
+				state -> delta = ((int64_t) state -> endValue - state -> shiftedValue) / state -> steps;
 			}
 			else {
 				state -> shiftedValue = (phase -> value << sequence -> fracShift);
@@ -355,7 +357,7 @@ static BKInt BKSequenceFuncEnvelopeSetValue (BKSequenceState * state, BKInt valu
 	state -> shiftedValue = (value << sequence -> fracShift);
 
 	if (state -> steps)
-		state -> delta = (state -> endValue - state -> shiftedValue) / state -> steps;
+		state -> delta = ((int64_t) state -> endValue - state -> shiftedValue) / state -> steps;
 
 	return 0;
 }
-- 
2.43.0


From ed74d6ccce5021c096b7f4b2ab7d36aac6ab670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 68/82] fix: next clock time overflows with very long period

---
 src/BKClock.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKClock.c b/src/BKClock.c
index ec8efbc..1fb5c09 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -253,6 +253,10 @@ BKInt BKClockTick (BKClock * clock)
 			clock -> period   = BKTimeSub (info.nextTime, clock -> time);
 			clock -> nextTime = info.nextTime;
 		}
+		// period exceeds time range
+		else if (BKTimeIsGreater (clock -> period, BKTimeSub (BK_TIME_MAX, clock -> time))) {
+			clock -> nextTime = BK_TIME_MAX;
+		}
 		// set next period
 		else {
 			clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
-- 
2.43.0


From db69eb9c5d8353a592a0bc54f0784401233f63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 69/82] fix: sample phase becomes negative for empty sample
 range

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index c422a39..280022c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -508,7 +508,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 					}
 				}
 
-				value = BKClamp (value, 0, unit -> sample.length - 1);
+				value = BKClamp (value, 0, BKMax ((BKInt) unit -> sample.length - 1, 0));
 			}
 
 			unit -> phase.phase = value;
-- 
2.43.0


From aacc9d5992dfbb5b74ceb2a529839474e6239a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 70/82] fix: divider counts beyond the signed range fire on
 every tick

---
 src/BKClock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 1fb5c09..1eecc5a 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -214,10 +214,10 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 					continue;
 				}
 
-				divider -> divider = BKMax (1, info -> divider);
+				divider -> divider = BKClamp (info -> divider, 1, BK_INT_MAX);
 			}
 
-			divider -> counter = BKMin (divider -> divider, BK_INT_MAX);
+			divider -> counter = divider -> divider;
 		}
 
 		divider -> counter --;
@@ -268,7 +268,7 @@ BKInt BKClockTick (BKClock * clock)
 
 static BKInt BKDividerInitGeneric (BKDivider * divider, BKUInt count, BKCallback * callback)
 {
-	divider -> divider = BKMax (1, count);
+	divider -> divider = BKClamp (count, 1, BK_INT_MAX);
 	divider -> counter = 0;
 
 	if (callback) {
-- 
2.43.0


From 4474928ced9d4f63489f15d7258c4cffe43796d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 71/82] fix: period of clock changes when it is reset or
 detached by its own callback

---
 src/BKClock.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 1eecc5a..c305d6c 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -233,13 +233,14 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 BKInt BKClockTick (BKClock * clock)
 {
 	BKInt result = 0;
+	BKTime tickTime = clock -> time;
 	BKCallbackInfo info;
 
 	if (BKTimeIsEqual (clock -> time, clock -> nextTime)) {
 		memset (& info, 0, sizeof (BKCallbackInfo));
 		info.object   = clock;
 		info.event    = BK_EVENT_CLOCK;
-		info.nextTime = clock -> time;
+		info.nextTime = tickTime;
 
 		if (clock -> callback.func)
 			result = clock -> callback.func (& info, clock -> callback.userInfo);
@@ -248,13 +249,13 @@ BKInt BKClockTick (BKClock * clock)
 
 		clock -> counter ++;
 
-		// set next time and new period from callback
-		if (BKTimeIsGreater (info.nextTime, clock -> time)) {
-			clock -> period   = BKTimeSub (info.nextTime, clock -> time);
-			clock -> nextTime = info.nextTime;
-		}
+		// set new period from callback
+		// clock may have been reset or detached in the meantime
+		if (BKTimeIsGreater (info.nextTime, tickTime))
+			clock -> period = BKTimeSub (info.nextTime, tickTime);
+
 		// period exceeds time range
-		else if (BKTimeIsGreater (clock -> period, BKTimeSub (BK_TIME_MAX, clock -> time))) {
+		if (BKTimeIsGreater (clock -> period, BKTimeSub (BK_TIME_MAX, clock -> time))) {
 			clock -> nextTime = BK_TIME_MAX;
 		}
 		// set next period
-- 
2.43.0


From ceeb4ed806cd07e22847af3af5931d3b6393b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 72/82] fix: odd data chunk of WAVE file is not padded

---
 src/BKWaveFileWriter.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index e247979..2a105b2 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -171,6 +171,14 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	return 0;
 }
 
+/**
+ * Offset of end of written data
+ */
+static BKSize BKWaveFileWriterDataEnd (BKWaveFileWriter const * writer)
+{
+	return writer -> initOffset + sizeof (BKWaveFileHeader) + sizeof (BKWaveFileHeaderFmt) + sizeof (BKWaveFileHeaderData) + writer -> dataSize;
+}
+
 BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * frames, BKInt numFrames)
 {
 	BKSize  dataSize;
@@ -189,6 +197,13 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 		}
 	}
 
+	// overwrite padding written when terminating
+	if ((writer -> object.flags & BKWaveFileFlagTerminated) && (writer -> dataSize & 1)) {
+		if (fseek (writer -> file, BKWaveFileWriterDataEnd (writer), SEEK_SET) != 0) {
+			return BK_FILE_ERROR;
+		}
+	}
+
 	dataSize = (BKSize) (numBits / 8) * numFrames;
 
 	//float f = 0.0;
@@ -233,7 +248,7 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 
 BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 {
-	BKSize   offset;
+	BKSize   offset, padding;
 	uint32_t chunkSize;
 
 	// no frames were appended
@@ -244,7 +259,9 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	}
 
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
-	chunkSize = (uint32_t) writer -> fileSize;
+	// subchunks are aligned to 2 bytes
+	padding   = writer -> dataSize & 1;
+	chunkSize = (uint32_t) (writer -> fileSize + padding);
 
 	if (writer -> reverseEndian) {
 		chunkSize = BKInt32Reverse (chunkSize);
@@ -275,6 +292,16 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		return BK_FILE_ERROR;
 	}
 
+	if (padding) {
+		if (fseek (writer -> file, BKWaveFileWriterDataEnd (writer), SEEK_SET) != 0) {
+			return BK_FILE_ERROR;
+		}
+
+		if (fwrite ("", 1, padding, writer -> file) < padding) {
+			return BK_FILE_ERROR;
+		}
+	}
+
 	if (fseek (writer -> file, 0, SEEK_END) != 0 || fflush (writer -> file) != 0) {
 		return BK_FILE_ERROR;
 	}
-- 
2.43.0


From d2133f10fb4880a5851ccc8c9463561bc3f4660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 73/82] fix: sustain range of data object is not copied when
 setting sample

---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 280022c..497802c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -153,10 +153,11 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> phase.phase          = 0; // reset phase
 					unit -> sample.repeatMode    = 0;
 					unit -> sample.repeatCount   = 0;
-					unit -> sample.sustainOffset = 0;
-					unit -> sample.sustainEnd    = 0;
+					unit -> sample.sustainOffset = BKMin (data -> sustainOffset, data -> numFrames);
+					unit -> sample.sustainEnd    = BKMin (data -> sustainEnd, data -> numFrames);
 
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+					BKBitSetCond (unit -> object.flags, BKUnitFlagSampleSustainRange, unit -> sample.sustainOffset != unit -> sample.sustainEnd);
 
 					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 				}
-- 
2.43.0


From 88e7e73c296cbb26ddb34838eb09fed391674705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 74/82] fix: interrupted read of WAVE frames is not reported

---
 src/BKWaveFileReader.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 32b621c..130bde6 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -233,7 +233,7 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 	char    buffer [1024];
 	char  * bufferPtr;
 	BKSize  readSize, writeSize;
-	BKSize  remainingSize;
+	BKSize  remainingSize, chunkSize;
 	BKSize  frameSize;
 	BKInt   reverseEndian;
 	BKUInt  readMask;
@@ -261,15 +261,17 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 	while (remainingSize) {
 		readSize = BKMin (remainingSize, sizeof (buffer));
 		readSize = readSize & readMask;
+		chunkSize = readSize;
 		readSize = fread (buffer, 1, readSize, reader -> file);
+
+		if (readSize < chunkSize && ferror (reader -> file)) {
+			return BK_FILE_ERROR;
+		}
+
 		readSize = readSize & readMask;
 
 		// truncated
 		if (readSize == 0) {
-			if (ferror (reader -> file)) {
-				return BK_FILE_ERROR;
-			}
-
 			break;
 		}
 
-- 
2.43.0


From 7922b758d2bcb9e47e8773bec1c455579a3ab629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 75/82] fix: unknown position of WAVE file to write is not
 reported

---
 src/BKWaveFileWriter.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 2a105b2..e0d0509 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -86,7 +86,8 @@ static BKInt BKCheckFile (FILE * file)
 
 BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numChannels, BKInt sampleRate, BKInt numBits)
 {
-	BKInt res;
+	BKInt  res;
+	BKSize offset;
 
 	if ((res = BKCheckFile (file)) != 0) {
 		return res;
@@ -99,12 +100,18 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return BK_INVALID_VALUE;
 	}
 
+	offset = ftell (file);
+
+	if (offset < 0) {
+		return BK_FILE_ERROR;
+	}
+
 	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
 		return res;
 	}
 
 	writer -> file          = file;
-	writer -> initOffset    = ftell (file);
+	writer -> initOffset    = offset;
 	writer -> sampleRate    = sampleRate;
 	writer -> numChannels   = numChannels;
 	writer -> numBits       = numBits;
-- 
2.43.0


From 8891f91ba051ea404bae011ba749d022bf7caacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 76/82] fix: tone periods are cut to a quarter of their
 resolution

---
 src/BKTone.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKTone.c b/src/BKTone.c
index 1e697db..448f63a 100644
--- a/src/BKTone.c
+++ b/src/BKTone.c
@@ -64,7 +64,7 @@ BKFUInt20 BKTonePeriodLookup (BKFInt20 tone, BKUInt sampleRate)
 {
 	BKUInt    frac;
 	BKUInt    period1, period2;
-	BKFUInt20 period;
+	uint64_t  period;
 
 	tone = BKClamp (tone, BK_MIN_NOTE << BK_FINT20_SHIFT, BK_MAX_NOTE << BK_FINT20_SHIFT);
 	frac = ((tone & BK_FINT20_FRAC) >> (BK_FINT20_SHIFT - BK_TONE_SHIFT));
@@ -76,9 +76,9 @@ BKFUInt20 BKTonePeriodLookup (BKFInt20 tone, BKUInt sampleRate)
 	period2 = tonePeriods [BKMin (tone + 1, BK_MAX_NOTE)];
 
 	period = period1 * (BK_TONE_UNIT - frac) + period2 * frac;
-	period = ((period >> BK_TONE_SAMPLE_RATE_SHIFT) * sampleRate) << (BK_TONE_SAMPLE_RATE_SHIFT - BK_TONE_SHIFT);
+	period = (period * sampleRate) >> BK_TONE_SHIFT;
 
-	return period;
+	return (BKFUInt20) period;
 }
 
 BKFUInt20 BKLog2PeriodLookup (BKFInt20 tone)
-- 
2.43.0


From 9b3bd20172b41d831c8771e2ce0be736c283e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 77/82] fix: end a sample muted by its callback and begin the
 waveform it sets

---
 src/BKUnit.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 497802c..0ca2847 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1226,7 +1226,13 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 
 		// check phase boundary
 		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
-			if (BKUnitResetSample (unit) == 1) {
+			if (BKUnitResetSample (unit) == 1 || unit -> mute) {
+				// callback has set a waveform which begins after the current frame
+				if (unit -> waveform && unit -> waveform != BK_SAMPLE && !unit -> mute) {
+					unit -> time = time + BK_FINT20_UNIT;
+					time = BKUnitRunWaveform (unit, endTime);
+				}
+
 				break;
 			}
 		}
-- 
2.43.0


From b16a7c878e1ae4e771ee4c3088b3ec4ee592b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 78/82] fix: do not run ahead or back when the last clock is
 detached

---
 src/BKContext.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index f1828e8..4ad05c4 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -377,6 +377,10 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 	}
 	while (ctx -> flags & BK_CONTEXT_FLAG_CLOCK_RESET);
 
+	// all clocks were detached by their callbacks
+	if (ctx -> firstClock == NULL)
+		return 0;
+
 	if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 		period = BKTimeGetFUInt20 (deltaTime);
 	}
@@ -400,7 +404,7 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 	BKInt     result;
 
 	if (ctx -> firstClock) {
-		for (time = ctx -> deltaTime; time < endTime;) {
+		for (time = ctx -> deltaTime; time < endTime && ctx -> firstClock;) {
 			result = 0;
 			clockDelta = BKClocksAdvance (ctx, & result);
 
@@ -418,15 +422,15 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 			ctx -> deltaTime = time;
 		}
 	}
-	else {
+
+	// no clock is attached or all have been detached; units may already have been run further by them
+	if (ctx -> firstClock == NULL && ctx -> deltaTime < endTime) {
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
 
-		if (ctx -> deltaTime < endTime) {
-			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
-			ctx -> deltaTime   = endTime;
-		}
+		ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+		ctx -> deltaTime   = endTime;
 	}
 
 	return endTime;
-- 
2.43.0


From a2861928d8fb4b92c8a70851cd248d1ab293b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 79/82] fix: frames appended after terminating a WAVE within a
 longer file are misplaced

---
 src/BKWaveFileWriter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index e0d0509..805381e 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -204,8 +204,8 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 		}
 	}
 
-	// overwrite padding written when terminating
-	if ((writer -> object.flags & BKWaveFileFlagTerminated) && (writer -> dataSize & 1)) {
+	// continue after last written frame; overwrites padding written when terminating
+	if (writer -> object.flags & BKWaveFileFlagTerminated) {
 		if (fseek (writer -> file, BKWaveFileWriterDataEnd (writer), SEEK_SET) != 0) {
 			return BK_FILE_ERROR;
 		}
-- 
2.43.0


From 9412828e341ecc7afede2ed8a7812eb7bedfa34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 80/82] fix: large offsets overflow when added to times on
 32-bit platforms

---
 src/BKTime.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 6061c60..6a1712b 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -158,10 +158,10 @@ BK_INLINE BKTime BKTimeAddFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac + b;
+	frac = a.frac + (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time += (frac >> BK_FINT20_SHIFT);
+	a.time += (BKInt) (b >> BK_FINT20_SHIFT) + (BKInt) (frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
@@ -183,10 +183,10 @@ BK_INLINE BKTime BKTimeSubFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac - b;
+	frac = a.frac - (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time = a.time + ((BKInt) frac >> BK_FINT20_SHIFT);
+	a.time = a.time - (BKInt) (b >> BK_FINT20_SHIFT) + ((BKInt) frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
-- 
2.43.0


From 61dc26e250ea80d08ba0a678dbce5c08b5ddb0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 81/82] fix: times from negative seconds have an invalid
 fraction on 32-bit platforms

---
 src/BKContext.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BKContext.h b/src/BKContext.h
index 9dcb632..355f4aa 100644
--- a/src/BKContext.h
+++ b/src/BKContext.h
@@ -216,13 +216,14 @@ BK_INLINE BKTime BKTimeFromSeconds (BKContext * ctx, double seconds)
 
 BK_INLINE BKTime BKTimeFromSeconds (BKContext * ctx, double seconds)
 {
-	BKTime time;
 	double samples = ctx -> sampleRate * seconds;
+	BKInt  time = samples;
 
-	time.time = samples;
-	time.frac = (samples - time.time) * BK_FINT20_UNIT;
+	// fraction is never negative
+	if (time > samples)
+		time --;
 
-	return time;
+	return BKTimeMake (time, (samples - time) * BK_FINT20_UNIT);
 }
 
 #endif /* BK_IS_64_BIT */
-- 
2.43.0


From 383dc19e355f9233027d104dea03a091c59cc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:36 +0000
Subject: [PATCH 82/82] fix: sample continued elsewhere by its callback is
 muted despite repeating

---
 src/BKUnit.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 0ca2847..0dd1e03 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1120,6 +1120,13 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 
 	resetDir = BKUnitWrapSamplePhase (unit, 0, unit -> sample.length);
 
+	// callback has set another position to continue from
+	if (resetDir == 0 && (repeatMode == BK_REPEAT || repeatMode == BK_PALINDROME)) {
+		unit -> sample.repeatCount ++;
+
+		return 0;
+	}
+
 	switch (repeatMode) {
 		default:
 		case BK_NO_REPEAT: {
-- 
2.43.0

