#!/usr/bin/env python3
"""Regenerates the "fixed" list of KNOWN_FINDINGS.json from the fix: commits of /repo (property chosen by the table below)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = """sample continued elsewhere by its callback=S06
large offsets overflow when added=T03
times from negative seconds have=T03
do not run ahead or back when the last clock=S01
end a sample muted by its callback=S01
sustain range of data object is not=S06
odd data chunk of WAVE=D03
frames appended after terminating a WAVE=D03
divider counts beyond the signed=T02
period of clock changes when it is reset=T01
sample phase becomes negative=S06
next clock time overflows=T01
envelope overflows with large=P06
divider counter overflows=T02
release of sample sustain range affects=P08
phase out of range if sample is changed by its begin=M01
units attached or reset by clock callbacks=S01
settings made by sample begin callback=M03
slide between both extremes=P03
dividers detached or disposed by a callback=M02
clocks attached first or detached=T01
context leaks if its channels=M05
panning of track after its stereo=M02
track keeps waveform of refused=M03
track reset while generating=S07
overflow when summing volume=P02
update note of track when attaching=P01
changed pitch does not affect=P01
dividers of track smaller than 1=T02
BKTrackSetPtr disables=P07
invalid number of arpeggio=P05
scaled values returned for tremolo=P07
slow falling slides=P03
envelope with small values=P06
finished envelope ends=P06
copy of instrument can not=M02
copied sequences use=P06
number of channels and sample rate swapped=D03
write errors are not reported=M05
header of empty WAVE=D03
disposing WAVE writer=M05
invalid or truncated WAVE=M04
reading WAVE files with extended=D02
converted frames are never=M02
normalizing does not affect=M03
leaks and stale users when loading=M03
file errors are ignored=M05
ownership, size and users=D04
negative frames of signed 8=D01
lower byte of 16 bit=D01
frames not copied are released=D04
copy of data object can not=D04
keep list of data users=M03
clearing track loses=M03
sample with different number=M03
detached units keep using=M03
interrupted read of WAVE frames=M05
tone periods are cut=P01
unknown position of WAVE file to write=M05
sample changed by its callback=M01
forward sample range starts=S06
sample is not sustained=S06
keep sustain range within=S06
phase beyond sample end=S06
repeat mode returned by=S06
lower limit of unit period=S05
BKGetPtr sets unit=P07
status name of values=P07
report failure when attaching=P07
reset beat and effect=S07
detach dividers when=M02
don't read frames=S02
generate exactly the frames=S02
advance context time=S01
ticks of clocks attached, reset=T01
don't bind clock=M02
endless loop when disposing clock=M02
BKTimeIsGreaterFUInt20=T03
overflow in BKTimeMake=T03
keep frame fraction=S01
clamp loud mixes=S03
don't truncate amplitude=S03"""
tab = [l.split("=") for l in T.splitlines()]
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = [v for k, v in tab if s[5:].startswith(k)]
    if not p: raise SystemExit("no property for " + s)
    out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
f = os.path.join(V, "KNOWN_FINDINGS.json")
old = json.load(open(f)) if os.path.exists(f) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": out}, open(f, "w"), indent=1)
print(len(out), "fixed")
