#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, title
    P.append(d)

# ---------------------------------------------------------------- safety / lifecycle
p("M01", "No API call history causes memory errors, undefined behaviour or hangs",
  "Whatever sequence of public calls is made (requesting at most the documented number of frames at once, with clock periods above zero, and callbacks not removing the object that is calling them) on live contexts, tracks, units, clocks, dividers, data, instruments and sequences, with any attribute values, ranges, sizes and effect settings (including out-of-range ones), the library never reads or writes outside its own or the caller's buffers, never touches freed memory, never divides by zero, never overflows an index computation and every call returns.",
  ["histories", "inputs"], "all finite sequences of API calls with arbitrary attribute/pointer values whose pointer arguments point to objects of the right kind",
  "The three tests make a dozen fixed calls; out-of-bounds accesses depend on combinations such as sample range x sustain range x period x phase, which no fixed test enumerates.",
  ["src/BKUnit.c", "src/BKTrack.c", "src/BKContext.c", "src/BKClock.c", "src/BKInstrument.c", "src/BKSequence.c", "src/BKData.c", "src/BKObject.c"],
  [("sample phase wrapping and range clamping", "src/BKUnit.c BKUnitUpdateSampleRange, BKUnitWrapSamplePhase, BKUnitRunSample"),
   ("attribute clamping", "src/BKUnit.c BKUnitSetAttr, src/BKTrack.c BKTrackSetEffect"),
   ("buffer index bound by 20-bit fraction time", "src/BKBuffer.h BKBufferAddPulse")])
p("M02", "Objects can be disposed in any order without leaks or dangling links",
  "Objects may be created, attached, detached, replaced and disposed in any order, including disposing a context before its tracks, clocks and dividers or data and instruments before the tracks that use them; the remaining objects stay usable, a second dispose is harmless, and a removed clock, divider, track or unit has no further effect. When everything has been disposed, no memory allocated by the library remains allocated.",
  ["histories"], "all interleavings of create/attach/detach/set/generate/dispose over sets of linked objects",
  "Tests create one context and track and dispose them in one order.",
  ["src/BKObject.c", "src/BKContext.c", "src/BKClock.c", "src/BKTrack.c", "src/BKData.c", "src/BKInstrument.c"],
  [("dispose dispatch and flags", "src/BKObject.c BKDispose"), ("list unlinking", "src/BKClock.c BKClockDetach, BKDividerDetach; src/BKUnit.c BKUnitDetach"),
   ("data and instrument state lists", "src/BKData.c BKDataStateSetData; src/BKInstrument.c BKInstrumentStateSetInstrument")])
p("M03", "Tracks never play stale data when sample data changes or goes away",
  "While sample data or a custom waveform is in use by attached or detached tracks, replacing its frames, converting, normalizing or loading new content takes effect for every user, and disposing it (or making its content unsuitable) leaves every user without that data: it reads as unset and plays silence. Data that cannot be used (fewer than two frames, or for samples a channel count that is neither one nor the context's) is refused with an error and nothing of it is played, and disabling data by setting it to nothing always unlinks it.",
  ["histories", "inputs"], "all histories of data operations interleaved with attaching, selecting, generating on any number of tracks/units",
  "Tests never link a data object to a track and then change it.",
  ["src/BKData.c", "src/BKUnit.c", "src/BKTrack.c"],
  [("data state list and RESET/DISPOSE events", "src/BKData.c BKDataResetStates, BKDataStateSetData"), ("unit data callback", "src/BKUnit.c BKUnitTrySetData, BKUnitSampleDataStateCallback")])
p("M04", "Hostile or damaged WAVE files are rejected or read safely",
  "Reading any byte sequence as a WAVE file never crashes, hangs, reads uninitialised memory, or accesses memory out of bounds; it either reports an error and leaves the target data usable, or reports a positive channel count and sample rate and a non-negative frame count and delivers exactly that many frames, where frames missing from a truncated file are silent.",
  ["inputs"], "all byte strings offered as a WAVE file, through the reader and through data loading, over seekable files",
  "The wave test reads back one file it wrote itself.",
  ["src/BKWaveFileReader.c", "src/BKData.c", "src/BKWaveFile_internal.h"],
  [("header parsing", "src/BKWaveFileReader.c BKWaveFileReaderReadHeader"), ("frame reading", "src/BKWaveFileReader.c BKWaveFileReaderReadFrames"), ("data loading", "src/BKData.c BKDataLoadWAVE")])
p("M05", "Allocation and file failures are reported and leave objects usable",
  "If a memory allocation fails, or a file read, write or seek fails at any point, the affected call reports an error (never success), nothing leaks or crashes, and objects that existed before remain usable and disposable with their previous content.",
  ["fault_sequences"], "every single-fault position (n-th allocation, n-th byte of file I/O) in every allocating or file-using API call",
  "No test injects faults.",
  ["src/BKObject.c", "src/BKContext.c", "src/BKData.c", "src/BKInstrument.c", "src/BKSequence.c", "src/BKWaveFileReader.c", "src/BKWaveFileWriter.c"],
  [("allocation results", "every malloc/realloc call"), ("write results", "src/BKWaveFileWriter.c BKWaveFileWriterAppendFrames, BKWaveFileWriterTerminate")])
p("M06", "Output depends only on the calls made: no hidden or shared state",
  "The generated audio and all returned values (except for the random dithering of conversions to up to 8 bits) are a function of the sequence of calls made on the objects involved: they do not depend on the previous contents of memory, on other contexts that exist or are operated on in between, or on other threads working on unrelated objects at the same time. Separate object graphs can be driven from different threads without data races.",
  ["histories", "schedules"], "all call sequences, interleaved arbitrarily with sequences on unrelated objects, in one or several threads",
  "Tests use one object graph in one thread and one memory state.",
  ["src/BKContext.c", "src/BKUnit.c", "src/BKTrack.c", "src/BKTone.c", "src/BKData.c"],
  [("initialisation of objects", "src/BKObject.c BKObjectInit"), ("constant tables only", "src/BKUnit.c, src/BKTone.c, src/BKBuffer.c")])
# ---------------------------------------------------------------- output stream
p("S01", "Audio does not depend on how generation is split into calls",
  "Generating a span of audio in one call, or in any number of smaller requests of any sizes (whether by generating directly or by ending frames and reading them), yields exactly the same sequence of frames on every channel, the same callback times and the same final track state.",
  ["inputs", "histories"], "all partitions of a frame span into calls x all track/clock configurations",
  "Tests generate in one fixed chunk size.",
  ["src/BKContext.c", "src/BKBuffer.h", "src/BKBuffer.c", "src/BKUnit.c"],
  [("time carried over between calls", "src/BKContext.c BKContextRun, BKContextEnd"), ("unit time shift", "src/BKUnit.c BKUnitEnd"), ("buffer shift and move", "src/BKBuffer.h BKBufferShift, src/BKBuffer.c BKBufferRead")])
p("S02", "Every requested frame is produced exactly once, in order",
  "With at least one track or unit attached, generating N frames writes exactly N frames per channel, interleaved by channel, and touches nothing else of the output; ending frames makes exactly that many readable, and reading returns each of them once, in order. Generating up to a time delivers, over any number of calls, exactly the whole frames that lie before that time, in blocks bounded by the maximum generation size, stops with an error as soon as the receiver refuses a block, and the resulting audio equals directly generated audio.",
  ["inputs", "histories"], "all request sizes, channel counts, sample rates, target times and mixtures of the output calls, with at most 3400 frames unread (what fits the output buffer besides the frames by which clocks run ahead)",
  "Tests only check one size.",
  ["src/BKContext.c", "src/BKBuffer.c", "src/BKBuffer.h"],
  [("chunk loop", "src/BKContext.c BKContextGenerate"), ("time driven loop", "src/BKContext.c BKContextGenerateToTime"), ("read accounting", "src/BKBuffer.c BKBufferRead")])
p("S03", "Amplitude steps are rendered band-limited, linear, time-exact and clamped",
  "An amplitude step written to an output buffer is rendered, with either pulse kernel, as a short ripple that settles at exactly twice the step height (less the slow high-pass decay), centred on its time to 1/32 of a frame and identical at every buffer position; steps of up to full swing add up linearly and independently. The result is limited to the 16-bit range instead of wrapping, a removed level decays to silence, and clearing the buffer removes all remaining signal.",
  ["inputs"], "all sequences of step times and heights within the writable window, both kernels, all read sizes",
  "No test inspects the signal.",
  ["src/BKBuffer.c", "src/BKBuffer.h"],
  [("step kernels", "src/BKBuffer.c BKBufferStepPhasesSinc/Harm"), ("accumulate, high-pass and clamp", "src/BKBuffer.c BKBufferRead"), ("pulse insertion", "src/BKBuffer.h BKBufferAddPulse")])
p("S04", "Tracks mix by addition, independent of order, and never disturb each other",
  "The output of several tracks and units in one context is the sum of what each produces alone (to within rounding of the final 16-bit conversion, and limited rather than wrapped when it exceeds the range), whatever the order in which they were attached. Changing, muting, detaching or disposing one track, and the content of one channel, never alters the contribution of any other track or channel.",
  ["inputs", "histories"], "all sets of tracks, attach orders, channel counts and control histories",
  "Tests use a single track.",
  ["src/BKContext.c", "src/BKUnit.c", "src/BKBuffer.h"],
  [("unit list run", "src/BKContext.c BKContextRun"), ("per channel rendering", "src/BKUnit.c BKUnitRunWaveform, BKUnitRunSample")])
p("S05", "Waveforms have their specified shape, level and period",
  "A playing unit steps through its waveform's phases, one per period: square (16 phases, full level for the duty-cycle share of them), triangle (32), sawtooth (7), sine (32), 16-bit shift-register noise, or a custom waveform's first up to 64 frames, with noise and custom restarting after the phase-wrap count when one is set. Each phase is held at its table value times the channel's volume for exactly the period, with no drift over any duration, also across changes of period, volume, duty cycle, phase, mute and waveform, which take effect at the next phase; a muted unit emits no steps.",
  ["inputs", "histories"], "all waveforms, periods, duty cycles, volumes, phase and wrap values, and control changes during playback",
  "No test inspects the generated signal.",
  ["src/BKUnit.c"],
  [("phase tables", "src/BKUnit.c squarePhases, trianglePhases, sawtoothPhases, sinePhases"), ("phase stepping", "src/BKUnit.c BKUnitRunWaveform*"), ("state changes", "src/BKUnit.c BKUnitSetAttr")])
p("S06", "Sample playback follows range, direction, repeat, sustain and speed",
  "A playing sample emits exactly the frames of its range, in order (in reverse when the range is reversed), one output frame at a time at its sample period, channel by channel, and then stops and mutes, starts over or turns around according to its repeat mode; with a sustain range it stays within that range until released and then continues to the end, or jumps there when immediate release is set. Range, sustain range and period values are interpreted relative to the sample's length (negative values counting from the end) and clamped to it, a newly set sample takes over the data's own sustain range, and begin/reset notifications are sent once per start and per end reached, the answer to the latter deciding the repetition.",
  ["inputs", "histories"], "all sample contents, lengths, ranges, sustain ranges, repeat modes, periods and control histories",
  "No test plays a sample.",
  ["src/BKUnit.c"],
  [("sample run", "src/BKUnit.c BKUnitRunSample, BKUnitResetSample, BKUnitWrapSamplePhase"), ("ranges", "src/BKUnit.c BKUnitUpdateSampleRange, BKUnitUpdateSampleSustainRange")])
p("S07", "Resetting a context or track is equivalent to starting fresh",
  "After a context reset, the same calls produce exactly the same audio and callbacks as on newly created objects attached the same way, whatever was done before: clocks, dividers, buffers, tracks, effects, phases and times all restart, while waveform, master volume and attachments remain. Resetting or clearing a single track likewise restores its defaults without affecting other tracks.",
  ["histories"], "all histories before the reset",
  "Tests never reset.",
  ["src/BKContext.c", "src/BKTrack.c", "src/BKUnit.c", "src/BKClock.c"],
  [("reset", "src/BKContext.c BKContextReset, src/BKTrack.c BKTrackReset, BKTrackClear, src/BKUnit.c BKUnitReset, src/BKClock.c BKClockReset")])
# ---------------------------------------------------------------- timing
p("T01", "Clocks tick at exact times, in order, at every clock combination",
  "An attached clock ticks first at the moment it is attached (or reset) and then exactly one period after each tick, or at the time its callback asked for, which also becomes its new period; period changes apply from the next tick. Ticks of all clocks happen in order of time, simultaneous ones in list order, none is skipped or repeated, and changes a callback makes are audible exactly from the tick's time on; clocks may be attached, inserted, reset, detached or re-timed at any moment, also from callbacks, without disturbing the others.",
  ["histories", "schedules"], "all sets of clocks with arbitrary fractional periods and all histories of attach/insert/detach/reset/period changes, also within callbacks",
  "Tests only use the default clock.",
  ["src/BKClock.c", "src/BKContext.c", "src/BKTime.h"],
  [("next tick selection", "src/BKContext.c BKClocksAdvance"), ("tick", "src/BKClock.c BKClockTick"), ("list insert", "src/BKClock.c BKClockAttach")])
p("T02", "Dividers fire on exactly every n-th tick of their clock",
  "A new or reset divider attached to a clock or to a context's beat or effect group fires on the first tick and then on exactly every n-th tick, where n is its count or the value its last callback asked for (at least one), with dividers of one clock firing in the order of attachment; a detached divider never fires. Track arpeggio, effect and instrument steps follow their own divider values in the same way relative to the effect tick rate.",
  ["histories"], "all divider counts, clock periods, attach/detach/reset histories, callback-chosen counts",
  "Tests do not use dividers.",
  ["src/BKClock.c", "src/BKContext.c", "src/BKTrack.c"],
  [("divider tick", "src/BKClock.c BKDividerTick"), ("groups", "src/BKContext.c BKContextTick, BKContextAttachDivider"), ("track divider states", "src/BKTrack.c BKDividerStateTick, BKTrackTick")])
p("T03", "Time arithmetic is exact over its whole range",
  "Times are exact fixed-point numbers: building a time from frames and a fraction, taking it apart, adding, subtracting, converting from seconds and comparing give the mathematically exact results for all values in range, comparisons form a total order, and a context's reported time never goes backwards while generating.",
  ["inputs"], "all time values representable as a 32-bit frame count with 20 fraction bits, and all 12.20 offsets",
  "No test exercises times beyond a few thousand frames.",
  ["src/BKTime.h", "src/BKContext.h"],
  [("BKTime inline functions", "src/BKTime.h"), ("seconds conversion", "src/BKContext.h BKTimeFromSeconds")])
# ---------------------------------------------------------------- pitch & control
p("P01", "Notes sound at the equal-tempered frequency at every sample rate",
  "For every note and fraction of a note in the supported range, every waveform and every sample rate, a track's tone has the equal-tempered frequency relative to A4 = 440 Hz to within a few cents (as far as the fixed-point period allows), a sample plays at speed 2^(n/12) relative to its pitch, and a higher note never sounds lower. Pitch, sample pitch, note, vibrato, arpeggio and instrument pitch add up in note units, out-of-range values are clamped to the supported range, and a track keeps its pitch when its waveform, context or sample changes.",
  ["inputs", "configurations"], "all notes with 20 fraction bits x pitch offsets x waveforms x sample rates 16000..96000",
  "Tests do not check pitch.",
  ["src/BKTone.c", "src/BKTone.h", "src/BKTrack.c"],
  [("period lookup", "src/BKTone.c BKTonePeriodLookup, BKLog2PeriodLookup"), ("note sum", "src/BKTrack.c BKTrackUpdateUnitNote")])
p("P02", "Loudness per channel is the product of volume, master volume and panning",
  "At every moment each channel's level is the track's volume times master volume, times instrument volume and tremolo attenuation when active, with panning (on two-channel contexts only) attenuating exactly the opposite channel linearly; zero panning leaves both equal and full panning silences the other channel. Values are clamped, never exceed full level or turn negative, and a triangle track that ignores volume plays at full level unless its volume is zero.",
  ["inputs", "histories"], "all combinations of volume, master volume, panning, tremolo, instrument values, channel counts, waveforms",
  "Tests only read back one attribute.",
  ["src/BKTrack.c"],
  [("volume combination", "src/BKTrack.c BKTrackUpdateUnitVolume"), ("triangle rule", "src/BKTrack.c BKTrackUpdateIgnoreVolume")])
p("P03", "Slides move monotonically and arrive exactly at their target on time",
  "A volume, panning or note slide of n steps changes monotonically from the current value toward its target, never overshoots, reaches exactly the target value after exactly n effect steps and stays there; changing the target or the number of steps midway continues from the current value without a jump, and zero steps sets the target at once. This holds for the slide state itself and for the track attributes controlled by portamento, volume slide and panning slide.",
  ["inputs", "histories"], "all start/target values and step counts in range, and all mid-slide changes",
  "No test runs a slide.",
  ["src/BKInterpolation.c", "src/BKInterpolation.h", "src/BKTrack.c"],
  [("slide state", "src/BKInterpolation.c BKSlideStateSetValueAndSteps; src/BKInterpolation.h BKSlideStateStep"), ("track effects", "src/BKTrack.c BKTrackEffectTick, BKTrackSetEffect")])
p("P04", "Tremolo and vibrato oscillate periodically, symmetrically and within depth",
  "A tremolo or vibrato with n steps and depth d oscillates 0, +d, 0, -d with a period of exactly 4n effect steps, never exceeds the depth, is symmetric around zero, and continues without exceeding the depth when depth or steps change midway, also when they are slid to new values; tremolo only ever attenuates by at most its depth, and disabling the effect restores the undisturbed volume or pitch.",
  ["inputs", "histories"], "all depths and step counts in range and all mid-oscillation changes",
  "No test runs these effects.",
  ["src/BKInterpolation.c", "src/BKTrack.c"],
  [("interval state", "src/BKInterpolation.c BKIntervalStateStep, BKIntervalStateSetDeltaAndSteps"), ("track effects", "src/BKTrack.c BKTrackEffectTick, BKTrackSetEffect")])
p("P05", "Arpeggios cycle through exactly their notes",
  "An arpeggio adds its offsets to the note in the given order, each for exactly the arpeggio divider's number of effect ticks, repeating endlessly and restarting from its first offset at the arpeggio step after a newly attacked note; changing its notes or length continues inside the new list, an empty arpeggio restores the plain note, and what is read back is what was set (limited to eight notes).",
  ["inputs", "histories"], "all arpeggio lists, dividers and change histories",
  "No test uses arpeggios.",
  ["src/BKTrack.c"],
  [("arpeggio state", "src/BKTrack.c BKTrackArpeggioSetNotes, BKTrackArpeggioTick")])
p("P06", "Instruments shape each note through attack, sustain, release and end",
  "On attack every sequence of an instrument starts at its first value and advances one value per instrument step, loops inside its sustain section while the note is held, continues after it on release, and then ends: a finished sequence keeps its last value, and when all sequences of the instrument have ended the note is muted. Envelopes move linearly from the current level to the level of each step/level point in exactly its number of ticks (never outside the levels they connect), following the same attack, sustain and release rules, an ADSR envelope has exactly its four given parts, and an instrument with no sequence of a kind leaves that value unaffected.",
  ["inputs", "histories"], "all sequences, envelopes, sustain sections, instrument dividers and note histories, several tracks sharing an instrument",
  "No test uses instruments.",
  ["src/BKInstrument.c", "src/BKSequence.c", "src/BKTrack.c"],
  [("sequence state", "src/BKSequence.c BKSequenceFuncSimpleStep, BKSequenceFuncEnvelope*"), ("instrument state", "src/BKInstrument.c BKInstrumentStateTick, BKInstrumentStateSetPhase, BKInstrumentSetEnvelopeADSR"), ("track", "src/BKTrack.c BKTrackInstrumentAttack/Release/Mute")])
p("P07", "Attributes read back what was set, clamped; rejected calls change nothing",
  "Setting an attribute, effect or pointer attribute that is accepted makes the corresponding get return that value clamped to its documented range, and leaves all unrelated attributes unchanged. A call with an unknown attribute or invalid value returns an error with a status name and leaves every readable attribute of the object as it was; for effects and arpeggios the given sizes of the values and of the result area are respected. Attributes of a sample (ranges, position, repetition, release) belong to it and start anew with a new one. The one exception is sample or waveform data that is refused, which leaves the track without data.",
  ["inputs", "histories"], "all attributes of all object classes x all 32-bit values x all preceding histories",
  "Tests check one or two attributes.",
  ["src/BKObject.c", "src/BKTrack.c", "src/BKUnit.c", "src/BKContext.c", "src/BKData.c", "src/BKBase.c"],
  [("dispatch", "src/BKObject.c BKSetAttr, BKGetAttr, BKSetPtr, BKGetPtr"), ("setters", "src/BKTrack.c BKTrackSetAttrInt, src/BKUnit.c BKUnitSetAttr"), ("status names", "src/BKBase.c BKStatusGetName")])
p("P08", "A track is audible exactly from note attack to note end",
  "A track emits signal changes only while a note is active: setting a note unmutes it, muting silences it at once, releasing silences it at once unless an instrument or sample sustain range has a release part, and repeating a note while one is held continues without restarting instrument or sample. Portamento starts only between notes that follow each other without a mute or release, and a muted track produces no further steps until its next note.",
  ["histories"], "all sequences of notes, releases, mutes, instruments and samples",
  "Tests set one note.",
  ["src/BKTrack.c", "src/BKUnit.c"],
  [("note handling", "src/BKTrack.c BKTrackSetNote")])
# ---------------------------------------------------------------- data
p("D01", "Raw sample data of any bit depth decodes to the exact frames",
  "Raw sample data loaded as 1, 2, 4, 8 or 16 bits, signed or unsigned, in little, big or native byte order and with any number of channels is expanded to 16-bit frames exactly as specified by its format, with the frame count following from its size, from memory or from a file position; unsupported formats are rejected with an error and leave the previous content.",
  ["inputs"], "all byte strings x formats x channel counts x buffer alignments",
  "No test loads raw data.",
  ["src/BKData.c"],
  [("bit conversion", "src/BKData.c BKDataConvertFromBits, BKDataSetData, BKDataLoadRaw")])
p("D02", "Valid WAVE files are read exactly",
  "Every valid PCM WAVE file with 8 or 16 bits, any channel count and sample rate, with additional chunks, odd chunk sizes, extended format chunks, or located at any position inside a larger file, is read with the correct channel count, sample rate, frame count and frame values; a file in another format or bit depth is rejected and leaves the target data as it was.",
  ["inputs"], "all valid PCM WAVE files x read partitions x start offsets; other formats and bit depths",
  "The wave test reads one 16-bit file written by the library itself.",
  ["src/BKWaveFileReader.c", "src/BKData.c"],
  [("header and frames", "src/BKWaveFileReader.c BKWaveFileReaderReadHeader, BKWaveFileReaderReadFrames"), ("load", "src/BKData.c BKDataLoadWAVE")])
p("D03", "Written WAVE files are valid and read back identically",
  "A written WAVE file is well-formed at any start position in the file and for any number of frames including none: all header sizes and rates match the content that follows, an independent parser and the library's own reader recover exactly the appended frames (rounded to 8 bits for 8-bit files), regardless of how they were split over calls.",
  ["inputs"], "all frame contents, channel counts, sample rates, bit depths, append partitions, start offsets",
  "The wave test writes one 16-bit file at offset zero.",
  ["src/BKWaveFileWriter.c", "src/BKWaveFileReader.c", "src/BKWaveFile_internal.h"],
  [("header", "src/BKWaveFileWriter.c BKWaveFileWriterWriteHeader, BKWaveFileWriterTerminate"), ("frames", "src/BKWaveFileWriter.c BKWaveFileWriterAppendFrames")])
p("D04", "Data processing keeps frames exact: copy, bit reduction, normalization",
  "Setting frames with or without copying, copying a data object, or initialising copies preserves all frames, counts and settings, and copies are independent of their originals. Normalizing scales the whole data by one common factor so that its peak becomes full scale without changing relative levels beyond rounding; converting to fewer bits yields only the levels of the target bit depth (mirrored and unsigned up to 8 bits, as it is defined), each the one its source frame falls into (give or take the random dithering used up to 8 bits), and silences frames below the given threshold above 8 bits; both leave counts unchanged.",
  ["inputs", "histories"], "all frame contents, counts, bit depths, thresholds, copy modes",
  "No test processes data.",
  ["src/BKData.c"],
  [("normalize", "src/BKData.c BKDataNormalize"), ("convert", "src/BKData.c BKDataConvert"), ("copy", "src/BKData.c BKDataInitCopy, BKDataSetFrames")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
