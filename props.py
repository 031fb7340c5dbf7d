"""What each property's check runs: driver, sanitizer variant, number of cases per tier."""
VARIANTS = {
    "asan": dict(cc="clang", flags="-O1 -fsanitize=address"),
    "ub": dict(cc="clang", flags="-O1 -fsanitize=address,bounds,integer-divide-by-zero,null,alignment,signed-integer-overflow,unreachable,return -fno-sanitize-recover=all"),
    "msan": dict(cc="clang", flags="-O1 -fsanitize=memory -fsanitize-memory-track-origins"),
    "tsan": dict(cc="clang", flags="-O1 -fsanitize=thread -DVF_THREADS=1"),
    # times as on platforms with 32-bit pointers
    "t32": dict(cc="clang", optional=True, first=50000000, flags="-O1 -fsanitize=address -include time32.h"),
    "plain": dict(cc="clang", flags="-O2"),
}
def R(variant, quick, thorough, **kw): return dict(variant=variant, quick=quick, thorough=thorough, **kw)
TRUST = "Holds on the executions made; trusts the harness' own model, clang's sanitizers and the redirected allocator."
PROPS = {
    "T03": dict(mods=["p_time"], runs=[R("asan", 80000, 1600000), R("t32", 40000, 800000)], technique="online reference-model monitor (exact 128-bit arithmetic) under ASan",
        rule="random operand pairs over the whole range and random context runs; distinct by (operation, operand magnitudes and order, kind of context-time situation)",
        note="Every time function is compared with exact integer arithmetic on random and boundary operands; context time is monitored over random runs. " + TRUST, min_sigs=50, min_events={"comparisons": 1000, "ticks": 100}),
    "P03": dict(mods=["p_interp", "p_track", "ref"], runs=[R("asan", 300000, 6000000), R("asan", 60000, 1200000, driver="P03_track"), R("t32", 15000, 300000, driver="P03_track")], technique="online trace monitor (monotone, bounded, exact arrival) over random slide histories",
        rule="random histories of slide settings and steps; distinct by (operation, maximum value, magnitude of steps, direction, finished or interrupted)", note=TRUST, min_sigs=50),
    "P04": dict(mods=["p_interp", "p_track", "ref"], runs=[R("asan", 150000, 3000000), R("asan", 60000, 1200000, driver="P04_track")], technique="online trace monitor (depth, period, symmetry, shape) over random oscillator histories",
        rule="random histories of depth and step settings and steps; distinct by (operation, maximum value, magnitude of steps, relation to the previous settings)", note=TRUST, min_sigs=50),
    "S01": dict(mods=["p_split", "scene"], runs=[R("asan", 64000, 2000000), R("t32", 12800, 500000)], technique="differential execution monitor: recorded event logs, audio and state of the same plan in different splittings",
        rule="random scenes played whole and in two random splittings; distinct by (splittings, audio heard)", note="All frames, callback times and readable attributes of a split run must equal those of the unsplit one exactly. " + TRUST, min_sigs=500, min_events={"audible_scenes": 1000}),
    "M01": dict(mods=["p_life", "scene"], runs=[R("ub", 30000, 1500000), R("msan", 15000, 800000), R("t32", 8000, 400000)], technique="hostile stress under ASan+UBSan and MSan",
        rule="random hostile API histories; distinct by pairs of consecutive operations with and without time passing between", note="Memory errors, undefined arithmetic that C defines as such, uninitialised reads and hangs on the driven histories. " + TRUST, min_sigs=500),
    "M02": dict(mods=["p_life", "scene"], runs=[R("asan", 50000, 3000000)], technique="disposal-order stress under ASan with an allocation ledger",
        rule="random histories with disposal and creation of every kind of object; distinct by pairs of consecutive operations", note="Use of freed objects shows as ASan reports, leaks as blocks left in the ledger of redirected allocations. " + TRUST, min_sigs=500),
    "S03": dict(mods=["p_buf", "ref"], runs=[R("asan", 80000, 1600000)], technique="online reference-model monitor (independent 64-bit synthesis) of buffer output",
        rule="random step histories on output buffers; distinct by (kernel, sub-frame phase, position, saturation)", note="Exact equality with an independent unbounded-precision rendering of the same steps. " + TRUST, min_sigs=50),
    "S04": dict(mods=["p_mix", "scene"], runs=[R("asan", 75000, 1500000), R("t32", 15000, 300000)], technique="differential execution monitor: mix against sum of solo runs, permuted attachment, altered channel",
        rule="random scenes of several voices, played mixed and each voice alone, or in other attachment order, or with one channel's content altered; distinct by audio", note=TRUST, min_sigs=500, min_events={"mixed_values": 100000, "permutations": 100, "channel_variations": 100}),
    "S07": dict(mods=["p_mix", "scene"], runs=[R("asan", 87500, 1750000), R("t32", 17500, 350000)], technique="differential execution monitor: history + reset against freshly created objects",
        rule="random history, reset, second random history compared with the second history on fresh objects; distinct by audio after the reset", note=TRUST, min_sigs=500, min_events={"context_resets": 1000, "track_resets": 1000}),
    "M06": dict(mods=["p_mix", "scene"], runs=[R("asan", 25000, 1500000), R("tsan", 400, 20000, driver="M06_threads")], technique="differential execution monitor (memory fills, interleaved contexts, threads) and ThreadSanitizer",
        rule="random scenes repeated over differently filled memory, interleaved with another scene down to single calls inside callbacks, or concurrently in four threads; distinct by audio", note=TRUST, min_sigs=500, min_events={"memory_variations": 1000, "interleavings": 1000, "threads": 400}),
    "S02": dict(mods=["p_split", "scene"], runs=[R("asan", 62500, 1500000), R("t32", 12500, 300000)], technique="online counting and ordering monitor of delivered frames against a whole rendering, with canaries and refusals",
        rule="random sequences of generate, end, read and generate-to-time calls (also refused); distinct by sequence of calls", note=TRUST, min_sigs=500, min_events={"generated_frames": 10000, "read_frames": 10000, "totime_frames": 10000, "refusals": 100}),
    "S05": dict(mods=["p_unit", "ref"], runs=[R("asan", 64000, 2000000), R("t32", 8000, 300000)], technique="online reference-model monitor of a unit's steps, rendered independently and compared frame by frame",
        rule="random waveform units with random changes at arbitrary times or in clock callbacks; distinct by waveform and sequence of changes with sound", note=TRUST, min_sigs=500, min_events={"steps": 1000000}),
    "S06": dict(mods=["p_unit", "ref"], runs=[R("asan", 240000, 4800000), R("t32", 30000, 600000)], technique="online reference-model monitor of sample playback, position, notifications and rendered audio",
        rule="random samples with random ranges, modes and changes at arbitrary times or in callbacks; distinct by sequence of changes with sound", note=TRUST, min_sigs=500, min_events={"steps": 1000000, "notifications": 10000}),
    "P02": dict(mods=["p_track", "ref"], runs=[R("asan", 140000, 2800000)], technique="online reference-model monitor of the channel levels at every tick, and of the audio they make",
        rule="random histories of volume, master, panning, slide, tremolo and instrument changes on one or two tracks; distinct by history and resulting levels", note=TRUST, min_sigs=500, min_events={"audible_ticks": 200000, "audio_frames": 100000}),
    "P05": dict(mods=["p_track", "ref"], runs=[R("asan", 200000, 4000000)], technique="online reference-model monitor of the sounding pitch at every tick",
        rule="random histories of arpeggios, dividers, lengths and notes; distinct by history and resulting periods", note=TRUST, min_sigs=500, min_events={"arpeggios": 50000, "arpeggio_steps": 200000}),
    "P06": dict(mods=["p_track", "p_long", "ref"], runs=[R("asan", 40000, 800000, driver="P06_seq"), R("asan", 64, 2000, driver="P06_long"), R("asan", 140000, 2800000), R("t32", 17500, 350000)], technique="online reference-model monitor of volume, panning, pitch, duty cycle and mute at every tick",
        rule="random instruments (value sequences, envelopes, ADSR) under random notes, releases and changes; distinct by history and resulting attributes", note=TRUST, min_sigs=500, min_events={"sequence_ends": 20000, "instrument_ends": 10000, "audible_ticks": 200000}),
    "P08": dict(mods=["p_track", "p_unit", "ref"], runs=[R("asan", 90000, 1800000), R("asan", 75000, 1500000, driver="P08_sample")], technique="online reference-model monitor of mute state and rendered audio of waveform, instrument and sample tracks",
        rule="random note, mute, release and repeated-note histories; distinct by history", note=TRUST, min_sigs=500, min_events={"notes": 20000, "releases": 5000, "mutes": 5000, "held_notes": 1000, "sustain_releases": 500, "audio_frames": 100000}),
    "T01": dict(mods=["p_clock", "p_long"], runs=[R("asan", 96, 3000, driver="T01_long"), R("plain", 1, 8, driver="T01_far", cpu=60), R("asan", 300000, 6000000), R("t32", 75000, 1500000)], technique="online trace checker: each callback against an independent discrete-event simulation",
        rule="random clock and divider histories with scripted calls between and inside callbacks; distinct by calls and order of callbacks", note=TRUST, min_sigs=500, min_events={"clock_ticks": 500000, "divider_calls": 50000, "detached_in_callback": 1000}),
    "T02": dict(mods=["p_clock", "p_track", "p_long", "ref"], runs=[R("asan", 96, 3000, driver="T01_long"), R("asan", 180000, 3600000), R("asan", 60000, 1200000, driver="T02_track"), R("t32", 30000, 600000)], technique="online trace checker: each callback against an independent discrete-event simulation; per-tick model of track dividers",
        rule="random clock and divider histories with scripted calls between and inside callbacks, and track dividers; distinct by calls and order of callbacks", note=TRUST, min_sigs=500, min_events={"clock_ticks": 200000, "divider_calls": 200000, "divider_changes": 20000}),
    "D02": dict(mods=["p_wave", "fio"], runs=[R("asan", 120000, 2400000), R("msan", 48000, 960000)], technique="online reference monitor (independent WAVE parser) under ASan and MSan",
        rule="random valid WAVE files at random offsets; distinct by bits, channels, frames, header layout", note=TRUST, min_sigs=500, min_events={"files": 10000, "frames": 1000000}),
    "D03": dict(mods=["p_wave", "fio"], runs=[R("asan", 400000, 8000000), R("msan", 160000, 3200000)], technique="online reference monitor (independent WAVE parser) of written files under ASan and MSan",
        rule="random content, formats, append partitions, terminations and start offsets; distinct by these", note=TRUST, min_sigs=500, min_events={"written_files": 5000, "frames": 1000000}),
    "M04": dict(mods=["p_wave", "fio"], runs=[R("ub", 80000, 2000000), R("msan", 40000, 1000000)], technique="structure-aware fuzzing under ASan+UBSan and MSan with a contract monitor",
        rule="valid WAVE files with random mutations, truncations and splices, and random bytes; distinct by kinds of mutation and outcome", note=TRUST, min_sigs=300, min_events={"accepted": 1000, "rejected": 1000, "silent_frames": 10000, "load_rejected": 500}),
    "D01": dict(mods=["p_data", "fio"], runs=[R("asan", 480000, 9600000), R("msan", 160000, 3200000)], technique="online reference-model monitor (independent decoder) under ASan and MSan",
        rule="random bytes in all formats, byte orders, channel counts, alignments, from memory or file, and unusable formats; distinct by sequence of these", note=TRUST, min_sigs=500, min_events={"decoded": 10000, "rejected": 2000, "frames_compared": 1000000}),
    "D04": dict(mods=["p_data", "fio"], runs=[R("asan", 720000, 14400000), R("msan", 240000, 4800000)], technique="online reference-model monitor of data objects under ASan and MSan",
        rule="random histories of setting, copying, normalizing, converting and disposing data objects; distinct by history", note=TRUST, min_sigs=500, min_events={"normalized": 5000, "converted": 100000, "copies": 5000}),
    "M03": dict(mods=["p_stale", "fio"], runs=[R("asan", 45000, 900000)], technique="differential execution monitor: what each user plays against a fresh user of the content it should play, under ASan",
        rule="random histories of data operations with up to four tracks and units using them; distinct by history", note=TRUST, min_sigs=500, min_events={"selected": 5000, "refused": 500, "user_changes": 5000, "users_silenced": 2000, "sounding_users": 10000}),
    "M05": dict(mods=["p_fault", "fio"], runs=[R("asan", 120000, 2400000)], technique="fault injection (every allocation and file operation) with state, ledger and differential audio monitors under ASan",
        rule="random calls on a random playing world, failing at each position in turn; distinct by call and fault positions", note=TRUST, min_sigs=300, min_events={"alloc_faults": 10000, "file_faults": 10000, "compared_worlds": 5000, "full_device": 100}),
    "P01": dict(mods=["p_tone", "p_track", "ref"], runs=[R("asan", 180000, 3600000), R("asan", 120000, 2400000, driver="P01_sum")], technique="online monitor of frequencies against equal temperament (lookups, periods, phase of the heard fundamental, sample loop counts) and per-tick pitch model",
        rule="random notes, pitches, rates, waveforms, samples and contexts; distinct by history and notes", note=TRUST, min_sigs=500, min_events={"lookups": 100000, "heard": 1000, "sample_runs": 500, "periods": 50000}),
    "P07": dict(mods=["p_attr"], runs=[R("asan", 375000, 7500000)], technique="online state monitor: every readable attribute of every object before and after each call against a prediction, under ASan",
        rule="random attribute, pointer and effect calls with any values on tracks, units, contexts, data, instruments and clocks, with time passing and attachment changes between; distinct by sequence of attributes and outcomes", note=TRUST, min_sigs=500, min_events={"accepted": 100000, "rejected": 50000, "effects": 10000, "arpeggios": 5000, "ranges": 20000, "data_set": 5000, "result_areas": 2000, "sounding_cases": 1000}),
}
