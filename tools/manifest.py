"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; "

# property -> (technique, level, level_note)
CHECKS = {
    "Q01": ("ring-buffer model exhaustively checked to refine an abstract deque; every operation sequence up to the depth replayed into as_queue; recorded random histories and >2^30-item runs validated as traces of the spec",
            "model_checking", "exhaustive in the model bounds; the real queue is bound by replay and trace validation"),
    "Q02": ("ring-edit model (delete by shifting, insert at index, delete all matches) exhaustively checked to refine an ordered list; specified call sequences at every rotation replayed into cf_queue; recorded random histories validated as traces",
            "model_checking", "exhaustive in the model bounds; the real queue is bound by replay and trace validation"),
    "L01": ("pointer-level chain model exhaustively checked to refine a list; every verdict assignment over small lists replayed into cf_ll; recorded random histories (both directions, iterators, destructor calls) validated as traces",
            "model_checking", "exhaustive in the model bounds; real list bound by replay and trace validation under AddressSanitizer"),
    "E01": ("every operation sequence up to the depth replayed into as_vector; recorded random histories validated as traces of the abstract array",
            "model_checking", "exhaustive in the specified depth; AddressSanitizer watches the storage"),
    "S01": ("every sequence of pieces up to the depth for every small buffer size replayed into as_string_builder; recorded random histories incl. 64-bit numbers validated as traces",
            "model_checking", "exhaustive in the specified depth and buffer sizes; AddressSanitizer watches the buffers"),
    "A01": ("every operation sequence up to the depth replayed into as_arraylist through typed and generic entry points; recorded random histories over two lists validated as traces",
            "model_checking", "exhaustive in the specified depth; AddressSanitizer and leak detection watch the elements"),
    "O01": ("hold-table design model exhaustively checked to refine the ideal map; every history up to the depth replayed into the map; recorded histories over keys of every kind and over thousands of keys validated as traces",
            "model_checking", "exhaustive in the model bounds; the real map is bound by replay and trace validation under AddressSanitizer"),
    "I01": ("every sequence of cursor and callback-visit calls up to the depth over small containers replayed; recorded random iterations validated as traces",
            "model_checking", "exhaustive in the specified depth; real iterators bound by replay and trace validation"),
    "Y01": ("every history of reads, writes, truncations and growths up to the depth (positions and lengths up to 2^32-1) replayed into as_bytes; recorded random histories with typed and variable-length values validated as traces",
            "model_checking", "exhaustive in the specified depth; AddressSanitizer watches the storage and exact-size caller buffers"),
    "Y02": ("conversions specified as functions and checked to be inverse; every small input and target size replayed; recorded random conversions validated",
            "model_checking", "exhaustive over the specified small inputs; AddressSanitizer watches exact-size targets"),
    "S02": ("base name and bounded copy specified as functions, every small input replayed; recorded string and geojson histories validated as traces",
            "model_checking", "exhaustive over the specified small inputs; AddressSanitizer watches exact-size targets"),
    "K01": ("printable form specified as a function of the value, every value of a universe replayed; recorded random values and length sweeps validated as traces",
            "model_checking", "exhaustive over the specified universe; texts contain no zero byte"),
    "P01": ("wire format specified in TLA+ with decode(encode(v)) = v model checked; every value of the universe replayed, recorded round trips up to depth 3000 and 65537 elements validated",
            "model_checking", "exhaustive over the specified universe; random and boundary values beyond it"),
    "P02": ("encoding specified as a function; every value of the universe and every directly packed element around the width boundaries compared byte by byte through TLC",
            "model_checking", "exhaustive over the specified universe; random and boundary values beyond it"),
    "P03": ("encoding specified as a function; values placed across the internal 8 KB boundary and every capacity around the needed one validated as traces",
            "model_checking", "all offsets around the internal boundary; AddressSanitizer watches exact-size buffers"),
    "P04": ("readers specified as partial functions on byte strings; all first bytes, truncations and corruptions of encodings validated as traces",
            "model_checking", "every first byte with selected rests; AddressSanitizer watches exact-size inputs"),
    "P05": ("skipping specified by counting outstanding elements, model checked against encoding; recorded measurements at depths up to 300000 validated",
            "model_checking", "exhaustive over the specified universe; random beyond it"),
    "P06": ("total order specified on values with reflexivity, antisymmetry and transitivity model checked; every pair of the universe and recorded comparisons at depths around and beyond the strategy change validated",
            "model_checking", "exhaustive over pairs of the specified universe; random beyond it"),
    "P07": ("one specified order decides the in-memory and the encoded comparison and the cursor positions; every pair of the universe and recorded comparisons validated",
            "model_checking", "exhaustive over pairs of the specified universe; random beyond it"),
    "Q03": ("TLA+ specification of both queues as atomic objects (ConcQueue); every small concurrent program it generates is run on the real code under enumerated thread schedules and TLC decides whether some order of the calls explains each distinct history", "model_checking", "2-3 threads with up to 4 calls, all schedules with at most 2 preemptions (capped), plus random schedules of up to 5 threads"),
    "Q04": ("TLA+ model of the lock and condition design checked exhaustively (CondQueue), and the specification ConcQueue deciding recorded histories of waiting calls on the real code under enumerated schedules, spurious wake-ups and signal choices", "model_checking", "2-4 threads, at most 2 preemptions and 2 spurious wake-ups per program, plus random schedules of up to 5 threads"),
    "Q05": ("TLA+ specification of exact clock arithmetic (Clock) replayed on boundary instants and checked on recorded random calls; timed pops checked against ConcQueue with a virtual clock under enumerated schedules", "model_checking", "boundary instants and random instants up to 2^32 s after the product's epoch"),
    "T01": ("pool design with stop marks (PoolDesign) exhaustively checked incl. liveness; generated programs of submitters, nested tasks and shutdowns run on the real pool under enumerated and random schedules, each history explained by the ThreadPool specification", "model_checking", "schedules up to 2 preemptions (capped) plus random ones; 0-3 workers"),
    "T02": ("ThreadPool specification with every subset of failing thread starts; generated programs run on the real pool under enumerated schedules, histories explained by the specification", "model_checking", "up to 4 workers, all failure masks, schedules up to 2 preemptions (capped) plus random ones"),
    "B01": ("BufferPool specification (owner of every buffer, statuses, limits, releases); generated programs run on the real pool under enumerated and random schedules incl. failing allocations, histories explained by the specification", "model_checking", "up to 3 threads; schedules up to 2 preemptions (capped) plus random ones"),
    "N01": ("lock/condition design exhaustively checked (MonitorDesign); every short owner program run on the real monitor under enumerated schedules with spurious wake-ups, histories explained by the Monitor specification", "model_checking", "up to 3 notifiers, 3 preemptions and 2 spurious wake-ups (capped) plus random schedules"),
    "V02": ("Refs specification; every short life of 2-3 threads sharing an object, for each counted kind, run under enumerated schedules, histories explained by the specification; releases monitored for happens-before order and use after release", "model_checking", "up to 3 threads, 3 preemptions (capped) plus random schedules"),
    "R01": ("Source specification (each position handed out at most once); generated request programs with failing source run under enumerated schedules with a stand-in source whose bytes tell their position, recorded histories validated as traces", "model_checking", "up to 3 threads, several refills, all placements of source failures in the first uses"),
    "V01": ("TLA+ specification Ownership of references, holders and releases; TLC enumerates all short histories and continuations of prepared sharings and simulates long ones, each replayed into the real values and containers under a sanitizer; every recorded release is checked by OwnershipTrace against the specification", "model_checking",
            "all histories of four calls over three objects (sampled), all two-call continuations of eight prepared sharings (sampled), about 2800 random histories of thirty calls"),
    "F01": ("TLA+ specification Faults (full effect or no change); TLC enumerates short and simulates long histories per container kind, the driver replays each with every single allocation failing in turn under a sanitizer, and FaultsTrace checks status and contents after every call and the allocations left at the end", "model_checking",
            "histories of up to 6 calls enumerated (sampled), about 1200 random ones of 14 calls; every allocation position of each"),
    "F02": ("every encode, measure, decode, skip and compare call of values enumerated from the TLA+ wire-format specification and random ones is run once per allocation it makes with that allocation failing; the recorded answers are validated with TLC", "model_checking", "values of the MsgpackLaws universe, random ones, nesting to 530, several buffers; one failure per call"),
    "F03": ("printing, string-builder histories and base names enumerated from the TLA+ specifications are run once per allocation with that allocation failing; the recorded texts are validated with TLC", "model_checking", "universes of PrintableLaws, StringBuilderGen and TextLaws plus random and wide values; one failure per run"),
    "G01": ("base-64 texts enumerated and their laws checked by TLC from the TLA+ definition, replayed into the code; recorded encodings and decodings validated against the definition", "model_checking", "all byte strings of up to 4 (5) bytes of 6 values and all texts of up to 5 (6) characters of 6, random ones up to 200 characters, one text longer than 2^31"),
    "H01": ("recorded hash values validated by TLC, which evaluates the published definitions in TLA+ over 16-bit limbs", "model_checking", "every length up to 160 (420), random strings up to 600 bytes, three addresses each"),
    "D01": ("recorded digest histories (one call, two parts, any pieces) validated by TLC against a TLA+ definition of RIPEMD-160 and SHA-1", "model_checking", "every split of several lengths around the block size, random piece sequences up to 560 bytes, inputs longer than 2^29 and 2^32 bytes against known values"),
    "R02": ("recorded draws validated by TLC against a TLA+ state machine of the generator", "model_checking", "random histories over chosen and extreme seeds; byte strings up to 90 bytes"),
    "W01": ("recorded password hashes validated by TLC, which evaluates a TLA+ definition of bcrypt at the lowest cost; other spellings and the fixed setting are related to it", "model_checking", "costs 4 and 5 (8 and 10 in the thorough tier), passwords up to 84 characters, all variants"),
    "X01": ("every certificate name against every host over small alphabets, and every short address text, enumerated by TLC from the TLA+ matching rules and put to the code; recorded answers of random certificates validated", "model_checking", "names and hosts of up to 4 (names 5) characters of 5, address texts of up to 5 (7) characters of 6, random certificates of up to 7 names"),
    "M01": ("every set of supplied operations, placement and call sequence enumerated by TLC from the TLA+ forwarding rules and run on the real objects; recorded calls, answers, references and releases validated with TLC", "model_checking", "all operation subsets (records: all, none, one, all but one) with up to 3 (4) calls, plus random histories of objects and results"),
    "F04": ("histories of making and dropping objects enumerated from the TLA+ specification are run once per allocation or lock with that one refused; recorded outcomes and contents validated with TLC", "model_checking", "30 kinds of objects, all histories of 2 calls, sampled histories of 5 calls in 3 slots, every single refused allocation or lock"),
    "L02": ("TLC-generated programs run on the real list under every schedule with few preemptions plus random ones; TLC searches an order of the calls explaining each recorded history (specs/ConcList.tla)", "model_checking", "programs of 2-3 threads, preemption bound 2"),
    "U01": ("TLC-generated programs of operations run on real variables under bounded-exhaustive schedules, TLC searches an order explaining each history (specs/Atomic.tla); publication pairs judged by happens-before (specs/PublishTrace.tla)", "model_checking", "up to 3 operations in 3 threads, every operation and type"),
    "U02": ("exhaustive TLC model of the writer/readers lock (specs/SpinLockDesign.tla, safety and progress); real locks under bounded-exhaustive schedules with spinning modelled, traces checked against specs/SpinLock.tla and happens-before of guarded data", "model_checking", "up to 5 threads, preemption bound 3"),
    "J01": ("TLC enumerates every history of settings and messages; replayed into the real macros and the deliveries checked against specs/Logging.tla", "model_checking", "histories up to 4 (5) calls, all levels"),
    "J02": ("TLC-generated and random numbers converted by the real code, bytes checked against specs/ByteOrder.tla", "model_checking", "every byte at every place"),
    "J03": ("TLC enumerates histories over a scratch directory; replayed into the real code and checked against specs/Directory.tla", "model_checking", "histories up to 4 (5) calls, plus random ones with up to 26 names"),
    "J04": ("recorded durations and thread names checked against specs/Helpers.tla", "model_checking", "boundary and random values"),
    "W02": ("recorded questions on a scripted standard input with stand-in terminal settings, every password and remaining input checked by TLC against specs/Prompt.tla", "model_checking", "inputs up to 200 bytes, buffers of 2 to 137, up to 6 questions"),
    "C01": ("TLC enumerates histories of typed storing calls; replayed into the real containers and every typed reading checked against specs/Typed.tla", "model_checking", "every pair of typed calls on five kinds of container, longer random histories"),
}

NOT_APPLICABLE = {
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
         "notes": "All checks are TLA+ specifications run with TLC and bound to the code by replay and trace validation; see DESIGN.md."}
    for i in ids:
        if i in CHECKS:
            t, lv, note = CHECKS[i]
            cmd = "python3 checks/%s.py" % i
            m["checks"].append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd,
                                "evidence_file": "evidence/%s.json" % i,
                                "technique": TECH + t, "level": lv, "level_note": note})
        else:
            m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
