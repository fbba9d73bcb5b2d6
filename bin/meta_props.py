# The properties, grouped by the part of the library they belong to.  Executed by gen_meta.py.

# ------------------------------------------------------------------ containers and shared state
prop("C01", "Byte FIFO carries the exact byte stream between two unsynchronised contexts",
 """With one producer context and one consumer context using a byte FIFO without any lock, the bytes the consumer
 obtains are exactly the bytes the producer had accepted, in order, without loss, duplication or invention, wherever
 the two are interleaved and also after the running counters wrap.
 If either context dies inside a call, that call took effect entirely or not at all, and the FIFO keeps working for
 whoever continues. Nothing outside the FIFO's storage and the caller's buffers is written.""",
 ["schedules", "crash_points", "inputs"],
 "every interleaving of the two sides' memory accesses, every point of death of either side, every power-of-two size, start index and operation mix",
 "the unit tests call the FIFO from one thread with a few sizes; no test runs a producer and a consumer concurrently, kills one, or starts near index wrap-around",
 ["src/fifo_byte.c", "include/swiftnav/fifo_byte.h"],
 [("publish index only after the copy", "fifo_write/fifo_read"), ("one writer per index", "fifo_t")],
 ["fifo_write", "fifo_read", "fifo_peek", "fifo_remove"],
 [("read_index/write_index", "free-running 32-bit counters", "fifo_t")])
prop("C02", "Byte FIFO length, space and transfer counts account for every byte",
 """A write accepts as many bytes as fit and no more; a read, peek or removal delivers as many as are stored, up to the
 request, and a peek removes nothing. Length plus space equals the capacity at rest, and seen from either side during
 concurrent use each reported number lies between the true values before and after the other side's pending call.
 The whole capacity is usable.""",
 ["schedules", "inputs", "histories"],
 "every call sequence and interleaving, request lengths from zero to beyond the capacity, every start index including wrap-around",
 "tests check counts for fixed sequences on one thread",
 ["src/fifo_byte.c"], [("length from wrapped index difference", "fifo_length")], ["fifo_length", "fifo_space", "fifo_write", "fifo_read"])
prop("C03", "GLONASS slot map is safe and never torn under concurrent use",
 """Every change of a GLONASS slot-to-frequency mapping made by setting or clearing (one slot or all) happens between one
 call of the user's lock function and the matching call of the unlock function; locks are never nested, never left held,
 and every unlock follows a lock. Whatever the interleaving of setters, clearers and readers, a reader of one slot gets a value
 some setter stored for that slot (or unmapped), consistent with one global order of the operations.
 Only the lock functions given by the last initialisation are ever called. Out-of-range slots or frequencies never change anything.""",
 ["schedules", "inputs", "histories"],
 "every interleaving of several threads' calls at memory-access granularity with a real blocking lock supplied by the user, every valid and invalid slot and frequency",
 "tests run single-threaded without lock callbacks",
 ["src/glo_map.c"], [("lock/unlock callbacks around each slot write", "glo_map_set_slot_id/glo_map_clear_slot_id")],
 ["lock/unlock callbacks", "glo_map_valid", "glo_map_get_fcn"], [("slot map", "slot -> frequency number, 0 unmapped", "glo_map.c")])
prop("C04", "GLONASS slot map answers reflect the whole history of updates",
 """After any sequence of set, clear, clear-all and invalid set calls, every slot 1..28 is mapped exactly to the frequency last set since its last clear,
 and the reverse lookup of a frequency returns how many slots (0, 1 or 2, more than two count as two) hold it, the lowest-numbered such slots in ascending order, and zero in
 the unused outputs. Setting one slot never disturbs another.""",
 ["histories", "inputs"],
 "every operation history over all slots and frequencies, including re-mapping, duplicates and invalid arguments",
 "tests use a handful of slots in one order",
 ["src/glo_map.c"], [("linear scan in slot order", "glo_map_get_slot_id")], ["glo_map_valid", "glo_map_get_fcn", "glo_map_get_slot_id"])
prop("C05", "Status reports reach every registered callback exactly once",
 """A status report invokes each callback registered at that moment exactly once, in registration order, with the report's component and codes and
 that callback's own context, and invokes nothing else; each node counts, also when nodes share a callback and a context or have none. This holds for every history of registering, re-registering
 (which replaces the earlier registration and moves it last), registering with no callback (which only removes), deregistering
 (also of unknown nodes) and resetting, and also when callbacks deregister themselves or others, or register nodes that were not registered when the report began, while it is being delivered.""",
 ["histories", "inputs"],
 "every history of registrations and reports over several nodes, with re-entrant changes at every callback; for reports with re-entrant changes the claim is for callbacks registered from its start to its end",
 "tests register at most a few nodes once, in order; re-registration, removal during delivery and NULL callbacks are not tried",
 ["src/subsystem_status_report.c"], [("singly linked list of user-owned nodes", "subsystem_status_report.c")], ["the callbacks"],
 [("callback list", "registered nodes in order", "subsystem_status_report.c")])
prop("C06", "Log messages go once, intact, to the implementation installed at the time",
 """Every message logged at level informational or more severe is delivered exactly once to the installed implementation, with its level and
 formatted text intact (detailed messages also with the source file's base name and the line; messages about a signal begin with the signal's name); debug messages are not delivered by default. Replacing the implementation at any
 moment, from any thread, loses, duplicates or misdirects no message: it goes to an implementation installed at some time during the call.
 Removing the implementation restores the default one.""",
 ["schedules", "histories", "inputs"],
 "every interleaving of logging threads with a thread that swaps implementations, every level, every message",
 "tests install one logger once, single-threaded",
 ["src/logging.c", "src/logging_common.c", "include/swiftnav/logging.h"], [("global function pointers", "log_/detailed_log_")], ["installed log functions"])
prop("C07", "Rate-limited logging follows the clock, including steps and wrap-around",
 """A rate-limited log statement emits on its first use, and afterwards exactly when the 32-bit clock value passed to it has advanced by at least the threshold
 (1000 ticks, modulo 2^32) since the last emission; a backwards step counts as a large advance and emits. Suppressed uses change nothing, and statements at different places are limited independently.
 A statement that runs at every n-th use runs at its first use and at every n-th after it, and never when n is zero.""",
 ["histories", "inputs"],
 "every history of clock values including jumps backwards, forward jumps, repeats and wrap at week end or 2^32, over several statements",
 "no test covers the rate limiter",
 ["include/swiftnav/logging.h"], [("static last-emission tick per statement", "LOG_RATE_LIMIT")], ["emissions of a statement"])
prop("C08", "Signal-identifier sets behave as sets under every history",
 """After any sequence of additions and removals, a signal set contains exactly the signals added and not since removed; its signal count is the number of such signals and its satellite
 count the number of distinct satellites (of a constellation) among them, however often an element is added or removed.""",
 ["histories", "inputs"], "every history over all codes and satellites",
 "tests add a few signals once", ["src/sid_set.c", "src/bits.c"], [("one bit per satellite and code", "sid_set.c")], ["sid_set_contains", "sid_set_get_sat_count", "sid_set_get_sig_count"])
prop("C09", "Sorted sets stay sorted sets under every insert/remove history",
 """Inserting an absent element into a sorted set and removing elements keep it a sorted set with exactly the expected members and report the right position; removing takes the first element
 not less than the given one, or the last element if all are less. The intersection of two sorted sets visits exactly the common elements, once each, in order, with a matching pair from both sides, and the set test
 accepts exactly strictly ascending arrays; looking a value up in a list finds it exactly if it is there. Nothing beyond the result's own length is written.""",
 ["histories", "inputs"], "every history over sets of 0..40 elements of several sizes (set test: up to 255 elements)",
 "intersection is tested on a few arrays; insertion and removal have no test at all", ["src/set.c"], [("linear merge", "intersection_map"), ("split copy at the insertion index", "insert_element/remove_element")],
 ["insert_element", "remove_element", "intersection", "is_set", "is_value_in_array"])

# ------------------------------------------------------------------ bit level
prop("C10", "Input bit and byte streams never read outside the received data",
 """Reading a field of up to 32 (or 64) bits, or any run of bytes, at any position from an input bit stream or byte stream holding a (possibly truncated) message succeeds exactly when the field lies wholly inside the
 remaining data, and then returns exactly its bits (sign-extended for signed reads, byte order as configured for byte streams); otherwise it fails, reads nothing and leaves the output and the stream unchanged.
 Remaining length and consumption always agree, never below zero, for every position, length and amount consumed up to 2^32-1.""",
 ["inputs", "histories", "fault_sequences"],
 "every message length, truncation point, field position and length and consume history, including values near 2^32 and consuming past the end",
 "tests read well-formed buffers at a few offsets", ["include/swiftnav/bitstream.h", "include/swiftnav/bytestream.h", "src/bits.c"],
 [("overflow test before each access", "would_overflow")], ["swiftnav_in_bitstream_*", "swiftnav_bytestream_*"])
prop("C11", "Bit-field writes change the addressed bits and nothing else",
 """Writing a field of any width (1..32 or 1..64 bits) at any bit position stores exactly the low-order bits of the value there, reads back to the same value, and changes no other bit of the buffer; an output bit stream
 refuses, unchanged, any write that does not fit wholly in the remaining space. Words placed in a stated byte order lie in memory in that order and read back the same. Bit copies between buffers and left shifts of a buffer move exactly the bits they should.""",
 ["inputs", "histories"], "every position, width, value and buffer content; every history of writes",
 "tests check selected positions and widths", ["src/bits.c", "include/swiftnav/bitstream.h"], [("masked byte updates", "setbitu/setbitul")], ["setbitu", "setbitul", "bitcopy", "bitshl", "swiftnav_out_bitstream_*"])
prop("C12", "CRC-24Q detects channel errors and is independent of fragmentation",
 """The CRC-24Q of a message is the same however the message is cut into fragments whose CRCs are chained, equals the remainder defined by its generator polynomial, and differs after any error burst of at most 24 bits, any single- or double-bit
 error, and any odd number of bit errors in messages up to 1 kB. The bit-wise variant, started from zero, equals the CRC of the message (of its bit-wise complement when inversion is asked for) left-padded with zero bits to whole bytes, and neither reads beyond the message.""",
 ["inputs", "fault_sequences"], "every message, every fragmentation, every error burst position and pattern within the stated classes",
 "tests compare a few known CRCs", ["src/edc.c"], [("byte table", "crc24q"), ("bit realignment", "crc24q_bits")], ["crc24q", "crc24q_bits"])
prop("C13", "Bounded copies never write past the destination",
 """A checked memory copy either copies exactly the requested bytes, when both pointers are present, the count is positive and fits the destination and the source bytes do not overlap the destination buffer (source and destination being the same address excepted), or
 returns an error that applies and leaves the destination untouched. Bounded string length never looks past the bound.""",
 ["inputs"], "every size, alignment, overlap and NULL combination", "tests cover one case per error code", ["src/memcpy_s.c", "include/swiftnav/swift_strnlen.h"], [("checks before the copy", "memcpy_s")], ["memcpy_s", "swift_strnlen"])

# ------------------------------------------------------------------ navigation message assembly
prop("C14", "GLONASS string Hamming check locates or rejects channel errors",
 """A GLONASS string sent with a correct Hamming code is accepted as received intact; any single flipped data bit is located exactly, a flipped check bit never condemns intact data bits unless it is the overall parity bit,
 and any two flipped bits including at least one data bit are rejected.""",
 ["inputs", "fault_sequences"], "every string content and every single or double bit error position",
 "tests use a few captured strings and single errors", ["src/decode_glo.c"], [("Hamming check sums", "error_detection_glo")], ["error_detection_glo"])
prop("C15", "GLONASS ephemeris assembly yields a usable ephemeris or none",
 """From the five strings of a frame received over a lossy, noisy, reordering channel, the GLONASS decoder reports a valid ephemeris only if every string is in its place, passes its Hamming check and has all its parameters in range; the result then equals what the satellite
 sent (position, velocity, acceleration, clock, timing, issue, health, accuracy) and nothing left over from an earlier frame or ephemeris shows through, except that a frame announcing no update interval keeps the previous fit interval. A frame with a wrong, missing, corrupted or out-of-range string never produces a valid ephemeris,
 and whatever was received, the result can be queried for validity without failing.""",
 ["inputs", "histories", "fault_sequences"],
 "every broadcast parameter set, every loss, swap, stale or corrupted string combination across a sequence of frames decoded into the same storage",
 "tests decode a few recorded frames once", ["src/decode_glo.c", "src/ephemeris.c"], [("all-or-nothing over five strings", "decode_glo_ephemeris")], ["decode_glo_ephemeris", "decode_glo_string_*"])
prop("C16", "GPS ephemeris assembly never mixes issues and dates frames correctly",
 """From three GPS LNAV subframes collected across data-set cutovers, losses and week rollovers, the decoder reports a valid ephemeris only if the three subframes carry the same issue of data and their reference time of ephemeris is in range;
 then every parameter equals the transmitted one at its transmitted resolution, the reference week is the one placing the reference time within half a week of the time of transmission, and the full week is the unique one in the 1024 weeks from the given reference week. Nothing from a previous ephemeris in the same storage shows through.""",
 ["inputs", "histories", "fault_sequences"], "every parameter set, every mixing of subframes of successive issues, every week and time of week including rollovers, every reference week",
 "tests decode a few recorded subframe sets", ["src/ephemeris.c", "src/gnss_time.c"], [("issue comparison", "decode_ephemeris_with_wn_ref"), ("week matching", "gps_time_match_weeks_safe")], ["decode_ephemeris", "decode_ephemeris_with_wn_ref"])
prop("C17", "Galileo ephemeris assembly never mixes issues or accepts bad times",
 """From five Galileo I/NAV pages collected across issue cutovers and losses, the decoder marks the ephemeris valid exactly when its first four pages carry one issue of data, the reference times lie within the week and the satellite's signals are healthy or about to go out of service. A reference time beyond the week is refused, a consistent set is not;
 every parameter of a consistent set equals the transmitted one at its transmitted resolution and the reference weeks are those nearest the transmitted system time. A failure never leaves a valid ephemeris behind, and nothing from a previous ephemeris in the same storage shows through (the health bits, which the decoder does not set, excepted).""",
 ["inputs", "histories", "fault_sequences"], "every parameter set with a system time within its week, every page substitution from other issues, every week boundary, every previous content of the storage",
 "tests decode one recorded set", ["src/ephemeris.c"], [("issue comparison", "decode_gal_ephemeris_safe")], ["decode_gal_ephemeris_safe"])
prop("C18", "BeiDou D1 ephemeris words decode to what the satellite sent",
 """From the three BeiDou D1 subframes of one data set, every orbit, clock and ionosphere parameter, health flag, accuracy, group delay, issue and reference time decoded equals the transmitted one at its transmitted resolution, for every value of every field, independent of what the destination held before
 (validity and fit interval, which the decoder does not set, excepted). The issue checksum computed from a decoded ephemeris is the CRC-24Q of the transmitted fields.""",
 ["inputs", "histories"], "every value of every field, every previous destination content, time of week and week",
 "tests decode one recorded set", ["src/ephemeris.c"], [("field extraction", "decode_bds_d1_ephemeris")], ["decode_bds_d1_ephemeris", "get_bds2_iod_crc"])
prop("C19", "GPS almanac, health and UTC pages are taken only from the right pages",
 """Fed any stream of GPS subframe 4/5 pages in any order, with losses and other pages interleaved, each page decoder accepts exactly the pages meant for it (data ID and page SV ID), then returns exactly the transmitted parameters (almanac orbit and clock, reference week and time, per-satellite health with the matching validity mask, ionosphere, UTC and leap second
 parameters), and otherwise refuses; a page meant for another decoder leaves no usable content in its output, whatever the output held before. A UTC page whose leap second day is none of 1 to 7 is refused.""",
 ["inputs", "histories", "fault_sequences"], "every page content and identifier, every order of pages, every previous content of the output",
 "tests decode a few recorded pages", ["src/almanac.c", "src/gnss_time.c"], [("data ID and SV ID test", "almanac_decode*, decode_utc_parameters*")], ["almanac_decode", "almanac_decode_week", "almanac_decode_health", "decode_utc_parameters", "decode_iono_parameters"])

# ------------------------------------------------------------------ time
prop("C20", "UTC advances without gaps or repeats through leap seconds",
 """As GPS time advances in any steps, the UTC produced from it (with the built-in table or with broadcast parameters announcing a leap second or none) advances by exactly the same amount of elapsed seconds, shows second 60 during exactly the one second of a leap second and at no other time, always forms a valid calendar date with consistent day of year and
 weekday, and changes its offset only at leap seconds by the announced amount. The date, Modified Julian Day and Unix time forms agree with it, its sidereal angle is that of the instant in [0, 2 pi), converting UTC back gives the original GPS time to within 2 microseconds, and no instant makes a conversion fail. (Within a microsecond of a leap second's edges, the resolution of a time of week, either side's reading counts.)""",
 ["inputs", "histories", "fault_sequences"],
 "every instant between 1980 and 2200, every sequence of clock steps and jumps, every broadcast parameter set with small drift and a leap second at an end of day (of 0 or +1 s) used within 200 weeks of it, with uploads and losses of parameters on the way; within a microsecond of a leap second's edges the reading of either side counts, and the way back is claimed from 0.1 ms off the edges (Modified Julian Day: outside leap seconds)",
 "tests check conversions at selected instants", ["src/gnss_time.c", "include/swiftnav/leap_seconds.h"], [("leap second table search", "get_gps_utc_offset"), ("leap second detection", "is_leap_second_event")],
 ["gps2utc", "utc2gps", "get_gps_utc_offset", "is_leap_second_event", "gps2date", "date2gps", "gps2mjd", "mjd2gps", "mjd2date", "mjd2utc", "gps2doy", "gps2time", "date2utc", "utc2date", "utc2gmst"])
prop("C21", "Truncated week numbers resolve to the right week whatever the clock says",
 """A week number received modulo 1024 or modulo 256 resolves to the congruent week in the 1024 or 256 weeks starting at the reference week, for every reference up to week 60000 (a received value already at or after the reference is returned as is). A time whose week is unknown is given the week that places it nearest the reference time,
 never more than half a week away; with an unknown reference week it is left alone, and a result before the start of GPS time is refused.""",
 ["inputs", "fault_sequences"], "every raw value, reference week and pair of times, including the week edges",
 "tests check a few weeks", ["src/gnss_time.c"], [("modular adjustment", "gps_adjust_week_cycle*"), ("nearest week", "gps_time_match_weeks_safe")], ["gps_adjust_week_cycle", "gps_adjust_week_cycle256", "gps_time_match_weeks_safe"])
prop("C22", "GLONASS time and GPS time convert both ways, leap seconds included",
 """Converting a GPS time from 1996 on to GLONASS time and back returns the same GPS time to within a microsecond, inside leap seconds too; the GLONASS day number, four-year interval, hour, minute and second are Moscow time (UTC plus three hours) of that instant and in their ranges;
 and a GLONASS time with a day or interval number out of range converts to the unknown time. (Within a microsecond of a leap second's edges, the resolution of a time of week, either side's reading counts.)""",
 ["inputs", "histories"], "every instant from 1996 to 2100, at year, cycle and leap-second boundaries, with the built-in table or broadcast parameters with offsets up to 0.4 microseconds; every out-of-range field value",
 "tests check a few instants", ["src/gnss_time.c"], [("calendar arithmetic", "glo2gps/gps2glo")], ["glo2gps", "gps2glo"])
prop("C23", "GPS clock arithmetic is consistent across week boundaries",
 """Stepping a GPS time by any sequence of positive and negative amounts keeps it normalised (seconds of week in [0, 604800)), equals stepping by their sum, and the difference of two times equals the amount stepped between them, in seconds or in weeks and seconds of one sign; with a week unknown the difference is the one nearest zero, in [-302400, 302400].
 Being in a time range agrees with the differences, and rounding or flooring to an epoch grid gives the nearest or last grid instant at any week edge (to a nanosecond).
 A duration in weeks and seconds is normalised without changing its length, whole seconds since 1970 in the GPS scale (after the reference week) split into their week and second, and a week counts as current only within the 1024 weeks from the reference.""",
 ["histories", "inputs"], "every start time, every history of steps (sub-nanosecond to many weeks), every pair of times, and every grid rate of 1 to 100 per second",
 "tests check a few values", ["src/gnss_time.c"], [("normalisation", "unsafe_normalize_gps_time")], ["add_secs", "gpsdifftime", "gpsdifftime_week_second", "gpstime_in_range", "round_to_epoch", "floor_to_epoch"])

# ------------------------------------------------------------------ validity
prop("C24", "An expired, unhealthy or inconsistent ephemeris is never used",
 """At every receiver time, including jumped clocks and unknown weeks, an ephemeris is usable only if it is marked valid, dated, with a non-zero fit interval, healthy for its signal and with issue numbers legal for its system, and (augmentation satellites excepted) both the time asked about and its clock reference time lie in its validity window: centred on the reference time for GPS, QZSS and GLONASS, starting at it for Galileo and BeiDou.
 The detailed status names the first failing condition, all validity queries agree, and a satellite state, azimuth/elevation or Doppler query that checks the ephemeris fails without producing a result when it is unusable. An accuracy index outside its system's table is reported as no accuracy, which counts as unhealthy.""",
 ["inputs", "histories", "fault_sequences"], "every ephemeris of every system, every query time around each edge, every clock jump and unknown week",
 "tests check a few ephemerides at a few times", ["src/ephemeris.c"], [("status ladder", "get_ephemeris_status_t"), ("window test", "ephemeris_params_valid")], ["ephemeris_valid", "ephemeris_valid_detailed", "get_ephemeris_status_t", "calc_sat_state", "calc_sat_az_el", "calc_sat_doppler"])
prop("C25", "An expired, undated or unhealthy almanac is never reported usable",
 """An almanac is reported usable at a time exactly if it is marked valid, healthy, has a positive fit interval, a dated reference time and that time lies within half the fit interval of the reference time (weeks unknown: of its nearest occurrence). A satellite state, azimuth/elevation or Doppler query fails without producing a result when the almanac is not marked valid, undated, without fit interval or (GPS) away from its reference time.""",
 ["inputs", "fault_sequences"], "every almanac of GPS and augmentation satellites and every query time around the edges, with unknown weeks",
 "tests check a few", ["src/almanac.c"], [("window test", "almanac_valid")], ["almanac_valid"])

# ------------------------------------------------------------------ positioning
prop("C26", "The position solver never labels a rejected solution valid",
 """For any set of measurements, the position solver returns a negative code or a solution marked valid; a valid solution has a geometric dilution of precision of at most 20, an altitude between -1 km and 1000 km and, with a valid velocity, a speed below 1000 knots, finite values, consistent latitude/longitude/height and Cartesian coordinates and honest satellite and signal counts,
 and a negative code always leaves the solution marked invalid, whatever it held before. A receiver correctly measured but out of those limits of altitude or speed is refused with the code for that reason, too few satellites with theirs. Fewer signals than unknowns never yield a solution, and the velocity is marked valid exactly when it was asked for and every signal used has a measured Doppler.""",
 ["inputs", "fault_sequences", "histories"], "every receiver place, height and speed, every constellation mix and geometry, with outages, outliers, clock jumps, low signal levels and previous solution contents",
 "tests solve a few fixed epochs", ["src/single_epoch_solver.c"], [("result filter", "filter_solution"), ("return code", "calc_PVT_pred")], ["calc_PVT", "calc_PVT_pred"])
prop("C27", "The solver finds the receiver whatever order or noise-free geometry it is given",
 """With consistent measurements of one receiver from at least as many satellites as unknowns and good geometry, the solver converges to that receiver's position, velocity and clock to within a metre (and 0.3 m/s), independent of the order of the measurements and of where on or near the Earth the receiver is. Its covariances follow the geometry, and the same epoch heard more weakly or without lock is never reported as better known.""",
 ["inputs", "configurations"], "every receiver place up to 10 km height, every satellite selection of good geometry (dilution below 6; the velocity bound grows with the weighted dilution), every order of measurements and every strategy",
 "tests solve a few fixed epochs", ["src/single_epoch_solver.c"], [("iterated weighted least squares", "pvt_solve/pvt_iter")], ["calc_PVT"])
prop("C28", "RAIM excludes a single faulty satellite and says so",
 """With integrity checking enabled, at least two satellites more than unknowns and exactly one satellite wrong (one of its signals by 200 m to 100 km, or both of its signals by the same 200 m to 10 km), the solver returns 'repaired' naming exactly that satellite's signals as removed, and the position matches the fault-free one within 3 m; with no fault it returns 'checked OK' and removes nothing.""",
 ["inputs", "fault_sequences"], "every choice of the faulty signal, fault size and sign, receiver place, one to four constellations and any mix of signals, where the geometry leaves the fault standing out of the noise model, with any one other signal left out too",
 "one test injects one fault", ["src/single_epoch_solver.c"], [("leave-one-out search", "pvt_repair")], ["calc_PVT"])

# ------------------------------------------------------------------ whole library
prop("C29", "Navigation decoding, orbit and time functions are free of hidden state",
 """Calls of the message decoders, time conversions, ephemeris and almanac functions made concurrently from several threads on separate data give bit for bit the results they give when made alone, in whatever interleaving, order or repetition, and never depend on what earlier calls left in memory or on the stack.""",
 ["schedules", "histories"], "every interleaving of several threads' calls, every order, every stack content",
 "tests call each function from one thread", ["src/ephemeris.c", "src/almanac.c", "src/decode_glo.c", "src/gnss_time.c", "src/edc.c", "src/bits.c"], [("no mutable statics", "whole library")], ["results of all entry points"])
prop("C30", "The position solver is free of hidden state",
 """Position solutions computed concurrently on several threads, each with its own measurements, are bit for bit those computed alone; an epoch solved again after any other epochs gives the same result, and no output depends on uninitialised memory.""",
 ["schedules", "histories"], "every interleaving of several solver calls at memory-access granularity, every order of epochs, every stack content",
 "tests are single-threaded", ["src/single_epoch_solver.c", "src/linear_algebra.c"], [("all state in arguments and locals", "calc_PVT_pred")], ["calc_PVT"])
prop("C31", "Coordinate, atmosphere, geoid, signal and algebra functions hold no hidden state",
 """Calls of the coordinate, ionosphere, troposphere, geoid, linear algebra, signal naming, measurement and set functions made concurrently from several threads on separate data give bit for bit the results they give when made alone, in whatever order or repetition, independent of stack content.""",
 ["schedules", "histories"], "every interleaving of several threads' calls, every order, every stack content",
 "tests are single-threaded", ["src/coord_system.c", "src/ionosphere.c", "src/troposphere.c", "src/geoid_model.c", "src/linear_algebra.c", "src/signal.c", "src/nav_meas.c", "src/shm.c", "src/glonass_phase_biases.c"], [("no mutable statics", "whole library")], ["results of all entry points"])

prop("C40", "Satellites tracked by a moving receiver follow what they broadcast",
 """While data sets are replaced, the clock jumps, weeks roll over and the receiver moves, every satellite state computed from a GPS, SBAS, GLONASS, BeiDou (geostationary satellites included), QZSS or Galileo ephemeris, or from a GPS or SBAS almanac, agrees with the model of that system's interface specification: position and clock error (with the group delay of the signal asked for) at the requested time, velocity and acceleration as the first and second derivative of that position, clock rate as the derivative of the broadcast clock polynomial. The azimuth and elevation derived from it are those of the geometry, and the Doppler from an ephemeris is the carrier frequency times the rate at which the distance to the moving receiver grows, divided by the speed of light (growing distance counts positive; an almanac Doppler is for a receiver at rest). Knowledge of the week of the requested time makes no difference.""",
 ["histories", "inputs", "clock jumps"], "every history of data-set replacement, receiver motion and clock movement within the data's window, GLONASS within 2100 s and the other systems within a day of the reference time",
 "tests compare a handful of states near the reference time", ["src/ephemeris.c", "src/almanac.c"], [("Kepler and Runge-Kutta propagation, frame rotation, group delay", "calc_sat_state_n, calc_sat_state_almanac, calc_sat_doppler")], ["calc_sat_state", "calc_sat_az_el", "calc_sat_doppler"])

prop("C41", "A moving receiver's coordinates convert to and fro without loss",
 """All along a receiver's journey - over poles and the date line, at rest or at orbital speed, from 3000 km below the ellipsoid to geostationary height and beyond - its geodetic, Cartesian and degree coordinates describe the same WGS84 place and convert into each other and back without loss; the local north-east-down frame at that place is the geodetic one and orthonormal; and a target expressed in local coordinates, or by azimuth (clockwise from north, from 0 to 2 pi) and elevation, is where its Cartesian coordinates say it is, at every distance. The conversions leave their inputs unchanged.""",
 ["histories", "inputs"], "every journey of legs, climbs and jumps over the whole globe, heights from -3000 to 40 000 km, targets up to 40 000 km away",
 "tests sample random points and round trips only", ["src/coord_system.c", "include/swiftnav/coord_system.h"], [("geodetic iteration, rotation to the local frame", "wgsecef2llh, ecef2ned_matrix, wgsecef2azel")], ["wgsllh2ecef", "wgsecef2llh", "wgsecef2ned", "wgsecef2ned_d", "wgsned2ecef", "wgsned2ecef_d", "wgsecef2azel", "ecef2ned_matrix", "llhrad2deg", "llhdeg2rad"])
prop("C43", "Delays and geoid heights on a journey follow their models and the last upload",
 """While a receiver travels, its clock runs and jumps, and ionosphere pages arrive, are lost or are meant for others: a page is taken if and only if it is a GPS page 18 (data ID 1, SV ID 56) and then decodes to exactly the parameters that were sent, as does subframe 1 of a BeiDou satellite; the ionospheric delay towards every satellite equals the broadcast (Klobuchar) model of IS-GPS-200 with the last parameters taken; the tropospheric delay equals UNB3m with Niell mapping for that day, place, height and elevation, and is zero above 11 km; and the geoid height equals the EGM2008 grid interpolated bicubically, on both conventions for longitude, without steps at the date line, the Greenwich meridian or between cells.""",
 ["histories", "inputs", "message loss", "clock jumps"], "every journey, time of week, day of year, upload history, azimuth and elevation",
 "tests compare a few values", ["src/ionosphere.c", "src/troposphere.c", "src/geoid_model.c"], [("page decoding and models", "decode_iono_parameters, calc_ionosphere, calc_troposphere, get_geoid_offset")], ["decode_iono_parameters", "decode_bds_d1_iono", "calc_ionosphere", "calc_troposphere", "get_geoid_offset"])

prop("C45", "What a satellite last announced about its health decides which signals serve",
 """While satellites fail, recover and announce their health on three channels - the health word of their ephemeris, the almanac pages, and the page 25 summaries - and each channel loses, repeats and mixes in foreign pages, every verdict follows the last announcement taken on its channel: the announced word is the word decoded, page 25 of subframe 5 speaks for satellites 1 to 24 and that of subframe 4 for 25 to 32 and for nobody else, and a signal is refused exactly when IS-GPS-200 says so for it - by the data summary bit where the signal carries that data, by the signal component code that names it, or by a code for the whole satellite - with almanac data indications that do not spoil an almanac tolerated there. Satellites of the other systems are refused exactly when a health bit is set or (not SBAS, QZSS) their accuracy is unknown; without an ephemeris a satellite is presumed healthy.""",
 ["histories", "message loss", "inputs"], "every history of failures, announcements and losses, every health word and every signal",
 "tests cover selected words one at a time", ["src/shm.c", "src/ephemeris.c", "src/almanac.c"], [("health words and tables", "check_6bit_health, almanac_decode_health, ephemeris_healthy")], ["ephemeris_healthy", "almanac_healthy", "almanac_decode_health", "check_6bit_health_word", "check_8bit_health_word", "check_alma_page25_health_word", "check_nav_dhi", "shm_gps_decode_shi_ephemeris"])

prop("C46", "Observations of a tracked signal stay consistent through slips and relays",
 """While a receiver tracks signals for milliseconds to months through slips and missed epochs, its observations corrected for the satellite's clock are the geometric range, rate and phase that remain: corrected pseudorange, Doppler and carrier phase agree with each other at the signal's own wavelength between any two epochs without a slip. The lock-time indicator is the one DF402 defines for every time held, never overstates it, and a chain of stations that receive it and pass it on preserves it, so no station ever sees the lock of an uninterrupted signal fall. Repeated observations are recognised and altered ones told apart field by field; sorting yields constellation, code and satellite order and loses none; a pseudorange is valid exactly when its flag is set and it is not excluded by RAIM. The GLONASS bias in force is that of the last message received, in the code it names.""",
 ["histories", "message loss", "inputs"], "every history of tracking, slips, losses and relays, every lock time and every signal",
 "tests sample six lock times and a few observations", ["src/nav_meas.c", "src/glonass_phase_biases.c", "src/signal.c"], [("observation corrections and lock time", "encode_lock_time, nav_meas_cor_sat_clk_on_*, nav_meas_cmp"), ("bias selection", "get_glonass_bias")], ["encode_lock_time", "decode_lock_time", "nav_meas_cor_sat_clk_on_pseudorange", "nav_meas_cor_sat_clk_on_measured_doppler", "nav_meas_cor_sat_clk_on_carrier_phase", "nav_meas_equal", "measurement_std_equal", "nav_meas_cmp", "pseudorange_valid", "get_glonass_bias", "glonass_biases_are_equal"])

prop("C48", "A data set received again is recognised and an updated one told apart",
 """While ephemerides and almanacs of GPS, QZSS, Galileo, BeiDou, SBAS and GLONASS satellites reach several stations that keep the last set of each satellite - with messages lost, repeated, overtaken by older ones, delivered into storage with other leftover contents, and stations restarting - a set is taken as the one already held exactly when all its contents are the same, whichever of the two is named first: rounding on the way does not make an update, nor do accuracy, fit interval and source of an ephemeris, on which receivers disagree; any other field that differs by more than 1e-12 does, in any of them alone or in several at once, as does another satellite or signal. Every station therefore counts exactly the updates that reached it, and comparing changes neither set.""",
 ["histories", "message loss", "inputs"], "every history of updates, losses, repeats and reorderings, every field of every kind of set",
 "tests compare one altered field of selected constellations", ["src/ephemeris.c", "src/almanac.c", "include/swiftnav/float_equality.h"], [("set comparison", "ephemeris_equal, almanac_equal, sid_is_equal")], ["ephemeris_equal", "almanac_equal", "sid_is_equal"])

prop("C47", "From transmitted bits to a fix at the receiver's true place, speed and time",
 """A receiver that decodes the navigation messages of GPS, Galileo, BeiDou (D1), GLONASS and QZSS satellites over a lossy channel, through changes of data issue, week rollovers, outages, failing satellites, restarts and storage holding old contents, and feeds the results through validity, health, satellite state and solver, counts as usable exactly the satellites whose current data set was heard completely, is healthy and is within its interval at the time of transmission. Their positions, clocks and elevations are those of the orbits the satellites broadcast. With enough of them in good geometry there is a solution, and every solution is at the receiver's true position, velocity, clock error, drift and time, to what the resolution of the broadcast allows. A data set decoded again from the same issue compares equal to the one held, and that of a new issue does not.""",
 ["histories", "message loss", "inputs"], "every history of broadcasts, losses, issue changes, outages and restarts, every place, week and constellation mix",
 "tests hold single recorded frames and single sets of measurements and never connect them", ["src/decode_gal.c", "src/decode_glo.c", "src/bds/decode_bds_d1.c", "src/ephemeris.c", "src/single_epoch_solver.c"], [("decoders to ephemeris", "decode_ephemeris, decode_gal_ephemeris, decode_glo_ephemeris, decode_bds_d1_ephemeris"), ("ephemeris to satellite state to solution", "calc_sat_state, calc_PVT")], ["decode_ephemeris", "decode_ephemeris_with_wn_ref", "decode_gal_ephemeris_safe", "decode_glo_ephemeris", "decode_bds_d1_ephemeris", "ephemeris_valid", "ephemeris_healthy", "calc_sat_state", "calc_sat_az_el", "calc_PVT"])

# ------------------------------------------------------------------ the tables and the arithmetic underneath, seen through histories that rest on them
prop("C42", "Estimators built on the matrix routines keep their state exact through crashes",
 """While estimators predict, take measurements that are lost or repeated, gain and lose states, checkpoint their covariance as U-D factors, crash and restart from them, every product, sum, transpose, selection, inverse, pseudo-inverse, weighted least-squares solution, QR decomposition, U-D factorisation and vector operation agrees with exact arithmetic on the same inputs to within the rounding error of the operation, for every size and shape, whether or not optional outputs and weights are given; integer transformations are exact; inputs that are not outputs stay unchanged; nothing is read or written outside the sizes given. A restored covariance is symmetric and is the one that was checkpointed. Geometry without enough information (exactly singular systems, fewer equations than unknowns, a pseudo-inverse of the wrong shape) is reported as a failure, and well-conditioned systems never are.""",
 ["histories", "crash points", "inputs"], "every history of predictions, measurements, resizings, crashes and restarts, every size and shape",
 "tests sample random matrices one call at a time", ["src/linear_algebra.c"], [("elimination, closed-form inverses, pseudo-inverses, least squares", "matrix_inverse, matrix_wlsq_solve, matrix_at*"), ("factorisations", "matrix_udu, matrix_reconstruct_udu, qrdecomp_square")], ["matrix_inverse", "matrix_pseudoinverse", "matrix_wlsq_solve", "matrix_atwaiat", "matrix_atawati", "matrix_multiply", "matrix_multiply_i", "matrix_multiply_s64", "matrix_udu", "matrix_reconstruct_udu", "qrdecomp_square", "qrsolve", "submatrix", "vector_*"])

prop("C44", "Signals keep their identity through names, indices, storage and restart",
 """While stations name signals to each other by printed name, store them by label and index, and crash and restart with nothing but their records, and while records and names are altered on the way and identifiers nobody handed out turn up, every signal comes back as itself or not at all: labels, printed names and per-code indices each identify one signal and are those released peers use, an altered label is refused unless it is another signal's label, a signal is valid exactly when its code and satellite exist, a printed name fits the documented buffer with the length returned. Every signal belongs to one constellation, the same through code, letter and name, with the L1 and L5 codes of that constellation, its documented carrier frequency and wavelength, and a spreading code whose chips take exactly its documented period; no pilot component needs a data decoder, and one signal of each constellation is acquired directly; signals of an invalid code belong to none, and equality, comparison, ordering and sorting agree on known and unknown signals alike, by constellation, code and satellite.""",
 ["histories", "crash points", "inputs"], "every history of naming, storing, altering, crashing and restarting, every code and satellite, valid or not",
 "tests enumerate selected tables", ["src/signal.c", "include/swiftnav/signal.h"], [("code table and look-ups", "code_string_to_enum, sid_to_string, sid_from_code_index"), ("identity and order", "sid_hash, sid_compare, sid_to_constellation")], ["sid_to_string", "code_string_to_enum", "code_to_string", "sid_from_code_index", "sid_to_code_index", "sid_valid", "sid_to_constellation", "sid_compare", "sid_is_equal", "constellation_to_string", "char_to_constellation", "get_sbas_system"])

