#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


S = "src/cssrlib/"

prop("C01", "Time scales and calendar conversions are exact and mutually inverse",
     "For every calendar day of the supported era (1980-01-06 to 2099-12-31) and every time of day, converting calendar date, week/seconds of the GPS, Galileo and BeiDou time systems, day of year, and time strings back and forth returns the same instant, and conversions between UTC and GPS time apply exactly the leap seconds in force on that date. Time differences and additions agree with exact arithmetic, and resolving a truncated time of day, time of hour or week count against a reference time always yields the candidate nearest to that reference.",
     ["inputs"], "every day in the era, every boundary second of a day/week, every leap-second boundary, every modulus of truncated time relative to every reference phase",
     "Tests convert a few epochs; leap-day, leap-second, week and day rollover boundaries occur at isolated instants out of about four billion seconds.",
     [S+"gnss.py"], [("calendar and week conversions", S+"gnss.py epoch2time/time2epoch/gpst2time/time2gpst/bdt2time/time2bdt/gst2time/time2gst/time2doy"), ("leap seconds", S+"gnss.py gpst2utc/utc2gpst"), ("truncated time resolution", S+"gnss.py tod2tow and friends")])

prop("C02", "Satellite numbering and signal naming are unambiguous",
     "For every satellite of every supported constellation the internal number, the (system, PRN) pair and the textual satellite identifier convert into each other without loss, and no two satellites share a number or an identifier. For every RINEX 3/4 observation code a signal that is accepted prints back as the same code, reports the carrier frequency and wavelength the interface specifications give that band, changing its type or tracking attribute changes only that part, and codes that RINEX does not define for the constellation are rejected.",
     ["inputs"], "all satellites of all systems; all system x type x band x attribute combinations, defined and undefined",
     "Tests look at a handful of satellites and codes; a single wrong table entry only shows for one satellite or one code.",
     [S+"gnss.py"], [("satellite numbering", S+"gnss.py prn2sat/sat2prn/sat2id/id2sat"), ("signal codes", S+"gnss.py rSigRnx")])

prop("C03", "Compact SSR messages decode to exactly the transmitted corrections",
     "For every well-formed compact SSR message (mask, orbit, clock, combined orbit/clock, code bias, phase bias, accuracy, slant ionosphere, gridded and network atmosphere, service information) with any satellite, signal and cell mask, the decoder attributes each transmitted value to exactly the satellite, signal, network and grid point it was sent for, in the published unit and sign, with the published not-available code reported as unavailable, and consumes exactly the length of the message. Encoding a set of corrections with the library's own encoder and decoding it returns the same corrections to within the published resolution.",
     ["inputs", "programs"], "all bounded mask shapes (systems x satellites x signals x cell masks x network masks) x extreme and per-field distinguishable values, for each subtype and service variant",
     "Message layouts depend on several nested masks; fixtures exercise the few shapes that one recorded day contained.",
     [S+"cssrlib.py"], [("message decoders", S+"cssrlib.py class cssr decode_cssr*"), ("encoder", S+"cssrlib.py class cssre")])

prop("C04", "Corrections from different issues or epochs are never mixed",
     "In any sequence of compact SSR messages - with lost, repeated, reordered or re-issued mask messages - a correction is stored for a satellite only if it was sent under the mask that is active at that moment, and a message issued under another mask issue, or before any mask has been received, changes no stored correction. The set of corrections held after any sequence equals what a listener that simply applies each acceptable message in order would hold, with the time stamp of the message that delivered it, whether or not the decoder's log is written.",
     ["histories", "fault_sequences"], "all message sequences up to a bounded length over two mask issues, two epochs, every correction subtype, losses and duplications",
     "The failing case needs a mask change with a particular loss pattern; recorded data seldom contains one and tests never assert on the state between messages.",
     [S+"cssrlib.py"], [("mask/IOD bookkeeping", S+"cssrlib.py class cssr decode_cssr_mask, iodssr checks, chk_stat, check_validity"), ("correction store", S+"cssrlib.py class local_corr")])

prop("C05", "L6 frames are reassembled only from complete, contiguous parts",
     "When a compact SSR message is spread over several satellite-broadcast frames, the bytes passed on to the message decoder are exactly the concatenation of the consecutive parts of one subframe that started with its start indicator and came from the selected facility and service. Whatever the order in which frames of several satellites arrive or are lost, a subframe with foreign parts, or with parts missing before the next start indicator, is never delivered as complete, and reception recovers at the next start indicator from the same facility without raising an error.",
     ["fault_sequences", "histories"], "all arrival sequences up to a bounded length over start/continuation frames of two facilities and vendors with losses and duplications",
     "Loss patterns of a satellite downlink cannot be enumerated by replaying one clean recording.",
     [S+"cssrlib.py"], [("L6 frame assembly", S+"cssrlib.py cssr.decode_l6msg")])

prop("C06", "HAS messages are recovered from any sufficient set of distinct pages",
     "For every message size, any set of distinct coded pages that is at least as large as the message recovers the original message exactly, whatever the arrival order, repetition, and interleaving with pages of another message. Messages are collected one at a time in the order their first page arrives, and an incomplete message does not block reception for ever. Fewer distinct pages never yield a message, and pages belonging to different messages or the reserved or dummy pages are never combined.",
     ["fault_sequences", "schedules"], "all k-subsets (bounded k, page id window) and all arrival orders/duplications/interleavings of pages up to a bounded length",
     "There are combinatorially many subsets of 255 pages; a recording shows a single one.",
     [S+"cssr_has.py"], [("page assembly and erasure decoding", S+"cssr_has.py cnav_msg.decode_cnav / decode_has_page")])

prop("C07", "HAS correction messages decode to the transmitted corrections",
     "For every well-formed HAS message - any combination of mask, orbit, clock full-set, clock subset, code bias and phase bias blocks and any satellite, signal and cell mask - the decoder attributes each value to the satellite and signal it was sent for in the published unit, honours the not-available and do-not-use codes, and applies blocks only under the mask they refer to. A message whose mask has not been received leaves all stored corrections unchanged.",
     ["inputs", "histories"], "all block combinations x bounded mask shapes x extreme values, and all two/three-message histories with mask id changes",
     "Block presence flags multiply with mask shapes; the clock subset and do-not-use codes are rare on air.",
     [S+"cssr_has.py"], [("HAS block decoders", S+"cssr_has.py class cssr_has decode_cssr*")])

prop("C08", "BDS PPP-B2b messages decode to the transmitted corrections",
     "For every well-formed PPP-B2b message type (mask, orbit and accuracy, code bias, clock, accuracy, combined clock/orbit) and any satellite mask, each value is attributed to the satellite and signal it was sent for in the published unit; satellites outside the mask or with reserved slots are skipped without disturbing the values of the others. Messages whose mask issue differs from the active one leave the stored corrections unchanged.",
     ["inputs", "histories"], "all message types x bounded masks/slots x extreme values; histories with mask issue changes",
     "Combined message types and slots outside the mask practically never appear in the sample data.",
     [S+"cssr_bds.py"], [("PPP-B2b decoders", S+"cssr_bds.py class cssr_bds")])

prop("C09", "DFMC SBAS and PVS messages decode to the transmitted corrections",
     "For every well-formed dual-frequency SBAS message of the mask, clock-ephemeris correction, integrity, degradation parameter, ephemeris and almanac types, each value is attributed to the satellite whose slot it was sent for, in the published unit, with its reference time resolved to the day nearest to reception. Integrity messages issued under another mask issue change nothing.",
     ["inputs", "histories"], "all slots, all mask shapes (bounded), extreme values, integrity indicator sequences up to a bounded length",
     "Slots, masks and integrity indices are joint; wrong satellite attribution does not crash and is invisible in samples.",
     [S+"sbas.py", S+"cssr_pvs.py"], [("DFMC decoders", S+"sbas.py decode_dfmc_* / decode_cssr_orb"), ("PVS decoders", S+"cssr_pvs.py")])

prop("C10", "L1 SBAS messages decode to the transmitted corrections and integrity",
     "For every well-formed L1 SBAS message (mask, fast, mixed, long-term half messages, integrity, degradation, ranging, almanac, covariance) and any satellite mask, each correction and integrity indicator is attributed to the satellite in the transmitted mask position, in the published unit. Messages whose mask issue differs from the active mask change nothing, whatever the order of messages.",
     ["inputs", "histories"], "all message types x masks with gaps and every fill level x extreme values; bounded histories with mask changes",
     "The failing shapes (partial blocks, gaps in the mask, one half of a message under another mask issue) do not occur in one clean recording.",
     [S+"sbas.py"], [("L1 SBAS decoders", S+"sbas.py decode_sbas_*")])

prop("C11", "SBAS ionospheric delays come only from monitored, current grid points",
     "For pierce points between 75 degrees south and north, the slant ionospheric correction is the published bilinear or triangular interpolation of the vertical delays of the grid points surrounding the pierce point, using exactly the grid points that the current grid mask lists and that are marked as monitored. If fewer than three usable points surround the pierce point, or the grid mask has been replaced and no delays have been received since, no SBAS correction is produced.",
     ["inputs", "histories"], "all subsets of the surrounding grid points x monitored/unmonitored/unreceived x position cells in each latitude zone; histories with grid mask replacement",
     "Every combination of missing neighbours in every latitude zone is needed; recordings contain only a fully monitored region.",
     [S+"sbas.py"], [("IGP mask and delays", S+"sbas.py decode_sbas_igpmask/decode_sbas_iono/init_sbas_gp"), ("interpolation", S+"sbas.py searchIGP/ionoSBAS")])

prop("C12", "SLAS differential corrections are decoded and applied consistently",
     "For every sequence of SLAS mask, issue-of-data, correction, station and health messages, the pseudorange corrections held for a reference station are exactly those of the last correction message for that station whose issues match the active mask and issue of data, each for the satellite at its position in that mask. The correction selected for a user is that of the nearest reference station, and a message of another issue never changes stored corrections.",
     ["histories", "inputs"], "all message sequences up to a bounded length over two masks, two issues, two stations; all mask fill levels and correction masks",
     "Interplay of three issue counters and two masks is only visible over message histories.",
     [S+"dgps.py"], [("SLAS decoder", S+"dgps.py class dgpsDec")])

prop("C13", "RTCM3 framing: only intact frames pass, intact frames always pass",
     "Every frame produced by the library's encoder or by the published framing rule is recognised at its preamble with its length and accepted by the checksum, for every payload length from 0 to 1023 bytes. Every frame with any single-bit error, any two-bit error or any burst up to 24 bits is rejected, and the position of a frame in the buffer does not matter.",
     ["inputs", "fault_sequences"], "all payload lengths; all 1- and 2-bit error positions and all burst positions/lengths on bounded frames; all buffer offsets",
     "The claim quantifies over all error patterns.",
     [S+"rtcm.py"], [("framing", S+"rtcm.py sync/checksum/set_sync/set_len/set_checksum"), ("CRC-24Q", "src/cssrlib/rtcm.py, crc routines")])

prop("C14", "RTCM MSM observations survive encode and decode",
     "For every MSM type 4 to 7, constellation, set of satellites, set of signals and cell mask, the observations decoded from an MSM message equal the ones it was encoded from - pseudorange, carrier phase, Doppler, signal strength and lock indication to within the published resolution, each for its own satellite and signal - and absent observations are reported as absent. The epoch time is recovered across day and week rollovers.",
     ["inputs"], "all cell mask shapes up to bounded satellites x signals for every MSM type and system; extreme observation values; epochs around rollovers",
     "The variable-geometry cell layout has exponentially many shapes.",
     [S+"rtcm.py"], [("MSM", S+"rtcm.py decode_msm/encode_msm/msm2rsig/rsig2code")])

prop("C15", "RTCM and IGS SSR corrections survive encode and decode",
     "For every SSR message type (orbit, clock, combined, code bias, phase bias, accuracy, high-rate clock, ionosphere) of both the RTCM and IGS formats, for every constellation and any list of satellites and signals, the decoded corrections equal the transmitted ones to within the published resolution and are attributed to the satellite and signal they were sent for. Messages with another issue of SSR or of another constellation do not disturb what is stored for the satellites they do not mention.",
     ["inputs", "histories"], "all message types x systems x satellite lists/signal sets (bounded) x extreme values; short histories",
     "Each message type and constellation has its own field widths, about a hundred combinations.",
     [S+"rtcm.py"], [("SSR decoders", S+"rtcm.py decode_cssr_*"), ("SSR encoders", S+"rtcm.py class rtcme")])

prop("C16", "RTCM ephemeris messages decode to the transmitted ephemeris",
     "For every broadcast ephemeris message (GPS, GLONASS, Galileo F/NAV and I/NAV, QZSS, BeiDou, NavIC, SBAS) each transmitted parameter is reported for the right satellite with the published scale and sign, and the reference times are resolved to the week nearest to reception, including across week-number rollover. No parameter depends on any other field of the message or on earlier messages.",
     ["inputs"], "per message every field at every bit position (walking ones, extremes) in an otherwise fixed message; week/time boundaries",
     "A wrong scale or offset of one of several hundred fields stays inside plausible values.",
     [S+"rtcm.py"], [("ephemeris decoders", S+"rtcm.py decode_*_eph")])

prop("C17", "Raw navigation frames yield only consistent, correctly scaled ephemerides",
     "For every supported raw navigation message format, an ephemeris is reported only when all parts that belong to the same issue of data of the same satellite have been received, whatever the order, loss, repetition and interleaving of subframes of several satellites, and every reported parameter equals the transmitted one in the published unit. Parts from different issues of data or different satellites are never combined.",
     ["histories", "fault_sequences", "inputs"], "all subframe arrival sequences up to a bounded length over two issues and two satellites with losses; all bits of every field for the scale part",
     "Needs an issue change with a particular loss pattern between subframes.",
     [S+"rawnav.py"], [("subframe assembly and decoding", S+"rawnav.py class RawNav decode_*")])

prop("C18", "OSNMA reports data as authentic only when cryptographically verified",
     "In any interleaving of genuine and forged, lost and repeated Galileo pages from several satellites, navigation data is reported authenticated only if a tag over exactly that data verifies under a chain key that hashes back to the root key whose signature was verified with the installed public key. Genuine data received intact with its tags and keys is reported authenticated, and receiving forged pages from one satellite does not make genuine data fail once received again.",
     ["schedules", "histories", "fault_sequences"], "all interleavings up to a bounded number of subframes of two to three satellites with forged keys, tags, data and root keys, including week rollover",
     "Authentication soundness is a statement about every adversarial schedule; test vectors are honest.",
     [S+"osnma.py"], [("key chain verification", S+"osnma.py verify_key_chain/update_key_chain"), ("tag verification", S+"osnma.py"), ("navigation data store", S+"osnma.py")])

prop("C19", "OSNMA root key and public key messages are accepted only when verified",
     "A root key or public key message is reassembled from its blocks in any order and with any repetition, and takes effect only if all blocks belong to the same message and its signature or Merkle proof verifies; otherwise the previously verified key and parameters stay in force. Independent receivers do not influence each other.",
     ["histories", "fault_sequences"], "all block orders/duplications for bounded block counts, each single corrupted block, message id changes part-way; interleavings of two receivers",
     "Block orders and id changes are combinatorial, and corrupted blocks are absent from the test vectors.",
     [S+"osnma.py"], [("DSM assembly", S+"osnma.py decode_dsm*"), ("signature and Merkle verification", S+"osnma.py")])

prop("C20", "QZSS navigation authentication accepts only verified messages",
     "For any order and loss of navigation and signature pages of several satellites and of both message types, a navigation message is reported authentic only if the received signature verifies over exactly that message under the public key it names. Genuine message and signature pairs are reported authentic, and modified data, modified signatures or another key never are.",
     ["schedules", "fault_sequences"], "all interleavings of page sequences of two satellites with each of a set of corruptions",
     "Adversarial schedule claim; samples are honest.",
     [S+"qznma.py"], [("QZNMA", S+"qznma.py")])

prop("C21", "RINEX navigation files survive reading and writing",
     "Every ephemeris record of every supported constellation and message type that is read from a RINEX navigation file has each parameter in its defined place and unit, including records with blank optional fields, and writing it and reading it back returns the same ephemeris. Every distinct ephemeris handed to the writer appears in the file exactly once.",
     ["inputs", "histories"], "all record types and versions x every field individually distinguished or blank; all write sequences up to a bounded length over repeated and changed issues",
     "Record layouts differ per constellation, message and version; one file shows one version.",
     [S+"rinex.py"], [("navigation reader", S+"rinex.py _decode_nav"), ("navigation writer", S+"rinex.py rnx_nav_body/rnx_gnav_body/rnx_snav_body")])

prop("C22", "RINEX observations are read back exactly and attributed correctly",
     "For every header signal list and every requested signal selection, each observation value, loss-of-lock flag and epoch in the file is reported for its own satellite and signal, missing values are reported as missing, and epochs that carry no observations are skipped. Observations written by the library read back as the same observations.",
     ["inputs"], "all signal-list lengths (with continuation lines) x selections x loss-of-lock codes x missing fields x event flags (bounded)",
     "Continuation line boundaries, loss-of-lock bit combinations and event records are sparse in real files.",
     [S+"rinex.py"], [("observation reader", S+"rinex.py _decode_obsh/decode_obs"), ("observation writer", S+"rinex.py rnx_obs_header/rnx_obs_body")])

prop("C23", "Rover and base observation streams are paired by epoch and terminate",
     "For any two observation streams with gaps, offsets and different lengths, synchronisation returns exactly the pairs of epochs that agree within the tolerance, in order, each once, and signals the end of data instead of pairing wrong epochs or running forever.",
     ["schedules", "histories"], "all pairs of epoch subsets up to a bounded length with jitter inside/outside tolerance",
     "Gap patterns of two streams are combinatorial; a non-terminating case cannot be asserted by an example.",
     [S+"rinex.py"], [("synchronisation", S+"rinex.py sync_obs")])

prop("C24", "Precise orbits and clocks are interpolated only from valid data",
     "A precise orbit and clock product read from SP3 or RINEX clock files reproduces its values at the tabulated epochs, agrees with the underlying smooth orbit between them, and reports no position or clock when the requested time is outside the covered span (by more than the 15-minute extrapolation limit) or data needed for interpolation is marked missing. Writing a product to SP3 and reading it back returns the same values and the same missing entries.",
     ["inputs", "fault_sequences"], "all query positions relative to all nodes and span edges; every single and double missing entry in the interpolation window; satellite list lengths across line breaks",
     "The failing query instants are isolated points at edges and next to missing entries.",
     [S+"peph.py", S+"rinex.py"], [("SP3 reading/writing", S+"peph.py parse_sp3/write_sp3"), ("interpolation", S+"peph.py pephpos/pephclk/peph2pos"), ("clock files", S+"rinex.py decode_clk")])

prop("C25", "Biases and antenna corrections are taken from the right record",
     "A bias or antenna record is used for a satellite or receiver, signal and time only if it is the record of that satellite or antenna and signal whose validity interval contains the time; otherwise the value is reported as unavailable. The published unit, sign and axis convention is applied, and frequency substitution follows one fixed rule that never picks another satellite's data.",
     ["inputs", "configurations"], "all arrangements of bounded interval sets (adjacent, overlapping, gapped, open-ended) x query times at, inside and outside every boundary x signals/satellites",
     "Interval boundary behaviour is measure-zero in sample files.",
     [S+"peph.py"], [("bias store", S+"peph.py class biasdec"), ("antenna store and models", S+"peph.py atxdec/searchpcv/antModelRx/antModelTx")])

prop("C26", "Broadcast ephemeris selection and evaluation are correct",
     "For any set of stored ephemerides the one used for a satellite, time and requested issue of data is of that satellite and message type, has the requested issue if one is requested, lies within the validity age and is the nearest in time, independent of storage order; otherwise none is reported. Evaluated satellite positions, velocities and clocks agree with an independent evaluation of the published algorithms, velocity being the derivative of position, continuously across week rollover.",
     ["inputs", "configurations"], "all small ephemeris sets over {satellite, mode, issue, time} in all orders x query times; orbits over a parameter grid incl. week boundaries",
     "Selection depends on the joint content and order of the store; rollover instants are rare.",
     [S+"ephemeris.py"], [("selection", S+"ephemeris.py findeph/findgeph/findseph"), ("evaluation", S+"ephemeris.py eph2pos/geph2pos/seph2pos/satpos/satposs")])

prop("C27", "SSR corrections are applied to the matching ephemeris only, and repeatably",
     "A satellite's position and clock are corrected with stored corrections only if the correction's issue of data matches the ephemeris, orbit and clock corrections refer to the same issue, and both are within their validity age; otherwise the satellite is reported without a usable position. The corrected position and clock equal broadcast plus the published transformation of the corrections, and evaluating the same epoch again, in any order or number of times, gives the same result.",
     ["histories", "configurations"], "all combinations of present/missing/mismatching/aged corrections per service type, all evaluation sequences up to a bounded length",
     "Repeat-call and mismatch combinations never occur in one straight-through processing run.",
     [S+"ephemeris.py", S+"cssrlib.py"], [("application", S+"ephemeris.py satpos/satposs"), ("validity", S+"cssrlib.py chk_stat/check_validity")])

prop("C28", "Integer ambiguity search returns the true best integer vectors",
     "For every float ambiguity vector and positive-definite covariance, the integer candidates returned are the vectors with the smallest weighted distance, in order, with their exact distances, and the reported decorrelation leaves the solution unchanged. Partial fixing only fixes combinations whose bootstrapped success rate meets the requested threshold.",
     ["inputs"], "all float vectors on a grid x covariance structures (bounded dimension), compared with brute-force enumeration",
     "A search that prunes too early fails only for particular correlated covariances.",
     [S+"mlambda.py"], [("search", S+"mlambda.py mlambda/reduction/msearch/estimILS/parsearch")])

prop("C29", "Cycle slips, outages and exclusions reset exactly the affected ambiguities",
     "For every history of epochs in which satellites rise, set, lose lock, slip, lose a frequency or become unhealthy at rover or base, an ambiguity estimate is carried over only if the satellite was tracked without any reported or geometry-free detected slip since the estimate was started, and it is re-initialised from the current data otherwise. Satellites that fail editing contribute nothing to the update of that epoch.",
     ["histories", "fault_sequences"], "all per-epoch event sequences (normal, loss-of-lock flag, slip, missing, low signal, unhealthy, at rover or base) up to a bounded length for PPP and RTK",
     "A slip must meet a particular epoch history (e.g. too few satellites that epoch) to be lost.",
     [S+"pppssr.py", S+"rtk.py"], [("editing", S+"pppssr.py qcedit"), ("state propagation", S+"pppssr.py udstate"), ("base processing", S+"rtk.py base_process")])

prop("C30", "The estimator is consistent for every configuration and leaves inputs alone",
     "For every combination of processing mode, troposphere, ionosphere and frequency options, every estimated quantity has its own state and its measurement sensitivity equals the derivative of the modelled residual, a simulated error-free data set is solved to its true position, and covariance stays symmetric and positive. Ambiguity resolution and hold involve exactly the satellites with valid measurements above its elevation mask and leave the other states alone. Processing an epoch changes neither the observations, corrections, the base coordinates nor the defaults used by other estimators.",
     ["configurations", "histories"], "all option combinations x short epoch histories on simulated data",
     "Option combinations are multiplicative and aliasing of inputs only shows in later epochs or other instances.",
     [S+"pppssr.py", S+"rtk.py", S+"ppprtk.py", S+"pntpos.py"], [("state layout and measurement model", S+"pppssr.py IB/II/IT/zdres/sdres/kfupdate"), ("standalone", S+"pntpos.py stdpos"), ("configuration", S+"gnss.py default_config")])

prop("C31", "Carrier smoothing restarts on gaps, slips and missing data",
     "For every history of code and carrier measurements of a satellite, the smoothed pseudorange is the recursive average over the current uninterrupted arc, and a gap, a missing value or a code-carrier jump above the threshold starts a new arc, so that no value before the interruption influences the result. Histories of different satellites do not influence each other.",
     ["histories"], "all event sequences up to a bounded length (normal, gap, missing code, missing phase, jump) for two satellites",
     "The interruption/recovery order is what matters and has exponentially many cases.",
     [S+"pntpos.py"], [("Hatch filter", S+"pntpos.py csmooth")])

prop("C32", "Decoder instances are independent of each other",
     "Running two decoders or estimators in the same process in any interleaving gives each exactly the results it would give when run alone. Creating a new instance starts from the initial state regardless of what other instances have received.",
     ["schedules"], "all interleavings of two bounded message scripts for every decoder class",
     "Shared state only shows when two instances are interleaved in a particular order; scripts run one decoder per process.",
     [S+"osnma.py", S+"cssrlib.py", S+"rtcm.py", S+"sbas.py", S+"rawnav.py", S+"pppssr.py"], [("instance state", "class bodies and default arguments of the decoder classes")])

prop("C33", "Geodetic conversions are inverse and consistent everywhere",
     "Conversion between Cartesian and geodetic coordinates, and between Earth-fixed and local frames, is mutually inverse to within 1e-6 m at every latitude, longitude and height from below the surface to satellite altitude, including poles, equator and the date line. Geometric range, azimuth and elevation agree with an independent computation, the range including the Earth-rotation correction.",
     ["inputs"], "a closed grid over latitude x longitude x height including all singular points, and all line-of-sight directions on a grid",
     "Singular points and hemisphere boundaries are outside the sampled stations.",
     [S+"gnss.py"], [("geodesy", S+"gnss.py ecef2pos/pos2ecef/xyz2enu/ecef2enu/enu2xyz/geodist/satazel")])

prop("C34", "Early-warning messages decode to the transmitted report",
     "For every disaster category and every value of each coded field, the decoded warning report carries the transmitted time, position, severity and area, with month, day and hour resolved to the date closest to the reception time and an arrival time that is not available reported as such, and no field value, defined or reserved, makes decoding raise an error.",
     ["inputs"], "every code of every field in every message category, one field at a time plus bounded repetition counts",
     "Most codes never occur in recorded data.",
     [S+"ewss.py"], [("JMA reports", S+"ewss.py class jmaDec"), ("common alert messages", S+"ewss.py class camfDec")])

prop("C35", "RTCM station, bias, network and integrity messages decode as transmitted",
     "For every well-formed station-coordinate, antenna-descriptor, GLONASS bias, text, network and draft integrity message, with any list of satellites, cells or areas, each transmitted value is reported in the published unit for the satellite or area it was sent for, and the message is consumed to exactly its length.",
     ["inputs"], "all list lengths (bounded) x every field at distinguishable values for every message type",
     "The integrity messages are drafts with nested optional lists for which no recordings exist.",
     [S+"rtcm.py"], [("station/network/integrity decoders", S+"rtcm.py decode_sta_pos/decode_ant_desc/decode_glo_bias/decode_integrity_*")])

prop("C36", "MADOCA regional ionosphere corrections fit the user's area",
     "For every sequence of coverage and correction messages of the MADOCA-PPP ionosphere service, for any number of regions and areas of rectangular or circular shape, a user position is assigned to exactly the area that contains it, also across the 180 degree meridian, and to none outside of all areas. The slant delay and quality reported there for each satellite are the transmitted polynomial of the most recent correction of that area, in the published units, evaluated at the offset of the user from the reference of that area. Messages for other areas and regions, or of other kinds, change neither the selected area nor its values, and each correction is dated at the transmitted epoch, also across the turn of the hour.",
     ["inputs", "histories"], "all histories of coverage, correction and Compact SSR messages over two regions to a bounded depth; all shapes on a grid with positions on both sides of every border; every polynomial type, satellite and coefficient boundary",
     "No recorded data contain these messages in the tests; a wrong area or stale selection only shows for particular positions and message orders.",
     [S+"cssr_mdc.py"], [("coverage and correction messages", S+"cssr_mdc.py decode_mdc_stec_area/decode_mdc_stec_corr"), ("area search and interpolation", S+"cssr_mdc.py find_grid_index/get_dpos/get_stec")])

prop("C37", "Almanacs and system parameters are read and evaluated as published",
     "Every almanac of a Yuma file, for every supported constellation, and of a Galileo XML file is loaded with each parameter in its unit, its truncated week number being resolved to the current or issue date. Of stored almanacs the one nearest in time within the requested age is found for a satellite, whatever the storage order, and the satellite position and clock evaluated from it agree with an independent evaluation of the published algorithm at any age. Ionosphere, leap second, time offset and earth orientation parameters in the header or records of a RINEX navigation file are stored with their values, epoch and source for the constellation and message they belong to, in any order of records, and do not disturb the ephemerides.",
     ["inputs"], "all truncated week values relative to the reference; all satellites; ages on a grid on both sides of the week; all orders of bounded almanac sets and of parameter records",
     "Week rollovers, old almanacs and rare record types hardly occur in recorded data.",
     [S+"ephemeris.py", S+"rinex.py"], [("almanacs", S+"ephemeris.py loadyuma/loadXmlAlmanac/findalm/alm2pos"), ("parameter records", S+"rinex.py decode_nav (STO/EOP/ION, header)")])

prop("C38", "Atmosphere, tide, wind-up and geometry models follow the published algorithms",
     "For every place, date, time, azimuth, elevation and parameter set, the broadcast (Klobuchar) ionosphere delay, the ionosphere pierce point and slant factor, the tropospheric delays and mapping functions (Saastamoinen with Niell, SBAS MOPS, Hopfield) and the relativistic path delay equal an independent evaluation of the published formulas, in both hemispheres, all seasons and at the limits of their tables. Dilution of precision equals the one computed from the geometry of the satellites above the mask. Phase wind-up follows the rotation of the satellite antenna continuously through complete turns, sun, moon and sidereal time agree with an independent ephemeris, and the two tide models agree with each other.",
     ["inputs"], "a closed grid over latitude, longitude, height, date, time, azimuth and elevation including all table limits; complete passes for wind-up; all subsets of a satellite sky",
     "The formulas have branches by latitude, season, elevation and quadrant of which a recording at one station visits a few.",
     [S+"gnss.py", S+"ppp.py", S+"pntpos.py"], [("ionosphere and troposphere", S+"gnss.py ionppp/tropmodel/tropmapf, pntpos.py ionKlobuchar/ionmodel"), ("tides, wind-up, sun and moon", S+"ppp.py tidedisp/tidedispIERS2010/windupcorr/shapiro/sunmoonpos/eci2ecef"), ("dilution of precision", S+"gnss.py dops/dops_h")])

prop("C39", "Regional SSR grid, troposphere and STEC messages survive encode and decode",
     "For every grid definition (grid types 0 and 1), troposphere and slant-TEC message of the RTCM SSR regional set - any grid identifier, point offset and number of points, any satellites of each constellation, with or without gradients and residuals, any residual length and scale - the decoder reports each transmitted position, coefficient and residual in its unit for the point and satellite it was sent for, and consumes exactly the message. A message of one constellation or grid leaves the corrections of the others in place. What the encoder writes for a set of positions or corrections decodes to the same values within half of the resolution of the field; quadratic terms of the source, which the message cannot carry, are contained in the residuals.",
     ["inputs", "histories"], "all field boundaries; all residual lengths and scales; every satellite; all orders of satellites in the source; all sequences of STEC messages over constellations and grids to a bounded depth",
     "No recordings of these test messages are in the test set, and errors show only for optional parts that are absent, for offsets, or after a message of another constellation.",
     [S+"rtcm.py", S+"cssrlib.py"], [("decoders", S+"rtcm.py rtcm.decode_ssr_grid/decode_ssr_trop/decode_ssr_iono"), ("encoders", S+"rtcm.py rtcme.encode_ssr_grid/encode_ssr_trop/encode_ssr_iono")])


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
