# per property: (why tests cannot reach it, decisions: what is taken as right, what is not judged)
D = {
'C01': ("A test samples a date; the leap-second tables, the 1024/8192 week roll-overs and fractions of seconds are wrong only on particular days.",
        ["all days of the era, every second of one day, every leap boundary +-2 s; time strings to their printed resolution"]),
'C02': ("The tables are finite but large; a single wrong entry hides until that satellite or signal is used.",
        ["version dependent entries of the RINEX attribute table are left open (either answer accepted)"]),
'C03': ("Every flag/mask combination shifts the bit position of all later fields.",
        ["position is judged by the consumed length as well as by the values",
         "atmosphere of a network is judged through get_stec/get_trop at and between grid points (equidistant grid points avoided)",
         "quality index 0 is 'undefined'"]),
'C04': ("Only particular orders of mask and correction messages mix issues.",
        ["explicit-state search: message histories replayed on the real decoder next to a listener model",
         "time stamps across the hour boundary are the candidate nearest to the last epoch"]),
'C05': ("Frame losses and interleavings of several satellites.",
        ["a start indicator with another facility drops the sub-frame under assembly; parts of another (prn, vendor) are ignored",
         "the delivery rule is the one of the tutorials: decode when fcnt == 5"]),
'C06': ("The recovered message depends on which pages arrive in which order.",
        ["one message at a time; idle reset after more than 2*size foreign calls; ids decoded within the last 10 ignored; page ids 0 and size<pid<=32 ignored",
         "independent Reed-Solomon encoder built from the generator polynomial"]),
'C07': ("64 block combinations x mask shapes.",
        ["do-not-use exists only for clocks", "the clock subset block uses the mask named by its message"]),
'C08': ("Slots and issues combine.", ["type 6 start index is the 0-based index used by the code; minimum value and minimum+1 are excluded (the code treats both as unavailable); satellite 0 is never stored"]),
'C09': ("Slot tables, day roll-over and issue changes.",
        ["slots 62-69 and 197-205 excluded (no number in the library); lowest PVS values excluded; PVS with even t0 is ignored by design of the code; reference time = candidate day nearest to reception; IODM of MT35/36 in data bits 214"]),
'C10': ("Mask positions with gaps, mixed and half messages.",
        ["high rate clock = +PRC; MT25 velocity code 1 has reference time toa; MT6 IODF not modelled; both halves of MT24 carry the same IODP"]),
'C11': ("All corner patterns of a cell; mask replacement between delays.",
        ["bands 0-8; what is reported for a do-not-use corner is lenient where three usable corners remain on the wrong side; delays sent for a band under an older issue are not judged"]),
'C12': ("Issue/mask/station combinations over message histories.",
        ["PRC -2048 excluded; an unhealthy station may leave or clear its corrections; near-ties and users beyond 700 km not judged; satellites without issue of data are not stored; outdated corrections must not be usable"]),
'C13': ("2^24 parity patterns and 1024 lengths.",
        ["a damaged length field is judged with the CRC model over the bytes it selects; pairs of errors in the longest frames follow from pairwise different syndromes of the model, which is bound to the code by all single-bit errors"]),
'C14': ("Mask shapes x value codes x clock roll-overs.",
        ["absent = 0 or NaN; GLO signal ids >= 10, QZS id 3, IRN id 8 not judged; GLO phase may be absent while the channel is unknown; loss-of-lock bit with half-cycle flag not judged; lock times compared within one MSM type"]),
'C15': ("Hundreds of message forms share code with different field widths.",
        ["rates in SI units; a newer epoch does not clear older corrections; bias set of a mentioned satellite is replaced when its epoch differs; signal codes GLO 8-11 and QZS 17/19 not judged; encoding of IGS SSR is not supported by the library; URA judged by value"]),
'C16': ("Each field is its own potential defect; weeks roll over every 1024/4096 weeks.",
        ["week may be the one of reception or of toe; toc at exact half-period ties not judged"]),
'C17': ("Loss/reordering patterns of several sub-frames and satellites.",
        ["21 formats (GPS/QZS LNAV, CNAV, CNAV2, Galileo I/NAV and F/NAV, BDS D1/D2/B-CNAV1-3, NavIC LNAV/L1NAV, GLONASS FDMA/L1OC/L3OC, SBAS MT9)",
         "Galileo word 5, B2a MT40 and GLONASS string 5 have no issue of data and are lenient; SISA sub-indices, L1OC vy, CNAV2 PRN, MT16 not judged; ephemeris week = week of tot or toe; times within 36 s of half-period ties not judged"]),
'C18': ("A forged page matters only at a particular position of a particular schedule.",
        ["the protocol model recomputes every tag and gives an upper (may) and a lower (must) set of authenticated data; reported set has to lie between",
         "MACLT 37 as tabulated by the code; ADKD4 self tags carry PRND=PRNA; (prn, IODnav) is the granularity; NMA status transitions and persistent denial of service by forged DSM blocks are not judged",
         "bitstruct is replaced by its C implementation in the harness, and pure loaders are memoised, for speed only"]),
'C19': ("Block orders/mixtures and one-bit alterations.",
        ["both of two genuine root keys may take effect; after a forged key number the whole message has to be repeated; the root key of the next chain counts only when header CID equals CIDKR"]),
'C20': ("Orders, losses and alterations of pages.",
        ["layout of the signed message as in the code (no specification at hand): a change of both signing layout and code in the same way is not visible; bits outside the signed masks are not judged; LNAV carries no PRN"]),
'C21': ("Every field of 22 record formats, blank fields, duplicates.",
        ["tgd = BGD(E1,E5a), tgd_b = BGD(E1,E5b) for Galileo; 'the same ephemeris' = same mode, issue, health, toe, toc; QZSS ionosphere header override of the GPS one is not judged"]),
'C22': ("Header orders and continuation lines, missing patterns.",
        ["missing = 0 or NaN; only bit 0 of LLI; SYS / SCALE FACTOR and header changes within the file not supported by the library; unknown codes keep their column; writer resolution 3 decimals"]),
'C23': ("Endless loops and wrong pairs occur only for particular gaps.", ["(Obs(), Obs()) at end of data; streams in which one epoch matches two are not enumerated; termination within 10 s"]),
'C24': ("Missing entries matter relative to the interpolation window.",
        ["extrapolation within 15 min of the span judged only for gross errors; a missing clock may suppress the position; all coordinates zero = missing"]),
'C25': ("Overlapping validity intervals and incomplete antenna entries.",
        ["an instant that equals an interval end without adjacent record is not judged; station records only for their station; documented substitution tables are the fixed rule"]),
'C26': ("Store orders and near-equal ages.",
        ["validity ages GPS/QZS/BDS/IRN 7200 s, GAL 14400 s, GLO 1800 s, exact limit not judged; ties only for order independence; almanac and SBAS propagation not judged"]),
'C27': ("Histories of issue changes and ageing for nine services.",
        ["ages are enforced through check_validity as in the tutorials; HAS histories with changed masks, B2b IOD SSR changes and DFMC/SBAS mask changes without renewed corrections are lenient; SLAS presence lenient; atmosphere not part"]),
'C28': ("Search trees depend on the covariance.",
        ["oracle = complete enumeration of the integer points inside the ellipsoid through the second best; conditional variances >= 1e-4"]),
'C29': ("Event histories over epochs at rover and base.",
        ["measurements are made uninformative (error 1e6) so that each estimate keeps its initial value; the code offset of an epoch identifies when an estimate was started",
         "slip events are strict for all frequencies, loss of one frequency is strict for that frequency only; LLI value 2 not judged; a jump in the very first epoch is undetectable; giving up a satellite after maxout (5) epochs without update is accepted",
         "'contribution': an epoch with an edited satellite equals the epoch without it (1e-6)"]),
'C30': ("Products of configuration options.",
        ["error-free data are simulated with the library's own basic models, which are judged elsewhere (C24-C27, C33)",
         "RTK iono/trop states are rover minus base; single frequency with estimated ionosphere: position not judged; partial fixing (parmode 2) with estimated ionosphere need not fix; tolerance of the first fixed epoch 5 cm; armode 2 does not exist; RTK with precise ephemeris and Klobuchar with GLONASS unsupported",
         "groups: float, corrections (CLAS, MADOCA), fix, ambiguities (all assignments of usable, low, invalid, absent and uninitialized to five satellites of two systems through ambiguity resolution and hold), standalone (stdpos), defaults, together (interleaved estimators), biases"]),
'C31': ("History of smoothing counters.", ["edited satellites restart the arc; shorter absences than the gap threshold continue; negative time steps not judged"]),
'C32': ("Shared mutable state shows only when two instances interleave.",
        ["every merge of two decoder histories up to the preemption bound, each judged by its own reference model; attributes named *cache*/*memo* may be shared; estimators are interleaved in C30 ('together')"]),
'C33': ("Singular points.", ["grid incl. poles, date line, zenith and points 1e-12..1e-3 deg beside them"]),
'C34': ("Thousands of code values, month/year ends.",
        ["synthetic text tables (the data files are not in the repository); date nearest to reception; reserved codes give None texts"]),
'C35': ("Message shapes.",
        ["not judged: message 3-8 test forms, the SSR drafts 60 and 80-84 (known unfixed weaknesses: metadata with several entries, satant width; 61 and 95-100 are judged by C39), reserved system bits, area types 2/3, multipath model >= 3, GLO bias -32768, reserved fault sources"]),
'C36': ("Border positions, both hemispheres and the date line, and message orders between selection and evaluation.",
        ["areas are numbered from one and do not overlap (up to five regions with the published number of areas); borders are judged at 0.03 deg (rectangles) or 2 % / 8 % (circles, flat approximation) beside them; missing-value codes, the alert flag and agreement of the issues of coverage and correction are not judged"]),
'C37': ("Week rollovers, age of almanacs, rare record types.",
        ["the Yuma week is at most one week ahead of the current date and less than 1023 weeks old; the 2-bit week of the XML file is judged up to one week from the issue date; positions within 1 m for eccentricities to 0.167; of several parameter records of the same constellation and message the last one counts; header lines of QZSS replace those of GPS"]),
'C38': ("Branches by latitude, season, elevation and quadrant.",
        ["not judged: elevations below 3-5 deg, heights above 20 km or below -1 km; wind-up up to a constant common to all satellites; the permanent tide, which only one of the two models contains, is removed before they are compared (8 mm); sun and moon within 0.6 deg (2000-2027, low-precision series referred to the mean equinox)"]),
'C39': ("Optional parts, offsets and sign/rounding boundaries of draft messages for which there are no recordings; retention across constellations.",
        ["the draft layout is taken from the field list documented in the code; not judged: grid type 2 (the decoder raises on it and the order of its points cannot be derived from anything available here, so it is listed as a limitation, not repaired), parts of one grid spread over several messages, corrections left by an earlier message without a polynomial part; the encoder is driven with at most 32 as grid identifier"]),
}
