#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

B = "beam_telescope_analysis/"
AU = B + "tools/analysis_utils.py"
TA = B + "track_analysis.py"
HA = B + "hit_analysis.py"
RA = B + "result_analysis.py"
DA = B + "dut_alignment.py"
DS = B + "tools/data_selection.py"
GU = B + "tools/geometry_utils.py"
SMC = B + "tools/smc.py"
DUT = B + "telescope/dut.py"
TEL = B + "telescope/telescope.py"
KF = B + "tools/kalman.py"
NOFIX = "The tests of this stage compare one recorded run with stored fixtures that are not part of this tree, so none of them passes here; "

prop("C01", "Chunked reading of a table covers it exactly once, aligned at events",
     """Reading an event-ordered table in chunks yields exactly the rows of the requested event/index range, each once and in order, whatever the chunk size,
     and no event is ever split over two chunks. Every chunk is non-empty and never larger than the chunk size, and the index returned with a chunk is the table index right behind its last row.
     An event that does not fit into one chunk is reported as an error when requested, and never silently skipped.""",
     ["inputs", "configurations"],
     """Every event-ordered table, every start/stop event number and start/stop index, every chunk size, with and without the optional indexed access path.""",
     "The two tests of the reader use one random table and a few chunk sizes, and the chunks are only compared by their concatenation; ranges, gaps, oversized events and boundary cases are open.",
     [AU], [("chunk generator and end-of-chunk event search", AU + ": data_aligned_at_events")],
     [("position", "table index behind the last row handed out", AU + ": current_start_index/current_stop_index")], ["yielded (rows, index) pairs"])

prop("C02", "Event-number matching and counting primitives are exact",
     """For sorted event numbers, the matching primitives are exact: the union keeps each event with the larger of its two multiplicities, the membership test and the common-event selection match set membership,
     the event merge produces all pairs of rows of the same event in order, mapping clusters on an event list places the k-th cluster of an event at the k-th slot of that event and leaves the other slots untouched, and the in-event and event-distance correlations count each pair of hits once.
     Index histograms of any dimension count every entry in its own bin, and index lookup reports for every element found its position in the other array.""",
     ["inputs"], "All pairs of sorted event-number arrays (duplicates, gaps, disjoint, one-sided, empty where allowed) and all row contents.",
     "The unit tests check one or two hand-written arrays per primitive; multiplicities, gaps, exhaustion of one side and duplicates at the end are sampled once or not at all.",
     [AU, B + "cpp/analysis_functions.pyx", B + "cpp/analysis_functions.h"],
     [("merge/map/correlate loops", AU + ": merge_on_event_number, map_cluster, correlate_position_on_event_number, correlate_hits_on_event_range"),
      ("compiled helpers", B + "cpp/analysis_functions.h: get_max_events_in_both_arrays, in1d, histograms"),
      ("index lookup", AU + ": in1d_index")], (), ["returned arrays"])

prop("C03", "Clustering partitions the hits of each event into connected groups",
     """Every unmasked hit within the charge range ends up in exactly one cluster of its own event, two hits share a cluster exactly when they are linked by a chain of neighbouring hits of that event (same neighbourhood distance and charge rules), and masked noisy or disabled pixels never contribute in a forbidden way.
     The cluster's event number, number of hits, summed charge, charge-weighted mean position, seed pixel and shape code are those of its hits, and the result does not depend on the chunk size.""",
     ["inputs", "configurations"], "Every event-ordered hit table, pixel matrix, mask, charge limits, cluster distances and chunk size.",
     NOFIX + "they would only cover one data set and one configuration.",
     [HA, AU], [("hit filtering, clusterizer set-up and cluster callbacks", HA + ": cluster_hits"), ("shape codes", AU + ": calculate_cluster_shape, xy2d_morton")],
     (), ["Clusters table of the output file"])

prop("C04", "Noisy-pixel masking flags exactly the pixels above the local threshold",
     """The stored mask flags exactly the pixels whose hit count over the whole file exceeds the threshold applied to the local-median background (the background is re-estimated with previous noisy pixels replaced, until nothing new is found or for the given number of iterations); pixels without hits are never flagged, a given disable mask is stored unchanged, and the stored occupancy counts every hit once.
     The mask does not depend on chunk size or on the order of hits within the file.""",
     ["inputs", "configurations"], "Every hit table, matrix size, threshold, filter size, iteration count and chunk size.",
     NOFIX + "one data set, one threshold.", [HA, SMC],
     [("occupancy histogram and iterative masking", HA + ": mask_pixels"), ("map-combine over chunks", SMC + ": SMC")], (), ["mask and histogram arrays of the output file"])

prop("C05", "Merging DUT cluster files keeps every cluster, grouped by event",
     """The merged table holds, for every event, as many rows as the largest number of clusters any DUT has in that event; each DUT's clusters of that event fill its columns of the first of these rows in their order, unchanged and with the matching hit flag, and all remaining entries of a DUT are marked as missing.
     Event numbers are non-decreasing, every cluster of every DUT up to the end of the data appears exactly once; positions are stored in the local coordinates of the DUT (pixel indices are converted, local positions kept) with z = 0, and nothing depends on the chunk size.""",
     ["inputs", "configurations"], "All combinations of per-DUT event-ordered cluster tables (gaps, empty events, DUTs starting or ending earlier) and all chunk sizes.",
     NOFIX + "one data set, one chunk size.", [HA, AU],
     [("per-chunk event union and column filling", HA + ": merge_cluster_data"), ("event union and mapping", AU + ": get_max_events_in_both_arrays, map_cluster")],
     [("event union", "the multiset of events of the output chunk", HA + ": common event number array")], ["MergedClusters table"])

prop("C06", "Correlation histograms count each same-event hit pair exactly once",
     """For every pair of reference and other DUT, the position correlation histogram in x and in y counts each pair of hits (or clusters) of the same event exactly once, in the bins of their two positions, and counts nothing else.
     The result is independent of the chunk size and of the DUTs selected in addition; the stored extents and bin sizes describe these bins, and the background-reduced histogram starts at zero and is flat where hits are not correlated at all.""",
     ["inputs", "configurations", "schedules"], "All pairs of event-ordered tables, resolutions and chunk sizes, and all schedules of the worker pool.",
     NOFIX + "one data set, one chunk size.", [HA, AU],
     [("chunk loops of both files", HA + ": correlate, _correlate_position"), ("pair counting", AU + ": correlate_position_on_event_number")], (), ["correlation arrays of the output file"])

prop("C07", "Track finding only regroups hits of one DUT within one event",
     """In every event, the track-candidate table contains for every DUT exactly the same hits (with all their attributes) as the merged input table, only assigned to different rows of that event; no hit is lost, duplicated, moved to another event or torn apart.
     Rows keep their event numbers and order of events, hit flags tell exactly which DUTs have a hit in the row, and the outcome is independent of the chunk size.""",
     ["inputs", "configurations"], "All merged tables, numbers and orders of DUTs, extrapolation selections and chunk sizes.",
     NOFIX + "row-exact comparison with one stored result.", [TA],
     [("in-event swapping of indices", TA + ": _find_tracks"), ("column permutation", TA + ": find_tracks")],
     [("indices", "permutation of the row numbers per DUT", TA + ": indices")], ["TrackCandidates table"])

prop("C08", "Track finding reconstructs well separated straight tracks",
     """If the hits of an event come from straight tracks that are separated everywhere by much more than the hit scatter, and every track has a hit in the first plane and moves sideways (relative to the beam, if the telescope is aligned to the beam)
     by less than a quarter of the separation up to the planes that at least two of its own hits allow to extrapolate to, then after track finding each row holds exactly the hits of one such track, whatever the order of the hits in the input.
     Missing hits in further planes stay missing for their track and no hit of a different track takes their place where the tracks own hit exists.""",
     ["inputs", "configurations"], "All hit orders per plane, track positions and slopes, missing hits, plane orders along the beam.",
     NOFIX + "nothing checks the assignment on data with a known truth.", [TA],
     [("nearest-hit assignment with extrapolation along the track", TA + ": _find_tracks")], (), ["TrackCandidates table"])

prop("C09", "Track fitting keeps exactly the candidates its selection admits",
     """For each fitted DUT, exactly those candidates are fitted and stored that have a hit in every required hit DUT and at least the required number of hits in the DUTs used for the fit; each is stored once, in input order, with its hit data and hit flags preserved (if all data is to be kept, all candidates are stored, the others without track).
     A DUT that is excluded from its own fit never contributes to the fit, DUTs with identical fit settings give identical tracks, every stored fit uses exactly the hits of the selected fit DUTs, and the outcome is independent of chunk size.""",
     ["inputs", "configurations"], "All candidate tables and all combinations of selected, required, fitted and excluded DUTs, minimum hit numbers and chunk sizes.",
     NOFIX + "a handful of configurations.", [TA],
     [("selection normalisation and grouping", TA + ": fit_tracks"), ("per-candidate hit masks", TA + ": fit_tracks select_fit_tracks/select_tracks_for_storage"), ("storage", TA + ": store_track_data, create_results_array")],
     (), ["Tracks_DUT* tables"])

prop("C10", "Fitted track parameters reproduce straight tracks and ignore excluded DUTs",
     """For hits lying exactly on a straight line, the fit returns that line: the stored intersection with every DUT plane equals the true crossing point in that DUT's local coordinates, the slopes are the line's and chi2 is zero.
     For scattered hits the stored line is the least-squares line of the used hits, and changing the hit of a DUT that is not used in the fit changes no stored track parameter.""",
     ["inputs", "configurations"], "All lines, hit scatters, plane positions and rotations, and all fit-DUT selections.",
     NOFIX + "only aggregated residuals are compared.", [TA, GU],
     [("line fit", TA + ": line_fit_3d, _fit_tracks_loop"), ("intersection with DUT planes", GU + ": get_line_intersections_with_dut")], (), ["offset/slope/chi2 columns of the tracks tables"])

prop("C11", "Quality and isolation flags mean what they say",
     """A track's quality flag of a DUT is set exactly if the DUT has a hit, the hit lies within the DUT's quality distance of the track intersection (ellipse, or box for distances below 2.5 pixels), and within the DUT's position limits if they are used; its isolated-track/hit flag is set exactly if within the same event no other fitted track's intersection / no other hit of that DUT lies within the isolation distance.
     Flags depend on nothing outside the track's own event and not on the chunk size.""",
     ["inputs", "configurations"], "All track/hit configurations of an event and all distance settings.",
     NOFIX + "flags are only compared for one data set.", [TA],
     [("distance conditions and neighbour search", TA + ": store_track_data, _find_small_distance")], (), ["quality_flag, isolated_track_flag, isolated_hit_flag columns"])

prop("C12", "Kalman-filter track fit is consistent with measurements and geometry",
     """For hits exactly on a straight line the Kalman fit returns that line at every plane regardless of which planes are fitted and of additional scattering material, with zero chi2; without scattering, it returns the least-squares line of scattered hits. A plane that is not selected for the fit has no influence on the result.
     The order in which planes are listed in the configuration does not matter, only their position along the beam.""",
     ["inputs", "configurations"], "All lines, plane orders, resolutions, material budgets and fit selections.",
     NOFIX + "only aggregated results are compared.", [KF, TA],
     [("forward/backward filter and smoother", KF + ": KalmanFilter.smooth, _filter_f, _filter_b"), ("track seed and set-up", TA + ": _fit_tracks_kalman_loop, _kalman_fit_3d")], (), ["offset/slope/chi2 columns of the tracks tables"])

prop("C13", "Track selection keeps exactly the tracks satisfying all conditions",
     """The selected table of a DUT contains exactly the input tracks that have the hit flag set / not set and the isolated-track flag set in the DUTs for which that was requested, the quality and isolated-hit flags set in those of the requested DUTs where the track has a hit,
     and that satisfy the query, in their original order with all columns unchanged. Contradictory hit requirements are refused.
     The outcome does not depend on the chunk size, and one DUT's criteria never affect the selection of another DUT.""",
     ["inputs", "configurations"], "All tracks tables, all selection lists and queries, all chunk sizes.",
     "No test exercises the selection; the only users are example scripts.", [DS],
     [("bit masks and expressions per DUT", DS + ": select_tracks"), ("query evaluation", DS + ": table_where")], (), ["Tracks_DUT* tables of the output file"])

prop("C14", "The event limit selects whole events and its size is respected",
     """With an event limit of N, every stage that accepts it stores complete events only, in order, and never more than N different ones: exactly the smaller of N and the number of available events if the file is processed in one chunk,
     and a share from every part of the file if it is processed in several chunks with events of equal size; if fewer than N are stored, the last chunk is stored completely. A repeated call stores the same events.
     With no limit, or a limit not below the number of events (one chunk, or events of equal size), nothing is dropped. The rows of a stored event are all its rows, none is modified.""",
     ["inputs", "configurations"], "All tables, limits and chunk sizes.",
     "No test uses the limit together with several chunks or checks which events are kept.", [DS, TA],
     [("per-chunk event budget", DS + ": reduce_events, select_tracks"), ("same in the track stages", TA + ": find_tracks, fit_tracks")],
     [("stored events so far", "budget accounting over chunks", DS + ": total_n_events_stored_last")], ["output tables"])

prop("C15", "Combining files appends them without mixing events",
     """Combining several files yields, per table, the rows of all files in the given order, unchanged except for the event number; event numbers of each file are shifted by one constant, so that events of different files never share a number and the order stays non-decreasing when no offsets are given, and by exactly the given offsets otherwise.
     The result does not depend on the chunk size.""",
     ["inputs", "configurations"], "All lists of input files (including empty tables), offsets, table names and chunk sizes.",
     "No test exercises it.", [DS], [("event number offset bookkeeping", DS + ": combine_files")], [("event offset", "shift of the current file", DS)], ["output tables"])

prop("C16", "Efficiency is found hits over all tracks, counted once per track",
     """Per position bin, the stored number of tracks counts every analysed track crossing the DUT there exactly once, the stored number of tracks with hit counts those of them whose hit lies within the cut distance (an ellipse if the cut is at least 2.5 pixels in both directions, otherwise a rectangle), and the stored efficiency is the ratio of the two where tracks exist; the efficiencies per pixel, per in-pixel bin and per region are the same ratio of the tracks in the pixel, bin or region. Tracks through disabled pixels are left out.
     The stored mean residual, charge, frame and cluster size of a bin are those of its tracks with hit, histograms of charge, frame, cluster size and cluster shape count each of them once, and hit pixels from cluster files are counted relative to the pixel of the track's bin.
     The passing count never exceeds the total, no count depends on the chunk size or on other DUTs analysed in the same call, and a DUT for which no track has a hit raises an error.""",
     ["inputs", "configurations"], "All tracks tables, cut distances, regions, extents and chunk sizes.",
     NOFIX + "one data set, one configuration.", [RA],
     [("per-chunk accumulation of histograms", RA + ": calculate_efficiency")], [("count histograms", "tracks / tracks with hit per bin", RA)], ["arrays and attributes of the efficiency file"])

prop("C17", "Residual histograms count every selected hit exactly once",
     """Every fitted track of a DUT that has a hit contributes exactly one entry, at hit position minus track intersection, to each residual histogram whose stored range covers it; tracks without hit or fit contribute nothing. If limits are used, hits outside of the DUT's limits do not contribute (in position-resolved histograms the limit along the position axis is not applied).
     The maps of the pixels hold the number of tracks and their mean distance to the hit. The binning is chosen from the first usable data, with the requested number of bins per pixel and pixels per bin; given the binning, the result does not depend on the chunk size or on which other DUTs are analysed. Without any usable track an error is raised.""",
     ["inputs", "configurations"], "All tracks tables, binnings and chunk sizes.",
     NOFIX + "one data set.", [RA], [("per-chunk accumulation", RA + ": calculate_residuals")], (), ["arrays of the residuals file"])

prop("C18", "Coordinate transformations are exact inverses of each other",
     """Pixel index to local to global position and back returns the same index and position for every pixel of a regular matrix and every DUT placement (also when some placement parameters are replaced in the call); a global position is the local one rotated about x, then y, then z and then translated.
     Pixel positions are equidistant with the pixel pitch and symmetric about the DUT's centre, the known sensors have their documented size, positions outside of the pixel matrix or off the sensor plane are rejected, and the position within the primitive cell is the position modulo the cell.
     Rotation angles extracted from a rotation matrix rebuild that matrix, spherical coordinates convert back to the same position, and the intersection of a line with a DUT lies on the line and in the DUT's plane (nan if there is none).""",
     ["inputs", "configurations"], "All DUT types, pixels, positions, translations and rotations.",
     "The geometry tests check few angles; DUT coordinate methods and extreme rotations are not tested.", [DUT, GU],
     [("index/local/global conversions", DUT + ": RectangularPixelDut"), ("matrices and Euler angles", GU + ": rotation_matrix, euler_angles, *_transformation_matrix")], (), ["returned coordinates"])

prop("C19", "A telescope configuration survives saving and loading unchanged",
     """A telescope with any set of DUTs, saved and loaded again, has the same DUTs of the same type in the same order under the same keys with identical parameters; saving again changes nothing, and saving over an existing file keeps other content when asked to and replaces it otherwise.
     Attributes a DUT type does not define cannot be set by accident, and each parameter that is set reads back.""",
     ["inputs", "configurations", "histories"], "All DUT types, parameter values and sequences of edits, saves and loads.",
     "No test covers loading and saving.", [TEL, DUT],
     [("load/save", TEL + ": load_configuration, save_configuration"), ("attribute protection", DUT + ": Dut.__setattr__")],
     [("telescope", "mapping of DUT ids to DUT objects", TEL)], ["configuration file", "telescope object attributes"])

prop("C20", "Applying alignment is exact and reversible",
     """Converting hits, merged clusters, track candidates or tracks from local to global coordinates and back restores every position, slope and row; row count, order, event numbers and all other columns are untouched, missing hits stay missing, each DUT is transformed by its own placement only and the result does not depend on the chunk size.
     Converted positions satisfy the DUT's placement exactly: rotation about the DUT's origin followed by translation.""",
     ["inputs", "configurations"], "All tables of all node types, all DUT placements, beam alignment on/off, all chunk sizes.",
     "No test covers applying an alignment to data.", [DA, DUT],
     [("node, DUT and chunk loops", DA + ": apply_alignment")], (), ["converted tables"])

prop("C21", "Split-map-combine equals applying the function to the whole table",
     """Processing a table in parallel chunks gives the same stored table (rows in input order) or the same combined histogram as processing the whole table at once, for any chunk size and number of processes and any order in which workers finish; event alignment is kept when requested.
     An exception of the function is reported, never swallowed; no temporary nodes or threads stay behind.""",
     ["inputs", "configurations", "schedules"], "All tables, chunk sizes, worker counts, completion orders.",
     "Only used indirectly with one chunk and no permuted completion order.", [SMC],
     [("reader, worker pool, writer threads", SMC + ": SMC._reader, _async_worker, _writer"), ("final combination", SMC)],
     [("queues", "work items and results in flight", SMC)], ["output file"])

prop("C22", "Converting hit files between index and position keeps every hit",
     """Converting hit files from pixel index to local position and back returns the original hits; rows, order, event numbers and charges are preserved, each file is processed with its own DUT's geometry, and the result does not depend on the chunk size.
     Selecting an event range from data returns exactly the rows of the half-open range.""",
     ["inputs", "configurations"], "All hit tables, DUT selections, chunk sizes and event ranges.",
     "The conversion is not tested.", [HA, AU],
     [("conversion loop", HA + ": convert, convert_coordinates"), ("range selection", AU + ": get_data_in_event_range")], (), ["converted hit tables"])

prop("C23", "Hit checks describe the file exactly",
     """The check of a hit or cluster file writes the event numbers of the file once each and in order, their successive differences, and for each axis how many pairs of hits there are in which the second one (any bin) lies 1 to event_range event numbers behind the first one (any bin): each pair is counted once, over the whole file.
     Files with decreasing or negative event numbers or with hits outside of the pixel matrix are rejected with an error. The numbers do not depend on the chunk size, nor on which other DUTs are checked.""",
     ["inputs", "configurations"], "All event-ordered hit tables, event ranges and chunk sizes.",
     NOFIX + "no assertion on the content.", [HA, AU],
     [("per-chunk accumulation", HA + ": check_file"), ("event-range correlation", AU + ": correlate_hits_on_event_range")], (), ["arrays of the check file"])

prop("C24", "Alignment recovers a known misalignment and touches nothing else",
     """Correcting a telescope from tracks whose hits are exactly consistent with displaced DUTs recovers their true translation and rotation for all parameters that were selected (all of them by default, without the z position for telescope DUTs). Hits outside of the limits, tracks without hit and failed fits have no influence. If the position drifts between chunks the average weighted with the numbers of tracks is stored. Otherwise the outcome does not depend on the chunk size.
     Translations that were not selected, other DUTs and the input file stay as they were; an existing output file keeps the DUTs that are not aligned. A selected DUT without any usable track raises an error.""",
     ["inputs", "configurations"], "All misalignments of moderate size, selections of DUTs and parameters, chunk sizes.",
     NOFIX + "one data set.", [DA], [("transformation from hit/track pairs", DA + ": calculate_transformation"), ("alignment loops", DA + ": align, _duts_alignment")], (), ["aligned telescope configuration"])

prop("C25", "Raw-data converters keep every hit with right coordinates and event",
     """Converting the formatted output of a readout system into hit tables keeps every hit of the plane exactly once and in order with event number, column, row and charge mapped by the documented offsets, each plane into its own file.
     Data with decreasing event numbers is rejected, and the result does not depend on the chunk size.""",
     ["inputs", "configurations"], "All raw hit tables, planes and chunk sizes.",
     "No test covers the converters.", [B + "converter/pybar_fei4_converter.py", B + "converter/pymosa_converter.py"],
     [("chunk loop and column mapping", B + "converter: format_hit_table")], (), ["hit tables"])

prop("C26", "Prealignment recovers position and orientation of the DUTs",
     """For hits of a beam along z in DUTs that are displaced sideways and flipped, with a small share of noise and missing hits, prealignment from the stored correlations (with at least 15 bins) sets the x/y translation and the rotation of every selected DUT so that its hits coincide with those of the reference DUT within two bins of the correlation histograms.
     The limits of an aligned DUT are set inside of its matrix and never widened; z positions, all other parameters, the reference DUT and DUTs that are not selected stay as they were. The input configuration is not modified and refused as output.""",
     ["inputs", "configurations"], "All displacements, orientations, pixel sizes, selections, reference DUTs and hit patterns.",
     "The only alignment test is not runnable here and compares one dataset with a stored result.", [B + "dut_alignment.py", B + "hit_analysis.py"],
     [("line search, offsets, flips and limits", B + "dut_alignment.py: prealign"), ("histograms", B + "hit_analysis.py: correlate"), ("line search", B + "tools/analysis_utils.py: hough_transform")], (), ["telescope configuration", "correlation histograms"])

prop("C27", "From hits to efficiency, every true track is kept exactly once",
     """For well separated straight tracks, the chain clustering, merging, track finding, fitting, selection, efficiency and residuals, each with any chunk size, ends with one row per true track that has the hits asked for: no track is lost, doubled or mixed with another one or with another event, and no row exists that is not a true track.
     Each row carries the hits, charges and cluster sizes of that track, and the intersection, slope and flags that the geometry implies; the efficiency counts exactly the true tracks crossing each pixel and those of them with a hit, whatever the efficiency is, and the residuals hold one entry at zero per hit on a track.""",
     ["inputs", "configurations", "schedules"], "All tracks, orders of hits and DUTs, placements, orientations, missing hits, selections and chunk sizes of every stage.",
     "No test runs the stages one after another against known tracks.", [B + "hit_analysis.py", B + "track_analysis.py", B + "result_analysis.py", B + "tools/data_selection.py"],
     [("clustering, merging", B + "hit_analysis.py: cluster_hits, merge_cluster_data"), ("finding, fitting", B + "track_analysis.py: find_tracks, fit_tracks"), ("selection", B + "tools/data_selection.py: select_tracks"), ("numbers", B + "result_analysis.py: calculate_efficiency, calculate_residuals")], ("C03", "C05", "C08", "C09", "C13", "C16", "C17"), ["all files between the stages"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
