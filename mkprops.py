#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
S="liboptv/src/"; I="liboptv/include/"; PB="py_bind/optv/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title)); 
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Frames written to the result store read back unchanged",
 "A frame saved to the result store (particle positions, per-camera correspondences, links, priorities and every camera's target list) is read back as the same frame: same counts, same order, same integer fields, and real fields equal to the printed precision. This holds for every frame size including zero particles or zero targets, every number of cameras, every frame number and file name template, and however the file system splits the reads and writes. Fields that are not stored, or whose files were not asked for, come back at their documented defaults.",
 ["inputs","histories","fault_sequences"],"all sequences of frame and target-list saves, overwrites and loads over one store, all frame sizes, camera counts, numbers and templates, all splits of reads and writes into partial transfers, all interleavings of several stores and of loads into reused frame memory",
 "The tests round-trip two tiny hand-written frames through a healthy disk; they have no zero-particle frame, no shrinking overwrite, no reuse of a frame buffer that held larger data, and no short transfer.",
 [S+"tracking_frame_buf.c",I+"tracking_frame_buf.h"],
 [("frame save/load","write_frame/read_frame, write_path_frame/read_path_frame"),("target list save/load","write_targets/read_targets")],
 [("rt_is.N, ptv_is.N, added.N, <img>NNNN_targets","the on-disk result store","files named by the sequence parameters")])
p("C02","A save that reports success has stored everything",
 "When a save of a frame, a target list or a camera calibration reports success, every file it was asked to write is complete on disk. If creating, writing, flushing or closing any of these files failed at any point, the save reports failure.",
 ["inputs","fault_sequences"],"all data sizes and all single or repeated failures (cannot open, disk full, I/O error, failure surfacing only at flush or close) at every byte of every file of the save",
 "The tests only ever write to a healthy disk, so no write error, full disk or failing close is ever seen.",
 [S+"tracking_frame_buf.c",S+"calibration.c"],
 [("frame and target writers","write_path_frame, write_frame, write_targets"),("calibration writer","write_ori, write_calibration")])
p("C03","A damaged frame or target file is never taken for a complete one",
 "Loading a frame or a target list reports success only if every file it needs was there and could be read completely. A missing, empty, torn or truncated file, one that stops being readable part way, one that holds fewer records than it announces, or path and link files that announce different numbers of particles make the load fail; it never yields fewer, stale or invented particles or targets as if they were the frame. The one exception is a cut inside the digits of the very last value, which no reader of the text format can notice.",
 ["inputs","crash_points","fault_sequences"],"all frames, all truncation points of every file of the frame (in particular every state a writer killed at any instant leaves behind), every missing-file combination and every read-error position",
 "The tests read intact sample files; torn, empty and unreadable files and dying writers do not occur in them.",
 [S+"tracking_frame_buf.c"],
 [("path and link reader","read_path_frame"),("target reader","read_targets"),("frame reader","read_frame")])
p("C04","Settings are loaded whole or not at all",
 "Loading sequence, tracking, volume, control, detection, orientation, sort-grid, calibration-block, manual-orientation or camera-calibration settings reports failure when the file is missing, unreadable, truncated or ends before all its values were read. When it reports success, every setting has the value in the file. It never crashes and never succeeds with a value that is left over or uninitialised. The exceptions are what the text formats cannot show: a cut inside the digits of the very last value, and, for the calibration block, which has no record count, a cut between two points. Two loaded settings compare as equal exactly when all their values are.",
 ["inputs","crash_points","fault_sequences"],"all valid settings files, all truncation points, all read-error positions, missing files, all splits of reads, arbitrary prior memory contents",
 "The tests load one intact file of each kind and, for some kinds, one missing file.",
 [S+"parameters.c",S+"calibration.c",S+"sortgrid.c",S+"orientation.c"],
 [("parameter readers","read_sequence_par, read_track_par, read_volume_par, read_control_par, read_target_par"),("calibration readers","read_ori, read_calibration"),("calibration inputs","read_calblock, read_sortgrid_par, read_man_ori_fix, read_orient_par")])
p("C05","Saved calibrations and detection settings load back unchanged",
 "A camera calibration or detection settings object that was saved successfully loads back as the same object, to the precision of the file, with a rotation matrix consistent with its angles. Saving what was just loaded and loading it again gives the identical object, over any number of rounds. Calibrations without distortion data get the documented defaults.",
 ["inputs","histories","fault_sequences"],"all calibration and detection-settings values, all sequences of saves, overwrites and loads over several cameras, all splits of reads and writes",
 "The tests round-trip one calibration once.",
 [S+"calibration.c",S+"parameters.c"],
 [("calibration save/load","write_ori/read_ori, write_calibration/read_calibration"),("detection settings save/load","write_target_par/read_target_par")],
 [("*.ori, *.addpar","camera orientation and distortion files","paths given by the caller")])
p("C06","No call leaks files or memory, whether it succeeds or fails",
 "After any library call returns, every file it opened is closed exactly once and every block of memory it allocated is either released or reachable from the object the caller owns. This holds for calls that fail part way because of I/O errors or damaged files, and for matching and image preparation that run out of memory, exactly as for calls that succeed. Releasing the caller's objects returns the process to the memory and open files it started with.",
 ["inputs","histories","fault_sequences"],"all sequences of loads, saves, matching, image preparation, orientation and tracking runs, with open, read, write, close and allocation failures anywhere in them",
 "The tests never look at open files or memory and never make a call fail half way.",
 [S+"parameters.c",S+"calibration.c",S+"tracking_frame_buf.c",S+"tracking_run.c",S+"correspondences.c",S+"orientation.c",S+"image_processing.c",S+"sortgrid.c"],
 [("readers and writers","read_*, write_*"),("run object","tr_new, tr_free, fb_free"),("matching and orientation scratch memory","correspondences, orient, prepare_image, sortgrid")])
p("C07","Running out of memory in matching or image preparation is survived",
 "If memory runs out during multi-camera matching or image preparation, the call returns and reports that (no correspondences, or a failure value) instead of crashing. No inputs other than those the call is documented to modify are changed, and the same call repeated once memory is available gives the result of a run that never failed.",
 ["inputs","fault_sequences"],"all scenes and images and every allocation, or set of allocations, made by the call that can fail",
 "No test makes an allocation fail.",
 [S+"correspondences.c",S+"image_processing.c"],
 [("matching scratch memory","correspondences, safely_allocate_target_usage_marks, safely_allocate_adjacency_lists"),("image preparation","prepare_image, copy_images")])
p("C08","The frame window always holds the frames it was moved to",
 "The frame window behaves as a fixed-length cyclic window: after any sequence of advances, step-backs, loads and saves, each position shows exactly the frame that was last loaded there, and a save stores the frame at the window's start under the requested number. A load touches only the last position. Releasing the window releases every frame once.",
 ["inputs","histories"],"all window lengths, camera counts and sequences of advance, step back, load (with and without links, failing or not) and save",
 "The tests do one advance and one step back on a window of four.",
 [S+"tracking_frame_buf.c"],
 [("frame window","fb_base_init, fb_next, fb_prev, fb_disk_read_frame_at_end, fb_disk_write_frame_from_start, fb_base_free")],
 [("frame ring","frames in memory around the current one","framebuf_base")])
p("C09","Stored trajectories are chains of mutual one-to-one links",
 "After a forward tracking pass, in the stored frames of the sequence every link to a next frame points to an existing particle of that frame which links back to it, and every backward link is likewise answered, so that no two particles share a successor or a predecessor. No link leaves the processed range. This holds whatever frames were lost, empty or unreadable, and with or without adding of particles.",
 ["inputs","histories","fault_sequences","configurations"],"all particle scenes (crossings, bursts, clutter, drop-outs), all tracking parameters, camera numbers and sequence lengths, missing or unreadable frames",
 "The tests count links on three or four canned sequences.",
 [S+"track.c",S+"tracking_frame_buf.c"],
 [("forward pass","trackcorr_c_loop, trackcorr_c_finish"),("link conflict resolution","trackcorr_c_loop second part")],
 [("prev/next","links of a particle to neighbouring frames","ptv_is.N")])
p("C10","Tracking never loses or alters measured data",
 "Forward and backward tracking leave every measured particle's position and camera correspondences and every target's measured fields as they were on disk, to the printed precision, in their original order. They only set links and, only if adding is enabled, append particles after the measured ones and mark the targets these use. The stored data of a frame that could not be read is left untouched.",
 ["inputs","histories","fault_sequences","configurations"],"all scenes, parameters, sequence lengths, repeated passes, and read failures on any file of any frame",
 "The tests check link counts, not that what the in-place rewrite stored is what was measured, and none has an unreadable frame.",
 [S+"track.c",S+"tracking_frame_buf.c"],
 [("in-place rewrite of frames","trackcorr_c_loop, trackcorr_c_finish, trackback_c via fb_write_frame_from_start"),("adding particles","add_particle, assess_new_position")],
 [("rt_is.N and target files","measurements, overwritten in place by tracking","result store")])
p("C11","Each forward link is the best admissible continuation",
 "Forward tracking links a particle to the candidate that the documented criteria rank best: predicted from its history, found by projecting the search volume into the cameras, within the velocity, acceleration and angle limits, ranked by the quality measure, and when two particles want the same continuation the better-ranked one gets it and the other stays unlinked. Links, back links and (when enabled) added particles agree with an independent implementation of these criteria for every frame.",
 ["inputs","histories","configurations"],"all scenes, camera set-ups and tracking parameters, and all sequence lengths, away from exact ties and threshold values",
 "The tests compare total counts for a few canned sequences; almost all decision branches and conflicts are never compared link by link.",
 [S+"track.c",S+"tracking_run.c"],
 [("candidate search","sorted_candidates_in_volume, candsearch_in_pix, candsearch_in_pix_rest, searchquader, sort_candidates_by_freq"),("criteria","angle_acc, pos3d_in_bounds, search_volume_center_moving, predict"),("decision","trackcorr_c_loop, sort")])
p("C12","Backward tracking only completes trajectories",
 "A backward pass keeps every link the forward pass made. The links it adds join particles that had no link on that side, are mutual and one-to-one, satisfy the limits, and agree with an independent implementation of the backward criteria. Running a second backward pass over its own result keeps all of its links.",
 ["inputs","histories","configurations"],"all scenes, gaps, camera set-ups and parameters, followed by one or more backward passes",
 "The tests count backward links on two canned sequences.",
 [S+"track.c"],[("backward pass","trackback_c")],
 [("prev/next","links of a particle to neighbouring frames","ptv_is.N")])
p("C13","A crash during tracking costs at most the frame being written",
 "If the process dies at any instant of a tracking pass, every stored frame except the one being written is intact and holds either its content from before the pass or its final content of the pass. If that frame's files were left incomplete, reading it reports that. Once that frame's inputs are put back, repeating the forward pass (without adding particles) gives exactly the result of a pass that was never interrupted.",
 ["crash_points","inputs","histories"],"all crash points of a pass (between and inside file operations, with any part of the buffered output lost), repeated crashes, all scenes",
 "No test kills a run.",
 [S+"track.c",S+"tracking_frame_buf.c"],
 [("order and scope of frame writes","trackcorr_c_loop, trackcorr_c_finish, trackback_c"),("frame writer","write_frame")],
 [("result store","files overwritten in place","rt_is.N, ptv_is.N, added.N, *_targets")])
p("C14","Results depend only on the inputs, not on what ran before",
 "Tracking, matching, orientation, image preparation, segmentation and file loading give identical results for identical inputs whatever the process did before: memory contents left by earlier work, earlier runs or failed calls in the same process, and reuse of result objects make no difference. In particular repeating a tracking pass on restored inputs reproduces it exactly.",
 ["histories","inputs","configurations"],"all inputs, all earlier histories of calls (succeeding and failing), all contents of freshly allocated and stack memory",
 "Tests run each case once, in a fresh process.",
 [S+"track.c",S+"tracking_run.c",S+"correspondences.c",S+"orientation.c",S+"image_processing.c",S+"segmentation.c",S+"tracking_frame_buf.c"],
 [("run set-up","tr_new, track_forward_start"),("scratch memory","malloc and stack arrays of all parts")])
p("C15","Independent callers in different threads do not disturb each other",
 "Callers in different threads that work on different objects and different files get exactly the results each would get alone, however their executions interleave. This covers parameter and frame files, matching, image preparation, segmentation, orientation and tracking.",
 ["schedules","inputs","histories"],"all pairs and triples of callers with separate data and all interleavings of their executions",
 "The tests are single-threaded.",
 [S+"track.c",S+"correspondences.c",S+"segmentation.c",S+"orientation.c",S+"image_processing.c",S+"tracking_frame_buf.c",S+"parameters.c"],
 [("absence of shared mutable state","all public entry points")])
p("C16","Matching stays correct when cameras lose detections or drop out",
 "Given correctly calibrated cameras that see a sparse set of particles, with any detections lost, any camera delivering nothing, and spurious detections added, matching reports each particle seen by enough cameras once, using exactly that particle's detections, and reconstructs its position. In every scene, dense ones too, no detection is used in more than one match, matches are grouped by the number of cameras, the counts and stored correspondences agree, and the matches are those the documented epipolar and similarity criteria choose. Detection order does not matter.",
 ["inputs","fault_sequences","configurations"],"all sparse scenes, 2 to 4 cameras in general position, through air, glass and water, and all patterns of lost and spurious detections and camera outages that leave matches unambiguous",
 "The tests match one canned scene with every camera working.",
 [S+"correspondences.c",S+"epi.c",S+"orientation.c",S+"ray_tracing.c",S+"imgcoord.c",S+"multimed.c",S+"trafo.c"],
 [("matching","correspondences, match_pairs, four_camera_matching, three_camera_matching, consistent_pair_matching, take_best_candidates"),("positions","point_position, epipolar")])
p("C17","Tracking recovers from missing frames without stale data",
 "When frames of a sequence cannot be read (missing, damaged or failing files), forward and backward tracking treat them as having no particles: nothing is linked into them or across them, no data of any other frame is used in their place, and their files are left as they are. Within the frames before and after the gap, links are those of a sequence in which the unreadable frames are empty, and true trajectories are picked up again as soon as enough readable frames follow.",
 ["fault_sequences","inputs","histories"],"all sets of unreadable frames and failing files in a sequence, transient or permanent, including the first and last frames, and all scenes",
 "No test has an unreadable frame.",
 [S+"track.c",S+"tracking_frame_buf.c"],
 [("frame reading","fb_disk_read_frame_at_end, read_frame"),("forward pass","track_forward_start, trackcorr_c_loop")])
p("C18","A whole measurement is right, and repeatable after crashes and dropouts",
 "Processing a recorded sequence from camera images to trajectories (settings files, calibration against a known target, image preparation, detection, image coordinates, multi-camera matching, three-dimensional positions, storing, forward and backward tracking) finds what is there. The calibration shows points where the camera sees them. A prepared image is what stands out of the mean of its surroundings, smoothed as chosen. With either way of detecting, every separate blob is detected once, at its place, nothing else is, and no pixel belongs to two detections, also where reflections fill large areas. Wherever no other combination of detections fits, every particle seen by enough cameras is matched exactly once, from exactly its own detections, and placed where the cameras see it, with look-up tables of the refraction or without. Unmistakable movements are linked. This holds with cameras that miss particles or see reflections, and with hot pixels and noise below the detection limits. A processing program that is killed at any instant, runs out of memory in calls that report it, or has saves fail that it then repeats, ends with exactly the files of an undisturbed one when it resumes from what it finds on disk.",
 ["inputs","histories","crash_points","fault_sequences"],"all camera arrangements, glass and water paths, settings, scenes, image noise, dropped and additional detections; all sequences of kills, failing saves and lacks of memory over the session",
 "The tests take each step alone, with prepared data for a handful of particles and no failures; no test goes from images to trajectories.",
 [S+"image_processing.c",S+"segmentation.c",S+"trafo.c",S+"imgcoord.c",S+"multimed.c",S+"ray_tracing.c",S+"epi.c",S+"correspondences.c",S+"orientation.c",S+"sortgrid.c",S+"tracking_frame_buf.c",S+"track.c",S+"calibration.c",S+"parameters.c"],
 [("image preparation and detection","prepare_image, targ_rec, peak_fit"),("calibration","sortgrid, orient, write_calibration, read_calibration"),("matching and positions","correspondences, point_position, init_mmlut"),("storing and tracking","write_frame, read_frame, trackcorr_c_loop, trackback_c")],
 [("res/*, *.ori, *.addpar","the results, from which a restarted program goes on","result store")])
p("C19","Calibration work ends with the calibration its pictures determine",
 "Over a session of calibration steps (hand-picked points, or all points of a target assigned to detections by the sort-grid and adjusted by orientation) on several cameras, every step does what it reports. The sort-grid gives each point the detection nearest to where the current calibration expects it, within the search radius, and marks points that have none; it changes nothing else. An orientation that reports success leaves finite parameters, a rotation matrix that is that of its angles, and every parameter that was not released unchanged; where the points determine the camera, the calibration fits them as well as the real camera does, and the reported residuals are the remaining ones. An orientation that reports failure leaves the calibration as it was. A saved calibration is the one that is loaded. A session that is killed at any instant, or whose reads and saves fail, ends with exactly the files of an undisturbed one when it goes on from what it finds on disk.",
 ["inputs","histories","crash_points","fault_sequences"],"all cameras and media, calibration targets, first guesses, released parameters, missing, additional and mixed-up detections; all orders of steps over several cameras; all kills and failing reads, writes, opens and closes",
 "The tests orient one camera from a few perfect points; they do not check the parameters that were to be kept, failures, or whether the result fits, and calibrate nothing twice or after a failure.",
 [S+"orientation.c",S+"sortgrid.c",S+"lsqadj.c",S+"calibration.c",S+"imgcoord.c",S+"multimed.c",S+"trafo.c"],
 [("manual orientation","read_man_ori_fix, raw_orient"),("points to detections","read_calblock, read_sortgrid_par, sortgrid, nearest_neighbour_pix"),("orientation","read_orient_par, orient, ata, atl, matinv"),("storing","write_calibration, read_calibration")],
 [("*.ori, *.addpar","the calibration of a camera after a step, from which the next goes on","calibration folder")])
p("C25","The Python package gives the library's own results and keeps what it is given",
 "Every parameter, calibration, target and frame object of the Python package returns exactly what was set, or what the file it read contains, whatever the order of the calls, and compares equal exactly when its content is; what an object writes is what it holds. Every conversion, projection, epipolar curve, 3D position, calibration, matching, image preparation, target recognition and tracking called from Python gives the same numbers, objects and files as the library called directly with the same data: for arrays of any memory layout (transposed, strided, reversed, in either order), with or without an array given for the result (which then is the one returned), for any number of cameras, points, targets and layers including none, and when a Tracker is used again. Arrays given as input are left as they were.",
 ["inputs","configurations","histories"],"all objects and contents, all orders of calls on them, all array layouts, all numbers of cameras and points",
 "The tests call each binding once or twice with small contiguous arrays of four cameras and compare with prepared numbers.",
 [PB+x for x in ("parameters.pyx","calibration.pyx","tracking_framebuf.pyx","transforms.pyx","imgcoord.pyx","epipolar.pyx","orientation.pyx","correspondences.pyx","segmentation.pyx","image_processing.pyx","tracker.pyx")],
 [("objects","MultimediaParams, TrackingParams, SequenceParams, VolumeParams, ControlParams, TargetParams, Calibration, Target, TargetArray, Frame, MatchedCoords"),("functions","convert_arr_pixel_to_metric .. distorted_to_flat, image_coordinates, epipolar_curve, point_positions, dumbbell_target_func, external_calibration, full_calibration, match_detection_to_ref, target_recognition, preprocess_image, correspondences, read_targets"),("tracking","Tracker")],
 [("Python objects","the C structs they own or share","process memory")])
p("C26","Failing calls and any order of deletion leave Python objects intact",
 "A call of the Python package that cannot do its work raises an exception (Frame.read may return a false value instead): a file that is missing, incomplete, malformed or fails to open or read; a target or calibration file that cannot be written whole; a setter or getter given too many values, a name that is too long or a camera that does not exist; arrays, target lists or calibrations that do not fit each other in number or size; matching or image preparation for which memory cannot be had. The objects involved are then as they were before and can go on being used (a Frame whose reading failed can be read again), including objects that share their memory. Objects may be dropped in any order: a target of a target array, an array that shares an object's memory, the multimedia parameters of control parameters and a running Tracker stay valid after everything else is gone. Nothing reads or writes outside its memory, no file stays open, and once every object is gone all memory is released.",
 ["inputs","histories","fault_sequences"],"all orders of creating, using, failing and forgetting objects; all failing opens, reads, writes and allocations in those calls; all unfitting arguments of the kinds named",
 "The tests never let a call fail, never drop an object another one depends on, and cannot see leaks or stray accesses.",
 [PB+x for x in ("parameters.pyx","calibration.pyx","tracking_framebuf.pyx","orientation.pyx","correspondences.pyx","segmentation.pyx","image_processing.pyx","tracker.pyx")],
 [("reading and writing","read_track_par, read_sequence_par, read_volume_par, read_control_par, TargetParams.read, Calibration.from_file, Calibration.write, TargetArray.write, read_targets, Frame.read"),("setters","set_layers, set_*_lay, set_grey_thresholds, set_img_base_name, set_cal_img_base_name"),("ownership","wrap_1d_c_arr_as_ndarray, TargetArray.__getitem__, get_multimedia_params, Tracker.__init__, __dealloc__")],
 [("Python objects","the C structs they own or share","process memory"),("files","parameter, calibration, target and frame files","disk")])
# ---- properties with no schedule, fault or history in them
NA="Sampled by the tests at a handful of points."
p("C20","Projection and ray tracing are inverse to each other",
 "Projecting a point into a camera and tracing the resulting image point back yields a ray through that point, for every camera and every air, glass and water arrangement.",
 ["inputs","configurations"],"all cameras, media and points in the working volume",NA,
 [S+"imgcoord.c",S+"ray_tracing.c",S+"multimed.c"],[("projection and ray tracing","img_coord, ray_tracing, trans_Cam_Point")])
p("C21","Image coordinate conversions are inverse to each other",
 "Pixel and metric coordinates, and distorted and flat coordinates, convert into each other and back without change, for every sensor and moderate distortion.",
 ["inputs","configurations"],"all sensors, distortion models and points on the sensor",NA,
 [S+"trafo.c"],[("conversions","pixel_to_metric, metric_to_pixel, flat_to_dist, dist_to_flat")])
p("C22","The refraction look-up table agrees with direct refraction",
 "Within the table's volume the interpolated radial shift agrees with direct iteration to interpolation accuracy.",
 ["inputs","configurations"],"all cameras, media and points of the volume",NA,
 [S+"multimed.c"],[("refraction","multimed_r_nlay, init_mmlut, get_mmf_from_mmlut")])
p("C23","Segmentation finds every separate bright blob once",
 "For an image of well-separated bright blobs within the size and brightness limits, each blob is reported once with its extent, brightness sum and weighted centre, and nothing else is reported.",
 ["inputs","configurations"],"all images of separated blobs and all detection limits",NA,
 [S+"segmentation.c"],[("segmentation","targ_rec, peak_fit")])
p("C24","Image filters compute their defining formula",
 "Low-pass, box-blur, high-pass, histogram and arithmetic filters compute their defining formula for each interior pixel.",
 ["inputs"],"all images and filter sizes",NA,[S+"image_processing.c"],[("filters","fast_box_blur, prepare_image, split, subtract_img, subtract_mask")])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
try:
    import jsonschema
    sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sc)
    print("valid",len(P))
except ImportError: print("no jsonschema")
