"""All properties, in one place. meta/gen.py writes properties.jsonl and MANIFEST.json from this."""

P = []


def prop(id, title, statement, over, text, why, files, mech, module=None, note=None, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  module=module, note=note, na=na, observe=list(observe)))


PK = "openptv_python/"

prop("C01", "Pixel and metric image coordinates are exact inverses",
     "Converting an image position from pixels to metric sensor coordinates and back (either direction, single points or "
     "arrays) returns the same position for every image size and pixel size. The metric frame has its origin in the image "
     "centre, x to the right and y upwards, scaled by the pixel size, and the array conversions agree with the single-point "
     "conversions.",
     ["inputs", "configurations"], "all image sizes, positive pixel sizes and coordinates",
     "tests convert a few hand-picked points for one image size",
     [PK + "trafo.py"], [("pixel_to_metric / metric_to_pixel", PK + "trafo.py:12"), ("array versions", PK + "trafo.py:46")],
     "c01_pixel_metric")

prop("C02", "Lens distortion follows the Brown-affine model and is undone by correction",
     "With neutral distortion parameters distorting and correcting leave every point where it is, and the sensor-level "
     "conversions only add or remove the principal point shift. Distorting follows the documented radial, decentering, scale "
     "and shear formulas for every coefficient set, and for pure scale and shear or pure radial distortion of moderate size "
     "correcting a distorted point returns the original point within a tight tolerance.",
     ["inputs", "configurations"], "all points of a sensor and all coefficient values in realistic ranges",
     "tests check a handful of coefficient sets and points",
     [PK + "trafo.py"], [("distort_brown_affine", PK + "trafo.py:146"), ("correct_brown_affine", PK + "trafo.py:183"),
                         ("flat_to_dist / dist_to_flat", PK + "trafo.py:242")], "c02_distortion")

prop("C03", "The camera rotation matrix is the rotation its three angles describe",
     "For every choice of the three angles the rotation matrix of a camera is orthonormal with determinant +1 and equals the "
     "product of the elementary rotations about x, y and z in that order. Setting angles always refreshes the matrix, and "
     "position, angles, principal point, distortion and glass vector read back exactly as they were set, without affecting "
     "each other or other cameras.",
     ["inputs", "histories"], "all real angle triples and parameter values", "tests use a few angle triples",
     [PK + "calibration.py"], [("rotation_matrix", PK + "calibration.py:12"), ("setters", PK + "calibration.py:215")],
     "c03_rotation")

prop("C04", "Traced rays obey refraction at the glass",
     "Tracing an image point through the air-glass-water interface yields a point on the far glass surface and a "
     "unit direction in the medium behind it, lying in the plane of incidence and pointing away from the camera. Snell's "
     "law holds across the interface, and when all refractive indices are equal the ray continues on the straight line "
     "from the projection centre through the image point.",
     ["inputs", "configurations"], "all image points, camera heights, glass distances, thicknesses and refractive indices",
     "tests trace a few rays and compare with stored numbers",
     [PK + "ray_tracing.py"], [("fast_ray_tracing", PK + "ray_tracing.py:58")], "c04_ray_tracing")

prop("C05", "Projection into the image is the pinhole projection and inverts ray tracing",
     "Without refraction a point in space projects to the image position given by the collinearity equations of the camera, "
     "then shifted and distorted by its lens model, and the array versions agree with the single point versions. Tracing the ray of an image "
     "position and projecting any point of that ray gives the image position back.",
     ["inputs", "configurations"], "all points in front of the camera, positions, principal distances and glass planes",
     "tests project a few points", [PK + "imgcoord.py", PK + "multimed.py"],
     [("flat_image_coord", PK + "imgcoord.py:13"), ("img_coord", PK + "imgcoord.py:76")], "c05_projection")

prop("C06", "The glass-relative coordinate transform is invertible",
     "Transforming a space point and the camera into the glass-relative frame and transforming the point back gives the "
     "original point, for every glass orientation and thickness. In that frame the coordinates are the distance "
     "along the glass and the height over it, and the crossing points lie on the glass planes.",
     ["inputs", "configurations"], "all points, camera positions, glass vectors and thicknesses",
     "tests transform a couple of points", [PK + "multimed.py"],
     [("trans_cam_point", PK + "multimed.py:107"), ("back_trans_point", PK + "multimed.py:166")], "c06_glass_frame")

prop("C07", "Refraction table lookups interpolate inside the table and refuse outside it",
     "Looking up the radial shift factor for a point inside the table's range returns the bilinear interpolation of the four "
     "surrounding table entries (exactly the entry at a grid node). For a point outside the range, on any side, it returns zero so that "
     "the exact computation is used instead; it never reads outside the table or raises. "
     "A table is filled with the directly computed factor of each of its nodes; its outermost row and column may be left to the direct computation.",
     ["inputs", "configurations"], "all table sizes up to the bound, entries, cell sizes and query points",
     "tests look up two points of one table", [PK + "multimed.py"],
     [("fast_get_mmf_from_mmlut", PK + "multimed.py:376"), ("multimed_r_nlay", PK + "multimed.py:33")], "c07_mmlut")

prop("C08", "Epipolar lines contain the image of every point the ray can come from",
     "The epipolar segment computed in the second camera for an image point of the first camera connects the images of the ray's "
     "points at the lower and upper depth limits valid at the ray's position, so the second image of any scene point within "
     "the limits lies on it. Moving along a ray to a depth gives the ray's point at that depth, the single-camera position is the ray's point "
     "in the middle of the limits, and the epipolar curve runs from the lower to the upper limit.",
     ["inputs", "configurations"], "all image points, depth limits and camera placements of the bounded families",
     "tests compare a few epipolar lines with stored numbers", [PK + "epi.py", PK + "multimed.py"],
     [("epi_mm", PK + "epi.py:51"), ("epi_mm_2D", PK + "epi.py:103"), ("epipolar_curve", PK + "epi.py:330"),
      ("move_along_ray", PK + "multimed.py:245")], "c08_epipolar")

prop("C09", "Triangulation averages the pairwise ray intersections of the seeing cameras",
     "Two rays are joined at the midpoint of their shortest connection, whose length is reported, and intersecting rays give their intersection with zero "
     "distance. The triangulated position of a point seen by at least two cameras is the mean over all pairs of cameras that see the point and its quality the mean of the "
     "distances; cameras marked as not seeing the point have no influence, and each point of an array gets the result for that point.",
     ["inputs", "configurations"], "all rays in general position, all visibility patterns of up to four cameras",
     "tests triangulate a few points", [PK + "orientation.py"],
     [("skew_midpoint", PK + "orientation.py:31"), ("point_position", PK + "orientation.py:54"),
      ("multi_cam_point_positions", PK + "orientation.py")], "c09_triangulation")

prop("C10", "The epipolar candidate search finds exactly the admissible targets",
     "Searching an x-sorted target list along an epipolar segment returns exactly the targets that lie strictly within the tolerance "
     "band around the segment and whose size and brightness ratios meet the limits, in list order, each with its distance "
     "and quality score (up to the capacity for candidates). No admissible target is missed because of where the search starts, however many targets the image has, and none is returned when the "
     "segment is off the sensor.",
     ["inputs", "configurations"], "all target positions and sizes, segments and tolerances; list lengths up to the bounds",
     "tests search three targets; the binary search start is exercised only for tiny lists", [PK + "find_candidate.py"],
     [("find_candidate", PK + "find_candidate.py:13"), ("find_start_point", PK + "find_candidate.py:162")], "c10_find_candidate")

prop("C11", "A target belongs to at most one correspondence, best matches first",
     "Selecting matches from a candidate list takes them greedily by descending quality, never uses a target of any camera twice, nor one "
     "that is already in use, and leaves out only candidates that conflict with a taken one. In the final result of a frame, "
     "every target index appears at most once per camera over quadruplets, triplets and pairs together, and each used target carries the number of its "
     "correspondence.",
     ["inputs", "histories"], "all candidate lists and usage marks up to the bounds; all adjacency relations of small frames",
     "tests match one synthetic frame in which the candidates do not compete", [PK + "correspondences.py"],
     [("take_best_candidates", PK + "correspondences.py:378"), ("correspondences", PK + "correspondences.py:570")],
     "c11_exclusive")

prop("C12", "Multi-camera matches are mutually consistent and above the quality limit",
     "A quadruplet, triplet or pair is proposed exactly when every two of its targets are listed as epipolar candidates of each other, "
     "its targets are unused and its quality, the sum of the pairwise scores over the sum of the pairwise distances, exceeds the limit; pairs "
     "additionally require the candidate to be unique. Cameras outside the clique are marked as not matched.",
     ["inputs", "configurations"], "all candidate relations, scores and usage marks of small frames with 2 to 4 cameras",
     "tests use one clean scene where every target has exactly its true partner", [PK + "correspondences.py"],
     [("four_camera_matching", PK + "correspondences.py:93"), ("three_camera_matching", PK + "correspondences.py:172"),
      ("consistent_pair_matching", PK + "correspondences.py:262")], "c12_cliques")

prop("C13", "The tracking image search returns the nearest eligible targets of the window",
     "The search for a particle's continuation returns the up to four nearest matched targets strictly inside the search window clipped to the image, "
     "ordered by distance, and the search among unmatched targets returns the single nearest one. Targets outside the window or of the other kind are never returned, "
     "nothing is returned for a centre outside the image, and no eligible target is missed because of where the search starts.",
     ["inputs", "configurations"], "all y-sorted target lists, centres and windows; list lengths up to the bounds",
     "tests search one list of a few targets", [PK + "track.py"],
     [("candsearch_in_pix", PK + "track.py:311"), ("candsearch_in_pix_rest", PK + "track.py:399")], "c13_candsearch")

prop("C14", "Candidate ranking keeps each multiply-seen particle once, most-seen first",
     "Ranking the particles found near the predicted projections keeps exactly those seen in at least two cameras, each once, counted with the number of "
     "cameras that saw it, in order of descending count, and returns how many there are. Registering the nearest targets of a "
     "camera records the particle numbers of exactly those targets and nothing for empty places.",
     ["inputs"], "all tables of found particles for two to four cameras within the bounds",
     "tests rank one table", [PK + "track.py"],
     [("sort_candidates_by_freq", PK + "track.py:530"), ("register_closest_neighbs", PK + "track.py:97")], "c14_ranking")

prop("C15", "Forward tracking leaves mutually consistent links",
     "After each forward step every link is mutual: a particle's successor names it as predecessor and the other way round, no particle has two "
     "predecessors or successors, and a particle without partner carries the no-link marks. Among particles competing for one successor the "
     "one with the better score gets it. Every link leads to a particle found in the search volume and is supported by a continuation whose step satisfies the velocity "
     "limits and whose acceleration and angle are within their limits (or whose acceleration is below a tenth of its limit), and the reported number of links is the number left in the frame.",
     ["inputs", "histories"], "all candidate relations and positions of small frames over one step",
     "tests run two recorded scenes and count links", [PK + "track.py"],
     [("trackcorr_c_loop", PK + "track.py:783"), ("sort", PK + "track.py:575")], "c15_forward")

prop("C16", "Backward tracking only adds consistent links",
     "A backward pass never removes or changes a link that forward tracking established. It adds a predecessor only to a particle that has a "
     "successor and no predecessor, only from particles not yet linked forward, and every link it adds is mutual and satisfies the velocity, acceleration and angle limits.",
     ["inputs", "histories"], "all candidate relations and positions of small frames over one step",
     "tests run one recorded scene and look at the average number of links", [PK + "track.py"],
     [("trackback_c", PK + "track.py:1080")], "c16_backward")

prop("C17", "The frame buffer presents frames in sequence order",
     "After any sequence of reads and advances the buffer's positions hold the frames in the order they were read, advancing and going "
     "back are inverse, and reading replaces only the last and writing writes only the first position. A forward or backward tracking run over "
     "at least four frames reads each frame of the sequence once and writes each frame under its own number.",
     ["histories"], "all sequences of buffer operations up to the bound", "tests run one sequence", [PK + "tracking_frame_buf.py", PK + "track.py"],
     [("FrameBuf", PK + "tracking_frame_buf.py:508"), ("track_forward_start", PK + "track.py:765")], "c17_frame_buffer")

prop("C18", "Target files round-trip",
     "Writing the targets of an image and reading them back under the same base name and frame number returns the same number of targets in the same order with identical integer fields and positions "
     "equal to the printed precision, for every number of targets including none. The file starts with the number of targets and holds "
     "one line of eight fields per target.",
     ["inputs"], "all field values, up to the stated number of targets", "tests round-trip two targets", [PK + "tracking_frame_buf.py"],
     [("read_targets", PK + "tracking_frame_buf.py:158"), ("write_targets", PK + "tracking_frame_buf.py:206")], "c18_target_files")

prop("C19", "Particle and linkage files round-trip",
     "Writing a frame's particles, correspondences and links and reading them back returns the same number of particles in the same order with "
     "identical target indices, predecessors, successors and priorities and positions equal to the printed precision; correspondences are numbered "
     "from one. Reading without linkage and priority files gives default links, the priority file may be left out when writing, and the three files agree with each other.",
     ["inputs"], "all values, up to the stated number of particles", "tests round-trip one particle", [PK + "tracking_frame_buf.py"],
     [("read_path_frame", PK + "tracking_frame_buf.py:671"), ("write_path_frame", PK + "tracking_frame_buf.py:791")], "c19_path_files")

prop("C20", "Calibration files round-trip",
     "Writing a camera calibration and reading it back returns the same position, angles, interior orientation, glass vector and distortion "
     "parameters to the printed precision, and a rotation matrix consistent with the angles. Reading without a distortion file gives neutral distortion.",
     ["inputs"], "all parameter values", "tests round-trip one calibration", [PK + "calibration.py"],
     [("from_file", PK + "calibration.py:121"), ("write_ori", PK + "calibration.py:383")], "c20_calibration_files")

prop("C21", "Legacy parameter files are read field for field",
     "Reading a legacy parameter file (sequence, tracking, volume, control, target, orientation, calibration, multi-plane, examine) assigns every line to its documented field, for all values "
     "and numbers of cameras. Target parameters written by the library read back identically, and comparing two parameter sets "
     "reports equality exactly when all fields are equal.",
     ["inputs", "configurations"], "all numeric field values, one to four cameras", "tests read one example of each file",
     [PK + "parameters.py"], [("from_file readers", PK + "parameters.py:190"), ("compare_*", PK + "parameters.py")], "c21_parameter_files")

prop("C22", "Parameters survive conversion to dictionaries and YAML",
     "Converting any parameter set to a dictionary and back, or writing it to YAML and reading it back, yields an equal parameter set of the same type, including nested "
     "multimedia parameters. Separately created parameter sets never share mutable state.",
     ["inputs", "configurations"], "all numeric field values of every parameter class", "tests convert default or single examples",
     [PK + "parameters.py"], [("from_dict / to_dict / to_yaml / from_yaml", PK + "parameters.py:36")], "c22_yaml")

prop("C23", "Target recognition reports the connected bright spots of the image",
     "Every reported target is a connected set of pixels above the threshold inside the searched region (never the image's outermost pixels), its pixel count and extents are those of "
     "that set, its grey sum is the set's grey above the threshold, its centre (plus half a pixel) is the centroid weighted by that grey, and it meets all limits, the minimum sum being that of the total grey values; no pixel belongs to two "
     "targets and targets are numbered in order. Every isolated bright spot inside the region that meets the limits and varies no more than the discontinuity limit is "
     "reported exactly once, and the image is not modified.",
     ["inputs", "configurations"], "all images up to the stated size with symbolic grey values, all thresholds", "tests use a few drawn images",
     [PK + "segmentation.py"], [("targ_rec", PK + "segmentation.py:31"), ("fast_targ_rec", PK + "segmentation.py:91")], "c23_segmentation")

prop("C24", "Calibration adjusts only what it is told to and restores probes",
     "Numerical differentiation over the camera position and angles returns difference quotients of the projection and leaves the "
     "calibration as it was. Parameters whose adjustment is switched off keep their values through an orientation while the others receive the solved corrections, only matched and selected points take part, and residuals belong to the points used. An orientation that does "
     "not converge returns nothing and leaves the calibration as it was.",
     ["inputs", "configurations"], "all parameter values and flag combinations with the projection and the linear solver as arbitrary functions",
     "tests run a few well-conditioned orientations", [PK + "orientation.py"],
     [("num_deriv_exterior", PK + "orientation.py:168"), ("orient", PK + "orientation.py:222")], "c24_orientation")

prop("C25", "Grid sorting assigns each calibration point its nearest detected target",
     "For every known point whose projection is near the image, the sorted list holds at the point's place the detected target nearest to the "
     "projection within the search radius in each image direction, carrying the point's number, and an unused mark when there is none. Points that project off the image get "
     "no target, and the list has one entry per known point. Calibration block and manual orientation files are read point for point.",
     ["inputs"], "all projections and target positions within the bounds, distances distinct", "tests sort one grid", [PK + "sortgrid.py"],
     [("sortgrid", PK + "sortgrid.py:15"), ("nearest_neighbour_pix", PK + "sortgrid.py:77")], "c25_sortgrid")

prop("C26", "Corrected coordinates stay paired with their targets and sorted by x",
     "Converting an image's targets to flat coordinates yields one entry per target, sorted by x, each holding the flat coordinates and the number "
     "of its own target. The array views return the same data in the same order, and looking up positions by target number returns each "
     "number's own position.",
     ["inputs"], "all targets up to the bound with the lens correction as an arbitrary function", "tests convert a few targets",
     [PK + "tracking_frame_buf.py"], [("match_coords", PK + "tracking_frame_buf.py:876"), ("get_by_pnrs", PK + "tracking_frame_buf.py:945")],
     "c26_match_coords")

prop("C27", "Search windows and the measuring volume cover what they must",
     "The search window of a predicted position covers the projections of all corners of the displacement box in every camera, clipped to the image, given as distances "
     "from the projected centre. The measuring volume contains the sensor-corner rays of every camera at both depth limits, and never shrinks "
     "the x and y extents it was given; its depth limits are the extreme ones of the volume parameters.",
     ["inputs", "configurations"], "all displacement limits and corner projections, with the camera model as an arbitrary function",
     "tests compare one window and one volume with stored numbers", [PK + "track.py", PK + "multimed.py"],
     [("searchquader", PK + "track.py:463"), ("volumedimension", PK + "multimed.py:424")], "c27_windows")

prop("C28", "Particles added during tracking are fully registered",
     "Adding a particle appends exactly one particle with the given position, no links, and a correspondence that names the given target in each camera where there "
     "is one and none elsewhere; exactly those targets then carry the particle's number, and no other particle, correspondence or target changes. Assessing a position counts "
     "exactly the cameras that have an unmatched target nearby and returns those targets.",
     ["inputs", "histories"], "all frames and candidate tables within the bounds", "tests add one particle", [PK + "track.py"],
     [("add_particle", PK + "track.py:722"), ("assess_new_position", PK + "track.py:660")], "c28_add_particle")

prop("C29", "Motion criteria measure what they say",
     "The acceleration measure is the distance between predicted and actual displacement and the angle measure is the angle between them in gon, zero "
     "for equal and 200 for opposite displacements (displacements that vanish have no angle). The prediction continues the last displacement, a displacement is accepted exactly when every component lies strictly within its limits, and the size "
     "similarity of two targets is the ratio of the smaller to the larger.",
     ["inputs"], "all positions and limits", "tests evaluate a few triples", [PK + "track.py", PK + "find_candidate.py"],
     [("angle_acc", PK + "track.py:264"), ("pos3d_in_bounds", PK + "track.py:243"), ("quality_ratio", PK + "find_candidate.py:150")],
     "c29_motion")

prop("C30", "Vector helpers compute their textbook definitions",
     "Norm, difference norm, dot and cross products, sums, differences and scaling of three-vectors satisfy their algebraic definitions for all vectors, a normalised "
     "vector has unit length and the same direction, and copies are independent of their source.",
     ["inputs"], "all real three-vectors", "tests evaluate one or two vectors each", [PK + "vec_utils.py"],
     [("vec_*", PK + "vec_utils.py"), ("unit_vector", PK + "vec_utils.py:86")], "c30_vectors")

prop("C31", "The refraction table agrees with the direct refraction computation everywhere",
     "Interpolating the refraction table gives the radial shift factor of the direct iterative computation within a small tolerance "
     "throughout the measuring volume.",
     ["inputs", "configurations"], "all points of the volume", "tests compare one point", [PK + "multimed.py"],
     [("init_mmlut", PK + "multimed.py:284"), ("fast_multimed_r_nlay", PK + "multimed.py:65")],
     na="the direct computation iterates tan, arcsin and arctan up to 40 times; no installed solver decides such "
        "transcendental fixpoints over reals, and the interpolation error has no algebraic bound to check against")

prop("C32", "Orientation recovers the true camera from exact observations",
     "Given exact image positions of enough known points and a starting calibration near the truth, orientation converges to a calibration that "
     "reproduces all image positions.",
     ["inputs", "configurations"], "all cameras and point sets in general position", "tests run a few recorded cameras", [PK + "orientation.py"],
     [("orient", PK + "orientation.py:222"), ("raw_orient", PK + "orientation.py")],
     na="convergence of an iterated least-squares solution through LAPACK inverses of 19-parameter matrices is outside what "
        "an SMT encoding can carry; C24 covers the frame conditions of the same functions with the solver stubbed")

prop("C33", "Image preprocessing filters are the documented convolutions",
     "Low-pass, high-pass and histogram operations produce the documented neighbourhood sums for every image.",
     ["inputs"], "all images", "tests filter a few small images", [PK + "image_processing.py"],
     [("prepare_image", PK + "image_processing.py")],
     na="the filters that are used run inside compiled scipy.ndimage kernels (uniform_filter, convolve, gaussian_filter), whose code "
        "is no part of this repository and cannot be executed symbolically from it; the plain-Python fast_box_blur_numba is not called by anything")
