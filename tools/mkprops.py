"""Writes properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})


MD = "metadetect/metadetect.py"
FT = "metadetect/fitting.py"
DT = "metadetect/detect.py"
MK = "metadetect/masking.py"
L = "metadetect/lsst/"

p("M01", "A run either measures nothing at all or reports every requested shear type",
  "A metadetection run yields no catalogue exactly when no pixel has band-averaged masked fraction below one, some band has all-zero weight, some band has every pixel carrying a no-detect flag, or metacal PSF fitting fails; in every other case it yields exactly the requested shear types (five by default), with an empty entry for a type in which nothing was found. Reading the result before running is an error, and missing metacal or meds settings, or only one of the two colour arguments, is rejected before any work.",
  ["inputs", "configurations", "fault_sequences"],
  "every set of bands (weights, masks, masked fractions), flag configuration, requested type list and environment failure",
  "The tests sample a few images and one failure at a time; the gate is a conjunction over all bands and pixels.",
  [MD], [("gate and result assembly", "Metadetect.go"), ("configuration gate", "Metadetect.__init__/_set_config")],
  [("result", "None, or a catalogue per shear type", "Metadetect.result")], ["do_metadetect return value"])
p("M02", "The catalogue has exactly one labelled row per detection, band set and type",
  "For every requested shear type the catalogue is the concatenation, in the order the band combinations were given, of one row per object detected on that type's own images using that combination's detection bands, in detection order. Each row carries the sorted digits of its shear bands and of its detection bands, the detected position, and a measurement made on that type's images cut at that position; detection bands default to all bands, or follow the shear bands when asked to.",
  ["inputs", "configurations", "histories"],
  "every number of bands, list of shear/detection band combinations, shear type and detected-object layout",
  "Tests use one or two fixed combinations and never compare rows with the objects actually detected in each type's image.",
  [MD, DT, FT], [("per combination loop and stacking", "Metadetect.go/_go_bands/_do_detect/_measure")],
  [("catalogue", "rows per shear type", "Metadetect._result")], ["do_metadetect return value"])
p("M03", "PSF fit and metacal run once per image set, whatever the band combinations",
  "During a run the PSFs of each image set (the input images and each colour-dependent set actually used) are fitted exactly once and metacal is executed on it exactly once, PSF fits before metacal, however many band combinations, shear types or objects use it. A colour set that is the same object as the input images counts as the input, and the rows of a band combination do not depend on which other combinations are measured or in which order.",
  ["histories", "configurations"],
  "every sequence of band combinations and colour keys in one run",
  "Tests look only at final catalogues; repeated or cross-contaminated work leaves plausible numbers.",
  [MD], [("result caches keyed by colour and sorted bands", "Metadetect._get_mbobs_data")],
  [("cache", "image set -> PSF fit state, metacal images; plus bands -> masks, mfrac, PSF stats", "Metadetect._mbobs_data_cache")],
  ["order of environment calls", "do_metadetect return value"])
p("M04", "Masks, masked fraction and PSF summary come from the shear bands of the row",
  "Every row's mask bits, masked-fraction values and original-PSF summary are derived only from the unsheared images of the bands in its own shear combination: masks are ORed over those bands, masked fraction is averaged with each band's median positive weight (bands without one contribute zero but keep their weight, and no usable weight means fully masked). The image-wide masked fraction is the mean of that average.",
  ["inputs", "configurations"],
  "every per-band mask, weight map, masked-fraction map and band combination",
  "Tests use identical or trivial masks in all bands, so mixing up the combination is invisible.",
  [MD], [("per combination metadata", "Metadetect._get_mfrac/_get_ormask_and_bmask")], (), ["do_metadetect return value"])
p("M05", "Colour-dependent runs measure each object on the image set its colour selects",
  "With a colour function, objects are detected and their per-band fluxes measured on the input images of each shear type, the function is called with exactly each object's fluxes, and each object is then measured, at its detected position and box size, on the same shear type of the image set the returned key names (the input images when the key is empty). Objects whose image set failed metacal are dropped; all others appear in detection order with masks and PSF summary taken from that image set, and a joint first fitter is refused.",
  ["inputs", "histories", "fault_sequences"],
  "every colour function, set of colour images, objects and failure of one of the image sets",
  "The tests use a constant colour or images that are all the same, so a wrong pairing is invisible.",
  [MD], [("colour dependent loop", "Metadetect._go_bands_with_color")], (), ["do_metadetect return value", "order of environment calls"])
p("M06", "The configured fitters, and only those, run with their configured settings",
  "A run applies, in the configured order, exactly the configured measurements, each with its own weight size, smoothing, regularisation, symmetrisation (on by default) and coadding (off by default) settings, and reports columns of all of them prefixed by measurement name, with a regularised moments measurement renamed to carry its regularisation size. Giving both a fitter list and single-fitter settings is an error, as is an unknown model.",
  ["configurations"],
  "every list of fitter configurations",
  "Tests run each fitter alone with one setting; the mapping is a product of choices.",
  [MD, FT], [("fitter construction", "Metadetect._set_fitter"), ("combination", "combine_fit_res")], (), ["do_metadetect return value", "fitter calls"])
p("M07", "Positions are mapped back through the inverse shear about the image centre",
  "The reported no-shear position of an object detected in a sheared image is the inverse of the applied shear (step size as configured, about the image's pixel centre, in the tangent-plane coordinates of the image's Jacobian) applied to its detected position; images that are not object-sheared leave positions unchanged. Shearing and unshearing are exact inverses of each other, a positive shear and the negative shear of the same component undo each other about the same centre, and unknown shear names are rejected.",
  ["inputs"],
  "every position, image size (including non-square), Jacobian (scale, rotation, flip, offset), shear type and step",
  "Tests check one step and symmetric Jacobians, where transpositions and sign errors cancel.",
  ["metadetect/shearpos.py", MD], [("unshearing", "unshear_positions"), ("shearing", "shear_positions")], (), ["returned positions", "sx_row_noshear/sx_col_noshear columns"])
p("M08", "Mask columns summarise the mask around the object, clipped to the image",
  "An object's mask columns are the bitwise OR of the mask over the square of the configured half-width (a half-width of one or less means the single pixel) centred on its rounded position, with both position and square clipped to the image. The OR-mask uses its own half-width if configured and otherwise the general one, and the no-shear columns use the no-shear position.",
  ["inputs", "configurations"],
  "every mask, object position (also outside the image) and half-width setting",
  "Tests check a handful of positions; rounding, clipping and the fallback between the two settings interact.",
  [MD], [("mask lookup", "_fill_in_mask_col/_clip_and_round"), ("half-width selection", "Metadetect._add_positions_and_psf")], (), ["mask columns of the catalogue"])
p("M09", "Masked-fraction columns are Gaussian averages of the in-image masked fraction",
  "An object's masked fraction is the average of the masked-fraction image within its box weighted by a round Gaussian of the configured width (default: the first measurement's width) centred on the object, using only pixels that lie inside the image. An object whose box has no size or contains no image pixel is reported fully masked, an image without masked fraction gives zero, and the no-shear column uses the no-shear position.",
  ["inputs", "configurations"],
  "every masked-fraction map, position, box size and width",
  "Tests use constant maps where any normalised weight gives the same answer.",
  ["metadetect/mfrac.py", MD, DT], [("weighted average", "measure_mfrac")], (), ["masked fraction columns"])
p("M10", "The original-PSF summary is the weighted shear-band PSF, or marked failed",
  "If the PSF fits succeeded, every row carries the original PSF shape and size averaged over its shear bands with each band's maximum weight; if any PSF fit failed or no weight is positive the summary is flagged as a PSF failure and its values are not-a-number, while detection and measurement proceed.",
  ["inputs", "fault_sequences"],
  "every set of PSF fit outcomes and weights",
  "PSF fit failures are hard to provoke with real images and no test inspects the averaged values.",
  [MD, FT], [("summary", "_get_psf_stats"), ("fit", "fit_all_psfs")], (), ["psfrec columns"])
p("M11", "A run depends only on its inputs and generator, and changes nothing else",
  "The catalogue of a metadetection run is determined by the observations' pixels, the configuration, the band combinations and the state of the generator it is given when it starts; runs prepared, executed, repeated or failed before or in between, or executed on other observations from within its colour function, and PSF fits stored earlier do not affect it. A run leaves the process-wide generator, other generators, the caller's observations (apart from stored PSF fits), configuration and band lists, and results already returned unchanged; reading a run object gives its last result.",
  ["histories", "schedules", "configurations"],
  "every sequence (including nesting through the colour function) of runs prepared, executed, repeated and failing in one process, over shared or separate inputs, configurations and generators",
  "Tests run each pipeline once per process, so state leaking between runs, module-level caches, the global generator or written-back configuration never shows.",
  [MD, FT, DT], [("run objects", "Metadetect.__init__/go/result"), ("configuration kept", "Metadetect._set_config/_set_fitter"), ("fitters and generator", "fitting.get_fitter/fit_all_psfs")], [("caches", "image set -> fits", "Metadetect._mbobs_data_cache"), ("generator", "state drawn from", "Metadetect.rng")], ["do_metadetect return value", "Metadetect.result", "generator states"])
p("F01", "Band-averaged measurement flags report every missing or unusable input",
  "For a band-averaged measurement, a shear band that is missing, edge-flagged, zero-weight, without moments, or inconsistent between object and PSF sets the corresponding bit of the object, PSF and overall flags, while a problem in a non-shear band touches only that band's flux flags and the overall flags. A non-zero PSF flag always implies the PSF-failure bit on the object, overall flags are the union of object and per-band flux flags, and no bit appears without such a cause or a failure reported by the moments themselves.",
  ["inputs", "fault_sequences"],
  "every number of bands, choice of shear bands and combination of per-band failures of object and PSF measurement",
  "Tests enumerate about twenty hand-written combinations out of thousands.",
  [FT], [("combination", "_combine_fit_results_wavg/_sum_bands_wavg"), ("per band fit", "_fit_obslist/_fit_obs")], (), ["result columns"])
p("F02", "Band-averaged shapes, sizes and fluxes are the documented weighted sums",
  "The object's moments are the average over its usable shear bands of each band's moments divided by its weight normalisation, weighted by the band's median positive weight; PSF moments are averaged the same way after scaling each band by the object-to-PSF flux ratio; fluxes are reported per band and for all bands, and signal-to-noise is the averaged flux over its error. Regularisation adds the configured size to the shape denominator only and never changes the reported size.",
  ["inputs"],
  "every set of per-band moments, normalisations, fluxes, weights and choice of shear bands",
  "Tests compare with a copy of the same formula for one or two bands with unit weights.",
  [FT], [("sums", "_sum_bands_wavg"), ("regularisation", "_make_mom_res"), ("per band weight", "_fit_obs")], (), ["result columns"])
p("F03", "Joint measurements fit only usable shear-band data and report every failure",
  "A joint (Gaussian or adaptive-moments) measurement is attempted only if every band has exactly one observation with positive weight and no edge flag and the requested shear bands exist; otherwise it is marked not attempted together with the reason and all values stay undefined. When attempted it uses exactly the shear bands (their coadd where coadding applies), propagates PSF and object failure flags separately and to the overall flags, and fills values only where the corresponding fit succeeded.",
  ["inputs", "fault_sequences", "configurations"],
  "every combination of band defects, shear bands, coadding, and fit outcomes (success, flagged, exception) of PSF and object",
  "Fit failures of each kind cannot be provoked through images; tests cover the success path and a few defects.",
  [FT], [("gaussian", "fit_mbobs_gauss"), ("adaptive moments", "fit_mbobs_admom"), ("list", "fit_mbobs_list_joint")], (), ["result columns", "fitter calls"])
p("F04", "Coadding bands is an exact weighted mean with consistent inputs only",
  "Coadding selected bands of an object gives the mean of image, noise, masked fraction and PSF weighted by each band's median positive weight, inverse-variance-propagated weights that are zero wherever any band has zero weight, the OR of the masks, and the merged metadata of the bands and the object (the later winning), touching no input. Bands that do not exist, differ in shape or coordinate system, lack a PSF, have no positive weight, or carry a plane the others lack are refused with the matching flag, and a single selected band is passed through unchanged.",
  ["inputs"],
  "every set of bands with any planes, weights and shear-band selection",
  "Tests check equal weights and full planes, not partially zero weights or mixed planes across three bands.",
  [FT], [("coadd", "make_coadd_obs")], (), ["returned observation and flags"])
p("F05", "Weight symmetrisation zeroes exactly the rotations of zero-weight pixels",
  "Symmetrising an observation's weights sets to zero precisely the pixels that are zero-weight in the original or in one of its three quarter-turn rotations, leaves every other weight and every other plane unchanged, never modifies its input, and is idempotent.",
  ["inputs"],
  "every square weight map",
  "Tests use one masked pixel and random maps of one size.",
  [FT], [("symmetrise", "symmetrize_obs_weights")], (), ["returned observation"])
p("F06", "Combining fitter results keeps every column and row and refuses mismatches",
  "Combining the results of several fitters gives one row per object holding every fitter's own columns unchanged and the shared shear-band column once; results of different length, a missing result next to a non-empty one, disagreeing shear bands, or two results with the same columns are an error, all missing gives nothing, and a single result passes through. List fits return one row per object in order and nothing for an empty list.",
  ["inputs"],
  "every list of results including missing and empty ones",
  "Tests cover two fitters and the common failures only.",
  [FT], [("combine", "combine_fit_res"), ("lists", "fit_mbobs_list_wavg/fit_mbobs_list_joint")], (), ["returned array"])
p("F07", "All PSFs are fitted, results stored, and any failure is raised",
  "Fitting all PSFs fits the PSF of every band once, in order, stores each fit result with its PSF, raises the PSF-failure error as soon as a fit is flagged, and refuses multi-epoch input.",
  ["inputs", "fault_sequences"],
  "every number of bands and position of a failing fit",
  "No test makes one particular band's PSF fit fail.",
  [FT], [("fit", "fit_all_psfs")], (), ["PSF results", "raised error"])
p("D01", "Stamps copy the image exactly and fill outside pixels with documented defaults",
  "A stamp of an object contains, for every plane, the image pixels from its start corner on, and outside the image zero image, weight and segmentation values, zero noise and an edge bit alone in the mask; its coordinate system has the image's local derivatives and places the object's position where it lies in the stamp. Stamps of different bands have the same geometry, planes the image lacks are absent from the stamp, the PSF comes along unchanged, and neither reading nor changing a stamp alters the image.",
  ["inputs"],
  "every image size, object position (near, on or beyond edges), box size and set of planes",
  "Tests check interior stamps and one edge case.",
  [DT], [("stamp extraction", "MEDSInterface.get_cutout/_get_clipped_boxes"), ("stamp geometry", "CatalogMEDSifier._set_cat")],
  (), ["stamp planes", "stamp coordinates"])
p("D02", "Box sizes are allowed sizes within limits and large enough for the object",
  "Every detected object's box size is one of the allowed sizes within the configured limits or the configured maximum, and the smallest such size not below what its extent or radius requires (the maximum if none is). The stamp starts at the object's truncated position minus half the box plus one, moved up to zero where that would be negative, its recorded end (exclusive) is the truncated position plus half the box plus one, moved down to the image edge where that would be beyond it, and an object keeps the same box and corners whether it is extracted from the detection or from a list of positions and sizes.",
  ["inputs", "configurations"],
  "every object extent, radius and limit configuration",
  "Tests use the default limits and two objects.",
  [DT], [("box size", "MEDSifier._get_box_sizes/_set_cat")], (), ["catalogue box_size and corners"])
p("D03", "The detection image is the weighted band average with unusable pixels masked",
  "Detection runs once on the average of the detection bands weighted by each band's median positive inverse variance, with the matching noise level and the configured detection settings, and is told to ignore exactly the pixels that carry a no-detect flag in any of those bands. The caller's detection settings and images are not changed, and every object the detector reports becomes one catalogue entry in the detector's order with its position, number and segmentation.",
  ["inputs", "configurations"],
  "every per-band image, weight map, mask and no-detect flag set",
  "Tests inspect final catalogues of benign images.",
  [DT], [("detection image", "MEDSifier._set_detim/_set_detim_data"), ("run", "MEDSifier._set_cat_and_seg")], (), ["detection calls"])
p("K01", "Foreground masking marks exactly the pixels inside each hole's disc",
  "Foreground masking marks exactly the pixels whose centre lies strictly within a hole's mask radius, for every hole wherever its centre lies (also outside the image), and several holes give the union. Symmetrising adds exactly the quarter turn of that set, and an expansion radius sets its own bit within the enlarged radius and changes nothing else.",
  ["inputs"],
  "every star position, radius and image size",
  "Tests use a few random stars well inside the image.",
  [MK], [("disc rasterisation", "make_foreground_bmask/_do_mask_foreground")], (), ["returned masks"])
p("K02", "Apodisation masks follow the documented kernel at edges and holes",
  "The edge apodisation mask is the product of a row and a column profile that depend only on the distance to the two edges, rise monotonically with it from zero to one over the documented six scale lengths as the cumulative triweight kernel, and never leave [0,1]. The hole apodisation mask is one outside every hole, falls by the same kernel over six scale lengths inside its radius to zero further in, and multiplies over holes and, when symmetrised, with its quarter turn.",
  ["inputs"],
  "every image size, smoothing width, star position and radius",
  "Tests compare a few pixel values.",
  [MK], [("edges", "make_edge_apodization / apodize_edges"), ("stars", "make_foreground_apodization_mask")], (), ["returned masks"])
p("K03", "A foreground or apodisation correction updates every band and plane once",
  "Applying apodisation or star-masking corrections multiplies or replaces, in every band, the image and noise planes by the same mask, zeroes weights only as documented, adds the given flag to the masks exactly at affected pixels, and sets masked fraction there to one; planes that are absent stay absent and pixels outside the affected region are untouched, so corrections compose in any order to the union of affected pixels.",
  ["inputs", "histories"],
  "every sequence of corrections on every set of bands and planes",
  "Tests apply one correction once.",
  [MK], [("application", "apply_foreground_masking_corrections / apply_apodization_corrections")], (), ["planes of the observations after the calls"])
p("K04", "Interpolation replaces only masked pixels and only from unmasked ones",
  "Interpolating an image over a mask leaves unmasked pixels bit-identical and its inputs unchanged, and gives masked pixels values that depend only on the unmasked pixels within the buffer around masked ones, exact for any linear image and zero outside the hull of those pixels; it declines when the masked fraction exceeds the limit or nothing is unmasked. When asked to, isolated masked pixels (no unmasked one within the isolation buffer) are first replaced by noise of the requested level and then count as unmasked.",
  ["inputs"],
  "every image and mask",
  "Tests use one image with a fixed mask.",
  ["metadetect/interpolate.py"], [("interpolation", "interpolate_image_at_mask/interpolate_image_and_noise_at_mask")], (), ["returned images"])
p("P01", "Processing flags are distinct bits and their description names each set bit",
  "All processing-failure flags are distinct single bits that do not collide with the measurement library's flags and fit a 32-bit column, and the textual description of any flag value names exactly the bits that are set.",
  ["inputs"],
  "every 31-bit flag value",
  "Tests look at a few values.",
  ["metadetect/procflags.py"], [("names", "NAME_MAP/get_procflags_str")], (), ["flag descriptions"])

p("L01", "Full configurations are isolated, complete, and reject unknown keys",
  "Requesting a full configuration returns the documented defaults with the caller's entries applied on top (nested sections merged, other entries replaced), without ever changing the defaults, the caller's configuration or any previously returned configuration. Unknown top-level keys and unknown or missing keys in the detection and moments sections are rejected.",
  ["configurations", "histories"],
  "every sequence of configuration requests and later modifications of what was returned",
  "The seven stable tests check a handful of single requests, not histories in which a result is modified and defaults are requested again.",
  [L + "configs.py", L + "defaults.py"], [("merge", "get_config"), ("validation", "_verify_*_config")],
  [("defaults", "module level default dictionaries", L + "defaults.py")], ["returned dictionary", "raised error"])
p("L02", "Task configuration overrides reach the task and nothing else",
  "Overriding a task configuration with a nested dictionary sets exactly the named leaves, keeps every other setting at its default, rejects unknown names, and does not alter the dictionary passed in or later default configurations. Every documented setting of a run, including stamp size, deblender, shear bands, detection threshold and metacal types, takes effect.",
  ["configurations"],
  "every subset of overridable settings",
  "The stable tests never build a task configuration, and a silently ignored override looks like a default.",
  [L + "util.py", L + "metadetect.py"], [("override", "override_config"), ("use", "run_metadetect/MetadetectTask.run")], (), ["effective configuration", "run behaviour"])
p("L03", "Edge and bright-star masking of multiband exposures touches every product once",
  "Apodising edges or bright stars multiplies image and noise pixels in the affected zone by the mask, makes their variance infinite, sets the edge or bright bit in the masks, all OR-masks, and sets the masked fraction to one there, in every band and nowhere else. Bright stars additionally set an expanded bit, and only that, within the enlarged radius, with star positions taken in the exposure's own pixel frame.",
  ["inputs"],
  "every exposure offset, star position and radius, number of bands and presence of optional products",
  "Tests exist but need the science stack; they use zero offsets and stars inside the image.",
  [L + "masking.py"], [("edges", "apply_apodized_edge_masks_mbexp"), ("stars", "apply_apodized_bright_masks_mbexp")], (), ["exposure planes after the call"])
p("L04", "Measurement gives each deblended child one row with its own flags and mask",
  "Measuring a source list yields one row for each childless source, holding that source's own position, sky position, peak offset, and the mask value under its own peak without the detected bit; no childless source gives nothing. A source whose stamp leaves the image or has only zero weight is kept and flagged with the reason, its measurements staying not-attempted, and every other source is measured on its own stamp for all bands.",
  ["inputs", "fault_sequences"],
  "every source list including blends, positions at edges and stamp failures",
  "Tests need the science stack and never contain parents with children, so pairing errors are invisible.",
  [L + "measure.py", L + "mbobs_extractor.py"], [("row assembly", "measure/get_output"), ("children", "MBObsExtractor.children")], (), ["result rows"])
p("L05", "Model subtraction keeps exactly one consistent image state at all times",
  "A model subtractor holds a copy of the exposure in which every deblended child's model has been removed within that child's footprint box, in every band; within a source's context exactly that source's model is added back, nested contexts of other sources add theirs too, and when a context ends, normally or through an error, the image is back (to rounding) to what it was when the context began. Stamps cut inside a context show that state, and stamps of models, of the size that is asked for, hold the model of that source only. Source ids that are not children are rejected without changing anything, and the caller's exposure never changes.",
  ["histories", "fault_sequences"],
  "every sequence of entering, leaving, nesting, failing and stamp extraction over any set of sources",
  "Tests need the science stack and enter one context at a time; an error inside a context is never exercised.",
  [L + "model_subtractor.py"], [("context", "ModelSubtractor.add_source"), ("subtraction", "ModelSubtractor constructor")],
  [("image", "the exposure with models subtracted", "ModelSubtractor.mbexp")], ["exposure pixels during and after contexts"])
p("L06", "Noise replacement is undone completely whenever its context ends",
  "While a noise-replacer context is active every source is replaced by noise, a source inserted by an inner context shows its own pixels only for the duration of that context, and when contexts end, normally or through an error, the exposure is exactly as it was before.",
  ["histories", "fault_sequences"],
  "every sequence of inner contexts and errors over single and multiband exposures",
  "Tests need the science stack and check only the happy path.",
  [L + "util.py"], [("contexts", "ContextNoiseReplacer/MultibandNoiseReplacer")], (), ["exposure pixels"])
p("L07", "Metacal exposures carry the right shear, noise, variance, kernel and metadata",
  "Metacal on exposures returns, for every distinct requested type (noshear, 1p, 1m when none are named), and only those, one exposure per band in band order: the band's image deconvolved from its PSF at the exposure's centre, sheared by 0.01 in the direction the type names, and seen through a round Gaussian of that band, 1.02 times larger than its target, which is also its new PSF. With fixed noise every image gains its own band's noise image, processed the same way in a frame turned by a quarter and back, once per type, and its variance doubles. Masks, frames and coordinate systems are kept, inputs are not modified, unknown types raise ValueError and kernel statistics of the wrong length AssertionError.",
  ["inputs", "configurations"],
  "every type list, number of bands and per-band kernel statistics",
  "Tests need the science stack and compare statistics, not the exact pairing of bands, types and noise.",
  [L + "metacal_exposures.py"], [("pipeline", "get_metacal_mbexps_fixnoise/get_metacal_exps")], (), ["returned exposures"])
p("L08", "Exposure to observation conversion preserves pixels, weights, frame and masks",
  "Converting an exposure to an observation preserves the image and the mask bits (kept as the OR mask, with an all-zero bit mask), turns variance into its inverse with zero weight where the variance is not positive, and carries the PSF evaluated at the requested position in the exposure's own coordinates together with a frame (local sky derivatives) centred on that position relative to the image corner, or on the PSF's own centre. Observations made from stamps carry the inverse of the median usable variance as weight everywhere, and a stamp without usable variance, or whose PSF cannot be evaluated, is refused with a dedicated error. Converting an observation back to an exposure recovers its pixels with infinite variance where the weight is zero, and inputs are not modified.",
  ["inputs"],
  "every variance pattern, mask and position",
  "Tests need the science stack and use one exposure.",
  [L + "util.py"], [("conversion", "exp2obs/obs2exp/extract_obs")], (), ["returned observation/exposure"])
p("L09", "Exposure coadds are inverse-variance weighted over usable pixels with ORed masks",
  "Coadding exposures weights each by the inverse of its median usable (positive) variance, averages image and PSF with those weights using usable pixels only, gives every pixel the inverse of the summed inverse variances as variance (infinite where nothing contributes), ORs the masks, evaluates each PSF at the common centre and keeps the frame of the inputs; an exposure without any usable pixel contributes its mask only; coadding the bands of an observation list averages images and PSFs by median positive weight and sums the weights, and nothing with zero total weight is produced. Extracting multiband data splits the coadd products into aligned per-band image, noise, masked-fraction and OR-mask data that share no memory with their source, and copies of a multiband exposure keep its frame, PSF and filter.",
  ["inputs"],
  "every list of exposures with any variance and mask planes",
  "Tests need the science stack and use equal variances.",
  [L + "util.py"], [("coadd", "coadd_exposures/coadd_mbobs/extract_multiband_coadd_data")], (), ["returned exposure"])
p("L10", "Stamp boxes have the requested size, stay inside, or are refused",
  "A stamp around a source is a box of the requested size about the source's peak; if it would leave the image it is clipped when clipping is requested and otherwise refused with a length error, and all bands use the same box.",
  ["inputs"],
  "every source position, stamp size (even, odd, none) and clip choice",
  "Tests need the science stack and use interior sources.",
  [L + "util.py", L + "mbobs_extractor.py"], [("box", "get_bbox"), ("stamps", "MBObsExtractor.get_stamp/get_mbobs")], (), ["stamps"])
p("L11", "Iterated sky subtraction accounts for every background it removed",
  "Iterated detection and sky subtraction detects, then for the requested number of iterations subtracts a background computed without the detected pixels and detects again, returning the last detections; the exposure ends equal to the input minus the sum of all subtracted backgrounds, and that sum is recorded in its metadata. Fewer than one iteration is refused. When detection or background estimation fails the run stops there with a warning and gives no detections. Subtracting the sky of a multiband exposure does this once to every band, independently of the others.",
  ["inputs", "histories", "fault_sequences"],
  "every number of iterations, sequence of estimated backgrounds and detections",
  "Tests need the science stack and check the final mean level only.",
  [L + "skysub.py"], [("iteration", "iterate_detection_and_skysub/subtract_sky_mbexp")], (), ["exposure pixels", "recorded background"])
p("L12", "Band selection and image trimming keep exactly what is named",
  "Shear-band selection returns the positions of the named bands within the exposure, in exposure order (all bands when none are named), and refuses names that are not present. Trimming to odd dimensions returns square images as they are and cuts other odd-sized ones to the centred square of the smaller side.",
  ["inputs", "configurations"],
  "every band list, selection and image shape",
  "Tests need the science stack and use one selection.",
  [L + "util.py"], [("selection", "extract_shear_band_indices"), ("trim", "trim_odd_image")], (), ["returned indices/images"])
p("L13", "Exposure-level runs attach masked fraction, OR-mask and PSF summary to every row",
  "A run on exposures yields an entry for every requested shear type, whose rows carry the Gaussian-averaged masked fraction and the OR of all OR-masks at the object's own position in the exposure's pixel frame, and the weighted PSF summary over the shear bands, with the fits of all bands returned on request; optional products that are not given default to nothing masked and those that are given are left unchanged. If a PSF fit fails the summary is flagged and the run proceeds; photometry runs do the same on the unsheared exposure with the configured deblender. A band without any usable variance is refused before anything is detected.",
  ["inputs", "configurations", "fault_sequences"],
  "every masked-fraction map, mask list, band selection, non-square image and PSF outcome",
  "Tests need the science stack; they use constant maps on square images and never a failing PSF fit.",
  [L + "metadetect.py", L + "photometry.py"], [("attach", "add_mfrac/add_ormask/add_original_psf"), ("averages", "get_mfrac_mbexp/fit_original_psfs_mbexp")], (), ["result rows"])
p("L14", "Exposures are detected on once, with the documented settings, and deblended as configured",
  "A detection task runs detection exactly once per set of exposures, on the coadd of all bands (the exposure itself, in single precision, if there is one), with every documented setting except those overridden, sharing one schema between its subtasks. The configured deblender then runs exactly once, on exactly what was detected (Scarlet: with deconvolved exposures of all bands in order, footprints attached afterwards without dropping its data), and what it leaves is returned with the detection exposure and models. Without usable weight or detections nothing is deblended and no sources are returned. Given overrides, and exposures beyond the detection marks on a single one, stay unchanged; repeated runs of one task do not affect each other.",
  ["inputs", "configurations", "histories"],
  "every number of bands, weight map, pixel type, deblender, set of overrides and detection outcome, and sequences of runs of one task",
  "Needs the science stack, whose defaults change between releases; tests do not look at the settings the detection really ran with or at exposures without weight.",
  [L + "measure.py", L + "util.py"], [("settings", "DetectAndDeblendConfig.setDefaults/get_detect_and_deblend_task"), ("steps", "DetectAndDeblendTask.run/_run_with_sdss/_run_with_scarlet"), ("deconvolution", "make_deconvolved_mbexp")], (), ["calls of detection and deblending tasks", "DetectAndDeblendTask.run return value"])
p("L15", "An exposure-level run depends only on what it is given and changes nothing else",
  "The outcome of an exposure-level metadetection, or of detecting on and measuring exposures, is determined by the exposures, noise exposures, masks, configuration and the state of the generator it is given. Earlier, repeated or failed runs in the process, including those of the same detection task, do not affect it, and the same run from the same state can be repeated with the same catalogues. It leaves the process-wide generator, other generators, configurations, noise exposures, optional masks and results already returned unchanged, and, apart from detection marks, the exposures too unless sky subtraction is configured.",
  ["histories", "inputs", "configurations"],
  "every order and number of runs, of any two inputs, configurations and generators, complete or failed, in one process",
  "Campaigns run thousands of cells in one process and reproduce single ones later; tests make one call per process state and never compare a run with the same run elsewhere.",
  [L + "metadetect.py", L + "photometry.py", L + "measure.py"], [("runs", "run_metadetect/run_photometry"), ("measurement", "measure/detect_and_deblend"), ("tasks", "DetectAndDeblendTask.run")], (), ["run_metadetect, detect_deblend_and_measure return values", "state of inputs and generators after a run"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P))
