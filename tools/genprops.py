#!/usr/bin/env python3
"""Generates /verif/properties.jsonl from the list below."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in (mech or [])])))
I=["inputs"]
p("F01","A saved FITS image reads back unchanged, and the file is standard FITS",
 "Writing any 32-bit float image (any number of axes and any extents, any finite or infinite pixel values; NaN is saved as zero) to a FITS file, plain or gzipped, and reading it back yields the same axes and equal pixel values, and the exposure time and header keyword values the writer emits are read back equal. The file is well-formed FITS for an independent reader: mandatory keywords first and in order, 80-byte cards, 2880-byte blocks, big-endian IEEE data. Saving over an existing file leaves exactly the newly saved image and no bytes of the previous content, whatever sequence of saves came before.",
 ["inputs","histories"],"all images, header keyword sets and sequences of saves to the same path",
 "No existing test touches FITS I/O; a unit test could sample a few images but not all extents, pixel bit patterns, header values and overwrite histories.",
 ["internal/fits/write.go","internal/fits/read.go","internal/fits/fits.go","internal/ops/operator.go"],
 [("Image.WriteFile / Header.Write","internal/fits/write.go"),("Image.ReadFile","internal/fits/read.go")])
p("F02","Every standard FITS pixel encoding is decoded to its physical values",
 "Reading a FITS image whose data are stored as 8, 16, 32 or 64 bit integers or as 32 or 64 bit floats yields, for every pixel, the physical value BZERO + BSCALE*stored as a 32-bit float, with the axes in file order. The result does not depend on the image size relative to internal buffers, on how the byte stream is chunked, on trailing padding, or on whether the file is gzipped. Header cards of every standard value type, with or without comments, in any order and number, are available under their keyword with the value the standard assigns them.",
 I,"all stored types, BZERO/BSCALE values, image extents, stream chunkings, and header card layouts",
 "No existing test reads a FITS file; the decoding loops differ per type and have buffer-boundary behaviour that only shows for particular sizes and chunkings.",
 ["internal/fits/read.go","internal/fits/fits.go"],[("readInt8Data..readFloat64Data","internal/fits/read.go"),("header card regular expression","internal/fits/read.go")])
p("F03","Malformed or truncated FITS and TIFF input is rejected with an error",
 "For any byte sequence offered as a FITS or TIFF image, reading either succeeds or returns an error; it never crashes the process, never hangs, and never reports success for a file whose pixel data are cut short of what the header declares.",
 I,"all byte sequences, in particular truncations, corruptions and header edits of valid files",
 "Tests contain no malformed input at all; the space of corruptions is unbounded.",
 ["internal/fits/read.go","internal/fits/tiff16.go"])
p("F04","Exported TIFF and JPEG pictures show the image's values",
 "Exporting a mono or RGB image to 16-bit TIFF or 8-bit JPEG maps pixel values linearly from the chosen input range to the full output range, clamps values outside it, applies the requested gamma, and keeps geometry, orientation and channel order, so that an independent decoder recovers every pixel to within quantisation (TIFF) or compression (JPEG) error. Reading a TIFF back (8 or 16 bit, gray or RGB) yields the stored sample values with the same geometry and channel order. A picture that cannot be written is reported as an error.",
 I,"all image extents, pixel values, input ranges and gammas, gray and RGB",
 "No existing test exercises picture export or TIFF import.",
 ["internal/fits/tiff16.go","internal/fits/writejpg.go","internal/ops/operator.go"])
p("F05","Saving frames under a pattern writes one correct file per frame",
 "Saving any number of frames concurrently under a file name pattern with a number placeholder (with or without zero padding) writes exactly one file per frame, named after the frame's number and holding that frame in the format its suffix names, and passes the frames on unchanged. An unknown suffix or a missing frame is an error, and an empty pattern saves nothing.",
 ["inputs","schedules"],"all frame numbers, placeholders, suffixes and thread counts",
 "No existing test runs the save step.",
 ["internal/ops/operator.go"],[("OpSave.Apply","internal/ops/operator.go")])
p("N01","Order statistics select the true k-th smallest value and median",
 "Selecting the k-th smallest element, the median, or the first quartile of any array returns exactly the value a full sort would put there (the mean of the two middle values for medians of even length), and leaves the array a permutation of what it was with smaller values before and larger values after the selected position; sorting orders the array.",
 I,"all arrays (length >= 1) including duplicates, sorted, reversed and adversarial orders, and all k",
 "The single existing test uses permutations of 1..n with distinct values and only the median; duplicates, other ranks and the partition postcondition are not covered.",
 ["internal/qsort/qsort.go","internal/star/qsort.go","internal/median/median3x3.go"])
p("N02","The 3x3 median filter equals its definition on every CPU path",
 "The 3x3 median filter replaces every interior pixel by the median of its 3x3 neighbourhood and border pixels by the value the border rule prescribes, for every image size, and the vectorised and the portable implementation produce identical output. Gathering a neighbourhood through an index mask returns exactly the in-bounds neighbours and their median.",
 I,"all image extents (including widths below the vector width) and all finite pixel values, both CPU paths, all masks and positions",
 "No test exercises the filter; lane tails and edges depend on width modulo vector size.",
 ["internal/median/median3x3.go","internal/median/median3x3_amd64.go","internal/median/median3x3_amd64.s","internal/median/gather.go"])
p("N03","Basic image statistics equal their definition on every CPU path",
 "Minimum, maximum, mean, standard deviation and noise estimate (over the complete neighbourhoods where pixels are missing) of an image equal their mathematical definition up to rounding, for every image size and for each colour channel separately, and the vectorised and the portable implementation agree.",
 I,"all array lengths, offsets and finite values, both CPU paths, strides and channels",
 "No test exercises statistics; vector tails and accumulation depend on length modulo vector size.",
 ["internal/stats/stats.go","internal/stats/stats_amd64.s","internal/stats/noise.go","internal/stats/noise_amd64.s"])
p("N04","Location and scale estimators are robust and affine-equivariant",
 "Each location and scale estimator returns a location inside the data range and a non-negative scale, follows the data under shifting and positive scaling of all values, and on contaminated normal data recovers the centre and (for consistent estimators) the standard deviation of the uncontaminated majority within statistical error. Exact estimators (median, median absolute deviation, sigma-clipped median, Qn on small samples) equal their textbook definition, and linear regression recovers the line it is given.",
 I,"all samples: sizes, values, duplicates, outlier fractions below the breakdown point, and the internal random sampling",
 "No test exercises the estimators; robustness is a statement about all contaminations.",
 ["internal/stats/stats.go","internal/stats/histogram.go"])
p("N05","Statistics reported for an image always describe its current pixels",
 "After any sequence of processing operations on an image, the minimum, maximum, mean, standard deviation, location, scale and noise reported for it are those of its current pixel values, as if computed from scratch.",
 ["histories","inputs"],"all sequences of operations applied to an image, with statistics read or not read in between",
 "Statistics are computed lazily and cached; staleness shows only for particular orders of reads and modifications, which no test runs.",
 ["internal/stats/stats.go","internal/fits/pixelops.go","internal/ops/pre/preprocess.go","internal/ops/stretch/stretch.go","internal/ops/post/postprocess.go"])
p("S01","Spatial star lookup returns the true nearest neighbour",
 "For any set of points and any query, the nearest-neighbour lookups used for star and triangle matching return a stored point at the minimum distance, and that distance, exactly as an exhaustive scan would.",
 I,"all point sets (including duplicates and collinear sets) and query points, in 2 and 3 dimensions",
 "No test touches the search trees.",
 ["internal/star/kdtree2.go","internal/star/kdtree3p.go"])
p("S02","Star detection finds the stars that are there, and only those",
 "On a mono field of well-separated round stars clearly above the noise, star detection reports each of them exactly once with a centroid within 0.3 pixel, its flux (pixel values above background within the search radius), its half-flux radius (mean distance of that flux from the central pixel) and the value of its central pixel, listed brightest first, also for stars near the borders, and reports nothing else. However crowded the field, no two reported stars are within the search radius of each other. The frame's star size is the mean of the half-flux radii. Isolated hot pixels are not stars when bad-pixel rejection is on. Shifting or transposing the field moves the detections along, and adding a constant background or scaling the brightness does not change them. Detection leaves the pixels alone, and a star image, if asked for, shows a disc of twice its half-flux radius and its mean brightness at each star.",
 I,"all star fields with separated stars, background levels, noise levels, image sizes and detection settings",
 "No test runs star detection.",
 ["internal/star/findstars.go","internal/ops/pre/preprocess.go","internal/fits/fits.go"])
p("S03","Geometric transforms are solved, applied, composed and inverted correctly",
 "A transform computed from three point pairs maps each source point to its target; applying a transform and then its inverse returns the starting point; degenerate point sets and singular transforms are refused with an error rather than yielding a transform that maps points to nonsense.",
 I,"all point triples, affine transforms and points, including collinear and axis-aligned ones",
 "No test touches coordinates or transforms.",
 ["internal/star/coord.go"])
p("S04","Alignment recovers the true shift and rotation and rejects false matches",
 "Given the stars of a reference frame and the same stars, brightest first, seen through any rotation, a shift up to a tenth of the frame, another binning and small centroid noise, with some stars missing or added, or with all but the brightest dozen missing on one side, alignment returns a transform that maps every common star onto its counterpart to within the noise, and a residual that is the root of the summed squared distances over the number of matches. The align step resamples the frame onto the reference's extent so that scene positions coincide with those of the reference, fills pixels not covered with the requested value, and keeps the frame's identification; the reference itself passes unchanged. A frame that shares no star pattern with the reference (with at least 24 stars on both sides), has no stars, or offers fewer than three usable stars is left out rather than stacked misaligned; a missing reference is an error.",
 ["inputs","schedules"],"all star patterns, rotations, translations, noise, missing and spurious stars, sets of frames and thread counts",
 "No test aligns anything.",
 ["internal/star/align.go","internal/star/kdtree3p.go","internal/ops/post/postprocess.go"])
p("S05","Resampling through a transform interpolates bilinearly and marks outside pixels",
 "Projecting an image through a transform gives each output pixel the bilinear interpolation of the source pixels around its source position: the identity leaves every pixel unchanged, integer shifts move pixels exactly, linear gradients are reproduced exactly, and values never leave the range of the source. Output pixels whose source lies outside the input get the requested out-of-bounds value and no others do.",
 I,"all image extents, channel counts and invertible transforms",
 "No test projects an image.",
 ["internal/fits/project.go","internal/ops/post/postprocess.go"])
p("K01","Each stacking mode computes its documented per-pixel estimator",
 "Stacking aligned frames yields at every pixel the chosen estimator (median, mean, sigma-clipped, winsorised, MAD-clipped or linear-fit mean) of the valid values of that pixel in all frames: missing values (NaN) are ignored, a pixel missing in all frames gets the reference background level, and outliers beyond the sigma bounds are excluded while the rest count fully. The result never leaves the range of the contributing values, does not depend on the order of frames, the number of threads or how rows are divided among them, and follows the inputs under shifting and positive scaling.",
 ["inputs","schedules"],"all frame counts and extents, pixel values with NaN and outliers, modes, sigma bounds and thread counts",
 "No test stacks anything; outlier rejection and NaN handling depend on the values at each pixel.",
 ["internal/ops/stack/stack.go"])
p("K02","Weighted stacking honours frame weights, value by value",
 "With weights by exposure, inverse noise or inverse star size, the mean, sigma and winsor modes give at each pixel the weighted mean of the surviving values, each valid value contributing with exactly its own frame's weight, also after outlier rejection. Weights are finite and positive for every set of frames (proportional to exposure; from 1 for the best down to 1/5 for the worst frame by noise or star size), equal weights give the unweighted result, and weights that cannot be honoured (no exposure, no statistics, no star size, mode without weights) are refused with an error. The exposure of the stack is the sum of the exposures of the frames in it.",
 I,"all frame sets, weights and weighting modes, pixel values with NaN and outliers",
 "No test uses weights; weight/value pairing is only visible when rejection reorders values.",
 ["internal/ops/stack/stack.go"])
p("K03","Batched stacking uses every frame exactly once",
 "However many frames are given and however the memory limit splits them into batches, every input frame enters exactly one batch and the final stack combines all of them with each batch weighted by its number of frames, so an unweighted mean equals the plain mean of all frames and total exposure is preserved. Each batch fits the memory limit as estimated, and a frame that cannot be loaded fails the job rather than being silently lost.",
 ["inputs","configurations","schedules"],"all frame counts, memory limits, thread counts and random partitions",
 "No test runs batched stacking; batch arithmetic has special cases only reached at particular frame counts and memory limits.",
 ["internal/ops/stack/stackbatches.go","internal/ops/stack/stack.go"])
p("K04","Outlier rejection keeps trails out of the stack",
 "When a minority of the frames carries a gross outlier at a pixel (satellite trail, cosmic ray, hot pixel), stacking with median, sigma, winsor, MAD or linear fit rejection, chosen explicitly or automatically by the number of frames, yields a value within the range of the frames not hit. Pixels without outliers approach the scene with the noise reduction of averaging about all frames.",
 ["inputs","schedules"],"all frame counts, noise levels, trail patterns up to the fraction each mode tolerates, sigma bounds (also left at the negative default), weights and thread counts",
 "No test stacks anything.",
 ["internal/ops/stack/stack.go"])
p("C01","Calibration subtracts the dark and divides by the normalised flat",
 "Calibrating a frame subtracts the dark frame pixel by pixel and divides by the flat frame normalised to its own maximum (leaving pixels alone where the flat is not positive), so that a synthetic raw frame (scene times vignetting plus dark) is restored to the scene up to one common factor; omitted darks or flats leave that step out. Dark or flat frames with another number of pixels are refused with an error, calibration frames are the same for every frame whatever the concurrency, and several frames can be calibrated with one loaded dark and flat.",
 ["inputs","schedules"],"all frames, darks and flats, extents, and concurrent calibration of many frames",
 "No test calibrates.",
 ["internal/ops/pre/preprocess.go","internal/fits/pixelops.go"])
p("C02","Bad pixel correction repairs outliers and leaves good pixels alone",
 "Cosmetic correction replaces exactly those pixels that deviate from their local median by more than the given multiples of the deviation's spread, each by its local neighbourhood median, and leaves every other pixel bit-identical; on raw mosaic frames only neighbours of the same filter colour are consulted and only the selected colour is touched, for all four filter arrangements. The number of corrected pixels reported is the number changed, and zero thresholds turn the step off.",
 I,"all images, extents, hot/cold pixel positions, thresholds, filter arrays and channels",
 "Two existing tests cover one small mosaic each for the RGGB layout.",
 ["internal/ops/pre/badpixels.go","internal/ops/pre/badpixels_bayer.go","internal/ops/pre/preprocess.go"])
p("C03","Debayering keeps native samples and interpolates the rest from neighbours",
 "Extracting a colour channel from a raw mosaic crops the frame to whole filter cells, keeps every sample of that colour unchanged at its position and fills every other pixel with the average of the nearest samples of that colour (at the border, with a value between those present), for all four filter arrangements and all three channels. So a uniform channel stays uniform, a linear gradient is reproduced away from the border, and samples of other colours have no influence.",
 I,"all mosaics, extents (odd and even), filter arrays and channels",
 "Three existing tests check a single 6x6-ish mosaic for RGGB only.",
 ["internal/ops/pre/debayer.go","internal/ops/pre/preprocess.go"])
p("C04","Scaling, offset and binning do exactly the arithmetic they name",
 "Scale/offset maps every pixel x to x*scale+offset; NxN binning gives an image of floor(width/N) by floor(height/N) in which each pixel is the mean of its NxN block, for each colour channel, and binning by 0 or 1 changes nothing. Statistics, identification and exposure stay consistent, and an image smaller than one bin is refused with an error.",
 I,"all images, extents, factors",
 "No test covers them.",
 ["internal/ops/pre/preprocess.go","internal/fits/pixelops.go","internal/fits/fits.go"])
p("C05","Background extraction removes the background gradient and nothing else",
 "The extracted background is a smooth surface built from the local background level of the grid cells, and the image after extraction equals the image before minus that surface pixel by pixel. A flat or linearly varying background (with or without stars) is flattened to around zero up to noise, star flux above background is preserved, and the operation works for every grid size and image size.",
 I,"all images, gradients, star fields, grid sizes, sigma and clip settings",
 "No test extracts a background.",
 ["internal/ops/pre/background.go"])
p("C06","Debanding evens out row and column levels",
 "Horizontal (vertical) debanding multiplies all pixels of a row (column) with one common positive factor that brings its percentile level, ignoring pixels brighter than the threshold, to the median level of the rows (columns) in the window around it. So bands on a smooth background are removed, smooth gradients and unbanded images stay as they are up to noise, and a zero percentile or window means no change.",
 I,"all images, extents, band patterns, percentiles, windows and sigmas",
 "No test debands.",
 ["internal/ops/pre/banding.go"])
p("T01","Point-wise stretches follow their curves and preserve order",
 "Range normalisation, midtones, gamma, partial gamma, black-point scaling and scale/offset apply one fixed non-decreasing curve to all pixels: each equals its documented formula, brighter pixels never become darker than dimmer ones, black (0) and white (1) stay fixed where the curve says so, outputs stay within [0,1] where inputs are, and neutral parameters leave the image bit-identical.",
 I,"all images and parameters",
 "No test covers the point-wise operators.",
 ["internal/ops/stretch/stretch.go","internal/fits/pixelops.go"])
p("T02","Iterative stretching reaches the requested background location and scale",
 "Automatic stretching brings the background's location and scale to the requested targets within tolerance (1.5% and 10%) if a gamma curve followed by a black-point shift can reach that combination; where it cannot, it ends with the scale reached and the location at or below its target. An image whose scale is above the target already stays as it is. All steps preserve the order of pixel values, keep them in [0,1], and on colour images touch the luminance only; the search ends for every image with values in [0,1]. A black-point shift moves a location above the target down to it, keeping white white, and leaves images with a lower location alone.",
 I,"all linear images and targets",
 "No test runs the goal seek.",
 ["internal/ops/stretch/stretch.go","internal/ops/hsl/hsl.go"])
p("T03","Gaussian blur is a normalised symmetric convolution; unsharp mask uses it",
 "Gaussian blurring equals the two-dimensional convolution with a normalised, symmetric, non-negative Gaussian kernel using mirrored borders: constants stay constant, total flux is preserved, flips and transpositions commute with it. Unsharp masking gives x+gain*(x-blur(x)) clipped to the image's original range for pixels at or above the threshold and leaves the others unchanged, and a radius of zero or less or a gain of zero leaves the image unchanged. Channels of colour images do not mix, and kernels may be larger than the image.",
 I,"all images, extents (non-square too), sigmas, gains and thresholds",
 "Existing tests use one centred spike on three square sizes and three sigmas.",
 ["internal/ops/stretch/usm.go","internal/ops/stretch/stretch.go","internal/ops/hsl/hsl.go"])
p("T04","Histogram matching gives every frame the reference's location and scale",
 "Matching a frame to the reference by location, or by location and scale, applies one affine map to all pixels after which the frame's measured location (and scale) equal the reference's; by black point, the map is the one that keeps 1 and clips at 0. Turned off, frames pass unchanged, and the reference frame itself is unchanged. A missing reference, or a location of zero where only a factor may be applied, is an error, and a frame of uniform brightness is shifted.",
 I,"all frame and reference pixel distributions and all modes",
 "No test covers histogram matching.",
 ["internal/ops/post/postprocess.go","internal/fits/pixelops.go"])
p("H01","Colour space conversions round-trip",
 "Converting any in-gamut colour from RGB to each working colour space and back returns the original within rounding, neutral grays have zero chroma and keep their lightness order, converted components stay in their documented ranges, and the planar image converters agree with the per-pixel converters for every pixel.",
 I,"all in-gamut colours and images",
 "No test converts colours.",
 ["internal/fits/rgb.go","internal/fits/oklab.go","internal/fits/bv.go","internal/fits/pixelops.go"])
p("H02","RGB combination and balance put the right pixels in the right channel",
 "Combining three (or four) mono frames yields a three-plane image whose red, green and blue planes are exactly the first, second and third frame (mapped by one common affine scaling where normalisation is documented) and keeps the luminance frame for later use; mismatched frames are refused. Colour balancing applies one affine map per channel so that the darkest background becomes neutral and the average star colour becomes the requested tint.",
 I,"all frame triples and quadruples, star lists and tints",
 "No test combines colour.",
 ["internal/ops/rgb/rgb.go","internal/fits/rgb.go"])
p("H03","Selective colour operators change only what they select",
 "Saturation, hue rotation, green removal, chroma gamma, background neutralisation and channel-wise luminance operators follow their formula on the selected pixels (hue range including wrap-around, luminance threshold, channel) and leave all other pixels and channels bit-identical; neutral parameters change nothing; results keep components in range; replacing luminance keeps colour.",
 I,"all colour images, hue ranges (wrapping too), factors and thresholds",
 "No test covers colour operators.",
 ["internal/ops/hsl/hsl.go","internal/fits/pixelops.go"])
p("O01","A job description means the same after saving and loading it",
 "Serialising any processing job to JSON and parsing it back gives a job with the same steps, order and parameters that serialises to the same JSON and produces the same output; parameters left out take the documented defaults of that step; unknown step types, wrong value types and malformed JSON are refused with an error and never crash.",
 ["inputs","programs"],"all operator sequences (nested), parameter values, omissions and corruptions",
 "No test parses a job.",
 ["internal/ops/operator.go","internal/ops/pre","internal/ops/post","internal/ops/stack","internal/ops/ref","internal/ops/rgb","internal/ops/hsl","internal/ops/stretch"])
p("O02","Concurrent job execution runs every step once, in order, within limits",
 "Executing a set of pending images evaluates each exactly once, never more at a time than the thread limit, returns the results in input order (without dropped ones) and reports an error if any evaluation fails, for every completion order; it always terminates. A sequence of steps equals applying the steps one after the other. Frames and jobs processed at the same time get the results they get on their own, and never access shared data without synchronisation.",
 ["schedules","inputs","fault_sequences"],"all numbers of images, thread limits, completion orders, failure and drop patterns",
 "No test executes a job; ordering, limits and error propagation depend on the interleaving.",
 ["internal/ops/operator.go"])
p("O03","Jobs cannot read files outside the working directory",
 "File names and patterns given in a job are refused if absolute or if they lead above the working directory; every file actually loaded (as light, dark, flat or reference frame) is named below it. Each pattern of a job yields every matching file exactly once, patterns in the order given and files in order of their names, numbered consecutively; a job is refused when nothing matches.",
 I,"all file names and glob patterns",
 "No test loads by pattern; path tricks are unbounded.",
 ["internal/ops/operator.go","internal/ops/pre/preprocess.go","internal/ops/ref/refframe.go"])
p("O04","Reference selection picks the best frame and every frame sees it",
 "Selecting a reference by star quality, by location, by frame number, by file name or by colour rule picks exactly the frame the rule names, once, from the frames present, before any dependent frame uses it; all frames are passed on unchanged and in order. Frames with fewer stars than required are left out and no others; asking for a reference that does not exist is reported as an error.",
 ["inputs","schedules"],"all sets of frames, star lists, selection rules, thread limits and dropped frames",
 "No test selects references.",
 ["internal/ops/ref/refframe.go","internal/ops/ref/filter.go"])
p("O05","Exported statistics contain every frame once, with its own values",
 "Exporting statistics writes one well-formed document with exactly one row per processed frame carrying that frame's identification and measured statistics, complete on disk once the job ends, for any number of frames and threads, and passes frames through unchanged.",
 ["inputs","schedules"],"all frame sets, thread counts",
 "No test exports statistics.",
 ["internal/ops/ref/exportstats.go"])
p("E01","A stacking job on shifted noisy frames reproduces the scene",
 "Running the complete stacking job of the command line on files showing one star field under different small shifts, rotations, meridian flips, noise, gain, sky level, vignetting, bad pixels and satellite trails, some frames clouded over, produces an image of the reference frame's extent without missing pixels, whose stars sit where the reference frame's stars are at about their heights, on the reference frame's sky level, with the noise lowered as averaging the frames does, without ghosts, bad pixels, or trails where the chosen rejection can tell them. The exposure adds up the frames used, frames showing stars are used, frames without stars are left out, all requested pictures are written, and running the job from its saved JSON form does the same.",
 ["inputs","configurations"],"all star fields of some tens of stars, frame counts, shifts and defects, stacking modes, weights, location estimators, reference rules and memory limits",
 "There is no end-to-end test.",
 ["internal/ops/operator.go","internal/ops/stack/stackbatches.go","internal/ops/ref/refframe.go","internal/ops/post/postprocess.go","internal/ops/pre/preprocess.go","internal/ops/stack/stack.go"])
p("E02","Combining and stretching jobs yield the scene's colours and shapes end to end",
 "The jobs the command line builds for colour: with mono files per channel, taken directly or stacked from shifted and rotated frames against a common reference, the rgb job yields a colour image of the same extent in which every star coincides across channels and sits where the scene has it, red, green, blue and luminance files go to their own channel whatever their names, the sky is neutral, stars are on average white and differ from each other in colour and brightness as they do in the scene. The stretch job brings shifted images to the reference's position and keeps the order of star brightnesses. All results are finite, and TIFF and JPEG files show what the FITS file holds.",
 ["inputs","configurations"],"all scenes, channel sets, shifts, stretch settings, estimators, thread counts and output formats",
 "There is no end-to-end test.",
 ["internal/ops/operator.go","internal/ops/rgb/rgb.go","internal/ops/hsl/hsl.go","internal/ops/stretch/stretch.go","internal/ops/post/postprocess.go"])
p("A01","The command line runs exactly the job its flags describe",
 "The commands stats, stack, stretch and rgb of the command line program turn flags, documented defaults and input patterns into the documented job, with every flag reaching its own step and nothing else, whatever the order, number and spelling of flags, and print that job. Running it writes the same files with the same contents as running that job by the library, leaves no other files, does not change its inputs, and feeding the printed job back with the run command does the same again. The log file holds what was printed. The program exits with a non-zero status and a message if the job fails or flags or job files are malformed, in the last case without running any of the job, and with zero otherwise.",
 ["inputs","configurations"],"all flag combinations, input patterns, job files and commands",
 "No test runs the program.",
 ["cmd/nightlight/main.go","internal/ops/operator.go"])
p("A02","Jobs sent over HTTP run like local ones, apart from each other",
 "The server answers a well-formed job with the job it understood and all log lines of that job and no others, reports an error exactly if the job fails, and leaves and serves the same files as running the job by the library, for any number of jobs one after another or at the same time, without unsynchronised access. Malformed bodies, unknown steps and values of wrong types are refused with status 400 and a message, without running any of the job. No job, however senseless its steps and values, keeps the server from answering and running others. Files inside the server's directory are served as they are, files outside never.",
 ["inputs","schedules","histories"],"all jobs, numbers and overlaps of requests, malformed bodies, request paths",
 "No test runs the server.",
 ["internal/rest/serve.go","internal/ops/operator.go"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
