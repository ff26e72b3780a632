def more(P,U):
    P('C06','Semaphores and worker pools are correct under every thread schedule',
     'Under every interleaving (including spurious wake-ups and time-outs), a counting semaphore never lets more waits succeed than resources exist, never loses a resource or a wake-up, and non-blocking or timed waits fail exactly when nothing could be taken. A worker pool runs every queued task exactly once (a single worker in queueing order), its destructor returns only after all queued tasks have run, and each returned future delivers its own task\'s value or exception; a scoped unlock always re-acquires its mutex.',
     ['schedules'],'all schedules of up to 4 threads with at most 2 preemptions (4 thorough) and 1 spurious wake-up (2 thorough), initial counts 0-2, 1-2 workers, up to 3 tasks','tests run each scenario a few times under one scheduler',
     [U+'cxx.hpp'],[dict(name='Semaphore, WorkerPool, unlock_guard',where=U+'cxx.hpp')],note='up to 4 threads, preemption bound 2 (4), 1-2 spurious wake-ups; sequentially consistent memory, interleaving at synchronisation operations')

    P('C07','LBSP descriptors encode the neighbourhood comparison exactly, however they are requested',
     'For every image, position, reference value and threshold, bit n of an LBSP descriptor channel is set exactly when the n-th of the 16 fixed 5x5 neighbours differs from the reference (the centre pixel, or the reference image\'s pixel) by strictly more than the threshold (absolute, or reference*relative+offset, saturated to 8 bits). Single-pixel, dense-map, keypoint-map and reshaped keypoint-list requests give the same bits at every non-border pixel; keypoints too close to the border are dropped and a reshaped map is null there. Gradients, bit distances and difference images derived from descriptors follow from their bits; ROI validation clears exactly the 2-pixel border; images of the wrong type, size or layout are rejected with an exception.',
     ['inputs'],'all pixel values of 5x5 to 7x6 images with 1 or 3 channels, all references, thresholds 0-300 and relative thresholds 0, 0.25, 0.365','tests compare a few stored images',
     ['modules/features2d/include/litiv/features2d/LBSP.hpp','modules/features2d/src/LBSP.cpp'],[dict(name='LBSP',where='modules/features2d/src/LBSP.cpp')],note='images up to 7x6; relative thresholds limited to listed values')

    P('C04','Matrix helpers never lose, invent or misplace an element',
     'For every matrix layout (empty, multi-channel, multi-dimensional, non-continuous views) and content: packing matrices into one buffer and unpacking restores every matrix exactly and rejects mismatched sizes; equality, near-equality, unique values, sub-selection, squeezing, basic views and concatenation are element-exact; size objects convert and compare consistently and reject negative sizes. Copies between regions transfer exactly the in-bounds unmasked pixels and report their number; integer shifts move every element by the offset with the requested fill; sub-pixel reads interpolate bilinearly; packed YCbCr keeps 8+4+4 bits. Random sample and neighbour positions always stay inside the image minus its border and follow the documented patterns (every neighbour reachable, the centre never). Aligned allocators align every row.',
     ['inputs'],'0-3 matrices out of 7 layouts, sizes 0-255 per dimension in size objects, images up to 4x4 with all contents, every region placement, all non-negative random indices','tests check a few random matrices',
     [U+'opencv.hpp','modules/utils/src/opencv.cpp'],[dict(name='MatSize, packData/unpackData, isEqual, getSubMat, copyValidPixelsTo, shift, sampling positions',where=U+'opencv.hpp')],note='small matrices; sub-pixel positions at multiples of 1/4 with 4-bit values')

    D='modules/datasets/'
    P('C12','Evaluation counts every pixel exactly once, in the right class',
     'For every result map, ground truth map, optional ROI and previous counters: each pixel outside the ROI, marked unknown (170) or out of scope (85), or without ground truth is counted once as not evaluated; every other pixel is counted once as true/false positive/negative by comparing "equal to 255" in both maps, and a positive on a shadow pixel (50) is also counted as special error. The coloured mask encodes the same classification. Disparity evaluation lists one absolute error per pixel with valid ground truth inside the ROI. Maps of the wrong type, layout or size are rejected without changing anything; merging and reducing accumulators adds up per stream and rejects mismatched stream counts.',
     ['inputs'],'all values of 4-pixel maps, any 64-bit previous counters; all 36 disparity type pairs; 0-2 streams','tests compare a few random maps without ROI, shadow or previous counts',
     [D+'include/litiv/datasets/metrics.hpp',D+'src/metrics.cpp'],[dict(name='BinClassif, StereoDispErrors, metrics accumulators',where=D+'src/metrics.cpp')],note='4 pixels; disparity colour maps (getColoredMask of StereoDispErrors) excluded')
    P('C13','Metrics follow their definitions, stay finite and average with equal weights',
     'For all counters, recall, precision, specificity, false positive/negative rate, percentage of bad classifications, F-measure and Matthews correlation follow their standard definitions, stay in their documented ranges and are 0 when their denominator is empty, up to whole-dataset totals. Disparity metrics give the percentage of errors strictly above 0.5, 1, 2 and 4, the mean and the RMS. Averaging calculators gives every contribution the same weight in any association, per stream; reduction averages the streams; mismatched arrays are rejected.',
     ['inputs','histories'],'counters 0-5 each, plus five magnitudes up to 2^40 in every combination; 0-3 errors; 4 calculators in 3 associations; all 64-bit counters for empty denominators','tests check one or two counter sets',
     [D+'include/litiv/datasets/metrics.hpp',D+'src/metrics.cpp'],[dict(name='BinClassifMetrics, StereoDispErrorMetrics, metrics calculators',where=D+'src/metrics.cpp')],note='floating-point values are decided per solver-enumerated counter tuple within the bounds')

    P('C14','Packet precaching and asynchronous writing are transparent under every schedule',
     'For every interleaving of the caller and the worker threads, whatever the packet sizes, request order, time-outs and loader or writer failures: a packet obtained through the precacher is exactly the one the loader produces for that index, stays intact until the next request (also after precaching is stopped or restarted), and the loader is never entered concurrently. Every packet accepted by the asynchronous writer is written with its content, once per version, the last version last, and nothing else is written; packets are refused only if dropping is allowed and the queue stays within its size; stopping or destroying the writer first writes what was accepted. A loader or writer exception reaches the caller once, loses no other packet and never terminates the process.',
     ['schedules','inputs'],'all schedules with at most 2 preemptions and 1 early time-out (4, 2 and a spurious wake-up in the thorough tier), caches of 4 bytes, 2-5 packets of 1-4 bytes with any content, 1-2 write workers','tests precache one sequence under one scheduler and never fill the buffers',
     [D+'include/litiv/datasets/utils.hpp',D+'src/utils.cpp'],[dict(name='DataPrecacher, DataWriter',where=D+'src/utils.cpp')],note='bounded preemptions, caches of 4 bytes (guarded hook lowers the 10 MB minimum), sequentially consistent memory; order of two versions of one index only with a single write worker')
    P('C20','Batches and groups count, aggregate and load every packet consistently',
     'A batch counts each distinct output index once; the final count is the count when processing stopped, also for a reader already waiting, and a batch can be reset and processed again. A group of any nesting reports the sums over all its batches, is processing or precaching exactly when one of them is, lists every batch once in order, and forwards resets and precaching to each; parsing creates one batch per sub-directory not matching a skip token, or one for the group itself if it has none. A loaded image packet has exactly the announced size and type (gray or alpha conversion, nearest-neighbour scaling) or is rejected; stream and feature arrays always belong to the requested index, in order, whatever was requested before.',
     ['inputs','histories','schedules'],'histories of 4 counter operations, groups of up to 3 batches on two levels, raw and announced images of 3 sizes and 1, 3 or 4 channels with all pixel values, 3 requests in any order','tests use one flat group and one request order',
     [D+'include/litiv/datasets/utils.hpp',D+'src/utils.cpp'],[dict(name='IDataCounter, DataGroupHandler, IIDataLoader, IDataLoader_',where=D+'src/utils.cpp')],note='small images and groups; directory listing replaced by a stand-in')

    I='modules/imgproc/'
    P('C09','Thinning only removes pixels, follows the published algorithm and keeps every shape connected',
     'For every image larger than 3x3, thinning returns the fixpoint of the published Zhang-Suen or Lam-Lee-Suen iteration (any non-null pixel is foreground; the outermost rows and columns stay): pixels are only removed, remaining pixels keep their value, and thinning the result again changes nothing. In Lam-Lee-Suen mode (the default) pixels connected before stay connected and no shape disappears. Empty, multi-channel, too small or non-continuous images are rejected.',
     ['inputs'],'all contents of 4x4 images (4x5 for Zhang-Suen; both in the thorough tier), 8x9 shapes with 2 symbolic pixels','there is no test of thinning',
     [I+'src/imgproc.cpp'],[dict(name='lv::thinning',where=I+'src/imgproc.cpp')],note='4x4 and 4x5 images with all contents; larger ones only partly symbolic')
    P('C10','Histogram, median, consensus, integral and maximum filters are exact for every image and mask',
     'For every image and mask: histogram counts and totals count each valid element once; the median value splits the valid elements in two halves (0 if there are none); median and binary median blurs give the (lower) median, respectively strict majority, of the valid pixels of the window clipped to the image, or the default value where there is none; binary consensus is positive exactly where the positives of the window reach the pixel\'s required count, whatever that count; integral images hold, at each corner, the sum (or number of non-null) valid pixels above and left; non-maximum suppression marks only valid non-null maxima of their window and every strict one; directional maximum tests are strict towards the preceding side and non-strict towards the following one. Bad types, layouts, masks, kernels and depths are rejected.',
     ['inputs'],'images of up to 12 pixels (18 columns for binary medians) with all values and masks, kernels 3 and 5','tests compare random images without extreme masks or sizes',
     [I+'src/imgproc.cpp',I+'include/litiv/imgproc.hpp'],[dict(name='calcHistCounts, calcMedianValue, medianBlur, binaryMedianBlur, binaryConsensus, integral, binaryIntegral, nonMaxSuppression, isLocalMaximum_*',where=I+'src/imgproc.cpp')],note='small images; unmasked medianBlur and integral delegate to OpenCV, whose behaviour is modelled; 8-bit input for non-maximum suppression')
    V='modules/video/'
    P('C15','ViBe classifies by its samples and learns only from background observations',
     'For every frame, model content, parameters and sequence of random numbers: ViBe fills its model with pixels of the 7x7 neighbourhood of the initialization frame; a pixel is marked foreground (255) exactly when fewer than the required number of its samples lie closer than the distance threshold, background (0) otherwise; a sample is only ever replaced by a background observation of the pixel itself or of one of its 8 direct neighbours, at most one at each place per pixel; with learning rate 1 a background observation is always absorbed. Frame views, gray frames in colour models and the background image (mean of the samples) follow the same rules; wrong sizes, types, learning rates, sample counts and uninitialized use are rejected with an exception.',
     ['inputs','histories'],'1-20 pixels, 1-4 samples, all gray values, all random sequences; colours around the distance threshold','the video module has no tests; its behaviour depends on random draws',
     [V+'src/BackgroundSubtractorViBe.cpp'],[dict(name='BackgroundSubtractorViBe_1ch, BackgroundSubtractorViBe_3ch',where=V+'src/BackgroundSubtractorViBe.cpp')],note='frames up to 5x4, one frame per history')
    P('C16','Background subtractors analyse exactly the requested region and reject unusable input',
     'For every region of interest, LOBSTER and SuBSENSE analyse exactly the region plus a margin of the patch radius, cut to the pixels whose patch fits in the image; index tables are consistent, a region without any analysable pixel is rejected, a region set earlier is kept when the size matches and dropped otherwise, and changing it keeps the learned background. Only the requested output pixels are written, also when the output is a view of a larger image. Frames, regions, refresh fractions and sample counts that cannot be processed (type, size, channels, layout, values, missing initialization) are rejected with an exception.',
     ['inputs','histories'],'ROIs on images up to 8x7 (single pixels everywhere, columns, full, any values), 15 kinds of invalid input, 12 output views','the video module has no tests',
     [V+'src/BackgroundSubtractionUtils.cpp',V+'src/BackgroundSubtractorLBSP.cpp'],[dict(name='IIBackgroundSubtractor::initialize_common, setROI, validateROI; IBackgroundSubtractorLBSP',where=V+'src/BackgroundSubtractionUtils.cpp')],note='images up to 9x9; GLSL variants excluded')
    P('C17','LOBSTER classifies by colour and LBSP similarity and learns only from background observations',
     'For every frame, model content and sequence of random numbers: the initial samples are pixels of the initialization frame with their own LBSP descriptors; a pixel is background exactly when enough samples are within the colour and descriptor thresholds (total and per channel, inter-sample descriptors computed against the sample), foreground otherwise; only background observations enter a model, colour and descriptor together, at the pixel or one of its direct neighbours inside the analysed region, and learning rate 1 always absorbs them; the mask is the 9x9 median of the classification; refreshing replaces exactly the requested fraction of samples, with non-foreground pixels of the last frame unless forced, and leaves foreground pixels alone.',
     ['inputs','histories'],'all gray values of 5x5 initialization and frame, all colours of a 5x5 frame, 1-3 samples, all random sequences; uniform 11x11 frames of any value','the video module has no tests; its behaviour depends on random draws',
     [V+'src/BackgroundSubtractorLOBSTER.cpp',V+'src/BackgroundSubtractorLBSP.cpp'],[dict(name='BackgroundSubtractorLOBSTER',where=V+'src/BackgroundSubtractorLOBSTER.cpp')],note='one frame after initialization; images up to 11x11; GLSL variant excluded')
    P('C18','SuBSENSE classifies by colour and LBSP similarity, learns only from background and keeps its feedback bounded',
     'For every frame, model content and sequence of random numbers: the initial samples are pixels of the initialization frame with their own LBSP descriptors; on the first frame a pixel is background exactly when enough samples pass the colour, descriptor and combined-distance thresholds, foreground otherwise; only background observations enter a model, colour and descriptor together, at the pixel or a direct neighbour; refreshing replaces exactly the requested fraction of samples from non-foreground pixels unless forced. Whatever the current feedback values, after a frame the learning rate stays between its caps, the variation factor at or above its minimum, the distance factor at or above 1 and all moving averages between 0 and 1.',
     ['inputs','histories'],'all gray values of 5x5 initialization and frame; colour frames with 5 free neighbours; any learning rate 4-512 and variation factor 0.1-64; all random sequences','the video module has no tests; its behaviour depends on random draws',
     [V+'src/BackgroundSubtractorSuBSENSE.cpp',V+'src/BackgroundSubtractorLBSP.cpp'],[dict(name='BackgroundSubtractorSuBSENSE',where=V+'src/BackgroundSubtractorSuBSENSE.cpp')],note='first or second frame only; frame-level analysis of images of 320x240 and more excluded')
    P('C08','Archived matrices, outputs and features read back exactly or are rejected, whatever happens to the file',
     'For every matrix layout and content, a matrix written to a binary archive and read back (into any destination) is identical; plain text archives keep integers and floating-point values exactly. If the archive was truncated at any byte, its header is inconsistent with its length, or the device was full while writing, an exception is raised and no wrong matrix is returned. Outputs and features saved by a dataset handler under an index are loaded back identically under that index only, pixels outside the region of interest reset, also for arrays of streams; images that could not be written are reported.',
     ['inputs','fault points'],'7 binary and 6 text layouts with all contents (doubles and 32-bit integers of text archives from probe values), truncation at every byte, every value of the header fields, device full at 4 places, pairs of 6 packet indices, every ROI of 2x2 outputs','tests write and read complete archives on a device with free space',
     ['modules/utils/src/opencv.cpp','modules/utils/include/litiv/utils/opencv.hpp',D+'src/utils.cpp',D+'include/litiv/datasets/utils.hpp'],[dict(name='lv::write, lv::read, IDataArchiver/IDataLoader output and feature archiving',where='modules/utils/src/opencv.cpp')],note='YAML/XML and LZ4 archive formats and corrupted data type fields excluded; file streams and image codecs are modelled (lossless PNG) in the symbolic executor and real in replays')
    P('C11','Mutual information, joint histograms and local differences follow their definitions in every mode',
     'For every pair of images of equal size: the joint and marginal histograms count each pixel once in the bin of its (quantized) value, whatever was computed before with the same buffers; the mutual information score equals its definition from those probabilities (divided by the geometric mean of the entropies when normalized), and sparse, dense, full-range and fast-approximation modes agree. Window scores at keypoints equal the score of the window alone; keypoints whose window leaves the image are rejected and no others, validated keypoints are never rejected, and ROI validation keeps exactly the pixels whose window fits. Local differences subtract the pixel at the offset and are null where there is none. Empty, mismatched or unsupported inputs are rejected.',
     ['inputs','histories'],'3-4 pixels out of 2-3 values per image in 11 mode/type combinations, views and continuous images, every keypoint of a 4x5 image, all ROIs up to 5x6, difference images up to 3x4 with all values','tests check a handful of image pairs in the default mode',
     ['modules/features2d/include/litiv/features2d.hpp','modules/features2d/src/MI.cpp'],[dict(name='localDiff, calcJointProbHist, calcMutualInfo, MutualInfo',where='modules/features2d/include/litiv/features2d.hpp')],note='pixel values are forked from small sets (probabilities need concrete counts); colour/gray pairs (24-bit mode) excluded')
    P('C19','Directory listings, path helpers and preallocated files reflect the file system exactly',
     'Whatever the entries of a directory, their order and kinds (files, directories, others, entries vanishing or appearing while listing): listing returns exactly its regular files (except Thumbs.db), respectively its sub-directories (except . and ..), each once as a full path, sorted, and closes the directory; a missing directory gives an empty list. Creating a directory returns true exactly when it exists afterwards and touches nothing that exists. Adding a trailing slash is exact and idempotent; filtering keeps, in order, exactly the paths without any token to remove and with a token to keep. A preallocated file has at least the requested size, keeps existing data, is null-filled on request, is positioned at its start, and failures are reported.',
     ['inputs','fault points'],'directories of 0-4 entries of 4 kinds in arbitrary order, path characters of any value, files of 0-4 bytes, 0-6 bytes requested','tests list one or two existing directories',
     ['modules/utils/src/platform.cpp'],[dict(name='getFilesFromDir, getSubDirsFromDir, filterFilePaths, addDirSlashIfMissing, checkIfExists, createDirIfNotExist, createBinFileWithPrealloc',where='modules/utils/src/platform.cpp')],note='the directory and file system calls are replaced by recording stand-ins in the symbolic executor, real scratch directories in replays')
    P('C21','Affinity maps and motion-compensated differences compare exactly the right pixels',
     'For every image pair, disparity range and regions of interest, an affinity map holds, for each patch position and offset, the L2 distance (or one minus the normalized mutual information) between the patch and the patch displaced by that offset in the other image, respectively the mean descriptor distance over the valid pairs of the window, and exactly -1 where the displaced patch leaves the image or a region of interest excludes either pixel; earlier calls and contents of the output do not matter. Motion-compensated differences compare each pixel with the bilinear sample at its displaced position (border replicated), and offset remapping takes every pixel from its position minus its offset. Invalid sizes, types, patches, ranges or distances are rejected.',
     ['inputs','histories'],'images and descriptor maps up to 3x5, patches of 1, 3 and 5, 6 disparity ranges, all regions of interest (both images up to 2x2, one up to 2x3), 8x8 displacements at every pixel','tests use one uniform or random pair',
     [I+'src/imgproc.cpp',I+'include/litiv/imgproc.hpp'],[dict(name='computeImageAffinity, computeDescriptorAffinity, computeTemporalAbsDiff, remap_offset',where=I+'src/imgproc.cpp')],note='contents mostly fixed (distances need concrete values); earth mover distance, CUDA and smoothing excluded; norm and remap of OpenCV modelled')
    D='modules/datasets/'
    P('C22','Data producers return exactly the packet, ground truth and size announced for every index',
     'Whatever the source (video file, directory of frames, image set, arrays of either), the batch contents, the order of requests and the options (4-byte alignment, scale factor): the packet returned for an index is the frame, image or stream array with that index, converted and resized exactly to the announced information, and an empty packet beyond the end; ground truth is returned for exactly the indices mapped to one, and is the mapped one; counts, sizes, types, names and regions of interest agree with the packets; the expected load size is the sum over the packets; parsing again gives the same result; batches without readable data, or whose ground truth mapping does not match, are rejected.',
     ['inputs','histories'],'1-3 packets of 2x4 pixels of all values, gray and colour, 2 streams, any mapping to 3 ground truth indices, 2-3 requests in any order','tests open one or two real sequences in order',
     [D+'src/utils.cpp',D+'include/litiv/datasets/utils.hpp'],[dict(name='IDataProducer_ for video, video array, image and image array sources',where=D+'src/utils.cpp')],note='image and video decoding replaced by stand-ins holding symbolic pixels; the resampling of OpenCV is modelled for the sizes used')
    P('C23','Datasets mirror their directories, and evaluate, count and archive every pushed output exactly once',
     'For every directory structure and set of skip tokens, a dataset holds exactly one batch per directory that is not skipped, with its path, name, settings and created output directories, and its totals are the sums over the batches; creating it succeeds whatever is skipped. For every sequence of processing phases and pushed outputs: outputs are accepted only while processing, each is evaluated exactly once against the ground truth (and region of interest) of its own index and stream, counted by distinct index, archived unmodified under its own name if requested, and never modified; a rejected output leaves no trace; group metrics are the sums over the batches; resetting clears everything; a new processing phase counts afresh.',
     ['inputs','histories'],'trees of 2 groups with 0-2 sub-directories and 4 sets of skip tokens, 1-2 batches of 3 packets of 2 pixels and 2 pushes of any index with all values, 2 streams, 3 kinds of evaluation','tests push perfect or empty outputs in order',
     [D+'include/litiv/datasets.hpp',D+'include/litiv/datasets/eval.hpp',D+'src/utils.cpp',D+'src/eval.cpp',D+'src/metrics.cpp'],[dict(name='Dataset_, IDataConsumer_, MetricsEvaluator and IIMetricRetriever',where=D+'include/litiv/datasets/eval.hpp')],note='directory listing, image files and codecs replaced by stand-ins; report writing, parallel (GLSL) evaluation and the dataset-specific parsers excluded')
    P('C24','Shape context descriptors count every contour point once, in its bin, for every pixel asked for',
     'For every binary image: the descriptor of a pixel counts each other contour point within reach exactly once, in the bin of its distance and direction (in image space or relative to the mean distance, relative to the contour centre if rotation invariant), also with a single radial bin; nothing else is counted. Dense maps, keypoint maps and descriptor lists hold the same descriptors in the places asked for, whatever the extractor described before and whatever the output held; normalization yields unit descriptors; without keypoints exactly the (unmasked) contour points are described. The ground distances between bins are those of the bins. Invalid parameters and inputs are rejected.',
     ['inputs','histories'],'images of up to 7x11 pixels with up to 4 isolated contour points of any non-null value, 4 layouts of bins, 5 earlier uses, keypoints at 40 positions','tests describe one image and compare sums',
     ['modules/features2d/src/SC.cpp','modules/features2d/include/litiv/features2d/SC.hpp','modules/utils/src/opencv.cpp'],[dict(name='ShapeContext and lv::getLogPolarMask',where='modules/features2d/src/SC.cpp')],note='positions are forked, not symbolic; contours of connected regions (OpenCV) and the earth mover distance solver excluded')
    P('N01','PAWCS classifies by its local and global words','A pixel is background exactly when the weights of the matching words reach its threshold; word weights and feedback states stay finite and within their bounds over every sequence of frames.',['inputs','histories'],'frames of at least 5x5','tests do not cover it',['modules/video/src/BackgroundSubtractorPAWCS.cpp'],[dict(name='BackgroundSubtractorPAWCS',where='modules/video/src/BackgroundSubtractorPAWCS.cpp')],na='per-pixel dictionaries of floating-point weights that are sorted, decayed and merged in every frame: thousands of symbolic float divisions and comparisons for a single 5x5 frame, out of reach of the solver')
    P('N02','Cosegmentation and registration matching never increases its energy','Every inference step of the segmentation matcher returns labels within range whose energy is not above the initial one.',['inputs'],'image pairs','tests run one or two pairs',['modules/imgproc/src/SegmMatcher.cpp'],[dict(name='SegmMatcher',where='modules/imgproc/src/SegmMatcher.cpp')],na='needs the OpenGM/SoSPD inference library, which is not part of this build, so there is no code to encode')
    P('N03','Virtual PTZ cameras look where they are told','Pan, tilt, zoom and elapsed-time dependent positions stay within limits and projections to and from the panorama are inverse to each other.',['inputs','histories'],'all orientations','tests do not cover it',['modules/vptz/src/virtualptz.cpp'],[dict(name='vptz::Camera',where='modules/vptz/src/virtualptz.cpp')],na='spherical projections in floating-point trigonometry on top of OpenGL rendering, neither of which can be encoded')
    P('N04','GPU implementations agree with the processor implementations','Shader and CUDA versions of the algorithms return what the processor versions return.',['inputs'],'all images','no device in the tests',['modules/imgproc','modules/features2d','modules/video'],[dict(name='GLSL and CUDA sources',where='modules')],na='GLSL and CUDA programs run on a device that does not exist here and have no intermediate representation to execute symbolically')
    P('N05','Parallel loops are free of data races','Loops that are parallelized with OpenMP give the same result for every number and schedule of threads.',['schedules'],'all schedules','tests run a few schedules',['modules/imgproc/src/imgproc.cpp','modules/video/src'],[dict(name='omp parallel loops',where='modules')],na='OpenMP outlining hands iterations to a run-time library that the executor does not model; loops are encoded sequentially')
