"""Property -> harness configuration."""
SKIP_SOURCES={'cuda.cpp','opengl-draw.cpp','opengl-imgproc.cpp','opengl-shaders.cpp','opengl.cpp','SLIC.cpp','SegmMatcher.cpp'}
COMMON_ASSUMPTIONS=[
 'IR compiled by clang 18 at -O1 without OpenMP (parallel-for regions executed sequentially); x86-64-v3',
 'libopencv and libstdc++ machine code replaced by the models in /verif/stubs (trusted; counterexamples are replayed on the real libraries)',
 'bounds: exactly those listed per harness entry; nothing is claimed outside them']
def E(name,bounds,**k): return dict(name=name,bounds=bounds,**k)
PROPS={}
PROPS['C01']=dict(groups=[dict(harness='h_dist.cpp',mods=['utils'],entries=[
  E('h_l1_scalar','all pairs of 8/16/32-bit signed and unsigned integers',cover=['end']),
  E('h_l2_scalar','all pairs of 8/16-bit signed and unsigned integers',cover=['end']),
  E('h_l1_float','all pairs of finite-difference floats/doubles',cover=['end']),
  E('h_chan','1-4 channels u8, 3 channels i16/u16, all values',cover=['end']),
  E('h_elems8','0-3 elements x 1-4 channels u8, any mask',cover=['end']),
  E('h_elems16','0-2 elements x 1-4 channels u16, any mask',cover=['end']),
  E('h_elems_many','63 elements of 5 types, one of them free at 7 positions, with or without mask',cover=['end']),E('h_elems_huge','90000 8-bit or 700 16-bit elements, one of them free',cover=['end']),E('h_ham_many','3-40 words of 8/16/32/64 bits, one of them free at every position',cover=['end']),
  E('h_badch','run-time channel counts 0-9',cover=['end']),
  E('h_l2root','1-4 channels u8, 2 elements, any mask',cover=['end']),
  E('h_ham','all 8/16/32/64-bit words',cover=['end']),
  E('h_hamN','2-4 words of 8/16/32/64 bits',cover=['end']),
  E('h_cdist','3 channels u8, all values',cover=['end']),
  E('h_cdist4','2 and 4 channels u8, all values',cover=['end']),
  E('h_cdist_elems','2 elements x 3 channels u8, any mask',cover=['end'])])])
PROPS['C02']=dict(groups=[dict(harness='h_simd.cpp',mods=['utils'],entries=[
  E('h_cmp','all pairs of 128-bit words',cover=['end']),E('h_hsum','all 128-bit words',cover=['end']),E('h_hminmax','all 128-bit words',cover=['end']),
  E('h_store','0-4 blocks of 16 bytes, any previous content',cover=['end']),E('h_unpack','all 128-bit words',cover=['end']),E('h_mult8','all pairs of 16-byte vectors',cover=['end']),E('h_mult32','all pairs of 4x32-bit vectors',cover=['end']),
  E('h_pow2','all 8/16/32/64-bit integers',cover=['end']),E('h_fastrand','all seeds, 3 consecutive draws',cover=['end']),E('h_fastrand_vec','all generator states, 2 consecutive draws, 4 output modes',cover=['end']),
  E('h_extend','field sizes 1-8 extended to at most twice the size, plus 10->16 and 16->32, all values',cover=['end']),E('h_expand','all 8/16/32/64-bit words, word sizes 1-16',cover=['end']),E('h_digits','integers of magnitude below 100000',cover=['end']),E('h_digits64','64-bit integers within 1 of a power of ten or of a type limit',cover=['end'])])])
PROPS['C03']=dict(groups=[dict(harness='h_buf.cpp',mods=['modules/utils/src/cxx.cpp'],entries=[
  E('h_buf_ops','static capacity 2, initial size 0, 2 or 3, every sequence of 4 (thorough: 5) operations with sizes 0, 1, 3 or 5, all element values',tbudget=800,cover=['end']),
  E('h_buf_xfer3','static capacities 2 and 3, sizes 0-5, every transfer kind',cover=['end']),E('h_buf_xfer_same','equal static capacities 2, sizes 0-5, every transfer kind',cover=['end']),E('h_buf_copyctor','sizes 0-5',cover=['end']),
  E('h_buf_at','sizes 0-4, all 32-bit signed and 64-bit unsigned indices',cover=['end']),E('h_buf_at_narrow','256 elements, all 8-bit indices',cover=['end']),E('h_alvec','0-5 elements',cover=['end']),
  E('h_lut','tables of 5-9 bins, 0-2 safety bins, every float in the domain',cover=['end'])])])
PROPS['C05']=dict(groups=[dict(harness='h_algo.cpp',mods=['modules/utils/src/cxx.cpp'],entries=[
  E('h_sort','0-4 signed 16-bit values',cover=['end']),E('h_unique','0-3 signed 16-bit values',cover=['end']),E('h_unique_big','20 values, two of them free',cover=['end']),E('h_nn','0-5 reference values',cover=['end']),
  E('h_interp','4 knots, gaps 1-2, integer slopes in [-9,9], every abscissa',cover=['end']),E('h_interp_dom','abscissae -5..9',cover=['end']),E('h_range','start in [-100,100], length up to 6, steps -1..3; all 8-bit starts',cover=['end']),E('h_linspace','0-4 points, integer end points on a 5x7 grid',cover=['end']),
  E('h_vec','arrays of 0-3 values',cover=['end']),E('h_sums','0-5 values',cover=['end']),E('h_det','3x3 and smaller, entries in [-50,50]',cover=['end']),E('h_lu_d','4x4 matrices of doubles, 3 patterns, 5 free entries of 3 values',cover=['end']),E('h_lu_f','the same with floats',cover=['end']),E('h_lu_i','the same with integers',cover=['end']),E('h_inv3','3x3, 6 free entries of 3 values',cover=['end']),E('h_inv','2x2, entries in [-2,2], determinant 0 or +-1',thorough=True,cover=['end']),
  E('h_sort_big','17, 33 and 40 values, one of them out of 43',cover=['end']),E('h_vec_big','37 and 19 values, one of them out of 125',cover=['end']),E('h_sums_big','50 values, one of them free',cover=['end']),E('h_interp_big','9 knots, 24 requests, any offset',cover=['end']),E('h_str_big','strings of 15-40 characters, one of them free, tokens of 1-40 characters',cover=['end']),
  E('h_clamp','strings of 0-4 characters, sizes 0-5',cover=['end']),E('h_lower','ASCII strings of 0-2 characters',cover=['end']),E('h_token','strings of 0-3, tokens of 0-2 characters',cover=['end']),E('h_putf','text lengths around the 1024-byte internal buffer',cover=['end'])])])

T=['-nomerge','-ctx',2,'-spur',1]; T3=['-nomerge','-ctx',4,'-spur',2]
PROPS['C06']=dict(groups=[dict(harness='h_sync.cpp',mods=['modules/utils/src/cxx.cpp'],entries=[
  E('h_sem_wait','2 waiters, 1-2 notifiers, initial count 0-2, all schedules with at most 2 preemptions and 1 spurious wake-up',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),E('h_sem_try','2 threads, initial count 0-2',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),E('h_sem_timed','2 timed waiters, 1 notifier, any time-out order',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),
  E('h_unlock','single thread',cover=['end']),
  E('h_pool1','1 worker, 2 tasks, any task may throw, all schedules with at most 2 preemptions and 1 spurious wake-up',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),E('h_pool1_get','same, results collected before destruction',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),
  E('h_pool2','2 workers, 2 tasks',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),E('h_pool2_get','2 workers, 2 tasks, results collected before destruction',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),E('h_pool_empty','2 workers, no task',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True),E('h_pool_fifo','1 worker, 3 tasks',cover=['end'],opts=T,topts=T3,tbudget=800,threads=True)])])

PROPS['C07']=dict(groups=[dict(harness='h_lbsp.cpp',mods=['modules/features2d/src/LBSP.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[
  E('h_thr','all 16-pixel neighbourhoods, references and thresholds',cover=['end']),E('h_single1','7x6 image, all pixel values and positions',cover=['end']),E('h_single3','7x6 image, 3 channels',cover=['end']),
  E('h_dense1_abs','6x6 image, threshold 0-300, optional reference',cover=['end']),E('h_dense3_abs','6x5 image, 3 channels',cover=['end']),E('h_dense1_rel','5x5 image, 3 relative thresholds, offset 0-300',cover=['end']),E('h_dense3_rel','5x5 image, 3 channels, relative threshold 0.365, offset 17',cover=['end'],cost=50,budget=420),
  E('h_dense1_big','37x7 image with one free pixel, absolute or relative thresholds, optional reference',cover=['end']),E('h_dense3_big','37x7 image, 3 channels, absolute threshold',cover=['end']),E('h_dist_big','21x3 descriptor images of 1 or 3 channels, one pixel free',cover=['end']),E('h_grad','all 3-channel neighbourhoods',cover=['end']),E('h_dist','1-4 channels, all descriptors',cover=['end']),E('h_diffimg','1 or 3 channels, all descriptors',cover=['end']),E('h_roi','4x4 to 6x6, all values',cover=['end']),E('h_reject','5 kinds of bad input',cover=['end'])])])

PROPS['C04']=dict(groups=[dict(harness='h_mat.cpp',mods=['modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[
  E('h_size','0-3 dimensions, sizes 0-255, 4 ways of construction',cover=['end']),E('h_size_neg','all negative 32-bit values',cover=['end']),E('h_type','8 depths, 1-6 channels',cover=['end']),E('h_info','all sizes up to 255, 3 types, 4 scale factors',cover=['end']),
  E('h_pack','0-3 matrices out of 7 layouts (empty, 1/3 channels, 16-bit, float, 3-d, non-continuous views), all contents',cover=['end']),E('h_unpack_bad','packets of 0-16 bytes, declared sizes up to 4x4',cover=['end']),
  E('h_equal','pairs of 5 layouts, all contents',cover=['end']),E('h_near','pairs of 4 layouts, all contents, epsilon 0-40',cover=['end']),E('h_unique','1x4 matrix and 2x2 view, all contents',cover=['end'],opts=['-nomerge']),E('h_kpts','2 keypoints in [-2,4]^2, 3x3 ROI, all contents',cover=['end']),
  E('h_equal_big','5x43 matrices of 3 types, one element free, epsilon 0-40',cover=['end']),E('h_pack_big','4-6 matrices of up to 16x32 elements of 6 types, one of them empty, one byte free',cover=['end']),E('h_shift_big','7x38 matrices of 1 or 3 channels, one element free, 15 offsets, 3 fill modes',cover=['end']),E('h_submat','2x3x4 matrix, every range in every dimension',cover=['end']),E('h_basic','4x4 matrix of 1-3 channels, 3x2 views',cover=['end']),E('h_concat','1-3 matrices of 2x3',cover=['end']),
  E('h_clamp_px','all 32-bit coordinates, images up to 30x30, borders 0-5',cover=['end']),E('h_neigh3','all non-negative indices, 9x9 image, border 0-2',cover=['end']),E('h_neigh5','all non-negative indices, 9x9 image, border 0-2',cover=['end']),E('h_neigh_all','all indices',cover=['end']),E('h_samp3','all non-negative indices, 9x9 image, border 0-2',cover=['end']),E('h_samp7','all non-negative indices, 9x9 image, border 0-2',cover=['end']),
  E('h_copyvalid','4x3 to 3x2 images, every ROI placement, optional mask, all contents',cover=['end']),E('h_copyvalid2','4x3 to 2x3 images',cover=['end']),E('h_copyvalid_bad','every ROI placement',cover=['end']),E('h_shift','4x3 matrix, all integer offsets, 3 fill modes, in place',cover=['end']),E('h_subpix','3x3 matrix, 4-bit values, 12 positions at multiples of 1/4 inside and around it',cover=['end'],cost=9),
  E('h_ycbcr','2x19 image, one free pixel in vectorized and scalar columns',cover=['end']),E('h_align','3 rows of 1-20 elements of 3 types',cover=['end'])])])

PROPS['C12']=dict(groups=[dict(harness='h_eval.cpp',mods=['modules/datasets/src/metrics.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[
  E('h_bc_count','4 pixels in 2 shapes, all values of result, ground truth and ROI, any previous counters',cover=['end']),E('h_bc_mask','4 pixels in 2 shapes, all values',cover=['end']),E('h_bc_reject','12 input kinds, with and without ground truth',cover=['end']),E('h_bc_merge','all 64-bit counters',cover=['end']),E('h_bc_array','0-2 streams on each side, all 64-bit counters',cover=['end']),
  E('h_disp','2 pixels (one free), all 36 type pairs, all values',cover=['end']),E('h_bc_big','7x53 maps with one free pixel, with or without ROI',cover=['end']),E('h_disp_big','5x23 maps of 3 types with one pixel out of 4 values and a free ROI',cover=['end']),E('h_disp_reject','12 input kinds',cover=['end']),E('h_disp_merge','0-2 errors, 0-2 streams',cover=['end'])])])

PROPS['C13']=dict(groups=[dict(harness='h_eval.cpp',mods=['modules/datasets/src/metrics.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[
  E('h_formulas','TP, TN, FP, FN each 0-5, any special-error and don\'t-care counts',cover=['end']),E('h_formulas_big','counters from {0, 7, 2000003, 2^32+15, 2^40}',cover=['end']),E('h_zero','all 64-bit counters with an empty class',cover=['end']),
  E('h_disp_bad','0-3 errors at multiples of 1/8 up to 5, 4 margins',cover=['end']),E('h_disp_avg','0-3 errors out of 5 values',cover=['end']),E('h_avg_bin','4 calculators, metric values 0-3, 3 associations',cover=['end']),E('h_avg_arr','4 calculators of 2 streams, 3 associations',cover=['end']),E('h_avg_disp','4 calculators of 2 streams, 3 associations',cover=['end']),E('h_calc','3 kinds of calculators',cover=['end'])])])

W=['-nomerge','-ctx',2,'-spur',0,'-tmo',1]; W3=['-nomerge','-ctx',4,'-spur',1,'-tmo',2]
SB='every schedule with at most 2 preemptions and 1 early time-out (thorough: 4, 2, and 1 spurious wake-up)'
PROPS['C14']=dict(groups=[dict(harness='h_data.cpp',defs=['-DLITIV_VERIF_CACHE_MIN_SIZE=4'],mods=['modules/datasets/src/utils.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[
  E(n,b+'; '+SB,cover=['end'],opts=W,topts=W3,tbudget=800,threads=True) for n,b in [
   ('h_w_block','queue of 4 bytes, 3 packets of 1-3 symbolic bytes, 1 worker, blocking'),('h_w_drop','the same with packet dropping'),('h_w_same','2 packets, equal or different indices, 1 worker'),('h_w_same3','3 packets over 2 indices with dropping, 1 worker'),
   ('h_w_two','2 packets, 2 workers, blocking'),('h_w_throw','3 packets, one write fails, stopped explicitly or by destruction'),('h_w_throw2','2 packets, both writes fail'),('h_w_sync','inactive writer, minimum sizes, oversized packets'),
   ('h_p_seq','buffer of 4 bytes, 5 packets of 1-2 symbolic bytes, in order, past the end'),('h_p_any','3 packets, 3 requests in any order, past the end included'),('h_p_big','packets as large as the buffer'),('h_p_off','precaching off, 3 requests'),
   ('h_p_restart','2 restarts, any request in between'),('h_p_slow','a loader taking 6 s at any of 3 packets'),('h_p_throw','a loader failing at any of 3 packets, 0-3 requests, explicit stop or destruction')]]
  +[E('h_p_long','buffer of 5 bytes, 14 packets of 1-3 bytes (one of them free), in order or with a jump; schedules without preemption',cover=['end'],opts=['-nomerge','-ctx',0,'-spur',0,'-tmo',0],threads=True),E('h_w_long','queue of 5 bytes, 11 packets of 1-3 bytes, blocking or dropping; schedules without preemption',cover=['end'],opts=['-nomerge','-ctx',0,'-spur',0,'-tmo',0],threads=True)]
  +[E('h_w_three','3 packets, 2 workers, dropping; every schedule with at most 1 preemption, no early time-out',cover=['end'],opts=['-nomerge','-ctx',1,'-spur',0,'-tmo',0],budget=700,threads=True,thorough=True)])])
PROPS['C20']=dict(groups=[dict(harness='h_load.cpp',defs=['-DLITIV_VERIF_CACHE_MIN_SIZE=4'],mods=['modules/datasets/src/utils.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[
  E('h_cnt_hist','every history of 4 operations (count one of 3 indices, stop, reset, read)',cover=['end']),
  E('h_cnt_wait','0-2 packets, a reader blocked on the final count; '+SB,cover=['end'],opts=W,topts=W3,threads=True),
  E('h_grp_sum','0-2 batches and an optional nested group of 0-1 batches at every position, all 32-bit counts',cover=['end']),
  E('h_grp_parse','0-2 sub-directories out of 3 names, 0-2 skip tokens, 2 parent paths (directory listing replaced by a stand-in)',cover=['end']),
  E('h_ld_in','raw packets 2x2, 1x2, 4x4 with 1, 3 or 4 channels to every announced size and type, all pixel values',cover=['end']),E('h_ld_gt','the same for ground truth',cover=['end']),E('h_ld_empty','empty and announced-empty packets',cover=['end']),
  E('h_ld_arr','1-2 streams, 3 packets, 3 requests in any order, an optional empty stream',cover=['end']),E('h_ld_arr_gt','the same for ground truth streams',cover=['end']),E('h_ld_type','3 packet types, single or array loaders, input or ground truth',cover=['end']),E('h_ld_arr2','input and ground truth arrays, 2 requests each, 4 kinds of inconsistency',cover=['end']),E('h_ld_feat','3 feature requests, packed or split in 2 ways, 2 indices',cover=['end']),
  E('h_ld_stop','array request before and after precaching is stopped; '+SB,cover=['end'],opts=W,topts=W3,threads=True)])])

IM=['modules/imgproc/src/imgproc.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp']
PROPS['C09']=dict(groups=[dict(harness='h_imgproc.cpp',mods=IM,entries=[
  E('h_thin_zs44','all contents of 4x4 images, Zhang-Suen',cover=['end']),E('h_thin_lls44','all contents of 4x4 images, Lam-Lee-Suen',cover=['end']),
  E('h_thin_zs45','all contents of 4x5 images',cover=['end'],budget=400),E('h_thin_lls45','all contents of 4x5 images',cover=['end'],tbudget=850,thorough=True),
  E('h_thin_big_zs','8x9 solid shapes with 2 symbolic pixels in any of 4 rows (several iterations)',cover=['end']),E('h_thin_big_lls','8x9 solid shapes with 2 symbolic pixels in any of 4 rows (several iterations)',cover=['end']),
  E('h_thin_rect_zs','every rectangle of a 9x10 image, with or without an isolated line elsewhere, Zhang-Suen',cover=['end']),E('h_thin_rect_lls','the same, Lam-Lee-Suen',cover=['end']),E('h_thin_topo','all binary 4x4 images',cover=['end']),E('h_thin_idem_zs','all binary 4x5 images',cover=['end']),E('h_thin_idem_lls','all binary 4x4 images',cover=['end']),E('h_thin_bad','5 kinds of unsupported images',cover=['end'])])])
PROPS['C10']=dict(groups=[dict(harness='h_imgproc.cpp',mods=IM,entries=[E(n,b,cover=['end']) for n,b in [
  ('h_hist8','4 8-bit elements, all values'),('h_hist8m','4 elements, all values and masks'),('h_hist8w','18 elements of which 4 symbolic, all masks'),('h_hist16','3 16-bit elements out of 7 values'),('h_hist16m','the same with all masks'),
  ('h_med8','4 elements out of 4 values'),('h_med8m','3 elements out of 4 values, every mask'),('h_med16','2 16-bit elements, every mask'),
  ('h_mblur12','1x3 image, kernel 3, all values, every mask'),('h_mblur22','2x2 image, kernel 3'),('h_mblur14','1x4 image, kernel 5'),('h_mblur13_full','2x2 image without mask (replicated border)'),
  ('h_bmed_f','3x4, kernel 3, converted input'),('h_bmed_r','4x3, kernel 3, binary input'),('h_bmed_w','2x18, kernel 3'),('h_bmed_mw','2x18, kernel 3, all masks'),('h_bmed_m','3x3, kernel 3, all masks'),('h_bmed_m5','2x4, kernel 5, all masks'),('h_bmed_5','2x4, kernel 5'),
  ('h_cons_f','3x3, kernel 3, all count maps'),('h_cons_r','2x4, kernel 3, binary input'),('h_integ1','2x3, 1 channel, all masks'),('h_integ3','2x3, 3 channels, all masks'),('h_integ_raw','2x3, binary integral without conversion'),
  ('h_bad','7 kinds of invalid arguments, 5 functions'),('h_bad2','4 kinds of invalid arguments, 2 functions'),
  ('h_nms13','1x4, window 1'),('h_nms22','2x3, window 1'),('h_nms33','3x3, window 1'),('h_nms2','1x5, window 2'),('h_nms_m','2x3, window 1, every mask'),('h_nms_m15','1x5, window 1, every mask'),
  ('h_hist_big','23x47 images with one free pixel, 8 and 16 bits, with or without mask'),('h_med_big','13x21 images with one free pixel, with or without mask'),('h_win_big3','9x37 images with one free pixel, kernel 3, with or without mask'),('h_win_big9','12x35 images, kernel 9'),('h_win_big17','18x19 images, kernel 17'),('h_mblur_big','7x12 images with one pixel out of 4 values, kernel 5'),('h_integ_big','12x41 images with one free pixel'),('h_nms_big1','8x11 images with one free pixel, window 1'),('h_nms_big2','9x13 images, window 2'),
  ('h_lmax1','3x3 maps of bytes'),('h_lmax2','5x5 maps of 16-bit values')]])])
PROPS['C21']=dict(groups=[dict(harness='h_aff.cpp',mods=IM,entries=[E(n,b,cover=['end']) for n,b in [
  ('h_ssd1','2x3 images, 1x1 patches, 6 disparity ranges, all regions of interest'),('h_ssd3','3x5 images, 3x3 patches'),('h_ssd3b','4x4 images, 3x3 patches'),('h_ssd_any','1 pixel, all values'),('h_mi','3x4 images, 3x3 patches, 4 contents, 3 disparities, all regions of interest'),
  ('h_ssd_big1','7x23 images, 1x1 patches, 5 or 17 disparities, one free pixel of the regions of interest'),('h_ssd_big5','the same with 5x5 patches'),('h_d_big1','4x13 maps of 5 values, single pixels, 2 or 9 disparities, regions of interest'),('h_d_big5','the same with 5x5 windows'),('h_rm_big','5x29 images of 1 or 3 channels, one free pixel'),
  ('h_d1','2x4 descriptor maps, single pixels, 6 disparity ranges'),('h_d1r','1x4 maps, single pixels, all regions of interest'),('h_d3','3x4 maps, 3x3 windows'),('h_d3r','2x3 maps, 3x3 windows, all regions of interest in one image'),('h_d3r2','2x2 maps, 3x3 windows, all regions of interest'),('h_d5r','1x4 maps, 5x5 windows, all regions of interest'),('h_dseq','two calls with different sizes and windows'),('h_dseq2','two calls of the same size, 3 kinds of ROI and 2 windows each, 3 offsets, into the same or a new map'),('h_rej','12 invalid uses'),('h_rejd','12 invalid uses'),
  ('h_td1','2x3 gray images, 8x8 displacements at each pixel'),('h_td3','2x3 colour images'),('h_tdrej','11 invalid uses'),('h_rm1','2x3 gray images, all values, 7x5 integer offsets at each pixel, constant or replicated border'),('h_rm3','2x3 colour images'),('h_rmrej','4 invalid uses')]])])
PROPS['C11']=dict(groups=[dict(harness='h_mi.cpp',mods=['modules/features2d/src/MI.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[E(n,b,cover=['end']) for n,b in [
  ('h_ld10','1-3 x 1-4 byte views, offset (1,0), all values'),('h_ld01','offset (0,1)'),('h_ld21','16-bit, offset (2,1)'),('h_ld12','32-bit, offset (1,2)'),('h_ldsmall','1-row images of 1-40 columns, offset (3,1)'),
  ('h_ld_big','7x41 images and views, one free pixel, 4 offsets'),('h_mi_big','5x23 images, 5 variants, 2 value ranges, one pixel out of 3 values'),
  ('h_mi_sp','3 pixels out of 3 values each, sparse'),('h_mi_spn','4 pixels out of 2 and 3 values, sparse, normalized'),('h_mi_de','3 pixels out of 3 values, dense'),('h_mi_den','4 pixels out of 2 and 3 values, dense, normalized'),('h_mi_q','3 pixels, steps of 2, sparse, normalized'),('h_mi_dq','3 pixels, steps of 3, dense'),('h_mi_skip','3 pixels, full-range histograms, unsigned and signed bytes'),('h_mi_fast','3 pixels, fast approximation, sparse, normalized'),('h_mi_dfast','3 pixels, fast approximation, dense, steps of 2'),('h_mi_us','4 pixels, 16- and 8-bit, sparse'),('h_mi_int','3 pixels, 32- and 16-bit signed, steps of 4'),('h_mi_rej','3 invalid pairs'),
  ('h_mi_win','windows of 1-3 x 1-3, every keypoint of a 4x5 image and around it, exact or off by 0.4, normalized or not, dense or sparse'),('h_mi_winrej','10 invalid uses'),('h_mi_roi','ROIs of 3-5 x 3-6, all values, windows of 1-3 x 1-3'),('h_mi_kp','half-pixel keypoints in and around a 6x7 image')]])])
VM=['modules/video/src/'+f for f in ('BackgroundSubtractionUtils.cpp','BackgroundSubtractorLBSP.cpp','BackgroundSubtractorViBe.cpp','BackgroundSubtractorLOBSTER.cpp','BackgroundSubtractorSuBSENSE.cpp')]+['modules/features2d/src/LBSP.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp']
RND='any values returned by rand()'
PROPS['C15']=dict(groups=[dict(harness='h_video.cpp',mods=VM,entries=[E(n,b,cover=c) for n,b,c in [
  ('h_vb_init1','1x6 images, all values, '+RND,['end']),('h_vb_px1','1 gray pixel, 3 samples, all values, thresholds 0-90, 0-3 required, 4 learning rates, '+RND,['end']),('h_vb_px3','1 colour pixel, 2 samples out of 6 colours at and around the threshold, 0-2 required, 4 learning rates, '+RND,['end']),
  ('h_vb_grid13','1x3 frames (continuous or views), 1 sample, all values, '+RND,['end']),('h_vb_grid22','2x2 frames (continuous or views), 1 sample, all values, '+RND,['end']),('h_vb_spread','4x5 frame with one background pixel at 4 places, '+RND,['end','neighbour','self']),
  ('h_vb_big1','19x6 frame, 20 samples of which 2 match in places, one free pixel, no update',['end']),('h_vb_big3','the same in colour, one pixel out of 343 colours',['end']),
  ('h_vb_bgimg','2 pixels, 4 samples out of 4 values',['end']),('h_vb_gray3','1x2 gray or colour initialization of a colour model, all values',['end']),('h_vb_reject','13 uses of which 11 invalid',['end'])]])])
PROPS['C16']=dict(groups=[dict(harness='h_video.cpp',mods=VM,entries=[E(n,b,cover=['end']) for n,b in [
  ('h_roi_valid','ROIs of 4-7 x 5-6 pixels, all values'),('h_roi_init_l','8x7 images, 171 ROIs (every single pixel, alone or with other regions; full), LOBSTER'),('h_roi_init_s','the same with SuBSENSE'),('h_roi_set','5 orders of setROI and initialize, equal, different or transposed sizes'),
  ('h_rej_l','15 invalid uses, LOBSTER'),('h_rej_s','15 invalid uses, SuBSENSE'),('h_rej_ctor','6 sample counts'),('h_view_l','5x5 output view at 12 places of an 8x7 canvas, LOBSTER'),('h_view_s','the same with SuBSENSE')]])])
PROPS['C17']=dict(groups=[dict(harness='h_video.cpp',mods=VM,entries=[E(n,b,cover=c,budget=320) for n,b,c in [
  ('h_lo_px1','5x5 gray initialization and frame, all values, learning rate 1, '+RND,['end']),('h_lo_px1b','the same with learning rate 2 and other thresholds',['end']),('h_lo_px3','5x5 colour frame, all values, fixed initialization, learning rates 1 and 2, '+RND,['end']),
  ('h_lo_mask1','uniform 11x11 gray frames, 4 initializations, all values',['end']),('h_lo_mask3','uniform 11x11 colour frames, 4 initializations, all values',['end']),('h_lo_multi','5x5 gray frame, 2 samples of any colour and descriptor, 1-2 required, all values, 2 learning rates, '+RND,['end']),
  ('h_lo_big1','18x15 gray frame, 35 samples of which 2 match in places, whole mask, no update',['end']),('h_lo_big3','the same in colour',['end']),
  ('h_lo_spread','7x6 frame, learning rate 2, '+RND,['end','neighbour']),('h_lo_absorb','2 samples, 3 frames, 3 models, 1-2 required, learning rate 1, '+RND,['end']),
  ('h_lo_refresh','1 analysed pixel, 3 samples, 4 fractions, foreground or not, forced or not, '+RND,['end']),('h_lo_refresh2','2 analysed pixels, 1 sample, every foreground mask, '+RND,['end']),('h_lo_refresh3','1 analysed colour pixel, 1 sample, '+RND,['end'])]])])
PROPS['C18']=dict(groups=[dict(harness='h_video.cpp',mods=VM,entries=[E(n,b,cover=c,budget=400) for n,b,c in [
  ('h_su_px3','5x5 colour frame: 5 free neighbours of one channel, 5 centre values, 3 offsets of the others, fixed initialization, '+RND,['end']),('h_su_px1','5x5 gray initialization and frame, all values, learning rate 1, first frame, '+RND,['end']),
  ('h_su_range1','second gray frame with 2 contents, any update rate 4-512 and variation factor 0.1-64, 2 distance factors, foreground/blinking flags, 2 moving averages',['end']),('h_su_range3','the same with colour frames',['end']),
  ('h_su_mask1','uniform 11x11 gray frames, 4 initializations, 20 differences at and around the thresholds',['end']),('h_su_mask3','the same with colour frames',['end']),
  ('h_su_spread','7x6 frame, learning rate 2, '+RND,['end','neighbour']),('h_su_absorb','2 samples, 3 frames, 3 models, 1-2 required, learning rate 1, '+RND,['end']),
  ('h_su_refresh','1 analysed pixel, 3 samples, 4 fractions, foreground or not, forced or not, '+RND,['end']),('h_su_refresh2','2 analysed pixels, 1 sample, every foreground mask, '+RND,['end']),('h_su_refresh3','1 analysed colour pixel, 3 samples, '+RND,['end'])]])])

FS=['-DLVFS_MODEL','-include','{V}/harness/lvfs.hpp']
PROPS['C08']=dict(groups=[dict(harness='h_arch.cpp',irflags=FS,mods=['modules/datasets/src/utils.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[E(n,b,cover=['end']) for n,b in [
  ('h_bin','8 layouts (1-3 channels, 8/16/32/64 bits, 3-d, non-continuous views in 2 and 3 dimensions), all contents, over an older archive, into 3 kinds of destination'),('h_cut','4 layouts, all contents, the file cut at every byte'),('h_hdr','every value of the element size and element count fields, 5 dimension counts'),
  ('h_full_bin','the device fills up at 4 places, or not at all'),('h_full_txt','the same for plain text'),('h_txt','7 layouts, all 8/16-bit contents, 32-bit integers and doubles from probe values'),('h_arch_bad','6 unusable paths and matrices'),
  ('h_out_img','3 kinds of image outputs, every ROI, pairs of 6 indices'),('h_out_bin','5 layouts, saving on or off'),('h_out_arr','1-2 streams, images or not, every ROI'),('h_out_fail','output directory missing'),('h_feat','pairs of 4 indices, arrays of 3 matrices')]])])
PROPS['C19']=dict(groups=[dict(harness='h_path.cpp',irflags=['-DLVFS_MODEL','-include','{V}/harness/lvdir.hpp'],mods=['modules/utils/src/platform.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[E(n,b,cover=['end']) for n,b in [
  ('h_files','5 name lists in arbitrary order, 0-4 entries of 4 kinds (file, directory, other, vanished), with or without . and .., with or without trailing slash, one entry created while listing'),('h_dirs','the same for subdirectories'),('h_nodir','missing directory or file in its place'),('h_exists','4 kinds of entries'),('h_mkdir','4 initial states, creation succeeds or fails'),
  ('h_slash','paths of 0-4 characters, all values'),('h_filter','2 paths of 3 characters, 0-2 tokens of 1-2 characters to remove and to keep, all values'),('h_prealloc','existing contents of 0-4 bytes or no file, 0-6 bytes requested'),('h_prealloc_bad','file cannot be created, device full')]])])

PROPS['C22']=dict(groups=[dict(harness='h_prod.cpp',mods=['modules/datasets/src/utils.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[E(n,b,cover=['end']) for n,b in [
  ('h_pr_vid','video files of 1-3 frames 2x4, gray or colour, aligned or not, scaled or not, parsed once or twice, 3 requests in any order and past the end, all pixel values'),('h_pr_dir','the same for directories of 2-3 frames'),('h_pr_vid1','the same for a directory holding one video'),('h_pr_none','6 unusable batches'),
  ('h_pr_gt','3 packets mapped to any of 3 ground truth indices or none, videos and image sets, 3 requests'),('h_pr_gt_bad','2 producers'),('h_pr_img','1-3 files of 4 kinds, a foreign file, aligned or not, scaled or not, 2 requests'),
  ('h_pr_varr','2 packets of 2 streams, any ground truth mapping, any request'),('h_pr_iarr','the same for image arrays')]])])

PROPS['C23']=dict(groups=[dict(harness='h_flow.cpp',irflags=FS,mods=['modules/datasets/src/utils.cpp','modules/datasets/src/metrics.cpp','modules/datasets/src/eval.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[E(n,b,cover=['end']) for n,b in [
  ('h_fl_tree','2 listed directories, 0-2 sub-directories, 6 sets of skip tokens (also ones that only occur in the path of the dataset)'),('h_fl_eval1','1 batch of 3 images (2 with ground truth), 2 pushes of any index, all values of outputs, ground truth and ROI, saving and evaluation on or off'),('h_fl_eval2','2 batches, 2 pushes'),
  ('h_fl_arr','2 streams, 2 pushes of any index, every ROI per stream, an optional malformed push'),('h_fl_stereo','2 streams, 2 pushes')]])])
PROPS['C24']=dict(groups=[dict(harness='h_sc.cpp',mods=['modules/features2d/src/SC.cpp','modules/utils/src/cxx.cpp','modules/utils/src/opencv.cpp'],entries=[E(n,b,cover=['end']) for n,b in [
  ('h_sc_bin','7x11 images, one contour point at 4 positions, 8x3 bins, every pixel described'),('h_sc_bin2','the same with 5x2 bins, non-null initial bins'),('h_sc_bin1','the same with 4x1 bins'),('h_sc_agree','6x9 images, 4 optional contour points, 3 keypoints, with or without normalization and initial bins, 4 earlier uses'),('h_sc_auto','3 optional contour points, 2 kinds of descriptors'),
  ('h_sc_rel','4 optional contour points, 3 keypoints, mean-normalized'),('h_sc_rot','the same, rotation invariant'),('h_sc_relrot','both'),('h_sc_kp','one keypoint at 40 positions of a 6x9 image, on and between pixels, 2 optional contour points'),('h_sc_emd','4 layouts, every pair of bins'),('h_sc_bad','11 invalid uses')]])])

