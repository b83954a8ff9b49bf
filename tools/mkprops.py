#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(obs), hook_needed=hook)))

ENC='src/rfxencode.c'; CMP='src/rfxencode_compose.c'; TIL='src/rfxencode_tile.c'
TESTS_ONLY='The 23 tests call the internal RLGR, DWT and quantisation routines on a few fixed blocks and run the encoder for timing; '

p('C01','Every message is well-formed RemoteFX, with exact lengths and counts',
  'Whenever an encode call succeeds, the bytes it returns are one complete message: the blocks of the RemoteFX stream (or, for an encoder created in progressive mode, of the RemoteFX Progressive stream) in their prescribed order with their prescribed types and constant fields, from first byte to last with nothing before, between or after. Every length and count written in the message (block lengths, tile data sizes, numbers of tiles, rectangles and quantisation tables, per-component lengths, with or without alpha) equals what is really there, and the size reported to the caller is exactly the size of the message.',
  ['inputs','configurations'],'every encoder configuration, image, tile list, region list, quantisation list, flag set and capacity for which the call succeeds',
  TESTS_ONLY+'no test looks at a composed message at all.',
  [CMP,'src/rfxcommon.h','src/rfxconstants.h',ENC],
  [('block composers and back-patched length fields',CMP),('stream_set_pos/stream_write macros','src/rfxcommon.h')],
  [('s.p','write position in the message','struct _STREAM, src/rfxcommon.h')],
  ['bytes and size returned by rfxcodec_encode / rfxcodec_encode_ex'])
p('C02','Messages carry exactly the regions, tiles and quants that were asked for',
  'A successful message repeats the request: every region rectangle in order, the quantisation tables given (or the single default table 66 66 77 88 98 when none is given), and for each tile, in request order, its grid column and row and its three quantisation indices. The stream header states the width, height and entropy mode the encoder was created with, and the value returned is the number of tiles in the message.',
  ['inputs','configurations'],'every request (number and coordinates of regions and tiles, number of tables, indices) and every encoder configuration',
  TESTS_ONLY+'no test compares a message with the request that produced it.',
  [CMP,ENC],[('rfx_compose_message_region / tileset / tile_*',CMP),('rfx_pro_compose_message_region',CMP),('rfx_compose_message_context / channels',CMP)],
  [('enc->mode, enc->properties','entropy mode announced to the client','src/rfxencode.h')],['message bytes, return value'])
p('C03','Stream header once and first; frame numbers consecutive',
  'In the sequence of messages an encoder delivers, the stream header (sync, context and, outside progressive mode, codec versions and channels) appears in front of the first frame and nowhere else, except that in progressive mode a key-frame request starts the stream anew with a header. Frames are numbered 0, 1, 2, ... without gap or repetition from each header on, however many calls are made and whatever each call contained.',
  ['histories'],'every history of successful and failing calls on an encoder, of any length, with and without key-frame requests',
  TESTS_ONLY+'the speed test makes repeated calls but never reads a frame number or header.',
  [ENC,CMP],[('header_processed / frame_idx handling in rfxcodec_encode_ex',ENC),('frame_begin composers',CMP),('rfxencode_reset_encoder',ENC)],
  [('frame_idx','number of the next frame','src/rfxencode.h'),('header_processed','header already delivered','src/rfxencode.h')],['message bytes of consecutive calls'])
p('C04','Memory is touched only inside the buffers the caller gave',
  'For every output capacity, from zero up, an encode call writes only inside the output buffer it was given and never reports more bytes than fit. It reads only the pixels of the requested tiles and the tables, rectangles and tiles it was given, and it modifies none of its inputs.',
  ['inputs','configurations'],'every capacity (in particular every one that ends inside or next to a block, header or component), image placement, tile position and size, and request',
  TESTS_ONLY+'each uses one ample output buffer, so no write near a limit is ever made.',
  [CMP,TIL,'src/rfxencode_diff_rlgr1.c','src/rfxencode_diff_rlgr3.c','src/rfx_bitstream.h','src/rfxencode_alpha.c'],
  [('stream_get_left checks',CMP),('TILE_SIZE_UPPER_LIMIT check',TIL),('CheckWrite / CodeGR size checks','src/rfxencode_diff_rlgr1.c'),('6 bytes kept back for the frame end',CMP)],
  [('s.size','capacity','struct _STREAM')],['guard pages around every buffer passed in; reported size'])
p('C05','A failed call has no effect on the stream',
  'When an encode call reports failure (too small a buffer, a tile with an unknown quantisation table or outside the tile grid, no memory), nothing of it is visible later: the next successful call delivers the message it would have delivered had the failing call not been made, header and frame number included, and in progressive mode still decodes against what the client holds. (A failing key-frame request may leave the encoder restarted, in which case the next message begins a new stream.) Requests with an unknown table index, an off-grid progressive tile, or more rectangles or tables than a message can count (65535 and 255) always fail.',
  ['histories','fault_sequences'],'every history in which calls fail for lack of space at any point, for invalid tiles anywhere in the list, or because an allocation fails at any point',
  TESTS_ONLY+'no test makes a call that fails.',
  [ENC,CMP],[('state saved and restored around a failing compose',ENC),('tiles validated before any history update',CMP),('history updated only after the tile fits',CMP)],
  [('frame_idx, header_processed','sequence state','src/rfxencode.h'),('rbs','per-tile history','src/rfxencode.h')],['messages before and after a failing call'])
p('C06','A short buffer yields a clean prefix, and resuming loses nothing',
  'If the buffer cannot take all requested tiles but the call succeeds, the message is complete and well-formed and holds a prefix of the requested tiles, the value returned says how many, and those tiles are encoded as they would be in an ample buffer. Asking again for the remaining tiles, as often as needed, delivers every tile exactly once with the same encoding. A message stops short only when the room left may not hold another tile or when it already has the 65535 tiles a message can count, so that a buffer with room for the worst case of every tile takes them all in one call.',
  ['inputs','histories'],'every capacity, tile list and sequence of resumed calls, in both modes, with and without alpha',
  TESTS_ONLY+'none gives a buffer that cannot take every tile.',
  [CMP,TIL],[('tiles_end_checkpoint / tile_end_pos',CMP),('check_and_rfx_encode',TIL)],
  [('tiles_written','tiles completed in this message',CMP)],['messages and return values of resumed calls'])
p('C07','RLGR1 and RLGR3 output is the prescribed code and loses nothing',
  'For every block of 4096 16-bit coefficients each entropy coder (RLGR1 and RLGR3, the plain and the combined differencing variant) emits exactly the bit string the adaptive run-length/Golomb-Rice scheme prescribes, padded with zero bits to a whole byte, so that a decoder recovers the coefficients (after undoing the differencing of the trailing low-frequency band) without loss. The differencing coders report failure, without writing past it, when the buffer is too small, and the result depends on nothing but the coefficients.',
  ['inputs'],'all coefficient blocks, including extreme values, runs ending at every position and every parameter state of the adaptive coder, and all buffer sizes',
  'The tests check three fixed blocks against recorded output lengths or bytes; the adaptive state space and extreme values are never reached.',
  ['src/rfxencode_rlgr1.c','src/rfxencode_rlgr3.c','src/rfxencode_diff_rlgr1.c','src/rfxencode_diff_rlgr3.c','src/rfx_bitstream.h','src/rfxencode_differential.c'],
  [('CodeGR / UpdateParam / OutputBits','src/rfxencode_rlgr1.c, src/rfxencode_rlgr3.c'),('bit accumulator and CheckWrite','src/rfxencode_diff_rlgr1.c, src/rfxencode_diff_rlgr3.c')],
  [('k, kp, krp','adaptive coder parameters','each coder')],['rfxcodec_encode_get_internals coders; tile payloads'])
p('C08','Acceleration changes speed only',
  'The bytes an encoder produces do not depend on which processor features are present nor on the no-acceleration flag: the plain C path and the SSE2 and SSE4.1 paths give identical messages for every request in every mode, and the individual accelerated transforms agree with the plain ones coefficient by coefficient.',
  ['inputs','configurations'],'all images, quantisation values, entropy modes and pixel formats, over all acceleration paths',
  'The tests compare the transforms on one or two fixed images with one quantisation table, and only on the machine they run on.',
  ['src/amd64/*.asm','src/x86/*.asm','src/amd64/rfxencode_tile_amd64.c','src/x86/rfxencode_tile_x86.c',TIL,ENC],
  [('path selection from cpuid and flags',ENC),('dwt_shift assembly','src/amd64, src/x86'),('diff_rlgr vs. differential+rlgr','src/rfxencode_diff_rlgr1.c')],
  [('enc->rfx_encode','selected path','src/rfxencode.h')],['messages of encoders created under different (simulated) CPUs'])
p('C09','RemoteFX tiles hold exactly the prescribed quantised wavelet bands',
  'Outside progressive mode, the coefficients coded for each colour component of a tile are those of the three-level 5/3 wavelet transform of its 64x64 samples, in the order HL1 LH1 HH1 HL2 LH2 HH2 HL3 LH3 HH3 LL3, each band divided, with rounding, by the power of two its own nibble of the selected quantisation table prescribes, the LL3 band differenced. Each component uses the table its own index selects.',
  ['inputs','configurations'],'all sample blocks, all quantisation tables (values 6 to 15 per band) and all index triples',
  'The tests transform one fixed image with one table and print or compare a checksum for the C routines.',
  ['src/rfxencode_dwt.c','src/rfxencode_quantization.c','src/rfxencode_differential.c',TIL,'src/amd64/*.asm'],
  [('rfx_dwt_2d_encode','src/rfxencode_dwt.c'),('rfx_quantization_encode','src/rfxencode_quantization.c'),('dwt_shift assembly','src/amd64')],
  [],['tile payloads; rfxcodec_encode_get_internals transforms'])
p('C10','Tile samples come from exactly the right pixels, converted as prescribed',
  'For the packed formats BGRA, RGBA, BGR and RGB every tile encodes the pixels of the image rectangle at its position, located by the stride given, converted to luma and chroma by the fixed-point ICT matrix with clamping; a tile narrower or lower than 64 is extended by repeating its last column and row. For the YUV format each tile encodes the three 64x64 planes stored for its tile position; pixels outside the requested tiles never influence the result.',
  ['inputs','configurations'],'all five formats, all pixel values, tile sizes 1..64 by 1..64, tile positions, strides (including padding) and surrounding pixels',
  TESTS_ONLY+'no test checks colour conversion or pixel addressing.',
  ['src/rfxencode_rgb_to_yuv.c',CMP],[('rfx_encode_format_rgb/argb','src/rfxencode_rgb_to_yuv.c'),('rfx_encode_rgb_to_yuv_tile','src/rfxencode_rgb_to_yuv.c'),('tile_data address',CMP)],
  [('y_r_buffer, u_g_buffer, v_b_buffer','samples of the current tile','src/rfxencode.h')],['tile payloads'])
p('C11','A standard client decodes each tile back to the picture',
  'Decoding a tile the way a RemoteFX or RemoteFX Progressive client does (entropy decode, undo differencing, dequantise, inverse wavelet, level shift) gives back every sample of the tile with an error no larger than the rounding of the quantisation table chosen can cause (plus two levels for the rounding of the transforms themselves). In particular a tile of uniform colour decodes to a uniform colour.',
  ['inputs','configurations'],'all tile contents and quantisation tables, both stream types',
  TESTS_ONLY+'the repository has no decoder, so nothing is ever decoded.',
  ['src/rfxencode_dwt.c','src/rfxencode_dwt_shift_rem.c','src/rfxencode_quantization.c','src/rfxencode_rlgr1.c','src/rfxencode_rlgr3.c'],
  [('forward transforms matched to the client\'s inverse','src/rfxencode_dwt.c, src/rfxencode_dwt_shift_rem.c')],[],['tile payloads decoded by the specification\'s client'])
p('C12','The alpha plane is carried without loss',
  'When alpha is requested for a format that has it, every tile carries its 64x64 alpha plane (extended like the colours) in the planar run-length code or raw, and decoding that gives back exactly the alpha values of the image, whatever they are; its length field covers exactly the bytes of the alpha data. Asking for alpha does not change the colour components of the tile.',
  ['inputs','configurations'],'all alpha planes (run lengths, literal lengths, row deltas of every size), the formats BGRA, RGBA and YUV, partial tiles',
  TESTS_ONLY+'no test encodes alpha.',
  ['src/rfxencode_alpha.c',TIL,'src/rfxencode_rgb_to_yuv.c'],[('fdelta / fpack / fout','src/rfxencode_alpha.c'),('raw fallback','rfx_encode_plane, src/rfxencode_alpha.c')],
  [('a_buffer','alpha samples of the current tile','src/rfxencode.h')],['alpha part of tile payloads'])
p('C13','Progressive difference tiles always match what the client holds',
  'In progressive mode, a client that starts from zero, replaces a tile position\'s coefficients on a plain tile and adds to them on a difference tile holds, after every delivered message, exactly the coefficients of the latest image sent for that position; positions never influence each other. This holds over every history of encodes, repeated positions, changed quantisation tables, partially filled messages, failing calls and key frames, at every position of the 64x64 tile grid.',
  ['histories','fault_sequences'],'every history of calls on a progressive encoder and every assignment of images to tile positions',
  TESTS_ONLY+'progressive mode is not run by any test that checks output.',
  [CMP,ENC],[('COEF_DIFF_COUNT and choice of difference',CMP),('history update after the tile is complete',CMP),('clear_encoder_rbs',ENC)],
  [('rbs[x][y]','coefficients the client holds','src/rfxencode.h')],['TILE_SIMPLE payloads and flags of consecutive messages'])
p('C14','Progressive tiles hold exactly the reduce-extrapolate bands',
  'The coefficients of a progressive tile are those of the three-level reduce-extrapolate 5/3 transform (bands 31x33, 33x31, 31x31, 16x17, 17x16, 16x16, 8x9, 9x8, 8x8, 9x9 of the three levels, in that order), each band quantised by its own nibble of the table its component\'s index selects, with the 81 LL3 values differenced, coded with RLGR1. A tile is sent as a difference from the previous one at its position exactly when that makes more of its coefficients outside the LL3 band zero.',
  ['inputs','configurations'],'all sample blocks, quantisation tables (6 to 15 per band) and index triples',
  TESTS_ONLY+'the progressive transform has no test.',
  ['src/rfxencode_dwt_shift_rem.c','src/rfxencode_diff_rlgr1.c',CMP],[('rfx_rem_dwt_shift_encode','src/rfxencode_dwt_shift_rem.c'),('rfx_encode_diff_rlgr1(..., 81)',CMP)],
  [],['TILE_SIMPLE payloads'])
p('C15','A progressive key frame starts over completely',
  'After any history, a key-frame request makes a progressive encoder behave exactly like a newly created one with the same parameters: its message and all messages after it are byte for byte those a new encoder would give for the same requests, so a client that joins at the key frame can decode everything from there on. A request without the key-frame flag never restarts the stream, and the flag has no effect outside progressive mode.',
  ['histories'],'every history before and after the key frame',
  TESTS_ONLY+'no test requests a key frame.',
  [ENC],[('rfxencode_reset_encoder',ENC),('clear_encoder_rbs',ENC)],[('all of struct rfxencode','encoder state','src/rfxencode.h')],['messages of the old and of a new encoder in lockstep'])
p('C16','Encoders are deterministic and independent of each other',
  'The messages of an encoder are a function of its parameters and the requests made to it alone: not of the previous contents of the output buffer, of the placement of buffers in memory, of bytes of the image outside the tiles, nor of other encoders, whether used alternately in one thread or at the same time in different threads. Outside progressive mode the encoding of a tile does not depend on tiles encoded earlier, in the same call or before.',
  ['schedules','histories','inputs'],'all interleavings of calls on several encoders, from one or several threads, and all irrelevant differences in the environment',
  TESTS_ONLY+'each uses a single encoder in one thread and never repeats a request.',
  [ENC,TIL,CMP,'src/rfx_bitstream.h'],[('all working storage inside struct rfxencode','src/rfxencode.h'),('bit writers that mask stale buffer bits','src/rfx_bitstream.h')],[],['messages of encoders run alone and interleaved'])
p('C17','Encoders are created and destroyed cleanly, or not at all',
  'Creating an encoder succeeds for each of the five pixel formats with any flags and fails with a distinct error for an unknown format or when there is no memory, never leaving anything allocated behind on failure; both creation functions agree. Destroying an encoder after any history gives back all memory it ever took, destroying a null handle is harmless, and memory in use stays bounded by the number of distinct progressive tile positions.',
  ['histories','fault_sequences','configurations'],'every format and flag value, every history before destruction and every failing allocation',
  TESTS_ONLY+'no test counts allocations or makes one fail.',
  [ENC,CMP],[('rfxcodec_encode_create_ex',ENC),('rfxcodec_encode_destroy / clear_encoder_rbs',ENC)],[('rbs','allocated histories','src/rfxencode.h')],['allocation and release calls of the library'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for r in P: f.write(json.dumps(r)+'\n')
