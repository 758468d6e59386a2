#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties) from the table below."""
import json, os
D = "decoder/"
P = []


def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [D + f for f in files],
                          "state": [{"name": a, "meaning": b} for a, b in state],
                          "mechanism": [{"name": a, "where": D + b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})


SMOKE = "The two smoke tests decode one mono sine stream with the default settings; "

p("P01", "Every allocation failure is reported cleanly and nothing leaks",
  "Whichever of the caller-supplied allocations made while creating a decoder fails, creation returns a fatal error instead of crashing, and deleting the decoder afterwards releases every block that was handed out exactly once and nothing else. The same holds for deletion after creation, after initialisation and at any point of decoding, and between creation and deletion the decoder never writes outside the blocks it was given and never asks for more memory.",
  ["fault_sequences", "histories"], "every index of the failing allocation x every stage at which the decoder is deleted",
  SMOKE + "no allocation ever fails there and nothing looks at what is released.",
  ["impeghd_api.c", "impeghd_memory_standards.h"],
  [("memory table", "the blocks handed out by the caller's allocator, by purpose")],
  [("create", "impeghd_api.c: ia_mpegh_dec_create"), ("delete", "impeghd_api.c: ia_mpegh_dec_delete")],
  ["return codes of create and delete", "calls to the caller's malloc and free", "guard bytes round each block"])

p("P02", "Invalid creation parameters get their documented code and their default",
  "Each creation parameter (PCM word size, effect type, target loudness, output layout, preset) that is in range is used as given; one that is out of range makes creation return the non-fatal code documented for it while the decoder works on with that parameter's default. Other parameters given in the same call keep their effect, so the decoder behaves exactly like one created with the default in place of the bad value, and only a configuration with no bad value returns success.",
  ["configurations", "inputs"], "every value class of each parameter and every pair of parameters",
  SMOKE + "every parameter there is valid, so neither a code nor a default is ever produced.",
  ["impeghd_api.c", "impeghd_config_params.h", "impeghd_error_codes.h"],
  [("configuration", "the validated parameters the decoder works with")],
  [("parameter validation", "impeghd_api.c: ia_mpegh_dec_create")],
  ["return code of create", "output PCM, channel count and sample size of the decoder created"])

p("P03", "Decoder instances do not influence each other",
  "Any number of decoders alive in one process produce, in every interleaving of their create, initialise, execute and delete calls, exactly the output that each would produce alone. Using one after another has been deleted makes no difference either.",
  ["schedules", "histories"], "all interleavings of the API calls of two (and three) decoders over different streams and configurations",
  SMOKE + "one instance per process, so state shared between instances cannot show.",
  ["impeghd_api.c", "ia_core_coder_decode_main.c", "ia_core_coder_create.c"],
  [("per-instance memory", "everything an instance keeps lives in the blocks its caller allocated"), ("static tables", "constant after first use")],
  [("instance state", "impeghd_api.c: ia_mpegh_dec_create")],
  ["PCM, error codes and stream information of each instance", "contents of the other instance's memory around each call"])

p("P04", "Output does not depend on how the stream is cut into deliveries",
  "For every way of cutting a packetised stream into successive deliveries to the initialise and execute calls, the concatenated PCM, the stream information and the number of frames are the same as when it is delivered whole. A call whose delivery ends inside a packet returns the code that asks for more input, and sending the same bytes again together with new ones continues as if they had been complete from the start; no call consumes a negative number of bytes or more than it was offered, or modifies the bytes offered.",
  ["schedules", "inputs"], "every single cut position of short streams, every pair of cuts within a window, every fixed delivery size",
  SMOKE + "always delivered in full input buffers.",
  ["impeghd_api.c", "impeghd_mhas_parse.c", "ia_core_coder_bitbuffer.c"],
  [("bytes consumed", "how much of the offered input a call used"), ("bit buffer", "read position and bytes left")],
  [("insufficient input unwinding", "impeghd_api.c: ia_mpegh_dec_execute"), ("packet parsing", "impeghd_mhas_parse.c: impeghd_mhas_parse")],
  ["PCM stream", "bytes consumed per call", "return codes"])

p("P05", "Output is a function of the stream and the parameters only",
  "What the decoder outputs and reports depends on the stream and the creation parameters alone: not on what the memory it is given contained before, not on where it lies, and not on what is left in its working memory between two calls. It never modifies the bytes of the stream it is given.",
  ["inputs", "configurations"], "a set of initial memory contents and alignments x streams x configurations, with scratch memory overwritten between calls at every frame",
  SMOKE + "memory is whatever the C library returns, mostly zero.",
  ["impeghd_api.c", "ia_core_coder_decode_main.c"],
  [("persistent memory", "state kept between calls"), ("scratch memory", "valid within one call only"), ("input buffer", "read only")],
  [("clearing at creation", "impeghd_api.c: ia_mpegh_dec_create")],
  ["PCM, error codes and stream information", "bytes of the input buffer"])

p("P06", "All PCM word sizes carry the same samples, saturated, at full frames",
  "For a given stream the 16, 24 and 32 bit outputs are the same samples up to the truncation of the narrower word, little endian and interleaved in channel order, and samples beyond full scale saturate to the nearest representable value instead of wrapping. Each execute call yields whole frames: a number of bytes that is a multiple of channels x word size.",
  ["inputs", "configurations"], "word sizes x streams with enumerated amplitudes from silence to far beyond full scale, both signs, with and without the limiter in the path",
  SMOKE + "only 16 bit and only moderate amplitude is compared.",
  ["ia_core_coder_decode_main.c", "impeghd_api.c"],
  [("output buffer", "interleaved PCM")],
  [("sample conversion", "ia_core_coder_decode_main.c"), ("output size", "impeghd_api.c: ia_mpegh_dec_execute")],
  ["PCM bytes", "number of output bytes", "reported word size"])

p("P07", "Output layout reported matches the layout produced",
  "The channel count, sampling rate, word size and speaker description reported with the output describe the PCM that is produced: without a target layout those of the stream's reference layout, given as a layout index or as a list of speakers, with a target layout those of the target. Each channel of the stream, whatever mixture of single, paired and LFE elements carries it, appears in the output channel reported for its speaker and in no other, and every call puts out whole sample frames.",
  ["configurations", "inputs"], "every channel-based reference layout the decoder supports x every composition of elements, speaker lists, every target layout; every channel with a signal of its own",
  SMOKE + "one channel only; layouts and channel order are never looked at.",
  ["impeghd_cicp_2_geometry.c", "impeghd_cicp_2_geometry_rom.c", "impeghd_api.c", "ia_core_coder_decode_main.c", "ia_core_coder_init_config.c"],
  [("reference layout", "speakers, their positions and LFE flags"), ("output channel map", "order of the output channels")],
  [("layout tables", "impeghd_cicp_2_geometry.c"), ("report", "impeghd_api.c: ia_mpegh_dec_init"), ("output map", "ia_core_coder_decode_main.c")],
  ["channel count, sampling rate, speaker info structures", "PCM per channel"])

p("P08", "Format conversion is a fixed, safe map for every layout pair",
  "For every pair of stream layout and target layout, a channel played alone comes out in each output through one fixed, real, non-negative gain per frequency bin; a speaker present in both layouts feeds its own output alone and unchanged, every other non-LFE channel reaches the outputs with between 15 percent and twice its energy, left/right mirrored channels give left/right mirrored outputs, and no non-LFE channel reaches an LFE output. Several channels at once come out as the sum that these gains predict, with the energy per band restored within the converter's limits, in every frame.",
  ["configurations", "inputs"], "every (stream layout, target layout) pair the decoder accepts x every input channel over the whole band x mixtures",
  SMOKE + "no target layout is ever given, so the format converter never runs.",
  ["impeghd_format_conv_init.c", "impeghd_dmx_mtx.c", "impeghd_format_conv_rom.c", "ia_core_coder_process.c", "ia_core_coder_decode_main.c"],
  [("downmix matrix", "gain per input, output and band"), ("rule table", "conversion rules by layout"), ("band energies", "smoothed over frames")],
  [("matrix design", "impeghd_format_conv_init.c"), ("active downmix", "ia_core_coder_process.c")],
  ["PCM of every output channel", "speakers reported"])

p("P09", "Resampled output has the right length, level and spectrum",
  "A stream at 32, 24 or 16 kHz (29.4, 22.05 or 14.7 kHz) can be output at 48 (44.1) kHz: the sample count is scaled by exactly the rate ratio, 3/2, 2 or 3, over any whole number of frames; a tone in the pass band keeps its frequency and level, its images stay far below it, and the result is one symmetric (linear-phase) filter applied to the whole signal of each channel, without any discontinuity at frame boundaries and without anything of one channel, or of another stream, in another.",
  ["inputs", "configurations"], "every supported sampling rate x impulse positions through two frames x tones across the band x channel counts",
  SMOKE + "the stream is at 48 kHz so the resampler never runs.",
  ["impeghd_resampler.c", "impeghd_resampler_rom.c", "impeghd_api.c", "ia_core_coder_decode_main.c"],
  [("resampler state", "filter memory and phase carried from frame to frame")],
  [("polyphase filter", "impeghd_resampler.c"), ("rate selection", "ia_core_coder_init_config.c")],
  ["PCM samples", "output bytes per call", "reported sampling rate"])

p("P10", "The peak limiter bounds peaks and touches nothing else",
  "Where the limiter is active no output sample exceeds its threshold whatever the signal; a signal that stays below the threshold comes out unchanged except for a fixed delay, and channels are attenuated together, by a gain that never exceeds one and recovers smoothly. State carries across frames so that the output does not depend on where frame boundaries fall.",
  ["inputs", "histories"], "all short level patterns over a grid of amplitudes, positions and channels, across frame boundaries, plus every frame split of each",
  SMOKE + "its level never reaches the threshold.",
  ["impeghd_peak_limiter.c", "impd_drc_peak_limiter.h"],
  [("limiter state", "delay line, maximum filter and smoothed gain")],
  [("limiter", "impeghd_peak_limiter.c")],
  ["PCM samples", "limiter output"])

p("P11", "Loudness and dynamic range metadata are applied as transmitted",
  "With a target loudness and a stream that carries a DRC configuration and a programme loudness, the output is scaled by exactly their difference in decibels (targets count in whole dB), for every value either can take; the programme loudness is taken from the loudness block that applies, scene or album as asked for, in the order of preference of the measurement methods and systems. Without a target the level is unchanged. Gain sequences (node times, gains, frame-end and no-node forms) and their modifiers are decoded to the transmitted gains and applied, linearly interpolated, to the channels and bands they address and to no others, at the transmitted times, for the DRC set that the requested effect, target and layout select. A ducking set acts beside it on the channels it addresses (its own, or the others) with their scaling, and without a ducking set a fading set acts on whatever is played; a set against clipping is raised by the room the target leaves and never above 0 dB.",
  ["inputs", "configurations"], "every coded programme loudness x a grid of target loudness values x word sizes; gain-sequence payloads enumerated by coding profile and value",
  SMOKE + "the sample carries no loudness or DRC data of interest and no target is set.",
  ["impd_drc_loudness_control.c", "impd_drc_gain_dec.c", "impd_drc_dynamic_payload.c", "impd_drc_static_payload.c", "impd_drc_process.c", "impd_drc_extr_delta_coded_info.c", "ia_core_coder_decode_main.c"],
  [("loudness info", "programme loudness and method"), ("gain sequence", "nodes of time, gain and slope")],
  [("loudness normalisation", "impd_drc_loudness_control.c"), ("gain decoding", "impd_drc_gain_dec.c")],
  ["PCM level"])

p("P12", "Packets the decoder does not need leave the decoded audio unchanged",
  "Inserting any packet that carries no audio or configuration (fill data, sync, sync gap, markers, CRC, descriptors, user interaction, buffer information, unknown or reserved types, loudness information between frames), of any length that the input buffer can hold and at any packet boundary, leaves the PCM bit for bit the same. So do extension elements and configuration extensions of kinds the decoder does not know, and any label or length that takes the long form of its variable-length field.",
  ["inputs", "programs"], "every packet type x lengths around each field-width boundary x every packet boundary of the stream, alone and in pairs; every unknown extension type x length form x place among the elements",
  SMOKE + "only the few packet types and short lengths that occur in the sample are met.",
  ["impeghd_mhas_parse.c", "impeghd_mhas_parse.h"],
  [("packet header", "type, label, length")],
  [("packet dispatch", "impeghd_mhas_parse.c: impeghd_mhas_parse"), ("escaped values", "impeghd_mhas_parse.c: impeghd_mhas_escapedvalue")],
  ["PCM samples", "bytes consumed", "error codes"])

p("P13", "Bit fields are read exactly and never beyond the data delivered",
  "A field of any width at any bit position of the stream yields exactly those bits, most significant first, in order, and skipping moves by exactly the number of bits skipped. A read that would need bits beyond the data delivered never yields invented data silently: it stops the call with a request for more input, or an error, and touches no byte beyond the delivered ones.",
  ["inputs"], "every width 1..32 x every bit offset x every remaining length, and every short sequence of widths",
  SMOKE + "only widths and alignments that the sample happens to contain.",
  ["ia_core_coder_bitbuffer.c", "ia_core_coder_bitbuffer.h"],
  [("bit buffer", "base, end, read pointer, bit position, bits left")],
  [("read", "ia_core_coder_bitbuffer.c: ia_core_coder_read_bits_buf")],
  ["value and position after each read", "memory accesses"])

p("P14", "Truncated or corrupted streams never break memory safety or hang",
  "Whatever bytes are offered as a stream, every initialise and execute call returns, having consumed no more than it was offered, written only inside its own memory and read only the bytes delivered, with no undefined arithmetic that can trap. The output never exceeds the output buffer, and the decoder can still be deleted afterwards with nothing leaked.",
  ["inputs", "fault_sequences"], "every truncation point of each sample's head, every single-bit and selected byte-value corruption of headers and frames of samples and synthesised streams",
  SMOKE + "the streams are well formed.",
  ["impeghd_api.c", "impeghd_mhas_parse.c", "ia_core_coder_headerdecode.c", "ia_core_coder_init_config.c", "ia_core_coder_decode_main.c", "ia_core_coder_process.c", "ia_core_coder_ext_ch_ele.c", "impeghd_metadata_preprocessor.c"],
  [("bit buffer", "bytes delivered"), ("parsed counts", "numbers read from the stream that index fixed arrays")],
  [("bounds checks", "impeghd_mhas_parse.c"), ("error unwinding", "impeghd_api.c")],
  ["sanitizer reports", "return codes, bytes consumed, output bytes"])

p("P15", "Decoding can start at any independent frame and reconfigure at any point",
  "From an independently decodable frame that follows a configuration on, the output no longer depends on what was decoded before, once the overlap with the preceding frame has run out. A configuration that repeats the current one changes nothing, and one that differs switches to the new stream as if it were decoded alone, with nothing of the old configuration left over.",
  ["histories", "programs"], "all ordered sequences of short stream segments from a set of configurations and contents, cut at every independent frame",
  SMOKE + "one configuration, decoded from its start.",
  ["ia_core_coder_decode_main.c", "impeghd_api.c", "ia_core_coder_decode_main.c", "ia_core_coder_create.c"],
  [("previous configuration", "what a new configuration packet is compared with"), ("overlap memory", "second half of the previous window")],
  [("configuration change", "ia_core_coder_decode_main.c")],
  ["PCM samples", "stream information", "error codes"])

p("P16", "Object metadata decodes to the transmitted positions and gains",
  "Every object metadata payload the syntax allows decodes to exactly the azimuth, elevation, radius, gain, spread and priority that were encoded, for intra-coded frames with individual, common or fixed parameters and for dynamic frames in absolute or differential form relative to what preceded. What a frame or sub-frame leaves out stays in force, and each object keeps its own history.",
  ["inputs", "histories"], "every code word of each field, all flag combinations, all frame-type sequences up to a depth, one to several objects, metadata frames of 256, 512 and 1024 samples, in the low-delay form the profile uses",
  SMOKE + "no objects at all.",
  ["impeghd_oam_dec.c", "impeghd_oam_dec_ld.c", "impeghd_obj_ren_dec.c"],
  [("object metadata", "position, gain, spread, priority per object and sub-frame")],
  [("efficient decoding", "impeghd_oam_dec.c"), ("low-delay decoding", "impeghd_oam_dec_ld.c")],
  ["decoded metadata values", "rendered PCM level per speaker"])

p("P17", "Object panning is power preserving, local and continuous",
  "For every direction and every output layout the gains by which an object is panned are finite, non-negative and of unit power (up to the transmitted gain), use no LFE, and put an object in a speaker's own direction entirely into that speaker. They are symmetric for mirrored directions and change continuously with the direction, in every direction including behind, above and below. Objects that accompany channels come out as they would alone, added to the channels' output.",
  ["inputs", "configurations"], "the full grid of coded azimuths and elevations x every output layout",
  SMOKE + "no objects at all.",
  ["impeghd_obj_ren_vbap.c", "impeghd_obj_ren_dec.c"],
  [("triangle mesh", "speaker triples and their inverse matrices"), ("gains", "per speaker and object")],
  [("mesh", "impeghd_obj_ren_vbap.c"), ("gain interpolation", "impeghd_obj_ren_dec.c")],
  ["panning gains", "rendered PCM per speaker"])

p("P18", "Scene displacement rotates every object rigidly",
  "For every head orientation the directions of displaced objects are the original directions turned by the inverse of that orientation: angles between objects and distances are preserved, no rotation leaves them unchanged, a yaw adds to the azimuth alone, and resulting angles lie in their defined ranges.",
  ["inputs"], "a grid of yaw x pitch x roll over their full ranges x a grid of object directions, and every coded displacement value",
  SMOKE + "no objects and no displacement.",
  ["impeghd_scene_displacement.c"],
  [("displacement", "yaw, pitch, roll and offsets")],
  [("rotation", "impeghd_scene_displacement.c")],
  ["object positions after displacement"])

p("P19", "User interaction affects only the elements and ranges it may",
  "Switching a group on or off, changing its gain or its position through user interaction or a preset changes that group only, by exactly the requested amount limited to the range the stream allows, and a group that forbids an interaction ignores it. Exactly one member of a switch group is audible, and with no interaction the stream's defaults apply.",
  ["inputs", "configurations"], "every combination of permission flags, ranges and requested values for small scenes of groups, switch groups and presets",
  SMOKE + "no interaction data.",
  ["impeghd_ele_interaction_intrfc.c", "impeghd_metadata_preprocessor.c", "impeghd_mhas_parse.c"],
  [("scene description", "groups, switch groups, presets with permissions and ranges")],
  [("interaction", "impeghd_metadata_preprocessor.c")],
  ["group gains, mutes and offsets", "PCM per group"])

p("P20", "Scene-based audio is the sound field described, rendered by a fixed matrix",
  "The coefficient signals of a scene are what its side information describes: ambient coefficients from their transport channels, directional and vector-based signals spread by direction or vector, spatial prediction from the directional signals, gain corrections undone, and changes from frame to frame cross-faded, never leaving anything of an earlier frame behind. They are rendered to the loudspeakers by a fixed linear matrix per order and layout that feeds no LFE, treats mirrored loudspeakers alike, places waves where they come from, preserves energy, and depends on neither the sampling rate nor the layout the scene was made for. Beside channels and objects the output is the sum of what each part gives alone.",
  ["inputs", "configurations", "histories"], "orders x side information of every kind and every transition between kinds x layouts, together with channels and objects",
  SMOKE + "no scene-based content.",
  ["impeghd_hoa_dec_init.c", "impeghd_hoa_spatial_decoder.c", "impeghd_hoa_renderer.c", "impeghd_hoa_render_mtrx.c", "impeghd_hoa_matrix.c", "impeghd_hoa_frame.c", "impeghd_hoa_ch_reassignment.c", "impeghd_hoa_dir_based_pre_dom_sound_syn.c", "impeghd_hoa_vector_based_predom_sound_syn.c", "impeghd_hoa_inverse_dyn_correction.c", "ia_core_coder_decode_main.c"],
  [("rendering matrix", "loudspeaker by coefficient"), ("previous frame", "signals, vectors, predictions and gains carried over")],
  [("matrix design", "impeghd_hoa_renderer.c"), ("spatial decoding", "impeghd_hoa_spatial_decoder.c"), ("mixing", "ia_core_coder_decode_main.c")],
  ["PCM per loudspeaker"])

p("P21", "Binaural output is the loudspeaker signals convolved with the responses supplied",
  "With headphone output every loudspeaker signal is convolved with the pair of responses the caller supplied for the loudspeaker at that place, delayed by a constant, and all are summed into exactly two channels, scaled like the loudspeaker output would be: for every response length, number of diffuse blocks, layout and history of frames, with no trace of the block structure. The samples are at the rate reported. Responses at another rate, or that lack one of the loudspeakers, are refused. A further configuration within the stream starts anew.",
  ["inputs", "configurations"], "every response length x number of diffuse blocks x layout of channels x layout of responses x histories of sounding frames x forms of the response file x word sizes, target layouts, target loudness, kinds of content, second configurations",
  SMOKE + "no binaural output.",
  ["impeghd_binaural.c", "impeghd_binaural_renderer.c", "impeghd_binaural_filter_design.c", "impeghd_fft.c", "impeghd_ifft.c", "impeghd_api.c", "ia_core_coder_decode_main.c"],
  [("filter state", "overlap and spectra carried from block to block")],
  [("block convolution", "impeghd_binaural_renderer.c"), ("response file", "impeghd_binaural.c")],
  ["the two PCM channels", "error code", "reported channels and rate"])

p("P22", "Transform-coded frames reconstruct the transmitted spectrum exactly",
  "Each spectral line transmitted in a frame comes out as the cosine the standard assigns to it, with the transmitted scale factor and sign, for every line, level and transform length and for all four transform kernels; the fast algorithms agree with the direct formulas to within single-precision rounding.",
  ["inputs"], "every spectral line of the long and of each short transform x kernels, all sizes and positions of the fast Fourier transforms used",
  SMOKE + "one tone excites a handful of lines.",
  ["ia_core_coder_imdct.c", "ia_core_coder_fwd_alias_cnx.c", "impeghd_fft.c", "impeghd_ifft.c", "impeghd_fft_ifft_rom.c"],
  [("spectrum", "dequantised lines")],
  [("inverse transform", "ia_core_coder_imdct.c")],
  ["PCM samples"])

p("P23", "Every legal window sequence overlaps to alias-free output",
  "For every sequence of window types and shapes that the syntax allows the windows of successive frames overlap so that time aliasing cancels: a signal analysed with the matching windows comes back unchanged, with unit gain at every sample, at every transition between long, start, short, stop and stop-start windows and between shapes, in any grouping of short windows.",
  ["programs", "inputs"], "all window sequence/shape histories up to a depth of frames, all 128 groupings",
  SMOKE + "a stationary tone uses long windows only.",
  ["ia_core_coder_windowing.c", "ia_core_coder_imdct.c", "ia_core_coder_rom.c", "ia_core_coder_channel.h"],
  [("overlap memory", "second half of the previous frame"), ("previous window", "type and shape of the previous frame")],
  [("windowing and overlap-add", "ia_core_coder_imdct.c")],
  ["PCM samples"])

p("P24", "Entropy coding returns every coded spectrum and scale factor exactly",
  "Any sequence of quantised spectra, scale factors and context resets that an encoder following the standard can write is decoded to exactly those values: every magnitude from zero to the largest escape, every neighbourhood context including the change of transform length and of bandwidth from frame to frame, every scale factor difference. Dequantised lines are the four-thirds power of the value times the scale-factor gain.",
  ["inputs", "histories"], "all values around each escape boundary, all pairs of neighbouring values on a grid, all sequences of window length, bandwidth and reset up to a depth, every scale factor difference",
  SMOKE + "one tone produces few distinct values and contexts.",
  ["ia_core_coder_arith_dec.c", "ia_core_coder_huff_tools.c", "ia_core_coder_spectrum_dec.c", "ia_core_coder_rom.c"],
  [("arithmetic context", "neighbouring magnitudes of this and the previous transform")],
  [("arithmetic decoding", "ia_core_coder_arith_dec.c"), ("scale factors", "ia_core_coder_huff_tools.c")],
  ["PCM samples"])

p("P25", "Joint stereo and multichannel tools invert the encoder's transform",
  "For every band and every combination of mid/side flags, prediction coefficients and rotation angles the two output channels are the inverse of the encoder's combination of the two transmitted ones, in exactly the bands flagged, whatever the windows and groupings. Channels that are not part of a pair are untouched.",
  ["inputs", "configurations"], "all mask modes, every band alone and all band patterns over a window of bands, every prediction coefficient and angle index, window types and groupings",
  SMOKE + "one channel only.",
  ["ia_core_coder_ext_ch_ele.c", "ia_core_coder_process.c", "impeghd_multichannel.c", "ia_core_coder_decode_main.c"],
  [("mid/side mask", "flag per group and band"), ("prediction coefficients", "per group and band")],
  [("stereo processing", "ia_core_coder_ext_ch_ele.c"), ("multichannel coding tool", "impeghd_multichannel.c")],
  ["PCM samples of both channels"])

p("P26", "Noise shaping, long-term and frequency-domain prediction follow the syntax",
  "Temporal noise shaping filters, the long-term postfilter, frequency-domain prediction and noise filling act only in frames and bands for which they are transmitted, with exactly the transmitted parameters, and leave every other frame, band and channel as it is without them. Their effect is that of the standard's formulas for every coefficient, order, direction, lag and level.",
  ["inputs", "histories"], "every coefficient, order, length and direction; every lag and gain; on/off histories up to a depth; every noise level and offset",
  SMOKE + "the sample uses at most one of these tools in one setting.",
  ["ia_core_coder_tns.c", "ia_core_coder_ltpf.c", "ia_core_coder_spectrum_dec.c", "ia_core_coder_ext_ch_ele.c", "ia_core_coder_arith_dec.c"],
  [("filter memory", "past output and parameters"), ("prediction memory", "past spectra")],
  [("noise shaping", "ia_core_coder_tns.c"), ("postfilter", "ia_core_coder_ltpf.c")],
  ["PCM samples"])

p("P27", "Raw frames with side configuration decode like the packetised stream",
  "The same configuration and frames decode to the same PCM whether they arrive as a packet stream or as raw access units with the configuration delivered first, under every grouping of packets into calls that the interface allows.",
  ["inputs", "configurations"], "streams x both transports x sampling rates and layouts",
  SMOKE + "the raw transport is exercised with one mono stream.",
  ["impeghd_api.c", "ia_core_coder_decode_main.c", "ia_core_coder_headerdecode.c"],
  [("transport flag", "packetised or raw")],
  [("raw configuration", "impeghd_api.c: ia_mpegh_dec_init")],
  ["PCM samples", "stream information"])

p("P28", "Exactly the configurations within the supported profile are accepted",
  "A configuration header whose profile and level, sampling rate, frame length, layout, signal group types, numbers of signals, groups, elements and extensions, or element tools lie outside the supported set is refused with an error before any output; one within it is accepted and decoded with exactly the values it carries, through every length of its variable-length fields and whatever optional parts (lengths of elements, extension elements, configuration extensions of any length, compatible profiles) surround them.",
  ["inputs", "configurations"], "every value of each header field, every pair of fields over boundary values, every encoding length of the variable fields",
  SMOKE + "four valid configurations exist, one of them is run.",
  ["ia_core_coder_headerdecode.c", "ia_core_coder_init_config.c", "ia_core_coder_headerdecode.h", "ia_core_coder_decode_main.c"],
  [("configuration", "what the header was decoded to")],
  [("header parsing", "ia_core_coder_init_config.c")],
  ["return codes of initialise", "reported stream information", "PCM"])

p("P29", "Metadata handed to an external renderer mirrors the decoded stream",
  "With the external rendering interface enabled, the channel, object and scene metadata and the PCM handed out describe exactly what the stream carries: the same numbers of signals, the same positions and gains, bit by bit in the documented syntax, in every frame, and enabling the interface does not change the rendered output.",
  ["inputs", "configurations"], "channel, object and mixed configurations x metadata values x frames",
  SMOKE + "the interface is never enabled.",
  ["impeghd_ext_rend_intrfc.c", "impeghd_ext_rend_intrfc_util.c", "impeghd_api.c"],
  [("external rendering buffers", "metadata and PCM for each kind of content")],
  [("metadata writer", "impeghd_ext_rend_intrfc.c")],
  ["external rendering buffers", "PCM"])

p("P30", "A transmitted downmix matrix maps the channels as it is written",
  "When a stream carries a downmix matrix for the requested loudspeaker layout, every output channel is the sum of the input channels weighted with exactly the gains and equalisers written for them, whatever optional coding the matrix uses (symmetric or separable outputs, templates, run lengths, gain lists, precisions, ranges), whatever its length and place among other matrices; matrices for other layouts, or of an earlier configuration, have no effect.",
  ["inputs", "configurations", "histories"], "layout pairs x codings of the matrix x gains x equalisers x place in the configuration x configuration before",
  SMOKE + "no stream with a downmix matrix exists.",
  ["impeghd_dmx_mtx.c", "impeghd_dmx_mtx_data.h", "ia_core_coder_init_config.c", "ia_core_coder_decode_main.c", "impeghd_format_conv_rom.c"],
  [("downmix configuration", "matrices and their layouts"), ("gains per bin", "downmix_mat_freq")],
  [("matrix decoder", "impeghd_dmx_mtx.c: impeghd_decode_downmix_matrix"), ("its use", "ia_core_coder_decode_main.c")],
  ["PCM", "return codes"])

p("P31", "A transmitted rendering matrix turns the scene into sound as it is written",
  "When a scene comes with a rendering matrix for the requested loudspeaker layout, every loudspeaker plays the sum of the scene's coefficient signals weighted with exactly the gains and signs written for it, whatever optional coding the matrix uses (equal or mirrored pairs, sparse coefficients, limits per order, precisions, normalisation) and whatever its place among other matrices; matrices for other layouts, or of an earlier configuration, have no effect.",
  ["inputs", "configurations", "histories"], "orders x layouts x codings of the matrix x gains x place in the configuration x configuration before",
  SMOKE + "no stream with a scene exists.",
  ["impeghd_hoa_matrix.c", "impeghd_hoa_render_mtrx.c", "ia_core_coder_init_config.c", "impeghd_hoa_decoder.c"],
  [("rendering matrix", "gains per coefficient and loudspeaker")],
  [("matrix decoder", "impeghd_hoa_matrix.c: impegh_decode_hoa_matrix_data"), ("its use", "impeghd_hoa_render_mtrx.c: impeghd_hoa_ren_mtrx_init_with_mtrx_param")],
  ["PCM", "return codes"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
