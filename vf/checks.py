"""The table of checks: property -> parts (harness runs), rule, level, technique, note."""
T_ENUM = "bounded exhaustive exploration of the real decoder (explicit enumeration of executions under a controlled environment)"
CHECKS = {}


def c(p, level, parts, rule, note, technique=T_ENUM, assumptions=(), **kw):
    parts = [({"harness": x} if isinstance(x, str) else x) for x in parts]
    CHECKS[p] = dict(level=level, parts=parts, rule=rule, note=note, technique=technique, assumptions=list(assumptions), **kw)


COMMON = ["streams are those of the synthesiser (harness/synth.h) and the repository's samples, within the stated bounds"]

c("P01", "fault_enumeration", ["p01"],
  "a case is one (allocation index that fails, stage of deletion, stream, settings) history; non-trivial when a fault was injected or the decoder was deleted mid-way",
  "every allocation-failure point x every deletion stage of bounded histories; guard bytes and a ledger of the caller's allocator as oracle",
  technique="exhaustive fault-point enumeration on the real decoder with a ledger-keeping allocator", assumptions=COMMON)
c("P02", "exploration", ["p02"],
  "a case is one assignment of creation parameters; non-trivial when at least one is out of range; compared with the decoder created with the default in its place",
  "all value classes of every parameter and every pair of parameters, oracle = documented code table and differential with defaults", assumptions=COMMON)
c("P03", "model_checking", ["p03"],
  "a case is one interleaving of the API calls of two or three decoders; non-trivial when calls of different instances alternate",
  "stateless model checking: all interleavings of the API calls of bounded histories, run on the real code; oracle = each instance alone, plus no write to static memory",
  technique="stateless model checking of API-call interleavings on the implementation", assumptions=COMMON)
c("P04", "exploration", ["p04"],
  "a case is one way of cutting a stream into deliveries; non-trivial when it needed more calls than the whole delivery",
  "every single cut, pairs of cuts in windows, every fixed delivery size, over the synthesised streams, 9 recorded streams of the other coding tools (linear prediction, gap filling, scenes) and 4 samples; oracle = delivery of the whole stream", assumptions=COMMON)
c("P05", "exploration", ["p05"],
  "a case is one (stream, settings) pair, run for every memory pattern, block offset and kind of overwriting between calls; non-trivial counts overwriting runs",
  "initial memory contents x offsets x overwriting of scratch, output and unread input between any two calls; oracle = zeroed memory left alone", assumptions=COMMON)
c("P06", "exploration", [{"harness": "p06", "flavour": "O0"}],
  "a case is one (layout, gain) or (stream, settings) point decoded at all three word sizes; non-trivial when samples saturate; transitions count samples compared with the model",
  "every coded gain from inaudible to 2^30 times full scale, three word sizes, built the way the repository builds; oracle = scaled low-gain output, clamped and cut; with other processing in the path the three words against each other",
  assumptions=COMMON + ["the path from spectrum to PCM is linear in the gain at 44.1 kHz, where no limiter runs"])

c("P12", "exploration", ["p12"],
  "a case is one stream with packets, extension elements or configuration extensions added; non-trivial counts decoded variants",
  "every packet type x length class x label x content x place, ordered pairs of types, loudness packets, every unknown extension type x length form x place, labels of all forms; oracle = the stream without them, bit for bit",
  assumptions=COMMON + ["packets no longer than the input buffer"])

MODEL = "direct double-precision model of the decoder written from the standard (harness/refdec.h), compared on every output sample"
T_MODEL = "bounded exhaustive enumeration of coded frames and frame sequences on the real decoder, each execution replayed in an executable model and compared sample by sample"
c("P15", "model_checking", [{"harness": "p15"}],
  "a case is one entry (stream, settings, frame, frames before it), one block of 16 subsets of frames with the configuration repeated, or one sequence of streams; non-trivial when decoded and compared; transitions count samples or frames compared",
  "the channel streams x 8 settings (and the recorded streams of the other coding tools as repeats and successors): started at every independent frame up to 12, alone or behind 1-2 (thorough 5) other frames, with and without the configuration again, compared with uninterrupted decoding over 48 frames; the configuration repeated before every subset of 5 (8) frames, with and without sync packets; every ordered pair of different configurations, cut after 1 (1-3) frames, and sequences X Y X (all triples), compared bit by bit with the streams decoded alone",
  technique="bounded exhaustive exploration of packet histories on the real decoder against the streams decoded alone", assumptions=COMMON + ["channel streams; noise filling (whose random sequence has no defined start) is left out of the entries; the long-term postfilter and the energies of layout conversion fade away within a bound"])
c("P16", "model_checking", ["p16"],
  "a case is one stream of object metadata frames: all values of all fields in one form, all differences of one width, 81 combinations of parameter forms, or all sequences of one first frame form; non-trivial when decoded and compared; transitions count metadata frames",
  "every value of every field in intra and absolute form, every difference of every width, all 3^6 forms of intra-coded frames each followed by absolute and differential frames, all sequences of 7 or 8 frame forms to depth 3 (thorough 4) x subsets of objects x metadata frame lengths x spread form x priority x 1-4 objects; oracle = the encoder's own values, as told to an external renderer, and bit-exact rendering of the plainly coded stream",
  technique="bounded exhaustive exploration of object metadata histories on the real decoder against the encoder's model of the decoder's state", assumptions=COMMON + ["low-delay metadata coding: the decoder declares the other form unsupported", "every frame carries a metadata payload"])
c("P17", "exploration", ["p17"],
  "a case is one layout (all directions; all spreads of one height) or one pair of stream and output layout; non-trivial when all its directions were played and their gains measured; transitions count directions",
  "all 241 x 61 coded directions on each of 18 layouts, 27 spread widths x heights x directions, stream layouts x output layouts x every coded gain and out-of-range directions; objects beside the channels of 17 layouts on every output layout; gains of 16 simultaneous objects recovered per output from the PCM, every sample checked against the mixture (and the linear transition between frames) they describe; oracle = unit power, sign, LFE, own speaker, mirror image, bounded change per degree",
  technique="bounded exhaustive enumeration of object directions played through the real decoder, gains recovered from the output and checked against the panning rules", assumptions=COMMON + ["listed speaker layouts", "one frame of unchanged position suffices to read the gains"])
c("P22", "exploration", ["p22"],
  "a case is one block of (spectral line, kernel, length, level) points, each a frame of a stream; transitions count frames compared with the model",
  "every spectral line x kernel x transform length x levels; oracle: " + MODEL, technique=T_MODEL, assumptions=COMMON)
c("P23", "model_checking", ["p23"],
  "a case is one sequence of window types, shapes and kernels; non-trivial when it contains a transition",
  "all legal window sequences to depth 4 (thorough 5) x shapes x kernels; oracle: " + MODEL + ", and perfect reconstruction of an analysed signal", technique=T_MODEL, assumptions=COMMON)
c("P24", "exploration", ["p24"],
  "a case is one block of coded frames; transitions count frames compared with the model",
  "every neighbourhood of three values (de Bruijn) x left value x symbol, every magnitude, bandwidth pair, length change, end position, scale factor difference; oracle: " + MODEL, technique=T_MODEL, assumptions=COMMON)
c("P25", "exploration", ["p25"],
  "a case is one block of frames carrying joint stereo or multichannel parameters; transitions count frames compared with the model",
  "every band x M/S flag, every prediction coefficient, window, mask form, every rotation angle and channel pair of the multichannel tool, its tree forms and time-differential histories; oracle: " + MODEL, technique=T_MODEL, assumptions=COMMON)
c("P26", "exploration", ["p26"],
  "a case is one block of frames carrying values of one tool's fields; transitions count frames compared with the model",
  "every TNS order x coefficient x place x direction x resolution, every length x bandwidth; every postfilter lag x gain and changes between them; every prediction spacing; every noise level x offset; oracle: " + MODEL, technique=T_MODEL, assumptions=COMMON)
c("P21", "exploration", ["p21"],
  "a case is one stream decoded with one file of responses; transitions count samples compared with the convolution of its loudspeaker signals in double precision",
  "response lengths 1..8192 (quick: powers of two and their neighbours; thorough: all to 2100, then two of 16) in both forms of the file; 0..2 diffuse blocks of 7 lengths; every layout x every layout of the responses (mapping by place, or refusal); every (third to ninth) history of 8 sounding or silent frames x 4 lengths; word sizes x layouts x targets x rates by index and number; rates that differ; file names of every length; several responses in a file; objects, multichannel and gain-controlled content; target loudness; a second configuration", technique="bounded exhaustive enumeration of configurations and frame histories on the real decoder, each execution compared sample by sample with a model convolution of its own loudspeaker signals", assumptions=COMMON + ["responses of full bandwidth (fc = 1); a response cut off above fc is an approximation no reference is there for"])
c("P20", "model_checking", ["p20"],
  "a case is one stream of scene-based audio, or one measured rendering matrix; transitions count frames x loudspeakers whose every sample is compared with the model",
  "rendering matrices: orders 0..6 x layouts 1-7, 9-12, 14-20, each coefficient alone, residual of a purely linear map, structure of the matrix, other rates; decoding: every value of a vector element, every entry of the vector codebooks, every direction of the grid, every base order of ambience, every gain correction, 7^3 combinations of signal types x orders x base orders x vector lengths, every ordered pair of 12 codings of a channel (then all four channels at once) x interpolation times x methods x vector lengths, spatial prediction x signals x gain widths x histories, every Huffman word; scene beside channels and objects in every combination and order of elements x orders x layouts", technique="explicit-state exploration of the real decoder over side-information states and their transitions against an executable model of the spatial decoder, through measured matrices", assumptions=COMMON + ["the grids, codebooks and Huffman words are the decoder's own, copied once", "the rendering matrices are pinned to their measured values (2e-3 of the largest); what is demanded of them beyond that is symmetry, no LFE, energy and place"])
c("P13", "model_checking", [{"harness": "p13", "whitebox": True}, {"harness": "p13", "flavour": "asan", "defs": ["P13_DEC"], "asan_options": "detect_leaks=0"}],
  "a case is one (data length, start position, contents) with all sequences of operations on it, one form of escape value with all its values, or 16 stopping points of a stream; transitions count operations compared with the bits",
  "all sequences of two (thorough three) reads, looks, skips of every width on every state of a buffer of up to 9 bytes ending at an inaccessible page; every escape value; every writer width; every stopping point of every synthesised stream with the bytes behind it poisoned",
  technique="explicit-state exploration of the real bit reader and writer against the bit string, and of the decoder over all stopping points", assumptions=COMMON)
c("P07", "model_checking", [{"harness": "p07"}],
  "a case is one (layout, composition of elements, rate), one list of speakers or one (source, target, word size); non-trivial when reports were compared after calls that succeeded; transitions count frames x channels or calls",
  "layouts 1-7, 9-12, 14-20 x every composition of SCE/CPE/LFE up to 30 (thorough 400) per layout x rates 48 (to 16) kHz; lists of 1..16 speakers at every n-th (every) start up and down the list of speakers; every source x target; oracle = own table of layouts, and the model decoder for which signal belongs in which channel",
  technique="bounded exhaustive exploration of the real decoder over configurations against an executable model", assumptions=COMMON)
c("P08", "model_checking", [{"harness": "p08"}],
  "a case is one (source layout, target layout, rate); non-trivial when converted PCM was produced and compared; transitions count samples compared with the model",
  "every source layout 1-7, 9-12, 14-20 x every target 1-7, 9-19 at 48 (thorough 44.1) kHz; every channel alone (gains of all 257 bins identified from wide-band signals), then 16 (40) frames of mixtures: independent, coherent, inverted, alternating, unequal, jumping; oracle = executable model of the converter (transform, gains, band energies) and what a conversion may do to a speaker",
  technique="bounded exhaustive exploration of the real decoder over all layout pairs against an executable model", assumptions=COMMON)
c("P09", "model_checking", [{"harness": "p09", "whitebox": True}, {"harness": "p09", "defs": ["P09_DEC"]}],
  "a case is 64 impulse positions or 8 tones at one ratio, or one (rate, layout, word size) stream; non-trivial when the output is compared and not silent; transitions count samples compared",
  "an impulse at every position of two frames and the following 64 samples, and 64 tones over the band, for each of the ratios 3/2, 2, 3; every supported rate, indexed and explicit, x 11 element layouts x 16/24/32 bits of streams differing by channel and frame; 11 source x 1/3 of (thorough: all) target layouts behind the layout converter; oracle = sample-and-hold and one symmetric filter over the whole signal in double precision applied to the decoded signal without resampling, pass-band level and image bounds, exact output lengths",
  technique="bounded exhaustive exploration of the real resampler and decoder against an executable model", assumptions=COMMON + ["the converter's delay of 256 samples is left out at the output's rate; the output up to the end of what it leaves out of the filter's history is not compared behind a layout conversion"])
c("P10", "model_checking", [{"harness": "p10", "whitebox": True}, {"harness": "p10", "defs": ["P10_DEC"]}],
  "a case is one family of signals fed to the limiter, or one (layout, sequence of frame levels, loud channels) stream; non-trivial when the gain is reduced; transitions count samples compared",
  "every signal of 7 (thorough 8) samples over six levels around the threshold x look-ahead x channels; every cut of a signal into frames; every sequence of 3 (5) frame levels x every loud channel x layouts, with and without layout conversion; oracle = the limiter's definition in double precision on the unlimited signal, and the bound itself",
  technique="bounded exhaustive exploration of the real limiter and decoder against an executable model", assumptions=COMMON + ["streams output at 48 kHz, where the limiter is in the path"])
c("P11", "model_checking", [{"harness": "p11"}],
  "a case is one (stream, metadata, user setting), decoded with the metadata in use and without; non-trivial when it is not refused and the two differ by a gain; transitions count samples compared",
  "every coded programme loudness x targets; every list of up to 3 loudness infos over types, bounds, methods and album/scene blocks (choice of the one that counts); word sizes, layouts and sample rates; every coded gain of each coding profile, every node distance and node count x interpolation forms x sampling rates; bands x crossovers; channel-to-sequence assignments; gain modifiers; selection among DRC sets by effect, target and layout; ducking of oneself and of others x assignments x scalings beside a set; sets against clipping x peak x target; fading alone, beside sets and on every played layout; oracle = plain output x the gain the metadata stands for, computed by an executable model",
  technique="bounded exhaustive exploration of metadata values on the real decoder against an executable model", assumptions=COMMON + ["linear interpolation (the only one of the LC profile), default time grid", "whole-dB target loudness, as the interface converts it", "a dynamic range effect is asked for together with a target"])
c("P27", "model_checking", [{"harness": "p27"}],
  "a case is one (stream, settings, word size, grouping) or all 243 groupings of one (stream, settings); non-trivial when the packet stream decodes to PCM; transitions count execute calls",
  "every synthesised and recorded stream x 8 settings x 16/24/32 bits, the access units one, two or all at a time, and every sequence of 0-2 units behind the configuration and 1-3 units buffered at the next four calls (2, thorough all, settings); oracle = the PCM of the packet stream, bit by bit",
  technique="bounded exhaustive exploration of groupings of access units into calls on the real decoder, differential against the packet stream", assumptions=COMMON + ["whole access units per call, as the interface demands of raw streams"])
c("P28", "exploration", [{"harness": "p28", "limit": 300}, {"harness": "p28", "flavour": "lc4", "limit": 300, "thorough_only": True}],
  "a case is one value or block of values of a configuration field, each built into a stream and decoded; non-trivial when acceptance and output were compared; transitions count streams decoded",
  "all 256 profiles x layouts and x 1-26 objects; every compatible profile (pairs around the known ones, thorough all) under every own profile; every rate index, explicit rates at every border; every frame length, layout, group type, number of groups, elements, extensions; every length 0-1535 of extension configurations, 0-1536 of configuration extensions; every fill byte; group information and compatible profiles padded and in every order; in the default (thorough: and the level 4) build; oracle: the supported set, the plainest writing of the same stream, and the model for sampling rates",
  technique="exhaustive enumeration of configuration fields on the real decoder against the table of supported values and an executable model", assumptions=COMMON + ["agreement between the listed signals and the elements' channels is not judged", "explicit speaker lists are P07's"])
c("P29", "model_checking", [{"harness": "p29", "limit": 300}],
  "a case is one (content, group information, metadata history) decoded with and without an external renderer; non-trivial samples are those handed out that are not near silence; transitions count frames handed out",
  "element sets x layouts x targets x group information; every layout as index and as a list of loudspeakers; every priority and fixed flag; full-scale signals; channels, objects and scenes in every order with the channels first; 1-24 objects with every coded position, gain and spread over the frames; scene orders and transports; oracle = the values written by the encoder, read back bit by bit, the samples of every coded signal decoded alone, and the output without the interface",
  technique="bounded exhaustive exploration of content and metadata histories on the real decoder against the encoder's own state", assumptions=COMMON + ["channel groups come first, as the decoder assumes", "element identifiers of a metadata scene are not judged"])
c("P30", "model_checking", [{"harness": "p30", "limit": 300}],
  "a case is one (source, target, way a matrix is written, its gains) decoded and compared sample by sample, or one configuration behind another; non-trivial when the comparison ran; transitions count samples compared",
  "every pair of layouts x 3 (thorough 12) ways of writing; 5 pairs x 128 (512) combinations of outputs separable / symmetric, LFE to LFE only, cells as bits / run lengths / differences from a template, gains as numbers or list positions, unequal single inputs; every border of the gain range x precision x list parameter; 1-12 equalisers, every precision and range; matrices up to the longest that can be announced; matrix at each place among others, of every extension type; every pair of 8 extensions behind each other x 4 pairs of layouts; oracle = meaning of the matrix through the executable model of the converter",
  technique="bounded exhaustive exploration of transmitted matrices on the real decoder against an executable model of their meaning and of the converter", assumptions=COMMON + ["the target layout differs from the source's", "the first matrix of the last entry for the target layout applies", "speaker lists as reference layout are not used"])
c("P31", "model_checking", [{"harness": "p31", "limit": 300}],
  "a case is one (order, layout, way a matrix is written, its gains): every coefficient played alone and compared sample by sample, or one configuration behind another; non-trivial when the comparison ran; transitions count samples compared",
  "orders 1-6 x every layout x 4 (above order 3: 1; thorough 12) ways of writing; 4 pairs x 128 (512) combinations of equal or mirrored loudspeaker pairs, full or sparse, coefficients off the horizon, LFE, gain limits together or per order, precisions, normalisation; matrix at each place among others and behind other extensions, other reference layouts; every pair of 5 extensions behind each other x orders; oracle = the gains written, sample by sample",
  technique="bounded exhaustive exploration of transmitted rendering matrices on the real decoder against an executable model of their meaning", assumptions=COMMON + ["one matrix for the requested layout", "22.2 is not a target"])
c("P14", "fault_enumeration", [{"harness": "p14", "flavour": "guard", "asan_options": "detect_leaks=0"}],
  "a case is 8 bytes of a stream with each bit flipped and each byte set to 00 and ff, or 16 values of the first byte of arbitrary contents of one slot; every point runs in a process of its own; non-trivial when the decoder accepted the configuration; transitions count damaged streams",
  "every bit of the configuration and the start of the first frame (thorough: of everything) of the synthesised and recorded streams x settings flipped (quick: every third byte of the recorded ones), every byte set to either extreme; arbitrary contents of 60 slots (configuration extensions, extension elements' configurations and payloads, packets, frames, the configuration itself): first byte x patterns; decoder built with address, bounds and division checking, undelivered bytes poisoned; oracle = no report, no signal, no hang (5 s of CPU), bytes consumed within those offered, output within its buffer, everything returned at deletion",
  technique="exhaustive enumeration of damage to streams, each executed on the real decoder in an instrumented process of its own", assumptions=COMMON)

# not claimed
CHECKS["P18"] = {"na": "The feature does not work in the pinned tree, so nothing can be shown to hold: impeghd_rotate_cart_coord adds the displacement to itself instead of the position, "
  "impeghd_cart_2_pol never writes the azimuth and loses signs, and coded values are used as degrees. A repair would be a rewrite without a reference, and an exhaustive check would list every orientation as a known finding."}
CHECKS["P19"] = {"na": "User interaction and presets are only partly implemented in the pinned tree (presets are ignored unless signalled in one way, position offsets are added undecoded, out-of-range gains end decoding, loops over groups run over presets): "
  "the property fails for most inputs, a repair would be a rewrite without a reference, and enumeration would list nearly every request as a known finding."}
