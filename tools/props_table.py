# executed by mkprops.py ; prop(id,title,statement,over,text,why,files,mech,...)
SMOKE = ("The repository's only tests decode one fixed mono stream end to end (as MHAS and as MP4) with default "
         "options and compare one output file; they never vary the ")
def M(*a): return [dict(name=n, where=w) for n, w in a]
PARSE_NOTE = ("The TLA+ specification evaluates the expected outcome of every recorded parse; conformance holds on the "
              "structured, mutated and truncated inputs explored (counts in the evidence), not on all inputs.")

# ----------------------------------------------------------------- sessions
prop("S01", "Decoder lifecycle: all memory is returned, failures are clean",
 "For every sequence of create, init, execute and delete calls, all memory the decoder uses is obtained through the caller's allocator during create and handed back through the caller's free function exactly once by delete. An allocator that fails at any request makes create return a fatal allocation error, after which delete still returns everything obtained so far. No call writes outside the blocks it was given.",
 ["histories", "fault_sequences"], "all API call histories over several decoder instances, and every point at which the allocator may fail",
 SMOKE + "call sequence, and the allocator never fails.",
 ["decoder/impeghd_api.c", "decoder/ia_core_coder_create.c"],
 M(("create/init/execute/delete", "decoder/impeghd_api.c")), ["public API return codes", "allocator callbacks"],
 technique="TLA+ lifecycle state machine: exhaustive TLC check, TLC-generated histories replayed, recorded traces validated",
 note="Exhaustive over the history model at its bound; conformance on the replayed histories and on every allocator-failure index.")
prop("S02", "Every call makes exact, bounded progress through the input",
 "Every init or execute call given a non-empty input reports at least one and at most the supplied number of bytes as consumed, for valid, damaged, truncated and arbitrary input. On well-formed MHAS streams each call consumes exactly the packets up to and including one configuration-plus-frame (init) or one frame packet (execute), whatever ancillary packets lie in between.",
 ["inputs", "histories"], "all byte streams and all ways of splitting them into calls",
 SMOKE + "input bytes.", ["decoder/impeghd_api.c", "decoder/ia_core_coder_headerdecode.c", "decoder/ia_core_coder_decode_main.c"],
 M(("bytes-consumed accounting", "decoder/impeghd_api.c"), ("MHAS packet loop", "decoder/ia_core_coder_headerdecode.c")), ["i_bytes_consumed", "return code"],
 technique="TLA+ MHAS session specification; every recorded API call validated by TLC",
 note="Consumption of each recorded call is computed by the specification from the packet sequence; robustness part on generated damaged streams.")
prop("S03", "Output volume, format and channel order are exactly accounted for",
 "Every successful decode call delivers exactly frame-length x output-channels x word-size bytes (less the one-time start-up delay that is trimmed, and scaled by the resampling ratio), never more than the output buffer the decoder asked for. The reported channel count, sampling rate and speaker geometry agree with the stream configuration, the requested layout and the data delivered, and are stable between configuration changes.",
 ["inputs", "configurations"], "all stream configurations x output layouts x word sizes x sampling rates",
 SMOKE + "stream configuration, the layout or the word size.", ["decoder/impeghd_api.c", "decoder/ia_core_coder_decode_main.c", "decoder/impeghd_cicp_2_geometry.c"],
 M(("samples_sat/out_bytes", "decoder/impeghd_api.c")), ["num_out_bytes", "i_num_chan", "i_samp_freq", "speaker geometry outputs"],
 technique="TLA+ output-accounting specification over recorded sessions (TLC trace validation)", note="All table entries for layouts are enumerated; streams are generated from the repository's sample essence.")
prop("S04", "Decoding is a function of the input alone",
 "The PCM, return codes and reported values of a decode depend only on its own input bytes and configuration: not on the initial contents of the memory it was given, on other decoder instances created, interleaved or deleted in the same process, on previous sessions, or on what follows in the input buffer.",
 ["histories", "schedules", "inputs"], "all interleavings of calls on several instances, memory contents and streams",
 SMOKE + "schedule: one instance runs once per process.", ["decoder/impeghd_api.c", "decoder/ia_core_coder_create.c", "decoder/ia_core_coder_decode_main.c"],
 M(("all state lives in caller-provided memory", "decoder/ia_core_coder_create.c"),), ["PCM", "return codes"],
 technique="TLA+ multi-instance session specification with an uninterpreted decode function; TLC-generated schedules replayed and validated",
 note="Exhaustive over schedules at the model bound; conformance on those replayed against the real decoder.")
prop("S05", "MHAS framing: ancillary packets are transparent",
 "Inserting any well-formed MHAS packet that carries neither configuration nor audio (fill, sync, sync gap, marker, CRC, descriptor, user interaction, buffer information, unknown types, other reserved types) of any length and label, at any packet boundary changes nothing in the decoded audio: only the consumed byte counts grow by the inserted bytes.",
 ["inputs"], "all streams, all insertion points, all ancillary packet types, lengths and label codings",
 SMOKE + "packet structure: one sync, one configuration, then frames.", ["decoder/ia_core_coder_headerdecode.c"],
 M(("packet type dispatch", "decoder/ia_core_coder_headerdecode.c")), ["PCM", "i_bytes_consumed"],
 technique="TLA+ MHAS transport specification (packet-level state machine); generated packet sequences replayed, traces validated by TLC", note="Exhaustive over short packet-type sequences; random long ones.")
prop("S06", "MP4/raw and MHAS carriage of the same audio decode identically",
 "The same configuration and access units decode to the same PCM whether they are carried as MHAS packets or handed over as raw configuration plus raw access units.",
 ["inputs", "configurations"], "all streams and decode options", SMOKE + "stream beyond one file per transport.",
 ["decoder/impeghd_api.c", "decoder/ia_core_coder_headerdecode.c", "decoder/ia_core_coder_decode_main.c"],
 M(("raw/MHAS entry", "decoder/ia_core_coder_decode_main.c")), ["PCM"], technique="TLA+ session specification, both transports refine one abstract decode function; TLC trace validation", note="On the explored streams and options.")
prop("S07", "PCM word sizes are projections of one decode",
 "For the same input, 16-, 24- and 32-bit output carry the same audio at three precisions: each 16-bit sample is the 24-bit sample, and each 24-bit sample the 32-bit sample, with the extra low bits dropped towards zero, little-endian, clipped (never wrapped) at full scale, in the same channel order.",
 ["inputs", "configurations"], "all streams and signal levels, including overload", SMOKE + "word size.",
 ["decoder/impeghd_api.c"], M(("sample conversion", "decoder/impeghd_api.c")), ["PCM"], technique="TLA+ sample-conversion specification evaluated by TLC on recorded triples and on boundary values", note="Boundary values of the conversion are enumerated; decoded streams sampled.")
prop("S08", "Configuration changes take effect exactly, repetition is a no-op",
 "A repeated identical configuration packet in mid-stream does not disturb the audio. A different configuration switches the decoder so that everything after it decodes exactly as it would in a fresh session started at that configuration.",
 ["histories", "inputs"], "all sequences of configurations and frames", SMOKE + "configuration within a stream.",
 ["decoder/ia_core_coder_decode_main.c", "decoder/ia_core_coder_headerdecode.c"], M(("configuration compare and flush", "decoder/ia_core_coder_decode_main.c")), ["PCM"],
 technique="TLA+ session specification (config epochs) checked by TLC; TLC-generated epochs replayed and validated", note="Exhaustive over short epoch sequences of the sample configurations.")
prop("S09", "Chunking and truncation do not change decoded audio",
 "However the caller splits a stream over calls (any buffer size that holds a whole access unit), the audio is the same; and decoding a prefix of a stream yields a prefix of the audio, with an error for the cut unit instead of made-up samples.",
 ["inputs", "schedules"], "all split points and truncation points", SMOKE + "buffer size or the end of the stream.",
 ["decoder/impeghd_api.c", "decoder/ia_core_coder_headerdecode.c", "decoder/ia_core_coder_bitbuffer.c"], M(("insufficient-input unwinding", "decoder/ia_core_coder_bitbuffer.c")), ["PCM", "return codes"],
 technique="TLA+ session specification with buffer model; recorded sessions validated by TLC", note="Truncation at every packet boundary and sampled inner offsets.")
prop("S10", "Decoder parameters are validated and echoed",
 "Create accepts exactly the documented parameter ranges (word size, layout, preset, effect, target loudness, output rate) and uses and reports the accepted values; an out-of-range value is either rejected or leaves the documented default in force, and never corrupts the session.",
 ["configurations"], "all parameter combinations including out-of-range values", SMOKE + "parameters.",
 ["decoder/impeghd_api.c", "test/impeghd_main.c"], M(("impeghd_set_config_params", "decoder/impeghd_api.c")), ["return codes", "echoed output configuration"],
 technique="TLA+ parameter-validation specification evaluated by TLC against recorded create/init calls", note="Full boundary grid of each parameter.")
prop("S11", "Output sampling rate follows the standard's resampling table",
 "For every sampling rate a configuration can express, the decoder either rejects the configuration (no rate, an unassigned rate index, or a rate above 48 kHz) or delivers every access unit at the output rate that is asked for when the pair of rates is in the standard's low-complexity resampling table (32000, 24000 and 16000 Hz to 48000 Hz, 29400, 22050 and 14700 Hz to 44100 Hz; ratios 3/2, 2/1, 3/1), with exactly the table's ratio in the amount of audio, and otherwise at the rate of the stream.",
 ["configurations"], "all sampling rates and frame lengths expressible in a configuration", SMOKE + "sampling rate (48 kHz only).",
 ["decoder/ia_core_coder_headerdecode.c", "decoder/impeghd_resampler.c", "decoder/ia_core_coder_init_config.c", "decoder/impeghd_api.c"], M(("resampling ratio", "decoder/ia_core_coder_init_config.c")), ["i_samp_freq", "num_out_bytes"],
 technique="TLA+ rate-table specification; enumerated configurations run through the decoder and validated by TLC", note="Whole table enumerated.")
prop("S12", "Loudness normalization scales the audio by exactly the gain that follows from the stream and the target",
 "When a target loudness is requested and the stream carries a DRC element, the output is the output of the same stream without that request, scaled throughout by one gain: the target minus the loudness the stream states for what is decoded (the most specific measurement for the output layout and the DRC set in use, by the order of ISO/IEC 23003-4), reduced where the peak would otherwise exceed what the request allows; it is not scaled when the stream has no loudness information or no DRC element. A configuration in mid-stream brings its own loudness into force and nothing of the previous one's stays. DRC data or loudness information that is not valid is refused with an error. Holds for audio that stays clear of the peak limiter and DRC sets without gains of their own in single bands.",
 ["inputs", "configurations"], "all DRC configurations, loudness information, targets, effects and output layouts", SMOKE + "loudness metadata.",
 ["decoder/impeghd_api.c", "decoder/impd_drc_loudness_control.c", "decoder/impd_drc_init.c", "decoder/ia_core_coder_decode_main.c", "decoder/ia_core_coder_headerdecode.c"], M(("loudness normalisation gain", "decoder/impeghd_api.c")), ["PCM level"], technique="TLA+ specification of DRC set and loudness selection generates streams; TLC checks the gain measured between two decodes of the real decoder (LoudGen, LoudTrace)", note="Seeded generation from the specification, about 800 streams in quick mode.")
prop("S14", "DRC gains sent in the stream act on the audio exactly as sent",
 "When dynamic range control is applied, every output sample of every channel is the sample decoded without the sent gains multiplied by the gains of the DRC sets in use (ducking or fading, the set depended on, the selected one) at that sample's time: each set gives each channel the curve that runs straight, in linear gain, between the nodes sent for its gain sequence, after attenuation or amplification factors, ducking scale and offset, and after the clipping limit that follows from the limiter target and the loudness gain; channels without a gain set, or not ducked, stay as they are. This holds wherever the DRC element stands among the elements, across access unit boundaries, and after a new configuration in mid-stream, of which nothing old stays in force.",
 ["inputs", "histories"], "all DRC configurations, gain payload histories, targets and effects", SMOKE + "DRC gains: there are none.",
 ["decoder/impd_drc_gain_dec.c", "decoder/impd_drc_process.c", "decoder/impd_drc_init.c", "decoder/impd_drc_dynamic_payload.c", "decoder/ia_core_coder_decode_main.c"], M(("gain curve", "decoder/impd_drc_gain_dec.c"), ("gain application", "decoder/impd_drc_process.c")), ["PCM"], technique="TLA+ specification of gain payloads, set selection and gain curves generates streams; TLC checks sample ratios between two decodes of the real decoder (GainGen, DrcApply, GainTrace)", note="Seeded generation from the specification: single-band sets, layouts of 1, 2, 3 and 6 channels; samples clear of the peak limiter.")
prop("S15", "Side data given to a session can spoil neither it nor the decoder",
 "For every history of calls with data given besides the stream (element interaction, local loudspeaker set-up, scene displacement, binaural responses, MP4 scene boxes), well-formed, cut short or damaged: every call returns, no memory outside the decoder's is touched, the session follows the life cycle, sample counts are whole and within the output buffer, and a second session given the same bytes does the same. Data for scenes the stream does not have changes nothing.",
 ["inputs", "histories"], "all side data, well-formed or not, with all streams and parameters", SMOKE + "side data: there is none.", ["decoder/ia_core_coder_decode_main.c", "decoder/impeghd_metadata_preprocessor.c", "decoder/impeghd_ele_interaction_intrfc.c", "decoder/impeghd_binaural_renderer.c", "decoder/impeghd_api.c"],
 M(("metadata pre-processor", "decoder/impeghd_metadata_preprocessor.c"), ("binaural set-up", "decoder/impeghd_binaural_renderer.c"), ("decoding loop", "decoder/ia_core_coder_decode_main.c")), technique="TLA+ session state machine and grammars of the side data (Side, InterGen, BinGen): TLC generates data and scenes and validates the recorded call histories; the real code runs twice, once instrumented", note="Seeded generation; which sound interaction data makes is not judged, only bounds, life cycle, determinism and the absence of an effect without a scene.")
prop("S13", "Loudspeaker layouts are reported with the standard's geometry",
 "For every CICP layout index the decoder uses and reports the channel count and, per channel, azimuth, elevation and LFE flag of ISO/IEC 23091-3, and undefined indices are rejected.",
 ["configurations"], "all layout and speaker indices", SMOKE + "layout.", ["decoder/impeghd_cicp_2_geometry.c", "decoder/impeghd_cicp_2_geometry_rom.c"],
 M(("layout tables", "decoder/impeghd_cicp_2_geometry_rom.c")), ["num_speakers, azimuth, elevation, is_lfe outputs"], technique="TLA+ layout tables enumerated and compared by TLC with the values the code reports", note="Exhaustive over the index space.")

# ----------------------------------------------------------------- parsers
prop("P01", "Bit-level reading is exact and bounded",
 "For every byte buffer, read position and width, reading a field returns exactly those bits, most significant first, and advances exactly that far; escape-coded values add their extension fields exactly as the standard says. A read that needs more bits than were supplied reports insufficient input and never yields a value.",
 ["inputs"], "all buffers, positions, widths and escape codes", SMOKE + "bit patterns.", ["decoder/ia_core_coder_bitbuffer.c"],
 M(("ia_core_coder_read_bits_buf", "decoder/ia_core_coder_bitbuffer.c"), ("ia_core_coder_read_escape_value", "decoder/ia_core_coder_bitbuffer.c")), technique="TLA+ bit-cursor state machine; recorded read sequences validated step by step by TLC", note=PARSE_NOTE)
prop("P02", "MHAS packet headers are decoded exactly",
 "For every byte string, the packet type, label and length read from an MHAS packet header, and the number of bits the header occupies, are those the standard assigns (escape coding 3/8/8, 2/8/32 and 11/24/24 bits).",
 ["inputs"], "all header bytes", SMOKE + "header coding: only short forms occur.", ["decoder/ia_core_coder_headerdecode.c"],
 M(("packet header", "decoder/ia_core_coder_headerdecode.c")), technique="TLA+ MHAS header grammar evaluated by TLC against recorded parses", note=PARSE_NOTE)
prop("P03", "Stream configuration parsing follows the grammar and the profile limits",
 "For every configuration byte string, the decoder accepts it exactly when it is a well-formed 3D Audio configuration within the supported profiles, levels and implementation limits; when it accepts, every configuration field has the value the grammar assigns, when it does not, it reports an error of the documented class.",
 ["inputs", "configurations"], "all configuration byte strings", SMOKE + "configuration (one mono configuration).", ["decoder/ia_core_coder_init_config.c"],
 M(("mpegh3daConfig parsing", "decoder/ia_core_coder_init_config.c")), technique="TLA+ grammar of mpegh3daConfig with profile limits, evaluated by TLC against recorded parses", note=PARSE_NOTE)
prop("P04", "Audio scene information parsing follows the grammar",
 "For every byte string, audio scene information (groups, switch groups, presets, content data, composite pairs, descriptions) is parsed to exactly the fields the grammar assigns, limits are enforced, and truncated data is reported as insufficient.",
 ["inputs"], "all scene-information byte strings", SMOKE + "audio scene: the sample stream has none.", ["decoder/impeghd_metadata_preprocessor.c", "decoder/impeghd_mhas_parse.c"],
 M(("mae_AudioSceneInfo parsing", "decoder/impeghd_mhas_parse.c")), technique="TLA+ grammar of the audio scene information evaluated by TLC against recorded parses", note=PARSE_NOTE)
prop("P05", "Object metadata decodes to exact positions and gains over time",
 "For every sequence of object-metadata frames (intra-coded and dynamic), each object's azimuth, elevation, radius, gain, spread and priority in every frame are the values obtained by accumulating the coded values and differences and applying the standard's de-quantisation and clamping.",
 ["inputs", "histories"], "all object-metadata configurations and frame histories", SMOKE + "object metadata.", ["decoder/impeghd_oam_dec.c"],
 M(("OAM frame decoding", "decoder/impeghd_oam_dec.c")), technique="TLA+ state machine of object-metadata decoding; recorded frame histories validated by TLC", note=PARSE_NOTE)
prop("P06", "User interaction, local set-up and scene displacement data parse exactly",
 "For every byte string, element interaction, loudspeaker local set-up and scene displacement data are decoded to exactly the fields the grammar assigns, out-of-range data is rejected and truncated data is reported as insufficient for that interface.",
 ["inputs"], "all byte strings on each of the side interfaces", SMOKE + "side interfaces: unused.", ["decoder/impeghd_ele_interaction_intrfc.c"],
 M(("side interface parsers", "decoder/impeghd_ele_interaction_intrfc.c")), technique="TLA+ grammars of the side interfaces evaluated by TLC against recorded parses", note=PARSE_NOTE)
prop("P07", "Dynamic-range-control configuration and loudness metadata parse exactly",
 "For every byte string, DRC coefficients, instructions, downmix instructions and loudness sets are decoded to exactly the fields the grammar assigns, over-limit counts are rejected and truncated data is reported as insufficient.",
 ["inputs"], "all DRC configuration and loudness byte strings", SMOKE + "DRC metadata: the sample stream has none.", ["decoder/impd_drc_static_payload.c"],
 M(("DRC static payload", "decoder/impd_drc_static_payload.c")), technique="TLA+ grammar of the DRC static payload evaluated by TLC against recorded parses", note=PARSE_NOTE)
prop("P08", "Ambisonics configuration, frame side information and rendering matrices parse exactly",
 "For every byte string, the higher-order-ambisonics configuration and per-frame side information are decoded to exactly the fields the grammar assigns, with cross-frame state (active channels, previous types, coded vectors) tracked over the frame history; a rendering matrix sent for a loudspeaker layout gives every coefficient and loudspeaker exactly the sign and gain coded. Data that cannot be is refused, truncated data is reported as insufficient.",
 ["inputs", "histories"], "all HOA configurations and frame histories", SMOKE + "HOA content.", ["decoder/impeghd_hoa_config.c", "decoder/impeghd_hoa_frame.c", "decoder/impeghd_hoa_matrix.c"],
 M(("HOA config/frame parsing", "decoder/impeghd_hoa_config.c")), technique="TLA+ grammar of HOA configuration and frames evaluated by TLC against recorded parses", note=PARSE_NOTE)

prop("P09", "Gain payloads of dynamic range control decode exactly",
 "For every configuration of gain sets and every gain payload, each band's nodes get exactly the times and gains the coding assigns (coded differences of time and gain, gains that hold to the end of the frame, nodes sent late for the frame before); impossible codes are rejected, truncated data is reported as insufficient, and what was decoded before has no influence.",
 ["inputs", "configurations", "histories"], "all gain payloads for all gain set configurations, frame lengths and sampling rates", SMOKE + "gain payloads: the sample stream has none.", ["decoder/impd_drc_dynamic_payload.c", "decoder/impd_drc_extr_delta_coded_info.c"],
 M(("DRC gain decoding", "decoder/impd_drc_dynamic_payload.c")), technique="TLA+ grammar and prefix codes of the gain payload evaluated by TLC against recorded parses", note=PARSE_NOTE)
prop("P10", "Downmix matrices sent in the stream decode exactly and are applied",
 "For every downmix matrix of the configuration (compact loudspeaker pairs, templates, run lengths, gain tables, equalizers), every gain from an input to an output loudspeaker is exactly the coded one; impossible data is refused and truncated data is reported as insufficient. When the configuration sends a matrix for the output layout, each input loudspeaker's audio reaches each output with exactly that gain and no other; when it sends none for that layout, the audio is what it would be without matrices, and nothing of an earlier configuration's matrices stays.",
 ["inputs", "configurations", "histories"], "all downmix matrices between all pairs of layouts", SMOKE + "downmix matrix: the sample streams have none.", ["decoder/impeghd_dmx_mtx.c", "decoder/ia_core_coder_init_config.c", "decoder/ia_core_coder_decode_main.c"],
 M(("downmix matrix parser", "decoder/impeghd_dmx_mtx.c"), ("downmix configuration", "decoder/ia_core_coder_decode_main.c")), technique="TLA+ grammar of downmix matrices (Dmx) evaluated by TLC against recorded parses and against levels measured in the decoded audio", note=PARSE_NOTE)

# ----------------------------------------------------------------- decisions
prop("D01", "DRC set selection follows the standard's precedence",
 "For every DRC configuration, target layout, requested effect and target loudness, the DRC sets applied are the ones the standard's selection process chooses, and the choice is a pure function of these.",
 ["inputs", "configurations"], "all DRC configurations and requests", SMOKE + "DRC request.", ["decoder/impd_drc_selection_process_drcset_selection.c", "decoder/impd_drc_selection_process.c"],
 M(("DRC set selection", "decoder/impd_drc_selection_process_drcset_selection.c")), technique="TLA+ specification of the DRC set selection process evaluated by TLC against recorded selections", note=PARSE_NOTE)
prop("D02", "The audio scene and the selected preset decide which signals sound",
 "For every audio scene (in the configuration or in a scene packet), selected preset and mix of channels and objects, each signal is heard unchanged when its group is on and is silent when it is off: the state of a group is the one the selected preset gives it, or its default when the preset does not mention it or no preset is selected. A preset the scene does not have is refused with the invalid-preset error, and a group that is on and has a member which is no signal of the stream is an error. Without a scene every signal sounds.",
 ["inputs", "configurations", "histories"], "all audio scenes, presets and mixes of channel and object signals, without user interaction data", SMOKE + "scene or preset.", ["decoder/impeghd_metadata_preprocessor.c", "decoder/impeghd_mhas_parse.c", "decoder/ia_core_coder_decode_main.c"],
 M(("metadata pre-processor", "decoder/impeghd_metadata_preprocessor.c"), ("audio scene parser", "decoder/impeghd_mhas_parse.c")), technique="TLA+ specification of scene gating (Asi, Gate); TLC generates scenes and presets, they are decoded, and which signals sound is validated against the specification by TLC", note="Scenes are generated from the specification with a seed, not exhaustively; scenes with preset extensions (downmix dependent presets) are decoded and left open; user interaction data is out of scope.")
prop("D03", "Binaural output is the loudspeaker signals filtered with the responses given",
 "For every set of binaural responses, stream, set-up and history, each ear's signal is the sum of the loudspeaker signals, each convolved with the direct response of its own position and the diffuse responses at their block delays and weights, after the stated latency and in whole blocks; loudness normalisation scales all of it by the one gain it has without binaural rendering. Responses that do not fit the rendered layout or the sampling rate are refused. Nothing of responses or configurations before stays.",
 ["inputs", "configurations", "histories"], "all binaural response sets, layouts and streams", SMOKE + "binaural responses: there are none.", ["decoder/impeghd_binaural_renderer.c", "decoder/impeghd_ifft.c", "decoder/ia_core_coder_decode_main.c", "decoder/impeghd_binaural_filter_design.c"],
 M(("binaural renderer", "decoder/impeghd_binaural_renderer.c"), ("binaural data", "decoder/ia_core_coder_decode_main.c")), ["PCM"], technique="TLA+ specification of the renderer as taps, delays and blocks (Binaural); TLC generates responses, set-ups and expectations (BinGen) and validates measured blocks and the deviation of the decoded audio (BinTrace)", note="The convolution the specification names is evaluated by the driver over the plain decode's samples (TLC has no real arithmetic); everything discrete (taps, delays, blocks, latency, refusal) is TLC's.")
prop("N01", "Decoded PCM is numerically faithful to the standard's reference decoder",
 "For every conformant stream, the decoded PCM is within the conformance tolerance of the ISO/IEC 23008-3 reference decoder.",
 ["inputs"], "all conformant streams", SMOKE + "stream.", ["decoder/ia_core_coder_spectrum_dec.c", "decoder/ia_core_coder_imdct.c"], M(("core decoding chain", "decoder/ia_core_coder_ext_ch_ele.c")),
 na="Numeric fidelity of floating-point transforms is not a state-machine property: TLC has no real arithmetic and no reference decoder or conformance streams are available offline. Relational PCM properties (S04-S09, S12) are checked instead.")
