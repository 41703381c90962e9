#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept here so that long lines stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, quant, why, files, state, mechanism, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                               mechanism=[dict(name=a, where=w) for a, w in mechanism], observe_at=observe,
                               hook_needed=hook)))


A = 'iamf/api/decoder/iamf_decoder.cc'
OP = 'iamf/cli/obu_processor.cc'
prop('D01', 'Decoded audio does not depend on how the bitstream is cut into pieces',
     'For every standalone bitstream and every way of cutting it into consecutive pieces, empty and one-byte pieces '
     'included, feeding the pieces to the streaming decoder and draining its output yields the same temporal units, '
     'with the same samples in the same order, as feeding it all at once. A piece that ends inside an OBU neither loses '
     'nor repeats audio, and a stream cut off at any byte yields exactly the temporal units that were complete.',
     ['inputs', 'schedules', 'crash_points'], 'every bitstream, every partition into pieces, every point where it is cut off',
     'Tests feed a few streams whole or at a handful of cut points; the number of partitions is exponential.',
     [A, OP, 'iamf/common/read_bit_buffer.cc', 'iamf/cli/descriptor_obu_parser.cc'],
     [('read_bit_buffer_', 'bytes received and not yet consumed', A), ('rendered_samples', 'the unit waiting to be fetched', A)],
     [('Seek back to the start of an incomplete OBU', OP), ('insufficient-data detection while parsing descriptors', 'iamf/cli/descriptor_obu_parser.cc')],
     ['return value and output of every decoder call'])
prop('D02', 'Decoder calls follow the documented life cycle',
     'For every order of decoder calls: information about the output is refused until the descriptors have been '
     'processed and stays the same afterwards; a decoded temporal unit is handed out exactly once and a call that '
     'fails because the caller\'s buffer is too small loses nothing; after the end of the stream was signalled, decoding is refused '
     'and the remaining units can still be fetched. Resetting a decoder created from descriptors makes it behave like a newly created one.',
     ['histories', 'schedules'], 'every sequence of decoder calls',
     'Tests call the functions in the sample order; the guarantees are about every interleaving of calls.',
     [A, 'iamf/include/iamf_tools/iamf_decoder_interface.h'],
     [('state_', 'buffer, processor, pending output and end-of-stream flag', A)],
     [('status guards on each entry point', A), ('Reset rebuilds from stored descriptors', A)],
     ['return value and output of every decoder call'])
prop('D03', 'Temporal units hold exactly the audio between their boundaries',
     'Whatever legal mix of OBUs a stream is made of (temporal delimiters or none, reserved or undecodable OBUs, redundant '
     'descriptors, several audio elements), decoding yields one output unit per temporal unit, in '
     'order, each with exactly its own samples after trimming, and OBUs that carry no audio change nothing. Audio that '
     'contradicts the descriptors or its neighbours\' timing is reported as an error, never mixed into another unit.',
     ['inputs', 'configurations', 'histories'], 'every well-formed arrangement of OBUs and every single deviation from one',
     'Tests use a few hand-made sequences; arrangements, sizes and trims combine without bound.',
     [OP, 'iamf/cli/temporal_unit_view.cc', 'iamf/cli/audio_frame_with_data.h'],
     [('temporal unit data', 'the frames and parameter blocks gathered so far', OP)],
     [('boundary detection by delimiter and by timestamp', OP)], ['samples and status of every decoder call'])
prop('D04', 'Descriptors are parsed only when complete, and exactly they are consumed',
     'For every descriptor sequence and every amount of data available, parsing succeeds exactly when all descriptors '
     'and the start of what follows are there (or the caller said that nothing follows); otherwise it reports that data is missing and '
     'consumes nothing, as it does when audio follows where nothing should. The result holds the latest sequence header, the first codec config and audio element of each id, and every mix whose elements are known, in order; '
     'it ignores unknown or undecodable descriptors and those that refer to what is not there, and '
     'leaves the reader exactly at the first byte that is not a descriptor of this sequence.',
     ['inputs', 'crash_points'], 'every descriptor sequence and every prefix of it',
     'Tests try a handful of sequences and truncations.',
     ['iamf/cli/descriptor_obu_parser.cc', OP],
     [('parsed descriptors', 'first-wins maps of codec configs, audio elements, and the list of mixes', 'iamf/cli/descriptor_obu_parser.cc')],
     [('position restored when data is insufficient', 'iamf/cli/descriptor_obu_parser.cc')], ['parser result and reader position'])
prop('D05', 'Mix and layout selection follows the documented priority',
     'For every set of mixes and every request, at creation or when reset with a new mix, the decoder selects, among the mixes a requested profile allows, the requested one if it is there, '
     'else the first that matches the requested layout by the documented rules, else the first; within it, it selects the first matching layout or adds the requested one. '
     'What it reports as selected is what it renders.',
     ['inputs', 'configurations'], 'every list of mixes with their layouts, every requested id and layout',
     'The selection depends on the combination of all mixes, layouts and the request; tests check a few.',
     ['iamf/cli/obu_processor_utils.cc', A], [], [('selection by id, then by layout, then default', 'iamf/cli/obu_processor_utils.cc')],
     ['selected mix, sub-mix index, layout index'])
prop('B01', 'OBU headers round-trip, account for every byte, and refuse illegal flags',
     'For every OBU header, writing and then reading it gives the same header and the same payload size, the encoded size counts exactly the '
     'bytes that follow the size field, and flags that an OBU type does not allow, sizes over the 2 MB limit or sizes too small for the header are refused, both when reading and when writing. '
     'Peeking at a header never consumes anything and agrees with reading it.',
     ['inputs'], 'every header and every byte string', 'Tests hold samples of headers; truncations and bad bytes are sampled only.',
     ['iamf/obu/obu_header.cc', 'iamf/obu/obu_base.cc'], [], [('size computed from the same fields that are written', 'iamf/obu/obu_header.cc')],
     ['bytes written, fields and sizes read, status'])
prop('B02', 'Bit-level reads return exactly the bits written, whatever the alignment',
     'For every sequence of writes of every width at every bit offset, the same sequence of reads returns the values '
     'written; a read that needs more bits than are available fails, and seeking, pushing and flushing never change the bits that follow. '
     'Variable-length integers are refused when they are longer than eight bytes or exceed 32 bits, and strings when over the length limit or not terminated.',
     ['inputs', 'histories'], 'every sequence of operations on the readers and writers',
     'Tests cover single operations at a few offsets; the position and buffering state is a product of the whole history.',
     ['iamf/common/read_bit_buffer.cc', 'iamf/common/write_bit_buffer.cc', 'iamf/common/leb_generator.cc'],
     [('buffer position', 'bit offset inside the buffered window', 'iamf/common/read_bit_buffer.cc')],
     [('window refill and bit shifting', 'iamf/common/read_bit_buffer.cc')], ['status, value and position after each call'])
prop('B03', 'Descriptor OBUs are written as the format says and read back unchanged',
     'For every sequence header, codec config, audio element and mix presentation, the bytes written are those '
     'the bitstream format prescribes, and reading them back gives an equal object, whatever follows it in the buffer; bytes between the known payload and the end of the OBU are '
     'kept and written out again. An object that breaks a rule of the format is refused, when it is made or written and when it is read, '
     'and a proper prefix of the bytes of an OBU is not read successfully as that OBU. Sample rates, bit depths, roll distances and channel counts derived from a descriptor are those its fields imply.',
     ['inputs', 'crash_points'], 'every object, every truncation of its bytes',
     'Tests hold golden bytes for single objects; combinations of optional fields are not enumerated.',
     ['iamf/obu/ia_sequence_header.cc', 'iamf/obu/codec_config.cc', 'iamf/obu/audio_element.cc', 'iamf/obu/mix_presentation.cc',
      'iamf/obu/ambisonics_config.cc', 'iamf/obu/rendering_config.cc', 'iamf/obu/obu_base.cc'], [],
     [('paired write and read functions', 'iamf/obu')], ['bytes written and fields read'])
prop('B04', 'Parameter blocks cover exactly their duration and animate gains as specified',
     'For every parameter definition and parameter block, the subblock durations add up to the duration, a block is written '
     'and read back unchanged, and definitions or blocks with inconsistent durations are refused. The mix gain at every tick is the one of the subblock covering it: '
     'constant for a step, on the straight line for linear and on the quadratic curve for Bezier animations.',
     ['inputs'], 'every definition, schedule, animation and tick', 'Tests check a few schedules and ticks.',
     ['iamf/obu/parameter_block.cc', 'iamf/obu/param_definitions/subblock_schedule.cc', 'iamf/obu/mix_gain_parameter_data.cc',
      'iamf/obu/param_definitions/param_definition_base.cc', 'iamf/cli/cli_util.cc'], [],
     [('schedule from the block or from the definition', 'iamf/obu/param_definitions/subblock_schedule.cc')],
     ['bytes, durations, gains per tick'])
prop('T01', 'Timestamps advance by exactly each stream\'s own duration',
     'For every set of substreams and parameters and every order of frames and blocks, each audio frame and parameter '
     'block starts where the previous one of the same stream ended and lasts its own duration, independently of the other streams. Unknown streams, '
     'duplicates and gaps between audio and parameters are refused.',
     ['histories', 'inputs'], 'every interleaving of frames and blocks', 'Tests step one or two streams a few times.',
     ['iamf/cli/global_timing_module.cc'], [('per-stream clock', 'end of the last frame or block', 'iamf/cli/global_timing_module.cc')],
     [('next start = previous end', 'iamf/cli/global_timing_module.cc')], ['start and end timestamps, status'])
prop('T02', 'Demixing parameters in force are those of the covering block, or the defaults',
     'For every order of adding, querying and consuming parameter blocks, the down-mixing and reconstruction-gain '
     'parameters reported for a time are those of the block covering it, and the defaults when there is none; blocks '
     'that do not match the expected time are refused. The smoothing weight follows its mode step by step from the initial value and never leaves its range.',
     ['histories'], 'every order of blocks, queries and updates', 'Tests exercise single transitions.',
     ['iamf/cli/parameters_manager.cc'], [('per-element demixing state', 'next timestamp, previous and next weight index', 'iamf/cli/parameters_manager.cc')],
     [('state update at the end of each frame', 'iamf/cli/parameters_manager.cc')], ['parameters and status after each call'])
prop('E01', 'The encoder emits every input sample exactly once and refuses calls out of order',
     'For every stream of input frames, the temporal units produced in order carry every input sample exactly once; '
     'the padding added at either end is exactly what the trim fields announce, so that decoding with trimming returns '
     'the input. Calls after finalizing, and finalizing twice, behave as documented, and descriptors are available before and after.',
     ['histories', 'inputs', 'configurations'], 'every sequence of encoder calls, frame sizes and input lengths',
     'Tests encode a few lengths; end-of-stream padding depends on lengths, frame sizes and codec delay together.',
     ['iamf/cli/iamf_encoder.cc', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc', 'iamf/cli/temporal_unit_view.cc'],
     [('encoder state', 'samples received, frames pending, finalized or not', 'iamf/cli/iamf_encoder.cc')],
     [('trimming state of the frame generator', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc')],
     ['bytes and status of every encoder call'])
prop('E02', 'Serialized output keeps OBU order and survives errors without partial files',
     'For every order of sequencer calls the output is the descriptors followed by the temporal units in the order pushed, '
     'each unit in canonical order with arbitrary OBUs exactly at their hooks; calls out of order are refused without output. '
     'After an error the output is abandoned, and updating the descriptors at the end never moves or changes the temporal units.',
     ['histories', 'fault_sequences'], 'every sequence of calls and failures', 'Tests drive the happy path and single failures.',
     ['iamf/cli/obu_sequencer_base.cc', 'iamf/cli/obu_sequencer_iamf.cc', 'iamf/cli/obu_sequencer_streaming_iamf.cc', 'iamf/cli/temporal_unit_view.cc'],
     [('state_', 'initialized, descriptors pushed, closed', 'iamf/cli/obu_sequencer_base.cc')],
     [('state checks on entry, abort on error', 'iamf/cli/obu_sequencer_base.cc')], ['bytes emitted and status'])
prop('E03', 'LPCM audio survives encoding and decoding bit for bit',
     'For every LPCM configuration (16, 24 or 32 bits, either byte order, singular or coupled channels, any frame size), encoding '
     'samples and decoding the frames returns the same samples, frame by frame in the order they were given. Frames of the wrong size, and frames after the encoder was finalized, are refused, never padded or cut silently.',
     ['inputs', 'configurations', 'histories'], 'every sample value, format and frame', 'Tests use a few values.',
     ['iamf/cli/codec/lpcm_encoder.cc', 'iamf/cli/codec/lpcm_decoder.cc', 'iamf/obu/decoder_config/lpcm_decoder_config.cc'], [],
     [('byte order and sample size from the codec config', 'iamf/cli/codec/lpcm_decoder.cc')], ['bytes and samples'])
prop('E04', 'Splitting parameter blocks neither loses nor alters any instant',
     'For every parameter block and every frame length, the parts cover exactly the requested time span in order, without gap '
     'or overlap, and at every instant of the span the parts give the value the original gives (points cut out of a linear animation within the rounding of Q7.8). '
     'Spans the block does not cover, and parts of a Bezier animation, are refused.',
     ['inputs'], 'every block, subblock layout and span', 'Tests check a few hand-made splits.',
     ['iamf/cli/parameter_block_partitioner.cc'], [], [('per-subblock clipping and animation split', 'iamf/cli/parameter_block_partitioner.cc')],
     ['durations and values of the parts'])
prop('M01', 'Sample processing keeps the frame contract in every call order',
     'For every sequence of frames and flushes, a processor accepts exactly frames of the declared channel count and '
     'at most the declared length, reports exactly the samples it produced for the last call, and refuses frames and flushes after the first flush. '
     'Trimming and interleaving samples of a frame drops exactly the announced samples at each end and keeps the rest in order.',
     ['histories', 'inputs'], 'every sequence of calls and frame shapes', 'Tests check single calls.',
     ['iamf/cli/sample_processor_base.cc', 'iamf/cli/sample_processing_utils.cc', 'iamf/cli/wav_writer.cc', 'iamf/cli/labeled_frame.cc', 'iamf/cli/ambisonics_mixer.cc'],
     [('state', 'taking frames or flushed, and the valid output span', 'iamf/cli/sample_processor_base.cc')],
     [('state check before the implementation is called', 'iamf/cli/sample_processor_base.cc')], ['status and output span'])
prop('M02', 'Rendered output is the gain-weighted sum of the elements, independent per frame',
     'For every layout pair and input, rendering an audio element applies exactly its layout\'s gain matrix to each '
     'sample, and a mix is the sum of its rendered elements scaled by the element and output gains, clipped only at the output. '
     'Channels absent from the input contribute nothing, and each frame depends only on its own samples.',
     ['inputs', 'configurations'], 'every layout pair, gain and signal', 'Tests render a few signals.',
     ['iamf/cli/rendering_mix_presentation_finalizer.cc', 'iamf/cli/renderer', 'iamf/cli/renderer/loudspeakers_renderer.cc'], [],
     [('gain tables and matrix product', 'iamf/cli/renderer/loudspeakers_renderer.cc')], ['rendered samples'])
prop('M03', 'Demixing undoes down-mixing for every layer layout',
     'For every scalable channel layout and every down-mixing mode, the signals that the down-mixer produces for the '
     'layers, coded with or without output gains, when demixed, give the original channels back up to rounding, and channels that were not down-mixed are passed on exactly.',
     ['inputs', 'configurations'], 'every layer structure, mode, weight and signal', 'Tests check one formula at a time.',
     ['iamf/cli/demixing_manager.cc', 'iamf/cli/demixer.cc', 'iamf/cli/downmixer.cc', 'iamf/cli/downmixer_factory.cc', 'iamf/cli/downmixer_manager.cc'], [],
     [('paired formulas', 'iamf/cli/demixer.cc')], ['channels before and after'])
prop('M04', 'Channel reordering is a permutation and output samples are written faithfully',
     'For every output layout and channel ordering, reordering moves whole channels to their documented place without '
     'changing, losing or duplicating any; an unsupported layout is left as it was. Layouts and profiles keep their identity and channel count between the public '
     'interface and the bitstream; the interleaved output holds every sample once, in time order, in the requested width and byte order, in the common format of the mix.',
     ['inputs', 'configurations'], 'every layout, ordering and frame', 'Tests cover some layouts.',
     ['iamf/api/conversion/channel_reorderer.cc', 'iamf/api/conversion/mix_presentation_conversion.cc', 'iamf/api/conversion/profile_conversion.cc',
      'iamf/cli/cli_util.cc', 'iamf/include/iamf_tools/iamf_tools_api_types.cc'], [],
     [('per-layout permutation', 'iamf/api/conversion/channel_reorderer.cc'), ('interleaving', 'iamf/cli/cli_util.cc')],
     ['channels before and after, bytes written'])
prop('N01', 'Numeric conversions are exact inside their range and refuse or clip outside it',
     'For every value: checked additions, narrowing casts and comparisons of a container size with a reported size give the exact result or an error, never a wrapped one; '
     'conversion to fixed point lands within one step of the value and refuses what cannot be represented, and conversion back is exact; integer samples survive the '
     'trip through the normalized form, which truncates and clips at full scale. PCM samples are written and read in the requested width and byte order.',
     ['inputs'], 'every value of every type', 'Tests sample boundary values.',
     ['iamf/common/utils/numeric_utils.cc', 'iamf/common/utils/numeric_utils.h', 'iamf/common/q_format_or_floating_point.cc', 'iamf/cli/sample_processing_utils.cc', 'iamf/common/utils/validation_utils.h'], [],
     [('range check before conversion', 'iamf/common/utils/numeric_utils.cc')], ['value and status'])
prop('R01', 'Every layout pair has its published gain matrix, from well-formed storage only',
     'For every pair of input and output layouts the renderer obtains the published gain matrix, with one row per input '
     'channel and one column per output channel, or a not-found error when none is published. Decompressing a stored matrix '
     'puts each value in its row and column, and sparse storage that is cut, uneven or shorter than its rows announce is refused.',
     ['configurations', 'inputs'], 'every pair of layouts, every stored byte string', 'Tests check some pairs and one malformed blob.',
     ['iamf/cli/renderer/gains/get_gains.cc', 'iamf/cli/renderer/gains/precomputed_compressed_gains.cc',
      'iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.cc', 'iamf/cli/renderer/gains/precomputed_gains.cc'], [],
     [('length checks while decompressing', 'iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.cc')], ['matrices and status'])
prop('W01', 'Wave input reaches the encoder exactly, each channel under its label',
     'For every wave file and every order of reads, each audio element receives every whole tick of its file once, in order, frame by frame, each sample of the channel that the metadata names under the label that '
     'it names, with exactly the value in the file: integers left-justified, floats scaled and clamped, a NaN as silence. The last read, and none before it, says that the file is finished; elements do not disturb each other. '
     'Files that are damaged, deeper than the codec, of another sample rate, channels the file does not have, unknown or repeated elements and labels are refused.',
     ['inputs', 'configurations', 'histories'], 'every file, metadata and order of reads', 'Tests read a few short files.',
     ['iamf/cli/wav_reader.cc', 'iamf/cli/wav_sample_provider.cc', 'iamf/cli/proto_conversion/channel_label_utils.cc', 'iamf/cli/proto_conversion/channel_label_utils.h'], [],
     [('de-interleaving and conversion', 'iamf/cli/wav_reader.cc')], ['samples by label, status, end flag'])
prop('G01', 'Descriptors say exactly what the user metadata says, or it is refused',
     'For every user metadata of sequence headers, codec configs, audio elements and mix presentations, the generators either make descriptors in which every field has '
     'exactly the value the user wrote (ids, layouts, gains, positions, loudness, tags, reserved fields, extension bytes, schedules), with only the documented overrides '
     '(roll distance, codec delay, ambisonics presets, the encoder\'s own tag), or refuse. A value outside the range of the field that has to hold it, an unknown or missing choice, '
     'a repeated audio element id, a reference to nothing, recon gain flags or durations that do not fit are refused and never truncated, wrapped or dropped; everything else is accepted; of codec configs with equal ids the first counts.',
     ['inputs', 'configurations'], 'every metadata', 'Tests write one good and a few bad messages per field.',
     ['iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc', 'iamf/cli/proto_conversion/proto_to_obu/codec_config_generator.cc',
      'iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc', 'iamf/cli/proto_conversion/proto_to_obu/ia_sequence_header_generator.cc', 'iamf/cli/proto_conversion/proto_utils.cc'], [],
     [('range-checked copying', 'iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc'), ('enum maps', 'iamf/cli/proto_conversion/lookup_tables.h')], ['descriptor fields and status'])
prop('G02', 'Blocks and other OBUs say exactly what the user metadata says, or it is refused',
     'For every parameter definition and every history of user metadata, each accepted parameter block lies where the metadata and its definition put it, follows the one before of its id without a gap, '
     'and carries exactly the durations and the animations, demixing modes or recon gains the user wrote; blocks of an unknown id, at another time, with another number of subblocks or with values '
     'that their fields cannot hold are refused. Arbitrary and metadata OBUs carry exactly the type, place, header and payload the user gave. Metadata made back from a block, a header or a sequence header says the same again.',
     ['inputs', 'histories'], 'every metadata and history', 'Tests generate a few blocks of each kind.',
     ['iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc', 'iamf/cli/proto_conversion/obu_to_proto/parameter_block_metadata_generator.cc',
      'iamf/cli/proto_conversion/proto_to_obu/arbitrary_obu_generator.cc', 'iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc'], [],
     [('subblock generation', 'iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc')], ['OBU fields, timestamps and status'])
prop('P01', 'Probing reports what the bitstream contains',
     'For every bitstream and every prefix of it, the probe reports exactly the descriptors a decoder would use, with every value as it is in the bitstream, '
     'in the order of their ids. The scan counts each frame, parameter block and delimiter once, gives every temporal unit its start, length, trims and first '
     'byte, and takes the duration from the longest substream, before trimming, at the rate of its codec. A stream that is cut, damaged, followed by another one, '
     'cancelled or over its budget is reported as that, with what was counted before that point.',
     ['inputs', 'crash_points'], 'every stream and every truncation', 'Tests probe a few streams.',
     ['iamf/cli/probe.cc'], [], [('OBU scan', 'iamf/cli/probe.cc')], ['probe report'])
prop('P02', 'Probe JSON is well formed and says exactly what was probed',
     'For every probe result the text is one well-formed JSON document: every field appears once with its value, strings with quotes, '
     'control characters or backslashes are escaped so that they read back unchanged, and lists keep their order and length.',
     ['inputs'], 'every probe result, every string', 'Tests compare a few documents.',
     ['iamf/cli/probe_json.cc'], [], [('escaping and separators', 'iamf/cli/probe_json.cc')], ['JSON text'])
prop('V01', 'The audio comparator flags exactly the differences beyond its thresholds',
     'For every pair of recordings the comparator fails when they differ in shape or rate, when any sample difference exceeds the transient threshold or when the '
     'sustained difference exceeds its threshold in enough consecutive blocks, and passes otherwise; identical recordings always pass, of any length.',
     ['inputs'], 'every pair of recordings', 'Tests compare a few signals.',
     ['validation/mlsd_comparator/mlsd_comparator.py', 'validation/mlsd_comparator/mlsd_comparator_main.py'], [],
     [('per-sample and per-block comparison', 'validation/mlsd_comparator/mlsd_comparator.py')], ['verdict'])
prop('V02', 'The verifier passes a codec only if every mix and layout was verified',
     'Whatever the outcome of each step, the verifier reports success only if there was something to verify and every mix and layout was decoded and '
     'passed; any failing, missing or crashing step makes the verdict a failure.',
     ['fault_sequences', 'inputs'], 'every combination of outcomes of the steps', 'There are no tests.',
     ['validation/iamf_verifier/iamf_verifier.py'], [], [('aggregation of results', 'validation/iamf_verifier/iamf_verifier.py')], ['exit code and verdict'])
prop('A01', 'ADM wave files are read chunk by chunk and split by object, or refused',
     'For every RIFF/WAVE file the reader finds each chunk at its offset with its size, honouring padding (of two chunks with one name the later counts), '
     'and gives the format and metadata fields as stored; a file that is truncated, inconsistent, lacks a required chunk or whose ADM metadata does not parse is refused. '
     'Splitting it gives every audio object exactly the samples of its own tracks, whichever other objects are left out; separating '
     'an LFE channel removes that channel and its metadata only; sample data that ends inside a frame or lies beyond the file is refused and leaves no output.',
     ['inputs', 'crash_points'], 'every chunk layout, every truncation, every assignment of tracks to objects', 'Tests use a few files.',
     ['iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc', 'iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc',
      'iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc'],
     [('chunk table', 'offset and size of each chunk', 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc')],
     [('bounded chunk walk', 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc'),
      ('track to object assignment', 'iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc')], ['chunk table, format info, wave files and status'])
prop('C01', 'A profile is accepted only within its published limits',
     'For every audio element and mix, the profiles it is reported compatible with are exactly those whose limits on '
     'elements, channels, layouts, codecs, headphones modes and sub-mixes it respects; no compatible profile is an error, and filtering never adds a profile.',
     ['inputs', 'configurations'], 'every element and mix configuration', 'Tests check one limit at a time.',
     ['iamf/cli/profile_filter.cc'], [], [('one filter per limit', 'iamf/cli/profile_filter.cc')], ['remaining profiles and status'])
prop('S01', 'Substreams are assigned to channels exactly once',
     'For every channel-based audio element, each layer\'s substreams are assigned to channels, pairs first, so that every channel of the highest layer is '
     'available exactly once, from a coded substream or by demixing, and output gains apply to exactly the channels of their layer that the flags name. '
     'Every mapped channel of a scene-based element belongs to exactly the substream the mapping names. '
     'Counts that do not match, layers that lose channels, extended layouts in more than one layer, repeated substreams and reserved modes are refused.',
     ['inputs', 'configurations'], 'every layer structure', 'Tests check the usual layouts.',
     ['iamf/cli/obu_with_data_generator.cc', 'iamf/cli/channel_label.cc', 'iamf/obu/audio_element.cc'], [],
     [('layer-by-layer accounting', 'iamf/cli/obu_with_data_generator.cc')], ['label assignment and status'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
