SCHEMA = ('schema and bit accessors', 'midi2/src/detail/schema.rs, midi2/src/detail/bit_ops.rs')
GEN = ('generated wrappers', 'midi2_proc/src/generate_message.rs')
PROPS = ('shared properties', 'midi2/src/detail/common_properties.rs')
FIXED_FILES = ['midi2/src/channel_voice1', 'midi2/src/channel_voice2', 'midi2/src/system_common', 'midi2/src/utility.rs', 'midi2/src/utility',
               'midi2/src/flex_data', 'midi2/src/ump_stream', 'midi2/src/detail', 'midi2_proc/src/generate_message.rs']
EXH = 'Complete for the listed obligations: every bit of every input is a free variable and the compiled MIR of the current tree is what is analysed.'

prop('C01', 'Every field of a parsed message is read from its place in the MIDI 2.0 layout',
     'For every fixed-size message type and both of its representations, each getter of a parsed message returns exactly the value encoded at the field\'s specified bit positions, whatever the other bits are.',
     'all message contents (all words or bytes of the message free), all fields of the 47 fixed-size message types',
     'Unit tests read one or two sample messages per field; a wrong mask, shift or word index that agrees on the samples passes.',
     FIXED_FILES, [SCHEMA, GEN, PROPS], observe=['getters of every message type'], note=EXH)
prop('C02', 'A setter stores its value in the field and changes nothing else',
     'Setting any field of any well-formed fixed-size message to any representable value makes the getter return that value, encodes it at the specified bits, and leaves every other bit of the message as it was, in every buffer that holds the message. An absent note attribute or bank leaves no data behind, and a controller given by its name is the controller of its number.',
     'all prior message contents and all values of the field type',
     'Unit tests set fields once, starting from an empty message, so bits that leak into or are cleared from other fields are mostly invisible.',
     FIXED_FILES, [SCHEMA, GEN, PROPS], observe=['setters, getters and data()'], note=EXH)
prop('C03', 'A new message is the well-formed default whatever was in its buffer',
     'Constructing a fixed-size message, in any supported buffer and with any previous buffer contents, yields the type\'s own header with every field at its default and a message the library itself parses; a buffer that is too small is refused with an error.',
     'all message types, both representations, array, vector and caller-supplied buffers of several sizes with arbitrary contents',
     'Tests construct in one or two clean buffers per type.',
     FIXED_FILES + ['midi2/src/buffer.rs'], [GEN, ('buffer traits', 'midi2/src/buffer.rs')], observe=['new, try_new, new_with_buffer, try_new_with_buffer, data()'], note=EXH)
prop('C04', 'Parsing accepts exactly the well-formed messages',
     'Parsing a slice as a given fixed-size message type succeeds exactly when the slice is long enough for the message, carries the header of that type, and every coded field holds a defined code; anything after the message is ignored; otherwise an error is returned.',
     'all slice lengths from zero to several units beyond the message and all contents',
     'Tests parse a handful of good slices and a few hand-picked bad ones per family.',
     FIXED_FILES, [GEN, ('minimum sizes', 'midi2_proc/src/generate_message.rs'), PROPS], observe=['TryFrom<&[u32]> and TryFrom<&[u8]>'], note=EXH)
prop('C05', 'The message enums parse a slice as the type whose header it carries',
     'Parsing a slice through a family enum (ChannelVoice1, UmpStream, ...), the top-level UMP enum or the byte-stream enum yields exactly the variant of the type whose header the slice carries, holding exactly that message\'s units, whenever that type accepts the slice, and an error otherwise; unassigned message types are refused.',
     'all slice contents, every slice length from zero to beyond the longest fixed-size message of the family',
     'Tests dispatch a few sample messages; a missing or shadowed entry of the dispatch table goes unnoticed (three flex data text messages were unreachable).',
     ['midi2/src/message.rs', 'midi2/src/channel_voice1.rs', 'midi2/src/channel_voice2.rs', 'midi2/src/system_common.rs', 'midi2/src/utility.rs', 'midi2/src/flex_data.rs', 'midi2/src/ump_stream.rs'],
     [('dispatch tables', 'midi2/src/message.rs and the TryFrom implementation of each family module')], observe=['TryFrom<&[u32]> and TryFrom<&[u8]> of the enums'], note=EXH)
SX = ['midi2/src/sysex7.rs', 'midi2/src/sysex8.rs', 'midi2/src/detail/helpers.rs', 'midi2/src/traits.rs']
BND = 'Complete within the stated bound on packets or bytes: inside it every bit of every input is a free variable. Longer messages are not decided.'
prop('C12', 'A system exclusive message parses exactly when it is one well-formed message',
     'A slice parses as a system exclusive 7 or 8 message over packets exactly when its leading run of packets of that type is one complete message (a complete packet, or start, continues and end) whose sizes, group and stream id are valid; over bytes, exactly when it starts with 0xF0 and has an end byte. data() is exactly that message.',
     'all contents of slices of up to 9 to 17 words (14 to 22 for system exclusive 8; 9 to 24 bytes); runs of 5 to 22 and of 258 packets (100 on the thorough tier) in which one packet is anything; byte slices of 64 and 300 with three free bytes; one message of 65540 payload bytes',
     'Tests parse a dozen sample messages; status sequences, size nibbles and what follows the message combine into far more cases.',
     SX, [('packet status, size and stream id checks', 'midi2/src/sysex7.rs, midi2/src/sysex8.rs'), ('shared packet checks', 'midi2/src/detail/helpers.rs')], observe=['TryFrom<&[u32]>, TryFrom<&[u8]>, data()'], note=BND)
prop('C13', 'Reading a system exclusive payload yields exactly its bytes',
     'For every well-formed system exclusive message, payload() yields the payload bytes in order and then ends; its length, size hint, count, nth and repeated reads agree with that sequence; payload_size() is its length; set_byte replaces exactly the byte at the index it names and panics beyond the payload.',
     'all contents and all packet-size combinations of messages of 1 to 3 packets (thorough: 4; system exclusive 8: 2, thorough 3; bytes: 5, thorough 11), followed by anything; all contents of listed packet-size combinations up to 5 packets of empty, partial and full packets, and of some of 12 to 43 packets (170 on the thorough tier) and of 258',
     'Tests iterate full packets; empty and partly filled packets in the middle of a message and nth across them are hardly sampled.',
     SX, [('payload iterators', 'PayloadIterator in midi2/src/sysex7.rs, midi2/src/sysex8.rs')], observe=['payload(), payload_size(), set_byte()'], note=BND)
prop('C14', 'Setting a system exclusive payload stores exactly that payload in canonical form',
     'A new system exclusive message is the empty message whatever its buffer held. Setting the payload makes it the canonical message with that payload: full packets with the right status, size, group and stream id, and in a message of several packets no stale bytes after the payload; when the buffer cannot hold it the call reports an overflow and leaves the empty message. An inexact size hint of the source iterator makes no difference.',
     'all payload bytes, groups and stream ids, previous contents and iterator size hints, payload lengths of 0 up to 10 to 40 (and more on the thorough tier), of 255 to 300 bytes (1500 on the thorough tier) of 258 packets and of 65540 bytes, of which a few are free',
     'Tests write a few payloads into clean buffers from iterators with exact size hints.',
     SX, [('payload writing', 'try_set_sysex_data in midi2/src/detail/helpers.rs'), ('resizing and formatting', 'try_resize, write_datum in midi2/src/sysex7.rs, midi2/src/sysex8.rs')], observe=['set_payload, try_set_payload, data()'], note=BND)
prop('C22', 'Splicing, inserting and appending payload acts like the same edit of a vector',
     'splice_payload, insert_payload, append_payload, append_byte and their fallible forms leave the message holding exactly the payload a vector would hold after the same edit, in canonical packets, whatever the packet sizes before, the storage, and the size hint of the source iterator; when the result cannot fit, the fallible form reports an overflow and leaves the empty message; indices beyond the payload panic.',
     'all contents, groups, stream ids and previous storage contents; payload lengths, ranges, replacement lengths, packet-size combinations and size hints enumerated up to a bound',
     'Tests splice a few payloads with exact size hints; the repeated growth, tail moves and compaction paths depend on lengths, hints and capacities together.',
     SX, [('splicing', 'try_splice_sysex_data in midi2/src/detail/helpers.rs'), ('moving the tail, compaction', 'move_payload_tail, compact in midi2/src/sysex7.rs, midi2/src/sysex8.rs')], observe=['splice_payload, insert_payload, append_payload, append_byte, try_*, data()'], note=BND)
prop('C15', 'Flex data texts are stored and read back exactly, in well-formed packets',
     'For every flex data text message: a new message is one packet with no text whatever its buffer held; setting a text stores exactly its bytes in canonical packets that all carry the message\'s group, address, channel, bank and status; text() and text_bytes() return exactly the text (its bytes other than NUL), whatever follows the message in the slice; a text that does not fit is refused and changes nothing; a slice parses exactly when it starts with one complete message of the type with UTF-8 text.',
     'all text bytes, groups, channels, earlier texts and buffer contents; text lengths of 0 to 3 packets, and several of 4 packets to 300 bytes (2000 on the thorough tier) and of 258 packets with any ASCII characters at a few places; slices of 0 to 13 words',
     'Tests set a few sample texts per type; lengths that are exact multiples of a packet, earlier longer texts and used buffers are hardly combined.',
     ['midi2/src/flex_data.rs', 'midi2/src/flex_data/text.rs', 'midi2/src/flex_data/unknown_metadata_text.rs', 'midi2/src/flex_data/unknown_performance_text.rs'],
     [('text writing and reading', 'midi2/src/flex_data/text.rs'), ('shared flex data properties', 'midi2/src/flex_data.rs')], observe=['set_text, try_set_text, text(), text_bytes(), group(), optional_channel(), data(), TryFrom'], note=BND)
prop('C16', 'Stream texts are stored and read back exactly, in well-formed packets',
     'For EndpointName, ProductInstanceId and FunctionBlockName: a new message is one packet with no text whatever its buffer held; setting the text stores exactly its bytes in canonical packets that all carry the status and, where there is one, the function block of the message; the text and its bytes are read back exactly, whatever follows the message in the slice; a text that does not fit is refused and changes nothing; a slice parses exactly when it starts with one complete message of the type with UTF-8 text.',
     'all text bytes, function blocks, earlier texts and buffer contents; text lengths of 0 to 3 packets, and several of 4 packets to 300 bytes (2000 on the thorough tier) and of 258 packets with any ASCII characters at a few places; slices of 0 to 13 words',
     'Tests set a few sample names; the function block of added packets, exact multiples of a packet and used buffers are hardly combined.',
     ['midi2/src/ump_stream.rs', 'midi2/src/ump_stream/endpoint_name.rs', 'midi2/src/ump_stream/product_instance_id.rs', 'midi2/src/ump_stream/function_block_name.rs'],
     [('text writing and reading', 'midi2/src/ump_stream.rs'), ('function block field', 'midi2/src/ump_stream/function_block_name.rs')], observe=['set_name, set_id, name(), name_bytes(), id(), id_bytes(), function_block(), data(), TryFrom'], note=BND)
prop('C23', 'A packet parses and reads as its own words say',
     'For each packet type, and the packet enum that packets() yields: parsing a slice succeeds exactly when it carries the message type of the family with a valid status and byte count, and the packet is exactly its own words; group, channel, format, status, stream id and payload are those the words encode, with any mixture of next and nth; setting the group or channel changes only that field.',
     'all contents of slices of zero words to two words beyond the packet; every mixture of up to 13 next and nth steps',
     'Tests read a few sample packets; sizes 0 and 15, nth after next and the step after nth are not combined.',
     ['midi2/src/packet.rs', 'midi2/src/sysex7/packet.rs', 'midi2/src/sysex8/packet.rs', 'midi2/src/channel_voice1/packet.rs', 'midi2/src/channel_voice2/packet.rs', 'midi2/src/flex_data/packet.rs', 'midi2/src/ump_stream/packet.rs', 'midi2/src/utility/packet.rs', 'midi2/src/system_common/packet.rs'],
     [('packet types', 'packet.rs of each family'), ('packet enum', 'midi2/src/packet.rs')], observe=['Packet::try_from, group, channel, format, status, stream_id, payload'], note=EXH)
prop('C08', 'Converting between bytes and packets keeps the message',
     'Every message with both representations converts from bytes to packets and back without changing its fields: the packet has group zero and exactly the fields of the byte message, the byte message exactly the status and fields of the packet; the conversion through the family enum gives the same variant; system exclusive payloads arrive complete and in canonical form; a conversion that cannot fit reports an overflow and one that fits does not.',
     'all message contents, with and without trailing data, converted into vectors, arrays and growing buffers of several capacities; system exclusive payloads of 0 to 19 bytes (31 on the thorough tier) in all mixtures of packet sizes listed',
     'Tests convert one or two sample messages per type into buffers of comfortable size.',
     ['midi2/src/traits.rs', 'midi2/src/channel_voice1.rs', 'midi2/src/system_common.rs', 'midi2/src/sysex7.rs', 'midi2_proc/src/derives.rs', 'midi2_proc/src/generate_message.rs'],
     [('conversion traits', 'FromBytes, FromUmp, TryFromBytes, TryFromUmp in midi2/src/traits.rs'), ('derived and generated conversions', 'midi2_proc/src/derives.rs, midi2_proc/src/generate_message.rs'), ('system exclusive conversion', 'midi2/src/sysex7.rs')],
     observe=['into_ump, into_bytes, try_into_ump, try_into_bytes'], note=BND)
prop('C09', 'Moving a message to another buffer keeps exactly its data',
     'Rebuffering a message (rebuffer, array_rebuffer and try_rebuffer, on the message, on its family enum and on the top-level enum) yields a message of the same variant with exactly the same data; the fallible form reports an overflow when the data does not fit the target, and succeeds whenever the target holds the whole source buffer; the infallible array form never yields a cut message.',
     'every message type over shared and mutable slices, arrays, vectors and caller-supplied buffers; all contents, trailing data of several lengths, targets from empty to larger than the source; system exclusive and text messages of the listed packet shapes',
     'Tests rebuffer a few samples into one target each; a wrong arm of the derived conversions or a wrong length in one buffer combination goes unnoticed.',
     ['midi2/src/buffer.rs', 'midi2/src/traits.rs', 'midi2_proc/src/derives.rs', 'midi2_proc/src/generate_message.rs'],
     [('buffer conversions', 'FromBuffer and TryFromBuffer in midi2/src/buffer.rs'), ('generated rebuffering', 'midi2_proc/src/generate_message.rs, midi2_proc/src/derives.rs')],
     observe=['rebuffer_into, array_rebuffer_into, try_rebuffer_into, data()'], note=BND)
prop('C17', 'Enum conversions, groups and channels keep the message and every packet',
     'Converting a message into its family enum, and either into the top-level enum, gives the variant of that type with the same data; group and channel, and bank and status of flex data, read through message or enum are those of the message; setting them changes that field in every packet and nothing else; two messages of a fixed-size type, alone or in an enum, are equal exactly when their data is.',
     'all contents of every fixed-size type and of text and system exclusive messages of one to three packets; with and without trailing data; shared slices, arrays and vectors',
     'Tests convert and set the group on a few single-packet messages; one packet of a long message left behind, or one variant converted into another, goes unnoticed.',
     ['midi2/src/message.rs', 'midi2_proc/src/derives.rs', 'midi2_proc/src/generate_message.rs', 'midi2/src/traits.rs', 'midi2/src/detail/common_properties.rs'],
     [('derived enum traits', 'Grouped, Channeled, From in midi2_proc/src/derives.rs'), ('group and channel properties', 'midi2/src/detail/common_properties.rs'), ('system exclusive group', 'midi2/src/sysex7.rs, midi2/src/sysex8.rs')],
     observe=['From for enums, group(), set_group(), channel(), set_channel(), =='], note=BND)
prop('C18', 'packets() yields exactly the packets of the message, in order',
     'For every message and enum, packets() yields the packets of the message in order, each exactly its own words, and then ends for good; its length, size hint, count and nth agree with that sequence, and nothing that follows the message in the buffer is yielded.',
     'all contents of every fixed-size type and of text and system exclusive messages of one to three packets, with trailing data of several lengths, and mixtures of next and nth',
     'Tests iterate a few sample messages from the start.',
     ['midi2/src/packets.rs', 'midi2/src/packet.rs', 'midi2/src/detail/helpers.rs', 'midi2_proc/src/derives.rs'],
     [('packet iterator', 'midi2/src/packets.rs'), ('derived Packets', 'midi2_proc/src/derives.rs')],
     observe=['packets(), PacketsIterator'], note=BND)
prop('C21', 'A MIDI-CI discovery query parses, builds and reads as its bytes say',
     'For ci::DiscoveryQuery of either version: a slice parses exactly when it starts with one complete system exclusive message carrying the discovery header of that version and at least its size; a new message is exactly that header with all fields zero, whatever the storage held before; each field reads and writes exactly its own 7-bit bytes and nothing else; rebuffering keeps the data; no input makes parsing or reading panic.',
     'all contents of slices of 0 to 35 bytes (43 on the thorough tier), both supported versions and three unsupported ones, all field values and previous buffer contents',
     'Tests read and write one sample per field; messages followed by other data, bytes above 0x7F and unsupported versions are not sampled.',
     ['midi2/src/ci.rs', 'midi2/src/ci/discovery.rs', 'midi2/src/ci/common_properties.rs', 'midi2/src/detail/encode_7bit.rs', 'midi2_proc/src/generate_ci.rs'],
     [('generated CI message', 'midi2_proc/src/generate_ci.rs'), ('fields', 'midi2/src/ci/discovery.rs, midi2/src/ci/common_properties.rs'), ('7-bit numbers', 'midi2/src/detail/encode_7bit.rs')],
     observe=['DiscoveryQuery::try_from, new, try_new, new_with_buffer, try_new_with_buffer, getters and setters, Ci'], note=BND)
prop('C20', 'Every feature combination builds, offers what it names, and works without std',
     'Whatever combination of cargo features is enabled, the crate builds without unsafe code, and without the std feature it and its dependencies need only core; each feature offers exactly its own modules, message types and enum variants; vectors are buffers and strings are read exactly with std; with a single feature and no std, parsing, building, reading and writing messages of that type, and the routing of UmpMessage and BytesMessage, behave as in the full build, and messages of other types are refused.',
     'all combinations of the ten features (none, single, pairs, all but one and all of them on the quick tier); for the single-feature builds all message contents as in the other properties',
     'Tests build with all features, so code that needs a feature it is not gated by, or behaves differently without one, compiles and passes.',
     ['midi2/Cargo.toml', 'midi2/src/lib.rs', 'midi2/src/message.rs', 'midi2/src/packet.rs', 'midi2/src/detail.rs', 'midi2/src/buffer.rs', 'midi2/src/error.rs', 'midi2_proc/src/common.rs'],
     [('feature gates', 'cfg attributes in midi2/src'), ('generated std attributes', 'std_only_attribute in midi2_proc/src/common.rs')],
     observe=['cargo build --no-default-features --features ..., UmpMessage::try_from, BytesMessage::try_from'], note='exhaustive over feature sets on the thorough tier',
     tech='type checking of the crate and of witness clients under each feature set, with a core-only sysroot where std is off; bit-level dataflow over MIR for the single-feature builds')
prop('C25', 'Misuse of a message does not compile',
     'The type system keeps messages valid: a message over a borrowed slice cannot be changed; operations that need to grow a buffer exist only where it can grow, otherwise in their fallible form; an array too small for a message is refused by new, array_rebuffer, into_ump and into_bytes; group, packets, conversions and enums exist only for the representations they speak about; no message is made or changed without going through validation and setters; a message, its data and its readers cannot outlive or be changed behind their buffer; values have the width of their field; messages are Send, Sync, Eq, Debug and Copy as their buffer is.',
     'every message type, field, constructor, conversion and buffer of the crate, as pairs of clients',
     'A test cannot contain a program that must not compile; the crate has one compile_fail example.',
     ['midi2/src/buffer.rs', 'midi2/src/traits.rs', 'midi2_proc/src/generate_message.rs', 'midi2_proc/src/derives.rs', 'midi2/src/sysex7.rs', 'midi2/src/sysex8.rs', 'midi2/src/flex_data.rs', 'midi2/src/ump_stream.rs'],
     [('buffer traits', 'midi2/src/buffer.rs'), ('array size check', 'ArraySizeValid in midi2/src/traits.rs'), ('generated types and bounds', 'midi2_proc/src/generate_message.rs')],
     observe=['the public API as a type checker sees it'], note='exhaustive over the listed pairs',
     tech='compile-fail witnesses: pairs of clients of which the type and borrow checker must refuse exactly one')
prop('C06', 'No input makes parsing or reading panic',
     'Whatever a slice holds and however long it is, parsing it as any message type, packet type or enum ends with a message or an error; and whatever was parsed, every getter, iterator, data(), equality, and every packet and payload iteration returns. Parsing and reading never panic, overflow, index out of range or fail an internal assertion.',
     'all contents of slices from zero units to beyond the longest message of the listed lengths, every message and packet type, every getter',
     'Fuzz-like inputs are what tests sample least: sizes out of range, inner packets with odd sizes, undefined codes, cut messages.',
     FIXED_FILES + ['midi2/src/sysex7.rs', 'midi2/src/sysex8.rs', 'midi2/src/packet.rs', 'midi2/src/message.rs'],
     [('validation in TryFrom', 'midi2_proc/src/generate_message.rs'), ('readers that rely on it', 'midi2/src/detail, midi2/src/sysex7.rs, midi2/src/sysex8.rs, midi2/src/flex_data, midi2/src/ump_stream')],
     observe=['TryFrom<&[u32]>, TryFrom<&[u8]>, getters, payload(), packets(), text()'], note=BND)
prop('C07', 'Every provided buffer keeps the contents its contract promises',
     'Slices, mutable slices, arrays, vectors and borrowed vectors, as message buffers: buffer() and buffer_mut() are exactly the units held; a resize keeps what both sizes share and zeroes what is new; a fallible resize fails exactly when there is no room and changes nothing; default buffers are zero or empty; conversions between buffers keep every unit in order, zero the rest of a larger array and fail exactly when there is no room; a message built in a borrowed vector leaves its units there.',
     'all contents; lengths of 0 to 5 units (9 on the thorough tier) and, for fallible resizes of fixed buffers, absurdly large requests',
     'Tests use each buffer in one or two sizes and mostly clean.',
     ['midi2/src/buffer.rs'], [('buffer traits and their implementations', 'midi2/src/buffer.rs')],
     observe=['Buffer, BufferMut, BufferResize, BufferTryResize, BufferDefault, FromBuffer, TryFromBuffer'], note=BND)
prop('C24', "A message's Debug text shows its type and every unit",
     "The Debug text of every message starts with the name of its type and shows each unit of the message, in order, as a full-width upper-case hexadecimal number (two digits per byte, eight per word); that of an enum shows the variant and the message in it. Formatting never panics.",
     'all contents of every message type in both representations, every enum variant, and system exclusive and text messages of several shapes',
     'Tests compare the text of one sample message per representation at most.',
     ['midi2_proc/src/generate_message.rs', 'midi2/src/detail/helpers.rs', 'midi2/src/sysex7.rs', 'midi2/src/sysex8.rs'],
     [('generated Debug', 'midi2_proc/src/generate_message.rs'), ('units in hexadecimal', 'midi2/src/detail/helpers.rs')], observe=['Debug'], note=BND)

prop('C10', 'Messages over borrowed and fixed storage need no allocation and no hidden state',
     'Parsing, building, reading, editing, converting, iterating, comparing and formatting messages over slices, mutable slices, arrays and caller supplied storage never allocates or frees memory, keeps no global or thread-local state, and calls nothing outside Rust code, whatever the input and its length. (With std, getters that return a String, and the parsing of text messages, which they share a validation with, are excepted.)',
     'all inputs of any length, every public operation of every message type, enum and packet type over borrowed and fixed storage',
     'Tests run with an allocator present, so an allocation on some path is invisible to them.',
     ['midi2/src', 'midi2_proc/src/generate_message.rs', 'midi2_proc/src/derives.rs'], [('the operations themselves', 'the call graph below the public API')],
     observe=['every public operation over borrowed and fixed buffers'], tech='effect analysis over the monomorphised call graph (flow insensitive, any input length)',
     note='Complete for the listed operations: the call graph is an over-approximation, so nothing reachable is missed; calls that do not return are not followed.')
prop('C26', "No operation's use of the stack grows with its input",
     'Whatever the length and the contents of a message, parsing, building, reading, editing, splicing, converting, iterating, comparing and formatting it nest a bounded number of calls: no function of the library that such an operation runs can be called again, directly or through others, while it is running. The stack an operation needs does not depend on its input.',
     'all inputs of any length, every public operation of every message type, enum and packet type over borrowed, fixed and growing storage',
     'A recursion works in every test whose message is short; it overflows the stack of a small device, or of any thread when the message is long.',
     ['midi2/src', 'midi2_proc/src/generate_message.rs', 'midi2_proc/src/derives.rs'], [('the operations themselves', 'the call graph below the public API')],
     observe=['every public operation'], tech='strongly connected components of the monomorphised call graph (flow insensitive, any input length)',
     note='Complete for the listed operations as far as calls resolve: a call through a function pointer or trait object counts at the place where the pointer or object was made. Calls that do not return are not followed. Recursion inside the standard library is not the subject.')
prop('C11', 'Copies and comparisons of messages, values and errors are faithful',
     'A clone of a message holds the same data, equals its original, and neither follows later changes of the other, for every message type and enum and in every kind of buffer; two field values (controllers, attributes, chord types, alterations, key signatures, ...) are equal exactly when they encode alike, and two messages of several packets over buffers of their size exactly when their data is; packets exactly when their words are. An error converts into the general Error of its kind with its message, errors compare by kind and message, and their text tells the cause.',
     'all contents of every fixed-size message type and of system exclusive and text messages of several shapes; all pairs of values of every field type; all pairs of packets',
     'Tests compare a message with one expected value; an equality or copy that forgets part of a value makes such assertions pass.',
     ['midi2/src/error.rs', 'midi2/src/channel_voice2', 'midi2/src/flex_data', 'midi2/src/ump_stream', 'midi2/src/message.rs', 'midi2_proc/src/generate_message.rs'],
     [('derived Clone and PartialEq', 'midi2_proc/src/generate_message.rs, the value enums'), ('error conversions', 'midi2/src/error.rs')],
     observe=['clone, ==, !=, Error::from, Display and Debug of errors'], note=BND)
