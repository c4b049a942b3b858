#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, E, L, B, P = ("gift/src/decode.rs", "gift/src/encode.rs", "gift/src/lzw.rs",
                 "gift/src/block.rs", "gift/src/private.rs")
M = "gift-bin/src/main.rs"
props = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})


p("C01", "Image data survives encoding and decoding unchanged",
  "Any sequence of color indices, of any length and with any values from 0 to 255, which is written as image data and read back behind an image descriptor of the same size comes back as exactly the same sequence. Neither writing nor reading it fails.",
  ["inputs"], "all index sequences: lengths from 0 to beyond several full code tables, all value ranges, every alignment of the final code within the last byte",
  "The outcome depends on code table growth, width changes, table resets and the bit position of the last code; a test fixes a handful of images, while failures sit at particular lengths and contents.",
  [L, E, D], [("LZW compressor", L + " Compressor::compress"), ("LZW decompressor", L + " Decompressor::decompress"), ("sub-block framing", E + " ImageData::format")],
  "bytes from the block encoder, and the image data block read back from them",
  [("code table", "strings defined since the last clear code", L + " Compressor.table / Decompressor.table"), ("code width", "bits of the next code", L + " code_bits")])

p("C02", "Written image data is an LZW stream every GIF decoder can read",
  "Image data is written as a code size byte from 2 to 8 that covers every index in the data, then sub-blocks of 1 to 255 bytes, then a zero byte. The sub-blocks together form a GIF LZW code stream which begins with a clear code, never uses an undefined code, widens codes exactly when the format requires (up to 12 bits), expands to the data and closes with the end code.",
  ["inputs"], "all index sequences, in particular those that fill the code table one or more times",
  "A round trip through the crate's own decoder cannot see a deviation both sides share; an independent definition of the format is needed, applied to all inputs.",
  [L, E], [("LZW compressor", L + " Compressor::compress"), ("code packing", L + " Compressor::pack"), ("minimum code size", E + " ImageData::format")],
  "bytes from the block encoder",
  [("code table", "strings defined since the last clear code", L + " Compressor.table")])

p("C03", "Every valid LZW stream is expanded exactly",
  "For every valid GIF LZW stream the decoded image data is exactly the expansion the format defines. This includes every code size from 2 to 8, clear codes at any point or missing at the start, a full code table used long after it filled up, codes that refer to the string being defined, streams without an end code, and any division of the stream into sub-blocks.",
  ["inputs", "programs"], "all valid code streams, not only the ones this crate's encoder produces, and all divisions into sub-blocks",
  "The crate's encoder always clears a full table and always takes the longest match, so encoder based tests never exercise most valid streams; hand-made streams cover a few.",
  [L, D], [("LZW decompressor", L + " Decompressor::decompress_data"), ("code unpacking", L + " Decompressor::unpack"), ("sub-block input", D + " ImageData::parse_sub_block")],
  "image data block returned by the block iterator",
  [("code table", "strings defined since the last clear code", L + " Decompressor.table"), ("carried bits", "bits of a code split over sub-blocks", L + " Decompressor.code/n_bits")])

p("C04", "Corrupt or short image data is an error, surplus data is dropped",
  "An LZW stream that uses a code not yet defined is reported as invalid LZW data. A stream which ends before it has produced every pixel of the image is reported as incomplete image data. Pixels beyond the image size and anything after the end code are ignored, so decoded image data always has exactly width times height entries.",
  ["inputs"], "all code streams and image sizes: undefined codes at every table size, streams short by any amount, surplus by any amount, data after the end code",
  "The set of corrupt streams is unbounded and each table state has its own first undefined code; a wrong guess yields plausible but wrong pixels rather than a crash.",
  [L, D], [("undefined code check", L + " Decompressor::decompress_data"), ("end of data check", D + " ImageData::finish"), ("surplus removal", D + " ImageData::truncate")],
  "result of the block iterator for the image data block")

p("C05", "Decoding any bytes ends without a panic",
  "For any input bytes and any of the four decoding interfaces (blocks, frames, steps, repeating steps), decoding never panics and never runs forever on its own: the number of items is bounded by the input. The first failure is reported as one error and the iterator then ends.",
  ["inputs"], "all byte strings, including random bytes, mutated files and hostile lengths, for every decoding interface",
  "Panics and endless loops hide behind field combinations nobody writes by hand; the claim is about all byte strings.",
  [D, L, P], [("block iterator", D + " Blocks::next"), ("frame iterator", D + " Frames::next"), ("step iterators", D + " StepsOnce::next, StepsLooping::next")],
  "item sequence of each iterator, panics and running time")

p("C06", "Blocks are decoded with exactly the contents of the file",
  "The block iterator returns the blocks of a GIF file in file order, each with exactly the field values the GIF format defines for its bytes: version, screen and image geometry as little-endian numbers, flags, color tables of the announced size, graphic control values, and the sub-blocks of comment, application, plain text and unknown extensions. A byte which does not start a block, a wrong signature, an unsupported version and a graphic control of the wrong size are each reported as their own error.",
  ["inputs", "programs"], "all block sequences and all field values, including 16-bit values above 255, all 256 flag values, all extension labels, sub-blocks of 1 to 255 bytes",
  "Each block type has many fields and the type of the next block depends on the previous ones; tests check a few small files.",
  [D, B], [("block parsing", D + " Blocks::parse_block"), ("expected next block", D + " Blocks::expected_next"), ("sub-blocks", D + " Blocks::decode_sub_block")],
  "items of the block iterator",
  [("expected next", "which block must follow, and its size", D + " Blocks.expected_next")])

p("C07", "Blocks are encoded in the layout the GIF format defines",
  "Each block handed to the block encoder is written in full and exactly in the layout the GIF format defines for it, for all field values and all sub-blocks, with nothing before, between or after the blocks. Reading the written bytes back gives the same blocks.",
  ["inputs", "programs"], "all sequences of blocks and all field values",
  "Byte order, introducer, length and terminator bytes must be right for every block type and value; tests compare three complete files.",
  [E, B], [("block formatting", E + " Header::format … Trailer::format"), ("block encoder", E + " BlockEnc::encode")],
  "bytes written by the block encoder")

p("C08", "Frames and preamble group the right blocks",
  "Every image of a file becomes one frame, in file order, holding the image's descriptor, local color table, data, and the graphic control that precedes it if there is one; a graphic control in front of a plain text extension belongs to that text and to no frame. The preamble holds the version, screen descriptor, global color table, last animation loop extension and all comments that precede the first frame. Two graphic controls for one image, and asking for the preamble of a file without frames, are reported as an invalid block sequence.",
  ["inputs", "programs"], "all sequences of blocks, including comments, application and unknown extensions in any position",
  "Which blocks meet in a frame depends on everything since the previous frame; the sequences to consider grow exponentially.",
  [D, B], [("grouping", D + " Frames::handle_block"), ("preamble", D + " Frames::preamble")],
  "items of the frame iterator and the preamble",
  [("pending blocks", "graphic control, descriptor and color table waiting for image data", D + " Frames.graphic_control_ext, image_desc, local_color_table")])

p("C09", "Frame pixels land at the right place with the right color",
  "Each step is a picture of the size of the logical screen in which every pixel of the frame is drawn at the frame's offset, in row order or, for interlaced frames, in the four-pass order of the GIF format. Its color is the entry of the frame's local color table if there is one, otherwise of the global color table; pixels equal to the transparent color index leave what was there before. The step also carries the frame's delay time and transparent color index.",
  ["inputs"], "all screen sizes, frame offsets and sizes, interlaced or not, color table sizes, index values and transparent indices",
  "Row order, offsets and table choice interact for every geometry; errors show for particular heights, widths or offsets only.",
  [D, P], [("drawing", D + " update_frame"), ("row order", D + " frame_rows"), ("table choice", D + " update_raster")],
  "raster, delay and transparent color of decoded steps")

p("C10", "Animations are composed with disposal methods honored",
  "Before a frame is drawn, the picture is the previous step's picture after disposing of the previous frame: kept for the methods none, keep and reserved, cleared to transparent within the frame's rectangle for background, and restored to what it was before that frame for previous. The first frame is drawn on a fully transparent picture.",
  ["inputs", "histories"], "all sequences of frames with any mixture of disposal methods, rectangles and transparency",
  "Every step depends on the whole history of frames; tests look at single frames.",
  [D], [("composition", D + " StepsOnce::apply_frame")],
  "sequence of rasters from the step iterators",
  [("canvas", "picture carried from frame to frame", D + " StepsOnce.raster")])

p("C11", "Invalid frames give an error instead of a picture",
  "A frame which is empty or reaches outside the logical screen, a logical screen without pixels, a frame with no color table to use, and a pixel whose index is not in the color table each produce the corresponding error. Steps that come before the invalid frame are still returned unchanged, and nothing is returned after the error.",
  ["inputs", "histories"], "all geometries around the screen edges including 16-bit overflow, all color table sizes and index values, at every position in an animation",
  "Off-by-one acceptance shows only on exact edges; checks must hold for each of them in every frame of an animation.",
  [D], [("region check", D + " update_raster"), ("index check", D + " update_frame"), ("screen check", D + " StepsOnce::make_raster")],
  "item sequence of the step iterators")

p("C12", "Repeating iteration follows the loop count",
  "Iterating a decoder directly returns the same steps as iterating without repetition; with loop count N in the file the whole animation is repeated N further times, with loop count zero it repeats without end, and with no loop count it is shown once. A decoding error ends the iteration after the steps that precede it, without repetition.",
  ["inputs", "histories"], "all loop counts, numbers of steps and error positions, over arbitrarily many calls",
  "The claim is about unbounded sequences of calls and their interplay with errors.",
  [D, B], [("looping", D + " StepsLooping::next"), ("loop count", B + " Application::loop_count")],
  "item sequence of the repeating iterator compared with the one without repetition",
  [("remaining loops", "how often the animation still repeats", D + " StepsLooping.loop_count"), ("position", "next step", D + " StepsLooping.step_n")])

p("C13", "The frame encoder enforces preamble, frames, trailer",
  "The frame encoder accepts exactly one preamble, then any number of frames, then exactly one trailer; any other call is refused as an invalid block sequence and writes nothing. What it writes for accepted calls is, in order, the blocks of the preamble (version, screen, global color table, loop extension, comments) and of each frame (graphic control, descriptor, local color table, data) and the trailer.",
  ["programs", "histories"], "all sequences of calls with all combinations of optional blocks",
  "A call protocol is a claim about all call sequences, including repeated and misplaced calls after refusals.",
  [E], [("call protocol", E + " FrameEnc::encode_preamble, encode_frame, encode_trailer")],
  "result of each call and bytes written",
  [("progress", "preamble or trailer already written", E + " FrameEnc.has_preamble, has_trailer")])

p("C14", "Steps survive encoding and decoding",
  "Encoding a sequence of indexed steps of one non-empty size and decoding the result gives the same number of steps with the same pictures (each pixel the palette color of its index, drawn over earlier steps where transparent), delay times, transparent colors and effect of disposal, and the loop count that was set. Palettes may have 1 to 256 colors and differ between steps, a global color table may be set in advance, and the file is complete, with nothing behind its trailer, once the encoder is dropped. A step of another size, or larger than 65535 in a dimension, is refused with an error and leaves the rest of the file intact.",
  ["inputs", "histories"], "all sequences of steps: sizes, palettes of every length, equal or different palettes, builder settings, loop counts, refused steps in between",
  "Color table choice depends on the first step and on each later one; palette length, padding and image content interact. Tests encode single images.",
  [E, P], [("step encoding", E + " StepEnc::encode_indexed_raster"), ("color table", E + " make_color_table"), ("completion", E + " StepEnc::drop")],
  "results of the step encoder, written bytes, and the steps decoded from them",
  [("preamble", "what was written for the whole file", E + " StepEnc.preamble")])

p("C15", "The result does not depend on how the reader delivers bytes",
  "Decoding gives the same items however the reader splits the data into reads, and interrupted reads are retried. A reader failure is reported as that I/O error after the items that were complete before it, and a reader that ends too early as unexpected end of file. The decoder never takes bytes from the reader beyond the trailer.",
  ["schedules", "inputs", "fault_sequences"], "all ways to split the input into reads, interruptions at any point, a failure at every byte offset",
  "Tests read from a slice that always delivers everything; splits and failures are a schedule space.",
  [D], [("buffer filling", D + " Blocks::fill_buffer")],
  "items of the iterators and position of the reader")

p("C16", "The result does not depend on how the writer accepts bytes",
  "Encoding writes the same bytes however the writer splits them into writes, and interrupted writes are retried. When the writer fails the call in progress returns that I/O error, and the bytes accepted so far are a prefix of the fault-free output. Everything a successful call encodes has reached the writer when the call returns.",
  ["schedules", "inputs", "fault_sequences"], "all ways the writer may split or interrupt, a failure at every byte offset, for block, frame and step encoders",
  "Tests write to a vector which never fails and accepts everything.",
  [E], [("block formatting", E + " format functions"), ("encoders", E + " BlockEnc, FrameEnc, StepEnc")],
  "result of each call and bytes accepted by the writer")

p("C17", "The size limit is enforced and bounds memory",
  "An image or logical screen with more pixels than the configured maximum (33554432 if not configured) is refused as too large, and one with at most that many pixels is not refused for its size. While decoding blocks, frames or steps, memory use stays within a fixed multiple of the maximum and the length of the input, plus a constant of a few megabytes, whatever sizes the file claims and however much data it expands to.",
  ["inputs", "configurations"], "all sizes on either side of the limit, all limits, hostile expansions",
  "Memory use for hostile input is not visible in functional tests, and the limit is a boundary in a two-dimensional space of sizes.",
  [D, P], [("limit", D + " Blocks::parse_image_desc, StepsOnce::check_screen_sz"), ("surplus removal", D + " ImageData::truncate")],
  "items of the iterators and peak heap usage")

p("C18", "Packed fields are independent and read back as set",
  "For the screen descriptor, image descriptor and graphic control, each setter changes only the field it names and the getter returns the value that was set, for every value and whatever was set before. The color table configuration counts as one field, for the screen together with the color resolution, which follows the table length; setting the transparent color sets its index too (0 for none). Every flags value is preserved and interpreted as the GIF format defines. A color table configuration of any requested length has the smallest allowed power of two that holds it, at most 256.",
  ["programs", "inputs"], "all sequences of setter calls on all starting flag values, all requested lengths",
  "Bit fields share bytes, so every setter must be right against every prior state.",
  [B], [("screen flags", B + " LogicalScreenDesc"), ("image flags", B + " ImageDesc"), ("control flags", B + " GraphicControl"), ("table configuration", B + " ColorTableConfig")],
  "getters of the block types after each setter call",
  [("flags", "packed bit fields", B + " flags")])

p("C19", "Loop counts are stored and recognized in the standard form",
  "A loop count from 0 to 65535 is stored as the standard NETSCAPE2.0 application extension with the count in little-endian order. A loop count is recognized for the identifiers NETSCAPE2.0 and ANIMEXTS1.0 with a three byte sub-block whose first byte is 1, and for no other application extension.",
  ["inputs"], "all loop counts and all near-miss application extensions",
  "The value space is 65536 counts times all malformed variants; byte order errors vanish for symmetric values.",
  [B], [("loop count", B + " Application::with_loop_count, loop_count")],
  "application block contents, and loop count of decoded files")

p("C20", "Truncated files give their complete parts, then an error",
  "When a valid file is cut off at any byte before its trailer, every interface returns exactly the blocks, frames or steps that lie completely before the cut, followed by one unexpected end of file error.",
  ["inputs", "crash_points"], "every file and every cut position",
  "Each cut position is a different parser state; tests cut nowhere.",
  [D], [("end of input", D + " Blocks::fill_buffer")],
  "item sequence of each iterator on every prefix of a file")

p("C21", "The gift command reports what is in the file",
  "For a decodable file the command prints the file name, version, number of frames, repeat count if any (∞ for 0), the non-empty comment lines before the first frame, the headings of the columns, and for each frame in order its number, interlacing, delay, disposal method, size, position, number of colors (marked as global or local) and transparent index; it then exits with success. For a file it cannot open or decode it exits with failure.",
  ["inputs"], "all files, numbers of frames, field values, and argument lists of several files",
  "The command has no tests at all, and its output depends on every field of every frame.",
  [M], [("report", M + " show_file, show_frame")],
  "standard output and exit status of the gift binary")

p("C22", "Decoding and re-encoding keeps the whole file content",
  "Decoding a valid file to blocks and encoding those blocks again gives a file which decodes to the same blocks, and doing so with preamble and frames gives a file with the same preamble, frames and steps. Encoding again what was decoded from an encoded file reproduces it byte for byte.",
  ["inputs", "programs"], "all valid files, including flag bits, extensions, and LZW streams this crate would not produce itself",
  "It composes every parser with every formatter over all inputs; tests never chain them.",
  [D, E, B], [("decoding", D + " Blocks, Frames"), ("encoding", E + " BlockEnc, FrameEnc")],
  "bytes of the re-encoded file and what they decode to")

p("C23", "Step settings are independent of each other and of their order",
  "Setting the delay, transparent color or disposal method of a step changes only that setting: the last value set for each is the one reported and encoded, in whatever order and however often they are set. A copy of a step is encoded like the step. A step whose settings are all at their defaults is encoded without graphic control.",
  ["programs"], "all sequences of builder calls with all values",
  "The three settings share one optional block that is dropped when all are default; every order of calls is a different path.",
  [P, B], [("builders", P + " Step::with_disposal_method, with_transparent_color, with_delay_time_cs")],
  "getters of the step, and the graphic control in the encoded bytes",
  [("graphic control", "settings of the step", P + " Step.graphic_control_ext")])

p("C24", "Items are delivered as soon as their bytes have arrived",
  "When a block is returned, no byte behind it has been consumed from the reader; when a frame or step is returned, no byte behind its image data; when the preamble is returned, no byte behind the first block of the first frame. An item whose bytes have arrived is returned without waiting for more, so a file which arrives slowly can be shown while it arrives, and several files one after another in one reader can be decoded by one decoder after another. (The repeating iterator reads the whole file first.)",
  ["schedules", "inputs"], "all files, all ways their bytes arrive over time, all sequences of files in one reader",
  "Tests read from complete buffers, where reading ahead or waiting for more is invisible.",
  [D], [("block reading", D + " Blocks::next_block, fill_buffer"), ("frame grouping", D + " Frames::next, preamble"), ("steps", D + " StepsOnce::next")],
  "position of the reader when each item is returned, and what had arrived when the reader was asked for more",
  [("position", "bytes consumed from the reader", D + " Blocks.reader")])

p("C25", "Image data is compressed with the longest strings of the code table",
  "The code size written is the smallest from 2 to 8 that covers the data. Behind the first clear code, each code stands for the longest string in the code table which continues the data, and the table is cleared only when all of its 4096 codes are defined. So image data never takes more than one code for each index besides clear and end codes, and data which repeats takes far less.",
  ["inputs"], "all index sequences, in particular those that fill the code table one or more times",
  "A weaker compressor gives correct pictures in larger files, which no round trip test notices.",
  [L, E], [("string search", L + " Compressor::compress, search"), ("table reset", L + " Compressor::compress"), ("minimum code size", E + " ImageData::format")],
  "bytes from the block encoder",
  [("code table", "strings defined since the last clear code", L + " Compressor.table")])

p("C26", "Blocks hold what was put in and refuse what cannot be stored",
  "Comment, plain text, application and unknown extension blocks hold the sub-blocks which were added, unchanged and in order; the first one of an unknown extension is its identifier. Adding an empty sub-block, or one longer than 255 bytes, panics and leaves the block as it was, and so does making a color table of bytes which are not three for each color. Two blocks are equal exactly if they are of the same type with the same contents, a copy is equal to its original, and two screen descriptors have equal size exactly if width and height agree. A block reports that it can have sub-blocks exactly if it is an extension or image data.",
  ["programs", "inputs"], "all sequences of additions of all lengths, all pairs of blocks",
  "Limits on lengths and equality are about all pairs of values; tests look at none of them.",
  [B], [("additions", B + " add_sub_block, add_comment, add_app_data"), ("color tables", B + " GlobalColorTable::with_colors, LocalColorTable::with_colors"), ("comparison", B + " equal_size, derived PartialEq"), ("kinds", B + " Block::has_sub_blocks")],
  "getters after each addition, panics, and results of comparisons")

p("C27", "Errors tell what went wrong and keep their cause",
  "An error which wraps an input/output or integer conversion error shows the text of the wrapped error and gives it as its source. Every other error has no source, and a text which is not empty and differs from that of all other errors; unsupported versions have different texts for different versions.",
  ["inputs"], "all errors, with all wrapped errors and versions",
  "Tests compare no texts or sources of errors, and most errors never occur in them.",
  ["gift/src/error.rs"], [("text", "gift/src/error.rs Display for Error"), ("cause", "gift/src/error.rs source"), ("conversion", "gift/src/error.rs From")],
  "text and source of errors")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
