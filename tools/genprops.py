#!/usr/bin/env python3
# writes properties.jsonl (kept readable here)
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Every symbol decodes back to exactly the text it was made from",
 "Whenever construction succeeds, a standard QR Code reader applied to the finished symbol (format information, unmasking, de-interleaving, Reed-Solomon, segment) recovers exactly the bytes of the input text (the same characters, for Kanji mode). Construction never succeeds for a text that the symbol does not hold.",
 ["inputs","configurations"],"every text (string or []byte, any bytes), every version, level and mode, every option combination",
 "The tests write image files nobody decodes and compare a handful of intermediate bit strings; no test reads a symbol back, and texts x versions x levels x masks is unbounded.",
 ["qrcode.go","encoder.go","version.go","mask.go","chardet.go"],
 [("build/init pipeline","qrcode.go:build, (*QRCode).init"),("masking","qrcode.go:(*QRCode).masking"),("segment encoding","encoder.go:(*encoder).Encode")],
 observe=["Save(writer) -> Matrix.Bitmap()"])
p("C02","Segment header and payload bits follow the standard in all four modes",
 "The encoded data starts with the mode indicator, the character count in the width the version prescribes (bytes in byte mode, characters otherwise) and the payload: numeric digits in groups of three as 10/7/4 bits, alphanumeric pairs as 11/6 bits, bytes as 8 bits, Kanji as 13 bits of the compacted Shift JIS code. This holds for texts of every length the symbol can hold.",
 ["inputs","configurations"],"every text of every length, four modes, three count-width groups (versions 1-9, 10-26, 27-40)",
 "Tests compare four short strings; group remainders, count widths per version group and every character value cannot be sampled.",
 ["encoder.go"],[("header and dispatch","encoder.go:(*encoder).Encode"),("count width","encoder.go:(*encoder).charCountBits"),("payload encoders","encoder.go:encodeNumeric/encodeAlphanumeric/encodeByte/encodeKanji"),("Shift JIS compaction","encoder.go:toShiftJIS, encodeShiftJIS")])
p("C03","Data fits exactly or is refused; terminator and padding are exact",
 "If the segment needs more bits than the symbol has data bits, construction returns an error; otherwise the data bits are the segment, up to four zero bits as far as they fit, zero bits to the byte boundary, then alternating 11101100 and 00010001 up to exactly the symbol's data capacity.",
 ["inputs","configurations"],"every segment length 0..capacity+, every version and level",
 "The boundary cases (0-7 bits left, odd and even numbers of pad bytes) depend on length modulo 8 at each of the 160 capacities; tests hit two lengths.",
 ["encoder.go","version.go","version_cfg.go"],[("terminator and padding","encoder.go:(*encoder).breakUpInto8bit"),("capacity","version.go:NumTotalCodewords")])
p("C04","Automatic version is the smallest that holds the text; error iff none does",
 "Without an explicit version, the symbol's version is the smallest of 1..40 whose data capacity at the chosen level holds the header and payload of the text in the chosen mode (raised to the requested minimum version); construction fails exactly when version 40 cannot hold it.",
 ["inputs","configurations"],"every text length, four modes, four levels, every minimum version",
 "640 hand-typed capacity numbers decide it; tests look at about ten of them.",
 ["version.go","version_cfg.go","qrcode.go"],[("version search","version.go:analyzeVersion"),("capacity table","version_cfg.go:versions"),("selection","qrcode.go:(*QRCode).calcVersion")])
p("C05","Valid options are honoured exactly, invalid ones are ignored, order is respected",
 "An explicit valid version, error correction level, encoding mode or minimum version appears in the finished symbol; the last valid value of a repeated option wins; versions outside 1..40 and levels outside L..H leave the setting unchanged, and the defaults are level Q with automatic mode and version. A mode in which data cannot be encoded is an error.",
 ["configurations"],"every sequence of options with every argument value",
 "Tests set one option at a time and look at struct fields rather than at the symbol; argument values and sequences are unbounded.",
 ["encoder_option.go","qrcode.go"],[("option setters","encoder_option.go"),("use","qrcode.go:init, calcVersion")])
p("C06","Mode detection picks the densest mode that can represent the whole text",
 "With automatic mode the text is encoded as numeric if all its characters are digits, else alphanumeric if all belong to the 45-character set, else Kanji if all are Shift JIS double-byte kanji the mode can carry, else as bytes. An explicitly requested mode is accepted exactly if every character of the text is representable in it.",
 ["inputs"],"every text over every rune, in every order",
 "The result depends on the order of character classes in texts of any length; tests sample a few orders (and the rescanning defect survived them).",
 ["chardet.go","qrcode.go"],[("detection","chardet.go:analyzeEncodeModeFromRaw"),("explicit mode","qrcode.go:validateEncodingMode")])
p("C07","Codewords are split, protected and interleaved as the standard prescribes",
 "For each of the 160 version and level combinations, the codeword sequence read from the symbol de-interleaves into the prescribed number of blocks of the prescribed lengths, each block being a valid Reed-Solomon codeword over GF(256) (polynomial 0x11D) with the prescribed number of error correction codewords.",
 ["inputs","configurations"],"all 160 version/level combinations, every data content",
 "The 160-entry block table, the interleaving with unequal blocks and the field arithmetic have one example each in the tests.",
 ["qrcode.go","version_cfg.go"],[("blocks","qrcode.go:dataEncoding"),("Reed-Solomon","qrcode.go:errorCorrectionEncoding, github.com/yeqown/reedsolomon.Encode"),("interleaving","qrcode.go:arrangeBits"),("table","version_cfg.go:versions")])
p("C08","Dimension and every fixed module are those of the standard",
 "The symbol of version v is a square of 17+4v modules, Dimension() reports it, and the finder patterns, separators, timing patterns, alignment patterns and the dark module are exactly where and what the standard says, whatever the content and the mask.",
 ["inputs","configurations"],"versions 1..40, four levels, every content and mask",
 "40 layouts with up to 46 alignment patterns; tests print a few matrices and assert nothing about most positions.",
 ["qrcode.go","version.go","matrix.go"],[("patterns","qrcode.go:prefillMatrix and addFinder/addSplitter/addAlignment/addTimingLine/addDarkBlock"),("alignment positions","version.go:alignPatternLocation")])
p("C09","Data bits occupy exactly the free modules in the zigzag order",
 "Reading the modules that carry no function, format or version information in the standard's two-column zigzag order and removing the mask yields the codeword sequence bit by bit, followed by zero remainder bits; no data bit is lost, duplicated or placed on a reserved module.",
 ["inputs","configurations"],"all versions and levels, every content",
 "A single misplaced module among up to 29648 per version is invisible to the tests, which never read data back.",
 ["qrcode.go"],[("placement","qrcode.go:fillDataBinary"),("reserved areas","qrcode.go:reserveFormatBlock, reserveVersionBlock"),("remainder bits","qrcode.go:init; version_cfg.go")])
p("C10","The announced mask formula is applied to data modules and nothing else",
 "In the finished symbol a module of the data region is the placed bit inverted exactly where the standard's formula for the announced mask number holds, for all eight masks, and no other module is touched by masking.",
 ["inputs","configurations"],"eight masks, all versions, every content",
 "Eight formulas over up to 177x177 modules; tests draw pictures of masks without comparing them.",
 ["mask.go","qrcode.go"],[("formulas","mask.go:modulo0Func..modulo7Func"),("application","qrcode.go:xorMask")])
p("C11","Both copies of format and version information are correct",
 "The two 15-bit format information copies hold the BCH-protected error correction level and number of the mask actually applied, and for versions 7..40 both 18-bit version information copies hold the BCH-protected version, bit by bit in the standard's positions.",
 ["inputs","configurations"],"32 format words, 34 version words, all versions",
 "Two hand-typed tables and two coordinate walks; tests check none of the positions.",
 ["version.go","qrcode.go"],[("tables","version.go:formatBitSequence, versionBitSequence"),("placement","qrcode.go:fillFormatInfo, fillVersionInfo")])
p("C12","The lowest-penalty mask is chosen, the same one under every schedule",
 "Of the eight masked symbols the one with the lowest penalty is delivered, the lowest mask number among equals, for every interleaving of the goroutines that score them and every arrival order of their scores; they share no data unsynchronised. The result is therefore a function of text and options alone.",
 ["schedules","inputs"],"every interleaving of the eight goroutines, every content, all versions",
 "Scheduling decides the order in which scores arrive; a test run sees one order (ties were resolved by arrival).",
 ["qrcode.go"],[("fan-out and selection","qrcode.go:(*QRCode).masking")])
p("C13","The penalty of a symbol is the sum of the four standard rules over colours",
 "The score used to rank masks equals: 3 plus one per further module for each run of five or more equal modules in a row or column; 3 per 2x2 block of one colour; 40 per 1:1:3:1:1 pattern with four light modules on one side; 10 per 5 % step by which the share of dark modules differs from 50 % (either neighbour at an exact multiple) - where only the colour of a module counts, not its role.",
 ["inputs"],"every matrix of every dimension 21..177",
 "Four tests on tiny matrices; rules 2 and 3 ignored function modules and rule 4 truncated before comparing without a failing test.",
 ["mask_evaluation.go","kmp_variant.go","utilities.go"],[("rules","mask_evaluation.go:rule1..rule4"),("pattern count","kmp_variant.go:kmp")])
p("C14","Construction never panics: every input yields a symbol or an error",
 "New and NewWith return a symbol or an error, never panic and always terminate, for every text (including empty, invalid UTF-8 and oversized) and every combination of option values.",
 ["inputs","configurations"],"every text, every option sequence",
 "The code panics on purpose in ten places; whether they are reachable is a question over all inputs.",
 ["qrcode.go","encoder.go","version.go","matrix.go"],[("validation","qrcode.go:validateEncodingMode, init"),("panics","encoder.go:newEncoder, getEncodeModeIndicator; version.go:loadVersion")])
p("C15","Construction is pure: equal arguments give equal symbols, nothing is shared",
 "Building a symbol neither modifies the caller's byte slice nor any package state, a string and the same bytes give the same symbol, and symbols built before, after or concurrently do not influence each other.",
 ["histories","schedules","inputs"],"every sequence and interleaving of constructions",
 "Shared tables, cached alignment positions and reused buffers only show up in sequences and interleavings no test runs.",
 ["qrcode.go","encoder.go","version.go"],[("shared tables","version_cfg.go:versions; version.go:alignPatternCache; encoder.go:paddingByte1"),("copying","matrix.go:Copy")])
p("C16","All views of a matrix agree",
 "Width, Height, Bitmap, Iterate in both directions, Row and Col describe the same modules: (x, y) has one colour and one type in every view, each module is visited exactly once in the documented order, a copy is equal to and independent of its original, and out-of-range accesses are reported and change nothing.",
 ["inputs"],"every matrix, every coordinate",
 "x/y mix-ups are invisible on the symmetric examples tests use.",
 ["matrix.go","matrix_type.go"],[("views","matrix.go:Bitmap, iter, Row, Col, at, set, Copy"),("module encoding","matrix_type.go:qrtype, qrbool")])
p("C17","Save writes the finished matrix once and always closes the writer",
 "Save passes the finished matrix to Write exactly once, returns Write's error unchanged, and then calls Close exactly once - also when Write fails or panics; an error of Close does not replace the result, and a nil writer is accepted. Saving twice gives both writers the same matrix.",
 ["fault_sequences","histories"],"every combination of writer outcomes, repeated saves",
 "Tests save once to a working writer; error and panic paths are not exercised.",
 ["qrcode.go","writer.go"],[("protocol","qrcode.go:(*QRCode).Save")])
p("C18","The file writer prints the symbol exactly, two module rows per text line",
 "The output has ceil(n/2) lines of n characters; character x of line k is the upper/lower/full block or a space according to the modules (x,2k) and (x,2k+1), a missing last row counting as light; nothing else is written and the first write error is returned.",
 ["inputs","fault_sequences"],"every matrix, a write failure at any point",
 "There is no test of the file writer.",
 ["writer/file/writer.go"],[("rendering","writer/file/writer.go:(*Writer).Write")])
p("C19","The compressed writer emits a PNG whose pixels are the symbol, scaled and padded",
 "The image is a two-colour paletted square of n*BlockSize+2*Padding pixels; a pixel is dark exactly if it lies in the square of a dark module, everything else including the quiet zone is light; a file target holds nothing but that image, and errors of the target are returned.",
 ["inputs","configurations"],"every matrix, block size and padding",
 "There is no test of the compressed writer; overwriting a longer file left stale bytes.",
 ["writer/compressed/writer.go"],[("rendering","writer/compressed/writer.go:Write"),("file","writer/compressed/writer.go:New")])
p("C20","The terminal writer draws every module in its cell with a light border",
 "Each module (x,y) occupies exactly two neighbouring terminal cells, coloured black if dark and white if light, shifted by a border of one module that is drawn light on all four sides; after drawing, the writer waits for a key and returns the terminal's error if flushing fails.",
 ["inputs"],"every matrix",
 "The only use is interactive; no test runs it.",
 ["writer/terminal/writer.go"],[("cells","writer/terminal/writer.go:drawBlock, preDraw, Write")])
p("C21","The standard writer's picture has the promised geometry and colours",
 "The picture measures n*blockWidth plus the configured borders in each direction, every module is drawn once on its own block with the foreground colour if dark and the background colour if light, the border keeps the background, and Attribute reports the same numbers. The finished picture goes once through the configured encoder into the target of the caller, whose error is returned.",
 ["inputs","configurations"],"every matrix, block width, border, colour configuration",
 "Tests compare one attribute value and otherwise write files nobody looks at.",
 ["writer/standard/writer.go","writer/standard/image_option.go","writer/standard/image_qr_shape.go"],[("drawing","writer/standard/writer.go:draw"),("attributes","writer/standard/writer.go:Attribute"),("shapes","writer/standard/image_qr_shape.go")])
p("C22","A logo is centred, limited in size, and only its safe zone is cleared",
 "A logo is drawn if its width and height do not exceed the configured fraction of the picture (otherwise it is left out and reported), it is centred, and with the safe zone enabled exactly the dark modules whose block overlaps the logo are left undrawn and count as light for their neighbours - also for a logo that is wider than high.",
 ["inputs","configurations"],"every logo size, block width, border, size factor",
 "Tests use one square logo, for which swapped axes cannot be noticed.",
 ["writer/standard/writer.go","writer/standard/image_option.go"],[("size limit","writer/standard/image_option.go:validLogoImage / logoSizeMultiplier"),("safe zone","writer/standard/writer.go")])
p("C23","Shapes learn the true neighbourhood of every module",
 "The neighbour mask handed to a shape has a bit set exactly for those of the eight surrounding positions (and the module itself) that lie inside the symbol and are dark.",
 ["inputs"],"every bitmap, every module, including corners and edges",
 "Edge and corner modules and all 512 neighbourhoods are not enumerated by tests.",
 ["writer/standard/writer.go","writer/standard/shapes"],[("neighbours","writer/standard/writer.go:getNeighbours")])
p("C24","Image helpers binarise and convert every picture pixel by pixel",
 "Converting a picture to grey and binarising it gives a picture of the same size in which each pixel is black or white according to its own luminance against the threshold, for pictures with any origin and any colour model; the halftone picture is sampled within its bounds.",
 ["inputs"],"every picture, origin and threshold",
 "Tests use one picture with origin (0,0); sub-images shifted every pixel.",
 ["writer/standard/imgkit"],[("binarisation","writer/standard/imgkit: Gray, Binaryzation, Scale, Read, Save")])
p("C25","Gradients interpolate between neighbouring stops",
 "A gradient returns the first stop's colour before the first stop and the last one's after the last, and in between a colour between those of the two neighbouring stops, for every direction and picture size.",
 ["inputs"],"every list of stops, angle and position",
 "There is no test of the interpolation.",
 ["writer/standard/gradient.go"],[("interpolation","writer/standard/gradient.go")])
p("C26","Image options set exactly what they name and nothing else",
 "Every option of the standard writer sets exactly what it names: a block width of 0 means the default, one/two/four border values are spread as documented, colours given as hex or as a colour keep their components, nil colours, logos, gradients and encoders are ignored, a nil shape or halftone means the default, later options override earlier ones and unrelated settings stay untouched.",
 ["configurations"],"every option sequence with every argument",
 "Argument values are unbounded; tests look at one value per option (and pin a truncated 16-bit component).",
 ["writer/standard/image_option_api.go","writer/standard/image_option.go"],[("options","writer/standard/image_option_api.go"),("colour parsing","writer/standard/image_option.go:parseFromHex, parseFromColor")])
p("C27","Command line tool and WASM binding pass their arguments through faithfully",
 "The command line program and the JavaScript binding produce for given arguments the symbol and picture the library would produce for them, and report errors instead of producing an empty result.",
 ["inputs","configurations"],"every command line and option object",
 "The programs are built but only smoke-tested.",
 ["cmd/qrcode","cmd/wasm"],[("command line","cmd/qrcode"),("binding","cmd/wasm")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
