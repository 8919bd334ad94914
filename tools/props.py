NOTES = 'Every check builds /repo/src with AddressSanitizer and a pattern fill of uninitialised memory, enumerates its bounded spaces completely on the real code, and compares every execution with a reference model. run.py <id> --replay <file> replays a violation.'
NOT_APPLICABLE = []

prop('C01', 'PBM, PGM and PPM files decode to the picture they encode',
     'Reading a valid portable anymap of any of the six kinds (plain or raw, bitmap, graymap or pixmap) yields a bitmap with the width, height and pixel colours the file encodes: 1 bits are black, samples are scaled linearly from 0..maxval to 0..255 (rounded down), rows run top to bottom. White space, comments, a missing final newline and the choice between plain and raw encoding make no difference. A file that is no anymap, and an image that has two-byte raw samples or is too large for the bitmap type, is refused with an error, never read as something else.',
     ['inputs'], 'all six encodings, all small bitmaps, all sample values for every one-byte maxval, header and body layouts, comment placements, sizes to 4097 and more, and offsets against the internal read buffer',
     'the two stored test images use one encoding and one layout; wrong decoding at a particular width modulo 8, maxval, comment position or buffer offset needs every one of them tried',
     ['src/input-pnm.c', 'src/bitmap.c', 'src/bitmap.h'],
     [('plain body loader', 'pnm_load_ascii in src/input-pnm.c'), ('raw body loaders', 'pnm_load_raw, pnm_load_rawpbm in src/input-pnm.c'), ('tokeniser and read buffer', 'pnmscanner_* in src/input-pnm.c')],
     ['at_bitmap_read with the pnm/pbm/pgm/ppm handlers', 'at_bitmap_get_color'],
     'exhaustive bounded enumeration of anymap files, each decoded by the real reader and compared with a reference decoder', 'all files of the stated spaces; sizes and maxvals beyond the bounds are not explored')

prop('C02', 'BMP files decode to the picture they encode',
     'Reading a valid Windows or OS/2 bitmap file of 1, 2, 4, 8, 16, 24 or 32 bits per pixel, with any of the header sizes 12, 40, 56, 64, 108 and 124, yields a bitmap with the width, height and pixel colours the file encodes, whether rows are stored bottom-up or top-down, plain or run-length encoded, with palette or with channel masks. Palette entries, channel masks and padding are honoured, alpha is ignored, and colours of a gray palette come back as that gray. An image too large for the bitmap type is refused with an error.',
     ['inputs'], 'all depths, header kinds, row orders, palette kinds and sizes, widths and heights (chosen ones to 4097), every 16-bit pixel value, mask layouts, file marks, every run-length stream of a few opcodes, and every operand of every opcode',
     'the stored test image is one uncompressed file; errors in one depth, header size, row padding, mask or run-length opcode sequence need the whole grid',
     ['src/input-bmp.c'],
     [('header and palette parsing', 'input_bmp_reader, ReadColorMap, ReadChannelMasks in src/input-bmp.c'), ('row and run-length decoding', 'ReadImage in src/input-bmp.c')],
     ['at_bitmap_read with the bmp handler'],
     'exhaustive bounded enumeration of BMP files, each decoded by the real reader and compared with the encoder model', 'all files of the stated spaces')

prop('C03', 'TGA files decode to the picture they encode',
     'Reading a valid Targa file of types 1, 2, 3, 9, 10 or 11 with 8-bit samples yields a bitmap with the width, height and pixel colours the file encodes, for every scan direction, with and without alpha, image id, footer and colour map offset. Run-length packets may be split anywhere, including across rows, without changing the result. Reading one file never influences the reading of a later one.',
     ['inputs', 'histories'], 'all types, depths, directions, sizes (chosen ones to 4097), all splittings of a pixel sequence into packets, packets of every length, colour map placements, and all ordered pairs of files read one after the other',
     'tests read at most one file; packet boundaries, flips, map offsets and leftovers of a previous file need enumeration',
     ['src/input-tga.c'],
     [('image decoding and flips', 'ReadImage in src/input-tga.c'), ('run-length reader', 'rle_fread in src/input-tga.c')],
     ['at_bitmap_read with the tga handler'],
     'exhaustive bounded enumeration of Targa files, packetisations and two-file histories against the encoder model', 'all files of the stated spaces')

prop('C04', 'PNG files decode to the picture they encode',
     'Reading a valid PNG file of any colour type and bit depth, interlaced or not, with any row filters and any split of the data into chunks, yields a bitmap with the width, height and pixel colours the file encodes. Samples deeper than 8 bits keep their high byte, shallower gray samples are scaled to 0..255, transparency is dropped, and gray images may come back with one or three channels but with the same colours. An image too large for the bitmap type is refused with an error.',
     ['inputs'], 'all 15 colour type and depth combinations, interlacing, filters, sizes to 20x9 and chosen ones to 4097, every sample value, transparency chunks, every subset of ten other chunks, and data chunk splits',
     'the stored test images cover one colour type; channel, depth, palette and interlace handling need each combination at several sizes',
     ['src/input-png.c'],
     [('libpng setup and row copying', 'load_image, read_png in src/input-png.c')],
     ['at_bitmap_read with the png handler'],
     'exhaustive bounded enumeration of PNG files from an independent encoder, decoded by the real reader', 'all files of the stated spaces')

prop('C05', 'GF font characters decode to the glyph they describe',
     'Reading a character of a GF font file yields the glyph its painting commands describe, trimmed to its inked bounding box, independent of the command variants, origin, specials and no-ops used to encode it. The character code of the input options selects the character (none set: a character of the font), a missing character is an error, and the options of the caller stay unchanged.',
     ['inputs'], 'all glyphs of up to 12 cells (16 thorough) in 8 command styles, origin offsets, specials at every position, fonts of up to three characters with every selection, widths to 300, runs and skips of every length to 269, all character codes, short and long headers, margins',
     'no test reads a GF file at all',
     ['src/input-gf.c'],
     [('painting commands', 'gf_get_char in src/input-gf.c'), ('font directory', 'gf_open, gf_find_character in src/input-gf.c'), ('trimming', 'deblank in src/input-gf.c')],
     ['at_bitmap_read with the gf handler', 'charcode of the input options'],
     'exhaustive bounded enumeration of GF fonts from an encoder model, decoded by the real reader', 'all fonts of the stated spaces')

prop('C06', 'Damaged or unreadable input files are handled safely and reported',
     'For every input format, reading a damaged, truncated, empty, missing or unreadable file ends normally: no crash, no endless loop, no access outside of memory, no result that depends on uninitialised memory, and no memory kept after the bitmap is freed. The outcome is either a usable picture or an error message, and a file that is cut off before its picture data are complete is always reported. The process is never ended by a reader.',
     ['inputs', 'fault_sequences'], 'every truncation and every single-byte change of about 35 small files of all formats, pairs of changed header bytes, pairs of header fields over 18 values each, every file of up to two bytes, anymap header token sequences, unusable paths',
     'tests only read intact files; each length and each header byte is its own path through the reader',
     ['src/input-pnm.c', 'src/input-bmp.c', 'src/input-tga.c', 'src/input-png.c', 'src/input-gf.c', 'src/autotrace.c', 'src/exception.c'],
     [('reader entry points', 'input_*_reader'), ('error reporting', 'at_exception_fatal, at_exception_warning in src/exception.c')],
     ['at_bitmap_read: message callback, bitmap, process survival, sanitizer reports, heap balance'],
     'exhaustive enumeration of truncation points and byte corruptions on the real readers under AddressSanitizer, each run twice with different heap contents', 'all corruptions of the stated kinds of the stated base files', level='fault_enumeration')

prop('C07', 'Traced outlines, painted in order, reproduce the picture exactly',
     'With smoothing and curve fitting tuned to keep every corner, the outlines traced from a picture, painted in order with neighbouring outlines of one colour forming one path, give back exactly that picture: every pixel gets its own colour, and pixels of the background colour are left unpainted, however shapes and holes are nested or touch. Outlines are closed without gaps, outer ones counterclockwise and holes clockwise, inside the picture, and carry the size of the picture. This holds for every number of colours, gray and RGB bitmaps, and picture sizes up to the limit of the type.',
     ['inputs', 'configurations'], 'every two-colour picture of at most 16 pixels, every three-colour picture of at most 9 and four-colour picture of at most 7 pixels, with four choices of background; nested rings, framed cores, 12 patterns to 71x67, long strips, figures across coordinate boundaries to 32768',
     'tests trace a few pictures and look at nothing but success; wrong turns happen only at particular local pixel patterns',
     ['src/pxl-outline.c', 'src/fit.c', 'src/curve.c', 'src/spline.c', 'src/bitmap.c', 'src/autotrace.c'],
     [('outline walk', 'find_outline_pixels, find_one_outline, next_point in src/pxl-outline.c'), ('corner splitting', 'split_at_corners, find_corners in src/fit.c')],
     ['at_splines_new: shapes, colours, orientation, coordinates'],
     'exhaustive enumeration of small pictures, traced by the real code and repainted by a reference rasteriser', 'all pictures of the stated sizes')

prop('C08', 'Fitted curves are finite, gap-free, closed and stay near the outline',
     'For every setting of the fitting options, tracing ends and gives one closed sequence of curves per outline, in order, with the colour and orientation of the outline; all coordinates are finite and each curve starts exactly where the previous one ends. With ordinary tolerances every outline point lies within four pixels of the fitted curve and no curve point is farther than two and a half pixels from the outline; without smoothing and line reversion every outline point lies within the error threshold plus one pixel of the curve.',
     ['inputs', 'configurations'], 'about 460 option settings (all pairs of 30 deviations from the defaults) on every 3x3 picture at scales 1 to 7, single deviations on every 4x4 picture, ellipses, rings, triangles, three colours, large pictures to radius 350, and up to 400 shapes at once',
     'tests use default options on a few pictures and look at nothing but success; degenerate curves appear only for particular outline lengths, corners and thresholds',
     ['src/fit.c', 'src/curve.c', 'src/spline.c', 'src/vector.c', 'src/epsilon.c'],
     [('least squares fit and subdivision', 'fit_with_least_squares, fit_one_spline, find_error in src/fit.c'), ('tangents', 'find_tangent, find_half_tangent in src/fit.c'), ('smoothing, knees, corners', 'filter, remove_knee_points, find_corners in src/fit.c')],
     ['at_splines_new: curves of every shape'],
     'exhaustive enumeration of small pictures and option settings on the real code against the exact outline', 'all stated pictures and settings')

prop('C09', 'Centerline tracing thins without changing topology and follows the lines',
     'With centerline tracing, every colour is thinned by turning pixels into background only: connected parts and holes stay the same in number, line ends stay, and away from the picture border nothing removable is left over. Each traced line runs from pixel to neighbouring pixel of its colour; a connected thinned line of two or more pixels without junctions is traced as exactly one line through all of its pixels (open if it has ends), every connected part of two or more pixels gets a line, and lone pixels get none. Line widths are the distances to white, and neither earlier calls, the position in the picture, its size, nor (away from its border) a gray or RGB bitmap make a difference.',
     ['inputs', 'configurations', 'histories'], 'every two-colour picture of at most 16 pixels and three-colour picture of at most 9 pixels, gray and RGB, with three choices of background; every 4x4 core in five positions; widths over grays, colours and places; bars to 9x24; every 3x3 picture of thick cells, rings and patterns to 41x41; strips to 65535 pixels; two-call histories',
     'one stored test traces a centerline; junctions, borders and thinning order depend on the exact pixel pattern',
     ['src/thin-image.c', 'src/pxl-outline.c', 'src/image-proc.c', 'src/autotrace.c', 'src/fit.c'],
     [('thinning', 'thin_image, thin1, thin3 in src/thin-image.c'), ('following lines', 'find_centerline_pixels, find_one_centerline, is_valid_dir in src/pxl-outline.c'), ('widths', 'new_distance_map in src/image-proc.c')],
     ['at_splines_new with centerline: the bitmap afterwards and the traced lines'],
     'exhaustive enumeration of small pictures on the real tracer against topological invariants computed independently', 'all pictures of the stated sizes; lines through junctions are only required to be walks over thinned pixels')

prop('C10', 'Colour reduction maps every pixel to the nearest of at most n median cut colours',
     'With a colour count n, the picture is reduced to at most n colours (never more than 256) chosen by median cut: the box of colours with the largest extent is split at the middle of its longest side until n boxes exist or each box holds one colour (colours being told apart to 7 bits per sample), and every box is represented by the mean of its pixels. Every pixel gets the nearest of these colours (red, green and blue distances weighted 2, 3 and 1), so a picture with few enough colours keeps them up to the lowest bit. A background colour is left out when choosing colours, and pixels that get the same colour as the background would get become background.',
     ['inputs', 'configurations'], 'every selection of five colours (six thorough) out of seven with counts 1 to 5 and three choices of background, all pixel orders, gray ramps of up to 256 levels and colour cubes of up to 512 colours with counts from 1 to 1000, lines and grids of colours with one heavy colour at every place, pictures that are all background, two-call histories',
     'the stored tests reduce one picture to one count; ties, splits, empty histograms and large counts need each combination',
     ['src/median.c', 'src/quantize.h', 'src/autotrace.c'],
     [('choosing colours', 'select_colors_rgb, median_cut_rgb, update_box_rgb, compute_color_rgb in src/median.c'), ('mapping pixels', 'median_cut_pass2_rgb, fill_inverse_cmap_rgb, find_nearby_colors, find_best_colors in src/median.c')],
     ['at_splines_new with color_count: the bitmap afterwards and the colours of the shapes'],
     'exhaustive enumeration of small colour sets, counts and backgrounds on the real code, each compared with a reference median cut with brute force nearest colour search', 'all combinations of the stated alphabets')

prop('C11', 'Despeckling merges exactly the small areas into their most similar neighbour',
     'With despeckling at level n (limited by the picture size), rounds i = 0 to n-1 visit the connected areas of one colour in reading order, and each area of fewer than 2^i pixels takes the colour of its most similar neighbouring area if the difference is within the limit given by tightness and noise removal; all other areas keep their colour. Nothing else about the picture changes, the result is the same for gray and RGB bitmaps holding the same grays, and it is what gets traced. Size and shape of the areas, and pictures longer than 32767 pixels, make no difference and never end the process.',
     ['inputs', 'configurations'], 'every picture of up to 9 pixels in three gray values and of 10 to 16 pixels in two (12 in three), levels 1 to 6 and 20, three tightness and noise settings; blobs of 1 to 24 pixels in three surroundings; areas around every power of two to 513 pixels; 4096 patterns of double cells; strips to 40000 pixels; winding lines that fill 700x700',
     'no stored test turns despeckling on',
     ['src/despeckle.c', 'src/autotrace.c'],
     [('size of an area', 'find_size, find_size_8 in src/despeckle.c'), ('most similar neighbour', 'find_most_similar_neighbor in src/despeckle.c'), ('levels and limits', 'despeckle, despeckle_iteration in src/despeckle.c')],
     ['at_splines_new with despeckle_level: the bitmap afterwards and the colours of the shapes'],
     'exhaustive enumeration of small pictures and settings on the real code, each compared with a reference model on plain connected components', 'gray values at pairwise distinct distances, so that the most similar neighbour is unique')

prop('C12', 'Cancelling a trace gives no result, no leak and no lasting effect',
     'Whenever the cancel function given to the tracer returns true, be it once or from then on, at any of the times it is asked, the trace gives no result; it does not go on asking. All memory taken for the trace is given back, the options and the size of the bitmap stay as they were, and later traces give the same result as without the cancelled one. A cancel function that never returns true makes no difference to the result and is asked at least once.',
     ['fault_sequences', 'inputs', 'configurations'], 'every poll of every trace of all two-colour 3x3 pictures (3x4 thorough) in five configurations and of larger pictures with many shapes and holes, cancelling once or for good',
     'no test passes a cancel function; each poll is at its own place in the code with its own clean-up',
     ['src/autotrace.c', 'src/pxl-outline.c', 'src/fit.c', 'src/curve.c', 'src/spline.c'],
     [('polls and clean-up', 'at_splines_new_full in src/autotrace.c'), ('polls while following outlines', 'find_outline_pixels, find_centerline_pixels in src/pxl-outline.c'), ('polls while fitting', 'fitted_splines in src/fit.c')],
     ['at_splines_new_full with a cancel function: result, heap balance, options, later traces'],
     'exhaustive enumeration of cancellation points on the real tracer with heap accounting', 'all polls of the stated traces', level='fault_enumeration')

prop('C13', 'Progress reports rise from 0 to 1 and stop when cancelled',
     'The values given to a progress function are within 0 and 1, never go back, begin at 0 and end with exactly 1 when the trace completes; between two reports the progress never rises by more than the share of one pixel row or of one shape. Reporting progress makes no difference to the result. A trace that is cancelled never reports 1, and after the cancel function returned true no more progress is reported for the phase that was cancelled.',
     ['inputs', 'configurations', 'fault_sequences'], 'all two-colour 3x3 pictures (3x4 thorough) in five configurations; pictures of all sizes out of nine widths and heights up to 300 (1000 thorough) in eight patterns; cancelling at seven levels of progress',
     'no test passes a progress function; the values depend on sizes and numbers of shapes',
     ['src/autotrace.c', 'src/pxl-outline.c', 'src/fit.c', 'src/curve.c'],
     [('reports per pixel', 'find_outline_pixels, find_centerline_pixels in src/pxl-outline.c'), ('reports per shape', 'fitted_splines in src/fit.c, free_curve_list_array in src/curve.c')],
     ['at_splines_new_full with a progress function'],
     'exhaustive enumeration of small pictures, sizes and cancellation levels on the real tracer with a monitor on the reports', 'all stated pictures and sizes')

prop('C15', 'SVG, EPS, AI, p2e, PDF, EPD, Sketch and POV files paint exactly the shapes',
     'For every array of shapes, each of the formats that know curves and filling (SVG, EPS, AI, p2e, PDF, EPD, Sketch, POV-Ray) is written as a well-formed file with the size of the picture, in which every shape appears once, in order, in its colour, with every line and curve at its coordinates up to the printed precision; closed shapes are filled, shapes of a centerline trace are stroked (POV-Ray refuses those with an error). Holes stay unfilled: neighbouring shapes of one colour form one path where the format has such paths, otherwise holes are painted in the background colour. Offsets, lengths and counts written inside a file are right, and no array of shapes, be it empty, makes the file malformed or ends the process.',
     ['inputs', 'configurations'], 'every array of up to three shapes (four thorough) over 7 closed and 4 open geometries, 3 to 5 colours, both orientations, 3 backgrounds, 5 picture sizes; the traces of every 3x3 picture enlarged 4 times in 6 modes; all pairs of 25 coordinates at the edges of number formatting; 5681 colours and all that differ in one bit; up to 2200 shapes and 3000 pieces',
     'the stored tests compare one picture per format; empty arrays, holes, repeated colours, open shapes and number formatting are not among them',
     ['src/output-svg.c', 'src/output-eps.c', 'src/output-p2e.c', 'src/output-pdf.c', 'src/output-epd.c', 'src/output-sk.c', 'src/output-pov.c'],
     [('SVG', 'out_splines in src/output-svg.c'), ('PostScript family', 'src/output-eps.c, src/output-p2e.c'), ('PDF family', 'src/output-pdf.c, src/output-epd.c'), ('Sketch and POV-Ray', 'src/output-sk.c, src/output-pov.c')],
     ['at_splines_write: the bytes of the file and the messages'],
     'exhaustive enumeration of small shape arrays on the real writers; every file is interpreted by an independent reader of the format and the painted paths are compared with the array', 'all arrays over the stated alphabets')

prop('C16', 'FIG, MIF, DXF, PLT, ILDA, ER and UGS files draw exactly the shapes',
     'For every array of shapes, each of the formats that approximate or restrict shapes (xfig, FrameMaker, DXF, HP plotter, ILDA, Elastic Reality, Unicode glyph source) is written as a well-formed file in which every shape appears once, in its colour as far as the format has colours, with its lines at their coordinates and its curves by points on them, up to the precision of the format. Filled shapes are closed, holes are painted in the background colour and in front of what they are cut from, declared counts, palettes and bounding boxes are right, and the resolution option scales FrameMaker output. More colours or points than a format can hold are reported as an error rather than written wrongly, and what was written before makes no difference.',
     ['inputs', 'configurations', 'histories'], 'every array of up to three shapes (four thorough) over 7 closed and 4 open geometries, 3 to 5 colours, both orientations, 3 backgrounds, 5 picture sizes; the traces of every 3x3 picture enlarged 4 times in 6 modes; all pairs of 25 coordinates; 5681 colours and all that differ in one bit; up to 2200 shapes and 3000 pieces; 11 resolutions; all written one after the other by one process',
     'the stored tests compare one picture per format and none with many colours, holes or several files in one process',
     ['src/output-fig.c', 'src/output-mif.c', 'src/output-dxf.c', 'src/output-plt.c', 'src/output-ild.c', 'src/output-er.c', 'src/output-ugs.c'],
     [('xfig', 'src/output-fig.c'), ('FrameMaker', 'src/output-mif.c'), ('DXF', 'src/output-dxf.c'), ('ILDA', 'src/output-ild.c'), ('others', 'src/output-plt.c, src/output-er.c, src/output-ugs.c')],
     ['at_splines_write: the bytes of the file and the messages'],
     'exhaustive enumeration of small shape arrays on the real writers; every file is read back by an independent reader of the format and compared with points computed from the array', 'all arrays over the stated alphabets; ILDA shapes far outside of the picture are not judged')

prop('C17', 'EMF, CGM and DR2D files are consistent and paint exactly the shapes',
     'For every array of shapes, file name and resolution, the binary formats (EMF, CGM, DR2D) are written with correct sizes, counts, offsets, lengths, padding, names and tables of objects or colours: every record lies where the sizes before it say, every object used was created and not yet deleted, and declared picture size and bounding boxes are those of the picture and of the end points of the shape. Every shape appears once, in order, filled in its colour or, from a centerline trace, stroked in its colour, holes in the background colour, with all points of its lines and curves less than one unit of the format away from their coordinates. This holds for no shapes at all, for more than a thousand shapes or colours, for shapes of thousands of pieces and names of any length; a shape with more points than a format can count is reported as an error.',
     ['inputs', 'configurations'], 'every array of up to three shapes (four thorough) over 7 closed and 4 open geometries, 3 to 5 colours, both orientations, 3 backgrounds, 5 picture sizes; traces of every 3x3 picture enlarged 4 times in 6 modes; all pairs of 25 coordinates; 5681 colours; up to 2200 shapes and 22500 pieces; names of 0 to 319 and up to 4095 characters; 11 resolutions',
     'no stored test writes any of these formats',
     ['src/output-emf.c', 'src/output-cgm.c', 'src/output-dr2d.c'],
     [('EMF sizes and objects', 'GetEmfStats, OutputEmf, WriteHeader in src/output-emf.c'), ('CGM elements', 'output_cgm_writer in src/output-cgm.c'), ('DR2D chunks', 'GeneratexPLY, BuildBBOX, BuildCMAP, flt2ieee in src/output-dr2d.c')],
     ['at_splines_write: the bytes of the file'],
     'exhaustive enumeration of small shape arrays on the real writers; every file is walked record by record by an independent reader and the painted paths are compared with the array', 'all arrays over the stated alphabets; coordinates that fit 16 bits for EMF and CGM')

prop('C18', 'Writing has no effect but the bytes, which depend on the shapes only',
     'Writing an array of shapes in any of the output formats gives the same bytes each time, whatever the contents of fresh memory, the locale of the program, and the kind of stream (one that cannot seek included). It changes neither the shapes, the options nor the locale of the caller, gives back all memory and never ends the process. When the stream takes no more bytes, at whatever point, the bytes before are the right ones, the error is visible on the stream, and nothing is leaked.',
     ['inputs', 'configurations', 'fault_sequences'], '18 formats; every array of up to three shapes over 7 closed and 4 open geometries with colours, holes, backgrounds and sizes; traces of every 3x3 picture; colours that differ in one bit; up to 3000 pieces; three contents of fresh memory, two locales, three streams; a stream that is full after every number of bytes',
     'the stored tests write once, in one locale, to a file that takes everything',
     ['src/autotrace.c', 'src/output-svg.c', 'src/output-eps.c', 'src/output-p2e.c', 'src/output-pdf.c', 'src/output-epd.c', 'src/output-sk.c', 'src/output-pov.c', 'src/output-fig.c', 'src/output-mif.c', 'src/output-dxf.c', 'src/output-plt.c', 'src/output-ild.c', 'src/output-er.c', 'src/output-ugs.c', 'src/output-emf.c', 'src/output-cgm.c', 'src/output-dr2d.c'],
     [('locale', 'at_splines_write in src/autotrace.c'), ('memory and state of the writers', 'src/output-*.c')],
     ['at_splines_write: bytes, heap balance, locale, shapes and options afterwards'],
     'exhaustive enumeration of small shape arrays, memory contents, locales, streams and points of failure on the real writers', 'all arrays over the stated alphabets', level='fault_enumeration')

prop('C14', 'No operation depends on what the process did before',
     'Reading a file, tracing a bitmap and writing shapes give, after any other operations in the same process, exactly the result, messages and bytes that they give in a fresh process. This includes operations before that failed or were cancelled, other formats, other pictures, and other options. (The glyph source format takes the metrics of the font character read before, by design.)',
     ['histories'], 'every one and every two (thorough: three out of 57) of 187 operations: complete and truncated files of every input format, traces of four pictures in 15 configurations including cancelled ones, four arrays of shapes in 18 output formats; every two of eleven arrays of up to 1500 colours within each output format; memory contents differ between the compared runs',
     'every stored test is a process of its own',
     ['src/autotrace.c', 'src/median.c', 'src/thin-image.c', 'src/pxl-outline.c', 'src/output-fig.c', 'src/output-mif.c', 'src/output-dxf.c', 'src/output-ild.c', 'src/output-emf.c', 'src/output-pdf.c', 'src/input-gf.c', 'src/input-bmp.c'],
     [('state of the writers', 'static variables in src/output-*.c'), ('state of the tracer', 'static variables in src/thin-image.c, src/pxl-outline.c, src/autotrace.c'), ('state of the readers', 'static variables in src/input-*.c')],
     ['everything at_bitmap_read, at_splines_new_full and at_splines_write return or report'],
     'exhaustive enumeration of operation sequences on the real code, each in a process of its own, compared with the operation alone in a fresh process', 'all sequences of the stated length over the stated operations')

prop('C19', 'Command line options do what the library options of that name do',
     'For every option and every spelling of it (one or two dashes, value behind a blank or an equals sign, every unambiguous abbreviation, before or behind the file name), the program writes exactly the bytes that the library gives with that option set, to the file named or to standard output. This holds for every value, for options in combination, for every output format chosen by option or by file ending (the option wins, the default is EPS), and for every input format chosen by option or by file ending. Nothing else appears on standard output.',
     ['inputs', 'configurations'], 'all values and number notations of 23 options in 4 spellings and all unambiguous abbreviations on two pictures, alone and in pairs (thorough: all pairs), width options in every order; 18 output formats by ending, option, upper case and standard output; 45 input files by ending and by option; every character of a font in four notations',
     'the stored tests call the library and never start the program',
     ['src/main.c', 'src/cmdline.h', 'src/atou.c', 'src/filename.c', 'src/input.cpp', 'src/output.cpp'],
     [('options', 'read_command_line in src/main.c'), ('order of work', 'main in src/main.c'), ('formats by ending', 'at_input_get_handler in src/input.cpp, at_output_get_handler in src/output.cpp')],
     ['the program: exit status, standard output, output file'],
     'exhaustive enumeration of command lines; each runs the real program in a scratch folder and is compared byte by byte with the library called with the same settings', 'all stated command lines')

prop('C20', 'The program succeeds exactly when the whole output has been written',
     'The program ends with status 0 if and only if the input could be read and every byte of the output could be written; otherwise it ends with another status and a message on standard error. This covers wrong, missing and superfluous arguments, missing, truncated and unreadable input, unknown formats, output that cannot be opened, and files and standard output that are full after any number of bytes or refuse a single write. The input file is never changed, by whatever names input and output are given, and when the input cannot be read an earlier output file keeps its content.',
     ['inputs', 'fault_sequences'], '82 right and wrong uses, output to other names of the input among them, with and without an earlier output file; 158 names of input and output at 3 places; every truncation of 45 input files of all formats; 18 formats to files and standard output that are full after 24 selected (thorough: every) numbers of bytes, or that refuse one of the first 16 (60) writes',
     'the stored tests never start the program, and no test fills the disk',
     ['src/main.c', 'src/cmdline.h', 'src/logreport.h', 'src/atou.c', 'src/input.cpp', 'src/output.cpp'],
     [('usage', 'read_command_line in src/main.c, FINISH_COMMAND_LINE in src/cmdline.h'), ('errors of the library', 'exception_handler in src/main.c'), ('output', 'main in src/main.c')],
     ['the program: exit status, standard error, output file and input file afterwards'],
     'exhaustive enumeration of command lines, truncations and points of failure of the output, on the real program in a scratch folder', 'all stated command lines, truncations and byte counts', level='fault_enumeration')

prop('C21', 'Formats are found by exactly their names, in any case, added ones too',
     'A format is found by its name in any mixture of upper and lower case, and a file name denotes the format named by the part behind its last dot; any other name finds nothing, and no name of any length or content crashes. A reader or writer that a program registers is found from then on under its name and is called with the file name, options, message function and picture box of the caller (defaults where none are given); a name that is taken already keeps its first handler, and handlers found earlier stay valid. The printed lists name every format exactly once.',
     ['inputs', 'histories'], 'every name of up to 4 (5) letters and digits; every case of 26 names; every one-byte change of them; file names of 14 times 6 kinds; every sequence of up to 4 (5) of 13 registrations',
     'the stored tests look up a handful of lower case names',
     ['src/input.cpp', 'src/output.cpp', 'src/module.c', 'src/autotrace.c'],
     [('input formats', 'inputFormatMap in src/input.cpp'), ('output formats', 'outputFormatMap in src/output.cpp'), ('the formats', 'install_input_readers, install_output_writers in src/module.c')],
     ['at_input_get_handler, at_input_get_handler_by_suffix, at_output_get_handler, at_output_get_handler_by_suffix, at_bitmap_read, at_splines_write, the lists the program prints'],
     'exhaustive enumeration of names and of registration histories on the real registry, compared with a map', 'all names and histories of the stated sizes')

prop('C22', 'Options, bitmaps and colours are independent values, and parse exactly',
     'After any sequence of creating, copying, changing and freeing option sets, bitmaps and colours, every one of them holds exactly what was last put into it: a copy equals its original and shares nothing with it, a new bitmap is all zero, and freeing gives back exactly the memory of that one value. Pixels read back as the colour stored (gray as equal parts), colours are equal exactly when all three parts are, brightness is the rounded weighted sum of 30, 59 and 11 percent, and a colour is parsed from exactly six hexadecimal digits in either case, anything else giving none. Bitmaps of more than 2 GB are created and copied whole.',
     ['histories', 'inputs'], 'every sequence of 3 to 5 (4 to 6) operations on three variables of each of five kinds; all strings of six lower case hexadecimal digits (thorough: of either case), all pairs of bytes at all pairs of places, all lengths to 41; all colours; four bitmaps of 2.1 to 4.3 GB',
     'the stored tests copy none of these',
     ['src/autotrace.c', 'src/color.c', 'src/fit.c'],
     [('options', 'at_fitting_opts_copy, at_input_opts_copy, at_output_opts_copy in src/autotrace.c'), ('bitmaps', 'at_bitmap_init, at_bitmap_copy, at_bitmap_get_color in src/autotrace.c'), ('colours', 'src/color.c')],
     ['the values themselves, the number of live heap blocks'],
     'exhaustive enumeration of operation sequences on the real code against a model of plain values; exhaustive enumeration of colour strings', 'all sequences and strings of the stated sizes')

prop('C23', 'The option classes of the C++ wrapper are faithful, independent values',
     'Every field of the option classes set by builder or by JSON, alone or together with others, holds exactly the value given, and all others their defaults; values of the wrong type, missing keys and colours with a part outside 0 to 255 leave the default, and a text that is no object is refused with an error. Writing options to JSON and reading them back gives equal options. Copies, assignments (to itself too) and builders are independent of each other, and nothing is leaked or freed twice in any order of operations.',
     ['inputs', 'histories'], '17 fields with all pairs of 194 values by builder, JSON and round trip; 14 JSON values per key; 17 to the third colours in JSON and a grid of 5832 (636056) colours; 12 texts; every sequence of 3 (4) of 30 operations on three variables of each class',
     'the stored tests set each field once, to one value, and never assign',
     ['src/wrapper/FittingOptions.cpp', 'src/wrapper/FittingOptionsBuidler.cpp', 'src/wrapper/InputOptions.cpp', 'src/wrapper/InputOptionsBuilder.cpp', 'src/wrapper/OutputOptions.cpp', 'src/wrapper/OutputOptionsBuilder.cpp', 'src/wrapper/Json/JsonHelper.cpp'],
     [('fields', 'src/wrapper/FittingOptionsBuidler.cpp, src/wrapper/FittingOptions.cpp'), ('JSON', 'src/wrapper/Json/JsonHelper.cpp'), ('copies', 'copy constructors and assignments in src/wrapper/FittingOptions.cpp and src/wrapper/InputOptions.cpp')],
     ['the fields of the objects, exceptions, the number of live heap blocks'],
     'exhaustive enumeration of values and of operation sequences on the real classes against a model of plain values', 'all values and sequences of the stated sizes')

prop('C24', 'The C++ wrapper produces what the library produces, or reports an error',
     'For every input file, output format and set of options, the wrapper writes exactly the bytes that the library calls with the same options give, and reports success if and only if reading, tracing and writing the whole output succeeded; repeating it gives the same. On an error it returns a message, leaks nothing, and an earlier output file survives when the input cannot be read. The functions that take a picture in a buffer and give the result in a buffer do the same for every option text, refuse wrong texts and buffers that are too small, and never touch memory outside the buffer.',
     ['inputs', 'configurations', 'fault_sequences'], '23 settings times 18 formats times 2 pictures; 45 input files times 18 formats; every truncation of every input file; 9 kinds of wrong paths; outputs that are full after 20 selected (thorough: every) numbers of bytes, or refuse one of the first 16 (60) writes, in 18 formats; 112 combinations of option texts, 21 wrong ones, five buffer sizes',
     'the stored tests never trace anything with the wrapper',
     ['src/wrapper/autotrace.cpp', 'src/wrapper/Options.cpp', 'src/wrapper/autotraceMain.cpp', 'src/wrapper/FittingOptions.cpp', 'src/wrapper/InputOptions.cpp', 'src/wrapper/OutputOptions.cpp'],
     [('the pipeline', 'Autotrace::produceOutput in src/wrapper/autotrace.cpp'), ('buffers', 'autotraceRun, getOutputFile in src/wrapper/autotraceMain.cpp')],
     ['the result of produceOutput, autotraceRun, getOutputFile, the output file, the number of live heap blocks'],
     'exhaustive enumeration of inputs, settings, truncations and points of failure of the output on the real wrapper, compared with direct calls of the library', 'all stated combinations', level='fault_enumeration')
prop('C25', 'Font characters written as glyph source keep code, size, measures and place',
     'Reading a character of a GF font, tracing it and writing it as glyph source (UGS) gives a symbol with the code of the character, the design size and advance width of the font, in pixels, and bearings, ascend and descend that are those of the ink of the character. The traced points lie where the character lies relative to its origin and baseline, for every origin and size. This holds for each character of a font, whichever characters were read before.',
     ['inputs', 'histories'], 'every glyph of 3x2 cells (thorough: 3x3) in 64 places relative to the origin with nine advance widths, every 3x3 glyph enlarged with fitted curves in several places, fractions of advance widths and design sizes, all codes, and all pairs of characters of one font',
     'no test reads a GF file or writes glyph source; the numbers travel from the reader to the writer outside of the bitmap and go wrong for particular places and orders only',
     ['src/input-gf.c', 'src/output-ugs.c'],
     [('character and font measures', 'gf_get_char, input_gf_reader in src/input-gf.c'), ('symbol measures and dots', 'output_ugs_writer in src/output-ugs.c')],
     ['the text that the ugs handler writes after at_bitmap_read with the gf handler and at_splines_new'],
     'exhaustive enumeration of characters, places, measures and reading orders on the real reader, tracer and writer, compared with the glyph that the font was made from', 'all stated combinations')
prop('C26', 'Corners stay in place, the rest is smooth, straight edges stay straight',
     'A point of an outline whose angle, taken over the surround on both sides, is below the corner thresholds is the exact end of a curve, whatever smoothing is asked for; two curves that meet anywhere else continue in the same direction, and without smoothing they meet at points of the outline. With the default settings a picture all of whose edges are horizontal or vertical and at least three pixels long, and every rectangle of three or more pixels, is traced into exactly these edges as straight lines.',
     ['inputs', 'configurations'], 'settings of both corner thresholds, surround, smoothing and tolerances times all small pictures at several scales, triangles and ellipses; all pictures of 3x3 cells with several column widths and row heights, of 4x4 cells, of three colours, and all rectangles to 64x64',
     'the stored tests compare a handful of traced pictures with stored output; which points are corners depends on the shape, its starting point and the settings together',
     ['src/fit.c', 'src/vector.c', 'src/curve.c', 'src/spline.c'],
     [('corner detection', 'find_corners, remove_adjacent_corners in src/fit.c'), ('tangents at subdivisions', 'find_tangent in src/fit.c'), ('smoothing', 'filter in src/fit.c')],
     ['the curves that at_splines_new returns'],
     'exhaustive enumeration of pictures and settings on the real tracer; angles, joints and edges are computed by brute force from the exact outline', 'all stated combinations')
prop('C27', 'Larger fitting tolerances give fewer curves and more straight lines',
     'Raising the error threshold only removes points where curves meet, it never adds or moves one. Raising the line threshold turns curves into straight lines between the same ends and changes nothing else; a curve becomes a line when its mean distance from the straight line is below the threshold (for very short ones, below half the squared length). Raising the line reversion threshold only keeps more of these lines.',
     ['inputs', 'configurations'], '6 error thresholds, 7 line thresholds and 4 reversion thresholds times settings of corners, smoothing and tangents times all small pictures at several scales, triangles and ellipses',
     'tests use the default tolerances; the relation between two settings shows only when the same picture is traced with both',
     ['src/fit.c', 'src/spline.c', 'src/vector.c'],
     [('subdivision', 'fit_with_least_squares, find_error in src/fit.c'), ('lines', 'spline_linear_enough, change_bad_lines in src/fit.c')],
     ['the curves that at_splines_new returns'],
     'exhaustive enumeration of pictures and chains of settings on the real tracer, each compared with the next and with distances computed by brute force', 'all stated combinations')
prop('C28', 'Colours are only compared: other colours give the same shapes in these colours',
     'Tracing without colour reduction and despeckling distinguishes pixels only by whether their colours are equal, however close these are. Exchanging the colours of a picture (and of the background) for any others gives the same shapes in the same order with the exchanged colours, for outlines and, with a background colour, for centerlines. A gray bitmap gives the same outlines as the RGB bitmap with the same colours.',
     ['inputs', 'configurations'], '14 sets of three colours, gray ones in one and three planes, times every background, times all small two and three colour pictures, also enlarged, as outlines and as centerlines',
     'a colour that is treated specially, or a channel that is left out of a comparison, shows only for particular colours next to each other',
     ['src/pxl-outline.c', 'src/autotrace.c', 'src/thin-image.c', 'src/color.c', 'src/bitmap.c'],
     [('comparison of pixels', 'find_outline_pixels, find_centerline_pixels in src/pxl-outline.c'), ('background', 'at_color_equal in src/color.c'), ('thinning', 'thin_image in src/thin-image.c')],
     ['the shapes that at_splines_new returns'],
     'exhaustive enumeration of pictures and colourings on the real tracer, all compared with each other', 'all stated combinations')
prop('C29', 'Where a shape lies in the picture does not change how it is traced',
     'A drawing surrounded by at least three pixels of background is traced alike wherever it lies and however large the picture is: the same shapes in the same order, moved by the same distance. Without fitting this holds exactly, for outlines and for centerlines; fitted outlines run within half a pixel, fitted centerlines within two pixels of their place.',
     ['inputs', 'configurations'], 'all small pictures at several scales and ellipses, in five modes of tracing, at eight places, and at eight places thousands of pixels away',
     'each stored test has its drawing at one place; errors at borders, in coordinates beyond a type, or in the row order need the same drawing at several places',
     ['src/pxl-outline.c', 'src/fit.c', 'src/thin-image.c', 'src/image-proc.c', 'src/curve.c'],
     [('coordinates of outline points', 'find_one_outline, find_one_centerline in src/pxl-outline.c'), ('widths', 'fit_curve_list in src/fit.c')],
     ['the shapes that at_splines_new returns'],
     'exhaustive enumeration of pictures and places on the real tracer, each compared with the same drawing in the middle of a picture of its size', 'all stated combinations')
