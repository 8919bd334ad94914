# id -> how the expected result is known
ORACLE = {
    'C01': "The file is produced by an encoder in the check from a picture that is known; the oracle is that picture (samples scaled as v*255/maxval). The reader's token buffer and its 1 KiB read buffer make layout matter, so header fields, comments and line breaks are placed at every offset across the buffer boundary.",
    'C02': 'Encoder with independent knobs (header, depth, palette, direction, compression, masks). RLE streams are enumerated as words over the opcodes (runs, literals, end of line, delta, end of picture) and interpreted by a ten line reference.',
    'C03': 'Encoder; all compositions of a pixel sequence into raw and run packets; all ordered pairs of files read in one process against the same file read alone.',
    'C04': "A PNG encoder of its own (filters, Adam7 interlacing, chunks and their splitting); only the compression is zlib's, at several levels. 15 colour type/depth pairs times sizes to 20x9, because Adam7 passes vanish at small sizes.",
    'C05': 'GF encoder that can express one glyph by several command styles. Oracle: the glyph trimmed to its ink.',
    'C06': 'Fault enumeration: each of about 45 valid base files of all formats is cut at every length and gets every value in every byte, pairs of header bytes get a set of extreme values. Each file is read twice with different heap fills; the oracle is: no sanitizer report, no exit, bounded time, same outcome twice, picture or message, heap back to where it was, and for cuts before the end of the pixels always a message.',
    'C07': 'All pictures up to the bound, all backgrounds. The traced outlines are repainted by an even-odd rasteriser over pixel centres; the result must be the picture. Orientation by the signed area. Gray and RGB must agree.',
    'C08': 'All pictures of the bound times all pairs of option deviations; the exact outline (from a trace with fitting tuned to keep every corner) is the reference, distances are computed against it by brute force.',
    'C09': 'Thinning: connected components and holes counted by flood fill before and after; simple points by brute force. Tracing: each line is walked and matched to pixels of the thinned picture; degree-two components must be one line.',
    'C10': 'Reference median cut on plain lists; brute force nearest colour search.',
    'C11': 'Reference despeckler on plain flood fills; compared pixel by pixel, and with what the tracer then traces.',
    'C12': 'The cancel callback is owned by the check. First run counts the polls k; then for every j<k the trace is cancelled at poll j, once or from then on; heap accounting and a following trace are compared.',
    'C13': 'Monitor automaton on the sequence of reports; the allowed increment is computed from picture size and number of shapes.',
    'C14': 'Operations (read file f, trace p with configuration c, write array a in format o; failing and cancelled ones included) are nodes; every sequence of 2 (3) is executed in a process of its own, and the observation of the last operation must be the one it gives alone.',
    'C15': 'Interpreters of the eight formats (tokenisers for SVG paths, PostScript operators, PDF objects with cross reference table, Sketch and POV commands) turn the file into painted paths; these must equal the array within the printed precision.',
    'C16': 'As C15 for seven formats; flattened curves are checked against points on the curve; holes by painting order.',
    'C17': 'Record walkers for EMF, CGM and DR2D that check sizes, padding, handles, and paint.',
    'C18': 'The same array is written with three heap fills, in two locales, to a file, a memory stream and a stream that cannot seek; and to a stream that is full after n bytes for every n.',
    'C19': 'The program is started in a scratch folder; the library is called with the option set through the public structures. Bytes must be equal. Abbreviations are computed from the option table in the documentation.',
    'C20': 'A file size limit makes the output file, or the redirected standard output, full after n bytes; a stand-in for the opening of files (`checks/flaky.c`) refuses a single write. Expected status from a small table and from the length of the complete output.',
    'C21': 'Reference: a map from lower case name to handler.',
    'C22': 'Reference: plain structs. Large bitmaps only in four cases (2.1 to 4.3 GB, touched sparsely).',
    'C23': 'Reference: plain structs with defaults; heap accounting after each sequence.',
    'C24': 'Reference: direct library calls in a child process; faults as in C20.',
    'C25': 'Encoder of fonts; the measures follow from the ink of the glyph and the numbers put into the font. Exact traces must put every dot at its pixel corner; fitted curves must be those of the same character at the origin, moved.',
    'C26': 'The outline points come from an exact trace of the same picture (that it is exact is C07). The angle at each point is computed from the definition in the documentation; points below both thresholds must be ends of curves, joints elsewhere must have parallel control arms. For straight edges the expected polygon is the outline without its collinear points.',
    'C27': 'Differential: the traces of one picture with a chain of thresholds are compared with each other; the mean distance of each curve from its chord is computed by sampling the curve, with a margin of 40 percent because the library weighs by outline points.',
    'C28': 'Differential: all colourings of one label picture must give the same text with labels in place of colours.',
    'C29': 'Differential: the drawing in the middle of a picture with a margin of three pixels is the reference.',
}
