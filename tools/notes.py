NOTE = {
 "C04": ("proof", "for all byte strings of any length: table identities plus loop induction over CRC24Q.calc; unbounded"),
 "C05": ("proof", "all buffers, positions and the 128 field widths; loops by induction; unbounded buffers"),
 "C06": ("proof", "all bit contents and lengths of the seven messages, against an independently written RTCM layout table"),
 "C07": ("proof", "as C06 with scaling; floating-point products read as exact real products (coefficients to 1e-12)"),
 "C01": ("proof", "all byte streams and chunkings: the real scanner with inferred inductive loop invariants (greatest inductive subset of a candidate set); CRC as a function of the bytes, unbounded"),
 "C02": ("proof", "as C01; includes termination of every loop and progress; chunk independence follows because the extracted sequence is determined by the bytes"),
 "C03": ("proof", "as C01 with a ghost count of the gaps; unbounded histories"),
 "C08": ("proof", "all contents and lengths of the eight messages; strings and lists of arbitrary length by induction over the loops"),
 "C09": ("proof", "as C08 with scaling; floating-point products read as exact real products; text that is not UTF-8 excluded"),
 "C10": ("proof", "all payload bits, masks and lengths of the 49 messages: satellite, signal and cell counts symbolic, columns of symbolic length by a generic entry"),
 "C11": ("proof", "every shape (1..32 signals, satellites with at most 64 cells, all 280 enumerated), all masks, cell patterns and column values of MSM4..7 symbolic; string tables by complete enumeration"),
 "C12": ("proof", "as C11 for MSM1..3"),
 "C13": ("proof", "all 4096 message numbers and all three modes enumerated completely; decode outcome by the framing contract, arbitrary statistics"),
 "C14": ("proof", "every decoder, every message number, arbitrary payload and arbitrary prior state; history independence by poisoning of every written location"),
 "C15": ("proof", "every record type and mode, printer outcomes arbitrary (including exceptions), arbitrary prior counters"),
 "C16": ("proof", "all times, days and leap-second shifts in the domain, all constellations and kinds, through the real printer to the text of the row"),
 "C17": ("proof", "records with every signal and satellite 1..64 present or absent independently, arbitrary values, two successive records (any subset of files already open), all option combinations; exact reals"),
 "C18": ("proof", "all constellations, signals, kinds and columns enumerated, literals symbolic; exact reals"),
    "C19": ("proof", "any subset of the 64 files open, then any record of any number, then release; every field opaque, epochs symbolic, all 8 control settings, scaled and raw records; json.dumps and the file system modelled"),
    "C20": ("proof", "initial file and 0, 1, 2 updates with any subset of sections and options present and any values; the state after n updates is that after one with the accumulated file, so two cover all histories; ConfigParser modelled"),
    "C21": ("proof", "reading loop by invariant for any number of chunks, failure at any point; extraction, decoding and printing by contract (C02, C03, C14)"),
    "C22": ("proof", "all field values symbolic for every record type; nested containers up to 3 elements (bounded in that depth); exact reals with NaN as a separate case"),
}
