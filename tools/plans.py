"""What decides each property (used by design.py)."""
PLANS = {
"C01": ("HierStore (layout of a tree in attributes, datasets and groups named after the container), Tree (when two trees are the same, what the store normalises)",
  "HierStoreMC: every sequence of 4 updates of a key over all kinds of values: one representation, read = last written, names of layouts injective",
  "260 random signals: trees up to depth 4 with every leaf type, containers of up to 130 items, ragged arrays, arrays of every dtype, memory order; chunks, compression, zip/folder/memory/slow stores, lazy input and output; judged by Tree equality (RoundTripTrace)", "9 s"),
"C02": ("SaveHistory (file = map from titles to signals; operations save, add, update without data, save from lazy, transform)",
  "SaveHistoryGen lets TLC enumerate histories: every pair of kinds under one key and random longer ones; HierStoreMC as above",
  "640 histories of 2 to 6 saves replayed on hspy and zspy; after each operation every signal is read and compared with the model's file", "20 s"),
"C03": ("WriteSession (references, places, saves, changes of the signal afterwards)",
  "WriteSessionGen: TLC enumerates all sessions of 4 operations over 3 keys and 2 places (state graph ≈ 22k states)",
  "560 sessions over all writable formats and random options (containers, unknown keys, extreme values); digests of signal, options and of all other files before/after; reads compared with a fresh process", "65 s"),
"C04": ("ReadSession (what a read returns is a function of file content and options)",
  "ReadSessionGen: TLC enumerates the sessions (read lazily/eagerly, compute, change a result, replace the file)",
  "sessions of 4 to 8 operations over the sample files of all formats and made files (Velox, DM, SER, MIB, BCF, JEOL) with random options, references read in fresh processes", "80 s"),
"C05": ("ReadSession (reference event / read event)", "as C04",
  "all sample files × option sets (corpus.py) + made files with random contents and options: eager reference against lazy reading computed whole, in part, threaded or not; announced dtype/shape", "35 s"),
"C06": ("OutputContract (the contract of doc/api: keys, one axis per dimension, sizes, calibration, names)", "none: the contract has no transitions; TLC evaluates it on each observation",
  "all sample files × options, lazy and eager, and made files", "20 s"),
"C07": ("Blocks (cuts of a shape, positions of elements in C/Fortran order, frames at given positions)",
  "BlocksMC: every shape up to 3 dimensions of size 3, every cut, every order of loading, both memory orders: the result is the array, nothing written twice",
  "670 cases: memmap_distributed on crafted files whose k-th element is k (offset, order, sub-arrays and fields of structured dtypes, positions, chunks, block size limits) + chunks of the readers on sample files; judged element by element", "13 s"),
"C08": ("Formats (for each writer: accepted signals, conversion of data, axes, metadata; what comes back)",
  "FormatsMC: over small signals of every format and option: elements kept, axes describe the data, writing what came back loses nothing more",
  "≈ 850 signals of all dtypes, dimensions, units, orders, lazy or not, saved with random options and read back", "13 s"),
"C09": ("TvipsSeries (files of a film up to the first gap, scan positions, winding and lag, rotator with dropped and doubled frames)",
  "TvipsSeriesMC: a beam scans (winding or not) and frames are recorded (dropped, doubled): every position has its own frame or one of before, in order; unwinding is a permutation that puts each frame where the beam was",
  "500 made films (1-4 files, missing parts, headers of several sizes, rotators) × options, judged frame by frame, axes and metadata", "10 s"),
"C10": ("EventStream (small-step reader of channels and pixel marks, and the declarative count)",
  "EventStreamMC: every stream of bounded length, all windows: machine = count, counts conserved, windows partition, sum of frames",
  "300 made Velox files: random streams for 1-3 detectors, frame windows, rebinning, sums, dtypes, lazy", "11 s"),
"C11": ("JeolStream (marks, image values, events; frames, down-sampling, rebinning, cut, shifts)",
  "JeolStreamMC: every stream over small alphabet × options: machine = fold over frames, events conserved, bounds, sum of frames, block sums",
  "500 made .pts files with all options, broken and incomplete frames", "31 s"),
"C12": ("Bcf (container of items in chunks with chained tables; packing of pixels; blocks; counts)",
  "BcfMC: window reader over all block sizes × record lengths (every record read whole and in place, terminates); unpack inverse to pack for all small values of the three packings",
  "≈ 450 made containers and maps × both parsers (compiled from the present .pyx, python) × options, decoding of every pixel by Bcf.tla", "16 s"),
"C13": ("DmTags (tree of tags, paths, numbering of unnamed ones, which image is which)",
  "DmTagsMC: every tree of up to 4 tags: stack machine = tree paths, names unique",
  "400 made DM3/DM4 files, both byte orders, all tag types, several images, packed complex, RGB, lazy/orders", "17 s"),
"C14": ("MibFrames (selection, arrangement, guess from time stamps)",
  "MibFramesMC: all numbers of frames, shapes, first/last (negative too): only and all requested frames, each once, complete lines",
  "600 made .mib files (all dtypes, quad, headers, interrupted, .hdr), both APIs, buffers", "4 s"),
"C15": ("SerFile (acquisition machine: elements recorded one by one, may stop; arrangement, calibration)",
  "SerFileMC: every stop of every small scan: all recorded elements are returned once, in place, fill only where nothing was recorded",
  "≈ 580 made .ser/.emi files", "4 s"),
"C17": ("Unpickler (the pickle machine: stack, marks, memo, every instruction that looks up a name or calls; the list of names)",
  "UnpicklerMC: all programs of 4 (thorough 5) instructions: only listed names are ever on the stack, in the memo or called; a refusal comes before any other name is reached",
  "3000 random pickle programs run by the real unpickler (some as metadata of .prz files) with the outcome the machine gives; arrays of objects in every place of .npy/.prz files × lazy/compressed/allowed; saved metadata read back; every sample file, and generated ones of all kinds, read with the interpreter's audit events: a text evaluated that changes with the file is the file's; and with texts replaced by calls of a recording function", "110 s"),
"C18": ("XmlTree (trees; the value of a node; grouping, flattening, text between children; decimal commas character by character)",
  "XmlTreeMC: every tree of two levels × options: every text and attribute is in the result once, keys are distinct",
  "600 random trees (texts that look like literals, or nearly) × options, 200 trees for EMPAD, 2000 numbers with commas", "5 s"),
"C19": ("TextLogs (lines to values: numbers of an MSA file in either format; samples, steps and notes of logs)",
  "TextLogsMC: every short file: as many values as written, in order, none lost at blank lines",
  "made EMSA, DENS, Impulse and Protochips files with all they may hold, read and compared value by value", "15 s"),
"C20": ("LabMaps (word of the file for each number of the array; dimensions reversed; rows left out)",
  "LabMapsMC: all maps, line scans and arrays up to side 3 (thorough 4): each word once, in place; rows of the footer never",
  "500 EDAX, 200 EMPAD, 250 EELSLab files made with every field of their headers known, lazily or not", "10 s"),
"C16": ("Helpers (the files that exist; instants in the Gregorian calendar; trees of metadata)",
  "HelpersMC: histories of 4 (thorough 5) calls: names given are free, directories complete, nothing overwritten without a yes, no value of a tree lost; every day of 1598-2105 (2405) is one later than the day before",
  "150 histories of path helpers on real directories, 900 dates, 300 arrays, 60 .npy headers, 150 histories of trees", "15 s"),
"C22": ("JeolFiles (tags to paths and values; the files of a workspace in order)",
  "JeolFilesMC: every tree of two levels: keys unique, every tag but replaced ones is there, everything has its parents",
  "250 images and maps, 250 spectra and 120 workspaces made with every field known", "15 s"),
"C23": ("Migration (leaves of the metadata, moved one by one, version after version; which version; whose model)",
  "MigrationMC: every tree of up to 2 (thorough 4) leaves, old names and new: in any order of moves, nothing is lost, the end is the direct map, which leaves present trees as they are",
  "900 made HDF5 and Zarr files of 13 versions (said in three ways, or not said), lazily or not", "16 s"),
"C24": ("Spectra (channels in the order recorded; turned with their axis; axes of more than one value; settings to places)",
  "SpectraMC: every axis of up to 3 (thorough 5) channels in either direction and every grid of positions: each count is at its wavelength and position, axes ascend, shapes agree",
  "LabSpec, HPD-TA and TriVista files made from the model: directions, maps, lines, series, glued spectra, sets of settings, sets of hardware, types of data, uniform axes or not, stacks", "11 s"),
"C25": ("Wdf (spectra and positions in a file laid out for as many as were asked for; axes by kind of measurement; trees of named values)",
  "WdfMC: a measurement of up to 4 (thorough 8) spectra that stops at any time: all that was measured is found where it was written, data and axes agree, a map keeps its complete lines",
  "700 made files: single, series, maps, lines, unspecified; interrupted or not; blocks in any order, known or not; trees of named values with all types; uniform axis or not; images", "18 s"),
"C26": ("NexusFile (a tree of groups, arrays and links; what is a signal, what are its axes; selection by keys, paths, default; metadata)",
  "NexusFileMC: every tree of up to 3 (thorough 4) nodes besides the root: each array is read exactly once, keys only leave out or reorder, one axis per dimension, the default is one signal or none",
  "500 made files × options: entries, NXdata of 1-3 dimensions with even/uneven/text/unnamed axes, errors, other arrays, soft/external/dangling links, root and entry defaults, all options, lazy and eager", "25 s"),
"C21": ("ReadSession (open events: number of files open after each step)", "as C04",
  "sample files × options + made files + 330 damaged files (truncated, garbled): open file descriptors of the process after eager reading, after failed reading with the exception alive, after computing and dropping a lazy result", "80 s"),
}
SEEDS = {}
