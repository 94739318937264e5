G_NOTE = ("Bounded: the design is model-checked exhaustively at small sizes and every generated "
          "case/trace run through the public API of the working tree is judged by TLC against the "
          "specification; inputs outside the generators' ranges are not explored.")

prop("C01", "Data, axes and metadata survive a .hspy/.zspy save and load",
 "Saving a signal to .hspy or .zspy and loading it back (eagerly or lazily) returns the same data (dtype, shape, every value, including ragged arrays), the same axes, and the same metadata, original_metadata and learning_results trees: every key, container type (dict, list, tuple), element order and nesting, for any number of elements, and the same scalars, strings and arrays. Chunking, compression, the kind of store (folder, zip, in memory, however slow) and saving from a dask array with any chunks do not change what is read back. (A flat list holding strings and numbers comes back as strings, one holding several numeric types as a single one; the string '_None_', keys containing '/' or starting with a reserved '_list_', '_tuple_', '_bs_' prefix, and complex scalars in .zspy are excluded; the order of dictionary keys is not kept.)",
 ["inputs", "configurations"],
 "for every data array and every tree of nested containers whose leaves are None, bool, int, float, complex, str, and numeric or string arrays; every supported chunk/compression/store option; both formats; lazy or eager",
 "tests round-trip a few fixed trees (short lists, two nesting levels); the guarantee is over every tree, length and option combination",
 ["rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py"],
 [("dict to group encoding", "rsciio/_hierarchical.py dict2group/parse_structure"), ("group to dict decoding", "rsciio/_hierarchical.py _group2dict"), ("dataset writing", "rsciio/_hierarchical.py overwrite_dataset")],
 note=G_NOTE)

prop("C02", "A .hspy/.zspy file always reads as what its last saves wrote",
 "After any sequence of saves to one .hspy/.zspy file - overwriting it, adding or replacing a signal (mode='a', hspy), updating everything but the data (write_dataset=False), loading it lazily and overwriting it with the data in memory, or transforming the data lazily in place - every signal in the file reads back with the data, dtype and axes of its last save and with metadata in which each key has the value last written to it, whatever kind of value (scalar, None, string, list, tuple, dict, array, ragged) was stored there before; keys that were not written again keep their value. An overwritten file contains nothing of its previous contents. An operation that cannot be done safely (writing to a file that is open for reading lazily, or overwriting a file with lazy data read from it) raises OSError and leaves the file readable and unchanged.",
 ["histories", "inputs", "configurations"],
 "for every history of operations on one file, every pair of old and new value kinds under one key, both formats, file opened lazily or eagerly between the operations",
 "tests overwrite a file once with one kind of value; stale representations and half-overwritten files appear only for particular sequences",
 ["rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py"],
 [("updating keys", "rsciio/_hierarchical.py dict2group/_remove_stale_items/parse_structure"), ("file modes", "rsciio/hspy/_api.py file_writer, rsciio/zspy/_api.py file_writer"), ("lazy arrays of the overwritten file", "rsciio/_hierarchical.py load_arrays_to_overwrite")],
 note=G_NOTE)

prop("C04", "What a read returns depends only on the file and the options",
 "Reading a file returns the same data, axes, metadata and original_metadata whatever happened before in the process: other files (of the same or another format) read before, the same file read with other options, another file that was at the same path, earlier results changed in place or dropped, lazily read results computed later. Reading - and changing what a read returned - never changes a file.",
 ["histories", "inputs"],
 "for every sequence of reads (eager or lazy), computations, in-place changes of results and replacements of files, over every supported format",
 "tests read one file per process state; shared module state, caches, mutable defaults and writable memory maps only show in histories",
 ["rsciio/utils/_distributed.py", "rsciio/hspy/_api.py", "rsciio/digitalmicrograph/_api.py", "rsciio/emd/_emd_velox.py", "rsciio/jeol/_api.py"],
 [("readers", "rsciio/*/_api.py file_reader"), ("memory maps", "rsciio/utils/_distributed.py, numpy.memmap in the readers")],
 note=G_NOTE)

prop("C05", "Reading lazily gives exactly what reading eagerly gives",
 "For every supported file and combination of reader options, reading it lazily and computing the result (whole or in part, with any scheduler) gives the same number of signals, data (dtype, shape, every value), axes, metadata and original_metadata as reading it eagerly, and the description of the lazy array (dtype, shape) is that of what it computes to. A reader may refuse (NotImplementedError, or ValueError saying so) to read something lazily. (Velox images keep their dtype when read lazily and become float64 when read eagerly; time stamps of the reading are excluded.)",
 ["inputs", "configurations"],
 "for every readable file of every format with a lazy reader, every option, every way of computing the lazy result",
 "tests compare lazy and eager reads for a few files with default options",
 ["rsciio/utils/_distributed.py", "rsciio/jeol/_api.py", "rsciio/tiff/_api.py", "rsciio/bruker/_api.py", "rsciio/tia/_api.py"],
 [("lazy branches of the readers", "rsciio/*/_api.py file_reader"), ("chunked memory maps", "rsciio/utils/_distributed.py")],
 note=G_NOTE)

prop("C06", "The axes a reader returns describe the data array",
 "Every signal returned by any reader has data, axes, metadata and original_metadata; its axes are one per dimension of the data array, each for another dimension (index_in_array if given, the position in the list otherwise), of exactly the length of that dimension, with finite numeric calibration and a name and units that are strings or None; a lazy array computes to the dtype and shape it announces. (NeXus datasets without axes have an empty list of axes.)",
 ["inputs", "configurations"],
 "for every readable file of every format and every combination of reader options, lazy or eager",
 "tests look at the axes of particular files; the guarantee is over all of them",
 ["rsciio/_docstrings.py", "doc/api/index.rst", "rsciio/jeol/_api.py", "rsciio/tia/_api.py", "rsciio/utils/_image.py"],
 [("axes built by the readers", "rsciio/*/_api.py")],
 note=G_NOTE)

prop("C10", "Velox EDS event streams give exactly the recorded counts",
 "Reading the EDS spectrum image of a Velox EMD file returns, for every frame (or their sum), pixel and rebinned channel, exactly the number of events the stream records there within the frames [first_frame, last_frame), added over detectors or one signal per detector as asked, with the requested dtype, whether read lazily or eagerly. The frame window defaults to all frames (from the file's settings or, failing that, deduced from the pixel marks), the energy axis keeps its offset while its scale is multiplied by the rebinning, the frame information recorded in the metadata agrees with the data, and a rebinning that does not divide the number of channels or a window beyond the last frame is refused with ValueError. STEM images in the same file are returned frame by frame unchanged when asked for.",
 ["inputs", "configurations"],
 "for every event stream (any counts, repeated or absent channels, empty pixels, interrupted last frame, with or without final mark), map shape, number of detectors and combination of reader options",
 "the tests read a few sample files whole; the streams, frame windows, rebinnings and detector combinations are unbounded",
 ["rsciio/utils/_fei_stream_readers.py", "rsciio/emd/_emd_velox.py"],
 [("stream decoders", "rsciio/utils/_fei_stream_readers.py"), ("frame window, detectors", "rsciio/emd/_emd_velox.py FeiSpectrumStream, _read_spectrum_stream")],
 note=G_NOTE)

prop("C11", "JEOL spectrum images give exactly the recorded counts",
 "Reading a JEOL .pts file returns for every requested frame (or their sum), pixel and channel exactly the number of X-ray events the word stream of the file records there - after dividing positions by the down-sampling and channels by the rebinning, cutting the energy range, and moving each frame by its shift (relative to the largest of the requested frames, the map shrinking accordingly) - and the electron image is the sum of its values there; read lazily or eagerly, with or without the frame index of an earlier read. Frames are returned in the order of frame_list; an incomplete frame is left out unless only_valid_data is False. Axes have the calibration of the file, corrected for rebinning and down-sampling, the header becomes original_metadata, divisors that do not divide and counts that do not fit the dtype are refused with ValueError.",
 ["inputs", "configurations"],
 "for every word stream (positions, repeated events, frames with or without an electron image, interrupted last frame, words of unknown kind), map shape and combination of reader options",
 "tests read a few sample files; the option combinations (frame lists, shifts, index, down-sampling, lazy) are unbounded",
 ["rsciio/jeol/_api.py"],
 [("word stream decoders", "rsciio/jeol/_api.py _readframe_dense/_readframe_lazy/_skip_frame"), ("frame selection and shifts", "rsciio/jeol/_api.py _readcube"), ("tag tree", "rsciio/jeol/_api.py _parsejeol")],
 note=G_NOTE)

prop("C07", "Reading an array in chunks gives the array, whatever the chunks",
 "memmap_distributed (behind the lazy reading of most formats) returns an array with exactly the elements the file holds - for every shape, dtype and byte order, offset, C or Fortran order, field of a structured dtype, chunks (numbers, lists, -1, 'auto'), block size limit, and list of frame positions (absent frames are zero, a position listed twice holds the last frame) - both as a whole and block by block, its chunks covering the array exactly and being those asked for. The same holds for the chunks argument of the readers.",
 ["inputs", "configurations", "schedules"],
 "for every array shape, layout in the file and way of cutting it in blocks, whatever the order in which blocks are loaded",
 "tests load a few arrays with one or two chunk settings; off-by-one blocks, wrong offsets and orders show for particular shapes and cuts only",
 ["rsciio/utils/_distributed.py", "rsciio/utils/file.py"],
 [("block boundaries", "rsciio/utils/_distributed.py get_chunk_slice/get_arbitrary_chunk_slice"), ("reading one block", "rsciio/utils/_distributed.py slice_memmap"), ("assembling", "rsciio/utils/_distributed.py memmap_distributed")],
 note=G_NOTE)

prop("C14", "Merlin (.mib) frames are selected and arranged as asked",
 "Reading a .mib file returns exactly the frames [first_frame, last_frame) of the file (python slice semantics), each once, in order and pixel for pixel (upside down, as documented by the existing behaviour, in file_reader), arranged in the given, recorded (.hdr) or - from the time stamps, the first longer pause ending the first line - guessed scan shape; if the acquisition was interrupted only complete lines of the frames are kept, and if a selection does not fit the shape the frames are a stack. Lazy, eager, and memory buffer agree; headers, exposures, time stamps, dtype, axes and the content of the .hdr file go with the frames.",
 ["inputs", "configurations"],
 "for every number of frames, detector layout (single, quad), bit depth, scan shape, frame selection, .hdr content and sequence of time stamps",
 "tests read a few files and selections; the interplay of scan shape, interrupted acquisition and first/last frame is combinatorial",
 ["rsciio/quantumdetector/_api.py"],
 [("frame selection and arrangement", "rsciio/quantumdetector/_api.py load_mib_data"), ("guessing of the scan shape", "rsciio/quantumdetector/_api.py file_reader")],
 note=G_NOTE)

prop("C15", "TIA (.ser/.emi) series are arranged as they were recorded",
 "Reading a .ser file returns every recorded spectrum or image (elements, in order, pixel for pixel, images the right way up), over the dimensions of the header - in the order in which the scan was stored, dimensions of one image dropped -; what was not recorded because the acquisition stopped is left out of a series (only_valid_data) or else filled with nan (floating point) or zero. Axes have the calibration, units (meters becoming nm) and names of the header; a file without any element is refused with OSError. Reading an .emi file returns one signal per .ser file of that name, in the order of their numbers, each with the tree of its own object in original_metadata, the date of the acquisition and units that depend on the mode. Lazy reading agrees.",
 ["inputs", "configurations", "crash_points"],
 "for every kind and dtype of element, number and order of dimensions, point at which the acquisition stops, version of the format, layout of elements in the file and set of .ser files of an .emi file",
 "tests read sample files; scan order, single-image dimensions and interrupted acquisitions combine in many ways",
 ["rsciio/tia/_api.py"],
 [("arrangement and axes", "rsciio/tia/_api.py ser_reader"), ("elements", "rsciio/tia/_api.py load_ser_file/load_only_data"), ("emi", "rsciio/tia/_api.py emi_reader/_guess_units_from_mode")],
 note=G_NOTE)

prop("C13", "Gatan DM3/DM4 files: every tag, image and calibration as stored",
 "Reading a .dm3/.dm4 file returns one signal for each image of its list that is not a thumbnail, in order, and all tags of the file in original_metadata - under the path of groups they have in the file, unnamed tags numbered within their group, dots removed from names, with the value stored (every type: numbers, strings, structures, arrays of them) - those of the image being at ImageList.TagGroup0. Data have the elements, dtype, byte order and shape stored (order='C' or 'F', packed complex images unpacked, RGBA fields ordered), read lazily or eagerly; axes have size, scale, units and origin of the calibration of their dimension (none: scale 1), and role, names and signal type follow from the tags. (Two tags of the same name in one group are not covered.)",
 ["inputs", "configurations"],
 "for every tree of tags, type, byte order and version of the format. A specification of the tree of tags gives the set of (path, value) items twice: from the tree, and with the stack machine a reader is; TLC shows on every small tree that they agree and that no two tags share a path. Crafted DM3/DM4 files of both byte orders, all tag types and image types, with thumbnails, missing calibrations, etc. are read with the real reader and everything returned is judged by the specification.",
 "Tests use real files of the common kinds; paths, numbering and image selection are properties of every tree.",
 ["rsciio/digitalmicrograph/_api.py", "rsciio/utils/_readfile.py"],
 [("tags", "rsciio/digitalmicrograph/_api.py parse_tags/read_*"), ("images and axes", "rsciio/digitalmicrograph/_api.py ImageObject/get_image_dictionaries")],
 note=G_NOTE)

prop("C08", "What a writer stores, its reader gives back",
 "For every format that can be written (blockfile, digitalsurf, EMD NCEM, image, MRCZ, MSA, NeXus, PantaRhei, ripple, Semper, TIFF, TVIPS...), writing a signal the format supports and reading the file back gives the data (values, dtype, shape, order of dimensions), calibration, roles and names of the axes and the metadata the format stores, up to the losses the format has by design (dtype conversions of options such as intensity_scaling, units or names it has no place for, squeezed dimensions), which are stated per format in the specification; lazy and eager signals, any memory layout or byte order of the array write the same; a signal the format can't store is refused.",
 ["inputs", "configurations"],
 "for every shape, dtype, memory layout, navigation/signal dimension, calibration, metadata and writer option",
 "tests save a few arrays per format, mostly C-contiguous with default options",
 ["rsciio/blockfile/_api.py", "rsciio/ripple/_api.py", "rsciio/tvips/_api.py", "rsciio/tiff/_api.py", "rsciio/semper/_api.py", "rsciio/msa/_api.py", "rsciio/pantarhei/_api.py", "rsciio/digitalsurf/_api.py", "rsciio/emd/_emd_ncem.py", "rsciio/nexus/_api.py", "rsciio/image/_api.py", "rsciio/mrcz/_api.py"],
 [("writers", "rsciio/*/_api.py file_writer"), ("readers", "rsciio/*/_api.py file_reader")],
 note=G_NOTE)

prop("C03", "Saving leaves the signal, the options and other files as they are",
 "Saving a signal with any writer changes neither the signal's dictionary (data, axes, metadata, original_metadata, nested in any way), nor the options passed, nor any other file; and what is written depends on that signal and these options alone: saving the same signal again - whatever was saved, read or changed in place before, in the same or another format - gives a file that reads the same as when it is saved alone in a fresh process. Changing the arrays or dictionaries of a signal after it has been saved doesn't change what is read from the file.",
 ["histories", "inputs"],
 "for every sequence of saves (to any of the formats), reads and in-place changes of signals over a set of files",
 "Tests save one signal once; writers that pop keys, sort axes in place, keep module state or aliases only show when a signal is saved twice or to several formats.",
 ["rsciio/blockfile/_api.py", "rsciio/msa/_api.py", "rsciio/ripple/_api.py", "rsciio/tiff/_api.py", "rsciio/_hierarchical.py", "rsciio/pantarhei/_api.py", "rsciio/nexus/_api.py", "rsciio/tvips/_api.py"],
 [("writers", "rsciio/*/_api.py file_writer"), ("hierarchical writer", "rsciio/_hierarchical.py HierarchicalWriter")],
 note=G_NOTE)

prop("C12", "Bruker .bcf maps and .spx spectra are decoded exactly",
 "Every channel of every pixel of a Bruker .bcf map holds the counts that were recorded: whatever the layout of the container (items of any size, chunks in any order, tables of pointers and of items over several chunks, compressed or not, any block size), however each pixel is packed (16 or 12 bit pulses, runs of any width with gains, additional pulses) and wherever blocks cut it, for missing pixels, several maps, and with downsample (sums over squares of pixels), cutoff_at_kV, index, select_type, lazy, and either parser (compiled or not). No count is truncated as long as none exceeds twice the mean that the sum spectrum gives (which determines the type). Images, calibration, axes, date, instrument, detector, times and elements are those of the header; so for .spx spectra.",
 ["inputs", "configurations"],
 "for every layout of the container, packing of pixels, position of block boundaries, combination of options and parser",
 "Tests read a few small files; the packings and the boundaries of blocks and chunks within pixels combine without limit",
 ["rsciio/bruker/_api.py", "rsciio/bruker/unbcf_fast.pyx"],
 [("container", "rsciio/bruker/_api.py SFSTreeItem, SFS_reader"), ("packed pixels", "rsciio/bruker/unbcf_fast.pyx bin_to_numpy, rsciio/bruker/_api.py py_parse_hypermap"), ("header", "rsciio/bruker/_api.py HyperHeader")],
 note=G_NOTE)

prop("C09", "TVIPS films are put together and arranged as they were scanned",
 "Reading a TVIPS film (its first file, _000) returns the frames of all its files (_000, _001... up to the first number that is missing), in order and pixel for pixel, as a stack over time or - given a scan shape, counted from scan_start_frame - at the positions of the scan: winding lines or columns (winding_scan_axis; the first, third... is the reversed one) and their lag (hysteresis, points they are shifted by, turning around) undone; with scan_shape='auto' positions are those given by the rotator in the frame headers, frames before and after the scan left out, missing frames replaced by the ones before them. A scan that needs more frames than there are, is not square ('auto') or cannot be found is refused with ValueError, and so is a file that is not the first. Axes have the calibration of the header, the time of the frames, and the length of the data; metadata those of the first frame; lazy and eager agree, and a lazy film not rechunked has one chunk per file.",
 ["inputs", "configurations"],
 "for every film (number of frames and of files, image size, bits, size of headers, time stamps, rotator values), scan shape, start, winding, lag and laziness",
 "tests read two sample films with a few options",
 ["rsciio/tvips/_api.py"],
 [("files of the film", "rsciio/tvips/_api.py file_reader"), ("scan from the rotator", "rsciio/tvips/_api.py _find_auto_scan_start_stop/_guess_scan_index_grid"), ("winding and lag", "rsciio/tvips/_api.py file_reader")],
 note=G_NOTE)

prop("C18", "XML metadata become dictionaries that hold all of it",
 "XmlToDict (metadata of Bruker, TriVista, TIFF... files) turns any XML tree into dictionaries in which every element is found under the tags of its ancestors (tags to flatten left out, what they hold taking their place), repeated elements being lists in document order, attributes beside (with the prefix if the element has children), text as the value or under the given key, and text between children as asked; texts and attribute values are python literals if they are ones (once evaluated, identifiers such as 8842_80 and anything else staying the string it is, whatever it is), surrounding white space aside. convert_xml_to_dict (EMPAD) gives the texts, attributes and children of every element, whether the file is indented or not. sanitize_msxml_float replaces the comma of every element that is a decimal number - with or without exponent - and nothing else. None of them changes the tree, and converting again gives the same.",
 ["inputs", "configurations"],
 "for every XML tree, text, attribute and combination of options of the converters",
 "tests convert one sample tree; what is lost depends on the shape of the tree and on the texts",
 ["rsciio/utils/xml.py"],
 [("trees to dictionaries", "rsciio/utils/xml.py XmlToDict.dictionarize/eval"), ("decimal commas", "rsciio/utils/xml.py sanitize_msxml_float"), ("EMPAD metadata", "rsciio/utils/xml.py convert_xml_to_dict/xml2dtb")],
 note=G_NOTE)

prop("C17", "Reading a file never runs code that the file holds",
 "Whatever the bytes of a file are, reading it - lazily or not - evaluates none of its texts as code, calls no function and imports no module that the file names, and never takes bytes of the file for addresses of objects. Pickled arrays are refused (by the .npy and .prz readers), unless PantaRhei's metadata are asked for with allow_restricted_pickle: then only the names of the documented list can be looked up, whichever pickle instruction asks for them, and any other name raises InvalidPickleError before anything is imported or called; metadata that need only the listed names are read as they were saved. (The codecs that a zarr store names are those of the zarr library.)",
 ["inputs"],
 "for every pickle program, every text of every file of every format, read lazily or not",
 "files come from elsewhere; a single eval or pickle.load of what they hold hands the account of whoever opens them to their author, and tests only use harmless files",
 ["rsciio/pantarhei/_restricted_unpickling.py", "rsciio/pantarhei/_api.py", "rsciio/numpy/_api.py", "rsciio/utils/xml.py", "rsciio/_hierarchical.py"],
 [("the list of names", "rsciio/pantarhei/_restricted_unpickling.py RestrictedUnpickler.find_class"), ("refused pickles", "rsciio/pantarhei/_api.py, rsciio/numpy/_api.py file_reader, rsciio/utils/_distributed.py memmap_distributed"), ("texts that are evaluated", "literal_eval in rsciio/utils/xml.py, digitalsurf, empad, bruker, _hierarchical.py, utils/_tools.py; rsciio/netcdf/_api.py")],
 note=G_NOTE)

prop("C19", "Text logs and spectra are read value by value",
 "Reading a text spectrum or log (EMSA/MSA spectra, DENS DigiHeater logs, Impulse and Protochips logs) returns every value recorded, in order, converted as its header says: for MSA spectra the numbers whatever the format (Y or XY), columns, line lengths and blank lines, with scale, offset, units, dates, beam, microscope and detector values of the keywords and what kind of signal it is; for logs, one signal for every measured column (units and quantity from its heading), against time, with steps and origin of the time axis taken from the times of the samples, the start and duration, the notes with their times, the calibration file and the rest of the header. An empty or foreign file is refused with an IOError.",
 ["inputs", "configurations"],
 "for every set of keywords, columns, numbers of samples, notes, blank lines, times and formats",
 "tests read a few sample logs of one shape",
 ["rsciio/msa/_api.py", "rsciio/dens/_api.py", "rsciio/impulse/_api.py", "rsciio/protochips/_api.py"],
 [("EMSA/MSA", "rsciio/msa/_api.py parse_msa_string/file_reader"), ("DigiHeater", "rsciio/dens/_api.py file_reader"), ("Impulse", "rsciio/impulse/_api.py ImpulseCSV"), ("Protochips", "rsciio/protochips/_api.py ProtochipsCSV")],
 note=G_NOTE)

prop("C20", "EDAX, EMPAD and EELSLab files are read as laid out",
 "EDAX maps (.spd), line scans (.lsd) and spectra (.spc): every count at its line, point and channel, for 1, 2 or 4 bytes a count, either byte order, any offset of the data; every field of the headers (.spc - all or the few needed -, .spd, .ipr, .csv) has the value that is at its place in the file; energy axis, steps of map and line, elements, angles, times and voltage are those of the headers, found beside the file or named. EMPAD: every frame is the first 128 of its 130 rows, in scan order or series, with the scan size and lengths of old and new metadata, the calibration given or recorded, NaN kept or replaced as asked; a scan size that can't be found is refused. EELSLab (netCDF): numbers in the order of the array as written, reversed dimensions, with names, scales, origins and units of the axes of images and spectra, and other versions refused. Lazy and eager agree.",
 ["inputs", "configurations"],
 "for every size, type, byte order, header, combination of side files and of options",
 "tests read one or two sample files of each",
 ["rsciio/edax/_api.py", "rsciio/empad/_api.py", "rsciio/netcdf/_api.py"],
 [("EDAX", "rsciio/edax/_api.py spd_reader/spc_reader/si_reader"), ("EMPAD", "rsciio/empad/_api.py file_reader"), ("EELSLab", "rsciio/netcdf/_api.py nc_hyperspy_reader_0dot1")],
 note=G_NOTE)

prop("C16", "Names, dates, colours and metadata trees are handled without loss",
 "incremental_filename returns the name itself if nothing exists there, else the one with the first free number (file or directory), append2pathname keeps folder and extension, ensure_directory makes the directory and the ones above it and nothing else (none for the path of a file), and overwrite asks exactly if a file or .zspy store exists, until the answer is y or n in either case, True only for yes. Dates: serial numbers, windows file times, ISO texts with any time zone, and the date and time of metadata stand for the same instant to the microsecond, in both directions, before and after 1900, in any local time zone. Colours: regular_array2rgbx and rgbx2regular_array keep every channel of every pixel, for 3 or 4 channels of 8 or 16 bits, any shape and memory layout, dask arrays too, refuse other arrays with ValueError and leave their argument as it is. inspect_npy_bytes gives offset, shape and type for every .npy version. Metadata trees (DTBox) hold what was set, at the path it was set, whatever was set before.",
 ["inputs", "histories"],
 "for every history of files, directories and answers, every instant and time zone, every array and layout, every sequence of items set",
 "tests try one file, a few dates and small arrays",
 ["rsciio/utils/path.py", "rsciio/utils/_date_time.py", "rsciio/utils/rgb.py", "rsciio/utils/_tools.py", "rsciio/utils/_dictionary.py"],
 [("paths", "rsciio/utils/path.py"), ("dates", "rsciio/utils/_date_time.py"), ("colours", "rsciio/utils/rgb.py regular_array2rgbx/rgbx2regular_array"), (".npy headers", "rsciio/utils/_tools.py inspect_npy_bytes"), ("trees", "rsciio/utils/_dictionary.py DTBox")],
 note=G_NOTE)

prop("C22", "JEOL images, spectra and workspaces are read as written",
"Every value that a .img, .map or .asw file holds in its tree of tags is in original_metadata under the path of its names (pages of parameters told apart by their content, of tags with one name in one place the last), the image with its shape and pixels (zeros where the file ends early), its field of view, beam energy, magnification, title and date; the counts, energy axis, settings, elements with their lines and quantification of an .eds file are those written; and an .asw file gives each readable file of each view of each sample, once, in order, with the workspace and its own entry beside it.",
["inputs"],
"for every tree of tags (names, types, depth), image, spectrum and workspace",
"tests read a few files of two microscopes, and check a handful of their values",
["rsciio/jeol/_api.py"],
[("trees of tags", "rsciio/jeol/_api.py _parsejeol"), ("images", "rsciio/jeol/_api.py _read_img"), ("spectra", "rsciio/jeol/_api.py _parse_eds"), ("workspaces", "rsciio/jeol/_api.py file_reader")],
note=G_NOTE)

prop("C23", "HyperSpy files of every version are read, under the present names",
"The version of a file is the one it says, else the one that its contents show. Every value of the metadata of an older file is in the metadata returned, moved to the name it has now and nowhere else (nothing of a newer one is moved); results of decompositions, attributes, axes (in either layout), package and original metadata are those of the file; each model is with the signal it belongs to, or by itself; signals without data are skipped, and files without version, axes or signals are refused with OSError.",
["inputs"],
"for every version and tree of metadata, signals and models",
"tests load one small file of five of the versions, which hold few of the names that have changed",
["rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py"],
[("migration of metadata", "rsciio/_hierarchical.py HierarchicalReader.group2signaldict"), ("models", "rsciio/_hierarchical.py HierarchicalReader.read"), ("version", "rsciio/_hierarchical.py HierarchicalReader.get_format_version")],
note=G_NOTE)

prop("C24", "Spectra of optical instruments keep each count at its wavelength",
"Reading LabSpec (JobinYvon), HPD-TA (Hamamatsu) and TriVista files, the count recorded for a channel and position is at that channel's wavelength (or time) and position, whichever way the spectrometer's axis runs; wavelengths ascend and are those of the file (or their straight line, on demand); positions with one value are no axes; each setting of the acquisition is at its place in the metadata, with its unit; data of types the software does not write are refused.",
["inputs", "configurations"],
"for every number of channels and positions, direction of the axes, set of settings and hardware in the file, and option of the reader",
"tests load a handful of sample files, all from one or two set-ups; other sets of settings, hardware or options are never read",
["rsciio/jobinyvon/_api.py", "rsciio/hamamatsu/_api.py", "rsciio/trivista/_api.py"],
[("LabSpec files", "rsciio/jobinyvon/_api.py JobinYvonXMLReader"), ("HPD-TA images", "rsciio/hamamatsu/_api.py IMGReader"), ("TriVista files", "rsciio/trivista/_api.py TrivistaTVFReader")],
note=G_NOTE)

prop("C25", "Renishaw WiRE files: every spectrum, position and setting as measured",
"Reading a .wdf file gives each measured spectrum, its channels along an ascending axis with the stated unit, at its place in the map, line or series, whose axes are those of the file; of an interrupted map the complete lines, of an interrupted line or series all that was measured, and positions and times of these spectra only. Spectra that belong to no position are averaged. Every named value is in the metadata under its name, in whatever order and however deep the sets of values are, and those that share their names are with the set they belong to; blocks can be in any order and unknown ones are passed over; files without data or signal axis are refused.",
["inputs", "configurations"],
"for every number of spectra and channels, kind of measurement, moment of interruption, order of blocks and tree of named values",
"tests load fourteen sample files, of which one was interrupted, at the end of a line",
["rsciio/renishaw/_api.py"],
[("blocks and axes", "rsciio/renishaw/_api.py WDFReader"), ("positions", "rsciio/renishaw/_api.py WDFReader._parse_ORGN"), ("named values", "rsciio/renishaw/_api.py WDFReader._pset_read_metadata, _match_WXDM_values")],
note=G_NOTE)

prop("C26", "NeXus files: signals, axes and selection follow what the file says",
"Reading a NeXus file returns one signal for every NXdata group with a signal, in the order of the paths, with the data it designates, one axis per dimension that has the stated name, units and - where its values are even - their first value and (signed) step, navigation or signal axes as the interpretation says, and the metadata of its entry; then every other numeric array, with these axes if it has the shape of the signal. Soft and external links are followed unless hardlinks_only is set; nxdata_only, dataset_key and dataset_path (in the order of the keys), metadata_key, skip_array_metadata and use_default select exactly what they are documented to select, in every process alike.",
["inputs", "configurations"],
"for every tree of groups, arrays and links and every combination of the options",
"tests read six sample files with a few options each",
["rsciio/nexus/_api.py"],
[("selection", "rsciio/nexus/_api.py _read_signals, _find_data"), ("axes", "rsciio/nexus/_api.py _get_nav_list, _nexus_dataset_to_signal"), ("metadata", "rsciio/nexus/_api.py _load_metadata, _find_search_keys_in_dict")],
note=G_NOTE)

prop("C21", "Readers release the files they read",
 "When an eager read returns, or any read fails, no file it opened is open any more; after the result of a lazy read has been computed and dropped, none of its files is open (HDF5 files in HyperSpy's format excepted, which stay open by design until closed).",
 ["inputs", "configurations"],
 "for every supported format, every file (readable or not) and combination of options",
 "tests cannot see leaked handles on Linux; they show as locked files or exhausted descriptors later",
 ["rsciio/emd/_api.py", "rsciio/nexus/_api.py", "rsciio/tiff/_api.py", "rsciio/digitalmicrograph/_api.py"],
 [("opening and closing of files", "rsciio/*/_api.py file_reader")],
 note=G_NOTE)
