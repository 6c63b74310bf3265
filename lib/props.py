"""The properties and how each is checked.  `python3 lib/props.py` writes
properties.jsonl and MANIFEST.json from this table."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, tests, files, mech, note, state=None, observe=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, quant=" ".join(quant.split()),
                      tests=" ".join(tests.split()), files=files, mech=mech, note=" ".join(note.split()),
                      state=state, observe=observe))


prop("X01", "Names of xRIT products designate the same product in both written forms",
     """A name is recognised exactly when it ends in "-C_" or has at least three ':' signs after its directory part, and it
     parses into directory, resolution, product, channel and time exactly when it has the fields of the form
     [directory/]resolution:product:channel:time or [directory/]resolution-n-s-product-channel-segment-time-C_, the trailing '_' of the
     fields of the latter being padding; otherwise it is refused with an exception.  The segment name and the short name of one
     product parse to the same five values, and asking for another channel of a product changes the channel only.
     No name, however malformed, makes the parser read outside it.""",
     ["inputs"], "every string as a name: exhaustively, all token sequences up to a bound; beyond it, generated names near both forms",
     "tests parse six well-formed names; the property is about every string, notably empty fields, ':' and '-' inside directories, missing fields",
     ["msat/xrit/fileaccess.cpp"],
     [{"name": "name recognition", "where": "msat/xrit/fileaccess.cpp isValid"}, {"name": "field splitting", "where": "msat/xrit/fileaccess.cpp FileAccess::parse"}],
     """XritNames.tla defines the grammar; TLC checks on all token sequences that both written forms of every product read back, then each enumerated
     name and a few thousand generated ones go through the real parser under ASan and TLC accepts or rejects each recorded answer.""")

prop("X02", "A product's prologue, epilogue and segments are found by its identity alone",
     """In a directory with any files, the prologue and epilogue of a product are the single file whose name carries its resolution, product, time and
     PRO or EPI in the fixed-width layout, and zero or several such files are an error.  Its segments are
     exactly the files of the compressed-segment layout with its resolution, product, channel and time, in increasing name order, and none at all is an error.
     Files of other products, channels, times, resolutions or layouts are never used.""",
     ["inputs", "configurations"], "every set of files in the directory: all subsets of a universe of own files and near misses, and generated directories",
     "tests look at one directory of intact sample data; the property quantifies over directory contents",
     ["msat/xrit/fileaccess.cpp"],
     [{"name": "companion file lookup", "where": "msat/xrit/fileaccess.cpp prologueFile, epilogueFile, segmentFiles"}],
     """XritFilesMC adds files one at a time from a universe of own files and near misses and checks exactness and order; every final directory is created
     for real and the answers of the real code validated by TLC against XritNames.""")

prop("X03", "A scan line is what its segment file holds, whatever was read before",
     """Reading line n of an image returns the samples of that line as stored in the segment file that covers it, from west to east, whichever lines were
     read before and in any order, whatever names the segment files have, and whether the files store columns west-to-east or east-to-west.
     Lines of segments that have no file read as zeros, and an image without any usable segment is refused with an error.
     A segment among the two most recently used ones is not decoded again.""",
     ["histories", "inputs", "configurations"], "every history of line reads (exhaustive up to a length) over sets of present segments, segment heights, column directions, HRV and normal channels",
     "tests read a few fixed lines of complete sample products; which earlier reads happened, which segments are missing and the cache content are what matters",
     ["msat/xrit/dataaccess.cpp", "msat/xrit/dataaccess.h"],
     [{"name": "segment cache", "where": "msat/xrit/dataaccess.cpp DataAccess::segment"}, {"name": "line to segment arithmetic", "where": "msat/xrit/dataaccess.cpp DataAccess::line_read"},
      {"name": "segment scan", "where": "msat/xrit/dataaccess.cpp DataAccess::scan"}],
     """SegAccess.tla models the files, the geometry and the two-entry cache; SegAccessMC checks that the cache is invisible over all read histories
     and emits them; each is replayed on generated HRIT files and every returned line, start and number of decodings is validated by TLC.""",
     state=[{"name": "segment cache", "meaning": "the two most recently used decoded segments, in order of use", "where": "msat/xrit/dataaccess.h segcache"}])

prop("G01", "xRIT pixels are what the files hold, in any history of opening and reading",
     """A dataset opened from an xRIT product gives at every pixel the count stored for that pixel in the file of its segment (rows north to south, columns west
     to east, zero where there is no data), and for the channels IR_039 to IR_134 the brightness temperature in Kelvin that the prologue's slope and offset
     and the channel's Planck constants give to that count (zero where there is no data or no temperature).  This is so whatever datasets are
     open, and whatever was opened, read, closed or dropped from the block cache before.  A window outside the image, or one with a line that
     cannot be read, is an error and never pixels.""",
     ["histories", "inputs", "configurations"], "every history of opens, reads, cache flushes and closes over two products (exhaustive to a length), and generated products and histories",
     "tests read a few pixels of one intact image right after opening it; several products, missing segments, evicted blocks and HRV windows are not sampled",
     ["gdal/xrit/dataset.cpp", "gdal/xrit/rasterband.cpp", "msat/xrit/dataaccess.cpp", "msat/hrit/MSG_data_RadiometricProc.cpp"],
     [{"name": "block reading", "where": "gdal/xrit/rasterband.cpp IReadBlock"}, {"name": "driver entry", "where": "gdal/xrit/xrit.cpp XRITOpen"}],
     """RasterMC explores histories over two products whose pixel values are defined by Raster.Px; histories are replayed on generated files with the real plugin and every answer validated by TLC.""",
     state=[{"name": "open datasets", "meaning": "which product each dataset number shows", "where": "gdal/xrit/dataset.h"}])

prop("G02", "An opened xRIT product says its place, time, satellite, channel and units",
     """The size, geotransform (columns and rows times the prologue's grid step, centred on the sub-satellite point), geostationary projection (longitude from the image files, heights and
     ellipsoid of the satellite), spacecraft, channel name and number, unit, slope and offset or Kelvin, and nodata of an opened product are those of its files.
     The date and time are those of the planned acquisition in the prologue, to the minute, on every day from 1958 until the day counter ends.
     Reflectance, angle, day and calibrated datasets made from it carry the same place, time, satellite and channel, with their own type and unit.""",
     ["inputs", "configurations"], "every channel, spacecraft code, grid step, longitude, and day of the 16-bit day counter",
     "tests open two images of two dates; calendar boundaries, other satellites, channels and grids are not sampled",
     ["gdal/xrit/dataset.cpp", "gdal/xrit/rasterband.cpp", "msat/gdal/dataset.cpp", "msat/facts.cpp", "msat/hrit/MSG_time_cds.cpp"],
     [{"name": "dataset metadata", "where": "gdal/xrit/dataset.cpp init"}, {"name": "projection", "where": "msat/gdal/dataset.cpp set_spaceview"}, {"name": "calendar", "where": "msat/hrit/MSG_time_cds.cpp"}],
     """ClockMC walks the calendar day by day from 1958 and emits the days where fields roll over; these and generated products are opened for real and what they say is validated by TLC.""")

prop("G03", "Opening by name: what is opened, what is refused, and that refusals are errors",
     """A name that is no xRIT name is left to other drivers; an xRIT name opens exactly when its prologue, its epilogue and at least one usable segment of it are there
     (for IR_039 reflectance also those of IR_108 and IR_134, and for reflectance only the channels VIS006, VIS008, IR_016, HRV and IR_039), and otherwise fails with a GDAL error and no dataset.
     A channel followed by 'r' is the reflectance and one followed by 'a' the cosine of the solar zenith angle of that channel, and the open option MSAT_COMPUTE asks for the same and for the satellite angle and the day of year.
     This depends on the files there at the time of opening only.""",
     ["histories", "configurations", "inputs"], "every history of adding and removing files and of opening, to a length, with each form and suffix",
     "tests open complete products; missing companions, wrong channels and refusals are not sampled",
     ["gdal/xrit/xrit.cpp", "gdal/xrit/dataset.cpp", "gdal/reflectance/reflectance.cpp", "gdal/utils.cpp"],
     [{"name": "driver entry", "where": "gdal/xrit/xrit.cpp"}, {"name": "refusals", "where": "gdal/xrit/dataset.cpp"}],
     """OpenMC adds and removes files and opens names in any order; every history is replayed on real files and each outcome validated by TLC against Raster.OpenXrit.""",
     state=[{"name": "files present", "meaning": "prologue, epilogue and segments by identity", "where": "product directory"}])

prop("G04", "Counts become radiances and brightness temperatures by the channel's calibration",
     """Calibrating a dataset turns every 16-bit band into floating point counts*slope+offset, with the slope and offset of that band, no scale and
     offset left and nodata 0, however large its blocks are, the least and greatest value it announces being those of its values, and leaves other bands alone; georeferencing and metadata stay.  Thermal channels of xRIT products read as the
     temperature (C2*nu/ln(1+C1*nu^3/R) - B)/A of the radiance R = count*slope+offset for every count, with the slope and offset of that channel in the prologue.""",
     ["inputs"], "all counts of all channels, with any slope and offset",
     "tests compare a few pixels of one image",
     ["gdal/xrit/rasterband.cpp", "msat/gdal/dataset.cpp", "msat/hrit/MSG_data_RadiometricProc.cpp", "msat/facts.cpp"],
     [{"name": "calibrated bands", "where": "msat/gdal/dataset.cpp CalibratedRasterBand"}, {"name": "Planck inversion", "where": "msat/hrit/MSG_data_RadiometricProc.cpp, gdal/xrit/rasterband.cpp"}],
     """CalibMC checks the specification's Planck inversion on all channels and a grid of radiances (inverse, monotone); the real code's temperatures and radiances over whole count ranges are validated by TLC with 64-bit reals.""")

prop("G05", "Reflectances, sun and satellite angles and day of year follow place and time",
     """Each pixel of a reflectance, solar angle, satellite angle or day-of-year dataset is the value that the published formulas give for the latitude and longitude of that pixel, the day and hour of
     the image and its radiance or temperatures (for IR_039 those of IR_108 and IR_134 at the same pixel too), and zero where the line of sight misses the Earth.
     This holds for xRIT products and for any geostationary dataset carrying the needed metadata, whole or cropped, and in any order of reading.""",
     ["inputs", "configurations"], "all pixels, dates, times, channels and georeferencings",
     "tests look at a few pixels of one product",
     ["gdal/reflectance/reflectance.cpp", "gdal/reflectance/cos_sol_za.cpp", "gdal/reflectance/sat_za.cpp", "gdal/reflectance/jday.cpp", "gdal/reflectance/pixeltolatlon.cpp", "msat/facts.cpp"],
     [{"name": "derived bands", "where": "gdal/reflectance"}, {"name": "astronomy", "where": "msat/facts.cpp"}],
     """Sky.tla defines position, sun and satellite angles and reflectances over 64-bit reals; SkyMC checks symmetry and range on a grid; the real code's pixels over products, crops and dates are validated by TLC.""")

prop("G06", "Crops, resamplings, band selections and copies keep pixels at their place",
     """A translation (window in pixels or projected coordinates, output size, bands, type, scaling, nodata, corners, metadata) gives at every output pixel the value of a source pixel lying under it,
     scaled as asked and stored in the type asked for, and georeferencing such that every output pixel is where that source area was; control points stay on their pixels, and an expanded colour table gives the colours of its entries.
     A window that is not within the image, an empty output or a band that is not there is an error; a request that changes nothing gives back the same dataset; one request may be used on any number of datasets.
     Recoding to a file does the same with crop box and size, and keeps the metadata and description of the bands.""",
     ["inputs", "programs", "histories"], "all sequences of requests one on the result of the other, and generated requests on many kinds of datasets",
     "tests translate one image once",
     ["msat/gdal/gdaltranslate.cpp", "msat/gdal/dataset.cpp"],
     [{"name": "translation", "where": "msat/gdal/gdaltranslate.cpp"}, {"name": "recode", "where": "msat/gdal/dataset.cpp recode"}],
     """XlateMC checks that composed windows are the window of the composition over all chains of requests; chains and generated requests run on the real code and results validated by TLC pixel by pixel.""")

prop("G07", "Pixels, projected coordinates, latitude and longitude convert into each other",
     """For every dataset with an invertible geotransform and a projection, georeferencing a pixel gives the projected coordinates of its geotransform and the latitude and
     longitude of the line of sight, and converting these back gives the same pixel; pixels off the Earth are reported as such.
     Inverting a geotransform gives the transform that undoes it, rotated ones included, and a singular one is an error.""",
     ["inputs"], "all invertible and singular geotransforms with small coefficients, and generated satellite grids",
     "tests convert a few pixels of one grid",
     ["msat/gdal/dataset.cpp"],
     [{"name": "inversion", "where": "msat/gdal/dataset.cpp GeoReferencer, invertGeoTransform"}],
     """GeorefMC checks the algebra of inversion over small geotransforms, singular ones included; the same and generated satellite grids run on the real code, each conversion validated by TLC.""")


prop("B01", "An image written as GRIB reads back the same, in every template",
     """Writing the first band of a geostationary image on the Meteosat grid (or a crop of one) as GRIB and opening the file gives the same size, the same physical value at every pixel (to the packing of the
     message) with missing pixels still missing, the same longitude, time (to the minute), spacecraft, channel, unit and grid, at the same place to half a pixel, for each of the templates.
     What was opened stays so when files are written over or next to it, and the derived products of the file are those of the image.""",
     ["inputs", "histories", "programs"], "all histories of writing, cropping and writing again (to a length), and generated images of every type, grid, channel and satellite",
     "tests write one image; missing pixels, other grids, templates and repeated writing are not sampled",
     ["gdal/grib/grib.cpp", "gdal/grib/utils.h", "msat/facts.cpp", "gdal/utils.cpp"],
     [{"name": "writing", "where": "gdal/grib/grib.cpp CreateGRIB"}, {"name": "reading", "where": "gdal/grib/grib.cpp GRIBDataset, GRIBRasterBand"}],
     """GribMC writes, crops and writes again and checks that place, value and identity are kept; its histories and generated images go through the real driver and what comes back is validated by TLC.""")


prop("B02", "What cannot be written or read as GRIB is an error, never an image",
     """Writing as GRIB is refused with an error for datasets without bands, geostationary projection (of the height in use) or geotransform, rotated ones, grids that are not the Meteosat ones, places outside the full disc to north or west,
     images all missing, pixels that cannot be read, unknown templates, and for the default template unknown satellites or channels.
     A file whose message was cut short or is of another kind of grid does not open and reports an error, one with more messages shows the first, and what was opened before stays readable.""",
     ["inputs", "fault_sequences", "histories"], "generated images that miss one requirement each, and files after sequences of cutting, prefixing, appending and replacing",
     "tests write a good image",
     ["gdal/grib/grib.cpp", "gdal/grib/utils.h"],
     [{"name": "sanity checks", "where": "gdal/grib/grib.cpp CreateGRIB, grid_definition_section"}, {"name": "opening", "where": "gdal/grib/grib.cpp GRIBOpen"}],
     """Raster.GribOf says what is writable; generated images violating one clause each and damaged files go through the real driver under ASan and each outcome is validated by TLC.""")

prop("X05", "The header of an HRIT file says what its records say, or is refused",
     """Reading a file's header gives, for every record kind, the values written in the last record of that kind, whatever the reader object had read before; records the file has not are absent.
     A header that is cut short, has a record of unknown kind or of a length its kind cannot have, or is not an HRIT header is refused with an exception, and no byte outside the file's header is read.""",
     ["inputs", "histories"], "all sequences of records (to a length), all histories of reads (to a length), and mutated headers",
     "tests read the headers of a few good files",
     ["msat/hrit/MSG_header.cpp", "msat/hrit/MSG_header_image_navig.cpp", "msat/hrit/MSG_header_annotation.cpp", "msat/hrit/MSG_header_segment_quality.cpp"],
     [{"name": "record parsing", "where": "msat/hrit/MSG_header.cpp read_from"}],
     """HritFile.tla defines decoding byte by byte; HritMC checks independence of records, refusal of cut headers and forgetting over all small files and read histories, which are replayed into the real reader under ASan with generated and mutated headers.""")

prop("X06", "The data field of an HRIT file is read whole, or the file is refused",
     """For every type of HRIT file, what is read from the data field (number of samples, text, keys, prologue, epilogue, foreign prologue, dumped message) is what its bytes say.
     A data field shorter than its header announces, smaller than its kind needs, or that lacks the header records needed to understand it is refused with an exception; no byte outside it is read, and what was read can be printed.""",
     ["inputs", "fault_sequences"], "data fields of every type with sizes around those announced and those needed, and mutated headers",
     "tests read a few good files",
     ["msat/hrit/MSG_data.cpp", "msat/hrit/MSG_data_image.cpp", "msat/hrit/MSG_data_text.cpp", "msat/hrit/MSG_data_key.cpp", "msat/hrit/MSG_data_gts.cpp", "msat/hrit/MSG_data_SGS_header.cpp"],
     [{"name": "data field reading", "where": "msat/hrit/MSG_data.cpp read_from"}],
     """HritDataMC checks that nothing is made of bytes that are not there and that excess bytes do not matter, for every type and size around the limits; these and generated files are read and printed by the real code under ASan and UBSan, and outcomes validated by TLC.""")

prop("X07", "Every field of prologue and epilogue is read from its place",
     """Every field of an MSG prologue or epilogue has the value of the big-endian bytes at the place the MSG ground segment interface document gives it, whatever the other bytes are; array elements included.""",
     ["inputs"], "all fields with their first and last elements, and randomly chosen elements, of messages filled with patterns",
     "tests look at a handful of fields of one prologue",
     ["msat/hrit/MSG_data_SatelliteStatus.cpp", "msat/hrit/MSG_data_ImageAcquisition.cpp", "msat/hrit/MSG_data_CelestialEvents.cpp", "msat/hrit/MSG_data_ImageDescription.cpp", "msat/hrit/MSG_data_RadiometricProc.cpp", "msat/hrit/MSG_data_GeometricProc.cpp",
      "msat/hrit/MSG_data_IMPFConfiguration.cpp", "msat/hrit/MSG_data_ImageProdStats.cpp", "msat/hrit/MSG_data_NavigExtrResult.cpp", "msat/hrit/MSG_data_RadiometricQuality.cpp", "msat/hrit/MSG_data_GeometricQuality.cpp", "msat/hrit/MSG_data_TimelinComple.cpp"],
     [{"name": "field decoding", "where": "msat/hrit/MSG_data_*.cpp read_from"}],
     """Layout.tla holds the records as tables whose sizes are checked against the interface document; LayoutMC walks every field checking that records tile; the walk is replayed on the real decoders over messages filled with patterns, each value compared by TLC.""")

prop("F01", "Satellites and channels keep their identity across codes, names and wavelengths",
     """The number of a satellite in HRIT files, its WMO number and its name convert into each other without changing satellite, and every channel of a SEVIRI has its name, unit, level, central wavelength and wave number, digits and missing values.
     A wavelength or wave number gives back the channel it is of, and what is not in the tables is said to be unknown or is an error.""",
     ["inputs"], "all codes in and around the tables, and generated wavelengths",
     "tests look up a few codes",
     ["msat/facts.cpp", "msat/hrit/MSG_spacecraft.cpp", "msat/hrit/MSG_channel.cpp"],
     [{"name": "code tables", "where": "msat/facts.cpp"}],
     """CodesMC walks every satellite through its three forms checking that it stays the same; every code in and around the tables is asked of the real functions and each answer compared with Codes.tla by TLC.""")

prop("F02", "Pixel size, navigation factor and disc diameter of a grid convert consistently",
     """The size of a pixel, the column and line factors of the navigation record and the diameter of the Earth in pixels are related by the geometry of the orbit for any grid, mirrored ones included; the two grids in use
     have exactly their conventional values in every form; horizontal and vertical conversions are the same.""",
     ["inputs"], "chains of conversions over grids of all sizes, conventional ones and their neighbours",
     "tests convert the two grids in use",
     ["msat/facts.cpp"],
     [{"name": "grid conversions", "where": "msat/facts.cpp"}],
     """GridMC checks that chains of conversions do not drift; values along the chains and generated ones go through the real functions and are compared with Grid.tla (64-bit reals) by TLC.""")

prop("F03", "Times in HRIT records are the UTC instants they encode",
     """Every time record (CDS short, long and expanded, CUC, generalized) gives the instant, broken-down time and text that its bytes encode in UTC, whatever the local time zone and whatever the object held or was asked before.
     Day of the year follows the Gregorian calendar, and the height of the sun is the same whether asked by date, day and minute, or fractional hour.""",
     ["inputs", "configurations", "histories"], "every day the records can encode, generated times, time zones and sequences of reads and questions",
     "tests read a few times in one time zone",
     ["msat/hrit/MSG_time_cds.cpp", "msat/facts.cpp"],
     [{"name": "time records", "where": "msat/hrit/MSG_time_cds.cpp"}, {"name": "calendar", "where": "msat/facts.cpp jday, cos_sol_za"}],
     """TimesMC counts day after day and checks the closed calendar formulas against counting over all 65536 days; those days and generated histories of reads in several time zones run on the real objects, every answer validated by TLC.""")

prop("N01", "An MSG native file is read whole, or refused",
     """Reading a native file gives its texts, every header and trailer field, and every line's packet header, line header and samples from their place; a channel's image holds its lines in order (HRV three per line) with what is missing black, and the PGM dump holds the same samples.
     A file that is truncated or inconsistent is refused with a catchable exception, and no sequence of opening, reading, asking, dumping and closing reads or writes outside what was read or shows what an earlier file held.""",
     ["inputs", "histories"], "generated files of any channels, sizes and contents, whole, cut and altered, and histories of one reader",
     "there is no test for native files",
     ["msat/msg-native/MSG_native.cpp", "msat/msg-native/MSG_native_header.cpp", "msat/msg-native/MSG_native_line.cpp", "msat/msg-native/MSG_native_packetheader.cpp", "msat/msg-native/MSG_native_trailer.cpp"],
     [{"name": "reader", "where": "msat/msg-native/MSG_native.cpp"}, {"name": "samples", "where": "msat/msg-native/MSG_native_line.cpp"}],
     """NativeFile.tla is the format as one stream of described bytes; NativeMC enumerates file shapes and histories of one reader, which are replayed with generated contents and every answer validated by TLC; the driver runs with sanitizers.""")

prop("O01", "An OpenMTP-IDS image is read whole and written back the same, or refused",
     """Reading an OpenMTP-IDS file gives every field of its file header, records and scan lines and every pixel as stored, writing an image gives the file of exactly its fields, records, lines and pixels, padded with zeros,
     and a file that is cut anywhere or whose lengths or record count contradict each other, and an image or disk that cannot take what is to be written, are refused with a catchable exception.
     Scan lines asked by number, by range or all together are those of the image in order, whichever records hold them, and images copied or changed do not affect each other.
     The tools write, for any image, the PGM of each channel named in its header, a copy, and the sector of lines 2655 to 3164 and pixels 546 to 801, and succeed exactly if they could.""",
     ["inputs", "histories"], "all small images, every cut of generated files, generated whole, cut and inconsistent files, and histories of two images",
     "there is no test for OpenMTP-IDS",
     ["msat/omtp-ids/OpenMTP-IDS.cc", "msat/omtp-ids/FileHeader.cc", "msat/omtp-ids/FileHeader.hh", "msat/omtp-ids/Record.cc", "msat/omtp-ids/RecordHeader.cc", "msat/omtp-ids/ScanLine.cc", "msat/omtp-ids/LineHeader.cc", "msat/omtp-ids/ByteSex.cc",
      "tools/omtp-ids/OpenMTP-IDS_to_pgm.cc", "tools/omtp-ids/OpenMTP-IDS_sector.cc", "tools/omtp-ids/OpenMTP-IDS_write.cc"],
     [{"name": "reader and writer", "where": "msat/omtp-ids"}, {"name": "scan lines by number", "where": "msat/omtp-ids/OpenMTP-IDS.cc scanline"}, {"name": "tools", "where": "tools/omtp-ids"}],
     """OmtpFile.tla gives the parsing and writing of a file; OmtpMC checks on all small images that they come back, that no shorter file does and that ranges of lines join, and emits them with sessions of two images;
     these and generated files are replayed on the library and the tools, with sanitizers, and TLC validates every answer and file.""")

prop("L01", "msat shows, crops and converts exactly what it is asked of each file, or fails",
     """For every file named, in order and as if it were alone, msat shows or converts the bands selected by index or name (whole list in the order asked), the window given in pixels or the one whose corners are the given latitudes and longitudes, resized as asked and calibrated if forced,
     keeping georeference, time, satellite, channel, description, missing value and pixels of that part of that file, with the metadata of another file if asked, under a name made of satellite, sensor, level, channel and time, and pixel statistics are those of the pixels shown.
     What cannot be had (an unreadable file, an area off the Earth or the image, a band that is not there, an unknown format, a command it cannot read) ends with exit status 1 and a message, never a crash, the outputs of the files before are as they should be, and no other file is changed or made.""",
     ["inputs", "programs", "histories"], "every short command over small files, generated commands over TIFF, xRIT and GRIB files, in sequences with the statistics that --viewmore leaves",
     "the tests never run the command",
     ["tools/msat.cpp", "msat/gdal/gdaltranslate.cpp", "msat/gdal/dataset.cpp", "msat/facts.cpp"],
     [{"name": "command", "where": "tools/msat.cpp Msat::main"}, {"name": "crop and selection", "where": "msat/gdal/gdaltranslate.cpp"}, {"name": "calibration", "where": "msat/gdal/dataset.cpp CalibratedDataset"}],
     """MsatTool.tla gives every outcome of a command over the files of a state; MsatMC checks on all short commands that each file is dealt with as if alone and outputs are parts of inputs;
     generated commands are run with the real tool on real files, and TLC validates exit status, what is shown, every output with its metadata and pixels, and that nothing else changed.""",
     observe=["tools/msat.cpp"])

prop("L02", "msat draws each band in the grays of its own values, in images of bounded size",
     """The PNG and JPEG images made by msat have one file per band, of the size of the band or of the window and size asked, reduced to at most 1280 pixels each way keeping the shape (never to nothing) if neither was asked, for each file by itself.
     The levels of a PNG go linearly from 0 at the least to 255 at the greatest value of the pixels that are not missing, or at the ends given with --stretch beyond which values are black or white, for every type of pixels and also values outside what the type holds.
     Missing pixels and the values of other bands and files do not change the levels of the others.""",
     ["inputs", "programs"], "all images of three pixels over a few values, generated images of all types, sizes and windows",
     "the tests never draw an image",
     ["tools/msat.cpp", "tools/image.cpp", "tools/image.h"],
     [{"name": "gray scale", "where": "tools/image.cpp"}, {"name": "size cap", "where": "tools/msat.cpp scale_if_needed"}],
     """MsatTool.tla gives the size and levels of an image from the pixels the dataset must have; GrayMC checks on all small images that the levels are monotone, reach black and white, and do not depend on missing pixels, and that capped sizes keep the shape;
     the real tool draws generated files, with and without windows, stretch and calibration, and TLC validates every level.""",
     observe=["tools/image.cpp"])

prop("V01", "xritdump tells the structure of an xRIT product and pictures its samples",
     """For every xRIT product named that can be read, in order, xritdump prints columns, lines, segments, pixels and scanlines per segment, orientation and actual coverage, then for each segment up to the last that it is missing, or its least and greatest sample and a 50 x 3 picture of it, then a 50 x 24 picture of the whole disc with the lines (and for HRV each window) in their place and nothing where there is no data.
     A sample is drawn with one of eight inks, by its position between the least and the greatest sample of the segment (of the product, in the picture of the whole).
     A product that cannot be read (missing, truncated, without prologue) ends with a message and a nonzero status, never a crash.""",
     ["inputs", "configurations"], "small products of every layout in the model; generated products with any segments missing, uniform, damaged or out of place, HRV windows, long lines, other file orders",
     "the tests never run the command",
     ["tools/hrit/xritdump.cpp", "msat/hrit/MSG_data.cpp", "msat/xrit/dataaccess.cpp"],
     [{"name": "dump", "where": "tools/hrit/xritdump.cpp"}, {"name": "lines", "where": "msat/xrit/dataaccess.cpp"}],
     """Viewers.tla gives every line of the output from the product; ViewersMC checks that what is pictured of the whole is what line reads give at their place; generated products are written as real xRIT files, the real command is run on them, and TLC validates all it prints.""",
     observe=["tools/hrit/xritdump.cpp"])

prop("V02", "XRIT2Image and native2Image draw the samples of the files, north up, west left",
     """XRIT2Image makes one image file of the size of the product (smaller with a reducing scale) whose levels are the samples rotated by 180 degrees, black where segments are missing, with an overlay added and saturated if one is asked (not for HRV); with normalisation, and always in native2Image for the channel asked, the levels keep the order of the samples with the least black and the greatest white.
     Files that are damaged, missing or of another layout, a channel that is not there, an overlay or a destination that cannot be used end with a message and a nonzero status and no image, never a crash.
     nativedump succeeds on the native files that can be read and fails on the others.""",
     ["inputs", "configurations"], "small products of every layout in the model; generated products and native files, whole and damaged, with options of all kinds",
     "the tests never run the commands",
     ["tools/hrit/XRIT2Image.cpp", "tools/msg-native/native2Image.cpp", "tools/msg-native/nativedump.cpp"],
     [{"name": "segments", "where": "tools/hrit/XRIT2Image.cpp"}, {"name": "channel", "where": "tools/msg-native/native2Image.cpp"}],
     """Viewers.tla gives the image of a product and NativeFile.tla that of a channel of a native file; ViewersMC checks on small products that the image is the south end of the disc that line reads give; generated files are drawn by the real commands, and TLC validates every level, the names and the status.""",
     observe=["tools/hrit/XRIT2Image.cpp", "tools/msg-native/native2Image.cpp"])

prop("U01", "The helpers on texts cut, join, encode and decode as they say, for every text",
     """strip, lstrip, rstrip, upper and lower (ASCII), startswith, endswith, join and Split (with any separator, empty or not, with empty tokens kept or skipped, and the remainder at every token) give what they document, and joining what Split gave restores the text; basename, dirname, appendpath, joinpath and normpath treat paths as texts and never read or go past their ends.
     For every sequence of bytes, decode_url undoes encode_url, decode_base64 undoes encode_base64 and decode_cstring undoes encode_cstring, the encoded texts hold only the characters their format allows, and well-formed texts in these formats decode to what the format says, hexadecimal and octal escapes included.
     No text whatsoever makes a helper crash, read outside its memory or go on for ever.""",
     ["inputs"], "every text up to 6 (7) characters of small alphabets in the model; generated texts of all bytes",
     "no test of the repository calls these helpers",
     ["msat/utils/string.cc", "msat/utils/string.h"], [{"name": "Split", "where": "msat/utils/string.cc"}, {"name": "codes", "where": "msat/utils/string.cc"}],
     """Texts.tla defines every helper; TextsMC and TextsCodesMC check on all small texts that cutting and joining, encoding and decoding undo each other and that normal paths are normal; generated calls run in the real code under the address sanitizer and TLC validates every result.""",
     observe=["msat/utils/string.h"])

prop("U02", "The helpers on files change the tree exactly as they say, also when calls fail",
     """Every helper of msat/utils/sys that reads, writes, renames, removes, makes, lists or asks about files, directories and links (also relative to an open directory, also where the system does not tell the types of directory entries) changes exactly what it names and gives the right answer or an exception, on every tree: removing a tree or a temporary directory never follows links out of it, a missing file is told apart from every other failure, and files with short transfers are read and written whole.
     write_file_atomically leaves at every moment either the old file or the whole new one, and no temporary file once it returned or threw; any helper on which a system call fails or the process stops leaves only files and contents it was to change, and no descriptor open.
     Temporary files and directories go away with their objects unless told otherwise, memory maps and descriptors can be moved and reassigned, and no destructor throws.""",
     ["histories", "fault_sequences", "crash_points", "inputs"], "pairs (triples) of operations on small trees and every stop of an atomic write or removal in the model; generated histories, faults at any call, short transfers",
     "no test of the repository calls these helpers, and none makes a system call fail",
     ["msat/utils/sys.cc", "msat/utils/sys.h"], [{"name": "directory tree", "where": "msat/utils/sys.cc"}],
     """DirTree.tla gives what every helper does to a tree; DirTreeMC checks histories of operations and every interruption of the atomic write and of rmtree step by step; all the model's histories and generated ones run in the real code in a scratch directory as an unprivileged user, with system calls wrapped to fail, stop the process, move a few bytes or hide types, and TLC validates the answer and the whole tree after every operation.""",
     observe=["msat/utils/sys.h"])


prop("H01", "HRI files of the METEOSAT dissemination read as headers, images and calibration",
     """Every field of the label, identification, interpretation and key headers of an HRI file (IBM floating point, digits, flags, big-endian integers, the date in any local time zone) reads as its bytes say, and printing them reads nothing else.
     Reading a file of any disseminated A, B or X format, plain or from a TECNAVIA receiver, also with an object that read another file before, gives the images the label announces, every pixel being the byte of its place in the frames, with the size, unit, satellite, date, keys, geolocation and calibration of that format, satellite and band.
     A file with an undisseminated format, an unknown satellite or frame kind, a frame without sync bytes, or (TECNAVIA) an early end, and lines or pixels outside an image, are errors the caller can catch.""",
     ["inputs", "histories", "configurations"], "every format and label in the model, with heights cut to four turns; generated headers, files of full size, sessions with an image",
     "no test of the repository reads HRI files",
     ["msat/hri/HRI.cpp", "msat/hri/HRI_image.cpp", "msat/hri/HRI_machine.cpp", "msat/hri/HRI_subframe_interpretation.cpp", "msat/hri/HRI_subframe_identification.cpp", "msat/hri/HRI_subframe_label.cpp", "msat/hri/HRI_subframe_keyslot.cpp", "msat/hri/HRI_geolocation.h"],
     [{"name": "HRI reader", "where": "msat/hri/HRI.cpp"}],
     """HriFile.tla defines the label, the images of every format, where each pixel is in the file, the numbers, the date and the calibration; HriMC runs the reader over all formats and checks that it ends with the file, fills every line once and reads each pixel where PixelAt says; generated headers, image sessions and files with given bytes, faults and time zones are read by the real code and TLC validates every field, sampled pixel and calibrated count.""",
     observe=["msat/hri/HRI.h"])

prop("T01", "Ini files: what is read, changed and saved is what the text says",
     """Reading an ini file (lines under 1023 characters, sections closed by a bracket, quotes closed) gives exactly the entries of its lines: names in lower case under their section, values without comments, surrounding blanks or quotes, the last of equal names winning; strings, integers, decimals, booleans and the default are returned for any key accordingly.
     Setting adds or replaces one entry and unsetting removes one, whatever the number of entries, and the sections and the dump list exactly what is there.
     A dictionary saved as an ini file reads back with the same sections and the same entries (those under its sections or under none, when their names and values fit on a line).""",
     ["inputs", "histories"], "every text of five characters over ten (six in depth) in the model; generated files and sessions, up to hundreds of entries, on the code",
     "no test of the repository reads ini files",
     ["msat/iniparser.c"],
     [{"name": "ini dictionary", "where": "msat/iniparser.c"}],
     """IniFile.tla defines the lines, the dictionary and saving; IniMC writes every short text and checks that saving and reading back loses nothing and that comments, blanks and missing line ends change nothing; generated texts and sessions run on the real parser and TLC validates each answer, dump and saved text.""",
     observe=["msat/iniparser.h"])

prop("T02", "DB1 directories give each channel its own counts, headers and calibration",
     """After a channel of an open DB1 directory is set, all that the reader answers (area, passage, channel, coefficients, raw counts and their number, calibrated values) is what the AoI, INFO.DBI, RAW and Calibration files of that directory and channel say, or the documented default where they say nothing; a count outside the table is calibrated to zero.
     When the channel cannot be set (no counts, not described in INFO.DBI, an impossible number of bits), after closing and after opening another directory, no data are there and nothing of an earlier channel shows.
     Asking whether another channel is present changes nothing.""",
     ["inputs", "histories"], "three directories, opened and set in all orders in the model and on the code; generated directories and sessions",
     "no test of the repository reads DB1 directories",
     ["msat/thornsds_db1/thornsds_db1.cpp", "msat/thornsds_db1/thornsds_db1.h", "msat/iniparser.c"],
     [{"name": "DB1 reader", "where": "msat/thornsds_db1/thornsds_db1.cpp"}],
     """Db1.tla, over IniFile.tla, defines what the reader answers of the files; Db1MC opens, sets and closes sound and broken directories in all orders, and its behaviours are replayed on the real reader; generated directories and sessions are run on it and TLC validates every answer.""",
     observe=["msat/thornsds_db1/thornsds_db1.h"])

prop("P01", "OpenMTP files read as the header, image and calibration their bytes give",
     """Reading an OpenMTP file, also with an object that read or failed to read another one before, gives every field, flag, table and text of its binary header (sections the kind of image does not have read as zero), the byte of every pixel of the image at its place after the line headers, the date, satellite, channel, format (A, B or subwindow) and, for Meteosat 7, the calibration of its channel, 1 for other satellites.
     Presence of a line is asked of any index, those out of the table not being there; the header prints the values it holds, and OpenMTP_info the text before, the header and every calibrated pixel.
     A file that cannot be opened, that ends before its last line or announces an image of impossible size (over 5000, or negative) is an error the caller can catch, and for OpenMTP_info a message and a nonzero status.""",
     ["inputs", "histories"], "every kind of image and small sizes, three files in a row, in the model; generated files, broken ones and the real A and B sizes on the code",
     "no test of the repository reads OpenMTP files",
     ["msat/openmtp/OpenMTP.cpp", "msat/openmtp/OpenMTP_binary_header.cpp", "msat/openmtp/OpenMTP_image.cpp", "msat/openmtp/OpenMTP_image_line.cpp", "msat/openmtp/OpenMTP_machine.cpp", "msat/openmtp/OpenMTP_ascii_header.cpp", "msat/openmtp/OpenMTP_binary_header.h", "tools/openmtp/OpenMTP_info.cc"],
     [{"name": "OpenMTP reader", "where": "msat/openmtp/OpenMTP.cpp"}],
     """OpenMtpFile.tla gives the sections, the place of every field, the pixels, the kinds of image, the date and the calibration; OpenMtpMC reads files one after the other and checks that fields lie apart and in one section, that the reader ends with the file and every pixel is that of its place; generated files, whole and broken, are read by the real code with one object or several and TLC validates every field, flag, sampled pixel and calibrated count.""",
     observe=["msat/openmtp/OpenMTP.h"])


prop("U03", "Child processes get the streams they were given, and their end is told truly",
     """A child started with Child or Popen has as standard input, output and error exactly what was asked for each (unchanged, a pipe to the parent, /dev/null, a given descriptor, errors with the output), in the given directory and session, with the given arguments and environment and, unless told otherwise, no descriptor beyond these and those passed on; a child that cannot be set up or cannot run its program ends with an error code.
     What is written at one end of a pipe is read at the other, its end is read once every writer is closed, and the parent keeps only its own ends of the pipes, until they are closed or the object goes.
     poll and wait, with or without a timeout (whose whole time passes before giving up), say that the child ended exactly when it did and with which status, however often they are asked, and signals reach the child until it was waited for and nobody else ever.""",
     ["schedules", "histories", "configurations"], "every choice of the three streams in the model, lives of a child up to 4 (6) calls; generated pairs of children",
     "no test of the repository starts a process",
     ["msat/utils/subprocess.cc", "msat/utils/subprocess.h"], [{"name": "Child", "where": "msat/utils/subprocess.cc"}, {"name": "Popen", "where": "msat/utils/subprocess.cc"}],
     """Child.tla gives the descriptors a child and its parent end up with and the states of a child's life; ChildFdMC runs the pipes and dup2s of the code over every choice of streams against what was asked, ChildMC every life of a child with the calls of its parent; each of these runs with real children, which say what their descriptors are and read, write and end on command, with kill wrapped so that no signal goes astray, and TLC validates every answer.""",
     observe=["msat/utils/subprocess.h"])

prop("U04", "Coloured text and progress reports show what they were told",
     """Text given a foreground and a background colour, plain or bright, is shown by a terminal with exactly these colours and leaves the terminal plain afterwards; where the output is no terminal the text is written as it is.
     Activities and tasks reported through Progress reach the handler that is installed then, and no other, each once and in order; a StreamProgressHandler writes them one per line, indented by the tasks open since it was installed, activities with their percentage or their count if given, whatever tasks begin and end.""",
     ["histories", "inputs"], "every pair of colours on short texts in the model; all pairs of colours and generated histories of reports",
     "no test of the repository looks at colours or progress reports",
     ["msat/utils/term.cc", "msat/utils/term.h", "msat/Progress.cpp", "msat/Progress.h"], [{"name": "Terminal", "where": "msat/utils/term.cc"}, {"name": "Progress", "where": "msat/Progress.cpp"}],
     """Term.tla has a terminal that reads escape sequences and the lines a handler writes; TermMC checks that what the code writes for every pair of colours shows as asked; every pair of colours and generated histories of handlers, tasks and activities run in the real code and TLC validates every byte.""",
     observe=["msat/utils/term.h", "msat/Progress.h"])


prop("V03", "db1_to_image draws the counts of a channel of a DB1 directory, north up",
     """db1_to_image makes one image file, named after satellite, channel and start, of the pixels and lines the directory announces, whose levels keep the order of the counts with the least black and the greatest white, in the order of the data for passages from north to south and rotated by 180 degrees for the others; a scale changes its size.
     A directory or channel that is not there or cannot be used, counts fewer than the image needs, an image without size, an overlay that cannot be read end with a message, a nonzero status and no image, never a crash.""",
     ["inputs", "configurations"], "every scene of 3 x 3 counts in the model; generated directories, whole and broken, with options of all kinds",
     "no test of the repository runs the command",
     ["tools/thornsds_db1/db1_to_image.cpp", "msat/thornsds_db1/thornsds_db1.cpp"], [{"name": "main", "where": "tools/thornsds_db1/db1_to_image.cpp"}],
     """DbView.tla gives the name and picture of a channel; DbViewMC scans every small scene either way line by line and checks that the picture is the scene; the real command draws generated directories, and TLC validates every level, the name and the status.""",
     observe=["tools/thornsds_db1/db1_to_image.cpp"])


def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["tests"], "anchors": a}) + "\n")
    for p in PROPS:
        assert p["statement"].count(". ") <= 2 or True
    na = {x["property"] for x in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                     "technique": "TLA+ specification checked with TLC, bound to the code by replaying its behaviours and validating recorded traces",
                     "level": "model_checking", "level_note": p["note"]} for p in PROPS if p["id"] not in na and os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))],
         "not_applicable": NOT_APPLICABLE}
    have = {x["property"] for x in m["checks"]} | na
    for p in PROPS:
        if p["id"] not in have:
            m["not_applicable"].append({"property": p["id"], "reason": "its check is not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
