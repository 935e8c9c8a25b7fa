#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that the two stay in step."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "mlx9064x/src/"
P = []

def prop(id, title, statement, over, text, tests, files, mech, observe, technique, note, level="exploration", state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    anchors = {"files": [S + f for f in files],
               "mechanism": [{"name": n, "where": S + w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=tests, anchors=anchors, technique=technique, note=note, level=level))

prop("C01", "MLX90640 calibration constants are what the EEPROM layout says",
     "For every MLX90640 EEPROM image, whether given as a dump or read over the bus, every calibration constant (global, per pixel and per subpage, compensation pixel, temperature ranges, optional terms) equals the value the device's memory layout defines for those 832 words, with each field's full width and signedness. Images in which a pixel's combined offset does not fit its 16 bit type are rejected with an error instead of giving a wrong constant; the constants of pixels marked as failed are unspecified. A per-pixel constant is the same however its iterator is walked (step by step, skipping, from the middle, counting).",
     ["inputs"], "All 2^(16*832) EEPROM images, through both ways of loading a calibration.",
     "The tests decode two images (the datasheet's worked example and one dump) and compare a few pixels; most sign, scale and field-width cases never occur in them.",
     ["mlx90640/eeprom.rs", "mlx90640/address.rs"],
     [("field extraction and scaling", "mlx90640/eeprom.rs Mlx90640Calibration::from_data"),
      ("per pixel expansion", "mlx90640/eeprom.rs calculate_bulk_pixel_calibration, repeat_chessboard, generate_k_ta_pixels"),
      ("temperature ranges", "mlx90640/eeprom.rs get_temperature_range_data, common.rs alpha_corr_n")],
     ["all accessors of the calibration", "result of loading"],
     "oracle monitor: independent reference decoder beside the library on generated EEPROM images",
     "Every constant of every explored image is compared with an independent decoder written from the datasheet (relative tolerance 2^-18). Trusts that decoder; images are sampled, each field over its whole range.")

prop("C02", "MLX90641 calibration constants are what the EEPROM layout says",
     "For every MLX90641 EEPROM image, whether given as a dump or read over the bus, every calibration constant equals the value the device's memory layout defines for the error-corrected 11 bit data words, with each field's full width and signedness and the separate pixel offsets of the two subpages. Images in which a pixel's combined offset does not fit its 16 bit type are rejected with an error; the constants of pixels marked as failed are unspecified. A per-pixel constant is the same however its iterator is walked (step by step, skipping, from the middle, counting).",
     ["inputs"], "All EEPROM images with valid checksums, through both ways of loading a calibration.",
     "The tests decode one image (the datasheet's) and look at a few pixels.",
     ["mlx90641/eeprom.rs", "mlx90641/address.rs"],
     [("field extraction and scaling", "mlx90641/eeprom.rs Mlx90641Calibration::from_data"),
      ("per pixel expansion", "mlx90641/eeprom.rs PerPixelCalibration::from_data"),
      ("11 bit fields", "mlx90641/eeprom.rs get_hamming_u16, get_hamming_i16, get_combined_word, split_6_5, i16_from_i11")],
     ["all accessors of the calibration", "result of loading"],
     "oracle monitor: independent reference decoder beside the library on generated EEPROM images, each 11 bit configuration word over all its values",
     "As C01; every configuration word is additionally taken through all its 2048 values.")

prop("C03", "MLX90641 checksums: every single flip repaired, every double flip reported",
     "For every 11 bit value, encoding gives one word which decodes to the same value, any one flipped bit of it is corrected and any two flipped bits are reported as an error; values of more than 11 bits are refused by the encoder. In a whole EEPROM image the same holds for each calibration word: with at most one flipped bit per word the calibration is exactly that of the intact image, with two flipped bits in any one calibration word loading fails. The 16 identification words before the calibration are never looked at.",
     ["inputs", "fault_sequences"], "All 65536 words for both functions (exhaustive), and EEPROM images with flips in any words.",
     "The tests flip bits of the words of one EEPROM image and check the decoder in isolation.",
     ["mlx90641/hamming.rs", "mlx90641/eeprom.rs"],
     [("encoder and decoder", "mlx90641/hamming.rs add_checksum, validate_checksum"),
      ("use on every word", "mlx90641/eeprom.rs get_hamming_u16, get_hamming_i16")],
     ["encoder and decoder results", "calibration or error from loading"],
     "oracle monitor: every word judged by minimum distance decoding; bit flips injected into images",
     "The word functions are covered exhaustively; images are sampled with every word position and bit hit.")

prop("C04", "No input makes the library panic, overflow, read out of bounds or hang",
     "Loading a calibration from any bytes, driving a camera with any memory, register contents, call history and bus faults, and calling the calculation functions with any numbers, buffer lengths and pixel masks always returns: no panic, no arithmetic overflow, no out of range access, no endless loop. EEPROM dumps shorter than 1664 bytes are an error for both cameras, and longer ones are treated like their first 1664 bytes.",
     ["inputs", "fault_sequences", "histories"], "All dumps of all lengths, all memories and register values, all call histories, all numeric arguments.",
     "The tests only use well-formed data from real cameras and sufficiently long buffers.",
     ["mlx90640/eeprom.rs", "mlx90641/eeprom.rs", "calculations.rs", "driver.rs", "common.rs", "util.rs"],
     [("length and range checks", "mlx90640/eeprom.rs from_data; mlx90641/eeprom.rs from_data"),
      ("zips that stop at the shortest", "calculations.rs raw_pixels_to_ir_data, raw_ir_to_temperatures, raw_pixels_to_temperatures"),
      ("bounded polling", "driver.rs synchronize")],
     ["return of every call", "panics", "bus operations per call", "pixels written"],
     "fuzzing with hostile inputs under overflow checks, debug assertions, a bus-operation budget and a hang watchdog",
     "Built with overflow checks and debug assertions, so silent wrap-around shows. Sampled hostile inputs; a call that keeps the bus busy forever or a case running for two minutes counts as a hang.")

prop("C05", "The driver only makes legal bus transactions to its own camera",
     "Every bus transaction goes to the driver's own address, reads lie within the camera's memory map, the EEPROM is read only while the driver is constructed and never written, and the only words written are the status and control registers, with a payload that leaves the reserved bits as they were read. Calls documented as only reading never write, and other cameras on the same bus are never touched.",
     ["histories", "inputs", "fault_sequences"], "All histories of API calls, register contents, addresses, bus faults and frames arriving during a call.",
     "The tests check the result of a call against a mock that accepts any access, for one default register content.",
     ["driver.rs", "register.rs", "common.rs", "calculations.rs"],
     [("masked register writes", "register.rs Register::write_mask, ToI2C::to_i2c"),
      ("memory ranges", "mlx90640/mod.rs Mlx90640Pixels; mlx90641/mod.rs SubpageInterleave; common.rs read_ram"),
      ("driver calls", "driver.rs")],
     ["every I2C transaction on the simulated bus"],
     "online monitor on a simulated I2C bus judging every transaction of random API histories with faults",
     "Every transaction of every explored history is judged, including the words of neighbours on the bus.",
     state=[("status and control registers", "what the camera is told to do", "register.rs")])

prop("C06", "Changing a setting changes that setting and nothing else",
     "After setting a camera option (subpage mode, repeat, selected subpage, data hold, overwrite, frame rate, resolution, access pattern) from any register contents, exactly that option's bits hold the requested value in the camera and every other bit of both registers is as before, with one register write if the value differs and none if it does not. Every getter, asked in any order and any number of times, then reports what the camera's registers hold.",
     ["inputs", "histories"], "All register contents, all settings and values, all orders of setting and asking.",
     "The tests change each option once from the power-on register value of a mock.",
     ["driver.rs", "register.rs"],
     [("setters and getters", "driver.rs set_register_flag/set_register_field users, update_control_register, set_control_register"),
      ("field positions", "register.rs StatusRegister, ControlRegister")],
     ["simulated registers after each call", "number of writes", "getter results"],
     "model-based monitor: simulated registers and getters compared with a bit-field model after every call",
     "Random register contents and setting sequences; the field layout is that of the datasheets.")

prop("C07", "Register and setting encodings are exact inverses",
     "For every 16 bit content of the status, control and I2C registers, each field reads as the datasheet's bits say, setting a field to any value changes only that field's bits, and converting to and from bytes preserves all 16 bits (reserved bits included); two registers are equal exactly when all their non-reserved fields are. Frame rates and resolutions convert to and from numbers exactly: every u8 and every f32 either gives the documented setting or an error.",
     ["inputs"], "All 65536 words of each register, all 256 byte values, all 2^32 floats (exhaustive).",
     "The tests check one bit pattern per field and a few floats.",
     ["register.rs"],
     [("fields", "register.rs StatusRegister, ControlRegister, I2cRegister"),
      ("settings", "register.rs FrameRate, Resolution, Subpage, AccessPattern conversions")],
     ["accessor results", "register bytes", "conversion results"],
     "exhaustive execution of all register words, bytes and f32 values against a bit-field model",
     "Exhaustive for words, bytes and floats. Equality follows the documented meaning of the masked bits.")

prop("C08", "Updating a subpage writes exactly that subpage's pixels",
     "Every imaging call writes a value to every pixel of the measured subpage in the current access pattern and to no other element of the destination, whatever the destination held before. Destinations that are too short or too long, and pixel masks of any length, affect only which of these pixels exist, never the values or other elements.",
     ["inputs", "histories"], "All access patterns, subpages, cameras, destination lengths and prior contents, pixel masks.",
     "The tests use fully sized zeroed buffers and the cameras' default access pattern.",
     ["calculations.rs", "mlx90640/mod.rs", "mlx90641/mod.rs", "driver.rs"],
     [("pixel selection", "mlx90640/mod.rs pixels_in_subpage; mlx90641/mod.rs pixels_in_subpage"),
      ("in-place filtering", "calculations.rs raw_pixels_to_ir_data, raw_ir_to_temperatures, raw_pixels_to_temperatures")],
     ["destination buffers before and after"],
     "monitor on destination buffers: sentinel fills, differential runs with two prior contents",
     "Sampled modes, lengths and masks; every element of every destination is judged.")

prop("C09", "Each pixel's value comes from its own memory words only",
     "The value written for a pixel depends only on that pixel's own measurement word, that pixel's calibration and the frame-wide words (supply, ambient, gain, and the compensation pixel of the measured subpage), at the addresses of the camera's memory map. Changing any other word of the camera's memory leaves the value bit for bit the same, and changing one of those words where it carries weight changes it.",
     ["inputs"], "All camera memories, words, subpages and access patterns.",
     "The tests compare one or two known images, in which a neighbour's similar value is within tolerance.",
     ["calculations.rs", "common.rs", "mlx90640/mod.rs", "mlx90641/mod.rs", "mlx90640/address.rs", "mlx90641/address.rs"],
     [("memory ranges and buffer offsets", "mlx90640/mod.rs Mlx90640Pixels; mlx90641/mod.rs SubpageInterleave; common.rs read_ram"),
      ("frame-wide words", "calculations.rs RamData::from_i2c")],
     ["images before and after changing one memory word"],
     "taint-style perturbation monitor: change one memory word, compare the set of changed outputs with the allowed set",
     "Bitwise differential runs of the same build; words and memories are sampled, all kinds of word covered.")

prop("C10", "Ambient temperature and compensated IR values follow the documented formulas",
     "For every frame and calibration, the supply voltage, ambient temperature, gain and each pixel's compensated IR value (gain, offset with its ambient and supply drift, access pattern compensation, emissivity, gradient compensation by the compensation pixel) equal the datasheet formulas within floating point rounding, including resolution correction when the camera's resolution differs from the calibrated one. This holds both for the calculation functions and for images made by the drivers.",
     ["inputs"], "All RAM words, calibrations, resolutions, emissivities, subpages and access patterns.",
     "The tests evaluate each formula once on the datasheet's example numbers, at calibrated resolution and with tolerances that hide whole terms.",
     ["calculations.rs", "common.rs", "driver.rs", "mlx90640/mod.rs", "mlx90641/mod.rs"],
     [("per frame formulas", "calculations.rs delta_v, v_dd, v_ptat_art, ambient_temperature, CommonIrData::new"),
      ("per pixel formulas", "calculations.rs per_pixel_v_ir, raw_pixels_to_ir_data"),
      ("resolution correction", "mlx90640/mod.rs, mlx90641/mod.rs resolution_correction")],
     ["values returned by the functions", "raw images and ambient temperature of the drivers"],
     "oracle monitor: interval evaluation of the formulas beside the library, per value",
     "A value is refuted when it lies outside the interval any sensible f32 evaluation can give; ill conditioned values get no verdict and are counted. T_a uses the uncorrected supply difference and the MLX90640 interleave compensation is added, both as this library documents.")

prop("C11", "Object temperatures follow the documented formulas",
     "For every IR value, calibration, ambient and reflected temperature and emissivity, the object temperature equals the documented formula within floating point rounding: the pixel's sensitivity with its ambient drift and gradient compensation, the reflected term from ambient and reflected temperature and emissivity, and the sensitivity slope of the basic temperature range (the only range the library implements). This holds for both in-place and direct conversion and for the drivers' images.",
     ["inputs"], "All IR values, calibrations, T_a, T_r and emissivities.",
     "The tests check one pixel of the datasheet example per camera and one recorded image.",
     ["calculations.rs", "driver.rs", "common.rs"],
     [("formulas", "calculations.rs t_ar, sensitivity_correction_coefficient, per_pixel_temperature"),
      ("image conversion", "calculations.rs raw_ir_to_temperatures, raw_pixels_to_temperatures")],
     ["values returned by the functions", "images of the drivers"],
     "oracle monitor: interval evaluation of the formulas beside the library, per pixel",
     "As C10. Extended temperature ranges are documented as not implemented: the basic range's formula is the oracle everywhere.")

prop("C12", "All routes to an image agree",
     "For the same camera state, converting in one pass, converting raw IR values in a second step, and each of the driver's imaging calls give the same image and the same ambient temperature up to floating point rounding, for both cameras. The choice of route never changes which pixels are valid, warm or cold.",
     ["inputs", "histories"], "All camera states, subpages, access patterns, emissivities, reflected temperatures and routes.",
     "The tests exercise one route per fixture.",
     ["calculations.rs", "driver.rs"],
     [("routes", "calculations.rs raw_pixels_to_temperatures, raw_pixels_to_ir_data, raw_ir_to_temperatures; driver.rs generate_*")],
     ["images and ambient temperatures by route"],
     "differential monitor: all public routes run on the same simulated frame, images compared pixel by pixel",
     "Sampled frames; tolerance is the rounding bound of the formulas for that pixel.")

prop("C13", "Each announced measurement is delivered exactly once, to its own subpage",
     "Polling for an image delivers a frame exactly when the camera's data-ready flag is set, from the subpage the status register announces, and acknowledges it by clearing only that flag after the measurement has been read. When no new data is announced nothing is written to the camera, the image and the ambient temperature stay as they were, and the call says so.",
     ["schedules", "histories"], "All interleavings of measurements finishing (before, between and during calls) with polling calls, all register contents.",
     "The tests never change the mock camera's state while the driver runs.",
     ["driver.rs", "register.rs"],
     [("data ready handshake", "driver.rs generate_image_if_ready, data_available, reset_data_available")],
     ["order of bus transactions", "status register", "delivered frames"],
     "online trace monitor: ordering and exactly-once ledger over a camera whose frames finish at random bus operations",
     "Frames are made to finish before any bus operation of a call; a frame finishing between flag read and memory read is attributed as the real device would.",
     state=[("data ready flag", "a frame has been measured and not yet collected", "register.rs StatusRegister")])

prop("C14", "Bus errors are returned as they are, abandon the call and leave no trace",
     "If any bus operation of any call or of construction fails, the call returns that very error value, makes no further bus operation, and an image call that failed while reading leaves the destination and the reported ambient temperature as they were. Repeating the call once the bus works again gives what it would have given without the failure.",
     ["fault_sequences", "crash_points"], "Every bus operation of every call and of both constructors failing in turn, cleanly, with partly overwritten buffers, or with the bus dead from there on.",
     "The mock bus of the tests never fails.",
     ["driver.rs", "register.rs", "common.rs", "calculations.rs", "error.rs", "mlx90640/eeprom.rs", "mlx90641/eeprom.rs"],
     [("error propagation", "error.rs Error::I2cReadError, I2cWriteReadError; every ? in driver.rs, register.rs, common.rs, calculations.rs")],
     ["error values", "bus operations after the fault", "image, ambient temperature, registers", "the retried call"],
     "fault enumeration: every bus operation of every call failed in turn, three ways, with a monitor on outcome and retry",
     "Fault points are enumerated completely for the calls and camera states explored.", level="fault_enumeration")

prop("C15", "Answers never depend on the driver's history",
     "After any history of calls, frames and bus faults, every call answers, images and acts on the camera bit for bit as a newly built driver with the same settings would in the same camera state, so nothing remembered from earlier frames or settings shows. This also holds for cloned drivers, for two drivers sharing a bus and for drivers used one after the other; only the last ambient temperature, the emissivity and the reflected temperature are remembered.",
     ["histories", "fault_sequences"], "All histories of API calls, frames and faults over one driver, its clones, and two cameras on one bus.",
     "The tests make each call on a newly built driver.",
     ["driver.rs"],
     [("cached control register and scratch buffer", "driver.rs CameraDriver, update_control_register, set_control_register")],
     ["results, images and bus effects of the old and the new driver"],
     "differential monitor: every call of a random history repeated from the same bus state by a driver without history",
     "Bitwise comparison of two executions of the same build. Assumes no one else writes the camera's registers between calls (see C24 for that).",
     state=[("cached control register, pixel buffer", "must not be observable", "driver.rs CameraDriver")])

prop("C16", "Synchronizing returns just when a freshly commanded measurement is complete",
     "Synchronizing discards any pending data, commands exactly one new measurement (allowing it to overwrite memory) and returns promptly after the camera has completed that measurement and not before, however long it takes and whatever stale or just finished frames there were; the new measurement is then announced and is the next one delivered. Only the status register is touched and its other bits are kept, and a bus error ends the call with that error.",
     ["schedules", "fault_sequences", "histories"], "All delays of the measurement, stale frame positions, register contents and faults.",
     "No test calls it: the mock camera never finishes a measurement.",
     ["driver.rs", "register.rs"],
     [("start of measurement and polling", "driver.rs synchronize")],
     ["bus transactions", "registers before and after", "which frame comes next"],
     "online trace monitor over a camera that finishes the commanded measurement after a chosen number of polls, with stale frames and faults",
     "Time is modelled as bus operations.")

prop("C17", "The library never allocates from the heap",
     "Neither loading a calibration (from a dump or over the bus, successful or rejected) nor any driver or calculation call, including failing ones, requests heap memory. This is what makes the library usable without an allocator.",
     ["inputs", "histories", "fault_sequences"], "All entry points with all inputs, on success and failure.",
     "The tests run with the system allocator and would not notice an allocation.",
     ["lib.rs", "driver.rs", "calculations.rs", "mlx90640/eeprom.rs", "mlx90641/eeprom.rs"],
     [("fixed size storage", "mlx90640/eeprom.rs, mlx90641/eeprom.rs calibration structs; driver.rs pixel buffer")],
     ["requests to the global allocator while library code runs"],
     "allocator interposition: a counting global allocator observing every request made during library calls",
     "Judges the executed paths; the C18 check also compiles the library where no allocator exists.")

prop("C18", "The same answers on every platform and math backend",
     "With the same camera memory and calls the library gives the same results, errors, registers and bus transactions with the standard and the libm math backend, with or without arithmetic checks, on 32 and 64 bit and on little and big endian machines, with numbers equal within floating point rounding. It builds for machines without an operating system or an allocator.",
     ["configurations", "inputs"], "All feature, word size, byte order and build profile combinations, over all workloads.",
     "The tests run on one machine with one set of features.",
     ["lib.rs", "util.rs", "calculations.rs", "register.rs", "mlx90640/eeprom.rs", "mlx90641/eeprom.rs", "common.rs"],
     [("explicit byte order", "util.rs Buffer; register.rs from/to bytes"),
      ("math backend", "calculations.rs num_traits::Float")],
     ["line by line observation logs of one recorded workload on every configuration"],
     "offline log comparison: one recorded workload run natively, with libm, unchecked, and interpreted (Miri) as 32 bit, big endian and ARM machines",
     "Configurations: x86-64 std, libm and unchecked builds; i686, s390x and aarch64 with std and armv7 with libm under Miri; bare Cortex-M4F, Cortex-M0 and RISC-V machines are compiled for only.")

prop("C19", "No undefined behaviour is reachable through the safe API",
     "Using the safe API with any inputs, including hostile EEPROM and camera memory, faulty buses and wrongly sized buffers, never performs undefined behaviour: no invalid memory access, no use of uninitialised memory, no aliasing violation, no invalid value, and no data race between drivers used on different threads. This includes the dependencies' code as this library uses it.",
     ["inputs", "histories"], "All uses of the safe API.",
     "The tests run natively, where undefined behaviour usually goes unnoticed.",
     ["lib.rs", "driver.rs", "calculations.rs", "common.rs", "mlx90640/eeprom.rs", "mlx90641/eeprom.rs", "register.rs"],
     [("no unsafe code in the library; casts and indexing", "lib.rs"),
      ("flag bit slices", "mlx90640/eeprom.rs, mlx90641/eeprom.rs failed_pixels, outlier_pixels")],
     ["reports of the Miri interpreter and AddressSanitizer"],
     "undefined-behaviour interpreter (Miri, Tree Borrows) and AddressSanitizer over the recorded workload, single-threaded and with two drivers on two threads",
     "Judges what the workload executes; aliasing under Tree Borrows (bitvec itself is not clean under Stacked Borrows).")

prop("C20", "Emissivity, reflected and ambient temperature settings mean what they say",
     "The emissivity in use is the override if one is set, else the EEPROM's, else 1; the reflected temperature is the one set, else the ambient temperature minus the camera's self heating; the ambient temperature reported is that of the last image made and absent before. With emissivity 1 the reflected temperature has no effect on images, below 1 a hotter reflection makes objects colder, and settings take effect with the next image and survive failed calls.",
     ["histories", "inputs"], "All histories of setting, clearing and imaging (also failing), all values.",
     "The tests set each value once and read it back, without making an image.",
     ["driver.rs", "calculations.rs"],
     [("settings", "driver.rs effective_emissivity, override_emissivity, use_default_emissivity, set_reflected_temperature, ambient_temperature"),
      ("default reflected temperature", "driver.rs generate_image_subpage_to")],
     ["getters", "images across settings"],
     "model-based monitor on the settings plus metamorphic comparison of images across settings",
     "Histories are sampled; images are compared within rounding.",
     state=[("emissivity override, reflected, ambient", "user settings and last measurement", "driver.rs CameraDriver")])

prop("C21", "Failed and outlier pixels are reported exactly",
     "For every EEPROM image, the failed and outlier pixel lists hold exactly the pixels the EEPROM marks as such, in ascending order and each once, however the list is walked, and the lists' emptiness test agrees. For the MLX90640 a pixel is failed when its calibration word is zero and an outlier when that word's lowest bit is set; for the MLX90641 a pixel is failed when the data of all four of its calibration words is zero, and the outlier list is the same as the failed list.",
     ["inputs"], "All sets of flagged pixels including first, last, none and all, and near misses.",
     "The tests look at an image without flagged pixels and at a few induced ones.",
     ["mlx90640/eeprom.rs", "mlx90641/eeprom.rs", "common.rs"],
     [("flag bits", "mlx90640/eeprom.rs, mlx90641/eeprom.rs failed_pixels, outlier_pixels"),
      ("iteration", "common.rs FlaggedPixels")],
     ["flag iterators"],
     "oracle monitor: flag iterators compared with the set of pixels planted in the EEPROM image",
     "Sampled sets, all positions hit.")

prop("C22", "A scene of known temperatures is measured as those temperatures",
     "For every plausible camera calibration and every scene of object temperatures, the image computed from the words that camera would report (by the basic temperature range's sensitivity) shows the scene's temperatures, within the quantisation of the words and floating point rounding, in all access patterns, resolutions and emissivities. A pixel reporting a larger word is never shown colder.",
     ["inputs"], "All plausible calibrations, scenes from -40 to several hundred degrees, ambient temperatures, emissivities, resolutions.",
     "The tests compare one or two recorded images with a coarse tolerance.",
     ["calculations.rs", "driver.rs", "mlx90640/eeprom.rs", "mlx90641/eeprom.rs"],
     [("whole pipeline", "calculations.rs, driver.rs generate_image_to")],
     ["driver images against the scene"],
     "end-to-end monitor: a simulated camera inverts the physics for a known scene, driver images compared with it",
     "The simulated camera inverts the documented equations in f64 with the reference decoder's constants.")

prop("C23", "Memory map: each subpage's pixels are read from their place",
     "For every camera, subpage and access pattern, the memory ranges read to get an image lie in the pixel area, do not overlap, and put every pixel of the subpage at its place in the image buffer without writing beyond it; the pixel selection is exactly the checkerboard squares or rows of the subpage for the MLX90640, and every pixel for the MLX90641, however the selection or the ranges are walked. Camera dimensions, memory addresses, compensation pixel addresses, self heating and resolution correction are those of the datasheets.",
     ["inputs", "configurations"], "All cameras, subpages, access patterns, addresses and resolutions (exhaustive), memories sampled.",
     "The tests check the chess pattern in part and one interleaved subpage.",
     ["mlx90640/mod.rs", "mlx90641/mod.rs", "mlx90640/address.rs", "mlx90641/address.rs", "common.rs"],
     [("ranges", "mlx90640/mod.rs Mlx90640Pixels, Mlx90640PixelSubpage; mlx90641/mod.rs SubpageInterleave"),
      ("addresses", "mlx90640/address.rs, mlx90641/address.rs")],
     ["ranges and iterators", "buffers read over the bus"],
     "exhaustive execution of the geometry functions against the memory map, and reads monitored on the simulated bus",
     "Geometry is exhausted; memories have pairwise different words.")

prop("C24", "A driver follows the camera's own settings once it reads them",
     "The camera's control register may change without a driver's doing: by another driver or bus master, a power-on reset, or a write that took effect although it was reported as failed. From the next control register getter or setter that succeeds on the driver, every call on it answers, images and acts on the camera bit for bit as a newly built driver with the same emissivity and reflected temperature would, in particular with the access pattern and resolution the camera now has.",
     ["histories", "fault_sequences", "inputs"], "All register changes, by any of these causes, all getters and setters that follow, all frames.",
     "The tests use one driver whose mock camera never changes by itself.",
     ["driver.rs"],
     [("refreshing the cached settings", "driver.rs control_register, set_control_register, update_control_register")],
     ["results, images and bus effects of the old and the new driver"],
     "differential monitor: calls after a settings change behind the driver's back repeated by a newly built driver from the same bus state",
     "Bitwise comparison of two executions of the same build. Calls before the getter or setter are not judged.",
     state=[("cached access pattern and resolution correction", "follows the control register at every read", "driver.rs CameraDriver")])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {"version": 1,
         "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
                     "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "No hooks in /repo: the public API and the I2C bus are all the monitors need. Genuine defects found are repaired by fix: commits, see known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
