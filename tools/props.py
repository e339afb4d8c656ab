#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech=(), observe=None, state=None):
    a = {"files": files}
    if state: a["state"] = state
    a["mechanism"] = [{"name": n, "where": w} for n, w in mech]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every request stays one command: no argument can split or smuggle another",
  "Every command sent to ExifTool consists of the intended arguments, one per line, ends with exactly one execute marker, and no argument line contains a carriage return, line feed or NUL. If any caller-supplied text (file name, tag name, tag value, extra argument) would put one of those characters on the wire, the call rejects and nothing is sent.",
  ["inputs", "configurations"], "for every file name, tag name, value, extra argument and option, on every operation",
  "Tests try a handful of strings with a newline; the guarantee is over all strings and all operations, including operations added later.",
  ["src/ExifToolTask.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/ExifTool.ts"],
  [("command rendering", "ExifToolTask.renderCommand"), ("value encoding", "WriteTask enc/htmlEncode")],
  "the command string handed to the process pool")
p("C02", "Caller-supplied tag names are validated before they reach ExifTool",
  "Wherever a caller supplies a tag name (keys of written tags, numeric tags, retained tags, extracted tags), the name is used in a command only if it is a string that begins with a letter, digit or one of _ : * ? + # ^ and contains only those characters and hyphens. Any other name makes the call reject without sending a command.",
  ["inputs"], "for every string or non-string passed as a tag name to every operation that accepts one",
  "Tests sample a few bad names per operation; the property is about the whole accepted language and every entry point.",
  ["src/TagNameValidation.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/ExifTool.ts"],
  [("tag name validation", "validateTagName")], "tag references inside the command")
p("C03", "Target files are passed as absolute paths in the final position",
  "Every operation on a file names it to ExifTool by its absolute path as the last argument (and any destination by its absolute path right after the flag that takes it), so a file name can never be read as an option or resolved against another directory. On Windows every such command also declares UTF-8 file names.",
  ["inputs", "configurations"], "for every file name (including ones starting with '-' or '@'), every operation, both platforms",
  "Tests use well-behaved temp-file names on one platform.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/WriteTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/FilenameCharsetArgs.ts"],
  [("path resolution", "*.for factories")], "arguments of each command")
p("C04", "Written values reach ExifTool encoded so that they decode to what was given",
  "Each written tag is sent as one name=value argument whose text is HTML-entity encoded and always accompanied by the flag that makes ExifTool decode it; list items are joined by exactly the separator the same command declares. Null or undefined clears the tag, booleans are sent as True/False, numbers in plain decimal form, and values of unsupported types make the call reject rather than being sent in some other form.",
  ["inputs"], "for every combination of tag values of every type",
  "Tests write a few sample values; encoding has to hold for every string and every value shape.",
  ["src/WriteTask.ts"], [("value encoding", "enc/htmlEncode"), ("argument assembly", "WriteTask.#forFields")],
  "name=value arguments of write commands")
p("C05", "Text inside written structures cannot alter the structure",
  "When a structured value is written, every occurrence of , [ ] { } or | inside a caller-supplied field name or string field value is escaped, so the structure ExifTool parses has exactly the fields and items the caller gave. This also holds for strings inside lists inside structures.",
  ["inputs"], "for every nesting of structures and lists and every string in them",
  "Tests use a few structures without delimiter characters in nested positions.",
  ["src/WriteTask.ts"], [("struct serialisation", "enc")], "name=value arguments of write commands")
p("C06", "Exact tag edits send only supported, validated edits",
  "An exact-edit request sends a command only if every edit is a plain object with a supported, canonically spelled tag and an operation allowed for that tag (remove-only tags are never added) whose text is non-empty, well-formed and free of the list separator and of characters that do not survive XML. Otherwise, or if extra arguments would redefine the separator or API options, the call rejects and nothing is sent.",
  ["inputs"], "for every list of edits and every option value",
  "Tests sample invalid edits one at a time.",
  ["src/TagEdit.ts", "src/WriteTask.ts"], [("edit validation", "validateTagEdits"), ("command assembly", "WriteTask.forTagEdits")],
  "edit commands")
p("C07", "Exact tag edits send exactly what was validated",
  "The tag, operation and text sent for an edit are the very values that passed validation: each caller-supplied property is observed once, so getters, proxies or objects that change while the request is being prepared cannot make a different edit reach ExifTool.",
  ["inputs", "schedules"], "for every edit object, including ones whose properties change between observations",
  "Needs objects that answer differently on each read, at every read site.",
  ["src/TagEdit.ts", "src/WriteTask.ts"], [("snapshotting", "validateTagEdits")], "edit commands")
p("C08", "Metadata modifications are never retried automatically",
  "A write, exact edit or delete-all request submits its command to ExifTool at most once, whatever happens to that submission and whatever retry count is configured.",
  ["fault_sequences", "configurations", "histories"], "for every failure of the submission, every retry setting and every argument shape",
  "Tests do not make submissions fail for each modifying call and count attempts.",
  ["src/ExifTool.ts", "src/AsyncRetry.ts"], [("retry decision", "ExifTool.enqueueTask")], "submissions to the process pool")
p("C09", "Retriable requests make a bounded number of fresh attempts and report failure",
  "A retriable request (reads, extractions, rewrites, version) is attempted at most once plus the configured number of retries, each attempt submits a newly built task, the first success ends the loop and is what the caller gets, and when every attempt fails the caller's promise rejects with the error of an attempt.",
  ["fault_sequences", "configurations"], "for every pattern of attempt failures and every retry setting",
  "Tests cover a couple of failure patterns of the helper, none through each operation.",
  ["src/AsyncRetry.ts", "src/ExifTool.ts"], [("retry loop", "retryOnReject"), ("enqueue", "ExifTool.enqueueTask")], "submissions and returned promise")
p("C10", "A reported failure is never turned into a successful result",
  "If ExifTool's error stream carries an error line (one mentioning an error and not a warning), then write, edit, delete-all, extract-to-file and rewrite calls reject. Extract-to-file resolves only when exactly one output file was confirmed, rewrite only when the new file was confirmed, extract-to-buffer only with bytes decoded from the requested tag, and version only with a well-formed version.",
  ["inputs", "fault_sequences"], "for every stdout/stderr content ExifTool can produce",
  "Tests see the outputs of one ExifTool version on a few fixtures.",
  ["src/ExifToolTask.ts", "src/WriteTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/VersionTask.ts", "src/ExifTool.ts"],
  [("stderr classification", "ExifToolTask.#parser"), ("result parsing", "*.parse")], "promise returned to the caller")
p("C11", "Write results count every status line exactly once and drop none",
  "Each line ExifTool prints on standard output for a write contributes its number to exactly one of created, updated or unchanged - the one it names - and a line that names none of them is reported as a warning. Counts add up over several lines.",
  ["inputs"], "for every sequence of output lines",
  "Tests parse a few known outputs.",
  ["src/WriteTask.ts"], [("status parsing", "WriteTask.parse")], "write results")
p("C12", "A read never returns another file's metadata or an empty success",
  "A read resolves only with metadata parsed from ExifTool's output for the file that was asked for: if the output names another source file the call rejects, and if the output cannot be parsed as metadata, read and raw-read calls reject, with ExifTool's own error when it reported one.",
  ["inputs", "fault_sequences", "schedules"], "for every output paired with every request, including output crossed between requests",
  "Tests never present crossed or corrupt output for every entry point.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/File.ts"], [("source check", "ReadTask.parse"), ("path comparison", "compareFilePaths")], "promise returned by read calls")
p("C13", "No diagnostic from ExifTool is lost",
  "Every error or warning line ExifTool prints while serving a read, raw-read, write, edit or delete-all request either makes the call reject or appears in the errors or warnings of the result, and the error and warning recorded in a read file's own metadata output are included too. A call (also an extraction or rewrite) that rejects because of a single error line says what that line says. Nothing that ExifTool did not report is presented as an ExifTool error.",
  ["inputs"], "for every set of diagnostic lines and metadata outputs",
  "Tests look at one or two warnings.",
  ["src/ExifToolTask.ts", "src/ErrorsAndWarnings.ts", "src/IsWarning.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/WriteTask.ts"],
  [("classification", "ExifToolTask.#parser"), ("aggregation", "errorsAndWarnings")], "errors/warnings of results")
p("C14", "Reading never writes, and existing output is replaced only on request",
  "Read, raw-read, version and extract-to-buffer requests contain no argument that assigns, copies or deletes a tag or names an output file unless the caller passed it. Extraction replaces an existing file only when forced, and no operation asks ExifTool to overwrite the original in place unless the caller passed that argument.",
  ["inputs", "configurations"], "for every operation and option combination",
  "Tests check a few argument lists.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/WriteTask.ts"],
  [("argument assembly", "*.for factories")], "arguments of each command")
p("C15", "Reported GPS coordinates are in range, signed consistently, or absent",
  "When the metadata determines both a latitude and a longitude, the latitude reported by a read is within -90..90 and the longitude within -180..180, each hemisphere reference agrees with the sign, and a southern or western reference in the file makes the value negative unless a nearby geolocation position contradicts it. When the coordinates are out of range, or both zero while zero coordinates are to be ignored, no GPS or geolocation tag is reported at all, and a warning says so.",
  ["inputs", "configurations"], "for every combination of coordinate, reference and position tags",
  "Tests use a few fixtures; the range and sign rules span all numbers and reference strings.",
  ["src/GPS.ts", "src/CoordinateParser.ts", "src/ReadTask.ts"], [("validation", "processCoordinate/parseGPSLocation"), ("suppression", "ReadTask.#parseTag")], "tags returned by read")
p("C16", "No metadata value makes a read fail, and none is silently dropped",
  "Once ExifTool's output has been parsed, a read resolves whatever the tag values are, and a failure while interpreting one tag (or in the caller's time-zone callback) leaves that tag's raw value in the result with a warning. Every tag in the output is present in the result, except null-like values (null, blank, or the texts null, undef and undefined), suppressed GPS tags, and names under which the library reports its own findings (errors, warnings, zone, tz, tzSource, invalidUtf8Bytes).",
  ["inputs", "fault_sequences"], "for every tag name and value, and every failure of the interpretation step",
  "Fixtures contain a tiny part of the possible tag/value space.",
  ["src/ReadTask.ts"], [("per-tag containment", "ReadTask.#parseTag"), ("assembly", "ReadTask.#parseTags")], "tags returned by read")
p("C17", "Date, time and binary values survive a JSON round trip",
  "For each rich value type the library returns, every field of the value is written to JSON, and reading that JSON back with the library's parser restores each field into the same field of the same type. Unrecognised type markers are left as plain data.",
  ["inputs"], "for every value of every serialisable type and every JSON text",
  "Tests round-trip a few values and cannot show that each field is carried for all.",
  ["src/JSON.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/BinaryField.ts"],
  [("writer", "toJSON"), ("reader", "fromJSON/parseJSON")], "parsed values")
p("C18", "Names from files or callers never resolve to or alter built-in object members",
  "A tag name, language, type marker or structure key that happens to equal a built-in member name (such as constructor, toString or __proto__) is treated as ordinary data: lookups by it find nothing that was not stored, and storing it never changes an object's prototype.",
  ["inputs"], "for every name that can come from a file or a caller",
  "Tests do not try built-in member names at each lookup.",
  ["src/JSON.ts", "src/TagDescriptions.ts", "src/ReadTask.ts", "src/InvalidUtf8Bytes.ts"],
  [("revivers", "parseJSON"), ("description lookup", "TagDescriptions.get"), ("struct copy", "ReadTask.#parseTag")], "returned values")
p("C19", "Malformed-text recovery is decoded exactly when it was requested",
  "Read commands ask ExifTool to wrap malformed text unless the caller installed a filter of their own; wrapped values are decoded exactly when the request asked for wrapping, otherwise output is passed through untouched. The wrapper produced by the filter sent to ExifTool and the one recognised in its output have the same marker, field names and prefixes.",
  ["inputs", "configurations"], "for every set of extra read arguments and every output",
  "Tests run a couple of malformed files.",
  ["src/Utf8JsonFilter.ts", "src/InvalidUtf8Bytes.ts", "src/ReadTask.ts", "src/ReadRawTask.ts"],
  [("filter", "utf8JsonFilterArgs"), ("decoder", "unwrapInvalidUtf8Tags")], "read commands and results")
p("C20", "Caller-supplied arguments and shared defaults are never modified",
  "No call modifies an object or array that the caller passed in (tags, options, argument lists, edits), nor any shared default option value, so reusing them in another call behaves as if they had never been used.",
  ["inputs", "histories"], "for every operation, argument shape and sequence of calls",
  "Tests use fresh literals and do not compare their inputs afterwards.",
  ["src/WriteTask.ts", "src/ReadTask.ts", "src/ExifTool.ts", "src/ExifDateTime.ts", "src/DefaultExifToolOptions.ts"],
  [("argument handling", "all public operations")], "caller-owned objects")
p("C21", "Call options override instance options, which override defaults",
  "For every option an operation honours, the value used is the one given with the call if present, otherwise the one given when the instance was created, otherwise the documented default. Options of one call or instance never influence another.",
  ["configurations", "histories"], "for every option of every operation and every presence combination",
  "Tests set single options at one level.",
  ["src/ExifTool.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/WriteTask.ts", "src/BinaryExtractionTask.ts"],
  [("option merging", "ExifTool methods")], "effect on commands")
p("C22", "Global setting changes take effect immediately and reset restores defaults",
  "After a global setting is changed or reset, every later call behaves according to the new value: nothing computed under the old value is reused. Listeners are told the old and the new value exactly when the value changes.",
  ["histories"], "for every sequence of setting changes and calls",
  "Tests flip a setting once around a single call.",
  ["src/Settings.ts", "src/Timezones.ts"], [("change notification", "Setting"), ("cache invalidation", "clearOffsetCaches")], "time-zone validation results")
p("C23", "The internal no-zone marker never surfaces as a time zone",
  "A date or time whose zone is unknown has no zone, no offset and prints without an offset; the internal placeholder used while parsing is never reported as a zone name or offset.",
  ["inputs"], "for every date/time construction path",
  "Tests check a few parses.",
  ["src/ExifDateTime.ts", "src/ExifTime.ts", "src/Timezones.ts", "src/TimeParsing.ts"], [("sentinel filtering", "fromDateTime/getZoneName")], "zone fields of returned values")
p("C24", "A parsed date keeps exactly the time and the offset that were written",
  "Parsing an EXIF or ISO datestamp, a time, or a possibly partial date yields exactly the written fields and sub-seconds and keeps the raw text; a written offset (in any accepted spelling) is the value's zone and not marked inferred; without one the given default zone is used and marked inferred, or there is no zone. The epoch is wall clock minus offset, and printing the value (EXIF or ISO form) and parsing that text gives the same value, whatever the system's time zone. A date's Date is the start of its day, month or year. Texts that are not dates give no value.",
  ["inputs", "configurations"], "for every accepted datestamp shape, sub-second form, offset in use and offset spelling, with and without default zone",
  "Tests parse a few dozen samples; a mishandled offset or fraction shows only for particular texts.",
  ["src/ExifDateTime.ts", "src/ExifTime.ts", "src/ExifDate.ts", "src/TimeParsing.ts", "src/Timezones.ts", "src/DateTime.ts"], [("parsing", "ExifDateTime.from*, ExifTime.fromEXIF, ExifDate.from*"), ("printing", "toISOString/toExifString")], "fields and prints of parsed values")
p("C25", "Disposing an instance always starts shutdown and cleans up after itself",
  "Disposing a live instance synchronously requests a graceful end, arranges a forceful cleanup if that takes too long, cancels that timer when the end settles and never throws; disposing asynchronously also falls back to a forceful end on timeout, clears its timer on every outcome and reports any failure of the shutdown by rejecting. Disposing an ended instance does nothing. end() and closeChildProcesses() pass the caller's request on to the process pool and report its outcome.",
  ["schedules", "fault_sequences"], "for every order of completion, timeout and failure",
  "Tests cover the fast, successful path.",
  ["src/ExifTool.ts"], [("sync disposal", "Symbol.dispose"), ("async disposal", "Symbol.asyncDispose")], "pool shutdown calls and timers")
p("C26", "Child processes are started without a shell, attached, with a fixed locale",
  "A process factory given by the caller is used as is. Otherwise ExifTool is started directly (no shell), attached to the parent with piped standard streams, with the configured arguments (stay-open mode by default), from the configured path (text, promise or function) or else from the vendored package (unpacked from an archive when there is one), else from PATH; its environment is the caller's entries with LANG=C whatever they say, plus EXIFTOOL_HOME from this process unless the caller sets it. The interpreter check, when enabled, precedes every submission: if it fails the call rejects and nothing is submitted.",
  ["configurations"], "for every option combination and environment",
  "Tests run one environment.",
  ["src/ExifTool.ts", "src/DefaultExiftoolArgs.ts"], [("process factory", "ExifTool constructor"), ("perl check", "ExifTool.enqueueTask")], "spawn calls")
p("C27", "Tag description lookup survives any cache or storage failure",
  "Looking up tag descriptions never fails because the on-disk cache is missing, unreadable, corrupt or unwritable. The answer is the built-in description (English), else what a well-formed cache of this ExifTool version and language says, else the text ExifTool lists for that tag and language with its character references decoded, else nothing. A cache written for another version or language is never used; a stored cache gives the next instance the same answers; with the disk cache disabled storage is not touched, and all accesses stay in the cache directory.",
  ["fault_sequences", "histories"], "for every storage failure and every cached content",
  "Tests use a healthy temp directory.",
  ["src/TagDescriptions.ts"], [("cache read/write", "TagDescriptions")], "lookup results and file accesses")
p("C28", "No input text makes any of the library's patterns take exponential time",
  "No regular expression the library applies to file metadata, ExifTool output or caller text contains an ambiguous repetition that takes time exponential in the length of some crafted text.",
  ["inputs"], "for every input string matched against any pattern in the library",
  "Timing tests on sample strings cannot show the absence of a crafted worst case.",
  ["src/*.ts"], [("patterns", "all regular expression literals and constructions")], "matching time")
p("C37", "The process pool runs with exactly the configured limits and protocol",
  "Every instance has its own single process pool, created with exactly the value the caller gave for each pool option (process count, tasks per process, failed tasks per process, timeouts, intervals, health check, protocol texts) and the documented default for each option not given (by default at least one process and no more than there are CPUs); the instance's counters, process ids, listeners and ended state are those of that pool; version() answers the version ExifTool printed; standard error text of a running command is kept for its task unless it reports a broken Perl installation, which fails the task at once.",
  ["inputs", "configurations"], "for every combination and value of the pool options, every instance and every listener",
  "Tests construct a handful of configurations, mostly with defaults.",
  ["src/ExifTool.ts", "src/DefaultExifToolOptions.ts", "src/DefaultMaxProcs.ts", "src/ExifToolTask.ts", "src/VersionTask.ts"], [("pool", "new bc.BatchCluster(this.options)"), ("accessors", "pids, pendingTasks, spawnedProcs, busyProcs, childEndCounts, ended, on, off")], "options of the pool, values of the accessors")
p("C38", "Each metadata value is reported as the kind of value its tag calls for",
  "read() reports every value of a tag whose name does not speak of a date, a time or validity exactly as ExifTool printed it (text, number, boolean, list, structure), whatever the value looks like; a complete date and time under a date or time name becomes a date-time, a day under a date name a date, a time of day under a time name a time, with exactly the written fields and the original text; a binary placeholder becomes a binary field with exactly that size; a yes/no text under a validity name becomes that boolean; any other text stays that text. The same holds inside lists and structures and with group prefixes.",
  ["inputs"], "for every tag name and every value of every type",
  "Tests sample a few files; names and values are unbounded.",
  ["src/ReadTask.ts", "src/BinaryField.ts", "src/Boolean.ts"], [("values", "ReadTask#parseTag")], "values of the returned tags")
p("C39", "Each modification carries exactly the caller's changes",
  "write() sends one assignment per tag of the request, in the request's order, and no other, except that a numeric or cleared latitude, longitude or altitude brings its reference along (the same number, or cleared) unless the request gives the reference itself, and two numeric coordinates bring their position; a date or time value, alone or inside lists and structures, is sent as its own fields, sub-seconds and offset (a luxon value to the second); editTags() sends one edit per requested edit in order and refuses a request that removes what it added before; deleteAllTags() clears everything and copies back exactly the retained tags; rewriteAllTags() copies everything back, repairing maker notes only on request; read() asks numerically for exactly the configured tags, before asking for all.",
  ["inputs"], "for every request: any number, order and kinds of tags, edits and retained tags",
  "Tests write a few tags; requests are unbounded, and a dropped or additional assignment silently changes the file.",
  ["src/WriteTask.ts", "src/TagEdit.ts", "src/DeleteAllTagsArgs.ts", "src/RewriteAllTagsTask.ts", "src/ReadTask.ts", "src/DateTime.ts"], [("changes", "WriteTask.for/forTagEdits"), ("conflicts", "validateTagEdits")], "the assignments of the submitted command")
p("C40", "A coordinate text is reported as the position it denotes, or not at all",
  "For every coordinate or position text in a supported notation (decimal, degrees and minutes, degrees, minutes and seconds; hemisphere by sign, letter or reference tag; position in either order) read() reports the latitude and longitude it denotes, to six decimals and in the right hemisphere. Texts with minutes or seconds of 60 and more, degrees out of range or trailing text are never turned into a number. A missing or unreadable coordinate is taken from the position text, a readable one is not.",
  ["inputs"], "for every notation, magnitude and hemisphere",
  "Tests sample a few texts; a lost sign or fraction moves a picture to another place without any error.",
  ["src/CoordinateParser.ts", "src/GPS.ts", "src/ReadTask.ts"], [("texts", "parseCoordinate(s)"), ("hemispheres", "processCoordinate")], "GPSLatitude and GPSLongitude of the returned tags")
p("C41", "Extracted or rewritten data goes to exactly the requested file",
  "extractBinaryTag(), extractThumbnail(), extractPreview(), extractJpgFromRaw() and rewriteAllTags() make ExifTool write to exactly the requested destination, whatever characters its name contains (ExifTool expands percent codes in names of output files), read exactly the requested source and extract exactly the requested tag; the only directory created is the destination's. A destination that ExifTool cannot be made to write to is refused before anything is created. The call resolves when ExifTool confirms the one output file. extractBinaryTagToBuffer() asks for the bytes of exactly the requested tag of exactly the requested source as a JSON document, and for no file.",
  ["inputs"], "for every destination and source name and every option",
  "Tests extract to a few plain names; with a name like 50%f.jpg the data silently went to another file.",
  ["src/BinaryExtractionTask.ts", "src/RewriteAllTagsTask.ts", "src/File.ts", "src/ExifTool.ts"], [("names", "outputFileArg"), ("commands", "BinaryExtractionTask.for, RewriteAllTagsTask.for")], "output argument of the submitted command, directories created")
p("C42", "Read arguments are passed on in full; raw reads return ExifTool's document",
  "read() and readRaw() send the arguments the caller gave (positionally, else in the call's options, else in the instance's, else the default), all of them, unchanged and in order, before the file, and none of the ones not in force. readRaw() resolves to the document ExifTool printed: every tag, list and structure with exactly its value whatever it looks like (dates, coordinates, placeholders, nulls), and nothing else but errors, warnings and notes on malformed text.",
  ["inputs", "configurations"], "for every argument list, way of giving it, and document",
  "Tests read a few files with a few arguments.",
  ["src/ExifTool.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/InvalidUtf8Bytes.ts"], [("arguments", "ExifTool.read/readRaw"), ("documents", "ReadRawTask.parse")], "submitted command; result of readRaw()")
p("C30", "ExifTool never runs more processes or tasks than configured",
  "At no time are more child processes alive than the configured maximum, each serves at most the configured number of tasks, and once an instance has ended no child remains.",
  ["schedules", "histories"], "for every workload and every interleaving",
  "Needs every interleaving of process events.",
  ["src/ExifTool.ts", "src/DefaultExifToolOptions.ts"], [("pool", "batch-cluster (third party)")], "process table")
p("C31", "Inferred time zones and parsed instants are the right ones",
  "For every file, the zone inferred from its tags, position and datestamps is the zone the picture was taken in, and each parsed date/time denotes the instant the text denotes.",
  ["inputs"], "for every tag combination and datestamp text",
  "The space of datestamps and tag combinations is unbounded.",
  ["src/Timezones.ts", "src/ExifDateTime.ts", "src/TimeParsing.ts"], [("inference", "extractTzOffset*")], "zone and date fields")
p("C32", "What is written can be read back",
  "After a successful write, reading the file returns the written value for every tag and value ExifTool supports.",
  ["inputs", "histories"], "for every file, tag and value",
  "Tests write and read a few tags.",
  ["src/WriteTask.ts", "src/ReadTask.ts"], [("round trip", "write/read through ExifTool")], "file content")
p("C33", "Requests finish or time out",
  "Every request settles within the configured task timeout times the permitted attempts, whatever the child process does.",
  ["schedules", "fault_sequences"], "for every child behaviour", "Needs unbounded time and every child behaviour.",
  ["src/ExifTool.ts"], [("timeouts", "batch-cluster (third party)")], "promise settlement time")
p("C34", "Date and time values are immutable and derive new values faithfully",
  "Operations on a date or time value never change it. Changing the zone returns a new value in that zone denoting the same instant if the original had a zone, and the same wall clock if it had none or if asked to keep local time, marked inferred unless told otherwise; adding a duration shifts the time by exactly that and keeps the zone (or its absence). Both keep the raw text and whether there are sub-seconds. A value restored from its JSON form is indistinguishable from the original.",
  ["inputs", "histories"], "for every value and every operation on it",
  "Tests exercise a few conversions.",
  ["src/ExifDateTime.ts", "src/ExifTime.ts", "src/ExifDate.ts", "src/TimeParsing.ts"], [("derivation", "setZone/plus/toJSON/fromJSON")], "returned and original values")
p("C35", "Every spelling of a zone offset means the same zone in every helper",
  "For every offset in use (and every archaic one when enabled) all accepted spellings - ISO extended and basic, hour only, UTC-prefixed, Unicode minus, minutes as a number, zone object - give the same zone name, short offset and minutes in all exported helpers, also at the end of a datestamp, and convert back into each other; an unambiguous zone abbreviation (PST, CEST, JST, ...) after a datestamp means its fixed offset, an ambiguous one none; values that are no offset are rejected by all. An offset inferred from a local and a UTC time is the nearest offset in use within the tolerance, whatever day boundary lies between, and explicit offset tags are taken exactly, in their documented order.",
  ["inputs"], "for every offset, spelling, datestamp pair and clock drift",
  "Tests sample some offsets and spellings.",
  ["src/Timezones.ts"], [("zone helpers", "normalizeZone, extractZone, zoneToShortOffset, offsetMinutesToZoneName, parseTimezoneOffsetToMinutes, equivalentZones, inferLikelyOffsetMinutes"), ("inference", "extractTzOffsetFromTags, extractTzOffsetFromUTCOffset")], "returned zones")
p("C36", "A file's reported zone comes from its most trusted source and its dates agree",
  "read() reports the zone (and names its source) from the first of: the place, when GPS is preferred; an explicit offset tag (with the Nikon daylight saving correction); the place; a datestamp with a non-UTC offset, when enabled; UTC for videos, when enabled; the difference between local and UTC times; the TimeStamp tag, when enabled. A datestamp with its own offset keeps wall clock and offset and is not marked inferred; GPS and UTC tags are in UTC; any other datestamp keeps its wall clock and gets the reported zone marked inferred if backfilling is on and no zone otherwise, except in videos taken as UTC, where it denotes that UTC instant. A failing place lookup falls through to the next source. Options count the same given per instance or per call, with or without group prefixes.",
  ["inputs", "configurations"], "for every combination of zone evidence in a file and every setting of the governing options",
  "Tests cover individual sources, rarely their combinations with options.",
  ["src/ReadTask.ts", "src/Timezones.ts", "src/DefaultExifToolOptions.ts"], [("order of trust", "ReadTask zone inference"), ("dates", "ReadTask tag parsing")], "zone, tz, tzSource and date tags of read()")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
