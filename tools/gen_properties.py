import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":m.strip(),"where":", ".join(files[:3])} for m in mech.split(";")]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ROOT=["phonenumberutil.go","phonenumbermatcher.go","shortnumberinfo.go","enums.go"]
p("C01","Public operations never panic",
 "Parsing, validating, classifying, formatting, comparing and searching for phone numbers, and looking up short-number, carrier, location and time-zone information, return normally for every text, region code, language, format, type, leniency and number message; they never fail with an index, slice, nil-dereference, division or pattern-compilation panic. Not covered: as-you-type formatting, a nil message given as the destination of a parse, and formatting rules supplied by the caller.",
 ["inputs"],"every value of every parameter of every exported function of the main, carrier, geocoding and timezone packages",
 "The tests feed a few thousand well-formed numbers; an out-of-range slice needs an odd combination such as an empty candidate, a missing country code or a zero number with a raw text.",
 ROOT+["internal/stringbuilder/stringbuilder.go","internal/prefixmapper/prefixmapper.go","carrier/carrier.go","geocoding/geocoding.go","timezone/timezone.go"],
 "guards before each slice, index and dereference; regular expressions only from constants and embedded metadata")
p("C02","Concurrent use is free of data races",
 "Any number of goroutines may call the library's functions at the same time, each with its own arguments, without a data race: state that calls share is either never written after package initialisation, or every access to it is ordered by the same lock or one-time initialisation. Locks taken by a call are released before it returns, and no call waits for a lock it already holds. Replacing the active metadata (the test-only override) is excluded.",
 ["schedules"],"all interleavings of calls to exported functions after package initialisation",
 "Tests run single-threaded and without the race detector; a race needs two calls overlapping on a cold cache.",
 ["internal/regexcache/regexcache.go","internal/prefixmapper/prefixmapper.go","timezone/timezone.go","alternateformats.go","metadata/source.go","shortnumberinfo.go"],
 "RWMutex around the regex cache, Mutex around the language cache, sync.Once for lazily loaded tables, everything else built during init",
 [("compiled pattern cache","map from pattern text to compiled pattern, filled on demand"),("language tables","prefix tables per language, loaded on demand"),("lazily loaded tables","time zones and alternate formats, loaded once")])
p("C03","Callers' arguments are not modified",
 "No function changes a number message, formatting rule, slice or other object the caller passes in, nor anything reachable from it, except where changing it is the documented purpose: the destination of a parse, the number being truncated, and the as-you-type formatter itself.",
 ["inputs"],"all arguments of all exported functions of the main, carrier, geocoding and timezone packages, on all paths",
 "Tests compare results, not whether the argument was changed on the way; a scratch change that is undone or only happens for numbers with an extension goes unnoticed.",
 ROOT+["carrier/carrier.go","geocoding/geocoding.go","timezone/timezone.go"],
 "functions that need a variant of a number work on a merged copy")
p("C04","Results do not share memory with the library",
 "What a function of the main, carrier, geocoding or timezone package returns or hands to a callback never shares mutable memory with the library's own tables, and the library keeps no reference to mutable memory the caller passed in: changing a result or an argument afterwards cannot affect any later call.",
 ["histories"],"all sequences of calls in which the caller modifies results and arguments between calls",
 "Tests do not modify what they get back and then call again.",
 ["phonenumberutil.go","phonemetadata.go","shortnumberinfo.go","timezone/timezone.go","phonenumbermatch.go"],
 "listings and metadata collections are cloned before they are returned; number messages are freshly built")
p("C05","A call's answer does not depend on earlier calls",
 "Apart from caches that only remember, for each key, the value that key determines by itself, no call leaves behind state that another call can observe: the metadata and lookup tables loaded at start-up are never changed afterwards, so the same call gives the same answer at any point in the life of the process.",
 ["histories"],"all sequences of calls before a given call",
 "Tests run each call in one fixed history; state leaking from one call to the next shows only for particular pairs of calls.",
 ["phonenumberutil.go","shortnumberinfo.go","metadata/source.go","metadata/metadata_util.go","internal/regexcache/regexcache.go","internal/prefixmapper/prefixmapper.go","alternateformats.go","timezone/timezone.go"],
 "shared tables are written only while being built; caches store a pure function of their key",
 [("metadata tables","per-region and per-calling-code metadata, immutable after initialisation")])
p("C06","Results are deterministic",
 "The same call with equal arguments gives the same result in every run: no result depends on map iteration order, the clock, random numbers, goroutine scheduling, addresses or the environment. The same holds for the bytes the metadata build tool writes for given upstream sources.",
 ["inputs","schedules"],"all calls of exported functions and all runs of the metadata builder on equal inputs, over all map iteration orders",
 "A test sees one or a few iteration orders per run, and an order-dependent result can agree with the expected one most of the time.",
 ["phonenumberutil.go","metadata/source.go","internal/metadatabuilder/metadatabuilder.go","cmd/buildmetadata/main.go"],
 "candidates are examined in slice order; map iterations only fill maps and sets or are sorted before use")
p("C07","The library has no side effects outside itself",
 "Using the library performs no file, network, process, console, logging, environment or clock access and starts no goroutines: everything it knows is embedded in the program.",
 ["inputs"],"all code reachable from the exported functions and initialisers of the library packages",
 "Tests do not observe what else a call does.",
 ["phonenumberutil.go","metadata/source.go","internal/serialize/serialize.go","internal/prefixmapper/prefixmapper.go"],
 "go:embed data, no imports of os, net, log or time in library packages")
p("C08","Caller text is never interpreted as pattern or template syntax",
 "Numbers, texts, region codes, languages and carrier codes passed in by the caller are only ever matched against patterns or inserted literally; they never become part of a regular expression or of a replacement template, whatever characters they contain. Only formatting rules the caller explicitly supplies as rules are interpreted.",
 ["inputs"],"all caller-supplied strings, directly or through fields of number messages",
 "Tests pass digits and ordinary punctuation; meta-characters such as $ and ( in the wrong place are needed.",
 ["phonenumberutil.go","internal/regexcache/regexcache.go","internal/regexbasedmatcher/regexbasedmatcher.go","asyoutypeformatter.go"],
 "patterns are built from constants and metadata fields; carrier codes are escaped before they are put into a rule")
p("C09","Valid and typed only on a complete match",
 "A number is reported valid, or as being of a type, only if its whole national significant number matches, from first to last digit, both the general pattern and the pattern of that type in one and the same region's metadata, with a length listed for both wherever lengths are listed. It is reported valid for a given region only if moreover that metadata is the region's own and the calling codes agree, or the region is the non-geographical one and the metadata is that of the number's calling code. When a number is formatted, a formatting rule is applied only if the rule's whole pattern matches the whole national number.",
 ["inputs","configurations"],"all numbers and all regions' metadata",
 "Tests sample a few numbers per region; a missing anchor or length test shows only for numbers that match one part of a pattern.",
 ["phonenumberutil.go","internal/regexbasedmatcher/regexbasedmatcher.go"],
 "anchored patterns, length lists, and one test per type descriptor in the type classification")
p("C10","Short-number answers are confined to the region's data",
 "A number is reported as a valid, possible, carrier-specific or SMS short number for a region, or given a known cost there, only if its calling code belongs to that region and its number has a listed length and completely matches the corresponding pattern of that region's short-number metadata. An emergency number is recognised only when the text carries no international prefix sign, and whatever is an emergency number also connects to one.",
 ["inputs","configurations"],"all numbers, texts and region codes",
 "Tests sample few regions; dropping one of several conjoined conditions shows only for a number that meets all the others.",
 ["shortnumberinfo.go","internal/regexbasedmatcher/regexbasedmatcher.go","metadata/metadata_util.go"],
 "region-match guard, metadata lookup, length and pattern checks before each positive answer")
p("C11","Parsing into a reused message leaves nothing behind",
 "Parsing into an existing number message gives the same message as parsing into a new one: no field of what the message held before survives a successful parse.",
 ["histories"],"all previous contents of the destination message and all texts",
 "Tests parse into new messages only.",
 ["phonenumberutil.go"],
 "the destination is reset before any field is set")
p("C12","A parse either reports a documented error or yields a sane number",
 "Every error a parse returns is one of the package's documented error values, and on success the calling code and national number have been set and the national significant number has 2 to 17 digits. Functions that parse internally never use the number of a parse that failed.",
 ["inputs"],"all texts and region codes, all paths through parsing and all internal uses of parsing",
 "Tests check a few dozen malformed texts; a path that skips a length check or falls through after an error needs a specific malformed text.",
 ["phonenumberutil.go","errors.go","phonenumbermatcher.go","geocoding/geocoding.go"],
 "sentinel errors returned before the message is completed; length checks on the number that is finally stored")
p("C13","Work and memory are bounded for hostile input",
 "A text over 250 bytes is rejected before any pattern is matched against it by parsing; the space a call allocates is bounded by the lengths of its inputs, whatever counts a number message claims; and no input can make the library's own caches grow beyond a fixed set of entries determined by the embedded data, caller-supplied formatting rules aside.",
 ["inputs","histories"],"all texts, number messages and language codes, and all sequences of calls",
 "Tests do not measure growth and use short, well-formed inputs.",
 ["phonenumberutil.go","internal/regexcache/regexcache.go","internal/prefixmapper/prefixmapper.go"],
 "length check first in parsing, clamp on the leading-zero count, caches filled only with keys from embedded data")
p("C14","Every operation terminates",
 "Every loop in the library makes progress on a bounded quantity and recursion cannot repeat, so each operation finishes for every input, however the caller's text, numbers and messages are chosen.",
 ["inputs"],"all loops and call cycles reachable from exported functions",
 "A non-terminating loop needs an input that stops the progress, and tests that pass never met one.",
 ["phonenumberutil.go","phonenumbermatcher.go","asyoutypeformatter.go","internal/prefixmapper/prefixmapper.go","timezone/timezone.go","internal/stringbuilder/stringbuilder.go","internal/serialize/serialize.go"],
 "range loops, counters towards a fixed limit, division towards zero, try budget in the text search")
p("C15","A cleared as-you-type formatter behaves like a new one",
 "After being cleared, an as-you-type formatter is in the same state as one newly created for the same region, whatever was typed before, so it formats the next number identically.",
 ["histories"],"all sequences of typed characters before the formatter is cleared",
 "Tests clear after a few particular inputs; leftover state matters only for particular before/after pairs.",
 ["asyoutypeformatter.go"],
 "clearing assigns every field that typing can change",
 [("formatter fields","accrued input, template, extracted prefixes, flags and positions")])
p("C16","Matches found in text are exact, in-bounds, ordered and disjoint",
 "For every match found in a text, its start and end lie within the text, the text between them is exactly the match's raw string, and each further match starts at or after the end of the previous one.",
 ["inputs"],"all texts, regions, leniencies and try limits",
 "Tests check positions for a fixed set of texts; an offset error shows only for inner matches or after multi-byte text.",
 ["phonenumbermatcher.go","phonenumbermatch.go","phonenumberutil.go"],
 "candidates are slices of the text carried together with their offset; the search resumes at the end of the last match")
p("C17","Stricter search levels keep the guarantees of looser ones",
 "A text candidate accepted at the valid level or any stricter one is a valid number, has only meaningful x characters, carries a national prefix where one is required and is not glued to Latin letters or currency signs (unless, in front, it starts with an opening bracket or plus sign); one accepted at a grouping level additionally has no stray slash in the national number. Every level only ever accepts candidates that parsed successfully.",
 ["inputs"],"all candidates, numbers and leniency levels",
 "Tests cover a table of sample texts per level; dropping one check for one level shows only for a text that meets all the others.",
 ["enums.go","phonenumbermatcher.go"],
 "conjunction of checks per level, and the character checks around the candidate")
p("C18","Carrier, location and time-zone answers are given only where meaningful",
 "A carrier name is given for a number only if its type is mobile, fixed-line-or-mobile or pager, and a displayable carrier name only if the number's region does not have mobile number portability. A location or time zone finer than the country is given only for numbers that are geographical (the variants documented to take the caller's word for that aside), where the user's region is given only to users of the number's own region, and an invalid number gets no location and the unknown time zone.",
 ["inputs"],"all numbers, languages and user regions",
 "Tests sample a handful of numbers per function.",
 ["carrier/carrier.go","geocoding/geocoding.go","timezone/timezone.go"],
 "type and region guards in front of the prefix lookups")
p("C19","Original-format output never changes the dialled digits",
 "Formatting a number in its original format either returns the raw text it was parsed from or a text with exactly the same diallable characters, whenever the number carries its raw text and how its calling code was found.",
 ["inputs"],"all numbers that carry raw text and calling-code source, and all calling regions",
 "Tests sample a few dozen numbers; a changed digit needs a region whose formatting rule adds or drops one.",
 ["phonenumberutil.go"],
 "final comparison of normalised output and raw input before returning")
p("C20","Normalised output uses only its documented alphabet",
 "Digit normalisation yields only ASCII digits, diallable-character normalisation only ASCII digits and + * #, and the national significant number of any number only ASCII digits; keypad conversion leaves no ASCII letter. The E.164 form is a plus sign followed by nothing but digits for every number with a non-negative calling code that is not an all-zero number formatted as its raw text.",
 ["inputs"],"all texts in any script and all number messages",
 "Tests use a few digits of a few scripts; there are over sixty digit ranges and a million code points.",
 ["phonenumberutil.go","internal/character/character.go","internal/stringbuilder/stringbuilder.go"],
 "every character written comes from a digit mapping or an integer conversion")
p("C21","Packed tables are written and read by the same layout, without loss",
 "The build tool and the library agree on the layout of the packed prefix, region and time-zone tables, field by field in order, width and byte order, and the build tool reports an error rather than write a value that does not fit its field.",
 ["configurations","inputs"],"all tables the build tool can be given",
 "No test runs the build tool, and the committed tables exercise only today's sizes.",
 ["cmd/buildmetadata/main.go","internal/serialize/serialize.go"],
 "sequence of fixed-width little-endian writes and reads; range checks before narrowing")
p("C22","Embedded metadata is usable by the code that interprets it",
 "Every pattern in the embedded metadata compiles in every form in which the library uses it, every formatting rule refers only to groups its pattern has, every region and calling code listed has metadata with the parts the library relies on, and the listed possible lengths are well-formed.",
 ["configurations"],"all regions, calling codes, descriptors and formatting rules in the embedded data, in all templates the code wraps around them",
 "Patterns are compiled on first use, so a bad one shows only when its region and rule are reached.",
 ["metadata/data","data","phonenumberutil.go","asyoutypeformatter.go","internal/regexbasedmatcher/regexbasedmatcher.go"],
 "patterns wrapped by constant prefixes and suffixes at each use")
p("C30","Parsing what was formatted gives back the number",
 "Parsing the international form of a valid number, or its national form with its own region, yields the same number.",
 ["inputs"],"all valid numbers of all regions",
 "Tests round-trip example numbers only.",
 ["phonenumberutil.go"],"formatting rules and prefix stripping are inverse to each other by metadata design")
p("C31","Results agree with the upstream library",
 "For every input, results equal those of the upstream library of the same metadata version.",
 ["inputs"],"all inputs","Ported tests cover what upstream's tests cover.",["SYNC.md","phonenumberutil.go"],"line-by-line port")
p("C32","As-you-type output preserves the digits typed and never panics",
 "The digits of the as-you-type output are those typed so far, in order, and typing any character never panics.",
 ["histories","inputs"],"all sequences of characters","Tests type a few dozen numbers.",["asyoutypeformatter.go"],"template filling with a digit comparison")
p("C33","Number matching is symmetric",
 "Comparing two numbers gives the same answer in either order.",
 ["inputs"],"all pairs of numbers and texts","Tests check fixed pairs.",["phonenumberutil.go"],"both orders are tried for suffixes and missing calling codes")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
