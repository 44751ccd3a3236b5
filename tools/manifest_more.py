c("C08","static string-provenance analysis over SSA: caller text reaching pattern or template arguments",
  "Decided for all inputs: the provenance tree of the pattern and template argument of every regular-expression use is closed over callers; a caller string may only appear escaped. Trusted: the models of string functions in checker/prov.go; unmodelled functions count as tainted if an argument is.")
c("C11","static must-definedness dataflow over SSA: destination fields redefined or reset on every successful path",
  "Decided for all previous contents and all paths to a nil error. Trusted: models of proto.Reset and the field-wise setters.")
c("C15","static abstract interpretation over SSA of the formatter's fields: state after clearing against state after construction",
  "Decided for all histories: the post-state of clearing, from an arbitrary state, must equal the constructor's post-state field by field, except for fields proved history-independent.")
c("C22","static decoding of the embedded metadata together with analysis of the code that builds patterns from it",
  "Every embedded blob is decoded from the source tree and every pattern is checked, in each wrapping that the library's source applies to it (found by provenance analysis). Trusted: the protobuf schema and Go's regexp syntax package.")
c("C09","static path-sensitive fact analysis over SSA: conditions established on every path to a positive answer",
  "Decided for all numbers and all metadata: for every way an exported function can return a type or validity, the facts established on that path (branch conditions, callee summaries, memory resolved through stores) must contain the whole-pattern matches and the length tests against one and the same metadata table entry; the same for the pattern of a formatting rule at every application. Trusted: that ^(?:P)$ matches exactly the texts P matches entirely (Go's $ without (?m) matches only at the end), and the term models in checker/terms.go.")
c("C10","static path-sensitive fact analysis over SSA: conditions established on every path to a positive short-number answer",
  "Decided for all numbers, texts, regions and metadata: every way to a positive answer of the short-number functions must establish, for one entry of the short-number table, that the region shares the calling code, the whole-pattern match of the corresponding description and the length tests; every way to 'emergency' must contradict every way to 'does not connect'. GetExpectedCost is decided for PREMIUM_RATE only (the other costs fold over regions); IsValidShortNumber over several regions needs the ShortCode description only, as documented upstream.")
c("C18","static path-sensitive fact analysis over SSA: guards established on every path to an answer from the prefix tables",
  "Decided for all numbers, languages and regions: every way a carrier, location or time-zone function can answer from a prefix table must establish the allowed number types, contradict portability of the number's region, or contradict the number not being geographical; unknown types must give the empty or unknown answer. The number type and region functions are taken as they are here (C09 covers them). The ...ForValidNumber and ...ForGeographicalNumber variants trust the caller, as documented, and are not constrained, except that the user-region variant names a place only to users of the number's own region.")
c("C17","static path-sensitive fact analysis over SSA: conditions established on every path on which a search level accepts a candidate",
  "Decided for all texts, candidates and numbers: per level, every way Leniency.Verify can accept must establish the checks of that level; every way a match is made must establish a successful parse of the candidate into the match's number, acceptance by the level, and clean neighbouring characters; the national-prefix check may pass only for its known reasons; the slash and x checks are decided when written with the usual string functions or a loop over positions (otherwise the evidence says 'left open'). The grouping comparisons themselves are not judged.")
c("C12","static analysis over SSA: error-value provenance, must-set dataflow of message fields, path-sensitive facts at stores and uses",
  "Decided for all texts and regions: the sources of every error result are closed over callees; calling code and national number must be set on every nil-error path; the text stored as national number must be established as 2..17 bytes on every path; every internal use of a parsed number must be where its error is nil. Trusted: an empty text left for the calling-code step cannot yield two digits; that the text consists of digits is C20's matter. A national number computed other than by strconv is counted as left open.")
c("C19","static path-sensitive fact analysis over SSA: equality of diallable characters established on every return path",
  "Decided for all numbers and regions: under the assumption that the number has a raw text and a calling-code source, every way of returning must return the raw text itself or a text whose diallable characters were found equal to the raw text's. Trusted: formatting does not yield the empty text; NormalizeDiallableCharsOnly defines which characters are diallable.")
c("C01","static bounds and nil analysis over SSA: linear relations and path facts, induction over loops, calls and object fields",
  "Every operation that can panic and that a public operation may run is an obligation (about 550), and on this tree all but one are shown safe for all inputs (the open one, FormatInOriginalFormat dropping the plus of an international format, needs that formatting writes something). In a changed tree an obligation that cannot be shown is reported only when its failure is plain on some path: what is left speaks only of inputs and of functions of known meaning; otherwise the evidence lists it as left open. Excluded: as-you-type formatting, overflow of counts. Trusted: embedded tables are complete (C22), caller-supplied functions and destinations are non-nil, generated protobuf code.")
c("C16","static bounds analysis over SSA: offsets of substrings as linear terms, carried over calls and loops; order of searches by induction",
  "Decided for all texts, regions and levels: wherever a match is made its start, end and raw string are shown to be the part of the searched text they claim, the fields are never changed afterwards, every search finds nothing before the place it is given, and each search goes on at or after the end of the previous match. In a changed tree an obligation that cannot be shown is reported when what was cut from the text and what was added to the place plainly disagree, or when some start, length and resume position contradict the order; otherwise it is listed as left open. Trusted: counts of bytes do not overflow.")
c("C20","static abstract interpretation over SSA of the characters texts can hold: sets of ranges, narrowed by conditions, through calls, buffers and tables",
  "Decided for all texts and number messages: the set of characters each result can hold is computed from the source and must lie within the documented alphabet, for digit, diallable and keypad normalisation, the national significant number and the E.164 form (which must also begin with a plus sign). A character outside is reported when it comes from code followed exactly; where a change uses something not modelled the evidence says 'left open'. Trusted: the models of strconv, strings, bytes, fmt, utf8 and unicode functions in checker/chars_call.go, and the tables of the Go version the checker is built with.")
c("C14","static termination analysis over SSA: ranking quantities shown by a linear prover with loop invariants; rounds and calls that repeat found as fixpoints",
  "Decided for all inputs: every loop of the library (55) and every circle of calls must be shown to get nearer to its end in each round; one loop, the iterator over matches, is left open on this tree. In a changed tree a loop that cannot be shown to end is reported only when some way round it leaves everything its tests depend on as it was, and a circle of calls when it hands on what was received or something treated alike; otherwise the evidence lists it as left open. Trusted: functions of the standard library and of the caller return; counts do not overflow.")
c("C13","static flow and bounds analysis over SSA: texts followed to pattern matches, sizes and rounds shown by a linear prover, provenance of the keys of lasting maps",
  "Decided for all inputs and call sequences: every text handed on to parsing must be shown to have at most 250 bytes wherever a pattern is matched against something made of it; every size with which space is made and the rounds of every loop that adds to a text or list must be at most a constant beyond the lengths of what is at hand; and whatever is added to a map that outlives a call must have a key made of embedded data, or be added only where embedded data is established to exist for it. One loop, padding in stringbuilder, is left open on this tree. In a changed tree an obligation that cannot be shown is reported only when its failure is plain; otherwise the evidence lists it as left open. Excluded: formatting rules the caller supplies. Trusted: a pattern match costs time linear in its text; packed tables are the embedded ones.")
c("C21","static comparison of layouts over SSA: writer and reader turned into automata of fields and compared, meanings of fields by dataflow, narrowing by dominating conditions",
  "Decided for all tables: the fields written to each stream by the build tool and read from each by the library, in every order control flow allows and through helpers, are finite automata, which must be equal in pairs; fields met at the same place must mean the same to both sides (length, count of the rounds that follow, difference to the previous key, index into the texts, separator); every conversion to 8 or 16 bits in the tool must be of a value shown to fit. In a changed tree a step the analysis does not follow is listed as left open in the evidence and not reported. Trusted: gzip and encoding/binary; tables have fewer than 2^32 bytes and entries; no text holds the separator.")
