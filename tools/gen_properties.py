import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

TS=[("input_edge","IN seen by the previous call","src/timers.rs"),("start_time","clock reading when the current timing interval began","src/timers.rs"),("elapsed_time / output","the ET and Q the program reads","src/timers.rs")]
notimer="The timer tests need the ST compiler and are not run in this tree; where they run they step a handful of fixed 5 ms schedules, while the guarantee is about every sequence of calls, clock advances and preset changes."
p("T01","On-delay timer: Q only after IN has been true for more than PT",
  "After every call of an on-delay timer (TON and its TIME/LTIME names), Q is true exactly when IN has been true on every call since its rising edge and strictly more than the current PT has elapsed since that call. ET equals min(PT, time since that call) while IN is true and 0 while it is false, and any call with IN false restarts the measurement. This holds from a freshly zero-initialised instance onward.",
  ["histories","schedules"],"every sequence of calls with arbitrary IN and non-negative PT at arbitrary non-decreasing clock readings, from zeroed memory",notimer,
  ["src/timers.rs","iec61131-st/timers.st"],[("rising edge starts, low input resets","src/timers.rs TON"),("preset range test","src/timers.rs is_in_preset_range")],["TON","TON_TIME","TON_LTIME"],TS)
p("T02","Off-delay timer: Q is held until IN has been false for more than PT",
  "After every call of an off-delay timer (TOF and its TIME/LTIME names), Q is true exactly when IN is true, or IN has been true before and at most the current PT has elapsed since the call that saw it fall. ET is 0 on the calls that see an edge and min(PT, time since the fall) on later calls while IN stays false after a fall. A rising edge cancels a running off-delay; an instance whose IN was never true stays at Q false, ET 0.",
  ["histories","schedules"],"every sequence of calls with arbitrary IN and non-negative PT at arbitrary non-decreasing clock readings, from zeroed memory",notimer,
  ["src/timers.rs","iec61131-st/timers.st"],[("falling edge starts, rising edge resets","src/timers.rs TOF")],["TOF","TOF_TIME","TOF_LTIME"],TS)
p("T03","Pulse timer: each rising edge gives one pulse of length PT, never retriggered",
  "A pulse timer (TP and its TIME/LTIME names) answers a rising edge of IN seen while no pulse is running by a pulse: Q is true on that call and on every later call while at most the current PT has elapsed since it, whatever IN does meanwhile, and false after that. ET is min(PT, time since the edge) during the pulse and while IN stays true after it, and 0 otherwise. No call, including one with IN false on an idle instance, fails, and every rising edge after the end of a pulse starts a new one.",
  ["histories","schedules"],"every sequence of calls with arbitrary IN and non-negative PT at arbitrary non-decreasing clock readings, from zeroed memory",notimer,
  ["src/timers.rs","iec61131-st/timers.st"],[("rising edge starts when idle","src/timers.rs TP"),("reset after expiry","src/timers.rs TP")],["TP","TP_TIME","TP_LTIME"],TS)
p("T04","Timers measure real elapsed time on the production (monotonic) clock",
  "With the production clock, every timer's ET lies between the elapsed time that surely passed before the call and the elapsed time that had passed after it, capped at PT, and Q follows the same rule as with an ideal clock up to that uncertainty. ET never decreases while one timing interval continues with a fixed PT, and it never exceeds PT.",
  ["schedules","histories"],"every schedule of calls against the operating system's monotonic clock",
  "The repository only ever tests timers through its mock clock; no test runs the production clock path at all.",
  ["src/timers.rs"],[("Instant::now / elapsed","src/timers.rs")],["TON","TOF","TP"],TS)
cnt="Counter tests need the ST compiler and are not run in this tree; where they run they drive a few fixed sequences on a few values, far from the ends of the wider types and from combined inputs."
CS=[("cv","current count","src/counters.rs"),("edge memory","count inputs seen by the last counting call","src/counters.rs")]
p("C01","Up-counter counts each rising edge once, resets on R, never overflows",
  "For every integer type, an up-counter call with R true sets the count to 0; otherwise a rising edge of the count input (relative to the last call that counted, that is, had R false) adds exactly 1 unless the count is already the largest value of the type, and nothing else changes it. After every call Q is true exactly when the count is at least PV. The count never wraps.",
  ["histories"],"every sequence of count, reset and PV inputs, from every reachable count and edge state, for INT, DINT, UDINT, LINT and ULINT",cnt,
  ["src/counters.rs","iec61131-st/counters.st"],[("ctu","src/counters.rs"),("saturation test","src/counters.rs ctu")],["CTU","CTU_INT","CTU_DINT","CTU_UDINT","CTU_LINT","CTU_ULINT"],CS)
p("C02","Down-counter counts each rising edge once, loads PV, never underflows",
  "For every integer type, a down-counter call with LD true sets the count to PV; otherwise a rising edge of the count input (relative to the last call that counted, that is, had LD false) subtracts exactly 1 unless the count is already the smallest value of the type, and nothing else changes it. After every call Q is true exactly when the count is at most 0. The count never wraps.",
  ["histories"],"every sequence of count, load and PV inputs, from every reachable count and edge state, for INT, DINT, UDINT, LINT and ULINT",cnt,
  ["src/counters.rs","iec61131-st/counters.st"],[("ctd","src/counters.rs"),("saturation test","src/counters.rs ctd")],["CTD","CTD_INT","CTD_DINT","CTD_UDINT","CTD_LINT","CTD_ULINT"],CS)
p("C03","Up/down-counter: R beats LD beats counting; opposite edges cancel",
  "For every integer type, an up/down-counter call sets the count to 0 if R is true, else to PV if LD is true, else adds 1 on a rising edge of only the up input, subtracts 1 on a rising edge of only the down input (relative to the last call that counted, that is, had R and LD false), and leaves it alone on both or neither, stopping at the ends of the type. After every call QU is true exactly when the count is at least PV and QD exactly when it is at most 0.",
  ["histories"],"every sequence of up, down, reset, load and PV inputs, from every reachable count and edge state, for INT, DINT, UDINT, LINT and ULINT",cnt,
  ["src/counters.rs","iec61131-st/counters.st"],[("ctud","src/counters.rs")],["CTUD","CTUD_INT","CTUD_DINT","CTUD_UDINT","CTUD_LINT","CTUD_ULINT"],CS)
p("E01","Edge detectors pulse for exactly one call per edge",
  "A rising-edge detector's Q is true on a call exactly when CLK is true on it and was false on the previous call (or there was none); a falling-edge detector's Q exactly when CLK is false on it and was true on the previous call. Between two pulses the input must have returned to the other level.",
  ["histories"],"every sequence of CLK values from a zero-initialised instance","Only the internal edge helper has unit tests with short fixed sequences; the function blocks themselves are not run here.",
  ["src/flanks.rs","src/utils.rs","iec61131-st/flanks.st"],[("Signal::rising_edge/falling_edge","src/utils.rs"),("R_TRIG/F_TRIG","src/flanks.rs")],["R_TRIG","F_TRIG"],[("internal","CLK seen by the previous call","src/flanks.rs")])
p("E02","Latches: SR is set-dominant, RS is reset-dominant, both remember",
  "After every call of a set-dominant latch Q is true if S is true, false if only R is true, and unchanged if neither is; a reset-dominant latch makes Q false if R is true, true if only S is true, and unchanged if neither is.",
  ["histories"],"every sequence of set and reset inputs from either stored state","The bistable tests need the ST compiler, do not run in this tree, and cover single transitions.",
  ["src/bistable_functionblocks.rs","iec61131-st/bistable_functionblocks.st"],[("SR/RS equations","src/bistable_functionblocks.rs")],["SR","RS"],[("output","stored Q","src/bistable_functionblocks.rs")])
p("A01","Function-block instances are isolated and never disturb other memory",
  "A call of any function block changes only the outputs and hidden state of the instance it is given: its inputs, every other instance and all memory outside the declared instance stay as they were, so interleaving calls of several instances gives each the behaviour it would have alone. Every instance works in the memory layout its structured-text declaration describes.",
  ["schedules","histories"],"every interleaving of calls over several adjacent instances of all function-block types","Tests use one instance at a time and never look at neighbouring memory.",
  ["src/timers.rs","src/counters.rs","src/flanks.rs","src/bistable_functionblocks.rs","iec61131-st/timers.st","iec61131-st/counters.st"],[("state only behind the instance reference","src/timers.rs, src/counters.rs, src/flanks.rs, src/bistable_functionblocks.rs"),("repr(C) layouts matching the ST declarations","iec61131-st/*.st")],["all function blocks"])
p("A02","Every external structured-text declaration is backed by an exported function",
  "Every function and function block the structured-text sources declare as external, for every type a generic one is available for, is exported by the library under the name the compiler links, so no documented call fails to link. The state the library keeps fits into the memory the declaration reserves.",
  ["configurations"],"every external declaration in the structured-text sources, in debug and release builds","No test running here compiles structured text, so a missing, renamed or resized export is invisible to them.",
  ["iec61131-st","src"],[("no_mangle exports","src/*.rs"),("external declarations","iec61131-st/*.st")],["exported symbols"])
p("A03","Calls made by several tasks at the same time do not influence each other",
  "Every call of an exported function or function block gives, while other threads call the same or other functions with arguments and instances of their own, exactly the result and memory effects it gives when it is the only call running. The library keeps no state outside the memory the caller hands it.",
  ["schedules"],"every interleaving of calls of any exported functions by several threads, in debug and release builds",
  "No test makes two calls at the same time; a scratch cell shared by calls gives wrong results only under overlap.",
  ["src/string_functions.rs","src/string_conversion.rs","src/extra_functions.rs","src/timers.rs","src/counters.rs","src"],[("local temporaries only","src/string_functions.rs CharsEncoder::encode"),("state only behind the instance reference","src/timers.rs, src/counters.rs, src/flanks.rs")],["all exported functions and function blocks"])
p("A04","Declarations pass exactly the arguments the exported functions take",
  "For every external function, and every type a generic one is available for, the structured-text declaration and the exported function agree: on the number, order and machine type of the arguments, on which are passed by reference, as outputs or as a counted list, and on the type of the result, and a generic declaration admits every type the library implements. A specialisation written in structured text takes what the generic declaration passes, and a function block has the documented variables with the types its name stands for. So a call written against the declaration, with positional or named arguments, reaches the function with exactly the values given.",
  ["configurations","inputs"],"every external and generic declaration and every exported function it describes",
  "The unit tests call the functions directly from Rust, where the compiler adapts the arguments; a mismatch with the declaration is invisible to them.",
  ["iec61131-st","src"],[("external and generic declarations","iec61131-st/*.st"),("extern C signatures","src/*.rs")],["all external functions and function blocks"])
p("A05","Equal calls have equal outcomes, in every build and at any time",
  "Every exported function except the function blocks and TIME() is a function of its arguments: the same arguments give the same result, the same text and memory effects or the same refusal in debug and optimised builds, whatever was called before. No calculation fails in one build and wraps in another.",
  ["inputs","histories","configurations"],"all arguments of every exported function, in every order of calls and every build",
  "The tests run in one build, call each function once per input and never compare.",
  ["src"],[("all extern C functions","src/*.rs"),("arithmetic that is checked in debug builds only","src/date_time_numeric_functions.rs, src/string_functions.rs, src/bit_shift_functions.rs")],["all exported functions"])
p("A07","A function block is its memory: copied and restored instances continue alike",
  "All state of a function block lies in the memory of its instance. An instance that is copied or moved to another place, kept aside and restored later, or zeroed behaves from then on exactly as the instance it was taken from would have at that point (or as a new one), whatever calls the original or other instances have seen in the meantime.",
  ["histories"],"every history of calls, copies, restorations and new beginnings over instances of all function-block types",
  "The tests use one instance at one place; state kept elsewhere (by address, in the last instance used) behaves the same there.",
  ["src/timers.rs","src/counters.rs","src/flanks.rs","src/bistable_functionblocks.rs"],[("edge memory and start time inside the instance","src/timers.rs TimerParams, src/utils.rs Signal"),("repr(C) instances","src/counters.rs")],["all function blocks"])
p("A06","No call touches memory outside its arguments",
  "Every call reads and writes only what it is handed: a text up to and including its terminator, the listed number of elements or arguments, as much of a result as the call writes, and the declared instance of a function block. It works when nothing around these can be accessed, and what lies around them, or what a result held before, never changes the outcome.",
  ["inputs","configurations"],"all arguments of every exported function and function block, wherever they lie in memory, in debug and release builds",
  "The tests keep their texts in larger arrays and literals, so a read beyond the end of an argument succeeds and goes unnoticed.",
  ["src"],[("get_null_terminated_len, ptr_to_slice","src/string_functions.rs"),("CONCAT and comparison argument lists","src/string_functions.rs"),("repr(C) instances","src/timers.rs, src/counters.rs"),("destination slices","src/extra_functions.rs, src/string_conversion.rs")],["all exported functions and function blocks"])
st="Unit tests run a few dozen fixed ASCII/Greek examples; positions, lengths and multi-byte/surrogate contents interact, and only a few combinations are sampled."
p("S01","LEN counts and FIND locates in characters, not bytes",
  "For every well-formed STRING or WSTRING, LEN is the number of characters before the first terminator, and FIND is the 1-based character position of the first occurrence of the second string in the first, 0 when there is none or either is empty. Multi-byte and surrogate-pair characters count once.",
  ["inputs"],"all pairs of well-formed strings of both encodings",st,["src/string_functions.rs"],[("LEN__*, FIND__*","src/string_functions.rs")],["LEN__STRING","LEN__WSTRING","FIND__STRING","FIND__WSTRING"])
p("S02","LEFT, RIGHT and MID cut exactly the requested characters or refuse",
  "LEFT, RIGHT and MID return exactly the requested first, last or middle characters of the input, never splitting a character, for every length and position that lies inside it. A negative length, a length beyond what is available, or a position outside 1..LEN is refused instead of giving a truncated or wrong result.",
  ["inputs"],"all well-formed strings, lengths and positions (including extreme 32-bit values), both encodings, debug and release builds",st,["src/string_functions.rs"],[("LEFT_EXT/RIGHT_EXT/MID_EXT","src/string_functions.rs")],["LEFT_EXT__*","RIGHT_EXT__*","MID_EXT__*"])
p("S03","INSERT, DELETE and REPLACE edit exactly the addressed characters or refuse",
  "INSERT puts the second string after the given character position (0..LEN), DELETE removes exactly the given number of characters from the given 1-based position, and REPLACE does both, leaving every other character in order. Positions outside the string, counts reaching past its end and negative counts are refused, in optimised builds as well.",
  ["inputs","configurations"],"all well-formed strings, positions and counts (including extreme 32-bit values), both encodings, debug and release builds",st,["src/string_functions.rs"],[("INSERT_EXT/DELETE_EXT/REPLACE_EXT","src/string_functions.rs")],["INSERT_EXT__*","DELETE_EXT__*","REPLACE_EXT__*"])
p("S04","CONCAT joins all arguments in order, and nothing else",
  "CONCAT writes the characters of all its arguments in argument order followed by one terminator, for every number of arguments including none, every mix of empty and non-empty strings and both encodings. A null argument list or destination is refused.",
  ["inputs"],"all lists of well-formed strings, both encodings and both entry points",st,["src/string_functions.rs"],[("CONCAT_EXT__*, CONCAT__*","src/string_functions.rs")],["CONCAT_EXT__*","CONCAT__*"])
p("S05","String comparisons are a lexicographic total order applied to each neighbour",
  "EQ, GT, GE, LT and LE over any number (at least two) of strings are true exactly when the relation holds between every two consecutive arguments, where strings are ordered lexicographically by code unit and a proper prefix is smaller; NE is the negation of EQ on two strings. Fewer than two arguments are refused.",
  ["inputs"],"all lists of strings, both encodings",st,["src/string_functions.rs"],[("compare","src/string_functions.rs")],["EQ/GT/GE/LT/LE/NE __STRING and __WSTRING"])
p("S06","String results are always terminated and stay inside the result",
  "Every operation that writes a STRING or WSTRING result writes the result's code units and exactly one terminator at the start of the destination, whatever the destination held before, changes nothing after the terminator, and never changes its source strings. A call refused because of its positions, counts or argument list leaves the destination unchanged, and no call changes its sources.",
  ["inputs","histories"],"all string-producing operations with arbitrary arguments and arbitrary previous destination contents","Tests always hand in zeroed destinations far larger than the result, so missing terminators and stray writes cannot show.",
  ["src/string_functions.rs","src/string_conversion.rs","src/extra_functions.rs"],[("encode","src/string_functions.rs"),("*_TO_STRING_EXT","src/extra_functions.rs"),("STRING_TO_WSTRING_EXT/WSTRING_TO_STRING_EXT","src/string_conversion.rs")],["destination memory around the result"])
p("S07","STRING/WSTRING and CHAR/WCHAR conversions preserve the text",
  "Converting a well-formed STRING to WSTRING or back yields the same characters, so a round trip is the identity; an unpaired surrogate in a WSTRING becomes the replacement character, and an ill-formed STRING is refused. A CHAR converts to the WCHAR with the same code, and a 7-bit WCHAR to the CHAR with the same code.",
  ["inputs"],"all well-formed strings up to the 80 character limit, all WSTRINGs with unpaired surrogates, all CHAR and WCHAR values","The conversion tests need the ST compiler and are not run here; they use one fixed string per direction.",
  ["src/string_conversion.rs","src/string_functions.rs"],[("decode/encode","src/string_functions.rs"),("conversions","src/string_conversion.rs")],["WSTRING_TO_STRING_EXT","STRING_TO_WSTRING_EXT","WCHAR_TO_CHAR","CHAR_TO_WCHAR"])
p("N01","Integers are written as their exact decimal text",
  "Converting any BYTE, LWORD or LINT value to STRING yields its exact decimal representation, with a minus sign exactly for negative values, no leading zeros and nothing else, so that parsing the text gives back the value.",
  ["inputs"],"all 8-bit values and all 64-bit signed and unsigned values","Unit tests check one value per function.",
  ["src/extra_functions.rs"],[("BYTE/LWORD/LINT_TO_STRING_EXT","src/extra_functions.rs")],["BYTE_TO_STRING_EXT","LWORD_TO_STRING_EXT","LINT_TO_STRING_EXT"])
p("N02","Integer text is parsed exactly or refused",
  "Parsing text to DINT or LINT gives the value the text denotes in decimal, or in the base its prefix names (16#, 0x, 0X, 8#, 2#, 0b, 0B), with an optional sign. Text that is empty, contains anything but digits of the base, or denotes a value outside the type is refused; no text is silently truncated or wrapped.",
  ["inputs"],"all texts of bounded length over digits, signs, prefixes and junk, and all boundary values of both types","Unit tests check a handful of literals and never the range limits.",
  ["src/extra_functions.rs"],[("string_to_int","src/extra_functions.rs")],["STRING_TO_LINT","STRING_TO_DINT"])
p("N03","Real numbers are written as correctly rounded decimal text",
  "Converting any finite REAL or LREAL to STRING gives the correctly rounded value with six digits after the point, in fixed notation up to the documented magnitude and in scientific notation above it, for negative numbers exactly as for positive ones. Every finite value fits the standard string length and no value makes the conversion fail.",
  ["inputs"],"all 64-bit floating-point values","Unit tests check four values of moderate size and no large negative one.",
  ["src/extra_functions.rs"],[("LREAL_TO_STRING_EXT/REAL_TO_STRING_EXT","src/extra_functions.rs")],["LREAL_TO_STRING_EXT","REAL_TO_STRING_EXT"])
p("N04","Real-number text is parsed to the nearest representable value or refused",
  "Parsing decimal text, with optional sign, fraction and exponent, to REAL or LREAL yields the representable number nearest to the exact value of the text; text that is not a number is refused.",
  ["inputs"],"all decimal literals of bounded length, including halfway cases, subnormals and overflow","Unit tests check one literal per type.",
  ["src/extra_functions.rs"],[("string_to_float","src/extra_functions.rs")],["STRING_TO_LREAL","STRING_TO_REAL"])
dt="The date/time tests need the ST compiler and are not run here; they use a few fixed dates, none at leap-day, century, negative or range-limit corners."
p("D01","DATE composition, splitting and weekday follow the Gregorian calendar",
  "Composing a DATE from year, month and day gives the number of nanoseconds from 1970-01-01 to that Gregorian day, splitting gives year, month and day back, and the weekday advances by one each day with 1970-01-01 a Thursday, for every integer type. Triples that are not calendar dates or lie outside the DATE range, and years that do not fit the output type, are refused rather than wrapped.",
  ["inputs"],"all year/month/day triples of all supported integer types and all DATE values",dt,
  ["src/date_time_extra_functions.rs"],[("concat_date","src/date_time_extra_functions.rs"),("SPLIT_DATE__*","src/date_time_extra_functions.rs"),("DAY_OF_WEEK","src/date_time_extra_functions.rs")],["CONCAT_DATE__*","SPLIT_DATE__*","DAY_OF_WEEK"])
p("D02","TIME_OF_DAY composition and splitting are exact inverses in range",
  "Composing a time of day from hour 0..23, minute 0..59, second 0..59 and millisecond 0..999 gives exactly that many nanoseconds since midnight and splitting returns the four parts, for every integer type. Parts outside those ranges are refused, never wrapped into a valid time.",
  ["inputs"],"all hour/minute/second/millisecond values of all supported integer types, and all time-of-day values",dt,
  ["src/date_time_extra_functions.rs"],[("concat_tod","src/date_time_extra_functions.rs"),("SPLIT_TOD__*","src/date_time_extra_functions.rs")],["CONCAT_TOD__*","SPLIT_TOD__*"])
p("D03","DATE_AND_TIME splits into date and time of day that recombine exactly",
  "For every DATE_AND_TIME, extracting the date gives midnight of its day, extracting the time of day gives the nanoseconds since that midnight (0 up to less than 24 h), and combining the two gives back the original value; splitting it into seven parts gives its calendar fields and milliseconds. This holds before 1970 as well; a result outside the range is refused.",
  ["inputs"],"all 64-bit nanosecond values",dt,
  ["src/date_time_conversion.rs","src/date_time_extra_functions.rs"],[("DATE_AND_TIME_TO_*","src/date_time_conversion.rs"),("CONCAT_DATE_TOD, SPLIT_DT__*","src/date_time_extra_functions.rs")],["DATE_AND_TIME_TO_DATE","DATE_AND_TIME_TO_TIME_OF_DAY","CONCAT_DATE_TOD","SPLIT_DT__*"])
p("D04","Time and date addition and subtraction are exact or refused",
  "Adding a TIME to, or subtracting a TIME or another date/time from, a TIME, TOD, DT or DATE gives the exact integer nanosecond result; when that result does not fit the 64-bit range the operation is refused, never wrapped or saturated.",
  ["inputs","configurations"],"all pairs of 64-bit nanosecond values, debug and release builds",dt,
  ["src/date_time_numeric_functions.rs"],[("checked arithmetic","src/date_time_numeric_functions.rs")],["ADD_*","SUB_*"])
p("D05","Multiplying or dividing a TIME by an integer is exact or refused",
  "Multiplying a TIME by any integer gives the exact product and dividing gives the quotient truncated toward zero, for every signed and unsigned integer type and every name of the operation. Overflow, division by zero and unsigned operands beyond the signed 64-bit range are refused, never wrapped.",
  ["inputs","configurations"],"all 64-bit TIME values with all operands of all eight integer types",dt,
  ["src/date_time_numeric_functions.rs"],[("checked_mul_time_with_*","src/date_time_numeric_functions.rs"),("checked_div_time_by_*","src/date_time_numeric_functions.rs")],["MUL__TIME__*","MUL_TIME__*","MUL_LTIME__*","DIV__TIME__*","DIV_TIME__*","DIV_LTIME__*"])
p("D06","Multiplying or dividing a TIME by a real scales it, with the right sign",
  "Multiplying or dividing a TIME by a REAL or LREAL gives the real product or quotient up to the precision of the operand's type, positive exactly when the signs agree. Division by zero, non-finite operands that have no finite result, and results outside the TIME range are refused.",
  ["inputs"],"all 64-bit TIME values with all REAL and LREAL operands",dt,
  ["src/date_time_numeric_functions.rs"],[("checked_mul_time_with_f32/f64","src/date_time_numeric_functions.rs"),("checked_div_time_by_f32/f64","src/date_time_numeric_functions.rs")],["MUL*__TIME__REAL/LREAL","DIV*__TIME__REAL/LREAL"])
p("D07","Dates, times and durations are written as the text of their exact value",
  "A DATE, TOD or DT is written with its exact calendar and clock fields down to the nanosecond, and a TIME as the sum of its non-zero day, hour, minute, second, millisecond, microsecond and nanosecond parts, so that the text determines the value. This holds for zero and for negative values too.",
  ["inputs"],"all 64-bit nanosecond values of each type","Unit tests check one or two values per function, none zero or negative, into zeroed memory.",
  ["src/extra_functions.rs"],[("DT/DATE/TOD_TO_STRING_EXT","src/extra_functions.rs"),("parse_timestamp","src/extra_functions.rs")],["DT_TO_STRING_EXT","DATE_TO_STRING_EXT","TOD_TO_STRING_EXT","TIME_TO_STRING_EXT"])
p("D08","TIME() is the local wall-clock time since midnight",
  "TIME() returns the nanoseconds since local midnight, always at least 0 and less than 24 hours, tracking the clock across midnight.",
  ["schedules","inputs"],"all clock readings","One unit test checks a single mocked reading; the production clock is never exercised.",
  ["src/extra_functions.rs"],[("TIME","src/extra_functions.rs")],["TIME"])
p("M01","MAX and MIN return the greatest and least of their arguments",
  "For every supported elementary type and every non-empty argument list, MAX returns an argument that no argument exceeds and MIN one that exceeds no argument, compared as values of that type (signed, unsigned, floating or temporal). An empty or missing list is refused.",
  ["inputs"],"all argument lists of all supported types","Selector tests need the ST compiler, are not run here, and use one short list per type.",
  ["src/types.rs","iec61131-st/selectors.st"],[("define_order_type/define_float_type","src/types.rs")],["MAX__*","MIN__*"])
p("M02","LIMIT clamps into the given range",
  "For every supported type, LIMIT returns MIN when the value is below MIN, otherwise MAX when it is above MAX, otherwise the value itself, compared as values of that type.",
  ["inputs"],"all value triples of all supported types","Selector tests need the ST compiler, are not run here, and use one triple per type.",
  ["src/types.rs"],[("limit","src/types.rs")],["LIMIT__*"])
p("B01","Shifts drop bits and rotations keep them, for every shift amount",
  "SHL and SHR move the bits of a BYTE, WORD, DWORD or LWORD by n places, filling with zeros, so that every n of at least the width gives 0; ROL and ROR rotate by n modulo the width, lose no bit and undo each other. No shift amount fails, and debug and optimised builds agree.",
  ["inputs","configurations"],"all values and all 32-bit shift amounts of the four bit-string types","The shift tests need the ST compiler, are not run here, and never use n at or beyond the width.",
  ["src/bit_shift_functions.rs"],[("SHL/SHR/ROL/ROR","src/bit_shift_functions.rs")],["SHL__*","SHR__*","ROL__*","ROR__*"])
p("B02","Endianness conversions swap bytes exactly, and pairs are inverse",
  "For every supported type TO_BIG_ENDIAN and FROM_LITTLE_ENDIAN reverse the bytes of the value and TO_LITTLE_ENDIAN and FROM_BIG_ENDIAN return it unchanged, on a little-endian host. Applying a byte-reversing conversion twice gives back the original value bit for bit.",
  ["inputs"],"all values of all fifteen supported types","The endianness tests need the ST compiler, are not run here, and use one value per type.",
  ["src/endianness_conversion_functions.rs"],[("define_endianness_for_int_types and REAL/LREAL versions","src/endianness_conversion_functions.rs")],["TO_BIG_ENDIAN__*","TO_LITTLE_ENDIAN__*","FROM_BIG_ENDIAN__*","FROM_LITTLE_ENDIAN__*"])
p("B03","Validity checks accept exactly valid reals and valid BCD words",
  "A REAL or LREAL is reported valid exactly when it is finite; a bit string is reported valid BCD exactly when every one of its four-bit groups is at most 9.",
  ["inputs"],"all bit patterns of REAL, LREAL, BYTE, WORD, DWORD and LWORD","The validation tests need the ST compiler, are not run here, and check one or two values per type.",
  ["src/validation_functions.rs"],[("is_valid_bcd, IS_VALID__*","src/validation_functions.rs")],["IS_VALID__*","IS_VALID_BCD__*"])
p("B04","Reinterpreting bits as reals and back loses nothing",
  "Converting DWORD to REAL and LWORD to LREAL, and back, reinterprets the bit pattern: the value is the IEEE-754 number those bits denote, and the round trip returns the same bits for every non-NaN pattern.",
  ["inputs"],"all 32-bit and 64-bit patterns","The conversion tests need the ST compiler, are not run here, and use one value per direction.",
  ["src/bit_num_conversion.rs"],[("from_bits/to_bits","src/bit_num_conversion.rs")],["DWORD_TO_REAL","REAL_TO_DWORD","LWORD_TO_LREAL","LREAL_TO_LWORD"])
p("R01","ROUND and SQRT are exactly rounded",
  "ROUND returns the integer nearest to its argument, halfway cases away from zero, and leaves integers, infinities and signed zeros alone; SQRT returns the representable number nearest to the exact square root, and no number for negative arguments. Both hold for REAL and LREAL.",
  ["inputs"],"all REAL and LREAL values","The numerical tests need the ST compiler, are not run here, and check a few small values.",
  ["src/numerical_functions.rs","src/arithmetic_functions.rs"],[("ROUND__*","src/numerical_functions.rs"),("SQRT__*","src/arithmetic_functions.rs")],["ROUND__REAL","ROUND__LREAL","SQRT__REAL","SQRT__LREAL"])
p("R02","Real functions obey their identities, domains and special values",
  "For REAL and LREAL, logarithms, exponential, trigonometric and inverse trigonometric functions return the mathematical value up to a few units in the last place, exactly the required values at their special points (zero, one, infinities, and powers of ten for the decimal logarithm) and no number outside their domain, and respect oddness or evenness exactly; the exported constants are the nearest representable values of pi, pi/2, pi/4 and e.",
  ["inputs"],"all REAL and LREAL arguments","The arithmetic tests need the ST compiler, are not run here, and check a few points with a tolerance.",
  ["src/arithmetic_functions.rs"],[("LN/LOG/EXP/SIN/COS/TAN/ASIN/ACOS/ATAN/ATAN2","src/arithmetic_functions.rs"),("constants","src/arithmetic_functions.rs")],["LN/LOG/EXP/SIN/COS/TAN/ASIN/ACOS/ATAN/ATAN2 __REAL and __LREAL"])
p("R03","Exponentiation agrees with the exact power for every operand type pair",
  "Raising a REAL or LREAL base to a DINT, REAL or LREAL exponent gives the exact power of the base up to the rounding of the result type (for DINT exponents up to the rounding of the repeated multiplication), with the IEEE conventions for zero, one, infinite and not-a-number operands, and the mixed-type variants equal the variant of the base's type on the converted exponent.",
  ["inputs"],"all base/exponent pairs of the six supported type combinations","The exponent tests need the ST compiler, are not run here, and check 2 to the power 3 and similar points.",
  ["src/arithmetic_functions.rs"],[("EXPT__*","src/arithmetic_functions.rs")],["EXPT__REAL__DINT","EXPT__LREAL__DINT","EXPT__REAL__REAL","EXPT__REAL__LREAL","EXPT__LREAL__REAL","EXPT__LREAL__LREAL"])
stw="None of these functions is compiled or run by the tests that run here, and the compiled tests use a few values each."
p("L01","Structured-text conversions keep the value, its low bits or the nearest number",
  "Each conversion function written in structured text between bit strings, integers, BOOL, CHAR, reals and time types returns the argument unchanged when it fits the result type; integers and bit strings that do not fit give their low-order bits, a real result is the number nearest to the argument, and a real argument whose rounding fits the integer result type is rounded half away from zero. From a bit string to BOOL the lowest bit counts, from LINT and DINT whether the number is not 0; a BOOL becomes 0 or 1.",
  ["inputs","programs"],"all argument values of every conversion function in the structured-text sources",stw,
  ["iec61131-st/bit_conversion.st","iec61131-st/bit_num_conversion.st","iec61131-st/num_conversion.st","iec61131-st/extra_functions.st","iec61131-st/date_time_conversion.st"],[("ST function bodies","iec61131-st/bit_conversion.st, iec61131-st/bit_num_conversion.st, iec61131-st/num_conversion.st, iec61131-st/extra_functions.st")],["results of the ST functions"])
p("L02","Structured-text time functions pass their operands through to the right one",
  "Every time function written in structured text (sums, differences, composition, splitting, extraction, under every type name and alias it comes in: TIME/LTIME, DATE/LDATE, DT/LDT, TOD/LTOD and every integer type) gives the result the native operation defines for its operands in the documented order, and is refused exactly when that operation refuses them.",
  ["inputs","programs"],"all time functions in the structured-text sources with arbitrary arguments",stw,
  ["iec61131-st/date_time_numeric_functions.st","iec61131-st/date_time_conversion.st","iec61131-st/date_time_extra_functions.st"],[("ST function bodies","iec61131-st/date_time_numeric_functions.st, iec61131-st/date_time_extra_functions.st")],["results and outputs of the ST functions"])
p("L03","Structured-text ABS, TRUNC and EXPT mean what their names say for every type",
  "ABS gives the magnitude of every representable signed integer and real that has one, TRUNC the integer part of a real within LINT, and EXPT the power of its base for every value of its integer exponent type.",
  ["inputs","programs"],"all argument values of ABS, TRUNC and the EXPT variants with integer exponents",stw,
  ["iec61131-st/numerical_functions.st","iec61131-st/extra_functions.st","iec61131-st/arithmetic_functions.st"],[("ST function bodies","iec61131-st/numerical_functions.st, iec61131-st/arithmetic_functions.st")],["results of the ST functions"])
p("L04","Structured-text conversions between numbers and texts, narrow and wide",
  "The functions written in structured text that turn an integer, bit string or real into a STRING or WSTRING give the text the native conversion defines, and those that read a WSTRING give the number its characters denote in the result type or refuse it, for every value and every text of up to 80 characters, without writing outside their own variables.",
  ["inputs","programs"],"all numbers, and all wide texts of up to 80 characters",stw,
  ["iec61131-st/extra_functions.st"],[("ST function bodies","iec61131-st/extra_functions.st")],["results of the ST functions"])
p("L05","Structured-text conversions of dates and times to texts, narrow and wide",
  "Each function that turns a date, date and time, time of day or duration into a STRING or WSTRING, under both its short and its long type name, gives the text that denotes exactly that value.",
  ["inputs","programs"],"all values of the time types",stw,
  ["iec61131-st/extra_functions.st"],[("ST function bodies","iec61131-st/extra_functions.st")],["results of the ST functions"])
p("L06","Structured-text string functions behave as the operations they are named after",
  "LEFT, RIGHT, MID, INSERT, DELETE, REPLACE, the pairwise comparisons of STRING and WSTRING, and the conversions between STRING, WSTRING, CHAR and WCHAR written in structured text give the documented result with their operands in the documented order, and refuse what the native operation refuses.",
  ["inputs","programs"],"all texts that fit the variables, with arbitrary positions and counts; all characters",stw,
  ["iec61131-st/string_functions.st","iec61131-st/string_conversion.st"],[("ST function bodies","iec61131-st/string_functions.st, iec61131-st/string_conversion.st")],["results of the ST functions"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
