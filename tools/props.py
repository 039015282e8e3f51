SV = 'include/gul14/string_view.h'
prop('C01', 'String view searches return exactly the first or last qualifying position',
 'For every haystack, needle and start position, find returns the smallest position at or after the start at which the needle occurs, rfind the largest one at or before it, and find_first_of/find_last_of/find_first_not_of/find_last_not_of the nearest position in their direction whose character is (not) in the given set; npos is returned exactly when there is none. This holds for all overloads (view, character, pointer+length, C string), including empty haystacks or needles and out-of-range start positions. No search reads outside the viewed characters or the needle.',
 ['inputs'], 'all haystacks, needles (any length up to PTRDIFF_MAX, any byte values) and all 2^64 start positions',
 TESTS + 'all pairs of strings and all positions, including wrap-around positions near npos that tests do not reach.',
 [SV], [('basic_string_view::find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of', SV), ('char_traits::compare, find, length', SV)])
prop('C02', 'String view slices stay inside the view and comparison is lexicographic',
 'substr, remove_prefix, remove_suffix, copy and element access never yield anything outside the viewed characters and return exactly the requested part clamped to the end; substr, at, copy and compare throw std::out_of_range exactly when the position is past the end. compare and all six relational operators (also against C strings on either side) agree with lexicographic order on unsigned characters, shorter prefixes first.',
 ['inputs'], 'all views, arguments, positions and counts (all 2^64 values)',
 TESTS + 'all contents, positions and counts; the wrap-around of pos+n and the noexcept overload were both missed by the tests.',
 [SV], [('basic_string_view::substr, copy, at, remove_prefix, remove_suffix, compare', SV), ('relational operators', SV)])
SC = 'include/gul14/substring_checks.h'
prop('C03', 'Substring predicates answer exactly, with and without ASCII case',
 'contains, starts_with and ends_with are true exactly when the sought text (or character) occurs anywhere, at the front or at the back of the haystack, for every pair of strings including empty ones and embedded NUL or non-ASCII bytes. Their _nocase forms and equals_nocase give exactly the same answer after folding only A-Z to a-z on both sides.',
 ['inputs'], 'all pairs of strings of any length and content',
 TESTS + 'all pairs of strings; overlapping partial matches and bytes next to the letter ranges are not sampled.',
 [SC], [('contains, starts_with, ends_with, *_nocase, equals_nocase', SC)])
prop('C04', 'ASCII case conversion maps exactly A-Z and a-z and nothing else',
 'lowercase_ascii/uppercase_ascii turn every ASCII letter into its lower/upper case form and leave each of the other byte values unchanged. The string and in-place forms apply that mapping to every position, keep the length and leave no memory behind.',
 ['inputs'], 'all characters and all strings',
 TESTS + 'all 256 byte values at every position of every string.',
 ['include/gul14/case_ascii.h', 'src/case_ascii.cc'], [('lowercase_ascii, uppercase_ascii and _inplace forms', 'include/gul14/case_ascii.h, src/case_ascii.cc')])
prop('C05', 'Trimming removes exactly the maximal runs of trimmable characters',
 'trim, trim_left and trim_right (string and _sv forms, default and custom character sets) return the input without the longest run of characters of the set at the respective ends, keeping everything between. The _sv forms return a view into the input; a string consisting only of trimmable characters yields an empty result.',
 ['inputs'], 'all strings and all character sets',
 TESTS + 'all strings and sets.',
 ['include/gul14/trim.h', 'src/trim.cc'], [('trim, trim_left, trim_right, *_sv', 'include/gul14/trim.h, src/trim.cc')])
TN = 'include/gul14/to_number.h'
prop('C09', 'to_number parses integers and bool exactly: grammar, value and range',
 'For every integer type, to_number yields a value exactly when the whole string is a nonempty run of decimal digits (with one optional leading minus for signed types) whose mathematical value is representable in the type, and then yields that value; otherwise it yields nothing. For bool it accepts exactly 0, 1, true and false (letters in any case). It never overflows and never reads outside the view.',
 ['inputs'], 'all strings of any length, for all eight integer widths/signs and bool',
 TESTS + 'every digit string, in particular all values around the representable limits with any number of leading zeros.',
 [TN], [('to_number, detail::to_unsigned_integer, detail::to_signed_integer', TN)])
BM = 'include/gul14/bit_manip.h'
prop('C11', 'Bit functions affect exactly the named bit of any integer type',
 'bit_set, bit_reset and bit_flip return the argument with exactly the named bit set, cleared or inverted and all other bits unchanged; bit_test reports exactly that bit; bit_set<T>(b) has exactly bit b set. This holds for every value and every valid bit number of all signed and unsigned integer types, including the sign bit, without undefined behaviour. A bit number outside the type never yields a value (the assertion stops the program).',
 ['inputs'], 'all values and bit numbers of the eight integer types',
 TESTS + 'all values of all widths; high bits of narrow and of 64-bit types are where shifts and promotions go wrong.',
 [BM], [('bit_set, bit_reset, bit_flip, bit_test', BM), ('is_big_endian, is_little_endian', BM)])
GL = 'include/gul14/gcd_lcm.h'
prop('C12', 'gcd and lcm give the mathematical result for every representable case',
 'gcd(a, b) is the greatest common divisor of |a| and |b| (gcd(x, 0) = |x|) and lcm(a, b) is their least common multiple (0 if one is 0), for all integer types including mixed ones and negative arguments. Whenever the mathematical result is representable in the common type, no intermediate overflow changes it, and the computation terminates.',
 ['inputs'], 'all pairs of arguments whose absolute values and result are representable in the common type',
 TESTS + 'all pairs; products that overflow before the division are only reached by large arguments.',
 [GL], [('gcd, lcm', GL)])
NU = 'include/gul14/num_util.h'
prop('C13', 'Numeric closeness and clamping helpers decide by the exact difference',
 'within_abs(a, b, tol) is true exactly when |a - b| <= |tol| for all integer arguments (no overflow, symmetric in a and b); within_orders compares |a - b| with max(|a|,|b|)/10^orders and within_ulp with the scaled machine epsilon, are symmetric, hold for equal finite numbers and never for NaN. clamp returns a reference to lo if v < lo, to hi if hi < v and to v itself otherwise; abs returns the absolute value.',
 ['inputs'], 'all integer values of the eight integer types, all float/double bit patterns',
 TESTS + 'all values; far-apart integers overflowed and unsigned differences wrapped in the original code.',
 [NU], [('within_abs, within_orders, within_ulp, clamp, abs', NU)])
SU = 'include/gul14/string_util.h'
prop('C18', 'cat, repeat, hex_string and safe_string produce exactly the specified text',
 'cat(...) is the concatenation of its arguments in order (strings of any kind verbatim, char as one character, numbers as by std::to_string); repeat(s, n) is s n times; hex_string(x) has two lower-case hex digits per byte of the (two\'s complement) value, most significant first, and hex_string of a range, array or container joins its elements with the separator between (not after) them; safe_string(p, n) gives the characters up to the first NUL or n, nothing for null. Nothing is read outside the arguments.',
 ['inputs'], 'all argument texts, values and lengths; all integer widths and signs',
 TESTS + 'arbitrary lengths, embedded NULs, every bit pattern of every width.',
 ['include/gul14/cat.h', 'src/cat.cc', SU, 'src/string_util.cc'], [('cat, ConvertingStringView', 'include/gul14/cat.h, src/cat.cc'), ('repeat, safe_string, hex_string', SU + ', src/string_util.cc')])
prop('C06', 'escape yields a printable-ASCII literal and unescape is its exact inverse',
 'escape(s) is s with every byte outside 32..126 replaced by \\n, \\r, \\t or \\x and two lower-case hex digits, and every quote and backslash preceded by a backslash; nothing else changes. unescape(s) replaces, from left to right, each of the sequences \\", \\\\, \\n, \\r, \\t and \\xHH (two hex digits of either case) by its character and keeps every other character, including incomplete sequences. Hence unescape(escape(s)) == s for all s.',
 ['inputs'], 'all byte strings of any length',
 TESTS + 'every byte in every position, sequences cut off at the end, backslashes next to each other.',
 ['include/gul14/escape.h', 'src/escape.cc'], [('escape, unescape', 'include/gul14/escape.h, src/escape.cc')])
prop('C07', 'replace substitutes exactly the leftmost non-overlapping occurrences',
 'replace(haystack, needle, hammer) is the haystack with each non-overlapping occurrence of the needle, found from left to right and never inside inserted text, replaced by the hammer; an empty needle leaves the haystack unchanged. replace_inplace makes the same change to its argument and returns a reference to it. Both terminate for all arguments, also if the hammer contains the needle.',
 ['inputs'], 'all haystacks, needles and hammers',
 TESTS + 'overlapping candidate matches, hammers containing the needle, matches at the ends, any number of matches.',
 ['include/gul14/replace.h', 'src/replace.cc'], [('replace, replace_inplace', 'include/gul14/replace.h, src/replace.cc')])
SB = 'include/gul14/SlidingBuffer.h'
prop('C14', 'SlidingBuffer holds exactly the sliding window over what was pushed',
 'After any history of push_back, push_front, pop_back, pop_front and clear, a SlidingBuffer (dynamic, fixed-size or exposed) holds the pushed elements in order, at most capacity() of them: a push into a full buffer drops exactly the element at the other end, also when the pushed value is an element of the buffer itself. size, empty, filled, capacity, front, back, operator[], at (throws std::out_of_range exactly for indices >= size()) and all iterators (forward, reverse, const; arithmetic and comparisons) present exactly those elements in that order, in every wrap-around position.',
 ['inputs', 'histories'], 'all operation histories (by induction over a representation invariant), all capacities, all indices',
 TESTS + 'every wrap-around position of every capacity, and every interleaving of pushes and pops at both ends.',
 [SB], [('SlidingBuffer, SlidingBufferIterator', SB)])
prop('C15', 'Resizing a SlidingBuffer keeps exactly the promised elements in order',
 'resize and reserve set the capacity; growing keeps all elements in order, shrinking keeps the first (keep_front_elements, the default) or last (keep_back_elements) new-capacity elements in order, from every wrap-around position and for every old and new capacity including 0, and the buffer works as before afterwards. begin()/end() of SlidingBufferExposed delimit exactly the elements whenever they lie contiguously in a buffer that is not full (an empty buffer has an empty range), and the whole storage otherwise.',
 ['inputs', 'histories'], 'all reachable buffer states, all old and new capacities',
 TESTS + 'every combination of wrap-around position, old and new capacity; the exposed range after pop_front was wrong in the original code.',
 [SB], [('SlidingBuffer::resize, reserve; SlidingBufferExposed::begin, end', SB)])
JS, TK = 'include/gul14/join_split.h', 'include/gul14/tokenize.h'
prop('C08', 'split, join and tokenize cut and glue text exactly, and join inverts split',
 'split/split_sv return exactly the parts of the text between the leftmost non-overlapping occurrences of the delimiter (a string, or a regex that never matches the empty text), in order, including empty parts at the ends and between adjacent delimiters; an empty string delimiter separates every character. join glues parts with the glue between (not around) them, so join(split(t, d), d) == t. tokenize/tokenize_sv return exactly the maximal runs of non-delimiter characters. Every piece is a part of the text, passed once to the inserter of the returned container; all terminate.',
 ['inputs'], 'all texts, delimiters, glues and any number of parts',
 TESTS + 'delimiters overlapping themselves, at the ends, adjacent ones, empty delimiters, any number of pieces.',
 [JS, TK], [('split, split_sv, join', JS), ('tokenize, tokenize_sv', TK)])
prop('C10', 'to_number parses floating-point text by an exact grammar to an accurate value',
 'For float, double and long double, to_number yields a value exactly when the text is an optional minus followed by inf, infinity, nan or nan(chars) (letters in any case; chars are letters, digits and underscores), or by decimal digits with at most one point and at least one digit, optionally followed by e or E and an optionally signed decimal exponent that fits an int; every character is checked, however many digits there are. The value is the number written, within a few units in the last place (too large ones become infinite, too small ones zero), and a minus gives exactly the negated value.',
 ['inputs'], 'all texts of up to 2^62 characters: any number of leading zeros, digits before and after the point, any exponent',
 TESTS + 'all texts; garbage after the 19th significant digit was accepted and large exponents overflowed in the original code without any test noticing.',
 [TN, 'src/to_number.cc'], [('to_number<floating point>, detail::to_unsigned_float, to_normalized_float, parse_exponent, parse_inf_nan', TN), ('detail::pow10', 'src/to_number.cc')])
SVEC = 'include/gul14/SmallVector.h'
prop('C16', 'SmallVector behaves as std::vector in contents, element lifetimes and storage',
 'After every history of operations a SmallVector holds exactly the elements std::vector would hold, in order: all constructors, assign, =, push_back, emplace_back, emplace, insert (value, n copies, range, list), erase, pop_back, clear, resize, reserve, shrink_to_fit, swap, copy and move, in every combination of internal and allocated storage, including arguments that are elements of the vector itself and self-assignment. Elements are constructed in raw storage, destroyed exactly once, and used only while alive; storage is released exactly once and never leaks. size, capacity, empty, at (throws std::out_of_range exactly for indices >= size()), [], front, back, data, iterators and comparisons present that state; reserve and shrink_to_fit give the promised capacity.',
 ['inputs', 'histories'], 'all operation histories (by induction over a representation invariant), all sizes up to max_size, all positions and counts',
 TESTS + 'every combination of storage kind, size, position and count, references to own elements; using an own element as the argument read freed memory in the original code.',
 [SVEC], [('SmallVector', SVEC)])
prop('C17', 'SmallVector stays valid and leaks nothing when element operations throw',
 'If any constructor or assignment of the element type throws at any point during any SmallVector operation, the exception reaches the caller, the vector remains valid (its size() elements are alive, nothing else is), no element and no storage leaks, and a vector whose constructor fails leaves nothing behind. push_back, emplace_back, reserve, resize and shrink_to_fit leave the contents unchanged; a failing copy or move from another vector leaves that vector unchanged.',
 ['inputs', 'histories', 'fault_sequences'], 'every point at which an element operation can throw, in every operation and state',
 TESTS + 'all points at which an exception can be thrown; several of them leaked elements or memory in the original code.',
 [SVEC], [('SmallVector', SVEC)])
SP = 'include/gul14/span.h'
prop('C19', 'span refers to exactly the given range, and so do all its parts',
 'A span built from pointer and size, two pointers, an array, a container or another span refers to exactly those elements; first, last and subspan (run-time and template forms, with and without count, dynamic and fixed extent) refer to exactly the requested part of it, as_bytes to exactly its bytes. size, size_bytes, empty, [], front, back, get and all iterators present exactly these elements, and the six comparison operators agree with lexicographical comparison. For arguments inside the range nothing outside it is ever referred to or read.',
 ['inputs'], 'all ranges of any length, all valid offsets and counts',
 TESTS + 'all lengths, offsets and counts, including the ends of the range and empty parts.',
 [SP], [('span, as_bytes, as_writable_bytes, comparison operators', SP)])
FI = 'include/gul14/finalizer.h'
prop('C20', 'A final action runs exactly once, when its owner leaves scope',
 'The action given to finally()/FinalAction runs exactly once, at the destruction of the object that owns it, whether its scope is left normally, by return or by an exception; never earlier, and several actions run in reverse order of creation. Moving (construction or assignment) hands the action and its armed state over: the moved-from object never runs anything, and self-move-assignment changes nothing.',
 ['inputs', 'histories', 'fault_sequences'], 'every state of the object, every way of leaving the scope, every history of moves',
 TESTS + 'all histories of moves and all exits; double or lost execution after moves is invisible to straight-line tests.',
 [FI], [('FinalAction, finally', FI)])
ST = 'include/gul14/statistics.h'
prop('C21', 'Statistics functions take every element into account, once and in order',
 'For a container or an iterator range, with or without an accessor: accumulate is the left fold of the operation over all elements starting from zero; mean is the sum divided by the number of elements, rms the root of the mean square, standard_deviation the root of the sum of squared deviations from the mean divided by n - 1, together with that mean (NaN where undefined); maximum, minimum and min_max are the extreme values among all elements that are numbers (NaN, or the limit of an integer type, if there is none); median of data without NaN is the middle element in order, or the mean of the two middle ones, and leaves the data alone; remove_outliers removes min(k, n) elements, each the one farthest from the mean of those still there, keeps the order of the rest, and its copying forms leave the original alone.',
 ['inputs'], 'all ranges of any length and values',
 TESTS + 'all lengths and orders of the data: odd and even counts, empty and one-element ranges, NaN at any position, all-negative data, ties.',
 [ST], [('mean, rms, standard_deviation, accumulate, maximum, minimum, min_max, median, remove_outliers', ST)])
TR, TRC, TU = 'include/gul14/Trigger.h', 'src/Trigger.cc', 'include/gul14/time_util.h'
prop('C22', 'Trigger changes state atomically and no waiting thread misses it going high',
 'Under any interleaving of threads: trigger(), = true and the destructor make the trigger high and wake every waiting thread after it went high; reset() and = false make it low; conversion to bool returns the state; each does this in one critical section and touches the state only with the mutex held. wait() returns only after seeing the trigger high, wait_for, wait_until and sleep(duration, trigger) return the state seen at the end and give up only when exactly the given time limit has passed; a thread blocks only after seeing the trigger low under the very lock it waits with, so that no change to high is missed. No operation ends with the mutex held.',
 ['inputs', 'schedules'], 'all interleavings of any number of threads (by monitor reasoning), all time limits below 2^61 ns',
 TESTS + 'all interleavings; a lost wake-up or an unlocked access shows only under rare schedules.',
 [TR, TRC, TU], [('Trigger', TR), ('Trigger::trigger, reset, =, bool, wait', TRC), ('sleep', TU)])
TP, TPC = 'include/gul14/ThreadPool.h', 'src/ThreadPool.cc'
prop('C23', 'ThreadPool runs each task at most once, when due, in order; cancel is exact',
 'Under any interleaving of any number of threads: add_task queues exactly one task with the next id, the given start time (or now plus the given delay), function and name, and wakes a worker, or throws std::runtime_error exactly when capacity() tasks are pending and changes nothing. A worker takes a task only when it is due and no task added earlier is due, lists it (id and name) as running in the same critical section in which it leaves the queue, runs it exactly once without holding the mutex, survives an exception, and removes exactly its own entry afterwards; it sleeps only while nothing is due, no longer than until the first task is due, and ends only on shutdown. cancel removes the given task and nothing else and returns true exactly when the task was still pending, otherwise it has no effect; cancel_pending_tasks removes and counts all. count_pending, is_full, is_idle, is_shutdown_requested, get_running_task_names and the task state are consistent snapshots; a handle reports complete exactly when the task was started and has finished, canceled exactly when it left the queue without being started. Construction accepts exactly 1 to 10000 threads and capacities 1 to 10000000; destruction announces shutdown, wakes all workers and joins every thread before any member is destroyed. Shared state is touched only with the mutex held, and no operation ends with the mutex held.',
 ['inputs', 'schedules', 'histories'], 'all interleavings of any number of threads (by monitor reasoning with the pool invariant), all queue contents, all start times below 2^61 ns',
 TESTS + 'all interleavings and histories; races, lost wake-ups and tasks run early, twice or never show only under rare schedules.',
 [TP, TPC], [('ThreadPool, TaskHandle, add_task', TP), ('perform_work, cancel_pending_task, ~ThreadPool', TPC)],
 note='get_pending_task_names and make_shared only by the native cross-check; std::packaged_task, std::future, smart pointers, vector and std::find/find_if/min_element by contract')
OP = 'include/gul14/optional.h'
prop('C24', 'optional manages its one object exactly and compares as its value',
 'For any element type, also if its operations throw: an optional contains an object exactly when it was last given one (construction from a value or in place, make_optional, assignment or copy/move/swap from an engaged optional, emplace) and none after nullopt or reset(); the contained object has the given value and is constructed in free storage and destroyed exactly once, and no temporary object is left behind. Assigning to an engaged optional assigns to the contained object, to an empty one constructs it. If an element operation throws, only that exception escapes, no object leaks, and the optional is engaged as before (after a failed emplace: empty). has_value and operator bool tell whether there is an object; operator*, operator-> and value() refer to it, value() throws bad_optional_access exactly when there is none; value_or returns it, or the given value if there is none. Comparison operators (also with nullopt and plain values, on either side) compare like the values, with nothing before every value. std::hash of an optional is the hash of its value; an optional reference is rebound by copying, emplace and swap and never changes the object it refers to.',
 ['inputs', 'histories', 'fault_sequences'], 'all element types (element operations by contract), all states of one or two optionals, element operations that throw at any point',
 TESTS + 'exceptions from element operations at any point, self-assignment, all engaged/empty combinations of every operator; a leaked or doubly destroyed object is not visible to a test that compares values.',
 [OP], [('optional, optional<T&>, make_optional, comparison operators', OP)])
EX = 'include/gul14/expected.h'
prop('C25', 'expected holds exactly a value or an error, and calls back exactly when due',
 'For any value and error type: an expected holds a value or an error, never both or neither; it holds exactly what it was last given (value, unexpected, in place, emplace, default, copy, move, conversion, assignment, swap), each object is constructed in free storage and destroyed exactly once, and no temporary is left behind; if an operation of the value type throws during assignment of a value, swap, or emplace over an error, only that exception escapes, an error is kept as it was and a value stays alive. has_value, operator bool, operator*, operator->, value, error and value_or report what is held; value() without a value throws bad_expected_access carrying the error; == and != are true exactly for equal or different content, also against plain values and unexpected. map/transform and and_then call the function exactly once with the value and only if there is one, map_error/transform_error and or_else exactly once with the error and only if there is one; the result is what the function returned, and otherwise the value or error passed on unchanged; the same holds for expected<void, E>.',
 ['inputs', 'histories', 'fault_sequences'], 'all value and error types (their operations by contract; nothrow or not, trivially destructible or not), all states of one or two objects, value operations that throw at any point',
 TESTS + 'all combinations of states of both operands and of type traits that select different overloads; leaked or doubly destroyed objects and exceptions at any point.',
 [EX], [('expected, unexpected, bad_expected_access, and_then_impl, expected_map_impl, map_error_impl, or_else_impl', EX)],
 note='element operations are contracts; moves of the error type do not throw; initializer_list and explicit overloads only where they share the checked bodies')
VA = 'include/gul14/variant.h'
prop('C26', 'variant holds exactly one alternative, manages its lifetime and dispatches to it',
 'For any alternatives, also if their operations throw: a variant holds the alternative and value it was last given (default, value, in place, emplace, copy, move, assignment, swap); that object is constructed in free storage and destroyed exactly once, no temporary is left behind, assigning the alternative already held assigns to the object, any other destroys the old object first. If an operation throws, only that exception escapes, nothing leaks, and every variant involved either holds one live alternative or is valueless with none alive; assigning a different alternative whose move constructor is noexcept then leaves the variant unchanged, a failed emplace leaves it valueless. index, valueless_by_exception and holds_alternative report what is held; get returns exactly the held object and throws bad_variant_access exactly if the requested alternative is not held, get_if returns null instead; comparisons order by index (valueless first) and then by value; visit (also of two variants) calls the visitor exactly once with exactly the held objects, returns its result, and throws bad_variant_access exactly if a variant is valueless.',
 ['inputs', 'histories', 'fault_sequences'], 'three arbitrary alternatives (their operations by contract; nothrow or not, trivially destructible or not), all states of one or two variants, operations that throw at any point',
 TESTS + 'all combinations of the states of both operands with exceptions at any point and type traits that select different code; valueless variants and leaked or doubly destroyed objects are not seen by tests that compare values.',
 [VA], [('variant, get, get_if, holds_alternative, visit, comparison operators', VA)],
 note='three alternatives stand for any number (the recursive union and the visitation tables are instantiated by the compiler per count); visit with one and two variants')

DA = 'include/gul14/date.h'
prop('C27', 'Calendar dates, day numbers, weekdays and times of day convert exactly',
 'For every year from -32767 to 32767 of the proleptic Gregorian calendar: converting a valid year_month_day to sys_days or local_days gives its day number (1970-01-01 is 0, each following date one more), converting back gives the same date; year::is_leap, the length of a month (year_month_day_last) and all ok() members are exact. weekday of any day number is right (day 0 is a Thursday); weekday, month, year, day and year_month arithmetic and differences wrap and carry correctly for every amount; year_month_day plus or minus months or years keeps the day and moves exactly that far. The n-th and the last weekday of a month (year_month_weekday, year_month_weekday_last) convert to exactly that day, and a day converts to its year_month_weekday. All six comparisons of year, month, day, month_day, year_month, year_month_day and year_month_day_last order by time. hh_mm_ss splits a duration into sign, hours, minutes (below 60), seconds (below 60) and fraction that add up to it; make12, make24, is_am, is_pm, floor, ceil and round (ties to even) are exact, also for negative values.',
 ['inputs'], 'all dates of all representable years, all day numbers, all amounts of months, years and days that keep the year representable, durations up to 2^62 units',
 'There are no tests of date.h at all; no set of samples covers leap-year exceptions, negative years and negative day numbers, and wrap-around of months and weekdays.',
 [DA], [('year_month_day, year_month_weekday, weekday, month, year, year_month, hh_mm_ss, make12, make24, floor, ceil, round', DA)],
 note='parsing and formatting of dates through streams are not covered')
HD = 'include/gul14/hexdump.h'
prop('C28', 'hexdump prints every byte once, with offset, hex value and character',
 'hexdump and its stream, range and iterator forms print for every 16 elements one line with the offset, the two-digit hex values and the printable characters (a dot otherwise), for ranges of any length up to the given maximum.',
 ['inputs'], 'all ranges of any length and content',
 TESTS + 'all lengths and contents.',
 [HD], [('hexdump, hexdump_stream, HexdumpParameterForward', HD)], claimed=False,
 na='The text is produced entirely by chained std::ostream manipulators and inserters (setw, setfill, hex, operator<< of integers); a contract for that state and its formatting would be a model of the C++ stream library, and the obligation would be decided by that model rather than by the code in /repo. Not built.')
prop('C29', 'Dates and times parse and format through streams without loss',
 'to_stream/from_stream of date.h write every valid field in the requested format and read back the same value, for all format strings.',
 ['inputs'], 'all format strings and field values',
 TESTS + 'all formats and values.',
 [DA], [('to_stream, from_stream, format, parse', DA)], claimed=False,
 na='The code works on std::time_put/time_get facets, locales and stream states of the standard library, for which no contract within reach of the verifier exists.')
