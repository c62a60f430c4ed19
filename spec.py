"""One entry per property; gen.py turns this table into properties.jsonl and MANIFEST.json."""
L = 'library/Java/Lang/'
U = 'library/Java/Util/'

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), text=' '.join(text.split()),
                      why=' '.join(why.split()), files=files, mech=mech, technique=technique, note=' '.join(note.split())))


T_DIFF = 'runtime monitoring: differential oracle over seeded call histories under AddressSanitizer+UBSan'
T_RACE = 'runtime monitoring: ThreadSanitizer and history checker over stressed concurrent workloads with injected delays'
NOTE = ('Observes the real library, built from the working tree with ASan+UBSan, over tens of thousands of seeded, boundary-biased '
        'cases; silent on whatever those cases do not reach.')

P('S01', 'String queries and transformations follow java.lang.String on byte content',
  '''For every string content (including empty, repeated, embedded NUL and UTF-8 bytes) and every in- or out-of-range index, the
  search, slice, compare, hash, split, replace, trim, join, case-mapping and array-conversion operations of String return exactly
  what java.lang.String specifies, byte-wise, or throw StringIndexOutOfBoundsException where it does. None of them changes the
  receiver, equal strings always compare equal and hash equally (also after +=, [] or assignment), and no operation reads or writes
  memory it does not own or fails to return.''',
  'inputs histories', 'all receiver contents, arguments, indexes, and sequences of mutation and query',
  'the tests use a handful of short ASCII literals; boundaries, overlapping matches, NUL bytes and mutation after hashing are never driven',
  [L + 'String/String.cpp', L + 'String/String.hpp'],
  [('search and slicing', L + 'String/String.cpp: indexOf, lastIndexOf, subString, regionMatches'),
   ('rewriting', L + 'String/String.cpp: replace, replaceFirst, split, trim, toUpperCase/toLowerCase'),
   ('ordering and hashing', L + 'String/String.cpp: compareTo, equals, hashCode; String.hpp operators')],
  T_DIFF, NOTE)

P('S02', 'String::format and String::valueOf render values exactly as printf/Java would',
  '''For every format string and argument list of supported types, String::format yields the concatenation of the literal text and of
  each directive rendered like printf with its own argument (any width, flag, precision or length, "%%" included), whatever the size
  of the result, and reports a missing argument by an exception. valueOf/String construction of any value renders it exactly
  (integers in full, text verbatim), without reading outside any buffer or leaking.''',
  'inputs', 'all formats built from the supported directive grammar, all argument values and lengths',
  'tests use short results; conversions longer than the 128-byte scratch buffer and mixed directive lists are not reached',
  [L + 'String/String.cpp', L + 'String/String.hpp'],
  [('directive scanning and argument consumption', L + 'String/String.hpp: format/printObject'),
   ('rendering into a fixed buffer with a fallback', L + 'String/String.cpp: print overloads')],
  T_DIFF, NOTE)

P('S03', 'StringBuilder equals the character sequence its edit history describes',
  '''After any sequence of append, insert, delete, replace, reverse, setCharAt, setLength, ensureCapacity, trimToSize, copy and
  assignment calls, a StringBuilder's content, length, char access, substring and search results are those of java.lang.StringBuilder
  run on the same calls (text views stop at the first NUL byte). Out-of-range arguments throw an IndexOutOfBounds exception and
  leave the content unchanged; capacity never falls below length, copies are independent, and no call corrupts or leaks memory.''',
  'histories inputs', 'all sequences of operations, including ones that force regrowth, shrink to zero or fail in the middle',
  'tests apply one or two operations to a fresh builder; growth boundaries, failed calls and long histories are not sampled',
  [L + 'StringBuilder/StringBuilder.cpp', L + 'StringBuilder/StringBuilder.hpp'],
  [('manual buffer growth', L + 'StringBuilder/StringBuilder.cpp: ensureCapacityInternal, trimToSize, setLength'),
   ('in-place edits', L + 'StringBuilder/StringBuilder.cpp: insert, deletes, replace, reverse')],
  T_DIFF, NOTE)

P('S04', 'StringBuffer equals the character sequence its edit history describes',
  '''After any single-threaded sequence of append, insert, delete, replace, reverse, setCharAt, setLength, capacity, copy and assignment calls, a StringBuffer's content, length and search results are those of java.lang.StringBuffer run on the same calls (text views stop at the first NUL byte). A supplementary code point appends the low bytes of its surrogates, an invalid one throws InterruptedException. Out-of-range arguments throw an IndexOutOfBounds exception and leave the content unchanged; copies are independent and no call reads uninitialised or foreign memory.''',
  'histories inputs', 'all operation sequences and contents',
  'tests check one short literal per method; regrowth, empty buffers and combinations are not sampled',
  [L + 'StringBuffer/StringBuffer.cpp', L + 'StringBuffer/StringBuffer.hpp'],
  [('manual buffer growth and termination', L + 'StringBuffer/StringBuffer.cpp')],
  T_DIFF, NOTE)

P('S05', 'StringBuffer operations are atomic and race-free when threads share one buffer',
  '''When several threads call StringBuffer operations on the same object, every call takes effect atomically: the final content is
  the result of some sequential order of the calls, each appended piece appears whole and exactly once, and every read returns a
  state some prefix of that order produced. No interleaving deadlocks, races on memory or corrupts it.''',
  'schedules', 'all interleavings of threads sharing one buffer (or two buffers appended to each other)',
  'tests run StringBuffer from one thread only',
  [L + 'StringBuffer/StringBuffer.cpp', L + 'StringBuffer/StringBuffer.hpp'],
  [('per-object mutex', L + 'StringBuffer/StringBuffer.cpp: lock_guard in every public operation')],
  T_RACE, '''Observes schedules produced by 2-6 threads with random delays under ThreadSanitizer (happens-before, so one observed
  execution covers its reorderings) plus an atomicity oracle; schedules not produced are not covered.''')

P('N01', 'Integer, Long and Short parse and print inverse to each other, rejecting junk',
  '''Every int, long and short value printed by the library (decimal, hex, octal, binary and unsigned forms) is its exact
  canonical numeral and parses back to itself. parse, valueOf, decode and construction from text accept exactly the strings Java
  accepts - optional sign, at least one digit of the radix and nothing else, in range; radix 2 to 32 for Integer and 2 to 36 for
  Long; decode also 0x, # and 0 prefixes - and return the value they denote. Anything else is reported: by NumberFormatException
  for Integer and Short, by the value -1 for Long. Calls are independent: no result depends on an earlier call.''',
  'inputs histories', 'all values, radixes and candidate strings',
  'tests convert about ten literals per type; limits, trailing junk and call-to-call state are not driven',
  [L + 'Integer/Integer.cpp', L + 'Long/Long.cpp', L + 'Short/Short.cpp'],
  [('parsing', L + 'Integer/Integer.cpp: parseInt/decode/valueOf; Long.cpp, Short.cpp'), ('printing', L + 'Integer/Integer.cpp: toString family')],
  T_DIFF, NOTE)

P('N02', 'Integer and Long bit operations are the Java bit functions on every value',
  '''bitCount, highestOneBit, lowestOneBit, numberOfLeadingZeros, numberOfTrailingZeros, reverse, reverseBytes, rotateLeft,
  rotateRight and signum of Integer and Long, and reverseBytes of Short, equal the bit-level definition for every value and every
  distance, without undefined behaviour.''',
  'inputs', 'all 32/64-bit values and rotation distances',
  'each function has one or two literal assertions; sign bit, zero and distances outside the word are not sampled',
  [L + 'Integer/Integer.cpp', L + 'Long/Long.cpp', L + 'Short/Short.cpp'],
  [('bit tricks', L + 'Integer/Integer.cpp, Long.cpp')],
  T_DIFF, NOTE)

P('N03', 'Wrapper objects compute, compare and convert exactly like their primitive values',
  '''For every pair of values, arithmetic, compound assignment, comparison, equality, hashing, conversion and printing of Integer, Long and Short objects give what Java's wrap-around primitive arithmetic gives, and the object's printed text always agrees with its value after any sequence of updates. Division or remainder by zero throws ArithmeticException instead of killing the process; compareTo is a total order consistent with equals and hashCode. The published limits and sizes (MAX_VALUE, MIN_VALUE, SIZE, BYTES) are those of Java's int and long.''',
  'inputs histories', 'all operand pairs and update sequences, including overflow and zero divisors',
  'tests use two or three small positive operands per operator and never check the object after a chain of updates',
  [L + 'Integer/Integer.cpp', L + 'Long/Long.cpp', L + 'Short/Short.cpp'],
  [('operators', L + 'Integer/Integer.cpp, Long/Long.cpp, Short/Short.cpp')],
  T_DIFF, NOTE)

P('N04', 'Float and Double compute, compare, parse and expose bits like IEEE values',
  '''For every float and double value including NaN, infinities, signed zeros and subnormals, arithmetic, compound assignment, assignment and in-range narrowing of Float and Double objects give the IEEE/Java result, and the text form depends only on the value ("%g" for Float, 15 decimals for Double). compare, compareTo, equals, the relational operators, hashCode and std::hash form one consistent total order in which both zeros are equal and NaN equals itself and is greatest. The bit codes are sign and magnitude (zero is 0, the code of -x is the negated code of x, NaN the largest code) and convert back to the same value. Parsing returns the nearest value of numeric text, surrounding blanks ignored, and reports any other text by NumberFormatException. The published constants (infinities, NaN, extreme values, exponent ranges, widths and bit masks) are those of IEEE single and double precision.''',
  'inputs histories', 'all operand pairs, special values and candidate strings',
  'tests use a few finite decimals', [L + 'Float/Float.cpp', L + 'Double/Double.cpp'],
  [('operators and bit conversion', L + 'Float/Float.cpp, Double/Double.cpp')], T_DIFF, NOTE)

P('N05', 'Math functions return Java results and exact arithmetic never wraps silently',
  '''For every argument, Math's abs, min/max, floor/ceil/rint/round, floorDiv/floorMod, signum, ulp, nextUp/nextDown/nextAfter, copySign, scalb, getExponent, IEEERemainder and sqrt return the value java.lang.Math specifies (NaN, infinities, signed zeros, subnormals and integer limits included), the transcendental functions agree with it to a few ulps, and addExact, subtractExact, multiplyExact, incrementExact, decrementExact, negateExact and toIntExact return the exact result or throw ArithmeticException; floorDiv and floorMod by zero throw ArithmeticException. E and PI are the doubles nearest to the constants.''',
  'inputs', 'all argument values, including limits and non-finite doubles',
  'a few literals per function', [L + 'Math/Math.cpp', L + 'Math/Math.hpp'],
  [('overflow tests', L + 'Math/Math.cpp: *Exact'), ('rounding', L + 'Math/Math.cpp: round, floorDiv, floorMod')], T_DIFF, NOTE)

P('N06', 'Character, Boolean and Bytes agree with their primitives on every value',
  '''For every byte value (0..255), pair of values and update history, Bytes arithmetic wraps modulo 256, division by zero throws ArithmeticException, and comparison, conversion, hashing and text agree with the value; Bytes parsing and decode accept exactly the texts of 0..255 in the given radix and throw NumberFormatException otherwise. Character keeps, prints and consistently orders every char, digit(c, radix) is Java's, and codePointAt/Before/Count of ASCII arrays return the character, or -1 for a bad limit, start or count. Boolean parses exactly "true" in any case as true, and its comparison, equality, hash (1231/1237) and text are Java's. No code point outside the surrogate range is called a surrogate, and composed code points keep their distances; Bytes' published limits are those of an unsigned byte.''',
  'inputs', 'all 256 byte/char values, radixes and candidate texts', 'tests assert a few letters and one boolean pair',
  [L + 'Character/Character.cpp', L + 'Boolean/Boolean.cpp', L + 'Bytes/Bytes.cpp'],
  [('classification and conversion', L + 'Character/Character.cpp, Boolean/Boolean.cpp, Bytes/Bytes.cpp')], T_DIFF, NOTE)

P('L01', 'ArrayList behaves as a random-access sequence under any call history',
  '''After any sequence of add, insert (index 0..size), get, set, remove by index or by element, indexOf, lastIndexOf, contains, clear, clone, copy, assignment, forEach, ensureCapacity and trimToSize calls, an ArrayList holds exactly the elements, in the order, that a sequence would hold: size, get, iteration, toArray, toString (strings quoted unless they begin with a bracket or brace) and << all show it, a list made with a size holds that many default elements, a subclass's removeRange removes exactly its range, each call returns what Java's ArrayList returns, clones are independent, and a bad index throws IndexOutOfBoundsException leaving the list unchanged. Every element is created, moved and destroyed without use after destruction or leak.''',
  'histories', 'all operation sequences over element values with duplicates', 'tests check one call at a time on 3-5 elements',
  [U + 'ArrayList/ArrayList.hpp'], [('sequence operations', U + 'ArrayList/ArrayList.hpp')], T_DIFF, NOTE)

P('L02', 'Vector and Stack behave as growable sequences with LIFO access under any history',
  '''After any sequence of add, insert, addAll, set, remove, removeAll/retainAll, search, resize (setSize, ensureCapacity, trimToSize), clone, copy, assign, push, pop and peek calls, a Vector or Stack holds exactly the elements, in the order, of a sequence model; size, indexing, iteration, toArray and equals show it and each call returns what java.util.Vector/Stack returns (search: last position from the bottom). Capacity grows by the increment or doubles, never falls below size; a bad index throws IllegalArgumentException, an empty pop/peek EmptyStackException, both changing nothing; a subclass's removeRange removes exactly its range (at least one element). No element is lost, leaked or used dead.''',
  'histories', 'all operation sequences, capacities and increments', 'tests use tiny vectors and never exceed a few operations',
  [U + 'Vector/Vector.hpp', U + 'Stack/Stack.hpp'],
  [('growth', U + 'Vector/Vector.hpp: ensureCapacity/trimToSize/setSize'), ('LIFO access', U + 'Stack/Stack.hpp')], T_DIFF, NOTE)

P('L03', 'LinkedList behaves as a doubly ended sequence under any call history',
  '''After any sequence of add, addFirst/Last, offer*, push, pop, poll*, peek*, getFirst/Last, element, remove (end, index, node), set,
  clear, copy, assign and forEach calls, a LinkedList holds exactly the elements, in the order, of a double-ended sequence: size,
  get, iteration and forEach (which stops when its callback returns false, and may remove the visited node) show it. On an empty
  list peek*/poll* give the default value and get*/element/pop/remove* throw NoSuchElementException; a bad index throws
  IndexOutOfBoundsException; removing a node not in the list returns false. Every node is freed exactly once.''',
  'histories', 'all operation sequences including draining to empty and refilling', 'tests start from one fixed list',
  [U + 'LinkedList/LinkedList.hpp'], [('node linking', U + 'LinkedList/LinkedList.hpp')], T_DIFF, NOTE)

P('L04', 'PriorityQueue always yields its top element and keeps every element',
  '''After any sequence of add, offer, poll, remove, contains, toArray, copy, assign and clear calls, a PriorityQueue contains exactly the
  multiset of elements added and not removed; peek and poll always give its greatest element under operator< (this library's queue
  is largest-first), on an empty queue the default value; remove and contains report presence; and draining it yields the elements
  in descending order.''',
  'histories', 'all operation sequences with duplicates, removals from the middle', 'tests drain one or two fixed heaps',
  [U + 'PriorityQueue/PriorityQueue.hpp'], [('heap order', U + 'PriorityQueue/PriorityQueue.hpp')], T_DIFF, NOTE)

P('H01', 'HashMap and Set are exact maps and sets under any call history',
  '''After any sequence of put, putAll, putIfAbsent, replace, remove (key, or key and value), clear, copy, assign and iteration calls, a
  HashMap contains exactly the last value put for each key not removed, for any keys incl. colliding hashes and arbitrary bytes; get
  (default value if absent), getOrDefault, containsKey, containsValue, size, equals, forEach, iteration, entrySet and toString agree
  with that mapping and each call returns what java.util.HashMap returns. A Set holds each element added once; add tells whether it
  was new. Maps copied are independent and entries are destroyed exactly once.''',
  'histories', 'all call sequences over colliding, absent and overwritten keys', 'tests put a few distinct keys once',
  [U + 'HashMap/HashMap.hpp', U + 'Set/Set.hpp', U + 'Map/Map.hpp'], [('mapping', U + 'HashMap/HashMap.hpp')], T_DIFF, NOTE)

P('A01', 'Arrays and Array sort, search, copy, fill and compare like their specification',
  '''For every array content (raw pointer or Array) and inclusive index range, sort orders exactly that range as a permutation and touches nothing else, binarySearch returns the first index of the key inside the range or -1, fill/fillByIndex write exactly their inclusive range, copyOf truncates or pads with the default value, copyOfRange copies [from, to), converted if another element type is asked for, equals is element-wise and hashCode is Java's formula; an invalid range changes nothing, finds nothing, copies nothing. Array construction, push, += and indexing keep every element, copies are independent, length is exact, and a bad index throws. No access leaves the array.''',
  'inputs', 'all contents (sorted, reversed, constant, random), lengths and ranges', 'fixed arrays of 5-10 elements',
  [U + 'Arrays/Arrays.hpp', U + 'Arrays/Arrays.cpp', 'library/Kernel/Type.hpp'],
  [('sorting and searching', U + 'Arrays/Arrays.hpp'), ('array type', 'library/Kernel/Type.hpp')], T_DIFF, NOTE)

P('B01', 'BitSet equals a set of non-negative integers under any operation history',
  '''After any sequence of set, clear, flip, and/or/xor/andNot, copy and assignment calls over single bits and ranges - at, across and
  far beyond 64-bit word boundaries - a BitSet holds exactly the bits a mathematical set holds; get, nextSet/nextClear,
  previousSet/previousClear, length, cardinality, intersects, equality, hash and printing all agree with that set. Negative or
  reversed ranges throw and change nothing.''',
  'histories inputs', 'all bit positions, ranges and operation sequences', 'tests use a few bits below 128',
  [U + 'BitSet/BitSet.cpp', U + 'BitSet/BitSet.hpp'], [('word-mask arithmetic', U + 'BitSet/BitSet.cpp')], T_DIFF, NOTE)

P('T01', 'Thread runs its body exactly once; join, isAlive and state are consistent',
  '''Every started Thread runs its Runnable, function or overridden run exactly once, however often and from wherever start is called, on a thread whose id is getId and whose currentThread is the object. isAlive is true from start until the body ends and false once join returned; join returns to every caller, early only when its timeout has passed, and all effects of the run are visible after it. The name is the last one set, live threads have distinct ids, an unstarted or target-less thread joins at once, detaching twice or before start is an exception, and a detached thread survives its object. No schedule of start, join, query and destruction races, deadlocks or loses a thread.''',
  'schedules histories', 'all interleavings of creation, start, join, query', 'one thread at a time with sleeps',
  [L + 'Thread/Thread.cpp', L + 'Thread/Thread.hpp'], [('lifecycle', L + 'Thread/Thread.cpp')], T_RACE,
  'Schedules produced by the stress workloads under TSan and ASan; others are not covered.')

P('T02', 'Semaphore never over-grants, never loses a permit and never strands a waiter',
  '''In every schedule, the permits held never exceed the permits supplied (mutual exclusion for a binary semaphore), acquire and tryAcquire(n) take all n permits at once or none, a timed tryAcquire never gives up early, a failed one takes nothing, and availablePermits is at all times the initial permits plus releases minus acquires in some order of the calls (linearizable). No waiter whose demand is available sleeps on, whatever the sizes of demands and releases; negative counts throw IllegalArgumentException and change nothing.''',
  'schedules', 'all interleavings of acquire(n), tryAcquire, timed tryAcquire, drain and release(n)', 'tests acquire and release sequentially',
  [U + 'Concurrent/Semaphore/Semaphore.cpp', U + 'Concurrent/Semaphore/Semaphore.hpp'],
  [('permit accounting and wake-up', U + 'Concurrent/Semaphore/Semaphore.cpp')], T_RACE,
  'Schedules produced by stress with injected delays; a stall verdict needs every thread asleep with no context switch for seconds.')

P('T03', 'ConcurrentHashMap is linearizable per key and race-free',
  '''Concurrent put, get, getOrDefault, remove, replace (plain and conditional), putIfAbsent, containsKey, containsValue, size, isEmpty, clear, forEach and copy calls on one ConcurrentHashMap behave as if each took effect at one instant between call and return: every read returns a value that was current during it, removed values are returned to exactly one remover, no update is lost (also while the table displaces entries or grows), and the final mapping is that of some sequential order. Sequentially it is an exact map with equals, clone and forEach (which stops when its action returns false and may use the map). No interleaving deadlocks, races or corrupts memory.''',
  'schedules histories', 'all interleavings of map operations over few shared keys', 'single-threaded tests',
  [U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp'], [('locking', U + 'Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp')],
  T_RACE, 'Schedules produced by 3-6 threads over few keys; per-key histories decided by a Wing-Gong linearizability search.')

P('T04', 'ConcurrentLinkedQueue delivers every element exactly once, in order per producer',
  '''With any number of producers and consumers, each element put by add or offer into a ConcurrentLinkedQueue is returned by exactly one poll, never duplicated, lost, torn or invented, and destroyed exactly once; elements of one producer are seen by any one consumer in insertion order; poll of an empty queue gives the default value; and once all calls returned, size and isEmpty are exact and what was not polled is still there. One thread alone sees plain FIFO order, and clear empties the queue. No interleaving loses progress or corrupts memory; a queue with bounded content keeps its memory bounded and returns all of it when it is destroyed.''',
  'schedules', 'all interleavings of add and poll', 'tests use one thread',
  [U + 'Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp'], [('lock-free queue wrapper', U + 'Concurrent/ConcurrentLinkedQueue/')],
  T_RACE, 'Schedules produced by stress over unique element values; exactly-once and per-producer order decided offline.')

P('C01', 'Base64 encoding follows RFC 4648/2045 and decoding inverts it for all bytes',
  '''For every byte sequence, the basic, URL-safe, MIME (any line length and separator) and unpadded encoders emit exactly the RFC text in each of their forms and the matching decoder returns exactly the original bytes. Decoders accept exactly well-formed input: bad characters, wrong or missing second padding, truncated groups and trailing digits throw IllegalArgumentException, while the MIME decoder ignores foreign characters; separators with base64 characters are refused. A too small output array is refused before anything is written, and no input makes them read or write out of bounds.''',
  'inputs', 'all byte strings, encoder configurations and candidate texts', 'a few phrases', [U + 'Base64/Base64.cpp', U + 'Base64/Base64.hpp'],
  [('encode/decode loops', U + 'Base64/Base64.cpp')], T_DIFF, NOTE)

P('C02', 'MessageDigest computes MD5 and SHA-1 of any message under any chunking',
  '''For every message, however it is split into update calls and whatever their alignment, the MD5 and SHA-1 digests equal the RFC 1321 /
  FIPS 180 value, also beyond 2^32 bits of input; exactly the digest's bytes are written. A digest resets the object so that the next
  message starts afresh, reset discards pending input, a copied or assigned MessageDigest continues from the same state independently
  of the original, a null or too small buffer and an empty update are refused (InterruptedException) without any effect, unknown
  algorithms are refused, and separate objects in separate threads do not interfere.''',
  'inputs histories', 'all messages, lengths around the 55/56/64-byte block boundaries, chunkings and reuse sequences',
  'tests hash two short strings once', ['library/Java/Security/MessageDigest/'], [('block processing and padding', 'library/Java/Security/MessageDigest/md5.hpp, sha1.hpp, *MessageDigest.cpp')],
  T_DIFF, NOTE)

P('C03', 'URLEncoder and URLDecoder are inverse and total on every byte string',
  '''For every byte string, NUL and high bytes included, URLEncoder keeps letters, digits and "-_.~", turns a space into "+" and every other
  byte into %xx with lower-case hexadecimal digits, and URLDecoder turns the result back into the same bytes; decoding accepts both
  hex cases and "+" for a space, reports every malformed or truncated escape by IllegalArgumentException without reading past the
  text, and both refuse encodings other than the supported ones by UnsupportedEncodingException.''',
  'inputs', 'all byte strings and candidate encoded texts', 'a few URLs', ['library/Java/Net/URLEncoder/URLEncoder.cpp', 'library/Java/Net/URLDecoder/URLDecoder.cpp'],
  [('escape coding', 'library/Java/Net/URLEncoder/URLEncoder.cpp, URLDecoder/URLDecoder.cpp')], T_DIFF, NOTE)

P('U01', 'UUID text, bits, order and version agree and random UUIDs are unique',
  '''For every 128-bit value, a UUID prints as the canonical lower-case 8-4-4-4-12 text, parsing that text in either case gives back an equal
  UUID, and its most and least significant bits, version, variant, clock sequence (-1 unless version 1), node, hash and signed
  lexicographic order are those of the 128 bits. Text that is not five groups of hexadecimal digits (at most 8, 4, 4, 4 and 12, shorter
  groups taken as numbers) is refused by IllegalArgumentException. Random UUIDs carry version 4 and variant 2, every other bit varies,
  and they never repeat; time UUIDs carry version 1 and variant 2, encode the time of generation, increase within a thread and never
  repeat, also when many threads generate them at once.''',
  'inputs schedules', 'all 128-bit values, candidate texts and concurrent generation', 'one literal and one random UUID',
  [U + 'UUID/UUID.cpp', U + 'UUID/UUID.hpp'], [('packing and parsing', U + 'UUID/UUID.cpp')], T_DIFF, NOTE)

P('R01', 'Random reproduces the java.util.Random sequence and respects its bounds',
  '''For every seed and every sequence of calls, Random returns exactly the documented linear congruential sequence (nextInt, bounded
  nextInt, nextLong, nextDouble, nextFloat, nextBoolean, nextBytes, nextGaussian, nextString over letters and digits), bounded results
  lie in range, equal seeds give equal sequences, re-seeding restarts the sequence (dropping a spare gaussian), and a copy continues
  independently from the same point. A generator shared by threads hands out exactly its sequence, nothing twice and nothing skipped,
  without data races, and default-seeded generators differ. Non-positive bounds (InterruptedException) and negative lengths (IllegalArgumentException) are refused without any effect.''',
  'inputs histories', 'all seeds, bounds and call sequences', 'only checks that calls return', [U + 'Random/Random.cpp', U + 'Random/Random.hpp'],
  [('generator', U + 'Random/Random.cpp')], T_DIFF, NOTE)

P('D01', 'Date fields, order, parsing and formatting agree with the instant they denote',
  '''For every instant in milliseconds and every zone setting, a Date's getTime, year (counted from 1900), month, day of month, hour, minute,
  second, weekday, zone offset, toString, toLocaleString and toGMTString are the calendar reading of that instant under the zone rules of
  libc, and stay so while other Dates are created, changed or formatted. Field constructors and setters give an instant that reads as the
  given fields (out-of-range fields carry over; either reading of a repeated hour), setters keep the other fields and the milliseconds;
  Date::UTC takes its fields in UTC. before, after, equals, compareTo order Dates by instant and equal Dates have equal hash codes.
  Date::parse reads the documented English date texts, with or without time, AM/PM and zone (names or numeric offsets), to the exact second,
  reads back what toGMTString (and toString in a GMT or US zone) printed, and refuses malformed text with InterruptedException.
  SimpleDateFormat prints its strftime pattern, of any length and trimmed, in its own zone (GMT unless set) and leaves the Date, other
  Dates and the process zone unchanged; a TimeZone keeps its own id.''',
  'inputs histories', 'all instants, zones, field values, texts, format patterns and interleavings of several Date objects', 'one date at a time, in one zone, far from offset changes',
  [U + 'Date/Date.cpp', 'library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp', U + 'TimeZone/TimeZone.cpp'],
  [('calendar fields', U + 'Date/Date.cpp'), ('formatting', 'library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp')], T_DIFF, NOTE)

P('M01', 'MediaType parses, prints and matches media types consistently',
  '''For every type and subtype text, a MediaType exposes exactly the parts and parameters it was built from, keeps them through copies and
  assignments, prints as type/subtype, and valueOf of that text (blanks around it and a ";..." tail ignored, "*" read as "*/*") gives the
  same parts; empty parts, a missing "/" and a wildcard type with another subtype are refused by MediaTypeException. isCompatible is
  reflexive and symmetric and true exactly when either type is "*", or the types are equal and the subtypes are equal, either is "*", or
  one is a "*+suffix" wildcard with the other's suffix. The predefined constants are the media types they name.''',
  'inputs', 'all type/subtype/parameter texts', 'two literals', ['library/Javax/Ws/Rs/Core/MediaType.cpp', 'library/Javax/Ws/Rs/Core/MediaType.hpp'],
  [('parsing and matching', 'library/Javax/Ws/Rs/Core/MediaType.cpp')], T_DIFF, NOTE)

P('E01', 'Exceptions carry message and cause and are caught as their Java supertypes',
  '''Every exception type keeps the message and cause it was built with through throw, rethrow, copy, assignment and catch by value or
  reference, in any chain of causes, reports an empty message and no cause when none was given, builds the documented message from a
  value, and is caught by handlers for each of its superclasses (those of Java; the library makes InterruptedException and
  CloneNotSupportedException unchecked) and not by unrelated ones.''',
  'inputs programs', 'all exception classes, messages, nesting depths and copies', 'one literal per class, cause chains rarely',
  [L + 'Throwable/Throwable.cpp', L + 'Exception/'], [('message and cause storage', L + 'Throwable/Throwable.cpp')], T_DIFF, NOTE)

P('X01', 'Value objects survive any create/copy/assign/destroy history without leaks',
  '''Any history of creating, copying, assigning (also to itself and to a part of itself), passing, storing in containers and destroying (also through a pointer to a base class, also when copying an element throws) the library's value and container objects leaves every surviving object with its own value, frees everything it allocated exactly once, and leaves no growth in live memory once all objects are gone; nor does any other operation of the library leak what it allocates.''',
  'histories', 'all object life histories over all value types', 'tests never copy-assign most types and do not watch memory',
  ['library/Java/', 'library/Kernel/'], [('manual memory management', 'copy constructors, assignment operators, destructors')],
  'runtime monitoring: ASan with allocator accounting (live-byte steady state) over random object life histories',
  'Live heap bytes are read from the ASan allocator before and after repeated identical histories.')

P('X02', 'Independent objects used in different threads never interfere',
  '''Threads that each use only their own library objects, of any class, obtain exactly the results they would obtain alone; no hidden
  shared state makes one thread's calls affect another's or race on memory.''',
  'schedules', 'all interleavings of threads on disjoint objects', 'tests are single-threaded',
  ['library/Java/'], [('static and cached state', 'static locals, localtime/strtok-style buffers, mutable caches')], T_RACE,
  'Under TSan with an interceptor view of libc; each thread also compares its results with a sequential run.')

P('X03', 'No result of the library depends on uninitialised memory',
  '''Whatever the inputs and call history, no branch, memory access, system call or returned value of the library's text, number, math,
  collection, codec, digest, URI, UUID, random, date, media type and exception classes is decided by memory nobody wrote: every object is
  fully initialised by each of its constructors, copies copy every member, and every output buffer is written before it is read.''',
  'inputs histories', 'all inputs and call histories of all sequential classes', 'uninitialised memory happens to be zero in most test runs',
  ['library/Java/', 'library/Javax/'], [('constructors and buffers', 'constructors, copy constructors, local buffers')],
  'runtime monitoring: valgrind memcheck (bit-precise definedness tracking) over the workloads of every sequential driver',
  'The deciding oracle is memcheck alone; a value is reported when it decides a branch, an address or a system call, which includes every comparison the drivers make on results.')

P('K01', 'The program entry point delivers arguments intact and returns the exit status',
  '''A program started through Application runs once with an Array of exactly the argc given texts, in order and of its own (argv stays as it
  was); Application returns 0 if it returned, and 1 after printing "Application Exception: " and the message for a library Exception or
  "Unhandled Exception" for anything else thrown. System.exit ends the process with exactly that status. Everything printed through
  System.out appears completely and in order, even if the process dies abruptly right afterwards. System.getenv gives the exact value of a
  variable ("" when unset), and currentTimeMillis is the wall clock in milliseconds.''',
  'inputs', 'all argument vectors, program outcomes, printed texts and environments', 'the test program passes no arguments and never ends by an exception, exit or crash',
  [L + 'Object/Object.cpp', 'library/Kernel/Java.hpp', L + 'System/System.cpp'], [('entry point', L + 'Object/Object.cpp'), ('system queries', L + 'System/System.cpp')],
  T_DIFF, NOTE)

P('K02', 'Objects have identity; value classes agree on equality, hash, order and text',
  '''Two Objects are equal (equals, ==, !=) exactly when they are the same object, unless their class overrides equals, which ==, != and calls
  through Object then follow; an Object's hash stays constant, toString is its type name, "@" and the hash in hex, and instanceof holds for
  exactly its own type. For Integer, Long, Short, Bytes, Boolean, Float, Double (ordinary numbers), String, Date, UUID, BitSet and Enum, ==, !=,
  equals, compareTo and the order operators all reflect the denoted value alone, also for different values of equal hash, for copies and
  for assigned objects; equal values have equal hashCode, std::hash and text, different values different text; and each works as a map key.''',
  'inputs histories', 'all pairs of values, however created, in particular pairs with colliding hashes', 'tests compare one or two literals per class and operator',
  [L + 'Object/Object.hpp', L + 'Enum/Enum.hpp', 'library/Java/Util/Date/Date.hpp', 'library/Java/Util/UUID/UUID.hpp', 'library/Java/Util/BitSet/BitSet.hpp'],
  [('identity equality', L + 'Object/Object.hpp'), ('value equality', 'operator== / equals / hashCode of the value classes')], T_DIFF, NOTE)

P('K03', 'URLs and URL connections keep every setting independently from construction on',
  '''A URL without specification has empty parts, port -1 and prints as "://", and so do its copies. A fresh URLConnection reads input and does not write output, uses caches, allows no user interaction, and has zero timeouts and modification time, a fresh HttpURLConnection also method GET, response code -1 and no message, whatever was in its memory before; each setter changes its own setting only, for any value; connections print as their URL, dispatch connect and disconnect to the subclass, and copies are independent of one another. The HTTP_* constants have the status codes of the HTTP standard.''',
  'histories', 'all sequences of setters and copies over all values', 'no test creates a connection at all',
  ['library/Java/Net/URL/URL.cpp', 'library/Java/Net/URLConnection/URLConnection.cpp', 'library/Java/Net/HttpURLConnection/HttpURLConnection.cpp'],
  [('settings', 'library/Java/Net/URLConnection/URLConnection.cpp')], T_DIFF, NOTE + ' Parsing of URL texts is a recorded finding: the library does not do it.')

P('K04', 'The test runner runs each selected test once and reports exactly its verdict',
  '''ApplicationTest runs every registered test whose suite and test name start with the given arguments exactly once, in registration order,
  between its setup and teardown; skipped tests are not run. A test fails exactly when an assertion it executed is violated, is ended
  there, and the report shows the compared values; otherwise it is OK. Each assertion macro holds exactly when the compared values (their
  texts, for assertEquals) are equal, different, null, true, false as its name says. Headings, log lines, the totals in the summary and the
  returned number of failures agree with what happened, also after a failure message of any length.''',
  'inputs programs', 'all test programs, assertions, values and filters', 'the tests of the repository run under this very runner and hardly ever fail',
  ['library/Test.hpp', L + 'Object/Object.cpp'], [('runner', 'library/Test.hpp')],
  'runtime monitoring: generated test programs run in child processes, reported verdicts checked against a call log and the values',
  'Runs without sanitizers: finding the registered tests by walking their section reads past its ends by design.')

# properties listed but not claimed: id -> reason
NOT_APPLICABLE = {}
