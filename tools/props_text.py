SIMNOTE = "Seeded search, not exhaustive: a clean batch is evidence, not proof. Trusts the simulated kernel, clock and pthread model, sequentially consistent memory, and that allocation succeeds."
C = "src/core/"
H = "include/core/"

prop("C01", "An object lives exactly as long as someone holds a reference to it",
 "A reference counted object is destroyed exactly once, exactly when the last reference to it is given up, whichever threads take and give up references and in whatever order they do so. While a reference is held the object is usable, unchanged and marked (high bit) as last set; when none is held and no deferred release is outstanding it no longer exists, and whenever nothing runs its reported count equals the references outstanding; a copy of an object has references of its own, and assignment changes none.",
 ["schedules", "histories"], "every interleaving of retain, release, autorelease, drain and flag changes by several threads over shared objects, and every ownership history",
 "The tests retain and release from one thread in one fixed order; an update lost between two threads, or an object destroyed by two of them, needs a specific preemption inside the count update.",
 [C+"Object.cpp", H+"Object.h", C+"AutoreleasePool.cpp"],
 [("retain/release/autorelease, atomic count with high flag bit", C+"Object.cpp"), ("pool hands every deferred reference back exactly once", C+"AutoreleasePool.cpp")],
 SIMNOTE)

prop("C02", "Deferred releases happen exactly once, at the next drain, in order",
 "Every deferred release request gives up exactly one reference: not before the next drain of the pool begins, and by the time a drain that began after the request returned (and every drain it overlapped) has finished; the end of the library is a last drain. Requests made concurrently from any thread, during a drain, or from the destructor of an object a drain is destroying are neither lost nor performed twice nor deadlock, and requests of one thread are performed in the order they were made.",
 ["schedules", "histories"], "every interleaving of threads that request deferred releases with threads that drain the pool, including requests made from inside destructors",
 "The tests drain from one thread with nothing else running; a request that arrives while the pool is being emptied is never sampled.",
 [C+"AutoreleasePool.cpp", H+"AutoreleasePool.h", C+"Object.cpp"],
 [("pool list under a mutex, drained until empty", C+"AutoreleasePool.cpp")],
 SIMNOTE)

prop("C03", "A mutex excludes, and a wake-up continues exactly one sleeper",
 "At most one thread at a time is between acquiring and releasing a mutex, and a thread that waits for it acquires it once it is free. A thread that sleeps on the mutex does not hold it, neither while it is asleep nor afterwards; it continues only because of a wake-up, and each wake-up issued while at least one thread sleeps, by a thread that holds the mutex or not, makes exactly one continue.",
 ["schedules", "fault_sequences"], "every interleaving of lockers, sleepers and wakers, with scheduling stalls and clock jumps as faults",
 "The tests use the mutex from one or two threads in one order; what happens when lockers, several sleepers and wakers meet at the same instant cannot be provoked that way.",
 [C+"Mutex.cpp", H+"Mutex.h"], [("mutex plus condition variable", C+"Mutex.cpp")],
 SIMNOTE + " Assumes that the platform's condition waits do not end spuriously.")

prop("C04", "A started thread runs once, and interrupting it waits for its end",
 "A successful start runs the thread's body exactly once, in another thread; a start that fails reports an error and runs nothing. The thread counts as alive from its successful start at least until its body ended or it was interrupted, and interrupting returns only after the body ended, never blocks for ever whatever the body is doing (working, sleeping, timed sleeping, already finished), and leaves the thread startable again. A running thread carries the name that was given last, before or after its start, if the system accepts it, and only the thread the program began with counts as the main thread.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of one controlling thread with the threads it starts, wakes, interrupts and starts again, with thread creation failing at any time",
 "Whether an interrupt arrives just before the body falls asleep is a matter of a few instructions; the tests only reach the easy order, and never a failing thread creation.",
 [C+"Thread.cpp", H+"Thread.h"], [("start/interrupt/isAlive handshake", C+"Thread.cpp")],
 SIMNOTE + " Assumes that the platform's condition waits do not end spuriously.")

prop("C05", "A timed sleep lasts as long as asked, whatever the wall clock does",
 "A sleep of a given number of milliseconds does not return before that time has passed unless the thread is woken up or interrupted, and does return soon after it has passed. A wake-up or an interruption ends it at once, and changes of the system's wall clock neither shorten nor lengthen it.",
 ["schedules", "fault_sequences", "inputs"], "every duration, interleaving with wakers, and sequence of wall clock jumps and scheduling stalls",
 "A test cannot set the system clock, and real sleeps make only short durations and lucky timings affordable.",
 [C+"Thread.cpp", H+"Thread.h"], [("timed condition wait with a deadline", C+"Thread.cpp")],
 SIMNOTE + " Assumes that the platform's condition waits do not end spuriously.")

prop("C06", "Log messages of concurrent threads are complete, whole and in order",
 "Every log message at or above the console level is written exactly once, as one unbroken line with its level and text, and the messages of one thread appear in the order it logged them, however many threads log at once; a message has been written out when the call that logged it returns. The last error message reported to any thread is the whole text of an error message that was logged, and the latest one when no thread is logging.",
 ["schedules", "histories"], "every interleaving of threads that log, at all levels and message sizes, and that ask for the last error message",
 "The tests log from one thread; torn lines and half-updated strings need two threads inside the logger at once.",
 [C+"System.cpp", H+"System.h", H+"String.h"], [("logger lock", C+"System.cpp")],
 SIMNOTE)

prop("C10", "A file holds exactly the bytes written to it",
 "Reading, writing, seeking and closing any number of open files, and opening them again in any mode, behave as on a byte sequence with one position per open handle: what was written is what is read back, counts, sizes and positions are right, and reading mode cannot modify. This holds whatever sizes, offsets and buffer boundaries are used, for copies of a file object too, and no handle stays open after it was closed.",
 ["histories", "fault_sequences"], "every history of open, read, write, seek, position, close, reopen over several files and handles, with short transfers and slow I/O as legal behaviour of the system",
 "The tests write and read back one small file in one go; the combinations of mode, seek, partial reads and buffer boundaries are unbounded.",
 [C+"File.cpp", H+"File.h", C+"Stream.cpp", H+"Stream.h"], [("buffered stdio handle per File", C+"File.cpp")],
 SIMNOTE)

prop("C11", "Disk errors are reported and never turn into wrong data",
 "When opening, reading, writing, seeking or closing meets a disk error, a full disk or a refused permission, the failing call (or at the latest closing the file) reports it; a call that reports success did what it says. Whatever errors occur, and even if the process is killed at any point, the disk holds only bytes that were written where they were written, what was closed without error is intact, and no handle is left open.",
 ["fault_sequences", "crash_points", "histories"], "every sequence of injected open, read, write, seek and close errors, full disks, short and torn writes, and a kill before any system call, over histories as in C10",
 "Unit tests run on a disk that never fails; no error path of the file code is executed by them.",
 [C+"File.cpp", H+"File.h"], [("status results and errno evaluation", C+"File.cpp")],
 SIMNOTE)

prop("C12", "Directory operations do what they say, completely or not at all",
 "Creating, renaming, removing and listing files and directories, and every query about a path, agree with the state of the file system: success means the named effect and no other happened, failure is reported, has a reason, and leaves everything as it was; a relative path starts at the current directory, and the parts of a name (parent, name, extension, absolute path) belong to the same entry. Removing takes exactly the named entry (a link itself, a directory only if it is empty), and a listing returns every entry that existed throughout exactly once, also while other processes change the directory or system calls fail.",
 ["histories", "fault_sequences", "inputs"], "every history of path operations over trees with links, missing parents, odd names and permissions, with system call errors and concurrent changes of the directory",
 "The tests check a handful of paths on an idle disk without errors; the interplay of links, normalisation, races and failing calls is never sampled.",
 [C+"File.cpp", H+"File.h"], [("path normalisation, createNewFile, makeDirectory, remove, renameTo, listFiles, status queries", C+"File.cpp")],
 SIMNOTE)

prop("C13", "Tags of a file are kept exactly, and failures lose nothing",
 "The tags read from a file are exactly those that were added and not removed since, in any process, each once, whatever characters and how many there are. An operation on tags that cannot read or write the stored tags reports it and leaves the previously stored tags intact.",
 ["histories", "fault_sequences", "inputs"], "every history of adding, removing and reading tags over several files and process starts, with failing and unsupported extended attributes",
 "The tests skip or sample two tags on one file; attribute size limits and failing attribute calls are not reachable from them.",
 [C+"File.cpp", H+"File.h"], [("extended attribute list user.xdg.tags", C+"File.cpp")],
 SIMNOTE)

prop("C14", "Preferences survive to the next process exactly as they were saved",
 "After the preferences were saved successfully, the next process to load them finds exactly the saved keys and values, whatever text the values contain, and also if the saving process is killed afterwards; a file edited by hand loads as its lines say. A load or save that meets a disk error reports it and a failed load changes no value; if a process is killed while it saves, the next one finds the old or the new preferences.",
 ["histories", "crash_points", "fault_sequences", "inputs"], "every sequence of processes that load, change and save preferences, with disk errors and kills at any system call; keys without '=' and line breaks, values of any text without NUL",
 "The tests load one well-formed file; saving, odd values, later processes and failures in between are not covered.",
 [C+"Preferences.cpp", H+"Preferences.h", C+"System.cpp"], [("escaped key=value lines", C+"Preferences.cpp"), ("load at start, save on request", C+"System.cpp")],
 SIMNOTE + " A kill between truncation and completion of a save is a recorded known finding (class torn-by-crash).")

prop("C07", "Threads that share no objects do not disturb each other",
 "Threads that use only objects of their own get exactly the results that each of them gets when it runs alone, whatever the interleaving: converting and formatting numbers and dates, strings, charsets, time zones, hashing, compression, XML, exceptions, directories, tags, geometry, properties, undo and deferred releases have no shared hidden state that one thread could damage for another.",
 ["schedules", "histories"], "every interleaving of two or three threads, each performing its own random history of library operations on objects only it knows",
 "The tests run in one thread; hidden shared state such as lazily built tables, static buffers and default objects shows only when two threads meet inside them.",
 [C+"System.cpp", C+"Charset.cpp", C+"String.cpp", C+"TimeZone.cpp", C+"Date.cpp", C+"DateFormatter.cpp", C+"NumberFormatter.cpp", C+"Exception.cpp", C+"Rect.cpp", C+"Geometry.cpp", C+"Property.cpp", C+"NURBS.cpp", C+"Transform.cpp", C+"DiffDistance.cpp", C+"ZipOutputFile.cpp", C+"Inflater.cpp", C+"UndoManager.cpp"],
 [("static tables and default objects", C+"Charset.cpp"), ("static notation and default objects of strings and formatters", C+"String.cpp")],
 SIMNOTE)

prop("C15", "Memory streams and resources behave as byte sequences with a position",
 "A memory stream reads and writes the bytes of its array at its position and nothing else: transfers beyond the end are cut short and counted, positions outside the array are never assumed, and an array handed over is freed exactly once, another never. A resource reads the bytes of its file; copies and assigned resources share one stream that is released with the last of them; a disk error gives a reported error or a short count, never wrong bytes.",
 ["histories", "fault_sequences"], "every history of read, write, seek, move, open, close, copy, assign and destroy, with errors of open, read and stat calls",
 "The tests use neither; a write at the very end, a negative move or an assignment of an open resource are not sampled.",
 [C+"MemoryStream.cpp", H+"MemoryStream.h", C+"Resource.cpp", H+"Resource.h", C+"Stream.cpp"], [("array plus position", C+"MemoryStream.cpp"), ("shared, reference counted stream", C+"Resource.cpp")],
 SIMNOTE)

prop("C16", "A ZIP archive that was closed without error holds exactly its entries",
 "After an archive was written and closed without a reported error, every reader finds exactly the entries that were put into it, in order, with their names and all their bytes, and nothing else, even if it replaces an older archive, an entry was left open, or several archives are written in the same directory at the same time. A disk error while writing or reading is reported, other files stay as they are, and no temporary file or handle is left behind.",
 ["histories", "fault_sequences", "crash_points", "inputs"], "every history of putting, filling and closing entries in one or two archives, adding files, replacing and reading archives, with errors of every file operation, full disks, short transfers and kills",
 "No test touches the archive classes; their error paths need a failing disk.",
 [C+"ZipOutputFile.cpp", C+"ZipFile.cpp", H+"ZipFile.h"], [("local headers, temporary file, directory", C+"ZipOutputFile.cpp"), ("directory search and extraction", C+"ZipFile.cpp")],
 SIMNOTE)

prop("C17", "Damaged or foreign archives never give wrong data",
 "A valid archive of another program (stored or deflated entries, extra fields, comments, data descriptors) gives exactly its entries. An archive that was damaged in storage, by flipped bits, lost or misplaced blocks or truncation, or that cannot be read without errors, is refused with an exception or gives the original bytes of the entries it still shows; memory outside of the archive is never touched and no memory or handle is lost.",
 ["inputs", "fault_sequences"], "every valid archive of other programs, every damage of it and every sequence of read errors",
 "No test reads an archive, let alone a damaged one; the space of damages is unbounded.",
 [C+"ZipFile.cpp", H+"ZipFile.h", C+"Inflater.cpp"], [("checked directory and entries, checksum", C+"ZipFile.cpp")],
 SIMNOTE + " Damage that keeps all checksums is out of scope.")

prop("C18", "Compressed data come back exactly, and damage is noticed",
 "Any bytes compressed by this library decompress to themselves here and in other programs, and any valid DEFLATE or zlib data of other programs, with all block types, code lengths and distances, decompress to exactly what was compressed. Data that were cut off or damaged in storage are refused with an exception unless they still yield the original bytes (or, without a checksum, are valid data themselves); decompression always ends, touches no foreign memory and loses none.",
 ["inputs", "fault_sequences", "crash_points"], "every byte string and every valid compressed form of it, stored under short, failing and interrupted writes, and every damage of the stored bytes",
 "The tests compress and decompress a few fixed texts; block types, code tables and damages form an unbounded space.",
 [C+"Inflater.cpp", C+"Deflater.cpp", H+"Inflater.h", H+"Deflater.h"], [("DEFLATE decoder", C+"Inflater.cpp"), ("zlib wrapper", C+"Deflater.cpp")],
 SIMNOTE)

prop("C19", "XML documents read back as they were written, or the loss is reported",
 "A document written with the XML writer whose end was reported as successful is read back by the XML parser with exactly its elements, nesting, attributes and text, whatever characters these contain and whatever stream or file it went through; the writer reports every document that was not stored completely. The parser reads well-formed documents of other writers (either kind of quotes, free white space inside of tags, empty elements, the five predefined entities) in the same way, delivers the events of a file only if it could read all of it, delivers the beginning of a document that was cut off by a kill, comes to an end for any text and leaves no file open.",
 ["histories", "fault_sequences", "crash_points", "inputs"], "every document (nesting, attributes, text with markup and any characters, base64, indentation), every stream capacity, every sequence of open, read, write, close and disk-full errors, a kill at any system call, and any damage of the stored text",
 "No test uses the XML classes; escaping is a property of all texts, and a document that was stored only in part needs a failing disk.",
 [C+"XMLWriter.cpp", H+"XMLWriter.h", C+"SAXParser.cpp", H+"SAXParser.h", C+"SAXAttributes.cpp", C+"Base64.cpp"],
 [("escaping and element stack", C+"XMLWriter.cpp"), ("tag scanner and unescaping", C+"SAXParser.cpp"), ("attribute lists", C+"SAXAttributes.cpp")],
 SIMNOTE)

prop("C20", "Translations are the stored ones, and damaged catalogues do no harm",
 "A text is translated as stored in the catalogues that were added, the latest deciding, and stands for itself if it has no translation. The most specific catalogue that exists for application, language and region is used. A catalogue that is damaged or cannot be read is ignored or adds only what is really stored in it; it never invents translations, touches memory outside of it, leaves a file open or keeps the library from starting.",
 ["histories", "fault_sequences", "inputs"], "every sequence of catalogues in all layouts of the MO format, every damage of their bytes, every sequence of open, read and stat errors, and every set of catalogue files present",
 "No test loads a catalogue; offsets that point anywhere and a disk that fails during the start are unbounded input and fault spaces.",
 [C+"I18nBundle.cpp", H+"I18nBundle.h", C+"Preferences.cpp", C+"System.cpp"],
 [("MO reader", C+"I18nBundle.cpp"), ("choice of the catalogue", C+"I18nBundle.cpp")],
 SIMNOTE)

prop("C21", "Undo and redo restore every earlier state exactly",
 "In a document whose changes are registered with the undo manager (members of all supported types, references, lists, object creation and destruction), undo brings back exactly the state before a step and redo the state after it, in any number and order; a new change ends the redoable future; a transaction that fails or is rolled back leaves no trace at any nesting depth, and a committed one becomes part of the step. setMember() refuses invalid values without a change and registers real ones. An object lives as long as the document or a step can reach it and no longer; lists always contain exactly what the operations put in, forwards and through iterators; nothing is lost in memory.",
 ["histories"], "every history of creations, changes, reference and list operations, destructions, steps, nested and failing transactions, undos, redos and stack resets",
 "Tests walk a few short histories; undo correctness and object lifetimes are properties of all interleavings of operations, steps and transactions.",
 [C+"UndoManager.cpp", H+"UndoManager.h", C+"UndoStep.cpp", C+"UndoChange.cpp", C+"EditableObject.cpp", C+"LinkedList.cpp", H+"LinkedList.h", C+"Document.cpp"],
 [("steps, stacks and transactions", C+"UndoManager.cpp"), ("swapping of old and new values", C+"UndoChange.cpp"), ("registered list operations", C+"LinkedList.cpp")],
 SIMNOTE + " Undo of raw buffers is not implemented in the library and not part of the property.")

prop("C22", "Dates agree with the clock and the Gregorian calendar",
 "A new date holds what the clock shows at that moment, to the millisecond, however the clock jumps or threads are delayed; log lines start with the time at which they were written, and a file's modification time is that of its last change (1 January 1970 if it cannot be determined). For every time from the year -9999 to 9999 the fields, the day of the week and of the year and the order of dates, and from the year 1 on the text form and the formats built from the implemented pattern letters (y M d D H E m s S, quoted and other text) are those of the Gregorian calendar, and a date made from fields is that time (excess days, hours and so on carry over).",
 ["inputs", "schedules", "fault_sequences"], "every clock reading and jump, every time of the years -9999 to 9999, every pattern of the implemented letters, every interleaving of threads that share a formatter, and every stat error",
 "Tests format a few fixed times; clock jumps do not happen in tests, and calendar rules fail at dates nobody samples.",
 [C+"Date.cpp", C+"DateFormatter.cpp", H+"Date.h", C+"System.cpp", C+"File.cpp"],
 [("calendar arithmetic", C+"Date.cpp"), ("patterns", C+"DateFormatter.cpp"), ("log time", C+"System.cpp"), ("file time", C+"File.cpp")],
 SIMNOTE + " The pattern letters that the header lists but the library does not implement (w W F a K h k z) and times outside of the years -9999 to 9999 are not part of the property; local time is UTC, as the library defines it.")

prop("C23", "The environment is reported as it is, whatever it answers",
 "Language, user, home, settings, resource and working directory, program path and network address are those of the environment at the moment of the question: the language of messages even in mixed locales, the whole path of a program wherever it lies, the address of the first Ethernet interface, the libraries and symbols that the dynamic linker finds. What the environment does not know (variables, users, locales or interfaces that are missing, addresses that are absent, system calls that fail) is reported as empty or not found, never as garbage, with an exception or a crash; nothing is leaked (each library stays open until it is unloaded), and the library starts and ends in any environment, with its pool, preferences and the objects left to them gone afterwards.",
 ["configurations", "fault_sequences", "histories"], "every environment (variables, locales, users, interfaces, program and working paths), every failure of the calls that ask for it, and every sequence of questions while it changes",
 "Tests run in the one environment of the build machine, where nothing is missing and no call fails.",
 [C+"System.cpp", H+"System.h", C+"File.cpp"], [("language, user, network address, dynamic libraries, start and end", C+"System.cpp"), ("directories and program path", C+"File.cpp")],
 SIMNOTE)

prop("C24", "Texts survive every character set that has their characters",
 "A text encoded in UTF-8, Windows-1252, MacRoman, UTF-16 (both byte orders), RAW or ASCII has exactly the bytes the character set defines for its characters (characters above U+FFFF are surrogate pairs in memory and one sequence in UTF-8), and reading these bytes, from a string, a sized buffer or a byte array, gives the text back, in any thread. Bytes that were cut off or damaged in storage give the text up to the damage; no charset reads outside of the bytes it is given, and no memory is lost. The guessed charset reads every ASCII and UTF-8 text, every text with a byte order mark and every Latin-1 text in UTF-16.",
 ["inputs", "fault_sequences", "crash_points", "schedules"], "every text of the characters of each charset, every prefix and damage of its bytes, stored under short, failing and interrupted writes, and every interleaving of threads that share the charsets",
 "Tests convert a few German words in UTF-8; character tables and damaged sequences are unbounded input spaces.",
 [C+"Charset.cpp", H+"Charset.h", C+"UTF8Decoder.cpp", C+"UTF16Decoder.cpp", C+"Windows1252Decoder.cpp", C+"MacRomanDecoder.cpp", C+"CharsetDecoder.cpp", C+"String.cpp"],
 [("decoders", C+"UTF8Decoder.cpp"), ("guessing and lookup", C+"Charset.cpp"), ("construction from bytes", C+"String.cpp")],
 SIMNOTE + " Characters a charset does not have, U+0000, unpaired surrogates and texts that begin with a byte order mark of their own are out of scope.")

prop("C25", "Texts and collections are what their history of operations makes them",
 "After any sequence of operations, texts, byte arrays, text lists, hash tables, stacks and arrays contain exactly what the operations put in (a mutable sequence, a map, a last-in-first-out list), also if an argument is the object itself or one of its elements; copies are independent; searching, comparing, cutting, replacing, tokenizing, joining and filling placeholders give what these contents define. Positions outside are refused with an exception and change nothing; no operation touches memory outside, and all memory is released. Numbers become the text that denotes them and vice versa, for every value.",
 ["histories", "inputs"], "every sequence of operations on several objects that are copied from each other, with every argument including the objects themselves, positions outside and keys of equal hash",
 "Tests call one operation on a fresh object; aliasing, shared caches (hash, termination, null state) and growth only matter in histories, and border values are an unbounded input space.",
 [C+"String.cpp", H+"String.h", C+"StringList.cpp", C+"ByteArray.cpp", C+"Hashtable.cpp", H+"Stack.h", H+"Array.h", C+"Integer.cpp", C+"StringTokenizer.cpp"],
 [("texts", C+"String.cpp"), ("byte arrays", C+"ByteArray.cpp"), ("hash table", C+"Hashtable.cpp"), ("lists", C+"StringList.cpp"), ("numbers", C+"Integer.cpp")],
 SIMNOTE + " There is no concurrency in this property; the simulator contributes seeded histories, exact replay, minimisation and the checked heap. Case mapping outside of ASCII and the German umlauts, the mixed order of compareFancyTo() and placeholders like %01 are out of scope.")

prop("C26", "Binary records come back exactly, and damage is noticed",
 "A number serialized in either byte order (16, 24, 32 and 64 bit, float, double) has exactly the bytes of that order at its place, touches no other byte and reads back as the same value from buffers and byte arrays at any offset. The check sum is CRC-16 whatever the pieces in which it is calculated, and notices every damaged burst of up to 16 bits; Base64 gives the standard text of any bytes, and decoding gives back exactly these bytes; a text that was cut off or damaged yields the bytes in front of the damage. Records appended to a file are read by the next process as written if the append was reported as successful, whatever happened to later ones.",
 ["inputs", "fault_sequences", "crash_points"], "every record of numbers of all kinds in every order of writing, every byte sequence, every cut and burst of damage, every sequence of write faults and crash points",
 "The tests do not touch these parts; values, offsets, lengths modulo 3 and damage are unbounded input spaces, torn appends do not happen in tests.",
 [C+"Serializer.cpp", C+"CRC.cpp", C+"Base64.cpp", C+"File.cpp"],
 [("numbers to bytes", C+"Serializer.cpp"), ("check sum", C+"CRC.cpp"), ("text form", C+"Base64.cpp")],
 SIMNOTE)

prop("C27", "Objects that nobody changes can be read by any number of threads",
 "Constant operations on shared objects (texts, lists, byte arrays, tables, linked lists through iterators of their own, dates and formatters, matrices, preferences, files and directories, arrays, colours, character sets, messages), copies of them that are changed afterwards, and retaining and releasing them, yield in every thread what they yield alone, however many threads read at the same time, and leave the objects as they were.",
 ["schedules"], "every interleaving of two or more threads that read the same objects with any operations",
 "Tests run in one thread; a cache or a shared buffer in a constant operation only shows under particular interleavings.",
 [C+"String.cpp", C+"StringList.cpp", C+"ByteArray.cpp", C+"Hashtable.cpp", C+"LinkedList.cpp", C+"Date.cpp", C+"DateFormatter.cpp", C+"Preferences.cpp", C+"File.cpp", H+"Array.h", C+"Object.cpp"],
 [("constant members", H+"String.h"), ("iterators", C+"LinkedList.cpp"), ("reference count", C+"Object.cpp")],
 SIMNOTE)

prop("C28", "Exceptions reach whoever catches them with all they were thrown with",
 "An exception is caught exactly where it is handled, after all frames in between were unwound, with exactly its message, the stack trace of the throwing point and the thread that threw it: in the thread itself or, kept, in any other one, also after the throwing thread has ended, in copies and assigned objects, when rethrown, and while other exceptions are handled or thrown at the same time. That the names of the frames are not available, or the stack is shallow or deep, shortens the trace and changes nothing else; handling loses no memory, and the errors of the library arrive the same way.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of threads that throw, keep, copy, rethrow and handle exceptions, every message, every depth of the stack and every failure to resolve it",
 "The tests do not touch exceptions of other threads, traces or failing resolution.",
 [C+"Exception.cpp", H+"Exception.h"], [("message and stack trace", C+"Exception.cpp"), ("log of the error", C+"System.cpp")],
 SIMNOTE)

prop("C29", "Random numbers keep to the range asked for, whatever the generator yields",
 "random(lower, upper) gives a number of the range, limits included, for every range of int32 from one value to all of them, random() one between 0 and 1, from any number of threads and whatever the generator of the machine yields. probability(0) is never true and probability(1) always, and with a generator that treats all numbers alike every value of a range, every part of a large range and every decision gets the share that is due to it.",
 ["schedules", "inputs", "fault_sequences"], "every range and probability, every sequence of values from the generator, every interleaving of callers",
 "The tests call a few small ranges with the one sequence the generator of the machine starts with; its edges and wide ranges never occur.",
 [C+"Math.cpp", H+"Math.h"], [("random numbers", C+"Math.cpp")],
 SIMNOTE)

prop("C30", "A run of tests counts every check and every failure",
 "TestVector::execute() runs every test once, or only the one chosen on the command line, also after tests that ended with an exception or failed in their input and output, and returns exactly the number of failed checks; the totals and the report name exactly the checks and failures of each test and of all. A check fails exactly if the values differ (numbers by value whatever their types, texts by their characters, with or without case), each failure is reported with its message, passed checks are not, and a second run starts at zero.",
 ["fault_sequences", "histories"], "every sequence of checks, failures, exceptions and disk errors in any number of tests",
 "The test runner itself is only used where nothing fails; no test has failing checks, exceptions or disk errors.",
 [C+"Test.cpp", C+"TestVector.cpp", H+"Test.h"], [("checks", C+"Test.cpp"), ("runner", C+"TestVector.cpp")],
 SIMNOTE)

NAT = " No schedule, clock, I/O, fault, crash or second party can influence the result, so there is nothing for a simulator to control or inject; generating inputs and comparing with a reference would be property-based testing, another technique."
prop("C40", "Geometry agrees with mathematics within the stated tolerance",
 "Vectors, points, rectangles, extents, matrices and transformations (products, inverses, determinants, rotations, bulges, intersections, distances, NURBS weights and points) give the mathematically defined results within floating point tolerance for all well conditioned arguments.",
 ["inputs"], "all finite arguments",
 "Tests sample a few constellations; degenerate and nearly degenerate ones are an unbounded input space.",
 [C+"Matrix.cpp", C+"Geometry.cpp", C+"Vertex2.cpp", C+"Vertex3.cpp", C+"Rect.cpp", C+"NURBS.cpp", C+"Transform.cpp"],
 [("algebra", C+"Matrix.cpp"), ("constructions", C+"Geometry.cpp")], None,
 na="Pure single-threaded functions of their arguments (" + "that they have no hidden shared state is part of C07 and C27)." + NAT)
prop("C41", "Colours convert between models without loss",
 "Conversions of a colour between RGB and CMYK are inverse to each other within rounding, and components stay within their ranges.",
 ["inputs"], "all colours of all models", "Tests convert a few named colours.",
 [C+"Color.cpp", H+"Color.h"], [("conversions", C+"Color.cpp")], None,
 na="Pure functions of one value." + NAT)
prop("C42", "A difference transforms one text into the other and is minimal",
 "Applying the computed edit script to the first sequence yields the second one, for every pair of sequences, and no shorter script exists.",
 ["inputs"], "all pairs of sequences", "Tests compare a few short texts.",
 [C+"Diff.cpp", C+"DiffInfo.cpp", C+"DiffBacktrace.cpp", C+"DiffDiag.cpp", C+"DiffDistance.cpp"], [("shortest path", C+"DiffInfo.cpp")], None,
 na="A pure function of two sequences in one thread." + NAT)
prop("C43", "Properties and test vectors compare and convert by value",
 "A property keeps the value and type it was given, equality and conversions depend on these alone.",
 ["inputs"], "all values of all property types", "Tests sample single values.",
 [C+"Property.cpp", H+"Property.h"], [("variant value", C+"Property.cpp")], None,
 na="A value type without state beyond its value." + NAT)
