#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe, "hook_needed": None}})
BAR = ["include/Barrier.hxx", "src/Barrier.cxx"]
MB = ["include/MailBox.hxx"]
FMT = ["include/Format.hxx", "src/Format.cxx"]
OPT = ["include/Options.hxx", "src/Options.cxx"]
SPL = ["include/Utils.hxx", "src/Split.cxx"]
PT = ["include/PropertyTree.hxx", "src/PropertyTree.cxx", "include/PropertyTreeYAML.hxx", "src/PropertyTreeYAML.cxx"]

p("C01", "Barrier: nobody passes before a full group has arrived",
  "For a barrier created for N waiters, the wait calls that return normally can always be partitioned into groups of exactly N such that every call of a group had begun before any call of that group returned. "
  "This holds for any number of calling threads (fewer than, equal to or more than N), any number of reuses of the barrier, with and without timeouts, and under every interleaving of the callers.",
  ["schedules", "histories"], "all thread interleavings (including spurious wake-ups and timeouts firing at any moment) of all bounded assignments of wait calls to threads",
  "BarrierTest runs one group size per run under whatever schedule the OS produces and only looks for exceptions; it never checks who was released when, and never uses more threads than waiters.",
  BAR, [("arrival count and generation counter under the mutex", "src/Barrier.cxx Barrier::wait"), ("condition wait on a change of generation", "src/Barrier.cxx Barrier::wait")],
  ["begin and normal return of SoDa::Barrier::wait"], [("waiting", "arrivals in the current group", "src/Barrier.cxx"), ("barrier_count", "number of completed groups", "src/Barrier.cxx")])
p("C02", "Barrier: full groups always get through and the barrier is reusable",
  "On a barrier that nobody has timed out of, as soon as N calls are waiting all N of them return normally: no wake-up is lost and nothing deadlocks, in every round of reuse. "
  "Of k untimed calls made in total exactly N*floor(k/N) return, and the remaining calls keep waiting and are released when further callers complete their group.",
  ["schedules", "histories"], "all interleavings of bounded sets of callers and rounds",
  "A lost wake-up needs a particular interleaving of arrival, release and re-arrival that the free-running tests hit only by luck, and surplus callers are not tested at all.",
  BAR, [("reset of the arrival count and broadcast by the last arriver", "src/Barrier.cxx Barrier::wait")],
  ["set of wait calls still blocked when no thread can run any more"])
p("C03", "Barrier: a timeout breaks the barrier for everyone, and only a timeout does",
  "If a wait times out before its group is complete, exactly one caller gets Barrier::Timeout, and every other caller waiting in that incomplete group and every call made after the Timeout was thrown gets Barrier::Corrupt; none of them returns normally or stays blocked. "
  "Calls whose group was completed return normally even if a timeout strikes while they are waking up. If no wait has timed out, no caller gets Timeout or Corrupt.",
  ["schedules", "histories"], "all interleavings of bounded sets of callers with and without timeouts, with every possible moment of expiry",
  "FastBarrierTest_should_timeout only checks that some exception text appears somewhere; which caller sees what, and what happens to the others, is not observed.",
  BAR, [("corrupted flag checked on entry and after waking", "src/Barrier.cxx Barrier::wait"), ("broadcast by the caller that timed out", "src/Barrier.cxx Barrier::wait")],
  ["outcome (normal, Timeout, Corrupt, still blocked) of every wait call"], [("corrupted", "a waiter has timed out", "src/Barrier.cxx")])
p("C04", "Barrier: timed waits honour the requested duration",
  "A wait with a non-zero timeout (either overload, any duration up to 1000 days) reports Timeout only after at least that much time has passed since the call, and when its group is not completed it never stays blocked past that duration. "
  "A wait with timeout zero does not expire within a year.",
  ["schedules", "inputs"], "all expiry orders of bounded sets of timed and untimed callers, over a set of durations from 1 ms to 1000 days",
  "The tests use a single fixed timeout on the real clock; long durations and relative order of expiries cannot be waited for in a test.",
  BAR, [("conversion of the millisecond count and of zero to a chrono duration", "src/Barrier.cxx Barrier::wait(unsigned long)"), ("condition_variable::wait_for with predicate", "src/Barrier.cxx Barrier::wait")],
  ["virtual clock at begin and end of every wait call"])
p("C05", "MailBox: every subscriber gets every message exactly once, in order",
  "Every message put into a mailbox is delivered exactly once to each subscription that exists at the time of the put and to no subscription created later; each subscriber receives its messages in the order in which they were put, and all subscribers see the same relative order of the messages they share. "
  "A get on a subscription with nothing waiting returns null at once and changes nothing. All this holds for any number of messages and subscribers and under every interleaving of senders and receivers.",
  ["schedules", "histories"], "all interleavings of bounded multi-threaded programs, and all single-threaded operation sequences up to a bound",
  "MailBoxTest sums message numbers per receiver, so reordering, duplicate-plus-loss pairs and disagreement between receivers go unnoticed, and only the OS's schedules are run.",
  MB, [("one FIFO queue per subscription, filled under the mutex", "include/MailBox.hxx MailBox::put"), ("pop from own queue under the mutex", "include/MailBox.hxx MailBox::get")],
  ["results of MailBox::get per subscription"], [("message_queues", "pending messages per subscription", "include/MailBox.hxx")])
p("C06", "MailBox: operations are atomic under concurrency",
  "Under concurrent use each of subscribe, ending a subscription, put, get, clear, readyCount, minReadyCount and subscriberCount behaves as if it took place at one instant between its call and its return: the results of all calls and the final contents match some sequential execution that respects the real-time order of the calls.",
  ["schedules", "programs"], "all interleavings of all bounded multi-threaded programs over the mailbox operations",
  "No existing test mixes clear, counts, subscribe and unsubscribe with concurrent traffic, and atomicity needs every interleaving.",
  MB, [("one mutex held for the whole of each operation", "include/MailBox.hxx")],
  ["results of all MailBox operations, per thread, with their call/return order"])
p("C07", "MailBox: a put that names a subscription skips exactly that subscription",
  "A put that names one of the mailbox's subscriptions delivers the message to every other current subscription of that mailbox and never to the named one; a put that names none delivers to all of them. "
  "Only the message being put is affected: messages already waiting, and later puts, are not, whatever subscriptions were created or ended before.",
  ["schedules", "histories"], "all operation sequences and interleavings of bounded size over several subscriptions",
  "MailBoxTest2 only counts messages with one fixed set of subscribers; who exactly is skipped after subscriptions come and go is not tested.",
  MB, [("omit key compared with each queue's key", "include/MailBox.hxx MailBox::put")],
  ["messages received per subscription for puts with and without a named sender"])
p("C08", "MailBox: subscriptions are isolated from each other",
  "Reading, clearing or ending one subscription never adds, removes or reorders messages waiting for any other subscription. "
  "A new subscription starts empty and never receives anything addressed to an earlier one, ending a subscription (destroying, resetting or overwriting its handle) removes exactly that one from the counts, and subscriberCount, readyCount and minReadyCount always equal the number of live subscriptions, of messages waiting for that subscription, and the smallest such number over the live subscriptions.",
  ["schedules", "histories"], "all operation sequences up to a bound over several subscriptions of one mailbox, plus interleavings of the same operations in threads",
  "The tests create all subscriptions once and never end, clear or recreate one while others have messages waiting.",
  MB, [("unique, never reused subscription numbers", "include/MailBox.hxx MailBox::subscribe"), ("erase of the subscriber's own queue", "include/MailBox.hxx MailBox::unsubscribe")],
  ["MailBox::get, readyCount, minReadyCount, subscriberCount"], [("subscription_counter", "next subscription number", "include/MailBox.hxx")])
p("C09", "MailBox: messages live exactly as long as someone can still read them",
  "A message stays alive while it waits for some subscription or is held by a receiver, and it is destroyed exactly once, as soon as the last of these ends, whether by reading and releasing it, clearing, ending the subscription or destroying the mailbox. "
  "Nothing leaks and nothing is touched after its destruction, for every order and interleaving of these operations (the mailbox outliving its subscriptions).",
  ["schedules", "histories"], "all operation sequences and interleavings of bounded size, with every object tracked",
  "MailBoxTest checks a live counter once at the end of one run; early destruction and leaks through clear, unsubscribe or mailbox destruction are not exercised.",
  MB, [("shared_ptr per queue entry", "include/MailBox.hxx"), ("emptying of queues in clear, unsubscribe and the destructor", "include/MailBox.hxx")],
  ["number of live message objects after every operation; heap use-after-free monitor"])
p("C10", "MailBox: using the wrong mailbox or type is detected and harmless",
  "Using a subscription with a mailbox other than the one that issued it (get, put naming it, readyCount, clear) always throws a SoDa::MailBoxBase::Exception and changes neither mailbox, even if the mailboxes have equal names and subscription numbers; afterwards both remain fully usable. "
  "Converting a base mailbox pointer to a mailbox type yields the same mailbox if that is its type and throws a SoDa::MailBoxBase::Exception otherwise.",
  ["histories", "inputs"], "all operation sequences up to a bound over two mailboxes and their subscriptions, in one and in two threads",
  "The existing test checks one bad conversion; no test ever uses a subscription with the wrong mailbox.",
  MB, [("issuer check of the subscription", "include/MailBox.hxx SubscriptionCl::getIndex"), ("dynamic_pointer_cast check", "include/MailBox.hxx MailBoxBase::convert")],
  ["exceptions from MailBox operations and the state of both mailboxes afterwards"])
p("C11", "Barrier and MailBox: no data race, crash or deadlock from concurrent use",
  "Any concurrent use of the public operations of one Barrier, or of one MailBox by threads that each use their own subscriptions, is free of data races, of memory errors and of deadlock: the only calls that may block are waits at a barrier whose group is incomplete.",
  ["schedules", "programs"], "all interleavings of all bounded multi-threaded programs over the Barrier and MailBox operations, with a happens-before race monitor",
  "A data race shows in a test only if the schedule happens to expose it; the tests run without a race detector and with few operation mixes.",
  BAR + MB, [("all shared state accessed under the object's mutex", "src/Barrier.cxx, include/MailBox.hxx")],
  ["memory accesses and synchronisation operations of the compiled code"])
p("C12", "Separate objects do not influence each other",
  "Format, Format extension, Options, PropertyTree objects and the string utilities share no hidden mutable state: operations on one object never change the observable behaviour of another object, however the operations on the two are interleaved in one thread, and different threads may use different objects at the same time without data races and with the same results as alone.",
  ["schedules", "programs"], "all pairs of bounded jobs on distinct objects, under all interleavings of two threads (race monitored) and all step interleavings in one thread",
  "Every test uses its objects one after the other in one thread; a hoisted scratch buffer or cache would pass them all.",
  FMT + OPT + SPL + PT, [("all working state is local or a member", "src/*.cxx")],
  ["outputs of jobs run interleaved versus alone; memory accesses of the compiled code"])
p("C13", "Format: the k-th value replaces every %k and nothing else",
  "The k-th value added (counting from 0) replaces every occurrence of the placeholder %k, a percent sign followed by one or more decimal digits (k below 2^32), wherever it stands, and nothing else in the text changes. "
  "'%%' yields one '%', a percent sign followed by any other character or by the end of the string stands for itself, placeholders not yet filled appear as %k, and a value with no matching placeholder is ignored. "
  "Inserted values appear verbatim, are never scanned for placeholders again, and all other characters are kept as they are.",
  ["inputs", "histories"], "all format strings up to a bounded length over an alphabet of percent signs, digits and other characters, with all bounded sequences of values",
  "FormatTest uses a handful of well-formed format strings; the scanner's state machine has many more paths.",
  FMT, [("three-state scanner splitting the string into segments", "src/Format.cxx Format::initialScan"), ("filling of matching segments", "src/Format.cxx Format::insertField")],
  ["SoDa::Format::str() after every add"], [("format_string_segments", "literal and placeholder segments", "include/Format.hxx"), ("cur_arg_number", "number of the next value", "include/Format.hxx")])
p("C14", "Format: observing never changes it, reset restores it, copies are independent",
  "str() and the stream operator return the current text without changing the object, any number of times and at any point, and agree with each other; str(true) returns the same text and throws BadFormat exactly when some placeholder is unfilled. "
  "After reset the object behaves like a newly constructed one whatever was added before, a copy evolves independently of its original, and a class derived through Format_ext produces the same text as Format for the same calls.",
  ["histories"], "all sequences of add, reset, observe, copy and assign operations up to a bound on several format strings",
  "The tests use each format object once and never reset, copy or re-observe one.",
  FMT, [("original string kept and rescanned by reset", "src/Format.cxx Format::reset"), ("const assembly of segments", "src/Format.cxx Format::str")],
  ["SoDa::Format::str(), operator<<"])
p("C15", "Format addI: exact decimal integers, grouping, width and fill",
  "For every int, addI prints its exact decimal value; with a separator, the digits are grouped in threes from the right with the separator between groups and nowhere else (in particular not next to the sign). "
  "The field is right-justified to at least the given width using the fill character (blank if none) and a value that needs more room is never truncated.",
  ["inputs"], "all ints of every digit length, sign and boundary, times widths, separators and fill characters within bounds",
  "FormatTest checks four positive values.",
  FMT, [("digit grouping loop", "src/Format.cxx Format::addI")], ["text inserted by addI"])
p("C16", "Format addU: exact decimal, octal and hex, grouping and width",
  "For every unsigned long, addU prints the exact value: decimal for 'd' (blank-padded on the left), octal with a leading 0 for 'o'/'O', hexadecimal with prefix 0x for 'x'/'h' in lower-case and for 'X'/'H' in upper-case digits, zero-padded; hex fields have at least width digits after the prefix and the others at least width characters, and nothing is truncated. "
  "With a separator, digits are grouped from the right in groups of group_count with the separator only between digits, never next to the prefix or a blank.",
  ["inputs"], "unsigned longs of every digit length and boundary, all format letters, times widths, separators and group sizes within bounds",
  "FormatHexTest checks a few small values with one separator and one group size.",
  FMT, [("toHex, toOct and the grouping loop", "src/Format.cxx Format::addU")], ["text inserted by addU"])
p("C17", "Format addF 'e': correct engineering notation",
  "For every finite non-zero double v and number of significant digits n >= 1, addF(v,'e',width,n) prints an optional sign, an integer part between 1 and 999, a fraction when n exceeds the number of integer digits, and an exponent that is a multiple of three, with n digits in total (integer digits beyond n are zero). "
  "The printed number is v rounded to n significant digits (exact to half a unit of the n-th digit up to double rounding error), the radix character is Format::separator, and the field is left-justified and blank-padded to at least width.",
  ["inputs"], "decimal mantissas up to a bounded number of digits and their neighbouring doubles, times all decimal exponents of double, signs, digit counts and widths",
  "FormatTest tries random mantissas for exponents -18..18 and up to 4 digits with a tolerance of several units, and does not check the form.",
  FMT, [("log1k, fractionate and the assembly of the field", "src/Format.cxx Format::addF")], ["text inserted by addF with format 'e'"])
p("C18", "Format addF 'f', 's', 'g': the standard conversions, width and radix",
  "For every finite double, formats 'f', 's' and 'g' print exactly the digits of the standard fixed, scientific and general conversions with the given precision, with Format::separator as radix character. "
  "When a width is given the field is left-justified and blank-padded to at least that width and never truncated.",
  ["inputs"], "a structured set of doubles over all binary exponents, times precisions, widths and separators",
  "Only tested to a loose numeric tolerance and never with another separator.",
  FMT, [("stream manipulators", "src/Format.cxx Format::addF")], ["text inserted by addF with formats f, s, g"])
p("C19", "Format addF: special values print correctly and every call terminates",
  "For every double, including NaN, both infinities, both zeros, subnormals and the largest values, and for every format letter, addF returns. "
  "NaN prints as nan, infinities as inf and -inf, and zero in every format reads back as zero; all are left-justified and blank-padded to at least the given width.",
  ["inputs"], "all special values and power-of-two and power-of-ten boundaries, times format letters, widths and digit counts",
  "FormatNaN checks one NaN and one infinity in format 'f'; a hang on one particular double is invisible to it.",
  FMT, [("isnan/isinf/zero special cases", "src/Format.cxx Format::addF"), ("normalisation loops", "src/Format.cxx log1k")], ["text inserted by addF, termination"])
p("C20", "Format addS, addC, addB: verbatim text, justification and width",
  "addS inserts exactly the given string, padded with blanks on the left to a positive width and on the right to a negative width, never truncated whatever its length and content; addC inserts exactly the given character and addB inserts T for true and F for false.",
  ["inputs"], "strings of all lengths up to a bound over an alphabet including blanks, percent signs, NUL and high bytes, times widths of both signs; all 256 characters",
  "Only unpadded short strings are used by the tests.",
  FMT, [("padding loops", "src/Format.cxx Format::addS")], ["text inserted by addS, addC, addB"])
p("C21", "Options: a valid command line sets exactly what it says",
  "For a command line without errors, parse returns true and each scalar option holds the value of its last occurrence (its default if it did not occur or occurred without value), each vector option has all its values appended in order, each presence option is true exactly if it occurred, isPresent by long or short name is true exactly for the options that occurred, and all other tokens are the positional arguments in order. "
  "The long (--name) and short (-n) spellings of an option are interchangeable; the token after an option that has no default or has a signed arithmetic type is always its value, even if it begins with '-'; the token after any other value-taking option is its value unless it looks like an option (a '-' followed by another character, other than just '--').",
  ["inputs", "programs", "configurations"], "all token sequences up to a bounded length over an alphabet of option names, values and positional tokens, for several sets of declared options",
  "OptionsTest parses one list once.",
  OPT, [("token loop with pending option", "src/Options.cxx Options::parse(std::list<std::string>)"), ("setVal of the option kinds", "include/Options.hxx Opt, OptVec, OptPresent")],
  ["target variables, isPresent, getPosArgs after parse"], [("waiting_for_signed", "next token is a value even if it begins with -", "src/Options.cxx")])
p("C22", "Options: a bad command line is always rejected and never crashes",
  "parse returns false if some token names an unknown option, a value cannot be read as the option's type, a value is refused by the option's test function, or the line ends where an option without default needs a value; it never throws, crashes or hangs for any list of tokens. "
  "A refused or unreadable value is never appended to a vector option, and options mentioned only after the offending token are left unset.",
  ["inputs", "fault_sequences"], "all token sequences up to a bounded length over an alphabet that includes unknown names, unreadable and refused values, and malformed tokens",
  "No existing test parses an invalid command line.",
  OPT, [("BadOptValueException, BadOptionNameException and their handlers", "src/Options.cxx Options::parse")],
  ["return value of parse and state of the targets"])
p("C23", "Options: argc/argv, token list and string forms are equivalent",
  "Parsing the same tokens as argc/argv (after the program name), as a list, or as one string gives the same return value, targets, presence and positional arguments. "
  "In a string, tokens are separated by any amount of white space, and a double-quoted token keeps its blanks exactly (and may be empty or begin with '-').",
  ["inputs"], "all token lists up to a bounded length, rendered in every quoting and spacing style within bounds",
  "OptionsTest uses only the list form.",
  OPT, [("buildTokenList, both forms", "src/Options.cxx")], ["observable parser state after each form"])
p("C24", "Options: earlier parses do not affect how a later line is understood",
  "How a parser interprets a command line does not depend on the lines it parsed before, whether those succeeded, failed or ended in help: the return value and the values assigned are those of a fresh parser with the same options, vectors and positional arguments are appended to, and presence flags once set stay set.",
  ["histories"], "all sequences of two or three command lines from an alphabet of valid, invalid, truncated and help lines",
  "Only the example program parses twice, with two valid lines.",
  OPT, [("parser state initialised per parse", "src/Options.cxx Options::parse")], ["parser state after a sequence of parses versus fresh parsers"])
p("C25", "Options: key=value lists assign each key its value",
  "For a parser created for key=value lists, parsing a comma-separated list whose items are key=value pairs of declared options sets each option exactly as --key value would, with blanks around items ignored, empty items skipped, everything after the first '=' belonging to the value (which may contain '=', be empty, or begin with '-'), and repeated keys handled as repeated options. "
  "An unknown key or an unacceptable value makes parse return false; no list makes it throw, crash or hang.",
  ["inputs"], "all strings of bounded length over an alphabet of keys, values, separators, blanks and malformed items, through all entry points",
  "There is no test of key=value parsing at all.",
  OPT + SPL, [("splitting at commas and at the first '='", "src/Options.cxx Options::parseKeyValue")], ["targets and return value of parse / parseKeyValue"])
p("C26", "Options: positional arguments can be read at any index",
  "After any sequence of parses, numPosArgs equals the size of getPosArgs, getPosArg(i) is the i-th positional argument for every i from 0 to that number minus one, and it is the empty string for every other index.",
  ["inputs", "histories"], "all positional argument counts up to a bound, times all indices around and far outside the valid range",
  "OptionsTest reads only valid indices.",
  OPT, [("bounds check", "src/Options.cxx Options::getPosArg")], ["numPosArgs, getPosArgs, getPosArg"])
p("C27", "Options: help lists everything and stops the parse",
  "printHelp writes the info lines in the order they were added, followed by exactly one line for every declared option with its long name, its short name (not for key=value parsers) and its description. "
  "A --help or -h token where an option is expected writes the same text to the standard error stream and makes parse return false without processing later tokens.",
  ["configurations", "inputs"], "all sets of declared options and info lines up to a bound, and all command lines up to a bound containing a help token",
  "Help output is never checked.",
  OPT, [("printHelp over the option map", "src/Options.cxx Options::printHelp")], ["text written by printHelp and by parse with help tokens"])
p("C28", "squashSpaces: canonical spacing, nothing else changed",
  "For every string, squashSpaces returns the string without leading and trailing blanks and with every inner run of blanks replaced by one blank; all other characters stay in order and unchanged, applying it again changes nothing, and the argument is not modified. "
  "In particular it is defined for the empty and the all-blank string.",
  ["inputs"], "all strings up to a bounded length over an alphabet of blanks, tabs, letters, NUL and high bytes, plus long runs",
  "SplitTest uses one string without repeated blanks.",
  SPL, [("erase loops", "src/Split.cxx squashSpaces")], ["return value"])
p("C29", "split: tokens are the pieces between delimiters, in order",
  "For every string and delimiter set, split returns the pieces of the blank-squashed string between delimiter characters, in order, including empty pieces between, and before the first of, delimiters unless empty tokens are suppressed (an empty piece after the last delimiter is never returned); no token contains a delimiter and nothing else is lost or altered. "
  "splitVec returns the same tokens as split.",
  ["inputs"], "all strings up to a bounded length times delimiter sets of up to three characters and both flag values",
  "SplitTest splits one string at commas.",
  SPL, [("find_first_of scan", "src/Split.cxx split")], ["return values of split and splitVec"])
p("C30", "PropertyTree: every value in a YAML file is found at its path",
  "After loading a YAML file made of nested mappings, scalars and sequences of scalars (keys being non-empty, without colons and without leading, trailing or repeated blanks), for every scalar in a mapping get with the colon-separated path of its keys returns that scalar's value (converted to the requested type, strings verbatim and complete), and getProp with the path of a mapping (from the root node) returns a node whose getKeys lists exactly the mapping's keys that have a mapping or scalar value. "
  "Scalar elements of sequences are listed in document order by getList of the node of the enclosing mapping.",
  ["inputs"], "all document trees up to a bounded depth and width over small key and value sets, in several YAML styles",
  "The test loads one file and prints it without checking anything.",
  PT, [("recursive fill from YAML nodes", "src/PropertyTreeYAML.cxx PropertyTreeYAML::fillRecurse"), ("recursive path lookup", "src/PropertyTree.cxx PropNode::getPropRecursive")],
  ["get, getProp, getKeys, getList after readFile"])
p("C31", "PropertyTree: failed lookups are reported as asked and change nothing",
  "Looking up a path that is not in the tree, or reading a value as a type it cannot be converted to, returns false (or a null node) when exceptions were not requested and throws PropertyNotFound or BadPropertyType respectively when they were; a successful lookup returns true. "
  "No lookup, successful or not, changes the result of any later lookup, and any path string (empty, with empty components, with trailing or doubled colons, longer than the tree is deep) is handled without crashing.",
  ["inputs", "histories"], "all path strings up to a bounded length over keys and colons, times value types and flag values, on a set of trees",
  "No test calls get or getProp.",
  PT, [("throw_exception handling", "include/PropertyTree.hxx PropertyTree::get, PropNode::get, src/PropertyTree.cxx getPropRecursive")],
  ["results and exceptions of get and getProp"])
p("C32", "PropertyTree: getPathName leads back to the node, dump shows every value",
  "For every node reached by a path of mapping keys, getPathName returns a path with which getProp on the root node returns that same node. "
  "dump writes, in either form, every key and every scalar value that the tree holds, each under its parents, and does not change the tree.",
  ["inputs"], "all document trees up to a bounded depth and width",
  "The test prints a dump but compares nothing, and never asks for a path name.",
  PT, [("path name built from the parents", "src/PropertyTree.cxx PropNode::getPathName"), ("recursive dump", "src/PropertyTree.cxx PropNode::dump")],
  ["getPathName, getProp, dump"])
p("C33", "PropertyTreeYAML: unreadable or malformed files are reported cleanly",
  "Loading a file that does not exist throws PropertyTree::FileNotFound, and loading a file that is not well-formed YAML throws a SoDa::Exception; no file content, including aliases to an enclosing node, makes the load crash, hang or throw anything else, as long as its expanded size (every alias counted in full) is moderate. "
  "A failed load leaves everything loaded before unchanged.",
  ["inputs", "fault_sequences"], "every truncation and every single-character replacement from a set, of a set of YAML documents, plus all short strings over a YAML punctuation alphabet, loaded into an empty and a filled tree",
  "The test only loads one good file.",
  PT, [("exception translation", "src/PropertyTreeYAML.cxx PropertyTreeYAML::readFile")], ["exceptions from readFile and the tree afterwards"])
p("C34", "PropertyTreeYAML: loading several files layers them",
  "When several YAML files are loaded into one tree, every value of the last file is found at its path, every top-level key of the earlier files that later files do not mention keeps all its values, and the result is that of the files in their load order.",
  ["histories"], "all sequences of up to three documents from a set of small document trees with overlapping keys",
  "No test loads a second file.",
  PT, [("assignment into the existing dictionary", "src/PropertyTreeYAML.cxx PropertyTreeYAML::fillRecurse")], ["get and getKeys after several readFile calls"])

p("C35", "No memory error or undefined behaviour, whatever the arguments",
  "Every single-threaded sequence of public operations on Format, Options, PropertyTreeYAML, split, squashSpaces and MailBox, with any argument values of moderate size, either returns or throws an exception in bounded time. "
  "It never reads or writes memory it does not own, overflows a signed integer, performs an invalid shift, conversion or division, or terminates the process; in particular the library never depends on an input being sensible (counts of zero, absent files, unknown letters, unbalanced quotes, truncated documents).",
  ["inputs", "programs"], "all operation sequences and arguments of the bounded spaces of C05, C07 to C10 and C13 to C34 plus combinations of arguments that make no sense, executed with address and undefined-behaviour monitors",
  "The tests are built without any monitor and pass a handful of sensible arguments; an overflow by one byte or a stale iterator changes nothing that they print.",
  FMT + OPT + SPL + PT + MB, [("position arithmetic on strings", "src/Format.cxx"), ("token scanner", "src/Options.cxx"), ("space squashing in place", "src/Split.cxx squashSpaces"), ("node ownership", "src/PropertyTree.cxx")],
  ["process outcome, AddressSanitizer and UndefinedBehaviorSanitizer monitors, time bound"])
p("C36", "Failures are reported by documented exceptions that name what is at fault",
  "Whenever an operation fails, it throws an exception of the documented class, which is also caught as the class's documented bases and as SoDa::Exception (for option errors: parse returns false and writes a diagnostic to stderr), and the message contains verbatim what the caller needs to find the problem: the barrier's name and timeout, the mailbox names, the requested type of a conversion, the format text with its unfilled placeholders, the option and the unusable value, the property path and value, or the file name. "
  "This holds for any names and values, including such that look like placeholders of Format.",
  ["inputs"], "all failing calls over bounded sets of names, values, paths, format strings, files and option tokens with placeholder-like, blank, quote and non-ASCII characters",
  "Existing tests at most check that something was thrown; messages are never looked at, and never produced for unusual names.",
  ["include/Exception.hxx"] + BAR + MB + FMT + OPT + PT, [("messages built with Format", "include/Barrier.hxx, include/MailBox.hxx, src/PropertyTree.cxx"), ("messages built by concatenation", "include/Options.hxx, src/Format.cxx")],
  ["class and what() of exceptions, text on stderr from Options::parse"])

p("C37", "Everything an operation or an object uses is given back",
  "After any sequence of public operations, including failing ones (exceptions, rejected command lines, unreadable files, mismatched mailboxes), destroying the objects involved gives back all memory and every file descriptor they used; repeating the same work does not make the process grow. "
  "This holds for messages that were never fetched, subscriptions dropped in any order, help and error output, conversions that fail and documents that fail half-way.",
  ["inputs", "histories"], "all bounded operation sequences, arguments, documents and command lines of all parts of the library, each repeated",
  "No test measures memory or descriptors; a leak passes every assertion.",
  ["include/Exception.hxx"] + BAR + MB + FMT + OPT + SPL + PT, [("owning pointers and containers of each class", "include/MailBox.hxx, include/Options.hxx, include/PropertyTree.hxx, src/Format.cxx"), ("exception paths", "include/MailBox.hxx, include/PropertyTreeYAML.hxx")],
  ["live heap bytes and open file descriptors after destroying the objects"])
p("C38", "Operations leave the caller's surroundings alone and do not depend on them",
  "No operation of the library changes what belongs to its caller: arguments passed as const or by value, argv strings, the formatting state, fill, precision and locale of the streams it writes to, the global locale, the current directory, signal handlers and mask, open descriptors and files (only documented setters change Format's separator). "
  "Nothing is written to stdout or stderr, except by Options for failed command lines and help. "
  "The results of Format, split, PropertyTree, MailBox and Barrier messages depend only on their documented inputs, not on the global locale, errno, the state of standard streams, the current directory (for absolute file names) or the time. "
  "Output written to a stream that fails raises no error beyond the stream's own state.",
  ["inputs", "histories"], "all pairs of a bounded set of operations with a bounded set of surroundings (stream flags, fills, precisions, locales, errno values, directories, stream failures)",
  "Tests run in one fixed environment and look only at results.",
  ["include/Exception.hxx"] + BAR + MB + FMT + OPT + SPL + PT, [("own string streams with classic locale", "src/Format.cxx, include/PropertyTree.hxx"), ("printing to caller's streams", "src/Options.cxx, src/PropertyTree.cxx")],
  ["results and the caller's streams, locale, directory, descriptors, signals, argv before and after each call"])

p("C39", "An operation cut short by memory exhaustion or a thrown exception does no harm",
  "When an operation cannot complete because memory runs out (std::bad_alloc at any allocation), or because code supplied by the caller throws (option check functions, operator>> of value types, output streams with exceptions enabled), the exception reaches the caller unless the operation can report failure in its documented way; no lock stays held, nothing leaks, and every object involved stays usable by every thread. "
  "A failed subscribe leaves no subscriber behind and a failed get loses no message; a failed wait never lets a later thread through a barrier that has not been reached by all; a failed parse leaves no element in a vector that was not accepted and the next parse works; a failed readFile leaves the tree as it was; a Format can be reset and filled again.",
  ["inputs", "crash_points"], "every allocation of every operation in a bounded set of object states (one failure, or that one and all later ones), and every call of the caller's code, fails",
  "Tests never run out of memory and never throw from their callbacks; these paths are executed by nothing else.",
  ["include/Exception.hxx"] + BAR + MB + FMT + OPT + SPL + PT, [("locks taken with guards", "include/MailBox.hxx, src/Barrier.cxx"), ("subscription creation", "include/MailBox.hxx MailBox::subscribe"), ("handlers in parse", "src/Options.cxx Options::parse"), ("building a file aside", "src/PropertyTreeYAML.cxx PropertyTreeYAML::readFile")],
  ["exceptions, results of later operations by the same and other threads, live heap bytes"])

p("C40", "Several threads may ask one object at the same time",
  "Operations that only ask -- Format::str and the stream operator, copying a Format, Options::isPresent, getPosArg, getPosArgs, numPosArgs and printHelp after parsing, PropertyTree lookups (found, missing, of the wrong type), getKeys, getList, getPathName, dump and copying after loading, and split, splitVec and squashSpaces of one string -- may be performed on one and the same object by any number of threads at once, as long as nobody changes it. "
  "There is no data race, and every answer is the one a single thread would get.",
  ["inputs", "schedules"], "all pairs and triples of questions to one object, in all orders and interleavings of two and three threads",
  "No test shares a Format, Options or PropertyTree between threads, and a race rarely shows when one does.",
  FMT + OPT + SPL + PT, [("text kept in the object", "src/Format.cxx Format::str"), ("path lookup", "src/PropertyTree.cxx PropNode::getPropRecursive"), ("presence flags and positional arguments", "include/Options.hxx, src/Options.cxx")],
  ["answers of each thread, and conflicting unordered accesses to memory"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
