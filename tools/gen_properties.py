#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
            mechanism=[dict(zip(("name","where"),m)) for m in mech],
            observe_at=observe, hook_needed=None)))
PA="src/args.cpp"; AR="src/argument.cpp"; AH="include/blet/args/argument.h"; GH="include/blet/args/args.h"; UT="include/blet/args/utils.h"; US="src/usage.cpp"; VA="src/valid.cpp"; SI="single_include/blet/args.h"
T18="The 18 stable tests declare a few fixed arguments and look at usage text, version, and the add/remove/update errors; the parsing tests in the tree are not even built."
prop("C01","Option values read back exactly as written",
 "For every set of declared options and every command line that gives them in the documented forms, each option reads back exactly the values written, byte for byte and in order, as string, by index, as vector and as nested vector. When an option is repeated, single-value, fixed-count and infinite options keep only the last occurrence, while append and extend options keep the values of all occurrences in order, in groups of the declared size when that size is above one. Values written as separate words reach single-value, fixed-count and append options even when they start with a dash.",
 ["inputs","configurations"],"All option sets (nine value kinds, 1..n flags each), all values (including empty, spaces, '=', quotes, non-ASCII, dash-prefixed) and all interleavings of occurrences.",
 T18+" They cannot settle values for all option kinds, repetitions and spellings.",
 [PA,AR,UT],[("parseShortArgument_/parseLongArgument_/parseArgument_",PA),("takeArg",UT),("string and vector conversions",AR)],["Args::operator[]","Argument conversions"])
prop("C02","Equivalent spellings of an option parse identically",
 "For an option occurrence, choosing any of its flags, and choosing '--flag value' or '--flag=value', and '-f value', '-fvalue' or '-f=value' (for kinds that accept one value), never changes the result of the parse: values, presence, counts, bool and string forms and additional arguments are the same. Writing boolean short flags one by one or bundled into one cluster, whose last member may take its value attached or as the next word, is likewise equivalent.",
 ["inputs","configurations"],"All option sets, all command lines in a canonical spelling, all respellings of each occurrence.",
 T18+" Equivalence of spellings is a relation over pairs of runs that no test states.",
 [PA,UT],[("cluster decomposition",PA+" parseShortArgument_"),("flag table",PA+" argumentFromName_"),("'=' split",UT+" takeArg")],["Args::parseArguments outcome"])
prop("C03","Positional words go to positionals in the documented order",
 "Words that are not options or option values fill the declared positional arguments, required positionals before optional ones and otherwise in declaration order: each takes one word, exactly its declared number of words, or, when infinite, all words up to the next recognised option or the end of the line. Options written between positional words do not change which positional receives which word. When every positional is filled, the remaining words become the additional arguments in their original order.",
 ["inputs","configurations"],"All declared sequences of positionals (single, fixed count, infinite, infinite groups; required or not), all word lists, all interleavings with options.",
 T18+" No stable test parses a positional.",
 [PA,AR],[("parsePositionnalArgument_",PA),("argument ordering","src/argument.cpp compareOption_")],["Args::operator[]","Args::getAdditionalArguments"])
prop("C04","Any command line has exactly the outcome the grammar prescribes",
 "For any declared argument set and any sequence of words, the outcome of parsing is the one obtained by applying the documented grammar from left to right: either success with the prescribed values, presence, counts and additional arguments, or the prescribed class of exception naming the prescribed option or argument.",
 ["inputs","configurations"],"All declared argument sets and all word sequences, well formed or not (words drawn from flags, clusters, '=' forms, prefixes, values, '--', '-', empty words).",
 T18+" The space of word sequences is unbounded; only a full reference grammar gives the expected result of an arbitrary one.",
 [PA,AR,UT],[("parseArguments loop",PA),("endOfInfiniteArgument_",PA),("typeConstructor_",AR)],["Args::parseArguments outcome"])
prop("C05","Malformed command lines are rejected and the culprit is named",
 "An unknown option, an option or fixed-count positional left without enough values, a value given to an option that takes none, a single attached value given to an option that needs several, and a cluster whose non-last member cannot be there are always rejected with ParseArgumentException, wherever they stand on an otherwise valid line. argument() of the exception is the offending option as written without its leading dash(es) and '=value', or the name of the positional. A rejected line runs no validator and delivers nothing to any destination variable.",
 ["inputs","configurations","fault_sequences"],"All valid command lines, all single faults injected at all positions.",
 T18+" None of them parses a malformed line.",
 [PA,"src/exception.cpp"],[("error paths of parseArgument_ and the two option parsers",PA),("exceptions carry the argument","src/exception.cpp")],["ParseArgumentException::argument","destination variables","validator calls"])
prop("C06","Everything after the first -- is positional",
 "Every word after the first '--' is taken literally as positional or additional argument, whatever it looks like, further '--' included; the first '--' itself is never a value. Words before it parse as they would if the line ended there, and no option takes a value from beyond it. An option missing values because of '--' is rejected exactly as if the line ended there.",
 ["inputs","configurations"],"All argument sets, all words before and after the terminator, all positions of it.",
 T18+" No stable test uses '--' in a parse.",
 [PA,UT],[("endOptionIndex",UT),("tail loop of parseArguments",PA)],["Args::parseArguments outcome"])
prop("C07","Defaults apply exactly when the argument is absent",
 "An argument that is not given reads back its declared default values through every access (string, index, vector, nested vector, number, destination) and does not count as existing; an argument without defaults reads back empty. An argument that is given reads back only the given values, for every kind, spelling and number of occurrences, with nothing of its defaults left in any access.",
 ["inputs","configurations"],"All kinds of options and positionals with all default lists, all command lines giving any subset of them.",
 T18+" Defaults are only tested for how usage prints them.",
 [AR,PA],[("defaultsConstructor_",AR),("clearing before the first given value",PA+" parseArgument_")],["Argument conversions","destination variables"],
 [("defaults_","declared default values",AH),("default_","default in text form",AH)])
prop("C08","Parsing succeeds only if every required argument was given",
 "On a line with valid syntax and no help or version request, parsing throws ParseArgumentRequiredException if and only if at least one required option or positional was not given, and argument() is the name or one of the flags of an argument that is required and missing. Having default values does not make a required argument optional, and no validator is run and no destination variable written when a required argument is missing.",
 ["inputs","configurations"],"All argument sets with any subset required (set at any time before the parse), all valid command lines giving any subset.",
 T18+" They never parse with a required argument.",
 [PA,AR],[("require check",PA+" parseArguments"),("required()",AR)],["ParseArgumentRequiredException"])
prop("C09","Help and version requests win and have their documented effect",
 "When every word of the line is accepted and the help option was given, the outcome is help whatever else is missing, invalid or requested: a HelpException whose what() is the usage text if help exceptions are enabled, otherwise the usage text and a newline on standard output and process exit status 0. A version request behaves likewise with the version text, losing only to help, and neither runs validators nor writes destinations. If no argument has the help action, those of -h and --help that are free are added as the help option at the parse; the library prints nothing in any other case.",
 ["inputs","configurations"],"All argument sets, all well-formed command lines containing help/version requests in any spelling and position, both exception modes.",
 T18+" They never parse; the exit path kills the test process.",
 [PA,"src/exception.cpp",US],[("help and version checks",PA+" parseArguments"),("automatic help option",PA+" parseArguments")],["HelpException","VersionException","stdout","exit status"],
 [("helpOption_","argument having the help action",GH),("versionOption_","argument having the version action",GH)])
prop("C10","Built-in validators accept exactly their documented sets",
 "ValidNumber accepts a value exactly when the whole value is a number; ValidMinMax accepts a value exactly when it begins with a number that lies between the two bounds, inclusive, in whichever order they were given (never NaN); ValidChoise accepts exactly the listed words; ValidPath accepts exactly the paths that exist and, in its file or directory mode, are a regular file or a directory. A list of values is accepted only if each is, and otherwise the parse fails with ParseArgumentValidException naming the argument by its name or first flag, with a message that contains the first refused value and, for ValidChoise, the listed words. Accepted values are left unchanged.",
 ["inputs"],"All value lists, all bounds, choice lists and file-system layouts.",
 T18+" No stable test runs a validator.",
 [VA,PA],[("isValid of the four validators",VA),("translation of the exception",PA+" parseArguments")],["ParseArgumentValidException","IValid::isValid"])
prop("C11","Validators see the given values once and decide what is read back",
 "The validator of an argument runs exactly once per parse if the argument was given and never if it was not, and it receives exactly the given values in order, flattened across groups. If it returns false or throws ParseArgumentValidException the parse fails with ParseArgumentValidException naming the argument by its name or first flag and no destination of that argument is written. If it changes the values, every read access, number and destination of the argument sees the changed ones.",
 ["inputs","configurations"],"All value-taking kinds of options and positionals, all given values, all accept/reject/transform behaviours of a user validator.",
 T18+" No stable test runs a validator.",
 [PA,AR],[("valid configuration block",PA+" parseArguments"),("flattening conversion",AR)],["IValid::isValid calls","Argument conversions","destination variables"])
prop("C12","Numbers are read as C reads them, everywhere and without loss",
 "For each given or default value that begins with a decimal, hexadecimal, infinite or NaN number in C syntax, isNumber() is true and getNumber() equals the value strtod gives it, on single arguments, elements and nested elements alike; for other values isNumber() is false and getNumber() throws. Converting the argument to an arithmetic type gives the same number, and an arithmetic destination variable receives the value exactly whenever its type can represent it, after truncation of fractions for integers and including the full 64-bit range.",
 ["inputs","configurations"],"All value texts (numbers in all C notations and magnitudes, near-numbers, junk), all kinds, all arithmetic types.",
 T18+" No stable test reads a number.",
 [AR,AH],[("toNumber_",AR),("strTo overloads",AH)],["ArgumentElement::isNumber/getNumber","operator T","dest"])
prop("C13","Destination variables receive what the argument reads back",
 "After a successful parse every destination variable holds the value its argument reads back, converted to the variable's type: bool, integer, floating, std::string, C string and char array (truncated, always terminated), vectors (one element per value appended to what the vector holds, none for an absent or empty list) and vectors of vectors (one row appended per value or group), for absent arguments with the default or empty value. A user conversion function is called exactly once with whether the argument was given and its values as strings. Attaching a destination at any point of the declaration changes nothing else about the argument.",
 ["inputs","configurations"],"All kinds of arguments, all destination types, given or absent, with and without defaults.",
 T18+" No stable test parses with a destination.",
 [AH,AR],[("toDest_ of the three destination classes",AH),("strTo/boolTo",AH),("copy constructor",AR)],["destination variables","conversion function calls"])
prop("C14","Presence, count and truth value account for every occurrence",
 "After a parse, an option exists exactly if the line gave it under at least one of its flags, and its count is the number of occurrences over all flags and spellings, each cluster member counting once. Its truth value equals its presence, except that a store-false option is true exactly when absent. Boolean options read back as the strings true and false in agreement with their truth value, and a positional exists exactly if it received a word.",
 ["inputs","configurations"],"All option kinds, all sequences of occurrences under all flags and spellings.",
 T18+" No stable test counts occurrences.",
 [PA,AR,AH],[("count and presence updates",PA),("operator bool, getString",AH)],["Argument::isExists/count/operator bool/getString"])
prop("C15","Parsing depends only on declarations, not on earlier parses",
 "Parsing a line gives the same outcome, values, presence, counts, additional arguments, numbers and exception on an object that has already parsed any other lines, successfully or not, as on a fresh object with the same declarations. The only things that persist are the automatically added help option and the program name.",
 ["histories","inputs","configurations"],"All declaration sets and all histories of previous parses (valid, malformed, missing required, rejected by validators, help/version).",
 T18+" Histories of parses on one object are not tested at all.",
 [PA,AR],[("reset at the start of parseArguments",PA),("clear_",AR)],["Args::parseArguments outcome"],
 [("isExist_, count_, values","per-parse state",AH),("additionalArguments_","per-parse state",GH)])
prop("C16","The set of declared arguments follows every add, flag and remove",
 "After any sequence of additions, extra flags, removals, updates and clears, a name or flag is known exactly if it was added and not removed, all flags of one argument reach the same argument, and an argument disappears when its last name is removed, taking its help or version role with it. Adding a name or flag that is in use, removing an unknown one and accessing an unknown one throw naming it (ArgumentException, AccessDeniedException for access), and a rejected addition or removal changes nothing. Every accepted history leaves an object on which parsing and usage behave as if only the surviving declarations had been made.",
 ["histories","configurations"],"All histories of declaration operations, valid and invalid ones mixed, duplicates inside one call included.",
 "The stable tests try single fixed calls of addArgument, removeArguments and updateArgument; the state reached by long mixed histories is out of their reach.",
 [PA,AR,GH],[("addArgument/removeArguments/clear",PA),("flag",AR),("updateArgument/getArgument",GH)],["Args::argumentExists","Args::getArgument","exceptions"],
 [("arguments_ and argumentFromName_","declared arguments and their names",GH)])
prop("C17","clear() returns the object to its initial state",
 "After clear(), whatever was declared, configured or parsed before, the object behaves as a newly constructed one: no argument, no version, description, epilog or usage override, no program name, all modes off, default usage widths, no additional arguments; and every later declaration, parse and usage gives the same results as on a new object.",
 ["histories","configurations"],"All histories before clear() and all uses after it.",
 "The tests never reuse an object after clear().",
 [PA],[("clear",PA)],["all public accessors","later parses"])
prop("C18","The usage text states every declared argument truthfully",
 "The usage text names the program by its base name, lists every option once in the synopsis and once in the option section with all its flags, its metavar (declared, or derived from its flags and number of values) and every positional once in each with the form of its multiplicity; optional entries are bracketed in the synopsis and required ones are not. Each entry carries its help text, followed by (required) or by its default values if any. Options come before positionals in the synopsis, sorted required first then short flags before long ones then by name, positionals in parse order, and description and epilog frame the sections; setUsage replaces the whole text.",
 ["configurations","inputs"],"All declared argument sets, all help, metavar, default, description and epilog texts.",
 "The usage tests compare a handful of fixed declarations with fixed texts.",
 [US,AR],[("getUsage",US),("metavarDefault_, compareOption_",AR)],["Args::getUsage"])
prop("C19","The usage text keeps its layout at every width",
 "For all widths set with setUsageWidth, synopsis lines fit in the total width unless they hold one single item, help text starts in its column (on the line of its argument if that fits in the argument column, otherwise on the next line) and every help, description and epilog line fits in its width unless it starts with a word that does not fit. Wrapping only replaces spaces by line ends: the sequence of words of each text is unchanged and explicit line breaks are kept. Every item of the synopsis that does not stand on its first line begins in the column after the program name, -- has a line of its own once the synopsis has several, and no item (except at --) or word is moved to a further line while it would fit with a column to spare.",
 ["configurations","inputs"],"All widths, all declared argument sets, all texts.",
 "The usage tests fix a few texts at the default and one or two other widths.",
 [US],[("s_multilineWrap and the column logic of getUsage",US)],["Args::getUsage"])
prop("C20","Order of declaration and of setters does not matter",
 "Declaring the same options in any order (positionals keeping their relative order), naming their flags in any order, adding some flags later with flag(), applying the setters of an argument in any valid order and any number of times, directly or through updateArgument, and attaching the destination first, in the middle or last, all give the same usage text and the same outcome for every command line.",
 ["configurations","inputs"],"All declaration sets, all permutations of declarations and setter calls, all command lines.",
 "The tests declare each argument in one order.",
 [AR,PA],[("typeConstructor_, defaultsConstructor_, required, flag",AR),("sorting in addArgument",PA)],["Args::getUsage","Args::parseArguments outcome"])
prop("C21","No input makes the library crash, hang or leak",
 "For any public call sequence with valid pointers and moderate sizes (declarations valid or not, any texts, any command lines, any reads of the results), the library executes no undefined behaviour, always returns, throws nothing but its own exception classes (std::out_of_range for an index out of range), and releases all memory it allocated when the object is destroyed or cleared.",
 ["inputs","histories","configurations"],"All call sequences and all byte strings as names, flags, values, texts and words.",
 T18+" Neither sanitizers nor arbitrary inputs are involved.",
 [PA,AR,US,VA,AH],[("all public entry points","include/blet/args/*.h")],["sanitizer reports","exception types","allocated bytes"])
prop("C22","The caller's argv is only read, and only within argc",
 "Parsing never changes the argument array or the words in it, never reads beyond argc entries, and copies what it keeps: the program name, values, destinations and additional arguments stay intact when the caller overwrites or frees the words afterwards. A program name set before the parse is kept; otherwise the first word is the program name, and it is never taken as an argument or as '--'.",
 ["inputs","configurations"],"All argument sets, all command lines including argc 0 and 1 and arrays without a terminating null.",
 T18+" The tests use static arrays that stay alive and are never compared afterwards.",
 [PA,UT],[("argv indexing in the option and positional parsers",PA),("endOptionIndex",UT)],["argv contents","Argument conversions after overwriting argv"])
prop("C23","Validators are owned exactly as declared",
 "A validator given as deletable is deleted exactly once: when it is replaced by another, when its argument is removed or cleared, or when the object is destroyed, and not before; one given as not deletable is never deleted by the library. This holds through attaching destinations, copying the argument object, failed and repeated parses and every other history of calls.",
 ["histories","configurations"],"All histories of declarations, validator replacements, destination attachments, copies, parses, removals and clears.",
 T18+" Object lifetimes are not observed by any test.",
 [AH,AR,PA],[("valid, dest",AH),("copy constructor and destructor",AR)],["destructor calls of validators","sanitizer reports"],
 [("validDeletable_","whether the library owns the validator",AH)])
prop("C24","All read accesses of an argument agree with each other",
 "For every argument after a parse, string conversion, stream output, indexed elements, vector, nested vector and iteration describe the same values: the string form is the elements joined with a comma and space, groups in parentheses, and stays equal under every flag of the argument. Conversions that do not exist for the kind throw Exception, an index out of range throws std::out_of_range, and declaration accessors (flags, default values, help, metavar, number of values, action, required) return what was declared; an element that is a default value returns its text from getDefault().",
 ["inputs","configurations"],"All kinds of arguments, given or absent, with all values.",
 T18+" No stable test reads a parsed argument.",
 [AR,AH],[("conversions and getString",AR),("operator[], accessors",AH)],["Argument and ArgumentElement accessors"])
prop("C25","Every way of building the library behaves the same",
 "For every program using the public interface, the compiled library and the single header, in C++98, C++11, C++17 and C++20, with GCC and Clang, used from one or several translation units, produce the same results, exceptions, usage text and output.",
 ["programs","configurations","inputs"],"All declared argument sets, command lines and histories, over the build forms.",
 "The tests are built once, in one language mode, against the compiled library only.",
 [SI,"include/blet/args.h",AH,"include/blet/args/vector.h"],[("the generated single header",SI),("language-mode conditionals",AH)],["results of the same scenario in every build"])
prop("C26","Infinite arguments stop exactly at the next recognised option or --",
 "An infinite option, an extend option and an infinite positional take every following word up to, not including, the first word that is a recognised option in any of its spellings, or '--', or the end; words that start with a dash but match no declared option, such as negative numbers, are taken as values. With groups of n values the words taken are split in order into groups of exactly n (a group once begun takes its n words as they are, only -- and the end of the line cut it), and an incomplete last group is rejected naming the option or positional.",
 ["inputs","configurations"],"All argument sets, all word sequences following an infinite argument, alternative mode on and off.",
 T18+" No stable test parses an infinite argument.",
 [PA],[("endOfInfiniteArgument_ and the infinite branches",PA)],["Args::parseArguments outcome"])
prop("C27","Objects do not influence each other",
 "Any number of parser objects can be declared, used, interleaved and destroyed in one program, also from different threads as long as each object stays in one thread: each behaves exactly as if it were alone.",
 ["histories","schedules"],"All interleavings of operations on several objects, and concurrent use of distinct objects.",
 "The tests use one object at a time in one thread.",
 [PA,AR,US],[("no shared mutable state","src/*.cpp")],["results per object","thread sanitizer"])
prop("C28","Declarations are accepted exactly when they are well formed",
 "addArgument and flag() accept a flag exactly if it is '-' and one character other than '-', or '--' and at least one character, and it is not in use; a lone name that does not start with '-' and is not empty or in use declares a positional. Everything else, mixing names and flags, an empty list, default lists whose length does not fit the number of values, combinations of action and number of values that a positional cannot have, adding a flag to a positional, and a second help or version action, throws ArgumentException naming the offending flag or argument.",
 ["configurations","inputs"],"All lists of texts as names and flags, all kinds, default lists, actions and numbers of values.",
 "The stable tests try a few fixed bad flags.",
 [PA,AR],[("addArgument",PA),("validFormatFlag_, typeConstructor_, defaultsConstructor_, flag",AR)],["ArgumentException","Args::argumentExists"])
prop("C29","Alternative mode only adds single-dash long spellings",
 "With alternative mode on, '-name' and '-name=value' mean the same as '--name' and '--name=value' for every declared long flag, wherever long flags are allowed, including as the end of an infinite argument. Every line whose single-dash words are not the name of a long flag gives the same outcome with the mode on and off, and with the mode off single-dash words are only short options and clusters.",
 ["inputs","configurations"],"All argument sets and command lines, mode on and off.",
 T18+" No stable test parses in alternative mode.",
 [PA],[("alternative lookup in parseShortArgument_ and endOfInfiniteArgument_",PA)],["Args::parseArguments outcome"])
prop("C30","Strict mode differs only by rejecting additional arguments",
 "If parsing without strict mode yields no additional arguments, strict mode gives the same outcome; if it yields some, strict mode throws ParseArgumentException naming the first of them, unless an earlier word of the line is already in error. In strict mode getAdditionalArguments() is always empty.",
 ["inputs","configurations"],"All argument sets and command lines.",
 T18+" No stable test parses in strict mode.",
 [PA],[("end of parsePositionnalArgument_",PA)],["ParseArgumentException","Args::getAdditionalArguments"])
prop("C31","All ways of writing a list of names or values are equivalent",
 "Giving names, flags or default values as a C string, std::string, array of either, chain of additions or initializer list declares exactly the same argument, with the same texts in the same order, for any texts and lengths.",
 ["inputs","programs"],"All lists of texts, all forms of writing them.",
 "The tests use each form on one or two fixed lists.",
 ["include/blet/args/vector.h"],[("Vector constructors and operator+","include/blet/args/vector.h")],["Argument::getNameOrFlags/getDefaults","Args::removeArguments"])
prop("C32","Exceptions keep their meaning and text",
 "Every exception of the library can be caught as its documented class and each of its bases up to std::exception, and what() and argument() return complete texts that stay valid and unchanged when the exception is copied, rethrown or outlives the parser object and the command line; a validator's own message is kept, with the argument named.",
 ["inputs","configurations"],"All failing declarations, accesses and parses with all texts, including long and empty ones.",
 "The tests look at the class and message of a few fixed errors while everything is still alive.",
 ["src/exception.cpp","include/blet/args/exception.h",PA],[("exception classes own their texts","src/exception.cpp")],["what()","argument()"])
prop("C33","Exceptions of the caller's functions pass through a parse unharmed",
 "An exception of any type thrown by a validator or a destination conversion function of the caller leaves parseArguments as the same exception, except that a ParseArgumentValidException of a validator names the argument; no other function of the caller is called after it and no memory is lost. Afterwards the object can be parsed again, any number of times, with the outcome the declarations prescribe and every validator and conversion function called as often as on a fresh object.",
 ["inputs","histories","fault_sequences"],"All declarations with any validators and conversion functions, all lines, every callback of every parse throwing any type.",
 "No test has a validator or conversion function that throws.",
 [PA,AH],[("validator and destination loop of parseArguments",PA),("toDest_ with a custom function",AH)],["exception leaving parseArguments","outcome of later parses"])
prop("C34","A copy of an argument keeps what it was when it was copied",
 "Copying an argument, one of its elements or such a copy gives an object that reads exactly as the original at that moment, through every accessor and conversion, and goes on doing so whatever happens to the original later: other parses, setters, removal, clear() and the end of the parser object. Changing or destroying a copy changes nothing of the original.",
 ["inputs","histories"],"All declarations, lines and histories, copies taken and read at every point of them.",
 "The tests never copy an argument.",
 [AR,AH],[("copy constructors of ArgumentElement and Argument",AR)],["Argument copies","ArgumentElement copies"])
prop("C35","Reading and usage texts never change what other calls do",
 "Reading an argument or a setting in any way, asking for the usage text and copying arguments have no effect: any sequence of calls gives the same results, exceptions, destinations and usage texts whether or not such calls stand between them. Setting the description, epilog, usage text, version or widths never changes the outcome of a parse except for the texts of help and version.",
 ["inputs","histories"],"All sequences of public calls, all insertions of reads and texts.",
 "The tests look at one usage text or accessor after one history; none compares a history with and without them.",
 [PA,AR,US,AH,GH],[("getUsage",US),("read accessors",AH)],["results of every other public call"])
prop("C36","Arguments that a line does not use have no influence on it",
 "Declaring further optional options whose flags no word of the line can mean, anywhere among the declarations, of any kind, with any defaults, destinations and validators, or declaring and removing them again, changes nothing in the outcome of the line: values, presence, counts, additional arguments, exceptions and what they name stay the same, and the further options are absent with their default values.",
 ["inputs","configurations"],"All declarations, lines and unused declarations.",
 T18+" Independence of declarations is a relation between two objects that no test states.",
 [PA,AR],[("flag table argumentFromName_",PA),("argument ordering compareOption_",AR)],["Args::parseArguments outcome"])
prop("C37","An argument behaves as its accessors say, whatever calls made it so",
 "After any history of declarations, setters (accepted or rejected), later flags, destinations, removals and parses, getNameOrFlags, getAction, getNargs, getDefaults, isRequired, getHelp and getMetavar describe each argument completely: the parser treats it as the grammar prescribes for that action, number of values, requirement and defaults, and a new parser whose arguments are declared with nothing but those results (positionals in their order of declaration) accepts them and gives the same usage text and the same outcome for every command line.",
 ["inputs","histories"],"All histories of declaration calls with accepted and rejected setters, all lines afterwards.",
 "The tests read no accessor after a change of the declaration; that they describe the behaviour completely is a relation between two parsers over all lines.",
 [AR,AH,PA],[("typeConstructor_ and defaultsConstructor_",AR),("accessors",AH)],["accessors of Argument","Args::getUsage","Args::parseArguments outcome"],
 [("action_, nargs_, defaults_, type_","declaration of an argument",AH)])
prop("C38","The order in which different options stand on the line does not matter",
 "Moving the occurrences of options on a command line, so that the occurrences of each option stay in their order, positional words stay in theirs, no word that is not a value comes to follow an argument that takes any number of values, and what stands behind -- stays there, changes nothing: outcome, exception and what it names, values, counts, presence, additional arguments, destinations and what validators are given are the same. In particular options may all precede or all follow the positional words.",
 ["inputs","configurations"],"All declarations, all accepted lines and lines rejected for a missing argument, a validator or an additional argument, all admissible orders of each.",
 T18+" Independence of the order is a relation between pairs of lines.",
 [PA],[("parseArguments loop",PA),("checks and destinations after the loop",PA)],["Args::parseArguments outcome","destination variables","validator calls"])
prop("C39","What the usage text shows can be typed and reads back as typed",
 "A line written from the usage text alone, with every item of the synopsis that is not in brackets and any of those in brackets (for optional positionals: the first ones), any of the flags listed for an item, as many values as it has metavars or repetitions of its name, and positional words after --, is accepted, and each item reads back as typed; an item left out reads back the default value that is shown; leaving out an item that is not in brackets, or one value of an item with a fixed number of them, is rejected. This holds for arguments with plain names and derived or matching metavars, at every usage width, before and after a parse.",
 ["inputs","configurations"],"All declarations with plain names, all selections of items and values, all widths.",
 "The tests compare usage texts with literals and never type what they show.",
 [US,PA],[("getUsage",US),("metavarDefault_",AR)],["Args::getUsage","Args::parseArguments outcome"])
prop("C40","Running out of memory in a call harms nothing but that call",
 "When an allocation fails in addArgument, flag, removeArguments, dest, a setter of a text or of defaults, getUsage, a read, a copy or parseArguments, either the call completes or std::bad_alloc leaves it. A failed addArgument, flag, removeArguments, dest, copy, read or getUsage leaves the set of declared arguments and the usage text as they were; a failed parse leaves the declarations (the automatic help option is added whole or not at all); a failed setter can be called again. Later calls and parses give what the calls that succeeded prescribe, no memory is lost, and each owned validator is deleted once.",
 ["histories","fault_sequences"],"All histories of calls, a failing allocation at any point of any of them.",
 "The tests never make an allocation fail.",
 [PA,AR,AH],[("addArgument",PA),("flag",AR),("replace_ after the copy of a destination",AR),("automatic help option",PA)],["exception leaving the call","declared arguments","later parses","allocations"])
prop("C41","What was read after a parse can be written again and reads the same",
 "For every successful parse, the line made of nothing but what is read afterwards, one of the flags with '=value' or the values for each option that exists (as often as it was counted), then -- and the words of the positionals in their order and the additional arguments, is accepted by a parser with the same declarations and reads the same: presence, values in every form, counts (of options that take any number of values at each occurrence: whether they are zero), additional arguments and destinations.",
 ["inputs","configurations"],"All declarations, all accepted lines in which nothing follows an infinite positional argument.",
 T18+" A round trip through the readers and the parser is a relation over all lines.",
 [PA,AR],[("parseArguments",PA),("conversions and count",AR)],["Argument conversions","Args::getAdditionalArguments","destination variables"])
prop("C42","Every setting reads back as last set and acts only on what it documents",
 "The version, description, epilog, program name and the alternative, strict, help exception and version exception modes read back exactly as last set (initially empty and off), whatever declarations, accepted or rejected parses and usage texts come between; only an empty program name is filled by a parse, from argv[0], and only clear() resets them. A usage text that was set is the whole usage text until it is set empty again; a version request shows the version last set. Version, strict and exception modes, validators and destinations never change the usage text. Texts, widths, program name, help texts, metavars and accepting validators never change the outcome of a parse, nor do the defaults and the requirement of options that the line gives.",
 ["inputs","histories"],"All histories of settings, declarations, parses and clear(); all lines.",
 "The tests set each setting once on a new object and look at one effect.",
 ["include/blet/args/args.h","include/blet/args/usage.h",PA,US],[("setters and getters","include/blet/args/args.h"),("setters and getters of the usage","include/blet/args/usage.h"),("clear and parseArguments",PA)],["accessors of Args","Args::getUsage","Args::parseArguments outcome"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
    print(len(P))
    try:
        import jsonschema
        s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p,s)
    except ImportError: print("no jsonschema")
