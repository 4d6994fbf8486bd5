---------------------------- MODULE PipOpTable ----------------------------
(* Operators of Pip: text, function, arity, precedence level, associativity,
   default (value of folding nothing: N nil, L empty List, Sxx the Scalar xx),
   flags (v evaluate operands, r to rvalues, l itemwise over Lists, e and
   Ranges, m builds lambda expressions from functions).
   Written down once, and reviewed against docs/. *)
OpRows == <<
  << "O", "OUTPUT", 1, 0, "-", "N", "r" >>,
  << "P", "PRINT", 1, 0, "-", "N", "r" >>,
  << "Y", "YANK", 1, 0, "-", "N", "r" >>,
  << "YO", "YANKOUTPUT", 1, 0, "-", "N", "r" >>,
  << "YP", "YANKPRINT", 1, 0, "-", "N", "r" >>,
  << ":", "ASSIGN", 2, 1, "R", "N", "v" >>,
  << "::", "SWAP", 2, 1, "R", "N", "v" >>,
  << "?", "IFTE", 3, 2, "R", "N", "" >>,
  << "|", "OR", 2, 3, "L", "S0", "" >>,
  << "&", "AND", 2, 4, "L", "S1", "" >>,
  << "!", "NOT", 1, 5, "-", "N", "r" >>,
  << "==", "OBJEQUAL", 2, 6, "L", "S1", "r" >>,
  << "V", "EVAL", 1, 7, "-", "N", "r" >>,
  << "FI", "FILTER", 1, 7, "-", "N", "r" >>,
  << "FN", "FILTERNOT", 1, 7, "-", "N", "r" >>,
  << "FU", "FILTERUNPACK", 1, 7, "-", "N", "r" >>,
  << "FX", "FILTERINDEXES", 1, 7, "-", "N", "r" >>,
  << "FJ", "FILTERJOIN", 1, 7, "-", "N", "r" >>,
  << "RE", "RECURSE", 1, 7, "-", "N", "r" >>,
  << "M", "MAP", 2, 8, "R", "L", "r" >>,
  << "MC", "MAPCOORDS", 2, 8, "R", "L", "r" >>,
  << "ME", "MAPENUMERATE", 2, 8, "R", "L", "r" >>,
  << "MJ", "MAPJOIN", 2, 8, "R", "S", "r" >>,
  << "MM", "MAPMAP", 2, 8, "R", "L", "r" >>,
  << "MP", "MAPPAIRS", 2, 8, "R", "L", "r" >>,
  << "MS", "MAPSUM", 2, 8, "R", "S0", "r" >>,
  << "MU", "MAPUNPACK", 2, 8, "R", "L", "r" >>,
  << "MF", "MAPFLATTEN", 2, 8, "R", "L", "r" >>,
  << "FI", "FILTER", 2, 8, "R", "L", "r" >>,
  << "FN", "FILTERNOT", 2, 8, "R", "L", "r" >>,
  << "FE", "FILTERENUMERATE", 2, 8, "R", "L", "r" >>,
  << "FU", "FILTERUNPACK", 2, 8, "R", "L", "r" >>,
  << "FX", "FILTERINDEXES", 2, 8, "R", "L", "r" >>,
  << "FJ", "FILTERJOIN", 2, 8, "R", "L", "r" >>,
  << "SK", "SORTKEYED", 2, 8, "R", "L", "r" >>,
  << "DK", "DESCENDINGKEYED", 2, 8, "R", "L", "r" >>,
  << "V", "EVAL", 2, 8, "R", "N", "r" >>,
  << "MR", "MAPREGEX", 3, 9, "R", "L", "r" >>,
  << "MZ", "MAPZIP", 3, 9, "R", "L", "r" >>,
  << "\\?", "RVALIFTE", 3, 10, "R", "N", "rm" >>,
  << "\\|", "RVALOR", 2, 11, "L", "S0", "rm" >>,
  << "\\&", "RVALAND", 2, 12, "L", "S1", "rm" >>,
  << "\\!", "NOT", 1, 13, "-", "N", "rm" >>,
  << "<", "NUMLESS", 2, 14, "C", "S1", "rm" >>,
  << ">", "NUMGREATER", 2, 14, "C", "S1", "rm" >>,
  << "=", "NUMEQUAL", 2, 14, "C", "S1", "rm" >>,
  << "<=", "NUMLESSEQ", 2, 14, "C", "S1", "rm" >>,
  << ">=", "NUMGREATEREQ", 2, 14, "C", "S1", "rm" >>,
  << "!=", "NUMNOTEQUAL", 2, 14, "C", "S1", "rm" >>,
  << "LT", "STRLESS", 2, 14, "C", "S1", "rm" >>,
  << "GT", "STRGREATER", 2, 14, "C", "S1", "rm" >>,
  << "Q", "STREQUAL", 2, 14, "C", "S1", "rm" >>,
  << "LE", "STRLESSEQ", 2, 14, "C", "S1", "rm" >>,
  << "GE", "STRGREATEREQ", 2, 14, "C", "S1", "rm" >>,
  << "NE", "STRNOTEQUAL", 2, 14, "C", "S1", "rm" >>,
  << "#=", "LENEQUAL", 2, 14, "C", "S1", "rm" >>,
  << "#<", "LENLESS", 2, 14, "C", "S1", "rm" >>,
  << "#>", "LENGREATER", 2, 14, "C", "S1", "rm" >>,
  << "~=", "FULLMATCH", 2, 14, "C", "S1", "rm" >>,
  << "N", "IN", 2, 15, "L", "N", "rm" >>,
  << "NI", "NOTIN", 2, 15, "L", "N", "rm" >>,
  << "RP", "REPR", 1, 16, "-", "N", "r" >>,
  << "ST", "STR", 1, 16, "-", "N", "r" >>,
  << "CB", "COMBINATIONS", 2, 17, "L", "L", "rm" >>,
  << "MX", "MAX", 1, 18, "-", "N", "rm" >>,
  << "M", "MAX", 1, 18, "-", "N", "rm" >>,
  << "MN", "MIN", 1, 18, "-", "N", "rm" >>,
  << "N", "MIN", 1, 18, "-", "N", "rm" >>,
  << "RC", "RANDCHOICE", 1, 18, "-", "N", "rm" >>,
  << "SH", "SHUFFLE", 1, 18, "-", "N", "rm" >>,
  << "SN", "SORTNUM", 1, 18, "-", "N", "rm" >>,
  << "SS", "SORTSTRING", 1, 18, "-", "N", "rm" >>,
  << "DN", "DESCENDINGNUM", 1, 18, "-", "N", "rm" >>,
  << "DS", "DESCENDINGSTRING", 1, 18, "-", "N", "rm" >>,
  << "UQ", "UNIQUE", 1, 18, "-", "N", "rm" >>,
  << "EN", "ENUMERATE", 1, 18, "-", "N", "rm" >>,
  << "PM", "PERMUTATIONS", 1, 18, "-", "N", "rm" >>,
  << "FL", "FLATTEN", 1, 18, "-", "N", "rm" >>,
  << "FA", "FLATTENALL", 1, 18, "-", "N", "rm" >>,
  << "AE", "APPENDELEM", 2, 19, "L", "L", "rm" >>,
  << "AL", "APPENDLIST", 2, 19, "L", "L", "rm" >>,
  << "PE", "PREPENDELEM", 2, 19, "L", "L", "rm" >>,
  << "PU", "PUSH", 2, 19, "L", "L", "vm" >>,
  << "PB", "PUSHBACK", 2, 19, "L", "L", "vm" >>,
  << "PK", "PICK", 2, 19, "L", "L", "vm" >>,
  << "PO", "POP", 1, 20, "-", "N", "vm" >>,
  << "DQ", "DEQUEUE", 1, 20, "-", "N", "vm" >>,
  << "^", "SPLIT", 2, 21, "L", "L", "rlem" >>,
  << "^@", "SPLITAT", 2, 21, "L", "L", "rm" >>,
  << "@?", "FIND", 2, 21, "L", "N", "rm" >>,
  << "@*", "FINDALL", 2, 21, "L", "L", "rm" >>,
  << "<>", "GROUP", 2, 21, "L", "L", "rm" >>,
  << "CH", "CHOP", 2, 21, "L", "L", "rm" >>,
  << "J", "JOIN", 2, 21, "L", "S", "rm" >>,
  << "JW", "JOINWRAP", 2, 21, "L", "N", "rm" >>,
  << "RL", "REPEATLIST", 2, 21, "L", "L", "rm" >>,
  << "Z", "ZIP", 2, 21, "L", "L", "rm" >>,
  << "ZD", "ZIPDEFAULT", 2, 21, "L", "L", "rm" >>,
  << "ZJ", "ZIPJOIN", 2, 21, "L", "L", "rm" >>,
  << "H", "PREFIX", 2, 21, "L", "L", "vm" >>,
  << "S", "SUFFIX", 2, 21, "L", "L", "vm" >>,
  << "WV", "WEAVE", 2, 21, "L", "L", "rm" >>,
  << "UW", "UNWEAVE", 2, 21, "L", "L", "rm" >>,
  << "CP", "CARTESIANPRODUCT", 2, 21, "L", "L", "rm" >>,
  << "CG", "COORDINATEGRID", 2, 21, "L", "N", "rlem" >>,
  << "ZG", "ZEROGRID", 2, 21, "L", "N", "rlem" >>,
  << "OG", "ONEGRID", 2, 21, "L", "N", "rlem" >>,
  << "TD", "TODIGITS", 2, 21, "L", "L", "rm" >>,
  << "FD", "FROMDIGITS", 2, 21, "L", "S0", "rm" >>,
  << "RA", "REPLACEAT", 3, 22, "L", "N", "rm" >>,
  << "TR", "TRANSLITERATE", 3, 22, "L", "N", "rm" >>,
  << "^", "SPLIT", 1, 23, "-", "N", "rlem" >>,
  << "<>", "GROUP", 1, 23, "-", "N", "rm" >>,
  << "CH", "CHOP", 1, 23, "-", "N", "rm" >>,
  << "J", "JOIN", 1, 23, "-", "N", "rm" >>,
  << "RV", "REVERSE", 1, 23, "-", "N", "rm" >>,
  << "R", "REVERSE", 1, 23, "-", "N", "rm" >>,
  << "RF", "REFLECT", 1, 23, "-", "N", "rm" >>,
  << "PZ", "PALINDROMIZE", 1, 23, "-", "N", "rm" >>,
  << "QR", "QUADREFLECT", 1, 23, "-", "N", "rm" >>,
  << "QP", "QUADPALINDROMIZE", 1, 23, "-", "N", "rm" >>,
  << "Z", "ZIP", 1, 23, "-", "N", "rm" >>,
  << "ZD", "ZIPDEFAULT", 1, 23, "-", "N", "rm" >>,
  << "ZJ", "ZIPJOIN", 1, 23, "-", "N", "rm" >>,
  << "H", "PREFIX", 1, 23, "-", "N", "vm" >>,
  << "S", "SUFFIX", 1, 23, "-", "N", "vm" >>,
  << "WV", "WEAVE", 1, 23, "-", "N", "rm" >>,
  << "UW", "UNWEAVE", 1, 23, "-", "N", "rm" >>,
  << "CP", "CARTESIANPRODUCT", 1, 23, "-", "N", "rm" >>,
  << "CG", "COORDINATEGRID", 1, 23, "-", "N", "rlem" >>,
  << "ZG", "ZEROGRID", 1, 23, "-", "N", "rlem" >>,
  << "OG", "ONEGRID", 1, 23, "-", "N", "rlem" >>,
  << "EY", "IDENTITYMATRIX", 1, 23, "-", "N", "rlem" >>,
  << "TD", "TODIGITS", 1, 23, "-", "N", "rm" >>,
  << "FD", "FROMDIGITS", 1, 23, "-", "N", "rm" >>,
  << "R", "REPLACE", 3, 24, "L", "N", "r" >>,
  << "WR", "WRAP", 2, 25, "L", "S", "rlem" >>,
  << "~", "FIRSTMATCH", 2, 25, "L", "S", "rlem" >>,
  << ".", "CAT", 2, 26, "L", "S", "rlem" >>,
  << "X", "REGEX", 1, 27, "-", "N", "rm" >>,
  << ".", "DOT", 1, 27, "-", "N", "rlm" >>,
  << "K", "KLEENESTAR", 1, 27, "-", "N", "rlm" >>,
  << "RM", "REMOVE", 2, 28, "L", "S", "rm" >>,
  << "DC", "DELETECHARS", 2, 28, "L", "S", "rlem" >>,
  << "X", "STRMUL", 2, 29, "L", "S", "rlem" >>,
  << "||", "STRIP", 2, 30, "L", "S", "rlm" >>,
  << "|>", "LSTRIP", 2, 30, "L", "S", "rlm" >>,
  << "<|", "RSTRIP", 2, 30, "L", "S", "rlm" >>,
  << "TM", "TRIM", 2, 30, "L", "S", "rlm" >>,
  << "||", "STRIP", 1, 31, "-", "N", "rlm" >>,
  << "|>", "LSTRIP", 1, 31, "-", "N", "rlm" >>,
  << "<|", "RSTRIP", 1, 31, "-", "N", "rlm" >>,
  << "TM", "TRIM", 1, 31, "-", "N", "rlm" >>,
  << "LC", "LOWERCASE", 1, 31, "-", "N", "rlm" >>,
  << "UC", "UPPERCASE", 1, 31, "-", "N", "rlm" >>,
  << "SC", "SWAPCASE", 1, 31, "-", "N", "rlm" >>,
  << "TC", "TITLECASE", 1, 31, "-", "N", "rlm" >>,
  << "IC", "INITIALCAPS", 1, 31, "-", "N", "rlm" >>,
  << ",", "RANGE", 2, 32, "L", "N", "rlem" >>,
  << "\\,", "INCLRANGE", 2, 32, "L", "N", "rlem" >>,
  << "RR", "RANDRANGE", 2, 32, "L", "S0", "rlem" >>,
  << "TB", "TOBASE", 2, 32, "L", "S0", "rlem" >>,
  << ",", "RANGETO", 1, 33, "-", "N", "rlem" >>,
  << "\\,", "INCLRANGETO", 1, 33, "-", "N", "rlem" >>,
  << "RR", "RANDRANGETO", 1, 33, "-", "N", "rlem" >>,
  << "TB", "TOBASE", 1, 33, "-", "N", "rlem" >>,
  << "BA", "BITWISEAND", 2, 34, "L", "S-1", "rlem" >>,
  << "BO", "BITWISEOR", 2, 34, "L", "S0", "rlem" >>,
  << "BX", "BITWISEXOR", 2, 34, "L", "S0", "rlem" >>,
  << "AT", "ARCTAN", 2, 34, "L", "N", "rlem" >>,
  << "CM", "NUMCMP", 2, 34, "L", "S0", "rm" >>,
  << "|<", "FLOOR", 2, 34, "L", "S0", "rlem" >>,
  << ">|", "CEIL", 2, 34, "L", "S0", "rlem" >>,
  << "RZ", "ROUNDZERO", 2, 34, "L", "S0", "rlem" >>,
  << "RN", "ROUNDNEAREST", 2, 34, "L", "S0", "rlem" >>,
  << "BN", "BITWISENOT", 1, 35, "-", "N", "rlem" >>,
  << "SI", "SINE", 1, 35, "-", "N", "rlem" >>,
  << "CO", "COSINE", 1, 35, "-", "N", "rlem" >>,
  << "TA", "TANGENT", 1, 35, "-", "N", "rlem" >>,
  << "SE", "SECANT", 1, 35, "-", "N", "rlem" >>,
  << "CS", "COSEC", 1, 35, "-", "N", "rlem" >>,
  << "CT", "COTAN", 1, 35, "-", "N", "rlem" >>,
  << "AT", "ARCTAN", 1, 35, "-", "N", "rlem" >>,
  << "RD", "RADIANS", 1, 35, "-", "N", "rlem" >>,
  << "DG", "DEGREES", 1, 35, "-", "N", "rlem" >>,
  << "BL", "BITLENGTH", 1, 35, "-", "N", "rlem" >>,
  << "|<", "FLOOR", 1, 35, "-", "N", "rlem" >>,
  << ">|", "CEIL", 1, 35, "-", "N", "rlem" >>,
  << "RZ", "ROUNDZERO", 1, 35, "-", "N", "rlem" >>,
  << "RN", "ROUNDNEAREST", 1, 35, "-", "N", "rlem" >>,
  << "+", "ADD", 2, 36, "L", "S0", "rlm" >>,
  << "-", "SUB", 2, 36, "L", "S0", "rlm" >>,
  << "AD", "ABSOLUTEDIFF", 2, 36, "L", "S0", "rlem" >>,
  << "*", "MUL", 2, 37, "L", "S1", "rlem" >>,
  << "/", "DIV", 2, 37, "L", "S1", "rlem" >>,
  << "%", "MOD", 2, 37, "L", "S0", "rlem" >>,
  << "//", "INTDIV", 2, 37, "L", "S1", "rlem" >>,
  << "+", "POS", 1, 38, "-", "N", "rlm" >>,
  << "-", "NEG", 1, 38, "-", "N", "rlem" >>,
  << "/", "INVERT", 1, 38, "-", "N", "rlem" >>,
  << "%", "MOD", 1, 38, "-", "N", "rlem" >>,
  << "HV", "HALVE", 1, 38, "-", "N", "rlem" >>,
  << "HU", "HALVEUP", 1, 38, "-", "N", "rlem" >>,
  << "DB", "DOUBLE", 1, 38, "-", "N", "rlem" >>,
  << "SQ", "SQUARE", 1, 38, "-", "N", "rlem" >>,
  << "**", "POW", 1, 38, "-", "N", "rlem" >>,
  << "E", "POW", 1, 38, "-", "N", "rlem" >>,
  << "EE", "POWEROFTEN", 1, 38, "-", "N", "rlem" >>,
  << "RT", "SQRT", 1, 38, "-", "N", "rlem" >>,
  << "EX", "EXPONENTIAL", 1, 38, "-", "N", "rlem" >>,
  << "LN", "NATURALLOG", 1, 38, "-", "N", "rlem" >>,
  << "LB", "BINARYLOG", 1, 38, "-", "N", "rlem" >>,
  << "LD", "DECIMALLOG", 1, 38, "-", "N", "rlem" >>,
  << "**", "POW", 2, 39, "R", "S1", "rlem" >>,
  << "E", "POW", 2, 39, "R", "S1", "rlem" >>,
  << "EE", "POWEROFTEN", 2, 39, "R", "S1", "rlem" >>,
  << "RT", "ROOT", 2, 39, "R", "S1", "rlem" >>,
  << "FB", "FROMBASE", 2, 40, "L", "S0", "rlem" >>,
  << "U", "INC", 1, 41, "-", "N", "vm" >>,
  << "D", "DEC", 1, 41, "-", "N", "vm" >>,
  << "#", "LEN", 1, 41, "-", "N", "rm" >>,
  << "A", "ASC", 1, 41, "-", "N", "rlem" >>,
  << "C", "CHR", 1, 41, "-", "N", "rlem" >>,
  << "AB", "ABS", 1, 41, "-", "N", "rlem" >>,
  << "SG", "SIGN", 1, 41, "-", "N", "rlem" >>,
  << "FB", "FROMBASE", 1, 41, "-", "N", "rlem" >>,
  << "@", "AT", 2, 42, "L", "N", "vm" >>,
  << "@<", "LEFTOF", 2, 42, "L", "N", "vm" >>,
  << "@>", "RIGHTOF", 2, 42, "L", "N", "vm" >>,
  << "@", "AT", 1, 43, "-", "N", "vm" >>,
  << "@<", "LEFTOF", 1, 43, "-", "N", "vm" >>,
  << "@>", "RIGHTOF", 1, 43, "-", "N", "vm" >>,
  << "++", "INC", 1, 43, "-", "N", "vm" >>,
  << "--", "DEC", 1, 43, "-", "N", "vm" >>
>>
=============================================================================
