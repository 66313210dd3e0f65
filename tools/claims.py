CLAIMED["C06"] = ("typestate by path-sensitive abstract simulation of the registry map with presence facts, over all inlined paths of every exported registry operation",
  COMMON + "Each operation is simulated on every path over a symbolic registry (presence of each key forks); what it inserts, deletes and answers is compared with the contract. Aliasing of registries between hangulizers is decided by points-to.")
CLAIMED["C07"] = ("typestate by path-sensitive abstract simulation of Install over symbolic registration outcomes, with counted-loop summaries for the rollback",
  COMMON + "Every outcome of every registration is followed; on a failing path the set of removed translits must be exactly the set added by this call.")
CLAIMED["C18"] = ("typestate by path-sensitive abstract simulation of the spec cache and points-to on what reaches it",
  COMMON + "Every path of LoadSpec, UnloadSpec and ListLangs is simulated over a symbolic cache; what is stored under a key must be parsed from the source of that key. embed.FS is trusted to fail only with fs.ErrNotExist.")
CLAIMED["C08"] = ("single-fault path-sensitive abstract simulation: every external failure site forks, and the error must flow to the result on every path",
  COMMON + "At most one failure per operation is followed, plus errors built inside. embed.FS.ReadFile fails only for a missing file; an expression regexp/syntax.Parse refuses is refused by regexp.Compile. The error Interpolate reports is by design not an error of the transcription (C21).")
CLAIMED["C09"] = ("progress check: strongly connected components of the abstract state graph of the reader typestate, plus linear-fact discharge of every panic obligation",
  COMMON + "Readers may end or fail at any letter and stay so. Loops that never touch the reader are judged by a syntactic ranking (something they carry moves one way); nil dereference is decided where the nil is visible on the path.")
CLAIMED["C21"] = ("linear-fact discharge of panic obligations on every abstract path of Interpolate, plus a copying typestate over its failing paths",
  COMMON + "Interpolate is judged for every pattern, replacement, word and match, whatever built them. The copying rule follows buffers written with WriteString and parts of the matched text.")
CLAIMED["C04"] = ("interprocedural value-flow analysis over points-to: no value of one call may reach another through anything that outlives it, plus a typestate rule for pooled objects",
  COMMON + "What survives a call is found by points-to (globals, the hangulizer, pools, captured variables); every store into it from transcription is judged by where its value came from. Idempotent caches of values computed from the spec alone are accepted.")
CLAIMED["C03"] = ("interprocedural value-flow analysis: ambient sources and every unordered iteration are tracked to what the library and the programs answer, through an order lattice (unordered loop, unordered slice, totally sorted)",
  COMMON + "A loop over a map may feed only order-insensitive sinks (a map keyed by the key, a set, a count, a slice sorted totally before use). Time, randomness, environment and addresses may reach no answer. Sorting by a comparison function is total only when it compares the whole element or the map key.")
CLAIMED["C05"] = ("interprocedural value-flow analysis with implicit flows from the registered trace function to every result, plus ownership of event memory over points-to and the supergraph",
  COMMON + "Non-interference is judged for data and control dependence, not for time or for a trace function that panics. What a trace function may change is what exported fields of the event reach.")
CLAIMED["C16"] = ("control-flow rules over the inlined supergraph (order, coverage and repetition of steps and loops) plus a forward version analysis of texts and subword lists",
  COMMON + "A step is recognised by the translit, replacer, script, pattern or composer operation it performs; loops by what they range over. Loops of an unrecognised form are judged only for what enters them. A translit or trace function that calls back is not followed.")
CLAIMED["C20"] = ("path rules over the inlined supergraph (every step is followed by its event before the next, duplicates exactly on the equal branch) plus the version analysis of the words events carry",
  COMMON + "Events are the calls of the registered function; their words are judged by which step made them, not letter by letter. How the subwords of one rule are merged into a word is judged by the conditions, places and lists used, not by the text.")
CLAIMED["C10"] = ("lint of every bundled spec: an independent HSL reader and HRE expander feed syntax-tree rules on every rule's expression, checked against the script and translit tables taken from the typed program",
  COMMON + "The linter's own reading of HSL and HRE stands for the repository's; a replacement's composability is judged per rule, not for texts that several rules build together.")
CLAIMED["C13"] = ("single-fault path-sensitive abstract simulation of every command, goroutine and main as a typestate over words, results, output and exit status",
  COMMON + "Library calls are opaque and fail at most once per run. A failure while reading standard input other than its end, or while printing, is not followed. `ls` only lists and is not judged.")
CLAIMED["C14"] = ("typestate of promises and callbacks by path-sensitive abstract simulation of every callback, goroutine and translit method of the wasm modules, with exceptional edges for everything JavaScript may throw",
  COMMON + "The library is opaque there and may fail or panic. A function created for JavaScript that is stored or handed out is not required to be released. Calling with fewer arguments than documented is not followed. Resolving functions of a promise and constructors of the global object are taken not to throw.")
CLAIMED["C17"] = ("path-sensitive abstract simulation of the composer over symbolic letters, with the queue of letters read but not written as ghost state",
  COMMON + "Letters are classified by go_hangul, whose Split and Join are trusted; which consonants may be leads or tails is out of scope. A composer that does not take and write its letters one by one is not judged, and the evidence says so.")
CLAIMED["C12"] = ("unit inference: every integer, index and list position of the library gets bytes or letters as its unit by context-sensitive propagation over the typed SSA, plus lints for positions moved by a fixed number of bytes",
  COMMON + "Products and equality comparisons carry no unit. Fields are one unit per struct type. A position moved by a constant is accepted in functions that look for ASCII letters. Programs under cmd are not covered, they index no text.")
CLAIMED["C15"] = ("structural value-flow over the typed SSA with calls inlined: every key of every encoding is traced back to the field of the spec or event it carries, plus loop-coverage rules",
  COMMON + "The order of statements is not followed: what is stored to a variable anywhere in a call may be its value. Values built by means the analysis does not name are reported as not decided. TypeScript is read by a small declaration reader; only spec.d.ts and the event type of the worker are read.")
CLAIMED["C11"] = ("value-flow of the bounds, texts and masks of replacements, typestate of replacers over the inlined supergraph, and a copying typestate where a text is put together by path-sensitive abstract simulation",
  COMMON + "What a replacement is for is judged by the match or replacement its bounds come from; bounds worked out in other ways are reported as not decided. That matches do not overlap is the pattern's promise; where a match lies in the text is regexp's.")
CLAIMED["C19"] = ("typestate of text pieces and buffers (read, waiting, taken, written) by path-sensitive abstract simulation of the steps and of the splits and merges of subwords",
  COMMON + "What a replacer leaves of a piece is the piece (C11 judges replacements). That a rule does not speak of a text is judged by level and script only. Texts added up with + and lists changed in place are reported as not decided.")
CLAIMED["C27"]=("typestate over abstract paths of the lexer and the parser (each letter, string and pair is handed on before the next), plus a path rule for every loop over what is written",
  COMMON + "Letters are followed as quote, backslash and any other. Which field of the spec takes which section is left to the tests. A loop of an unrecognised form over pairs or values is not judged.")
