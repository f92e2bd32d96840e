FIELD = 'the words are checked on a harness VM that embeds the real crate; '
prop('C01', 'Stack-shuffling words permute exactly their operands',
     'Every word that only rearranges the data, floating-point or return stack leaves on each stack exactly the items its stack comment promises, in that order, for all contents and all depths within the documented limit of 64 items. Nothing else changes: items below the operands, the other stacks, the instruction pointer, the compile state and the error state are as before. From any depth, legal or not, the word terminates without crashing and its net change of depth is the same.',
     ['inputs', 'histories'], 'all stack contents, all 256 depths, all machine states',
     'tests run each word on one or two concrete stacks of depth at most 6; they cannot cover all cell values and depths, nor that nothing else changes',
     ['src/core.rs', 'src/float.rs'], [('data and return stack words', 'src/core.rs'), ('floating-point stack words', 'src/float.rs')],
     note='All inputs, no bound. Assumes the embedding implements the accessor methods of the traits as field access; rustc/Kani/CBMC/z3 trusted. The binding of Forth names to functions is a closed term evaluated on the real dictionary, not proved.')
prop('C02', 'Integer words compute two\'s-complement results for every operand',
     'Every integer arithmetic, comparison, logic, shift (by less than a cell), address-unit and alignment word replaces exactly its operands by the mathematical result reduced modulo the cell size, with comparisons yielding all-bits-set or zero, and division truncating toward zero even for the least integer divided by -1. Division by zero raises the standard error once and leaves nothing computed. No operand makes a word crash or touch anything below its operands or any other state.',
     ['inputs'], 'all pairs and triples of 64-bit operands, all depths, all machine states',
     'tests use a handful of operand values per word and seldom the extreme ones, where wrapping, signedness and truncation matter',
     ['src/core.rs', 'src/env.rs', 'src/float.rs', 'src/memory.rs'], [('arithmetic, logic and comparison primitives', 'src/core.rs'), ('alignment arithmetic', 'src/memory.rs')],
     note='All operands, no bound. std wrapping_mul/div/rem are uninterpreted functions (trusted to be the mathematical operation); a failure there is reported only with a concrete failing input.')
prop('C03', 'Stack faults never go unnoticed and stack operations are total',
     'Pushing and popping move exactly the items named, for every cell type and at any depth, and never touch other cells or memory outside the stack. A data, return or float stack that holds more than 64 or fewer than zero items, or whose guard cells were overwritten, is reported by the stack check with the standard code of that stack and direction, exactly once, and a stack within its limits is never reported. After the stacks are cleared they are empty and no fault remains.',
     ['inputs', 'histories'], 'all stack contents and depths, all pairs of faults, any sequence of up to 64 pushes or pops from a legal stack',
     'tests overflow or underflow one stack once in a few ways; detection must work from every depth and contents, without false reports',
     ['src/core.rs'], [('Stack<T>', 'src/core.rs'), ('check_stacks, clear_stacks', 'src/core.rs')],
     technique='Kani contracts on Stack<T> and check_stacks of the real crate, discharged by z3/cadical',
     note='All inputs, no bound. The stack check runs between tokens; depths that wrap all the way round between two checks are outside the statement.')
prop('C04', 'Memory words never read or write outside the data space',
     'For every address and length, a word that reads or writes memory does so only if the whole range lies inside the data space, compared without overflow; otherwise it raises invalid-memory-address (or its result code) exactly once, changes no byte, opens no file and leaves nothing behind on the stack. An address inside is never rejected. The inner interpreter stops at an instruction pointer outside the data space instead of executing it.',
     ['inputs'], 'all 64-bit addresses and lengths, all memory contents and machine states',
     'tests try one or two addresses per word; the boundary, wrap-around and partial-range addresses are astronomically many',
     ['src/core.rs', 'src/memory.rs', 'src/float.rs', 'src/output.rs', 'src/file_access.rs', 'src/loader.rs'],
     [('range checks', 'src/memory.rs'), ('memory words', 'src/core.rs'), ('file words taking c-addr u', 'src/file_access.rs')],
     technique='Kani contracts per memory word on the real crate, discharged by z3/cadical',
     note='All addresses, one representative base and capacity of the data space. The system variables at the first cell are read-only to ! c! move.')
prop('C05', 'Memory words transfer exactly the addressed bytes',
     'Storing then fetching at any valid address, aligned or not, returns the value stored, a store changes exactly the bytes of its cell, character or float, and a fetch changes nothing. A move leaves at the destination what the source held before it, however the two ranges overlap, and no other byte is changed.',
     ['inputs'], 'all addresses within the data space, all values and memory contents; move for the bounded sizes given',
     'tests store and fetch at a fresh aligned HERE and never move overlapping ranges',
     ['src/core.rs', 'src/memory.rs', 'src/float.rs'], [('@ ! c@ c! f@ f! move', 'src/core.rs'), ('get_*/put_*', 'src/memory.rs')],
     technique='Kani contracts per memory word on the real crate, discharged by cadical/z3',
     note='All addresses and values; move is bounded (sizes in the evidence), since its copy loop is inside std.')
prop('C06', 'The data-space pointer moves exactly as asked and stays in bounds',
     'HERE always lies within the data space. ALLOT moves it by exactly the requested amount when the result is inside and not at all otherwise, the alignment words move it to the next multiple and no further, and compiling a character, cell, float or string stores exactly that item at the old HERE and advances by exactly its size, changing no byte before it.',
     ['inputs', 'histories'], 'all pointer positions and amounts, all values, all memory contents',
     'tests allot small amounts in a fresh, almost empty space; full space, negative and overflowing amounts and misaligned positions are not sampled',
     ['src/memory.rs', 'src/core.rs'], [('DataSpace::set_here and Memory::compile_*', 'src/memory.rs'), ('here allot align , words', 'src/core.rs')],
     technique='Kani contracts on DataSpace/Memory and the words of the real crate, discharged by cadical/z3',
     note='All inputs; compile_str and put_cstr are bounded in string length. Compiling into a full space panics by design of the code and is outside the statement.')
prop('C07', 'Counted loops run exactly the indices the standard prescribes',
     'A counted loop runs its body with the initial index and then with the index advanced by each step until a step crosses the boundary between limit minus one and limit, for every limit, index and step including wrap-around, and ?DO skips an empty range. I and J are the indices of the innermost and the next enclosing loop, UNLOOP and LEAVE discard exactly the innermost loop, LEAVE continues after the loop, and nothing else on either stack changes.',
     ['inputs', 'histories'], 'all limits, indices, steps, depths and nesting, any number of iterations (by induction on the step)',
     'tests run a few loops with small positive limits; wrap-around, negative steps and crossing rules depend on the full operand range',
     ['src/core.rs'], [('_do _qdo _loop _plus_loop unloop leave p_i p_j', 'src/core.rs')],
     technique='Kani contracts on the loop run-time words of the real crate: one-step bisimulation with DO, discharged by z3/cadical',
     note='All operands, no bound on iterations: each step leaves the loop where DO with the advanced index would put it.')
prop('C08', 'Control structures branch to the right places or are rejected',
     'Each control structure compiles exactly its own code cells, every branch in it leads to the place its structure prescribes, whatever was compiled in between, and the control stack and all other code are left as they were. A closing word that does not match the innermost open structure, or a definition ended with a structure open, raises control-structure-mismatch and alters no code compiled before. Nested structures therefore run as written.',
     ['inputs', 'histories'], 'all positions of the parts of a structure, all memory contents, all kinds of mismatch; nesting by composition',
     'tests compile a few fixed nestings; correct resolution must hold for any body, any position and any wrong combination',
     ['src/core.rs'], [('imm_if .. imm_endcase, imm_do .. imm_plus_loop, compile_leave, semicolon', 'src/core.rs')],
     technique='Kani contracts per structure on the compile-time words of the real crate, discharged by minisat/z3; random programs as bounded stand-in for composition',
     note='All code positions in a 64-byte data space; ENDCASE with one clause (its loop over clauses is covered by the bounded random programs); compile_leave bounded to control stacks of depth four.')
prop('C09', 'Compiled code runs token by token; calls return where they were made',
     'Each step executes exactly the token stored at the instruction pointer, once, and stops exactly when the instruction pointer is outside the data space; a token that is no word raises an error and runs nothing. Calling a definition and leaving it with EXIT continues after the call with the return stack as before. Branches, literals and strings compiled into code consume exactly the operands compiled with them: what compiling a literal or branch appends is what running it pushes or follows, for every value and position.',
     ['inputs', 'histories'], 'all tokens, positions, memory contents, stack depths and machine states',
     'tests run a few short definitions at fixed addresses; they cannot cover every token, address and machine state nor nesting depth',
     ['src/core.rs'], [('run, forth, execute_word, nest, exit, branch, zero_branch, lit, flit, p_s_quote, compile_*', 'src/core.rs')],
     technique='Kani contracts per word on the real crate, discharged by cadical/z3',
     note='All inputs; the loop of run is unrolled for three tokens from an arbitrary state (it has no state of its own), labelled bounded. A 64-byte data space stands for all.')
prop('C14', 'Tasks are switched fairly and never disturb each other',
     'PAUSE gives control to the next awake task in cyclic order, so within as many pauses as there are tasks every awake task runs and no sleeping task ever does. ACTIVATE, SUSPEND and RESUME change exactly the task named: an activated task starts after ACTIVATE with a fresh return stack and input while its caller returns, and every other task keeps its whole state. A task number out of range is an error and changes no task.',
     ['schedules', 'inputs'], 'all sets of awake tasks, all current tasks, all task numbers, all task states',
     'tests do not run the multitasker; a wrong turn order or a disturbed task shows only with particular sets of awake tasks',
     ['src/core.rs'], [('pause, activate, suspend, resume, me', 'src/core.rs')],
     note='All inputs, no bound: the loop of pause is unrolled to the number of tasks (5). PAUSE with no task awake does not return (documented, excluded). The task switch itself (accessors select the current task) is the embedding\'s part.')
prop('C15', 'An error leaves a defined state and is reported exactly once',
     'Every error, whatever the machine state, empties data, float and control stacks, records its standard code and the failing word, and runs the error handler exactly once after that, or nothing if the handler is not a word. RESET restores the terminal input source, interpretation state, empty return stack and no error, and keeps the other stacks. ERROR, 0ERROR, .ERROR and HANDLER! report, clear, describe and set exactly that.',
     ['inputs', 'histories'], 'all machine states, all handlers, all errors, all invalid tokens',
     'tests raise a few errors from fresh machines; recovery must hold from every state, including errors raised with damaged stacks or without a handler',
     ['src/core.rs', 'src/exception.rs'], [('abort_with, abort, execute_word, reset, clear_stacks, error words', 'src/core.rs'), ('codes and descriptions', 'src/exception.rs')],
     note='All inputs, no bound; the description texts are evaluated as closed terms.')
prop('C10', 'Integer literals denote exactly their numeral in the base they name',
     'A text is accepted as an integer exactly if it is a quoted character, or an optional base prefix (% # $), an optional sign and at least one digit of that base, in either case of letters; the base is the prefix\'s or else the current BASE. Its value is the mathematical value modulo the cell size for any number of digits, and it is pushed once, or compiled so that running the code pushes it. Any other text pushes and compiles nothing and is reported as not a number.',
     ['inputs'], 'all texts (of any length for the digits), all values of BASE, all machine states',
     'tests read a few short numbers; the digit loop, the prefixes and signs combine into unboundedly many texts, and wrap-around needs long ones',
     ['src/parser.rs', 'src/core.rs'], [('sign, base, uint_in_base, quoted_char', 'src/parser.rs'), ('evaluate_integer', 'src/core.rs')],
     technique='Verus proof of the digit loop extracted mechanically from /repo (every length) plus Kani contracts of the loop-free parsers and evaluate_integer over that contract',
     note='Digit loop: every length and base, Verus. evaluate_integer and the loop-free parsers: texts up to 40 bytes (they look at the first two bytes and the length only), Kani with uint_in_base replaced by its contract.',
     hook='private parsers are re-exported for the contracts under cfg(rtforth_verif)')
prop('C11', 'Names find their latest visible definition; markers take definitions back',
     'A name, in either case of letters, finds the most recent definition of it that is not hidden, and an unknown name finds nothing, for every dictionary. A defining word with a name adds exactly one word, hidden while its definition is incomplete and found from then on, and disturbs no other word; without a name it is an error that defines nothing. Running a marker restores dictionary and data-space pointer exactly as they were before the marker was defined, whatever happened since.',
     ['inputs', 'histories'], 'all dictionaries built by any history of definitions and markers, all names',
     'tests define a few words in a small dictionary; hash collisions, shadowing, hidden words and nested markers need particular histories',
     ['src/core.rs', 'src/memory.rs'], [('find, Wordlist::push, define, marker, unmark', 'src/core.rs')],
     technique='Verus proof of find and Wordlist::push extracted mechanically (any chain, any history) plus Kani contracts of define, marker and unmark',
     note='find and push: every dictionary, Verus, assuming the hash ignores case (Kani, bounded to 5 bytes) and that the program does not overwrite the stored names. define is bounded to names of three characters; marker and unmark are proved for arbitrary dictionaries around them.',
     hook='private fields of Word and Wordlist are read and set under cfg(rtforth_verif)')
prop('C13', 'The text interpreter reads, looks up and obeys every token in order',
     'For every source text and position, PARSE-WORD takes the next blank-delimited word and PARSE, SKIP and the comment words everything up to their delimiter, moving the source position past exactly what was taken, without crashing for any character, delimiter or position. Each token is looked up once and then executed (immediate words, or when interpreting), compiled (when compiling), or read as an integer, else as a float, else reported as undefined; tokens are obeyed from left to right and evaluation stops at the first error. A missing name or a compile-only word used while interpreting is reported exactly once.',
     ['inputs', 'histories'], 'all texts, positions and delimiters; all outcomes of looking a token up and reading it; all machine states',
     'tests evaluate short ASCII lines; multi-byte characters, positions beyond the text and every combination of token kinds are not sampled',
     ['src/core.rs'], [('parse_word, parse, _skip, imm_paren, imm_backslash', 'src/core.rs'), ('evaluate_input, interpret_token, compile_token', 'src/core.rs'), ("tick, bracket_tick, postpone, char", 'src/core.rs')],
     technique='Verus proof of the parsing loops extracted mechanically (any text) plus Kani contracts of the token words with their callees replaced by contracts',
     note='Parsing loops: every text, Verus, with assumed contracts for char_indices, str::get and the accessors. evaluate_input is unrolled for three tokens from an arbitrary state, char and [char] take tokens of two bytes: these are labelled bounded.')
prop('C21', 'Defined words do what their defining word gave them',
     'A word made by CREATE pushes its data field, by CONSTANT or FCONSTANT the value given, and by a defining word with DOES> its data field followed by the code after DOES>, for every value and place in the data space; defining it takes exactly the data space its defining word allots. A colon definition is hidden and compiled from the name on and ended by exactly one EXIT, and RECURSE calls the definition being compiled. POSTPONE performs the compilation semantics of exactly the word named, which for an immediate word is to execute it.',
     ['inputs', 'histories'], 'all values, data-space pointers, stacks, memory contents and dictionaries around the new word',
     'tests define one or two constants and words; every value, place, redefinition and chain of defining words is not sampled',
     ['src/core.rs', 'src/float.rs'], [('colon, semicolon, create, constant, does, _does, xdoes, _postpone', 'src/core.rs'), ('fconstant, p_fconst', 'src/float.rs')],
     technique='Kani contracts per defining word and run-time action on the real crate, with define() by contract, discharged by cadical/z3',
     note='All inputs; define is replaced by its contract (C11). Dictionaries of two words around the new one; the words of random definition programs are compared with their meaning as bounded stand-in for composition.',
     hook='private fields of Word and Wordlist are read and set under cfg(rtforth_verif)')
prop('C16', 'File words act on exactly the named file and report exactly what happened',
     'Every file word applies exactly the requested operation to exactly the file its identifier or name denotes, with the access asked for, and returns the result in the documented form, whatever the operating system answers. An identifier of no open file, an unknown access method, a size or position beyond the cell, an over-long name or a range outside the data space is refused without asking the system, and changes nothing. Opening takes the first free identifier and disturbs no other file; input sources follow the same rules and are read line by line to their end.',
     ['inputs', 'histories', 'fault_sequences'], 'all 64-bit identifiers, lengths, sizes and access methods, all answers of the operating system, all tables of two entries',
     'tests open one existing file and a missing one; failing system calls, reused identifiers and out-of-range operands are not sampled',
     ['src/file_access.rs', 'src/loader.rs', 'src/core.rs'], [('file words', 'src/file_access.rs'), ('open_source, close_source, load_line', 'src/loader.rs'), ('set_source_id', 'src/core.rs')],
     technique='Kani contracts per file word on the real crate, std file functions replaced by a contract with arbitrary answers; random histories on real files as bounded stand-in for sources',
     note='All operands and answers; file tables of two entries, operands at one stack depth. Assumed: std calls do what they are documented to do. Reading of sources (open_source, load_line with a source) is bounded: random histories on real files in a scratch directory.')
prop('C20', 'Float words apply exactly their operation to exactly their operands',
     'Every floating-point arithmetic, rounding, trigonometric and conversion word replaces exactly its operands by the IEEE double result of its operation, taken in the order of its stack comment, for every value including infinities, NaN, signed zeros and subnormals. Float comparisons, F~ with a positive, zero or negative tolerance, FMIN and FMAX decide as the values compare, and F>S and S>F convert between the stacks, truncating toward zero. No operand makes a word crash, raise an error or touch anything below its operands or any other state.',
     ['inputs'], 'all pairs and triples of doubles (values of f*, f/ and f~ with the fraction bits stated), all depths, all machine states',
     'tests use one or two ordinary values per word; operand order, signed zeros, NaN, infinities, ties and tolerances are not sampled',
     ['src/float.rs'], [('arithmetic, rounding, trigonometric, comparison and conversion words', 'src/float.rs')],
     technique='Kani contracts per word on the real crate, discharged by z3/cadical; std float functions as uninterpreted functions',
     note='All inputs; the values of f*, f/ and f~ are bounded to operands with few fraction bits (the solver cannot relate two 53-bit multipliers). std functions sin .. powf, floor, round are trusted. FROUND rounds halves away from zero and F~ with tolerance zero compares numerically, as the code documents by its tests.')
prop('C18', 'Output words print exactly their text, after what was printed before',
     'EMIT appends exactly its character, TYPE and the string words exactly the text given, and .R and F.R exactly the numeral of the value in the current base or with the digits asked for, right aligned in a field that is never too narrow for it. Earlier output is kept, nothing else changes, and without an output buffer only the operands are consumed. A base that .R does not support is an error that prints nothing.',
     ['inputs', 'programs'], 'all characters, values, bases and machine states; fields, strings and numerals within the bounds stated',
     'tests print a few short strings and numbers; base, sign, width and precision combinations and text that is not ASCII are not sampled',
     ['src/output.rs'], [('emit, type, .r, f.r, s", .", .(', 'src/output.rs')],
     technique='Kani contracts per word on the real crate, discharged by cadical, formatting and decoding of std by contract; random numbers and texts as bounded stand-in for std formatting',
     note='EMIT, the missing buffer and unsupported bases: all inputs. Padding and TYPE are bounded (sizes in the evidence); the numerals, produced by std formatting, and strings in source text are compared at random with an independent numeral oracle: bounded. Very wide fields print that many blanks.')
prop('C12', 'Words other than input and output run in bounded time without system calls',
     'After startup, every word that is not an input or output word takes a bounded time and makes no system call, so the system can be used in a real-time application.',
     ['inputs', 'histories'], 'all words that do no input or output, all machine states',
     'tests do not measure time or system calls, and could do so only for the calls they make',
     ['src/core.rs'], [('all primitives', 'src/core.rs')],
     na='neither Kani nor Verus contracts can express elapsed time, allocation or system calls; termination alone is part of C01-C09')
prop('C17', 'The words defined in core.fth do what their comments say',
     'Every word defined in the Forth source file core.fth, such as variable, value, if-less conditionals, number output and the multitasker words, has the stack effect and meaning given in its comment.',
     ['inputs', 'programs'], 'all operands of all words in core.fth',
     'tests load the file and try a few words',
     ['core.fth'], [('library words', 'core.fth')],
     na='the words are Forth text interpreted at run time: no deductive verifier here accepts Forth, and to the verifiers of Rust the text is data; the primitives they are made of are proved in the other properties')
prop('C19', 'Every jump to a label goes to it, whether compiled before or after it',
     'GOTO compiles a branch to its label, and CALL the same after code that puts the address following it on the return stack, wherever the label is made: jumps compiled before LABEL are all resolved by it, jumps after it go straight there, and labels do not mix. LABEL compiles nothing, a second label of the same number and numbers out of range are rejected and compile no jump, 0LABELS forgets all, and a definition with a jump to no label is rejected.',
     ['inputs', 'programs'], 'all addresses, all compiled code, all invalid label numbers; chains of up to three unresolved jumps, up to two labels at a time',
     'tests compile a handful of fixed programs; chains of several unresolved jumps, interleaved labels and arbitrary distances need every placement',
     ['src/core.rs'], [('imm_label, imm_goto, imm_call, imm_clear_labels, semicolon', 'src/core.rs')],
     technique='Kani contracts per word sequence on the real crate, discharged by minisat',
     note='Label numbers 1 to 3 of 4 stand for all; the label sets (crate hibitset) are replaced by their contract and run for real in random programs.')
prop('C23', 'Float literals are accepted exactly if they are numerals, with their value',
     'A token is accepted as a float exactly if it is an optional sign, at least one digit, an optional point with digits, E or e, and an optional signed exponent, and all of it is used. Its value is sign times (integer plus fraction) times the power of ten in double arithmetic, pushed once, or compiled so that running the code pushes it. Every other token, and one whose digits do not fit a cell, pushes and compiles nothing and is reported.',
     ['inputs'], 'all texts (of any length for the digits), all machine states; values within the bounds stated',
     'tests read a few short floats; signs, missing parts, exponents and digits beyond a cell combine into unboundedly many texts',
     ['src/core.rs', 'src/parser.rs'], [('evaluate_float', 'src/core.rs'), ('uint, fraction, sign, ascii', 'src/parser.rs')],
     technique='Verus proof of the digit reader extracted mechanically from /repo (every length) plus Kani contracts of evaluate_float over the contracts of the digit readers, discharged by cadical',
     note='Grammar, exponent and state: texts up to 256 bytes with digit runs of any length within them by contract. The arithmetic of the value is bounded (few significant bits) and compared with std\'s decimal parser at random, since the solver cannot relate two 53-bit multipliers; fraction() is bounded to six bytes; 10^n is std powi.',
     hook='private parsers are re-exported for the contracts under cfg(rtforth_verif)')
