VIEW = SIM + 'The terminal is an emulator of seven terminal types; narrow ncurses, so the domain is ASCII text. Screens are judged when the program has been idle for 160 ms. '
VT = 'The viewer has no test: it needs a terminal, a keyboard and a clock; '

prop('C14', 'The viewer shows exactly the document',
     'What the viewer shows is a window of the document: every value and key with its text as in the document (escapes resolved, control characters as escapes), indented by its level, on as many rows as it needs, with the name of the input on top, the colours of its type and the selected item emphasised. Nothing of the document that lies in the window is missing, repeated, cut or out of place, and nothing else is shown.',
     ['inputs', 'configurations', 'histories'], 'all documents, terminal types and sizes, options and key histories',
     VT + 'and a screen is only right or wrong as a whole.',
     ['src/curseSimpleOutput.cpp', 'src/curseOutput.cpp', 'src/jsonPrimitive.cpp', 'src/outputFlag.cpp'], [('drawing', 'src/curseSimpleOutput.cpp redraw/write'), ('width of a text', 'src/jsonElement.cpp lazystrlen')],
     ['contents and attributes of the terminal after every key'], VIEW + 'Documents up to 150 values.',
     [('scrollTop', 'first line shown', 'include/curseSimpleOutput.hh'), ('selection', 'selected item', 'include/curseSimpleOutput.hh')])

prop('C15', 'Moving reaches every item, in order, and never loses the selection',
     'From any reachable state, down and up move the selection to the next or previous shown item, page down and page up to the next or previous sibling (or the closest one further out, the parent), and stop at the ends; right enters a container and left leaves it. After every key the selected item is on the screen and emphasised, and repeating down eventually reaches every shown item.',
     ['histories', 'inputs'], 'all key sequences over all documents and terminal sizes',
     VT + 'wrong moves show after particular sequences on particular documents and sizes.',
     ['src/curseSimpleOutput.cpp', 'src/curseOutput.cpp'], [('moves', 'src/curseSimpleOutput.cpp selectUp/selectDown/selectPUp/selectPDown'), ('key dispatch', 'src/curseOutput.cpp evalKey')],
     ['emphasised item after every key'], VIEW + 'When the next item is below the screen, down may scroll before it moves, but has to scroll.')

prop('C16', 'Folding hides exactly the content of a container, and nothing is lost',
     'Left on an open container folds it: its content is hidden behind one marker and everything else stays as it was. Right unfolds exactly that container, containers folded inside of it stay folded; folding keys on other items move the selection only.',
     ['histories', 'inputs'], 'all sequences of folding, unfolding and moves over all documents and sizes',
     VT + 'the set of folded containers is a history.',
     ['src/curseSimpleOutput.cpp', 'src/curseOutput.cpp'], [('folded set', 'src/curseSimpleOutput.cpp expandSelection/collapseSelection, include/curseOutput.hh collapsed')], ['screen after every key'], VIEW,
     [('collapsed', 'folded containers', 'include/curseOutput.hh')])

prop('C17', 'Search finds exactly the matching items and visits them in order',
     'After a search the highlighted items are exactly those whose key or text matches the pattern with its flags (i, f, e, b/n/s/o) wherever they are, folded or not; the selection goes to the first of them after the selected one, unfolding what hides it, and n goes to the next, wrapping at the end with a message. Without match a message says so and nothing moves; giving up leaves everything as it was, and invalid patterns match nothing.',
     ['inputs', 'histories'], 'all patterns and flags, editing of the prompt, moves and folds between searches, all documents',
     VT + 'matching is tested by nothing, and neither are its cooperation with folding and scrolling.',
     ['src/searchPattern.cpp', 'src/curseSimpleOutput.cpp', 'src/curseOutput.cpp'], [('pattern', 'src/searchPattern.cpp'), ('results', 'src/curseSimpleOutput.cpp search/jumpToNextSearch'), ('prompt', 'src/curseOutput.cpp inputSearch')],
     ['screen after every key'], VIEW + 'The w flag and texts longer than 600 characters are outside.', [('search_result', 'matching items in document order', 'include/curseSimpleOutput.hh')])

prop('C18', 'The screen follows the size of the terminal at any moment',
     'Whenever the terminal changes its size, at any point of the execution and however often, the viewer ends up showing a right screen for the last size, with the same selection, folded containers and search results. No size, however small, and no moment of the change make it crash, hang or draw wrongly.',
     ['schedules', 'histories', 'inputs'], 'changes of size at every code edge, several in a row, sizes from 2x2 on, with keys and drawing in progress',
     VT + 'a change of size at one precise moment cannot be produced by a test.',
     ['src/curseOutput.cpp', 'src/curseSimpleOutput.cpp', 'src/inputSequence.cpp'], [('deferred signal handling', 'src/curseOutput.cpp _resizeFnc/handleSignals/onsig')], ['screen when idle'], VIEW + 'A change of size while ncurses initialises the terminal is outside (it keeps the margins of the old size).')

prop('C19', 'Quitting works at any moment and gives the terminal back',
     'On q in the last input, on ^C and on SIGINT or SIGTERM, at any point of the execution (loading, drawing, prompt, waiting), the program ends within three seconds. When it ends, in whatever way, the terminal is back in its line mode, on the normal screen, with a visible cursor.',
     ['crash_points', 'schedules', 'fault_sequences'], 'signals and keys at every code edge, slow inputs and terminals, sequences of inputs',
     VT + 'a signal at one precise instruction cannot be produced by a test.',
     ['src/curseOutput.cpp', 'src/main.cpp', 'src/inputSequence.cpp', 'src/streamConsumer.cpp'], [('quit flag', 'src/curseOutput.cpp _resizeFnc/handleSignals'), ('shutdown', 'src/curseSimpleOutput.cpp shutdown'), ('loading', 'src/main.cpp')], ['end of the program', 'state of the terminal'], SIM)

prop('C20', 'Suspending and continuing changes nothing',
     'When the program is stopped from the keyboard or by SIGTSTP, the terminal is usable as before it was started; when it continues, even on a terminal of another size or whose content was overwritten, the viewer shows the right screen again with the same selection, folded containers and search results.',
     ['schedules', 'histories'], 'stops and continuations at every code edge, with the terminal used and resized by others in between',
     VT + 'stopping needs a terminal and job control.',
     ['src/curseOutput.cpp', 'src/curseSimpleOutput.cpp'], [('SIGCONT', 'src/curseOutput.cpp onsig')], ['terminal while stopped', 'screen when idle'], VIEW + 'A ^Z which arrives while ncurses draws is lost by ncurses; keys typed before ^Z and not read yet are thrown away by the terminal.')

prop('C21', 'Fast or slow typing gives the same result',
     'A sequence of keys has the same effect whether it is typed slowly, in bursts, byte by byte over a slow line, or ahead while the input is still being loaded, and whatever the speed of the terminal. No key is lost, repeated or reordered.',
     ['schedules', 'inputs'], 'all key sequences and all their timings, deliveries of the input and speeds of the terminal',
     VT + 'timing is not under the control of a test.',
     ['src/inputSequence.cpp', 'src/curseOutput.cpp', 'src/main.cpp'], [('key reader', 'src/inputSequence.cpp'), ('input loop', 'src/curseOutput.cpp readInput')], ['final screen and end of two executions'], VIEW)

prop('C28', 'Inputs are shown one after the other and bad ones are reported',
     'With several inputs the viewer shows each one, in order, and q goes to the next; leaving the last one ends the program. An input that cannot be read or parsed ends the sequence with a diagnostic naming it, tolerated errors are reported, and if the terminal cannot be used the program says so and fails; nothing is reported otherwise.',
     ['inputs', 'fault_sequences', 'configurations'], 'sequences of up to four inputs from all sources, each valid, cut, malformed or tolerated, usable and unusable terminals',
     VT + 'neither is the sequence of inputs.',
     ['src/main.cpp', 'src/curseOutput.cpp', 'include/fifoMap.hpp'], [('loop over the inputs', 'src/main.cpp runCurses')], ['screens', 'stderr', 'exit'], VIEW)
