DV = SIM + 'The terminal is an emulator of seven terminal types; ASCII text. Screens are judged when the program has been idle for 160 ms. '
DT = 'The side by side viewer has no test: it needs a terminal and a keyboard; '

prop('C22', 'Documents with the same content show no difference',
     'Comparing two inputs which hold the same document, however each of them is written (blanks, line breaks, escapes, ways of writing a number, order of the keys unless --keep-order), shows the two documents side by side, complete, row by row, and not a single difference marker or gap, for every document, size of the terminal and sequence of keys.',
     ['inputs', 'configurations', 'histories'], 'all documents, ways of writing them, options, terminals and key sequences',
     DT + 'the unit tests compare a few pairs of tiny documents for their similarity.',
     ['src/levenshtein.cpp', 'include/levenshteinMatrice.hpp', 'src/curseSplitOutput.cpp'], [('pairing of equivalent items', 'src/levenshtein.cpp'), ('side by side rows', 'src/curseSplitOutput.cpp redraw')],
     ['contents and attributes of the terminal after every key'], DV + 'Documents up to 120 values.')

prop('C23', 'What is shown as equal is equal, and what differs is marked',
     'In the side by side viewer, items shown without a marker on the same row have the same key and text in both documents; documents that differ never look the same; and when a single value was changed or added among values that have nothing in common with it, that value alone is marked as changed or new, with a gap in front of a new one in the other window.',
     ['inputs', 'configurations'], 'all pairs of documents: edited copies, one change at any place, items added, removed, moved or of another type',
     DT + 'a wrong marker needs a particular pair of documents.',
     ['src/levenshtein.cpp', 'include/levenshteinMatrice.hpp', 'src/curseSplitOutput.cpp', 'src/jsonPrimitive.cpp'], [('similarity of two items', 'src/levenshtein.cpp'), ('markers', 'src/curseSplitOutput.cpp redraw/writeDiffLine')],
     ['contents and attributes of the terminal'], DV + 'Which of several possible alignments is chosen is not judged, nor is its size.')

prop('C24', 'Side by side, both documents stay right through all moves, folds and searches',
     'In the side by side viewer each window shows a part of its document, complete and in order, whatever moves, folds, searches, changes of window and of the size of the terminal were made. Rows which belong together are on the same row; the selected item of the active window is on the screen and its counterpart is selected in the other one; folding and unfolding apply to both; search finds the matching items of both documents.',
     ['histories', 'inputs', 'schedules'], 'all sequences of keys and changes of size over pairs of documents',
     DT + 'two windows, their selections and their folded items are a history.',
     ['src/curseSplitOutput.cpp', 'src/curseOutput.cpp', 'src/levenshtein.cpp'], [('rows of two windows', 'src/curseSplitOutput.cpp redraw/writeContent'), ('moves', 'src/curseSplitOutput.cpp selectUp/selectDown/nextWindow')],
     ['screens after every key'], DV + 'Windows may be scrolled independently; runs in which a selection cannot be told any more are given up (counted).',
     [('workingWin', 'active window', 'include/curseSplitOutput.hh'), ('subWindows', 'folds, selection and scrolling of each window', 'include/curseSplitOutput.hh')])

prop('C25', 'Comparing always ends, on any pair of inputs and any terminal',
     'The side by side viewer starts for every pair of valid inputs however different or large, draws on terminals of any size, and on q in both windows, ^C, SIGINT or SIGTERM, at any point (also while comparing), ends within three seconds and gives the terminal back. No pair of inputs, keys, sizes or signals make it crash or hang, and malformed inputs are refused.',
     ['inputs', 'crash_points', 'schedules', 'fault_sequences'], 'pairs of documents (lists around the limits of the counters, empty containers, unrelated), keys, sizes from 1x1, signals at every code edge, slow terminals',
     DT + 'neither are degenerate pairs and sizes.',
     ['src/levenshtein.cpp', 'include/levenshteinMatrice.hpp', 'src/curseSplitOutput.cpp', 'src/main.cpp'], [('matrix of distances', 'include/levenshteinMatrice.hpp'), ('windows', 'src/curseSplitOutput.cpp init/destroyAllSubWin')],
     ['end of the program', 'state of the terminal'], SIM + 'The comparison costs the product of the sizes; lists up to 260 items.')

prop('C26', 'What the program does depends on its input only',
     'The same inputs, options, keys and answers of the system give the same output, diagnostics, screens, files and exit status, whatever the addresses of objects and the contents of fresh memory are: no result depends on uninitialised data, on the order of addresses, or on the reuse of freed memory.',
     ['inputs', 'configurations', 'histories'], 'scenarios of all other properties, each under three layouts and initial contents of the memory',
     'A test runs under one layout of the memory, which is nearly always zeroed and fresh.',
     ['src/curseOutput.cpp', 'src/params.cpp', 'src/levenshtein.cpp', 'src/streamConsumer.cpp', 'src/curseSplitOutput.cpp'], [('tables keyed by addresses', 'include/curseOutput.hh collapsed, include/levenshteinMatrice.hpp equivalences'), ('plain fields of structures', 'src/params.cpp, src/curseSimpleOutput.cpp')],
     ['stdout', 'stderr', 'screens', 'files', 'exit'], SIM + 'Heap addresses in increasing, decreasing, random or reused order, five fill patterns; the stack is filled likewise.')

prop('C27', 'No input makes the program crash, hang or stay silent',
     'Arbitrary bytes as input (binary, cut, corrupted, nested without end, with endless strings, numbers or keys), from any source, redirected, in the viewer or side by side: the program reads no memory that is not its own, ends by itself when redirected and when told to in the viewers, gives the terminal back, and either prints something or says why not.',
     ['inputs', 'configurations', 'schedules'], 'arbitrary byte sequences up to some 100 kB and nesting up to 60000, options, keys, sizes, searches',
     'The tests hold a dozen malformed documents; ' + 'arbitrary ones are out of reach of examples.',
     ['src/streamConsumer.cpp', 'src/jsonException.cpp', 'src/jsonElement.cpp', 'src/searchPattern.cpp', 'src/curseOutput.cpp'], [('reader', 'src/streamConsumer.cpp'), ('limit of the nesting', 'include/config.h MAX_DEPTH')],
     ['end of the program', 'stdout', 'stderr', 'state of the terminal'], SIM + 'std::regex on texts longer than some 20 kB (stack of libstdc++) and patterns which need exponential time are outside.')
