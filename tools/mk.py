#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)), note))


TESTS = 'The unit tests read a few whole files through an in-memory or file stream in one go and compare single elements; '
SIM = 'Seeded search over simulated executions of the real program on a simulated kernel; evidence, not proof. Trusts sim/*.cc (kernel, terminal, heap stand-ins) and the Python reference model. '

prop('C01', 'Redirected output is the same JSON value however the bytes arrive',
     'For every valid JSON document, from a file, the standard input or the command line, the redirected output is one JSON document with exactly the same value: same strings (whatever escapes were used), same numbers (64-bit integers exactly, others as the same double), same literals, same structure. The result does not depend on how the input bytes are cut, delayed or buffered, nor on how the output is accepted, and nothing is written on the error output.',
     ['inputs', 'schedules'], 'all valid documents, option sets, sources, read/write chunkings and delays, heap layouts',
     TESTS + 'no test reads from a pipe that delivers pieces, none prints a document and reads it back.',
     ['src/streamConsumer.cpp', 'src/simpleOutput.cpp', 'src/jsonPrimitive.cpp', 'src/main.cpp'],
     [('character-wise reader over an istream', 'src/streamConsumer.cpp consumeToken/consumeString/consumeNumber'), ('printer', 'src/simpleOutput.cpp'), ('number formatting', 'src/jsonPrimitive.cpp')],
     ['bytes written on descriptor 1', 'exit status', 'stderr'], SIM + 'Documents up to a few tens of kB, nesting up to 7.')

prop('C02', 'Object entries come out in key order, or in document order with --keep-order',
     'Without --keep-order the entries of every object are printed in increasing byte order of their keys; with --keep-order they are printed in the order of the document. Array items always keep their order, and no entry is lost or repeated.',
     ['inputs', 'schedules', 'configurations'], 'all valid documents without duplicated keys, with and without --keep-order, every delivery of the bytes',
     TESTS + 'they check the order of two or three fixed objects.',
     ['src/jsonObject.cpp', 'include/jsonObject.hh', 'src/streamConsumer.cpp', 'src/params.cpp'], [('sorted / plain object', 'src/jsonObject.cpp push'), ('choice of the object kind', 'src/streamConsumer.cpp readObject')],
     ['bytes written on descriptor 1'], SIM)

prop('C03', 'Redirected output has the documented layout',
     'Redirected output is prettified: four spaces per level, one entry, item or bracket per line, separators at the beginning of the line, every document ended by a line feed. With --compress, also towards a terminal, it has no blank or line feed outside of strings, except one line feed between the documents of several inputs.',
     ['inputs', 'configurations', 'schedules'], 'all valid documents and sequences of them, pretty or compressed, every acceptance schedule of the output',
     'No test looks at the printed text.', ['src/simpleOutput.cpp', 'src/main.cpp', 'include/config.h'], [('indentation and separators', 'src/simpleOutput.cpp getIndent/writeContainer/writeObjectEntry'), ('document sequence', 'src/main.cpp runStdout')],
     ['bytes written on descriptor 1'], SIM)

prop('C04', 'An incomplete input yields a diagnostic and no document',
     'If an input ends, or reading it fails (I/O error, directory), before its value is complete, nothing at all is printed for that input, a diagnostic naming the input goes to the error output, and the program ends by itself. The inputs before it are printed completely.',
     ['inputs', 'crash_points', 'fault_sequences'], 'every byte at which a document can be cut or its device can fail, all sources, all deliveries',
     'Tests only read complete files; a file cut at every byte or a failing device is out of their reach.',
     ['src/streamConsumer.cpp', 'src/main.cpp'], [('end of stream handling in every token reader', 'src/streamConsumer.cpp'), ('check of the stream after reading', 'src/main.cpp readFile')],
     ['stdout', 'stderr', 'exit'], SIM + 'When the failure comes after the last byte of a container either outcome is allowed.')

prop('C05', 'Malformed input is rejected with the place of the error',
     'A document that breaks the JSON grammar inside its value (missing, extra, misplaced or foreign tokens, malformed literals, numbers or hexadecimal escapes, numbers too large for a double, duplicated keys) is never printed, neither wholly nor partly. The diagnostic names the input, the line (LF, CRLF and CR each count as one line break) and column of the offending token and shows the text leading to it with a caret under its end.',
     ['inputs', 'schedules'], 'all single-token corruptions of generated documents, at any line and column, under any delivery',
     TESTS + 'a handful of malformed inputs is checked for throwing, one for line and column.',
     ['src/streamConsumer.cpp', 'src/linearHistory.cpp', 'include/wrappedBuffer.hpp', 'src/jsonException.cpp', 'src/main.cpp'], [('history of the current line', 'src/linearHistory.cpp'), ('diagnostic', 'src/main.cpp displayException')],
     ['stdout', 'stderr'], SIM + 'Outside of the domain: text after the root value, leading zeros and other number forms beyond JSON, blanks beyond JSON, which the program tolerates.',
     [('line', 'lines seen so far', 'include/linearHistory.hh'), ('history', 'the last characters of the current line', 'include/linearHistory.hh')])

prop('C06', '-W continues where the default is strict, and says so',
     'Without -W a document with a duplicated key, a literal in another letter case or an unknown escape is rejected with the place of the first such thing. With -W it is printed with the last value of every duplicated key, the literals in lower case and the escapes as written, and one located warning per tolerated thing, naming its input, goes to the error output, in every mode and with several inputs too; a document without any is printed exactly as without -W.',
     ['inputs', 'configurations', 'schedules'], 'documents with any number of such deviations, with and without -W, every delivery',
     TESTS + 'strictness is tested on single keys.', ['src/streamConsumer.cpp', 'src/warning.cpp', 'src/main.cpp', 'src/jsonObject.cpp'], [('strict switch', 'src/streamConsumer.cpp readObject/consumeBool/consumeNull/consumeEscapedChar'), ('warnings', 'src/main.cpp runStdout')],
     ['stdout', 'stderr'], SIM)

prop('C07', 'Several inputs are printed in order and stop at the first that fails',
     'With several inputs the output is the outputs of each of them alone, in the order of the command line. The first input that cannot be read or parsed is named in a diagnostic, and nothing of it nor of the inputs after it is printed.',
     ['inputs', 'fault_sequences', 'schedules'], 'sequences of two to six inputs, any of them cut, malformed or failing, every delivery',
     'No test runs the program on several inputs.', ['src/main.cpp', 'include/fifoMap.hpp', 'src/params.cpp'], [('input sequence', 'include/fifoMap.hpp'), ('loop over the inputs', 'src/main.cpp runStdout')],
     ['stdout', 'stderr'], SIM)

prop('C08', 'A failed write of the output is never silent',
     'If the standard output refuses data at any byte (full disk, I/O error, closed pipe), the program ends by itself, what was written is a prefix of the complete output, and it ends with a non-zero status and a diagnostic, or by SIGPIPE. If data is only accepted slowly or in pieces the output is complete.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every byte of the output at which the device can fail, for good or once, for every document sequence',
     'Tests never write to a failing device.', ['src/main.cpp', 'src/simpleOutput.cpp'], [('flush and check after each document', 'src/main.cpp runStdout')], ['stdout', 'stderr', 'exit status'], SIM)

prop('C09', 'The command line is honoured or refused as a whole',
     'Unknown options or option values and files that cannot be opened or are given twice are named on the error output together with the usage, with a failure status and without printing any document. -h/--help and -v/--version print their text and do nothing else; everything after -- is one literal input; otherwise options may come in any order and place, and exactly the given inputs are processed.',
     ['inputs', 'configurations', 'fault_sequences'], 'all command lines of up to six arguments over the documented options, good and bad files, and open failures',
     'Tests never build a command line.', ['src/params.cpp', 'src/main.cpp'], [('argument loop', 'src/params.cpp read')], ['stdout', 'stderr', 'exit status', 'files opened'], SIM + 'The exit status of --diff with a wrong number of files is not specified.')

prop('C10', '--diff-cmd gives the command one complete file per input',
     'With --diff-cmd the command is started exactly once with its arguments as given, every {} replaced by one file name per input in input order. Each of these files is distinct and holds, from the start of the command until its end, exactly what the redirected output shows for that input with the same options.',
     ['inputs', 'schedules', 'configurations'], 'all sequences of valid inputs, command lines with any number of {}, deliveries, write chunkings and command durations',
     'The external diff has no test.', ['src/main.cpp', 'src/diffCmd.cpp', 'src/simpleOutput.cpp'], [('temporary files', 'src/main.cpp getOutputFile'), ('argument expansion', 'src/diffCmd.cpp computeArgv')], ['execvp arguments', 'files read by the command'], SIM + 'The command is an actor which reads the files it is given when it starts and again before it ends.')

prop('C11', '--diff-cmd leaves no file behind and touches nobody else\'s files',
     'However a --diff-cmd run ends (the command succeeds, fails, is killed or cannot be started, an input is bad, a file cannot be created, written or closed), all temporary files the program created are removed, not before the command has ended. Files that were there before, or that others create meanwhile, are neither used, changed nor removed, and do not prevent the command from running.',
     ['fault_sequences', 'histories', 'inputs'], 'every failing step, every way the command ends, foreign files under any name the program would use, before or during the run',
     'The external diff has no test.', ['src/main.cpp'], [('exclusive creation', 'src/main.cpp getOutputFile'), ('removal', 'src/main.cpp runExternalDiff')], ['file system after the run', 'files seen by the command'], SIM + 'The program being killed, and removal failing, are outside.')

prop('C12', '--diff-cmd runs only on complete inputs, waits for the command, and always ends',
     'The command is never started when any input could not be read, parsed or written out completely; a diagnostic then tells why. Once started it is waited for, whatever happens to it, and the program ends after it and never before; a command that cannot be started is reported and does not run the program a second time.',
     ['fault_sequences', 'schedules'], 'failures of every system call involved, deaths and durations of the command, signals while waiting',
     'The external diff has no test.', ['src/main.cpp', 'src/diffCmd.cpp'], [('checks before fork', 'src/main.cpp doRunExternalDiff'), ('waitpid loop', 'src/main.cpp doRunExternalDiff')], ['fork/exec/wait', 'stderr', 'end of the program'], SIM)

prop('C13', 'Concurrent runs do not disturb each other',
     'Several --diff-cmd runs at the same time, even on inputs of the same names, behave as if each were alone: every command reads the files of its own run and nothing is left behind, for every interleaving.',
     ['schedules', 'histories'], 'two to twenty-four instances, preempted at any system calls, any command durations',
     'Tests run one thing at a time.', ['src/main.cpp', 'src/diffCmd.cpp'], [('exclusive creation of temporary files', 'src/main.cpp getOutputFile')], ['files seen by each command', 'file system after the runs'], SIM + 'Instances are real processes in lockstep; the simulator decides at every system call which one goes on.')

for f in sorted(os.listdir(V + '/tools')):
    if f.startswith('mk_') and f.endswith('.py'):
        exec(open(V + '/tools/' + f).read())

NA_ = [dict(property=a, reason=b) for a, b in NA]
with open(V + '/properties.jsonl', 'w') as f:
    for p, n in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
naids = {a for a, b in NA}
m = dict(version=1, setup_cmd='python3 check.py build',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'], evidence_file='evidence/%s.json' % p['id'],
                      technique='deterministic simulation with fault injection (seeded search, whole program on a simulated kernel)', level='exploration', level_note=n) for p, n in P if p['id'] not in naids],
         not_applicable=NA_,
         notes='No hooks in /repo: the simulator replaces the system calls and C library entry points the program uses when linking (sim/). /repo carries fix: commits only; known-findings.json lists them.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
