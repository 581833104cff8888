"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to review and diff)."""
import json, os
P = []
W = 'src/libwinpty/winpty.cc'
A = 'src/agent/'
NOTEST = 'The stable tests cover StringBuilder, the UTF encoder, and one trivial echo session; '


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None)))


p('L01', 'RPC replies belong to their own request, across threads and after failures',
  'Calls made on one session from several threads reach the agent one at a time, each as one complete request, and each call that succeeds returns exactly what the agent answered to that very request. Once the communication of any call has failed (lost connection, agent death, timeout, malformed reply, handle transfer failure), the control channel is closed and no later call on the session can succeed or consume a leftover reply; it fails with an error instead.',
  ['schedules', 'histories', 'fault_sequences'], 'for all interleavings of calls from several threads, all agent reply contents and timings, and all failures of a pipe operation',
  NOTEST + 'no test makes concurrent calls, delays or corrupts a reply, or makes a call after a failed one.',
  [W], [('session mutex held for the whole request/reply exchange', W + ': winpty_spawn, winpty_set_size, winpty_get_console_process_list'),
        ('the control pipe is closed unless the operation is marked successful', W + ': RpcOperation'), ('readAll/readPacket framing', W)],
  ['public API results', 'bytes on the control pipe'], [('controlPipe', 'control channel; closed after a failure', 'src/libwinpty/WinptyInternal.h')])
p('L02', 'The error contract of every API call',
  'A call returns success exactly when the error output is NULL, and every failure yields an error object whose code names the cause (agent creation failure, agent died, agent timeout, lost connection, process creation failure, otherwise unspecified) whether or not the caller asked for it. Failed spawns leave the handle outputs NULL and report the CreateProcess error code only when the process creation itself failed; a failed process creation leaves the session fully usable.',
  ['inputs', 'histories', 'fault_sequences'], 'for all calls, optional outputs present or absent, and all agent answers and OS failures',
  NOTEST + 'no error path is tested at all.',
  [W, 'src/shared/WinptyException.cc', 'src/libwinpty/LibWinptyException.h'],
  [('API_TRY/API_CATCH and translateException', W), ('handlePendingIo / handleReadWriteErrors classify failures', W), ('CreateProcessFailed reply keeps the session', W + ': winpty_spawn')],
  ['public API results and error objects'])
p('L03', 'No pipe operation outlives the API call that started it',
  'When an API call returns or fails, whatever the reason, none of the overlapped operations it started on the control channel is still pending, so the OS never writes into memory or signals an event the call has given up. The same holds when a session is freed.',
  ['schedules', 'fault_sequences'], 'for all points at which a timeout, agent death, wait failure or disconnect interrupts a pending connect, read or write, including slow cancellation',
  NOTEST + 'they never interrupt a pending operation, and a late completion would corrupt memory silently.',
  [W], [('PendingIo cancels and waits in its destructor', W)], ['overlapped operations at the Win32 boundary'])
p('L04', 'Handles are owned exactly once at every failure point',
  'Opening, using and freeing sessions leaves no OS handle open in the caller beyond those documented as its own, and no handle is closed twice, used after being closed, or closed though borrowed, wherever an OS call fails on the way. Handles of a spawned process reach the caller exactly for the outputs requested, are moved out of the agent, and are all released when the spawn fails.',
  ['fault_sequences', 'histories'], 'for every single OS-call failure during open, spawn and free (enumerated exhaustively), and all combinations of requested outputs',
  NOTEST + 'leaks and double closes have no visible effect in them, and no OS call is ever made to fail.',
  [W, 'src/shared/OwnedHandle.cc', 'src/shared/OwnedHandle.h', 'src/shared/BackgroundDesktop.cc', A + 'Agent.cc'],
  [('OwnedHandle', 'src/shared/OwnedHandle.h'), ('stealHandle (DUPLICATE_CLOSE_SOURCE)', W), ('duplicateHandle in the agent', A + 'Agent.cc: Agent::handleStartProcessPacket')],
  ['handle table of the calling process', 'handles returned by winpty_spawn'])
p('L05', 'The console process list never overruns the caller and never costs the session',
  'The process-list call writes at most as many entries as the caller provided room for, and only entries the agent reported. It returns the true number of attached processes even when that does not fit, in which case the caller can retry with a bigger array on the same, still usable session.',
  ['inputs', 'histories'], 'for all numbers of attached processes, all capacities (smaller, equal, larger), and processes attaching and leaving between calls',
  NOTEST + 'no test calls it with a list that does not fit.',
  [W, A + 'Agent.cc'], [('capacity check and reply decoding', W + ': winpty_get_console_process_list'), ('retry loop around GetConsoleProcessList', A + 'Agent.cc: Agent::handleGetConsoleProcessListPacket')],
  ['return value, array contents, later calls'])
p('L06', 'Only the agent the library started is ever talked to',
  'Each session uses fresh pipe names, unpredictable wherever the system can supply random numbers; each pipe is created as the first and only instance, refuses remote clients, is not inheritable, and grants access only to its owner, SYSTEM and Administrators, and the connecting side refuses to be impersonated beyond identification. A client of the control channel whose process is not the started agent (where the OS can tell) makes the open fail before any of its data is believed, and a failure to establish the identity is a failure, not a pass.',
  ['histories', 'configurations', 'fault_sequences'], 'for all impostor connections, pre-existing pipes of the same name, OS versions, and failures of the identity and security calls',
  NOTEST + 'no test plays an impostor or inspects the pipes.',
  [W, A + 'NamedPipe.cc', A + 'Agent.cc', 'src/shared/WindowsSecurity.cc', 'src/shared/GenRandom.cc'],
  [('verifyPipeClientPid', W), ('createControlPipe', W), ('createPipeSecurityDescriptorOwnerFullControl', 'src/shared/WindowsSecurity.cc'), ('uniqueName', 'src/shared/GenRandom.cc'), ('openServerPipe', A + 'NamedPipe.cc'), ('connectToServer', A + 'NamedPipe.cc')],
  ['named pipe creation and open calls'])
p('L07', 'Session and spawn parameters are delivered exactly',
  'The agent is started with exactly the flags, mouse mode and size configured, and a spawned process is created with exactly the program, command line, working directory and environment block given (absent ones absent, arbitrary UTF-16 content and embedded separators preserved), in the agent\'s console, regardless of what the caller does to its strings afterwards. Pipe names returned to the caller are those the agent announced, with the error pipe exactly when requested.',
  ['inputs', 'configurations'], 'for all flag combinations, sizes and parameter strings (empty, absent, long, surrogates, multi-entry environments)',
  NOTEST + 'the single session uses fixed parameters.',
  [W, A + 'Agent.cc', A + 'main.cc', 'src/shared/Buffer.cc', 'src/shared/StringUtil.cc'],
  [('wstringFromEnvBlock', W), ('packet encoding', 'src/shared/Buffer.cc'), ('handleStartProcessPacket', A + 'Agent.cc'), ('argument parsing', A + 'main.cc')],
  ['CreateProcess calls of the library and of the agent'])
p('L08', 'Window station restored; children run on the original desktop',
  'Whether opening succeeds or fails at any step, the calling process ends up on the window station it started on, and every station and desktop handle it created is released. When the agent runs on a background desktop, child processes are placed on the caller\'s original desktop; otherwise no desktop is forced on them.',
  ['fault_sequences', 'configurations'], 'for all OS versions and desktop settings, and a failure of each OS call on the way',
  NOTEST + 'background desktops are only used on old systems, and a leaked station switch would show only in later GUI use.',
  ['src/shared/BackgroundDesktop.cc', W, A + 'AgentCreateDesktop.cc'],
  [('BackgroundDesktop destructor/dispose', 'src/shared/BackgroundDesktop.cc'), ('setupBackgroundDesktop', W), ('desktop helper agent', A + 'AgentCreateDesktop.cc')],
  ['window-station and desktop calls', 'CreateProcess desktop argument'])
p('L09', 'No call waits past the configured timeout on an unresponsive or dead agent',
  'A call that is waiting for the agent returns with the agent-died error as soon as the agent process has ended, with lost-connection when the channel is closed, and with the timeout error once the agent has made no progress for the configured time, never earlier and, unless the timeout is infinite, never later. Replies that are already complete are still delivered.',
  ['schedules', 'crash_points', 'configurations'], 'for all points of the exchange at which the agent stalls, dies or disconnects, and all timeouts including infinite',
  NOTEST + 'the agent never stalls or dies in them.',
  [W], [('WaitForMultipleObjects on I/O event and agent process with the configured timeout', W + ': handlePendingIo'), ('winpty_config_set_agent_timeout', W)],
  ['return time and error code of calls'])

p('C01', 'Control requests are answered once each, in order, however they are cut up',
  'The agent answers every complete control request with exactly one complete reply, in request order and with the request\'s own result, no matter how the request bytes are split into or merged across transfers and how slowly replies are consumed. It acts on a request only once it is completely received, and a malformed request never yields a reply that could be taken for success.',
  ['inputs', 'schedules'], 'for all request sequences, all fragmentations of their bytes, and all reply-reading delays',
  NOTEST + 'requests there always arrive whole and alone.',
  [A + 'Agent.cc', 'src/shared/Buffer.cc', A + 'NamedPipe.cc'],
  [('pollControlPipe / handlePacket / writePacket', A + 'Agent.cc'), ('ReadBuffer decoding', 'src/shared/Buffer.cc')], ['bytes on the control pipe', 'CreateProcess, console calls'])
p('C02', 'Losing the controlling client always ends the session',
  'If the control channel closes at any moment (idle, mid-request, with output queued and unread, after the children have exited), the agent asks its console to close, which ends the attached processes and itself, and does so exactly once. It never lingers and never serves another client.',
  ['crash_points', 'histories'], 'for all moments at which the client disappears and all states of the data pipes',
  NOTEST + 'a leaked background agent goes unnoticed there.',
  [A + 'Agent.cc', A + 'EventLoop.cc', A + 'NamedPipe.cc'],
  [('control pipe closed => WM_CLOSE to the console', A + 'Agent.cc: Agent::onPipeIo / pollControlPipe'), ('m_closingOutputPipes, shutdown', A + 'Agent.cc')], ['window messages', 'process exit'])
p('P01', 'Data pipes deliver every byte once and in order, whatever the reader does',
  'Bytes the agent queues on an output pipe reach the client complete, once and in order for every reading speed, pause and partial transfer, and input bytes are consumed complete, once and in order. A slow, stalled or disconnected client neither blocks the agent\'s event loop nor corrupts another pipe, and no transfer buffer is touched after its pipe is closed.',
  ['schedules', 'histories', 'fault_sequences'], 'for all reader/writer schedules, transfer sizes, completion orders and disconnects',
  NOTEST + 'the client there always keeps up.',
  [A + 'NamedPipe.cc', A + 'EventLoop.cc'], [('InputWorker/OutputWorker', A + 'NamedPipe.cc'), ('servicePipe, closePipe', A + 'NamedPipe.cc'), ('wait handles and polling', A + 'EventLoop.cc')],
  ['bytes on the data pipes', 'overlapped operations'])
p('S01', 'Auto-shutdown delivers everything, then ends output, only when asked',
  'With the auto-shutdown flag, once the spawned process has exited the agent flushes its final screen contents, switches off any mouse mode it had on, and closes the output pipes; the client reads all of it before end-of-file, and output is never closed before the client connected to take it. Without the flag, or before the spawned process exits, output pipes stay open.',
  ['schedules', 'histories', 'configurations'], 'for all orders of connecting, writing, exiting and reading, with and without the flag',
  NOTEST + 'the session there neither connects late nor checks the final bytes.',
  [A + 'Agent.cc'], [('autoClosePipesForShutdown', A + 'Agent.cc'), ('scrapeBuffers final pass', A + 'Agent.cc: Agent::onPollTimeout')], ['bytes and end-of-file of the output pipes'])
p('S02', 'Exit-after-shutdown closes the console exactly when the output is gone',
  'With the exit-after-shutdown flag, after auto-shutdown has closed the output pipes the agent closes its console and exits without waiting for the controlling client, and never before all output was taken. Without the flag it keeps serving control requests until the client goes.',
  ['histories', 'configurations'], 'for all orders of child exit, reading and control activity, with and without the flag',
  NOTEST + 'the flag is never used there.', [A + 'Agent.cc'], [('WINPTY_FLAG exit handling in onPipeIo/onPollTimeout', A + 'Agent.cc')], ['process exit', 'console close message'])
p('T01', 'The terminal title follows the console title',
  'Unless output is plain, whenever the console title has changed and output is running, the client is sent a set-title sequence whose payload is the new title, exactly once per observed change and in order, with nothing sent for an unchanged title. The last title sent equals the console\'s title once the agent is idle.',
  ['histories', 'inputs', 'configurations'], 'for all sequences of title changes (empty, long, non-ASCII), timings and OS title behaviours',
  NOTEST + 'no title is ever set there.', [A + 'Agent.cc', A + 'Win32Console.cc'], [('syncConsoleTitle', A + 'Agent.cc'), ('title buffer growth', A + 'Win32Console.cc: Win32Console::title')], ['output bytes'])

p('X01', 'The terminal shows what the console window shows',
  'Whenever the agent has caught up, a terminal that has interpreted all output shows, in the rows of the console window, exactly the characters and colours (foreground, background, reverse, underline semantics, double-width pairs) of those rows, in whatever order the application wrote, overwrote, scrolled or cleared them. Cells the application never touched appear blank. (Empty rows below everything written that merely continue the background of the row above need not have been drawn in scrolling mode, and a terminal made shorter drops the rows below its cursor.)',
  ['histories', 'schedules', 'inputs'], 'for all sequences of console operations, all points at which the agent samples the console, and all colours and characters',
  NOTEST + 'they check that one line of text arrives.',
  [A + 'Scraper.cc', A + 'Terminal.cc', A + 'ConsoleLine.cc', A + 'LargeConsoleRead.cc', A + 'Win32ConsoleBuffer.cc'],
  [('directScrapeOutput / scrollingScrapeOutput', A + 'Scraper.cc'), ('sendLine, attribute encoding', A + 'Terminal.cc'), ('detectChangeAndSetLine', A + 'ConsoleLine.cc'), ('largeConsoleRead', A + 'LargeConsoleRead.cc')],
  ['output bytes interpreted as a terminal', 'console screen buffer'])
p('X02', 'Every line that scrolls away is delivered exactly once, in order',
  'While the application only adds output, each line that leaves the window is present in the terminal\'s history exactly once, complete and in order, however fast output arrives between two looks at the console and however often the buffer is repositioned. Lines are lost or repeated only when the application itself outruns the buffer or clears it.',
  ['histories', 'schedules'], 'for all output rates, line lengths, sampling points and buffer positions, across the internal re-synchronisation of the buffer',
  NOTEST + 'they produce one line.', [A + 'Scraper.cc', A + 'Terminal.cc'], [('sync marker: createSyncMarker, findSyncMarker, syncMarkerText', A + 'Scraper.cc'), ('syncConsoleContentAndSize, kSyncMarkerMargin', A + 'Scraper.cc'), ('scroll counters m_scrolledCount, m_dirtyLineCount', A + 'Scraper.cc')],
  ['output bytes interpreted as a terminal with scrollback'])
p('X03', 'The terminal cursor matches the console cursor',
  'Whenever the agent has caught up, the terminal cursor is visible exactly when the console cursor is (and on screen), and when visible it is at the console cursor\'s row and column. This holds through clears, resizes, scrolling and buffer switches.',
  ['histories', 'schedules'], 'for all sequences of cursor moves, visibility changes, clears and output',
  NOTEST + 'the cursor is never examined.', [A + 'Terminal.cc', A + 'Scraper.cc'], [('moveTerminalToLine, finishOutput, hideTerminalCursor', A + 'Terminal.cc'), ('cursor visibility sampling', A + 'Scraper.cc')], ['output bytes interpreted as a terminal'])
p('X04', 'Plain-output and colour modes are honoured',
  'In plain mode the output carries no escape sequence at all unless colour escapes were requested, and then only colour (SGR) sequences; while an application only adds output, the text is still complete and in order with lines separated by CR LF. No control character taken from the console\'s cells or title reaches the terminal. Without plain mode escapes are well formed: every sequence sent is complete and from the documented vocabulary.',
  ['configurations', 'inputs'], 'for all flag combinations, console histories, titles and mouse-mode settings',
  NOTEST + 'the plain flag is never set there.', [A + 'Terminal.cc', A + 'Agent.cc'], [('m_plainMode / m_outputColor', A + 'Terminal.cc'), ('plain checks around title, mouse and cursor output', A + 'Agent.cc')], ['output bytes'])
p('X05', 'The console is frozen only while being read or changed, never left frozen',
  'Every freeze of the console (selection) that the agent starts is ended by it, it never starts one on top of another nor ends one that is not active, and it never changes fonts or buffer sizes while one is active, nor waits with one. Once it has set up the console, it writes contents and moves the window or cursor only under a freeze, and reads contents only under one on consoles that need it (before Windows 10 version 1607). No key or character of the freeze protocol reaches the application.',
  ['schedules', 'histories', 'fault_sequences'], 'for all resize/scrape/idle interleavings, OS versions and failures of console calls in between',
  NOTEST + 'they cannot see window messages.', [A + 'Win32Console.cc', A + 'Win32Console.h', A + 'Scraper.cc', A + 'Agent.cc'], [('FreezeGuard', A + 'Win32Console.h'), ('setFrozen, isNewW10', A + 'Win32Console.cc'), ('resizeImpl, scrape passes', A + 'Scraper.cc')],
  ['window messages to the console', 'console calls'])
p('X06', 'An idle console produces no output',
  'Once the agent has caught up, no byte is written to the output pipes while the console\'s contents, cursor, colours, size and title do not change, however long that lasts. After a change, lines of the window are sent again only from the first changed (or never sent) line on.',
  ['histories', 'schedules'], 'for all console states reached and any idle duration', NOTEST + 'they stop before idling.',
  [A + 'Scraper.cc', A + 'Terminal.cc', A + 'ConsoleLine.cc', A + 'Agent.cc'], [('change detection per line', A + 'ConsoleLine.cc'), ('cursor caching', A + 'Terminal.cc')], ['output bytes over simulated time'])
p('X07', 'Resizing gives the console the requested size and tells the application',
  'After a size request is answered, the console window has exactly the requested number of columns and rows as far as the system\'s limits allow, the screen buffer is at least that large (and exactly as wide as requested), one window-buffer-size event with the final size is delivered to the application for each request before the answer, and the terminal is brought in line with the new window. A buffer without scrollback (a full-screen program\'s) gets exactly the requested rows, and one with scrollback keeps it. Sizes outside the supported range are clamped rather than rejected, and no request leaves the console in a state the next one cannot repair.',
  ['inputs', 'histories', 'configurations'], 'for all request sequences, sizes (tiny to beyond the limit), console limits and buffer states',
  NOTEST + 'no resize is made.', [A + 'Scraper.cc', A + 'Agent.cc', A + 'Win32ConsoleBuffer.cc', A + 'ConsoleInput.cc'], [('resizeImpl / resizeWindow', A + 'Scraper.cc'), ('resizeWindow and size event', A + 'Agent.cc'), ('clamping constants', A + 'Scraper.cc')],
  ['console screen buffer', 'input records', 'output bytes'])
p('X08', 'Standard error is separated exactly when requested',
  'With the separate-error flag, a spawned process gets a second screen buffer as its standard error, and what is written to it appears on the error pipe only, while ordinary output appears on the output pipe only. Without the flag there is one output pipe and the process inherits the console as usual.',
  ['histories', 'configurations'], 'for all interleavings of writes to both buffers and flag combinations', NOTEST + 'the flag is never used there.',
  [A + 'Agent.cc', A + 'Scraper.cc', A + 'Win32ConsoleBuffer.cc'], [('m_errorScraper / m_errorBuffer', A + 'Agent.cc'), ('STARTF_USESTDHANDLES', A + 'Agent.cc: Agent::handleStartProcessPacket')], ['output and error pipes', 'CreateProcess standard handles'])

p('I01', 'Input means the same however it is chunked',
  'The console input records produced for a given byte stream do not depend on how the bytes are divided into transfers, provided the pauses between them are shorter than the escape timeout. This covers keys, escape sequences, UTF-8 text and mouse reports.',
  ['inputs', 'schedules'], 'for all byte streams over the supported vocabulary and beyond, and all ways of cutting them up', NOTEST + 'input is one whole line.',
  [A + 'ConsoleInput.cc', A + 'InputMap.cc'], [('m_byteQueue and incomplete matching', A + 'ConsoleInput.cc: ConsoleInput::doWrite/scanInput'), ('lookupKey incomplete flag', A + 'InputMap.cc')], ['console input records'])
p('I02', 'No input is lost, reordered or stuck',
  'Every input byte sequence is turned into records in order: recognised sequences into their key, everything else character by character, so nothing but malformed text is dropped, and nothing is delayed except an ambiguous trailing prefix of a sequence, which is decided within about a second. The agent keeps at most one device-status query outstanding, never writes its answer to the application, and resolves a lone ESC with it.',
  ['inputs', 'schedules', 'histories'], 'for all byte streams, pauses, and terminals that answer the query late, never or unasked', NOTEST + 'escape input is never sent.',
  [A + 'ConsoleInput.cc', A + 'Agent.cc'], [('flushIncompleteEscapeCode', A + 'ConsoleInput.cc'), ('m_dsrSent, matchDsr', A + 'ConsoleInput.cc')], ['console input records', 'output bytes'])
p('I03', 'Synthesised keystrokes are balanced',
  'Every key the agent synthesises is pressed and released exactly once with matching codes, and every modifier key (shift, control, alt) it presses around it is released in reverse order, leaving no modifier held after any byte stream. The modifier state in each record is that of the modifiers pressed at that moment.',
  ['inputs'], 'for all keys, modifier combinations and prefixes (including ESC-prefixed and surrogate-pair characters)', NOTEST + 'only plain letters are typed.',
  [A + 'ConsoleInput.cc'], [('appendKeyPress / appendInputRecord', A + 'ConsoleInput.cc')], ['console input records'])
p('I04', 'Mouse reports map to mouse records; mouse mode follows the application',
  'Each well-formed mouse report (X10, UTF-less 1015, SGR 1006) becomes one mouse record with the reported position relative to the window, the right button state, wheel direction, movement and double-click flags and modifiers; malformed ones are not delivered as mouse input. Mouse reporting is enabled in the terminal exactly while mouse mode is forced, or automatic and the console wants mouse input.',
  ['inputs', 'histories', 'configurations'], 'for all reports, console input modes and mode changes over time', NOTEST + 'the mouse is never used.',
  [A + 'ConsoleInput.cc', A + 'Terminal.cc'], [('scanMouseInput', A + 'ConsoleInput.cc'), ('updateInputFlags, shouldActivateTerminalMouse', A + 'ConsoleInput.cc'), ('enableMouseMode', A + 'Terminal.cc')], ['console input records', 'output bytes'])
p('I05', 'Ctrl-C interrupts in processed mode and is a key otherwise',
  'A Ctrl-C byte raises exactly one console interrupt to the attached processes, and no key, while the console\'s input is in processed mode, and is delivered as an ordinary Ctrl-C key otherwise (as the last byte of an escape-prefixed key it is Ctrl-Alt-C in either mode); the agent itself survives it. The mode that counts is the console\'s current one.',
  ['inputs', 'histories'], 'for all positions of the byte in the stream and all mode changes', NOTEST + 'Ctrl-C is never sent.',
  [A + 'ConsoleInput.cc', A + 'main.cc', A + 'Agent.cc'], [('Ctrl-C branch of scanInput', A + 'ConsoleInput.cc'), ('SetConsoleCtrlHandler', A + 'Agent.cc')], ['console control events', 'input records'])
p('I06', 'UTF-8 input becomes the right UTF-16 characters',
  'Valid UTF-8 text reaches the application as exactly its code points, surrogate pairs for those beyond the basic plane, in order, alone or after an ESC (as Alt). Invalid or truncated encodings never produce a wrong valid character and never corrupt neighbouring valid keys once the offending sequence has been passed.',
  ['inputs'], 'for all code points and malformed encodings, mixed with keys', 'The encoder used for output is tested exhaustively, the input decoding is not.',
  [A + 'ConsoleInput.cc', A + 'UnicodeEncoding.h'], [('appendUtf8Char', A + 'ConsoleInput.cc'), ('utf8 decode', A + 'UnicodeEncoding.h')], ['console input records'])
p('I07', 'The key vocabulary maps to the right keys',
  'Each documented terminal key sequence (cursor, editing, function, keypad, with every xterm modifier parameter, and control characters) produces the virtual key and modifier state it denotes, and a leading ESC adds Alt. Longer sequences win over their prefixes.',
  ['inputs'], 'for the whole vocabulary with all modifier combinations, in any context', NOTEST + 'none of it is sent.',
  [A + 'DefaultInputMap.cc', A + 'InputMap.cc', A + 'ConsoleInput.cc'], [('the tables', A + 'DefaultInputMap.cc'), ('trie lookup', A + 'InputMap.cc'), ('appendKeyPress key translation', A + 'ConsoleInput.cc')], ['console input records'])
p('I08', 'Applications reading terminal input get the sequences re-encoded',
  'While the console is in virtual-terminal input mode, recognised keys reach the application as the corresponding escape sequence, one character per key record (unmodified cursor keys, Home and End are left to the console, which knows the cursor key mode), and characters as themselves. While it is not, there is no re-encoding. Once the agent has noticed a switch of the mode, which it does within its polling interval, every later key follows it.',
  ['inputs', 'histories', 'configurations'], 'for all keys, modifiers and mode changes', NOTEST + 'the mode is never set.',
  [A + 'ConsoleInputReencoding.cc', A + 'ConsoleInput.cc'], [('reencodeEscapedKeyPress', A + 'ConsoleInputReencoding.cc'), ('m_escapeInputEnabled', A + 'ConsoleInput.cc')], ['console input records'])
U = 'src/unix-adapter/'
p('U01', 'The Unix adapter relays every byte both ways until the session ends',
  'Everything typed reaches the session\'s input and everything the session outputs reaches the terminal: all of it, once, in order, for any chunk sizes, partial transfers, interrupted system calls and signals. When the session, the terminal or a write ends or fails, the adapter notices it by itself and exits; when the program ends, its output is shown completely first. It never ends before.',
  ['schedules', 'fault_sequences', 'inputs'], 'for all transfer sizes, interruptions, interleavings of its threads and ends on either side', 'The adapter has no automated test here (it needs Cygwin).',
  [U + 'main.cc', U + 'InputHandler.cc', U + 'OutputHandler.cc', U + 'WakeupFd.cc', U + 'Util.cc'], [('thread procedures', U + 'InputHandler.cc, OutputHandler.cc'), ('writeAll', U + 'Util.cc'), ('WakeupFd', U + 'WakeupFd.cc'), ('main loop and shutdown', U + 'main.cc')],
  ['file descriptors', 'pipe I/O', 'process exit'])
p('U02', 'The Unix adapter starts what it was asked to and returns its exit code',
  'The Windows command line built from the arguments parses back to exactly those arguments. The program is the one a POSIX shell would find (PATH order, executables only, .exe suffixes), as a Windows path. Options become the session\'s flags and mouse mode, bad ones are refused; TERM is hidden from the program and the debugging settings are passed on. The program\'s exit code is the adapter\'s, failures are explained and give 1.',
  ['inputs', 'configurations', 'fault_sequences'], 'for all argument lists, PATHs, option combinations and failing steps', 'The adapter has no automated test here (it needs Cygwin).',
  [U + 'main.cc'], [('argvToCommandLine', U + 'main.cc'), ('findProgram, convertPosixPathToWin', U + 'main.cc'), ('parseArguments', U + 'main.cc'), ('exit code', U + 'main.cc')],
  ['winpty API calls made by the adapter', 'exit code', 'stderr'])
p('U03', 'The session follows the terminal\'s size, and the terminal gets its modes back',
  'The session starts with the terminal\'s size and is told of every later change, whenever it happens; sizes that are unknown or zero are ignored. While the adapter relays, the terminal is raw (input unprocessed, output passed through), and at its end the terminal has the modes it had before.',
  ['schedules', 'configurations', 'fault_sequences'], 'for all moments of a resize, all initial modes and all ways to end', 'The adapter has no automated test here (it needs Cygwin).',
  [U + 'main.cc'], [('terminalResized, ioctl TIOCGWINSZ', U + 'main.cc'), ('setRawTerminalMode, restoreTerminalMode', U + 'main.cc')],
  ['winpty_set_size calls', 'tcsetattr calls'])
p('D01', 'Debug tracing never changes behaviour',
  'With the trace and input-dump settings on, API results, error codes, pipe bytes, console operations and their order are the same as with them off. A trace server that is absent, busy for a while, slow, refusing or breaking down makes no difference but time. Tracing leaves no handle behind.',
  ['configurations', 'histories', 'fault_sequences'], 'for all sessions with tracing off and on, and all trace-server states', 'Tests never run with tracing on and compare.',
  ['src/shared/DebugClient.cc', A + 'DebugShowInput.cc', A + 'ConsoleInput.cc', A + 'ConsoleFont.cc'], [('trace() saves and restores the last error', 'src/shared/DebugClient.cc'), ('sendToDebugServer', 'src/shared/DebugClient.cc'), ('trace statements throughout', 'src/agent, src/libwinpty')], ['all boundary observations'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for q in P:
    assert len(q['title']) <= 80, q['title']
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
