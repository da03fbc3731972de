#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
      **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),hook_needed=hook)))

NOT="The existing tests cover the layout solver, one list case and text widgets only; nothing runs an application, so no schedule, fault or history is ever sampled."

p("P01","Every message reaches the model exactly once",
 "While an application runs, every non-nil message that a command (immediate, timed, batched or sequenced) returns is passed to the model's update exactly once, and none is invented. Messages still undelivered when the application is asked to stop may be dropped, but never duplicated. This holds however slow updates, drawing and other commands are and however the producers interleave.",
 ["schedules","programs","fault_sequences"],
 "all command programs (trees of immediate, timed, batched, sequenced and nested commands started from init, updates and key presses), all interleavings of the producers with the event loop, all delays of updates, drawing and terminal writes, all stop points",
 NOT, ["app.go","cmd.go"],
 [("event loop and message channel","app.go:eventLoop, Send"),("command runner","app.go:handleCommands, handleCmd"),("sequence and batch runners","app.go:eventLoop")],
 ["Model.Update call history","command start/finish history"],
 [("pending messages","goroutines blocked sending to the message channel","appRunner.msgs")])
p("P02","Every command handed to the runtime runs exactly once",
 "Every non-nil command that init or an update returns, and every non-nil member of a batch or sequence it contains, is executed exactly once as long as the application keeps running; nil commands are ignored. After the application has been asked to stop a command may be skipped, but no command is ever executed twice.",
 ["schedules","programs"],
 "all trees of commands (nil members, empty, singleton, nested batches and sequences) returned from init and from any update, all interleavings, all stop points",
 NOT, ["app.go","cmd.go"],
 [("command channel","app.go:handleCommands"),("Batch and Sequence","cmd.go:Batch, Sequence"),("message interpretation","app.go:eventLoop")],
 ["execution count of every command"])
p("P03","Sequenced commands run one at a time, in order",
 "The commands of a sequence run strictly one after another in the order given: a command starts only after the previous one has returned and its message has been handed over, so their messages also reach the model in that order. When a member of the sequence is a batch, all commands of that batch finish before the next member starts. Nothing else going on in the application, including stalls and other sequences, changes this order.",
 ["schedules","programs"],
 "all sequences of immediate, timed, batched and nil commands, all mixes of concurrently running sequences, all interleavings and delays",
 NOT, ["app.go","cmd.go"],
 [("sequence runner","app.go:eventLoop, sequenceMsg case"),("batch join inside a sequence","app.go:errgroup")],
 ["start/finish order of commands","delivery order of their messages"])
p("P04","Commands run concurrently and never hold up the application",
 "A command that is slow or never returns delays neither the delivery of other messages, nor drawing, nor any command that is not sequenced behind it; the members of a batch run concurrently with each other. When updates, drawing and the terminal are not slow, a message is handled at the very moment its command finishes, whatever else is in flight.",
 ["schedules","programs"],
 "all mixes of immediate, timed, long-running and never-returning commands, all interleavings",
 NOT+" A test can only use real sleeps; simulated time makes any added latency visible exactly.", ["app.go","cmd.go"],
 [("one goroutine per command","app.go:handleCmd"),("command channel drained by its own goroutine","app.go:handleCommands")],
 ["simulated time from command finish to update","start times of batch members"])
p("P05","Init, update and render are serialised and thread one model",
 "Init is called once, before anything else; no two calls of init, update and render ever overlap. Each update receives the model the previous update returned, every update that does not end the application is followed by a draw of exactly that model before the next message is handled, and the model the application finally returns is the one from the last update.",
 ["schedules","programs","fault_sequences"],
 "all message histories, all interleavings of producers, commands, resizes and failures with the event loop, all stop points",
 NOT, ["app.go","terminal.go"],
 [("single event loop","app.go:eventLoop"),("draw after each update","app.go:draw")],
 ["history of Init/Update/Render calls with the identity of the model","return value of Run"])
p("P06","The application always terminates when it must",
 "Once a quit message reaches the application, its context is cancelled or expires, reading input or writing output fails for good, or application code panics, running the application ends as soon as the update, drawing or terminal write already in progress is over. No combination of pending or blocked commands, queued messages, input backlog, resizes or simultaneous failures makes it hang.",
 ["schedules","fault_sequences","programs"],
 "all stop causes and combinations of them, injected at any statement of the runtime, with any backlog of messages, commands, input and resizes",
 NOT, ["app.go","tty.go","signals_unix.go","input.go"],
 [("context observed by every blocking operation","app.go, tty.go, signals_unix.go"),("error channel","app.go:errs"),("shutdown waits for handlers","app.go:shutdown")],
 ["simulated time from cause to return of Run","liveness of every goroutine"])
p("P07","The result of a run tells why it ended",
 "A run that ended because of a quit message reports no error; one whose context was cancelled or expired reports the killed error; one that could not set up the terminal, could not read input or could not write its output reports an error that wraps the cause, never success. When several causes coincide, one of those that actually occurred is reported; except when setup failed or application code panicked, the model returned is the latest one. The end of the input stream alone is not an error and does not stop the application.",
 ["schedules","fault_sequences"],
 "all stop causes at all points, alone and combined, including failures of every single terminal operation during setup",
 NOT, ["app.go","tty.go","terminal.go","terminal_backend.go"],
 [("error propagation","app.go:Run, eventLoop; tty.go:readLoop"),("killed error","app.go:ErrKilled")],
 ["return value of Run"])
p("P08","The terminal is always given back as it was found",
 "However a run ends - quit, cancellation, failure of input, output or any setup step, or a panic in application code - when it returns the terminal line settings are those from before the run, and, as far as the output still accepts data, the normal screen with its previous content is shown, the cursor is visible and bracketed paste is off. A failure of one restoring step does not prevent the others.",
 ["schedules","fault_sequences"],
 "all ways to end, with faults at every terminal operation (line-setting calls, each write, temporary and permanent), at all interleavings",
 NOT, ["app.go","tty.go","terminal_backend.go","terminal_backend_unix.go"],
 [("shutdown and restore","app.go:shutdown, restore; tty.go:restoreTerminal"),("raw mode","terminal_backend_unix.go:EnableRawMode; terminal_backend.go:DisableRawMode")],
 ["state of the simulated terminal after Run returned"])
p("P09","A panic in application code is contained",
 "When init, update, render or a command (plain, batched, sequenced, or a timer callback) panics, the process does not crash: the application stops, the terminal is restored before the panic is reported, and the run returns an error. This holds wherever the panic happens and whatever else is running at that moment, including several panics at once.",
 ["schedules","fault_sequences","programs"],
 "all places application code runs, all kinds of commands, all interleavings with other commands, resizes, quits and cancellations",
 NOT, ["app.go"],
 [("panic recovery","app.go:recoverFromPanic")],
 ["process survival","return value of Run","state of the simulated terminal"])
p("P10","After a resize the application follows the terminal's real size",
 "The model learns the terminal size after the start and again after every change: once the window stops changing, the last size the model was told, the area it renders into and the frame on the screen are those of the real window. No change is lost, however many happen, whenever they happen (including while the application starts) and however slow the application is.",
 ["schedules","fault_sequences"],
 "all sequences and timings of window size changes relative to every statement of start-up, size detection and drawing, sizes down to zero",
 NOT, ["signals_unix.go","tty.go","app.go","terminal.go"],
 [("window change signal","signals_unix.go:listenForResize"),("size query","tty.go:checkResize"),("terminal resize","terminal.go:Resize")],
 ["size messages","render area","simulated screen"])
p("P11","After every successful draw the screen shows the frame",
 "Whenever a draw succeeds, the terminal screen is cell for cell the frame the model rendered: every character, colour (converted to what the terminal supports), attribute, and wide character, and nothing left over from earlier frames. This holds for every history of frames, resizes and short or slow writes, and control characters in application text never reach the terminal as such. What a wide character covers is not shown, and appears when that character is gone. After a draw or clear that failed, or a draw whose widget panicked, the next draw that succeeds shows its frame too.",
 ["histories","inputs","schedules","fault_sequences","configurations"],
 "all histories of frames (text, wide and combining characters, styles, colours, control characters), colour profiles, resizes between and during frames, write chunkings",
 NOT, ["buffer.go","cell.go","style.go","terminal.go","terminal_backend.go","internal/ansi"],
 [("frame difference","buffer.go:Diff"),("double buffering","terminal.go:Flush, SwapBuffers, Resize"),("escape sequence encoder","terminal_backend.go:Draw; internal/ansi")],
 ["simulated terminal screen compared with the rendered buffer"])
p("P12","Keyboard, mouse, paste and focus input is decoded without loss",
 "The sequence of key, mouse, focus and paste events the model sees is exactly the sequence of events the terminal sent, in order, with nothing lost, split, merged or invented (adjacent typed characters may arrive grouped). It does not depend on how the bytes are cut into reads while a backlog is drained or a paste arrives in pieces, nor on how slow the application is; a paste is one event with exactly the pasted text. Bytes that belong to no character are never taken for keys or text and leave what is around them as it was.",
 ["inputs","schedules","fault_sequences"],
 "all streams of terminal events, all read boundaries a full input buffer or a fragmented paste can produce, all application delays",
 NOT, ["input.go","mouse.go","tty.go","key_other.go"],
 [("input decoder and carry-over between reads","input.go:readAnsiInputs, detectOneMsg")],
 ["messages passed to Update"])
p("P13","Nothing of the application survives its run",
 "When a run has returned, nothing it started is left behind except commands that are still executing: no goroutine, no signal registration, no open descriptor. From then on it neither reads terminal input nor writes output: input typed afterwards is left for whoever reads next, so another application can run on the same terminal right away and works like the first.",
 ["schedules","fault_sequences","histories"],
 "all ways to end at all points, input arriving around and after the end, several runs after one another on one terminal",
 NOT, ["app.go","tty.go","signals_unix.go","inputreader_other.go"],
 [("handlers awaited on shutdown","app.go:channelHandlers"),("cancellable input reader","tty.go:initCancelReader, waitForReadLoop"),("signal deregistration","signals_unix.go:listenForResize")],
 ["goroutines, descriptors and signal registrations after Run","unread input after Run","second run"])
p("P14","Timers fire once, on time, with the right timestamp",
 "A tick command created for a duration delivers exactly one message, built from the time the timer fired, never earlier than that duration after the command was created, and not later than it plus the time the application itself was busy. Any number of concurrent ticks, including zero and equal durations, stalls and slow updates, keep this.",
 ["schedules","programs"],
 "all sets of concurrent ticks with arbitrary durations, start times, delays before they are run, all interleavings and tie-breaks",
 NOT+" Real-time tests cannot check exact times.", ["cmd.go","app.go"],
 [("timer","cmd.go:Tick"),("command runner","app.go:handleCmd")],
 ["simulated time at creation, firing and delivery"])
p("P15","Splitting an area is deterministic and safe to do concurrently",
 "Splitting the same area with the same layout always gives the same rectangles, whatever order the language's randomised map iteration takes inside the solver, in whatever goroutine and however many splits run at the same time, and however often it is repeated. Neither splitting nor deriving one layout from another changes a layout, so one layout may be shared.",
 ["schedules","configurations","inputs"],
 "all layouts (constraint mixes, flex modes, spacing, padding, direction) and areas, all map iteration orders, all interleavings of concurrent splits",
 "The layout tests run each case once, sequentially, under whatever map order that process happens to use.", ["layout.go","internal/casso","constraint.go"],
 [("constraint solver","internal/casso/solver.go"),("layout to constraints","layout.go:Split")],
 ["rectangles returned by Split"])
p("P16","A split always yields proper rectangles",
 "Splitting an area by n constraints yields exactly n rectangles, in order along the chosen direction, each inside the padded area, none overlapping another when the spacing is not negative, and all as large as the padded area across the direction; n+1 spacers likewise when asked for. This holds for any mix and number of constraints, any area down to empty, and any map iteration order inside the solver. Fixed lengths, minimums and maximums that can all be met are met (up to one cell of rounding where free space is distributed).",
 ["inputs","configurations","schedules"],
 "all layouts and areas, all map iteration orders, all interleavings",
 "The layout tests check fixed tables of at most a handful of constraints.", ["layout.go","internal/casso","rect.go","padding.go"],
 [("constraint solver","internal/casso"),("segments to rectangles","layout.go:Split")],
 ["rectangles returned by Split"])
p("P17","Widgets survive any area, state and input and stay inside their area",
 "Rendering any widget with any content and configuration into any area, including empty ones, ones that shrink or grow between renders and ones that reach beyond the terminal, neither panics nor changes a single cell outside that area, nor does a wide character in its last column cover the cell to the right. The area a widget leaves for its content lies inside its own. This holds throughout any history of resizes, key presses, content changes and scrolling, with state carried over from one size to the next.",
 ["histories","inputs","schedules"],
 "all histories of resizes (down to zero), input storms and content changes, all widgets and configurations nested in one another",
 "The tests render a few widgets once into a fixed comfortable area.", ["widget","buffer.go","internal/reflow"],
 [("area arithmetic and clipping","widget/*, buffer.go"),("state carried between renders","widget/listwidget/state.go, widget/inputwidget/state.go, widget/scrollwidget/state.go")],
 ["panics","cells outside the widget's area"])
p("P18","The text input edits and shows what the user typed",
 "After any history of typing, pasting, cursor movement and deletion, delivered in whatever chunks and with the terminal resized at any time, the text of an input field equals that of a plain editor model fed the same keys (insertion at the cursor, left/right/begin/end, delete before the cursor, delete word before the cursor). The cursor's character is always visible in the field when the field has room for it, and the visible part is a contiguous piece of the text, in the row and at the side asked for.",
 ["histories","inputs","schedules"],
 "all edit histories over narrow, wide and multi-byte characters, all field widths and resizes between edits, all read chunkings",
 "The text input has no tests.", ["widget/inputwidget","input.go"],
 [("editing state","widget/inputwidget/state.go"),("visible window","widget/inputwidget/state.go:getBounds")],
 ["text of the field","screen"])
p("P19","A list keeps its selection valid and in view",
 "After any history of selection keys, item changes and resizes, drawing a list selects the item a plain model of the same keys selects (clamped to the items that exist), and, if there is room for it, shows that item highlighted, fully and with the items around it contiguous, in order and unclipped. Selection never wraps around or gets lost. As many neighbours as asked for are kept in view with it if they fit, and the view moves only if it has to (items of equal heights).",
 ["histories","inputs","schedules"],
 "all key histories, item counts and heights changing over time, both directions, scroll padding, all sizes and resizes",
 "One test checks one selection at one size.", ["widget/listwidget"],
 [("selection state","widget/listwidget/state.go"),("visible range","widget/listwidget/list.go:getItemsBounds")],
 ["screen","selected index"])
p("P20","A throbber is driven by exactly one timer chain",
 "Once started, a throbber advances by one frame per interval and ignores ticks meant for other throbbers; starting it again while it runs, any number of times, never makes it run faster, slower or stop, beyond the one extra step each start itself takes. This holds for any number of throbbers with different speeds, slow updates and late ticks.",
 ["schedules","programs"],
 "all sets of throbbers, start and restart times, delays, and interleavings of their ticks",
 "The throbber has no tests, and tests cannot check rates without real time.", ["widget/throbberwidget","cmd.go"],
 [("tick ids and tags","widget/throbberwidget/state.go:TryUpdate"),("timer","cmd.go:Tick")],
 ["frame shown over simulated time","number of pending ticks"])

# what is shown, and names
p("P21","Texts, widgets and states are values, shared, derived and drawn at any time",
"Drawing a text or a widget (with a copy of a state), measuring it and asking for what it leaves to its content give the same result whenever and wherever it is done, as if nothing else had ever been drawn or derived: while other goroutines (commands that prepare what is shown next to the one that draws) draw the same value, or others made of the same spans, lines, texts and blocks, derive new values from it with its With methods, append to copies of it, or let copies of its state handle keys; no matter how these interleave. None of this changes the value, what is derived from it at the same time, or any copy of the state.",
["schedules","histories","programs"],"all pools of values made of one another, all sequences of uses by several goroutines, and all interleavings of them","The tests draw each value once, alone.",["widget","style.go","buffer.go","internal/reflow","internal/grapheme"],
[("derivation","widget/textwidget/line.go:WithSpans, text.go:WithLines, widget/blockwidget/block.go:WithTitle"),("states","widget/inputwidget/state.go, widget/listwidget/state.go"),("drawing","widget/*")],["cells drawn","strings and sizes reported","fields of the shared values afterwards"])
p("P22","A terminal driven directly changes exactly what it is asked to",
"For any sequence of operations on terminals with fixed viewports that share a screen with each other and with other programs: drawing shows the frame in the viewport, clearing and resizing blank it, and none of them changes a cell outside of it, so that each viewport shows its last frame whatever happens next to it; drawing leaves colours and attributes as they were by default and hides the cursor; showing, hiding and moving the cursor, raw mode, the alternate screen and bracketed paste change just that; leaving the alternate screen shows the former screen again, and leaving raw mode restores the settings found when it was entered, however often it was entered in between. Slow, short and interrupted writes do not matter.",
["histories","fault_sequences","inputs"],"all sequences of operations, viewports, frames, window sizes and write faults","No test drives a terminal.",["terminal.go","terminal_backend.go","terminal_backend_unix.go","viewport.go","buffer.go"],
[("viewport and buffers","terminal.go"),("clearing","terminal.go:clear"),("terminal settings","terminal_backend_unix.go:EnableRawMode, terminal_backend.go:DisableRawMode"),("drawing","terminal_backend.go:Draw")],["screen","terminal modes and settings"])
p("P30","Texts and paragraphs show what they contain, at any width and scroll position",
 "Through any history of resizes, scrolling and content changes, a wrapped paragraph shows the words of its text in order, each row as full as it can be and never wider than the area, no word split unless it, with blanks kept before it, is wider than a row (how much of such a word follows trimmed blanks is free), nothing lost but blanks at row ends (and leading blanks when trimming); blanks that fit at a row end do not start the next row; an unwrapped one shows one line of text per row, the longest part after the horizontal scroll offset that fits (centred and right-aligned lines stay where they are); text, line and span widgets are clipped at the side their alignment demands; strings, spans and lines printed at any place of any buffer show the longest part that fits and is inside; every row is aligned as asked. Scrolling moves the same rows: a row seen at two scroll positions is the same. Splitting a string into lines loses nothing, however long, and the width and height a text reports are those it takes up.",
 ["histories","inputs","schedules"],
 "all texts (wide, combining and zero-width characters, blanks, long words), widths, alignments, wrapping modes, and histories of scrolling and resizes",
 "No test covers the reflow code or paragraphs.",["internal/reflow","widget/paragraphwidget","widget/textwidget"],
 [("word wrapper","internal/reflow/wrapper.go"),("truncation and horizontal scroll","internal/reflow/truncator.go"),("clipping","widget/textwidget/line.go, span.go")],["rows drawn into the buffer"])
p("P31","Everything is shown in exactly the style its layers combine to",
"Whatever is composed of whatever (area, widget, text, line, span; borders, titles, highlights, cursors, prompts, placeholders, labels), through any history of keys, scrolling, resizes and redraws: each character and blank is shown with the colours and attributes that result from applying the layers it belongs to from the outermost to the innermost, each overriding exactly the colours it sets and adding or removing exactly the attributes it names; a cell outside a layer takes nothing of its style; and neither drawing a value nor deriving another one from it changes how it is shown afterwards.",
["histories","inputs","schedules"],"all compositions of layers of styles, alignments, areas and histories","No test covers styles of composed widgets.",["style.go","buffer.go","cell.go","widget"],[("patch","style.go:Patched"),("cells","cell.go:SetStyle"),("lines and spans","widget/textwidget")],["styles of the cells drawn"])
p("P32","Indicators and frames show the state they are given",
 "Through any history of resizes, keys and content changes: a gauge fills the share of its width its ratio demands, with its label centred, and cannot be given a ratio outside 0 to 1; a scroll bar leaves the rest of its area to its content, and its thumb is at the start and the end exactly for the first and last position, proportional in between and in length, and never moves backwards when the position moves forwards; tabs show all titles with the dividers and highlight exactly the selected one; a block draws exactly the borders and titles asked for and leaves exactly the rest to its content; a popup covers a cleared area of its size at its place within its padding; fill and clear cover all of their area.",
 ["histories","inputs","schedules"],
 "all ratios, positions, selections, border and title configurations, areas and histories of resizes and keys",
 "No test covers these widgets.",["widget/gaugewidget","widget/scrollwidget","widget/tabswidget","widget/blockwidget","widget/popupwidget","widget/fillwidget","widget/clearwidget"],
 [("fill arithmetic","widget/gaugewidget/gauge.go"),("thumb arithmetic and position","widget/scrollwidget"),("borders and titles","widget/blockwidget/block.go")],["cells drawn into the buffer"])
p("P33","Key and mouse events have one name each, and pasted text never has that of a key",
"For any input stream, however it arrives: the name by which the model compares a key or mouse event (String) is the documented one for what was pressed, with its modifiers; equal events always have equal names and different ones different names, also later in the run and after further input (characters typed so fast that they are read together may form one event, named by all of them); and the name of a pasted text is never that of a key, even if exactly the name or character of a key is pasted.",
["histories","inputs","schedules"],"all keys, mouse events and pastes, in any order, delivered in any pieces","Tests compare the names of a handful of keys.",["input.go","mouse.go"],[("key names","input.go:Key.String"),("mouse names","mouse.go:MouseEvent.String")],["strings"])
p("P34","A layout gives the space to whom it is promised",
"However many layouts are split by whichever goroutines: as long as there is room, every segment gets exactly what its constraint asks for (lengths, percentages and ratios their share of the area, maximums all they may have, minimums at least theirs), neighbours are exactly the spacing apart, and what remains goes where the flex mode says (to the fills by weight, before, after, between or around the segments, or, in the legacy mode, to the segments of the weakest constraint only). Where there is not room for all, minimums go before lengths, lengths before percentages, these before ratios, these before maximums, and these before fills. Spacers are exactly what lies between the segments. Edges may be rounded by a cell.",
["inputs","schedules","histories"],"all areas, lists of constraints, flex modes, spacings and margins, all orders in which the solver's maps are iterated, and all interleavings of goroutines that split","The tests check a few splits each, in one iteration order each.",["layout.go","constraint.go","flex.go","internal/casso"],
[("constraints and their strengths","layout.go:configureConstraints, configureFlexConstraints, configureFillConstraints"),("solver","internal/casso")],["segments and spacers returned"])
p("P35","A run that lasts costs no more than one that has just begun",
"However long an application runs and however often applications are run: the same activity (keys, pastes, mouse events, resizes, a slow terminal, commands of any shape, whole runs) repeated any number of times, once it has settled, leaves no more goroutines, open descriptors or memory behind every time it is repeated, and makes the application handle no more messages, draw no more frames and read, write and configure the terminal no more often than the times before.",
["schedules","histories","inputs","configurations"],"all phases of activity, all interleavings, any number of repetitions","Tests run nothing repeatedly and do not look at what is left.",["app.go","cmd.go","terminal.go","terminal_backend.go","input.go","tty_unix.go","signals_unix.go"],
[("event loop and commands","app.go"),("input","input.go, tty.go"),("drawing","terminal.go, buffer.go")],["goroutines, descriptors and heap after each phase","calls of the model and of the kernel"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
