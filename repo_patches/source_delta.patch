From c37102fb17cab8b88a6cb0c31789e3647af169ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 01/45] fix: run the commands of a batch and do not block on
 commands when stopping

A BatchMsg returned by a command was only passed to Update, its commands
never ran. Handing over a command blocked forever once the context was done,
and a nil member of a sequenced BatchMsg crashed the process.
---
 app.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 93a426b..aa95baa 100644
--- a/app.go
+++ b/app.go
@@ -241,6 +241,14 @@ func (a *appRunner) Send(msg Msg) {
 	}
 }
 
+// dispatch hands the command over to be run, unless the app is stopping.
+func (a *appRunner) dispatch(cmd Cmd) {
+	select {
+	case <-a.ctx.Done():
+	case a.cmds <- cmd:
+	}
+}
+
 // handleCommands runs commands in a goroutine and sends the result to the
 // program's message channel.
 func (a *appRunner) handleCommands() {
@@ -314,6 +322,10 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					a.dispatch(cmd)
+				}
 			case sequenceMsg:
 				go func() {
 					// Execute commands one at a time, in order.
@@ -326,6 +338,10 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 						if batchMsg, ok := msg.(BatchMsg); ok {
 							g, _ := errgroup.WithContext(a.ctx)
 							for _, cmd := range batchMsg {
+								if cmd == nil {
+									continue
+								}
+
 								cmd := cmd
 								g.Go(func() error {
 									a.Send(cmd())
@@ -344,7 +360,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
+			a.dispatch(cmd)
 			a.draw(model)
 		}
 	}
-- 
2.43.0


From ac4b9c773e82029b282d1f2df0387e002bbcb20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 02/45] fix: end the run when drawing fails

A draw error was sent to a channel that only the drawing goroutine itself
receives from, so the app hung.
---
 app.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index aa95baa..348d6d0 100644
--- a/app.go
+++ b/app.go
@@ -202,7 +202,10 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	if err := a.draw(a.model); err != nil {
+		return a.model, err
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -225,7 +228,9 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
+	if err := a.draw(model); err != nil {
+		return model, err
+	}
 
 	if err := a.shutdown(); err != nil {
 		return model, fmt.Errorf("shutdown: %w", err)
@@ -361,7 +366,10 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
 			a.dispatch(cmd)
-			a.draw(model)
+
+			if err := a.draw(model); err != nil {
+				return model, err
+			}
 		}
 	}
 }
@@ -382,11 +390,12 @@ func (a *appRunner) shutdown() error {
 	return a.restore()
 }
 
-func (a *appRunner) draw(widget Widget) {
-	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
+func (a *appRunner) draw(widget Widget) error {
+	if _, err := a.terminal.Draw(widget); err != nil {
+		return fmt.Errorf("draw: %w", err)
 	}
+
+	return nil
 }
 
 func (a *appRunner) init() error {
-- 
2.43.0


From 3415646db987519c0d8a92c1edd77c4912bde8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 03/45] fix: a failing restoring step does not prevent the
 others

After the first error the remaining steps were skipped, so the terminal could
stay raw, and the output buffer refused everything that followed a write error.
---
 app.go              |  8 +++++---
 terminal_backend.go | 25 +++++++++++++++++++------
 tty.go              | 10 ++++++----
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/app.go b/app.go
index 348d6d0..520d38e 100644
--- a/app.go
+++ b/app.go
@@ -411,15 +411,17 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
+	var errs []error
+
 	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+		errs = append(errs, fmt.Errorf("restore terminal: %w", err))
 	}
 
 	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+		errs = append(errs, fmt.Errorf("leave alt screen buffer: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..8695aed 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -2,6 +2,7 @@ package bento
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 
@@ -83,11 +84,13 @@ func (d *DefaultBackend) Read(p []byte) (n int, err error) {
 }
 
 func (d *DefaultBackend) DisableRawMode() error {
+	var errs []error
+
 	if d.input != nil && d.prevInputState != nil {
 		fd, ok := d.inputFd()
 		if ok {
 			if err := term.Restore(fd, d.prevInputState); err != nil {
-				return fmt.Errorf("restore input: %w", err)
+				errs = append(errs, fmt.Errorf("restore input: %w", err))
 			}
 		}
 	}
@@ -96,12 +99,12 @@ func (d *DefaultBackend) DisableRawMode() error {
 		fd, ok := d.outputFd()
 		if ok {
 			if err := term.Restore(fd, d.prevOutputState); err != nil {
-				return fmt.Errorf("restore output: %w", err)
+				errs = append(errs, fmt.Errorf("restore output: %w", err))
 			}
 		}
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // ClearAfterCursor implements TerminalBackend.
@@ -162,7 +165,7 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 				To:   cell.Modifier,
 			}
 
-			if err := diff.queue(d.outputBuf); err != nil {
+			if err := d.discardFailed(diff.queue(d.outputBuf)); err != nil {
 				return fmt.Errorf("queue: %w", err)
 			}
 
@@ -201,7 +204,7 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 
 // Flush implements TerminalBackend.
 func (d *DefaultBackend) Flush() error {
-	return d.outputBuf.Flush()
+	return d.discardFailed(d.outputBuf.Flush())
 }
 
 // GetCursorPosition implements TerminalBackend.
@@ -264,7 +267,17 @@ func (d *DefaultBackend) ShowCursor() error {
 }
 
 func (d *DefaultBackend) queue(commands ...ansi.Command) error {
-	return queue(d.outputBuf, commands...)
+	return d.discardFailed(queue(d.outputBuf, commands...))
+}
+
+// discardFailed drops the buffered output after an error: the buffer would
+// refuse any further writes, including those that restore the terminal.
+func (d *DefaultBackend) discardFailed(err error) error {
+	if err != nil {
+		d.outputBuf.Reset(d.output)
+	}
+
+	return err
 }
 
 func (d *DefaultBackend) execute(commands ...ansi.Command) error {
diff --git a/tty.go b/tty.go
index b6c168a..81718b0 100644
--- a/tty.go
+++ b/tty.go
@@ -24,12 +24,14 @@ func (a *appRunner) initTerminal() error {
 // restoreTerminal restores the terminal to the state prior to running the
 // Bento app.
 func (a *appRunner) restoreTerminal() error {
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +46,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From dc805ee395ec59a02c32793f948630ee156724a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 04/45] fix: restore the terminal however the run ends

Errors, cancellation and a failed setup left the terminal in raw mode on the
alternate screen with the cursor hidden, and kept goroutines and the input
opened for the run.
---
 app.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/app.go b/app.go
index 520d38e..de26a37 100644
--- a/app.go
+++ b/app.go
@@ -118,6 +118,8 @@ func (a App) WithContext(ctx context.Context) App {
 }
 
 func (a App) Run() (Model, error) {
+	defer a.cancelCtx()
+
 	input, closeInput, err := a.input.getInput()
 	if err != nil {
 		return nil, fmt.Errorf("get input: %w", err)
@@ -126,6 +128,10 @@ func (a App) Run() (Model, error) {
 	backend := NewDefaultBackend(input, a.output)
 	terminal, err := NewTerminal(&backend, ViewportFullscreen{})
 	if err != nil {
+		if closeInput != nil {
+			_ = closeInput()
+		}
+
 		return nil, fmt.Errorf("new terminal: %w", err)
 	}
 
@@ -194,6 +200,13 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
+	// However the run ends, stop what it started and restore the terminal.
+	defer func() {
+		if shutdownErr := a.shutdown(); shutdownErr != nil {
+			err = errors.Join(err, fmt.Errorf("shutdown: %w", shutdownErr))
+		}
+	}()
+
 	defer a.recoverFromPanic()
 
 	err = a.init()
@@ -228,15 +241,7 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	if err := a.draw(model); err != nil {
-		return model, err
-	}
-
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
-	}
-
-	return model, nil
+	return model, a.draw(model)
 }
 
 func (a *appRunner) Send(msg Msg) {
-- 
2.43.0


From 75568074e4db610cc6bedb06fa6bff16a54363c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 05/45] fix: contain panics of commands and report them from
 Run

A panic in a plain command left Run blocked or, in a sequence, crashed the
process with the terminal still raw. A panic in the model made Run return
no model and no error.
---
 app.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/app.go b/app.go
index de26a37..2f97d3e 100644
--- a/app.go
+++ b/app.go
@@ -205,9 +205,19 @@ func (a *appRunner) Run() (model Model, err error) {
 		if shutdownErr := a.shutdown(); shutdownErr != nil {
 			err = errors.Join(err, fmt.Errorf("shutdown: %w", shutdownErr))
 		}
+
+		var panicErr *panicError
+		if errors.As(err, &panicErr) {
+			fmt.Printf("Caught panic:\n\n%v\n\n", panicErr.value)
+			_, _ = os.Stderr.Write(panicErr.stack)
+		}
 	}()
 
-	defer a.recoverFromPanic()
+	defer func() {
+		if r := recover(); r != nil {
+			model, err = a.model, newPanicError(r)
+		}
+	}()
 
 	err = a.init()
 	if err != nil {
@@ -338,6 +348,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				}
 			case sequenceMsg:
 				go func() {
+					defer a.recoverFromPanic()
+
 					// Execute commands one at a time, in order.
 					for _, cmd := range msg {
 						if cmd == nil {
@@ -354,6 +366,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 								cmd := cmd
 								g.Go(func() error {
+									defer a.recoverFromPanic()
+
 									a.Send(cmd())
 									return nil
 								})
@@ -370,6 +384,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
+			a.model = model
 			a.dispatch(cmd)
 
 			if err := a.draw(model); err != nil {
@@ -379,11 +394,28 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 	}
 }
 
+// panicError is a panic caught while running the app.
+type panicError struct {
+	value any
+	stack []byte
+}
+
+func newPanicError(value any) *panicError {
+	return &panicError{value: value, stack: debug.Stack()}
+}
+
+func (e *panicError) Error() string {
+	return fmt.Sprintf("panic: %v", e.value)
+}
+
+// recoverFromPanic ends the run if a command panics. It is to be deferred in
+// the goroutines that run commands.
 func (a *appRunner) recoverFromPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
-		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
-		debug.PrintStack()
+		select {
+		case <-a.ctx.Done():
+		case a.errs <- newPanicError(r):
+		}
 	}
 }
 
-- 
2.43.0


From 88afd3c86be2b2ec4feb53c72d44cc603d0955e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 06/45] fix: stop reading input when the run ends

The read loop was never cancelled: it kept taking input from whoever read the
terminal next. Its error after a cancellation could also replace ErrKilled.
---
 app.go               | 8 ++++++++
 inputreader_other.go | 5 +++++
 tty.go               | 2 +-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 2f97d3e..ca4f449 100644
--- a/app.go
+++ b/app.go
@@ -424,6 +424,14 @@ func (a *appRunner) shutdown() error {
 
 	a.handlers.shutdown()
 
+	if a.cancelReader != nil {
+		if a.cancelReader.Cancel() {
+			a.waitForReadLoop()
+		}
+
+		_ = a.cancelReader.Close()
+	}
+
 	return a.restore()
 }
 
diff --git a/inputreader_other.go b/inputreader_other.go
index 0d3d570..ff1d0ac 100644
--- a/inputreader_other.go
+++ b/inputreader_other.go
@@ -9,5 +9,10 @@ import (
 )
 
 func newInputReader(r io.Reader) (cancelreader.CancelReader, error) {
+	// Only files can be cancelled, so read the input of a terminal itself.
+	if t, ok := r.(*Terminal); ok {
+		r = t.Input()
+	}
+
 	return cancelreader.NewReader(r)
 }
diff --git a/tty.go b/tty.go
index 81718b0..8bb988d 100644
--- a/tty.go
+++ b/tty.go
@@ -70,7 +70,7 @@ func (a *appRunner) readLoop() {
 	defer close(a.readLoopDone)
 
 	err := readInputs(a.ctx, a.msgs, a.cancelReader)
-	if !errors.Is(err, io.EOF) && !errors.Is(err, cancelreader.ErrCanceled) {
+	if a.ctx.Err() == nil && !errors.Is(err, io.EOF) && !errors.Is(err, cancelreader.ErrCanceled) {
 		select {
 		case <-a.ctx.Done():
 		case a.errs <- err:
-- 
2.43.0


From 836bec934a676aae54f980478d828721c7be49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 07/45] fix: do not start the remaining commands of a sequence
 after the run

---
 app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app.go b/app.go
index ca4f449..1b6fe1c 100644
--- a/app.go
+++ b/app.go
@@ -352,6 +352,10 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 					// Execute commands one at a time, in order.
 					for _, cmd := range msg {
+						if a.ctx.Err() != nil {
+							return
+						}
+
 						if cmd == nil {
 							continue
 						}
-- 
2.43.0


From 135c183ef320b0c03fcf107110d0d58b5eee96e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 08/45] fix: do not lose window size changes

The initial size was reported concurrently with later changes, so a stale
size could arrive last; changes before the signal was subscribed to and errors
getting the size were lost.
---
 app.go             | 5 +----
 signals_unix.go    | 3 +++
 signals_windows.go | 5 ++++-
 tty.go             | 8 ++++----
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/app.go b/app.go
index 1b6fe1c..44b7558 100644
--- a/app.go
+++ b/app.go
@@ -312,10 +312,7 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
-	// Get the initial terminal size and send it to the program.
-	go a.checkResize()
-
-	// Listen for window resizes.
+	// Send the initial terminal size and listen for window resizes.
 	go a.listenForResize(ch)
 
 	a.handlers.add(ch)
diff --git a/signals_unix.go b/signals_unix.go
index 3a25748..8edbdaa 100644
--- a/signals_unix.go
+++ b/signals_unix.go
@@ -21,6 +21,9 @@ func (a *appRunner) listenForResize(done chan struct{}) {
 		close(done)
 	}()
 
+	// Get the initial terminal size only now, so that no change is missed.
+	a.checkResize()
+
 	for {
 		select {
 		case <-a.ctx.Done():
diff --git a/signals_windows.go b/signals_windows.go
index 43fb53f..05266b5 100644
--- a/signals_windows.go
+++ b/signals_windows.go
@@ -6,5 +6,8 @@ package bento
 // listenForResize is not available on windows because windows does not
 // implement syscall.SIGWINCH.
 func (a *appRunner) listenForResize(done chan struct{}) {
-	close(done)
+	defer close(done)
+
+	// Get the initial terminal size and send it to the program.
+	a.checkResize()
 }
diff --git a/tty.go b/tty.go
index 8bb988d..9d2fb37 100644
--- a/tty.go
+++ b/tty.go
@@ -93,10 +93,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -106,5 +102,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From bd2cb0bbcdd3dd5a21a6908478e3ef95afa53187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 09/45] fix: clip wide graphemes and skip control characters in
 SetStringN

A wide grapheme in the last column panicked, and control characters and
zero-width graphemes were put into cells and so reached the terminal.
---
 buffer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..4078a63 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,14 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		if width == 0 {
+			continue
+		}
+
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From 16a94d2d9d51c7dc83f781ff8394c8662a9151a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 10/45] fix: show the colors and attributes of a cell exactly

The hidden attribute was never emitted, removing one kind of blinking removed
the other, and a color the terminal does not have yielded an empty parameter,
which resets everything.
---
 terminal_backend.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 8695aed..82c913c 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -174,8 +174,8 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 
 		if cell.Fg != fg || cell.Bg != bg {
 			if err := d.queue(ansi.SetColors(ansi.Colors{
-				Foreground: d.colorProfile.Convert(cell.Fg),
-				Background: d.colorProfile.Convert(cell.Bg),
+				Foreground: d.convertColor(cell.Fg),
+				Background: d.convertColor(cell.Bg),
 			})); err != nil {
 				return fmt.Errorf("queue: %w", err)
 			}
@@ -202,6 +202,18 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 	return nil
 }
 
+// convertColor returns the color as supported by the terminal, [ResetColor] if
+// there is no such color.
+func (d *DefaultBackend) convertColor(color Color) Color {
+	converted := d.colorProfile.Convert(color)
+
+	if converted == nil || converted.Sequence(false) == "" {
+		return ResetColor{}
+	}
+
+	return converted
+}
+
 // Flush implements TerminalBackend.
 func (d *DefaultBackend) Flush() error {
 	return d.discardFailed(d.outputBuf.Flush())
@@ -349,6 +361,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -385,6 +409,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From 90166cfd76ba6053e8a75b9e95c7fd391e37ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 11/45] fix: decode input that is split at the end of the read
 buffer

Keys, mouse events and characters cut by a full read were torn apart, focus
reports followed by more input were dropped, a mouse report later in the input
was taken for the first one, and U+FFFD was reported as an invalid byte.
---
 input.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/input.go b/input.go
index 4490cb3..ed1f459 100644
--- a/input.go
+++ b/input.go
@@ -610,10 +610,31 @@ loop:
 
 var (
 	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	partialCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
+	partialX10Re  = regexp.MustCompile(`^(?s)\x1b\[M.{0,2}$`)
+	mouseSGRRegex = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
+// isPartial reports whether b is only the beginning of an event.
+func isPartial(b []byte) bool {
+	if partialCSIRe.Match(b) || partialX10Re.Match(b) {
+		return true
+	}
+
+	for seq := range extSequences {
+		if len(seq) > len(b) && strings.HasPrefix(seq, string(b)) {
+			return true
+		}
+	}
+
+	return !utf8.FullRune(bytes.TrimPrefix(b, []byte{'\x1b'}))
+}
+
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
+	if canHaveMoreData && isPartial(b) {
+		return 0, nil
+	}
+
 	// Detect mouse events.
 	// X10 mouse events have a length of 6 bytes
 	const mouseEventX10Len = 6
@@ -673,7 +694,7 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	for rw := 0; i < len(b); i += rw {
 		var r rune
 		r, rw = utf8.DecodeRune(b[i:])
-		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
+		if r == utf8.RuneError && rw <= 1 || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
 			break
@@ -720,9 +741,16 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
 	switch {
-	case bytes.Equal(input, []byte("\x1b[I")):
+	case bytes.HasPrefix(input, []byte("\x1b[I")):
 		return true, 3, FocusMsg{}
-	case bytes.Equal(input, []byte("\x1b[O")):
+	case bytes.HasPrefix(input, []byte("\x1b[O")):
+		if len(input) > 3 {
+			// DECCKM keys begin the same way.
+			if _, ok := extSequences[string(input[:4])]; ok {
+				return false, 0, nil
+			}
+		}
+
 		return true, 3, BlurMsg{}
 	}
 	return false, 0, nil
@@ -763,7 +791,7 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 	k := Key{Type: KeyRunes, Paste: true}
 	for len(paste) > 0 {
 		r, w := utf8.DecodeRune(paste)
-		if r != utf8.RuneError {
+		if r != utf8.RuneError || w > 1 {
 			k.Runes = append(k.Runes, r)
 		}
 		paste = paste[w:]
@@ -834,7 +862,7 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 	}
 	// Is this an unknown CSI sequence?
 	if loc := unknownCSIRe.FindIndex(input); loc != nil {
-		return true, loc[1], unknownCSISequenceMsg(input[:loc[1]])
+		return true, loc[1], unknownCSISequenceMsg(bytes.Clone(input[:loc[1]]))
 	}
 
 	return false, 0, nil
-- 
2.43.0


From c72d037caf4cddc3bbe5be475b7f86c2647fdfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 12/45] fix: draw from scratch after a failed draw

A draw that failed half way left its content in the buffer the next frame is
rendered into, and the next difference was computed against a frame the
terminal does not show. Likewise for a failed clear.
---
 terminal.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 9e71d4a..e4b68f1 100644
--- a/terminal.go
+++ b/terminal.go
@@ -26,6 +26,10 @@ type Terminal struct {
 
 	hiddenCursor bool
 
+	// dirty reports that the last attempt to draw or to clear the terminal
+	// did not succeed: what the terminal shows is unknown.
+	dirty bool
+
 	frameCount int
 }
 
@@ -118,6 +122,14 @@ func (t *Terminal) DisableRawMode() error {
 }
 
 func (t *Terminal) Draw(widget Widget) (CompletedFrame, error) {
+	if t.dirty {
+		if err := t.startOver(); err != nil {
+			return CompletedFrame{}, fmt.Errorf("start over: %w", err)
+		}
+	}
+
+	t.dirty = true
+
 	frame := t.GetFrame()
 
 	frame.RenderWidget(widget, frame.Area())
@@ -146,6 +158,8 @@ func (t *Terminal) Draw(widget Widget) (CompletedFrame, error) {
 		return CompletedFrame{}, fmt.Errorf("backend flush: %w", err)
 	}
 
+	t.dirty = false
+
 	completedFrame := CompletedFrame{
 		buffer: t.PreviousBuffer(),
 		area:   t.lastKnownArea,
@@ -157,6 +171,19 @@ func (t *Terminal) Draw(widget Widget) (CompletedFrame, error) {
 	return completedFrame, nil
 }
 
+// startOver drops what is left of a failed draw, so that the next frame is
+// drawn from scratch.
+func (t *Terminal) startOver() error {
+	t.CurrentBuffer().Reset()
+
+	// drawing nothing resets colors and attributes
+	if err := t.backend.Draw(nil); err != nil {
+		return fmt.Errorf("draw: %w", err)
+	}
+
+	return t.Clear()
+}
+
 func (t *Terminal) SetCursorPosition(position Position) error {
 	if err := t.backend.SetCursorPosition(position); err != nil {
 		return err
@@ -244,6 +271,18 @@ func (t *Terminal) Resize(area Rect) error {
 }
 
 func (t *Terminal) Clear() error {
+	if err := t.clear(); err != nil {
+		t.dirty = true
+
+		return err
+	}
+
+	t.PreviousBuffer().Reset()
+
+	return nil
+}
+
+func (t *Terminal) clear() error {
 	switch t.viewport.(type) {
 	case ViewportFullscreen:
 		if err := t.backend.ClearAll(); err != nil {
@@ -271,8 +310,6 @@ func (t *Terminal) Clear() error {
 		}
 	}
 
-	t.PreviousBuffer().Reset()
-
 	return nil
 }
 
-- 
2.43.0


From 075033ca158438781c99a5f43b4669e7a42cbda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 13/45] fix: solver symbols collide in layouts of more than a
 dozen constraints

Symbols were numbered by a uint8, which wraps around.
---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..4bca582 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From 59c5caac5ce8f0b6d5bb6dba2d95ba7bf810c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 14/45] fix: padding larger than the area moves the rest to the
 origin

Rect.Inner returned the zero rectangle, which lies outside of the area.
---
 rect.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rect.go b/rect.go
index f531d38..9bc0b61 100644
--- a/rect.go
+++ b/rect.go
@@ -54,14 +54,11 @@ func (r Rect) Inner(padding Padding) Rect {
 	horizontal := padding.Right + padding.Left
 	vertical := padding.Top + padding.Bottom
 
-	if r.Width < horizontal || r.Height < vertical {
-		return Rect{}
-	}
-
+	// too large a padding leaves an empty area, but one inside of r
 	return Rect{
 		Position: NewPosition(
-			r.X+padding.Left,
-			r.Y+padding.Top,
+			r.X+min(padding.Left, r.Width),
+			r.Y+min(padding.Top, r.Height),
 		),
 		Width:  max(0, r.Width-horizontal),
 		Height: max(0, r.Height-vertical),
-- 
2.43.0


From 0cac63727543e4449161ae3b3ca5d749fa3cd855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 15/45] fix: layouts derived from one another overwrite each
 other's constraints

WithConstraints appended to the array the original shares.
---
 layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout.go b/layout.go
index f6f1b9c..029114b 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,8 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	// clipped, as other layouts may share the underlying array
+	l.Constraints = append(slices.Clip(l.Constraints), constraints...)
 	return l
 }
 
-- 
2.43.0


From f7d8e339b00caf428f54cda1534aa8fb29049490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 16/45] fix: the result of a split depends on map iteration
 order

Wherever several pivots were possible, the solver took whichever its maps
yielded first, so that the same split could give different areas each time.
---
 internal/casso/solver.go | 63 ++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 4bca582..97ebeb6 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -234,8 +234,11 @@ func (s *Solver) addWithArtificialVariable(row _Row) (bool, error) {
 }
 
 func (s *Solver) optimize(objective *_Row) error {
-	for {
-		entering := getEnteringSymbol(*objective)
+	// taking the oldest symbol is slower, but never runs in circles
+	const maxSteepest = 1000
+
+	for pivots := 0; ; pivots++ {
+		entering := getEnteringSymbol(*objective, pivots >= maxSteepest)
 		if entering.Type == SymbolTypeInvalid {
 			return nil
 		}
@@ -303,7 +306,7 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 			if temp < 0 {
 				tempRatio := -r.constant / temp
 
-				if tempRatio < ratio {
+				if !ok || tempRatio < ratio || tempRatio == ratio && s.Value < found.Value {
 					ratio = tempRatio
 					found = s
 					ok = true
@@ -429,10 +432,12 @@ func (s *Solver) getVarSymbol(v Variable) _Symbol {
 }
 
 func chooseSubject(row _Row, tag _Tag) _Symbol {
-	for s := range row.cells {
-		if s.Type == SymbolTypeExternal {
-			return s
-		}
+	external := firstSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeExternal
+	})
+
+	if external.Type != SymbolTypeInvalid {
+		return external
 	}
 
 	for _, s := range []_Symbol{tag.marker, tag.other} {
@@ -457,23 +462,49 @@ func allDummies(row _Row) bool {
 	return true
 }
 
-func getEnteringSymbol(objective _Row) _Symbol {
+// getEnteringSymbol returns the symbol that lowers the objective most, or just
+// the oldest one that lowers it.
+func getEnteringSymbol(objective _Row, oldest bool) _Symbol {
+	if oldest {
+		return firstSymbol(objective, func(s _Symbol, v float64) bool {
+			return s.Type != SymbolTypeDummy && v < 0
+		})
+	}
+
+	found := newInvalidSymbol()
+	lowest := 0.0
+
 	for s, v := range objective.cells {
-		if s.Type != SymbolTypeDummy && v < 0 {
-			return s
+		if s.Type == SymbolTypeDummy || v >= 0 {
+			continue
+		}
+
+		if v < lowest || v == lowest && s.Value < found.Value {
+			found = s
+			lowest = v
 		}
 	}
 
-	return newInvalidSymbol()
+	return found
 }
 
 func anyPivotableSymbol(row _Row) _Symbol {
-	for s := range row.cells {
-		switch s.Type {
-		case SymbolTypeSlack, SymbolTypeError:
-			return s
+	return firstSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeSlack || s.Type == SymbolTypeError
+	})
+}
+
+// firstSymbol returns the oldest symbol of the row that satisfies the
+// predicate, or an invalid symbol. Always taking the oldest one makes the
+// solution independent of the iteration order of maps.
+func firstSymbol(row _Row, ok func(s _Symbol, coefficient float64) bool) _Symbol {
+	found := newInvalidSymbol()
+
+	for s, v := range row.cells {
+		if ok(s, v) && (found.Type == SymbolTypeInvalid || s.Value < found.Value) {
+			found = s
 		}
 	}
 
-	return newInvalidSymbol()
+	return found
 }
-- 
2.43.0


From 5740c0421f527f99f10619e5dd0e9b47d1839c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 17/45] fix: editing in the input widget garbles the text

Inserting and deleting work on a slice whose array other slices share, text
typed next to a character it combines with stays separate, and deleting the
word before the cursor leaves an empty character behind at the start.
---
 widget/inputwidget/state.go | 65 ++++++++++++-------------------------
 1 file changed, 21 insertions(+), 44 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..660eac9 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -1,12 +1,9 @@
 package inputwidget
 
 import (
-	"slices"
-
 	"github.com/metafates/bento"
 	"github.com/metafates/bento/internal/grapheme"
 	"github.com/metafates/bento/internal/sliceutil"
-	"github.com/rivo/uniseg"
 )
 
 var _ bento.TryUpdater = (*State)(nil)
@@ -57,11 +54,21 @@ func (s *State) MoveCursorEnd() {
 }
 
 func (s *State) Append(content string) {
-	graphemes := uniseg.NewGraphemes(content)
+	before, after := s.graphemes[:s.cursor], s.graphemes[s.cursor:]
 
-	for graphemes.Next() {
-		s.graphemes = slices.Insert(s.graphemes, s.cursor, grapheme.New(graphemes.Str()))
-		s.MoveCursorRight()
+	s.setContent(before.String()+content, after.String())
+}
+
+// setContent replaces the text with before followed by after and puts the cursor between them.
+//
+// The text is split into graphemes anew, since what is next to each other now may be a single one.
+// The cursor goes after such a grapheme.
+func (s *State) setContent(before, after string) {
+	s.graphemes = grapheme.NewGraphemes(before + after)
+	s.cursor = 0
+
+	for size := 0; size < len(before); s.cursor++ {
+		size += len(s.graphemes[s.cursor].String())
 	}
 }
 
@@ -71,45 +78,23 @@ func (s *State) DeleteLine() {
 }
 
 func (s *State) DeleteWordUnderCursor() {
-	current := s.underCursor()
+	start := s.cursor
 
-	// exit early
-	if current.IsEmpty() {
-		return
+	for start > 0 && s.graphemes[start-1].IsWhitespace() {
+		start--
 	}
 
-	if current.IsWhitespace() {
-		s.deleteWhile(func(g grapheme.Grapheme) bool { return g.IsWhitespace() })
+	for start > 0 && !s.graphemes[start-1].IsWhitespace() {
+		start--
 	}
 
-	s.deleteWhile(func(g grapheme.Grapheme) bool { return !g.IsEmpty() && !g.IsWhitespace() })
-}
-
-func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
-	before, under, after := s.splitAtCursor()
-
-	current := under
-
-	for cond(current) {
-		if len(before) == 0 {
-			current = grapheme.Grapheme{}
-			break
-		}
-		s.MoveCursorLeft()
-
-		current = before[len(before)-1]
-		before = before[:len(before)-1]
-	}
-
-	s.graphemes = append(before, current)
-	s.graphemes = append(s.graphemes, after...)
+	s.setContent(s.graphemes[:start].String(), s.graphemes[s.cursor:].String())
 }
 
 func (s *State) DeleteUnderCursor() {
 	before, _, after := s.splitAtCursor()
 
-	s.graphemes = append(before, after...)
-	s.MoveCursorLeft()
+	s.setContent(before.String(), after.String())
 }
 
 func (s *State) MoveWordRight() {
@@ -179,14 +164,6 @@ func (s *State) clampCursor(cursor int) int {
 	return cursor
 }
 
-func (s *State) underCursor() grapheme.Grapheme {
-	if len(s.graphemes) == 0 || s.cursor == 0 {
-		return grapheme.Empty()
-	}
-
-	return s.graphemes[s.cursor-1]
-}
-
 func (s *State) isEmpty() bool {
 	if s.graphemes == nil {
 		return true
-- 
2.43.0


From b3901a7d1c55bfe46609a8ac6f45ce8546098e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 18/45] fix: the input widget panics in a narrow area or hides
 the cursor

---
 widget/inputwidget/input.go | 34 +++++++++-----------
 widget/inputwidget/state.go | 64 +++++++++++--------------------------
 2 files changed, 33 insertions(+), 65 deletions(-)

diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..398dd9b 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -117,17 +117,25 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 		Unwrap()
 
 	inputWidth := area.Width - uniseg.StringWidth(i.prompt) - 1 // 1 for cursor
-	firstVisibleIndex, lastVisibleIndex := state.getBounds(inputWidth)
+
+	content := *state
+	if state.isEmpty() {
+		content = State{graphemes: i.placeholder}
+	}
+
+	firstVisibleIndex, lastVisibleIndex := content.getBounds(inputWidth)
 
 	state.offset = firstVisibleIndex
 
-	tempState := State{
-		cursor:    state.cursor - state.offset,
-		graphemes: sliceutil.Take(sliceutil.Skip(state.graphemes, state.offset), lastVisibleIndex-firstVisibleIndex),
-		offset:    state.offset,
-	}
+	before, cursor, after := i.split(State{
+		cursor:    content.cursor - firstVisibleIndex,
+		graphemes: sliceutil.Take(sliceutil.Skip(content.graphemes, firstVisibleIndex), lastVisibleIndex-firstVisibleIndex),
+	})
 
-	before, cursor, after := i.split(tempState)
+	if state.isEmpty() {
+		cursor = cursor.WithStyle(i.placeholderStyle)
+		after = after.WithStyle(i.placeholderStyle)
+	}
 
 	if state.showCursor {
 		cursor = cursor.WithStylePatch(i.cursorStyle)
@@ -154,18 +162,6 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 }
 
 func (i Input) split(state State) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
-	if state.isEmpty() {
-		placeholder := i.placeholder
-		if len(placeholder) == 0 {
-			return textwidget.NewSpan(""), textwidget.NewSpan(""), textwidget.NewSpan("")
-		}
-
-		cursor := textwidget.NewSpan(placeholder[0].String()).WithStyle(i.placeholderStyle)
-		after := textwidget.NewSpan(placeholder[1:].String()).WithStyle(i.placeholderStyle)
-
-		return textwidget.NewSpan(""), cursor, after
-	}
-
 	before, under, after := state.splitAtCursor()
 
 	before = append(before, under)
diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index 660eac9..ce6efe1 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -3,7 +3,6 @@ package inputwidget
 import (
 	"github.com/metafates/bento"
 	"github.com/metafates/bento/internal/grapheme"
-	"github.com/metafates/bento/internal/sliceutil"
 )
 
 var _ bento.TryUpdater = (*State)(nil)
@@ -193,62 +192,35 @@ func (s *State) splitAtCursor() (before grapheme.Graphemes, under grapheme.Graph
 	return before, under, after
 }
 
+// getBounds returns the range of graphemes to show. The one at the cursor is always among them and,
+// if there is enough space, so is the one before it. maxWidth does not include the additional cell the cursor needs at the end of the text.
 func (s *State) getBounds(maxWidth int) (int, int) {
-	if len(s.graphemes) == 0 {
-		return 0, 0
-	}
-
-	offset := min(s.offset, max(0, len(s.graphemes)-1))
-
-	firstVisibleIndex := offset
-	lastVisibleIndex := offset
-
-	var widthFromOffset int
-
-	for _, g := range sliceutil.Skip(s.graphemes, offset) {
-		if widthFromOffset+g.Width() > maxWidth {
-			break
-		}
-
-		widthFromOffset += g.Width()
-
-		lastVisibleIndex++
-	}
+	firstVisibleIndex := min(s.offset, max(0, s.cursor-1))
 
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
+	// up to and including the grapheme at the cursor
+	toCursor := s.graphemes[:min(s.cursor+1, len(s.graphemes))]
+	if s.cursor < len(s.graphemes) {
+		// there is no need for the additional cell
+		maxWidth++
 	}
 
-	for indexToDisplay >= lastVisibleIndex {
-		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
-
-		lastVisibleIndex++
+	width := toCursor[firstVisibleIndex:].Width()
 
-		for widthFromOffset > maxWidth {
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[firstVisibleIndex].Width())
-
-			firstVisibleIndex++
-		}
+	for firstVisibleIndex < s.cursor && width > maxWidth {
+		width -= s.graphemes[firstVisibleIndex].Width()
+		firstVisibleIndex++
 	}
 
-	for indexToDisplay < firstVisibleIndex {
-		firstVisibleIndex--
+	lastVisibleIndex := len(toCursor)
 
-		widthFromOffset += s.graphemes[firstVisibleIndex].Width()
+	for _, g := range s.graphemes[len(toCursor):] {
+		width += g.Width()
 
-		for widthFromOffset > maxWidth {
-			lastVisibleIndex--
-
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[lastVisibleIndex].Width())
+		if width > maxWidth {
+			break
 		}
-	}
 
-	if s.cursor-firstVisibleIndex >= lastVisibleIndex {
-		diff := s.cursor - lastVisibleIndex
-
-		firstVisibleIndex += diff
-		lastVisibleIndex += diff
+		lastVisibleIndex++
 	}
 
 	return firstVisibleIndex, lastVisibleIndex
-- 
2.43.0


From 33657414f47927ddce6a0620631fbf9b0b9d2128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 19/45] fix: moving beyond the last item selects the first one

---
 widget/listwidget/state.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..b829c2b 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -65,7 +65,7 @@ func (s *State) update(key bento.Key) bool {
 }
 
 func (s *State) SetOffset(offset int) {
-	s.offset = offset
+	s.offset = max(0, offset)
 }
 
 func (s *State) Select(index int) {
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = addSaturated(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,17 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(addSaturated(selected, amount))
+}
+
+// addSaturated adds amount to index. Indices after the last item are as large as an int can be,
+// see [State.SelectLast], so the result must not overflow.
+func addSaturated(index, amount int) int {
+	if amount > math.MaxInt-index {
+		return math.MaxInt
+	}
+
+	return index + amount
 }
 
 func (s *State) ScrollUpBy(amount int) {
-- 
2.43.0


From c2b4c0ddf018e4f11cc09f1109f75e14ea66a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 20/45] fix: WithLeft sets the padding at the bottom

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From a47812de243a5826a73e8398b132865b1bb1bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 21/45] fix: the gauge takes any ratio and draws beyond the
 buffer

---
 widget/gaugewidget/gauge.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..022e59b 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,7 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
@@ -147,8 +147,10 @@ func (g Gauge) render(area bento.Rect, buffer *bento.Buffer) {
 
 	frac := math.Mod(filledWidth, 1)
 
-	for y := area.Top(); y < area.Bottom(); y++ {
-		for x := area.Left(); x < end; x++ {
+	visible := area.Intersection(buffer.Area())
+
+	for y := visible.Top(); y < visible.Bottom(); y++ {
+		for x := visible.Left(); x < min(end, visible.Right()); x++ {
 			pos := bento.NewPosition(x, y)
 
 			if x < labelCol || x >= labelCol+clampedLabelWidth || y != labelRow {
@@ -158,8 +160,8 @@ func (g Gauge) render(area bento.Rect, buffer *bento.Buffer) {
 			}
 		}
 
-		if g.useUnicode && g.ratio < 1 {
-			buffer.CellAt(bento.NewPosition(end, y)).SetSymbol(getUnicodeBlock(frac))
+		if pos := bento.NewPosition(end, y); g.useUnicode && visible.Contains(pos) {
+			buffer.CellAt(pos).SetSymbol(getUnicodeBlock(frac))
 		}
 	}
 
-- 
2.43.0


From d70905a462fdf74d1f091c3e3fbc12950fc25d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 22/45] fix: printing a string outside the buffer panics

---
 buffer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/buffer.go b/buffer.go
index 4078a63..5c715d9 100644
--- a/buffer.go
+++ b/buffer.go
@@ -105,6 +105,10 @@ func (b *Buffer) Reset() {
 //
 // Use [Buffer.SetString] when the maximum amount of characters can be printed.
 func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (int, int) {
+	if y < b.area.Top() || y >= b.area.Bottom() {
+		return x, y
+	}
+
 	remainingWidth := min(maxWidth, max(0, b.area.Right()-x))
 
 	graphemes := uniseg.NewGraphemes(value)
@@ -123,6 +127,11 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 
 		remainingWidth -= width
 
+		if x < b.area.Left() {
+			x += width
+			continue
+		}
+
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
 
 		nextSymbol := x + width
-- 
2.43.0


From dec9aa16585b6e10a126205dc51d6dc52a095731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 23/45] fix: a cell without a visible symbol shifts the rest of
 the row

---
 terminal_backend.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 82c913c..9c6cef7 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -10,6 +10,7 @@ import (
 	"github.com/metafates/bento/internal/ansi"
 	"github.com/metafates/bento/internal/bit"
 	"github.com/muesli/termenv"
+	"github.com/rivo/uniseg"
 )
 
 type TerminalBackend interface {
@@ -184,7 +185,13 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 			bg = cell.Bg
 		}
 
-		if err := d.queue(ansi.Print(cell.Symbol)); err != nil {
+		symbol := cell.Symbol
+		if uniseg.StringWidth(symbol) == 0 {
+			// would not move the cursor to the next cell
+			symbol = " "
+		}
+
+		if err := d.queue(ansi.Print(symbol)); err != nil {
 			return fmt.Errorf("queue: %w", err)
 		}
 	}
-- 
2.43.0


From b6bd28d645d49473738d0db3e77a2ebd19a97a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 24/45] fix: the paragraph panics where its text does not fit

---
 widget/paragraphwidget/paragraph.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 7427a82..d4fa938 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -133,6 +133,8 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buffer *bento.Buffer) {
 	var y int
 
+	visible := area.Intersection(buffer.Area())
+
 	for {
 		currentLine, ok := composer.NextLine()
 		if !ok {
@@ -154,15 +156,26 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 					symbol = " "
 				}
 
+				position := bento.Position{
+					X: area.Left() + x,
+					Y: area.Top() + y - p.Scroll.Y,
+				}
+
+				x += width
+
+				if !visible.Contains(position) || area.Left()+x > visible.Right() {
+					continue
+				}
+
 				buffer.
-					CellAt(bento.Position{
-						X: area.Left() + x,
-						Y: area.Top() + y - p.Scroll.Y,
-					}).
+					CellAt(position).
 					SetSymbol(symbol).
 					SetStyle(grapheme.Style)
 
-				x += width
+				// wide symbol covers the cells next to it
+				for position.X++; position.X < area.Left()+x; position.X++ {
+					buffer.CellAt(position).Reset()
+				}
 			}
 		}
 
@@ -178,7 +191,7 @@ func getLineOffset(lineWidth, textAreaWidth int, alignment bento.Alignment) int
 	switch alignment {
 	case bento.AlignmentCenter:
 		return max(0, textAreaWidth/2-lineWidth/2)
-	case bento.AlignmentLeft:
+	case bento.AlignmentLeft, bento.AlignmentNone:
 		return 0
 	case bento.AlignmentRight:
 		return max(0, textAreaWidth-lineWidth)
-- 
2.43.0


From 3a3f58154b84826b0f02c31a3c05beb8aa05ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 25/45] fix: clear and fill draw outside the buffer, and wide
 symbols over one another

---
 widget/clearwidget/clear.go |  2 ++
 widget/fillwidget/fill.go   | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/widget/clearwidget/clear.go b/widget/clearwidget/clear.go
index aba3f79..ffee83b 100644
--- a/widget/clearwidget/clear.go
+++ b/widget/clearwidget/clear.go
@@ -13,6 +13,8 @@ func New() Clear {
 }
 
 func (Clear) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			buffer.CellAt(bento.NewPosition(x, y)).Reset()
diff --git a/widget/fillwidget/fill.go b/widget/fillwidget/fill.go
index 81a0bf3..48a4833 100644
--- a/widget/fillwidget/fill.go
+++ b/widget/fillwidget/fill.go
@@ -1,6 +1,9 @@
 package fillwidget
 
-import "github.com/metafates/bento"
+import (
+	"github.com/metafates/bento"
+	"github.com/rivo/uniseg"
+)
 
 var _ bento.Widget = (*Fill)(nil)
 
@@ -22,6 +25,11 @@ func (f Fill) WithStyle(style bento.Style) Fill {
 }
 
 func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
+	// wide symbol covers the cells next to it
+	width := max(1, uniseg.StringWidth(f.Symbol))
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			pos := bento.NewPosition(x, y)
@@ -30,7 +38,10 @@ func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
 
 			cell.Reset()
 			cell.SetStyle(f.Style)
-			cell.SetSymbol(f.Symbol)
+
+			if (x-area.Left())%width == 0 && x+width <= area.Right() {
+				cell.SetSymbol(f.Symbol)
+			}
 		}
 	}
 }
-- 
2.43.0


From 31cd7d8e1ad52b6ea3f34c184596dbf5767f1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 26/45] fix: the block draws beyond the buffer, titles over the
 border, and shares titles

The area left for the content could be outside of that of the block, too.
---
 widget/blockwidget/block.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..1c551f2 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
@@ -140,13 +140,7 @@ func (b Block) Inner(area bento.Rect) bento.Rect {
 		inner.Height = max(0, inner.Height-1)
 	}
 
-	inner.X = inner.X + b.padding.Left
-	inner.Y = inner.Y + b.padding.Top
-
-	inner.Width = max(0, inner.Width-b.padding.Left-b.padding.Right)
-	inner.Height = max(0, inner.Height-b.padding.Top-b.padding.Bottom)
-
-	return inner
+	return inner.Inner(b.padding)
 }
 
 func (b Block) hasTitleAtPosition(position TitlePosition) bool {
@@ -165,7 +159,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
@@ -351,14 +345,7 @@ func (b Block) renderCenterTitles(position TitlePosition, area bento.Rect, buffe
 
 	titlesArea := b.titlesArea(area, position)
 
-	titlesArea = bento.Rect{
-		Position: bento.Position{
-			X: titlesArea.Left() + max(0, titlesArea.Width-totalWidth)/2,
-			Y: titlesArea.Y,
-		},
-		Width:  titlesArea.Width,
-		Height: titlesArea.Height,
-	}
+	titlesArea = titlesArea.IndentX(max(0, titlesArea.Width-totalWidth) / 2)
 
 	for _, t := range titles {
 		if titlesArea.IsEmpty() {
-- 
2.43.0


From fc983e9f24763ff40c9ebde339c4fd60c8782080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 27/45] fix: horizontal scroll bars are at the wrong side and
 draw outside their area

---
 widget/scrollwidget/scroll.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..cdf707d 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -98,7 +98,7 @@ func (s Scroll) RenderStateful(area bento.Rect, buffer *bento.Buffer, state Stat
 		symbol, style := bar.Symbol, bar.Style
 		x, y := areas[i].X, areas[i].Y
 
-		buffer.SetString(x, y, symbol, style)
+		buffer.SetStringN(x, y, symbol, area.Right()-x, style)
 	}
 }
 
@@ -265,7 +265,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[0], true
+		return rows[len(rows)-1], true
 
 	case OrientationHorizontalTop:
 		rows := area.Rows()
@@ -273,7 +273,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[len(rows)-1], true
+		return rows[0], true
 
 	default:
 		return bento.Rect{}, false
-- 
2.43.0


From 7f61809e787b947bbab7fb80408a717679ea8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 28/45] fix: texts and lines derived from one another overwrite
 each other

---
 widget/textwidget/line.go | 4 ++--
 widget/textwidget/text.go | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..08c7e86 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -133,12 +133,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = append(slices.Clip(l.Spans), spans...)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..56072ac 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = append(slices.Clip(t.Lines), lines...)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = append(slices.Clip(t.Lines), NewLinesStr(lines...)...)
 	return t
 }
 
-- 
2.43.0


From 735e5290518178c66c01f23efc33b567cda4b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 29/45] fix: a paragraph that is not wrapped puts all of its
 lines into one row

---
 internal/reflow/truncator.go | 73 +++++++++++++++---------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..6de3844 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,64 +35,53 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	if len(lt.inputLines) == 0 {
+		return WrappedLine{}, false
+	}
+
+	line := lt.inputLines[0]
+	lt.inputLines = lt.inputLines[1:]
+	lt.currentLine = lt.currentLine[:0]
 
 	var currentLineWidth int
 
-	linesExhausted := true
 	horizontalOffset := lt.horizontalOffset
-	currentAlignment := bento.AlignmentLeft
-
-	var lastIndex int
-	for i, line := range lt.inputLines {
-		lastIndex = i
-		currentLine := line.Graphemes
-		currentAlignment = line.Alignment
-		alignment := line.Alignment
-		linesExhausted = false
-
-		for _, g := range currentLine {
-			if g.Width() > lt.maxLineWidth {
-				continue
-			}
 
-			if currentLineWidth+g.Width() > lt.maxLineWidth {
-				break
-			}
+	for _, g := range line.Graphemes {
+		if g.Width() > lt.maxLineWidth {
+			continue
+		}
+
+		if currentLineWidth+g.Width() > lt.maxLineWidth {
+			break
+		}
 
-			var symbol string
+		var symbol string
 
-			if horizontalOffset == 0 || alignment != bento.AlignmentLeft {
-				symbol = g.String()
+		if horizontalOffset == 0 || line.Alignment != bento.AlignmentLeft {
+			symbol = g.String()
+		} else {
+			width := g.Width()
+
+			if width > horizontalOffset {
+				symbol = trimOffset(g.String(), horizontalOffset)
+				horizontalOffset = 0
 			} else {
-				width := g.Width()
-
-				if width > horizontalOffset {
-					symbol = trimOffset(g.String(), horizontalOffset)
-					horizontalOffset = 0
-				} else {
-					horizontalOffset -= width
-				}
+				horizontalOffset -= width
 			}
-
-			currentLineWidth += uniseg.StringWidth(symbol)
-			lt.currentLine = append(lt.currentLine, textwidget.StyledGrapheme{
-				Style:    g.Style,
-				Grapheme: grapheme.New(symbol),
-			})
 		}
-	}
-
-	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
 
-	if linesExhausted {
-		return WrappedLine{}, false
+		currentLineWidth += uniseg.StringWidth(symbol)
+		lt.currentLine = append(lt.currentLine, textwidget.StyledGrapheme{
+			Style:    g.Style,
+			Grapheme: grapheme.New(symbol),
+		})
 	}
 
 	return WrappedLine{
 		Line:      lt.currentLine,
 		Width:     currentLineWidth,
-		Alignment: currentAlignment,
+		Alignment: line.Alignment,
 	}, true
 }
 
-- 
2.43.0


From c6cc3959830b36cddf1c19dd2dec592e3814d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 30/45] fix: wrapping loses wide characters and the state of
 one line leaks into the next

Clearing a slice keeps its length, so words and lines that were already
shown counted as pending: leading blanks were kept when trimming and words
wider than the area were not split. A wide character could end up half
outside of the row.
---
 internal/reflow/wrapper.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..5ac82b1 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -78,7 +78,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -88,13 +88,13 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth >= ww.maxLineWidth
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -119,6 +119,13 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			if isWhitespace && ww.pendingWhitespace.IsEmpty() {
 				continue
 			}
+
+			// the word on a line of its own leaves no room for a wide symbol
+			if wordWidth+symbolWidth > ww.maxLineWidth {
+				ww.wrappedLines.PushBack(slices.Clone(ww.pendingWord))
+				ww.pendingWord = ww.pendingWord[:0]
+				wordWidth = 0
+			}
 		}
 
 		if isWhitespace {
@@ -142,7 +149,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From c3b0f9c3e867ab6a4e3fe67dcc39976c89068e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 31/45] fix: texts lose everything from a line longer than 64
 KiB on

---
 widget/textwidget/line.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 08c7e86..b166801 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -1,7 +1,6 @@
 package textwidget
 
 import (
-	"bufio"
 	"slices"
 	"strings"
 
@@ -24,12 +23,8 @@ func NewLinesStr(s ...string) Lines {
 	if joined == "" {
 		lines = []Line{NewLineStr("")}
 	} else {
-		scanner := bufio.NewScanner(strings.NewReader(joined))
-
-		for scanner.Scan() {
-			line := NewLineStr(scanner.Text())
-
-			lines = append(lines, line)
+		for _, s := range splitLines(joined) {
+			lines = append(lines, NewLineStr(s))
 		}
 	}
 
@@ -107,19 +102,31 @@ func NewLine(spans ...Span) Line {
 }
 
 func NewLineStr(s string) Line {
-	lines := bufio.NewScanner(strings.NewReader(s))
-
 	var spans []Span
 
-	for lines.Scan() {
-		line := lines.Text()
-
+	for _, line := range splitLines(s) {
 		spans = append(spans, NewSpan(line))
 	}
 
 	return NewLine(spans...)
 }
 
+// splitLines returns the lines of s without their endings.
+// The line ending after the last line is optional.
+func splitLines(s string) []string {
+	if s == "" {
+		return nil
+	}
+
+	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
+
+	for i, line := range lines {
+		lines[i] = strings.TrimSuffix(line, "\r")
+	}
+
+	return lines
+}
+
 func (l Line) String() string {
 	var b strings.Builder
 
-- 
2.43.0


From 3527bb8b4f595d03c052c66290be22186a66415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 32/45] fix: a span whose start is cut off disappears if it
 starts with a zero-width character

---
 widget/textwidget/span.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 7c6848f..e022b76 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -179,13 +179,9 @@ func unicodeTruncateStart(s string, maxWidth int) (string, int) {
 		return s, currentWidth
 	}
 
-	for {
+	for s != "" {
 		_, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
 
-		if width == 0 {
-			break
-		}
-
 		currentWidth -= width
 
 		if currentWidth <= maxWidth {
-- 
2.43.0


From b71327b9f872f4e6868d1041f09fcae7b3167100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 33/45] fix: horizontal scroll bars leave a cell for arrows
 they do not have

---
 widget/scrollwidget/scroll.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index cdf707d..21d892d 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -112,7 +112,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var begin *_Symbol
 
-	if s.beginSymbol != nil {
+	if s.beginSymbol != nil && *s.beginSymbol != "" {
 		begin = &_Symbol{
 			Symbol: *s.beginSymbol,
 			Style:  s.beginStyle,
@@ -135,7 +135,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var end *_Symbol
 
-	if s.endSymbol != nil {
+	if s.endSymbol != nil && *s.endSymbol != "" {
 		end = &_Symbol{
 			Symbol: *s.endSymbol,
 			Style:  s.endStyle,
@@ -143,7 +143,10 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	}
 
 	// <
-	symbols := []*_Symbol{begin}
+	var symbols []*_Symbol
+	if begin != nil {
+		symbols = append(symbols, begin)
+	}
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -155,7 +158,9 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	if end != nil {
+		symbols = append(symbols, end)
+	}
 
 	return symbols
 }
-- 
2.43.0


From ff09844baadd3cb1d960ff60501496f0084dc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 34/45] fix: put the style of an aligned line on the line

A centred or right-aligned line was drawn at its place, but its style was put
on the cells at the left of the area.
---
 widget/textwidget/line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index b166801..e49ebb7 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -239,8 +239,6 @@ func (l Line) renderWithAlignment(
 		Height:   1,
 	}
 
-	buffer.SetStyle(area.WithWidth(min(area.Width, lineWidth)), l.Style)
-
 	alignment := l.Alignment
 	if alignment == bento.AlignmentNone {
 		alignment = parentAlignment
@@ -264,6 +262,7 @@ func (l Line) renderWithAlignment(
 
 		area = area.IndentX(indentWidth)
 
+		buffer.SetStyle(area.WithWidth(lineWidth), l.Style)
 		renderSpans(l.Spans, area, buffer, 0)
 	} else {
 		// There is not enough space to render the whole line. As the right side is truncated by
@@ -279,6 +278,7 @@ func (l Line) renderWithAlignment(
 			skipWidth = max(0, lineWidth-areaWidth)
 		}
 
+		buffer.SetStyle(area, l.Style)
 		renderSpans(l.Spans, area, buffer, skipWidth)
 	}
 }
-- 
2.43.0


From cc48f1fb65c3e61014a7ed7861867c377d8574e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 35/45] fix: clear nothing but the viewport

Clearing a terminal with a fixed viewport, which also happens when it is
resized and after a failed draw, erased everything below it and the rows it
is in, on both sides.
---
 terminal.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/terminal.go b/terminal.go
index e4b68f1..c865674 100644
--- a/terminal.go
+++ b/terminal.go
@@ -297,16 +297,26 @@ func (t *Terminal) clear() error {
 			return fmt.Errorf("clear after cursor: %w", err)
 		}
 	case ViewportFixed:
+		// clearing to the end of a line or of the screen would erase more than the viewport
 		area := t.viewportArea
 
+		var cells []PositionedCell
+
 		for y := area.Top(); y < area.Bottom(); y++ {
-			if err := t.backend.SetCursorPosition(Position{X: 0, Y: y}); err != nil {
-				return fmt.Errorf("set cursor position: %w", err)
+			for x := area.Left(); x < area.Right(); x++ {
+				cells = append(cells, PositionedCell{
+					Cell:     NewEmptyCell(),
+					Position: Position{X: x, Y: y},
+				})
 			}
+		}
 
-			if err := t.backend.ClearAfterCursor(); err != nil {
-				return fmt.Errorf("clear after cursor: %w", err)
-			}
+		if err := t.backend.Draw(cells); err != nil {
+			return fmt.Errorf("draw: %w", err)
+		}
+
+		if err := t.backend.Flush(); err != nil {
+			return fmt.Errorf("flush: %w", err)
 		}
 	}
 
-- 
2.43.0


From 56365615ce28cc15febd34a4ac7e8cfce06e55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 36/45] fix: restore the settings from before raw mode

Enabling raw mode twice made disabling it restore raw mode.
---
 terminal_backend.go         | 4 ++++
 terminal_backend_unix.go    | 5 ++++-
 terminal_backend_windows.go | 9 +++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 9c6cef7..5be7ca8 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -92,6 +92,8 @@ func (d *DefaultBackend) DisableRawMode() error {
 		if ok {
 			if err := term.Restore(fd, d.prevInputState); err != nil {
 				errs = append(errs, fmt.Errorf("restore input: %w", err))
+			} else {
+				d.prevInputState = nil
 			}
 		}
 	}
@@ -101,6 +103,8 @@ func (d *DefaultBackend) DisableRawMode() error {
 		if ok {
 			if err := term.Restore(fd, d.prevOutputState); err != nil {
 				errs = append(errs, fmt.Errorf("restore output: %w", err))
+			} else {
+				d.prevOutputState = nil
 			}
 		}
 	}
diff --git a/terminal_backend_unix.go b/terminal_backend_unix.go
index b6537ce..1baea94 100644
--- a/terminal_backend_unix.go
+++ b/terminal_backend_unix.go
@@ -13,7 +13,10 @@ func (d *DefaultBackend) EnableRawMode() error {
 			return err
 		}
 
-		d.prevInputState = state
+		// keep the state from before the raw mode if it is enabled already
+		if d.prevInputState == nil {
+			d.prevInputState = state
+		}
 	}
 
 	return nil
diff --git a/terminal_backend_windows.go b/terminal_backend_windows.go
index a2320cc..456dec5 100644
--- a/terminal_backend_windows.go
+++ b/terminal_backend_windows.go
@@ -19,7 +19,10 @@ func (d *DefaultBackend) EnableRawMode() error {
 			return err
 		}
 
-		d.prevInputState = state
+		// keep the state from before the raw mode if it is enabled already
+		if d.prevInputState == nil {
+			d.prevInputState = state
+		}
 
 		// Enable VT input
 		var mode uint32
@@ -39,7 +42,9 @@ func (d *DefaultBackend) EnableRawMode() error {
 			return err
 		}
 
-		d.prevOutputState = state
+		if d.prevOutputState == nil {
+			d.prevOutputState = state
+		}
 
 		var mode uint32
 		if err := windows.GetConsoleMode(windows.Handle(f.Fd()), &mode); err != nil {
-- 
2.43.0


From 4d9bb13a9f2772a86af76395aa45857f32031411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 37/45] fix: apply the padding of a popup once

It was applied to both splits, so a padded popup was less high than asked for.
---
 widget/popupwidget/popup.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index 5d6e1ed..d6f9c89 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -85,12 +85,7 @@ func (p Popup) Right() Popup {
 }
 
 func (p Popup) Inner(area bento.Rect) bento.Rect {
-	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
-	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
-
-	inner := area
-	inner = vertical.Split(inner).Unwrap()
-	inner = horizontal.Split(inner).Unwrap()
+	inner := p.split(area)
 
 	if p.Block != nil {
 		inner = p.Block.Inner(inner)
@@ -100,11 +95,7 @@ func (p Popup) Inner(area bento.Rect) bento.Rect {
 }
 
 func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
-	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
-	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
-
-	area = vertical.Split(area).Unwrap()
-	area = horizontal.Split(area).Unwrap()
+	area = p.split(area)
 
 	clearwidget.New().Render(area, buffer)
 	buffer.SetStyle(area, p.Style)
@@ -113,3 +104,15 @@ func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 		p.Block.Render(area, buffer)
 	}
 }
+
+// split returns the area the popup covers.
+func (p Popup) split(area bento.Rect) bento.Rect {
+	// the padding is around the popup, it must not be applied to both splits
+	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
+	horizontal := bento.NewLayout(p.Width).Horizontal().WithFlex(p.Horizontal)
+
+	area = vertical.Split(area).Unwrap()
+	area = horizontal.Split(area).Unwrap()
+
+	return area
+}
-- 
2.43.0


From a4b914b2e6be0700d7a13667c9228c44d2818917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 38/45] fix: wrapped line of blanks no longer takes two rows

---
 internal/reflow/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 5ac82b1..7ea8429 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -139,7 +139,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious = !isWhitespace
 	}
 
-	if len(pendingLine) == 0 && len(ww.pendingWord) == 0 && !ww.pendingWhitespace.IsEmpty() {
+	if ww.trim && len(pendingLine) == 0 && len(ww.pendingWord) == 0 && !ww.pendingWhitespace.IsEmpty() {
 		ww.wrappedLines.PushBack(nil)
 	}
 
-- 
2.43.0


From 228a5096ac667bf724d77be7c958c01a708e67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:36 +0000
Subject: [PATCH 39/45] fix: trimmed indentation no longer leaves an empty row

---
 internal/reflow/wrapper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 7ea8429..06cdcf2 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -93,8 +93,11 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
-			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			pendingLine = pendingLine[:0]
+			// there may be nothing but whitespace to trim before the word
+			if len(pendingLine) > 0 || !ww.trim {
+				ww.wrappedLines.PushBack(slices.Clone(pendingLine))
+				pendingLine = pendingLine[:0]
+			}
 
 			lineWidth = 0
 
-- 
2.43.0


From ea798a5c58d4cd066251327a1c43de3d1c8115f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 40/45] fix: FlexSpaceAround leaves space before the first and
 after the last segment

---
 layout.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout.go b/layout.go
index 029114b..33714e9 100644
--- a/layout.go
+++ b/layout.go
@@ -428,11 +428,11 @@ func configureFlexConstraints(
 			}
 		}
 	case FlexSpaceAround:
-		if len(spacersExceptFirstAndLast) >= 2 {
-			for _, indices := range combinations(len(spacersExceptFirstAndLast), 2) {
+		if len(spacers) >= 2 {
+			for _, indices := range combinations(len(spacers), 2) {
 				i, j := indices[0], indices[1]
 
-				left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[j]
+				left, right := spacers[i], spacers[j]
 
 				if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
 					return fmt.Errorf("add has size constraint: %w", err)
@@ -440,7 +440,7 @@ func configureFlexConstraints(
 			}
 		}
 
-		for _, s := range spacersExceptFirstAndLast {
+		for _, s := range spacers {
 			err := solver.AddConstraints(
 				s.hasMinSize(spacing, _spacerSizeEq),
 				s.hasSize(area.size(), _spaceGrow),
-- 
2.43.0


From 3dcc4c7070e31603c73b1976900a877591f85d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 41/45] fix: cells after overlapping wide characters are
 redrawn

---
 buffer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/buffer.go b/buffer.go
index 5c715d9..729ba05 100644
--- a/buffer.go
+++ b/buffer.go
@@ -40,8 +40,7 @@ func (b *Buffer) Area() Rect {
 // Diff builds a minimal sequence of coordinates and Cells necessary to update the UI from
 // self to other.
 //
-// We're assuming that buffers are well-formed, that is no double-width cell is followed by
-// a non-blank cell.
+// Cells that are covered by a double-width cell to their left are not shown.
 func (b *Buffer) Diff(other *Buffer) []PositionedCell {
 	prevBuffer := b.content
 	nextBuffer := other.content
@@ -68,7 +67,11 @@ func (b *Buffer) Diff(other *Buffer) []PositionedCell {
 		previousWidth := uniseg.StringWidth(previous.Symbol)
 		currentWidth := uniseg.StringWidth(current.Symbol)
 
-		toSkip = max(0, currentWidth-1)
+		if toSkip > 0 {
+			toSkip--
+		} else {
+			toSkip = max(0, currentWidth-1)
+		}
 
 		affectedWidth := max(previousWidth, currentWidth)
 
-- 
2.43.0


From 9a2af0239e672d8d5925e67a46eadf131514172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 42/45] fix: the style of a zero-width span does not leak into
 the next character

---
 widget/textwidget/span.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index e022b76..1a1d47e 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -52,7 +52,10 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 
 	x, y := area.X, area.Y
 
-	for i, gr := range s.StyledGraphemes(bento.NewStyle()) {
+	// zero-width graphemes before the first one that takes a cell
+	var prefix string
+
+	for _, gr := range s.StyledGraphemes(bento.NewStyle()) {
 		symbolWidth := gr.Width()
 
 		nextX := x + symbolWidth
@@ -61,13 +64,10 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 		}
 
 		switch {
-		case i == 0:
-			// the first grapheme is always set on the cell
-			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
+		case x == area.X && symbolWidth == 0:
+			prefix += gr.String()
 		case x == area.X:
-			// there is one or more zero-width graphemes in the first cell, so the first cell
-			// must be appended to.
-			buffer.CellAt(bento.Position{X: x, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
+			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(prefix + gr.String()).SetStyle(gr.Style)
 		case symbolWidth == 0:
 			// append zero-width graphemes to the previous cell
 			buffer.CellAt(bento.Position{X: x - 1, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
-- 
2.43.0


From 9df55ba5cea5ca4a76fd1f26db5aff03d8ee6668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 43/45] fix: nothing is printed after a span of a line that was
 cut

---
 widget/textwidget/line.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e49ebb7..a243cd3 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -209,6 +209,11 @@ func (l Line) Print(buffer *bento.Buffer, x, y, maxWidth int) (int, int) {
 		x = newX
 
 		remainingWidth = max(0, remainingWidth-w)
+
+		// what follows a span that was cut is cut, too
+		if w < s.Width() {
+			break
+		}
 	}
 
 	return x, y
-- 
2.43.0


From b42f247321c8eab39bcf57255e936f18871d5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 44/45] fix: appending spans to a text changes copies of it as
 well

---
 widget/textwidget/text.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index 56072ac..c5f05bc 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -91,8 +91,10 @@ func (t Text) String() string {
 func AppendTextSpans(text *Text, spans ...Span) {
 	if len(text.Lines) > 0 {
 		last := len(text.Lines) - 1
-		text.Lines[last].Spans = append(text.Lines[last].Spans, spans...)
+		// copies of the text and of its lines share their slices
+		text.Lines = slices.Clone(text.Lines)
+		text.Lines[last] = text.Lines[last].WithSpans(spans...)
 	} else {
-		text.Lines = append(text.Lines, NewLine(spans...))
+		text.Lines = Lines{NewLine(spans...)}
 	}
 }
-- 
2.43.0


From 8d2ba88a9a18852888fce5db1f506c1654223fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 45/45] fix: fills of very different weights make splitting
 panic

---
 layout.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/layout.go b/layout.go
index 33714e9..1359d6d 100644
--- a/layout.go
+++ b/layout.go
@@ -284,6 +284,15 @@ func configureFillConstraints(
 		return nil
 	}
 
+	// the solver can not cope with factors of very different sizes
+	smallestScalingFactor := 1e-6
+
+	for _, c := range validConstraints {
+		if fill, ok := c.(ConstraintFill); ok {
+			smallestScalingFactor = max(smallestScalingFactor, float64(fill)*1e-6)
+		}
+	}
+
 	for _, indices := range combinations(len(validConstraints), 2) {
 		i, j := indices[0], indices[1]
 
@@ -300,8 +309,7 @@ func configureFillConstraints(
 			case ConstraintFill:
 				scale := float64(c)
 
-				scalingFactor = 1e-6
-				scalingFactor = max(scalingFactor, scale)
+				scalingFactor = max(smallestScalingFactor, scale)
 
 			case ConstraintMin:
 				scalingFactor = 1
-- 
2.43.0

