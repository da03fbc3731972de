// Simulated signal delivery, added to package os/signal by the build overlay.

package signal

import "os"

// SimRaise delivers sig the way the runtime's signal goroutine would.
func SimRaise(sig os.Signal) { process(sig) }

// SimWanted reports whether any channel is registered for sig.
func SimWanted(sig os.Signal) bool {
	n := signum(sig)
	handlers.Lock()
	defer handlers.Unlock()
	return n >= 0 && handlers.ref[n] > 0
}

// SimReset forgets every registered channel.
func SimReset() {
	handlers.Lock()
	handlers.m = nil
	handlers.stopping = nil
	for i := range handlers.ref {
		handlers.ref[i] = 0
	}
	handlers.Unlock()
}
