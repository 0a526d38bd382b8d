package kit

// ShutdownAsync starts the shutdown of the server; the channel is closed when
// it has completed.
func (w *World) ShutdownAsync() <-chan struct{} {
	w.started = false
	done := make(chan struct{})
	go func() {
		w.Srv.Shutdown()
		close(done)
	}()
	return done
}
