package termemu

// vfRunLoop runs the terminal's read loop to its end in the caller's goroutine.
func vfRunLoop(t *terminal) (err error) {
	defer vfRecover(&err)
	t.ptyReadLoop()
	return nil
}
