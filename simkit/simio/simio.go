// Package simio stands in for the parts of package io that block.
package simio

import (
	"io"

	"verif.local/simkit/simsync"
)

type pipe struct {
	wr, mu     simsync.Mutex
	cond       *simsync.Cond
	data       []byte
	full       bool
	rerr, werr error // set by the reader, the writer
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = simsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

// Read waits for a writer.
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if p.full {
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.full = false
				p.cond.Broadcast()
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

// Close closes the reader.
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError closes the reader.
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil {
		p.rerr = err
	}
	p.cond.Broadcast()
	return nil
}

// Write waits until everything was read.
func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.full = b, true
	p.cond.Broadcast()
	for p.full {
		p.cond.Wait()
		if p.full && (p.rerr != nil || p.werr != nil) {
			n := len(b) - len(p.data)
			p.data, p.full = nil, false
			if p.rerr != nil {
				return n, p.rerr
			}
			return n, io.ErrClosedPipe
		}
	}
	return len(b), nil
}

// Close closes the writer.
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError closes the writer.
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	return nil
}
