// Package simio is package io inside a simulated process. Only pipes differ:
// their two ends wait for each other.
package simio

import (
	"io"

	"btrsim/simrt"
)

type pipe struct {
	busy       bool // a writer's turn
	data       []byte
	writing    bool
	rerr, werr error // of the closed read and write ends
	sv         simrt.SyncVar
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	simrt.Enter("pipe read")
	simrt.Block("pipe read", func() bool { return p.writing || p.rerr != nil || p.werr != nil })
	p.sv.Acquire()
	defer p.sv.Release()
	switch {
	case p.rerr != nil:
		return 0, io.ErrClosedPipe
	case p.writing:
		n := copy(b, p.data)
		if p.data = p.data[n:]; len(p.data) == 0 {
			p.writing = false
		}
		return n, nil
	}
	return 0, p.werr
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	simrt.Enter("pipe write")
	simrt.Block("pipe write", func() bool { return !p.busy || p.rerr != nil || p.werr != nil })
	p.sv.Acquire()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.busy, p.data, p.writing = true, b, true
	p.sv.Release()
	simrt.Block("pipe write", func() bool { return !p.writing || p.rerr != nil || p.werr != nil })
	p.sv.Acquire()
	n := len(b) - len(p.data)
	var err error
	if p.writing {
		if err = p.rerr; err == nil {
			err = io.ErrClosedPipe
		}
	}
	p.busy, p.writing, p.data = false, false, nil
	p.sv.Release()
	return n, err
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	simrt.Enter("pipe close")
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.sv.Release()
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	simrt.Enter("pipe close")
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.sv.Release()
	return nil
}
