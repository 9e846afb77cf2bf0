// Package vslog replaces the handlers of log/slog, which hold a lock while they write,
// in code that runs under the controlled scheduler.
package vslog

import (
	"bytes"
	"context"
	"io"
	"log/slog"

	"github.com/FAU-CDI/hangover/zverif/vsync"
)

func NewTextHandler(w io.Writer, opts *slog.HandlerOptions) slog.Handler {
	return &handler{m: new(vsync.Mutex), w: w, make: func(b *bytes.Buffer) slog.Handler { return slog.NewTextHandler(b, opts) }}
}

func NewJSONHandler(w io.Writer, opts *slog.HandlerOptions) slog.Handler {
	return &handler{m: new(vsync.Mutex), w: w, make: func(b *bytes.Buffer) slog.Handler { return slog.NewJSONHandler(b, opts) }}
}

type handler struct {
	m    *vsync.Mutex
	w    io.Writer
	make func(b *bytes.Buffer) slog.Handler
}

func (h *handler) Enabled(ctx context.Context, l slog.Level) bool {
	return h.make(new(bytes.Buffer)).Enabled(ctx, l)
}

func (h *handler) Handle(ctx context.Context, r slog.Record) error {
	var b bytes.Buffer
	if err := h.make(&b).Handle(ctx, r); err != nil {
		return err
	}
	h.m.Lock()
	defer h.m.Unlock()
	_, err := h.w.Write(b.Bytes())
	return err
}

func (h *handler) WithAttrs(attrs []slog.Attr) slog.Handler {
	return &handler{m: h.m, w: h.w, make: func(b *bytes.Buffer) slog.Handler { return h.make(b).WithAttrs(attrs) }}
}

func (h *handler) WithGroup(name string) slog.Handler {
	return &handler{m: h.m, w: h.w, make: func(b *bytes.Buffer) slog.Handler { return h.make(b).WithGroup(name) }}
}
