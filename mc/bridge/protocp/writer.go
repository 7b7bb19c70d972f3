package protocp

import (
	"context"

	"google.golang.org/protobuf/proto"
)

// VerifWriter makes a MessageWriter of two functions; only this package can implement the interface.
func VerifWriter(add func(context.Context, proto.Message) error, finalize func(context.Context) error) MessageWriter {
	return &verifWriter{add, finalize}
}

type verifWriter struct {
	add func(context.Context, proto.Message) error
	fin func(context.Context) error
}

func (w *verifWriter) addRow(ctx context.Context, m proto.Message) error { return w.add(ctx, m) }
func (w *verifWriter) finalize(ctx context.Context) error                { return w.fin(ctx) }
