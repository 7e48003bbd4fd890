package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// lndTexts are texts of errors of lnd, or of the way to it.
var lndTexts = []string{"", "rpc error", "EOF", "transport is closing",
	"already connected to peer: 02aa@10.0.0.1:9735",
	"cannot make connection to self", "dial tcp: i/o timeout",
	"connection refused", "peer is not connected", "peer is not online",
	"unable to find node", "edge not found", "unknown node",
	"unable to find a path to destination",
	"insufficient local balance", "server is shutting down",
	"server is still in the process of starting",
	"wallet locked, unlock it to enable full RPC access",
	"chain backend is still syncing", "context canceled",
	"context deadline exceeded", "permission denied",
	"message subscription failed", "handler not found"}

// lndErr is an error that a call to lnd may fail with: a grpc status with any
// code, what the grpc and lndclient libraries make themselves, or a wrapped
// form of these. Every one of them is unique, so that it can be recognised.
func lndErr(r *rand.Rand) error {
	var err error
	switch r.Intn(4) {
	case 0, 1:
		c := codes.Code(1 + r.Intn(16))
		text := lndTexts[r.Intn(len(lndTexts))]
		err = status.Error(c, fmt.Sprintf("%s %d", text, r.Int()))
	case 2:
		err = fmt.Errorf("lnd: %d: %w", r.Int(), []error{
			context.Canceled, context.DeadlineExceeded, io.EOF,
			io.ErrUnexpectedEOF, io.ErrClosedPipe}[r.Intn(5)])
	default:
		err = fmt.Errorf("%s %d", lndTexts[r.Intn(len(lndTexts))],
			r.Int())
	}
	if r.Intn(4) == 0 {
		err = fmt.Errorf("call %d: %w", r.Int(), err)
	}
	return err
}

// bareErr is lndErr, or a bare error value of another package that code may
// treat in a special way.
func bareErr(r *rand.Rand) error {
	if r.Intn(3) != 0 {
		return lndErr(r)
	}
	return []error{context.Canceled, context.DeadlineExceeded, io.EOF,
		io.ErrUnexpectedEOF, lndclient.ErrNoRouteFound}[r.Intn(5)]
}

// handlerErr is an error of a handler of onion message payloads.
func handlerErr(r *rand.Rand) error {
	if r.Intn(2) == 0 {
		return bareErr(r)
	}
	err := []error{errSim, onionmsg.ErrShuttingDown,
		onionmsg.ErrLNDShutdown, onionmsg.ErrBadMessage,
		onionmsg.ErrBadOnionBlob, onionmsg.ErrHandlerNotFound,
		onionmsg.ErrFinalPayload, errors.New("")}[r.Intn(8)]
	if r.Intn(2) == 0 {
		err = fmt.Errorf("handler %d: %w", r.Int(), err)
	}
	return err
}
