package main

import (
	"io"
	"net/http"
)

// combo gives w with the optional interfaces of the mask only.
func combo(w *fakeWriter, mask int) http.ResponseWriter {
	switch mask {
	case 0:
		return struct{ http.ResponseWriter }{w}
	case 1:
		return struct {
			http.ResponseWriter
			http.Hijacker
		}{w, w}
	case 2:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
		}{w, w}
	case 3:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
		}{w, w, w}
	case 4:
		return struct {
			http.ResponseWriter
			http.Pusher
		}{w, w}
	case 5:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
		}{w, w, w}
	case 6:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
		}{w, w, w}
	case 7:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
		}{w, w, w, w}
	case 8:
		return struct {
			http.ResponseWriter
			http.Flusher
		}{w, w}
	case 9:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Flusher
		}{w, w, w}
	case 10:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Flusher
		}{w, w, w}
	case 11:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
		}{w, w, w, w}
	case 12:
		return struct {
			http.ResponseWriter
			http.Pusher
			http.Flusher
		}{w, w, w}
	case 13:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			http.Flusher
		}{w, w, w, w}
	case 14:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{w, w, w, w}
	case 15:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{w, w, w, w, w}
	case 16:
		return struct {
			http.ResponseWriter
			io.ReaderFrom
		}{w, w}
	case 17:
		return struct {
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
		}{w, w, w}
	case 18:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			io.ReaderFrom
		}{w, w, w}
	case 19:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{w, w, w, w}
	case 20:
		return struct {
			http.ResponseWriter
			http.Pusher
			io.ReaderFrom
		}{w, w, w}
	case 21:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			io.ReaderFrom
		}{w, w, w, w}
	case 22:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{w, w, w, w}
	case 23:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{w, w, w, w, w}
	case 24:
		return struct {
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
		}{w, w, w}
	case 25:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Flusher
			io.ReaderFrom
		}{w, w, w, w}
	case 26:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{w, w, w, w}
	case 27:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{w, w, w, w, w}
	case 28:
		return struct {
			http.ResponseWriter
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, w, w, w}
	case 29:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, w, w, w, w}
	case 30:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, w, w, w, w}
	case 31:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{w, w, w, w, w, w}
	}
	return nil
}
