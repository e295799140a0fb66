//go:build go1.21

// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see
// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).

package http

import zzrt "github.com/chanjarster/gears/zzsim/rt"
import (
	"bufio"
	"compress/gzip"
	"container/list"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"github.com/chanjarster/gears/zzsim/zhttp/zinternal/godebug"
	"io"
	"log"
	"net"
	"net/http/httptrace"
	"github.com/chanjarster/gears/zzsim/zhttp/zinternal/ascii"
	"net/textproto"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"
	_ "unsafe"
	"golang.org/x/net/http/httpguts"
	"golang.org/x/net/http/httpproxy"
)

var DefaultTransport RoundTripper = &Transport{Proxy: ProxyFromEnvironment, DialContext: defaultTransportDialContext(&zzrt.NetDialer{Timeout: 30 * time.Second, KeepAlive: 30 * time.Second}), ForceAttemptHTTP2: true, MaxIdleConns: 100, IdleConnTimeout: 90 * time.Second, TLSHandshakeTimeout: 10 * time.Second, ExpectContinueTimeout: 1 * time.Second}

const DefaultMaxIdleConnsPerHost = 2

type Transport struct {
	idleMu	zzrt.Mutex
	closeIdle	bool
	idleConn	map[connectMethodKey][]*persistConn
	idleConnWait	map[connectMethodKey]wantConnQueue
	idleLRU	connLRU
	reqMu	zzrt.Mutex
	reqCanceler	map[*Request]context.CancelCauseFunc
	altMu	zzrt.Mutex
	altProto	zzrt.AValue
	connsPerHostMu	zzrt.Mutex
	connsPerHost	map[connectMethodKey]int
	connsPerHostWait	map[connectMethodKey]wantConnQueue
	dialsInProgress	wantConnQueue
	Proxy	func(*Request) (*url.URL, error)
	OnProxyConnectResponse	func(ctx context.Context, proxyURL *url.URL, connectReq *Request, connectRes *Response) error
	DialContext	func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial	func(network, addr string) (net.Conn, error)
	DialTLSContext	func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLS	func(network, addr string) (net.Conn, error)
	TLSClientConfig	*tls.Config
	TLSHandshakeTimeout	time.Duration
	DisableKeepAlives	bool
	DisableCompression	bool
	MaxIdleConns	int
	MaxIdleConnsPerHost	int
	MaxConnsPerHost	int
	IdleConnTimeout	time.Duration
	ResponseHeaderTimeout	time.Duration
	ExpectContinueTimeout	time.Duration
	TLSNextProto	map[string]func(authority string, c *tls.Conn) RoundTripper
	ProxyConnectHeader	Header
	GetProxyConnectHeader	func(ctx context.Context, proxyURL *url.URL, target string) (Header, error)
	MaxResponseHeaderBytes	int64
	WriteBufferSize	int
	ReadBufferSize	int
	nextProtoOnce	zzrt.Once
	h2transport	h2Transport
	tlsNextProtoWasNil	bool
	ForceAttemptHTTP2	bool
}

func (t *Transport) writeBufferSize() int {
	if t.WriteBufferSize > 0 {
		return t.WriteBufferSize
	}
	return 4 << 10
}
func (t *Transport) readBufferSize() int {
	if t.ReadBufferSize > 0 {
		return t.ReadBufferSize
	}
	return 4 << 10
}
func (t *Transport) Clone() *Transport {
	t.nextProtoOnce.Do(t.onceSetNextProtoDefaults)
	t2 := &Transport{Proxy: t.Proxy, OnProxyConnectResponse: t.OnProxyConnectResponse, DialContext: t.DialContext, Dial: t.Dial, DialTLS: t.DialTLS, DialTLSContext: t.DialTLSContext, TLSHandshakeTimeout: t.TLSHandshakeTimeout, DisableKeepAlives: t.DisableKeepAlives, DisableCompression: t.DisableCompression, MaxIdleConns: t.MaxIdleConns, MaxIdleConnsPerHost: t.MaxIdleConnsPerHost, MaxConnsPerHost: t.MaxConnsPerHost, IdleConnTimeout: t.IdleConnTimeout, ResponseHeaderTimeout: t.ResponseHeaderTimeout, ExpectContinueTimeout: t.ExpectContinueTimeout, ProxyConnectHeader: t.ProxyConnectHeader.Clone(), GetProxyConnectHeader: t.GetProxyConnectHeader, MaxResponseHeaderBytes: t.MaxResponseHeaderBytes, ForceAttemptHTTP2: t.ForceAttemptHTTP2, WriteBufferSize: t.WriteBufferSize, ReadBufferSize: t.ReadBufferSize}
	if t.TLSClientConfig != nil {
		t2.TLSClientConfig = t.TLSClientConfig.Clone()
	}
	if !t.tlsNextProtoWasNil {
		npm := map[string]func(authority string, c *tls.Conn) RoundTripper{}
		for zzit1, k, v := zzrt.MapIter2(-3035, t.TLSNextProto); zzit1.Next(&k, &v); {
			npm[k] = v
		}
		t2.TLSNextProto = npm
	}
	return t2
}

type h2Transport interface{ CloseIdleConnections() }

func (t *Transport) hasCustomTLSDialer() bool {
	return t.DialTLS != nil || t.DialTLSContext != nil
}

var http2client = godebug.New("http2client")

func (t *Transport) onceSetNextProtoDefaults() {
	t.tlsNextProtoWasNil = (t.TLSNextProto == nil)
	if http2client.Value() == "0" {
		http2client.IncNonDefault()
		return
	}
	altProto, _ := t.altProto.Load().(map[string]RoundTripper)
	if rv := reflect.ValueOf(altProto["https"]); rv.IsValid() && rv.Type().Kind() == reflect.Struct && rv.Type().NumField() == 1 {
		if v := rv.Field(0); v.CanInterface() {
			if h2i, ok := v.Interface().(h2Transport); ok {
				t.h2transport = h2i
				return
			}
		}
	}
	if t.TLSNextProto != nil {
		return
	}
	if !t.ForceAttemptHTTP2 && (t.TLSClientConfig != nil || t.Dial != nil || t.DialContext != nil || t.hasCustomTLSDialer()) {
		return
	}
	if omitBundledHTTP2 {
		return
	}
	t2, err := http2configureTransports(t)
	if err != nil {
		log.Printf("Error enabling Transport HTTP/2 support: %v", err)
		return
	}
	t.h2transport = t2
	if limit1 := t.MaxResponseHeaderBytes; limit1 != 0 && t2.MaxHeaderListSize == 0 {
		const h2max = 1<<32 - 1
		if limit1 >= h2max {
			t2.MaxHeaderListSize = h2max
		} else {
			t2.MaxHeaderListSize = uint32(limit1)
		}
	}
}
func ProxyFromEnvironment(req *Request) (*url.URL, error) {
	return envProxyFunc()(req.URL)
}
func ProxyURL(fixedURL *url.URL) func(*Request) (*url.URL, error) {
	return func(*Request) (*url.URL, error) {
		return fixedURL, nil
	}
}

type transportRequest struct {
	*Request
	extra	Header
	trace	*httptrace.ClientTrace
	ctx	context.Context
	cancel	context.CancelCauseFunc
	mu	zzrt.Mutex
	err	error
}

func (tr *transportRequest) extraHeaders() Header {
	if tr.extra == nil {
		tr.extra = make(Header)
	}
	return tr.extra
}
func (tr *transportRequest) setError(err error) {
	tr.mu.Lock()
	if tr.err == nil {
		tr.err = err
	}
	tr.mu.Unlock()
}
func (t *Transport) useRegisteredProtocol(req *Request) bool {
	if req.URL.Scheme == "https" && req.requiresHTTP1() {
		return false
	}
	return true
}
func (t *Transport) alternateRoundTripper(req *Request) RoundTripper {
	if !t.useRegisteredProtocol(req) {
		return nil
	}
	altProto, _ := t.altProto.Load().(map[string]RoundTripper)
	return altProto[req.URL.Scheme]
}
func validateHeaders(hdrs Header) string {
	for zzit2, k, vv := zzrt.MapIter2(-3036, hdrs); zzit2.Next(&k, &vv); {
		if !httpguts.ValidHeaderFieldName(k) {
			return fmt.Sprintf("field name %q", k)
		}
		for _, v := range vv {
			if !httpguts.ValidHeaderFieldValue(v) {
				return fmt.Sprintf("field value for %q", k)
			}
		}
	}
	return ""
}
func (t *Transport) roundTrip(req *Request) (_ *Response, err error) {
	t.nextProtoOnce.Do(t.onceSetNextProtoDefaults)
	ctx := req.Context()
	trace := httptrace.ContextClientTrace(ctx)
	if req.URL == nil {
		req.closeBody()
		return nil, errors.New("http: nil Request.URL")
	}
	if req.Header == nil {
		req.closeBody()
		return nil, errors.New("http: nil Request.Header")
	}
	scheme := req.URL.Scheme
	isHTTP := scheme == "http" || scheme == "https"
	if isHTTP {
		if err := validateHeaders(req.Header); err != "" {
			req.closeBody()
			return nil, fmt.Errorf("net/http: invalid header %s", err)
		}
		if err := validateHeaders(req.Trailer); err != "" {
			req.closeBody()
			return nil, fmt.Errorf("net/http: invalid trailer %s", err)
		}
	}
	origReq := req
	req = setupRewindBody(req)
	if altRT := t.alternateRoundTripper(req); altRT != nil {
		if resp, err := altRT.RoundTrip(req); err != ErrSkipAltProtocol {
			return resp, err
		}
		var err error
		req, err = rewindBody(req)
		if err != nil {
			return nil, err
		}
	}
	if !isHTTP {
		req.closeBody()
		return nil, badStringError("unsupported protocol scheme", scheme)
	}
	if req.Method != "" && !validMethod(req.Method) {
		req.closeBody()
		return nil, fmt.Errorf("net/http: invalid method %q", req.Method)
	}
	if req.URL.Host == "" {
		req.closeBody()
		return nil, errors.New("http: no Host in request URL")
	}
	ctx, cancel := zzrt.CtxWithCancelCause(req.Context())
	if origReq.Cancel != nil {
		{
			zzf3 := awaitLegacyCancel
			zza4 := ctx
			zza5 := cancel
			zza6 := origReq
			zzrt.Go(-3037, func() {
				zzf3(zza4, zza5, zza6)
			})
		}
	}
	cancel = t.prepareTransportCancel(origReq, cancel)
	defer func() {
		if err != nil {
			cancel(err)
		}
	}()
	for {
		zzrt.Y(-3038)
		switch zzc7 := zzrt.RecvCase(ctx.Done()); zzrt.Select(-3038, true, zzc7) {
		case 0:
			req.closeBody()
			return nil, zzrt.CtxCause(ctx)
		default:
		}
		treq := &transportRequest{Request: req, trace: trace, ctx: ctx, cancel: cancel}
		cm, err := t.connectMethodForRequest(treq)
		if err != nil {
			req.closeBody()
			return nil, err
		}
		pconn, err := t.getConn(treq, cm)
		if err != nil {
			req.closeBody()
			return nil, err
		}
		var resp *Response
		if pconn.alt != nil {
			resp, err = pconn.alt.RoundTrip(req)
		} else {
			resp, err = pconn.roundTrip(treq)
		}
		if err == nil {
			if pconn.alt != nil {
				cancel(errRequestDone)
			}
			resp.Request = origReq
			return resp, nil
		}
		if http2isNoCachedConnError(err) {
			if t.removeIdleConn(pconn) {
				t.decConnsPerHost(pconn.cacheKey)
			}
		} else if !pconn.shouldRetryRequest(req, err) {
			if e, ok := err.(nothingWrittenError); ok {
				err = e.error
			}
			if e, ok := err.(transportReadFromServerError); ok {
				err = e.err
			}
			if b, ok := req.Body.(*readTrackingBody); ok && !b.didClose {
				req.closeBody()
			}
			return nil, err
		}
		testHookRoundTripRetried()
		req, err = rewindBody(req)
		if err != nil {
			return nil, err
		}
	}
}
func awaitLegacyCancel(ctx context.Context, cancel context.CancelCauseFunc, req *Request) {
	zzrt.Y(-3039)
	switch zzc8, zzc9 := zzrt.RecvCase(req.Cancel), zzrt.RecvCase(ctx.Done()); zzrt.Select(-3039, false, zzc8, zzc9) {
	case 0:
		cancel(errRequestCanceled)
	case 1:
	default:
		panic("sim: unreachable")
	}
}

var errCannotRewind = errors.New("net/http: cannot rewind body after connection loss")

type readTrackingBody struct {
	io.ReadCloser
	didRead	bool
	didClose	bool
}

func (r *readTrackingBody) Read(data []byte) (int, error) {
	r.didRead = true
	return r.ReadCloser.Read(data)
}
func (r *readTrackingBody) Close() error {
	r.didClose = true
	return r.ReadCloser.Close()
}
func setupRewindBody(req *Request) *Request {
	if req.Body == nil || req.Body == NoBody {
		return req
	}
	newReq := *req
	newReq.Body = &readTrackingBody{ReadCloser: req.Body}
	return &newReq
}
func rewindBody(req *Request) (rewound *Request, err error) {
	if req.Body == nil || req.Body == NoBody || (!req.Body.(*readTrackingBody).didRead && !req.Body.(*readTrackingBody).didClose) {
		return req, nil
	}
	if !req.Body.(*readTrackingBody).didClose {
		req.closeBody()
	}
	if req.GetBody == nil {
		return nil, errCannotRewind
	}
	body, err := req.GetBody()
	if err != nil {
		return nil, err
	}
	newReq := *req
	newReq.Body = &readTrackingBody{ReadCloser: body}
	return &newReq, nil
}
func (pc *persistConn) shouldRetryRequest(req *Request, err error) bool {
	if http2isNoCachedConnError(err) {
		return true
	}
	if err == errMissingHost {
		return false
	}
	if !pc.isReused() {
		return false
	}
	if _, ok := err.(nothingWrittenError); ok {
		return req.outgoingLength() == 0 || req.GetBody != nil
	}
	if !req.isReplayable() {
		return false
	}
	if _, ok := err.(transportReadFromServerError); ok {
		return true
	}
	if err == errServerClosedIdle {
		return true
	}
	return false
}

var ErrSkipAltProtocol = errors.New("net/http: skip alternate protocol")

func (t *Transport) RegisterProtocol(scheme string, rt RoundTripper) {
	t.altMu.Lock()
	defer t.altMu.Unlock()
	oldMap, _ := t.altProto.Load().(map[string]RoundTripper)
	if _, exists := oldMap[scheme]; exists {
		panic("protocol " + scheme + " already registered")
	}
	newMap := make(map[string]RoundTripper)
	for zzit10, k, v := zzrt.MapIter2(-3040, oldMap); zzit10.Next(&k, &v); {
		newMap[k] = v
	}
	newMap[scheme] = rt
	t.altProto.Store(newMap)
}
func (t *Transport) CloseIdleConnections() {
	t.nextProtoOnce.Do(t.onceSetNextProtoDefaults)
	t.idleMu.Lock()
	m := t.idleConn
	t.idleConn = nil
	t.closeIdle = true
	t.idleLRU = connLRU{}
	t.idleMu.Unlock()
	for zzit11, conns := zzrt.MapIterV(-3041, m); zzit11.Next(nil, &conns); {
		for _, pconn := range conns {
			pconn.close(errCloseIdleConns)
		}
	}
	t.connsPerHostMu.Lock()
	t.dialsInProgress.all(func(w *wantConn) {
		if w.cancelCtx != nil && !w.waiting() {
			w.cancelCtx()
		}
	})
	t.connsPerHostMu.Unlock()
	if t2 := t.h2transport; t2 != nil {
		t2.CloseIdleConnections()
	}
}
func (t *Transport) prepareTransportCancel(req *Request, origCancel context.CancelCauseFunc) context.CancelCauseFunc {
	cancel := func(err error) {
		origCancel(err)
		t.reqMu.Lock()
		delete(t.reqCanceler, req)
		t.reqMu.Unlock()
	}
	t.reqMu.Lock()
	if t.reqCanceler == nil {
		t.reqCanceler = make(map[*Request]context.CancelCauseFunc)
	}
	t.reqCanceler[req] = cancel
	t.reqMu.Unlock()
	return cancel
}
func (t *Transport) CancelRequest(req *Request) {
	t.reqMu.Lock()
	cancel := t.reqCanceler[req]
	t.reqMu.Unlock()
	if cancel != nil {
		cancel(errRequestCanceled)
	}
}

var (
	envProxyOnce	zzrt.Once
	envProxyFuncValue	func(*url.URL) (*url.URL, error)
)

func envProxyFunc() func(*url.URL) (*url.URL, error) {
	envProxyOnce.Do(func() {
		envProxyFuncValue = httpproxy.FromEnvironment().ProxyFunc()
	})
	return envProxyFuncValue
}
func resetProxyConfig() {
	envProxyOnce = zzrt.Once{}
	envProxyFuncValue = nil
}
func (t *Transport) connectMethodForRequest(treq *transportRequest) (cm connectMethod, err error) {
	cm.targetScheme = treq.URL.Scheme
	cm.targetAddr = canonicalAddr(treq.URL)
	if t.Proxy != nil {
		cm.proxyURL, err = t.Proxy(treq.Request)
	}
	cm.onlyH1 = treq.requiresHTTP1()
	return cm, err
}
func (cm *connectMethod) proxyAuth() string {
	if cm.proxyURL == nil {
		return ""
	}
	if u := cm.proxyURL.User; u != nil {
		username := u.Username()
		password, _ := u.Password()
		return "Basic " + basicAuth(username, password)
	}
	return ""
}

var (
	errKeepAlivesDisabled	= errors.New("http: putIdleConn: keep alives disabled")
	errConnBroken	= errors.New("http: putIdleConn: connection is in bad state")
	errCloseIdle	= errors.New("http: putIdleConn: CloseIdleConnections was called")
	errTooManyIdle	= errors.New("http: putIdleConn: too many idle connections")
	errTooManyIdleHost	= errors.New("http: putIdleConn: too many idle connections for host")
	errCloseIdleConns	= errors.New("http: CloseIdleConnections called")
	errReadLoopExiting	= errors.New("http: persistConn.readLoop exiting")
	errIdleConnTimeout	= errors.New("http: idle connection timeout")
	errServerClosedIdle	= errors.New("http: server closed idle connection")
)

type transportReadFromServerError struct{ err error }

func (e transportReadFromServerError) Unwrap() error {
	return e.err
}
func (e transportReadFromServerError) Error() string {
	return fmt.Sprintf("net/http: Transport failed to read from server: %v", e.err)
}
func (t *Transport) putOrCloseIdleConn(pconn *persistConn) {
	if err := t.tryPutIdleConn(pconn); err != nil {
		pconn.close(err)
	}
}
func (t *Transport) maxIdleConnsPerHost() int {
	if v := t.MaxIdleConnsPerHost; v != 0 {
		return v
	}
	return DefaultMaxIdleConnsPerHost
}
func (t *Transport) tryPutIdleConn(pconn *persistConn) error {
	if t.DisableKeepAlives || t.MaxIdleConnsPerHost < 0 {
		return errKeepAlivesDisabled
	}
	if pconn.isBroken() {
		return errConnBroken
	}
	pconn.markReused()
	t.idleMu.Lock()
	defer t.idleMu.Unlock()
	if pconn.alt != nil && t.idleLRU.m[pconn] != nil {
		return nil
	}
	key := pconn.cacheKey
	if q, ok := t.idleConnWait[key]; ok {
		done := false
		if pconn.alt == nil {
			for q.len() > 0 {
				w := q.popFront()
				if w.tryDeliver(pconn, nil, time.Time{}) {
					done = true
					break
				}
			}
		} else {
			for q.len() > 0 {
				w := q.popFront()
				w.tryDeliver(pconn, nil, time.Time{})
			}
		}
		if q.len() == 0 {
			delete(t.idleConnWait, key)
		} else {
			t.idleConnWait[key] = q
		}
		if done {
			return nil
		}
	}
	if t.closeIdle {
		return errCloseIdle
	}
	if t.idleConn == nil {
		t.idleConn = make(map[connectMethodKey][]*persistConn)
	}
	idles := t.idleConn[key]
	if len(idles) >= t.maxIdleConnsPerHost() {
		return errTooManyIdleHost
	}
	for _, exist := range idles {
		if exist == pconn {
			log.Fatalf("dup idle pconn %p in freelist", pconn)
		}
	}
	t.idleConn[key] = append(idles, pconn)
	t.idleLRU.add(pconn)
	if t.MaxIdleConns != 0 && t.idleLRU.len() > t.MaxIdleConns {
		oldest := t.idleLRU.removeOldest()
		oldest.close(errTooManyIdle)
		t.removeIdleConnLocked(oldest)
	}
	if t.IdleConnTimeout > 0 && pconn.alt == nil {
		if pconn.idleTimer != nil {
			pconn.idleTimer.Reset(t.IdleConnTimeout)
		} else {
			pconn.idleTimer = zzrt.AfterFunc(t.IdleConnTimeout, pconn.closeConnIfStillIdle)
		}
	}
	pconn.idleAt = zzrt.TimeNow()
	return nil
}
func (t *Transport) queueForIdleConn(w *wantConn) (delivered bool) {
	if t.DisableKeepAlives {
		return false
	}
	t.idleMu.Lock()
	defer t.idleMu.Unlock()
	t.closeIdle = false
	if w == nil {
		return false
	}
	var oldTime time.Time
	if t.IdleConnTimeout > 0 {
		oldTime = zzrt.TimeNow().Add(-t.IdleConnTimeout)
	}
	if list, ok := t.idleConn[w.key]; ok {
		stop := false
		delivered := false
		for len(list) > 0 && !stop {
			pconn := list[len(list)-1]
			tooOld := !oldTime.IsZero() && pconn.idleAt.Round(0).Before(oldTime)
			if tooOld {
				{
					zzf12 := pconn.closeConnIfStillIdle
					zzrt.Go(-3042, func() {
						zzf12()
					})
				}
			}
			if pconn.isBroken() || tooOld {
				list = list[:len(list)-1]
				continue
			}
			delivered = w.tryDeliver(pconn, nil, pconn.idleAt)
			if delivered {
				if pconn.alt != nil {
				} else {
					t.idleLRU.remove(pconn)
					list = list[:len(list)-1]
				}
			}
			stop = true
		}
		if len(list) > 0 {
			t.idleConn[w.key] = list
		} else {
			delete(t.idleConn, w.key)
		}
		if stop {
			return delivered
		}
	}
	if t.idleConnWait == nil {
		t.idleConnWait = make(map[connectMethodKey]wantConnQueue)
	}
	q := t.idleConnWait[w.key]
	q.cleanFrontNotWaiting()
	q.pushBack(w)
	t.idleConnWait[w.key] = q
	return false
}
func (t *Transport) removeIdleConn(pconn *persistConn) bool {
	t.idleMu.Lock()
	defer t.idleMu.Unlock()
	return t.removeIdleConnLocked(pconn)
}
func (t *Transport) removeIdleConnLocked(pconn *persistConn) bool {
	if pconn.idleTimer != nil {
		pconn.idleTimer.Stop()
	}
	t.idleLRU.remove(pconn)
	key := pconn.cacheKey
	pconns := t.idleConn[key]
	var removed bool
	switch len(pconns) {
	case 0:
	case 1:
		if pconns[0] == pconn {
			delete(t.idleConn, key)
			removed = true
		}
	default:
		for i, v := range pconns {
			if v != pconn {
				continue
			}
			copy(pconns[i:], pconns[i+1:])
			t.idleConn[key] = pconns[:len(pconns)-1]
			removed = true
			break
		}
	}
	return removed
}

var zeroDialer zzrt.NetDialer

func (t *Transport) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	if t.DialContext != nil {
		c, err := t.DialContext(ctx, network, addr)
		if c == nil && err == nil {
			err = errors.New("net/http: Transport.DialContext hook returned (nil, nil)")
		}
		return c, err
	}
	if t.Dial != nil {
		c, err := t.Dial(network, addr)
		if c == nil && err == nil {
			err = errors.New("net/http: Transport.Dial hook returned (nil, nil)")
		}
		return c, err
	}
	return zeroDialer.DialContext(ctx, network, addr)
}

type wantConn struct {
	cm	connectMethod
	key	connectMethodKey
	beforeDial	func()
	afterDial	func()
	mu	zzrt.Mutex
	ctx	context.Context
	cancelCtx	context.CancelFunc
	done	bool
	result	chan connOrError
}
type connOrError struct {
	pc	*persistConn
	err	error
	idleAt	time.Time
}

func (w *wantConn) waiting() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return !w.done
}
func (w *wantConn) getCtxForDial() context.Context {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ctx
}
func (w *wantConn) tryDeliver(pc *persistConn, err error, idleAt time.Time) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.done {
		return false
	}
	if (pc == nil) == (err == nil) {
		panic("net/http: internal error: misuse of tryDeliver")
	}
	w.ctx = nil
	w.done = true
	zzrt.SendTo(w.result)(connOrError{pc: pc, err: err, idleAt: idleAt})
	zzrt.Close(w.result)
	return true
}
func (w *wantConn) cancel(t *Transport, err error) {
	w.mu.Lock()
	var pc *persistConn
	if w.done {
		if r, ok := zzrt.Recv2(w.result); ok {
			pc = r.pc
		}
	} else {
		zzrt.Close(w.result)
	}
	w.ctx = nil
	w.done = true
	w.mu.Unlock()
	if pc != nil {
		t.putOrCloseIdleConn(pc)
	}
}

type wantConnQueue struct {
	head	[]*wantConn
	headPos	int
	tail	[]*wantConn
}

func (q *wantConnQueue) len() int {
	return len(q.head) - q.headPos + len(q.tail)
}
func (q *wantConnQueue) pushBack(w *wantConn) {
	q.tail = append(q.tail, w)
}
func (q *wantConnQueue) popFront() *wantConn {
	if q.headPos >= len(q.head) {
		if len(q.tail) == 0 {
			return nil
		}
		q.head, q.headPos, q.tail = q.tail, 0, q.head[:0]
	}
	w := q.head[q.headPos]
	q.head[q.headPos] = nil
	q.headPos++
	return w
}
func (q *wantConnQueue) peekFront() *wantConn {
	if q.headPos < len(q.head) {
		return q.head[q.headPos]
	}
	if len(q.tail) > 0 {
		return q.tail[0]
	}
	return nil
}
func (q *wantConnQueue) cleanFrontNotWaiting() (cleaned bool) {
	for {
		w := q.peekFront()
		if w == nil || w.waiting() {
			return cleaned
		}
		q.popFront()
		cleaned = true
	}
}
func (q *wantConnQueue) cleanFrontCanceled() {
	for {
		w := q.peekFront()
		if w == nil || w.cancelCtx != nil {
			return
		}
		q.popFront()
	}
}
func (q *wantConnQueue) all(f func(*wantConn)) {
	for _, w := range q.head[q.headPos:] {
		f(w)
	}
	for _, w := range q.tail {
		f(w)
	}
}
func (t *Transport) customDialTLS(ctx context.Context, network, addr string) (conn net.Conn, err error) {
	if t.DialTLSContext != nil {
		conn, err = t.DialTLSContext(ctx, network, addr)
	} else {
		conn, err = t.DialTLS(network, addr)
	}
	if conn == nil && err == nil {
		err = errors.New("net/http: Transport.DialTLS or DialTLSContext returned (nil, nil)")
	}
	return
}
func (t *Transport) getConn(treq *transportRequest, cm connectMethod) (_ *persistConn, err error) {
	req := treq.Request
	trace := treq.trace
	ctx := req.Context()
	if trace != nil && trace.GetConn != nil {
		trace.GetConn(cm.addr())
	}
	dialCtx, dialCancel := zzrt.CtxWithCancel(context.WithoutCancel(ctx))
	w := &wantConn{cm: cm, key: cm.key(), ctx: dialCtx, cancelCtx: dialCancel, result: make(chan connOrError, 1), beforeDial: testHookPrePendingDial, afterDial: testHookPostPendingDial}
	defer func() {
		if err != nil {
			w.cancel(t, err)
		}
	}()
	if delivered := t.queueForIdleConn(w); !delivered {
		t.queueForDial(w)
	}
	zzrt.Y(-3043)
	switch zzc13, zzc15 := zzrt.RecvCase(w.result), zzrt.RecvCase(treq.ctx.Done()); zzrt.Select(-3043, false, zzc13, zzc15) {
	case 0:
		r := zzc13.V()
		if r.pc != nil && r.pc.alt == nil && trace != nil && trace.GotConn != nil {
			info := httptrace.GotConnInfo{Conn: r.pc.conn, Reused: r.pc.isReused()}
			if !r.idleAt.IsZero() {
				info.WasIdle = true
				info.IdleTime = zzrt.TimeSince(r.idleAt)
			}
			trace.GotConn(info)
		}
		if r.err != nil {
			zzrt.Y(-3044)
			switch zzc14 := zzrt.RecvCase(treq.ctx.Done()); zzrt.Select(-3044, true, zzc14) {
			case 0:
				err := zzrt.CtxCause(treq.ctx)
				if err == errRequestCanceled {
					err = errRequestCanceledConn
				}
				return nil, err
			default:
			}
		}
		return r.pc, r.err
	case 1:
		err := zzrt.CtxCause(treq.ctx)
		if err == errRequestCanceled {
			err = errRequestCanceledConn
		}
		return nil, err
	default:
		panic("sim: unreachable")
	}
}
func (t *Transport) queueForDial(w *wantConn) {
	w.beforeDial()
	t.connsPerHostMu.Lock()
	defer t.connsPerHostMu.Unlock()
	if t.MaxConnsPerHost <= 0 {
		t.startDialConnForLocked(w)
		return
	}
	if n := t.connsPerHost[w.key]; n < t.MaxConnsPerHost {
		if t.connsPerHost == nil {
			t.connsPerHost = make(map[connectMethodKey]int)
		}
		t.connsPerHost[w.key] = n + 1
		t.startDialConnForLocked(w)
		return
	}
	if t.connsPerHostWait == nil {
		t.connsPerHostWait = make(map[connectMethodKey]wantConnQueue)
	}
	q := t.connsPerHostWait[w.key]
	q.cleanFrontNotWaiting()
	q.pushBack(w)
	t.connsPerHostWait[w.key] = q
}
func (t *Transport) startDialConnForLocked(w *wantConn) {
	t.dialsInProgress.cleanFrontCanceled()
	t.dialsInProgress.pushBack(w)
	zzrt.Go(-3045, func() {
		t.dialConnFor(w)
		t.connsPerHostMu.Lock()
		defer t.connsPerHostMu.Unlock()
		w.cancelCtx = nil
	})
}
func (t *Transport) dialConnFor(w *wantConn) {
	defer w.afterDial()
	ctx := w.getCtxForDial()
	if ctx == nil {
		t.decConnsPerHost(w.key)
		return
	}
	pc, err := t.dialConn(ctx, w.cm)
	delivered := w.tryDeliver(pc, err, time.Time{})
	if err == nil && (!delivered || pc.alt != nil) {
		t.putOrCloseIdleConn(pc)
	}
	if err != nil {
		t.decConnsPerHost(w.key)
	}
}
func (t *Transport) decConnsPerHost(key connectMethodKey) {
	if t.MaxConnsPerHost <= 0 {
		return
	}
	t.connsPerHostMu.Lock()
	defer t.connsPerHostMu.Unlock()
	n := t.connsPerHost[key]
	if n == 0 {
		panic("net/http: internal error: connCount underflow")
	}
	if q := t.connsPerHostWait[key]; q.len() > 0 {
		done := false
		for q.len() > 0 {
			w := q.popFront()
			if w.waiting() {
				t.startDialConnForLocked(w)
				done = true
				break
			}
		}
		if q.len() == 0 {
			delete(t.connsPerHostWait, key)
		} else {
			t.connsPerHostWait[key] = q
		}
		if done {
			return
		}
	}
	if n--; n == 0 {
		delete(t.connsPerHost, key)
	} else {
		t.connsPerHost[key] = n
	}
}
func (pconn *persistConn) addTLS(ctx context.Context, name string, trace *httptrace.ClientTrace) error {
	cfg := cloneTLSConfig(pconn.t.TLSClientConfig)
	if cfg.ServerName == "" {
		cfg.ServerName = name
	}
	if pconn.cacheKey.onlyH1 {
		cfg.NextProtos = nil
	}
	plainConn := pconn.conn
	tlsConn := tls.Client(plainConn, cfg)
	errc := make(chan error, 2)
	var timer *zzrt.Timer
	if d := pconn.t.TLSHandshakeTimeout; d != 0 {
		timer = zzrt.AfterFunc(d, func() {
			zzrt.SendTo(errc)(tlsHandshakeTimeoutError{})
		})
	}
	zzrt.Go(-3046, func() {
		if trace != nil && trace.TLSHandshakeStart != nil {
			trace.TLSHandshakeStart()
		}
		err := tlsConn.HandshakeContext(ctx)
		if timer != nil {
			timer.Stop()
		}
		zzrt.SendTo(errc)(err)
	})
	if err := zzrt.Recv(errc); err != nil {
		plainConn.Close()
		if err == (tlsHandshakeTimeoutError{}) {
			zzrt.Recv(errc)
		}
		if trace != nil && trace.TLSHandshakeDone != nil {
			trace.TLSHandshakeDone(tls.ConnectionState{}, err)
		}
		return err
	}
	cs := tlsConn.ConnectionState()
	if trace != nil && trace.TLSHandshakeDone != nil {
		trace.TLSHandshakeDone(cs, nil)
	}
	pconn.tlsState = &cs
	pconn.conn = tlsConn
	return nil
}

type erringRoundTripper interface{ RoundTripErr() error }

var testHookProxyConnectTimeout = zzrt.CtxWithTimeout

func (t *Transport) dialConn(ctx context.Context, cm connectMethod) (pconn *persistConn, err error) {
	pconn = &persistConn{t: t, cacheKey: cm.key(), reqch: make(chan requestAndChan, 1), writech: make(chan writeRequest, 1), closech: make(chan struct{}), writeErrCh: make(chan error, 1), writeLoopDone: make(chan struct{})}
	trace := httptrace.ContextClientTrace(ctx)
	wrapErr := func(err error) error {
		if cm.proxyURL != nil {
			return &net.OpError{Op: "proxyconnect", Net: "tcp", Err: err}
		}
		return err
	}
	if cm.scheme() == "https" && t.hasCustomTLSDialer() {
		var err error
		pconn.conn, err = t.customDialTLS(ctx, "tcp", cm.addr())
		if err != nil {
			return nil, wrapErr(err)
		}
		if tc, ok := pconn.conn.(*tls.Conn); ok {
			if trace != nil && trace.TLSHandshakeStart != nil {
				trace.TLSHandshakeStart()
			}
			if err := tc.HandshakeContext(ctx); err != nil {
				{
					zzf16 := pconn.conn.Close
					zzrt.Go(-3047, func() {
						zzf16()
					})
				}
				if trace != nil && trace.TLSHandshakeDone != nil {
					trace.TLSHandshakeDone(tls.ConnectionState{}, err)
				}
				return nil, err
			}
			cs := tc.ConnectionState()
			if trace != nil && trace.TLSHandshakeDone != nil {
				trace.TLSHandshakeDone(cs, nil)
			}
			pconn.tlsState = &cs
		}
	} else {
		conn, err := t.dial(ctx, "tcp", cm.addr())
		if err != nil {
			return nil, wrapErr(err)
		}
		pconn.conn = conn
		if cm.scheme() == "https" {
			var firstTLSHost string
			if firstTLSHost, _, err = net.SplitHostPort(cm.addr()); err != nil {
				return nil, wrapErr(err)
			}
			if err = pconn.addTLS(ctx, firstTLSHost, trace); err != nil {
				return nil, wrapErr(err)
			}
		}
	}
	switch {
	case cm.proxyURL == nil:
	case cm.proxyURL.Scheme == "socks5" || cm.proxyURL.Scheme == "socks5h":
		conn := pconn.conn
		d := socksNewDialer("tcp", conn.RemoteAddr().String())
		if u := cm.proxyURL.User; u != nil {
			auth := &socksUsernamePassword{Username: u.Username()}
			auth.Password, _ = u.Password()
			d.AuthMethods = []socksAuthMethod{socksAuthMethodNotRequired, socksAuthMethodUsernamePassword}
			d.Authenticate = auth.Authenticate
		}
		if _, err := d.DialWithConn(ctx, conn, "tcp", cm.targetAddr); err != nil {
			conn.Close()
			return nil, err
		}
	case cm.targetScheme == "http":
		pconn.isProxy = true
		if pa := cm.proxyAuth(); pa != "" {
			pconn.mutateHeaderFunc = func(h Header) {
				h.Set("Proxy-Authorization", pa)
			}
		}
	case cm.targetScheme == "https":
		conn := pconn.conn
		var hdr Header
		if t.GetProxyConnectHeader != nil {
			var err error
			hdr, err = t.GetProxyConnectHeader(ctx, cm.proxyURL, cm.targetAddr)
			if err != nil {
				conn.Close()
				return nil, err
			}
		} else {
			hdr = t.ProxyConnectHeader
		}
		if hdr == nil {
			hdr = make(Header)
		}
		if pa := cm.proxyAuth(); pa != "" {
			hdr = hdr.Clone()
			hdr.Set("Proxy-Authorization", pa)
		}
		connectReq := &Request{Method: "CONNECT", URL: &url.URL{Opaque: cm.targetAddr}, Host: cm.targetAddr, Header: hdr}
		connectCtx, cancel := testHookProxyConnectTimeout(ctx, 1*time.Minute)
		defer cancel()
		didReadResponse := make(chan struct{})
		var (
			resp	*Response
			err	error
		)
		zzrt.Go(-3048, func() {
			defer zzrt.Close(didReadResponse)
			err = connectReq.Write(conn)
			if err != nil {
				return
			}
			br := bufio.NewReader(conn)
			resp, err = ReadResponse(br, connectReq)
		})
		zzrt.Y(-3049)
		switch zzc17, zzc18 := zzrt.RecvCase(connectCtx.Done()), zzrt.RecvCase(didReadResponse); zzrt.Select(-3049, false, zzc17, zzc18) {
		case 0:
			conn.Close()
			zzrt.Recv(didReadResponse)
			return nil, connectCtx.Err()
		case 1:
		default:
			panic("sim: unreachable")
		}
		if err != nil {
			conn.Close()
			return nil, err
		}
		if t.OnProxyConnectResponse != nil {
			err = t.OnProxyConnectResponse(ctx, cm.proxyURL, connectReq, resp)
			if err != nil {
				conn.Close()
				return nil, err
			}
		}
		if resp.StatusCode != 200 {
			_, text, ok := strings.Cut(resp.Status, " ")
			conn.Close()
			if !ok {
				return nil, errors.New("unknown status code")
			}
			return nil, errors.New(text)
		}
	}
	if cm.proxyURL != nil && cm.targetScheme == "https" {
		if err := pconn.addTLS(ctx, cm.tlsHost(), trace); err != nil {
			return nil, err
		}
	}
	if s := pconn.tlsState; s != nil && s.NegotiatedProtocolIsMutual && s.NegotiatedProtocol != "" {
		if next, ok := t.TLSNextProto[s.NegotiatedProtocol]; ok {
			alt := next(cm.targetAddr, pconn.conn.(*tls.Conn))
			if e, ok := alt.(erringRoundTripper); ok {
				return nil, e.RoundTripErr()
			}
			return &persistConn{t: t, cacheKey: pconn.cacheKey, alt: alt}, nil
		}
	}
	pconn.br = bufio.NewReaderSize(pconn, t.readBufferSize())
	pconn.bw = bufio.NewWriterSize(persistConnWriter{pconn}, t.writeBufferSize())
	{
		zzf19 := pconn.readLoop
		zzrt.Go(-3050, func() {
			zzf19()
		})
	}
	{
		zzf20 := pconn.writeLoop
		zzrt.Go(-3051, func() {
			zzf20()
		})
	}
	return pconn, nil
}

type persistConnWriter struct{ pc *persistConn }

func (w persistConnWriter) Write(p []byte) (n int, err error) {
	n, err = w.pc.conn.Write(p)
	w.pc.nwrite += int64(n)
	return
}
func (w persistConnWriter) ReadFrom(r io.Reader) (n int64, err error) {
	n, err = io.Copy(w.pc.conn, r)
	w.pc.nwrite += n
	return
}

var _ io.ReaderFrom = (*persistConnWriter)(nil)

type connectMethod struct {
	_	incomparable
	proxyURL	*url.URL
	targetScheme	string
	targetAddr	string
	onlyH1	bool
}

func (cm *connectMethod) key() connectMethodKey {
	proxyStr := ""
	targetAddr := cm.targetAddr
	if cm.proxyURL != nil {
		proxyStr = cm.proxyURL.String()
		if (cm.proxyURL.Scheme == "http" || cm.proxyURL.Scheme == "https") && cm.targetScheme == "http" {
			targetAddr = ""
		}
	}
	return connectMethodKey{proxy: proxyStr, scheme: cm.targetScheme, addr: targetAddr, onlyH1: cm.onlyH1}
}
func (cm *connectMethod) scheme() string {
	if cm.proxyURL != nil {
		return cm.proxyURL.Scheme
	}
	return cm.targetScheme
}
func (cm *connectMethod) addr() string {
	if cm.proxyURL != nil {
		return canonicalAddr(cm.proxyURL)
	}
	return cm.targetAddr
}
func (cm *connectMethod) tlsHost() string {
	h := cm.targetAddr
	if hasPort(h) {
		h = h[:strings.LastIndex(h, ":")]
	}
	return h
}

type connectMethodKey struct {
	proxy, scheme, addr	string
	onlyH1	bool
}

func (k connectMethodKey) String() string {
	var h1 string
	if k.onlyH1 {
		h1 = ",h1"
	}
	return fmt.Sprintf("%s|%s%s|%s", k.proxy, k.scheme, h1, k.addr)
}

type persistConn struct {
	alt	RoundTripper
	t	*Transport
	cacheKey	connectMethodKey
	conn	net.Conn
	tlsState	*tls.ConnectionState
	br	*bufio.Reader
	bw	*bufio.Writer
	nwrite	int64
	reqch	chan requestAndChan
	writech	chan writeRequest
	closech	chan struct{}
	isProxy	bool
	sawEOF	bool
	readLimit	int64
	writeErrCh	chan error
	writeLoopDone	chan struct{}
	idleAt	time.Time
	idleTimer	*zzrt.Timer
	mu	zzrt.Mutex
	numExpectedResponses	int
	closed	error
	canceledErr	error
	broken	bool
	reused	bool
	mutateHeaderFunc	func(Header)
}

func (pc *persistConn) maxHeaderResponseSize() int64 {
	if v := pc.t.MaxResponseHeaderBytes; v != 0 {
		return v
	}
	return 10 << 20
}
func (pc *persistConn) Read(p []byte) (n int, err error) {
	if pc.readLimit <= 0 {
		return 0, fmt.Errorf("read limit of %d bytes exhausted", pc.maxHeaderResponseSize())
	}
	if int64(len(p)) > pc.readLimit {
		p = p[:pc.readLimit]
	}
	n, err = pc.conn.Read(p)
	if err == io.EOF {
		pc.sawEOF = true
	}
	pc.readLimit -= int64(n)
	return
}
func (pc *persistConn) isBroken() bool {
	pc.mu.Lock()
	b := pc.closed != nil
	pc.mu.Unlock()
	return b
}
func (pc *persistConn) canceled() error {
	pc.mu.Lock()
	defer pc.mu.Unlock()
	return pc.canceledErr
}
func (pc *persistConn) isReused() bool {
	pc.mu.Lock()
	r := pc.reused
	pc.mu.Unlock()
	return r
}
func (pc *persistConn) cancelRequest(err error) {
	pc.mu.Lock()
	defer pc.mu.Unlock()
	pc.canceledErr = err
	pc.closeLocked(errRequestCanceled)
}
func (pc *persistConn) closeConnIfStillIdle() {
	t := pc.t
	t.idleMu.Lock()
	defer t.idleMu.Unlock()
	if _, ok := t.idleLRU.m[pc]; !ok {
		return
	}
	t.removeIdleConnLocked(pc)
	pc.close(errIdleConnTimeout)
}
func (pc *persistConn) mapRoundTripError(req *transportRequest, startBytesWritten int64, err error) error {
	if err == nil {
		return nil
	}
	zzrt.Recv(pc.writeLoopDone)
	if cerr := pc.canceled(); cerr != nil {
		return cerr
	}
	req.mu.Lock()
	reqErr := req.err
	req.mu.Unlock()
	if reqErr != nil {
		return reqErr
	}
	if err == errServerClosedIdle {
		return err
	}
	if _, ok := err.(transportReadFromServerError); ok {
		if pc.nwrite == startBytesWritten {
			return nothingWrittenError{err}
		}
		return err
	}
	if pc.isBroken() {
		if pc.nwrite == startBytesWritten {
			return nothingWrittenError{err}
		}
		return fmt.Errorf("net/http: HTTP/1.x transport connection broken: %w", err)
	}
	return err
}

var errCallerOwnsConn = errors.New("read loop ending; caller owns writable underlying conn")

func (pc *persistConn) readLoop() {
	closeErr := errReadLoopExiting
	defer func() {
		pc.close(closeErr)
		pc.t.removeIdleConn(pc)
	}()
	tryPutIdleConn := func(treq *transportRequest) bool {
		trace := treq.trace
		if err := pc.t.tryPutIdleConn(pc); err != nil {
			closeErr = err
			if trace != nil && trace.PutIdleConn != nil && err != errKeepAlivesDisabled {
				trace.PutIdleConn(err)
			}
			return false
		}
		if trace != nil && trace.PutIdleConn != nil {
			trace.PutIdleConn(nil)
		}
		return true
	}
	eofc := make(chan struct{})
	defer zzrt.Close(eofc)
	testHookMu.Lock()
	testHookReadLoopBeforeNextRead := testHookReadLoopBeforeNextRead
	testHookMu.Unlock()
	alive := true
	for alive {
		pc.readLimit = pc.maxHeaderResponseSize()
		_, err := pc.br.Peek(1)
		pc.mu.Lock()
		if pc.numExpectedResponses == 0 {
			pc.readLoopPeekFailLocked(err)
			pc.mu.Unlock()
			return
		}
		pc.mu.Unlock()
		rc := zzrt.Recv(pc.reqch)
		trace := rc.treq.trace
		var resp *Response
		if err == nil {
			resp, err = pc.readResponse(rc, trace)
		} else {
			err = transportReadFromServerError{err}
			closeErr = err
		}
		if err != nil {
			if pc.readLimit <= 0 {
				err = fmt.Errorf("net/http: server response headers exceeded %d bytes; aborted", pc.maxHeaderResponseSize())
			}
			zzrt.Y(-3052)
			switch zzc21, zzc22 := zzrt.SendCase(rc.ch)(responseAndError{err: err}), zzrt.RecvCase(rc.callerGone); zzrt.Select(-3052, false, zzc21, zzc22) {
			case 0:
			case 1:
				return
			default:
				panic("sim: unreachable")
			}
			return
		}
		pc.readLimit = maxInt64
		pc.mu.Lock()
		pc.numExpectedResponses--
		pc.mu.Unlock()
		bodyWritable := resp.bodyIsWritable()
		hasBody := rc.treq.Request.Method != "HEAD" && resp.ContentLength != 0
		if resp.Close || rc.treq.Request.Close || resp.StatusCode <= 199 || bodyWritable {
			alive = false
		}
		if !hasBody || bodyWritable {
			alive = alive && !pc.sawEOF && pc.wroteRequest() && tryPutIdleConn(rc.treq)
			if bodyWritable {
				closeErr = errCallerOwnsConn
			}
			zzrt.Y(-3053)
			switch zzc23, zzc24 := zzrt.SendCase(rc.ch)(responseAndError{res: resp}), zzrt.RecvCase(rc.callerGone); zzrt.Select(-3053, false, zzc23, zzc24) {
			case 0:
			case 1:
				return
			default:
				panic("sim: unreachable")
			}
			rc.treq.cancel(errRequestDone)
			testHookReadLoopBeforeNextRead()
			continue
		}
		waitForBodyRead := make(chan bool, 2)
		body := &bodyEOFSignal{body: resp.Body, earlyCloseFn: func() error {
			zzrt.SendTo(waitForBodyRead)(false)
			zzrt.Recv(eofc)
			return nil
		}, fn: func(err error) error {
			isEOF := err == io.EOF
			zzrt.SendTo(waitForBodyRead)(isEOF)
			if isEOF {
				zzrt.Recv(eofc)
			} else if err != nil {
				if cerr := pc.canceled(); cerr != nil {
					return cerr
				}
			}
			return err
		}}
		resp.Body = body
		if rc.addedGzip && ascii.EqualFold(resp.Header.Get("Content-Encoding"), "gzip") {
			resp.Body = &gzipReader{body: body}
			resp.Header.Del("Content-Encoding")
			resp.Header.Del("Content-Length")
			resp.ContentLength = -1
			resp.Uncompressed = true
		}
		zzrt.Y(-3054)
		switch zzc25, zzc26 := zzrt.SendCase(rc.ch)(responseAndError{res: resp}), zzrt.RecvCase(rc.callerGone); zzrt.Select(-3054, false, zzc25, zzc26) {
		case 0:
		case 1:
			return
		default:
			panic("sim: unreachable")
		}
		zzrt.Y(-3055)
		switch zzc27, zzc28, zzc29 := zzrt.RecvCase(waitForBodyRead), zzrt.RecvCase(rc.treq.ctx.Done()), zzrt.RecvCase(pc.closech); zzrt.Select(-3055, false, zzc27, zzc28, zzc29) {
		case 0:
			bodyEOF := zzc27.V()
			alive = alive && bodyEOF && !pc.sawEOF && pc.wroteRequest() && tryPutIdleConn(rc.treq)
			if bodyEOF {
				zzrt.SendTo(eofc)(struct{}{})
			}
		case 1:
			alive = false
			pc.cancelRequest(zzrt.CtxCause(rc.treq.ctx))
		case 2:
			alive = false
		default:
			panic("sim: unreachable")
		}
		rc.treq.cancel(errRequestDone)
		testHookReadLoopBeforeNextRead()
	}
}
func (pc *persistConn) readLoopPeekFailLocked(peekErr error) {
	if pc.closed != nil {
		return
	}
	if n := pc.br.Buffered(); n > 0 {
		buf, _ := pc.br.Peek(n)
		if is408Message(buf) {
			pc.closeLocked(errServerClosedIdle)
			return
		} else {
			log.Printf("Unsolicited response received on idle HTTP channel starting with %q; err=%v", buf, peekErr)
		}
	}
	if peekErr == io.EOF {
		pc.closeLocked(errServerClosedIdle)
	} else {
		pc.closeLocked(fmt.Errorf("readLoopPeekFailLocked: %w", peekErr))
	}
}
func is408Message(buf []byte) bool {
	if len(buf) < len("HTTP/1.x 408") {
		return false
	}
	if string(buf[:7]) != "HTTP/1." {
		return false
	}
	return string(buf[8:12]) == " 408"
}
func (pc *persistConn) readResponse(rc requestAndChan, trace *httptrace.ClientTrace) (resp *Response, err error) {
	if trace != nil && trace.GotFirstResponseByte != nil {
		if peek, err := pc.br.Peek(1); err == nil && len(peek) == 1 {
			trace.GotFirstResponseByte()
		}
	}
	num1xx := 0
	const max1xxResponses = 5
	continueCh := rc.continueCh
	for {
		resp, err = ReadResponse(pc.br, rc.treq.Request)
		if err != nil {
			return
		}
		resCode := resp.StatusCode
		if continueCh != nil && resCode == StatusContinue {
			if trace != nil && trace.Got100Continue != nil {
				trace.Got100Continue()
			}
			zzrt.SendTo(continueCh)(struct{}{})
			continueCh = nil
		}
		is1xx := 100 <= resCode && resCode <= 199
		is1xxNonTerminal := is1xx && resCode != StatusSwitchingProtocols
		if is1xxNonTerminal {
			num1xx++
			if num1xx > max1xxResponses {
				return nil, errors.New("net/http: too many 1xx informational responses")
			}
			pc.readLimit = pc.maxHeaderResponseSize()
			if trace != nil && trace.Got1xxResponse != nil {
				if err := trace.Got1xxResponse(resCode, textproto.MIMEHeader(resp.Header)); err != nil {
					return nil, err
				}
			}
			continue
		}
		break
	}
	if resp.isProtocolSwitch() {
		resp.Body = newReadWriteCloserBody(pc.br, pc.conn)
	}
	if continueCh != nil {
		if resp.Close || rc.treq.Request.Close {
			zzrt.Close(continueCh)
		} else {
			zzrt.SendTo(continueCh)(struct{}{})
		}
	}
	resp.TLS = pc.tlsState
	return
}
func (pc *persistConn) waitForContinue(continueCh <-chan struct{}) func() bool {
	if continueCh == nil {
		return nil
	}
	return func() bool {
		timer := zzrt.NewTimer(pc.t.ExpectContinueTimeout)
		defer timer.Stop()
		zzrt.Y(-3056)
		switch zzc30, zzc31, zzc32 := zzrt.RecvCase(continueCh), zzrt.RecvCase(timer.C), zzrt.RecvCase(pc.closech); zzrt.Select(-3056, false, zzc30, zzc31, zzc32) {
		case 0:
			_, ok := zzc30.V2()
			return ok
		case 1:
			return true
		case 2:
			return false
		default:
			panic("sim: unreachable")
		}
	}
}
func newReadWriteCloserBody(br *bufio.Reader, rwc io.ReadWriteCloser) io.ReadWriteCloser {
	body := &readWriteCloserBody{ReadWriteCloser: rwc}
	if br.Buffered() != 0 {
		body.br = br
	}
	return body
}

type readWriteCloserBody struct {
	_	incomparable
	br	*bufio.Reader
	io.ReadWriteCloser
}

func (b *readWriteCloserBody) Read(p []byte) (n int, err error) {
	if b.br != nil {
		if n := b.br.Buffered(); len(p) > n {
			p = p[:n]
		}
		n, err = b.br.Read(p)
		if b.br.Buffered() == 0 {
			b.br = nil
		}
		return n, err
	}
	return b.ReadWriteCloser.Read(p)
}

type nothingWrittenError struct{ error }

func (nwe nothingWrittenError) Unwrap() error {
	return nwe.error
}
func (pc *persistConn) writeLoop() {
	defer zzrt.Close(pc.writeLoopDone)
	for {
		zzrt.Y(-3057)
		switch zzc33, zzc34 := zzrt.RecvCase(pc.writech), zzrt.RecvCase(pc.closech); zzrt.Select(-3057, false, zzc33, zzc34) {
		case 0:
			wr := zzc33.V()
			startBytesWritten := pc.nwrite
			err := wr.req.Request.write(pc.bw, pc.isProxy, wr.req.extra, pc.waitForContinue(wr.continueCh))
			if bre, ok := err.(requestBodyReadError); ok {
				err = bre.error
				wr.req.setError(err)
			}
			if err == nil {
				err = pc.bw.Flush()
			}
			if err != nil {
				if pc.nwrite == startBytesWritten {
					err = nothingWrittenError{err}
				}
			}
			zzrt.SendTo(pc.writeErrCh)(err)
			zzrt.SendTo(wr.ch)(err)
			if err != nil {
				pc.close(err)
				return
			}
		case 1:
			return
		default:
			panic("sim: unreachable")
		}
	}
}

var maxWriteWaitBeforeConnReuse = 50 * time.Millisecond

func (pc *persistConn) wroteRequest() bool {
	zzrt.Y(-3058)
	switch zzc35 := zzrt.RecvCase(pc.writeErrCh); zzrt.Select(-3058, true, zzc35) {
	case 0:
		err := zzc35.V()
		return err == nil
	default:
		t := zzrt.NewTimer(maxWriteWaitBeforeConnReuse)
		defer t.Stop()
		zzrt.Y(-3059)
		switch zzc36, zzc37 := zzrt.RecvCase(pc.writeErrCh), zzrt.RecvCase(t.C); zzrt.Select(-3059, false, zzc36, zzc37) {
		case 0:
			err := zzc36.V()
			return err == nil
		case 1:
			return false
		default:
			panic("sim: unreachable")
		}
	}
}

type responseAndError struct {
	_	incomparable
	res	*Response
	err	error
}
type requestAndChan struct {
	_	incomparable
	treq	*transportRequest
	ch	chan responseAndError
	addedGzip	bool
	continueCh	chan<- struct{}
	callerGone	<-chan struct{}
}
type writeRequest struct {
	req	*transportRequest
	ch	chan<- error
	continueCh	<-chan struct{}
}
type timeoutError struct{ err string }

func (e *timeoutError) Error() string {
	return e.err
}
func (e *timeoutError) Timeout() bool {
	return true
}
func (e *timeoutError) Temporary() bool {
	return true
}
func (e *timeoutError) Is(err error) bool {
	return err == context.DeadlineExceeded
}

var errTimeout error = &timeoutError{"net/http: timeout awaiting response headers"}
var errRequestCanceled = http2errRequestCanceled
var errRequestCanceledConn = errors.New("net/http: request canceled while waiting for connection")
var errRequestDone = errors.New("net/http: request completed")

func nop() {
}

var (
	testHookEnterRoundTrip		= nop
	testHookWaitResLoop		= nop
	testHookRoundTripRetried		= nop
	testHookPrePendingDial		= nop
	testHookPostPendingDial		= nop
	testHookMu	sync.Locker	= fakeLocker{}
	testHookReadLoopBeforeNextRead		= nop
)

func (pc *persistConn) roundTrip(req *transportRequest) (resp *Response, err error) {
	testHookEnterRoundTrip()
	pc.mu.Lock()
	pc.numExpectedResponses++
	headerFn := pc.mutateHeaderFunc
	pc.mu.Unlock()
	if headerFn != nil {
		headerFn(req.extraHeaders())
	}
	requestedGzip := false
	if !pc.t.DisableCompression && req.Header.Get("Accept-Encoding") == "" && req.Header.Get("Range") == "" && req.Method != "HEAD" {
		requestedGzip = true
		req.extraHeaders().Set("Accept-Encoding", "gzip")
	}
	var continueCh chan struct{}
	if req.ProtoAtLeast(1, 1) && req.Body != nil && req.expectsContinue() {
		continueCh = make(chan struct{}, 1)
	}
	if pc.t.DisableKeepAlives && !req.wantsClose() && !isProtocolSwitchHeader(req.Header) {
		req.extraHeaders().Set("Connection", "close")
	}
	gone := make(chan struct{})
	defer zzrt.Close(gone)
	const debugRoundTrip = false
	startBytesWritten := pc.nwrite
	writeErrCh := make(chan error, 1)
	zzrt.SendTo(pc.writech)(writeRequest{req, writeErrCh, continueCh})
	resc := make(chan responseAndError)
	zzrt.SendTo(pc.reqch)(requestAndChan{treq: req, ch: resc, addedGzip: requestedGzip, continueCh: continueCh, callerGone: gone})
	handleResponse := func(re responseAndError) (*Response, error) {
		if (re.res == nil) == (re.err == nil) {
			panic(fmt.Sprintf("internal error: exactly one of res or err should be set; nil=%v", re.res == nil))
		}
		if debugRoundTrip {
			req.logf("resc recv: %p, %T/%#v", re.res, re.err, re.err)
		}
		if re.err != nil {
			return nil, pc.mapRoundTripError(req, startBytesWritten, re.err)
		}
		return re.res, nil
	}
	var respHeaderTimer <-chan time.Time
	ctxDoneChan := req.ctx.Done()
	pcClosed := pc.closech
	for {
		testHookWaitResLoop()
		zzrt.Y(-3060)
		switch zzc38, zzc39, zzc41, zzc42, zzc43 := zzrt.RecvCase(writeErrCh), zzrt.RecvCase(pcClosed), zzrt.RecvCase(respHeaderTimer), zzrt.RecvCase(resc), zzrt.RecvCase(ctxDoneChan); zzrt.Select(-3060, false, zzc38, zzc39, zzc41, zzc42, zzc43) {
		case 0:
			err := zzc38.V()
			if debugRoundTrip {
				req.logf("writeErrCh recv: %T/%#v", err, err)
			}
			if err != nil {
				pc.close(fmt.Errorf("write error: %w", err))
				return nil, pc.mapRoundTripError(req, startBytesWritten, err)
			}
			if d := pc.t.ResponseHeaderTimeout; d > 0 {
				if debugRoundTrip {
					req.logf("starting timer for %v", d)
				}
				timer := zzrt.NewTimer(d)
				defer timer.Stop()
				respHeaderTimer = timer.C
			}
		case 1:
			zzrt.Y(-3061)
			switch zzc40 := zzrt.RecvCase(resc); zzrt.Select(-3061, true, zzc40) {
			case 0:
				re := zzc40.V()
				return handleResponse(re)
			default:
			}
			if debugRoundTrip {
				req.logf("closech recv: %T %#v", pc.closed, pc.closed)
			}
			return nil, pc.mapRoundTripError(req, startBytesWritten, pc.closed)
		case 2:
			if debugRoundTrip {
				req.logf("timeout waiting for response headers.")
			}
			pc.close(errTimeout)
			return nil, errTimeout
		case 3:
			re := zzc42.V()
			return handleResponse(re)
		case 4:
			zzrt.Y(-3062)
			switch zzc44 := zzrt.RecvCase(resc); zzrt.Select(-3062, true, zzc44) {
			case 0:
				re := zzc44.V()
				return handleResponse(re)
			default:
			}
			pc.cancelRequest(zzrt.CtxCause(req.ctx))
		default:
			panic("sim: unreachable")
		}
	}
}

type tLogKey struct{}

func (tr *transportRequest) logf(format string, args ...any) {
	if logf, ok := tr.Request.Context().Value(tLogKey{}).(func(string, ...any)); ok {
		logf(zzrt.TimeNow().Format(time.RFC3339Nano)+": "+format, args...)
	}
}
func (pc *persistConn) markReused() {
	pc.mu.Lock()
	pc.reused = true
	pc.mu.Unlock()
}
func (pc *persistConn) close(err error) {
	pc.mu.Lock()
	defer pc.mu.Unlock()
	pc.closeLocked(err)
}
func (pc *persistConn) closeLocked(err error) {
	if err == nil {
		panic("nil error")
	}
	pc.broken = true
	if pc.closed == nil {
		pc.closed = err
		pc.t.decConnsPerHost(pc.cacheKey)
		if pc.alt == nil {
			if err != errCallerOwnsConn {
				pc.conn.Close()
			}
			zzrt.Close(pc.closech)
		}
	}
	pc.mutateHeaderFunc = nil
}

var portMap = map[string]string{"http": "80", "https": "443", "socks5": "1080", "socks5h": "1080"}

func idnaASCIIFromURL(url *url.URL) string {
	addr := url.Hostname()
	if v, err := idnaASCII(addr); err == nil {
		addr = v
	}
	return addr
}
func canonicalAddr(url *url.URL) string {
	port := url.Port()
	if port == "" {
		port = portMap[url.Scheme]
	}
	return net.JoinHostPort(idnaASCIIFromURL(url), port)
}

type bodyEOFSignal struct {
	body	io.ReadCloser
	mu	zzrt.Mutex
	closed	bool
	rerr	error
	fn	func(error) error
	earlyCloseFn	func() error
}

var errReadOnClosedResBody = errors.New("http: read on closed response body")

func (es *bodyEOFSignal) Read(p []byte) (n int, err error) {
	es.mu.Lock()
	closed, rerr := es.closed, es.rerr
	es.mu.Unlock()
	if closed {
		return 0, errReadOnClosedResBody
	}
	if rerr != nil {
		return 0, rerr
	}
	n, err = es.body.Read(p)
	if err != nil {
		es.mu.Lock()
		defer es.mu.Unlock()
		if es.rerr == nil {
			es.rerr = err
		}
		err = es.condfn(err)
	}
	return
}
func (es *bodyEOFSignal) Close() error {
	es.mu.Lock()
	defer es.mu.Unlock()
	if es.closed {
		return nil
	}
	es.closed = true
	if es.earlyCloseFn != nil && es.rerr != io.EOF {
		return es.earlyCloseFn()
	}
	err := es.body.Close()
	return es.condfn(err)
}
func (es *bodyEOFSignal) condfn(err error) error {
	if es.fn == nil {
		return err
	}
	err = es.fn(err)
	es.fn = nil
	return err
}

type gzipReader struct {
	_	incomparable
	body	*bodyEOFSignal
	zr	*gzip.Reader
	zerr	error
}

func (gz *gzipReader) Read(p []byte) (n int, err error) {
	if gz.zr == nil {
		if gz.zerr == nil {
			gz.zr, gz.zerr = gzip.NewReader(gz.body)
		}
		if gz.zerr != nil {
			return 0, gz.zerr
		}
	}
	gz.body.mu.Lock()
	if gz.body.closed {
		err = errReadOnClosedResBody
	}
	gz.body.mu.Unlock()
	if err != nil {
		return 0, err
	}
	return gz.zr.Read(p)
}
func (gz *gzipReader) Close() error {
	return gz.body.Close()
}

type tlsHandshakeTimeoutError struct{}

func (tlsHandshakeTimeoutError) Timeout() bool {
	return true
}
func (tlsHandshakeTimeoutError) Temporary() bool {
	return true
}
func (tlsHandshakeTimeoutError) Error() string {
	return "net/http: TLS handshake timeout"
}

type fakeLocker struct{}

func (fakeLocker) Lock() {
}
func (fakeLocker) Unlock() {
}
func cloneTLSConfig(cfg *tls.Config) *tls.Config {
	if cfg == nil {
		return &tls.Config{}
	}
	return cfg.Clone()
}

type connLRU struct {
	ll	*list.List
	m	map[*persistConn]*list.Element
}

func (cl *connLRU) add(pc *persistConn) {
	if cl.ll == nil {
		cl.ll = list.New()
		cl.m = make(map[*persistConn]*list.Element)
	}
	ele := cl.ll.PushFront(pc)
	if _, ok := cl.m[pc]; ok {
		panic("persistConn was already in LRU")
	}
	cl.m[pc] = ele
}
func (cl *connLRU) removeOldest() *persistConn {
	ele := cl.ll.Back()
	pc := ele.Value.(*persistConn)
	cl.ll.Remove(ele)
	delete(cl.m, pc)
	return pc
}
func (cl *connLRU) remove(pc *persistConn) {
	if ele, ok := cl.m[pc]; ok {
		cl.ll.Remove(ele)
		delete(cl.m, pc)
	}
}
func (cl *connLRU) len() int {
	return len(cl.m)
}


var _ = zzrt.Y
