//go:build go1.21

// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see
// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).

package http

import zzrt "github.com/chanjarster/gears/zzsim/rt"

const (
	StatusContinue	= 100
	StatusSwitchingProtocols	= 101
	StatusProcessing	= 102
	StatusEarlyHints	= 103
	StatusOK	= 200
	StatusCreated	= 201
	StatusAccepted	= 202
	StatusNonAuthoritativeInfo	= 203
	StatusNoContent	= 204
	StatusResetContent	= 205
	StatusPartialContent	= 206
	StatusMultiStatus	= 207
	StatusAlreadyReported	= 208
	StatusIMUsed	= 226
	StatusMultipleChoices	= 300
	StatusMovedPermanently	= 301
	StatusFound	= 302
	StatusSeeOther	= 303
	StatusNotModified	= 304
	StatusUseProxy	= 305
	_	= 306
	StatusTemporaryRedirect	= 307
	StatusPermanentRedirect	= 308
	StatusBadRequest	= 400
	StatusUnauthorized	= 401
	StatusPaymentRequired	= 402
	StatusForbidden	= 403
	StatusNotFound	= 404
	StatusMethodNotAllowed	= 405
	StatusNotAcceptable	= 406
	StatusProxyAuthRequired	= 407
	StatusRequestTimeout	= 408
	StatusConflict	= 409
	StatusGone	= 410
	StatusLengthRequired	= 411
	StatusPreconditionFailed	= 412
	StatusRequestEntityTooLarge	= 413
	StatusRequestURITooLong	= 414
	StatusUnsupportedMediaType	= 415
	StatusRequestedRangeNotSatisfiable	= 416
	StatusExpectationFailed	= 417
	StatusTeapot	= 418
	StatusMisdirectedRequest	= 421
	StatusUnprocessableEntity	= 422
	StatusLocked	= 423
	StatusFailedDependency	= 424
	StatusTooEarly	= 425
	StatusUpgradeRequired	= 426
	StatusPreconditionRequired	= 428
	StatusTooManyRequests	= 429
	StatusRequestHeaderFieldsTooLarge	= 431
	StatusUnavailableForLegalReasons	= 451
	StatusInternalServerError	= 500
	StatusNotImplemented	= 501
	StatusBadGateway	= 502
	StatusServiceUnavailable	= 503
	StatusGatewayTimeout	= 504
	StatusHTTPVersionNotSupported	= 505
	StatusVariantAlsoNegotiates	= 506
	StatusInsufficientStorage	= 507
	StatusLoopDetected	= 508
	StatusNotExtended	= 510
	StatusNetworkAuthenticationRequired	= 511
)

func StatusText(code int) string {
	switch code {
	case StatusContinue:
		return "Continue"
	case StatusSwitchingProtocols:
		return "Switching Protocols"
	case StatusProcessing:
		return "Processing"
	case StatusEarlyHints:
		return "Early Hints"
	case StatusOK:
		return "OK"
	case StatusCreated:
		return "Created"
	case StatusAccepted:
		return "Accepted"
	case StatusNonAuthoritativeInfo:
		return "Non-Authoritative Information"
	case StatusNoContent:
		return "No Content"
	case StatusResetContent:
		return "Reset Content"
	case StatusPartialContent:
		return "Partial Content"
	case StatusMultiStatus:
		return "Multi-Status"
	case StatusAlreadyReported:
		return "Already Reported"
	case StatusIMUsed:
		return "IM Used"
	case StatusMultipleChoices:
		return "Multiple Choices"
	case StatusMovedPermanently:
		return "Moved Permanently"
	case StatusFound:
		return "Found"
	case StatusSeeOther:
		return "See Other"
	case StatusNotModified:
		return "Not Modified"
	case StatusUseProxy:
		return "Use Proxy"
	case StatusTemporaryRedirect:
		return "Temporary Redirect"
	case StatusPermanentRedirect:
		return "Permanent Redirect"
	case StatusBadRequest:
		return "Bad Request"
	case StatusUnauthorized:
		return "Unauthorized"
	case StatusPaymentRequired:
		return "Payment Required"
	case StatusForbidden:
		return "Forbidden"
	case StatusNotFound:
		return "Not Found"
	case StatusMethodNotAllowed:
		return "Method Not Allowed"
	case StatusNotAcceptable:
		return "Not Acceptable"
	case StatusProxyAuthRequired:
		return "Proxy Authentication Required"
	case StatusRequestTimeout:
		return "Request Timeout"
	case StatusConflict:
		return "Conflict"
	case StatusGone:
		return "Gone"
	case StatusLengthRequired:
		return "Length Required"
	case StatusPreconditionFailed:
		return "Precondition Failed"
	case StatusRequestEntityTooLarge:
		return "Request Entity Too Large"
	case StatusRequestURITooLong:
		return "Request URI Too Long"
	case StatusUnsupportedMediaType:
		return "Unsupported Media Type"
	case StatusRequestedRangeNotSatisfiable:
		return "Requested Range Not Satisfiable"
	case StatusExpectationFailed:
		return "Expectation Failed"
	case StatusTeapot:
		return "I'm a teapot"
	case StatusMisdirectedRequest:
		return "Misdirected Request"
	case StatusUnprocessableEntity:
		return "Unprocessable Entity"
	case StatusLocked:
		return "Locked"
	case StatusFailedDependency:
		return "Failed Dependency"
	case StatusTooEarly:
		return "Too Early"
	case StatusUpgradeRequired:
		return "Upgrade Required"
	case StatusPreconditionRequired:
		return "Precondition Required"
	case StatusTooManyRequests:
		return "Too Many Requests"
	case StatusRequestHeaderFieldsTooLarge:
		return "Request Header Fields Too Large"
	case StatusUnavailableForLegalReasons:
		return "Unavailable For Legal Reasons"
	case StatusInternalServerError:
		return "Internal Server Error"
	case StatusNotImplemented:
		return "Not Implemented"
	case StatusBadGateway:
		return "Bad Gateway"
	case StatusServiceUnavailable:
		return "Service Unavailable"
	case StatusGatewayTimeout:
		return "Gateway Timeout"
	case StatusHTTPVersionNotSupported:
		return "HTTP Version Not Supported"
	case StatusVariantAlsoNegotiates:
		return "Variant Also Negotiates"
	case StatusInsufficientStorage:
		return "Insufficient Storage"
	case StatusLoopDetected:
		return "Loop Detected"
	case StatusNotExtended:
		return "Not Extended"
	case StatusNetworkAuthenticationRequired:
		return "Network Authentication Required"
	default:
		return ""
	}
}


var _ = zzrt.Y
