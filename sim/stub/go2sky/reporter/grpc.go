// Stand-in for the connection to a SkyWalking server: records where a reporter was asked to
// connect to and hands out what the simulator provides.
package reporter

import (
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/SkyAPM/go2sky/logger"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

const (
	maxSendQueueSize     int32 = 30000
	defaultCheckInterval       = 20 * time.Second
	defaultCDSInterval         = 20 * time.Second
	defaultLogPrefix           = "go2sky-gRPC"
	authKey                    = "Authentication"
)

type gRPCReporter struct {
	service         string
	serviceInstance string
	instanceProps   map[string]string
	logger          logger.Log
	sendCh          chan *agentv3.SegmentObject
	checkInterval   time.Duration
	cdsInterval     time.Duration
	md              metadata.MD
	creds           credentials.TransportCredentials
	bootFlag        bool
}

// SimDial stands for the connection.
var SimDial func(addr string, check, cds time.Duration) (go2sky.Reporter, error)

func NewGRPCReporter(serverAddr string, opts ...GRPCReporterOption) (go2sky.Reporter, error) {
	r := &gRPCReporter{checkInterval: defaultCheckInterval, cdsInterval: defaultCDSInterval}
	for _, o := range opts {
		o(r)
	}
	return SimDial(serverAddr, r.checkInterval, r.cdsInterval)
}
