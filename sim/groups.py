# Which packages each simulator binary is built from, and which binaries decide
# which property.
GR = "github.com/go-redis/redis/v7"
GR_PKGS = [GR, GR + "/internal", GR + "/internal/pool"]
SKY = "github.com/SkyAPM/go2sky"
ROUTING = "github.com/qiangxue/fasthttp-routing"
MYSQL, PQ, SQLPLUG = "github.com/go-sql-driver/mysql", "github.com/lib/pq", "github.com/SkyAPM/go2sky-plugins/sql"
FASTHTTP = "github.com/valyala/fasthttp"
ES = "github.com/elastic/go-elasticsearch/v7"
GROUPS = {
    "escfg": {"pkgs": ["confs"], "extra_mod": [ES], "light": [ES, ES + "/estransport", ES + "/esapi"],
              "swap": {"net/http": "github.com/chanjarster/gears/zzsim/zhttp"}},
    "httpcfg": {"pkgs": ["confs"], "extra_mod": [FASTHTTP], "light": [FASTHTTP], "extra": [FASTHTTP], "net": [FASTHTTP]},
    "sqlcfg": {"pkgs": ["confs"], "extra_mod": [MYSQL, PQ, SQLPLUG], "light": [MYSQL, PQ, SQLPLUG], "net": [MYSQL, PQ],
               "swap": {"database/sql": "github.com/chanjarster/gears/zzsim/zsql"}},
    "sky": {"pkgs": ["skywalking", "skywalking/redis", "skywalking/fasthttp", "skywalking/fasthttp-routing"], "extra_mod": [GR, SKY, ROUTING], "light": GR_PKGS, "extra": [SKY, ROUTING]},
    "redisrl": {"pkgs": ["ratelimiter", "util/time"], "extra_mod": [GR], "light": GR_PKGS},
    "conf": {"pkgs": ["confstore", "util/rsa"], "extra_mod": [GR], "light": GR_PKGS},
    "race": {"pkgs": ["concurrent", "event", "schedule", "ratelimiter", "circuitbreaker", "confstore", "util/time"]},
    "cfg": {"pkgs": ["conf", "confs"], "extra_mod": [GR], "light": GR_PKGS},
    "sema": {"pkgs": ["concurrent"]},
    "event": {"pkgs": ["event"]},
    "schedule": {"pkgs": ["schedule"]},
    "rate": {"pkgs": ["ratelimiter", "util/time"]},
    "breaker": {"pkgs": ["circuitbreaker", "util/time"]},
}

PROPS = {
    "C38": {"parts": [{"group": "escfg"}], "mult": 12},
    "C37": {"parts": [{"group": "httpcfg"}], "mult": 10},
    "C36": {"parts": [{"group": "sqlcfg"}], "mult": 25},
    "C28": {"parts": [{"group": "cfg"}], "mult": 20},
    "C34": {"parts": [{"group": "cfg"}], "mult": 20},
    "C35": {"parts": [{"group": "cfg"}], "mult": 1},
    "C26": {"parts": [{"group": "sky"}], "mult": 2},
    "C27": {"parts": [{"group": "sky"}], "mult": 1.7},
    "C19": {"parts": [{"group": "redisrl"}], "mult": 1.5},
    "C20": {"parts": [{"group": "redisrl"}], "mult": 2.5},
    "C21": {"parts": [{"group": "conf"}], "mult": 2},
    "C22": {"parts": [{"group": "conf"}], "mult": 2},
    "C23": {"parts": [{"group": "conf"}], "mult": 2},
    "C24": {"parts": [{"group": "conf"}], "mult": 1.4},
    "C25": {"parts": [{"group": "race", "race": True}], "mult": 1.5},
    "C15": {"parts": [{"group": "rate"}], "mult": 7},
    "C16": {"parts": [{"group": "rate"}], "mult": 5},
    "C17": {"parts": [{"group": "rate"}], "mult": 5},
    "C18": {"parts": [{"group": "rate"}], "mult": 3.5},
    "C10": {"parts": [{"group": "schedule"}], "mult": 4},
    "C11": {"parts": [{"group": "schedule"}], "mult": 1.5},
    "C12": {"parts": [{"group": "schedule"}], "mult": 5},
    "C13": {"parts": [{"group": "schedule"}], "mult": 7},
    "C14": {"parts": [{"group": "schedule"}], "mult": 2.5},
    "C01": {"parts": [{"group": "breaker"}], "mult": 12},
    "C02": {"parts": [{"group": "breaker"}], "mult": 6},
    "C03": {"parts": [{"group": "breaker"}], "mult": 10},
    "C04": {"parts": [{"group": "sema"}], "mult": 20},
    "C06": {"parts": [{"group": "event"}], "mult": 4},
    "C07": {"parts": [{"group": "event"}], "mult": 7},
    "C08": {"parts": [{"group": "event"}], "mult": 12},
    "C09": {"parts": [{"group": "event"}], "mult": 4},
    "C05": {"parts": [{"group": "sema"}], "mult": 20},
}
