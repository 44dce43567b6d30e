package gen

// real are names and texts as telemetry has them, by kind of word.
var real = map[string][]string{
	"k": {"service.name", "telemetry.sdk.language", "host.name", "http.request.method", "http.response.status_code", "exception.message",
		"deployment.environment", "service.instance.id", "k8s.pod.name", "process.pid", "db.statement", "net.peer.ip", "user_agent.original",
		"error", "level", "le", "__name__", "job", "trace_id", "span_id", "id", "name", "time", "type", "otel.scope.name", "telemetry.sdk.version",
		"service.namespace", "url.full", "messaging.system", "rpc.service", "enduser.id", "thread.id", "code.function", "cloud.region", "container.id",
		"service.version", "telemetry.sdk.name", "os.type", "sampled", "peer.service", "event.name", "exception.stacktrace", "a", "KEY", "Service.Name"},
	"v": {"checkout", "go", "GET", "200", "true", "false", "null", "0", "-1", "1.5", "unknown_service:rq", "10.0.0.1", "::1", "opentelemetry",
		"SELECT * FROM t WHERE a = 'b'", "https://example.com/a?b=c&d=e#f", "8f14e45f-ceea-467f-a834-0d0a5b1d4d2a", "2024-03-04T11:06:00Z",
		"NaN", "undefined", "{}", "[]", "linux", "prod", "PROD", " prod", "prod ", "goroutine 1 [running]:\nmain.main()\n\t/x.go:3", "*", ".", "/", "\\", "'"},
	"metric": {"http.server.request.duration", "process.cpu.time", "go_gc_duration_seconds", "up", "requests_total", "requests", "requests_bucket",
		"requests_sum", "requests_count", "samples.processed", "rq.db.size", "http_requests_total{code=\"200\"}", "a", "queueSize", "latency.p99"},
	"span":  {"GET /users/{id}", "GET", "SELECT", "HTTP POST", "root", "main.main", "/rq.v1.RQ/ScanSamples", "ingress", "a", "Recv.msg"},
	"scope": {"github.com/gernest/requiemdb", "rq", "io.opentelemetry.http", "my-lib", "main", "otelhttp", "a", "Rq"},
	"ver":   {"1.0.0", "0.1.0-SNAPSHOT", "v1.2.3+meta", "1", "dev", "1.0.0 ", "(devel)"},
	"u":     {"ms", "By", "1", "s", "%", "{request}", "ns", "us", "By/s", "Cel", "h", "min", "d", "kBy", "MiBy", "bit", "m"},
	"rs":    {"https://opentelemetry.io/schemas/1.24.0", "https://opentelemetry.io/schemas/1.4.0", "http://s", "schema"},
	"ss":    {"https://opentelemetry.io/schemas/1.24.0", "https://opentelemetry.io/schemas/1.21.0", "http://s", "schema"},
	"desc":  {"Total number of requests", "duration", "Sum over (a, b)", "x"},
	"ev":    {"exception", "message", "retry", "log"},
	"msg":   {"context deadline exceeded", "ok", "rpc error: code = Unavailable desc = x", "EOF"},
	"ts":    {"congo=t61rcWkgMzE,rojo=00f067aa0ba902b7", "k=v", "ot=th:8", "a"},
}
