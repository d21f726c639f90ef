package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net"
	"net/http"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/gin-contrib/static"
	"github.com/gin-gonic/gin"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/storage"
	"go.opencensus.io/trace"
)

func init() {
	if !vsym.Symbolic() && os.Getenv("VSYM_REPLAY") != "" {
		vsym.Main(map[string]func(){
			"VH_C31_requests": VH_C31_requests,
			"VH_C31_together": VH_C31_together,
			"VH_C31_backup":   VH_C31_backup,
			"VH_C31_backups":  VH_C31_backups,
			"VH_C31_fault":    VH_C31_fault,
			"VH_C31_full":     VH_C31_full,
		})
	}
}

// The web framework, the HTTP server, signals and timers are modelled: routes
// are kept and matched, a request runs its handler, the server ends when it is
// shut down. Natively the requests go to the real server.

type vhRoute struct {
	method, path string
	h            gin.HandlerFunc
}

// vhRequest is a request and the answer to it.
type vhRequest struct {
	method, path string
	file         []byte // uploaded, nil for none
	pieces       bool   // it arrives in pieces

	code   int
	out    []byte
	id     uint64      // in the answer to a put
	length string      // announced in the header
	obj    interface{} // answered as JSON
	param  map[string]string
}

var vh struct {
	routes []vhRoute
	calls  map[*gin.Context]*vhRequest
	driver func()
	clock  int
	nums   []uint64 // numbers of any value in the paths, written #0, #1...
	down   chan struct{}
	timers []chan time.Time // those of less than a second
	ticks  []chan time.Time // the others
}

func model_gin_Default() *gin.Engine                                       { return new(gin.Engine) }
func model_gin_New() *gin.Engine                                           { return new(gin.Engine) }
func model_gin_Engine_Use(g *gin.Engine, h ...gin.HandlerFunc) gin.IRoutes { return nil }
func model_gin_RouterGroup_Use(g *gin.RouterGroup, h ...gin.HandlerFunc) gin.IRoutes {
	return nil
}
func model_gin_RouterGroup_GET(g *gin.RouterGroup, path string, h ...gin.HandlerFunc) gin.IRoutes {
	vh.routes = append(vh.routes, vhRoute{"GET", path, h[len(h)-1]})
	return nil
}
func model_gin_RouterGroup_POST(g *gin.RouterGroup, path string, h ...gin.HandlerFunc) gin.IRoutes {
	vh.routes = append(vh.routes, vhRoute{"POST", path, h[len(h)-1]})
	return nil
}
func model_gin_Context_Param(c *gin.Context, key string) string { return vh.calls[c].param[key] }
func model_gin_Context_Status(c *gin.Context, code int)         { vh.calls[c].code = code }
func model_gin_Context_Header(c *gin.Context, key, value string) {
	if strings.ToLower(key) == "content-length" {
		vh.calls[c].length = value
	}
}
func model_gin_Context_JSON(c *gin.Context, code int, obj interface{}) {
	vh.calls[c].code, vh.calls[c].obj = code, obj
}
func model_gin_Context_String(c *gin.Context, code int, format string, values ...interface{}) {
	vh.calls[c].code = code
	for _, v := range values {
		if id, ok := v.(uint64); ok {
			vh.calls[c].id = id
		}
	}
}

type vhWriter struct{ r *vhRequest }

func (w vhWriter) Write(b []byte) (int, error) {
	w.r.out = append(w.r.out, b...)
	return len(b), nil
}
func model_gin_Context_Stream(c *gin.Context, step func(w io.Writer) bool) bool {
	for step(vhWriter{vh.calls[c]}) {
	}
	return false
}
func model_gin_Context_Data(c *gin.Context, code int, kind string, data []byte) {
	vh.calls[c].code = code
	vhWriter{vh.calls[c]}.Write(data)
}

// vhFile is an uploaded file.
type vhFile struct {
	data   []byte
	pieces bool
}

func (f *vhFile) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	if f.pieces && len(b) > 3 {
		b = b[:3]
		f.pieces = false
	}
	n := copy(b, f.data)
	f.data = f.data[n:]
	return n, nil
}
func (f *vhFile) ReadAt(b []byte, off int64) (int, error) { panic("ReadAt of an upload") }
func (f *vhFile) Seek(off int64, whence int) (int64, error) {
	panic("Seek of an upload")
}
func (f *vhFile) Close() error { return nil }

var vhRequests map[*http.Request]*vhRequest

func model_http_Request_FormFile(r *http.Request, key string) (multipart.File, *multipart.FileHeader, error) {
	q := vhRequests[r]
	if q == nil || q.file == nil || key != "file" {
		return nil, nil, errors.New("http: no such file")
	}
	return &vhFile{q.file, q.pieces}, &multipart.FileHeader{Size: int64(len(q.file))}, nil
}
func model_http_Server_ListenAndServe(s *http.Server) error {
	<-vh.down
	return http.ErrServerClosed
}
func model_http_Server_Shutdown(s *http.Server, ctx context.Context) error {
	close(vh.down)
	return nil
}
func model_http_Server_Close(s *http.Server) error { close(vh.down); return nil }
func model_pprof_Register(r *gin.Engine, prefix ...string) {
}
func model_static_Serve(prefix string, fs static.ServeFileSystem) gin.HandlerFunc { return nil }
func model_static_LocalFile(root string, indexes bool) *int                       { return nil }
func model_trace_StartSpan(ctx context.Context, name string, o ...trace.StartOption) (context.Context, *trace.Span) {
	return ctx, nil
}
func model_context_WithTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return ctx, func() {}
}
func model_signal_Notify(c chan<- os.Signal, sigs ...os.Signal) {
	d := vh.driver
	vsym.Go(func() {
		vsym.Idle()
		d()
		c <- syscall.SIGINT
	})
}
func model_time_After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	if d < time.Second {
		vh.timers = append(vh.timers, c)
	} else {
		vh.ticks = append(vh.ticks, c)
	}
	return c
}

// vhNum is the number as it stands in a path.
func vhNum(n uint64) string {
	if !vsym.Symbolic() {
		return strconv.FormatUint(n, 10)
	}
	vh.nums = append(vh.nums, n)
	return "#" + strconv.Itoa(len(vh.nums)-1)
}

func model_strconv_ParseUint(s string, base int, bits int) (uint64, error) {
	if bits == 0 {
		bits = 64
	}
	n := uint64(0)
	if s != "" && s[0] == '#' && (base == 10 || base == 0) {
		k := 0
		for i := 1; i < len(s); i++ {
			k = k*10 + int(s[i]-'0')
		}
		n = vh.nums[k]
	} else {
		if s == "" || base != 10 && base != 0 {
			return 0, strconv.ErrSyntax
		}
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return 0, strconv.ErrSyntax
			}
			d := uint64(s[i] - '0')
			if n > (1<<64-1-d)/10 {
				return 1<<64 - 1, strconv.ErrRange
			}
			n = n*10 + d
		}
	}
	if bits < 64 && n >= 1<<uint(bits) {
		return 1<<uint(bits) - 1, strconv.ErrRange
	}
	return n, nil
}
func model_strconv_ParseInt(s string, base int, bits int) (int64, error) {
	n, err := model_strconv_ParseUint(s, base, bits)
	if bits == 0 {
		bits = 64
	}
	if err == nil && n >= 1<<uint(bits-1) {
		return 1<<uint(bits-1) - 1, strconv.ErrRange
	}
	return int64(n), err
}
func model_strconv_Atoi(s string) (int, error) {
	n, err := model_strconv_ParseInt(s, 10, 64)
	return int(n), err
}

func model_time_Time_Format(t time.Time, layout string) string {
	vh.clock++
	return "t" + strconv.Itoa(vh.clock)
}

var _ = signal.Notify

// vhTick lets time pass: what waits for less than a second goes on.
func vhTick() {
	if vsym.Symbolic() {
		l := vh.timers
		vh.timers = nil
		for _, c := range l {
			c <- time.Time{}
		}
	}
	vsym.Idle()
}

// vhPause lets some seconds pass; natively nobody waits for that.
func vhPause() {
	if !vsym.Symbolic() {
		return
	}
	l := vh.ticks
	vh.ticks = nil
	for _, c := range l {
		c <- time.Time{}
	}
	vsym.Idle()
}

// vhServe runs the service on the store until the driver has done its requests
// and the process was told to end.
func vhServe(st *storage.Storage, driver func()) {
	if vsym.Symbolic() {
		vh.routes, vh.timers, vh.ticks, vh.nums = nil, nil, nil, nil
		vh.calls = map[*gin.Context]*vhRequest{}
		vhRequests = map[*http.Request]*vhRequest{}
		vh.driver = driver
		vh.down = make(chan struct{})
		http.ErrServerClosed = errors.New("http: Server closed")
		ServeStore(st)
		vsym.Join()
		return
	}
	if f, err := os.OpenFile(os.TempDir()+"/vsym8081.lock", os.O_CREATE|os.O_RDWR, 0644); err == nil {
		// one service at a time has the port
		syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
		defer f.Close()
	}
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = io.Discard
	vsym.Go(func() {
		for i := 0; i < 100; i++ {
			if c, err := net.Dial("tcp", "127.0.0.1:8081"); err == nil {
				c.Close()
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		driver()
		time.Sleep(50 * time.Millisecond)
		http.DefaultClient.CloseIdleConnections()
		syscall.Kill(syscall.Getpid(), syscall.SIGINT)
	})
	ServeStore(st)
	vsym.Join()
}

func vhMatch(pattern, path string) (map[string]string, bool) {
	m := map[string]string{}
	for i := 0; ; i++ {
		if i == len(pattern) {
			return m, i == len(path)
		}
		if pattern[i] == '*' {
			m[pattern[i+1:]] = path[i-1:]
			return m, true
		}
		if pattern[i] == ':' {
			m[pattern[i+1:]] = path[i:]
			return m, path[i:] != "" && !strings.Contains(path[i:], "/")
		}
		if i >= len(path) || path[i] != pattern[i] {
			return nil, false
		}
	}
}

// do makes the request and waits for the answer.
func (q *vhRequest) do() *vhRequest {
	if !vsym.Symbolic() {
		q.native()
		return q
	}
	for _, r := range vh.routes {
		if r.method != q.method {
			continue
		}
		m, ok := vhMatch(r.path, q.path)
		if !ok {
			continue
		}
		q.param, q.code = m, 200
		c := new(gin.Context)
		c.Request = new(http.Request)
		vh.calls[c] = q
		vhRequests[c.Request] = q
		h := r.h
		if _, p := vsym.Try(func() { h(c) }); p {
			q.code = 500
		}
		if q.length != "" && q.length != strconv.Itoa(len(q.out)) {
			vsym.Fail("the announced length is not that of the answer: " + q.length + " " + strconv.Itoa(len(q.out)))
		}
		return q
	}
	q.code = 404
	return q
}

func (q *vhRequest) native() {
	var body bytes.Buffer
	kind := ""
	if q.file != nil {
		w := multipart.NewWriter(&body)
		f, _ := w.CreateFormFile("file", "x")
		f.Write(q.file)
		w.Close()
		kind = w.FormDataContentType()
	}
	r, _ := http.NewRequest(q.method, "http://127.0.0.1:8081"+q.path, &body)
	if kind != "" {
		r.Header.Set("Content-Type", kind)
	}
	res, err := http.DefaultClient.Do(r)
	if err != nil {
		q.code = 599
		return
	}
	defer res.Body.Close()
	q.code = res.StatusCode
	q.out, err = io.ReadAll(res.Body)
	if err != nil {
		q.code = 599
	}
	fmt.Sscanf(string(q.out), "The ID is %d", &q.id)
}
