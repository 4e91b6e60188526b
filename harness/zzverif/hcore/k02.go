package hcore

import (
	"context"
	"errors"
	"io"
	"os"
	"strings"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	cbus_cli "github.com/aperturerobotics/controllerbus/cli"
	"github.com/aperturerobotics/controllerbus/controller"
	exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hfs"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/starpc/srpc"
)

var (
	errOpen   = errors.New("the call fails")
	errStream = errors.New("the stream fails")
)

type ctxKey struct{}

// apiClient is a client with given answers.
type apiClient struct {
	ctx   context.Context
	calls int
	req   *exec.ExecControllerRequest
	// openErr is returned by the calls
	openErr error
	info    *bus_api.GetBusInfoResponse
	// answers are received, followed by end
	answers []*exec.ExecControllerResponse
	end     error
}

func (c *apiClient) SRPCClient() srpc.Client { return nil }

func (c *apiClient) GetBusInfo(ctx context.Context, in *bus_api.GetBusInfoRequest) (*bus_api.GetBusInfoResponse, error) {
	c.calls++
	c.ctx = ctx
	if c.openErr != nil {
		return nil, c.openErr
	}
	return c.info, nil
}

func (c *apiClient) ExecController(ctx context.Context, in *exec.ExecControllerRequest) (bus_api.SRPCControllerBusService_ExecControllerClient, error) {
	c.calls++
	c.ctx, c.req = ctx, in
	if c.openErr != nil {
		return nil, c.openErr
	}
	return &apiStream{c: c}, nil
}

type apiStream struct {
	srpc.Stream
	c *apiClient
}

func (s *apiStream) Recv() (*exec.ExecControllerResponse, error) {
	if len(s.c.answers) == 0 {
		return nil, s.c.end
	}
	a := s.c.answers[0]
	s.c.answers = s.c.answers[1:]
	return a, nil
}

func (s *apiStream) RecvTo(m *exec.ExecControllerResponse) error {
	a, err := s.Recv()
	if err == nil {
		var data []byte
		if data, err = a.MarshalVT(); err == nil {
			err = m.UnmarshalVT(data)
		}
	}
	return err
}

// output returns what is written to the standard output.
func output(fs *hfs.FS, fn func()) string {
	f, err := os.Create(fs.Path("out"))
	sym.Assert(err == nil, "the output can be created")
	old := os.Stdout
	os.Stdout = f
	fn()
	os.Stdout = old
	_ = f.Close()
	s, _ := fs.Read("out")
	return s
}

// K02Exec runs the command which executes controllers.
//
//verif:prop K02
//verif:bounds 0 to 3 answers with each status, arbitrary characters and any error, ended in 4 ways; failing calls; no file, one with a JSON object, one which is not valid or one which does not exist; with and without a context
//verif:quick preempt=0
//verif:thorough preempt=0
func K02Exec() {
	fs := hfs.New()
	defer fs.Close()
	c := &apiClient{end: []error{io.EOF, context.Canceled, errStream, io.ErrUnexpectedEOF}[sym.Choose("end", 4)]}
	if sym.Bool("fail") {
		c.openErr = errOpen
	}
	var want []*exec.ExecControllerResponse
	n := sym.Choose("answers", 4)
	for i := 0; i < n; i++ {
		a := &exec.ExecControllerResponse{Id: string(rune('a' + i)), Status: exec.ControllerStatus(i)}
		if i == 1 {
			a.ErrorInfo = "e\n"
		}
		if i == 2 {
			a.ControllerInfo = &controller.Info{Id: "c", Version: "1.2.3"}
		}
		want = append(want, a.CloneVT())
		c.answers = append(c.answers, a)
	}
	var args cbus_cli.ClientArgs
	hasCtx := sym.Bool("ctx")
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	if hasCtx {
		args.SetContext(ctx)
	}
	args.SetClient(c)
	conf := ""
	file := sym.Choose("file", 4)
	switch file {
	case 1:
		conf = `{"a":{"config":{},"id":"x","rev":1}}`
		fs.Write("conf", conf)
	case 2:
		fs.Write("conf", "a: b: c")
	}
	if file != 0 {
		args.ExecConfigSetPath = fs.Path("conf")
	}
	var err error
	out := output(fs, func() { err = args.RunExecController(nil) })
	if file > 1 {
		sym.Assert(err != nil && c.calls == 0 && out == "", "nothing is executed if the file cannot be read")
		sym.Assert(file == 2 || errors.Is(err, os.ErrNotExist), "the error of the file is returned")
		sym.Cover("end")
		return
	}
	sym.Assert(c.calls == 1 && c.req != nil && c.req.GetConfigSetYaml() == conf, "the request is sent once")
	sym.Assert(c.ctx != nil && (!hasCtx || c.ctx.Value(ctxKey{}) == 1), "the context is used")
	if c.openErr != nil {
		sym.Assert(err == errOpen && out == "", "the error of the call is returned")
		sym.Cover("end")
		return
	}
	if c.end == io.EOF || c.end == context.Canceled {
		sym.Assert(err == nil, "the end of the answers is no error")
	} else {
		sym.Assert(err == c.end, "the error of the answers is returned")
	}
	lines := strings.Split(out, "\n")
	sym.Assert(len(lines) == n+1 && lines[n] == "", "every answer is printed on a line")
	for i, w := range want {
		got := &exec.ExecControllerResponse{}
		sym.Assert(got.UnmarshalJSON([]byte(lines[i])) == nil && got.EqualVT(w), "the answers are printed in order")
	}
	sym.Cover("end")
}

// K02Info runs the command which prints the information.
//
//verif:prop K02
//verif:bounds 0 to 2 controllers and directives with up to 2 debug values; failing calls and no information; text or JSON
//verif:quick preempt=0
//verif:thorough preempt=0
func K02Info() {
	fs := hfs.New()
	defer fs.Close()
	c := &apiClient{}
	if sym.Bool("fail") {
		c.openErr = errOpen
	}
	want := "● no data\n"
	pretty := sym.Bool("pretty")
	if !pretty || !sym.Bool("none") {
		c.info = &bus_api.GetBusInfoResponse{}
		want = "✓ controller-bus running\nControllers:"
		n := sym.Choose("controllers", 3)
		for i := 0; i < n; i++ {
			id := string(rune('a' + i))
			c.info.RunningControllers = append(c.info.RunningControllers, &controller.Info{Id: id, Version: "1.0." + id})
			want += "\n\t" + id + " 1.0." + id
		}
		if n == 0 {
			want += " [none]"
		}
		want += "\nDirectives:"
		n = sym.Choose("directives", 3)
		for i := 0; i < n; i++ {
			name := string(rune('x' + i))
			info := &directive.DirectiveInfo{Name: name}
			want += "\n\t" + name
			for k := 0; k < i+1; k++ {
				key := string(rune('k' + k))
				v := &directive.ProtoDebugValue{Key: key}
				want += "\n\t\t" + key
				if k == 1 {
					v.Values = []string{"1", "2"}
					want += " = 1, 2"
				}
				info.DebugVals = append(info.DebugVals, v)
			}
			c.info.RunningDirectives = append(c.info.RunningDirectives, &directive.DirectiveState{Info: info})
		}
		if n == 0 {
			want += " [none]"
		}
		want += "\n"
	}
	args := cbus_cli.ClientArgs{Interactive: pretty}
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	args.SetContext(ctx)
	args.SetClient(c)
	var err error
	out := output(fs, func() { err = args.RunBusInfo(nil) })
	sym.Assert(c.calls == 1 && c.ctx.Value(ctxKey{}) == 1, "the information is requested once")
	if c.openErr != nil {
		sym.Assert(err == errOpen && out == "", "the error of the call is returned")
	} else if pretty {
		sym.Assert(err == nil && out == want, "the information is printed")
	} else {
		got := &bus_api.GetBusInfoResponse{}
		sym.Assert(err == nil && strings.HasSuffix(out, "}\n"), "the information is printed")
		sym.Assert(got.UnmarshalJSON([]byte(out)) == nil && got.EqualVT(c.info), "the printed message is the information")
	}
	sym.Cover("end")
}

// K02Client builds the client.
//
//verif:prop K02
//verif:bounds with and without a client, a context and an address
//verif:quick preempt=0
//verif:thorough preempt=0
func K02Client() {
	fs := hfs.New()
	defer fs.Close()
	var args cbus_cli.ClientArgs
	_ = args.GetContext().Err()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	args.SetContext(ctx)
	sym.Assert(args.GetContext() == ctx, "the context is the one which was set")
	got, err := args.BuildClient()
	sym.Assert(got == nil && err != nil, "there is no client without an address")
	out := output(fs, func() {
		if sym.Bool("info") {
			err = args.RunBusInfo(nil)
		} else {
			err = args.RunExecController(nil)
		}
	})
	sym.Assert(err != nil && out == "", "the commands fail without a client")
	c := &apiClient{}
	args.SetClient(c)
	if sym.Bool("addr") {
		args.DialAddr = "unused"
	}
	got, err = args.BuildClient()
	sym.Assert(got == bus_api.SRPCControllerBusServiceClient(c) && err == nil, "the client is the one which was set")
	sym.Cover("end")
}
