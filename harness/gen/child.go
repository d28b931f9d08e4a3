package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"

	"github.com/webrpc/webrpc/gen"
	engine "verifengine"
)

// A child is another process that generates code on request.
type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type request struct {
	Text, Target string
	Opts         map[string]any
	Args         []string
	Format       bool
}

type response struct {
	Code, Err, Fmt string
}

var theChild *child

func childMain() {
	in := json.NewDecoder(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for {
		var r request
		if in.Decode(&r) != nil {
			return
		}
		os.Args = r.Args
		_ = out.Encode(generate(r))
	}
}

func generate(r request) (res response) {
	s, err := parseText(r.Text)
	if err != nil {
		return response{Err: "parse: " + err.Error()}
	}
	out, err := gen.Generate(s, r.Target, &gen.Config{TemplateOptions: r.Opts, Format: r.Format})
	if err != nil {
		return response{Err: err.Error()}
	}
	res.Code = out.Code
	if out.FormatErr != nil {
		res.Fmt = out.FormatErr.Error()
	}
	return res
}

// elsewhere generates in another process.
func elsewhere(w *engine.W, r request) (response, error) {
	if theChild == nil {
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		c := &child{cmd: exec.Command(exe, "-child")}
		c.cmd.Dir = w.Dir
		c.in, _ = c.cmd.StdinPipe()
		out, _ := c.cmd.StdoutPipe()
		c.out = bufio.NewReader(out)
		if err := c.cmd.Start(); err != nil {
			panic(err)
		}
		theChild = c
	}
	c := theChild
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	var res response
	_, err = c.in.Write(b)
	if err == nil {
		var line []byte
		if line, err = c.out.ReadBytes('\n'); err == nil {
			err = json.Unmarshal(line, &res)
		}
	}
	if err != nil {
		_ = c.in.Close()
		werr := c.cmd.Wait()
		theChild = nil
		return res, fmt.Errorf("the other process ended: %v, %v", err, werr)
	}
	return res, nil
}
