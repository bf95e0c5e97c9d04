//go:build ignore

package main

// Compiled with the generator of the width tables: the files of the Unicode Character Database are those of the directory
// ucd, and the network is not used. VERIF_FAULT is <fault>:<file>, the fault being refuse, status=<n> or cut=<bytes>.

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"strings"
)

func init() {
	http.DefaultTransport = verifTransport{}
	http.DefaultClient = &http.Client{}
}

type verifTransport struct{}

func (verifTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		req.Body.Close()
	}
	name := path.Base(req.URL.Path)
	content, err := os.ReadFile("ucd/" + name)
	if err != nil {
		return nil, fmt.Errorf("no such file here: %s", req.URL)
	}
	status := 200
	body := &verifBody{content: content, end: io.EOF}
	if fault, file, ok := strings.Cut(os.Getenv("VERIF_FAULT"), ":"); ok && file == name {
		var n int
		switch {
		case fault == "refuse":
			return nil, errors.New("connection refused")
		case strings.HasPrefix(fault, "status="):
			fmt.Sscanf(fault, "status=%d", &status)
			body.content = []byte("<html>\n<body>There is nothing here</body>\n</html>\n")
		case strings.HasPrefix(fault, "cut="):
			fmt.Sscanf(fault, "cut=%d", &n)
			body.content, body.end = content[:n], io.ErrUnexpectedEOF
		}
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/plain"}}, ContentLength: -1, Body: body, Request: req,
	}, nil
}

// verifBody gives its content in pieces of various lengths.
type verifBody struct {
	content []byte
	end     error
	n       int
}

func (b *verifBody) Read(p []byte) (int, error) {
	if len(b.content) == 0 {
		return 0, b.end
	}
	b.n = (b.n*5 + 7) % 4099
	n := len(p)
	if n > b.n+1 {
		n = b.n + 1
	}
	n = copy(p[:n], b.content)
	b.content = b.content[n:]

	return n, nil
}

func (*verifBody) Close() error { return nil }
