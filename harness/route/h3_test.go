package route

import (
	"context"
	"io"
	"net/http"
	"time"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

func ask3(qc quic.Connection, host, tok string) (int, string, error) {
	rt := (&http3.Transport{DisableCompression: true}).NewClientConn(qc)
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "GET", "https://"+host+"/x", nil)
	req.Header.Set("X-Tok", tok)
	resp, err := rt.RoundTrip(req)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}
