package vrt

import "net/http"

// OnServe gets the handler of a web server the program starts, and its address.
var OnServe func(h http.Handler, addr string) error

func serve(h http.Handler, addr string) error {
	if OnServe == nil {
		panic("vrt: a web server is started")
	}
	return OnServe(h, addr)
}

// HTTPRun replaces (*gin.Engine).Run.
func HTTPRun(h http.Handler, addr ...string) error {
	if len(addr) == 0 {
		addr = []string{":8080"}
	}
	return serve(h, addr[0])
}

// HTTPListen replaces http.ListenAndServe.
func HTTPListen(addr string, h http.Handler) error { return serve(h, addr) }

// HTTPServer replaces (*http.Server).ListenAndServe and Serve.
func HTTPServer(s *http.Server) error { return serve(s.Handler, s.Addr) }
